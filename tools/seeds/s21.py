pkg='edlisp'
id='s21-large-number'; prop='C14'
needs='a whole number beyond the range of an int'
breaks='the number is written as a different number'
edits=[('edlisp/number.go','''	if num.Value == float64(int(num.Value)) {
		return fmt.Sprintf("%.0f", num.Value)
	}''','''	if num.Value == math.Trunc(num.Value) && !math.IsInf(num.Value, 0) {
		return strconv.Itoa(int(num.Value))
	}'''),('edlisp/number.go','''import "fmt"
''','''import (
	"fmt"
	"math"
	"strconv"
)
''')]
test='''package edlisp

import (
	"strconv"
	"testing"
)

func TestSeededDemo(t *testing.T) {
	s := NewNumber(1e20).String()
	if f, err := strconv.ParseFloat(s, 64); err != nil || f != 1e20 {
		t.Fatalf("1e20 is written as %s", s)
	}
}
'''
