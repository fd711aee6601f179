pkg='edlisp/parser'
id='s19-truncated-stream'; prop='C15'
needs='a stream of commands cut off in the middle of one'
breaks='the commands before the cut are accepted as a whole script'
edits=[('edlisp/parser/json.go','''		if err == io.EOF {
			break''','''		if err == io.EOF || err == io.ErrUnexpectedEOF {
			break''')]
test='''package parser

import (
	"strings"
	"testing"
)

func TestSeededDemo(t *testing.T) {
	_, err := ParseJSONReader(strings.NewReader(`["a"] ["b", `))
	if err == nil {
		t.Fatal("accepted")
	}
}
'''
