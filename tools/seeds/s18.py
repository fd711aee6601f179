pkg='edlisp/parser'
id='s18-empty-argument'; prop='C15'
needs='a command with an empty nested array among its arguments'
breaks='the empty list is dropped, so the arguments behind it move up'
edits=[('edlisp/parser/json.go','''	for i, item := range arr[1:] {
		converted''','''	for i, item := range arr[1:] {
		if nested, ok := item.([]interface{}); ok && len(nested) == 0 {
			continue // nothing to convert
		}
		converted''')]
test='''package parser

import (
	"testing"

	"github.com/dhamidi/texted/edlisp"
)

func TestSeededDemo(t *testing.T) {
	es, err := ParseJSONString(`[["concat", [], "a"]]`)
	if err != nil {
		t.Fatal(err)
	}
	if n := es[0].(*edlisp.List).Len(); n != 3 {
		t.Fatalf("%d elements", n)
	}
}
'''
