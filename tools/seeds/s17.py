pkg='edlisp/parser'
id='s17-fast-unquote'; prop='C11'
needs='a token that starts and ends with a quote, holds another one and no backslash'
breaks='text behind a closed string literal is taken into the string instead of being rejected'
edits=[('edlisp/parser/linebased.go','''		unquoted, err := strconv.Unquote(token)
''','''		if !strings.Contains(token, `\\`) {
			// nothing to decode
			return &edlisp.String{Value: token[1 : len(token)-1]}, nil
		}
		unquoted, err := strconv.Unquote(token)
''')]
test='''package parser

import "testing"

func TestSeededDemo(t *testing.T) {
	es, err := ParseString(`insert "a"b"c"`)
	if err == nil {
		t.Fatalf("accepted: %v", es)
	}
}
'''
