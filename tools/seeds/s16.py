pkg='edlisp/parser'
id='s16-backslash-separator'; prop='C11'
needs='a backslash outside quotes right before a semicolon'
breaks='a semicolon outside quotes does not separate commands when a backslash precedes it'
edits=[('edlisp/parser/linebased.go','''		switch r {
		case '\\\\':
			current.WriteRune(r)
			if inQuotes {
				escapeNext = true
			}
		case '"':
			current.WriteRune(r)
			inQuotes = !inQuotes
		case ';':
''','''		switch r {
		case '\\\\':
			current.WriteRune(r)
			escapeNext = true
		case '"':
			current.WriteRune(r)
			inQuotes = !inQuotes
		case ';':
''')]
test='''package parser

import "testing"

func TestSeededDemo(t *testing.T) {
	es, err := ParseString("insert a\\\\; insert b")
	if err != nil {
		t.Fatal(err)
	}
	if len(es) != 2 {
		t.Fatalf("%d commands: %v", len(es), es)
	}
}
'''
