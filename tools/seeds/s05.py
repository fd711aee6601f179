exec(open('/verif/tools/seeds/common.inc').read())
id='s05-substring-end-order'; prop='C12'
needs='an end position of 0 given to buffer-substring'
breaks='buffer-substring takes end position 0 for the end of the text'
edits=[('edlisp/builtin_buffer_substring.go','''	// Handle special case: -1 means end of buffer
	if end == -1 {
		end = len(content) + 1
	}

	start-- // Convert to 0-based
	end--   // Convert to 0-based
''','''	start-- // Convert to 0-based

	// Handle special case: -1 means end of buffer
	if end--; end < 0 {
		end = len(content)
	}
''')]
test=H+'''	b := NewBuffer("abc")
	v, _ := runDemo(b, BuiltinBufferSubstring, NewNumber(1), NewNumber(0))
	if v.(*String).Value != "" {
		t.Fatal(v)
	}
}
'''
