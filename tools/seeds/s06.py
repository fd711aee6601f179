exec(open('/verif/tools/seeds/common.inc').read())
id='s06-kill-word-region'; prop='C06'
needs='a mark behind the killed words and a later query of the mark after an insertion'
breaks='backward-kill-word moves the mark as well'
edits=[('edlisp/builtin_backward_kill_word.go','''	buffer.SetPoint(pos + 1) // Convert back to 1-based
''','''	if buffer.Mark() > len(newContent) {
		buffer.SetMark(pos + 1)
	}
	buffer.SetPoint(pos + 1) // Convert back to 1-based
''')]
test=H+'''	b := NewBuffer("foo bar baz")
	b.SetMark(12)
	b.SetPoint(4)
	runDemo(b, BuiltinBackwardKillWord)
	if b.Mark() != 8 {
		t.Fatal(b.Mark())
	}
}
'''
