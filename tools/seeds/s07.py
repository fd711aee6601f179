exec(open('/verif/tools/seeds/common.inc').read())
id='s07-kill-word-nothing'; prop='C01'
needs='backward-kill-word at the end of the text when there is nothing to delete before the cursor (empty text, or a count of 0)'
breaks='backward-kill-word indexes past the end of the text'
edits=[('edlisp/builtin_backward_kill_word.go','if endIndex > len(content) {','if pos < startPos && endIndex > len(content) {')]
test=H+'''	runDemo(NewBuffer(""), BuiltinBackwardKillWord)
	b := NewBuffer("ab")
	b.SetPoint(3)
	runDemo(b, BuiltinBackwardKillWord, NewNumber(0))
	state(t, b, "ab", 3)
}
'''
pkg='edlisp'
