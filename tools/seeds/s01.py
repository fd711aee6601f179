exec(open('/verif/tools/seeds/common.inc').read())
id='s01-backward-word-single'; prop='C07'
needs='a one-character word (or gap) at the very beginning of the text and a backward motion that reaches it as its own step'
breaks='backward-word stops one word early when only one byte is left before the cursor'
edits=[('edlisp/builtin_backward_word.go','for i := 0; i < count && pos > 0; i++ {','for i := 0; i < count && pos > 1; i++ {')]
test=H+'''	b := NewBuffer("a bc")
	b.SetPoint(2)
	runDemo(b, BuiltinBackwardWord)
	state(t, b, "a bc", 1)
}
'''
