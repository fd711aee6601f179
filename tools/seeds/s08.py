pkg='edlisp'
exec(open('/verif/tools/seeds/common.inc').read())
id='s08-replace-match-whole'; prop='C05'
needs='a replacement text that contains the two bytes \\& and a match to put there'
breaks='replace-match inserts the matched text for \\& instead of taking the replacement literally'
edits=[('edlisp/builtin_replace_match.go','\tstr := args[0].(*String)\n','\tstr := NewString(strings.ReplaceAll(args[0].(*String).Value, `\\&`, buffer.lastSearchMatch))\n'),
('edlisp/builtin_replace_match.go','import (\n\t"fmt"\n','import (\n\t"fmt"\n\t"strings"\n')]
test=H+'''	b := NewBuffer("x ab y")
	runDemo(b, BuiltinSearchForward, NewString("ab"))
	runDemo(b, BuiltinReplaceMatch, NewString(`<\\\\&>`))
	state(t, b, `x <\\\\&> y`, 7)
}
'''.replace('\\\\\\\\','\\\\').replace('\\\\&','\\&')
