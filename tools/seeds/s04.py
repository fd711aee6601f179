exec(open('/verif/tools/seeds/common.inc').read())
id='s04-looking-at-match-data'; prop='C06'
needs='a looking-at that succeeds between a search and the replacement of its match'
breaks='looking-at, a query, overwrites the remembered match'
edits=[('edlisp/builtin_looking_at.go','''	if match != nil && match[0] == 0 {
''','''	if match != nil && match[0] == 0 {
		buffer.lastSearchMatch = content[pos : pos+match[1]]
		buffer.lastSearchStart = pos + 1
		buffer.lastSearchEnd = pos + match[1] + 1
''')]
test=H+'''	b := NewBuffer("foo bar")
	runDemo(b, BuiltinSearchForward, NewString("foo"))
	runDemo(b, BuiltinLookingAt, NewString(" b"))
	runDemo(b, BuiltinReplaceMatch, NewString("X"))
	state(t, b, "X bar", 2)
}
'''
