exec(open('/verif/tools/seeds/common.inc').read())
id='s02-re-backward-whole'; prop='C04'
needs='a regular expression whose match in the whole text spans the cursor while a shorter match ends before it'
breaks='re-search-backward searches the whole text and keeps matches that end before the cursor, so matches hidden by one that spans the cursor are missed'
edits=[('edlisp/builtin_re_search_backward.go','''	searchArea := content[:endPos]
	matches := re.FindAllStringIndex(searchArea, -1)
''','''	matches := re.FindAllStringIndex(content, -1)
	for len(matches) > 0 && matches[len(matches)-1][1] > endPos {
		matches = matches[:len(matches)-1]
	}
''')]
test=H+'''	b := NewBuffer("xaaay")
	b.SetPoint(3)
	if _, err := runDemo(b, BuiltinReSearchBackward, NewString("a+")); err != nil {
		t.Fatal(err)
	}
	state(t, b, "xaaay", 3)
}
'''
