pkg='edlisp'
exec(open('/verif/tools/seeds/common.inc').read())
id='s10-append-shares'; prop='C16'
needs='two appends to the same list whose element slice has spare capacity (for example the result of an earlier append)'
breaks='List.Append writes into the backing array it shares with the list it is given, so a second append changes the first result'
edits=[('edlisp/list.go','''	newElements := make([]Value, len(list.Elements)+1)
	copy(newElements, list.Elements)
	newElements[len(list.Elements)] = element
	return &List{Elements: newElements}
''','''	return &List{Elements: append(list.Elements, element)}
''')]
test=H+'''	l := NewEmptyList()
	for i := 0; i < 5; i++ {
		l = l.Append(NewIntNumber(i))
	}
	a := l.Append(NewString("a"))
	l.Append(NewString("b"))
	if s := a.Get(5).(*String).Value; s != "a" {
		t.Fatalf("the sixth element of the first list is %q", s)
	}
	_ = runDemo
	_ = state
}
'''
