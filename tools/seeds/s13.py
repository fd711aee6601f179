pkg='edlisp'
exec(open('/verif/tools/seeds/common.inc').read())
id='s13-command-alias'; prop='C13'
edits=[('edlisp/eval.go','''env.Functions["re-search-backward"] = BuiltinReSearchBackward''','''env.Functions["re-search-backward"] = BuiltinSearchBackward''')]
needs='running re-search-backward through the default environment with a pattern that does not match itself'
breaks='the name re-search-backward is bound to the literal search'
test=H+'''	_ = runDemo
	env := NewDefaultEnvironment()
	b := NewBuffer("one two")
	b.SetPoint(8)
	if _, err := env.Functions["re-search-backward"]([]Value{NewString("t.o")}, b); err != nil {
		t.Fatal(err)
	}
	if b.Point() != 8 {
		t.Fatalf("re-search-backward went to %d", b.Point())
	}
	_ = state
}
'''
