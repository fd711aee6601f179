pkg='edlisp'
exec(open('/verif/tools/seeds/common.inc').read())
id='s12-doc-name'; prop='C13'
needs='asking for the documentation of looking-back'
breaks='looking-back is registered under the name of looking-at; one registration replaces the other and looking-back stays callable but undocumented'
edits=[('edlisp/builtin_looking_back.go','''		Name:        "looking-back",''','''		Name:        "looking-at",''')]
test=H+'''	for n := range NewDefaultEnvironment().Functions {
		if d, ok := GetDocumentation(n); !ok || d.Name != n {
			t.Fatalf("%s is callable but not documented", n)
		}
	}
	_ = runDemo
	_ = state
}
'''
