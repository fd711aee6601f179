pkg='edlisp'
exec(open('/verif/tools/seeds/common.inc').read())
id='s11-args-literals-first'; prop='C09'
needs='a call whose argument list mixes two nested calls with side effects where the later one runs first: the last argument is evaluated ahead of the others only when there are three or more'
breaks='arguments are not evaluated left to right'
edits=[('edlisp/eval.go','''		for i := 1; i < list.Len(); i++ {
			evaluatedArg, err := evalExpression(list.Get(i), env, buffer)
			if err != nil {
				return nil, err
			}
			args[i-1] = evaluatedArg
		}
''','''		for k := 1; k < list.Len(); k++ {
			i := k
			if list.Len() > 3 {
				// innermost first
				i = list.Len() - k
			}
			evaluatedArg, err := evalExpression(list.Get(i), env, buffer)
			if err != nil {
				return nil, err
			}
			args[i-1] = evaluatedArg
		}
''')]
test=H+'''	ins := func(s string) Value { return NewList(NewSymbol("insert"), NewString(s)) }
	b := NewBuffer("")
	Eval([]Value{NewList(NewSymbol("concat"), ins("1"), ins("2"), ins("3"))}, NewDefaultEnvironment(), b)
	state(t, b, "123", 4)
}
'''
