pkg='edlisp'
exec(open('/verif/tools/seeds/common.inc').read())
id='s09-error-index'; prop='C09'
needs='a script with a literal among its instructions, before the one that fails'
breaks='the index in the execution error does not count literals'
edits=[('edlisp/eval.go','''			return nil, NewExecutionError(err, program, i, expr, buffer, env)
''','''			return nil, NewExecutionError(err, program, callsBefore(program[:i]), expr, buffer, env)
'''),('edlisp/eval.go','''// evalExpression evaluates''','''// callsBefore counts the instructions in a part of a program.
func callsBefore(program []Value) int {
	n := 0
	for _, v := range program {
		if IsA(v, TheListKind) {
			n++
		}
	}
	return n
}

// evalExpression evaluates''')]
test=H+'''	call := func() Value { return NewList(NewSymbol("search-forward"), NewString("a")) }
	b := NewBuffer("xa")
	_, err := Eval([]Value{call(), NewString("note"), call()}, NewDefaultEnvironment(), b)
	ee, ok := err.(*ExecutionError)
	if !ok || ee.InstructionIndex != 2 {
		t.Fatalf("error %v, expected one at instruction 2", err)
	}
	state(t, b, "xa", 3)
}
'''
pkg='edlisp'
