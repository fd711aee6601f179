package edlisp

import (
	"errors"
	"strconv"
)

// applyBuiltin is the effect of calling fn: whatever the function is, it is a
// function of its arguments and the state of the buffer.
func applyBuiltin(fn BuiltinFn, args []Value, b Buf) (Buf, Value, error) {
	buf := concBuffer(b)
	v, err := fn(args, buf)
	return absBuffer(buf), v, err
}

// evalOne is the meaning of one expression: the buffer afterwards, the value
// and the error (anyError where the text of the error is not specified).
func evalOne(e Value, fns map[string]BuiltinFn, b Buf) (Buf, Value, error) {
	switch v := e.(type) {
	case *String, *Number:
		return b, e, nil
	case *List:
		if len(v.Elements) == 0 {
			return b, nil, anyError()
		}
		name, ok := v.Elements[0].(*Symbol)
		if !ok {
			return b, nil, anyError()
		}
		fn, ok := fns[name.Name]
		if !ok {
			return b, nil, anyError()
		}
		b1, args, err := evalArgs(v.Elements, 1, []Value{}, fns, b)
		if err != nil {
			return b1, nil, err
		}
		return applyBuiltin(fn, args, b1)
	}
	return b, nil, anyError()
}

// evalArgs evaluates the elements from i on, left to right.
func evalArgs(es []Value, i int, done []Value, fns map[string]BuiltinFn, b Buf) (Buf, []Value, error) {
	if i < 0 || i >= len(es) {
		return b, done, nil
	}
	b1, v, err := evalOne(es[i], fns, b)
	if err != nil {
		return b1, nil, err
	}
	return evalArgs(es, i+1, append(done, v), fns, b1)
}

//gover:contract evalExpression
//gover:prop C09
func specEvalExpression(expr Value, env *Environment, b Buf) (Buf, Value, error) {
	return evalOne(expr, env.Functions, b)
}

// Failure is what an execution error reports.
type Failure struct {
	Failed  bool
	Cause   error
	Program []Value
	Instr   Value
	Index   int
	Content string
	Point   int
	Mark    int
	Match   string
	MStart  int
	MEnd    int
}

//gover:abs
func absFailure(e *ExecutionError) Failure {
	return Failure{true, e.OriginalError, e.Program, e.CurrentInstruction, e.InstructionIndex, e.BufferContents, e.Point, e.Mark, e.LastSearchMatch, e.LastSearchStart, e.LastSearchEnd}
}

func failure(cause error, program []Value, i int, instr Value, b Buf) Failure {
	return Failure{true, cause, program, instr, i, b.Content, b.Point, mark(b), b.Match, b.MStart, b.MEnd}
}

//gover:contract NewExecutionError
//gover:prop C09
func specNewExecutionError(cause error, program []Value, i int, instr Value, b Buf, env *Environment) (Buf, Failure) {
	return b, failure(cause, program, i, instr, b)
}

// evalFrom runs the instructions from i on; val is the value so far. The
// last result is the index of the instruction that failed, or len(program).
func evalFrom(program []Value, i int, val Value, fns map[string]BuiltinFn, b Buf) (Buf, Value, error, int) {
	if i < 0 || i >= len(program) {
		return b, val, nil, i
	}
	b1, v, err := evalOne(program[i], fns, b)
	if err != nil {
		return b1, nil, err, i
	}
	return evalFrom(program, i+1, v, fns, b1)
}

func runProgram(program []Value, fns map[string]BuiltinFn, b Buf) (Buf, Value, Failure) {
	b1, v, err, i := evalFrom(program, 0, str(""), fns, b)
	if err != nil {
		return b1, nil, failure(err, program, i, program[i], b1)
	}
	return b1, v, Failure{}
}

//gover:contract EvalWithTrace
//gover:prop C09
func specEvalWithTrace(program []Value, env *Environment, b Buf, trace TraceCallback) (Buf, Value, Failure) {
	return runProgram(program, env.Functions, b)
}

//gover:contract Eval
//gover:prop C09
func specEval(program []Value, env *Environment, b Buf) (Buf, Value, Failure) {
	return runProgram(program, env.Functions, b)
}

var errAny = errors.New("any error")

// anyError stands for an error whose text is not specified.
func anyError() error { return errAny }

// RunOn is what a program makes of a text: the text afterwards, and whether
// the program ran to completion.
func RunOn(program []Value, text string) (string, bool) {
	b, _, f := runProgram(program, defaultFunctions(), Buf{Content: text, Point: 1, Mark: 1})
	return b.Content, !f.Failed
}

// Evaluates is what a program makes of a buffer in the default environment:
// the buffer afterwards, the value, and whether the program ran to completion.
func Evaluates(program []Value, b Buf) (Buf, Value, bool) {
	b1, v, f := runProgram(program, defaultFunctions(), b)
	return b1, v, !f.Failed
}

// Start is a buffer before anything has run on it.
func Start(text string) Buf { return Buf{Content: text, Point: 1, Mark: 1} }

// specError is the message of an execution error: the cause, the instruction
// and its index, and where cursor and mark were.
//
//gover:contract (*ExecutionError).Error
//gover:prop C09
func specError(f Failure) (Failure, string) {
	what := "(nil instruction)"
	if f.Instr != nil {
		what = Show(f.Instr)
	}
	return f, f.Cause.Error() + " (at instruction " + strconv.Itoa(f.Index) + ": " + what + ", point=" + strconv.Itoa(f.Point) + ", mark=" + strconv.Itoa(f.Mark) + ")"
}

//gover:requires (*ExecutionError).Error
func hasCause(f Failure) bool { return f.Cause != nil }

//gover:contract (*ExecutionError).Unwrap
//gover:prop C09
func specUnwrap(f Failure) (Failure, error) { return f, f.Cause }
