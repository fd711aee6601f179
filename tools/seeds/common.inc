H='''package edlisp

import "testing"

func runDemo(b *Buffer, f BuiltinFn, args ...Value) (Value, error) { return f(args, b) }

func state(t *testing.T, b *Buffer, text string, point int) {
	t.Helper()
	if b.String() != text || b.Point() != point {
		t.Fatalf("text %q point %d, expected %q %d", b.String(), b.Point(), text, point)
	}
}

func TestSeededDemo(t *testing.T) {
'''
pkg='edlisp'
