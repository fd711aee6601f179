pkg='edlisp/writer'
id='s22-lost-write-error'; prop='C14'
needs='a destination that is full exactly before the end of the last line'
breaks='the lost end of line is not reported'
edits=[('edlisp/writer/shell.go','''		if _, err := fmt.Fprintln(writer); err != nil {
			return err
		}
''','''		fmt.Fprintln(writer)
''')]
test='''package writer

import (
	"errors"
	"testing"

	"github.com/dhamidi/texted/edlisp"
)

type full struct{ room int }

func (f *full) Write(p []byte) (int, error) {
	if len(p) > f.room {
		return 0, errors.New("full")
	}
	f.room -= len(p)
	return len(p), nil
}

func TestSeededDemo(t *testing.T) {
	l := edlisp.NewList(edlisp.NewSymbol("abc"))
	if err := (&ShellWriter{}).Write(&full{3}, []edlisp.Value{l}); err == nil {
		t.Fatal("no error although the end of the line was lost")
	}
}
'''
