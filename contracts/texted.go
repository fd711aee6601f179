package texted

import (
	"errors"

	"github.com/dhamidi/texted/edlisp"
	"github.com/dhamidi/texted/edlisp/parser"
)

// World is what lies outside a program: files, standard input and standard
// output. Its components are arbitrary implementations of these interfaces;
// the verifier treats reading and writing as unknown functions of them.
type World struct {
	Disk   Disk
	Source Source
	Stream Stream
}

type Disk interface {
	Read(name string) (string, error)
	Write(name, text string) (Disk, error)
}

type Source interface {
	ReadAll() (string, error)
}

type Stream interface {
	Write(s string) (Stream, error)
}

var errAny = errors.New("any error")

func anyError() error { return errAny }

// Run is what a script in a given format makes of a text.
func Run(text, script, format string) (string, bool) {
	var p []edlisp.Value
	var ok bool
	switch format {
	case "shell", "sexp":
		p, ok = parser.ParsesLines(script)
	case "json":
		p, ok = parser.ParsesJSON(script)
	}
	if !ok {
		return "", false
	}
	out, done := edlisp.RunOn(p, text)
	if !done {
		return "", false
	}
	return out, true
}

//gover:contract IsValidFormat
//gover:prop C10
func specIsValidFormat(format string) bool {
	return format == "shell" || format == "sexp" || format == "json"
}

//gover:contract ExecuteScript
//gover:prop C10
func specExecuteScript(input, script string) (string, bool) { return Run(input, script, "shell") }

//gover:contract ExecuteScriptWithFormat
//gover:prop C10
func specExecuteScriptWithFormat(input, script, format string) (string, bool) {
	return Run(input, script, format)
}

// EditOne edits one file: the disk afterwards and whether it worked.
func EditOne(d Disk, name, script, format string) (Disk, bool) {
	text, err := d.Read(name)
	if err != nil {
		return d, false
	}
	out, ok := Run(text, script, format)
	if !ok {
		return d, false
	}
	d1, err := d.Write(name, out)
	return d1, err == nil
}

//gover:contract EditFile
//gover:prop C10
func specEditFile(w World, filename, script string) (World, bool) {
	d, ok := EditOne(w.Disk, filename, script, "shell")
	w.Disk = d
	return w, ok
}

//gover:contract EditFileWithFormat
//gover:prop C10
func specEditFileWithFormat(w World, filename, script, format string) (World, bool) {
	d, ok := EditOne(w.Disk, filename, script, format)
	w.Disk = d
	return w, ok
}

// editAll edits the files from i on, one after the other.
func editAll(d Disk, files []string, i int, script, format string, done []EditResult) (Disk, []EditResult) {
	if i < 0 || i >= len(files) {
		return d, done
	}
	d1, ok := EditOne(d, files[i], script, format)
	r := EditResult{Filename: files[i], Success: ok}
	if !ok {
		r.Error = anyError()
	}
	return editAll(d1, files, i+1, script, format, append(done, r))
}

//gover:contract EditFiles
//gover:prop C10
func specEditFiles(w World, files []string, script string) (World, []EditResult, bool) {
	d, rs := editAll(w.Disk, files, 0, script, "shell", []EditResult{})
	w.Disk = d
	return w, rs, true
}

//gover:contract EditFilesWithFormat
//gover:prop C10
func specEditFilesWithFormat(w World, files []string, script, format string) (World, []EditResult, bool) {
	d, rs := editAll(w.Disk, files, 0, script, format, []EditResult{})
	w.Disk = d
	return w, rs, true
}

// EditAll is the disk after the files have been edited, one after the other.
func EditAll(d Disk, files []string, script string) Disk {
	d, _ = editAll(d, files, 0, script, "shell", []EditResult{})
	return d
}
