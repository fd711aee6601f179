package commands

import (
	"io"

	"github.com/dhamidi/texted"
	"github.com/dhamidi/texted/edlisp"
	"github.com/dhamidi/texted/edlisp/parser"
	"github.com/dhamidi/texted/edlisp/writer"
)

//gover:contract isValidFormat
//gover:prop C14
func specIsValidFormat(format string) bool {
	return format == "shell" || format == "sexp" || format == "json"
}

//gover:contract parseInput
//gover:prop C14
func specParseInput(r io.Reader, format string) ([]edlisp.Value, bool) {
	switch format {
	case "shell", "sexp":
		return parser.ReadsLines(r)
	case "json":
		return parser.ReadsJSON(r)
	}
	return nil, false
}

//gover:contract writeOutput
//gover:prop C14
func specWriteOutput(d writer.Sink, es []edlisp.Value, format string) (writer.Sink, bool) {
	return writer.Written(d, es, format)
}

// Console is standard input and output.
type Console struct {
	Source texted.Source
	Out    writer.Sink
}

//gover:contract runParse
//gover:prop C14
func specRunParse(w Console, args *runParseArgs) (Console, bool) {
	if !specIsValidFormat(args.inputFormat) || !specIsValidFormat(args.outputFormat) {
		return w, false
	}
	text, err := w.Source.ReadAll()
	var es []edlisp.Value
	ok := err == nil
	if args.inputFormat == "json" {
		es, ok = parser.DecodesJSON(text, err)
	} else if ok {
		es, ok = parser.ParsesLines(text)
	}
	if !ok {
		return w, false
	}
	w.Out, ok = writer.Written(w.Out, es, args.outputFormat)
	return w, ok
}
