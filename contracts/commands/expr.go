package commands

import (
	"github.com/dhamidi/texted"
	"github.com/dhamidi/texted/edlisp"
	"github.com/dhamidi/texted/edlisp/parser"
	"github.com/dhamidi/texted/edlisp/writer"
)

// evaluates reports whether the expressions from i on parse, run and can be
// printed, one after the other on one buffer.
func evaluates(b edlisp.Buf, exprs []string, i int, format, out string, quiet bool) bool {
	if i < 0 || i >= len(exprs) {
		return true
	}
	var p []edlisp.Value
	var ok bool
	switch format {
	case "shell", "sexp":
		p, ok = parser.ParsesLines(exprs[i])
	case "json":
		p, ok = parser.ParsesJSON(exprs[i])
	}
	if !ok {
		return false
	}
	b1, v, ok := edlisp.Evaluates(p, b)
	if !ok || !quiet && !writer.Writes(v, out) {
		return false
	}
	return evaluates(b1, exprs, i+1, format, out, quiet)
}

//gover:contract evaluateExpressionsOnContent
//gover:prop C10
func specEvaluateExpressionsOnContent(w World, args *evaluateExpressionsOnContentArgs) (World, bool) {
	return w, evaluates(edlisp.Start(args.content), args.expressions, 0, args.scriptFormat, args.outputFormat, args.quiet)
}

// prints is what evaluating the expressions on the files from i on comes to.
func prints(d texted.Disk, files []string, i int, exprs []string, format, out string, quiet bool) bool {
	if i < 0 || i >= len(files) {
		return true
	}
	text, err := d.Read(files[i])
	if err != nil || !evaluates(edlisp.Start(text), exprs, 0, format, out, quiet) {
		return false
	}
	return prints(d, files, i+1, exprs, format, out, quiet)
}

//gover:contract runExpressions
//gover:prop C10
func specRunExpressions(w World, args *runExpressionsArgs) (World, bool) {
	if len(args.files) > 0 {
		return w, prints(w.Disk, args.files, 0, args.expressions, args.scriptFormat, args.outputFormat, args.quiet)
	}
	text, err := w.Source.ReadAll()
	return w, err == nil && evaluates(edlisp.Start(text), args.expressions, 0, args.scriptFormat, args.outputFormat, args.quiet)
}

// chosenFormat is the script format the flags select.
func chosenFormat(args *runEditArgs) string {
	switch {
	case args.shell:
		return "shell"
	case args.sexp:
		return "sexp"
	case args.json:
		return "json"
	}
	return args.scriptFormat
}

//gover:contract runEdit
//gover:prop C10
func specRunEdit(w World, args *runEditArgs) (World, bool) {
	format := chosenFormat(args)
	many := len(args.files) > 1
	if !texted.IsValidFormat(format) || args.outputFile != "" && (many || args.inPlace) || args.backupSuffix != "" && !args.inPlace {
		return w, false
	}
	exprs, err := args.cmd.Flags().GetStringArray("expression")
	if err != nil {
		return w, false
	}
	if len(exprs) > 0 {
		return specRunExpressions(w, &runExpressionsArgs{expressions: exprs, scriptFormat: format, outputFormat: args.outputFormat, quiet: args.quiet, files: args.files})
	}
	var script string
	if args.scriptFile != "" {
		script, err = w.Disk.Read(args.scriptFile)
		if err != nil {
			return w, false
		}
	} else {
		script, err = args.cmd.Flags().GetString("script")
		if err != nil || script == "" {
			return w, false
		}
	}
	if len(args.files) == 0 {
		return specProcessStdin(w, &processStdinArgs{script: script, scriptFormat: format, outputFile: args.outputFile, dryRun: args.dryRun})
	}
	return specProcessFiles(w, &processFilesArgs{files: args.files, script: script, scriptFormat: format, inPlace: args.inPlace, outputFile: args.outputFile, backupSuffix: args.backupSuffix, dryRun: args.dryRun})
}
