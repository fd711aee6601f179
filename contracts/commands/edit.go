package commands

import (
	"github.com/dhamidi/texted"
)

type World = texted.World

// editTo runs a script on a text and writes the result to a file.
func editTo(w World, text, script, format, name string) (World, bool) {
	out, ok := texted.Run(text, script, format)
	if !ok {
		return w, false
	}
	d, err := w.Disk.Write(name, out)
	w.Disk = d
	return w, err == nil
}

// editToStdout runs a script on a text and prints the result.
func editToStdout(w World, text, script, format string) (World, bool) {
	out, ok := texted.Run(text, script, format)
	if !ok {
		return w, false
	}
	s, err := w.Stream.Write(out)
	w.Stream = s
	return w, err == nil
}

//gover:contract processSingleFileToOutput
//gover:prop C10
func specProcessSingleFileToOutput(w World, args *processSingleFileToOutputArgs) (World, bool) {
	if args.dryRun {
		return w, true
	}
	text, err := w.Disk.Read(args.filename)
	if err != nil {
		return w, false
	}
	return editTo(w, text, args.script, args.scriptFormat, args.outputFile)
}

//gover:contract processSingleFileToStdout
//gover:prop C10
func specProcessSingleFileToStdout(w World, args *processSingleFileToStdoutArgs) (World, bool) {
	if args.dryRun {
		return w, true
	}
	text, err := w.Disk.Read(args.filename)
	if err != nil {
		return w, false
	}
	return editToStdout(w, text, args.script, args.scriptFormat)
}

//gover:contract processStdin
//gover:prop C10
func specProcessStdin(w World, args *processStdinArgs) (World, bool) {
	text, err := w.Source.ReadAll()
	if err != nil {
		return w, false
	}
	if args.dryRun {
		return w, true
	}
	if args.outputFile != "" {
		return editTo(w, text, args.script, args.scriptFormat, args.outputFile)
	}
	return editToStdout(w, text, args.script, args.scriptFormat)
}

// editInPlace edits one file, after saving its text under another name if a
// suffix is given.
func editInPlace(d texted.Disk, name, suffix, script, format string) (texted.Disk, bool) {
	if suffix != "" {
		text, err := d.Read(name)
		if err != nil {
			return d, false
		}
		d1, err := d.Write(name+suffix, text)
		d = d1
		if err != nil {
			return d, false
		}
	}
	return texted.EditOne(d, name, script, format)
}

// editAllInPlace does so for all files from i on; a failure does not stop it.
func editAllInPlace(d texted.Disk, files []string, i int, suffix, script, format string, dry, failed bool) (texted.Disk, bool) {
	if i < 0 || i >= len(files) {
		return d, !failed
	}
	ok := true
	if !dry {
		d, ok = editInPlace(d, files[i], suffix, script, format)
	}
	return editAllInPlace(d, files, i+1, suffix, script, format, dry, failed || !ok)
}

//gover:contract processFilesInPlace
//gover:prop C10
func specProcessFilesInPlace(w World, args *processFilesInPlaceArgs) (World, bool) {
	return inPlace(w, args.files, args.backupSuffix, args.script, args.scriptFormat, args.dryRun)
}

func inPlace(w World, files []string, suffix, script, format string, dry bool) (World, bool) {
	d, ok := editAllInPlace(w.Disk, files, 0, suffix, script, format, dry, false)
	w.Disk = d
	return w, ok
}

//gover:contract processFiles
//gover:prop C10
func specProcessFiles(w World, args *processFilesArgs) (World, bool) {
	one := len(args.files) == 1
	switch {
	case one && args.outputFile != "":
		return specProcessSingleFileToOutput(w, &processSingleFileToOutputArgs{filename: args.files[0], script: args.script, scriptFormat: args.scriptFormat, outputFile: args.outputFile, dryRun: args.dryRun})
	case args.inPlace || args.outputFile != "":
		return inPlace(w, args.files, args.backupSuffix, args.script, args.scriptFormat, args.dryRun)
	case one:
		return specProcessSingleFileToStdout(w, &processSingleFileToStdoutArgs{filename: args.files[0], script: args.script, scriptFormat: args.scriptFormat, dryRun: args.dryRun})
	}
	return w, false
}
