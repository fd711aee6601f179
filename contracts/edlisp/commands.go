package edlisp

// The function table: every command name is bound to the command of that name.
//
//gover:contract NewDefaultEnvironment
//gover:prop C13
func specNewDefaultEnvironment() *Environment {
	return &Environment{Functions: defaultFunctions()}
}

// defaultFunctions is what each name means.
//
//gover:opaque NewDefaultEnvironment
func defaultFunctions() map[string]BuiltinFn {
	return map[string]BuiltinFn{
		"backward-char":            BuiltinBackwardChar,
		"backward-kill-word":       BuiltinBackwardKillWord,
		"backward-word":            BuiltinBackwardWord,
		"beginning-of-buffer":      BuiltinBeginningOfBuffer,
		"beginning-of-line":        BuiltinBeginningOfLine,
		"buffer-size":              BuiltinBufferSize,
		"buffer-substring":         BuiltinBufferSubstring,
		"capitalize":               BuiltinCapitalize,
		"concat":                   BuiltinConcat,
		"current-column":           BuiltinCurrentColumn,
		"delete-backward-char":     BuiltinDeleteBackwardChar,
		"delete-char":              BuiltinDeleteChar,
		"delete-line":              BuiltinDeleteLine,
		"delete-region":            BuiltinDeleteRegion,
		"downcase":                 BuiltinDowncase,
		"end-of-buffer":            BuiltinEndOfBuffer,
		"end-of-line":              BuiltinEndOfLine,
		"exchange-point-and-mark":  BuiltinExchangePointAndMark,
		"forward-char":             BuiltinForwardChar,
		"forward-word":             BuiltinForwardWord,
		"goto-char":                BuiltinGotoChar,
		"goto-line":                BuiltinGotoLine,
		"insert":                   BuiltinInsert,
		"kill-line":                BuiltinKillLine,
		"kill-word":                BuiltinKillWord,
		"length":                   BuiltinLength,
		"line-number-at-pos":       BuiltinLineNumberAtPos,
		"looking-at":               BuiltinLookingAt,
		"looking-back":             BuiltinLookingBack,
		"mark":                     BuiltinMark,
		"mark-line":                BuiltinMarkLine,
		"mark-whole-buffer":        BuiltinMarkWholeBuffer,
		"mark-word":                BuiltinMarkWord,
		"point":                    BuiltinPoint,
		"point-max":                BuiltinPointMax,
		"point-min":                BuiltinPointMin,
		"re-search-backward":       BuiltinReSearchBackward,
		"re-search-forward":        BuiltinReSearchForward,
		"region-beginning":         BuiltinRegionBeginning,
		"region-end":               BuiltinRegionEnd,
		"replace-match":            BuiltinReplaceMatch,
		"replace-regexp-in-string": BuiltinReplaceRegexpInString,
		"replace-region":           BuiltinReplaceRegion,
		"search-backward":          BuiltinSearchBackward,
		"search-forward":           BuiltinSearchForward,
		"set-mark":                 BuiltinSetMark,
		"set-mark-command":         BuiltinSetMarkCommand,
		"string-match":             BuiltinStringMatch,
		"substring":                BuiltinSubstring,
		"upcase":                   BuiltinUpcase,
	}
}

// After initialisation exactly the commands of the default environment are
// documented, each under its own name.
//
//gover:contract init final
//gover:prop C13
func docsAgree() bool {
	env := NewDefaultEnvironment()
	docs := GetAllDocumentation()
	if len(docs) != len(env.Functions) || GetRegisteredFunctionCount() != len(docs) {
		return false
	}
	for _, d := range docs {
		if _, ok := env.Functions[d.Name]; !ok {
			return false
		}
	}
	for name := range env.Functions {
		d, ok := GetDocumentation(name)
		if !ok || d.Name != name {
			return false
		}
	}
	return true
}
