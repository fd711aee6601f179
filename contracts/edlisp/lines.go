package edlisp

import "strings"

// lineStart: the beginning of the line that position i (0-based) is on.
func lineStart(s string, i int) int {
	if i > 0 && i <= len(s) && s[i-1] != '\n' {
		return lineStart(s, i-1)
	}
	return i
}

// lineEnd: the first newline at or after i, or the end of the text.
func lineEnd(s string, i int) int {
	if i < len(s) && s[i] != '\n' {
		return lineEnd(s, i+1)
	}
	return i
}

// afterLines: the end of the n-th line from i, behind its newline.
func afterLines(s string, i, n int) int {
	if n <= 0 || i >= len(s) {
		return i
	}
	return afterLines(s, min(lineEnd(s, i)+1, len(s)), n-1)
}

// newlines: how many newlines precede position i.
func newlines(s string, i int) int {
	if i <= 0 || i > len(s) {
		return 0
	}
	if s[i-1] == '\n' {
		return newlines(s, i-1) + 1
	}
	return newlines(s, i-1)
}

// column: how many bytes from i (inclusive) back to the line's start.
func column(s string, i int) int {
	if i >= 0 && i < len(s) && s[i] != '\n' {
		return column(s, i-1) + 1
	}
	return 0
}

// linePos: where the n-th of the given lines starts.
func linePos(lines []string, n int) int {
	if n <= 0 || n > len(lines) {
		return 0
	}
	return linePos(lines, n-1) + len(lines[n-1]) + 1
}

//gover:contract BuiltinBeginningOfLine
//gover:prop C08
//gover:tags content=C06 mark=C06 match=C06 mstart=C06 mend=C06
func specBeginningOfLine(args []Value, b Buf) (Buf, Value, bool) {
	if !noArgs(args) {
		return b, nil, false
	}
	b.Point = lineStart(b.Content, b.Point-1) + 1
	return b, str(""), true
}

//gover:contract BuiltinEndOfLine
//gover:prop C08
//gover:tags content=C06 mark=C06 match=C06 mstart=C06 mend=C06
func specEndOfLine(args []Value, b Buf) (Buf, Value, bool) {
	if !noArgs(args) {
		return b, nil, false
	}
	b.Point = lineEnd(b.Content, b.Point-1) + 1
	return b, str(""), true
}

//gover:contract BuiltinGotoLine
//gover:prop C08
//gover:tags content=C06 mark=C06 match=C06 mstart=C06 mend=C06
func specGotoLine(args []Value, b Buf) (Buf, Value, bool) {
	if !oneNum(args) {
		return b, nil, false
	}
	lines := strings.Split(b.Content, "\n")
	b.Point = linePos(lines, clamp(intOf(args[0]), 1, len(lines))-1) + 1
	return b, str(""), true
}

//gover:contract BuiltinLineNumberAtPos
//gover:prop C08
//gover:tags content=C06 point=C06 mark=C06 match=C06 mstart=C06 mend=C06
func specLineNumberAtPos(args []Value, b Buf) (Buf, Value, bool) {
	if !noArgs(args) {
		return b, nil, false
	}
	return b, num(newlines(b.Content, b.Point-1) + 1), true
}

//gover:contract BuiltinCurrentColumn
//gover:prop C08
//gover:tags content=C06 point=C06 mark=C06 match=C06 mstart=C06 mend=C06
func specCurrentColumn(args []Value, b Buf) (Buf, Value, bool) {
	if !noArgs(args) {
		return b, nil, false
	}
	return b, num(column(b.Content, min(b.Point-1, len(b.Content)-1))), true
}

//gover:contract BuiltinMarkLine
//gover:prop C08
//gover:tags content=C06 match=C06 mstart=C06 mend=C06
func specMarkLine(args []Value, b Buf) (Buf, Value, bool) {
	if !optNum(args) {
		return b, nil, false
	}
	i := b.Point - 1
	b.Mark = lineStart(b.Content, i) + 1
	b.Point = afterLines(b.Content, i, count(args)) + 1
	return b, str(""), true
}

//gover:contract BuiltinDeleteLine
//gover:prop C08
//gover:tags content=C03 point=C03
func specDeleteLine(args []Value, b Buf) (Buf, Value, bool) {
	if !optNum(args) {
		return b, nil, false
	}
	i := b.Point - 1
	start := lineStart(b.Content, i)
	b.Content = b.Content[:start] + b.Content[afterLines(b.Content, i, count(args)):]
	b.Point = start + 1
	return b, str(""), true
}

//gover:contract BuiltinKillLine
//gover:prop C08
//gover:tags content=C03 point=C03
func specKillLine(args []Value, b Buf) (Buf, Value, bool) {
	if !optNum(args) {
		return b, nil, false
	}
	i := b.Point - 1
	if i >= len(b.Content) {
		return b, str(""), true
	}
	if count(args) == 1 {
		b.Content = b.Content[:i+1] + b.Content[lineEnd(b.Content, i+1):]
	} else {
		b.Content = b.Content[:i] + b.Content[afterLines(b.Content, i, count(args)):]
	}
	return b, str(""), true
}

//gover:lemma induct
func lemNewlines(s string, i int) bool {
	n := newlines(s, i)
	return trig(n) && 0 <= n && (n <= i || i < 0)
}

//gover:measure lemNewlines
func measNewlines(s string, i int) int { return i }

//gover:hyp lemNewlines
func hypNewlines(s string, i int) (string, int) { return s, i - 1 }
