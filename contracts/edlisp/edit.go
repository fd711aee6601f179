package edlisp

//gover:contract (*Buffer).Insert
//gover:prop C03
func specBufInsert(b Buf, text string) Buf {
	i := b.Point - 1
	b.Content = b.Content[:i] + text + b.Content[i:]
	b.Point += len(text)
	return b
}

//gover:contract BuiltinInsert
//gover:prop C03
func specInsert(args []Value, b Buf) (Buf, Value, bool) {
	if !oneStr(args) {
		return b, nil, false
	}
	return specBufInsert(b, strOf(args[0])), str(""), true
}

// splice replaces the bytes [start,stop) of s.
func splice(s string, start, stop int, with string) string {
	return s[:start] + with + s[stop:]
}

//gover:contract BuiltinDeleteChar
//gover:prop C03
func specDeleteChar(args []Value, b Buf) (Buf, Value, bool) {
	if !optNum(args) {
		return b, nil, false
	}
	i := b.Point - 1
	b.Content = splice(b.Content, i, clamp(i+count(args), i, len(b.Content)), "")
	return b, str(""), true
}

//gover:contract BuiltinDeleteBackwardChar
//gover:prop C03
func specDeleteBackwardChar(args []Value, b Buf) (Buf, Value, bool) {
	if !optNum(args) {
		return b, nil, false
	}
	i := b.Point - 1
	start := clamp(i-count(args), 0, i)
	b.Content = splice(b.Content, start, i, "")
	b.Point = start + 1
	return b, str(""), true
}

//gover:contract BuiltinDeleteRegion
//gover:prop C03
func specDeleteRegion(args []Value, b Buf) (Buf, Value, bool) {
	if !noArgs(args) {
		return b, nil, false
	}
	start, stop := min(mark(b), b.Point), max(mark(b), b.Point)
	b.Content = splice(b.Content, start-1, stop-1, "")
	b.Point = start
	return b, str(""), true
}

//gover:contract BuiltinReplaceRegion
//gover:prop C03
func specReplaceRegion(args []Value, b Buf) (Buf, Value, bool) {
	if !oneStr(args) {
		return b, nil, false
	}
	start, stop := min(mark(b), b.Point), max(mark(b), b.Point)
	if start == stop {
		return b, str(""), true
	}
	b.Content = splice(b.Content, start-1, stop-1, strOf(args[0]))
	b.Point = start + len(strOf(args[0]))
	return b, str(""), true
}

// matched: the remembered match is still what the text holds there.
func matched(b Buf) bool {
	return b.Match != "" && b.MStart >= 1 && b.MStart < b.MEnd && b.MEnd <= end(b) &&
		b.Content[b.MStart-1:b.MEnd-1] == b.Match
}

//gover:contract BuiltinReplaceMatch
//gover:prop C05
//gover:tags errframe=C05,C06
func specReplaceMatch(args []Value, b Buf) (Buf, Value, bool) {
	if !oneStr(args) || !matched(b) {
		return b, nil, false
	}
	b.Content = splice(b.Content, b.MStart-1, b.MEnd-1, strOf(args[0]))
	b.Point = b.MStart + len(strOf(args[0]))
	return b, str(""), true
}
