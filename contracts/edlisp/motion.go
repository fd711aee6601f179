package edlisp

//gover:contract (*Buffer).SetPoint raw
//gover:prop C02
func specSetPoint(b Buf, pos int) Buf {
	b.Point = clamp(pos, 1, end(b))
	return b
}

//gover:contract (*Buffer).SetMark raw
//gover:prop C02
func specSetMark(b Buf, pos int) Buf {
	b.Mark = clamp(pos, 1, end(b))
	return b
}

//gover:contract (*Buffer).Point raw
//gover:prop C02
func specBufPoint(b Buf) (Buf, int) { return b, b.Point }

//gover:contract (*Buffer).Mark raw
//gover:prop C02
func specBufMark(b Buf) (Buf, int) { return b, clamp(b.Mark, 1, end(b)) }

//gover:contract NewBuffer
//gover:prop C02
func specNewBuffer(content string) Buf {
	return Buf{Content: content, Point: 1, Mark: 1}
}

//gover:contract BuiltinGotoChar
//gover:prop C07
//gover:tags content=C06 mark=C06 match=C06 mstart=C06 mend=C06
func specGotoChar(args []Value, b Buf) (Buf, Value, bool) {
	if !oneNum(args) {
		return b, nil, false
	}
	b.Point = clamp(intOf(args[0]), 1, end(b))
	return b, str(""), true
}

//gover:contract BuiltinForwardChar
//gover:prop C07
//gover:tags content=C06 mark=C06 match=C06 mstart=C06 mend=C06
func specForwardChar(args []Value, b Buf) (Buf, Value, bool) {
	if !optNum(args) {
		return b, nil, false
	}
	b.Point = clamp(b.Point+count(args), 1, end(b))
	return b, str(""), true
}

//gover:contract BuiltinBackwardChar
//gover:prop C07
//gover:tags content=C06 mark=C06 match=C06 mstart=C06 mend=C06
func specBackwardChar(args []Value, b Buf) (Buf, Value, bool) {
	if !optNum(args) {
		return b, nil, false
	}
	b.Point = clamp(b.Point-count(args), 1, end(b))
	return b, str(""), true
}

//gover:contract BuiltinBeginningOfBuffer
//gover:prop C07
//gover:tags content=C06 mark=C06 match=C06 mstart=C06 mend=C06
func specBeginningOfBuffer(args []Value, b Buf) (Buf, Value, bool) {
	if !noArgs(args) {
		return b, nil, false
	}
	b.Point = 1
	return b, str(""), true
}

//gover:contract BuiltinEndOfBuffer
//gover:prop C07
//gover:tags content=C06 mark=C06 match=C06 mstart=C06 mend=C06
func specEndOfBuffer(args []Value, b Buf) (Buf, Value, bool) {
	if !noArgs(args) {
		return b, nil, false
	}
	b.Point = end(b)
	return b, str(""), true
}

func isWord(c byte) bool {
	return c >= 'a' && c <= 'z' || c >= 'A' && c <= 'Z' || c >= '0' && c <= '9'
}

// wordStart: the first position at or after i (0-based) that holds a word character.
func wordStart(s string, i int) int {
	if i < len(s) && !isWord(s[i]) {
		return wordStart(s, i+1)
	}
	return i
}

// wordEnd: the first position at or after i that does not.
func wordEnd(s string, i int) int {
	if i < len(s) && isWord(s[i]) {
		return wordEnd(s, i+1)
	}
	return i
}

// forwardWords: where n word ends lie after i.
func forwardWords(s string, i, n int) int {
	if n <= 0 || i >= len(s) {
		return i
	}
	return forwardWords(s, wordEnd(s, wordStart(s, i)), n-1)
}

//gover:contract BuiltinForwardWord
//gover:prop C07
//gover:tags content=C06 mark=C06 match=C06 mstart=C06 mend=C06
func specForwardWord(args []Value, b Buf) (Buf, Value, bool) {
	if !optNum(args) {
		return b, nil, false
	}
	b.Point = forwardWords(b.Content, b.Point-1, count(args)) + 1
	return b, str(""), true
}
