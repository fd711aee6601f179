package edlisp

// backWord: the first position of the word run that ends at i.
func backWord(s string, i int) int {
	if i > 0 && i <= len(s) && isWord(s[i-1]) {
		return backWord(s, i-1)
	}
	return i
}

// backGap: the position behind the last word character before i.
func backGap(s string, i int) int {
	if i > 0 && i <= len(s) && !isWord(s[i-1]) {
		return backGap(s, i-1)
	}
	return i
}

// backwardWords: where n word starts lie before i.
func backwardWords(s string, i, n int) int {
	if n <= 0 || i <= 0 {
		return i
	}
	return backwardWords(s, backWord(s, backGap(s, i)), n-1)
}

//gover:contract BuiltinBackwardWord
//gover:prop C07
//gover:tags content=C06 mark=C06 match=C06 mstart=C06 mend=C06
func specBackwardWord(args []Value, b Buf) (Buf, Value, bool) {
	if !optNum(args) {
		return b, nil, false
	}
	b.Point = backwardWords(b.Content, b.Point-1, count(args)) + 1
	return b, str(""), true
}

//gover:contract BuiltinKillWord
//gover:prop C07
//gover:tags content=C03 point=C03
func specKillWord(args []Value, b Buf) (Buf, Value, bool) {
	if !optNum(args) {
		return b, nil, false
	}
	i := b.Point - 1
	b.Content = b.Content[:i] + b.Content[forwardWords(b.Content, i, count(args)):]
	return b, str(""), true
}

//gover:contract BuiltinBackwardKillWord
//gover:prop C07
//gover:tags content=C03 point=C03
func specBackwardKillWord(args []Value, b Buf) (Buf, Value, bool) {
	if !optNum(args) {
		return b, nil, false
	}
	i := b.Point - 1
	start := backwardWords(b.Content, i, count(args))
	b.Content = b.Content[:start] + b.Content[min(i+1, len(b.Content)):]
	b.Point = start + 1
	return b, str(""), true
}

//gover:contract BuiltinMarkWord
//gover:prop C07
//gover:tags content=C06 match=C06 mstart=C06 mend=C06
func specMarkWord(args []Value, b Buf) (Buf, Value, bool) {
	if !noArgs(args) {
		return b, nil, false
	}
	i := b.Point - 1
	if i < len(b.Content) {
		b.Mark = backWord(b.Content, i) + 1
		b.Point = wordEnd(b.Content, i) + 1
	}
	return b, str(""), true
}
