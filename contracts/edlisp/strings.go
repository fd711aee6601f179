package edlisp

import (
	"regexp"
	"strings"
	"unicode/utf8"
)

//gover:contract BuiltinLength
//gover:prop C12
//gover:tags content=C06 point=C06 mark=C06 match=C06 mstart=C06 mend=C06
func specLength(args []Value, b Buf) (Buf, Value, bool) {
	if !oneStr(args) {
		return b, nil, false
	}
	return b, num(len(strOf(args[0]))), true
}

//gover:contract BuiltinUpcase
//gover:prop C12
//gover:tags content=C06 point=C06 mark=C06 match=C06 mstart=C06 mend=C06
func specUpcase(args []Value, b Buf) (Buf, Value, bool) {
	if !oneStr(args) {
		return b, nil, false
	}
	return b, str(strings.ToUpper(strOf(args[0]))), true
}

//gover:contract BuiltinDowncase
//gover:prop C12
//gover:tags content=C06 point=C06 mark=C06 match=C06 mstart=C06 mend=C06
func specDowncase(args []Value, b Buf) (Buf, Value, bool) {
	if !oneStr(args) {
		return b, nil, false
	}
	return b, str(strings.ToLower(strOf(args[0]))), true
}

//gover:contract BuiltinCapitalize
//gover:prop C12
//gover:tags content=C06 point=C06 mark=C06 match=C06 mstart=C06 mend=C06
func specCapitalize(args []Value, b Buf) (Buf, Value, bool) {
	if !oneStr(args) {
		return b, nil, false
	}
	s := strOf(args[0])
	if s == "" {
		return b, str(""), true
	}
	_, n := utf8.DecodeRuneInString(s)
	return b, str(strings.ToUpper(s[:n]) + strings.ToLower(s[n:])), true
}

// allStr: the arguments from the i-th on are strings.
func allStr(args []Value, i int) bool {
	return i < 0 || i >= len(args) || isStr(args[i]) && allStr(args, i+1)
}

// joined: the first n argument strings, one behind the other.
func joined(args []Value, n int) string {
	if n <= 0 || n > len(args) {
		return ""
	}
	return joined(args, n-1) + strOf(args[n-1])
}

//gover:contract BuiltinConcat
//gover:prop C12
//gover:tags content=C06 point=C06 mark=C06 match=C06 mstart=C06 mend=C06
func specConcat(args []Value, b Buf) (Buf, Value, bool) {
	if !allStr(args, 0) {
		return b, nil, false
	}
	return b, str(joined(args, len(args))), true
}

// cut: the bytes of s from position start up to (not including) stop,
// counted from 1, as far as s has them.
func cut(s string, start, stop int) string {
	lo := max(start-1, 0)
	hi := min(stop-1, len(s))
	if lo >= hi {
		return ""
	}
	return s[lo:hi]
}

//gover:contract BuiltinSubstring
//gover:prop C12
//gover:tags content=C06 point=C06 mark=C06 match=C06 mstart=C06 mend=C06
func specSubstring(args []Value, b Buf) (Buf, Value, bool) {
	if len(args) < 2 || len(args) > 3 || !isStr(args[0]) || !isNum(args[1]) || len(args) == 3 && !isNum(args[2]) {
		return b, nil, false
	}
	s := strOf(args[0])
	stop := len(s) + 1
	if len(args) == 3 {
		stop = intOf(args[2])
	}
	return b, str(cut(s, intOf(args[1]), stop)), true
}

//gover:contract BuiltinBufferSubstring
//gover:prop C12
//gover:tags content=C06 point=C06 mark=C06 match=C06 mstart=C06 mend=C06
func specBufferSubstring(args []Value, b Buf) (Buf, Value, bool) {
	if len(args) != 2 || !isNum(args[0]) || !isNum(args[1]) {
		return b, nil, false
	}
	stop := intOf(args[1])
	if stop == -1 {
		stop = end(b)
	}
	return b, str(cut(b.Content, intOf(args[0]), stop)), true
}

//gover:contract BuiltinStringMatch
//gover:prop C12
//gover:tags content=C06 point=C06 mark=C06 match=C06 mstart=C06 mend=C06
func specStringMatch(args []Value, b Buf) (Buf, Value, bool) {
	if len(args) != 2 || !isStr(args[0]) || !isStr(args[1]) {
		return b, nil, false
	}
	re, err := regexp.Compile(strOf(args[0]))
	if err != nil {
		i := strings.Index(strOf(args[1]), strOf(args[0]))
		if i < 0 {
			return b, sym("nil"), true
		}
		return b, num(i), true
	}
	m := re.FindStringIndex(strOf(args[1]))
	if m == nil {
		return b, sym("nil"), true
	}
	return b, num(m[0]), true
}

//gover:contract BuiltinReplaceRegexpInString
//gover:prop C12
//gover:tags content=C06 point=C06 mark=C06 match=C06 mstart=C06 mend=C06
func specReplaceRegexpInString(args []Value, b Buf) (Buf, Value, bool) {
	if len(args) != 3 || !isStr(args[0]) || !isStr(args[1]) || !isStr(args[2]) {
		return b, nil, false
	}
	re, err := regexp.Compile(strOf(args[0]))
	if err != nil {
		return b, nil, false
	}
	return b, str(re.ReplaceAllString(strOf(args[2]), strOf(args[1]))), true
}
