package edlisp

import (
	"regexp"
	"strings"
)

// found: the buffer after a search selected the bytes [start,stop).
func found(b Buf, start, stop int) Buf {
	b.Match = b.Content[start:stop]
	b.MStart, b.MEnd = start+1, stop+1
	b.Point = stop + 1
	return b
}

//gover:contract BuiltinSearchForward
//gover:prop C04
//gover:tags content=C06,C04 mark=C06,C04 errframe=C04,C06
func specSearchForward(args []Value, b Buf) (Buf, Value, bool) {
	if !oneStr(args) || b.Point-1 >= len(b.Content) {
		return b, nil, false
	}
	i := strings.Index(b.Content[b.Point-1:], strOf(args[0]))
	if i < 0 {
		return b, nil, false
	}
	start := b.Point - 1 + i
	return found(b, start, start+len(strOf(args[0]))), str(""), true
}

//gover:contract BuiltinSearchBackward
//gover:prop C04
//gover:tags content=C06,C04 mark=C06,C04 errframe=C04,C06
func specSearchBackward(args []Value, b Buf) (Buf, Value, bool) {
	if !oneStr(args) {
		return b, nil, false
	}
	i := strings.LastIndex(b.Content[:b.Point-1], strOf(args[0]))
	if i < 0 {
		return b, nil, false
	}
	return found(b, i, i+len(strOf(args[0]))), str(""), true
}

//gover:contract BuiltinReSearchForward
//gover:prop C04
//gover:tags content=C06,C04 mark=C06,C04 errframe=C04,C06
func specReSearchForward(args []Value, b Buf) (Buf, Value, bool) {
	if !oneStr(args) || b.Point-1 >= len(b.Content) {
		return b, nil, false
	}
	re, err := regexp.Compile(strOf(args[0]))
	if err != nil {
		return b, nil, false
	}
	m := re.FindStringIndex(b.Content[b.Point-1:])
	if m == nil {
		return b, nil, false
	}
	return found(b, b.Point-1+m[0], b.Point-1+m[1]), str(""), true
}

//gover:contract BuiltinReSearchBackward
//gover:prop C04
//gover:tags content=C06,C04 mark=C06,C04 errframe=C04,C06
func specReSearchBackward(args []Value, b Buf) (Buf, Value, bool) {
	if !oneStr(args) {
		return b, nil, false
	}
	re, err := regexp.Compile(strOf(args[0]))
	if err != nil {
		return b, nil, false
	}
	all := re.FindAllStringIndex(b.Content[:b.Point-1], -1)
	if len(all) == 0 {
		return b, nil, false
	}
	m := all[len(all)-1]
	return found(b, m[0], m[1]), str(""), true
}

func sym(s string) Value { return &Symbol{Name: s} }

func truth(b bool) Value {
	if b {
		return sym("t")
	}
	return sym("nil")
}

//gover:contract BuiltinLookingAt
//gover:prop C04,C12
//gover:tags content=C06 point=C06 mark=C06 match=C06 mstart=C06 mend=C06
func specLookingAt(args []Value, b Buf) (Buf, Value, bool) {
	if !oneStr(args) {
		return b, nil, false
	}
	i := b.Point - 1
	if i >= len(b.Content) {
		return b, sym("nil"), true
	}
	re, err := regexp.Compile(strOf(args[0]))
	if err != nil {
		return b, truth(strings.HasPrefix(b.Content[i:], strOf(args[0]))), true
	}
	m := re.FindStringIndex(b.Content[i:])
	return b, truth(m != nil && m[0] == 0), true
}

//gover:contract BuiltinLookingBack
//gover:prop C04,C12
//gover:tags content=C06 point=C06 mark=C06 match=C06 mstart=C06 mend=C06
func specLookingBack(args []Value, b Buf) (Buf, Value, bool) {
	if !oneStr(args) {
		return b, nil, false
	}
	i := b.Point - 1
	if i <= 0 {
		return b, sym("nil"), true
	}
	re, err := regexp.Compile(strOf(args[0]))
	if err != nil {
		return b, truth(strings.HasSuffix(b.Content[:i], strOf(args[0]))), true
	}
	if anchored, err := regexp.Compile("(?:" + strOf(args[0]) + ")\\z"); err == nil {
		re = anchored
	}
	m := re.FindStringIndex(b.Content[:i])
	return b, truth(m != nil && m[1] == i), true
}
