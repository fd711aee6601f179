package edlisp

//gover:contract (*Buffer).String raw
//gover:prop C02
func specBufString(b Buf) (Buf, string) { return b, b.Content }

//gover:contract BuiltinSetMark
//gover:prop C02
//gover:tags content=C06 point=C06 match=C06 mstart=C06 mend=C06
func specBSetMark(args []Value, b Buf) (Buf, Value, bool) {
	if !noArgs(args) {
		return b, nil, false
	}
	b.Mark = b.Point
	return b, str(""), true
}

//gover:contract BuiltinSetMarkCommand
//gover:prop C02
//gover:tags content=C06 point=C06 match=C06 mstart=C06 mend=C06
func specSetMarkCommand(args []Value, b Buf) (Buf, Value, bool) {
	if !optNum(args) {
		return b, nil, false
	}
	b.Mark = b.Point
	if len(args) == 1 {
		b.Mark = clamp(intOf(args[0]), 1, end(b))
	}
	return b, str(""), true
}

//gover:contract BuiltinExchangePointAndMark
//gover:prop C02
//gover:tags content=C06 match=C06 mstart=C06 mend=C06
func specExchange(args []Value, b Buf) (Buf, Value, bool) {
	if !noArgs(args) {
		return b, nil, false
	}
	b.Point, b.Mark = mark(b), b.Point
	return b, str(""), true
}

//gover:contract BuiltinMarkWholeBuffer
//gover:prop C02
//gover:tags content=C06 match=C06 mstart=C06 mend=C06
func specMarkWholeBuffer(args []Value, b Buf) (Buf, Value, bool) {
	if !noArgs(args) {
		return b, nil, false
	}
	b.Mark, b.Point = 1, end(b)
	return b, str(""), true
}

//gover:contract BuiltinMark
//gover:prop C02
//gover:tags content=C06 point=C06 mark=C06 match=C06 mstart=C06 mend=C06
func specMark(args []Value, b Buf) (Buf, Value, bool) {
	if !noArgs(args) {
		return b, nil, false
	}
	return b, num(mark(b)), true
}

//gover:contract BuiltinPoint
//gover:prop C02
//gover:tags content=C06 point=C06 mark=C06 match=C06 mstart=C06 mend=C06
func specPoint(args []Value, b Buf) (Buf, Value, bool) {
	if !noArgs(args) {
		return b, nil, false
	}
	return b, num(b.Point), true
}

//gover:contract BuiltinPointMin
//gover:prop C02
//gover:tags content=C06 point=C06 mark=C06 match=C06 mstart=C06 mend=C06
func specPointMin(args []Value, b Buf) (Buf, Value, bool) {
	if !noArgs(args) {
		return b, nil, false
	}
	return b, num(1), true
}

//gover:contract BuiltinPointMax
//gover:prop C02
//gover:tags content=C06 point=C06 mark=C06 match=C06 mstart=C06 mend=C06
func specPointMax(args []Value, b Buf) (Buf, Value, bool) {
	if !noArgs(args) {
		return b, nil, false
	}
	return b, num(end(b)), true
}

//gover:contract BuiltinBufferSize
//gover:prop C02
//gover:tags content=C06 point=C06 mark=C06 match=C06 mstart=C06 mend=C06
func specBufferSize(args []Value, b Buf) (Buf, Value, bool) {
	if !noArgs(args) {
		return b, nil, false
	}
	return b, num(len(b.Content)), true
}

//gover:contract BuiltinRegionBeginning
//gover:prop C02
//gover:tags content=C06 point=C06 mark=C06 match=C06 mstart=C06 mend=C06
func specRegionBeginning(args []Value, b Buf) (Buf, Value, bool) {
	if !noArgs(args) {
		return b, nil, false
	}
	return b, num(min(mark(b), b.Point)), true
}

//gover:contract BuiltinRegionEnd
//gover:prop C02
//gover:tags content=C06 point=C06 mark=C06 match=C06 mstart=C06 mend=C06
func specRegionEnd(args []Value, b Buf) (Buf, Value, bool) {
	if !noArgs(args) {
		return b, nil, false
	}
	return b, num(max(mark(b), b.Point)), true
}
