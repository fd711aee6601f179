package edlisp

// Specification vocabulary. These functions are executable: the verifier
// evaluates them symbolically, the replay harness runs them.

// Buf is the abstract state of a buffer.
type Buf struct {
	Content string
	Point   int
	Mark    int
	Match   string
	MStart  int
	MEnd    int
}

//gover:abs
func absBuffer(b *Buffer) Buf {
	return Buf{b.content.String(), b.point, b.mark, b.lastSearchMatch, b.lastSearchStart, b.lastSearchEnd}
}

//gover:invariant
func invBuffer(b *Buffer) bool {
	return b.point >= 1 && b.point <= b.content.Len()+1 && b.mark >= 1 && b.mark <= 1<<62
}

// intrinsics of the verifier
func trig(x any) bool { return true }

func wfv(v Value) bool {
	switch w := v.(type) {
	case *String:
		return w != nil
	case *Number:
		return w != nil
	case *Symbol:
		return w != nil
	case *List:
		return w != nil && wfvs(w.Elements)
	}
	return false
}

func wfvs(vs []Value) bool {
	for _, v := range vs {
		if !wfv(v) {
			return false
		}
	}
	return true
}

func clamp(x, lo, hi int) int {
	if x < lo {
		return lo
	}
	if x > hi {
		return hi
	}
	return x
}

func isNum(v Value) bool { _, ok := v.(*Number); return ok }
func isStr(v Value) bool { _, ok := v.(*String); return ok }

// intOf is the count or position a number argument denotes: its integer
// part, limited to a range in which adding it to a position is exact.
func intOf(v Value) int {
	f := v.(*Number).Value
	if f != f {
		return 0
	}
	if f >= 1<<52 {
		return 1 << 52
	}
	if f <= -(1 << 52) {
		return -(1 << 52)
	}
	return int(f)
}
func strOf(v Value) string { return v.(*String).Value }
func str(s string) Value   { return &String{Value: s} }
func num(n int) Value      { return &Number{Value: float64(n)} }

// count is the optional count argument of a command, 1 if absent.
func count(args []Value) int {
	if len(args) == 1 {
		return intOf(args[0])
	}
	return 1
}

// argument lists
func noArgs(args []Value) bool { return len(args) == 0 }
func optNum(args []Value) bool { return len(args) == 0 || len(args) == 1 && isNum(args[0]) }
func oneNum(args []Value) bool { return len(args) == 1 && isNum(args[0]) }
func oneStr(args []Value) bool { return len(args) == 1 && isStr(args[0]) }

// end is the largest position of the buffer.
func end(b Buf) int { return len(b.Content) + 1 }

// mark is the mark as the queries report it.
func mark(b Buf) int { return min(b.Mark, end(b)) }

// concBuffer is a buffer in the given state (used by the replay harness).
//
//gover:conc
func concBuffer(b Buf) *Buffer {
	buf := &Buffer{point: b.Point, mark: b.Mark, lastSearchMatch: b.Match, lastSearchStart: b.MStart, lastSearchEnd: b.MEnd}
	buf.content.WriteString(b.Content)
	return buf
}
