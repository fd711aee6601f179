package main

// Terms: a hash-consed first-order term language with a normalising
// constructor layer. Integers are mathematical; machine wrap-around is made
// explicit by the symbolic executor. Byte strings and slices are finite
// sequences.

import (
	"fmt"
	"math/big"
	"sort"
	"strings"
	"sync"
)

type Sort struct {
	Name string // SMT name
	Kind string // int bool seq adt opaque map
	Elem *Sort  // seq element / map value
	Key  *Sort  // map key
	Ctor []*Ctor
}

type Ctor struct {
	Name   string
	Fields []*Sort
	FNames []string
}

func (s *Sort) String() string { return s.Name }

var (
	sorts  = map[string]*Sort{}
	sortMu sync.Mutex

	SInt  = mkSort("Int", "int")
	SBool = mkSort("Bool", "bool")
	SFlt  = mkSort("Flt", "opaque")
	SErr  = mkSort("Err", "opaque")
	SFn   = mkSort("Fn", "opaque")
	SStr  = seqSort(SInt)
	SVal  = mkSort("Val", "adt")
	SAny  = mkSort("Any", "adt")
	SVals = seqSort(SVal)
	SAnys = seqSort(SAny)
	SInts = intsSort()
)

func init() {
	SVal.Ctor = []*Ctor{
		{"VNil", nil, nil},
		{"VStr", []*Sort{SStr}, []string{"Value"}},
		{"VNum", []*Sort{SFlt}, []string{"Value"}},
		{"VSym", []*Sort{SStr}, []string{"Name"}},
		{"VLst", []*Sort{SVals}, []string{"Elements"}},
	}
	SAny.Ctor = []*Ctor{
		{"ANil", nil, nil},
		{"AStr", []*Sort{SStr}, nil},
		{"AFlt", []*Sort{SFlt}, nil},
		{"ABool", []*Sort{SBool}, nil},
		{"ASeq", []*Sort{SAnys}, nil},
		{"AMap", []*Sort{opaqueSort("AnyMap")}, nil},
		{"AVal", []*Sort{SVal}, nil},
	}
}

func mkSort(name, kind string) *Sort {
	sortMu.Lock()
	defer sortMu.Unlock()
	if s, ok := sorts[name]; ok {
		return s
	}
	s := &Sort{Name: name, Kind: kind}
	sorts[name] = s
	return s
}

func seqSort(e *Sort) *Sort {
	n := "Seq_" + e.Name
	s := mkSort(n, "seq")
	s.Elem = e
	return s
}
func intsSort() *Sort {
	s := mkSort("Seq_I64", "seq")
	s.Elem = SInt
	return s
}
func mapSort(k, v *Sort) *Sort {
	s := mkSort("Map_"+k.Name+"_"+v.Name, "map")
	s.Key, s.Elem = k, v
	return s
}
func opaqueSort(name string) *Sort { return mkSort("O_"+smtName(name), "opaque") }

func smtName(n string) string {
	var b strings.Builder
	for _, r := range n {
		switch {
		case r >= 'a' && r <= 'z', r >= 'A' && r <= 'Z', r >= '0' && r <= '9', r == '_', r == '.', r == '!':
			b.WriteRune(r)
		case r == '*':
			b.WriteString("ptr.")
		default:
			b.WriteString("_")
		}
	}
	return b.String()
}

type Term struct {
	id   int
	Op   string // int true false lit var app + * <= = ite and or not slen sat scat ssub sunit supd sempty mk is get flt
	Args []*Term
	Sort *Sort
	I    *big.Int // int constant, coefficient of "*"
	S    string   // literal / variable name / function name / ctor name
	N    int      // field index for get
	lo   *big.Int // declared range for vars (nil = unknown)
	hi   *big.Int
	hasF bool // contains any non-constant
}

var (
	termTab = map[string]*Term{}
	termMu  sync.Mutex
	termN   int
)

func intern(t *Term) *Term {
	var b strings.Builder
	b.WriteString(t.Op)
	b.WriteByte('|')
	b.WriteString(t.Sort.Name)
	b.WriteByte('|')
	if t.I != nil {
		b.WriteString(t.I.String())
	}
	b.WriteByte('|')
	b.WriteString(t.S)
	b.WriteByte('|')
	if t.N != 0 {
		fmt.Fprintf(&b, "%d", t.N)
	}
	for _, a := range t.Args {
		fmt.Fprintf(&b, ",%d", a.id)
	}
	k := b.String()
	termMu.Lock()
	defer termMu.Unlock()
	if o, ok := termTab[k]; ok {
		return o
	}
	termN++
	t.id = termN
	termTab[k] = t
	return t
}

var (
	big0     = big.NewInt(0)
	big1     = big.NewInt(1)
	minI64   = big.NewInt(-1 << 63)
	maxI64   = new(big.Int).SetUint64(1<<63 - 1)
	two64    = new(big.Int).Lsh(big1, 64)
	maxLen   = new(big.Int).Lsh(big1, 48)
	maxLenP1 = new(big.Int).Add(new(big.Int).Lsh(big1, 48), big1)
)

var TTrue = intern(&Term{Op: "true", Sort: SBool})
var TFalse = intern(&Term{Op: "false", Sort: SBool})

func TBool(b bool) *Term {
	if b {
		return TTrue
	}
	return TFalse
}
func TInt(i int64) *Term    { return TBig(big.NewInt(i)) }
func TBig(i *big.Int) *Term { return intern(&Term{Op: "int", Sort: SInt, I: i}) }
func TLit(s string) *Term {
	if s == "" {
		return TEmpty(SStr)
	}
	return intern(&Term{Op: "lit", Sort: SStr, S: s})
}
func TEmpty(s *Sort) *Term { return intern(&Term{Op: "sempty", Sort: s}) }
func TVar(name string, s *Sort) *Term {
	return intern(&Term{Op: "var", Sort: s, S: name})
}
func TVarR(name string, lo, hi *big.Int) *Term {
	t := TVar(name, SInt)
	t.lo, t.hi = lo, hi
	return t
}
func TFlt(s string) *Term { return intern(&Term{Op: "flt", Sort: SFlt, S: s}) }

func (t *Term) isInt() bool      { return t.Op == "int" }
func (t *Term) isStrConst() bool { return t.Op == "lit" || (t.Op == "sempty" && t.Sort == SStr) }
func (t *Term) isConst() bool {
	switch t.Op {
	case "int", "true", "false", "lit", "sempty", "flt":
		return true
	case "smp":
		return true
	case "var":
		return t.Sort == SErr && (t.S == "ErrNil" || t.S == "AnyErr") || isSentinel(t) || t == FnNil
	case "mk", "scat", "sunit":
		for _, a := range t.Args {
			if !a.isConst() {
				return false
			}
		}
		return true
	}
	return false
}

// ---------- arithmetic ----------

type lin struct {
	c  *big.Int
	ts map[*Term]*big.Int
}

func linOf(t *Term) lin {
	l := lin{new(big.Int), map[*Term]*big.Int{}}
	l.add(t, big1)
	return l
}
func (l *lin) add(t *Term, k *big.Int) {
	switch t.Op {
	case "int":
		l.c = new(big.Int).Add(l.c, new(big.Int).Mul(k, t.I))
	case "+":
		for _, a := range t.Args {
			l.add(a, k)
		}
	case "*":
		if len(t.Args) == 1 {
			l.add(t.Args[0], new(big.Int).Mul(k, t.I))
			return
		}
		l.addAtom(t, k)
	default:
		l.addAtom(t, k)
	}
}
func (l *lin) addAtom(t *Term, k *big.Int) {
	o := l.ts[t]
	if o == nil {
		o = new(big.Int)
	}
	n := new(big.Int).Add(o, k)
	if n.Sign() == 0 {
		delete(l.ts, t)
	} else {
		l.ts[t] = n
	}
}
func (l lin) term() *Term {
	if len(l.ts) == 0 {
		return TBig(l.c)
	}
	keys := make([]*Term, 0, len(l.ts))
	for k := range l.ts {
		keys = append(keys, k)
	}
	sort.Slice(keys, func(i, j int) bool { return keys[i].id < keys[j].id })
	var as []*Term
	for _, k := range keys {
		c := l.ts[k]
		if c.Cmp(big1) == 0 {
			as = append(as, k)
		} else {
			as = append(as, intern(&Term{Op: "*", Sort: SInt, I: c, Args: []*Term{k}}))
		}
	}
	if l.c.Sign() != 0 {
		as = append(as, TBig(l.c))
	}
	if len(as) == 1 {
		return as[0]
	}
	return intern(&Term{Op: "+", Sort: SInt, Args: as})
}

func Add(a, b *Term) *Term {
	l := linOf(a)
	l.add(b, big1)
	return l.term()
}
func Sub(a, b *Term) *Term {
	l := linOf(a)
	l.add(b, big.NewInt(-1))
	return l.term()
}
func MulC(k *big.Int, a *Term) *Term {
	l := lin{new(big.Int), map[*Term]*big.Int{}}
	l.add(a, k)
	return l.term()
}
func Mul(a, b *Term) *Term {
	if a.isInt() {
		return MulC(a.I, b)
	}
	if b.isInt() {
		return MulC(b.I, a)
	}
	if a.id > b.id {
		a, b = b, a
	}
	return intern(&Term{Op: "*", Sort: SInt, Args: []*Term{a, b}})
}
func AddI(a *Term, k int64) *Term { return Add(a, TInt(k)) }

// boundsOf computes a conservative interval; nil means unbounded.
func boundsOf(t *Term) (lo, hi *big.Int) { return boundsD(t, 12) }
func boundsD(t *Term, d int) (lo, hi *big.Int) {
	if d == 0 {
		return nil, nil
	}
	switch t.Op {
	case "int":
		return t.I, t.I
	case "var":
		return t.lo, t.hi
	case "slen":
		return big0, maxLen
	case "sat":
		if t.Args[0].Sort == SStr {
			return big0, big.NewInt(255)
		}
		if t.Sort == SInt {
			return minI64, maxI64
		}
	case "app":
		return t.lo, t.hi
	case "get":
		return minI64, maxI64
	case "+":
		lo, hi = new(big.Int), new(big.Int)
		for _, a := range t.Args {
			l, h := boundsD(a, d-1)
			if l == nil || lo == nil {
				lo = nil
			} else {
				lo = new(big.Int).Add(lo, l)
			}
			if h == nil || hi == nil {
				hi = nil
			} else {
				hi = new(big.Int).Add(hi, h)
			}
		}
		return
	case "*":
		if len(t.Args) == 1 {
			l, h := boundsD(t.Args[0], d-1)
			var a, b *big.Int
			if l != nil {
				a = new(big.Int).Mul(l, t.I)
			}
			if h != nil {
				b = new(big.Int).Mul(h, t.I)
			}
			if t.I.Sign() < 0 {
				a, b = b, a
			}
			return a, b
		}
	case "ite":
		l1, h1 := boundsD(t.Args[1], d-1)
		l2, h2 := boundsD(t.Args[2], d-1)
		if l1 != nil && l2 != nil {
			lo = l1
			if l2.Cmp(l1) < 0 {
				lo = l2
			}
		}
		if h1 != nil && h2 != nil {
			hi = h1
			if h2.Cmp(h1) > 0 {
				hi = h2
			}
		}
		return
	}
	return nil, nil
}

// Le builds a <= b.
func Le(a, b *Term) *Term {
	l := linOf(b)
	l.add(a, big.NewInt(-1)) // 0 <= l
	d := l.term()
	if d.isInt() {
		return TBool(d.I.Sign() >= 0)
	}
	lo, hi := boundsOf(d)
	if lo != nil && lo.Sign() >= 0 {
		return TTrue
	}
	if hi != nil && hi.Sign() < 0 {
		return TFalse
	}
	// canonical: 0 <= d with gcd normalisation of coefficients omitted
	return intern(&Term{Op: "<=", Sort: SBool, Args: []*Term{TInt(0), d}})
}
func Lt(a, b *Term) *Term { return Le(AddI(a, 1), b) }
func Ge(a, b *Term) *Term { return Le(b, a) }
func Gt(a, b *Term) *Term { return Lt(b, a) }

// ---------- booleans ----------

func Not(a *Term) *Term {
	switch a.Op {
	case "true":
		return TFalse
	case "false":
		return TTrue
	case "not":
		return a.Args[0]
	case "<=":
		// not (0 <= d)  ==  0 <= -d-1
		d := a.Args[1]
		return Le(TInt(0), AddI(MulC(big.NewInt(-1), d), -1))
	case "and":
		var xs []*Term
		for _, x := range a.Args {
			xs = append(xs, Not(x))
		}
		return Or(xs...)
	case "or":
		var xs []*Term
		for _, x := range a.Args {
			xs = append(xs, Not(x))
		}
		return And(xs...)
	case "ite":
		return Ite(a.Args[0], Not(a.Args[1]), Not(a.Args[2]))
	}
	return intern(&Term{Op: "not", Sort: SBool, Args: []*Term{a}})
}
func And(xs ...*Term) *Term { return nary("and", TTrue, TFalse, xs) }
func Or(xs ...*Term) *Term  { return nary("or", TFalse, TTrue, xs) }
func nary(op string, unit, zero *Term, xs []*Term) *Term {
	seen := map[*Term]bool{}
	var out []*Term
	var rec func(xs []*Term) bool
	rec = func(xs []*Term) bool {
		for _, x := range xs {
			if x == unit || seen[x] {
				continue
			}
			if x == zero || seen[Not1(x)] {
				return false
			}
			if x.Op == op {
				if !rec(x.Args) {
					return false
				}
				continue
			}
			seen[x] = true
			out = append(out, x)
		}
		return true
	}
	if !rec(xs) {
		return zero
	}
	switch len(out) {
	case 0:
		return unit
	case 1:
		return out[0]
	}
	sort.Slice(out, func(i, j int) bool { return out[i].id < out[j].id })
	return intern(&Term{Op: op, Sort: SBool, Args: out})
}

// Not1 is Not restricted to literals (avoids deep recursion).
func Not1(a *Term) *Term {
	switch a.Op {
	case "and", "or", "ite":
		return intern(&Term{Op: "not", Sort: SBool, Args: []*Term{a}})
	}
	return Not(a)
}
func Implies(a, b *Term) *Term { return Or(Not(a), b) }

func Ite(c, a, b *Term) *Term {
	if a.Sort != b.Sort {
		panic(fmt.Sprintf("ite sorts %s %s: %s / %s", a.Sort, b.Sort, a, b))
	}
	switch {
	case c == TTrue:
		return a
	case c == TFalse:
		return b
	case a == b:
		return a
	}
	if a.Sort == SBool {
		switch {
		case a == TTrue:
			return Or(c, b)
		case a == TFalse:
			return And(Not(c), b)
		case b == TTrue:
			return Or(Not(c), a)
		case b == TFalse:
			return And(c, a)
		}
	}
	if c.Op == "not" {
		return Ite(c.Args[0], b, a)
	}
	// nested same-condition
	if a.Op == "ite" && a.Args[0] == c {
		a = a.Args[1]
	}
	if b.Op == "ite" && b.Args[0] == c {
		b = b.Args[2]
	}
	if b.Op == "ite" && b.Args[1] == a {
		return Ite(Or(c, b.Args[0]), a, b.Args[2])
	}
	if a == b {
		return a
	}
	return intern(&Term{Op: "ite", Sort: a.Sort, Args: []*Term{c, a, b}})
}

func Eq(a, b *Term) *Term {
	if a.Sort != b.Sort {
		panic(fmt.Sprintf("eq sorts %s %s: %s = %s", a.Sort, b.Sort, a, b))
	}
	if a == b {
		return TTrue
	}
	if a.Sort == SBool {
		switch {
		case a == TTrue:
			return b
		case b == TTrue:
			return a
		case a == TFalse:
			return Not(b)
		case b == TFalse:
			return Not(a)
		}
	}
	if a.Sort == SErr && (a.S == "AnyErr" && b.S == "ErrNil" || a.S == "ErrNil" && b.S == "AnyErr") {
		return TFalse
	}
	if isSentinel(a) && b == ErrNil || a == ErrNil && isSentinel(b) {
		return TFalse
	}
	if (a.Op == "smp" || b.Op == "smp") && a.isConst() && b.isConst() {
		return TFalse
	}
	if a.Sort == SInt {
		l := linOf(a)
		l.add(b, big.NewInt(-1))
		d := l.term()
		if d.isInt() {
			return TBool(d.I.Sign() == 0)
		}
		lo, hi := boundsOf(d)
		if (lo != nil && lo.Sign() > 0) || (hi != nil && hi.Sign() < 0) {
			return TFalse
		}
		// canonical sign: make first coefficient positive
		neg := false
		if d.Op == "*" && d.I != nil && d.I.Sign() < 0 {
			neg = true
		}
		if d.Op == "+" && d.Args[0].Op == "*" && d.Args[0].I != nil && d.Args[0].I.Sign() < 0 {
			neg = true
		}
		if neg {
			d = MulC(big.NewInt(-1), d)
		}
		// single-ite distribution against constants
		if x, k := iteConst(d); x != nil {
			t, f := Eq(x.Args[1], k), Eq(x.Args[2], k)
			if t.isConst() || f.isConst() {
				return Ite(x.Args[0], t, f)
			}
		}
		return intern(&Term{Op: "=", Sort: SBool, Args: []*Term{TInt(0), d}})
	}
	if a.isConst() && b.isConst() {
		if a.Sort.Kind == "seq" {
			if na, nb := seqConstLen(a), seqConstLen(b); na >= 0 && nb >= 0 {
				if na != nb {
					return TFalse
				}
				if a.Sort == SStr {
					return TBool(strOf(a) == strOf(b))
				}
				var cs []*Term
				for i := 0; i < na; i++ {
					cs = append(cs, Eq(SAt(a, TInt(int64(i))), SAt(b, TInt(int64(i)))))
				}
				return And(cs...)
			}
		}
		if a.Op == "mk" && b.Op == "mk" {
			// fallthrough below
		} else if a.Op == "flt" && b.Op == "flt" {
			return TBool(a.S == b.S)
		}
	}
	if a.Op == "mk" && b.Op == "mk" {
		if a.S != b.S {
			return TFalse
		}
		var cs []*Term
		for i := range a.Args {
			cs = append(cs, Eq(a.Args[i], b.Args[i]))
		}
		return And(cs...)
	}
	if a.Op == "mk" && b.Op != "ite" {
		a, b = b, a
	}
	if b.Op == "mk" && a.Op != "ite" {
		cs := []*Term{Is(b.S, a)}
		for i := range b.Args {
			cs = append(cs, Eq(Get(b.S, i, a), b.Args[i]))
		}
		return And(cs...)
	}
	if a.Op == "ite" && b.isConst() {
		t, f := Eq(a.Args[1], b), Eq(a.Args[2], b)
		if t.isConst() || f.isConst() {
			return Ite(a.Args[0], t, f)
		}
	}
	if b.Op == "ite" && a.isConst() {
		return Eq(b, a)
	}
	if a.Sort.Kind == "seq" {
		// empty test via length
		if a.Op == "sempty" || b.Op == "sempty" {
			x := a
			if a.Op == "sempty" {
				x = b
			}
			return Eq(SLen(x), TInt(0))
		}
		// common prefix/suffix cancellation of concatenations
		xs, ys := catParts(a), catParts(b)
		if len(xs) > 0 && len(ys) > 0 && (len(xs) > 1 || len(ys) > 1) {
			n := 0
			for len(xs) > 0 && len(ys) > 0 && xs[0] == ys[0] {
				xs, ys = xs[1:], ys[1:]
				n++
			}
			for len(xs) > 0 && len(ys) > 0 && xs[len(xs)-1] == ys[len(ys)-1] {
				xs, ys = xs[:len(xs)-1], ys[:len(ys)-1]
				n++
			}
			if n > 0 {
				return Eq(catOf(a.Sort, xs), catOf(a.Sort, ys))
			}
		}
	}
	if a.id > b.id {
		a, b = b, a
	}
	return intern(&Term{Op: "=", Sort: SBool, Args: []*Term{a, b}})
}

func iteConst(d *Term) (*Term, *Term) {
	// d = ite + c  -> (ite, -c)
	if d.Op == "ite" {
		return d, TInt(0)
	}
	if d.Op == "+" && len(d.Args) == 2 && d.Args[0].Op == "ite" && d.Args[1].isInt() {
		return d.Args[0], TBig(new(big.Int).Neg(d.Args[1].I))
	}
	return nil, nil
}

// ---------- sequences ----------

func strOf(t *Term) string {
	if t.Op == "sempty" {
		return ""
	}
	return t.S
}

func catParts(t *Term) []*Term {
	if t.Op == "scat" {
		return t.Args
	}
	if t.Op == "sempty" {
		return nil
	}
	return []*Term{t}
}
func catOf(s *Sort, xs []*Term) *Term {
	var out []*Term
	for _, x := range xs {
		for _, y := range catParts(x) {
			if n := len(out); n > 0 {
				p := out[n-1]
				if p.Op == "lit" && y.Op == "lit" {
					out[n-1] = TLit(p.S + y.S)
					continue
				}
				// adjacent substrings of the same base
				if p.Op == "ssub" && y.Op == "ssub" && p.Args[0] == y.Args[0] && p.Args[2] == y.Args[1] && validSub(p) && validSub(y) {
					m := SSub(p.Args[0], p.Args[1], y.Args[2])
					out = append(out[:n-1], catParts(m)...)
					continue
				}
			}
			out = append(out, y)
		}
	}
	switch len(out) {
	case 0:
		return TEmpty(s)
	case 1:
		return out[0]
	}
	return intern(&Term{Op: "scat", Sort: s, Args: out})
}

// validSub: only merge when the bounds are syntactically ordered (0<=i<=j).
func validSub(t *Term) bool {
	return Le(TInt(0), t.Args[1]) == TTrue && Le(t.Args[1], t.Args[2]) == TTrue && Le(t.Args[2], SLen(t.Args[0])) == TTrue
}

func SCat(a, b *Term) *Term { return catOf(a.Sort, []*Term{a, b}) }

func SUnit(s *Sort, e *Term) *Term {
	if s == SStr && e.isInt() {
		return TLit(string([]byte{byte(e.I.Int64())}))
	}
	return intern(&Term{Op: "sunit", Sort: s, Args: []*Term{e}})
}

func seqConstLen(t *Term) int {
	switch t.Op {
	case "sempty":
		return 0
	case "lit":
		return len(t.S)
	case "sunit":
		return 1
	case "scat":
		n := 0
		for _, a := range t.Args {
			k := seqConstLen(a)
			if k < 0 {
				return -1
			}
			n += k
		}
		return n
	}
	return -1
}

func SLen(t *Term) *Term {
	switch t.Op {
	case "sempty":
		return TInt(0)
	case "lit":
		return TInt(int64(len(t.S)))
	case "sunit":
		return TInt(1)
	case "scat":
		r := TInt(0)
		for _, a := range t.Args {
			r = Add(r, SLen(a))
		}
		return r
	case "supd":
		return SLen(t.Args[0])
	case "ite":
		return Ite(t.Args[0], SLen(t.Args[1]), SLen(t.Args[2]))
	}
	return intern(&Term{Op: "slen", Sort: SInt, Args: []*Term{t}})
}

func SAt(t, i *Term) *Term {
	if i.isInt() && i.I.IsInt64() {
		k := i.I.Int64()
		switch t.Op {
		case "lit":
			if k >= 0 && k < int64(len(t.S)) {
				return TInt(int64(t.S[k]))
			}
		case "sunit":
			if k == 0 {
				return t.Args[0]
			}
		case "scat":
			for _, a := range t.Args {
				n := seqConstLen(a)
				if n < 0 {
					break
				}
				if k < int64(n) {
					return SAt(a, TInt(k))
				}
				k -= int64(n)
			}
		case "supd":
			if t.Args[1].isInt() {
				if t.Args[1] == i {
					return t.Args[2]
				}
				return SAt(t.Args[0], i)
			}
		}
	}
	if t.Op == "supd" && t.Args[1] == i {
		return t.Args[2]
	}
	return intern(&Term{Op: "sat", Sort: t.Sort.Elem, Args: []*Term{t, i}})
}

func SUpd(t, i, v *Term) *Term {
	if n := seqConstLen(t); n >= 0 && i.isInt() {
		k := int(i.I.Int64())
		if k >= 0 && k < n {
			var xs []*Term
			for j := 0; j < n; j++ {
				e := SAt(t, TInt(int64(j)))
				if j == k {
					e = v
				}
				xs = append(xs, SUnit(t.Sort, e))
			}
			return catOf(t.Sort, xs)
		}
	}
	return intern(&Term{Op: "supd", Sort: t.Sort, Args: []*Term{t, i, v}})
}

func SSub(t, i, j *Term) *Term {
	if i == j {
		return TEmpty(t.Sort)
	}
	if i.isInt() && i.I.Sign() == 0 && j == SLen(t) {
		return t
	}
	if n := seqConstLen(t); n >= 0 && i.isInt() && j.isInt() {
		a, b := i.I.Int64(), j.I.Int64()
		if 0 <= a && a <= b && b <= int64(n) {
			if t.isStrConst() {
				return TLit(strOf(t)[a:b])
			}
			var xs []*Term
			for k := a; k < b; k++ {
				xs = append(xs, SUnit(t.Sort, SAt(t, TInt(k))))
			}
			return catOf(t.Sort, xs)
		}
	}
	if t.Op == "supd" { // the updated position is one of the sequence
		u, b := t.Args[1], t.Args[0]
		if d := Sub(j, u); d.isInt() && d.I.Sign() <= 0 {
			return SSub(b, i, j)
		}
		if d := Sub(i, u); d.isInt() && d.I.Sign() > 0 {
			return SSub(b, i, j)
		}
		if d, e := Sub(j, u), Sub(i, u); d.isInt() && (i.isInt() && i.I.Sign() == 0 || e.isInt()) {
			return SCat(SCat(SSub(b, i, u), SUnit(t.Sort, t.Args[2])), SSub(b, AddI(u, 1), j))
		}
	}
	if t.Op == "ssub" && validSub(t) && Le(TInt(0), i) == TTrue && Le(Add(t.Args[1], j), t.Args[2]) == TTrue {
		return SSub(t.Args[0], Add(t.Args[1], i), Add(t.Args[1], j))
	}
	return intern(&Term{Op: "ssub", Sort: t.Sort, Args: []*Term{t, i, j}})
}

// ---------- ADT, UF ----------

func ctorOf(s *Sort, name string) (*Ctor, int) {
	for i, c := range s.Ctor {
		if c.Name == name {
			return c, i
		}
	}
	panic("no ctor " + name)
}

var ctorSort = map[string]*Sort{}

func sortOfCtor(name string) *Sort {
	switch name[0] {
	case 'V':
		if name == "VNil" || name == "VStr" || name == "VNum" || name == "VSym" || name == "VLst" {
			return SVal
		}
	case 'A':
		for _, c := range SAny.Ctor {
			if c.Name == name {
				return SAny
			}
		}
	}
	sortMu.Lock()
	defer sortMu.Unlock()
	return ctorSort[name]
}

func Mk(name string, args ...*Term) *Term {
	return intern(&Term{Op: "mk", Sort: sortOfCtor(name), S: name, Args: args})
}
func Is(name string, t *Term) *Term {
	if t.Op == "mk" {
		return TBool(t.S == name)
	}
	if len(t.Sort.Ctor) == 1 {
		return TTrue
	}
	if t.Op == "ite" {
		a, b := Is(name, t.Args[1]), Is(name, t.Args[2])
		return Ite(t.Args[0], a, b)
	}
	return intern(&Term{Op: "is", Sort: SBool, S: name, Args: []*Term{t}})
}
func Get(name string, i int, t *Term) *Term {
	s := sortOfCtor(name)
	c, _ := ctorOf(s, name)
	if t.Op == "mk" && t.S == name {
		return t.Args[i]
	}
	if t.Op == "ite" {
		return Ite(t.Args[0], Get(name, i, t.Args[1]), Get(name, i, t.Args[2]))
	}
	return intern(&Term{Op: "get", Sort: c.Fields[i], S: name, N: i, Args: []*Term{t}})
}

type UF struct {
	Name string
	Args []*Sort
	Ret  *Sort
	Lo   *big.Int
	Hi   *big.Int
}

var ufs = map[string]*UF{}
var ufMu sync.Mutex

func declUF(name string, args []*Sort, ret *Sort, lo, hi *big.Int) *UF {
	ufMu.Lock()
	defer ufMu.Unlock()
	key := name
	if u, ok := ufs[key]; ok {
		return u
	}
	u := &UF{name, args, ret, lo, hi}
	ufs[key] = u
	return u
}

// App applies an uninterpreted function; the name is made unique per
// signature.
func App(name string, ret *Sort, args ...*Term) *Term { return AppR(name, ret, nil, nil, args...) }
func AppR(name string, ret *Sort, lo, hi *big.Int, args ...*Term) *Term {
	if f := foldApp(name, ret, args); f != nil {
		return f
	}
	var ss []*Sort
	for _, a := range args {
		ss = append(ss, a.Sort)
	}
	declUF(name, ss, ret, lo, hi)
	t := intern(&Term{Op: "app", Sort: ret, S: name, Args: args})
	if ret == SInt {
		if lo == nil && hi == nil && !strings.HasPrefix(name, "spec.") {
			lo, hi = minI64, maxI64
		}
		if t.lo == nil && t.hi == nil {
			t.lo, t.hi = lo, hi
		}
	}
	return t
}

func (t *Term) String() string {
	var b strings.Builder
	t.write(&b, 0)
	return b.String()
}
func (t *Term) write(b *strings.Builder, d int) {
	if d > 40 {
		b.WriteString("...")
		return
	}
	switch t.Op {
	case "int":
		b.WriteString(t.I.String())
	case "true", "false":
		b.WriteString(t.Op)
	case "var":
		b.WriteString(t.S)
	case "lit":
		fmt.Fprintf(b, "%q", t.S)
	case "flt":
		b.WriteString(t.S)
	case "sempty":
		b.WriteString("[]")
	default:
		b.WriteByte('(')
		switch t.Op {
		case "app", "mk":
			b.WriteString(t.S)
		case "is":
			b.WriteString("is." + t.S)
		case "get":
			fmt.Fprintf(b, "%s.%d", t.S, t.N)
		case "*":
			b.WriteString("*")
			if t.I != nil {
				b.WriteString(" " + t.I.String())
			}
		default:
			b.WriteString(t.Op)
		}
		for _, a := range t.Args {
			b.WriteByte(' ')
			a.write(b, d+1)
		}
		b.WriteByte(')')
	}
}

// subst replaces terms (usually variables) bottom-up, re-normalising.
func subst(t *Term, m map[*Term]*Term) *Term {
	cache := map[*Term]*Term{}
	var rec func(t *Term) *Term
	rec = func(t *Term) *Term {
		if r, ok := m[t]; ok {
			return r
		}
		if len(t.Args) == 0 {
			return t
		}
		if r, ok := cache[t]; ok {
			return r
		}
		as := make([]*Term, len(t.Args))
		ch := false
		for i, a := range t.Args {
			as[i] = rec(a)
			if as[i] != a {
				ch = true
			}
		}
		r := t
		if ch {
			r = rebuild(t, as)
		}
		cache[t] = r
		return r
	}
	return rec(t)
}

func rebuild(t *Term, as []*Term) *Term {
	switch t.Op {
	case "+":
		r := TInt(0)
		for _, a := range as {
			r = Add(r, a)
		}
		return r
	case "*":
		if len(as) == 1 {
			return MulC(t.I, as[0])
		}
		return Mul(as[0], as[1])
	case "<=":
		return Le(as[0], as[1])
	case "=":
		return Eq(as[0], as[1])
	case "not":
		return Not(as[0])
	case "and":
		return And(as...)
	case "or":
		return Or(as...)
	case "ite":
		return Ite(as[0], as[1], as[2])
	case "slen":
		return SLen(as[0])
	case "sat":
		return SAt(as[0], as[1])
	case "scat":
		return catOf(t.Sort, as)
	case "ssub":
		return SSub(as[0], as[1], as[2])
	case "sunit":
		return SUnit(t.Sort, as[0])
	case "supd":
		return SUpd(as[0], as[1], as[2])
	case "mk":
		return Mk(t.S, as...)
	case "is":
		return Is(t.S, as[0])
	case "get":
		return Get(t.S, t.N, as[0])
	case "app":
		return AppR(t.S, t.Sort, t.lo, t.hi, as...)
	}
	panic("rebuild " + t.Op)
}

// simplifyUnder rewrites t assuming the facts (literals) hold.
func simplifyUnder(t *Term, facts map[*Term]bool) *Term {
	cache := map[*Term]*Term{}
	var rec func(t *Term) *Term
	rec = func(t *Term) *Term {
		if t.Sort == SBool {
			if v, ok := facts[t]; ok {
				return TBool(v)
			}
		}
		if len(t.Args) == 0 {
			return t
		}
		if r, ok := cache[t]; ok {
			return r
		}
		as := make([]*Term, len(t.Args))
		ch := false
		for i, a := range t.Args {
			as[i] = rec(a)
			if as[i] != a {
				ch = true
			}
		}
		r := t
		if ch {
			r = rebuild(t, as)
			if r.Sort == SBool {
				if v, ok := facts[r]; ok {
					r = TBool(v)
				}
			}
		}
		cache[t] = r
		return r
	}
	return rec(t)
}

func factsOf(pc []*Term) map[*Term]bool {
	f := map[*Term]bool{}
	var add func(t *Term)
	add = func(t *Term) {
		switch t.Op {
		case "and":
			for _, a := range t.Args {
				add(a)
			}
			return
		case "true":
			return
		}
		f[t] = true
		n := Not1(t)
		f[n] = false
		if t.Op == "is" {
			for _, c := range t.Args[0].Sort.Ctor {
				if c.Name != t.S {
					f[Is(c.Name, t.Args[0])] = false
				}
			}
		}
		if t.Op == "=" && t.Args[0].isInt() { // 0 = d  => 0<=d, 0<=-d
			d := t.Args[1]
			f[Le(TInt(0), d)] = true
			f[Le(d, TInt(0))] = true
			f[Le(TInt(1), d)] = false
			f[Le(d, TInt(-1))] = false
		}
		if t.Op == "<=" { // 0 <= d : -1 >= d false, d = -1 false ; 0<=d+1 true
			d := t.Args[1]
			f[Eq(d, TInt(-1))] = false
			f[Le(TInt(-1), d)] = true
			f[Le(d, TInt(-2))] = false
		}
	}
	for _, t := range pc {
		add(t)
	}
	delete(f, TTrue)
	delete(f, TFalse)
	return f
}

// isSentinel: an error variable of the library, such as io.EOF.
func isSentinel(t *Term) bool {
	return t.Op == "var" && t.Sort == SErr && strings.Contains(t.S, ".") && !strings.Contains(t.S, "!")
}
