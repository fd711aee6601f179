package main

// Symbolic values and memory of the executor.

import (
	"fmt"
	"go/types"
	"math"
	"math/big"
	"strconv"
	"strings"
	"unicode"

	"golang.org/x/tools/go/ssa"
)

type SV interface{}

type PE struct {
	field int
	idx   *Term
}

// Ptr points into a region of the executor's memory.
type Ptr struct {
	reg  int
	path []PE
}

// PtrNil is a typed nil pointer.
type PtrNil struct{ t types.Type }

// ValPtr is a field of an (immutable) edlisp value object.
type ValPtr struct {
	t    *Term
	ctor string
	fi   int
}

// ElemPtr is an element of a foreign (immutable) sequence.
type ElemPtr struct {
	seq, idx *Term
	typ      types.Type
	path     []PE
}

type GlobPtr struct {
	g    *ssa.Global
	path []PE
}

type StructV struct {
	typ types.Type
	f   []SV
}
type ArrV struct {
	typ types.Type
	e   []SV
}

// SliceV views a region that this path owns.
type SliceV struct {
	reg   int
	lo, n *Term
	typ   types.Type
	full  bool  // no spare capacity
	null  *Term // when it is nil; absent: never
}
type IfaceV struct {
	typ types.Type
	v   SV
}
type ClosV struct {
	fn    *ssa.Function
	binds []SV
}
type TupV []SV
type MapV struct{ reg int }
type MapEnt struct{ k, v SV }
type MapVal struct {
	base  *Term
	ents  []MapEnt
	fuzzy bool // entries may have equal keys; the later one counts
}
type IterV struct{ reg int }
type IterVal struct {
	s   *Term // string being ranged over
	pos *Term
	m   SV
	k   int
}

type Region struct {
	typ    types.Type
	val    SV
	frozen bool // shared as an immutable value
	moved  bool // already appended to
	// carried around a loop: other slices may have the same backing array, so
	// that it must not be written
	carried bool
	cell    bool // a variable, as opposed to the elements of a slice
	name    string
}

type Unsupported struct{ msg string }

func (u Unsupported) Error() string { return u.msg }
func unsup(f string, a ...interface{}) {
	panic(Unsupported{fmt.Sprintf(f, a...)})
}

func typeName(t types.Type) string {
	if t == nil {
		return ""
	}
	if n, ok := types.Unalias(t).(*types.Named); ok {
		if n.Obj().Pkg() != nil {
			return n.Obj().Pkg().Path() + "." + n.Obj().Name()
		}
		return n.Obj().Name()
	}
	return t.String()
}

const edl = "github.com/dhamidi/texted/edlisp"

// valCtor returns the constructor for *String, *Number, *Symbol, *List.
func valCtor(t types.Type) string {
	p, ok := types.Unalias(t).(*types.Pointer)
	if !ok {
		return ""
	}
	return valCtorElem(p.Elem())
}
func valCtorElem(t types.Type) string {
	switch typeName(t) {
	case edl + ".String":
		return "VStr"
	case edl + ".Number":
		return "VNum"
	case edl + ".Symbol":
		return "VSym"
	case edl + ".List":
		return "VLst"
	}
	return ""
}

func isBuilder(t types.Type) bool {
	switch typeName(t) {
	case "strings.Builder", "bytes.Buffer":
		return true
	}
	return false
}

func isErrorType(t types.Type) bool { return types.Identical(t, types.Universe.Lookup("error").Type()) }

var structSorts = map[string]types.Type{}

// sortOf maps a Go type to a sort; nil when it has none.
func sortOf(t types.Type) *Sort {
	t = types.Unalias(t)
	if isBuilder(t) {
		return SStr
	}
	switch typeName(t) {
	case edl + ".Value":
		return SVal
	}
	if isErrorType(t) {
		return SErr
	}
	switch u := t.Underlying().(type) {
	case *types.Basic:
		switch {
		case u.Info()&types.IsBoolean != 0:
			return SBool
		case u.Info()&types.IsInteger != 0:
			return SInt
		case u.Info()&types.IsString != 0:
			return SStr
		case u.Info()&types.IsFloat != 0:
			return SFlt
		case u.Kind() == types.UnsafePointer:
			return opaqueSort("unsafe")
		}
	case *types.Slice:
		if b, ok := u.Elem().Underlying().(*types.Basic); ok && b.Info()&types.IsInteger != 0 {
			if b.Kind() == types.Uint8 {
				return SStr
			}
			return SInts
		}
		e := sortOf(u.Elem())
		if e == nil {
			return nil
		}
		return seqSort(e)
	case *types.Interface:
		if u.NumMethods() == 0 {
			return SAny
		}
		return opaqueSort("I_" + typeName(t))
	case *types.Pointer:
		if valCtor(t) != "" {
			return SVal
		}
		return opaqueSort("P_" + typeName(u.Elem()))
	case *types.Map:
		k, v := sortOf(u.Key()), sortOf(u.Elem())
		if k == nil || v == nil {
			return nil
		}
		return mapSort(k, v)
	case *types.Signature:
		return SFn
	case *types.Struct:
		n := "S_" + smtName(typeName(t))
		if _, ok := structSorts[n]; ok {
			return mkSort(n, "adt")
		}
		c := &Ctor{Name: "mk_" + n}
		for i := 0; i < u.NumFields(); i++ {
			fs := sortOf(u.Field(i).Type())
			if fs == nil {
				return nil
			}
			c.Fields = append(c.Fields, fs)
			c.FNames = append(c.FNames, u.Field(i).Name())
		}
		s := mkSort(n, "adt")
		s.Ctor = []*Ctor{c}
		structSorts[n] = t
		sortMu.Lock()
		ctorSort[c.Name] = s
		sortMu.Unlock()
		return s
	}
	return nil
}

func intRange(t types.Type) (lo, hi *big.Int) {
	b, ok := t.Underlying().(*types.Basic)
	if !ok {
		return minI64, maxI64
	}
	bits, signed := 64, true
	switch b.Kind() {
	case types.Int8:
		bits = 8
	case types.Int16:
		bits = 16
	case types.Int32, types.UntypedRune:
		bits = 32
	case types.Uint8:
		bits, signed = 8, false
	case types.Uint16:
		bits, signed = 16, false
	case types.Uint32:
		bits, signed = 32, false
	case types.Uint, types.Uint64, types.Uintptr:
		signed = false
	}
	if signed {
		h := new(big.Int).Lsh(big1, uint(bits-1))
		return new(big.Int).Neg(h), new(big.Int).Sub(h, big1)
	}
	return big0, new(big.Int).Sub(new(big.Int).Lsh(big1, uint(bits)), big1)
}

// ---------- constants ----------

func fltConst(f float64) *Term {
	return TFlt(strconv.FormatFloat(f, 'g', -1, 64))
}
func parseFlt(s string) float64 {
	f, _ := strconv.ParseFloat(s, 64)
	return f
}
func fltToInt(s string) (int64, bool) {
	f := parseFlt(s)
	return int64(f), true // amd64 semantics of the running machine
}
func fltIntegral(s string) (int64, bool) {
	f := parseFlt(s)
	if math.Abs(f) <= 1<<53 && f == math.Trunc(f) && !(f == 0 && math.Signbit(f)) {
		return int64(f), true
	}
	return 0, false
}

var recFold func(name string, ret *Sort, args []*Term) *Term

func foldApp(name string, ret *Sort, args []*Term) *Term {
	if (name == "reader.text" || name == "reader.err") && args[0].Op == "app" && args[0].S == "strings.NewReader" {
		if name == "reader.err" {
			return ErrNil
		}
		return args[0].Args[0]
	}
	if name == "strings.TrimLeftFunc" && args[0].isConst() && args[1].S == "fn:unicode.IsSpace" {
		return TLit(strings.TrimLeftFunc(strOf(args[0]), unicode.IsSpace))
	}
	if name == "strings.Join" {
		if t := foldJoin(args[0], args[1]); t != nil {
			return t
		}
	}
	for _, a := range args {
		if !a.isConst() {
			if name == "f2i" && a.Op == "app" && a.S == "i2f" {
				lo, hi := boundsOf(a.Args[0])
				lim := big.NewInt(1 << 53)
				if lo != nil && hi != nil && lo.CmpAbs(lim) <= 0 && hi.CmpAbs(lim) <= 0 {
					return a.Args[0]
				}
			}
			return nil
		}
	}
	str := func(i int) string { return strOf(args[i]) }
	switch name {
	case "f2i":
		v, _ := fltToInt(args[0].S)
		return TInt(v)
	case "i2f":
		f := new(big.Float).SetInt(args[0].I)
		v, _ := f.Float64()
		return fltConst(v)
	case "flt_lt":
		return TBool(parseFlt(args[0].S) < parseFlt(args[1].S))
	case "flt_eq":
		return TBool(parseFlt(args[0].S) == parseFlt(args[1].S))
	case "rune_at", "rune_w":
		s := str(0)
		i := int(args[1].I.Int64())
		if i < 0 || i >= len(s) {
			return nil
		}
		for _, r := range s[i:] {
			if name == "rune_at" {
				return TInt(int64(r))
			}
			w := len(string(r))
			if r == 0xFFFD {
				w = 1
				if strings.HasPrefix(s[i:], "\uFFFD") {
					w = 3
				}
			}
			return TInt(int64(w))
		}
	case "rune_str":
		return TLit(string(rune(args[0].I.Int64())))
	case "strings.Index":
		return TInt(int64(strings.Index(str(0), str(1))))
	case "strings.LastIndex":
		return TInt(int64(strings.LastIndex(str(0), str(1))))
	case "strings.HasPrefix":
		return TBool(strings.HasPrefix(str(0), str(1)))
	case "strings.HasSuffix":
		return TBool(strings.HasSuffix(str(0), str(1)))
	case "strings.Contains":
		return TBool(strings.Contains(str(0), str(1)))
	case "strings.ToUpper":
		return TLit(strings.ToUpper(str(0)))
	case "strings.ToLower":
		return TLit(strings.ToLower(str(0)))
	case "strings.TrimSpace":
		return TLit(strings.TrimSpace(str(0)))
	case "strconv.Quote":
		return TLit(strconv.Quote(str(0)))
	case "strconv.Itoa":
		if args[0].I.IsInt64() {
			return TLit(strconv.FormatInt(args[0].I.Int64(), 10))
		}
		return nil
	case "strconv.Unquote#0", "strconv.Unquote#1":
		u, err := strconv.Unquote(str(0))
		if err == nil && name == "strconv.Unquote#1" {
			return ErrNil
		}
		if err != nil && name == "strconv.Unquote#1" {
			return TSmp(SErr, "unquote")
		}
		return TLit(u)
	case "strconv.ParseFloat#0", "strconv.ParseFloat#1":
		f, err := strconv.ParseFloat(str(0), int(args[1].I.Int64()))
		if err == nil && name == "strconv.ParseFloat#1" {
			return ErrNil
		}
		if err != nil && name == "strconv.ParseFloat#1" {
			return TSmp(SErr, "parsefloat")
		}
		return fltConst(f)
	case "strings.Count":
		return TInt(int64(strings.Count(str(0), str(1))))
	case "strings.Split":
		var xs []*Term
		for _, p := range strings.Split(str(0), str(1)) {
			xs = append(xs, SUnit(seqSort(SStr), TLit(p)))
		}
		return catOf(seqSort(SStr), xs)
	case "wfv":
		t := args[0]
		if t.S == "VNil" {
			return TFalse
		}
		if t.S == "VLst" {
			return App("wfvs", SBool, t.Args[0])
		}
		return TTrue
	case "wfvs":
		for i := 0; i < seqConstLen(args[0]); i++ {
			if App("wfv", SBool, SAt(args[0], TInt(int64(i)))) != TTrue {
				return TFalse
			}
		}
		return TTrue
	case "str_lt":
		return TBool(str(0) < str(1))
	}
	if strings.HasPrefix(name, "isnil_") {
		return nil
	}
	if strings.HasPrefix(name, "fmt.%") && args[0].Op == "flt" {
		verb, _, _ := strings.Cut(name[len("fmt."):], ",")
		return TLit(fmt.Sprintf(verb, parseFlt(args[0].S)))
	}
	if t := foldJSON(name, args); t != nil {
		return t
	}
	if t := foldSample(name, ret, args); t != nil {
		return t
	}
	if recFold != nil {
		return recFold(name, ret, args)
	}
	return nil
}

// TSmp is an individual of a sort without structure, used in samples only.
func TSmp(s *Sort, name string) *Term {
	return intern(&Term{Op: "smp", S: name, Sort: s})
}

// foldSample interprets maps of built-ins and their application on sample
// individuals. None of these terms occurs in a verification condition.
func foldSample(name string, ret *Sort, args []*Term) *Term {
	if len(args) == 0 || args[0].Op != "smp" {
		return nil
	}
	h := uint64(1469598103934665603)
	for _, a := range args {
		h = mixHash(h, a.String(), 1)
	}
	switch {
	case strings.HasPrefix(name, "mhas_"):
		return TBool(h%5 != 0)
	case strings.HasPrefix(name, "mget_") && ret == SFn:
		return TSmp(SFn, fmt.Sprintf("fn%d", h%1000))
	case name == "apply.err":
		if h%7 == 0 {
			return TSmp(SErr, fmt.Sprintf("err%d", h%1000))
		}
		return ErrNil
	case name == "apply.val":
		return Mk("VNum", fltConst(float64(h%50)))
	case name == "apply.buf":
		old := args[len(args)-1]
		c := strOf(old.Args[0]) + string(rune('a'+h%20))
		n := int64(len(c))
		return Mk(ret.Ctor[0].Name, TLit(c), TInt(1+int64(h%uint64(n+1))), TInt(1+int64(h/7%uint64(n+1))), TLit(c[:h/3%uint64(n)]), TInt(int64(h/5%uint64(n))), TInt(int64(h/11%uint64(n))))
	}
	return nil
}

// foldJoin unfolds the joining of a sequence that ends in known elements.
func foldJoin(s, sep *Term) *Term {
	switch s.Op {
	case "sempty":
		return TEmpty(SStr)
	case "sunit":
		return s.Args[0]
	case "scat":
		l := s.Args[len(s.Args)-1]
		if l.Op != "sunit" {
			return nil
		}
		r := s.Args[0]
		if len(s.Args) > 2 {
			r = TEmpty(s.Sort)
			for _, a := range s.Args[:len(s.Args)-1] {
				r = SCat(r, a)
			}
		}
		return Ite(Eq(SLen(r), TInt(0)), l.Args[0], SCat(SCat(App("strings.Join", SStr, r, sep), sep), l.Args[0]))
	}
	return nil
}
