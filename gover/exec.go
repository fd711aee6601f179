package main

// Path-wise symbolic execution of go/ssa between loop cut points.

import (
	"fmt"
	"go/constant"
	"go/token"
	"go/types"
	"math/big"
	"sort"
	"strings"
	"sync/atomic"

	"golang.org/x/tools/go/ssa"
)

type Frame struct {
	fn     *ssa.Function
	env    map[ssa.Value]SV
	blk    *ssa.BasicBlock
	prev   *ssa.BasicBlock
	idx    int
	call   ssa.Value // value in the caller receiving the result
	cuts   map[*ssa.BasicBlock]*Cut
	visits map[*ssa.BasicBlock]int
	ret    func(st *State, res []SV) []SV // post-processing of results
	defers []func(st *State)
}

type State struct {
	x     *Exec
	pc    []*Term
	facts map[*Term]bool
	mem   map[int]*Region
	fr    []*Frame
	spec  bool
	trail uint64 // hash of the blocks executed
	globs *globals

	reveal string // contract whose opaque constants may be spelled out
}

// globals gives package variables a place in memory: while a package is being
// initialised they are ordinary variables that start out zero.
type globals struct {
	pkg *ssa.Package
	reg map[*ssa.Global]int
}

func (st *State) globReg(g GlobPtr) (Ptr, bool) {
	if st.globs == nil || g.g.Pkg != st.globs.pkg {
		return Ptr{}, false
	}
	r, ok := st.globs.reg[g.g]
	if !ok {
		unsup("package variable %s", g.g.Name())
	}
	return Ptr{reg: r, path: g.path}, true
}

type Obligation struct {
	Fn    string
	Kind  string // bounds, nil, assert, div, post, inv, frame, term, unsupported ...
	Name  string // stable name
	Pos   string
	PC    []*Term
	Goal  *Term
	Tags  []string
	res   Result
	back  string
	done  bool
	Extra string
}

// Exec is one verification run of one function.
type Exec struct {
	e          *Engine
	fn         *ssa.Function
	contract   *Contract
	obls       []*Obligation
	quiet      int // >0: do not record obligations
	fresh      int
	joinLow    int // >0: stores to regions <= joinLow are join failures
	joins      int
	joinBad    map[*ssa.Function]bool
	explore    []*exploreCtx
	steps      int
	maxSteps   int
	concrete   *concreteRun
	paths      int
	params     []SV
	specEntry  []SV
	callsSeen  map[string]bool
	assumed    map[string]bool
	depth      int
	discover   int
	entryState *State
	entryVars  []*Term
	smps       []snapshot
	ptrOut     bool            // specification results may point to new objects
	outMem     map[int]*Region // and the memory these live in
	loopCache  map[uint64][]*cand
	specUse    map[*ssa.Function][][]*Term // arguments of recursive specification functions
	relevant   map[*Term]bool              // entry variables the recursive parts of the specification depend on
}

type joinFail struct{ why string }

var regCounter int64

func (x *Exec) newReg(st *State, t types.Type, v SV) int {
	r := int(atomic.AddInt64(&regCounter, 1))
	st.mem[r] = &Region{typ: t, val: v}
	return r
}

func (st *State) clone() *State {
	n := &State{x: st.x, globs: st.globs, reveal: st.reveal, pc: st.pc[:len(st.pc):len(st.pc)], facts: st.facts, spec: st.spec, trail: st.trail}
	n.mem = make(map[int]*Region, len(st.mem))
	for k, v := range st.mem {
		n.mem[k] = v
	}
	n.fr = make([]*Frame, len(st.fr))
	for i, f := range st.fr {
		c := *f
		c.env = make(map[ssa.Value]SV, len(f.env)+8)
		for k, v := range f.env {
			c.env[k] = v
		}
		c.cuts = map[*ssa.BasicBlock]*Cut{}
		for k, v := range f.cuts {
			c.cuts[k] = v
		}
		c.visits = map[*ssa.BasicBlock]int{}
		for k, v := range f.visits {
			c.visits[k] = v
		}
		c.defers = f.defers[:len(f.defers):len(f.defers)]
		n.fr[i] = &c
	}
	return n
}

func (st *State) top() *Frame { return st.fr[len(st.fr)-1] }

func (st *State) assume(t *Term) {
	if t == TTrue {
		return
	}
	st.pc = append(st.pc, t)
	st.facts = nil
}

func (st *State) getFacts() map[*Term]bool {
	if st.facts == nil {
		st.facts = factsOf(st.pc)
	}
	return st.facts
}

// decide simplifies a condition under the path condition.
func (st *State) decide(c *Term) *Term {
	if c.isConst() {
		return c
	}
	f := st.getFacts()
	if v, ok := f[c]; ok {
		return TBool(v)
	}
	return simplifyUnder(c, f)
}

func (x *Exec) freshName(p string) string {
	return fmt.Sprintf("%s!%d", p, atomic.AddInt64(&x.e.freshN, 1))
}

func pos(fn *ssa.Function, p token.Pos) string {
	if !p.IsValid() {
		p = fn.Pos()
	}
	q := fn.Prog.Fset.Position(p)
	f := q.Filename
	if i := strings.LastIndex(f, "/"); i >= 0 {
		f = f[i+1:]
	}
	return fmt.Sprintf("%s:%d", f, q.Line)
}

// emit records a proof obligation and assumes it afterwards.
func (x *Exec) emit(st *State, kind, name string, p token.Pos, goal *Term, tags ...string) {
	if st.spec {
		return
	}
	if x.quiet == 0 {
		o := &Obligation{Fn: x.fn.String(), Kind: kind, Name: name, PC: st.pc[:len(st.pc):len(st.pc)], Goal: goal, Tags: tags}
		fr := st.top()
		o.Pos = pos(fr.fn, p)
		if fr.fn != x.fn {
			o.Pos += " (" + fr.fn.Name() + ")"
		}
		x.obls = append(x.obls, o)
	}
	st.assume(goal)
	if goal == TFalse {
		panic(deadPath{})
	}
}

// ---------- values ----------

func (x *Exec) freshVal(st *State, t types.Type, name string) SV {
	t = types.Unalias(t)
	if isBuilder(t) {
		return TVar(x.freshName(name), SStr)
	}
	switch u := t.Underlying().(type) {
	case *types.Basic:
		if u.Info()&types.IsInteger != 0 {
			lo, hi := intRange(t)
			return TVarR(x.freshName(name), lo, hi)
		}
	case *types.Struct:
		s := &StructV{typ: t}
		for i := 0; i < u.NumFields(); i++ {
			s.f = append(s.f, x.freshVal(st, u.Field(i).Type(), name+"."+u.Field(i).Name()))
		}
		return s
	case *types.Pointer:
		if valCtor(t) == "" && x.e.inRepo(u.Elem()) {
			if _, ok := u.Elem().Underlying().(*types.Struct); ok {
				r := x.newReg(st, u.Elem(), x.freshVal(st, u.Elem(), name))
				st.mem[r].name = name
				return Ptr{reg: r}
			}
		}
		if valCtor(t) != "" {
			v := TVar(x.freshName(name), SVal)
			st.assume(Is(valCtor(t), v))
			return v
		}
	case *types.Tuple:
		var tv TupV
		for i := 0; i < u.Len(); i++ {
			tv = append(tv, x.freshVal(st, u.At(i).Type(), name))
		}
		return tv
	case *types.Array:
		if u.Len() <= 64 {
			a := &ArrV{typ: t}
			for i := int64(0); i < u.Len(); i++ {
				a.e = append(a.e, x.freshVal(st, u.Elem(), name))
			}
			return a
		}
		return TVar(x.freshName(name), seqOfElem(u.Elem()))
	}
	s := sortOf(t)
	if s == nil {
		unsup("no symbolic value for type %s", t)
	}
	return TVar(x.freshName(name), s)
}

func seqOfElem(e types.Type) *Sort { return sortOf(types.NewSlice(e)) }

var ErrNil = TVar("ErrNil", SErr)

// ErrEOF is io.EOF.
var ErrEOF = TVar("io.EOF", SErr)

// AnyErr in a specification stands for an unspecified error.
var AnyErr = TVar("AnyErr", SErr)
var FnNil = TVar("FnNil", SFn)

func (x *Exec) zero(t types.Type) SV {
	t = types.Unalias(t)
	if isBuilder(t) {
		return TEmpty(SStr)
	}
	switch u := t.Underlying().(type) {
	case *types.Basic:
		switch {
		case u.Info()&types.IsBoolean != 0:
			return TFalse
		case u.Info()&types.IsInteger != 0:
			return TInt(0)
		case u.Info()&types.IsString != 0:
			return TEmpty(SStr)
		case u.Info()&types.IsFloat != 0:
			return fltConst(0)
		}
	case *types.Struct:
		s := &StructV{typ: t}
		for i := 0; i < u.NumFields(); i++ {
			s.f = append(s.f, x.zero(u.Field(i).Type()))
		}
		return s
	case *types.Array:
		if u.Len() <= 512 {
			a := &ArrV{typ: t}
			z := x.zero(u.Elem())
			for i := int64(0); i < u.Len(); i++ {
				a.e = append(a.e, z)
			}
			return a
		}
	case *types.Interface:
		switch s := sortOf(t); s {
		case SVal:
			return Mk("VNil")
		case SErr:
			return ErrNil
		case SAny:
			return Mk("ANil")
		default:
			return TVar("nil_"+s.Name, s)
		}
	case *types.Slice:
		if s := sortOf(t); s != nil {
			return TEmpty(s)
		}
		// element type without a sort: represent as an empty owned region
		return &nilSlice{t}
	case *types.Signature:
		return FnNil
	case *types.Pointer:
		return PtrNil{t}
	case *types.Map:
		if s := sortOf(t); s != nil {
			return TVar("nil_"+s.Name, s)
		}
		return &nilSlice{t}
	}
	unsup("zero value of %s", t)
	return nil
}

type nilSlice struct{ t types.Type }

// fromTerm wraps a term as a value of Go type t.
func (x *Exec) fromTerm(t types.Type, v *Term) SV {
	t = types.Unalias(t)
	if isBuilder(t) {
		return v
	}
	if u, ok := t.Underlying().(*types.Struct); ok && v.Sort.Kind == "adt" {
		s := &StructV{typ: t}
		for i := 0; i < u.NumFields(); i++ {
			s.f = append(s.f, x.fromTerm(u.Field(i).Type(), Get(v.Sort.Ctor[0].Name, i, v)))
		}
		return s
	}
	return v
}

// term converts a value of static type t to a term of its sort.
func (x *Exec) term(st *State, v SV, t types.Type) *Term {
	switch a := v.(type) {
	case *Term:
		return a
	case *StructV:
		s := sortOf(a.typ)
		if s == nil {
			unsup("struct %s as a term", a.typ)
		}
		u := a.typ.Underlying().(*types.Struct)
		var as []*Term
		for i, f := range a.f {
			as = append(as, x.term(st, f, u.Field(i).Type()))
		}
		return Mk(s.Ctor[0].Name, as...)
	case Ptr:
		if len(a.path) == 0 {
			r := st.mem[a.reg]
			if c := valCtorElem(r.typ); c != "" {
				sv, ok := r.val.(*StructV)
				if !ok {
					unsup("value object of unknown shape")
				}
				u := r.typ.Underlying().(*types.Struct)
				t0 := x.term(st, sv.f[0], u.Field(0).Type())
				x.freeze(st, a.reg)
				return Mk(c, t0)
			}
		}
		if s := sortOf(t); s != nil && s.Kind == "opaque" {
			// an object identity as an opaque handle
			return TVar(fmt.Sprintf("ref!%d", a.reg), s)
		}
		unsup("pointer to %v as a term", st.mem[a.reg].typ)
	case PtrNil:
		if valCtor(a.t) != "" {
			return Mk("VNil")
		}
		s := sortOf(a.t)
		return TVar("nil_"+s.Name, s)
	case SliceV:
		r := st.mem[a.reg]
		var s *Term
		switch b := r.val.(type) {
		case *Term:
			s = b
		case *ArrV:
			s = x.arrTerm(st, b)
		}
		if s == nil {
			unsup("slice of %v as a term", r.typ)
		}
		x.freeze(st, a.reg)
		if seqConstLen(s) < 0 && a.lo.isInt() && a.lo.I.Sign() == 0 && st.decide(Eq(a.n, SLen(s))) == TTrue {
			return s
		}
		return SSub(s, a.lo, Add(a.lo, a.n))
	case IfaceV:
		switch s := sortOf(t); s {
		case SVal:
			return x.term(st, a.v, a.typ)
		case SErr:
			return x.errTerm(st, a)
		case SAny:
			return x.anyTerm(st, a)
		default:
			if s != nil && s.Kind == "opaque" {
				if p, ok := a.v.(Ptr); ok {
					return TVar(fmt.Sprintf("ref!%d", p.reg), s)
				}
				if tt := x.term(st, a.v, a.typ); tt != nil {
					return App("box_"+smtName(typeName(a.typ))+"_"+s.Name, s, tt)
				}
			}
		}
		unsup("interface %s as a term", t)
	case ClosV:
		var as []*Term
		for i, b := range a.binds {
			as = append(as, x.term(st, b, a.fn.FreeVars[i].Type()))
		}
		if len(as) == 0 {
			return TVar("fn:"+a.fn.String(), SFn)
		}
		return App("clos:"+a.fn.String(), SFn, as...)
	case MapV:
		m := st.mem[a.reg].val.(*MapVal)
		if m.base != nil && len(m.ents) == 0 {
			return m.base
		}
		s := sortOf(t)
		if s == nil {
			unsup("map as a term")
		}
		b := m.base
		if b == nil {
			b = TVar("emptymap_"+s.Name, s)
		}
		mt := t.Underlying().(*types.Map)
		ents := m.ents
		if !m.fuzzy {
			// the order of different keys does not matter
			ents = append([]MapEnt{}, ents...)
			sort.SliceStable(ents, func(i, j int) bool {
				return x.term(st, ents[i].k, mt.Key()).String() < x.term(st, ents[j].k, mt.Key()).String()
			})
		}
		for _, en := range ents {
			b = App("mset_"+s.Name, s, b, x.term(st, en.k, mt.Key()), x.term(st, en.v, mt.Elem()))
		}
		return b
	case *nilSlice:
		unsup("nil %s as a term", a.t)
	case *ArrV:
		return x.arrTerm(st, a)
	}
	unsup("value %T as a term of %s", v, t)
	return nil
}

func (x *Exec) arrTerm(st *State, b *ArrV) *Term {
	var el types.Type
	switch u := b.typ.Underlying().(type) {
	case *types.Array:
		el = u.Elem()
	case *types.Slice:
		el = u.Elem()
	}
	ss := seqOfElem(el)
	if ss == nil {
		unsup("array of %s as a term", el)
	}
	var xs []*Term
	for _, v := range b.e {
		xs = append(xs, SUnit(ss, normErrs(st, x.term(st, v, el))))
	}
	return catOf(ss, xs)
}

// normErrs: errors inside stored structures are tracked as present or absent.
func normErrs(st *State, t *Term) *Term {
	if t.Op != "mk" || t.Sort == SVal || t.Sort == SAny {
		return t
	}
	as := append([]*Term{}, t.Args...)
	for i, a := range as {
		if a.Sort != SErr {
			continue
		}
		switch n := st.decide(Eq(a, ErrNil)); n {
		case TTrue:
			as[i] = ErrNil
		case TFalse:
			as[i] = AnyErr
		default:
			as[i] = Ite(n, ErrNil, AnyErr)
		}
	}
	return Mk(t.S, as...)
}

func (x *Exec) freeze(st *State, reg int) {
	r := st.mem[reg]
	if r.frozen || st.spec {
		return
	}
	c := *r
	c.frozen = true
	st.mem[reg] = &c
}

func (x *Exec) errTerm(st *State, a IfaceV) *Term {
	if t, ok := a.v.(*Term); ok && t.Sort == SErr {
		return t
	}
	var e *Term
	if p, ok := a.v.(Ptr); ok {
		e = TVar(fmt.Sprintf("err!ref%d", p.reg), SErr)
	} else {
		e = TVar(x.freshName("err"), SErr)
	}
	st.assume(Not(Eq(e, ErrNil)))
	return e
}

func (x *Exec) anyTerm(st *State, a IfaceV) *Term {
	if t, ok := a.v.(*Term); ok {
		switch {
		case typeName(a.typ) == "string":
			return Mk("AStr", t)
		case typeName(a.typ) == "float64":
			return Mk("AFlt", t)
		case typeName(a.typ) == "bool":
			return Mk("ABool", t)
		case t.Sort == SAnys:
			return Mk("ASeq", t)
		case t.Sort == SVal:
			return Mk("AVal", t)
		case t.Sort == SAny:
			return t
		}
		return App("any_"+smtName(typeName(a.typ)), SAny, t)
	}
	if valCtor(a.typ) != "" {
		return Mk("AVal", x.term(st, a.v, a.typ))
	}
	if s := sortOf(a.typ); s == SAnys {
		null := TFalse
		if _, isT := a.v.(*Term); !isT {
			null = x.isNil(st, a.v, a.typ)
		}
		return Ite(null, TVar("any.nilslice", SAny), Mk("ASeq", x.term(st, a.v, a.typ)))
	}
	return App("any_"+smtName(typeName(a.typ)), SAny, x.term(st, a.v, a.typ))
}

// ---------- memory ----------

func (x *Exec) loadPath(st *State, v SV, path []PE, t types.Type) SV {
	for _, p := range path {
		if p.idx == nil {
			switch a := v.(type) {
			case *StructV:
				v = a.f[p.field]
				continue
			case *Term:
				if a.Sort.Kind == "adt" && len(a.Sort.Ctor) == 1 {
					v = Get(a.Sort.Ctor[0].Name, p.field, a)
					continue
				}
			}
			unsup("field of %T", v)
		}
		switch a := v.(type) {
		case *ArrV:
			if p.idx.isInt() && p.idx.I.IsInt64() && int(p.idx.I.Int64()) < len(a.e) && p.idx.I.Sign() >= 0 {
				v = a.e[p.idx.I.Int64()]
				continue
			}
			v = SAt(x.arrTerm(st, a), p.idx)
		case *Term:
			v = SAt(a, p.idx)
		default:
			unsup("element of %T", v)
		}
	}
	if tt, ok := v.(*Term); ok && t != nil {
		return x.fromTerm(t, tt)
	}
	return v
}

func (x *Exec) storePath(st *State, v SV, path []PE, nv SV, t types.Type) SV {
	if len(path) == 0 {
		return nv
	}
	p := path[0]
	if p.idx == nil {
		if tt, ok := v.(*Term); ok && tt.Sort.Kind == "adt" && len(tt.Sort.Ctor) == 1 {
			c := tt.Sort.Ctor[0]
			var as []*Term
			for i := range c.Fields {
				as = append(as, Get(c.Name, i, tt))
			}
			if len(path) == 1 {
				as[p.field] = x.term(st, nv, t)
				return Mk(c.Name, as...)
			}
		}
		a, ok := v.(*StructV)
		if !ok {
			unsup("store to field of %T", v)
		}
		n := &StructV{typ: a.typ, f: append([]SV{}, a.f...)}
		n.f[p.field] = x.storePath(st, a.f[p.field], path[1:], nv, t)
		return n
	}
	switch a := v.(type) {
	case *ArrV:
		if p.idx.isInt() && p.idx.I.IsInt64() && int(p.idx.I.Int64()) < len(a.e) && p.idx.I.Sign() >= 0 {
			n := &ArrV{typ: a.typ, e: append([]SV{}, a.e...)}
			i := p.idx.I.Int64()
			n.e[i] = x.storePath(st, a.e[i], path[1:], nv, t)
			return n
		}
		if len(path) == 1 {
			return SUpd(x.arrTerm(st, a), p.idx, normErrs(st, x.term(st, nv, t)))
		}
	case *Term:
		if len(path) == 1 {
			return SUpd(a, p.idx, normErrs(st, x.term(st, nv, t)))
		}
		el := SAt(a, p.idx)
		n := x.storePath(st, el, path[1:], nv, t)
		return SUpd(a, p.idx, normErrs(st, x.term(st, n, t)))
	}
	unsup("store to element of %T", v)
	return nil
}

func derefT(t types.Type) types.Type {
	if p, ok := t.Underlying().(*types.Pointer); ok {
		return p.Elem()
	}
	return nil
}

func (x *Exec) load(st *State, p SV, t types.Type, ps token.Pos) SV {
	switch a := p.(type) {
	case Ptr:
		r := st.mem[a.reg]
		return x.loadPath(st, r.val, a.path, t)
	case ValPtr:
		return x.fromTerm(t, Get(a.ctor, a.fi, a.t))
	case ElemPtr:
		return x.loadPath(st, SAt(a.seq, a.idx), a.path, t)
	case GlobPtr:
		if q, ok := st.globReg(a); ok {
			return x.loadPath(st, st.mem[q.reg].val, q.path, t)
		}
		if a.g.Pkg != nil && a.g.Pkg.Pkg.Path() == "os" && strings.HasPrefix(a.g.Name(), "Std") {
			return TVar("os."+a.g.Name(), sortOf(t))
		}
		if a.g.Pkg != nil && isErrorType(t) && !strings.Contains(strings.SplitN(a.g.Pkg.Pkg.Path(), "/", 2)[0], ".") && a.g.Object() != nil && a.g.Object().Exported() {
			return TVar(a.g.Pkg.Pkg.Path()+"."+a.g.Name(), SErr) // a sentinel of the library
		}
		return x.loadPath(st, x.e.globalValue(x, st, a.g), a.path, t)
	case PtrNil:
		x.emit(st, "nil", "nil-dereference", ps, TFalse, "safety")
		panic(deadPath{})
	case *Term:
		if c := ctorByElem(t); c != "" && a.Sort == SVal {
			// whole-object load of an immutable value object
			u := t.Underlying().(*types.Struct)
			return &StructV{typ: t, f: []SV{x.fromTerm(u.Field(0).Type(), Get(c, 0, a))}}
		}
		if a.Sort.Kind == "opaque" {
			if s := sortOf(t); s != nil {
				return x.fromTerm(t, App("deref_"+a.Sort.Name+"_"+s.Name, s, a))
			}
		}
	}
	unsup("load through %T of %s", p, t)
	return nil
}

func ctorByElem(t types.Type) string { return valCtorElem(t) }

type deadPath struct{}

func (x *Exec) store(st *State, p SV, v SV, t types.Type, ps token.Pos) {
	switch a := p.(type) {
	case Ptr:
		r := st.mem[a.reg]
		if x.joinLow > 0 && a.reg <= x.joinLow {
			panic(joinFail{"store"})
		}
		if r.frozen {
			x.emit(st, "frame", "shared-value-mutated", ps, TFalse, "frame")
		}
		for _, ec := range x.explore {
			if a.reg <= ec.low {
				ec.note(a)
			}
		}
		c := *r
		c.val = x.storePath(st, r.val, a.path, v, t)
		st.mem[a.reg] = &c
		return
	case ValPtr, ElemPtr:
		x.emit(st, "frame", "shared-value-mutated", ps, TFalse, "frame")
		panic(deadPath{})
	case PtrNil:
		x.emit(st, "nil", "nil-dereference", ps, TFalse, "safety")
		panic(deadPath{})
	case GlobPtr:
		if q, ok := st.globReg(a); ok {
			x.store(st, q, v, t, ps)
			return
		}
		unsup("store to global %s", a.g.Name())
	}
	unsup("store through %T", p)
}

// ---------- operands ----------

func (x *Exec) val(st *State, v ssa.Value) SV {
	switch c := v.(type) {
	case *ssa.Const:
		return x.constVal(c)
	case *ssa.Function:
		return ClosV{fn: c}
	case *ssa.Global:
		return GlobPtr{g: c}
	case *ssa.Builtin:
		return c
	}
	r, ok := st.top().env[v]
	if !ok {
		unsup("no value for %s (%T) in %s", v.Name(), v, st.top().fn)
	}
	return r
}

func (x *Exec) constVal(c *ssa.Const) SV {
	t := types.Unalias(c.Type())
	if c.Value == nil {
		return x.zero(t)
	}
	switch u := t.Underlying().(type) {
	case *types.Basic:
		switch {
		case u.Info()&types.IsBoolean != 0:
			return TBool(constant.BoolVal(c.Value))
		case u.Info()&types.IsInteger != 0:
			i, ok := constant.Val(constant.ToInt(c.Value)).(int64)
			if ok {
				return TInt(i)
			}
			b, ok := constant.Val(constant.ToInt(c.Value)).(*big.Int)
			if ok {
				return TBig(b)
			}
		case u.Info()&types.IsString != 0:
			return TLit(constant.StringVal(c.Value))
		case u.Info()&types.IsFloat != 0:
			f, _ := constant.Float64Val(c.Value)
			return fltConst(f)
		}
	}
	unsup("constant %s", c)
	return nil
}

func (x *Exec) tval(st *State, v ssa.Value) *Term { return x.term(st, x.val(st, v), v.Type()) }

// inRangeUnder asks whether lo <= t <= hi holds on this path.
func (x *Exec) inRange(st *State, t *Term, lo, hi *big.Int) bool {
	l, h := boundsOf(t)
	if l != nil && h != nil && l.Cmp(lo) >= 0 && h.Cmp(hi) <= 0 {
		return true
	}
	goal := And(Le(TBig(lo), t), Le(t, TBig(hi)))
	if st.decide(goal) == TTrue {
		return true
	}
	if t.isInt() {
		return false
	}
	if x.concrete != nil {
		return false
	}
	r, _ := x.e.solver.Check(x.e, st.pc, goal, 400, false)
	return r == Unsat
}

func (x *Exec) wrap(st *State, t *Term, typ types.Type) *Term {
	if st.spec {
		return t
	}
	lo, hi := intRange(typ)
	if x.inRange(st, t, lo, hi) {
		return t
	}
	size := new(big.Int).Add(new(big.Int).Sub(hi, lo), big1)
	if t.isInt() {
		d := new(big.Int).Sub(t.I, lo)
		d.Mod(d, size)
		return TBig(d.Add(d, lo))
	}
	// at most one wrap in either direction for sums of two in-range values
	tl, th := boundsOf(t)
	lim1 := new(big.Int).Sub(lo, size)
	lim2 := new(big.Int).Add(hi, size)
	if tl != nil && th != nil && tl.Cmp(lim1) >= 0 && th.Cmp(lim2) <= 0 {
		return Ite(Lt(t, TBig(lo)), Add(t, TBig(size)), Ite(Gt(t, TBig(hi)), Sub(t, TBig(size)), t))
	}
	return AppR("wrap_"+typ.Underlying().String(), SInt, lo, hi, t)
}

func sortedKeys(m map[string]bool) []string {
	var ks []string
	for k := range m {
		ks = append(ks, k)
	}
	sort.Strings(ks)
	return ks
}
