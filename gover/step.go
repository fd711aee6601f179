package main

import (
	"fmt"
	"go/token"
	"go/types"
	"math/big"
	"strings"

	"golang.org/x/tools/go/ssa"
)

type handler struct {
	base     int // frame count at which a return ends the run
	join     bool
	ret      func(st *State, res []SV) // path mode
	retJoin  func(st *State, res []SV) []SV
	backedge func(st *State, c *Cut)
	explore  *exploreCtx
}

// run executes until all paths end. In join mode it returns the merged
// results (nil when every path dies).
func (x *Exec) run(st *State, h *handler) (out []SV) {
	defer func() {
		if r := recover(); r != nil {
			if _, ok := r.(deadPath); ok {
				out = nil
				return
			}
			panic(r)
		}
	}()
	for {
		x.steps++
		if x.steps > x.maxSteps {
			unsup("exploration limit reached")
		}
		fr := st.top()
		if fr.idx >= len(fr.blk.Instrs) {
			unsup("fell off block")
		}
		in := fr.blk.Instrs[fr.idx]
		fr.idx++
		switch i := in.(type) {
		case *ssa.If:
			c := st.decide(x.tval(st, i.Cond))
			tb, fb := fr.blk.Succs[0], fr.blk.Succs[1]
			if c == TTrue {
				if !x.jump(st, tb, h) {
					return nil
				}
				continue
			}
			if c == TFalse {
				if !x.jump(st, fb, h) {
					return nil
				}
				continue
			}
			if x.concrete != nil {
				panic(concreteStop{"symbolic branch " + c.String()})
			}
			n := st.clone()
			n.assume(c)
			st.assume(Not(c))
			n.settle(c, 1)
			st.settle(c, 2)
			var rt, rf []SV
			if x.jumpSafe(n, tb, h) {
				rt = x.run(n, h)
			}
			if x.jumpSafe(st, fb, h) {
				rf = x.run(st, h)
			}
			if !h.join {
				return nil
			}
			return x.mergeRes(st, c, rt, rf)
		case *ssa.Jump:
			if !x.jump(st, fr.blk.Succs[0], h) {
				return nil
			}
		case *ssa.Return:
			var res []SV
			for _, r := range i.Results {
				res = append(res, x.val(st, r))
			}
			if len(st.fr) == h.base {
				if h.join {
					if h.retJoin != nil {
						return h.retJoin(st, res)
					}
					if res == nil {
						res = []SV{}
					}
					return res
				}
				if h.explore != nil {
					return nil
				}
				x.paths++
				h.ret(st, res)
				return nil
			}
			if h.explore != nil && len(st.fr)-1 == h.explore.depth {
				return nil
			}
			st.fr = st.fr[:len(st.fr)-1]
			if fr.ret != nil {
				res = fr.ret(st, res)
			}
			x.setResult(st, fr.call, res)
		case *ssa.Panic:
			x.emit(st, "panic", "explicit-panic", i.Pos(), TFalse, "safety")
			return nil
		case *ssa.Call:
			sts, conds := x.call(st, i)
			if len(sts) == 0 {
				return nil
			}
			if len(sts) == 1 {
				st = sts[0]
				continue
			}
			if x.concrete != nil {
				panic(concreteStop{"symbolic call split"})
			}
			if !h.join {
				for _, s := range sts {
					x.run(s, h)
				}
				return nil
			}
			var rs [][]SV
			for _, s := range sts {
				rs = append(rs, x.run(s, h))
			}
			res := rs[len(rs)-1]
			for k := len(rs) - 2; k >= 0; k-- {
				res = x.mergeRes(sts[k], conds[k], rs[k], res)
			}
			return res
		default:
			x.exec(st, in)
		}
	}
}

func (x *Exec) jumpSafe(st *State, to *ssa.BasicBlock, h *handler) (ok bool) {
	defer func() {
		if r := recover(); r != nil {
			if _, d := r.(deadPath); d {
				ok = false
				return
			}
			panic(r)
		}
	}()
	return x.jump(st, to, h)
}

func (x *Exec) mergeRes(st *State, c *Term, a, b []SV) []SV {
	if a == nil {
		return b
	}
	if b == nil {
		return a
	}
	out := make([]SV, len(a))
	for i := range a {
		out[i] = x.merge(st, c, a[i], b[i])
	}
	return out
}

func (x *Exec) merge(st *State, c *Term, a, b SV) SV {
	switch p := a.(type) {
	case *Term:
		if q, ok := b.(*Term); ok {
			if p == q {
				return p
			}
			if p.Sort != q.Sort {
				panic(joinFail{"sorts " + p.String() + " / " + q.String()})
			}
			return Ite(c, p, q)
		}
		if i, ok := b.(IfaceV); ok && (p.Sort == SVal || p.Sort == SErr) {
			if p.Sort == SVal && valCtor(i.typ) != "" {
				return Ite(c, p, x.term(st, i.v, i.typ))
			}
		}
		if q, ok := b.(Ptr); ok && p.Sort == SVal {
			return Ite(c, p, x.term(st, q, types.NewPointer(st.mem[q.reg].typ)))
		}
	case *StructV:
		if q, ok := b.(*StructV); ok && len(p.f) == len(q.f) {
			n := &StructV{typ: p.typ}
			for i := range p.f {
				n.f = append(n.f, x.merge(st, c, p.f[i], q.f[i]))
			}
			return n
		}
	case IfaceV:
		if q, ok := b.(IfaceV); ok {
			if types.Identical(p.typ, q.typ) {
				return IfaceV{p.typ, x.merge(st, c, p.v, q.v)}
			}
			if valCtor(p.typ) != "" && valCtor(q.typ) != "" {
				return Ite(c, x.term(st, p.v, p.typ), x.term(st, q.v, q.typ))
			}
		}
		if q, ok := b.(*Term); ok {
			return x.merge(st, Not(c), q, p)
		}
	case Ptr:
		if q, ok := b.(Ptr); ok && p.reg == q.reg && fmt.Sprint(p.path) == fmt.Sprint(q.path) {
			return p
		}
		if q, ok := b.(Ptr); ok && st.mem[p.reg] != nil && st.mem[q.reg] != nil && len(p.path) == 0 && len(q.path) == 0 && valCtorElem(st.mem[p.reg].typ) != "" {
			return Ite(c, x.term(st, p, types.NewPointer(st.mem[p.reg].typ)), x.term(st, q, types.NewPointer(st.mem[q.reg].typ)))
		}
		if q, ok := b.(*Term); ok && q.Sort == SVal {
			return x.merge(st, Not(c), q, p)
		}
	case GlobPtr:
		if q, ok := b.(GlobPtr); ok && p.g == q.g {
			return p
		}
	case ClosV:
		if q, ok := b.(ClosV); ok && p.fn == q.fn && len(p.binds) == 0 {
			return p
		}
	case PtrNil:
		if _, ok := b.(PtrNil); ok {
			return p
		}
	case TupV:
		if q, ok := b.(TupV); ok && len(p) == len(q) {
			var n TupV
			for i := range p {
				n = append(n, x.merge(st, c, p[i], q[i]))
			}
			return n
		}
	}
	panic(joinFail{fmt.Sprintf("merge %T %T", a, b)})
}

func (x *Exec) setResult(st *State, v ssa.Value, res []SV) {
	if v == nil {
		return
	}
	fr := st.top()
	if t, ok := v.Type().(*types.Tuple); ok {
		if t.Len() == 0 {
			return
		}
		fr.env[v] = TupV(res)
		return
	}
	if len(res) == 1 {
		fr.env[v] = res[0]
	}
}

// jump moves the top frame to block `to`; false when the path ends there.
func (x *Exec) jump(st *State, to *ssa.BasicBlock, h *handler) bool {
	fr := st.top()
	from := fr.blk
	li := x.e.loops(fr.fn)
	// leaving loops
	for hd, c := range fr.cuts {
		if !c.loop.blocks[to] {
			if h.explore != nil && h.explore.cut == c && len(st.fr)-1 == h.explore.depth {
				return false
			}
			delete(fr.cuts, hd)
		}
	}
	for hd := range fr.visits {
		if l := li[hd]; l != nil && !l.blocks[to] {
			delete(fr.visits, hd)
		}
	}
	if h.explore != nil && len(st.fr)-1 == h.explore.depth && !h.explore.cut.loop.blocks[to] {
		return false
	}
	if !st.spec && x.concrete == nil {
		st.trail = mixHash(st.trail, "", to.Index)
	}
	if l := li[to]; l != nil {
		if c := fr.cuts[to]; c != nil {
			// back edge of a cut loop
			x.phis(st, from, to)
			if h.explore != nil && h.explore.cut == c && len(st.fr)-1 == h.explore.depth {
				h.explore.onBack(st)
				return false
			}
			c.onBack(x, st)
			return false
		}
		x.phis(st, from, to)
		fr.prev, fr.blk = from, to
		fr.idx = nPhis(to)
		if x.concrete != nil {
			x.concrete.visit(x, st, to)
			fr.visits[to]++
			if fr.visits[to] > 400 {
				panic(concreteStop{"long loop"})
			}
			return true
		}
		if x.loopConcrete(st, to) && fr.visits[to] < 200 {
			fr.visits[to]++
			return true
		}
		if h.join {
			panic(joinFail{"loop"})
		}
		return x.cutLoop(st, l, h)
	}
	x.phis(st, from, to)
	fr.prev, fr.blk = from, to
	fr.idx = nPhis(to)
	return true
}

func nPhis(b *ssa.BasicBlock) int {
	n := 0
	for _, i := range b.Instrs {
		if _, ok := i.(*ssa.Phi); ok {
			n++
		} else {
			break
		}
	}
	return n
}

func (x *Exec) phis(st *State, from, to *ssa.BasicBlock) {
	fr := st.top()
	var k int
	for k = range to.Preds {
		if to.Preds[k] == from {
			break
		}
	}
	var vs []SV
	var ps []*ssa.Phi
	for _, i := range to.Instrs {
		p, ok := i.(*ssa.Phi)
		if !ok {
			break
		}
		ps = append(ps, p)
		vs = append(vs, x.val(st, p.Edges[k]))
	}
	for i, p := range ps {
		fr.env[p] = vs[i]
	}
}

// loopConcrete executes the header on a scratch clone to see whether the loop
// condition is decided.
func (x *Exec) loopConcrete(st *State, hd *ssa.BasicBlock) (ok bool) {
	defer func() {
		if r := recover(); r != nil {
			switch r.(type) {
			case deadPath, Unsupported, joinFail, concreteStop:
				ok = false
				return
			}
			panic(r)
		}
	}()
	n := st.clone()
	x.quiet++
	defer func() { x.quiet-- }()
	for {
		fr := n.top()
		in := fr.blk.Instrs[fr.idx]
		fr.idx++
		switch i := in.(type) {
		case *ssa.If:
			c := n.decide(x.tval(n, i.Cond))
			return c.isConst()
		case *ssa.Jump, *ssa.Return, *ssa.Panic:
			return false
		case *ssa.Call:
			if b, ok := i.Call.Value.(*ssa.Builtin); ok && b.Name() == "len" {
				sts, _ := x.call(n, i)
				n = sts[0]
				continue
			}
			return false
		default:
			x.exec(n, in)
		}
	}
}

func (x *Exec) boundsCheck(st *State, i, n *Term, ps token.Pos, what string) {
	x.emit(st, "bounds", what, ps, And(Le(TInt(0), i), Lt(i, n)), "safety")
}

func (x *Exec) exec(st *State, in ssa.Instruction) {
	fr := st.top()
	switch i := in.(type) {
	case *ssa.DebugRef:
	case *ssa.Phi:
		unsup("phi")
	case *ssa.Alloc:
		t := i.Type().Underlying().(*types.Pointer).Elem()
		r := x.newReg(st, t, x.zero(t))
		st.mem[r].cell = true
		fr.env[i] = Ptr{reg: r}
	case *ssa.BinOp:
		fr.env[i] = x.binop(st, i)
	case *ssa.UnOp:
		fr.env[i] = x.unop(st, i)
	case *ssa.ChangeType:
		v := x.val(st, i.X)
		if s, ok := v.(*StructV); ok {
			v = &StructV{typ: i.Type(), f: s.f}
		}
		fr.env[i] = v
	case *ssa.ChangeInterface:
		v := x.val(st, i.X)
		if t, ok := v.(*Term); ok {
			to := sortOf(i.Type())
			if t.Sort != to {
				switch {
				case to == SAny && t.Sort == SVal:
					v = Mk("AVal", t)
				case to == SAny:
					v = App("anyof_"+t.Sort.Name, SAny, t)
				default:
					v = App("conv_"+t.Sort.Name+"_"+to.Name, to, t)
				}
			}
		}
		fr.env[i] = v
	case *ssa.Convert:
		fr.env[i] = x.convert(st, i.X, i.Type())
	case *ssa.MultiConvert:
		fr.env[i] = x.convert(st, i.X, i.Type())
	case *ssa.Extract:
		t, ok := fr.env[i.Tuple].(TupV)
		if !ok {
			unsup("extract from %T", fr.env[i.Tuple])
		}
		fr.env[i] = t[i.Index]
	case *ssa.Field:
		v := x.val(st, i.X)
		fr.env[i] = x.loadPath(st, v, []PE{{field: i.Field}}, i.Type())
	case *ssa.FieldAddr:
		fr.env[i] = x.fieldAddr(st, i)
	case *ssa.Index:
		idx := x.tval(st, i.Index)
		switch v := x.val(st, i.X).(type) {
		case *ArrV:
			x.boundsCheck(st, idx, TInt(int64(len(v.e))), i.Pos(), "index in range")
			fr.env[i] = x.loadPath(st, v, []PE{{idx: idx}}, i.Type())
		case *Term:
			n := SLen(v)
			if a, ok := i.X.Type().Underlying().(*types.Array); ok {
				n = TInt(a.Len())
			}
			x.boundsCheck(st, idx, n, i.Pos(), "index in range")
			fr.env[i] = x.fromTerm(i.Type(), SAt(v, idx))
		default:
			unsup("index of %T", v)
		}
	case *ssa.IndexAddr:
		fr.env[i] = x.indexAddr(st, i)
	case *ssa.Lookup:
		fr.env[i] = x.lookup(st, i)
	case *ssa.MakeClosure:
		var bs []SV
		for _, b := range i.Bindings {
			bs = append(bs, x.val(st, b))
		}
		fr.env[i] = ClosV{fn: i.Fn.(*ssa.Function), binds: bs}
	case *ssa.MakeInterface:
		v := x.val(st, i.X)
		if t, ok := v.(*Term); ok && t.Sort == SVal && sortOf(i.Type()) == SVal {
			fr.env[i] = t
			return
		}
		fr.env[i] = IfaceV{typ: i.X.Type(), v: v}
	case *ssa.MakeMap:
		fr.env[i] = MapV{x.newReg(st, i.Type(), &MapVal{})}
	case *ssa.MakeSlice:
		n := x.tval(st, i.Len)
		c := x.tval(st, i.Cap)
		x.emit(st, "bounds", "make length in range", i.Pos(), And(Le(TInt(0), n), Le(n, c)), "safety")
		el := i.Type().Underlying().(*types.Slice).Elem()
		ss := seqOfElem(el)
		var v SV
		if n.isInt() && n.I.Cmp(big.NewInt(4096)) < 0 {
			a := &ArrV{typ: types.NewArray(el, n.I.Int64())}
			if n.I.Sign() >= 0 {
				z := x.zero(el)
				for k := int64(0); k < n.I.Int64(); k++ {
					a.e = append(a.e, z)
				}
			}
			v = a
		} else {
			if ss == nil {
				unsup("make of []%s", el)
			}
			t := App("zeros_"+ss.Name, ss, n)
			st.assume(Eq(SLen(t), n))
			v = t
		}
		fr.env[i] = SliceV{reg: x.newReg(st, i.Type(), v), lo: TInt(0), n: n, typ: i.Type()}
	case *ssa.MapUpdate:
		m := x.val(st, i.Map)
		mv, ok := m.(MapV)
		if !ok {
			unsup("update of a map that is not local")
		}
		k, v := x.val(st, i.Key), x.val(st, i.Value)
		r := *st.mem[mv.reg]
		if x.joinLow > 0 && mv.reg <= x.joinLow {
			panic(joinFail{"mapupdate"})
		}
		for _, ec := range x.explore {
			if mv.reg <= ec.low {
				unsup("map updated in a loop")
			}
		}
		o := r.val.(*MapVal)
		n := &MapVal{base: o.base, fuzzy: o.fuzzy}
		kt := x.peekTerm(st, k, i.Key.Type())
		found := false
		for _, en := range o.ents {
			switch st.decide(Eq(x.peekTerm(st, en.k, i.Key.Type()), kt)) {
			case TTrue:
				found = true
				en.v = v
			case TFalse:
			default:
				n.fuzzy = true
			}
			n.ents = append(n.ents, en)
		}
		if !found || n.fuzzy {
			n.ents = append(n.ents, MapEnt{k, v})
		}
		r.val = n
		st.mem[mv.reg] = &r
	case *ssa.Range:
		v := x.val(st, i.X)
		it := &IterVal{pos: TInt(0)}
		switch i.X.Type().Underlying().(type) {
		case *types.Basic:
			it.s = x.term(st, v, i.X.Type())
		default:
			it.m = v
		}
		fr.env[i] = IterV{x.newReg(st, nil, it)}
	case *ssa.Next:
		fr.env[i] = x.next(st, i)
	case *ssa.Slice:
		fr.env[i] = x.slice(st, i)
	case *ssa.Store:
		x.store(st, x.val(st, i.Addr), x.val(st, i.Val), i.Val.Type(), i.Pos())
	case *ssa.TypeAssert:
		fr.env[i] = x.typeAssert(st, i)
	case *ssa.RunDefers:
		fr.defers = nil
	case *ssa.Defer:
		// only effect-free deferred calls (unlocking) are accepted
		if c := i.Call.StaticCallee(); c != nil && (strings.Contains(c.String(), "sync.") || strings.HasSuffix(c.String(), ").Close")) {
			return
		}
		unsup("defer")
	default:
		unsup("instruction %T", in)
	}
}

func (x *Exec) fieldAddr(st *State, i *ssa.FieldAddr) SV {
	v := x.val(st, i.X)
	switch a := v.(type) {
	case Ptr:
		return Ptr{reg: a.reg, path: append(a.path[:len(a.path):len(a.path)], PE{field: i.Field})}
	case GlobPtr:
		return GlobPtr{g: a.g, path: append(a.path[:len(a.path):len(a.path)], PE{field: i.Field})}
	case ElemPtr:
		a.path = append(a.path[:len(a.path):len(a.path)], PE{field: i.Field})
		return a
	case PtrNil:
		x.emit(st, "nil", "nil-dereference", i.Pos(), TFalse, "safety")
		panic(deadPath{})
	case *Term:
		if a.Sort == SVal {
			c := valCtor(i.X.Type())
			if c != "" {
				x.emit(st, "nil", "value pointer is non-nil and of its type", i.Pos(), Is(c, a), "safety")
				return ValPtr{a, c, i.Field}
			}
		}
		if a.Sort.Kind == "opaque" {
			st0 := derefT(i.X.Type())
			if u, ok := st0.Underlying().(*types.Struct); ok {
				ft := u.Field(i.Field).Type()
				if s := sortOf(ft); s != nil {
					r := x.newReg(st, ft, x.fromTerm(ft, App(fmt.Sprintf("field_%s_%s", a.Sort.Name, u.Field(i.Field).Name()), s, a)))
					c := *st.mem[r]
					c.frozen = true
					st.mem[r] = &c
					return Ptr{reg: r}
				}
			}
		}
	}
	unsup("field address of %T", v)
	return nil
}

func (x *Exec) sliceBase(st *State, v SV) (seq *Term, n *Term) {
	switch a := v.(type) {
	case *Term:
		return a, SLen(a)
	}
	return nil, nil
}

func (x *Exec) indexAddr(st *State, i *ssa.IndexAddr) SV {
	idx := x.tval(st, i.Index)
	switch a := x.val(st, i.X).(type) {
	case *Term:
		x.boundsCheck(st, idx, SLen(a), i.Pos(), "index in range")
		return ElemPtr{seq: a, idx: idx}
	case SliceV:
		x.boundsCheck(st, idx, a.n, i.Pos(), "index in range")
		return Ptr{reg: a.reg, path: []PE{{idx: Add(a.lo, idx)}}}
	case Ptr:
		t := derefT(i.X.Type())
		arr := t.Underlying().(*types.Array)
		x.boundsCheck(st, idx, TInt(arr.Len()), i.Pos(), "index in range")
		return Ptr{reg: a.reg, path: append(a.path[:len(a.path):len(a.path)], PE{idx: idx})}
	case GlobPtr:
		t := derefT(i.X.Type())
		if arr, ok := t.Underlying().(*types.Array); ok {
			x.boundsCheck(st, idx, TInt(arr.Len()), i.Pos(), "index in range")
			return GlobPtr{g: a.g, path: append(a.path[:len(a.path):len(a.path)], PE{idx: idx})}
		}
	case *nilSlice:
		x.emit(st, "bounds", "index in range", i.Pos(), TFalse, "safety")
		panic(deadPath{})
	}
	unsup("index address of %T", x.val(st, i.X))
	return nil
}

func (x *Exec) slice(st *State, i *ssa.Slice) SV {
	v := x.val(st, i.X)
	var n *Term
	switch a := v.(type) {
	case *Term:
		n = SLen(a)
	case SliceV:
		n = a.n
	case Ptr:
		arr, ok := derefT(i.X.Type()).Underlying().(*types.Array)
		if !ok {
			unsup("slice of pointer")
		}
		n = TInt(arr.Len())
	case *nilSlice:
		n = TInt(0)
	default:
		unsup("slice of %T", v)
	}
	lo, hi := TInt(0), n
	if i.Low != nil {
		lo = x.tval(st, i.Low)
	}
	if i.High != nil {
		hi = x.tval(st, i.High)
	}
	full := false
	if i.Max != nil {
		mx := x.tval(st, i.Max)
		x.emit(st, "bounds", "slice bounds in range", i.Pos(), And(Le(hi, mx), Le(mx, n)), "safety")
		if st.decide(Eq(hi, mx)) != TTrue {
			unsup("three-index slice with spare capacity")
		}
		full = true
	}
	if i.Low != nil || i.High != nil {
		x.emit(st, "bounds", "slice bounds in range", i.Pos(), And(Le(TInt(0), lo), Le(lo, hi), Le(hi, n)), "safety")
	}
	switch a := v.(type) {
	case *Term:
		if full && !st.spec {
			t := SSub(a, lo, hi)
			r := x.newReg(st, i.Type(), t)
			c := *st.mem[r]
			c.frozen = true
			st.mem[r] = &c
			return SliceV{reg: r, lo: TInt(0), n: SLen(t), typ: i.Type(), full: true}
		}
		return SSub(a, lo, hi)
	case SliceV:
		return SliceV{reg: a.reg, lo: Add(a.lo, lo), n: Sub(hi, lo), typ: a.typ, full: full, null: a.null}
	case Ptr:
		if len(a.path) != 0 {
			unsup("slice of inner array")
		}
		return SliceV{reg: a.reg, lo: lo, n: Sub(hi, lo), typ: i.Type()}
	}
	return v
}

func (x *Exec) next(st *State, i *ssa.Next) SV {
	it := st.top().env[i.Iter].(IterV)
	r := *st.mem[it.reg]
	iv := r.val.(*IterVal)
	if !i.IsString {
		// map iteration: only concrete local maps
		mv, ok := iv.m.(MapV)
		if !ok {
			unsup("range over a map")
		}
		m := st.mem[mv.reg].val.(*MapVal)
		if m.base != nil || m.fuzzy {
			unsup("range over a symbolic map")
		}
		if iv.k >= len(m.ents) {
			return TupV{TFalse, nil, nil}
		}
		e := m.ents[iv.k]
		n := *iv
		n.k++
		r.val = &n
		st.mem[it.reg] = &r
		return TupV{TTrue, e.k, e.v}
	}
	ok := st.decide(Lt(iv.pos, SLen(iv.s)))
	rn, w := runeAt(iv.s, iv.pos)
	x.runeFacts(st, iv.s, iv.pos)
	n := *iv
	n.pos = Ite(ok, Add(iv.pos, w), iv.pos)
	if ok != TTrue && ok != TFalse {
		n.pos = Add(iv.pos, Ite(ok, w, TInt(0)))
	}
	r.val = &n
	for _, ec := range x.explore {
		if it.reg <= ec.low {
			ec.note(Ptr{reg: it.reg})
		}
	}
	st.mem[it.reg] = &r
	return TupV{ok, iv.pos, rn}
}

func runeAt(s, p *Term) (*Term, *Term) {
	return AppR("rune_at", SInt, big0, big.NewInt(0x10FFFF), s, p), AppR("rune_w", SInt, big1, big.NewInt(4), s, p)
}

// runeFacts: decoding of one UTF-8 sequence (trusted facts about the language).
func (x *Exec) runeFacts(st *State, s, p *Term) {
	if s.isConst() && p.isConst() {
		return
	}
	for _, f := range runeFactsOf(s, p) {
		st.assume(f)
	}
}

func runeFactsOf(s, p *Term) []*Term {
	rn, w := runeAt(s, p)
	c := SAt(s, p)
	in := And(Le(TInt(0), p), Lt(p, SLen(s)))
	return []*Term{
		Implies(in, Le(Add(p, w), SLen(s))),
		Implies(And(in, Lt(c, TInt(128))), And(Eq(rn, c), Eq(w, TInt(1)))),
		Implies(And(in, Ge(c, TInt(128))), Ge(rn, TInt(128))),
	}
}

func (x *Exec) unop(st *State, i *ssa.UnOp) SV {
	switch i.Op {
	case token.MUL:
		return x.load(st, x.val(st, i.X), i.Type(), i.Pos())
	case token.NOT:
		return Not(x.tval(st, i.X))
	case token.SUB:
		if b, ok := i.X.Type().Underlying().(*types.Basic); ok && b.Info()&types.IsFloat != 0 {
			return App("flt_neg", SFlt, x.tval(st, i.X))
		}
		return x.wrap(st, MulC(big.NewInt(-1), x.tval(st, i.X)), i.Type())
	case token.XOR:
		lo, hi := intRange(i.Type())
		return AppR("bitnot", SInt, lo, hi, x.tval(st, i.X))
	}
	unsup("unary %s", i.Op)
	return nil
}

func isNilConst(v ssa.Value) bool {
	c, ok := v.(*ssa.Const)
	return ok && c.Value == nil && c.Type() != nil && !isBasicT(c.Type())
}
func isBasicT(t types.Type) bool {
	_, ok := t.Underlying().(*types.Basic)
	return ok
}

func (x *Exec) isNil(st *State, v SV, t types.Type) *Term {
	switch a := v.(type) {
	case IfaceV:
		return TFalse
	case SliceV:
		if a.null != nil {
			return st.decide(a.null)
		}
		return TFalse
	case Ptr, GlobPtr, ClosV, MapV:
		return TFalse
	case PtrNil, *nilSlice:
		return TTrue
	case *Term:
		switch {
		case a.Sort == SVal:
			if c := valCtor(t); c != "" {
				return Not(Is(c, a))
			}
			return Is("VNil", a)
		case a.Sort == SErr:
			return Eq(a, ErrNil)
		case a.Sort == SFn:
			if strings.HasPrefix(a.S, "fn:") {
				return TFalse
			}
			return Eq(a, FnNil)
		case a.Sort == SAny:
			return Is("ANil", a)
		case a.Sort.Kind == "seq":
			if a.Op == "sempty" {
				return TTrue
			}
			p := App("isnil_"+a.Sort.Name, SBool, a)
			st.assume(Implies(p, Eq(SLen(a), TInt(0))))
			if a.Op == "app" && strings.HasPrefix(a.S, "(*regexp.Regexp).Find") {
				return Eq(SLen(a), TInt(0))
			}
			return p
		case a.Sort.Kind == "opaque":
			if strings.HasPrefix(a.S, "ref!") {
				return TFalse
			}
			return Eq(a, TVar("nil_"+a.Sort.Name, a.Sort))
		}
	}
	unsup("nil test of %T", v)
	return nil
}

func (x *Exec) binop(st *State, i *ssa.BinOp) SV {
	if i.Op == token.EQL || i.Op == token.NEQ {
		r := x.equal(st, i)
		if i.Op == token.NEQ {
			return Not(r)
		}
		return r
	}
	b, _ := i.X.Type().Underlying().(*types.Basic)
	if b == nil {
		unsup("binary %s on %s", i.Op, i.X.Type())
	}
	l, r := x.tval(st, i.X), x.tval(st, i.Y)
	switch {
	case b.Info()&types.IsString != 0:
		switch i.Op {
		case token.ADD:
			return SCat(l, r)
		case token.LSS:
			return App("str_lt", SBool, l, r)
		case token.GTR:
			return App("str_lt", SBool, r, l)
		case token.LEQ:
			return Not(App("str_lt", SBool, r, l))
		case token.GEQ:
			return Not(App("str_lt", SBool, l, r))
		}
	case b.Info()&types.IsFloat != 0:
		switch i.Op {
		case token.LSS:
			return App("flt_lt", SBool, l, r)
		case token.GTR:
			return App("flt_lt", SBool, r, l)
		case token.LEQ:
			return Or(App("flt_lt", SBool, l, r), App("flt_eq", SBool, l, r))
		case token.GEQ:
			return Or(App("flt_lt", SBool, r, l), App("flt_eq", SBool, l, r))
		case token.ADD, token.SUB, token.MUL, token.QUO:
			return App("flt_"+map[token.Token]string{token.ADD: "add", token.SUB: "sub", token.MUL: "mul", token.QUO: "div"}[i.Op], SFlt, l, r)
		}
	case b.Info()&types.IsInteger != 0:
		lo, hi := intRange(i.Type())
		switch i.Op {
		case token.ADD:
			return x.wrap(st, Add(l, r), i.Type())
		case token.SUB:
			return x.wrap(st, Sub(l, r), i.Type())
		case token.MUL:
			return x.wrap(st, Mul(l, r), i.Type())
		case token.LSS:
			return Lt(l, r)
		case token.LEQ:
			return Le(l, r)
		case token.GTR:
			return Gt(l, r)
		case token.GEQ:
			return Ge(l, r)
		case token.QUO, token.REM:
			x.emit(st, "div", "division by zero", i.Pos(), Not(Eq(r, TInt(0))), "safety")
			if l.isInt() && r.isInt() && r.I.Sign() != 0 {
				q, m := new(big.Int).QuoRem(l.I, r.I, new(big.Int))
				if i.Op == token.QUO {
					return x.wrap(st, TBig(q), i.Type())
				}
				return TBig(m)
			}
			if r.isInt() && r.I.Sign() > 0 {
				q := AppR("quo_"+r.I.String(), SInt, lo, hi, l)
				m := Sub(l, MulC(r.I, q))
				st.assume(Implies(Le(TInt(0), l), And(Le(TInt(0), m), Lt(m, r))))
				st.assume(Implies(Lt(l, TInt(0)), And(Le(m, TInt(0)), Lt(MulC(big.NewInt(-1), r), m))))
				if i.Op == token.QUO {
					return q
				}
				return m
			}
			return AppR("int"+i.Op.String()[:1]+"op", SInt, lo, hi, l, r)
		case token.SHL:
			if r.isInt() && r.I.IsInt64() && r.I.Int64() >= 0 && r.I.Int64() < 62 {
				return x.wrap(st, MulC(new(big.Int).Lsh(big1, uint(r.I.Int64())), l), i.Type())
			}
			return AppR("shl", SInt, lo, hi, l, r)
		}
		names := map[token.Token]string{token.AND: "band", token.OR: "bor", token.XOR: "bxor", token.SHR: "shr", token.AND_NOT: "bandnot"}
		if n := names[i.Op]; n != "" {
			if l.isInt() && r.isInt() {
				switch i.Op {
				case token.AND:
					return TBig(new(big.Int).And(l.I, r.I))
				case token.OR:
					return TBig(new(big.Int).Or(l.I, r.I))
				}
			}
			if i.Op == token.OR && (b.Kind() == types.Uint8) && r.isInt() && r.I.Int64() == 0x20 {
				// byte | 0x20 : sets bit 5
				bit := Or(And(Ge(l, TInt(32)), Lt(l, TInt(64))), And(Ge(l, TInt(96)), Lt(l, TInt(128))), And(Ge(l, TInt(160)), Lt(l, TInt(192))), Ge(l, TInt(224)))
				return Ite(bit, l, AddI(l, 32))
			}
			return AppR(n, SInt, lo, hi, l, r)
		}
	case b.Info()&types.IsBoolean != 0:
		switch i.Op {
		case token.AND:
			return And(l, r)
		case token.OR:
			return Or(l, r)
		}
	}
	unsup("binary %s on %s", i.Op, i.X.Type())
	return nil
}

func (x *Exec) equal(st *State, i *ssa.BinOp) *Term {
	if isNilConst(i.Y) {
		return x.isNil(st, x.val(st, i.X), i.X.Type())
	}
	if isNilConst(i.X) {
		return x.isNil(st, x.val(st, i.Y), i.Y.Type())
	}
	a, b := x.val(st, i.X), x.val(st, i.Y)
	switch p := a.(type) {
	case Ptr:
		if q, ok := b.(Ptr); ok {
			return TBool(p.reg == q.reg && fmt.Sprint(p.path) == fmt.Sprint(q.path))
		}
	case *StructV:
		if q, ok := b.(*StructV); ok {
			var cs []*Term
			for k := range p.f {
				l, ok1 := p.f[k].(*Term)
				r, ok2 := q.f[k].(*Term)
				if !ok1 || !ok2 {
					unsup("struct comparison")
				}
				cs = append(cs, Eq(l, r))
			}
			return And(cs...)
		}
	}
	l, r := x.term(st, a, i.X.Type()), x.term(st, b, i.Y.Type())
	if l.Sort == SFlt {
		if l == r && l.isConst() {
			return foldApp("flt_eq", SBool, []*Term{l, r})
		}
		if l.id > r.id {
			l, r = r, l
		}
		return App("flt_eq", SBool, l, r)
	}
	if l.Sort == SVal {
		// identity of value objects: implies structural equality
		id := App("val_identical", SBool, l, r)
		st.assume(Implies(id, Eq(l, r)))
		st.assume(Implies(And(Is("VNil", l), Is("VNil", r)), id))
		return id
	}
	if l.Sort == SAny {
		id := App("any_equal", SBool, l, r)
		return id
	}
	if l.Sort != r.Sort {
		unsup("comparison of %s and %s", l.Sort, r.Sort)
	}
	return Eq(l, r)
}

func (x *Exec) convert(st *State, xv ssa.Value, to types.Type) SV {
	from := xv.Type()
	v := x.val(st, xv)
	fb, _ := from.Underlying().(*types.Basic)
	tb, _ := to.Underlying().(*types.Basic)
	switch {
	case fb != nil && tb != nil && fb.Info()&types.IsInteger != 0 && tb.Info()&types.IsInteger != 0:
		return x.wrap(st, v.(*Term), to)
	case fb != nil && tb != nil && fb.Info()&types.IsInteger != 0 && tb.Info()&types.IsFloat != 0:
		return App("i2f", SFlt, v.(*Term))
	case fb != nil && tb != nil && fb.Info()&types.IsFloat != 0 && tb.Info()&types.IsInteger != 0:
		t := App("f2i", SInt, v.(*Term))
		return x.wrap(st, t, to)
	case fb != nil && tb != nil && fb.Info()&types.IsFloat != 0 && tb.Info()&types.IsFloat != 0:
		return v
	case fb != nil && tb != nil && fb.Info()&types.IsString != 0 && tb.Info()&types.IsString != 0:
		return v
	case fb != nil && tb != nil && fb.Info()&types.IsInteger != 0 && tb.Info()&types.IsString != 0:
		return x.runeStr(st, v.(*Term))
	}
	fs, ts := sortOf(from), sortOf(to)
	if fs == SStr && ts == SStr {
		t := x.term(st, v, from)
		if _, ok := to.Underlying().(*types.Slice); ok {
			return SliceV{reg: x.newReg(st, to, t), lo: TInt(0), n: SLen(t), typ: to}
		}
		return t
	}
	if fs == SStr && ts == SInts || fs == SInts && ts == SStr {
		return App("runes_"+ts.Name, ts, x.term(st, v, from))
	}
	if types.Identical(from.Underlying(), to.Underlying()) {
		return v
	}
	unsup("conversion %s to %s", from, to)
	return nil
}

func (x *Exec) runeStr(st *State, r *Term) *Term {
	t := App("rune_str", SStr, r)
	if !t.isConst() && !st.spec {
		for _, f := range runeStrFacts(t) {
			st.assume(f)
		}
	}
	return t
}

// runeStrFacts: the UTF-8 encoding of a code point (trusted facts about the
// language).
func runeStrFacts(t *Term) []*Term {
	r := t.Args[0]
	asc := And(Le(TInt(0), r), Lt(r, TInt(128)))
	return []*Term{
		Implies(asc, Eq(t, SUnit(SStr, r))),
		Implies(Not(asc), And(Ge(SLen(t), TInt(2)), Le(SLen(t), TInt(4)))),
	}
}

var anyCtorByType = map[string]string{"string": "AStr", "float64": "AFlt", "bool": "ABool", "[]interface{}": "ASeq", "[]any": "ASeq", "map[string]interface{}": "AMap", "map[string]any": "AMap"}

func (x *Exec) typeAssert(st *State, i *ssa.TypeAssert) SV {
	v := x.val(st, i.X)
	var ok *Term
	var res SV
	asIface := types.IsInterface(i.AssertedType)
	switch a := v.(type) {
	case IfaceV:
		if asIface {
			ok = TBool(types.AssignableTo(a.typ, i.AssertedType) || types.Implements(a.typ, i.AssertedType.Underlying().(*types.Interface)))
			res = v
		} else {
			ok = TBool(types.Identical(a.typ, i.AssertedType))
			res = a.v
		}
	case *Term:
		switch a.Sort {
		case SVal:
			if asIface {
				ok = Not(Is("VNil", a))
				if !types.IsInterface(i.X.Type()) || typeName(i.AssertedType) != edl+".Value" {
					// all four value kinds implement Stringer-like interfaces through pointer methods
					for _, n := range []string{"String", "Number", "Symbol", "List"} {
						pt := types.NewPointer(x.e.edlType(n))
						if !types.Implements(pt, i.AssertedType.Underlying().(*types.Interface)) {
							unsup("assertion to %s", i.AssertedType)
						}
					}
				}
				res = a
			} else if c := valCtor(i.AssertedType); c != "" {
				ok, res = Is(c, a), a
			} else {
				ok, res = TFalse, nil
			}
		case SAny:
			if c := anyCtorByType[i.AssertedType.String()]; c != "" {
				ok = Is(c, a)
				if c == "AMap" {
					unsup("map value of interface")
				}
				res = Get(c, 0, a)
			} else if valCtor(i.AssertedType) != "" {
				ok = And(Is("AVal", a), Is(valCtor(i.AssertedType), Get("AVal", 0, a)))
				res = Get("AVal", 0, a)
			} else if typeName(i.AssertedType) == edl+".Value" {
				ok, res = Is("AVal", a), Get("AVal", 0, a)
			}
		}
	}
	if ok == nil {
		unsup("type assertion of %s to %s", i.X.Type(), i.AssertedType)
	}
	if i.CommaOk {
		d := st.decide(ok)
		if d == TFalse {
			res = x.zero(i.AssertedType)
		}
		if d != TTrue && d != TFalse {
			if rt, isT := res.(*Term); isT && rt.Sort != SVal {
				res = x.merge(st, d, res, x.zero(i.AssertedType))
			}
		}
		return TupV{res, d}
	}
	x.emit(st, "assert", "type assertion holds", i.Pos(), ok, "safety")
	if res == nil {
		panic(deadPath{})
	}
	return res
}

func (x *Exec) lookup(st *State, i *ssa.Lookup) SV {
	v := x.val(st, i.X)
	if sortOf(i.X.Type()) == SStr {
		s := v.(*Term)
		idx := x.tval(st, i.Index)
		x.boundsCheck(st, idx, SLen(s), i.Pos(), "index in range")
		return SAt(s, idx)
	}
	mt := i.X.Type().Underlying().(*types.Map)
	k := x.val(st, i.Index)
	var val SV
	var has *Term
	switch m := v.(type) {
	case *Term:
		if strings.HasPrefix(m.S, "nil_") {
			val, has = x.zero(mt.Elem()), TFalse
			break
		}
		kt := x.term(st, k, mt.Key())
		has = App("mhas_"+m.Sort.Name, SBool, m, kt)
		val = x.fromTerm(mt.Elem(), App("mget_"+m.Sort.Name, m.Sort.Elem, m, kt))
		if !i.CommaOk {
			z := x.zero(mt.Elem())
			val = x.merge(st, has, val, z)
		}
	case MapV:
		mv := st.mem[m.reg].val.(*MapVal)
		kt := x.term(st, k, mt.Key())
		val, has = x.zero(mt.Elem()), TFalse
		if mv.base != nil {
			has = App("mhas_"+mv.base.Sort.Name, SBool, mv.base, kt)
			val = App("mget_"+mv.base.Sort.Name, mv.base.Sort.Elem, mv.base, kt)
		}
		for _, en := range mv.ents {
			c := st.decide(Eq(x.term(st, en.k, mt.Key()), kt))
			if c == TTrue {
				val, has = en.v, TTrue
			} else if c != TFalse {
				val = x.merge(st, c, en.v, val)
				has = Or(c, has)
			}
		}
	case *nilSlice:
		val, has = x.zero(mt.Elem()), TFalse
	default:
		unsup("lookup in %T", v)
	}
	if i.CommaOk {
		return TupV{val, has}
	}
	return val
}

// settle replaces values chosen by a type test whose outcome is now known.
func (st *State) settle(c *Term, k int) {
	if c.Op == "not" {
		c, k = c.Args[0], 3-k
	}
	if c.Op != "is" {
		return
	}
	fr := st.top()
	for v, s := range fr.env {
		switch s := s.(type) {
		case *Term:
			if s.Op == "ite" && s.Args[0] == c {
				fr.env[v] = s.Args[k]
			}
		case TupV:
			for i, e := range s {
				if t, ok := e.(*Term); ok && t.Op == "ite" && t.Args[0] == c {
					n := append(TupV{}, s...)
					n[i] = t.Args[k]
					fr.env[v], s = n, n
				}
			}
		}
	}
}
