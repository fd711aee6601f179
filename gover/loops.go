package main

// Loops are cut at their headers. The invariant is not written by hand: it is
// the largest inductive subset (Houdini) of a set of candidate formulas over
// the program variables of the loop; every kept candidate is proved to hold on
// entry and to be preserved by every path through the body.

import (
	"fmt"
	"go/constant"
	"go/types"
	"hash/fnv"
	"math/big"
	"math/rand"
	"os"
	"sort"
	"strings"
	"sync"
	"sync/atomic"

	"golang.org/x/tools/go/ssa"
)

type loopInfo struct {
	header *ssa.BasicBlock
	blocks map[*ssa.BasicBlock]bool
}

func (e *Engine) loops(fn *ssa.Function) map[*ssa.BasicBlock]*loopInfo {
	e.loopMu.Lock()
	defer e.loopMu.Unlock()
	if m, ok := e.loopC[fn]; ok {
		return m
	}
	m := map[*ssa.BasicBlock]*loopInfo{}
	for _, b := range fn.Blocks {
		for _, h := range b.Succs {
			if !h.Dominates(b) {
				continue
			}
			l := m[h]
			if l == nil {
				l = &loopInfo{header: h, blocks: map[*ssa.BasicBlock]bool{h: true}}
				m[h] = l
			}
			work := []*ssa.BasicBlock{b}
			for len(work) > 0 {
				c := work[len(work)-1]
				work = work[:len(work)-1]
				if l.blocks[c] {
					continue
				}
				l.blocks[c] = true
				work = append(work, c.Preds...)
			}
		}
	}
	e.loopC[fn] = m
	return m
}

type Cut struct {
	loop   *loopInfo
	onBack func(x *Exec, st *State)
}

type exploreCtx struct {
	cut    *Cut
	depth  int
	low    int
	onBack func(st *State)
	note   func(p Ptr)
}

type concreteStop struct{ why string }
type concreteRun struct {
	visit func(x *Exec, st *State, blk *ssa.BasicBlock)
}

// ---------- slots ----------

// slotRef names a program variable of the loop independently of the run.
type slotRef struct {
	world bool     // the outside world, or
	phi   *ssa.Phi // value of a header phi in the top frame, or
	frame int      // a region reached from an SSA value of a frame
	via   ssa.Value
	path  []int // fields / bindings followed
	leaf  []int // leaf inside the value
	name  string
	sort  *Sort
	typ   types.Type
}

func regOf(v SV) (int, bool) {
	switch a := v.(type) {
	case Ptr:
		return a.reg, true
	case SliceV:
		return a.reg, true
	case IterV:
		return a.reg, true
	case MapV:
		return a.reg, true
	}
	return 0, false
}

func children(v SV) []SV {
	switch a := v.(type) {
	case *StructV:
		return a.f
	case *ArrV:
		return a.e
	case TupV:
		return a
	case ClosV:
		return a.binds
	case IfaceV:
		return []SV{a.v}
	}
	return nil
}

// locate finds a name for region r in st.
func locate(st *State, r int) (frame int, via ssa.Value, path []int, ok bool) {
	for fi := len(st.fr) - 1; fi >= 0; fi-- {
		f := st.fr[fi]
		var keys []ssa.Value
		for v := range f.env {
			keys = append(keys, v)
		}
		sort.Slice(keys, func(i, j int) bool {
			if keys[i].Name() != keys[j].Name() {
				return keys[i].Name() < keys[j].Name()
			}
			return keys[i].Pos() < keys[j].Pos()
		})
		for _, k := range keys {
			seen := map[int]bool{}
			var rec func(v SV, p []int) bool
			rec = func(v SV, p []int) bool {
				if len(p) > 8 {
					return false
				}
				if q, isR := regOf(v); isR {
					if q == r {
						path = append([]int{}, p...)
						return true
					}
					if seen[q] || st.mem[q] == nil {
						return false
					}
					seen[q] = true
					return rec(st.mem[q].val, append(p, -1))
				}
				for i, c := range children(v) {
					if rec(c, append(p[:len(p):len(p)], i)) {
						return true
					}
				}
				return false
			}
			if rec(f.env[k], nil) {
				return fi, k, path, true
			}
		}
	}
	return 0, nil, nil, false
}

func follow(st *State, frame int, via ssa.Value, path []int) (SV, bool) {
	if frame >= len(st.fr) {
		return nil, false
	}
	v, ok := st.fr[frame].env[via]
	if !ok {
		return nil, false
	}
	deref := func(v SV) (SV, bool) {
		q, isR := regOf(v)
		if !isR || st.mem[q] == nil {
			return nil, false
		}
		return st.mem[q].val, true
	}
	for _, p := range path {
		if p == -1 {
			if v, ok = deref(v); !ok {
				return nil, false
			}
			continue
		}
		cs := children(v)
		if p >= len(cs) {
			return nil, false
		}
		v = cs[p]
	}
	return deref(v)
}

// slotTerm converts a leaf value to a term without side effects.
func (x *Exec) slotTerm(st *State, v SV, t types.Type) (r *Term) {
	defer func() {
		if e := recover(); e != nil {
			if _, ok := e.(Unsupported); ok {
				r = nil
				return
			}
			panic(e)
		}
	}()
	switch a := v.(type) {
	case *Term:
		return a
	case *IterVal:
		if a.s == nil {
			return nil
		}
		return a.pos
	case Ptr, PtrNil, GlobPtr, ClosV, MapV, IterV, *MapVal:
		if t == nil || valCtor(t) == "" {
			return nil
		}
		_ = a
	case *nilSlice:
		if s := sortOf(a.t); s != nil {
			return TEmpty(s)
		}
		return nil
	}
	if t == nil {
		return nil
	}
	return x.peekTerm(st, v, t)
}

func (x *Exec) readSlot(st *State, s *slotRef) *Term {
	var v SV
	if s.world {
		v = st.mem[worldReg].val
	} else if s.phi != nil {
		v = st.top().env[s.phi]
	} else {
		var ok bool
		v, ok = follow(st, s.frame, s.via, s.path)
		if !ok {
			return nil
		}
	}
	for _, p := range s.leaf {
		cs := children(v)
		if p >= len(cs) {
			return nil
		}
		v = cs[p]
	}
	if v == nil {
		return nil
	}
	r := x.slotTerm(st, v, s.typ)
	if r != nil && s.sort != nil && r.Sort != s.sort {
		return nil
	}
	return r
}

// leafRefs enumerates the leaves of a value.
func leafRefs(v SV, t types.Type, path []int, out *[][]int, ts *[]types.Type) {
	switch a := v.(type) {
	case *StructV:
		u := a.typ.Underlying().(*types.Struct)
		for i, f := range a.f {
			leafRefs(f, u.Field(i).Type(), append(path[:len(path):len(path)], i), out, ts)
		}
		return
	case *ArrV:
		for i, f := range a.e {
			var et types.Type
			switch u := a.typ.Underlying().(type) {
			case *types.Array:
				et = u.Elem()
			case *types.Slice:
				et = u.Elem()
			}
			leafRefs(f, et, append(path[:len(path):len(path)], i), out, ts)
		}
		return
	}
	*out = append(*out, path)
	*ts = append(*ts, t)
}

// ---------- cutting ----------

type loopRun struct {
	key     uint64
	snaps   []snapshot
	fixT    []*Term
	objs    []*Term
	x       *Exec
	l       *loopInfo
	h       *handler
	init    *State
	depth   int
	low     int
	written map[int]bool
	shared  map[any]bool // slices that may have another owner
	slots   []*slotRef
	cur     []*Term // symbols
	ini     []*Term
	free    []*Term // symbols
	freeV   []ssa.Value
	entSym  []*Term // entry symbols (the entry terms themselves)
	initT   []*Term
	freeT   []*Term
}

func headerPhis(b *ssa.BasicBlock) []*ssa.Phi {
	var ps []*ssa.Phi
	for _, i := range b.Instrs {
		p, ok := i.(*ssa.Phi)
		if !ok {
			break
		}
		ps = append(ps, p)
	}
	return ps
}

func (x *Exec) havocSV(st *State, v SV, t types.Type, name string) SV {
	switch a := v.(type) {
	case *Term:
		if a.Sort == SInt {
			lo, hi := minI64, maxI64
			if t != nil {
				lo, hi = intRange(t)
			}
			return TVarR(x.freshName(name), lo, hi)
		}
		return TVar(x.freshName(name), a.Sort)
	case SliceV, *nilSlice:
		var ty types.Type
		if s, ok := a.(SliceV); ok {
			ty = s.typ
		} else {
			ty = a.(*nilSlice).t
		}
		s := sortOf(ty)
		if s == nil {
			unsup("loop variable of type %s", ty)
		}
		tv := TVar(x.freshName(name), s)
		null := TVar(x.freshName(name+".nil"), SBool)
		st.assume(Implies(null, Eq(SLen(tv), TInt(0))))
		return SliceV{reg: x.newReg(st, ty, tv), lo: TInt(0), n: SLen(tv), typ: ty, null: null}
	case IfaceV:
		if s := sortOf(t); s == SVal || s == SErr || s == SAny {
			return TVar(x.freshName(name), s)
		}
		return a
	case Ptr:
		if t != nil && valCtor(t) != "" {
			nv := TVar(x.freshName(name), SVal)
			return nv
		}
		return a
	case PtrNil:
		if valCtor(a.t) != "" {
			return TVar(x.freshName(name), SVal)
		}
		return a
	case *StructV:
		u := a.typ.Underlying().(*types.Struct)
		n := &StructV{typ: a.typ}
		for i, f := range a.f {
			n.f = append(n.f, x.havocSV(st, f, u.Field(i).Type(), name+"."+u.Field(i).Name()))
		}
		return n
	case *ArrV:
		var et types.Type
		switch u := a.typ.Underlying().(type) {
		case *types.Array:
			et = u.Elem()
		case *types.Slice:
			et = u.Elem()
		}
		if len(a.e) > 64 {
			s := seqOfElem(et)
			if s == nil {
				unsup("loop over a large array")
			}
			return TVar(x.freshName(name), s)
		}
		n := &ArrV{typ: a.typ}
		for _, f := range a.e {
			n.e = append(n.e, x.havocSV(st, f, et, name))
		}
		return n
	case *IterVal:
		if a.s == nil {
			unsup("symbolic map iteration")
		}
		n := *a
		n.pos = TVarR(x.freshName(name+".pos"), big0, maxLen)
		return &n
	case *MapVal:
		unsup("map updated in a loop")
	case TupV:
		return a
	}
	return v
}

func (lr *loopRun) havoc(st *State) {
	x := lr.x
	fr := st.top()
	for _, p := range headerPhis(lr.l.header) {
		n := p.Comment
		if n == "" {
			n = p.Name()
		}
		v := fr.env[p]
		if ss := sortOf(p.Type()); ss != nil && ss.Kind == "seq" && isSliceType(p.Type()) {
			tv := TVar(x.freshName(n), ss)
			t, isT := v.(*Term)
			_, isS := v.(SliceV)
			if lr.shared[p] || isT && t.Op != "sempty" || st.spec && !isS {
				fr.env[p] = tv
			} else {
				if s, ok := v.(SliceV); ok && !s.full && st.mem[s.reg] != nil {
					// the loop may append to it
					c := *st.mem[s.reg]
					c.moved = true
					st.mem[s.reg] = &c
				}
				r := x.newReg(st, p.Type(), tv)
				c := *st.mem[r]
				c.carried = true
				st.mem[r] = &c
				sl := SliceV{reg: r, lo: TInt(0), n: SLen(tv), typ: p.Type()}
				if s, ok := v.(SliceV); !ok || s.null != nil || !neverNil(p, p, 0) {
					sl.null = TVar(x.freshName(n+".nil"), SBool)
					st.assume(Implies(sl.null, Eq(SLen(tv), TInt(0))))
				}
				fr.env[p] = sl
			}
			continue
		}
		fr.env[p] = x.havocSV(st, v, p.Type(), n)
	}
	for _, r := range sortedInts(lr.written) {
		rg := *st.mem[r]
		if rg.frozen {
			unsup("shared region written in a loop")
		}
		if rg.cell {
			rg.val = ownEmpty(rg.val, rg.typ)
			cellSlices(rg.val, false, "", func(_ string, v SV) SV {
				if s, ok := v.(SliceV); ok && !s.full && st.mem[s.reg] != nil {
					// the loop may append to it
					c := *st.mem[s.reg]
					c.moved = true
					st.mem[s.reg] = &c
				}
				return v
			})
		}
		rg.val = x.havocSV(st, rg.val, rg.typ, "m")
		if r != worldReg {
			rg.val = cellSlices(rg.val, rg.cell && rg.typ != nil && isSliceType(rg.typ), fmt.Sprint("cell ", r), func(key string, v SV) SV {
				if sl, ok := v.(SliceV); ok && lr.shared[key] {
					return st.mem[sl.reg].val
				}
				return v
			})
		}
		st.mem[r] = &rg
		for _, ec := range x.explore {
			if r <= ec.low {
				ec.note(Ptr{reg: r})
			}
		}
	}
}

// neverNil: the slice is not nil, provided p is not.
func neverNil(v ssa.Value, p *ssa.Phi, d int) bool {
	if d > 8 {
		return false
	}
	switch v := v.(type) {
	case *ssa.MakeSlice:
		return true
	case *ssa.Phi:
		if v == p && d > 0 {
			return true
		}
		for k, e := range v.Edges {
			if v == p && !v.Block().Dominates(v.Block().Preds[k]) {
				continue // from outside the loop
			}
			if !neverNil(e, p, d+1) {
				return false
			}
		}
		return true
	case *ssa.Slice:
		if _, ok := v.X.Type().Underlying().(*types.Pointer); ok {
			return true
		}
		return neverNil(v.X, p, d+1)
	case *ssa.Call:
		if b, ok := v.Call.Value.(*ssa.Builtin); ok && b.Name() == "append" {
			return neverNil(v.Call.Args[0], p, d+1)
		}
	}
	return false
}

func sortedInts(m map[int]bool) []int {
	var ks []int
	for k := range m {
		ks = append(ks, k)
	}
	sort.Ints(ks)
	return ks
}

func (x *Exec) safeRun(st *State, h *handler) {
	x.run(st, h)
}

// explore runs the loop body once from the (already prepared) header state.
func (lr *loopRun) explore(st *State, onBack func(s *State), note func(p Ptr)) {
	x := lr.x
	cut := &Cut{loop: lr.l}
	st.top().cuts[lr.l.header] = cut
	cut.onBack = func(x *Exec, s *State) { onBack(s) }
	ec := &exploreCtx{cut: cut, depth: lr.depth, low: lr.low, onBack: onBack, note: note}
	x.explore = append(x.explore, ec)
	x.quiet++
	defer func() { x.explore = x.explore[:len(x.explore)-1]; x.quiet-- }()
	x.run(st, &handler{base: lr.h.base, explore: ec})
}

func (x *Exec) cutLoop(st *State, l *loopInfo, h *handler) bool {
	fr := st.top()
	fr.blk = l.header
	fr.idx = nPhis(l.header)
	st.trail = mixHash(st.trail, "cut", l.header.Index)
	lr := &loopRun{key: st.trail, x: x, l: l, h: h, init: st.clone(), depth: len(st.fr) - 1, low: int(atomic.LoadInt64(&regCounter)), written: map[int]bool{}, shared: map[any]bool{}}
	// which regions does the body write?
	x.discover++
	for it := 0; ; it++ {
		changed := false
		n := st.clone()
		lr.havoc(n)
		lr.explore(n, func(s *State) {
			for p := range lr.sharedSlices(s) {
				if !lr.shared[p] {
					lr.shared[p] = true
					changed = true
				}
			}
		}, func(p Ptr) {
			if !lr.written[p.reg] {
				lr.written[p.reg] = true
				changed = true
			}
		})
		if !changed {
			break
		}
		if it > 8 {
			unsup("loop write set")
		}
	}
	x.discover--
	var kept []*cand
	hv := st.clone()
	lr.havoc(hv)
	if x.discover == 0 {
		lr.makeSlots(hv)
		kept = lr.houdini(hv)
		lr.assumeInv(hv, kept)
	}
	// continue in the havoced state
	*st = *hv
	st.x = x
	cut := &Cut{loop: l}
	where := fmt.Sprintf("loop %s", shortFn(fr.fn))
	if x.discover == 0 && x.quiet == 0 {
		backs := lr.collectBacks(hv)
		lr.termination(hv, backs, where)
		lr.checkFixed(backs)
	}
	cut.onBack = func(x *Exec, s *State) {}
	st.top().cuts[l.header] = cut
	return true
}

func isSliceType(t types.Type) bool {
	_, ok := t.Underlying().(*types.Slice)
	return ok
}

// sharedSlices: the loop-carried slices that are not the only owner of a whole
// backing array at the end of an iteration.
func (lr *loopRun) sharedSlices(b *State) map[any]bool {
	out := map[any]bool{}
	if b.x == nil {
		b.x = lr.x
	}
	owner := map[int]any{}
	check := func(key any, v SV) {
		switch v := v.(type) {
		case *Term:
			if v.Op != "sempty" {
				out[key] = true
			}
		case SliceV:
			r := b.mem[v.reg]
			if r == nil {
				out[key] = true
				return
			}
			if r.frozen || r.moved || !v.lo.isInt() || v.lo.I.Sign() != 0 {
				out[key] = true
				return
			}
			if seq, ok := r.val.(*Term); ok && v.n != SLen(seq) && b.decide(Eq(v.n, SLen(seq))) != TTrue {
				out[key] = true
			}
			if o := owner[v.reg]; o != nil {
				out[key], out[o] = true, true
			}
			owner[v.reg] = key
		}
	}
	for _, p := range headerPhis(lr.l.header) {
		if !isSliceType(p.Type()) || sortOf(p.Type()) == nil {
			continue
		}
		check(p, b.top().env[p])
	}
	for _, r := range sortedInts(lr.written) {
		if r == worldReg || b.mem[r] == nil {
			continue
		}
		cellSlices(b.mem[r].val, b.mem[r].cell && b.mem[r].typ != nil && isSliceType(b.mem[r].typ), fmt.Sprint("cell ", r), func(key string, v SV) SV {
			check(key, v)
			return v
		})
	}
	return out
}

// cellSlices maps the slices kept in a memory cell.
func cellSlices(v SV, whole bool, key string, f func(string, SV) SV) SV {
	switch a := v.(type) {
	case *Term:
		if whole {
			return f(key, a)
		}
	case SliceV:
		return f(key, a)
	case *StructV:
		n := &StructV{typ: a.typ}
		u := a.typ.Underlying().(*types.Struct)
		for i, e := range a.f {
			n.f = append(n.f, cellSlices(e, isSliceType(u.Field(i).Type()), fmt.Sprint(key, ".", i), f))
		}
		return n
	}
	return v
}

// ownEmpty: a variable that holds an empty slice is its only owner.
func ownEmpty(v SV, t types.Type) SV {
	switch a := v.(type) {
	case *Term:
		if t != nil && isSliceType(t) && a.Op == "sempty" {
			return &nilSlice{t}
		}
	case *StructV:
		n := &StructV{typ: a.typ}
		u := a.typ.Underlying().(*types.Struct)
		for i, e := range a.f {
			n.f = append(n.f, ownEmpty(e, u.Field(i).Type()))
		}
		return n
	}
	return v
}

func shortFn(fn *ssa.Function) string { return fn.Name() }

// checkFixed: loop variables that are not havoced must not change.
func (lr *loopRun) checkFixed(backs []*State) {
	for _, p := range headerPhis(lr.l.header) {
		v := lr.init.top().env[p]
		switch v.(type) {
		case Ptr, PtrNil, GlobPtr, ClosV, MapV, IterV:
			if p2, ok := v.(Ptr); ok && valCtor(p.Type()) != "" {
				_ = p2
				continue
			}
			if _, ok := v.(PtrNil); ok && valCtor(p.Type()) != "" {
				continue
			}
		case IfaceV:
			if s := sortOf(p.Type()); s == SVal || s == SErr || s == SAny {
				continue
			}
		default:
			continue
		}
		for _, b := range backs {
			if fmt.Sprint(b.top().env[p]) != fmt.Sprint(v) {
				unsup("loop variable %s changes identity", p.Name())
			}
		}
	}
	for _, b := range backs {
		for p := range lr.sharedSlices(b) {
			if !lr.shared[p] {
				unsup("loop slice %v is shared", p)
			}
		}
		for r := range lr.written {
			if b.mem[r].frozen && !lr.init.mem[r].frozen {
				unsup("written region becomes shared in a loop")
			}
		}
	}
}

func (lr *loopRun) makeSlots(hv *State) {
	x := lr.x
	add := func(s *slotRef, v *Term) {
		s.sort = v.Sort
		k := len(lr.slots)
		c := TVar(fmt.Sprintf("cur!%d.%s", k, v.Sort.Name), v.Sort)
		i := TVar(fmt.Sprintf("ini!%d.%s", k, v.Sort.Name), v.Sort)
		lr.slots = append(lr.slots, s)
		lr.cur = append(lr.cur, c)
		lr.ini = append(lr.ini, i)
		it := x.readSlot(lr.init, s)
		lr.initT = append(lr.initT, it)
	}
	for _, p := range headerPhis(lr.l.header) {
		var paths [][]int
		var ts []types.Type
		leafRefs(hv.top().env[p], p.Type(), nil, &paths, &ts)
		for i, pa := range paths {
			s := &slotRef{phi: p, leaf: pa, typ: ts[i], name: p.Comment}
			if s.name == "" {
				s.name = p.Name()
			}
			if v := x.readSlot(hv, s); v != nil {
				if it := x.readSlot(lr.init, s); it != nil && it.Sort == v.Sort {
					add(s, v)
				}
			}
		}
	}
	for _, r := range sortedInts(lr.written) {
		fi, via, path, ok := locate(lr.init, r)
		if !ok && r != worldReg {
			continue
		}
		var paths [][]int
		var ts []types.Type
		leafRefs(hv.mem[r].val, hv.mem[r].typ, nil, &paths, &ts)
		for i, pa := range paths {
			s := &slotRef{frame: fi, via: via, path: path, leaf: pa, typ: ts[i]}
			if r == worldReg {
				s.world, s.name = true, fmt.Sprintf("world%v", pa)
			} else {
				s.name = fmt.Sprintf("%s%v", via.Name(), pa)
			}
			if v := x.readSlot(hv, s); v != nil {
				if it := x.readSlot(lr.init, s); it != nil && it.Sort == v.Sort {
					add(s, v)
				}
			}
		}
	}
	// values defined outside the loop
	seen := map[ssa.Value]bool{}
	fr := lr.init.top()
	consider := func(v ssa.Value) {
		if seen[v] {
			return
		}
		seen[v] = true
		if in, ok := v.(ssa.Instruction); ok && lr.l.blocks[in.Block()] {
			return
		}
		sv, ok := fr.env[v]
		if !ok {
			return
		}
		t := x.slotTerm(lr.init, sv, v.Type())
		if t == nil || t.isConst() && t.Sort != SInt && t.Sort != SStr {
			return
		}
		switch t.Sort {
		case SInt, SStr, SVals, SVal, SInts:
		default:
			if t.Sort.Kind != "seq" {
				return
			}
		}
		for _, o := range lr.freeT {
			if o == t {
				return
			}
		}
		lr.freeV = append(lr.freeV, v)
		lr.freeT = append(lr.freeT, t)
		lr.free = append(lr.free, TVar(fmt.Sprintf("free!%d.%s", len(lr.free), t.Sort.Name), t.Sort))
	}
	for _, b := range fr.fn.Blocks {
		if !lr.l.blocks[b] {
			continue
		}
		for _, in := range b.Instrs {
			for _, op := range in.Operands(nil) {
				if *op != nil {
					consider(*op)
				}
			}
		}
	}
	for _, p := range fr.fn.Params {
		consider(p)
	}
}

// symbolic environment: cur symbols to values of st.
func (lr *loopRun) env(st *State) map[*Term]*Term {
	m := map[*Term]*Term{}
	for i, s := range lr.slots {
		v := lr.x.readSlot(st, s)
		if v == nil {
			return nil
		}
		m[lr.cur[i]] = v
		m[lr.ini[i]] = lr.initT[i]
	}
	for i := range lr.free {
		m[lr.free[i]] = lr.freeT[i]
	}
	return m
}

func (lr *loopRun) assumeInv(st *State, cs []*cand) {
	m := lr.env(st)
	for _, c := range cs {
		st.assume(subst(c.t, m))
	}
}

type cand struct {
	t    *Term
	name string
	dead bool

	strong int // shuffled assignments that falsify it
}

func (lr *loopRun) collectBacks(hv *State) []*State {
	var backs []*State
	n := hv.clone()
	lr.explore(n, func(s *State) { backs = append(backs, s.clone()) }, func(p Ptr) {
		if !lr.written[p.reg] {
			unsup("loop write set grew")
		}
	})
	return backs
}

func (lr *loopRun) houdini(hv *State) []*cand {
	x := lr.x
	// lr.env needs readable slots in the initial state too
	cs, cached := x.loopCache[lr.key]
	if !cached {
		cs = lr.filterConcrete(lr.candidates(hv))
	} else {
		var n []*cand
		for _, c := range cs {
			n = append(n, &cand{t: c.t, name: c.name})
		}
		cs = n
	}
	var hyps map[*Term]*cand // what the state at the loop head assumes of the candidates
	check := func(st *State, m map[*Term]*Term) {
		var all []*Term
		for _, c := range cs {
			all = append(all, subst(c.t, m))
		}
		conj := And(all...)
		if conj == TTrue {
			return
		}
		if len(cs) > 1 {
			if r, _ := x.e.solver.Check(x.e, st.pc, conj, 2000, false); r == Unsat {
				return
			}
		}
		var wg sync.WaitGroup
		for i, c := range cs {
			c, g := c, all[i]
			if g == TTrue {
				continue
			}
			wg.Add(1)
			go func() {
				defer wg.Done()
				if strings.HasSuffix(c.name, " invariant") && len(hyps) > 1 {
					// often inductive by itself, and the other candidates
					// only distract
					var pc []*Term
					for _, p := range st.pc {
						if o := hyps[p]; o == nil || o == c || isSimple(o) {
							pc = append(pc, p)
						}
					}
					if len(pc) < len(st.pc) {
						if r, _ := x.e.solver.Check(x.e, pc, g, 3000, false); r == Unsat {
							return
						}
					}
				}
				if r, _ := x.e.solver.Check(x.e, st.pc, g, 1500, false); r != Unsat {
					c.dead = true
				}
			}()
		}
		wg.Wait()
		var n []*cand
		for _, c := range cs {
			if !c.dead {
				n = append(n, c)
			} else if os.Getenv("GOVER_LOOP") == "2" {
				fmt.Fprintln(os.Stderr, "   drop", c.name, c.t)
				if d := os.Getenv("GOVER_DROP"); d != "" && strings.Contains(c.name, d) {
					for _, p := range st.pc {
						fmt.Fprintln(os.Stderr, "      |", p)
					}
					fmt.Fprintln(os.Stderr, "      |-", subst(c.t, m))
				}
			}
		}
		cs = n
	}
	m0 := lr.env(lr.init)
	if m0 == nil {
		return nil
	}
	check(lr.init, m0)
	for round := 0; round < 12; round++ {
		n := hv.clone()
		lr.assumeInv(n, cs)
		hyps = map[*Term]*cand{}
		mh := lr.env(n)
		for _, c := range cs {
			hyps[subst(c.t, mh)] = c
		}
		backs := lr.collectBacks(n)
		before := len(cs)
		for _, b := range backs {
			m := lr.env(b)
			if m == nil {
				return nil
			}
			check(b, m)
		}
		if len(cs) == before {
			if os.Getenv("GOVER_LOOP") != "" {
				fmt.Fprintf(os.Stderr, "   %d kept in %s, %d rounds, cached %v\n", len(cs), lr.init.top().fn.Name(), round, cached)
				if os.Getenv("GOVER_LOOP") != "1" {
					for _, c := range cs {
						fmt.Fprintf(os.Stderr, "   kept %s\n", subst(c.t, lr.env(hv)))
					}
				}
			}
			if x.quiet == 0 {
				for _, c := range cs {
					for k := range backs {
						_ = k
						x.obls = append(x.obls, &Obligation{Fn: x.fn.String(), Kind: "loop-invariant", Name: "loop invariant of " + shortFn(lr.init.top().fn) + ": " + c.name, Pos: pos(lr.init.top().fn, lr.l.header.Instrs[0].Pos()), Goal: TTrue, done: true, res: Unsat, back: "z3"})
					}
				}
			}
			x.loopCache[lr.key] = cs
			return cs
		}
	}
	return nil
}

// ---------- candidates ----------

func (lr *loopRun) candidates(hv *State) []*cand {
	x := lr.x
	lr.snaps = lr.snapshots()
	var out []*cand
	seen := map[*Term]bool{}
	add := func(name string, t *Term) {
		if t == TTrue || t == TFalse || seen[t] {
			return
		}
		seen[t] = true
		out = append(out, &cand{t: t, name: name})
	}
	iniOf := map[*Term]*Term{}
	for i := range lr.cur {
		iniOf[lr.cur[i]] = lr.ini[i]
	}
	var curI, curS, others, seqs []*Term
	for i, c := range lr.cur {
		switch {
		case c.Sort == SInt:
			curI = append(curI, c)
			others = append(others, lr.ini[i])
		case c.Sort.Kind == "seq":
			curS = append(curS, c)
		case c.Sort == SBool:
			add(lr.slots[i].name+" constant", c)
			add(lr.slots[i].name+" constant", Not(c))
		case c.Sort == SErr:
			add(lr.slots[i].name+" no error", Eq(c, ErrNil))
		case c.Sort == SVal:
			add(lr.slots[i].name+" well formed", App("wfv", SBool, c))
		}
		add(lr.slots[i].name+" unchanged", Eq(c, lr.ini[i]))
		if c.Sort == SVals {
			add(lr.slots[i].name+" well formed", App("wfvs", SBool, c))
		}
		// string iterators
		if s := lr.slots[i]; s.phi == nil && !s.world && c.Sort == SInt {
			if v, ok := follow(hv, s.frame, s.via, s.path); ok {
				if it, ok := v.(*IterVal); ok && it.s != nil {
					add("iterator in range", Le(c, SLen(it.s)))
				}
			}
		}
	}
	var intT []*Term // int terms constant over the loop
	for _, f := range lr.free {
		switch {
		case f.Sort == SInt:
			intT = append(intT, f)
		case f.Sort.Kind == "seq":
			seqs = append(seqs, f)
			intT = append(intT, SLen(f))
		}
	}
	// entry values of the specification
	var ent []*Term
	entryVals := append([]SV{}, x.specEntry...)
	for _, a := range x.specEntry {
		if q, ok := a.(Ptr); ok && x.entryState.mem[q.reg] != nil {
			entryVals = append(entryVals, x.entryState.mem[q.reg].val)
		}
	}
	for _, a := range entryVals {
		for _, t := range safeLeaves(a) {
			if t.Op == "var" || t.Op == "get" || t.Op == "sat" {
				ent = append(ent, t)
			}
		}
	}
	{
		known := map[*Term]bool{}
		for _, t := range lr.freeT {
			known[t] = true
		}
		var e2 []*Term
		for _, t := range ent {
			if !known[t] {
				e2 = append(e2, t)
			}
		}
		ent = e2
	}
	for _, t := range ent {
		switch {
		case t.Sort == SInt:
			intT = append(intT, t)
		case t.Sort.Kind == "seq":
			seqs = append(seqs, t)
			intT = append(intT, SLen(t))
		}
	}
	lists := func(ts []*Term, vals []*Term) {
		for i, t := range ts {
			if t.Sort == SVal && lr.init.decide(Is("VLst", vals[i])) == TTrue {
				s := Get("VLst", 0, t)
				seqs = append(seqs, s)
				intT = append(intT, SLen(s))
			}
			if t.Sort == SAny && lr.init.decide(Is("ASeq", vals[i])) == TTrue {
				s := Get("ASeq", 0, t)
				seqs = append(seqs, s)
				intT = append(intT, SLen(s))
			}
		}
	}
	lists(lr.free, lr.freeT)
	lists(ent, ent)
	moved := false
	for _, c := range lr.cur {
		if !lr.sameVec(c, iniOf[c]) {
			moved = true
		}
	}
	if moved { // loop variables that never move need only "unchanged"
		var c2 []*Term
		for _, c := range curI {
			if len(lr.snaps) == 0 || !lr.sameVec(c, iniOf[c]) {
				c2 = append(c2, c)
			}
		}
		curI = c2
		c2 = nil
		for _, c := range curS {
			if len(lr.snaps) == 0 || !lr.sameVec(c, iniOf[c]) {
				c2 = append(c2, c)
			} else if n := len(seqs); len(lr.distinct(append(seqs[:n:n], c))) > len(lr.distinct(seqs[:n:n])) {
				seqs = append(seqs, iniOf[c])
				intT = append(intT, SLen(iniOf[c]))
			}
		}
		curS = c2
	}
	lr.fixT = append([]*Term{}, intT...)
	intT = lr.distinct(append(intT, TInt(0), TInt(1)))
	dyn := append([]*Term{}, curI...)
	for _, s := range curS {
		dyn = append(dyn, SLen(s))
	}
	bounds := lr.distinct(append(append([]*Term{}, intT...), others...))
	for i, p := range dyn {
		for _, t := range bounds {
			if p == t {
				continue
			}
			add("bound", Le(p, t))
			add("bound", Le(t, p))
			add("bound", Le(p, AddI(t, 1)))
			add("bound", Le(AddI(t, -1), p))
			add("bound", Le(AddI(t, 1), p))
			add("bound", Le(p, AddI(t, -1)))
		}
		for j, q := range dyn {
			if i == j {
				continue
			}
			add("order", Le(p, q))
			if a, b := lr.initOf(p), lr.initOf(q); a != nil && b != nil && a.isInt() && b.isInt() && a != b {
				add("order", Le(Sub(p, q), Sub(a, b))) // p grows no faster than q
			}
			if j > i {
				d := func(k int) *Term { return subst(dyn[k], iniOf) }
				add("difference", Eq(Sub(p, q), Sub(d(i), d(j))))
				add("sum", Eq(Add(p, q), Add(d(i), d(j))))
			}
		}
	}
	for i, s := range lr.slots {
		if s.sort.Kind == "seq" {
			add("length kept", Eq(SLen(lr.cur[i]), SLen(lr.ini[i])))
			for _, p := range curI {
				add("length", Eq(SLen(lr.cur[i]), p))
			}
		}
	}
	// type invariants of written objects
	for _, r := range sortedInts(lr.written) {
		if f := x.e.inv[typeName(hv.mem[r].typ)]; f != nil {
			t := x.e.evalSpec(f, []SV{Ptr{reg: r}}, hv)[0].(*Term)
			back := map[*Term]*Term{}
			for k, v := range lr.env(hv) {
				if strings.HasPrefix(k.S, "cur!") {
					back[v] = k
				}
			}
			t = subst(t, back)
			if t.Op == "and" {
				for _, a := range t.Args {
					add("type invariant", a)
				}
			} else {
				add("type invariant", t)
			}
		}
	}
	// built-up prefixes hold well-formed values
	for _, c := range curS {
		if c.Sort == SVals {
			for _, p := range curI {
				add("prefix well formed", App("wfvs", SBool, SSub(c, TInt(0), p)))
				add("prefix well formed", App("wfvs", SBool, SSub(c, TInt(0), AddI(p, -1))))
			}
		}
	}
	// slices of the inputs: cur seq equals a piece of a known sequence
	for _, s := range curS {
		for _, b := range seqs {
			if b.Sort != s.Sort {
				continue
			}
			for _, p := range curI {
				add("piece", Eq(s, SSub(b, TInt(0), p)))
				add("piece", Eq(s, SSub(b, p, SLen(b))))
			}
		}
	}
	// recursive specification functions, over the values the specification
	// applies them to
	if x.contract != nil {
		if x.relevant != nil {
			val := map[*Term]*Term{}
			for i, f := range lr.free {
				val[f] = lr.freeT[i]
			}
			entry := map[*Term]bool{}
			for _, v := range x.entryVars {
				entry[v] = true
			}
			keep := func(ts []*Term) (r []*Term) {
				for _, t := range ts {
					m := map[*Term]bool{}
					collectVars(subst(t, val), m)
					ok := true
					for v := range m {
						if entry[v] && !x.relevant[v] {
							ok = false
						}
					}
					if ok {
						r = append(r, t)
					}
				}
				return r
			}
			seqs, intT, ent = keep(seqs), keep(intT), keep(ent)
		}
		// abstract states of objects
		back := map[*Term]*Term{}
		for k, v := range lr.env(hv) {
			if strings.HasPrefix(k.S, "cur!") {
				back[v] = k
			}
		}
		lr.objs = nil
		for _, r := range sortedInts(lr.written) {
			if x.e.abs[typeName(hv.mem[r].typ)] == nil {
				continue
			}
			a := x.absOf(hv, Ptr{reg: r})
			if sv, ok := a.(*StructV); ok && sortOf(sv.typ) != nil {
				lr.objs = append(lr.objs, subst(x.peekTerm(hv, a, sv.typ), back))
			}
		}
		for _, f := range x.contract.RecSpecs {
			if len(lr.snaps) == 0 && len(x.specUse) > 0 && len(x.specUse[f]) == 0 {
				continue // no sample runs to tell which of these matter
			}
			n := len(out)
			lr.recCands(f, curI, curS, seqs, intT, ent, iniOf, add)
			if len(out)-n > 10000 && len(x.specUse) > 0 && len(x.specUse[f]) == 0 && f.Pkg != x.contract.Spec.Pkg {
				out = out[:n] // a detail of the specification
			}
		}
	}
	return out
}

// findRelevant records the entry variables in the arguments of recursive
// specification functions.
func (x *Exec) findRelevant(spec []SV) {
	m := map[*Term]bool{}
	n := 0
	seen := map[*Term]bool{}
	var rec func(t *Term)
	rec = func(t *Term) {
		if seen[t] {
			return
		}
		seen[t] = true
		if t.Op == "app" && strings.HasPrefix(t.S, "spec.") {
			n++
			for _, a := range t.Args {
				collectVars(a, m)
			}
			if f, _ := x.e.specByApp(t.S); f != nil {
				if x.specUse == nil {
					x.specUse = map[*ssa.Function][][]*Term{}
				}
				x.specUse[f] = append(x.specUse[f], t.Args)
			}
		}
		for _, a := range t.Args {
			rec(a)
		}
	}
	var walk func(v SV)
	walk = func(v SV) {
		if t, ok := v.(*Term); ok {
			rec(t)
			return
		}
		for _, c := range children(v) {
			walk(c)
		}
	}
	for _, v := range spec {
		walk(v)
	}
	if n > 0 {
		x.relevant = m
	}
}

func isSimple(c *cand) bool {
	return c.name == "bound" || c.name == "order" || strings.HasSuffix(c.name, "unchanged") || strings.HasSuffix(c.name, "well formed") || c.name == "type invariant"
}

// informative drops candidates that no shuffled assignment falsifies (they
// say nothing about the loop) and all but two of those no shuffled assignment
// tells apart.
func (lr *loopRun) informative(cs []*cand) []*cand {
	if len(lr.snaps) < 4 {
		return cs
	}
	rng := rand.New(rand.NewSource(11))
	// shuffled assignments satisfy the simple candidates
	var simple []*Term
	for _, c := range cs {
		if isSimple(c) {
			simple = append(simple, c.t)
		}
	}
	var sh []snapshot
	for k := 0; k < 6000 && len(sh) < 400; k++ {
		a := lr.snaps[rng.Intn(len(lr.snaps))]
		m := snapshot{}
		for v, t := range a {
			m[v] = t
		}
		mode := k % 3
		b := lr.snaps[rng.Intn(len(lr.snaps))]
		for i, c := range lr.cur {
			if mode == 1 {
				b = lr.snaps[rng.Intn(len(lr.snaps))]
			}
			if c.Sort == SInt && mode == 2 {
				m[c] = TInt(int64(rng.Intn(9)))
			} else {
				m[c] = b[c]
			}
			if k%2 == 1 {
				m[lr.ini[i]] = lr.snaps[rng.Intn(len(lr.snaps))][lr.ini[i]]
			}
		}
		ok := true
		for _, t := range simple {
			if subst(t, m) == TFalse {
				ok = false
				break
			}
		}
		if ok {
			sh = append(sh, m)
		}
	}
	keys := make([]string, len(cs))
	triv := make([]bool, len(cs))
	var wg sync.WaitGroup
	sem := make(chan struct{}, 8)
	for i, c := range cs {
		i, c := i, c
		if isSimple(c) {
			continue
		}
		wg.Add(1)
		go func() {
			defer wg.Done()
			sem <- struct{}{}
			defer func() { <-sem }()
			b := make([]byte, len(sh))
			triv[i] = true
			for k, m := range sh {
				switch subst(c.t, m) {
				case TTrue:
					b[k] = '1'
				case TFalse:
					b[k] = '0'
					c.strong++
					triv[i] = false
				default:
					b[k] = '?'
				}
			}
			keys[i] = string(b)
		}()
	}
	wg.Wait()
	if d := os.Getenv("GOVER_DROP"); d != "" {
		for i, c := range cs {
			if strings.Contains(c.name, d) {
				fmt.Fprintln(os.Stderr, "    informative", len(sh), triv[i], keys[i], cutStr(c.t.String(), 160))
			}
		}
	}
	size := func(t *Term) int { return len(t.String()) }
	idx := map[string][]int{}
	drop := map[*cand]bool{}
	for i, c := range cs {
		if triv[i] {
			drop[c] = true
		} else if keys[i] != "" {
			idx[keys[i]] = append(idx[keys[i]], i)
		}
	}
	for _, l := range idx {
		sort.SliceStable(l, func(a, b int) bool { return size(cs[l[a]].t) < size(cs[l[b]].t) })
		for _, i := range l[min(2, len(l)):] {
			drop[cs[i]] = true
		}
	}
	var out []*cand
	for _, c := range cs {
		if !drop[c] {
			out = append(out, c)
		}
	}
	return out
}

func safeLeaves(v SV) (out []*Term) {
	defer func() {
		if r := recover(); r != nil {
			out = nil
		}
	}()
	return leaves(v)
}

func (lr *loopRun) initOf(c *Term) *Term {
	for i, d := range lr.cur {
		if c == d {
			return lr.initT[i]
		}
	}
	return nil
}

// flags are truth values the loop may keep in another form: a counter, a list
// or an error that stays empty as long as nothing happened.
func (lr *loopRun) flags(curI, curS, other []*Term) []*Term {
	var out []*Term
	for _, c := range other {
		if c.Sort == SBool {
			if lr.initOf(c) != TTrue {
				return nil
			}
			out = append(out, Not(c))
		}
	}
	for _, c := range other {
		if c.Sort == SErr && lr.initOf(c) == ErrNil {
			out = append(out, Not(Eq(c, ErrNil)))
		}
	}
	for _, c := range curI {
		if lr.initOf(c) == TInt(0) {
			out = append(out, Not(Le(c, TInt(0))))
		}
	}
	for _, c := range curS {
		if ini := lr.initOf(c); ini != nil && SLen(ini) == TInt(0) {
			out = append(out, Not(Le(SLen(c), TInt(0))))
		}
	}
	return out
}

// passedOn reports whether f hands its i-th parameter on unchanged whenever it
// calls itself.
func passedOn(f *ssa.Function, i int) bool {
	self := false
	for _, b := range f.Blocks {
		for _, in := range b.Instrs {
			if c, ok := in.(*ssa.Call); ok && c.Call.StaticCallee() == f {
				self = true
				if c.Call.Args[i] != f.Params[i] {
					return false
				}
			}
		}
	}
	return self
}

func (lr *loopRun) recCands(f *ssa.Function, curI, curS, seqs, intT, ent []*Term, iniOf map[*Term]*Term, add func(string, *Term)) {
	x := lr.x
	sig := f.Signature
	np := len(f.Params)
	pool := make([][]*Term, np)
	var otherCur []*Term
	for _, c := range lr.cur {
		if c.Sort != SInt && c.Sort.Kind != "seq" {
			otherCur = append(otherCur, c)
		}
	}
	nInts := 0
	for _, p := range f.Params {
		if sortOf(p.Type()) == SInt {
			nInts++
		}
	}
	fixed := fixedParams(f)
	for i, p := range f.Params {
		s := sortOf(p.Type())
		if s == nil {
			return
		}
		if fixed[i] && len(lr.snaps) == 0 && len(x.specUse[f]) > 0 {
			// no sample runs: only what the specification itself passes on
			back := map[*Term]*Term{}
			for k, v := range lr.freeT {
				back[v] = lr.free[k]
			}
			for _, as := range x.specUse[f] {
				pool[i] = append(pool[i], subst(as[i], back))
			}
			pool[i] = uniq(pool[i])
			continue
		}
		switch {
		case fixed[i] && (s == SInt || s.Kind == "seq"):
			for _, t := range append(append([]*Term{}, intT...), seqs...) {
				if t.Sort == s {
					pool[i] = append(pool[i], t)
				}
			}
			for _, t := range append(append([]*Term{}, curI...), curS...) {
				if t.Sort == s {
					pool[i] = append(pool[i], t)
				}
			}
		case s == SInt:
			pool[i] = append(pool[i], curI...)
			for _, c := range curI {
				pool[i] = append(pool[i], AddI(c, 1), AddI(c, -1))
				if lr.initOf(c) == TInt(-1) { // of a range over s[1:]: two behind s
					pool[i] = append(pool[i], AddI(c, 2))
				}
				for _, t := range intT {
					if !t.isConst() {
						pool[i] = append(pool[i], Sub(t, c))
					}
				}
			}
			for _, t := range intT {
				pool[i] = append(pool[i], t)
			}
			for _, c := range curS {
				pool[i] = append(pool[i], SLen(c))
			}
		case s.Kind == "seq":
			for _, c := range curS {
				if s == SStr && c.Sort.Kind == "seq" && c.Sort.Elem == SStr {
					for _, sep := range lr.separators() {
						pool[i] = append(pool[i], App("strings.Join", SStr, c, TLit(sep)))
						for _, p := range curI {
							pool[i] = append(pool[i], App("strings.Join", SStr, SSub(c, TInt(0), p), TLit(sep)))
							if lr.initOf(p) == TInt(-1) {
								pool[i] = append(pool[i], App("strings.Join", SStr, SSub(c, TInt(0), AddI(p, 1)), TLit(sep)))
							}
						}
					}
				}
				if c.Sort == s {
					pool[i] = append(pool[i], c)
					if ini := lr.initOf(c); s != SStr && (ini == nil || SLen(ini) != TInt(0)) { // not a list that grows from empty
						for _, p := range curI {
							if lr.initOf(p) == TInt(-1) {
								pool[i] = append(pool[i], SSub(c, TInt(0), AddI(p, 1)))
							} else {
								pool[i] = append(pool[i], SSub(c, TInt(0), p), SSub(c, TInt(0), AddI(p, -1)))
							}
						}
					}
				}
			}
			for _, b := range seqs {
				if b.Sort != s {
					continue
				}
				pool[i] = append(pool[i], b)
				for _, c := range curI {
					pool[i] = append(pool[i], SSub(b, c, SLen(b)), SSub(b, TInt(0), c), SSub(b, AddI(c, -1), SLen(b)))
				}
			}
		default:
			for _, c := range append(append(append([]*Term{}, lr.objs...), otherCur...), append(ent, lr.free...)...) {
				if c.Sort == s {
					pool[i] = append(pool[i], c)
				}
			}
			if s == SBool {
				pool[i] = append(pool[i], lr.flags(curI, curS, otherCur)...)
			}
		}
		pool[i] = lr.distinct(uniq(pool[i]))
		if us := x.specUse[f]; len(us) > 0 && passedOn(f, i) {
			var ts []*Term
			for _, u := range us {
				ts = append(ts, u[i])
			}
			for _, t := range pool[i] {
				if t.Sort.Kind == "seq" && mentions(t, iniOf) {
					ts = append(ts, t)
				}
			}
			pool[i] = uniq(ts)
		}
	}
	n := 1
	for i := range pool {
		n *= len(pool[i])
		if n == 0 || n > 60000 {
			if os.Getenv("GOVER_LOOP") != "" {
				fmt.Fprintln(os.Stderr, "   pool", f.Name(), n)
			}
			return
		}
	}
	if os.Getenv("GOVER_LOOP") != "" {
		fmt.Fprintln(os.Stderr, "   pool", f.Name(), n)
	}
	args := make([]*Term, np)
	var rec func(k int)
	rec = func(k int) {
		if k == np {
			dyn := false
			for _, a := range args {
				if mentions(a, iniOf) {
					dyn = true
				}
			}
			if !dyn {
				for r := 0; r < sig.Results().Len(); r++ {
					t := recApp(f, r, args)
					for _, c := range lr.cur {
						if c.Sort == t.Sort {
							add(f.Name()+" result", Eq(c, t))
						}
					}
				}
				return
			}
			if n := sig.Results().Len(); n > 1 {
				var all []*Term
				for r := 0; r < n; r++ {
					t := recApp(f, r, args)
					all = append(all, Eq(t, subst(t, iniOf)))
				}
				add(f.Name()+" invariant", And(all...))
			}
			for r := 0; r < sig.Results().Len(); r++ {
				t := recApp(f, r, args)
				t0 := subst(t, iniOf)
				if sig.Results().Len() == 1 {
					add(f.Name()+" invariant", Eq(t, t0))
				}
				for _, c := range lr.cur {
					if c.Sort == t.Sort {
						add(f.Name()+" result", Eq(c, t))
						if c.Sort.Kind == "seq" {
							add(f.Name()+" prefix", Eq(SCat(c, t), SCat(iniOf[c], t0)))
							add(f.Name()+" suffix", Eq(SCat(t, c), SCat(t0, iniOf[c])))
						}
						if c.Sort == SInt {
							add(f.Name()+" sum", Eq(Add(c, t), Add(iniOf[c], t0)))
							add(f.Name()+" difference", Eq(Sub(c, t), Sub(iniOf[c], t0)))
						}
					}
				}
			}
			return
		}
		for _, a := range pool[k] {
			args[k] = a
			rec(k + 1)
		}
	}
	rec(0)
}

// separators: what the function puts between the strings it joins.
func (lr *loopRun) separators() (out []string) {
	for _, b := range lr.init.top().fn.Blocks {
		for _, in := range b.Instrs {
			c, ok := in.(*ssa.Call)
			if !ok || c.Call.StaticCallee() == nil || c.Call.StaticCallee().String() != "strings.Join" {
				continue
			}
			if k, ok := c.Call.Args[1].(*ssa.Const); ok {
				out = append(out, constant.StringVal(k.Value))
			}
		}
	}
	return out
}

// fixedParams: parameters every recursive call passes on unchanged.
func fixedParams(f *ssa.Function) []bool {
	fx := make([]bool, len(f.Params))
	for i := range fx {
		fx[i] = true
	}
	self := false
	for _, b := range f.Blocks {
		for _, in := range b.Instrs {
			c, ok := in.(*ssa.Call)
			if !ok || c.Call.StaticCallee() != f {
				continue
			}
			self = true
			for i, a := range c.Call.Args {
				if a != f.Params[i] {
					fx[i] = false
				}
			}
		}
	}
	if !self {
		return make([]bool, len(f.Params))
	}
	return fx
}

func recApp(f *ssa.Function, k int, args []*Term) *Term {
	name := specName(f)
	if f.Signature.Results().Len() > 1 {
		name += fmt.Sprintf("#%d", k)
	}
	return AppU(name, sortOf(f.Signature.Results().At(k).Type()), append([]*Term{}, args...)...)
}

func mentions(t *Term, m map[*Term]*Term) bool {
	if _, ok := m[t]; ok {
		return true
	}
	for _, a := range t.Args {
		if mentions(a, m) {
			return true
		}
	}
	return false
}

func uniq(ts []*Term) []*Term {
	seen := map[*Term]bool{}
	var out []*Term
	for _, t := range ts {
		if !seen[t] {
			seen[t] = true
			out = append(out, t)
		}
	}
	return out
}

// ---------- concrete filter ----------

type snapshot map[*Term]*Term

func (lr *loopRun) filterConcrete(cs []*cand) []*cand {
	snaps := lr.snaps
	if os.Getenv("GOVER_LOOP") != "" {
		fmt.Fprintf(os.Stderr, "  loop in %s: %d slots, %d free, %d candidates, %d snapshots\n", lr.init.top().fn.Name(), len(lr.slots), len(lr.free), len(cs), len(snaps))
	}
	var wg sync.WaitGroup
	sem := make(chan struct{}, 8)
	chunk := (len(cs) + 31) / 32
	for a := 0; a < len(cs); a += chunk {
		b := a + chunk
		if b > len(cs) {
			b = len(cs)
		}
		part := cs[a:b]
		wg.Add(1)
		go func() {
			defer wg.Done()
			sem <- struct{}{}
			defer func() { <-sem }()
			for _, c := range part {
				unk := 0
				tight := c.name != "bound" && c.name != "order" || len(snaps) == 0
				for _, s := range snaps {
					g := subst(c.t, s)
					if !tight {
						if l := linOf(c.t.Args[1]); true {
							v := subst(l.term(), s)
							z := subst(c.t.Args[0], s)
							tight = v == z
						}
					}
					if g == TFalse {
						c.dead = true
						break
					}
					if g != TTrue {
						unk++
					}
				}
				if !tight {
					c.dead = true
				}
				if unk > len(snaps)/2 && strings.Contains(c.t.String(), "spec.") {
					c.dead = true
				}
			}
		}()
	}
	wg.Wait()
	var out []*cand
	for _, c := range cs {
		if !c.dead {
			out = append(out, c)
		}
	}
	if len(snaps) == 0 && len(out) > 1500 {
		// without evidence keep only the cheap arithmetic candidates
		var o2 []*cand
		for _, c := range out {
			if !strings.Contains(c.t.String(), "spec.") {
				o2 = append(o2, c)
			}
		}
		out = o2
	}
	if len(snaps) > 0 {
		out = pruneBounds(out)
	}
	out = lr.informative(out)
	out = capCands(out, snaps)
	if os.Getenv("GOVER_LOOP") != "" {
		fmt.Fprintf(os.Stderr, "  %d candidates after concrete filter\n", len(out))
		if os.Getenv("GOVER_LOOP") == "3" {
			n, d := map[string]int{}, map[string]int{}
			for _, c := range cs {
				n[c.name]++
				if c.dead {
					d[c.name]++
				}
			}
			for k := range n {
				fmt.Fprintln(os.Stderr, "    family", k, n[k], "dead", d[k])
			}
			if f := os.Getenv("GOVER_DROP"); f != "" {
				for _, c := range cs {
					if strings.Contains(c.name, f) {
						fmt.Fprintln(os.Stderr, "    cand", c.dead, c.t)
						for _, s := range snaps {
							if g := subst(c.t, s); g != TTrue {
								fmt.Fprintln(os.Stderr, "      in", s, "is", g)
								break
							}
						}
					}
				}
			}
		}
	}
	return out
}

// capCands keeps the simplest candidates of each family.
func capCands(cs []*cand, snaps []snapshot) []*cand {
	n := map[string][]*cand{}
	for _, c := range cs {
		n[c.name] = append(n[c.name], c)
	}
	drop := map[*cand]bool{}
	for _, l := range n {
		if len(l) <= 24 || len(snaps) == 0 && len(l) <= 100 {
			continue
		}
		sort.SliceStable(l, func(i, j int) bool {
			if strings.HasSuffix(l[i].name, " invariant") && l[i].t.Op == "and" {
				if a, b := l[i].strong/32, l[j].strong/32; a != b {
					return a > b
				}
			}
			if len(snaps) == 0 && strings.HasSuffix(l[i].name, " invariant") {
				// without evidence: the more of the changing state it relates, the better
				if a, b := curVars(l[i].t), curVars(l[j].t); a != b {
					return a > b
				}
			}
			return len(l[i].t.String()) < len(l[j].t.String())
		})
		for _, c := range l[24:] {
			drop[c] = true
		}
	}
	var out []*cand
	for _, c := range cs {
		if !drop[c] {
			out = append(out, c)
		}
	}
	return out
}

// curVars counts the changing variables of the loop that t mentions.
func curVars(t *Term) int {
	seen := map[*Term]bool{}
	n := 0
	var rec func(t *Term)
	rec = func(t *Term) {
		if seen[t] {
			return
		}
		seen[t] = true
		if len(t.Args) == 0 && strings.HasPrefix(t.String(), "cur!") {
			n++
		}
		for _, a := range t.Args {
			rec(a)
		}
	}
	rec(t)
	return n
}

// vec is the list of values of t in the concrete snapshots ("" if unknown).
func (lr *loopRun) vec(t *Term) string {
	var b strings.Builder
	for i, s := range lr.snaps {
		if i >= 240 {
			break
		}
		v := subst(t, s)
		if !v.isConst() {
			return ""
		}
		fmt.Fprintf(&b, "%d,", v.id)
	}
	return b.String()
}

func (lr *loopRun) sameVec(a, b *Term) bool { v := lr.vec(a); return v != "" && v == lr.vec(b) }

// distinct drops terms that no snapshot tells from an earlier one.
func (lr *loopRun) distinct(ts []*Term) []*Term {
	if len(lr.snaps) == 0 {
		return ts
	}
	seen := map[string]bool{}
	var out []*Term
	for _, t := range ts {
		v := t.Sort.Name + lr.vec(t)
		if seen[v] && v != t.Sort.Name {
			continue
		}
		seen[v] = true
		out = append(out, t)
	}
	return out
}

func mixHash(h uint64, s string, k int) uint64 {
	f := fnv.New64a()
	fmt.Fprintf(f, "%d/%s/%d", h, s, k)
	return f.Sum64()
}

// pruneBounds removes bounds implied by a tighter surviving bound of the same
// two terms.
func pruneBounds(cs []*cand) []*cand {
	best := map[*Term]*cand{}
	drop := map[*cand]bool{}
	for _, c := range cs {
		if c.t.Op != "<=" {
			continue
		}
		l := linOf(c.t.Args[1])
		k := l.c
		l.c = new(big.Int)
		key := l.term()
		if o := best[key]; o != nil {
			lo := linOf(o.t.Args[1])
			if k.Cmp(lo.c) < 0 {
				drop[o] = true
				best[key] = c
			} else {
				drop[c] = true
			}
		} else {
			best[key] = c
		}
	}
	var out []*cand
	for _, c := range cs {
		if !drop[c] {
			out = append(out, c)
		}
	}
	return out
}

func (lr *loopRun) snapshots() []snapshot {
	x := lr.x
	if x.entryState == nil {
		return nil
	}
	var out []snapshot
	fn := lr.init.top().fn
	var chain []*ssa.Function
	for _, f := range lr.init.fr {
		chain = append(chain, f.fn)
	}
	for _, smp := range x.samples() {
		var ini snapshot
		perRun := 0
		visit := func(y *Exec, st *State, blk *ssa.BasicBlock) {
			if blk != lr.l.header || st.top().fn != fn || len(st.fr) != len(chain) {
				return
			}
			for i, f := range st.fr {
				if f.fn != chain[i] {
					return
				}
			}
			s := snapshot{}
			for i, sl := range lr.slots {
				v := y.readSlot(st, sl)
				if v == nil || !v.isConst() {
					return
				}
				s[lr.cur[i]] = v
			}
			for i, fv := range lr.freeV {
				sv, ok := st.top().env[fv]
				if !ok {
					return
				}
				v := y.slotTerm(st, sv, fv.Type())
				if v == nil || v.Sort != lr.free[i].Sort {
					return
				}
				s[lr.free[i]] = v
			}
			if st.top().visits[blk] == 0 {
				ini = snapshot{}
				for i := range lr.cur {
					ini[lr.ini[i]] = s[lr.cur[i]]
				}
				perRun = 0
			}
			if ini == nil {
				return
			}
			perRun++
			if perRun > 12 {
				return
			}
			for k, v := range ini {
				s[k] = v
			}
			for k, v := range smp {
				s[k] = v
			}
			out = append(out, s)
		}
		x.concreteRun(smp, visit)
		if len(out) > 400 {
			break
		}
	}
	return out
}

// ---------- termination ----------

func (lr *loopRun) termination(hv *State, backs []*State, where string) {
	x := lr.x
	ps := lr.l.header.Instrs[0].Pos()
	for _, in := range lr.l.header.Instrs {
		if in.Pos().IsValid() {
			ps = in.Pos()
			break
		}
	}
	rec := func(goal *Term, pc []*Term, done bool, back string) {
		o := &Obligation{Fn: x.fn.String(), Kind: "term", Name: where + " terminates", Pos: pos(lr.init.top().fn, ps), PC: pc, Goal: goal, Tags: []string{"term"}}
		if done {
			o.done, o.res, o.back = true, Unsat, back
		}
		x.obls = append(x.obls, o)
	}
	if len(backs) == 0 {
		return
	}
	var ms []*Term
	var fix []*Term
	for _, f := range lr.free {
		if f.Sort == SInt {
			fix = append(fix, f)
		} else if f.Sort.Kind == "seq" {
			fix = append(fix, SLen(f))
		}
	}
	fix = uniq(append(append(fix, lr.fixT...), lr.ini...))
	// iterators
	for i, s := range lr.slots {
		if s.phi == nil && !s.world {
			if v, ok := follow(hv, s.frame, s.via, s.path); ok {
				if it, ok := v.(*IterVal); ok && it.s != nil {
					ms = append(ms, Sub(SLen(it.s), lr.cur[i]))
				}
			}
		}
	}
	for _, c := range lr.cur {
		if c.Sort == SInt {
			ms = append(ms, c, AddI(c, 1))
			for _, f := range fix {
				if f.Sort == SInt {
					ms = append(ms, Sub(f, c), Sub(c, f), AddI(Sub(f, c), 1))
				}
			}
			for _, d := range lr.cur {
				if d.Sort == SInt && d != c {
					ms = append(ms, Sub(c, d))
				} else if d.Sort.Kind == "seq" {
					ms = append(ms, Sub(SLen(d), c), AddI(Sub(SLen(d), c), 1))
				}
			}
		} else if c.Sort.Kind == "seq" {
			ms = append(ms, SLen(c))
			for _, f := range fix {
				if f.Sort == SInt {
					ms = append(ms, Sub(f, SLen(c)))
				}
			}
		}
	}
	for _, r := range lr.init.fr {
		_ = r
	}
	ms = uniq(ms)
	e0 := lr.env(hv)
	envs := make([]map[*Term]*Term, len(backs))
	for i, b := range backs {
		envs[i] = lr.env(b)
	}
	try := func(m *Term) bool {
		for i, b := range backs {
			e1 := envs[i]
			g := And(Le(TInt(0), subst(m, e0)), Lt(subst(m, e1), subst(m, e0)))
			if g == TTrue {
				continue
			}
			if r, _ := x.e.solver.Check(x.e, b.pc, g, 1000, false); r != Unsat {
				return false
			}
		}
		return true
	}
	// lexicographic pairs are tried after single measures
	ok := make([]bool, len(ms))
	var wg sync.WaitGroup
	for i := range ms {
		i := i
		wg.Add(1)
		go func() { defer wg.Done(); ok[i] = try(ms[i]) }()
	}
	wg.Wait()
	for i := range ms {
		if ok[i] {
			for range backs {
				rec(TTrue, nil, true, "z3")
			}
			return
		}
	}
	// per back edge: some measures are constant, another decreases (lexicographic)
	lex := func(m1, m2 *Term) bool {
		for i, b := range backs {
			e1 := envs[i]
			a0, a1, b0, b1 := subst(m1, e0), subst(m1, e1), subst(m2, e0), subst(m2, e1)
			g := And(Le(TInt(0), a0), Or(Lt(a1, a0), And(Eq(a1, a0), Le(TInt(0), b0), Lt(b1, b0))))
			if r, _ := x.e.solver.Check(x.e, b.pc, g, 1000, false); r != Unsat {
				return false
			}
		}
		return true
	}
	if len(ms) <= 24 {
		for _, a := range ms {
			for _, b := range ms {
				if a != b && lex(a, b) {
					for range backs {
						rec(TTrue, nil, true, "z3")
					}
					return
				}
			}
		}
	}
	rec(TFalse, backs[0].pc, false, "")
}
