package main

import (
	"fmt"
	"go/token"
	"go/types"
	"math/big"
	"strings"
	"sync/atomic"

	"golang.org/x/tools/go/ssa"
)

func one(st *State) ([]*State, []*Term) { return []*State{st}, []*Term{TTrue} }

func (x *Exec) call(st *State, i *ssa.Call) ([]*State, []*Term) {
	fr := st.top()
	cc := &i.Call
	if b, ok := cc.Value.(*ssa.Builtin); ok {
		fr.env[i] = x.builtin(st, b.Name(), i)
		return one(st)
	}
	if cc.IsInvoke() {
		return x.invoke(st, i)
	}
	var args []SV
	for _, a := range cc.Args {
		args = append(args, x.val(st, a))
	}
	if fn := cc.StaticCallee(); fn != nil {
		var binds []SV
		if c, ok := x.val(st, cc.Value).(ClosV); ok {
			binds = c.binds
		}
		return x.callFn(st, i, i.Pos(), fn, args, binds)
	}
	switch f := x.val(st, cc.Value).(type) {
	case ClosV:
		return x.callFn(st, i, i.Pos(), f.fn, args, f.binds)
	case *Term:
		return x.callDyn(st, i, f, args)
	}
	unsup("call through %T", x.val(st, cc.Value))
	return nil, nil
}

func (x *Exec) builtin(st *State, name string, i *ssa.Call) SV {
	a := i.Call.Args
	switch name {
	case "len", "cap":
		v := x.val(st, a[0])
		switch s := v.(type) {
		case *Term:
			if s.Sort.Kind == "seq" {
				return SLen(s)
			}
			if s.Sort.Kind == "map" {
				return AppR("mlen_"+s.Sort.Name, SInt, big0, maxLen, s)
			}
		case SliceV:
			return s.n
		case *nilSlice:
			return TInt(0)
		case *ArrV:
			return TInt(int64(len(s.e)))
		case MapV:
			m := st.mem[s.reg].val.(*MapVal)
			if m.base == nil && !m.fuzzy {
				return TInt(int64(len(m.ents)))
			}
		case Ptr:
			if arr, ok := derefT(a[0].Type()).Underlying().(*types.Array); ok {
				return TInt(arr.Len())
			}
		}
		unsup("len of %T", v)
	case "min", "max":
		r := x.tval(st, a[0])
		for _, b := range a[1:] {
			o := x.tval(st, b)
			if r.Sort != SInt {
				unsup("min/max of %s", r.Sort)
			}
			if name == "min" {
				r = Ite(Le(r, o), r, o)
			} else {
				r = Ite(Le(o, r), r, o)
			}
		}
		return r
	case "append":
		return x.appendTo(st, x.val(st, a[0]), x.val(st, a[1]), a[0].Type(), a[1].Type(), i.Pos())
	case "copy":
		d, ok := x.val(st, a[0]).(SliceV)
		if !ok {
			if t, ok := x.val(st, a[0]).(*Term); ok {
				x.emit(st, "frame", "shared-value-mutated", i.Pos(), Eq(SLen(t), TInt(0)), "frame")
				return TInt(0)
			}
			unsup("copy to %T", x.val(st, a[0]))
		}
		src := x.peekTerm(st, x.val(st, a[1]), a[1].Type())
		n := Ite(Le(d.n, SLen(src)), d.n, SLen(src))
		if st.decide(Le(SLen(src), d.n)) == TTrue {
			n = SLen(src)
		}
		r := st.mem[d.reg]
		x.noteWrite(st, d.reg)
		base := x.regSeq(st, r)
		nv := catOf(base.Sort, []*Term{SSub(base, TInt(0), d.lo), SSub(src, TInt(0), n), SSub(base, Add(d.lo, n), SLen(base))})
		c := *r
		c.val = nv
		st.mem[d.reg] = &c
		return n
	case "ssa:wrapnilchk":
		return x.val(st, a[0])
	case "print", "println":
		return nil
	}
	unsup("builtin %s", name)
	return nil
}

func (x *Exec) regSeq(st *State, r *Region) *Term {
	switch b := r.val.(type) {
	case *Term:
		return b
	case *ArrV:
		return x.arrTerm(st, b)
	}
	unsup("sequence view of %T", r.val)
	return nil
}

// peekTerm converts to a term without marking regions as shared.
func (x *Exec) peekTerm(st *State, v SV, t types.Type) *Term {
	o := st.spec
	st.spec = true
	defer func() { st.spec = o }()
	if n, ok := v.(*nilSlice); ok {
		if s := sortOf(n.t); s != nil {
			return TEmpty(s)
		}
	}
	return x.term(st, v, t)
}

func (x *Exec) noteWrite(st *State, reg int) {
	r := st.mem[reg]
	if x.joinLow > 0 && reg <= x.joinLow {
		panic(joinFail{"write"})
	}
	if r.carried && !st.spec {
		unsup("write to a slice carried around a loop")
	}
	if r.frozen && !st.spec {
		x.emit(st, "frame", "shared-value-mutated", token.NoPos, TFalse, "frame")
	}
	for _, ec := range x.explore {
		if reg <= ec.low {
			ec.note(Ptr{reg: reg})
		}
	}
}

func (x *Exec) appendTo(st *State, base, ext SV, bt, et types.Type, ps token.Pos) SV {
	ss := sortOf(bt)
	if s, ok := ext.(*nilSlice); ok {
		_ = s
		return base
	}
	newReg := func(v SV, n *Term) SV {
		var null *Term
		if t, ok := base.(*Term); !ok || !st.spec {
			if ok && t.Op == "sempty" {
				null = Eq(n, TInt(0))
			} else if g := And(x.isNil(st, base, bt), Eq(n, TInt(0))); g != TFalse {
				null = g
			}
		}
		return SliceV{reg: x.newReg(st, bt, v), lo: TInt(0), n: n, typ: bt, null: null}
	}
	// concrete element lists without a sort
	if ss == nil {
		var es []SV
		get := func(v SV) bool {
			switch a := v.(type) {
			case *nilSlice:
				return true
			case SliceV:
				arr, ok := st.mem[a.reg].val.(*ArrV)
				if !ok || !a.lo.isInt() || !a.n.isInt() {
					return false
				}
				lo, n := a.lo.I.Int64(), a.n.I.Int64()
				es = append(es, arr.e[lo:lo+n]...)
				return true
			}
			return false
		}
		if !get(base) || !get(ext) {
			unsup("append to %s", bt)
		}
		el := bt.Underlying().(*types.Slice).Elem()
		return newReg(&ArrV{typ: types.NewArray(el, int64(len(es))), e: es}, TInt(int64(len(es))))
	}
	var add *Term
	if sortOf(et) == SStr {
		add = x.peekTerm(st, ext, et)
	} else {
		add = x.peekElems(st, ext, et)
	}
	switch b := base.(type) {
	case *nilSlice:
		return newReg(add, SLen(add))
	case *Term:
		if b.Op != "sempty" && !st.spec {
			x.emit(st, "frame", "append-to-shared-slice", ps, Eq(SLen(b), TInt(0)), "frame")
			// afterwards the base is empty
			return newReg(add, SLen(add))
		}
		if st.spec {
			return SCat(b, add)
		}
		return newReg(add, SLen(add))
	case SliceV:
		r := st.mem[b.reg]
		seq := x.regSeq(st, r)
		cur := SSub(seq, b.lo, Add(b.lo, b.n))
		if b.lo.isInt() && b.lo.I.Sign() == 0 && st.decide(Eq(b.n, SLen(seq))) == TTrue {
			cur = seq
		}
		if !st.spec && !b.full {
			if r.moved || r.frozen {
				// another owner of the same backing array may exist
				x.emit(st, "frame", "append-to-shared-slice", ps, Eq(b.n, TInt(0)), "frame")
			} else if st.decide(Eq(Add(b.lo, b.n), SLen(seq))) != TTrue {
				x.emit(st, "frame", "append-overwrites-elements", ps, Eq(Add(b.lo, b.n), SLen(seq)), "frame")
			}
			for _, ec := range x.explore {
				if b.reg <= ec.low {
					ec.note(Ptr{reg: b.reg})
				}
			}
			if x.joinLow > 0 && b.reg <= x.joinLow {
				panic(joinFail{"append"})
			}
			c := *r
			c.moved = true
			st.mem[b.reg] = &c
		}
		n := SCat(cur, add)
		return newReg(n, SLen(n))
	}
	unsup("append to %T", base)
	return nil
}

// peekElems converts the appended elements; value objects become shared.
func (x *Exec) peekElems(st *State, v SV, t types.Type) *Term {
	switch a := v.(type) {
	case SliceV:
		r := st.mem[a.reg]
		if arr, ok := r.val.(*ArrV); ok && a.lo.isInt() && a.n.isInt() {
			el := t.Underlying().(*types.Slice).Elem()
			ss := seqOfElem(el)
			var xs []*Term
			lo, n := a.lo.I.Int64(), a.n.I.Int64()
			for _, e := range arr.e[lo : lo+n] {
				xs = append(xs, SUnit(ss, normErrs(st, x.term(st, e, el))))
			}
			return catOf(ss, xs)
		}
	}
	return x.peekTerm(st, v, t)
}

func (x *Exec) invoke(st *State, i *ssa.Call) ([]*State, []*Term) {
	fr := st.top()
	cc := &i.Call
	recv := x.val(st, cc.Value)
	var args []SV
	for _, a := range cc.Args {
		args = append(args, x.val(st, a))
	}
	mname := cc.Method.Name()
	dispatch := func(st *State, t types.Type, v SV) ([]*State, []*Term) {
		m := x.e.prog.LookupMethod(t, cc.Method.Pkg(), mname)
		if m == nil {
			unsup("method %s of %s", mname, t)
		}
		return x.callFn(st, i, i.Pos(), m, append([]SV{v}, args...), nil)
	}
	switch r := recv.(type) {
	case IfaceV:
		if h := ioMethod(x, st, i, r.v, mname, args); h != nil {
			x.setResult(st, i, h)
			return one(st)
		}
		return dispatch(st, r.typ, r.v)
	case *Term:
		switch r.Sort {
		case SErr:
			x.emit(st, "nil", "error value is non-nil", i.Pos(), Not(Eq(r, ErrNil)), "safety")
			if mname == "Error" {
				fr.env[i] = App("err.Error", SStr, r)
				return one(st)
			}
		case SVal:
			x.emit(st, "nil", "value is non-nil", i.Pos(), Not(st.decide(Is("VNil", r))), "safety")
			names := map[string]string{"VStr": "String", "VNum": "Number", "VSym": "Symbol", "VLst": "List"}
			var sts []*State
			var cs []*Term
			for _, c := range []string{"VStr", "VNum", "VSym", "VLst"} {
				is := st.decide(Is(c, r))
				if is == TFalse {
					continue
				}
				n := st
				if is != TTrue {
					n = st.clone()
					n.assume(is)
				}
				s2, c2 := dispatch(n, types.NewPointer(x.e.edlType(names[c])), r)
				for k := range s2 {
					sts = append(sts, s2[k])
					cs = append(cs, And(is, c2[k]))
				}
				if is == TTrue {
					break
				}
			}
			return sts, cs
		}
		if h := ioMethod(x, st, i, r, mname, args); h != nil {
			x.setResult(st, i, h)
			return one(st)
		}
	}
	unsup("interface call %s on %T", cc.Method.FullName(), recv)
	return nil, nil
}

func (x *Exec) callDyn(st *State, i *ssa.Call, f *Term, args []SV) ([]*State, []*Term) {
	if f == FnNil {
		x.emit(st, "nil", "nil function call", i.Pos(), TFalse, "safety")
	}
	tn := typeName(i.Call.Value.Type())
	switch tn {
	case edl + ".BuiltinFn":
		return x.applyBuiltin(st, i, f, args)
	case edl + ".TraceCallback":
		x.e.trust("trace callbacks do not modify the buffer (TraceCallback is caller-supplied)")
		return one(st)
	}
	unsup("call through a function value of type %s", tn)
	return nil, nil
}

// applyBuiltin models a call of an arbitrary built-in: a total function of
// its arguments and the buffer that keeps the buffer invariant (which is what
// every registered built-in is verified to do).
func (x *Exec) applyBuiltin(st *State, i *ssa.Call, f *Term, args []SV) ([]*State, []*Term) {
	p, ok := args[1].(Ptr)
	if !ok {
		unsup("built-in called without a buffer")
	}
	at := x.term(st, args[0], i.Call.Args[0].Type())
	x.emit(st, "pre", "arguments of the called function are well formed", i.Pos(), App("wfvs", SBool, at), "safety")
	if inv := x.e.inv[typeName(x.ptrElem(st, p))]; inv != nil {
		x.emit(st, "pre", "buffer invariant at the call of the function", i.Pos(), x.e.evalSpec(inv, []SV{p}, st)[0].(*Term), "inv")
	}
	abs := x.absOf(st, p)
	nb, v, er := x.builtinApp(st, f, at, abs)
	x.concretize(st, p, nb)
	okT := st.decide(Eq(er, ErrNil))
	if okT == TFalse {
		x.setResult(st, i, []SV{Mk("VNil"), er})
		return one(st)
	}
	s1 := st.clone()
	if okT == TTrue {
		s1 = st
	}
	s1.assume(okT)
	s1.assume(App("wfv", SBool, v))
	x.setResult(s1, i, []SV{v, ErrNil})
	if s1 == st {
		return one(st)
	}
	s2 := st
	s2.assume(Not(okT))
	x.setResult(s2, i, []SV{Mk("VNil"), er})
	return []*State{s1, s2}, []*Term{okT, TTrue}
}

func (x *Exec) builtinApp(st *State, f, args *Term, buf SV) (nb SV, v, er *Term) {
	sv := buf.(*StructV)
	bt := x.term(st, sv, sv.typ)
	as := []*Term{f, args, bt}
	r := App("apply.buf", bt.Sort, as...)
	return x.fromTerm(sv.typ, r), App("apply.val", SVal, as...), App("apply.err", SErr, as...)
}

// absOf evaluates the abstraction function of the object p points to.
func (x *Exec) absOf(st *State, p SV) SV {
	t := x.ptrElem(st, p)
	a := x.e.abs[typeName(t)]
	if a == nil {
		unsup("no abstraction for %s", t)
	}
	return x.normAbs(st, x.e.evalSpec(a, []SV{p}, st)[0])
}

// normAbs makes every component of an abstract value a term.
func (x *Exec) normAbs(st *State, v SV) SV {
	s, ok := v.(*StructV)
	if !ok {
		return v
	}
	u := s.typ.Underlying().(*types.Struct)
	n := &StructV{typ: s.typ}
	for i, f := range s.f {
		switch f.(type) {
		case *Term:
		case *StructV:
			f = x.normAbs(st, f)
		default:
			f = x.peekTerm(st, f, u.Field(i).Type())
		}
		n.f = append(n.f, f)
	}
	return n
}

// errRel: the actual error is as the specification says.
func errRel(want, got *Term) *Term {
	if want == AnyErr {
		return Not(Eq(got, ErrNil))
	}
	return And(Eq(Eq(want, ErrNil), Eq(got, ErrNil)), Or(Eq(want, AnyErr), Eq(want, got)))
}

// failureSpec: a specified error result that describes an error object.
func failureSpec(v SV) (*StructV, bool) {
	s, ok := v.(*StructV)
	if !ok || len(s.f) == 0 {
		return nil, false
	}
	t, ok := s.f[0].(*Term)
	return s, ok && t.Sort == SBool
}

// errObject finds the error type whose abstraction is the given struct.
func (e *Engine) errObject(t types.Type) types.Type {
	for _, f := range e.abs {
		if types.Identical(f.Signature.Results().At(0).Type(), t) {
			return f.Signature.Params().At(0).Type()
		}
	}
	unsup("no error type is abstracted by %s", t)
	return nil
}

func (x *Exec) ptrElem(st *State, p SV) types.Type {
	switch a := p.(type) {
	case Ptr:
		t := st.mem[a.reg].typ
		for _, pe := range a.path {
			if pe.idx == nil {
				t = t.Underlying().(*types.Struct).Field(pe.field).Type()
			} else {
				unsup("pointer into array")
			}
		}
		return t
	case PtrNil:
		return derefT(a.t)
	}
	unsup("pointer %T", p)
	return nil
}

func leaves(v SV) []*Term {
	switch a := v.(type) {
	case *Term:
		return []*Term{a}
	case *StructV:
		var out []*Term
		for _, f := range a.f {
			out = append(out, leaves(f)...)
		}
		return out
	}
	unsup("leaf of %T", v)
	return nil
}

func leafNames(t types.Type, v SV) []string {
	if s, ok := v.(*StructV); ok {
		u := s.typ.Underlying().(*types.Struct)
		var out []string
		for i, f := range s.f {
			if _, nested := f.(*StructV); nested {
				for _, n := range leafNames(u.Field(i).Type(), f) {
					out = append(out, u.Field(i).Name()+"."+n)
				}
			} else {
				out = append(out, u.Field(i).Name())
			}
		}
		return out
	}
	return []string{"value"}
}

func substSV(v SV, m map[*Term]*Term) SV {
	switch a := v.(type) {
	case *Term:
		return subst(a, m)
	case *StructV:
		n := &StructV{typ: a.typ}
		for _, f := range a.f {
			n.f = append(n.f, substSV(f, m))
		}
		return n
	case *ArrV:
		n := &ArrV{typ: a.typ}
		for _, f := range a.e {
			n.e = append(n.e, substSV(f, m))
		}
		return n
	case SliceV:
		return SliceV{reg: a.reg, lo: subst(a.lo, m), n: subst(a.n, m), typ: a.typ, full: a.full, null: substNull(a.null, m)}
	case IfaceV:
		return IfaceV{a.typ, substSV(a.v, m)}
	case TupV:
		var n TupV
		for _, f := range a {
			n = append(n, substSV(f, m))
		}
		return n
	case *IterVal:
		n := *a
		if n.s != nil {
			n.s = subst(n.s, m)
		}
		n.pos = subst(n.pos, m)
		return &n
	case ElemPtr:
		return ElemPtr{seq: subst(a.seq, m), idx: subst(a.idx, m), typ: a.typ, path: a.path}
	case ValPtr:
		return ValPtr{subst(a.t, m), a.ctor, a.fi}
	}
	return v
}

// concretize overwrites the object p points to by one whose abstraction is nb.
func (x *Exec) concretize(st *State, p SV, nb SV) {
	pp, ok := p.(Ptr)
	if !ok || len(pp.path) != 0 {
		unsup("abstract object is not a whole region")
	}
	r := st.mem[pp.reg]
	x.noteWrite(st, pp.reg)
	c := *r
	c.val = x.freshVal(st, r.typ, "new")
	st.mem[pp.reg] = &c
	x.installAbs(st, pp, nb)
}

func (x *Exec) installAbs(st *State, pp Ptr, nb SV) {
	r := st.mem[pp.reg]
	a := x.absOf(st, pp)
	la, ln := leaves(a), leaves(nb)
	if len(la) != len(ln) {
		unsup("abstraction shape")
	}
	m := map[*Term]*Term{}
	for i := range la {
		if la[i].Op == "var" && m[la[i]] == nil {
			m[la[i]] = ln[i]
		} else {
			st.assume(subst(Eq(la[i], ln[i]), m))
		}
	}
	c := *r
	c.val = substSV(r.val, m)
	st.mem[pp.reg] = &c
	if inv := x.e.inv[typeName(r.typ)]; inv != nil {
		st.assume(x.e.evalSpec(inv, []SV{pp}, st)[0].(*Term))
	}
}

func (x *Exec) callFn(st *State, i ssa.Value, ps token.Pos, fn *ssa.Function, args []SV, binds []SV) ([]*State, []*Term) {
	name := fn.String()
	if o := fn.Origin(); o != nil {
		name = o.String()
	}
	if x.e.specFn[fn] || (fn.Origin() != nil && x.e.specFn[fn.Origin()]) {
		switch fn.Name() {
		case "trig":
			v := args[0]
			if iv, ok := v.(IfaceV); ok {
				v = iv.v
			}
			if trigOut != nil {
				for _, t := range leaves(v) {
					if t.Op == "app" && strings.HasPrefix(t.S, "anyof_") {
						t = t.Args[0]
					}
					*trigOut = append(*trigOut, t)
				}
			}
			x.setResult(st, i, []SV{TTrue})
			return one(st)
		case "applyBuiltin", "ApplyBuiltin":
			nb, v, er := x.builtinApp(st, args[0].(*Term), x.term(st, args[1], fn.Params[1].Type()), args[2])
			x.setResult(st, i, []SV{nb, v, er})
			return one(st)
		case "sameVals", "sameStrs":
			ts := make([]*Term, 2)
			for k := range ts {
				ts[k] = x.peekTerm(st, args[k], fn.Params[k].Type())
			}
			x.setResult(st, i, []SV{Eq(ts[0], ts[1])})
			return one(st)
		case "anyError":
			x.setResult(st, i, []SV{AnyErr})
			return one(st)
		case "wfv", "wfvs":
			x.setResult(st, i, []SV{App(fn.Name(), SBool, x.term(st, args[0], fn.Params[0].Type()))})
			return one(st)
		}
	}
	if st.globs != nil && fn.Name() == "init" && fn.Signature.Recv() == nil && fn.Pkg != nil && fn.Pkg != st.globs.pkg && fn.Synthetic != "" {
		return one(st) // initialisation of an imported package
	}
	if h := externs[name]; h != nil {
		res := h(x, st, i, ps, args, fn)
		x.setResult(st, i, res)
		return one(st)
	}
	if res, ok := x.worldOp(st, i, ps, name, args, fn); ok {
		x.setResult(st, i, res)
		return one(st)
	}
	if s, m, ok := x.writeTo(st, name, args); ok {
		b := SliceV{reg: x.newReg(st, bytesT, s), lo: TInt(0), n: SLen(s), typ: bytesT}
		if m.Name() == "WriteString" {
			return x.callFn(st, i, ps, m, []SV{args[0].(IfaceV).v, s}, nil)
		}
		return x.callFn(st, i, ps, m, []SV{args[0].(IfaceV).v, b}, nil)
	}
	if m := x.e.models[name]; m != nil {
		x.e.trust("library function " + name + " behaves as the model " + m.Name() + " in the contract files")
		return x.inline(st, i, m, args, nil)
	}
	if c := x.e.contr[fn]; c != nil && !c.Inline && !c.Final && st.globs == nil && !st.spec && x.concrete == nil {
		return x.applyContract(st, i, ps, c, args)
	}
	if x.e.recSpec[fn] && !st.reveals(fn) {
		x.setResult(st, i, x.e.specApp(x, st, fn, args))
		return one(st)
	}
	if len(fn.Blocks) > 0 && (x.e.specFn[fn] || x.repoFn(fn)) {
		return x.inline(st, i, fn, args, binds)
	}
	if pureExtern(name) {
		x.e.trust("library function " + name + " behaves as a pure total function of its arguments")
		var ts []*Term
		for k, a := range args {
			var t types.Type
			if k < len(fn.Params) {
				t = fn.Params[k].Type()
			} else {
				t = sigParam(fn, k)
			}
			ts = append(ts, x.term(st, a, t))
		}
		x.setResult(st, i, x.ufResults(name, fn.Signature.Results(), ts))
		return one(st)
	}
	unsup("call of %s", name)
	return nil, nil
}

func sigParam(fn *ssa.Function, k int) types.Type {
	s := fn.Signature
	if s.Recv() != nil {
		if k == 0 {
			return s.Recv().Type()
		}
		k--
	}
	return s.Params().At(k).Type()
}

func (x *Exec) ufResults(name string, rs *types.Tuple, ts []*Term) []SV {
	var res []SV
	for k := 0; k < rs.Len(); k++ {
		t := rs.At(k).Type()
		s := sortOf(t)
		if s == nil {
			unsup("result of %s", name)
		}
		n := name
		if rs.Len() > 1 {
			n += fmt.Sprintf("#%d", k)
		}
		lo, hi := (*big.Int)(nil), (*big.Int)(nil)
		if s == SInt {
			lo, hi = intRange(t)
		}
		res = append(res, AppR(n, s, lo, hi, ts...))
	}
	return res
}

func (x *Exec) repoFn(fn *ssa.Function) bool {
	f := fn
	for f.Parent() != nil {
		f = f.Parent()
	}
	if o := f.Origin(); o != nil {
		f = o
	}
	if f.Pkg != nil {
		return strings.HasPrefix(f.Pkg.Pkg.Path(), modPath)
	}
	// synthetic wrappers
	if f.Synthetic != "" && f.Object() != nil && f.Object().Pkg() != nil {
		return strings.HasPrefix(f.Object().Pkg().Path(), modPath)
	}
	return false
}

func (x *Exec) inline(st *State, i ssa.Value, fn *ssa.Function, args, binds []SV) ([]*State, []*Term) {
	if !st.spec {
		n := 0
		for _, f := range st.fr {
			if f.fn == fn {
				n++
			}
		}
		if n > 0 && x.concrete == nil {
			unsup("recursive function %s has no contract", fn)
		}
	}
	if len(st.fr) > 60 {
		unsup("call depth")
	}
	mk := func() *Frame {
		fr := &Frame{fn: fn, env: map[ssa.Value]SV{}, blk: fn.Blocks[0], cuts: map[*ssa.BasicBlock]*Cut{}, visits: map[*ssa.BasicBlock]int{}, call: i}
		for k, p := range fn.Params {
			fr.env[p] = args[k]
		}
		for k, p := range fn.FreeVars {
			fr.env[p] = binds[k]
		}
		return fr
	}
	if x.concrete == nil && !x.joinBad[fn] && x.joinable(fn) {
		if res, ok := x.tryJoin(st, fn, mk()); ok {
			if res == nil {
				return nil, nil
			}
			x.setResult(st, i, res)
			return one(st)
		}
	}
	st.fr = append(st.fr, mk())
	return one(st)
}

func (x *Exec) joinable(fn *ssa.Function) bool {
	if len(x.e.loops(fn)) > 0 {
		return false
	}
	rs := fn.Signature.Results()
	if rs.Len() == 0 {
		return false
	}
	for k := 0; k < rs.Len(); k++ {
		if isErrorType(rs.At(k).Type()) {
			return false
		}
	}
	return true
}

func (x *Exec) tryJoin(st *State, fn *ssa.Function, fr *Frame) (res []SV, ok bool) {
	no := len(x.obls)
	oldLow := x.joinLow
	lowNow := int(atomic.LoadInt64(&regCounter))
	po := x.ptrOut
	x.ptrOut = false
	defer func() {
		x.joinLow, x.ptrOut = oldLow, po
		if r := recover(); r != nil {
			if _, j := r.(joinFail); j {
				x.obls = x.obls[:no]
				x.joinBad[fn] = true
				res, ok = nil, false
				return
			}
			panic(r)
		}
	}()
	n := st.clone()
	n.fr = append(n.fr, fr)
	if oldLow == 0 || lowNow > oldLow {
		x.joinLow = lowNow
	}
	low := x.joinLow
	res = x.run(n, &handler{base: len(n.fr), join: true, retJoin: func(s *State, rs []SV) []SV {
		o := x.joinLow
		x.joinLow = low
		defer func() { x.joinLow = o }()
		for _, r := range rs {
			if sl, ok := r.(SliceV); ok && sl.reg <= low && !s.mem[sl.reg].frozen {
				panic(joinFail{"slice of the caller as result"})
			}
		}
		return x.joinResults(s, rs, fn.Signature.Results())
	}})
	return res, true
}

// specArgs maps the arguments of a target to those of its specification.
func (x *Exec) specArgs(st *State, c *Contract, args []SV) []SV {
	var out []SV
	sp := c.Spec.Params
	k := 0
	if c.World {
		out = append(out, x.worldVal(st, sp[0].Type()))
		k = 1
	}
	for j, a := range args {
		if k >= len(sp) {
			unsup("contract of %s has too few parameters", c.Name)
		}
		if el := x.standIn(c, j); el != nil {
			if stdFile(a) == "os.Stdout" {
				f, _ := x.worldSlot(st, sp[k].Type())
				out = append(out, st.mem[worldReg].val.(*StructV).f[f])
				k++
				continue
			}
			iv, ok := a.(IfaceV)
			if !ok || !types.Identical(iv.typ, types.NewPointer(el)) {
				unsup("argument %d of %s is not a %s", j, c.Name, el)
			}
			a = iv.v
		}
		st0 := sp[k].Type()
		if p, ok := a.(Ptr); ok {
			el := x.ptrElem(st, p)
			if x.e.abs[typeName(el)] != nil && !types.IsInterface(st0) {
				if _, isPtr := st0.Underlying().(*types.Pointer); !isPtr {
					out = append(out, x.absOf(st, p))
					k++
					continue
				}
			}
		}
		if sp[k].Type().Underlying() != nil {
			out = append(out, a)
		}
		k++
	}
	if k != len(sp) {
		unsup("contract of %s has %d parameters, expected %d", c.Name, len(sp), k)
	}
	return out
}

type absParam struct {
	idx int
	std int // one more than the component of the world that is meant
	ptr Ptr
	ro  bool
}

func (x *Exec) absParams(st *State, c *Contract, args []SV) []absParam {
	var out []absParam
	for i, a := range args {
		if x.standIn(c, i) != nil {
			if stdFile(a) == "os.Stdout" {
				off := len(c.Spec.Params) - len(c.Target.Params)
				f, _ := x.worldSlot(st, c.Spec.Params[i+off].Type())
				out = append(out, absParam{idx: i, std: f + 1})
				continue
			}
			if iv, ok := a.(IfaceV); ok {
				a = iv.v
			}
		}
		if p, ok := a.(Ptr); ok {
			n := typeName(x.ptrElem(st, p))
			if x.e.abs[n] != nil {
				out = append(out, absParam{idx: i, ptr: p, ro: x.e.absRO[n]})
			}
		}
	}
	return out
}

// sinkBuilders replaces string builders passed where a contract stands for any
// destination by such a destination that has room for everything; the function
// returned carries what was written back to the builders.
func (x *Exec) sinkBuilders(st *State, c *Contract, args []SV, ps token.Pos) func() {
	var done []func()
	for j, a := range args {
		el := x.standIn(c, j)
		iv, ok := a.(IfaceV)
		if el == nil || !ok || iv.typ == nil {
			continue
		}
		pt, ok := iv.typ.(*types.Pointer)
		if !ok || typeName(pt.Elem()) != "strings.Builder" && typeName(pt.Elem()) != "bytes.Buffer" {
			continue
		}
		su, ok := el.Underlying().(*types.Struct)
		if !ok {
			continue
		}
		v := &StructV{typ: el}
		text := -1
		for k := 0; k < su.NumFields(); k++ {
			switch b, _ := su.Field(k).Type().(*types.Basic); {
			case b != nil && b.Kind() == types.String && text < 0:
				text = k
				v.f = append(v.f, x.load(st, iv.v, builderType, ps))
			case b != nil && b.Kind() == types.Int:
				v.f = append(v.f, TInt(1<<62))
			default:
				unsup("destination of %s", c.Name)
			}
		}
		if text < 0 {
			unsup("destination of %s", c.Name)
		}
		p := Ptr{reg: x.newReg(st, el, v)}
		args[j] = IfaceV{types.NewPointer(el), p}
		done = append(done, func() {
			s, ok := st.mem[p.reg].val.(*StructV)
			if !ok {
				unsup("destination of %s afterwards", c.Name)
			}
			x.store(st, iv.v, s.f[text], builderType, ps)
		})
	}
	return func() {
		for _, f := range done {
			f()
		}
	}
}

func (x *Exec) applyContract(st *State, i ssa.Value, ps token.Pos, c *Contract, args []SV) ([]*State, []*Term) {
	if x.joinLow > 0 {
		panic(joinFail{"contract call"})
	}
	x.callsSeen[c.Name] = true
	// value arguments are shared with the callee
	sig := c.Target.Signature
	for k, a := range args {
		if x.standIn(c, k) != nil {
			continue
		}
		switch a.(type) {
		case SliceV, IfaceV:
			if s := sortOf(c.Target.Params[k].Type()); s != nil && s.Kind != "opaque" {
				args[k] = x.term(st, a, c.Target.Params[k].Type())
			}
		case Ptr:
			if valCtor(c.Target.Params[k].Type()) != "" {
				args[k] = x.term(st, a, c.Target.Params[k].Type())
			}
		}
		if t, ok := args[k].(*Term); ok {
			switch t.Sort {
			case SVal:
				if !c.NoWf && !x.nilOK(c, k) {
					x.emit(st, "pre", "value argument of "+c.Name+" is well formed", ps, App("wfv", SBool, t), "safety")
				}
			case SVals:
				if c.NoWf {
					break
				}
				x.emit(st, "pre", "value arguments of "+c.Name+" are well formed", ps, App("wfvs", SBool, t), "safety")
			}
		}
	}
	back := x.sinkBuilders(st, c, args, ps)
	sargs := x.specArgs(st, c, args)
	if c.Pre != nil {
		g := x.e.evalSpec(c.Pre, sargs, st)[0].(*Term)
		x.emit(st, "pre", "precondition of "+c.Name, ps, g, "safety")
	}
	aps := x.absParams(st, c, args)
	for _, ap := range aps {
		if ap.std > 0 {
			continue
		}
		if inv := x.e.inv[typeName(x.ptrElem(st, ap.ptr))]; inv != nil && !c.Raw {
			g := x.e.evalSpec(inv, []SV{ap.ptr}, st)[0].(*Term)
			x.emit(st, "pre", "invariant at call of "+c.Name, ps, g, "inv")
		}
	}
	if x.contract != nil && c.Target == x.fn || (x.contract != nil && c.Measure != nil && x.contract.Measure != nil) {
		x.decreases(st, c, sargs, ps)
	}
	res := x.e.evalSpec(c.Spec, sargs, st)
	if c.World {
		x.setWorld(st, res[0])
		res = res[1:]
	}
	for _, ap := range aps {
		if ap.ro {
			continue
		}
		if len(res) == 0 {
			unsup("contract of %s lacks the object result", c.Name)
		}
		if ap.std > 0 {
			x.setWorldSlot(st, ap.std-1, res[0])
		} else {
			x.concretize(st, ap.ptr, res[0])
		}
		res = res[1:]
	}
	back()
	rs := sig.Results()
	if len(res) != rs.Len() {
		unsup("contract of %s has %d results, expected %d", c.Name, len(res), rs.Len())
	}
	var okT *Term
	for k := 0; k < rs.Len(); k++ {
		if isErrorType(rs.At(k).Type()) {
			if b, ok := res[k].(*Term); ok && b.Sort == SBool {
				okT = b
			} else if ok && b.Sort == SErr {
				okT = Eq(b, ErrNil)
			} else if f, ok := failureSpec(res[k]); ok {
				okT = Not(f.f[0].(*Term))
			}
		}
	}
	mk := func(s *State, good bool) []SV {
		var out []SV
		for k := 0; k < rs.Len(); k++ {
			t := rs.At(k).Type()
			if isErrorType(t) && okT != nil {
				if good {
					out = append(out, ErrNil)
				} else if f, ok := failureSpec(res[k]); ok {
					et := x.e.errObject(f.typ)
					obj := Ptr{reg: x.newReg(s, derefT(et), x.freshVal(s, derefT(et), "failure"))}
					nf := &StructV{typ: f.typ}
					for j, w := range f.f {
						if t, ok := w.(*Term); ok && t.Sort == SErr {
							e := TVar(x.freshName("err"), SErr)
							s.assume(errRel(t, e))
							w = e
						}
						if j == 0 {
							w = TTrue
						}
						nf.f = append(nf.f, w)
					}
					x.installAbs(s, obj, nf)
					out = append(out, IfaceV{typ: et, v: obj})
				} else {
					e := TVar(x.freshName("err"), SErr)
					if b, ok := res[k].(*Term); ok && b.Sort == SErr {
						s.assume(errRel(b, e))
					}
					s.assume(Not(Eq(e, ErrNil)))
					out = append(out, e)
				}
				continue
			}
			if !good {
				out = append(out, x.freshVal(s, t, "bad"))
				continue
			}
			v := res[k]
			if pt, ok := t.Underlying().(*types.Pointer); ok && x.e.abs[typeName(pt.Elem())] != nil {
				if sv, ok := v.(*StructV); ok { // a new object
					obj := Ptr{reg: x.newReg(s, pt.Elem(), x.freshVal(s, pt.Elem(), "new"))}
					nf := &StructV{typ: sv.typ}
					for _, w := range sv.f {
						if t, ok := w.(*Term); ok && t.Sort == SErr {
							e := TVar(x.freshName("err"), SErr)
							s.assume(errRel(t, e))
							w = e
						}
						nf.f = append(nf.f, w)
					}
					x.installAbs(s, obj, nf)
					out = append(out, obj)
					continue
				}
			}
			if so := sortOf(t); so != nil && so.Kind != "opaque" {
				if _, isS := v.(*StructV); !isS {
					tt := x.peekTerm(s, v, t)
					if tt.Sort == SVal && !c.NoWf {
						s.assume(App("wfv", SBool, tt))
					}
					if tt.Sort == SVals && !c.NoWf {
						s.assume(App("wfvs", SBool, tt))
					}
					v = tt
				}
			}
			out = append(out, v)
		}
		return out
	}
	if okT == nil {
		x.setResult(st, i, mk(st, true))
		return one(st)
	}
	okT = st.decide(okT)
	if okT == TTrue || okT == TFalse {
		x.setResult(st, i, mk(st, okT == TTrue))
		return one(st)
	}
	s1 := st.clone()
	s1.assume(okT)
	x.setResult(s1, i, mk(s1, true))
	st.assume(Not(okT))
	x.setResult(st, i, mk(st, false))
	return []*State{s1, st}, []*Term{okT, TTrue}
}

// nilOK: contracts may opt out of the non-nil assumption on value parameters
// by naming the parameter with suffix "OrNil".
func (x *Exec) nilOK(c *Contract, k int) bool {
	off := 0
	if c.World {
		off = 1
	}
	return k+off < len(c.Spec.Params) && strings.HasSuffix(c.Spec.Params[k+off].Name(), "OrNil")
}

func (x *Exec) decreases(st *State, c *Contract, sargs []SV, ps token.Pos) {
	if c.Measure == nil || x.contract.Measure == nil {
		// structural recursion: some argument is a strict part of a parameter
		ok := false
		for k, a := range sargs {
			t, isT := a.(*Term)
			if !isT || k >= len(x.specEntry) {
				continue
			}
			p, isP := x.specEntry[k].(*Term)
			if isP && strictPart(t, p) {
				ok = true
			}
		}
		if !ok {
			x.emit(st, "term", "recursive call decreases", ps, TFalse, "safety")
		} else if x.quiet == 0 && !st.spec {
			x.obls = append(x.obls, &Obligation{Fn: x.fn.String(), Kind: "term", Name: "recursive call decreases", Pos: pos(st.top().fn, ps), Goal: TTrue, Tags: []string{"safety"}})
		}
		return
	}
	m1 := x.e.evalSpec(c.Measure, sargs, st)[0].(*Term)
	m0 := x.e.evalSpec(x.contract.Measure, x.specEntry, st)[0].(*Term)
	x.emit(st, "term", "recursive call decreases", ps, And(Le(TInt(0), m0), Lt(m1, m0)), "safety")
}

func strictPart(t, p *Term) bool {
	switch t.Op {
	case "ite":
		return (t.Args[1].Op == "mk" || strictPart(t.Args[1], p)) && (t.Args[2].Op == "mk" || strictPart(t.Args[2], p))
	case "get", "sat", "ssub":
		b := t.Args[0]
		if t.Op == "ssub" {
			return strictPart(b, p)
		}
		return b == p || strictPart(b, p) || b.Op == "ssub" && b.Args[0] == p
	}
	return false
}

func substNull(t *Term, m map[*Term]*Term) *Term {
	if t == nil {
		return nil
	}
	return subst(t, m)
}
