package main

// Verification of one function against its contract.

import (
	"fmt"
	"go/constant"
	"go/token"
	"go/types"
	"math/rand"
	"os"
	"runtime/debug"
	"slices"
	"sort"
	"strings"
	"sync"
	"time"

	"golang.org/x/tools/go/ssa"
)

type FnReport struct {
	Name     string
	Pkg      string
	Kind     string // contract | lemma
	Props    []string
	Obls     []*Obligation
	Paths    int
	Covered  int // concrete samples satisfying the precondition and reaching a return
	Samples  int
	Calls    []string
	Wall     float64
	Unsupp   string
	contract *Contract
	lemma    *Lemma
	Assumed  bool
}

func hasWf(t *Term) *Term {
	switch t.Sort {
	case SVal:
		return App("wfv", SBool, t)
	case SVals:
		return App("wfvs", SBool, t)
	}
	return TTrue
}

func collectVars(t *Term, m map[*Term]bool) {
	if t.Op == "var" && t != ErrNil && t != AnyErr && t != FnNil && !strings.HasPrefix(t.S, "nil_") && !strings.HasPrefix(t.S, "fn:") {
		m[t] = true
	}
	for _, a := range t.Args {
		collectVars(a, m)
	}
}

func svVars(v SV, m map[*Term]bool) {
	switch a := v.(type) {
	case *Term:
		collectVars(a, m)
	default:
		for _, c := range children(a) {
			svVars(c, m)
		}
	}
}

// setup builds the symbolic entry state of a contract's target.
func (e *Engine) setup(c *Contract) (x *Exec, st *State) {
	x = e.newExec(c.Target)
	x.contract = c
	st = &State{x: x, mem: map[int]*Region{}}
	fr := &Frame{fn: c.Target, env: map[ssa.Value]SV{}, blk: c.Target.Blocks[0], cuts: map[*ssa.BasicBlock]*Cut{}, visits: map[*ssa.BasicBlock]int{}}
	st.fr = []*Frame{fr}
	var args []SV
	for k, p := range c.Target.Params {
		v := x.freshVal(st, p.Type(), p.Name())
		if el := x.standIn(c, k); el != nil {
			v = IfaceV{typ: types.NewPointer(el), v: x.freshVal(st, types.NewPointer(el), p.Name())}
		}
		args = append(args, v)
		fr.env[p] = v
		if t, ok := v.(*Term); ok {
			if !c.NoWf && (t.Sort == SVals || t.Sort == SVal && !x.nilOK(c, k)) {
				st.assume(hasWf(t))
			}
		}
		if iv, ok := v.(IfaceV); ok {
			v = iv.v
		}
		if q, ok := v.(Ptr); ok {
			if inv := e.inv[typeName(st.mem[q.reg].typ)]; inv != nil && !c.Raw {
				st.assume(e.evalSpec(inv, []SV{q}, st)[0].(*Term))
			}
		}
	}
	if len(c.Target.FreeVars) > 0 {
		unsup("closure target")
	}
	x.params = args
	if c.World {
		x.initWorld(st, c)
	}
	x.specEntry = x.specArgs(st, c, args)
	if c.Pre != nil {
		st.assume(e.evalSpec(c.Pre, x.specEntry, st)[0].(*Term))
	}
	x.entryState = st.clone()
	vs := map[*Term]bool{}
	for _, a := range args {
		if iv, ok := a.(IfaceV); ok {
			a = iv.v
		}
		if q, ok := a.(Ptr); ok {
			svVars(st.mem[q.reg].val, vs)
			continue
		}
		svVars(a, vs)
	}
	for v := range vs {
		x.entryVars = append(x.entryVars, v)
	}
	sort.Slice(x.entryVars, func(i, j int) bool { return x.entryVars[i].id < x.entryVars[j].id })
	return x, st
}

// standIn: the type of the object that stands for an argument of interface
// type; the specification takes the object's abstract state instead.
func (x *Exec) standIn(c *Contract, k int) types.Type {
	off := 0
	if c.World {
		off = 1
	}
	if k >= len(c.Target.Params) || k+off >= len(c.Spec.Params) || !types.IsInterface(c.Target.Params[k].Type()) {
		return nil
	}
	for _, f := range x.e.abs {
		if types.Identical(f.Signature.Results().At(0).Type(), c.Spec.Params[k+off].Type()) {
			return derefT(f.Signature.Params().At(0).Type())
		}
	}
	return nil
}

func (e *Engine) verify(c *Contract, tier string) (rep *FnReport) {
	rep = &FnReport{Name: c.Name, Kind: "contract", Props: c.Props, contract: c, Pkg: c.Spec.Pkg.Pkg.Path()}
	t0 := time.Now()
	var x *Exec
	defer func() {
		if x != nil {
			rep.Obls = x.obls
			rep.Paths = x.paths
			rep.Calls = sortedKeys(x.callsSeen)
		}
		if r := recover(); r != nil {
			why := ""
			switch u := r.(type) {
			case Unsupported:
				why = u.msg
			case joinFail:
				why = "join: " + u.why
			default:
				why = fmt.Sprint("internal: ", r)
				if os.Getenv("GOVER_DEBUG") != "" {
					debug.PrintStack()
				}
			}
			rep.Unsupp = why
			rep.Obls = append(rep.Obls, &Obligation{Fn: c.Name, Kind: "unsupported", Name: "within the verifier's reach: " + why, Goal: TFalse, done: true, res: Unknown, back: why, Tags: []string{"unsupported"}})
		}
		rep.Wall = time.Since(t0).Seconds()
	}()
	if c.Opaque {
		rep.Assumed = true
		return rep
	}
	if c.Target == nil {
		unsup("function %s does not exist", c.Name)
	}
	var st *State
	if c.Final {
		x = e.newExec(c.Target)
		x.contract = c
		e.verifyFinal(x, c)
		rep.Covered, rep.Samples = x.paths, x.paths
		rep.Obls = x.obls
		x.discharge(tier)
		return rep
	}
	x, st = e.setup(c)
	st.reveal = c.Name
	spec := e.evalSpec(c.Spec, x.specEntry, st)
	x.findRelevant(spec)
	if c.Target.Blocks == nil {
		unsup("no body")
	}
	// defer ordering: loops first see the samples
	x.run(st, &handler{base: 1, ret: func(s *State, res []SV) {
		x.checkReturn(s, c, spec, res)
	}})
	x.vacuity(rep)
	rep.Obls = x.obls
	x.discharge(tier)
	return rep
}

func (x *Exec) checkReturn(st *State, c *Contract, spec []SV, res []SV) {
	ps := c.Target.Pos()
	rest := spec
	var wspec SV
	if c.World {
		wspec = rest[0]
		rest = rest[1:]
	}
	aps := x.absParams(st, c, x.params)
	var absSpec []SV
	for _, ap := range aps {
		if ap.ro {
			absSpec = append(absSpec, nil)
			continue
		}
		if len(rest) == 0 {
			unsup("contract lacks the object result")
		}
		absSpec = append(absSpec, rest[0])
		rest = rest[1:]
	}
	sig := c.Target.Signature
	if len(rest) != sig.Results().Len() {
		unsup("contract of %s has %d results, expected %d", c.Name, len(rest), sig.Results().Len())
	}
	// one obligation per component; later ones do not assume earlier ones
	emit := func(kind, name string, g *Term, tags ...string) {
		x.emitNoAssume(st, kind, name, ps, g, tags...)
	}
	okAct := TTrue
	for k := 0; k < sig.Results().Len(); k++ {
		t := sig.Results().At(k).Type()
		if !isErrorType(t) {
			continue
		}
		if b, ok := rest[k].(*Term); ok && b.Sort == SBool {
			okAct = x.isNil(st, res[k], t)
			emit("post", "error reported exactly when specified", Eq(b, okAct), "ok")
		} else if ok && b.Sort == SErr {
			okAct = x.isNil(st, res[k], t)
			emit("post", "error reported exactly when specified", Eq(Eq(b, ErrNil), okAct), "ok")
		} else if f, ok := failureSpec(rest[k]); ok {
			okAct = x.isNil(st, res[k], t)
			emit("post", "error reported exactly when specified", Eq(Not(f.f[0].(*Term)), okAct), "ok")
		}
	}
	okAct = st.decide(okAct)
	for i, ap := range aps {
		el := x.ptrElem(st, ap.ptr)
		if inv := x.e.inv[typeName(el)]; inv != nil && !c.Raw {
			g := x.e.evalSpec(inv, []SV{ap.ptr}, st)[0].(*Term)
			emit("inv", "invariant of "+shortType(el), g, "inv")
		}
		now := x.absOf(st, ap.ptr)
		want := absSpec[i]
		if ap.ro {
			want = x.specEntryAbs(ap)
		}
		ln := leafNames(el, now)
		la, lb := leaves(now), leaves(want)
		if len(la) != len(lb) {
			unsup("abstraction shape of %s", el)
		}
		for k := range la {
			kind := "post"
			if ap.ro {
				kind = "frame"
			}
			if kind == "post" && okAct == TFalse {
				emit("frame", "nothing changes when an error is returned", Eq(la[k], lb[k]), "errframe")
				continue
			}
			emit(kind, strings.ToLower(ln[k])+" as specified", Eq(la[k], lb[k]), strings.ToLower(ln[k]))
		}
	}
	if c.World {
		wn := x.worldVal(st, c.Spec.Params[0].Type())
		ln := leafNames(c.Spec.Params[0].Type(), wn)
		la, lb := leaves(wn), leaves(wspec)
		for k := range la {
			emit("post", "world "+strings.ToLower(ln[k])+" as specified", Eq(la[k], lb[k]), "world")
		}
	}
	for k := 0; k < sig.Results().Len(); k++ {
		t := sig.Results().At(k).Type()
		if isErrorType(t) {
			if b, ok := rest[k].(*Term); ok && b.Sort == SBool {
				continue
			} else if ok && b.Sort == SErr {
				if okAct != TTrue {
					emit("post", "error is the specified one", errRel(b, x.peekTerm(st, res[k], t)), "result")
				}
				continue
			}
			if f, ok := failureSpec(rest[k]); ok {
				if okAct != TTrue {
					x.checkFailure(st, f, res[k], emit)
				}
				continue
			}
		}
		g := x.resultEq(st, rest[k], res[k], t, c)
		emit("post", "result as specified", Implies(okAct, g), "result")
		if tt, ok := rest[k].(*Term); ok && !c.NoWf && (tt.Sort == SVal || tt.Sort == SVals) {
			at := x.peekTerm(st, res[k], t)
			emit("post", "result is well formed", Implies(okAct, hasWf(at)), "safety")
		}
	}
}

func (x *Exec) specEntryAbs(ap absParam) SV {
	st := x.entryState
	return x.absOf(st, ap.ptr)
}

// resultEq compares a specified and an actual result.
func (x *Exec) resultEq(st *State, want, got SV, t types.Type, c *Contract) *Term {
	if w, ok := want.(*StructV); ok && len(w.f) == 0 {
		return TTrue // left open
	}
	if g, ok := got.(*Term); ok && g.Sort.Kind == "opaque" {
		if pt, ok := t.Underlying().(*types.Pointer); ok {
			if a := x.e.abs[typeName(pt.Elem())]; a != nil {
				la, lb := leaves(x.normAbs(st, x.e.evalSpec(a, []SV{g}, st)[0])), leaves(x.normAbs(st, want))
				var cs []*Term
				for k := range la {
					cs = append(cs, Eq(la[k], lb[k]))
				}
				return And(cs...)
			}
		}
	}
	if p, ok := got.(Ptr); ok {
		el := x.ptrElem(st, p)
		if x.e.abs[typeName(el)] != nil {
			a := x.absOf(st, p)
			la, lb := leaves(a), leaves(x.normAbs(st, want))
			if len(la) != len(lb) {
				unsup("abstraction shape of %s", el)
			}
			var cs []*Term
			for k := range la {
				if la[k].Sort == SErr {
					cs = append(cs, errRel(lb[k], la[k]))
					continue
				}
				cs = append(cs, Eq(la[k], lb[k]))
			}
			if inv := x.e.inv[typeName(el)]; inv != nil {
				cs = append(cs, x.e.evalSpec(inv, []SV{p}, st)[0].(*Term))
			}
			return And(cs...)
		}
	}
	if g := x.sameObject(st, want, got, 0); g != nil {
		return g
	}
	a, b := x.peekTerm(st, got, t), x.peekTerm(st, want, t)
	return Eq(a, b)
}

// sameObject compares two freshly built objects field by field, and maps with
// constant keys entry by entry; nil where the values are not of that kind.
func (x *Exec) sameObject(st *State, want, got SV, d int) *Term {
	if d > 5 {
		return nil
	}
	switch g := got.(type) {
	case Ptr:
		w, ok := want.(Ptr)
		if !ok || len(g.path)+len(w.path) > 0 || st.mem[w.reg] == nil || !types.Identical(st.mem[g.reg].typ, st.mem[w.reg].typ) || valCtorElem(st.mem[g.reg].typ) != "" {
			return nil
		}
		return x.sameObject(st, st.mem[w.reg].val, st.mem[g.reg].val, d+1)
	case *StructV:
		w, ok := want.(*StructV)
		if !ok || len(w.f) != len(g.f) || d == 0 {
			return nil
		}
		u := g.typ.Underlying().(*types.Struct)
		var cs []*Term
		for k := range g.f {
			e := x.sameObject(st, w.f[k], g.f[k], d+1)
			if e == nil {
				e = Eq(x.peekTerm(st, w.f[k], u.Field(k).Type()), x.peekTerm(st, g.f[k], u.Field(k).Type()))
			}
			cs = append(cs, e)
		}
		return And(cs...)
	case MapV:
		w, ok := want.(MapV)
		if !ok {
			return nil
		}
		a, b := st.mem[g.reg].val.(*MapVal), st.mem[w.reg].val.(*MapVal)
		if a.base != nil || b.base != nil || a.fuzzy || b.fuzzy {
			return nil
		}
		if len(a.ents) != len(b.ents) {
			return TFalse
		}
		mt := st.mem[g.reg].typ.Underlying().(*types.Map)
		by := map[*Term]MapEnt{}
		for _, e := range b.ents {
			by[x.peekTerm(st, e.k, mt.Key())] = e
		}
		var cs []*Term
		for _, e := range a.ents {
			o, ok := by[x.peekTerm(st, e.k, mt.Key())]
			if !ok {
				return TFalse
			}
			q := x.sameObject(st, o.v, e.v, d+1)
			if q == nil {
				q = Eq(x.peekTerm(st, o.v, mt.Elem()), x.peekTerm(st, e.v, mt.Elem()))
			}
			cs = append(cs, q)
		}
		return And(cs...)
	case ClosV:
		w, ok := want.(ClosV)
		if ok && len(w.binds) == 0 && len(g.binds) == 0 {
			return TBool(w.fn == g.fn)
		}
	}
	return nil
}

// checkFailure compares an error object with its specification.
func (x *Exec) checkFailure(st *State, f *StructV, got SV, emit func(kind, name string, g *Term, tags ...string)) {
	et := x.e.errObject(f.typ)
	iv, ok := got.(IfaceV)
	if !ok || !types.Identical(iv.typ, et) {
		emit("post", "error is a "+shortType(derefT(et)), TFalse, "result")
		return
	}
	a := x.absOf(st, iv.v)
	w := x.normAbs(st, f)
	la, lb, ln := leaves(a), leaves(w), leafNames(f.typ, w)
	if len(la) != len(lb) {
		unsup("abstraction shape of %s", f.typ)
	}
	for k := range la {
		g := Eq(la[k], lb[k])
		if la[k].Sort == SErr {
			g = errRel(lb[k], la[k])
		}
		emit("post", "error reports "+strings.ToLower(ln[k])+" as specified", g, "result")
	}
}

func (x *Exec) emitNoAssume(st *State, kind, name string, p token.Pos, goal *Term, tags ...string) {
	o := &Obligation{Fn: x.fn.String(), Kind: kind, Name: name, PC: st.pc[:len(st.pc):len(st.pc)], Goal: goal, Tags: tags}
	o.Pos = pos(x.fn, p)
	x.obls = append(x.obls, o)
}

func shortType(t types.Type) string {
	n := typeName(t)
	return n[strings.LastIndex(n, ".")+1:]
}

// discharge checks all open obligations, grouped by name.
func (x *Exec) discharge(tier string) { dischargeAll(x.e, x.obls, nil, tier) }

func dischargeAll(e *Engine, obls []*Obligation, ex *exclude, tier string) {
	ms := 3000
	if tier == "thorough" {
		ms = 8000
	}
	groups := map[string][]*Obligation{}
	var names []string
	for _, o := range obls {
		if o.done {
			continue
		}
		if o.Goal == TTrue {
			o.done, o.res, o.back = true, Unsat, "simplifier"
			continue
		}
		if groups[o.Name] == nil {
			names = append(names, o.Name)
		}
		groups[o.Name] = append(groups[o.Name], o)
	}
	var wg sync.WaitGroup
	for _, n := range names {
		g := groups[n]
		var mu sync.Mutex
		failed := false
		for _, o := range g {
			o := o
			wg.Add(1)
			go func() {
				defer wg.Done()
				e.oblSem <- struct{}{}
				defer func() { <-e.oblSem }()
				mu.Lock()
				f := failed
				mu.Unlock()
				if f {
					o.res, o.back = Unknown, "skipped after an earlier failure of the same obligation"
					return
				}
				o.res, o.back = e.solver.CheckX(e, o.PC, o.Goal, ms, true, ex)
				o.done = true
				if o.res != Unsat {
					mu.Lock()
					failed = true
					mu.Unlock()
				}
			}()
		}
	}
	wg.Wait()
}

// ---------- concrete samples ----------

func (x *Exec) samples() []snapshot {
	if x.smps != nil {
		return x.smps
	}
	rng := &smpRand{Rand: rand.New(rand.NewSource(7))}
	alph, lits := x.alphabet()
	rng.alph, rng.lits = sampleAlphabet+alph, lits
	rng.json = x.usesJSON()
	rng.words, rng.scripts = x.words()
	want := 260
	prog := false
	for _, v := range x.entryVars {
		prog = prog || v.Sort.Kind == "map"
	}
	for try := 0; try < 6000 && len(x.smps) < want; try++ {
		m := snapshot{}
		for k, v := range x.e.opaqueTerms() {
			m[k] = v
		}
		size := 1 + rng.Intn(8)
		for k, v := range x.entryVars {
			m[v] = randTerm(rng, v, size, 2)
			if prog && v.Sort == SVals && rng.Intn(4) > 0 {
				m[v] = randCalls(rng, 4, 1)
			} else if prog && v.Sort == SVal && rng.Intn(4) > 0 {
				m[v] = randCall(rng, 2)
			}
			if try%3 == 2 && v.Sort != SInt {
				for _, o := range x.entryVars[:k] {
					if o.Sort == v.Sort {
						m[v] = perturb(rng, m[o])
					}
				}
			}
		}
		ok := true
		for _, p := range x.entryState.pc {
			if subst(p, m) != TTrue {
				ok = false
				break
			}
		}
		if ok {
			x.smps = append(x.smps, m)
		}
	}
	if x.smps == nil {
		x.smps = []snapshot{}
	}
	return x.smps
}

type smpRand struct {
	*rand.Rand
	words   []string
	scripts bool
	alph    string
	lits    []string
	json    bool // texts are mostly JSON
}

const sampleAlphabet = "aab1 \n\n.xB( )"

// alphabet: characters the function's specification compares with that are
// not in the usual one, each several times, and the short strings it compares
// with.
func (x *Exec) alphabet() (string, []string) {
	if x.contract == nil {
		return "", nil
	}
	var lits []string
	have := map[byte]bool{}
	for _, f := range append([]*ssa.Function{x.contract.Spec}, x.contract.RecSpecs...) {
		for _, b := range f.Blocks {
			for _, in := range b.Instrs {
				op, ok := in.(*ssa.BinOp)
				if !ok || op.Op != token.EQL && op.Op != token.NEQ {
					continue
				}
				for _, v := range []ssa.Value{op.X, op.Y} {
					c, ok := v.(*ssa.Const)
					if !ok || c.Value == nil {
						continue
					}
					if c.Value.Kind() == constant.String {
						if k := constant.StringVal(c.Value); len(k) > 0 && len(k) < 4 && !slices.Contains(lits, k) {
							lits = append(lits, k)
						}
						continue
					}
					if b, ok := c.Type().Underlying().(*types.Basic); ok && (b.Kind() == types.Int32 || b.Kind() == types.Uint8) {
						if k := c.Int64(); k > 32 && k < 127 && !strings.ContainsRune(sampleAlphabet, rune(k)) {
							have[byte(k)] = true
						}
					}
				}
			}
		}
	}
	out := ""
	for k := byte(33); k < 127; k++ {
		if have[k] {
			out += strings.Repeat(string(rune(k)), 3)
		}
	}
	return out, lits
}

// randCalls is a random program, randCall a random call.
func randCalls(rng *smpRand, n, depth int) *Term {
	es := TEmpty(SVals)
	for k := rng.Intn(n + 1); k > 0; k-- {
		if depth > 0 && rng.Intn(3) > 0 {
			es = SCat(es, SUnit(SVals, randCall(rng, depth)))
		} else {
			es = SCat(es, SUnit(SVals, randSort(rng, SVal, 3, 1)))
		}
	}
	return es
}

func randCall(rng *smpRand, depth int) *Term {
	f := SUnit(SVals, Mk("VSym", TLit([]string{"a", "b", "c"}[rng.Intn(3)])))
	return Mk("VLst", SCat(f, randCalls(rng, 3, depth-1)))
}

// perturb returns t or t with its last element replaced.
func perturb(rng *smpRand, t *Term) *Term {
	if rng.Intn(2) == 0 {
		return t
	}
	if t.Op == "mk" && t.S == "VLst" {
		return Mk("VLst", perturb(rng, t.Args[0]))
	}
	if t.Sort.Kind == "seq" && t.Sort != SStr {
		if n := seqConstLen(t); n > 0 {
			return SCat(SSub(t, TInt(0), TInt(int64(n-1))), SUnit(t.Sort, randSort(rng, t.Sort.Elem, 3, 1)))
		}
	}
	return t
}

func randTerm(rng *smpRand, v *Term, size, depth int) *Term {
	switch v.Sort {
	case SInt:
		r := rng.Intn(12)
		var t *Term
		switch {
		case r == 0:
			t = TInt(0)
		case r == 1:
			t = TInt(int64(rng.Intn(200) - 3))
		default:
			t = TInt(int64(rng.Intn(size+3) - 1))
		}
		return t
	case SStr:
		if len(rng.words) > 0 && rng.Intn(2) == 0 {
			return TLit(rng.words[rng.Intn(len(rng.words))])
		}
		return TLit(randStr(rng, size))
	case SFlt:
		return randFlt(rng, size)
	case SBool:
		return TBool(rng.Intn(2) == 0)
	case SErr:
		return ErrNil
	}
	if v.Sort.Kind == "opaque" && strings.HasSuffix(v.Sort.Name, "io.Reader") {
		return App("strings.NewReader", v.Sort, TLit(randStr(rng, 12)))
	}
	if v.Sort == SVal && rng.Intn(2) == 0 {
		l := SCat(SUnit(SVals, Mk("VSym", TLit([]string{"a", "b", "c"}[rng.Intn(3)]))), randSort(rng, SVals, 2, depth-1))
		return Mk("VLst", l)
	}
	return randSort(rng, v.Sort, size, depth)
}

// sampleScripts are texts that often run.
var sampleScripts = []string{`point`, `(insert "x")`, `insert "ab"; point`, `forward-char`, `nope`, `(buffer-size)`, `end-of-buffer`, `["point"]`, `[["insert","x"],["point"]]`, `"a"`, ``}

// words are the longer texts a specification compares its inputs with; scripts
// tells whether some input is parsed as a script.
func (x *Exec) words() (out []string, scripts bool) {
	if x.contract == nil {
		return nil, false
	}
	own := x.contract.Spec.Pkg
	for _, f := range append([]*ssa.Function{x.contract.Spec}, x.contract.RecSpecs...) {
		if f.Pkg != own {
			scripts = scripts || strings.HasSuffix(f.Pkg.Pkg.Path(), "/parser")
			continue
		}
		for _, b := range f.Blocks {
			for _, in := range b.Instrs {
				op, ok := in.(*ssa.BinOp)
				if !ok || op.Op != token.EQL && op.Op != token.NEQ {
					continue
				}
				for _, v := range []ssa.Value{op.X, op.Y} {
					if c, ok := v.(*ssa.Const); ok && c.Value != nil && c.Value.Kind() == constant.String {
						if k := constant.StringVal(c.Value); len(k) > 3 && len(k) < 16 && !slices.Contains(out, k) {
							out = append(out, k)
						}
					}
				}
			}
		}
	}
	sort.Strings(out)
	return out, scripts
}

func randStr(rng *smpRand, size int) string {
	if rng.scripts && rng.Intn(2) == 0 {
		return sampleScripts[rng.Intn(len(sampleScripts))]
	}
	if rng.json && rng.Intn(4) > 0 {
		return randJSONText(rng)
	}
	n := rng.Intn(size + 1)
	if len(rng.alph) > len(sampleAlphabet) && rng.Intn(3) > 0 {
		n += 4
	}
	b := make([]byte, n)
	for i := range b {
		b[i] = rng.alph[rng.Intn(len(rng.alph))]
	}
	return string(b)
}

func randFlt(rng *smpRand, size int) *Term {
	switch rng.Intn(14) {
	case 0:
		return fltConst(1.5)
	case 1:
		return fltConst(float64(rng.Intn(100) - 50))
	}
	return fltConst(float64(rng.Intn(size+4) - 2))
}

func randSort(rng *smpRand, s *Sort, size, depth int) *Term {
	switch {
	case s == SInt:
		return TInt(int64(rng.Intn(size+3) - 1))
	case s == SStr:
		return TLit(randStr(rng, size))
	case s == SFlt:
		return randFlt(rng, size)
	case s == SBool:
		return TBool(rng.Intn(2) == 0)
	case s == SVal:
		switch r := rng.Intn(20); {
		case r < 9:
			return Mk("VNum", randFlt(rng, size))
		case r < 15:
			return Mk("VStr", TLit(randStr(rng, 3)))
		case r < 18 || depth == 0:
			return Mk("VSym", TLit([]string{"a", "t", "nil", "b"}[rng.Intn(4)]))
		default:
			l := randSort(rng, SVals, 2, depth-1)
			if rng.Intn(3) > 0 {
				l = SCat(SUnit(SVals, Mk("VSym", TLit([]string{"a", "b", "c"}[rng.Intn(3)]))), l)
			}
			return Mk("VLst", l)
		}
	case s == SFn && rng.Intn(2) == 0:
		return FnNil
	case s.Kind == "map" || s == SFn:
		return TSmp(s, fmt.Sprint("smp", rng.Intn(1000)))
	case s == SAny && depth == 0:
		return Mk("AStr", TLit(randStr(rng, 3)))
	case s == SAny:
		switch rng.Intn(6) {
		case 0:
			return Mk("ANil")
		case 1:
			return Mk("AFlt", randFlt(rng, 4))
		case 2:
			return Mk("ABool", TBool(rng.Intn(2) == 0))
		case 3, 4:
			return Mk("AStr", TLit(randStr(rng, 3)))
		default:
			return Mk("ASeq", randSort(rng, SAnys, 3, depth-1))
		}
	case s.Kind == "seq":
		n := rng.Intn(4)
		var xs []*Term
		if s.Elem == SStr && len(rng.lits) > 0 && rng.Intn(2) == 0 {
			n += 3
		}
		for i := 0; i < n; i++ {
			if s.Elem == SStr && len(rng.lits) > 0 && rng.Intn(3) > 0 {
				xs = append(xs, SUnit(s, TLit(rng.lits[rng.Intn(len(rng.lits))])))
				continue
			}
			xs = append(xs, SUnit(s, randSort(rng, s.Elem, 4, depth)))
		}
		return catOf(s, xs)
	case s.Kind == "adt":
		c := s.Ctor[0]
		var as []*Term
		for _, f := range c.Fields {
			as = append(as, randSort(rng, f, size, depth))
		}
		return Mk(c.Name, as...)
	}
	return TVar("unk_"+s.Name, s)
}

// concreteRun executes the target on constants.
func (x *Exec) concreteRun(smp snapshot, visit func(y *Exec, st *State, blk *ssa.BasicBlock)) (reached bool) {
	y := x.e.newExec(x.fn)
	y.contract = x.contract
	y.quiet = 1
	y.maxSteps = 30000
	y.concrete = &concreteRun{visit: visit}
	n := x.entryState.clone()
	n.x = y
	n.pc = nil
	n.facts = nil
	m := map[*Term]*Term(smp)
	for r, rg := range n.mem {
		c := *rg
		c.val = substSV(rg.val, m)
		n.mem[r] = &c
	}
	for _, f := range n.fr {
		for k, v := range f.env {
			f.env[k] = substSV(v, m)
		}
	}
	defer func() {
		if r := recover(); r != nil {
			switch u := r.(type) {
			case concreteStop:
				if os.Getenv("GOVER_CONC") != "" {
					fmt.Fprintln(os.Stderr, "    stop:", u.why)
				}
				return
			case Unsupported:
				if os.Getenv("GOVER_CONC") != "" {
					fmt.Fprintln(os.Stderr, "    stop:", u.msg)
				}
				return
			case deadPath, joinFail:
				return
			}
			panic(r)
		}
	}()
	y.run(n, &handler{base: 1, ret: func(s *State, res []SV) { reached = true }})
	return reached
}

// vacuity: the precondition is satisfiable and returns are reachable.
func (x *Exec) vacuity(rep *FnReport) {
	for _, s := range x.samples() {
		rep.Samples++
		if rep.Covered < 20 && x.concreteRun(s, func(*Exec, *State, *ssa.BasicBlock) {}) {
			rep.Covered++
		}
	}
}

// ---------- lemmas ----------

func (e *Engine) verifyLemma(l *Lemma, tier string) (rep *FnReport) {
	rep = &FnReport{Name: "lemma " + l.Fn.Name(), Kind: "lemma", lemma: l, Pkg: l.Fn.Pkg.Pkg.Path()}
	t0 := time.Now()
	defer func() {
		if r := recover(); r != nil {
			rep.Unsupp = fmt.Sprint(r)
			if u, ok := r.(Unsupported); ok {
				rep.Unsupp = u.msg
			} else if os.Getenv("GOVER_DEBUG") != "" {
				debug.PrintStack()
			}
			rep.Obls = append(rep.Obls, &Obligation{Fn: rep.Name, Kind: "unsupported", Name: "within the verifier's reach: " + rep.Unsupp, Goal: TFalse, done: true, res: Unknown})
		}
		rep.Wall = time.Since(t0).Seconds()
	}()
	if l.Axiom {
		rep.Assumed = true
		return rep
	}
	l.prepare(e)
	if l.err != "" {
		unsup("lemma: %s", l.err)
	}
	// fresh constants for the universally quantified variables
	m := map[*Term]*Term{}
	var vars []*Term
	for i, v := range l.vars {
		k := TVar(fmt.Sprintf("sk%d.%d.%s", l.idx, i, v.Sort.Name), v.Sort)
		if v.Sort == SInt {
			k = TVarR(k.S, nil, nil)
		}
		m[v] = k
		vars = append(vars, k)
	}
	goal := subst(l.body, m)
	ex := &exclude{lemmas: map[int]bool{}}
	for _, o := range e.lemmas {
		if o.idx >= l.idx && !o.Axiom {
			ex.lemmas[o.idx] = true
		}
	}
	var pc []*Term
	if l.Induct {
		// induction hypotheses: the lemma at the arguments of the hint
		// function's result, guarded by a decreasing measure
		if l.Hyp == nil || l.Measure == nil {
			unsup("induction needs //gover:hyp and //gover:measure")
		}
		eval := func(f *ssa.Function, as []*Term) []SV {
			x := e.newExec(f)
			var args []SV
			for i, p := range f.Params {
				args = append(args, x.fromTerm(p.Type(), as[i]))
			}
			return e.evalSpec(f, args, nil)
		}
		m0 := eval(l.Measure, vars)[0].(*Term)
		for _, h := range l.Hyp {
			res := eval(h, vars)
			var hv []*Term
			x := e.newExec(h)
			st := &State{x: x, mem: map[int]*Region{}, spec: true}
			for i, r := range res {
				hv = append(hv, x.term(st, r, h.Signature.Results().At(i).Type()))
			}
			hm := map[*Term]*Term{}
			for i, v := range l.vars {
				hm[v] = hv[i]
			}
			m1 := eval(l.Measure, hv)[0].(*Term)
			pc = append(pc, Implies(And(Le(TInt(0), m1), Lt(m1, m0)), subst(l.body, hm)))
		}
	}
	o := &Obligation{Fn: rep.Name, Kind: "lemma", Name: "lemma " + l.Fn.Name(), PC: pc, Goal: goal}
	rep.Obls = []*Obligation{o}
	dischargeAll(e, rep.Obls, ex, tier)
	return rep
}

// verifyFinal runs the initialisation of a package on zeroed package
// variables and states the predicate in the state it leaves behind.
func (e *Engine) verifyFinal(x *Exec, c *Contract) {
	st := &State{x: x, mem: map[int]*Region{}, globs: &globals{pkg: c.Target.Pkg, reg: map[*ssa.Global]int{}}}
	for _, m := range c.Target.Pkg.Members {
		if g, ok := m.(*ssa.Global); ok {
			t := g.Type().Underlying().(*types.Pointer).Elem()
			func() {
				defer func() {
					if r := recover(); r != nil {
						if _, ok := r.(Unsupported); !ok {
							panic(r)
						}
					}
				}()
				st.globs.reg[g] = x.newReg(st, t, x.zero(t))
			}()
		}
	}
	st.fr = []*Frame{{fn: c.Target, env: map[ssa.Value]SV{}, blk: c.Target.Blocks[0], cuts: map[*ssa.BasicBlock]*Cut{}, visits: map[*ssa.BasicBlock]int{}}}
	x.run(st, &handler{base: 1, ret: func(s *State, res []SV) {
		g := e.evalSpec(c.Spec, nil, s)[0].(*Term)
		x.emitNoAssume(s, "post", "holds after initialisation", c.Target.Pos(), g)
	}})
	if x.paths == 0 {
		unsup("initialisation does not return")
	}
}

// usesJSON: the function reads JSON text, by its specification.
func (x *Exec) usesJSON() bool {
	if x.contract == nil {
		return false
	}
	for _, f := range append([]*ssa.Function{x.contract.Spec}, x.contract.RecSpecs...) {
		if strings.HasSuffix(f.Name(), "jsonStream") {
			return true
		}
		for _, b := range f.Blocks {
			for _, in := range b.Instrs {
				if c, ok := in.(*ssa.Call); ok {
					if g := c.Call.StaticCallee(); g != nil && (strings.HasPrefix(g.String(), "encoding/json.") || strings.HasSuffix(g.Name(), "jsonStream")) {
						return true
					}
				}
			}
		}
	}
	return false
}

func randJSON(rng *smpRand, depth int) string {
	switch k := rng.Intn(12); {
	case k < 4 || depth == 0 && k < 7:
		return []string{`"a"`, `"b"`, `"c d"`, `""`}[rng.Intn(4)]
	case k < 7:
		var es []string
		if rng.Intn(5) > 0 {
			es = append(es, []string{`"a"`, `"b"`}[rng.Intn(2)])
		}
		for n := rng.Intn(4); n > 0; n-- {
			es = append(es, randJSON(rng, depth-1))
		}
		return "[" + strings.Join(es, ",") + "]"
	case k < 10:
		return []string{"0", "1", "2.5", "-3"}[rng.Intn(4)]
	}
	return []string{"true", "null", "{}", "nul"}[rng.Intn(4)]
}

func randJSONText(rng *smpRand) string {
	var vs []string
	for n := rng.Intn(5); n > 0; n-- {
		if v := randJSON(rng, 2); v[0] == '[' || rng.Intn(3) == 0 {
			vs = append(vs, v)
		}
	}
	if rng.Intn(2) == 0 {
		return "[" + strings.Join(vs, ",") + "]"
	}
	return strings.Join(vs, " ")
}
