package main

// Loading of the target packages together with the contract files, contract
// discovery, and specification evaluation.

import (
	"fmt"
	"go/ast"
	"go/types"
	"os"
	"path/filepath"
	"sort"
	"strings"
	"sync"
	"sync/atomic"

	"golang.org/x/tools/go/packages"
	"golang.org/x/tools/go/ssa"
	"golang.org/x/tools/go/ssa/ssautil"
)

const modPath = "github.com/dhamidi/texted"

type Contract struct {
	Target     *ssa.Function
	Name       string // target as written
	Spec       *ssa.Function
	Pre        *ssa.Function
	Measure    *ssa.Function
	Props      []string
	Tags       map[string][]string // component -> props
	NoSafety   bool
	World      bool
	RecSpecs   []*ssa.Function
	File       string
	Opaque     bool // assumed, not verified
	Structural bool
	NoWf       bool // values may contain nil
	Inline     bool // callers use the body, not the contract
	Final      bool // the result of Spec holds in the state the target leaves behind
	Raw        bool // neither requires nor ensures the object invariant
}

type Lemma struct {
	Fn      *ssa.Function
	Axiom   bool
	Induct  bool
	Measure *ssa.Function
	Hyp     []*ssa.Function
	vars    []*Term
	body    *Term
	pats    []*Term // all must match (multi-pattern)
	once    sync.Once
	err     string
	idx     int
	always  bool
	uses    map[string]bool
}

type Engine struct {
	solver   *Solver
	oblSem   chan struct{}
	freshN   int64
	prog     *ssa.Program
	pkgs     []*packages.Package
	spkgs    []*ssa.Package
	ssaOf    map[string]*ssa.Package
	loopMu   sync.Mutex
	loopC    map[*ssa.Function]map[*ssa.BasicBlock]*loopInfo
	contr    map[*ssa.Function]*Contract
	clist    []*Contract
	specFn   map[*ssa.Function]bool // declared in a contract file
	models   map[string]*ssa.Function
	stringer *ssa.Function // how fmt renders a value
	uninterp map[*ssa.Function]bool
	recSpec  map[*ssa.Function]bool
	opaque   map[*ssa.Function]string

	opaqueOnce sync.Once
	opaqueT    map[*Term]*Term
	abs        map[string]*ssa.Function // pointer element type -> abs function
	absRO      map[string]bool
	conc       map[string]*ssa.Function
	inv        map[string]*ssa.Function
	lemmas     []*Lemma
	trusted    map[string]bool
	trMu       sync.Mutex
	recMemo    sync.Map
	globMu     sync.Mutex
	globReg    map[*ssa.Global]int
	inits      map[*ssa.Global]*ssa.Store
	nStores    map[*ssa.Global]int
	allocIDs   map[*ssa.Alloc]int
	missing    []string
	overlay    map[string]string
	repo       string
	usedLem    map[string]bool
	dirs       map[string]string
	pruned     map[string]map[string]bool // contract file -> declarations taken out
	lost       []string                   // targets of the contracts taken out
	notes      []string
}

func (e *Engine) trust(s string) {
	e.trMu.Lock()
	e.trusted[s] = true
	e.trMu.Unlock()
}

// contractOverlay maps /verif/contracts/<pkg path>/<f>.go to repo files.
func contractOverlay(repo, dir string) map[string]string {
	ov := map[string]string{}
	filepath.Walk(dir, func(p string, fi os.FileInfo, err error) error {
		if err != nil || fi.IsDir() || !strings.HasSuffix(p, ".go") {
			return nil
		}
		rel, _ := filepath.Rel(dir, p)
		d, f := filepath.Split(rel)
		if strings.HasSuffix(f, "_test.go") {
			return nil
		}
		ov[filepath.Join(repo, d, "zz_gover_"+f)] = p
		return nil
	})
	return ov
}

// overlayText reads the contract files, with their names made unique.
func (e *Engine) overlayText(files map[string]string) (map[string][]byte, error) {
	byDir := map[string]map[string][]byte{}
	for k, v := range files {
		b, err := os.ReadFile(v)
		if err != nil {
			return nil, err
		}
		d := filepath.Dir(k)
		if byDir[d] == nil {
			byDir[d] = map[string][]byte{}
		}
		byDir[d][k] = pruneText(b, e.pruned[k])
	}
	out := map[string][]byte{}
	for _, fs := range byDir {
		m, err := mangle(fs, func(n string) bool { return !strings.HasSuffix(n, "_test.go") })
		if err != nil {
			return nil, err
		}
		for k, b := range m {
			out[k] = b
		}
	}
	return out, nil
}

func Load(repo, contracts string, pats []string) (*Engine, error) {
	e := &Engine{loopC: map[*ssa.Function]map[*ssa.BasicBlock]*loopInfo{}, contr: map[*ssa.Function]*Contract{}, specFn: map[*ssa.Function]bool{}, models: map[string]*ssa.Function{}, uninterp: map[*ssa.Function]bool{}, opaque: map[*ssa.Function]string{}, recSpec: map[*ssa.Function]bool{}, abs: map[string]*ssa.Function{}, absRO: map[string]bool{}, conc: map[string]*ssa.Function{}, inv: map[string]*ssa.Function{}, trusted: map[string]bool{}, globReg: map[*ssa.Global]int{}, ssaOf: map[string]*ssa.Package{}, repo: repo, usedLem: map[string]bool{}, allocIDs: map[*ssa.Alloc]int{}, oblSem: make(chan struct{}, 24), solver: NewSolver(8)}
	e.overlay = contractOverlay(repo, contracts)
	e.pruned = map[string]map[string]bool{}
	var pkgs []*packages.Package
	for round := 0; ; round++ {
		ov, err := e.overlayText(e.overlay)
		if err != nil {
			return nil, err
		}
		cfg := &packages.Config{Mode: packages.NeedName | packages.NeedFiles | packages.NeedCompiledGoFiles | packages.NeedImports | packages.NeedTypes | packages.NeedSyntax | packages.NeedTypesInfo | packages.NeedTypesSizes | packages.NeedExportFile, Dir: repo, Overlay: ov}
		pkgs, err = packages.Load(cfg, pats...)
		if err != nil {
			return nil, err
		}
		var errs []string
		progress := false
		for _, p := range pkgs {
			for _, er := range p.Errors {
				errs = append(errs, er.Error())
				f, line := splitPos(er.Pos)
				src, ok := ov[f]
				if !ok {
					continue
				}
				if k := declAt(src, line); k != "" && !e.pruned[f][k] {
					if e.pruned[f] == nil {
						e.pruned[f] = map[string]bool{}
					}
					e.pruned[f][k] = true
					progress = true
				}
			}
		}
		if len(errs) == 0 {
			break
		}
		if !progress || round > 40 {
			return nil, fmt.Errorf("loading: %s", strings.Join(errs, "; "))
		}
	}
	for f, keys := range e.pruned {
		src, err := os.ReadFile(e.overlay[f])
		if err != nil {
			return nil, err
		}
		for _, k := range sortedKeys(keys) {
			e.notes = append(e.notes, "not applicable to the current source: "+filepath.Base(f)+": "+k)
			if n := contractOf(src, k); n != "" {
				e.lost = append(e.lost, n)
			}
		}
	}
	prog, sp := ssautil.Packages(pkgs, ssa.InstantiateGenerics)
	prog.Build()
	e.prog, e.pkgs, e.spkgs = prog, pkgs, sp
	for i, s := range sp {
		if s != nil {
			e.ssaOf[pkgs[i].PkgPath] = s
		}
	}
	e.scanInits()
	if err := e.discover(); err != nil {
		return nil, err
	}
	recFold = e.recFold
	return e, nil
}

func (e *Engine) scanInits() {
	e.inits = map[*ssa.Global]*ssa.Store{}
	e.nStores = map[*ssa.Global]int{}
	for fn := range ssautil.AllFunctions(e.prog) {
		for _, b := range fn.Blocks {
			for _, in := range b.Instrs {
				if s, ok := in.(*ssa.Store); ok {
					if g, ok := s.Addr.(*ssa.Global); ok {
						e.nStores[g]++
						e.inits[g] = s
					}
				}
			}
		}
	}
}

func (e *Engine) inRepo(t types.Type) bool {
	n, ok := types.Unalias(t).(*types.Named)
	return ok && n.Obj().Pkg() != nil && strings.HasPrefix(n.Obj().Pkg().Path(), modPath)
}

func (e *Engine) edlType(name string) types.Type {
	for _, p := range e.pkgs {
		if p.PkgPath == edl {
			return p.Types.Scope().Lookup(name).Type()
		}
		if d := p.Imports[edl]; d != nil {
			return d.Types.Scope().Lookup(name).Type()
		}
	}
	panic("no edlisp package")
}

func directives(d *ast.FuncDecl) [][]string {
	if d.Doc == nil {
		return nil
	}
	var out [][]string
	for _, c := range d.Doc.List {
		if strings.HasPrefix(c.Text, "//gover:") {
			out = append(out, strings.Fields(strings.TrimPrefix(c.Text, "//gover:")))
		}
	}
	return out
}

// lookupFn finds a target such as BuiltinX, (*Buffer).Insert or Buffer.String.
func (e *Engine) lookupFn(sp *ssa.Package, name string) *ssa.Function {
	if strings.HasPrefix(name, "(*") {
		i := strings.Index(name, ")")
		tn, m := name[2:i], name[i+2:]
		o := sp.Pkg.Scope().Lookup(tn)
		if o == nil {
			return nil
		}
		pt := types.NewPointer(o.Type())
		ms := e.prog.MethodSets.MethodSet(pt)
		s := ms.Lookup(sp.Pkg, m)
		if s == nil {
			return nil
		}
		return e.prog.MethodValue(s)
	}
	return sp.Func(name)
}

func (e *Engine) discover() error {
	byName := map[string]*Contract{}
	type pend struct {
		fn  *ssa.Function
		dir []string
		sp  *ssa.Package
	}
	var later []pend
	for pi, p := range e.pkgs {
		sp := e.spkgs[pi]
		for fi, f := range p.Syntax {
			file := p.CompiledGoFiles[fi]
			src, isSpec := e.overlay[file]
			if !isSpec {
				continue
			}
			for _, d := range f.Decls {
				fd, ok := d.(*ast.FuncDecl)
				if !ok {
					continue
				}
				obj, _ := p.TypesInfo.Defs[fd.Name].(*types.Func)
				if obj == nil {
					continue
				}
				fn := e.prog.FuncValue(obj)
				if fn == nil {
					continue
				}
				e.specFn[fn] = true
				var c *Contract
				var lem *Lemma
				for _, dir := range directives(fd) {
					if len(dir) == 0 {
						continue
					}
					switch dir[0] {
					case "contract":
						t := e.lookupFn(sp, dir[1])
						c = &Contract{Target: t, Name: dir[1], Spec: fn, Tags: map[string][]string{}, File: src}
						for _, o := range dir[2:] {
							switch o {
							case "nosafety":
								c.NoSafety = true
							case "assumed":
								c.Opaque = true
							case "structural":
								c.Structural = true
							case "raw":
								c.Raw = true
							case "nowf":
								c.NoWf = true
							case "final":
								c.Final = true
							case "inline":
								c.Inline = true
							}
						}
						if t == nil {
							e.missing = append(e.missing, p.PkgPath+"."+dir[1])
						} else {
							e.contr[t] = c
						}
						byName[p.PkgPath+"."+dir[1]] = c
						e.clist = append(e.clist, c)
					case "prop":
						if c != nil {
							c.Props = append(c.Props, strings.FieldsFunc(strings.Join(dir[1:], " "), func(r rune) bool { return r == ',' || r == ' ' })...)
						}
					case "tags":
						for _, kv := range dir[1:] {
							k, v, _ := strings.Cut(kv, "=")
							c.Tags[k] = strings.Split(v, ",")
						}
					case "conc":
						pt := fn.Signature.Results().At(0).Type().Underlying().(*types.Pointer)
						e.conc[typeName(pt.Elem())] = fn
					case "abs":
						pt := fn.Signature.Params().At(0).Type().Underlying().(*types.Pointer)
						e.abs[typeName(pt.Elem())] = fn
						if len(dir) > 1 && dir[1] == "readonly" {
							e.absRO[typeName(pt.Elem())] = true
						}
					case "invariant":
						pt := fn.Signature.Params().At(0).Type().Underlying().(*types.Pointer)
						e.inv[typeName(pt.Elem())] = fn
					case "lemma", "axiom":
						lem = &Lemma{Fn: fn, Axiom: dir[0] == "axiom", idx: len(e.lemmas), uses: map[string]bool{}}
						for _, o := range dir[1:] {
							if o == "induct" {
								lem.Induct = true
							}
						}
						e.lemmas = append(e.lemmas, lem)
					case "model":
						// stands for a library function wherever that is called
						e.models[dir[1]] = fn
					case "stringer":
						e.stringer = fn
					case "uninterpreted":
						e.uninterp[fn] = true
					case "opaque":
						// a constant, spelled out only where the named contract
						// is proved and on samples
						e.uninterp[fn] = true
						e.opaque[fn] = dir[1]
					case "requires", "decreases", "measure", "hyp":
						later = append(later, pend{fn, dir, sp})
					default:
						return fmt.Errorf("unknown directive %v in %s", dir, file)
					}
				}
			}
		}
	}
	for _, l := range later {
		key := l.sp.Pkg.Path() + "." + l.dir[1]
		switch l.dir[0] {
		case "requires", "decreases":
			c := byName[key]
			if c == nil && len(e.pruned) > 0 {
				continue
			}
			if c == nil {
				return fmt.Errorf("%s for unknown contract %s", l.dir[0], key)
			}
			if l.dir[0] == "requires" {
				c.Pre = l.fn
			} else {
				c.Measure = l.fn
			}
		case "measure", "hyp":
			found := false
			for _, lm := range e.lemmas {
				if demangle(lm.Fn.Name()) == l.dir[1] {
					found = true
					if l.dir[0] == "measure" {
						lm.Measure = l.fn
					} else {
						lm.Hyp = append(lm.Hyp, l.fn)
					}
				}
			}
			if !found && len(e.pruned) == 0 {
				return fmt.Errorf("%s for unknown lemma %s", l.dir[0], l.dir[1])
			}
		}
	}
	sort.Slice(e.clist, func(i, j int) bool { return e.clist[i].Name < e.clist[j].Name })
	// recursion among specification functions
	calls := map[*ssa.Function][]*ssa.Function{}
	for fn := range e.specFn {
		for _, b := range fn.Blocks {
			for _, in := range b.Instrs {
				if c, ok := in.(*ssa.Call); ok {
					if s := c.Call.StaticCallee(); s != nil && e.specFn[s] {
						calls[fn] = append(calls[fn], s)
					}
				}
			}
		}
	}
	reach := func(from *ssa.Function) map[*ssa.Function]bool {
		seen := map[*ssa.Function]bool{}
		var rec func(f *ssa.Function)
		rec = func(f *ssa.Function) {
			for _, c := range calls[f] {
				if !seen[c] {
					seen[c] = true
					rec(c)
				}
			}
		}
		rec(from)
		return seen
	}
	for fn := range e.specFn {
		if reach(fn)[fn] || e.uninterp[fn] {
			e.recSpec[fn] = true
		}
	}
	for _, c := range e.clist {
		r := reach(c.Spec)
		r[c.Spec] = true
		for f := range r {
			if e.recSpec[f] {
				c.RecSpecs = append(c.RecSpecs, f)
			}
		}
		sort.Slice(c.RecSpecs, func(i, j int) bool { return c.RecSpecs[i].String() < c.RecSpecs[j].String() })
		for i := 0; i < c.Spec.Signature.Params().Len(); i++ {
			if n, ok := types.Unalias(c.Spec.Signature.Params().At(i).Type()).(*types.Named); ok && (n.Obj().Name() == "World" || n.Obj().Name() == "Console") {
				c.World = true
			}
		}
	}
	for _, c := range e.clist {
		if c.Target != nil && !c.Final && !exportedTarget(c.Name) && !e.fits(c) {
			// an internal function with another signature
			e.notes = append(e.notes, "the signature of "+c.Name+" changed")
			delete(e.contr, c.Target)
			c.Target = nil
		}
	}
	sort.SliceStable(e.lemmas, func(i, j int) bool {
		a, b := e.lemmas[i].Fn, e.lemmas[j].Fn
		if a.Pkg != b.Pkg {
			return len(a.Pkg.Pkg.Path()) < len(b.Pkg.Pkg.Path())
		}
		return a.Pos() < b.Pos()
	})
	for i, l := range e.lemmas {
		l.idx = i
	}
	return nil
}

// fits: the specification has the parameters and results of the target.
func (e *Engine) fits(c *Contract) bool {
	want := c.Spec.Signature.Params()
	k := 0
	if c.World {
		k = 1
	}
	mutable := 0
	tps := c.Target.Params
	if want.Len()-k != len(tps) {
		return false
	}
	for j, p := range tps {
		w := want.At(k + j).Type()
		if types.Identical(w, p.Type()) {
			continue
		}
		if pt, ok := p.Type().Underlying().(*types.Pointer); ok {
			if f := e.abs[typeName(pt.Elem())]; f != nil && types.Identical(f.Signature.Results().At(0).Type(), w) {
				if !e.absRO[typeName(pt.Elem())] {
					mutable++
				}
				continue
			}
		}
		if types.IsInterface(p.Type()) {
			mutable++
			continue // a stand-in
		}
		return false
	}
	n := c.Target.Signature.Results().Len() + mutable
	if c.World {
		n++
	}
	return c.Spec.Signature.Results().Len() >= c.Target.Signature.Results().Len() && c.Spec.Signature.Results().Len() <= n
}

// ---------- specification evaluation ----------

func (e *Engine) newExec(fn *ssa.Function) *Exec {
	return &Exec{e: e, fn: fn, maxSteps: 400000, joinBad: map[*ssa.Function]bool{}, callsSeen: map[string]bool{}, assumed: map[string]bool{}, loopCache: map[uint64][]*cand{}}
}

// evalSpec evaluates a specification function on symbolic arguments in the
// memory of st (read only) and returns its result values.
func (e *Engine) evalSpec(fn *ssa.Function, args []SV, st *State) (res []SV) {
	return e.evalSpecX(fn, args, st, false)
}

func (e *Engine) evalSpecX(fn *ssa.Function, args []SV, st *State, unfold bool) (res []SV) {
	x := e.newExec(fn)
	x.quiet = 1
	n := &State{x: x, mem: map[int]*Region{}, spec: true}
	if st != nil {
		n.mem = make(map[int]*Region, len(st.mem))
		for k, v := range st.mem {
			n.mem[k] = v
		}
		n.globs = st.globs
		n.reveal = st.reveal
	}
	if e.recSpec[fn] && !unfold && !n.reveals(fn) {
		return e.specApp(x, n, fn, args)
	}
	if len(fn.Blocks) == 0 {
		unsup("specification function %s has no body", fn)
	}
	fr := &Frame{fn: fn, env: map[ssa.Value]SV{}, blk: fn.Blocks[0], cuts: map[*ssa.BasicBlock]*Cut{}, visits: map[*ssa.BasicBlock]int{}}
	for i, p := range fn.Params {
		fr.env[p] = args[i]
	}
	n.fr = []*Frame{fr}
	x.joinLow = int(atomic.LoadInt64(&regCounter))
	x.ptrOut = st != nil
	defer func() {
		if r := recover(); r != nil {
			if j, ok := r.(joinFail); ok {
				unsup("specification %s is not expressible: %s", fn, j.why)
			}
			panic(r)
		}
	}()
	sig := fn.Signature.Results()
	res = x.run(n, &handler{base: 1, join: true, retJoin: func(s *State, rs []SV) []SV {
		return x.joinResults(s, rs, sig)
	}})
	if res == nil {
		unsup("specification %s has no result", fn)
	}
	for k, v := range x.outMem {
		if st.mem[k] == nil && k > x.joinLow {
			st.mem[k] = v
		}
	}
	return res
}

// joinResults makes results independent of branch-local memory.
func (x *Exec) joinResults(s *State, rs []SV, sig *types.Tuple) []SV {
	out := make([]SV, len(rs))
	for i, r := range rs {
		t := sig.At(i).Type()
		switch v := r.(type) {
		case *Term:
			out[i] = v
		case *StructV:
			out[i] = x.term(s, v, t)
			out[i] = x.fromTerm(t, out[i].(*Term))
		default:
			if so := sortOf(t); so != nil && so.Kind != "opaque" {
				out[i] = x.term(s, v, t)
			} else if p, ok := r.(Ptr); ok && p.reg > x.joinLow {
				if !x.ptrOut {
					panic(joinFail{"local pointer result"})
				}
				x.outMem = s.mem
				out[i] = r
			} else {
				out[i] = r
			}
		}
	}
	if out == nil {
		out = []SV{}
	}
	return out
}

func specName(fn *ssa.Function) string { return "spec." + fn.Pkg.Pkg.Name() + "." + fn.Name() }

// specApp builds the uninterpreted application of a recursive spec function.
func (e *Engine) specApp(x *Exec, st *State, fn *ssa.Function, args []SV) []SV {
	var ts []*Term
	for i, a := range args {
		ts = append(ts, x.term(st, a, fn.Params[i].Type()))
	}
	sig := fn.Signature.Results()
	var out []SV
	for k := 0; k < sig.Len(); k++ {
		t := sig.At(k).Type()
		s := sortOf(t)
		if s == nil {
			unsup("result of %s has no sort", fn)
		}
		name := specName(fn)
		if sig.Len() > 1 {
			name += fmt.Sprintf("#%d", k)
		}
		out = append(out, x.fromTerm(t, AppU(name, s, ts...)))
	}
	return out
}

// AppU applies an uninterpreted function without an implied integer range.
func AppU(name string, ret *Sort, args ...*Term) *Term {
	return AppR(name, ret, nil, nil, args...)
}

func (e *Engine) specByApp(name string) (*ssa.Function, int) {
	base, ks, has := strings.Cut(name, "#")
	k := 0
	if has {
		fmt.Sscanf(ks, "%d", &k)
	}
	for fn := range e.recSpec {
		if specName(fn) == base {
			return fn, k
		}
	}
	return nil, 0
}

// reveals reports whether the definition of an opaque constant may be used.
func (st *State) reveals(fn *ssa.Function) bool {
	return st.reveal != "" && st.x.e.opaque[fn] == st.reveal
}

// opaqueTerms lists the opaque constants with their definitions.
func (e *Engine) opaqueTerms() map[*Term]*Term {
	e.opaqueOnce.Do(func() {
		e.opaqueT = map[*Term]*Term{}
		for fn := range e.opaque {
			t := fn.Signature.Results().At(0).Type()
			st := &State{x: e.newExec(fn), mem: map[int]*Region{}, spec: true}
			e.opaqueT[AppU(specName(fn), sortOf(t))] = st.x.term(st, e.evalSpecX(fn, nil, nil, true)[0], t)
		}
	})
	return e.opaqueT
}

type unfoldKey struct {
	t *Term
}

// unfold returns the definition of a spec application.
func (e *Engine) unfold(t *Term) (r *Term) {
	if fn, _ := e.specByApp(t.S); e.uninterp[fn] {
		return nil
	}
	if v, ok := e.recMemo.Load(unfoldKey{t}); ok {
		return v.(*Term)
	}
	fn, k := e.specByApp(t.S)
	if fn == nil {
		return nil
	}
	x := e.newExec(fn)
	var args []SV
	for i, a := range t.Args {
		args = append(args, x.fromTerm(fn.Params[i].Type(), a))
	}
	res := e.evalSpecX(fn, args, nil, true)
	st := &State{x: x, mem: map[int]*Region{}, spec: true}
	for j := range res {
		tt := x.term(st, res[j], fn.Signature.Results().At(j).Type())
		if j == k {
			r = tt
		}
		if len(res) > 1 {
			base, _, _ := strings.Cut(t.S, "#")
			o := AppU(fmt.Sprintf("%s#%d", base, j), tt.Sort, t.Args...)
			if o.Op == "app" {
				e.recMemo.Store(unfoldKey{o}, tt)
			}
		}
	}
	e.recMemo.Store(unfoldKey{t}, r)
	return r
}

// recFold evaluates spec applications on constants.
var foldDepth int64

func (e *Engine) recFold(name string, ret *Sort, args []*Term) (out *Term) {
	if !strings.HasPrefix(name, "spec.") {
		return nil
	}
	key := name
	for _, a := range args {
		key += fmt.Sprintf(",%d", a.id)
	}
	if v, ok := e.recMemo.Load(key); ok {
		if v == nil {
			return nil
		}
		t, _ := v.(*Term)
		return t
	}
	fn, k := e.specByApp(name)
	if fn == nil || e.uninterp[fn] {
		return nil
	}
	if atomic.AddInt64(&foldDepth, 1) > 3000 {
		atomic.AddInt64(&foldDepth, -1)
		return nil
	}
	defer atomic.AddInt64(&foldDepth, -1)
	defer func() {
		if r := recover(); r != nil {
			if _, ok := r.(Unsupported); ok {
				out = nil
				e.recMemo.Store(key, (*Term)(nil))
				return
			}
			panic(r)
		}
	}()
	x := e.newExec(fn)
	var as []SV
	for i, a := range args {
		as = append(as, x.fromTerm(fn.Params[i].Type(), a))
	}
	res := e.evalSpecX(fn, as, nil, true)
	st := &State{x: x, mem: map[int]*Region{}, spec: true}
	out = x.term(st, res[k], fn.Signature.Results().At(k).Type())
	if out.Op == "app" && out.S == name {
		out = nil
	}
	e.recMemo.Store(key, out)
	return out
}

// ---------- lemmas ----------

func (l *Lemma) prepare(e *Engine) {
	l.once.Do(func() {
		defer func() {
			if r := recover(); r != nil {
				l.err = fmt.Sprint(r)
				if os.Getenv("GOVER_DEBUG") != "" {
					fmt.Fprintln(os.Stderr, "lemma", l.Fn.Name(), l.err)
				}
			}
		}()
		x := e.newExec(l.Fn)
		x.quiet = 1
		var args []SV
		for _, p := range l.Fn.Params {
			s := sortOf(p.Type())
			if s == nil {
				unsup("lemma parameter %s", p.Name())
			}
			v := TVar(fmt.Sprintf("lem%d.%s", l.idx, p.Name()), s)
			l.vars = append(l.vars, v)
			args = append(args, x.fromTerm(p.Type(), v))
		}
		trigMu.Lock()
		defer trigMu.Unlock()
		trigOut = &l.pats
		defer func() { trigOut = nil }()
		res := e.evalSpecX(l.Fn, args, nil, true)
		l.body = res[0].(*Term)
	})
}

var (
	trigOut *[]*Term
	trigMu  sync.Mutex
)

func matchTerm(p, t *Term, vars map[*Term]bool, b map[*Term]*Term) bool {
	if vars[p] {
		if o, ok := b[p]; ok {
			return o == t
		}
		if p.Sort != t.Sort {
			return false
		}
		b[p] = t
		return true
	}
	if p == t {
		return true
	}
	if p.Op != t.Op || p.S != t.S || p.Sort != t.Sort || len(p.Args) != len(t.Args) || p.N != t.N {
		return false
	}
	switch p.Op {
	case "app", "slen", "sat", "ssub", "mk", "get", "is", "sunit", "scat":
	default:
		return false
	}
	for i := range p.Args {
		if !matchTerm(p.Args[i], t.Args[i], vars, b) {
			return false
		}
	}
	return true
}

// groundInstances returns new unfoldings and lemma instances for the terms
// collected in g.
func (e *Engine) groundInstances(g *smtGen, done map[*Term]bool, doneL map[string]bool, round int, ex *exclude) []*Term {
	var out []*Term
	order := g.order
	for _, t := range order {
		if t.Op == "app" && strings.HasPrefix(t.S, "spec.") && !done[t] {
			done[t] = true
			if d := e.unfold(t); d != nil {
				out = append(out, intern(&Term{Op: "=", Sort: SBool, Args: []*Term{t, d}}))
			}
		}
	}
	for _, l := range e.lemmas {
		if ex != nil && ex.lemmas[l.idx] {
			continue
		}
		l.prepare(e)
		if l.err != "" || len(l.pats) == 0 {
			continue
		}
		vars := map[*Term]bool{}
		for _, v := range l.vars {
			vars[v] = true
		}
		n := 0
		var rec func(k int, b map[*Term]*Term)
		rec = func(k int, b map[*Term]*Term) {
			if n > 60 {
				return
			}
			if k == len(l.pats) {
				key := fmt.Sprint(l.idx)
				for _, v := range l.vars {
					if b[v] == nil {
						return
					}
					key += fmt.Sprintf(",%d", b[v].id)
				}
				if doneL[key] {
					return
				}
				doneL[key] = true
				n++
				e.trMu.Lock()
				e.usedLem[l.Fn.Name()] = true
				e.trMu.Unlock()
				f := subst(l.body, b)
				if f != TTrue {
					out = append(out, f)
				}
				return
			}
			for _, t := range order {
				nb := map[*Term]*Term{}
				for a, c := range b {
					nb[a] = c
				}
				if matchTerm(l.pats[k], t, vars, nb) {
					rec(k+1, nb)
				}
			}
		}
		rec(0, map[*Term]*Term{})
	}
	return out
}

type exclude struct{ lemmas map[int]bool }
