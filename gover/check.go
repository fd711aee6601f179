package main

// gover check: decides one property on the current source.

import (
	"bufio"
	"encoding/json"
	"flag"
	"fmt"
	"go/constant"
	"go/types"
	"os"
	"os/exec"
	"path/filepath"
	"sort"
	"strconv"
	"strings"
	"sync"
	"time"

	"golang.org/x/tools/go/ssa"
)

// propsOf: the properties an obligation of a contract decides.
func (c *Contract) propsOf(o *Obligation) map[string]bool {
	out := map[string]bool{}
	add := func(ps []string) {
		for _, p := range ps {
			out[p] = true
		}
	}
	tags := o.Tags
	if len(tags) == 0 {
		add(c.allProps())
		return out
	}
	for _, t := range tags {
		add(c.Tags[t])
		switch t {
		case "content", "point", "mark", "match", "mstart", "mend":
			add(c.Props)
			if c.isCommand() && t != "content" && t != "point" {
				add([]string{"C06"})
			}
		case "errframe":
			if c.isCommand() {
				add([]string{"C06"})
			} else {
				add(c.Props)
			}
		case "frame":
			add(c.Props)
			if c.isCommand() {
				add([]string{"C06"})
			}
		case "inv":
			add([]string{"C02"})
		case "safety":
			add(c.allProps())
		case "unsupported", "loop":
			add(c.allProps())
		default:
			add(c.Props)
		}
	}
	return out
}

func (c *Contract) isCommand() bool { return strings.HasPrefix(c.Name, "Builtin") }

func (c *Contract) touchesBuffer() bool {
	for i := 0; i < c.Spec.Signature.Params().Len(); i++ {
		if n, ok := c.Spec.Signature.Params().At(i).Type().(*types.Named); ok && n.Obj().Name() == "Buf" {
			return true
		}
	}
	return false
}

// allProps: the properties a contract takes part in.
func (c *Contract) allProps() []string {
	m := map[string]bool{}
	for _, p := range c.Props {
		m[p] = true
	}
	for _, ps := range c.Tags {
		for _, p := range ps {
			m[p] = true
		}
	}
	if c.isCommand() {
		m["C01"], m["C02"], m["C06"] = true, true, true
	} else if c.touchesBuffer() && c.Spec.Pkg.Pkg.Path() == edl {
		m["C01"], m["C02"] = true, true
	}
	return sortedKeys(m)
}

type mismatch struct {
	Target string   `json:"target"`
	Tag    string   `json:"tag"`
	Input  []string `json:"input"`
	Want   string   `json:"want"`
	Got    string   `json:"got"`
	Evals  int      `json:"evals"`
}

type failure struct {
	Contract   string   `json:"contract"`
	Pkg        string   `json:"package"`
	Obligation string   `json:"obligation"`
	Kind       string   `json:"kind"`
	Where      string   `json:"where"`
	Solver     string   `json:"solver"`
	Path       []string `json:"path_condition,omitempty"`
	Goal       string   `json:"goal,omitempty"`
}

func cutStr(s string, n int) string {
	if len(s) > n {
		return s[:n] + "..."
	}
	return s
}

func checkMain(args []string) int {
	fs := flag.NewFlagSet("check", flag.ExitOnError)
	repo := fs.String("repo", "/repo", "")
	verif := fs.String("verif", "/verif", "")
	prop := fs.String("prop", "", "property id")
	tier := fs.String("tier", "quick", "")
	only := fs.String("only", "", "substring of contract names (development)")
	replayOnly := fs.Bool("replayonly", false, "only search failing inputs for the functions selected (development)")
	fs.Parse(args)
	t0 := time.Now()
	seed, _ := strconv.Atoi(os.Getenv("VERIF_SEED"))
	if seed == 0 {
		seed = 1
	}
	contracts := filepath.Join(*verif, "contracts")
	var fails []failure
	var concrete []mismatch
	ev := map[string]any{}
	finish := func(cov map[string]any, assumptions []string) int {
		ev["property"] = *prop
		ev["tier"] = *tier
		ev["seed"] = seed
		ev["level"] = "proof"
		ev["coverage"] = cov
		ev["assumptions"] = assumptions
		ev["wall_s"] = time.Since(t0).Seconds()
		n := len(fails)
		if n == 0 {
			n = len(concrete)
		}
		ev["violations"] = n
		os.MkdirAll(filepath.Join(*verif, "evidence"), 0755)
		b, _ := json.MarshalIndent(ev, "", " ")
		if err := os.WriteFile(filepath.Join(*verif, "evidence", *prop+".json"), append(b, '\n'), 0644); err != nil {
			fmt.Fprintln(os.Stderr, err)
		}
		if len(fails) == 0 && len(concrete) == 0 {
			fmt.Printf("%s: held (%.0f s)\n", *prop, time.Since(t0).Seconds())
			return 0
		}
		dir := filepath.Join(*verif, "evidence", "replay")
		os.MkdirAll(dir, 0755)
		path := filepath.Join(dir, *prop+".txt")
		var w strings.Builder
		for _, m := range concrete {
			fmt.Fprintf(&w, "failing input of %s (%s)\n", m.Target, m.Tag)
			for _, in := range m.Input {
				fmt.Fprintf(&w, "  argument %s\n", in)
			}
			fmt.Fprintf(&w, "  contract demands %s\n  the real code gives %s\n\n", m.Want, m.Got)
		}
		for _, f := range fails {
			fmt.Fprintf(&w, "failed obligation: %s: %s [%s] %s\n  solver: %s\n", f.Contract, f.Obligation, f.Kind, f.Where, f.Solver)
			for _, p := range f.Path {
				fmt.Fprintf(&w, "  | %s\n", p)
			}
			if f.Goal != "" {
				fmt.Fprintf(&w, "  |- %s\n", f.Goal)
			}
		}
		os.WriteFile(path, []byte(w.String()), 0644)
		fmt.Print(cutStr(w.String(), 6000))
		s := fmt.Sprintf("VIOLATION property=%s replay=%s", *prop, path)
		if len(concrete) == 0 {
			s += " no-failing-input-found"
		}
		fmt.Println("\n" + s)
		return 1
	}
	e, err := Load(*repo, contracts, contractPkgs(contracts))
	if err != nil {
		fails = append(fails, failure{Contract: "all", Obligation: "the contracts apply to the current source", Kind: "load", Solver: err.Error()})
		return finish(map[string]any{"obligations": 1, "discharged": 0, "checker_cmd": "gover", "trusted_base": []string{}}, nil)
	}
	for _, n := range e.lost {
		if exportedTarget(n) {
			fails = append(fails, failure{Contract: n, Obligation: "the contract applies to the current source", Kind: "load", Solver: strings.Join(e.notes, "; ")})
		}
	}
	limit := 420 * time.Second
	if *tier == "thorough" {
		limit = 700 * time.Second
	}
	e.solver.deadline = t0.Add(limit)

	if *replayOnly {
		var cs []*Contract
		bad := map[*Contract]bool{}
		for _, c := range e.clist {
			if c.Target != nil && strings.Contains(c.Name, *only) {
				cs = append(cs, c)
				bad[c] = true
			}
		}
		ms, n, nt := e.replay(cs, bad, *tier, seed, contracts, *verif)
		fmt.Println(len(cs), "contracts,", n, "evaluations", nt)
		for _, m := range ms {
			fmt.Println("MISMATCH", m.Target, m.Tag, m.Input)
		}
		return 0
	}

	// the contracts of the property, then everything they call
	reports := map[*Contract]*FnReport{}
	root := map[*Contract]bool{}
	var work []*Contract
	for _, c := range e.clist {
		if *only != "" && !strings.Contains(c.Name, *only) {
			continue
		}
		for _, p := range c.allProps() {
			if p == *prop {
				root[c] = true
			}
		}
		if root[c] {
			work = append(work, c)
		}
	}
	byName := map[string][]*Contract{}
	for _, c := range e.clist {
		byName[c.Name] = append(byName[c.Name], c)
	}
	for len(work) > 0 {
		var wg sync.WaitGroup
		sem := make(chan struct{}, 6)
		var mu sync.Mutex
		// slow ones first
		sort.SliceStable(work, func(i, j int) bool { return e.weight(work[i]) > e.weight(work[j]) })
		for _, c := range work {
			c := c
			wg.Add(1)
			sem <- struct{}{}
			go func() {
				defer wg.Done()
				r := e.verify(c, *tier)
				mu.Lock()
				reports[c] = r
				mu.Unlock()
				<-sem
			}()
		}
		wg.Wait()
		next := map[*Contract]bool{}
		for _, c := range work {
			for _, n := range reports[c].Calls {
				for _, d := range byName[n] {
					if reports[d] == nil && !next[d] {
						next[d] = true
					}
				}
			}
		}
		work = nil
		for _, c := range e.clist {
			if next[c] {
				work = append(work, c)
			}
		}
	}
	var lemmas []*FnReport
	for _, l := range e.lemmas {
		lemmas = append(lemmas, e.verifyLemma(l, *tier))
	}

	// which obligations count
	relevant := func(c *Contract, o *Obligation) bool {
		if !root[c] {
			return true
		}
		return c.propsOf(o)[*prop]
	}
	nObl, nDone := 0, 0
	assumed := []string{}
	var funcs, uncovered []string
	bad := map[*Contract]bool{}
	seenFail := map[string]bool{}
	kinds := map[string]int{}
	back := map[string]int{}
	note := func(c *Contract, r *FnReport, o *Obligation) {
		nObl++
		if o.res == Unsat {
			nDone++
			kinds[o.Kind]++
			back[o.back]++
			return
		}
		if c != nil {
			bad[c] = true
		}
		key := r.Pkg + r.Name + o.Name + o.Pos
		if seenFail[key] || strings.HasPrefix(o.back, "skipped") {
			return
		}
		seenFail[key] = true
		f := failure{Contract: demangle(r.Name), Pkg: r.Pkg, Obligation: o.Name, Kind: o.Kind, Where: o.Pos, Solver: o.back}
		for _, p := range o.PC {
			f.Path = append(f.Path, demangle(cutStr(fmt.Sprint(p), 600)))
		}
		f.Goal = demangle(cutStr(fmt.Sprint(o.Goal), 2000))
		fails = append(fails, f)
	}
	var used []*Contract
	for _, c := range e.clist {
		r := reports[c]
		if r == nil {
			continue
		}
		if c.Target == nil && !exportedTarget(c.Name) {
			continue // an internal function that is no longer there
		}
		used = append(used, c)
		if c.Opaque {
			assumed = append(assumed, c.Name)
			continue
		}
		n := 0
		for _, o := range r.Obls {
			if relevant(c, o) {
				note(c, r, o)
				n++
			}
		}
		if n > 0 {
			funcs = append(funcs, fmt.Sprintf("%s.%s (%d obligations, %d paths)", shortPkg(r.Pkg), c.Name, n, r.Paths))
			if r.Covered == 0 {
				uncovered = append(uncovered, c.Name)
			}
		}
	}
	var axioms []string
	for i, r := range lemmas {
		if e.lemmas[i].Axiom {
			axioms = append(axioms, shortPkg(r.Pkg)+"."+demangle(e.lemmas[i].Fn.Name()))
			continue
		}
		for _, o := range r.Obls {
			note(nil, r, o)
		}
	}
	if nObl == 0 {
		fails = append(fails, failure{Contract: "all", Obligation: "the property has obligations", Kind: "vacuity", Solver: "no contract generated an obligation"})
	}

	// replay: search failing inputs on the real code; a short run also where
	// everything was proved, as a cross-check of the verifier
	evals := 0
	if len(fails) > 0 || len(used) > 0 {
		ms, n, note := e.replay(used, bad, *tier, seed, contracts, *verif)
		evals = n
		if note != "" {
			ev["replay_note"] = cutStr(note, 1500)
		}
		byKey := map[string]*Contract{}
		for _, c := range used {
			byKey[shortPkg(c.Spec.Pkg.Pkg.Path())+"."+c.Name] = c
		}
		for _, m := range ms {
			if m.Tag == "axiom" {
				concrete = append(concrete, m)
				continue
			}
			c := byKey[m.Target]
			if c == nil {
				continue
			}
			if relevant(c, &Obligation{Tags: []string{m.Tag}}) {
				concrete = append(concrete, m)
			}
		}
	}
	sort.Strings(uncovered)
	cov := map[string]any{
		"obligations":              nObl,
		"discharged":               nDone,
		"checker_cmd":              fmt.Sprintf("gover check -prop %s -tier %s", *prop, *tier),
		"trusted_base":             trustedBase(e),
		"functions_under_contract": funcs,
		"obligation_kinds":         kinds,
		"discharged_by":            back,
		"queries_proved_by":        e.solver.ByBack,
		"solver_s":                 float64(e.solver.TimeNS) / 1e9,
		"solver_queries":           e.solver.Queries,
		"library_axioms":           axioms,
		"assumed_contracts":        assumed,
		"evaluations":              evals,
		"rule":                     "evaluations: calls of the real function compared with its executable contract on generated inputs (cross-check of the verifier and search for failing inputs, bounded, not counted as proof)",
	}
	if len(uncovered) > 0 {
		cov["not_reached_by_samples"] = uncovered
	}
	if len(e.notes) > 0 {
		cov["contracts_taken_out"] = e.notes
	}
	as := append([]string{
		"strings and slices have at most 2^48 elements; Go integers are 64-bit and wrap (modelled), specification integers are mathematical",
		"float64 is modelled by comparison and conversion axioms only",
		"calls within one goroutine; no concurrent access to a buffer or a value",
		"standard library functions without axioms are uninterpreted, total and pure",
	}, sortedKeys(e.trusted)...)
	e.solver.Close()
	return finish(cov, as)
}

func exportedTarget(n string) bool {
	if i := strings.LastIndex(n, "."); i >= 0 {
		n = n[i+1:]
	}
	return n != "" && n[0] >= 'A' && n[0] <= 'Z'
}

func shortPkg(p string) string {
	if p == modPath {
		return "texted"
	}
	return strings.TrimPrefix(strings.TrimPrefix(p, modPath+"/"), "edlisp/")
}

func trustedBase(e *Engine) []string {
	return []string{"gover (symbolic execution of go/ssa, verification condition generation, loop invariant search with inductiveness checked by the solver)", "golang.org/x/tools/go/ssa and the Go type checker", "z3, cvc5", "the Go compiler preserves the semantics of the SSA form"}
}

// weight guesses how long a function takes.
func (e *Engine) weight(c *Contract) int {
	if c.Target == nil {
		return 0
	}
	n := len(e.loops(c.Target)) * 100
	for _, b := range c.Target.Blocks {
		n += len(b.Instrs)
	}
	return n
}

func contractPkgs(dir string) []string {
	m := map[string]bool{}
	filepath.Walk(dir, func(p string, fi os.FileInfo, err error) error {
		if err == nil && !fi.IsDir() && strings.HasSuffix(p, ".go") {
			rel, _ := filepath.Rel(dir, filepath.Dir(p))
			if rel == "." {
				m["."] = true
			} else {
				m["./"+rel] = true
			}
		}
		return nil
	})
	return sortedKeys(m)
}

// ---------- replay ----------

func goQuote(ss []string) string {
	var q []string
	for _, s := range ss {
		q = append(q, strconv.Quote(s))
	}
	return "[]string{" + strings.Join(q, ", ") + "}"
}

// harvest collects the constants a function and its callees mention, the
// closest ones first.
func harvest(fn *ssa.Function) (ints []int, strs []string, bytes string) {
	seen := map[*ssa.Function]bool{}
	im := map[int]bool{}
	sm := map[string]bool{}
	bm := map[byte]bool{}
	level := []*ssa.Function{fn}
	for d := 0; d <= 6 && len(level) > 0; d++ {
		var next []*ssa.Function
		ni, ns := map[int]bool{}, map[string]bool{}
		for _, f := range level {
			if f == nil || seen[f] || f.Pkg == nil || !strings.HasPrefix(f.Pkg.Pkg.Path(), modPath) {
				continue
			}
			seen[f] = true
			next = append(next, f.AnonFuncs...)
			for _, b := range f.Blocks {
				for _, in := range b.Instrs {
					for _, op := range in.Operands(nil) {
						switch c := (*op).(type) {
						case *ssa.Const:
							if c.Value == nil {
								continue
							}
							bt, ok := c.Type().Underlying().(*types.Basic)
							if !ok {
								continue
							}
							switch {
							case c.Value.Kind() == constant.String:
								s := constant.StringVal(c.Value)
								if len(s) < 24 && !strings.Contains(s, "%") && !sm[s] {
									ns[s] = true
								}
							case bt.Kind() == types.Uint8 || bt.Kind() == types.Int32:
								if v, ok := constant.Int64Val(c.Value); ok && v >= 0 && v < 256 {
									bm[byte(v)] = true
								}
							case c.Value.Kind() == constant.Int:
								if v, ok := constant.Int64Val(c.Value); ok && v > -1e7 && v < 1e7 && !im[int(v)] {
									ni[int(v)] = true
								}
							case c.Value.Kind() == constant.Float:
								if v, ok := constant.Float64Val(c.Value); ok && v > -1e7 && v < 1e7 && !im[int(v)] {
									ni[int(v)] = true
								}
							}
						case *ssa.Function:
							next = append(next, c)
						}
					}
					if c, ok := in.(ssa.CallInstruction); ok {
						next = append(next, c.Common().StaticCallee())
					}
				}
			}
		}
		var is []int
		for k := range ni {
			im[k] = true
			is = append(is, k)
		}
		sort.Ints(is)
		ints = append(ints, is...)
		for _, k := range sortedKeys(ns) {
			sm[k] = true
			strs = append(strs, k)
		}
		level = next
	}
	for b := 0; b < 256; b++ {
		if bm[byte(b)] {
			bytes += string([]byte{byte(b)})
		}
	}
	if len(ints) > 60 {
		ints = ints[:60]
	}
	if len(strs) > 60 {
		strs = strs[:60]
	}
	return
}

func (e *Engine) replay(cs []*Contract, bad map[*Contract]bool, tier string, seed int, contracts, verif string) (out []mismatch, evals int, note string) {
	byPkg := map[string][]*Contract{}
	for _, c := range cs {
		if c.Target != nil && c.Target.Blocks != nil {
			byPkg[c.Spec.Pkg.Pkg.Path()] = append(byPkg[c.Spec.Pkg.Pkg.Path()], c)
		}
	}
	tmp, err := os.MkdirTemp("", "gover-replay-")
	if err != nil {
		return nil, 0, err.Error()
	}
	if k := os.Getenv("GOVER_KEEP"); k == "" {
		defer os.RemoveAll(tmp)
	}
	var mu sync.Mutex
	var wg sync.WaitGroup
	for _, pk := range sortedKeys2(byPkg) {
		pk := pk
		wg.Add(1)
		go func() {
			defer wg.Done()
			ms, n, nt := e.replayPkg(pk, byPkg[pk], bad, tier, seed, tmp, verif)
			mu.Lock()
			defer mu.Unlock()
			out = append(out, ms...)
			evals += n
			if nt != "" {
				note += pk + ": " + nt + "\n"
			}
		}()
	}
	wg.Wait()
	return
}

func sortedKeys2(m map[string][]*Contract) []string {
	var ks []string
	for k := range m {
		ks = append(ks, k)
	}
	sort.Strings(ks)
	return ks
}

func (e *Engine) replayPkg(pk string, cs []*Contract, bad map[*Contract]bool, tier string, seed int, tmp, verif string) (out []mismatch, evals int, note string) {
	short := shortPkg(pk)
	hook, err := os.ReadFile(filepath.Join(verif, "gover", "replay", short+".go.txt"))
	if err != nil {
		return nil, 0, "" // no harness for this package
	}
	harness, err := os.ReadFile(filepath.Join(verif, "gover", "replay.go.txt"))
	if err != nil {
		return nil, 0, err.Error()
	}
	sp := cs[0].Spec.Pkg
	dir := filepath.Dir(e.fileOf(sp))
	files := map[string]string{}
	text := map[string][]byte{}
	for k, v := range e.overlay {
		if filepath.Dir(k) == dir {
			files[k] = v
			b, err := os.ReadFile(v)
			if err != nil {
				return nil, 0, err.Error()
			}
			text[k] = pruneText(b, e.pruned[k])
		}
	}
	total := 20 * time.Second
	if tier == "thorough" {
		total = 100 * time.Second
	}
	if n, err := strconv.Atoi(os.Getenv("GOVER_TOTAL")); err == nil {
		total = time.Duration(n) * time.Second
	}
	per := 250 * time.Millisecond
	if tier == "thorough" {
		per = 4 * time.Second
	}
	nbad := 0
	for _, c := range cs {
		if bad[c] {
			nbad++
		}
	}
	table := func() (map[string][]byte, error) {
		var tb strings.Builder
		tb.WriteString("package PKG\n\nimport \"time\"\n\nvar goverTargets = []goverTarget{\n")
		hooks := string(hook)
		for _, c := range cs {
			if strings.Contains(hooks, "//skip "+c.Name+"\n") {
				continue
			}
			b := per
			if bad[c] {
				b = total * 4 / time.Duration(nbad+3)
				if b > total {
					b = total
				}
			}
			ints, strs, bytes := harvest(c.Target)
			fn := c.Name
			if strings.HasPrefix(fn, "(*") {
				// method expression
			}
			pre := "nil"
			if c.Pre != nil {
				pre = demangle(c.Pre.Name())
			}
			tgt := fn
			if strings.Contains(hooks, "func replayOf_"+sanitize(c.Name)+"(") {
				fmt.Fprintf(&tb, "{name: %q, custom: replayOf_%s, budget: %d, seed: %d, ints: []int{%s}, strs: %s, bytes: %q},\n", short+"."+c.Name, sanitize(c.Name), int64(b), seed, joinInts(ints), goQuote(strs), bytes)
				continue
			}
			_ = time.Second
			fmt.Fprintf(&tb, "{name: %q, fn: %s, spec: %s, pre: %s, raw: %v, nowf: %v, budget: %d, seed: %d, ints: []int{%s}, strs: %s, bytes: %q},\n", short+"."+c.Name, tgt, demangle(c.Spec.Name()), pre, c.Raw, c.NoWf, int64(b), seed, joinInts(ints), goQuote(strs), bytes)
		}
		for _, l := range e.lemmas {
			if l.Fn.Pkg == sp && !strings.Contains(hooks, "//skip "+demangle(l.Fn.Name())+"\n") {
				fmt.Fprintf(&tb, "{name: %q, spec: %s, axiom: true, budget: %d, seed: %d, strs: []string{\"a\", \"\\n\"}},\n", short+"."+demangle(l.Fn.Name()), demangle(l.Fn.Name()), int64(per/2), seed)
			}
		}
		tb.WriteString("}\n\nvar _ = time.Second\n")
		pkgName := sp.Pkg.Name()
		put := func(name string, b []byte) {
			text[filepath.Join(dir, name)] = []byte(strings.Replace(string(b), "package PKG", "package "+pkgName, 1))
		}
		put("zz_gover_replay_test.go", harness)
		put("zz_gover_hooks_test.go", hook)
		put("zz_gover_table_test.go", []byte(tb.String()))
		return mangle(text, func(n string) bool { return !strings.HasSuffix(n, "_test.go") })
	}
	repl := map[string]string{}
	write := func() (map[string][]byte, error) {
		m, err := table()
		if err != nil {
			return nil, err
		}
		for k, b := range m {
			f := filepath.Join(tmp, short+"-"+filepath.Base(k))
			if err := os.WriteFile(f, b, 0644); err != nil {
				return nil, err
			}
			repl[k] = f
		}
		return m, nil
	}
	m, err := write()
	if err != nil {
		return nil, 0, err.Error()
	}
	// the package's own tests are not run
	if fs, err := filepath.Glob(filepath.Join(dir, "*_test.go")); err == nil {
		for _, f := range fs {
			repl[f] = ""
		}
	}
	// contracts of packages this one depends on
	others := map[string]string{}
	for k, v := range e.overlay {
		if filepath.Dir(k) != dir {
			others[k] = v
		}
	}
	om, err := e.overlayText(others)
	if err != nil {
		return nil, 0, err.Error()
	}
	om2 := map[string]bool{}
	for k := range om {
		om2[k] = true
	}
	for n, k := range sortedKeys(om2) {
		f := filepath.Join(tmp, fmt.Sprintf("%s-dep%d-%s", short, n, filepath.Base(k)))
		if err := os.WriteFile(f, om[k], 0644); err != nil {
			return nil, 0, err.Error()
		}
		repl[k] = f
	}
	oj, _ := json.Marshal(map[string]any{"Replace": repl})
	ovf := filepath.Join(tmp, short+"-overlay.json")
	os.WriteFile(ovf, oj, 0644)
	outf := filepath.Join(tmp, short+"-out.jsonl")
	rel, _ := filepath.Rel(e.repo, dir)
	// hooks that no longer fit the source are taken out
	keys := map[string]bool{}
	for round := 0; round < 20; round++ {
		c := exec.Command("go", "test", "-overlay", ovf, "-vet=off", "-gcflags=-e", "-c", "-o", os.DevNull, "./"+rel)
		c.Dir = e.repo
		co, err := c.CombinedOutput()
		if err == nil {
			break
		}
		progress := false
		for _, l := range strings.Split(string(co), "\n") {
			f, line := splitPos(l)
			if filepath.Base(f) != "zz_gover_hooks_test.go" && !strings.HasSuffix(f, short+"-zz_gover_hooks_test.go") {
				continue
			}
			if k := declAt(m[filepath.Join(dir, "zz_gover_hooks_test.go")], line); k != "" && !keys[k] {
				keys[k] = true
				progress = true
			}
		}
		if !progress {
			break
		}
		hook = pruneText(hook, keys)
		if m, err = write(); err != nil {
			return nil, 0, err.Error()
		}
	}
	cmd := exec.Command("go", "test", "-overlay", ovf, "-vet=off", "-count=1", "-timeout", "600s", "-run", "^TestGoverReplay$", "./"+rel)
	cmd.Dir = e.repo
	scratch := filepath.Join(tmp, short+"-scratch")
	os.MkdirAll(scratch, 0755)
	cmd.Env = append(os.Environ(), "GOVER_OUT="+outf, "GOVER_SCRATCH="+scratch)
	co, err := cmd.CombinedOutput()
	if err != nil || strings.Contains(string(co), "harness:") {
		note = cutStr(string(co), 3000)
	}
	f, err := os.Open(outf)
	if err != nil {
		return nil, 0, note
	}
	defer f.Close()
	sc := bufio.NewScanner(f)
	sc.Buffer(nil, 1<<26)
	for sc.Scan() {
		var mm mismatch
		if json.Unmarshal(sc.Bytes(), &mm) != nil {
			continue
		}
		if mm.Tag == "" {
			evals += mm.Evals
			continue
		}
		out = append(out, mm)
	}
	return out, evals, note
}

func sanitize(s string) string {
	return strings.NewReplacer("(", "", ")", "", "*", "", ".", "_").Replace(s)
}

func joinInts(xs []int) string {
	var s []string
	for _, x := range xs {
		s = append(s, strconv.Itoa(x))
	}
	return strings.Join(s, ", ")
}

func (e *Engine) fileOf(sp *ssa.Package) string {
	for i, s := range e.spkgs {
		if s == sp {
			for _, f := range e.pkgs[i].CompiledGoFiles {
				return f
			}
		}
	}
	return ""
}
