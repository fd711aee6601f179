package main

// SMT-LIB generation: sequence axioms, ground extensionality instances,
// ground unfoldings of recursive specification functions and lemma instances.

import (
	"fmt"
	"math/big"
	"sort"
	"strings"
)

type Query struct {
	PC   []*Term
	Goal *Term
	Ex   *exclude
}

func smtInt(i *big.Int) string {
	if i.Sign() < 0 {
		return "(- " + new(big.Int).Neg(i).String() + ")"
	}
	return i.String()
}

type smtGen struct {
	names map[*Term]string // shared subterms
	lits  map[*Term]string
	vars  map[*Term]bool
	uf    map[string]*Term
	sorts map[string]*Sort
	fl    map[*Term]bool
	seen  map[*Term]bool
	order []*Term
	apps  map[string][]*Term
	eqs   []*Term
}

func newGen() *smtGen {
	return &smtGen{names: map[*Term]string{}, lits: map[*Term]string{}, vars: map[*Term]bool{}, uf: map[string]*Term{}, sorts: map[string]*Sort{}, fl: map[*Term]bool{}, seen: map[*Term]bool{}, apps: map[string][]*Term{}}
}

func (g *smtGen) useSort(s *Sort) {
	if g.sorts[s.Name] != nil {
		return
	}
	g.sorts[s.Name] = s
	if s.Elem != nil {
		g.useSort(s.Elem)
	}
	if s.Key != nil {
		g.useSort(s.Key)
	}
	for _, c := range s.Ctor {
		for _, f := range c.Fields {
			g.useSort(f)
		}
	}
}

func (g *smtGen) collect(t *Term) {
	if g.seen[t] {
		return
	}
	g.seen[t] = true
	for _, a := range t.Args {
		g.collect(a)
	}
	g.useSort(t.Sort)
	switch t.Op {
	case "var":
		g.vars[t] = true
	case "lit":
		if _, ok := g.lits[t]; !ok {
			g.lits[t] = fmt.Sprintf("lit!%d", len(g.lits))
		}
	case "flt":
		g.fl[t] = true
	case "app":
		g.uf[t.S] = t
		g.apps[t.S] = append(g.apps[t.S], t)
	case "=":
		if t.Args[0].Sort.Kind == "seq" {
			g.eqs = append(g.eqs, t)
		}
	}
	g.order = append(g.order, t)
}

func sq(s *Sort) string { return s.Name[4:] }

// expr prints a term; shared large subterms are let-bound globally through
// define-fun (names).
func (g *smtGen) expr(t *Term) string {
	if n, ok := g.names[t]; ok {
		return n
	}
	return g.expr1(t)
}
func (g *smtGen) expr1(t *Term) string {
	switch t.Op {
	case "int":
		return smtInt(t.I)
	case "true", "false":
		return t.Op
	case "var":
		return "v!" + smtName(t.S)
	case "lit":
		return g.lits[t]
	case "flt":
		return fltName(t)
	case "sempty":
		return "empty_" + sq(t.Sort)
	}
	as := make([]string, len(t.Args))
	for i, a := range t.Args {
		as[i] = g.expr(a)
	}
	switch t.Op {
	case "*":
		if len(t.Args) == 1 {
			return "(* " + smtInt(t.I) + " " + as[0] + ")"
		}
		return "(mulx " + as[0] + " " + as[1] + ")"
	case "slen":
		return "(slen_" + sq(t.Args[0].Sort) + " " + as[0] + ")"
	case "sat":
		return "(sat_" + sq(t.Args[0].Sort) + " " + as[0] + " " + as[1] + ")"
	case "scat":
		r := as[len(as)-1]
		for i := len(as) - 2; i >= 0; i-- {
			r = "(scat_" + sq(t.Sort) + " " + as[i] + " " + r + ")"
		}
		return r
	case "ssub", "supd", "sunit":
		return "(" + t.Op + "_" + sq(t.Sort) + " " + strings.Join(as, " ") + ")"
	case "mk":
		if len(as) == 0 {
			return t.S
		}
		return "(" + t.S + " " + strings.Join(as, " ") + ")"
	case "is":
		return "((_ is " + t.S + ") " + as[0] + ")"
	case "get":
		return fmt.Sprintf("(%s_%d %s)", t.S, t.N, as[0])
	case "app":
		if len(as) == 0 {
			return "f!" + smtName(t.S)
		}
		return "(f!" + smtName(t.S) + " " + strings.Join(as, " ") + ")"
	}
	return "(" + t.Op + " " + strings.Join(as, " ") + ")"
}

func fltName(t *Term) string {
	return "flt!" + smtName(strings.NewReplacer("-", "m", "+", "p").Replace(t.S))
}

var seqAxioms = `
(declare-fun slen_@ ($) Int)
(declare-fun sat_@ ($ Int) %)
(declare-fun scat_@ ($ $) $)
(declare-fun ssub_@ ($ Int Int) $)
(declare-fun supd_@ ($ Int %) $)
(declare-fun sunit_@ (%) $)
(declare-const empty_@ $)
(assert (= (slen_@ empty_@) 0))
(assert (forall ((s $)) (! (<= 0 (slen_@ s)) :pattern ((slen_@ s)))))
(assert (forall ((s $)) (! (=> (= (slen_@ s) 0) (= s empty_@)) :pattern ((slen_@ s)))))
(assert (forall ((a $) (b $)) (! (= (slen_@ (scat_@ a b)) (+ (slen_@ a) (slen_@ b))) :pattern ((scat_@ a b)))))
(assert (forall ((a $) (b $)) (! (and (=> (= (slen_@ a) 0) (= (scat_@ a b) b)) (=> (= (slen_@ b) 0) (= (scat_@ a b) a))) :pattern ((scat_@ a b)))))
(assert (forall ((a $) (b $) (i Int)) (! (and (=> (and (<= 0 i) (< i (slen_@ a))) (= (sat_@ (scat_@ a b) i) (sat_@ a i))) (=> (and (<= (slen_@ a) i) (< i (+ (slen_@ a) (slen_@ b)))) (= (sat_@ (scat_@ a b) i) (sat_@ b (- i (slen_@ a)))))) :pattern ((sat_@ (scat_@ a b) i)))))
(assert (forall ((s $) (i Int) (j Int)) (! (and (=> (and (<= 0 i) (<= i j) (<= j (slen_@ s))) (= (slen_@ (ssub_@ s i j)) (- j i))) (=> (= i j) (= (ssub_@ s i j) empty_@)) (=> (and (= i 0) (= j (slen_@ s))) (= (ssub_@ s i j) s))) :pattern ((ssub_@ s i j)))))
(assert (forall ((s $) (i Int) (j Int) (k Int)) (! (=> (and (<= 0 i) (<= i j) (<= j (slen_@ s)) (<= 0 k) (< k (- j i))) (= (sat_@ (ssub_@ s i j) k) (sat_@ s (+ i k)))) :pattern ((sat_@ (ssub_@ s i j) k)))))
(assert (forall ((s $) (i Int) (j Int) (k Int) (l Int)) (! (=> (and (<= 0 i) (<= i j) (<= j (slen_@ s)) (<= 0 k) (<= k l) (<= l (- j i))) (= (ssub_@ (ssub_@ s i j) k l) (ssub_@ s (+ i k) (+ i l)))) :pattern ((ssub_@ (ssub_@ s i j) k l)))))
(assert (forall ((s $) (i Int) (j Int) (k Int) (l Int)) (! (=> (and (= j k) (<= 0 i) (<= i j) (<= j l) (<= l (slen_@ s))) (= (scat_@ (ssub_@ s i j) (ssub_@ s k l)) (ssub_@ s i l))) :pattern ((scat_@ (ssub_@ s i j) (ssub_@ s k l))))))
(assert (forall ((s $) (i Int) (j Int) (k Int) (l Int) (r $)) (! (=> (and (= j k) (<= 0 i) (<= i j) (<= j l) (<= l (slen_@ s))) (= (scat_@ (ssub_@ s i j) (scat_@ (ssub_@ s k l) r)) (scat_@ (ssub_@ s i l) r))) :pattern ((scat_@ (ssub_@ s i j) (scat_@ (ssub_@ s k l) r))))))
(assert (forall ((a $) (b $) (i Int) (j Int)) (! (and (=> (and (<= 0 i) (<= i j) (<= j (slen_@ a))) (= (ssub_@ (scat_@ a b) i j) (ssub_@ a i j))) (=> (and (<= (slen_@ a) i) (<= i j) (<= j (+ (slen_@ a) (slen_@ b)))) (= (ssub_@ (scat_@ a b) i j) (ssub_@ b (- i (slen_@ a)) (- j (slen_@ a))))) (=> (and (<= 0 i) (< i (slen_@ a)) (< (slen_@ a) j) (<= j (+ (slen_@ a) (slen_@ b)))) (= (ssub_@ (scat_@ a b) i j) (scat_@ (ssub_@ a i (slen_@ a)) (ssub_@ b 0 (- j (slen_@ a))))))) :pattern ((ssub_@ (scat_@ a b) i j)))))
(assert (forall ((a $) (b $) (c $)) (! (= (scat_@ (scat_@ a b) c) (scat_@ a (scat_@ b c))) :pattern ((scat_@ (scat_@ a b) c)))))
(assert (forall ((e %)) (! (and (= (slen_@ (sunit_@ e)) 1) (=> (elemok_@ e) (= (sat_@ (sunit_@ e) 0) e))) :pattern ((sunit_@ e)))))
(assert (forall ((s $) (i Int) (v %)) (! (= (slen_@ (supd_@ s i v)) (slen_@ s)) :pattern ((supd_@ s i v)))))
(assert (forall ((s $) (i Int) (v %) (k Int)) (! (=> (and (<= 0 i) (< i (slen_@ s))) (=> (elemok_@ v) (= (sat_@ (supd_@ s i v) k) (ite (= k i) v (sat_@ s k))))) :pattern ((sat_@ (supd_@ s i v) k)))))
(assert (forall ((s $) (i Int) (v %) (a Int) (b Int)) (! (=> (and (<= 0 a) (<= a b) (<= b (slen_@ s)) (<= 0 i) (< i (slen_@ s))) (and (=> (or (< i a) (>= i b)) (= (ssub_@ (supd_@ s i v) a b) (ssub_@ s a b))) (=> (= b (+ i 1)) (=> (<= a i) (= (ssub_@ (supd_@ s i v) a b) (scat_@ (ssub_@ s a i) (sunit_@ v))))))) :pattern ((ssub_@ (supd_@ s i v) a b)))))
(assert (forall ((s $) (i Int)) (! (=> (and (= (slen_@ s) 1) (= i 0)) (= s (sunit_@ (sat_@ s i)))) :pattern ((sat_@ s i)))))
`

const wfAxioms = `
(assert (forall ((v Val)) (! (= (f!wfv v) (and (not ((_ is VNil) v)) (=> ((_ is VLst) v) (f!wfvs (VLst_0 v))))) :pattern ((f!wfv v)))))
(assert (forall ((s Seq_Val) (i Int)) (! (=> (and (f!wfvs s) (<= 0 i) (< i (slen_Val s))) (f!wfv (sat_Val s i))) :pattern ((f!wfvs s) (sat_Val s i)))))
(assert (forall ((s Seq_Val) (i Int) (j Int)) (! (=> (and (f!wfvs s) (<= 0 i) (<= i j) (<= j (slen_Val s))) (f!wfvs (ssub_Val s i j))) :pattern ((f!wfvs (ssub_Val s i j))))))
(assert (forall ((a Seq_Val) (b Seq_Val)) (! (= (f!wfvs (scat_Val a b)) (and (f!wfvs a) (f!wfvs b))) :pattern ((f!wfvs (scat_Val a b))))))
(assert (forall ((v Val)) (! (= (f!wfvs (sunit_Val v)) (f!wfv v)) :pattern ((f!wfvs (sunit_Val v))))))
(assert (f!wfvs empty_Val))
`

var fltAxioms = `
(declare-fun f!f2i (Flt) Int)
(declare-fun f!i2f (Int) Flt)
(assert (forall ((f Flt)) (! (and (<= (- 9223372036854775808) (f!f2i f)) (<= (f!f2i f) 9223372036854775807)) :pattern ((f!f2i f)))))
(assert (forall ((i Int)) (! (=> (and (<= (- 9007199254740992) i) (<= i 9007199254740992)) (= (f!f2i (f!i2f i)) i)) :pattern ((f!i2f i)))))
`

// script renders the query "PC and not Goal" with everything it needs.
func (q *Query) script(timeoutMS int, eng *Engine) string {
	g := newGen()
	asserts := append([]*Term{}, q.PC...)
	asserts = append(asserts, Not(q.Goal))
	for _, a := range asserts {
		g.collect(a)
	}
	// ground unfoldings and lemma instances, two rounds
	depth := 2
	done := map[*Term]bool{}
	doneL := map[string]bool{}
	for round := 0; round < depth; round++ {
		var add []*Term
		if eng != nil {
			add = append(add, eng.groundInstances(g, done, doneL, round, q.Ex)...)
		}
		for _, a := range add {
			if a != TTrue {
				asserts = append(asserts, a)
				g.collect(a)
			}
		}
	}
	// comparisons of a float with integral constants bound its conversion
	for _, ap := range g.apps["f2i"] {
		f := ap.Args[0]
		if f.isConst() {
			continue
		}
		type kc struct {
			c *Term
			v int64
		}
		var ks []kc
		for c := range g.fl {
			if v, ok := fltIntegral(c.S); ok {
				ks = append(ks, kc{c, v})
			}
		}
		sort.Slice(ks, func(i, j int) bool { return ks[i].v < ks[j].v })
		add := func(a *Term) {
			asserts = append(asserts, a)
			g.collect(a)
		}
		lt := func(a, b *Term) *Term { return App("flt_lt", SBool, a, b) }
		eq := func(a, b *Term) *Term { return App("flt_eq", SBool, a, b) }
		for i, c := range ks {
			add(Implies(eq(f, f), Or(lt(f, c.c), eq(f, c.c), lt(c.c, f))))
			add(Implies(Or(lt(f, c.c), eq(f, c.c), lt(c.c, f)), eq(f, f)))
			add(Not(And(lt(f, c.c), lt(c.c, f))))
			add(Not(And(eq(f, c.c), Or(lt(c.c, f), lt(f, c.c)))))
			add(Eq(eq(f, c.c), eq(c.c, f)))
			add(Implies(eq(f, c.c), Eq(ap, TInt(c.v))))
			for _, d := range ks[i+1:] {
				add(Implies(And(lt(c.c, f), lt(f, d.c)), And(Le(TInt(c.v), ap), Le(ap, TInt(d.v)))))
				add(Implies(lt(f, c.c), lt(f, d.c)))
				add(Implies(lt(d.c, f), lt(c.c, f)))
			}
		}
	}
	// the encoding of text
	rdone := map[*Term]bool{}
	for _, n := range []string{"rune_at", "rune_w"} {
		for _, ap := range g.apps[n] {
			rn, _ := runeAt(ap.Args[0], ap.Args[1])
			if rn.isConst() || rdone[rn] {
				continue
			}
			rdone[rn] = true
			for _, f := range runeFactsOf(ap.Args[0], ap.Args[1]) {
				asserts = append(asserts, f)
				g.collect(f)
			}
		}
	}
	for _, ap := range g.apps["rune_str"] {
		for _, f := range runeStrFacts(ap) {
			asserts = append(asserts, f)
			g.collect(f)
		}
		if r := ap.Args[0]; r.Op == "app" && r.S == "rune_at" {
			// decoding inverts encoding where it succeeds
			s, p := r.Args[0], r.Args[1]
			_, w := runeAt(s, p)
			f := Implies(And(Le(TInt(0), p), Lt(p, SLen(s)), Not(Eq(r, TInt(0xFFFD)))), Eq(ap, SSub(s, p, Add(p, w))))
			asserts = append(asserts, f)
			g.collect(f)
		}
	}
	// extensionality
	nsk := 0
	extDone := map[[2]*Term]bool{}
	ext := func(a, b *Term) {
		if a.id > b.id {
			a, b = b, a
		}
		if a == b || extDone[[2]*Term{a, b}] {
			return
		}
		extDone[[2]*Term{a, b}] = true
		nsk++
		k := TVar(fmt.Sprintf("ext!%d", nsk), SInt)
		k.lo, k.hi = nil, nil
		eq := intern(&Term{Op: "=", Sort: SBool, Args: []*Term{a, b}})
		f := Or(eq, Not(Eq(SLen(a), SLen(b))), And(Le(TInt(0), k), Lt(k, SLen(a)), Not(Eq(SAt(a, k), SAt(b, k)))))
		asserts = append(asserts, f)
		g.collect(f)
	}
	for i := 0; i < len(g.eqs) && i < 80; i++ {
		ext(g.eqs[i].Args[0], g.eqs[i].Args[1])
	}
	var fnames []string
	for n := range g.apps {
		fnames = append(fnames, n)
	}
	sort.Strings(fnames)
	pairs := 0
	for _, n := range fnames {
		as := g.apps[n]
		for i := 0; i < len(as) && pairs < 60; i++ {
			for j := i + 1; j < len(as) && pairs < 60; j++ {
				for k := range as[i].Args {
					a, b := as[i].Args[k], as[j].Args[k]
					if a.Sort.Kind == "seq" && a != b && (a.Op != "var" || b.Op != "var") && !(a.isConst() && b.isConst()) {
						ext(a, b)
						pairs++
					}
				}
			}
		}
	}

	var b strings.Builder
	fmt.Fprintf(&b, "(set-option :timeout %d)\n(set-option :auto_config false)\n(set-option :smt.mbqi false)\n", timeoutMS)
	g.useSort(SVal)
	if g.sorts["Any"] != nil {
		g.useSort(SAny)
	}
	g.emitDecls(&b)
	// variables
	var vs []*Term
	for v := range g.vars {
		vs = append(vs, v)
	}
	sort.Slice(vs, func(i, j int) bool { return vs[i].id < vs[j].id })
	for _, v := range vs {
		fmt.Fprintf(&b, "(declare-const v!%s %s)\n", smtName(v.S), v.Sort)
		if v.Sort == SInt {
			if v.lo != nil {
				fmt.Fprintf(&b, "(assert (<= %s v!%s))\n", smtInt(v.lo), smtName(v.S))
			}
			if v.hi != nil {
				fmt.Fprintf(&b, "(assert (<= v!%s %s))\n", smtName(v.S), smtInt(v.hi))
			}
		}
	}
	if g.vars[AnyErr] && g.vars[ErrNil] {
		b.WriteString("(assert (not (= v!AnyErr v!ErrNil)))\n")
	}
	// literals
	var ls []*Term
	for l := range g.lits {
		ls = append(ls, l)
	}
	sort.Slice(ls, func(i, j int) bool { return ls[i].id < ls[j].id })
	for _, l := range ls {
		n := g.lits[l]
		fmt.Fprintf(&b, "(declare-const %s Seq_Int)\n(assert (= (slen_Int %s) %d))\n", n, n, len(l.S))
		for i := 0; i < len(l.S) && i < 48; i++ {
			fmt.Fprintf(&b, "(assert (= (sat_Int %s %d) %d))\n", n, i, l.S[i])
		}
	}
	// share subterms used more than once
	uses := map[*Term]int{}
	for _, t := range g.order {
		for _, a := range t.Args {
			uses[a]++
		}
	}
	for _, t := range g.order {
		if len(t.Args) > 0 && (uses[t] > 1) {
			e := g.expr1(t)
			n := fmt.Sprintf("t!%d", t.id)
			fmt.Fprintf(&b, "(define-fun %s () %s %s)\n", n, t.Sort, e)
			g.names[t] = n
		}
	}
	// bounds of base lengths and UF results
	for _, t := range g.order {
		if t.Op == "slen" {
			switch t.Args[0].Op {
			case "var", "app", "get", "sat":
				fmt.Fprintf(&b, "(assert (<= %s %s))\n", g.expr(t), maxLen)
			}
		}
		if t.Op == "app" && t.Sort == SInt {
			if t.lo != nil {
				fmt.Fprintf(&b, "(assert (<= %s %s))\n", smtInt(t.lo), g.expr(t))
			}
			if t.hi != nil {
				fmt.Fprintf(&b, "(assert (<= %s %s))\n", g.expr(t), smtInt(t.hi))
			}
		}
		if t.Op == "get" && t.Sort == SInt {
			fmt.Fprintf(&b, "(assert (and (<= %s %s) (<= %s %s)))\n", smtInt(minI64), g.expr(t), g.expr(t), smtInt(maxI64))
		}
		if t.Op == "sat" && t.Sort == SInt && t.Args[0].Sort != SStr {
			fmt.Fprintf(&b, "(assert (and (<= %s %s) (<= %s %s)))\n", smtInt(minI64), g.expr(t), g.expr(t), smtInt(maxI64))
		}
	}
	for _, a := range asserts {
		if a == TTrue {
			continue
		}
		fmt.Fprintf(&b, "(assert %s)\n", g.expr(a))
	}
	b.WriteString("(check-sat)\n")
	return b.String()
}

func (g *smtGen) emitDecls(b *strings.Builder) {
	g.useSort(SStr)
	g.useSort(SVals)
	g.useSort(SFlt)
	var names []string
	for n := range g.sorts {
		names = append(names, n)
	}
	sort.Strings(names)
	for _, n := range names {
		s := g.sorts[n]
		switch s.Kind {
		case "opaque", "seq", "map":
			fmt.Fprintf(b, "(declare-sort %s 0)\n", n)
		}
	}
	// ADTs whose fields are all declared above or other ADTs: declare jointly
	var adts []*Sort
	for _, n := range names {
		if g.sorts[n].Kind == "adt" {
			adts = append(adts, g.sorts[n])
		}
	}
	if len(adts) > 0 {
		b.WriteString("(declare-datatypes (")
		for _, a := range adts {
			fmt.Fprintf(b, "(%s 0)", a.Name)
		}
		b.WriteString(") (")
		for _, a := range adts {
			b.WriteString("(")
			for _, c := range a.Ctor {
				if len(c.Fields) == 0 {
					fmt.Fprintf(b, "(%s)", c.Name)
					continue
				}
				fmt.Fprintf(b, "(%s", c.Name)
				for i, f := range c.Fields {
					fmt.Fprintf(b, " (%s_%d %s)", c.Name, i, f)
				}
				b.WriteString(")")
			}
			b.WriteString(")")
		}
		b.WriteString("))\n")
	}
	for _, n := range names {
		s := g.sorts[n]
		if s.Kind == "seq" {
			def := "true"
			if s == SStr {
				def = "(and (<= 0 e) (<= e 255))"
			}
			b.WriteString(strings.NewReplacer("@", sq(s), "$", s.Name, "%", s.Elem.Name, "^", def).Replace("(define-fun elemok_@ ((e %)) Bool ^)\n" + seqAxioms))
		}
	}
	b.WriteString("(assert (forall ((s Seq_Int) (i Int)) (! (and (<= 0 (sat_Int s i)) (<= (sat_Int s i) 255)) :pattern ((sat_Int s i)))))\n")
	b.WriteString(fltAxioms)
	b.WriteString("(declare-fun mulx (Int Int) Int)\n")
	var fs []*Term
	for _, f := range g.fl {
		_ = f
	}
	for f := range g.fl {
		fs = append(fs, f)
	}
	sort.Slice(fs, func(i, j int) bool { return fs[i].id < fs[j].id })
	for _, f := range fs {
		n := fltName(f)
		fmt.Fprintf(b, "(declare-const %s Flt)\n", n)
		if v, ok := fltToInt(f.S); ok {
			fmt.Fprintf(b, "(assert (= (f!f2i %s) %s))\n", n, smtInt(big.NewInt(v)))
		}
		if v, ok := fltIntegral(f.S); ok {
			fmt.Fprintf(b, "(assert (= (f!i2f %s) %s))\n", smtInt(big.NewInt(v)), n)
		}
	}
	for i := range fs {
		for j := i + 1; j < len(fs); j++ {
			fmt.Fprintf(b, "(assert (not (= %s %s)))\n", fltName(fs[i]), fltName(fs[j]))
		}
	}
	if g.uf["wfv"] != nil || g.uf["wfvs"] != nil {
		b.WriteString("(declare-fun f!wfv (Val) Bool)\n(declare-fun f!wfvs (Seq_Val) Bool)\n")
		b.WriteString(wfAxioms)
	}
	var un []string
	for n := range g.uf {
		un = append(un, n)
	}
	sort.Strings(un)
	for _, n := range un {
		if n == "f2i" || n == "i2f" || n == "wfv" || n == "wfvs" {
			continue
		}
		t := g.uf[n]
		fmt.Fprintf(b, "(declare-fun f!%s (", smtName(n))
		for _, a := range t.Args {
			b.WriteString(a.Sort.Name + " ")
		}
		fmt.Fprintf(b, ") %s)\n", t.Sort)
	}
}
