package main

import (
	"flag"
	"fmt"
	"os"
	"regexp"
	"sort"
	"strings"
	"sync"
	"time"
)

func main() {
	if len(os.Args) < 2 {
		fmt.Fprintln(os.Stderr, "usage: gover fn|check ...")
		os.Exit(2)
	}
	switch os.Args[1] {
	case "fn":
		devMain(os.Args[2:])
	case "check":
		os.Exit(checkMain(os.Args[2:]))
	}
}

var allPkgs = []string{"./edlisp", "./edlisp/parser", "./edlisp/writer", ".", "./commands", "./tools"}

func devMain(args []string) {
	fs := flag.NewFlagSet("fn", flag.ExitOnError)
	repo := fs.String("repo", "/repo", "")
	dir := fs.String("contracts", "/verif/contracts", "")
	only := fs.String("only", ".", "regexp of contract names")
	pk := fs.String("pkg", "./edlisp", "packages (comma separated)")
	verbose := fs.Bool("v", false, "")
	tier := fs.String("tier", "quick", "")
	par := fs.Int("j", 3, "")
	fs.Parse(args)
	t0 := time.Now()
	e, err := Load(*repo, *dir, strings.Split(*pk, ","))
	if err != nil {
		fmt.Println("ERROR", err)
		os.Exit(1)
	}
	fmt.Printf("loaded in %.1fs: %d contracts, %d lemmas, missing %v notes %v\n", time.Since(t0).Seconds(), len(e.clist), len(e.lemmas), e.missing, e.notes)
	re := regexp.MustCompile(*only)
	var mu sync.Mutex
	var wg sync.WaitGroup
	sem := make(chan struct{}, *par)
	show := func(r *FnReport) {
		mu.Lock()
		defer mu.Unlock()
		bad := map[string]*Obligation{}
		n, d := 0, 0
		for _, o := range r.Obls {
			n++
			if o.res == Unsat {
				d++
			} else if bad[o.Name] == nil || strings.HasPrefix(bad[o.Name].back, "skipped") {
				bad[o.Name] = o
			}
		}
		st := "ok"
		if len(bad) > 0 {
			st = "FAIL"
		}
		fmt.Printf("%-4s %-34s %d/%d obligations, %d paths, %d/%d samples, %.1fs\n", st, r.Name, d, n, r.Paths, r.Covered, r.Samples, r.Wall)
		var ks []string
		for k := range bad {
			ks = append(ks, k)
		}
		sort.Strings(ks)
		for _, k := range ks {
			o := bad[k]
			fmt.Printf("       %s: %s [%s] %s\n", o.Kind, o.Name, o.Pos, o.back)
			if *verbose {
				for _, p := range o.PC {
					fmt.Printf("          | %s\n", p)
				}
				fmt.Printf("          |- %s\n", o.Goal)
			}
		}
	}
	for _, l := range e.lemmas {
		if !re.MatchString("lemma " + l.Fn.Name()) {
			continue
		}
		l := l
		wg.Add(1)
		go func() { defer wg.Done(); sem <- struct{}{}; defer func() { <-sem }(); show(e.verifyLemma(l, *tier)) }()
	}
	for _, c := range e.clist {
		if !re.MatchString(c.Name) {
			continue
		}
		c := c
		wg.Add(1)
		go func() { defer wg.Done(); sem <- struct{}{}; defer func() { <-sem }(); show(e.verify(c, *tier)) }()
	}
	wg.Wait()
	fmt.Printf("total %.1fs, %d queries, %.1fs solver, %v\n", time.Since(t0).Seconds(), e.solver.Queries, float64(e.solver.TimeNS)/1e9, e.solver.ByBack)
	for _, t := range sortedKeys(e.trusted) {
		if *verbose {
			fmt.Println("  trusted:", t)
		}
	}
	e.solver.Close()
}
