package main

import (
	"bufio"
	"context"
	"fmt"
	"io"
	"os"
	"os/exec"
	"strings"
	"sync"
	"sync/atomic"
	"time"
)

type Result int

const (
	Unknown Result = iota
	Unsat
	Sat
)

func (r Result) String() string { return [...]string{"unknown", "unsat", "sat"}[r] }

type proc struct {
	cmd *exec.Cmd
	in  io.WriteCloser
	out *bufio.Reader
}

type Solver struct {
	pool     chan *proc
	sem      chan struct{}
	mu       sync.Mutex
	cache    map[string]Result
	Queries  int64
	TimeNS   int64
	ByBack   map[string]int
	deadline time.Time
}

func NewSolver(n int) *Solver {
	s := &Solver{pool: make(chan *proc, n), sem: make(chan struct{}, n), cache: map[string]Result{}, ByBack: map[string]int{}}
	for i := 0; i < n; i++ {
		s.pool <- nil
	}
	return s
}

func z3bin() string {
	if p, err := exec.LookPath("z3-new"); err == nil {
		return p
	}
	return "z3"
}

func startProc() (*proc, error) {
	cmd := exec.Command(z3bin(), "-in", "-smt2", "-memory:4000")
	in, err := cmd.StdinPipe()
	if err != nil {
		return nil, err
	}
	out, err := cmd.StdoutPipe()
	if err != nil {
		return nil, err
	}
	cmd.Stderr = io.Discard
	if err := cmd.Start(); err != nil {
		return nil, err
	}
	return &proc{cmd, in, bufio.NewReaderSize(out, 1<<16)}, nil
}

func (s *Solver) Close() {
	for i := 0; i < cap(s.pool); i++ {
		select {
		case p := <-s.pool:
			if p != nil {
				p.cmd.Process.Kill()
			}
		default:
		}
	}
}

// z3 runs one script on a persistent z3 process.
func (s *Solver) z3(script string, ms int) (Result, string) {
	p := <-s.pool
	defer func() { s.pool <- p }()
	t0 := time.Now()
	defer func() { atomic.AddInt64(&s.TimeNS, int64(time.Since(t0))); atomic.AddInt64(&s.Queries, 1) }()
	if p == nil {
		var err error
		p, err = startProc()
		if err != nil {
			p = nil
			return Unknown, err.Error()
		}
	}
	pp := p
	if _, err := io.WriteString(pp.in, "(reset)\n"+script+"(echo \"done!\")\n"); err != nil {
		pp.cmd.Process.Kill()
		go pp.cmd.Wait()
		p = nil
		return Unknown, err.Error()
	}
	timer := time.AfterFunc(time.Duration(ms)*time.Millisecond*2+2*time.Second, func() { pp.cmd.Process.Kill() })
	defer timer.Stop()
	res := Unknown
	var errs []string
	for {
		l, err := pp.out.ReadString('\n')
		if err != nil {
			pp.cmd.Process.Kill()
			go pp.cmd.Wait()
			p = nil
			return Unknown, "solver died: " + strings.Join(errs, ";")
		}
		l = strings.TrimSpace(l)
		switch {
		case l == "unsat":
			res = Unsat
		case l == "sat":
			res = Sat
		case l == "unknown" || l == "timeout":
			res = Unknown
		case l == "done!":
			if len(errs) > 0 {
				if os.Getenv("GOVER_DEBUG") != "" {
					f := fmt.Sprintf("/tmp/gover-err-%d.smt2", time.Now().UnixNano())
					os.WriteFile(f, []byte(script), 0644)
					fmt.Fprintln(os.Stderr, "SMT ERROR", errs[0], f)
				}
				return Unknown, "error: " + strings.Join(errs, ";")
			}
			return res, ""
		case strings.HasPrefix(l, "(error"):
			errs = append(errs, l)
		}
	}
}

func runOnce(bin string, args []string, script string, ms int) Result {
	ctx, cancel := context.WithTimeout(context.Background(), time.Duration(ms)*time.Millisecond+500*time.Millisecond)
	defer cancel()
	cmd := exec.CommandContext(ctx, bin, args...)
	cmd.Stdin = strings.NewReader(script)
	out, _ := cmd.Output()
	for _, l := range strings.Split(string(out), "\n") {
		switch strings.TrimSpace(l) {
		case "unsat":
			return Unsat
		case "sat":
			return Sat
		}
	}
	return Unknown
}

// Check decides PC |- goal. ms is the first-line timeout; with full set the
// portfolio is tried when the first solver does not answer.
func (s *Solver) Check(e *Engine, pc []*Term, goal *Term, ms int, full bool) (Result, string) {
	return s.CheckX(e, pc, goal, ms, full, nil)
}

func (s *Solver) CheckX(e *Engine, pc []*Term, goal *Term, ms int, full bool, ex *exclude) (Result, string) {
	if goal == TTrue {
		return Unsat, "simplifier"
	}
	facts := factsOf(pc)
	if g := simplifyUnder(goal, facts); g == TTrue {
		return Unsat, "simplifier"
	} else {
		goal = g
	}
	for _, p := range pc {
		if p == TFalse {
			return Unsat, "simplifier"
		}
	}
	if contradictory(pc, facts) {
		return Unsat, "simplifier"
	}
	if !s.deadline.IsZero() && time.Now().After(s.deadline) {
		return Unknown, "unknown (time budget of this run is used up)"
	}
	q := &Query{PC: pc, Goal: goal, Ex: ex}
	body := q.script(ms, e)
	key := body
	for i := 0; i < 3; i++ { // the options
		key = key[strings.Index(key, "\n")+1:]
	}
	s.mu.Lock()
	if r, ok := s.cache[key]; ok && (r == Unsat || !full) {
		s.mu.Unlock()
		return r, "cache"
	}
	s.mu.Unlock()
	s.sem <- struct{}{}
	tq := time.Now()
	r, why := s.z3(body, ms)
	<-s.sem
	if d := time.Since(tq); os.Getenv("GOVER_SLOW") != "" && (d > time.Second || r != Unsat && full) {
		fmt.Fprintf(os.Stderr, "SLOW %.1fs %v full=%v %v\n", d.Seconds(), r, full, goal)
	}
	back := "z3"
	if strings.HasPrefix(why, "error") && os.Getenv("GOVER_DEBUG") != "" {
		fmt.Fprintln(os.Stderr, why)
	}
	if r != Unsat && full {
		// portfolio with a larger budget
		big := ms * 5
		type ans struct {
			r Result
			n string
		}
		ch := make(chan ans, 3)
		b2 := key
		go func() {
			s.sem <- struct{}{}
			defer func() { <-s.sem }()
			ch <- ans{runOnce("cvc5", []string{"--lang=smt2", fmt.Sprintf("--tlimit=%d", big)}, "(set-logic ALL)\n"+b2, big), "cvc5"}
		}()
		go func() {
			s.sem <- struct{}{}
			defer func() { <-s.sem }()
			ch <- ans{runOnce("z3", []string{"-in", "-smt2", fmt.Sprintf("-T:%d", big/1000+1), "smt.mbqi=false", "auto_config=false"}, b2, big), "z3-4.8"}
		}()
		go func() {
			s.sem <- struct{}{}
			defer func() { <-s.sem }()
			ch <- ans{runOnce(z3bin(), []string{"-in", "-smt2", fmt.Sprintf("-T:%d", big/1000+1)}, b2, big), "z3-mbqi"}
		}()
		for i := 0; i < 3; i++ {
			a := <-ch
			if a.r == Unsat {
				r, back = Unsat, a.n
				break
			}
		}
	}
	s.mu.Lock()
	s.cache[key] = r
	s.mu.Unlock()
	if r == Unsat {
		s.mu.Lock()
		s.ByBack[back]++
		s.mu.Unlock()
	}
	if r != Unsat && os.Getenv("GOVER_DUMP") != "" && (full || os.Getenv("GOVER_DUMPALL") != "") {
		f := fmt.Sprintf("%s/q-%d.smt2", os.Getenv("GOVER_DUMP"), time.Now().UnixNano())
		os.WriteFile(f, []byte(body), 0644)
		why += " " + f
	}
	if r == Unsat {
		return r, back
	}
	return r, r.String() + " " + why
}

func contradictory(pc []*Term, facts map[*Term]bool) bool {
	for _, p := range pc {
		if v, ok := facts[p]; ok && !v {
			return true
		}
	}
	return false
}
