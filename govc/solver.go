package main

// SMT back ends: persistent z3 processes for most queries, with z3 5 and
// cvc5 as second opinions when z3 does not decide.

import (
	"bufio"
	"fmt"
	"io"
	"os"
	"os/exec"
	"path/filepath"
	"strings"
	"sync"
	"time"
)

type Result int

const (
	Unknown Result = iota
	Unsat
	Sat
)

func (r Result) String() string { return [...]string{"unknown", "unsat", "sat"}[r] }

type proc struct {
	cmd *exec.Cmd
	in  io.WriteCloser
	out *bufio.Reader
}

type Solver struct {
	c       *Ctx
	z3      *proc
	cache   map[string]Result
	Time    time.Duration
	Queries int
	By      map[string]int
	dumpDir string
}

func NewSolver(c *Ctx) *Solver {
	return &Solver{c: c, cache: map[string]Result{}, By: map[string]int{}, dumpDir: os.Getenv("GOVC_DUMP")}
}

func startProc(name string, args ...string) (*proc, error) {
	cmd := exec.Command(name, args...)
	in, err := cmd.StdinPipe()
	if err != nil {
		return nil, err
	}
	out, err := cmd.StdoutPipe()
	if err != nil {
		return nil, err
	}
	if err := cmd.Start(); err != nil {
		return nil, err
	}
	return &proc{cmd, in, bufio.NewReader(out)}, nil
}

func (s *Solver) Close() {
	if s.z3 != nil {
		s.z3.in.Close()
		s.z3.cmd.Process.Kill()
		s.z3.cmd.Wait()
		s.z3 = nil
	}
}

var solverMu sync.Mutex
var solverGate = make(chan struct{}, 16)

func (s *Solver) runZ3(script string, ms int) (Result, string) {
	if s.z3 == nil {
		p, err := startProc("z3", "-in", "-smt2")
		if err != nil {
			return Unknown, err.Error()
		}
		s.z3 = p
	}
	q := fmt.Sprintf("(reset)\n(set-option :timeout %d)\n(set-option :smt.auto_config false)\n(set-option :smt.mbqi false)\n%s(check-sat)\n(echo \"done!\")\n", ms, script)
	done := make(chan string, 1)
	p := s.z3
	go func() {
		io.WriteString(p.in, q)
		var b strings.Builder
		for {
			l, err := p.out.ReadString('\n')
			if strings.TrimSpace(l) == "done!" || strings.TrimSpace(l) == "\"done!\"" {
				break
			}
			b.WriteString(l)
			if err != nil {
				break
			}
		}
		done <- b.String()
	}()
	select {
	case o := <-done:
		return parseRes(o), o
	case <-time.After(time.Duration(ms)*time.Millisecond*3 + 5*time.Second):
		p.cmd.Process.Kill()
		p.cmd.Wait()
		s.z3 = nil
		return Unknown, "killed"
	}
}

func parseRes(o string) Result {
	if strings.Contains(o, "(error") {
		if os.Getenv("GOVC_DEBUG") != "" {
			fmt.Fprintln(os.Stderr, "SOLVER ERROR:", o)
		}
		return Unknown
	}
	for _, l := range strings.Split(o, "\n") {
		switch strings.TrimSpace(l) {
		case "unsat":
			return Unsat
		case "sat":
			return Sat
		}
	}
	return Unknown
}

func runOnce(script string, sec int, name string, args ...string) (Result, string) {
	f, err := os.CreateTemp("", "govc*.smt2")
	if err != nil {
		return Unknown, err.Error()
	}
	defer os.Remove(f.Name())
	f.WriteString(script)
	f.Close()
	cmd := exec.Command("timeout", append([]string{fmt.Sprint(sec), name}, append(args, f.Name())...)...)
	o, _ := cmd.CombinedOutput()
	return parseRes(string(o)), string(o)
}

// Check decides satisfiability of the conjunction of asserts. Quick checks
// (feasibility) use a small budget and a single back end.
func (s *Solver) Check(asserts []*Term, quick bool) Result {
	for _, a := range asserts {
		if a == s.c.False {
			return Unsat
		}
	}
	return s.CheckScript(s.c.Script(asserts), quick)
}

func (s *Solver) CheckScript(script string, quick bool) Result {
	if r, ok := s.cache[script]; ok && (quick || r != Unknown) {
		return r
	}
	t0 := time.Now()
	s.Queries++
	ms := 8000
	if quick {
		ms = 1500
	}
	r, out := s.runZ3(script, ms)
	if s.dumpDir != "" {
		os.WriteFile(filepath.Join(s.dumpDir, fmt.Sprintf("q%05d_%v_%d.smt2", s.Queries, quick, time.Since(t0).Milliseconds())), []byte(script+"(check-sat)\n;"+strings.ReplaceAll(out, "\n", "\n;")), 0o644)
	}
	if r != Unknown {
		s.By["z3-4.8.12"]++
	}
	if r == Unknown && !quick {
		// second opinions, side by side
		type opinion struct {
			r    Result
			name string
		}
		ch := make(chan opinion, 2)
		go func() {
			r, _ := runOnce("(set-logic ALL)\n"+script+"(check-sat)\n", 15, "z3-new", "-T:15")
			ch <- opinion{r, "z3-5"}
		}()
		go func() {
			r, _ := runOnce("(set-logic ALL)\n"+script+"(check-sat)\n", 15, "cvc5", "--tlimit=15000")
			ch <- opinion{r, "cvc5-1.1.2"}
		}()
		for i := 0; i < 2; i++ {
			if o := <-ch; o.r != Unknown {
				r = o.r
				s.By[o.name]++
				break
			}
		}
	}
	s.Time += time.Since(t0)
	if s.cache != nil {
		s.cache[script] = r
	}
	return r
}

// Model returns a model text for a satisfiable (or undecided) conjunction.
func (s *Solver) ModelScript(script string) string {
	var b strings.Builder
	b.WriteString(script)
	b.WriteString("(check-sat)\n(get-model)\n")
	_, out := runOnce("(set-logic ALL)\n"+b.String(), 10, "z3-new", "-T:10")
	if len(out) > 6000 {
		out = out[:6000] + "\n...\n"
	}
	return out
}
