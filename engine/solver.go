package main

// z3 over a pipe, with constraint-independence slicing and a query cache.

import (
	"bufio"
	"fmt"
	"io"
	"os"
	"os/exec"
	"sort"
	"strings"
	"time"
)

type Solver struct {
	c        *Ctx
	bin      string
	cmd      *exec.Cmd
	in       io.WriteCloser
	out      *bufio.Reader
	declared int
	defined  map[uint32]bool
	cache    map[string]*qres
	// stats
	Queries, Hits, Unknown int
	SolverTime             time.Duration
	dump                   io.Writer
	fp                     bool // floats have been seen
}

type qres struct {
	sat   int // 1 sat, 0 unsat, -1 unknown
	model map[uint32]uint64
}

func solverBin() (string, []string) {
	switch os.Getenv("VERIF_SOLVER") {
	case "cvc5":
		return "cvc5", []string{"--incremental", "--produce-models", "--lang=smt2"}
	case "z3-new":
		return "z3-new", []string{"-in"}
	}
	return "z3", []string{"-in"}
}

var slowLog = os.Getenv("VERIF_SLOW") != ""

func (c *Ctx) size(t *Term, seen map[uint32]bool) {
	if t == nil || seen[t.id] {
		return
	}
	seen[t.id] = true
	c.size(t.a, seen)
	c.size(t.b, seen)
	c.size(t.c, seen)
}

func NewSolver(c *Ctx) *Solver {
	s := &Solver{c: c, cache: map[string]*qres{}}
	s.start()
	return s
}

func (s *Solver) start() {
	bin, args := solverBin()
	s.cmd = exec.Command(bin, args...)
	in, err := s.cmd.StdinPipe()
	if err != nil {
		panic(err)
	}
	out, err := s.cmd.StdoutPipe()
	if err != nil {
		panic(err)
	}
	s.cmd.Stderr = s.cmd.Stdout
	if err := s.cmd.Start(); err != nil {
		panic(err)
	}
	s.in = in
	s.out = bufio.NewReader(out)
	s.declared = 0
	s.defined = map[uint32]bool{}
	if d := os.Getenv("VERIF_DUMP"); d != "" && s.dump == nil {
		f, err := os.CreateTemp(d, "smt")
		if err == nil {
			s.dump = f
		}
	}
	fmt.Fprintf(s.in, "(set-option :print-success false)\n(set-option :produce-models true)\n(set-option :global-declarations true)\n(set-logic %s)\n", map[bool]string{false: "QF_BV", true: "QF_BVFP"}[s.fp])
	if bin != "cvc5" {
		fmt.Fprintf(s.in, "(set-option :timeout 20000)\n")
	}
}

func (s *Solver) Close() {
	s.in.Close()
	s.cmd.Process.Kill()
	s.cmd.Wait()
}

func (s *Solver) resetCtx() {
	// the term context was reset: variables must be re-declared
	s.Close()
	s.cache = map[string]*qres{}
	s.start()
}

// slice returns those constraints connected to cond through shared variables.
func sliceFor(cons []*Term, vars []uint32) []*Term {
	if len(vars) == 0 {
		return nil
	}
	in := map[uint32]bool{}
	for _, v := range vars {
		in[v] = true
	}
	used := make([]bool, len(cons))
	var out []*Term
	for changed := true; changed; {
		changed = false
		for i, t := range cons {
			if used[i] {
				continue
			}
			hit := false
			for _, v := range t.vars {
				if in[v] {
					hit = true
					break
				}
			}
			if hit {
				used[i] = true
				out = append(out, t)
				for _, v := range t.vars {
					if !in[v] {
						in[v] = true
						changed = true
					}
				}
			}
		}
	}
	return out
}

// check decides satisfiability of cons ∧ cond (cons assumed satisfiable).
func (s *Solver) check(cons []*Term, cond *Term) *qres {
	if cond.isK() {
		if cond.val == 1 {
			return &qres{sat: 1}
		}
		return &qres{sat: 0}
	}
	sl := sliceFor(cons, cond.vars)
	all := append(append([]*Term{}, sl...), cond)
	return s.checkAll(all)
}

func (s *Solver) checkAll(all []*Term) *qres {
	sortTerms(all)
	var kb strings.Builder
	last := uint32(0)
	uniq := all[:0]
	for _, t := range all {
		if t.id == last {
			continue
		}
		last = t.id
		uniq = append(uniq, t)
		kb.WriteByte(byte(t.id))
		kb.WriteByte(byte(t.id >> 8))
		kb.WriteByte(byte(t.id >> 16))
		kb.WriteByte(byte(t.id >> 24))
	}
	all = uniq
	key := kb.String()
	if r := s.cache[key]; r != nil {
		s.Hits++
		return r
	}
	r := s.solve(all)
	s.cache[key] = r
	return r
}

func (s *Solver) solve(all []*Term) *qres {
	t0 := time.Now()
	defer func() { s.SolverTime += time.Since(t0) }()
	s.Queries++
	if !s.fp {
		for _, t := range all {
			if t.fp {
				s.fp = true
				s.restart()
				break
			}
		}
	}
	if s.dump != nil {
		for i := s.declared; i < len(s.c.vars); i++ {
			fmt.Fprintf(s.dump, "; declare %s %d\n", s.c.varName[i], s.c.vars[i].w)
		}
		defer func() { fmt.Fprintf(s.dump, "; took %v\n", time.Since(t0)) }()
	}
	for ; s.declared < len(s.c.vars); s.declared++ {
		v := s.c.vars[s.declared]
		if v.w == 0 {
			fmt.Fprintf(s.in, "(declare-const %s Bool)\n", s.c.varName[s.declared])
		} else {
			fmt.Fprintf(s.in, "(declare-const %s (_ BitVec %d))\n", s.c.varName[s.declared], v.w)
		}
	}
	var sb strings.Builder
	var names []string
	vs := map[uint32]bool{}
	for _, t := range all {
		names = append(names, s.c.define(t, s.defined, &sb))
		for _, v := range t.vars {
			vs[v] = true
		}
	}
	sb.WriteString("(push 1)\n")
	for _, n := range names {
		sb.WriteString("(assert " + n + ")\n")
	}
	sb.WriteString("(check-sat)\n")
	if s.dump != nil {
		io.WriteString(s.dump, sb.String())
	}
	// The solver's own limit is soft: one that overruns it by half is ended and started again.
	proc := s.cmd.Process
	late := time.AfterFunc(30*time.Second, func() { proc.Kill() })
	defer late.Stop()
	io.WriteString(s.in, sb.String())
	line, err := s.out.ReadString('\n')
	res := &qres{sat: -1}
	if err != nil {
		s.Unknown++
		s.restart()
		return res
	}
	line = strings.TrimSpace(line)
	if slowLog && time.Since(t0) > 50*time.Millisecond {
		sz := map[uint32]bool{}
		for _, t := range all {
			s.c.size(t, sz)
		}
		fmt.Fprintf(os.Stderr, "slow %v: %d constraints %d nodes %d vars -> %s\n", time.Since(t0), len(all), len(sz), len(vs), line)
	}
	switch line {
	case "unsat":
		res.sat = 0
	case "sat":
		res.sat = 1
		var ids []uint32
		for v := range vs {
			ids = append(ids, v)
		}
		sort.Slice(ids, func(i, j int) bool { return ids[i] < ids[j] })
		var q strings.Builder
		q.WriteString("(get-value (")
		for _, v := range ids {
			q.WriteString(s.c.varName[v])
			q.WriteByte(' ')
		}
		q.WriteString("))\n")
		io.WriteString(s.in, q.String())
		m, err := s.readModel(len(ids))
		if err != nil {
			res.sat = -1
			s.Unknown++
			s.restart()
			return res
		}
		res.model = map[uint32]uint64{}
		for _, v := range ids {
			val, ok := m[s.c.varName[v]]
			if !ok {
				res.sat = -1
				s.Unknown++
				s.restart()
				return res
			}
			res.model[v] = val
		}
		// the model must satisfy the query under our own evaluator
		memo := map[uint32]uint64{}
		for _, t := range all {
			if s.c.eval(t, res.model, memo) != 1 {
				fmt.Fprintf(os.Stderr, "engine: solver model does not satisfy query\n")
				res.sat = -1
				s.Unknown++
			}
		}
	default:
		s.Unknown++
		if strings.HasPrefix(line, "(error") {
			fmt.Fprintf(os.Stderr, "solver error: %s\n", line)
		}
		if line != "unknown" && line != "timeout" {
			s.restart()
			return res
		}
	}
	io.WriteString(s.in, "(pop 1)\n")
	if s.dump != nil {
		io.WriteString(s.dump, "(pop 1)\n")
	}
	return res
}

func (s *Solver) restart() {
	s.Close()
	s.start()
}

func (s *Solver) readModel(n int) (map[string]uint64, error) {
	depth := 0
	started := false
	var sb strings.Builder
	for {
		b, err := s.out.ReadByte()
		if err != nil {
			return nil, err
		}
		sb.WriteByte(b)
		if b == '(' {
			depth++
			started = true
		} else if b == ')' {
			depth--
			if started && depth == 0 {
				break
			}
		}
	}
	s.out.ReadString('\n')
	txt := sb.String()
	if strings.HasPrefix(strings.TrimSpace(txt), "(error") {
		return nil, fmt.Errorf("solver: %s", txt)
	}
	toks := strings.Fields(strings.NewReplacer("(", " ( ", ")", " ) ").Replace(txt))
	m := map[string]uint64{}
	for i := 0; i < len(toks); i++ {
		if strings.HasPrefix(toks[i], "v") && i+1 < len(toks) {
			v := toks[i+1]
			switch {
			case v == "true":
				m[toks[i]] = 1
			case v == "false":
				m[toks[i]] = 0
			case strings.HasPrefix(v, "#x"):
				var x uint64
				fmt.Sscanf(v[2:], "%x", &x)
				m[toks[i]] = x
			case strings.HasPrefix(v, "#b"):
				var x uint64
				for _, ch := range v[2:] {
					x = x<<1 | uint64(ch-'0')
				}
				m[toks[i]] = x
			case v == "(" && i+3 < len(toks) && toks[i+2] == "_":
				var x uint64
				fmt.Sscanf(strings.TrimPrefix(toks[i+3], "bv"), "%d", &x)
				m[toks[i]] = x
			}
		}
	}
	return m, nil
}
