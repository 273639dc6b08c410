package main

// Path exploration: decisions, forking, summaries of pure functions, the worker pool.

import (
	"crypto/sha256"
	"encoding/binary"
	"fmt"
	"os"
	"runtime/debug"
	"sort"
	"strconv"
	"sync"
	"time"

	"golang.org/x/tools/go/ssa"
)

// decision kinds
const (
	dBoth    = 0 // branch, both sides feasible
	dImplied = 1 // branch, other side infeasible
	dVal     = 2 // concretisation: value taken
	dNotVal  = 3 // concretisation: value excluded
	dValImp  = 4 // concretisation: only value
)

type dnode struct {
	parent *dnode
	kind   uint8
	v      uint64
	n      int
}

type dec struct {
	kind uint8
	v    uint64
}

func (d *dnode) list() []dec {
	if d == nil {
		return nil
	}
	out := make([]dec, d.n)
	for i := d.n - 1; i >= 0; i-- {
		out[i] = dec{d.kind, d.v}
		d = d.parent
	}
	return out
}

type alt struct {
	node  *dnode
	model map[uint32]uint64 // portable keys
}

type observation struct {
	label string
	v     Value
}

type pathState struct {
	cons    []*Term
	has     map[uint32]bool
	model   map[uint32]uint64 // ctx-local variable index
	memo    map[uint32]uint64
	prefix  []dec
	pos     int
	node    *dnode
	inputs  []*Term
	nhidden int
	obs     []observation
	covers  map[string]bool
	push    func(alt)
	unknown int
	forks   int
	asserts int
	proved  int
	atoms   map[string]*StrVal
	floats  map[string]floatText
	local   bool // a summary exploration
}

func newPathState() *pathState {
	return &pathState{has: map[uint32]bool{}, model: map[uint32]uint64{}, memo: map[uint32]uint64{}, covers: map[string]bool{}, push: func(alt) {}}
}

// portable model keys: creation index of the variable and width
func (m *Mach) exportModel(mod map[uint32]uint64) map[uint32]uint64 {
	out := make(map[uint32]uint64, len(mod))
	for k, v := range mod {
		out[m.c.varKey[k]] = v
	}
	return out
}

func (m *Mach) importModel(mod map[uint32]uint64) map[uint32]uint64 {
	out := make(map[uint32]uint64, len(mod))
	for k, v := range mod {
		t := m.c.Var(uint8(k&0xff), int(k>>8))
		out[uint32(t.val)] = v
	}
	return out
}

func (m *Mach) addCons(t *Term) {
	ps := m.ps
	if t.isTrue() || ps.has[t.id] {
		return
	}
	if t.op == OpAnd {
		m.addCons(t.a)
		m.addCons(t.b)
		ps.has[t.id] = true
		return
	}
	ps.has[t.id] = true
	ps.cons = append(ps.cons, t)
}

func (ps *pathState) record(kind uint8, v uint64) {
	n := 1
	if ps.node != nil {
		n = ps.node.n + 1
	}
	ps.node = &dnode{ps.node, kind, v, n}
}

func (ps *pathState) altNode(kind uint8, v uint64) *dnode {
	n := 1
	if ps.node != nil {
		n = ps.node.n + 1
	}
	return &dnode{ps.node, kind, v, n}
}

func overlay(base, over map[uint32]uint64) map[uint32]uint64 {
	out := make(map[uint32]uint64, len(base)+len(over))
	for k, v := range base {
		out[k] = v
	}
	for k, v := range over {
		out[k] = v
	}
	return out
}

func (m *Mach) evalNow(t *Term) uint64 { return m.c.eval(t, m.ps.model, m.ps.memo) }

func b2u(b bool) uint64 {
	if b {
		return 1
	}
	return 0
}

// branch decides a boolean, forking when both values are feasible.
// logForks prints where paths part.
var logForks = os.Getenv("VERIF_FORKS") != ""

func (m *Mach) branch(cond *Term) bool {
	cond = m.c.canon(cond)
	if cond.op == OpConst {
		return cond.val == 1
	}
	ps := m.ps
	if m.ex != nil && m.ex.stopNow() {
		panic(abort{"time", "stopped"})
	}
	if ps.pos < len(ps.prefix) {
		d := ps.prefix[ps.pos]
		ps.pos++
		if d.kind > dImplied {
			panic(abort{"unsupported", "replay divergence (expected value decision)"})
		}
		taken := d.v == 1
		ps.record(d.kind, d.v)
		if d.kind == dBoth {
			if taken {
				m.addCons(cond)
			} else {
				m.addCons(m.c.Not(cond))
			}
		}
		return taken
	}
	if ps.has[cond.id] {
		ps.record(dImplied, 1)
		return true
	}
	neg := m.c.Not(cond)
	if ps.has[neg.id] {
		ps.record(dImplied, 0)
		return false
	}
	taken := m.evalNow(cond) == 1
	this, other := cond, neg
	if !taken {
		this, other = neg, cond
	}
	r := m.s.check(ps.cons, other)
	switch r.sat {
	case 0:
		ps.record(dImplied, b2u(taken))
		return taken
	case 1:
		ps.push(alt{ps.altNode(dBoth, b2u(!taken)), m.exportModel(overlay(ps.model, r.model))})
		ps.forks++
		if logForks {
			fmt.Fprintf(os.Stderr, "FORK %s vars=%d\n", m.where(), len(cond.vars))
		}
	default:
		ps.unknown++
	}
	ps.record(dBoth, b2u(taken))
	m.addCons(this)
	return taken
}

// concretize fixes a bit-vector term to one value, forking over the others.
func (m *Mach) concretize(t *Term) uint64 {
	if t.isK() {
		return t.val
	}
	ps := m.ps
	for {
		if ps.pos < len(ps.prefix) {
			d := ps.prefix[ps.pos]
			ps.pos++
			ps.record(d.kind, d.v)
			eq := m.c.Eq(t, m.c.K(t.w, d.v))
			switch d.kind {
			case dVal:
				m.addCons(eq)
				return d.v
			case dValImp:
				return d.v
			case dNotVal:
				m.addCons(m.c.Not(eq))
				continue
			}
			panic(abort{"unsupported", "replay divergence (expected branch decision)"})
		}
		if m.ex != nil && m.ex.stopNow() {
			panic(abort{"time", "stopped"})
		}
		v := m.evalNow(t)
		eq := m.c.Eq(t, m.c.K(t.w, v))
		if eq.isTrue() || ps.has[eq.id] {
			ps.record(dValImp, v)
			return v
		}
		ne := m.c.Not(eq)
		r := m.s.check(ps.cons, ne)
		switch r.sat {
		case 0:
			ps.record(dValImp, v)
			return v
		case 1:
			ps.push(alt{ps.altNode(dNotVal, v), m.exportModel(overlay(ps.model, r.model))})
			ps.forks++
		default:
			ps.unknown++
		}
		ps.record(dVal, v)
		m.addCons(eq)
		return v
	}
}

func (m *Mach) concretizeInt(t *Term) int { return int(sx(m.concretize(t), t.w)) }

// assume restricts the path.
func (m *Mach) assume(cond *Term) {
	cond = m.c.canon(cond)
	ps := m.ps
	if cond.isTrue() {
		return
	}
	if cond.isFalse() {
		panic(abort{"assume", ""})
	}
	if m.evalNow(cond) != 1 {
		if ps.pos < len(ps.prefix) {
			panic(abort{"unsupported", "replay divergence (assumption false under the model)"})
		}
		m.stopHere()
		r := m.s.check(ps.cons, cond)
		if r.sat != 1 {
			if r.sat < 0 {
				ps.unknown++
			}
			panic(abort{"assume", ""})
		}
		ps.model = overlay(ps.model, r.model)
		ps.memo = map[uint32]uint64{}
	}
	m.addCons(cond)
}

func (m *Mach) newVar(w uint8) *Term {
	t := m.c.Var(w, len(m.ps.inputs))
	m.ps.inputs = append(m.ps.inputs, t)
	return t
}

// hiddenVar is an unconstrained value that is not a harness input.
func (m *Mach) hiddenVar(w uint8) *Term {
	t := m.c.Var(w, 100000+m.ps.nhidden)
	m.ps.nhidden++
	return t
}

// ---------- summaries

type summary struct {
	v  Value
	ok bool
}

func (m *Mach) symbolicArgs(args []Value) bool {
	for _, a := range args {
		switch a := a.(type) {
		case *Term:
			if a.op != OpConst {
				return true
			}
		case *StrVal:
			if a.opaque {
				return false
			}
			if a.b != nil {
				return true
			}
		case SliceVal:
			if len(a.e) > 4096 {
				return false // not worth looking through, each time
			}
			for _, e := range a.e {
				if t, ok := e.(*Term); ok && t.op != OpConst {
					return true
				}
			}
		}
	}
	return false
}

func (m *Mach) summKey(fn *ssa.Function, args []Value) string {
	k := make([]byte, 0, 64)
	k = fmt.Appendf(k, "%p|", fn)
	for _, a := range args {
		switch a := a.(type) {
		case *Term:
			k = append(k, 't')
			k = binary.LittleEndian.AppendUint32(k, a.id)
		case *StrVal:
			if a.b == nil {
				k = append(k, 's')
				k = strconv.AppendQuote(k, a.s)
			} else {
				k = append(k, 'b')
				k = binary.LittleEndian.AppendUint32(k, uint32(len(a.b)))
				for _, t := range a.b {
					k = binary.LittleEndian.AppendUint32(k, t.id)
				}
			}
		case SliceVal:
			if a.e == nil {
				k = append(k, 'n')
			}
			k = append(k, 'l')
			k = binary.LittleEndian.AppendUint32(k, uint32(len(a.e)))
			for _, t := range a.e {
				k = binary.LittleEndian.AppendUint32(k, t.(*Term).id)
			}
		}
	}
	if len(k) > 200 {
		h := sha256.Sum256(k)
		return string(h[:])
	}
	return string(k)
}

// firstBytes are functions which look at no more than the first 4 bytes of what they are given, and at
// no more than the first if that is ASCII.
var firstBytes = map[string]bool{
	"unicode/utf8.DecodeRune":         true,
	"unicode/utf8.DecodeRuneInString": true,
	"unicode/utf8.FullRune":           true,
	"unicode/utf8.FullRuneInString":   true,
}

func firstOnly(args []Value) []Value {
	n := func(first *Term) int {
		if first.isK() && first.val < 0x80 {
			return 1
		}
		return 4
	}
	switch a := args[0].(type) {
	case *StrVal:
		if a.opaque {
			return args
		}
		if a.b == nil {
			if len(a.s) > 0 && a.s[0] < 0x80 {
				return []Value{&StrVal{s: a.s[:1]}}
			}
			return args
		}
		if len(a.b) == 0 {
			return args
		}
		if k := n(a.b[0]); len(a.b) > k {
			b := a.b[:k]
			s := make([]byte, k)
			for i, t := range b {
				if !t.isK() {
					return []Value{&StrVal{b: b}}
				}
				s[i] = byte(t.val)
			}
			return []Value{&StrVal{s: string(s)}}
		}
	case SliceVal:
		if len(a.e) > 0 {
			if k := n(T(a.e[0])); len(a.e) > k {
				return []Value{SliceVal{a.e[:k:k]}}
			}
		}
	}
	return args
}

const maxSummPaths = 600

type summOut struct {
	cond *Term
	v    Value
}

// summarise explores a pure function on its own and merges the results of all its paths
// into one term per result.
func (m *Mach) summarise(f *cfn, args []Value) (Value, bool) {
	key := m.summKey(f.fn, args)
	if s := m.summ[key]; s != nil {
		m.stats.summHits++
		return s.v, s.ok
	}
	if m.inSumm > 6 {
		return nil, false
	}
	m.stats.summaries++
	// arguments may be slices of mutable memory: take a snapshot
	fixed := make([]Value, len(args))
	for i, a := range args {
		if s, ok := a.(SliceVal); ok && s.e != nil {
			fixed[i] = SliceVal{append([]Value{}, s.e...)}
		} else {
			fixed[i] = a
		}
	}
	saved, savedCur, savedDepth, savedSteps := m.ps, m.cur, m.depth, m.steps
	defer func() { m.steps = savedSteps }() // the budget is per path
	m.inSumm++
	var outs []summOut
	work := []alt{{nil, map[uint32]uint64{}}}
	ok := true
	for len(work) > 0 && ok {
		a := work[len(work)-1]
		work = work[:len(work)-1]
		ps := newPathState()
		ps.local = true
		ps.atoms, ps.floats = saved.atoms, saved.floats
		ps.nhidden = saved.nhidden
		ps.prefix = a.node.list()
		ps.model = m.importModel(a.model)
		ps.push = func(x alt) { work = append(work, x) }
		m.ps = ps
		m.cur, m.depth = savedCur, savedDepth
		m.steps = savedSteps
		func() {
			defer func() {
				if r := recover(); r != nil {
					switch r := r.(type) {
					case abort:
						if r.kind == "time" || r.kind == "budget" {
							m.ps, m.cur, m.depth = saved, savedCur, savedDepth
							m.inSumm--
							panic(r)
						}
						ok = false
					case *goPanic:
						ok = false
					default:
						m.engineBug(r)
						ok = false
					}
				}
			}()
			v := m.invoke(f, fixed, nil)
			cond := m.c.True
			for _, t := range ps.cons {
				cond = m.c.And(cond, t)
			}
			if ps.unknown > 0 {
				ok = false
			}
			outs = append(outs, summOut{m.c.canon(cond), v})
			m.stats.summPaths++
		}()
		if len(outs)+len(work) > maxSummPaths {
			ok = false
		}
	}
	m.ps, m.cur, m.depth = saved, savedCur, savedDepth
	m.inSumm--
	s := &summary{}
	if ok && len(outs) > 0 {
		s.v, s.ok = m.mergeOuts(outs)
	}
	m.summ[key] = s
	return s.v, s.ok
}

func (m *Mach) mergeOuts(outs []summOut) (Value, bool) {
	if tp, ok := outs[0].v.(Tuple); ok {
		res := make(Tuple, len(tp))
		for i := range tp {
			sub := make([]summOut, len(outs))
			for j, o := range outs {
				sub[j] = summOut{o.cond, o.v.(Tuple)[i]}
			}
			v, ok := m.mergeOuts(sub)
			if !ok {
				return nil, false
			}
			res[i] = v
		}
		return res, true
	}
	switch outs[0].v.(type) {
	case *Term:
		// group equal results
		var order []*Term
		conds := map[*Term]*Term{}
		for _, o := range outs {
			t := o.v.(*Term)
			if c, ok := conds[t]; ok {
				conds[t] = m.c.Or(c, o.cond)
			} else {
				conds[t] = o.cond
				order = append(order, t)
			}
		}
		r := order[len(order)-1]
		for i := len(order) - 2; i >= 0; i-- {
			r = m.c.Ite(m.c.canon(conds[order[i]]), order[i], r)
		}
		return m.c.canon(r), true
	case *StrVal:
		n := -1
		for _, o := range outs {
			s := o.v.(*StrVal)
			if s.opaque || (n >= 0 && s.length() != n) {
				return nil, false
			}
			n = s.length()
		}
		r := append([]*Term{}, m.strBytes(outs[len(outs)-1].v.(*StrVal))...)
		for i := len(outs) - 2; i >= 0; i-- {
			for j, t := range m.strBytes(outs[i].v.(*StrVal)) {
				r[j] = m.c.Ite(outs[i].cond, t, r[j])
			}
		}
		return m.mkStr(r), true
	case Iface, *SymIface:
		isNil := m.c.False
		var non *Iface
		for _, o := range outs {
			switch v := o.v.(type) {
			case Iface:
				if v.t == nil {
					isNil = m.c.Or(isNil, o.cond)
				} else if non == nil {
					x := v
					non = &x
				} else if !m.identical(non.t, v.t) {
					return nil, false
				}
			case *SymIface:
				isNil = m.c.Or(isNil, m.c.And(o.cond, v.isNil))
				if non == nil {
					x := v.non
					non = &x
				} else if !m.identical(non.t, v.non.t) {
					return nil, false
				}
			}
		}
		if non == nil {
			return Iface{}, true
		}
		if !m.identical(non.t, m.P.errStr) {
			return nil, false
		}
		e := m.errorVal(&StrVal{opaque: true})
		if isNil.isFalse() {
			return e, true
		}
		return &SymIface{m.c.canon(isNil), e}, true
	}
	return nil, false
}

// ---------- explorer

type sample struct {
	Harness string
	Inputs  []uint64
	Obs     []string
	Covers  []string
}

type violation struct {
	Harness string
	Msg     string
	Known   string
	Kind    string // assert, panic, hang
	Inputs  []uint64
}

type Explorer struct {
	P        *Program
	mu       sync.Mutex
	cond     *sync.Cond
	global   []alt
	waiting  int
	nworkers int
	stop     bool
	deadline time.Time
	fn       *ssa.Function
	harness  string
	tier     int

	// results of the current harness
	paths, infeasible, truncated, unknown int
	inconclusive                          map[string]int
	decisions                             int
	asserts, proved                       int
	covers                                map[string]int
	samples                               []sample
	nsample                               int
	cands                                 []violation
	candSeen                              map[string]int
	notes                                 map[string]int
	onCand                                func(violation) bool // reproduced?
	spurious                              map[string]int
	confirmed                             []violation
	maxPaths                              int
	left                                  int
	workers                               []*worker
	seed                                  uint64
	sampleCap                             int
	verbose                               bool
}

type worker struct {
	id    int
	m     *Mach
	local []alt
}

func (ex *Explorer) note(f string, a ...interface{}) {
	ex.mu.Lock()
	defer ex.mu.Unlock()
	ex.notes[fmt.Sprintf(f, a...)]++
}

func (ex *Explorer) stopNow() bool { return ex.stop }

// stopHere ends the path before another query when the exploration is over.
func (m *Mach) stopHere() {
	if m.ex != nil && m.ex.stopNow() {
		panic(abort{"time", "stopped"})
	}
}

func NewExplorer(P *Program, n int, tier int, verbose bool) *Explorer {
	ex := &Explorer{verbose: verbose, P: P, nworkers: n, tier: tier, notes: map[string]int{}, sampleCap: 24}
	ex.cond = sync.NewCond(&ex.mu)
	var wg sync.WaitGroup
	ex.workers = make([]*worker, n)
	for i := 0; i < n; i++ {
		wg.Add(1)
		go func(i int) {
			defer wg.Done()
			m := NewMach(P)
			m.ex = ex
			w := &worker{id: i, m: m}
			m.w = w
			m.initProgram()
			ex.workers[i] = w
		}(i)
	}
	wg.Wait()
	return ex
}

func (ex *Explorer) Close() {
	for _, w := range ex.workers {
		w.m.s.Close()
	}
}

// Run explores one harness function.
func (ex *Explorer) Run(name string, fn *ssa.Function, deadline time.Time) {
	ex.fn, ex.harness, ex.deadline = fn, name, deadline
	ex.global = []alt{{nil, map[uint32]uint64{}}}
	ex.stop, ex.waiting = false, 0
	ex.paths, ex.infeasible, ex.truncated, ex.unknown, ex.decisions, ex.asserts, ex.proved, ex.left, ex.nsample = 0, 0, 0, 0, 0, 0, 0, 0, 0
	ex.inconclusive = map[string]int{}
	ex.covers = map[string]int{}
	ex.spurious = map[string]int{}
	ex.samples, ex.cands, ex.confirmed = nil, nil, nil
	ex.candSeen = map[string]int{}
	var wg sync.WaitGroup
	done := make(chan struct{})
	go func() {
		select {
		case <-done:
		case <-time.After(time.Until(deadline)):
			ex.mu.Lock()
			ex.stop = true
			ex.cond.Broadcast()
			ex.mu.Unlock()
		}
	}()
	for _, w := range ex.workers {
		wg.Add(1)
		go func(w *worker) {
			defer wg.Done()
			w.loop(ex)
		}(w)
	}
	wg.Wait()
	close(done)
	ex.left = len(ex.global)
	for _, w := range ex.workers {
		ex.left += len(w.local)
		w.local = nil
	}
}

func (w *worker) loop(ex *Explorer) {
	for {
		var a alt
		if n := len(w.local); n > 0 {
			a = w.local[n-1]
			w.local = w.local[:n-1]
			if ex.stop {
				w.local = append(w.local, a)
				return
			}
		} else {
			ex.mu.Lock()
			ex.waiting++
			for len(ex.global) == 0 && ex.waiting < ex.nworkers && !ex.stop {
				ex.cond.Wait()
			}
			if ex.stop || len(ex.global) == 0 {
				ex.cond.Broadcast()
				ex.mu.Unlock()
				return
			}
			n := len(ex.global)
			a = ex.global[n-1]
			ex.global = ex.global[:n-1]
			ex.waiting--
			ex.mu.Unlock()
		}
		w.runPath(ex, a)
	}
}

func (w *worker) donate(ex *Explorer) {
	if ex.waiting == 0 || len(w.local) < 2 {
		return
	}
	ex.mu.Lock()
	if ex.waiting > 0 && len(ex.global) == 0 {
		k := len(w.local) / 2
		if k > 64 {
			k = 64
		}
		ex.global = append(ex.global, w.local[:k]...)
		w.local = append([]alt{}, w.local[k:]...)
		ex.cond.Broadcast()
	}
	ex.mu.Unlock()
}

func (w *worker) runPath(ex *Explorer, a alt) {
	m := w.m
	ps := newPathState()
	ps.prefix = a.node.list()
	ps.model = m.importModel(a.model)
	ps.atoms = map[string]*StrVal{}
	ps.floats = map[string]floatText{}
	ps.push = func(x alt) { w.local = append(w.local, x); w.donate(ex) }
	m.ps = ps
	m.cur, m.depth, m.steps = nil, 0, 0
	m.maxStep, m.maxCall = 6000000, 400
	kind, msg := "done", ""
	func() {
		defer func() {
			if r := recover(); r != nil {
				switch r := r.(type) {
				case abort:
					kind, msg = r.kind, r.msg
				case *goPanic:
					kind, msg = "panic", r.msg+" at "+r.pos
				default:
					kind, msg = "engine", m.engineBug(r)
				}
			}
		}()
		m.callFn(ex.fn, nil, nil)
	}()
	m.cur = nil
	switch kind {
	case "panic":
		w.candidate(violation{Harness: ex.harness, Msg: "panic: " + msg, Kind: "panic", Inputs: w.inputs(ps.model)}, nil)
	case "budget":
		w.candidate(violation{Harness: ex.harness, Msg: "does not terminate within the instruction budget: " + msg, Kind: "hang", Inputs: w.inputs(ps.model)}, nil)
	}
	switch kind {
	case "done", "panic", "budget", "exit", "assume", "time":
	default:
		w.witness(violation{Harness: ex.harness, Msg: "a path that could not be decided (" + kind + ": " + msg + ") fails natively for a solution of its path condition", Kind: "witness", Inputs: w.inputs(ps.model)})
	}
	var smp *sample
	ex.mu.Lock()
	ex.unknown += ps.unknown
	ex.decisions += ps.forks
	ex.asserts += ps.asserts
	ex.proved += ps.proved
	switch kind {
	case "done":
		ex.paths++
		for c := range ps.covers {
			ex.covers[c]++
		}
		// reservoir sample
		ex.nsample++
		if len(ex.samples) < ex.sampleCap {
			ex.samples = append(ex.samples, sample{})
			smp = &ex.samples[len(ex.samples)-1]
		} else {
			ex.seed = ex.seed*6364136223846793005 + 1442695040888963407
			if j := int((ex.seed >> 33) % uint64(ex.nsample)); j < ex.sampleCap {
				smp = &ex.samples[j]
			}
		}
		if smp != nil {
			s := sample{Harness: ex.harness, Inputs: w.inputs(ps.model)}
			bad := ps.nhidden > 0
			for _, o := range ps.obs {
				str, ok := m.observed(o.v)
				if !ok {
					str = "?"
				}
				s.Obs = append(s.Obs, o.label+"="+str)
			}
			for c := range ps.covers {
				s.Covers = append(s.Covers, c)
			}
			sort.Strings(s.Covers)
			if bad {
				s.Obs = nil
			}
			*smp = s
		}
	case "assume":
		ex.infeasible++
	case "panic", "budget", "exit":
		ex.paths++
	case "time":
		ex.truncated++
	default:
		ex.inconclusive[kind+": "+msg]++
	}
	if ex.maxPaths > 0 && ex.paths >= ex.maxPaths {
		ex.stop = true
		ex.cond.Broadcast()
	}
	ex.mu.Unlock()
	m.rollback()
}

func (w *worker) inputs(model map[uint32]uint64) []uint64 {
	out := make([]uint64, len(w.m.ps.inputs))
	memo := map[uint32]uint64{}
	for i, t := range w.m.ps.inputs {
		out[i] = w.m.c.eval(t, model, memo)
	}
	return out
}

// variants asks the solver for other solutions of the path condition (and of bad): ones in which the
// numbers among the inputs are the random ones that the constraints allow. They are for
// counterexamples that rest on a part of the model which is coarser than the code, as the text of a
// symbolic float is.
func (w *worker) variants(bad *Term, n int) [][]uint64 {
	m := w.m
	var nums []*Term
	for _, t := range m.ps.inputs {
		if t.w >= 32 {
			nums = append(nums, t)
		}
	}
	if len(nums) == 0 {
		return nil
	}
	rnd := uint64(len(m.ps.cons))*0x9E3779B97F4A7C15 + 1
	next := func() uint64 {
		rnd ^= rnd << 13
		rnd ^= rnd >> 7
		rnd ^= rnd << 17
		return rnd * 0x2545F4914F6CDD1D
	}
	var out [][]uint64
	for ; n > 0; n-- {
		cons := append([]*Term{}, m.ps.cons...)
		cond := bad
		model := m.ps.model
		for _, t := range nums {
			x := next()
			var fix func(lo, n uint8)
			fix = func(lo, n uint8) {
				k := mask(n) << lo
				eq := m.c.Eq(m.c.Bin(OpBAnd, t, m.c.K(t.w, k)), m.c.K(t.w, x&k))
				r := m.s.check(cons, m.c.And(cond, eq))
				switch {
				case r.sat == 1:
					cond = m.c.And(cond, eq)
					model = overlay(model, r.model)
				case n > 1:
					fix(lo, n/2)
					fix(lo+n/2, n/2)
				}
			}
			fix(0, t.w)
		}
		out = append(out, w.inputs(model))
	}
	return out
}

// candidate hands a counterexample to the replayer.
func (w *worker) candidate(v violation, bad *Term) {
	ex := w.m.ex
	key := v.Kind + v.Msg + v.Known
	ex.mu.Lock()
	n := ex.candSeen[key]
	ex.candSeen[key]++
	lim := 6
	if v.Known != "" {
		lim = 3
	}
	ex.mu.Unlock()
	if n >= lim {
		return
	}
	rep := ex.onCand(v)
	if !rep && v.Kind == "assert" {
		for _, in := range w.variants(bad, 32) {
			u := v
			u.Inputs = in
			if rep = ex.onCand(u); rep {
				v = u
				break
			}
		}
	}
	ex.mu.Lock()
	defer ex.mu.Unlock()
	if rep {
		ex.candSeen[key] += 1000
		ex.confirmed = append(ex.confirmed, v)
		if v.Known == "" {
			ex.stop = true
			ex.cond.Broadcast()
		}
	} else {
		ex.spurious[v.Kind+": "+v.Msg]++
	}
}

// witness runs natively a solution of the path condition of a path that the engine could not
// follow to its end (inputs not yet asked for are 0). Only a native failure counts; otherwise
// the path stays inconclusive.
func (w *worker) witness(v violation) {
	ex := w.m.ex
	ex.mu.Lock()
	n := ex.candSeen["witness"]
	ex.candSeen["witness"]++
	ex.mu.Unlock()
	if n >= 48 {
		return
	}
	if !ex.onCand(v) {
		if n >= 6 {
			return
		}
		found := false
		for _, in := range w.variants(w.m.c.True, 4) {
			v.Inputs = in
			if found = ex.onCand(v); found {
				break
			}
		}
		if !found {
			return
		}
	}
	ex.mu.Lock()
	defer ex.mu.Unlock()
	ex.candSeen["witness"] += 1000
	ex.confirmed = append(ex.confirmed, v)
	ex.stop = true
	ex.cond.Broadcast()
}

// observed renders a value under the current model.
func (m *Mach) observed(v Value) (string, bool) {
	switch v := v.(type) {
	case *Term:
		x := m.evalNow(v)
		if v.w == 0 {
			return fmt.Sprint(x == 1), true
		}
		return fmt.Sprint(sx(x, v.w)), true
	case *StrVal:
		if v.opaque {
			return "", false
		}
		if v.b == nil {
			return fmt.Sprintf("%q", v.s), true
		}
		b := make([]byte, len(v.b))
		for i, t := range v.b {
			b[i] = byte(m.evalNow(t))
		}
		return fmt.Sprintf("%q", b), true
	}
	return "", false
}

// engineBug turns an unexpected Go panic of the engine into a recorded,
// inconclusive path.
func (m *Mach) engineBug(r any) string {
	msg := fmt.Sprintf("%v at %s", r, m.where())
	if m.ex != nil && m.ex.verbose {
		fmt.Fprintf(os.Stderr, "engine: %s\n%s\n", msg, debug.Stack())
	}
	return msg
}
