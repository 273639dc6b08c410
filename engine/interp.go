package main

// The symbolic interpreter over go/ssa.

import (
	"fmt"
	"go/constant"
	"go/token"
	"go/types"
	"math"
	"reflect"
	"sort"
	"strings"
	"sync"
	"time"

	"golang.org/x/tools/go/ssa"
)

type opnd struct {
	k uint8 // 0 register, 1 constant, 2 absent
	i int
	v Value
}

type cins struct {
	in  ssa.Instruction
	dst int
	ops []opnd
}

type cfn struct {
	fn       *ssa.Function
	nregs    int
	nparams  int
	blocks   [][]cins
	hasDefer bool
	pure     bool
	intr     intrinsic
	first    bool
	partial  func(m *Mach, a []Value) (Value, bool)
	inRepo   bool
	condOK   []bool // blocks that may be part of a merged condition
}

type frame struct {
	f         *cfn
	regs      []Value
	caller    *frame
	pos       token.Pos
	defers    []deferred
	panicking *goPanic
	recovered bool
	result    Value
}

type deferred struct {
	fv   Value
	args []Value
}

type undoRec struct {
	p   *Value
	old Value
}

type run struct {
	start int
	v     *Term
}

type Mach struct {
	P       *Program
	c       *Ctx
	s       *Solver
	globals map[*ssa.Global]*Value
	fns     map[*ssa.Function]*cfn
	undo    []undoRec
	undoFn  []func()
	initFn  *ssa.Function
	initing bool
	steps   int
	maxStep int
	maxCall int
	ps      *pathState
	cur     *frame
	runs    map[*Value][]run
	idents  map[[2]types.Type]bool
	impls   map[[2]types.Type]bool
	mcache  map[mkey]*ssa.Function
	zeros   map[types.Type]Value
	summ    map[string]*summary
	growc   map[growKey]int
	repoFns map[string]bool
	strs    map[string]*StrVal
	depth   int
	inSumm  int
	stats   struct{ summaries, summPaths, summHits int }
	ex      *Explorer
	w       *worker
}

type mkey struct {
	t    types.Type
	name string
}

func NewMach(P *Program) *Mach {
	c := NewCtx()
	m := &Mach{P: P, c: c, s: NewSolver(c), globals: map[*ssa.Global]*Value{}, fns: map[*ssa.Function]*cfn{}, runs: map[*Value][]run{},
		idents: map[[2]types.Type]bool{}, impls: map[[2]types.Type]bool{}, mcache: map[mkey]*ssa.Function{}, zeros: map[types.Type]Value{},
		summ: map[string]*summary{}, growc: map[growKey]int{}, repoFns: map[string]bool{}, strs: map[string]*StrVal{}, maxStep: 1 << 40, maxCall: 400}
	return m
}

func unsupported(f string, a ...interface{}) {
	panic(abort{"unsupported", fmt.Sprintf(f, a...)})
}

// ---------- program initialisation

func (m *Mach) initProgram() {
	m.initing = true
	m.ps = newPathState()
	for _, p := range m.P.initPk {
		for _, mem := range p.Members {
			if g, ok := mem.(*ssa.Global); ok {
				cell := new(Value)
				*cell = m.zero(deref(g.Type()))
				m.globals[g] = cell
			}
		}
	}
	for _, p := range m.P.initPk {
		path := p.Pkg.Path()
		fn := p.Func("init")
		if fn == nil {
			continue
		}
		if path != "internal/strconv" && (skipInit[path] || strings.HasPrefix(path, "internal/") || strings.HasPrefix(path, "vendor/") || strings.HasPrefix(path, "crypto/")) {
			m.poisonGlobals(p, fn)
			continue
		}
		func() {
			defer func() {
				if r := recover(); r != nil {
					switch r := r.(type) {
					case abort:
						m.ex.note("init of %s: %s %s", path, r.kind, r.msg)
					case *goPanic:
						m.ex.note("init of %s: panic %s", path, r.msg)
					default:
						m.ex.note("init of %s: %s", path, m.engineBug(r))
					}
					m.cur, m.depth = nil, 0
				}
			}()
			m.initFn = fn
			m.callFn(fn, nil, nil)
		}()
	}
	m.initing = false
	m.undo = m.undo[:0]
	m.steps = 0
}

// poison is the value of a global whose initialiser has not been run: whatever uses it is not encoded.
type poison struct{ name string }

// poisonGlobals marks the globals that the initialiser of a package, which is not run, would set.
func (m *Mach) poisonGlobals(p *ssa.Package, fn *ssa.Function) {
	var root func(v ssa.Value) *ssa.Global
	root = func(v ssa.Value) *ssa.Global {
		switch v := v.(type) {
		case *ssa.Global:
			return v
		case *ssa.IndexAddr:
			return root(v.X)
		case *ssa.FieldAddr:
			return root(v.X)
		}
		return nil
	}
	for _, b := range fn.Blocks {
		for _, in := range b.Instrs {
			st, ok := in.(*ssa.Store)
			if !ok {
				continue
			}
			if g := root(st.Addr); g != nil && g.Pkg == p && g.Name() != "init$guard" {
				if cell := m.globals[g]; cell != nil {
					*cell = poison{g.String()}
				}
			}
		}
	}
}

func (m *Mach) rollback() {
	for i := len(m.undoFn) - 1; i >= 0; i-- {
		m.undoFn[i]()
	}
	m.undoFn = m.undoFn[:0]
	for i := len(m.undo) - 1; i >= 0; i-- {
		*m.undo[i].p = m.undo[i].old
		m.undo[i].old = nil
	}
	m.undo = m.undo[:0]
}

// ---------- compilation

func (m *Mach) compile(fn *ssa.Function) *cfn {
	if f := m.fns[fn]; f != nil {
		return f
	}
	f := &cfn{fn: fn}
	m.fns[fn] = f
	org := fn
	if o := fn.Origin(); o != nil {
		org = o
	}
	f.intr = intrinsics[org.String()]
	f.partial = partials[org.String()]
	f.first = firstBytes[org.String()]
	if f.intr == nil {
		if pk := fnPkg(org); pk != nil && strings.HasSuffix(pk.Path(), "/sym") && pk.Path() == m.P.modPath+"/sym" {
			f.intr = symIntr[org.Name()]
		}
	}
	if f.intr != nil {
		return f
	}
	if pk := fnPkg(org); pk != nil && strings.HasPrefix(pk.Path(), "github.com/shabbyrobe/xmlwriter") {
		f.inRepo = true
	}
	idx := map[ssa.Value]int{}
	add := func(v ssa.Value) int {
		i := len(idx)
		idx[v] = i
		return i
	}
	for _, p := range fn.Params {
		add(p)
	}
	f.nparams = len(fn.Params)
	for _, p := range fn.FreeVars {
		add(p)
	}
	for _, b := range fn.Blocks {
		for _, in := range b.Instrs {
			if v, ok := in.(ssa.Value); ok {
				add(v)
			}
			if _, ok := in.(*ssa.Defer); ok {
				f.hasDefer = true
			}
		}
	}
	if fn.Recover != nil {
		f.hasDefer = true
	}
	f.nregs = len(idx)
	for _, b := range fn.Blocks {
		var cb []cins
		for _, in := range b.Instrs {
			if _, ok := in.(*ssa.DebugRef); ok {
				continue
			}
			ci := cins{in: in, dst: -1}
			if v, ok := in.(ssa.Value); ok {
				ci.dst = idx[v]
			}
			for _, op := range in.Operands(nil) {
				if *op == nil {
					ci.ops = append(ci.ops, opnd{k: 2})
					continue
				}
				if i, ok := idx[*op]; ok {
					ci.ops = append(ci.ops, opnd{k: 0, i: i})
					continue
				}
				ci.ops = append(ci.ops, opnd{k: 1, v: m.constOperand(*op)})
			}
			cb = append(cb, ci)
		}
		f.blocks = append(f.blocks, cb)
		f.condOK = append(f.condOK, condBlock(b))
	}
	f.pure = m.P.pure(fn)
	return f
}

func fnPkg(fn *ssa.Function) *types.Package {
	for fn.Parent() != nil {
		fn = fn.Parent()
	}
	if fn.Pkg != nil {
		return fn.Pkg.Pkg
	}
	if o := fn.Object(); o != nil {
		return o.Pkg()
	}
	return nil
}

func (m *Mach) constOperand(v ssa.Value) Value {
	switch v := v.(type) {
	case *ssa.Const:
		return m.constVal(v)
	case *ssa.Global:
		g := m.globals[v]
		if g == nil {
			cell := new(Value)
			*cell = m.zero(deref(v.Type()))
			m.globals[v] = cell
			g = cell
		}
		return g
	case *ssa.Function:
		return &Closure{fn: v}
	case *ssa.Builtin:
		return &Closure{bi: v}
	}
	unsupported("operand %T", v)
	return nil
}

func (m *Mach) str(s string) *StrVal {
	if len(s) < 64 {
		if v := m.strs[s]; v != nil {
			return v
		}
		s = strings.Clone(s) // a part of a long string would keep all of it
		v := &StrVal{s: s}
		m.strs[s] = v
		return v
	}
	return &StrVal{s: s}
}

func (m *Mach) constVal(k *ssa.Const) Value {
	t := k.Type()
	if k.Value == nil {
		return m.zero(t)
	}
	b, ok := t.Underlying().(*types.Basic)
	if !ok {
		unsupported("const of type %s", t)
	}
	switch {
	case b.Info()&types.IsBoolean != 0:
		return m.c.Bool(constant.BoolVal(k.Value))
	case b.Info()&types.IsString != 0:
		return m.str(constant.StringVal(k.Value))
	case b.Info()&types.IsInteger != 0:
		w, _, _ := basicWidth(b)
		if i, ok := constant.Int64Val(constant.ToInt(k.Value)); ok {
			return m.c.K(w, uint64(i))
		}
		u, _ := constant.Uint64Val(constant.ToInt(k.Value))
		return m.c.K(w, u)
	case b.Info()&types.IsFloat != 0:
		f, _ := constant.Float64Val(k.Value)
		return m.floatVal(f, b)
	}
	return nil
}

func (m *Mach) floatVal(f float64, b *types.Basic) Value {
	if b.Kind() == types.Float32 {
		return FloatVal{m.c.K(32, uint64(math.Float32bits(float32(f)))), 32, 32}
	}
	return FloatVal{m.c.K(64, math.Float64bits(f)), 64, 64}
}

func (m *Mach) zero(t types.Type) Value {
	switch u := t.Underlying().(type) {
	case *types.Basic:
		if u.Info()&types.IsString != 0 {
			return m.str("")
		}
		if w, _, ok := basicWidth(u); ok {
			return m.c.K(w, 0)
		}
		if u.Info()&types.IsFloat != 0 {
			return m.floatVal(0, u)
		}
		if u.Kind() == types.UnsafePointer {
			return (*Value)(nil)
		}
		if u.Kind() == types.UntypedNil {
			return Iface{}
		}
		return nil // complex
	case *types.Pointer:
		return (*Value)(nil)
	case *types.Slice:
		return SliceVal{}
	case *types.Struct:
		s := &Struct{f: make([]Value, u.NumFields())}
		for i := range s.f {
			s.f[i] = m.zero(u.Field(i).Type())
		}
		return s
	case *types.Array:
		n := int(u.Len())
		a := &Array{e: make([]Value, n)}
		for i := range a.e {
			a.e[i] = m.zero(u.Elem())
		}
		return a
	case *types.Interface:
		return Iface{}
	case *types.Signature:
		return (*Closure)(nil)
	case *types.Map:
		return (*MapVal)(nil)
	case *types.Chan:
		return nil
	case *types.Tuple:
		if u.Len() == 0 {
			return nil
		}
		tp := make(Tuple, u.Len())
		for i := range tp {
			tp[i] = m.zero(u.At(i).Type())
		}
		return tp
	}
	unsupported("zero of %s", t)
	return nil
}

// ---------- memory

func (m *Mach) store(p *Value, v Value) {
	switch old := (*p).(type) {
	case *Struct:
		if ns, ok := v.(*Struct); ok && len(ns.f) == len(old.f) {
			if ns == old {
				return
			}
			for i := range ns.f {
				m.store(&old.f[i], ns.f[i])
			}
			return
		}
	case *Array:
		if na, ok := v.(*Array); ok && len(na.e) == len(old.e) {
			if na == old {
				return
			}
			for i := range na.e {
				m.store(&old.e[i], na.e[i])
			}
			return
		}
	}
	switch v.(type) {
	case *Struct, *Array:
		v = copyVal(v)
	}
	if !m.initing {
		m.undo = append(m.undo, undoRec{p, *p})
	}
	*p = v
}

func (m *Mach) load(pv Value) Value {
	switch p := pv.(type) {
	case *Value:
		if p == nil {
			m.rtPanic("invalid memory address or nil pointer dereference")
		}
		switch v := (*p).(type) {
		case *Struct, *Array:
			return copyVal(v)
		default:
			return v
		}
	case *SymPtr:
		return m.symLoad(p.e, p.idx)
	case *DataPtr:
		if p.str != nil {
			return m.strByte(p.str, 0)
		}
		return p.sl[0]
	}
	unsupported("load through %T", pv)
	return nil
}

// symLoad reads e[idx] for symbolic in-range idx.
func (m *Mach) symLoad(e []Value, idx *Term) Value {
	key := &e[0]
	rs := m.runs[key]
	if rs == nil || len(e) < 64 {
		rs = nil
		for i, v := range e {
			t, ok := v.(*Term)
			if !ok {
				// not a scalar table
				return copyVal(e[m.classOf(e, idx)])
			}
			if i == 0 || rs[len(rs)-1].v != t {
				rs = append(rs, run{i, t})
			}
		}
		if len(e) >= 256 {
			m.runs[key] = rs
		}
	}
	return m.runTree(rs, idx)
}

func (m *Mach) runTree(rs []run, idx *Term) *Term {
	if len(rs) == 1 {
		return rs[0].v
	}
	mid := len(rs) / 2
	return m.c.Ite(m.c.Ult(idx, m.c.K(idx.w, uint64(rs[mid].start))), m.runTree(rs[:mid], idx), m.runTree(rs[mid:], idx))
}

func (m *Mach) storeTo(pv Value, v Value) {
	switch p := pv.(type) {
	case *Value:
		if p == nil {
			m.rtPanic("invalid memory address or nil pointer dereference")
		}
		m.store(p, v)
		return
	case *SymPtr:
		k := m.concretize(p.idx)
		m.store(&p.e[k], v)
		return
	case *DataPtr:
		if p.str == nil {
			m.store(&p.sl[0], v)
			return
		}
	}
	unsupported("store through %T", pv)
}

// ---------- panics

func (m *Mach) mkError(msg string) Iface {
	p := new(Value)
	*p = &Struct{f: []Value{m.str(msg)}}
	return Iface{t: m.P.errStr, v: p}
}

func (m *Mach) errorVal(s *StrVal) Iface {
	p := new(Value)
	*p = &Struct{f: []Value{s}}
	return Iface{t: m.P.errStr, v: p}
}

func (m *Mach) rtPanic(msg string) {
	panic(&goPanic{v: m.mkError("runtime error: " + msg), msg: "runtime error: " + msg, pos: m.where()})
}

func (m *Mach) where() string {
	var out []string
	for fr := m.cur; fr != nil && len(out) < 4; fr = fr.caller {
		p := m.P.prog.Fset.Position(fr.pos)
		name := fr.f.fn.String()
		if i := strings.LastIndex(name, "/"); i >= 0 {
			name = name[i+1:]
		}
		file := p.Filename
		if i := strings.LastIndex(file, "/"); i >= 0 {
			file = file[i+1:]
		}
		out = append(out, fmt.Sprintf("%s(%s:%d)", name, file, p.Line))
	}
	return strings.Join(out, " < ")
}

// ---------- calls

func (m *Mach) callFn(fn *ssa.Function, args []Value, env []Value) Value {
	f := m.compile(fn)
	if f.intr != nil {
		return f.intr(m, args)
	}
	if f.first {
		args = firstOnly(args)
	}
	if f.partial != nil {
		if v, ok := f.partial(m, args); ok {
			return v
		}
	}
	if m.initing && fn.Name() == "init" && fn.Synthetic != "" && fn.Pkg != nil && fn != m.initFn {
		return nil // imported packages are initialised in dependency order by initProgram
	}
	if len(fn.Blocks) == 0 {
		unsupported("no body: %s", fn.String())
	}
	if f.pure && m.symbolicArgs(args) {
		if v, ok := m.summarise(f, args); ok {
			return v
		}
	}
	return m.invoke(f, args, env)
}

func (m *Mach) invoke(f *cfn, args []Value, env []Value) Value {
	if f.inRepo && !m.initing {
		m.repoFns[f.fn.String()] = true
	}
	m.depth++
	if m.depth > m.maxCall {
		m.depth = 0
		panic(&goPanic{v: m.mkError("stack overflow"), msg: fmt.Sprintf("stack overflow (call depth > %d)", m.maxCall), pos: m.where()})
	}
	fr := &frame{f: f, regs: make([]Value, f.nregs), caller: m.cur}
	copy(fr.regs, args)
	copy(fr.regs[f.nparams:], env)
	m.cur = fr
	if !f.hasDefer {
		v := m.exec(fr, 0, -1)
		m.cur = fr.caller
		m.depth--
		return v
	}
	d := m.depth
	func() {
		defer func() {
			if r := recover(); r != nil {
				gp, ok := r.(*goPanic)
				if !ok {
					panic(r)
				}
				fr.panicking = gp
				m.cur = fr
				m.depth = d
			}
		}()
		fr.result = m.exec(fr, 0, -1)
	}()
	if fr.panicking != nil {
		m.runDefers(fr)
		if fr.panicking != nil {
			gp := fr.panicking
			m.cur = fr.caller
			m.depth--
			panic(gp)
		}
		// recovered
		if f.fn.Recover != nil {
			fr.result = m.exec(fr, f.fn.Recover.Index, -1)
		} else {
			res := f.fn.Signature.Results()
			switch res.Len() {
			case 0:
				fr.result = nil
			case 1:
				fr.result = m.zero(res.At(0).Type())
			default:
				fr.result = m.zero(res)
			}
		}
	}
	m.cur = fr.caller
	m.depth--
	return fr.result
}

func (m *Mach) runDefers(fr *frame) {
	for len(fr.defers) > 0 {
		d := fr.defers[len(fr.defers)-1]
		fr.defers = fr.defers[:len(fr.defers)-1]
		dep := m.depth
		func() {
			defer func() {
				if r := recover(); r != nil {
					gp, ok := r.(*goPanic)
					if !ok {
						panic(r)
					}
					fr.panicking = gp
					m.cur = fr
					m.depth = dep
				}
			}()
			m.callValue(d.fv, d.args, nil)
		}()
	}
}

func (m *Mach) callValue(fv Value, args []Value, call *ssa.CallCommon) Value {
	cl, ok := fv.(*Closure)
	if !ok {
		unsupported("call of %T", fv)
	}
	if cl == nil {
		m.rtPanic("invalid memory address or nil pointer dereference")
	}
	if cl.bi != nil {
		return m.builtin(cl.bi, args, call)
	}
	return m.callFn(cl.fn, args, cl.env)
}

func (m *Mach) lookupMethod(t types.Type, meth *types.Func) *ssa.Function {
	k := mkey{t, meth.Id()}
	if f := m.mcache[k]; f != nil {
		return f
	}
	m.P.typesMu.Lock()
	f := m.P.prog.LookupMethod(t, meth.Pkg(), meth.Name())
	m.P.typesMu.Unlock()
	if f == nil {
		unsupported("no method %s on %s", meth.Name(), t)
	}
	m.mcache[k] = f
	return f
}

// resolve turns a symbolic interface into a concrete one by branching.
func (m *Mach) resolve(v Value) Iface {
	switch v := v.(type) {
	case Iface:
		return v
	case *SymIface:
		if m.branch(v.isNil) {
			return Iface{}
		}
		return v.non
	}
	unsupported("interface value %T", v)
	return Iface{}
}

// ---------- the main loop

func (fr *frame) get(o *opnd) Value {
	if o.k == 0 {
		return fr.regs[o.i]
	}
	return o.v
}

func (m *Mach) exec(fr *frame, bi int, prev int) Value {
	f := fr.f
	for {
		blk := f.blocks[bi]
		sb := f.fn.Blocks[bi]
		pc := 0
		// phis
		if len(blk) > 0 {
			if _, ok := blk[0].in.(*ssa.Phi); ok {
				edge := -1
				for i, p := range sb.Preds {
					if p.Index == prev {
						edge = i
						break
					}
				}
				var tmp [8]Value
				vals := tmp[:0]
				n := 0
				for n < len(blk) {
					if _, ok := blk[n].in.(*ssa.Phi); !ok {
						break
					}
					vals = append(vals, fr.get(&blk[n].ops[edge]))
					n++
				}
				for i := 0; i < n; i++ {
					fr.regs[blk[i].dst] = vals[i]
				}
				pc = n
			}
		}
		m.steps += len(blk)
		if m.steps > m.maxStep {
			panic(abort{"budget", "instruction budget exceeded at " + m.where()})
		}
		next := -1
		for ; pc < len(blk); pc++ {
			ci := &blk[pc]
			switch in := ci.in.(type) {
			case *ssa.If:
				c := fr.get(&ci.ops[0]).(*Term)
				if c.op != OpConst {
					fr.pos = in.Cond.Pos()
					next, bi = m.mergedIf(fr, bi, c)
				} else if c.val == 1 {
					next = sb.Succs[0].Index
				} else {
					next = sb.Succs[1].Index
				}
			case *ssa.Jump:
				next = sb.Succs[0].Index
			case *ssa.Return:
				switch len(ci.ops) {
				case 0:
					return nil
				case 1:
					return fr.get(&ci.ops[0])
				default:
					t := make(Tuple, len(ci.ops))
					for i := range ci.ops {
						t[i] = fr.get(&ci.ops[i])
					}
					return t
				}
			case *ssa.Panic:
				fr.pos = in.Pos()
				v := m.resolve(fr.get(&ci.ops[0]))
				panic(&goPanic{v: v, msg: m.panicMsg(v), pos: m.where()})
			case *ssa.Store:
				m.storeTo(fr.get(&ci.ops[0]), fr.get(&ci.ops[1]))
			case *ssa.Call:
				fr.pos = in.Pos()
				fr.regs[ci.dst] = m.doCall(fr, ci, &in.Call)
			case *ssa.Defer:
				fv, args := m.prepCall(fr, ci, &in.Call)
				fr.defers = append(fr.defers, deferred{fv, args})
			case *ssa.RunDefers:
				m.runDefers(fr)
				if fr.panicking != nil {
					gp := fr.panicking
					fr.panicking = nil
					panic(gp)
				}
			case *ssa.MapUpdate:
				m.mapUpdate(fr.get(&ci.ops[0]), fr.get(&ci.ops[1]), fr.get(&ci.ops[2]))
			case *ssa.Go, *ssa.Send, *ssa.Select:
				unsupported("%T", in)
			default:
				fr.regs[ci.dst] = m.eval(fr, ci)
			}
		}
		if next < 0 {
			unsupported("fell off block in %s", f.fn)
		}
		prev, bi = bi, next
	}
}

func (m *Mach) panicMsg(v Iface) string {
	if v.t == nil {
		return "nil"
	}
	if p, ok := v.v.(*Value); ok && p != nil {
		if s, ok := (*p).(*Struct); ok && len(s.f) > 0 {
			if sv, ok := s.f[0].(*StrVal); ok {
				return sv.s
			}
		}
	}
	if s, ok := v.v.(*StrVal); ok {
		return s.s
	}
	return v.t.String()
}

func (m *Mach) prepCall(fr *frame, ci *cins, call *ssa.CallCommon) (Value, []Value) {
	if call.IsInvoke() {
		recv := m.resolve(fr.get(&ci.ops[0]))
		if recv.t == nil {
			m.rtPanic("invalid memory address or nil pointer dereference (nil interface method call)")
		}
		fn := m.lookupMethod(recv.t, call.Method)
		args := make([]Value, len(ci.ops))
		args[0] = recv.v
		for i := 1; i < len(ci.ops); i++ {
			args[i] = fr.get(&ci.ops[i])
		}
		return &Closure{fn: fn}, args
	}
	args := make([]Value, len(ci.ops)-1)
	for i := 1; i < len(ci.ops); i++ {
		args[i-1] = fr.get(&ci.ops[i])
	}
	return fr.get(&ci.ops[0]), args
}

func (m *Mach) doCall(fr *frame, ci *cins, call *ssa.CallCommon) Value {
	fv, args := m.prepCall(fr, ci, call)
	return m.callValue(fv, args, call)
}

func (m *Mach) identical(a, b types.Type) bool {
	if a == b {
		return true
	}
	k := [2]types.Type{a, b}
	if r, ok := m.idents[k]; ok {
		return r
	}
	m.P.typesMu.Lock()
	r := types.Identical(a, b)
	m.P.typesMu.Unlock()
	m.idents[k] = r
	return r
}

func (m *Mach) implements(t types.Type, it *types.Interface) bool {
	k := [2]types.Type{t, it}
	if r, ok := m.impls[k]; ok {
		return r
	}
	m.P.typesMu.Lock()
	r := types.Implements(t, it)
	m.P.typesMu.Unlock()
	m.impls[k] = r
	return r
}

func (m *Mach) eval(fr *frame, ci *cins) Value {
	c := m.c
	switch in := ci.in.(type) {
	case *ssa.BinOp:
		return m.binop(in.Op, in.X.Type(), fr.get(&ci.ops[0]), fr.get(&ci.ops[1]), in.Y.Type())
	case *ssa.UnOp:
		x := fr.get(&ci.ops[0])
		switch in.Op {
		case token.MUL:
			if p, ok := x.(*Value); ok && p == nil {
				fr.pos = in.Pos()
			}
			return m.load(x)
		case token.NOT:
			return c.Not(x.(*Term))
		case token.SUB:
			switch x := x.(type) {
			case *Term:
				return c.Neg(x)
			case FloatVal:
				if f, ok := x.concrete(); ok {
					return m.floatVal(-f, in.Type().Underlying().(*types.Basic))
				}
				return FloatVal{c.Bin(OpBXor, x.bits, c.K(x.src, 1<<(x.src-1))), x.src, x.w}
			}
		case token.XOR:
			return c.BNot(x.(*Term))
		}
		unsupported("unop %s", in.Op)
	case *ssa.Alloc:
		p := new(Value)
		*p = m.zero(deref(in.Type()))
		return p
	case *ssa.FieldAddr:
		p, ok := fr.get(&ci.ops[0]).(*Value)
		if !ok {
			unsupported("field of %T", fr.get(&ci.ops[0]))
		}
		if p == nil {
			fr.pos = in.Pos()
			m.rtPanic("invalid memory address or nil pointer dereference")
		}
		return &(*p).(*Struct).f[in.Field]
	case *ssa.Field:
		return fr.get(&ci.ops[0]).(*Struct).f[in.Field]
	case *ssa.IndexAddr:
		return m.indexAddr(fr, in, fr.get(&ci.ops[0]), fr.get(&ci.ops[1]).(*Term), in.Index.Type())
	case *ssa.Index:
		x := fr.get(&ci.ops[0])
		i := m.toInt(fr.get(&ci.ops[1]).(*Term), in.Index.Type())
		fr.pos = in.Pos()
		switch x := x.(type) {
		case *Array:
			m.boundsCheck(i, len(x.e))
			if i.isK() {
				return x.e[i.val]
			}
			return m.symLoad(x.e, i)
		case *StrVal:
			return m.strIndex(x, i)
		}
		unsupported("index of %T", x)
	case *ssa.Lookup:
		x := fr.get(&ci.ops[0])
		if s, ok := x.(*StrVal); ok {
			fr.pos = in.Pos()
			return m.strIndex(s, m.toInt(fr.get(&ci.ops[1]).(*Term), in.Index.Type()))
		}
		v, ok := m.mapLookup(x.(*MapVal), fr.get(&ci.ops[1]))
		if !ok {
			v = m.zero(in.X.Type().Underlying().(*types.Map).Elem())
		}
		if in.CommaOk {
			return Tuple{v, c.Bool(ok)}
		}
		return v
	case *ssa.MakeInterface:
		return Iface{t: in.X.Type(), v: fr.get(&ci.ops[0])}
	case *ssa.ChangeInterface:
		return fr.get(&ci.ops[0])
	case *ssa.ChangeType:
		return fr.get(&ci.ops[0])
	case *ssa.Convert:
		fr.pos = in.Pos()
		return m.convert(in.X.Type(), in.Type(), fr.get(&ci.ops[0]))
	case *ssa.MultiConvert:
		unsupported("multiconvert")
	case *ssa.SliceToArrayPointer:
		unsupported("slice to array pointer")
	case *ssa.Extract:
		return fr.get(&ci.ops[0]).(Tuple)[in.Index]
	case *ssa.MakeClosure:
		cl := &Closure{fn: in.Fn.(*ssa.Function), env: make([]Value, len(ci.ops)-1)}
		for i := 1; i < len(ci.ops); i++ {
			cl.env[i-1] = fr.get(&ci.ops[i])
		}
		return cl
	case *ssa.MakeMap:
		return &MapVal{index: map[string]int{}}
	case *ssa.MakeSlice:
		n := m.concretizeInt(fr.get(&ci.ops[0]).(*Term))
		cp := m.concretizeInt(fr.get(&ci.ops[1]).(*Term))
		fr.pos = in.Pos()
		if n < 0 || n > cp || cp > 1<<24 {
			m.rtPanic("makeslice: len out of range")
		}
		et := in.Type().Underlying().(*types.Slice).Elem()
		e := make([]Value, cp)
		if cp > 0 {
			z := m.zero(et)
			switch z.(type) {
			case *Struct, *Array:
				e[0] = z
				for i := 1; i < len(e); i++ {
					e[i] = copyVal(z)
				}
			default:
				for i := range e {
					e[i] = z
				}
			}
		}
		return SliceVal{e[:n]}
	case *ssa.Slice:
		fr.pos = in.Pos()
		return m.slice(in, fr.get(&ci.ops[0]), fr.getOpt(ci, 1), fr.getOpt(ci, 2), fr.getOpt(ci, 3))
	case *ssa.TypeAssert:
		fr.pos = in.Pos()
		return m.typeAssert(in, fr.get(&ci.ops[0]))
	case *ssa.Range:
		switch x := fr.get(&ci.ops[0]).(type) {
		case *StrVal:
			if x.opaque {
				unsupported("range over opaque string")
			}
			return &rangeIter{s: x}
		case *MapVal:
			return &rangeIter{m: x}
		}
		unsupported("range")
	case *ssa.Next:
		it := fr.get(&ci.ops[0]).(*rangeIter)
		if in.IsString {
			if it.pos >= it.s.length() {
				return Tuple{c.False, c.K(64, 0), c.K(32, 0)}
			}
			pos := it.pos
			r, wd := m.decodeRune(m.substr(it.s, pos, it.s.length()))
			w := int(m.concretize(wd))
			nit := pos + w
			it.pos = nit
			return Tuple{c.True, c.K(64, uint64(pos)), r}
		}
		mv := it.m
		for mv != nil && it.pos < len(mv.keys) {
			i := it.pos
			it.pos++
			if mv.live[i] {
				return Tuple{c.True, mv.keys[i], copyVal(mv.vals[i])}
			}
		}
		tt := in.Type().(*types.Tuple)
		zk, zv := Value(nil), Value(nil)
		if b, ok := tt.At(1).Type().(*types.Basic); !ok || b.Kind() != types.Invalid {
			zk = m.zero(tt.At(1).Type())
		}
		if b, ok := tt.At(2).Type().(*types.Basic); !ok || b.Kind() != types.Invalid {
			zv = m.zero(tt.At(2).Type())
		}
		return Tuple{c.False, zk, zv}
	}
	unsupported("instruction %T", ci.in)
	return nil
}

func (fr *frame) getOpt(ci *cins, i int) *Term {
	if i >= len(ci.ops) || ci.ops[i].k == 2 {
		return nil
	}
	return fr.get(&ci.ops[i]).(*Term)
}

// toInt widens an index to 64 bits.
func (m *Mach) toInt(t *Term, ty types.Type) *Term {
	if t.w == 64 {
		return t
	}
	_, signed, _ := basicWidth(ty.Underlying().(*types.Basic))
	if signed {
		return m.c.Sext(t, 64)
	}
	return m.c.Zext(t, 64)
}

func (m *Mach) boundsCheck(i *Term, n int) {
	if i.isK() {
		if i.val >= uint64(n) {
			m.rtPanic(fmt.Sprintf("index out of range [%d] with length %d", int64(i.val), n))
		}
		return
	}
	if n == 0 || !m.branch(m.c.Ult(i, m.c.K(64, uint64(n)))) {
		m.rtPanic(fmt.Sprintf("index out of range [symbolic] with length %d", n))
	}
}

func (m *Mach) indexAddr(fr *frame, in *ssa.IndexAddr, x Value, i *Term, ity types.Type) Value {
	i = m.toInt(i, ity)
	var e []Value
	switch x := x.(type) {
	case SliceVal:
		e = x.e
	case *Value:
		if x == nil {
			fr.pos = in.Pos()
			m.rtPanic("invalid memory address or nil pointer dereference")
		}
		e = (*x).(*Array).e
	default:
		unsupported("indexaddr of %T", x)
	}
	if !i.isK() || i.val >= uint64(len(e)) {
		fr.pos = in.Pos()
		m.boundsCheck(i, len(e))
	}
	if i.isK() {
		return &e[i.val]
	}
	if _, ok := e[0].(*Term); ok {
		return &SymPtr{e, i}
	}
	if readOnce(in) {
		return &e[m.classOf(e, i)]
	}
	return &e[m.concretize(i)]
}

var readOnceMemo sync.Map // *ssa.IndexAddr: bool

// readOnce: is the address only used to read, at once?
func readOnce(in *ssa.IndexAddr) bool {
	if v, ok := readOnceMemo.Load(in); ok {
		return v.(bool)
	}
	left := map[ssa.Instruction]bool{}
	var reads func(v ssa.Value) bool
	reads = func(v ssa.Value) bool {
		for _, r := range *v.Referrers() {
			switch r := r.(type) {
			case *ssa.DebugRef:
				continue
			case *ssa.UnOp:
			case *ssa.FieldAddr:
				if !reads(r) {
					return false
				}
			default:
				return false
			}
			left[r] = true
		}
		return true
	}
	ok := reads(in)
	if ok {
		after := false
		for _, x := range in.Block().Instrs {
			if x == ssa.Instruction(in) {
				after = true
				continue
			}
			if !after || len(left) == 0 {
				continue
			}
			delete(left, x)
			switch x.(type) {
			case *ssa.Store, *ssa.Call, *ssa.MapUpdate, *ssa.Send, *ssa.Defer, *ssa.Go, *ssa.RunDefers, *ssa.Select:
				ok = len(left) == 0
			}
			if !ok {
				break
			}
		}
		ok = ok && len(left) == 0
	}
	readOnceMemo.Store(in, ok)
	return ok
}

// classOf takes the path on which idx is one of the places of e with the same value, and returns one of them.
func (m *Mach) classOf(e []Value, idx *Term) uint64 {
	type class struct {
		at   []run // v is nil; start and end of each stretch
		end  []int
		size int
	}
	var order []string
	classes := map[string]*class{}
	for i, v := range e {
		k, ok := sameKey(v)
		if !ok {
			return m.concretize(idx)
		}
		c := classes[k]
		if c == nil {
			c = &class{}
			classes[k] = c
			order = append(order, k)
		}
		if n := len(c.end); n > 0 && c.end[n-1] == i {
			c.end[n-1]++
		} else {
			c.at = append(c.at, run{start: i})
			c.end = append(c.end, i+1)
		}
		c.size++
	}
	if len(order)*4 > len(e) && len(order) > 8 {
		return m.concretize(idx)
	}
	sort.SliceStable(order, func(i, j int) bool { return classes[order[i]].size > classes[order[j]].size })
	for i, k := range order {
		c := classes[k]
		first := uint64(c.at[0].start)
		if i == len(order)-1 {
			return first
		}
		in := m.c.Bool(false)
		for j, a := range c.at {
			t := m.c.Ult(idx, m.c.K(idx.w, uint64(c.end[j])))
			if a.start > 0 {
				t = m.c.And(t, m.c.Not(m.c.Ult(idx, m.c.K(idx.w, uint64(a.start)))))
			}
			in = m.c.Or(in, t)
		}
		if m.branch(in) {
			return first
		}
	}
	panic("unreachable")
}

// sameKey is the same for values that are the same.
func sameKey(v Value) (string, bool) {
	switch v := v.(type) {
	case *Term:
		if !v.isK() {
			return "", false
		}
		return fmt.Sprint("t", v.val), true
	case *StrVal:
		if v.b != nil || v.opaque {
			return "", false
		}
		return fmt.Sprintf("s%q", v.s), true
	case SliceVal:
		if v.e == nil {
			return "nil", true
		}
		if cap(v.e) == 0 {
			return "empty", true
		}
		return fmt.Sprintf("l%p,%d,%d", &v.e[:1][0], len(v.e), cap(v.e)), true
	case *Value:
		return fmt.Sprintf("p%p", v), true
	case *Closure:
		return fmt.Sprintf("f%p", v), true
	case Iface:
		if v.t == nil {
			return "i", true
		}
		k, ok := sameKey(v.v)
		return "i" + v.t.String() + ":" + k, ok
	case *Struct:
		return sameKeys(v.f)
	case *Array:
		return sameKeys(v.e)
	}
	return "", false
}

func sameKeys(vs []Value) (string, bool) {
	r := "("
	for _, v := range vs {
		k, ok := sameKey(v)
		if !ok {
			return "", false
		}
		r += k + ";"
	}
	return r + ")", true
}

func (m *Mach) strByte(s *StrVal, i int) *Term {
	if s.b != nil {
		return s.b[i]
	}
	return m.c.K(8, uint64(s.s[i]))
}

func (m *Mach) strIndex(s *StrVal, i *Term) Value {
	if s.opaque {
		unsupported("index of opaque string")
	}
	m.boundsCheck(i, s.length())
	if i.isK() {
		return m.strByte(s, int(i.val))
	}
	e := make([]Value, s.length())
	for j := range e {
		e[j] = m.strByte(s, j)
	}
	return m.symLoad(e, i)
}

func (m *Mach) substr(s *StrVal, lo, hi int) *StrVal {
	if s.opaque {
		unsupported("slice of opaque string")
	}
	if lo == 0 && hi == s.length() {
		return s
	}
	if s.b != nil {
		if len(s.b) < 32 {
			return m.mkStr(s.b[lo:hi])
		}
		if s.seg == nil {
			s.seg, s.off = segsOf(s.b), 0
		}
		g, l, h := s.seg, s.off+lo, s.off+hi
		switch {
		case h <= g.first || l > g.last:
			return m.str(g.conc[l:h])
		case l <= g.first && g.first < h || l <= g.last && g.last < h:
			return &StrVal{b: s.b[lo:hi:hi], seg: g, off: s.off + lo}
		}
		return m.mkStr(s.b[lo:hi])
	}
	return m.str(s.s[lo:hi])
}

// mkStr makes a string of byte terms.
func (m *Mach) mkStr(b []*Term) *StrVal {
	for _, t := range b {
		if t.op != OpConst {
			return &StrVal{b: b[:len(b):len(b)]}
		}
	}
	bs := make([]byte, len(b))
	for i, t := range b {
		bs[i] = byte(t.val)
	}
	return m.str(string(bs))
}

func (m *Mach) strBytes(s *StrVal) []*Term {
	if s.opaque {
		unsupported("contents of opaque string")
	}
	if s.b != nil {
		return s.b
	}
	r := make([]*Term, len(s.s))
	for i := range r {
		r[i] = m.c.K(8, uint64(s.s[i]))
	}
	return r
}

func (m *Mach) sliceToStr(e []Value) *StrVal {
	b := make([]*Term, len(e))
	for i, v := range e {
		b[i] = v.(*Term)
	}
	return m.mkStr(b)
}

func (m *Mach) strToSlice(s *StrVal) SliceVal {
	b := m.strBytes(s)
	e := make([]Value, len(b))
	for i, t := range b {
		e[i] = t
	}
	return SliceVal{e}
}

func (m *Mach) concat(a, b *StrVal) *StrVal {
	if a.opaque || b.opaque {
		return &StrVal{opaque: true}
	}
	if a.length() == 0 {
		return b
	}
	if b.length() == 0 {
		return a
	}
	if a.b == nil && b.b == nil {
		return m.str(a.s + b.s)
	}
	x, y := m.strBytes(a), m.strBytes(b)
	r := make([]*Term, 0, len(x)+len(y))
	r = append(r, x...)
	r = append(r, y...)
	return &StrVal{b: r}
}

func (m *Mach) slice(in *ssa.Slice, x Value, lo, hi, mx *Term) Value {
	get := func(t *Term, d int) int {
		if t == nil {
			return d
		}
		return m.concretizeInt(t)
	}
	switch x := x.(type) {
	case *StrVal:
		n := x.length()
		l := get(lo, 0)
		h := get(hi, n)
		if h < 0 || h > n {
			m.rtPanic(fmt.Sprintf("slice bounds out of range [:%d] with length %d", h, n))
		}
		if l < 0 || l > h {
			m.rtPanic(fmt.Sprintf("slice bounds out of range [%d:%d]", l, h))
		}
		return m.substr(x, l, h)
	case SliceVal:
		cp := cap(x.e)
		l := get(lo, 0)
		h := get(hi, len(x.e))
		k := get(mx, cp)
		if k < 0 || k > cp || h < 0 || h > k || l < 0 || l > h {
			m.rtPanic(fmt.Sprintf("slice bounds out of range [%d:%d:%d] with capacity %d", l, h, k, cp))
		}
		if x.e == nil {
			return SliceVal{}
		}
		return SliceVal{x.e[l:h:k]}
	case *Value:
		if x == nil {
			m.rtPanic("invalid memory address or nil pointer dereference")
		}
		e := (*x).(*Array).e
		l := get(lo, 0)
		h := get(hi, len(e))
		k := get(mx, len(e))
		if k < 0 || k > len(e) || h < 0 || h > k || l < 0 || l > h {
			m.rtPanic("slice bounds out of range")
		}
		return SliceVal{e[l:h:k]}
	}
	unsupported("slice of %T", x)
	return nil
}

func (m *Mach) typeAssert(in *ssa.TypeAssert, xv Value) Value {
	x := m.resolve(xv)
	ok := false
	if x.t != nil {
		if it, isI := in.AssertedType.Underlying().(*types.Interface); isI {
			ok = m.implements(x.t, it)
			if in.CommaOk {
				if ok {
					return Tuple{x, m.c.True}
				}
				return Tuple{Iface{}, m.c.False}
			}
			if ok {
				return x
			}
		} else {
			ok = m.identical(x.t, in.AssertedType)
			if in.CommaOk {
				if ok {
					return Tuple{x.v, m.c.True}
				}
				return Tuple{m.zero(in.AssertedType), m.c.False}
			}
			if ok {
				return x.v
			}
		}
	} else if in.CommaOk {
		return Tuple{m.zero(in.AssertedType), m.c.False}
	}
	m.rtPanic(fmt.Sprintf("interface conversion: not %s", in.AssertedType))
	return nil
}

// ---------- maps

func (m *Mach) mapKey(v Value) (string, bool) {
	switch v := v.(type) {
	case *Term:
		if v.isK() {
			return fmt.Sprintf("t%d:%d", v.w, v.val), true
		}
		return "", false
	case *StrVal:
		if v.opaque {
			unsupported("opaque map key")
		}
		if v.b == nil {
			return "s" + v.s, true
		}
		return "", false
	case Iface:
		if v.t == nil {
			return "nil", true
		}
		k, ok := m.mapKey(v.v)
		return "i" + v.t.String() + ":" + k, ok
	case *Value:
		return fmt.Sprintf("p%p", v), true
	case *Struct:
		var sb strings.Builder
		for _, f := range v.f {
			k, ok := m.mapKey(f)
			if !ok {
				return "", false
			}
			fmt.Fprintf(&sb, "%d:%s,", len(k), k)
		}
		return sb.String(), true
	}
	unsupported("map key %T", v)
	return "", false
}

func (m *Mach) mapFind(mv *MapVal, k Value) int {
	if mv == nil {
		return -1
	}
	ks, conc := m.mapKey(k)
	if conc {
		if i, ok := mv.index[ks]; ok && mv.live[i] {
			return i
		}
	}
	for i := range mv.keys {
		if !mv.live[i] {
			continue
		}
		if conc {
			if _, kc := m.mapKey(mv.keys[i]); kc {
				continue
			}
		}
		if m.branch(m.equal(mv.keys[i], k)) {
			return i
		}
	}
	return -1
}

func (m *Mach) mapLookup(mv *MapVal, k Value) (Value, bool) {
	i := m.mapFind(mv, k)
	if i < 0 {
		return nil, false
	}
	return copyVal(mv.vals[i]), true
}

func (m *Mach) mapUpdate(x, k, v Value) {
	mv := x.(*MapVal)
	if mv == nil {
		m.rtPanic("assignment to entry in nil map")
	}
	i := m.mapFind(mv, k)
	if i >= 0 {
		old := mv.vals[i]
		mv.vals[i] = v
		if !m.initing {
			m.undoFn = append(m.undoFn, func() { mv.vals[i] = old })
		}
		return
	}
	i = len(mv.keys)
	mv.keys = append(mv.keys, k)
	mv.vals = append(mv.vals, v)
	mv.live = append(mv.live, true)
	mv.n++
	ks, conc := m.mapKey(k)
	var prev int
	var had bool
	if conc {
		prev, had = mv.index[ks]
		mv.index[ks] = i
	}
	if !m.initing {
		m.undoFn = append(m.undoFn, func() {
			mv.keys, mv.vals, mv.live = mv.keys[:i], mv.vals[:i], mv.live[:i]
			mv.n--
			if conc {
				if had {
					mv.index[ks] = prev
				} else {
					delete(mv.index, ks)
				}
			}
		})
	}
}

func (m *Mach) mapDelete(mv *MapVal, k Value) {
	i := m.mapFind(mv, k)
	if i < 0 {
		return
	}
	mv.live[i] = false
	mv.n--
	if !m.initing {
		m.undoFn = append(m.undoFn, func() { mv.live[i] = true; mv.n++ })
	}
}

// ---------- operators

func (m *Mach) strEq(a, b *StrVal) *Term {
	if a == b {
		return m.c.True
	}
	if a.opaque || b.opaque {
		unsupported("comparison of opaque string")
	}
	if a.length() != b.length() {
		return m.c.False
	}
	if a.b == nil && b.b == nil {
		return m.c.Bool(a.s == b.s)
	}
	r := m.c.True
	for i := a.length() - 1; i >= 0; i-- {
		r = m.c.And(m.c.Eq(m.strByte(a, i), m.strByte(b, i)), r)
		if r.isFalse() {
			return r
		}
	}
	return r
}

func (m *Mach) strLess(a, b *StrVal) *Term {
	if a.opaque || b.opaque {
		unsupported("comparison of opaque string")
	}
	if a.b == nil && b.b == nil {
		return m.c.Bool(a.s < b.s)
	}
	la, lb := a.length(), b.length()
	n := min(la, lb)
	r := m.c.Bool(la < lb)
	for i := n - 1; i >= 0; i-- {
		x, y := m.strByte(a, i), m.strByte(b, i)
		r = m.c.Ite(m.c.Ult(x, y), m.c.True, m.c.Ite(m.c.Ult(y, x), m.c.False, r))
	}
	return r
}

func (m *Mach) equal(x, y Value) *Term {
	c := m.c
	switch a := x.(type) {
	case *Term:
		b, ok := y.(*Term)
		if !ok {
			return c.False
		}
		return c.Eq(a, b)
	case *StrVal:
		return m.strEq(a, y.(*StrVal))
	case *Value:
		switch b := y.(type) {
		case *Value:
			return c.Bool(a == b)
		}
		if a == nil {
			return c.False
		}
		unsupported("pointer comparison")
	case *SymPtr, *DataPtr:
		if p, ok := y.(*Value); ok && p == nil {
			return c.False
		}
		unsupported("pointer comparison")
	case *Struct:
		b := y.(*Struct)
		r := c.True
		for i := range a.f {
			r = c.And(r, m.equal(a.f[i], b.f[i]))
			if r.isFalse() {
				return r
			}
		}
		return r
	case *Array:
		b := y.(*Array)
		r := c.True
		for i := range a.e {
			r = c.And(r, m.equal(a.e[i], b.e[i]))
			if r.isFalse() {
				return r
			}
		}
		return r
	case *SymIface:
		if b, ok := y.(Iface); ok && b.t == nil {
			return a.isNil
		}
		return m.equal(m.resolve(a), y)
	case Iface:
		if b, ok := y.(*SymIface); ok {
			return m.equal(b, a)
		}
		b, ok := y.(Iface)
		if !ok {
			unsupported("iface comparison")
		}
		if a.t == nil || b.t == nil {
			return c.Bool(a.t == nil && b.t == nil)
		}
		if !m.identical(a.t, b.t) {
			return c.False
		}
		switch a.v.(type) {
		case SliceVal, *MapVal, *Closure:
			m.rtPanic("comparing uncomparable type")
		}
		return m.equal(a.v, b.v)
	case *Closure:
		b, _ := y.(*Closure)
		if a == nil || b == nil {
			return c.Bool(a == nil && b == nil)
		}
	case SliceVal:
		b := y.(SliceVal)
		if a.e == nil || b.e == nil {
			return c.Bool(a.e == nil && b.e == nil)
		}
	case *MapVal:
		b := y.(*MapVal)
		return c.Bool(a == b)
	case FloatVal:
		b := y.(FloatVal)
		fa, ok1 := a.concrete()
		fb, ok2 := b.concrete()
		if ok1 && ok2 {
			return c.Bool(fa == fb)
		}
		if a == b {
			// equal unless NaN
			e, mant := uint64(0x7ff), uint64(1)<<52-1
			w := a.src
			sh := uint64(52)
			if w == 32 {
				e, mant, sh = 0xff, 1<<23-1, 23
			}
			exp := c.Bin(OpBAnd, c.Bin(OpLshr, a.bits, c.K(w, sh)), c.K(w, e))
			ma := c.Bin(OpBAnd, a.bits, c.K(w, mant))
			nan := c.And(c.Eq(exp, c.K(w, e)), c.Not(c.Eq(ma, c.K(w, 0))))
			return c.Not(nan)
		}
		x, y := m.pairBits(a, b)
		return c.f(OpFEq, 0, 0, x, y)
	case nil:
		return c.Bool(y == nil)
	}
	unsupported("comparison of %T and %T", x, y)
	return nil
}

func (m *Mach) binop(op token.Token, t types.Type, x, y Value, yt types.Type) Value {
	c := m.c
	switch op {
	case token.EQL:
		return m.equal(x, y)
	case token.NEQ:
		return c.Not(m.equal(x, y))
	}
	switch a := x.(type) {
	case *Term:
		b := y.(*Term)
		ub := t.Underlying().(*types.Basic)
		w, signed, _ := basicWidth(ub)
		switch op {
		case token.LSS:
			if signed {
				return c.Slt(a, b)
			}
			return c.Ult(a, b)
		case token.LEQ:
			if signed {
				return c.Sle(a, b)
			}
			return c.Ule(a, b)
		case token.GTR:
			if signed {
				return c.Slt(b, a)
			}
			return c.Ult(b, a)
		case token.GEQ:
			if signed {
				return c.Sle(b, a)
			}
			return c.Ule(b, a)
		case token.ADD:
			return c.Bin(OpAdd, a, b)
		case token.SUB:
			return c.Bin(OpSub, a, b)
		case token.MUL:
			return c.Bin(OpMul, a, b)
		case token.QUO, token.REM:
			if b.isK() {
				if b.val == 0 {
					m.rtPanic("integer divide by zero")
				}
			} else if m.branch(c.Eq(b, c.K(w, 0))) {
				m.rtPanic("integer divide by zero")
			}
			o := OpUdiv
			if op == token.REM {
				o = OpUrem
			}
			if signed {
				o = OpSdiv
				if op == token.REM {
					o = OpSrem
				}
			}
			return c.Bin(o, a, b)
		case token.AND:
			if w == 0 {
				return c.And(a, b)
			}
			return c.Bin(OpBAnd, a, b)
		case token.OR:
			if w == 0 {
				return c.Or(a, b)
			}
			return c.Bin(OpBOr, a, b)
		case token.XOR:
			return c.Bin(OpBXor, a, b)
		case token.AND_NOT:
			return c.Bin(OpBAnd, a, c.BNot(b))
		case token.SHL, token.SHR:
			_, ys, _ := basicWidth(yt.Underlying().(*types.Basic))
			if ys && !nonneg(b) {
				if m.branch(c.Slt(b, c.K(b.w, 0))) {
					m.rtPanic("negative shift amount")
				}
			}
			o := OpShl
			if op == token.SHR {
				o = OpLshr
				if signed {
					o = OpAshr
				}
			}
			if b.w > w {
				big := c.Not(c.Ult(b, c.K(b.w, uint64(w))))
				nb := c.Trunc(b, w)
				over := c.K(w, 0)
				if o == OpAshr {
					over = c.Bin(OpAshr, a, c.K(w, uint64(w)-1))
				}
				if big.isTrue() {
					return over
				}
				return c.Ite(big, over, c.Bin(o, a, nb))
			}
			return c.Bin(o, a, c.Zext(b, w))
		}
	case *StrVal:
		b := y.(*StrVal)
		switch op {
		case token.ADD:
			return m.concat(a, b)
		case token.LSS:
			return m.strLess(a, b)
		case token.GTR:
			return m.strLess(b, a)
		case token.LEQ:
			return c.Not(m.strLess(b, a))
		case token.GEQ:
			return c.Not(m.strLess(a, b))
		}
	case FloatVal:
		fa, ok1 := a.concrete()
		fb, ok2 := y.(FloatVal).concrete()
		if ok1 && ok2 {
			ub := t.Underlying().(*types.Basic)
			f32 := ub.Kind() == types.Float32
			res := func(f float64) Value {
				if f32 {
					f = float64(float32(f))
				}
				return m.floatVal(f, ub)
			}
			switch op {
			case token.ADD:
				return res(fa + fb)
			case token.SUB:
				return res(fa - fb)
			case token.MUL:
				return res(fa * fb)
			case token.QUO:
				return res(fa / fb)
			case token.LSS:
				return c.Bool(fa < fb)
			case token.LEQ:
				return c.Bool(fa <= fb)
			case token.GTR:
				return c.Bool(fa > fb)
			case token.GEQ:
				return c.Bool(fa >= fb)
			}
		}
		b := y.(FloatVal)
		p, q := m.pairBits(a, b)
		switch op {
		case token.LSS:
			return c.f(OpFLt, 0, 0, p, q)
		case token.LEQ:
			return c.f(OpFLe, 0, 0, p, q)
		case token.GTR:
			return c.f(OpFLt, 0, 0, q, p)
		case token.GEQ:
			return c.f(OpFLe, 0, 0, q, p)
		}
		if o, ok := map[token.Token]Op{token.ADD: OpFAdd, token.SUB: OpFSub, token.MUL: OpFMul, token.QUO: OpFDiv}[op]; ok {
			w := a.w
			return FloatVal{c.f(o, w, 0, m.at(a, w), m.at(b, w)), w, w}
		}
	}
	unsupported("binop %s on %T,%T", op, x, y)
	return nil
}

func (m *Mach) convert(from, to types.Type, x Value) Value {
	c := m.c
	fu, tu := from.Underlying(), to.Underlying()
	if fb, ok := fu.(*types.Basic); ok {
		if tb, ok := tu.(*types.Basic); ok {
			if tb.Kind() == types.UnsafePointer {
				if t, ok := x.(*Term); ok {
					if t.isK() && t.val == 0 {
						return (*Value)(nil)
					}
					unsupported("uintptr to pointer")
				}
				return x
			}
			switch v := x.(type) {
			case *Term:
				fw, fs, _ := basicWidth(fb)
				if tb.Info()&types.IsString != 0 {
					return m.runeToStr(m.toRune(v, fs))
				}
				if tw, _, ok := basicWidth(tb); ok {
					if tw <= fw {
						return c.Trunc(v, tw)
					}
					if fs {
						return c.Sext(v, tw)
					}
					return c.Zext(v, tw)
				}
				if tb.Info()&types.IsFloat != 0 {
					w := uint8(64)
					if tb.Kind() == types.Float32 {
						w = 32
					}
					if fs {
						return FloatVal{c.f(OpStoF, w, 0, v, nil), w, w}
					}
					return FloatVal{c.f(OpUtoF, w, 0, v, nil), w, w}
				}
			case FloatVal:
				if tb.Info()&types.IsFloat != 0 {
					if f, ok := v.concrete(); ok {
						return m.floatVal(f, tb)
					}
					if tb.Kind() == types.Float32 {
						if v.src == 32 {
							return FloatVal{v.bits, 32, 32}
						}
						return FloatVal{m.at(v, 32), 32, 32}
					}
					return FloatVal{v.bits, v.src, 64}
				}
				if tw, ts, ok := basicWidth(tb); ok {
					if f, ok := v.concrete(); ok {
						if ts {
							return c.K(tw, uint64(int64(f)))
						}
						return c.K(tw, uint64(f))
					}
					return m.floatToInt(v, tw, ts)
				}
			case *StrVal:
				if tb.Info()&types.IsString != 0 {
					return v
				}
			case *Value:
				// unsafe.Pointer to uintptr
				if v == nil {
					return c.K(64, 0)
				}
			}
			unsupported("convert %s to %s", from, to)
		}
		if fb.Info()&types.IsString != 0 {
			if ts, ok := tu.(*types.Slice); ok {
				eb := ts.Elem().Underlying().(*types.Basic)
				s := x.(*StrVal)
				if eb.Kind() == types.Uint8 {
					if s.length() == 0 && !s.opaque {
						return SliceVal{make([]Value, 0)}
					}
					return m.strToSlice(s)
				}
				// []rune
				e := []Value{}
				if s.opaque {
					unsupported("opaque to runes")
				}
				for i := 0; i < s.length(); {
					r, wd := m.decodeRune(m.substr(s, i, s.length()))
					i += int(m.concretize(wd))
					e = append(e, r)
				}
				return SliceVal{e}
			}
		}
		if fb.Kind() == types.UnsafePointer {
			return x
		}
	}
	if fs, ok := fu.(*types.Slice); ok {
		if tb, ok := tu.(*types.Basic); ok && tb.Info()&types.IsString != 0 {
			eb := fs.Elem().Underlying().(*types.Basic)
			if eb.Kind() == types.Uint8 {
				return m.sliceToStr(x.(SliceVal).e)
			}
			out := m.str("")
			for _, r := range x.(SliceVal).e {
				out = m.concat(out, m.runeToStr(r.(*Term)))
			}
			return out
		}
	}
	if tb, ok := tu.(*types.Basic); ok && tb.Kind() == types.UnsafePointer {
		return x
	}
	if _, ok := tu.(*types.Pointer); ok {
		if _, ok := fu.(*types.Pointer); ok {
			return x
		}
	}
	unsupported("convert %s to %s", from, to)
	return nil
}

func (m *Mach) toRune(v *Term, signed bool) *Term {
	if v.w == 32 {
		return v
	}
	if v.w < 32 {
		if signed {
			return m.c.Sext(v, 32)
		}
		return m.c.Zext(v, 32)
	}
	// out of range values become U+FFFD
	lim := m.c.Ult(v, m.c.K(v.w, 0x110000))
	return m.c.Ite(lim, m.c.Trunc(v, 32), m.c.K(32, 0xFFFD))
}

// runeToStr encodes a rune (forking on its encoded length).
func (m *Mach) runeToStr(r *Term) *StrVal {
	c := m.c
	if r.isK() {
		return m.str(string(rune(int32(r.val))))
	}
	k := func(v uint64) *Term { return c.K(32, v) }
	b := func(shift uint64, msk, or uint64) *Term {
		t := c.Bin(OpLshr, r, k(shift))
		if msk != 0 {
			t = c.Bin(OpBAnd, t, k(msk))
		}
		return c.Trunc(c.Bin(OpBOr, t, k(or)), 8)
	}
	if m.branch(c.Ult(r, k(0x80))) {
		return m.mkStr([]*Term{c.Trunc(r, 8)})
	}
	if m.branch(c.Ult(r, k(0x800))) {
		return m.mkStr([]*Term{b(6, 0x1F, 0xC0), b(0, 0x3F, 0x80)})
	}
	bad := c.Or(c.Not(c.Ult(r, k(0x110000))), c.And(c.Ule(k(0xD800), r), c.Ule(r, k(0xDFFF))))
	if m.branch(bad) {
		return m.str("\uFFFD")
	}
	if m.branch(c.Ult(r, k(0x10000))) {
		return m.mkStr([]*Term{b(12, 0x0F, 0xE0), b(6, 0x3F, 0x80), b(0, 0x3F, 0x80)})
	}
	return m.mkStr([]*Term{b(18, 7, 0xF0), b(12, 0x3F, 0x80), b(6, 0x3F, 0x80), b(0, 0x3F, 0x80)})
}

// decodeRune calls the real utf8.DecodeRuneInString.
func (m *Mach) decodeRune(s *StrVal) (*Term, *Term) {
	b0 := m.strByte(s, 0)
	if b0.isK() && b0.val < 0x80 {
		return m.c.K(32, b0.val), m.c.K(64, 1)
	}
	if s.length() > 4 {
		s = m.substr(s, 0, 4)
	}
	pk := m.P.prog.ImportedPackage("unicode/utf8")
	r := m.callFn(pk.Func("DecodeRuneInString"), []Value{s}, nil).(Tuple)
	return r[0].(*Term), r[1].(*Term)
}

// ---------- builtins

type growKey struct {
	t            types.Type
	ln, cp, need int
}

func (m *Mach) growCap(et types.Type, ln, cp, add int) int {
	k := growKey{et, ln, cp, add}
	if v, ok := m.growc[k]; ok {
		return v
	}
	sizes := types.SizesFor("gc", "amd64")
	m.P.typesMu.Lock()
	sz := sizes.Sizeof(et)
	ptr := hasPtr(et)
	m.P.typesMu.Unlock()
	var v int
	if sz == 0 {
		v = ln + add
	} else {
		var rt reflect.Type
		if ptr {
			n := int(sz) / 8
			if n == 0 {
				n = 1
			}
			rt = reflect.ArrayOf(n, reflect.TypeOf((*byte)(nil)))
		} else {
			rt = reflect.ArrayOf(int(sz), reflect.TypeOf(byte(0)))
		}
		st := reflect.SliceOf(rt)
		s := reflect.MakeSlice(st, ln, cp)
		a := reflect.MakeSlice(st, add, add)
		v = reflect.AppendSlice(s, a).Cap()
	}
	m.growc[k] = v
	return v
}

func hasPtr(t types.Type) bool {
	switch u := t.Underlying().(type) {
	case *types.Basic:
		return u.Info()&types.IsString != 0 || u.Kind() == types.UnsafePointer
	case *types.Struct:
		for i := 0; i < u.NumFields(); i++ {
			if hasPtr(u.Field(i).Type()) {
				return true
			}
		}
		return false
	case *types.Array:
		return u.Len() > 0 && hasPtr(u.Elem())
	}
	return true
}

func (m *Mach) appendVals(s SliceVal, add []Value, et types.Type) SliceVal {
	n := len(s.e)
	if n+len(add) <= cap(s.e) {
		e := s.e[:n+len(add)]
		if s.e == nil {
			return s
		}
		// overlapping sources: take the values first
		tmp := make([]Value, len(add))
		for i, v := range add {
			tmp[i] = copyVal(v)
		}
		for i, v := range tmp {
			m.store(&e[n+i], v)
		}
		return SliceVal{e}
	}
	nc := m.growCap(et, n, cap(s.e), len(add))
	e := make([]Value, nc)
	for i := range s.e {
		e[i] = copyVal(s.e[i])
	}
	for i, v := range add {
		e[n+i] = copyVal(v)
	}
	for i := n + len(add); i < nc; i++ {
		e[i] = m.zero(et)
	}
	return SliceVal{e[:n+len(add)]}
}

func (m *Mach) builtin(b *ssa.Builtin, args []Value, call *ssa.CallCommon) Value {
	c := m.c
	switch b.Name() {
	case "len":
		switch x := args[0].(type) {
		case *StrVal:
			if x.opaque {
				unsupported("len of opaque string")
			}
			return c.K(64, uint64(x.length()))
		case SliceVal:
			return c.K(64, uint64(len(x.e)))
		case *MapVal:
			if x == nil {
				return c.K(64, 0)
			}
			return c.K(64, uint64(x.n))
		case *Array:
			return c.K(64, uint64(len(x.e)))
		case *Value:
			return c.K(64, uint64(len((*x).(*Array).e)))
		}
	case "cap":
		switch x := args[0].(type) {
		case SliceVal:
			return c.K(64, uint64(cap(x.e)))
		case *Array:
			return c.K(64, uint64(len(x.e)))
		}
	case "append":
		s := args[0].(SliceVal)
		var add []Value
		switch y := args[1].(type) {
		case SliceVal:
			add = y.e
		case *StrVal:
			add = m.strToSlice(y).e
		}
		if len(add) == 0 {
			return s
		}
		et := call.Args[0].Type().Underlying().(*types.Slice).Elem()
		return m.appendVals(s, add, et)
	case "copy":
		d := args[0].(SliceVal)
		var src []Value
		switch y := args[1].(type) {
		case SliceVal:
			src = y.e
		case *StrVal:
			if k := min(y.length(), len(d.e)); k < y.length() && !y.opaque {
				y = m.substr(y, 0, k)
			}
			src = m.strToSlice(y).e
		}
		n := min(len(d.e), len(src))
		tmp := make([]Value, n)
		for i := range tmp {
			tmp[i] = copyVal(src[i])
		}
		for i := range tmp {
			m.store(&d.e[i], tmp[i])
		}
		return c.K(64, uint64(n))
	case "delete":
		m.mapDelete(args[0].(*MapVal), args[1])
		return nil
	case "clear":
		switch x := args[0].(type) {
		case SliceVal:
			et := call.Args[0].Type().Underlying().(*types.Slice).Elem()
			for i := range x.e {
				m.store(&x.e[i], m.zero(et))
			}
			return nil
		}
	case "panic":
		v := m.resolve(args[0])
		panic(&goPanic{v: v, msg: m.panicMsg(v), pos: m.where()})
	case "recover":
		// the frame whose deferred call is running
		fr := m.cur
		if fr != nil && fr.caller != nil {
			p := fr.caller
			if p.panicking != nil {
				v := p.panicking.v
				p.panicking = nil
				p.recovered = true
				return v
			}
		}
		return Iface{}
	case "min", "max":
		r := args[0]
		for _, y := range args[1:] {
			if t, ok := r.(*Term); ok {
				b := y.(*Term)
				_, signed, _ := basicWidth(call.Args[0].Type().Underlying().(*types.Basic))
				var lt *Term
				if signed {
					lt = c.Slt(t, b)
				} else {
					lt = c.Ult(t, b)
				}
				if b2 := b.w; b2 != t.w {
					unsupported("min/max widths")
				}
				if call.Value.Name() == "min" {
					r = c.Ite(lt, t, b)
				} else {
					r = c.Ite(lt, b, t)
				}
				continue
			}
			unsupported("min/max")
		}
		return r
	case "print", "println":
		return nil
	case "ssa:wrapnilchk":
		if p, ok := args[0].(*Value); ok && p == nil {
			m.rtPanic("value method called using nil pointer")
		}
		return args[0]
	case "SliceData":
		return &DataPtr{sl: args[0].(SliceVal).e}
	case "StringData":
		return &DataPtr{str: args[0].(*StrVal)}
	case "String":
		n := m.concretizeInt(args[1].(*Term))
		switch p := args[0].(type) {
		case *DataPtr:
			if p.str != nil {
				return m.substr(p.str, 0, n)
			}
			return m.sliceToStr(p.sl[:n])
		case *Value:
			if n == 0 {
				return m.str("")
			}
		}
	case "Slice":
		n := m.concretizeInt(args[1].(*Term))
		if p, ok := args[0].(*DataPtr); ok {
			if p.str != nil {
				return m.strToSlice(m.substr(p.str, 0, n))
			}
			return SliceVal{p.sl[:n:n]}
		}
	}
	unsupported("builtin %s on %T", b.Name(), firstOr(args))
	return nil
}

func firstOr(a []Value) Value {
	if len(a) > 0 {
		return a[0]
	}
	return nil
}

var _ = time.Now
