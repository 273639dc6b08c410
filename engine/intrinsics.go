package main

// Models of functions that have no Go body, or whose body is not worth encoding
// (formatting), and of the harness vocabulary.

import (
	"bytes"
	"fmt"
	"go/types"
	"math"
	"strconv"
	"strings"
	"unicode"
)

type intrinsic func(m *Mach, args []Value) Value

func T(v Value) *Term   { return v.(*Term) }
func S(v Value) *StrVal { return v.(*StrVal) }

var intrinsics map[string]intrinsic

func noop(m *Mach, args []Value) Value { return nil }

func (m *Mach) i64(v int) *Term { return m.c.K(64, uint64(int64(v))) }

func (m *Mach) terms(v Value) []*Term {
	switch v := v.(type) {
	case *StrVal:
		return m.strBytes(v)
	case SliceVal:
		r := make([]*Term, len(v.e))
		for i, x := range v.e {
			r[i] = x.(*Term)
		}
		return r
	}
	unsupported("bytes of %T", v)
	return nil
}

// indexOf: position of pat in s as one term, -1 if absent.
func (m *Mach) indexOf(s, pat []*Term, last bool) *Term {
	c := m.c
	r := m.i64(-1)
	n, k := len(s), len(pat)
	step := func(i int) {
		mt := c.True
		for j := 0; j < k; j++ {
			mt = c.And(mt, c.Eq(s[i+j], pat[j]))
			if mt.isFalse() {
				return
			}
		}
		r = c.Ite(mt, m.i64(i), r)
	}
	if last {
		for i := 0; i+k <= n; i++ {
			step(i)
		}
	} else {
		for i := n - k; i >= 0; i-- {
			step(i)
		}
	}
	return r
}

func (m *Mach) count(s []*Term, b *Term) *Term {
	c := m.c
	r := m.i64(0)
	for _, x := range s {
		r = c.Bin(OpAdd, r, c.Ite(c.Eq(x, b), m.i64(1), m.i64(0)))
	}
	return r
}

// runeMap applies a native function of runes to a symbolic rune.
var runeRuns = map[string][]struct {
	start uint32
	d     int64
}{}

func (m *Mach) runeFn(name string, f func(r rune) int64, r *Term, isBool bool) Value {
	c := m.c
	if r.isK() {
		v := f(rune(int32(r.val)))
		if isBool {
			return c.Bool(v != 0)
		}
		return c.K(32, uint64(int64(int32(r.val))+v))
	}
	m.P.purityMu.Lock()
	rs := runeRuns[name]
	if rs == nil {
		for x := rune(0); x <= 0x110000; x++ {
			v := int64(0)
			if x < 0x110000 {
				v = f(x)
			}
			if x == 0 || rs[len(rs)-1].d != v {
				rs = append(rs, struct {
					start uint32
					d     int64
				}{uint32(x), v})
			}
		}
		runeRuns[name] = rs
	}
	m.P.purityMu.Unlock()
	var tree func(lo, hi int) *Term
	tree = func(lo, hi int) *Term {
		if hi-lo == 1 {
			if isBool {
				return c.Bool(rs[lo].d != 0)
			}
			return c.K(32, uint64(rs[lo].d))
		}
		mid := (lo + hi) / 2
		return c.Ite(c.Ult(r, c.K(32, uint64(rs[mid].start))), tree(lo, mid), tree(mid, hi))
	}
	t := tree(0, len(rs))
	if isBool {
		return t
	}
	return c.Bin(OpAdd, r, t)
}

func boolFn(f func(rune) bool) func(rune) int64 {
	return func(r rune) int64 {
		if f(r) {
			return 1
		}
		return 0
	}
}

func deltaFn(f func(rune) rune) func(rune) int64 {
	return func(r rune) int64 { return int64(f(r)) - int64(r) }
}

// ---------- formatting

// fmtArg renders an operand of a formatting verb; ok=false: unknown text.
func (m *Mach) fmtArg(flags string, verb byte, a Value) (*StrVal, bool) {
	var x Iface
	switch v := a.(type) {
	case Iface:
		x = v
	case *SymIface:
		return nil, false
	default:
		return nil, false
	}
	if x.t == nil {
		return m.str("%!" + string(verb) + "(<nil>)"), verb != 'v' && verb != 's'
	}
	if verb == 'v' || verb == 's' || verb == 'q' || verb == 'w' {
		for _, meth := range []string{"Error", "String"} {
			m.P.typesMu.Lock()
			ms := m.P.prog.MethodSets.MethodSet(x.t)
			sel := ms.Lookup(nil, meth)
			m.P.typesMu.Unlock()
			if sel == nil {
				continue
			}
			fn := m.lookupMethod(x.t, sel.Obj().(*types.Func))
			if p, ok := x.v.(*Value); ok && p == nil {
				return nil, false
			}
			s := m.callFn(fn, []Value{x.v}, nil).(*StrVal)
			if s.opaque {
				return nil, false
			}
			if verb == 'q' {
				if s.b != nil {
					return nil, false
				}
				return m.str(strconv.Quote(s.s)), true
			}
			return s, flags == ""
		}
	}
	switch v := x.v.(type) {
	case *StrVal:
		if v.opaque {
			return nil, false
		}
		if (verb == 's' || verb == 'v') && flags == "" {
			return v, true
		}
		if v.b == nil {
			return m.str(fmt.Sprintf("%"+flags+string(verb), v.s)), true
		}
	case FloatVal:
		fm := map[byte]string{'v': "g", 'g': "g", 'e': "e", 'f': "f", 'F': "f", 'G': "G", 'E': "E"}[verb]
		if flags != "" || fm == "" {
			return nil, false
		}
		prec := -1
		if verb != 'v' && verb != 'g' && verb != 'G' {
			prec = 6
		}
		if f, ok := v.concrete(); ok {
			return m.str(fmt.Sprintf("%"+string(verb), f)), true
		}
		return formatFloat(m, []Value{v, m.c.K(8, uint64(fm[0])), m.i64(prec), m.i64(int(v.w))}).(*StrVal), true
	case *Term:
		b, ok := x.t.Underlying().(*types.Basic)
		if !ok {
			return nil, false
		}
		w, signed, _ := basicWidth(b)
		if !v.isK() {
			if flags != "" {
				return nil, false
			}
			if w == 0 && (verb == 't' || verb == 'v') {
				return m.str(fmt.Sprint(m.branch(v))), true
			}
			pk := m.P.prog.ImportedPackage("strconv")
			if pk == nil || w == 0 || verb != 'd' && verb != 'v' {
				return nil, false
			}
			name, arg := "FormatUint", m.c.Zext(v, 64)
			if signed {
				name, arg = "FormatInt", m.c.Sext(v, 64)
			}
			return m.callFn(pk.Func(name), []Value{arg, m.i64(10)}, nil).(*StrVal), true
		}
		var g interface{}
		switch {
		case w == 0:
			g = v.val == 1
		case signed && w == 32:
			g = int32(v.val)
		case signed:
			g = sx(v.val, w)
		case w == 8:
			g = byte(v.val)
		default:
			g = v.val
		}
		return m.str(fmt.Sprintf("%"+flags+string(verb), g)), true
	}
	return nil, false
}

func (m *Mach) sprintf(format *StrVal, args []Value) *StrVal {
	if format.b != nil && !format.opaque && len(args) == 0 {
		// text without a percent sign stands for itself
		for _, t := range format.b {
			if m.branch(m.c.Eq(t, m.c.K(8, '%'))) {
				return &StrVal{opaque: true}
			}
		}
		return format
	}
	if format.b != nil || format.opaque {
		return &StrVal{opaque: true}
	}
	f := format.s
	out := m.str("")
	ai := 0
	for i := 0; i < len(f); {
		j := strings.IndexByte(f[i:], '%')
		if j < 0 {
			out = m.concat(out, m.str(f[i:]))
			break
		}
		out = m.concat(out, m.str(f[i:i+j]))
		i += j + 1
		st := i
		for i < len(f) && strings.IndexByte("+-# 0123456789.", f[i]) >= 0 {
			i++
		}
		if i >= len(f) {
			return &StrVal{opaque: true}
		}
		flags := f[st:i]
		verb := f[i]
		i++
		if verb == '%' {
			out = m.concat(out, m.str("%"))
			continue
		}
		if ai >= len(args) {
			return &StrVal{opaque: true}
		}
		s, ok := m.fmtArg(flags, verb, args[ai])
		ai++
		if !ok {
			return &StrVal{opaque: true}
		}
		out = m.concat(out, s)
	}
	if ai != len(args) {
		return &StrVal{opaque: true}
	}
	return out
}

func (m *Mach) writeTo(w Value, s *StrVal) Value {
	if s.opaque {
		unsupported("writing formatted text that is not modelled")
	}
	x := m.resolve(w)
	if x.t == nil {
		m.rtPanic("invalid memory address or nil pointer dereference")
	}
	m.P.typesMu.Lock()
	sel := m.P.prog.MethodSets.MethodSet(x.t).Lookup(nil, "Write")
	m.P.typesMu.Unlock()
	fn := m.lookupMethod(x.t, sel.Obj().(*types.Func))
	return m.callFn(fn, []Value{x.v, m.strToSlice(s)}, nil)
}

func (m *Mach) tryMethod(x Iface, name string) (Value, bool) {
	m.P.typesMu.Lock()
	sel := m.P.prog.MethodSets.MethodSet(x.t).Lookup(nil, name)
	m.P.typesMu.Unlock()
	if sel == nil {
		return nil, false
	}
	return m.callFn(m.lookupMethod(x.t, sel.Obj().(*types.Func)), []Value{x.v}, nil), true
}

func (m *Mach) ptrField(v Value) *Value {
	p := v.(*Value)
	if p == nil {
		m.rtPanic("invalid memory address or nil pointer dereference")
	}
	return p
}

func init() {
	intrinsics = map[string]intrinsic{
		"fmt.Errorf": func(m *Mach, a []Value) Value {
			args := a[1].(SliceVal).e
			f := S(a[0])
			msg := m.sprintf(f, args)
			if f.b == nil && strings.Contains(f.s, "%w") {
				// the first error operand is wrapped
				k := 0
				for i := 0; i+1 < len(f.s); i++ {
					if f.s[i] == '%' && f.s[i+1] == '%' {
						i++
						continue
					}
					if f.s[i] == '%' {
						if f.s[i+1] == 'w' {
							break
						}
						k++
					}
				}
				if k < len(args) {
					p := new(Value)
					*p = &Struct{f: []Value{msg, m.resolve(args[k])}}
					return Iface{t: m.P.wrapErr, v: p}
				}
			}
			return m.errorVal(msg)
		},
		"fmt.Sprintf": func(m *Mach, a []Value) Value { return m.sprintf(S(a[0]), a[1].(SliceVal).e) },
		"fmt.Sprint": func(m *Mach, a []Value) Value {
			args := a[0].(SliceVal).e
			if len(args) == 1 {
				return m.sprintf(m.str("%v"), args)
			}
			return &StrVal{opaque: true}
		},
		"fmt.Fprintf": func(m *Mach, a []Value) Value {
			return m.writeTo(a[0], m.sprintf(S(a[1]), a[2].(SliceVal).e))
		},
		"fmt.Fprint": func(m *Mach, a []Value) Value {
			args := a[1].(SliceVal).e
			if len(args) != 1 {
				unsupported("fmt.Fprint with several operands")
			}
			return m.writeTo(a[0], m.sprintf(m.str("%v"), args))
		},
		"errors.Is": func(m *Mach, a []Value) Value {
			err, target := m.resolve(a[0]), m.resolve(a[1])
			if err.t == nil || target.t == nil {
				return m.c.Bool(err.t == nil && target.t == nil)
			}
			return m.c.Bool(m.errorsIs(err, target, types.Comparable(target.t), 0))
		},

		"internal/bytealg.IndexByteString": func(m *Mach, a []Value) Value { return m.indexOf(m.terms(a[0]), []*Term{T(a[1])}, false) },
		"internal/bytealg.IndexByte":       func(m *Mach, a []Value) Value { return m.indexOf(m.terms(a[0]), []*Term{T(a[1])}, false) },
		"internal/bytealg.LastIndexByteString": func(m *Mach, a []Value) Value {
			return m.indexOf(m.terms(a[0]), []*Term{T(a[1])}, true)
		},
		"internal/bytealg.LastIndexByte": func(m *Mach, a []Value) Value { return m.indexOf(m.terms(a[0]), []*Term{T(a[1])}, true) },
		"internal/bytealg.IndexString":   func(m *Mach, a []Value) Value { return m.indexOf(m.terms(a[0]), m.terms(a[1]), false) },
		"internal/bytealg.Index":         func(m *Mach, a []Value) Value { return m.indexOf(m.terms(a[0]), m.terms(a[1]), false) },
		"internal/bytealg.CountString":   func(m *Mach, a []Value) Value { return m.count(m.terms(a[0]), T(a[1])) },
		"internal/bytealg.Count":         func(m *Mach, a []Value) Value { return m.count(m.terms(a[0]), T(a[1])) },
		"internal/bytealg.Equal": func(m *Mach, a []Value) Value {
			return m.strEq(m.sliceToStr(a[0].(SliceVal).e), m.sliceToStr(a[1].(SliceVal).e))
		},
		"internal/bytealg.Compare": func(m *Mach, a []Value) Value {
			x, y := m.sliceToStr(a[0].(SliceVal).e), m.sliceToStr(a[1].(SliceVal).e)
			return m.c.Ite(m.strEq(x, y), m.i64(0), m.c.Ite(m.strLess(x, y), m.i64(-1), m.i64(1)))
		},
		"internal/bytealg.CompareString": func(m *Mach, a []Value) Value {
			x, y := S(a[0]), S(a[1])
			return m.c.Ite(m.strEq(x, y), m.i64(0), m.c.Ite(m.strLess(x, y), m.i64(-1), m.i64(1)))
		},
		"internal/bytealg.MakeNoZero": func(m *Mach, a []Value) Value {
			n := m.concretizeInt(T(a[0]))
			e := make([]Value, n)
			for i := range e {
				e[i] = m.c.K(8, 0)
			}
			return SliceVal{e}
		},
		"strings.Index":     func(m *Mach, a []Value) Value { return m.indexOf(m.terms(a[0]), m.terms(a[1]), false) },
		"strings.LastIndex": func(m *Mach, a []Value) Value { return m.indexOf(m.terms(a[0]), m.terms(a[1]), true) },
		"bytes.Index":       func(m *Mach, a []Value) Value { return m.indexOf(m.terms(a[0]), m.terms(a[1]), false) },
		"strings.Contains": func(m *Mach, a []Value) Value {
			return m.c.Not(m.c.Slt(m.indexOf(m.terms(a[0]), m.terms(a[1]), false), m.i64(0)))
		},
		"(*strings.Builder).copyCheck": noop,
		"strings.Clone":                func(m *Mach, a []Value) Value { return a[0] },
		"internal/stringslite.Clone":   func(m *Mach, a []Value) Value { return a[0] },
		"internal/abi.NoEscape":        func(m *Mach, a []Value) Value { return a[0] },
		"strings.ToLower":              func(m *Mach, a []Value) Value { return m.caseStr(S(a[0]), false) },
		"strings.ToUpper":              func(m *Mach, a []Value) Value { return m.caseStr(S(a[0]), true) },

		"unicode.ToLower":    func(m *Mach, a []Value) Value { return m.runeFn("lower", deltaFn(unicode.ToLower), T(a[0]), false) },
		"unicode.ToUpper":    func(m *Mach, a []Value) Value { return m.runeFn("upper", deltaFn(unicode.ToUpper), T(a[0]), false) },
		"unicode.SimpleFold": func(m *Mach, a []Value) Value { return m.runeFn("fold", deltaFn(unicode.SimpleFold), T(a[0]), false) },
		"unicode.IsLetter":   func(m *Mach, a []Value) Value { return m.runeFn("isletter", boolFn(unicode.IsLetter), T(a[0]), true) },
		"unicode.IsDigit":    func(m *Mach, a []Value) Value { return m.runeFn("isdigit", boolFn(unicode.IsDigit), T(a[0]), true) },
		"unicode.IsSpace":    func(m *Mach, a []Value) Value { return m.runeFn("isspace", boolFn(unicode.IsSpace), T(a[0]), true) },
		"unicode.IsUpper":    func(m *Mach, a []Value) Value { return m.runeFn("isupper", boolFn(unicode.IsUpper), T(a[0]), true) },
		"unicode.IsLower":    func(m *Mach, a []Value) Value { return m.runeFn("islower", boolFn(unicode.IsLower), T(a[0]), true) },
		"unicode.IsControl":  func(m *Mach, a []Value) Value { return m.runeFn("iscontrol", boolFn(unicode.IsControl), T(a[0]), true) },
		"unicode.IsPrint":    func(m *Mach, a []Value) Value { return m.runeFn("isprint", boolFn(unicode.IsPrint), T(a[0]), true) },

		"math.Float64bits": func(m *Mach, a []Value) Value {
			f := a[0].(FloatVal)
			if f.src == 64 {
				return f.bits
			}
			if v, ok := f.concrete(); ok {
				return m.c.K(64, math.Float64bits(v))
			}
			return m.at(f, 64)
		},
		"math.Float32bits": func(m *Mach, a []Value) Value {
			f := a[0].(FloatVal)
			if f.src == 32 {
				return f.bits
			}
			return m.at(f, 32)
		},
		"math.Float64frombits": func(m *Mach, a []Value) Value { return FloatVal{T(a[0]), 64, 64} },
		"math.Float32frombits": func(m *Mach, a []Value) Value { return FloatVal{T(a[0]), 32, 32} },
		"strconv.FormatFloat":  formatFloat,
		"strconv.ParseFloat":   parseFloat,
		"strconv.AppendFloat": func(m *Mach, a []Value) Value {
			return m.appendVals(a[0].(SliceVal), m.strToSlice(S(formatFloat(m, a[1:]))).e, types.Typ[types.Byte])
		},

		"runtime.Caller": func(m *Mach, a []Value) Value {
			k := m.concretizeInt(T(a[0]))
			fr := m.cur
			for ; k > 0 && fr != nil; k-- {
				fr = fr.caller
			}
			if fr == nil {
				return Tuple{m.c.K(64, 0), m.str(""), m.i64(0), m.c.False}
			}
			p := m.P.prog.Fset.Position(fr.pos)
			return Tuple{m.c.K(64, 4096), m.str(p.Filename), m.i64(p.Line), m.c.True}
		},
		"runtime.KeepAlive":       noop,
		"runtime.SetFinalizer":    noop,
		"(*sync.Mutex).Lock":      noop,
		"(*sync.Mutex).Unlock":    noop,
		"(*sync.RWMutex).Lock":    noop,
		"(*sync.RWMutex).Unlock":  noop,
		"(*sync.RWMutex).RLock":   noop,
		"(*sync.RWMutex).RUnlock": noop,
		"(*sync.Pool).Put":        noop,
		"(*sync.Pool).Get": func(m *Mach, a []Value) Value {
			st := (*m.ptrField(a[0])).(*Struct)
			cl, _ := st.f[len(st.f)-1].(*Closure)
			if cl == nil {
				return Iface{}
			}
			return m.callValue(cl, nil, nil)
		},
	}
	for n, f := range floatModels() {
		intrinsics[n] = f
	}
	for _, w := range []string{"Int32", "Int64", "Uint32", "Uint64", "Uintptr", "Pointer"} {
		intrinsics["sync/atomic.Load"+w] = func(m *Mach, a []Value) Value { return m.load(a[0]) }
		intrinsics["sync/atomic.Store"+w] = func(m *Mach, a []Value) Value { m.storeTo(a[0], a[1]); return nil }
		if w != "Pointer" {
			intrinsics["sync/atomic.Add"+w] = func(m *Mach, a []Value) Value {
				v := m.c.Bin(OpAdd, T(m.load(a[0])), T(a[1]))
				m.storeTo(a[0], v)
				return v
			}
			intrinsics["sync/atomic.CompareAndSwap"+w] = func(m *Mach, a []Value) Value {
				if m.branch(m.equal(m.load(a[0]), a[1])) {
					m.storeTo(a[0], a[2])
					return m.c.True
				}
				return m.c.False
			}
		}
	}
}

// errorsIs is errors.is.
func (m *Mach) errorsIs(err, target Iface, comparable bool, depth int) bool {
	if depth > 20 {
		unsupported("errors.Is chain")
	}
	if comparable && m.branch(m.equal(err, target)) {
		return true
	}
	m.P.typesMu.Lock()
	ms := m.P.prog.MethodSets.MethodSet(err.t)
	is, un := ms.Lookup(nil, "Is"), ms.Lookup(nil, "Unwrap")
	m.P.typesMu.Unlock()
	if is != nil && isIsMethod(is.Obj().Type().(*types.Signature)) {
		if m.branch(T(m.callFn(m.lookupMethod(err.t, is.Obj().(*types.Func)), []Value{err.v, target}, nil))) {
			return true
		}
	}
	if un == nil {
		return false
	}
	switch u := m.callFn(m.lookupMethod(err.t, un.Obj().(*types.Func)), []Value{err.v}, nil).(type) {
	case SliceVal:
		for _, e := range u.e {
			if x := m.resolve(e); x.t != nil && m.errorsIs(x, target, comparable, depth+1) {
				return true
			}
		}
		return false
	default:
		x := m.resolve(u)
		return x.t != nil && m.errorsIs(x, target, comparable, depth+1)
	}
}

func isIsMethod(s *types.Signature) bool {
	errT := types.Universe.Lookup("error").Type()
	return s.Params().Len() == 1 && s.Results().Len() == 1 && types.Identical(s.Params().At(0).Type(), errT) && types.Identical(s.Results().At(0).Type(), types.Typ[types.Bool])
}

// caseStr models strings.ToLower / ToUpper rune by rune.
func (m *Mach) caseStr(s *StrVal, upper bool) Value {
	if s.opaque {
		unsupported("case mapping of opaque string")
	}
	if s.b == nil {
		if upper {
			return m.str(strings.ToUpper(s.s))
		}
		return m.str(strings.ToLower(s.s))
	}
	c := m.c
	lo, hi, d := uint64('A'), uint64('Z'), uint64(32)
	if upper {
		lo, hi, d = 'a', 'z', uint64(0xE0)
	}
	ascii := c.True
	for _, t := range s.b {
		ascii = c.And(ascii, c.Ult(t, c.K(8, 0x80)))
	}
	if m.branch(ascii) {
		out := make([]*Term, len(s.b))
		for i, t := range s.b {
			in := c.And(c.Ule(c.K(8, lo), t), c.Ule(t, c.K(8, hi)))
			out[i] = c.Ite(in, c.Bin(OpAdd, t, c.K(8, d)), t)
		}
		return m.mkStr(out)
	}
	out := m.str("")
	for i := 0; i < s.length(); {
		r, wd := m.decodeRune(m.substr(s, i, s.length()))
		i += int(m.concretize(wd))
		var x Value
		if upper {
			x = m.runeFn("upper", deltaFn(unicode.ToUpper), r, false)
		} else {
			x = m.runeFn("lower", deltaFn(unicode.ToLower), r, false)
		}
		out = m.concat(out, m.runeToStr(x.(*Term)))
	}
	return out
}

// formatFloat: concrete values are formatted; symbolic ones become an uninterpreted token that
// depends on the value, the format, the precision and the bit size.
func formatFloat(m *Mach, a []Value) Value {
	f := a[0].(FloatVal)
	fm, prec, bs := T(a[1]), T(a[2]), T(a[3])
	if v, ok := f.concrete(); ok && fm.isK() && prec.isK() && bs.isK() {
		return m.str(strconv.FormatFloat(v, byte(fm.val), int(int64(prec.val)), int(bs.val)))
	}
	key := fmt.Sprintf("ff|%d|%d|%d|%d|%d", f.bits.id, f.src, fm.id, prec.id, bs.id)
	if s := m.ps.atoms[key]; s != nil {
		return s
	}
	b := make([]*Term, 3)
	for i := range b {
		b[i] = m.hiddenVar(8)
		in := m.c.False
		for _, ch := range []byte("0123456789.+-eINaf") {
			in = m.c.Or(in, m.c.Eq(b[i], m.c.K(8, uint64(ch))))
		}
		m.assume(in)
	}
	s := &StrVal{b: b}
	m.ps.atoms[key] = s
	m.ps.floats[floatKey(s)] = floatText{f, int(bs.val), fm.isK() && prec.isK() && bs.isK() && int64(prec.val) == -1 && strings.ContainsRune("eEfgG", rune(fm.val))}
	return s
}

// floatText is what is known of the text of a symbolic float: the shortest form which identifies
// it among the floats of a size, or some other form.
type floatText struct {
	f        FloatVal
	size     int
	shortest bool
}

func floatKey(s *StrVal) string {
	var k strings.Builder
	for _, t := range s.b {
		fmt.Fprintf(&k, "%d,", t.id)
	}
	return k.String()
}

// parseFloat: the shortest form for a size parses back as the same float of that size (or of a
// smaller one, if that is what it was widened from); other texts of symbolic floats parse as anything.
func parseFloat(m *Mach, a []Value) Value {
	s, size := S(a[0]), m.concretizeInt(T(a[1]))
	if s.b == nil {
		v, err := strconv.ParseFloat(s.s, size)
		if err != nil {
			unsupported("ParseFloat of a malformed text")
		}
		if size == 32 {
			return Tuple{FloatVal{m.c.K(32, uint64(math.Float32bits(float32(v)))), 32, 64}, Iface{}}
		}
		return Tuple{FloatVal{m.c.K(64, math.Float64bits(v)), 64, 64}, Iface{}}
	}
	ft, ok := m.ps.floats[floatKey(s)]
	if !ok {
		v, neg, ok := m.intText(s)
		if !ok {
			unsupported("ParseFloat of a symbolic text")
		}
		w := uint8(size)
		f := m.c.f(OpStoF, w, 0, v, nil)
		if neg {
			f = m.c.Bin(OpBXor, f, m.c.K(w, 1<<(w-1)))
		}
		return Tuple{FloatVal{f, w, 64}, Iface{}}
	}
	if ft.shortest && (ft.size == 64 || ft.f.src == 32) && int(ft.f.src) <= size {
		return Tuple{FloatVal{ft.f.bits, ft.f.src, 64}, Iface{}}
	}
	return Tuple{FloatVal{m.hiddenVar(uint8(size)), uint8(size), 64}, Iface{}}
}

// ---------- the harness vocabulary

var symIntr map[string]intrinsic

func init() {
	symIntr = map[string]intrinsic{
		"Byte":   func(m *Mach, a []Value) Value { return m.newVar(8) },
		"Bool":   func(m *Mach, a []Value) Value { return m.newVar(0) },
		"Uint16": func(m *Mach, a []Value) Value { return m.newVar(16) },
		"Uint32": func(m *Mach, a []Value) Value { return m.newVar(32) },
		"Uint64": func(m *Mach, a []Value) Value { return m.newVar(64) },
		"Choice": func(m *Mach, a []Value) Value {
			n := m.concretizeInt(T(a[0]))
			if n <= 1 {
				t := m.newVar(16)
				m.assume(m.c.Eq(t, m.c.K(16, 0)))
				return m.i64(0)
			}
			t := m.newVar(16)
			m.assume(m.c.Ult(t, m.c.K(16, uint64(n))))
			return m.c.K(64, m.concretize(t))
		},
		"Int": func(m *Mach, a []Value) Value {
			lo, hi := T(a[0]), T(a[1])
			t := m.newVar(64)
			m.assume(m.c.And(m.c.Sle(lo, t), m.c.Sle(t, hi)))
			return t
		},
		"Pin": func(m *Mach, a []Value) Value { return m.c.K(64, m.concretize(T(a[0]))) },
		"If":  func(m *Mach, a []Value) Value { return m.c.Ite(T(a[0]), T(a[1]), T(a[2])) },
		"Assume": func(m *Mach, a []Value) Value {
			m.assume(T(a[0]))
			return nil
		},
		"Assert": func(m *Mach, a []Value) Value {
			m.assertion("", m.c.False, T(a[0]), S(a[1]))
			return nil
		},
		"AssertKnown": func(m *Mach, a []Value) Value {
			m.assertion(S(a[0]).s, T(a[1]), T(a[2]), S(a[3]))
			return nil
		},
		"Observe": func(m *Mach, a []Value) Value {
			x, ok := a[1].(Iface)
			if ok {
				v := x.v
				if sl, ok := v.(SliceVal); ok {
					v = m.sliceToStr(sl.e)
				}
				m.ps.obs = append(m.ps.obs, observation{S(a[0]).s, v})
			}
			return nil
		},
		"Cover": func(m *Mach, a []Value) Value {
			m.ps.covers[S(a[0]).s] = true
			return nil
		},
		"Tier": func(m *Mach, a []Value) Value { return m.i64(m.ex.tier) },
		"Large": func(m *Mach, a []Value) Value {
			m.maxStep, m.maxCall = 400000000, 20000
			return nil
		},
		"Stop": func(m *Mach, a []Value) Value { panic(abort{"exit", ""}) },
	}
}

func (m *Mach) assertion(known string, isKnown, cond *Term, msg *StrVal) {
	ps := m.ps
	if ps.pos < len(ps.prefix) {
		// decided before the fork this path starts from
		if known != "" {
			m.addConsQuiet(cond)
		}
		return
	}
	ps.asserts++
	if cond.isTrue() {
		ps.proved++
		return
	}
	text := msg.s
	check := func(bad *Term, id string) bool {
		if bad.isFalse() {
			return true
		}
		var model map[uint32]uint64
		if bad.isTrue() {
			model = ps.model
		} else {
			m.stopHere()
			r := m.s.check(ps.cons, bad)
			if r.sat == 0 {
				return true
			}
			if r.sat < 0 {
				ps.unknown++
				return false
			}
			model = overlay(ps.model, r.model)
		}
		m.w.candidate(violation{Harness: m.ex.harness, Msg: text, Known: id, Kind: "assert", Inputs: m.w.inputs(model)}, bad)
		return false
	}
	cond = m.c.canon(cond)
	neg := m.c.Not(cond)
	ok := check(m.c.And(neg, m.c.Not(isKnown)), "")
	if known != "" {
		ok = check(m.c.And(neg, isKnown), known) && ok
	}
	if ok {
		ps.proved++
		return
	}
	m.assume(cond)
}

// addConsQuiet re-adds a condition that an earlier path assumed after a failed assertion.
func (m *Mach) addConsQuiet(cond *Term) {
	if cond.isTrue() {
		return
	}
	if cond.isFalse() {
		panic(abort{"assume", ""})
	}
	m.addCons(cond)
}

var _ = bytes.Equal

// partials are models that apply to some arguments only; the real code is executed for the others.
var partials = map[string]func(m *Mach, a []Value) (Value, bool){
	"strconv.AppendUint": smallDecimal,
}

// smallDecimal is strconv.AppendUint for symbolic values of up to 8 decimal digits: the digits are those
// whose value is the number, which is what they are for.
func smallDecimal(m *Mach, a []Value) (Value, bool) {
	v, base := T(a[1]), T(a[2])
	if v.isK() || !base.isK() || base.val != 10 {
		return nil, false
	}
	if m.branch(m.c.Ule(m.c.K(64, 100000000), v)) {
		return nil, false
	}
	n := 1
	for lim := uint64(10); n < 8 && m.branch(m.c.Ule(m.c.K(64, lim), v)); lim *= 10 {
		n++
	}
	key := fmt.Sprintf("dec|%d", v.id)
	s := m.ps.atoms[key]
	if s == nil {
		s = &StrVal{b: make([]*Term, n)}
		sum := m.c.K(32, 0)
		for i := range s.b {
			d := m.hiddenVar(8)
			s.b[i] = d
			m.assume(m.c.And(m.c.Ule(m.c.K(8, '0'), d), m.c.Ule(d, m.c.K(8, '9'))))
			sum = m.c.Bin(OpAdd, m.c.Bin(OpMul, sum, m.c.K(32, 10)), m.c.Bin(OpSub, m.c.Zext(d, 32), m.c.K(32, '0')))
		}
		m.assume(m.c.Eq(sum, m.c.Trunc(v, 32)))
		m.ps.atoms[key] = s
	}
	return m.appendVals(a[0].(SliceVal), m.strToSlice(s).e, types.Typ[types.Byte]), true
}
