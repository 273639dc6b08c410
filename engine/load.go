package main

// Loading of the harness, the code under test and the standard library into SSA.

import (
	"fmt"
	"go/types"
	"os"
	"strings"
	"sync"

	"golang.org/x/tools/go/packages"
	"golang.org/x/tools/go/ssa"
	"golang.org/x/tools/go/ssa/ssautil"
)

type Program struct {
	prog     *ssa.Program
	main     *ssa.Package
	initPk   []*ssa.Package // in dependency order
	mutated  map[*ssa.Global]bool
	purity   map[*ssa.Function]int8
	purityMu sync.Mutex
	typesMu  sync.Mutex
	errStr   types.Type // *errors.errorString
	wrapErr  types.Type // *fmt.wrapError
	modPath  string
}

var skipInit = map[string]bool{}

func init() {
	for _, p := range strings.Fields(`runtime os syscall reflect time sync unicode internal/poll internal/cpu internal/godebug internal/bisect
	 internal/abi internal/runtime/sys internal/runtime/atomic internal/reflectlite internal/oserror io/fs path fmt math/rand
	 internal/testlog internal/syscall/unix internal/syscall/execenv internal/race internal/goarch internal/goos encoding/json encoding/base64
	 internal/fmtsort sort math math/bits slices iter cmp unsafe sync/atomic internal/itoa internal/filepathlite internal/bytealg internal/stringslite
	 os/signal flag log bufio/x encoding encoding/binary unicode/utf16`) {
		skipInit[p] = true
	}
	delete(skipInit, "io/fs")
}

func loadEnv() []string {
	env := []string{}
	for _, e := range os.Environ() {
		if strings.HasPrefix(e, "GOFLAGS=") || strings.HasPrefix(e, "GOPROXY=") || strings.HasPrefix(e, "GOTOOLCHAIN=") || strings.HasPrefix(e, "GOWORK=") || strings.HasPrefix(e, "CGO_ENABLED=") {
			continue
		}
		env = append(env, e)
	}
	return append(env, "GOFLAGS=-mod=mod", "GOPROXY=off", "GOTOOLCHAIN=local", "GOWORK=off", "GOSUMDB=off", "CGO_ENABLED=0")
}

func Load(dir, pattern, modPath string) (*Program, error) {
	cfg := &packages.Config{Mode: packages.LoadAllSyntax, Dir: dir, Env: loadEnv()}
	ps, err := packages.Load(cfg, pattern)
	if err != nil {
		return nil, err
	}
	if len(ps) != 1 {
		return nil, fmt.Errorf("%d packages", len(ps))
	}
	var errs []string
	packages.Visit(ps, nil, func(p *packages.Package) {
		for _, e := range p.Errors {
			errs = append(errs, e.Error())
		}
	})
	if len(errs) > 0 {
		return nil, fmt.Errorf("load: %s", strings.Join(errs, "\n"))
	}
	prog, spk := ssautil.AllPackages(ps, ssa.InstantiateGenerics)
	prog.Build()
	P := &Program{prog: prog, main: spk[0], mutated: map[*ssa.Global]bool{}, purity: map[*ssa.Function]int8{}, modPath: modPath}
	// dependency order
	seen := map[string]bool{}
	var visit func(p *packages.Package)
	visit = func(p *packages.Package) {
		if seen[p.PkgPath] {
			return
		}
		seen[p.PkgPath] = true
		for _, k := range sortedKeys(p.Imports) {
			visit(p.Imports[k])
		}
		if sp := prog.Package(p.Types); sp != nil {
			P.initPk = append(P.initPk, sp)
		}
	}
	visit(ps[0])
	if ep := prog.ImportedPackage("errors"); ep != nil {
		P.errStr = types.NewPointer(ep.Type("errorString").Type())
	}
	if fp := prog.ImportedPackage("fmt"); fp != nil {
		P.wrapErr = types.NewPointer(fp.Type("wrapError").Type())
	}
	P.scanGlobals()
	return P, nil
}

func sortedKeys[V any](m map[string]V) []string {
	var ks []string
	for k := range m {
		ks = append(ks, k)
	}
	sortStrings(ks)
	return ks
}

// scanGlobals finds globals that functions other than initialisers may modify.
func (P *Program) scanGlobals() {
	for fn := range ssautil.AllFunctions(P.prog) {
		if fn.Name() == "init" && fn.Signature.Recv() == nil && fn.Parent() == nil && fn.Synthetic != "" {
			continue
		}
		for _, b := range fn.Blocks {
			for _, in := range b.Instrs {
				for _, op := range in.Operands(nil) {
					g, ok := (*op).(*ssa.Global)
					if !ok {
						continue
					}
					if !readOnlyUse(in, g) {
						P.mutated[g] = true
					}
				}
			}
		}
	}
}

// readOnlyUse: instruction in only reads through address v.
func readOnlyUse(in ssa.Instruction, v ssa.Value) bool {
	switch in := in.(type) {
	case *ssa.UnOp:
		return true
	case *ssa.IndexAddr:
		if in.X != v {
			return false
		}
		return allReadOnly(in)
	case *ssa.FieldAddr:
		return allReadOnly(in)
	case *ssa.DebugRef:
		return true
	}
	return false
}

func allReadOnly(v ssa.Value) bool {
	refs := v.Referrers()
	if refs == nil {
		return false
	}
	for _, r := range *refs {
		if !readOnlyUse(r, v) {
			return false
		}
	}
	return true
}

func scalarOrString(t types.Type) bool {
	b, ok := t.Underlying().(*types.Basic)
	if !ok {
		return false
	}
	if b.Info()&types.IsString != 0 {
		return true
	}
	_, _, ok = basicWidth(b)
	return ok
}

func isErrorType(t types.Type) bool {
	return types.Identical(t, types.Universe.Lookup("error").Type())
}

func sliceOfScalar(t types.Type) bool {
	s, ok := t.Underlying().(*types.Slice)
	if !ok {
		return false
	}
	b, ok := s.Elem().Underlying().(*types.Basic)
	if !ok {
		return false
	}
	_, _, ok = basicWidth(b)
	return ok
}

// pure reports whether calls of fn with symbolic arguments may be explored on their own
// and merged into one value: fn only reads its scalar/string arguments and frozen globals.
func (P *Program) pure(fn *ssa.Function) bool {
	P.purityMu.Lock()
	defer P.purityMu.Unlock()
	return P.pure1(fn, 0)
}

func (P *Program) pure1(fn *ssa.Function, depth int) bool {
	if v, ok := P.purity[fn]; ok {
		return v == 1
	}
	if depth > 20 {
		return false
	}
	P.purity[fn] = 0 // recursion: not pure
	ok := P.pure2(fn, depth)
	if ok {
		P.purity[fn] = 1
	}
	return ok
}

var pureIntrinsics = map[string]bool{
	"fmt.Errorf": true, "errors.New": true, "strings.Index": true, "strings.IndexByte": true, "strings.Contains": true, "strings.IndexRune": true,
	"strings.HasPrefix": true, "strings.HasSuffix": true, "internal/bytealg.IndexByteString": true, "fmt.Sprintf": true,
	"unicode.ToLower": true, "unicode.ToUpper": true,
}

func (P *Program) pure2(fn *ssa.Function, depth int) bool {
	if len(fn.Blocks) == 0 || fn.Recover != nil || len(fn.FreeVars) > 0 {
		return false
	}
	sig := fn.Signature
	if len(fn.Params) == 0 || sig.Results().Len() == 0 {
		return false
	}
	if fn.Pkg != nil && fn.Pkg.Pkg.Path() == P.main.Pkg.Path()+"/sym" {
		return false
	}
	for _, p := range fn.Params {
		if !scalarOrString(p.Type()) && !sliceOfScalar(p.Type()) {
			return false
		}
	}
	for i := 0; i < sig.Results().Len(); i++ {
		t := sig.Results().At(i).Type()
		if !scalarOrString(t) && !isErrorType(t) {
			return false
		}
	}
	nif := 0
	local := func(v ssa.Value) bool { return rootOf(v) == 1 }
	for _, b := range fn.Blocks {
		for _, in := range b.Instrs {
			switch in := in.(type) {
			case *ssa.BinOp, *ssa.Convert, *ssa.ChangeType, *ssa.Phi, *ssa.Jump, *ssa.Return, *ssa.Extract, *ssa.MakeInterface, *ssa.Alloc, *ssa.FieldAddr, *ssa.IndexAddr, *ssa.Index, *ssa.DebugRef, *ssa.ChangeInterface, *ssa.Field, *ssa.Panic:
			case *ssa.If:
				nif++
			case *ssa.Lookup:
				if _, ok := in.X.Type().Underlying().(*types.Basic); !ok {
					return false
				}
			case *ssa.Slice:
			case *ssa.Range:
				if _, ok := in.X.Type().Underlying().(*types.Basic); !ok {
					return false
				}
			case *ssa.Next:
				if !in.IsString {
					return false
				}
			case *ssa.UnOp:
				if in.Op.String() == "<-" {
					return false
				}
				if in.Op.String() == "*" {
					switch rootOf(in.X) {
					case 1, 3:
					case 2:
						g := rootGlobal(in.X)
						if g == nil || P.mutated[g] {
							return false
						}
						switch in.Type().Underlying().(type) {
						case *types.Basic, *types.Struct, *types.Array:
						default:
							return false
						}
					default:
						return false
					}
				}
			case *ssa.Store:
				if !local(in.Addr) {
					return false
				}
			case *ssa.Call:
				c := in.Call
				if c.IsInvoke() {
					return false
				}
				switch f := c.Value.(type) {
				case *ssa.Builtin:
					switch f.Name() {
					case "len", "min", "max":
					default:
						return false
					}
				case *ssa.Function:
					if pureIntrinsics[f.String()] {
						continue
					}
					if !P.pure1(f, depth+1) {
						return false
					}
				default:
					return false
				}
			default:
				return false
			}
		}
	}
	return nif > 0 || true
}

// rootOf classifies an address: 1 local allocation, 2 global, 3 parameter slice, 0 other.
func rootOf(v ssa.Value) int {
	switch v := v.(type) {
	case *ssa.Alloc:
		return 1
	case *ssa.Global:
		return 2
	case *ssa.FieldAddr:
		return rootOf(v.X)
	case *ssa.IndexAddr:
		if _, ok := v.X.Type().Underlying().(*types.Slice); ok {
			return rootSlice(v.X)
		}
		return rootOf(v.X)
	}
	return 0
}

func rootSlice(v ssa.Value) int {
	switch v := v.(type) {
	case *ssa.Parameter:
		return 3
	case *ssa.Slice:
		if _, ok := v.X.Type().Underlying().(*types.Slice); ok {
			return rootSlice(v.X)
		}
		return rootOf(v.X)
	case *ssa.Phi:
		for _, e := range v.Edges {
			if e == ssa.Value(v) {
				continue
			}
			if s, ok := e.(*ssa.Slice); ok && s.X == ssa.Value(v) {
				continue
			}
			if rootSlice(e) != 3 {
				return 0
			}
		}
		return 3
	}
	return 0
}

func rootGlobal(v ssa.Value) *ssa.Global {
	switch v := v.(type) {
	case *ssa.Global:
		return v
	case *ssa.FieldAddr:
		return rootGlobal(v.X)
	case *ssa.IndexAddr:
		return rootGlobal(v.X)
	}
	return nil
}
