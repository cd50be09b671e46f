package main

import (
	"fmt"
	"go/ast"
	"go/token"
	"go/types"
	"math/big"
	"os"
	"path/filepath"
	"sort"
	"strings"

	"golang.org/x/tools/go/packages"
	"golang.org/x/tools/go/ssa"
	"golang.org/x/tools/go/ssa/ssautil"
)

const modPath = "seehuhn.de/go/sfnt"

var globalRefMax = new(big.Int).Neg(new(big.Int).Lsh(big.NewInt(1), 61))

// Program is the loaded code under verification.
type Program struct {
	Fset      *token.FileSet
	Prog      *ssa.Program
	Pkgs      []*packages.Package
	S         *Specs
	keyLeaf   map[string]Leaf
	loopCache map[*ssa.Function]*loopInfo
	paths     map[string]int64
	globals   map[string]int64
	funcs     map[*ssa.Function]int64
	byName    map[string]*ssa.Function
	files     map[string]*ast.File
	typeCache map[string]types.Type
	ginit     map[*ssa.Global]*globalInfo
	nameCache map[*ssa.Function]string
	eaddrs    map[string]int64
}

func loadProgram(dir string, overlay map[string][]byte, S *Specs, patterns ...string) (*Program, error) {
	fset := token.NewFileSet()
	cfg := &packages.Config{Mode: packages.LoadAllSyntax, Dir: dir, Fset: fset, Overlay: overlay, Env: append(os.Environ(), "GOFLAGS=-mod=mod", "GOPROXY=off")}
	if len(patterns) == 0 {
		patterns = []string{"./..."}
	}
	pkgs, err := packages.Load(cfg, patterns...)
	if err != nil {
		return nil, err
	}
	for _, p := range pkgs {
		if len(p.Errors) > 0 {
			return nil, fmt.Errorf("loading %s: %v", p.PkgPath, p.Errors[0])
		}
	}
	prog, _ := ssautil.AllPackages(pkgs, ssa.GlobalDebug|ssa.InstantiateGenerics)
	prog.Build()
	P := &Program{Fset: fset, Prog: prog, Pkgs: pkgs, S: S, keyLeaf: map[string]Leaf{}, loopCache: map[*ssa.Function]*loopInfo{},
		paths: map[string]int64{}, globals: map[string]int64{}, funcs: map[*ssa.Function]int64{}, byName: map[string]*ssa.Function{},
		typeCache: map[string]types.Type{}, ginit: map[*ssa.Global]*globalInfo{}, nameCache: map[*ssa.Function]string{}}
	// stable numbering: collect all repo functions
	for fn := range ssautil.AllFunctions(prog) {
		if pk := pkgOf(fn); pk != nil && isRepo(pk.Path()) && len(fn.Blocks) > 0 {
			n := P.fnName(fn)
			if old := P.byName[n]; old == nil || old.Synthetic != "" {
				if fn.Synthetic == "" || old == nil {
					P.byName[n] = fn
				}
			}
		}
	}
	return P, nil
}

func isRepo(path string) bool {
	return path == modPath || strings.HasPrefix(path, modPath+"/")
}

// inlineable packages outside the repository whose bodies are executed in place.
func inlinePkg(path string) bool {
	switch path {
	case "seehuhn.de/go/geom/matrix", "seehuhn.de/go/geom/rect", "seehuhn.de/go/geom/vec", "seehuhn.de/go/postscript/funit", "slices", "cmp":
		return true
	}
	return isRepo(path)
}

// fnName is the canonical name used in contracts: pkg.Func, pkg.(*T).Method, pkg.T.Method.
func (P *Program) fnName(fn *ssa.Function) string {
	if s, ok := P.nameCache[fn]; ok {
		return s
	}
	s := P.fnName1(fn)
	P.nameCache[fn] = s
	return s
}

func (P *Program) fnName1(fn *ssa.Function) string {
	if fn.Parent() != nil {
		return P.fnName(fn.Parent()) + strings.TrimPrefix(fn.Name(), fn.Parent().Name())
	}
	pk := pkgOf(fn)
	path := ""
	if pk != nil {
		path = shortPkg(pk.Path())
	}
	if recv := fn.Signature.Recv(); recv != nil {
		t := recv.Type()
		star := ""
		if p, ok := t.(*types.Pointer); ok {
			t = p.Elem()
			star = "*"
		}
		n := types.TypeString(t, func(*types.Package) string { return "" })
		if nt, ok := types.Unalias(t).(*types.Named); ok {
			n = nt.Obj().Name()
			if nt.Obj().Pkg() != nil {
				path = shortPkg(nt.Obj().Pkg().Path())
			}
		}
		if star != "" {
			return path + ".(*" + n + ")." + fn.Name()
		}
		return path + "." + n + "." + fn.Name()
	}
	n := fn.Name()
	if fn.Origin() != nil && fn.Origin() != fn {
		n = fn.Origin().Name()
	}
	return path + "." + n
}

func shortPkg(p string) string {
	if p == modPath {
		return "sfnt"
	}
	return strings.TrimPrefix(p, modPath+"/")
}

func (P *Program) contractFor(fn *ssa.Function) *Contract {
	if fn.Origin() != nil {
		fn = fn.Origin()
	}
	return P.S.Contracts[P.fnName(fn)]
}

func (P *Program) pathID(p string) int64 {
	if id, ok := P.paths[p]; ok {
		return id
	}
	id := int64(len(P.paths))
	if id > 250 {
		panic("too many embedded array paths")
	}
	P.paths[p] = id
	return id
}

func (P *Program) globalID(g string) int64 {
	if id, ok := P.globals[g]; ok {
		return id
	}
	id := int64(len(P.globals)) + 1
	P.globals[g] = id
	return id
}

func (P *Program) funcID(f *ssa.Function) int64 {
	if id, ok := P.funcs[f]; ok {
		return id
	}
	id := int64(len(P.funcs)) + 1
	P.funcs[f] = id
	return id
}

func (P *Program) globalName(g *ssa.Global) string {
	return shortPkg(g.Pkg.Pkg.Path()) + "." + g.Name()
}

// srcText gives a position-independent description of an instruction.
func (P *Program) srcText(in ssa.Instruction) string {
	var nm func(v ssa.Value, d int) string
	nm = func(v ssa.Value, d int) string {
		if d > 3 {
			return "_"
		}
		switch x := v.(type) {
		case *ssa.Const:
			if x.Value == nil {
				return "nil"
			}
			return x.Value.String()
		case *ssa.Parameter:
			return x.Name()
		case *ssa.FreeVar:
			return x.Name()
		case *ssa.Global:
			return x.Name()
		case *ssa.Alloc:
			if x.Comment != "" {
				return x.Comment
			}
		case *ssa.Phi:
			if x.Comment != "" {
				return x.Comment
			}
		case *ssa.FieldAddr:
			st := x.X.Type().Underlying().(*types.Pointer).Elem().Underlying().(*types.Struct)
			return nm(x.X, d+1) + "." + st.Field(x.Field).Name()
		case *ssa.Field:
			st := x.X.Type().Underlying().(*types.Struct)
			return nm(x.X, d+1) + "." + st.Field(x.Field).Name()
		case *ssa.UnOp:
			if x.Op == token.MUL {
				return nm(x.X, d)
			}
			return x.Op.String() + nm(x.X, d+1)
		case *ssa.IndexAddr:
			return nm(x.X, d+1) + "[" + nm(x.Index, d+1) + "]"
		case *ssa.Index:
			return nm(x.X, d+1) + "[" + nm(x.Index, d+1) + "]"
		case *ssa.Lookup:
			return nm(x.X, d+1) + "[" + nm(x.Index, d+1) + "]"
		case *ssa.BinOp:
			return nm(x.X, d+1) + x.Op.String() + nm(x.Y, d+1)
		case *ssa.Convert:
			return nm(x.X, d)
		case *ssa.ChangeType:
			return nm(x.X, d)
		case *ssa.Slice:
			s := nm(x.X, d+1) + "["
			if x.Low != nil {
				s += nm(x.Low, d+1)
			}
			s += ":"
			if x.High != nil {
				s += nm(x.High, d+1)
			}
			return s + "]"
		case *ssa.Call:
			return callName(x.Common()) + "()"
		case *ssa.Extract:
			return nm(x.Tuple, d)
		}
		return "_"
	}
	switch x := in.(type) {
	case *ssa.Store:
		return nm(x.Addr, 0) + "="
	case *ssa.MapUpdate:
		return nm(x.Map, 0)
	case *ssa.MakeSlice:
		return "make(" + nm(x.Len, 0) + ")"
	case *ssa.TypeAssert:
		return nm(x.X, 0) + ".(" + typeKey(x.AssertedType) + ")"
	case *ssa.BinOp:
		return nm(x, 0)
	case ssa.Value:
		return nm(x, 0)
	}
	return in.String()
}

func callName(c *ssa.CallCommon) string {
	if c.IsInvoke() {
		return c.Method.Name()
	}
	if f := c.StaticCallee(); f != nil {
		return f.Name()
	}
	return c.Value.Name()
}

func (P *Program) lookupType(s string) types.Type {
	if t, ok := P.typeCache[s]; ok {
		return t
	}
	name := s
	ptr := strings.HasPrefix(name, "*")
	name = strings.TrimPrefix(name, "*")
	var res types.Type
	i := strings.LastIndex(name, ".")
	if i < 0 {
		if o := types.Universe.Lookup(name); o != nil {
			res = o.Type()
		}
	} else {
		for _, p := range P.Prog.AllPackages() {
			if shortPkg(p.Pkg.Path()) == name[:i] {
				if o := p.Pkg.Scope().Lookup(name[i+1:]); o != nil {
					res = o.Type()
				}
			}
		}
	}
	if res != nil && ptr {
		res = types.NewPointer(res)
	}
	P.typeCache[s] = res
	return res
}

// repoFunctions lists the source-level functions of the module (no examples).
func (P *Program) repoFunctions() []*ssa.Function {
	var out []*ssa.Function
	for n, f := range P.byName {
		if strings.HasPrefix(n, "examples/") || strings.Contains(n, "testcases") || f.Synthetic != "" {
			continue
		}
		out = append(out, f)
	}
	sort.Slice(out, func(i, j int) bool { return P.fnName(out[i]) < P.fnName(out[j]) })
	return out
}

// listExternals prints the functions outside the module that the module calls.
func (P *Program) listExternals() {
	cnt := map[string]int{}
	for _, f := range P.repoFunctions() {
		for _, b := range f.Blocks {
			for _, in := range b.Instrs {
				ci, ok := in.(ssa.CallInstruction)
				if !ok {
					continue
				}
				c := ci.Common()
				if c.IsInvoke() {
					cnt["INVOKE "+typeKey(c.Value.Type())+"."+c.Method.Name()]++
					continue
				}
				g := c.StaticCallee()
				if g == nil {
					if _, ok := c.Value.(*ssa.Builtin); !ok {
						cnt["DYNAMIC in "+P.fnName(f)]++
					}
					continue
				}
				if pk := pkgOf(g); pk == nil || !isRepo(pk.Path()) {
					cnt[P.fnName(g)]++
				}
			}
		}
	}
	for _, k := range sortedKeys(cnt) {
		fmt.Println(cnt[k], k)
	}
}

// ---- globals ----------------------------------------------------------------

// globalInfo describes a package-level variable that is never assigned outside
// its initialiser and whose address does not escape.
type globalInfo struct {
	constant bool
	isErr    bool
	errID    int64
	scalar   *big.Int   // constant integer (nil: unknown)
	ints     []*big.Int // constant array/slice contents by index (nil: unknown)
	n        int64
	mapKeys  []*big.Int // entries of a constant map with integer keys
	mapVals  []ssa.Value
	isMap    bool
	fields   map[string]*big.Int
}

func (P *Program) globalInfo(g *ssa.Global) *globalInfo {
	if gi, ok := P.ginit[g]; ok {
		return gi
	}
	gi := &globalInfo{}
	P.ginit[g] = gi
	// constant if only loaded (never stored, never escaping) outside package init
	ok := true
	if g.Pkg == nil {
		return gi
	}
	et := g.Type().(*types.Pointer).Elem()
	var checkUse func(v ssa.Value, refs []ssa.Instruction) bool
	checkUse = func(v ssa.Value, refs []ssa.Instruction) bool {
		for _, in := range refs {
			switch x := in.(type) {
			case *ssa.UnOp:
				if x.Op != token.MUL {
					return false
				}
				// loaded slices/maps must not be written through; checked by checkLoaded
				if !checkLoaded(x) {
					return false
				}
			case *ssa.IndexAddr:
				if !checkUse(x, *x.Referrers()) {
					return false
				}
			case *ssa.FieldAddr:
				if !checkUse(x, *x.Referrers()) {
					return false
				}
			case *ssa.Slice:
				if !checkLoaded(x) {
					return false
				}
			case *ssa.DebugRef:
			case *ssa.Store:
				if x.Addr == v && x.Parent().Name() == "init" && x.Parent().Synthetic != "" {
					continue
				}
				return false
			default:
				return false
			}
		}
		return true
	}
	isErr := types.TypeString(et, nil) == "error"
	for _, m := range allRefs(P, g) {
		if m.Parent() != nil && m.Parent().Name() == "init" && m.Parent().Synthetic != "" {
			continue
		}
		if !checkUse(g, []ssa.Instruction{m}) {
			ok = false
		}
	}
	gi.constant = ok
	if !ok {
		return gi
	}
	if _, isI := et.Underlying().(*types.Interface); isI && isErr {
		gi.isErr = true
	}
	P.initValues(g, gi, et)
	return gi
}

// checkLoaded: a loaded aggregate is only read.
func checkLoaded(v ssa.Value) bool {
	switch v.Type().Underlying().(type) {
	case *types.Slice, *types.Map, *types.Pointer:
	default:
		return true
	}
	for _, in := range *v.Referrers() {
		switch x := in.(type) {
		case *ssa.IndexAddr:
			for _, r := range *x.Referrers() {
				if u, ok := r.(*ssa.UnOp); ok && u.Op == token.MUL {
					continue
				}
				if _, ok := r.(*ssa.DebugRef); ok {
					continue
				}
				if fa, ok := r.(*ssa.FieldAddr); ok {
					good := true
					for _, r2 := range *fa.Referrers() {
						if u, ok := r2.(*ssa.UnOp); !ok || u.Op != token.MUL {
							if _, ok := r2.(*ssa.DebugRef); !ok {
								good = false
							}
						}
					}
					if good {
						continue
					}
				}
				return false
			}
		case *ssa.Lookup, *ssa.Range, *ssa.DebugRef:
		case *ssa.Call:
			if b, ok := x.Call.Value.(*ssa.Builtin); ok {
				if b.Name() == "len" || b.Name() == "cap" {
					continue
				}
				if (b.Name() == "append" || b.Name() == "copy") && len(x.Call.Args) == 2 && x.Call.Args[1] == v && x.Call.Args[0] != v {
					continue
				}
			}
			return false
		case *ssa.Slice:
			if !checkLoaded(x) {
				return false
			}
		default:
			return false
		}
	}
	return true
}

var refCache map[*ssa.Global][]ssa.Instruction

func allRefs(P *Program, g *ssa.Global) []ssa.Instruction {
	if refCache == nil {
		refCache = map[*ssa.Global][]ssa.Instruction{}
		for fn := range ssautil.AllFunctions(P.Prog) {
			pk := pkgOf(fn)
			if pk == nil || !isRepo(pk.Path()) {
				continue
			}
			for _, b := range fn.Blocks {
				for _, in := range b.Instrs {
					for _, op := range in.Operands(nil) {
						if gg, ok := (*op).(*ssa.Global); ok {
							refCache[gg] = append(refCache[gg], in)
						}
					}
				}
			}
		}
	}
	return refCache[g]
}

// initValues extracts constant integer tables from the package initialiser.
func (P *Program) initValues(g *ssa.Global, gi *globalInfo, et types.Type) {
	if mt, ok := et.Underlying().(*types.Map); ok {
		P.initMap(g, gi, mt)
		return
	}
	var elem types.Type
	switch t := et.Underlying().(type) {
	case *types.Array:
		elem = t.Elem()
		gi.n = t.Len()
	case *types.Slice:
		elem = t.Elem()
		gi.n = -1
	default:
		if isInteger(et) {
			P.initScalar(g, gi)
		}
		return
	}
	init := g.Pkg.Func("init")
	if init == nil || !isInteger(elem) && gi.n >= 0 {
		return
	}
	var base ssa.Value = g
	if gi.n < 0 {
		// *g = slice of new array
		for _, b := range init.Blocks {
			for _, in := range b.Instrs {
				if s, ok := in.(*ssa.Store); ok && s.Addr == g {
					sl, ok := s.Val.(*ssa.Slice)
					if !ok || sl.Low != nil || sl.High != nil {
						return
					}
					al, ok := sl.X.(*ssa.Alloc)
					if !ok {
						return
					}
					base = al
					gi.n = al.Type().(*types.Pointer).Elem().Underlying().(*types.Array).Len()
				}
			}
		}
		if gi.n < 0 || !isInteger(elem) {
			return
		}
	}
	vals := make([]*big.Int, gi.n)
	for i := range vals {
		vals[i] = new(big.Int)
	}
	for _, b := range init.Blocks {
		for _, in := range b.Instrs {
			s, ok := in.(*ssa.Store)
			if !ok {
				continue
			}
			if s.Addr == base && base == ssa.Value(g) {
				// whole array stored from a temporary: *g = *tmp
				if u, ok := s.Val.(*ssa.UnOp); ok {
					if al, ok := u.X.(*ssa.Alloc); ok {
						base = al
					}
				}
			}
		}
	}
	for _, b := range init.Blocks {
		for _, in := range b.Instrs {
			s, ok := in.(*ssa.Store)
			if !ok {
				continue
			}
			ia, ok := s.Addr.(*ssa.IndexAddr)
			if !ok || ia.X != base {
				continue
			}
			ic, ok1 := ia.Index.(*ssa.Const)
			vc, ok2 := s.Val.(*ssa.Const)
			if !ok1 || !ok2 {
				return
			}
			i := ic.Int64()
			v, ok := new(big.Int).SetString(vc.Value.ExactString(), 10)
			if !ok || i < 0 || i >= gi.n {
				return
			}
			vals[i] = v
		}
	}
	gi.ints = vals
}

// initScalar finds the value of a constant integer variable which the package
// initialiser sets to a constant, or to the length of a constant table.
func (P *Program) initScalar(g *ssa.Global, gi *globalInfo) {
	init := g.Pkg.Func("init")
	if init == nil {
		return
	}
	var val ssa.Value
	for _, b := range init.Blocks {
		for _, in := range b.Instrs {
			if s, ok := in.(*ssa.Store); ok && s.Addr == g {
				if val != nil {
					return
				}
				val = s.Val
			}
		}
	}
	var eval func(v ssa.Value) *big.Int
	eval = func(v ssa.Value) *big.Int {
		switch x := v.(type) {
		case *ssa.Const:
			if x.Value == nil {
				return nil
			}
			if n, ok := new(big.Int).SetString(x.Value.ExactString(), 10); ok {
				return n
			}
		case *ssa.Convert:
			n := eval(x.X)
			if n == nil || n.Sign() < 0 || n.BitLen() > intBits(x.Type())-1 {
				return nil
			}
			return n
		case *ssa.Call:
			b, ok := x.Call.Value.(*ssa.Builtin)
			if !ok || b.Name() != "len" {
				return nil
			}
			if ld, ok := x.Call.Args[0].(*ssa.UnOp); ok && ld.Op == token.MUL {
				if tg, ok := ld.X.(*ssa.Global); ok && tg != g && tg.Pkg == g.Pkg {
					if _, ok := tg.Type().(*types.Pointer).Elem().Underlying().(*types.Slice); ok {
						if ti := P.globalInfo(tg); ti.constant && ti.n > 0 {
							return big.NewInt(ti.n)
						}
					}
				}
			}
		}
		return nil
	}
	if val != nil {
		gi.scalar = eval(val)
	}
}

// intBits is the size of an integer type in bits.
func intBits(t types.Type) int {
	switch b, _ := t.Underlying().(*types.Basic); b.Kind() {
	case types.Int8, types.Uint8:
		return 8
	case types.Int16, types.Uint16:
		return 16
	case types.Int32, types.Uint32:
		return 32
	case types.Int, types.Uint, types.Int64, types.Uint64, types.Uintptr:
		return 64
	}
	return 0
}

// initMap extracts small constant maps with integer keys from the package
// initialiser; the values are functions or integers.
func (P *Program) initMap(g *ssa.Global, gi *globalInfo, mt *types.Map) {
	if !isInteger(mt.Key()) {
		return
	}
	init := g.Pkg.Func("init")
	if init == nil {
		return
	}
	var mk *ssa.MakeMap
	for _, b := range init.Blocks {
		for _, in := range b.Instrs {
			if s, ok := in.(*ssa.Store); ok && s.Addr == g {
				m, ok := s.Val.(*ssa.MakeMap)
				if !ok || mk != nil {
					return
				}
				mk = m
			}
		}
	}
	if mk == nil {
		return
	}
	var keys []*big.Int
	var vals []ssa.Value
	for _, in := range *mk.Referrers() {
		switch x := in.(type) {
		case *ssa.Store:
			if x.Addr != g {
				return
			}
		case *ssa.DebugRef:
		case *ssa.MapUpdate:
			kc, ok := x.Key.(*ssa.Const)
			if x.Map != mk || !ok || x.Block() != mk.Block() {
				return
			}
			k, ok := new(big.Int).SetString(kc.Value.ExactString(), 10)
			if !ok {
				return
			}
			switch x.Value.(type) {
			case *ssa.Function, *ssa.Const:
			default:
				return
			}
			keys = append(keys, k)
			vals = append(vals, x.Value)
		default:
			return
		}
	}
	if len(keys) <= 64 {
		gi.mapKeys, gi.mapVals, gi.isMap = keys, vals, true
	}
}

// constMapFacts states the contents of a constant map for one lookup.
func (u *Unit) constMapFacts(fr *Frame, st *State, x *ssa.Lookup, key, ok *Term, val Val) {
	ld, isLd := x.X.(*ssa.UnOp)
	if !isLd || ld.Op != token.MUL || len(val.L) != 1 {
		return
	}
	g, isG := ld.X.(*ssa.Global)
	if !isG || g.Pkg == nil || !isRepo(g.Pkg.Pkg.Path()) {
		return
	}
	gi := u.P.globalInfo(g)
	if !gi.constant || !gi.isMap {
		return
	}
	c := u.c
	var any []*Term
	for i, k := range gi.mapKeys {
		eq := c.Eq(key, c.Big(k))
		any = append(any, eq)
		u.Assume(c.Implies(eq, c.And(ok, c.Eq(val.L[0], u.val(fr, st, gi.mapVals[i]).L[0]))))
	}
	u.Assume(c.Implies(ok, c.Or(any...)))
}

// globalConst evaluates a load of a constant package-level variable.
func (u *Unit) globalConst(st *State, g *ssa.Global) (Val, bool) {
	et := g.Type().(*types.Pointer).Elem()
	pkPath := g.Pkg.Pkg.Path()
	isErr := types.TypeString(et, nil) == "error"
	if isErr && (!isRepo(pkPath) || u.P.globalInfo(g).constant) {
		// a distinct non-nil error value
		id := u.P.globalID("err:" + u.P.globalName(g))
		c := u.c
		return Val{T: et, L: []*Term{c.App("errtag", SInt, c.Int(id)), c.Int(-1000 - id)}}, u.errFacts(id)
	}
	if !isRepo(pkPath) {
		// library variables (binary.BigEndian, io.Discard, ...)
		v := Val{T: et}
		for _, l := range leaves(et) {
			x := u.c.Named("lib$"+u.P.globalName(g)+l.Path, l.Sort)
			u.leafFacts(st, l, x)
			v.L = append(v.L, x)
		}
		v.Blt = u.P.globalName(g)
		return v, true
	}
	gi := u.P.globalInfo(g)
	if !gi.constant {
		return Val{}, false
	}
	switch et.Underlying().(type) {
	case *types.Slice:
		c := u.c
		ref := u.globalRef(u.P.globalName(g))
		if gi.ints == nil {
			v := Val{T: et}
			for _, l := range leaves(et) {
				x := c.Named("gl$"+u.P.globalName(g)+l.Path, l.Sort)
				u.leafFacts(st, l, x)
				v.L = append(v.L, x)
			}
			v.L[0] = ref
			v.L[1] = c.Int(0)
			if gi.n > 0 {
				v.L[2], v.L[3] = c.Int(gi.n), c.Int(gi.n)
			}
			u.sliceFacts(st, v)
			return v, true
		}
		u.globalInit(st, g)
		return Val{T: et, L: []*Term{ref, c.Int(0), c.Int(gi.n), c.Int(gi.n)}}, true
	case *types.Array:
		return Val{}, false
	case *types.Struct:
		return Val{}, false
	}
	if gi.scalar != nil {
		return Val{T: et, L: []*Term{u.c.Big(gi.scalar)}}, true
	}
	// other constant globals: a fixed unknown value
	v := Val{T: et}
	for _, l := range leaves(et) {
		x := u.c.Named("gl$"+u.P.globalName(g)+l.Path, l.Sort)
		u.leafFacts(st, l, x)
		v.L = append(v.L, x)
	}
	return v, true
}

func (u *Unit) errFacts(id int64) bool {
	t := u.c.App("errtag", SInt, u.c.Int(id))
	if u.once(t.id) {
		u.Assume(u.c.Gt(t, u.c.Int(0)))
	}
	return true
}

// globalInit asserts the contents of a constant integer table in the current heap.
func (u *Unit) globalInit(st *State, g *ssa.Global) {
	if !isRepo(g.Pkg.Pkg.Path()) {
		return
	}
	gi := u.P.globalInfo(g)
	if !gi.constant || gi.ints == nil {
		return
	}
	et := g.Type().(*types.Pointer).Elem()
	var elem types.Type
	switch t := et.Underlying().(type) {
	case *types.Array:
		elem = t.Elem()
	case *types.Slice:
		elem = t.Elem()
	}
	c := u.c
	l := leaves(elem)[0]
	key := u.keyOf('E', typeKey(elem), l)
	h := u.heapGet(st, key, arrSort(SInt, arrSort(SInt, l.Sort)))
	a := c.Select(h, u.globalRef(u.P.globalName(g)))
	if !u.once(-1000000 - a.id) {
		return
	}
	if len(gi.ints) > 600 {
		return
	}
	for i, v := range gi.ints {
		u.Assume(c.Eq(c.Select(a, c.Int(int64(i))), c.Big(v)))
	}
}

func overlayFiles(dir, repo string) (map[string][]byte, error) {
	ov := map[string][]byte{}
	err := filepath.Walk(dir, func(p string, fi os.FileInfo, err error) error {
		if err != nil || fi.IsDir() || !strings.HasSuffix(p, ".go") {
			return err
		}
		rel, _ := filepath.Rel(dir, p)
		b, err := os.ReadFile(p)
		if err != nil {
			return err
		}
		pkgDir := filepath.Dir(rel)
		if pkgDir == "sfnt" {
			pkgDir = "."
		}
		ov[filepath.Join(repo, pkgDir, "zz_verif_"+filepath.Base(rel))] = b
		return nil
	})
	if os.IsNotExist(err) {
		err = nil
	}
	return ov, err
}

func (P *Program) eaddrID(p string) int64 {
	if id, ok := P.eaddrs[p]; ok {
		return id
	}
	P.eaddrs[p] = int64(len(P.eaddrs))
	return P.eaddrs[p]
}

// fork returns a view of the program with its own numbering tables.
func (P *Program) fork() *Program {
	q := *P
	q.keyLeaf = map[string]Leaf{}
	q.paths = map[string]int64{}
	q.globals = map[string]int64{}
	q.funcs = map[*ssa.Function]int64{}
	q.eaddrs = map[string]int64{}
	return &q
}
