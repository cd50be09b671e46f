package main

import (
	"fmt"
	"go/types"
	"math/big"
	"regexp"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// tuple packs call results.
func (u *Unit) tuple(sig *types.Signature, vals []Val) Val {
	res := sig.Results()
	if res.Len() == 1 {
		v := vals[0]
		return v
	}
	out := Val{T: res}
	for _, v := range vals {
		out.L = append(out.L, v.L...)
		out.Bnd = append(out.Bnd, v)
	}
	return out
}

func (u *Unit) freshResults(st *State, sig *types.Signature, hint string) []Val {
	var out []Val
	for i := 0; i < sig.Results().Len(); i++ {
		out = append(out, u.newVal(st, "r_"+hint, sig.Results().At(i).Type()))
	}
	return out
}

// havocAll forgets everything about the heap.
func (u *Unit) havocAll(st *State, why string) {
	u.used["unmodelled callee (heap forgotten, assumed not to panic): "+why] = true
	if !u.noFrame && u.dry == 0 {
		u.Assert(st, "frame", "call of "+why+" has a known effect", u.c.tFalse)
	}
	u.nepoch++
	a := u.c.Fresh("alloc_hv", SInt)
	u.c.lower[a.id] = []*Term{st.alloc}
	u.Assume(u.c.Ge(a, st.alloc))
	u.allocMax(a)
	st.alloc = a
	st.epoch = u.nepoch
	st.heap = map[string]*Term{}
	u.baseAlloc[fmt.Sprintf("epoch%d", st.epoch)] = a
}

func (u *Unit) call(fr *Frame, st *State, call *ssa.CallCommon, instr ssa.Instruction) (Val, bool) {
	sig := call.Signature()
	if b, ok := call.Value.(*ssa.Builtin); ok {
		return u.builtin(fr, st, b.Name(), call, instr)
	}
	var args []Val
	if call.IsInvoke() {
		recv := u.val(fr, st, call.Value)
		for _, a := range call.Args {
			args = append(args, u.val(fr, st, a))
		}
		if recv.Dyn != nil {
			if m := u.P.Prog.LookupMethod(recv.Dyn.T, call.Method.Pkg(), call.Method.Name()); m != nil {
				return u.static(fr, st, m, append([]Val{*recv.Dyn}, args...), nil, sig, instr)
			}
		}
		u.Assert(st, "nil", "call "+u.P.srcText(instr), u.c.Not(u.c.Eq(recv.L[0], u.c.Int(0))))
		// statically resolvable by tag?
		if recv.L[0].isInt() {
			for k, id := range typeIDs {
				if id == recv.L[0].val.Int64() {
					if t := u.P.lookupType(k); t != nil {
						if m := u.P.Prog.LookupMethod(t, call.Method.Pkg(), call.Method.Name()); m != nil {
							return u.static(fr, st, m, append([]Val{u.unbox(st, recv, t)}, args...), nil, sig, instr)
						}
					}
				}
			}
		}
		return u.invoke(fr, st, recv, call, args, instr)
	}
	for _, a := range call.Args {
		args = append(args, u.val(fr, st, a))
	}
	if fn := call.StaticCallee(); fn != nil {
		var bnd []Val
		if mc, ok := call.Value.(*ssa.MakeClosure); ok {
			for _, b := range mc.Bindings {
				bnd = append(bnd, u.val(fr, st, b))
			}
		}
		return u.static(fr, st, fn, args, bnd, sig, instr)
	}
	fv := u.val(fr, st, call.Value)
	if fv.Fn != nil {
		return u.static(fr, st, fv.Fn, args, fv.Bnd, sig, instr)
	}
	// function value of a named function type with a contract
	tk := typeKey(call.Value.Type())
	u.Assert(st, "nil", "call of function value "+call.Value.Name(), u.c.Not(u.c.Eq(fv.L[0], u.c.Int(0))))
	con := u.P.S.Contracts[tk]
	if con == nil {
		con = u.P.S.Contracts[funcTypeKey(sig)]
	}
	if con != nil {
		vals := u.applyContract(fr, st, con, nil, sig, append([]Val{fv}, args...), u.P.srcText(instr), true)
		return u.tuple(sig, vals), true
	}
	u.havocAll(st, "function value of type "+tk)
	return u.tuple(sig, u.freshResults(st, sig, "dyn")), true
}

// funcTypeKey is the name under which values of an unnamed function type can
// be given a contract: functype.func_int__int32 for func(int) rune.
func funcTypeKey(sig *types.Signature) string {
	var ps, rs []string
	for i := 0; i < sig.Params().Len(); i++ {
		ps = append(ps, typeKey(sig.Params().At(i).Type()))
	}
	for i := 0; i < sig.Results().Len(); i++ {
		rs = append(rs, typeKey(sig.Results().At(i).Type()))
	}
	s := strings.Join(ps, "_") + "__" + strings.Join(rs, "_")
	return "functype.func_" + reNoWord.ReplaceAllString(s, "_")
}

var reNoWord = regexp.MustCompile(`[^A-Za-z0-9_]+`)

func (u *Unit) invoke(fr *Frame, st *State, recv Val, call *ssa.CallCommon, args []Val, instr ssa.Instruction) (Val, bool) {
	sig := call.Signature()
	keys := []string{typeKey(call.Value.Type()) + "." + call.Method.Name()}
	if r := call.Method.Type().(*types.Signature).Recv(); r != nil {
		keys = append(keys, typeKey(r.Type())+"."+call.Method.Name())
	}
	for _, k := range keys {
		k = strings.TrimPrefix(k, modPath+".")
		if con := u.P.S.Contracts[k]; con != nil {
			vals := u.applyContract(fr, st, con, nil, sig, append([]Val{recv}, args...), u.P.srcText(instr), true)
			return u.tuple(sig, vals), true
		}
		if m := models[k]; m != nil {
			u.used["library model: "+k] = true
			vals, ok := m(u, fr, st, append([]Val{recv}, args...), sig, instr)
			if ok {
				if vals == nil {
					vals = u.freshResults(st, sig, "m")
				}
				return u.tuple(sig, vals), true
			}
		}
	}
	if call.Method.Name() == "Error" && sig.Params().Len() == 0 || call.Method.Name() == "String" && sig.Params().Len() == 0 {
		return u.tuple(sig, u.freshResults(st, sig, "str")), true
	}
	u.havocAll(st, keys[0])
	return u.tuple(sig, u.freshResults(st, sig, "dyn")), true
}

func (u *Unit) static(fr *Frame, st *State, fn *ssa.Function, args []Val, bnd []Val, sig *types.Signature, instr ssa.Instruction) (Val, bool) {
	name := u.P.fnName(fn)
	if fn.Name() == "zzAssert" {
		u.Assert(st, "assert", u.P.srcLine(instr), args[0].L[0])
		return Val{T: types.NewTuple()}, true
	}
	if fn.Name() == "zzAssume" {
		u.Assume(u.c.Implies(st.reach, args[0].L[0]))
		return Val{T: types.NewTuple()}, true
	}
	if m := models[name]; m != nil {
		vals, ok := m(u, fr, st, args, sig, instr)
		if ok {
			u.used["library model: "+name] = true
			if vals == nil {
				vals = u.freshResults(st, sig, fn.Name())
			}
			return u.tuple(sig, vals), true
		}
	}
	if con := u.P.contractFor(fn); con != nil && !con.Inline && !(u.con != nil && u.con.inlines(name)) {
		vals := u.applyContract(fr, st, con, fn, sig, args, u.P.srcText(instr), false)
		return u.tuple(sig, vals), true
	}
	pk := pkgOf(fn)
	if pk != nil && !inlinePkg(pk.Path()) {
		if pureLib(pk.Path(), fn) {
			u.used["pure library function (no effect on the heap, does not panic): "+name] = true
			return u.tuple(sig, u.freshResults(st, sig, fn.Name())), true
		}
		u.havocAll(st, name)
		return u.tuple(sig, u.freshResults(st, sig, fn.Name())), true
	}
	if len(fn.Blocks) == 0 {
		u.havocAll(st, name)
		return u.tuple(sig, u.freshResults(st, sig, fn.Name())), true
	}
	// executed in place
	u.inlined[name] = true
	res, out, ok := u.runFn(fn, args, bnd, st, fr)
	if !ok {
		st.reach = u.c.tFalse
		return Val{}, false
	}
	*st = *out
	return u.tuple(sig, res), true
}

func (c *Contract) inlines(name string) bool {
	for _, n := range c.InlineCalls {
		if n == name || n == "*" {
			return true
		}
	}
	return false
}

func pureLib(path string, fn *ssa.Function) bool {
	switch path {
	case "strings", "strconv", "unicode", "unicode/utf8", "unicode/utf16", "math", "math/bits", "time", "errors", "regexp",
		"golang.org/x/text/language", "seehuhn.de/go/postscript/type1/names", "golang.org/x/text/internal/language", "golang.org/x/text/internal/language/compact",
		"seehuhn.de/go/postscript/psenc":
		return true
	case "fmt":
		return strings.HasPrefix(fn.Name(), "Sprint") || fn.Name() == "Errorf"
	case "bytes":
		return fn.Signature.Recv() == nil
	}
	return false
}

func (P *Program) srcLine(in ssa.Instruction) string {
	p := P.Fset.Position(in.Pos())
	return fmt.Sprintf("%s:%d", p.Filename[strings.LastIndex(p.Filename, "/")+1:], p.Line)
}

// ---- contracts -----------------------------------------------------------------

func paramNames(con *Contract, fn *ssa.Function, sig *types.Signature, n int, iface bool) []string {
	if len(con.Params) == n {
		return con.Params
	}
	var out []string
	if fn != nil {
		for _, p := range fn.Params {
			out = append(out, p.Name())
		}
		return out
	}
	if iface {
		out = append(out, "self")
	}
	for i := 0; i < sig.Params().Len(); i++ {
		out = append(out, sig.Params().At(i).Name())
	}
	return out
}

func resultNames(con *Contract, sig *types.Signature) []string {
	var out []string
	n := sig.Results().Len()
	for i := 0; i < n; i++ {
		nm := sig.Results().At(i).Name()
		if i < len(con.Results) {
			nm = con.Results[i]
		}
		if nm == "" || nm == "_" {
			if n == 1 {
				nm = "result"
			} else {
				nm = fmt.Sprintf("result%d", i)
			}
			if types.TypeString(sig.Results().At(i).Type(), nil) == "error" {
				nm = "err"
			}
		}
		out = append(out, nm)
	}
	return out
}

func nameEnv(names []string, vals []Val, rest func(string) (Val, bool)) func(string) (Val, bool) {
	return func(s string) (Val, bool) {
		for i, n := range names {
			if n == s && i < len(vals) {
				return vals[i], true
			}
		}
		if rest != nil {
			return rest(s)
		}
		return Val{}, false
	}
}

func (u *Unit) applyContract(fr *Frame, st *State, con *Contract, fn *ssa.Function, sig *types.Signature, args []Val, txt string, iface bool) []Val {
	c := u.c
	if con.Trusted {
		u.trusted["assumed contract: "+con.Key] = true
	} else {
		u.used["contract: "+con.Key] = true
	}
	names := paramNames(con, fn, sig, len(args), iface)
	env := &Env{u: u, st: st, old: st, fn: fn, names: nameEnv(names, args, nil), allocAt: st.alloc}
	if fn == nil {
		env.fn = u.fn
	}
	if fn != nil && fn.Signature.Recv() != nil && len(args) > 0 {
		if _, ok := args[0].T.Underlying().(*types.Pointer); ok && !con.NilRecv {
			u.nilCheck(st, args[0], con.Key+" receiver")
		}
	}
	for _, r := range con.Requires {
		t, err := u.evalClause(env, r)
		if err != nil {
			u.unsupported("requires of %s: %v", con.Key, err)
		}
		u.Assert(st, "requires", "of "+con.Key+": "+r.Text, t)
	}
	if len(con.Impls) > 0 {
		u.refines(st, con, sig, args, env)
	}
	pre := st.clone()
	if con.AnyMod {
		u.havocAll(st, con.Key)
	} else {
		if con.Allocates() {
			a := c.Fresh("alloc_call", SInt)
			c.lower[a.id] = []*Term{st.alloc}
			u.Assume(c.Ge(a, st.alloc))
			u.allocMax(a)
			st.alloc = a
		}
		penv := *env
		penv.st = pre
		for _, m := range con.Modifies {
			if err := u.havocLoc(st, &penv, m); err != nil {
				u.unsupported("modifies of %s: %v", con.Key, err)
			}
		}
	}
	var res []Val
	for i := 0; i < sig.Results().Len(); i++ {
		res = append(res, u.newVal(st, "r_"+shortName(con.Key), sig.Results().At(i).Type()))
	}
	rn := resultNames(con, sig)
	env2 := &Env{u: u, st: st, old: pre, fn: env.fn, names: nameEnv(rn, res, nameEnv(names, args, nil)), allocAt: pre.alloc}
	for _, r := range con.Ensures {
		if r.Assumed {
			u.trusted["assumed postcondition of "+con.Key+": "+r.Text] = true
		}
		t, err := u.evalClause(env2, r)
		if err != nil {
			u.unsupported("ensures of %s: %v", con.Key, err)
		}
		u.Assume(c.Implies(st.reach, t))
	}
	return res
}

// refines checks that the contract of a function type or interface method
// describes every function which can be behind the value: the value is one of
// the listed functions, and the contract of each of them promises at least as
// much and (semantically checked here) demands no more.
func (u *Unit) refines(st *State, con *Contract, sig *types.Signature, args []Val, env *Env) {
	c := u.c
	var any []*Term
	for _, name := range con.Impls {
		f := u.P.byName[name]
		if f == nil {
			u.unsupported("%s: unknown implementor %s", con.Key, name)
		}
		ic := u.P.contractFor(f)
		if ic == nil {
			u.unsupported("%s: implementor %s has no contract", con.Key, name)
		}
		if ic.Trusted {
			u.trusted["assumed contract: "+ic.Key] = true
		}
		var cond *Term
		iargs := args
		skip := 0
		if rt := f.Signature.Recv(); rt != nil {
			cond = c.Eq(args[0].L[0], c.Int(typeID(rt.Type())))
			iargs = append([]Val{u.unbox(st, args[0], rt.Type())}, args[1:]...)
		} else {
			if len(f.FreeVars) > 0 {
				u.unsupported("%s: implementor %s is a closure", con.Key, name)
			}
			cond = c.Eq(args[0].L[0], c.Int(u.P.funcID(f)))
			iargs = args[1:]
			skip = 1
		}
		any = append(any, cond)
		cp, ip := paramNames(con, nil, sig, len(args), true), paramNames(ic, f, f.Signature, len(iargs), false)
		first := 0
		if skip == 0 {
			first = 1
		}
		for i := first; i < len(ip); i++ {
			if ip[i] != cp[i+skip] {
				u.unsupported("%s: parameter %s of implementor %s is called %s", con.Key, cp[i+skip], name, ip[i])
			}
		}
		cr, ir := resultNames(con, sig), resultNames(ic, f.Signature)
		for i := range cr {
			if cr[i] != ir[i] {
				u.unsupported("%s: result %s of implementor %s is called %s", con.Key, cr[i], name, ir[i])
			}
		}
		if missing := notIn(con.Ensures, ic.Ensures); missing != "" {
			u.unsupported("%s: implementor %s does not promise %q", con.Key, name, missing)
		}
		if !con.AnyMod {
			if missing := notIn(ic.Modifies, con.Modifies); missing != "" || ic.AnyMod {
				u.unsupported("%s: implementor %s may modify %s", con.Key, name, missing)
			}
		}
		if con.NoAlloc && !ic.NoAlloc {
			u.unsupported("%s: implementor %s may allocate", con.Key, name)
		}
		if ic.MayRefuse && !con.MayRefuse {
			u.unsupported("%s: implementor %s may refuse", con.Key, name)
		}
		ienv := *env
		ienv.fn = f
		ienv.names = nameEnv(ip, iargs, nil)
		for _, r := range ic.Requires {
			if notIn([]Clause{r}, con.Requires) == "" {
				continue
			}
			t, err := u.evalClause(&ienv, r)
			if err != nil {
				u.unsupported("requires of %s: %v", ic.Key, err)
			}
			u.Assert(st, "requires", "of "+ic.Key+": "+r.Text, c.Implies(cond, t))
		}
	}
	u.Assert(st, "dispatch", con.Key+" is one of the listed functions", c.Or(any...))
}

// notIn returns the first clause of a which does not occur in b.
func notIn(a, b []Clause) string {
	for _, x := range a {
		ok := false
		for _, y := range b {
			if strings.Join(strings.Fields(x.Text), "") == strings.Join(strings.Fields(y.Text), "") {
				ok = true
			}
		}
		if !ok {
			return x.Text
		}
	}
	return ""
}

// Allocates: contracts may allocate unless nothing in the result could be fresh.
func (con *Contract) Allocates() bool { return !con.NoAlloc }

func shortName(k string) string {
	if i := strings.LastIndexAny(k, "./)"); i >= 0 {
		return k[i+1:]
	}
	return k
}

type locTarget struct {
	key string
	ref *Term
	lo  *Term // element window (for elems)
	hi  *Term
}

// locTargets lists the heap cells denoted by a modifies clause.
func (u *Unit) locTargets(env *Env, m Clause) (out []locTarget, err error) {
	defer func() {
		if r := recover(); r != nil {
			if s, ok := r.(specErr); ok {
				err = fmt.Errorf("%s (in %q)", s.msg, m.Text)
				return
			}
			panic(r)
		}
	}()
	c := u.c
	objLeaves := func(v Val, path string, ft types.Type) {
		a := *u.ptrAddr(env.st, v)
		for _, l := range leaves(ft) {
			full := path + l.Path
			if pre, _, ok := splitArr(full); ok && a.Kind == 'O' {
				et := u.arrElemAt(a.RT, a.Path+pre)
				el := findLeaf(et, full[len(pre)+2:])
				out = append(out, locTarget{key: u.keyOf('E', typeKey(et), el), ref: u.emb(a.Ref, a.Path+pre)})
				continue
			}
			b := a
			b.Path = a.Path + path
			key, _, idx, _ := u.locate(&b, l)
			t := locTarget{key: key}
			if len(idx) > 0 {
				t.ref = idx[0]
			}
			if len(idx) > 1 {
				t.lo, t.hi = idx[1], c.Add(idx[1], c.Int(1))
			}
			out = append(out, t)
		}
	}
	x := m.E
	// s[i], s[i].F, elems(s).F, block(s).F
	sl, fld := x, ""
	for sl.Op == "field" && sl.S != "*" {
		fld = "." + sl.S + fld
		sl = sl.Args[0]
	}
	if x.Op == "call" && x.S == "every" { // the location in all objects
		ts, err := u.locTargets(env, Clause{E: x.Args[0], Text: m.Text})
		if err != nil {
			return nil, err
		}
		for _, t := range ts {
			out = append(out, locTarget{key: t.key})
		}
		return out, nil
	}
	if sl.Op == "index" && fld != "" {
		v := env.val(sl.Args[0])
		if t, ok := v.T.Underlying().(*types.Slice); ok {
			if _, ok := t.Elem().Underlying().(*types.Pointer); ok {
				sl = x // an object behind a slice of pointers
			}
		}
	}
	if sl.Op == "index" || fld != "" && sl.Op == "call" && (sl.S == "elems" || sl.S == "block") {
		v := env.val(sl.Args[0])
		t, ok := v.T.Underlying().(*types.Slice)
		if ok {
			n := 0
			for _, l := range leaves(t.Elem()) {
				if l.Path != fld && !strings.HasPrefix(l.Path, fld+".") && fld != "" {
					continue
				}
				n++
				lt := locTarget{key: u.keyOf('E', typeKey(t.Elem()), l), ref: v.L[0]}
				switch {
				case sl.Op == "index":
					lt.lo = c.Add(v.L[1], env.term(sl.Args[1]))
					lt.hi = c.Add(lt.lo, c.Int(1))
				case sl.S == "elems":
					lt.lo, lt.hi = v.L[1], c.Add(v.L[1], v.L[2])
				}
				out = append(out, lt)
			}
			if n == 0 {
				env.fail("no field %s", fld)
			}
			return out, nil
		}
	}
	switch {
	case x.Op == "field" && x.S == "*":
		v := env.val(x.Args[0])
		pt, ok := v.T.Underlying().(*types.Pointer)
		if !ok {
			env.fail("not a pointer")
		}
		objLeaves(v, "", pt.Elem())
	case x.Op == "field":
		// package-level variable?
		if x.Args[0].Op == "id" {
			if _, ok := env.lookup(x.Args[0].S); !ok {
				env.fail("modifies of unknown %s", x.Args[0].S)
			}
		}
		v := env.val(x.Args[0])
		pt, ok := v.T.Underlying().(*types.Pointer)
		if !ok {
			env.fail("not a pointer")
		}
		idx, ft, ok := findField(pt.Elem(), x.S)
		if !ok {
			env.fail("no field %s", x.S)
		}
		path := ""
		cur := pt.Elem()
		for _, i := range idx {
			s := cur.Underlying().(*types.Struct)
			path += "." + fieldName(s, i)
			cur = s.Field(i).Type()
		}
		objLeaves(v, path, ft)
	case x.Op == "ghost":
		s, ok := u.P.S.Ghosts[x.S]
		if !ok {
			env.fail("unknown ghost %s", x.S)
		}
		b := env.eval(x.Args[0])
		out = append(out, locTarget{key: u.ghostKey(x.S, s), ref: env.ghostRef(b)})
	case x.Op == "call" && (x.S == "elems" || x.S == "block"):
		v := env.val(x.Args[0])
		switch t := v.T.Underlying().(type) {
		case *types.Slice:
			for _, l := range leaves(t.Elem()) {
				lt := locTarget{key: u.keyOf('E', typeKey(t.Elem()), l), ref: v.L[0], lo: v.L[1], hi: c.Add(v.L[1], v.L[2])}
				if x.S == "block" {
					lt.lo, lt.hi = nil, nil
				}
				out = append(out, lt)
			}
		case *types.Pointer:
			at := t.Elem().Underlying().(*types.Array)
			for _, l := range leaves(at.Elem()) {
				out = append(out, locTarget{key: u.keyOf('E', typeKey(at.Elem()), l), ref: v.L[0]})
			}
		default:
			env.fail("elems of %s", v.T)
		}
	case x.Op == "call" && x.S == "map":
		v := env.val(x.Args[0])
		mt := v.T.Underlying().(*types.Map)
		k, _ := u.mapKey(mt, "dom", nil)
		out = append(out, locTarget{key: k, ref: v.L[0]})
		k, _ = u.mapKey(mt, "len", nil)
		out = append(out, locTarget{key: k, ref: v.L[0]})
		for _, l := range leaves(mt.Elem()) {
			l := l
			k, _ = u.mapKey(mt, "val", &l)
			out = append(out, locTarget{key: k, ref: v.L[0]})
		}
	default:
		env.fail("unsupported modifies clause")
	}
	return out, nil
}

func (u *Unit) havocLoc(st *State, env *Env, m Clause) error {
	ts, err := u.locTargets(env, m)
	if err != nil {
		return err
	}
	c := u.c
	for _, t := range ts {
		srt := u.heapSort(t.key)
		h := u.heapGet(st, t.key, srt)
		switch {
		case t.ref == nil:
			u.frameCheck(st, t.key, nil)
		case t.lo != nil:
			u.frameCheckIf(st, c.And(c.Not(c.Eq(t.ref, c.Int(0))), c.Lt(t.lo, t.hi)), t.key, t.ref)
		default:
			u.frameCheckIf(st, c.Not(c.Eq(t.ref, c.Int(0))), t.key, t.ref)
		}
		if t.ref == nil {
			f := c.Fresh("hc$"+t.key, srt)
			u.cellFacts(st, t.key, f)
			u.heapSet(st, t.key, f, nil)
			continue
		}
		_, vs := srt.arrParts()
		f := c.Fresh("hc$"+t.key, vs)
		u.cellFacts(st, t.key, f)
		if t.lo != nil {
			i := c.Bound("i", SInt)
			old := c.Select(h, t.ref)
			sel := c.mk("select", "", func() Sort { _, v := vs.arrParts(); return v }(), f, i)
			u.Assume(c.Forall([]*Term{i}, c.Implies(c.Or(c.Lt(i, t.lo), c.Le(t.hi, i)), c.Eq(sel, c.Select(old, i))), []*Term{sel}))
		}
		u.heapSet(st, t.key, c.Store(h, t.ref, f), t.ref)
	}
	return nil
}

// ---- builtins --------------------------------------------------------------------

func (u *Unit) builtin(fr *Frame, st *State, name string, call *ssa.CallCommon, instr ssa.Instruction) (Val, bool) {
	c := u.c
	var args []Val
	for _, a := range call.Args {
		args = append(args, u.val(fr, st, a))
	}
	rt := call.Signature().Results()
	intT := types.Typ[types.Int]
	switch name {
	case "len", "cap":
		t := call.Args[0].Type()
		switch x := t.Underlying().(type) {
		case *types.Slice:
			if name == "cap" {
				return u.one(intT, args[0].L[3]), true
			}
			return u.one(intT, args[0].L[2]), true
		case *types.Basic:
			return u.one(intT, u.slen(args[0].L[0])), true
		case *types.Map:
			return u.one(intT, u.mapLen(st, args[0])), true
		case *types.Array:
			return u.one(intT, c.Int(x.Len())), true
		case *types.Pointer:
			return u.one(intT, c.Int(x.Elem().Underlying().(*types.Array).Len())), true
		}
	case "append":
		return u.appendOp(st, call, args), true
	case "copy":
		return u.copyOp(st, call, args), true
	case "delete":
		u.mapDelete(st, args[0], args[1])
		return Val{T: types.NewTuple()}, true
	case "min", "max":
		r := args[0]
		for _, a := range args[1:] {
			var cond *Term
			if isInteger(r.T) || isFloat(r.T) {
				cond = c.Le(r.L[0], a.L[0])
				if r.L[0].sort == SReal {
					cond = c.mk("<=", "", SBool, r.L[0], a.L[0])
				}
			} else {
				u.unsupported("min/max of %s", r.T)
			}
			if name == "max" {
				cond = c.Not(cond)
			}
			r = u.one(r.T, c.Ite(cond, r.L[0], a.L[0]))
		}
		return r, true
	case "clear":
		if sl, ok := args[0].T.Underlying().(*types.Slice); ok {
			d := args[0]
			for _, l := range leaves(sl.Elem()) {
				key, h, as := u.elemHeap(st, sl.Elem(), l)
				_, es := as.arrParts()
				old := c.Select(h, d.L[0])
				f := c.Fresh("clr$"+l.Path, as)
				u.cellFacts(st, key, f)
				i := c.Bound("i", SInt)
				sel := c.mk("select", "", es, f, i)
				in := c.And(c.Le(d.L[1], i), c.Lt(i, c.Add(d.L[1], d.L[2])))
				u.Assume(c.Forall([]*Term{i}, c.And(c.Implies(in, c.Eq(sel, zeroLeaf(c, l))), c.Implies(c.Not(in), c.Eq(sel, c.Select(old, i)))), []*Term{sel}))
				u.frameCheckIf(st, c.Gt(d.L[2], c.Int(0)), key, d.L[0])
				u.heapSet(st, key, c.Store(h, d.L[0], f), d.L[0])
			}
			return Val{T: types.NewTuple()}, true
		}
		if mt, ok := args[0].T.Underlying().(*types.Map); ok {
			k, s := u.mapKey(mt, "dom", nil)
			_, vs := s.arrParts()
			u.frameCheck(st, k, args[0].L[0])
			u.heapSet(st, k, c.Store(u.heapGet(st, k, s), args[0].L[0], c.ConstArr(vs, c.tFalse)), args[0].L[0])
			k, s = u.mapKey(mt, "len", nil)
			u.heapSet(st, k, c.Store(u.heapGet(st, k, s), args[0].L[0], c.Int(0)), args[0].L[0])
			return Val{T: types.NewTuple()}, true
		}
	case "print", "println":
		return Val{T: types.NewTuple()}, true
	case "ssa:wrapnilchk":
		u.nilCheck(st, args[0], "receiver")
		return args[0], true
	case "real":
		return u.one(rt.At(0).Type(), args[0].L[0]), true
	case "imag":
		return u.one(rt.At(0).Type(), args[0].L[1]), true
	}
	u.unsupported("builtin %s", name)
	return Val{}, false
}

func (u *Unit) elemHeap(st *State, et types.Type, l Leaf) (string, *Term, Sort) {
	key := u.keyOf('E', typeKey(et), l)
	hs := arrSort(SInt, arrSort(SInt, l.Sort))
	return key, u.heapGet(st, key, hs), arrSort(SInt, l.Sort)
}

func (u *Unit) appendOp(st *State, call *ssa.CallCommon, args []Val) Val {
	return u.insertOp(st, call.Args[0].Type(), nil, args)
}

// insertOp models append (at == nil) and slices.Insert.
func (u *Unit) insertOp(st *State, T types.Type, at *Term, args []Val) Val {
	c := u.c
	s, t := args[0], args[1]
	et := T.Underlying().(*types.Slice).Elem()
	n := s.L[2]
	fromStr := isString(t.T)
	var m *Term
	if fromStr {
		m = u.slen(t.L[0])
	} else {
		if len(t.L) != 4 { // append(s, nil...)
			return s
		}
		m = t.L[2]
	}
	if m.isInt() && m.val.Sign() == 0 {
		return s
	}
	tot := c.Add(n, m)
	fits := c.Le(tot, s.L[3])
	nref := u.newRef(st)
	var ref, ncap *Term
	if fits.isTrue() {
		ref, ncap = s.L[0], s.L[3]
	} else {
		nc := c.Fresh("appcap", SInt)
		nc.SetRange(new(big.Int), maxLen)
		u.Assume(c.And(c.Ge(nc, tot), c.Le(nc, c.Big(maxLen)), c.Ge(nc, c.Int(0))))
		u.used["slices stay shorter than 2^48 elements"] = true
		if fits.isFalse() {
			ref, ncap = nref, nc
		} else {
			grow := c.Fresh("appref", SInt)
			u.Assume(c.Or(c.And(fits, c.Eq(grow, s.L[0])), c.And(c.Not(fits), c.Eq(grow, nref))))
			// m == 0 on a nil slice stays nil
			ref, ncap = grow, c.Ite(fits, s.L[3], nc)
			ncap2 := c.Fresh("appcap", SInt)
			ncap2.SetRange(new(big.Int), maxLen)
			u.Assume(c.Eq(ncap2, ncap))
			ncap = ncap2
		}
	}
	out := Val{T: T, L: []*Term{ref, s.L[1], tot, ncap}}
	base := c.Add(s.L[1], n)
	for _, l := range leaves(et) {
		key, h, as := u.elemHeap(st, et, l)
		_, es := as.arrParts()
		old := c.Select(h, s.L[0])
		if s.L[0].isInt() && s.L[0].val.Sign() == 0 && n.isInt() && n.val.Sign() == 0 {
			old = c.ConstArr(as, zeroOfSort(c, es))
		}
		srcAt := func(i *Term) *Term {
			if fromStr {
				return u.sat(t.L[0], i)
			}
			return c.Select(c.Select(h, t.L[0]), c.Add(t.L[1], i))
		}
		var na *Term
		if at != nil {
			p := c.Add(s.L[1], at)
			na = c.Fresh("ins$"+l.Path, as)
			u.cellFacts(st, key, na)
			i := c.Bound("i", SInt)
			sel := c.mk("select", "", es, na, i)
			rest := c.Ite(c.Lt(i, p), c.Select(old, i), c.Select(old, c.Sub(i, m)))
			in := c.And(c.Le(p, i), c.Lt(i, c.Add(p, m)))
			u.Assume(c.Forall([]*Term{i}, c.And(c.Implies(in, c.Eq(sel, srcAt(c.Sub(i, p)))),
				c.Implies(c.And(c.Not(in), c.Lt(i, c.Add(base, m)), c.Le(s.L[1], i)), c.Eq(sel, rest)),
				c.Implies(c.Or(c.Le(c.Add(base, m), i), c.Lt(i, s.L[1])), c.Eq(sel, c.Select(old, i)))), []*Term{sel}))
		} else if m.isInt() && m.val.IsInt64() && m.val.Int64() <= 64 {
			na = old
			for k := int64(0); k < m.val.Int64(); k++ {
				na = c.Store(na, c.Add(base, c.Int(k)), srcAt(c.Int(k)))
			}
		} else {
			na = c.Fresh("app$"+l.Path, as)
			i := c.Bound("i", SInt)
			sel := c.mk("select", "", es, na, i)
			in := c.And(c.Le(base, i), c.Lt(i, c.Add(base, m)))
			u.Assume(c.Forall([]*Term{i}, c.And(c.Implies(in, c.Eq(sel, srcAt(c.Sub(i, base)))), c.Implies(c.Not(in), c.Eq(sel, c.Select(old, i)))), []*Term{sel}))
		}
		u.frameCheck(st, key, ref)
		u.heapSet(st, key, c.Store(h, ref, na), ref)
		if len(u.logs) > 0 && !fits.isTrue() && !fits.isFalse() {
			// both targets are possible
			for _, lg := range u.logs {
				(*lg)[len(*lg)-1].ref = s.L[0]
				*lg = append(*lg, storeRec{key, nref})
			}
		}
	}
	return out
}

func (u *Unit) copyOp(st *State, call *ssa.CallCommon, args []Val) Val {
	c := u.c
	d, s := args[0], args[1]
	et := call.Args[0].Type().Underlying().(*types.Slice).Elem()
	fromStr := isString(s.T)
	var m *Term
	if fromStr {
		m = u.slen(s.L[0])
	} else {
		m = s.L[2]
	}
	var n *Term
	if le := c.Le(m, d.L[2]); le.isTrue() {
		n = m
	} else if le.isFalse() {
		n = d.L[2]
	} else if m == d.L[2] {
		n = m
	} else {
		n = c.FreshRange("copyn", new(big.Int), maxLen)
		u.Assume(c.Eq(n, c.Ite(le, m, d.L[2])))
	}
	if n.isInt() && n.val.Sign() == 0 {
		return u.one(types.Typ[types.Int], n)
	}
	type upd struct {
		key string
		h   *Term
	}
	for _, l := range leaves(et) {
		key, h, as := u.elemHeap(st, et, l)
		_, es := as.arrParts()
		old := c.Select(h, d.L[0])
		srcAt := func(i *Term) *Term {
			if fromStr {
				return u.sat(s.L[0], i)
			}
			return c.Select(c.Select(h, s.L[0]), c.Add(s.L[1], i))
		}
		var na *Term
		if n.isInt() && n.val.IsInt64() && n.val.Int64() <= 64 {
			na = old
			for k := int64(0); k < n.val.Int64(); k++ {
				na = c.Store(na, c.Add(d.L[1], c.Int(k)), srcAt(c.Int(k)))
			}
		} else {
			na = c.Fresh("cpy$"+l.Path, as)
			i := c.Bound("i", SInt)
			sel := c.mk("select", "", es, na, i)
			in := c.And(c.Le(d.L[1], i), c.Lt(i, c.Add(d.L[1], n)))
			u.Assume(c.Forall([]*Term{i}, c.And(c.Implies(in, c.Eq(sel, srcAt(c.Sub(i, d.L[1])))), c.Implies(c.Not(in), c.Eq(sel, c.Select(old, i)))), []*Term{sel}))
		}
		u.frameCheckIf(st, c.Gt(n, c.Int(0)), key, d.L[0])
		u.heapSet(st, key, c.Store(h, d.L[0], na), d.L[0])
	}
	return u.one(types.Typ[types.Int], n)
}

func (u *Unit) frameCheckIf(st *State, cond *Term, key string, ref *Term) {
	s := st.clone()
	s.reach = u.c.And(st.reach, cond)
	u.frameCheck(s, key, ref)
}

// allocCheck bounds allocations in functions that ask for it.
func (u *Unit) allocCheck(st *State, x *ssa.MakeSlice, cp *Term) {
	if u.con == nil || u.con.AllocBound == nil || u.dry > 0 {
		return
	}
	env := &Env{u: u, st: st, old: u.entry, fn: u.fn, names: u.paramLookup, allocAt: u.alloc0}
	t, err := u.evalTerm(env, *u.con.AllocBound)
	if err != nil {
		u.unsupported("alloc bound: %v", err)
	}
	u.Assert(st, "alloc", "make within "+u.con.AllocBound.Text+" "+u.P.srcText(x), u.c.Le(cp, t))
}
