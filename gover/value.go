package main

import (
	"fmt"
	"go/types"
	"math/big"
	"regexp"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// Leaf describes one SMT component of a Go type.
type Leaf struct {
	Path string
	Sort Sort
	Kind leafKind
	T    types.Type // Go type of the leaf (for integer ranges), nil if synthetic
	Arr  int        // array nesting depth for fixed arrays (sort is wrapped that often)
}

type leafKind int

const (
	lkInt leafKind = iota
	lkBool
	lkReal
	lkStr
	lkRef      // pointer, map, chan, func
	lkSliceRef // block reference of a slice
	lkSliceOff
	lkSliceLen
	lkSliceCap
	lkTag // interface dynamic type
	lkPay // interface payload
	lkCplx
)

var leafCache = map[string][]Leaf{}

var reByte = regexp.MustCompile(`\bbyte\b`)
var reRune = regexp.MustCompile(`\brune\b`)
var tkCache = map[types.Type]string{}

func typeKey(t types.Type) string {
	if s, ok := tkCache[t]; ok {
		return s
	}
	s := types.TypeString(types.Unalias(t), func(p *types.Package) string { return p.Path() })
	s = reByte.ReplaceAllString(s, "uint8")
	s = reRune.ReplaceAllString(s, "int32")
	s = strings.ReplaceAll(s, "seehuhn.de/go/sfnt/", "")
	s = strings.ReplaceAll(s, "interface{}", "any")
	tkCache[t] = s
	return s
}

// leaves flattens a type.
func leaves(t types.Type) []Leaf {
	k := typeKey(t)
	if l, ok := leafCache[k]; ok {
		return l
	}
	l := leaves1(t)
	leafCache[k] = l
	return l
}

func leaves1(t types.Type) []Leaf {
	switch u := t.Underlying().(type) {
	case *types.Basic:
		switch {
		case u.Info()&types.IsInteger != 0:
			return []Leaf{{Sort: SInt, Kind: lkInt, T: t}}
		case u.Info()&types.IsBoolean != 0:
			return []Leaf{{Sort: SBool, Kind: lkBool}}
		case u.Info()&types.IsFloat != 0:
			return []Leaf{{Sort: SReal, Kind: lkReal}}
		case u.Info()&types.IsString != 0:
			return []Leaf{{Sort: SStr, Kind: lkStr}}
		case u.Info()&types.IsComplex != 0:
			return []Leaf{{Path: ".re", Sort: SReal, Kind: lkReal}, {Path: ".im", Sort: SReal, Kind: lkReal}}
		case u.Kind() == types.Invalid:
			return nil
		case u.Kind() == types.UntypedNil || u.Kind() == types.UnsafePointer:
			return []Leaf{{Sort: SInt, Kind: lkRef}}
		}
		panic("leaves: basic " + t.String())
	case *types.Pointer, *types.Map, *types.Chan, *types.Signature:
		return []Leaf{{Sort: SInt, Kind: lkRef}}
	case *types.Slice:
		return []Leaf{
			{Path: ".r", Sort: SInt, Kind: lkSliceRef},
			{Path: ".o", Sort: SInt, Kind: lkSliceOff},
			{Path: ".l", Sort: SInt, Kind: lkSliceLen},
			{Path: ".c", Sort: SInt, Kind: lkSliceCap},
		}
	case *types.Interface:
		return []Leaf{{Path: ".t", Sort: SInt, Kind: lkTag}, {Path: ".v", Sort: SInt, Kind: lkPay}}
	case *types.Struct:
		var out []Leaf
		for i := 0; i < u.NumFields(); i++ {
			f := u.Field(i)
			for _, l := range leaves(f.Type()) {
				l.Path = "." + fieldName(u, i) + l.Path
				out = append(out, l)
			}
		}
		return out
	case *types.Array:
		var out []Leaf
		for _, l := range leaves(u.Elem()) {
			l.Path = "[]" + l.Path
			l.Sort = arrSort(SInt, l.Sort)
			l.Arr++
			out = append(out, l)
		}
		return out
	case *types.Tuple:
		var out []Leaf
		for i := 0; i < u.Len(); i++ {
			for _, l := range leaves(u.At(i).Type()) {
				l.Path = fmt.Sprintf(".%d%s", i, l.Path)
				out = append(out, l)
			}
		}
		return out
	case *types.TypeParam:
		return []Leaf{{Sort: SInt, Kind: lkRef}}
	}
	panic("leaves: unsupported type " + t.String())
}

func fieldName(u *types.Struct, i int) string {
	n := u.Field(i).Name()
	if n == "_" {
		return fmt.Sprintf("_%d", i)
	}
	return n
}

// fieldOff returns the leaf offset and count of field i.
func fieldOff(u *types.Struct, i int) (int, int) {
	off := 0
	for j := 0; j < i; j++ {
		off += len(leaves(u.Field(j).Type()))
	}
	return off, len(leaves(u.Field(i).Type()))
}

// Addr is a statically known address shape.
//
//	root "O:<T>"  object of type T at ref            (ref)
//	root "E:<T>"  element idx of a block of T        (ref, idx)
//	root "G:<g>"  package-level variable             (no ref)
type Addr struct {
	Kind byte // 'O', 'E', 'G'
	RT   types.Type
	G    string
	Ref  *Term
	Idx  *Term
	Path string // field path from the root, e.g. ".a.b"; array steps "[]" carry an index
	AIdx []*Term
	T    types.Type // type of the addressed cell
}

// Val is a Go value: the flattened leaves plus statically known extras.
type Val struct {
	T   types.Type
	L   []*Term
	A   *Addr // for pointers that are not plain object references
	Fn  *ssa.Function
	Bnd []Val  // closure bindings
	Dyn *Val   // statically known dynamic value of an interface
	Blt string // builtin or model object
	It  *mapIter
}

type mapIter struct {
	m   Val
	mt  *types.Map
	str bool
	dom *Term // domain at iteration start
	ref *Term // identity of the iteration (for its ghosts)
}

func isString(t types.Type) bool {
	b, ok := t.Underlying().(*types.Basic)
	return ok && b.Info()&types.IsString != 0
}
func isFloat(t types.Type) bool {
	b, ok := t.Underlying().(*types.Basic)
	return ok && b.Info()&types.IsFloat != 0
}
func isInteger(t types.Type) bool {
	b, ok := t.Underlying().(*types.Basic)
	return ok && b.Info()&types.IsInteger != 0
}
func isBool(t types.Type) bool {
	b, ok := t.Underlying().(*types.Basic)
	return ok && b.Info()&types.IsBoolean != 0
}

// intRange returns the value range of an integer type.
func intRange(t types.Type) (lo, hi *big.Int, bits uint, signed bool) {
	b := t.Underlying().(*types.Basic)
	switch b.Kind() {
	case types.Int, types.Int64, types.UntypedInt, types.UntypedRune:
		bits, signed = 64, true
	case types.Int8:
		bits, signed = 8, true
	case types.Int16:
		bits, signed = 16, true
	case types.Int32:
		bits, signed = 32, true
	case types.Uint, types.Uint64, types.Uintptr:
		bits = 64
	case types.Uint8:
		bits = 8
	case types.Uint16:
		bits = 16
	case types.Uint32:
		bits = 32
	default:
		panic("intRange " + t.String())
	}
	one := big.NewInt(1)
	if signed {
		hi = new(big.Int).Lsh(one, bits-1)
		lo = new(big.Int).Neg(hi)
		hi = new(big.Int).Sub(hi, one)
	} else {
		lo = new(big.Int)
		hi = new(big.Int).Sub(new(big.Int).Lsh(one, bits), one)
	}
	return
}

var maxLen = new(big.Int).Lsh(big.NewInt(1), 48)

// typeID numbers dynamic types of interfaces.
var typeIDs = map[string]int64{}

func typeID(t types.Type) int64 {
	k := typeKey(t)
	if id, ok := typeIDs[k]; ok {
		return id
	}
	typeIDs[k] = int64(hashStr(k)%(1<<40)) + 1
	return typeIDs[k]
}

func zeroLeaf(c *Ctx, l Leaf) *Term {
	s := l.Sort
	if s.isArr() {
		return zeroOfSort(c, s)
	}
	return zeroOfSort(c, s)
}

func zeroOfSort(c *Ctx, s Sort) *Term {
	switch {
	case s == SInt:
		return c.Int(0)
	case s == SBool:
		return c.tFalse
	case s == SReal:
		return c.Real(new(big.Rat))
	case s == SStr:
		return c.StrConst("")
	case s.isArr():
		_, v := s.arrParts()
		return c.ConstArr(s, zeroOfSort(c, v))
	}
	panic("zeroOfSort " + string(s))
}

// StrConst is the constant for a Go string literal; its length and bytes are
// axiomatised where it is used (see VC.strFacts).
func (c *Ctx) StrConst(s string) *Term {
	name := "str$" + fmt.Sprintf("%x", s)
	if len(name) > 100 {
		name = name[:60] + fmt.Sprintf("_%d_", len(s)) + fmt.Sprintf("%x", hashStr(s))
	}
	t := c.Named(name, SStr)
	if strLits[name] == nil {
		v := s
		strLits[name] = &v
	}
	return t
}

var strLits = map[string]*string{}

func hashStr(s string) uint64 {
	h := uint64(14695981039346656037)
	for i := 0; i < len(s); i++ {
		h = (h ^ uint64(s[i])) * 1099511628211
	}
	return h
}

func strLit(t *Term) (string, bool) {
	if t.op == "const" && strings.HasPrefix(t.name, "str$") {
		if p := strLits[t.name]; p != nil {
			return *p, true
		}
	}
	return "", false
}
