package main

import (
	"bytes"
	"fmt"
	"math/rand"
	"reflect"
	"sort"
	"strings"

	"golang.org/x/text/language"

	"seehuhn.de/go/sfnt/glyph"
	"seehuhn.de/go/sfnt/opentype/anchor"
	"seehuhn.de/go/sfnt/opentype/classdef"
	"seehuhn.de/go/sfnt/opentype/coverage"
	"seehuhn.de/go/sfnt/opentype/gdef"
	"seehuhn.de/go/sfnt/opentype/gtab"
	"seehuhn.de/go/sfnt/opentype/markarray"
	"seehuhn.de/go/sfnt/parser"
)

// Property C08: GSUB, GPOS and GDEF encoding.
//
// Everything which is encoded is read back twice: with the library's reader
// and with the independent strict reader in gtabref.go, which also checks
// that the structures fill the table without gaps or overlaps.

func init() { register("C08", c08) }

// refused runs f and reports whether it panicked.  Run-time errors (index out
// of range and such) are not a refusal.
func (w *W) refused(what string, f func()) (res bool) {
	defer func() {
		if e := recover(); e != nil {
			res = true
			if re, ok := e.(interface{ RuntimeError() }); ok {
				w.Fail(what, "panic: %v", re)
			}
		}
	}()
	f()
	return false
}

// glyphSet makes sets over the whole range of glyph IDs.
func c08Glyphs(r *rand.Rand) coverage.Set {
	s := coverage.Set{}
	switch r.Intn(9) {
	case 0:
		for i := r.Intn(6); i > 0; i-- {
			s[glyph.ID(r.Intn(65536))] = true
		}
	case 1: // runs of random length
		max := 1 + r.Intn(10)
		for i := r.Intn(20); i > 0; i-- {
			a := r.Intn(65536)
			for k := 1 + r.Intn(max); k > 0 && a < 65536; k-- {
				s[glyph.ID(a)] = true
				a++
			}
		}
	case 2: // dense with holes
		a := r.Intn(65536)
		n := 1 + r.Intn(200)
		p := 1 + r.Intn(8)
		for ; n > 0 && a < 65536; n-- {
			if r.Intn(p+1) > 0 {
				s[glyph.ID(a)] = true
			}
			a++
		}
	case 3: // ends of the range
		for i := r.Intn(4); i > 0; i-- {
			s[glyph.ID(r.Intn(4))] = true
			s[glyph.ID(65532+r.Intn(4))] = true
		}
	case 4: // break even of the formats: runs of three
		a := r.Intn(100)
		for i := 1 + r.Intn(10); i > 0; i-- {
			for k := 0; k < 2+r.Intn(3); k++ {
				s[glyph.ID(a)] = true
				a++
			}
			a += 1 + r.Intn(3)
		}
	case 5: // many
		if r.Intn(3) > 0 {
			break
		}
		step := 1 + r.Intn(4)
		hole := 1 + r.Intn(1000)
		for i := r.Intn(3); i < 65536; i += step {
			if r.Intn(hole) > 0 || hole == 1 {
				s[glyph.ID(i)] = true
			}
		}
	case 6: // one run
		a := r.Intn(65536)
		b := a + 1 + r.Intn(65536-a)
		if r.Intn(4) > 0 && b > a+300 {
			b = a + 300
		}
		for ; a < b; a++ {
			s[glyph.ID(a)] = true
		}
	case 7:
		if r.Intn(4) == 0 {
			for i := 0; i < 65536; i++ {
				s[glyph.ID(i)] = true
			}
			for i := r.Intn(3); i > 0; i-- {
				delete(s, glyph.ID(r.Intn(65536)))
			}
		}
	default:
		s[glyph.ID(r.Intn(65536))] = true
	}
	return s
}

func c08Classes(r *rand.Rand) classdef.Table {
	c := classdef.Table{}
	s := c08Glyphs(r).Glyphs()
	class := func() uint16 {
		switch r.Intn(6) {
		case 0:
			return uint16(1 + r.Intn(65535))
		case 1:
			return 65535
		}
		return uint16(1 + r.Intn(3))
	}
	stay := 1 + r.Intn(10)
	cl := class()
	for _, g := range s {
		if r.Intn(stay) == 0 {
			cl = class()
		}
		c[g] = cl
	}
	return c
}

func c08Coverage(w *W, r *rand.Rand) {
	s := c08Glyphs(r)
	t := s.ToTable()
	w.Eval(fmt.Sprint("coverage ", len(s)))
	gg := s.Glyphs()
	ok := len(gg) == len(s) && len(t) == len(s)
	for i, g := range gg {
		ok = ok && s[g] && t[g] == i && (i == 0 || gg[i-1] < g)
	}
	w.Check(ok, "coverage indices", "Glyphs/ToTable of a set with %d glyphs", len(s))
	var b []byte
	n := 0
	if !w.NoPanic("coverage.Table.Encode", func() { b = t.Encode(); n = t.EncodeLen() }) {
		return
	}
	w.Input(b)
	w.Check(n == len(b), "coverage EncodeLen", "%d, but %d bytes", n, len(b))
	o := &otReader{b: b}
	var ref []glyph.ID
	msg := refParse(func() { ref = o.coverage(0); o.checkSpans() })
	if w.Check(msg == "", "coverage structure", "%s", msg) {
		d := diffVals(gg, ref, 0)
		w.Check(d == "", "coverage encoding", "%s", d)
	}
	// the tables can be anywhere in a larger file
	pre := r.Intn(5)
	bb := append(make([]byte, pre), append(bytes.Clone(b), make([]byte, r.Intn(3))...)...)
	t2, err := coverage.Read(parser.New(bytes.NewReader(bb)), int64(pre))
	if w.Check(err == nil, "coverage.Read", "%v", err) {
		d := diffVals(t, t2, 0)
		w.Check(d == "", "coverage round trip", "%s", d)
	}
	s2, err := coverage.ReadSet(parser.New(bytes.NewReader(bb)), int64(pre))
	if w.Check(err == nil, "coverage.ReadSet", "%v", err) {
		d := diffVals(s, s2, 0)
		w.Check(d == "", "coverage set round trip", "%s", d)
	}

	// invalid indices are refused
	if len(t) > 0 {
		bad := coverage.Table{}
		for g, i := range t {
			bad[g] = i
		}
		g := gg[r.Intn(len(gg))]
		switch r.Intn(4) {
		case 0:
			bad[g] = len(gg)
		case 1:
			bad[g] = -1
		case 2:
			h := gg[r.Intn(len(gg))]
			if h == g {
				return
			}
			bad[g] = bad[h]
		case 3:
			h := gg[r.Intn(len(gg))]
			if h == g {
				return
			}
			bad[g], bad[h] = bad[h], bad[g]
		}
		w.Count("invalid coverage tables", 1)
		var out []byte
		pan := false
		func() {
			defer func() { pan = recover() != nil }()
			out = bad.Encode()
		}()
		w.Check(pan, "invalid coverage table accepted", "indices %v encoded as %x", short8(bad), short(out))
	}
}

func short8(x any) string {
	s := fmt.Sprint(x)
	if len(s) > 200 {
		s = s[:200] + "…"
	}
	return s
}

// classDefFits tells whether a class definition table can be represented.
func classDefFits(c classdef.Table) bool { return classDefSize(c) <= 6+2*65535 || c08Segs(c) <= 65535 }

func c08Segs(c classdef.Table) int {
	n := 0
	for i := 0; i < 65536; i++ {
		if cl := c[glyph.ID(i)]; cl != 0 && (i == 0 || c[glyph.ID(i-1)] != cl) {
			n++
		}
	}
	return n
}

func c08ClassDef(w *W, r *rand.Rand, c classdef.Table) {
	w.Eval(fmt.Sprint("classdef ", len(c)))
	var b []byte
	n := 0
	pre := r.Intn(5)
	if w.refused("classdef.Table.Append", func() { b = c.Append(make([]byte, pre)); n = c.AppendLen() }) {
		_, lo := c[0]
		_, hi := c[65535]
		w.Check(lo && hi && c08Segs(c) > 65535, "class definition refused", "%d glyphs", len(c))
		return
	}
	w.Input(b)
	w.Check(n == len(b)-pre, "classdef AppendLen", "%d, but %d bytes", n, len(b)-pre)
	o := &otReader{b: b[pre:]}
	var ref classdef.Table
	msg := refParse(func() { ref = o.classDef(0); o.checkSpans() })
	if w.Check(msg == "", "classdef structure", "%s", msg) {
		d := diffVals(c, ref, 0)
		w.Check(d == "", "classdef encoding", "%s", d)
	}
	b = append(b, make([]byte, r.Intn(3))...)
	c2, err := classdef.Read(parser.New(bytes.NewReader(b)), int64(pre))
	if w.Check(err == nil, "classdef.Read", "%v", err) {
		d := diffVals(c, c2, 0)
		w.Check(d == "", "classdef round trip", "%s", d)
	}
}

func c08Gdef(w *W, r *rand.Rand) {
	t := &gdef.Table{}
	if r.Intn(3) > 0 {
		t.GlyphClass = classdef.Table{}
		for g := range c08Classes(r) {
			t.GlyphClass[g] = uint16(1 + r.Intn(4))
		}
	}
	if r.Intn(3) > 0 {
		t.MarkAttachClass = c08Classes(r)
	}
	if r.Intn(3) > 0 {
		t.MarkGlyphSets = []coverage.Set{}
		k := r.Intn(6)
		if r.Intn(300) == 0 {
			k = 60000 + r.Intn(6000)
			x := coverage.Set{1: true}
			for i := 0; i < k; i++ {
				t.MarkGlyphSets = append(t.MarkGlyphSets, x)
			}
			k = 0
		}
		for ; k > 0; k-- {
			t.MarkGlyphSets = append(t.MarkGlyphSets, c08Glyphs(r))
		}
	}
	// the offsets of all but the last part must fit
	sum, max, hdr := 0, 0, 12
	part := func(n int) {
		sum += n
		if n > max {
			max = n
		}
	}
	if t.GlyphClass != nil {
		part(classDefSize(t.GlyphClass))
	}
	if t.MarkAttachClass != nil {
		part(classDefSize(t.MarkAttachClass))
	}
	if t.MarkGlyphSets != nil {
		hdr = 14
		n := 4
		for _, s := range t.MarkGlyphSets {
			n += 4 + covSize(s.Glyphs())
		}
		part(n)
	}
	fits := hdr+sum-max <= 65535 && len(t.MarkGlyphSets) <= 65535 && c08Segs(t.MarkAttachClass) <= 65535 && c08Segs(t.GlyphClass) <= 65535
	w.Eval(fmt.Sprintf("gdef %d %d %d", len(t.GlyphClass), len(t.MarkAttachClass), len(t.MarkGlyphSets)))
	var b []byte
	if w.refused("gdef.Table.Encode", func() { b = t.Encode() }) {
		w.Check(!fits, "GDEF table refused", "glyph classes %d, mark classes %d, sets %d", len(t.GlyphClass), len(t.MarkAttachClass), len(t.MarkGlyphSets))
		w.Count("GDEF tables refused", 1)
		return
	}
	w.Input(b)
	o := &otReader{b: b}
	var ref *gdef.Table
	msg := refParse(func() { ref = o.gdef(); o.checkSpans() })
	if w.Check(msg == "", "GDEF structure", "%s", msg) {
		d := diffVals(t, ref, 0)
		w.Check(d == "", "GDEF encoding", "%s", d)
	}
	t2, err := gdef.Read(bytes.NewReader(b))
	if w.Check(err == nil, "gdef.Read", "%v", err) {
		d := diffVals(t, t2, 0)
		w.Check(d == "", "GDEF round trip", "%s", d)
	}
}

func covSize(gg []glyph.ID) int {
	n := 0
	for i, g := range gg {
		if i == 0 || gg[i-1]+1 != g || g == 0 {
			n++
		}
	}
	if 2*len(gg) <= 6*n {
		return 4 + 2*len(gg)
	}
	return 4 + 6*n
}

// sizeBound gives an upper bound for the encoded size of a subtable, or
// of a part of it, in the layout suggested by the specification.
func sizeBound(v reflect.Value) int {
	switch x := v.Interface().(type) {
	case coverage.Table:
		return 4 + covSize(x.Glyphs())
	case coverage.Set:
		return 4 + covSize(x.Glyphs())
	case classdef.Table:
		return 4 + classDefSize(x)
	case *gtab.GposValueRecord:
		return 16
	case anchor.Table:
		return 8
	case gtab.Gpos2_1:
		n := 64
		seen := map[glyph.ID]bool{}
		for k := range x {
			if !seen[k.Left] {
				seen[k.Left] = true
				n += 10
			}
			n += 2 + 32
		}
		return n
	}
	n := 0
	switch v.Kind() {
	case reflect.Pointer, reflect.Interface:
		if !v.IsNil() {
			n = 2 + sizeBound(v.Elem())
		}
	case reflect.Struct:
		n = 8
		for i := 0; i < v.NumField(); i++ {
			n += sizeBound(v.Field(i))
		}
	case reflect.Slice:
		n = 4
		for i := 0; i < v.Len(); i++ {
			n += sizeBound(v.Index(i))
		}
	default:
		n = 2
	}
	return n
}

// c08Table encodes a table and reads it back.  If loose is set, the table may
// also be refused.
func c08Table(w *W, info *gtab.Info, gpos bool) {
	// Only what cannot be represented may be refused.
	reason := ""
	headers := 2 + 2*len(info.LookupList)
	for i, l := range info.LookupList {
		h := 6 + 2*len(l.Subtables) + 2
		headers += h + 8*len(l.Subtables)
		if h+8*len(l.Subtables) > 65535 {
			reason = fmt.Sprintf("lookup %d has too many subtables", i)
		}
		for _, s := range l.Subtables {
			if n := sizeBound(reflect.ValueOf(s)); n > 65535 {
				reason = fmt.Sprintf("subtable %T with up to %d bytes", s, n)
			}
		}
	}
	if headers > 65535 {
		reason = "too many subtables"
	}
	n := 2
	scripts := map[string]bool{}
	for tag, f := range info.ScriptList {
		scripts[tag.String()] = true
		n += 10 + 12 + 2*len(f.Optional)
	}
	for _, f := range info.FeatureList {
		n += 6 + 4 + 2*len(f.Lookups)
		if len(f.Tag) != 4 {
			reason = "feature tag"
		}
	}
	if 12+n > 65535 {
		reason = "script and feature lists"
	}

	var b []byte
	if w.refused("gtab.Info.Encode", func() { b = info.Encode() }) {
		w.Count("tables refused", 1)
		w.Check(reason != "", "table refused", "%d lookups", len(info.LookupList))
		return
	}
	w.Input(b)
	if len(b) > 65535 {
		w.Count("tables longer than 64 KiB", 1)
	}
	o := &otReader{b: b}
	var ref otTable
	msg := refParse(func() { ref = o.table(gpos); o.checkSpans() })
	if w.Check(msg == "", "structure", "%s", msg) {
		if ref.ext > 0 {
			w.Count("tables with extension subtables", 1)
		}
		c08Diff(w, info, ref.features, ref.lookups, "encoding")
		want := []string{}
		for _, f := range info.ScriptList {
			want = append(want, fmt.Sprint(f.Required, f.Optional))
		}
		got := []string{}
		for _, l := range ref.langs {
			got = append(got, fmt.Sprint(l.feat.Required, l.feat.Optional))
		}
		sort.Strings(want)
		sort.Strings(got)
		d := diffVals(want, got, 0)
		w.Check(d == "", "script list encoding", "%s", d)
	}
	tp := gtab.Type(gtab.TypeGsub)
	if gpos {
		tp = gtab.TypeGpos
	}
	info2, err := gtab.Read(bytes.NewReader(b), tp)
	if !w.Check(err == nil, "gtab.Read", "%v", err) {
		return
	}
	d := diffVals(info.ScriptList, info2.ScriptList, 0)
	w.Check(d == "", "script list round trip", "%s", d)
	c08Diff(w, info, info2.FeatureList, info2.LookupList, "round trip")
}

// c08Diff compares features and lookups.
func c08Diff(w *W, info *gtab.Info, ff gtab.FeatureListInfo, ll gtab.LookupList, what string) {
	d := diffVals(info.FeatureList, ff, 0)
	w.Check(d == "", "features "+what, "%s", d)
	if len(info.LookupList) != len(ll) {
		w.Fail("lookups "+what, "%d instead of %d lookups", len(ll), len(info.LookupList))
		return
	}
	for i, a := range info.LookupList {
		b := ll[i]
		d := diffVals(a.Meta, b.Meta, 0)
		w.Check(d == "", "lookup meta data "+what, "lookup %d: %s", i, d)
		if len(a.Subtables) != len(b.Subtables) {
			w.Fail("lookups "+what, "lookup %d: %d instead of %d subtables", i, len(b.Subtables), len(a.Subtables))
			continue
		}
		for j := range a.Subtables {
			d := diffVals(a.Subtables[j], b.Subtables[j], 0)
			if d == "" {
				d = diffSecond(a.Subtables[j], b.Subtables[j])
			}
			key := strings.TrimPrefix(fmt.Sprintf("%T", a.Subtables[j]), "*")
			w.Check(d == "", key+" "+what, "lookup %d.%d: %s", i, j, d)
		}
	}
}

// diffSecond makes sure that the presence of the second value record in pair
// adjustments is kept: this decides how many glyphs are consumed.
func diffSecond(a, b gtab.Subtable) string {
	switch x := a.(type) {
	case gtab.Gpos2_1:
		y := b.(gtab.Gpos2_1)
		for k := range x {
			if (x[k].Second == nil) != (y[k].Second == nil) {
				return fmt.Sprintf("%v: second value record %v instead of %v", k, y[k].Second, x[k].Second)
			}
		}
	case *gtab.Gpos2_2:
		y := b.(*gtab.Gpos2_2)
		for i := range x.Adjust {
			for j := range x.Adjust[i] {
				if (x.Adjust[i][j].Second == nil) != (y.Adjust[i][j].Second == nil) {
					return fmt.Sprintf("%d, %d: second value record %v instead of %v", i, j, y.Adjust[i][j].Second, x.Adjust[i][j].Second)
				}
			}
		}
	}
	return ""
}

// c08Gen makes subtables of all sizes.
type c08Gen struct {
	gtabGen
	size int // 0..3
}

func newC08Gen(r *rand.Rand, gpos bool, size int) *c08Gen {
	g := &c08Gen{size: size}
	g.r = r
	g.gpos = gpos
	g.wide = true
	g.nl = 1 + r.Intn(300)
	g.n = []int{12, 60, 2000, 65534}[size]
	return g
}

// uniform makes the Second fields all nil or all non-nil.
func (g *c08Gen) uniform(s gtab.Subtable) gtab.Subtable {
	mode := g.r.Intn(3)
	fix := func(a *gtab.PairAdjust) {
		switch {
		case mode == 0:
			a.Second = nil
		case a.Second == nil:
			a.Second = &gtab.GposValueRecord{}
		}
		if mode == 2 {
			a.First = nil
		}
	}
	switch s := s.(type) {
	case gtab.Gpos2_1:
		for _, a := range s {
			fix(a)
		}
	case *gtab.Gpos2_2:
		for _, row := range s.Adjust {
			for _, a := range row {
				fix(a)
			}
		}
	}
	return s
}

func (g *c08Gen) one(kind string) gtab.Subtable {
	if kind == "5.1" && g.gpos {
		nc := 1 + g.r.Intn(3)
		m, b := g.bigCov(), g.bigCov()
		l := &gtab.Gpos5_1{MarkCov: m, LigCov: b, MarkArray: g.markRecords(len(m), nc)}
		for range b {
			l.LigArray = append(l.LigArray, g.matrix(1+g.r.Intn(3), nc))
		}
		return l
	}
	if g.size >= 2 {
		if s := g.big(kind); s != nil {
			return g.uniform(s)
		}
		n := g.n
		g.n = 300
		defer func() { g.n = n }()
	}
	return g.uniform(g.subtable(kind))
}

// bigCov makes coverage tables whose size matches the wanted size.
func (g *c08Gen) bigCov() coverage.Table {
	max := []int{6, 60, 1500, 40000}[g.size]
	if g.r.Intn(2) == 0 {
		max = 1 + max/20
	}
	k := 1 + g.r.Intn(max)
	s := coverage.Set{}
	if g.r.Intn(2) == 0 {
		a := g.r.Intn(65536)
		for i := a; i < a+k && i < 65536; i++ {
			s[glyph.ID(i)] = true
		}
		return s.ToTable()
	}
	for i := 0; i < k; i++ {
		s[glyph.ID(g.r.Intn(65536))] = true
	}
	return s.ToTable()
}

func (g *c08Gen) num(small int) int {
	if g.r.Intn(3) == 0 {
		return g.r.Intn(small + 1)
	}
	return g.r.Intn([]int{small, 10, 1500, 20000}[g.size] + 1)
}

func (g *c08Gen) big(kind string) gtab.Subtable {
	r := g.r
	gid := func() glyph.ID { return glyph.ID(r.Intn(65536)) }
	gids := func(n int) []glyph.ID {
		res := make([]glyph.ID, n)
		for i := range res {
			res[i] = gid()
		}
		return res
	}
	// budget splits the amount of data over the entries of a coverage table
	budget := []int{0, 0, 1500, 33000}[g.size]
	split := func(n int) int {
		if n <= 0 {
			return 0
		}
		return r.Intn(2*budget/n + 2)
	}
	smallCov := func() coverage.Table {
		s := coverage.Set{}
		k := 1 + r.Intn(1+r.Intn([]int{0, 0, 60, 3000}[g.size]))
		for i := 0; i < k; i++ {
			s[gid()] = true
		}
		return s.ToTable()
	}
	classes := func(nc int) classdef.Table {
		c := classdef.Table{}
		for g := range g.bigCov() {
			c[g] = uint16(1 + r.Intn(nc))
		}
		return c
	}
	act := func(n int) []gtab.SeqLookup {
		res := make([]gtab.SeqLookup, n)
		for i := range res {
			res[i] = gtab.SeqLookup{SequenceIndex: uint16(r.Intn(65536)), LookupListIndex: gtab.LookupIndex(r.Intn(65536))}
		}
		return res
	}
	u16s := func(n int) []uint16 {
		res := make([]uint16, n)
		for i := range res {
			res[i] = uint16(r.Intn(65536))
		}
		return res
	}
	if !g.gpos {
		switch kind {
		case "1.1":
			return &gtab.Gsub1_1{Cov: g.bigCov().ToSet(), Delta: gid()}
		case "1.2":
			c := g.bigCov()
			return &gtab.Gsub1_2{Cov: c, SubstituteGlyphIDs: gids(len(c))}
		case "2.1", "3.1":
			c := smallCov()
			x := make([][]glyph.ID, len(c))
			for i := range x {
				x[i] = gids(split(len(c)))
				if kind == "2.1" && len(x[i]) == 0 {
					x[i] = gids(1)
				}
			}
			if kind == "2.1" {
				return &gtab.Gsub2_1{Cov: c, Repl: x}
			}
			return &gtab.Gsub3_1{Cov: c, Alternates: x}
		case "4.1":
			c := smallCov()
			x := make([][]gtab.Ligature, len(c))
			for i := range x {
				left := split(len(c))
				for j := 0; left > 0 || j == 0; j++ {
					k := r.Intn(1 + r.Intn(left+2))
					x[i] = append(x[i], gtab.Ligature{In: gids(k), Out: gid()})
					left -= k + 3
				}
			}
			return &gtab.Gsub4_1{Cov: c, Repl: x}
		case "8.1":
			c := g.bigCov()
			l := &gtab.Gsub8_1{Input: c, SubstituteGlyphIDs: gids(len(c)), Backtrack: []coverage.Table{}, Lookahead: []coverage.Table{}}
			for i := r.Intn(4); i > 0; i-- {
				l.Backtrack = append(l.Backtrack, g.bigCov())
			}
			for i := r.Intn(4); i > 0; i-- {
				l.Lookahead = append(l.Lookahead, g.bigCov())
			}
			return l
		}
	} else {
		switch kind {
		case "1.1":
			return &gtab.Gpos1_1{Cov: g.bigCov(), Adjust: g.val()}
		case "1.2":
			c := g.bigCov()
			x := make([]*gtab.GposValueRecord, len(c))
			for i := range x {
				x[i] = g.val()
			}
			return &gtab.Gpos1_2{Cov: c, Adjust: x}
		case "2.1":
			l := gtab.Gpos2_1{}
			lefts := gids(1 + r.Intn([]int{0, 0, 50, 3000}[g.size]))
			for i := 1 + r.Intn(budget/2); i > 0; i-- {
				l[glyph.Pair{Left: lefts[r.Intn(len(lefts))], Right: gid()}] = &gtab.PairAdjust{First: g.val(), Second: g.val()}
			}
			return l
		case "2.2":
			n1, n2 := 1+r.Intn(40), 1+r.Intn(40)
			if g.size == 3 {
				n1, n2 = 1+r.Intn(150), 1+r.Intn(150)
			}
			l := &gtab.Gpos2_2{Cov: g.bigCov().ToSet(), Class1: classes(n1), Class2: classes(n2)}
			l.Adjust = make([][]*gtab.PairAdjust, l.Class1.NumClasses())
			for i := range l.Adjust {
				l.Adjust[i] = make([]*gtab.PairAdjust, l.Class2.NumClasses())
				for j := range l.Adjust[i] {
					l.Adjust[i][j] = &gtab.PairAdjust{First: g.val(), Second: g.val()}
				}
			}
			return l
		case "3.1":
			c := smallCov()
			x := make([]gtab.EntryExitRecord, len(c))
			for i := range x {
				x[i] = gtab.EntryExitRecord{Entry: g.anchor0(), Exit: g.anchor0()}
			}
			return &gtab.Gpos3_1{Cov: c, Records: x}
		case "4.1", "6.1":
			nc := 1 + r.Intn(5)
			m, b := smallCov(), smallCov()
			if r.Intn(4) == 0 { // a class for every mark
				nc = len(m)
				b = coverage.Table{7: 0}
			}
			recs := make([]markarray.Record, len(m))
			for i := range recs {
				recs[i] = markarray.Record{Class: uint16(r.Intn(nc)), Table: g.anchor()}
			}
			if kind == "4.1" {
				return &gtab.Gpos4_1{MarkCov: m, BaseCov: b, MarkArray: recs, BaseArray: g.matrix(len(b), nc)}
			}
			return &gtab.Gpos6_1{Mark1Cov: m, Mark2Cov: b, Mark1Array: recs, Mark2Array: g.matrix(len(b), nc)}
		}
		kind = map[string]string{"7.1": "5.1", "7.2": "5.2", "7.3": "5.3", "8.1": "6.1", "8.2": "6.2", "8.3": "6.3"}[kind]
	}
	rules := func(n int, f func(k int)) {
		left := split(n)
		for left > 0 {
			k := r.Intn(1 + r.Intn(left))
			f(k)
			left -= k + 4
		}
	}
	part := func(k int) int { return r.Intn(1 + k/3) }
	var covSets = func(max int) []coverage.Set {
		n := r.Intn(max + 1)
		if n == 0 {
			n = 1
		}
		res := make([]coverage.Set, n)
		for i := range res {
			if i < 3 {
				res[i] = g.bigCov().ToSet()
			} else {
				res[i] = coverage.Set{gid(): true}
			}
		}
		return res
	}
	switch kind {
	case "5.1":
		c := smallCov()
		x := make([][]*gtab.SeqRule, len(c))
		for i := range x {
			rules(len(c), func(k int) {
				x[i] = append(x[i], &gtab.SeqRule{Input: gids(k), Actions: act(part(k))})
			})
		}
		return &gtab.SeqContext1{Cov: c, Rules: x}
	case "5.2":
		l := &gtab.SeqContext2{Cov: g.bigCov(), Input: classes(1 + r.Intn(100))}
		l.Rules = make([][]*gtab.ClassSeqRule, 1+r.Intn(l.Input.NumClasses()))
		for i := range l.Rules {
			rules(len(l.Rules), func(k int) {
				l.Rules[i] = append(l.Rules[i], &gtab.ClassSeqRule{Input: u16s(k), Actions: act(part(k))})
			})
		}
		return l
	case "5.3":
		return &gtab.SeqContext3{Input: covSets(g.num(4)), Actions: act(g.num(3))}
	case "6.1":
		c := smallCov()
		x := make([][]*gtab.ChainedSeqRule, len(c))
		for i := range x {
			rules(len(c), func(k int) {
				x[i] = append(x[i], &gtab.ChainedSeqRule{Backtrack: gids(part(k)), Input: gids(part(k)), Lookahead: gids(part(k)), Actions: act(part(k))})
			})
		}
		return &gtab.ChainedSeqContext1{Cov: c, Rules: x}
	case "6.2":
		l := &gtab.ChainedSeqContext2{Cov: g.bigCov(), Input: classes(1 + r.Intn(100)), Backtrack: classes(3), Lookahead: classes(1 + r.Intn(1000))}
		l.Rules = make([][]*gtab.ChainedClassSeqRule, 1+r.Intn(l.Input.NumClasses()))
		for i := range l.Rules {
			rules(len(l.Rules), func(k int) {
				l.Rules[i] = append(l.Rules[i], &gtab.ChainedClassSeqRule{Backtrack: u16s(part(k)), Input: u16s(part(k)), Lookahead: u16s(part(k)), Actions: act(part(k))})
			})
		}
		return l
	case "6.3":
		l := &gtab.ChainedSeqContext3{Input: covSets(g.num(4)), Actions: act(g.num(3))}
		if r.Intn(2) == 0 {
			l.Backtrack = covSets(g.num(3))
		}
		if r.Intn(2) == 0 {
			l.Lookahead = covSets(g.num(3))
		}
		return l
	}
	return nil
}

func (g *c08Gen) anyMeta(kind string) *gtab.LookupMetaInfo {
	m := &gtab.LookupMetaInfo{LookupType: kindType(kind)}
	if g.r.Intn(2) == 0 {
		// bits 5 to 7 are reserved
		m.LookupFlags = gtab.LookupFlags(g.r.Intn(65536) &^ 0xE0)
		if m.LookupFlags&gtab.UseMarkFilteringSet != 0 {
			m.MarkFilteringSet = uint16(g.r.Intn(65536))
		}
	}
	return m
}

func c08Kinds(gpos bool) []string {
	if gpos {
		return append([]string{"5.1"}, gposKinds...)
	}
	return gsubKinds
}

var c08Lang = gtab.ScriptListInfo{language.MustParse("und-Zzzz-x-dflt"): {Required: 0xFFFF, Optional: []gtab.FeatureIndex{0}}}

func c08Sub(w *W, r *rand.Rand, kind string, gpos bool, size int) {
	g := newC08Gen(r, gpos, size)
	s := g.one(kind)
	w.Eval(fmt.Sprintf("%s %v size %d", kind, gpos, size))
	c08Table(w, &gtab.Info{
		ScriptList:  c08Lang,
		FeatureList: gtab.FeatureListInfo{{Tag: "test", Lookups: []gtab.LookupIndex{0}}},
		LookupList:  gtab.LookupList{{Meta: g.anyMeta(kind), Subtables: []gtab.Subtable{s}}},
	}, gpos)
}

func c08List(w *W, r *rand.Rand, size int) {
	gpos := r.Intn(2) == 0
	g := newC08Gen(r, gpos, 0)
	kinds := c08Kinds(gpos)
	var ctx []string
	for _, k := range kinds {
		if !gpos && (k[0] == '5' || k[0] == '6') || gpos && k[0] >= '7' {
			ctx = append(ctx, k)
		}
	}
	if r.Intn(4) == 0 {
		kinds = ctx // no lookup type tells GSUB and GPOS apart
	}
	if r.Intn(6) == 0 {
		kinds = kinds[r.Intn(len(kinds)):]
	}
	nl := r.Intn(301)
	if r.Intn(3) == 0 {
		nl = r.Intn(10)
	}
	info := &gtab.Info{ScriptList: c08Lang}
	total := 0
	limit := []int{3000, 120000, 400000}[size]
	for i := 0; i < nl; i++ {
		kind := kinds[r.Intn(len(kinds))]
		l := &gtab.LookupTable{Meta: g.anyMeta(kind)}
		m := 1
		switch r.Intn(20) {
		case 0:
			m = 0
		case 1, 2, 3:
			m = 1 + r.Intn(5)
		case 4:
			if size > 0 {
				m = 1 + r.Intn(200)
			}
		}
		var alt []string
		for _, k := range kinds {
			if kindType(k) == kindType(kind) {
				alt = append(alt, k)
			}
		}
		for j := 0; j < m; j++ {
			g.size = r.Intn(2)
			if size > 0 && total < limit && r.Intn(3) == 0 {
				g.size = 2
				if r.Intn(6) == 0 {
					g.size = 3
				}
			}
			g.n = []int{12, 60, 2000, 65534}[g.size]
			var s gtab.Subtable
			n := 0
			for {
				s = g.one(alt[r.Intn(len(alt))])
				n = sizeBound(reflect.ValueOf(s))
				if n <= 65535 {
					break
				}
			}
			total += n
			l.Subtables = append(l.Subtables, s)
		}
		info.LookupList = append(info.LookupList, l)
	}
	f := &gtab.Feature{Tag: "test"}
	for i := range info.LookupList {
		f.Lookups = append(f.Lookups, gtab.LookupIndex(i))
	}
	info.FeatureList = gtab.FeatureListInfo{f}
	w.Eval(fmt.Sprintf("list of %d, about %d bytes, gpos %v", nl, total, gpos))
	c08Table(w, info, gpos)
}

// c08Lists: script and feature lists.
func c08Lists(w *W, r *rand.Rand) {
	sc, lg := sortedKeys(refScripts), sortedKeys(refLangs)
	m := map[langSys]feats{}
	nf := 1 + r.Intn(5)
	for k := r.Intn(40); k >= 0; k-- {
		key := langSys{script: sc[r.Intn(len(sc))]}
		if r.Intn(3) > 0 {
			key.lang = lg[r.Intn(len(lg))]
		}
		m[key] = c14Feats(r, r.Intn(nf*nf), nf)
	}
	order := func(n int) []int { return r.Perm(n) }
	raw := rawLayout(m, order, nf)
	info, err := gtab.Read(bytes.NewReader(raw), gtab.TypeGsub)
	if !w.Check(err == nil, "gtab.Read", "%v", err) {
		return
	}
	if r.Intn(3) == 0 {
		info.ScriptList = gtab.ScriptListInfo{}
	}
	// make the lists longer
	idx := func() int {
		if nf == 0 || r.Intn(10) == 0 {
			return r.Intn(65535)
		}
		return r.Intn(nf)
	}
	many := []int{3, 30, 300, 3000}[r.Intn(4)]
	for _, f := range info.ScriptList {
		f.Optional = nil
		for k := r.Intn(1 + r.Intn(1+many)); k > 0; k-- {
			f.Optional = append(f.Optional, gtab.FeatureIndex(idx()))
		}
	}
	info.FeatureList = nil
	nf = []int{r.Intn(20), r.Intn(1000), 6000 + r.Intn(700), r.Intn(12000)}[r.Intn(4)]
	left := []int{30, 30000, 70000}[r.Intn(3)]
	if nf > 0 && r.Intn(20) == 0 {
		left = 70000
		nf = 1
	}
	var letters = []byte("abcdefghijklmnopqrstuvwxyzABCDEFGHIJKLMNOPQRSTUVWXYZ0123456789 !~")
	for i := 0; i < nf; i++ {
		tag := make([]byte, 4)
		for j := range tag {
			tag[j] = letters[r.Intn(len(letters))]
		}
		f := &gtab.Feature{Tag: string(tag)}
		if left > 0 {
			k := r.Intn(1 + 2*left/nf)
			if nf == 1 {
				k = max(0, left-r.Intn(10000))
			}
			left -= k
			f.Lookups = make([]gtab.LookupIndex, 0, k)
			for ; k > 0; k-- {
				f.Lookups = append(f.Lookups, gtab.LookupIndex(r.Intn(65536)))
			}
		}
		info.FeatureList = append(info.FeatureList, f)
	}
	if nf > 0 && r.Intn(20) == 0 {
		info.FeatureList[r.Intn(nf)].Tag = []string{"", "a", "abc", "abcde", "kern "}[r.Intn(5)]
	}
	if r.Intn(3) > 0 {
		g := newC08Gen(r, false, 0)
		info.LookupList = gtab.LookupList{{Meta: &gtab.LookupMetaInfo{LookupType: 1}, Subtables: []gtab.Subtable{g.one("1.1")}}}
	}
	w.Eval(fmt.Sprintf("lists %d %d", len(info.ScriptList), nf))
	c08Table(w, info, false)
}

func c08(w *W) {
	w.Each("coverage", w.Scale(1000, 60000), func(i int, r *rand.Rand) { c08Coverage(w, r) })
	w.Each("classdef", w.Scale(1200, 40000), func(i int, r *rand.Rand) { c08ClassDef(w, r, c08Classes(r)) })
	w.Each("classdef-full", 6, func(i int, r *rand.Rand) {
		// the whole range of glyphs
		c := classdef.Table{}
		for k := 0; k < 65536; k++ {
			c[glyph.ID(k)] = uint16(1 + k%2)
			if i > 0 {
				c[glyph.ID(k)] = uint16(1 + k%65535>>(i-1))
			}
		}
		c08ClassDef(w, r, c)
		delete(c, glyph.ID(r.Intn(65536)))
		c08ClassDef(w, r, c)
		delete(c, 0)
		c08ClassDef(w, r, c)
	})
	w.Each("gdef", w.Scale(500, 30000), func(i int, r *rand.Rand) { c08Gdef(w, r) })
	for _, gpos := range []bool{false, true} {
		for _, kind := range c08Kinds(gpos) {
			name := "gsub"
			if gpos {
				name = "gpos"
			}
			for size := 0; size < 4; size++ {
				n := []int{w.Scale(60, 3000), w.Scale(60, 3000), w.Scale(40, 1500), w.Scale(12, 400)}[size]
				w.Each(fmt.Sprintf("%s-%s-%d", name, kind, size), n, func(i int, r *rand.Rand) { c08Sub(w, r, kind, gpos, size) })
			}
		}
	}
	for size := 0; size < 3; size++ {
		w.Each(fmt.Sprint("lists-", size), []int{w.Scale(60, 2000), w.Scale(30, 1500), w.Scale(16, 1000)}[size], func(i int, r *rand.Rand) { c08List(w, r, size) })
	}
	w.Each("scripts-features", w.Scale(300, 8000), func(i int, r *rand.Rand) { c08Lists(w, r) })
}
