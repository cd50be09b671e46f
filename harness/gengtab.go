package main

import (
	"fmt"
	"math/rand"
	"sort"
	"strings"

	"seehuhn.de/go/postscript/funit"
	"seehuhn.de/go/sfnt/glyph"
	"seehuhn.de/go/sfnt/opentype/anchor"
	"seehuhn.de/go/sfnt/opentype/classdef"
	"seehuhn.de/go/sfnt/opentype/coverage"
	"seehuhn.de/go/sfnt/opentype/gdef"
	"seehuhn.de/go/sfnt/opentype/gtab"
	"seehuhn.de/go/sfnt/opentype/markarray"
)

// gtabGen generates random lookups over the glyphs 1..n.
type gtabGen struct {
	r    *rand.Rand
	n    int // largest glyph ID
	nl   int // number of lookups (targets of nested actions)
	gpos bool
	dev  bool // allow device offsets and vertical advances in value records
	wide bool // values need not make sense for shaping (encoding tests)
}

func (g *gtabGen) gid() glyph.ID { return glyph.ID(1 + g.r.Intn(g.n)) }

func (g *gtabGen) gids(min, max int) []glyph.ID {
	k := min + g.r.Intn(max-min+1)
	res := make([]glyph.ID, k)
	for i := range res {
		res[i] = g.gid()
	}
	return res
}

func (g *gtabGen) set(max int) coverage.Set {
	k := 1 + g.r.Intn(max)
	s := coverage.Set{}
	if g.r.Intn(3) == 0 { // a run
		a := int(g.gid())
		for i := a; i < a+k && i <= g.n; i++ {
			s[glyph.ID(i)] = true
		}
		return s
	}
	for i := 0; i < k; i++ {
		s[g.gid()] = true
	}
	return s
}

func (g *gtabGen) cov(max int) coverage.Table { return g.set(max).ToTable() }

func (g *gtabGen) classes(nc int) classdef.Table {
	c := classdef.Table{}
	k := g.r.Intn(g.n + 1)
	for i := 0; i < k; i++ {
		if cl := g.r.Intn(nc); cl > 0 {
			c[g.gid()] = uint16(cl)
		}
	}
	return c
}

func (g *gtabGen) val() *gtab.GposValueRecord {
	if g.r.Intn(5) == 0 {
		return nil
	}
	v := &gtab.GposValueRecord{}
	small := func() funit.Int16 { return funit.Int16(g.r.Intn(201) - 100) }
	for i := 0; i < 1+g.r.Intn(3); i++ {
		switch g.r.Intn(3) {
		case 0:
			v.XPlacement = small()
		case 1:
			v.YPlacement = small()
		case 2:
			v.XAdvance = small()
		}
	}
	if g.wide && g.r.Intn(4) == 0 {
		v.XAdvance = funit.Int16(g.r.Intn(65536) - 32768)
		v.YAdvance = funit.Int16(g.r.Intn(65536) - 32768)
	}
	return v
}

func (g *gtabGen) anchor() anchor.Table {
	for {
		a := anchor.Table{X: funit.Int16(g.r.Intn(401) - 200), Y: funit.Int16(g.r.Intn(401) - 200)}
		if !a.IsEmpty() {
			return a
		}
	}
}

func (g *gtabGen) anchor0() anchor.Table {
	if g.r.Intn(5) == 0 {
		return anchor.Table{}
	}
	return g.anchor()
}

func (g *gtabGen) actions(inputLen int) []gtab.SeqLookup {
	k := g.r.Intn(4)
	res := make([]gtab.SeqLookup, k)
	for i := range res {
		s := g.r.Intn(inputLen)
		if g.r.Intn(8) == 0 {
			s = g.r.Intn(inputLen + 3)
		}
		l := g.r.Intn(g.nl)
		if g.r.Intn(20) == 0 {
			l = g.nl + g.r.Intn(3)
		}
		res[i] = gtab.SeqLookup{SequenceIndex: uint16(s), LookupListIndex: gtab.LookupIndex(l)}
	}
	return res
}

func (g *gtabGen) cls(nc, min, max int) []uint16 {
	k := min + g.r.Intn(max-min+1)
	res := make([]uint16, k)
	for i := range res {
		res[i] = uint16(g.r.Intn(nc))
	}
	return res
}

func (g *gtabGen) sets(min, max int) []coverage.Set {
	k := min + g.r.Intn(max-min+1)
	res := make([]coverage.Set, k)
	for i := range res {
		res[i] = g.set(g.n)
	}
	return res
}

func (g *gtabGen) markRecords(n, nc int) []markarray.Record {
	res := make([]markarray.Record, n)
	for i := range res {
		res[i] = markarray.Record{Class: uint16(g.r.Intn(nc)), Table: g.anchor()}
	}
	return res
}

func (g *gtabGen) matrix(n, nc int) [][]anchor.Table {
	res := make([][]anchor.Table, n)
	for i := range res {
		res[i] = make([]anchor.Table, nc)
		for j := range res[i] {
			res[i][j] = g.anchor0()
		}
	}
	return res
}

// kind enumerates the subtable kinds; gsubKinds/gposKinds list them.
var gsubKinds = []string{"1.1", "1.2", "2.1", "3.1", "4.1", "5.1", "5.2", "5.3", "6.1", "6.2", "6.3", "8.1"}
var gposKinds = []string{"1.1", "1.2", "2.1", "2.2", "3.1", "4.1", "6.1", "7.1", "7.2", "7.3", "8.1", "8.2", "8.3"}

func kindType(k string) uint16 { return uint16(k[0] - '0') }

func (g *gtabGen) subtable(kind string) gtab.Subtable {
	r := g.r
	if !g.gpos {
		switch kind {
		case "1.1":
			s := g.set(g.n)
			return &gtab.Gsub1_1{Cov: s, Delta: glyph.ID(r.Intn(5) - 2)}
		case "1.2":
			c := g.cov(g.n)
			return &gtab.Gsub1_2{Cov: c, SubstituteGlyphIDs: g.gids(len(c), len(c))}
		case "2.1":
			c := g.cov(4)
			x := make([][]glyph.ID, len(c))
			for i := range x {
				x[i] = g.gids(1, 3)
			}
			return &gtab.Gsub2_1{Cov: c, Repl: x}
		case "3.1":
			c := g.cov(4)
			x := make([][]glyph.ID, len(c))
			for i := range x {
				x[i] = g.gids(0, 3)
			}
			return &gtab.Gsub3_1{Cov: c, Alternates: x}
		case "4.1":
			c := g.cov(4)
			x := make([][]gtab.Ligature, len(c))
			for i := range x {
				k := 1 + r.Intn(3)
				for j := 0; j < k; j++ {
					x[i] = append(x[i], gtab.Ligature{In: g.gids(0, 3), Out: g.gid()})
				}
			}
			return &gtab.Gsub4_1{Cov: c, Repl: x}
		case "8.1":
			c := g.cov(g.n)
			l := &gtab.Gsub8_1{Input: c, SubstituteGlyphIDs: g.gids(len(c), len(c)), Backtrack: []coverage.Table{}, Lookahead: []coverage.Table{}}
			for i := r.Intn(3); i > 0; i-- {
				l.Backtrack = append(l.Backtrack, g.cov(g.n))
			}
			for i := r.Intn(3); i > 0; i-- {
				l.Lookahead = append(l.Lookahead, g.cov(g.n))
			}
			return l
		}
	} else {
		switch kind {
		case "1.1":
			return &gtab.Gpos1_1{Cov: g.cov(g.n), Adjust: g.val()}
		case "1.2":
			c := g.cov(g.n)
			x := make([]*gtab.GposValueRecord, len(c))
			for i := range x {
				x[i] = g.val()
			}
			return &gtab.Gpos1_2{Cov: c, Adjust: x}
		case "2.1":
			l := gtab.Gpos2_1{}
			for i := 1 + r.Intn(12); i > 0; i-- {
				l[glyph.Pair{Left: g.gid(), Right: g.gid()}] = &gtab.PairAdjust{First: g.val(), Second: g.val()}
			}
			return l
		case "2.2":
			l := &gtab.Gpos2_2{Cov: g.set(g.n), Class1: g.classes(3), Class2: g.classes(3)}
			l.Adjust = make([][]*gtab.PairAdjust, l.Class1.NumClasses())
			for i := range l.Adjust {
				l.Adjust[i] = make([]*gtab.PairAdjust, l.Class2.NumClasses())
				for j := range l.Adjust[i] {
					l.Adjust[i][j] = &gtab.PairAdjust{First: g.val(), Second: g.val()}
				}
			}
			return l
		case "3.1":
			c := g.cov(g.n)
			x := make([]gtab.EntryExitRecord, len(c))
			for i := range x {
				x[i] = gtab.EntryExitRecord{Entry: g.anchor(), Exit: g.anchor()}
				if g.wide {
					x[i] = gtab.EntryExitRecord{Entry: g.anchor0(), Exit: g.anchor0()}
				}
			}
			return &gtab.Gpos3_1{Cov: c, Records: x}
		case "4.1":
			nc := 1 + r.Intn(3)
			m, b := g.cov(4), g.cov(g.n)
			return &gtab.Gpos4_1{MarkCov: m, BaseCov: b, MarkArray: g.markRecords(len(m), nc), BaseArray: g.matrix(len(b), nc)}
		case "6.1":
			nc := 1 + r.Intn(3)
			m, b := g.cov(4), g.cov(g.n)
			return &gtab.Gpos6_1{Mark1Cov: m, Mark2Cov: b, Mark1Array: g.markRecords(len(m), nc), Mark2Array: g.matrix(len(b), nc)}
		}
		kind = map[string]string{"7.1": "5.1", "7.2": "5.2", "7.3": "5.3", "8.1": "6.1", "8.2": "6.2", "8.3": "6.3"}[kind]
	}
	switch kind {
	case "5.1":
		c := g.cov(4)
		x := make([][]*gtab.SeqRule, len(c))
		for i := range x {
			if r.Intn(6) == 0 {
				continue
			}
			for j := 1 + r.Intn(3); j > 0; j-- {
				in := g.gids(0, 3)
				x[i] = append(x[i], &gtab.SeqRule{Input: in, Actions: g.actions(len(in) + 1)})
			}
		}
		return &gtab.SeqContext1{Cov: c, Rules: x}
	case "5.2":
		l := &gtab.SeqContext2{Cov: g.cov(g.n), Input: g.classes(3)}
		nc := l.Input.NumClasses()
		n := 1 + r.Intn(nc)
		l.Rules = make([][]*gtab.ClassSeqRule, n)
		for i := range l.Rules {
			if r.Intn(6) == 0 {
				continue
			}
			for j := 1 + r.Intn(3); j > 0; j-- {
				in := g.cls(nc, 0, 3)
				l.Rules[i] = append(l.Rules[i], &gtab.ClassSeqRule{Input: in, Actions: g.actions(len(in) + 1)})
			}
		}
		return l
	case "5.3":
		in := g.sets(1, 4)
		return &gtab.SeqContext3{Input: in, Actions: g.actions(len(in))}
	case "6.1":
		c := g.cov(4)
		x := make([][]*gtab.ChainedSeqRule, len(c))
		for i := range x {
			if r.Intn(6) == 0 {
				continue
			}
			for j := 1 + r.Intn(3); j > 0; j-- {
				in := g.gids(0, 3)
				x[i] = append(x[i], &gtab.ChainedSeqRule{Backtrack: g.gids(0, 2), Input: in, Lookahead: g.gids(0, 2), Actions: g.actions(len(in) + 1)})
			}
		}
		return &gtab.ChainedSeqContext1{Cov: c, Rules: x}
	case "6.2":
		l := &gtab.ChainedSeqContext2{Cov: g.cov(g.n), Input: g.classes(3), Backtrack: g.classes(3), Lookahead: g.classes(3)}
		nc := l.Input.NumClasses()
		n := 1 + r.Intn(nc)
		l.Rules = make([][]*gtab.ChainedClassSeqRule, n)
		for i := range l.Rules {
			if r.Intn(6) == 0 {
				continue
			}
			for j := 1 + r.Intn(3); j > 0; j-- {
				in := g.cls(nc, 0, 3)
				l.Rules[i] = append(l.Rules[i], &gtab.ChainedClassSeqRule{Backtrack: g.cls(3, 0, 2), Input: in, Lookahead: g.cls(3, 0, 2), Actions: g.actions(len(in) + 1)})
			}
		}
		return l
	case "6.3":
		in := g.sets(1, 4)
		return &gtab.ChainedSeqContext3{Backtrack: g.sets(0, 2), Input: in, Lookahead: g.sets(0, 2), Actions: g.actions(len(in))}
	}
	panic("unknown kind " + kind)
}

func (g *gtabGen) gdef() *gdef.Table {
	r := g.r
	if r.Intn(6) == 0 {
		return nil
	}
	t := &gdef.Table{GlyphClass: classdef.Table{}}
	for i := 1; i <= g.n; i++ {
		c := r.Intn(10)
		switch {
		case c < 4:
			t.GlyphClass[glyph.ID(i)] = gdef.GlyphClassBase
		case c < 5:
			t.GlyphClass[glyph.ID(i)] = gdef.GlyphClassLigature
		case c < 8:
			t.GlyphClass[glyph.ID(i)] = gdef.GlyphClassMark
		case c < 9 && r.Intn(3) == 0:
			t.GlyphClass[glyph.ID(i)] = gdef.GlyphClassComponent
		}
	}
	if r.Intn(4) > 0 {
		t.MarkAttachClass = g.classes(3)
	}
	if r.Intn(4) > 0 {
		for i := r.Intn(3); i >= 0; i-- {
			t.MarkGlyphSets = append(t.MarkGlyphSets, g.set(g.n))
		}
	}
	return t
}

func (g *gtabGen) meta(tp uint16) *gtab.LookupMetaInfo {
	r := g.r
	m := &gtab.LookupMetaInfo{LookupType: tp}
	switch r.Intn(8) {
	case 0:
		m.LookupFlags = gtab.IgnoreMarks
	case 1:
		m.LookupFlags = gtab.UseMarkFilteringSet
		m.MarkFilteringSet = uint16(r.Intn(4))
	case 2:
		m.LookupFlags = gtab.LookupFlags(1+r.Intn(2)) << 8
	case 3:
		m.LookupFlags = gtab.IgnoreBaseGlyphs
	case 4:
		m.LookupFlags = gtab.LookupFlags(r.Intn(16))
		if r.Intn(3) == 0 {
			m.LookupFlags |= gtab.LookupFlags(r.Intn(3)) << 8
		}
		if r.Intn(3) == 0 {
			m.LookupFlags |= gtab.UseMarkFilteringSet
			m.MarkFilteringSet = uint16(r.Intn(3))
		}
	}
	return m
}

// lookup makes a lookup of the given kind; further subtables have the same
// lookup type.
func (g *gtabGen) lookup(kind string) *gtab.LookupTable {
	tp := kindType(kind)
	l := &gtab.LookupTable{Meta: g.meta(tp)}
	l.Subtables = append(l.Subtables, g.subtable(kind))
	kinds := gsubKinds
	if g.gpos {
		kinds = gposKinds
	}
	for g.r.Intn(3) == 0 && len(l.Subtables) < 4 {
		var alt []string
		for _, k := range kinds {
			if kindType(k) == tp {
				alt = append(alt, k)
			}
		}
		l.Subtables = append(l.Subtables, g.subtable(alt[g.r.Intn(len(alt))]))
	}
	return l
}

func (g *gtabGen) list() gtab.LookupList {
	kinds := gsubKinds
	if g.gpos {
		kinds = gposKinds
	}
	ll := make(gtab.LookupList, g.nl)
	for i := range ll {
		ll[i] = g.lookup(kinds[g.r.Intn(len(kinds))])
	}
	return ll
}

func (g *gtabGen) seq(max int) []glyph.Info {
	n := g.r.Intn(max + 1)
	res := make([]glyph.Info, n)
	sub := g.gids(1, 5) // few distinct glyphs so that rules match
	for i := range res {
		gid := g.gid()
		if g.r.Intn(3) > 0 {
			gid = sub[g.r.Intn(len(sub))]
		}
		res[i] = glyph.Info{GID: gid, Text: []rune{rune('a' + i)}}
		if g.r.Intn(10) == 0 {
			res[i].Text = append(res[i].Text, rune('A'+i))
		}
		if g.gpos {
			res[i].Advance = funit.Int16(g.r.Intn(1000))
			if g.r.Intn(8) == 0 {
				res[i].XOffset = funit.Int16(g.r.Intn(100))
				res[i].YOffset = funit.Int16(g.r.Intn(100))
			}
		}
	}
	return res
}

func copySeq(s []glyph.Info) []glyph.Info {
	res := make([]glyph.Info, len(s))
	for i, g := range s {
		res[i] = g
		res[i].Text = append([]rune(nil), g.Text...)
	}
	return res
}

func sameSeq(a, b []glyph.Info) bool {
	if len(a) != len(b) {
		return false
	}
	for i := range a {
		x, y := a[i], b[i]
		if x.GID != y.GID || string(x.Text) != string(y.Text) || x.XOffset != y.XOffset || x.YOffset != y.YOffset || x.Advance != y.Advance {
			return false
		}
	}
	return true
}

func fmtSeq(s []glyph.Info) string {
	var sb strings.Builder
	for _, g := range s {
		fmt.Fprintf(&sb, "[%d %q", g.GID, string(g.Text))
		if g.XOffset != 0 || g.YOffset != 0 || g.Advance != 0 {
			fmt.Fprintf(&sb, " %d,%d+%d", g.XOffset, g.YOffset, g.Advance)
		}
		sb.WriteString("]")
	}
	return sb.String()
}

func fmtLookups(ll gtab.LookupList) string {
	var sb strings.Builder
	for i, l := range ll {
		fmt.Fprintf(&sb, "L%d type %d flags %x set %d:", i, l.Meta.LookupType, uint16(l.Meta.LookupFlags), l.Meta.MarkFilteringSet)
		for _, s := range l.Subtables {
			fmt.Fprintf(&sb, " %s", dumpSubtable(s))
		}
		sb.WriteString("\n")
	}
	return sb.String()
}

func dumpSubtable(s gtab.Subtable) string {
	switch l := s.(type) {
	case *gtab.SeqContext1:
		t := fmt.Sprintf("SeqContext1{%v", l.Cov)
		for _, rr := range l.Rules {
			t += " ["
			for _, r := range rr {
				t += fmt.Sprintf("%+v", *r)
			}
			t += "]"
		}
		return t + "}"
	case *gtab.SeqContext2:
		t := fmt.Sprintf("SeqContext2{%v %v", l.Cov, l.Input)
		for _, rr := range l.Rules {
			t += " ["
			for _, r := range rr {
				t += fmt.Sprintf("%+v", *r)
			}
			t += "]"
		}
		return t + "}"
	case *gtab.ChainedSeqContext1:
		t := fmt.Sprintf("ChainedSeqContext1{%v", l.Cov)
		for _, rr := range l.Rules {
			t += " ["
			for _, r := range rr {
				t += fmt.Sprintf("%+v", *r)
			}
			t += "]"
		}
		return t + "}"
	case *gtab.ChainedSeqContext2:
		t := fmt.Sprintf("ChainedSeqContext2{%v b%v i%v l%v", l.Cov, l.Backtrack, l.Input, l.Lookahead)
		for _, rr := range l.Rules {
			t += " ["
			for _, r := range rr {
				t += fmt.Sprintf("%+v", *r)
			}
			t += "]"
		}
		return t + "}"
	case gtab.Gpos2_1:
		var keys []glyph.Pair
		for k := range l {
			keys = append(keys, k)
		}
		sort.Slice(keys, func(i, j int) bool {
			return keys[i].Left < keys[j].Left || keys[i].Left == keys[j].Left && keys[i].Right < keys[j].Right
		})
		t := "Gpos2_1{"
		for _, k := range keys {
			t += fmt.Sprintf("%d,%d:(%s,%s) ", k.Left, k.Right, l[k].First, l[k].Second)
		}
		return t + "}"
	case *gtab.Gpos2_2:
		t := fmt.Sprintf("Gpos2_2{%v %v %v", l.Cov, l.Class1, l.Class2)
		for _, rr := range l.Adjust {
			t += " ["
			for _, r := range rr {
				t += fmt.Sprintf("(%s,%s)", r.First, r.Second)
			}
			t += "]"
		}
		return t + "}"
	}
	return fmt.Sprintf("%T%+v", s, s)
}

func fmtGdef(g *gdef.Table) string {
	if g == nil {
		return "nil"
	}
	return fmt.Sprintf("%+v", *g)
}
