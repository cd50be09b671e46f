package main

import (
	"fmt"
	"sort"

	"seehuhn.de/go/postscript/funit"

	"seehuhn.de/go/sfnt/glyph"
	"seehuhn.de/go/sfnt/opentype/anchor"
	"seehuhn.de/go/sfnt/opentype/classdef"
	"seehuhn.de/go/sfnt/opentype/coverage"
	"seehuhn.de/go/sfnt/opentype/gdef"
	"seehuhn.de/go/sfnt/opentype/gtab"
	"seehuhn.de/go/sfnt/opentype/markarray"
)

// An independent reader for the binary form of GSUB, GPOS and GDEF tables,
// written from the OpenType specification.  It is strict: anything which the
// specification does not allow is an error.

type otError string

type otReader struct {
	b    []byte
	span []otSpan
}

// otSpan is a range of bytes which belongs to one structure.
type otSpan struct {
	from, to int
	what     string
}

func (o *otReader) fail(format string, a ...any) { panic(otError(fmt.Sprintf(format, a...))) }

func (o *otReader) u16(pos int) int {
	if pos < 0 || pos+2 > len(o.b) {
		o.fail("read at %d outside the table (%d bytes)", pos, len(o.b))
	}
	return int(o.b[pos])<<8 | int(o.b[pos+1])
}

func (o *otReader) i16(pos int) funit.Int16 { return funit.Int16(uint16(o.u16(pos))) }
func (o *otReader) u32(pos int) int         { return o.u16(pos)<<16 | o.u16(pos+2) }
func (o *otReader) mark(from, to int, what string) {
	if to > len(o.b) {
		o.fail("%s at %d..%d is outside the table (%d bytes)", what, from, to, len(o.b))
	}
	o.span = append(o.span, otSpan{from, to, what})
}

// u16s reads n values.
func (o *otReader) u16s(pos, n int) []int {
	res := make([]int, n)
	for i := range res {
		res[i] = o.u16(pos + 2*i)
	}
	return res
}

func (o *otReader) gids(pos, n int) []glyph.ID {
	res := make([]glyph.ID, n)
	for i := range res {
		res[i] = glyph.ID(o.u16(pos + 2*i))
	}
	return res
}

func (o *otReader) off(base, pos int) int {
	v := o.u16(pos)
	if v == 0 {
		o.fail("null offset at %d", pos)
	}
	return base + v
}

func (o *otReader) coverage(pos int) []glyph.ID {
	var res []glyph.ID
	n := o.u16(pos + 2)
	ranges := 0
	prev := -2
	switch o.u16(pos) {
	case 1:
		o.mark(pos, pos+4+2*n, "coverage 1")
		for _, g := range o.u16s(pos+4, n) {
			if g <= prev {
				o.fail("coverage at %d not sorted", pos)
			}
			if g != prev+1 {
				ranges++
			}
			prev = g
			res = append(res, glyph.ID(g))
		}
		if 6*ranges < 2*n {
			o.fail("coverage at %d: format 1 (%d glyphs) is larger than format 2 (%d ranges)", pos, n, ranges)
		}
	case 2:
		o.mark(pos, pos+4+6*n, "coverage 2")
		for i := 0; i < n; i++ {
			a, b, c := o.u16(pos+4+6*i), o.u16(pos+6+6*i), o.u16(pos+8+6*i)
			if a <= prev || b < a || c != len(res) {
				o.fail("coverage at %d: range %d is %d..%d index %d", pos, i, a, b, c)
			}
			for ; a <= b; a++ {
				res = append(res, glyph.ID(a))
			}
			prev = b
		}
		if 6*n > 2*len(res) {
			o.fail("coverage at %d: format 2 (%d ranges) is larger than format 1 (%d glyphs)", pos, n, len(res))
		}
	default:
		o.fail("coverage format %d at %d", o.u16(pos), pos)
	}
	return res
}

func (o *otReader) covTable(pos int) coverage.Table {
	res := coverage.Table{}
	for i, g := range o.coverage(pos) {
		res[g] = i
	}
	return res
}

func (o *otReader) covSet(pos int) coverage.Set {
	res := coverage.Set{}
	for _, g := range o.coverage(pos) {
		res[g] = true
	}
	return res
}

func (o *otReader) classDef(pos int) classdef.Table {
	res := classdef.Table{}
	size := 0
	switch o.u16(pos) {
	case 1:
		start, n := o.u16(pos+2), o.u16(pos+4)
		size = 6 + 2*n
		o.mark(pos, pos+size, "classdef 1")
		if start+n > 65536 {
			o.fail("classdef at %d: %d glyphs from %d", pos, n, start)
		}
		for i, c := range o.u16s(pos+6, n) {
			if c != 0 {
				res[glyph.ID(start+i)] = uint16(c)
			}
		}
	case 2:
		n := o.u16(pos + 2)
		size = 4 + 6*n
		o.mark(pos, pos+size, "classdef 2")
		prev := -1
		for i := 0; i < n; i++ {
			a, b, c := o.u16(pos+4+6*i), o.u16(pos+6+6*i), o.u16(pos+8+6*i)
			if a <= prev || b < a {
				o.fail("classdef at %d: range %d is %d..%d", pos, i, a, b)
			}
			prev = b
			for ; a <= b && c != 0; a++ {
				res[glyph.ID(a)] = uint16(c)
			}
		}
	default:
		o.fail("classdef format %d at %d", o.u16(pos), pos)
	}
	if m := classDefSize(res); size > m {
		o.fail("classdef at %d has %d bytes, could be %d", pos, size, m)
	}
	return res
}

// classDefSize gives the size of the smaller of the formats.
func classDefSize(c classdef.Table) int {
	var gg []int
	for g, cl := range c {
		if cl != 0 {
			gg = append(gg, int(g))
		}
	}
	if len(gg) == 0 {
		return 4
	}
	sort.Ints(gg)
	ranges := 1
	for i := 1; i < len(gg); i++ {
		if gg[i] != gg[i-1]+1 || c[glyph.ID(gg[i])] != c[glyph.ID(gg[i-1])] {
			ranges++
		}
	}
	n := gg[len(gg)-1] - gg[0] + 1
	f1, f2 := 6+2*n, 4+6*ranges
	if n > 65535 || ranges <= 65535 && f2 < f1 {
		return f2
	}
	return f1
}

func (o *otReader) value(pos int, format int) (*gtab.GposValueRecord, int) {
	if format == 0 {
		return nil, pos
	}
	v := &gtab.GposValueRecord{}
	for bit, p := range []*funit.Int16{&v.XPlacement, &v.YPlacement, &v.XAdvance, &v.YAdvance} {
		if format>>bit&1 != 0 {
			*p = o.i16(pos)
			pos += 2
		}
	}
	for bit, p := range []*uint16{&v.XPlacementDevOffs, &v.YPlacementDevOffs, &v.XAdvanceDevOffs, &v.YAdvanceDevOffs} {
		if format>>(bit+4)&1 != 0 {
			*p = uint16(o.u16(pos))
			pos += 2
		}
	}
	if format>>8 != 0 {
		o.fail("value format %#x", format)
	}
	return v, pos
}

func (o *otReader) anchor(pos int) anchor.Table {
	if o.u16(pos) != 1 {
		o.fail("anchor format %d at %d", o.u16(pos), pos)
	}
	o.mark(pos, pos+6, "anchor")
	return anchor.Table{X: o.i16(pos + 2), Y: o.i16(pos + 4)}
}

func (o *otReader) markArray(pos int) []markarray.Record {
	n := o.u16(pos)
	o.mark(pos, pos+2+4*n, "mark array")
	res := make([]markarray.Record, n)
	for i := range res {
		res[i] = markarray.Record{Class: uint16(o.u16(pos + 2 + 4*i)), Table: o.anchor(o.off(pos, pos+4+4*i))}
	}
	return res
}

func (o *otReader) anchorMatrix(pos, nc int) [][]anchor.Table {
	n := o.u16(pos)
	o.mark(pos, pos+2+2*n*nc, "anchor matrix")
	res := make([][]anchor.Table, n)
	for i := range res {
		res[i] = make([]anchor.Table, nc)
		for j := range res[i] {
			if o.u16(pos+2+2*(i*nc+j)) != 0 {
				res[i][j] = o.anchor(o.off(pos, pos+2+2*(i*nc+j)))
			}
		}
	}
	return res
}

func (o *otReader) actions(pos, n int) []gtab.SeqLookup {
	res := make([]gtab.SeqLookup, n)
	for i := range res {
		res[i] = gtab.SeqLookup{SequenceIndex: uint16(o.u16(pos + 4*i)), LookupListIndex: gtab.LookupIndex(o.u16(pos + 4*i + 2))}
	}
	return res
}

// rule reads the glyphs (or classes) and actions of a (chained) rule.
func (o *otReader) rule(pos int, chained bool) (back, in, ahead []int, act []gtab.SeqLookup) {
	p := pos
	if chained {
		n := o.u16(p)
		back = o.u16s(p+2, n)
		p += 2 + 2*n
		n = o.u16(p) - 1
		if n < 0 {
			o.fail("empty input at %d", p)
		}
		in = o.u16s(p+2, n)
		p += 2 + 2*n
		n = o.u16(p)
		ahead = o.u16s(p+2, n)
		p += 2 + 2*n
		n = o.u16(p)
		act = o.actions(p+2, n)
		p += 2 + 4*n
	} else {
		n, m := o.u16(p)-1, o.u16(p+2)
		if n < 0 {
			o.fail("empty input at %d", p)
		}
		in = o.u16s(p+4, n)
		act = o.actions(p+4+2*n, m)
		p += 4 + 2*n + 4*m
	}
	o.mark(pos, p, "rule")
	return
}

func toGids(x []int) []glyph.ID {
	res := make([]glyph.ID, len(x))
	for i := range x {
		res[i] = glyph.ID(x[i])
	}
	return res
}

func toU16(x []int) []uint16 {
	res := make([]uint16, len(x))
	for i := range x {
		res[i] = uint16(x[i])
	}
	return res
}

// ruleSets reads the offsets of rule sets at pos and calls f for every rule.
func (o *otReader) ruleSets(base, pos, n int, f func(set, rulePos int)) {
	for i := 0; i < n; i++ {
		if o.u16(pos+2*i) == 0 {
			continue
		}
		set := o.off(base, pos+2*i)
		m := o.u16(set)
		o.mark(set, set+2+2*m, "rule set")
		for j := 0; j < m; j++ {
			f(i, o.off(set, set+2+2*j))
		}
	}
}

func (o *otReader) covSets(base, pos, n int) []coverage.Set {
	res := make([]coverage.Set, n)
	for i := range res {
		res[i] = o.covSet(o.off(base, pos+2*i))
	}
	return res
}

func (o *otReader) need(a, b int, what string, pos int) {
	if a != b {
		o.fail("%s at %d: %d, coverage has %d", what, pos, a, b)
	}
}

func (o *otReader) context(format, pos int, chained bool) gtab.Subtable {
	switch {
	case format == 1:
		cov := o.covTable(o.off(pos, pos+2))
		n := o.u16(pos + 4)
		o.mark(pos, pos+6+2*n, "context 1")
		o.need(n, len(cov), "rule sets", pos)
		if chained {
			l := &gtab.ChainedSeqContext1{Cov: cov, Rules: make([][]*gtab.ChainedSeqRule, n)}
			o.ruleSets(pos, pos+6, n, func(i, p int) {
				b, in, a, act := o.rule(p, true)
				l.Rules[i] = append(l.Rules[i], &gtab.ChainedSeqRule{Backtrack: toGids(b), Input: toGids(in), Lookahead: toGids(a), Actions: act})
			})
			return l
		}
		l := &gtab.SeqContext1{Cov: cov, Rules: make([][]*gtab.SeqRule, n)}
		o.ruleSets(pos, pos+6, n, func(i, p int) {
			_, in, _, act := o.rule(p, false)
			l.Rules[i] = append(l.Rules[i], &gtab.SeqRule{Input: toGids(in), Actions: act})
		})
		return l
	case format == 2 && chained:
		l := &gtab.ChainedSeqContext2{Cov: o.covTable(o.off(pos, pos+2)), Backtrack: o.classDef(o.off(pos, pos+4)), Input: o.classDef(o.off(pos, pos+6)), Lookahead: o.classDef(o.off(pos, pos+8))}
		n := o.u16(pos + 10)
		o.mark(pos, pos+12+2*n, "chained context 2")
		l.Rules = make([][]*gtab.ChainedClassSeqRule, n)
		o.ruleSets(pos, pos+12, n, func(i, p int) {
			b, in, a, act := o.rule(p, true)
			l.Rules[i] = append(l.Rules[i], &gtab.ChainedClassSeqRule{Backtrack: toU16(b), Input: toU16(in), Lookahead: toU16(a), Actions: act})
		})
		return l
	case format == 2:
		l := &gtab.SeqContext2{Cov: o.covTable(o.off(pos, pos+2)), Input: o.classDef(o.off(pos, pos+4))}
		n := o.u16(pos + 6)
		o.mark(pos, pos+8+2*n, "context 2")
		l.Rules = make([][]*gtab.ClassSeqRule, n)
		o.ruleSets(pos, pos+8, n, func(i, p int) {
			_, in, _, act := o.rule(p, false)
			l.Rules[i] = append(l.Rules[i], &gtab.ClassSeqRule{Input: toU16(in), Actions: act})
		})
		return l
	case format == 3 && chained:
		l := &gtab.ChainedSeqContext3{}
		p := pos + 2
		n := o.u16(p)
		l.Backtrack = o.covSets(pos, p+2, n)
		p += 2 + 2*n
		n = o.u16(p)
		l.Input = o.covSets(pos, p+2, n)
		p += 2 + 2*n
		n = o.u16(p)
		l.Lookahead = o.covSets(pos, p+2, n)
		p += 2 + 2*n
		n = o.u16(p)
		l.Actions = o.actions(p+2, n)
		o.mark(pos, p+2+4*n, "chained context 3")
		return l
	case format == 3:
		n, m := o.u16(pos+2), o.u16(pos+4)
		o.mark(pos, pos+6+2*n+4*m, "context 3")
		return &gtab.SeqContext3{Input: o.covSets(pos, pos+6, n), Actions: o.actions(pos+6+2*n, m)}
	}
	o.fail("context format %d at %d", format, pos)
	return nil
}

func (o *otReader) gsub(tp, pos int) gtab.Subtable {
	format := o.u16(pos)
	switch {
	case tp == 1 && format == 1:
		o.mark(pos, pos+6, "GSUB 1.1")
		return &gtab.Gsub1_1{Cov: o.covSet(o.off(pos, pos+2)), Delta: glyph.ID(o.u16(pos + 4))}
	case tp == 1 && format == 2:
		cov := o.covTable(o.off(pos, pos+2))
		n := o.u16(pos + 4)
		o.need(n, len(cov), "substitutes", pos)
		o.mark(pos, pos+6+2*n, "GSUB 1.2")
		return &gtab.Gsub1_2{Cov: cov, SubstituteGlyphIDs: o.gids(pos+6, n)}
	case (tp == 2 || tp == 3) && format == 1:
		cov := o.covTable(o.off(pos, pos+2))
		n := o.u16(pos + 4)
		o.need(n, len(cov), "sequences", pos)
		o.mark(pos, pos+6+2*n, "GSUB 2.1/3.1")
		x := make([][]glyph.ID, n)
		for i := range x {
			p := o.off(pos, pos+6+2*i)
			m := o.u16(p)
			x[i] = o.gids(p+2, m)
			o.mark(p, p+2+2*m, "sequence")
		}
		if tp == 2 {
			return &gtab.Gsub2_1{Cov: cov, Repl: x}
		}
		return &gtab.Gsub3_1{Cov: cov, Alternates: x}
	case tp == 4 && format == 1:
		cov := o.covTable(o.off(pos, pos+2))
		n := o.u16(pos + 4)
		o.need(n, len(cov), "ligature sets", pos)
		o.mark(pos, pos+6+2*n, "GSUB 4.1")
		x := make([][]gtab.Ligature, n)
		for i := range x {
			p := o.off(pos, pos+6+2*i)
			m := o.u16(p)
			o.mark(p, p+2+2*m, "ligature set")
			for j := 0; j < m; j++ {
				q := o.off(p, p+2+2*j)
				k := o.u16(q+2) - 1
				if k < 0 {
					o.fail("ligature at %d without components", q)
				}
				o.mark(q, q+4+2*k, "ligature")
				x[i] = append(x[i], gtab.Ligature{Out: glyph.ID(o.u16(q)), In: o.gids(q+4, k)})
			}
		}
		return &gtab.Gsub4_1{Cov: cov, Repl: x}
	case tp == 5 || tp == 6:
		return o.context(format, pos, tp == 6)
	case tp == 8 && format == 1:
		l := &gtab.Gsub8_1{Input: o.covTable(o.off(pos, pos+2))}
		p := pos + 4
		for _, dst := range []*[]coverage.Table{&l.Backtrack, &l.Lookahead} {
			n := o.u16(p)
			for i := 0; i < n; i++ {
				*dst = append(*dst, o.covTable(o.off(pos, p+2+2*i)))
			}
			p += 2 + 2*n
		}
		n := o.u16(p)
		o.need(n, len(l.Input), "substitutes", pos)
		l.SubstituteGlyphIDs = o.gids(p+2, n)
		o.mark(pos, p+2+2*n, "GSUB 8.1")
		return l
	}
	o.fail("GSUB %d.%d at %d", tp, format, pos)
	return nil
}

func (o *otReader) gpos(tp, pos int) gtab.Subtable {
	format := o.u16(pos)
	switch {
	case tp == 1 && format == 1:
		v, end := o.value(pos+6, o.u16(pos+4))
		o.mark(pos, end, "GPOS 1.1")
		return &gtab.Gpos1_1{Cov: o.covTable(o.off(pos, pos+2)), Adjust: v}
	case tp == 1 && format == 2:
		cov := o.covTable(o.off(pos, pos+2))
		n := o.u16(pos + 6)
		o.need(n, len(cov), "values", pos)
		x := make([]*gtab.GposValueRecord, n)
		p := pos + 8
		for i := range x {
			x[i], p = o.value(p, o.u16(pos+4))
		}
		o.mark(pos, p, "GPOS 1.2")
		return &gtab.Gpos1_2{Cov: cov, Adjust: x}
	case tp == 2 && format == 1:
		cov := o.coverage(o.off(pos, pos+2))
		f1, f2, n := o.u16(pos+4), o.u16(pos+6), o.u16(pos+8)
		o.need(n, len(cov), "pair sets", pos)
		o.mark(pos, pos+10+2*n, "GPOS 2.1")
		l := gtab.Gpos2_1{}
		for i, left := range cov {
			p := o.off(pos, pos+10+2*i)
			m := o.u16(p)
			q := p + 2
			prev := -1
			for ; m > 0; m-- {
				right := o.u16(q)
				if right <= prev {
					o.fail("pair set at %d not sorted", p)
				}
				prev = right
				a := &gtab.PairAdjust{}
				a.First, q = o.value(q+2, f1)
				a.Second, q = o.value(q, f2)
				l[glyph.Pair{Left: left, Right: glyph.ID(right)}] = a
			}
			o.mark(p, q, "pair set")
		}
		return l
	case tp == 2 && format == 2:
		f1, f2 := o.u16(pos+4), o.u16(pos+6)
		l := &gtab.Gpos2_2{Cov: o.covSet(o.off(pos, pos+2)), Class1: o.classDef(o.off(pos, pos+8)), Class2: o.classDef(o.off(pos, pos+10))}
		l.Adjust = make([][]*gtab.PairAdjust, o.u16(pos+12))
		p := pos + 16
		for i := range l.Adjust {
			l.Adjust[i] = make([]*gtab.PairAdjust, o.u16(pos+14))
			for j := range l.Adjust[i] {
				a := &gtab.PairAdjust{}
				a.First, p = o.value(p, f1)
				a.Second, p = o.value(p, f2)
				l.Adjust[i][j] = a
			}
		}
		o.mark(pos, p, "GPOS 2.2")
		return l
	case tp == 3 && format == 1:
		cov := o.covTable(o.off(pos, pos+2))
		n := o.u16(pos + 4)
		o.need(n, len(cov), "entry/exit records", pos)
		o.mark(pos, pos+6+4*n, "GPOS 3.1")
		x := make([]gtab.EntryExitRecord, n)
		for i := range x {
			if o.u16(pos+6+4*i) != 0 {
				x[i].Entry = o.anchor(o.off(pos, pos+6+4*i))
			}
			if o.u16(pos+8+4*i) != 0 {
				x[i].Exit = o.anchor(o.off(pos, pos+8+4*i))
			}
		}
		return &gtab.Gpos3_1{Cov: cov, Records: x}
	case tp >= 4 && tp <= 6 && format == 1:
		o.mark(pos, pos+12, "GPOS 4/5/6")
		c1, c2, nc := o.covTable(o.off(pos, pos+2)), o.covTable(o.off(pos, pos+4)), o.u16(pos+6)
		marks := o.markArray(o.off(pos, pos+8))
		o.need(len(marks), len(c1), "marks", pos)
		for _, m := range marks {
			if int(m.Class) >= nc {
				o.fail("mark class %d, %d classes", m.Class, nc)
			}
		}
		ap := o.off(pos, pos+10)
		if tp != 5 {
			m := o.anchorMatrix(ap, nc)
			o.need(len(m), len(c2), "bases", pos)
			if tp == 4 {
				return &gtab.Gpos4_1{MarkCov: c1, BaseCov: c2, MarkArray: marks, BaseArray: m}
			}
			return &gtab.Gpos6_1{Mark1Cov: c1, Mark2Cov: c2, Mark1Array: marks, Mark2Array: m}
		}
		n := o.u16(ap)
		o.need(n, len(c2), "ligatures", pos)
		o.mark(ap, ap+2+2*n, "ligature array")
		l := &gtab.Gpos5_1{MarkCov: c1, LigCov: c2, MarkArray: marks}
		for i := 0; i < n; i++ {
			l.LigArray = append(l.LigArray, o.anchorMatrix(o.off(ap, ap+2+2*i), nc))
		}
		return l
	case tp == 7 || tp == 8:
		return o.context(format, pos, tp == 8)
	}
	o.fail("GPOS %d.%d at %d", tp, format, pos)
	return nil
}

type otLangSys struct {
	script, lang string // lang is empty for the default
	feat         gtab.Features
}

// otTable is a parsed GSUB or GPOS table.
type otTable struct {
	langs    []otLangSys
	features gtab.FeatureListInfo
	lookups  gtab.LookupList
	ext      int // number of extension subtables
}

func (o *otReader) langSys(pos int, script, lang string) otLangSys {
	if o.u16(pos) != 0 {
		o.fail("lookup order offset at %d", pos)
	}
	n := o.u16(pos + 4)
	o.mark(pos, pos+6+2*n, "LangSys")
	f := gtab.Features{Required: gtab.FeatureIndex(o.u16(pos + 2))}
	for _, i := range o.u16s(pos+6, n) {
		f.Optional = append(f.Optional, gtab.FeatureIndex(i))
	}
	return otLangSys{script, lang, f}
}

func (o *otReader) tag(pos int) string {
	o.u16(pos + 2)
	return string(o.b[pos : pos+4])
}

func (o *otReader) table(gpos bool) (t otTable) {
	if o.u32(0) != 0x00010000 {
		o.fail("version %#x", o.u32(0))
	}
	o.mark(0, 10, "header")
	sp, fp, lp := o.u16(4), o.u16(6), o.u16(8)
	if sp == 0 && fp == 0 && lp == 0 {
		return t
	}
	if sp != 0 && o.u16(sp) == 0 && fp == 0 && lp == 0 {
		o.mark(sp, sp+2, "script list")
		return t
	}
	if sp == 0 || fp == 0 || lp == 0 {
		o.fail("null offset in header")
	}
	n := o.u16(sp)
	o.mark(sp, sp+2+6*n, "script list")
	prev := ""
	for i := 0; i < n; i++ {
		script := o.tag(sp + 2 + 6*i)
		if script <= prev {
			o.fail("script list not sorted")
		}
		prev = script
		p := o.off(sp, sp+6+6*i)
		m := o.u16(p + 2)
		o.mark(p, p+4+6*m, "script")
		if o.u16(p) != 0 {
			t.langs = append(t.langs, o.langSys(o.off(p, p), script, ""))
		}
		pl := ""
		for j := 0; j < m; j++ {
			lang := o.tag(p + 4 + 6*j)
			if lang <= pl {
				o.fail("languages of %q not sorted", script)
			}
			pl = lang
			t.langs = append(t.langs, o.langSys(o.off(p, p+8+6*j), script, lang))
		}
	}
	n = o.u16(fp)
	o.mark(fp, fp+2+6*n, "feature list")
	for i := 0; i < n; i++ {
		p := o.off(fp, fp+6+6*i)
		if o.u16(p) != 0 {
			o.fail("feature parameters")
		}
		m := o.u16(p + 2)
		o.mark(p, p+4+2*m, "feature")
		f := &gtab.Feature{Tag: o.tag(fp + 2 + 6*i)}
		for _, x := range o.u16s(p+4, m) {
			f.Lookups = append(f.Lookups, gtab.LookupIndex(x))
		}
		t.features = append(t.features, f)
	}
	n = o.u16(lp)
	o.mark(lp, lp+2+2*n, "lookup list")
	extType := 7
	if gpos {
		extType = 9
	}
	for i := 0; i < n; i++ {
		p := o.off(lp, lp+2+2*i)
		tp, flags, m := o.u16(p), o.u16(p+2), o.u16(p+4)
		l := &gtab.LookupTable{Meta: &gtab.LookupMetaInfo{LookupType: uint16(tp), LookupFlags: gtab.LookupFlags(flags)}}
		end := p + 6 + 2*m
		if flags&0x10 != 0 {
			l.Meta.MarkFilteringSet = uint16(o.u16(end))
			end += 2
		}
		o.mark(p, end, "lookup")
		for j := 0; j < m; j++ {
			q := o.off(p, p+6+2*j)
			real := tp
			if tp == extType {
				if o.u16(q) != 1 {
					o.fail("extension format at %d", q)
				}
				o.mark(q, q+8, "extension")
				t.ext++
				real = o.u16(q + 2)
				if real == extType || j > 0 && int(l.Meta.LookupType) != real {
					o.fail("extension type %d at %d", real, q)
				}
				l.Meta.LookupType = uint16(real)
				q += o.u32(q + 4)
			}
			if gpos {
				l.Subtables = append(l.Subtables, o.gpos(real, q))
			} else {
				l.Subtables = append(l.Subtables, o.gsub(real, q))
			}
		}
		t.lookups = append(t.lookups, l)
	}
	return t
}

func (o *otReader) gdef() *gdef.Table {
	t := &gdef.Table{}
	v := o.u32(0)
	if v != 0x00010000 && v != 0x00010002 {
		o.fail("GDEF version %#x", v)
	}
	if o.u16(4) != 0 {
		t.GlyphClass = o.classDef(o.u16(4))
	}
	if o.u16(10) != 0 {
		t.MarkAttachClass = o.classDef(o.u16(10))
	}
	if o.u16(6) != 0 || o.u16(8) != 0 {
		o.fail("unexpected offsets")
	}
	o.mark(0, 12, "header")
	if v == 0x00010002 {
		o.mark(12, 14, "header")
		if p := o.u16(12); p != 0 {
			if o.u16(p) != 1 {
				o.fail("mark glyph sets format")
			}
			n := o.u16(p + 2)
			o.mark(p, p+4+4*n, "mark glyph sets")
			t.MarkGlyphSets = []coverage.Set{}
			for i := 0; i < n; i++ {
				t.MarkGlyphSets = append(t.MarkGlyphSets, o.covSet(p+o.u32(p+4+4*i)))
			}
		}
	}
	return t
}

// checkSpans verifies that structures do not overlap and that they fill the
// table.
func (o *otReader) checkSpans() {
	sort.Slice(o.span, func(i, j int) bool { return o.span[i].from < o.span[j].from })
	end := 0
	for i, s := range o.span {
		if s.from < end {
			o.fail("%s at %d..%d overlaps %s at %d..%d", s.what, s.from, s.to, o.span[i-1].what, o.span[i-1].from, o.span[i-1].to)
		}
		if s.from > end {
			o.fail("unused bytes %d..%d before %s", end, s.from, s.what)
		}
		end = s.to
	}
	if end != len(o.b) {
		o.fail("unused bytes %d..%d at the end", end, len(o.b))
	}
}

// refParse runs f and returns the error, if any.
func refParse(f func()) (msg string) {
	defer func() {
		if r := recover(); r != nil {
			e, ok := r.(otError)
			if !ok {
				panic(r)
			}
			msg = string(e)
		}
	}()
	f()
	return ""
}
