package main

import (
	"fmt"
	"math/rand"
	"regexp"
	"runtime"
	"sort"
	"strconv"
	"strings"
	"time"
	"unicode"

	"seehuhn.de/go/postscript/funit"
	"seehuhn.de/go/postscript/type1"

	"seehuhn.de/go/sfnt"
	"seehuhn.de/go/sfnt/cff"
	"seehuhn.de/go/sfnt/cmap"
	"seehuhn.de/go/sfnt/glyf"
	"seehuhn.de/go/sfnt/glyph"
	"seehuhn.de/go/sfnt/opentype/anchor"
	"seehuhn.de/go/sfnt/opentype/classdef"
	"seehuhn.de/go/sfnt/opentype/coverage"
	"seehuhn.de/go/sfnt/opentype/gtab"
	"seehuhn.de/go/sfnt/opentype/gtab/builder"
	"seehuhn.de/go/sfnt/opentype/markarray"
)

// Property C19: the lookup description language.
//
//   - canonical lookup lists: Parse(Explain(l)) == l
//   - texts written by an independent printer: Parse(print(l)) == l
//   - texts with one error: an error with the right line number
//   - arbitrary texts: lookups or an error with a line number; no panic, no
//     deadlock, no goroutine left behind.

func init() { register("C19", c19) }

type c19Case struct {
	w     *W
	r     *rand.Rand
	f     *sfnt.Font
	n     int
	ident map[glyph.ID]string // names which can be used in a text
	runes map[glyph.ID][]rune // characters which can be used in a text
	free  []rune              // characters which are not mapped
	cmap  bool
}

var c19Words = []string{"class", "inputclass", "backtrackclass", "lookaheadclass", "x", "y", "dx", "_", "to", "first", "second", "mark", "base", "GSUB1", "GPOS2", "marks", "ligs", "rtl"}
var c19Odd = []string{"a-b", "17", "0", "3", "foo bar", "x+1", "a->b", "é", "ß.alt", "a\"b", "A,B", "#hash", "1.0", ".", "..", "A1", "_a", "-", "uni00A0", "日本", "[", "||", "٣", "a٣"}
var c19Odder = []rune{' ', '"', '\\', '\n', '\t', '\r', 0, 1, 7, 0x7f, 0xa0, 0xad, 0x301, 0x308, 0x200b, 0x200d, 0x2028, 0xfeff, 0xfffd, 0xfffe, 0xffff, '#', '-', '|', '[', ']', ',', ';', '\'', 'n', 'r', 't', 'u', 'x', '0', '7', 'é', 'ß', '日', '٣', 0x10000, 0x1f600, 0xe0001, 0x10fffd, 0x10ffff}

var c19Identifier = regexp.MustCompile(`^[\pL._][\pL\p{Nd}._]*$`)

// c19Font makes a font with glyph names and characters.
func c19Font(w *W, r *rand.Rand) *c19Case {
	c := &c19Case{w: w, r: r, n: 1 + r.Intn(60), ident: map[glyph.ID]string{}, runes: map[glyph.ID][]rune{}}
	switch r.Intn(8) {
	case 0:
		c.n = 1 + r.Intn(6)
	case 1:
		c.n = 1 + r.Intn(400)
	}
	n := c.n
	names := make([]string, n)
	style := r.Intn(6)
	for i := range names {
		switch {
		case style == 0: // no names
		case i == 0:
			names[i] = ".notdef"
		case style <= 2 && i <= 26:
			names[i] = string(rune('A' + i - 1))
		case style <= 2 && i <= 52:
			names[i] = string(rune('a' + i - 27))
		case style == 3 && r.Intn(3) == 0:
			names[i] = c19Words[r.Intn(len(c19Words))]
		case style == 4 && r.Intn(2) == 0:
			names[i] = c19Odd[r.Intn(len(c19Odd))]
		case style == 5 && r.Intn(3) == 0:
			names[i] = ""
		default:
			names[i] = fmt.Sprintf("g%d", i)
		}
	}
	if style != 0 && r.Intn(6) == 0 {
		names[r.Intn(n)] = names[r.Intn(n)] // two glyphs with the same name
	}
	count := map[string]int{}
	for _, s := range names {
		count[s]++
	}
	for i, s := range names {
		bad := count[s] > 1 || !c19Identifier.MatchString(s)
		for _, k := range c19Words {
			bad = bad || s == k
		}
		if !bad {
			c.ident[glyph.ID(i)] = s
		}
	}
	f := &sfnt.Font{FamilyName: "Test", UnitsPerEm: 1000}
	if r.Intn(2) == 0 {
		o := &glyf.Outlines{Glyphs: make(glyf.Glyphs, n), Widths: make([]funit.Int16, n), Names: names}
		if style == 0 && r.Intn(2) == 0 {
			o.Names = nil
		}
		f.Outlines = o
	} else {
		o := &cff.Outlines{Private: []*type1.PrivateDict{{}}, FDSelect: func(glyph.ID) int { return 0 }, Encoding: make([]glyph.ID, 256)}
		for i := range names {
			o.Glyphs = append(o.Glyphs, cff.NewGlyph(names[i], 500))
		}
		f.Outlines = o
	}
	c.f = f

	m4, m12 := cmap.Format4{}, cmap.Format12{}
	set := func(u rune, g int) {
		if u < 0xffff {
			m4[uint16(u)] = glyph.ID(g)
		}
		m12[uint32(u)] = glyph.ID(g)
	}
	kind := r.Intn(6)
	if kind > 0 {
		for i := 1; i < n && i <= 52; i++ {
			u := rune('A' + i - 1)
			if i > 26 {
				u = rune('a' + i - 27)
			}
			if kind < 3 || r.Intn(2) == 0 {
				set(u, i)
			}
		}
		limit := rune([]int{0x400, 0x400, 0x400, 0x400, 0x10000, 0x110000}[r.Intn(6)])
		for k := r.Intn(n + 1); k > 0 && kind != 1 && n > 1; k-- {
			u := c19Odder[r.Intn(len(c19Odder))]
			if r.Intn(3) == 0 || u >= limit {
				u = rune(r.Intn(min(0x3000, int(limit))))
			}
			set(u, 1+r.Intn(n-1))
		}
		if r.Intn(10) == 0 {
			set('!', n+r.Intn(3)) // a glyph which does not exist
		}
		f.CMapTable = cmap.Table{}
		if r.Intn(4) > 0 || kind == 1 {
			f.CMapTable[cmap.Key{PlatformID: 3, EncodingID: 1}] = m4.Encode(0)
		} else {
			f.CMapTable[cmap.Key{PlatformID: 3, EncodingID: 10}] = m12.Encode(0)
		}
	}
	if best, err := f.CMapTable.GetBest(); err == nil {
		c.cmap = true
		for _, u := range append(append([]rune(nil), c19Odder...), []rune("ABCDEFGHIJKLMNOPQRSTUVWXYZabcdefghijklmnopqrstuvwxyz")...) {
			g := best.Lookup(u)
			if g == 0 {
				if unicode.IsLetter(u) {
					c.free = append(c.free, u)
				}
				continue
			}
			if u != 0 && int(g) < n {
				c.runes[g] = append(c.runes[g], u)
			}
		}
	}
	return c
}

func (c *c19Case) gid() glyph.ID { return glyph.ID(c.r.Intn(c.n)) }

// list makes a sequence of glyphs, often with ranges.
func (c *c19Case) list(lo, hi int) []glyph.ID {
	k := lo + c.r.Intn(hi-lo+1)
	var res []glyph.ID
	for len(res) < k {
		g := c.gid()
		res = append(res, g)
		d := 1
		if c.r.Intn(2) == 0 {
			d = -1
		}
		for c.r.Intn(3) > 0 && len(res) < k && int(g)+d >= 0 && int(g)+d < c.n {
			g = glyph.ID(int(g) + d)
			res = append(res, g)
		}
	}
	return res
}

func (c *c19Case) set(lo, hi int) []glyph.ID {
	l := c.list(lo, hi)
	sort.Slice(l, func(i, j int) bool { return l[i] < l[j] })
	var res []glyph.ID
	for i, g := range l {
		if i == 0 || g != l[i-1] {
			res = append(res, g)
		}
	}
	return res
}

func c19Cov(l []glyph.ID) coverage.Table {
	s := append([]glyph.ID(nil), l...)
	sort.Slice(s, func(i, j int) bool { return s[i] < s[j] })
	t := coverage.Table{}
	for _, g := range s {
		if _, ok := t[g]; !ok {
			t[g] = len(t)
		}
	}
	return t
}

func c19Set(l []glyph.ID) coverage.Set {
	t := coverage.Set{}
	for _, g := range l {
		t[g] = true
	}
	return t
}

func (c *c19Case) num(bits int) int {
	r := c.r
	m := 1 << bits
	switch r.Intn(6) {
	case 0:
		return -m
	case 1:
		return m - 1
	case 2:
		return 0
	}
	return r.Intn(200) - 100
}

func (c *c19Case) val() *gtab.GposValueRecord {
	v := &gtab.GposValueRecord{}
	if c.r.Intn(2) == 0 {
		v.XPlacement = funit.Int16(c.num(15))
	}
	if c.r.Intn(3) == 0 {
		v.YPlacement = funit.Int16(c.num(15))
	}
	if c.r.Intn(2) == 0 {
		v.XAdvance = funit.Int16(c.num(15))
	}
	if *v == (gtab.GposValueRecord{}) {
		return nil
	}
	return v
}

func (c *c19Case) pair() *gtab.PairAdjust {
	p := &gtab.PairAdjust{First: c.val()}
	if c.r.Intn(3) == 0 {
		p.Second = c.val()
	}
	return p
}

func (c *c19Case) actions() []gtab.SeqLookup {
	var res []gtab.SeqLookup
	for k := c.r.Intn(4); k > 0; k-- {
		a := gtab.SeqLookup{SequenceIndex: uint16(c.r.Intn(4)), LookupListIndex: gtab.LookupIndex(c.r.Intn(12))}
		if c.r.Intn(10) == 0 {
			a = gtab.SeqLookup{SequenceIndex: uint16(65535 - c.r.Intn(2)), LookupListIndex: gtab.LookupIndex(65535 - c.r.Intn(2))}
		}
		res = append(res, a)
	}
	return res
}

func (c *c19Case) classes(max int) (classdef.Table, int) {
	t := classdef.Table{}
	k := 0
	for i := c.r.Intn(max + 1); i > 0; i-- {
		found := false
		for _, g := range c.list(1, 4) {
			if _, ok := t[g]; !ok {
				t[g] = uint16(k + 1)
				found = true
			}
		}
		if found {
			k++
		}
	}
	return t, k + 1
}

func (c *c19Case) clsSeq(n, lo, hi int) []uint16 {
	var res []uint16
	for k := lo + c.r.Intn(hi-lo+1); k > 0; k-- {
		res = append(res, uint16(c.r.Intn(n)))
	}
	return res
}

func (c *c19Case) sets(lo, hi int) []coverage.Set {
	var res []coverage.Set
	for k := lo + c.r.Intn(hi-lo+1); k > 0; k-- {
		res = append(res, c19Set(c.set(0, 4)))
	}
	return res
}

func (c *c19Case) flags() gtab.LookupFlags {
	var fl gtab.LookupFlags
	if c.r.Intn(2) == 0 {
		for _, x := range []gtab.LookupFlags{gtab.IgnoreMarks, gtab.IgnoreLigatures, gtab.IgnoreBaseGlyphs, gtab.RightToLeft} {
			if c.r.Intn(2) == 0 {
				fl |= x
			}
		}
	}
	return fl
}

// subtable makes a subtable in the form which the language can express.
func (c *c19Case) subtable(kind string) gtab.Subtable {
	r := c.r
	switch kind {
	case "GSUB1":
		from := c.set(1, 8)
		cov := c19Cov(from)
		if r.Intn(2) == 0 {
			hi := int(from[len(from)-1])
			d := -r.Intn(int(from[0]) + 1)
			if r.Intn(2) == 0 {
				d = r.Intn(c.n - hi)
			}
			return &gtab.Gsub1_1{Cov: cov.ToSet(), Delta: glyph.ID(d)}
		}
		s := &gtab.Gsub1_2{Cov: cov}
		for range from {
			s.SubstituteGlyphIDs = append(s.SubstituteGlyphIDs, c.gid())
		}
		if r.Intn(2) == 0 { // runs
			for i := 1; i < len(from); i++ {
				if from[i] == from[i-1]+1 && r.Intn(4) > 0 {
					if t := s.SubstituteGlyphIDs[i-1] + 1; int(t) < c.n {
						s.SubstituteGlyphIDs[i] = t
					}
				}
			}
		}
		same := true
		for i, g := range from {
			same = same && s.SubstituteGlyphIDs[i]-g == s.SubstituteGlyphIDs[0]-from[0]
		}
		if same {
			return &gtab.Gsub1_1{Cov: cov.ToSet(), Delta: s.SubstituteGlyphIDs[0] - from[0]}
		}
		return s
	case "GSUB2":
		from := c.set(1, 5)
		s := &gtab.Gsub2_1{Cov: c19Cov(from)}
		for range from {
			s.Repl = append(s.Repl, c.list(1, 4))
		}
		return s
	case "GSUB3":
		from := c.set(1, 5)
		s := &gtab.Gsub3_1{Cov: c19Cov(from)}
		for range from {
			s.Alternates = append(s.Alternates, c.set(0, 5))
		}
		return s
	case "GSUB4":
		from := c.set(1, 6)
		s := &gtab.Gsub4_1{Cov: c19Cov(from)}
		short := r.Intn(2) == 0
		for _, g := range from {
			var ll []gtab.Ligature
			for k := 1 + r.Intn(3); k > 0; k-- {
				l := gtab.Ligature{In: c.list(0, 3), Out: c.gid()}
				if short && r.Intn(3) > 0 {
					l.In = nil
					if int(g)+1 < c.n {
						l.Out = g + 1
					}
					k = 1
				}
				ll = append(ll, l)
			}
			s.Repl = append(s.Repl, ll)
		}
		return s
	case "5.1":
		from := c.set(1, 4)
		s := &gtab.SeqContext1{Cov: c19Cov(from)}
		for range from {
			var rr []*gtab.SeqRule
			for k := 1 + r.Intn(3); k > 0; k-- {
				rr = append(rr, &gtab.SeqRule{Input: c.list(0, 3), Actions: c.actions()})
			}
			s.Rules = append(s.Rules, rr)
		}
		return s
	case "5.2":
		s := &gtab.SeqContext2{Cov: c19Cov(c.set(0, 6))}
		var n int
		s.Input, n = c.classes(4)
		s.Rules = make([][]*gtab.ClassSeqRule, n)
		for k := 1 + r.Intn(4); k > 0; k-- {
			i := r.Intn(n)
			s.Rules[i] = append(s.Rules[i], &gtab.ClassSeqRule{Input: c.clsSeq(n, 0, 3), Actions: c.actions()})
		}
		return s
	case "5.3":
		return &gtab.SeqContext3{Input: c.sets(1, 4), Actions: c.actions()}
	case "6.1":
		from := c.set(1, 4)
		s := &gtab.ChainedSeqContext1{Cov: c19Cov(from)}
		for range from {
			var rr []*gtab.ChainedSeqRule
			for k := 1 + r.Intn(3); k > 0; k-- {
				rr = append(rr, &gtab.ChainedSeqRule{Backtrack: c.list(0, 3), Input: c.list(0, 3), Lookahead: c.list(0, 3), Actions: c.actions()})
			}
			s.Rules = append(s.Rules, rr)
		}
		return s
	case "6.2":
		s := &gtab.ChainedSeqContext2{Cov: c19Cov(c.set(0, 6))}
		var nb, ni, nl int
		s.Backtrack, nb = c.classes(3)
		s.Input, ni = c.classes(3)
		s.Lookahead, nl = c.classes(3)
		s.Rules = make([][]*gtab.ChainedClassSeqRule, ni)
		for k := 1 + r.Intn(4); k > 0; k-- {
			i := r.Intn(ni)
			s.Rules[i] = append(s.Rules[i], &gtab.ChainedClassSeqRule{Backtrack: c.clsSeq(nb, 0, 3), Input: c.clsSeq(ni, 0, 3), Lookahead: c.clsSeq(nl, 0, 3), Actions: c.actions()})
		}
		return s
	case "6.3":
		return &gtab.ChainedSeqContext3{Backtrack: c.sets(0, 3), Input: c.sets(1, 3), Lookahead: c.sets(0, 3), Actions: c.actions()}
	case "GPOS1.1":
		return &gtab.Gpos1_1{Cov: c19Cov(c.set(0, 6)), Adjust: c.val()}
	case "GPOS1.2":
		from := c.set(1, 6)
		s := &gtab.Gpos1_2{Cov: c19Cov(from)}
		for range from {
			s.Adjust = append(s.Adjust, c.val())
		}
		return s
	case "GPOS2.1":
		s := gtab.Gpos2_1{}
		for k := 1 + r.Intn(6); k > 0; k-- {
			s[glyph.Pair{Left: c.gid(), Right: c.gid()}] = c.pair()
		}
		return s
	case "GPOS2.2":
		s := &gtab.Gpos2_2{Cov: c19Set(c.set(0, 6))}
		var n1, n2 int
		s.Class1, n1 = c.classes(3)
		s.Class2, n2 = c.classes(3)
		for i := 0; i < n1; i++ {
			var row []*gtab.PairAdjust
			for j := 0; j < n2; j++ {
				row = append(row, c.pair())
			}
			s.Adjust = append(s.Adjust, row)
		}
		return s
	case "GPOS3":
		from := c.set(1, 5)
		s := &gtab.Gpos3_1{Cov: c19Cov(from)}
		for range from {
			s.Records = append(s.Records, gtab.EntryExitRecord{Entry: c.anchor(), Exit: c.anchor()})
		}
		return s
	case "GPOS4":
		marks := c.set(0, 5)
		s := &gtab.Gpos4_1{MarkCov: c19Cov(marks)}
		nc := 0
		for range marks {
			cls := nc
			if nc > 0 && r.Intn(2) == 0 {
				cls = r.Intn(nc)
			}
			nc = max(nc, cls+1)
			s.MarkArray = append(s.MarkArray, markarray.Record{Class: uint16(cls), Table: c.anchor()})
		}
		r.Shuffle(len(s.MarkArray), func(i, j int) { s.MarkArray[i], s.MarkArray[j] = s.MarkArray[j], s.MarkArray[i] })
		bases := c.set(0, 4)
		s.BaseCov = c19Cov(bases)
		for range bases {
			row := make([]anchor.Table, nc)
			for j := range row {
				row[j] = c.anchor()
			}
			s.BaseArray = append(s.BaseArray, row)
		}
		return s
	}
	panic(kind)
}

func (c *c19Case) anchor() anchor.Table {
	return anchor.Table{X: funit.Int16(c.num(15)), Y: funit.Int16(c.num(15))}
}

var c19Kinds = map[bool][][]string{
	false: {{"GSUB1"}, {"GSUB2"}, {"GSUB3"}, {"GSUB4"}, {"5.1", "5.2", "5.3"}, {"6.1", "6.2", "6.3"}},
	true:  {{"GPOS1.1", "GPOS1.2"}, {"GPOS2.1", "GPOS2.2"}, {"GPOS3"}, {"GPOS4"}},
}

func (c *c19Case) lookup(gpos bool) *gtab.LookupTable {
	kk := c19Kinds[gpos]
	tp := c.r.Intn(len(kk))
	l := &gtab.LookupTable{Meta: &gtab.LookupMetaInfo{LookupType: uint16(tp + 1), LookupFlags: c.flags()}}
	n := 1
	if gpos || tp >= 4 {
		n += c.r.Intn(3)
	}
	for ; n > 0; n-- {
		l.Subtables = append(l.Subtables, c.subtable(kk[tp][c.r.Intn(len(kk[tp]))]))
	}
	return l
}

func (c *c19Case) lookups(gpos bool) gtab.LookupList {
	var res gtab.LookupList
	for k := 1 + c.r.Intn(3); k > 0; k-- {
		res = append(res, c.lookup(gpos))
	}
	return res
}

// printer ---------------------------------------------------------------

// c19Text collects tokens.
type c19Text struct {
	b    strings.Builder
	r    *rand.Rand
	last byte
	line int
}

func (t *c19Text) raw(s string) {
	t.b.WriteString(s)
	t.last = s[len(s)-1]
}

// tok adds a token, separated by white space if needed (or at random).
func (t *c19Text) tok(s string) {
	sep := ""
	single := func(b byte) bool { return strings.IndexByte(",;:[]@/&=\n", b) >= 0 }
	if t.last != 0 && !single(t.last) && !single(s[0]) || t.r.Intn(2) == 0 {
		sep = []string{" ", " ", "  ", "\t", "\u00a0", " \r"}[t.r.Intn(6)]
	}
	t.b.WriteString(sep)
	t.raw(s)
}

// eol is a place where one line break is allowed.
func (t *c19Text) eol() {
	if t.r.Intn(3) == 0 {
		t.newline()
	}
}

func (t *c19Text) newline() {
	if t.r.Intn(3) == 0 {
		t.b.WriteString(" # comment GSUB1: A -> \"B" + string(rune('a'+t.r.Intn(26))))
	}
	t.raw("\n")
	t.line++
}

func c19Quote(rr []rune) string {
	var b strings.Builder
	b.WriteByte('"')
	for _, u := range rr {
		switch u {
		case '"', '\\':
			b.WriteByte('\\')
			b.WriteRune(u)
		case '\n':
			b.WriteString(`\n`)
		case '\r':
			b.WriteString(`\r`)
		case '\t':
			b.WriteString(`\t`)
		default:
			b.WriteRune(u)
		}
	}
	b.WriteByte('"')
	return b.String()
}

// glyph writes a single glyph.
func (c *c19Case) glyph(t *c19Text, g glyph.ID) {
	name, ok := c.ident[g]
	rr := c.runes[g]
	switch k := c.r.Intn(4); {
	case k == 0 && len(rr) > 0:
		t.tok(c19Quote(rr[c.r.Intn(len(rr)):][:1]))
	case k < 3 && ok:
		t.tok(name)
	default:
		t.tok(strconv.Itoa(int(g)))
	}
}

// glyphs writes a sequence of glyphs.
func (c *c19Case) glyphs(t *c19Text, l []glyph.ID) {
	for i := 0; i < len(l); {
		// a range?
		j := i + 1
		if j < len(l) {
			d := int(l[j]) - int(l[i])
			if d == 1 || d == -1 {
				for j < len(l) && int(l[j])-int(l[j-1]) == d {
					j++
				}
			}
		}
		if j-i > 2 && c.r.Intn(3) > 0 {
			j = i + 2 + c.r.Intn(j-i-1)
			c.glyph(t, l[i])
			sep := " "
			if c.r.Intn(2) == 0 {
				sep = ""
			}
			t.raw(sep + "-")
			// no white space is needed after the hyphen
			if sep == " " || c.r.Intn(2) == 0 {
				t.raw(" ")
			}
			save := t.last
			t.last = ','
			c.glyph(t, l[j-1])
			_ = save
			i = j
			continue
		}
		// a string?
		if len(c.runes[l[i]]) > 0 && c.r.Intn(3) == 0 {
			var rr []rune
			for i < len(l) && len(c.runes[l[i]]) > 0 && (len(rr) == 0 || c.r.Intn(4) > 0) {
				rr = append(rr, c.runes[l[i]][c.r.Intn(len(c.runes[l[i]]))])
				i++
			}
			t.tok(c19Quote(rr))
			continue
		}
		c.glyph(t, l[i])
		i++
	}
}

func (c *c19Case) gset(t *c19Text, l []glyph.ID) {
	l = append([]glyph.ID(nil), l...)
	switch c.r.Intn(3) {
	case 0:
		c.r.Shuffle(len(l), func(i, j int) { l[i], l[j] = l[j], l[i] })
	case 1:
		if len(l) > 0 {
			l = append(l, l[c.r.Intn(len(l))])
		}
	}
	t.tok("[")
	c.glyphs(t, l)
	t.tok("]")
}

func (c *c19Case) int(t *c19Text, x int) {
	if c.r.Intn(2) == 0 && x >= 0 {
		t.tok(fmt.Sprintf("+%d", x))
	} else {
		t.tok(strconv.Itoa(x))
	}
}

func (c *c19Case) value(t *c19Text, v *gtab.GposValueRecord) {
	if v == nil {
		t.tok("_")
		return
	}
	type kv struct {
		k string
		v funit.Int16
	}
	var parts []kv
	for _, p := range []kv{{"x", v.XPlacement}, {"y", v.YPlacement}, {"dx", v.XAdvance}} {
		if p.v != 0 || c.r.Intn(5) == 0 {
			parts = append(parts, p)
		}
	}
	c.r.Shuffle(len(parts), func(i, j int) { parts[i], parts[j] = parts[j], parts[i] })
	for _, p := range parts {
		t.tok(p.k)
		if c.r.Intn(2) == 0 {
			t.raw(fmt.Sprintf("%+d", p.v))
		} else {
			c.int(t, int(p.v))
		}
	}
}

func (c *c19Case) pairAdj(t *c19Text, p *gtab.PairAdjust) {
	c.value(t, p.First)
	if p.Second != nil || c.r.Intn(6) == 0 {
		t.tok("&")
		c.value(t, p.Second)
	}
}

func (c *c19Case) nested(t *c19Text, aa []gtab.SeqLookup) {
	for _, a := range aa {
		t.tok(strconv.Itoa(int(a.LookupListIndex)))
		t.tok("@")
		t.tok(strconv.Itoa(int(a.SequenceIndex)))
	}
}

func (c *c19Case) comma(t *c19Text, first *bool) {
	if !*first {
		t.tok(",")
		t.eol()
	}
	*first = false
}

// defs writes class definitions in random order of the keywords, and returns
// the names of the classes.
func (c *c19Case) defs(t *c19Text, word []string, tabs []classdef.Table) [][]string {
	type def struct {
		k   int
		cls int
	}
	var dd []def
	res := make([][]string, len(tabs))
	pos := make([]int, len(tabs))
	for k, tab := range tabs {
		n := tab.NumClasses()
		res[k] = []string{""}
		for i := 1; i < n; i++ {
			dd = append(dd, def{k, i})
			res[k] = append(res[k], fmt.Sprintf("%s%d", []string{"c", "alpha", "é_", "class"}[c.r.Intn(4)], i))
		}
	}
	if c.r.Intn(2) == 0 { // keep the order inside each table only
		c.r.Shuffle(len(dd), func(i, j int) { dd[i], dd[j] = dd[j], dd[i] })
	}
	for _, d := range dd {
		pos[d.k]++
		i := pos[d.k]
		t.tok(word[d.k])
		t.tok(":")
		t.tok(res[d.k][i])
		t.tok(":")
		if c.r.Intn(3) > 0 {
			t.tok("=")
		}
		var gg []glyph.ID
		for g, cls := range tabs[d.k] {
			if int(cls) == i {
				gg = append(gg, g)
			}
		}
		sort.Slice(gg, func(i, j int) bool { return gg[i] < gg[j] })
		c.gset(t, gg)
		t.eol()
	}
	return res
}

func (c *c19Case) classNames(t *c19Text, names []string, seq []uint16) {
	for _, cls := range seq {
		t.tok(":")
		if cls != 0 {
			t.tok(names[cls])
		}
		t.tok(":")
	}
}

func c19Rev[T any](s []T) []T {
	res := make([]T, 0, len(s))
	for i := len(s) - 1; i >= 0; i-- {
		res = append(res, s[i])
	}
	return res
}

func c19Keys(m map[glyph.ID]int) []glyph.ID {
	var res []glyph.ID
	for g := range m {
		res = append(res, g)
	}
	sort.Slice(res, func(i, j int) bool { return res[i] < res[j] })
	return res
}

func c19SetKeys(m coverage.Set) []glyph.ID {
	var res []glyph.ID
	for g, ok := range m {
		if ok {
			res = append(res, g)
		}
	}
	sort.Slice(res, func(i, j int) bool { return res[i] < res[j] })
	return res
}

// print1 writes a subtable.
func (c *c19Case) print1(t *c19Text, s gtab.Subtable) {
	r := c.r
	first := true
	perm := func(n int) []int {
		if r.Intn(2) == 0 {
			return r.Perm(n)
		}
		res := make([]int, n)
		for i := range res {
			res[i] = i
		}
		return res
	}
	switch s := s.(type) {
	case *gtab.Gsub1_1, *gtab.Gsub1_2:
		var from, to []glyph.ID
		switch s := s.(type) {
		case *gtab.Gsub1_1:
			from = c19SetKeys(s.Cov)
			for _, g := range from {
				to = append(to, g+s.Delta)
			}
		case *gtab.Gsub1_2:
			from = c19Keys(s.Cov)
			to = s.SubstituteGlyphIDs
		}
		p := perm(len(from))
		for i := 0; i < len(p); {
			k := 1 + r.Intn(len(p)-i)
			var a, b []glyph.ID
			for _, j := range p[i : i+k] {
				a, b = append(a, from[j]), append(b, to[j])
			}
			i += k
			c.comma(t, &first)
			c.glyphs(t, a)
			t.tok("->")
			c.glyphs(t, b)
		}
	case *gtab.Gsub2_1:
		from := c19Keys(s.Cov)
		for _, i := range perm(len(from)) {
			c.comma(t, &first)
			c.glyphs(t, from[i:i+1])
			t.tok("->")
			c.glyphs(t, s.Repl[i])
		}
	case *gtab.Gsub3_1:
		from := c19Keys(s.Cov)
		for _, i := range perm(len(from)) {
			c.comma(t, &first)
			c.glyphs(t, from[i:i+1])
			t.tok("->")
			c.gset(t, s.Alternates[i])
		}
	case *gtab.Gsub4_1:
		from := c19Keys(s.Cov)
		for _, i := range perm(len(from)) {
			for _, l := range s.Repl[i] {
				c.comma(t, &first)
				c.glyphs(t, append(from[i:i+1:i+1], l.In...))
				t.tok("->")
				c.glyphs(t, []glyph.ID{l.Out})
			}
		}
	case *gtab.SeqContext1:
		from := c19Keys(s.Cov)
		for _, i := range perm(len(from)) {
			for _, l := range s.Rules[i] {
				c.comma(t, &first)
				c.glyphs(t, append(from[i:i+1:i+1], l.Input...))
				t.tok("->")
				c.nested(t, l.Actions)
			}
		}
	case *gtab.SeqContext2:
		names := c.defs(t, []string{"class"}, []classdef.Table{s.Input})
		t.tok("/")
		c.glyphs(t, c19Keys(s.Cov))
		t.tok("/")
		for _, i := range perm(len(s.Rules)) {
			for _, l := range s.Rules[i] {
				c.comma(t, &first)
				c.classNames(t, names[0], append([]uint16{uint16(i)}, l.Input...))
				t.tok("->")
				c.nested(t, l.Actions)
			}
		}
	case *gtab.SeqContext3:
		for _, x := range s.Input {
			c.gset(t, c19SetKeys(x))
		}
		t.tok("->")
		c.nested(t, s.Actions)
	case *gtab.ChainedSeqContext1:
		from := c19Keys(s.Cov)
		for _, i := range perm(len(from)) {
			for _, l := range s.Rules[i] {
				c.comma(t, &first)
				c.glyphs(t, c19Rev(l.Backtrack))
				t.tok("|")
				c.glyphs(t, append(from[i:i+1:i+1], l.Input...))
				t.tok("|")
				c.glyphs(t, l.Lookahead)
				t.tok("->")
				c.nested(t, l.Actions)
			}
		}
	case *gtab.ChainedSeqContext2:
		names := c.defs(t, []string{"backtrackclass", "inputclass", "lookaheadclass"}, []classdef.Table{s.Backtrack, s.Input, s.Lookahead})
		t.tok("/")
		c.glyphs(t, c19Keys(s.Cov))
		t.tok("/")
		for _, i := range perm(len(s.Rules)) {
			for _, l := range s.Rules[i] {
				c.comma(t, &first)
				c.classNames(t, names[0], c19Rev(l.Backtrack))
				t.tok("|")
				c.classNames(t, names[1], append([]uint16{uint16(i)}, l.Input...))
				t.tok("|")
				c.classNames(t, names[2], l.Lookahead)
				t.tok("->")
				c.nested(t, l.Actions)
			}
		}
	case *gtab.ChainedSeqContext3:
		for _, x := range c19Rev(s.Backtrack) {
			c.gset(t, c19SetKeys(x))
		}
		t.tok("|")
		for _, x := range s.Input {
			c.gset(t, c19SetKeys(x))
		}
		t.tok("|")
		for _, x := range s.Lookahead {
			c.gset(t, c19SetKeys(x))
		}
		t.tok("->")
		c.nested(t, s.Actions)
	case *gtab.Gpos1_1:
		c.gset(t, c19Keys(s.Cov))
		t.tok("->")
		c.value(t, s.Adjust)
	case *gtab.Gpos1_2:
		from := c19Keys(s.Cov)
		for _, i := range perm(len(from)) {
			c.comma(t, &first)
			c.glyphs(t, from[i:i+1])
			t.tok("->")
			c.value(t, s.Adjust[i])
		}
	case gtab.Gpos2_1:
		var pp []glyph.Pair
		for p := range s {
			pp = append(pp, p)
		}
		sort.Slice(pp, func(i, j int) bool {
			return pp[i].Left < pp[j].Left || pp[i].Left == pp[j].Left && pp[i].Right < pp[j].Right
		})
		for _, i := range perm(len(pp)) {
			c.comma(t, &first)
			c.glyphs(t, []glyph.ID{pp[i].Left, pp[i].Right})
			t.tok("->")
			c.pairAdj(t, s[pp[i]])
		}
	case *gtab.Gpos2_2:
		t.tok("/")
		c.glyphs(t, c19SetKeys(s.Cov))
		t.tok("/")
		t.eol()
		for k, cd := range []classdef.Table{s.Class1, s.Class2} {
			t.tok([]string{"first", "second"}[k])
			n := cd.NumClasses()
			for i := 1; i < n; i++ {
				if i > 1 {
					t.tok(",")
				}
				var gg []glyph.ID
				for g, cls := range cd {
					if int(cls) == i {
						gg = append(gg, g)
					}
				}
				sort.Slice(gg, func(i, j int) bool { return gg[i] < gg[j] })
				r.Shuffle(len(gg), func(i, j int) { gg[i], gg[j] = gg[j], gg[i] })
				c.glyphs(t, gg)
			}
			t.tok(";")
			t.eol()
		}
		for _, row := range s.Adjust {
			for j, p := range row {
				if j > 0 {
					t.tok(",")
				}
				c.pairAdj(t, p)
			}
			t.tok([]string{",", ";"}[r.Intn(2)])
			t.eol()
		}
	case *gtab.Gpos3_1:
		from := c19Keys(s.Cov)
		for _, i := range perm(len(from)) {
			if !first {
				t.tok(";")
				t.eol()
			}
			first = false
			c.glyphs(t, from[i:i+1])
			t.tok(":")
			rec := s.Records[i]
			c.int(t, int(rec.Entry.X))
			t.tok(",")
			c.int(t, int(rec.Entry.Y))
			t.tok("to")
			c.int(t, int(rec.Exit.X))
			t.tok(",")
			c.int(t, int(rec.Exit.Y))
		}
	case *gtab.Gpos4_1:
		for i, g := range c19Keys(s.MarkCov) {
			t.tok("mark")
			c.glyph(t, g)
			t.tok(":")
			rec := s.MarkArray[i]
			c.int(t, int(rec.Class))
			t.tok("@")
			c.int(t, int(rec.X))
			t.tok(",")
			c.int(t, int(rec.Y))
			t.tok(";")
			t.eol()
		}
		for i, g := range c19Keys(s.BaseCov) {
			t.tok("base")
			c.glyph(t, g)
			t.tok(":")
			for j, a := range s.BaseArray[i] {
				if j > 0 && r.Intn(2) == 0 {
					t.tok(",")
				}
				t.tok("@")
				c.int(t, int(a.X))
				t.tok(",")
				c.int(t, int(a.Y))
			}
			t.tok(";")
			t.eol()
		}
	default:
		panic("c19: unexpected subtable")
	}
}

// print writes lookups in a random surface form.
func (c *c19Case) print(t *c19Text, ll gtab.LookupList, gpos bool) {
	r := c.r
	for _, l := range ll {
		for r.Intn(4) == 0 {
			t.newline()
		}
		name := "GSUB"
		if gpos {
			name = "GPOS"
		}
		t.tok(fmt.Sprintf("%s%d", name, l.Meta.LookupType))
		if r.Intn(4) > 0 {
			t.tok(":")
		}
		t.eol()
		for _, x := range []struct {
			fl gtab.LookupFlags
			s  string
		}{{gtab.IgnoreLigatures, "ligs"}, {gtab.IgnoreMarks, "marks"}, {gtab.IgnoreBaseGlyphs, "base"}, {gtab.RightToLeft, "rtl"}} {
			if l.Meta.LookupFlags&x.fl != 0 {
				t.tok("-")
				t.raw(x.s)
			}
		}
		t.eol()
		for i, s := range l.Subtables {
			if i > 0 {
				t.tok("||")
				t.eol()
			}
			c.print1(t, s)
		}
		if r.Intn(5) == 0 && !(gpos && l.Meta.LookupType == 3) {
			t.tok(";")
		} else {
			t.newline()
		}
	}
}

// checks ----------------------------------------------------------------

func c19Font2(f *sfnt.Font, ll gtab.LookupList, gpos bool) *sfnt.Font {
	g := *f
	if gpos {
		g.Gpos = &gtab.Info{LookupList: ll}
	} else {
		g.Gsub = &gtab.Info{LookupList: ll}
	}
	return &g
}

func c19Explain(f *sfnt.Font, ll gtab.LookupList, gpos bool) string {
	g := c19Font2(f, ll, gpos)
	if gpos {
		return strings.Join(builder.ExplainGpos(g), "\n")
	}
	return builder.ExplainGsub(g)
}

var c19Line = regexp.MustCompile(`^(\d+):`)

// parse runs the parser under all checks which apply to every text.
func (c *c19Case) parse(text string) (ll gtab.LookupList, err error, ok bool) {
	w := c.w
	before := runtime.NumGoroutine()
	if !w.NoPanic("Parse", func() { ll, err = builder.Parse(c.f, text) }) {
		return nil, nil, false
	}
	for k := 0; w.seen["goroutine"] == 0 && runtime.NumGoroutine() > before; k++ {
		runtime.Gosched()
		if k > 100 {
			time.Sleep(time.Millisecond)
		}
		if k > 1500 {
			buf := make([]byte, 1<<16)
			buf = buf[:runtime.Stack(buf, true)]
			w.Fail("goroutine", "goroutines left running: %d before, %d after parsing %.200q", before, runtime.NumGoroutine(), text)
			w.addDetails(string(buf))
			return ll, err, false
		}
	}
	if err != nil {
		w.Count("rejected texts", 1)
		m := c19Line.FindStringSubmatch(err.Error())
		if !w.Check(m != nil, "line missing", "error %q has no line number, text %.300q", err, text) {
			return ll, err, false
		}
		line, _ := strconv.Atoi(m[1])
		lines := 1 + strings.Count(text, "\n")
		if !w.Check(line >= 1 && line <= lines, "line range", "error %q for a text of %d lines: %.300q", err, lines, text) {
			return ll, err, false
		}
		w.Check(ll == nil, "both", "lookups and error %q, text %.300q", err, text)
	}
	return ll, err, true
}

// kind tells whether a list consists of GSUB lookups or of GPOS lookups.
func c19Kind(ll gtab.LookupList) (gpos, ok bool) {
	for i, l := range ll {
		isPos := false
		for _, s := range l.Subtables {
			switch s.(type) {
			case *gtab.Gpos1_1, *gtab.Gpos1_2, gtab.Gpos2_1, *gtab.Gpos2_2, *gtab.Gpos3_1, *gtab.Gpos4_1:
				isPos = true
			}
		}
		if i > 0 && isPos != gpos {
			return false, false
		}
		gpos = isPos
	}
	return gpos, len(ll) > 0
}

// explain checks Parse(Explain(ll)) == ll.
func (c *c19Case) explain(ll gtab.LookupList, gpos bool) {
	w := c.w
	var text string
	if !w.NoPanic("Explain", func() { text = c19Explain(c.f, ll, gpos) }) {
		return
	}
	if again := c19Explain(c.f, ll, gpos); again != text {
		w.Fail("explain differs", "two descriptions of the same lookups: %q and %q", text, again)
		return
	}
	got, err, ok := c.parse(text)
	if !ok {
		return
	}
	key := "?"
	if len(ll) > 0 && len(ll[0].Subtables) > 0 {
		key = fmt.Sprintf("%T", ll[0].Subtables[0])
	}
	if !w.Check(err == nil, "explain rejected:"+key, "the description is rejected: %v\n%q", err, text) {
		return
	}
	if d := c19Diff(ll, got); d != "" {
		w.Fail("explain:"+key, "%s; description %q", d, text)
	}
}

func c19Diff(a, b gtab.LookupList) string {
	strictRecords = true
	defer func() { strictRecords = false }()
	return diffVals(a, b, 0)
}

func (c *c19Case) describe() string {
	var b strings.Builder
	fmt.Fprintf(&b, "%d glyphs, names", c.n)
	for i := 0; i < c.n && i < 60; i++ {
		fmt.Fprintf(&b, " %q", c.f.GlyphName(glyph.ID(i)))
	}
	b.WriteString(", characters")
	var kk []int
	for g := range c.runes {
		kk = append(kk, int(g))
	}
	sort.Ints(kk)
	for _, g := range kk {
		fmt.Fprintf(&b, " %d:%q", g, string(c.runes[glyph.ID(g)]))
	}
	return b.String()
}

func c19Round(w *W, r *rand.Rand, gpos bool) {
	c := c19Font(w, r)
	runtime.GOMAXPROCS(1 + r.Intn(16))
	ll := c.lookups(gpos)
	for _, l := range ll {
		for _, s := range l.Subtables {
			w.Count(fmt.Sprintf("subtables %T", s), 1)
		}
	}
	w.Eval(c.describe() + "\n" + fmtLookups(ll))
	c.explain(ll, gpos)

	t := &c19Text{r: r}
	c.print(t, ll, gpos)
	text := t.b.String()
	w.Eval(c.describe() + "\n" + text)
	got, err, ok := c.parse(text)
	if !ok {
		return
	}
	key := fmt.Sprintf("%T", ll[0].Subtables[0])
	if !w.Check(err == nil, "rejected:"+key, "valid text rejected: %v\n%q", err, text) {
		return
	}
	if d := c19Diff(ll, got); d != "" {
		w.Fail("meaning:"+key, "%s; text %q", d, text)
	}
}

// c19Error: a text with one error in a known line.
func c19Error(w *W, r *rand.Rand) {
	c := c19Font(w, r)
	runtime.GOMAXPROCS(1 + r.Intn(16))
	gpos := r.Intn(2) == 0
	t := &c19Text{r: r, line: 1}
	c.print(t, c.lookups(gpos), gpos)
	t.newline()
	line := t.line
	g := func() string { return strconv.Itoa(int(c.gid())) }
	var bad string
	k := r.Intn(20)
	switch k {
	case 0:
		bad = "GSUB1: " + g() + " -> unknown.glyph.name"
	case 1:
		bad = fmt.Sprintf("GSUB2: %s -> %d %s", g(), c.n+r.Intn(100000), g())
	case 2:
		bad = "GSUB1: " + g() + " " + g() + " -> " + g() + " , "
	case 3:
		x := g()
		bad = "GSUB1: " + x + " -> " + g() + ", " + x + " -> " + g()
	case 4:
		x := g()
		bad = "GSUB2: " + x + " -> " + g() + ", " + x + " -> " + g()
	case 5:
		x := g()
		bad = "GSUB3: " + x + " -> [" + g() + "], " + x + " -> [" + g() + "]"
	case 6:
		bad = "GSUB4: " + g() + " -> " + g() + " " + g() + ", " + g() + " -> " + g()
	case 7:
		bad = "GSUB5: " + g() + " -> 65536@0 " + g()
	case 8:
		bad = "GSUB5: " + g() + " -> 0@65536 " + g()
	case 9:
		bad = "GSUB5: class :c1: = [" + g() + "] /" + g() + "/ :c2: -> 1@0"
	case 10:
		x := g()
		bad = "GSUB5: class :c1: = [" + x + "] class :c2: = [" + x + "] /" + g() + "/ :c2: -> 1@0"
	case 11:
		bad = "GPOS1: [" + g() + "] -> dx+32768"
	case 12:
		bad = "GPOS3: " + g() + ": 1,1 to 2,-32769"
	case 13:
		bad = "GPOS4: mark " + g() + ": 1@1,1; base " + g() + ": @1,1"
	case 14:
		if c.n < 2 {
			return
		}
		x := c.r.Intn(c.n - 1)
		bad = fmt.Sprintf("GPOS4: mark %d: 0@1,1; mark %d: 0@2,2; base %s: @1,1", x+1, x, g())
	case 15:
		bad = "GSUB1: -unknownflag " + g() + " -> " + g()
	case 16:
		bad = "GSUB7: " + g() + " -> " + g()
	case 17:
		bad = "GSUB1: " + g() + " -> \"unterminated"
	case 18:
		bad = "GSUB1: " + g() + " -> " + g() + " * " + g()
	case 19:
		bad = "GSUB2: " + g() + " -> \"" + string(rune(0x12345)) + "\""
		if len(c.free) > 0 {
			bad = "GSUB2: " + g() + " -> \"" + string(c.free[r.Intn(len(c.free))]) + "\""
		}
	}
	t.raw(bad)
	t.raw("\n")
	if r.Intn(2) == 0 {
		c.print(t, c.lookups(gpos), gpos)
	}
	text := t.b.String()
	w.Eval(c.describe() + "\n" + text)
	_, err, ok := c.parse(text)
	if !ok {
		return
	}
	if !w.Check(err != nil, fmt.Sprintf("accepted:%d", k), "no error for %q in %q", bad, text) {
		return
	}
	got := c19Line.FindStringSubmatch(err.Error())[1]
	// The parser may report the token after the wrong one.
	w.Check(got == strconv.Itoa(line) || got == strconv.Itoa(line+1), fmt.Sprintf("line:%d", k), "error %q, the error is in line %d of %q", err, line, text)
}

var c19Token = regexp.MustCompile(`"(?:\\.|[^"\n])*"|->|\|\||[\pL._][\pL\p{Nd}._]*|[-+]?[0-9]+|\n|[^\s]`)
var c19Vocab = []string{"GSUB1", "GSUB2", "GSUB3", "GSUB4", "GSUB5", "GSUB6", "GPOS1", "GPOS2", "GPOS3", "GPOS4", "GPOS9", ":", ",", ";", "[", "]", "/", "|", "||", "->", "-", "@", "&", "=", "\n", "# x\n", "A", "B", "C", "D", "M", "g1", "0", "1", "2", "-1", "+1", "65535", "65536", "99999999999999999999", `"A"`, `"AB"`, `"\""`, `"\`, `"`, "class", "inputclass", "backtrackclass", "lookaheadclass", "first", "second", "to", "mark", "base", "x", "y", "dx", "dy", "_", "marks", "ligs", "c1", "::", ":c1:", "x+1", "\x00", "\xff", "é", "*", "\u2028", "\r"}

// c19Junk: arbitrary texts.
func c19Junk(w *W, r *rand.Rand, kind int) {
	c := c19Font(w, r)
	runtime.GOMAXPROCS(1 + r.Intn(16))
	var texts []string
	base := func() (string, []string) {
		gpos := r.Intn(2) == 0
		t := &c19Text{r: r}
		if r.Intn(2) == 0 {
			c.print(t, c.lookups(gpos), gpos)
		} else {
			t.raw(c19Explain(c.f, c.lookups(gpos), gpos) + "\n")
		}
		s := t.b.String()
		return s, c19Token.FindAllString(s, -1)
	}
	switch kind {
	case 0: // bytes
		b := make([]byte, r.Intn(40))
		for i := range b {
			b[i] = byte(r.Intn(256))
			if r.Intn(2) == 0 {
				b[i] = "GSUB1-> \n\"\\:|/[]A,"[r.Intn(18)]
			}
		}
		texts = append(texts, string(b))
	case 1: // tokens
		var b strings.Builder
		if r.Intn(3) > 0 {
			b.WriteString(c19Vocab[r.Intn(10)] + ": ")
		}
		for k := r.Intn(20); k > 0; k-- {
			b.WriteString(c19Vocab[r.Intn(len(c19Vocab))])
			if r.Intn(3) > 0 {
				b.WriteByte(' ')
			}
		}
		texts = append(texts, b.String())
	case 2: // single token mutations
		_, toks := base()
		for k := 0; k < 6 && len(toks) > 0; k++ {
			tt := append([]string(nil), toks...)
			i := r.Intn(len(tt))
			switch r.Intn(5) {
			case 0:
				tt = append(tt[:i], tt[i+1:]...)
			case 1:
				tt[i] = c19Vocab[r.Intn(len(c19Vocab))]
			case 2:
				tt = append(tt[:i+1], tt[i:]...)
			case 3:
				j := r.Intn(len(tt))
				tt[i], tt[j] = tt[j], tt[i]
			case 4:
				tt[i] += c19Vocab[r.Intn(len(c19Vocab))]
			}
			texts = append(texts, strings.Join(tt, " "))
		}
	case 3: // truncation at every token, and at some bytes
		s, toks := base()
		for i := 0; i < len(toks) && i < 60; i++ {
			texts = append(texts, strings.Join(toks[:i], " "))
		}
		for k := 0; k < 10 && len(s) > 0; k++ {
			texts = append(texts, s[:r.Intn(len(s))])
		}
	case 4: // bytes damaged
		s, _ := base()
		for k := 0; k < 6; k++ {
			texts = append(texts, string(mutateBytes(r, []byte(s))))
		}
	}
	for _, s := range texts {
		w.Eval(c.describe() + "\n" + s)
		w.tick()
		ll, err, ok := c.parse(s)
		if !ok || err != nil {
			continue
		}
		w.Count("accepted texts", 1)
		if gpos, ok := c19Kind(ll); ok {
			c.explain(ll, gpos)
		}
	}
}

func c19(w *W) {
	w.Each("gsub", w.Scale(5000, 300000), func(i int, r *rand.Rand) { c19Round(w, r, false) })
	w.Each("gpos", w.Scale(5000, 300000), func(i int, r *rand.Rand) { c19Round(w, r, true) })
	w.Each("errors", w.Scale(3000, 100000), func(i int, r *rand.Rand) { c19Error(w, r) })
	for k, name := range []string{"bytes", "tokens", "mutations", "prefixes", "damage"} {
		w.Each(name, w.Scale(1500, 100000), func(i int, r *rand.Rand) { c19Junk(w, r, k) })
	}
}
