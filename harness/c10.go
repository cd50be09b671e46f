package main

import (
	"bytes"
	"fmt"
	"math/rand"
	"reflect"
	"slices"
	"sort"

	"golang.org/x/text/language"

	"seehuhn.de/go/postscript/funit"

	"seehuhn.de/go/sfnt"
	"seehuhn.de/go/sfnt/cff"
	"seehuhn.de/go/sfnt/cmap"
	"seehuhn.de/go/sfnt/glyf"
	"seehuhn.de/go/sfnt/glyph"
	"seehuhn.de/go/sfnt/opentype/coverage"
	"seehuhn.de/go/sfnt/opentype/gtab"
)

func init() { register("C10", c10) }

// subRule is a GSUB rule of a generated font.
type subRule struct {
	in  []glyph.ID
	out glyph.ID
}

// c10Font generates a font in the domain of the subsetter.  Every glyph has a
// different advance width, so that glyphs can be recognised.
func c10Font(r *rand.Rand, kind string, n int) (*sfnt.Font, []subRule, *fontGen) {
	g := newFontGen(r, kind)
	if n > 0 {
		g.n = n
	}
	g.layout = false
	f := g.font()
	ww := r.Perm(30000)
	switch o := f.Outlines.(type) {
	case *glyf.Outlines:
		c10Nest(r, o)
		for i := range o.Widths {
			o.Widths[i] = funit.Int16(ww[i] + 1)
		}
	case *cff.Outlines:
		for i := range o.Glyphs {
			o.Glyphs[i].Width = float64(ww[i] + 1)
		}
		if kind == "cff" && r.Intn(2) == 0 {
			// encodings which skip glyphs
			o.Encoding = make([]glyph.ID, 256)
			for k := r.Intn(60); k > 0; k-- {
				o.Encoding[r.Intn(256)] = glyph.ID(r.Intn(g.n))
			}
		}
	}
	if f.CMapTable != nil && r.Intn(3) == 0 {
		// a subtable for Mac codes, in format 4 or 6, with a language
		c4 := cmap.Format4{}
		for k := r.Intn(30); k > 0; k-- {
			c4[uint16(r.Intn(256))] = glyph.ID(r.Intn(g.n))
		}
		f.CMapTable[cmap.Key{PlatformID: 1, EncodingID: 0, Language: uint16(r.Intn(3))}] = c4.Encode(0)
	}
	rules := c10Layout(r, f, g)
	return f, rules, g
}

// c10Nest replaces glyphs by composites which use any other glyphs, without
// cycles, and shuffles the glyphs.
func c10Nest(r *rand.Rand, o *glyf.Outlines) {
	n := len(o.Glyphs)
	perm := []int{0}
	for _, p := range r.Perm(max(n-1, 0)) {
		perm = append(perm, p+1)
	}
	zero := r.Intn(4) == 0 // .notdef may be a composite as well
	for i := 1; i < n; i++ {
		if o.Glyphs[i] == nil {
			continue
		}
		if _, ok := o.Glyphs[i].Data.(glyf.CompositeGlyph); !ok && r.Intn(3) > 0 {
			continue
		}
		var d glyf.CompositeGlyph
		k := 1 + r.Intn(3)
		for j := 0; j < k; j++ {
			to := r.Intn(i)
			if r.Intn(2) == 0 {
				to = max(0, i-1-r.Intn(3))
			}
			if zero && to == 0 {
				to = i - 1
				if to == 0 {
					continue
				}
			}
			c := glyf.GlyphComponent{Flags: glyf.FlagArgsAreXYValues, GlyphIndex: glyph.ID(to), Data: []byte{byte(r.Intn(256)), byte(r.Intn(256))}}
			switch r.Intn(5) {
			case 0:
				c.Flags |= glyf.FlagArg1And2AreWords
				c.Data = []byte{byte(r.Intn(256)), byte(r.Intn(256)), byte(r.Intn(256)), byte(r.Intn(256))}
			case 1:
				c.Flags |= glyf.FlagWeHaveAScale
				c.Data = append(c.Data, byte(r.Intn(256)), byte(r.Intn(256)))
			case 2:
				c.Flags |= glyf.FlagUseMyMetrics
			}
			d.Components = append(d.Components, c)
		}
		if len(d.Components) == 0 {
			continue
		}
		for j := range d.Components[1:] {
			d.Components[j].Flags |= glyf.FlagMoreComponents
		}
		if r.Intn(5) == 0 {
			d.Instructions = make([]byte, 1+r.Intn(6))
			r.Read(d.Instructions)
			d.Components[len(d.Components)-1].Flags |= glyf.FlagWeHaveInstructions
		}
		o.Glyphs[i] = &glyf.Glyph{Rect16: o.Glyphs[i].Rect16, Data: d}
	}
	if zero && n > 2 {
		o.Glyphs[0] = &glyf.Glyph{Data: glyf.CompositeGlyph{Components: []glyf.GlyphComponent{
			{Flags: glyf.FlagArgsAreXYValues, GlyphIndex: glyph.ID(1 + r.Intn(n-1)), Data: []byte{0, 0}}}}}
	}
	gg := make(glyf.Glyphs, n)
	names := make([]string, n)
	for i, h := range o.Glyphs {
		if h != nil {
			if d, ok := h.Data.(glyf.CompositeGlyph); ok {
				for j := range d.Components {
					d.Components[j].GlyphIndex = glyph.ID(perm[d.Components[j].GlyphIndex])
				}
			}
		}
		gg[perm[i]] = h
		if o.Names != nil {
			names[perm[i]] = o.Names[i]
		}
	}
	o.Glyphs = gg
	if o.Names != nil {
		o.Names = names
	}
}

// c10Layout adds GSUB 1.1 and 4.1 and GPOS 2.1 lookups.
func c10Layout(r *rand.Rand, f *sfnt.Font, g *fontGen) []subRule {
	n := g.n
	var rules []subRule
	if n < 2 {
		return nil
	}
	gl := func() glyph.ID {
		if n > 20 && r.Intn(3) > 0 {
			return glyph.ID(1 + r.Intn(12))
		}
		return glyph.ID(r.Intn(n))
	}
	flags := func() gtab.LookupFlags {
		if r.Intn(4) == 0 {
			return gtab.IgnoreLigatures
		}
		return 0
	}
	if r.Intn(5) > 0 {
		info := &gtab.Info{}
		for k := r.Intn(5); k >= 0; k-- {
			t := &gtab.LookupTable{Meta: &gtab.LookupMetaInfo{LookupType: 1, LookupFlags: flags()}}
			if r.Intn(2) == 0 {
				t.Meta.LookupType = 4
			}
			for m := r.Intn(3); m >= 0; m-- {
				if t.Meta.LookupType == 1 {
					s := &gtab.Gsub1_1{Cov: coverage.Set{}, Delta: glyph.ID(r.Intn(2*n) - n)}
					for j := r.Intn(4); j >= 0; j-- {
						if x := gl(); int(x+s.Delta) < n {
							s.Cov[x] = true
							rules = append(rules, subRule{[]glyph.ID{x}, x + s.Delta})
						}
					}
					if len(s.Cov) == 0 {
						x := gl()
						s.Delta = gl() - x
						s.Cov[x] = true
						rules = append(rules, subRule{[]glyph.ID{x}, x + s.Delta})
					}
					t.Subtables = append(t.Subtables, s)
					continue
				}
				s := &gtab.Gsub4_1{Cov: coverage.Table{}}
				var first []glyph.ID
				for j := r.Intn(4); j >= 0; j-- {
					if x := gl(); !slices.Contains(first, x) {
						first = append(first, x)
					}
				}
				slices.Sort(first)
				for j, x := range first {
					s.Cov[x] = j
					var ll []gtab.Ligature
					for q := r.Intn(3); q >= 0; q-- {
						l := gtab.Ligature{Out: gl()}
						for p := r.Intn(4); p > 0; p-- {
							l.In = append(l.In, gl())
						}
						ll = append(ll, l)
						rules = append(rules, subRule{append([]glyph.ID{x}, l.In...), l.Out})
					}
					s.Repl = append(s.Repl, ll)
				}
				t.Subtables = append(t.Subtables, s)
			}
			info.LookupList = append(info.LookupList, t)
		}
		g.features(info, []string{"liga", "clig", "ccmp", "smcp"})
		f.Gsub = info
	}
	if r.Intn(5) > 0 {
		info := &gtab.Info{}
		for k := r.Intn(3); k >= 0; k-- {
			t := &gtab.LookupTable{Meta: &gtab.LookupMetaInfo{LookupType: 2, LookupFlags: flags()}}
			for m := r.Intn(3); m >= 0; m-- {
				s := gtab.Gpos2_1{}
				sec := r.Intn(4) == 0
				for j := r.Intn(8); j >= 0; j-- {
					p := &gtab.PairAdjust{First: &gtab.GposValueRecord{XAdvance: funit.Int16(1 + r.Intn(2000) - 1000)}}
					if sec {
						p.Second = &gtab.GposValueRecord{XAdvance: funit.Int16(r.Intn(300)), XPlacement: funit.Int16(1 + r.Intn(30))}
					}
					if p.First.XAdvance == 0 {
						p.First.XAdvance = 1
					}
					s[glyph.Pair{Left: gl(), Right: gl()}] = p
				}
				t.Subtables = append(t.Subtables, s)
			}
			info.LookupList = append(info.LookupList, t)
		}
		g.features(info, []string{"kern", "cpsp", "dist"})
		f.Gpos = info
	}
	return rules
}

func c10Width(f *sfnt.Font, i int) int {
	switch o := f.Outlines.(type) {
	case *glyf.Outlines:
		return int(o.Widths[i])
	case *cff.Outlines:
		return int(o.Glyphs[i].Width)
	}
	return -1
}

func c10Count(o any) int {
	switch o := o.(type) {
	case *glyf.Outlines:
		return len(o.Glyphs)
	case *cff.Outlines:
		return len(o.Glyphs)
	}
	return -1
}

func c10Components(o any, gid glyph.ID) []glyph.ID {
	if o, ok := o.(*glyf.Outlines); ok {
		if h := o.Glyphs[gid]; h != nil {
			if d, ok := h.Data.(glyf.CompositeGlyph); ok {
				var res []glyph.ID
				for _, c := range d.Components {
					res = append(res, c.GlyphIndex)
				}
				return res
			}
		}
	}
	return nil
}

// c10Closure closes a set of glyphs under the rules (if any) and components.
func c10Closure(o any, set map[glyph.ID]bool, rules []subRule, comps bool) map[glyph.ID]bool {
	res := map[glyph.ID]bool{}
	for k := range set {
		res[k] = true
	}
	for {
		n := len(res)
		for _, q := range rules {
			ok := true
			for _, x := range q.in {
				ok = ok && res[x]
			}
			if ok {
				res[q.out] = true
			}
		}
		if comps {
			for k := range res {
				for _, c := range c10Components(o, k) {
					res[c] = true
				}
			}
		}
		if len(res) == n {
			return res
		}
	}
}

func c10List(r *rand.Rand, n int) []glyph.ID {
	res := []glyph.ID{0}
	perm := r.Perm(n - 1)
	k := 0
	switch r.Intn(5) {
	case 0:
		k = n - 1
	case 1:
		k = min(n-1, r.Intn(4))
	default:
		k = r.Intn(n)
	}
	perm = perm[:k]
	if r.Intn(3) == 0 {
		sort.Ints(perm)
	}
	for _, p := range perm {
		res = append(res, glyph.ID(p+1))
	}
	return res
}

// c10Private compares what the glyphs of a CFF font refer to.
func c10CFF(w *W, old, o *cff.Outlines, from []glyph.ID, to map[glyph.ID]glyph.ID) {
	if !w.Check(len(o.Glyphs) == len(from), "glyph count", "%d glyphs, want %d", len(o.Glyphs), len(from)) {
		return
	}
	for i, k := range from {
		if d := diffVals(old.Glyphs[k], o.Glyphs[i], 0); d != "" {
			w.Fail("CFF glyph", "glyph %d (was %d): %s", i, k, d)
			return
		}
		p := o.FDSelect(glyph.ID(i))
		if p < 0 || p >= len(o.Private) {
			w.Fail("FDSelect", "glyph %d: FDSelect=%d, %d dictionaries", i, p, len(o.Private))
			return
		}
		q := old.FDSelect(k)
		if d := diffVals(old.Private[q], o.Private[p], 0); d != "" {
			w.Fail("private dict", "glyph %d (was %d): %s", i, k, d)
			return
		}
		if old.IsCIDKeyed() {
			if !w.Check(len(o.FontMatrices) == len(o.Private) && o.FontMatrices[p] == old.FontMatrices[q], "font matrix", "glyph %d (was %d)", i, k) {
				return
			}
			if !w.Check(len(o.GIDToCID) == len(from) && o.GIDToCID[i] == old.GIDToCID[k], "CID", "glyph %d (was %d): CIDs %v", i, k, o.GIDToCID) {
				return
			}
		}
	}
	w.Check(reflect.DeepEqual(old.ROS, o.ROS), "ROS", "%v %v", old.ROS, o.ROS)
	w.Check((old.Encoding == nil) == (o.Encoding == nil) && len(old.Encoding) == len(o.Encoding), "encoding length", "%d %d", len(old.Encoding), len(o.Encoding))
	for c, k := range old.Encoding {
		if c < len(o.Encoding) {
			if !w.Check(o.Encoding[c] == to[k], "encoding", "code %d: glyph %d became %d, want %d", c, k, o.Encoding[c], to[k]) {
				return
			}
		}
	}
	w.Check(old.IsCIDKeyed() == o.IsCIDKeyed(), "CID keyed", "%v", o.IsCIDKeyed())
}

func c10Glyf(w *W, old, o *glyf.Outlines, from []glyph.ID, to map[glyph.ID]glyph.ID) {
	n := len(from)
	if !w.Check(len(o.Glyphs) == n && len(o.Widths) == n && (old.Names == nil && o.Names == nil || len(o.Names) == n), "glyph count", "%d glyphs, %d widths, %d names, want %d", len(o.Glyphs), len(o.Widths), len(o.Names), n) {
		return
	}
	for i, k := range from {
		w.Check(o.Widths[i] == old.Widths[k], "width", "glyph %d (was %d): %d, want %d", i, k, o.Widths[i], old.Widths[k])
		if old.Names != nil {
			w.Check(o.Names[i] == old.Names[k], "name", "glyph %d (was %d): %q, want %q", i, k, o.Names[i], old.Names[k])
		}
		a, b := old.Glyphs[k], o.Glyphs[i]
		if a == nil || b == nil {
			w.Check(a == nil && b == nil, "blank glyph", "glyph %d (was %d): %v, want %v", i, k, b, a)
			continue
		}
		if d, ok := a.Data.(glyf.CompositeGlyph); ok {
			e := glyf.CompositeGlyph{Instructions: d.Instructions, Components: slices.Clone(d.Components)}
			for j := range e.Components {
				t, ok := to[e.Components[j].GlyphIndex]
				if !w.Check(ok, "component missing", "glyph %d (was %d): component %d is missing", i, k, e.Components[j].GlyphIndex) {
					return
				}
				e.Components[j].GlyphIndex = t
			}
			a = &glyf.Glyph{Rect16: a.Rect16, Data: e}
		}
		if d := diffVals(a, b, 0); d != "" {
			w.Fail("outline", "glyph %d (was %d): %s", i, k, d)
			return
		}
	}
	if d := diffVals(old.Tables, o.Tables, 0); d != "" {
		w.Fail("tables", "%s", d)
	}
	if d := diffVals(old.Maxp, o.Maxp, 0); d != "" {
		w.Fail("maxp", "%s", d)
	}
}

// c10CMap compares one subtable.
func c10CMap(w *W, r *rand.Rand, what string, a, b cmap.Subtable, to map[glyph.ID]glyph.ID, runes []rune, full bool) {
	check := func(c rune) bool {
		x, y := a.Lookup(c), b.Lookup(c)
		want := to[x]
		return w.Check(y == want, "cmap", "%s: %#x was glyph %d, is glyph %d, want %d", what, c, x, y, want)
	}
	cc := map[rune]bool{}
	for _, c := range runes {
		for d := rune(-1); d <= 1; d++ {
			cc[c+d] = true
		}
	}
	for i := 0; i < 300; i++ {
		cc[rune(i)] = true
		cc[rune(r.Intn(0x11000))] = true
	}
	for _, t := range []cmap.Subtable{a, b} {
		switch t := t.(type) {
		case cmap.Format4:
			for c := range t {
				cc[rune(c)] = true
			}
		case cmap.Format12:
			for c := range t {
				cc[rune(c)] = true
			}
		}
	}
	if full {
		for c := rune(0); c < 0x10000; c++ {
			cc[c] = true
		}
	}
	for c := range cc {
		if c >= 0 && !check(c) {
			return
		}
	}
}

func c10Seq(f *sfnt.Font, from []glyph.ID, seq []glyph.ID, idx bool) []glyph.Info {
	var res []glyph.Info
	for i, x := range seq {
		a := glyph.Info{GID: x, Text: []rune{rune('a' + i)}}
		res = append(res, a)
	}
	return res
}

// c10Shape compares the effect of the lookups on sequences of retained glyphs.
func c10Shape(w *W, r *rand.Rand, what string, a, b *gtab.Info, from []glyph.ID, to map[glyph.ID]glyph.ID, rules []subRule) {
	if a == nil || b == nil {
		w.Check(a == nil && b == nil, what+" present", "%v %v", a != nil, b != nil)
		return
	}
	if !w.Check(len(a.FeatureList) == len(b.FeatureList) && len(a.ScriptList) == len(b.ScriptList), what+" features", "%d/%d features, %d/%d scripts", len(a.FeatureList), len(b.FeatureList), len(a.ScriptList), len(b.ScriptList)) {
		return
	}
	type pair struct {
		name string
		a, b []gtab.LookupIndex
	}
	var todo []pair
	tags := map[string]bool{}
	for i := range a.FeatureList {
		w.Check(a.FeatureList[i].Tag == b.FeatureList[i].Tag, what+" feature tag", "%s %s", a.FeatureList[i].Tag, b.FeatureList[i].Tag)
		todo = append(todo, pair{fmt.Sprintf("feature %d", i), a.FeatureList[i].Lookups, b.FeatureList[i].Lookups})
		tags[a.FeatureList[i].Tag] = true
	}
	for _, l := range []string{"und", "en", "de-Latn", "ar", "ja-Hrkt"} {
		t := language.MustParse(l)
		todo = append(todo, pair{"language " + l, a.FindLookups(t, tags), b.FindLookups(t, tags)})
	}
	if len(a.LookupList) == len(b.LookupList) {
		for i := range a.LookupList {
			todo = append(todo, pair{fmt.Sprintf("lookup %d", i), []gtab.LookupIndex{gtab.LookupIndex(i)}, []gtab.LookupIndex{gtab.LookupIndex(i)}})
		}
	}
	for _, p := range todo {
		for _, q := range p.a {
			if int(q) >= len(a.LookupList) {
				w.Fail(what+" lookup index", "generated font is broken")
				return
			}
		}
		for _, q := range p.b {
			if !w.Check(int(q) < len(b.LookupList), what+" lookup index", "%s: lookup %d of %d", p.name, q, len(b.LookupList)) {
				return
			}
		}
		ca, cb := gtab.NewContext(a.LookupList, nil, p.a), gtab.NewContext(b.LookupList, nil, p.b)
		var seqs [][]glyph.ID
		for _, q := range rules {
			seqs = append(seqs, q.in)
		}
		for k := 0; k < 12; k++ {
			var s []glyph.ID
			for j := 1 + r.Intn(7); j > 0; j-- {
				if len(rules) > 0 && r.Intn(2) == 0 {
					s = append(s, rules[r.Intn(len(rules))].in...)
				} else {
					s = append(s, from[r.Intn(len(from))])
				}
			}
			seqs = append(seqs, s)
		}
	seqLoop:
		for _, s := range seqs {
			var t []glyph.ID
			for _, x := range s {
				y, ok := to[x]
				if !ok {
					continue seqLoop
				}
				t = append(t, y)
			}
			x := ca.Apply(c10Seq(nil, nil, s, false))
			x = slices.Clone(x)
			for i := range x {
				y, ok := to[x[i].GID]
				if !ok {
					continue seqLoop // involves glyphs which need not be retained
				}
				x[i].GID = y
			}
			y := cb.Apply(c10Seq(nil, nil, t, false))
			w.Count("sequences", 1)
			if d := diffVals(x, slices.Clone(y), 0); d != "" {
				w.Fail(what+" meaning", "%s: sequence %v (new %v): %s; lookups %v, %v", p.name, s, t, d, p.a, p.b)
				return
			}
		}
	}
}

func c10Case(w *W, r *rand.Rand, kind string, n int) {
	seed := r.Int63()
	f, rules, g := c10Font(rand.New(rand.NewSource(seed)), kind, n)
	f2, _, _ := c10Font(rand.New(rand.NewSource(seed)), kind, n)
	n = c10Count(f.Outlines)
	list := c10List(r, n)
	w.Eval(fmt.Sprintf("%s font %d with %d glyphs, list %s", kind, seed, n, short([]byte(fmt.Sprint(list)))))
	back := append(slices.Clone(list), 54321, 54321, 54321, 54321)
	var h *sfnt.Font
	if !w.NoPanic("Subset", func() { h = f.Subset(back[:len(list):len(back)]) }) {
		return
	}
	w.Check(slices.Equal(back[:len(list)], list) && back[len(list)] == 54321, "caller's list changed", "%v", back)
	if d := diffFonts(f, f2, 0); d != "" {
		w.Fail("original changed", "%s", d)
		return
	}

	// find out which glyphs were used
	byWidth := map[int]glyph.ID{}
	for i := 0; i < n; i++ {
		byWidth[c10Width(f, i)] = glyph.ID(i)
	}
	m := c10Count(h.Outlines)
	if !w.Check(m >= len(list), "glyph count", "%d glyphs for a list of %d", m, len(list)) {
		return
	}
	if oh, ok := h.Outlines.(*glyf.Outlines); ok && !w.Check(len(oh.Widths) == m, "width count", "%d widths, %d glyphs", len(oh.Widths), m) {
		return
	}
	var from []glyph.ID
	to := map[glyph.ID]glyph.ID{}
	listed := map[glyph.ID]bool{}
	for i := 0; i < m; i++ {
		k, ok := byWidth[c10Width(h, i)]
		if !w.Check(ok, "unknown glyph", "glyph %d has width %d, not in the original font", i, c10Width(h, i)) {
			return
		}
		if i < len(list) {
			listed[k] = true
			if !w.Check(k == list[i], "position", "glyph %d is the original glyph %d, want %d", i, k, list[i]) {
				return
			}
		}
		if _, dup := to[k]; !w.Check(!dup, "duplicate glyph", "original glyph %d occurs twice", k) {
			return
		}
		from = append(from, k)
		to[k] = glyph.ID(i)
	}
	all := c10Closure(f.Outlines, listed, rules, true)
	lower := c10Closure(f.Outlines, c10Closure(f.Outlines, listed, rules, false), nil, true)
	for _, k := range from {
		w.Check(all[k], "unneeded glyph", "original glyph %d is not needed", k)
	}
	for k := range lower {
		_, ok := to[k]
		w.Check(ok, "missing glyph", "original glyph %d is needed by a composite or ligature", k)
	}
	w.Count("extra glyphs", int64(m-len(list)))

	switch o := h.Outlines.(type) {
	case *glyf.Outlines:
		old, ok := f.Outlines.(*glyf.Outlines)
		if w.Check(ok, "outline type", "%T", h.Outlines) {
			c10Glyf(w, old, o, from, to)
		}
	case *cff.Outlines:
		old, ok := f.Outlines.(*cff.Outlines)
		if w.Check(ok, "outline type", "%T", h.Outlines) {
			c10CFF(w, old, o, from, to)
			var so *cff.Outlines
			if !w.NoPanic("cff.Outlines.Subset", func() { so = old.Subset(slices.Clone(list)) }) {
				return
			}
			to2 := map[glyph.ID]glyph.ID{}
			for i, k := range list {
				to2[k] = glyph.ID(i)
			}
			c10CFF(w, old, so, list, to2)
		}
	}

	// everything except glyphs
	a, b := *f, *h
	for _, x := range []*sfnt.Font{&a, &b} {
		x.Outlines, x.CMapTable, x.Gsub, x.Gpos, x.Gdef = nil, nil, nil, nil, nil
	}
	if d := diffVals(a, b, 0); d != "" {
		w.Fail("font field", "%s", d)
	}
	w.Check(h.Gdef == nil, "GDEF", "%v", h.Gdef)

	w.Check((f.CMapTable == nil) == (h.CMapTable == nil), "cmap present", "%v %v", f.CMapTable != nil, h.CMapTable != nil)
	full := r.Intn(40) == 0
	for _, key := range sortedCmapKeys(f.CMapTable) {
		x, err := f.CMapTable.Get(key)
		if err != nil {
			continue
		}
		if _, ok := h.CMapTable[key]; !w.Check(ok, "cmap subtable missing", "%v", key) {
			continue
		}
		y, err := h.CMapTable.Get(key)
		if w.Check(err == nil, "cmap subtable", "%v: %v", key, err) {
			c10CMap(w, r, fmt.Sprint(key), x, y, to, g.runes, full)
		}
	}
	for key := range h.CMapTable {
		if _, ok := f.CMapTable[key]; !ok {
			w.Fail("cmap subtable added", "%v", key)
		}
	}
	if f.CMapTable != nil {
		x, e1 := f.CMapTable.GetBest()
		y, e2 := h.CMapTable.GetBest()
		if w.Check((e1 == nil) == (e2 == nil), "best cmap", "%v %v", e1, e2) && e1 == nil {
			c10CMap(w, r, "best cmap", x, y, to, g.runes, false)
		}
	}
	c10Shape(w, r, "GSUB", f.Gsub, h.Gsub, from, to, rules)
	var pairs []subRule
	if f.Gpos != nil {
		for _, t := range f.Gpos.LookupList {
			for _, s := range t.Subtables {
				for p := range s.(gtab.Gpos2_1) {
					pairs = append(pairs, subRule{in: []glyph.ID{p.Left, p.Right}})
				}
			}
		}
		sort.Slice(pairs, func(i, j int) bool { return slices.Compare(pairs[i].in, pairs[j].in) < 0 })
	}
	c10Shape(w, r, "GPOS", f.Gpos, h.Gpos, from, to, pairs)
	if len(w.res.Violations) > 0 {
		return
	}

	// write and read
	var data []byte
	var err error
	if !w.NoPanic("Write (subset)", func() { data, err = writeFont(h) }) {
		return
	}
	if err != nil {
		if o, ok := h.Outlines.(*cff.Outlines); ok && o.Encoding != nil && !slices.Contains(o.Encoding, 0) {
			w.Count("encoding with 256 codes", 1)
			return
		}
		w.Fail("write", "%v", err)
		return
	}
	var z *sfnt.Font
	if !w.NoPanic("Read (subset)", func() { z, err = sfnt.Read(bytes.NewReader(data)) }) {
		return
	}
	if !w.Check(err == nil, "read", "%v", err) {
		return
	}
	if f.Gsub == nil {
		// the reader may invent ligatures
		z.Gsub = nil
	}
	if f.Gpos == nil {
		z.Gpos = nil
	}
	c10Shape(w, r, "GSUB after reading", f.Gsub, z.Gsub, from, to, rules)
	c10Shape(w, r, "GPOS after reading", f.Gpos, z.Gpos, from, to, pairs)
	h.Gsub, h.Gpos, z.Gsub, z.Gpos = nil, nil, nil, nil
	if d := diffFonts(h, z, 1e-8); d != "" {
		w.Fail("read back", "%s", d)
	}
}

func sortedCmapKeys(t cmap.Table) []cmap.Key {
	var res []cmap.Key
	for k := range t {
		res = append(res, k)
	}
	sort.Slice(res, func(i, j int) bool {
		a, b := res[i], res[j]
		return slices.Compare([]uint16{a.PlatformID, a.EncodingID, a.Language}, []uint16{b.PlatformID, b.EncodingID, b.Language}) < 0
	})
	return res
}

func c10(w *W) {
	for _, k := range fontKinds {
		w.Each(k, w.Scale(1800, 60000), func(i int, r *rand.Rand) { c10Case(w, r, k, 0) })
		w.Each("large "+k, w.Scale(24, 300), func(i int, r *rand.Rand) {
			c10Case(w, r, k, []int{256, 257, 300 + r.Intn(500), 2000 + r.Intn(3000)}[i%4])
		})
	}
	// a scattered format 4 subtable which needs more space after subsetting
	w.Each("many characters", w.Scale(2, 12), func(i int, r *rand.Rand) {
		n := []int{4000, 5000, 12000}[min(i/2, 2)]
		f, _, g := c10Font(r, "glyf", n)
		f.Gsub, f.Gpos = nil, nil
		c := cmap.Format4{}
		for j := 1; j < n; j++ {
			c[uint16(0x100+3*j)] = glyph.ID(j)
			c[uint16(0x101+3*j)] = glyph.ID(j)
		}
		if i%2 == 1 {
			c = cmap.Format4{}
			for j := 1; j < n; j++ {
				c[uint16(0x100+2*j)] = glyph.ID(j)
			}
			for j := n * 3 / 4; j < n; j++ {
				delete(c, uint16(0x100+2*j))
			}
		}
		var ok bool
		func() {
			defer func() { recover() }()
			f.InstallCMap(c)
			ok = true
		}()
		if !ok {
			w.Count("too large", 1)
			f.InstallCMap(cmap.Format12{})
		}
		list := []glyph.ID{0}
		for _, p := range r.Perm(n - 1) {
			list = append(list, glyph.ID(p+1))
		}
		w.Eval(fmt.Sprintf("%d characters, shuffled", len(c)))
		var h *sfnt.Font
		if !w.NoPanic("Subset", func() { h = f.Subset(list) }) {
			return
		}
		to := map[glyph.ID]glyph.ID{}
		for j, k := range list {
			to[k] = glyph.ID(j)
		}
		x, e1 := f.CMapTable.GetBest()
		y, e2 := h.CMapTable.GetBest()
		if w.Check(e1 == nil && e2 == nil, "best cmap", "%v %v", e1, e2) {
			c10CMap(w, r, "best cmap", x, y, to, g.runes, true)
		}
	})
}
