package main

import (
	"fmt"
	"math/rand"
	"regexp"
	"strings"

	"golang.org/x/text/language"

	"seehuhn.de/go/postscript/cid"
	"seehuhn.de/go/postscript/funit"
	"seehuhn.de/go/postscript/type1"
	"seehuhn.de/go/postscript/type1/names"

	"seehuhn.de/go/sfnt"
	"seehuhn.de/go/sfnt/cff"
	"seehuhn.de/go/sfnt/cmap"
	"seehuhn.de/go/sfnt/glyf"
	"seehuhn.de/go/sfnt/glyph"
	"seehuhn.de/go/sfnt/opentype/coverage"
	"seehuhn.de/go/sfnt/opentype/gtab"
	"seehuhn.de/go/sfnt/os2"
)

func init() { register("C20", c20) }

var c20Pool = []string{"A", "B", "C", "space", "a", "b", "f", "i", "f_i", "f_f_i", "A.1", "A.2", "a.sc", "orn001", "orn002", "orn003", "orn005", "orn1", ".notdef", "foo bar", "1abc", "x(y)", "naïve", "a_b", "A.alt1", "A.alt2", "Euro", "zero", strings.Repeat("q", 31), strings.Repeat("r", 32), strings.Repeat("s", 255)}

var c20Runes = []rune("ABCDEFabcdefi 0123é€ßΩ中文ﬁﬂ½ǅ\U0001F600\U00010400\u00a0\u0300")

// some Adobe names, independent of the library which the code uses
var adobeNames = map[rune]string{'A': "A", 'z': "z", ' ': "space", '0': "zero", 'é': "eacute", '€': "Euro", 'ß': "germandbls", '中': "u4E2D", '\U0001F600': "u1F600", '-': "hyphen", '.': "period", 'Σ': "Sigma"}

type c20Case struct {
	f     *sfnt.Font
	cm    map[rune]glyph.ID
	given []string // with .notdef and padding
	desc  string
}

func c20Names(r *rand.Rand, n int) []string {
	res := make([]string, n)
	mode := r.Intn(6)
	for i := range res {
		switch mode {
		case 0: // none
		case 1: // complete and unique
			res[i] = fmt.Sprintf("g%d", i)
		case 2: // complete except one
			res[i] = fmt.Sprintf("g%d", i)
			if i == n-1 {
				res[i] = ""
			}
		case 3:
			if r.Intn(3) == 0 {
				res[i] = c20Pool[r.Intn(len(c20Pool))]
			}
		default:
			if r.Intn(4) > 0 {
				res[i] = c20Pool[r.Intn(len(c20Pool))]
			}
		}
	}
	if r.Intn(2) == 0 {
		res[0] = ".notdef"
	}
	return res
}

func c20Font(r *rand.Rand, kind string) *c20Case {
	n := 1 + r.Intn(25)
	if r.Intn(15) == 0 {
		n = 1 + r.Intn(300)
	}
	nn := c20Names(r, n)
	f := &sfnt.Font{FamilyName: "Test", UnitsPerEm: 1000}
	switch kind {
	case "glyf":
		o := &glyf.Outlines{Glyphs: make(glyf.Glyphs, n), Widths: make([]funit.Int16, n)}
		switch r.Intn(6) {
		case 0:
			nn = nn[:r.Intn(n+1)]
			o.Names = nn
		case 1:
			nn = nil
		default:
			o.Names = nn
		}
		f.Outlines = o
	default:
		o := &cff.Outlines{Private: []*type1.PrivateDict{{}}, FDSelect: func(glyph.ID) int { return 0 }}
		if kind == "cid" {
			o.ROS = &cid.SystemInfo{Registry: "Adobe", Ordering: "Identity"}
			for i := 0; i < n; i++ {
				o.GIDToCID = append(o.GIDToCID, cid.CID(2*i))
			}
			if r.Intn(3) > 0 {
				for i := range nn {
					nn[i] = ""
				}
			}
		} else {
			o.Encoding = make([]glyph.ID, 256)
		}
		for i := 0; i < n; i++ {
			o.Glyphs = append(o.Glyphs, cff.NewGlyph(nn[i], 500))
		}
		f.Outlines = o
	}
	c := &c20Case{f: f, cm: map[rune]glyph.ID{}}
	c.given = make([]string, n)
	copy(c.given, nn)
	c.given[0] = ".notdef"
	if r.Intn(4) > 0 {
		m4, m12 := cmap.Format4{}, cmap.Format12{}
		only4 := r.Intn(6) > 0
		for k := r.Intn(2 * n); k > 0; k-- {
			u := c20Runes[r.Intn(len(c20Runes))]
			if r.Intn(4) == 0 {
				u = rune(0x20 + r.Intn(0x500))
			}
			if only4 && u > 0xFFFF {
				continue
			}
			g := glyph.ID(r.Intn(n))
			if r.Intn(20) == 0 {
				g = 0
			}
			c.cm[u] = g
			m12[uint32(u)] = g
			if u <= 0xFFFF {
				m4[uint16(u)] = g
			}
		}
		if only4 {
			f.InstallCMap(m4)
		} else {
			f.InstallCMap(m12)
		}
	}
	if r.Intn(4) > 0 {
		f.Gsub = &gtab.Info{ScriptList: gtab.ScriptListInfo{language.MustParse("und-Zzzz-x-dflt"): {Required: 0xFFFF}}}
		gid := func() glyph.ID { return glyph.ID(r.Intn(n)) }
		cov := func(max int) coverage.Table {
			s := coverage.Set{}
			for k := r.Intn(max + 1); k >= 0; k-- {
				s[gid()] = true
			}
			return s.ToTable()
		}
		for k := r.Intn(6); k > 0; k-- {
			l := &gtab.LookupTable{Meta: &gtab.LookupMetaInfo{}}
			for s := r.Intn(3); s >= 0; s-- {
				var st gtab.Subtable
				switch r.Intn(5) {
				case 0:
					d := r.Intn(n)
					t := coverage.Set{}
					for g := range cov(4) {
						if int(g)+d < n {
							t[g] = true
						}
					}
					st = &gtab.Gsub1_1{Cov: t, Delta: glyph.ID(d)}
					l.Meta.LookupType = 1
				case 1:
					cv := cov(4)
					x := &gtab.Gsub1_2{Cov: cv}
					for range cv {
						x.SubstituteGlyphIDs = append(x.SubstituteGlyphIDs, gid())
					}
					st = x
					l.Meta.LookupType = 1
				case 2:
					cv := cov(3)
					x := &gtab.Gsub3_1{Cov: cv}
					for range cv {
						var a []glyph.ID
						for j := r.Intn(4); j > 0; j-- {
							a = append(a, gid())
						}
						x.Alternates = append(x.Alternates, a)
					}
					st = x
					l.Meta.LookupType = 3
				case 3:
					x := &gtab.Gsub2_1{Cov: coverage.Table{0: 0}, Repl: [][]glyph.ID{{gid(), gid()}}}
					st = x
					l.Meta.LookupType = 2
				default:
					cv := cov(3)
					x := &gtab.Gsub4_1{Cov: cv}
					for range cv {
						var ls []gtab.Ligature
						for j := r.Intn(3); j >= 0; j-- {
							var in []glyph.ID
							for q := r.Intn(3); q > 0; q-- {
								in = append(in, gid())
							}
							ls = append(ls, gtab.Ligature{In: in, Out: gid()})
						}
						x.Repl = append(x.Repl, ls)
					}
					st = x
					l.Meta.LookupType = 4
				}
				l.Subtables = append(l.Subtables, st)
			}
			f.Gsub.LookupList = append(f.Gsub.LookupList, l)
		}
	}
	c.desc = fmt.Sprintf("%s n=%d names=%q cmap=%v", kind, n, nn, c.cm)
	if f.Gsub != nil {
		c.desc += " gsub=" + fmtLookups(f.Gsub.LookupList)
	}
	return c
}

type c20Rule struct {
	in  []glyph.ID
	out glyph.ID
}

func c20Rules(f *sfnt.Font) []c20Rule {
	var res []c20Rule
	if f.Gsub == nil {
		return nil
	}
	for _, l := range f.Gsub.LookupList {
		for _, s := range l.Subtables {
			switch s := s.(type) {
			case *gtab.Gsub1_1:
				for g := range s.Cov {
					res = append(res, c20Rule{[]glyph.ID{g}, g + s.Delta})
				}
			case *gtab.Gsub1_2:
				for g, i := range s.Cov {
					res = append(res, c20Rule{[]glyph.ID{g}, s.SubstituteGlyphIDs[i]})
				}
			case *gtab.Gsub3_1:
				for g, i := range s.Cov {
					for _, a := range s.Alternates[i] {
						res = append(res, c20Rule{[]glyph.ID{g}, a})
					}
				}
			case *gtab.Gsub4_1:
				for g, i := range s.Cov {
					for _, l := range s.Repl[i] {
						res = append(res, c20Rule{append([]glyph.ID{g}, l.In...), l.Out})
					}
				}
			}
		}
	}
	return res
}

var ornRE = regexp.MustCompile(`^orn[0-9]{3,}$`)
var numRE = regexp.MustCompile(`^\.[0-9]+$`)

func c20Basic(w *W, what string, got []string, n int) bool {
	if !w.Check(len(got) == n, what+": number of names", "%d names for %d glyphs", len(got), n) {
		return false
	}
	w.Check(got[0] == ".notdef", what+": glyph 0", "%q", got[0])
	seen := map[string]int{}
	for i, s := range got {
		w.Check(s != "", what+": empty name", "glyph %d", i)
		j, dup := seen[s]
		w.Check(!dup, what+": distinct names", "glyphs %d and %d: %q", j, i, s)
		seen[s] = i
	}
	return true
}

func c20Names1(w *W, c *c20Case, got []string) {
	n := len(c.given)
	if !c20Basic(w, "MakeGlyphNames", got, n) {
		return
	}
	count := map[string]int{}
	for _, s := range c.given {
		count[s]++
	}
	owner := map[string]int{}
	for i, s := range got {
		owner[s] = i
	}
	byGid := map[glyph.ID][]string{}
	for u, g := range c.cm {
		byGid[g] = append(byGid[g], names.FromUnicode(string(u)))
	}
	rules := c20Rules(c.f)
	missing := make([]bool, n)
	fallback := make([]bool, n)
	for i := 1; i < n; i++ {
		s := c.given[i]
		if s != "" && count[s] == 1 {
			w.Check(got[i] == s, "existing name", "glyph %d: %q instead of %q", i, got[i], s)
			continue
		}
		if s != "" && got[i] == s {
			continue
		}
		missing[i] = true
		cm := byGid[glyph.ID(i)]
		ok := false
		for _, x := range cm {
			ok = ok || got[i] == x
		}
		if ok {
			w.Count("named by cmap", 1)
			continue
		}
		for _, x := range cm {
			_, used := owner[x]
			w.Check(used, "character map name", "glyph %d: %q although %q is available", i, got[i], x)
		}
		derived := false
		for _, ru := range rules {
			if int(ru.out) != i {
				continue
			}
			var nn []string
			for _, g := range ru.in {
				nn = append(nn, got[g])
			}
			base := strings.Join(nn, "_")
			if len(ru.in) == 1 && ru.in[0] == ru.out {
				continue
			}
			if got[i] == base || strings.HasPrefix(got[i], base) && numRE.MatchString(got[i][len(base):]) {
				derived = true
			}
		}
		if derived {
			w.Count("named by GSUB", 1)
			continue
		}
		w.Check(ornRE.MatchString(got[i]), "placeholder", "glyph %d: %q", i, got[i])
		fallback[i] = true
		w.Count("placeholders", 1)
	}
	for _, ru := range rules {
		if !fallback[ru.out] {
			continue
		}
		known := true
		l := len(ru.in) - 1
		for _, g := range ru.in {
			known = known && !fallback[g]
			l += len(got[g])
		}
		w.Check(!known || l > 240, "substitution rule name", "glyph %d: %q although rule %v applies: %q", ru.out, got[ru.out], ru, got)
	}
	for u, s := range adobeNames {
		g := c.cm[u]
		if g != 0 && c.given[g] == "" && len(byGid[g]) == 1 && count[s] == 0 {
			ok := got[g] == s
			for u2, g2 := range c.cm {
				if g2 != g && names.FromUnicode(string(u2)) == names.FromUnicode(string(u)) {
					ok = true
				}
			}
			w.Check(ok, "Adobe glyph name", "glyph %d for %q: %q instead of %q", g, u, got[g], s)
		}
	}
}

func glyphNames(f *sfnt.Font) []string {
	var res []string
	for i := 0; i < f.NumGlyphs(); i++ {
		res = append(res, f.GlyphName(glyph.ID(i)))
	}
	return res
}

func sameStrings(a, b []string) bool {
	if len(a) != len(b) {
		return false
	}
	for i := range a {
		if a[i] != b[i] {
			return false
		}
	}
	return true
}

func c20Make(w *W, r *rand.Rand, kind string) {
	c := c20Font(r, kind)
	w.Eval(c.desc)
	var a, b []string
	before := glyphNames(c.f)
	if !w.NoPanic("MakeGlyphNames", func() { a = c.f.MakeGlyphNames() }) {
		return
	}
	c20Names1(w, c, a)
	for k := 0; k < 2; k++ {
		b = c.f.MakeGlyphNames()
		w.Check(sameStrings(a, b), "MakeGlyphNames again", "%q and then %q", a, b)
	}
	w.Check(sameStrings(before, glyphNames(c.f)), "MakeGlyphNames changes the font", "%q instead of %q", glyphNames(c.f), before)
	if len(a) > 0 {
		// the caller owns the result
		for i := range a {
			a[i] = "X" + a[i]
		}
		w.Check(sameStrings(b, c.f.MakeGlyphNames()), "result is shared", "%q", b)
	}
	if !w.NoPanic("EnsureGlyphNames", func() { c.f.EnsureGlyphNames() }) {
		return
	}
	got := glyphNames(c.f)
	w.Check(sameStrings(b, got), "installed names", "%q instead of %q", got, b)
	w.Check(sameStrings(b, c.f.MakeGlyphNames()), "MakeGlyphNames after EnsureGlyphNames", "%q instead of %q", c.f.MakeGlyphNames(), b)
	c.f.EnsureGlyphNames()
	w.Check(sameStrings(b, glyphNames(c.f)), "EnsureGlyphNames again", "%q instead of %q", glyphNames(c.f), b)
}

func c20Simple(w *W, r *rand.Rand, kind string) {
	c := c20Font(r, kind)
	o := c.f.Outlines.(*cff.Outlines)
	var text map[glyph.ID]string
	if r.Intn(4) > 0 {
		text = map[glyph.ID]string{}
		for i := range o.Glyphs {
			switch r.Intn(4) {
			case 0:
			case 1:
				text[glyph.ID(i)] = []string{"", "fi", "ffi", "Hello World this is a long text", "A", "B", "\U0001F600", "é", "ABCDEFGHIJKLMN"}[r.Intn(9)]
			default:
				text[glyph.ID(i)] = string(c20Runes[r.Intn(len(c20Runes))])
			}
		}
	}
	w.Eval(fmt.Sprintf("simple %s text=%q", c.desc, text))
	if !w.NoPanic("MakeSimple", func() { o.MakeSimple(text) }) {
		return
	}
	got := glyphNames(c.f)
	if !c20Basic(w, "MakeSimple", got, len(c.given)) {
		return
	}
	w.Check(o.ROS == nil && o.GIDToCID == nil && !o.IsCIDKeyed(), "MakeSimple: still CID-keyed", "%v", o.ROS)
	owner := map[string]bool{}
	count := map[string]int{}
	for i, s := range got {
		w.Check(names.IsValid(s), "MakeSimple: valid name", "glyph %d: %q", i, s)
		owner[s] = true
		count[c.given[i]]++
	}
	for i, s := range got {
		g := c.given[i]
		if i == 0 {
			continue
		}
		if g != "" && names.IsValid(g) && count[g] == 1 {
			w.Check(s == g, "MakeSimple: existing name", "glyph %d: %q instead of %q", i, s, g)
			continue
		}
		if g == s {
			continue
		}
		if t := text[glyph.ID(i)]; t != "" {
			base := names.FromUnicode(t)
			if s == base {
				continue
			}
			w.Check(owner[base] || !names.IsValid(base), "MakeSimple: character name", "glyph %d (%q): %q although %q is available", i, t, s, base)
			if strings.HasPrefix(s, base+".alt") {
				continue
			}
			if names.IsValid(base + ".alt999") {
				w.Fail("MakeSimple: character variant", "glyph %d (%q): %q", i, t, s)
			}
		}
		w.Check(ornRE.MatchString(s), "MakeSimple: placeholder", "glyph %d: %q", i, s)
	}
	if w.Check(len(o.Encoding) == 256, "MakeSimple: encoding", "%d entries", len(o.Encoding)) {
		std := map[string]glyph.ID{}
		for i, s := range got {
			std[s] = glyph.ID(i)
		}
		for code, g := range o.Encoding {
			if int(g) >= len(got) {
				w.Fail("MakeSimple: encoding", "code %d: glyph %d of %d", code, g, len(got))
				continue
			}
			want := glyph.ID(0)
			if code == 'A' || code == 'B' || code == 'C' || code == 'a' || code == 'b' || code == 'f' || code == 'i' {
				want = std[string(rune(code))]
			} else if code == ' ' {
				want = std["space"]
			} else {
				continue
			}
			w.Check(g == want, "MakeSimple: standard encoding", "code %d: glyph %d instead of %d", code, g, want)
		}
	}
	o.MakeSimple(nil)
	w.Check(sameStrings(got, glyphNames(c.f)), "MakeSimple again", "%q instead of %q", glyphNames(c.f), got)
}

func c20PSName(w *W, r *rand.Rand) {
	f := &sfnt.Font{Weight: os2.Weight(r.Intn(1001)), Width: os2.Width(r.Intn(10)), IsBold: r.Intn(2) == 0, IsItalic: r.Intn(2) == 0, IsOblique: r.Intn(2) == 0, IsRegular: r.Intn(2) == 0, IsSerif: r.Intn(2) == 0, IsScript: r.Intn(2) == 0, ItalicAngle: float64(r.Intn(30) - 15)}
	if r.Intn(2) == 0 {
		f.Weight = os2.Weight(r.Intn(65536))
		f.Width = os2.Width(r.Intn(65536))
	}
	b := make([]byte, r.Intn(20))
	for i := range b {
		switch r.Intn(3) {
		case 0:
			b[i] = byte(r.Intn(256))
		default:
			b[i] = byte(r.Intn(128))
		}
	}
	f.FamilyName = string(b)
	switch r.Intn(6) {
	case 0:
		f.FamilyName = "Times (New) [Roman] {x} <y> 50% a/b\t\n\x7f\x00" + string(c14Rune(r)) + "Größe"
	case 1:
		f.FamilyName = string([]rune{c14Rune(r), c14Rune(r), c14Rune(r)})
	}
	w.Eval(fmt.Sprintf("psname %q %d %d %v %v", f.FamilyName, f.Weight, f.Width, f.IsBold, f.IsItalic))
	var s string
	if !w.NoPanic("PostScriptName", func() { s = f.PostScriptName() }) {
		return
	}
	for i := 0; i < len(s); i++ {
		c := s[i]
		w.Check(c >= 33 && c <= 126 && !strings.ContainsRune("[](){}<>/%", rune(c)), "PostScript name", "%q contains %q (family %q)", s, c, f.FamilyName)
	}
	w.Check(s == f.PostScriptName(), "PostScript name again", "%q", s)
}

func c20(w *W) {
	for _, k := range []string{"glyf", "cff", "cid"} {
		w.Each("names "+k, w.Scale(8000, 200000), func(i int, r *rand.Rand) { c20Make(w, r, k) })
	}
	for _, k := range []string{"cff", "cid"} {
		w.Each("simple "+k, w.Scale(10000, 150000), func(i int, r *rand.Rand) { c20Simple(w, r, k) })
	}
	w.Each("psname", w.Scale(20000, 300000), func(i int, r *rand.Rand) { c20PSName(w, r) })
	// a font for every character of the private use area and beyond
	w.Each("many", w.Scale(8, 32), func(i int, r *rand.Rand) {
		n := []int{65535, 5000, 20000, 300}[i%4]
		o := &glyf.Outlines{Glyphs: make(glyf.Glyphs, n), Widths: make([]funit.Int16, n)}
		f := &sfnt.Font{FamilyName: "Test", UnitsPerEm: 1000, Outlines: o}
		c := &c20Case{f: f, cm: map[rune]glyph.ID{}, given: make([]string, n)}
		c.given[0] = ".notdef"
		m := cmap.Format12{}
		for k := 1; k < n; k += 1 + i%3 {
			u := rune(0x10000 - 0x2000 + k)
			c.cm[u] = glyph.ID(k)
			m[uint32(u)] = glyph.ID(k)
		}
		if i >= 4 {
			f.InstallCMap(m)
		} else {
			c.cm = nil
		}
		w.Eval(fmt.Sprintf("many %d %d", n, i))
		c20Names1(w, c, f.MakeGlyphNames())
	})
}
