package main

import (
	"bytes"
	"fmt"
	"math"
	"math/rand"
	"sort"
	"strings"

	"golang.org/x/text/language"
	"seehuhn.de/go/postscript/funit"

	"seehuhn.de/go/sfnt"
	"seehuhn.de/go/sfnt/cmap"
	"seehuhn.de/go/sfnt/glyf"
	"seehuhn.de/go/sfnt/glyph"
	"seehuhn.de/go/sfnt/header"
	"seehuhn.de/go/sfnt/kern"
	"seehuhn.de/go/sfnt/opentype/gdef"
	"seehuhn.de/go/sfnt/opentype/gtab"
)

func init() { register("C15", c15) }

var c15GsubDefault = map[string]bool{"calt": true, "ccmp": true, "clig": true, "liga": true, "locl": true}
var c15GposDefault = map[string]bool{"kern": true, "mark": true, "mkmk": true}

// refLookups lists the lookups of one language system.
func refLookups(info *gtab.Info, fe *gtab.Features, sw map[string]bool) []gtab.LookupIndex {
	var res []gtab.LookupIndex
	for l := range info.LookupList {
		on := false
		use := func(f gtab.FeatureIndex, always bool) {
			if int(f) >= len(info.FeatureList) {
				return
			}
			ft := info.FeatureList[f]
			if !always && !sw[ft.Tag] {
				return
			}
			for _, x := range ft.Lookups {
				on = on || int(x) == l
			}
		}
		use(fe.Required, true)
		for _, f := range fe.Optional {
			use(f, false)
		}
		if on {
			res = append(res, gtab.LookupIndex(l))
		}
	}
	return res
}

func fmtInfo(info *gtab.Info) string {
	var s []string
	for t, f := range info.ScriptList {
		s = append(s, fmt.Sprintf("%s: required %d optional %v", t, f.Required, f.Optional))
	}
	sort.Strings(s)
	for i, f := range info.FeatureList {
		s = append(s, fmt.Sprintf("feature %d %q %v", i, f.Tag, f.Lookups))
	}
	return strings.Join(s, "\n")
}

func cloneInfo(info *gtab.Info) *gtab.Info {
	c := *info
	c.ScriptList = gtab.ScriptListInfo{}
	keys := make([]language.Tag, 0, len(info.ScriptList))
	for t := range info.ScriptList {
		keys = append(keys, t)
	}
	sort.Slice(keys, func(i, j int) bool { return keys[i].String() > keys[j].String() })
	for _, t := range keys {
		c.ScriptList[t] = info.ScriptList[t]
	}
	return &c
}

// baseScript returns the language and the script of a tag (explicit or usual).
func baseScript(t language.Tag) (string, string) {
	b, _, _ := t.Raw()
	s, _ := t.Script()
	return b.String(), s.String()
}

// c15Find checks feature selection and returns the lookups found.
func c15Find(w *W, info *gtab.Info, lang language.Tag, sw map[string]bool) []gtab.LookupIndex {
	got := info.FindLookups(lang, sw)
	for i, l := range got {
		if !w.Check(int(l) < len(info.LookupList) && (i == 0 || got[i-1] < l), "lookup indices", "%s: %v with %d lookups", lang, got, len(info.LookupList)) {
			return got
		}
	}
	for k := 0; k < 3; k++ {
		again := info.FindLookups(lang, sw)
		if k > 0 {
			again = cloneInfo(info).FindLookups(lang, sw)
		}
		if !w.Check(fmt.Sprint(again) == fmt.Sprint(got), "same result for every call", "%s: %v and %v", lang, got, again) {
			return got
		}
	}
	// the language systems which may be chosen
	var exact, same []language.Tag
	lb, ls := baseScript(lang)
	for t := range info.ScriptList {
		tb, ts := baseScript(t)
		if t == lang {
			exact = append(exact, t)
		}
		if tb == lb && ts == ls && lb != "und" {
			same = append(same, t)
		}
	}
	var cand []language.Tag
	switch {
	case len(exact) > 0:
		cand = exact
	case len(same) > 0:
		cand = same
	default:
		for t := range info.ScriptList {
			cand = append(cand, t)
		}
	}
	var wants []string
	for _, t := range cand {
		want := fmt.Sprint(refLookups(info, info.ScriptList[t], sw))
		if fmt.Sprint(got) == want {
			w.Count(fmt.Sprintf("language system chosen among %d", min(len(cand), 3)), 1)
			return got
		}
		wants = append(wants, fmt.Sprintf("%s: %s", t, want))
	}
	if len(info.ScriptList) == 0 {
		w.Check(len(got) == 0, "no language systems", "%v", got)
		return got
	}
	w.Fail("feature selection", "%s with %v: lookups %v, expected %s", lang, sw, got, strings.Join(wants, " or "))
	return got
}

func c15Switches(r *rand.Rand, tags []string) map[string]bool {
	if r.Intn(8) == 0 {
		return map[string]bool{}
	}
	sw := map[string]bool{}
	for _, t := range tags {
		switch r.Intn(3) {
		case 0:
			sw[t] = true
		case 1:
			sw[t] = false
		}
	}
	return sw
}

// c15Scripts checks feature selection for 1 to 20 language systems.
func c15Scripts(w *W, r *rand.Rand, sc, lg []string) {
	m := map[langSys]feats{}
	n := 1 + r.Intn(20)
	for len(m) < n {
		s := sc[r.Intn(len(sc))]
		switch r.Intn(5) {
		case 0:
			s = "latn"
		case 1:
			s = "DFLT"
		case 2:
			s = "cyrl"
		}
		l := ""
		if r.Intn(3) > 0 {
			l = lg[r.Intn(len(lg))]
		}
		m[langSys{s, l}] = feats{req: 0xFFFF, opt: "0 "}
	}
	info, err := gtab.Read(bytes.NewReader(rawLayout(m, r.Perm, 4)), gtab.TypeGsub)
	if !w.Check(err == nil, "gtab.Read", "%v", err) {
		return
	}
	nf := 1 + r.Intn(12)
	nl := r.Intn(16)
	tags := []string{"liga", "calt", "ccmp", "kern", "mark", "smcp", "locl", "ss01"}
	info.FeatureList = nil
	for i := 0; i < nf; i++ {
		f := &gtab.Feature{Tag: tags[r.Intn(len(tags))]}
		for k := r.Intn(5); k > 0; k-- {
			f.Lookups = append(f.Lookups, gtab.LookupIndex(r.Intn(nl+2)))
		}
		if r.Intn(20) == 0 {
			f.Lookups = append(f.Lookups, 0xFFFF)
		}
		info.FeatureList = append(info.FeatureList, f)
	}
	info.LookupList = nil
	for i := 0; i < nl; i++ {
		info.LookupList = append(info.LookupList, &gtab.LookupTable{Meta: &gtab.LookupMetaInfo{LookupType: 1}})
	}
	var langs []language.Tag
	for t, f := range info.ScriptList {
		langs = append(langs, t)
		_ = f
	}
	sort.Slice(langs, func(i, j int) bool { return langs[i].String() < langs[j].String() })
	for _, t := range langs {
		f := &gtab.Features{Required: 0xFFFF}
		if r.Intn(2) == 0 {
			f.Required = gtab.FeatureIndex(r.Intn(nf + 1))
		}
		for k := r.Intn(6); k > 0; k-- {
			f.Optional = append(f.Optional, gtab.FeatureIndex(r.Intn(nf+1)))
		}
		info.ScriptList[t] = f
	}
	w.Eval(fmtInfo(info))
	for k := 0; k < 6; k++ {
		lang := langs[r.Intn(len(langs))]
		switch r.Intn(4) {
		case 0:
			lang = c15Langs[r.Intn(len(c15Langs))]
		case 1:
			s := refScripts[sc[r.Intn(len(sc))]]
			if t, err := language.Parse("und-" + s); err == nil {
				lang = t
			}
		case 2:
			// the language of an entry, in a plain form
			b, s, _ := lang.Raw()
			if t, err := language.Parse(b.String() + "-" + s.String()); err == nil {
				lang = t
			}
		}
		c15Find(w, info, lang, c15Switches(r, tags))
	}
}

var c15Langs []language.Tag

// c15Layout compares Layout with the composition of the individual steps.
func c15Layout(w *W, r *rand.Rand, f *sfnt.Font, strs []string, lang language.Tag, gsub, gpos map[string]bool) {
	best, err := f.CMapTable.GetBest()
	l, err2 := f.NewLayouter(lang, gsub, gpos)
	if err != nil {
		w.Check(err2 != nil, "layouter without cmap", "no error")
		w.Count("fonts without a usable cmap", 1)
		return
	}
	if !w.Check(err2 == nil, "NewLayouter", "%v", err2) {
		return
	}
	var gsubLookups, gposLookups []gtab.LookupIndex
	sw := gsub
	if sw == nil {
		sw = c15GsubDefault
	}
	if f.Gsub != nil {
		gsubLookups = c15Find(w, f.Gsub, lang, sw)
	}
	sw = gpos
	if sw == nil {
		sw = c15GposDefault
	}
	if f.Gpos != nil {
		gposLookups = c15Find(w, f.Gpos, lang, sw)
	}
	for _, s := range strs {
		w.Eval(fmt.Sprintf("layout %q, language %s, GSUB %v, GPOS %v", s, lang, gsub, gpos))
		var want []glyph.Info
		for _, c := range s {
			want = append(want, glyph.Info{GID: best.Lookup(c), Text: []rune{c}})
		}
		if gsubLookups != nil {
			sh := &refShaper{ll: f.Gsub.LookupList, gd: f.Gdef}
			want = sh.run(gsubLookups, want)
			if sh.undef {
				w.Count("undetermined by the rules", 1)
				continue
			}
		}
		frac := map[int]float64{}
		for i := range want {
			if f.Gdef != nil && f.Gdef.GlyphClass[want[i].GID] == gdef.GlyphClassMark {
				w.Count("marks", 1)
				continue
			}
			x := c15Width(f, want[i].GID)
			want[i].Advance = funit.Int16(x)
			if x != math.Trunc(x) {
				frac[i] = x
			}
		}
		if gposLookups != nil {
			sh := &refShaper{ll: f.Gpos.LookupList, gd: f.Gdef}
			want = sh.run(gposLookups, want)
			if sh.undef {
				w.Count("undetermined by the rules", 1)
				continue
			}
		}
		got := copySeq(l.Layout(s))
		if len(frac) > 0 && len(got) == len(want) {
			// fractional widths may be rounded either way
			w.Count("texts with fractional widths", 1)
			for i := range frac {
				if d := got[i].Advance - want[i].Advance; d >= -1 && d <= 1 {
					want[i].Advance = got[i].Advance
				}
			}
		}
		if !sameSeq(got, want) {
			w.Fail("layout", "%q: got %s, expected %s", s, fmtSeq(got), fmtSeq(want))
			return
		}
		if len(gsubLookups)+len(gposLookups) == 0 {
			w.Count("texts without rules", 1)
			rr := []rune(s)
			w.Check(len(got) == len(rr), "one glyph per character", "%d glyphs for %d characters", len(got), len(rr))
		}
		// a fresh layouter gives the same
		l2, err := f.NewLayouter(lang, gsub, gpos)
		if w.Check(err == nil, "NewLayouter", "%v", err) {
			w.Check(sameSeq(l2.Layout(s), got), "layouter reuse", "%q", s)
		}
	}
}

func c15Width(f *sfnt.Font, gid glyph.ID) float64 {
	if o, ok := f.Outlines.(*glyf.Outlines); ok {
		if int(gid) >= len(o.Widths) {
			return 0
		}
		return float64(o.Widths[gid])
	}
	if o := f.AsCFF(); int(gid) < len(o.Glyphs) {
		return o.Glyphs[gid].Width
	}
	return 0
}

func c15Strings(r *rand.Rand, runes []rune, n int) []string {
	res := []string{""}
	for i := 0; i < n; i++ {
		var sb strings.Builder
		for k := r.Intn(14); k > 0; k-- {
			switch {
			case r.Intn(8) == 0:
				sb.WriteRune(textRunes[r.Intn(len(textRunes))])
			case r.Intn(30) == 0:
				sb.WriteByte(byte(0x80 + r.Intn(128)))
			case len(runes) > 0:
				sb.WriteRune(runes[r.Intn(len(runes))])
			}
		}
		res = append(res, sb.String())
	}
	return res
}

// c15File rebuilds a font file with changed tables (nil removes a table).
func c15File(w *W, f *sfnt.Font, repl map[string][]byte) *sfnt.Font {
	b, err := writeFont(f)
	if !w.Check(err == nil, "Font.Write", "%v", err) {
		return nil
	}
	hdr, err := header.Read(bytes.NewReader(b))
	if err != nil {
		w.Fail("header.Read", "%v", err)
		return nil
	}
	tabs := map[string][]byte{}
	for tag, rec := range hdr.Toc {
		tabs[tag] = b[rec.Offset : rec.Offset+rec.Length]
	}
	for tag, t := range repl {
		if t == nil {
			delete(tabs, tag)
		} else {
			tabs[tag] = t
		}
	}
	var buf bytes.Buffer
	if _, err := header.Write(&buf, hdr.ScalerType, tabs); err != nil {
		w.Fail("header.Write", "%v", err)
		return nil
	}
	w.Input(buf.Bytes())
	g, err := sfnt.Read(bytes.NewReader(buf.Bytes()))
	if !w.Check(err == nil, "sfnt.Read", "%v", err) {
		return nil
	}
	return g
}

type c15Sub struct {
	version, format, flags int
	pairs                  []kernPair
}

type kernPair struct{ l, r, v int }

func encodeKern(subs []c15Sub) []byte {
	b := []byte{0, 0, byte(len(subs) >> 8), byte(len(subs))}
	for _, s := range subs {
		n := len(s.pairs)
		length := 14 + 6*n
		if s.format == 2 {
			// class based table, contents irrelevant here
			length = 14 + 10
			b = p16(p16(p16(b, s.version), length), s.format<<8|s.flags)
			b = append(b, make([]byte, 18)...)
			continue
		}
		b = p16(p16(p16(b, s.version), length&0xFFFF), s.format<<8|s.flags)
		es := 0
		for 2<<es <= n {
			es++
		}
		b = p16(p16(p16(p16(b, n), 6<<es), es), 6*(n-1<<es))
		for _, p := range s.pairs {
			b = p16(p16(p16(b, p.l), p.r), p.v&0xFFFF)
		}
	}
	return b
}

// c15Kern checks fonts with a legacy kern table.
func c15Kern(w *W, r *rand.Rand, big bool) {
	g := newFontGen(r, []string{"glyf", "cff", "cid"}[r.Intn(3)])
	g.layout = false
	f := g.font()
	if g.n < 2 {
		return
	}
	var subs []c15Sub
	ns := 1 + r.Intn(4)
	if big {
		ns = 1 + r.Intn(2)
	}
	pool := 2 + r.Intn(min(g.n, 12))
	for k := 0; k < ns; k++ {
		s := c15Sub{flags: 1}
		switch r.Intn(10) {
		case 0, 1:
			s.flags = 3 // minimum
		case 2, 3:
			s.flags = 9 // override
		case 4:
			s.flags = []int{0, 5, 2, 4, 8}[r.Intn(5)] // vertical or cross-stream
		case 5:
			s.format = 2
		}
		if big {
			s.flags, s.format = 1, 0
		}
		n := r.Intn(20)
		if big {
			n = []int{10919, 10920, 10921, 10922, 12000, 20000, 33000, 65535}[r.Intn(8)]
		}
		seen := map[[2]int]bool{}
		for i := 0; i < n; i++ {
			p := kernPair{1 + r.Intn(pool), 1 + r.Intn(pool), r.Intn(401) - 200}
			if big {
				p.l, p.r = i/300, i%300
			}
			if p.l >= g.n || p.r >= g.n {
				if !big {
					continue
				}
			}
			if r.Intn(10) == 0 {
				p.v = []int{0, 32767 / 5, -32768 / 5, 1, -1}[r.Intn(5)]
			}
			if seen[[2]int{p.l, p.r}] {
				continue
			}
			seen[[2]int{p.l, p.r}] = true
			s.pairs = append(s.pairs, p)
		}
		sort.Slice(s.pairs, func(i, j int) bool {
			a, b := s.pairs[i], s.pairs[j]
			return a.l < b.l || a.l == b.l && a.r < b.r
		})
		subs = append(subs, s)
	}
	ref := map[[2]int]int{}
	for _, s := range subs {
		if s.format != 0 || s.flags&1 == 0 || s.flags&4 != 0 {
			continue
		}
		for _, p := range s.pairs {
			k := [2]int{p.l, p.r}
			switch {
			case s.flags&2 != 0:
				ref[k] = max(ref[k], p.v)
			case s.flags&8 != 0:
				ref[k] = p.v
			default:
				ref[k] += p.v
			}
		}
	}
	kt := encodeKern(subs)
	if len(kt) < 4000 {
		w.Eval(fmt.Sprint("kern ", subs))
	} else {
		w.Eval(fmt.Sprintf("kern table with %d pairs", len(subs[0].pairs)))
	}
	info, err := kern.Read(bytes.NewReader(kt))
	if !w.Check(err == nil, "kern.Read", "%v", err) {
		return
	}
	cmpKern := func(key string, info kern.Info) {
		for k, v := range ref {
			x := info[glyph.Pair{Left: glyph.ID(k[0]), Right: glyph.ID(k[1])}]
			if !w.Check(int(x) == v, key, "pair %v: %d instead of %d", k, x, v) {
				return
			}
		}
		for k, v := range info {
			if !w.Check(v == 0 || ref[[2]int{int(k.Left), int(k.Right)}] == int(v), key, "pair %v: unexpected value %d", k, v) {
				return
			}
		}
	}
	cmpKern("kern.Read", info)
	w.Count("kerning pairs", int64(len(ref)))

	// encoding
	enc := info.Encode()
	back, err := kern.Read(bytes.NewReader(enc))
	if w.Check(err == nil, "kern.Read (encoded)", "%v", err) {
		cmpKern("kern.Encode", back)
	}

	f2 := c15File(w, f, map[string][]byte{"kern": kt})
	if f2 == nil {
		return
	}
	best, err := f2.CMapTable.GetBest()
	if err != nil {
		return
	}
	// characters for the glyphs
	byGid := map[int]rune{}
	for _, c := range g.runes {
		if gid := int(best.Lookup(c)); gid != 0 {
			byGid[gid] = c
		}
	}
	if len(byGid) == 0 {
		return
	}
	sw := []map[string]bool{nil, {"kern": true}}[r.Intn(2)]
	for k := 0; k < 5; k++ {
		lang := c15Langs[r.Intn(len(c15Langs))]
		l, err := f2.NewLayouter(lang, nil, sw)
		if !w.Check(err == nil, "NewLayouter", "%v", err) {
			return
		}
		var rr []rune
		if k == 0 {
			for p := range subs {
				for _, q := range subs[p].pairs {
					if len(rr) < 300 && byGid[q.l] != 0 && byGid[q.r] != 0 {
						rr = append(rr, byGid[q.l], byGid[q.r])
					}
				}
			}
		} else {
			for n := r.Intn(20); n > 0; n-- {
				if c := byGid[1+r.Intn(pool)]; c != 0 {
					rr = append(rr, c)
				} else {
					rr = append(rr, g.runes[r.Intn(len(g.runes))])
				}
			}
		}
		w.Eval(fmt.Sprintf("%v\nkern layout %q language %s switches %v", subs, string(rr), lang, sw))
		got := l.Layout(string(rr))
		if !w.Check(len(got) == len(rr), "kern layout", "%d glyphs for %d characters", len(got), len(rr)) {
			return
		}
		for i, x := range got {
			gid := best.Lookup(rr[i])
			adv := c15Width(f2, gid)
			kv := 0
			if i+1 < len(rr) {
				kv = ref[[2]int{int(gid), int(best.Lookup(rr[i+1]))}]
			}
			if kv != 0 {
				w.Count("kerned pairs in texts", 1)
			}
			want := adv + float64(kv)
			if want > 32767 || want < -32768 {
				continue
			}
			if !w.Check(x.GID == gid && string(x.Text) == string(rr[i]) && math.Abs(float64(x.Advance)-want) < 1 && x.XOffset == 0 && x.YOffset == 0, "kern layout", "glyph %d: %s, expected glyph %d with advance %g+%d", i, fmtSeq(got[i:i+1]), gid, adv, kv) {
				return
			}
		}
	}
}

// c15Ligatures checks the ligatures added to fonts without GSUB table.
func c15Ligatures(w *W, r *rand.Rand) {
	g := newFontGen(r, []string{"glyf", "cff", "cid"}[r.Intn(3)])
	g.layout = false
	f := g.font()
	n := f.NumGlyphs()
	if n < 2 {
		return
	}
	lig := []rune{0xFB00, 0xFB01, 0xFB02, 0xFB03, 0xFB04}
	exp := []string{"ff", "fi", "fl", "ffi", "ffl"}
	m := cmap.Format4{}
	for _, c := range "fliabx" {
		if r.Intn(8) > 0 {
			m[uint16(c)] = glyph.ID(1 + r.Intn(n-1))
		}
	}
	for _, c := range lig {
		if r.Intn(4) > 0 {
			m[uint16(c)] = glyph.ID(1 + r.Intn(n-1))
		}
	}
	f.CMapTable = cmap.Table{{PlatformID: 3, EncodingID: 1}: m.Encode(0)}
	f.Gsub = nil
	f2 := c15File(w, f, map[string][]byte{"GSUB": nil})
	if f2 == nil {
		return
	}
	fixed, wid := true, 0.0
	for i := 0; i < n; i++ {
		x := c15Width(f2, glyph.ID(i))
		if x == 0 {
			continue
		}
		if wid == 0 {
			wid = x
		}
		if math.Abs(x-wid) >= 0.5 {
			fixed = false
		}
	}
	if fixed {
		w.Count("fixed pitch fonts", 1)
	}
	// ligatures by glyph sequence, longest first
	type rule struct {
		in  []glyph.ID
		out glyph.ID
	}
	var rules []rule
	for _, k := range []int{3, 4, 0, 1, 2} {
		if fixed || m[uint16(lig[k])] == 0 {
			continue
		}
		var in []glyph.ID
		for _, c := range exp[k] {
			in = append(in, m[uint16(c)])
		}
		ok := true
		for _, x := range in {
			ok = ok && x != 0
		}
		if ok {
			rules = append(rules, rule{in, m[uint16(lig[k])]})
		}
	}
	for k := 0; k < 8; k++ {
		var rr []rune
		for n := r.Intn(12); n > 0; n-- {
			rr = append(rr, []rune("ffffiillabxﬀﬁﬃ")[r.Intn(14)])
		}
		lang := c15Langs[r.Intn(len(c15Langs))]
		sw := []map[string]bool{nil, {"liga": true}, {"liga": false}, {}}[max(0, r.Intn(6)-2)]
		on := sw == nil || sw["liga"]
		w.Eval(fmt.Sprintf("ligatures: cmap %v, text %q, language %s, switches %v, fixed pitch %v", m, string(rr), lang, sw, fixed))
		l, err := f2.NewLayouter(lang, sw, nil)
		if !w.Check(err == nil, "NewLayouter", "%v", err) {
			return
		}
		var want []glyph.Info
		for i := 0; i < len(rr); {
			x := glyph.Info{GID: m[uint16(rr[i])], Text: []rune{rr[i]}}
			for _, ru := range rules {
				if !on || i+len(ru.in) > len(rr) {
					continue
				}
				ok := true
				for j, gid := range ru.in {
					ok = ok && gid == m[uint16(rr[i+j])]
				}
				if ok {
					x = glyph.Info{GID: ru.out, Text: rr[i : i+len(ru.in)]}
					w.Count("ligatures", 1)
					break
				}
			}
			x.Advance = funit.Int16(c15Width(f2, x.GID))
			i += len(x.Text)
			want = append(want, x)
		}
		got := l.Layout(string(rr))
		for i := range want {
			if i < len(got) && math.Abs(float64(got[i].Advance)-c15Width(f2, want[i].GID)) < 1 {
				want[i].Advance = got[i].Advance
			}
		}
		if !w.Check(sameSeq(got, want), "standard ligatures", "%q: got %s, expected %s", string(rr), fmtSeq(got), fmtSeq(want)) {
			return
		}
	}
}

func c15(w *W) {
	for _, s := range []string{"und", "en", "de", "fr", "en-US", "de-AT", "tr", "uk", "ja", "zh-Hant", "ar", "hi", "sr-Latn", "sr-Cyrl", "und-Latn", "und-Arab", "und-Latn-x-latn", "de-Latn-x-latn-deu", "und-Zzzz-x-dflt", "ru", "el", "x-private", "ja-Hrkt-x-kana-jan"} {
		c15Langs = append(c15Langs, language.MustParse(s))
	}
	sc, lg := sortedKeys(refScripts), sortedKeys(refLangs)
	w.Each("defaults", 1, func(i int, r *rand.Rand) {
		w.Eval("default features")
		w.Check(fmt.Sprint(gtab.GsubDefaultFeatures) == fmt.Sprint(c15GsubDefault), "default GSUB features", "%v", gtab.GsubDefaultFeatures)
		w.Check(fmt.Sprint(gtab.GposDefaultFeatures) == fmt.Sprint(c15GposDefault), "default GPOS features", "%v", gtab.GposDefaultFeatures)
		var none *gtab.Info
		w.Check(none.FindLookups(language.English, nil) == nil, "no table", "lookups found")
	})
	w.Each("features", w.Scale(8000, 60000), func(i int, r *rand.Rand) { c15Scripts(w, r, sc, lg) })
	w.Each("layout", w.Scale(8000, 60000), func(i int, r *rand.Rand) {
		g := newFontGen(r, []string{"glyf", "cff", "cid"}[i%3])
		g.layout = r.Intn(8) > 0
		f := g.font()
		for k := 0; k < 3; k++ {
			var gsub, gpos map[string]bool
			if r.Intn(3) > 0 {
				gsub = c15Switches(r, []string{"liga", "clig", "ccmp", "smcp"})
			}
			if r.Intn(3) > 0 {
				gpos = c15Switches(r, []string{"kern", "mark", "mkmk", "cpsp"})
			}
			lang := c15Langs[r.Intn(len(c15Langs))]
			c15Layout(w, r, f, c15Strings(r, g.runes, 6), lang, gsub, gpos)
		}
	})
	w.Each("kern", w.Scale(4000, 40000), func(i int, r *rand.Rand) { c15Kern(w, r, false) })
	w.Each("kern large", w.Scale(16, 200), func(i int, r *rand.Rand) { c15Kern(w, r, true) })
	w.Each("ligatures", w.Scale(4000, 40000), func(i int, r *rand.Rand) { c15Ligatures(w, r) })
}
