package main

import (
	"bytes"
	"encoding/binary"
	"fmt"
	"math/rand"
	"sort"
	"strings"
	"unicode/utf16"

	ximg "golang.org/x/image/font/sfnt"
	"golang.org/x/text/encoding/charmap"
	"golang.org/x/text/language"

	"seehuhn.de/go/postscript/funit"

	"seehuhn.de/go/sfnt"
	"seehuhn.de/go/sfnt/cmap"
	"seehuhn.de/go/sfnt/glyf"
	"seehuhn.de/go/sfnt/header"
	"seehuhn.de/go/sfnt/mac"
	"seehuhn.de/go/sfnt/name"
	"seehuhn.de/go/sfnt/opentype/gtab"
	"seehuhn.de/go/sfnt/post"
)

func init() { register("C14", c14) }

// c14Mac checks the Mac Roman codec.
func c14Mac(w *W, r *rand.Rand, buf []byte) {
	w.Eval(fmt.Sprintf("mac %x", buf))
	want, _ := charmap.Macintosh.NewDecoder().Bytes(buf)
	got := mac.Decode(buf)
	w.Check(got == string(want), "mac.Decode", "%q instead of %q", got, want)
	for _, c := range buf {
		u := []rune(mac.Decode([]byte{c}))
		w.Check(len(u) == 1 && mac.DecodeOne(c) == u[0], "mac.DecodeOne", "%x: %x instead of %x", c, mac.DecodeOne(c), u)
	}
	back := mac.Encode(got)
	w.Check(bytes.Equal(back, buf), "mac.Encode inverts mac.Decode", "%x instead of %x", back, buf)
	// strings with characters outside the repertoire
	var rr []rune
	for k := r.Intn(20); k > 0; k-- {
		switch r.Intn(3) {
		case 0:
			rr = append(rr, charmap.Macintosh.DecodeByte(byte(r.Intn(256))))
		case 1:
			rr = append(rr, rune(r.Intn(0x300)))
		default:
			rr = append(rr, c14Rune(r))
		}
	}
	b := mac.Encode(string(rr))
	if w.Check(len(b) == len(rr), "mac.Encode length", "%d bytes for %d characters", len(b), len(rr)) {
		for i, u := range rr {
			c, ok := charmap.Macintosh.EncodeRune(u)
			if !ok {
				c = '?'
			}
			w.Check(b[i] == c, "mac.Encode", "U+%04X: %x instead of %x", u, b[i], c)
		}
	}
}

// c14Rune is a random Unicode scalar value.
func c14Rune(r *rand.Rand) rune {
	switch r.Intn(8) {
	case 0:
		return rune(0x10000 + r.Intn(0x100000))
	case 1:
		return []rune{0, 1, 0x7f, 0x80, 0xFF, 0x100, 0xD7FF, 0xE000, 0xFEFF, 0xFFFD, 0xFFFE, 0xFFFF, 0x10000, 0x10FFFF, 0x1F600}[r.Intn(15)]
	case 2:
		u := rune(r.Intn(0x10000))
		if u >= 0xD800 && u < 0xE000 {
			u -= 0x800
		}
		return u
	case 3:
		return charmap.Macintosh.DecodeByte(byte(r.Intn(256)))
	}
	return rune(' ' + r.Intn(95))
}

// c14String makes a non-empty string; onMac restricts it to the Mac Roman repertoire.
func c14String(r *rand.Rand, onMac bool, max int) string {
	n := 1 + r.Intn(30)
	if r.Intn(8) == 0 {
		n = 1 + r.Intn(max)
	}
	if n > max {
		n = max
	}
	var sb strings.Builder
	units := 0
	for units < n {
		var u rune
		if onMac {
			u = charmap.Macintosh.DecodeByte(byte(r.Intn(256)))
			if r.Intn(2) == 0 {
				u = rune(' ' + r.Intn(95))
			}
		} else {
			u = c14Rune(r)
		}
		k := utf16.RuneLen(u)
		if units+k > n && units > 0 {
			break
		}
		units += k
		sb.WriteRune(u)
	}
	return sb.String()
}

func c14Set(t *name.Table, id int, val string) {
	fields := []*string{0: &t.Copyright, 1: &t.Family, 2: &t.Subfamily, 3: &t.Identifier, 4: &t.FullName, 5: &t.Version, 6: &t.PostScriptName, 7: &t.Trademark, 8: &t.Manufacturer, 9: &t.Designer, 10: &t.Description, 11: &t.VendorURL, 12: &t.DesignerURL, 13: &t.License, 14: &t.LicenseURL, 15: nil, 16: &t.TypographicFamily, 17: &t.TypographicSubfamily, 18: &t.MacFullName, 19: &t.SampleText, 20: &t.CIDFontName, 21: &t.WWSFamily, 22: &t.WWSSubfamily, 23: &t.LightBackgroundPalette, 24: &t.DarkBackgroundPalette, 25: &t.VariationsPostScriptName}
	if id < len(fields) && fields[id] != nil {
		*fields[id] = val
		return
	}
	if t.Extra == nil {
		t.Extra = map[name.ID]string{}
	}
	t.Extra[name.ID(id)] = val
}

type nameKey struct{ platform, lang, id int }

var macTags, winTags []string

func init() {
	for _, x := range []struct {
		m map[int]string
		l *[]string
	}{{refMacLang, &macTags}, {refWinLang, &winTags}} {
		seen := map[string]bool{}
		for _, t := range x.m {
			if !seen[t] {
				seen[t] = true
				*x.l = append(*x.l, t)
			}
		}
		sort.Strings(*x.l)
	}
}

// c14Info makes a name table.  The result lists the expected records.
func c14Info(r *rand.Rand, size int) (*name.Info, map[nameKey]string) {
	info := &name.Info{Mac: name.Tables{}, Windows: name.Tables{}}
	want := map[nameKey]string{}
	pool := []string{}
	str := func(onMac bool, max int) string {
		if len(pool) > 0 && r.Intn(4) == 0 {
			s := pool[r.Intn(len(pool))]
			if !onMac {
				return s
			}
			ok := true
			for _, u := range s {
				_, k := charmap.Macintosh.EncodeRune(u)
				ok = ok && k
			}
			if ok {
				return s
			}
		}
		s := c14String(r, onMac, max)
		pool = append(pool, s)
		return s
	}
	ids := func() []int {
		var res []int
		switch r.Intn(4) {
		case 0:
			for i := 0; i <= 25; i++ {
				res = append(res, i)
			}
		case 1:
			for k := r.Intn(6); k >= 0; k-- {
				res = append(res, r.Intn(65536))
			}
		case 2:
			for k := r.Intn(6); k >= 0; k-- {
				res = append(res, []int{15, 24, 25, 26, 27, 255, 256, 257, 32767, 32768, 65535, 281, 6, 0}[r.Intn(14)])
			}
		default:
			for k := r.Intn(10); k >= 0; k-- {
				res = append(res, r.Intn(26))
			}
		}
		return res
	}
	max := 200
	if size > 0 {
		max = size
	}
	for p, x := range []struct {
		all []string
		m   map[int]string
		tt  name.Tables
	}{{macTags, refMacLang, info.Mac}, {winTags, refWinLang, info.Windows}} {
		k := r.Intn(4)
		if r.Intn(30) == 0 && size == 0 {
			k = len(x.all)
		}
		perm := r.Perm(len(x.all))[:k]
		for _, j := range perm {
			tag := x.all[j]
			t := &name.Table{}
			ii := ids()
			if k > 10 {
				ii = ii[:1+r.Intn(min(3, len(ii)))]
			}
			vals := map[int]string{}
			for _, id := range ii {
				s := str(p == 0, max)
				c14Set(t, id, s)
				vals[id] = s
			}
			x.tt[tag] = t
			for lang, tg := range x.m {
				if tg == tag {
					for id, s := range vals {
						want[nameKey{1 + 2*p, lang, id}] = s
					}
				}
			}
		}
	}
	return info, want
}

func encodeUTF16(s string) []byte {
	var b []byte
	for _, u := range utf16.Encode([]rune(s)) {
		b = append(b, byte(u>>8), byte(u))
	}
	return b
}

func encodeName(platform int, s string) []byte {
	if platform == 3 {
		return encodeUTF16(s)
	}
	var b []byte
	for _, u := range s {
		c, _ := charmap.Macintosh.EncodeRune(u)
		b = append(b, c)
	}
	return b
}

// namesFit tells whether the records can be stored in a name table: offsets
// and lengths have 16 bits, equal strings are shared.
func namesFit(want map[nameKey]string) bool {
	if 6+12*len(want) > 0xFFFF {
		return false
	}
	seen := map[string]bool{}
	total, longest := 0, 0
	for k, s := range want {
		b := string(encodeName(k.platform, s))
		if len(b) > 0xFFFF {
			return false
		}
		if !seen[b] {
			seen[b] = true
			total += len(b)
			longest = max(longest, len(b))
		}
	}
	return total-longest <= 0xFFFF
}

func c14Names(w *W, r *rand.Rand, size int) {
	info, want := c14Info(r, size)
	enc := uint16(1)
	if r.Intn(3) == 0 {
		enc = 10
	}
	fits := namesFit(want)
	w.Eval(fmt.Sprintf("names %d records, size %d, fits %v, %v", len(want), size, fits, info))
	if !fits {
		w.Count("names do not fit", 1)
	} else if size > 0 {
		w.Count("large name tables", 1)
	}
	var b []byte
	if !w.NoPanic("name.Info.Encode", func() { b = info.Encode(enc) }) {
		return
	}
	w.Input(b)
	if !w.Check(len(b) >= 6, "name header", "%d bytes", len(b)) {
		return
	}
	w.Check(u16(b, 0) == 0, "name version", "%d", u16(b, 0))
	n, start := u16(b, 2), u16(b, 4)
	if !w.Check(start >= 6+12*n && start <= len(b), "name storage offset", "%d for %d records, %d bytes", start, n, len(b)) {
		return
	}
	if fits {
		w.Check(n == len(want), "name records", "%d instead of %d", n, len(want))
	}
	prev := ""
	found := map[nameKey]bool{}
	for i := 0; i < n; i++ {
		rec := b[6+12*i:]
		key := string(rec[:8])
		w.Check(i == 0 || key > prev, "name record order", "%x after %x", key, prev)
		prev = key
		k := nameKey{u16(rec, 0), u16(rec, 4), u16(rec, 6)}
		found[k] = true
		wantEnc := 0
		if k.platform == 3 {
			wantEnc = int(enc)
		}
		w.Check(u16(rec, 2) == wantEnc, "name encoding ID", "%d for platform %d", u16(rec, 2), k.platform)
		s, ok := want[k]
		if !w.Check(ok, "name record", "unexpected record %+v", k) {
			continue
		}
		l, o := u16(rec, 8), start+u16(rec, 10)
		if w.Check(o+l <= len(b), "name string position", "%d+%d in %d bytes", o, l, len(b)) {
			e := encodeName(k.platform, s)
			w.Check(bytes.Equal(b[o:o+l], e), "name string", "%+v: %s instead of %s", k, short(b[o:o+l]), short(e))
		}
	}
	var info2 *name.Info
	var err error
	if !w.NoPanic("name.Decode", func() { info2, err = name.Decode(b) }) {
		return
	}
	if !w.Check(err == nil, "name.Decode", "%v", err) {
		return
	}
	if !fits {
		// whatever is read must be correct
		for p, tt := range map[int][2]name.Tables{1: {info.Mac, info2.Mac}, 3: {info.Windows, info2.Windows}} {
			for tag, t := range tt[1] {
				o := tt[0][tag]
				if !w.Check(o != nil, "name table language", "platform %d: unexpected language %q", p, tag) {
					continue
				}
				for k, s := range t.Extra {
					w.Check(o.Extra[k] == s, "name round trip", "platform %d, %q, id %d: %s", p, tag, k, short([]byte(s)))
				}
				c := *t
				c.Extra = nil
				w.Check(t.Family == "" || t.Family == o.Family, "name round trip", "platform %d, %q: %s", p, tag, short([]byte(t.Family)))
			}
		}
		return
	}
	if d := diffVals(dropEmpty(info), info2, 0); d != "" {
		w.Fail("name round trip", "encoding %d: %s", enc, d)
	}
	b2 := info2.Encode(enc)
	w.Check(bytes.Equal(b, b2), "name fixed point", "%d and %d bytes", len(b), len(b2))
	if r.Intn(8) == 0 && len(b) < 20000 && enc == 1 {
		c14XNames(w, b, want)
	}
	c14Choose(w, r, info2)
}

func short(b []byte) string {
	if len(b) > 60 {
		return fmt.Sprintf("%q... (%d bytes)", b[:60], len(b))
	}
	return fmt.Sprintf("%q", b)
}

func dropEmpty(info *name.Info) *name.Info {
	res := &name.Info{Mac: name.Tables{}, Windows: name.Tables{}}
	for k, v := range info.Mac {
		res.Mac[k] = v
	}
	for k, v := range info.Windows {
		res.Windows[k] = v
	}
	return res
}

// c14Choose checks that the table for a language which is available is chosen.
func c14Choose(w *W, r *rand.Rand, info *name.Info) {
	distinct := []string{"en-US", "de-DE", "fr-FR", "ja-JP", "ko-KR", "ru-RU", "th-TH", "el-GR", "he-IL", "tr-TR", "hu-HU", "fi-FI", "vi-VN", "ta-IN"}
	tt := name.Tables{}
	for _, j := range r.Perm(len(distinct))[:1+r.Intn(5)] {
		t := &name.Table{Family: distinct[j]}
		if r.Intn(2) == 0 {
			t.FullName = "x"
			t.Copyright = "y"
		}
		tt[distinct[j]] = t
	}
	for k, t := range tt {
		got, conf := tt.Choose(language.MustParse(k))
		w.Check(got == t && conf == language.Exact, "Tables.Choose", "%v for %q", got, k)
	}
	for _, tables := range []name.Tables{info.Mac, info.Windows} {
		got, _ := tables.Choose(language.AmericanEnglish)
		if len(tables) == 0 {
			w.Check(got == nil, "Tables.Choose without tables", "%v", got)
			continue
		}
		ok := false
		for _, t := range tables {
			ok = ok || t == got
		}
		w.Check(ok, "Tables.Choose", "the result is not one of the tables")
		if t := tables["en-US"]; t != nil {
			w.Check(got == t, "Tables.Choose", "en-US is available but was not chosen")
		}
	}
}

var c14Bases = map[int]map[string][]byte{}

// c14Font makes a font with n glyphs, and with the given tables replaced.
func c14Font(w *W, n int, repl map[string][]byte) *ximg.Font {
	base := c14Bases[n]
	if base == nil {
		g := newFontGen(rand.New(rand.NewSource(1)), "glyf")
		g.layout = false
		f := g.font()
		o := &glyf.Outlines{Glyphs: make(glyf.Glyphs, n), Widths: make([]funit.Int16, n), Maxp: f.Outlines.(*glyf.Outlines).Maxp}
		for i, gl := range f.Outlines.(*glyf.Outlines).Glyphs {
			if gl != nil && i < n {
				if _, ok := gl.Data.(glyf.SimpleGlyph); ok {
					o.Glyphs[0] = gl
					break
				}
			}
		}
		ff := *f
		ff.Outlines = o
		ff.Gsub, ff.Gpos, ff.Gdef = nil, nil, nil
		ff.CMapTable = nil
		ff.InstallCMap(cmap.Format4{'A': 0})
		b, err := writeFont((*sfnt.Font)(&ff))
		if err != nil {
			w.Fail("Write", "%v", err)
			return nil
		}
		base = checkContainer(w, b, header.ScalerTypeTrueType)
		if base == nil {
			return nil
		}
		c14Bases[n] = base
	}
	tabs := map[string][]byte{}
	for k, v := range base {
		tabs[k] = append([]byte{}, v...)
	}
	for k, v := range repl {
		tabs[k] = v
	}
	buf := &bytes.Buffer{}
	if _, err := header.Write(buf, header.ScalerTypeTrueType, tabs); err != nil {
		w.Fail("header.Write", "%v", err)
		return nil
	}
	x, err := ximg.Parse(buf.Bytes())
	if !w.Check(err == nil, "independent parser", "%v", err) {
		return nil
	}
	return x
}

// c14XNames compares the names with the view of an independent reader, which
// uses the first Macintosh Roman or Windows Unicode record.
func c14XNames(w *W, b []byte, want map[nameKey]string) {
	x := c14Font(w, 5, map[string][]byte{"name": b})
	if x == nil {
		return
	}
	first := map[int]nameKey{}
	for k := range want {
		o, ok := first[k.id]
		if !ok || k.platform < o.platform || k.platform == o.platform && k.lang < o.lang {
			first[k.id] = k
		}
	}
	for id, k := range first {
		s := want[k]
		bmp := true
		for _, u := range s {
			bmp = bmp && u < 0x10000
		}
		if k.platform == 3 && !bmp {
			continue // the independent reader does not know surrogates
		}
		got, err := x.Name(nil, ximg.NameID(id))
		w.Check(err == nil && got == s, "independent reader: name", "id %d: %s (%v) instead of %s", id, short([]byte(got)), err, short([]byte(s)))
	}
}

// c14RawNames checks the language tables of the decoder.
func c14RawNames(w *W, platform, lang int) {
	w.Eval(fmt.Sprintf("language %d/%d", platform, lang))
	enc := 0
	s := "Hello"
	if platform == 3 {
		enc = 1
	}
	data := encodeName(platform, s)
	b := make([]byte, 18)
	put16(b, 2, 1)
	put16(b, 4, 18)
	put16(b, 6, platform)
	put16(b, 8, enc)
	put16(b, 10, lang)
	put16(b, 12, 1)
	put16(b, 14, len(data))
	b = append(b, data...)
	info, err := name.Decode(b)
	if !w.Check(err == nil, "name.Decode", "platform %d, language %d: %v", platform, lang, err) {
		return
	}
	ref, tt, other := refMacLang[lang], info.Mac, info.Windows
	if platform == 3 {
		ref, tt, other = refWinLang[lang], info.Windows, info.Mac
	}
	w.Check(len(other) == 0, "name platform", "platform %d, language %d: table for the other platform", platform, lang)
	if ref == "" {
		return // unknown language IDs may be ignored
	}
	t := tt[ref]
	if !w.Check(len(tt) == 1 && t != nil && t.Family == s, "language ID", "platform %d, language %#x: %v instead of %q", platform, lang, tt, ref) {
		return
	}
	b2 := info.Encode(uint16(enc))
	ok := false
	for i := 0; i < u16(b2, 2); i++ {
		ok = ok || u16(b2, 6+12*i) == platform && u16(b2, 6+12*i+4) == lang
	}
	w.Check(ok, "language ID back", "platform %d, language %#x is lost", platform, lang)
}

var xMacNames []string

// c14Post checks the post table for the given glyph names.
func c14Post(w *W, r *rand.Rand, names []string, what string) {
	w.Eval(fmt.Sprintf("post %s %d %d", what, len(names), r.Int()))
	info := &post.Info{ItalicAngle: -12, UnderlinePosition: -100, UnderlineThickness: 50, Names: names}
	distinct := map[string]bool{}
	for _, n := range xMacNames {
		distinct[n] = true
	}
	fits := true
	for _, n := range names {
		distinct[n] = true
		fits = fits && len(n) <= 255
	}
	fits = fits && len(distinct) <= 65536
	var b []byte
	if !w.NoPanic("post.Info.Encode", func() { b = info.Encode() }) {
		return
	}
	if len(b) < 200000 {
		w.Input(b)
	}
	out, err := post.Read(bytes.NewReader(b))
	if !w.Check(err == nil, "post.Read", "%s: %v", what, err) {
		return
	}
	w.Check(out.ItalicAngle == info.ItalicAngle && out.UnderlinePosition == -100 && out.UnderlineThickness == 50 && !out.IsFixedPitch, "post header", "%+v", out)
	w.Count(fmt.Sprintf("post version %x", u16(b, 0)), 1)
	if !fits && out.Names == nil {
		w.Count("post names do not fit", 1)
		return
	}
	if (names == nil) != (out.Names == nil) || len(names) != len(out.Names) {
		w.Fail("post names", "%s: %d instead of %d names", what, len(out.Names), len(names))
		return
	}
	for i := range names {
		if out.Names[i] != names[i] {
			w.Fail("post names", "%s: glyph %d: %s instead of %s", what, i, short([]byte(out.Names[i])), short([]byte(names[i])))
			return
		}
	}
	switch n := len(names); n {
	case 1, 5, 258, 259, 1000:
		x := c14Font(w, n, map[string][]byte{"post": b})
		if x == nil {
			return
		}
		for k := 0; k < 40; k++ {
			i := r.Intn(n)
			if n <= 5 {
				i = k % n
			}
			got, err := x.GlyphName(nil, ximg.GlyphIndex(i))
			w.Check(err == nil && got == names[i], "independent reader: glyph name", "%s: glyph %d: %s (%v) instead of %s", what, i, short([]byte(got)), err, short([]byte(names[i])))
		}
	}
}

func c14GlyphName(r *rand.Rand) string {
	const chars = "abcdefghijklmnopqrstuvwxyzABCDEFGHIJKLMNOPQRSTUVWXYZ0123456789._"
	l := 1 + r.Intn(12)
	switch r.Intn(30) {
	case 0:
		l = 255
	case 1:
		l = 128 + r.Intn(128)
	case 2:
		l = 0
	}
	b := make([]byte, l)
	for i := range b {
		b[i] = chars[r.Intn(len(chars))]
	}
	if r.Intn(20) == 0 {
		for i := range b {
			b[i] = byte(r.Intn(256))
		}
	}
	return string(b)
}

func c14PostRandom(w *W, r *rand.Rand) {
	n := []int{0, 1, 2, 5, 5, 257, 258, 258, 259, 1000, 1 + r.Intn(600)}[r.Intn(11)]
	names := make([]string, n)
	what := ""
	switch r.Intn(6) {
	case 0:
		what = "standard prefix"
		for i := range names {
			names[i] = c14GlyphName(r)
			if i < 258 {
				names[i] = xMacNames[i]
			}
		}
		if n > 0 && r.Intn(2) == 0 {
			what = "standard with one change"
			names[r.Intn(n)] = c14GlyphName(r)
		}
	case 1:
		what = "standard permuted"
		p := r.Perm(258)
		for i := range names {
			names[i] = xMacNames[p[i%258]]
		}
	case 2:
		what = "custom"
		for i := range names {
			names[i] = c14GlyphName(r)
		}
	case 3:
		what = "duplicates"
		pool := []string{c14GlyphName(r), c14GlyphName(r), "A", ".notdef", ""}
		for i := range names {
			names[i] = pool[r.Intn(len(pool))]
		}
	case 4:
		what = "nil"
		names = nil
	default:
		what = "mixed"
		for i := range names {
			names[i] = c14GlyphName(r)
			if r.Intn(2) == 0 {
				names[i] = xMacNames[r.Intn(258)]
			}
		}
	}
	c14Post(w, r, names, what)
}

// c14PostAssembled reads post tables of all versions written by hand.
func c14PostAssembled(w *W, r *rand.Rand) {
	hdr := make([]byte, 32)
	binary.BigEndian.PutUint32(hdr, 0x20000)
	n := 1 + r.Intn(40)
	nc := r.Intn(20)
	var cust []string
	for i := 0; i < nc; i++ {
		cust = append(cust, c14GlyphName(r))
	}
	b := append(hdr, byte(n>>8), byte(n))
	var want []string
	for i := 0; i < n; i++ {
		k := r.Intn(258 + nc)
		if nc > 0 && r.Intn(2) == 0 {
			k = 258 + r.Intn(nc)
		}
		b = append(b, byte(k>>8), byte(k))
		if k < 258 {
			want = append(want, xMacNames[k])
		} else {
			want = append(want, cust[k-258])
		}
	}
	for _, c := range cust {
		b = append(b, byte(len(c)))
		b = append(b, c...)
	}
	w.Input(b)
	out, err := post.Read(bytes.NewReader(b))
	if w.Check(err == nil, "post.Read (assembled)", "%v", err) {
		if d := diffVals(want, out.Names, 0); d != "" {
			w.Fail("post names (assembled)", "%s", d)
		}
	}
}

// langSys is one entry of an encoded script list.
type langSys struct{ script, lang string }

type feats struct {
	req int
	opt string
}

// parseScriptList is an independent reader for script lists.
func parseScriptList(b []byte) (res map[langSys]feats, msg string) {
	defer func() {
		if e := recover(); e != nil {
			msg = fmt.Sprint(e)
		}
	}()
	res = map[langSys]feats{}
	ls := func(b []byte) feats {
		f := feats{req: u16(b, 2)}
		if u16(b, 0) != 0 {
			msg = "lookupOrder"
		}
		for i := 0; i < u16(b, 4); i++ {
			f.opt += fmt.Sprint(u16(b, 6+2*i), " ")
		}
		return f
	}
	prevS := ""
	for i := 0; i < u16(b, 0); i++ {
		rec := b[2+6*i:]
		s := string(rec[:4])
		if i > 0 && s <= prevS {
			msg = "script order"
		}
		prevS = s
		st := b[u16(rec, 4):]
		if u16(st, 0) != 0 {
			res[langSys{s, ""}] = ls(st[u16(st, 0):])
		}
		prevL := ""
		for j := 0; j < u16(st, 2); j++ {
			lr := st[4+6*j:]
			l := string(lr[:4])
			if j > 0 && l <= prevL {
				msg = "language order"
			}
			prevL = l
			res[langSys{s, l}] = ls(st[u16(lr, 4):])
		}
	}
	return res, msg
}

// rawLayout makes a GSUB/GPOS table with the given language systems and nf features without lookups.
func rawLayout(m map[langSys]feats, order func(n int) []int, nf int) []byte {
	be := func(x int) []byte { return []byte{byte(x >> 8), byte(x)} }
	scripts := map[string][]string{}
	for k := range m {
		scripts[k.script] = append(scripts[k.script], k.lang)
	}
	var ss []string
	for s := range scripts {
		ss = append(ss, s)
	}
	sort.Strings(ss)
	type st struct{ hdr, body []byte }
	var tabs [][]byte
	for _, s := range ss {
		ll := scripts[s]
		sort.Strings(ll)
		def := 0
		nl := len(ll)
		if ll[0] == "" {
			nl--
			def = 1
		}
		pos := 4 + 6*nl
		offs := make([]int, len(ll))
		body := make([]byte, 0, 100)
		for _, j := range order(len(ll)) {
			f := m[langSys{s, ll[j]}]
			offs[j] = pos + len(body)
			opt := strings.Fields(f.opt)
			body = append(body, 0, 0)
			body = append(body, be(f.req)...)
			body = append(body, be(len(opt))...)
			for _, o := range opt {
				x := 0
				fmt.Sscan(o, &x)
				body = append(body, be(x)...)
			}
		}
		var t []byte
		if def == 1 {
			t = append(t, be(offs[0])...)
		} else {
			t = append(t, 0, 0)
		}
		t = append(t, be(nl)...)
		for j, l := range ll {
			if l != "" {
				t = append(t, l...)
				t = append(t, be(offs[j])...)
			}
		}
		tabs = append(tabs, append(t, body...))
	}
	sl := be(len(ss))
	pos := 2 + 6*len(ss)
	offs := make([]int, len(ss))
	var body []byte
	for _, j := range order(len(ss)) {
		offs[j] = pos + len(body)
		body = append(body, tabs[j]...)
	}
	for j, s := range ss {
		sl = append(sl, s...)
		sl = append(sl, be(offs[j])...)
	}
	sl = append(sl, body...)
	fl := be(nf)
	for i := 0; i < nf; i++ {
		fl = append(fl, fmt.Sprintf("f%03d", i)...)
		fl = append(fl, be(2+6*nf)...)
	}
	fl = append(fl, 0, 0, 0, 0)
	res := []byte{0, 1, 0, 0}
	res = append(res, be(10)...)
	res = append(res, be(10+len(sl))...)
	res = append(res, be(10+len(sl)+len(fl))...)
	res = append(res, sl...)
	res = append(res, fl...)
	return append(res, 0, 0)
}

// c14Scripts reads and writes language systems.
func c14Scripts(w *W, r *rand.Rand, m map[langSys]feats, nf int) {
	w.Eval(fmt.Sprint("scripts ", m))
	order := func(n int) []int {
		p := make([]int, n)
		for i := range p {
			p[i] = i
		}
		return p
	}
	if r.Intn(2) == 0 {
		order = r.Perm
	}
	raw := rawLayout(m, order, nf)
	w.Input(raw)
	info, err := gtab.Read(bytes.NewReader(raw), gtab.TypeGsub)
	if !w.Check(err == nil, "gtab.Read", "%v", err) {
		return
	}
	if !w.Check(len(info.ScriptList) == len(m), "script list size", "%d instead of %d entries: different script/language tags are identified", len(info.ScriptList), len(m)) {
		return
	}
	seen := map[string]int{}
	for _, f := range info.ScriptList {
		seen[fmt.Sprint(f.Required, f.Optional)]++
	}
	// the language of every tag
	byFeat := map[feats]langSys{}
	uniq := true
	for k, f := range m {
		_, dup := byFeat[f]
		uniq = uniq && !dup
		byFeat[f] = k
	}
	if uniq {
		for tag, f := range info.ScriptList {
			ff := feats{req: int(f.Required)}
			for _, o := range f.Optional {
				ff.opt += fmt.Sprint(o, " ")
			}
			k, ok := byFeat[ff]
			if !w.Check(ok, "script list features", "%q: %v", tag, ff) {
				continue
			}
			wb := "und"
			if k.lang != "" {
				wb = strings.SplitN(refLangs[k.lang], "-", 2)[0]
			}
			tb, _ := language.ParseBase(wb)
			base, _, _ := tag.Raw()
			w.Check(wb == "und" && base.String() == "und" || base == tb, "language of the tag", "%q for %q/%q, expected %q", tag, k.script, k.lang, wb)
			if !strings.Contains(refLangs[k.lang], "-") {
				_, sc, _ := tag.Raw()
				w.Check(sc.String() == refScripts[k.script], "script of the tag", "%q for %q/%q, expected %q", tag, k.script, k.lang, refScripts[k.script])
			}
		}
	}
	var b []byte
	if !w.NoPanic("gtab.Info.Encode", func() { b = info.Encode() }) {
		return
	}
	got, msg := parseScriptList(b[u16(b, 4):])
	w.Check(msg == "", "script list structure", "%s", msg)
	for k, f := range m {
		g, ok := got[k]
		w.Check(ok && f == g, "script/language tags back", "%q/%q: %v (%v) instead of %v", k.script, k.lang, g, ok, f)
	}
	w.Check(len(got) == len(m), "script/language tags back", "%d instead of %d", len(got), len(m))
	info2, err := gtab.Read(bytes.NewReader(b), gtab.TypeGsub)
	if w.Check(err == nil, "gtab.Read (again)", "%v", err) {
		w.Check(sameScripts(info.ScriptList, info2.ScriptList), "script list round trip", "%v instead of %v", info2.ScriptList, info.ScriptList)
	}
}

func sameScripts(a, b gtab.ScriptListInfo) bool {
	if len(a) != len(b) {
		return false
	}
	for k, f := range a {
		g := b[k]
		if g == nil || g.Required != f.Required || fmt.Sprint(g.Optional) != fmt.Sprint(f.Optional) {
			return false
		}
	}
	return true
}

func c14Feats(r *rand.Rand, k, nf int) feats {
	f := feats{req: 0xFFFF, opt: fmt.Sprint(k%nf, " ")}
	if k >= nf {
		f.opt += fmt.Sprint(k/nf, " ")
	}
	if r.Intn(3) == 0 {
		f.req = r.Intn(nf)
	}
	return f
}

// c14Plain encodes script lists with ordinary BCP 47 tags.
func c14Plain(w *W, r *rand.Rand) {
	sc, lg := sortedKeys(refScripts), sortedKeys(refLangs)
	tag, want := "", langSys{}
	for {
		want = langSys{sc[r.Intn(len(sc))], lg[r.Intn(len(lg))]}
		if strings.Contains(refLangs[want.lang], "-") || want.script == "DFLT" {
			continue
		}
		tag = refLangs[want.lang] + "-" + refScripts[want.script]
		if r.Intn(6) == 0 {
			tag = "und-" + refScripts[want.script]
			want.lang = ""
		}
		break
	}
	t, err := language.Parse(tag)
	if err != nil {
		return
	}
	base, _, _ := t.Raw()
	w.Eval("plain " + tag)
	info := &gtab.Info{ScriptList: gtab.ScriptListInfo{t: {Required: 0xFFFF, Optional: []gtab.FeatureIndex{0}}}, FeatureList: gtab.FeatureListInfo{{Tag: "test"}}}
	var b []byte
	if !w.NoPanic("gtab.Info.Encode", func() { b = info.Encode() }) {
		return
	}
	got, msg := parseScriptList(b[u16(b, 4):])
	if !w.Check(msg == "" && len(got) == 1, "script list structure", "%s, %d entries for %q", msg, len(got), tag) {
		return
	}
	for k := range got {
		w.Check(refScripts[k.script] == refScripts[want.script], "BCP 47 to OpenType script", "%q: %q", tag, k.script)
		if want.lang == "" {
			w.Check(k.lang == "", "BCP 47 to OpenType language", "%q: %q", tag, k.lang)
			continue
		}
		kb, _ := language.ParseBase(strings.SplitN(refLangs[k.lang], "-", 2)[0])
		w.Check(k.lang != "" && kb == base, "BCP 47 to OpenType language", "%q: %q", tag, k.lang)
	}
	info2, err := gtab.Read(bytes.NewReader(b), gtab.TypeGsub)
	if w.Check(err == nil && len(info2.ScriptList) == 1, "gtab.Read", "%v", err) {
		for t2 := range info2.ScriptList {
			b2, _, _ := t2.Raw()
			w.Check(b2 == base, "BCP 47 language back", "%q instead of %q", t2, tag)
		}
	}
}

func sortedKeys(m map[string]string) []string {
	var res []string
	for k := range m {
		res = append(res, k)
	}
	sort.Strings(res)
	return res
}

func c14(w *W) {
	// the standard names, from an independent implementation
	hdr := make([]byte, 32)
	binary.BigEndian.PutUint32(hdr, 0x10000)
	if x := c14Font(w, 258, map[string][]byte{"post": hdr}); x != nil {
		xMacNames = nil
		for i := 0; i < 258; i++ {
			s, err := x.GlyphName(nil, ximg.GlyphIndex(i))
			if err != nil {
				panic(err)
			}
			xMacNames = append(xMacNames, s)
		}
	} else {
		return
	}

	w.Each("mac", w.Scale(4000, 50000), func(i int, r *rand.Rand) {
		buf := make([]byte, r.Intn(40))
		r.Read(buf)
		if i < 256 {
			buf = []byte{byte(i)}
		}
		c14Mac(w, r, buf)
	})
	w.Each("languages", 2*1024, func(i int, r *rand.Rand) {
		// all 2*65536 language IDs
		for k := 0; k < 64; k++ {
			x := i*64 + k
			c14RawNames(w, 1+2*(x>>16), x&0xFFFF)
		}
	})
	w.Each("names", w.Scale(12000, 200000), func(i int, r *rand.Rand) { c14Names(w, r, 0) })
	w.Each("large names", w.Scale(200, 2000), func(i int, r *rand.Rand) {
		c14Names(w, r, []int{32767, 16384, 20000, 5000}[r.Intn(4)])
	})
	w.Each("post", w.Scale(3000, 60000), func(i int, r *rand.Rand) { c14PostRandom(w, r) })
	w.Each("post assembled", w.Scale(4000, 60000), func(i int, r *rand.Rand) { c14PostAssembled(w, r) })
	w.Each("post large", w.Scale(16, 60), func(i int, r *rand.Rand) {
		n := []int{65535, 65278, 65279, 65280, 60000, 40000, 65535, 65277}[i%8]
		names := make([]string, n)
		for k := range names {
			names[k] = fmt.Sprintf("n%d", k)
			if i%8 == 6 && k%2 == 0 {
				names[k] = xMacNames[k%258]
			}
		}
		if i%3 == 0 {
			names[0] = ".notdef"
		}
		c14Post(w, r, names, "large")
	})
	sc, lg := sortedKeys(refScripts), append([]string{""}, sortedKeys(refLangs)...)
	w.Each("all tags", len(sc), func(i int, r *rand.Rand) {
		m := map[langSys]feats{}
		for k, l := range lg {
			f := c14Feats(r, k, 40)
			f.req = 0xFFFF
			m[langSys{sc[i], l}] = f
		}
		c14Scripts(w, r, m, 40)
	})
	w.Each("script lists", w.Scale(4000, 60000), func(i int, r *rand.Rand) {
		m := map[langSys]feats{}
		nf := 1 + r.Intn(20)
		for k := 1 + r.Intn(5); k > 0; k-- {
			s := sc[r.Intn(len(sc))]
			for l := 1 + r.Intn(6); l > 0; l-- {
				lang := lg[r.Intn(len(lg))]
				if r.Intn(4) == 0 {
					lang = ""
				}
				m[langSys{s, lang}] = c14Feats(r, len(m), nf)
			}
		}
		c14Scripts(w, r, m, max(nf, 2+len(m)/nf))
	})
	w.Each("plain tags", w.Scale(1000, 10000), func(i int, r *rand.Rand) { c14Plain(w, r) })
}
