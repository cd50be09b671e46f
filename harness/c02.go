package main

import (
	"bytes"
	"encoding/binary"
	"fmt"
	"math"
	"math/rand"
	"sort"
	"strings"

	"golang.org/x/image/font/gofont/gobold"
	"golang.org/x/image/font/gofont/gomono"
	"golang.org/x/image/font/gofont/goregular"
	"golang.org/x/text/language"

	"seehuhn.de/go/sfnt"
	"seehuhn.de/go/sfnt/cff"
	"seehuhn.de/go/sfnt/cmap"
	"seehuhn.de/go/sfnt/glyf"
	"seehuhn.de/go/sfnt/glyph"
	"seehuhn.de/go/sfnt/head"
	"seehuhn.de/go/sfnt/header"
	"seehuhn.de/go/sfnt/hmtx"
	"seehuhn.de/go/sfnt/kern"
	"seehuhn.de/go/sfnt/maxp"
	"seehuhn.de/go/sfnt/name"
	"seehuhn.de/go/sfnt/opentype/classdef"
	"seehuhn.de/go/sfnt/opentype/coverage"
	"seehuhn.de/go/sfnt/opentype/gdef"
	"seehuhn.de/go/sfnt/opentype/gtab"
	"seehuhn.de/go/sfnt/os2"
	"seehuhn.de/go/sfnt/parser"
	"seehuhn.de/go/sfnt/post"
)

// Property C02: decoders are total.
//
// Every decoder is run on valid, damaged, truncated and purpose-made input.
// Panics, hangs (watchdog), memory beyond a linear bound and panics of the
// accessors are violations.

func init() { register("C02", c02) }

// c02Limit is the allocation bound a + b*len(input) of a decoder.
type c02Limit struct{ a, b uint64 }

var c02Limits = map[string]c02Limit{
	"sfnt":     {512 << 20, 8192},
	"header":   {4 << 20, 64},
	"CFF ":     {128 << 20, 8192},
	"cmap":     {8 << 20, 512},
	"glyf":     {4 << 20, 256},
	"GSUB":     {160 << 20, 8192},
	"GPOS":     {160 << 20, 8192},
	"GDEF":     {160 << 20, 8192},
	"coverage": {16 << 20, 512},
	"classdef": {16 << 20, 512},
	"name":     {32 << 20, 2048},
	"head":     {4 << 20, 64},
	"hmtx":     {4 << 20, 64},
	"maxp":     {4 << 20, 64},
	"OS/2":     {4 << 20, 64},
	"post":     {8 << 20, 512},
	"kern":     {128 << 20, 4096},
}

// c02Run runs a decoder under its bound.
func c02Run(w *W, tag string, n int, f func() error) bool {
	var err error
	w.tick()
	l := c02Limits[tag]
	limit := l.a + l.b*uint64(n)
	a := allocated()
	if !w.NoPanic(tag, func() { err = f() }) {
		return false
	}
	used := allocated() - a
	w.Check(used <= limit, "allocation:"+tag, "%d bytes of input, %d bytes allocated (limit %d)", n, used, limit)
	if w.res.Counters["max permille of the limit: "+tag] < int64(1000*used/limit) {
		w.res.Counters["max permille of the limit: "+tag] = int64(1000 * used / limit)
	}
	if err == nil {
		w.Count("accepted "+tag, 1)
	}
	return err == nil
}

// c02Table runs the decoder of one table on b, and then the accessors.
// Aux is the second table needed by some of the decoders.
func c02Table(w *W, tag string, b, aux []byte, format int) {
	n := len(b)
	switch tag {
	case "CFF ":
		var f *cff.Font
		if c02Run(w, tag, n, func() (err error) { f, err = cff.Read(bytes.NewReader(b)); return }) {
			c02CFF(w, f)
		}
	case "cmap":
		var t cmap.Table
		if c02Run(w, tag, n, func() (err error) { t, err = cmap.Decode(b); return }) {
			c02Cmap(w, t, n)
		}
	case "glyf":
		var gg glyf.Glyphs
		if c02Run(w, tag, n+len(aux), func() (err error) {
			gg, err = glyf.Decode(&glyf.Encoded{GlyfData: b, LocaData: aux, LocaFormat: int16(format)})
			return
		}) {
			c02Glyphs(w, gg, n+len(aux))
			w.NoPanic("glyf.Glyphs.Encode", func() { gg.Encode() })
		}
	case "GSUB", "GPOS":
		tp := gtab.Type(gtab.TypeGsub)
		if tag == "GPOS" {
			tp = gtab.TypeGpos
		}
		var info *gtab.Info
		if c02Run(w, tag, n, func() (err error) { info, err = gtab.Read(bytes.NewReader(b), tp); return }) {
			w.NoPanic("gtab.Info.Encode", func() { info.Encode() })
			w.NoPanic("gtab.Info.FindLookups", func() {
				info.FindLookups(language.English, nil)
				info.FindLookups(language.Und, gtab.GsubDefaultFeatures)
			})
		}
	case "GDEF":
		var t *gdef.Table
		if c02Run(w, tag, n, func() (err error) { t, err = gdef.Read(bytes.NewReader(b)); return }) {
			w.NoPanic("gdef.Table.Encode", func() { t.Encode() })
			w.NoPanic("gdef.Table.IsMark", func() { t.IsMark(1) })
		}
	case "coverage":
		var t coverage.Table
		if c02Run(w, tag, n, func() (err error) {
			t, err = coverage.Read(parser.New(bytes.NewReader(b)), int64(format))
			return
		}) {
			w.NoPanic("coverage.Table.Encode", func() { t.Encode(); t.EncodeLen(); t.Glyphs(); t.ToSet(); t.Contains(0) })
		}
		var s coverage.Set
		if c02Run(w, tag, n, func() (err error) {
			s, err = coverage.ReadSet(parser.New(bytes.NewReader(b)), int64(format))
			return
		}) {
			w.NoPanic("coverage.Set.ToTable", func() { s.ToTable().Encode() })
		}
	case "classdef":
		var t classdef.Table
		if c02Run(w, tag, n, func() (err error) {
			t, err = classdef.Read(parser.New(bytes.NewReader(b)), int64(format))
			return
		}) {
			w.NoPanic("classdef.Table.Append", func() { t.Append(nil); t.AppendLen(); t.NumClasses(); t.Glyphs() })
		}
	case "name":
		var t *name.Info
		if c02Run(w, tag, n, func() (err error) { t, err = name.Decode(b); return }) {
			w.NoPanic("name.Info.Encode", func() { t.Encode(1) })
			w.NoPanic("name.Tables.Choose", func() {
				t.Windows.Choose(language.English)
				t.Mac.Choose(language.German)
			})
		}
	case "head":
		var t *head.Info
		if c02Run(w, tag, n, func() (err error) { t, err = head.Read(bytes.NewReader(b)); return }) {
			w.NoPanic("head.Info.Encode", func() { t.Encode(); _ = t.FontRevision.String() })
		}
	case "hmtx":
		var t *hmtx.Info
		if c02Run(w, tag, n+len(aux), func() (err error) { t, err = hmtx.Decode(aux, b); return }) {
			w.NoPanic("hmtx.Info.Encode", func() { t.Encode() })
		}
	case "maxp":
		var t *maxp.Info
		if c02Run(w, tag, n, func() (err error) { t, err = maxp.Read(bytes.NewReader(b)); return }) {
			w.NoPanic("maxp.Info.Encode", func() { t.Encode() })
		}
	case "OS/2":
		var t *os2.Info
		if c02Run(w, tag, n, func() (err error) { t, err = os2.Read(bytes.NewReader(b)); return }) {
			w.NoPanic("os2.Info.Encode", func() {
				t.Encode()
				_, _, _ = t.WeightClass.String(), t.WidthClass.String(), t.PermUse.String()
			})
		}
	case "post":
		var t *post.Info
		if c02Run(w, tag, n, func() (err error) { t, err = post.Read(bytes.NewReader(b)); return }) {
			w.NoPanic("post.Info.Encode", func() { t.Encode() })
		}
	case "kern":
		var t kern.Info
		if c02Run(w, tag, n, func() (err error) { t, err = kern.Read(bytes.NewReader(b)); return }) {
			w.NoPanic("kern.Info.Encode", func() { t.Encode() })
		}
	case "header":
		var t *header.Info
		if c02Run(w, tag, n, func() (err error) { t, err = header.Read(bytes.NewReader(b)); return }) {
			w.NoPanic("header.Info accessors", func() {
				for k := range t.Toc {
					t.ReadTableBytes(bytes.NewReader(b), k)
				}
				t.Has("head", "OS/2")
				t.TableReader(bytes.NewReader(b), "none")
			})
		}
	default:
		panic("table " + tag)
	}
}

func c02Glyphs(w *W, gg glyf.Glyphs, n int) {
	o := &glyf.Outlines{Glyphs: gg}
	w.NoPanic("glyf.Outlines accessors", func() { o.NumGlyphs() })
	l := c02Limits["glyf"]
	used := allocated()
	for _, g := range gg {
		if g == nil {
			continue
		}
		if s, ok := g.Data.(glyf.SimpleGlyph); ok {
			if !w.NoPanic("glyf.SimpleGlyph.Decode", func() { s.Decode() }) {
				return
			}
		}
		if !w.NoPanic("glyf.Glyph.Components", func() { g.Components() }) {
			return
		}
	}
	used = allocated() - used
	w.Check(used <= l.a+l.b*uint64(n), "allocation:SimpleGlyph.Decode", "%d bytes of input, %d bytes allocated", n, used)
	w.NoPanic("glyf.Outlines.GlyphBBoxPDF", func() {
		for i := 0; i < len(gg) && i < 50; i++ {
			o.GlyphBBoxPDF([6]float64{0.001, 0, 0, 0.001, 0, 0}, glyph.ID(i))
		}
	})
}

func c02CFF(w *W, f *cff.Font) {
	w.NoPanic("cff.Font accessors", func() {
		f.NumGlyphs()
		f.Widths()
		f.WidthsPDF()
		f.WidthsMapPDF()
		f.BBox()
		for i, g := range f.Glyphs {
			g.Extent()
			if i < 50 {
				_ = g.String()
				f.GlyphBBoxPDF(f.FontMatrix, glyph.ID(i))
			}
			if f.FDSelect != nil {
				_ = f.Private[f.FDSelect(glyph.ID(i))]
			}
		}
		if f.Encoding != nil {
			for _, g := range f.Encoding {
				_ = f.Glyphs[g]
			}
			f.BuiltinEncoding()
		}
	})
	w.NoPanic("cff.Font.Write", func() { f.Write(&bytes.Buffer{}) })
}

func c02Cmap(w *W, t cmap.Table, n int) {
	l := c02Limits["cmap"]
	var keys []cmap.Key
	for k := range t {
		keys = append(keys, k)
	}
	sort.Slice(keys, func(i, j int) bool {
		a, b := keys[i], keys[j]
		if a.PlatformID != b.PlatformID {
			return a.PlatformID < b.PlatformID
		}
		if a.EncodingID != b.EncodingID {
			return a.EncodingID < b.EncodingID
		}
		return a.Language < b.Language
	})
	for i, k := range keys {
		if i > 40 {
			break
		}
		var s cmap.Subtable
		var err error
		a := allocated()
		if !w.NoPanic("cmap.Table.Get", func() { s, err = t.Get(k) }) {
			return
		}
		w.Check(allocated()-a <= l.a+l.b*uint64(n), "allocation:cmap.Get", "%d bytes of input, %d bytes allocated", n, allocated()-a)
		if err == nil {
			w.Count("cmap subtables", 1)
			c02Subtable(w, s)
		}
	}
	w.NoPanic("cmap.Table.Encode", func() { t.Encode() })
	w.NoPanic("cmap.Table.GetNoLang", func() { t.GetNoLang(3, 1) })
	w.NoPanic("cmap.Table.GetBest", func() { t.GetBest() })
}

func c02Subtable(w *W, s cmap.Subtable) {
	w.NoPanic("cmap lookup", func() {
		lo, hi := s.CodeRange()
		for _, r := range []rune{lo, hi, lo - 1, hi + 1, 0, -1, 'A', 0x7F, 0x80, 0xFF, 0x100, 0xD800, 0xFFFF, 0x10000, 0x10FFFF, 0x110000, math.MaxInt32, math.MinInt32} {
			s.Lookup(r)
		}
	})
	w.NoPanic("cmap subtable Encode", func() { s.Encode(0) })
}

func c02Font(w *W, b []byte) {
	var f *sfnt.Font
	w.Input(b)
	if !c02Run(w, "sfnt", len(b), func() (err error) { f, err = sfnt.Read(bytes.NewReader(b)); return }) {
		return
	}
	n := 0
	w.NoPanic("Font accessors", func() {
		n = f.NumGlyphs()
		f.Widths()
		f.WidthsPDF()
		f.WidthsMapPDF()
		f.GlyphBBoxes()
		f.FontBBox()
		f.FontBBoxPDF()
		f.IsFixedPitch()
		f.PostScriptName()
		f.FullName()
		f.Subfamily()
		f.GetFontInfo()
		f.BuiltinEncoding()
		f.IsGlyf()
		for i := 0; i < n; i++ {
			f.GlyphWidth(glyph.ID(i))
			f.GlyphWidthPDF(glyph.ID(i))
			f.GlyphBBox(glyph.ID(i))
			f.GlyphName(glyph.ID(i))
		}
	})
	switch o := f.Outlines.(type) {
	case *glyf.Outlines:
		c02Glyphs(w, o.Glyphs, len(b))
	case *cff.Outlines:
		c02CFF(w, f.AsCFF())
	}
	if f.CMapTable != nil {
		var s cmap.Subtable
		if w.NoPanic("GetBest", func() { s, _ = f.CMapTable.GetBest() }) && s != nil {
			c02Subtable(w, s)
		}
	}
	w.NoPanic("Font.Write", func() { f.Write(&bytes.Buffer{}) })
	w.NoPanic("Font.MakeGlyphNames", func() { f.MakeGlyphNames() })
	if f.Gsub != nil {
		w.NoPanic("Gsub.Encode", func() { f.Gsub.Encode() })
	}
	if f.Gpos != nil {
		w.NoPanic("Gpos.Encode", func() { f.Gpos.Encode() })
	}
	if f.Gdef != nil {
		w.NoPanic("Gdef.Encode", func() { f.Gdef.Encode() })
	}
}

// u16b gives the big-endian form of 16-bit values.
func u16b(x ...int) []byte {
	res := make([]byte, 0, 2*len(x))
	for _, v := range x {
		res = append(res, byte(v>>8), byte(v))
	}
	return res
}

// c02Seed returns valid data for a table (and the second table).
func c02Seed(r *rand.Rand, tag string) (b, aux []byte, format int) {
	switch tag {
	case "coverage":
		return c08Glyphs(r).ToTable().Encode(), nil, 0
	case "classdef":
		for {
			c := c08Classes(r)
			if classDefFits(c) {
				return c.Append(nil), nil, 0
			}
		}
	case "GDEF":
		g := &gtabGen{r: r, n: 1 + r.Intn(60)}
		if t := g.gdef(); t != nil {
			return t.Encode(), nil, 0
		}
		return (&gdef.Table{}).Encode(), nil, 0
	case "GSUB", "GPOS":
		g := newC08Gen(r, tag == "GPOS", r.Intn(2))
		g.nl = 1 + r.Intn(6)
		kinds := c08Kinds(tag == "GPOS")
		info := &gtab.Info{ScriptList: c08Lang}
		f := &gtab.Feature{Tag: "test"}
		for i := 0; i < g.nl; i++ {
			k := kinds[r.Intn(len(kinds))]
			info.LookupList = append(info.LookupList, &gtab.LookupTable{Meta: g.anyMeta(k), Subtables: []gtab.Subtable{g.one(k)}})
			f.Lookups = append(f.Lookups, gtab.LookupIndex(i))
		}
		info.FeatureList = gtab.FeatureListInfo{f}
		return info.Encode(), nil, 0
	case "kern":
		k := kern.Info{}
		for i := r.Intn(30); i > 0; i-- {
			k[glyph.Pair{Left: glyph.ID(r.Intn(30)), Right: glyph.ID(r.Intn(30))}] = 7
		}
		return k.Encode(), nil, 0
	}
	kind := fontKinds[r.Intn(len(fontKinds))]
	switch tag {
	case "CFF ":
		kind = []string{"cff", "cid"}[r.Intn(2)]
	case "glyf":
		kind = "glyf"
	}
	var file []byte
	if r.Intn(10) == 0 && tag != "CFF " {
		file = [][]byte{goregular.TTF, gobold.TTF, gomono.TTF}[r.Intn(3)]
	} else {
		file, _ = writeFont(newFontGen(r, kind).font())
	}
	_, tabs := rawTables(file)
	switch tag {
	case "header":
		return file, nil, 0
	case "glyf":
		fmt := 0
		if h := tabs["head"]; len(h) >= 52 {
			fmt = u16(h, 50)
		}
		return tabs["glyf"], tabs["loca"], fmt
	case "hmtx":
		return tabs["hmtx"], tabs["hhea"], 0
	}
	return tabs[tag], nil, 0
}

func c02Damaged(w *W, r *rand.Rand, tag string) {
	b, aux, format := c02Seed(r, tag)
	switch r.Intn(12) {
	case 0:
		b = b[:r.Intn(len(b)+1)]
	case 1:
		b = make([]byte, r.Intn(100))
		r.Read(b)
	case 2: // small numbers are likely to be valid
		b = make([]byte, 2*r.Intn(100))
		for i := 0; i < len(b); i += 2 {
			put16(b, i, interesting16[r.Intn(len(interesting16))])
		}
	case 3: // keep the start
		n := r.Intn(len(b) + 1)
		b = append([]byte(nil), b...)
		r.Read(b[n:])
	default:
		b = mutateBytes(r, b)
	}
	if aux != nil && r.Intn(3) == 0 {
		aux = mutateBytes(r, aux)
	}
	if tag == "glyf" && r.Intn(20) == 0 {
		format = r.Intn(3)
	}
	if (tag == "coverage" || tag == "classdef") && r.Intn(10) == 0 {
		format = r.Intn(len(b) + 4) // the position
	}
	w.Input(b)
	c02Table(w, tag, b, aux, format)
}

// c02Prefix checks every prefix of a valid table.
func c02Prefix(w *W, r *rand.Rand, tag string) {
	b, aux, format := c02Seed(r, tag)
	for len(b) > 20000 {
		b, aux, format = c02Seed(r, tag)
	}
	step := 1
	if len(b) > 400 {
		step = len(b)/400 + 1
	}
	for n := 0; n <= len(b); n += step {
		w.Input(b[:n])
		c02Table(w, tag, b[:n:n], aux, format)
	}
}

// c02Bits sets every 16-bit value of (the start of) a valid table to extreme values.
func c02Bits(w *W, r *rand.Rand, tag string) {
	b, aux, format := c02Seed(r, tag)
	for len(b) > 4000 {
		b, aux, format = c02Seed(r, tag)
	}
	n := min(len(b), 300)
	for pos := 0; pos+2 <= n; pos++ {
		if pos%2 == 1 && tag != "CFF " {
			continue
		}
		old := u16(b, pos)
		for _, v := range []int{0, 1, 0x7FFF, 0x8000, 0xFFFF, old + 1, old - 1} {
			m := append([]byte(nil), b...)
			put16(m, pos, v)
			w.Input(m)
			c02Table(w, tag, m, aux, format)
		}
	}
}

// layoutTable assembles a GSUB/GPOS table.
func layoutTable(scripts, features, lookups []byte) []byte {
	b := u16b(1, 0, 10, 10+len(scripts), 10+len(scripts)+len(features))
	b = append(b, scripts...)
	b = append(b, features...)
	return append(b, lookups...)
}

// c02Sharing: many references to the same data.
func c02Sharing(w *W, r *rand.Rand, tag string) {
	emptyList := u16b(0)
	n := 1 + r.Intn(65535)
	if r.Intn(2) == 0 {
		n = 65535 >> r.Intn(8)
	}
	full := u16b(2, 1, 0, 65535, 0) // coverage of all glyphs
	switch tag {
	case "GDEF":
		k := min(n, 65535)
		b := u16b(1, 2, 0, 0, 0, 0, 14, 1, k)
		for i := 0; i < k; i++ {
			b = append(b, u16b(0, 4+4*k)...) // wraps
			binary.BigEndian.PutUint32(b[len(b)-4:], uint32(4+4*k))
		}
		b = append(b, full...)
		w.Input(b)
		c02Table(w, tag, b, nil, 0)
	case "GSUB", "GPOS":
		gpos := tag == "GPOS"
		g := newC08Gen(r, gpos, 2+r.Intn(2))
		kinds := c08Kinds(gpos)
		kind := kinds[r.Intn(len(kinds))]
		var sub []byte
		for sub == nil {
			info := &gtab.Info{ScriptList: c08Lang, FeatureList: gtab.FeatureListInfo{{Tag: "test"}},
				LookupList: gtab.LookupList{{Meta: &gtab.LookupMetaInfo{LookupType: kindType(kind)}, Subtables: []gtab.Subtable{g.one(kind)}}}}
			func() {
				defer func() { recover() }()
				b := info.Encode()
				sub = b[u16(b, 8)+4+8:] // lookup list and lookup header
			}()
		}
		tp := int(kindType(kind))
		mode := r.Intn(8)
		switch {
		case mode == 0: // context format 3, many coverage tables
			k := min(n, 32000)
			tp = 5
			if gpos {
				tp = 7
			}
			sub = u16b(3, k, 0)
			for i := 0; i < k; i++ {
				sub = append(sub, u16b(6+2*k)...)
			}
			sub = append(sub, full...)
		case mode == 1: // context format 3 with all glyphs
			tp = 6
			if gpos {
				tp = 8
			}
			sub = u16b(3, 1, 12, 1, 12, 0, 0)
			put16(sub, 4, 14)
			put16(sub, 8, 14)
			sub = append(sub, full...)
		case mode == 2 && !gpos: // all sequences at the same place
			k := min(n, 32000)
			tp = 2 + r.Intn(3)
			sub = u16b(1, 6+2*k, k)
			for i := 0; i < k; i++ {
				sub = append(sub, u16b(6+2*k+10)...)
			}
			sub = append(sub, u16b(2, 1, 0, k-1, 0)...)
			sub = append(sub, u16b(20000)...)
			sub = append(sub, make([]byte, 40000)...)
		case mode == 2: // pair sets
			k := min(n, 32000)
			tp = 2
			sub = u16b(1, 10+2*k, 4, 0, k)
			for i := 0; i < k; i++ {
				sub = append(sub, u16b(10+2*k+10)...)
			}
			sub = append(sub, u16b(2, 1, 0, k-1, 0)...)
			sub = append(sub, u16b(10000)...)
			for i := 0; i < 10000; i++ {
				sub = append(sub, u16b(i, 5)...)
			}
		case mode == 3: // rules at the same place
			k := 1 + r.Intn(100)
			m := 1 + r.Intn(20000)
			tp = 5
			if gpos {
				tp = 7
			}
			sub = u16b(1, 6+2*k, k)
			for i := 0; i < k; i++ {
				sub = append(sub, u16b(6+2*k+10)...)
			}
			sub = append(sub, u16b(2, 1, 0, k-1, 0)...)
			rs := u16b(m)
			for i := 0; i < m; i++ {
				rs = append(rs, u16b(2+2*m)...)
			}
			sub = append(sub, rs...)
			sub = append(sub, u16b(10000, 10000)...)
			sub = append(sub, make([]byte, 60000)...)
		}
		m := 1 + r.Intn(80)
		nl := min(n, 6000/(m+1))
		if r.Intn(3) == 0 {
			m, nl = 5900, 1
		}
		ext := r.Intn(3) == 0
		ll := u16b(nl)
		for i := 0; i < nl; i++ {
			ll = append(ll, u16b(2+2*nl)...)
		}
		if ext {
			et := 7
			if gpos {
				et = 9
			}
			ll = append(ll, u16b(et, 0, m)...)
			for i := 0; i < m; i++ {
				ll = append(ll, u16b(6+2*m)...)
			}
			ll = append(ll, u16b(1, tp, 0, 8)...)
		} else {
			ll = append(ll, u16b(tp, 0, m)...)
			for i := 0; i < m; i++ {
				ll = append(ll, u16b(6+2*m)...)
			}
		}
		ll = append(ll, sub...)
		b := layoutTable(emptyList, emptyList, ll)
		w.Input(b)
		w.Eval(fmt.Sprintf("sharing %d lookups of %d subtables, %d bytes, mode %d", nl, m, len(b), mode))
		c02Table(w, tag, b, nil, 0)
	case "scripts":
		// scripts share a script table, languages share a language system
		ns, nl, nf := 1+r.Intn(5000), 1+r.Intn(5000), r.Intn(32000)
		sl := u16b(ns)
		for i := 0; i < ns; i++ {
			t := []byte{byte('a' + i%26), byte('a' + i/26%26), byte('a' + i/676), ' '}
			if r.Intn(2) == 0 {
				t = []byte("latn")
			}
			sl = append(sl, t...)
			sl = append(sl, u16b(2+6*ns)...)
		}
		sl = append(sl, u16b(4+6*nl, nl)...)
		for i := 0; i < nl; i++ {
			sl = append(sl, 'A'+byte(i%26), 'A'+byte(i/26%26), 'A'+byte(i/676), ' ')
			sl = append(sl, u16b(4+6*nl)...)
		}
		sl = append(sl, u16b(0, 0xFFFF, nf)...)
		sl = append(sl, make([]byte, 2*nf)...)
		fl := u16b(0)
		b := u16b(1, 0, 14, 10, 12)
		b = append(b, fl...)
		b = append(b, 0, 0)
		b = append(b, sl...)
		w.Input(b)
		w.Eval(fmt.Sprintf("scripts %d %d %d", ns, nl, nf))
		c02Table(w, "GSUB", b, nil, 0)
	case "features":
		nf := 1 + r.Intn(10900)
		nl := 1 + r.Intn(65535)
		fl := u16b(nf)
		for i := 0; i < nf; i++ {
			fl = append(fl, "abcd"...)
			fl = append(fl, u16b(2+6*nf)...)
		}
		fl = append(fl, u16b(0, nl)...)
		fl = append(fl, make([]byte, 2*nl)...)
		b := u16b(1, 0, 10, 14, 12)
		b = append(b, 0, 0, 0, 0)
		b = append(b, fl...)
		w.Input(b)
		c02Table(w, "GSUB", b, nil, 0)
	case "kern":
		k := n
		b := u16b(0, k)
		body := 14 * k
		data := u16b(0, 14, 1, 65535, 0, 0, 0)
		for i := 0; i < k; i++ {
			b = append(b, data...)
		}
		b = append(b, make([]byte, r.Intn(400000))...)
		_ = body
		w.Input(b[:min(len(b), 1000)])
		w.Eval(fmt.Sprintf("kern %d subtables %d bytes", k, len(b)))
		c02Table(w, tag, b, nil, 0)
	case "name":
		k := min(n, 5400)
		l := r.Intn(65536)
		b := u16b(0, k, min(6+12*k, 65535))
		plat := r.Intn(2)
		for i := 0; i < k; i++ {
			if plat == 0 {
				b = append(b, u16b(3, 1, []int{0x409, 0x407, 0x40c, 1 + r.Intn(0x500)}[i%4], i/4%65536, l, 0)...)
			} else {
				b = append(b, u16b(1, 0, i%150, i/150, l, 0)...)
			}
		}
		for len(b) < 6+12*k+l {
			b = append(b, 0, 'x')
		}
		w.Input(b)
		c02Table(w, tag, b, nil, 0)
	case "cmap":
		k := min(n, 8000)
		b := u16b(0, k)
		kind := r.Intn(4)
		for i := 0; i < k; i++ {
			b = append(b, u16b(i/20%4, i%20)...)
			b = append(b, u16b((4+8*k)>>16, 4+8*k)...)
		}
		switch kind {
		case 0: // format 12, one group over everything
			b = append(b, u16b(12, 0, 0, 28, 0, 0, 0, 1, 0, 0, 0x10, 0xFFFF, 0, 1)...)
		case 1: // format 12, many groups
			m := 1 + r.Intn(3000)
			b = append(b, u16b(12, 0, (16+12*m)>>16, 16+12*m, 0, 0, m>>16, m)...)
			for i := 0; i < m; i++ {
				b = append(b, u16b(i, 0, i, []int{0, 0xFFFF}[r.Intn(2)], 0, 1)...)
			}
		case 2: // format 4, every code
			b = append(b, u16b(4, 32, 0, 4, 0, 0, 0, 0xFFFE, 0xFFFF, 0, 0, 0xFFFF, 1, 1, 0, 0)...)
		case 3: // format 6
			b = append(b, u16b(6, 10+2*1000, 0, r.Intn(65536), 1000)...)
			b = append(b, make([]byte, 2000)...)
		}
		w.Input(b)
		c02Table(w, tag, b, nil, 0)
	case "glyf":
		// many glyphs in the same place
		k := min(n, 65535)
		_, _, _ = k, r, w
		loca := make([]byte, 0, 2*k+2)
		body := u16b(1, 0, 0, 100, 100, 65534, 0) // one contour, 65535 points
		for len(body) < 14+2*257+4*256 {
			body = append(body, []byte{0x3F, 0xFF}...)
		}
		var data []byte
		switch r.Intn(3) {
		case 0:
			data = body
		case 1: // contour ends in random order
			nc := 1 + r.Intn(20)
			data = u16b(nc, 0, 0, 9, 9)
			for i := 0; i < nc; i++ {
				data = append(data, u16b(interesting16[r.Intn(len(interesting16))])...)
			}
			data = append(data, u16b(0)...)
			data = append(data, make([]byte, r.Intn(300))...)
		case 2: // composite
			data = u16b(65535, 0, 0, 9, 9)
			for i := r.Intn(300); i >= 0; i-- {
				data = append(data, u16b(0x20|[]int{0, 8, 0x40, 0x80}[r.Intn(4)], r.Intn(3), r.Intn(65536))...)
				data = append(data, make([]byte, r.Intn(9))...)
			}
			data = append(data, u16b(0, 1, 0, 0, 0, 0)...)
		}
		if len(data)%2 != 0 {
			data = append(data, 0)
		}
		for i := 0; i <= k; i++ {
			switch {
			case i == 0:
				loca = append(loca, u16b(0)...)
			default:
				loca = append(loca, u16b(len(data)/2)...)
			}
		}
		w.Input(data)
		c02Table(w, tag, data, loca, 0)
	case "CFF ":
		b := c02Bomb(r)
		w.Input(b)
		c02Table(w, tag, b, nil, 0)
	}
}

func cffIndex(items ...[]byte) []byte {
	if len(items) == 0 {
		return []byte{0, 0}
	}
	b := u16b(len(items))
	b = append(b, 4)
	pos := 1
	put := func() { b = append(b, byte(pos>>24), byte(pos>>16), byte(pos>>8), byte(pos)) }
	put()
	for _, x := range items {
		pos += len(x)
		put()
	}
	for _, x := range items {
		b = append(b, x...)
	}
	return b
}

func cffInt(x int) []byte { return []byte{29, byte(x >> 24), byte(x >> 16), byte(x >> 8), byte(x)} }

// c02Bomb makes a CFF table with deeply nested subroutines, or with other
// data which is much smaller than what it describes.
func c02Bomb(r *rand.Rand) []byte {
	var gsubrs [][]byte
	fan := 2 + r.Intn(400)
	depth := 1 + r.Intn(10)
	bottom := []byte{140, 140, 5} // 1 1 rlineto
	switch r.Intn(4) {
	case 0:
		bottom = []byte{140, 4, 11}
	case 1:
		bottom = []byte{140, 140, 5, 11}
	case 2:
		bottom = nil
		for i := 0; i < 20; i++ {
			bottom = append(bottom, 140, 140, 5)
		}
		bottom = append(bottom, 11)
	case 3:
		bottom = []byte{11}
	}
	gsubrs = append(gsubrs, bottom)
	for i := 1; i < depth; i++ {
		var s []byte
		for k := 0; k < fan; k++ {
			s = append(s, byte(139-107+i-1), 29) // call subroutine i-1 (bias 107)
		}
		gsubrs = append(gsubrs, append(s, 11))
	}
	nGlyphs := 1 + r.Intn(3)
	if r.Intn(3) == 0 {
		nGlyphs = 1 + r.Intn(65535)
	}
	var cs [][]byte
	for i := 0; i < nGlyphs; i++ {
		cs = append(cs, []byte{140, 140, 21, byte(139 - 107 + depth - 1), 29, 14})
	}
	if r.Intn(3) == 0 {
		gsubrs = nil
	}
	hdr := []byte{1, 0, 4, 4}
	nameIdx := cffIndex([]byte("Test"))
	strIdx := cffIndex()
	gIdx := cffIndex(gsubrs...)
	csIdx := cffIndex(cs...)
	priv := append(append(append([]byte{139}, 20), 139), 21) // defaultWidthX, nominalWidthX
	cid := r.Intn(3) == 0
	top := func(csPos, privPos, fdPos, selPos, charsetPos, privLen int) []byte {
		var d []byte
		if cid {
			d = append(d, cffInt(391)...)
			d = append(d, cffInt(391)...)
			d = append(d, cffInt(0)...)
			d = append(d, 12, 30)
			d = append(d, cffInt(fdPos)...)
			d = append(d, 12, 36)
			d = append(d, cffInt(selPos)...)
			d = append(d, 12, 37)
		} else {
			d = append(d, cffInt(privLen)...)
			d = append(d, cffInt(privPos)...)
			d = append(d, 18)
		}
		d = append(d, cffInt(charsetPos)...)
		d = append(d, 15)
		d = append(d, cffInt(csPos)...)
		return append(d, 17)
	}
	charset := append([]byte{2}, u16b(1, nGlyphs)...)
	if r.Intn(3) == 0 {
		charset = append([]byte{2}, u16b(60000, 65535)...)
	}
	nfd := 1
	if cid {
		nfd = 1 + r.Intn(255)
	}
	sel := append([]byte{3}, u16b(1, 0)...)
	sel = append(sel, byte(r.Intn(nfd)))
	sel = append(sel, u16b(nGlyphs)...)
	privLen := len(priv)
	if r.Intn(6) == 0 {
		privLen = []int{0x7FFFFFFF, 1 << 30, -1, 1 << 20}[r.Intn(4)]
	}
	base := len(hdr) + len(nameIdx) + len(cffIndex(top(0, 0, 0, 0, 0, 0))) + len(strIdx) + len(gIdx)
	csPos := base
	privPos := csPos + len(csIdx)
	charsetPos := privPos + len(priv)
	selPos := charsetPos + len(charset)
	fdPos := selPos + len(sel)
	var fds [][]byte
	for i := 0; i < nfd; i++ {
		fds = append(fds, append(append(cffInt(privLen), cffInt(privPos)...), 18))
	}
	out := append([]byte(nil), hdr...)
	out = append(out, nameIdx...)
	out = append(out, cffIndex(top(csPos, privPos, fdPos, selPos, charsetPos, privLen))...)
	out = append(out, strIdx...)
	out = append(out, gIdx...)
	out = append(out, csIdx...)
	out = append(out, priv...)
	out = append(out, charset...)
	out = append(out, sel...)
	return append(out, cffIndex(fds...)...)
}

func c02(w *W) {
	tags := []string{"header", "CFF ", "cmap", "glyf", "GSUB", "GPOS", "GDEF", "coverage", "classdef", "name", "head", "hmtx", "maxp", "OS/2", "post", "kern"}
	for _, tag := range tags {
		name := strings.TrimSpace(tag)
		n := w.Scale(1500, 100000)
		switch tag {
		case "head", "maxp", "OS/2", "header":
			n = w.Scale(500, 20000)
		case "CFF ", "GSUB", "GPOS", "glyf", "cmap":
			n = w.Scale(3000, 200000)
		}
		w.Each("damaged "+name, n, func(i int, r *rand.Rand) { c02Damaged(w, r, tag) })
		w.Each("prefixes "+name, w.Scale(8, 200), func(i int, r *rand.Rand) { c02Prefix(w, r, tag) })
		w.Each("values "+name, w.Scale(8, 200), func(i int, r *rand.Rand) { c02Bits(w, r, tag) })
	}
	for _, tag := range []string{"GDEF", "GSUB", "GPOS", "scripts", "features", "kern", "name", "cmap", "glyf", "CFF "} {
		n := w.Scale(24, 1500)
		if tag == "GSUB" || tag == "GPOS" {
			n = w.Scale(40, 4000)
		}
		w.Each("sharing "+strings.TrimSpace(tag), n, func(i int, r *rand.Rand) { c02Sharing(w, r, tag) })
	}
	for _, k := range fontKinds {
		w.Each("fonts "+k, w.Scale(1000, 60000), func(i int, r *rand.Rand) {
			a, err1 := writeFont(newFontGen(r, k).font())
			b, err2 := writeFont(newFontGen(r, k).font())
			if err1 != nil || err2 != nil {
				return
			}
			c02Font(w, mutateFont(r, a, b))
		})
	}
	corpus := [][]byte{goregular.TTF, gobold.TTF, gomono.TTF}
	w.Each("corpus", w.Scale(40, 2000), func(i int, r *rand.Rand) {
		c02Font(w, mutateFont(r, corpus[i%len(corpus)], corpus[r.Intn(len(corpus))]))
	})
	w.Each("sharing fonts", w.Scale(24, 1000), func(i int, r *rand.Rand) {
		// put the purpose-made tables into fonts
		k := "glyf"
		if i%2 == 0 {
			k = "cff"
		}
		b, err := writeFont(newFontGen(r, k).font())
		if err != nil {
			return
		}
		sc, tabs := rawTables(b)
		switch r.Intn(3) {
		case 0:
			if k == "cff" {
				tabs["CFF "] = c02Bomb(r)
			}
		case 1:
			kb := u16b(0, 30000)
			for i := 0; i < 30000; i++ {
				kb = append(kb, u16b(0, 14, 1, 65535, 0, 0, 0)...)
			}
			tabs["kern"] = append(kb, make([]byte, 400000)...)
			delete(tabs, "GPOS")
		case 2:
			tabs["GDEF"] = append(u16b(1, 0, 12, 0, 0, 12), u16b(2, 1, 0, 65535, 3)...)
		}
		c02Font(w, joinTables(sc, tabs))
	})
}
