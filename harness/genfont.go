package main

import (
	"bytes"
	"fmt"
	"math"
	"math/rand"
	"reflect"
	"time"

	"golang.org/x/text/language"

	"seehuhn.de/go/geom/matrix"
	"seehuhn.de/go/postscript/cid"
	"seehuhn.de/go/postscript/funit"
	"seehuhn.de/go/postscript/type1"

	"seehuhn.de/go/sfnt"
	"seehuhn.de/go/sfnt/cff"
	"seehuhn.de/go/sfnt/cmap"
	"seehuhn.de/go/sfnt/glyf"
	"seehuhn.de/go/sfnt/glyph"
	"seehuhn.de/go/sfnt/head"
	"seehuhn.de/go/sfnt/maxp"
	"seehuhn.de/go/sfnt/opentype/gdef"
	"seehuhn.de/go/sfnt/opentype/gtab"
	"seehuhn.de/go/sfnt/os2"
)

// fontGen generates font values which the library can represent exactly.
type fontGen struct {
	r      *rand.Rand
	kind   string // glyf, cff, cid
	n      int    // number of glyphs
	layout bool   // GSUB, GPOS, GDEF tables
	frac   bool   // fractional CFF coordinates and widths
	wild   bool   // extreme coordinates
	noCmap bool
	// composites refer to simple glyphs with a smaller index only
	runes         []rune // characters used by the cmap
	dense         bool   // the cmap covers nearly all glyphs
	cont          map[*glyf.Glyph][][]refPoint
	cmap4, cmap12 map[rune]glyph.ID
}

var fontKinds = []string{"glyf", "cff", "cid"}

func newFontGen(r *rand.Rand, kind string) *fontGen {
	g := &fontGen{r: r, kind: kind}
	g.n = 1 + r.Intn(12)
	switch r.Intn(12) {
	case 0:
		g.n = 1 + r.Intn(300)
	case 1:
		g.n = 1 + r.Intn(3)
	}
	g.layout = r.Intn(2) == 0
	g.frac = r.Intn(3) == 0
	g.wild = r.Intn(6) == 0
	return g
}

func (g *fontGen) coord() int {
	if g.wild {
		return g.r.Intn(16000) - 8000
	}
	return g.r.Intn(1400) - 300
}

// ttGlyph is a simple glyph with a correct bounding box.
func (g *fontGen) ttSimple() *glyf.Glyph {
	r := g.r
	var cc [][]refPoint
	for k := 1 + r.Intn(2); k > 0; k-- {
		var c []refPoint
		for m := 3 + r.Intn(5); m > 0; m-- {
			c = append(c, refPoint{g.coord(), g.coord(), len(c) == 0 || r.Intn(3) > 0})
		}
		cc = append(cc, c)
	}
	instr := make([]byte, r.Intn(3)*r.Intn(10))
	r.Read(instr)
	gl := &glyf.Glyph{Data: glyf.SimpleGlyph{NumContours: int16(len(cc)), Encoded: glyfEncode(r, cc, instr)}}
	if g.cont == nil {
		g.cont = map[*glyf.Glyph][][]refPoint{}
	}
	g.cont[gl] = cc
	first := true
	for _, c := range cc {
		for _, p := range c {
			x, y := funit.Int16(p.x), funit.Int16(p.y)
			if first {
				gl.Rect16 = funit.Rect16{LLx: x, LLy: y, URx: x, URy: y}
				first = false
			}
			gl.LLx, gl.URx = min(gl.LLx, x), max(gl.URx, x)
			gl.LLy, gl.URy = min(gl.LLy, y), max(gl.URy, y)
		}
	}
	return gl
}

func (g *fontGen) ttComposite(gg glyf.Glyphs) *glyf.Glyph {
	r := g.r
	var cand []int
	for i, h := range gg {
		if h != nil {
			if _, ok := h.Data.(glyf.SimpleGlyph); ok {
				cand = append(cand, i)
			}
		}
	}
	if len(cand) == 0 {
		return g.ttSimple()
	}
	k := 1 + r.Intn(3)
	var cmp glyf.CompositeGlyph
	box := funit.Rect16{}
	for i := 0; i < k; i++ {
		id := cand[r.Intn(len(cand))]
		c := glyf.GlyphComponent{GlyphIndex: glyph.ID(id), Flags: glyf.FlagArgsAreXYValues}
		dx, dy := r.Intn(200)-100, r.Intn(200)-100
		if i < k-1 {
			c.Flags |= glyf.FlagMoreComponents
		}
		if r.Intn(3) == 0 {
			c.Flags |= glyf.FlagRoundXYToGrid
		}
		if r.Intn(2) == 0 {
			c.Flags |= glyf.FlagArg1And2AreWords
			c.Data = p16(p16(nil, dx&0xFFFF), dy&0xFFFF)
		} else {
			c.Data = []byte{byte(dx), byte(dy)}
		}
		if r.Intn(4) == 0 {
			c.Flags |= glyf.FlagWeHaveAScale
			c.Data = p16(c.Data, 0x2000+r.Intn(0x2000))
		}
		cmp.Components = append(cmp.Components, c)
		b := gg[id].Rect16
		b.LLx += funit.Int16(dx)
		b.URx += funit.Int16(dx)
		b.LLy += funit.Int16(dy)
		b.URy += funit.Int16(dy)
		if i == 0 {
			box = b
		} else {
			box.LLx, box.URx = min(box.LLx, b.LLx), max(box.URx, b.URx)
			box.LLy, box.URy = min(box.LLy, b.LLy), max(box.URy, b.URy)
		}
	}
	if r.Intn(4) == 0 {
		cmp.Components[r.Intn(k)].Flags |= glyf.FlagWeHaveInstructions
		cmp.Instructions = make([]byte, 1+r.Intn(9))
		r.Read(cmp.Instructions)
	}
	return &glyf.Glyph{Rect16: box, Data: cmp}
}

var someNames = []string{"space", "A", "B", "C", "a", "b", "x", "H", "f", "i", "l", "fi", "fl", "ffi", "one", "two", "Agrave", "germandbls", "Euro", "uni20AC", "u1F600", "f_i", "a.sc", "A.alt", "T_h", "zcaron", "Scaron", "onequarter"}

func (g *fontGen) names() []string {
	r := g.r
	seen := map[string]bool{".notdef": true}
	res := []string{".notdef"}
	for len(res) < g.n {
		var s string
		switch r.Intn(4) {
		case 0, 1:
			s = someNames[r.Intn(len(someNames))]
		case 2:
			s = fmt.Sprintf("glyph%05d", len(res))
		default:
			s = fmt.Sprintf("x%d", r.Intn(1000))
			if r.Intn(8) == 0 {
				for len(s) < 1+r.Intn(63) {
					s += "y"
				}
			}
		}
		if !seen[s] {
			seen[s] = true
			res = append(res, s)
		}
	}
	return res[:g.n]
}

func (g *fontGen) width() int {
	switch g.r.Intn(6) {
	case 0:
		return 0
	case 1:
		return 500
	case 2:
		return g.r.Intn(32768)
	}
	return g.r.Intn(1200)
}

func (g *fontGen) cffNum() float64 {
	x := float64(g.coord())
	if g.frac {
		switch g.r.Intn(4) {
		case 0:
			x += float64(g.r.Intn(65536)) / 65536
		case 1:
			x += 0.5
		}
	}
	return x
}

func (g *fontGen) cffGlyph(name string) *cff.Glyph {
	r := g.r
	w := float64(g.width())
	if g.frac && r.Intn(2) == 0 {
		w += float64(r.Intn(65536)) / 65536
		if w > 32767 {
			w = 32767
		}
	}
	gl := cff.NewGlyph(name, w)
	if r.Intn(5) == 0 {
		return gl
	}
	stems := func() []float64 {
		var ss []float64
		y := float64(r.Intn(200) - 300)
		for k := r.Intn(4); k > 0; k-- {
			y += float64(r.Intn(100))
			z := y + float64(1+r.Intn(80))
			ss = append(ss, y, z)
			y = z
		}
		return ss
	}
	if r.Intn(2) == 0 {
		gl.HStem = stems()
		gl.VStem = stems()
	}
	ns := (len(gl.HStem) + len(gl.VStem)) / 2
	mask := func(op cff.GlyphOpType) {
		if ns == 0 {
			return
		}
		a := make([]float64, (ns+7)/8)
		for i := range a {
			a[i] = float64(r.Intn(256))
		}
		if rem := ns % 8; rem != 0 {
			a[len(a)-1] = float64(int(a[len(a)-1]) &^ (1<<(8-rem) - 1))
		}
		gl.Cmds = append(gl.Cmds, cff.GlyphOp{Op: op, Args: a})
	}
	for k := 1 + r.Intn(3); k > 0; k-- {
		if r.Intn(5) == 0 {
			mask(cff.OpHintMask)
		}
		if r.Intn(12) == 0 {
			mask(cff.OpCntrMask)
		}
		x, y := g.cffNum(), g.cffNum()
		gl.MoveTo(x, y)
		next := func() (float64, float64) {
			switch r.Intn(4) {
			case 0:
				x = g.cffNum()
			case 1:
				y = g.cffNum()
			default:
				x, y = g.cffNum(), g.cffNum()
			}
			return x, y
		}
		for m := 1 + r.Intn(6); m > 0; m-- {
			if r.Intn(2) == 0 {
				gl.LineTo(next())
			} else {
				x1, y1 := next()
				x2, y2 := next()
				x3, y3 := next()
				gl.CurveTo(x1, y1, x2, y2, x3, y3)
			}
			if r.Intn(12) == 0 {
				mask(cff.OpHintMask)
			}
		}
	}
	return gl
}

func (g *fontGen) private() *type1.PrivateDict {
	r := g.r
	p := &type1.PrivateDict{BlueScale: 0.039625, BlueShift: 7, BlueFuzz: 1}
	if r.Intn(2) == 0 {
		y := -20
		for k := 1 + r.Intn(4); k > 0; k-- {
			z := y + 1 + r.Intn(20)
			p.BlueValues = append(p.BlueValues, funit.Int16(y), funit.Int16(z))
			y = z + 1 + r.Intn(300)
		}
	}
	if r.Intn(3) == 0 {
		p.OtherBlues = []funit.Int16{-250, -240}
	}
	if r.Intn(3) == 0 {
		p.BlueScale = float64(r.Intn(90000)) / 1e6
	}
	if r.Intn(3) == 0 {
		p.BlueShift = int32(r.Intn(20))
	}
	if r.Intn(3) == 0 {
		p.BlueFuzz = int32(r.Intn(5))
	}
	if r.Intn(2) == 0 {
		p.StdHW = float64(1 + r.Intn(200))
	}
	if r.Intn(2) == 0 {
		p.StdVW = float64(1+r.Intn(2000)) / 8
	}
	p.ForceBold = r.Intn(3) == 0
	return p
}

func (g *fontGen) fontMatrix(scale float64) matrix.Matrix {
	r := g.r
	s := scale
	switch r.Intn(5) {
	case 0:
		s = scale / 2
	case 1:
		s = scale / 2.048
	}
	m := matrix.Matrix{s, 0, 0, s, 0, 0}
	if r.Intn(5) == 0 {
		m[2] = s * 0.25
	}
	if r.Intn(10) == 0 {
		m[3] = s * 1.5
	}
	return m
}

func (g *fontGen) cffOutlines() *cff.Outlines {
	r := g.r
	o := &cff.Outlines{}
	if g.kind == "cff" {
		names := g.names()
		for _, s := range names {
			o.Glyphs = append(o.Glyphs, g.cffGlyph(s))
		}
		o.Private = []*type1.PrivateDict{g.private()}
		o.FDSelect = func(glyph.ID) int { return 0 }
		switch r.Intn(3) {
		case 0:
			o.Encoding = cff.StandardEncoding(o.Glyphs)
		case 1:
			o.Encoding = make([]glyph.ID, 256)
			c := r.Intn(40)
			for i := 1; i < g.n && c < 256; i++ {
				if r.Intn(20) == 0 {
					break
				}
				o.Encoding[c] = glyph.ID(i)
				c += 1 + r.Intn(2)*r.Intn(3)
			}
			if r.Intn(2) == 0 && g.n > 1 {
				// further codes for the encoded glyphs
				last := 0
				for _, gid := range o.Encoding {
					last = max(last, int(gid))
				}
				for k := r.Intn(4); k > 0 && last > 0; k-- {
					if p := r.Intn(256); o.Encoding[p] == 0 {
						o.Encoding[p] = glyph.ID(1 + r.Intn(last))
					}
				}
			}
		default:
			o.Encoding = make([]glyph.ID, 256)
			perm := r.Perm(256)
			for i := 1; i <= r.Intn(min(g.n, 250)); i++ {
				o.Encoding[perm[i]] = glyph.ID(i)
			}
		}
		return o
	}
	for i := 0; i < g.n; i++ {
		o.Glyphs = append(o.Glyphs, g.cffGlyph(""))
	}
	nfd := 1 + r.Intn(4)
	for k := 0; k < nfd; k++ {
		o.Private = append(o.Private, g.private())
		if r.Intn(2) == 0 {
			o.FontMatrices = append(o.FontMatrices, matrix.Identity)
		} else {
			o.FontMatrices = append(o.FontMatrices, g.fontMatrix(1))
		}
	}
	sel := make([]int, g.n)
	switch r.Intn(3) {
	case 0:
		for i := range sel {
			sel[i] = r.Intn(nfd)
		}
	case 1:
		k := 0
		for i := range sel {
			if r.Intn(4) == 0 {
				k = r.Intn(nfd)
			}
			sel[i] = k
		}
	default:
		k := r.Intn(nfd)
		for i := range sel {
			sel[i] = k
		}
	}
	o.FDSelect = func(i glyph.ID) int { return sel[i] }
	o.ROS = &cid.SystemInfo{Registry: "Adobe", Ordering: []string{"Identity", "Japan1", "x"}[r.Intn(3)], Supplement: int32(r.Intn(8))}
	o.GIDToCID = make([]cid.CID, g.n)
	c := 0
	for i := 1; i < g.n; i++ {
		c++
		if r.Intn(4) == 0 {
			c += r.Intn(100)
		}
		c = min(c, 65535-(g.n-1-i))
		o.GIDToCID[i] = cid.CID(c)
	}
	if r.Intn(5) == 0 && g.n > 1 {
		r.Shuffle(g.n-1, func(i, j int) {
			o.GIDToCID[i+1], o.GIDToCID[j+1] = o.GIDToCID[j+1], o.GIDToCID[i+1]
		})
	}
	return o
}

var textRunes = []rune("ABCHxabcfil 0123éÄßΩЖ漢€‐−😀𝔸\U0010FFFDﬀﬁﬂ")

func (g *fontGen) cmap() cmap.Table {
	r := g.r
	if g.noCmap || g.n < 2 {
		return nil
	}
	big := r.Intn(3) == 0
	m4, m12 := cmap.Format4{}, cmap.Format12{}
	g.cmap4, g.cmap12 = map[rune]glyph.ID{}, map[rune]glyph.ID{}
	add := func(c rune, i int) {
		if c < 0x10000 {
			m4[uint16(c)] = glyph.ID(i)
			g.cmap4[c] = glyph.ID(i)
		}
		g.cmap12[c] = glyph.ID(i)
		m12[uint32(c)] = glyph.ID(i)
		g.runes = append(g.runes, c)
	}
	k := 0
	if g.dense {
		k = min(g.n-1, 5000)
	} else {
		k = r.Intn(min(2*g.n, 3000))
	}
	for i := 1; i <= k; i++ {
		var c rune
		switch r.Intn(4) {
		case 0:
			c = textRunes[r.Intn(len(textRunes))]
		case 1:
			c = rune(0x41 + i)
		case 2:
			c = rune(0x20 + r.Intn(0x3000))
		default:
			c = rune(r.Intn(0x110000))
		}
		if c >= 0x10000 && !big || c >= 0xD800 && c < 0xE000 || c == 0xFFFF {
			continue
		}
		if !g.layout && c >= 0xFB00 && c <= 0xFB04 {
			// without GSUB, the reader invents ligature substitutions
			continue
		}
		if g.dense {
			add(c, i)
		} else {
			add(c, 1+r.Intn(g.n-1))
		}
	}
	t := cmap.Table{}
	if len(m12) > len(m4) {
		t[cmap.Key{PlatformID: 3, EncodingID: 10}] = m12.Encode(0)
		if r.Intn(2) == 0 {
			t[cmap.Key{PlatformID: 0, EncodingID: 4}] = m12.Encode(0)
		}
		if len(m4) > 0 && r.Intn(2) == 0 {
			t[cmap.Key{PlatformID: 3, EncodingID: 1}] = m4.Encode(0)
		}
	} else {
		t[cmap.Key{PlatformID: 3, EncodingID: 1}] = m4.Encode(0)
		if r.Intn(2) == 0 {
			t[cmap.Key{PlatformID: 0, EncodingID: 3}] = m4.Encode(0)
		}
	}
	if r.Intn(6) == 0 {
		f0 := &cmap.Format0{}
		for k := r.Intn(20); k > 0; k-- {
			f0.Data[32+r.Intn(90)] = byte(r.Intn(min(g.n, 256)))
		}
		t[cmap.Key{PlatformID: 1, EncodingID: 0}] = f0.Encode(0)
	}
	return t
}

var fontStrings = []string{"", "Test", "Schönes Beispiel © 2024", "日本語", "emoji 😀 end", "a", "Licence; text \"quoted\"", "line1\nline2"}

func (g *fontGen) features(info *gtab.Info, tags []string) {
	r := g.r
	nl := len(info.LookupList)
	nf := r.Intn(4)
	for i := 0; i < nf; i++ {
		f := &gtab.Feature{Tag: tags[r.Intn(len(tags))]}
		for k := r.Intn(3); k > 0 && nl > 0; k-- {
			f.Lookups = append(f.Lookups, gtab.LookupIndex(r.Intn(nl)))
		}
		info.FeatureList = append(info.FeatureList, f)
	}
	info.ScriptList = gtab.ScriptListInfo{}
	for _, s := range []string{"und-Zzzz-x-dflt", "und-Latn-x-latn", "de-Latn-x-latn-deu", "und-Arab-x-arab", "ja-Hrkt-x-kana-jan"} {
		if r.Intn(2) == 0 {
			continue
		}
		fe := &gtab.Features{Required: 0xFFFF}
		if nf > 0 && r.Intn(3) == 0 {
			fe.Required = gtab.FeatureIndex(r.Intn(nf))
		}
		for k := r.Intn(3); k > 0 && nf > 0; k-- {
			fe.Optional = append(fe.Optional, gtab.FeatureIndex(r.Intn(nf)))
		}
		info.ScriptList[language.MustParse(s)] = fe
	}
}

func (g *fontGen) tables(f *sfnt.Font) {
	r := g.r
	if g.n < 2 {
		return
	}
	gg := &gtabGen{r: r, n: g.n - 1, nl: 1 + r.Intn(4)}
	if r.Intn(3) > 0 {
		f.Gdef = gg.gdef()
	}
	f.Gsub = &gtab.Info{LookupList: gg.list()}
	g.features(f.Gsub, []string{"liga", "clig", "ccmp", "smcp"})
	if r.Intn(3) > 0 {
		gg.gpos = true
		f.Gpos = &gtab.Info{LookupList: gg.list()}
		g.features(f.Gpos, []string{"kern", "mark", "mkmk", "cpsp"})
	}
	if f.Gdef != nil && f.Gdef.GlyphClass == nil {
		f.Gdef.GlyphClass = nil
	}
}

// font makes a font value.
func (g *fontGen) font() *sfnt.Font {
	r := g.r
	f := &sfnt.Font{}
	switch g.kind {
	case "glyf":
		o := &glyf.Outlines{}
		for i := 0; i < g.n; i++ {
			switch r.Intn(6) {
			case 0:
				if i == g.n-1 && len(o.Glyphs) > 0 || i > 0 {
					o.Glyphs = append(o.Glyphs, nil)
				} else {
					o.Glyphs = append(o.Glyphs, g.ttSimple())
				}
			case 1:
				o.Glyphs = append(o.Glyphs, g.ttComposite(o.Glyphs))
			default:
				o.Glyphs = append(o.Glyphs, g.ttSimple())
			}
			o.Widths = append(o.Widths, funit.Int16(g.width()))
		}
		switch r.Intn(3) {
		case 0:
			for i := range o.Widths {
				o.Widths[i] = 600
			}
		case 1:
			for i := g.n / 2; i < g.n; i++ {
				o.Widths[i] = o.Widths[g.n/2]
			}
		}
		if r.Intn(3) > 0 {
			o.Names = g.names()
		}
		o.Tables = map[string][]byte{}
		for _, t := range []string{"cvt ", "fpgm", "prep", "gasp"} {
			if r.Intn(2) == 0 {
				b := make([]byte, 1+r.Intn(13))
				r.Read(b)
				o.Tables[t] = b
			}
		}
		u := func() uint16 { return uint16(r.Intn(65536)) }
		o.Maxp = &maxp.TTFInfo{u(), u(), u(), u(), uint16(1 + r.Intn(2)), u(), u(), u(), u(), u(), u(), u(), u()}
		f.Outlines = o
		f.UnitsPerEm = []uint16{1000, 2048, 16, 16384, uint16(16 + r.Intn(16369))}[r.Intn(5)]
		q := 1 / float64(f.UnitsPerEm)
		f.FontMatrix = matrix.Matrix{q, 0, 0, q, 0, 0}
	default:
		f.Outlines = g.cffOutlines()
		f.UnitsPerEm = []uint16{1000, 2048, 500, 1024}[r.Intn(4)]
		q := 1 / float64(f.UnitsPerEm)
		f.FontMatrix = matrix.Matrix{q, 0, 0, q, 0, 0}
		if r.Intn(5) == 0 {
			f.FontMatrix = g.fontMatrix(0.001)
		}
	}
	s := func() string { return fontStrings[r.Intn(len(fontStrings))] }
	f.FamilyName = []string{"Test", "Some Family", "Größe", "A-B_c 9"}[r.Intn(4)]
	f.Width = os2.Width(1 + r.Intn(9))
	f.Weight = os2.Weight(1 + r.Intn(1000))
	if r.Intn(2) == 0 {
		f.Weight = os2.Weight(100 * (1 + r.Intn(9)))
	}
	f.IsBold = r.Intn(3) == 0
	if r.Intn(3) == 0 {
		f.IsItalic = true
		f.IsOblique = r.Intn(2) == 0
		if r.Intn(2) == 0 {
			f.ItalicAngle = float64(r.Intn(2*30*65536)-30*65536) / 65536
			if r.Intn(2) == 0 {
				f.ItalicAngle = math.Round(f.ItalicAngle)
			}
		}
	}
	if !f.IsBold && !f.IsItalic {
		f.IsRegular = r.Intn(2) == 0
	}
	switch r.Intn(3) {
	case 0:
		f.IsSerif = true
	case 1:
		f.IsScript = true
	}
	f.CodePageRange = os2.CodePageRange(r.Uint64())
	if r.Intn(2) == 0 {
		f.CodePageRange = 0
		f.CodePageRange.Set(os2.CP1252)
	}
	f.Version = head.Version(r.Uint32()).Round()
	if r.Intn(2) == 0 {
		f.Version = head.Version(r.Intn(10 << 16)).Round()
	}
	tm := func() time.Time {
		return time.Date(1970+r.Intn(120), time.Month(1+r.Intn(12)), 1+r.Intn(28), r.Intn(24), r.Intn(60), r.Intn(60), 0, time.UTC)
	}
	f.CreationTime, f.ModificationTime = tm(), tm()
	f.Description, f.SampleText, f.Copyright, f.Trademark, f.License, f.LicenseURL = s(), s(), s(), s(), s(), s()
	f.PermUse = os2.Permissions(r.Intn(4))
	i16 := func() funit.Int16 { return funit.Int16(r.Intn(65536) - 32768) }
	if r.Intn(2) == 0 {
		f.Ascent, f.Descent, f.LineGap = i16(), i16(), i16()
	} else {
		f.Ascent, f.Descent, f.LineGap = funit.Int16(r.Intn(1500)), funit.Int16(-r.Intn(500)), funit.Int16(r.Intn(300))
	}
	f.CapHeight, f.XHeight = funit.Int16(1+r.Intn(32767)), funit.Int16(1+r.Intn(32767))
	f.UnderlinePosition, f.UnderlineThickness = funit.Float64(i16()), funit.Float64(i16())
	f.CMapTable = g.cmap()
	if g.layout {
		g.tables(f)
	}
	return f
}

func writeFont(f *sfnt.Font) ([]byte, error) {
	var buf bytes.Buffer
	n, err := f.Write(&buf)
	if err == nil && n != int64(buf.Len()) {
		return nil, fmt.Errorf("Write reports %d bytes, wrote %d", n, buf.Len())
	}
	return buf.Bytes(), err
}

// diffVals compares two values field by field and returns the path of the
// first difference.  Nil and empty slices and maps are the same; floating
// point numbers may differ by tol (absolute and relative).
func diffVals(a, b any, tol float64) string {
	return diffRefl(reflect.ValueOf(a), reflect.ValueOf(b), tol, "")
}

// strictRecords makes missing and empty value records different.
var strictRecords bool

func diffRefl(a, b reflect.Value, tol float64, path string) string {
	if a.IsValid() != b.IsValid() {
		return fmt.Sprintf("%s: %v instead of %v", path, b, a)
	}
	if !a.IsValid() {
		return ""
	}
	if a.Type() != b.Type() {
		return fmt.Sprintf("%s: type %s instead of %s", path, b.Type(), a.Type())
	}
	show := func(v reflect.Value) string {
		s := fmt.Sprintf("%v", v)
		if v.CanInterface() {
			s = fmt.Sprintf("%+v", v.Interface())
		}
		if len(s) > 300 {
			s = s[:300] + "…"
		}
		return s
	}
	bad := func() string { return fmt.Sprintf("%s: %s instead of %s", path, show(b), show(a)) }
	if a.CanInterface() && b.CanInterface() {
		switch x := a.Interface().(type) {
		case time.Time:
			if !x.Equal(b.Interface().(time.Time)) {
				return bad()
			}
			return ""
		case *gtab.GposValueRecord:
			// value records are stored with the format shared by the subtable
			y := b.Interface().(*gtab.GposValueRecord)
			if strictRecords && (x == nil) != (y == nil) {
				return bad()
			}
			if x == nil {
				x = &gtab.GposValueRecord{}
			}
			if y == nil {
				y = &gtab.GposValueRecord{}
			}
			if *x != *y {
				return bad()
			}
			return ""
		case language.Tag:
			if x != b.Interface().(language.Tag) {
				return bad()
			}
			return ""
		}
	}
	switch a.Kind() {
	case reflect.Bool:
		if a.Bool() != b.Bool() {
			return bad()
		}
	case reflect.Int, reflect.Int8, reflect.Int16, reflect.Int32, reflect.Int64:
		if a.Int() != b.Int() {
			return bad()
		}
	case reflect.Uint, reflect.Uint8, reflect.Uint16, reflect.Uint32, reflect.Uint64, reflect.Uintptr:
		if a.Uint() != b.Uint() {
			return bad()
		}
	case reflect.Float32, reflect.Float64:
		x, y := a.Float(), b.Float()
		if x != y && !(math.Abs(x-y) <= tol || math.Abs(x-y) <= tol*math.Max(math.Abs(x), math.Abs(y))) {
			return bad()
		}
	case reflect.String:
		if a.String() != b.String() {
			return bad()
		}
	case reflect.Pointer, reflect.Interface:
		if a.IsNil() || b.IsNil() {
			if a.IsNil() != b.IsNil() {
				return bad()
			}
			return ""
		}
		if a.Kind() == reflect.Pointer && a.Pointer() == b.Pointer() {
			return ""
		}
		return diffRefl(a.Elem(), b.Elem(), tol, path)
	case reflect.Func:
		if a.IsNil() != b.IsNil() {
			return bad()
		}
	case reflect.Slice, reflect.Array:
		if a.Len() != b.Len() {
			return fmt.Sprintf("%s: length %d instead of %d: %s instead of %s", path, b.Len(), a.Len(), show(b), show(a))
		}
		if a.Kind() == reflect.Slice && a.Len() > 0 && a.Pointer() == b.Pointer() {
			return ""
		}
		for i := 0; i < a.Len(); i++ {
			if d := diffRefl(a.Index(i), b.Index(i), tol, fmt.Sprintf("%s[%d]", path, i)); d != "" {
				return d
			}
		}
	case reflect.Map:
		if a.Len() != b.Len() {
			return fmt.Sprintf("%s: %d entries instead of %d: %s instead of %s", path, b.Len(), a.Len(), show(b), show(a))
		}
		it := a.MapRange()
		for it.Next() {
			y := b.MapIndex(it.Key())
			if !y.IsValid() {
				return fmt.Sprintf("%s: key %v lost", path, it.Key())
			}
			if d := diffRefl(it.Value(), y, tol, fmt.Sprintf("%s[%v]", path, it.Key())); d != "" {
				return d
			}
		}
	case reflect.Struct:
		for i := 0; i < a.NumField(); i++ {
			if d := diffRefl(a.Field(i), b.Field(i), tol, path+"."+a.Type().Field(i).Name); d != "" {
				return d
			}
		}
	default:
		panic("diffRefl: " + a.Kind().String())
	}
	return ""
}

// diffFonts compares two fonts including the font dictionary assignment.
func diffFonts(a, b *sfnt.Font, tol float64) string {
	if d := diffVals(a, b, tol); d != "" {
		return d
	}
	x, ok1 := a.Outlines.(*cff.Outlines)
	y, ok2 := b.Outlines.(*cff.Outlines)
	if ok1 && ok2 {
		for i := range x.Glyphs {
			if x.FDSelect(glyph.ID(i)) != y.FDSelect(glyph.ID(i)) {
				return fmt.Sprintf("FDSelect(%d) = %d instead of %d", i, y.FDSelect(glyph.ID(i)), x.FDSelect(glyph.ID(i)))
			}
		}
	}
	return ""
}

var _ = gdef.GlyphClassBase
