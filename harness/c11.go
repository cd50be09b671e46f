package main

import (
	"bytes"
	"fmt"
	"math/rand"
	"reflect"

	"seehuhn.de/go/postscript/funit"
	"seehuhn.de/go/sfnt/glyf"
	"seehuhn.de/go/sfnt/glyph"
)

func init() { register("C11", c11) }

type refPoint struct {
	x, y int
	on   bool
}

// glyfGen draws contours and encodes them in one of the many ways the
// TrueType specification allows.
func glyfContours(r *rand.Rand) [][]refPoint {
	var cc [][]refPoint
	n := r.Intn(4)
	if r.Intn(40) == 0 {
		n = r.Intn(60)
	}
	x, y := 0, 0
	style := r.Intn(5)
	for ; n > 0; n-- {
		var c []refPoint
		m := 1 + r.Intn(8)
		if r.Intn(30) == 0 {
			m = 1 + r.Intn(600)
		}
		for ; m > 0; m-- {
			step := func(v int) int {
				var d int
				switch r.Intn(7) {
				case 0, 1:
				case 2:
					d = r.Intn(511) - 255
				case 3:
					d = []int{255, -255, 256, -256, 1, -1}[r.Intn(6)]
				case 4:
					d = r.Intn(65535) - 32767
				default:
					d = r.Intn(41) - 20
				}
				if style == 1 {
					d = 0
				}
				if w := v + d; w >= -32768 && w <= 32767 && d >= -32768 && d <= 32767 {
					return w
				}
				return v
			}
			x, y = step(x), step(y)
			c = append(c, refPoint{x, y, r.Intn(2) == 0 || style == 2})
		}
		cc = append(cc, c)
	}
	return cc
}

func glyfEncode(r *rand.Rand, cc [][]refPoint, instr []byte) []byte {
	var b []byte
	n := 0
	var pp []refPoint
	for _, c := range cc {
		n += len(c)
		b = p16(b, n-1)
		pp = append(pp, c...)
	}
	b = p16(b, len(instr))
	b = append(b, instr...)
	lazy := r.Intn(3) // how often the compact forms are used
	pick := func() bool { return lazy == 0 || lazy == 1 && r.Intn(3) > 0 }
	var ff []byte
	var xs, ys []byte
	px, py := 0, 0
	coord := func(d int, short, same byte, out *[]byte) byte {
		switch {
		case d == 0 && pick():
			return same
		case d > -256 && d < 256 && pick():
			f := short
			if d > 0 || d == 0 && r.Intn(2) == 0 {
				f |= same
			} else {
				d = -d
			}
			*out = append(*out, byte(d))
			return f
		default:
			*out = p16(*out, d)
			return 0
		}
	}
	extra := byte(0)
	if r.Intn(8) == 0 {
		extra = byte(r.Intn(4)) << 6 // overlap bit, reserved bit
	}
	for _, p := range pp {
		f := coord(p.x-px, 2, 16, &xs) | coord(p.y-py, 4, 32, &ys) | extra
		if p.on {
			f |= 1
		}
		ff = append(ff, f)
		px, py = p.x, p.y
	}
	for i := 0; i < len(ff); {
		k := 1
		for i+k < len(ff) && ff[i+k] == ff[i] && k < 256 {
			k++
		}
		switch {
		case k > 1 && pick():
			if r.Intn(3) == 0 {
				k = 1 + r.Intn(k)
			}
			b = append(b, ff[i]|8, byte(k-1))
			i += k
		case r.Intn(30) == 0: // repeat count 0
			b = append(b, ff[i]|8, 0)
			i++
		default:
			b = append(b, ff[i])
			i++
		}
	}
	b = append(b, xs...)
	b = append(b, ys...)
	return b
}

type refComp struct {
	flags, gid int
	args       []byte
}

func glyfComposite(r *rand.Rand, n int) (cc []refComp, instr []byte, has bool) {
	k := 1 + r.Intn(3)
	if r.Intn(40) == 0 {
		k = 1 + r.Intn(300)
	}
	has = r.Intn(3) == 0
	at := r.Intn(k)
	for i := 0; i < k; i++ {
		f := r.Intn(0x10000) &^ (0x20 | 0x100 | 0x8 | 0x40 | 0x80)
		if i < k-1 {
			f |= 0x20
		}
		if has && (i == at || r.Intn(3) == 0) {
			f |= 0x100
		}
		l := 2
		if f&1 != 0 {
			l = 4
		}
		switch r.Intn(4) {
		case 0:
			f |= 8
			l += 2
		case 1:
			f |= 0x40
			l += 4
		case 2:
			f |= 0x80
			l += 8
		}
		a := make([]byte, l)
		r.Read(a)
		cc = append(cc, refComp{f, r.Intn(n), a})
	}
	if has {
		instr = make([]byte, r.Intn(4)*r.Intn(20))
		r.Read(instr)
	}
	return
}

type refGlyph struct {
	kind   int // 0 empty, 1 simple, 2 composite
	box    [4]int
	cont   [][]refPoint
	instr  []byte
	has    bool
	comp   []refComp
	header bool // zero contours, nothing but the header
}

func (g *refGlyph) encode(r *rand.Rand) []byte {
	var b []byte
	switch g.kind {
	case 0:
		return nil
	case 1:
		b = p16(b, len(g.cont))
	case 2:
		b = p16(b, 0xFFFF)
	}
	for _, v := range g.box {
		b = p16(b, v)
	}
	if g.kind == 1 {
		if g.header {
			return b
		}
		return append(b, glyfEncode(r, g.cont, g.instr)...)
	}
	for _, c := range g.comp {
		b = append(p16(p16(b, c.flags), c.gid), c.args...)
	}
	if g.has {
		b = append(p16(b, len(g.instr)), g.instr...)
	}
	return b
}

func glyfRandom(r *rand.Rand, n int) *refGlyph {
	g := &refGlyph{kind: []int{0, 1, 1, 1, 2}[r.Intn(5)]}
	for i := range g.box {
		g.box[i] = r.Intn(65536) - 32768
	}
	switch g.kind {
	case 1:
		g.cont = glyfContours(r)
		g.instr = make([]byte, r.Intn(3)*r.Intn(30))
		r.Read(g.instr)
		if len(g.cont) == 0 && r.Intn(2) == 0 {
			g.header = true
			g.instr = nil
		}
	case 2:
		g.comp, g.instr, g.has = glyfComposite(r, n)
	}
	return g
}

// compare checks a decoded glyph against the reference.
func (g *refGlyph) compare(w *W, i int, h *glyf.Glyph) {
	if g.kind == 0 {
		w.Check(h == nil, "empty glyph", "glyph %d is not empty", i)
		return
	}
	if h == nil {
		w.Fail("empty glyph", "glyph %d lost", i)
		return
	}
	box := [4]int{int(h.LLx), int(h.LLy), int(h.URx), int(h.URy)}
	w.Check(box == g.box, "bounding box", "glyph %d: %v instead of %v", i, box, g.box)
	switch d := h.Data.(type) {
	case glyf.SimpleGlyph:
		if g.kind != 1 {
			w.Fail("glyph kind", "glyph %d is simple", i)
			return
		}
		w.Check(int(d.NumContours) == len(g.cont), "contours", "glyph %d: NumContours %d instead of %d", i, d.NumContours, len(g.cont))
		var info *glyf.GlyphInfo
		var err error
		if !w.NoPanic("SimpleGlyph.Decode", func() { info, err = d.Decode() }) {
			return
		}
		if err != nil {
			w.Fail("simple glyph decode", "glyph %d: %v", i, err)
			return
		}
		w.Check(bytes.Equal(info.Instructions, g.instr), "simple glyph instructions", "glyph %d: %x instead of %x", i, info.Instructions, g.instr)
		if len(info.Contours) != len(g.cont) {
			w.Fail("simple glyph contours", "glyph %d: %d instead of %d contours", i, len(info.Contours), len(g.cont))
			return
		}
		for k, c := range g.cont {
			if len(info.Contours[k]) != len(c) {
				w.Fail("simple glyph contours", "glyph %d contour %d: %d instead of %d points", i, k, len(info.Contours[k]), len(c))
				return
			}
			for j, p := range c {
				q := info.Contours[k][j]
				if int(q.X) != p.x || int(q.Y) != p.y || q.OnCurve != p.on {
					w.Fail("simple glyph points", "glyph %d contour %d point %d: %v instead of %v", i, k, j, q, p)
					return
				}
			}
		}
		w.Check(len(h.Components()) == 0, "components", "simple glyph %d has components", i)
	case glyf.CompositeGlyph:
		if g.kind != 2 {
			w.Fail("glyph kind", "glyph %d is composite", i)
			return
		}
		ids := h.Components()
		if len(d.Components) != len(g.comp) || len(ids) != len(g.comp) {
			w.Fail("components", "glyph %d: %d components instead of %d", i, len(ids), len(g.comp))
			return
		}
		for k, c := range g.comp {
			e := d.Components[k]
			w.Check(len(e.Flags.String()) < 400, "component flags", "%04x", c.flags)
			if int(e.Flags) != c.flags || int(e.GlyphIndex) != c.gid || int(ids[k]) != c.gid || !bytes.Equal(e.Data, c.args) {
				w.Fail("components", "glyph %d component %d: %v instead of %v", i, k, e, c)
				return
			}
		}
		w.Check(bytes.Equal(d.Instructions, g.instr), "composite instructions", "glyph %d: %x instead of %x", i, d.Instructions, g.instr)
	}
}

func checkLoca(w *W, enc *glyf.Encoded, n int) []int {
	var offs []int
	l := len(enc.LocaData)
	switch enc.LocaFormat {
	case 0:
		for p := 0; p+2 <= l; p += 2 {
			offs = append(offs, 2*u16(enc.LocaData, p))
		}
	case 1:
		for p := 0; p+4 <= l; p += 4 {
			offs = append(offs, u32(enc.LocaData, p))
		}
	default:
		w.Fail("loca format", "%d", enc.LocaFormat)
		return nil
	}
	if len(offs) != n+1 || l != len(offs)*(2+2*int(enc.LocaFormat)) {
		w.Fail("loca length", "%d bytes, format %d, for %d glyphs", l, enc.LocaFormat, n)
		return nil
	}
	for i, o := range offs {
		if i == 0 && o != 0 || o%2 != 0 || o > len(enc.GlyfData) || i > 0 && o < offs[i-1] {
			w.Fail("loca offsets", "offset %d of glyph %d (previous %v), %d bytes of data", o, i, offs[max(i-1, 0)], len(enc.GlyfData))
			return nil
		}
	}
	if offs[n] != len(enc.GlyfData) {
		w.Fail("loca end", "last offset %d, %d bytes of data", offs[n], len(enc.GlyfData))
		return nil
	}
	return offs
}

func c11(w *W) {
	run := func(r *rand.Rand, gg []*refGlyph, short bool) {
		n := len(gg)
		enc := &glyf.Encoded{LocaFormat: 1}
		if short {
			enc.LocaFormat = 0
		}
		align := []int{1, 2, 4}[r.Intn(3)]
		if short {
			align = 2 + 2*r.Intn(2)
		}
		put := func() {
			if short {
				enc.LocaData = p16(enc.LocaData, len(enc.GlyfData)/2)
			} else {
				enc.LocaData = p32(enc.LocaData, len(enc.GlyfData))
			}
		}
		put()
		for _, g := range gg {
			b := g.encode(r)
			if len(b) > 0 && r.Intn(5) == 0 {
				b = append(b, make([]byte, r.Intn(6))...)
			}
			enc.GlyfData = append(enc.GlyfData, b...)
			for len(enc.GlyfData)%align != 0 {
				enc.GlyfData = append(enc.GlyfData, 0)
			}
			put()
		}
		if short && len(enc.GlyfData) > 0x1FFFE {
			return
		}
		w.Input(append(append([]byte(nil), enc.LocaData...), enc.GlyfData...))
		var d1, d2 glyf.Glyphs
		var err error
		if !w.NoPanic("Decode", func() { d1, err = glyf.Decode(enc) }) {
			return
		}
		if err != nil {
			w.Fail("valid data rejected", "%v", err)
			return
		}
		if len(d1) != n {
			w.Fail("number of glyphs", "%d instead of %d", len(d1), n)
			return
		}
		for i, g := range gg {
			g.compare(w, i, d1[i])
		}
		var out *glyf.Encoded
		if !w.NoPanic("Encode", func() { out = d1.Encode() }) {
			return
		}
		if checkLoca(w, out, n) == nil {
			return
		}
		if !w.NoPanic("Decode", func() { d2, err = glyf.Decode(out) }) {
			return
		}
		if err != nil {
			w.Fail("own encoding rejected", "%v", err)
			return
		}
		if len(d2) != n {
			w.Fail("number of glyphs", "%d instead of %d", len(d2), n)
			return
		}
		for i := range d1 {
			if !reflect.DeepEqual(d1[i], d2[i]) {
				w.Fail("encode/decode", "glyph %d: %v became %v", i, d1[i], d2[i])
				return
			}
		}
		for i, g := range gg {
			g.compare(w, i, d2[i])
		}
		if n < 2000 {
			c := d2.Encode()
			w.Check(reflect.DeepEqual(c, out), "second encoding differs", "")
			fix := map[glyph.ID]glyph.ID{}
			for i := 0; i < n; i++ {
				fix[glyph.ID(i)] = glyph.ID(i*7 + 3)
			}
			for i, g := range gg {
				h := d2[i].FixComponents(fix)
				before := fmt.Sprint(d2[i].Components())
				g.compare(w, i, d2[i]) // the original is unchanged
				g2 := *g
				g2.comp = append([]refComp(nil), g.comp...)
				for k := range g2.comp {
					g2.comp[k].gid = int(fix[glyph.ID(g.comp[k].gid)])
				}
				g2.compare(w, i, h)
				w.Check(before == fmt.Sprint(d2[i].Components()), "FixComponents changes its argument", "")
			}
		}
	}
	w.Each("sets", w.Scale(30000, 500000), func(i int, r *rand.Rand) {
		n := 1 + r.Intn(8)
		if r.Intn(20) == 0 {
			n = 1 + r.Intn(200)
		}
		gg := make([]*refGlyph, n)
		for j := range gg {
			gg[j] = glyfRandom(r, n)
		}
		run(r, gg, r.Intn(2) == 0)
	})
	// totals around the limits of the short loca format
	w.Each("limit", w.Scale(120, 2000), func(i int, r *rand.Rand) {
		target := []int{0x10000, 0x20000}[i%2] + 2*(r.Intn(7)-3)
		var gg []*refGlyph
		total := 0
		for total < target {
			g := &refGlyph{kind: 1}
			k := min(target-total-12, 2*r.Intn(3000))
			if k < 0 {
				break
			}
			g.instr = make([]byte, k)
			gg = append(gg, g)
			total += 12 + k
			if r.Intn(10) == 0 {
				gg = append(gg, &refGlyph{})
			}
		}
		run(r, gg, false)
	})
	w.Each("many", w.Scale(8, 40), func(i int, r *rand.Rand) {
		n := []int{65535, 65534, 1, 20000}[i%4]
		gg := make([]*refGlyph, n)
		for j := range gg {
			gg[j] = &refGlyph{}
			if i%4 == 0 && j%50 == 0 || i%4 == 3 || i > 4 && j%3 == 0 {
				gg[j] = &refGlyph{kind: 2, comp: []refComp{{2, r.Intn(n), []byte{1, 2}}}}
			}
		}
		run(r, gg, false)
	})
	// glyph sets built in memory
	w.Each("built", w.Scale(30000, 400000), func(i int, r *rand.Rand) {
		n := 1 + r.Intn(5)
		gg := make(glyf.Glyphs, n)
		ref := make([]*refGlyph, n)
		for j := range gg {
			g := glyfRandom(r, n)
			ref[j] = g
			if g.kind == 0 {
				continue
			}
			h := &glyf.Glyph{Rect16: funit.Rect16{LLx: funit.Int16(g.box[0]), LLy: funit.Int16(g.box[1]), URx: funit.Int16(g.box[2]), URy: funit.Int16(g.box[3])}}
			if g.kind == 1 {
				d := glyf.SimpleGlyph{NumContours: int16(len(g.cont)), Encoded: []byte{}}
				if !g.header {
					d.Encoded = glyfEncode(r, g.cont, g.instr)
				}
				h.Data = d
			} else {
				var d glyf.CompositeGlyph
				for _, c := range g.comp {
					d.Components = append(d.Components, glyf.GlyphComponent{Flags: glyf.ComponentFlag(c.flags), GlyphIndex: glyph.ID(c.gid), Data: c.args})
				}
				if g.has {
					d.Instructions = append([]byte{}, g.instr...)
				}
				h.Data = d
			}
			gg[j] = h
		}
		var enc *glyf.Encoded
		w.Eval(fmt.Sprint(i, ref[0], n))
		if !w.NoPanic("Encode", func() { enc = gg.Encode() }) {
			return
		}
		offs := checkLoca(w, enc, n)
		if offs == nil {
			return
		}
		for j, g := range ref {
			w.Check((offs[j] == offs[j+1]) == (g.kind == 0), "empty glyph", "glyph %d occupies %d..%d", j, offs[j], offs[j+1])
		}
		got, err := glyf.Decode(enc)
		if err != nil {
			w.Fail("own encoding rejected", "%v", err)
			return
		}
		for j, g := range ref {
			g.compare(w, j, got[j])
			if !reflect.DeepEqual(gg[j], got[j]) {
				w.Fail("encode/decode", "glyph %d: %v became %v", j, gg[j], got[j])
			}
		}
	})
}
