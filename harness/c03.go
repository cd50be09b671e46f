package main

import (
	"bytes"
	"encoding/binary"
	"fmt"
	"math"
	"math/bits"
	"math/rand"
	"sort"

	"golang.org/x/image/font"
	ximg "golang.org/x/image/font/sfnt"
	"golang.org/x/image/math/fixed"

	"seehuhn.de/go/sfnt"
	"seehuhn.de/go/sfnt/cff"
	"seehuhn.de/go/sfnt/glyf"
	"seehuhn.de/go/sfnt/glyph"
	"seehuhn.de/go/sfnt/header"
)

func init() { register("C03", c03) }

// sumWords is the sfnt checksum of zero-padded data.
func sumWords(b []byte) uint32 {
	var s uint32
	for i := 0; i < len(b); i += 4 {
		var w [4]byte
		copy(w[:], b[i:])
		s += binary.BigEndian.Uint32(w[:])
	}
	return s
}

// checkContainer checks the structure of an sfnt file and returns its tables.
func checkContainer(w *W, b []byte, scaler uint32) map[string][]byte {
	if !w.Check(len(b) >= 12, "file length", "%d bytes", len(b)) {
		return nil
	}
	w.Check(binary.BigEndian.Uint32(b) == scaler, "scaler type", "%08x instead of %08x", binary.BigEndian.Uint32(b), scaler)
	n := u16(b, 4)
	if !w.Check(12+16*n <= len(b) && n > 0, "numTables", "%d tables in %d bytes", n, len(b)) {
		return nil
	}
	e := bits.Len(uint(n)) - 1
	w.Check(u16(b, 6) == 16<<e, "searchRange", "%d for %d tables", u16(b, 6), n)
	w.Check(u16(b, 8) == e, "entrySelector", "%d for %d tables", u16(b, 8), n)
	w.Check(u16(b, 10) == 16*n-16<<e, "rangeShift", "%d for %d tables", u16(b, 10), n)
	res := map[string][]byte{}
	type span struct{ a, b int }
	var ss []span
	prev := ""
	for i := 0; i < n; i++ {
		r := b[12+16*i:]
		tag := string(r[:4])
		w.Check(i == 0 || tag > prev, "directory order", "%q after %q", tag, prev)
		prev = tag
		off, l := int(binary.BigEndian.Uint32(r[8:])), int(binary.BigEndian.Uint32(r[12:]))
		if !w.Check(off%4 == 0, "table alignment", "%q at %d", tag, off) || !w.Check(off >= 12+16*n && off+l <= len(b), "table position", "%q: [%d,%d) in %d bytes, %d tables", tag, off, off+l, len(b), n) {
			return nil
		}
		pad := (off + l + 3) &^ 3
		if w.Check(pad <= len(b), "table padding", "%q: padding up to %d missing (%d bytes)", tag, pad, len(b)) {
			for _, c := range b[off+l : pad] {
				w.Check(c == 0, "table padding", "%q: padding byte %d", tag, c)
			}
		}
		data := b[off : off+l]
		sum := sumWords(data)
		if tag == "head" && l >= 12 {
			sum -= binary.BigEndian.Uint32(data[8:])
		}
		w.Check(binary.BigEndian.Uint32(r[4:]) == sum, "table checksum", "%q: %08x instead of %08x", tag, binary.BigEndian.Uint32(r[4:]), sum)
		res[tag] = data
		ss = append(ss, span{off, off + l})
	}
	sort.Slice(ss, func(i, j int) bool { return ss[i].a < ss[j].a || ss[i].a == ss[j].a && ss[i].b < ss[j].b })
	for i := 1; i < n; i++ {
		w.Check(ss[i-1].b <= ss[i].a, "table overlap", "[%d,%d) and [%d,%d)", ss[i-1].a, ss[i-1].b, ss[i].a, ss[i].b)
	}
	if h, ok := res["head"]; ok && len(h) >= 12 {
		w.Check(sumWords(b) == 0xB1B0AFBA, "file checksum", "%08x", sumWords(b))
	}
	return res
}

var commonTags = []string{"head", "hhea", "hmtx", "maxp", "OS/2", "name", "post", "cmap", "glyf", "loca", "CFF ", "GSUB", "GPOS", "GDEF", "cvt ", "fpgm", "prep", "gasp", "kern", "DSIG"}

func c03Tables(r *rand.Rand, n int, head bool) map[string][]byte {
	m := map[string][]byte{}
	big := r.Intn(8) == 0
	for len(m) < n {
		var t string
		if r.Intn(2) == 0 && len(m) < 12 {
			t = commonTags[r.Intn(len(commonTags))]
		} else {
			c := make([]byte, 4)
			for i := range c {
				c[i] = byte(0x20 + r.Intn(0x5f))
			}
			t = string(c)
		}
		if t == "head" {
			continue
		}
		l := r.Intn(10)
		switch r.Intn(6) {
		case 0:
			l = 0
		case 1:
			l = r.Intn(200)
		case 2:
			if big {
				l = r.Intn(70000)
			}
		}
		if n > 50 {
			l = r.Intn(9)
		}
		b := make([]byte, l)
		r.Read(b)
		m[t] = b
	}
	if head {
		l := []int{0, 4, 11, 12, 13, 14, 15, 16, 54, 54, 54, 55, 60}[r.Intn(13)]
		b := make([]byte, l)
		r.Read(b)
		m["head"] = b
	}
	return m
}

func c03Map(w *W, r *rand.Rand, n int) {
	m := c03Tables(r, n, n == 0 || r.Intn(2) == 0)
	sc := []uint32{header.ScalerTypeTrueType, header.ScalerTypeCFF, header.ScalerTypeApple, r.Uint32()}[r.Intn(4)]
	orig := map[string][]byte{}
	for t, b := range m {
		orig[t] = append([]byte{}, b...)
	}
	w.Eval(fmt.Sprintf("header.Write scaler %08x %x", sc, m))
	var buf bytes.Buffer
	k, err := header.Write(&buf, sc, m)
	if !w.Check(err == nil, "header.Write", "error %v", err) {
		return
	}
	b := buf.Bytes()
	w.Check(k == int64(len(b)), "byte count", "Write reports %d, wrote %d", k, len(b))
	res := checkContainer(w, b, sc)
	if res == nil {
		return
	}
	cmp := func(how string, got map[string][]byte) {
		w.Check(len(got) == len(orig), "tables "+how, "%d tables instead of %d", len(got), len(orig))
		for t, x := range orig {
			y, ok := got[t]
			if !w.Check(ok && len(x) == len(y), "tables "+how, "%q: %d bytes instead of %d", t, len(y), len(x)) {
				continue
			}
			for i := range x {
				if t == "head" && i >= 8 && i < 12 && len(x) >= 12 {
					continue
				}
				if !w.Check(x[i] == y[i], "table data "+how, "%q: byte %d is %d instead of %d", t, i, y[i], x[i]) {
					break
				}
			}
		}
	}
	cmp("independent", res)
	rd := bytes.NewReader(b)
	info, err := header.Read(rd)
	if sc != header.ScalerTypeTrueType && sc != header.ScalerTypeCFF && sc != header.ScalerTypeApple {
		w.Check(err != nil, "scaler accepted", "scaler type %08x", sc)
		return
	}
	if !w.Check(err == nil, "header.Read", "error %v", err) {
		return
	}
	w.Check(info.ScalerType == sc, "read scaler", "%08x instead of %08x", info.ScalerType, sc)
	got := map[string][]byte{}
	for t := range info.Toc {
		x, err := info.ReadTableBytes(rd, t)
		w.Check(err == nil, "ReadTableBytes", "%q: %v", t, err)
		got[t] = x
		w.Check(info.Has(t) == (len(orig[t]) > 0), "Has", "%q", t)
	}
	cmp("header.Read", got)
	w.Check(!info.Has("no:t") || orig["no:t"] != nil, "Has", "missing table")
}

// ttSegments is the outline of a contour as quadratic segments.
func ttSegments(cc [][]refPoint, dx, dy int, out []ximg.Segment) []ximg.Segment {
	pt := func(p refPoint) fixed.Point26_6 {
		return fixed.Point26_6{X: fixed.Int26_6(p.x + dx), Y: fixed.Int26_6(-(p.y + dy))}
	}
	mid := func(a, b refPoint) fixed.Point26_6 {
		p, q := pt(a), pt(b)
		return fixed.Point26_6{X: (p.X + q.X) / 2, Y: (p.Y + q.Y) / 2}
	}
	for _, c := range cc {
		if len(c) == 0 {
			continue
		}
		out = append(out, ximg.Segment{Op: ximg.SegmentOpMoveTo, Args: [3]fixed.Point26_6{pt(c[0])}})
		n := len(c)
		for i := 1; i <= n; i++ {
			p, q := c[i-1], c[i%n]
			switch {
			case p.on && q.on:
				out = append(out, ximg.Segment{Op: ximg.SegmentOpLineTo, Args: [3]fixed.Point26_6{pt(q)}})
			case p.on:
			case q.on:
				out = append(out, ximg.Segment{Op: ximg.SegmentOpQuadTo, Args: [3]fixed.Point26_6{pt(p), pt(q)}})
			default:
				out = append(out, ximg.Segment{Op: ximg.SegmentOpQuadTo, Args: [3]fixed.Point26_6{pt(p), mid(p, q)}})
			}
		}
	}
	return out
}

func c03Outline(g *fontGen, f *sfnt.Font, gid int) ([]ximg.Segment, bool) {
	switch o := f.Outlines.(type) {
	case *glyf.Outlines:
		gl := o.Glyphs[gid]
		if gl == nil {
			return nil, true
		}
		switch d := gl.Data.(type) {
		case glyf.SimpleGlyph:
			return ttSegments(g.cont[gl], 0, 0, nil), true
		case glyf.CompositeGlyph:
			var out []ximg.Segment
			for _, c := range d.Components {
				if c.Flags&(glyf.FlagWeHaveAScale|glyf.FlagWeHaveAnXAndYScale|glyf.FlagWeHaveATwoByTwo) != 0 || c.Flags&glyf.FlagArgsAreXYValues == 0 {
					return nil, false
				}
				dx, dy := int(int8(c.Data[0])), int(int8(c.Data[1]))
				if c.Flags&glyf.FlagArg1And2AreWords != 0 {
					dx, dy = int(int16(u16(c.Data, 0))), int(int16(u16(c.Data, 2)))
				}
				sub := o.Glyphs[c.GlyphIndex]
				if sub == nil {
					continue
				}
				if _, ok := sub.Data.(glyf.SimpleGlyph); !ok {
					return nil, false
				}
				out = ttSegments(g.cont[sub], dx, dy, out)
			}
			return out, true
		}
	case *cff.Outlines:
		gl := o.Glyphs[gid]
		var out []ximg.Segment
		pt := func(x, y float64) fixed.Point26_6 {
			return fixed.Point26_6{X: fixed.Int26_6(math.Round(x)), Y: -fixed.Int26_6(math.Round(y))}
		}
		if len(gl.HStem)+len(gl.VStem) > 2*90 {
			return nil, false
		}
		var first, cur fixed.Point26_6
		open := false
		for _, c := range gl.Cmds {
			a := c.Args
			var s ximg.Segment
			for _, x := range a {
				if x != math.Trunc(x) && c.Op <= cff.OpCurveTo {
					return nil, false
				}
			}
			switch c.Op {
			case cff.OpMoveTo:
				if open && cur != first {
					out = append(out, ximg.Segment{Op: ximg.SegmentOpLineTo, Args: [3]fixed.Point26_6{first}})
				}
				open = true
				cur = pt(a[0], a[1])
				first = cur
				s = ximg.Segment{Op: ximg.SegmentOpMoveTo, Args: [3]fixed.Point26_6{cur}}
			case cff.OpLineTo:
				cur = pt(a[0], a[1])
				s = ximg.Segment{Op: ximg.SegmentOpLineTo, Args: [3]fixed.Point26_6{cur}}
			case cff.OpCurveTo:
				cur = pt(a[4], a[5])
				s = ximg.Segment{Op: ximg.SegmentOpCubeTo, Args: [3]fixed.Point26_6{pt(a[0], a[1]), pt(a[2], a[3]), cur}}
			default:
				continue
			}
			out = append(out, s)
		}
		if open && cur != first {
			out = append(out, ximg.Segment{Op: ximg.SegmentOpLineTo, Args: [3]fixed.Point26_6{first}})
		}
		return out, true
	}
	return nil, false
}

func c03Font(w *W, r *rand.Rand, kind string) {
	g := newFontGen(r, kind)
	g.layout = false
	g.frac = r.Intn(8) == 0
	f := g.font()
	b, err := writeFont(f)
	if !w.Check(err == nil, "Write", "error %v", err) {
		return
	}
	w.Input(b)
	sc := header.ScalerTypeCFF
	if kind == "glyf" {
		sc = header.ScalerTypeTrueType
	}
	tabs := checkContainer(w, b, sc)
	if tabs == nil {
		return
	}
	for _, t := range []string{"head", "hhea", "maxp", "OS/2", "name", "post"} {
		w.Check(len(tabs[t]) > 0, "required tables", "table %q is missing", t)
	}
	if f.CMapTable == nil {
		return
	}
	x, err := ximg.Parse(b)
	if !w.Check(err == nil, "independent parser", "%v", err) {
		return
	}
	w.Check(x.NumGlyphs() == f.NumGlyphs(), "independent glyph count", "%d instead of %d", x.NumGlyphs(), f.NumGlyphs())
	w.Check(int(x.UnitsPerEm()) == int(f.UnitsPerEm), "independent units per em", "%d instead of %d", x.UnitsPerEm(), f.UnitsPerEm)
	var xb ximg.Buffer
	m := g.cmap12
	if len(g.cmap12) == len(g.cmap4) {
		m = g.cmap4
	}
	probe := []rune{0, 1, 0x20, 0xFFFE, 0x10FFFF}
	for c := range m {
		probe = append(probe, c)
		if r.Intn(4) == 0 {
			probe = append(probe, c+1, c-1)
		}
	}
	for _, c := range probe {
		if c < 0 || c == 0xFFFF {
			continue
		}
		id, err := x.GlyphIndex(&xb, c)
		w.Check(err == nil && glyph.ID(id) == m[c], "independent character map", "U+%04X: glyph %d, %v instead of %d", c, id, err, m[c])
	}
	ppem := fixed.Int26_6(f.UnitsPerEm)
	for i := 0; i < f.NumGlyphs(); i++ {
		var width float64
		var name string
		hasName := false
		switch o := f.Outlines.(type) {
		case *glyf.Outlines:
			width = float64(o.Widths[i])
			if o.Names != nil {
				name, hasName = o.Names[i], true
			}
		case *cff.Outlines:
			width = math.Round(o.Glyphs[i].Width)
		}
		adv, err := x.GlyphAdvance(&xb, ximg.GlyphIndex(i), ppem, font.HintingNone)
		w.Check(err == nil && float64(int16(adv)) == width, "independent advance", "glyph %d: %d, %v instead of %g", i, adv, err, width)
		if hasName {
			s, err := x.GlyphName(&xb, ximg.GlyphIndex(i))
			w.Check(err == nil && s == name, "independent glyph name", "glyph %d: %q, %v instead of %q", i, s, err, name)
		}
		want, ok := c03Outline(g, f, i)
		if !ok {
			continue
		}
		segs, err := x.LoadGlyph(&xb, ximg.GlyphIndex(i), ppem, nil)
		if !w.Check(err == nil, "independent outline", "glyph %d: %v", i, err) {
			continue
		}
		w.Count("outlines", 1)
		if !w.Check(len(segs) == len(want), "independent outline", "glyph %d: %d segments instead of %d:\n%v\n%v", i, len(segs), len(want), segs, want) {
			continue
		}
		for j := range segs {
			same := segs[j].Op == want[j].Op
			for k := 0; k < []int{1, 1, 2, 3}[want[j].Op]; k++ {
				dx, dy := int(segs[j].Args[k].X-want[j].Args[k].X), int(segs[j].Args[k].Y-want[j].Args[k].Y)
				if max(dx, -dx) > 1 || max(dy, -dy) > 1 {
					same = false
				}
			}
			if !w.Check(same, "independent outline", "glyph %d segment %d: %v instead of %v", i, j, segs[j], want[j]) {
				break
			}
		}
	}
}

func c03(w *W) {
	w.Each("tables", w.Scale(30000, 400000), func(i int, r *rand.Rand) {
		c03Map(w, r, r.Intn(12))
	})
	w.Each("many tables", w.Scale(400, 4000), func(i int, r *rand.Rand) {
		n := 1 + r.Intn(300)
		if r.Intn(20) == 0 {
			n = 4094 - r.Intn(3) // header.Write rejects more than 4095 tables
		}
		c03Map(w, r, n)
	})
	for _, k := range fontKinds {
		w.Each("font "+k, w.Scale(2500, 60000), func(i int, r *rand.Rand) { c03Font(w, r, k) })
	}
	// complete layout tables: structure only
	w.Each("layout", w.Scale(1000, 20000), func(i int, r *rand.Rand) {
		k := fontKinds[r.Intn(3)]
		g := newFontGen(r, k)
		g.layout = true
		b, err := writeFont(g.font())
		if err != nil {
			w.Fail("Write", "error %v", err)
			return
		}
		w.Input(b)
		sc := header.ScalerTypeCFF
		if k == "glyf" {
			sc = header.ScalerTypeTrueType
		}
		checkContainer(w, b, sc)
	})
}
