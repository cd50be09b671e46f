package main

import (
	"bytes"
	"fmt"
	"math"
	"math/rand"
	"strings"

	"seehuhn.de/go/postscript/type1"

	"seehuhn.de/go/sfnt/cff"
	"seehuhn.de/go/sfnt/glyph"
)

func init() { register("C04", c04) }

// t2Gen generates glyph programs.
type t2Gen struct {
	r    *rand.Rand
	mag  int // size of the steps
	frac int // 0 integers, 1 binary fractions, 2 arbitrary fractions
	x, y float64
}

func (g *t2Gen) step() float64 {
	r := g.r
	var d float64
	switch r.Intn(8) {
	case 0:
		d = float64([]int{107, 108, -107, -108, 1131, 1132, -1131, -1132, 1, -1}[r.Intn(10)])
	case 1:
		d = float64(r.Intn(400) - 200)
	default:
		d = float64(r.Intn(2*g.mag+1) - g.mag)
	}
	if g.frac > 0 && r.Intn(2) == 0 {
		switch g.frac {
		case 1:
			d += float64(r.Intn(65536)) / 65536
		case 2:
			d += r.Float64()
		default:
			d += float64(r.Intn(10)) / 10
		}
	}
	return d
}

func (g *t2Gen) clip(x float64) float64 { return math.Max(-32000, math.Min(32000, x)) }

// next moves the current point by (dx, dy), where a zero argument is kept.
func (g *t2Gen) next(zx, zy bool) (float64, float64) {
	if !zx {
		g.x = g.clip(g.x + g.step())
	}
	if !zy {
		g.y = g.clip(g.y + g.step())
	}
	return g.x, g.y
}

func (g *t2Gen) line(gl *cff.Glyph, pat int) {
	x, y := g.next(pat&1 != 0, pat&2 != 0)
	gl.LineTo(x, y)
}

// curve appends a curve; the bits of pat select the deltas which are zero.
func (g *t2Gen) curve(gl *cff.Glyph, pat int) {
	x1, y1 := g.next(pat&1 != 0, pat&2 != 0)
	x2, y2 := g.next(pat&4 != 0, pat&8 != 0)
	x3, y3 := g.next(pat&16 != 0, pat&32 != 0)
	gl.CurveTo(x1, y1, x2, y2, x3, y3)
}

func (g *t2Gen) stems(n int) []float64 {
	r := g.r
	var res []float64
	y := float64(r.Intn(2000) - 1000)
	for ; n > 0; n-- {
		switch r.Intn(10) {
		case 0:
			y = g.clip(float64(r.Intn(30000) - 15000))
		case 1:
			y = g.clip(y - float64(r.Intn(300)))
		default:
			y = g.clip(y + float64(r.Intn(100)))
		}
		if g.frac > 0 && r.Intn(2) == 0 {
			y = g.clip(y + r.Float64())
		}
		h := float64(r.Intn(120))
		switch r.Intn(12) {
		case 0:
			h = -20
		case 1:
			h = -21
		}
		if g.frac > 0 && r.Intn(3) == 0 {
			h += float64(r.Intn(65536)) / 65536
		}
		res = append(res, y, g.clip(y+h))
		y = g.clip(y + h)
	}
	return res
}

func (g *t2Gen) mask(gl *cff.Glyph, op cff.GlyphOpType) {
	n := (len(gl.HStem) + len(gl.VStem)) / 2
	if n == 0 {
		return
	}
	a := make([]float64, (n+7)/8)
	for i := range a {
		a[i] = float64(g.r.Intn(256))
		if i == len(a)-1 && n%8 != 0 {
			a[i] = float64(int(a[i]) &^ (1<<(8-n%8) - 1))
		}
	}
	gl.Cmds = append(gl.Cmds, cff.GlyphOp{Op: op, Args: a})
}

// glyph generates one glyph program.
func (g *t2Gen) glyph(name string, width float64) *cff.Glyph {
	r := g.r
	gl := cff.NewGlyph(name, width)
	g.x, g.y = 0, 0
	g.mag = []int{3, 50, 200, 1000, 5000, 16000}[r.Intn(6)]
	g.frac = []int{0, 0, 1, 2, 3}[r.Intn(5)]
	masks := 0
	switch r.Intn(4) {
	case 0:
		gl.HStem = g.stems(r.Intn(4))
		gl.VStem = g.stems(r.Intn(4))
		masks = r.Intn(3)
	case 1:
		h := r.Intn(97)
		gl.HStem = g.stems(h)
		gl.VStem = g.stems(r.Intn(97 - h))
		masks = r.Intn(3)
	case 2:
		k := []int{23, 24, 25, 47, 48, 49, 8, 16, 7}[r.Intn(9)]
		switch r.Intn(3) {
		case 0:
			gl.HStem = g.stems(k)
		case 1:
			gl.VStem = g.stems(k)
		default:
			gl.HStem = g.stems(k)
			gl.VStem = g.stems(r.Intn(min(97-k, 30)))
		}
		masks = r.Intn(3)
	}
	if r.Intn(12) == 0 && masks == 0 {
		return gl
	}
	mask := func(prob int) {
		if masks > 0 && r.Intn(prob) == 0 {
			op := cff.OpHintMask
			if r.Intn(3) == 0 {
				op = cff.OpCntrMask
			}
			g.mask(gl, op)
			if masks == 2 && r.Intn(3) == 0 {
				g.mask(gl, cff.OpHintMask)
			}
		}
	}
	for k := 1 + r.Intn(4); k > 0; k-- {
		mask(2)
		x, y := g.next(r.Intn(3) == 0, r.Intn(3) == 0)
		if r.Intn(20) == 0 {
			x, y = g.clip(float64(r.Intn(64001)-32000)), g.clip(float64(r.Intn(64001)-32000))
			g.x, g.y = x, y
		}
		gl.MoveTo(x, y)
		mask(6)
		switch r.Intn(7) {
		case 0: // long run of lines
			m := r.Intn(80)
			mode := r.Intn(4)
			for j := 0; j < m; j++ {
				switch mode {
				case 0:
					g.line(gl, 0)
				case 1:
					g.line(gl, 1+(j%2))
				case 2:
					g.line(gl, r.Intn(3))
				default:
					g.line(gl, r.Intn(4))
				}
			}
			if r.Intn(2) == 0 {
				g.curve(gl, r.Intn(64))
			}
		case 1: // alternating horizontal and vertical tangents
			m := 1 + r.Intn(30)
			h := r.Intn(2)
			for j := 0; j < m; j++ {
				p := 2 | 16 // starts horizontally, ends vertically
				if (j+h)%2 == 0 {
					p = 1 | 32
				}
				if j == m-1 && r.Intn(2) == 0 {
					p &= 15
				}
				if r.Intn(40) == 0 {
					p = r.Intn(64)
				}
				g.curve(gl, p)
			}
		case 2: // hhcurveto, vvcurveto
			m := 1 + r.Intn(30)
			p := 2 | 32
			if r.Intn(2) == 0 {
				p = 1 | 16
			}
			for j := 0; j < m; j++ {
				q := p
				if j == 0 && r.Intn(2) == 0 {
					q &^= 3
				}
				if r.Intn(30) == 0 {
					q = r.Intn(64)
				}
				g.curve(gl, q)
			}
		case 3: // general curves and a line
			for j := r.Intn(20); j > 0; j-- {
				g.curve(gl, 0)
			}
			if r.Intn(2) == 0 {
				g.line(gl, r.Intn(4))
			}
		case 4: // flex: two curves with equal ends
			x0, y0 := g.x, g.y
			x1, y1 := g.next(false, r.Intn(2) == 0)
			x2, y2 := g.next(false, false)
			x3, y3 := g.next(false, r.Intn(4) > 0)
			gl.CurveTo(x1, y1, x2, y2, x3, y3)
			x4, y4 := g.next(false, r.Intn(4) > 0)
			x5, y5 := g.next(false, r.Intn(2) == 0)
			if r.Intn(2) == 0 {
				y5 = []float64{y0, y1, y2}[r.Intn(3)]
			}
			x6, y6 := g.next(false, r.Intn(2) == 0)
			switch r.Intn(4) {
			case 0, 1:
				y6 = y0
			case 2:
				x6 = x0
			}
			gl.CurveTo(x4, y4, x5, y5, x6, y6)
			g.x, g.y = x6, y6
		default: // anything
			for j := r.Intn(30); j > 0; j-- {
				if r.Intn(2) == 0 {
					g.line(gl, r.Intn(4)&r.Intn(4))
				} else {
					g.curve(gl, r.Intn(64)&r.Intn(64))
				}
				mask(15)
			}
		}
	}
	if r.Intn(8) == 0 {
		mask(2)
	}
	return gl
}

// t2Fits tells whether all differences of successive numbers can be stored.
func t2Fits(gl *cff.Glyph) bool {
	ok := true
	num := func(d float64) {
		if math.Abs(d) > 32767.99 {
			ok = false
		}
	}
	for _, s := range [][]float64{gl.HStem, gl.VStem} {
		p := 0.0
		for _, x := range s {
			num(x - p)
			num(x)
			p = x
		}
	}
	var x, y float64
	for _, c := range gl.Cmds {
		if c.Op == cff.OpHintMask || c.Op == cff.OpCntrMask {
			continue
		}
		for i := 0; i+1 < len(c.Args); i += 2 {
			num(c.Args[i] - x)
			num(c.Args[i+1] - y)
			x, y = c.Args[i], c.Args[i+1]
		}
	}
	return ok
}

var t2OpLetter = map[cff.GlyphOpType]byte{cff.OpMoveTo: 'm', cff.OpLineTo: 'l', cff.OpCurveTo: 'c', cff.OpHintMask: 'h', cff.OpCntrMask: 'n'}

// cmdDiff compares the commands of a glyph with the executed charstring.
func cmdDiff(gl *cff.Glyph, t *t2Res, tol float64) string {
	if len(gl.Cmds) != len(t.cmds) {
		return fmt.Sprintf("%d commands instead of %d", len(t.cmds), len(gl.Cmds))
	}
	for i, c := range gl.Cmds {
		d := t.cmds[i]
		if t2OpLetter[c.Op] != d.op || len(c.Args) != len(d.args) {
			return fmt.Sprintf("command %d: %c%v instead of %s", i, d.op, d.args, c)
		}
		e := tol
		if d.op == 'h' || d.op == 'n' {
			e = 0
		}
		if !eqFloats(c.Args, d.args, e) {
			return fmt.Sprintf("command %d: %c%v instead of %s", i, d.op, d.args, c)
		}
	}
	return ""
}

func t2FromGlyph(gl *cff.Glyph) *t2Res {
	res := &t2Res{width: gl.Width, hs: gl.HStem, vs: gl.VStem}
	for _, c := range gl.Cmds {
		res.cmds = append(res.cmds, t2Cmd{t2OpLetter[c.Op], c.Args})
	}
	return res
}

func c04Font(w *W, r *rand.Rand, n int) {
	f := &cff.Font{FontInfo: c13Info(rand.New(rand.NewSource(1))), Outlines: &cff.Outlines{}}
	f.FontInfo.FontName = "T2"
	g := &t2Gen{r: r}
	ws := c13Widths(r, n)
	var desc strings.Builder
	for i := 0; i < n; i++ {
		name := fmt.Sprintf("g%d", i)
		if i == 0 {
			name = ".notdef"
		}
		gl := g.glyph(name, ws[i])
		f.Glyphs = append(f.Glyphs, gl)
		if i < 4 {
			desc.WriteString(gl.String())
		}
	}
	f.Private = []*type1.PrivateDict{{BlueScale: 0.039625, BlueShift: 7, BlueFuzz: 1}}
	f.FDSelect = func(glyph.ID) int { return 0 }
	w.Eval(desc.String())
	var buf bytes.Buffer
	var err error
	if !w.NoPanic("cff.Font.Write", func() { err = f.Write(&buf) }) {
		return
	}
	if err != nil {
		for _, gl := range f.Glyphs {
			if !t2Fits(gl) {
				w.Count("not representable", 1)
				return
			}
		}
		w.Fail("Write fails", "%v", err)
		return
	}
	c, err := readCFFRef(buf.Bytes())
	if err != nil || len(c.cs) != n {
		w.Fail("structure of the emitted font", "%v", err)
		return
	}
	var back *cff.Font
	if !w.NoPanic("cff.Read", func() { back, err = cff.Read(bytes.NewReader(buf.Bytes())) }) {
		return
	}
	if err != nil {
		w.Fail("Read fails", "%v", err)
		back = nil
	}
	for i, gl := range f.Glyphs {
		w.Count("glyphs", 1)
		t := c.glyph(i)
		for op, k := range t.ops {
			w.Count(fmt.Sprintf("op %d", op), int64(k))
		}
		info := func() string { return fmt.Sprintf("glyph %d code % x\n%s", i, c.cs[i], gl) }
		if !w.Check(t.bad == "" && t.odd == "", "illegal charstring", "%s%s: %s", t.bad, t.odd, info()) {
			continue
		}
		w.Check(t.maxUsed <= 48, "stack limit", "%d operands: %s", t.maxUsed, info())
		w.Check(c.cs[i][len(c.cs[i])-1] == 14, "endchar", "%s", info())
		if d := cmdDiff(gl, t, 0x1p-16); d != "" {
			w.Fail("path", "%s: %s", d, info())
		}
		w.Check(eqFloats(gl.HStem, t.hs, 0x1p-16), "horizontal stems", "%v: %s", t.hs, info())
		w.Check(eqFloats(gl.VStem, t.vs, 0x1p-16), "vertical stems", "%v: %s", t.vs, info())
		w.Check(math.Abs(gl.Width-t.width) <= 0x1p-16, "width", "%v instead of %v: %s", t.width, gl.Width, info())
		if back != nil && i < len(back.Glyphs) {
			b := back.Glyphs[i]
			u := t2FromGlyph(b)
			if d := cmdDiff(gl, u, 0x1p-16); d != "" {
				w.Fail("path (cff.Read)", "%s: %s", d, info())
			}
			w.Check(eqFloats(gl.HStem, u.hs, 0x1p-16) && eqFloats(gl.VStem, u.vs, 0x1p-16), "stems (cff.Read)", "%v %v: %s", u.hs, u.vs, info())
			w.Check(math.Abs(gl.Width-u.width) <= 0x1p-16, "width (cff.Read)", "%v instead of %v", u.width, gl.Width)
		}
	}
}

func c04(w *W) {
	w.Each("fonts", w.Scale(5000, 120000), func(i int, r *rand.Rand) { c04Font(w, r, 1+r.Intn(12)) })
	// all zero patterns for two successive curves, and for a line and a curve
	w.Each("patterns", w.Scale(256, 2048), func(i int, r *rand.Rand) {
		f := &cff.Font{FontInfo: c13Info(rand.New(rand.NewSource(1))), Outlines: &cff.Outlines{}}
		g := &t2Gen{r: r}
		for k := 0; k < 64; k++ {
			gl := cff.NewGlyph(fmt.Sprintf("p%d", k), 500)
			if k == 0 {
				gl.Name = ".notdef"
			}
			g.x, g.y, g.mag, g.frac = 0, 0, 300, r.Intn(2)
			gl.MoveTo(g.next(r.Intn(2) == 0, r.Intn(2) == 0))
			p, q := i%64, k
			g.curve(gl, p)
			g.curve(gl, q)
			switch i / 64 % 4 {
			case 1:
				g.curve(gl, r.Intn(64))
			case 2:
				g.line(gl, r.Intn(4))
			case 3:
				g.line(gl, r.Intn(4))
				g.curve(gl, r.Intn(64))
			}
			f.Glyphs = append(f.Glyphs, gl)
		}
		f.Private = []*type1.PrivateDict{{BlueScale: 0.039625, BlueShift: 7, BlueFuzz: 1}}
		f.FDSelect = func(glyph.ID) int { return 0 }
		w.Eval(fmt.Sprintf("patterns %d %s", i, f.Glyphs[17]))
		var buf bytes.Buffer
		err := f.Write(&buf)
		if err != nil {
			w.Fail("Write fails", "%v", err)
			return
		}
		c, err := readCFFRef(buf.Bytes())
		if err != nil {
			w.Fail("structure of the emitted font", "%v", err)
			return
		}
		for k, gl := range f.Glyphs {
			t := c.glyph(k)
			if !w.Check(t.bad == "" && t.odd == "", "illegal charstring", "%s%s: % x\n%s", t.bad, t.odd, c.cs[k], gl) {
				continue
			}
			if d := cmdDiff(gl, t, 0x1p-16); d != "" {
				w.Fail("path", "%s: % x\n%s", d, c.cs[k], gl)
			}
		}
	})
}
