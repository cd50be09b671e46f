package main

import (
	"bytes"
	"math/rand"

	"golang.org/x/image/font/gofont/gobold"
	"golang.org/x/image/font/gofont/goitalic"
	"golang.org/x/image/font/gofont/gomono"
	"golang.org/x/image/font/gofont/gomonobolditalic"
	"golang.org/x/image/font/gofont/goregular"
	"golang.org/x/image/font/gofont/gosmallcaps"

	"seehuhn.de/go/sfnt"
)

func init() { register("C01", c01) }

// firstDiff names the first line of a difference which shows a changed field.
func c01RoundTrip(w *W, f *sfnt.Font) {
	var a, b []byte
	var err error
	if !w.NoPanic("Font.Write", func() { a, err = writeFont(f) }) {
		return
	}
	if err != nil {
		w.Fail("write", "%v", err)
		return
	}
	w.Input(a)
	if !w.NoPanic("Font.Write", func() { b, err = writeFont(f) }) {
		return
	}
	w.Check(err == nil && bytes.Equal(a, b), "determinism", "writing the same font twice gives different bytes (%v)", err)
	c01Fixpoint(w, f, a)
}

func c01Fixpoint(w *W, f *sfnt.Font, a []byte) {
	var g, h *sfnt.Font
	var b, c []byte
	var err error
	if !w.NoPanic("Read", func() { g, err = sfnt.Read(bytes.NewReader(a)) }) {
		return
	}
	if f != nil {
		if err != nil {
			w.Fail("read", "%v", err)
			return
		}
		if d := diffFonts(f, g, 1e-8); d != "" {
			w.Fail("round trip", "%s", d)
			return
		}
	}
	if err != nil {
		w.Count("rejected", 1)
		return
	}
	if !w.NoPanic("Font.Write (after Read)", func() { b, err = writeFont(g) }) {
		return
	}
	if err != nil {
		w.Fail("rewrite", "%v", err)
		return
	}
	if !w.NoPanic("Read", func() { h, err = sfnt.Read(bytes.NewReader(b)) }) {
		return
	}
	if err != nil {
		w.Fail("reread", "%v", err)
		return
	}
	if d := diffFonts(g, h, 1e-8); d != "" {
		w.Fail("fixed point", "%s", d)
		return
	}
	if !w.NoPanic("Font.Write (fixed point)", func() { c, err = writeFont(h) }) {
		return
	}
	w.Check(err == nil && bytes.Equal(b, c), "byte fixed point", "(%v) second output differs from the first", err)
}

func c01(w *W) {
	for _, k := range fontKinds {
		w.Each(k, w.Scale(3000, 40000), func(i int, r *rand.Rand) {
			g := newFontGen(r, k)
			c01RoundTrip(w, g.font())
		})
		w.Each("many glyphs "+k, w.Scale(12, 60), func(i int, r *rand.Rand) {
			g := newFontGen(r, k)
			g.n = []int{256, 257, 1000, 2 + r.Intn(4000), 2 + r.Intn(20000), 65535}[i%6]
			if k != "cid" && g.n > 60000 {
				g.n = 64000 // at most 65000 glyph names
			}
			g.layout = g.layout && g.n <= 1000
			c01RoundTrip(w, g.font())
		})
		w.Each("damaged "+k, w.Scale(4000, 60000), func(i int, r *rand.Rand) {
			a, err1 := writeFont(newFontGen(r, k).font())
			b, err2 := writeFont(newFontGen(r, k).font())
			if err1 != nil || err2 != nil {
				return
			}
			m := mutateFont(r, a, b)
			w.Input(m)
			c01Fixpoint(w, nil, m)
		})
	}
	corpus := [][]byte{goregular.TTF, gobold.TTF, goitalic.TTF, gomono.TTF, gomonobolditalic.TTF, gosmallcaps.TTF}
	w.Each("corpus", len(corpus)*w.Scale(10, 200), func(i int, r *rand.Rand) {
		b := corpus[i%len(corpus)]
		if i >= len(corpus) {
			b = mutateFont(r, b, corpus[r.Intn(len(corpus))])
		}
		w.Input(b)
		c01Fixpoint(w, nil, b)
	})
}
