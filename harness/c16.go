package main

import (
	"bytes"
	"fmt"
	"math/rand"
	"os"
	"os/exec"
	"runtime"
	"sort"
	"strings"
	"sync"

	"golang.org/x/image/font/gofont/goitalic"
	"golang.org/x/image/font/gofont/gomono"
	"golang.org/x/image/font/gofont/goregular"
	"golang.org/x/text/language"

	"seehuhn.de/go/sfnt"
	"seehuhn.de/go/sfnt/cff"
	"seehuhn.de/go/sfnt/glyf"
	"seehuhn.de/go/sfnt/glyph"
	"seehuhn.de/go/sfnt/opentype/gtab"
	"seehuhn.de/go/sfnt/opentype/gtab/builder"
)

func init() { register("C16", c16) }

// Property C16.  This program is built with the race detector.  Frame
// condition: no read-only operation changes anything reachable from the font
// (or from package variables), so that every call returns what it returns
// alone.  For every case, goroutines work on one font value; their results
// are compared with those of the same calls made one after the other on a
// second, equal font value.  Between the start and the end of the goroutines
// the harness does not synchronise, so that the race detector reports every
// conflicting pair of accesses which is not ordered by the library itself.

type c16Op struct {
	name string
	run  func(f *sfnt.Font) []any
}

func c16Bytes(f func(b *bytes.Buffer) error) []any {
	var b bytes.Buffer
	err := f(&b)
	return []any{b.Bytes(), fmt.Sprint(err)}
}

// c16Ops makes the operations for a font with n glyphs.
func c16Ops(r *rand.Rand, n int, runes []rune) []c16Op {
	var list []glyph.ID
	list = append(list, 0)
	seen := map[glyph.ID]bool{0: true}
	for k := r.Intn(8); k > 0; k-- {
		gid := glyph.ID(r.Intn(n))
		if !seen[gid] {
			seen[gid] = true
			list = append(list, gid)
		}
	}
	text := strings.Join(c15Strings(r, runes, 3), "")
	lang := []language.Tag{language.English, language.German, language.Und, language.Arabic}[r.Intn(4)]
	gid := glyph.ID(r.Intn(n))
	seq := (&gtabGen{r: r, n: max(1, n-1)}).seq(10)
	all := func(info *gtab.Info) []gtab.LookupIndex {
		var res []gtab.LookupIndex
		for i := range info.LookupList {
			res = append(res, gtab.LookupIndex(i))
		}
		return res
	}
	shape := func(f *sfnt.Font, info *gtab.Info) []any {
		if info == nil {
			return nil
		}
		ctx := gtab.NewContext(info.LookupList, f.Gdef, all(info))
		var res []any
		for k := 0; k < 2; k++ {
			res = append(res, fmtSeq(ctx.Apply(copySeq(seq))))
		}
		return res
	}
	return []c16Op{
		{"Write", func(f *sfnt.Font) []any {
			return c16Bytes(func(b *bytes.Buffer) error { _, err := f.Write(b); return err })
		}},
		{"WriteTrueTypePDF", func(f *sfnt.Font) []any {
			if !f.IsGlyf() {
				return nil
			}
			return c16Bytes(func(b *bytes.Buffer) error { _, err := f.WriteTrueTypePDF(b); return err })
		}},
		{"WriteTrueTypePDF (tables)", func(f *sfnt.Font) []any {
			if !f.IsGlyf() {
				return nil
			}
			return c16Bytes(func(b *bytes.Buffer) error {
				_, err := f.WriteTrueTypePDF(b, "test", []byte{1, 2, 3})
				return err
			})
		}},
		{"WriteOpenTypeCFFPDF", func(f *sfnt.Font) []any {
			if !f.IsCFF() {
				return nil
			}
			return c16Bytes(func(b *bytes.Buffer) error { return f.WriteOpenTypeCFFPDF(b) })
		}},
		{"AsCFF().Write", func(f *sfnt.Font) []any {
			if !f.IsCFF() {
				return nil
			}
			return c16Bytes(func(b *bytes.Buffer) error { return f.AsCFF().Write(b) })
		}},
		{"AsCFF() queries", func(f *sfnt.Font) []any {
			if !f.IsCFF() {
				return nil
			}
			c := f.AsCFF()
			res := []any{c.Clone(), c.FontBBoxPDF(), c.Widths(), c.WidthsPDF(), c.WidthsMapPDF(), c.GlyphWidthPDF(gid), c.IsCIDKeyed(), c.BuiltinEncoding(), c.BBox()}
			return append(res, c.GlyphBBoxPDF(c.FontMatrix, gid))
		}},
		{"CFF Subset", func(f *sfnt.Font) []any {
			if !f.IsCFF() {
				return nil
			}
			o := f.AsCFF().Outlines.Subset(list)
			c := *f.AsCFF()
			c.Outlines = o
			return append(c16Bytes(func(b *bytes.Buffer) error { return c.Write(b) }), o.BuiltinEncoding())
		}},
		{"Subset", func(f *sfnt.Font) []any {
			g := f.Subset(list)
			return []any{g}
		}},
		{"Subset and Write", func(f *sfnt.Font) []any {
			g := f.Subset(list)
			return c16Bytes(func(b *bytes.Buffer) error { _, err := g.Write(b); return err })
		}},
		{"Clone", func(f *sfnt.Font) []any { return []any{f.Clone()} }},
		{"bounding boxes", func(f *sfnt.Font) []any {
			return []any{f.FontBBox(), f.FontBBoxPDF(), f.GlyphBBoxes(), f.GlyphBBox(gid)}
		}},
		{"widths", func(f *sfnt.Font) []any {
			return []any{f.Widths(), f.WidthsPDF(), f.WidthsMapPDF(), f.GlyphWidth(gid), f.GlyphWidthPDF(gid), f.IsFixedPitch(), f.NumGlyphs()}
		}},
		{"names", func(f *sfnt.Font) []any {
			return []any{f.MakeGlyphNames(), f.GlyphName(gid), f.BuiltinEncoding(), f.FullName(), f.PostScriptName(), f.Subfamily()}
		}},
		{"GetFontInfo", func(f *sfnt.Font) []any { return []any{f.GetFontInfo()} }},
		{"Layout", func(f *sfnt.Font) []any {
			l, err := f.NewLayouter(lang, nil, nil)
			if err != nil {
				return []any{err.Error()}
			}
			return []any{fmtSeq(l.Layout(text)), fmtSeq(l.Layout(text + text))}
		}},
		{"Layout (features)", func(f *sfnt.Font) []any {
			l, err := f.NewLayouter(lang, map[string]bool{"liga": true, "smcp": true, "clig": true, "ccmp": true}, map[string]bool{"kern": true, "cpsp": true, "mark": true, "mkmk": true})
			if err != nil {
				return []any{err.Error()}
			}
			return []any{fmtSeq(l.Layout(text)), fmtSeq(l.Layout(text + text))}
		}},
		{"GSUB Apply", func(f *sfnt.Font) []any { return shape(f, f.Gsub) }},
		{"GPOS Apply", func(f *sfnt.Font) []any { return shape(f, f.Gpos) }},
		{"ExplainGsub", func(f *sfnt.Font) []any {
			if f.Gsub == nil {
				return nil
			}
			return []any{builder.ExplainGsub(f)}
		}},
		{"ExplainGpos", func(f *sfnt.Font) []any {
			if f.Gpos == nil {
				return nil
			}
			return []any{builder.ExplainGpos(f)}
		}},
		{"cmap", func(f *sfnt.Font) []any {
			best, err := f.CMapTable.GetBest()
			if err != nil {
				return []any{err.Error()}
			}
			var res []any
			for _, c := range text {
				res = append(res, best.Lookup(c))
			}
			lo, hi := best.CodeRange()
			return append(res, lo, hi)
		}},
	}
}

// c16Run runs an operation; a panic is part of the result.
func c16Run(op c16Op, f *sfnt.Font) (res []any) {
	defer func() {
		if e := recover(); e != nil {
			res = []any{fmt.Sprint("panic: ", e)}
		}
	}()
	return op.run(f)
}

func c16Same(a, b []any) string {
	if len(a) != len(b) {
		return fmt.Sprintf("%d results instead of %d", len(b), len(a))
	}
	for i := range a {
		if x, ok := a[i].(*sfnt.Font); ok {
			y, ok := b[i].(*sfnt.Font)
			if !ok {
				return "no font"
			}
			if d := diffFonts(x, y, 0); d != "" {
				return d
			}
			continue
		}
		if x, ok := a[i].(*cff.Font); ok {
			if d := diffVals(*x, *b[i].(*cff.Font), 0); d != "" {
				return d
			}
			continue
		}
		if x, ok := a[i].(string); ok {
			if y, ok := b[i].(string); !ok || x != y {
				return fmt.Sprintf("%.300q instead of %.300q", b[i], x)
			}
			continue
		}
		if d := diffVals(a[i], b[i], 0); d != "" {
			return d
		}
	}
	return ""
}

// c16Case runs the operations on two equal fonts made by mk.
func c16Case(w *W, r *rand.Rand, desc string, runes []rune, mk func() *sfnt.Font) {
	shared, alone := mk(), mk()
	if shared == nil {
		return
	}
	if d := diffFonts(shared, alone, 0); d != "" {
		w.Fail("harness", "fonts differ: %s", d)
		return
	}
	n := shared.NumGlyphs()
	if n == 0 {
		return
	}
	ops := c16Ops(r, n, runes)
	// the sequences of the goroutines
	ng := 2 + r.Intn(4)
	plan := make([][]int, ng)
	var names []string
	for g := range plan {
		for k := 3 + r.Intn(6); k > 0; k-- {
			i := r.Intn(len(ops))
			plan[g] = append(plan[g], i)
		}
		if g == 1 && r.Intn(2) == 0 {
			plan[1][0] = plan[0][0]
		}
		var s []string
		for _, i := range plan[g] {
			s = append(s, ops[i].name)
		}
		names = append(names, strings.Join(s, ", "))
	}
	desc += "\n" + strings.Join(names, "\n")
	w.Eval(desc)
	want := make([][]any, len(ops))
	done := make([]bool, len(ops))

	got := make([][][]any, ng)
	var start, end sync.WaitGroup
	start.Add(1)
	for g := range plan {
		end.Add(1)
		res := make([][]any, len(plan[g]))
		got[g] = res
		go func() {
			defer end.Done()
			start.Wait()
			for k, i := range plan[g] {
				res[k] = c16Run(ops[i], shared)
				if k%3 == g%3 {
					runtime.Gosched()
				}
			}
		}()
	}
	start.Done()
	end.Wait()
	for g := range plan {
		for k, i := range plan[g] {
			if !done[i] {
				want[i] = c16Run(ops[i], alone)
				done[i] = true
				w.Count(ops[i].name, 1)
				if len(want[i]) == 1 {
					if s, ok := want[i][0].(string); ok && strings.HasPrefix(s, "panic: ") {
						w.Count(ops[i].name+" (panics)", 1)
					}
				}
			}
			w.Count("calls", 1)
			if d := c16Same(want[i], got[g][k]); d != "" {
				w.Fail("result "+ops[i].name, "call %d of goroutine %d (%s): differs from the sequential result: %s", k, g, ops[i].name, d)
				return
			}
		}
	}
	fresh := mk()
	for i, f := range []*sfnt.Font{shared, alone} {
		if d := diffFonts(f, fresh, 0); d != "" {
			w.Fail("font modified", "%s calls changed the font: %s", []string{"concurrent", "sequential"}[i], d)
			return
		}
	}
}

// c16Pairs runs every operation against itself and against every other one.
func c16Pairs(w *W, r *rand.Rand, desc string, runes []rune, k int, mk func() *sfnt.Font) {
	f := mk()
	n := f.NumGlyphs()
	ops := c16Ops(r, n, runes)
	a, b := ops[k/len(ops)%len(ops)], ops[k%len(ops)]
	w.Eval(fmt.Sprintf("%s\n%s | %s", desc, a.name, b.name))
	var start, end sync.WaitGroup
	start.Add(1)
	var got [2][]any
	for i, op := range []c16Op{a, b} {
		end.Add(1)
		go func() {
			defer end.Done()
			start.Wait()
			got[i] = c16Run(op, f)
		}()
	}
	start.Done()
	end.Wait()
	for i, op := range []c16Op{a, b} {
		if d := c16Same(c16Run(op, mk()), got[i]); d != "" {
			w.Fail("result "+op.name, "%s | %s: differs from the sequential result: %s", a.name, b.name, d)
		}
	}
	if d := diffFonts(f, mk(), 0); d != "" {
		w.Fail("font modified", "%s | %s: %s", a.name, b.name, d)
	}
}

// c16Cold runs a case in a process of its own, so that the first use of an
// operation in a process is a concurrent one.
func c16Cold(w *W) {
	exe, err := os.Executable()
	if err != nil {
		w.Fail("harness", "%v", err)
		return
	}
	cmd := exec.Command(exe, "-prop", "C16", "-case", w.curCase, "-seed", fmt.Sprint(w.seed), "-out", os.DevNull)
	cmd.Env = append(os.Environ(), "GORACE=halt_on_error=1 exitcode=66")
	var so, se strings.Builder
	cmd.Stdout, cmd.Stderr = &limitedWriter{sb: &so}, &limitedWriter{sb: &se}
	err = cmd.Run()
	if err == nil {
		return
	}
	if strings.Contains(se.String(), "DATA RACE") {
		w.Fail("race:"+panicSite(se.String()), "data race at the first use in a process")
	} else {
		w.Fail("cold", "first use in a process: %v\n%s", err, so.String())
	}
	w.addDetails(se.String())
}

// c16Spare stores the raw tables of a font next to each other in one buffer,
// and gives other slices spare capacity, as a reader which works without
// copying would do: appending to such a slice writes to shared memory.
func c16Spare(f *sfnt.Font) *sfnt.Font {
	if f == nil {
		return nil
	}
	for key, data := range f.CMapTable {
		f.CMapTable[key] = spare(data)
	}
	switch o := f.Outlines.(type) {
	case *glyf.Outlines:
		var keys []string
		total := 0
		for key, data := range o.Tables {
			keys = append(keys, key)
			total += len(data)
		}
		sort.Strings(keys)
		buf := make([]byte, 0, total+8)
		for _, key := range keys {
			if o.Tables[key] == nil {
				continue
			}
			pos := len(buf)
			buf = append(buf, o.Tables[key]...)
			o.Tables[key] = buf[pos:]
		}
		o.Glyphs = spare(o.Glyphs)
		o.Widths = spare(o.Widths)
		o.Names = spare(o.Names)
		for _, g := range o.Glyphs {
			if g == nil {
				continue
			}
			switch d := g.Data.(type) {
			case glyf.SimpleGlyph:
				d.Encoded = spare(d.Encoded)
				g.Data = d
			case glyf.CompositeGlyph:
				d.Components = spare(d.Components)
				d.Instructions = spare(d.Instructions)
				g.Data = d
			}
		}
	case *cff.Outlines:
		o.Glyphs = spare(o.Glyphs)
		o.Private = spare(o.Private)
		o.Encoding = spare(o.Encoding)
		o.GIDToCID = spare(o.GIDToCID)
		o.FontMatrices = spare(o.FontMatrices)
		for _, g := range o.Glyphs {
			if g != nil {
				g.Cmds = spare(g.Cmds)
				g.HStem = spare(g.HStem)
				g.VStem = spare(g.VStem)
			}
		}
	}
	for _, info := range []*gtab.Info{f.Gsub, f.Gpos} {
		if info != nil {
			info.FeatureList = spare(info.FeatureList)
			info.LookupList = spare(info.LookupList)
			for _, l := range info.LookupList {
				l.Subtables = spare(l.Subtables)
			}
		}
	}
	return f
}

func spare[T any](x []T) []T {
	if x == nil {
		return nil
	}
	y := make([]T, len(x), len(x)+8)
	copy(y, x)
	return y
}

func c16(w *W) {
	gen := func(r *rand.Rand, kind string, small bool) (string, []rune, func() *sfnt.Font) {
		seed := r.Int63()
		reread := r.Intn(3) == 0
		if kind == "corpus" {
			data := [][]byte{goregular.TTF, goitalic.TTF, gomono.TTF}[r.Intn(3)]
			return "corpus", textRunes, func() *sfnt.Font {
				f, err := sfnt.Read(bytes.NewReader(data))
				if err != nil {
					return nil
				}
				return c16Spare(f)
			}
		}
		mk := func() (*fontGen, *sfnt.Font) {
			g := newFontGen(rand.New(rand.NewSource(seed)), kind)
			if seed%4 == 1 {
				// tables which Subset supports
				f, _, g := c10Font(g.r, kind, 2+int(seed/4%30))
				return g, f
			}
			g.layout = seed%4 > 0
			if small || g.n > 40 {
				g.n = 2 + int(seed%12)
			}
			return g, g.font()
		}
		g, _ := mk()
		return fmt.Sprintf("%s font, seed %d, read back %v", kind, seed, reread), g.runes, func() *sfnt.Font {
			_, f := mk()
			if reread {
				b, err := writeFont(f)
				if err != nil {
					return nil
				}
				f, err = sfnt.Read(bytes.NewReader(b))
				if err != nil {
					return nil
				}
			}
			return c16Spare(f)
		}
	}
	for _, kind := range append([]string{"corpus"}, fontKinds...) {
		// The first use of every operation, as part of one of several pairs.
		const nops = 21
		w.Each("cold "+kind, w.Scale(nops, 441), func(i int, r *rand.Rand) {
			w.Eval(fmt.Sprintf("cold %s %d", kind, i))
			if w.only == "" {
				c16Cold(w)
				return
			}
			desc, runes, mk := gen(r, kind, true)
			c16Pairs(w, r, desc, runes, i%nops*(nops+1)+i/nops, mk)
		})
		nq, nt := 250, 6000
		if kind == "corpus" {
			nq, nt = 8, 200
		}
		w.Each("pairs "+kind, w.Scale(441*nq/250, 441*nt/250), func(i int, r *rand.Rand) {
			desc, runes, mk := gen(r, kind, true)
			if mk() == nil {
				return
			}
			c16Pairs(w, r, desc, runes, i, mk)
		})
		w.Each("histories "+kind, w.Scale(nq, nt), func(i int, r *rand.Rand) {
			desc, runes, mk := gen(r, kind, false)
			c16Case(w, r, desc, runes, mk)
		})
	}
}
