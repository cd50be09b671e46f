package main

import (
	"fmt"
	"math/rand"

	"seehuhn.de/go/sfnt/glyph"
	"seehuhn.de/go/sfnt/opentype/gdef"
	"seehuhn.de/go/sfnt/opentype/gtab"
)

func init() { register("C06", c06) }

func c06(w *W) {
	one := func(g *gtabGen, ll gtab.LookupList, gd *gdef.Table, lookups []gtab.LookupIndex, in []glyph.Info) {
		ref := &refShaper{ll: ll, gd: gd}
		want := ref.run(lookups, copySeq(in))
		if ref.undef {
			w.Count("undetermined by the rules", 1)
			return
		}
		desc := fmt.Sprintf("%sGDEF %s\nlookups %v\ninput %s", fmtLookups(ll), fmtGdef(gd), lookups, fmtSeq(in))
		w.Eval(desc)
		got := gtab.NewContext(ll, gd, lookups).Apply(copySeq(in))
		if !sameSeq(got, want) {
			tp := "GSUB"
			if g.gpos {
				tp = "GPOS"
			}
			key := "lookup semantics " + tp
			if len(lookups) == 1 {
				key += fmt.Sprintf(" %T", ll[lookups[0]].Subtables[0])
			}
			w.Fail(key, "got %s, reference %s", fmtSeq(got), fmtSeq(want))
		} else if !sameSeq(in, want) {
			w.Count("sequence changed", 1)
		}
	}
	single := func(gpos bool) func(i int, r *rand.Rand) {
		return func(i int, r *rand.Rand) {
			g := &gtabGen{r: r, n: 4 + r.Intn(9), nl: 1 + r.Intn(4), gpos: gpos}
			kinds := gsubKinds
			if gpos {
				kinds = gposKinds
			}
			ll := g.list()
			ll[0] = g.lookup(kinds[i%len(kinds)])
			if i%3 == 0 {
				ll[0].Meta.LookupFlags = 0
			}
			gd := g.gdef()
			for k := 0; k < 12; k++ {
				one(g, ll, gd, []gtab.LookupIndex{0}, g.seq(10))
			}
		}
	}
	w.Each("gsub-single", w.Scale(24000, 400000), single(false))
	w.Each("gpos-single", w.Scale(16000, 300000), single(true))
	multi := func(gpos bool) func(i int, r *rand.Rand) {
		return func(i int, r *rand.Rand) {
			g := &gtabGen{r: r, n: 4 + r.Intn(9), nl: 2 + r.Intn(5), gpos: gpos}
			ll := g.list()
			gd := g.gdef()
			var lookups []gtab.LookupIndex
			for j := range ll {
				if r.Intn(3) > 0 {
					lookups = append(lookups, gtab.LookupIndex(j))
				}
			}
			if r.Intn(20) == 0 {
				lookups = append(lookups, gtab.LookupIndex(len(ll)))
			}
			for k := 0; k < 8; k++ {
				one(g, ll, gd, lookups, g.seq(14))
			}
		}
	}
	w.Each("gsub-list", w.Scale(12000, 200000), multi(false))
	w.Each("gpos-list", w.Scale(8000, 150000), multi(true))
}
