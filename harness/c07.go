package main

import (
	"bytes"
	"fmt"
	"math/rand"
	"sort"

	"seehuhn.de/go/sfnt/glyph"
	"seehuhn.de/go/sfnt/opentype/gdef"
	"seehuhn.de/go/sfnt/opentype/gtab"
)

func init() { register("C07", c07) }

func textOf(s []glyph.Info) string {
	var rr []rune
	for _, g := range s {
		rr = append(rr, g.Text...)
	}
	sort.Slice(rr, func(i, j int) bool { return rr[i] < rr[j] })
	return string(rr)
}

// maxGrowth bounds the number of glyphs one application of a lookup at one
// position can add: 63 nested actions (plus the lookup itself), each adding at
// most the longest replacement sequence minus one.
func maxGrowth(ll gtab.LookupList) int {
	m := 0
	for _, l := range ll {
		for _, s := range l.Subtables {
			if t, ok := s.(*gtab.Gsub2_1); ok {
				for _, r := range t.Repl {
					m = max(m, len(r)-1)
				}
			}
		}
	}
	return 64 * m
}

// shapingUnimplemented reports tables which use the value-record fields whose
// application the library declines.
func shapingUnimplemented(ll gtab.LookupList) bool {
	bad := func(v *gtab.GposValueRecord) bool {
		return v != nil && (v.YAdvance != 0 || v.XPlacementDevOffs != 0 || v.YPlacementDevOffs != 0 || v.XAdvanceDevOffs != 0 || v.YAdvanceDevOffs != 0)
	}
	for _, l := range ll {
		for _, s := range l.Subtables {
			switch t := s.(type) {
			case *gtab.Gpos1_1:
				if bad(t.Adjust) {
					return true
				}
			case *gtab.Gpos1_2:
				for _, a := range t.Adjust {
					if bad(a) {
						return true
					}
				}
			case gtab.Gpos2_1:
				for _, a := range t {
					if bad(a.First) || bad(a.Second) {
						return true
					}
				}
			case *gtab.Gpos2_2:
				for _, r := range t.Adjust {
					for _, a := range r {
						if bad(a.First) || bad(a.Second) {
							return true
						}
					}
				}
			}
		}
	}
	return false
}

func c07(w *W) {
	check := func(ll gtab.LookupList, gd *gdef.Table, lookups []gtab.LookupIndex, seqs [][]glyph.Info) {
		if shapingUnimplemented(ll) {
			return
		}
		shared := gtab.NewContext(ll, gd, lookups)
		grow := maxGrowth(ll)
		for _, in := range seqs {
			desc := fmt.Sprintf("%sGDEF %s\nlookups %v\ninput %s", fmtLookups(ll), fmtGdef(gd), lookups, fmtSeq(in))
			w.Eval(desc)
			var a, b, c []glyph.Info
			if !w.NoPanic("Apply", func() { a = copySeq(gtab.NewContext(ll, gd, lookups).Apply(copySeq(in))) }) {
				return
			}
			if !w.NoPanic("Apply with a used context", func() { b = copySeq(shared.Apply(copySeq(in))) }) {
				return
			}
			c = gtab.NewContext(ll, gd, lookups).Apply(copySeq(in))
			w.Check(textOf(a) == textOf(in), "text not conserved", "input %s, output %s", fmtSeq(in), fmtSeq(a))
			w.Check(sameSeq(a, b), "result depends on earlier calls", "input %s: fresh context %s, used context %s", fmtSeq(in), fmtSeq(a), fmtSeq(b))
			w.Check(sameSeq(a, c), "result differs between runs", "input %s: %s, then %s", fmtSeq(in), fmtSeq(a), fmtSeq(c))
			limit := len(in)
			for range lookups {
				limit += limit * grow
				if limit > 1<<40 {
					break
				}
			}
			w.Check(len(a) <= limit, "output too long", "%d glyphs from %d", len(a), len(in))
		}
	}
	idx := func(ll gtab.LookupList, r *rand.Rand) []gtab.LookupIndex {
		var lookups []gtab.LookupIndex
		for j := range ll {
			if r.Intn(3) > 0 {
				lookups = append(lookups, gtab.LookupIndex(j))
			}
		}
		if len(lookups) > 4 {
			lookups = lookups[:4]
		}
		return lookups
	}
	built := func(gpos bool) func(i int, r *rand.Rand) {
		return func(i int, r *rand.Rand) {
			g := &gtabGen{r: r, n: 3 + r.Intn(8), nl: 1 + r.Intn(4), gpos: gpos}
			ll := g.list()
			if !gpos && r.Intn(6) == 0 { // empty replacement lists, empty lookups
				for _, l := range ll {
					for _, s := range l.Subtables {
						if t, ok := s.(*gtab.Gsub2_1); ok && len(t.Repl) > 0 {
							t.Repl[r.Intn(len(t.Repl))] = nil
						}
					}
				}
				ll[r.Intn(len(ll))].Subtables = nil
			}
			gd := g.gdef()
			var seqs [][]glyph.Info
			for k := 0; k < 6; k++ {
				seqs = append(seqs, g.seq(12))
			}
			seqs = append(seqs, seqs[0])
			check(ll, gd, idx(ll, r), seqs)
		}
	}
	w.Each("gsub", w.Scale(20000, 300000), built(false))
	w.Each("gpos", w.Scale(8000, 100000), built(true))

	// contextual rules only, heavily nested: the action budget runs out
	w.Each("deep", w.Scale(4000, 60000), func(i int, r *rand.Rand) {
		g := &gtabGen{r: r, n: 3, nl: 2 + r.Intn(3)}
		ll := g.list()
		for j := range ll {
			ll[j] = g.lookup([]string{"5.1", "5.2", "5.3", "6.1", "6.2", "6.3", "2.1", "4.1"}[r.Intn(8)])
			ll[j].Meta.LookupFlags = 0
		}
		for _, l := range ll {
			for _, s := range l.Subtables {
				if t, ok := s.(*gtab.SeqContext3); ok {
					for len(t.Actions) < 1+i%70 {
						t.Actions = append(t.Actions, g.actions(len(t.Input))...)
					}
				}
			}
		}
		var seqs [][]glyph.Info
		for k := 0; k < 4; k++ {
			seqs = append(seqs, g.seq(6))
		}
		seqs = append(seqs, seqs[0])
		ii := idx(ll, r)
		if len(ii) > 2 {
			ii = ii[:2]
		}
		check(ll, g.gdef(), ii, seqs)
	})

	// whatever the reader accepts
	w.Each("read", w.Scale(30000, 400000), func(i int, r *rand.Rand) {
		g := &gtabGen{r: r, n: 3 + r.Intn(8), nl: 1 + r.Intn(3), gpos: i%2 == 0}
		tp := gtab.Type(gtab.TypeGsub)
		if g.gpos {
			tp = gtab.TypeGpos
		}
		info := &gtab.Info{ScriptList: gtab.ScriptListInfo{}, FeatureList: gtab.FeatureListInfo{}, LookupList: g.list()}
		data := info.Encode()
		for k := 1 + r.Intn(4); k > 0 && len(data) > 10; k-- {
			p := 10 + r.Intn(len(data)-10)
			switch r.Intn(3) {
			case 0:
				data[p] = byte(r.Intn(16))
			case 1:
				data[p] ^= 1 << r.Intn(8)
			default:
				data[p] = 0
			}
		}
		w.Input(data)
		res, err := gtab.Read(bytes.NewReader(data), tp)
		if err != nil {
			return
		}
		w.Count("accepted by the reader", 1)
		var seqs [][]glyph.Info
		for k := 0; k < 4; k++ {
			seqs = append(seqs, g.seq(10))
		}
		for _, s := range seqs {
			for j := range s {
				if r.Intn(8) == 0 {
					s[j].GID = glyph.ID(r.Intn(65536))
				}
			}
		}
		check(res.LookupList, g.gdef(), idx(res.LookupList, r), seqs)
	})
}
