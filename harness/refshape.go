package main

import (
	"seehuhn.de/go/postscript/funit"
	"seehuhn.de/go/sfnt/glyph"
	"seehuhn.de/go/sfnt/opentype/anchor"
	"seehuhn.de/go/sfnt/opentype/gdef"
	"seehuhn.de/go/sfnt/opentype/gtab"
)

// Reference implementation of lookup application.  Glyphs are objects;
// positions are identities, so that insertions and deletions need no index
// arithmetic.

type rGlyph struct{ glyph.Info }

type rFrame struct {
	inputs []*rGlyph
	end    *rGlyph // first glyph after the window, nil for the end of the sequence
}

type refShaper struct {
	ll      gtab.LookupList
	gd      *gdef.Table
	seq     []*rGlyph
	frames  []*rFrame
	budget  int
	undef   bool // result not determined by the rules
	keepFor *gtab.LookupMetaInfo
}

func (s *refShaper) keep(g *rGlyph, m *gtab.LookupMetaInfo) bool {
	if s.gd == nil {
		return true
	}
	f := m.LookupFlags
	switch s.gd.GlyphClass[g.GID] {
	case 1:
		return f&2 == 0
	case 2:
		return f&4 == 0
	case 3:
		if f&8 != 0 {
			return false
		}
		if f&0x10 != 0 {
			k := int(m.MarkFilteringSet)
			return k < len(s.gd.MarkGlyphSets) && s.gd.MarkGlyphSets[k][g.GID]
		}
		if f>>8 != 0 {
			return s.gd.MarkAttachClass[g.GID] == uint16(f>>8)
		}
	}
	return true
}

func (s *refShaper) index(g *rGlyph) int {
	if g == nil {
		return len(s.seq)
	}
	for i, x := range s.seq {
		if x == g {
			return i
		}
	}
	panic("reference shaper lost a glyph")
}

// kept returns the indices in [from,to) of glyphs which are not ignored.
func (s *refShaper) kept(m *gtab.LookupMetaInfo, from, to int) []int {
	var res []int
	for i := from; i < to; i++ {
		if s.keep(s.seq[i], m) {
			res = append(res, i)
		}
	}
	return res
}

func (s *refShaper) keptBack(m *gtab.LookupMetaInfo, before int) []int {
	var res []int
	for i := before - 1; i >= 0; i-- {
		if s.keep(s.seq[i], m) {
			res = append(res, i)
		}
	}
	return res
}

func (s *refShaper) run(lookups []gtab.LookupIndex, in []glyph.Info) []glyph.Info {
	s.seq = nil
	for _, g := range in {
		s.seq = append(s.seq, &rGlyph{g})
	}
	for _, li := range lookups {
		if int(li) >= len(s.ll) {
			continue
		}
		l := s.ll[li]
		reverse := false
		if len(l.Subtables) > 0 {
			_, reverse = l.Subtables[0].(*gtab.Gsub8_1)
		}
		if reverse {
			for i := len(s.seq) - 1; i >= 0; i-- {
				s.budget = 63
				s.top(l, i)
				if s.undef {
					return nil
				}
			}
			continue
		}
		i := 0
		for i < len(s.seq) {
			s.budget = 63
			i = s.top(l, i)
			if s.undef || len(s.seq) > 4096 {
				s.undef = true
				return nil
			}
		}
	}
	var out []glyph.Info
	for _, g := range s.seq {
		out = append(out, g.Info)
	}
	return out
}

func (s *refShaper) top(l *gtab.LookupTable, i int) int {
	if !s.keep(s.seq[i], l.Meta) {
		return i + 1
	}
	ok, next := s.apply(l, i, nil)
	if !ok {
		return i + 1
	}
	return s.index(next)
}

// apply tries the subtables at position i and returns the glyph where matching
// continues.
func (s *refShaper) apply(l *gtab.LookupTable, i int, end *rGlyph) (bool, *rGlyph) {
	for _, st := range l.Subtables {
		if ok, next := s.applySubtable(l, st, i, end); ok || s.undef {
			return ok, next
		}
	}
	return false, nil
}

func (s *refShaper) at(i int) *rGlyph {
	if i >= len(s.seq) {
		return nil
	}
	return s.seq[i]
}

// context runs the actions of a matched rule.
func (s *refShaper) context(m *gtab.LookupMetaInfo, pos []int, bIdx int, acts []gtab.SeqLookup) *rGlyph {
	e := pos[len(pos)-1] + 1
	for e < bIdx && !s.keep(s.seq[e], m) {
		e++
	}
	f := &rFrame{end: s.at(e)}
	for _, p := range pos {
		f.inputs = append(f.inputs, s.seq[p])
	}
	s.frames = append(s.frames, f)
	for _, a := range acts {
		s.budget--
		if s.budget < 0 {
			s.undef = true
			return nil
		}
		if int(a.SequenceIndex) >= len(f.inputs) || int(a.LookupListIndex) >= len(s.ll) {
			continue
		}
		g := f.inputs[a.SequenceIndex]
		l := s.ll[a.LookupListIndex]
		if !s.keep(g, l.Meta) {
			continue
		}
		s.apply(l, s.index(g), f.end)
		if s.undef {
			return nil
		}
	}
	s.frames = s.frames[:len(s.frames)-1]
	return f.end
}

func (s *refShaper) match(idx []int, n int, f func(k int, g glyph.ID) bool) ([]int, bool) {
	if len(idx) < n {
		return nil, false
	}
	for k := 0; k < n; k++ {
		if !f(k, s.seq[idx[k]].GID) {
			return nil, false
		}
	}
	return idx[:n], true
}

func adjust(g *rGlyph, v *gtab.GposValueRecord) {
	if v != nil {
		g.XOffset += v.XPlacement
		g.YOffset += v.YPlacement
		g.Advance += v.XAdvance
	}
}

func (s *refShaper) applySubtable(l *gtab.LookupTable, st gtab.Subtable, i int, end *rGlyph) (bool, *rGlyph) {
	m := l.Meta
	g := s.seq[i]
	b := s.index(end)
	in := append([]int{i}, s.kept(m, i+1, b)...) // candidate input positions
	after := func() *rGlyph { return s.at(i + 1) }
	switch st := st.(type) {
	case *gtab.Gsub1_1:
		if !st.Cov[g.GID] {
			return false, nil
		}
		g.GID += st.Delta
		return true, after()
	case *gtab.Gsub1_2:
		k, ok := st.Cov[g.GID]
		if !ok {
			return false, nil
		}
		g.GID = st.SubstituteGlyphIDs[k]
		return true, after()
	case *gtab.Gsub2_1:
		k, ok := st.Cov[g.GID]
		if !ok || len(st.Repl[k]) == 0 {
			return false, nil
		}
		next := after()
		g.GID = st.Repl[k][0]
		var add []*rGlyph
		for _, x := range st.Repl[k][1:] {
			add = append(add, &rGlyph{glyph.Info{GID: x}})
		}
		s.seq = insertAfter(s.seq, g, add)
		for _, f := range s.frames {
			f.inputs = insertAfter(f.inputs, g, add)
		}
		return true, next
	case *gtab.Gsub3_1:
		k, ok := st.Cov[g.GID]
		if !ok || len(st.Alternates[k]) == 0 {
			return false, nil
		}
		g.GID = st.Alternates[k][0]
		return true, after()
	case *gtab.Gsub4_1:
		k, ok := st.Cov[g.GID]
		if !ok {
			return false, nil
		}
		for _, lig := range st.Repl[k] {
			pos, ok := s.match(in[1:], len(lig.In), func(k int, x glyph.ID) bool { return x == lig.In[k] })
			if !ok {
				continue
			}
			s.ligature(append([]int{i}, pos...), lig.Out)
			last := i
			if len(pos) > 0 {
				last = pos[len(pos)-1]
			}
			return true, s.at(i + 1 + last - i - len(pos))
		}
		return false, nil
	case *gtab.Gsub8_1:
		k, ok := st.Input[g.GID]
		if !ok {
			return false, nil
		}
		if _, ok := s.match(s.keptBack(m, i), len(st.Backtrack), func(k int, x glyph.ID) bool { return st.Backtrack[k].Contains(x) }); !ok {
			return false, nil
		}
		if _, ok := s.match(s.kept(m, i+1, len(s.seq)), len(st.Lookahead), func(k int, x glyph.ID) bool { return st.Lookahead[k].Contains(x) }); !ok {
			return false, nil
		}
		g.GID = st.SubstituteGlyphIDs[k]
		return true, after()

	case *gtab.Gpos1_1:
		if !st.Cov.Contains(g.GID) {
			return false, nil
		}
		adjust(g, st.Adjust)
		return true, after()
	case *gtab.Gpos1_2:
		k, ok := st.Cov[g.GID]
		if !ok {
			return false, nil
		}
		adjust(g, st.Adjust[k])
		return true, after()
	case gtab.Gpos2_1:
		if len(in) < 2 {
			return false, nil
		}
		h := s.seq[in[1]]
		a, ok := st[glyph.Pair{Left: g.GID, Right: h.GID}]
		if !ok {
			return false, nil
		}
		return true, s.pair(g, h, in[1], a)
	case *gtab.Gpos2_2:
		if len(in) < 2 || !st.Cov[g.GID] {
			return false, nil
		}
		h := s.seq[in[1]]
		c1, c2 := int(st.Class1[g.GID]), int(st.Class2[h.GID])
		if c1 >= len(st.Adjust) || c2 >= len(st.Adjust[c1]) {
			return false, nil
		}
		return true, s.pair(g, h, in[1], st.Adjust[c1][c2])
	case *gtab.Gpos3_1:
		k, ok := st.Cov[g.GID]
		if !ok {
			return false, nil
		}
		if m.LookupFlags != 0 {
			s.undef = true // interaction of cursive attachment with ignored glyphs
			return false, nil
		}
		rec := st.Records[k]
		if i > 0 {
			p := s.seq[i-1]
			if kp, ok := st.Cov[p.GID]; ok {
				g.YOffset = p.YOffset + st.Records[kp].Exit.Y - rec.Entry.Y
			}
		}
		if i+1 < b {
			n := s.seq[i+1]
			if kn, ok := st.Cov[n.GID]; ok {
				g.Advance = g.XOffset + rec.Exit.X - n.XOffset - st.Records[kn].Entry.X
			}
		}
		return true, after()
	case *gtab.Gpos4_1:
		k, ok := st.MarkCov[g.GID]
		if !ok {
			return false, nil
		}
		if m.LookupFlags&6 != 0 {
			s.undef = true
			return false, nil
		}
		// the base is the nearest preceding glyph which is not a mark
		for p := i - 1; p >= 0; p-- {
			x := s.seq[p]
			bi, ok := st.BaseCov[x.GID]
			cls := uint16(0)
			if s.gd != nil {
				cls = s.gd.GlyphClass[x.GID]
			}
			if !ok {
				if cls == 1 || cls == 2 {
					return false, nil
				}
				if cls != 3 {
					s.undef = true // glyph of unknown class
					return false, nil
				}
				continue
			}
			if cls == 3 {
				s.undef = true // mark listed as base
				return false, nil
			}
			return s.attach(i, p, st.MarkArray[k].Class, st.MarkArray[k].X, st.MarkArray[k].Y, st.BaseArray[bi], true)
		}
		return false, nil
	case *gtab.Gpos6_1:
		k, ok := st.Mark1Cov[g.GID]
		if !ok {
			return false, nil
		}
		back := s.keptBack(m, i)
		if len(back) == 0 {
			return false, nil
		}
		p := back[0]
		bi, ok := st.Mark2Cov[s.seq[p].GID]
		if !ok {
			return false, nil
		}
		return s.attach(i, p, st.Mark1Array[k].Class, st.Mark1Array[k].X, st.Mark1Array[k].Y, st.Mark2Array[bi], false)

	case *gtab.SeqContext1:
		k, ok := st.Cov[g.GID]
		if !ok {
			return false, nil
		}
		for _, rule := range st.Rules[k] {
			if pos, ok := s.match(in[1:], len(rule.Input), func(k int, x glyph.ID) bool { return rule.Input[k] == x }); ok {
				return true, s.context(m, append([]int{i}, pos...), b, rule.Actions)
			}
		}
		return false, nil
	case *gtab.SeqContext2:
		c := int(st.Input[g.GID])
		if !st.Cov.Contains(g.GID) || c >= len(st.Rules) {
			return false, nil
		}
		for _, rule := range st.Rules[c] {
			if pos, ok := s.match(in[1:], len(rule.Input), func(k int, x glyph.ID) bool { return rule.Input[k] == st.Input[x] }); ok {
				return true, s.context(m, append([]int{i}, pos...), b, rule.Actions)
			}
		}
		return false, nil
	case *gtab.SeqContext3:
		if pos, ok := s.match(in, len(st.Input), func(k int, x glyph.ID) bool { return st.Input[k][x] }); ok {
			return true, s.context(m, pos, b, st.Actions)
		}
		return false, nil
	case *gtab.ChainedSeqContext1:
		k, ok := st.Cov[g.GID]
		if !ok {
			return false, nil
		}
		for _, rule := range st.Rules[k] {
			pos, ok := s.match(in[1:], len(rule.Input), func(k int, x glyph.ID) bool { return rule.Input[k] == x })
			if !ok {
				continue
			}
			pos = append([]int{i}, pos...)
			if s.chained(m, i, pos[len(pos)-1], len(rule.Backtrack), func(k int, x glyph.ID) bool { return rule.Backtrack[k] == x },
				len(rule.Lookahead), func(k int, x glyph.ID) bool { return rule.Lookahead[k] == x }) {
				return true, s.context(m, pos, b, rule.Actions)
			}
		}
		return false, nil
	case *gtab.ChainedSeqContext2:
		c := int(st.Input[g.GID])
		if !st.Cov.Contains(g.GID) || c >= len(st.Rules) {
			return false, nil
		}
		for _, rule := range st.Rules[c] {
			pos, ok := s.match(in[1:], len(rule.Input), func(k int, x glyph.ID) bool { return rule.Input[k] == st.Input[x] })
			if !ok {
				continue
			}
			pos = append([]int{i}, pos...)
			if s.chained(m, i, pos[len(pos)-1], len(rule.Backtrack), func(k int, x glyph.ID) bool { return rule.Backtrack[k] == st.Backtrack[x] },
				len(rule.Lookahead), func(k int, x glyph.ID) bool { return rule.Lookahead[k] == st.Lookahead[x] }) {
				return true, s.context(m, pos, b, rule.Actions)
			}
		}
		return false, nil
	case *gtab.ChainedSeqContext3:
		pos, ok := s.match(in, len(st.Input), func(k int, x glyph.ID) bool { return st.Input[k][x] })
		if !ok {
			return false, nil
		}
		if s.chained(m, i, pos[len(pos)-1], len(st.Backtrack), func(k int, x glyph.ID) bool { return st.Backtrack[k][x] },
			len(st.Lookahead), func(k int, x glyph.ID) bool { return st.Lookahead[k][x] }) {
			return true, s.context(m, pos, b, st.Actions)
		}
		return false, nil
	}
	s.undef = true
	return false, nil
}

func (s *refShaper) chained(m *gtab.LookupMetaInfo, first, last int, nb int, fb func(int, glyph.ID) bool, nl int, fl func(int, glyph.ID) bool) bool {
	if _, ok := s.match(s.keptBack(m, first), nb, fb); !ok {
		return false
	}
	_, ok := s.match(s.kept(m, last+1, len(s.seq)), nl, fl)
	return ok
}

func (s *refShaper) pair(g, h *rGlyph, hi int, a *gtab.PairAdjust) *rGlyph {
	adjust(g, a.First)
	if a.Second == nil {
		return h
	}
	adjust(h, a.Second)
	return s.at(hi + 1)
}

func insertAfter(seq []*rGlyph, g *rGlyph, add []*rGlyph) []*rGlyph {
	var res []*rGlyph
	for _, x := range seq {
		res = append(res, x)
		if x == g {
			res = append(res, add...)
		}
	}
	return res
}

// ligature merges the glyphs at the given positions.
func (s *refShaper) ligature(pos []int, out glyph.ID) {
	comp := map[*rGlyph]bool{}
	lig := &rGlyph{glyph.Info{GID: out}}
	for _, p := range pos {
		comp[s.seq[p]] = true
		lig.Text = append(lig.Text, s.seq[p].Text...)
	}
	first, last := s.seq[pos[0]], s.seq[pos[len(pos)-1]]
	for _, f := range s.frames {
		// The ligature belongs to the input sequence of an enclosing rule if
		// the first or the last component did.
		has := false
		for _, x := range f.inputs {
			if x == first || x == last {
				has = true
			}
		}
		var res []*rGlyph
		done := false
		firstIdx := pos[0]
		for _, x := range f.inputs {
			if has && !done && s.index(x) >= firstIdx {
				res = append(res, lig)
				done = true
			}
			if !comp[x] {
				res = append(res, x)
			}
		}
		if has && !done {
			res = append(res, lig)
		}
		f.inputs = res
	}
	var res []*rGlyph
	for i, x := range s.seq {
		if i == pos[0] {
			res = append(res, lig)
		} else if !comp[x] {
			res = append(res, x)
		}
	}
	s.seq = res
}

func (s *refShaper) attach(i, p int, class uint16, mx, my funit.Int16, row []anchor.Table, add bool) (bool, *rGlyph) {
	if int(class) >= len(row) {
		return false, nil
	}
	a := row[class]
	if a.IsEmpty() {
		return false, nil
	}
	g, base := s.seq[i], s.seq[p]
	dx := a.X - mx
	dy := a.Y - my
	for _, x := range s.seq[p:i] {
		dx -= x.Advance
	}
	if !add {
		g.XOffset, g.YOffset = 0, 0
	}
	g.XOffset += base.XOffset + dx
	g.YOffset += base.YOffset + dy
	return true, s.at(i + 1)
}
