package main

import (
	"bytes"
	"fmt"
	"math"
	"math/rand"

	"seehuhn.de/go/sfnt/cff"
)

func init() { register("C05", c05) }

// t2Prog generates well-formed Type 2 charstrings as sequences of tokens.
type t2Prog struct {
	r       *rand.Rand
	toks    [][]byte
	depth   int
	nh, nv  int
	stored  []int
	arith   bool
	started bool // the first stack clearing operator was emitted
}

func t2Num(r *rand.Rand, v int) []byte {
	f := 0
	if r.Intn(6) == 0 {
		f = 3
	}
	if b := asmInt(v, f); len(b) <= 3 {
		return b
	}
	return []byte{28, byte(v >> 8), byte(v)}
}

func t2Fixed(v int32) []byte {
	return []byte{255, byte(v >> 24), byte(v >> 16), byte(v >> 8), byte(v)}
}

func (p *t2Prog) tok(b ...byte) { p.toks = append(p.toks, b) }

func (p *t2Prog) lit(v int) {
	p.toks = append(p.toks, t2Num(p.r, v))
	p.depth++
}

func (p *t2Prog) small() int {
	r := p.r
	switch r.Intn(8) {
	case 0:
		return []int{107, 108, -107, -108, 1131, -1131, 1132, -1132, 0, 363, 364, -363, -364, 619, 620, 875, 876}[r.Intn(17)]
	case 1:
		return 0
	case 2:
		return r.Intn(4000) - 2000
	}
	return r.Intn(300) - 150
}

// num emits code which leaves one more number on the stack.
func (p *t2Prog) num() {
	r := p.r
	if p.arith && p.depth+5 <= 48 && r.Intn(4) == 0 {
		p.expr(2)
		return
	}
	switch r.Intn(10) {
	case 0:
		p.toks = append(p.toks, t2Fixed(int32(r.Intn(400*65536)-200*65536)))
		p.depth++
	case 1:
		p.toks = append(p.toks, t2Fixed(int32(p.small())<<16|int32(r.Intn(2))<<15))
		p.depth++
	default:
		p.lit(p.small())
	}
}

func (p *t2Prog) bin(op byte) {
	p.tok(12, op)
	p.depth--
}

func (p *t2Prog) expr(level int) {
	r := p.r
	sub := func() {
		if level > 0 && p.depth+6 <= 48 && r.Intn(3) == 0 {
			p.expr(level - 1)
		} else {
			p.lit(p.small())
		}
	}
	switch r.Intn(18) {
	case 0:
		sub()
		sub()
		p.bin(10) // add
	case 1:
		sub()
		sub()
		p.bin(11) // sub
	case 2:
		sub()
		p.lit(r.Intn(9) - 4)
		p.bin(24) // mul
	case 3:
		sub()
		d := r.Intn(20) - 10
		if d == 0 {
			d = 3
		}
		p.lit(d)
		p.bin(12) // div
	case 4:
		sub()
		p.tok(12, 14) // neg
	case 5:
		sub()
		p.tok(12, 9) // abs
	case 6:
		k := r.Intn(20)
		p.lit(k * k)
		p.tok(12, 26) // sqrt
	case 7:
		sub()
		sub()
		p.tok(12, 28) // exch
		p.bin(11)
	case 8:
		sub()
		sub()
		p.tok(12, 18) // drop
		p.depth--
	case 9:
		sub()
		p.tok(12, 27) // dup
		p.depth++
		p.bin(10)
	case 10:
		i := r.Intn(32)
		sub()
		p.lit(i)
		p.tok(12, 20) // put
		p.depth -= 2
		p.stored = append(p.stored, i)
		p.lit(p.stored[r.Intn(len(p.stored))])
		p.tok(12, 21) // get
	case 11, 12:
		sub()
		sub()
		p.lit(r.Intn(5))
		p.lit(r.Intn(5))
		p.tok(12, 22) // ifelse
		p.depth -= 3
	case 13:
		p.lit(r.Intn(2))
		p.lit(r.Intn(3) - 1)
		p.bin([]byte{3, 4, 15}[r.Intn(3)]) // and or eq
		p.lit(17)
		p.bin(24)
	case 14:
		p.lit(r.Intn(2))
		p.tok(12, 5) // not
	case 15:
		if p.depth == 0 {
			sub()
			return
		}
		// copy of an operand
		p.lit(r.Intn(p.depth+1) - 1)
		p.tok(12, 29) // index
	case 16:
		k := 2 + r.Intn(3)
		for j := 0; j < k; j++ {
			p.lit(p.small())
		}
		p.lit(k)
		p.lit(r.Intn(9) - 4)
		p.tok(12, 30) // roll
		p.depth -= 2
		for j := 1; j < k; j++ {
			p.bin([]byte{10, 11}[r.Intn(2)])
		}
	default:
		sub()
		if r.Intn(2) == 0 && p.depth >= 2 && p.depth+3 <= 48 {
			n := 1 + r.Intn(p.depth)
			p.lit(n)
			p.lit(r.Intn(7) - 3)
			p.tok(12, 30) // roll of the operands
			p.depth -= 2
		}
	}
}

func (p *t2Prog) nums(n int) {
	for ; n > 0; n-- {
		p.num()
	}
}

// clear emits a stack clearing operator.
func (p *t2Prog) clear(op ...byte) {
	p.toks = append(p.toks, op)
	p.depth = 0
}

// first emits the width in front of the first stack clearing operator.
func (p *t2Prog) first() {
	if !p.started {
		p.started = true
		if p.r.Intn(2) == 0 {
			p.num()
		}
	}
}

func (p *t2Prog) max() int { return 48 - p.depth }

func (p *t2Prog) generate() {
	r := p.r
	hints := r.Intn(3)
	big := r.Intn(10) == 0
	nst := func() int {
		m := p.max() / 2
		if big {
			return 1 + r.Intn(m)
		}
		return 1 + r.Intn(min(m, 4))
	}
	implicit := -1
	masks := false
	if hints > 0 {
		masks = r.Intn(2) == 0
		hop, vop := byte(1), byte(3)
		if masks {
			hop, vop = 18, 23
		}
		rep := 1
		if big {
			rep = 1 + r.Intn(3)
		}
		if r.Intn(5) > 0 {
			for ; rep > 0; rep-- {
				p.first()
				k := nst()
				p.nums(2 * k)
				p.nh += k
				p.clear(hop)
			}
		}
		if p.nh == 0 || r.Intn(4) > 0 {
			for rep = 1 + r.Intn(2); rep > 0; rep-- {
				p.first()
				k := nst()
				p.nums(2 * k)
				p.nv += k
				if rep == 1 && masks && p.nh > 0 && r.Intn(2) == 0 {
					implicit = k
				} else {
					p.clear(vop)
				}
			}
		}
	}
	mask := func() {
		p.first()
		op := []byte{19, 20}[r.Intn(2)]
		k := (p.nh + p.nv + 7) / 8
		if k == 0 {
			return
		}
		m := make([]byte, k)
		r.Read(m)
		p.clear(append([]byte{op}, m...)...)
	}
	if masks && (implicit >= 0 || r.Intn(2) == 0) {
		mask()
	}
	if masks && r.Intn(4) == 0 {
		mask()
	}
	if hints == 0 && r.Intn(12) == 0 {
		p.first()
		p.clear(14)
		return
	}
	for k := 1 + r.Intn(4); k > 0; k-- {
		p.first()
		switch r.Intn(3) {
		case 0:
			p.nums(2)
			p.clear(21)
		case 1:
			p.num()
			p.clear(22)
		default:
			p.num()
			p.clear(4)
		}
		for j := r.Intn(7); j > 0; j-- {
			p.path()
			if masks && r.Intn(8) == 0 {
				mask()
			}
		}
	}
	p.clear(14)
}

func (p *t2Prog) path() {
	r := p.r
	n := func(most int) int { // number of groups
		if r.Intn(8) == 0 {
			return most
		}
		return 1 + r.Intn(min(most, 4))
	}
	switch r.Intn(14) {
	case 0:
		p.nums(2 * n(24))
		p.clear(5)
	case 1:
		p.nums(n(48))
		p.clear(6)
	case 2:
		p.nums(n(48))
		p.clear(7)
	case 3:
		p.nums(6 * n(8))
		p.clear(8)
	case 4:
		p.nums(6*n(7) + 2)
		p.clear(24)
	case 5:
		p.nums(2*n(21) + 6)
		p.clear(25)
	case 6:
		p.nums(4*n(11) + r.Intn(2))
		p.clear(26)
	case 7:
		p.nums(4*n(11) + r.Intn(2))
		p.clear(27)
	case 8:
		p.nums(4*n(11) + r.Intn(2))
		p.clear(30)
	case 9:
		p.nums(4*n(11) + r.Intn(2))
		p.clear(31)
	case 10:
		p.nums(13)
		p.clear(12, 35)
	case 11:
		p.nums(7)
		p.clear(12, 34)
	case 12:
		p.nums(9)
		p.clear(12, 36)
	default:
		// flex1 with all signs and relations of the totals
		if r.Intn(2) == 0 {
			p.nums(11)
		} else {
			d := []int{0, 0}
			v := make([]int, 10)
			for i := range v {
				v[i] = r.Intn(40) - 20
				d[i%2] += v[i]
			}
			switch r.Intn(4) {
			case 0: // |dx| = |dy|
				v[8] += d[1] - d[0]
			case 1:
				v[8] += -d[1] - d[0] - 1
			case 2:
				v[8] += -d[1] - d[0] + 1
			}
			for _, x := range v {
				p.lit(x)
			}
			p.num()
		}
		p.clear(12, 37)
	}
}

// t2Font holds the subroutines shared by the glyphs of one font.
type t2Font struct {
	g [][]byte
	l [][][]byte // per FD
}

var c05Sizes = []int{0, 1, 2, 3, 10, 214, 215, 216, 1238, 1239, 1240, 1241, 2263, 5000, 33898, 33899, 33900, 33901, 40000}

// newT2Font picks the sizes of the subroutine tables.
func newT2Font(r *rand.Rand, nfd int) *t2Font {
	f := &t2Font{}
	tab := func() [][]byte {
		n := c05Sizes[r.Intn(len(c05Sizes))]
		if r.Intn(3) > 0 {
			n = c05Sizes[r.Intn(11)]
		}
		t := make([][]byte, n)
		for i := range t {
			t[i] = nil // free
		}
		return t
	}
	f.g = tab()
	for k := 0; k < nfd; k++ {
		f.l = append(f.l, tab())
	}
	return f
}

func (f *t2Font) fill() {
	for _, t := range append([][][]byte{f.g}, f.l...) {
		for i := range t {
			if t[i] == nil {
				t[i] = []byte{11}
			}
		}
	}
}

// slot finds a free subroutine.
func freeSlot(r *rand.Rand, t [][]byte) int {
	n := len(t)
	for k := 0; k < 8 && n > 0; k++ {
		i := r.Intn(n)
		switch r.Intn(6) {
		case 0:
			i = 0
		case 1:
			i = n - 1
		}
		if t[i] == nil {
			return i
		}
	}
	return -1
}

// outline moves sequences of tokens into subroutines.
func (f *t2Font) outline(r *rand.Rand, fd int, toks [][]byte) [][]byte {
	for k := r.Intn(6); k > 0 && len(toks) > 0; k-- {
		tab, op := f.g, byte(29)
		if r.Intn(2) == 0 {
			tab, op = f.l[fd], 10
		}
		s := freeSlot(r, tab)
		if s < 0 {
			continue
		}
		i := r.Intn(len(toks))
		j := i + r.Intn(min(len(toks)-i, 25)+1)
		if r.Intn(5) == 0 {
			j = len(toks)
		}
		var code []byte
		for _, t := range toks[i:j] {
			code = append(code, t...)
		}
		if !(j == len(toks) && r.Intn(2) == 0 && j > i && len(toks[j-1]) == 1 && toks[j-1][0] == 14) {
			code = append(code, 11)
		}
		tab[s] = code
		out := append([][]byte{}, toks[:i]...)
		out = append(out, t2Num(r, s-t2Bias(len(tab))), []byte{op})
		toks = append(out, toks[j:]...)
	}
	return toks
}

func joinToks(toks [][]byte) []byte {
	var res []byte
	for _, t := range toks {
		res = append(res, t...)
	}
	return res
}

func c05Assemble(r *rand.Rand, f *t2Font, isCID bool, cs [][]byte, sel []int, dw, nw []float64) []byte {
	a := &asmCFF{name: "T2", top: map[int][]byte{}, gsubr: f.g, cs: cs}
	n := len(cs)
	for k := range f.l {
		p := map[int][]byte{}
		if dw[k] != 0 {
			p[20] = asmReal(fmt.Sprint(dw[k]))
		}
		if nw[k] != 0 {
			p[21] = asmReal(fmt.Sprint(nw[k]))
		}
		if dw[k] == math.Trunc(dw[k]) && nw[k] == math.Trunc(nw[k]) {
			p[20], p[21] = asmInt(int(dw[k]), 0), asmInt(int(nw[k]), 0)
		}
		a.privs = append(a.privs, p)
		if len(f.l[k]) > 0 {
			a.subrs = append(a.subrs, f.l[k])
		} else {
			a.subrs = append(a.subrs, nil)
		}
	}
	if isCID {
		a.top[1230] = append(append(asmInt(391, 0), asmInt(392, 0)...), asmInt(0, 0)...)
		a.strs = [][]byte{[]byte("Adobe"), []byte("Identity")}
		for range f.l {
			a.fdDicts = append(a.fdDicts, map[int][]byte{})
		}
		a.charset = p16(p16([]byte{2}, 1), max(n-2, 0))
		if n == 1 {
			a.charset = []byte{0}
		}
		a.fdsel = []byte{0}
		for _, x := range sel {
			a.fdsel = append(a.fdsel, byte(x))
		}
	}
	return a.build()
}

func c05Compare(w *W, key string, t *t2Res, g *cff.Glyph, code []byte) {
	u := t2FromGlyph(g)
	const tol = 0x1p-12
	info := func() string { return fmt.Sprintf("charstring % x", code) }
	if len(t.cmds) != len(u.cmds) {
		w.Fail(key+"number of path commands", "%d instead of %d: %s", len(u.cmds), len(t.cmds), info())
		return
	}
	for i := range t.cmds {
		a, b := t.cmds[i], u.cmds[i]
		if a.op != b.op || !eqFloats(a.args, b.args, tol) {
			w.Fail(key+"path", "command %d: %c%v instead of %c%v: %s", i, b.op, b.args, a.op, a.args, info())
			return
		}
	}
	w.Check(eqFloats(t.hs, u.hs, tol), key+"horizontal stems", "%v instead of %v: %s", u.hs, t.hs, info())
	w.Check(eqFloats(t.vs, u.vs, tol), key+"vertical stems", "%v instead of %v: %s", u.vs, t.vs, info())
	w.Check(math.Abs(t.width-u.width) <= tol, key+"width", "%v instead of %v: %s", u.width, t.width, info())
}

func c05Valid(w *W, r *rand.Rand) {
	isCID := r.Intn(2) == 0
	nfd := 1
	if isCID {
		nfd = 1 + r.Intn(3)
	}
	f := newT2Font(r, nfd)
	n := 1 + r.Intn(8)
	if !isCID {
		n = min(n, 228)
	}
	dw, nw := make([]float64, nfd), make([]float64, nfd)
	for k := range dw {
		dw[k], nw[k] = float64(r.Intn(1000)), float64(r.Intn(1000)-200)
		if r.Intn(3) == 0 {
			dw[k] += 0.5
			nw[k] += 0.25
		}
	}
	var cs [][]byte
	var sel []int
	for i := 0; i < n; i++ {
		p := &t2Prog{r: r, arith: r.Intn(2) == 0}
		p.generate()
		fd := r.Intn(nfd)
		sel = append(sel, fd)
		cs = append(cs, joinToks(f.outline(r, fd, p.toks)))
	}
	f.fill()
	// charstrings outside of the specified domain are replaced
	var ts []*t2Res
	for i := range cs {
		t := t2Run(cs[i], f.g, f.l[sel[i]], dw[sel[i]], nw[sel[i]])
		if t.bad != "" || t.odd != "" {
			w.Count("replaced: "+t.bad+t.odd, 1)
			cs[i] = []byte{14}
			t = t2Run(cs[i], f.g, f.l[sel[i]], dw[sel[i]], nw[sel[i]])
		}
		for op, k := range t.ops {
			w.Count(fmt.Sprintf("op %d", op), int64(k))
		}
		ts = append(ts, t)
	}
	data := c05Assemble(r, f, isCID, cs, sel, dw, nw)
	w.Input(data)
	var font *cff.Font
	var err error
	if !w.NoPanic("cff.Read", func() { font, err = cff.Read(bytes.NewReader(data)) }) {
		return
	}
	if err != nil {
		w.Fail("valid charstrings rejected", "%v: % x", err, cs)
		return
	}
	if !w.Check(len(font.Glyphs) == n, "number of glyphs", "%d", len(font.Glyphs)) {
		return
	}
	for i, t := range ts {
		w.Count("glyphs", 1)
		c05Compare(w, "", t, font.Glyphs[i], cs[i])
	}
}

// c05Fault applies a single fault to a well-formed program.
func c05Fault(w *W, r *rand.Rand) {
	f := newT2Font(r, 1)
	if len(f.g) > 5000 {
		f.g = f.g[:3]
	}
	if len(f.l[0]) > 5000 {
		f.l[0] = f.l[0][:1]
	}
	p := &t2Prog{r: r, arith: r.Intn(2) == 0}
	p.generate()
	toks := f.outline(r, 0, p.toks)
	op := func(b []byte) bool { return b[0] < 32 && b[0] != 28 }
	var pos []int
	kind := r.Intn(8)
	switch kind {
	case 0: // drop a token
		i := r.Intn(len(toks))
		toks = append(append([][]byte{}, toks[:i]...), toks[i+1:]...)
	case 1: // drop an operand
		for i, t := range toks {
			if !op(t) {
				pos = append(pos, i)
			}
		}
		if len(pos) > 0 {
			i := pos[r.Intn(len(pos))]
			toks = append(append([][]byte{}, toks[:i]...), toks[i+1:]...)
		}
	case 2: // too many operands
		i := r.Intn(len(toks))
		var ins [][]byte
		for k := 1 + r.Intn(50); k > 0; k-- {
			ins = append(ins, t2Num(r, r.Intn(100)))
		}
		toks = append(append(append([][]byte{}, toks[:i]...), ins...), toks[i:]...)
	case 3: // end too early
		toks = toks[:r.Intn(len(toks))]
	case 4: // another operator
		for i, t := range toks {
			if op(t) {
				pos = append(pos, i)
			}
		}
		toks = append([][]byte{}, toks...)
		all := []int{1, 3, 4, 5, 6, 7, 8, 10, 11, 14, 18, 21, 22, 23, 24, 25, 26, 27, 29, 30, 31, 1203, 1204, 1205, 1209, 1210, 1211, 1212, 1214, 1215, 1218, 1220, 1221, 1222, 1224, 1226, 1227, 1228, 1229, 1230, 1234, 1235, 1236, 1237}
		toks[pos[r.Intn(len(pos))]] = asmOp(all[r.Intn(len(all))])
	case 5: // bad subroutine index
		i := r.Intn(len(toks))
		tab, o := f.g, byte(29)
		if r.Intn(2) == 0 {
			tab, o = f.l[0], 10
		}
		b := t2Bias(len(tab))
		v := []int{-b - 1, len(tab) - b, -32768, 32767, len(tab) - b + 1, -b - 100}[r.Intn(6)]
		v = max(-32768, min(32767, v))
		toks = append(append(append([][]byte{}, toks[:i]...), t2Num(r, v), []byte{o}), toks[i:]...)
	case 6: // no first move
		i := 0
		for k, t := range toks {
			if len(t) == 1 && (t[0] == 21 || t[0] == 22 || t[0] == 4) {
				i = k
				break
			}
		}
		if r.Intn(2) == 0 {
			toks = append([][]byte{}, toks[i+1:]...)
		} else {
			toks = append(append([][]byte{}, toks[:i]...), toks[i+1:]...)
		}
		if len(toks) == 0 {
			toks = [][]byte{{14}}
		}
	case 7: // arithmetic underflow
		ops := []int{1203, 1204, 1205, 1209, 1210, 1211, 1212, 1214, 1215, 1218, 1220, 1221, 1222, 1224, 1226, 1227, 1228, 1229, 1230}
		i := 0
		for k, t := range toks {
			if op(t) && r.Intn(3) == 0 {
				i = k + 1
			}
		}
		i = min(i, len(toks)-1)
		o := ops[r.Intn(len(ops))]
		var ins [][]byte
		for k := r.Intn(t2ArithArgs[o]); k > 0; k-- {
			ins = append(ins, t2Num(r, 1+r.Intn(3)))
		}
		ins = append(ins, asmOp(o))
		toks = append(append(append([][]byte{}, toks[:i]...), ins...), toks[i:]...)
	}
	f.fill()
	code := joinToks(toks)
	if r.Intn(12) == 0 && len(code) > 1 {
		code = code[:len(code)-1-r.Intn(len(code)-1)]
	}
	t := t2Run(code, f.g, f.l[0], 500, 600)
	data := c05Assemble(r, f, r.Intn(2) == 0, [][]byte{code}, []int{0}, []float64{500}, []float64{600})
	w.Input(data)
	var font *cff.Font
	var err error
	if !w.NoPanic("cff.Read", func() { font, err = cff.Read(bytes.NewReader(data)) }) {
		return
	}
	switch {
	case t.bad != "":
		w.Count("malformed: "+t.bad, 1)
		w.Check(err != nil, "malformed charstring accepted: "+t.bad, "fault %d: % x", kind, code)
	case t.odd != "":
		w.Count("unspecified", 1)
	default:
		w.Count("still valid", 1)
		if err != nil {
			w.Fail("valid charstring rejected", "%v: % x", err, code)
		} else {
			c05Compare(w, "", t, font.Glyphs[0], code)
		}
	}
}

func c05(w *W) {
	w.Each("valid", w.Scale(20000, 150000), func(i int, r *rand.Rand) { c05Valid(w, r) })
	w.Each("faults", w.Scale(60000, 400000), func(i int, r *rand.Rand) { c05Fault(w, r) })
	w.Each("bias", w.Scale(len(c05Sizes)*2, 400), func(i int, r *rand.Rand) {
		// every table size, all borders of the index range
		n := c05Sizes[i/2%len(c05Sizes)]
		if i >= len(c05Sizes)*2 {
			n = r.Intn(40001)
		}
		f := &t2Font{g: [][]byte{{11}}, l: [][][]byte{make([][]byte, n)}}
		op := byte(10)
		for k := range f.l[0] {
			f.l[0][k] = []byte{28, byte(k >> 8), byte(k), 22, 11}
			if k > 32767 {
				f.l[0][k] = []byte{28, byte((k - 40000) >> 8), byte((k - 40000) & 255), 4, 11}
			}
		}
		if i%2 == 1 {
			f.g, f.l[0] = f.l[0], [][]byte{{11}}
			op = 29
		}
		for _, idx := range []int{0, 1, 106, 107, 108, 1130, 1131, 1132, n / 2, n - 2, n - 1, n, n + 1, -1} {
			v := idx - t2Bias(n)
			if v < -32768 || v > 32767 {
				continue
			}
			code := append(append(t2Num(r, v), op), 14)
			t := t2Run(code, f.g, f.l[0], 500, 600)
			data := c05Assemble(r, f, false, [][]byte{code}, []int{0}, []float64{500}, []float64{600})
			w.Input(data)
			font, err := cff.Read(bytes.NewReader(data))
			if t.bad != "" {
				w.Check(err != nil, "malformed charstring accepted: "+t.bad, "%d subroutines, index %d", n, idx)
			} else if err != nil {
				w.Fail("valid charstring rejected", "%v: %d subroutines, index %d", err, n, idx)
			} else {
				c05Compare(w, "", t, font.Glyphs[0], code)
			}
		}
	})
}
