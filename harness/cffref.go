package main

import (
	"fmt"
	"math"
	"sort"
	"strconv"
)

// A minimal CFF reader and assembler written from Adobe TN5176.

type cffNum struct {
	f     float64
	isInt bool
	form  int // encoding used: 1 one byte, 2, 3 (28), 5 (29), 30 real
}

type cffDictRef map[int][]cffNum

type cffFD struct {
	dict, priv cffDictRef
	subrs      [][]byte
}

type cffRef struct {
	b       []byte
	names   [][]byte
	top     cffDictRef
	strs    [][]byte
	gsubr   [][]byte
	cs      [][]byte
	cid     bool
	charset []int
	enc     [256]int // glyph index
	fdsel   []int
	fd      []cffFD
	// choices made by the writer
	csFormat, encFormat, fdFormat int
	offSizes                      map[int]int
}

type cffErr struct{ s string }

func cffFail(f string, a ...any) { panic(cffErr{fmt.Sprintf(f, a...)}) }

func (c *cffRef) at(pos, n int) []byte {
	if pos < 0 || n < 0 || pos+n > len(c.b) {
		cffFail("%d bytes at %d are outside of the font (%d bytes)", n, pos, len(c.b))
	}
	return c.b[pos : pos+n]
}

func (c *cffRef) index(pos int, what string) ([][]byte, int) {
	h := c.at(pos, 2)
	n := int(h[0])<<8 | int(h[1])
	if n == 0 {
		return nil, pos + 2
	}
	sz := int(c.at(pos+2, 1)[0])
	if sz < 1 || sz > 4 {
		cffFail("%s INDEX: offSize %d", what, sz)
	}
	c.offSizes[sz]++
	off := func(i int) int {
		v := 0
		for _, x := range c.at(pos+3+i*sz, sz) {
			v = v<<8 | int(x)
		}
		return v
	}
	if off(0) != 1 {
		cffFail("%s INDEX: first offset %d", what, off(0))
	}
	base := pos + 3 + (n+1)*sz - 1
	res := make([][]byte, n)
	for i := range res {
		a, b := off(i), off(i+1)
		if b < a {
			cffFail("%s INDEX: offsets decrease", what)
		}
		res[i] = c.at(base+a, b-a)
	}
	return res, base + off(n)
}

func (c *cffRef) dict(b []byte, what string) cffDictRef {
	d := cffDictRef{}
	var st []cffNum
	for i := 0; i < len(b); {
		need := func(n int) []byte {
			if i+n > len(b) {
				cffFail("%s DICT truncated", what)
			}
			return b[i : i+n]
		}
		x := int(b[i])
		switch {
		case x <= 21:
			op := x
			i++
			if x == 12 {
				op = 1200 + int(need(1)[0])
				i++
			}
			if _, ok := d[op]; ok {
				cffFail("%s DICT: operator %d repeated", what, op)
			}
			d[op] = st
			st = nil
		case x == 28:
			p := need(3)
			st = append(st, cffNum{float64(int16(uint16(p[1])<<8 | uint16(p[2]))), true, 3})
			i += 3
		case x == 29:
			p := need(5)
			st = append(st, cffNum{float64(int32(uint32(p[1])<<24 | uint32(p[2])<<16 | uint32(p[3])<<8 | uint32(p[4]))), true, 5})
			i += 5
		case x == 30:
			i++
			s := ""
		loop:
			for {
				y := need(1)[0]
				i++
				for _, nb := range []byte{y >> 4, y & 15} {
					switch {
					case nb < 10:
						s += string('0' + nb)
					case nb == 10:
						s += "."
					case nb == 11:
						s += "E"
					case nb == 12:
						s += "E-"
					case nb == 14:
						s += "-"
					case nb == 15:
						break loop
					default:
						cffFail("%s DICT: reserved nibble", what)
					}
				}
			}
			v, err := strconv.ParseFloat(s, 64)
			if err != nil {
				cffFail("%s DICT: real number %q", what, s)
			}
			st = append(st, cffNum{v, false, 30})
		case x >= 32 && x <= 246:
			st = append(st, cffNum{float64(x - 139), true, 1})
			i++
		case x >= 247 && x <= 250:
			st = append(st, cffNum{float64((x-247)*256 + int(need(2)[1]) + 108), true, 2})
			i += 2
		case x >= 251 && x <= 254:
			st = append(st, cffNum{float64(-(x-251)*256 - int(need(2)[1]) - 108), true, 2})
			i += 2
		default:
			cffFail("%s DICT: reserved byte %d", what, x)
		}
		if len(st) > 48 {
			cffFail("%s DICT: more than 48 operands", what)
		}
	}
	if len(st) != 0 {
		cffFail("%s DICT: operands without operator", what)
	}
	return d
}

func (d cffDictRef) num(op int, def float64) float64 {
	if v, ok := d[op]; ok && len(v) == 1 {
		return v[0].f
	}
	return def
}

func (d cffDictRef) off(op int) int {
	v, ok := d[op]
	if !ok {
		return -1
	}
	if len(v) != 1 || !v[0].isInt {
		cffFail("offset of operator %d is not an integer", op)
	}
	return int(v[0].f)
}

func (d cffDictRef) delta(op int) []float64 {
	var res []float64
	s := 0.0
	for _, x := range d[op] {
		s += x.f
		res = append(res, s)
	}
	return res
}

func (c *cffRef) str(sid int) string {
	if sid < 0 || sid >= 391+len(c.strs) {
		cffFail("SID %d is out of range", sid)
	}
	if sid < 391 {
		return refStdStrings[sid]
	}
	return string(c.strs[sid-391])
}

func (c *cffRef) private(d cffDictRef) cffFD {
	v := d[18]
	if len(v) != 2 || !v[0].isInt || !v[1].isInt {
		cffFail("no Private DICT")
	}
	pos := int(v[1].f)
	p := c.dict(c.at(pos, int(v[0].f)), "Private")
	fd := cffFD{dict: d, priv: p}
	if o := p.off(19); o >= 0 {
		fd.subrs, _ = c.index(pos+o, "Subrs")
	}
	return fd
}

var refExpertCharset = sidRanges(0, 1, 229, 238, 13, 15, 99, 99, 239, 248, 27, 28, 249, 266, 109, 110, 267, 318, 158, 158, 155, 155, 163, 163, 319, 326, 150, 150, 164, 164, 169, 169, 327, 378)
var refExpertSubset = sidRanges(0, 1, 231, 232, 235, 238, 13, 15, 99, 99, 239, 248, 27, 28, 249, 251, 253, 266, 109, 110, 267, 270, 272, 272, 300, 302, 305, 305, 314, 315, 158, 158, 155, 155, 163, 163, 320, 326, 150, 150, 164, 164, 169, 169, 327, 346)
var refISOAdobe = sidRanges(0, 228)

func sidRanges(x ...int) []int {
	var res []int
	for i := 0; i < len(x); i += 2 {
		for k := x[i]; k <= x[i+1]; k++ {
			res = append(res, k)
		}
	}
	return res
}

// code ranges: first code, last code, first SID
func codeRanges(x ...int) map[int]int {
	m := map[int]int{}
	for i := 0; i < len(x); i += 3 {
		for k := x[i]; k <= x[i+1]; k++ {
			m[k] = x[i+2] + k - x[i]
		}
	}
	return m
}

var refStdEnc = codeRanges(32, 126, 1, 161, 175, 96, 177, 180, 111, 182, 189, 115, 191, 191, 123, 193, 200, 124, 202, 203, 132, 205, 208, 134, 225, 225, 138, 227, 227, 139, 232, 235, 140, 241, 241, 144, 245, 245, 145, 248, 251, 146)
var refExpertEnc = codeRanges(32, 32, 1, 33, 34, 229, 36, 43, 231, 44, 46, 13, 47, 47, 99, 48, 57, 239, 58, 59, 27, 60, 63, 249, 65, 69, 253, 73, 73, 258, 76, 79, 259, 82, 84, 263, 86, 86, 266, 87, 88, 109, 89, 91, 267, 93, 126, 270, 161, 163, 304, 166, 170, 307, 172, 172, 312, 175, 175, 313, 178, 179, 314, 182, 184, 316, 188, 188, 158, 189, 189, 155, 190, 190, 163, 191, 197, 319, 200, 200, 326, 201, 201, 150, 202, 202, 164, 203, 203, 169, 204, 255, 327)

// readCFFRef parses a font, checking the structure on the way.
func readCFFRef(b []byte) (c *cffRef, err error) {
	c = &cffRef{b: b, offSizes: map[int]int{}}
	defer func() {
		if r := recover(); r != nil {
			e, ok := r.(cffErr)
			if !ok {
				panic(r)
			}
			err = fmt.Errorf("%s", e.s)
		}
	}()
	h := c.at(0, 4)
	if h[0] != 1 || h[2] < 4 || h[3] < 1 || h[3] > 4 {
		cffFail("header % x", h)
	}
	for x, k := len(b), int(h[3]); k < 4; k++ {
		// absolute offsets have to fit into offSize bytes
		if x >= 1<<(8*k) {
			cffFail("offSize %d is too small for %d bytes", h[3], x)
		}
	}
	var pos int
	var tops [][]byte
	c.names, pos = c.index(int(h[2]), "Name")
	tops, pos = c.index(pos, "Top DICT")
	c.strs, pos = c.index(pos, "String")
	c.gsubr, _ = c.index(pos, "Global Subr")
	if len(c.names) != 1 || len(tops) != 1 {
		cffFail("%d names, %d top DICTs", len(c.names), len(tops))
	}
	c.top = c.dict(tops[0], "Top")
	if o := c.top.off(17); o > 0 {
		c.cs, _ = c.index(o, "CharStrings")
	}
	n := len(c.cs)
	if n == 0 {
		cffFail("no CharStrings")
	}
	_, c.cid = c.top[1230]

	// charset
	o := c.top.off(15)
	switch {
	case o <= 2 && !c.cid:
		tab := [][]int{refISOAdobe, refExpertCharset, refExpertSubset}[max(o, 0)]
		if n > len(tab) {
			cffFail("predefined charset too short")
		}
		c.charset = tab[:n]
		c.csFormat = -1 - max(o, 0)
	default:
		c.csFormat = int(c.at(o, 1)[0])
		o++
		c.charset = []int{0}
		for len(c.charset) < n {
			f := u16(c.at(o, 2), 0)
			o += 2
			left := 0
			switch c.csFormat {
			case 0:
			case 1:
				left = int(c.at(o, 1)[0])
				o++
			case 2:
				left = u16(c.at(o, 2), 0)
				o += 2
			default:
				cffFail("charset format %d", c.csFormat)
			}
			for k := 0; k <= left; k++ {
				c.charset = append(c.charset, f+k)
			}
		}
		if len(c.charset) != n {
			cffFail("charset has %d entries for %d glyphs", len(c.charset), n)
		}
	}
	seen := map[int]bool{}
	for i, s := range c.charset {
		if seen[s] {
			cffFail("charset entry %d repeated (glyph %d)", s, i)
		}
		seen[s] = true
		if s > 65535 {
			cffFail("charset entry %d", s)
		}
	}

	if c.cid {
		if c.charset[0] != 0 {
			cffFail("CID of glyph 0")
		}
		blobs, _ := c.index(c.top.off(1236), "FDArray")
		for _, x := range blobs {
			c.fd = append(c.fd, c.private(c.dict(x, "Font")))
		}
		o := c.top.off(1237)
		c.fdFormat = int(c.at(o, 1)[0])
		switch c.fdFormat {
		case 0:
			for _, x := range c.at(o+1, n) {
				c.fdsel = append(c.fdsel, int(x))
			}
		case 3:
			k := u16(c.at(o+1, 2), 0)
			if k == 0 {
				cffFail("FDSelect without ranges")
			}
			for i := 0; i < k; i++ {
				p := c.at(o+3+3*i, 5)
				first, next := u16(p, 0), u16(p, 3)
				if i == 0 && first != 0 || next <= first {
					cffFail("FDSelect ranges")
				}
				for j := first; j < next; j++ {
					c.fdsel = append(c.fdsel, int(p[2]))
				}
			}
			if len(c.fdsel) != n {
				cffFail("FDSelect covers %d of %d glyphs", len(c.fdsel), n)
			}
		default:
			cffFail("FDSelect format %d", c.fdFormat)
		}
		for _, x := range c.fdsel {
			if x >= len(c.fd) {
				cffFail("FDSelect value %d", x)
			}
		}
		return c, nil
	}

	c.fd = []cffFD{c.private(c.top)}
	c.fdsel = make([]int, n)
	gid := map[int]int{}
	for i, s := range c.charset {
		gid[s] = i
	}
	o = max(c.top.off(16), 0)
	if o <= 1 {
		c.encFormat = -1 - o
		for code, s := range []map[int]int{refStdEnc, refExpertEnc}[o] {
			c.enc[code] = gid[s]
		}
		return c, nil
	}
	f := int(c.at(o, 1)[0])
	c.encFormat = f
	k := int(c.at(o+1, 1)[0])
	o += 2
	used := map[int]bool{}
	set := func(code, g int) {
		if code > 255 || used[code] || g >= n {
			cffFail("encoding: code %d glyph %d", code, g)
		}
		used[code] = true
		c.enc[code] = g
	}
	switch f & 127 {
	case 0:
		for i := 0; i < k; i++ {
			set(int(c.at(o, 1)[0]), i+1)
			o++
		}
	case 1:
		g := 1
		for i := 0; i < k; i++ {
			p := c.at(o, 2)
			for j := 0; j <= int(p[1]); j++ {
				set(int(p[0])+j, g)
				g++
			}
			o += 2
		}
	default:
		cffFail("encoding format %d", f)
	}
	if f >= 128 {
		k := int(c.at(o, 1)[0])
		o++
		for i := 0; i < k; i++ {
			p := c.at(o, 3)
			g, ok := gid[u16(p, 1)]
			if !ok {
				cffFail("supplement names a missing glyph")
			}
			set(int(p[0]), g)
			o += 3
		}
	}
	return c, nil
}

// glyph executes the charstring of a glyph.
func (c *cffRef) glyph(i int) *t2Res {
	fd := c.fd[c.fdsel[i]]
	return t2Run(c.cs[i], c.gsubr, fd.subrs, fd.priv.num(20, 0), fd.priv.num(21, 0))
}

// ---- assembler ----

func asmIndex(items [][]byte, offSize int) []byte {
	n := len(items)
	if n == 0 {
		return []byte{0, 0}
	}
	total := 1
	for _, x := range items {
		total += len(x)
	}
	for offSize < 4 && total >= 1<<(8*offSize) {
		offSize++
	}
	res := []byte{byte(n >> 8), byte(n), byte(offSize)}
	put := func(v int) {
		for k := offSize - 1; k >= 0; k-- {
			res = append(res, byte(v>>(8*k)))
		}
	}
	p := 1
	put(p)
	for _, x := range items {
		p += len(x)
		put(p)
	}
	for _, x := range items {
		res = append(res, x...)
	}
	return res
}

func asmInt(v int, form int) []byte {
	switch {
	case form <= 1 && v >= -107 && v <= 107:
		return []byte{byte(v + 139)}
	case form <= 2 && v >= 108 && v <= 1131:
		return []byte{byte(247 + (v-108)/256), byte((v - 108) % 256)}
	case form <= 2 && v >= -1131 && v <= -108:
		return []byte{byte(251 + (-v-108)/256), byte((-v - 108) % 256)}
	case form <= 3 && v >= -32768 && v <= 32767:
		return []byte{28, byte(v >> 8), byte(v)}
	}
	return []byte{29, byte(v >> 24), byte(v >> 16), byte(v >> 8), byte(v)}
}

// asmReal encodes the characters of a decimal number.
func asmReal(s string) []byte {
	var nb []byte
	for i := 0; i < len(s); i++ {
		switch {
		case s[i] >= '0' && s[i] <= '9':
			nb = append(nb, s[i]-'0')
		case s[i] == '.':
			nb = append(nb, 10)
		case s[i] == '-':
			nb = append(nb, 14)
		case s[i] == 'E' || s[i] == 'e':
			if i+1 < len(s) && s[i+1] == '-' {
				nb = append(nb, 12)
				i++
			} else {
				nb = append(nb, 11)
			}
		}
	}
	nb = append(nb, 15)
	if len(nb)%2 == 1 {
		nb = append(nb, 15)
	}
	res := []byte{30}
	for i := 0; i < len(nb); i += 2 {
		res = append(res, nb[i]<<4|nb[i+1])
	}
	return res
}

func asmOp(op int) []byte {
	if op >= 1200 {
		return []byte{12, byte(op - 1200)}
	}
	return []byte{byte(op)}
}

// asmCFF describes a font to be assembled.  The values of DICT entries are
// the encoded operands.
type asmCFF struct {
	hdrPad   int
	name     string
	strs     [][]byte
	gsubr    [][]byte
	cs       [][]byte
	top      map[int][]byte
	charset  []byte // nil: predefined, see csPre
	csPre    int
	enc      []byte
	encPre   int
	fdsel    []byte
	fdDicts  []map[int][]byte // nil: simple font
	privs    []map[int][]byte
	subrs    [][][]byte // per private dict, nil: no Subrs operator
	offSize  int        // smallest offset size used
	order    []int      // order of the sections
	opsOrder func([]int)
}

func (a *asmCFF) dictBytes(d map[int][]byte, extra map[int][]byte) []byte {
	var ops []int
	for op := range d {
		ops = append(ops, op)
	}
	for op := range extra {
		ops = append(ops, op)
	}
	sort.Ints(ops)
	if a.opsOrder != nil {
		a.opsOrder(ops)
	}
	var res []byte
	emit := func(op int) {
		v, ok := d[op]
		if !ok {
			v = extra[op]
		}
		res = append(append(res, v...), asmOp(op)...)
	}
	// ROS comes first
	for _, op := range ops {
		if op == 1230 {
			emit(op)
		}
	}
	for _, op := range ops {
		if op != 1230 {
			emit(op)
		}
	}
	return res
}

func off32(v int) []byte { return asmInt(v, 5) }

func (a *asmCFF) build() []byte {
	sz := max(a.offSize, 1)
	head := append([]byte{1, 0, byte(4 + a.hdrPad), 4}, make([]byte, a.hdrPad)...)
	head = append(head, asmIndex([][]byte{[]byte(a.name)}, sz)...)
	// All offsets use the five byte form, so that lengths are fixed.
	topExtra := func(cset, enc, cs, privLen, priv, fda, fds int) map[int][]byte {
		m := map[int][]byte{17: off32(cs)}
		if a.charset != nil {
			m[15] = off32(cset)
		} else if a.csPre > 0 {
			m[15] = asmInt(a.csPre, 0)
		}
		if a.fdDicts == nil {
			if a.enc != nil {
				m[16] = off32(enc)
			} else if a.encPre > 0 {
				m[16] = asmInt(a.encPre, 0)
			}
			m[18] = append(off32(privLen), off32(priv)...)
		} else {
			m[1236] = off32(fda)
			m[1237] = off32(fds)
		}
		return m
	}
	topLen := len(asmIndex([][]byte{a.dictBytes(a.top, topExtra(0, 0, 0, 0, 0, 0, 0))}, max(sz, 2)))
	strIdx := asmIndex(a.strs, sz)
	gIdx := asmIndex(a.gsubr, sz)
	pos := len(head) + topLen + len(strIdx) + len(gIdx)

	// sections: 0 charset, 1 encoding, 2 charstrings, 3 fdselect, 4 fdarray, 5+2k private k, 6+2k subrs k
	nsec := 5 + 2*len(a.privs)
	sec := make([][]byte, nsec)
	sec[0], sec[1], sec[3] = a.charset, a.enc, a.fdsel
	sec[2] = asmIndex(a.cs, sz)
	subrs := func(k int) [][]byte {
		if k < len(a.subrs) {
			return a.subrs[k]
		}
		return nil
	}
	hasSubrs := func(k int) bool { return subrs(k) != nil }
	for k, p := range a.privs {
		ex := map[int][]byte{}
		if hasSubrs(k) {
			ex[19] = off32(0)
			sec[6+2*k] = asmIndex(subrs(k), sz)
		}
		sec[5+2*k] = a.dictBytes(p, ex)
	}
	fda := func(at []int) []byte {
		var items [][]byte
		for k, d := range a.fdDicts {
			o := 0
			if at != nil {
				o = at[5+2*k]
			}
			items = append(items, a.dictBytes(d, map[int][]byte{18: append(off32(len(sec[5+2*k])), off32(o)...)}))
		}
		return asmIndex(items, max(sz, 2))
	}
	if a.fdDicts != nil {
		sec[4] = fda(nil)
	}
	order := a.order
	if len(order) != nsec {
		order = nil
		for i := 0; i < nsec; i++ {
			order = append(order, i)
		}
	}
	// local subroutines have to follow their Private DICT: negative offsets
	// are legal, but are avoided here.
	at := make([]int, nsec)
	p := pos
	for _, i := range order {
		at[i] = p
		p += len(sec[i])
	}
	for k := range a.privs {
		if hasSubrs(k) && at[6+2*k] < at[5+2*k] {
			// swap the two sections
			oi, oj := -1, -1
			for q, i := range order {
				if i == 5+2*k {
					oi = q
				}
				if i == 6+2*k {
					oj = q
				}
			}
			order[oi], order[oj] = order[oj], order[oi]
			p = pos
			for _, i := range order {
				at[i] = p
				p += len(sec[i])
			}
		}
	}
	for k, pd := range a.privs {
		if hasSubrs(k) {
			sec[5+2*k] = a.dictBytes(pd, map[int][]byte{19: off32(at[6+2*k] - at[5+2*k])})
		}
	}
	if a.fdDicts != nil {
		sec[4] = fda(at)
	}
	privLen, priv := 0, 0
	if len(a.privs) > 0 {
		privLen, priv = len(sec[5]), at[5]
	}
	top := asmIndex([][]byte{a.dictBytes(a.top, topExtra(at[0], at[1], at[2], privLen, priv, at[4], at[3]))}, max(sz, 2))
	res := append(append(append(head, top...), strIdx...), gIdx...)
	for _, i := range order {
		res = append(res, sec[i]...)
	}
	return res
}

func closeRel(a, b, tol float64) bool {
	return a == b || math.Abs(a-b) <= tol*math.Max(math.Abs(a), math.Abs(b))
}
