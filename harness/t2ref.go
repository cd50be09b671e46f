package main

import (
	"fmt"
	"math"
)

// A Type 2 charstring interpreter written from Adobe TN5177, used as the
// reference for C04, C05 and C13.

type t2Cmd struct {
	op   byte // m, l, c, h (hintmask), n (cntrmask)
	args []float64
}

type t2Res struct {
	width   float64
	cmds    []t2Cmd
	hs, vs  []float64
	bad     string // malformed: must be rejected
	odd     string // outside of what the specification defines
	maxUsed int    // largest number of operands on the stack
	ops     map[int]int
}

type t2Interp struct {
	g, l     [][]byte
	dw, nw   float64
	res      *t2Res
	st       []float64
	x, y     float64
	moved    bool
	widthSet bool
	masked   bool
	sawV     bool
	store    [32]float64
	stored   [32]bool
	done     bool
	steps    int
}

func r16(x float64) float64 { return math.Round(x*65536) / 65536 }

func (t *t2Interp) bad(f string, a ...any) bool {
	if t.res.bad == "" && t.res.odd == "" {
		t.res.bad = fmt.Sprintf(f, a...)
	}
	return false
}

func (t *t2Interp) odd(f string, a ...any) bool {
	if t.res.bad == "" && t.res.odd == "" {
		t.res.odd = fmt.Sprintf(f, a...)
	}
	return false
}

func (t *t2Interp) push(x float64) bool {
	if math.Abs(x) > 32767 {
		return t.odd("number out of range")
	}
	t.st = append(t.st, x)
	t.res.maxUsed = max(t.res.maxUsed, len(t.st))
	if len(t.st) > 48 {
		return t.bad("stack overflow")
	}
	return true
}

func (t *t2Interp) pos(x, y float64) bool {
	t.x, t.y = x, y
	if math.Abs(x) > 1e6 || math.Abs(y) > 1e6 {
		return t.odd("coordinate out of range")
	}
	return true
}

func (t *t2Interp) line(dx, dy float64) bool {
	if !t.moved {
		return t.bad("drawing before the first move")
	}
	t.res.cmds = append(t.res.cmds, t2Cmd{'l', []float64{t.x + dx, t.y + dy}})
	return t.pos(t.x+dx, t.y+dy)
}

func (t *t2Interp) curve(a, b, c, d, e, f float64) bool {
	if !t.moved {
		return t.bad("drawing before the first move")
	}
	x1, y1 := t.x+a, t.y+b
	x2, y2 := x1+c, y1+d
	x3, y3 := x2+e, y2+f
	t.res.cmds = append(t.res.cmds, t2Cmd{'c', []float64{x1, y1, x2, y2, x3, y3}})
	return t.pos(x3, y3)
}

// takeWidth handles the optional width for an operator which uses n of the
// operands.
func (t *t2Interp) takeWidth(present bool) {
	if t.widthSet {
		return
	}
	t.widthSet = true
	if present {
		t.res.width = t.nw + t.st[0]
		t.st = t.st[1:]
	}
}

func (t *t2Interp) move(n int, f func() (float64, float64)) bool {
	if len(t.st) < n {
		return t.bad("stack underflow")
	}
	t.takeWidth(len(t.st) > n)
	if len(t.st) != n {
		return t.odd("extra operands")
	}
	dx, dy := f()
	t.moved = true
	t.res.cmds = append(t.res.cmds, t2Cmd{'m', []float64{t.x + dx, t.y + dy}})
	return t.pos(t.x+dx, t.y+dy)
}

func (t *t2Interp) stems(dst *[]float64) {
	p := 0.0
	for i := 0; i+1 < len(t.st); i += 2 {
		a := p + t.st[i]
		b := a + t.st[i+1]
		*dst = append(*dst, a, b)
		p = b
	}
}

func t2Bias(n int) int {
	if n < 1240 {
		return 107
	}
	if n < 33900 {
		return 1131
	}
	return 32768
}

// t2Run executes a charstring.
func t2Run(code []byte, gsubr, lsubr [][]byte, dw, nw float64) *t2Res {
	t := &t2Interp{g: gsubr, l: lsubr, dw: dw, nw: nw, res: &t2Res{width: dw, ops: map[int]int{}}}
	if t.exec(code, 0) && !t.done {
		t.bad("missing endchar")
	}
	return t.res
}

// exec returns false when execution has to stop.
func (t *t2Interp) exec(code []byte, depth int) bool {
	if depth > 10 {
		return t.odd("calls nested too deeply")
	}
	for i := 0; i < len(code); {
		t.steps++
		if t.steps > 200000 {
			return t.odd("too long")
		}
		b := int(code[i])
		need := 1
		switch {
		case b == 28:
			need = 3
		case b >= 247 && b <= 254 || b == 12:
			need = 2
		case b == 255:
			need = 5
		}
		if i+need > len(code) {
			if depth == 0 {
				return t.bad("missing endchar (truncated)")
			}
			return t.odd("truncated subroutine")
		}
		c := code[i : i+need]
		i += need
		var v float64
		num := true
		switch {
		case b == 28:
			v = float64(int16(uint16(c[1])<<8 | uint16(c[2])))
		case b >= 32 && b <= 246:
			v = float64(b - 139)
		case b >= 247 && b <= 250:
			v = float64((b-247)*256 + int(c[1]) + 108)
		case b >= 251 && b <= 254:
			v = float64(-(b-251)*256 - int(c[1]) - 108)
		case b == 255:
			v = float64(int32(uint32(c[1])<<24|uint32(c[2])<<16|uint32(c[3])<<8|uint32(c[4]))) / 65536
		default:
			num = false
		}
		if num {
			if math.Abs(v) > 32767 {
				if v == -32768 {
					t.st = append(t.st, v)
					t.res.maxUsed = max(t.res.maxUsed, len(t.st))
					if len(t.st) > 48 {
						return t.bad("stack overflow")
					}
					continue
				}
			}
			t.st = append(t.st, v)
			t.res.maxUsed = max(t.res.maxUsed, len(t.st))
			if len(t.st) > 48 {
				return t.bad("stack overflow")
			}
			continue
		}
		op := b
		if b == 12 {
			op = 1200 + int(c[1])
		}
		t.res.ops[op]++
		s := t.st
		n := len(s)
		clear := true
		switch op {
		case 21:
			if !t.move(2, func() (float64, float64) { return t.st[0], t.st[1] }) {
				return false
			}
		case 22:
			if !t.move(1, func() (float64, float64) { return t.st[0], 0 }) {
				return false
			}
		case 4:
			if !t.move(1, func() (float64, float64) { return 0, t.st[0] }) {
				return false
			}
		case 5:
			if n < 2 {
				return t.bad("stack underflow")
			}
			if n%2 != 0 {
				return t.odd("operand count")
			}
			for k := 0; k < n; k += 2 {
				if !t.line(s[k], s[k+1]) {
					return false
				}
			}
		case 6, 7:
			if n < 1 {
				return t.bad("stack underflow")
			}
			for k, d := range s {
				ok := false
				if (op == 6) == (k%2 == 0) {
					ok = t.line(d, 0)
				} else {
					ok = t.line(0, d)
				}
				if !ok {
					return false
				}
			}
		case 8, 24, 25: // rrcurveto, rcurveline, rlinecurve
			lo := 6
			if op != 8 {
				lo = 8
			}
			if n < lo {
				return t.bad("stack underflow")
			}
			k := 0
			switch op {
			case 8:
				if n%6 != 0 {
					return t.odd("operand count")
				}
			case 24:
				if n%6 != 2 {
					return t.odd("operand count")
				}
			case 25:
				if n%2 != 0 {
					return t.odd("operand count")
				}
				for ; k < n-6; k += 2 {
					if !t.line(s[k], s[k+1]) {
						return false
					}
				}
			}
			for ; k+6 <= n; k += 6 {
				if !t.curve(s[k], s[k+1], s[k+2], s[k+3], s[k+4], s[k+5]) {
					return false
				}
			}
			if op == 24 && !t.line(s[k], s[k+1]) {
				return false
			}
		case 26, 27: // vvcurveto, hhcurveto
			if n < 4 {
				return t.bad("stack underflow")
			}
			if n%4 > 1 {
				return t.odd("operand count")
			}
			off, k := 0.0, 0
			if n%4 == 1 {
				off, k = s[0], 1
			}
			for ; k < n; k += 4 {
				ok := false
				if op == 27 {
					ok = t.curve(s[k], off, s[k+1], s[k+2], s[k+3], 0)
				} else {
					ok = t.curve(off, s[k], s[k+1], s[k+2], 0, s[k+3])
				}
				if !ok {
					return false
				}
				off = 0
			}
		case 30, 31: // vhcurveto, hvcurveto
			if n < 4 {
				return t.bad("stack underflow")
			}
			if n%4 > 1 {
				return t.odd("operand count")
			}
			hor := op == 31
			for k := 0; k+4 <= n; k += 4 {
				last := 0.0
				if n-k == 5 {
					last = s[k+4]
				}
				ok := false
				if hor {
					ok = t.curve(s[k], 0, s[k+1], s[k+2], last, s[k+3])
				} else {
					ok = t.curve(0, s[k], s[k+1], s[k+2], s[k+3], last)
				}
				if !ok {
					return false
				}
				hor = !hor
			}
		case 1235: // flex
			if n < 13 {
				return t.bad("stack underflow")
			}
			if n > 13 {
				return t.odd("operand count")
			}
			if !t.curve(s[0], s[1], s[2], s[3], s[4], s[5]) || !t.curve(s[6], s[7], s[8], s[9], s[10], s[11]) {
				return false
			}
		case 1234: // hflex
			if n < 7 {
				return t.bad("stack underflow")
			}
			if n > 7 {
				return t.odd("operand count")
			}
			if !t.curve(s[0], 0, s[1], s[2], s[3], 0) || !t.curve(s[4], 0, s[5], -s[2], s[6], 0) {
				return false
			}
		case 1236: // hflex1
			if n < 9 {
				return t.bad("stack underflow")
			}
			if n > 9 {
				return t.odd("operand count")
			}
			y0 := t.y
			if !t.curve(s[0], s[1], s[2], s[3], s[4], 0) {
				return false
			}
			y2 := t.y + s[7]
			if !t.curve(s[5], 0, s[6], s[7], s[8], y0-y2) {
				return false
			}
		case 1237: // flex1
			if n < 11 {
				return t.bad("stack underflow")
			}
			if n > 11 {
				return t.odd("operand count")
			}
			var dx, dy float64
			for k := 0; k < 10; k += 2 {
				dx += s[k]
				dy += s[k+1]
			}
			x0, y0 := t.x, t.y
			if !t.curve(s[0], s[1], s[2], s[3], s[4], s[5]) {
				return false
			}
			x2, y2 := t.x+s[6]+s[8], t.y+s[7]+s[9]
			ex, ey := s[10], y0-y2
			if !(math.Abs(dx) > math.Abs(dy)) {
				ex, ey = x0-x2, s[10]
			}
			if !t.curve(s[6], s[7], s[8], s[9], ex, ey) {
				return false
			}
		case 1, 3, 18, 23: // stems
			if n < 2 {
				return t.bad("stack underflow")
			}
			if t.masked {
				return t.odd("stems after a mask")
			}
			if t.moved {
				return t.odd("stems after a move")
			}
			ver := op == 3 || op == 23
			if !ver && t.sawV {
				return t.odd("hstem after vstem")
			}
			t.sawV = t.sawV || ver
			t.takeWidth(n%2 == 1)
			if len(t.st)%2 != 0 {
				return t.odd("operand count")
			}
			if ver {
				t.stems(&t.res.vs)
			} else {
				t.stems(&t.res.hs)
			}
		case 19, 20: // masks
			t.takeWidth(n%2 == 1)
			if len(t.st)%2 != 0 {
				return t.odd("operand count")
			}
			if len(t.st) > 0 {
				if t.masked || t.moved {
					return t.odd("implicit stems too late")
				}
				t.stems(&t.res.vs)
			}
			k := (len(t.res.hs)/2 + len(t.res.vs)/2 + 7) / 8
			if k == 0 {
				return t.odd("mask without stems")
			}
			if i+k > len(code) {
				if depth == 0 {
					return t.bad("missing endchar (truncated mask)")
				}
				return t.odd("truncated subroutine")
			}
			t.masked = true
			var m []float64
			for _, x := range code[i : i+k] {
				m = append(m, float64(x))
			}
			i += k
			if i == len(code) && depth > 0 {
				return t.odd("subroutine without return")
			}
			o := byte('h')
			if op == 20 {
				o = 'n'
			}
			t.res.cmds = append(t.res.cmds, t2Cmd{o, m})
		case 14: // endchar
			t.takeWidth(n == 1 || n == 5)
			if len(t.st) != 0 {
				return t.odd("endchar operands")
			}
			t.done = true
			return true
		case 11: // return
			if depth == 0 {
				return t.bad("missing endchar (return)")
			}
			return true
		case 10, 29: // callsubr, callgsubr
			if n < 1 {
				return t.bad("stack underflow")
			}
			tab := t.l
			if op == 29 {
				tab = t.g
			}
			if s[n-1] != math.Trunc(s[n-1]) {
				return t.odd("fractional subroutine index")
			}
			idx := int(s[n-1]) + t2Bias(len(tab))
			t.st = s[:n-1]
			if idx < 0 || idx >= len(tab) {
				return t.bad("bad subroutine index")
			}
			if !t.exec(tab[idx], depth+1) {
				return false
			}
			if t.done {
				return true
			}
			clear = false
		default:
			clear = false
			if !t.arith(op) {
				return false
			}
		}
		if clear {
			t.st = nil
		} else {
			t.st = append([]float64(nil), t.st...)
		}
	}
	if depth > 0 {
		return t.odd("subroutine without return")
	}
	return true
}

var t2ArithArgs = map[int]int{1203: 2, 1204: 2, 1205: 1, 1209: 1, 1210: 2, 1211: 2, 1212: 2, 1214: 1, 1215: 2, 1218: 1, 1220: 2, 1221: 1, 1222: 4, 1224: 2, 1226: 1, 1227: 1, 1228: 2, 1229: 2, 1230: 2}

func (t *t2Interp) arith(op int) bool {
	k, ok := t2ArithArgs[op]
	if !ok {
		return t.odd("operator %d", op)
	}
	n := len(t.st)
	if op == 1229 && n >= 1 && n < 2 {
		return t.bad("stack underflow")
	}
	if n < k {
		return t.bad("stack underflow")
	}
	a := append([]float64(nil), t.st[n-k:]...)
	t.st = append([]float64(nil), t.st[:n-k]...)
	b2f := func(b bool) float64 {
		if b {
			return 1
		}
		return 0
	}
	switch op {
	case 1203:
		return t.push(b2f(a[0] != 0 && a[1] != 0))
	case 1204:
		return t.push(b2f(a[0] != 0 || a[1] != 0))
	case 1205:
		return t.push(b2f(a[0] == 0))
	case 1209:
		return t.push(math.Abs(a[0]))
	case 1210:
		return t.push(a[0] + a[1])
	case 1211:
		return t.push(a[0] - a[1])
	case 1212:
		if a[1] == 0 {
			return t.odd("division by zero")
		}
		return t.push(r16(a[0] / a[1]))
	case 1214:
		return t.push(-a[0])
	case 1215:
		return t.push(b2f(a[0] == a[1]))
	case 1218:
		return true
	case 1220:
		j := int(a[1])
		if a[1] != math.Trunc(a[1]) || j < 0 || j > 31 {
			return t.odd("storage index")
		}
		t.store[j], t.stored[j] = a[0], true
		return true
	case 1221:
		j := int(a[0])
		if a[0] != math.Trunc(a[0]) || j < 0 || j > 31 || !t.stored[j] {
			return t.odd("storage index")
		}
		return t.push(t.store[j])
	case 1222:
		if a[2] <= a[3] {
			return t.push(a[0])
		}
		return t.push(a[1])
	case 1224:
		return t.push(r16(a[0] * a[1]))
	case 1226:
		if a[0] < 0 {
			return t.odd("square root of a negative number")
		}
		return t.push(r16(math.Sqrt(a[0])))
	case 1227:
		return t.push(a[0]) && t.push(a[0])
	case 1228:
		return t.push(a[1]) && t.push(a[0])
	case 1229:
		// the element below is an operand as well
		t.st = append(t.st, a[0])
		if a[1] != math.Trunc(a[1]) {
			return t.odd("fractional index")
		}
		j := max(0, int(a[1]))
		if j >= len(t.st) {
			return t.bad("stack underflow")
		}
		return t.push(t.st[len(t.st)-1-j])
	case 1230:
		if a[0] != math.Trunc(a[0]) || a[1] != math.Trunc(a[1]) {
			return t.odd("fractional roll")
		}
		cnt, j := int(a[0]), int(a[1])
		if cnt < 0 {
			return t.odd("negative roll")
		}
		if cnt > len(t.st) {
			return t.bad("stack underflow")
		}
		if cnt == 0 {
			return true
		}
		seg := t.st[len(t.st)-cnt:]
		out := make([]float64, cnt)
		for q := range seg {
			// positive j rolls towards the top of the stack
			out[((q+j)%cnt+cnt)%cnt] = seg[q]
		}
		copy(seg, out)
		return true
	}
	return t.odd("operator %d", op)
}
