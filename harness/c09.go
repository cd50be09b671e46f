package main

import (
	"bytes"
	"fmt"
	"math/bits"
	"math/rand"
	"reflect"
	"sort"

	"seehuhn.de/go/sfnt"
	"seehuhn.de/go/sfnt/cmap"
	"seehuhn.de/go/sfnt/glyph"
	"seehuhn.de/go/sfnt/mac"
)

func init() { register("C09", c09) }

func u16(b []byte, p int) int {
	return int(b[p])<<8 | int(b[p+1])
}

func u32(b []byte, p int) int {
	return int(b[p])<<24 | int(b[p+1])<<16 | int(b[p+2])<<8 | int(b[p+3])
}

func p16(b []byte, v int) []byte { return append(b, byte(v>>8), byte(v)) }
func p32(b []byte, v int) []byte { return append(b, byte(v>>24), byte(v>>16), byte(v>>8), byte(v)) }

// refFormat4 looks up a code the way the OpenType specification describes:
// binary search using the search fields, then the delta or range formula.
func refFormat4(b []byte, c int) (int, string) {
	segX2 := u16(b, 6)
	sr, es, rs := u16(b, 8), u16(b, 10), u16(b, 12)
	end := 14
	start := end + segX2 + 2
	delta := start + segX2
	rng := delta + segX2
	// binary search with searchRange/entrySelector/rangeShift, as intended by
	// the header fields
	p := end
	if c > u16(b, p+rs) { // the last searchRange bytes
		p += rs
	}
	r := sr
	for k := 0; k < es; k++ {
		r /= 2
		if p+r-2 < end+segX2 && c > u16(b, p+r-2) {
			p += r
		}
	}
	if p >= end+segX2 {
		return 0, "search left the table"
	}
	i := p - end
	// linear search, for comparison
	j := 0
	for u16(b, end+j) < c {
		j += 2
		if j >= segX2 {
			return 0, "no segment ends at or after the code"
		}
	}
	if i != j {
		return 0, fmt.Sprintf("binary search with the header fields finds segment %d instead of %d", i/2, j/2)
	}
	s := u16(b, start+i)
	if s > c {
		return 0, ""
	}
	d := u16(b, delta+i)
	ro := u16(b, rng+i)
	if ro == 0 {
		return (c + d) & 0xFFFF, ""
	}
	q := rng + i + ro + 2*(c-s)
	if q+2 > len(b) {
		return 0, "glyph array index out of range"
	}
	g := u16(b, q)
	if g != 0 {
		g = (g + d) & 0xFFFF
	}
	return g, ""
}

func structFormat4(b []byte, lang int) string {
	switch {
	case len(b) < 24:
		return "too short"
	case u16(b, 0) != 4:
		return "wrong format"
	case u16(b, 2) != len(b):
		return fmt.Sprintf("length field %d for %d bytes", u16(b, 2), len(b))
	case u16(b, 4) != lang:
		return "wrong language"
	}
	x2 := u16(b, 6)
	if x2%2 != 0 || x2 == 0 || 16+4*x2 > len(b) {
		return "bad segment count"
	}
	n := x2 / 2
	sel := bits.Len(uint(n)) - 1
	if u16(b, 8) != 2<<sel || u16(b, 10) != sel || u16(b, 12) != x2-2<<sel {
		return fmt.Sprintf("search fields %d %d %d for %d segments", u16(b, 8), u16(b, 10), u16(b, 12), n)
	}
	if u16(b, 14+x2) != 0 {
		return "reservedPad not 0"
	}
	prev := -1
	for i := 0; i < n; i++ {
		e, s := u16(b, 14+2*i), u16(b, 16+x2+2*i)
		if s > e || s <= prev {
			return "segments not in order"
		}
		prev = e
	}
	if prev != 0xFFFF {
		return "last segment does not end at 0xFFFF"
	}
	return ""
}

func refFormat12(b []byte) (map[int]int, string) {
	if len(b) < 16 || u16(b, 0) != 12 || u16(b, 2) != 0 || u32(b, 4) != len(b) {
		return nil, "bad header"
	}
	n := u32(b, 12)
	if len(b) != 16+12*n {
		return nil, "bad length"
	}
	m := map[int]int{}
	prev := -1
	for i := 0; i < n; i++ {
		s, e, g := u32(b, 16+12*i), u32(b, 20+12*i), u32(b, 24+12*i)
		if s <= prev || e < s {
			return nil, "groups not in order"
		}
		prev = e
		for c := s; c <= e; c++ {
			if v := g + c - s; v > 0xFFFF {
				return nil, fmt.Sprintf("glyph id %d", v)
			} else if v != 0 {
				m[c] = v
			}
		}
	}
	return m, ""
}

// randMap4 fills codes [base,base+n) with runs, gaps and scattered values.
func randMap4(r *rand.Rand, m map[int]int, base, n int) {
	gid := 1 + r.Intn(1000)
	if r.Intn(5) == 0 {
		gid = 65536 - r.Intn(10)
	}
	for c := base; c < base+n && c < 65536; {
		l := 1 + r.Intn(7)
		if r.Intn(8) == 0 {
			l = 1 + r.Intn(60)
		}
		switch r.Intn(6) {
		case 0, 1: // gap
			c += l
		case 2, 3: // run
			if r.Intn(2) == 0 {
				gid = r.Intn(65536)
			}
			for ; l > 0 && c < 65536; l-- {
				m[c] = gid & 0xFFFF
				gid++
				c++
			}
		case 4: // scattered
			for ; l > 0 && c < 65536; l-- {
				m[c] = r.Intn(65536)
				if r.Intn(4) == 0 {
					m[c] = r.Intn(3)
				}
				c++
			}
		case 5: // alternating
			for ; l > 0 && c < 65536; l-- {
				m[c] = 1 + 5*(c&1)
				c++
			}
		}
	}
}

func c09(w *W) {
	checkFormat4 := func(m map[int]int, lang int, all bool) {
		f := cmap.Format4{}
		lo, hi := 65536, -1
		for c, g := range m {
			f[uint16(c)] = glyph.ID(g)
			lo = min(lo, c)
			hi = max(hi, c)
		}
		keys := make([]int, 0, len(m))
		for c := range m {
			keys = append(keys, c)
		}
		sort.Ints(keys)
		desc := make([]byte, 0, 4*len(m))
		for _, c := range keys {
			desc = p16(p16(desc, c), m[c])
		}
		w.Input(desc)
		runs, prev := 1, 0
		prevD := -1
		for _, c := range keys {
			if m[c] == 0 {
				continue
			}
			d := (m[c] - c) & 0xFFFF
			if prevD < 0 || c != prev+1 || d != prevD {
				runs++
			}
			prev, prevD = c, d
		}
		var data []byte
		if 16+8*runs > 65535 {
			// may not be representable
			func() {
				defer func() {
					if recover() != nil {
						w.Count("maps too large for format 4", 1)
						data = nil
					}
				}()
				data = f.Encode(uint16(lang))
			}()
			if data == nil {
				return
			}
		} else if !w.NoPanic("Format4.Encode", func() { data = f.Encode(uint16(lang)) }) {
			return
		}
		if msg := structFormat4(data, lang); msg != "" {
			w.Fail("format 4 structure", "%s (map of %d codes)", msg, len(m))
			return
		}
		sub, err := cmap.Table{{PlatformID: 3, EncodingID: 1}: data}.Get(cmap.Key{PlatformID: 3, EncodingID: 1})
		if err != nil {
			w.Fail("format 4 decode", "own encoding rejected: %v", err)
			return
		}
		one := func(c int) {
			g, msg := refFormat4(data, c)
			if msg != "" {
				w.Fail("format 4 independent decoder", "code %#x: %s", c, msg)
			} else if g != m[c] {
				w.Fail("format 4 independent decoder", "code %#x: glyph %d instead of %d", c, g, m[c])
			}
			if h := int(sub.Lookup(rune(c))); h != m[c] {
				w.Fail("format 4 library decoder", "code %#x: glyph %d instead of %d", c, h, m[c])
			}
			if h := int(f.Lookup(rune(c))); h != m[c] {
				w.Fail("format 4 lookup", "code %#x: glyph %d instead of %d", c, h, m[c])
			}
		}
		if all {
			for c := 0; c < 65536; c++ {
				one(c)
			}
		} else {
			for c := max(lo-3, 0); c <= hi+3 && c < 65536; c++ {
				one(c)
			}
			for _, c := range []int{0, 1, 0xFFFE, 0xFFFF} {
				one(c)
			}
		}
		for _, c := range keys {
			if r := rune(c) + 0x10000; sub.Lookup(r) != 0 {
				w.Fail("format 4 beyond the BMP", "code %#x: glyph %d", r, sub.Lookup(r))
			}
			break
		}
		if len(keys) > 0 {
			a, b := f.CodeRange()
			w.Check(int(a) == lo && int(b) == hi, "format 4 code range", "%d..%d instead of %d..%d", a, b, lo, hi)
		}
	}

	// all patterns of 7 consecutive codes (continue the run / new run /
	// unmapped / the constant 7), in the middle, at 0 and at 0xFFFF
	w.Each("f4-patterns", w.Scale(16384, 3*16384), func(i int, r *rand.Rand) {
		base := []int{0, 0x100, 0x10000 - 7}[(i+i/16384)%3]
		k := i % 16384
		m := map[int]int{}
		g := 50
		for j := 0; j < 7; j++ {
			switch k % 4 {
			case 0:
				g++
				m[base+j] = g
			case 1:
				g += 10
				m[base+j] = g
			case 3:
				m[base+j] = 7
			}
			k /= 4
		}
		checkFormat4(m, 0, false)
	})
	w.Each("f4-random", w.Scale(3000, 60000), func(i int, r *rand.Rand) {
		m := map[int]int{}
		for k := 1 + r.Intn(4); k > 0; k-- {
			base := []int{0, r.Intn(65536), 65536 - 40, 65536 - 1 - r.Intn(20), r.Intn(300)}[r.Intn(5)]
			randMap4(r, m, base, 1+r.Intn(150))
		}
		checkFormat4(m, r.Intn(2)*r.Intn(65536), i%200 == 0)
	})
	w.Each("f4-large", w.Scale(24, 400), func(i int, r *rand.Rand) {
		m := map[int]int{}
		switch i % 6 {
		case 0: // one long scattered stretch
			n := 4000 + r.Intn(800)
			if i%48 == 0 {
				n = 32000 + r.Intn(800)
			}
			for c := 0; c < n; c++ {
				m[c+r.Intn(2)] = r.Intn(65536)
			}
		case 1: // short runs at the segment limit
			n := 8180 + r.Intn(20)
			for k := 0; k < n; k++ {
				for j := 0; j < 5; j++ {
					m[8*k+j] = (k*37 + j) & 0xFFFF
				}
			}
		case 2: // dense
			randMap4(r, m, 0, 20000)
		case 3: // everything
			for c := 0; c < 65536; c++ {
				m[c] = (c + 77) & 0xFFFF
			}
		case 4:
			randMap4(r, m, 0, 65536)
		case 5:
			n := 8000 + r.Intn(400)
			for k := 0; k < n; k++ {
				m[8*k+7] = 1 + k
			}
		}
		checkFormat4(m, 0, true)
	})

	checkFormat12 := func(m map[int]int, lang int) {
		f := cmap.Format12{}
		keys := make([]int, 0, len(m))
		for c, g := range m {
			f[uint32(c)] = glyph.ID(g)
			keys = append(keys, c)
		}
		sort.Ints(keys)
		desc := make([]byte, 0, 6*len(m))
		for _, c := range keys {
			desc = p16(p32(desc, c), m[c])
		}
		w.Input(desc)
		var data []byte
		if !w.NoPanic("Format12.Encode", func() { data = f.Encode(uint16(lang)) }) {
			return
		}
		ref, msg := refFormat12(data)
		if msg != "" {
			w.Fail("format 12 independent decoder", "%s", msg)
			return
		}
		w.Check(u32(data, 8) == lang, "format 12 language", "%d instead of %d", u32(data, 8), lang)
		key := cmap.Key{PlatformID: 3, EncodingID: 10}
		sub, err := cmap.Table{key: data}.Get(key)
		if err != nil {
			w.Fail("format 12 decode", "own encoding rejected: %v", err)
			return
		}
		one := func(c int) {
			if ref[c] != m[c] {
				w.Fail("format 12 independent decoder", "code %#x: glyph %d instead of %d", c, ref[c], m[c])
			}
			if h := int(sub.Lookup(rune(c))); h != m[c] {
				w.Fail("format 12 library decoder", "code %#x: glyph %d instead of %d", c, h, m[c])
			}
			if h := int(f.Lookup(rune(c))); h != m[c] {
				w.Fail("format 12 lookup", "code %#x: glyph %d instead of %d", c, h, m[c])
			}
		}
		for _, c := range keys {
			for d := c - 1; d <= c+1; d++ {
				one(d)
			}
		}
		for c := range ref {
			one(c)
		}
		if len(keys) > 0 {
			a, b := f.CodeRange()
			w.Check(int(a) == keys[0] && int(b) == keys[len(keys)-1], "format 12 code range", "%d..%d", a, b)
		}
	}
	w.Each("f12-random", w.Scale(6000, 100000), func(i int, r *rand.Rand) {
		m := map[int]int{}
		for k := 1 + r.Intn(5); k > 0; k-- {
			base := []int{1, 0xFF00 + r.Intn(512), 0x10000 + r.Intn(0x1000), r.Intn(0x110000), 0x10FFFF - r.Intn(100)}[r.Intn(5)]
			g := []int{r.Intn(65536), 65530 + r.Intn(6), r.Intn(3)}[r.Intn(3)]
			for l := r.Intn(100); l > 0 && base < 0x110000; l-- {
				m[base] = g & 0xFFFF
				switch r.Intn(12) {
				case 0:
					g = r.Intn(65536)
				case 1:
				case 2:
					g--
				default:
					g++
				}
				base++
				if r.Intn(12) == 0 {
					base += r.Intn(4)
				}
			}
		}
		if r.Intn(3) == 0 {
			m[0] = r.Intn(4)
		}
		checkFormat12(m, r.Intn(2)*r.Intn(65536))
	})
	w.Each("f12-large", w.Scale(8, 60), func(i int, r *rand.Rand) {
		m := map[int]int{}
		for k := 0; k < 65536; k++ {
			switch i % 4 {
			case 0:
				m[k+0x10000-5] = k
			case 1:
				m[17*k%0x110000] = k
			case 2:
				m[k] = k ^ 1
			case 3:
				m[k*3] = r.Intn(65536)
			}
		}
		checkFormat12(m, 0)
	})

	// subtables as found in files
	w.Each("foreign", w.Scale(40000, 600000), func(i int, r *rand.Rand) {
		isMac := r.Intn(3) == 0
		var data []byte
		want := map[int]int{} // code -> glyph
		switch i % 4 {
		case 0: // format 0
			data = p16(p16(p16(data, 0), 262), 0)
			for c := 0; c < 256; c++ {
				g := r.Intn(256)
				if r.Intn(2) == 0 {
					g = 0
				}
				data = append(data, byte(g))
				want[c] = g
			}
		case 1: // format 6
			n := r.Intn(100)
			first := r.Intn(65536 - n + 1)
			if r.Intn(4) == 0 {
				first = 65536 - n
				if n == 0 {
					first = 0
				}
			}
			if isMac {
				first = r.Intn(256 - n)
			}
			data = p16(p16(p16(p16(p16(data, 6), 10+2*n), 0), first), n)
			for c := first; c < first+n; c++ {
				g := r.Intn(3) * r.Intn(30000)
				data = p16(data, g)
				want[c] = g
			}
			if r.Intn(8) == 0 { // excess zero
				data = p16(data, 0)
			}
		case 2: // format 4, any mixture of segments
			top := 65534
			if isMac {
				top = 255
			}
			var seg [][4]int // start end delta useArray
			c := r.Intn(200)
			for k := r.Intn(6); k > 0 && c < top; k-- {
				e := min(c+r.Intn(20), top)
				seg = append(seg, [4]int{c, e, r.Intn(65536) * r.Intn(2), r.Intn(2)})
				c = e + 1 + r.Intn(3)*r.Intn(100)
			}
			last := [4]int{0xFFFF, 0xFFFF, 1, 0}
			if !isMac && r.Intn(3) == 0 {
				last[2] = r.Intn(65536)
				last[3] = r.Intn(2)
			}
			seg = append(seg, last)
			n := len(seg)
			arr := make([]int, 5+r.Intn(60))
			for j := range arr {
				arr[j] = r.Intn(3) * r.Intn(30000)
			}
			off := make([]int, n)
			for j, s := range seg {
				if s[3] == 1 {
					for len(arr) < s[1]-s[0]+1 {
						arr = append(arr, r.Intn(65536))
					}
					k := r.Intn(len(arr) - (s[1] - s[0])) // ranges may overlap
					off[j] = 2 * (n - j + k)
					for c := s[0]; c <= s[1]; c++ {
						g := arr[k+c-s[0]]
						if g != 0 {
							g = (g + s[2]) & 0xFFFF
						}
						want[c] = g
					}
				} else {
					for c := s[0]; c <= s[1]; c++ {
						want[c] = (c + s[2]) & 0xFFFF
					}
				}
			}
			sel := bits.Len(uint(n)) - 1
			data = p16(p16(p16(p16(p16(p16(p16(data, 4), 16+8*n+2*len(arr)), 0), 2*n), 2<<sel), sel), 2*n-2<<sel)
			for _, s := range seg {
				data = p16(data, s[1])
			}
			data = p16(data, 0)
			for _, s := range seg {
				data = p16(data, s[0])
			}
			for _, s := range seg {
				data = p16(data, s[2])
			}
			for _, o := range off {
				data = p16(data, o)
			}
			for _, g := range arr {
				data = p16(data, g)
			}
		case 3: // format 12
			isMac = false
			data = p32(p32(p32(p16(p16(data, 12), 0), 0), 0), 0)
			c := r.Intn(0x10000) * (1 + r.Intn(16))
			n := 0
			for k := r.Intn(6); k > 0; k-- {
				e := c + r.Intn(30)
				if e > 0x10FFFF {
					break
				}
				g := []int{r.Intn(60000), 65535 - (e - c), 0, r.Intn(10)}[r.Intn(4)]
				data = p32(p32(p32(data, c), e), g)
				for x := c; x <= e; x++ {
					want[x] = g + x - c
				}
				n++
				c = e + 1 + r.Intn(2)*r.Intn(1000)
			}
			data[15] = byte(n)
			data[6], data[7] = byte(len(data)>>8), byte(len(data))
		}
		w.Input(data)
		key := cmap.Key{PlatformID: 3, EncodingID: 1}
		if isMac {
			key = cmap.Key{PlatformID: 1}
		}
		var sub cmap.Subtable
		var err error
		if !w.NoPanic("Get", func() { sub, err = cmap.Table{key: data}.Get(key) }) {
			return
		}
		name := fmt.Sprintf("format %d from file", u16(data, 0))
		if err != nil {
			w.Fail(name, "rejected: %v", err)
			return
		}
		one := func(c int) {
			ch := rune(c)
			if isMac {
				if c >= 256 {
					return
				}
				ch = mac.DecodeOne(byte(c))
			}
			if g := int(sub.Lookup(ch)); g != want[c] {
				w.Fail(name, "code %#x (mac %t): glyph %d instead of %d", c, isMac, g, want[c])
			}
		}
		for c := range want {
			one(c)
			if _, ok := want[c+1]; !ok {
				one(c + 1)
			}
			if _, ok := want[c-1]; !ok && c > 0 {
				one(c - 1)
			}
		}
		if i%64 == 0 {
			for c := 0; c < 65536; c++ {
				one(c)
			}
		}
		if u16(data, 0) != 12 {
			for k := 0; k < 20; k++ {
				c := 0x10000 + r.Intn(0x100000)
				if g := sub.Lookup(rune(c)); g != 0 {
					w.Fail(name, "code %#x: glyph %d instead of 0", c, g)
				}
			}
		}
	})

	// whole tables
	w.Each("table", w.Scale(30000, 400000), func(i int, r *rand.Rand) {
		t := cmap.Table{}
		var pool [][]byte
		mk := func(lang int) []byte {
			if len(pool) > 0 && r.Intn(3) == 0 {
				for k := 0; k < 4; k++ {
					d := pool[r.Intn(len(pool))]
					if u16(d, 0) <= 6 && u16(d, 4) == lang {
						return append([]byte(nil), d...)
					}
				}
			}
			var d []byte
			switch r.Intn(5) {
			case 0, 1:
				d = p16(p16(p16(nil, []int{0, 2, 4, 6}[r.Intn(4)]), 0), lang)
				for k := 4 + r.Intn(20); k > 0; k-- {
					d = append(d, byte(r.Intn(3)))
				}
				d[2], d[3] = byte(len(d)>>8), byte(len(d))
			case 2, 3:
				d = p32(p32(p16(p16(nil, []int{8, 10, 12, 13}[r.Intn(4)]), 0), 0), lang)
				for k := r.Intn(20); k > 0; k-- {
					d = append(d, byte(r.Intn(3)))
				}
				d[6], d[7] = byte(len(d)>>8), byte(len(d))
			case 4:
				d = p32(p16(nil, 14), 0)
				for k := 4 + r.Intn(20); k > 0; k-- {
					d = append(d, byte(r.Intn(3)))
				}
				d[4], d[5] = byte(len(d)>>8), byte(len(d))
				if lang != 0 {
					return nil
				}
			}
			pool = append(pool, d)
			return d
		}
		for k := r.Intn(9); k > 0; k-- {
			key := cmap.Key{PlatformID: uint16(r.Intn(5)), EncodingID: uint16(r.Intn(12))}
			if r.Intn(10) == 0 {
				key.EncodingID = uint16(r.Intn(65536))
			}
			lang := 0
			if key.PlatformID == 1 {
				lang = r.Intn(3) * r.Intn(300)
				key.Language = uint16(lang)
			}
			if d := mk(lang); d != nil {
				t[key] = d
			}
		}
		var data []byte
		w.Eval(fmt.Sprint(t))
		if !w.NoPanic("Table.Encode", func() { data = t.Encode() }) {
			return
		}
		got, err := cmap.Decode(data)
		if err != nil {
			w.Fail("table decode", "own encoding rejected: %v", err)
			return
		}
		w.Check(len(got) == len(t), "table keys", "%d keys instead of %d", len(got), len(t))
		for k, d := range t {
			w.Check(bytes.Equal(got[k], d), "table contents", "subtable %v differs: %x instead of %x", k, got[k], d)
		}
		w.Check(bytes.Equal(t.Encode(), data), "table encoding not deterministic", "")
		// independent walk
		if u16(data, 0) != 0 || u16(data, 2) != len(t) {
			w.Fail("table header", "%x", data[:4])
			return
		}
		var prev [3]int
		shared := map[string]int{}
		for k := 0; k < len(t); k++ {
			p, e, o := u16(data, 4+8*k), u16(data, 6+8*k), u32(data, 8+8*k)
			if o < 4+8*len(t) || o+6 > len(data) {
				w.Fail("table offsets", "offset %d of %d", o, len(data))
				return
			}
			l := 0
			if p == 1 {
				l = u16(data, o+4)
				if f := u16(data, o); f == 14 {
					l = 0
				} else if f >= 8 {
					l = u32(data, o+8)
				}
			}
			this := [3]int{p, e, l}
			if k > 0 && !(prev[0] < this[0] || prev[0] == this[0] && (prev[1] < this[1] || prev[1] == this[1] && prev[2] < this[2])) {
				w.Fail("table order", "%v before %v", prev, this)
			}
			prev = this
			d, ok := t[cmap.Key{PlatformID: uint16(p), EncodingID: uint16(e), Language: uint16(l)}]
			if !ok || o+len(d) > len(data) || !bytes.Equal(data[o:o+len(d)], d) {
				w.Fail("table records", "record %v at %d", this, o)
				return
			}
			if q, ok := shared[string(d)]; ok && q != o {
				w.Fail("table sharing", "equal subtables at %d and %d", q, o)
			}
			shared[string(d)] = o
		}
	})

	// choice of the best subtable
	bestEnc := map[[2]int][]byte{}
	w.Each("best", 4096, func(i int, r *rand.Rand) {
		keys := []cmap.Key{{PlatformID: 3, EncodingID: 10}, {PlatformID: 0, EncodingID: 4}, {PlatformID: 3, EncodingID: 1}, {PlatformID: 0, EncodingID: 3}, {PlatformID: 1, EncodingID: 0},
			{PlatformID: 3, EncodingID: 0}, {PlatformID: 1, EncodingID: 1}, {PlatformID: 2, EncodingID: 1}, {PlatformID: 3, EncodingID: 4}, {PlatformID: 0, EncodingID: 5}}
		tier := []int{0, 0, 1, 1, 2}
		t := cmap.Table{}
		for j, k := range keys {
			if i>>j&1 == 0 {
				continue
			}
			g := glyph.ID(1 + j)
			id := [2]int{j, 4}
			if j < 2 && i>>10&1 == 1 || j >= 5 && i>>11 == 1 {
				id[1] = 12
			}
			if bestEnc[id] == nil {
				if id[1] == 12 {
					bestEnc[id] = cmap.Format12{'A': g}.Encode(0)
				} else {
					bestEnc[id] = cmap.Format4{'A': g}.Encode(0)
				}
			}
			t[k] = bestEnc[id]
		}
		w.Eval(fmt.Sprint(t))
		want := -1
		for j := range tier {
			if i>>j&1 == 1 {
				want = tier[j]
				break
			}
		}
		var sub cmap.Subtable
		var err error
		if !w.NoPanic("GetBest", func() { sub, err = t.GetBest() }) {
			return
		}
		if want < 0 {
			w.Check(err != nil, "best subtable", "subtable found in %v", t)
			return
		}
		if err != nil {
			w.Fail("best subtable", "none found: %v", err)
			return
		}
		g := int(sub.Lookup('A')) - 1
		w.Check(g >= 0 && g < 5 && tier[g] == want, "best subtable", "subtable %d chosen from set %b", g, i&1023)
		sub2, err := cmap.Decode(t.Encode())
		if err == nil {
			if s, err := sub2.GetBest(); err != nil || !reflect.DeepEqual(s, sub) {
				w.Fail("best subtable after encoding", "%v", err)
			}
		}
	})
	w.Each("install", w.Scale(3000, 30000), func(i int, r *rand.Rand) {
		m := map[int]int{}
		for k := 1 + r.Intn(30); k > 0; k-- {
			m[r.Intn(500)+[]int{0, 0xFE00, 0xFFFF, 0x1F600}[r.Intn(4)]] = 1 + r.Intn(65535)
		}
		var sub cmap.Subtable
		hi := 0
		for c := range m {
			hi = max(hi, c)
		}
		if hi > 0xFFFF || r.Intn(3) == 0 {
			f := cmap.Format12{}
			for c, g := range m {
				f[uint32(c)] = glyph.ID(g)
			}
			sub = f
		} else {
			f := cmap.Format4{}
			for c, g := range m {
				f[uint16(c)] = glyph.ID(g)
			}
			sub = f
		}
		w.Eval(fmt.Sprint(sub))
		font := &sfnt.Font{}
		font.InstallCMap(sub)
		t, err := cmap.Decode(font.CMapTable.Encode())
		if err != nil {
			w.Fail("installed cmap", "%v", err)
			return
		}
		best, err := t.GetBest()
		if err != nil {
			w.Fail("installed cmap", "%v", err)
			return
		}
		for c, g := range m {
			w.Check(int(best.Lookup(rune(c))) == g, "installed cmap", "code %#x: %d instead of %d", c, best.Lookup(rune(c)), g)
			w.Check(int(best.Lookup(rune(c+1))) == m[c+1], "installed cmap", "code %#x: %d instead of %d", c+1, best.Lookup(rune(c+1)), m[c+1])
		}
		for k := range t {
			full := k.PlatformID == 3 && k.EncodingID == 10 || k.PlatformID == 0 && k.EncodingID == 4
			w.Check(full == (hi > 0xFFFF), "installed encoding", "key %v for codes up to %#x", k, hi)
		}
	})
}
