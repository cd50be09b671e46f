package main

import (
	"bytes"
	"fmt"
	"math"
	"math/rand"
	"sort"
	"strconv"
	"strings"

	"seehuhn.de/go/geom/matrix"
	"seehuhn.de/go/postscript/cid"
	"seehuhn.de/go/postscript/funit"
	"seehuhn.de/go/postscript/type1"

	"seehuhn.de/go/sfnt/cff"
	"seehuhn.de/go/sfnt/glyph"
)

func init() { register("C13", c13) }

// dictReal draws a number over the range of float64; subnormal numbers are
// excluded because they do not have nine digits.
func dictReal(r *rand.Rand) float64 {
	x := 0.0
	switch r.Intn(8) {
	case 0:
		x = float64(r.Intn(4000) - 2000)
	case 1:
		x = (r.Float64() - 0.5) * 2000
	case 2:
		x = r.NormFloat64() * math.Pow(10, float64(r.Intn(600)-300))
	case 3:
		x = math.Pow(10, float64(r.Intn(616)-307))
	case 4:
		x = float64(int64(r.Int63n(1e9))) * math.Pow(10, float64(r.Intn(24)-14))
	case 5:
		x = []float64{0, 1, -1, 0.001, 0.5, 107, 108, 1131, 1132, 32767, 32768, -32769, 65536, 2147483647, 2147483648, -2147483648, -2147483649, 1e9, 999999999, 9999999995, 1e-5, 0.1, 99.5, math.MaxFloat64 / 2, 0x1p-1022}[r.Intn(25)]
	case 6:
		x = math.Float64frombits(r.Uint64())
	default:
		x = float64(r.Intn(2000000)-1000000) / 1000
	}
	if r.Intn(3) == 0 {
		x = -x
	}
	if math.IsNaN(x) || math.IsInf(x, 0) || math.Abs(x) < 0x1p-1022 || math.Abs(x) > 1.797e308 {
		x = 0
	}
	return x
}

func dictInt(r *rand.Rand) int32 {
	switch r.Intn(4) {
	case 0:
		return int32(r.Uint32())
	case 1:
		return int32(r.Intn(70000) - 35000)
	case 2:
		return int32(r.Intn(3000) - 1500)
	}
	b := []int32{0, 7, 1, 107, 108, -107, -108, 363, 364, 1131, 1132, -1131, -1132, 32767, 32768, -32768, -32769, 65535, 65536, math.MaxInt32, math.MinInt32, math.MinInt32 + 1}
	return b[r.Intn(len(b))]
}

func randString(r *rand.Rand) string {
	switch r.Intn(6) {
	case 0:
		return ""
	case 1:
		return refStdStrings[r.Intn(len(refStdStrings))]
	case 2:
		return strings.Repeat("Grüße ", r.Intn(60))
	}
	b := make([]rune, r.Intn(20))
	for i := range b {
		b[i] = rune(1 + r.Intn(300))
	}
	return string(b)
}

func c13Info(r *rand.Rand) *type1.FontInfo {
	fi := &type1.FontInfo{FontName: "Test", FontMatrix: matrix.Matrix{0.001, 0, 0, 0.001, 0, 0}, UnderlinePosition: -100, UnderlineThickness: 50}
	if r.Intn(2) == 0 {
		fi.FontName = randString(r)
	}
	fi.Version, fi.Notice, fi.Copyright = randString(r), randString(r), randString(r)
	fi.FullName, fi.FamilyName, fi.Weight = randString(r), randString(r), randString(r)
	switch r.Intn(4) {
	case 0:
		fi.ItalicAngle = float64(r.Intn(360) - 180)
	case 1:
		fi.ItalicAngle = float64(r.Intn(359999)-179999) / 1000
	case 2:
		fi.ItalicAngle = -12
	}
	fi.IsFixedPitch = r.Intn(2) == 0
	if r.Intn(2) == 0 {
		fi.UnderlinePosition = funit.Float64(dictReal(r))
	}
	if r.Intn(2) == 0 {
		fi.UnderlineThickness = funit.Float64(dictReal(r))
	}
	return fi
}

func c13Matrix(r *rand.Rand) matrix.Matrix {
	m := matrix.Matrix{0.001, 0, 0, 0.001, 0, 0}
	switch r.Intn(5) {
	case 0:
		m = matrix.Identity
	case 1:
		for i := range m {
			m[i] = dictReal(r)
		}
	case 2:
		s := 1 / float64(1+r.Intn(4000))
		m = matrix.Matrix{s, 0, 0, s, 0, 0}
	case 3:
		i := r.Intn(6)
		m[i] += []float64{1e-9, 1e-6, -1e-5, 1e-4, 1, -3}[r.Intn(6)]
	}
	return m
}

func c13Private(r *rand.Rand) *type1.PrivateDict {
	p := &type1.PrivateDict{BlueScale: 0.039625, BlueShift: 7, BlueFuzz: 1}
	blues := func(n int) []funit.Int16 {
		var res []funit.Int16
		for k := r.Intn(n/2 + 1); k > 0; k-- {
			res = append(res, funit.Int16(rnd16(r)), funit.Int16(rnd16(r)))
		}
		if r.Intn(2) == 0 {
			sort.Slice(res, func(i, j int) bool { return res[i] < res[j] })
		}
		return res
	}
	p.BlueValues = blues(14)
	p.OtherBlues = blues(10)
	switch r.Intn(3) {
	case 0:
		p.BlueScale = r.Float64()
	case 1:
		p.BlueScale = []float64{0, 1, 0.05, 0.0396, 0.039625, 1e-9}[r.Intn(6)]
	}
	if r.Intn(2) == 0 {
		p.BlueShift = dictInt(r)
	}
	if r.Intn(2) == 0 {
		p.BlueFuzz = dictInt(r)
	}
	if r.Intn(2) == 0 {
		p.StdHW = math.Abs(math.Mod(dictReal(r), 10000))
	}
	if r.Intn(2) == 0 {
		p.StdVW = float64(r.Intn(200))
	}
	if p.StdHW < 0x1p-1022 {
		p.StdHW = 0
	}
	p.ForceBold = r.Intn(2) == 0
	return p
}

// c13Widths assigns widths in one of several distributions.
func c13Widths(r *rand.Rand, n int) []float64 {
	res := make([]float64, n)
	mode := r.Intn(7)
	base := float64(r.Intn(2000))
	for i := range res {
		switch mode {
		case 0:
			res[i] = base
		case 1:
			res[i] = float64(r.Intn(1200))
		case 2:
			res[i] = float64(r.Intn(1200*65536)) / 65536
		case 3:
			res[i] = float64(r.Intn(65535) - 32767)
		case 4:
			res[i] = base + float64(r.Intn(2))*float64(r.Intn(5))/3
		case 5:
			res[i] = base + 0.25
		default:
			res[i] = float64(r.Intn(3)) * base
			if r.Intn(3) == 0 {
				res[i] = (r.Float64() - 0.5) * 65000
			}
		}
	}
	return res
}

func c13Names(r *rand.Rand, n int) []string {
	names := []string{".notdef"}
	seen := map[string]bool{".notdef": true}
	add := func(s string) {
		if s != "" && !seen[s] && len(names) < n {
			seen[s] = true
			names = append(names, s)
		}
	}
	mode := r.Intn(8)
	switch mode {
	case 0, 1: // the start of a predefined charset
		tab := [][]int{refISOAdobe, refExpertCharset, refExpertSubset}[r.Intn(3)]
		for _, s := range tab[1:] {
			add(refStdStrings[s])
		}
	case 2: // runs of standard strings
		for k := 0; len(names) < n && k < 100; k++ {
			s := r.Intn(391)
			for l := 1 + r.Intn(60); l > 0 && s < 391; l-- {
				add(refStdStrings[s])
				s++
			}
		}
	case 3:
		for k := 0; k < 2000 && len(names) < n; k++ {
			add(refStdStrings[r.Intn(391)])
		}
	case 4: // names of a predefined encoding
		m := []map[int]int{refStdEnc, refExpertEnc}[r.Intn(2)]
		for c := 0; c < 256; c++ {
			if s, ok := m[c]; ok && r.Intn(10) > 0 {
				add(refStdStrings[s])
			}
		}
	case 5:
		for k := 0; k < 3000 && len(names) < n; k++ {
			if r.Intn(2) == 0 {
				add(refStdStrings[r.Intn(391)])
			} else {
				add(fmt.Sprintf("c%d", r.Intn(5000)))
			}
		}
	}
	pre := []string{"glyph", "x", "éß", "\xff"}[r.Intn(4)]
	for i := 0; len(names) < n; i++ {
		add(fmt.Sprintf("%s%d", pre, i))
	}
	if r.Intn(4) == 0 {
		r.Shuffle(n-1, func(i, j int) { names[i+1], names[j+1] = names[j+1], names[i+1] })
	}
	return names
}

func c13Encoding(r *rand.Rand, names []string) []glyph.ID {
	n := len(names)
	enc := make([]glyph.ID, 256)
	pre := func(m map[int]int) {
		gid := map[string]int{}
		for i, s := range names {
			gid[s] = i
		}
		for c, s := range m {
			enc[c] = glyph.ID(gid[refStdStrings[s]])
		}
	}
	last := 0
	switch r.Intn(8) {
	case 0:
		return nil
	case 1:
		pre(refStdEnc)
		return enc
	case 2:
		pre(refExpertEnc)
		return enc
	case 3: // one long run
		c := r.Intn(256)
		for g := 1; g < n && c < 256; g++ {
			enc[c] = glyph.ID(g)
			last = g
			c++
		}
	case 4: // random codes
		perm := r.Perm(256)
		m := min(n-1, []int{0, 1, 5, 100, 250, 254, 255, 256}[r.Intn(8)])
		for g := 1; g <= m; g++ {
			enc[perm[g-1]] = glyph.ID(g)
		}
		last = m
	case 5: // runs in random order
		c := []int{}
		for x := 0; x < 256; {
			l := 1 + r.Intn(30)
			if r.Intn(3) > 0 {
				c = append(c, x|l<<16)
			}
			x += l
		}
		r.Shuffle(len(c), func(i, j int) { c[i], c[j] = c[j], c[i] })
		for _, x := range c {
			for k := 0; k < x>>16 && x&0xffff+k < 256 && last+1 < n; k++ {
				last++
				enc[x&0xffff+k] = glyph.ID(last)
			}
		}
	case 6: // descending
		for c := 255 - r.Intn(20); c >= 0 && last+1 < n; c -= 1 + r.Intn(2) {
			last++
			enc[c] = glyph.ID(last)
		}
	default: // ascending with gaps
		for c := r.Intn(40); c < 256 && last+1 < n; c += 1 + r.Intn(2)*r.Intn(4) {
			last++
			enc[c] = glyph.ID(last)
		}
	}
	if last > 0 && r.Intn(2) == 0 {
		// further codes for glyphs which are encoded
		k := []int{1, 3, 50, 256}[r.Intn(4)]
		for c := 0; c < 256 && k > 0; c++ {
			x := (c*37 + 11) % 256
			if enc[x] == 0 && r.Intn(3) > 0 {
				enc[x] = glyph.ID(1 + r.Intn(last))
				k--
			}
		}
	}
	return enc
}

// c13Segments counts the runs in an encoding.
func c13Segments(enc []glyph.ID) (segs, last int) {
	code := map[int]int{}
	for c := len(enc) - 1; c >= 0; c-- {
		if g := int(enc[c]); g > 0 {
			code[g] = c
			last = max(last, g)
		}
	}
	for g := 1; g <= last; g++ {
		if g == 1 || code[g] != code[g-1]+1 {
			segs++
		}
	}
	return
}

func c13Simple(r *rand.Rand, n int, outlines bool) *cff.Font {
	names := c13Names(r, n)
	f := &cff.Font{FontInfo: c13Info(r), Outlines: &cff.Outlines{}}
	f.FontInfo.FontMatrix = c13Matrix(r)
	g := &fontGen{r: r, frac: r.Intn(2) == 0}
	ws := c13Widths(r, n)
	for i, s := range names {
		gl := cff.NewGlyph(s, 0)
		if outlines {
			gl = g.cffGlyph(s)
		}
		gl.Width = ws[i]
		f.Glyphs = append(f.Glyphs, gl)
	}
	f.Private = []*type1.PrivateDict{c13Private(r)}
	f.FDSelect = func(glyph.ID) int { return 0 }
	f.Encoding = c13Encoding(r, names)
	return f
}

func c13CID(r *rand.Rand, n, nfd int, outlines bool) *cff.Font {
	f := &cff.Font{FontInfo: c13Info(r), Outlines: &cff.Outlines{}}
	f.FontInfo.FontMatrix = c13Matrix(r)
	g := &fontGen{r: r, frac: r.Intn(2) == 0}
	ws := c13Widths(r, n)
	for i := 0; i < n; i++ {
		gl := cff.NewGlyph("", 0)
		if outlines {
			gl = g.cffGlyph("")
		}
		gl.Width = ws[i]
		f.Glyphs = append(f.Glyphs, gl)
	}
	for k := 0; k < nfd; k++ {
		f.Private = append(f.Private, c13Private(r))
		f.FontMatrices = append(f.FontMatrices, c13Matrix(r))
	}
	sel := make([]int, n)
	run := []int{1, 2, 3, 4, 5, 50, n + 1}[r.Intn(7)]
	k := r.Intn(nfd)
	for i := range sel {
		if i%run == 0 && r.Intn(10) > 0 {
			k = r.Intn(nfd)
		}
		sel[i] = k
	}
	if r.Intn(4) == 0 {
		sel[n-1] = nfd - 1
	}
	f.FDSelect = func(gid glyph.ID) int { return sel[gid] }
	f.ROS = &cid.SystemInfo{Registry: []string{"Adobe", "", "x y"}[r.Intn(3)], Ordering: randString(r), Supplement: dictInt(r)}
	f.GIDToCID = make([]cid.CID, n)
	c := 0
	step := []int{0, 0, 1, 3, 40}[r.Intn(5)]
	rare := []int{1, 2, 10, 300}[r.Intn(4)]
	for i := 1; i < n; i++ {
		c++
		if r.Intn(rare) == 0 && step > 0 {
			c += r.Intn(step + 1)
		}
		c = min(c, 65535-(n-1-i))
		f.GIDToCID[i] = cid.CID(c)
	}
	if n > 1 {
		switch r.Intn(5) {
		case 0:
			r.Shuffle(n-1, func(i, j int) { f.GIDToCID[i+1], f.GIDToCID[j+1] = f.GIDToCID[j+1], f.GIDToCID[i+1] })
		case 1:
			for i, j := 1, n-1; i < j; i, j = i+1, j-1 {
				f.GIDToCID[i], f.GIDToCID[j] = f.GIDToCID[j], f.GIDToCID[i]
			}
		case 2:
			d := 65535 - c
			for i := 1; i < n; i++ {
				f.GIDToCID[i] += cid.CID(d)
			}
		}
	}
	return f
}

func eqMatrix(m matrix.Matrix, v []cffNum, def matrix.Matrix) bool {
	for i := range m {
		x := def[i]
		if len(v) == 6 {
			x = v[i].f
		}
		if !closeRel(m[i], x, 1e-8) {
			return false
		}
	}
	return true
}

func eqBlues(a []funit.Int16, b []float64) bool {
	if len(a) != len(b) {
		return false
	}
	for i := range a {
		if float64(a[i]) != b[i] {
			return false
		}
	}
	return true
}

func eqFloats(a, b []float64, tol float64) bool {
	if len(a) != len(b) {
		return false
	}
	for i := range a {
		if math.Abs(a[i]-b[i]) > tol {
			return false
		}
	}
	return true
}

// checkCFFRef compares the font with the bytes, as seen by the reference reader.
func checkCFFRef(w *W, f *cff.Font, data []byte) *cffRef {
	c, err := readCFFRef(data)
	if err != nil {
		w.Fail("structure of the emitted font", "%v", err)
		return nil
	}
	n := len(f.Glyphs)
	if !w.Check(len(c.cs) == n && c.cid == f.IsCIDKeyed(), "number of charstrings", "%d for %d glyphs, CID %v", len(c.cs), n, c.cid) {
		return nil
	}
	fi := f.FontInfo
	w.Check(string(c.names[0]) == fi.FontName, "font name", "%q for %q", c.names[0], fi.FontName)
	for _, x := range []struct {
		op  int
		val string
		nm  string
	}{{0, fi.Version, "Version"}, {1, fi.Notice, "Notice"}, {1200, fi.Copyright, "Copyright"}, {2, fi.FullName, "FullName"}, {3, fi.FamilyName, "FamilyName"}, {4, fi.Weight, "Weight"}} {
		got := ""
		if v := c.top[x.op]; len(v) == 1 {
			sid := int(v[0].f)
			if sid >= 391+len(c.strs) || sid < 0 {
				w.Fail("SID", "%s: SID %d", x.nm, sid)
				continue
			}
			got = c.str(sid)
		}
		w.Check(got == x.val, "emitted "+x.nm, "%q instead of %q", got, x.val)
	}
	w.Check((c.top.num(1201, 0) != 0) == fi.IsFixedPitch, "emitted isFixedPitch", "")
	w.Check(closeRel(c.top.num(1202, 0), fi.ItalicAngle, 1e-8), "emitted ItalicAngle", "%v instead of %v", c.top.num(1202, 0), fi.ItalicAngle)
	w.Check(closeRel(c.top.num(1203, -100), float64(fi.UnderlinePosition), 1e-8), "emitted UnderlinePosition", "%v instead of %v", c.top.num(1203, -100), fi.UnderlinePosition)
	w.Check(closeRel(c.top.num(1204, 50), float64(fi.UnderlineThickness), 1e-8), "emitted UnderlineThickness", "%v instead of %v", c.top.num(1204, 50), fi.UnderlineThickness)
	dfm := matrix.Matrix{0.001, 0, 0, 0.001, 0, 0}
	if c.cid {
		w.Check(eqMatrix(fi.FontMatrix, c.top[1207], matrix.Identity), "emitted FontMatrix", "%v instead of %v", c.top[1207], fi.FontMatrix)
		ros := c.top[1230]
		if w.Check(len(ros) == 3, "ROS", "%v", ros) {
			w.Check(c.str(int(ros[0].f)) == f.ROS.Registry && c.str(int(ros[1].f)) == f.ROS.Ordering && ros[2].f == float64(f.ROS.Supplement), "emitted ROS", "%v for %v", ros, f.ROS)
		}
	} else {
		w.Check(eqMatrix(fi.FontMatrix, c.top[1207], dfm), "emitted FontMatrix", "%v instead of %v", c.top[1207], fi.FontMatrix)
	}
	if !w.Check(len(c.fd) == len(f.Private), "number of Private DICTs", "%d instead of %d", len(c.fd), len(f.Private)) {
		return nil
	}
	for k, fd := range c.fd {
		p, q := f.Private[k], fd.priv
		if c.cid {
			w.Check(eqMatrix(f.FontMatrices[k], fd.dict[1207], dfm), "emitted FontMatrices", "%d: %v instead of %v", k, fd.dict[1207], f.FontMatrices[k])
		}
		w.Check(eqBlues(p.BlueValues, q.delta(6)), "emitted BlueValues", "%v instead of %v", q.delta(6), p.BlueValues)
		w.Check(eqBlues(p.OtherBlues, q.delta(7)), "emitted OtherBlues", "%v instead of %v", q.delta(7), p.OtherBlues)
		w.Check(closeRel(q.num(1209, 0.039625), p.BlueScale, 1e-8), "emitted BlueScale", "%v instead of %v", q.num(1209, 0.039625), p.BlueScale)
		w.Check(q.num(1210, 7) == float64(p.BlueShift), "emitted BlueShift", "%v instead of %v", q.num(1210, 7), p.BlueShift)
		w.Check(q.num(1211, 1) == float64(p.BlueFuzz), "emitted BlueFuzz", "%v instead of %v", q.num(1211, 1), p.BlueFuzz)
		w.Check(closeRel(q.num(10, 0), p.StdHW, 1e-8), "emitted StdHW", "%v instead of %v", q.num(10, 0), p.StdHW)
		w.Check(closeRel(q.num(11, 0), p.StdVW, 1e-8), "emitted StdVW", "%v instead of %v", q.num(11, 0), p.StdVW)
		w.Check((q.num(1214, 0) != 0) == p.ForceBold, "emitted ForceBold", "")
	}
	bad := 0
	for i := 0; i < n && bad < 3; i++ {
		if c.cid {
			if !w.Check(c.charset[i] == int(f.GIDToCID[i]), "emitted CID", "glyph %d: %d instead of %d", i, c.charset[i], f.GIDToCID[i]) ||
				!w.Check(c.fdsel[i] == f.FDSelect(glyph.ID(i)), "emitted FDSelect", "glyph %d: %d instead of %d", i, c.fdsel[i], f.FDSelect(glyph.ID(i))) {
				bad++
			}
		} else if c.charset[i] >= 391+len(c.strs) {
			w.Fail("SID", "glyph %d: SID %d", i, c.charset[i])
			bad++
		} else if s := c.str(c.charset[i]); !w.Check(s == f.Glyphs[i].Name, "emitted glyph name", "glyph %d: %q instead of %q", i, s, f.Glyphs[i].Name) {
			bad++
		}
		g := c.glyph(i)
		if !w.Check(g.bad == "" && g.odd == "", "emitted charstring", "glyph %d: %s%s", i, g.bad, g.odd) ||
			!w.Check(math.Abs(g.width-f.Glyphs[i].Width) <= 0x1p-16, "emitted width", "glyph %d: %v instead of %v", i, g.width, f.Glyphs[i].Width) {
			bad++
		}
	}
	if c.cid {
		mx := 0
		for _, x := range c.charset {
			mx = max(mx, x)
		}
		w.Check(c.top.num(1234, 8720) > float64(mx), "emitted CIDCount", "%v for CID %d", c.top.num(1234, 8720), mx)
	} else {
		want := c13StdEncoding(f)
		for code := range c.enc {
			w.Check(c.enc[code] == int(want[code]), "emitted encoding", "code %d: glyph %d instead of %d", code, c.enc[code], want[code])
		}
	}
	w.Count(fmt.Sprintf("charset format %d", c.csFormat), 1)
	if c.cid {
		w.Count(fmt.Sprintf("FDSelect format %d", c.fdFormat), 1)
	} else {
		w.Count(fmt.Sprintf("encoding format %d", c.encFormat), 1)
	}
	for k, v := range c.offSizes {
		w.Count(fmt.Sprintf("INDEX offSize %d", k), int64(v))
	}
	return c
}

func c13StdEncoding(f *cff.Font) []glyph.ID {
	if len(f.Encoding) > 0 {
		return f.Encoding
	}
	gid := map[string]int{}
	for i, g := range f.Glyphs {
		gid[g.Name] = i
	}
	enc := make([]glyph.ID, 256)
	for c, s := range refStdEnc {
		enc[c] = glyph.ID(gid[refStdStrings[s]])
	}
	return enc
}

// checkCFFRead compares two CFF fonts field by field.
func checkCFFRead(w *W, f, g *cff.Font) {
	w.Check(len(g.Glyphs) == len(f.Glyphs), "number of glyphs", "%d instead of %d", len(g.Glyphs), len(f.Glyphs))
	if len(g.Glyphs) != len(f.Glyphs) {
		return
	}
	if d := diffVals(f.FontInfo, g.FontInfo, 1e-8); d != "" {
		w.Fail("FontInfo read back", "%s", d)
	}
	if d := diffVals(f.Private, g.Private, 1e-8); d != "" {
		w.Fail("Private read back", "%s", d)
	}
	if d := diffVals(f.FontMatrices, g.FontMatrices, 1e-8); d != "" {
		w.Fail("FontMatrices read back", "%s", d)
	}
	if d := diffVals(f.ROS, g.ROS, 0); d != "" {
		w.Fail("ROS read back", "%s", d)
	}
	if d := diffVals(f.GIDToCID, g.GIDToCID, 0); d != "" {
		w.Fail("GIDToCID read back", "%s", d)
	}
	if f.IsCIDKeyed() {
		w.Check(len(g.Encoding) == 0, "Encoding of a CID font", "")
	} else if d := diffVals(c13StdEncoding(f), g.Encoding, 0); d != "" {
		w.Fail("Encoding read back", "%s", d)
	}
	for i := range f.Glyphs {
		if g.FDSelect(glyph.ID(i)) != f.FDSelect(glyph.ID(i)) {
			w.Fail("FDSelect read back", "glyph %d: %d instead of %d", i, g.FDSelect(glyph.ID(i)), f.FDSelect(glyph.ID(i)))
			break
		}
	}
	for i := range f.Glyphs {
		a, b := f.Glyphs[i], g.Glyphs[i]
		name := a.Name
		if f.IsCIDKeyed() {
			name = ""
		}
		if !w.Check(b.Name == name, "glyph name read back", "glyph %d: %q instead of %q", i, b.Name, name) ||
			!w.Check(math.Abs(a.Width-b.Width) <= 0x1p-16, "width read back", "glyph %d: %v instead of %v", i, b.Width, a.Width) {
			break
		}
	}
}

func c13Round(w *W, f *cff.Font, desc string) {
	fi := f.FontInfo
	var pd string
	for _, p := range f.Private[:min(3, len(f.Private))] {
		pd += fmt.Sprintf(" %+v", *p)
	}
	var gn string
	for i, g := range f.Glyphs[:min(60, len(f.Glyphs))] {
		gn += fmt.Sprintf(" %d:%q/%v", i, g.Name, g.Width)
		if f.IsCIDKeyed() {
			gn += fmt.Sprintf("/%d/%d", f.GIDToCID[i], f.FDSelect(glyph.ID(i)))
		}
	}
	w.Eval(fmt.Sprintf("%s %d glyphs info %+v private%s matrices %v encoding %v glyphs%s", desc, len(f.Glyphs), *fi, pd, f.FontMatrices[:min(3, len(f.FontMatrices))], f.Encoding, gn))
	var buf bytes.Buffer
	var err error
	if !w.NoPanic("cff.Font.Write", func() { err = f.Write(&buf) }) {
		return
	}
	if err != nil {
		segs, last := c13Segments(f.Encoding)
		std := map[string]bool{}
		for _, s := range refStdStrings {
			std[s] = true
		}
		custom := 0
		for _, g := range f.Glyphs {
			if !std[g.Name] {
				custom++
			}
		}
		if segs > 255 && last > 255 || !f.IsCIDKeyed() && custom > 65536-391 {
			w.Count("not representable", 1)
			return
		}
		w.Fail("Write fails", "%v", err)
		return
	}
	checkCFFRef(w, f, buf.Bytes())
	var g *cff.Font
	if !w.NoPanic("cff.Read", func() { g, err = cff.Read(bytes.NewReader(buf.Bytes())) }) {
		return
	}
	if err != nil {
		w.Fail("Read fails on the output of Write", "%v", err)
		return
	}
	checkCFFRead(w, f, g)
}

// asmNumber encodes a number in a random form; the value as it has to be
// understood is returned as well.
func asmNumber(r *rand.Rand, ints bool) ([]byte, float64) {
	switch r.Intn(4) {
	case 0:
		v := dictInt(r)
		return asmInt(int(v), r.Intn(6)), float64(v)
	case 1:
		v := r.Intn(2000) - 1000
		return asmInt(v, 0), float64(v)
	}
	if ints {
		v := r.Intn(64000) - 32000
		return asmInt(v, r.Intn(6)), float64(v)
	}
	s := randDecimal(r)
	v, err := strconv.ParseFloat(s, 64)
	if err != nil || v != 0 && math.Abs(v) < 0x1p-1022 {
		s, v = "0.5", 0.5
	}
	return asmReal(s), v
}

// randDecimal writes a number in one of the forms allowed for reals.
func randDecimal(r *rand.Rand) string {
	s := ""
	if r.Intn(3) == 0 {
		s = "-"
	}
	digits := func(n int) string {
		d := ""
		for ; n > 0; n-- {
			d += string(rune('0' + r.Intn(10)))
		}
		return d
	}
	switch r.Intn(5) {
	case 0:
		s += digits(1 + r.Intn(9))
	case 1:
		s += digits(1+r.Intn(5)) + "." + digits(1+r.Intn(6))
	case 2:
		s += "." + digits(1+r.Intn(9))
	case 3:
		s += digits(1+r.Intn(5)) + "."
	default:
		s += digits(1+r.Intn(3)) + "." + digits(r.Intn(4))
	}
	if r.Intn(3) == 0 {
		s += "E"
		if r.Intn(2) == 0 {
			s += "-"
		}
		s += fmt.Sprint(r.Intn(40))
	}
	return s
}

// c13Assembled compares cff.Read with the reference reader on fonts which
// use all formats and operand forms.
func c13Assembled(w *W, r *rand.Rand) {
	a := &asmCFF{name: randString(r), top: map[int][]byte{}, hdrPad: r.Intn(3) * r.Intn(6), offSize: 1 + r.Intn(4)}
	isCID := r.Intn(2) == 0
	n := 1 + r.Intn(60)
	pre := 0
	cs := r.Intn(6)
	if cs == 0 && !isCID {
		pre = 1 + r.Intn(3)
		n = 1 + r.Intn([]int{229, 166, 87}[pre-1])
		if r.Intn(3) == 0 {
			n = []int{229, 166, 87}[pre-1]
		}
		a.csPre = pre - 1
	}
	for k := r.Intn(30); k > 0; k-- {
		a.strs = append(a.strs, []byte(fmt.Sprintf("s%d", k)))
	}
	sid := func() []byte { return asmInt(r.Intn(391+len(a.strs)), []int{0, 3, 5}[r.Intn(3)]) }
	for _, op := range []int{0, 1, 1200, 2, 3, 4} {
		if r.Intn(2) == 0 {
			a.top[op] = sid()
		}
	}
	num := func(d map[int][]byte, op int, ints bool) {
		if r.Intn(2) == 0 {
			b, _ := asmNumber(r, ints)
			d[op] = b
		}
	}
	num(a.top, 1203, false)
	num(a.top, 1204, false)
	if r.Intn(2) == 0 {
		a.top[1202] = asmReal(fmt.Sprintf("%.3f", r.Float64()*300-150))
	} else if r.Intn(2) == 0 {
		a.top[1202] = asmInt(r.Intn(300)-150, r.Intn(6))
	}
	if r.Intn(3) == 0 {
		a.top[1201] = asmInt(r.Intn(2), r.Intn(6))
	}
	if r.Intn(4) == 0 {
		a.top[1206] = asmInt(2, r.Intn(6))
	}
	if r.Intn(4) == 0 { // FontBBox, UniqueID, XUID
		a.top[5] = append(append(asmInt(-10, 0), asmInt(-200, 0)...), append(asmInt(1000, 0), asmReal("900.5")...)...)
		a.top[13] = asmInt(4000000, 0)
		a.top[14] = append(asmInt(1, 0), asmInt(2, 0)...)
	}
	mat := func(d map[int][]byte) {
		if r.Intn(2) == 0 {
			var b []byte
			for k := 0; k < 6; k++ {
				x, _ := asmNumber(r, false)
				if r.Intn(2) == 0 {
					x = asmInt(k%2, 0)
				}
				b = append(b, x...)
			}
			d[1207] = b
		}
	}
	mat(a.top)
	npriv := 1
	if isCID {
		npriv = 1 + r.Intn(5)*r.Intn(5)
		a.top[1230] = append(append(sid(), sid()...), asmInt(int(dictInt(r)), r.Intn(6))...)
		a.fdDicts = []map[int][]byte{}
	}
	for k := 0; k < npriv; k++ {
		p := map[int][]byte{}
		for _, op := range []int{6, 7} {
			if r.Intn(2) == 0 {
				var b []byte
				sum := 0
				for j := 0; j < 2*(1+r.Intn(5)); j++ {
					d := r.Intn(600) - 100
					sum += d
					if r.Intn(6) == 0 {
						b = append(b, asmReal(fmt.Sprintf("%d", d))...)
					} else {
						b = append(b, asmInt(d, r.Intn(6))...)
					}
				}
				p[op] = b
			}
		}
		if r.Intn(2) == 0 {
			p[1209] = asmReal(fmt.Sprintf("%.6f", r.Float64()))
		}
		num(p, 1210, true)
		num(p, 1211, true)
		if r.Intn(8) == 0 {
			p[1210] = asmReal(fmt.Sprint(r.Intn(20)))
		}
		if r.Intn(2) == 0 {
			p[10] = asmReal(fmt.Sprintf("%.2f", r.Float64()*500))
		}
		if r.Intn(2) == 0 {
			p[11] = asmInt(r.Intn(500), r.Intn(6))
		}
		if r.Intn(3) == 0 {
			p[1214] = asmInt(1, 0)
		}
		switch r.Intn(3) {
		case 0:
			p[20] = asmInt(r.Intn(2000), r.Intn(6))
			p[21] = asmInt(r.Intn(2000), r.Intn(6))
		case 1:
			p[20] = asmReal(fmt.Sprintf("%.4f", r.Float64()*1000))
			p[21] = asmReal(fmt.Sprintf("%.4f", r.Float64()*1000))
		}
		a.privs = append(a.privs, p)
		a.subrs = append(a.subrs, nil)
		if r.Intn(2) == 0 {
			a.subrs[k] = [][]byte{{11}, {139, 11}}
		}
		if isCID {
			d := map[int][]byte{}
			mat(d)
			if r.Intn(3) == 0 {
				d[1238] = sid() // FontName
			}
			a.fdDicts = append(a.fdDicts, d)
		}
	}
	// charstrings: an optional width only
	for i := 0; i < n; i++ {
		switch r.Intn(4) {
		case 0:
			a.cs = append(a.cs, []byte{14})
		case 1:
			v := r.Intn(65536*1500) - 65536*500
			a.cs = append(a.cs, []byte{255, byte(v >> 24), byte(v >> 16), byte(v >> 8), byte(v), 14})
		default:
			x := asmInt(r.Intn(3000)-1000, 0)
			a.cs = append(a.cs, append(x, 14))
		}
	}
	// charset
	var charset []int
	if pre > 0 {
		charset = [][]int{refISOAdobe, refExpertCharset, refExpertSubset}[pre-1][:n]
	} else {
		limit := 391 + len(a.strs)
		if isCID {
			limit = 65536
		}
		seen := map[int]bool{0: true}
		charset = []int{0}
		cur := 0
		for len(charset) < n {
			cur++
			if r.Intn(8) == 0 {
				cur = 1 + r.Intn(limit-1)
			}
			if cur < limit && !seen[cur] {
				seen[cur] = true
				charset = append(charset, cur)
			}
		}
		f := r.Intn(3)
		a.charset = []byte{byte(f)}
		for i := 1; i < n; {
			run := 1
			for f > 0 && i+run < n && charset[i+run] == charset[i]+run && run < 256 && r.Intn(40) > 0 {
				run++
			}
			a.charset = p16(a.charset, charset[i])
			switch f {
			case 1:
				a.charset = append(a.charset, byte(run-1))
			case 2:
				a.charset = p16(a.charset, run-1)
			}
			i += run
		}
	}
	if isCID {
		sel := make([]int, n)
		for i := range sel {
			sel[i] = r.Intn(npriv)
			if i > 0 && r.Intn(2) == 0 {
				sel[i] = sel[i-1]
			}
		}
		if r.Intn(2) == 0 {
			a.fdsel = []byte{0}
			for _, x := range sel {
				a.fdsel = append(a.fdsel, byte(x))
			}
		} else {
			a.fdsel = []byte{3, 0, 0}
			k := 0
			for i, x := range sel {
				if i == 0 || x != sel[i-1] || r.Intn(10) == 0 {
					a.fdsel = append(p16(a.fdsel, i), byte(x))
					k++
				}
			}
			a.fdsel = p16(a.fdsel, n)
			put16(a.fdsel, 1, k)
		}
	} else {
		switch r.Intn(4) {
		case 0:
		case 1:
			a.encPre = 1
		default:
			perm := r.Perm(256)
			m := min(n-1, r.Intn(256))
			var free []int
			if r.Intn(2) == 0 {
				a.enc = []byte{0, byte(m)}
				for i := 0; i < m; i++ {
					a.enc = append(a.enc, byte(perm[i]))
				}
				free = perm[m:]
			} else {
				a.enc = []byte{1, 0}
				g, c, k := 1, r.Intn(20), 0
				for g <= m && c < 256 && k < 255 {
					l := min(1+r.Intn(9), m-g+1, 256-c)
					a.enc = append(a.enc, byte(c), byte(l-1))
					g += l
					c += l
					k++
					for x := r.Intn(4); x > 0 && c < 256; x-- {
						free = append(free, c)
						c++
					}
				}
				for ; c < 256; c++ {
					free = append(free, c)
				}
				a.enc[1] = byte(k)
				m = g - 1
			}
			if m > 0 && len(free) > 0 && r.Intn(2) == 0 {
				a.enc[0] |= 128
				k := min(1+r.Intn(20), len(free), 255)
				a.enc = append(a.enc, byte(k))
				for i := 0; i < k; i++ {
					a.enc = append(a.enc, byte(free[i]))
					a.enc = p16(a.enc, charset[1+r.Intn(m)])
				}
			}
		}
	}
	if r.Intn(2) == 0 {
		a.order = r.Perm(5 + 2*len(a.privs))
	}
	if r.Intn(2) == 0 {
		a.opsOrder = func(ops []int) { r.Shuffle(len(ops), func(i, j int) { ops[i], ops[j] = ops[j], ops[i] }) }
		// the lengths do not depend on the order
	}
	data := a.build()
	w.Input(data)
	c, err := readCFFRef(data)
	if err != nil {
		panic("harness: " + err.Error())
	}
	var f *cff.Font
	if !w.NoPanic("cff.Read", func() { f, err = cff.Read(bytes.NewReader(data)) }) {
		return
	}
	if err != nil {
		w.Fail("Read rejects a valid font", "%v", err)
		return
	}
	// expected values are taken from the reference reader
	checkRefAgainst(w, c, f)
}

func checkRefAgainst(w *W, c *cffRef, f *cff.Font) {
	if !w.Check(len(f.Glyphs) == len(c.cs) && f.IsCIDKeyed() == c.cid && len(f.Private) == len(c.fd), "assembled: shape", "%d glyphs, %d private", len(f.Glyphs), len(f.Private)) {
		return
	}
	fi := f.FontInfo
	w.Check(fi.FontName == string(c.names[0]), "assembled: FontName", "%q", fi.FontName)
	for _, x := range []struct {
		op  int
		val string
		nm  string
	}{{0, fi.Version, "Version"}, {1, fi.Notice, "Notice"}, {1200, fi.Copyright, "Copyright"}, {2, fi.FullName, "FullName"}, {3, fi.FamilyName, "FamilyName"}, {4, fi.Weight, "Weight"}} {
		want := ""
		if v := c.top[x.op]; len(v) == 1 {
			want = c.str(int(v[0].f))
		}
		w.Check(want == x.val, "assembled: "+x.nm, "%q instead of %q", x.val, want)
	}
	w.Check((c.top.num(1201, 0) != 0) == fi.IsFixedPitch, "assembled: isFixedPitch", "")
	w.Check(closeRel(c.top.num(1202, 0), fi.ItalicAngle, 1e-8), "assembled: ItalicAngle", "%v instead of %v", fi.ItalicAngle, c.top.num(1202, 0))
	w.Check(closeRel(c.top.num(1203, -100), float64(fi.UnderlinePosition), 1e-8), "assembled: UnderlinePosition", "%v instead of %v", fi.UnderlinePosition, c.top.num(1203, -100))
	w.Check(closeRel(c.top.num(1204, 50), float64(fi.UnderlineThickness), 1e-8), "assembled: UnderlineThickness", "%v instead of %v", fi.UnderlineThickness, c.top.num(1204, 50))
	dfm := matrix.Matrix{0.001, 0, 0, 0.001, 0, 0}
	if c.cid {
		w.Check(eqMatrix(fi.FontMatrix, c.top[1207], matrix.Identity), "assembled: FontMatrix", "%v instead of %v", fi.FontMatrix, c.top[1207])
		ros := c.top[1230]
		w.Check(c.str(int(ros[0].f)) == f.ROS.Registry && c.str(int(ros[1].f)) == f.ROS.Ordering && ros[2].f == float64(f.ROS.Supplement), "assembled: ROS", "%v for %v", f.ROS, ros)
	} else {
		w.Check(eqMatrix(fi.FontMatrix, c.top[1207], dfm), "assembled: FontMatrix", "%v instead of %v", fi.FontMatrix, c.top[1207])
	}
	for k, fd := range c.fd {
		p, q := f.Private[k], fd.priv
		if c.cid {
			w.Check(eqMatrix(f.FontMatrices[k], fd.dict[1207], dfm), "assembled: FontMatrices", "%d: %v instead of %v", k, f.FontMatrices[k], fd.dict[1207])
		}
		w.Check(eqBlues(p.BlueValues, q.delta(6)), "assembled: BlueValues", "%v instead of %v", p.BlueValues, q.delta(6))
		w.Check(eqBlues(p.OtherBlues, q.delta(7)), "assembled: OtherBlues", "%v instead of %v", p.OtherBlues, q.delta(7))
		w.Check(closeRel(q.num(1209, 0.039625), p.BlueScale, 1e-8), "assembled: BlueScale", "%v instead of %v", p.BlueScale, q.num(1209, 0.039625))
		w.Check(q.num(1210, 7) == float64(p.BlueShift), "assembled: BlueShift", "%v instead of %v", p.BlueShift, q.num(1210, 7))
		w.Check(q.num(1211, 1) == float64(p.BlueFuzz), "assembled: BlueFuzz", "%v instead of %v", p.BlueFuzz, q.num(1211, 1))
		w.Check(closeRel(q.num(10, 0), p.StdHW, 1e-8), "assembled: StdHW", "%v instead of %v", p.StdHW, q.num(10, 0))
		w.Check(closeRel(q.num(11, 0), p.StdVW, 1e-8), "assembled: StdVW", "%v instead of %v", p.StdVW, q.num(11, 0))
		w.Check((q.num(1214, 0) != 0) == p.ForceBold, "assembled: ForceBold", "")
	}
	for i := range f.Glyphs {
		if c.cid {
			w.Check(int(f.GIDToCID[i]) == c.charset[i], "assembled: CID", "glyph %d: %d instead of %d (charset format %d)", i, f.GIDToCID[i], c.charset[i], c.csFormat)
			w.Check(f.FDSelect(glyph.ID(i)) == c.fdsel[i], "assembled: FDSelect", "glyph %d: %d instead of %d (format %d)", i, f.FDSelect(glyph.ID(i)), c.fdsel[i], c.fdFormat)
		} else {
			w.Check(f.Glyphs[i].Name == c.str(c.charset[i]), "assembled: glyph name", "glyph %d: %q instead of %q (charset format %d)", i, f.Glyphs[i].Name, c.str(c.charset[i]), c.csFormat)
		}
		g := c.glyph(i)
		w.Check(math.Abs(g.width-f.Glyphs[i].Width) <= 0x1p-16, "assembled: width", "glyph %d: %v instead of %v", i, f.Glyphs[i].Width, g.width)
	}
	if !c.cid {
		if w.Check(len(f.Encoding) == 256, "assembled: encoding length", "%d", len(f.Encoding)) {
			for code := range c.enc {
				w.Check(int(f.Encoding[code]) == c.enc[code], "assembled: encoding", "code %d: glyph %d instead of %d (format %d)", code, f.Encoding[code], c.enc[code], c.encFormat)
			}
		}
	}
	w.Count(fmt.Sprintf("assembled charset %d", c.csFormat), 1)
}

func c13(w *W) {
	w.Each("simple", w.Scale(8000, 60000), func(i int, r *rand.Rand) {
		n := []int{1, 2, 3, 10, 30}[r.Intn(5)]
		n += r.Intn(n)
		c13Round(w, c13Simple(r, n, true), "simple")
	})
	w.Each("names", w.Scale(3000, 20000), func(i int, r *rand.Rand) {
		n := []int{100, 150, 255, 256, 257, 258, 300, 400}[r.Intn(8)]
		c13Round(w, c13Simple(r, n, false), "simple")
	})
	w.Each("cid", w.Scale(5000, 40000), func(i int, r *rand.Rand) {
		n := []int{1, 2, 3, 10, 30}[r.Intn(5)]
		n += r.Intn(n)
		c13Round(w, c13CID(r, n, 1+r.Intn(6), true), "CID")
	})
	w.Each("fdselect", w.Scale(2000, 10000), func(i int, r *rand.Rand) {
		n := []int{100, 255, 256, 257, 300, 700}[r.Intn(6)]
		c13Round(w, c13CID(r, n, []int{1, 2, 5, 255, 256}[r.Intn(5)], false), "CID")
	})
	w.Each("assembled", w.Scale(25000, 150000), func(i int, r *rand.Rand) { c13Assembled(w, r) })
	w.Each("large", w.Scale(16, 120), func(i int, r *rand.Rand) {
		n := []int{1000, 5000, 20000, 32768, 65000, 65534, 65535}[(i/2)%7]
		if i%2 == 0 {
			c13Round(w, c13Simple(r, n, false), "simple")
		} else {
			c13Round(w, c13CID(r, n, 1+r.Intn(20), false), "CID")
		}
	})
	// more than 64 KiB and (thorough only) more than 16 MiB of charstrings
	w.Each("size", w.Scale(8, 24), func(i int, r *rand.Rand) {
		n := 3000
		if w.thorough && i == 0 {
			n = 65535
		}
		f := c13CID(r, n, 3, false)
		for k, g := range f.Glyphs {
			if w.thorough && i == 0 {
				for j := 0; j < 60; j++ {
					g.MoveTo(float64(j)+0.25, float64(k%100)+0.125)
				}
			} else {
				for j := 0; j < r.Intn(20); j++ {
					g.MoveTo(float64(r.Intn(5000)), float64(r.Intn(5000)))
				}
			}
		}
		c13Round(w, f, "size")
	})
}
