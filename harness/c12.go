package main

import (
	"bytes"
	"encoding/binary"
	"fmt"
	"math"
	"math/rand"
	"time"

	"seehuhn.de/go/geom/matrix"
	"seehuhn.de/go/postscript/funit"

	"seehuhn.de/go/sfnt"
	"seehuhn.de/go/sfnt/cff"
	"seehuhn.de/go/sfnt/glyf"
	"seehuhn.de/go/sfnt/glyph"
	"seehuhn.de/go/sfnt/head"
	"seehuhn.de/go/sfnt/hmtx"
	"seehuhn.de/go/sfnt/maxp"
	"seehuhn.de/go/sfnt/os2"
	"seehuhn.de/go/sfnt/post"
)

func init() { register("C12", c12) }

func s16(b []byte, pos int) int { return int(int16(binary.BigEndian.Uint16(b[pos:]))) }

func clampInt16(x int) int { return max(-32768, min(32767, x)) }

// checkHmtx checks the hhea and hmtx tables against their definitions.
func checkHmtx(w *W, hhea, hm []byte, width, lsb []int, box []funit.Rect16) {
	n := len(width)
	if !w.Check(len(hhea) == 36, "hhea length", "%d", len(hhea)) {
		return
	}
	w.Check(binary.BigEndian.Uint32(hhea) == 0x10000, "hhea version", "%x", hhea[:4])
	nl := u16(hhea, 34)
	if !w.Check(nl >= 1 && nl <= n && len(hm) == 4*nl+2*(n-nl), "numberOfHMetrics", "%d long metrics, %d glyphs, %d bytes", nl, n, len(hm)) {
		return
	}
	for i := 0; i < n; i++ {
		p := 4 * i
		a := s16(hm, 4*min(i, nl-1))
		if i >= nl {
			p = 4*nl + 2*(i-nl) - 2
		}
		w.Check(a == width[i], "hmtx advance", "glyph %d of %d (%d long metrics): %d instead of %d", i, n, nl, a, width[i])
		l := s16(hm, p+2)
		w.Check(l == lsb[i], "hmtx left side bearing", "glyph %d of %d: %d instead of %d", i, n, l, lsb[i])
	}
	mx := 0
	any := false
	for _, x := range width {
		if x >= 0 {
			any = true
		}
		mx = max(mx, x)
	}
	if any {
		w.Check(s16(hhea, 10) == mx, "advanceWidthMax", "%d instead of %d", s16(hhea, 10), mx)
	}
	if box == nil {
		return
	}
	first := true
	var ml, mr, xe int
	for i, b := range box {
		if b == (funit.Rect16{}) {
			continue
		}
		ext := lsb[i] + int(b.URx) - int(b.LLx)
		rsb := clampInt16(width[i] - ext)
		ext = clampInt16(ext)
		if first {
			ml, mr, xe = lsb[i], rsb, ext
			first = false
		} else {
			ml, mr, xe = min(ml, lsb[i]), min(mr, rsb), max(xe, ext)
		}
	}
	w.Check(s16(hhea, 12) == ml, "minLeftSideBearing", "%d instead of %d", s16(hhea, 12), ml)
	w.Check(s16(hhea, 14) == mr, "minRightSideBearing", "%d instead of %d", s16(hhea, 14), mr)
	w.Check(s16(hhea, 16) == xe, "xMaxExtent", "%d instead of %d", s16(hhea, 16), xe)
}

// rnd16 is a signed 16-bit number with frequent extremes.
func rnd16(r *rand.Rand) int {
	switch r.Intn(6) {
	case 0:
		return []int{-32768, -32767, -1, 0, 1, 32766, 32767}[r.Intn(7)]
	case 1:
		return r.Intn(65536) - 32768
	}
	return r.Intn(1200) - 100
}

func c12Hmtx(w *W, r *rand.Rand, n, tail int) {
	info := &hmtx.Info{Ascent: funit.Int16(rnd16(r)), Descent: funit.Int16(rnd16(r)), LineGap: funit.Int16(rnd16(r)), CaretOffset: funit.Int16(rnd16(r))}
	var width, lsb []int
	nonneg := r.Intn(3) > 0
	for i := 0; i < n; i++ {
		x := rnd16(r)
		if nonneg {
			x = max(x, -x-1)
		}
		if i > n-tail {
			x = width[i-1]
		}
		if i == n-tail && i > 0 && x == width[i-1] {
			x ^= 1
		}
		width = append(width, x)
		info.Widths = append(info.Widths, funit.Int16(x))
	}
	mode := r.Intn(3) // 0 LSB and extents, 1 extents only, 2 LSB only
	for i := 0; i < n; i++ {
		var b funit.Rect16
		if r.Intn(4) > 0 {
			b = funit.Rect16{LLx: funit.Int16(rnd16(r)), LLy: funit.Int16(rnd16(r)), URx: funit.Int16(rnd16(r)), URy: funit.Int16(rnd16(r))}
			b.LLx, b.URx = min(b.LLx, b.URx), max(b.LLx, b.URx)
			b.LLy, b.URy = min(b.LLy, b.URy), max(b.LLy, b.URy)
		}
		l := rnd16(r)
		if mode != 2 {
			info.GlyphExtents = append(info.GlyphExtents, b)
		}
		if mode != 1 {
			info.LSB = append(info.LSB, funit.Int16(l))
		} else {
			l = int(b.LLx)
		}
		lsb = append(lsb, l)
	}
	ang := 0.0
	switch r.Intn(5) {
	case 0:
		ang = (r.Float64() - 0.5) * 2 * math.Pi
	case 1:
		ang = (r.Float64() - 0.5) * 0.6
	case 2:
		ang = -float64(r.Intn(45)) / 180 * math.Pi
	case 3:
		ang = math.Ldexp(r.Float64()-0.5, -r.Intn(40))
	}
	info.CaretAngle = ang
	if n <= 40 {
		w.Eval(fmt.Sprintf("hmtx %+v", info))
	} else {
		w.Eval(fmt.Sprintf("hmtx %d glyphs tail %d %v", n, tail, info.Widths[:40]))
	}
	hhea, hm := info.Encode()
	checkHmtx(w, hhea, hm, width, lsb, info.GlyphExtents)
	out, err := hmtx.Decode(hhea, hm)
	if !w.Check(err == nil, "hmtx decode", "%v", err) {
		return
	}
	w.Check(out.Ascent == info.Ascent && out.Descent == info.Descent && out.LineGap == info.LineGap && out.CaretOffset == info.CaretOffset, "hhea fields", "%+v instead of %+v", out, info)
	if !w.Check(len(out.Widths) == n && len(out.LSB) == n, "hmtx length", "%d widths, %d bearings for %d glyphs", len(out.Widths), len(out.LSB), n) {
		return
	}
	for i := range width {
		if !w.Check(int(out.Widths[i]) == width[i], "decoded width", "glyph %d: %d instead of %d", i, out.Widths[i], width[i]) {
			break
		}
		if !w.Check(int(out.LSB[i]) == lsb[i], "decoded bearing", "glyph %d: %d instead of %d", i, out.LSB[i], lsb[i]) {
			break
		}
	}
	// rise/run are 16-bit numbers: the angle is a best approximation
	d := math.Abs(math.Mod(out.CaretAngle-ang+5*math.Pi, 2*math.Pi) - math.Pi)
	w.Check(d < 6e-5, "caret angle", "%g instead of %g (rise %d, run %d)", out.CaretAngle, ang, s16(hhea, 18), s16(hhea, 20))
	// a second pass keeps rise and run exactly
	hhea2, hm2 := out.Encode()
	d2 := float64(s16(hhea2, 18))*float64(s16(hhea, 20)) - float64(s16(hhea2, 20))*float64(s16(hhea, 18))
	w.Check(d2 == 0 && sgn(s16(hhea2, 18)) == sgn(s16(hhea, 18)) && sgn(s16(hhea2, 20)) == sgn(s16(hhea, 20)), "caret slope fixed point", "rise/run %d/%d instead of %d/%d", s16(hhea2, 18), s16(hhea2, 20), s16(hhea, 18), s16(hhea, 20))
	w.Check(bytes.Equal(hm, hm2), "hmtx fixed point", "hmtx changes")
}

func sgn(x int) int {
	switch {
	case x < 0:
		return -1
	case x > 0:
		return 1
	}
	return 0
}

func c12Slope(w *W, r *rand.Rand) {
	rise, run := rnd16(r), rnd16(r)
	switch r.Intn(5) {
	case 0:
		rise, run = 1, 0
	case 1:
		rise, run = 1000+r.Intn(4000), r.Intn(1000)
	case 2:
		rise, run = r.Intn(65535)-32767, r.Intn(65535)-32767
	}
	rise, run = max(rise, -32767), max(run, -32767)
	if rise == 0 && run == 0 {
		return
	}
	b := make([]byte, 36)
	b[1] = 1
	put16(b, 18, rise&0xFFFF)
	put16(b, 20, run&0xFFFF)
	w.Input(b)
	info, err := hmtx.Decode(b, nil)
	if !w.Check(err == nil, "hhea decode", "%v", err) {
		return
	}
	c, _ := info.Encode()
	p, q := s16(c, 18), s16(c, 20)
	w.Check(rise*q == run*p && sgn(rise) == sgn(p) && sgn(run) == sgn(q), "caret slope", "rise/run %d/%d becomes %d/%d", rise, run, p, q)
}

func c12Head(w *W, r *rand.Rand) {
	bl := func() bool { return r.Intn(2) == 0 }
	i := &head.Info{
		FontRevision: head.Version(r.Uint32()), HasYBaseAt0: bl(), HasXBaseAt0: bl(), IsNonlinear: bl(),
		UnitsPerEm: uint16(r.Intn(65536)), IsBold: bl(), IsItalic: bl(), HasShadow: bl(), IsCondensed: bl(), IsExtended: bl(),
		LowestRecPPEM: uint16(r.Intn(65536)), LocaFormat: int16(r.Intn(2)),
		FontBBox: funit.Rect16{LLx: funit.Int16(rnd16(r)), LLy: funit.Int16(rnd16(r)), URx: funit.Int16(rnd16(r)), URy: funit.Int16(rnd16(r))},
	}
	tm := func() time.Time {
		switch r.Intn(4) {
		case 0:
			return time.Time{}
		case 1:
			return time.Unix(int64(r.Uint64()>>20)-1<<43, 0).UTC()
		case 2:
			return time.Unix(r.Int63n(1<<33)-1<<31, 0).In(time.FixedZone("x", r.Intn(20000)-10000))
		}
		return time.Date(1904, 1, 1, 0, 0, 1+r.Intn(100), 0, time.UTC)
	}
	i.Created, i.Modified = tm(), tm()
	w.Eval(fmt.Sprintf("head %+v", i))
	b := i.Encode()
	if !w.Check(len(b) == 54, "head length", "%d", len(b)) {
		return
	}
	// byte level definition
	sec := func(t time.Time) int64 {
		if t.IsZero() {
			return 0
		}
		return t.Unix() + 2082844800
	}
	be := binary.BigEndian
	w.Check(be.Uint32(b) == 0x10000 && be.Uint32(b[12:]) == 0x5F0F3CF5, "head constants", "%x", b)
	w.Check(be.Uint32(b[4:]) == uint32(i.FontRevision), "head revision", "%x", b[4:8])
	w.Check(u16(b, 18) == int(i.UnitsPerEm), "head unitsPerEm", "%d", u16(b, 18))
	w.Check(int64(be.Uint64(b[20:])) == sec(i.Created) && int64(be.Uint64(b[28:])) == sec(i.Modified), "head timestamps", "%d %d instead of %v %v", int64(be.Uint64(b[20:])), int64(be.Uint64(b[28:])), i.Created, i.Modified)
	w.Check(s16(b, 36) == int(i.FontBBox.LLx) && s16(b, 38) == int(i.FontBBox.LLy) && s16(b, 40) == int(i.FontBBox.URx) && s16(b, 42) == int(i.FontBBox.URy), "head bounding box", "%x instead of %v", b[36:44], i.FontBBox)
	w.Check(b2i(i.IsBold)|b2i(i.IsItalic)<<1|b2i(i.HasShadow)<<4|b2i(i.IsCondensed)<<5|b2i(i.IsExtended)<<6 == u16(b, 44), "head macStyle", "%x for %+v", u16(b, 44), i)
	w.Check(u16(b, 46) == int(i.LowestRecPPEM) && s16(b, 50) == int(i.LocaFormat) && u16(b, 52) == 0, "head tail", "%x", b[46:])
	out, err := head.Read(bytes.NewReader(b))
	if w.Check(err == nil, "head read", "%v", err) {
		if d := diffVals(i, out, 0); d != "" {
			w.Fail("head round trip", "%s", d)
		}
	}
}

func b2i(b bool) int {
	if b {
		return 1
	}
	return 0
}

func c12Maxp(w *W, r *rand.Rand) {
	i := &maxp.Info{NumGlyphs: 1 + r.Intn(65535)}
	if r.Intn(3) > 0 {
		u := func() uint16 { return uint16(rnd16(r)) }
		i.TTF = &maxp.TTFInfo{u(), u(), u(), u(), u(), u(), u(), u(), u(), u(), u(), u(), u()}
	}
	w.Eval(fmt.Sprintf("maxp %d %+v", i.NumGlyphs, i.TTF))
	b := i.Encode()
	w.Check(u16(b, 4) == i.NumGlyphs, "maxp numGlyphs", "%x", b)
	if i.TTF != nil {
		t := i.TTF
		if w.Check(len(b) == 32 && binary.BigEndian.Uint32(b) == 0x10000, "maxp header", "%x", b) {
			for k, x := range []uint16{t.MaxPoints, t.MaxContours, t.MaxCompositePoints, t.MaxCompositeContours, t.MaxZones, t.MaxTwilightPoints, t.MaxStorage, t.MaxFunctionDefs, t.MaxInstructionDefs, t.MaxStackElements, t.MaxSizeOfInstructions, t.MaxComponentElements, t.MaxComponentDepth} {
				w.Check(u16(b, 6+2*k) == int(x), "maxp fields", "field %d: %d instead of %d", k, u16(b, 6+2*k), x)
			}
		}
	} else {
		w.Check(len(b) == 6 && binary.BigEndian.Uint32(b) == 0x5000, "maxp header", "%x", b)
	}
	out, err := maxp.Read(bytes.NewReader(b))
	if w.Check(err == nil, "maxp read", "%v", err) {
		if d := diffVals(i, out, 0); d != "" {
			w.Fail("maxp round trip", "%s", d)
		}
	}
}

func c12OS2(w *W, r *rand.Rand) {
	bl := func() bool { return r.Intn(2) == 0 }
	f := func() funit.Int16 { return funit.Int16(rnd16(r)) }
	pos := func() funit.Int16 { return funit.Int16(r.Intn(32768)) }
	i := &os2.Info{
		WeightClass: os2.Weight(1 + r.Intn(1000)), WidthClass: os2.Width(1 + r.Intn(9)), IsOblique: bl(),
		FirstCharIndex: uint16(rnd16(r)), LastCharIndex: uint16(rnd16(r)),
		Ascent: f(), Descent: f(), WinAscent: f(), WinDescent: f(), LineGap: f(), CapHeight: pos(), XHeight: pos(), AvgGlyphWidth: f(),
		SubscriptXSize: f(), SubscriptYSize: f(), SubscriptXOffset: f(), SubscriptYOffset: f(), SuperscriptXSize: f(), SuperscriptYSize: f(), SuperscriptXOffset: f(), SuperscriptYOffset: f(),
		StrikeoutSize: f(), StrikeoutPosition: f(), FamilyClass: int16(rnd16(r)),
		UnicodeRange: os2.UnicodeRange{r.Uint32(), r.Uint32(), r.Uint32(), r.Uint32()}, CodePageRange: os2.CodePageRange(r.Uint64()),
		PermUse: []os2.Permissions{os2.PermInstall, os2.PermEdit, os2.PermView, os2.PermRestricted}[r.Intn(4)], PermNoSubsetting: bl(), PermOnlyBitmap: bl(),
		Vendor: "    ",
	}
	switch r.Intn(3) {
	case 0:
		i.IsRegular = true
	default:
		i.IsBold, i.IsItalic = bl(), bl()
	}
	if bl() {
		v := make([]byte, 4)
		for k := range v {
			v[k] = byte(0x20 + r.Intn(0x5f))
		}
		i.Vendor = string(v)
	}
	for k := range i.Panose {
		i.Panose[k] = byte(r.Intn(256))
	}
	// bit 57 says that there are characters outside the BMP
	i.UnicodeRange.Bool(57, i.LastCharIndex == 0xFFFF)
	if r.Intn(4) == 0 {
		i.CodePageRange = 0
		i.CodePageRange.Set(os2.CodePage(r.Intn(64)))
	}
	w.Eval(fmt.Sprintf("OS/2 %+v", i))
	b := i.Encode()
	if !w.Check(len(b) == 96, "OS/2 length", "%d", len(b)) {
		return
	}
	be := binary.BigEndian
	ck := func(name string, pos int, v int) {
		w.Check(u16(b, pos) == v&0xFFFF, "OS/2 "+name, "%d instead of %d", u16(b, pos), v)
	}
	ck("version", 0, 4)
	for k, x := range []funit.Int16{i.SubscriptXSize, i.SubscriptYSize, i.SubscriptXOffset, i.SubscriptYOffset, i.SuperscriptXSize, i.SuperscriptYSize, i.SuperscriptXOffset, i.SuperscriptYOffset, i.StrikeoutSize, i.StrikeoutPosition, funit.Int16(i.FamilyClass)} {
		ck("sub/superscript/strikeout/class", 10+2*k, int(x))
	}
	ck("avg width", 2, int(i.AvgGlyphWidth))
	ck("weight", 4, int(i.WeightClass))
	ck("width", 6, int(i.WidthClass))
	w.Check(bytes.Equal(b[32:42], i.Panose[:]), "OS/2 panose", "%x", b[32:42])
	for k := range i.UnicodeRange {
		w.Check(be.Uint32(b[42+4*k:]) == i.UnicodeRange[k], "OS/2 unicode range", "word %d", k)
	}
	w.Check(string(b[58:62]) == i.Vendor, "OS/2 vendor", "%q", b[58:62])
	sel := u16(b, 62)
	w.Check(sel&1 == b2i(i.IsItalic) && sel>>5&1 == b2i(i.IsBold) && sel>>6&1 == b2i(i.IsRegular) && sel>>9&1 == b2i(i.IsOblique), "OS/2 selection", "%04x for %+v", sel, i)
	perm := u16(b, 8)
	w.Check(perm&0xF == map[os2.Permissions]int{os2.PermInstall: 0, os2.PermEdit: 8, os2.PermView: 4, os2.PermRestricted: 2}[i.PermUse] && perm>>8&1 == b2i(i.PermNoSubsetting) && perm>>9&1 == b2i(i.PermOnlyBitmap), "OS/2 fsType", "%04x for %+v", perm, i)
	ck("first char", 64, int(i.FirstCharIndex))
	ck("last char", 66, int(i.LastCharIndex))
	for k, x := range []funit.Int16{i.Ascent, i.Descent, i.LineGap, i.WinAscent, i.WinDescent} {
		ck("ascent/descent", 68+2*k, int(x))
	}
	w.Check(uint64(be.Uint32(b[78:]))|uint64(be.Uint32(b[82:]))<<32 == uint64(i.CodePageRange), "OS/2 code pages", "%x instead of %x", b[78:86], uint64(i.CodePageRange))
	ck("xHeight", 86, int(i.XHeight))
	ck("capHeight", 88, int(i.CapHeight))
	out, err := os2.Read(bytes.NewReader(b))
	if w.Check(err == nil, "OS/2 read", "%v", err) {
		if d := diffVals(i, out, 0); d != "" {
			w.Fail("OS/2 round trip", "%s", d)
		}
	}
}

func c12Post(w *W, r *rand.Rand) {
	i := &post.Info{UnderlinePosition: funit.Int16(rnd16(r)), UnderlineThickness: funit.Int16(rnd16(r)), IsFixedPitch: r.Intn(2) == 0}
	switch r.Intn(4) {
	case 0:
		i.ItalicAngle = float64(int32(r.Uint32())) / 65536
	case 1:
		i.ItalicAngle = float64(r.Intn(90) - 45)
	case 2:
		i.ItalicAngle = []float64{-32768, 32767 + 65535.0/65536, -1.0 / 65536, 1.0 / 65536}[r.Intn(4)]
	}
	w.Eval(fmt.Sprintf("post %+v", i))
	b := i.Encode()
	if !w.Check(len(b) >= 32, "post length", "%d", len(b)) {
		return
	}
	w.Check(int32(binary.BigEndian.Uint32(b[4:])) == int32(math.Round(i.ItalicAngle*65536)), "post italic angle", "%x for %g", b[4:8], i.ItalicAngle)
	w.Check(s16(b, 8) == int(i.UnderlinePosition) && s16(b, 10) == int(i.UnderlineThickness), "post underline", "%x for %+v", b[8:12], i)
	w.Check((binary.BigEndian.Uint32(b[12:]) != 0) == i.IsFixedPitch, "post fixed pitch", "%x", b[12:16])
	out, err := post.Read(bytes.NewReader(b))
	if w.Check(err == nil, "post read", "%v", err) {
		if d := diffVals(i, out, 0); d != "" {
			w.Fail("post round trip", "%s", d)
		}
	}
}

// fBox is a box with an emptiness flag.
type fBox struct {
	ok             bool
	x0, y0, x1, y1 float64
}

func (b *fBox) add(x, y float64) {
	if !b.ok {
		*b = fBox{true, x, y, x, y}
		return
	}
	b.x0, b.x1 = math.Min(b.x0, x), math.Max(b.x1, x)
	b.y0, b.y1 = math.Min(b.y0, y), math.Max(b.y1, y)
}

// cffBox computes the box of a transformed outline by subdivision of the
// curves (extrema found by solving the derivative numerically).
func cffBox(g *cff.Glyph, M matrix.Matrix) fBox {
	var b fBox
	var cx, cy float64
	ap := func(x, y float64) (float64, float64) {
		return M[0]*x + M[2]*y + M[4], M[1]*x + M[3]*y + M[5]
	}
	for _, c := range g.Cmds {
		a := c.Args
		switch c.Op {
		case cff.OpMoveTo, cff.OpLineTo:
			cx, cy = ap(a[0], a[1])
			b.add(cx, cy)
		case cff.OpCurveTo:
			x1, y1 := ap(a[0], a[1])
			x2, y2 := ap(a[2], a[3])
			x3, y3 := ap(a[4], a[5])
			pt := func(t float64) (float64, float64) {
				s := 1 - t
				return s*s*s*cx + 3*s*s*t*x1 + 3*s*t*t*x2 + t*t*t*x3, s*s*s*cy + 3*s*s*t*y1 + 3*s*t*t*y2 + t*t*t*y3
			}
			b.add(x3, y3)
			ext := func(p0, p1, p2, p3 float64) {
				der := func(t float64) float64 {
					s := 1 - t
					return s*s*(p1-p0) + 2*s*t*(p2-p1) + t*t*(p3-p2)
				}
				// the derivative is quadratic: monotone on both sides of its vertex
				den := (p1 - p0) - 2*(p2-p1) + (p3 - p2)
				v := 0.5
				if den != 0 {
					v = ((p1 - p0) - (p2 - p1)) / den
				}
				for _, iv := range [][2]float64{{0, math.Min(1, math.Max(0, v))}, {math.Min(1, math.Max(0, v)), 1}} {
					lo, hi := iv[0], iv[1]
					if der(lo)*der(hi) > 0 {
						continue
					}
					up := der(hi) > der(lo)
					for k := 0; k < 60; k++ {
						m := (lo + hi) / 2
						if (der(m) > 0) == up {
							hi = m
						} else {
							lo = m
						}
					}
					b.add(pt((lo + hi) / 2))
				}
			}
			ext(cx, x1, x2, x3)
			ext(cy, y1, y2, y3)
			cx, cy = x3, y3
		}
	}
	return b
}

func near(x, y float64) bool {
	return math.Abs(x-y) <= 1e-6 || math.Abs(x-y) <= 1e-8*math.Max(math.Abs(x), math.Abs(y))
}

// floorOK says whether z is floor(x), up to rounding errors in x.
func floorOK(z funit.Int16, x float64) bool {
	return float64(z) == math.Floor(x-1e-7) || float64(z) == math.Floor(x+1e-7)
}

func c12Font(w *W, r *rand.Rand, kind string) {
	g := newFontGen(r, kind)
	g.layout = false
	f := g.font()
	if r.Intn(8) == 0 {
		// vary the widths a little
		base := 200 + float64(r.Intn(800))
		d := []float64{0, 0.2, 0.6, 1}[r.Intn(4)]
		switch o := f.Outlines.(type) {
		case *cff.Outlines:
			for _, gl := range o.Glyphs {
				gl.Width = base
				if r.Intn(3) == 0 {
					gl.Width += d
				}
				if r.Intn(4) == 0 {
					gl.Width = 0
				}
			}
		case *glyf.Outlines:
			for i := range o.Widths {
				o.Widths[i] = funit.Int16(base)
				if r.Intn(3) == 0 {
					o.Widths[i] += funit.Int16(d)
				}
				if r.Intn(4) == 0 {
					o.Widths[i] = 0
				}
			}
		}
	}
	b, err := writeFont(f)
	if !w.Check(err == nil, "Write", "error %v", err) {
		return
	}
	w.Input(b)
	_, tabs := rawTables(b)
	checkFontMetrics(w, f, tabs)
	head := tabs["head"]
	if len(head) != 54 {
		w.Fail("head length", "%d", len(head))
		return
	}
	// character range
	lo, hi := -1, -1
	m := g.cmap12
	if len(g.cmap12) == len(g.cmap4) {
		m = g.cmap4
	}
	for c := range m {
		if lo < 0 || int(c) < lo {
			lo = int(c)
		}
		hi = max(hi, int(c))
	}
	if lo >= 0 {
		o := tabs["OS/2"]
		w.Check(u16(o, 64) == min(lo, 0xFFFF) && u16(o, 66) == min(hi, 0xFFFF), "first and last character", "%04X..%04X instead of %04X..%04X", u16(o, 64), u16(o, 66), lo, hi)
	}
}

// checkFontMetrics compares the metric queries of the font and the derived
// fields in the tables with the outlines.
func checkFontMetrics(w *W, f *sfnt.Font, tabs map[string][]byte) {
	n := f.NumGlyphs()
	var width []float64
	var boxes []funit.Rect16
	var pdf []fBox
	var fms []matrix.Matrix
	var names []string
	switch o := f.Outlines.(type) {
	case *glyf.Outlines:
		w.Check(n == len(o.Glyphs), "NumGlyphs", "%d", n)
		for i, gl := range o.Glyphs {
			x := 0.0
			if o.Widths != nil {
				x = float64(o.Widths[i])
			}
			width = append(width, x)
			fms = append(fms, matrix.Scale(1/float64(f.UnitsPerEm), 1/float64(f.UnitsPerEm)))
			var b funit.Rect16
			var p fBox
			if gl != nil {
				b = gl.Rect16
				for _, c := range [][2]funit.Int16{{b.LLx, b.LLy}, {b.URx, b.LLy}, {b.LLx, b.URy}, {b.URx, b.URy}} {
					x, y := float64(c[0]), float64(c[1])
					p.add(1000*(f.FontMatrix[0]*x+f.FontMatrix[2]*y+f.FontMatrix[4]), 1000*(f.FontMatrix[1]*x+f.FontMatrix[3]*y+f.FontMatrix[5]))
				}
			}
			boxes = append(boxes, b)
			pdf = append(pdf, p)
			if o.Names != nil {
				names = append(names, o.Names[i])
			} else {
				names = append(names, "")
			}
		}
	case *cff.Outlines:
		w.Check(n == len(o.Glyphs), "NumGlyphs", "%d", n)
		for i, gl := range o.Glyphs {
			width = append(width, gl.Width)
			fm := f.FontMatrix
			if o.ROS != nil {
				a, c := o.FontMatrices[o.FDSelect(glyph.ID(i))], fm
				fm = matrix.Matrix{a[0]*c[0] + a[1]*c[2], a[0]*c[1] + a[1]*c[3], a[2]*c[0] + a[3]*c[2], a[2]*c[1] + a[3]*c[3], a[4]*c[0] + a[5]*c[2] + c[4], a[4]*c[1] + a[5]*c[3] + c[5]}
			}
			fms = append(fms, fm)
			e := cffBox(gl, matrix.Identity)
			got := f.GlyphBBox(glyph.ID(i))
			if e.ok {
				w.Check(floorOK(got.LLx, e.x0) && floorOK(got.LLy, e.y0) && floorOK(-got.URx, -e.x1) && floorOK(-got.URy, -e.y1), "glyph bounding box", "glyph %d: %v instead of %v (%v)", i, got, e, gl)
			} else {
				w.Check(got == (funit.Rect16{}), "glyph bounding box", "blank glyph %d: %v", i, got)
			}
			boxes = append(boxes, got)
			for k := range fm {
				fm[k] *= 1000
			}
			pdf = append(pdf, cffBox(gl, fm))
			names = append(names, gl.Name)
		}
	}
	ww, wp, bb := f.Widths(), f.WidthsPDF(), f.GlyphBBoxes()
	wm := f.WidthsMapPDF()
	if !w.Check(len(ww) == n && len(wp) == n && len(bb) == n, "number of widths", "%d %d %d for %d glyphs", len(ww), len(wp), len(bb), n) {
		return
	}
	o, isCFF := f.Outlines.(*cff.Outlines)
	simple := isCFF && o.ROS == nil
	w.Check((wm != nil) == simple, "WidthsMapPDF", "%v", wm != nil)
	fixed := true
	fx := 0.0
	var fb fBox
	var u funit.Rect16
	first := true
	for i := 0; i < n; i++ {
		id := glyph.ID(i)
		fm := fms[i]
		q := fm[0]
		if math.Abs(fm[3]) > 1e-6 {
			q -= fm[1] * fm[2] / fm[3]
		}
		w.Check(ww[i] == width[i] && f.GlyphWidth(id) == width[i], "width", "glyph %d: %g, %g instead of %g", i, ww[i], f.GlyphWidth(id), width[i])
		w.Check(near(wp[i]*1000, width[i]*q*1000) && near(f.GlyphWidthPDF(id), width[i]*q*1000), "PDF width", "glyph %d: %g, %g instead of %g", i, wp[i]*1000, f.GlyphWidthPDF(id), width[i]*q*1000)
		if simple {
			w.Check(near(wm[names[i]], width[i]*q*1000), "PDF width by name", "glyph %d %q: %g instead of %g", i, names[i], wm[names[i]], width[i]*q*1000)
		}
		w.Check(f.GlyphName(id) == names[i], "GlyphName", "glyph %d: %q instead of %q", i, f.GlyphName(id), names[i])
		w.Check(bb[i] == boxes[i] && f.GlyphBBox(id) == boxes[i], "glyph bounding boxes", "glyph %d: %v %v instead of %v", i, bb[i], f.GlyphBBox(id), boxes[i])
		gb := f.Outlines.GlyphBBoxPDF(f.FontMatrix, id)
		p := pdf[i]
		if p.ok {
			w.Check(near(gb.LLx, p.x0) && near(gb.LLy, p.y0) && near(gb.URx, p.x1) && near(gb.URy, p.y1), "PDF bounding box", "glyph %d: %v instead of %v", i, gb, p)
			if gb.LLx != 0 || gb.LLy != 0 || gb.URx != 0 || gb.URy != 0 {
				fb.add(gb.LLx, gb.LLy)
				fb.add(gb.URx, gb.URy)
			}
		} else {
			w.Check(gb.IsZero(), "PDF bounding box", "blank glyph %d: %v", i, gb)
		}
		if boxes[i] != (funit.Rect16{}) {
			if first {
				u = boxes[i]
				first = false
			} else {
				u.LLx, u.LLy, u.URx, u.URy = min(u.LLx, boxes[i].LLx), min(u.LLy, boxes[i].LLy), max(u.URx, boxes[i].URx), max(u.URy, boxes[i].URy)
			}
		}
		if width[i] != 0 {
			if fx == 0 {
				fx = width[i]
			} else if math.Abs(fx-width[i]) >= 0.5 {
				fixed = false
			}
		}
	}
	w.Check(f.FontBBox() == u, "font bounding box", "%v instead of %v", f.FontBBox(), u)
	fp := f.FontBBoxPDF()
	w.Check(near(fp.LLx, fb.x0) && near(fp.LLy, fb.y0) && near(fp.URx, fb.x1) && near(fp.URy, fb.y1), "font PDF bounding box", "%v instead of %v", fp, fb)
	w.Check(f.IsFixedPitch() == fixed, "IsFixedPitch", "%v", f.IsFixedPitch())
	if isCFF {
		w.Check(o.BBox() == u, "cff bounding box", "%v instead of %v", o.BBox(), u)
		cf := f.AsCFF()
		cw := cf.WidthsPDF()
		for i := range cw {
			w.Check(near(cw[i], f.GlyphWidthPDF(glyph.ID(i))) && near(cf.GlyphWidthPDF(glyph.ID(i)), cw[i]), "cff PDF width", "glyph %d: %g, %g", i, cw[i], cf.GlyphWidthPDF(glyph.ID(i)))
		}
	}
	if tabs == nil {
		return
	}
	// derived fields
	hd := tabs["head"]
	w.Check(s16(hd, 36) == int(u.LLx) && s16(hd, 38) == int(u.LLy) && s16(hd, 40) == int(u.URx) && s16(hd, 42) == int(u.URy), "head bounding box", "%x instead of %v", hd[36:44], u)
	w.Check(u16(hd, 18) == int(f.UnitsPerEm), "unitsPerEm", "%d", u16(hd, 18))
	if f.IsItalic == (f.ItalicAngle != 0) {
		w.Check(u16(hd, 44)>>1&1 == b2i(f.IsItalic) && u16(tabs["OS/2"], 62)&1 == b2i(f.IsItalic), "italic bits", "macStyle %x, fsSelection %x for italic angle %g", u16(hd, 44), u16(tabs["OS/2"], 62), f.ItalicAngle)
	}
	w.Check(u16(hd, 44)&1 == b2i(f.IsBold) && u16(tabs["OS/2"], 62)>>5&1 == b2i(f.IsBold), "bold bits", "macStyle %x, fsSelection %x", u16(hd, 44), u16(tabs["OS/2"], 62))
	w.Check(binary.BigEndian.Uint32(hd[4:]) == uint32(f.Version), "font revision", "%x", hd[4:8])
	w.Check(u16(tabs["OS/2"], 4) == int(f.Weight) && u16(tabs["OS/2"], 6) == int(f.Width), "weight and width", "%x", tabs["OS/2"][4:8])
	if a := float64(int32(binary.BigEndian.Uint32(tabs["post"][4:]))) / 65536; math.Abs(f.ItalicAngle) < 32767 {
		w.Check(math.Abs(a-f.ItalicAngle) <= 0.5/65536+1e-9, "italic angle", "%g instead of %g", a, f.ItalicAngle)
	}
	var iw, lsb []int
	sum, cnt, neg := 0.0, 0, false
	for i := 0; i < n; i++ {
		iw = append(iw, int(math.Round(width[i])))
		lsb = append(lsb, int(boxes[i].LLx))
		if width[i] != 0 {
			sum += width[i]
			cnt++
		}
		neg = neg || width[i] < 0
	}
	checkHmtx(w, tabs["hhea"], tabs["hmtx"], iw, lsb, boxes)
	o2 := tabs["OS/2"]
	if cnt > 0 && !neg {
		// fractional widths may be rounded before or after averaging
		w.Check(math.Abs(float64(s16(o2, 2))-sum/float64(cnt)) <= 1.5, "average width", "%d instead of %g", s16(o2, 2), sum/float64(cnt))
		if _, ok := f.Outlines.(*glyf.Outlines); ok {
			w.Check(math.Abs(float64(s16(o2, 2))-sum/float64(cnt)) <= 0.5+1e-9, "average width", "%d instead of %g", s16(o2, 2), sum/float64(cnt))
		}
	}
	w.Check(s16(o2, 74) == int(u.URy) && u16(o2, 76) == -int(u.LLy)&0xFFFF, "win ascent/descent", "%d %d for %v", s16(o2, 74), s16(o2, 76), u)
	w.Check(s16(o2, 68) == int(f.Ascent) && s16(o2, 70) == int(f.Descent) && s16(o2, 72) == int(f.LineGap) && s16(o2, 86) == int(f.XHeight) && s16(o2, 88) == int(f.CapHeight), "typographic metrics", "%x", o2[68:90])
	hh := tabs["hhea"]
	w.Check(s16(hh, 4) == int(f.Ascent) && s16(hh, 6) == int(f.Descent) && s16(hh, 8) == int(f.LineGap), "hhea metrics", "%x", hh[4:10])
	ps := tabs["post"]
	w.Check((binary.BigEndian.Uint32(ps[12:]) != 0) == fixed, "post fixed pitch", "%x", ps[12:16])
	w.Check(u16(tabs["maxp"], 4) == n, "maxp numGlyphs", "%d instead of %d", u16(tabs["maxp"], 4), n)
}

func c12(w *W) {
	w.Each("tails", w.Scale(2000, 20000), func(i int, r *rand.Rand) {
		n := 1 + r.Intn(40)
		for tail := 1; tail <= n; tail++ {
			c12Hmtx(w, r, n, tail)
		}
	})
	w.Each("many glyphs", w.Scale(24, 300), func(i int, r *rand.Rand) {
		n := []int{65535, 65534, 32768, 256, 1 + r.Intn(65535)}[r.Intn(5)]
		c12Hmtx(w, r, n, []int{1, 2, n, n - 1, 1 + r.Intn(n)}[r.Intn(5)])
	})
	w.Each("slope", w.Scale(8000, 40000), func(i int, r *rand.Rand) { c12Slope(w, r) })
	w.Each("head", w.Scale(20000, 400000), func(i int, r *rand.Rand) { c12Head(w, r) })
	w.Each("maxp", w.Scale(10000, 200000), func(i int, r *rand.Rand) { c12Maxp(w, r) })
	w.Each("os2", w.Scale(20000, 400000), func(i int, r *rand.Rand) { c12OS2(w, r) })
	w.Each("post", w.Scale(20000, 400000), func(i int, r *rand.Rand) { c12Post(w, r) })
	for _, k := range fontKinds {
		w.Each("font "+k, w.Scale(3000, 60000), func(i int, r *rand.Rand) { c12Font(w, r, k) })
	}
}
