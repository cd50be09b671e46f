package main

import (
	"bytes"
	"errors"
	"fmt"
	"io"
	"math/rand"
	"testing/iotest"

	"seehuhn.de/go/sfnt"
	"seehuhn.de/go/sfnt/cff"
	"seehuhn.de/go/sfnt/glyf"
	"seehuhn.de/go/sfnt/header"
)

func init() { register("C18", c18) }

var errFault = errors.New("injected fault")

// faultWriter accepts k bytes and then fails.
type faultWriter struct {
	buf  []byte
	k    int
	mode int // 0: accept nothing of the failing call, 1: accept a part, 2: short write without an error, 3: fails once only
	done bool
}

func (f *faultWriter) Write(p []byte) (int, error) {
	if len(f.buf)+len(p) <= f.k || f.done {
		f.buf = append(f.buf, p...)
		return len(p), nil
	}
	if f.mode == 3 {
		f.done = true
		return 0, errFault
	}
	if f.mode == 0 {
		return 0, errFault
	}
	n := f.k - len(f.buf)
	f.buf = append(f.buf, p[:n]...)
	if f.mode == 2 {
		return n, nil
	}
	return n, errFault
}

// faultReader fails for every access which touches a byte in [a,b).
type faultReader struct {
	data    []byte
	a, b    int
	pos     int64
	touched bool
	partial bool
}

func (f *faultReader) ReadAt(p []byte, off int64) (int, error) {
	if off < 0 {
		return 0, errFault
	}
	end := int(off) + len(p)
	if len(p) > 0 && int(off) < f.b && end > f.a {
		f.touched = true
		n := 0
		if f.partial && int(off) < f.a {
			n = copy(p, f.data[off:min(f.a, len(f.data))])
		}
		return n, errFault
	}
	if off >= int64(len(f.data)) {
		return 0, io.EOF
	}
	n := copy(p, f.data[off:])
	if n < len(p) {
		return n, io.EOF
	}
	return n, nil
}

func (f *faultReader) Read(p []byte) (int, error) {
	n, err := f.ReadAt(p, f.pos)
	f.pos += int64(n)
	return n, err
}

// onlyReader hides all methods except Read.
type onlyReader struct{ r io.Reader }

func (o onlyReader) Read(p []byte) (int, error) { return o.r.Read(p) }

type fontWriter struct {
	name  string
	write func(w io.Writer) (int64, error)
	count bool
}

func fontWriters(f *sfnt.Font) []fontWriter {
	ww := []fontWriter{{"Write", f.Write, true}}
	switch o := f.Outlines.(type) {
	case *glyf.Outlines:
		ww = append(ww, fontWriter{"WriteTrueTypePDF", func(w io.Writer) (int64, error) { return f.WriteTrueTypePDF(w) }, true})
		ww = append(ww, fontWriter{"WriteTrueTypePDF extra", func(w io.Writer) (int64, error) {
			return f.WriteTrueTypePDF(w, "name", []byte{1, 2, 3}, "zzzz", []byte{}, "head", make([]byte, 54))
		}, true})
	case *cff.Outlines:
		ww = append(ww, fontWriter{"WriteOpenTypeCFFPDF", func(w io.Writer) (int64, error) { return 0, f.WriteOpenTypeCFFPDF(w) }, false})
		ww = append(ww, fontWriter{"cff.Font.Write", func(w io.Writer) (int64, error) {
			return 0, (&cff.Font{FontInfo: f.GetFontInfo(), Outlines: o}).Write(w)
		}, false})
	}
	return ww
}

func c18Write(w *W, r *rand.Rand, f *sfnt.Font, all bool) {
	for _, fw := range fontWriters(f) {
		var buf bytes.Buffer
		n, err := fw.write(&buf)
		w.Eval(fmt.Sprintf("%s %d bytes", fw.name, buf.Len()))
		if !w.Check(err == nil, "write error", "%s: %v", fw.name, err) {
			continue
		}
		if fw.count {
			w.Check(n == int64(buf.Len()), "byte count on success", "%s reports %d, wrote %d", fw.name, n, buf.Len())
		}
		total := buf.Len()
		try := func(k, mode int) {
			w.Eval(fmt.Sprintf("%s: writer fails after %d of %d bytes, mode %d: %x", fw.name, k, total, mode, buf.Bytes()[:min(total, 40)]))
			dst := &faultWriter{k: k, mode: mode}
			var n int64
			var err error
			if !w.NoPanic(fw.name, func() { n, err = fw.write(dst) }) {
				return
			}
			w.Check(err != nil, "write fault ignored", "%s: writer fails after %d of %d bytes (mode %d), no error", fw.name, k, total, mode)
			if fw.count && mode != 3 {
				w.Check(n == int64(len(dst.buf)), "byte count after fault", "%s: reports %d bytes, the writer accepted %d (k=%d of %d, mode %d)", fw.name, n, len(dst.buf), k, total, mode)
			}
			if mode == 3 {
				w.Check(!fw.count || n <= int64(len(dst.buf)), "byte count after fault", "%s: reports %d bytes, the writer accepted %d", fw.name, n, len(dst.buf))
			}
		}
		if all {
			for k := 0; k < total; k++ {
				try(k, k%4)
				if r.Intn(4) == 0 {
					try(k, r.Intn(4))
				}
			}
		} else {
			for j := 0; j < 40; j++ {
				k := r.Intn(total)
				if r.Intn(4) == 0 {
					k = total - 1 - r.Intn(min(total, 5))
				}
				try(k, r.Intn(4))
			}
		}
	}
}

func c18Read(w *W, r *rand.Rand, f *sfnt.Font, all bool) {
	b, err := writeFont(f)
	if err != nil {
		w.Fail("write error", "%v", err)
		return
	}
	info, err := header.Read(bytes.NewReader(b))
	if err != nil {
		w.Fail("header.Read", "%v", err)
		return
	}
	first, last := len(b), 0
	type span struct {
		name string
		a, b int
	}
	var tabs []span
	for t, rec := range info.Toc {
		if rec.Length == 0 {
			continue
		}
		first = min(first, int(rec.Offset))
		last = max(last, int(rec.Offset+rec.Length))
		tabs = append(tabs, span{t, int(rec.Offset), int(rec.Offset + rec.Length)})
	}
	mustFail := func(key string, k int, rd io.Reader) {
		var err error
		if !w.NoPanic(key, func() { _, err = sfnt.Read(rd) }) {
			return
		}
		w.Check(err != nil, key, "%s at %d of %d bytes (table data ends at %d): no error", key, k, len(b), last)
	}
	try := func(k int) {
		w.Input(append([]byte(fmt.Sprintf("%d/", k)), b...))
		mustFail("truncated, seekable", k, bytes.NewReader(b[:k]))
		switch k % 4 {
		case 0:
			mustFail("truncated, streaming", k, onlyReader{bytes.NewReader(b[:k])})
		case 1:
			mustFail("truncated, streaming", k, onlyReader{iotest.DataErrReader(bytes.NewReader(b[:k]))})
		case 2:
			mustFail("truncated, streaming", k, onlyReader{iotest.HalfReader(bytes.NewReader(b[:k]))})
		default:
			mustFail("truncated, seekable", k, io.NewSectionReader(bytes.NewReader(b[:k]), 0, int64(k)))
		}
		mustFail("failing ReaderAt", k, &faultReader{data: b, a: k, b: len(b), partial: k%2 == 0})
		mustFail("failing Reader", k, onlyReader{&faultReader{data: b, a: k, b: len(b), partial: k%2 == 1}})
		mustFail("failing Reader", k, onlyReader{io.MultiReader(bytes.NewReader(b[:k]), iotest.ErrReader(errFault))})
	}
	if all {
		for k := 0; k < last; k++ {
			try(k)
		}
	} else {
		for j := 0; j < 10; j++ {
			k := r.Intn(last)
			if r.Intn(4) == 0 {
				k = last - 1 - r.Intn(min(last, 5))
			}
			try(k)
		}
	}
	// a fault inside a single table
	for _, t := range tabs {
		for _, k := range []int{t.a, t.a + r.Intn(t.b-t.a)} {
			if k > t.a && (t.name == "cmap" || t.name == "post" || t.name == "GSUB" || t.name == "GPOS" || t.name == "GDEF") {
				// the tail of these tables may be unused
				continue
			}
			w.Input(append([]byte(fmt.Sprintf("%s %d/", t.name, k)), b...))
			fr := &faultReader{data: b, a: k, b: t.b}
			var err error
			if w.NoPanic("failing table", func() { _, err = sfnt.Read(fr) }) {
				w.Check(err != nil, "failing table "+t.name, "reading table %q fails at byte %d of %d: no error (touched %v)", t.name, k-t.a, t.b-t.a, fr.touched)
			}
		}
	}
	// no false alarms
	for _, rd := range []io.Reader{bytes.NewReader(b), onlyReader{bytes.NewReader(b)}, onlyReader{iotest.OneByteReader(bytes.NewReader(b))}, onlyReader{iotest.DataErrReader(bytes.NewReader(b))}} {
		_, err := sfnt.Read(rd)
		w.Check(err == nil, "intact file", "%v", err)
	}
}

func c18(w *W) {
	for _, k := range fontKinds {
		w.Each("write "+k, w.Scale(8, 200), func(i int, r *rand.Rand) {
			g := newFontGen(r, k)
			g.n = min(g.n, 5)
			g.layout = g.layout && r.Intn(3) == 0
			c18Write(w, r, g.font(), true)
		})
		w.Each("write sample "+k, w.Scale(80, 3000), func(i int, r *rand.Rand) {
			c18Write(w, r, newFontGen(r, k).font(), false)
		})
		w.Each("read "+k, w.Scale(8, 200), func(i int, r *rand.Rand) {
			g := newFontGen(r, k)
			g.n = min(g.n, 5)
			g.layout = g.layout && r.Intn(3) == 0
			c18Read(w, r, g.font(), true)
		})
		w.Each("read sample "+k, w.Scale(200, 6000), func(i int, r *rand.Rand) {
			c18Read(w, r, newFontGen(r, k).font(), false)
		})
	}
	w.Each("header", w.Scale(1000, 20000), func(i int, r *rand.Rand) {
		m := c03Tables(r, 1+r.Intn(8), r.Intn(2) == 0)
		var buf bytes.Buffer
		if _, err := header.Write(&buf, header.ScalerTypeTrueType, m); err != nil {
			w.Fail("header.Write", "%v", err)
			return
		}
		b := buf.Bytes()
		for j := 0; j < 30; j++ {
			k := r.Intn(len(b))
			if j < 8 {
				k = max(0, len(b)-1-j)
			}
			mode := r.Intn(3)
			w.Input(append([]byte(fmt.Sprintf("%d/%d/", k, mode)), b...))
			dst := &faultWriter{k: k, mode: mode}
			n, err := header.Write(dst, header.ScalerTypeTrueType, m)
			w.Check(err != nil, "write fault ignored", "header.Write: writer fails after %d of %d bytes, no error", k, len(b))
			w.Check(n == int64(len(dst.buf)), "byte count after fault", "header.Write: reports %d, accepted %d", n, len(dst.buf))
		}
	})
}
