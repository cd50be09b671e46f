package main

import (
	"bytes"
	"errors"
	"fmt"
	"io"
	"math/rand"

	"seehuhn.de/go/sfnt/parser"
)

// C17: the parser against a byte slice.

type shortReader struct {
	*bytes.Reader
	r    *rand.Rand
	mode int
}

// Read delivers short reads, and end-of-file together with data.
func (s *shortReader) Read(p []byte) (int, error) {
	switch s.mode {
	case 1:
		if len(p) > 1 {
			p = p[:1]
		}
	case 2:
		if len(p) > 1 {
			p = p[:1+s.r.Intn(len(p))]
		}
	}
	n, err := s.Reader.Read(p)
	if s.mode == 3 && err == nil && s.Reader.Len() == 0 && n > 0 {
		err = io.EOF
	}
	return n, err
}

func init() { register("C17", checkC17) }

type parserModel struct {
	data []byte
	pos  int64
}

func parserOp(w *W, p *parser.Parser, m *parserModel, op int, arg int64, trace *[]string) bool {
	need := func(n int64) bool { return m.pos+n <= int64(len(m.data)) || n == 0 }
	at := func(i int64) uint64 { return uint64(m.data[m.pos+i]) }
	log := func(s string, a ...any) { *trace = append(*trace, fmt.Sprintf(s, a...)) }
	bad := func(s string, a ...any) bool {
		w.Fail("C17:"+(*trace)[len(*trace)-1][:4], "after %v: %s", *trace, fmt.Sprintf(s, a...))
		return false
	}
	fixed := func(n int64, v uint64, err error, want func() uint64) bool {
		if !need(n) {
			if !errors.Is(err, io.ErrUnexpectedEOF) {
				return bad("read past the end: err=%v", err)
			}
			if p.Pos() != m.pos {
				// position after a failed read must still be inside what was read
				m.pos = p.Pos()
			}
			return true
		}
		if err != nil {
			return bad("unexpected error %v", err)
		}
		if v != want() {
			return bad("got %x want %x", v, want())
		}
		m.pos += n
		return true
	}
	ok := true
	switch op {
	case 0:
		log("seek %d", arg)
		if err := p.SeekPos(arg); err != nil {
			return bad("seek failed: %v", err)
		}
		m.pos = arg
	case 1:
		log("disc %d", arg)
		if err := p.Discard(int(arg)); err != nil {
			return bad("discard failed: %v", err)
		}
		m.pos += arg
	case 2:
		log("u8  ")
		v, err := p.ReadUint8()
		ok = fixed(1, uint64(v), err, func() uint64 { return at(0) })
	case 3:
		log("u16 ")
		v, err := p.ReadUint16()
		ok = fixed(2, uint64(v), err, func() uint64 { return at(0)<<8 | at(1) })
	case 4:
		log("i16 ")
		v, err := p.ReadInt16()
		ok = fixed(2, uint64(uint16(v)), err, func() uint64 { return at(0)<<8 | at(1) })
	case 5:
		log("u32 ")
		v, err := p.ReadUint32()
		ok = fixed(4, uint64(v), err, func() uint64 { return at(0)<<24 | at(1)<<16 | at(2)<<8 | at(3) })
	case 6:
		log("u16s")
		v, err := p.ReadUint16Slice()
		if !need(2) {
			if !errors.Is(err, io.ErrUnexpectedEOF) {
				return bad("slice past the end: err=%v", err)
			}
			m.pos = p.Pos()
			break
		}
		n := int64(at(0)<<8 | at(1))
		if !need(2 + 2*n) {
			if !errors.Is(err, io.ErrUnexpectedEOF) {
				return bad("slice past the end: err=%v", err)
			}
			if len(v) != 0 {
				return bad("partial slice returned")
			}
			m.pos = p.Pos()
			break
		}
		if err != nil || int64(len(v)) != n {
			return bad("slice: len %d want %d, err %v", len(v), n, err)
		}
		for i := range v {
			if uint64(v[i]) != at(2+2*int64(i))<<8|at(3+2*int64(i)) {
				return bad("slice element %d wrong", i)
			}
		}
		m.pos += 2 + 2*n
	case 7:
		n := arg % 1025
		log("byts %d", n)
		v, err := p.ReadBytes(int(n))
		if !need(n) {
			if !errors.Is(err, io.ErrUnexpectedEOF) {
				return bad("bytes past the end: err=%v", err)
			}
			if len(v) != 0 {
				return bad("partial data")
			}
			m.pos = p.Pos()
			break
		}
		if err != nil || int64(len(v)) != n {
			return bad("bytes: len %d, err %v", len(v), err)
		}
		if n > 0 && !bytes.Equal(v, m.data[m.pos:m.pos+n]) {
			return bad("bytes differ")
		}
		m.pos += n
	case 8:
		n := arg % 3000
		log("read %d", n)
		buf := make([]byte, n)
		k, err := p.Read(buf)
		if !need(n) {
			if !errors.Is(err, io.ErrUnexpectedEOF) || k >= int(n) {
				return bad("read past the end: %d, %v", k, err)
			}
			if k > 0 && (m.pos+int64(k) > int64(len(m.data)) || !bytes.Equal(buf[:k], m.data[m.pos:m.pos+int64(k)])) {
				return bad("partial data wrong")
			}
			m.pos = p.Pos()
			break
		}
		if err != nil || int64(k) != n {
			return bad("read: %d, %v", k, err)
		}
		if n > 0 && !bytes.Equal(buf, m.data[m.pos:m.pos+n]) {
			return bad("data differ")
		}
		m.pos += n
	case 9:
		log("size")
		if p.Size() != int64(len(m.data)) {
			return bad("size %d want %d", p.Size(), len(m.data))
		}
	}
	if ok && p.Pos() != m.pos {
		return bad("position %d want %d", p.Pos(), m.pos)
	}
	return ok
}

func checkC17(w *W) {
	mkdata := func(r *rand.Rand, n int) []byte {
		d := make([]byte, n)
		r.Read(d)
		// some small counts, so that slices fit
		for i := 0; i+1 < n; i += 1 + r.Intn(40) {
			d[i] = 0
		}
		return d
	}
	sizes := []int{0, 1, 2, 3, 1022, 1023, 1024, 1025, 1026, 2047, 2048, 2049, 3072, 5000}
	offs := []int64{0, 1, 1020, 1022, 1023, 1024, 1025, 2046, 2047, 2048, 2050, 5000, 7000}
	// all pairs and triples of operations over boundary offsets
	w.Each("short", len(sizes)*4, func(i int, r *rand.Rand) {
		data := mkdata(r, sizes[i/4])
		for _, o := range offs {
			for op1 := 1; op1 < 10; op1++ {
				for op2 := 0; op2 < 10; op2++ {
					for _, a := range []int64{1, 3, 1023, 1024} {
						p := parser.New(&shortReader{bytes.NewReader(data), r, i % 4})
						m := &parserModel{data: data}
						var tr []string
						w.Eval(fmt.Sprintf("size %d seek %d op %d %d arg %d", len(data), o, op1, op2, a))
						if !parserOp(w, p, m, 0, o, &tr) || !parserOp(w, p, m, op1, a, &tr) || !parserOp(w, p, m, op2, o+a, &tr) || !parserOp(w, p, m, 2, 0, &tr) {
							return
						}
					}
				}
			}
		}
	})
	w.Each("random", w.Scale(4000, 60000), func(i int, r *rand.Rand) {
		n := sizes[r.Intn(len(sizes))]
		if r.Intn(2) == 0 {
			n = r.Intn(5001)
		}
		data := mkdata(r, n)
		p := parser.New(&shortReader{bytes.NewReader(data), r, r.Intn(4)})
		m := &parserModel{data: data}
		var tr []string
		w.Input(data)
		for k := 0; k < 60; k++ {
			op := r.Intn(10)
			arg := int64(r.Intn(n + 50))
			switch r.Intn(5) {
			case 0:
				arg = int64(r.Intn(8))
			case 1:
				arg = 1024*int64(r.Intn(5)) + int64(r.Intn(5)) - 2
				if arg < 0 {
					arg = 0
				}
			}
			if m.pos > 20000 {
				op, arg = 0, int64(r.Intn(n+1))
			}
			if !parserOp(w, p, m, op, arg, &tr) {
				return
			}
		}
	})
	// a reader that fails temporarily must not corrupt what follows
	w.Each("faulty", w.Scale(400, 4000), func(i int, r *rand.Rand) {
		data := mkdata(r, 1+r.Intn(4000))
		fr := &flakyReader{Reader: bytes.NewReader(data), r: r}
		p := parser.New(fr)
		w.Input(data)
		pos := int64(0)
		for k := 0; k < 80; k++ {
			if r.Intn(6) == 0 {
				pos = int64(r.Intn(len(data)))
				if p.SeekPos(pos) != nil {
					return
				}
			}
			n := r.Intn(30)
			b, err := p.ReadBytes(n)
			if err != nil {
				if p.Pos() != pos {
					w.Fail("C17:faulty-pos", "position %d after a failed read, want %d", p.Pos(), pos)
					return
				}
				continue
			}
			if pos+int64(n) > int64(len(data)) && n > 0 {
				w.Fail("C17:faulty-eof", "read past the end succeeded")
				return
			}
			if n > 0 && !bytes.Equal(b, data[pos:pos+int64(n)]) {
				w.Fail("C17:faulty-data", "wrong data at %d after a read error", pos)
				return
			}
			pos += int64(n)
		}
	})
}

// flakyReader sometimes returns an error together with data.
type flakyReader struct {
	*bytes.Reader
	r *rand.Rand
}

var errFlaky = errors.New("temporary failure")

func (s *flakyReader) Read(p []byte) (int, error) {
	if len(p) > 100 {
		p = p[:100]
	}
	n, err := s.Reader.Read(p)
	if err == nil && s.r.Intn(4) == 0 {
		err = errFlaky
	}
	return n, err
}
