package main

import (
	"encoding/binary"
	"math/rand"
	"sort"
)

// rawTables splits an sfnt file into its tables, trusting the directory.
func rawTables(b []byte) (scaler uint32, tabs map[string][]byte) {
	tabs = map[string][]byte{}
	if len(b) < 12 {
		return 0, tabs
	}
	scaler = binary.BigEndian.Uint32(b)
	n := int(binary.BigEndian.Uint16(b[4:]))
	for i := 0; i < n && 12+16*i+16 <= len(b); i++ {
		rec := b[12+16*i:]
		off, l := int(binary.BigEndian.Uint32(rec[8:])), int(binary.BigEndian.Uint32(rec[12:]))
		if off+l <= len(b) {
			tabs[string(rec[:4])] = append([]byte(nil), b[off:off+l]...)
		}
	}
	return scaler, tabs
}

// joinTables is an independent minimal sfnt writer (checksums are zero).
func joinTables(scaler uint32, tabs map[string][]byte) []byte {
	var tags []string
	for t := range tabs {
		tags = append(tags, t)
	}
	sort.Strings(tags)
	out := make([]byte, 12+16*len(tags))
	binary.BigEndian.PutUint32(out, scaler)
	put16(out, 4, len(tags))
	for i, t := range tags {
		rec := out[12+16*i:]
		copy(rec, t)
		binary.BigEndian.PutUint32(rec[8:], uint32(len(out)))
		binary.BigEndian.PutUint32(rec[12:], uint32(len(tabs[t])))
		out = append(out, tabs[t]...)
		for len(out)%4 != 0 {
			out = append(out, 0)
		}
	}
	return out
}

var interesting16 = []int{0, 1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 12, 14, 16, 32, 64, 127, 128, 255, 256, 257, 0x3FFF, 0x7FFF, 0x8000, 0x8001, 0xFFFE, 0xFFFF}

// mutateBytes returns a damaged copy of b.
func mutateBytes(r *rand.Rand, b []byte) []byte {
	b = append([]byte(nil), b...)
	for k := 1 + r.Intn(3); k > 0; k-- {
		if len(b) == 0 {
			b = append(b, byte(r.Intn(256)))
			continue
		}
		// prefer the beginning of the data
		pos := r.Intn(len(b))
		if r.Intn(2) == 0 {
			pos = r.Intn(min(len(b), 64))
		}
		switch r.Intn(11) {
		case 0:
			b[pos] ^= 1 << r.Intn(8)
		case 1:
			b[pos] = byte(r.Intn(256))
		case 2, 3, 4: // interesting value on an even position
			pos &^= 1
			if pos+2 <= len(b) {
				put16(b, pos, interesting16[r.Intn(len(interesting16))])
			}
		case 5: // small change
			pos &^= 1
			if pos+2 <= len(b) {
				put16(b, pos, int(u16(b, pos))+r.Intn(7)-3)
			}
		case 6: // copy a value from another place
			q := r.Intn(len(b)) &^ 1
			pos &^= 1
			if pos+2 <= len(b) && q+2 <= len(b) {
				copy(b[pos:pos+2], b[q:q+2])
			}
		case 7: // truncate
			if r.Intn(3) == 0 {
				b = b[:pos]
			} else {
				b = b[:len(b)-r.Intn(min(len(b), 16))]
			}
		case 8: // insert
			n := 1 + r.Intn(8)
			ins := make([]byte, n)
			if r.Intn(2) == 0 {
				r.Read(ins)
			}
			b = append(b[:pos:pos], append(ins, b[pos:]...)...)
		case 9: // delete
			n := min(1+r.Intn(8), len(b)-pos)
			b = append(b[:pos:pos], b[pos+n:]...)
		case 10: // extend
			b = append(b, make([]byte, r.Intn(20))...)
		}
	}
	return b
}

// mutateFont damages an sfnt file; other provides tables for splicing.
func mutateFont(r *rand.Rand, b, other []byte) []byte {
	if r.Intn(12) == 0 {
		return mutateBytes(r, b)
	}
	sc, tabs := rawTables(b)
	_, t2 := rawTables(other)
	var tags []string
	for t := range tabs {
		tags = append(tags, t)
	}
	sort.Strings(tags)
	if len(tags) == 0 {
		return mutateBytes(r, b)
	}
	for k := 1 + r.Intn(2); k > 0; k-- {
		t := tags[r.Intn(len(tags))]
		if r.Intn(3) == 0 {
			// favour the layout and cmap tables
			c := []string{"GSUB", "GPOS", "GDEF", "cmap", "kern", "name", "CFF ", "glyf", "OS/2", "hmtx", "post"}[r.Intn(11)]
			if tabs[c] != nil {
				t = c
			}
		}
		switch r.Intn(12) {
		case 0:
			delete(tabs, t)
		case 1, 2:
			if d := t2[t]; d != nil {
				tabs[t] = d
			}
		default:
			tabs[t] = mutateBytes(r, tabs[t])
		}
	}
	return joinTables(sc, tabs)
}

func put16(b []byte, pos, v int)        { binary.BigEndian.PutUint16(b[pos:], uint16(v)) }
func put32(b []byte, pos int, v uint32) { binary.BigEndian.PutUint32(b[pos:], v) }
