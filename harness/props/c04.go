// Package props contains the properties.
package props

import (
	"bytes"

	"github.com/bluenviron/mediacommon/v2/pkg/bits"
	. "verif/harness/engine" //nolint:revive
	"verif/harness/ref"
)

func refRead(b []byte, pos, n int) uint64 {
	var v uint64
	for i := 0; i < n; i++ {
		v = v<<1 | ref.Bit(b, pos+i)
	}
	return v
}

func c04Read(t *T) {
	b := t.Bytes(t.Len(0, 40))
	orig := append([]byte(nil), b...)
	pos := t.Int(0, len(b)*8)
	t.Logf("buf=%x pos=%d", b, pos)
	ops := t.Int(1, 8)
	unaligned, errs := 0, 0
	for k := 0; k < ops; k++ {
		n := t.Int(0, 64)
		if t.Chance(1, 12) {
			n = t.Int(0, 1<<34)
		}
		before := pos
		avail := len(b)*8 - before
		if e := bits.HasSpace(b, before, n); (e == nil) != (n <= avail) {
			t.Failf("space check for %d bits with %d available: %v", n, avail, e)
		}
		t.Logf("read %d bits at %d", n, pos)
		v, err := bits.ReadBits(b, &pos, n)
		if n > avail {
			if err == nil {
				t.Failf("reading %d bits with %d available succeeded", n, avail)
			}
			if pos != before {
				t.Failf("failed read moved the position from %d to %d", before, pos)
			}
			errs++
			continue
		}
		if err != nil {
			t.Failf("reading %d bits with %d available failed: %v", n, avail, err)
		}
		if want := refRead(b, before, n); v != want {
			t.Failf("read %d bits at %d: got %#x, want %#x", n, before, v, want)
		}
		if pos != before+n {
			t.Failf("position after reading %d bits at %d: %d", n, before, pos)
		}
		if n > 0 { // the functions that leave checking to the caller
			p2 := before
			if v := bits.ReadBitsUnsafe(b, &p2, n); v != refRead(b, before, n) || p2 != before+n {
				t.Failf("unchecked read of %d bits at %d: got %#x, position %d", n, before, v, p2)
			}
			p2 = before
			if f := bits.ReadFlagUnsafe(b, &p2); f != (ref.Bit(b, before) == 1) || p2 != before+1 {
				t.Failf("unchecked flag at %d: got %v, position %d", before, f, p2)
			}
		}
		if before%8 != 0 && n > 8 {
			unaligned++
		}
		// flags
		if t.Chance(1, 3) {
			before = pos
			f, err2 := bits.ReadFlag(b, &pos)
			if before == len(b)*8 {
				if err2 == nil || pos != before {
					t.Failf("flag read past the end: err=%v pos=%d", err2, pos)
				}
			} else if err2 != nil || f != (ref.Bit(b, before) == 1) || pos != before+1 {
				t.Failf("flag at %d: got %v err=%v pos=%d", before, f, err2, pos)
			}
		}
	}
	if !bytes.Equal(b, orig) {
		t.Failf("reading modified the buffer")
	}
	if unaligned > 0 {
		t.Class("unaligned>8")
	}
	if errs > 0 {
		t.Class("short")
	}
	if unaligned > 0 || errs > 0 {
		t.NonTrivial()
	}
}

func c04Golomb(t *T) {
	// a sequence of codes, signed and unsigned, at an arbitrary bit offset
	var w ref.BitWriter
	off := t.Int(0, 9)
	for i := 0; i < off; i++ {
		w.U(t.Draw(1), 1)
	}
	type code struct {
		signed bool
		k      uint64
	}
	n := t.Int(1, 6)
	codes := make([]code, n)
	big := false
	for i := range codes {
		codes[i] = code{t.Bool(), t.EdgeU(0, 0xFFFFFFFE)}
		if codes[i].k >= 1<<31-2 {
			big = true
		}
		w.UE(codes[i].k)
	}
	t.Logf("offset=%d codes=%v buf=%x", off, codes, w.B)
	pos := off
	end := off
	for i, c := range codes {
		l := 0
		for (c.k+1)>>uint(l+1) != 0 {
			l++
		}
		end += 2*l + 1
		if c.signed {
			v, err := bits.ReadGolombSigned(w.B, &pos)
			want := int64((c.k + 1) / 2)
			if c.k%2 == 0 {
				want = -int64(c.k / 2)
			}
			if err != nil || int64(v) != want {
				t.Failf("signed code %d (number %d): got %d, %v; want %d", i, c.k, v, err, want)
			}
		} else {
			v, err := bits.ReadGolombUnsigned(w.B, &pos)
			if err != nil || uint64(v) != c.k {
				t.Failf("unsigned code %d: got %d, %v; want %d", i, v, err, c.k)
			}
		}
		if pos != end {
			t.Failf("code %d: position %d, want %d", i, pos, end)
		}
	}
	if big {
		t.Class("big")
	}
	t.NonTrivial()
}

func c04GolombBad(t *T) {
	off := t.Int(0, 7)
	var w ref.BitWriter
	w.U(0, off)
	switch t.Pick(3) {
	case 0: // truncated code
		k := t.EdgeU(1, 0xFFFFFFFE)
		var c ref.BitWriter
		c.UE(k)
		keep := t.Int(0, c.N-1)
		// the buffer ends exactly at the cut: choose the offset accordingly
		off = (8 - keep%8) % 8
		w = ref.BitWriter{}
		w.U(1, off)
		for i := 0; i < keep; i++ {
			w.U(ref.Bit(c.B, i), 1)
		}
		t.Logf("truncated code %d, %d of %d bits: %x offset %d", k, keep, c.N, w.B, off)
		t.Class("truncated")
	case 1: // not representable
		k := t.EdgeU(1<<32, 1<<33-2)
		w.UE(k)
		w.U(t.Draw(255), 8)
		t.Logf("code %d: %x offset %d", k, w.B, off)
		t.Class("too-big")
	case 2: // too many zeros
		z := t.Int(33, 90)
		w.U(0, z)
		w.U(1, 1)
		for i := 0; i < z; i += 8 {
			w.U(t.Draw(255), 8)
		}
		t.Logf("%d leading zeros: %x offset %d", z, w.B, off)
		t.Class("zeros")
	}
	t.NonTrivial()
	pos := off
	if v, err := bits.ReadGolombUnsigned(w.B, &pos); err == nil {
		t.Failf("unsigned read succeeded with %d", v)
	}
	pos = off
	if v, err := bits.ReadGolombSigned(w.B, &pos); err == nil {
		t.Failf("signed read succeeded with %d", v)
	}
}

func c04Write(t *T) {
	n := t.Int(1, 12)
	off := t.Int(0, 9)
	var w ref.BitWriter
	type op struct {
		n    int
		v    uint64
		flag bool
	}
	ops := make([]op, n)
	total := off
	w.U(0, off)
	for i := range ops {
		k := t.Int(0, 64)
		if t.Chance(1, 4) {
			ops[i] = op{n: 1, v: t.Draw(1), flag: true}
		} else {
			m := ^uint64(0)
			if k < 64 {
				m = uint64(1)<<uint(k) - 1
			}
			ops[i] = op{n: k, v: t.EdgeU(0, m)}
		}
		w.U(ops[i].v, ops[i].n)
		total += ops[i].n
	}
	t.Logf("offset=%d ops=%v", off, ops)
	buf := make([]byte, (total+7)/8+1)
	pos := off
	for i, o := range ops {
		before := pos
		if o.flag {
			bits.WriteFlagUnsafe(buf, &pos, o.v == 1)
		} else {
			bits.WriteBitsUnsafe(buf, &pos, o.v, o.n)
		}
		if pos != before+o.n {
			t.Failf("write %d: position %d -> %d", i, before, pos)
		}
	}
	want := append(append([]byte(nil), w.B...), make([]byte, len(buf)-len(w.B))...)
	if !bytes.Equal(buf, want) {
		t.Failf("written %x, want %x", buf, want)
	}
	pos = off
	for i, o := range ops {
		if o.n == 0 {
			continue
		}
		v, err := bits.ReadBits(buf, &pos, o.n)
		if err != nil || v != o.v {
			t.Failf("read back of write %d: %#x, %v; want %#x", i, v, err, o.v)
		}
	}
	if n > 1 {
		t.NonTrivial()
	}
}

func init() {
	Register(&Prop{
		ID:    "C04",
		Boost: 8,
		Title: "Bit-level reads and writes agree with the bit string",
		Rule: "random buffers, bit offsets and sequences of reads/writes/Exp-Golomb codes, boundary-biased; non-trivial: " +
			"a read of more than 8 bits at an unaligned offset, a short read, a code sequence, or more than one write",
		Subs: []Sub{
			{Name: "read", Fn: c04Read, Quick: 300000},
			{Name: "golomb", Fn: c04Golomb, Quick: 200000},
			{Name: "golomb-invalid", Fn: c04GolombBad, Quick: 100000},
			{Name: "write", Fn: c04Write, Quick: 200000},
		},
	})
}
