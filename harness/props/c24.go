package props

import (
	"bytes"

	"github.com/bluenviron/mediacommon/v2/pkg/formats/fmp4/seekablebuffer"
	. "verif/harness/engine" //nolint:revive
)

func c24History(t *T) {
	var b seekablebuffer.Buffer
	var model []byte
	pos := int64(0)
	over := false
	n := t.Int(1, 40)
	for i := 0; i < n; i++ {
		switch t.Weighted(8, 8, 1) {
		case 0:
			p := t.Bytes(t.Len(0, 200))
			in := append([]byte(nil), p...)
			got, err := b.Write(p)
			t.Logf("write %d at %d: %d, %v", len(p), pos, got, err)
			if got != len(p) || err != nil {
				t.Failf("write of %d bytes returned %d, %v", len(p), got, err)
			}
			if !bytes.Equal(p, in) {
				t.Failf("data to write was modified")
			}
			if pos < int64(len(model)) && len(p) > 0 {
				over = true
			}
			if need := pos + int64(len(p)); need > int64(len(model)) {
				model = append(model, make([]byte, need-int64(len(model)))...)
			}
			copy(model[pos:], p)
			pos += int64(len(p))
			for k := range p {
				p[k] ^= 0xff // the buffer must not refer to the data
			}
		case 1:
			whence := t.Pick(3)
			base := []int64{0, pos, int64(len(model))}[whence]
			var target int64
			switch t.Pick(4) {
			case 0:
				target = int64(t.Int(0, len(model)))
			case 1:
				target = int64(len(model)) + int64(t.Len(0, 300))
			case 2:
				target = -int64(t.Int(1, 50))
			default:
				target = pos
			}
			got, err := b.Seek(target-base, whence)
			t.Logf("seek to %d (whence %d): %d, %v", target, whence, got, err)
			if target < 0 {
				if err == nil {
					t.Failf("negative position accepted")
				}
				t.Class("negative")
				break
			}
			if err != nil || got != target {
				t.Failf("seek to %d returned %d, %v", target, got, err)
			}
			pos = target
			if pos > int64(len(model)) {
				t.Class("extended")
				model = append(model, make([]byte, pos-int64(len(model)))...)
			}
		case 2:
			b.Reset()
			t.Logf("reset")
			model, pos = nil, 0
			t.Class("reset")
		}
		if !bytes.Equal(b.Bytes(), model) || b.Len() != len(model) {
			t.Failf("contents are %s, expected %s", Hex(b.Bytes()), Hex(model))
		}
		if p, err := b.Seek(0, 1); err != nil || p != pos {
			t.Failf("position is %d, expected %d", p, pos)
		}
	}
	if over {
		t.NonTrivial()
	}
}

// c24Big: large writes and seeks, across the sizes at which storage is reallocated.
func c24Big(t *T) {
	var b seekablebuffer.Buffer
	var model []byte
	pos := int64(0)
	pat := t.Bytes(509)
	size := func() int {
		if t.Bool() {
			return []int{0, 1, 63, 64, 65, 511, 512, 513, 4095, 4096, 4097, 32768, 65535, 65536, 65537, 131072}[t.Pick(16)]
		}
		return t.Int(0, 200000)
	}
	over := false
	for i, n := 0, t.Int(2, 14); i < n; i++ {
		switch t.Weighted(8, 6, 1) {
		case 0:
			k := size()
			p := make([]byte, k)
			for j, o := 0, t.Pick(509); j < k; j++ {
				p[j] = pat[(j+o)%509]
			}
			got, err := b.Write(p)
			t.Logf("write %d at %d: %d, %v", k, pos, got, err)
			if got != k || err != nil {
				t.Failf("write of %d bytes returned %d, %v", k, got, err)
			}
			over = over || pos < int64(len(model)) && k > 0
			if need := pos + int64(k); need > int64(len(model)) {
				model = append(model, make([]byte, need-int64(len(model)))...)
			}
			copy(model[pos:], p)
			pos += int64(k)
			clear(p)
		case 1:
			target := int64(t.Int(0, len(model)))
			if t.Chance(1, 3) {
				target = int64(len(model) + size())
			}
			got, err := b.Seek(target, 0)
			t.Logf("seek to %d: %d, %v", target, got, err)
			if err != nil || got != target {
				t.Failf("seek to %d returned %d, %v", target, got, err)
			}
			if pos = target; pos > int64(len(model)) {
				t.Class("extended")
				model = append(model, make([]byte, pos-int64(len(model)))...)
			}
		case 2:
			b.Reset()
			t.Logf("reset")
			model, pos = nil, 0
			t.Class("reset")
		}
		if !bytes.Equal(b.Bytes(), model) || b.Len() != len(model) {
			t.Failf("contents differ: %d bytes, expected %d", b.Len(), len(model))
		}
		if p, err := b.Seek(0, 1); err != nil || p != pos {
			t.Failf("position is %d, expected %d", p, pos)
		}
	}
	if over {
		t.NonTrivial()
	}
}

func init() {
	Register(&Prop{
		ID:    "C24",
		Boost: 6,
		Title: "The seekable buffer behaves like an in-memory file",
		Rule:  "random operation sequences against a byte slice; non-trivial: some write overwrites existing data",
		Subs:  []Sub{{Name: "history", Fn: c24History, Quick: 60000}, {Name: "big", Fn: c24Big, Quick: 4000}},
	})
}
