// Package ref contains independent reference implementations used as oracles.
package ref

// BitWriter writes bits, most significant first.
type BitWriter struct {
	B []byte
	N int // bits written
}

// U writes n bits.
func (w *BitWriter) U(v uint64, n int) {
	for i := n - 1; i >= 0; i-- {
		if w.N%8 == 0 {
			w.B = append(w.B, 0)
		}
		bit := byte(0)
		if i < 64 {
			bit = byte(v>>uint(i)) & 1
		}
		w.B[w.N/8] |= bit << uint(7-w.N%8)
		w.N++
	}
}

// Flag writes a bit.
func (w *BitWriter) Flag(v bool) {
	if v {
		w.U(1, 1)
	} else {
		w.U(0, 1)
	}
}

// UE writes an unsigned Exp-Golomb code (code number up to 2^33).
func (w *BitWriter) UE(v uint64) {
	x := v + 1
	n := 0
	for x>>uint(n+1) != 0 {
		n++
	}
	w.U(0, n)
	w.U(x, n+1)
}

// SE writes a signed Exp-Golomb code.
func (w *BitWriter) SE(v int64) {
	if v > 0 {
		w.UE(uint64(2*v - 1))
	} else {
		w.UE(uint64(-2 * v))
	}
}

// Align pads with zeros.
func (w *BitWriter) Align() {
	for w.N%8 != 0 {
		w.U(0, 1)
	}
}

// Trailing writes rbsp_trailing_bits.
func (w *BitWriter) Trailing() {
	w.U(1, 1)
	w.Align()
}

// BytesOut appends whole bytes (must be aligned or not).
func (w *BitWriter) BytesOut(b []byte) {
	for _, x := range b {
		w.U(uint64(x), 8)
	}
}

// Bit reads bit i.
func Bit(b []byte, i int) uint64 { return uint64(b[i/8]>>uint(7-i%8)) & 1 }

// Escape inserts emulation prevention bytes (H.264/H.265 7.3.1/7.4.1).
func Escape(rbsp []byte) []byte {
	var out []byte
	z := 0
	for _, b := range rbsp {
		if z >= 2 && b <= 3 {
			out = append(out, 3)
			z = 0
		}
		out = append(out, b)
		if b == 0 {
			z++
		} else {
			z = 0
		}
	}
	// a payload can end with zeros only in pairs (cabac_zero_word)
	if z >= 2 {
		out = append(out, 3)
	}
	return out
}

// Unescape removes emulation prevention bytes.
func Unescape(b []byte) []byte {
	out := []byte{}
	z := 0
	for _, x := range b {
		if z >= 2 && x == 3 {
			z = 0
			continue
		}
		out = append(out, x)
		if x == 0 {
			z++
		} else {
			z = 0
		}
	}
	return out
}
