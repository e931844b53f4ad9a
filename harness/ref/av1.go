package ref

// Leb encodes v in LEB128 on exactly n bytes (n >= minimum), or on the minimum when n is 0.
func Leb(v uint64, n int) []byte {
	var out []byte
	for {
		b := byte(v & 0x7f)
		v >>= 7
		if v != 0 || len(out)+1 < n {
			out = append(out, b|0x80)
			continue
		}
		return append(out, b)
	}
}

// UnLeb decodes at most 8 bytes of LEB128; ok is false when truncated, too long or larger than 32 bits.
func UnLeb(b []byte) (v uint64, n int, ok bool) {
	for i := 0; i < 8; i++ {
		if i >= len(b) {
			return 0, 0, false
		}
		v += uint64(b[i]%128) * pow2(7*i)
		if b[i] < 128 {
			return v, i + 1, v < 1<<32
		}
	}
	return 0, 0, false
}

func pow2(n int) uint64 { return uint64(1) << uint(n) }
