package props

import (
	. "verif/harness/engine" //nolint:revive
	"verif/harness/ref"
)

// mutateTS damages a stream in any way.
func mutateTS(t *T, data []byte, n int) []byte {
	data = append([]byte{}, data...)
	for ; n > 0 && len(data) >= 188; n-- {
		np := len(data) / 188
		i := t.Pick(np)
		p := data[i*188 : (i+1)*188]
		pos := min(tsPos(p), 187)
		switch k := t.Pick(16); k {
		case 0: // drop
			data = append(data[:i*188:i*188], data[(i+1)*188:]...)
		case 1: // duplicate
			data = append(data[:(i+1)*188:(i+1)*188], append(append([]byte{}, p...), data[(i+1)*188:]...)...)
		case 2: // swap
			j := t.Pick(np)
			q := data[j*188 : (j+1)*188]
			for x := range p {
				p[x], q[x] = q[x], p[x]
			}
		case 3: // cut
			data = data[:t.Int(0, len(data))]
		case 4: // remove bytes
			a := t.Pick(len(data))
			b := min(len(data), a+t.Len(1, 400))
			data = append(data[:a:a], data[b:]...)
		case 5: // insert bytes
			a := t.Pick(len(data))
			data = append(data[:a:a], append(t.Bytes(t.Len(1, 400)), data[a:]...)...)
		case 6: // header
			p[t.Int(1, 3)] ^= 1 << t.Pick(8)
		case 7: // adaptation field
			if p[3]&0x20 != 0 {
				if t.Bool() {
					p[4] = byte(t.EdgeU(0, 255))
				} else {
					p[4+t.Pick(12)] ^= 1 << t.Pick(8)
				}
			} else {
				p[3] |= 0x20
			}
		case 8: // PID
			pid := []int{0, 0x1000, 256, 257, 258, 0x1FFF, 0x11, 0x1FFB, 16}[t.Pick(9)]
			p[1] = p[1]&0xE0 | byte(pid>>8)
			p[2] = byte(pid)
		case 9: // start of the payload: tables, PES headers
			for c := t.Int(1, 3); c > 0; c-- {
				p[min(187, pos+t.Pick(30))] = byte(t.EdgeU(0, 255))
			}
		case 10: // PES: length, flags
			if p[1]&0x40 != 0 && pos < 170 && p[pos] == 0 {
				p[pos+[]int{3, 4, 5, 6, 7, 8}[t.Pick(6)]] = byte(t.EdgeU(0, 255))
			} else {
				p[t.Int(4, 187)] ^= 1 << t.Pick(8)
			}
		case 11, 12: // tables, with a valid CRC
			fixed := false
			for j := 0; j < np; j++ {
				q := data[((i+j)%np)*188 : ((i+j)%np+1)*188]
				if q[0] == 0x47 && mutateSection(t, q) {
					fixed = true
					break
				}
			}
			if !fixed {
				p[pos] ^= byte(1 << t.Pick(8))
			}
		case 13: // codec payload
			for c := t.Int(1, 4); c > 0; c-- {
				p[t.Int(pos, 187)] = byte(t.EdgeU(0, 255))
			}
		case 14: // random payload
			t.Fill(p[pos:])
		default:
			data[t.Pick(len(data))] ^= 1 << t.Pick(8)
		}
	}
	return data
}

// mutateSection changes bytes of a PAT or PMT contained in a packet and fixes its CRC.
func mutateSection(t *T, p []byte) bool {
	if p[1]&0x40 == 0 || p[3]&0x10 == 0 {
		return false
	}
	pos := tsPos(p)
	if pos > 180 || p[pos] != 0 {
		return false
	}
	pos += 1 + int(p[pos])
	if pos+12 > 188 || p[pos] != 0 && p[pos] != 2 || p[pos+1]&0x80 == 0 {
		return false
	}
	l := int(p[pos+1]&0xF)<<8 | int(p[pos+2])
	if l < 9 || pos+3+l > 188 {
		return false
	}
	if p[pos] == 0 && t.Chance(2, 3) { // prefer PMTs
		return false
	}
	body := p[pos : pos+3+l]
	for c := t.Int(1, 3); c > 0; c-- {
		at := 3 + t.Pick(l-4)
		if t.Chance(1, 4) {
			at = 1 + t.Pick(2) // section length
		}
		switch t.Pick(3) {
		case 0:
			body[at] ^= 1 << t.Pick(8)
		case 1:
			body[at] = byte(t.EdgeU(0, 255))
		default:
			body[at] = []byte{0x1B, 0x24, 0x10, 0x02, 0x06, 0x0F, 0x11, 0x03, 0x04, 0x81, 0x87, 0x15, 0x05, 0x0A, 0x7F, 0x80, 0x26, 0x59, 0x56, 0x6A, 0x52, 0x28, 0x4D, 0x48, 0x55, 0x58, 0x45, 0x46, 0x83}[t.Pick(29)]
		}
	}
	l = int(body[1]&0xF)<<8 | int(body[2])
	if l >= 9 && pos+3+l <= 188 {
		body = p[pos : pos+3+l]
	}
	crc := ref.CRC32MPEG(body[:len(body)-4])
	copy(body[len(body)-4:], ref.BE(4, uint64(crc)))
	t.Class("table-mutated")
	return true
}
