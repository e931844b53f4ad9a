package ref

import (
	"bytes"
	"fmt"
)

// An independent MPEG-TS parser (ISO 13818-1), strict, used to judge what the writer emits.

// TSPacket is a transport packet.
type TSPacket struct {
	Index   int
	PID     int
	PUSI    bool
	CC      int
	HasPL   bool
	RAI     bool
	Discont bool
	HasPCR  bool
	PCRBase int64
	PCRExt  int64
	Payload []byte
}

// ParseTSPacket parses a packet.
func ParseTSPacket(b []byte) (*TSPacket, error) {
	if len(b) != 188 {
		return nil, fmt.Errorf("packet of %d bytes", len(b))
	}
	if b[0] != 0x47 {
		return nil, fmt.Errorf("sync byte is %#x", b[0])
	}
	p := &TSPacket{}
	if b[1]&0x80 != 0 {
		return nil, fmt.Errorf("transport error indicator is set")
	}
	p.PUSI = b[1]&0x40 != 0
	p.PID = int(b[1]&0x1f)<<8 | int(b[2])
	if b[3]>>6 != 0 {
		return nil, fmt.Errorf("packet is scrambled")
	}
	afc := (b[3] >> 4) & 3
	if afc == 0 {
		return nil, fmt.Errorf("reserved adaptation_field_control")
	}
	p.CC = int(b[3] & 0xf)
	pos := 4
	if afc&2 != 0 {
		l := int(b[4])
		if afc == 2 && l != 183 || afc == 3 && l > 182 {
			return nil, fmt.Errorf("adaptation field length %d with control %d", l, afc)
		}
		af := b[5 : 5+l]
		pos = 5 + l
		if l > 0 {
			f := af[0]
			q := 1
			p.Discont = f&0x80 != 0
			p.RAI = f&0x40 != 0
			if f&0x10 != 0 {
				if len(af) < q+6 {
					return nil, fmt.Errorf("PCR does not fit")
				}
				x := af[q : q+6]
				p.HasPCR = true
				p.PCRBase = int64(x[0])<<25 | int64(x[1])<<17 | int64(x[2])<<9 | int64(x[3])<<1 | int64(x[4]>>7)
				p.PCRExt = int64(x[4]&1)<<8 | int64(x[5])
				if p.PCRExt >= 300 {
					return nil, fmt.Errorf("PCR extension %d", p.PCRExt)
				}
				q += 6
			}
			if f&0x0f != 0 {
				return nil, fmt.Errorf("unexpected adaptation field flags %#x", f)
			}
			for ; q < len(af); q++ {
				if af[q] != 0xff {
					return nil, fmt.Errorf("stuffing byte is %#x", af[q])
				}
			}
		}
	}
	if afc&1 != 0 {
		p.HasPL = true
		p.Payload = b[pos:]
	}
	return p, nil
}

// ParseTS splits and parses packets and checks continuity counters.
func ParseTS(b []byte) ([]*TSPacket, error) {
	if len(b)%188 != 0 {
		return nil, fmt.Errorf("stream of %d bytes is not a whole number of packets", len(b))
	}
	var out []*TSPacket
	cc := map[int]int{}
	for i := 0; i < len(b)/188; i++ {
		p, err := ParseTSPacket(b[i*188 : (i+1)*188])
		if err != nil {
			return nil, fmt.Errorf("packet %d: %w", i, err)
		}
		p.Index = i
		if last, ok := cc[p.PID]; ok {
			want := last
			if p.HasPL {
				want = (last + 1) & 0xf
			}
			if p.CC != want {
				return nil, fmt.Errorf("packet %d: PID %d: continuity counter %d, expected %d", i, p.PID, p.CC, want)
			}
		}
		cc[p.PID] = p.CC
		out = append(out, p)
	}
	return out, nil
}

// CRC32MPEG computes the CRC of sections.
func CRC32MPEG(b []byte) uint32 {
	crc := uint32(0xffffffff)
	for _, x := range b {
		for i := 7; i >= 0; i-- {
			bit := uint32(x>>i) & 1
			top := crc >> 31
			crc <<= 1
			if top^bit == 1 {
				crc ^= 0x04C11DB7
			}
		}
	}
	return crc
}

// TSES is an entry of a PMT.
type TSES struct {
	Type int
	PID  int
	Desc [][]byte // tag, length, content
}

// TSPMT is a PMT.
type TSPMT struct {
	Version int
	Program int
	PCRPID  int
	ES      []TSES
}

// section extracts the single section of a packet (tables of one packet).
func section(p *TSPacket, tableID byte) ([]byte, error) {
	if !p.PUSI || len(p.Payload) < 1 {
		return nil, fmt.Errorf("section without start indicator")
	}
	ptr := int(p.Payload[0])
	if 1+ptr+3 > len(p.Payload) {
		return nil, fmt.Errorf("pointer out of range")
	}
	s := p.Payload[1+ptr:]
	if s[0] != tableID {
		return nil, fmt.Errorf("table id %#x", s[0])
	}
	if s[1]&0xf0 != 0xb0 {
		return nil, fmt.Errorf("section syntax bits %#x", s[1])
	}
	l := int(s[1]&0xf)<<8 | int(s[2])
	if 3+l > len(s) || l < 9 {
		return nil, fmt.Errorf("section length %d", l)
	}
	for _, x := range s[3+l:] {
		if x != 0xff {
			return nil, fmt.Errorf("byte %#x after section", x)
		}
	}
	s = s[:3+l]
	if CRC32MPEG(s) != 0 {
		return nil, fmt.Errorf("CRC mismatch")
	}
	if s[5]&1 != 1 {
		return nil, fmt.Errorf("current_next_indicator is 0")
	}
	if s[6] != 0 || s[7] != 0 {
		return nil, fmt.Errorf("section numbers %d/%d", s[6], s[7])
	}
	return s, nil
}

// ParsePAT returns program number -> PMT PID.
func ParsePAT(p *TSPacket) (map[int]int, error) {
	s, err := section(p, 0)
	if err != nil {
		return nil, err
	}
	body := s[8 : len(s)-4]
	if len(body)%4 != 0 {
		return nil, fmt.Errorf("PAT body of %d bytes", len(body))
	}
	r := map[int]int{}
	for i := 0; i < len(body); i += 4 {
		r[int(body[i])<<8|int(body[i+1])] = int(body[i+2]&0x1f)<<8 | int(body[i+3])
	}
	return r, nil
}

func parseDescs(b []byte) ([][]byte, error) {
	var r [][]byte
	for len(b) > 0 {
		if len(b) < 2 || len(b) < 2+int(b[1]) {
			return nil, fmt.Errorf("descriptor does not fit")
		}
		r = append(r, b[:2+int(b[1])])
		b = b[2+int(b[1]):]
	}
	return r, nil
}

// ParsePMT parses a PMT.
func ParsePMT(p *TSPacket) (*TSPMT, error) {
	s, err := section(p, 2)
	if err != nil {
		return nil, err
	}
	r := &TSPMT{Program: int(s[3])<<8 | int(s[4]), Version: int(s[5]>>1) & 31}
	b := s[8 : len(s)-4]
	if len(b) < 4 {
		return nil, fmt.Errorf("short PMT")
	}
	r.PCRPID = int(b[0]&0x1f)<<8 | int(b[1])
	pil := int(b[2]&0xf)<<8 | int(b[3])
	b = b[4:]
	if pil > len(b) {
		return nil, fmt.Errorf("program info length")
	}
	b = b[pil:]
	for len(b) > 0 {
		if len(b) < 5 {
			return nil, fmt.Errorf("short ES entry")
		}
		e := TSES{Type: int(b[0]), PID: int(b[1]&0x1f)<<8 | int(b[2])}
		l := int(b[3]&0xf)<<8 | int(b[4])
		if 5+l > len(b) {
			return nil, fmt.Errorf("ES info length")
		}
		if e.Desc, err = parseDescs(b[5 : 5+l]); err != nil {
			return nil, err
		}
		b = b[5+l:]
		r.ES = append(r.ES, e)
	}
	return r, nil
}

// TSPES is a reassembled PES packet.
type TSPES struct {
	PID      int
	First    *TSPacket
	Packets  []*TSPacket
	StreamID byte
	HasPTS   bool
	HasDTS   bool
	PTS      int64
	DTS      int64
	Length   int
	Data     []byte
	raw      []byte
}

func tsClock(b []byte, prefix byte) (int64, error) {
	if b[0]>>4 != prefix || b[0]&1 != 1 || b[2]&1 != 1 || b[4]&1 != 1 {
		return 0, fmt.Errorf("timestamp markers of %x", b[:5])
	}
	return int64(b[0]>>1&7)<<30 | int64(b[1])<<22 | int64(b[2]>>1)<<15 | int64(b[3])<<7 | int64(b[4]>>1), nil
}

func (p *TSPES) finish() error {
	b := p.raw
	if len(b) < 9 || !bytes.Equal(b[:3], []byte{0, 0, 1}) {
		return fmt.Errorf("PID %d: not a PES packet: %x", p.PID, b[:min(len(b), 16)])
	}
	p.StreamID = b[3]
	p.Length = int(b[4])<<8 | int(b[5])
	if p.Length != 0 && len(b) != 6+p.Length {
		return fmt.Errorf("PID %d: PES length %d, got %d bytes", p.PID, p.Length, len(b)-6)
	}
	if b[6]>>6 != 2 {
		return fmt.Errorf("PES marker bits of %#x", b[6])
	}
	ind := b[7] >> 6
	if ind == 1 {
		return fmt.Errorf("forbidden PTS_DTS_flags")
	}
	if b[7]&0x3f != 0 {
		return fmt.Errorf("unexpected PES flags %#x", b[7])
	}
	hl := int(b[8])
	if 9+hl > len(b) {
		return fmt.Errorf("PES header length %d", hl)
	}
	h := b[9 : 9+hl]
	var err error
	switch ind {
	case 2:
		if len(h) < 5 {
			return fmt.Errorf("PES header length %d", hl)
		}
		p.HasPTS = true
		if p.PTS, err = tsClock(h, 2); err != nil {
			return err
		}
		p.DTS = p.PTS
	case 3:
		if len(h) < 10 {
			return fmt.Errorf("PES header length %d", hl)
		}
		p.HasPTS, p.HasDTS = true, true
		if p.PTS, err = tsClock(h, 3); err != nil {
			return err
		}
		if p.DTS, err = tsClock(h[5:], 1); err != nil {
			return err
		}
	}
	p.Data = b[9+hl:]
	return nil
}

// ReassemblePES reassembles the PES packets of the given PIDs, in order of their first packet.
func ReassemblePES(pkts []*TSPacket, pids map[int]bool) ([]*TSPES, error) {
	var out []*TSPES
	cur := map[int]*TSPES{}
	for _, p := range pkts {
		if !pids[p.PID] {
			continue
		}
		if p.PUSI {
			e := &TSPES{PID: p.PID, First: p}
			cur[p.PID] = e
			out = append(out, e)
		}
		e := cur[p.PID]
		if e == nil {
			if p.HasPL {
				return nil, fmt.Errorf("packet %d: PID %d: payload before the first PES start", p.Index, p.PID)
			}
			continue
		}
		e.Packets = append(e.Packets, p)
		e.raw = append(e.raw, p.Payload...)
	}
	for _, e := range out {
		if err := e.finish(); err != nil {
			return nil, fmt.Errorf("PES at packet %d: %w", e.First.Index, err)
		}
	}
	return out, nil
}
