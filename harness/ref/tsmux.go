package ref

// TSMuxer is an independent MPEG-TS multiplexer, with freedom in everything the standard leaves free.
type TSMuxer struct {
	Out []byte
	CC  map[int]int
	// Stuff returns how many bytes of stuffing to add to the adaptation field of a packet (0 most of the time).
	Stuff func() int
}

func (m *TSMuxer) packet(pid int, pusi bool, af []byte, hasAF bool, payload []byte) int {
	// returns the payload bytes consumed
	if m.CC == nil {
		m.CC = map[int]int{}
	}
	room := 184
	stuff := 0
	if hasAF {
		room -= 1 + len(af)
	}
	if m.Stuff != nil {
		stuff = m.Stuff()
	}
	if stuff > 0 && room-stuff >= 40 {
		if !hasAF {
			hasAF = true
			room-- // length byte
			stuff--
			if stuff > 0 {
				af = []byte{0}
				room--
				stuff--
			}
		} else if len(af) == 0 {
			af = []byte{0}
			room--
			stuff--
		}
		for i := 0; i < stuff; i++ {
			af = append(af, 0xFF)
			room--
		}
	}
	n := min(room, len(payload))
	if n < room { // must stuff to the end
		miss := room - n
		if !hasAF {
			hasAF = true
			miss--
		}
		if miss > 0 && len(af) == 0 {
			af = []byte{0}
			miss--
		}
		for i := 0; i < miss; i++ {
			af = append(af, 0xFF)
		}
	}
	b1 := byte(pid >> 8)
	if pusi {
		b1 |= 0x40
	}
	afc := byte(0)
	if hasAF {
		afc |= 2
	}
	if n > 0 {
		afc |= 1
	}
	cc := m.CC[pid]
	if n > 0 {
		m.CC[pid] = (cc + 1) & 15
	} else {
		cc = (cc + 15) & 15
	}
	out := []byte{0x47, b1, byte(pid), afc<<4 | byte(cc)}
	if hasAF {
		out = append(out, byte(len(af)))
		out = append(out, af...)
	}
	out = append(out, payload[:n]...)
	if len(out) != 188 {
		panic("TSMuxer: packet size")
	}
	m.Out = append(m.Out, out...)
	return n
}

// Section writes a section, in as many packets as needed; body excludes the CRC.
func (m *TSMuxer) Section(pid int, tableID byte, ext int, version int, body []byte) {
	l := 5 + len(body) + 4
	s := []byte{tableID, 0xB0 | byte(l>>8), byte(l), byte(ext >> 8), byte(ext), 0xC1 | byte(version<<1), 0, 0}
	s = append(s, body...)
	c := CRC32MPEG(s)
	s = append(s, byte(c>>24), byte(c>>16), byte(c>>8), byte(c))
	p := append([]byte{0}, s...)
	for len(p)%184 != 0 { // stuffing after the section
		p = append(p, 0xFF)
	}
	save := m.Stuff
	m.Stuff = nil
	for i := 0; len(p) > 0; i++ {
		n := m.packet(pid, i == 0, nil, false, p)
		p = p[n:]
	}
	m.Stuff = save
}

// PAT writes a PAT.
func (m *TSMuxer) PAT(programs [][2]int) {
	var b []byte
	for _, p := range programs {
		b = append(b, byte(p[0]>>8), byte(p[0]), 0xE0|byte(p[1]>>8), byte(p[1]))
	}
	m.Section(0, 0, 1, 0, b)
}

// PMT writes a PMT.
func (m *TSMuxer) PMT(pid, program, pcrPID int, info []byte, es []TSES) {
	b := []byte{0xE0 | byte(pcrPID>>8), byte(pcrPID), 0xF0 | byte(len(info)>>8), byte(len(info))}
	b = append(b, info...)
	for _, e := range es {
		var d []byte
		for _, x := range e.Desc {
			d = append(d, x...)
		}
		b = append(b, byte(e.Type), 0xE0|byte(e.PID>>8), byte(e.PID), 0xF0|byte(len(d)>>8), byte(len(d)))
		b = append(b, d...)
	}
	m.Section(pid, 2, program, 0, b)
}

// PESOpts are the options of a PES packet.
type PESOpts struct {
	StreamID   byte
	HasPTS     bool
	HasDTS     bool
	PTS, DTS   int64
	NoLength   bool
	HdrStuff   int
	Flags      byte // data alignment, copyright...
	ESRate     bool
	RAI        bool
	HasPCR     bool
	PCR        int64
	Private    []byte // transport private data in the adaptation field
	SplitAfter int    // payload bytes in the first packet, 0 = as many as possible
}

func clock(prefix byte, v int64) []byte {
	return []byte{
		prefix<<4 | byte(v>>30&7)<<1 | 1, byte(v >> 22), byte(v>>15&0x7f)<<1 | 1, byte(v >> 7), byte(v&0x7f)<<1 | 1,
	}
}

// PESBytes builds a PES packet.
func PESBytes(o PESOpts, data []byte) []byte {
	var h []byte
	f := byte(0)
	switch {
	case o.HasPTS && o.HasDTS:
		f = 0xC0
		h = append(append(h, clock(3, o.PTS)...), clock(1, o.DTS)...)
	case o.HasPTS:
		f = 0x80
		h = append(h, clock(2, o.PTS)...)
	}
	if o.ESRate {
		f |= 0x10
		h = append(h, 0x80, 0x12, 0x35)
	}
	for i := 0; i < o.HdrStuff; i++ {
		h = append(h, 0xFF)
	}
	l := 3 + len(h) + len(data)
	if o.NoLength || l > 65535 {
		l = 0
	}
	b := []byte{0, 0, 1, o.StreamID, byte(l >> 8), byte(l), 0x80 | o.Flags, f, byte(len(h))}
	return append(append(b, h...), data...)
}

// PESPackets writes the packets of a PES.
func (m *TSMuxer) PESPackets(pid int, o PESOpts, data []byte) {
	p := PESBytes(o, data)
	first := true
	for len(p) > 0 {
		var af []byte
		has := false
		if first && (o.RAI || o.HasPCR || o.Private != nil) {
			has = true
			f := byte(0)
			if o.RAI {
				f |= 0x40
			}
			if o.HasPCR {
				f |= 0x10
			}
			if o.Private != nil {
				f |= 2
			}
			af = []byte{f}
			if o.HasPCR {
				b := o.PCR
				af = append(af, byte(b>>25), byte(b>>17), byte(b>>9), byte(b>>1), byte(b&1)<<7|0x7E, 0)
			}
			if o.Private != nil {
				af = append(append(af, byte(len(o.Private))), o.Private...)
			}
		}
		q := p
		if first && o.SplitAfter > 0 {
			q = p[:min(len(p), o.SplitAfter)]
		}
		n := m.packet(pid, first, af, has, q)
		p = p[n:]
		first = false
	}
}

// Null writes a null packet.
func (m *TSMuxer) Null() {
	b := make([]byte, 188)
	b[0], b[1], b[2], b[3] = 0x47, 0x1F, 0xFF, 0x10
	for i := 4; i < 188; i++ {
		b[i] = 0xFF
	}
	m.Out = append(m.Out, b...)
}

// PCROnly writes a packet with an adaptation field only.
func (m *TSMuxer) PCROnly(pid int, pcr int64) {
	af := []byte{0x10, byte(pcr >> 25), byte(pcr >> 17), byte(pcr >> 9), byte(pcr >> 1), byte(pcr&1)<<7 | 0x7E, 0}
	m.packet(pid, false, af, true, nil)
}
