package props

import (
	"bytes"
	"fmt"

	"github.com/bluenviron/mediacommon/v2/pkg/formats/mp4/codecs"
	. "verif/harness/engine" //nolint:revive
	"verif/harness/ref"
)

const mp4Kinds = 14

var mp4KindNames = []string{
	"AV1", "VP9", "H265", "H264", "MPEG4Video", "MPEG1Video", "MJPEG",
	"Opus", "FLAC", "MPEG4Audio", "MPEG1Audio", "AC3", "EAC3", "LPCM",
}

// mp4Model is a codec of a MP4 track, with what its boxes must contain.
type mp4Model struct {
	kind    int
	codec   codecs.Codec // as written
	want    codecs.Codec // as it must be read
	video   bool
	entry   string
	w, h    int64 // video size
	rate    int64 // audio
	chans   int
	oti     byte   // object type of the elementary stream descriptor
	dsi     []byte // decoder specific info, nil if absent
	confBox string
	conf    []byte // content of the configuration box
	loose   []int  // bytes of conf that are not checked (known finding)
	looseIs []byte // what they contain according to the known finding
	tail    bool   // conf may be followed by other fields
	cost    int
}

func maxDim(w, h int64) bool { return w >= 1 && h >= 1 && w <= 65535 && h <= 65535 }

// genMP4Model generates a codec whose parameters can be represented.
func genMP4Model(t *T, kind int) *mp4Model {
	m := &mp4Model{kind: kind, video: kind <= 6}
	switch kind {
	case 0:
		h, obu, _, unsupported := genSeqHeader(t)
		for i := 0; unsupported || int64(h.MaxFrameWidthMinus1) > 65534 || int64(h.MaxFrameHeightMinus1) > 65534; i++ {
			if i > 20 {
				t.Skip()
			}
			h, obu, _, unsupported = genSeqHeader(t)
		}
		m.w, m.h = int64(h.MaxFrameWidthMinus1)+1, int64(h.MaxFrameHeightMinus1)+1
		in := obu
		if t.Chance(1, 3) {
			in = withSize(obu, 0)
		}
		m.codec = &codecs.AV1{SequenceHeader: in}
		m.want = &codecs.AV1{SequenceHeader: obu}
		m.entry, m.confBox = "av01", "av1C"
		w := &ref.BitWriter{}
		w.U(0x81, 8)
		w.U(uint64(h.SeqProfile), 3)
		w.U(uint64(h.SeqLevelIdx[0]), 5)
		w.Flag(h.SeqTier[0])
		w.Flag(h.ColorConfig.HighBitDepth)
		w.Flag(h.ColorConfig.TwelveBit)
		w.Flag(h.ColorConfig.MonoChrome)
		w.Flag(h.ColorConfig.SubsamplingX)
		w.Flag(h.ColorConfig.SubsamplingY)
		w.U(uint64(h.ColorConfig.ChromaSamplePosition), 2)
		w.U(0, 8)
		m.conf = append(w.B, withSize(obu, 0)...)
	case 1:
		c := codecs.VP9{
			Width: int(t.Edge(1, 65535)), Height: int(t.Edge(1, 65535)), Profile: uint8(t.Pick(4)),
			BitDepth: []uint8{8, 10, 12}[t.Pick(3)], ChromaSubsampling: uint8(t.Pick(4)), ColorRange: t.Bool(),
		}
		m.w, m.h = int64(c.Width), int64(c.Height)
		d := c
		m.codec, m.want = &c, &d
		m.entry, m.confBox = "vp09", "vpcC"
		m.conf = []byte{1, 0, 0, 0, c.Profile, 10, c.BitDepth<<4 | c.ChromaSubsampling<<1 | byte(b2i(c.ColorRange)), 0, 0, 0, 0, 0}
		m.loose, m.looseIs = []int{5}, []byte{10}
	case 2:
		s, sps, w, h := genSPS265(t)
		for i := 0; !maxDim(w, h) || len(sps) > 60000; i++ {
			if i > 30 {
				t.Skip()
			}
			s, sps, w, h = genSPS265(t)
		}
		m.w, m.h = w, h
		vps, pps := mp4Params(t, 0x40), mp4Params(t, 0x44)
		m.codec = &codecs.H265{VPS: vps, SPS: sps, PPS: pps}
		m.want = &codecs.H265{VPS: vps, SPS: sps, PPS: pps}
		m.entry, m.confBox = "hvc1", "hvcC"
		raw := unescape(sps)
		ptl := raw[3:15]
		b := append([]byte{1}, ptl...)
		b = append(b, 0xF0, 0, 0xFC, 0xFC|byte(s.ChromaFormatIdc), 0xF8|byte(s.BitDepthLumaMinus8), 0xF8|byte(s.BitDepthChromaMinus8), 0, 0, 0x0F, 3)
		for i, n := range [][]byte{vps, sps, pps} {
			b = append(b, []byte{32, 33, 34}[i], 0, 1, byte(len(n)>>8), byte(len(n)))
			b = append(b, n...)
		}
		m.conf = b
		// known finding: the constraint indicator is copied from the wrong place of the escaped SPS.
		// Layers, nesting and completeness are advisory.
		m.loose = []int{6, 7, 8, 9, 10, 11}
		m.looseIs = sps[7:13]
	case 3:
		_, sps, w, h := genSPS264(t)
		for i := 0; !maxDim(w, h) || len(sps) > 60000; i++ {
			if i > 30 {
				t.Skip()
			}
			_, sps, w, h = genSPS264(t)
		}
		m.w, m.h = w, h
		pps := mp4Params(t, 0x68)
		m.codec = &codecs.H264{SPS: sps, PPS: pps}
		m.want = &codecs.H264{SPS: sps, PPS: pps}
		m.entry, m.confBox = "avc1", "avcC"
		raw := unescape(sps)
		b := []byte{1, raw[1], raw[2], raw[3], 0xFF, 0xE1, byte(len(sps) >> 8), byte(len(sps))}
		b = append(append(b, sps...), 1, byte(len(pps)>>8), byte(len(pps)))
		m.conf = append(b, pps...)
		m.tail = true
	case 4, 5:
		conf := t.Bytes(1 + t.Len(0, 300))
		if t.Chance(1, 20) {
			conf = t.Bytes(t.Int(16380, 16390))
		}
		m.w, m.h = 800, 600
		m.entry, m.confBox = "mp4v", "esds"
		m.dsi = conf
		if kind == 4 {
			m.codec, m.want = &codecs.MPEG4Video{Config: conf}, &codecs.MPEG4Video{Config: conf}
			m.oti = 0x20
		} else {
			m.codec, m.want = &codecs.MPEG1Video{Config: conf}, &codecs.MPEG1Video{Config: conf}
			m.oti = 0x61
		}
	case 6:
		c := codecs.MJPEG{Width: int(t.Edge(1, 65535)), Height: int(t.Edge(1, 65535))}
		d := c
		m.w, m.h = int64(c.Width), int64(c.Height)
		m.codec, m.want = &c, &d
		m.entry, m.confBox, m.oti = "mp4v", "esds", 0x6C
	case 7:
		c := codecs.Opus{ChannelCount: t.Int(1, 255)}
		if t.Bool() {
			c.ChannelCount = t.Int(1, 8)
		}
		d := c
		m.codec, m.want = &c, &d
		m.entry, m.confBox = "Opus", "dOps"
		m.rate, m.chans = 48000, c.ChannelCount
		m.conf = []byte{0, byte(c.ChannelCount), 0x01, 0x38, 0, 0, 0xBB, 0x80, 0, 0, 0}
	case 8:
		s := genFLAC(t)
		if t.Bool() {
			s.SampleRate = uint32([]int{44100, 48000, 96000, 192000, 88200, 65535, 65536, 8000}[t.Pick(8)])
		}
		d := s
		m.codec, m.want = &codecs.FLAC{StreamInfo: &s}, &codecs.FLAC{StreamInfo: &d}
		m.entry, m.confBox = "fLaC", "dfLa"
		m.rate, m.chans = int64(s.SampleRate), int(s.ChannelCount)
		w := &ref.BitWriter{}
		w.U(0, 32)
		w.U(0x80, 8)
		w.U(34, 24)
		w.U(uint64(s.MinBlockSize), 16)
		w.U(uint64(s.MaxBlockSize), 16)
		w.U(uint64(s.MinFrameSize), 24)
		w.U(uint64(s.MaxFrameSize), 24)
		w.U(uint64(s.SampleRate), 20)
		w.U(uint64(s.ChannelCount-1), 3)
		w.U(uint64(s.BitDepth-1), 5)
		w.U(s.TotalSamples, 36)
		w.BytesOut(s.MD5[:])
		m.conf = w.B
	case 9:
		c := genASC(t)
		if c.ChannelConfig == 0 {
			c.ChannelConfig = uint8(t.Int(1, 7))
			c.ChannelCount = aacChannels[c.ChannelConfig]
		}
		d := *c
		if t.Chance(1, 3) {
			d.ChannelCount = 0
		}
		m.codec, m.want = &codecs.MPEG4Audio{Config: d}, &codecs.MPEG4Audio{Config: *c}
		m.entry, m.confBox, m.oti = "mp4a", "esds", 0x40
		m.rate, m.chans = int64(c.SampleRate), c.ChannelCount
		w := &ref.BitWriter{}
		writeASC(w, c, false)
		m.dsi = w.B
	case 10:
		c := codecs.MPEG1Audio{SampleRate: []int{48000, 44100, 32000, 24000, 22050, 16000, 65535, 1}[t.Pick(8)], ChannelCount: t.Int(1, 2)}
		d := c
		m.codec, m.want = &c, &d
		m.entry, m.confBox, m.oti = "mp4a", "esds", 0x6B
		m.rate, m.chans = int64(c.SampleRate), c.ChannelCount
	case 11:
		i := t.Pick(3)
		c := codecs.AC3{
			SampleRate: []int{48000, 44100, 32000}[i], ChannelCount: t.Int(1, 6), Fscod: uint8(t.Pick(4)),
			Bsid: uint8(t.Pick(32)), Bsmod: uint8(t.Pick(8)), Acmod: uint8(t.Pick(8)), LfeOn: t.Bool(), BitRateCode: uint8(t.Pick(32)),
		}
		d := c
		d.Fscod = uint8(i)
		m.codec, m.want = &c, &d
		m.entry, m.confBox = "ac-3", "dac3"
		m.rate, m.chans = int64(c.SampleRate), c.ChannelCount
		w := &ref.BitWriter{}
		w.U(uint64(i), 2)
		w.U(uint64(c.Bsid), 5)
		w.U(uint64(c.Bsmod), 3)
		w.U(uint64(c.Acmod), 3)
		w.Flag(c.LfeOn)
		w.U(uint64(c.BitRateCode), 5)
		w.U(0, 5)
		m.conf = w.B
	case 12:
		i := t.Pick(3)
		c := codecs.EAC3{
			SampleRate: []int{48000, 44100, 32000}[i], ChannelCount: t.Int(1, 16), DataRate: uint16(t.EdgeU(0, 8191)),
			Asvc: t.Bool(), Bsmod: uint8(t.Pick(8)), Acmod: uint8(t.Pick(8)), LfeOn: t.Bool(),
		}
		if t.Bool() {
			c.NumDepSub = uint8(t.Int(1, 15))
			c.ChanLoc = uint16(t.EdgeU(0, 511))
		}
		d := c
		m.codec, m.want = &c, &d
		m.entry, m.confBox = "ec-3", "dec3"
		m.rate, m.chans = int64(c.SampleRate), c.ChannelCount
		w := &ref.BitWriter{}
		w.U(uint64(c.DataRate), 13)
		w.U(0, 3)
		w.U(uint64(i), 2)
		w.U(16, 5)
		w.U(0, 1)
		w.Flag(c.Asvc)
		w.U(uint64(c.Bsmod), 3)
		w.U(uint64(c.Acmod), 3)
		w.Flag(c.LfeOn)
		w.U(0, 3)
		w.U(uint64(c.NumDepSub), 4)
		if c.NumDepSub > 0 {
			w.U(uint64(c.ChanLoc), 9)
		} else {
			w.U(0, 1)
		}
		m.conf = w.B
	default:
		c := codecs.LPCM{
			LittleEndian: t.Bool(), BitDepth: int([]int{16, 24, 32, 8, 64}[t.Pick(5)]),
			SampleRate: []int{48000, 44100, 8000, 65535, 1}[t.Pick(5)], ChannelCount: t.Int(1, 255),
		}
		if t.Bool() {
			c.SampleRate = t.Int(1, 65535)
			c.ChannelCount = int(t.Edge(1, 65535))
			c.BitDepth = t.Int(1, 255)
		}
		d := c
		m.codec, m.want = &c, &d
		m.entry, m.confBox = "ipcm", "pcmC"
		m.rate, m.chans = int64(c.SampleRate), c.ChannelCount
		m.conf = []byte{0, 0, 0, 0, byte(b2i(c.LittleEndian)), byte(c.BitDepth)}
	}
	t.Class("codec:" + mp4KindNames[kind])
	return m
}

func mp4Params(t *T, first byte) []byte {
	b := t.Bytes(1 + t.Len(0, 100))
	if t.Chance(1, 40) {
		b = t.Bytes(t.Int(65500, 65535))
	}
	b[0] = first
	return b
}

func unescape(b []byte) []byte {
	var out []byte
	z := 0
	for _, x := range b {
		if z >= 2 && x == 3 {
			z = 0
			continue
		}
		out = append(out, x)
		if x == 0 {
			z++
		} else {
			z = 0
		}
	}
	return out
}

// mp4Descr is a descriptor of ISO 14496-1.
func mp4Descr(b []byte) (tag byte, body, rest []byte, err error) {
	if len(b) < 2 {
		return 0, nil, nil, fmt.Errorf("truncated descriptor")
	}
	tag = b[0]
	n, i := 0, 1
	for k := 0; ; k++ {
		if i >= len(b) || k == 4 {
			return 0, nil, nil, fmt.Errorf("invalid descriptor size")
		}
		n = n<<7 | int(b[i]&0x7F)
		i++
		if b[i-1]&0x80 == 0 {
			break
		}
	}
	if len(b)-i < n {
		return 0, nil, nil, fmt.Errorf("descriptor %d of %d bytes, %d available", tag, n, len(b)-i)
	}
	return tag, b[i : i+n], b[i+n:], nil
}

// checkESDS checks an elementary stream descriptor box.
func (m *mp4Model) checkESDS(b []byte, avg, maxb uint32) error {
	if len(b) < 4 || !bytes.Equal(b[:4], []byte{0, 0, 0, 0}) {
		return fmt.Errorf("esds: version and flags")
	}
	tag, body, rest, err := mp4Descr(b[4:])
	if err != nil || tag != 3 || len(rest) != 0 || len(body) < 3 {
		return fmt.Errorf("esds: elementary stream descriptor: tag %d, %d bytes follow, %v", tag, len(rest), err)
	}
	if body[2] != 0 {
		return fmt.Errorf("esds: flags %x", body[2])
	}
	tag, dc, body, err := mp4Descr(body[3:])
	if err != nil || tag != 4 || len(dc) < 13 {
		return fmt.Errorf("esds: decoder configuration: tag %d %v", tag, err)
	}
	stream := byte(4)
	if !m.video {
		stream = 5
	}
	if dc[0] != m.oti || dc[1] != stream<<2|1 {
		return fmt.Errorf("esds: object type %#x stream %#x, expected %#x %#x", dc[0], dc[1], m.oti, stream<<2|1)
	}
	r := ref.Rd{B: dc[5:]}
	if mx, av := uint32(r.U(4)), uint32(r.U(4)); mx != maxb || av != avg {
		return fmt.Errorf("esds: bitrates %d %d, expected %d %d", mx, av, maxb, avg)
	}
	dc = r.B
	if m.dsi == nil {
		if len(dc) != 0 {
			return fmt.Errorf("esds: unexpected data in the decoder configuration")
		}
	} else {
		tag, info, dc2, err := mp4Descr(dc)
		if err != nil || tag != 5 || len(dc2) != 0 || !bytes.Equal(info, m.dsi) {
			return fmt.Errorf("esds: decoder specific info: tag %d, %x, expected %x (%v)", tag, info, m.dsi, err)
		}
	}
	tag, sl, body, err := mp4Descr(body)
	if err != nil || tag != 6 || len(body) != 0 || !bytes.Equal(sl, []byte{2}) {
		return fmt.Errorf("esds: sync layer configuration: tag %d %x %v", tag, sl, err)
	}
	return nil
}

// mp4RateOk checks the integer part of the sample rate of a sample entry.
func mp4RateOk(got, rate int64) bool {
	if rate <= 65535 {
		return got == rate
	}
	// rates that do not fit: a regular division, the maximum, or zero (FLAC in ISOBMFF)
	return got == 0 || got == 65535 || rate%got == 0
}

// checkEntry checks a sample entry.
func (m *mp4Model) checkEntry(stsd *ref.Box, avg, maxb uint32, btrt bool) error {
	if len(stsd.Data) < 8 || !bytes.Equal(stsd.Data[:8], []byte{0, 0, 0, 0, 0, 0, 0, 1}) || len(stsd.Children) != 1 {
		return fmt.Errorf("stsd: %d entries", len(stsd.Children))
	}
	e := stsd.Children[0]
	if e.Type != m.entry {
		return fmt.Errorf("sample entry %q, expected %q", e.Type, m.entry)
	}
	r := ref.Rd{B: e.Data}
	r.Skip(6)
	if x := r.U(2); x != 1 {
		return fmt.Errorf("data reference index is %d", x)
	}
	if m.video {
		r.Skip(16)
		if w, h := r.U(2), r.U(2); int64(w) != m.w || int64(h) != m.h {
			return fmt.Errorf("sample entry: size %dx%d, expected %dx%d", w, h, m.w, m.h)
		}
	} else {
		r.Skip(8)
		if c := r.U(2); int(c) != m.chans {
			return fmt.Errorf("sample entry: %d channels, expected %d", c, m.chans)
		}
		r.Skip(2 + 4)
		if x := r.U(4); !mp4RateOk(int64(x>>16), m.rate) || x&0xFFFF != 0 {
			return fmt.Errorf("sample entry: sample rate %d+%d/65536, rate of the track is %d", x>>16, x&0xFFFF, m.rate)
		}
	}
	c := e.Child(m.confBox)
	if c == nil || e.Children[0] != c {
		return fmt.Errorf("sample entry has boxes %v", ref.Types(e.Children))
	}
	if m.confBox == "esds" {
		if err := m.checkESDS(c.Data, avg, maxb); err != nil {
			return err
		}
	} else {
		g := append([]byte(nil), c.Data...)
		if m.tail && len(g) > len(m.conf) {
			g = g[:len(m.conf)]
		}
		for i, x := range m.loose {
			if x < len(g) && g[x] == m.looseIs[i] {
				g[x] = m.conf[x]
			}
		}
		if m.confBox == "hvcC" && len(g) > 21 && len(m.conf) > 21 { // number of layers, nesting
			g[21] = m.conf[21]
		}
		if m.confBox == "hvcC" { // array completeness is free
			normHVCC(g)
		}
		if !bytes.Equal(g, m.conf) {
			i := 0
			for i < len(g) && i < len(m.conf) && g[i] == m.conf[i] {
				i++
			}
			return fmt.Errorf("%s differs at byte %d: %x, expected %x", m.confBox, i, c.Data, m.conf)
		}
	}
	b := e.Child("btrt")
	if btrt {
		if b == nil || len(e.Children) != 2 || len(b.Data) != 12 {
			return fmt.Errorf("sample entry has boxes %v", ref.Types(e.Children))
		}
		r := ref.Rd{B: b.Data[4:]}
		if mx, av := uint32(r.U(4)), uint32(r.U(4)); mx != maxb || av != avg {
			return fmt.Errorf("btrt: bitrates %d %d, expected %d %d", mx, av, maxb, avg)
		}
	} else if len(e.Children) != 1 {
		return fmt.Errorf("sample entry has boxes %v", ref.Types(e.Children))
	}
	return nil
}

func normHVCC(g []byte) {
	if len(g) < 23 {
		return
	}
	p := 23
	for i := 0; i < int(g[22]) && p+3 <= len(g); i++ {
		g[p] &= 0x3F
		n := int(g[p+1])<<8 | int(g[p+2])
		p += 3
		for k := 0; k < n && p+2 <= len(g); k++ {
			p += 2 + int(g[p])<<8 + int(g[p+1])
		}
	}
}

type tkhdInfo struct {
	id, w, h uint32
	dur      uint64
}

func mp4TKHD(trak *ref.Box) (*tkhdInfo, error) {
	b := trak.Find("tkhd")
	if b == nil || len(b.Data) < 4 {
		return nil, fmt.Errorf("no tkhd")
	}
	r := ref.Rd{B: b.Data}
	x := r.U(4)
	n := 4
	if x>>24 == 1 {
		n = 8
	}
	if x>>24 > 1 || x&1 == 0 {
		return nil, fmt.Errorf("tkhd: version and flags %x", x)
	}
	r.Skip(2 * n)
	i := &tkhdInfo{id: uint32(r.U(4))}
	r.Skip(4)
	i.dur = r.U(n)
	r.Skip(8 + 8 + 36)
	i.w, i.h = uint32(r.U(4)), uint32(r.U(4))
	if r.Err || len(r.B) != 0 {
		return nil, fmt.Errorf("invalid tkhd")
	}
	return i, nil
}

func mp4MDHD(trak *ref.Box) (timeScale uint32, dur uint64, err error) {
	b := trak.Find("mdia", "mdhd")
	if b == nil || len(b.Data) < 4 {
		return 0, 0, fmt.Errorf("no mdhd")
	}
	r := ref.Rd{B: b.Data}
	n := 4
	if r.U(4)>>24 == 1 {
		n = 8
	}
	r.Skip(2 * n)
	timeScale = uint32(r.U(4))
	dur = r.U(n)
	r.Skip(4)
	if r.Err || len(r.B) != 0 {
		return 0, 0, fmt.Errorf("invalid mdhd")
	}
	return timeScale, dur, nil
}

// checkTrak checks the boxes of a track, but the sample tables.
func (m *mp4Model) checkTrak(trak *ref.Box, id int, timeScale, avg, maxb uint32, btrt bool) error {
	tk, err := mp4TKHD(trak)
	if err != nil {
		return err
	}
	if tk.id != uint32(id) {
		return fmt.Errorf("tkhd: track id %d, expected %d", tk.id, id)
	}
	if m.video && (int64(tk.w) != m.w<<16 || int64(tk.h) != m.h<<16) {
		return fmt.Errorf("tkhd: size %x %x, expected %dx%d", tk.w, tk.h, m.w, m.h)
	}
	if !m.video && (tk.w != 0 || tk.h != 0) {
		return fmt.Errorf("tkhd: audio track with a size")
	}
	md, _, err := mp4MDHD(trak)
	if err != nil {
		return err
	}
	if md != timeScale {
		return fmt.Errorf("mdhd: time scale %d, expected %d", md, timeScale)
	}
	hd := trak.Find("mdia", "hdlr")
	typ := "soun"
	xm := "smhd"
	if m.video {
		typ, xm = "vide", "vmhd"
	}
	if hd == nil || len(hd.Data) < 12 || string(hd.Data[8:12]) != typ {
		return fmt.Errorf("handler is not %q", typ)
	}
	if trak.Find("mdia", "minf", xm) == nil {
		return fmt.Errorf("no %s", xm)
	}
	u := trak.Find("mdia", "minf", "dinf", "dref")
	if u == nil || len(u.Children) != 1 || u.Children[0].Type != "url " || !bytes.Equal(u.Children[0].Data, []byte{0, 0, 0, 1}) {
		return fmt.Errorf("data reference is not self-contained")
	}
	stsd := trak.Find("mdia", "minf", "stbl", "stsd")
	if stsd == nil {
		return fmt.Errorf("no stsd")
	}
	return m.checkEntry(stsd, avg, maxb, btrt)
}

// genWildMP4 generates codecs with parameters that may not be representable.
func genWildMP4(t *T) codecs.Codec {
	wild := func(edge int64) int {
		switch t.Weighted(4, 4, 4, 4, 1) {
		case 0:
			return int(t.Edge(0, edge*4))
		case 1:
			return int(edge + int64(t.Int(-2, 2)))
		case 2:
			return t.Int(1, 100)
		case 3:
			return int(edge) * t.Int(1, 5)
		}
		return -t.Int(0, int(edge)+2)
	}
	missing := func(ps ...*[]byte) {
		if t.Chance(1, 6) {
			t.Class("missing-parameters")
			for i, n := 0, t.Int(1, len(ps)); i < n; i++ {
				*ps[t.Pick(len(ps))] = [][]byte{nil, {}}[t.Pick(2)]
			}
		}
	}
	switch t.Pick(14) {
	case 0:
		c := &codecs.VP9{Width: wild(65536), Height: wild(65536), Profile: uint8(t.Pick(4)), BitDepth: 8, ChromaSubsampling: 1}
		if t.Chance(1, 4) {
			c.Profile, c.BitDepth, c.ChromaSubsampling = uint8(t.Edge(0, 255)), uint8(t.Edge(0, 255)), uint8(t.Edge(0, 255))
			c.Width, c.Height = 640, 480
		}
		return c
	case 1:
		return &codecs.MJPEG{Width: wild(65536), Height: wild(65536)}
	case 2:
		return &codecs.LPCM{BitDepth: []int{8, 16, 24, 32}[t.Pick(4)], SampleRate: []int{96000, 192000, 65536, wild(65536), 88200, 48000}[t.Pick(6)], ChannelCount: []int{t.Int(1, 8), wild(256), wild(65536)}[t.Weighted(4, 1, 1)]}
	case 3:
		return &codecs.MPEG1Audio{SampleRate: wild(65536), ChannelCount: t.Int(1, 2)}
	case 4:
		s := genFLAC(t)
		s.SampleRate = uint32(wild(1 << 20))
		return &codecs.FLAC{StreamInfo: &s}
	case 5:
		_, sps, _, _ := genSPS264(t)
		pps := []byte{0x68, 1}
		if t.Chance(1, 3) {
			pps = append(pps, t.Bytes(max(0, wild(65536)))...)
		}
		missing(&sps, &pps)
		return &codecs.H264{SPS: sps, PPS: pps}
	case 6:
		_, sps, _, _ := genSPS265(t)
		vps, pps := []byte{0x40, 1, 1}, []byte{0x44, 1, 1}
		switch t.Pick(4) {
		case 0:
			pps = append(pps, t.Bytes(max(0, wild(65536)))...)
		case 1:
			vps = append(vps, t.Bytes(max(0, wild(65536)))...)
		}
		missing(&vps, &sps, &pps)
		return &codecs.H265{VPS: vps, SPS: sps, PPS: pps}
	case 7:
		_, obu, _, _ := genSeqHeader(t)
		missing(&obu)
		return &codecs.AV1{SequenceHeader: obu}
	case 8:
		return &codecs.Opus{ChannelCount: wild(256)}
	case 9:
		c := &codecs.AC3{SampleRate: []int{48000, 44100, 32000, wild(65536)}[t.Pick(4)], ChannelCount: []int{t.Int(1, 6), wild(65536)}[t.Weighted(4, 1)], LfeOn: t.Bool()}
		c.Fscod = map[int]uint8{44100: 1, 32000: 2}[c.SampleRate] // derived from the sample rate
		for _, x := range []*uint8{&c.Bsid, &c.Bsmod, &c.Acmod, &c.BitRateCode} {
			*x = uint8(t.Draw(7))
			if t.Chance(1, 8) {
				*x = uint8(t.Edge(0, 255))
			}
		}
		return c
	case 12:
		c := &codecs.EAC3{SampleRate: []int{48000, wild(65536)}[t.Pick(2)], ChannelCount: []int{t.Int(1, 6), wild(65536)}[t.Pick(2)],
			DataRate: uint16(t.Edge(0, 65535)), Asvc: t.Bool(), Bsmod: uint8(t.Edge(0, 255)), Acmod: uint8(t.Edge(0, 255)), LfeOn: t.Bool(), NumDepSub: uint8(t.Edge(0, 255))}
		if t.Bool() {
			c.DataRate, c.Bsmod, c.Acmod = c.DataRate&0xFFF, c.Bsmod&7, c.Acmod&7
		}
		if c.NumDepSub != 0 {
			c.ChanLoc = uint16(t.Edge(0, 65535))
		}
		return c
	case 10:
		b := t.Bytes(t.Len(0, 20))
		missing(&b)
		return &codecs.MPEG4Video{Config: b}
	case 11:
		b := t.Bytes(t.Len(0, 20))
		missing(&b)
		return &codecs.MPEG1Video{Config: b}
	default:
		c := genASC(t)
		switch t.Pick(4) {
		case 0:
			c.ChannelConfig, c.ChannelCount = uint8(t.Pick(20)), 0
			if t.Bool() {
				c.ChannelConfig, c.ChannelCount = 0, t.Pick(20)
			}
		case 1:
			c.SampleRate = wild(1 << 24)
		}
		return &codecs.MPEG4Audio{Config: *c}
	}
}

// wildEqual compares codecs, with the normalizations of the format.
func wildEqual(g, w codecs.Codec) bool {
	if a, ok := w.(*codecs.MPEG4Audio); ok {
		c := a.Config
		if c.ChannelConfig >= 1 && c.ChannelConfig <= 7 {
			c.ChannelCount = aacChannels[c.ChannelConfig]
		} else if c.ChannelConfig == 0 {
			for i := 1; i < 8; i++ {
				if aacChannels[i] == c.ChannelCount {
					c.ChannelConfig = uint8(i)
				}
			}
		}
		w = &codecs.MPEG4Audio{Config: c}
	}
	return normEqual(g, w)
}
