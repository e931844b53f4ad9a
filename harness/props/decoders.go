package props

import (
	"fmt"
	"time"

	"github.com/bluenviron/mediacommon/v2/pkg/bits"
	"github.com/bluenviron/mediacommon/v2/pkg/codecs/ac3"
	"github.com/bluenviron/mediacommon/v2/pkg/codecs/av1"
	"github.com/bluenviron/mediacommon/v2/pkg/codecs/eac3"
	"github.com/bluenviron/mediacommon/v2/pkg/codecs/flac"
	"github.com/bluenviron/mediacommon/v2/pkg/codecs/g711"
	"github.com/bluenviron/mediacommon/v2/pkg/codecs/h264"
	"github.com/bluenviron/mediacommon/v2/pkg/codecs/h265"
	"github.com/bluenviron/mediacommon/v2/pkg/codecs/jpeg"
	"github.com/bluenviron/mediacommon/v2/pkg/codecs/mpeg1audio"
	"github.com/bluenviron/mediacommon/v2/pkg/codecs/mpeg4audio"
	"github.com/bluenviron/mediacommon/v2/pkg/codecs/mpeg4video"
	"github.com/bluenviron/mediacommon/v2/pkg/codecs/opus"
	"github.com/bluenviron/mediacommon/v2/pkg/codecs/vp8"
	"github.com/bluenviron/mediacommon/v2/pkg/codecs/vp9"
	"github.com/bluenviron/mediacommon/v2/pkg/formats/mpegts/substructs"
	. "verif/harness/engine" //nolint:revive
	"verif/harness/ref"
)

// decoder is one of the decoders of the library.
type decoder struct {
	name string
	// gen generates a valid input and an optional configuration.
	gen func(t *T) ([]byte, any)
	// mk creates a value to decode into.
	mk func(aux any) any
	// dec decodes into it.
	dec func(v any, b []byte) error
	// use computes everything that derives from an accepted value.
	use func(v any) []any
}

type unmarshaler interface{ Unmarshal([]byte) error }
type marshaler interface{ Marshal() ([]byte, error) }

func dUnmarshal(v any, b []byte) error { return v.(unmarshaler).Unmarshal(b) }

func dMarshal(v any) []any {
	b, err := v.(marshaler).Marshal()
	return []any{b, fmt.Sprint(err)}
}

func plainGen(f func(t *T) []byte) func(t *T) ([]byte, any) {
	return func(t *T) ([]byte, any) { return f(t), nil }
}

// results of functions
type (
	boolRes struct {
		V bool
	}
	intRes struct {
		V int64
		P int
	}
	bytesRes struct {
		V []byte
	}
	pceRes struct {
		V *mpeg4audio.ProgramConfigElement
	}
	bitsRes struct {
		V []int64
		P []int
	}
	ascPosRes struct {
		C   mpeg4audio.AudioSpecificConfig
		Pos int
	}
	opusAURes struct {
		A substructs.OpusAccessUnit
		N int
	}
	cellRes struct {
		A substructs.MetadataAUCell
		N int
	}
	ameAux struct {
		inline bool
		conf   *mpeg4audio.StreamMuxConfig
	}
)

func units(b []byte) [][]byte { // splits on zero-length-free prefixes
	var out [][]byte
	for len(b) > 0 {
		n := min(int(b[0])%32+1, len(b))
		out = append(out, b[:n])
		b = b[n:]
	}
	return out
}

func boolDec(name string, gen func(t *T) []byte, f func(b []byte) bool) decoder {
	return decoder{
		name, plainGen(gen), func(any) any { return &boolRes{} },
		func(v any, b []byte) error { v.(*boolRes).V = f(b); return nil },
		func(any) []any { return nil },
	}
}

func genRandomBytes(t *T) []byte { return t.Bytes(t.Len(0, 300)) }

// genRawBlock generates an AAC raw data block with leading elements that carry no channels.
func genRawBlock(t *T) (b []byte, kind, want int) {
	w := &ref.BitWriter{}
	for i := t.Int(0, 3); i > 0; i-- {
		if t.Bool() { // data stream element
			w.U(4, 3)
			w.U(t.Draw(15), 4)
			al := t.Bool()
			w.Flag(al)
			n := t.Len(0, 20)
			if t.Chance(1, 10) {
				n = t.Int(253, 255+255)
			}
			if n >= 255 {
				w.U(255, 8)
				w.U(uint64(n-255), 8)
			} else {
				w.U(uint64(n), 8)
			}
			if al {
				w.Align()
			}
			w.BytesOut(t.Bytes(n))
			t.Class("DSE")
		} else { // fill element
			w.U(6, 3)
			n := t.Len(0, 20)
			if t.Chance(1, 10) {
				n = t.Int(13, 269)
			}
			if n >= 15 {
				w.U(15, 4)
				w.U(uint64(n-14), 8)
			} else {
				w.U(uint64(n), 4)
			}
			w.BytesOut(t.Bytes(n))
			t.Class("FIL")
		}
		t.NonTrivial()
	}
	kind = t.Weighted(2, 2, 1, 1, 0, 2, 0, 1)
	w.U(uint64(kind), 3)
	switch kind {
	case 0, 3:
		want = 1
		w.U(t.Draw(15), 4)
	case 1:
		want = 2
		w.U(t.Draw(15), 4)
	case 2:
		w.U(t.Draw(15), 4)
	case 5:
		want = writePCE(t, w).channels
	}
	if kind != 7 {
		w.BytesOut(t.Bytes(t.Len(0, 10)))
	}
	w.Align()
	return w.B, kind, want
}

func genMPEG4Config(t *T) []byte {
	b := []byte{0, 0, 1, 0xB0, byte(t.Draw(255))}
	if t.Bool() {
		b = append(b, 0, 0, 1, 0xB5, byte(t.Draw(255)))
	}
	b = append(b, 0, 0, 1, byte(t.Pick(32)), 0, 0, 1, 0x20+byte(t.Pick(16)))
	b = append(b, t.ZBytes(t.Len(0, 20))...)
	if t.Chance(1, 3) {
		b = append(b, 0, 0, 1, 0xB2, 'x')
	}
	return b
}

func genBitstreamAV1(t *T) []byte {
	var b []byte
	for _, o := range genTU(t, 4) {
		b = append(b, withSize(o, 0)...)
	}
	return b
}

func joinNALUs(t *T, avcc bool) []byte {
	au := genAU(t, 8, 60)
	var b []byte
	for _, n := range au {
		if avcc {
			b = append(b, byte(len(n)>>24), byte(len(n)>>16), byte(len(n)>>8), byte(len(n)))
		} else {
			if t.Bool() {
				b = append(b, 0)
			}
			b = append(b, 0, 0, 1)
		}
		b = append(b, n...)
	}
	return b
}

// decoders lists the decoders.
var decoders = []decoder{
	{
		"bits", func(t *T) ([]byte, any) {
			ops := make([]int, t.Int(1, 12))
			for i := range ops {
				ops[i] = t.Int(-3, 64)
			}
			return genRandomBytes(t), ops
		},
		func(aux any) any {
			ops, _ := aux.([]int)
			return &struct {
				Ops []int
				R   bitsRes
			}{ops, bitsRes{}}
		},
		func(v any, b []byte) error {
			s := v.(*struct {
				Ops []int
				R   bitsRes
			})
			s.R = bitsRes{}
			pos := 0
			for _, o := range s.Ops {
				var n int64
				var err error
				switch o {
				case -3:
					var x uint32
					x, err = bits.ReadGolombUnsigned(b, &pos)
					n = int64(x)
				case -2:
					var x int32
					x, err = bits.ReadGolombSigned(b, &pos)
					n = int64(x)
				case -1:
					var f bool
					f, err = bits.ReadFlag(b, &pos)
					n = int64(b2i(f))
				default:
					var x uint64
					x, err = bits.ReadBits(b, &pos, o)
					n = int64(x)
				}
				if err != nil {
					return err
				}
				s.R.V = append(s.R.V, n)
				s.R.P = append(s.R.P, pos)
			}
			return nil
		},
		func(any) []any { return nil },
	},
	{
		"h264.SPS", plainGen(func(t *T) []byte {
			if t.Chance(1, 4) {
				return simpleSPS264(genSPSParams264(t, 2, t.Int(1, 8)))
			}
			_, b, _, _ := genSPS264(t)
			return b
		}),
		func(any) any { return &h264.SPS{} }, dUnmarshal,
		func(v any) []any { s := v.(*h264.SPS); return []any{s.Width(), s.Height(), s.FPS()} },
	},
	{
		"h264.AVCC", plainGen(func(t *T) []byte { return joinNALUs(t, true) }),
		func(any) any { return &h264.AVCC{} }, dUnmarshal, func(v any) []any { return dMarshal(*v.(*h264.AVCC)) },
	},
	{
		"h264.AnnexB", plainGen(func(t *T) []byte { return joinNALUs(t, false) }),
		func(any) any { return &h264.AnnexB{} }, dUnmarshal, func(v any) []any { return dMarshal(*v.(*h264.AnnexB)) },
	},
	{
		"h264.EmulationPreventionRemove", plainGen(func(t *T) []byte { return ref.Escape(t.ZBytes(t.Len(0, 100))) }),
		func(any) any { return &bytesRes{} },
		func(v any, b []byte) error { v.(*bytesRes).V = h264.EmulationPreventionRemove(b); return nil },
		func(any) []any { return nil },
	},
	boolDec("h264.IsRandomAccess", genRandomBytes, func(b []byte) bool { return h264.IsRandomAccess(units(b)) }),
	boolDec("h264.NALUType", genRandomBytes, func(b []byte) bool {
		return len(b) > 0 && h264.NALUType(b[0]).String() == "" && h265.NALUType(b[0]).String() == ""
	}),
	{
		"h265.SPS", plainGen(func(t *T) []byte { _, b, _, _ := genSPS265(t); return b }),
		func(any) any { return &h265.SPS{} }, dUnmarshal,
		func(v any) []any { s := v.(*h265.SPS); return []any{s.Width(), s.Height(), s.FPS()} },
	},
	{
		"h265.PPS", plainGen(func(t *T) []byte { _, b := genPPS265(t); return b }),
		func(any) any { return &h265.PPS{} }, dUnmarshal, func(any) []any { return nil },
	},
	boolDec("h265.IsRandomAccess", genRandomBytes, func(b []byte) bool { return h265.IsRandomAccess(units(b)) }),
	{
		"av1.SequenceHeader", plainGen(func(t *T) []byte {
			_, b, _, _ := genSeqHeader(t)
			return b
		}),
		func(any) any { return &av1.SequenceHeader{} }, dUnmarshal,
		func(v any) []any { s := v.(*av1.SequenceHeader); return []any{s.Width(), s.Height()} },
	},
	{
		"av1.Bitstream", plainGen(genBitstreamAV1),
		func(any) any { return &av1.Bitstream{} }, dUnmarshal, func(v any) []any { return dMarshal(*v.(*av1.Bitstream)) },
	},
	{
		"av1.OBUHeader", plainGen(func(t *T) []byte { return []byte{byte(t.Draw(15))<<3 | byte(t.Draw(1))<<1} }),
		func(any) any { return &av1.OBUHeader{} }, dUnmarshal, func(any) []any { return nil },
	},
	{
		"av1.LEB128", plainGen(func(t *T) []byte { return ref.Leb(t.EdgeU(0, 1<<32-1), t.Pick(9)) }),
		func(any) any { return &intRes{} },
		func(v any, b []byte) error {
			var l av1.LEB128
			n, err := l.Unmarshal(b)
			*v.(*intRes) = intRes{int64(l), n}
			return err
		},
		func(v any) []any {
			l := av1.LEB128(v.(*intRes).V)
			b := make([]byte, l.MarshalSize())
			l.MarshalTo(b)
			return []any{b}
		},
	},
	boolDec("av1.IsRandomAccess2", genRandomBytes, func(b []byte) bool { return av1.IsRandomAccess2(units(b)) }),
	{
		"av1.IsRandomAccess", plainGen(genRandomBytes), func(any) any { return &boolRes{} },
		func(v any, b []byte) error {
			var err error
			v.(*boolRes).V, err = av1.IsRandomAccess(units(b)) //nolint:staticcheck
			return err
		},
		func(any) []any { return nil },
	},
	{
		"vp9.Header", plainGen(func(t *T) []byte { _, b, _ := genVP9(t); return b }),
		func(any) any { return &vp9.Header{} }, dUnmarshal,
		func(v any) []any {
			h := v.(*vp9.Header)
			return []any{h.Width(), h.Height(), h.ChromaSubsampling()}
		},
	},
	boolDec("vp9.IsRandomAccess", func(t *T) []byte { _, b, _ := genVP9(t); return b }, vp9.IsRandomAccess),
	boolDec("vp8.IsRandomAccess", genRandomBytes, vp8.IsRandomAccess),
	{
		"ac3.SyncInfo", plainGen(genAC3),
		func(any) any { return &ac3.SyncInfo{} }, dUnmarshal,
		func(v any) []any { s := v.(*ac3.SyncInfo); return []any{s.FrameSize(), s.SampleRate()} },
	},
	{
		"ac3.BSI", plainGen(func(t *T) []byte { return genAC3(t)[5:] }),
		func(any) any { return &ac3.BSI{} }, dUnmarshal,
		func(v any) []any { return []any{v.(*ac3.BSI).ChannelCount()} },
	},
	{
		"eac3.SyncInfo", plainGen(func(t *T) []byte {
			f := eac3Fields{
				t.Pick(3), t.Pick(8), int(t.EdgeU(3, 2047)), t.Pick(4), t.Pick(3), t.Pick(4), t.Pick(8), t.Bool(), 16,
			}
			return f.write(t.Bytes(t.Len(0, 30)))
		}),
		func(any) any { return &eac3.SyncInfo{} }, dUnmarshal,
		func(v any) []any {
			s := v.(*eac3.SyncInfo)
			return []any{s.FrameSize(), s.SampleRate(), s.ChannelCount(), s.NumBlocks()}
		},
	},
	{
		"jpeg.DefineQuantizationTable", plainGen(func(t *T) []byte {
			var b []byte
			for i := t.Int(1, 4); i > 0; i-- {
				b = append(append(b, byte(t.Pick(16))), t.Bytes(64)...)
			}
			return b
		}),
		func(any) any { return &jpeg.DefineQuantizationTable{} }, dUnmarshal,
		func(v any) []any { return []any{v.(*jpeg.DefineQuantizationTable).Marshal(nil)} },
	},
	{
		"jpeg.DefineRestartInterval", plainGen(func(t *T) []byte { return t.Bytes(2) }),
		func(any) any { return &jpeg.DefineRestartInterval{} }, dUnmarshal, func(any) []any { return nil },
	},
	{
		"jpeg.StartOfScan", plainGen(func(t *T) []byte { return []byte{3, 0, 0, 1, 0x11, 2, 0x11, 0, 63, 0} }),
		func(any) any { return &jpeg.StartOfScan{} }, dUnmarshal,
		func(v any) []any { return []any{v.(*jpeg.StartOfScan).Marshal(nil)} },
	},
	{
		"jpeg.StartOfFrame1", plainGen(func(t *T) []byte {
			b := t.Bytes(4)
			return append(append([]byte{8}, b...), 3, 0, 0x21+byte(t.Pick(2)), 0, 1, 0x11, 0, 2, 0x11, 0)
		}),
		func(any) any { return &jpeg.StartOfFrame1{} }, dUnmarshal,
		func(v any) []any { return []any{v.(*jpeg.StartOfFrame1).Marshal(nil)} },
	},
	{
		"flac.StreamInfo", plainGen(func(t *T) []byte {
			s := genFLAC(t)
			b, err := s.Marshal()
			if err != nil {
				t.Skip()
			}
			return b
		}),
		func(any) any { return &flac.StreamInfo{} }, dUnmarshal, func(v any) []any { return dMarshal(*v.(*flac.StreamInfo)) },
	},
	{
		"mpeg4video.IsValidConfig", plainGen(genMPEG4Config), func(any) any { return &boolRes{} },
		func(_ any, b []byte) error { return mpeg4video.IsValidConfig(b) },
		func(any) []any { return nil },
	},
	{
		"opus.IDHeader", plainGen(func(t *T) []byte {
			h := opus.IDHeader{
				Version: 1, ChannelCount: uint8(t.EdgeU(0, 255)), PreSkip: uint16(t.EdgeU(0, 65535)), InputSampleRate: uint32(t.EdgeU(0, 1<<32-1)),
				OutputGain: uint16(t.EdgeU(0, 65535)), ChannelMappingFamily: uint8(t.EdgeU(0, 255)), ChannelMappingTable: t.Bytes(t.Len(0, 257)),
			}
			b, _ := h.Marshal()
			return b
		}),
		func(any) any { return &opus.IDHeader{} }, dUnmarshal, func(v any) []any { return dMarshal(*v.(*opus.IDHeader)) },
	},
	{
		"opus.PacketDuration", plainGen(func(t *T) []byte { return t.Bytes(t.Len(0, 10)) }), func(any) any { return &intRes{} },
		func(v any, b []byte) error {
			*v.(*intRes) = intRes{opus.PacketDuration2(b), int(opus.PacketDuration(b) / time.Microsecond)} //nolint:staticcheck
			return nil
		},
		func(any) []any { return nil },
	},
	{
		"mpeg4audio.AudioSpecificConfig", plainGen(func(t *T) []byte {
			w := &ref.BitWriter{}
			writeASC(w, genASC(t), t.Chance(1, 4))
			return w.B
		}),
		func(any) any { return &mpeg4audio.AudioSpecificConfig{} }, dUnmarshal,
		func(v any) []any { return dMarshal(*v.(*mpeg4audio.AudioSpecificConfig)) },
	},
	{
		"mpeg4audio.AudioSpecificConfig.UnmarshalFromPos", func(t *T) ([]byte, any) {
			w := &ref.BitWriter{}
			n := t.Int(0, 20)
			for i := 0; i < n; i++ {
				w.U(t.Draw(1), 1)
			}
			writeASC(w, genASC(t), t.Chance(1, 4))
			return w.B, n
		},
		func(aux any) any {
			n, _ := aux.(int)
			return &struct {
				From int
				R    ascPosRes
			}{n, ascPosRes{}}
		},
		func(v any, b []byte) error {
			s := v.(*struct {
				From int
				R    ascPosRes
			})
			s.R.Pos = s.From
			return s.R.C.UnmarshalFromPos(b, &s.R.Pos)
		},
		func(any) []any { return nil },
	},
	{
		"mpeg4audio.StreamMuxConfig", plainGen(func(t *T) []byte {
			w := &ref.BitWriter{}
			writeSMC(w, genSMC(t, t.Bool()), t.Chance(1, 4))
			return w.B
		}),
		func(any) any { return &mpeg4audio.StreamMuxConfig{} }, dUnmarshal,
		func(v any) []any { return dMarshal(*v.(*mpeg4audio.StreamMuxConfig)) },
	},
	{
		"mpeg4audio.AudioMuxElement", func(t *T) ([]byte, any) {
			aux := &ameAux{inline: t.Chance(2, 3)}
			w := &ref.BitWriter{}
			c := genSMC(t, true)
			if aux.inline {
				same := t.Chance(1, 3)
				w.Flag(same)
				if same {
					aux.conf = c
				} else {
					writeSMC(w, c, t.Chance(1, 4))
				}
			} else {
				aux.conf = c
			}
			genPayloads(t, c, w)
			return w.B, aux
		},
		func(a any) any {
			aux, _ := a.(*ameAux)
			if aux == nil {
				aux = &ameAux{inline: true}
			}
			return &mpeg4audio.AudioMuxElement{MuxConfigPresent: aux.inline, StreamMuxConfig: aux.conf}
		},
		dUnmarshal,
		func(v any) []any { return dMarshal(*v.(*mpeg4audio.AudioMuxElement)) },
	},
	{
		"mpeg4audio.AudioSyncStream", plainGen(func(t *T) []byte {
			var b []byte
			for i := t.Int(1, 4); i > 0; i-- {
				el := t.Bytes(t.Len(0, 100))
				w := &ref.BitWriter{}
				w.U(0x2B7, 11)
				w.U(uint64(len(el)), 13)
				b = append(append(b, w.B...), el...)
			}
			return b
		}),
		func(any) any { return &mpeg4audio.AudioSyncStream{} }, dUnmarshal,
		func(v any) []any { return dMarshal(*v.(*mpeg4audio.AudioSyncStream)) },
	},
	{
		"mpeg4audio.ADTSPackets", plainGen(func(t *T) []byte {
			var b []byte
			for i := t.Int(1, 4); i > 0; i-- {
				f := genADTSFields(t)
				if t.Chance(3, 4) {
					f.profile = 1
					f.ch = t.Int(1, 7)
				}
				au := t.Bytes(aacAULen(t, 1))
				f.protAbsent = b2i(!t.Chance(1, 4))
				f.frameLen = 7 + 2*(1-f.protAbsent) + len(au)
				b = append(b, f.write(au)...)
			}
			return b
		}),
		func(any) any { return &mpeg4audio.ADTSPackets{} }, dUnmarshal,
		func(v any) []any { return dMarshal(*v.(*mpeg4audio.ADTSPackets)) },
	},
	{
		"mpeg4audio.CountChannelsFromRawDataBlock", plainGen(func(t *T) []byte { b, _, _ := genRawBlock(t); return b }),
		func(any) any { return &intRes{} },
		func(v any, b []byte) error {
			n, err := mpeg4audio.CountChannelsFromRawDataBlock(b)
			v.(*intRes).V = int64(n)
			return err
		},
		func(any) []any { return nil },
	},
	{
		"mpeg4audio.ParsePCEFromRawDataBlock", plainGen(func(t *T) []byte {
			w := &ref.BitWriter{}
			w.U(5, 3)
			writePCE(t, w)
			return w.B
		}),
		func(any) any { return &pceRes{} },
		func(v any, b []byte) error {
			var err error
			v.(*pceRes).V, err = mpeg4audio.ParsePCEFromRawDataBlock(b)
			return err
		},
		func(any) []any { return nil },
	},
	{
		"mpeg1audio.FrameHeader", plainGen(func(t *T) []byte { b, _ := genMPAFrame(t, true); return b }),
		func(any) any { return &mpeg1audio.FrameHeader{} }, dUnmarshal,
		func(v any) []any { h := v.(*mpeg1audio.FrameHeader); return []any{h.FrameLen(), h.SampleCount()} },
	},
	{
		"g711.Alaw", plainGen(genRandomBytes), func(any) any { return new(g711.Alaw) },
		func(v any, b []byte) error { v.(*g711.Alaw).Unmarshal(b); return nil },
		func(v any) []any { return dMarshal(*v.(*g711.Alaw)) },
	},
	{
		"g711.Mulaw", plainGen(genRandomBytes), func(any) any { return new(g711.Mulaw) },
		func(v any, b []byte) error { v.(*g711.Mulaw).Unmarshal(b); return nil },
		func(v any) []any { return dMarshal(*v.(*g711.Mulaw)) },
	},
	{
		"substructs.OpusAudioDescriptor", plainGen(func(t *T) []byte {
			b, err := genOpusDesc(t).Marshal()
			if err != nil {
				t.Skip()
			}
			return b
		}),
		func(any) any { return &substructs.OpusAudioDescriptor{} }, dUnmarshal,
		func(v any) []any {
			d := v.(*substructs.OpusAudioDescriptor)
			if d.StreamCount+d.CoupledStreamCount > 255 {
				return nil
			}
			return dMarshal(*d)
		},
	},
	{
		"substructs.OpusAccessUnit", plainGen(func(t *T) []byte {
			a := genOpusAU(t)
			b := make([]byte, a.MarshalSize())
			if _, err := a.MarshalTo(b); err != nil {
				t.Skip()
			}
			return append(b, t.Bytes(t.Len(0, 4))...)
		}),
		func(any) any { return &opusAURes{} },
		func(v any, b []byte) error {
			r := v.(*opusAURes)
			var err error
			r.N, err = r.A.Unmarshal(b)
			return err
		},
		func(v any) []any {
			a := v.(*opusAURes).A
			b := make([]byte, a.MarshalSize())
			n, err := a.MarshalTo(b)
			return []any{b, n, fmt.Sprint(err)}
		},
	},
	{
		"substructs.MetadataAUCell", plainGen(func(t *T) []byte {
			c := substructs.MetadataAUCell{
				MetadataServiceID: uint8(t.EdgeU(0, 255)), SequenceNumber: uint8(t.EdgeU(0, 255)), CellFragmentIndication: uint8(t.Pick(4)),
				DecoderConfigFlag: t.Bool(), RandomAccessIndicator: t.Bool(), AUCellData: t.Bytes(t.Len(0, 300)),
			}
			b := make([]byte, 5+len(c.AUCellData))
			if _, err := c.MarshalTo(b); err != nil {
				t.Skip()
			}
			return append(b, t.Bytes(t.Len(0, 4))...)
		}),
		func(any) any { return &cellRes{} },
		func(v any, b []byte) error {
			r := v.(*cellRes)
			var err error
			r.N, err = r.A.Unmarshal(b)
			return err
		},
		func(v any) []any {
			a := v.(*cellRes).A
			b := make([]byte, 5+len(a.AUCellData))
			n, err := a.MarshalTo(b)
			return []any{b, n, fmt.Sprint(err)}
		},
	},
	{
		"substructs.MetadataDescriptor", plainGen(func(t *T) []byte {
			b, err := genMetadataDesc(t).Marshal()
			if err != nil {
				t.Skip()
			}
			return b
		}),
		func(any) any { return &substructs.MetadataDescriptor{} }, dUnmarshal,
		func(v any) []any { return dMarshal(*v.(*substructs.MetadataDescriptor)) },
	},
	{
		"substructs.MetadataSTDDescriptor", plainGen(func(t *T) []byte { return t.Bytes(9) }),
		func(any) any { return &substructs.MetadataSTDDescriptor{} }, dUnmarshal,
		func(v any) []any { return dMarshal(*v.(*substructs.MetadataSTDDescriptor)) },
	},
}

func genAC3(t *T) []byte {
	return ac3Frame(t.Draw(65535), t.Pick(3), t.Pick(38), t.Pick(9), t.Pick(8), t.Pick(8), t.Draw(255), t.Bool())
}

// timedAU is an access unit with its presentation timestamp.
type timedAU struct {
	au  [][]byte
	pts int64
}

// genHistory generates the access units of a video stream.
func genHistory(t *T, h265Codec bool, n int) []timedAU {
	st := gopStyle{size: t.Int(1, 4), gopLen: t.Int(1, 10)}
	st.pyramid = t.Bool()
	st.adaptive = t.Chance(1, 3)
	coded := genCoded(t, n, st, 1000)
	dur := t.Edge(1, 200000)
	origin := t.Edge(-1<<33, 1<<33)
	var out []timedAU
	if !h265Codec {
		p := genSPSParams264(t, 2, st.size)
		sps := simpleSPS264(p)
		pps := []byte{0x68, 0xce, 0x38, 0x80}
		fn := 0
		for _, f := range coded {
			var au [][]byte
			if f.idr {
				fn = 0
				au = append(au, sps, pps)
			}
			au = append(au, slice264(t, p, f, 2*(f.disp-f.gop), fn%(1<<p.log2fn), true, t.Int(0, 6)))
			if f.ref {
				fn++
			}
			out = append(out, timedAU{au, origin + int64(f.disp)*dur})
		}
		return out
	}
	frames, reorder := genFrames265(t, coded, t.Bool(), t.Int(1, 6), t.Bool())
	p := spsParams265{log2poc: t.Int(6, 16), reorder: reorder, subLayers: 1, width: 8 * t.Int(1, 100), height: 8 * t.Int(1, 100)}
	p.separate = t.Chance(1, 5)
	for _, f := range frames {
		if f.rps != nil && len(p.sets) < 4 && t.Chance(1, 2) {
			p.sets = append(p.sets, f.rps)
		}
	}
	pp := &h265.PPS{
		ID: uint32(t.Int(0, 3)), DependentSliceSegmentsEnabledFlag: t.Bool(), OutputFlagPresentFlag: t.Chance(1, 4),
		NumExtraSliceHeaderBits: uint8(t.Int(0, 2)),
	}
	sps := simpleSPS265(t, p)
	pps := writePPS265(t, pp)
	for _, f := range frames {
		var au [][]byte
		if f.idr {
			au = append(au, []byte{0x40, 0x01, 0x0c}, sps, pps)
		}
		au = append(au, slice265(t, p, pp, f, true, t.Int(0, 6)))
		out = append(out, timedAU{au, origin + int64(f.disp)*dur})
	}
	return out
}
