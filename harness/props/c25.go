package props

import (
	"bytes"
	"fmt"
	"reflect"

	amp4 "github.com/abema/go-mp4"
	"github.com/bluenviron/mediacommon/v2/pkg/formats/fmp4"
	"github.com/bluenviron/mediacommon/v2/pkg/formats/fmp4/seekablebuffer"
	. "verif/harness/engine" //nolint:revive
	"verif/harness/ref"
)

func genUserData(t *T) []amp4.IBox {
	var r []amp4.IBox
	for i, n := 0, t.Int(1, 5); i < n; i++ {
		switch t.Pick(7) {
		case 0:
			r = append(r, &amp4.Btrt{BufferSizeDB: uint32(t.EdgeU(0, 1<<32-1)), MaxBitrate: uint32(t.EdgeU(0, 1<<32-1)), AvgBitrate: 5})
		case 1:
			r = append(r, &amp4.Colr{ColourType: [4]byte{'n', 'c', 'l', 'x'}, ColourPrimaries: uint16(t.EdgeU(0, 65535)), TransferCharacteristics: uint16(t.Draw(65535)), FullRangeFlag: t.Bool()})
		case 2:
			b := &amp4.Sidx{ReferenceID: uint32(t.Draw(1 << 30)), Timescale: uint32(t.Draw(1 << 30)), References: []amp4.SidxReference{}}
			for k, m := 0, t.Int(0, 4); k < m; k++ {
				b.References = append(b.References, amp4.SidxReference{ReferenceType: t.Bool(), ReferencedSize: uint32(t.EdgeU(0, 1<<31-1)), SubsegmentDuration: uint32(t.Draw(1 << 31)), SAPType: uint32(t.Pick(8))})
			}
			b.ReferenceCount = uint16(len(b.References))
			r = append(r, b)
		case 3:
			r = append(r, &amp4.Free{Data: t.Bytes(t.Len(0, 300))})
		case 4:
			r = append(r, &amp4.Trex{TrackID: uint32(t.Draw(1 << 31)), DefaultSampleSize: uint32(t.Draw(1 << 31))})
		case 5:
			r = append(r, &amp4.Emsg{SchemeIdUri: "urn:x", Value: "y", Timescale: uint32(t.Draw(1 << 31)), Id: 5, MessageData: t.Bytes(t.Len(0, 60))})
		default:
			r = append(r, &amp4.Pssh{SystemID: [16]byte(t.Bytes(16)), DataSize: 5, Data: t.Bytes(5)})
		}
	}
	return r
}

func fmp4Rates(tr *fmp4.InitTrack) (avg, maxb uint32) {
	def := uint32(128825)
	if tr.Codec.IsVideo() {
		def = 1000000
	}
	avg, maxb = tr.AvgBitrate, tr.MaxBitrate
	if avg == 0 {
		avg = def
	}
	if maxb == 0 {
		maxb = def
	}
	return avg, maxb
}

// genInit generates an initialization segment.
func genInit(t *T) (*fmp4.Init, []*mp4Model) {
	n := t.Int(1, 6)
	if t.Chance(1, 1000) {
		n = t.Int(100, 300)
	}
	in := &fmp4.Init{}
	var ms []*mp4Model
	ids := map[int]bool{}
	for i := 0; i < n; i++ {
		m := genMP4Model(t, t.Pick(mp4Kinds))
		id := i + 1
		if t.Chance(1, 3) {
			id = int(t.EdgeU(1, 1<<32-1))
			for ids[id] {
				id = id%(1<<32-1) + 1
			}
		}
		ids[id] = true
		tr := &fmp4.InitTrack{ID: id, TimeScale: uint32(t.EdgeU(1, 1<<32-1)), Codec: m.codec}
		if t.Chance(1, 3) {
			tr.AvgBitrate = uint32(t.EdgeU(0, 1<<32-1))
			tr.MaxBitrate = uint32(t.EdgeU(0, 1<<32-1))
		}
		in.Tracks = append(in.Tracks, tr)
		ms = append(ms, m)
		t.Logf("track %d: id %d, time scale %d, %s %s", i, id, tr.TimeScale, mp4KindNames[m.kind], dump(m.codec))
	}
	if t.Chance(1, 3) {
		in.UserData = genUserData(t)
		t.Class("user-data")
		t.Logf("user data %s", dump(in.UserData))
	}
	return in, ms
}

// diffInit compares what was read with what was written.
func diffInit(in, out *fmp4.Init, ms []*mp4Model) error {
	if len(out.Tracks) != len(in.Tracks) {
		return fmt.Errorf("%d tracks, expected %d", len(out.Tracks), len(in.Tracks))
	}
	for i, m := range ms {
		g, w := out.Tracks[i], in.Tracks[i]
		if g.ID != w.ID || g.TimeScale != w.TimeScale {
			return fmt.Errorf("track %d: id %d time scale %d, expected %d %d", i, g.ID, g.TimeScale, w.ID, w.TimeScale)
		}
		if !normEqual(g.Codec, m.want) {
			return fmt.Errorf("track %d: codec %T %s, expected %T %s", i, g.Codec, dump(g.Codec), m.want, dump(m.want))
		}
		if g.Codec.IsVideo() != m.video {
			return fmt.Errorf("track %d: IsVideo is %v", i, g.Codec.IsVideo())
		}
	}
	if len(out.UserData) != len(in.UserData) {
		return fmt.Errorf("%d user data boxes, expected %d", len(out.UserData), len(in.UserData))
	}
	for i, b := range out.UserData {
		if reflect.TypeOf(b) != reflect.TypeOf(in.UserData[i]) || dump(b) != dump(in.UserData[i]) {
			return fmt.Errorf("user data %d: %T %s, expected %T %s", i, b, dump(b), in.UserData[i], dump(in.UserData[i]))
		}
	}
	return nil
}

// c25Foreign: the same tracks, in the layouts of other writers.
func c25Foreign(t *T) {
	in, ms := genInit(t)
	var sb seekablebuffer.Buffer
	if err := in.Marshal(&sb); err != nil {
		t.Failf("writing failed: %v", err)
	}
	data := foreignLayout(t, append([]byte(nil), sb.Bytes()...), false)
	t.Logf("%s", Hex(data))
	if !bytes.Equal(data, sb.Bytes()) {
		t.NonTrivial()
	}
	var out fmp4.Init
	if err := out.Unmarshal(variousSeeker(t, data)); err != nil {
		t.Failf("reading failed: %v", err)
	}
	if err := diffInit(in, &out, ms); err != nil {
		t.Failf("%v", err)
	}
	// written by the library, it is as if it were always so
	for i := range out.Tracks {
		out.Tracks[i].AvgBitrate, out.Tracks[i].MaxBitrate = in.Tracks[i].AvgBitrate, in.Tracks[i].MaxBitrate
	}
	var sb2 seekablebuffer.Buffer
	if err := out.Marshal(&sb2); err != nil {
		t.Failf("writing again failed: %v", err)
	}
	if !bytes.Equal(sb2.Bytes(), sb.Bytes()) {
		t.Failf("writing again gives different bytes")
	}
}

func c25(t *T) {
	in, ms := genInit(t)
	n := len(ms)
	if n > 1 {
		t.NonTrivial()
	}
	var sb seekablebuffer.Buffer
	if err := in.Marshal(&sb); err != nil {
		t.Failf("writing failed: %v", err)
	}
	data := append([]byte(nil), sb.Bytes()...)

	// structure
	bs, err := ref.ParseMP4(data)
	if err != nil {
		t.Failf("structure: %v", err)
	}
	if got := ref.Types(bs); !reflect.DeepEqual(got, []string{"ftyp", "moov"}) {
		t.Failf("top-level boxes are %v", got)
	}
	moov := bs[1]
	if mv := moov.Child("mvhd"); mv == nil || len(mv.Data) != 100 || moov.Children[0] != mv {
		t.Failf("no mvhd")
	}
	traks := moov.All("trak")
	mvex := moov.Child("mvex")
	if len(traks) != n || mvex == nil || len(mvex.All("trex")) != n || len(mvex.Children) != n {
		t.Failf("%d trak and %v in mvex, expected %d", len(traks), mvex, n)
	}
	for i, m := range ms {
		tr := in.Tracks[i]
		avg, maxb := fmp4Rates(tr)
		if err = m.checkTrak(traks[i], tr.ID, tr.TimeScale, avg, maxb, true); err != nil {
			t.Failf("track %d (%s): %v", i, mp4KindNames[m.kind], err)
		}
		x := mvex.Children[i]
		if !bytes.Equal(x.Data[:12], append([]byte{0, 0, 0, 0}, ref.BE(4, uint64(tr.ID), 4, 1)...)) {
			t.Failf("trex %d: %x", i, x.Data)
		}
		stbl := traks[i].Find("mdia", "minf", "stbl")
		for _, typ := range []string{"stts", "stsc", "stsz", "stco"} {
			b := stbl.Child(typ)
			if b == nil || !bytes.Equal(bytes.Trim(b.Data, "\x00"), nil) {
				t.Failf("track %d: %s is not empty", i, typ)
			}
		}
	}
	ud := moov.Child("udta")
	if (ud != nil) != (len(in.UserData) != 0) || ud != nil && len(ud.Children) != len(in.UserData) {
		t.Failf("user data box has wrong content")
	}
	if ud != nil && moov.Children[len(moov.Children)-1] != ud {
		t.Failf("user data box is not at the end")
	}

	if t.Chance(1, 4) {
		writtenElsewhere(t, in.Marshal, data)
	}

	// reading
	var out fmp4.Init
	if err = out.Unmarshal(variousSeeker(t, data)); err != nil {
		t.Failf("reading failed: %v", err)
	}
	if err = diffInit(in, &out, ms); err != nil {
		t.Failf("%v", err)
	}

	// writing again what was read
	for i := range out.Tracks {
		out.Tracks[i].AvgBitrate, out.Tracks[i].MaxBitrate = in.Tracks[i].AvgBitrate, in.Tracks[i].MaxBitrate
	}
	var sb2 seekablebuffer.Buffer
	if err = out.Marshal(&sb2); err != nil {
		t.Failf("writing again failed: %v", err)
	}
	if !bytes.Equal(sb2.Bytes(), data) {
		t.Failf("writing again gives different bytes")
	}
}

// c25Wild: what cannot be represented is refused.
// wildID generates an identifier that may not be representable.
func wildID(t *T) int {
	return int(t.Edge(-1<<33, 1<<33))
}

func c25Wild(t *T) {
	c := genWildMP4(t)
	ts := uint32(t.EdgeU(1, 1<<32-1))
	id := 1
	if t.Chance(1, 8) {
		id = wildID(t)
	}
	in := &fmp4.Init{Tracks: []*fmp4.InitTrack{{ID: id, TimeScale: ts, Codec: c}}}
	t.Logf("identifier %d", id)
	t.Logf("%T %s", c, Hex([]byte(dump(c))))
	t.Classf("%T", c)
	var sb seekablebuffer.Buffer
	err := in.Marshal(&sb)
	if err != nil {
		t.Class("refused")
		t.NonTrivial()
		return
	}
	t.Class("written")
	var out fmp4.Init
	if err = out.Unmarshal(bytes.NewReader(sb.Bytes())); err != nil {
		t.Failf("parameters were accepted by the writer, but reading failed: %v", err)
	}
	var sb2 seekablebuffer.Buffer
	if err = out.Marshal(&sb2); err != nil {
		t.Failf("what was read cannot be written: %v", err)
	}
	if out.Tracks[0].ID != id {
		t.Failf("silently altered: identifier read as %d, written as %d", out.Tracks[0].ID, id)
	}
	if !wildEqual(out.Tracks[0].Codec, c) {
		t.Failf("silently altered: read as %s, written as %s", dump(out.Tracks[0].Codec), dump(c))
	}
}

func init() {
	Register(&Prop{
		ID:    "C25",
		Boost: 2,
		Title: "Fragmented-MP4 initialization segments round-trip for every codec",
		Rule:  "at least two tracks; refused parameters",
		Assumptions: []string{
			"codec parameters fit the fields of the format (bit fields of AC-3 and E-AC-3 boxes, bit depths), track identifiers are between 1 and 2^32-1 and time scales are not zero",
			"dimensions of MPEG-4/2/1 video tracks are the placeholders of the library (800x600)",
			"bitrates are written, and not read back",
		},
		Subs: []Sub{
			{Name: "init", Fn: c25, Quick: 15000},
			{Name: "foreign", Fn: c25Foreign, Quick: 15000},
			{Name: "unrepresentable", Fn: c25Wild, Quick: 15000},
		},
	})
}
