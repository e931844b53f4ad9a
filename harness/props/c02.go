package props

import (
	"bytes"
	"runtime/metrics"

	"github.com/bluenviron/mediacommon/v2/pkg/formats/fmp4"
	"github.com/bluenviron/mediacommon/v2/pkg/formats/fmp4/seekablebuffer"
	"github.com/bluenviron/mediacommon/v2/pkg/formats/pmp4"
	. "verif/harness/engine" //nolint:revive
	"verif/harness/ref"
)

var allocSample = []metrics.Sample{{Name: "/gc/heap/allocs:bytes"}}

// allocated returns the bytes allocated so far by the process.
func allocated() uint64 {
	metrics.Read(allocSample)
	return allocSample[0].Value.Uint64()
}

// overAllocates tells whether f, which can be repeated, allocates more than limit bytes.
// The runtime accounts for small objects in batches, that may be of earlier work: what matters must repeat itself.
func overAllocates(limit uint64, f func()) (uint64, bool) {
	least := ^uint64(0)
	for i := 0; i < 4; i++ {
		a0 := allocated()
		f()
		if least = min(least, allocated()-a0); least <= limit {
			return least, false
		}
	}
	return least, true
}

// mp4Budget is what reading n bytes may allocate: a fixed amount, a multiple of the input,
// and the documented limit of 19200 samples for each run.
func mp4Budget(data []byte, runs bool) uint64 {
	b := uint64(4<<20) + 600*uint64(len(data))
	if runs {
		b += uint64(bytes.Count(data, []byte("trun"))) * 19200 * 2000
	}
	return b
}

func feedInit(t *T, data []byte) {
	var in fmp4.Init
	var err error
	if a, over := overAllocates(mp4Budget(data, false), func() {
		in = fmp4.Init{}
		err = in.Unmarshal(bytes.NewReader(data))
	}); over {
		t.Failf("reading %d bytes as an initialization segment allocated %d bytes", len(data), a)
	}
	if err != nil {
		t.Class("init:refused")
		return
	}
	t.Class("init:accepted")
	if len(in.Tracks) == 0 {
		t.Failf("an initialization segment without tracks was accepted")
	}
	for _, tr := range in.Tracks {
		if tr.Codec == nil {
			t.Failf("a track without codec was yielded")
		}
		if tr.TimeScale == 0 {
			t.Failf("a track with time scale 0 was yielded")
		}
		tr.Codec.IsVideo()
	}
	var sb seekablebuffer.Buffer
	if err = in.Marshal(&sb); err != nil {
		t.Class("init:not-writable")
	}
}

func feedParts(t *T, data []byte) {
	var ps fmp4.Parts
	var err error
	if a, over := overAllocates(mp4Budget(data, true), func() {
		ps = nil
		err = ps.Unmarshal(data)
	}); over {
		t.Failf("reading %d bytes as fragments allocated %d bytes", len(data), a)
	}
	if err != nil {
		t.Class("parts:refused")
		return
	}
	t.Class("parts:accepted")
	n := 0
	for _, p := range ps {
		if p == nil {
			t.Failf("a nil part was yielded")
		}
		for _, tr := range p.Tracks {
			if tr == nil {
				t.Failf("a nil track was yielded")
			}
			for _, s := range tr.Samples {
				if s == nil {
					t.Failf("a nil sample was yielded")
				}
				n++
				if n < 2000 {
					s.GetH264() //nolint:errcheck
					s.GetH265() //nolint:errcheck
					s.GetAV1()  //nolint:errcheck
				}
			}
		}
	}
	if n > 0 {
		t.Class("parts:accepted-with-samples")
	}
	if n < 100000 {
		var sb seekablebuffer.Buffer
		if err = ps.Marshal(&sb); err != nil {
			t.Class("parts:not-writable")
		}
	}
}

func feedPres(t *T, data []byte) {
	var p pmp4.Presentation
	var err error
	if a, over := overAllocates(mp4Budget(data, false), func() {
		p = pmp4.Presentation{}
		err = p.Unmarshal(bytes.NewReader(data))
	}); over {
		t.Failf("reading %d bytes as a MP4 file allocated %d bytes", len(data), a)
	}
	if err != nil {
		t.Class("pmp4:refused")
		return
	}
	t.Class("pmp4:accepted")
	if len(p.Tracks) == 0 {
		t.Failf("a file without tracks was accepted")
	}
	n := 0
	total := uint64(0)
	for _, tr := range p.Tracks {
		if tr.Codec == nil {
			t.Failf("a track without codec was yielded")
		}
		if tr.TimeScale == 0 {
			t.Failf("a track with time scale 0 was yielded")
		}
		for i, s := range tr.Samples {
			if s == nil || s.GetPayload == nil {
				t.Failf("sample %d of %d of track %d: its payload cannot be requested", i, len(tr.Samples), tr.ID)
			}
			n++
			total += uint64(s.PayloadSize)
			if n > 1000 {
				continue
			}
			var b []byte
			if a, over := overAllocates(1<<20+8*uint64(len(data)), func() { b, err = s.GetPayload() }); over {
				t.Failf("getting the payload of sample %d (announced size %d) of a file of %d bytes allocated %d bytes", i, s.PayloadSize, len(data), a)
			}
			if err == nil && uint32(len(b)) != s.PayloadSize {
				t.Failf("sample %d: the payload has %d bytes, %d were announced", i, len(b), s.PayloadSize)
			}
			if err != nil {
				t.Class("pmp4:payload-error")
			}
		}
	}
	if n > 0 {
		t.Class("pmp4:accepted-with-samples")
	}
	if total < 64<<20 {
		w := &countWriter{}
		if err = p.Marshal(w); err != nil {
			t.Class("pmp4:not-writable")
		}
	}
}

func validInit(t *T) []byte {
	in := &fmp4.Init{}
	for i, n := 0, t.Int(1, 3); i < n; i++ {
		in.Tracks = append(in.Tracks, &fmp4.InitTrack{ID: i + 1, TimeScale: 90000, Codec: genMP4Model(t, t.Pick(mp4Kinds)).codec})
	}
	if t.Chance(1, 3) {
		in.UserData = genUserData(t)
	}
	var sb seekablebuffer.Buffer
	if err := in.Marshal(&sb); err != nil {
		t.Failf("writing failed: %v", err)
	}
	return sb.Bytes()
}

func rawBoxes(t *T) []byte {
	var b []byte
	for i, n := 0, t.Int(1, 5); i < n; i++ {
		b = append(b, ref.MkBox(mp4BoxType(t), t.Bytes(t.Len(0, 80)))...)
	}
	return b
}

func c02Init(t *T) {
	var data []byte
	switch t.Weighted(20, 1, 2, 1) {
	case 0:
		data = validInit(t)
		data = mutateMP4(t, data)
	case 1:
		data = t.Bytes(t.Len(0, 200))
	case 2: // boxes of any type inside user data or sample descriptions
		data = validInit(t)
		bs, _ := ref.ParseMP4(data)
		root := toMNodes(bs)
		moov := root[1]
		u := &mnode{typ: "udta"}
		for i, n := 0, t.Int(1, 3); i < n; i++ {
			k := &mnode{typ: mp4BoxType(t), body: t.Bytes(t.Len(0, 120))}
			if len(k.body) >= 4 && t.Chance(2, 3) {
				k.body[0] &= 1
				k.body[1] = 0
			}
			u.kids = append(u.kids, k)
		}
		for i := range moov.kids {
			if moov.kids[i].typ == "udta" {
				moov.kids = append(moov.kids[:i:i], moov.kids[i+1:]...)
				break
			}
		}
		moov.kids = append(moov.kids, u)
		data = mnodesBytes(root)
		t.Class("any-user-data")
	default:
		data = rawBoxes(t)
	}
	t.Logf("%s", Hex(data))
	t.Key(data)
	t.NonTrivial()
	feedInit(t, data)
	if t.Chance(1, 10) {
		feedPres(t, data)
		feedParts(t, data)
	}
}

func c02Parts(t *T) {
	var data []byte
	switch t.Weighted(10, 10, 1, 1) {
	case 0:
		var sb seekablebuffer.Buffer
		if err := toFMP4(genFragParts(t)).Marshal(&sb); err != nil {
			t.Failf("writing failed: %v", err)
		}
		data = mutateMP4(t, sb.Bytes())
	case 1:
		_, data, _ = genForeignFrag(t)
		data = mutateMP4(t, data)
	case 2:
		data = t.Bytes(t.Len(0, 200))
	default:
		data = rawBoxes(t)
	}
	t.Logf("%s", Hex(data))
	t.Key(data)
	t.NonTrivial()
	feedParts(t, data)
	if t.Chance(1, 10) {
		feedInit(t, data)
		feedPres(t, data)
	}
}

func c02Pres(t *T) {
	var data []byte
	switch t.Weighted(10, 10, 1, 1) {
	case 0:
		var buf bytes.Buffer
		if err := toPMP4(genPres(t, 3)).Marshal(&buf); err != nil {
			t.Failf("writing failed: %v", err)
		}
		data = mutateMP4(t, buf.Bytes())
	case 1:
		_, data, _ = genForeignPres(t)
		data = mutateMP4(t, data)
	case 2:
		data = t.Bytes(t.Len(0, 200))
	default:
		data = rawBoxes(t)
	}
	t.Logf("%s", Hex(data))
	t.Key(data)
	t.NonTrivial()
	feedPres(t, data)
	if t.Chance(1, 10) {
		feedInit(t, data)
		feedParts(t, data)
	}
}

// nested returns d boxes of a type, one inside the other.
func nested(typ string, d int, prefix, inner []byte) []byte {
	n := 8 + len(prefix)
	out := make([]byte, 0, n*d+len(inner))
	for i := 0; i < d; i++ {
		out = append(out, ref.BE(4, uint64((d-i)*n+len(inner)))...)
		out = append(out, typ...)
		out = append(out, prefix...)
	}
	return append(out, inner...)
}

// c02Bombs builds small files that announce or imply huge structures.
func c02Bombs(t *T) {
	mvhd := ref.MkBox("mvhd", make([]byte, 100))
	tkhd := ref.MkBox("tkhd", ref.BE(4, 7, 8, 0, 4, 1), make([]byte, 68))
	mdhd := ref.MkBox("mdhd", ref.BE(4, 0, 8, 0, 4, 90000, 4, 0, 4, 0))
	ftyp := ref.MkBox("ftyp", []byte("isomabcdisommp42"))
	elst := ref.MkBox("edts", ref.MkBox("elst", ref.BE(4, 0, 4, 0)))
	opus := ref.MkBox("stsd", ref.BE(4, 0, 4, 1), ref.MkBox("Opus", make([]byte, 6), ref.BE(2, 1, 8, 0, 2, 2, 2, 16, 4, 0, 4, 48000<<16),
		ref.MkBox("dOps", ref.BE(1, 0, 1, 2, 2, 312, 4, 48000, 2, 0, 1, 0))))
	counts := []uint64{0, 1, 2, 19200, 19201, 100000, 0x4F1A00, 0x4F1A01, 0x10000000, 0x7FFFFFFF, 0x80000000, 0xFFFFFFFF}
	cnt := func() uint64 { return counts[t.Pick(len(counts))] }
	var data []byte
	kind := t.Pick(8)
	switch kind {
	case 0: // nesting
		d := t.Int(2, 4000)
		typ := []string{"mdia", "minf", "stbl", "edts", "traf", "moov", "udta", "wave", "meta", "dinf", "mvex"}[t.Pick(11)]
		inner := nested(typ, d, nil, nil)
		switch typ {
		case "mdia":
			data = append(ftyp, ref.MkBox("moov", mvhd, ref.MkBox("trak", tkhd, inner))...)
			if t.Bool() {
				data = append(ftyp, ref.MkBox("moov", mvhd, ref.MkBox("trak", tkhd, elst, inner))...)
			}
		case "edts":
			data = append(ftyp, ref.MkBox("moov", mvhd, ref.MkBox("trak", tkhd, inner))...)
		case "minf", "stbl", "dinf":
			data = append(ftyp, ref.MkBox("moov", mvhd, ref.MkBox("trak", tkhd, ref.MkBox("mdia", mdhd, inner)))...)
			if t.Bool() {
				data = append(ftyp, ref.MkBox("moov", mvhd, ref.MkBox("trak", tkhd, elst, ref.MkBox("mdia", mdhd, inner)))...)
			}
		case "traf":
			data = ref.MkBox("moof", ref.MkBox("mfhd", ref.BE(4, 0, 4, 1)),
				nested("traf", d, append(ref.MkBox("tfhd", ref.BE(4, 0x20000, 4, 1)), ref.MkBox("tfdt", ref.BE(4, 0, 4, 0))...), nil))
		case "wave":
			data = append(ftyp, ref.MkBox("moov", mvhd, ref.MkBox("trak", tkhd, elst, ref.MkBox("mdia", mdhd, ref.MkBox("minf", ref.MkBox("stbl",
				ref.MkBox("stsd", ref.BE(4, 0, 4, 1), ref.MkBox("mp4a", make([]byte, 28), inner)))))))...)
		case "udta":
			data = append(ftyp, ref.MkBox("moov", mvhd, inner)...)
		default:
			data = append(ftyp, inner...)
		}
	case 1: // runs
		var runs []byte
		for i, n := 0, t.Int(1, 12); i < n; i++ {
			flags := []uint64{1, 0, 0x201, 0x001, 0x301, 0xF01}[t.Pick(6)]
			mk := ref.MkBox
			if t.Bool() {
				mk = ref.MkBox64
			}
			b := ref.BE(4, flags, 4, cnt())
			if flags&1 != 0 {
				b = append(b, ref.BE(4, uint64(t.Pick(300)))...)
			}
			runs = append(runs, mk("trun", b)...)
		}
		data = ref.MkBox("moof", ref.MkBox("mfhd", ref.BE(4, 0, 4, 1)),
			ref.MkBox("traf", ref.MkBox("tfhd", ref.BE(4, 0x20000, 4, 1)), ref.MkBox("tfdt", ref.BE(4, 0, 4, 0)), runs))
		data = append(data, ref.MkBox("mdat", []byte{1, 2, 3})...)
	case 2: // counts inside user data
		var inner []byte
		for i, n := 0, t.Int(1, 4); i < n; i++ {
			typ := []string{"trun", "stts", "stsz", "ctts", "stsc", "stco", "co64", "elst", "sgpd", "sbgp", "saiz", "saio", "tfra", "sidx", "pssh", "dref", "emsg", "keys", "trak", "sdtp"}[t.Pick(20)]
			b := ref.BE(4, uint64(t.Pick(3))<<24|uint64(t.Pick(4)))
			for k, m := 0, t.Int(1, 5); k < m; k++ {
				b = append(b, ref.BE(4, cnt())...)
			}
			inner = append(inner, ref.MkBox(typ, b)...)
		}
		trak := ref.MkBox("trak", tkhd, ref.MkBox("mdia", mdhd, ref.MkBox("minf", ref.MkBox("stbl", opus))))
		data = append(ftyp, ref.MkBox("moov", mvhd, trak, ref.MkBox("udta", inner))...)
	case 3, 4, 5: // sample tables
		var traks []byte
		tracks := 1
		if kind != 3 || t.Chance(1, 4) {
			tracks = t.Int(1, 4)
		}
		for i := 0; i < tracks; i++ {
			var stbl []byte
			stbl = append(stbl, opus...)
			tab := func(typ string, prefix []byte, fields int) []byte {
				n := t.Weighted(1, 4, 2)
				b := append(ref.BE(4, 0), prefix...)
				c := uint64(n)
				if t.Chance(1, 6) {
					c = cnt()
				}
				b = append(b, ref.BE(4, c)...)
				for k := 0; k < n*fields; k++ {
					v := uint64(t.Pick(4))
					if t.Chance(1, 4) {
						v = cnt()
					}
					b = append(b, ref.BE(4, v)...)
				}
				return ref.MkBox(typ, b)
			}
			if kind == 3 { // a consistent table with one wrong value
				k := t.Int(1, 6)
				if t.Chance(1, 4) {
					k = t.Int(7, 3000)
				}
				f := []uint64{uint64(k), 1, 1, uint64(k), 1, uint64(k), 1, 0x20, uint64(k)}
				if t.Chance(4, 5) {
					if i := t.Pick(len(f)); t.Chance(1, 3) { // off by a little
						f[i] += uint64(t.Int(1, 3)) - uint64(t.Pick(2))*4
					} else if t.Chance(1, 6) {
						f[i] = uint64(t.Int(0, k))
					} else {
						f[i] = cnt()
					}
				}
				sz := ref.BE(4, 0, 4, 0, 4, f[5])
				for x := 0; x < k; x++ {
					if v := f[6]; x == 0 {
						sz = append(sz, ref.BE(4, v)...)
					} else {
						sz = append(sz, ref.BE(4, uint64(t.Pick(3)))...)
					}
				}
				boxes := [][]byte{
					ref.MkBox("stts", ref.BE(4, 0, 4, 1, 4, f[0], 4, 10)),
					ref.MkBox("stsc", ref.BE(4, 0, 4, f[1], 4, f[2], 4, f[3], 4, 1)),
					ref.MkBox("stsz", sz),
					ref.MkBox("stco", ref.BE(4, 0, 4, f[4], 4, f[7])),
				}
				if t.Chance(1, 3) {
					j := t.Pick(4)
					boxes = append(boxes[:j:j], boxes[j+1:]...)
				}
				for _, b := range boxes {
					stbl = append(stbl, b...)
				}
			} else {
				for _, x := range []int{0, 1, 2, 3, 4, 5} {
					if t.Chance(1, 8) {
						continue
					}
					switch x {
					case 0:
						stbl = append(stbl, tab("stts", nil, 2)...)
					case 1:
						if t.Bool() {
							stbl = append(stbl, tab("stss", nil, 1)...)
						}
					case 2:
						if t.Bool() {
							stbl = append(stbl, tab("ctts", nil, 2)...)
						}
					case 3:
						stbl = append(stbl, tab("stsc", nil, 3)...)
					case 4:
						p := ref.BE(4, 0)
						if t.Chance(1, 6) {
							p = ref.BE(4, cnt())
						}
						stbl = append(stbl, tab("stsz", p, 1)...)
					default:
						stbl = append(stbl, tab("stco", nil, 1)...)
					}
				}
			}
			traks = append(traks, ref.MkBox("trak", tkhd, elst, ref.MkBox("mdia", mdhd, ref.MkBox("minf", ref.MkBox("stbl", stbl))))...)
		}
		data = append(ftyp, ref.MkBox("moov", mvhd, traks)...)
	case 6: // box sizes that wrap
		pre := []byte{}
		if t.Bool() {
			pre = append(pre, ftyp...)
		}
		if t.Bool() {
			pre = append(pre, ref.MkBox("free", make([]byte, t.Pick(20)))...)
		}
		typ := mp4BoxType(t)
		size := -uint64(t.Int(0, len(pre)))
		if t.Chance(1, 3) {
			size = -uint64(t.Pick(100))
		}
		data = append(pre, ref.BE(4, 1)...)
		data = append(data, typ...)
		data = append(data, ref.BE(8, size)...)
		data = append(data, t.Bytes(t.Pick(40))...)
	default: // sizes of codec boxes
		bs, _ := ref.ParseMP4(validInit(t))
		root := toMNodes(bs)
		stsd := []*mnode{}
		for _, s := range mslots(&root) {
			if n := (*s.list)[s.i]; n.typ == "stsd" {
				stsd = append(stsd, n)
			}
		}
		n := stsd[t.Pick(len(stsd))]
		for i, k := 0, t.Int(1, 3); i < k; i++ {
			sub := mslots(&n.kids)
			s := sub[t.Pick(len(sub))]
			x := (*s.list)[s.i]
			x.body = mutateBytes(t, x.body)
		}
		data = mnodesBytes(root)
	}
	t.Classf("bomb:%d", kind)
	t.Logf("%s", Hex(data))
	t.Key(data)
	t.NonTrivial()
	feedInit(t, data)
	feedParts(t, data)
	feedPres(t, data)
}

func init() {
	Register(&Prop{
		ID:    "C02",
		Title: "MP4 readers never crash, hang or over-allocate on arbitrary files",
		Rule:  "every case (a mutated, truncated, random or hostile file)",
		Assumptions: []string{
			"files up to 1 MiB",
			"allocation bound: 4 MiB + 600 bytes for each byte of input, plus the documented limit of 19200 samples for each run of a fragment",
			"a case that needs more than 25 s of CPU time is a hang",
		},
		Subs: []Sub{
			{Name: "init", Fn: c02Init, Quick: 40000},
			{Name: "parts", Fn: c02Parts, Quick: 40000},
			{Name: "pmp4", Fn: c02Pres, Quick: 40000},
			{Name: "bombs", Fn: c02Bombs, Quick: 20000},
		},
	})
}

var heapSample = []metrics.Sample{{Name: "/gc/heap/live:bytes"}}

// liveHeap returns the bytes that were in use at the end of the last collection.
func liveHeap() uint64 {
	metrics.Read(heapSample)
	return heapSample[0].Value.Uint64()
}
