package props

import (
	"encoding/binary"

	. "verif/harness/engine" //nolint:revive
	"verif/harness/ref"
)

// mnode is a mutable MP4 box.
type mnode struct {
	typ      string
	hdr64    bool
	toEOF    bool
	sizeDiff int64
	absSize  uint64 // if set, replaces the size
	hasAbs   bool
	body     []byte // before the children
	kids     []*mnode
}

func toMNodes(bs []*ref.Box) []*mnode {
	var out []*mnode
	for _, b := range bs {
		n := &mnode{typ: b.Type, body: b.Data}
		if len(b.Children) > 0 {
			n.body = b.Data[:b.Children[0].Start-b.Payload]
			n.kids = toMNodes(b.Children)
		}
		out = append(out, n)
	}
	return out
}

func (n *mnode) bytes() []byte {
	body := append([]byte{}, n.body...)
	for _, k := range n.kids {
		body = append(body, k.bytes()...)
	}
	hs := 8
	if n.hdr64 {
		hs = 16
	}
	size := uint64(int64(hs+len(body)) + n.sizeDiff)
	if n.hasAbs {
		size = n.absSize
	}
	h := make([]byte, hs)
	copy(h[4:], n.typ)
	if n.hdr64 {
		binary.BigEndian.PutUint32(h, 1)
		binary.BigEndian.PutUint64(h[8:], size)
	} else if n.toEOF {
		binary.BigEndian.PutUint32(h, 0)
	} else {
		binary.BigEndian.PutUint32(h, uint32(size))
	}
	return append(h, body...)
}

func mnodesBytes(ns []*mnode) []byte {
	var out []byte
	for _, n := range ns {
		out = append(out, n.bytes()...)
	}
	return out
}

func (n *mnode) clone() *mnode {
	c := *n
	c.body = append([]byte{}, n.body...)
	c.kids = nil
	for _, k := range n.kids {
		c.kids = append(c.kids, k.clone())
	}
	return &c
}

var mp4BoxTypes = []string{
	"----", "Opus", "aART", "ac-3", "akID", "auth", "av01", "av1C", "avc1", "avcC", "btrt", "co64", "colr", "covr", "cprt", "cslg", "ctim", "ctts", "dOps", "dac3", "data", "dec3", "desc", "dfLa", "dinf", "disk", "dref", "dscp", "ec-3", "edts", "elst", "emsg", "enca", "encv", "esds", "fLaC", "fiel", "fpcm", "free", "frma", "ftyp", "gnre", "hdlr", "hev1", "hvc1", "hvcC", "iden", "ilst", "ipcm", "keys", "mdat", "mdhd", "mdia", "mean", "mehd", "meta", "mfhd", "mfra", "mfro", "minf", "moof", "moov", "mp4a", "mp4v", "mvex", "mvhd", "name", "pasp", "payl", "pcmC", "perf", "pssh", "rtng", "saio", "saiz", "sbgp", "sbtt", "schi", "schm", "sdtp", "sgpd", "sidx", "sinf", "skip", "smhd", "stbl", "stco", "stpp", "stsc", "stsd", "stss", "stsz", "sttg", "stts", "styp", "tenc", "tfdt", "tfhd", "tfra", "titl", "tkhd", "tmpo", "traf", "trak", "trep", "trex", "trkn", "trun", "udta", "url ", "urn ", "uuid", "vlab", "vmhd", "vp08", "vp09", "vpcC", "vsid", "vttC", "vtta", "vttc", "vtte", "wave", "wvtt", "c608",
}

func mp4BoxType(t *T) string { return mp4BoxTypes[t.Pick(len(mp4BoxTypes))] }

// allNodes lists the slots of the tree.
type mslot struct {
	list *[]*mnode
	i    int
}

func mslots(list *[]*mnode) []mslot {
	var out []mslot
	for i := range *list {
		out = append(out, mslot{list, i})
		out = append(out, mslots(&(*list)[i].kids)...)
	}
	return out
}

var edge32 = []uint64{0, 1, 2, 3, 0xFF, 0x100, 0xFFFF, 0x7FFFFFFF, 0x80000000, 0xFFFFFFFF, 0xFFFFFFFE, 0x10000, 0x00FFFFFF, 19200, 19201, 0x4F1A00}

// mutateTree applies a structural mutation.
func mutateTree(t *T, root *[]*mnode) {
	slots := mslots(root)
	if len(slots) == 0 {
		return
	}
	// the boxes near the end (sample tables, codec boxes) are as likely as the others
	s := slots[t.Pick(len(slots))]
	n := (*s.list)[s.i]
	switch k := t.Pick(15); k {
	case 0: // delete
		*s.list = append(append([]*mnode{}, (*s.list)[:s.i]...), (*s.list)[s.i+1:]...)
	case 1: // duplicate
		*s.list = append(append(append([]*mnode{}, (*s.list)[:s.i+1]...), n.clone()), (*s.list)[s.i+1:]...)
	case 2: // swap
		j := t.Pick(len(*s.list))
		(*s.list)[s.i], (*s.list)[j] = (*s.list)[j], (*s.list)[s.i]
	case 3: // move elsewhere
		o := slots[t.Pick(len(slots))]
		c := n.clone()
		p := (*o.list)[o.i]
		p.kids = append(p.kids, c)
	case 4:
		n.typ = mp4BoxType(t)
	case 5: // another box of the tree
		o := slots[t.Pick(len(slots))]
		(*s.list)[s.i] = (*o.list)[o.i].clone()
	case 6: // truncate the body
		n.body = append([]byte{}, n.body[:t.Int(0, len(n.body))]...)
	case 7: // extend the body
		n.body = append(append([]byte{}, n.body...), t.Bytes(t.Len(1, 40))...)
	case 8: // size
		switch t.Pick(4) {
		case 0:
			n.sizeDiff = int64(t.Int(-12, 12))
		case 1:
			n.hasAbs, n.absSize = true, edge32[t.Pick(len(edge32))]
		case 2:
			n.hdr64, n.hasAbs, n.absSize = true, true, t.EdgeU(0, 1<<64-1)
		default:
			n.toEOF = true
		}
	case 9:
		n.hdr64 = !n.hdr64
	case 10: // flags, version
		n.body = append([]byte{}, n.body...)
		if len(n.body) > 0 {
			i := t.Pick(min(4, len(n.body)))
			n.body[i] ^= 1 << t.Pick(8)
		}
	case 11: // nest
		d := t.Int(1, 4)
		if t.Chance(1, 10) {
			d = t.Int(5, 60)
		}
		for i := 0; i < d; i++ {
			c := *n
			*n = mnode{typ: c.typ, body: c.body, kids: []*mnode{&c}}
			if t.Bool() {
				n.body = nil
			}
			if len(n.body) > 4096 {
				break
			}
		}
	case 12: // insert a box
		c := &mnode{typ: mp4BoxType(t), body: t.Bytes(t.Len(0, 60))}
		if t.Bool() && len(c.body) >= 4 {
			copy(c.body, []byte{byte(t.Pick(2)), 0, 0, 0})
		}
		*s.list = append(append(append([]*mnode{}, (*s.list)[:s.i]...), c), (*s.list)[s.i:]...)
	default: // a field
		n.body = append([]byte{}, n.body...)
		if len(n.body) >= 4 {
			i := 4 * t.Pick(min(12, len(n.body)/4))
			if t.Chance(1, 4) {
				i = t.Pick(len(n.body) - 3)
			}
			v := edge32[t.Pick(len(edge32))]
			if t.Chance(1, 3) {
				v = uint64(binary.BigEndian.Uint32(n.body[i:])) + uint64(t.Int(-3, 3))
			}
			binary.BigEndian.PutUint32(n.body[i:], uint32(v))
		} else if len(n.body) > 0 {
			n.body[t.Pick(len(n.body))] = byte(t.Draw(255))
		}
	}
}

// mutateBytes applies byte-level mutations.
func mutateBytes(t *T, b []byte) []byte {
	b = append([]byte{}, b...)
	if len(b) == 0 {
		return b
	}
	switch t.Pick(6) {
	case 0:
		b = b[:t.Int(0, len(b)-1)]
	case 1:
		b[t.Pick(len(b))] ^= 1 << t.Pick(8)
	case 2:
		b[t.Pick(len(b))] = byte(t.EdgeU(0, 255))
	case 3:
		i := t.Pick(len(b) + 1)
		b = append(b[:i:i], append(t.Bytes(t.Len(1, 20)), b[i:]...)...)
	case 4:
		i := t.Pick(len(b))
		j := min(len(b), i+t.Len(1, 30))
		b = append(b[:i:i], b[j:]...)
	default:
		if len(b) >= 4 {
			binary.BigEndian.PutUint32(b[t.Pick(len(b)-3):], uint32(edge32[t.Pick(len(edge32))]))
		}
	}
	return b
}

// mutateMP4 mutates a valid file.
func mutateMP4(t *T, data []byte) []byte {
	k := t.Weighted(1, 8, 3, 3)
	if k == 0 {
		t.Class("unmutated")
		return data
	}
	if k == 1 || k == 3 {
		bs, err := ref.ParseMP4(data)
		if err == nil {
			root := toMNodes(bs)
			for i, n := 0, t.Weighted(0, 4, 2, 1, 1); i < n; i++ {
				mutateTree(t, &root)
			}
			data = mnodesBytes(root)
			t.Class("tree-mutation")
		}
	}
	if k == 2 || k == 3 {
		for i, n := 0, t.Weighted(0, 4, 2, 1, 1); i < n; i++ {
			data = mutateBytes(t, data)
		}
		t.Class("byte-mutation")
	}
	if len(data) > 1<<20 {
		data = data[:1<<20]
	}
	return data
}
