package props

import (
	"bytes"
	"encoding/binary"

	. "verif/harness/engine" //nolint:revive
	"verif/harness/ref"
)

// foreignLayout rewrites a file in another, equally legal, way: what other writers produce.
// prog is set with progressive files, whose reader needs some boxes in a given order.
func foreignLayout(t *T, data []byte, prog bool) []byte {
	bs, err := ref.ParseMP4(data)
	if err != nil {
		t.Failf("structure: %v", err)
	}
	root := toMNodes(bs)
	old := map[*mnode][2]int{}
	var mdats []*mnode
	for i, n := range root {
		if n.typ == "mdat" {
			old[n] = [2]int{bs[i].Payload, bs[i].End}
			mdats = append(mdats, n)
		}
	}
	var moov *mnode
	for _, n := range root {
		if n.typ == "moov" {
			moov = n
		}
	}

	// tracks
	var mvhd, udta, mvex *mnode
	var traks []*mnode
	for _, k := range moov.kids {
		switch k.typ {
		case "mvhd":
			mvhd = k
		case "udta":
			udta = k
		case "mvex":
			mvex = k
		case "trak":
			traks = append(traks, k)
		}
	}
	var caption []*mnode
	for i, n := 0, t.Weighted(4, 2, 1); i < n; i++ {
		c := traks[t.Pick(len(traks))].clone()
		if b := c.kid("tkhd").body; len(b) > 16 {
			binary.BigEndian.PutUint32(b[12:], uint32(70000+i))
		}
		stsd := c.kid("mdia").kid("minf").kid("stbl").kid("stsd")
		stsd.kids = []*mnode{{typ: "c608", body: append([]byte{0, 0, 0, 0, 0, 0, 0, 1}, t.Bytes(t.Len(0, 8))...)}}
		caption = append(caption, c)
		t.Class("closed-captions")
	}
	for _, k := range traks {
		foreignTrak(t, k, prog)
	}
	for _, k := range caption {
		foreignTrak(t, k, prog)
	}

	// order of the boxes of moov: tracks keep their relative order
	order := append([]*mnode{}, traks...)
	insert := func(n *mnode) {
		i := t.Int(0, len(order))
		order = append(order[:i:i], append([]*mnode{n}, order[i:]...)...)
	}
	for _, c := range caption {
		insert(c)
	}
	for _, n := range []*mnode{mvex, udta} {
		if n != nil {
			insert(n)
		}
	}
	if udta == nil && prog && t.Chance(1, 3) {
		insert(&mnode{typ: "udta", kids: []*mnode{{typ: "free", body: t.Bytes(t.Len(0, 20))}}})
	}
	if mvex != nil {
		if t.Chance(1, 3) {
			mvex.kids = append([]*mnode{{typ: "mehd", body: []byte{0, 0, 0, 0, 0, 0, 1, 0}}}, mvex.kids...)
		}
		if t.Chance(1, 6) { // files that are not announced as fragmented
			for i, n := range order {
				if n == mvex {
					order = append(order[:i:i], order[i+1:]...)
					break
				}
			}
		}
	}
	moov.kids = append([]*mnode{mvhd}, order...)
	if prog || t.Bool() {
		foreignHeader(t, mvhd, 12, 4)
	}
	moov.kids = foreignExtra(t, moov.kids, 1, []string{"free", "skip", "iods", "uuid", "pssh", "meta", "xyz1"})
	if last := moov.kids[len(moov.kids)-1]; last.typ == "trak" && len(root) == 2 {
		_ = last // the sample tables of the track follow its description
	}

	// top level
	root = foreignExtra(t, root, 0, []string{"free", "skip", "uuid", "sidx", "emsg", "xyz2", "wide"})
	if !prog && t.Chance(1, 3) { // the rest of the file
		root = append(root, &mnode{typ: "moof", kids: []*mnode{{typ: "mfhd", body: make([]byte, 8)}}}, &mnode{typ: "mdat", body: t.Bytes(t.Len(0, 50))})
		t.Class("followed-by-fragments")
	}

	// header sizes
	var visit func([]*mnode)
	wide := t.Weighted(3, 1, 1)
	visit = func(ns []*mnode) {
		for _, n := range ns {
			if wide == 2 || wide == 1 && t.Chance(1, 6) {
				n.hdr64 = true
			}
			visit(n.kids)
		}
	}
	visit(root)
	if wide > 0 {
		t.Class("64-bit-sizes")
	}
	if t.Chance(1, 8) {
		root[len(root)-1].toEOF = !root[len(root)-1].hdr64
		t.Class("last-box-without-size")
	}

	// offsets
	if len(mdats) > 0 {
		pos := 0
		deltas := map[*mnode]int{}
		for _, n := range root {
			l := len(n.bytes())
			if o, ok := old[n]; ok {
				hs := 8
				if n.hdr64 {
					hs = 16
				}
				deltas[n] = pos + hs - o[0]
			}
			pos += l
		}
		for _, k := range moov.kids {
			if k.typ != "trak" {
				continue
			}
			b := k.kid("mdia").kid("minf").kid("stbl").kid("stco")
			if b == nil {
				continue
			}
			b.body = append([]byte{}, b.body...)
			for i := 8; i+4 <= len(b.body); i += 4 {
				v := int(binary.BigEndian.Uint32(b.body[i:]))
				for n, d := range deltas {
					if v >= old[n][0] && v <= old[n][1] {
						binary.BigEndian.PutUint32(b.body[i:], uint32(v+d))
						break
					}
				}
			}
		}
	}
	return mnodesBytes(root)
}

func (n *mnode) kid(typ string) *mnode {
	if n == nil {
		return nil
	}
	for _, k := range n.kids {
		if k.typ == typ {
			return k
		}
	}
	return nil
}

// foreignExtra inserts boxes that readers skip.
func foreignExtra(t *T, ns []*mnode, first int, types []string) []*mnode {
	for i, n := 0, t.Weighted(4, 2, 1); i < n; i++ {
		x := &mnode{typ: types[t.Pick(len(types))], body: t.Bytes(t.Len(0, 40))}
		p := t.Int(min(first, len(ns)), len(ns))
		ns = append(ns[:p:p], append([]*mnode{x}, ns[p:]...)...)
		t.Class("extra-boxes")
	}
	return ns
}

// foreignHeader turns a header box (mvhd, tkhd, mdhd) into its 64-bit version.
// The body is: version and flags, two times of 32 bits, mid bytes, a duration of 32 bits, the rest.
func foreignHeader(t *T, n *mnode, at, mid int) {
	b := append([]byte{}, n.body...)
	if len(b) < at+mid+4 || b[0] != 0 {
		return
	}
	tm := func(v []byte) []byte {
		return append(make([]byte, 4), v...)
	}
	t1, t2 := b[4:8], b[8:12]
	if t.Bool() {
		t1, t2 = t.Bytes(4), t.Bytes(4)
	}
	if t.Bool() {
		copy(b[4:], t1)
		copy(b[8:], t2)
		n.body = b
		return
	}
	out := append([]byte{1}, b[1:4]...)
	out = append(append(out, tm(t1)...), tm(t2)...)
	out = append(out, b[12:12+mid]...)
	out = append(out, tm(b[12+mid:16+mid])...)
	n.body = append(out, b[16+mid:]...)
	t.Class("64-bit-headers")
}

func foreignTrak(t *T, trak *mnode, prog bool) {
	tkhd, mdia := trak.kid("tkhd"), trak.kid("mdia")
	if t.Bool() {
		foreignHeader(t, tkhd, 12, 8)
	}
	tkhd.body[3] = byte(t.Pick(16)) // flags
	if !prog && trak.kid("edts") == nil && t.Chance(1, 4) {
		e := &mnode{typ: "edts", kids: []*mnode{{typ: "elst", body: ref.BE(4, 0, 4, 1, 4, 0, 4, t.Draw(1000), 4, 0x10000)}}}
		trak.kids = append([]*mnode{tkhd, e}, trak.kids[1:]...)
	}
	trak.kids = foreignExtra(t, trak.kids, 1, []string{"free", "tref", "uuid", "load", "tapt"})

	mdhd := mdia.kid("mdhd")
	if t.Bool() {
		foreignHeader(t, mdhd, 12, 4)
	}
	minf := mdia.kid("minf")
	var hs []*mnode
	for _, k := range mdia.kids {
		if k != mdhd && k != minf {
			hs = append(hs, k)
		}
	}
	switch t.Pick(4) {
	case 0:
		mdia.kids = append(append([]*mnode{}, hs...), mdhd, minf)
	case 1:
		mdia.kids = append([]*mnode{mdhd, minf}, hs...)
	}
	mdia.kids = foreignExtra(t, mdia.kids, 0, []string{"free", "elng", "uuid"})

	stbl := minf.kid("stbl")
	var other []*mnode
	for _, k := range minf.kids {
		if k != stbl {
			other = append(other, k)
		}
	}
	switch t.Pick(4) {
	case 0:
		minf.kids = append([]*mnode{stbl}, other...)
	case 1:
		p := t.Int(0, len(other))
		minf.kids = append(append(append([]*mnode{}, other[:p]...), stbl), other[p:]...)
	}
	minf.kids = foreignExtra(t, minf.kids, 0, []string{"free", "hdlr", "gmhd", "nmhd"})

	stsd := stbl.kid("stsd")
	if !prog && t.Chance(1, 3) && len(stbl.kids) > 1 {
		p := t.Int(0, len(stbl.kids)-2)
		var ks []*mnode
		for _, k := range stbl.kids {
			if k != stsd {
				ks = append(ks, k)
			}
		}
		stbl.kids = append(append(append([]*mnode{}, ks[:p]...), stsd), ks[p:]...)
	}
	stbl.kids = foreignExtra(t, stbl.kids, 0, []string{"free", "sdtp", "sgpd", "sbgp", "cslg", "subs"})
	if stbl.kids[len(stbl.kids)-1] == stsd {
		stbl.kids = append(stbl.kids, &mnode{typ: "free"})
	}
	for _, e := range stsd.kids {
		foreignEntry(t, e)
	}
}

// foreignEntry rewrites a sample entry.
func foreignEntry(t *T, e *mnode) {
	if e.typ == "c608" {
		return
	}
	if e.typ == "hvc1" && t.Bool() {
		e.typ = "hev1"
	}
	e.body = append([]byte{}, e.body...)
	e.body[7] = byte(t.Int(1, 3)) // data reference
	if len(e.body) == 78 {        // compressor name
		copy(e.body[42:74], append([]byte{5}, []byte("Coder")...))
		t.Class("compressor-name")
	}
	for _, k := range e.kids {
		switch k.typ {
		case "esds":
			k.body = foreignESDS(t, k.body)
		case "hvcC":
			k.body = foreignHvcC(t, k.body)
		case "dOps":
			if len(k.body) == 11 && t.Chance(1, 3) { // mapping table, other delays and rates
				n := int(k.body[1])
				b := append([]byte{0, byte(n)}, t.Bytes(8)...)
				b = append(b, 1, byte(n), 0)
				b = append(b, t.Bytes(n)...)
				k.body = b
				t.Class("opus-mapping")
			}
		case "dfLa":
			if t.Chance(1, 3) { // other metadata blocks
				b := append([]byte{}, k.body...)
				b[4] &= 0x7F
				c := t.Bytes(t.Len(0, 60))
				b = append(b, 0x84, 0, 0, byte(len(c)))
				k.body = append(b, c...)
				t.Class("flac-blocks")
			}
		case "av1C":
			if t.Chance(1, 3) && len(k.body) > 4 { // metadata OBU, before or after the sequence header
				m := append([]byte{0x2A, 3}, t.Bytes(3)...)
				b := append([]byte{}, k.body[:4]...)
				if t.Bool() {
					b = append(append(b, m...), k.body[4:]...)
				} else {
					b = append(append(b, k.body[4:]...), m...)
				}
				k.body = b
				t.Class("av1-metadata")
			}
		}
	}
	types := []string{"colr", "pasp", "btrt", "fiel", "free", "clap", "chnl", "mdcv", "clli", "SA3D", "xyz3"}
	e.kids = foreignExtra(t, e.kids, 0, types)
	// bitrate box first
	if len(e.kids) > 1 && t.Chance(1, 4) {
		e.kids = append(append([]*mnode{}, e.kids[1:]...), e.kids[0])
	}
}

// foreignDescr writes a descriptor, with a size of any width.
func foreignDescr(t *T, tag byte, body []byte) []byte {
	n := len(body)
	w := 1
	for n>>(7*w) != 0 {
		w++
	}
	w = t.Int(w, 4)
	out := []byte{tag}
	for k := w - 1; k >= 0; k-- {
		b := byte(n>>(7*k)) & 0x7F
		if k > 0 {
			b |= 0x80
		}
		out = append(out, b)
	}
	return append(out, body...)
}

// foreignESDS writes an elementary stream descriptor again.
func foreignESDS(t *T, b []byte) []byte {
	_, es, _, err := mp4Descr(b[4:])
	if err != nil {
		t.Failf("esds: %v", err)
	}
	_, dc, rest, err := mp4Descr(es[3:])
	if err != nil {
		t.Failf("esds: %v", err)
	}
	ndc := append([]byte{}, dc[:13]...)
	copy(ndc[2:], t.Bytes(11)) // buffer size, bit rates
	if len(dc) > 13 {
		tag, info, _, err2 := mp4Descr(dc[13:])
		if err2 != nil {
			t.Failf("esds: %v", err2)
		}
		ndc = append(ndc, foreignDescr(t, tag, info)...)
	}
	nes := t.Bytes(3)
	nes[2] = byte(t.Pick(32))
	switch t.Pick(4) {
	case 0:
		nes[2] |= 0x80
		nes = append(nes, t.Bytes(2)...)
	case 1:
		u := t.Bytes(t.Len(0, 20))
		nes[2] |= 0x40
		nes = append(append(nes, byte(len(u))), u...)
	case 2:
		nes[2] |= 0x20
		nes = append(nes, t.Bytes(2)...)
	}
	nes = append(nes, foreignDescr(t, 4, ndc)...)
	if !t.Chance(1, 4) {
		nes = append(nes, foreignDescr(t, 6, []byte{2})...)
	}
	_ = rest
	t.Class("esds-rewritten")
	return append(append([]byte{}, b[:4]...), foreignDescr(t, 3, nes)...)
}

// foreignHvcC writes the parameter sets in another order, along with others.
func foreignHvcC(t *T, b []byte) []byte {
	if len(b) < 23 {
		return b
	}
	var arrs [][]byte
	p := b[23:]
	for i := 0; i < int(b[22]); i++ {
		n := int(p[3])<<8 | int(p[4])
		arrs = append(arrs, append([]byte{}, p[:5+n]...))
		p = p[5+n:]
	}
	for i := range arrs {
		if t.Bool() {
			arrs[i][0] |= 0x80
		}
	}
	for i := len(arrs) - 1; i > 0; i-- {
		if j := t.Pick(i + 1); t.Bool() {
			arrs[i], arrs[j] = arrs[j], arrs[i]
		}
	}
	for i, n := 0, t.Weighted(3, 1, 1); i < n; i++ {
		c := t.Int(1, 3)
		a := []byte{39 + byte(t.Pick(2)), 0, byte(c)}
		for k := 0; k < c; k++ {
			u := t.Bytes(t.Len(2, 20))
			a = append(append(a, ref.BE(2, uint64(len(u)))...), u...)
		}
		j := t.Int(0, len(arrs))
		arrs = append(arrs[:j:j], append([][]byte{a}, arrs[j:]...)...)
		t.Class("hvcC-SEI")
	}
	out := append([]byte{}, b[:22]...)
	copy(out[1:13], t.Bytes(12))
	out = append(out, byte(len(arrs)))
	return append(out, bytes.Join(arrs, nil)...)
}
