package ref

import (
	"encoding/binary"
	"fmt"
)

// Box is a MP4 box, parsed independently of the library.
type Box struct {
	Type     string
	Start    int // offset of the header
	End      int
	Payload  int // offset of the payload
	Data     []byte
	Children []*Box
}

// size of the fixed part that precedes the children of a container, -1 = not a container
func mp4Container(path []string, typ string) int {
	if len(path) > 0 && path[len(path)-1] == "stsd" {
		switch typ {
		case "avc1", "hvc1", "hev1", "vp09", "av01", "mp4v":
			return 78
		case "mp4a", "Opus", "fLaC", "ac-3", "ec-3", "ipcm":
			return 28
		}
		return -1
	}
	if len(path) > 0 && path[len(path)-1] == "udta" {
		return -1
	}
	switch typ {
	case "moov", "trak", "edts", "mdia", "minf", "dinf", "stbl", "mvex", "moof", "traf", "udta":
		return 0
	case "stsd", "dref":
		return 8
	}
	return -1
}

// ParseMP4 parses a sequence of boxes; sizes must nest exactly.
func ParseMP4(data []byte) ([]*Box, error) {
	return parseBoxes(data, 0, len(data), nil)
}

func parseBoxes(data []byte, pos, end int, path []string) ([]*Box, error) {
	var out []*Box
	for pos < end {
		if end-pos < 8 {
			return nil, fmt.Errorf("%v: %d stray bytes at %d", path, end-pos, pos)
		}
		size := int(binary.BigEndian.Uint32(data[pos:]))
		b := &Box{Type: string(data[pos+4 : pos+8]), Start: pos, Payload: pos + 8}
		if size < 8 || pos+size > end {
			return nil, fmt.Errorf("%v: box %q at %d has size %d, its container ends at %d", path, b.Type, pos, size, end)
		}
		b.End = pos + size
		b.Data = data[b.Payload:b.End]
		if skip := mp4Container(path, b.Type); skip >= 0 {
			if len(b.Data) < skip {
				return nil, fmt.Errorf("%v: box %q at %d is too short", path, b.Type, pos)
			}
			var err error
			b.Children, err = parseBoxes(data, b.Payload+skip, b.End, append(append([]string{}, path...), b.Type))
			if err != nil {
				return nil, err
			}
		}
		out = append(out, b)
		pos = b.End
	}
	return out, nil
}

// Types lists the types of boxes.
func Types(bs []*Box) []string {
	var r []string
	for _, b := range bs {
		r = append(r, b.Type)
	}
	return r
}

// Child returns the only child of a type, nil if there is none or several.
func (b *Box) Child(typ string) *Box {
	var r *Box
	for _, c := range b.Children {
		if c.Type == typ {
			if r != nil {
				return nil
			}
			r = c
		}
	}
	return r
}

// All returns the children of a type.
func (b *Box) All(typ string) []*Box {
	var r []*Box
	for _, c := range b.Children {
		if c.Type == typ {
			r = append(r, c)
		}
	}
	return r
}

// Find follows a path of children.
func (b *Box) Find(path ...string) *Box {
	for _, p := range path {
		if b == nil {
			return nil
		}
		b = b.Child(p)
	}
	return b
}

// Rd reads big-endian fields.
type Rd struct {
	B   []byte
	Err bool
}

// U reads n bytes.
func (r *Rd) U(n int) uint64 {
	if len(r.B) < n {
		r.Err = true
		r.B = nil
		return 0
	}
	v := uint64(0)
	for _, x := range r.B[:n] {
		v = v<<8 | uint64(x)
	}
	r.B = r.B[n:]
	return v
}

// Skip skips n bytes.
func (r *Rd) Skip(n int) {
	if len(r.B) < n {
		r.Err = true
		r.B = nil
		return
	}
	r.B = r.B[n:]
}

// MkBox builds a box.
func MkBox(typ string, parts ...[]byte) []byte {
	n := 8
	for _, p := range parts {
		n += len(p)
	}
	b := make([]byte, 8, n)
	binary.BigEndian.PutUint32(b, uint32(n))
	copy(b[4:], typ)
	for _, p := range parts {
		b = append(b, p...)
	}
	return b
}

// MkBox64 builds a box with a 64-bit size.
func MkBox64(typ string, parts ...[]byte) []byte {
	n := 16
	for _, p := range parts {
		n += len(p)
	}
	b := make([]byte, 16, n)
	binary.BigEndian.PutUint32(b, 1)
	copy(b[4:], typ)
	binary.BigEndian.PutUint64(b[8:], uint64(n))
	for _, p := range parts {
		b = append(b, p...)
	}
	return b
}

// BE builds big-endian integers: pairs of (size in bytes, value).
func BE(v ...uint64) []byte {
	var b []byte
	for i := 0; i+1 < len(v); i += 2 {
		for k := int(v[i]) - 1; k >= 0; k-- {
			b = append(b, byte(v[i+1]>>(8*k)))
		}
	}
	return b
}
