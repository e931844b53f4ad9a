package props

import (
	"bufio"
	"bytes"
	"io"
	"os"
	"strings"
	"testing/iotest"

	. "verif/harness/engine" //nolint:revive
)

// onlyReader, onlySeeker, onlyWriter and onlyWriteSeeker hide everything but the methods of their interface.
type (
	onlyReader      struct{ io.Reader }
	onlySeeker      struct{ io.ReadSeeker }
	onlyWriter      struct{ io.Writer }
	onlyWriteSeeker struct{ io.WriteSeeker }
)

// variousReader gives data through readers of different types (and different optional interfaces).
func variousReader(t *T, data []byte) io.Reader {
	switch t.Pick(9) {
	case 0:
		return onlyReader{bytes.NewReader(data)}
	case 1:
		return strings.NewReader(string(data))
	case 2:
		return bytes.NewBuffer(append([]byte(nil), data...))
	case 3:
		return bufio.NewReaderSize(bytes.NewReader(data), t.Int(16, 4096))
	case 4:
		return io.NewSectionReader(bytes.NewReader(append([]byte{1, 2, 3}, data...)), 3, int64(len(data)))
	case 5:
		k := t.Int(0, len(data))
		return io.MultiReader(bytes.NewReader(data[:k]), bytes.NewReader(nil), bytes.NewReader(data[k:]))
	case 6:
		return iotest.DataErrReader(bytes.NewReader(data))
	case 7:
		return iotest.HalfReader(bytes.NewReader(data))
	default:
		return bytes.NewReader(data)
	}
}

// variousSeeker gives data through seekable sources of different types.
func variousSeeker(t *T, data []byte) io.ReadSeeker {
	switch t.Pick(6) {
	case 0:
		return onlySeeker{bytes.NewReader(data)}
	case 1:
		return strings.NewReader(string(data))
	case 2:
		return io.NewSectionReader(bytes.NewReader(append([]byte{1, 2, 3}, data...)), 3, int64(len(data)))
	case 3:
		r := bytes.NewReader(data)
		return struct {
			io.Reader
			io.Seeker
		}{iotest.HalfReader(r), r}
	case 4:
		if t.Chance(1, 50) {
			if f := scratchFile(); f != nil {
				t.Class("file")
				f.Write(data)           //nolint:errcheck
				f.Seek(0, io.SeekStart) //nolint:errcheck
				return f
			}
		}
		fallthrough
	default:
		return bytes.NewReader(data)
	}
}

// scratchFile is an anonymous file (it is closed when it is collected).
func scratchFile() *os.File {
	f, err := os.CreateTemp("", "verif-scratch")
	if err != nil {
		return nil
	}
	os.Remove(f.Name()) //nolint:errcheck
	return f
}

// memFile is a seekable destination.
type memFile struct {
	b   []byte
	pos int64
}

func (m *memFile) Write(p []byte) (int, error) {
	for int64(len(m.b)) < m.pos+int64(len(p)) {
		m.b = append(m.b, make([]byte, m.pos+int64(len(p))-int64(len(m.b)))...)
	}
	copy(m.b[m.pos:], p)
	m.pos += int64(len(p))
	return len(p), nil
}

func (m *memFile) Seek(off int64, whence int) (int64, error) {
	switch whence {
	case io.SeekCurrent:
		off += m.pos
	case io.SeekEnd:
		off += int64(len(m.b))
	}
	if off < 0 {
		return 0, os.ErrInvalid
	}
	m.pos = off
	return off, nil
}

// writtenElsewhere writes to another kind of destination, behind or over existing content, and compares.
func writtenElsewhere(t *T, write func(io.WriteSeeker) error, want []byte) {
	before := t.Len(0, 100)
	if t.Chance(1, 3) {
		before = 0
	}
	m := &memFile{b: t.Bytes(before)}
	if t.Chance(1, 4) { // over something
		m.b = append(m.b, bytes.Repeat([]byte{0xAA}, t.Int(0, 2*len(want)))...)
	}
	m.pos = int64(before)
	start := append([]byte(nil), m.b...)
	var w io.WriteSeeker = m
	if t.Bool() {
		w = onlyWriteSeeker{m}
	}
	if err := write(w); err != nil {
		t.Failf("writing behind %d bytes failed: %v", before, err)
	}
	if m.pos != int64(before+len(want)) {
		t.Failf("behind %d bytes, %d bytes were written, and the position is %d", before, len(want), m.pos)
	}
	all := append(append([]byte(nil), start[:before]...), want...)
	if len(start) > len(all) {
		all = append(all, start[len(all):]...)
	}
	if !bytes.Equal(m.b, all) {
		t.Failf("written behind %d bytes, the content is different: %s", before, firstDiff([][]byte{m.b}, [][]byte{all}))
	}
}
