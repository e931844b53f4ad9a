package props

import (
	. "verif/harness/engine" //nolint:revive
)

// codedFrame is a frame of a generated stream, in coding order.
type codedFrame struct {
	disp  int  // display index, from the beginning of the stream
	gop   int  // display index of the IDR of its GOP
	idr   bool // random access
	ref   bool
	depth int // 0 anchor, 1.. B level
	mini  int // index of the mini-GOP
	size  int // size of the mini-GOP
}

// pyramid lists the B frames between lo and hi (exclusive), in coding order.
func pyramid(lo, hi, depth int, out []codedFrame) []codedFrame {
	if hi-lo < 2 {
		return out
	}
	m := (lo + hi) / 2
	out = append(out, codedFrame{disp: m, depth: depth, ref: hi-lo > 2})
	out = pyramid(lo, m, depth+1, out)
	return pyramid(m, hi, depth+1, out)
}

type gopStyle struct {
	adaptive bool
	pyramid  bool
	size     int // frames of a mini-GOP: 1 = no B frames
	gopLen   int // mini-GOPs per GOP
}

// genCoded generates n or more frames in coding order, closed GOPs.
func genCoded(t *T, n int, st gopStyle, fixedAfter int) []codedFrame {
	var out []codedFrame
	disp := 0
	mini := 0
	for len(out) < n {
		gop := disp
		out = append(out, codedFrame{disp: disp, gop: gop, idr: true, ref: true, mini: mini, size: 1})
		mini++
		disp++
		gl := st.gopLen
		if st.adaptive && len(out) < fixedAfter {
			gl = t.Int(0, st.gopLen)
		}
		for k := 0; k < gl && len(out) < n; k++ {
			size, pyr := st.size, st.pyramid
			if st.adaptive && len(out) < fixedAfter {
				size = t.Int(1, st.size)
				pyr = st.pyramid && t.Bool()
			}
			p := disp + size - 1
			out = append(out, codedFrame{disp: p, gop: gop, ref: true, mini: mini, size: size})
			var bs []codedFrame
			if pyr {
				bs = pyramid(disp-1, p, 1, nil)
			} else {
				for i := disp; i < p; i++ {
					bs = append(bs, codedFrame{disp: i, depth: 1})
				}
			}
			for _, b := range bs {
				b.gop, b.mini, b.size = gop, mini, size
				out = append(out, b)
			}
			mini++
			disp += size
		}
	}
	return out
}
