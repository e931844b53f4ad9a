package props

import (
	"bytes"
	"encoding/json"
	"fmt"
	"reflect"

	"github.com/bluenviron/mediacommon/v2/pkg/codecs/h264"
	. "verif/harness/engine" //nolint:revive
)

// dump renders a value for logs.
func dump(v any) string {
	b, err := json.Marshal(v)
	if err != nil {
		return fmt.Sprintf("%+v", v)
	}
	return string(b)
}

// nilEmpty makes a nil slice and an empty slice equal, recursively, on a copy.
func normEqual(a, b any) bool { return eqVal(reflect.ValueOf(a), reflect.ValueOf(b)) }

func eqVal(a, b reflect.Value) bool {
	if a.IsValid() != b.IsValid() {
		return false
	}
	if !a.IsValid() {
		return true
	}
	if a.Type() != b.Type() {
		return false
	}
	switch a.Kind() {
	case reflect.Pointer, reflect.Interface:
		if a.IsNil() || b.IsNil() {
			return a.IsNil() == b.IsNil()
		}
		return eqVal(a.Elem(), b.Elem())
	case reflect.Slice:
		if a.Len() != b.Len() {
			return false
		}
		if a.Type().Elem().Kind() == reflect.Uint8 {
			return bytes.Equal(a.Bytes(), b.Bytes())
		}
		for i := 0; i < a.Len(); i++ {
			if !eqVal(a.Index(i), b.Index(i)) {
				return false
			}
		}
		return true
	case reflect.Array:
		for i := 0; i < a.Len(); i++ {
			if !eqVal(a.Index(i), b.Index(i)) {
				return false
			}
		}
		return true
	case reflect.Struct:
		for i := 0; i < a.NumField(); i++ {
			if !eqVal(a.Field(i), b.Field(i)) {
				return false
			}
		}
		return true
	case reflect.Bool:
		return a.Bool() == b.Bool()
	case reflect.Int, reflect.Int8, reflect.Int16, reflect.Int32, reflect.Int64:
		return a.Int() == b.Int()
	case reflect.Uint, reflect.Uint8, reflect.Uint16, reflect.Uint32, reflect.Uint64:
		return a.Uint() == b.Uint()
	case reflect.String:
		return a.String() == b.String()
	case reflect.Float64, reflect.Float32:
		return a.Float() == b.Float()
	case reflect.Func:
		return true
	}
	return reflect.DeepEqual(a.Interface(), b.Interface())
}

func c08(t *T) {
	s, nalu, width, height := genSPS264(t)
	t.Logf("sps=%s", dump(s))
	t.Logf("nalu=%s", Hex(nalu))
	orig := append([]byte(nil), nalu...)
	var d h264.SPS
	if err := d.Unmarshal(nalu); err != nil {
		t.Failf("valid SPS rejected: %v", err)
	}
	if !normEqual(&d, s) {
		t.Logf("decoded=%s", dump(d))
		t.Failf("decoded SPS differs from the encoded one")
	}
	if !bytes.Equal(orig, nalu) {
		t.Failf("decoding modified the input")
	}
	if int64(d.Width()) != width || int64(d.Height()) != height {
		t.Failf("size is %dx%d, expected %dx%d", d.Width(), d.Height(), width, height)
	}
	fps := 0.0
	if s.VUI != nil && s.VUI.TimingInfo != nil {
		fps = float64(s.VUI.TimingInfo.TimeScale) / 2 / float64(s.VUI.TimingInfo.NumUnitsInTick)
	}
	if g := d.FPS(); g != fps && (fps == 0 || g/fps > 1.000001 || g/fps < 0.999999) {
		t.Failf("FPS is %v, expected %v", g, fps)
	}
	if s.VUI != nil || s.ScalingList4x4 != nil || s.ScalingList8x8 != nil || s.FrameCropping != nil || s.PicOrderCntType == 1 {
		t.NonTrivial()
	}
	if bytes.Contains(nalu, []byte{0, 0, 3}) {
		t.Class("escaped")
	}
	t.Classf("chroma%d", s.ChromaFormatIdc)
	t.Classf("poc-type%d", s.PicOrderCntType)
	if s.FrameCropping != nil {
		t.Class("cropped")
	}
	if s.VUI != nil {
		t.Class("vui")
		if s.VUI.NalHRD != nil || s.VUI.VclHRD != nil {
			t.Class("hrd")
		}
	}
	if s.ScalingList8x8 != nil {
		t.Class("scaling8x8")
	}
}

func init() {
	Register(&Prop{
		ID:    "C08",
		Boost: 4,
		Title: "H.264 sequence parameter sets are decoded as the standard defines",
		Rule: "parameter sets with random syntax elements written by an independent ITU-T H.264 7.3.2.1.1 writer, escaped; " +
			"non-trivial: with usability information, scaling lists, cropping or picture order count type 1",
		Subs: []Sub{{Name: "decode", Fn: c08, Quick: 400000, Thorough: 6000000}},
	})
}
