From 637525f9983ae9b307a933830bb5eb60a7238b99 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:22:59 +0000
Subject: [PATCH 01/67] fix: bits: do not panic when reading zero bits at the
 end of the buffer

---
 pkg/bits/read.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/pkg/bits/read.go b/pkg/bits/read.go
index e6bf762..6e1a060 100644
--- a/pkg/bits/read.go
+++ b/pkg/bits/read.go
@@ -20,6 +20,10 @@ func ReadBits(buf []byte, pos *int, n int) (uint64, error) {
 		return 0, err
 	}
 
+	if n == 0 {
+		return 0, nil
+	}
+
 	return ReadBitsUnsafe(buf, pos, n), nil
 }
 
-- 
2.43.0


From 40024720b48f5fb6d9254c47c71ebc5037ac929e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:22:59 +0000
Subject: [PATCH 02/67] fix: bits: reject unsigned Exp-Golomb codes that
 overflow 32 bits

---
 pkg/bits/read.go | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/pkg/bits/read.go b/pkg/bits/read.go
index 6e1a060..d7586f5 100644
--- a/pkg/bits/read.go
+++ b/pkg/bits/read.go
@@ -88,6 +88,11 @@ func ReadGolombUnsigned(buf []byte, pos *int) (uint32, error) {
 		codeNum |= uint32(b) << (n - 1)
 	}
 
+	// with 32 leading zeros, any codeNum other than zero is not representable
+	if leadingZeros == 32 && codeNum != 0 {
+		return 0, fmt.Errorf("invalid value")
+	}
+
 	codeNum = (1 << leadingZeros) - 1 + codeNum
 
 	return codeNum, nil
-- 
2.43.0


From 670c6c592ca6d2dc7c8f26cbcc46386146b9fa59 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:22:59 +0000
Subject: [PATCH 03/67] fix: bits: decode signed Exp-Golomb codes over the
 whole range

---
 pkg/bits/read.go | 12 ++++++++----
 1 file changed, 8 insertions(+), 4 deletions(-)

diff --git a/pkg/bits/read.go b/pkg/bits/read.go
index d7586f5..0475cae 100644
--- a/pkg/bits/read.go
+++ b/pkg/bits/read.go
@@ -3,6 +3,7 @@ package bits //nolint:revive
 
 import (
 	"fmt"
+	"math"
 )
 
 // HasSpace checks whether buffer has space for N bits.
@@ -105,11 +106,14 @@ func ReadGolombSigned(buf []byte, pos *int) (int32, error) {
 		return 0, err
 	}
 
-	vi := int32(v)
-	if (vi & 0x01) != 0 {
-		return (vi + 1) / 2, nil
+	if v == math.MaxUint32 {
+		return 0, fmt.Errorf("invalid value")
+	}
+
+	if (v & 0x01) != 0 {
+		return int32(v/2 + 1), nil
 	}
-	return -vi / 2, nil
+	return -int32(v / 2), nil
 }
 
 // ReadFlag reads a boolean flag.
-- 
2.43.0


From 795ec6bf9cffb7e6906045ac98e236b7507feedb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:29:44 +0000
Subject: [PATCH 04/67] fix: h264: apply horizontal cropping when there are no
 chroma samples

---
 pkg/codecs/h264/sps.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pkg/codecs/h264/sps.go b/pkg/codecs/h264/sps.go
index 616c25e..4384947 100644
--- a/pkg/codecs/h264/sps.go
+++ b/pkg/codecs/h264/sps.go
@@ -740,7 +740,7 @@ func (s SPS) Width() int {
 
 	var cropUnitX uint32
 	if chromaArrayType == 0 {
-		cropUnitX = 0
+		cropUnitX = 1
 	} else {
 		cropUnitX = subWidthC
 	}
-- 
2.43.0


From 8cfd958e802cfbb1c09b194fae45005040ace797 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:37:24 +0000
Subject: [PATCH 05/67] fix: h264: skip colour_plane_id when extracting the
 picture order count

---
 pkg/codecs/h264/dts_extractor.go | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/pkg/codecs/h264/dts_extractor.go b/pkg/codecs/h264/dts_extractor.go
index 2d0f288..735209e 100644
--- a/pkg/codecs/h264/dts_extractor.go
+++ b/pkg/codecs/h264/dts_extractor.go
@@ -40,6 +40,13 @@ func getPictureOrderCount(buf []byte, sps *SPS, idr bool) (uint32, error) {
 		return 0, err
 	}
 
+	if sps.SeparateColourPlaneFlag {
+		_, err = bits.ReadBits(buf, &pos, 2) // colour_plane_id
+		if err != nil {
+			return 0, err
+		}
+	}
+
 	_, err = bits.ReadBits(buf, &pos, int(sps.Log2MaxFrameNumMinus4+4)) // frame_num
 	if err != nil {
 		return 0, err
-- 
2.43.0


From fe5b3ba7e9356bfff7043de4ab325886610271dc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:41:35 +0000
Subject: [PATCH 06/67] fix: h264: do not fail when DTS overtakes PTS while
 detecting the reorder depth

---
 pkg/codecs/h264/dts_extractor.go | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/pkg/codecs/h264/dts_extractor.go b/pkg/codecs/h264/dts_extractor.go
index 735209e..1a3be8c 100644
--- a/pkg/codecs/h264/dts_extractor.go
+++ b/pkg/codecs/h264/dts_extractor.go
@@ -86,6 +86,7 @@ type DTSExtractor struct {
 	expectedPOC     uint32
 	reorderedFrames int
 	pause           int
+	pauseOvershoot  bool
 	auCount         int
 	pocIncrement    int
 	prevPOC         uint32
@@ -138,6 +139,7 @@ outer:
 				d.expectedPOC = 0
 				d.reorderedFrames = 0
 				d.pause = 0
+				d.pauseOvershoot = false
 				d.auCount = 0
 				d.pocIncrement = 2
 				d.prevPOC = 0
@@ -269,9 +271,16 @@ outer:
 		if !d.prevDTSFilled {
 			return pts, true, nil
 		}
+		d.pauseOvershoot = d.pauseOvershoot || (d.prevDTS+90) > pts
 		return d.prevDTS + 90, true, nil
 	}
 
+	// during the pause, DTS might have overtaken the PTS of next frames too.
+	if d.pauseOvershoot && pts < d.prevDTS {
+		return d.prevDTS, true, nil
+	}
+	d.pauseOvershoot = false
+
 	if !d.prevDTSFilled {
 		return pts, true, nil
 	}
-- 
2.43.0


From 63fecf4ec0ebe7ee862dd341d7bf6d52e00db751 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:45:52 +0000
Subject: [PATCH 07/67] fix: h265: support I-frames with an empty reference
 picture set in DTSExtractor

---
 pkg/codecs/h265/dts_extractor.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/pkg/codecs/h265/dts_extractor.go b/pkg/codecs/h265/dts_extractor.go
index ca52e6c..01f8b35 100644
--- a/pkg/codecs/h265/dts_extractor.go
+++ b/pkg/codecs/h265/dts_extractor.go
@@ -121,6 +121,9 @@ func getPTSDTSDiff(buf []byte, sps *SPS, pps *PPS) (int, error) {
 		}
 	} else { // I or P-frame
 		if len(rps.DeltaPocS0) == 0 {
+			if sliceType == 2 { // I-frame without previous pictures to keep
+				return 0, nil
+			}
 			return 0, fmt.Errorf("invalid DeltaPocS0")
 		}
 		return int(-rps.DeltaPocS0[0] - 1), nil
-- 
2.43.0


From 1c4ddfa357ab357949fe4ce32994342bac2bf9df Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:46:51 +0000
Subject: [PATCH 08/67] fix: h265: use the short-term reference picture set of
 the SPS even when it is the only one

---
 pkg/codecs/h265/dts_extractor.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pkg/codecs/h265/dts_extractor.go b/pkg/codecs/h265/dts_extractor.go
index 01f8b35..77c8533 100644
--- a/pkg/codecs/h265/dts_extractor.go
+++ b/pkg/codecs/h265/dts_extractor.go
@@ -86,7 +86,7 @@ func getPTSDTSDiff(buf []byte, sps *SPS, pps *PPS) (int, error) {
 			return 0, err
 		}
 	} else {
-		if len(sps.ShortTermRefPicSets) <= 1 {
+		if len(sps.ShortTermRefPicSets) == 0 {
 			return 0, nil
 		}
 
-- 
2.43.0


From 98443b2900d67c53d4e70324bc1653209c583944 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:47:23 +0000
Subject: [PATCH 09/67] fix: h265: support slice headers with large reference
 picture sets in DTSExtractor

---
 pkg/codecs/h265/dts_extractor.go | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/pkg/codecs/h265/dts_extractor.go b/pkg/codecs/h265/dts_extractor.go
index 77c8533..845fe5c 100644
--- a/pkg/codecs/h265/dts_extractor.go
+++ b/pkg/codecs/h265/dts_extractor.go
@@ -10,7 +10,12 @@ import (
 )
 
 const (
-	maxBytesToGetPOC = 12
+	/*
+		(second byte of NALU header + slice header until pic_order_cnt_lsb +
+		st_ref_pic_set with 16 pictures of 31+1 bits each) * 4 / 3 =
+		(1 + 10 + 64 + 6) * 4 / 3 = 108
+	*/
+	maxBytesToGetPOC = 108
 )
 
 func getPTSDTSDiff(buf []byte, sps *SPS, pps *PPS) (int, error) {
-- 
2.43.0


From c07eb05b3fe9e252ad290cff2793644079cf5217 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:52:40 +0000
Subject: [PATCH 10/67] fix: av1: reject LEB128 values that do not fit 32 bits

---
 pkg/codecs/av1/leb128.go | 13 ++++++++++---
 1 file changed, 10 insertions(+), 3 deletions(-)

diff --git a/pkg/codecs/av1/leb128.go b/pkg/codecs/av1/leb128.go
index fbb2783..0de0ba4 100644
--- a/pkg/codecs/av1/leb128.go
+++ b/pkg/codecs/av1/leb128.go
@@ -2,6 +2,7 @@ package av1
 
 import (
 	"fmt"
+	"math"
 )
 
 // LEB128 is a unsigned integer that can be decoded/encoded from/to the LEB128 format.
@@ -12,6 +13,7 @@ type LEB128 uint32
 // It returns the number of consumed bytes.
 func (l *LEB128) Unmarshal(buf []byte) (int, error) {
 	*l = 0
+	v := uint64(0)
 	n := 0
 
 	for i := range 8 {
@@ -22,15 +24,20 @@ func (l *LEB128) Unmarshal(buf []byte) (int, error) {
 		var b byte
 		b, buf = buf[0], buf[1:]
 
-		*l |= (LEB128(b&0b01111111) << (i * 7))
+		v |= (uint64(b&0b01111111) << (i * 7))
 		n++
 
 		if (b & 0b10000000) == 0 {
-			break
+			if v > math.MaxUint32 {
+				return 0, fmt.Errorf("value exceeds 32 bits")
+			}
+
+			*l = LEB128(v)
+			return n, nil
 		}
 	}
 
-	return n, nil
+	return 0, fmt.Errorf("invalid value")
 }
 
 // MarshalSize returns the marshal size in bytes of the unsigned integer in LEB128 format.
-- 
2.43.0


From f4e870178356a9e69c5a9013db1969a056851e39 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:52:42 +0000
Subject: [PATCH 11/67] fix: av1: read separate_uv_delta_q before
 film_grain_params_present

---
 pkg/codecs/av1/sequence_header.go | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/pkg/codecs/av1/sequence_header.go b/pkg/codecs/av1/sequence_header.go
index 54129f2..e859afb 100644
--- a/pkg/codecs/av1/sequence_header.go
+++ b/pkg/codecs/av1/sequence_header.go
@@ -184,6 +184,13 @@ func (c *SequenceHeader_ColorConfig) unmarshal(seqProfile uint8, buf []byte, pos
 		}
 	}
 
+	if !c.MonoChrome {
+		_, err = bits.ReadFlag(buf, pos) // separate_uv_delta_q
+		if err != nil {
+			return err
+		}
+	}
+
 	return nil
 }
 
-- 
2.43.0


From 297fd5f9dc3d26de50ac32b2182824829230c7d1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:52:42 +0000
Subject: [PATCH 12/67] fix: vp9: do not treat repeated frames as random access
 points

---
 pkg/codecs/vp9/is_random_access.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pkg/codecs/vp9/is_random_access.go b/pkg/codecs/vp9/is_random_access.go
index f8dfd3c..7208c0a 100644
--- a/pkg/codecs/vp9/is_random_access.go
+++ b/pkg/codecs/vp9/is_random_access.go
@@ -7,5 +7,5 @@ func IsRandomAccess(frame []byte) bool {
 	if err != nil {
 		return false
 	}
-	return !h.NonKeyFrame
+	return !h.ShowExistingFrame && !h.NonKeyFrame
 }
-- 
2.43.0


From 79ed2f55c7e1c57ef4adaea0f50e5708c035ade4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:54:22 +0000
Subject: [PATCH 13/67] fix: mpeg1audio: compute the length of MPEG-2 layer III
 frames with the right sample count

---
 pkg/codecs/mpeg1audio/frame_header.go | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/pkg/codecs/mpeg1audio/frame_header.go b/pkg/codecs/mpeg1audio/frame_header.go
index 5e4c7a1..c2ecc12 100644
--- a/pkg/codecs/mpeg1audio/frame_header.go
+++ b/pkg/codecs/mpeg1audio/frame_header.go
@@ -183,10 +183,11 @@ func (h *FrameHeader) Unmarshal(buf []byte) error {
 
 // FrameLen returns the length of the frame associated with the header.
 func (h FrameHeader) FrameLen() int {
+	n := (h.SampleCount() / 8) * h.Bitrate / h.SampleRate
 	if h.Padding {
-		return (144 * h.Bitrate / h.SampleRate) + 1
+		return n + 1
 	}
-	return (144 * h.Bitrate / h.SampleRate)
+	return n
 }
 
 // SampleCount returns the number of samples contained into the frame.
-- 
2.43.0


From 32a661b27f09b013523e0188f72be6e741cb43d0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:58:45 +0000
Subject: [PATCH 14/67] fix: mpeg4audio: do not modify packets when encoding
 ADTS

---
 pkg/codecs/mpeg4audio/adts.go | 14 ++++++++------
 1 file changed, 8 insertions(+), 6 deletions(-)

diff --git a/pkg/codecs/mpeg4audio/adts.go b/pkg/codecs/mpeg4audio/adts.go
index 4d661a9..fad1108 100644
--- a/pkg/codecs/mpeg4audio/adts.go
+++ b/pkg/codecs/mpeg4audio/adts.go
@@ -143,16 +143,18 @@ func (ps ADTSPackets) Marshal() ([]byte, error) {
 			return nil, fmt.Errorf("invalid sample rate: %d", pkt.SampleRate)
 		}
 
-		if pkt.ChannelConfig == 0 {
+		channelConfig := pkt.ChannelConfig
+
+		if channelConfig == 0 {
 			switch {
 			case pkt.ChannelCount == 0:
-				pkt.ChannelConfig = 0
+				channelConfig = 0
 
 			case pkt.ChannelCount >= 1 && pkt.ChannelCount <= 6:
-				pkt.ChannelConfig = uint8(pkt.ChannelCount)
+				channelConfig = uint8(pkt.ChannelCount)
 
 			case pkt.ChannelCount == 8:
-				pkt.ChannelConfig = 7
+				channelConfig = 7
 
 			default:
 				return nil, fmt.Errorf("invalid channel count (%d)", pkt.ChannelCount)
@@ -165,8 +167,8 @@ func (ps ADTSPackets) Marshal() ([]byte, error) {
 
 		buf[pos+0] = 0xFF
 		buf[pos+1] = 0xF1
-		buf[pos+2] = byte(pkt.Type-1)<<6 | byte(sampleRateIndex)<<2 | (pkt.ChannelConfig >> 2)
-		buf[pos+3] = (pkt.ChannelConfig&0x03)<<6 | byte(frameLen>>11)
+		buf[pos+2] = byte(pkt.Type-1)<<6 | byte(sampleRateIndex)<<2 | (channelConfig >> 2)
+		buf[pos+3] = (channelConfig&0x03)<<6 | byte(frameLen>>11)
 		buf[pos+4] = byte(frameLen >> 3)
 		buf[pos+5] = byte(frameLen&0x07)<<5 | byte(fullness>>6)
 		buf[pos+6] = byte(fullness&0x3F) << 2
-- 
2.43.0


From 5ec7d6f4ea39b8e793be527d3669d71869aeaba9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:58:46 +0000
Subject: [PATCH 15/67] fix: mpeg4audio: refuse access units and channel
 configurations that do not fit into ADTS

---
 pkg/codecs/mpeg4audio/adts.go | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/pkg/codecs/mpeg4audio/adts.go b/pkg/codecs/mpeg4audio/adts.go
index fad1108..311fe38 100644
--- a/pkg/codecs/mpeg4audio/adts.go
+++ b/pkg/codecs/mpeg4audio/adts.go
@@ -161,8 +161,17 @@ func (ps ADTSPackets) Marshal() ([]byte, error) {
 			}
 		}
 
+		if channelConfig > 7 {
+			return nil, fmt.Errorf("invalid channel configuration: %d", channelConfig)
+		}
+
 		frameLen := len(pkt.AU) + 7
 
+		// frame length is stored in 13 bits
+		if frameLen > 0x1FFF {
+			return nil, fmt.Errorf("access unit size (%d) is too big, maximum is %d", len(pkt.AU), 0x1FFF-7)
+		}
+
 		const fullness = 0x07FF // like ffmpeg does
 
 		buf[pos+0] = 0xFF
-- 
2.43.0


From e5cb845dfa55e1eaa4aab5cc4ac1851fe4edb6cb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:58:47 +0000
Subject: [PATCH 16/67] fix: mpeg4audio: refuse elements that do not fit into
 an AudioSyncStream

---
 pkg/codecs/mpeg4audio/audio_sync_stream.go | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/pkg/codecs/mpeg4audio/audio_sync_stream.go b/pkg/codecs/mpeg4audio/audio_sync_stream.go
index 2adb6f4..04362ce 100644
--- a/pkg/codecs/mpeg4audio/audio_sync_stream.go
+++ b/pkg/codecs/mpeg4audio/audio_sync_stream.go
@@ -53,6 +53,12 @@ func (s AudioSyncStream) Marshal() ([]byte, error) {
 	for _, el := range s.AudioMuxElements {
 		shiftedSyncWord := 0x2B7 << 5
 		le := len(el)
+
+		// element length is stored in 13 bits
+		if le > 0x1FFF {
+			return nil, fmt.Errorf("element size (%d) is too big, maximum is %d", le, 0x1FFF)
+		}
+
 		buf[n] = byte(shiftedSyncWord >> 8)
 		buf[n+1] = byte(shiftedSyncWord) | byte(le>>8)
 		buf[n+2] = byte(le)
-- 
2.43.0


From 85aa4f43f69e50d2bb86439c79c2030b05fcd310 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:58:48 +0000
Subject: [PATCH 17/67] fix: mpeg4audio: do not panic when encoding an
 AudioMuxElement with unsupported frame lengths

---
 pkg/codecs/mpeg4audio/audio_mux_element.go | 19 ++++++++++++-------
 1 file changed, 12 insertions(+), 7 deletions(-)

diff --git a/pkg/codecs/mpeg4audio/audio_mux_element.go b/pkg/codecs/mpeg4audio/audio_mux_element.go
index 09ab571..acd8b1f 100644
--- a/pkg/codecs/mpeg4audio/audio_mux_element.go
+++ b/pkg/codecs/mpeg4audio/audio_mux_element.go
@@ -84,7 +84,7 @@ func (e *AudioMuxElement) Unmarshal(buf []byte) error {
 	return nil
 }
 
-func (e AudioMuxElement) marshalSize() int {
+func (e AudioMuxElement) marshalSize() (int, error) {
 	n := 0
 
 	if e.MuxConfigPresent {
@@ -106,7 +106,7 @@ func (e AudioMuxElement) marshalSize() int {
 			for lay := range p.Layers {
 				err := li.setPayloadLength(prog, lay, uint64(len(e.Payloads[i][prog][lay])))
 				if err != nil {
-					return 0
+					return 0, err
 				}
 			}
 		}
@@ -122,19 +122,24 @@ func (e AudioMuxElement) marshalSize() int {
 		n2++
 	}
 
-	return n2
+	return n2, nil
 }
 
 // Marshal encodes an AudioMuxElement.
 func (e AudioMuxElement) Marshal() ([]byte, error) {
-	buf := make([]byte, e.marshalSize())
+	n, err := e.marshalSize()
+	if err != nil {
+		return nil, err
+	}
+
+	buf := make([]byte, n)
 	pos := 0
 
 	if e.MuxConfigPresent {
 		bits.WriteFlagUnsafe(buf, &pos, e.UseSameStreamMux)
 
 		if !e.UseSameStreamMux {
-			err := e.StreamMuxConfig.marshalToBits(buf, &pos)
+			err = e.StreamMuxConfig.marshalToBits(buf, &pos)
 			if err != nil {
 				return nil, err
 			}
@@ -151,14 +156,14 @@ func (e AudioMuxElement) Marshal() ([]byte, error) {
 			li.Programs[prog].Layers = make([]payloadLengthInfoLayer, len(p.Layers))
 
 			for lay := range p.Layers {
-				err := li.setPayloadLength(prog, lay, uint64(len(e.Payloads[i][prog][lay])))
+				err = li.setPayloadLength(prog, lay, uint64(len(e.Payloads[i][prog][lay])))
 				if err != nil {
 					return nil, err
 				}
 			}
 		}
 
-		err := li.marshalToBits(buf, &pos)
+		err = li.marshalToBits(buf, &pos)
 		if err != nil {
 			return nil, err
 		}
-- 
2.43.0


From 0249bdbcee2f73d98e34f0053dba89e9d756828f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:02:58 +0000
Subject: [PATCH 18/67] fix: mpeg4video: do not panic on configurations that
 end with a start code prefix

---
 pkg/codecs/mpeg4video/is_valid_config.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pkg/codecs/mpeg4video/is_valid_config.go b/pkg/codecs/mpeg4video/is_valid_config.go
index 556e245..ba55917 100644
--- a/pkg/codecs/mpeg4video/is_valid_config.go
+++ b/pkg/codecs/mpeg4video/is_valid_config.go
@@ -18,7 +18,7 @@ func IsValidConfig(config []byte) error {
 	pos := 4
 
 	for pos < len(config)-3 {
-		i := bytes.Index(config[pos:], startCodePrefix)
+		i := bytes.Index(config[pos:len(config)-1], startCodePrefix)
 		if i == -1 {
 			break
 		}
-- 
2.43.0


From 32104ddf41f8535f25d6f0a926d8011955d6008c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:07:47 +0000
Subject: [PATCH 19/67] fix: mpegts: MPEG1Audio is not a video codec

---
 pkg/formats/mpegts/codecs/mpeg1_audio.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pkg/formats/mpegts/codecs/mpeg1_audio.go b/pkg/formats/mpegts/codecs/mpeg1_audio.go
index 149aa6b..f74c409 100644
--- a/pkg/formats/mpegts/codecs/mpeg1_audio.go
+++ b/pkg/formats/mpegts/codecs/mpeg1_audio.go
@@ -11,7 +11,7 @@ type MPEG1Audio struct {
 
 // IsVideo implements Codec.
 func (*MPEG1Audio) IsVideo() bool {
-	return true
+	return false
 }
 
 func (*MPEG1Audio) isCodec() {}
-- 
2.43.0


From 976119bcaed62c6253b56669259e40cc864317a4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:07:48 +0000
Subject: [PATCH 20/67] fix: mpegts: preserve coupled stream and mapping of
 Opus descriptors with a single explicit channel

---
 pkg/formats/mpegts/substructs/opus_audio_descriptor.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pkg/formats/mpegts/substructs/opus_audio_descriptor.go b/pkg/formats/mpegts/substructs/opus_audio_descriptor.go
index 94b0222..0e3e1c1 100644
--- a/pkg/formats/mpegts/substructs/opus_audio_descriptor.go
+++ b/pkg/formats/mpegts/substructs/opus_audio_descriptor.go
@@ -165,7 +165,7 @@ func (d OpusAudioDescriptor) Marshal() ([]byte, error) {
 			return out, nil
 		}
 
-		if d.ExplicitChannelCount == 1 {
+		if d.ExplicitChannelCount == 1 && len(d.ChannelMapping) == 0 {
 			out[3] = 0
 			return out, nil
 		}
-- 
2.43.0


From b859333da9e052f9bf20151c4637bb20eef18337 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:07:48 +0000
Subject: [PATCH 21/67] fix: mpegts: do not share the leading track among
 writers that write the same tracks

---
 pkg/formats/mpegts/track.go  |  1 -
 pkg/formats/mpegts/writer.go | 31 ++++++++++++++-----------------
 2 files changed, 14 insertions(+), 18 deletions(-)

diff --git a/pkg/formats/mpegts/track.go b/pkg/formats/mpegts/track.go
index 6ea285e..bbc451f 100644
--- a/pkg/formats/mpegts/track.go
+++ b/pkg/formats/mpegts/track.go
@@ -331,7 +331,6 @@ type Track struct {
 	// Codec.
 	Codec codecs.Codec
 
-	isLeading  bool // Writer-only
 	mp3Checked bool // Writer-only
 }
 
diff --git a/pkg/formats/mpegts/writer.go b/pkg/formats/mpegts/writer.go
index 56d0ee1..1ff2217 100644
--- a/pkg/formats/mpegts/writer.go
+++ b/pkg/formats/mpegts/writer.go
@@ -55,10 +55,10 @@ type Writer struct {
 	W      io.Writer
 	Tracks []*Track
 
-	nextPID            uint16
-	mux                *astits.Muxer
-	pcrCounter         int
-	leadingTrackChosen bool
+	nextPID      uint16
+	mux          *astits.Muxer
+	pcrCounter   int
+	leadingTrack *Track
 }
 
 // Initialize initializes a Writer.
@@ -99,7 +99,7 @@ func (w *Writer) Initialize() error {
 func (w *Writer) WriteTables() (int, error) {
 	// Ensure PCR PID is set before writing tables (required by astits)
 	// If no leading track has been chosen yet, use the first track's PID
-	if !w.leadingTrackChosen && len(w.Tracks) > 0 {
+	if w.leadingTrack == nil && len(w.Tracks) > 0 {
 		w.mux.SetPCRPID(w.Tracks[0].PID)
 	}
 	return w.mux.WriteTables()
@@ -345,9 +345,8 @@ func (w *Writer) writeVideo(
 	randomAccess bool,
 	data []byte,
 ) error {
-	if !w.leadingTrackChosen {
-		w.leadingTrackChosen = true
-		track.isLeading = true
+	if w.leadingTrack == nil {
+		w.leadingTrack = track
 		w.mux.SetPCRPID(track.PID)
 	}
 
@@ -358,7 +357,7 @@ func (w *Writer) writeVideo(
 		af.RandomAccessIndicator = true
 	}
 
-	if track.isLeading {
+	if track == w.leadingTrack {
 		if randomAccess || w.pcrCounter == 0 {
 			if af == nil {
 				af = &astits.PacketAdaptationField{}
@@ -398,9 +397,8 @@ func (w *Writer) writeVideo(
 }
 
 func (w *Writer) writeAudio(track *Track, pts int64, data []byte) error {
-	if !w.leadingTrackChosen {
-		w.leadingTrackChosen = true
-		track.isLeading = true
+	if w.leadingTrack == nil {
+		w.leadingTrack = track
 		w.mux.SetPCRPID(track.PID)
 	}
 
@@ -408,7 +406,7 @@ func (w *Writer) writeAudio(track *Track, pts int64, data []byte) error {
 		RandomAccessIndicator: true,
 	}
 
-	if track.isLeading {
+	if track == w.leadingTrack {
 		if w.pcrCounter == 0 {
 			af.HasPCR = true
 			af.PCR = &astits.ClockReference{Base: pts - dtsPCRDiff}
@@ -436,9 +434,8 @@ func (w *Writer) writeAudio(track *Track, pts int64, data []byte) error {
 }
 
 func (w *Writer) writeData(track *Track, hasPTS bool, pts int64, streamID uint8, data []byte) error {
-	if !w.leadingTrackChosen {
-		w.leadingTrackChosen = true
-		track.isLeading = true
+	if w.leadingTrack == nil {
+		w.leadingTrack = track
 		w.mux.SetPCRPID(track.PID)
 	}
 
@@ -446,7 +443,7 @@ func (w *Writer) writeData(track *Track, hasPTS bool, pts int64, streamID uint8,
 		RandomAccessIndicator: true,
 	}
 
-	if track.isLeading {
+	if track == w.leadingTrack {
 		if w.pcrCounter == 0 {
 			af.HasPCR = true
 			af.PCR = &astits.ClockReference{Base: pts - dtsPCRDiff}
-- 
2.43.0


From 27990e5b8a9bd8530b1d9e7aacaa6642ad03ea79 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:11:30 +0000
Subject: [PATCH 22/67] fix: mpegts: read KLV units made of more than 256 cells

---
 pkg/formats/mpegts/reader.go | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/pkg/formats/mpegts/reader.go b/pkg/formats/mpegts/reader.go
index ee8b6fd..9e098eb 100644
--- a/pkg/formats/mpegts/reader.go
+++ b/pkg/formats/mpegts/reader.go
@@ -67,7 +67,8 @@ func findPMT(dem *robustDemuxer) (*astits.PMTData, error) {
 }
 
 func readMetadataAUWrapper(in []byte) ([]byte, error) {
-	expectedSeqNum := 0
+	// sequence_number is 8-bit wide and wraps around
+	expectedSeqNum := uint8(0)
 
 	var au substructs.MetadataAUCell
 	n, err := au.Unmarshal(in)
@@ -75,7 +76,7 @@ func readMetadataAUWrapper(in []byte) ([]byte, error) {
 		return nil, err
 	}
 
-	if int(au.SequenceNumber) != expectedSeqNum {
+	if au.SequenceNumber != expectedSeqNum {
 		return nil, fmt.Errorf("unexpected sequence number: %d, expected %d", au.SequenceNumber, expectedSeqNum)
 	}
 	expectedSeqNum++
@@ -103,7 +104,7 @@ func readMetadataAUWrapper(in []byte) ([]byte, error) {
 		}
 		n += n2
 
-		if int(au.SequenceNumber) != expectedSeqNum {
+		if au.SequenceNumber != expectedSeqNum {
 			return nil, fmt.Errorf("unexpected sequence number: %d, expected %d", au.SequenceNumber, expectedSeqNum)
 		}
 		expectedSeqNum++
-- 
2.43.0


From 0cba861886b8107153dc9675a87ae6afa04fa859 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:11:31 +0000
Subject: [PATCH 23/67] fix: mpegts: do not drop empty synchronous KLV units

---
 pkg/formats/mpegts/reader.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pkg/formats/mpegts/reader.go b/pkg/formats/mpegts/reader.go
index 9e098eb..8f7628e 100644
--- a/pkg/formats/mpegts/reader.go
+++ b/pkg/formats/mpegts/reader.go
@@ -130,7 +130,7 @@ func writeMetadataAUWrapper(in []byte) ([]byte, error) {
 	const maxDataPerCell = 65535
 	dataLen := len(in)
 	cellCount := dataLen / maxDataPerCell
-	if (dataLen % maxDataPerCell) != 0 {
+	if (dataLen%maxDataPerCell) != 0 || dataLen == 0 {
 		cellCount++
 	}
 
-- 
2.43.0


From 1811d5e366c8b0a869649b0e078a21ff2419a72f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:14:47 +0000
Subject: [PATCH 24/67] fix: mpegts: open streams in which parameters do not
 appear in track order

---
 pkg/formats/mpegts/robust_demuxer.go | 29 ++++++++++++++++++++++++++++
 pkg/formats/mpegts/track.go          | 26 +++++++------------------
 2 files changed, 36 insertions(+), 19 deletions(-)

diff --git a/pkg/formats/mpegts/robust_demuxer.go b/pkg/formats/mpegts/robust_demuxer.go
index c3fd978..a6b705e 100644
--- a/pkg/formats/mpegts/robust_demuxer.go
+++ b/pkg/formats/mpegts/robust_demuxer.go
@@ -125,6 +125,7 @@ type robustDemuxer struct {
 
 	dem            *astits.Demuxer
 	ptsInterceptor *ptsInterceptor
+	skippedPES     []*robustDemuxerData // filled by nextPES
 }
 
 func (d *robustDemuxer) initialize() {
@@ -176,3 +177,31 @@ func (d *robustDemuxer) nextData() (*robustDemuxerData, error) {
 		}, nil
 	}
 }
+
+// nextPES returns the next PES of a given PID.
+// PESs of other PIDs are not lost and are returned by subsequent calls.
+func (d *robustDemuxer) nextPES(pid uint16) (*astits.PESData, error) {
+	for i, data := range d.skippedPES {
+		if data.PID == pid {
+			d.skippedPES = append(d.skippedPES[:i], d.skippedPES[i+1:]...)
+			return data.PES, nil
+		}
+	}
+
+	for {
+		data, err := d.nextData()
+		if err != nil {
+			return nil, err
+		}
+
+		if data.PES == nil {
+			continue
+		}
+
+		if data.PID == pid {
+			return data.PES, nil
+		}
+
+		d.skippedPES = append(d.skippedPES, data)
+	}
+}
diff --git a/pkg/formats/mpegts/track.go b/pkg/formats/mpegts/track.go
index bbc451f..e4f384c 100644
--- a/pkg/formats/mpegts/track.go
+++ b/pkg/formats/mpegts/track.go
@@ -27,17 +27,13 @@ const (
 
 func findMPEG4AudioConfig(dem *robustDemuxer, pid uint16) (*mpeg4audio.AudioSpecificConfig, error) {
 	for {
-		data, err := dem.nextData()
+		pes, err := dem.nextPES(pid)
 		if err != nil {
 			return nil, err
 		}
 
-		if data.PES == nil || data.PID != pid {
-			continue
-		}
-
 		var adtsPkts mpeg4audio.ADTSPackets
-		err = adtsPkts.Unmarshal(data.PES.Data)
+		err = adtsPkts.Unmarshal(pes.Data)
 		if err != nil {
 			return nil, fmt.Errorf("unable to decode ADTS: %w", err)
 		}
@@ -54,23 +50,19 @@ func findMPEG4AudioConfig(dem *robustDemuxer, pid uint16) (*mpeg4audio.AudioSpec
 
 func findAC3Parameters(dem *robustDemuxer, pid uint16) (int, int, error) {
 	for {
-		data, err := dem.nextData()
+		pes, err := dem.nextPES(pid)
 		if err != nil {
 			return 0, 0, err
 		}
 
-		if data.PES == nil || data.PID != pid {
-			continue
-		}
-
 		var syncInfo ac3.SyncInfo
-		err = syncInfo.Unmarshal(data.PES.Data)
+		err = syncInfo.Unmarshal(pes.Data)
 		if err != nil {
 			return 0, 0, fmt.Errorf("invalid AC-3 frame: %w", err)
 		}
 
 		var bsi ac3.BSI
-		err = bsi.Unmarshal(data.PES.Data[5:])
+		err = bsi.Unmarshal(pes.Data[5:])
 		if err != nil {
 			return 0, 0, fmt.Errorf("invalid AC-3 frame: %w", err)
 		}
@@ -81,17 +73,13 @@ func findAC3Parameters(dem *robustDemuxer, pid uint16) (int, int, error) {
 
 func findEAC3Parameters(dem *robustDemuxer, pid uint16) (int, int, error) {
 	for {
-		data, err := dem.nextData()
+		pes, err := dem.nextPES(pid)
 		if err != nil {
 			return 0, 0, err
 		}
 
-		if data.PES == nil || data.PID != pid {
-			continue
-		}
-
 		var syncInfo eac3.SyncInfo
-		err = syncInfo.Unmarshal(data.PES.Data)
+		err = syncInfo.Unmarshal(pes.Data)
 		if err != nil {
 			return 0, 0, fmt.Errorf("invalid E-AC-3 frame: %w", err)
 		}
-- 
2.43.0


From 8d0ef6d63a826e383ba7e72289341d5ecb44b2d5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:15:00 +0000
Subject: [PATCH 25/67] fix: mpegts: do not fail to open streams whose first
 audio unit is damaged

---
 pkg/formats/mpegts/track.go | 12 ++++++++----
 1 file changed, 8 insertions(+), 4 deletions(-)

diff --git a/pkg/formats/mpegts/track.go b/pkg/formats/mpegts/track.go
index e4f384c..54a3d9c 100644
--- a/pkg/formats/mpegts/track.go
+++ b/pkg/formats/mpegts/track.go
@@ -35,7 +35,8 @@ func findMPEG4AudioConfig(dem *robustDemuxer, pid uint16) (*mpeg4audio.AudioSpec
 		var adtsPkts mpeg4audio.ADTSPackets
 		err = adtsPkts.Unmarshal(pes.Data)
 		if err != nil {
-			return nil, fmt.Errorf("unable to decode ADTS: %w", err)
+			dem.OnDecodeError(fmt.Errorf("unable to decode ADTS: %w", err))
+			continue
 		}
 
 		pkt := adtsPkts[0]
@@ -58,13 +59,15 @@ func findAC3Parameters(dem *robustDemuxer, pid uint16) (int, int, error) {
 		var syncInfo ac3.SyncInfo
 		err = syncInfo.Unmarshal(pes.Data)
 		if err != nil {
-			return 0, 0, fmt.Errorf("invalid AC-3 frame: %w", err)
+			dem.OnDecodeError(fmt.Errorf("invalid AC-3 frame: %w", err))
+			continue
 		}
 
 		var bsi ac3.BSI
 		err = bsi.Unmarshal(pes.Data[5:])
 		if err != nil {
-			return 0, 0, fmt.Errorf("invalid AC-3 frame: %w", err)
+			dem.OnDecodeError(fmt.Errorf("invalid AC-3 frame: %w", err))
+			continue
 		}
 
 		return syncInfo.SampleRate(), bsi.ChannelCount(), nil
@@ -81,7 +84,8 @@ func findEAC3Parameters(dem *robustDemuxer, pid uint16) (int, int, error) {
 		var syncInfo eac3.SyncInfo
 		err = syncInfo.Unmarshal(pes.Data)
 		if err != nil {
-			return 0, 0, fmt.Errorf("invalid E-AC-3 frame: %w", err)
+			dem.OnDecodeError(fmt.Errorf("invalid E-AC-3 frame: %w", err))
+			continue
 		}
 
 		return syncInfo.SampleRate(), syncInfo.ChannelCount(), nil
-- 
2.43.0


From 3c3a16f5ee49d412dead1789d49d9b833be5d488 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:36:17 +0000
Subject: [PATCH 26/67] fix: mp4: do not wrap sample rates greater than 65535
 of AAC and FLAC sample entries

---
 internal/mp4/codec_boxes.go | 18 ++++++++++++++++--
 1 file changed, 16 insertions(+), 2 deletions(-)

diff --git a/internal/mp4/codec_boxes.go b/internal/mp4/codec_boxes.go
index eb04178..bb1f476 100644
--- a/internal/mp4/codec_boxes.go
+++ b/internal/mp4/codec_boxes.go
@@ -2,6 +2,7 @@ package mp4
 
 import (
 	"fmt"
+	"math"
 
 	amp4 "github.com/abema/go-mp4"
 
@@ -23,6 +24,19 @@ func boolToUint8(v bool) uint8 {
 	return 0
 }
 
+// audioSampleEntryRate returns the sample rate, in 16.16 format, of an audio sample entry.
+// Sample rates that do not fit are replaced with their greatest expressible regular division or,
+// in absence of that, with the maximum. The real one is in the codec configuration.
+func audioSampleEntryRate(sampleRate int) uint32 {
+	for sampleRate > math.MaxUint16 {
+		if (sampleRate % 2) != 0 {
+			return math.MaxUint16 << 16
+		}
+		sampleRate /= 2
+	}
+	return uint32(sampleRate) << 16
+}
+
 func av1FindSequenceHeader(buf []byte) ([]byte, error) {
 	var tu av1.Bitstream
 	err := tu.Unmarshal(buf)
@@ -1055,7 +1069,7 @@ func WriteCodecBoxes(w *Writer, codec codecs.Codec, trackID int, info *CodecInfo
 			},
 			ChannelCount: uint16(codec.StreamInfo.ChannelCount),
 			SampleSize:   uint16(codec.StreamInfo.BitDepth),
-			SampleRate:   codec.StreamInfo.SampleRate * 65536,
+			SampleRate:   audioSampleEntryRate(int(codec.StreamInfo.SampleRate)),
 		})
 		if err != nil {
 			return err
@@ -1109,7 +1123,7 @@ func WriteCodecBoxes(w *Writer, codec codecs.Codec, trackID int, info *CodecInfo
 			},
 			ChannelCount: channelCount,
 			SampleSize:   16,
-			SampleRate:   uint32(codec.Config.SampleRate * 65536),
+			SampleRate:   audioSampleEntryRate(codec.Config.SampleRate),
 		})
 		if err != nil {
 			return err
-- 
2.43.0


From b9d14c8aa036427b20146f16aee08771dfc7d882 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:36:17 +0000
Subject: [PATCH 27/67] fix: mp4: refuse LPCM and MPEG-1 audio sample rates
 that cannot be represented

---
 internal/mp4/codec_boxes.go | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/internal/mp4/codec_boxes.go b/internal/mp4/codec_boxes.go
index bb1f476..e9e7a0c 100644
--- a/internal/mp4/codec_boxes.go
+++ b/internal/mp4/codec_boxes.go
@@ -1168,6 +1168,10 @@ func WriteCodecBoxes(w *Writer, codec codecs.Codec, trackID int, info *CodecInfo
 		}
 
 	case *codecs.MPEG1Audio:
+		if codec.SampleRate < 0 || codec.SampleRate > math.MaxUint16 {
+			return fmt.Errorf("unsupported sample rate: %v", codec.SampleRate)
+		}
+
 		_, err := w.WriteBoxStart(&amp4.AudioSampleEntry{ // <mp4a>
 			SampleEntry: amp4.SampleEntry{
 				AnyTypeBox: amp4.AnyTypeBox{
@@ -1306,6 +1310,10 @@ func WriteCodecBoxes(w *Writer, codec codecs.Codec, trackID int, info *CodecInfo
 		}
 
 	case *codecs.LPCM:
+		if codec.SampleRate < 0 || codec.SampleRate > math.MaxUint16 {
+			return fmt.Errorf("unsupported sample rate: %v", codec.SampleRate)
+		}
+
 		_, err := w.WriteBoxStart(&amp4.AudioSampleEntry{ // <ipcm>
 			SampleEntry: amp4.SampleEntry{
 				AnyTypeBox: amp4.AnyTypeBox{
-- 
2.43.0


From cae7b2a4fa8f52ac3800af57936ed57945b2405b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:36:17 +0000
Subject: [PATCH 28/67] fix: mp4: refuse VP9 and M-JPEG tracks without height

---
 internal/mp4/codec_info.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/internal/mp4/codec_info.go b/internal/mp4/codec_info.go
index b92d13b..21f7450 100644
--- a/internal/mp4/codec_info.go
+++ b/internal/mp4/codec_info.go
@@ -34,7 +34,7 @@ func (ci *CodecInfo) Fill(codec codecs.Codec) error {
 		return nil
 
 	case *codecs.VP9:
-		if codec.Width == 0 {
+		if codec.Width == 0 || codec.Height == 0 {
 			return fmt.Errorf("VP9 parameters not provided")
 		}
 
@@ -95,7 +95,7 @@ func (ci *CodecInfo) Fill(codec codecs.Codec) error {
 		return nil
 
 	case *codecs.MJPEG:
-		if codec.Width == 0 {
+		if codec.Width == 0 || codec.Height == 0 {
 			return fmt.Errorf("M-JPEG parameters not provided")
 		}
 
-- 
2.43.0


From c39aa98e56f513247003fa94a7de7950f46315af Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:36:18 +0000
Subject: [PATCH 29/67] fix: mp4: refuse video sizes that cannot be represented

---
 internal/mp4/codec_info.go | 14 ++++++++++++++
 1 file changed, 14 insertions(+)

diff --git a/internal/mp4/codec_info.go b/internal/mp4/codec_info.go
index 21f7450..e348d1f 100644
--- a/internal/mp4/codec_info.go
+++ b/internal/mp4/codec_info.go
@@ -2,6 +2,7 @@ package mp4
 
 import (
 	"fmt"
+	"math"
 
 	"github.com/bluenviron/mediacommon/v2/pkg/codecs/av1"
 	"github.com/bluenviron/mediacommon/v2/pkg/codecs/h264"
@@ -20,6 +21,19 @@ type CodecInfo struct {
 
 // Fill fills CodecInfo from a codecs.Codec.
 func (ci *CodecInfo) Fill(codec codecs.Codec) error {
+	err := ci.fill(codec)
+	if err != nil {
+		return err
+	}
+
+	if ci.Width < 0 || ci.Width > math.MaxUint16 || ci.Height < 0 || ci.Height > math.MaxUint16 {
+		return fmt.Errorf("unsupported video size: %dx%d", ci.Width, ci.Height)
+	}
+
+	return nil
+}
+
+func (ci *CodecInfo) fill(codec codecs.Codec) error {
 	switch codec := codec.(type) {
 	case *codecs.AV1:
 		av1SequenceHeader := &av1.SequenceHeader{}
-- 
2.43.0


From c811cb73891b4ed9c425385c806cab3545a5aa5d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:36:18 +0000
Subject: [PATCH 30/67] fix: mp4: do not ignore errors when encoding MPEG-4
 audio configurations

---
 internal/mp4/codec_boxes.go | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/internal/mp4/codec_boxes.go b/internal/mp4/codec_boxes.go
index e9e7a0c..67e39e2 100644
--- a/internal/mp4/codec_boxes.go
+++ b/internal/mp4/codec_boxes.go
@@ -1129,7 +1129,10 @@ func WriteCodecBoxes(w *Writer, codec codecs.Codec, trackID int, info *CodecInfo
 			return err
 		}
 
-		enc, _ := codec.Config.Marshal()
+		enc, err := codec.Config.Marshal()
+		if err != nil {
+			return err
+		}
 
 		_, err = w.WriteBox(&amp4.Esds{ // <esds/>
 			Descriptors: []amp4.Descriptor{
-- 
2.43.0


From 5d6dfc9feb58b04dc13d671296ca031655735965 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:36:36 +0000
Subject: [PATCH 31/67] fix: mp4: write the H265 tier and profile space into
 hvcC

---
 internal/mp4/codec_boxes.go | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/internal/mp4/codec_boxes.go b/internal/mp4/codec_boxes.go
index 67e39e2..e17cf34 100644
--- a/internal/mp4/codec_boxes.go
+++ b/internal/mp4/codec_boxes.go
@@ -767,6 +767,8 @@ func WriteCodecBoxes(w *Writer, codec codecs.Codec, trackID int, info *CodecInfo
 
 		_, err = w.WriteBox(&amp4.HvcC{ // <hvcC/>
 			ConfigurationVersion:        1,
+			GeneralProfileSpace:         info.H265SPS.ProfileTierLevel.GeneralProfileSpace,
+			GeneralTierFlag:             info.H265SPS.ProfileTierLevel.GeneralTierFlag != 0,
 			GeneralProfileIdc:           info.H265SPS.ProfileTierLevel.GeneralProfileIdc,
 			GeneralProfileCompatibility: info.H265SPS.ProfileTierLevel.GeneralProfileCompatibilityFlag,
 			GeneralConstraintIndicator: [6]uint8{
-- 
2.43.0


From b8e0aa0c637eae6714c059f588e5cd96e2bf138d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:36:36 +0000
Subject: [PATCH 32/67] fix: mp4: refuse H264 and H265 parameters that do not
 fit into configuration boxes

---
 internal/mp4/codec_info.go | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/internal/mp4/codec_info.go b/internal/mp4/codec_info.go
index e348d1f..ec821c4 100644
--- a/internal/mp4/codec_info.go
+++ b/internal/mp4/codec_info.go
@@ -61,6 +61,10 @@ func (ci *CodecInfo) fill(codec codecs.Codec) error {
 			return fmt.Errorf("H265 parameters not provided")
 		}
 
+		if len(codec.VPS) > math.MaxUint16 || len(codec.SPS) > math.MaxUint16 || len(codec.PPS) > math.MaxUint16 {
+			return fmt.Errorf("H265 parameters are too big")
+		}
+
 		h265SPS := &h265.SPS{}
 		err := h265SPS.Unmarshal(codec.SPS)
 		if err != nil {
@@ -77,6 +81,10 @@ func (ci *CodecInfo) fill(codec codecs.Codec) error {
 			return fmt.Errorf("H264 parameters not provided")
 		}
 
+		if len(codec.SPS) > math.MaxUint16 || len(codec.PPS) > math.MaxUint16 {
+			return fmt.Errorf("H264 parameters are too big")
+		}
+
 		h264SPS := &h264.SPS{}
 		err := h264SPS.Unmarshal(codec.SPS)
 		if err != nil {
-- 
2.43.0


From 20bd4cb9ae360bf5ee753b55f047de3d5b9600af Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:37:46 +0000
Subject: [PATCH 33/67] fix: mpeg4audio: refuse sample rates that cannot be
 represented

---
 pkg/codecs/mpeg4audio/audio_specific_config.go | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/pkg/codecs/mpeg4audio/audio_specific_config.go b/pkg/codecs/mpeg4audio/audio_specific_config.go
index adb3528..01548b7 100644
--- a/pkg/codecs/mpeg4audio/audio_specific_config.go
+++ b/pkg/codecs/mpeg4audio/audio_specific_config.go
@@ -244,6 +244,10 @@ func (c AudioSpecificConfig) marshalToBits(buf []byte, pos *int) error {
 
 	sampleRateIndex, ok := reverseSampleRates[c.SampleRate]
 	if !ok {
+		if c.SampleRate < 0 || c.SampleRate >= (1<<24) {
+			return fmt.Errorf("invalid sample rate (%d)", c.SampleRate)
+		}
+
 		bits.WriteBitsUnsafe(buf, pos, uint64(15), 4)
 		bits.WriteBitsUnsafe(buf, pos, uint64(c.SampleRate), 24)
 	} else {
@@ -271,6 +275,10 @@ func (c AudioSpecificConfig) marshalToBits(buf []byte, pos *int) error {
 	if c.ExtensionType == ObjectTypeSBR || c.ExtensionType == ObjectTypePS {
 		sampleRateIndex, ok = reverseSampleRates[c.ExtensionSampleRate]
 		if !ok {
+			if c.ExtensionSampleRate < 0 || c.ExtensionSampleRate >= (1<<24) {
+				return fmt.Errorf("invalid extension sample rate (%d)", c.ExtensionSampleRate)
+			}
+
 			bits.WriteBitsUnsafe(buf, pos, uint64(0x0F), 4)
 			bits.WriteBitsUnsafe(buf, pos, uint64(c.ExtensionSampleRate), 24)
 		} else {
-- 
2.43.0


From 35a0435c2ff11f3f603ab550b8622b06e4823a6e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:38:14 +0000
Subject: [PATCH 34/67] fix: flac: refuse stream infos that cannot be
 represented

---
 pkg/codecs/flac/stream_info.go | 17 +++++++++++++++++
 1 file changed, 17 insertions(+)

diff --git a/pkg/codecs/flac/stream_info.go b/pkg/codecs/flac/stream_info.go
index b56c066..05c01ba 100644
--- a/pkg/codecs/flac/stream_info.go
+++ b/pkg/codecs/flac/stream_info.go
@@ -44,6 +44,23 @@ func (s StreamInfo) marshalSize() int {
 }
 
 func (s StreamInfo) marshalTo(buf []byte) (int, error) {
+	switch {
+	case s.MinFrameSize >= (1 << 24), s.MaxFrameSize >= (1 << 24):
+		return 0, fmt.Errorf("invalid frame size")
+
+	case s.SampleRate >= (1 << 20):
+		return 0, fmt.Errorf("invalid sample rate (%d)", s.SampleRate)
+
+	case s.ChannelCount < 1 || s.ChannelCount > 8:
+		return 0, fmt.Errorf("invalid channel count (%d)", s.ChannelCount)
+
+	case s.BitDepth < 1 || s.BitDepth > 32:
+		return 0, fmt.Errorf("invalid bit depth (%d)", s.BitDepth)
+
+	case s.TotalSamples >= (1 << 36):
+		return 0, fmt.Errorf("invalid sample count (%d)", s.TotalSamples)
+	}
+
 	buf[0] = byte(s.MinBlockSize >> 8)
 	buf[1] = byte(s.MinBlockSize)
 	buf[2] = byte(s.MaxBlockSize >> 8)
-- 
2.43.0


From ed7442e0b39435e24786be4c1a28756d11640b33 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:42:01 +0000
Subject: [PATCH 35/67] fix: fmp4: take into account the flags of the first
 sample of a run

---
 pkg/formats/fmp4/part.go  | 1 +
 pkg/formats/fmp4/parts.go | 2 ++
 2 files changed, 3 insertions(+)

diff --git a/pkg/formats/fmp4/part.go b/pkg/formats/fmp4/part.go
index 349f262..8372c23 100644
--- a/pkg/formats/fmp4/part.go
+++ b/pkg/formats/fmp4/part.go
@@ -10,6 +10,7 @@ import (
 
 const (
 	trunFlagDataOffsetPreset                       = 0x01
+	trunFlagFirstSampleFlagsPresent                = 0x04
 	trunFlagSampleDurationPresent                  = 0x100
 	trunFlagSampleSizePresent                      = 0x200
 	trunFlagSampleFlagsPresent                     = 0x400
diff --git a/pkg/formats/fmp4/parts.go b/pkg/formats/fmp4/parts.go
index e055ac8..4eb2d2c 100644
--- a/pkg/formats/fmp4/parts.go
+++ b/pkg/formats/fmp4/parts.go
@@ -161,6 +161,8 @@ func (ps *Parts) Unmarshal(byts []byte) error {
 						var sampleFlags uint32
 						if (trunFlags & trunFlagSampleFlagsPresent) != 0 {
 							sampleFlags = e.SampleFlags
+						} else if i == 0 && (trunFlags&trunFlagFirstSampleFlagsPresent) != 0 {
+							sampleFlags = trun.FirstSampleFlags
 						} else {
 							sampleFlags = tfhd.DefaultSampleFlags
 						}
-- 
2.43.0


From 1e65f4c864f17ee61a316853bad95b32bec0c513 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:46:45 +0000
Subject: [PATCH 36/67] fix: pmp4: write and read the duration of tracks whose
 duration does not fit 32 bits

---
 pkg/formats/pmp4/presentation.go | 10 +++++-----
 pkg/formats/pmp4/track.go        | 31 +++++++++++++++++++++----------
 2 files changed, 26 insertions(+), 15 deletions(-)

diff --git a/pkg/formats/pmp4/presentation.go b/pkg/formats/pmp4/presentation.go
index bb7466f..0149651 100644
--- a/pkg/formats/pmp4/presentation.go
+++ b/pkg/formats/pmp4/presentation.go
@@ -50,7 +50,7 @@ func (p *Presentation) Unmarshal(r io.ReadSeeker) error {
 	)
 
 	var state readState
-	var trackDuration uint32
+	var trackDuration uint64
 	var curTrack *Track
 	var codecBoxesReader *imp4.CodecBoxesReader
 
@@ -168,7 +168,7 @@ func (p *Presentation) Unmarshal(r io.ReadSeeker) error {
 			}
 
 			curTrack.TimeScale = mdhd.Timescale
-			trackDuration = mdhd.DurationV0
+			trackDuration = mdhd.GetDuration()
 			state = waitingStsd
 
 		case "minf", "stbl":
@@ -210,12 +210,12 @@ func (p *Presentation) Unmarshal(r io.ReadSeeker) error {
 				}
 			}
 
-			sampleDuration := uint32(0)
+			sampleDuration := uint64(0)
 			for _, sa := range curTrack.Samples {
-				sampleDuration += sa.Duration
+				sampleDuration += uint64(sa.Duration)
 			}
 
-			curTrack.TimeOffset = int32(trackDuration) - int32(sampleDuration)
+			curTrack.TimeOffset = int32(trackDuration - sampleDuration)
 
 			state = waitingSampleProps
 
diff --git a/pkg/formats/pmp4/track.go b/pkg/formats/pmp4/track.go
index 23d37fb..2d3e897 100644
--- a/pkg/formats/pmp4/track.go
+++ b/pkg/formats/pmp4/track.go
@@ -1,6 +1,8 @@
 package pmp4
 
 import (
+	"math"
+
 	amp4 "github.com/abema/go-mp4"
 
 	imp4 "github.com/bluenviron/mediacommon/v2/internal/mp4"
@@ -74,9 +76,9 @@ func (t Track) marshal(w *imp4.Writer) (*headerTrackMarshalResult, error) {
 		return nil, err
 	}
 
-	sampleDuration := uint32(0)
+	sampleDuration := uint64(0)
 	for _, sa := range t.Samples {
-		sampleDuration += sa.Duration
+		sampleDuration += uint64(sa.Duration)
 	}
 
 	presentationDuration := uint32(((int64(sampleDuration) + int64(t.TimeOffset)) * globalTimescale) / int64(t.TimeScale))
@@ -131,11 +133,20 @@ func (t Track) marshal(w *imp4.Writer) (*headerTrackMarshalResult, error) {
 		return nil, err
 	}
 
-	_, err = w.WriteBox(&amp4.Mdhd{ // <mdhd/>
-		Timescale:  t.TimeScale,
-		DurationV0: uint32(int64(sampleDuration) + int64(t.TimeOffset)),
-		Language:   [3]byte{'u', 'n', 'd'},
-	})
+	mdhd := &amp4.Mdhd{ // <mdhd/>
+		Timescale: t.TimeScale,
+		Language:  [3]byte{'u', 'n', 'd'},
+	}
+
+	mediaDuration := int64(sampleDuration) + int64(t.TimeOffset)
+	if mediaDuration > math.MaxUint32 {
+		mdhd.SetVersion(1)
+		mdhd.DurationV1 = uint64(mediaDuration)
+	} else {
+		mdhd.DurationV0 = uint32(mediaDuration)
+	}
+
+	_, err = w.WriteBox(mdhd)
 	if err != nil {
 		return nil, err
 	}
@@ -308,7 +319,7 @@ func (t Track) marshal(w *imp4.Writer) (*headerTrackMarshalResult, error) {
 	}, nil
 }
 
-func (t *Track) marshalELST(w *imp4.Writer, sampleDuration uint32) error {
+func (t *Track) marshalELST(w *imp4.Writer, sampleDuration uint64) error {
 	if t.TimeOffset > 0 {
 		_, err := w.WriteBox(&amp4.Elst{
 			EntryCount: 2,
@@ -320,7 +331,7 @@ func (t *Track) marshalELST(w *imp4.Writer, sampleDuration uint32) error {
 					MediaRateFraction: 0,
 				},
 				{ // presentation
-					SegmentDurationV0: uint32((uint64(sampleDuration) * globalTimescale) / uint64(t.TimeScale)),
+					SegmentDurationV0: uint32((sampleDuration * globalTimescale) / uint64(t.TimeScale)),
 					MediaTimeV0:       0,
 					MediaRateInteger:  1,
 					MediaRateFraction: 0,
@@ -333,7 +344,7 @@ func (t *Track) marshalELST(w *imp4.Writer, sampleDuration uint32) error {
 	_, err := w.WriteBox(&amp4.Elst{
 		EntryCount: 1,
 		Entries: []amp4.ElstEntry{{
-			SegmentDurationV0: uint32(((uint64(sampleDuration) +
+			SegmentDurationV0: uint32(((sampleDuration +
 				uint64(-t.TimeOffset)) * globalTimescale) / uint64(t.TimeScale)),
 			MediaTimeV0:       -t.TimeOffset,
 			MediaRateInteger:  1,
-- 
2.43.0


From f8c82a8a5c4c3ca5301277c8275251f81bf3bdcc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:46:45 +0000
Subject: [PATCH 37/67] fix: pmp4: refuse presentations whose sample data does
 not fit 32-bit offsets

---
 pkg/formats/pmp4/presentation.go | 24 +++++++++++++++++++-----
 1 file changed, 19 insertions(+), 5 deletions(-)

diff --git a/pkg/formats/pmp4/presentation.go b/pkg/formats/pmp4/presentation.go
index 0149651..b3364f1 100644
--- a/pkg/formats/pmp4/presentation.go
+++ b/pkg/formats/pmp4/presentation.go
@@ -5,6 +5,7 @@ import (
 	"errors"
 	"fmt"
 	"io"
+	"math"
 	"time"
 
 	amp4 "github.com/abema/go-mp4"
@@ -19,6 +20,8 @@ const (
 	maxChunks       = maxSamples
 )
 
+var errTooBig = errors.New("sample data is too big, sizes and offsets do not fit 32 bits")
+
 func durationMp4ToGo(v int64, timeScale uint32) time.Duration {
 	timeScale64 := int64(timeScale)
 	secs := v / timeScale64
@@ -406,9 +409,12 @@ func (p Presentation) Marshal(w io.Writer) error {
 		|mdat|
 	*/
 
-	dataSize, sortedSamples := p.sortSamples()
+	dataSize, sortedSamples, err := p.sortSamples()
+	if err != nil {
+		return err
+	}
 
-	err := p.marshalFtypAndMoov(w)
+	err = p.marshalFtypAndMoov(w, dataSize)
 	if err != nil {
 		return err
 	}
@@ -416,7 +422,7 @@ func (p Presentation) Marshal(w io.Writer) error {
 	return p.marshalMdat(w, dataSize, sortedSamples)
 }
 
-func (p *Presentation) sortSamples() (uint32, []*Sample) {
+func (p *Presentation) sortSamples() (uint32, []*Sample, error) {
 	sampleCount := 0
 	for _, track := range p.Tracks {
 		sampleCount += len(track.Samples)
@@ -454,6 +460,10 @@ func (p *Presentation) sortSamples() (uint32, []*Sample) {
 		sample := p.Tracks[bestTrack].Samples[processedSamples[bestTrack]]
 		sample.offset = offset
 
+		if (uint64(offset) + uint64(sample.PayloadSize)) > math.MaxUint32 {
+			return 0, nil, errTooBig
+		}
+
 		processedSamples[bestTrack]++
 		elapsed[bestTrack] += int64(sample.Duration)
 		offset += sample.PayloadSize
@@ -461,10 +471,10 @@ func (p *Presentation) sortSamples() (uint32, []*Sample) {
 		pos++
 	}
 
-	return offset, sortedSamples
+	return offset, sortedSamples, nil
 }
 
-func (p *Presentation) marshalFtypAndMoov(w io.Writer) error {
+func (p *Presentation) marshalFtypAndMoov(w io.Writer, dataSize uint32) error {
 	var outBuf seekablebuffer.Buffer
 	mw := &imp4.Writer{W: &outBuf}
 	mw.Initialize()
@@ -535,6 +545,10 @@ func (p *Presentation) marshalFtypAndMoov(w io.Writer) error {
 
 	dataOffset := moovEndOffset + 8
 
+	if (uint64(dataOffset) + uint64(dataSize)) > math.MaxUint32 {
+		return errTooBig
+	}
+
 	for i := range p.Tracks {
 		for j := range stcos[i].ChunkOffset {
 			stcos[i].ChunkOffset[j] += uint32(dataOffset)
-- 
2.43.0


From ef0bc1770c236c37e8c2929c793906c43e99c4fa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:55:34 +0000
Subject: [PATCH 38/67] fix: mp4: limit the depth of nested boxes when reading

a small file with many nested boxes caused the allocation of memory quadratic in its size, or a stack overflow.
---
 internal/mp4/read_limits.go      | 20 ++++++++++++++++++++
 pkg/formats/fmp4/init.go         |  5 +++++
 pkg/formats/fmp4/parts.go        |  7 +++++++
 pkg/formats/pmp4/presentation.go |  5 +++++
 4 files changed, 37 insertions(+)
 create mode 100644 internal/mp4/read_limits.go

diff --git a/internal/mp4/read_limits.go b/internal/mp4/read_limits.go
new file mode 100644
index 0000000..f560217
--- /dev/null
+++ b/internal/mp4/read_limits.go
@@ -0,0 +1,20 @@
+package mp4
+
+import (
+	"fmt"
+
+	amp4 "github.com/abema/go-mp4"
+)
+
+// deepest supported path is moov/trak/mdia/minf/stbl/stsd/mp4a/wave/esds.
+const maxDepth = 16
+
+// CheckBox checks that a box can be read without exhausting resources.
+func CheckBox(h *amp4.ReadHandle) error {
+	// prevent RAM exhaustion due to nested boxes
+	if len(h.Path) > maxDepth {
+		return fmt.Errorf("boxes are nested too deeply")
+	}
+
+	return nil
+}
diff --git a/pkg/formats/fmp4/init.go b/pkg/formats/fmp4/init.go
index f4b46d7..068b97f 100644
--- a/pkg/formats/fmp4/init.go
+++ b/pkg/formats/fmp4/init.go
@@ -37,6 +37,11 @@ func (i *Init) Unmarshal(r io.ReadSeeker) error {
 	var codecBoxesReader *imp4.CodecBoxesReader
 
 	_, err := amp4.ReadBoxStructure(r, func(h *amp4.ReadHandle) (any, error) {
+		err := imp4.CheckBox(h)
+		if err != nil {
+			return nil, err
+		}
+
 		switch state {
 		case readingUserData:
 			if len(h.Path) < 3 {
diff --git a/pkg/formats/fmp4/parts.go b/pkg/formats/fmp4/parts.go
index 4eb2d2c..8162617 100644
--- a/pkg/formats/fmp4/parts.go
+++ b/pkg/formats/fmp4/parts.go
@@ -6,6 +6,8 @@ import (
 	"io"
 
 	amp4 "github.com/abema/go-mp4"
+
+	imp4 "github.com/bluenviron/mediacommon/v2/internal/mp4"
 )
 
 const (
@@ -34,6 +36,11 @@ func (ps *Parts) Unmarshal(byts []byte) error {
 	var tfhd *amp4.Tfhd
 
 	_, err := amp4.ReadBoxStructure(bytes.NewReader(byts), func(h *amp4.ReadHandle) (any, error) {
+		err := imp4.CheckBox(h)
+		if err != nil {
+			return nil, err
+		}
+
 		if h.BoxInfo.IsSupportedType() {
 			switch h.BoxInfo.Type.String() {
 			case "moof":
diff --git a/pkg/formats/pmp4/presentation.go b/pkg/formats/pmp4/presentation.go
index b3364f1..a7db59c 100644
--- a/pkg/formats/pmp4/presentation.go
+++ b/pkg/formats/pmp4/presentation.go
@@ -66,6 +66,11 @@ func (p *Presentation) Unmarshal(r io.ReadSeeker) error {
 	var curSampleSizes []uint32
 
 	_, err := amp4.ReadBoxStructure(r, func(h *amp4.ReadHandle) (any, error) {
+		err := imp4.CheckBox(h)
+		if err != nil {
+			return nil, err
+		}
+
 		if state == readingCodec {
 			ret, err := codecBoxesReader.Read(h)
 			if err != nil {
-- 
2.43.0


From f35b0398d590e0530e2af2e1b3e4634cf2a43a41 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:55:34 +0000
Subject: [PATCH 39/67] fix: mp4: refuse boxes with a size that overflows the
 file offset

reading restarted from a previous offset and never ended.
---
 internal/mp4/read_limits.go | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/internal/mp4/read_limits.go b/internal/mp4/read_limits.go
index f560217..15e85c3 100644
--- a/internal/mp4/read_limits.go
+++ b/internal/mp4/read_limits.go
@@ -2,6 +2,7 @@ package mp4
 
 import (
 	"fmt"
+	"math"
 
 	amp4 "github.com/abema/go-mp4"
 )
@@ -16,5 +17,10 @@ func CheckBox(h *amp4.ReadHandle) error {
 		return fmt.Errorf("boxes are nested too deeply")
 	}
 
+	// prevent going back to already read boxes due to an overflow
+	if h.BoxInfo.Size > math.MaxInt64 {
+		return fmt.Errorf("invalid box size: %d", h.BoxInfo.Size)
+	}
+
 	return nil
 }
-- 
2.43.0


From 7053b5048cd31b0adb6d91f4b43cc949b0e9a95f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:56:04 +0000
Subject: [PATCH 40/67] fix: fmp4: refuse 'trun' boxes in user data

the sample count of the box is unlimited and does not depend on its size.
---
 pkg/formats/fmp4/init.go | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/pkg/formats/fmp4/init.go b/pkg/formats/fmp4/init.go
index 068b97f..225f730 100644
--- a/pkg/formats/fmp4/init.go
+++ b/pkg/formats/fmp4/init.go
@@ -47,6 +47,11 @@ func (i *Init) Unmarshal(r io.ReadSeeker) error {
 			if len(h.Path) < 3 {
 				state = waitingTrak
 			} else {
+				// prevent RAM exhaustion due to unlimited Trun unmarshaling
+				if h.BoxInfo.Type == amp4.BoxTypeTrun() {
+					return nil, fmt.Errorf("unexpected box '%v'", h.BoxInfo.Type)
+				}
+
 				box, _, err := h.ReadPayload()
 				if err != nil {
 					return nil, err
-- 
2.43.0


From 8d9f991c0ec81b8d4cc73ceb6664ea61c825039d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:56:04 +0000
Subject: [PATCH 41/67] fix: fmp4: enforce the sample limit on 'trun' boxes
 with a 64-bit size too

---
 pkg/formats/fmp4/parts.go | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/pkg/formats/fmp4/parts.go b/pkg/formats/fmp4/parts.go
index 8162617..a7b1a2b 100644
--- a/pkg/formats/fmp4/parts.go
+++ b/pkg/formats/fmp4/parts.go
@@ -118,9 +118,9 @@ func (ps *Parts) Unmarshal(byts []byte) error {
 				}
 
 				// prevent RAM exhaustion due to unlimited Trun unmarshaling
-				rawBox := byts[h.BoxInfo.Offset:]
-				if len(rawBox) >= 16 {
-					sampleCount := uint32(rawBox[12])<<24 | uint32(rawBox[13])<<16 | uint32(rawBox[14])<<8 | uint32(rawBox[15])
+				rawBox := byts[h.BoxInfo.Offset+h.BoxInfo.HeaderSize:]
+				if len(rawBox) >= 8 {
+					sampleCount := uint32(rawBox[4])<<24 | uint32(rawBox[5])<<16 | uint32(rawBox[6])<<8 | uint32(rawBox[7])
 					if sampleCount > maxSamplesPerTrun {
 						return nil, fmt.Errorf("sample count (%d) exceeds maximum (%d)", sampleCount, maxSamplesPerTrun)
 					}
-- 
2.43.0


From d04b7bd8495653a19ac6a2fc16a5ef394bcb1018 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:56:04 +0000
Subject: [PATCH 42/67] fix: fmp4: avoid copying all samples of a track on
 every 'trun' box

memory allocations were quadratic in the number of boxes.
---
 pkg/formats/fmp4/parts.go | 7 +------
 1 file changed, 1 insertion(+), 6 deletions(-)

diff --git a/pkg/formats/fmp4/parts.go b/pkg/formats/fmp4/parts.go
index a7b1a2b..cfb28e9 100644
--- a/pkg/formats/fmp4/parts.go
+++ b/pkg/formats/fmp4/parts.go
@@ -138,11 +138,6 @@ func (ps *Parts) Unmarshal(byts []byte) error {
 						return nil, fmt.Errorf("unsupported flags")
 					}
 
-					existing := len(curTrack.Samples)
-					tmp := make([]*Sample, existing+len(trun.Entries))
-					copy(tmp, curTrack.Samples)
-					curTrack.Samples = tmp
-
 					pos := uint64(trun.DataOffset) + moofOffset
 					if uint64(len(byts)) < pos {
 						return nil, fmt.Errorf("invalid data_offset / moof_offset")
@@ -189,7 +184,7 @@ func (ps *Parts) Unmarshal(byts []byte) error {
 						s.Payload = ptr[:size]
 						ptr = ptr[size:]
 
-						curTrack.Samples[existing+i] = s
+						curTrack.Samples = append(curTrack.Samples, s)
 					}
 				}
 
-- 
2.43.0


From 930a85d804266f66a128467a60785430b015ac10 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:56:05 +0000
Subject: [PATCH 43/67] fix: pmp4: fix crash when samples per chunk is zero

---
 pkg/formats/pmp4/presentation.go | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/pkg/formats/pmp4/presentation.go b/pkg/formats/pmp4/presentation.go
index a7db59c..0f71a5f 100644
--- a/pkg/formats/pmp4/presentation.go
+++ b/pkg/formats/pmp4/presentation.go
@@ -288,6 +288,10 @@ func (p *Presentation) Unmarshal(r io.ReadSeeker) error {
 				sampleCount := 0
 
 				for i, entry := range stsc.Entries {
+					if entry.SamplesPerChunk == 0 {
+						return nil, fmt.Errorf("invalid stsc")
+					}
+
 					var chunkCount uint32
 					if i != (len(stsc.Entries) - 1) {
 						chunkCount = stsc.Entries[i+1].FirstChunk - entry.FirstChunk
@@ -303,10 +307,6 @@ func (p *Presentation) Unmarshal(r io.ReadSeeker) error {
 						return nil, fmt.Errorf("invalid stsc")
 					}
 
-					if entry.SamplesPerChunk == 0 {
-						return nil, fmt.Errorf("invalid stsc")
-					}
-
 					for range chunkCount {
 						if (sampleCount + int(entry.SamplesPerChunk)) > len(curTrack.Samples) {
 							return nil, fmt.Errorf("invalid stsc")
-- 
2.43.0


From 17eb8a06f7bf0ebd6ddc58f67b8c62543d0241ab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:56:05 +0000
Subject: [PATCH 44/67] fix: pmp4: return seek errors when reading payloads

---
 pkg/formats/pmp4/presentation.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pkg/formats/pmp4/presentation.go b/pkg/formats/pmp4/presentation.go
index 0f71a5f..f272de3 100644
--- a/pkg/formats/pmp4/presentation.go
+++ b/pkg/formats/pmp4/presentation.go
@@ -370,7 +370,7 @@ func (p *Presentation) Unmarshal(r io.ReadSeeker) error {
 
 					curTrack.Samples[i].GetPayload = func() ([]byte, error) {
 						_, err2 := r.Seek(int64(sampleOffset), io.SeekStart)
-						if err != nil {
+						if err2 != nil {
 							return nil, err2
 						}
 
-- 
2.43.0


From 4c39e03590906c13af6112b2e0d2008d1ea26ed0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:56:05 +0000
Subject: [PATCH 45/67] fix: pmp4: refuse files without position of samples

payload of samples was impossible to read, and caused a crash.
---
 pkg/formats/pmp4/presentation.go | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/pkg/formats/pmp4/presentation.go b/pkg/formats/pmp4/presentation.go
index f272de3..ea42bb6 100644
--- a/pkg/formats/pmp4/presentation.go
+++ b/pkg/formats/pmp4/presentation.go
@@ -399,6 +399,14 @@ func (p *Presentation) Unmarshal(r io.ReadSeeker) error {
 		return fmt.Errorf("no tracks found")
 	}
 
+	for _, track := range p.Tracks {
+		for _, sample := range track.Samples {
+			if sample.GetPayload == nil {
+				return fmt.Errorf("position of samples is missing")
+			}
+		}
+	}
+
 	return nil
 }
 
-- 
2.43.0


From eb4f56fa449468a7b053d7e65afc103938c13ddd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:56:05 +0000
Subject: [PATCH 46/67] fix: pmp4: refuse files with more samples than sample
 sizes before allocating them

---
 pkg/formats/pmp4/presentation.go | 16 ++++++++++++++--
 1 file changed, 14 insertions(+), 2 deletions(-)

diff --git a/pkg/formats/pmp4/presentation.go b/pkg/formats/pmp4/presentation.go
index ea42bb6..8685b86 100644
--- a/pkg/formats/pmp4/presentation.go
+++ b/pkg/formats/pmp4/presentation.go
@@ -64,9 +64,15 @@ func (p *Presentation) Unmarshal(r io.ReadSeeker) error {
 
 	var curChunks []*chunk
 	var curSampleSizes []uint32
+	sampleCount := uint64(0)
 
-	_, err := amp4.ReadBoxStructure(r, func(h *amp4.ReadHandle) (any, error) {
-		err := imp4.CheckBox(h)
+	fileSize, err := r.Seek(0, io.SeekEnd)
+	if err != nil {
+		return err
+	}
+
+	_, err = amp4.ReadBoxStructure(r, func(h *amp4.ReadHandle) (any, error) {
+		err = imp4.CheckBox(h)
 		if err != nil {
 			return nil, err
 		}
@@ -211,6 +217,12 @@ func (p *Presentation) Unmarshal(r io.ReadSeeker) error {
 					return nil, fmt.Errorf("max samples reached")
 				}
 
+				// each sample needs an entry in stsz
+				sampleCount += uint64(entry.SampleCount)
+				if sampleCount > (uint64(fileSize) / 4) {
+					return nil, fmt.Errorf("invalid stts")
+				}
+
 				for range entry.SampleCount {
 					curTrack.Samples = append(curTrack.Samples, &Sample{
 						Duration: entry.SampleDelta,
-- 
2.43.0


From 38b3df49faae1e6d1717ba95d8a9ec7173a9ae94 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:56:06 +0000
Subject: [PATCH 47/67] fix: pmp4: do not allocate payloads that are not
 available in the file

---
 pkg/formats/pmp4/presentation.go | 11 ++++++++++-
 1 file changed, 10 insertions(+), 1 deletion(-)

diff --git a/pkg/formats/pmp4/presentation.go b/pkg/formats/pmp4/presentation.go
index 8685b86..eee3ee4 100644
--- a/pkg/formats/pmp4/presentation.go
+++ b/pkg/formats/pmp4/presentation.go
@@ -381,7 +381,16 @@ func (p *Presentation) Unmarshal(r io.ReadSeeker) error {
 					curTrack.Samples[i].PayloadSize = sampleSize
 
 					curTrack.Samples[i].GetPayload = func() ([]byte, error) {
-						_, err2 := r.Seek(int64(sampleOffset), io.SeekStart)
+						// check whether the payload is available before allocating it
+						end, err2 := r.Seek(0, io.SeekEnd)
+						if err2 != nil {
+							return nil, err2
+						}
+						if (int64(sampleOffset) + int64(sampleSize)) > end {
+							return nil, io.ErrUnexpectedEOF
+						}
+
+						_, err2 = r.Seek(int64(sampleOffset), io.SeekStart)
 						if err2 != nil {
 							return nil, err2
 						}
-- 
2.43.0


From c5d68a9bf6b531bc0e9a65c73dda393f5946a511 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:27:34 +0000
Subject: [PATCH 48/67] fix: mpeg4audio: do not keep invalid configurations in
 AudioMuxElement

an element with an invalid configuration, followed by an element that uses
the same configuration, caused a nil pointer dereference.
---
 pkg/codecs/mpeg4audio/audio_mux_element.go | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/pkg/codecs/mpeg4audio/audio_mux_element.go b/pkg/codecs/mpeg4audio/audio_mux_element.go
index acd8b1f..3b174da 100644
--- a/pkg/codecs/mpeg4audio/audio_mux_element.go
+++ b/pkg/codecs/mpeg4audio/audio_mux_element.go
@@ -36,11 +36,12 @@ func (e *AudioMuxElement) Unmarshal(buf []byte) error {
 		}
 
 		if !e.UseSameStreamMux {
-			e.StreamMuxConfig = &StreamMuxConfig{}
-			err = e.StreamMuxConfig.unmarshalBits(buf, &pos)
+			var conf StreamMuxConfig
+			err = conf.unmarshalBits(buf, &pos)
 			if err != nil {
 				return err
 			}
+			e.StreamMuxConfig = &conf
 		}
 	}
 
-- 
2.43.0


From b044c4c33ae41aca29ea38de3d0e9cb1e9a182dd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:27:34 +0000
Subject: [PATCH 49/67] fix: h264, h265: discard content of previous decodings

decoding into a value that was already used preserved data of previous
decodings.
---
 pkg/codecs/h264/sps.go | 3 +++
 pkg/codecs/h265/sps.go | 3 +++
 2 files changed, 6 insertions(+)

diff --git a/pkg/codecs/h264/sps.go b/pkg/codecs/h264/sps.go
index 4384947..e5a854d 100644
--- a/pkg/codecs/h264/sps.go
+++ b/pkg/codecs/h264/sps.go
@@ -453,6 +453,9 @@ type SPS struct {
 
 // Unmarshal decodes a SPS from bytes.
 func (s *SPS) Unmarshal(buf []byte) error {
+	// discard content of previous decodings
+	*s = SPS{}
+
 	if len(buf) < 1 {
 		return fmt.Errorf("not enough bits")
 	}
diff --git a/pkg/codecs/h265/sps.go b/pkg/codecs/h265/sps.go
index 44fda20..164592a 100644
--- a/pkg/codecs/h265/sps.go
+++ b/pkg/codecs/h265/sps.go
@@ -667,6 +667,9 @@ type SPS struct {
 
 // Unmarshal decodes a SPS from bytes.
 func (s *SPS) Unmarshal(buf []byte) error {
+	// discard content of previous decodings
+	*s = SPS{}
+
 	if len(buf) < 2 {
 		return fmt.Errorf("not enough bits")
 	}
-- 
2.43.0


From d186a0c1cc1702a9e181ce3d6dd2ff614141f415 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:27:34 +0000
Subject: [PATCH 50/67] fix: av1, vp9: discard content of previous decodings

decoding into a value that was already used preserved data of previous
decodings.
---
 pkg/codecs/av1/bitstream.go       | 3 +++
 pkg/codecs/av1/sequence_header.go | 3 +++
 pkg/codecs/vp9/header.go          | 3 +++
 3 files changed, 9 insertions(+)

diff --git a/pkg/codecs/av1/bitstream.go b/pkg/codecs/av1/bitstream.go
index dab3800..e1db0be 100644
--- a/pkg/codecs/av1/bitstream.go
+++ b/pkg/codecs/av1/bitstream.go
@@ -10,6 +10,9 @@ type Bitstream [][]byte
 
 // Unmarshal decodes a Bitstream.
 func (bs *Bitstream) Unmarshal(buf []byte) error {
+	// discard content of previous decodings
+	*bs = nil
+
 	for {
 		var h OBUHeader
 		err := h.Unmarshal(buf)
diff --git a/pkg/codecs/av1/sequence_header.go b/pkg/codecs/av1/sequence_header.go
index e859afb..5971320 100644
--- a/pkg/codecs/av1/sequence_header.go
+++ b/pkg/codecs/av1/sequence_header.go
@@ -269,6 +269,9 @@ type SequenceHeader struct {
 
 // Unmarshal decodes a SequenceHeader.
 func (h *SequenceHeader) Unmarshal(buf []byte) error {
+	// discard content of previous decodings
+	*h = SequenceHeader{}
+
 	var oh OBUHeader
 	err := oh.Unmarshal(buf)
 	if err != nil {
diff --git a/pkg/codecs/vp9/header.go b/pkg/codecs/vp9/header.go
index c483792..15b49af 100644
--- a/pkg/codecs/vp9/header.go
+++ b/pkg/codecs/vp9/header.go
@@ -108,6 +108,9 @@ type Header struct {
 
 // Unmarshal decodes a Header.
 func (h *Header) Unmarshal(buf []byte) error {
+	// discard content of previous decodings
+	*h = Header{}
+
 	pos := 0
 
 	err := bits.HasSpace(buf, pos, 4)
-- 
2.43.0


From 6dc0e29d9e8c0744a32adbe01c694a3968125878 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:27:34 +0000
Subject: [PATCH 51/67] fix: eac3, jpeg: discard content of previous decodings

decoding into a value that was already used preserved data of previous
decodings.
---
 pkg/codecs/eac3/sync_info.go                 | 3 +++
 pkg/codecs/jpeg/define_quantization_table.go | 3 +++
 2 files changed, 6 insertions(+)

diff --git a/pkg/codecs/eac3/sync_info.go b/pkg/codecs/eac3/sync_info.go
index 2a0cd5e..6f61f73 100644
--- a/pkg/codecs/eac3/sync_info.go
+++ b/pkg/codecs/eac3/sync_info.go
@@ -51,6 +51,9 @@ type SyncInfo struct {
 
 // Unmarshal decodes an E-AC-3 SyncInfo from a frame.
 func (s *SyncInfo) Unmarshal(frame []byte) error {
+	// discard content of previous decodings
+	*s = SyncInfo{}
+
 	if len(frame) < 8 {
 		return fmt.Errorf("not enough bytes")
 	}
diff --git a/pkg/codecs/jpeg/define_quantization_table.go b/pkg/codecs/jpeg/define_quantization_table.go
index 6234c8c..ca05d42 100644
--- a/pkg/codecs/jpeg/define_quantization_table.go
+++ b/pkg/codecs/jpeg/define_quantization_table.go
@@ -18,6 +18,9 @@ type DefineQuantizationTable struct {
 
 // Unmarshal decodes the marker.
 func (m *DefineQuantizationTable) Unmarshal(buf []byte) error {
+	// discard content of previous decodings
+	m.Tables = nil
+
 	for len(buf) != 0 {
 		id := buf[0] & 0x0F
 		precision := buf[0] >> 4
-- 
2.43.0


From b47ae98406279d8535a146697139a6d610df411d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:27:34 +0000
Subject: [PATCH 52/67] fix: mpeg4audio: discard content of previous decodings

decoding into a value that was already used preserved data of previous
decodings.
---
 pkg/codecs/mpeg4audio/adts.go                  | 3 +++
 pkg/codecs/mpeg4audio/audio_specific_config.go | 3 +++
 pkg/codecs/mpeg4audio/audio_sync_stream.go     | 3 +++
 pkg/codecs/mpeg4audio/stream_mux_config.go     | 3 +++
 4 files changed, 12 insertions(+)

diff --git a/pkg/codecs/mpeg4audio/adts.go b/pkg/codecs/mpeg4audio/adts.go
index 311fe38..fc4e6d9 100644
--- a/pkg/codecs/mpeg4audio/adts.go
+++ b/pkg/codecs/mpeg4audio/adts.go
@@ -27,6 +27,9 @@ type ADTSPackets []*ADTSPacket
 
 // Unmarshal decodes an ADTS stream into ADTS packets.
 func (ps *ADTSPackets) Unmarshal(buf []byte) error {
+	// discard content of previous decodings
+	*ps = nil
+
 	bl := len(buf)
 	pos := 0
 
diff --git a/pkg/codecs/mpeg4audio/audio_specific_config.go b/pkg/codecs/mpeg4audio/audio_specific_config.go
index 01548b7..e7e69eb 100644
--- a/pkg/codecs/mpeg4audio/audio_specific_config.go
+++ b/pkg/codecs/mpeg4audio/audio_specific_config.go
@@ -56,6 +56,9 @@ func (c *AudioSpecificConfig) UnmarshalFromPos(buf []byte, pos *int) error {
 
 // unmarshalBits decodes a AudioSpecificConfig.
 func (c *AudioSpecificConfig) unmarshalBits(buf []byte, pos *int) error {
+	// discard content of previous decodings
+	*c = AudioSpecificConfig{}
+
 	tmp, err := bits.ReadBits(buf, pos, 5)
 	if err != nil {
 		return err
diff --git a/pkg/codecs/mpeg4audio/audio_sync_stream.go b/pkg/codecs/mpeg4audio/audio_sync_stream.go
index 04362ce..263a9ba 100644
--- a/pkg/codecs/mpeg4audio/audio_sync_stream.go
+++ b/pkg/codecs/mpeg4audio/audio_sync_stream.go
@@ -10,6 +10,9 @@ type AudioSyncStream struct {
 
 // Unmarshal decodes an AudioSyncStream.
 func (s *AudioSyncStream) Unmarshal(buf []byte) error {
+	// discard content of previous decodings
+	s.AudioMuxElements = nil
+
 	for {
 		if len(buf) < 3 {
 			return fmt.Errorf("buffer is too short")
diff --git a/pkg/codecs/mpeg4audio/stream_mux_config.go b/pkg/codecs/mpeg4audio/stream_mux_config.go
index 6362170..05bd682 100644
--- a/pkg/codecs/mpeg4audio/stream_mux_config.go
+++ b/pkg/codecs/mpeg4audio/stream_mux_config.go
@@ -54,6 +54,9 @@ func (c *StreamMuxConfig) Unmarshal(buf []byte) error {
 
 // unmarshalBits decodes a StreamMuxConfig.
 func (c *StreamMuxConfig) unmarshalBits(buf []byte, pos *int) error {
+	// discard content of previous decodings
+	*c = StreamMuxConfig{}
+
 	err := bits.HasSpace(buf, *pos, 12)
 	if err != nil {
 		return err
-- 
2.43.0


From 228b18104e0d495ecc56ec80d9895ddeef01df20 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:27:34 +0000
Subject: [PATCH 53/67] fix: mpegts: discard content of previous decodings

decoding into a value that was already used preserved data of previous
decodings.
---
 pkg/formats/mpegts/substructs/metadata_descriptor.go   | 3 +++
 pkg/formats/mpegts/substructs/opus_audio_descriptor.go | 3 +++
 pkg/formats/mpegts/substructs/opus_control_header.go   | 3 +++
 3 files changed, 9 insertions(+)

diff --git a/pkg/formats/mpegts/substructs/metadata_descriptor.go b/pkg/formats/mpegts/substructs/metadata_descriptor.go
index 3deee9f..3eb9152 100644
--- a/pkg/formats/mpegts/substructs/metadata_descriptor.go
+++ b/pkg/formats/mpegts/substructs/metadata_descriptor.go
@@ -48,6 +48,9 @@ type MetadataDescriptor struct {
 
 // Unmarshal decodes a MetadataDescriptor.
 func (d *MetadataDescriptor) Unmarshal(buf []byte) error {
+	// discard content of previous decodings
+	*d = MetadataDescriptor{}
+
 	n := 0
 
 	if len(buf[n:]) < 2 {
diff --git a/pkg/formats/mpegts/substructs/opus_audio_descriptor.go b/pkg/formats/mpegts/substructs/opus_audio_descriptor.go
index 0e3e1c1..0bb814b 100644
--- a/pkg/formats/mpegts/substructs/opus_audio_descriptor.go
+++ b/pkg/formats/mpegts/substructs/opus_audio_descriptor.go
@@ -61,6 +61,9 @@ type OpusAudioDescriptor struct {
 
 // Unmarshal decodes an AudioDescriptor.
 func (d *OpusAudioDescriptor) Unmarshal(buf []byte) error {
+	// discard content of previous decodings
+	*d = OpusAudioDescriptor{}
+
 	if len(buf) < 1 {
 		return fmt.Errorf("buffer is too short")
 	}
diff --git a/pkg/formats/mpegts/substructs/opus_control_header.go b/pkg/formats/mpegts/substructs/opus_control_header.go
index 76d40ba..6bcd370 100644
--- a/pkg/formats/mpegts/substructs/opus_control_header.go
+++ b/pkg/formats/mpegts/substructs/opus_control_header.go
@@ -49,6 +49,9 @@ type OpusControlHeader struct {
 }
 
 func (h *OpusControlHeader) unmarshal(buf []byte) (int, error) {
+	// discard content of previous decodings
+	*h = OpusControlHeader{}
+
 	pos := 0
 
 	err := bits.HasSpace(buf, pos, 16)
-- 
2.43.0


From e82729b1f3888434f5b2b1bb67350da7c2db33bf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:27:34 +0000
Subject: [PATCH 54/67] fix: fmp4, pmp4: discard content of previous decodings

decoding into a value that was already used preserved data of previous
decodings.
---
 pkg/formats/fmp4/init.go         | 3 +++
 pkg/formats/fmp4/parts.go        | 3 +++
 pkg/formats/pmp4/presentation.go | 3 +++
 3 files changed, 9 insertions(+)

diff --git a/pkg/formats/fmp4/init.go b/pkg/formats/fmp4/init.go
index 225f730..5ffad3b 100644
--- a/pkg/formats/fmp4/init.go
+++ b/pkg/formats/fmp4/init.go
@@ -18,6 +18,9 @@ type Init struct {
 
 // Unmarshal decodes a fMP4 initialization block.
 func (i *Init) Unmarshal(r io.ReadSeeker) error {
+	// discard content of previous decodings
+	*i = Init{}
+
 	type readState int
 
 	const (
diff --git a/pkg/formats/fmp4/parts.go b/pkg/formats/fmp4/parts.go
index cfb28e9..889d7f5 100644
--- a/pkg/formats/fmp4/parts.go
+++ b/pkg/formats/fmp4/parts.go
@@ -19,6 +19,9 @@ type Parts []*Part
 
 // Unmarshal decodes one or more fMP4 parts.
 func (ps *Parts) Unmarshal(byts []byte) error {
+	// discard content of previous decodings
+	*ps = nil
+
 	type readState int
 
 	const (
diff --git a/pkg/formats/pmp4/presentation.go b/pkg/formats/pmp4/presentation.go
index eee3ee4..5363443 100644
--- a/pkg/formats/pmp4/presentation.go
+++ b/pkg/formats/pmp4/presentation.go
@@ -36,6 +36,9 @@ type Presentation struct {
 
 // Unmarshal decodes a Presentation.
 func (p *Presentation) Unmarshal(r io.ReadSeeker) error {
+	// discard content of previous decodings
+	*p = Presentation{}
+
 	type readState int
 
 	const (
-- 
2.43.0


From 16939900ae67629814a427477b5933c5fb6893a7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:37:20 +0000
Subject: [PATCH 55/67] fix: mp4: report write errors ignored by go-mp4

---
 internal/mp4/writer.go | 27 ++++++++++++++++++++++++++-
 1 file changed, 26 insertions(+), 1 deletion(-)

diff --git a/internal/mp4/writer.go b/internal/mp4/writer.go
index e6b4875..be12fd8 100644
--- a/internal/mp4/writer.go
+++ b/internal/mp4/writer.go
@@ -7,6 +7,31 @@ import (
 	amp4 "github.com/abema/go-mp4"
 )
 
+// amp4.Marshal ignores some of the errors of the underlying writer,
+// therefore any error is returned again by subsequent calls.
+type stickyErrorWriter struct {
+	w   io.WriteSeeker
+	err error
+}
+
+func (w *stickyErrorWriter) Write(p []byte) (int, error) {
+	if w.err != nil {
+		return 0, w.err
+	}
+	var n int
+	n, w.err = w.w.Write(p)
+	return n, w.err
+}
+
+func (w *stickyErrorWriter) Seek(offset int64, whence int) (int64, error) {
+	if w.err != nil {
+		return 0, w.err
+	}
+	var n int64
+	n, w.err = w.w.Seek(offset, whence)
+	return n, w.err
+}
+
 // Writer is a wrapper around abema/go-mp4.Writer.
 type Writer struct {
 	W io.WriteSeeker
@@ -16,7 +41,7 @@ type Writer struct {
 
 // Initialize initializes a Writer.
 func (w *Writer) Initialize() {
-	w.mw = amp4.NewWriter(w.W)
+	w.mw = amp4.NewWriter(&stickyErrorWriter{w: w.W})
 }
 
 // WriteBoxStart writes a box start.
-- 
2.43.0


From 0c3202484f078440e955b8d02aa9e10839c988df Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:37:59 +0000
Subject: [PATCH 56/67] fix: mp4: support readers that return data along with
 EOF

---
 internal/mp4/reader.go           | 25 +++++++++++++++++++++++++
 pkg/formats/fmp4/init.go         |  2 +-
 pkg/formats/pmp4/presentation.go |  2 +-
 3 files changed, 27 insertions(+), 2 deletions(-)
 create mode 100644 internal/mp4/reader.go

diff --git a/internal/mp4/reader.go b/internal/mp4/reader.go
new file mode 100644
index 0000000..6f1779f
--- /dev/null
+++ b/internal/mp4/reader.go
@@ -0,0 +1,25 @@
+package mp4
+
+import (
+	"io"
+)
+
+// Reader is a wrapper around io.ReadSeeker.
+// It never returns data along with io.EOF, since this is not supported by abema/go-mp4.
+type Reader struct {
+	R io.ReadSeeker
+}
+
+// Read implements io.Reader.
+func (r *Reader) Read(p []byte) (int, error) {
+	n, err := r.R.Read(p)
+	if n > 0 && err == io.EOF { //nolint:errorlint
+		err = nil
+	}
+	return n, err
+}
+
+// Seek implements io.Seeker.
+func (r *Reader) Seek(offset int64, whence int) (int64, error) {
+	return r.R.Seek(offset, whence)
+}
diff --git a/pkg/formats/fmp4/init.go b/pkg/formats/fmp4/init.go
index 5ffad3b..78073a5 100644
--- a/pkg/formats/fmp4/init.go
+++ b/pkg/formats/fmp4/init.go
@@ -39,7 +39,7 @@ func (i *Init) Unmarshal(r io.ReadSeeker) error {
 	var curTrack *InitTrack
 	var codecBoxesReader *imp4.CodecBoxesReader
 
-	_, err := amp4.ReadBoxStructure(r, func(h *amp4.ReadHandle) (any, error) {
+	_, err := amp4.ReadBoxStructure(&imp4.Reader{R: r}, func(h *amp4.ReadHandle) (any, error) {
 		err := imp4.CheckBox(h)
 		if err != nil {
 			return nil, err
diff --git a/pkg/formats/pmp4/presentation.go b/pkg/formats/pmp4/presentation.go
index 5363443..32ef1e7 100644
--- a/pkg/formats/pmp4/presentation.go
+++ b/pkg/formats/pmp4/presentation.go
@@ -74,7 +74,7 @@ func (p *Presentation) Unmarshal(r io.ReadSeeker) error {
 		return err
 	}
 
-	_, err = amp4.ReadBoxStructure(r, func(h *amp4.ReadHandle) (any, error) {
+	_, err = amp4.ReadBoxStructure(&imp4.Reader{R: r}, func(h *amp4.ReadHandle) (any, error) {
 		err = imp4.CheckBox(h)
 		if err != nil {
 			return nil, err
-- 
2.43.0


From 66c68e0bbb0956321e7d1c49cf6031691de491f9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:47:17 +0000
Subject: [PATCH 57/67] fix: mpegts: prevent infinite loop when the underlying
 reader returns an error that wraps io.EOF

---
 pkg/formats/mpegts/robust_demuxer.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/pkg/formats/mpegts/robust_demuxer.go b/pkg/formats/mpegts/robust_demuxer.go
index a6b705e..9e2a4bc 100644
--- a/pkg/formats/mpegts/robust_demuxer.go
+++ b/pkg/formats/mpegts/robust_demuxer.go
@@ -51,8 +51,9 @@ func (r *errorWrapper) Read(p []byte) (int, error) {
 		// keep io.EOF and io.ErrUnexpectedEOF untouched
 		// since they are needed by astits to handle the last packet of a stream.
 		// they are transformed into astits.ErrNoMorePackets.
+		// errors that wrap them are not recognized by astits and are therefore fatal.
 		// https://github.com/asticode/go-astits/blob/7c2bf6b71173d24632371faa01f28a9122db6382/packet_buffer.go#L131
-		if !errors.Is(err, io.EOF) && !errors.Is(err, io.ErrUnexpectedEOF) {
+		if err != io.EOF && err != io.ErrUnexpectedEOF { //nolint:errorlint
 			err = &wrappedError{w: err}
 		}
 	}
-- 
2.43.0


From 5e0284b6e47a6cbdad589ec39429ef846564fff2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:47:47 +0000
Subject: [PATCH 58/67] fix: mp4: return write errors ignored by go-mp4 as they
 are

---
 internal/mp4/writer.go | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/internal/mp4/writer.go b/internal/mp4/writer.go
index be12fd8..eddac8e 100644
--- a/internal/mp4/writer.go
+++ b/internal/mp4/writer.go
@@ -36,12 +36,14 @@ func (w *stickyErrorWriter) Seek(offset int64, whence int) (int64, error) {
 type Writer struct {
 	W io.WriteSeeker
 
+	sw *stickyErrorWriter
 	mw *amp4.Writer
 }
 
 // Initialize initializes a Writer.
 func (w *Writer) Initialize() {
-	w.mw = amp4.NewWriter(&stickyErrorWriter{w: w.W})
+	w.sw = &stickyErrorWriter{w: w.W}
+	w.mw = amp4.NewWriter(w.sw)
 }
 
 // WriteBoxStart writes a box start.
@@ -56,6 +58,9 @@ func (w *Writer) WriteBoxStart(box amp4.IImmutableBox) (int, error) {
 	}
 
 	_, err = amp4.Marshal(w.mw, box, amp4.Context{})
+	if w.sw.err != nil {
+		return 0, w.sw.err
+	}
 	if err != nil {
 		return 0, err
 	}
-- 
2.43.0


From 782f4550b1b48427642485dfcf9ae4b194ba9233 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:49:36 +0000
Subject: [PATCH 59/67] fix: mpegts: report write errors ignored by astits

---
 pkg/formats/mpegts/writer.go | 49 ++++++++++++++++++++++++++++++------
 1 file changed, 41 insertions(+), 8 deletions(-)

diff --git a/pkg/formats/mpegts/writer.go b/pkg/formats/mpegts/writer.go
index 1ff2217..9528183 100644
--- a/pkg/formats/mpegts/writer.go
+++ b/pkg/formats/mpegts/writer.go
@@ -50,12 +50,29 @@ func mpeg1AudioMarshalSize(frames [][]byte) int {
 	return n
 }
 
+// astits.Muxer ignores some of the errors of the underlying writer.
+// This saves the first of them.
+type errorSaver struct {
+	w   io.Writer
+	err error
+}
+
+func (w *errorSaver) Write(p []byte) (int, error) {
+	if w.err != nil {
+		return 0, w.err
+	}
+	var n int
+	n, w.err = w.w.Write(p)
+	return n, w.err
+}
+
 // Writer is a MPEG-TS writer.
 type Writer struct {
 	W      io.Writer
 	Tracks []*Track
 
 	nextPID      uint16
+	errorSaver   *errorSaver
 	mux          *astits.Muxer
 	pcrCounter   int
 	leadingTrack *Track
@@ -65,9 +82,11 @@ type Writer struct {
 func (w *Writer) Initialize() error {
 	w.nextPID = 256
 
+	w.errorSaver = &errorSaver{w: w.W}
+
 	w.mux = astits.NewMuxer(
 		context.Background(),
-		w.W)
+		w.errorSaver)
 
 	for _, track := range w.Tracks {
 		if track.PID == 0 {
@@ -102,7 +121,24 @@ func (w *Writer) WriteTables() (int, error) {
 	if w.leadingTrack == nil && len(w.Tracks) > 0 {
 		w.mux.SetPCRPID(w.Tracks[0].PID)
 	}
-	return w.mux.WriteTables()
+
+	w.errorSaver.err = nil
+
+	n, err := w.mux.WriteTables()
+	if w.errorSaver.err != nil {
+		return n, w.errorSaver.err
+	}
+	return n, err
+}
+
+func (w *Writer) writePES(d *astits.MuxerData) error {
+	w.errorSaver.err = nil
+
+	_, err := w.mux.WriteData(d)
+	if w.errorSaver.err != nil {
+		return w.errorSaver.err
+	}
+	return err
 }
 
 // NewWriter allocates a Writer.
@@ -382,7 +418,7 @@ func (w *Writer) writeVideo(
 		oh.PTS = &astits.ClockReference{Base: pts}
 	}
 
-	_, err := w.mux.WriteData(&astits.MuxerData{
+	return w.writePES(&astits.MuxerData{
 		PID:             track.PID,
 		AdaptationField: af,
 		PES: &astits.PESData{
@@ -393,7 +429,6 @@ func (w *Writer) writeVideo(
 			Data: data,
 		},
 	})
-	return err
 }
 
 func (w *Writer) writeAudio(track *Track, pts int64, data []byte) error {
@@ -415,7 +450,7 @@ func (w *Writer) writeAudio(track *Track, pts int64, data []byte) error {
 		w.pcrCounter--
 	}
 
-	_, err := w.mux.WriteData(&astits.MuxerData{
+	return w.writePES(&astits.MuxerData{
 		PID:             track.PID,
 		AdaptationField: af,
 		PES: &astits.PESData{
@@ -430,7 +465,6 @@ func (w *Writer) writeAudio(track *Track, pts int64, data []byte) error {
 			Data: data,
 		},
 	})
-	return err
 }
 
 func (w *Writer) writeData(track *Track, hasPTS bool, pts int64, streamID uint8, data []byte) error {
@@ -466,7 +500,7 @@ func (w *Writer) writeData(track *Track, hasPTS bool, pts int64, streamID uint8,
 		OptionalHeader: oh,
 	}
 
-	_, err := w.mux.WriteData(&astits.MuxerData{
+	return w.writePES(&astits.MuxerData{
 		PID:             track.PID,
 		AdaptationField: af,
 		PES: &astits.PESData{
@@ -474,5 +508,4 @@ func (w *Writer) writeData(track *Track, hasPTS bool, pts int64, streamID uint8,
 			Data:   data,
 		},
 	})
-	return err
 }
-- 
2.43.0


From c4f8d7fc6f2ae1c3bc7bbaafb8df77b36a9c0e12 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:52:47 +0000
Subject: [PATCH 60/67] fix: pmp4: prevent Presentation.Marshal from writing
 into samples

---
 pkg/formats/pmp4/presentation.go | 23 +++++++++++++++++++++++
 1 file changed, 23 insertions(+)

diff --git a/pkg/formats/pmp4/presentation.go b/pkg/formats/pmp4/presentation.go
index 32ef1e7..f28e81c 100644
--- a/pkg/formats/pmp4/presentation.go
+++ b/pkg/formats/pmp4/presentation.go
@@ -434,6 +434,27 @@ func (p *Presentation) Unmarshal(r io.ReadSeeker) error {
 	return nil
 }
 
+// cloneTracks clones tracks and samples, in order to prevent
+// Marshal from writing offsets into the samples of the user.
+func cloneTracks(tracks []*Track) []*Track {
+	ret := make([]*Track, len(tracks))
+
+	for i, track := range tracks {
+		clone := *track
+		samples := make([]Sample, len(track.Samples))
+		clone.Samples = make([]*Sample, len(track.Samples))
+
+		for j, sample := range track.Samples {
+			samples[j] = *sample
+			clone.Samples[j] = &samples[j]
+		}
+
+		ret[i] = &clone
+	}
+
+	return ret
+}
+
 // Marshal encodes a Presentation.
 func (p Presentation) Marshal(w io.Writer) error {
 	/*
@@ -446,6 +467,8 @@ func (p Presentation) Marshal(w io.Writer) error {
 		|mdat|
 	*/
 
+	p.Tracks = cloneTracks(p.Tracks)
+
 	dataSize, sortedSamples, err := p.sortSamples()
 	if err != nil {
 		return err
-- 
2.43.0


From bf932f6f65871f9dad4ea57300cda688131339df Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:25:01 +0000
Subject: [PATCH 61/67] fix: jpeg: write the precision of quantization tables

---
 pkg/codecs/jpeg/define_quantization_table.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pkg/codecs/jpeg/define_quantization_table.go b/pkg/codecs/jpeg/define_quantization_table.go
index ca05d42..b7a027f 100644
--- a/pkg/codecs/jpeg/define_quantization_table.go
+++ b/pkg/codecs/jpeg/define_quantization_table.go
@@ -56,7 +56,7 @@ func (m DefineQuantizationTable) Marshal(buf []byte) []byte {
 	buf = append(buf, []byte{byte(s >> 8), byte(s)}...)
 
 	for _, t := range m.Tables {
-		buf = append(buf, []byte{(t.ID)}...)
+		buf = append(buf, []byte{(t.Precision << 4) | (t.ID & 0x0F)}...)
 		buf = append(buf, t.Data...)
 	}
 
-- 
2.43.0


From 028b65943043c85e576c70ec2546fccefd51bc55 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:51:24 +0000
Subject: [PATCH 62/67] fix: h265: use the reorder depth of the highest
 temporal sub-layer in DTSExtractor

---
 pkg/codecs/h265/dts_extractor.go | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/pkg/codecs/h265/dts_extractor.go b/pkg/codecs/h265/dts_extractor.go
index 845fe5c..fa827fe 100644
--- a/pkg/codecs/h265/dts_extractor.go
+++ b/pkg/codecs/h265/dts_extractor.go
@@ -182,8 +182,9 @@ outer:
 
 				// reset state
 				d.randomReceived = false
-				if len(d.spsp.MaxNumReorderPics) == 1 {
-					d.reorderedFrames = int(d.spsp.MaxNumReorderPics[0])
+				if l := len(d.spsp.MaxNumReorderPics); l != 0 {
+					// value of the highest temporal sub-layer, that covers the entire stream
+					d.reorderedFrames = int(d.spsp.MaxNumReorderPics[l-1])
 				} else {
 					d.reorderedFrames = 0
 				}
-- 
2.43.0


From 6bad0866735211282b7dbdcb12b2f7bf53f24062 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:51:24 +0000
Subject: [PATCH 63/67] fix: mpegts: do not discard data returned along with an
 error in BufferedReader

---
 pkg/formats/mpegts/buffered_reader.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pkg/formats/mpegts/buffered_reader.go b/pkg/formats/mpegts/buffered_reader.go
index 87f9613..06ab245 100644
--- a/pkg/formats/mpegts/buffered_reader.go
+++ b/pkg/formats/mpegts/buffered_reader.go
@@ -33,7 +33,7 @@ func (r *BufferedReader) Read(p []byte) (int, error) {
 	}
 
 	mn, err := r.r.Read(r.midbuf[:cap(r.midbuf)])
-	if err != nil {
+	if mn == 0 && err != nil {
 		return 0, err
 	}
 
-- 
2.43.0


From d9a52d4c872526e1fec690b2ac118570f0228765 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:42:20 +0000
Subject: [PATCH 64/67] fix: mpegts: do not assign PIDs that are already used
 by other tracks in Writer

---
 pkg/formats/mpegts/writer.go | 13 +++++++++++++
 1 file changed, 13 insertions(+)

diff --git a/pkg/formats/mpegts/writer.go b/pkg/formats/mpegts/writer.go
index 9528183..fbe4d7d 100644
--- a/pkg/formats/mpegts/writer.go
+++ b/pkg/formats/mpegts/writer.go
@@ -88,8 +88,21 @@ func (w *Writer) Initialize() error {
 		context.Background(),
 		w.errorSaver)
 
+	usedPIDs := make(map[uint16]struct{})
+	for _, track := range w.Tracks {
+		usedPIDs[track.PID] = struct{}{}
+	}
+
 	for _, track := range w.Tracks {
 		if track.PID == 0 {
+			// skip PIDs that are explicitly assigned to other tracks
+			for {
+				if _, ok := usedPIDs[w.nextPID]; !ok {
+					break
+				}
+				w.nextPID++
+			}
+
 			track.PID = w.nextPID
 			w.nextPID++
 		}
-- 
2.43.0


From cfa0df3ec73610bea7d5deba08f98a6a17bb24ae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:42:21 +0000
Subject: [PATCH 65/67] fix: mpegts: refuse tracks with PIDs that are used by
 other contents in Writer

---
 pkg/formats/mpegts/writer.go | 12 ++++++++++++
 1 file changed, 12 insertions(+)

diff --git a/pkg/formats/mpegts/writer.go b/pkg/formats/mpegts/writer.go
index fbe4d7d..c411214 100644
--- a/pkg/formats/mpegts/writer.go
+++ b/pkg/formats/mpegts/writer.go
@@ -26,6 +26,15 @@ const (
 	// PCR is needed to read H265 tracks with VLC+VDPAU hardware encoder
 	// (and is probably needed by other combinations too)
 	dtsPCRDiff = (90000 / 10)
+
+	// PIDs under this one are used by PAT and other tables
+	minPID = 0x20
+
+	// PID of PMT, chosen by astits.Muxer
+	pmtPID = 0x1000
+
+	// PID of null packets
+	nullPID = 0x1FFF
 )
 
 func opusMarshalSize(packets [][]byte) int {
@@ -90,6 +99,9 @@ func (w *Writer) Initialize() error {
 
 	usedPIDs := make(map[uint16]struct{})
 	for _, track := range w.Tracks {
+		if track.PID != 0 && (track.PID < minPID || track.PID == pmtPID || track.PID >= nullPID) {
+			return fmt.Errorf("PID %d is not available", track.PID)
+		}
 		usedPIDs[track.PID] = struct{}{}
 	}
 
-- 
2.43.0


From 9e954bb3de305fef68f210d84dcd354339e03578 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:29:09 +0000
Subject: [PATCH 66/67] fix: mp4: refuse codec parameters that do not fit into
 their boxes

---
 internal/mp4/codec_info.go | 36 ++++++++++++++++++++++++++++++++++++
 1 file changed, 36 insertions(+)

diff --git a/internal/mp4/codec_info.go b/internal/mp4/codec_info.go
index ec821c4..25fb11c 100644
--- a/internal/mp4/codec_info.go
+++ b/internal/mp4/codec_info.go
@@ -19,6 +19,35 @@ type CodecInfo struct {
 	H264SPS           *h264.SPS
 }
 
+// areParametersRepresentable checks whether parameters fit into the fields of their boxes.
+func areParametersRepresentable(codec codecs.Codec) bool {
+	switch codec := codec.(type) {
+	case *codecs.VP9:
+		return codec.BitDepth < (1<<4) && codec.ChromaSubsampling < (1<<3)
+
+	case *codecs.Opus:
+		return codec.ChannelCount >= 0 && codec.ChannelCount <= math.MaxUint8
+
+	case *codecs.MPEG1Audio:
+		return codec.ChannelCount >= 0 && codec.ChannelCount <= math.MaxUint16
+
+	case *codecs.AC3:
+		return codec.ChannelCount >= 0 && codec.ChannelCount <= math.MaxUint16 &&
+			codec.Bsid < (1<<5) && codec.Bsmod < (1<<3) && codec.Acmod < (1<<3) && codec.BitRateCode < (1<<5)
+
+	case *codecs.EAC3:
+		return codec.ChannelCount >= 0 && codec.ChannelCount <= math.MaxUint16 &&
+			codec.DataRate < (1<<13) && codec.Bsmod < (1<<3) && codec.Acmod < (1<<3) &&
+			codec.NumDepSub < (1<<4) && codec.ChanLoc < (1<<9)
+
+	case *codecs.LPCM:
+		return codec.ChannelCount >= 0 && codec.ChannelCount <= math.MaxUint16 &&
+			codec.BitDepth >= 0 && codec.BitDepth <= math.MaxUint8
+	}
+
+	return true
+}
+
 // Fill fills CodecInfo from a codecs.Codec.
 func (ci *CodecInfo) Fill(codec codecs.Codec) error {
 	err := ci.fill(codec)
@@ -54,6 +83,10 @@ func (ci *CodecInfo) fill(codec codecs.Codec) error {
 
 		ci.Width = codec.Width
 		ci.Height = codec.Height
+
+		if !areParametersRepresentable(codec) {
+			return fmt.Errorf("%T parameters cannot be represented", codec)
+		}
 		return nil
 
 	case *codecs.H265:
@@ -126,6 +159,9 @@ func (ci *CodecInfo) fill(codec codecs.Codec) error {
 		return nil
 
 	case *codecs.Opus, *codecs.MPEG4Audio, *codecs.MPEG1Audio, *codecs.AC3, *codecs.EAC3, *codecs.LPCM, *codecs.FLAC:
+		if !areParametersRepresentable(codec) {
+			return fmt.Errorf("%T parameters cannot be represented", codec)
+		}
 		return nil
 
 	default:
-- 
2.43.0


From ae86b716b57246c2f7b924bafc03b5f5d4051f7f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:31:18 +0000
Subject: [PATCH 67/67] fix: mp4: refuse track identifiers that cannot be
 represented

---
 internal/mp4/codec_boxes.go    | 4 ++++
 pkg/formats/fmp4/part_track.go | 7 +++++++
 2 files changed, 11 insertions(+)

diff --git a/internal/mp4/codec_boxes.go b/internal/mp4/codec_boxes.go
index e17cf34..e4fe56d 100644
--- a/internal/mp4/codec_boxes.go
+++ b/internal/mp4/codec_boxes.go
@@ -666,6 +666,10 @@ func WriteCodecBoxes(w *Writer, codec codecs.Codec, trackID int, info *CodecInfo
 		|    |pcmC|
 	*/
 
+	if uint64(trackID) > math.MaxUint32 {
+		return fmt.Errorf("invalid track ID: %d", trackID)
+	}
+
 	switch codec := codec.(type) {
 	case *codecs.AV1:
 		_, err := w.WriteBoxStart(&amp4.VisualSampleEntry{ // <av01>
diff --git a/pkg/formats/fmp4/part_track.go b/pkg/formats/fmp4/part_track.go
index e7629d4..83041e0 100644
--- a/pkg/formats/fmp4/part_track.go
+++ b/pkg/formats/fmp4/part_track.go
@@ -1,6 +1,9 @@
 package fmp4
 
 import (
+	"fmt"
+	"math"
+
 	amp4 "github.com/abema/go-mp4"
 
 	imp4 "github.com/bluenviron/mediacommon/v2/internal/mp4"
@@ -26,6 +29,10 @@ func (pt PartTrack) marshal(w *imp4.Writer) (*amp4.Trun, int, error) {
 		return nil, 0, err
 	}
 
+	if uint64(pt.ID) > math.MaxUint32 {
+		return nil, 0, fmt.Errorf("invalid track ID: %d", pt.ID)
+	}
+
 	flags := 0
 
 	_, err = w.WriteBox(&amp4.Tfhd{ // <tfhd/>
-- 
2.43.0

