#!/usr/bin/env python3
"""Source of properties.jsonl and MANIFEST.json. Usage: tools/gen.py (run in /verif)."""
import json, os, subprocess, sys
os.chdir(os.path.join(os.path.dirname(os.path.abspath(__file__)), ".."))

P = []
def prop(id, title, statement, over, qtext, why, files, mech, technique, note, level="exploration", state=None, observe=None, na=None):
    P.append(dict(id=id, title=title, statement=statement, over=over, qtext=qtext, why=why, files=files,
                  mech=mech, technique=technique, note=note, level=level, state=state, observe=observe, na=na))

PBT = "property-based testing"

prop("C01", "Codec decoders never crash, hang or over-allocate on arbitrary bytes",
 "Given any byte string, every codec-level decoder of the library (H.264, H.265, AV1, VP9, AC-3, E-AC-3, MPEG-1 audio, MPEG-4 audio and video, Opus, FLAC, G.711, JPEG, and the stateful DTS extractors) returns a value or an error: it never panics, never fails to terminate and never allocates memory out of proportion to the input. "
 "Every quantity derived from an accepted value (dimensions, frame rate, frame length, channel count, durations, re-encoding) can be computed without panicking.",
 ["inputs", "histories"], "all byte strings: random, structured (valid headers with boundary field values) and mutations of valid data; sequences of access units for the stateful extractors",
 "The tests and their fuzz seeds cover a few dozen inputs per decoder; a crash needs one particular combination of field values and truncation point, and the fuzz targets only run as unit tests on their seeds.",
 ["pkg/codecs/h264/sps.go", "pkg/codecs/h265/sps.go", "pkg/codecs/av1/sequence_header.go", "pkg/codecs/mpeg4audio/stream_mux_config.go", "pkg/codecs/mpeg4video/is_valid_config.go", "pkg/codecs/h264/dts_extractor.go", "pkg/codecs/h265/dts_extractor.go", "pkg/bits/read.go"],
 [("length checks before every read", "pkg/bits/read.go"), ("count limits (NALUs, OBUs, ref frames, reordered frames)", "pkg/codecs/*")],
 PBT + " and coverage-guided fuzzing with crash, CPU and heap oracles",
 "Random, structured and mutated inputs; oracle: no panic, CPU below 25 s per case, heap below 3 GB and allocation below a bound linear in the input. Does not prove absence.")

prop("C02", "MP4 readers never crash, hang or over-allocate on arbitrary files",
 "Given any seekable byte source, reading a fragmented-MP4 initialization segment, a sequence of fragments, or a progressive MP4 file either fails with an error or yields tracks and samples: it never panics, never fails to terminate and never allocates memory out of proportion to the input beyond the documented sample limits. "
 "Everything that a successful read yields is usable: the payload of every sample can be requested (obtaining exactly the announced number of bytes, or an error), its codec data can be extracted, and the value can be written again without panicking.",
 ["inputs"], "all byte strings, in particular valid files with mutated bytes, box sizes, counts, versions, missing, duplicated, reordered or truncated boxes",
 "Tests read a handful of well-formed files; malformed files reachable from the network are a combinatorial space of box trees and counts.",
 ["pkg/formats/fmp4/init.go", "pkg/formats/fmp4/parts.go", "pkg/formats/pmp4/presentation.go", "internal/mp4/codec_boxes.go"],
 [("reader state machines over the box tree", "pkg/formats/fmp4/init.go, pkg/formats/fmp4/parts.go, pkg/formats/pmp4/presentation.go"), ("sample and chunk limits", "pkg/formats/pmp4/presentation.go:maxSamples, pkg/formats/fmp4/parts.go:maxSamplesPerTrun")],
 PBT + " and coverage-guided fuzzing over structured box-tree mutations",
 "Structure-aware mutations of generated valid files; oracle: no panic, bounded CPU and heap, usability of everything yielded. Crashes inside the third-party box library count too.")

prop("C03", "The MPEG-TS reader survives arbitrary streams",
 "Given any byte stream, delivered in reads of any sizes, the MPEG-TS reader either fails to open with an error or opens, delivers data through the callbacks and finally reports the end of the input: it never panics, never loops without consuming input and never accumulates memory out of proportion to the input. "
 "Undecodable data is reported through the decode error callback and does not end reading.",
 ["inputs", "histories"], "all byte strings (random, and valid multi-track streams with corrupted, dropped, duplicated, reordered, truncated packets, tables, descriptors and payloads) and all splittings into reads",
 "Tests feed a few well-formed streams; damage patterns and their position inside packets, tables, descriptors and codec payloads are unbounded.",
 ["pkg/formats/mpegts/reader.go", "pkg/formats/mpegts/robust_demuxer.go", "pkg/formats/mpegts/pre_demuxer.go", "pkg/formats/mpegts/track.go"],
 [("resynchronization on the sync byte", "pkg/formats/mpegts/pre_demuxer.go"), ("non fatal demuxer errors routed to the callback", "pkg/formats/mpegts/robust_demuxer.go")],
 PBT + " and coverage-guided fuzzing over packet-level mutations",
 "Mutations of generated streams; oracle: no panic, bounded CPU/heap, the underlying reader is consumed to its end, end of input is reported.")

prop("C04", "Bit-level reads and writes agree with the bit string",
 "Reading n bits (0 to 64) at any bit position returns exactly the big-endian integer made of those bits and advances by n, or fails without moving when fewer bits remain; writing values bit by bit into a zeroed buffer produces exactly their concatenation. "
 "Exp-Golomb reads invert the standard's encoding over the whole 32-bit range, unsigned and signed, and reject truncated codes and codes that do not fit.",
 ["inputs"], "all buffers, bit positions, widths 0 to 64, sequences of operations and code numbers up to 2^32-2",
 "Tests check a dozen fixed reads at small widths and small code numbers; off-by-one errors show only at particular alignments, widths and magnitudes.",
 ["pkg/bits/read.go", "pkg/bits/write.go"],
 [("partial first byte, whole bytes, partial last byte", "pkg/bits/read.go:ReadBitsUnsafe, pkg/bits/write.go:WriteBitsUnsafe")],
 PBT + " against a bit-by-bit reference", "Reference: independent bit-string reader/writer. Sampling, boundary-biased.")

prop("C05", "Annex-B byte streams decode to exactly their NAL units",
 "Any access unit made of non-empty NAL units (escaped as the standard mandates), joined by any mix of 3-byte and 4-byte start codes, possibly with empty units in between, decodes to exactly those NAL units in order; encoding an access unit produces a byte stream that decodes back to it. "
 "Input without an initial start code, without any NAL unit, with more NAL units than the documented maximum or a larger total NAL unit size than the documented maximum is rejected, while input at the limits is accepted.",
 ["inputs"], "all access units and start code choices, all byte strings, sizes and counts around the limits",
 "Tests decode a few fixed streams; start codes interact with zero bytes at the edges of units and with buffer ends in ways that only dense zero patterns reach.",
 ["pkg/codecs/h264/annexb.go"],
 [("search of start codes and limits", "pkg/codecs/h264/annexb.go:Unmarshal"), ("4-byte start code per unit", "pkg/codecs/h264/annexb.go:Marshal")],
 PBT + " (round trip and reference splitter)", "Oracle: the generated units, and a reference splitter on arbitrary bytes (modulo trailing zeros of units).")

prop("C06", "Length-prefixed (AVCC) access units round-trip and reject malformed input",
 "Encoding any access unit in the length-prefixed format and decoding it yields the same NAL units. "
 "Decoding any byte string yields exactly the non-empty units that the 4-byte length prefixes describe, and fails when a prefix or unit is truncated, when there is no unit, or when the documented count or size maximums are exceeded.",
 ["inputs"], "all access units, all byte strings, sizes and counts around the limits",
 "Tests decode a few fixed buffers; wrong lengths, zero lengths, truncation points and limits combine freely.",
 ["pkg/codecs/h264/avcc.go"], [("validation pass, then extraction pass", "pkg/codecs/h264/avcc.go:Unmarshal")],
 PBT + " (round trip and differential against a reference parser)", "Complete differential oracle (accept/reject and content).")

prop("C07", "Emulation-prevention removal inverts the standard's escaping",
 "For any payload, removing the emulation prevention bytes from its escaped form, as produced by the H.264/H.265 rule, returns the payload; on arbitrary bytes exactly the 0x03 bytes that follow two zero bytes are removed. The input is left untouched.",
 ["inputs"], "all byte strings; exhaustive over {0,1,2,3,4} up to length 8 (quick) and 10 (thorough)",
 "Tests use three fixed strings; back-to-back and truncated escapes matter.",
 ["pkg/codecs/h264/emulation_prevention.go"], [("two passes with synchronized skipping", "pkg/codecs/h264/emulation_prevention.go")],
 PBT + " plus exhaustive enumeration of short strings", "Differential oracle, exhaustive for short strings over the alphabet that matters.")

prop("C08", "H.264 sequence parameter sets are decoded as the standard defines",
 "Any sequence parameter set written according to the standard, with any profile, chroma format, scaling matrices, picture order count type, cropping, and usability information, and any emulation prevention bytes, is decoded to exactly the encoded field values. "
 "The derived picture width and height equal the standard's cropping formula, and the frame rate equals time_scale / (2 * num_units_in_tick) when timing is present and zero otherwise.",
 ["inputs"], "all syntactically valid parameter sets with field values up to the limits of their codes",
 "Tests contain a dozen captured parameter sets; conditional syntax (high profiles, scaling list fallbacks, POC type 1 cycles, HRD, bitstream restrictions) has thousands of combinations.",
 ["pkg/codecs/h264/sps.go"], [("conditional syntax parsing", "pkg/codecs/h264/sps.go:Unmarshal"), ("Width/Height/FPS", "pkg/codecs/h264/sps.go")],
 PBT + " with an independent bitstream writer", "Oracle: the values given to an independent SPS writer and the standard's formulas.")

prop("C09", "H.265 parameter sets are decoded as the standard defines",
 "Any sequence parameter set written according to the standard, with any profile/tier/level data, sub-layers, conformance window, scaling lists, short-term reference picture sets (explicit or predicted), long-term references and usability information, and any picture parameter set header, is decoded to exactly the encoded values, predicted reference picture sets included. "
 "The derived width, height and frame rate equal the standard's formulas.",
 ["inputs"], "all syntactically valid parameter sets within documented limits",
 "Tests contain a dozen captured parameter sets; inter-predicted reference picture sets and sub-layer syntax are combinatorial.",
 ["pkg/codecs/h265/sps.go", "pkg/codecs/h265/pps.go"], [("conditional syntax parsing", "pkg/codecs/h265/sps.go:Unmarshal"), ("reference picture set prediction", "pkg/codecs/h265/sps.go:SPS_ShortTermRefPicSet"), ("PPS header", "pkg/codecs/h265/pps.go")],
 PBT + " with an independent bitstream writer and reference RPS derivation", "Oracle: independent writer, RPS derivation written from the standard.")

prop("C10", "H.264 decoding timestamps are consistent for every conforming stream",
 "For any stream of progressive pictures produced by an encoder with constant frame rate and a bounded reorder depth, the decoding timestamps extracted from presentation timestamps never decrease and, once the reorder depth has been observed, never exceed the presentation timestamp; extraction never fails on such streams once a parameter set and a random access point have been received. "
 "In steady state decoding timestamps advance by the frame duration, and streams without reordering get equal decoding and presentation timestamps. An access unit without pictures (delimiter, supplemental information) in the middle of a stream does not fail and disturbs none of this.",
 ["histories", "inputs"], "all GOP structures (no reordering, B-frame runs, pyramids), POC widths, POC steps 1, 2, parameter set repetitions and changes, IDR intervals, timestamp origins and durations",
 "Tests replay a dozen captured streams; the extractor is a state machine over the history of picture order counts, including wrap-around and re-initialization.",
 ["pkg/codecs/h264/dts_extractor.go"], [("expected POC tracking, reorder depth growth and pause", "pkg/codecs/h264/dts_extractor.go:extractInner"), ("monotonicity checks", "pkg/codecs/h264/dts_extractor.go:Extract")],
 "stateful model-based " + PBT + " with an encoder model", "Oracle: an encoder model that knows decode order; invariants over the whole history plus exact steady-state values.")

prop("C11", "H.265 decoding timestamps are consistent for every conforming stream",
 "For any stream of access units (IDR, CRA, trailing and RASL pictures) produced by an encoder with constant frame rate whose parameter sets declare its reorder depth, the decoding timestamps extracted from presentation timestamps never decrease and never exceed the presentation timestamp, and extraction never fails once parameter sets and a random access point have been received. "
 "In steady state decoding timestamps advance by the frame duration, and streams that declare no reordering get equal decoding and presentation timestamps after the first picture.",
 ["histories", "inputs"], "all GOP structures (no reordering, B-frame runs, two-level pyramids), reference picture sets in the parameter set (explicit or predicted) or in the slice header, POC widths, temporal sub-layers with their own reorder depth, slice header extensions, parameter set repetitions",
 "Tests replay a few captured streams; the result depends on slice header syntax controlled by parameter set flags and on history.",
 ["pkg/codecs/h265/dts_extractor.go"], [("reference picture set based PTS-DTS difference", "pkg/codecs/h265/dts_extractor.go:getPTSDTSDiff"), ("pause and monotonicity checks", "pkg/codecs/h265/dts_extractor.go")],
 "stateful model-based " + PBT + " with an encoder model", "Oracle: an encoder model that knows decode order; invariants over the whole history plus exact steady-state values.")

prop("C12", "AV1 size fields, OBU headers and bitstreams round-trip",
 "Every 32-bit unsigned integer survives LEB128 encoding, whose length is the minimal one, and decoding consumes exactly the encoded bytes, rejecting truncated data and values that do not fit in 32 bits. "
 "Every temporal unit made of OBUs, with or without their own size field, survives encoding into the low-overhead bitstream format and decoding (which returns the OBUs in order, without size fields); input in which an OBU is truncated, or has no size field or an invalid header, is rejected.",
 ["inputs"], "all 32-bit values (boundary-biased, padded encodings included), all temporal units within limits, all byte strings",
 "Tests contain a few fixed values and one bitstream; size field widths, header flags and truncation points are not sampled.",
 ["pkg/codecs/av1/leb128.go", "pkg/codecs/av1/obu_header.go", "pkg/codecs/av1/bitstream.go"], [("7-bit groups", "pkg/codecs/av1/leb128.go"), ("size field insertion and removal", "pkg/codecs/av1/bitstream.go")],
 PBT + " (round trip and reference decoder)", "Oracle: reference LEB128/OBU codec.")

prop("C13", "AV1 sequence headers are decoded as the specification defines",
 "Any sequence header OBU written according to the specification, with any combination of reduced headers, timing information, operating points, frame id numbers, tool flags and color configuration, with or without an OBU size field, is decoded to exactly the encoded values, and the derived width and height are the encoded maximums. Headers with decoder model information or initial display delays, which the library documents as unsupported, and truncated headers are rejected, never misread.",
 ["inputs"], "all syntactically valid sequence headers and their truncations",
 "Tests contain a few captured headers; conditional syntax is combinatorial.",
 ["pkg/codecs/av1/sequence_header.go"], [("conditional syntax parsing", "pkg/codecs/av1/sequence_header.go:Unmarshal")],
 PBT + " with an independent bitstream writer", "Oracle: the values given to an independent writer.")

prop("C14", "VP9 frame headers are decoded as the specification defines",
 "Any uncompressed VP9 frame header of any profile (key frames with any color configuration, inter frames, frames that show an existing frame) is decoded to the encoded values, and for key frames width, height and chroma subsampling equal the encoded ones. Headers with a wrong frame marker or sync code, or truncated ones, are rejected.",
 ["inputs"], "all syntactically valid uncompressed headers and their corruptions",
 "Tests contain two captured frames of profile 0.",
 ["pkg/codecs/vp9/header.go"], [("conditional syntax parsing", "pkg/codecs/vp9/header.go:Unmarshal")],
 PBT + " with an independent bitstream writer", "Oracle: the values given to an independent writer.")

prop("C15", "AC-3 and E-AC-3 headers give the standard's frame parameters",
 "For every AC-3 sync frame header the frame size and sample rate equal the standard's tables, and the channel count equals the coding mode's channels plus the low frequency channel; for every E-AC-3 sync frame header the stream type, substream, frame size, sample rate (half rates included), number of blocks and channel count equal the encoded ones. "
 "Wrong sync words, reserved sample rate and frame size codes, unsupported bit stream identifications and truncated headers are rejected.",
 ["inputs"], "all header field combinations (exhaustive for AC-3 sample rate and frame size codes, coding modes)",
 "Tests check three frames; table errors affect single rows.",
 ["pkg/codecs/ac3/sync_info.go", "pkg/codecs/ac3/bsi.go", "pkg/codecs/eac3/sync_info.go"], [("frame size tables", "pkg/codecs/ac3/sync_info.go"), ("bit stream information parsing", "pkg/codecs/ac3/bsi.go"), ("sync frame parsing", "pkg/codecs/eac3/sync_info.go")],
 PBT + " plus exhaustive enumeration of table codes", "Oracle: the standard's formulas, independent tables.")

prop("C16", "MPEG-1/2 audio frame headers give the standard's frame parameters",
 "For every MPEG-1 and MPEG-2 layer II/III audio frame header, the bitrate, sample rate, channel mode, padding, frame length in bytes and number of samples equal the standard's values, so that a frame sequence is split exactly; free-format, reserved and unsupported headers are rejected.",
 ["inputs"], "all 2^16 combinations of the header bits that matter (exhaustive)",
 "Tests check six headers; table errors affect single rows.",
 ["pkg/codecs/mpeg1audio/frame_header.go"], [("bitrate and sample rate tables", "pkg/codecs/mpeg1audio/frame_header.go:Unmarshal"), ("frame length and sample count", "pkg/codecs/mpeg1audio/frame_header.go")],
 "exhaustive " + PBT + " against independent tables", "Exhaustive over the header fields; oracle: ISO 11172-3 / 13818-3 tables.")

prop("C17", "ADTS streams round-trip and decode exactly their frames",
 "Any sequence of MPEG-4 audio access units with any sample rate, object type and channel layout that the format can express survives ADTS encoding and decoding, in order and with the same parameters; frames written by an independent encoder, whatever their informative header bits, decode to their access units. "
 "Access units that do not fit in the format are refused when encoding, and truncated or inconsistent frames, as well as the documented unsupported kinds (checksums, several blocks per frame), are rejected when decoding.",
 ["inputs"], "all packet sequences, sizes around the limits, all sampling frequency indexes and channel configurations, all truncations",
 "Tests contain three packets; the 13-bit length field, header options and limits are not sampled.",
 ["pkg/codecs/mpeg4audio/adts.go"], [("frame length arithmetic and limits", "pkg/codecs/mpeg4audio/adts.go")],
 PBT + " (round trip and independent encoder)", "Oracle: independent ADTS writer/parser.")

prop("C18", "MPEG-4 audio configurations round-trip and give the right channels",
 "Any audio specific configuration that the library accepts or that is valid within its documented scope (object types, standard and explicit sample rates, channel configurations, SBR/PS extensions, core coder delays) survives encoding and decoding, is decoded to the values an independent encoder wrote, and is never altered by encoding. "
 "Truncated configurations are rejected, and sample rates and channel counts that do not fit are refused by the encoder. Program config elements are decoded to the encoded values, their channel count equals the count of their elements' channels, and the channels of a raw data block are found behind any data stream and fill elements.",
 ["inputs"], "all configurations in scope, all program config elements, all byte strings that decode",
 "Tests contain a dozen configurations; combinations of extension, explicit rates, core coder delay and program elements are not sampled.",
 ["pkg/codecs/mpeg4audio/audio_specific_config.go", "pkg/codecs/mpeg4audio/program_config_element.go", "pkg/codecs/mpeg4audio/count_channels.go"], [("bit-exact parsing and writing", "pkg/codecs/mpeg4audio/audio_specific_config.go"), ("program config element", "pkg/codecs/mpeg4audio/program_config_element.go"), ("channel counting", "pkg/codecs/mpeg4audio/count_channels.go")],
 PBT + " (round trip and independent writer)", "Oracle: independent bit writer, round trip.")

prop("C19", "LATM configurations, mux elements and sync streams round-trip",
 "Any LATM stream mux configuration, audio mux element (with inline, reused or out-of-band configuration, several subframes, programs and layers) and LOAS sync stream in the library's scope survives encoding and decoding unchanged, bit-exactly as the standard lays it out. "
 "Elements too large for the format or of unsupported kinds are refused when encoding, and truncated input is rejected when decoding, except configurations cut before a frame length type, which are tolerated as documented.",
 ["inputs", "histories"], "all configurations and payloads in scope; sequences of elements reusing the previous configuration",
 "Tests contain a few configurations and one stream; the payload length coding and program/layer nesting are combinatorial.",
 ["pkg/codecs/mpeg4audio/stream_mux_config.go", "pkg/codecs/mpeg4audio/audio_mux_element.go", "pkg/codecs/mpeg4audio/audio_sync_stream.go", "pkg/codecs/mpeg4audio/payload_length_info.go", "pkg/codecs/mpeg4audio/payload_mux.go"], [("bit-exact parsing and writing", "pkg/codecs/mpeg4audio/stream_mux_config.go"), ("sync stream framing", "pkg/codecs/mpeg4audio/audio_sync_stream.go")],
 PBT + " (round trip)", "Oracle: round trip, size announcement, independent sync framing parser.")

prop("C20", "Opus packet durations and identification headers are exact",
 "For every table-of-contents byte and frame count, the duration of an Opus packet at 48 kHz equals the duration of its frames as defined by RFC 6716; packets without enough bytes to tell have no duration. "
 "Identification headers round-trip for every channel count, mapping family, mapping table and field value, and headers that are truncated or have a wrong signature or version are rejected.",
 ["inputs"], "all 256 first bytes by all frame count bytes (exhaustive), all identification headers",
 "Tests check a few packets and three headers.",
 ["pkg/codecs/opus/packet_duration.go", "pkg/codecs/opus/id_header.go"], [("frame size table and frame count", "pkg/codecs/opus/packet_duration.go"), ("header layout", "pkg/codecs/opus/id_header.go")],
 "exhaustive enumeration plus " + PBT, "Exhaustive for durations; round trip and truncation for headers.")

prop("C21", "FLAC stream information and JPEG segments decode to the encoded values",
 "FLAC stream information round-trips for every field value in its ranges with the bit layout of RFC 9639; values out of range are refused, and truncations are rejected. "
 "JPEG quantization tables, Huffman tables, restart intervals, frame and scan headers that the library can write decode (where it can read them) to the values written, with the marker and segment length that the format mandates, appended to what precedes them, and truncated or unsupported segments are rejected.",
 ["inputs"], "all field values, all truncations",
 "Tests contain one or two values per structure.",
 ["pkg/codecs/flac/stream_info.go", "pkg/codecs/jpeg/define_quantization_table.go", "pkg/codecs/jpeg/define_huffman_table.go", "pkg/codecs/jpeg/define_restart_interval.go", "pkg/codecs/jpeg/start_of_frame1.go", "pkg/codecs/jpeg/start_of_scan.go"], [("bit layout", "pkg/codecs/flac/stream_info.go"), ("segment layout", "pkg/codecs/jpeg")],
 PBT + " (round trip and independent codec)", "Oracle: independent bit writer and segment parser.")

prop("C22", "G.711 conversion matches the ITU-T definition for every value",
 "Decoding every 8-bit A-law and mu-law code yields the ITU-T G.711 linear value as 16-bit big-endian PCM; encoding every 16-bit linear value yields the code whose value is nearest to it at 14-bit resolution (ties away from zero), hence encoding is monotonic and encoding a decoded code returns that code (up to the two zeros of mu-law). Buffers of any length are converted element by element, without modifying the input, and linear buffers of odd length are refused.",
 ["inputs"], "all 256 codes and all 65536 linear values (exhaustive), buffers of any length",
 "Tests convert a few values.",
 ["pkg/codecs/g711/alaw.go", "pkg/codecs/g711/mulaw.go", "pkg/codecs/g711/invert_table.go"], [("decode table and inverted encode table", "pkg/codecs/g711")],
 "exhaustive enumeration plus " + PBT, "Exhaustive; reference: the standard's segment arithmetic, written independently.")

prop("C23", "A rewindable reader replays exactly what was read, then continues",
 "Whatever the sizes of the reads before and after rewinding and however the underlying reader splits its data, reading after a rewind yields the underlying stream from its very beginning, with no byte lost, repeated or altered, and then the underlying reader's own end or error; a failure after which the underlying reader goes on is passed on once. "
 "Reading more than the documented limit before rewinding fails.",
 ["histories", "inputs", "fault_sequences"], "all sequences of reads of any size before and after the rewind, all splittings and ending errors of the underlying reader",
 "The test performs one read of each kind.",
 ["pkg/rewindablereader/reader.go"], [("recorded entries", "pkg/rewindablereader/reader.go:Read")],
 "stateful model-based " + PBT, "Oracle: the underlying byte string.")

prop("C24", "The seekable buffer behaves like an in-memory file",
 "After any sequence of writes, seeks and resets, the contents and the position of a seekable buffer equal those of an in-memory file with the same history: writes overwrite or extend at the position, seeking past the end zero-fills, negative positions are refused without effect, and a reset empties it; the buffer never aliases the data written.",
 ["histories"], "all operation sequences",
 "The test performs one fixed sequence.",
 ["pkg/formats/fmp4/seekablebuffer/seekablebuffer.go"], [("overwrite then append", "pkg/formats/fmp4/seekablebuffer/seekablebuffer.go")],
 "stateful model-based " + PBT, "Oracle: a byte slice model.")

prop("C25", "Fragmented-MP4 initialization segments round-trip for every codec",
 "Writing an initialization segment with any set of tracks, of every supported codec with any valid parameters, and any user data, then reading it, returns equal tracks (identifier, time scale, codec, parameters) and user data, in order. "
 "The written bytes are a well-formed box tree whose sizes nest exactly and whose track identifiers, time scales, dimensions and sample entries agree with the tracks; values that cannot be represented are refused rather than silently altered. Segments in which another writer laid the same tracks out in another legal way (other orders of boxes, 64-bit sizes and headers, unknown or optional boxes, other descriptors, user data or closed-caption tracks anywhere) give the same tracks.",
 ["inputs", "configurations"], "all track lists over all codecs and parameter values, including generated parameter sets",
 "Tests round-trip one fixed parameter set per codec.",
 ["pkg/formats/fmp4/init.go", "pkg/formats/fmp4/init_track.go", "internal/mp4/codec_boxes.go", "internal/mp4/codec_info.go", "internal/mp4/writer.go"], [("box writing", "internal/mp4/codec_boxes.go:WriteCodecBoxes"), ("box reading", "internal/mp4/codec_boxes.go:Read"), ("track header", "pkg/formats/fmp4/init_track.go")],
 PBT + " (round trip and independent box parser)", "Oracle: round trip plus an independent box-tree parser.")

prop("C26", "Fragmented-MP4 parts round-trip and are structurally sound",
 "Writing any sequence of parts, each with any tracks and samples (durations, presentation offsets, sync flags, payloads, base times), then reading it, returns equal parts. "
 "The written bytes are a well-formed sequence of movie fragment and media data boxes in which every data offset points at exactly the bytes of the track's samples; samples described by fragment-level defaults (or first-sample flags) by another writer are read with them, for any number of runs. Track identifiers that do not fit are refused.",
 ["inputs"], "all part sequences, sizes and field values; foreign fragments using default flags, sizes and durations, several runs per track, both run versions",
 "Tests round-trip two fixed parts.",
 ["pkg/formats/fmp4/part.go", "pkg/formats/fmp4/part_track.go", "pkg/formats/fmp4/parts.go", "pkg/formats/fmp4/sample.go"], [("data offset back-patching", "pkg/formats/fmp4/part.go:Marshal"), ("run parsing and defaults", "pkg/formats/fmp4/parts.go:Unmarshal")],
 PBT + " (round trip, independent box parser and independent writer)", "Oracle: round trip, independent parser and writer.")

prop("C27", "Progressive MP4 files round-trip, with payloads where the tables say",
 "Writing a presentation with any tracks, codecs, time offsets and samples (durations, presentation offsets, sync flags, payloads), then reading it, returns equal tracks and samples whose payloads are byte-identical, however the samples interleave. "
 "In the written file, an independent reading of the sample tables (time, sync, composition, chunk, size, offset) reconstructs exactly the same samples, no two samples overlap, the sample data fills the media data box exactly, in order of time across tracks, and the track and movie durations agree with the samples. Files with other legal layouts (any chunking, any position of the media data, 64-bit sizes and headers, unknown or optional boxes) are read correctly, and presentations that do not fit the format are refused.",
 ["inputs", "configurations"], "all presentations: track counts, time scales, offsets of both signs, sample counts and durations including zero, empty payloads and empty tracks",
 "Tests round-trip a few fixed presentations; table compression and interleaving depend on the whole sample history.",
 ["pkg/formats/pmp4/presentation.go", "pkg/formats/pmp4/track.go"], [("interleaving and offsets", "pkg/formats/pmp4/presentation.go:sortSamples"), ("table compression", "pkg/formats/pmp4/track.go"), ("table expansion", "pkg/formats/pmp4/presentation.go:Unmarshal")],
 PBT + " (round trip and independent sample-table reader)", "Oracle: round trip, independent sample-table reader.")

prop("C28", "MPEG-TS streams round-trip for every codec and interleaving",
 "Writing any sequence of access units on any set of tracks of every supported codec and reading the stream back yields, per track, the same access units in the same order with the same timestamps (modulo 2^33), and the same tracks with the same codec parameters, identifiers (those left to the writer do not collide with others, unusable ones are refused) and languages; "
 "streams of other multiplexers are read in the same way, in any interleaving, and those that their descriptors do not identify unambiguously as one supported codec are reported as unsupported tracks. Units reach only the callback registered last for their track, one per read at most, and an error returned by a callback is returned by the read in progress and does not affect what follows; what was delivered is not altered by further reads. "
 "Every emitted packet is 188 bytes long with a correct sync byte and continuity counter, tables precede media, and clock references are present on the leading track and do not run ahead of the decoding times they accompany.",
 ["histories", "inputs", "configurations"], "all write histories: codecs, track counts, interleavings, sizes across packet boundaries, timestamps across wrap-around",
 "Tests write one fixed sequence per codec.",
 ["pkg/formats/mpegts/writer.go", "pkg/formats/mpegts/reader.go", "pkg/formats/mpegts/track.go"], [("packetization and tables", "pkg/formats/mpegts/writer.go"), ("payload decoding per codec", "pkg/formats/mpegts/reader.go"), ("track (un)marshaling", "pkg/formats/mpegts/track.go")],
 "stateful " + PBT + " (round trip and independent packet parser)", "Oracle: the written history plus an independent TS packet parser.")

prop("C29", "MPEG-TS reading tolerates garbage, loss and any splitting of the input",
 "How the underlying reader splits the stream, and which other interfaces it implements, never changes what the MPEG-TS reader delivers. "
 "Garbage before or between packets, provided that it does not imitate packets, and damaged or missing packets of one track cost at most the access units they carry (on that track, the neighbouring ones included), while all other access units are delivered unchanged; the loss of media data before opening or late joining does not prevent opening once tables and, where needed, parameters appear. The deprecated buffered reader passes on datagrams made of whole packets unchanged, whatever the sizes of the reads, the datagram returned along with the end of the stream included.",
 ["fault_sequences", "histories"], "all splittings of the input, positions and lengths of garbage, positions of lost or damaged packets, join points",
 "Tests inject one fixed piece of garbage.",
 ["pkg/formats/mpegts/pre_demuxer.go", "pkg/formats/mpegts/robust_demuxer.go", "pkg/formats/mpegts/reader.go", "pkg/rewindablereader/reader.go"], [("resynchronization on the sync byte", "pkg/formats/mpegts/pre_demuxer.go"), ("replay of the data used for opening", "pkg/rewindablereader/reader.go")],
 "metamorphic " + PBT + " with fault injection", "Metamorphic: clean delivery versus delivery under splitting, garbage, loss.", level="exploration")

prop("C30", "Timestamp unwrapping recovers the true timeline",
 "Feeding the 33-bit truncation of any timeline whose consecutive differences are smaller than 2^32 in absolute value yields the true timeline relative to its first value, over any number of wrap-arounds in either direction.",
 ["histories"], "all timelines with steps in (-2^32, 2^32)",
 "Tests decode five fixed sequences.",
 ["pkg/formats/mpegts/time_decoder.go"], [("signed modular difference accumulation", "pkg/formats/mpegts/time_decoder.go:Decode")],
 "stateful model-based " + PBT, "Oracle: 64-bit timeline.")

prop("C31", "MPEG-TS codec substructures round-trip and match their layout",
 "Opus control headers, access units and audio descriptors, and metadata cells, descriptors and buffer descriptors survive encoding and decoding for all valid values, with the announced size and the bit layout of their specifications; truncated input, wrong prefixes, unknown channel configurations and reserved decoder configuration forms are rejected.",
 ["inputs"], "all field values and optional parts, all truncations, all byte strings that decode",
 "Tests contain a few values per structure.",
 ["pkg/formats/mpegts/substructs/opus_control_header.go", "pkg/formats/mpegts/substructs/opus_access_unit.go", "pkg/formats/mpegts/substructs/opus_audio_descriptor.go", "pkg/formats/mpegts/substructs/metadata_au_cell.go", "pkg/formats/mpegts/substructs/metadata_descriptor.go", "pkg/formats/mpegts/substructs/metadata_std_descriptor.go"], [("(un)marshaling and sizes", "pkg/formats/mpegts/substructs")],
 PBT + " (round trip and independent layout)", "Oracle: round trip and independent layout writers.")

prop("C32", "Encoding and decoding are pure: no leftovers, no side effects, deterministic",
 "Decoding into a value that was used before gives the same result as decoding into a fresh value, for every decodable structure of the library. "
 "Decoding never modifies the input bytes nor what earlier decodings returned, encoding never modifies the value being encoded or its payloads and gives identical bytes when repeated, and the presence of spare capacity behind the caller's buffers never matters.",
 ["histories", "inputs"], "all pairs of inputs decoded in sequence into the same value, including failed decodes; all values encoded twice",
 "Tests always decode into fresh values, once.",
 ["pkg/codecs/h264/sps.go", "pkg/codecs/h265/sps.go", "pkg/codecs/av1/sequence_header.go", "pkg/codecs/mpeg4audio", "pkg/formats/fmp4", "pkg/formats/pmp4", "pkg/formats/mpegts/substructs"], [("reset of optional fields before parsing", "pkg/codecs/*"), ("copy instead of in-place edits", "pkg/codecs/*")],
 "metamorphic " + PBT, "Metamorphic: fresh versus reused value, first versus second encoding, input snapshots.")

prop("C33", "I/O failures are reported, never swallowed",
 "When the underlying reader, seeker or writer fails at any point, the operation in progress returns an error (for readers and writers of MPEG-TS and MP4, the underlying error itself or one that wraps it where it is not a plain end of input) and never reports success for data that was not transferred. "
 "(A failed Seek while MP4 boxes are being parsed may either have no effect on the result or cause any error.) Short and one-byte-at-a-time reads are not failures and change nothing.",
 ["fault_sequences", "crash_points"], "a failure at every I/O call of generated reads and writes (enumerated), every failure kind, every read granularity",
 "Tests never inject I/O failures.",
 ["pkg/formats/mpegts/robust_demuxer.go", "pkg/formats/mpegts/writer.go", "pkg/formats/pmp4/presentation.go", "pkg/formats/fmp4/init.go", "pkg/formats/fmp4/part.go", "internal/mp4/writer.go"], [("error wrapping", "pkg/formats/mpegts/robust_demuxer.go:errorWrapper"), ("error checks", "internal/mp4/writer.go")],
 PBT + " with systematic fault injection", "Every I/O call index of each generated scenario is failed in turn.", level="fault_enumeration")

prop("C34", "Random access points are identified consistently",
 "An access unit is a random access point exactly when it contains the codec's key picture (H.264 IDR; H.265 IDR or CRA; AV1 sequence header; VP9 key frame; MPEG-4 and MPEG-1/2 video group start), wherever it is placed. "
 "The sync flag of MP4 samples built from it, its survival through MP4 files, and the random access indicator of the MPEG-TS packets that carry it agree with this.",
 ["inputs"], "all access units over all NAL unit / OBU / start code types, orders and counts",
 "Tests check one positive and one negative example.",
 ["pkg/codecs/h264/is_random_access.go", "pkg/codecs/h265/is_random_access.go", "pkg/codecs/av1/is_random_access.go", "pkg/codecs/vp9/is_random_access.go", "pkg/formats/fmp4/sample.go", "pkg/formats/mpegts/writer.go"], [("detection", "pkg/codecs/*/is_random_access.go"), ("flagging", "pkg/formats/fmp4/sample.go, pkg/formats/mpegts/writer.go")],
 PBT + " against reference classification", "Oracle: independent classification by unit types.")

prop("C35", "MPEG-4 video configurations are validated by their start codes",
 "A byte string is accepted as a MPEG-4 video configuration exactly when it begins with a visual object sequence start code, all its further start codes (three prefix bytes and the code byte, read one after the other) are of the configuration kinds (visual object, video object, video object layer, user data), and at least one video object and one video object layer are present.",
 ["inputs"], "all byte strings, dense in start codes, truncated at any point",
 "Tests accept two valid configurations and reject none.",
 ["pkg/codecs/mpeg4video/is_valid_config.go"], [("start code scan", "pkg/codecs/mpeg4video/is_valid_config.go")],
 PBT + " against a reference scanner", "Differential oracle.")

prop("C36", "Independent objects can be used concurrently",
 "Using separate readers, writers, decoders and values of the library from different goroutines at the same time gives each the same result as using it alone, and involves no data race; the same immutable value can be encoded and queried by several goroutines at once.",
 ["schedules"], "schedules of up to 8 goroutines running mixed operations on separate objects, and read-only operations on shared ones, under the race detector",
 "Tests use every object from one goroutine.",
 ["pkg/codecs/g711", "internal/mp4", "pkg/formats/fmp4", "pkg/formats/pmp4", "pkg/formats/mpegts"], [("absence of mutable package-level state", "whole repository")],
 "randomized concurrent " + PBT + " under the race detector", "Race detector plus sequential-equivalence oracle; schedules are sampled.")

# checks that exist
built = set(sys.argv[1].split(",")) if len(sys.argv) > 1 else None
if built is None:
    built = set()
    d = "harness/props"
    import re
    for f in os.listdir(d):
        if f.endswith(".go"):
            built |= set(re.findall(r'ID:\s+"(C\d+)"', open(os.path.join(d, f)).read()))

with open("properties.jsonl", "w") as f:
    for p in P:
        assert len(p["title"]) <= 80, p["title"]
        a = {"files": p["files"], "mechanism": [{"name": n, "where": w} for n, w in p["mech"]]}
        if p["state"]: a["state"] = p["state"]
        if p["observe"]: a["observe_at"] = p["observe"]
        a["hook_needed"] = None
        f.write(json.dumps({"id": p["id"], "title": p["title"], "statement": p["statement"],
            "quantifier": {"over": p["over"], "text": p["qtext"]}, "why_tests_cant": p["why"], "anchors": a}) + "\n")

m = {"version": 1, "setup_cmd": "./setup.sh",
     "hooks": {"guard": "none", "enable": "no hooks: the checks use the public API only", "source_commits": []},
     "checks": [], "not_applicable": [],
     "notes": "check.sh ID quick|thorough|replay FILE. The harness (harness/) is rebuilt against /repo on every run. See DESIGN.md."}
for p in P:
    if p["id"] in built:
        m["checks"].append({"property": p["id"], "quick_cmd": f"./check.sh {p['id']} quick",
            "thorough_cmd": f"./check.sh {p['id']} thorough", "technique": p["technique"], "level": p["level"],
            "level_note": p["note"]})
    else:
        m["not_applicable"].append({"property": p["id"], "reason": p["na"] or "check not built yet"})
json.dump(m, open("MANIFEST.json", "w"), indent=1)
print(len(m["checks"]), "checks,", len(m["not_applicable"]), "not claimed")
