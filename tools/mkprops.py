#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (the committed list) from the table below."""
import json, os

P = []


def prop(id, title, statement, over, text, why, files, mech, state=None, observe=None):
    assert len(title) <= 80, (id, len(title))
    P.append({
        "id": id, "title": title, "statement": statement,
        "quantifier": {"over": over, "text": text},
        "why_tests_cant": why,
        "anchors": {
            "files": files,
            **({"state": [{"name": n, "meaning": m, "where": w} for (n, m, w) in state]} if state else {}),
            "mechanism": [{"name": n, "where": w} for (n, w) in mech],
            **({"observe_at": observe} if observe else {}),
            "hook_needed": None,
        },
    })


GSF = "mediagrains/gsf.py"

prop("C01", "A GSF file gives back exactly the grains that were written to it",
     "For any sequence of grains of any type (video, coded video, audio, coded audio, event, empty), writing them to a "
     "GSF file and reading it back yields, per segment and in the order written, grains of the same type with the same "
     "payload bytes (in whatever kind of object, arrays included, the payload was held) and the same value of every field the format can represent (ids, timestamps, rate, duration, time "
     "labels, format, layout, dimensions, components, aspect ratios, unit offsets, key-frame flag, temporal offset, "
     "sample counts, event contents). The file's own id, creation time, tags, segments and segment tags come back too.",
     ["inputs", "configurations"],
     "All lists of representable grains of all six types over several segments, with extreme field values (negative "
     "timestamps, 2^48-1 seconds, zero and large rationals, empty payloads, 16 byte labels, many components), all three file "
     "versions the reader accepts being produced and read.",
     "The tests round-trip one or two hand-made grains and compare a few fields; the GSF test module is not even part of "
     "the stable suite. A wrong sign, width or flag shows only for particular values of particular fields.",
     [GSF, "mediagrains/grains/Grain.py", "mediagrains/grains/VideoGrain.py", "mediagrains/grains/CodedVideoGrain.py"],
     [("per type header writers and readers", GSF + ": OpenGSFEncoderBase/GSFEncoderSegment *_grain writers, GSF*DecoderSession._decode_*"),
      ("integer/timestamp/rational/string primitives", GSF + ": _write_*/_encode_* and SyncGSFBlock/AsyncGSFBlock.read_*")],
     observe=["loads(dumps(...))", "GSFEncoder / GSFDecoder contexts"])

prop("C02", "Bytes the GSF encoder writes conform to the published file format",
     "Every file the encoder writes parses, under an independent strict reading of the published format, into nested blocks "
     "whose stated sizes are exact, with the documented fields at the documented positions and widths carrying the values "
     "given, optional blocks present exactly when they carry information, and a terminator block. The per-segment grain counts "
     "in the header equal the number of grain blocks with that segment's number (or -1 where streaming could not go back).",
     ["inputs", "configurations"],
     "All encoder configurations (streaming or not, seekable or not, tags, segments, ids) and all grains the encoder accepts.",
     "A round trip through the package's own decoder hides any mistake made on both sides, and a reader that ignores sizes "
     "hides wrong sizes; other implementations of the format would reject or misread such files.",
     [GSF, "gsf_docs/gsf.md", "gsf_docs/ssb.md"],
     [("block size computation", GSF + ": GSFEncoderSegment._grain/_vghd/... size sums, OpenGSFEncoderBase._encode_head_block"),
      ("count patching", GSF + ": _encode_end of the streaming encoders")],
     observe=["bytes of the file object"])

prop("C03", "The GSF decoder reads any conforming file, skipping what it does not know",
     "Any file that conforms to the published format - version 7, 8 or 9, produced by any writer, with unknown or fill blocks, "
     "extra trailing properties inside known blocks, optional blocks present or absent, with or without a terminator, and "
     "several files concatenated - decodes to exactly the header values and grains it describes. Files that are not GSF, or of "
     "another version, are refused with the documented errors.",
     ["inputs"],
     "All files an independent generator of the format's grammar can emit, within size bounds.",
     "The stored example files come from one writer and hold one shape each; forward compatibility (skipping) concerns "
     "blocks no current writer produces.",
     [GSF, "gsf_docs/gsf.md", "gsf_docs/ssb.md"],
     [("size-bounded child iteration and skipping", GSF + ": SyncGSFBlock/AsyncGSFBlock.child_blocks, has_child_block, __exit__"),
      ("concatenation handling", GSF + ": GSFSyncDecoderSession.grains / GSFAsyncDecoderSession.grains")],
     observe=["GSFDecoder", "loads", "load"])

prop("C04", "Every way of driving the GSF encoder yields the same file for one history",
     "For any history of adding tags, segments and grains, the streaming and non-streaming, synchronous and asynchronous, "
     "context-managed and deprecated call styles, and the one-call helpers, all produce files with the same contents, whole also when several tasks add grains to one file at a time; each grain lands in the "
     "segment its call selects and the header counts match. Meanwhile the encoder reports the tags, segments and counts it was given. Calls the documentation forbids (duplicate segment numbers, "
     "changing the header while a dump is in progress, grains for a segment that does not exist then) fail with the documented error and leave the output valid.",
     ["histories", "configurations"],
     "All sequences of encoder calls, in every mode, on seekable and non-seekable outputs.",
     "Tests make one short call sequence per mode; segment selection, count patching and error rules depend on what happened before.",
     [GSF],
     [("segment selection", GSF + ": OpenGSFEncoderBase._get_segment / GSFEncoder.add_grains"),
      ("deferred vs immediate encoding", GSF + ": OpenGSFEncoder/OpenAsyncGSFEncoder _encode_start/_encode_end/add_grains")],
     state=[("segments", "segments known to the dump, with the grains queued and written", GSF)],
     observe=["file bytes after each call"])

prop("C05", "All ways of reading a GSF file deliver the same grains",
     "Synchronous and asynchronous reading, immediate and every kind of deferred data loading, any order of touching deferred "
     "data during or after reading (while the file is open), and any segment filter deliver the same grains with the same data as one plain pass, also where an earlier wait for the data was given up; a filter "
     "selects exactly the matching segments. Metadata-only reading gives the same metadata, and touching a grain's data never disturbs what is read next.",
     ["inputs", "histories", "configurations"],
     "All files, all loading modes, filters and file kinds, and all interleavings of advancing the reader with touching the data of grains already delivered.",
     "Interleavings of reader position and lazy loads are exponential in the number of grains; tests read front to back.",
     [GSF, "mediagrains/utils/iobytes.py", "mediagrains/utils/asyncbinaryio.py"],
     [("lazy payloads", GSF + ": the decoder sessions' grain payload reading, IOBytes"),
      ("position save/restore", GSF + ": _read_out_of_order, AsyncLazyLoaderUnloadedError handling")],
     observe=["grain.data", "await grain", "file position"])

prop("C06", "Damaged GSF input never yields invented grains or undocumented failures",
     "Reading a file cut off at any byte yields a prefix of the grains of the whole file followed by a clean end or a documented "
     "error, and never a grain that was not in the file. Reading a file with bytes overwritten, inserted or deleted always "
     "terminates, with grains or a documented kind of error, in the synchronous and asynchronous readers alike.",
     ["inputs", "crash_points", "fault_sequences"],
     "Every truncation point of generated files and generated mutations of them.",
     "There is one truncated file in the tests; the positions at which a file can be cut, and what can be overwritten, number in the thousands per file.",
     [GSF],
     [("end-of-data detection", GSF + ": read_* primitives raising EOFError, grains() ending on it"),
      ("validity errors", GSF + ": GSFDecodeError family")],
     observe=["GSFDecoder sessions", "loads"])

prop("C07", "A grain's attributes, metadata and copies stay consistent under any updates",
     "After any sequence of constructing, setting attributes and deep-copying, every attribute of a grain reads back the "
     "value last given (normalised to its type), agrees with the metadata mapping and with the (metadata, data) pair view, and a grain "
     "rebuilt from that metadata is equal to it. A deep copy is equal and independent of the original; updates to one attribute never change another. "
     "A constructor called with any of its arguments, in order or by name, gives a grain with those values and the declared defaults for the rest, whose metadata survives JSON; metadata that leaves fields out gives the values that stand for none. A payload that comes later is the grain's once waited for, unless another was given meanwhile.",
     ["inputs", "histories"],
     "All grain types, all constructor argument combinations (positional metadata or keyword arguments, strings or typed values) and all update sequences.",
     "Unit tests set one attribute on a fresh grain; aliasing between copies and cross-talk between fields need sequences.",
     ["mediagrains/grains/Grain.py", "mediagrains/grains/VideoGrain.py", "mediagrains/grains/AudioGrain.py",
      "mediagrains/grains/CodedVideoGrain.py", "mediagrains/grains/CodedAudioGrain.py", "mediagrains/grains/EventGrain.py"],
     [("metadata normalisation", "mediagrains/grains/Grain.py: Grain.__init__ and setters"),
      ("type selection and copying", "mediagrains/grains/Grain.py: GrainFactory, __copy__, __deepcopy__")],
     observe=["attributes", "meta", "tuple(grain)"])

prop("C08", "List-valued grain attributes behave as ordinary mutable lists",
     "The time labels, coded unit offsets and video components of a grain behave like a Python list under any sequence of list "
     "operations (index, negative index, slice, append, insert, extend, delete, assignment, comparison, length, iteration), "
     "with the metadata always reflecting the current contents and invalid positions raising IndexError. Assigning a whole list stores exactly that list.",
     ["histories"],
     "All operation sequences on the list views of all grain types that have them.",
     "The tests do a handful of single operations; list views over an optional metadata key have edge states (absent, empty) reached only by sequences.",
     ["mediagrains/grains/Grain.py", "mediagrains/grains/VideoGrain.py", "mediagrains/grains/CodedVideoGrain.py",
      "mediagrains/grains/CodedAudioGrain.py", "mediagrains/grains/EventGrain.py"],
     [("sequence wrappers over the metadata", "TIMELABELS / UNITOFFSETS / COMPONENT_LIST classes")],
     observe=["timelabels", "unit_offsets", "components"])

prop("C09", "An event grain's JSON payload and its event fields are one and the same",
     "For any event grain the payload bytes are the JSON encoding of its event type, topic and list of pre/post values; "
     "assigning those bytes to another event grain reproduces the same type, topic and events, and appended events, edited or removed pre "
     "and post values appear in the payload exactly. Absent values stay distinguishable from present ones.",
     ["inputs", "histories"],
     "All JSON-representable event contents and edit sequences.",
     "Tests use one event grain with two string values.",
     ["mediagrains/grains/EventGrain.py"],
     [("data property as JSON view", "mediagrains/grains/EventGrain.py: EventGrain.data getter/setter, DATA, append")],
     observe=["EventGrain.data", "event_data"])

prop("C10", "Raw essence sizes and plane geometry follow from format and dimensions",
     "For every raw video or audio format and any dimensions, a grain created without data gets a payload of exactly the documented size, its "
     "expected length equals that size, and its component descriptions tile the payload: strides, heights, lengths and "
     "offsets per plane agree with the format's sample width and chroma subsampling and never overlap or leave the payload. The helper predicates on formats agree with the format's meaning.",
     ["inputs", "configurations"],
     "All enumerated formats and all dimensions (even and odd) and channel/sample counts.",
     "Tests use 1920x1080 and a few formats; errors appear for other dimensions and rarer formats.",
     ["mediagrains/grains/VideoGrain.py", "mediagrains/grains/AudioGrain.py", "mediagrains/cogenums.py"],
     [("size and component calculators", "mediagrains/grains/VideoGrain.py: size_for_format/components_for_format; mediagrains/grains/AudioGrain.py: size_for_audio_format"),
      ("format bit-field helpers", "mediagrains/cogenums.py")],
     observe=["len(grain.data)", "expected_length", "components"])

prop("C11", "A grain's time ranges follow exactly from its timestamps, rate and content",
     "For every grain the origin range starts at the origin timestamp and ends where the documentation says for its type (audio: "
     "the last sample; others, and grains whose rate is not set: the same instant; a grain without samples covers no time), the presentation range is the origin shifted by the temporal offset, media rate is the frame "
     "or sample rate, and converting times or ranges to the grain's rate lands on whole media units. Unset timestamps default from the ones that are set.",
     ["inputs"],
     "All timestamps, rates (integer, NTSC-like, zero), sample counts and temporal offsets.",
     "Tests use one rate and timestamp zero or small; rounding depends on the pair of rate and time.",
     ["mediagrains/grains/Grain.py", "mediagrains/grains/AudioGrain.py", "mediagrains/grains/CodedAudioGrain.py",
      "mediagrains/grains/CodedVideoGrain.py", "mediagrains/grains/VideoGrain.py"],
     [("time range properties", "origin_timerange/presentation_origin_timerange/final_origin_timestamp/normalise_time/media_rate")],
     observe=["time range attributes"])

prop("C12", "Array views of a grain address exactly the bytes of its payload",
     "For every supported raw format and size, the per-component picture arrays and per-channel audio arrays of a grain have the documented "
     "shape and type, each element is the sample the format's layout places there, writing an element "
     "changes exactly that sample of the payload and nothing else, and no element lies outside the payload. 24-bit audio samples appear widened to 32 bits in a copy. Formats without array support are refused, not misread.",
     ["inputs", "configurations"],
     "All supported formats, dimensions, components, channels and sample positions.",
     "Tests check a few fixed positions on 16x16 or 1920x1080 grains.",
     ["mediagrains/grains/VideoGrain.py", "mediagrains/grains/AudioGrain.py", "mediagrains/numpy/__init__.py"],
     [("strided views", "mediagrains/grains/VideoGrain.py: numpy component arrays; mediagrains/grains/AudioGrain.py: channel_data")],
     observe=["component_data", "channel_data", "data"])

prop("C13", "Picture format conversions compute the specified sample values",
     "Converting a picture between formats gives for every pixel and component the value an independent per-pixel model "
     "gives: unchanged samples for re-ordering and re-packing, averaging or repetition for chroma resampling, rounding shift (never wrapping around) for bit depth reduction, "
     "preserved leading bits for bit depth increase, and the standard colour matrix with clipping for RGB and YUV. Pixels that the conversion does not concern never influence each other.",
     ["inputs", "configurations"],
     "All ordered pairs of formats with a registered conversion, all dimensions supported, and arbitrary sample values including extremes.",
     "Tests convert smooth or constant pictures at one size; extremes (all ones) and per-pair kernels are not reached.",
     ["mediagrains/numpy/convert.py", "mediagrains/grains/VideoGrain.py"],
     [("conversion kernels and their registration table", "mediagrains/numpy/convert.py")],
     observe=["convert/asformat results"])

prop("C14", "Conversions preserve picture identity and invert where nothing is lost",
     "A converted grain has the requested format and geometry, the same source, origin and sync timestamps, rate, duration, time labels, aspect ratios, size and layout, a flow id that is a function of "
     "the original flow and target format only, and leaves the original untouched; asking for the current format changes nothing. "
     "Converting there and back restores every sample when only arrangement or chroma sampling density was raised, and to within one step when the bit depth was raised.",
     ["inputs", "configurations"],
     "All pairs of formats with a registered conversion, arbitrary metadata and pictures.",
     "Round trips depend on every sample value and on every pair of formats; tests check a few pairs and not the metadata.",
     ["mediagrains/numpy/convert.py", "mediagrains/grains/VideoGrain.py"],
     [("convert/asformat and flow id derivation", "mediagrains/grains/VideoGrain.py: convert, asformat, flow_id_for_converted_flow")],
     observe=["grain.convert", "grain.asformat"])

CMP = "mediagrains/comparison/_internal.py"
prop("C15", "Comparing two grains reports a match exactly when nothing compared differs",
     "A grain compares equal to a copy of itself, and two grains that differ in any single compared field, time label, event value or payload sample compare as "
     "different, whatever the type, format and position of the difference, symmetrically in the two arguments. The result tree names the field that differs and its printed form can always be produced.",
     ["inputs"],
     "All grain pairs that are identical or differ by one edit, of all types and formats.",
     "Tests flip one field at a time on one grain per type; payload differences at every position and word size are not reached.",
     [CMP, "mediagrains/comparison/__init__.py"],
     [("field by field comparison", CMP + ": GrainComparisonResult"), ("payload comparison by sample word", CMP + ": DataEqualityComparisonResult")],
     observe=["bool(compare_grain(...))", "result children", "str(result)"])

prop("C16", "Comparison options and sequence comparison change results only as stated",
     "Excluding a field makes differences in it, and only in it, irrelevant; including one re-enables it; an expected difference is accepted exactly when "
     "the actual difference satisfies the stated relation. Comparing two sequences of grains matches exactly when they have equal length and pairwise match under the same options, and reports the first entry at which they differ.",
     ["inputs", "configurations"],
     "All sets of options over all fields combined with grain pairs differing in any set of fields, and all pairs of sequences.",
     "Options times differences is a product space; tests exercise each option once.",
     ["mediagrains/comparison/options.py", CMP],
     [("option paths and exclusion", "mediagrains/comparison/options.py; " + CMP + ": ComparisonResult.excluded"),
      ("iterator comparison", CMP + ": GrainIteratorComparisonResult")],
     observe=["compare_grain", "compare_grains_pairwise"])

prop("C17", "PSNR figures equal the textbook definition per component or channel",
     "For any two pictures or audio grains of the same supported format and size, the PSNR reported per component or channel "
     "equals 10*log10(peak^2/mean squared error) computed sample by sample, infinite for identical content, symmetric in its arguments, and unaffected by padding or by other components. Mismatched or unsupported inputs are refused.",
     ["inputs", "configurations"],
     "All supported video and audio formats, sizes and sample values, including extreme values.",
     "Tests check a few golden numbers at one size; overflow and indexing errors depend on values and formats.",
     ["mediagrains/comparison/psnr.py", CMP],
     [("per-format PSNR", "mediagrains/comparison/psnr.py: compute_psnr")],
     observe=["compute_psnr", "PSNR options of compare_grain"])

PG = "mediagrains/patterngenerators/"
prop("C18", "Pattern generators deliver the same grain for an instant however it is asked for",
     "Each pattern generator is a pure function of time: asking by timestamp, by index, by any kind of range or by slice with a step, repeatedly and in any order, yields "
     "grains at exactly the instants of its rate (or of the range's own rate, if it has one) inside the range, each with the same ids, timestamps, duration and content, and independent of grains handed out before. Arguments left out when making a generator stand for the declared defaults. A slice includes both its ends, and a single time between instants finds nothing. Requests without a starting point or of a wrong kind are refused.",
     ["inputs", "histories"],
     "All generators and configurations, all timestamps, indices, ranges with either bound style, and steps.",
     "The combinations of bound styles, steps and offsets are unbounded; tests take a few.",
     [PG + "abc.py", PG + "audio", PG + "video"],
     [("indexing front end", PG + "abc.py: PatternGenerator.__getitem__/get_range")],
     observe=["generator[...]", "generator.get", "generator.get_range"])

prop("C19", "Video test patterns contain the specified picture at every size and format",
     "Luma steps, colour bars and the moving bar overlay draw, for any supported format, picture size, offset, intensity and instant, the picture an "
     "independent pixel model draws: bars of equal width in order with the documented levels at the format's bit depth, full height, and the overlay bar of the stated height and value at the stated position, the rest of the background unchanged.",
     ["inputs", "configurations"],
     "All supported formats, dimensions, generator parameters and instants.",
     "Tests look at a few positions at 1920x1080.",
     [PG + "video"],
     [("picture rendering", PG + "video/*.py")],
     observe=["grain.component_data", "grain.data"])

prop("C20", "Generated audio is one continuous signal in every format",
     "The tone and silence generators give audio grains of the requested format, rate, channel count and length, whose samples, concatenated over consecutive grains, "
     "are exactly the sampled sine wave of the stated frequency (or zeros), with no gap or jump at grain boundaries and identical on all channels, however the timeline is divided into requests.",
     ["inputs", "configurations", "histories"],
     "All supported formats, channel counts, sample rates, frequencies, grain lengths and starting instants.",
     "Tests compare a few grains; continuity at grain boundaries depends on loop length, grain length and position.",
     [PG + "audio"],
     [("looped sample synthesis", PG + "audio/*.py")],
     observe=["grain.data", "timestamps"])

prop("C21", "Wrapping raw essence into grains conserves every byte and advances time evenly",
     "Splitting a raw essence stream into grains yields payloads whose concatenation is the stream, each full-sized except possibly the "
     "last, with origin and sync timestamps advancing by exactly one grain at the template's rate from the template's start (an instant of that rate) and all other metadata taken from the template, "
     "which is not changed. The grains are independent of each other.",
     ["inputs", "configurations"],
     "All templates, stream lengths (including partial last grains) and input kinds.",
     "Tests do not cover the wrappers; boundaries depend on stream length modulo grain size.",
     ["mediagrains/utils/grain_wrapper.py"],
     [("chunked reading and timestamping", "mediagrains/utils/grain_wrapper.py: GrainWrapper.grains")],
     observe=["GrainWrapper.grains()"])

prop("C22", "H.264 streams are split into pictures exactly, however they arrive",
     "Given a conforming H.264 byte stream, the wrapper's grains concatenate to the stream, each grain holds exactly one coded picture with the parameter sets that precede "
     "it, the unit offsets are the positions of its NAL units, and key-frame, size, rate and coding metadata equal those in the stream, "
     "independent of how the stream is chunked by reads.",
     ["inputs", "schedules"],
     "All streams an independent bit-level generator of parameter sets and slice headers can emit, and all read chunkings.",
     "There are no tests of the H.264 path; start codes straddling reads and rarely used syntax elements need generated streams.",
     ["mediagrains/utils/h264_parser.py", "mediagrains/utils/h264_grain_wrapper.py"],
     [("NAL unit splitting and access unit detection", "mediagrains/utils/h264_parser.py: H264Parser"),
      ("parameter set parsing", "mediagrains/utils/h264_parser.py: _parse_sps/_parse_pps/slice header")],
     observe=["H264GrainWrapper.grains()", "H264Parser frames"])

prop("C23", "AAC ADTS streams are split into frames exactly, with the right properties",
     "Given a conforming ADTS stream, the parser reports each header's sample rate, channel count, profile and frame size as encoded. "
     "The wrapper's grains hold one whole frame each and concatenate to the stream, have the sample rate and channels of the first frame and the template's number of samples (1024 if it has none), and their origin and sync timestamps "
     "advance by exactly that many samples at a time, starting from the first instant of the frame rate at or after the template's start. Other metadata is the template's. "
     "Bytes that are not ADTS are refused with an error instead of being consumed as audio.",
     ["inputs"],
     "All ADTS headers and streams an independent generator can emit, with corruptions.",
     "One stored AAC file has one configuration; the header's bit fields take thousands of values.",
     ["mediagrains/utils/adts_aac_parser.py", "mediagrains/utils/adts_aac_grain_wrapper.py"],
     [("header bit-field parsing", "mediagrains/utils/adts_aac_parser.py"), ("frame reading", "mediagrains/utils/adts_aac_grain_wrapper.py")],
     observe=["ADTSAACParser", "ADTSAACGrainWrapper.grains()"])

prop("C24", "Asynchronous binary files behave like ordinary binary files",
     "For any sequence of reads, reads into buffers, writes, seeks (all three origins), tells and truncations, with whatever object holds the bytes, the asynchronous wrappers of byte buffers, real files and streams give the same "
     "results, contents and positions as Python's own binary files, and operations a wrapped object cannot do are refused rather than done wrongly. A class of one's own built on the base class gets the same from its primitive reads: exactly the size asked for, or EOFError.",
     ["histories", "inputs"],
     "All operation sequences on every wrapper kind, with short reads and non-seekable sources.",
     "File semantics are stateful (position, length, contents); the tests touch only reading through the GSF decoder.",
     ["mediagrains/utils/asyncbinaryio.py"],
     [("wrapper classes", "mediagrains/utils/asyncbinaryio.py")],
     state=[("position", "current offset of the wrapper", "mediagrains/utils/asyncbinaryio.py")],
     observe=["read/readinto/readall/write/seek/tell/truncate"])

prop("C25", "Lazily loaded payloads are indistinguishable from the bytes they stand for",
     "A lazily loaded byte range behaves in every operation it supports (length, truth, indexing, slicing, iteration, membership, comparison with bytes-like and other lazily loaded objects, hashing, conversion and all methods of bytes) "
     "exactly like the bytes at that position of the source; any other lazily loaded object likewise passes accesses through to the object. It reads the source at most once and only when contents are needed, and leaves the source's position where it was, including when loading fails.",
     ["inputs", "histories"],
     "All ranges, source contents, operation sequences and source positions.",
     "Each operator is a separate forwarding method; tests call a few once.",
     ["mediagrains/utils/iobytes.py"],
     [("operator forwarding", "mediagrains/utils/iobytes.py: LazyLoader/IOBytes")],
     observe=["IOBytes", "LazyLoader"])

prop("C26", "The command line tools carry essence in and out of GSF without loss",
     "Wrapping raw video, raw audio, H.264 or AAC essence with the command line tools and extracting it again gives back the same bytes, "
     "the wrapped file carries the requested ids, rate and format, starts at the requested time where that is an instant of the rate, extraction by segment number takes exactly that segment's grains, an output file that exists is replaced, and the probe "
     "reports for each segment the identity, counts and time range the file really has.",
     ["inputs", "configurations"],
     "All essence lengths, formats, dimensions and option combinations, files and pipes.",
     "The tools have no tests at all.",
     ["mediagrains/tools/wrap_in_gsf.py", "mediagrains/tools/extract_from_gsf.py", "mediagrains/tools/_file_or_pipe.py"],
     [("argument handling and pumping", "mediagrains/tools/*.py")],
     observe=["output files", "standard output"])

prop("C27", "The published test-data strategies generate only and all grains asked for",
     "The property-testing strategies shipped for users produce valid grains of the requested type that honour every constraint passed "
     "(ids, timestamps, rate, duration, format, dimensions, samples, event data; as a value, a strategy, None or DONOTSET), with payloads of the size the format requires, survive a GSF round trip, and vary "
     "what is not constrained over the documented choices; grains drawn from a template equal it but for the payload, which ranges over what the format holds, and share nothing changeable with it.",
     ["inputs", "configurations"],
     "All constraint combinations on the grain strategies.",
     "A silently ignored constraint makes users' own property tests vacuous; the tests use the strategies without checking the constraints.",
     ["mediagrains/hypothesis/strategies.py"],
     [("strategy construction", "mediagrains/hypothesis/strategies.py")],
     observe=["drawn grains"])

out = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "properties.jsonl")
with open(out, "w") as f:
    for p in P:
        f.write(json.dumps(p) + "\n")
print(len(P), "properties")
