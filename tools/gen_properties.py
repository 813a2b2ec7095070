#!/usr/bin/env python3
"""Writes /verif/properties.jsonl. Edit here, then run."""
import json, os
P = []
L = "cloudini_lib/"
def prop(id, title, statement, over, text, why, files, mech, observe=None, state=None, hook=None):
    a = {"files": files, "mechanism": [{"name": n, "where": w} for n, w in mech]}
    if state: a["state"] = [{"name": n, "meaning": m, "where": w} for n, m, w in state]
    if observe: a["observe_at"] = observe
    a["hook_needed"] = hook
    P.append({"id": id, "title": title, "statement": statement,
              "quantifier": {"over": over, "text": text}, "why_tests_cant": why, "anchors": a})

SRC = L + "src/"
INC = L + "include/cloudini_lib/"
CORE = [SRC+"cloudini.cpp", SRC+"v4_codec.cpp", SRC+"v5_codec.cpp", SRC+"codec_common.cpp", SRC+"chunk_writer.cpp",
        SRC+"field_encoder.cpp", SRC+"field_decoder.cpp", INC+"field_encoder.hpp", INC+"field_decoder.hpp", INC+"encoding_utils.hpp"]

prop("C01", "Integer and byte columns survive encode/decode exactly",
 "Encoding any point cloud and decoding the result yields, for every point, exactly the original value of every 8-, 16-, 32- and 64-bit signed or unsigned integer field. This holds for every field layout (order, offsets, padding between fields), every first-stage encoding, every second-stage compression, threaded or not, every writable format version (3 to 5) and every cloud size, from one point to many chunks.",
 ["inputs", "configurations"],
 "all clouds (values, run structure, size), all layouts, all encoder configurations",
 "the tests round-trip a handful of hand-written columns with mostly UINT8/16/32 values in a dozen layouts; mode choice, palette width, run length, varint length and chunk-boundary behaviour depend on the data, which is unbounded",
 CORE, [("delta+varint integer codec", INC+"field_encoder.hpp FieldEncoderInt / encoding_utils.hpp encodeVarint64,decodeVarint"),
        ("adaptive integer sections (delta, palette, RLE, delta-RLE)", SRC+"v5_codec.cpp"),
        ("chunking", SRC+"cloudini.cpp PointcloudEncoder::encode / PointcloudDecoder::decode")],
 ["bytes of each integer field in the decoded buffer"])

prop("C02", "Lossy float error never exceeds half the resolution; NaN stays NaN",
 "In lossy mode, for every float field with a resolution, every finite value whose quantized magnitude fits the format comes back within half the resolution of the original (plus only the rounding of the floating-point type itself), and every NaN comes back as NaN. The bound holds independently for each point, also after NaNs, after large jumps, at chunk boundaries, for negative values, for any number and position of float fields, and after the stream's own header has been written and re-read.",
 ["inputs", "configurations"],
 "all finite values with |value/resolution| below 2^31 (packed leading floats) or 2^50 (individual fields), all resolutions, all layouts, NaN placements and chunkings",
 "the tests check one random walk of 3 or 4 floats with resolution 0.01 and the samples at 0.001; the error depends on value, resolution, NaN history and field position",
 CORE, [("packed 3/4-float quantizer", SRC+"field_encoder.cpp FieldEncoderFloatN_Lossy"), ("single-float quantizer", INC+"field_encoder.hpp FieldEncoderFloat_Lossy"),
        ("documented bound", INC+"basic_types.hpp PointField::resolution")], ["float fields of the decoded buffer"])

prop("C03", "Floats not subject to quantization are reproduced bit for bit",
 "In lossless mode, in no-encoding mode, and in lossy mode for float fields without a resolution, every 32- and 64-bit float comes back with the identical bit pattern, including negative zero, infinities, denormals and NaN payloads. This holds for every layout, compression, threading choice, writable version and cloud size.",
 ["inputs", "configurations"], "all bit patterns and sequences of bit patterns, all layouts and configurations",
 "the bit-packed codec has a window state that depends on leading/trailing zero counts of consecutive values; the tests try a few hundred values from smooth series",
 CORE, [("bit-packed XOR codec", INC+"field_encoder.hpp FieldEncoderFloat_Gorilla"), ("plain XOR codec", INC+"field_encoder.hpp FieldEncoderFloat_XOR"),
        ("raw copy", INC+"field_encoder.hpp FieldEncoderCopy")], ["float fields of the decoded buffer, compared as integers"])

prop("C04", "Decoding arbitrary compressed bytes is memory-safe and terminates",
 "Given any description of a cloud and any bytes claimed to be its compressed payload (corrupted, truncated, spliced, crafted), decoding into a buffer of the size the description declares either completes or fails with a reported error. It never reads or writes outside the supplied buffers, never executes undefined behaviour and never hangs.",
 ["inputs", "fault_sequences"], "all payload bytes for all cloud descriptions (any versions, field types, offsets, counts) that the decoder accepts as arguments",
 "the tests feed three malformed inputs; the hostile input space is unbounded and a memory error need not fail an assertion",
 CORE, [("bounds checks on chunk size, varints, palettes and runs", SRC+"v5_codec.cpp decodeV5AdaptiveIntSection, "+SRC+"v4_codec.cpp DecodeV4Stage1Chunk, "+INC+"encoding_utils.hpp decodeVarint"),
        ("decompression capacity", SRC+"codec_common.cpp DecompressChunk")], ["AddressSanitizer/UBSan reports, process exit, guard bytes"])

prop("C05", "The advertised size bound is a true bound and encoding stays inside it",
 "For every configuration and every cloud, the compressed size never exceeds the advertised worst-case size, so encoding into a buffer of exactly that size always succeeds. Encoding into a caller's buffer writes only within the number of bytes it reports having produced plus scratch inside the buffer, never beyond the buffer's end, and a buffer that is smaller than the bound is refused with an error without being written past its end.",
 ["inputs", "configurations"], "all clouds, especially incompressible and adversarially mode-switching data, all layouts, all compressions, chunk counts",
 "tests never compare the bound with adversarial data: an underestimate shows only for specific value sequences",
 [SRC+"cloudini.cpp", SRC+"codec_common.cpp", SRC+"v5_codec.cpp", SRC+"chunk_writer.cpp"],
 [("worst-case bound", SRC+"cloudini.cpp MaxCompressedSize"), ("per-field bound", SRC+"codec_common.cpp MaxSerializedFieldSize"), ("capacity check", SRC+"cloudini.cpp PointcloudEncoder::encode")],
 ["returned size vs bound; guard bytes behind the output buffer"])

prop("C06", "The stream header round-trips every cloud description",
 "Writing a cloud description as a header, in the text or the binary form, and reading it back yields the same version, dimensions, point size, options, and every field's name, offset, type and exact resolution. Exactly the header's bytes are consumed, whatever bytes follow and whatever the locale of the application, and the textual description alone parses back to the same description including its version.",
 ["inputs", "configurations"], "all dimensions and point sizes, all options, any number of fields, all field names that are ordinary identifiers (text form) or arbitrary strings (binary form), all positive finite float resolutions",
 "tests round-trip a few headers with short resolutions; the value space (every float, every 32-bit width) is far larger",
 [SRC+"cloudini.cpp", INC+"yaml_parser.hpp", INC+"cloudini.hpp"],
 [("header writer/reader", SRC+"cloudini.cpp EncodeHeader, DecodeHeader, EncodingInfoToYAML, EncodingInfoFromYAML"), ("text parser", INC+"yaml_parser.hpp")],
 ["decoded description vs original; bytes left after the header"])

prop("C07", "Threaded compression is race-free and identical to the unthreaded one",
 "With worker-thread compression enabled, an encoder produces exactly the bytes it produces with it disabled, for every cloud and every interleaving of caller and worker. There are no data races, no deadlocks and no lost chunks, destruction in any state terminates the worker, and no thread or memory is leaked.",
 ["schedules", "inputs", "histories"], "all schedules of the caller and worker threads, all numbers of chunks, all sequences of encodes, failures and destruction",
 "tests run a fixed schedule and never compare the two modes; races do not fail assertions",
 [SRC+"cloudini.cpp", INC+"cloudini.hpp"],
 [("double buffering with condition variables", SRC+"cloudini.cpp compressionWorker, waitForCompressionComplete, encode"), ("worker lifecycle", SRC+"cloudini.cpp PointcloudEncoder::PointcloudEncoder/~PointcloudEncoder")],
 ["ThreadSanitizer reports; output bytes of both modes; thread count of the process"],
 [("worker flags", "has_data/done/exit/failed flags under one mutex", INC+"cloudini.hpp PointcloudEncoder")])

prop("C08", "Encoders and decoders carry no history from one cloud to the next",
 "The bytes an encoder produces and the cloud a decoder produces depend only on the configuration and the current input, not on what the same object processed before, including calls that failed. Encoding the same input again yields the same bytes, and the caller's input is never modified.",
 ["histories", "inputs"], "all sequences of encode and decode calls on one object, of differing sizes, contents, descriptions, and including rejected or failing calls",
 "tests use a fresh object per case or repeat the same cloud",
 CORE, [("per-chunk state reset", SRC+"codec_common.cpp ResetEncoders/ResetDecoders, "+SRC+"v5_codec.cpp EncodeV5Stage1"), ("scratch buffer reuse", SRC+"cloudini.cpp ensureScratchBuffer"), ("worker respawn after failure", SRC+"cloudini.cpp PointcloudEncoder::encode")],
 ["bytes from reused object vs fresh object"])

prop("C09", "The wire format is stable across releases, versions 2 to 5",
 "Streams written by earlier releases in format versions 2, 3, 4 and 5, in every encoding and compression, still decode to the same clouds. Streams written now follow the published layout of their declared version exactly, so that an independent decoder written from that layout recovers the same cloud.",
 ["inputs", "configurations"], "all valid streams of the four versions (arbitrary mode choices, runs and palettes that a conforming writer may emit), all layouts",
 "tests decode only what the same build just encoded (one synthetic v3 case), so a symmetric change in writer and reader passes",
 CORE, [("version dispatch", SRC+"cloudini.cpp DecodeHeader, PointcloudDecoder::decode; "+SRC+"v5_codec.cpp UsesV5Codec; "+SRC+"codec_common.cpp CreateCompatibleDecoder"), ("chunk framing", SRC+"chunk_writer.cpp")],
 ["independent reference codec in /verif; committed golden streams"])

prop("C10", "Incomplete or over-long streams are rejected, never decoded silently",
 "Decoding a stream that has been cut short at any byte, that lacks a chunk or has one too many for the declared number of points, or whose output buffer is too small, is reported as an error rather than returning a partial cloud as if complete. A payload that still carries its header, an unsupported version or an unrecognised magic is refused.",
 ["inputs", "fault_sequences"], "every truncation point of every stream, every chunk insertion/removal, every declared point count that needs a different number of chunks",
 "one test drops one chunk; truncation points and layouts are unbounded",
 [SRC+"cloudini.cpp", SRC+"v4_codec.cpp", SRC+"v5_codec.cpp", SRC+"codec_common.cpp"],
 [("point accounting", SRC+"cloudini.cpp PointcloudDecoder::decode"), ("per-chunk truncation checks", SRC+"v4_codec.cpp DecodeV4Stage1Chunk, "+SRC+"v5_codec.cpp DecodeV5Stage1Chunk")],
 ["exception vs normal return"])

prop("C11", "ROS messages survive the compressed-message round trip",
 "Converting a serialized ROS point-cloud message to a compressed message and back yields a message with the same timestamp, frame, dimensions, field names, offsets and types, point size and density flag, whose point data obeys the fidelity rules of the codec; both messages are valid standard serializations readable by an independent reader. Empty clouds, organized clouds, any frame-id length, and both byte orders of the serialization are covered.",
 ["inputs", "configurations"], "all messages: header strings, dimensions, field lists, densities, byte order, encodings, compressions",
 "the test converts one recorded message; alignment depends on string lengths and field counts",
 [SRC+"ros_msg_utils.cpp", INC+"ros_msg_utils.hpp", INC+"contrib/nanocdr.hpp", "cloudini_ros/src/conversion_utils.cpp"],
 [("message reader/writer", SRC+"ros_msg_utils.cpp"), ("serialization with alignment and byte order", INC+"contrib/nanocdr.hpp")],
 ["serialized bytes, parsed by an independent reader"])

prop("C12", "Hostile serialized ROS messages are rejected without memory errors",
 "Given any bytes claimed to be a serialized point-cloud or compressed point-cloud message, reading, compressing or decompressing it either succeeds or fails with a reported error. It never reads or writes outside the message and its own output, never executes undefined behaviour, and never hangs.",
 ["inputs", "fault_sequences"], "all byte strings, in particular truncations, corrupted lengths, counts, offsets and dimensions of valid messages",
 "tests read one valid message", [SRC+"ros_msg_utils.cpp", INC+"contrib/nanocdr.hpp", SRC+"cloudini.cpp"],
 [("bounds checks of the serialization reader", INC+"contrib/nanocdr.hpp Decoder"), ("point count derived from data size", SRC+"ros_msg_utils.cpp convertPointCloud2ToCompressedCloud")],
 ["sanitizer reports, process exit"])

prop("C13", "Visualization preprocessing keeps exactly the first point of every voxel",
 "The visualization preprocessing outputs exactly the original bytes of those points that have finite coordinates and are the first in their voxel (grid of the coordinates' resolution), in the original order, as an unorganized cloud whose dimensions match, and gives every 64-bit float field without a resolution one microsecond. Clouds without a coordinate triple or without points are left untouched, and the outcome does not depend on earlier calls or other threads.",
 ["inputs", "histories"], "all clouds, field layouts, resolutions, non-finite placements, duplicate structures, repeated and concurrent calls, coordinates within the documented range",
 "no test covers it in this repository", [SRC+"ros_msg_utils.cpp", INC+"ros_msg_utils.hpp"],
 [("voxel hashing", SRC+"ros_msg_utils.cpp applyVizLossyPreprocessing, packVoxelKey21"), ("owned buffer", INC+"ros_msg_utils.hpp RosPointCloud2")],
 ["resulting message vs reference model"])

prop("C14", "A resolution profile drops and sets exactly the fields it names",
 "Applying a resolution profile removes exactly the fields given resolution zero, sets exactly the named remaining fields to the profile's value, gives the default resolution only to 32-bit float fields that are not named, and leaves every other attribute and the order unchanged. Encoding with the reduced field list still reproduces every remaining field at its original offset, and dropped fields do not affect the others.",
 ["inputs", "configurations"], "all field lists (duplicates, any types), all profiles and defaults, followed by encode/decode of all clouds",
 "no test covers it in this repository", [SRC+"ros_msg_utils.cpp", "cloudini_ros/src/conversion_utils.cpp"],
 [("profile application", SRC+"ros_msg_utils.cpp applyResolutionProfile")], ["field list after; decoded cloud"])

prop("C15", "The C/WebAssembly interface is a faithful, contained wrapper",
 "Each exported C function returns the result of the corresponding library operation: sizes equal the bytes actually produced, data decoded equals what the library decodes, encoded output is decodable and never exceeds the caller's input size, and size previews equal the real size. Every failure, including malformed input, is reported by returning 0: no exception or signal escapes, and nothing is written beyond the documented output size.",
 ["inputs", "fault_sequences"], "all inputs to the eight exported functions: valid, empty, mismatched and malformed messages, streams and textual headers",
 "no test exercises this interface", [SRC+"wasm_functions.cpp", INC+"wasm_functions.h"],
 [("exception barrier and size checks", SRC+"wasm_functions.cpp")], ["return values, output buffers with guard bytes"])

prop("C16", "PCL clouds round-trip field by field",
 "Encoding a PCL cloud (typed or generic) and decoding it yields a cloud of the same dimensions with every integer and colour field identical and every float field within half the resolution, for each supported point type, organized or not. Describing a cloud or a PCD file gives the fields, types, offsets and dimensions that the file or cloud really has.",
 ["inputs", "configurations"], "all PCL point types with registered fields, sizes, resolutions, stream layouts; PCD files with comments and any supported field types",
 "one test uses PointXYZI with 3 points and one sample PCD", [SRC+"pcl_conversion.cpp", INC+"pcl_conversion.hpp"],
 [("field mapping and offsets", SRC+"pcl_conversion.cpp"), ("typed decode", INC+"pcl_conversion.hpp PointcloudDecode")], ["decoded PCL clouds"])

prop("C17", "Decoding writes only the bytes of the fields asked for",
 "Decoding writes, within each point of the output, only the bytes of fields that the stream stores; bytes outside every field keep whatever the caller's buffer held, and nothing outside the declared cloud size is touched. A field marked to be skipped is consumed but not stored, in every format version and field type, and all other fields are unaffected by it.",
 ["inputs", "configurations"], "all layouts with gaps, all subsets of skipped fields, all field types and versions",
 "no test uses the skip feature or inspects gaps", CORE,
 [("skip marker", INC+"basic_types.hpp kDecodeButSkipStore; "+INC+"field_decoder.hpp; "+SRC+"v5_codec.cpp decodeV5AdaptiveIntSection")], ["pre-filled output buffer after decode; guard bytes"])

prop("C18", "The newest format stores each integer column in its smallest form",
 "For lossy clouds that fit one probe, the newest format stores every adaptive integer column in a form no larger than the smallest of its four layouts (delta, palette, run-length, delta-run-length), so its uncompressed-stage size never exceeds the sum of those minima plus the other fields and a fixed per-column and per-chunk overhead. The form chosen on the first probe is used for all later chunks, and clouds without such columns produce the same payload as the previous version.",
 ["inputs", "configurations"], "all integer columns and cloud sizes up to the probe length; all float-only lossy clouds",
 "the tests check four hand-made columns for the expected mode", [SRC+"v5_codec.cpp"],
 [("size estimates and mode selection", SRC+"v5_codec.cpp analyzeAdaptiveIntField, selectBestAdaptiveIntMode"), ("format dispatch", SRC+"v5_codec.cpp UsesV5Codec")], ["section mode bytes and sizes in the uncompressed stream, measured by an independent model"])

prop("C19", "The bag converter preserves every message and converts only point clouds",
 "Converting a recording to compressed form and back yields a recording with the same messages, in the same order per topic, with the same timestamps and sequence numbers; non-point-cloud messages are byte-identical and point-cloud messages satisfy the codec's fidelity rules. Every converted message is declared with the schema that matches its content, channels and metadata records are kept, and no message is lost, duplicated or attached to another topic. A conversion that fails, or meets damage in the recording, says so, and the input is never overwritten.",
 ["inputs", "histories"], "all recordings: mixes of schemas, topics and channels, message orders, empty clouds, profiles and encodings",
 "no test covers the converter", [L+"tools/src/mcap_converter.cpp", L+"tools/include/mcap_converter.hpp", SRC+"ros_msg_utils.cpp"],
 [("channel and schema remapping", L+"tools/src/mcap_converter.cpp")], ["messages written to an in-memory recording library"])

prop("C20", "The Python decoder returns the same cloud as the C++ library",
 "For every compressed message, the Python decoder returns the same header metadata and, for every field in the order of their offsets, the same values and types as the C++ library decodes, whatever it decoded before. It raises an error on malformed data instead of returning a cloud. The recording script decodes every compressed message of a recording in order, up to the number asked for, and says what it decoded.",
 ["inputs", "configurations"], "all streams: field types, gaps, sizes, encodings; malformed streams; recordings with and without summaries",
 "no test covers it in this repository", ["cloudini_py/cloudini_decoder.py", "cloudini_py/decode_mcap.py", SRC+"wasm_functions.cpp"],
 [("structured dtype built from the header", "cloudini_py/cloudini_decoder.py"), ("message parsing", "cloudini_py/cloudini_decoder.py")], ["NumPy arrays returned"])

prop("C21", "Message values copy and move like values",
 "A copied or moved point-cloud message value always refers to its own valid data: after any sequence of copies, moves, assignments (also to itself), rewrites and destructions of the values, each live value shows the same contents a plain value type would have, and none refers to freed or foreign owned memory.",
 ["histories"], "all sequences of copy/move construction and assignment, self-assignment, container growth and destruction, on values with and without owned data",
 "one test copies once", [INC+"ros_msg_utils.hpp"], [("view rebinding", INC+"ros_msg_utils.hpp RosPointCloud2")], ["contents read back through the view under AddressSanitizer"])

prop("C22", "Invalid requests are refused and leave the encoder usable",
 "Requests that cannot be honoured (data that is not a whole number of points, zero point size, field outside the point, unsupported field type, a version or encoding it cannot write, a resolution that is not positive and finite, too small output) are refused with an error before any out-of-bounds access. After a refusal the same encoder still encodes the next valid cloud correctly.",
 ["inputs", "histories"], "all invalid configurations and calls, interleaved with valid ones, threaded and not",
 "no test passes invalid arguments", [SRC+"cloudini.cpp", SRC+"codec_common.cpp"], [("argument checks", SRC+"cloudini.cpp PointcloudEncoder::encode, MaxCompressedSize")], ["exceptions, sanitizer reports, later outputs"])

prop("C23", "Reading arbitrary bytes as a header is safe and never misreports",
 "Given any bytes, reading a stream header or a textual description either yields a description or fails with a reported error, without reading outside the input, undefined behaviour or hang. Input with a wrong magic, an unsupported version or a header cut short at any byte is always an error.",
 ["inputs", "fault_sequences"], "all byte strings; all truncations and single-field corruptions of valid headers",
 "tests try two truncated inputs", [SRC+"cloudini.cpp", INC+"yaml_parser.hpp"], [("magic/version check and length checks", SRC+"cloudini.cpp DecodeHeader"), ("text parser", INC+"yaml_parser.hpp")], ["exception vs return, sanitizer reports"])

prop("C24", "Independent encoders and decoders may be used from many threads",
 "Distinct encoder, decoder and conversion calls running concurrently in different threads never race with each other and each produces the same result as when run alone.",
 ["schedules", "inputs"], "all interleavings of operations on distinct objects: encode, decode, header, message conversion, preprocessing",
 "tests are single-threaded callers", [SRC+"cloudini.cpp", SRC+"ros_msg_utils.cpp", SRC+"v5_codec.cpp"],
 [("no shared mutable state; thread-local scratch", SRC+"ros_msg_utils.cpp applyVizLossyPreprocessing")], ["ThreadSanitizer reports; results vs sequential run"])

prop("C25", "The ROS plugins publish and deliver the same cloud",
 "A cloud sent through the publisher plugin and received by the subscriber plugin, the PCL subscriber or the topic converter arrives with the same header, dimensions, fields and density, and with point data obeying the codec's fidelity rules for the configured resolution. A malformed compressed message, or a cloud that cannot be carried, is reported as an error or dropped and does not take the node down. A cloud given to a PCL callback stays valid and unchanged for as long as the user keeps it, also after the subscriber is destroyed.",
 ["inputs", "histories"], "all point-cloud messages and plugin parameters, sequences of messages, malformed messages",
 "the repository's plugin tests need ROS and are not run here", ["cloudini_ros/src/conversion_utils.cpp", "cloudini_ros/src/cloudini_publisher_plugin.cpp", "cloudini_ros/src/cloudini_subscriber_plugin.cpp", "cloudini_ros/src/cloudini_subscriber_pcl.cpp", "cloudini_ros/src/topic_converter.cpp"],
 [("message conversion", "cloudini_ros/src/conversion_utils.cpp")], ["messages delivered by stand-in ROS interfaces"])

prop("C26", "The PCD converter honours its options and preserves the cloud",
 "The PCD command-line converter writes a file that uses the requested encoding, compression and resolution and decodes to the input cloud within that resolution, with all integer fields exact. Bad arguments, unreadable input and unwritable output give a nonzero exit status when a single file is converted, and the input is never overwritten.",
 ["inputs", "configurations"], "all option combinations and PCD files (ASCII, binary, field sets)",
 "no test runs the tool", [L+"tools/src/pcd_to_cloudini_converter.cpp", SRC+"pcl_conversion.cpp"],
 [("option parsing and conversion", L+"tools/src/pcd_to_cloudini_converter.cpp")], ["output files, exit status"])

prop("C27", "Cutting and inspecting a recording report what is in it",
 "Cutting a recording yields exactly the first N point-cloud messages of every channel, for every N, byte-identical, in order, with the same topic, channel metadata, timestamps and sequence numbers, and nothing else. Inspecting a recording prints exactly the header of its first compressed cloud. Unreadable or damaged recordings, failing writes and clouds that cannot be parsed are reported, channels without a schema are accepted, and the input is never overwritten.",
 ["inputs", "fault_sequences"], "all recordings (mixes of schemas, channels, empty clouds, huge declared dimensions), limits, damaged inputs and failing writes",
 "no test runs the tools", [L+"tools/src/mcap_cutter.cpp", L+"tools/src/mcap_header_inspector.cpp"],
 [("message selection", L+"tools/src/mcap_cutter.cpp McapCutter::cut"), ("report", L+"tools/src/mcap_header_inspector.cpp main")], ["output recordings, printed reports, exit status"])

prop("C28", "The Foxglove converter delivers what the library decodes or an error",
 "A compressed message converted by the Foxglove extension carries the same header, dimensions, fields, point step and density, and exactly the bytes the library decodes from it, also after the module's memory has grown. Anything else (undecodable or inconsistent message, module not loaded, memory exhausted, abort) is an error thrown to the caller, never a cloud of wrong size, and a failed loading of the module is tried again. The module's memory is never written outside the converter's own blocks, and every block is freed.",
 ["inputs", "fault_sequences", "histories"], "all compressed messages (valid, damaged, mislabelled), module memory layouts, growths and failures, sequences of conversions",
 "no test runs the JavaScript", ["cloudini_foxglove/src/PointCloudConverter.tsx", "cloudini_foxglove/src/index.ts", SRC+"wasm_functions.cpp"],
 [("conversion and memory handling", "cloudini_foxglove/src/PointCloudConverter.tsx"), ("functions called", SRC+"wasm_functions.cpp")], ["converted messages, thrown errors, contents and blocks of the module's memory"])

prop("C29", "The web page reports what a recording holds and compresses to",
 "For every recording the web page shows exactly the channels that carry point clouds (identifier, topic, schema, encoding), the number of messages of each, and the original size, compressed size and ratio that the library achieves at 1 mm for those messages; messages that could not be compressed count in neither size. Texts from the recording appear as text, never as markup. Files that cannot be read and a module that cannot be loaded are reported without results, the page stays usable afterwards, and the module's memory is neither written outside the page's blocks nor leaked.",
 ["inputs", "fault_sequences", "histories"], "all recordings (mixes of schemas, channels sharing topics, hostile names), sequences of files, failures of reading, loading and allocation",
 "no test runs the page", ["cloudini_web/main.js", SRC+"wasm_functions.cpp"],
 [("analysis and report", "cloudini_web/main.js analyzeFile"), ("size computed", SRC+"wasm_functions.cpp cldn_ComputeCompressedSize")], ["the page's document, what the module was asked, contents and blocks of its memory"])

prop("C30", "The codec benchmark reports what it measured",
 "For every recording and every choice of options, the codec benchmark counts exactly the point-cloud messages it was asked to measure, per topic and in total, and reports for every mode the size and ratio that the library achieves for those it could encode, and a fingerprint that is the one of the decoded clouds. Messages that cannot be read or encoded, damage in the recording, bad arguments and unreadable files are reported, none aborts the tool, and the input is never changed. The explanation of a topic lists the fields, points and effect of the preprocessing of its first message.",
 ["inputs", "configurations", "fault_sequences"], "all recordings (mixes of schemas, channels sharing topics, malformed messages), all combinations of options, damaged files",
 "no test runs the tool", [L+"tools/src/mcap_codec_benchmark.cpp"],
 [("measuring loop and report", L+"tools/src/mcap_codec_benchmark.cpp main, printTable"), ("explanation", L+"tools/src/mcap_codec_benchmark.cpp explainOneMessage")], ["printed tables, warnings, fingerprint and exit status of the tool"])

out = os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "properties.jsonl")
with open(out, "w") as f:
    for p in P: f.write(json.dumps(p) + "\n")
print(len(P), "properties")
