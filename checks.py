"""Table of the checks: which workload drives which build, and what its evidence means."""

SAN_COMMON = ["-fno-omit-frame-pointer", "-fno-sanitize-recover=all"]
FLAVOURS = {
    # memory errors, undefined behaviour, leaks
    "asan": dict(cxx="clang++", flags=["-O1", "-fsanitize=address,undefined", "-fno-sanitize=alignment",
                                       "-fsanitize-address-use-after-return=always"] + SAN_COMMON),
    # data races, lock misuse
    "tsan": dict(cxx="clang++", flags=["-O1", "-fsanitize=thread", "-fno-omit-frame-pointer", "-DVH_NO_NEW"]),
    # as shipped: volume for the behavioural oracles
    "fast": dict(cxx="g++", flags=["-O2", "-DNDEBUG"]),
    # a 32-bit build without SSE intrinsics, like the WebAssembly module: size_t of 32 bits, scalar fallbacks
    "m32": dict(cxx="clang++", m32=True, flags=["-O1", "-fsanitize=address,undefined", "-fno-sanitize=alignment"] + SAN_COMMON),
}
# library source sets: files left out of cloudini_lib/src/*.cpp, files added
LIBSETS = {
    "core": (("pcl_conversion.cpp", "wasm_functions.cpp"), ()),
    "wasm": (("pcl_conversion.cpp",), ()),
    "pcl": (("wasm_functions.cpp",), ()),
    "ros": (("wasm_functions.cpp",), tuple("cloudini_ros/src/%s.cpp" % n for n in (
        "cloudini_publisher_plugin", "cloudini_subscriber_plugin", "cloudini_subscriber_pcl", "conversion_utils"))),
}
COMMON_ASSUMPTIONS = [
    "x86 little endian: 64 bits with SSE4.1, and for the codec also 32 bits without SSE intrinsics; big-endian and ARM machines cannot run here",
    "the 32-bit build uses stand-ins for LZ4 and ZSTD (the sandbox has only the 64-bit libraries)",
    "misaligned loads are accepted: UBSan's alignment check is off, the library reads fields at any offset",
]


def both(src, asan_salt=0, fast=True, m32=0, **kw):
    """m32: the share of the cases, in percent, to run in the 32-bit build as well"""
    ph = [dict(name="asan", src=src, flavour="asan", salt=asan_salt, **kw)]
    if fast:
        ph.append(dict(name="fast", src=src, flavour="fast", salt=asan_salt + 1, **kw))
    if m32:
        ph.append(dict(name="m32", src=src, flavour="m32", salt=asan_salt + 2, scale=m32, optional=True, **kw))
    return ph


HANG7 = {"quick": 40, "thorough": 90}
WRAP7 = ["-Wl,--wrap=" + f for f in ("pthread_mutex_lock", "pthread_mutex_unlock", "_ZNSt18condition_variable10notify_oneEv",
                                    "LZ4_compress_default", "ZSTD_compress")]

PCL_FLAGS = ["-isystem", "/usr/include/pcl-1.14", "-isystem", "/usr/include/eigen3"]
ROS_FLAGS = ["-I{VERIF}/harness/stubs_ros", "-I{REPO}/cloudini_ros/include"] + PCL_FLAGS

CHECKS = {
    "C01": dict(
        technique='round-trip monitor over generated clouds, under ASan+UBSan and at -O2',
        note='Every integer value of every generated cloud compared bit for bit after decoding; sampled, not exhaustive.',
        phases=both("checks/c01.cpp", m32=25),
        rule="distinct compressed streams (by content) that were decoded and whose integer columns were all compared",
        floors={"integer_values_compared": 1000000},
    ),
    "C02": dict(
        technique='error-bound monitor over generated clouds, under ASan+UBSan and at -O2',
        note='Every quantized value compared with the bound of half a resolution plus the rounding of its type; sampled.',
        phases=both("checks/c02.cpp", m32=25),
        rule="distinct compressed streams (by content) whose quantized columns were all compared with the error bound",
        floors={"quantized_values_compared": 1000000, "nan_values_compared": 10000},
    ),
    "C03": dict(
        technique='bit-equality monitor over generated clouds, under ASan+UBSan and at -O2',
        note='Every unquantized float compared bit for bit; sampled.',
        phases=both("checks/c03.cpp", m32=25),
        rule="distinct compressed streams (by content) whose unquantized float columns were all compared bit for bit",
        floors={"exact_float_values_compared": 1000000},
    ),
    "C04": dict(
        technique='structured fuzzing of payloads under ASan, UBSan, hang watchdog and a fresh-memory differential',
        note='Mutated, crafted and random payloads with exact-size buffers; any report, crash, hang or dependence on uninitialised memory fails the run. Uninitialised reads are seen only when they change the outcome.',
        phases=both("checks/c04.cpp", m32=25),
        rule="distinct (payload, description) pairs decoded under the memory, undefined-behaviour and hang monitors",
        floors={"decodes_refused": 20000, "decodes_completed": 5000},
        assumptions=["allocations above 768 MiB fail with bad_alloc, which counts as a reported error"],
    ),
    "C05": dict(
        technique='bound monitor with exact-size heap blocks under ASan',
        note='Clouds built to defeat prediction and compression, encoded into buffers of exactly the bound, larger and smaller; writes past the end are ASan reports.',
        phases=both("checks/c05.cpp", m32=25),
        rule="distinct compressed streams (by content) produced into buffers of exactly the bound, larger and smaller ones",
        floors={"encodes_into_caller_buffer": 1000, "small_buffers_refused": 1000},
    ),
    "C06": dict(
        technique='header round-trip monitor under ASan+UBSan',
        note='Random descriptions in both forms followed by arbitrary bytes; every attribute and the number of bytes consumed compared.',
        phases=both("checks/c06.cpp", m32=25),
        rule="distinct headers (by content) written and read back",
        floors={"text_headers": 10000, "binary_headers": 10000},
    ),
    "C07": dict(
        technique='ThreadSanitizer and ASan with injected delays and faults, byte differential against the unthreaded encoder',
        note='Delays at every lock, unlock, notify and compression; failing compressions and allocations; the order of synchronisation events is recorded, distinct orders are counted. Samples the schedules, does not enumerate them.',
        phases=[dict(name="tsan", src="checks/c07.cpp", flavour="tsan", salt=0, libs=WRAP7, hang=HANG7),
                dict(name="asan", src="checks/c07.cpp", flavour="asan", salt=1, libs=WRAP7, hang=HANG7)],
        rule="distinct orders of the synchronisation events (lock, unlock, notify, compress; caller or worker) seen in encodes "
             "whose bytes were compared with the unthreaded encoder",
        floors={"encodes_compared": 1500, "encoders_destroyed": 2500, "very_long_delays": 6},
    ),
    "C08": dict(
        technique='history differential: one long-lived object against fresh ones',
        note='Outcome of every call on a reused object compared with a fresh object, with failing calls in between and fresh memory filled with different bytes.',
        phases=both("checks/c08.cpp", m32=25),
        rule="distinct (history, stream) pairs compared with a fresh encoder or decoder",
        floors={"encodes_compared_with_a_fresh_encoder": 1000, "decodes_compared_with_a_fresh_decoder": 1000},
    ),
    "C09": dict(
        technique='reference codec in both directions and golden streams of the base release',
        note='An independent implementation of the layout reads what the library writes and writes what the library reads; 405 streams of the base release pin the old behaviour.',
        phases=both("checks/c09.cpp", m32=25, golden=True),
        rule="distinct streams decoded by both the library and the reference decoder",
        floors={"golden_streams": 800, "streams_read_by_the_reference": 4000, "streams_of_the_reference_v2": 500,
                "streams_of_the_reference_v5": 1000},
    ),
    "C10": dict(
        technique='truncation and splicing monitor',
        note='Every cut of small streams, sampled cuts of large ones, missing, repeated and added chunks, wrong counts, small outputs: each must be refused.',
        phases=both("checks/c10.cpp", m32=25),
        rule="distinct streams (by content) from which the incomplete and over-long variants were derived",
        floors={"refused_cut": 10000, "refused_missing_chunk": 100},
    ),
    "C11": dict(
        technique="message round trip read and written by an independent CDR implementation, under ASan+UBSan and at -O2",
        note="Both conversions checked attribute by attribute and by the fidelity oracle against an independent serializer; sampled.",
        phases=both("checks/c11.cpp", m32=25),
        rule="distinct (serialized message, configuration) pairs taken through both conversions",
        floors={"little_endian_messages": 3000, "big_endian_messages": 2000, "empty_clouds": 200, "organized_clouds": 200},
    ),
    "C12": dict(
        technique="structured fuzzing of serialized messages under ASan, UBSan, hang watchdog and a fresh-memory differential",
        note="Mutated lengths, counts, offsets and dimensions, every truncation of small messages, noise; any report, crash, hang or "
             "dependence on uninitialised memory fails the run.",
        phases=both("checks/c12.cpp", m32=25),
        rule="distinct byte strings taken through reading and one of the conversions",
        floors={"reached_stage_0": 10000, "reached_stage_2": 10000, "reached_stage_3": 10000},
        assumptions=["allocations above 768 MiB fail with bad_alloc, which counts as a reported error"],
    ),
    "C13": dict(
        technique="model-based monitor of the preprocessing, under ASan+UBSan and at -O2, also from several threads",
        note="The message after the call is compared byte for byte with a voxel model; coordinates are kept clear of voxel borders so "
             "that the model does not depend on how the rounding is written. Beyond +-2^20 steps the documented key wraps: not covered.",
        phases=both("checks/c13.cpp", m32=25),
        rule="distinct clouds (by content) preprocessed and compared with the model",
        floors={"clouds_with_triple": 10000, "points_dropped_duplicate": 100000, "points_dropped_non_finite": 10000,
                "clouds_to_be_left_alone": 2000, "second_passes": 2000},
    ),
    "C14": dict(
        technique="model-based monitor of the field list, then round trip and dropped-bytes differential, under ASan+UBSan and at -O2",
        note="The field list is compared with a model; encoding with it must reproduce the rest and ignore the bytes of dropped fields.",
        phases=both("checks/c14.cpp", m32=25),
        rule="distinct (field list, profile) pairs and streams encoded with the reduced list",
        floors={"profiles_applied": 20000, "fields_dropped": 10000, "encoded_with_reduced_fields": 8000},
    ),
    "C15": dict(
        technique="wrapper differential against the library under ASan+UBSan, with exact-size outputs and failing allocations",
        note="The exported functions are built natively (no Emscripten here) with 64-bit pointers; return value and bytes compared with "
             "the library's own operation for valid, inconsistent and corrupted inputs; outputs above 24 MiB are not tried.",
        phases=both("checks/c15.cpp", lib="wasm", m32=25),
        rule="distinct (message, compressed message) pairs taken through the eight functions, with four corrupted variants each",
        floors={"calls": 200000, "calls_with_failed_allocation": 10000, "outputs_larger_than_the_input": 500,
                "done_EncodePointcloudMessage": 2000, "done_EncodePointcloudData": 2000, "done_DecodeCompressedMessage": 2000,
                "done_ConvertCompressedMsgToPointCloud2Msg": 2000, "refused_DecodeCompressedMessage": 2000},
    ),
    "C16": dict(
        technique="round-trip monitor through the PCL interface and PCD files, under ASan+UBSan and at -O2",
        note="Typed, registered, generic and file clouds; values by the fidelity oracle, descriptions by the generator's own knowledge of "
             "the file. PCL's reader itself is trusted for text to number. Fields with a count other than one are not covered.",
        phases=both("checks/c16.cpp", lib="pcl", flags=PCL_FLAGS, libs=["-lpcl_io", "-lpcl_common"]),
        rule="distinct compressed streams (by content) made from PCL clouds and decoded back into PCL clouds",
        floors={"clouds_PointXYZ": 1000, "clouds_PointXYZI": 1000, "clouds_generic": 1500, "typed_decodes_of_foreign_streams": 1500,
                "pcd_headers_described": 1000, "pcd_binary": 400, "pcd_ascii": 150},
    ),
    "C17": dict(
        technique='two-canary differential on the output buffer',
        note='Decoding over two different backgrounds shows exactly which bytes were written; compared with the set of bytes of the fields asked for.',
        phases=both("checks/c17.cpp", m32=25),
        rule="distinct (stream, fields asked for) pairs decoded over two canaries",
        floors={"bytes_that_kept_the_callers_value": 10000, "fields_skipped": 1000},
    ),
    "C18": dict(
        technique="reference decoder reporting form and size of every column, compared with independently computed sizes",
        note="Sizes of all four forms are computed from the column without encoding it; sampled columns of 14 shapes and six types.",
        phases=both("checks/c18.cpp", m32=25),
        rule="distinct columns whose stored form was compared with the four sizes, and distinct payloads compared with version 4",
        floors={"columns_within_one_probe": 20000, "columns_longer_than_a_probe": 2000, "payloads_compared_with_version_4": 5000,
                "columns_in_form_0": 1000, "columns_in_form_1": 1000, "columns_in_form_2": 1000, "columns_in_form_3": 1000},
    ),
    "C19": dict(
        technique="the converter's own main() on generated recordings in a stand-in MCAP library, its output compared message by message, under ASan+UBSan and at -O2",
        note="The MCAP library is not installed: a stand-in with the same interface and contracts keeps the recordings, frees the memory of a "
             "message when the next one is read, and injects read and write failures. MCAP's own file format is outside; attachments are not "
             "covered.",
        phases=both("checks/c19.cpp", extra_src=["tools/bag_main.cpp", "tools/bag_lib.cpp"], flags=["-I{VERIF}/harness/stubs_mcap", "-I{REPO}/cloudini_lib/tools/include"]),
        rule="distinct recordings converted there and back, or refused, with every message, channel and schema compared",
        floors={"round_trips": 1000, "clouds_encoded": 2000, "clouds_decoded": 2000, "messages_copied": 2000, "requests_refused": 300,
                "bag_metadata_checked": 150},
    ),
    "C20": dict(
        technique="differential monitor of the Python decoder against the C++ library, over a guarded linear memory",
        note="The decoder's own code runs with a stand-in for the wasmtime package that calls the C functions built natively; "
             "the WebAssembly module itself cannot be built here. Sampled messages, valid and corrupted.",
        phases=[dict(name="python", src="py/c20_gen.cpp", flavour="fast", lib="wasm", python="py/c20_worker.py"),
                dict(name="script", src="py/c20_gen.cpp", flavour="fast", lib="wasm", python="py/c20_script.py", salt=5)],
        rule="distinct messages (by content) decoded by both and compared field by field",
        floors={"clouds_compared": 6000, "refused": 5000, "values_compared": 1000000, "clouds_larger_than_the_first_buffer": 3,
                "script_clouds_compared": 1000, "failures_reported": 100},
    ),
    "C21": dict(
        technique="random histories of values against a plain model, under ASan",
        note="After every step every live value is read completely and compared; use after free is an ASan report, aliasing of another "
             "value's memory is checked by address.",
        phases=both("checks/c21.cpp", m32=25),
        rule="distinct histories of copy, move, assignment, growth, erasure and rewriting",
        floors={"histories": 20000, "values_compared": 500000},
    ),
    "C22": dict(
        technique='refusal monitor under ASan, with valid encodes in between',
        note="Each kind of invalid request must throw without a sanitizer report, and the next valid encode must equal a fresh encoder's bytes.",
        phases=both("checks/c22.cpp", m32=25),
        rule="distinct refused requests and histories of refusals followed by valid encodes",
        floors={"bad_descriptions": 1000, "valid_encodes_after_refusals": 1000},
    ),
    "C23": dict(
        technique="structured fuzzing of headers and texts under ASan, UBSan, hang watchdog and a fresh-memory differential",
        note="Every cut, wrong magics and versions must be refused; mutated headers and texts must leave the sanitizers quiet.",
        phases=both("checks/c23.cpp", m32=25),
        rule="distinct byte strings read as a header or as a text",
        floors={"cut_refused": 100000, "magic_or_version_refused": 50000, "text_read": 10000, "text_refused": 10000, "bytes_read": 10000},
    ),
    "C24": dict(
        technique="ThreadSanitizer over 18 kinds of operations in 2 to 6 threads, results compared with the same operation run alone",
        note="The monitor's own clock is relaxed, so it adds no ordering that could hide a race. Samples the schedules.",
        phases=[dict(name="tsan", src="checks/c24.cpp", flavour="tsan", salt=0, lib="wasm", shards=4),
                dict(name="asan", src="checks/c24.cpp", flavour="asan", salt=1, lib="wasm", shards=4),
                dict(name="fast", src="checks/c24.cpp", flavour="fast", salt=2, lib="wasm", shards=4)],
        rule="distinct orders in which the operations of the threads began and ended",
        floors={"operations_overlapping_others": 8000},
    ),
    "C25": dict(
        technique="message histories through stand-in ROS interfaces, three senders to three receivers, under ASan+UBSan, TSan and at -O2",
        note="The plugins, the PCL subscriber and the topic converter are built against stand-ins for the ROS classes; every message that "
             "arrives is compared, malformed ones must be refused without an exception leaving the callback. PCL's allocator and ROS itself "
             "are outside.",
        phases=both("checks/c25.cpp", lib="ros", flags=ROS_FLAGS, libs=["-lpcl_io", "-lpcl_common"])
        + [dict(name="tsan", src="checks/c25.cpp", flavour="tsan", salt=2, lib="ros", flags=ROS_FLAGS, libs=["-lpcl_io", "-lpcl_common"])],
        rule="distinct histories of published messages whose deliveries by all receivers were compared",
        floors={"delivered_by_the_plugin": 5000, "delivered_by_the_pcl_subscriber": 5000, "delivered_by_the_converter": 5000,
                "refused_by_the_plugin": 500, "empty_clouds": 100, "bad_clouds": 500, "kept_clouds_checked": 10000,
                "delivered_to_other_threads": 5000},
    ),
    "C26": dict(
        technique="the converter's own main() in a child process per case, its files decoded and compared, under ASan+UBSan and at -O2",
        note="Options, file kinds and faults (unreadable input, unwritable and size-limited output) are generated; exit status, input file and "
             "output file are checked. PCL's reader is trusted for text to number. In batch mode the exit status is not constrained.",
        phases=both("checks/c26.cpp", extra_src=["tools/pcd_main.cpp"], lib="pcl", flags=PCL_FLAGS, libs=["-lpcl_io", "-lpcl_common"]),
        rule="distinct output files (by content) decoded and compared, and distinct refused requests",
        floors={"single_conversions": 500, "batch_conversions": 100, "overwrites_declined": 30},
    ),
    "C27": dict(
        technique="the tools' own main() on generated recordings in a stand-in MCAP library, output compared, under ASan+UBSan and at -O2",
        note="Same stand-in for the MCAP library as C19: its file format is outside. The text of the report is compared line by line.",
        phases=[dict(name=f"{tool}-{fl}", src="checks/c27.cpp", flavour=fl, salt=i, extra_src=[f"tools/{tool}_main.cpp"],
                     flags=["-I{VERIF}/harness/stubs_mcap", "-I{REPO}/cloudini_lib/tools/include"])
                for i, (tool, fl) in enumerate((t, f) for t in ("cutter", "inspector") for f in ("asan", "fast"))],
        rule="distinct recordings cut or described, or refused, with all messages, channels or lines compared",
        floors={"recordings_cut": 500, "recordings_described": 300, "messages_kept": 1000, "messages_cut_off": 300, "requests_refused": 300},
    ),
    "C28": dict(
        technique="monitor of the Foxglove converter under Node over a watched WebAssembly memory, with failing and growing memory",
        note="The extension's own sources run with a stand-in for the WebAssembly module: its functions are the C functions built natively, "
             "working on a WebAssembly.Memory that grows and whose bytes outside of the allocated blocks are checked after every message.",
        phases=[dict(name="node", src="js/addon.cpp", flavour="fast", lib="wasm", node="js/c28.mjs", flags=["-I/usr/include/node"])],
        rule="distinct messages (by content and attributes) converted and compared with what the library decodes",
        floors={"clouds_converted": 5000, "refused": 3000, "failed_because_of_a_fault": 300, "growths_of_the_memory": 1000, "loads": 300},
    ),
    "C29": dict(
        technique="monitor of the web page under Node: a small document, stand-in recordings, a watched and failing WebAssembly memory",
        note="The page's own script runs; the MCAP reader and the browser are stand-ins, the compression is the C function built natively. "
             "Names with markup, damaged recordings, several recordings on one page, failing allocations and aborting calls are generated.",
        phases=[dict(name="node", src="js/addon.cpp", flavour="fast", lib="wasm", node="js/c29.mjs", flags=["-I/usr/include/node"])],
        rule="distinct reports (by text) whose every number was compared with the recording",
        floors={"recordings_with_clouds": 700, "messages_compressed": 5000, "channels_shown": 1500, "failures_reported": 100,
                "recordings_without_clouds": 100},
    ),
    "C30": dict(
        technique="the codec benchmark's own main() on generated recordings, every figure recomputed, under ASan+UBSan and at -O2",
        note="Same stand-in for the MCAP library as C19. The speeds are only looked at for being there: time is not judged.",
        phases=[dict(name=fl, src="checks/c30.cpp", flavour=fl, extra_src=["tools/benchmark_main.cpp"],
                     flags=["-I{VERIF}/harness/stubs_mcap", "-I{REPO}/cloudini_lib/tools/include"]) for fl in ("asan", "fast")],
        rule="distinct recordings and options whose every figure was compared with an own measurement, or that were refused",
        floors={"recordings_measured": 600, "topics_reported": 900, "fingerprints": 90, "requests_refused": 200, "topics_explained": 50},
    ),
}

NOT_APPLICABLE = {}
