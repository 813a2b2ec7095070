#!/usr/bin/env python3
"""C20: runs the repository's Python decoder on generated messages and compares with what the C++ library decodes."""
import ctypes, hashlib, json, mmap, os, re, struct, sys, time

HERE = os.path.dirname(os.path.abspath(__file__))
so, args = sys.argv[1], dict(zip(sys.argv[2::2], sys.argv[3::2]))
seed, shard, shards = int(args["--seed"]), int(args.get("--shard", 0)), int(args.get("--shards", 1))
only = args.get("--case")
begin, tier, budget = int(args.get("--begin", 0)), args["--tier"], float(args["--budget"])
sys.dont_write_bytecode = True
sys.path.insert(0, os.path.join(HERE, "shim"))
sys.path.insert(0, os.path.join(os.environ["VERIF_REPO_DIR"], "cloudini_py"))
import numpy as np
import wasmtime
lib = ctypes.CDLL(so)
lib.vh_make.argtypes = [ctypes.c_uint64, ctypes.c_uint64, ctypes.c_int, ctypes.c_int]
lib.vh_call.argtypes = [ctypes.c_int, ctypes.c_uint64, ctypes.c_uint32, ctypes.c_uint64]
lib.vh_call.restype = ctypes.c_int64
lib.vh_what.restype = ctypes.c_char_p
for f in (lib.vh_msg, lib.vh_head, lib.vh_data):
    f.restype = ctypes.c_void_p
    f.argtypes = [ctypes.POINTER(ctypes.c_uint64)]
wasmtime.LIB = lib
import cloudini_decoder

wasm_file = os.path.join(args["--dir"], "module.wasm")
with open(wasm_file, "wb") as f:
    f.write(b"\0asm\1\0\0\0")

DTYPE = dict(FLOAT32="<f4", FLOAT64="<f8", INT8="i1", UINT8="u1", INT16="<i2", UINT16="<u2", INT32="<i4", UINT32="<u4",
             INT64="<i8", UINT64="<u8")


def grab(f):
    n = ctypes.c_uint64()
    p = f(ctypes.byref(n))
    return ctypes.string_at(p, n.value) if n.value else b""


out = open(args["--out"], "a")
counters, distinct, samples, violations = {}, set(), [], 0
prog = None
if args.get("--progress"):
    fd = os.open(args["--progress"], os.O_RDWR | os.O_CREAT, 0o600)
    os.ftruncate(fd, 512)
    prog = mmap.mmap(fd, 512)


def count(k, n=1):
    counters[k] = counters.get(k, 0) + n


def violate(idx, key, msg):
    global violations
    violations += 1
    if violations <= 20:
        out.write(json.dumps(dict(violation=1, case=idx, key=key, msg=msg)) + "\n")
        out.flush()


def clean(names):
    return len(set(names)) == len(names) and all(re.fullmatch(rb"[A-Za-z0-9_]+", n) for n in names)


def compare(idx, what, valid, head, want, res):
    arr, info = res
    items = head.split(b"\x1e")
    fields = [l.split(b"\x1f") for l in items[6:-1]]
    names = [f[0] for f in fields]
    if not valid and not clean(names):
        count("corrupted_with_unusable_names")
        return
    version, width, height, step = (int(x) for x in items[:4])
    top = dict(version=version, width=width, height=height, point_step=step, encoding_opt=items[4].decode(),
               compression_opt=items[5].decode())
    for k, v in top.items():
        if k not in info or info[k] != v or isinstance(info[k], str) != isinstance(v, str):
            return violate(idx, "header", "%s is %r instead of %r, %s" % (k, info.get(k), v, what))
    if len(info.get("fields", [])) != len(fields):
        return violate(idx, "header", "%d fields instead of %d, %s" % (len(info.get("fields", [])), len(fields), what))
    for g, (name, off, typ, reso) in zip(info["fields"], fields):
        if g.get("name") != name.decode() or g.get("offset") != int(off) or g.get("type") != typ.decode():
            return violate(idx, "header", "field %r instead of %r, %s" % (g, (name, off, typ), what))
        wr = float.fromhex(reso.decode()) if reso else None
        gr = g.get("resolution", "missing")
        if (wr is None) != (gr is None) or (wr is not None and not np.float32(gr) == np.float32(wr)):
            return violate(idx, "header", "resolution %r instead of %r, %s" % (gr, wr, what))
    n = width * height
    if arr.dtype.names is None:
        if valid and fields:
            return violate(idx, "untyped", "an array without fields, %s" % what)
        if arr.size != n * step:
            return violate(idx, "shape", "%d bytes instead of %d, %s" % (arr.size, n * step, what))
        count("untyped_results")
        return
    if arr.shape != (n,):
        return violate(idx, "shape", "shape %s instead of %d points, %s" % (arr.shape, n, what))
    if len(arr.dtype.names) != len(names):
        return violate(idx, "fields", "the array has the fields %s, %s" % (arr.dtype.names, what))
    offs = [arr.dtype.fields[k][1] for k in arr.dtype.names]
    if offs != sorted(offs):
        return violate(idx, "order", "the fields %s are at the offsets %s, %s" % (arr.dtype.names, offs, what))
    raw = np.frombuffer(want, dtype=np.uint8).reshape(n, step) if n and step else None
    for name, off, typ, _ in fields:
        dt = np.dtype(DTYPE[typ.decode()])
        key = name.decode()
        if key not in arr.dtype.names:
            return violate(idx, "fields", "field %s is missing, %s" % (key, what))
        if arr.dtype[key] != dt:
            return violate(idx, "type", "field %s has the type %s instead of %s, %s" % (key, arr.dtype[key], dt, what))
        if raw is None:
            continue
        w = raw[:, int(off):int(off) + dt.itemsize]
        g = np.ascontiguousarray(arr[key]).view(np.uint8).reshape(n, dt.itemsize)
        if not np.array_equal(w, g):
            p = int(np.nonzero((w != g).any(axis=1))[0][0])
            return violate(idx, "value", "point %d, field %s: %s instead of %s, %s" % (p, key, bytes(g[p]).hex(), bytes(w[p]).hex(), what))
        count("values_compared", n)
    count("clouds_compared")


BIG = 211
ncases = 60000 if tier == "thorough" else 6000
evaluated = skipped = 0
t0 = time.time()
dec = None
for i in range(ncases):
    if (i != int(only)) if only is not None else (i % shards != shard):
        continue
    if i < begin:
        continue
    if time.time() - t0 > budget:
        skipped += 1
        continue
    if prog:
        prog[:16] = struct.pack("<QQ", i, evaluated)
    if dec is None or i % 64 < shards:  # several clouds per decoder
        dec = cloudini_decoder.CloudiniDecoder(wasm_file)
        inst = wasmtime.Instance.last
        count("decoders")
    if i % 1500 == 5:  # a long history in a small memory
        d2 = cloudini_decoder.CloudiniDecoder(wasm_file)
        wasmtime.Instance.last.arena.limit = 128 << 20
        for k in range(700):
            lib.vh_make(seed, i, 0, 2)
            msg, head, want, what = grab(lib.vh_msg), grab(lib.vh_head), grab(lib.vh_data), lib.vh_what().decode("utf8", "replace")
            try:
                res = d2.decode_message(msg, False)
            except Exception as e:
                violate(i, "history", "message %d of a long history: %s: %s, %s" % (k, type(e).__name__, e, what))
                break
            if k % 100 == 0:
                compare(i, what, True, head, want, res)
            count("messages_of_long_histories")
        del d2, res
    order = [0] + list(range(1, 5))
    big = i % (50 * shards) // shards == 7 and i % 3 == 0
    if big:
        order = [0]
    for v in order + [0]:  # the valid message again, after the corrupted ones
        lib.vh_make(seed, i, v, int(big))
        msg, head, want, what = grab(lib.vh_msg), grab(lib.vh_head), grab(lib.vh_data), lib.vh_what().decode("utf8", "replace")
        if prog:
            w = what.encode()[:490]
            prog[16:16 + len(w) + 1] = w + b"\0"
        if head == b"skip":
            count("too_large_to_try")
            continue
        del wasmtime.Stats.problems[:]
        res = err = None
        try:
            res = dec.decode_message(msg, False)
        except Exception as e:
            err = e
        for p in wasmtime.Stats.problems:
            violate(i, "memory", "%s (%s)" % (p, what))
        if res is None:
            if head and want and v == 0:
                violate(i, "valid-refused", "%s: %s, %s" % (type(err).__name__, err, what))
            elif head and want:
                items = head.split(b"\x1e")
                names = [l.split(b"\x1f")[0] for l in items[6:-1]]
                if names and clean(names):
                    violate(i, "valid-refused", "%s: %s, %s" % (type(err).__name__, err, what))
            count("refused" if not head else "refused_empty_or_unusable")
            continue
        if not head:
            violate(i, "malformed-accepted", "a cloud of shape %s although the library refuses the message, %s" % (res[0].shape, what))
            continue
        distinct.add(struct.unpack("<Q", hashlib.blake2b(msg, digest_size=8).digest())[0])
        if len(want) > 32 << 20:
            count("clouds_larger_than_the_first_buffer")
        compare(i, what, v == 0, head, want, res)
        if v == 0 and i % 701 == 3:
            samples.append(what)
    if dec.memory.a.live.keys() - {dec.output_ptr}:
        count("blocks_left_allocated", len(dec.memory.a.live) - 1)
    evaluated += 1
    if prog:
        prog[:16] = struct.pack("<QQ", i, evaluated)
count("native_calls", wasmtime.Stats.calls)
out.write(json.dumps(dict(stats=1, cases=evaluated, skipped=skipped, distinct=len(distinct), counters=counters, samples=samples[:4])) + "\n")
out.close()
with open(args["--hashes"], "wb") as f:
    f.write(b"".join(struct.pack("<Q", h) for h in distinct))
sys.exit(1 if violations else 0)
