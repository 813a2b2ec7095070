#!/usr/bin/env python3
"""C20: runs the repository's script for recordings (decode_mcap.py) on generated recordings and compares what it prints
about each compressed message with what the C++ library decodes."""
import contextlib, ctypes, hashlib, io, json, mmap, os, random, re, struct, sys, time

HERE = os.path.dirname(os.path.abspath(__file__))
so, args = sys.argv[1], dict(zip(sys.argv[2::2], sys.argv[3::2]))
seed, shard, shards = int(args["--seed"]), int(args.get("--shard", 0)), int(args.get("--shards", 1))
only = args.get("--case")
begin, tier, budget = int(args.get("--begin", 0)), args["--tier"], float(args["--budget"])
sys.dont_write_bytecode = True
sys.path.insert(0, os.path.join(HERE, "shim"))
sys.path.insert(0, os.path.join(os.environ["VERIF_REPO_DIR"], "cloudini_py"))
import numpy as np
import wasmtime
import mcap.reader
from mcap.reader import Obj

lib = ctypes.CDLL(so)
lib.vh_make.argtypes = [ctypes.c_uint64, ctypes.c_uint64, ctypes.c_int, ctypes.c_int]
lib.vh_call.argtypes = [ctypes.c_int, ctypes.c_uint64, ctypes.c_uint32, ctypes.c_uint64]
lib.vh_call.restype = ctypes.c_int64
lib.vh_what.restype = ctypes.c_char_p
for f in (lib.vh_msg, lib.vh_head, lib.vh_data):
    f.restype = ctypes.c_void_p
    f.argtypes = [ctypes.POINTER(ctypes.c_uint64)]
wasmtime.LIB = lib
import decode_mcap

DTYPE = dict(FLOAT32="<f4", FLOAT64="<f8", INT8="i1", UINT8="u1", INT16="<i2", UINT16="<u2", INT32="<i4", UINT32="<u4",
             INT64="<i8", UINT64="<u8")
wasm_file = os.path.join(args["--dir"], "module.wasm")
with open(wasm_file, "wb") as f:
    f.write(b"\0asm\1\0\0\0")
mcap_file = os.path.join(args["--dir"], "a recording.mcap")
with open(mcap_file, "wb") as f:
    f.write(b"\x89MCAP0\r\n")


def grab(f):
    n = ctypes.c_uint64()
    p = f(ctypes.byref(n))
    return ctypes.string_at(p, n.value) if n.value else b""


out = open(args["--out"], "a")
counters, distinct, samples, violations = {}, set(), [], 0
prog = None
if args.get("--progress"):
    fd = os.open(args["--progress"], os.O_RDWR | os.O_CREAT, 0o600)
    os.ftruncate(fd, 512)
    prog = mmap.mmap(fd, 512)


def count(k, n=1):
    counters[k] = counters.get(k, 0) + n


def violate(idx, key, msg):
    global violations
    violations += 1
    if violations <= 20:
        out.write(json.dumps(dict(violation=1, case=idx, key=key, msg=msg)) + "\n")
        out.flush()


class Message:
    """one message of the recording and what the library makes of it"""

    def __init__(self, r, k):
        self.compressed = r.random() < 0.6
        self.topic = r.choice(["/points", "/lidar/front", "/a b", "/points"])
        self.time = r.randrange(0, 4 * 10**18) if r.random() < 0.2 else 1700000000 * 10**9 + r.randrange(10**12)
        self.fields, self.data, self.ok = [], b"", None
        if not self.compressed:
            self.msg = bytes(r.randrange(256) for _ in range(r.randrange(40)))
            self.schema = r.choice([None, Obj(id=2, name="sensor_msgs/msg/PointCloud2"), Obj(id=3, name="std_msgs/msg/String")])
            self.what = "another message"
            return
        self.schema = Obj(id=1, name=r.choice(["point_cloud_interfaces/msg/CompressedPointCloud2", "point_cloud_interfaces/CompressedPointCloud2"]))
        v = 0 if r.random() < 0.75 else r.randrange(1, 5)
        lib.vh_make(seed, k, v, 0)
        self.msg, head, self.data = grab(lib.vh_msg), grab(lib.vh_head), grab(lib.vh_data)
        self.what = lib.vh_what().decode("utf8", "replace")
        if head == b"skip":
            self.ok = None
        elif not head:
            self.ok = False
        else:
            items = head.split(b"\x1e")
            self.n, self.step = int(items[1]) * int(items[2]), int(items[3])
            self.fields = [l.split(b"\x1f") for l in items[6:-1]]
            names = [f[0] for f in self.fields]
            usable = names and self.data and len(set(names)) == len(names) and all(re.fullmatch(rb"[A-Za-z0-9_]+", n) for n in names)
            # an unusable corrupted header or an empty cloud may be reported either way
            self.ok = True if usable else None

    def first(self, order):
        """the first point, its fields in the order shown"""
        fs = sorted(self.fields, key=lambda f: order.index(f[0].decode()))
        dt = np.dtype(dict(names=[f[0].decode() for f in fs], formats=[DTYPE[f[2].decode()] for f in fs],
                           offsets=[int(f[1]) for f in fs], itemsize=self.step))
        return np.frombuffer(self.data, dtype=dt, count=1)[0]


def blocks(text):
    """the report of each message: its number and its lines"""
    res, cur = [], None
    for l in text.split("\n"):
        m = re.fullmatch(r"--- Message (\d+) ---", l)
        if m:
            cur = (int(m.group(1)), [])
            res.append(cur)
        elif l.startswith("=== Summary") or l.startswith("Reached max"):
            cur = None
        elif cur is not None:
            cur[1].append(l)
    return res


def one(i):
    r = random.Random("%d/%d" % (seed, i))
    ms = [Message(r, i * 16 + k) for k in range(r.choice([0, 1, 2, 3, 5, 9]))]
    ms.sort(key=lambda m: m.time)
    chans = {}
    for m in ms:
        chans.setdefault(m.topic, Obj(id=len(chans) + 1, topic=m.topic, message_encoding="cdr"))
    stats = Obj(message_count=len(ms), message_start_time=ms[0].time if ms else 0, message_end_time=ms[-1].time if ms else 0)
    kind = r.choice(["full", "full", "full", "no statistics", "no summary"])
    summary = None if kind == "no summary" else Obj(channels={c.id: c for c in chans.values()}, statistics=None if kind == "no statistics" else stats,
                                                    schemas={})
    rec = Obj(messages=[(m.schema, chans[m.topic], Obj(data=m.msg, log_time=m.time, publish_time=m.time, sequence=k)) for k, m in enumerate(ms)],
              summary=summary, read=0)
    mcap.reader.RECORDING = rec
    limit = r.choice([None, None, None, -1, 0, 1, 2, 4, 100])
    argv = ["decode_mcap.py", mcap_file, "--wasm", wasm_file] + ([] if limit is None else ["--max-messages", str(limit)])
    what = "recording of %d messages (%s), limit %s" % (len(ms), kind, limit)
    del wasmtime.Stats.problems[:]
    wasmtime.Stats.trap_on = set()
    if r.random() < 0.25:  # the module aborts in some messages
        wasmtime.Stats.trap_on = {m.msg for m in ms if m.compressed and m.msg and r.random() < 0.3}
    for m in ms:
        if m.compressed and m.msg in wasmtime.Stats.trap_on:
            m.ok, m.what = False, m.what + ", the module aborts"
            count("aborts_of_the_module")
    o, e = io.StringIO(), io.StringIO()
    old = sys.argv
    sys.argv = argv
    try:
        with contextlib.redirect_stdout(o), contextlib.redirect_stderr(e):
            rc = decode_mcap.main()
    except BaseException as x:
        return violate(i, "script-failed", "%s: %s, %s" % (type(x).__name__, x, what))
    finally:
        sys.argv = old
    for p in wasmtime.Stats.problems:
        violate(i, "memory", "%s (%s)" % (p, what))
    if rc:
        return violate(i, "script-failed", "returned %r, %s" % (rc, what))
    want = [m for m in ms if m.compressed]
    if limit is not None and limit >= 0:
        want = want[:limit]
    text = o.getvalue()
    got = blocks(text)
    if len(got) != len(want) or [g[0] for g in got] != list(range(1, len(want) + 1)):
        return violate(i, "script-messages", "reported the messages %s instead of %d, %s" % ([g[0] for g in got], len(want), what))
    m = re.search(r"^Messages parsed: (\d+)$", text, re.M)
    if not m or int(m.group(1)) != len(want):
        return violate(i, "script-messages", "%s instead of %d messages parsed, %s" % (m and m.group(1), len(want), what))
    for (num, lines), w in zip(got, want):
        here = "message %d, %s in a %s" % (num, w.what, what)
        kv = dict(l.strip().split(": ", 1) for l in lines if ": " in l)
        if kv.get("Topic") != w.topic:
            return violate(i, "script-topic", "topic %r instead of %r, %s" % (kv.get("Topic"), w.topic, here))
        t = kv.get("Timestamp", "")
        if not t.endswith("s") or abs(float(t[:-1]) - w.time / 1e9) > 0.0011 + w.time / 1e9 * 1e-15:
            return violate(i, "script-time", "time %s instead of %.3f, %s" % (t, w.time / 1e9, here))
        good = any("Decoded successfully" in l for l in lines)
        if w.ok is None:
            count("messages_either_way")
            continue
        if good != w.ok:
            return violate(i, "script-verdict", "%s, %s" % ("reported as decoded although the library refuses it" if good else "not decoded", here))
        if not good:
            if not any(l.startswith("Failed to decode") for l in lines):
                return violate(i, "script-verdict", "nothing is said about the failure, %s" % here)
            count("failures_reported")
            continue
        names, shown = [f[0].decode() for f in w.fields], kv.get("Fields", "").split(", ")
        if sorted(shown) != sorted(names):
            return violate(i, "script-fields", "fields %r instead of %r, %s" % (kv.get("Fields"), names, here))
        first = str(w.first(shown))
        if kv.get("First point") != first:
            return violate(i, "script-value", "first point %s instead of %s, %s" % (kv.get("First point"), first, here))
        ratio = w.n * w.step / len(w.msg)
        if kv.get("Compression ratio") != "%.2fx" % ratio:
            return violate(i, "script-ratio", "ratio %s instead of %.2f, %s" % (kv.get("Compression ratio"), ratio, here))
        distinct.add(struct.unpack("<Q", hashlib.blake2b(w.msg, digest_size=8).digest())[0])
        count("script_clouds_compared")
    count("recordings_without_summary" if kind != "full" else "recordings_with_summary")
    if limit is not None and limit >= 0:
        count("recordings_with_a_limit")
    if i % 101 == 3:
        samples.append(what)


ncases = 20000 if tier == "thorough" else 1600
evaluated = skipped = 0
t0 = time.time()
for i in range(ncases):
    if (i != int(only)) if only is not None else (i % shards != shard):
        continue
    if i < begin:
        continue
    if time.time() - t0 > budget:
        skipped += 1
        continue
    if prog:
        prog[:16] = struct.pack("<QQ", i, evaluated)
    one(i)
    evaluated += 1
    if prog:
        prog[:16] = struct.pack("<QQ", i, evaluated)
out.write(json.dumps(dict(stats=1, cases=evaluated, skipped=skipped, distinct=len(distinct), counters=counters, samples=samples[:4])) + "\n")
out.close()
with open(args["--hashes"], "wb") as f:
    f.write(b"".join(struct.pack("<Q", h) for h in distinct))
sys.exit(1 if violations else 0)
