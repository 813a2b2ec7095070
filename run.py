#!/usr/bin/env python3
"""Runs the monitor of one property against /repo's working tree.

  run.py <ID>                 quick tier (or $VERIF_TIER)
  run.py <ID> --tier thorough
  run.py <ID> --replay FILE   runs again the case recorded in a replay file
  run.py --list / --prebuild

exit 0: held on everything explored; 1: VIOLATION lines printed; 2: the check itself could not run.
"""
import concurrent.futures, glob, hashlib, json, mmap, os, re, shlex, shutil, signal, struct, subprocess, sys, tempfile, time

VERIF = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get("VERIF_REPO", "/repo")
BUILD = os.path.join(VERIF, "build")
EVID = os.environ.get("VERIF_EVID", os.path.join(VERIF, "evidence"))
FIRST = bool(os.environ.get("VERIF_FIRST"))    # for tools/mutate.py: stop at the first violation
LIMIT = float(os.environ.get("VERIF_BUDGET", 0))  # likewise: seconds per phase
NPROC = os.cpu_count() or 4
sys.path.insert(0, VERIF)
from checks import CHECKS, FLAVOURS, COMMON_ASSUMPTIONS, LIBSETS  # noqa: E402


class HarnessError(Exception):
    pass


# ---------------------------------------------------------------- building
def sh(cmd, timeout=600):
    return subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, timeout=timeout)


def file_hash(paths):
    h = hashlib.sha256()
    for p in sorted(paths):
        h.update(p.encode())
        with open(p, "rb") as f:
            h.update(f.read())
    return h.hexdigest()


def header_files():
    out = []
    for root in (os.path.join(REPO, "cloudini_lib"), os.path.join(REPO, "cloudini_ros"), os.path.join(VERIF, "harness")):
        for d, dirs, files in os.walk(root):
            dirs[:] = [x for x in dirs if x not in ("build", ".git", "samples")]
            out += [os.path.join(d, f) for f in files if f.endswith((".hpp", ".h"))]
            if d.endswith(("tools/src", "cloudini_ros/src")):  # included by harnesses
                out += [os.path.join(d, f) for f in files if f.endswith(".cpp")]
    return out


_hdr = None


def obj_for(src, flags, cxx):
    global _hdr
    if _hdr is None:
        _hdr = file_hash(header_files())
    key = hashlib.sha256((_hdr + file_hash([src]) + " ".join([cxx] + flags)).encode()).hexdigest()[:24]
    return os.path.join(BUILD, "obj", os.path.basename(src) + "." + key + ".o")


def compile_one(src, flags, cxx):
    obj = obj_for(src, flags, cxx)
    if os.path.exists(obj):
        os.utime(obj)
        return obj
    os.makedirs(os.path.dirname(obj), exist_ok=True)
    tmp = obj + ".tmp%d" % os.getpid()
    r = sh([cxx] + flags + ["-c", src, "-o", tmp])
    if r.returncode != 0:
        raise HarnessError("compilation of %s failed:\n%s" % (src, r.stdout[-6000:]))
    os.rename(tmp, obj)
    return obj


def lib_sources(libset):
    skip, add = LIBSETS[libset]
    srcs = []
    for s in sorted(glob.glob(os.path.join(REPO, "cloudini_lib/src/*.cpp"))):
        if os.path.basename(s) not in skip:
            srcs.append(s)
    return srcs + [os.path.join(REPO, a) for a in add]


def includes():
    return ["-I" + os.path.join(REPO, "cloudini_lib/include"), "-I" + os.path.join(REPO, "cloudini_lib/src"),
            "-I" + os.path.join(VERIF, "harness"), "-I" + os.path.join(VERIF, "harness/stubs")]


# 32 bits with what the sandbox has: the 64-bit compiler and headers, the 32-bit runtime libraries, an entry point of ours
M32 = ["-m32", "-U__SSE__", "-nostdinc++", "-I" + os.path.join(VERIF, "harness/m32"), "-isystem", "/usr/include/c++/13",
       "-isystem", "/usr/include/x86_64-linux-gnu/c++/13", "-idirafter", "/usr/include/x86_64-linux-gnu"]


def build(src, flavour, libset="core", extra_flags=(), extra_libs=(), extra_src=(), shared=False, lib_flags=()):
    fl = FLAVOURS[flavour]
    base = ["-std=c++20", "-fPIC", "-g1", "-pthread"] + (M32 if fl.get("m32") else ["-msse4.1"]) + fl["flags"] + includes()
    base += [f.format(REPO=REPO, VERIF=VERIF) for f in extra_flags]
    own = [os.path.join(VERIF, "harness", s) for s in ([src] if isinstance(src, str) else src) + list(extra_src)]
    jobs = [(s, base) for s in own] + [(s, base + list(lib_flags)) for s in (lib_sources(libset) if libset else [])]
    with concurrent.futures.ThreadPoolExecutor(NPROC) as ex:
        objs = list(ex.map(lambda j: compile_one(j[0], j[1], fl["cxx"]), jobs))
    link = [fl["cxx"]] + fl["flags"] + ["-pthread"] + (["-shared"] if shared else []) + objs
    link += ["-llz4", "-lzstd"] + list(extra_libs)
    if fl.get("m32"):
        d = os.path.join(VERIF, "harness/m32")
        crt = [compile_one(os.path.join(d, s), ["-m32", "-fPIC"], "clang") for s in ("start.S", "shim.c")]
        crt.append(compile_one(os.path.join(d, "codecs.cpp"), base, fl["cxx"]))
        rt = os.path.join(sh(["clang", "-print-resource-dir"]).stdout.strip(), "lib/linux/libclang_rt.%s-i386.a")
        link = [fl["cxx"], "-m32", "-nostdlib", "-fuse-ld=lld"] + objs + crt + ["-Wl,--whole-archive"] + \
               [rt % a for a in ("asan", "asan_cxx", "asan_static")] + ["-Wl,--no-whole-archive", "-Wl,--export-dynamic", "-L/usr/lib32"] + \
               ["-l:" + l for l in ("libstdc++.so.6", "libm.so.6", "libc.so.6", "libgcc_s.so.1", "libdl.so.2", "libresolv.so.2")] + \
               ["-Wl,--dynamic-linker=/usr/lib32/ld-linux.so.2", "-Wl,-rpath,/usr/lib32"]
    name = "%s.%s.%s%s" % (os.path.basename(own[0]), flavour,
                           hashlib.sha256(" ".join(link).encode()).hexdigest()[:16], ".so" if shared else "")
    exe = os.path.join(BUILD, "bin", name)
    if not os.path.exists(exe):
        os.makedirs(os.path.dirname(exe), exist_ok=True)
        tmp = exe + ".tmp%d" % os.getpid()
        r = sh(link + ["-o", tmp])
        if r.returncode != 0:
            raise HarnessError("link failed:\n" + r.stdout[-4000:])
        os.rename(tmp, exe)
    os.utime(exe)
    return exe


def prune_build(limit=3 << 30):
    files = []
    for d in ("obj", "bin"):
        for f in glob.glob(os.path.join(BUILD, d, "*")):
            try:
                st = os.stat(f)
                files.append((st.st_mtime, st.st_size, f))
            except OSError:
                pass
    total = sum(f[1] for f in files)
    for m, s, f in sorted(files):
        if total < limit:
            break
        try:
            os.unlink(f)
        except OSError:
            pass
        total -= s


# ---------------------------------------------------------------- running workers
def read_progress(path):
    try:
        with open(path, "rb") as f:
            b = f.read(512)
        idx, done = struct.unpack("<QQ", b[:16])
        return idx, done, b[16:].split(b"\0")[0].decode("utf8", "replace")
    except Exception:
        return None, 0, ""


def env_for(flavour):
    e = dict(os.environ)
    e["ASAN_OPTIONS"] = "detect_leaks=1:exitcode=77:allocator_may_return_null=1:detect_stack_use_after_return=1:" \
                        "max_malloc_fill_size=0:handle_abort=1:strict_string_checks=1"
    e["UBSAN_OPTIONS"] = "print_stacktrace=1:halt_on_error=1:exitcode=77"
    e["TSAN_OPTIONS"] = "halt_on_error=1:exitcode=77:second_deadlock_stack=1:history_size=5:suppressions=" + os.path.join(VERIF, "harness/tsan.supp")
    e["LSAN_OPTIONS"] = "exitcode=78"
    return e


CRASH_MARKS = ("ERROR: AddressSanitizer", "WARNING: ThreadSanitizer", "runtime error:", "ERROR: LeakSanitizer",
               "terminate called", "FATAL: ThreadSanitizer")


def summarize(stderr):
    for l in stderr.splitlines():
        if any(m in l for m in CRASH_MARKS):
            return l.strip()[:300]
    for l in reversed(stderr.splitlines()):
        if l.strip():
            return l.strip()[:300]
    return ""


def unpacked_golden():
    """The contents of golden/streams.zst, for the programs that cannot decompress it."""
    import ctypes
    src = open(os.path.join(VERIF, "golden/streams.zst"), "rb").read()
    out = os.path.join(BUILD, "golden." + hashlib.sha256(src).hexdigest()[:16])
    if not os.path.exists(out):
        z = ctypes.CDLL("libzstd.so.1")
        z.ZSTD_getFrameContentSize.restype = ctypes.c_ulonglong
        z.ZSTD_decompress.restype = ctypes.c_size_t
        n = z.ZSTD_getFrameContentSize(src, ctypes.c_size_t(len(src)))
        buf = ctypes.create_string_buffer(n)
        if z.ZSTD_decompress(buf, ctypes.c_size_t(n), src, ctypes.c_size_t(len(src))) != n:
            raise HarnessError("golden/streams.zst is damaged")
        with open(out + ".%d" % os.getpid(), "wb") as f:
            f.write(buf.raw)
        os.rename(out + ".%d" % os.getpid(), out)
    return out


class Worker:
    def __init__(self, exe, phase, shard, shards, seed, tier, scratch, budget, begin=0, only=None):
        self.exe, self.phase, self.shard, self.shards, self.seed, self.tier = exe, phase, shard, shards, seed, tier
        self.tag = "%s.%d.%d" % (phase["name"], shard, 0 if only is None else only + 1)
        self.out = os.path.join(scratch, "out." + self.tag)
        self.prog = os.path.join(scratch, "prog." + self.tag)
        self.hashes = os.path.join(scratch, "hash." + self.tag)
        self.err = os.path.join(scratch, "err." + self.tag)
        self.dir = os.path.join(scratch, "dir." + self.tag)
        os.makedirs(self.dir, exist_ok=True)
        self.cmd = [exe, "--seed", str(seed), "--tier", tier, "--out", self.out, "--progress", self.prog,
                    "--hashes", self.hashes, "--dir", self.dir, "--data", VERIF, "--budget", "%.0f" % budget, "--scale", str(phase.get("scale", 100))]
        if only is None:
            self.cmd += ["--shard", str(shard), "--shards", str(shards), "--begin", str(begin)]
        else:
            self.cmd += ["--case", str(only)]
        self.cmd = phase.get("wrap", []) + self.cmd
        if "node" in phase:  # a driver in JavaScript around an addon
            self.cmd = ["node", "--expose-gc", os.path.join(VERIF, "harness", phase["node"])] + self.cmd
        if "python" in phase:  # a driver in Python around a shared library
            self.cmd = ["python3-vt", os.path.join(VERIF, "harness", phase["python"])] + self.cmd
        self.p = None

    def start(self):
        e = env_for(self.phase["flavour"])
        e["VERIF_REPO_DIR"] = REPO
        e.update(self.phase.get("env", {}))
        if self.phase.get("golden") and FLAVOURS[self.phase["flavour"]].get("m32"):
            e["VH_GOLDEN"] = unpacked_golden()
        self.p = subprocess.Popen(self.cmd, stdout=subprocess.DEVNULL, stderr=open(self.err, "wb"), env=e,
                                  start_new_session=True)
        self.last, self.since = None, time.time()

    def kill(self):
        try:
            os.killpg(self.p.pid, signal.SIGKILL)
        except ProcessLookupError:
            pass
        self.p.wait()

    def stderr(self):
        with open(self.err, "rb") as f:
            return f.read()[-200000:].decode("utf8", "replace")

    def lines(self):
        try:
            with open(self.out) as f:
                res = []
                for l in f:
                    try:
                        res.append(json.loads(l))
                    except ValueError:
                        pass
                return res
        except OSError:
            return []


def run_workers(workers, hang_s, deadline):
    """Runs the workers to the end. Returns the list of (worker, status); status is an exit code, 'hang' or 'late'."""
    for w in workers:
        w.start()
    res, live = [], list(workers)
    while live:
        time.sleep(0.05)
        now = time.time()
        if FIRST and any(l.get("violation") for w in workers for l in w.lines()):
            for w in live:
                w.kill()
            return [(w, 1) for w in workers]
        for w in list(live):
            rc = w.p.poll()
            if rc is not None:
                res.append((w, rc))
                live.remove(w)
                continue
            idx, done, _ = read_progress(w.prog)
            cur = (idx, done)
            if cur != w.last:
                w.last, w.since = cur, now
            elif now - w.since > hang_s:
                w.kill()
                res.append((w, "hang"))
                live.remove(w)
            elif now > deadline:
                w.kill()
                res.append((w, "late"))
                live.remove(w)
    return res


def known_findings(prop):
    out = []
    path = os.path.join(VERIF, "known_findings.txt")
    if os.path.exists(path):
        for l in open(path):
            m = re.match(r"known: property=(\S+) key=(\S+) (.*)", l.strip())
            if m and m.group(1) == prop:
                out.append((m.group(2), m.group(3)))
    return out


def run_phase(prop, phase, tier, seed, scratch, acc, deadline):
    t0 = time.time()
    try:
        exe = build(phase["src"], phase["flavour"], phase.get("lib", "core"), phase.get("flags", ()),
                    phase.get("libs", ()), phase.get("extra_src", ()), shared="python" in phase or "node" in phase, lib_flags=phase.get("lib_flags", ()))
        if phase.get("optional") and subprocess.run([exe, "--scale", "0"], capture_output=True, timeout=60).returncode != 0:
            raise HarnessError("it does not start")
    except (HarnessError, OSError, subprocess.TimeoutExpired) as e:
        if not phase.get("optional"):
            raise
        acc["notes"].append("phase %s left out: %s" % (phase["name"], str(e)[-300:]))
        return
    acc["build_s"] += time.time() - t0
    shards = phase.get("shards", NPROC)
    pseed = seed * 1000 + phase.get("salt", 0)
    budget = phase.get("budget", {"quick": 240, "thorough": 2400})[tier]
    budget = LIMIT or budget
    hang = phase.get("hang", {"quick": 90, "thorough": 240})[tier]
    workers = [Worker(exe, phase, s, shards, pseed, tier, scratch, budget) for s in range(shards)]
    dl = min(deadline, time.time() + budget + 2 * hang)
    for w, st in run_workers(workers, hang, dl):
        idx, done, label = read_progress(w.prog)
        for l in w.lines():
            if l.get("violation"):
                acc["violations"].append(dict(key=l["key"], msg=l["msg"], case=l["case"], phase=phase["name"], seed=pseed))
            elif l.get("stats"):
                acc["evaluations"] += l["cases"]
                acc["skipped"] += l["skipped"]
                for k, v in l["counters"].items():
                    if k.startswith("max_"):
                        acc["counters"][k] = max(acc["counters"].get(k, 0), v)
                    else:
                        acc["counters"][k] = acc["counters"].get(k, 0) + v
                acc["samples"] += l["samples"]
        if os.path.exists(w.hashes):
            with open(w.hashes, "rb") as f:
                b = f.read()
            acc["distinct"].update(struct.unpack("<%dQ" % (len(b) // 8), b))
        if st in (0, 1):
            continue
        err = w.stderr()
        if st == "late":
            acc["skipped"] += 1
            acc["notes"].append("worker %s stopped at the time limit of the check" % w.tag)
            continue
        if st == "hang":
            # once more, alone on the machine, before calling it a hang
            again = Worker(exe, phase, 0, 1, pseed, tier, scratch, 1e6, only=idx)
            (_, st2), = run_workers([again], 2 * hang, time.time() + 2 * hang + 5)
            if st2 in ("hang", "late"):
                acc["violations"].append(dict(key="hang", msg="no end after %d s: %s" % (2 * hang, label), case=idx,
                                              phase=phase["name"], seed=pseed))
            else:
                acc["notes"].append("case %s was slow once, fine when run alone" % idx)
                if st2 not in (0, 1):
                    acc["violations"].append(dict(key="crash", msg=summarize(again.stderr()), case=idx,
                                                  phase=phase["name"], seed=pseed))
            continue
        if st == -signal.SIGKILL:
            raise HarnessError("worker killed from outside (memory?) at case %s: %s" % (idx, label))
        if st == 2 and not any(m in err for m in CRASH_MARKS):
            raise HarnessError("worker could not run: " + err[-2000:])
        key = "sanitizer" if any(m in err for m in CRASH_MARKS) else "crash"
        acc["violations"].append(dict(key=key, msg="%s (exit %s) while in %s" % (summarize(err), st, label), case=idx,
                                      phase=phase["name"], seed=pseed, report=err[-20000:]))
    acc["phases"].append(dict(name=phase["name"], flavour=phase["flavour"], workers=shards, wall_s=round(time.time() - t0, 1)))


def replay_file(prop, n, v):
    d = os.path.join(EVID, "replay")
    os.makedirs(d, exist_ok=True)
    path = os.path.join(d, "%s-%d.json" % (prop, n))
    with open(path, "w") as f:
        json.dump(dict(v, property=prop, how="/verif/run.py %s --replay %s" % (prop, path)), f, indent=1)
    return path


def run_check(prop, tier, seed, only_phase=None):
    chk = CHECKS[prop]
    t0 = time.time()
    deadline = t0 + (840 if tier == "quick" else 6 * 3600)
    acc = dict(violations=[], evaluations=0, skipped=0, counters={}, samples=[], distinct=set(), notes=[], phases=[], build_s=0.0)
    prune_build()
    for old in glob.glob(os.path.join(EVID, "replay", prop + "-*.json")):
        os.unlink(old)
    scratch = tempfile.mkdtemp(prefix="verif-%s-" % prop.lower())
    try:
        for phase in chk["phases"]:
            if only_phase and phase["name"] != only_phase:
                continue
            if FIRST and acc["violations"]:
                continue
            run_phase(prop, phase, tier, seed, scratch, acc, deadline)
    finally:
        shutil.rmtree(scratch, ignore_errors=True)
    known = known_findings(prop)
    fresh, seen_known = [], {}
    for v in acc["violations"]:
        for k, text in known:
            if v["key"] == k:
                seen_known[k] = text
                break
        else:
            fresh.append(v)
    # what the monitors must have seen for the run to mean anything
    for k, least in chk.get("floors", {}).items():
        have = acc["evaluations"] if k == "evaluations" else acc["counters"].get(k, 0)
        if have < least and not fresh and not acc["skipped"] and not only_phase:
            raise HarnessError("the workload did not reach its goal: %s = %d < %d" % (k, have, least))
    for k, text in known:
        print("KNOWN-FINDING: property=%s %s" % (prop, text))
    out, keys = [], {}
    for v in fresh:
        if keys.get(v["key"], 0) >= 3:
            continue
        keys[v["key"]] = keys.get(v["key"], 0) + 1
        out.append(v)
    for n, v in enumerate(out):
        path = replay_file(prop, n, v)
        print("%s [%s, case %s]: %s" % (v["key"], v["phase"], v["case"], v["msg"][:1500]))
        print("VIOLATION property=%s replay=%s" % (prop, path))
    cov = dict(evaluations=acc["evaluations"], distinct_nontrivial=len(acc["distinct"]), rule=chk["rule"],
               samples=acc["samples"][:8] or ["(none)"], observed=acc["counters"], phases=acc["phases"],
               skipped_for_time=acc["skipped"], build_s=round(acc["build_s"], 1))
    if acc["notes"]:
        cov["notes"] = acc["notes"]
    ev = dict(property=prop, tier=tier, seed=seed, level=chk.get("level", "exploration"), coverage=cov,
              wall_s=round(time.time() - t0, 2), violations=len(fresh),
              assumptions=COMMON_ASSUMPTIONS + chk.get("assumptions", []))
    os.makedirs(EVID, exist_ok=True)
    tmp = os.path.join(EVID, prop + ".json.tmp")
    with open(tmp, "w") as f:
        json.dump(ev, f, indent=1)
    os.rename(tmp, os.path.join(EVID, prop + ".json"))
    print("%s %s: %d cases, %d distinct, %d violations, %.1f s (build %.1f s)%s" % (
        prop, tier, acc["evaluations"], len(acc["distinct"]), len(fresh), time.time() - t0, acc["build_s"],
        ", %d skipped" % acc["skipped"] if acc["skipped"] else ""))
    return 1 if fresh else 0


def replay(prop, path):
    v = json.load(open(path))
    chk = CHECKS[prop]
    phase = next(p for p in chk["phases"] if p["name"] == v["phase"])
    exe = build(phase["src"], phase["flavour"], phase.get("lib", "core"), phase.get("flags", ()), phase.get("libs", ()),
                phase.get("extra_src", ()), shared="python" in phase or "node" in phase, lib_flags=phase.get("lib_flags", ()))
    scratch = tempfile.mkdtemp(prefix="verif-replay-")
    try:
        for attempt in range(phase.get("replay_attempts", 3)):
            w = Worker(exe, phase, 0, 1, v["seed"], v.get("tier", "quick"), scratch, 1e6, only=v["case"])
            print("$ " + " ".join(shlex.quote(c) for c in w.cmd))
            (_, st), = run_workers([w], 300, time.time() + 600)
            for l in w.lines():
                if l.get("violation"):
                    print(l["key"], l["msg"])
            if st != 0:
                print(w.stderr()[-8000:])
                print("VIOLATION property=%s replay=%s" % (prop, path))
                return 1
    finally:
        shutil.rmtree(scratch, ignore_errors=True)
    return 0


def main(argv):
    if "--list" in argv:
        print("\n".join(CHECKS))
        return 0
    if "--prebuild" in argv:
        return 0
    prop = argv[0]
    tier = os.environ.get("VERIF_TIER", "quick")
    if "--tier" in argv:
        tier = argv[argv.index("--tier") + 1]
    seed = int(os.environ.get("VERIF_SEED", "1"))
    if "--replay" in argv:
        return replay(prop, argv[argv.index("--replay") + 1])
    only = argv[argv.index("--phase") + 1] if "--phase" in argv else None
    return run_check(prop, tier, seed, only)


if __name__ == "__main__":
    try:
        sys.exit(main(sys.argv[1:]))
    except HarnessError as e:
        print("CHECK COULD NOT RUN: %s" % e)
        sys.exit(2)
