"""Stand-in for the wasmtime package: the module's functions are the same C++ sources built natively, working on a
linear memory of their own. Addresses are offsets into that memory, as in WebAssembly. Every access from Python must lie
inside a block that is currently allocated, and every block is surrounded by guard bytes that are checked after each call."""
import ctypes

LIB = None  # set by the worker
SIZE = 1 << 30
GUARD = 64
MARK = b"\xc7" * GUARD


class OutOfBlock(Exception):
    pass


class Trap(Exception):
    """what wasmtime raises when the module aborts"""


class Stats:
    calls = 0
    problems = []
    trap_on = set()  # inputs for which the module aborts


class Arena:
    def __init__(self):
        import mmap
        self.mem = mmap.mmap(-1, SIZE)
        self.base = ctypes.addressof(ctypes.c_char.from_buffer(self.mem))
        self.live = {}  # offset -> size
        self.limit = SIZE

    def malloc(self, n):
        if n < 0 or n > SIZE:
            return 0
        # first fit between the live blocks
        at = 4096
        for o, s in sorted(self.live.items()):
            if o - GUARD - at >= n + 2 * GUARD:
                break
            at = (o + s + GUARD + 15) & ~15
        p = at + GUARD
        if p + n + GUARD > self.limit:
            return 0
        self.mem[p - GUARD:p] = MARK
        self.mem[p + n:p + n + GUARD] = MARK
        self.live[p] = n
        return p

    def free(self, p):
        if p and p not in self.live:
            Stats.problems.append("free() of %d, which is not allocated" % p)
            return
        self.live.pop(p, None)

    def check(self, where):
        for o, s in self.live.items():
            if self.mem[o - GUARD:o] != MARK or self.mem[o + s:o + s + GUARD] != MARK:
                Stats.problems.append("bytes around a block of %d bytes were changed by %s" % (s, where))
                self.mem[o - GUARD:o] = MARK
                self.mem[o + s:o + s + GUARD] = MARK

    def inside(self, a, n, what):
        for o, s in self.live.items():
            if o <= a and a + n <= o + s:
                return
        Stats.problems.append("%s of %d bytes at %d, outside every allocated block" % (what, n, a))
        raise OutOfBlock(what)


class Memory:
    def __init__(self, arena):
        self.a = arena

    def write(self, store, data, start=None):
        self.a.inside(start, len(data), "write")
        self.a.mem[start:start + len(data)] = bytes(data)

    def read(self, store, start=None, stop=None):
        self.a.inside(start, stop - start, "read")
        return bytearray(self.a.mem[start:stop])


def signed(v):  # i32 results are signed
    v &= 0xFFFFFFFF
    return v - (1 << 32) if v >> 31 else v


class Func:
    def __init__(self, store=None, ty=None, func=None):
        self.f = func

    def __call__(self, store, *args):
        return self.f(*args)


class _Exports(dict):
    pass


class Instance:
    def __init__(self):
        a = self.arena = Arena()
        Instance.last = self

        def native(which, name):
            def call(ptr, n, out=0):
                Stats.calls += 1
                if n != 0:
                    a.inside(ptr, n, name + ": input")
                if Stats.trap_on and bytes(a.mem[ptr:ptr + n]) in Stats.trap_on:
                    raise Trap("error while executing at wasm backtrace: unreachable")
                res = LIB.vh_call(which, a.base + ptr, n, a.base + out)
                if res < 0:
                    Stats.problems.append("an exception left " + name)
                    raise RuntimeError("wasm trap")
                a.check(name)
                return signed(res)
            return Func(func=call)

        self.e = _Exports({
            "memory": Memory(a), "malloc": Func(func=a.malloc), "free": Func(func=a.free),
            "cldn_DecodeCompressedMessage": native(0, "cldn_DecodeCompressedMessage"),
            "cldn_GetHeaderAsYAMLFromDDS": native(1, "cldn_GetHeaderAsYAMLFromDDS"),
            "cldn_GetDecompressedSize": native(2, "cldn_GetDecompressedSize"),
        })

    def exports(self, store):
        return self.e


class Config:
    pass


class Engine:
    def __init__(self, config=None):
        pass


class WasiConfig:
    def inherit_env(self): pass
    def inherit_stdin(self): pass
    def inherit_stdout(self): pass
    def inherit_stderr(self): pass
    def inherit_argv(self): pass


class Store:
    def __init__(self, engine=None):
        pass

    def set_wasi(self, w):
        pass


class Module:
    imports = []

    def __init__(self, engine, data):
        pass


class Linker:
    def __init__(self, engine):
        pass

    def define_wasi(self): pass
    def define(self, *a): pass

    def instantiate(self, store, module):
        return Instance()
