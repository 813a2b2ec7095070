// Reference codec: an independent implementation of the published wire format, versions 2 to 5, both directions.
// It shares no code with the library beyond the description types and the LZ4/ZSTD libraries.
#pragma once
#include <lz4.h>
#include <zstd.h>

#include "h_cloud.hpp"

namespace ref {
using namespace vh;

constexpr size_t kChunk = 32768;

struct Malformed : std::runtime_error {
  using std::runtime_error::runtime_error;
};

// ------------------------------------------------------------------ primitive values
inline void putU(Bytes& o, u128 v) {  // unsigned LEB128
  while (v > 0x7f) {
    o.push_back(uint8_t(v & 0x7f) | 0x80);
    v >>= 7;
  }
  o.push_back(uint8_t(v));
}
inline void putS(Bytes& o, int64_t v) {  // zig-zag, then +1 (0 is the NaN marker)
  const uint64_t z = v >= 0 ? uint64_t(v) * 2 : uint64_t(-(v + 1)) * 2 + 1;
  putU(o, (u128)z + 1);
}
inline size_t sizeU(u128 v) {
  size_t n = 1;
  while (v > 0x7f) {
    v >>= 7;
    ++n;
  }
  return n;
}
inline size_t sizeS(int64_t v) {
  const uint64_t z = v >= 0 ? uint64_t(v) * 2 : uint64_t(-(v + 1)) * 2 + 1;
  return sizeU((u128)z + 1);
}
template <class T>
inline void putRawT(Bytes& o, T v) {
  const uint8_t* p = reinterpret_cast<const uint8_t*>(&v);
  o.insert(o.end(), p, p + sizeof v);
}
inline void putBytes(Bytes& o, uint64_t v, size_t w) {
  for (size_t i = 0; i < w; ++i) o.push_back(uint8_t(v >> (8 * i)));
}

struct In {
  const uint8_t* p;
  const uint8_t* e;
  uint8_t byte() {
    if (p == e) throw Malformed("ends early");
    return *p++;
  }
  uint64_t bytes(size_t w) {
    uint64_t v = 0;
    for (size_t i = 0; i < w; ++i) v |= uint64_t(byte()) << (8 * i);
    return v;
  }
  u128 u() {
    u128 v = 0;
    for (int shift = 0;; shift += 7) {
      if (shift > 63) throw Malformed("varint too long");
      const uint8_t b = byte();
      v |= (u128)(b & 0x7f) << shift;
      if (!(b & 0x80)) return v;
    }
  }
  // false when it is the NaN marker
  bool s(int64_t& out) {
    const u128 v = u();
    if (v == 0) return false;
    const u128 z = v - 1;
    if (z >> 64) throw Malformed("varint out of range");
    const uint64_t h = uint64_t(z >> 1);
    out = (z & 1) ? -int64_t(h) - 1 : int64_t(h);
    return true;
  }
};

inline int64_t asI64(uint64_t raw, FieldType t) {
  switch (t) {
    case FieldType::INT8: return int8_t(raw);
    case FieldType::INT16: return int16_t(raw);
    case FieldType::INT32: return int32_t(raw);
    case FieldType::UINT8: return int64_t(uint8_t(raw));
    case FieldType::UINT16: return int64_t(uint16_t(raw));
    case FieldType::UINT32: return int64_t(uint32_t(raw));
    default: return int64_t(raw);
  }
}
inline int64_t wsub(int64_t a, int64_t b) { return int64_t(uint64_t(a) - uint64_t(b)); }
inline int64_t wadd(int64_t a, int64_t b) { return int64_t(uint64_t(a) + uint64_t(b)); }

// ------------------------------------------------------------------ how each field is stored
enum Kind { kCopy, kDelta, kQuantF, kQuantD, kXor, kGorilla, kGroup, kAdaptive };
inline Kind kindOf(const EncodingInfo& info, size_t k) {
  const auto& f = info.fields[k];
  if (info.encoding_opt == EncodingOptions::NONE) return kCopy;
  if (k < leadingGroup(info)) return kGroup;
  const bool lossy = info.encoding_opt == EncodingOptions::LOSSY;
  switch (f.type) {
    case FieldType::INT8: case FieldType::UINT8: return kCopy;
    case FieldType::FLOAT32:
      if (lossy && f.resolution) return kQuantF;
      return lossy ? kCopy : kXor;
    case FieldType::FLOAT64:
      if (lossy && f.resolution) return kQuantD;
      return (!f.resolution && info.version >= 4) ? kGorilla : kXor;
    default:
      return hasAdaptive(info) ? kAdaptive : kDelta;
  }
}

struct Gorilla {
  uint64_t prev = 0;
  int lead = -1, trail = 0;
  bool first = true;
};
struct BitsOut {
  Bytes& o;
  unsigned acc = 0;
  int held = 0;
  void put(uint64_t v, int n) {
    for (int i = 0; i < n; ++i) {
      acc |= unsigned((v >> i) & 1) << held;
      if (++held == 8) {
        o.push_back(uint8_t(acc));
        acc = 0;
        held = 0;
      }
    }
  }
  void align() {
    if (held) o.push_back(uint8_t(acc));
    acc = 0;
    held = 0;
  }
};
struct BitsIn {
  In& in;
  unsigned acc = 0;
  int held = 0;
  uint64_t get(int n) {
    uint64_t v = 0;
    for (int i = 0; i < n; ++i) {
      if (!held) {
        acc = in.byte();
        held = 8;
      }
      v |= uint64_t(acc & 1) << i;
      acc >>= 1;
      --held;
    }
    return v;
  }
};

inline void gorillaPut(Gorilla& g, uint64_t v, Bytes& o, bool reuse_windows) {
  BitsOut b{o};
  if (g.first) {
    g.first = false;
    b.put(v, 64);
  } else {
    const uint64_t x = v ^ g.prev;
    if (!x) {
      b.put(0, 1);
    } else {
      b.put(1, 1);
      const int lead = __builtin_clzll(x), trail = __builtin_ctzll(x);
      if (reuse_windows && g.lead >= 0 && lead >= g.lead && trail >= g.trail) {
        b.put(0, 1);
        b.put(x >> g.trail, 64 - g.lead - g.trail);
      } else {
        b.put(1, 1);
        const int sl = std::min(lead, 31);
        const int m = 64 - sl - trail;
        b.put(uint64_t(sl), 5);
        b.put(uint64_t(m - 1), 6);
        b.put(x >> trail, m);
        g.lead = sl;
        g.trail = trail;
      }
    }
  }
  b.align();
  g.prev = v;
}
inline uint64_t gorillaGet(Gorilla& g, In& in) {
  BitsIn b{in};
  if (g.first) {
    g.first = false;
    g.prev = b.get(64);
    return g.prev;
  }
  if (b.get(1)) {
    uint64_t x;
    if (!b.get(1)) {
      if (g.lead < 0) throw Malformed("no window yet");
      x = b.get(64 - g.lead - g.trail) << g.trail;
    } else {
      const int lead = int(b.get(5)), m = int(b.get(6)) + 1;
      if (lead + m > 64) throw Malformed("window too wide");
      g.lead = lead;
      g.trail = 64 - lead - m;
      x = b.get(m) << g.trail;
    }
    g.prev ^= x;
  }
  return g.prev;
}

// ------------------------------------------------------------------ adaptive integer sections
enum Mode { kModeDelta = 0, kModePalette = 1, kModeRle = 2, kModeDeltaRle = 3 };
struct Column {
  std::vector<uint64_t> raw;
  std::vector<int64_t> val;
  size_t width = 2;
};
inline Column column(const EncodingInfo& info, size_t k, const uint8_t* data, size_t n) {
  const auto& f = info.fields[k];
  Column c;
  c.width = typeSize(f.type);
  c.raw.resize(n);
  c.val.resize(n);
  for (size_t i = 0; i < n; ++i) {
    uint64_t x = 0;
    memcpy(&x, data + i * info.point_step + f.offset, c.width);
    c.raw[i] = x;
    c.val[i] = asI64(x, f.type);
  }
  return c;
}
inline int bitsFor(size_t uniq) {
  int b = 0;
  while (uniq > (size_t(1) << b)) ++b;
  return b;
}
inline void putSection(const Column& c, int mode, Bytes& o) {
  o.push_back(uint8_t(mode));
  const size_t n = c.raw.size();
  switch (mode) {
    case kModeDelta: {
      int64_t prev = 0;
      for (int64_t v : c.val) {
        putS(o, wsub(v, prev));
        prev = v;
      }
    } break;
    case kModePalette: {
      std::vector<uint64_t> pal;
      std::map<uint64_t, size_t> at;
      std::vector<size_t> idx(n);
      for (size_t i = 0; i < n; ++i) {
        auto it = at.find(c.raw[i]);
        if (it == at.end()) {
          it = at.emplace(c.raw[i], pal.size()).first;
          pal.push_back(c.raw[i]);
        }
        idx[i] = it->second;
      }
      putRawT<uint16_t>(o, uint16_t(pal.size()));
      for (uint64_t v : pal) putBytes(o, v, c.width);
      BitsOut b{o};
      const int bits = bitsFor(pal.size());
      for (size_t i : idx) b.put(i, bits);
      b.align();
    } break;
    case kModeRle: {
      const size_t at = o.size();
      putRawT<uint32_t>(o, 0);
      uint32_t runs = 0;
      for (size_t i = 0; i < n; ++runs) {
        size_t j = i;
        while (j < n && c.raw[j] == c.raw[i]) ++j;
        putBytes(o, c.raw[i], c.width);
        putU(o, j - i);
        i = j;
      }
      memcpy(o.data() + at, &runs, 4);
    } break;
    case kModeDeltaRle: {
      const size_t at = o.size();
      putRawT<uint32_t>(o, 0);
      uint32_t runs = 0;
      std::vector<int64_t> d(n);
      for (size_t i = 0; i < n; ++i) d[i] = wsub(c.val[i], i ? c.val[i - 1] : 0);
      for (size_t i = 0; i < n; ++runs) {
        size_t j = i;
        while (j < n && d[j] == d[i]) ++j;
        putS(o, d[i]);
        putU(o, j - i);
        i = j;
      }
      memcpy(o.data() + at, &runs, 4);
    } break;
  }
}
// sizes of the four forms of a column, computed without producing them
inline void sectionSizes(const Column& c, size_t from, size_t to, size_t out[4]) {
  std::set<uint64_t> uniq;
  size_t delta = 1, rle = 5, drle = 5;
  int64_t prev = 0, run_d = 0;
  size_t run = 0, drun = 0;
  for (size_t i = from; i < to; ++i) {
    const int64_t d = wsub(c.val[i], prev);
    prev = c.val[i];
    delta += sizeS(d);
    uniq.insert(c.raw[i]);
    if (run && c.raw[i] == c.raw[i - 1]) ++run;
    else {
      if (run) rle += c.width + sizeU(run);
      run = 1;
    }
    if (drun && d == run_d) ++drun;
    else {
      if (drun) drle += sizeS(run_d) + sizeU(drun);
      drun = 1;
      run_d = d;
    }
  }
  if (run) rle += c.width + sizeU(run);
  if (drun) drle += sizeS(run_d) + sizeU(drun);
  out[kModeDelta] = delta;
  out[kModePalette] = 3 + uniq.size() * c.width + (size_t(bitsFor(uniq.size())) * (to - from) + 7) / 8;
  out[kModeRle] = rle;
  out[kModeDeltaRle] = drle;
}
inline void getSection(In& in, FieldType t, size_t n, std::vector<uint64_t>& raw, int& mode, size_t& section_bytes) {
  const uint8_t* start = in.p;
  const size_t w = typeSize(t);
  const uint64_t m = widthMask(w);
  mode = in.byte();
  raw.clear();
  raw.reserve(n);
  switch (mode) {
    case kModeDelta: {
      int64_t prev = 0;
      for (size_t i = 0; i < n; ++i) {
        int64_t d;
        if (!in.s(d)) throw Malformed("NaN marker in an integer column");
        prev = wadd(prev, d);
        raw.push_back(uint64_t(prev) & m);
      }
    } break;
    case kModePalette: {
      const size_t cnt = size_t(in.bytes(2));
      if (!cnt) throw Malformed("empty palette");
      std::vector<uint64_t> pal(cnt);
      for (auto& v : pal) v = in.bytes(w);
      BitsIn b{in};
      const int bits = bitsFor(cnt);
      for (size_t i = 0; i < n; ++i) {
        const uint64_t x = b.get(bits);
        if (x >= cnt) throw Malformed("palette index out of range");
        raw.push_back(pal[x]);
      }
    } break;
    case kModeRle: {
      const uint64_t runs = in.bytes(4);
      for (uint64_t k = 0; k < runs; ++k) {
        const uint64_t v = in.bytes(w);
        const u128 len = in.u();
        if (len > n - raw.size()) throw Malformed("run too long");
        raw.insert(raw.end(), size_t(len), v);
      }
    } break;
    case kModeDeltaRle: {
      const uint64_t runs = in.bytes(4);
      int64_t prev = 0;
      for (uint64_t k = 0; k < runs; ++k) {
        int64_t d;
        if (!in.s(d)) throw Malformed("NaN marker in an integer column");
        u128 len = in.u();
        if (len > n - raw.size()) throw Malformed("run too long");
        for (; len; --len) {
          prev = wadd(prev, d);
          raw.push_back(uint64_t(prev) & m);
        }
      }
    } break;
    default: throw Malformed("unknown mode");
  }
  if (raw.size() != n) throw Malformed("column of the wrong length");
  section_bytes = size_t(in.p - start);
}

// ------------------------------------------------------------------ chunks
struct Modes {
  uint64_t seed = 0;
  int fixed = -1;
  bool reuse_windows = true;
  int zstd_level = 1;
  int mode(size_t field, size_t chunk) const {
    return fixed >= 0 ? fixed : int(mix64(seed ^ (field * 131 + chunk)) % 4);
  }
};
inline Modes randomModes(Rng& r, const EncodingInfo&) {
  Modes m;
  m.seed = r.next();
  m.fixed = r.chance(0.3) ? int(r.below(4)) : -1;
  m.reuse_windows = r.chance(0.7);
  m.zstd_level = int(r.pick({1, 1, 3, 9, -3}));
  return m;
}

inline int64_t quantum(double v, double res) {
  const double q = std::nearbyint(v / res);
  if (!(q > -9.2e18)) return INT64_MIN;
  if (q > 9.2e18) return INT64_MAX;
  return int64_t(q);
}

inline Bytes encodeChunk(const EncodingInfo& info, const uint8_t* data, size_t n, size_t chunk_idx, const Modes& m) {
  Bytes o;
  const size_t nf = info.fields.size();
  std::vector<Kind> kinds(nf);
  for (size_t k = 0; k < nf; ++k) kinds[k] = kindOf(info, k);
  std::vector<int64_t> prev(nf, 0);
  std::vector<uint64_t> prevbits(nf, 0);
  std::vector<Gorilla> g(nf);
  for (size_t i = 0; i < n; ++i) {
    const uint8_t* p = data + i * info.point_step;
    for (size_t k = 0; k < nf; ++k) {
      const auto& f = info.fields[k];
      const uint8_t* q = p + f.offset;
      const size_t w = typeSize(f.type);
      uint64_t raw = 0;
      memcpy(&raw, q, w);
      switch (kinds[k]) {
        case kCopy: putBytes(o, raw, w); break;
        case kDelta: {
          const int64_t v = asI64(raw, f.type);
          putS(o, wsub(v, prev[k]));
          prev[k] = v;
        } break;
        case kGroup: case kQuantF: {
          float x;
          memcpy(&x, q, 4);
          if (std::isnan(x)) {
            o.push_back(0);
            prev[k] = 0;
          } else {
            int64_t v = quantum(double(x), double(*f.resolution));
            if (kinds[k] == kGroup) v = std::max<int64_t>(INT32_MIN, std::min<int64_t>(INT32_MAX, v));
            int64_t d = wsub(v, prev[k]);
            if (kinds[k] == kGroup) d = int32_t(uint32_t(uint64_t(d)));  // differences wrap in 32 bits
            putS(o, d);
            prev[k] = v;
          }
        } break;
        case kQuantD: {
          double x;
          memcpy(&x, q, 8);
          if (std::isnan(x)) {
            o.push_back(0);
            prev[k] = 0;
          } else {
            const int64_t v = quantum(x, double(*f.resolution));
            putS(o, wsub(v, prev[k]));
            prev[k] = v;
          }
        } break;
        case kXor:
          putBytes(o, raw ^ prevbits[k], w);
          prevbits[k] = raw;
          break;
        case kGorilla: gorillaPut(g[k], raw, o, m.reuse_windows); break;
        case kAdaptive: break;
      }
    }
  }
  for (size_t k = 0; k < nf; ++k)
    if (kinds[k] == kAdaptive) putSection(column(info, k, data, n), m.mode(k, chunk_idx), o);
  return o;
}

inline Bytes compress2(const EncodingInfo& info, const Bytes& s1, const Modes& m) {
  switch (info.compression_opt) {
    case CompressionOption::NONE: return s1;
    case CompressionOption::LZ4: {
      Bytes o(size_t(LZ4_compressBound(int(s1.size()))));
      const int n = LZ4_compress_default(reinterpret_cast<const char*>(s1.data()), reinterpret_cast<char*>(o.data()), int(s1.size()), int(o.size()));
      o.resize(size_t(n));
      return o;
    }
    default: {
      Bytes o(ZSTD_compressBound(s1.size()));
      const size_t n = ZSTD_compress(o.data(), o.size(), s1.data(), s1.size(), m.zstd_level);
      o.resize(n);
      return o;
    }
  }
}
inline Bytes decompress2(const EncodingInfo& info, const uint8_t* p, size_t n, size_t points) {
  if (info.compression_opt == CompressionOption::NONE) return Bytes(p, p + n);
  size_t cap = 4096;
  for (auto& f : info.fields) (void)f, cap += points * 16 + 1024;
  Bytes o(cap);
  if (info.compression_opt == CompressionOption::LZ4) {
    const int k = LZ4_decompress_safe(reinterpret_cast<const char*>(p), reinterpret_cast<char*>(o.data()), int(n), int(o.size()));
    if (k < 0) throw Malformed("LZ4");
    o.resize(size_t(k));
  } else {
    const size_t k = ZSTD_decompress(o.data(), o.size(), p, n);
    if (ZSTD_isError(k)) throw Malformed("ZSTD");
    o.resize(k);
  }
  return o;
}

inline Bytes encodePayload(const EncodingInfo& info, const uint8_t* data, size_t n, const Modes& m) {
  Bytes o;
  if (info.version < 3) return compress2(info, encodeChunk(info, data, n, 0, m), m);
  for (size_t at = 0, c = 0; at < n; at += kChunk, ++c) {
    const size_t k = std::min(kChunk, n - at);
    const Bytes s = compress2(info, encodeChunk(info, data + at * info.point_step, k, c, m), m);
    putRawT<uint32_t>(o, uint32_t(s.size()));
    o.insert(o.end(), s.begin(), s.end());
  }
  return o;
}

// ------------------------------------------------------------------ decoder, with what it saw on the way
struct Trace {
  std::vector<size_t> stage1;                      // bytes of every chunk before compression
  std::vector<std::vector<int>> modes;             // [chunk][adaptive field]
  std::vector<std::vector<size_t>> section_bytes;  // [chunk][adaptive field]
  std::vector<size_t> regular_bytes;               // [chunk]
};

inline void decodeChunkInto(const EncodingInfo& info, const Bytes& s1, size_t n, uint8_t* out, Trace& tr) {
  In in{s1.data(), s1.data() + s1.size()};
  const size_t nf = info.fields.size();
  std::vector<Kind> kinds(nf);
  for (size_t k = 0; k < nf; ++k) kinds[k] = kindOf(info, k);
  std::vector<int64_t> prev(nf, 0);
  std::vector<uint64_t> prevbits(nf, 0);
  std::vector<Gorilla> g(nf);
  for (size_t i = 0; i < n; ++i) {
    uint8_t* p = out + i * info.point_step;
    for (size_t k = 0; k < nf; ++k) {
      const auto& f = info.fields[k];
      const size_t w = typeSize(f.type);
      uint64_t raw = 0;
      switch (kinds[k]) {
        case kCopy: raw = in.bytes(w); break;
        case kDelta: {
          int64_t d;
          if (!in.s(d)) throw Malformed("NaN marker in an integer column");
          prev[k] = wadd(prev[k], d);
          raw = uint64_t(prev[k]);
        } break;
        case kGroup: case kQuantF: {
          int64_t d;
          float x;
          if (!in.s(d)) {
            x = NAN;
            prev[k] = 0;
          } else {
            prev[k] = wadd(prev[k], d);
            if (kinds[k] == kGroup) {
              if (d != int32_t(d)) throw Malformed("difference of a group does not fit 32 bits");
              prev[k] = int32_t(uint32_t(uint64_t(prev[k])));
            }
            x = float(double(prev[k]) * double(*f.resolution));
          }
          memcpy(&raw, &x, 4);
        } break;
        case kQuantD: {
          int64_t d;
          double x;
          if (!in.s(d)) {
            x = NAN;
            prev[k] = 0;
          } else {
            prev[k] = wadd(prev[k], d);
            x = double((long double)(prev[k]) * (long double)(*f.resolution));
          }
          memcpy(&raw, &x, 8);
        } break;
        case kXor:
          raw = in.bytes(w) ^ prevbits[k];
          prevbits[k] = raw;
          break;
        case kGorilla: raw = gorillaGet(g[k], in); break;
        case kAdaptive: continue;
      }
      memcpy(p + f.offset, &raw, w);
    }
  }
  tr.regular_bytes.push_back(size_t(in.p - s1.data()));
  tr.modes.emplace_back();
  tr.section_bytes.emplace_back();
  for (size_t k = 0; k < nf; ++k) {
    if (kinds[k] != kAdaptive) continue;
    std::vector<uint64_t> raw;
    int mode;
    size_t bytes;
    getSection(in, info.fields[k].type, n, raw, mode, bytes);
    tr.modes.back().push_back(mode);
    tr.section_bytes.back().push_back(bytes);
    for (size_t i = 0; i < n; ++i) memcpy(out + i * info.point_step + info.fields[k].offset, &raw[i], typeSize(info.fields[k].type));
  }
  if (in.p != in.e) throw Malformed(fmt("%zu bytes left over in a chunk", size_t(in.e - in.p)));
  tr.stage1.push_back(s1.size());
}

inline Bytes decodePayload(const EncodingInfo& info, const uint8_t* p, size_t len, size_t n, Trace& tr, uint8_t canary = 0xA5) {
  Bytes out(n * info.point_step, canary);
  if (info.version < 3) {
    decodeChunkInto(info, decompress2(info, p, len, n), n, out.data(), tr);
    return out;
  }
  bool ok = true;
  auto chunks = splitChunks(p, len, ok);
  if (!ok) throw Malformed("not a sequence of chunks");
  size_t at = 0;
  for (auto& c : chunks) {
    const size_t k = std::min(kChunk, n - at);
    if (!k) throw Malformed("more chunks than points");
    decodeChunkInto(info, decompress2(info, c.data(), c.size(), k), k, out.data() + at * info.point_step, tr);
    at += k;
  }
  if (at != n) throw Malformed("fewer chunks than points");
  return out;
}

// ------------------------------------------------------------------ headers, as published
inline Bytes yamlHeader(const EncodingInfo& i) {
  auto opt = [](int v, const char* a, const char* b, const char* c) { return v == 0 ? a : v == 1 ? b : c; };
  static const char* types[] = {"UNKNOWN", "INT8", "UINT8", "INT16", "UINT16", "INT32", "UINT32", "FLOAT32", "FLOAT64", "INT64", "UINT64"};
  std::string s = fmt("CLOUDINI_V%02d\n", i.version);
  s += fmt("version: %d\nwidth: %u\nheight: %u\npoint_step: %u\n", i.version, i.width, i.height, i.point_step);
  s += fmt("encoding_opt: %s\ncompression_opt: %s\n", opt(int(i.encoding_opt), "NONE", "LOSSY", "LOSSLESS"),
           opt(int(i.compression_opt), "NONE", "LZ4", "ZSTD"));
  s += "fields:\n";
  for (auto& f : i.fields) {
    s += "  - name: " + f.name + "\n" + fmt("    offset: %u\n    type: %s\n", f.offset, types[int(f.type)]);
    s += f.resolution ? fmt("    resolution: %.9g\n", double(*f.resolution)) : std::string("    resolution: null\n");
  }
  Bytes b(s.begin(), s.end());
  b.push_back(0);
  return b;
}
inline Bytes binaryHeader(const EncodingInfo& i) {
  Bytes b;
  const std::string m = fmt("CLOUDINI_V%02d", i.version);
  b.assign(m.begin(), m.end());
  putRawT<uint32_t>(b, i.width);
  putRawT<uint32_t>(b, i.height);
  putRawT<uint32_t>(b, i.point_step);
  b.push_back(uint8_t(i.encoding_opt));
  b.push_back(uint8_t(i.compression_opt));
  putRawT<uint16_t>(b, uint16_t(i.fields.size()));
  for (auto& f : i.fields) {
    putRawT<uint16_t>(b, uint16_t(f.name.size()));
    b.insert(b.end(), f.name.begin(), f.name.end());
    putRawT<uint32_t>(b, f.offset);
    b.push_back(uint8_t(f.type));
    putRawT<float>(b, f.resolution ? *f.resolution : -1.0f);
  }
  return b;
}
// independent reader of the text form: line by line
inline EncodingInfo readYamlHeader(const Bytes& b, size_t& used) {
  EncodingInfo i;
  const std::string all(b.begin(), b.end());
  const size_t z = all.find('\0');
  if (all.compare(0, 10, "CLOUDINI_V") != 0 || z == std::string::npos || all[12] != '\n') throw Malformed("header");
  used = z + 1;
  const int magic = atoi(all.substr(10, 2).c_str());
  size_t at = 13;
  PointField* f = nullptr;
  auto pick = [](const std::string& v, std::initializer_list<const char*> n) {
    int k = 0;
    for (auto* s : n) {
      if (v == s) return k;
      ++k;
    }
    throw Malformed("word " + v);
  };
  while (at < z) {
    size_t e = all.find('\n', at);
    if (e == std::string::npos || e > z) throw Malformed("line without end");
    std::string line = all.substr(at, e - at);
    at = e + 1;
    const size_t c = line.find(':');
    if (c == std::string::npos) throw Malformed("line '" + line + "'");
    std::string key = line.substr(0, c), val = c + 2 <= line.size() ? line.substr(c + 2) : "";
    if (key == "version") i.version = uint8_t(atoi(val.c_str()));
    else if (key == "width") i.width = uint32_t(strtoul(val.c_str(), 0, 10));
    else if (key == "height") i.height = uint32_t(strtoul(val.c_str(), 0, 10));
    else if (key == "point_step") i.point_step = uint32_t(strtoul(val.c_str(), 0, 10));
    else if (key == "encoding_opt") i.encoding_opt = EncodingOptions(pick(val, {"NONE", "LOSSY", "LOSSLESS"}));
    else if (key == "compression_opt") i.compression_opt = CompressionOption(pick(val, {"NONE", "LZ4", "ZSTD"}));
    else if (key == "encoding_config") i.encoding_config = val;
    else if (key == "fields") {}
    else if (key == "  - name") {
      i.fields.emplace_back();
      f = &i.fields.back();
      f->name = val;
    } else if (f && key == "    offset") f->offset = uint32_t(strtoul(val.c_str(), 0, 10));
    else if (f && key == "    type") f->type = FieldType(pick(val, {"UNKNOWN", "INT8", "UINT8", "INT16", "UINT16", "INT32", "UINT32", "FLOAT32", "FLOAT64", "INT64", "UINT64"}));
    else if (f && key == "    resolution") {
      if (val != "null") f->resolution = strtof(val.c_str(), nullptr);
    } else throw Malformed("key '" + key + "'");
  }
  if (i.version != magic) throw Malformed("versions disagree");
  return i;
}
}  // namespace ref
