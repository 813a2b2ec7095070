// Generators of cloud descriptions and contents, and the fidelity oracle.
#pragma once
#include <bit>
#include <algorithm>
#include <memory>
#include <optional>
#include <set>

#include "cloudini_lib/cloudini.hpp"
#include "h_common.hpp"

namespace vh {
using namespace Cloudini;
using Bytes = std::vector<uint8_t>;

// ------------------------------------------------------------------ exact-size heap block (redzones right at its ends)
struct Block {
  uint8_t* p = nullptr;
  size_t n = 0;
  explicit Block(size_t n_) : p(static_cast<uint8_t*>(malloc(n_ ? n_ : 1))), n(n_) {}
  Block(const uint8_t* src, size_t n_) : Block(n_) {
    if (n_) memcpy(p, src, n_);
  }
  explicit Block(const Bytes& b) : Block(b.data(), b.size()) {}
  Block(const Block&) = delete;
  Block& operator=(const Block&) = delete;
  Block(Block&& o) noexcept : p(o.p), n(o.n) { o.p = nullptr; o.n = 0; }
  ~Block() { free(p); }
  ConstBufferView view() const { return ConstBufferView(p, n); }
  BufferView mview() { return BufferView(p, n); }
};

inline size_t typeSize(FieldType t) {
  switch (t) {
    case FieldType::INT8: case FieldType::UINT8: return 1;
    case FieldType::INT16: case FieldType::UINT16: return 2;
    case FieldType::INT32: case FieldType::UINT32: case FieldType::FLOAT32: return 4;
    case FieldType::INT64: case FieldType::UINT64: case FieldType::FLOAT64: return 8;
    default: return 0;
  }
}
inline bool isFloat(FieldType t) { return t == FieldType::FLOAT32 || t == FieldType::FLOAT64; }
inline bool isInt(FieldType t) { return typeSize(t) && !isFloat(t); }
inline bool isSignedInt(FieldType t) {
  return t == FieldType::INT8 || t == FieldType::INT16 || t == FieldType::INT32 || t == FieldType::INT64;
}
inline bool isAdaptiveInt(FieldType t) { return isInt(t) && typeSize(t) >= 2; }
inline const char* typeName(FieldType t) {
  static const char* n[] = {"?", "i8", "u8", "i16", "u16", "i32", "u32", "f32", "f64", "i64", "u64"};
  return n[int(t) <= 10 ? int(t) : 0];
}

// number of leading quantized floats handled as one group (3 or 4), else 0: from the format documentation
inline size_t leadingGroup(const EncodingInfo& info) {
  if (info.encoding_opt != EncodingOptions::LOSSY) return 0;
  size_t k = 0;
  while (k < info.fields.size() && info.fields[k].type == FieldType::FLOAT32 && info.fields[k].resolution) ++k;
  return (k == 3 || k == 4) ? k : 0;
}
inline bool isQuantized(const EncodingInfo& info, const PointField& f) {
  return info.encoding_opt == EncodingOptions::LOSSY && isFloat(f.type) && f.resolution.has_value();
}
inline bool hasAdaptive(const EncodingInfo& info) {
  if (info.version < 5 || info.encoding_opt != EncodingOptions::LOSSY) return false;
  for (auto& f : info.fields)
    if (isAdaptiveInt(f.type)) return true;
  return false;
}

inline std::string describe(const EncodingInfo& i) {
  std::string s = fmt("v%d %s/%s %s %ux%u step=%u [", i.version, ToString(i.encoding_opt), ToString(i.compression_opt),
                      i.use_threads ? "thr" : "nothr", i.width, i.height, i.point_step);
  for (auto& f : i.fields) {
    s += fmt("%s@%u", typeName(f.type), f.offset);
    if (f.resolution) s += fmt("(%g)", *f.resolution);
    s += ' ';
  }
  return s + "]";
}
// class of a configuration, for counting distinct situations
inline uint64_t infoClass(const EncodingInfo& i) {
  uint64_t h = i.version * 1000 + int(i.encoding_opt) * 100 + int(i.compression_opt) * 10 + i.use_threads;
  for (auto& f : i.fields) h = mix64(h + int(f.type) * 4 + (f.resolution ? 1 : 0));
  return h;
}

// ------------------------------------------------------------------ cloud sizes
inline size_t pickCount(Rng& r, bool thorough = false) {
  const double u = r.uniform();
  if (u < 0.0015) return size_t(r.range(100000, thorough && r.chance(0.3) ? 4000000 : 900000));  // up to 28 chunks, or 123
  if (u < 0.60) return size_t(r.range(1, 400));
  if (u < 0.66) return size_t(r.range(1, 3));
  if (u < 0.74) return size_t(r.range(400, 4000));
  if (u < 0.84) return size_t(r.pick({4095, 4096, 4097, 4098, 8192, 5000, 12000}));
  if (u < 0.93) return size_t(r.pick({32767, 32768, 32769, 32770, 32768 + 4096, 40000}));
  if (u < 0.98 || !thorough) return size_t(r.pick({65535, 65536, 65537, 66000, 98304}));
  return size_t(r.pick({98305, 131072, 131073, 200000}));
}

// no more than about 24 MB of points
inline size_t pickCountFor(Rng& r, const EncodingInfo& info, bool thorough = false) {
  size_t n = pickCount(r, thorough);
  const size_t cost = std::max<size_t>(info.point_step, info.fields.size() * 12);
  const size_t most = std::max<size_t>(1, (size_t(24) << 20) / std::max<size_t>(1, cost));
  return std::min(n, most);
}

inline void setDims(Rng& r, EncodingInfo& info, size_t n) {
  info.width = uint32_t(n);
  info.height = 1;
  if (n && r.chance(0.25)) {  // organized, when a divisor is at hand
    for (uint32_t d : {2u, 3u, 4u, 5u, 7u, 16u, 64u, 300u, 1024u, 32768u}) {
      if (n % d == 0 && r.chance(0.4)) {
        info.width = uint32_t(n / d);
        info.height = d;
        break;
      }
    }
  }
}

// ------------------------------------------------------------------ layouts
struct LayoutOpts {
  int min_fields = 1, max_fields = 7;
  double p_float = 0.5;  // of the non-leading fields
  bool ints = true, floats = true;
  int force_lead = -1;
  std::vector<int> versions{3, 4, 5, 5, 5};
  std::vector<int> encodings{1, 1, 1, 2, 0};
  std::vector<int> compressions{0, 1, 2};
  int threads = -1;
  bool float64_res = true;
  bool alias = false;     // integer fields may share bytes with other integer fields
  bool wide_res = true;   // unusual resolutions as well
  bool real_names = true;  // names as drivers use them
  bool extremes = true;   // rarely: hundreds of fields, very large points
};

inline float pickResolution(Rng& r, bool wide) {
  if (wide && r.chance(0.2)) {
    return float(std::pow(10.0, r.uniform(-7, 2)));
  }
  return float(r.pick({0.001, 0.001, 0.01, 0.0001, 1e-6, 1.0, 0.1, 0.25, 0.0005, 0.0037, 0.3, 5.0}));
}

inline EncodingInfo genLayout(Rng& r, const LayoutOpts& o) {
  EncodingInfo info;
  info.version = uint8_t(r.pick(o.versions));
  info.encoding_opt = EncodingOptions(r.pick(o.encodings));
  info.compression_opt = CompressionOption(r.pick(o.compressions));
  info.use_threads = o.threads < 0 ? r.chance(0.4) : o.threads != 0;
  struct F { FieldType t; std::optional<float> res; };
  std::vector<F> fs;
  int lead = 0;
  if (o.floats) {
    lead = o.force_lead >= 0 ? o.force_lead : int(r.pick({0, 0, 1, 2, 3, 3, 3, 3, 4, 4, 5}));
    const float common = pickResolution(r, o.wide_res);
    const bool same = r.chance(0.5);
    for (int k = 0; k < lead; ++k) fs.push_back({FieldType::FLOAT32, same ? common : pickResolution(r, o.wide_res)});
  }
  int total = std::max<int>(int(r.range(o.min_fields, o.max_fields)), lead ? lead : 1);
  if (o.extremes && r.chance(0.03)) total = int(r.pick({16, 17, 32, 33, 64, 100, 256, 300}));
  while (int(fs.size()) < total) {
    const bool fl = o.floats && (!o.ints || r.chance(o.p_float));
    if (fl) {
      const FieldType t = r.chance(0.5) ? FieldType::FLOAT32 : FieldType::FLOAT64;
      std::optional<float> res;
      if (r.chance(0.5) && (t == FieldType::FLOAT32 || o.float64_res)) res = pickResolution(r, o.wide_res);
      fs.push_back({t, res});
    } else if (o.ints) {
      const FieldType t = FieldType(r.pick({1, 2, 3, 4, 4, 5, 6, 9, 10, 3, 6}));
      std::optional<float> res;
      if (r.chance(0.05)) res = 0.01f;  // meaningless on integers: must be ignored
      fs.push_back({t, res});
    } else {
      break;
    }
  }
  if (r.chance(0.15)) r.shuffle(fs);  // quantized floats also in the middle and at the end
  // memory order is independent of the field order
  std::vector<size_t> mem(fs.size());
  for (size_t i = 0; i < mem.size(); ++i) mem[i] = i;
  if (r.chance(0.4)) r.shuffle(mem);
  const bool gaps = r.chance(0.5);
  std::vector<uint32_t> off(fs.size());
  uint32_t at = gaps && r.chance(0.5) ? uint32_t(r.below(9)) : 0;
  for (size_t i : mem) {
    if (gaps && r.chance(0.4)) at += uint32_t(r.below(7));
    if (o.extremes && r.chance(0.004)) at += uint32_t(r.pick({120, 250, 256, 1000, 4000}));
    off[i] = at;
    at += uint32_t(typeSize(fs[i].t));
  }
  if (gaps && r.chance(0.6)) at += uint32_t(r.below(20));
  info.point_step = at;
  for (size_t i = 0; i < fs.size(); ++i) {
    PointField f;
    f.name = i < 3 && lead >= 3 ? std::string(1, char('x' + i)) : fmt("f%zu", i);
    f.offset = off[i];
    f.type = fs[i].t;
    f.resolution = fs[i].res;
    info.fields.push_back(f);
  }
  if (o.real_names && r.chance(0.01)) {  // names of unusual length
    for (auto& f : info.fields)
      if (f.name[0] == 'f' && r.chance(0.5)) f.name += "_" + std::string(size_t(r.pick({30, 64, 127, 128, 255, 256, 300, 600})), char('a' + r.below(26)));
  }
  if (o.real_names && r.chance(0.3)) {  // the names that drivers use, on fields of any type
    std::vector<std::string> names = {"intensity", "ring", "time", "timestamp", "t", "rgb", "rgba", "reflectivity", "range", "noise", "label",
                                      "curvature", "normal_x", "Intensity", "i", "azimuth", "line", "tag", "offset_time", "ambient"};
    r.shuffle(names);
    for (size_t i = 0; i < info.fields.size() && i < names.size(); ++i)
      if (info.fields[i].name[0] == 'f' && r.chance(0.8)) info.fields[i].name = names[i];
  }
  if (o.alias && o.ints && r.chance(0.15)) {  // e.g. rgb seen both as one word and as single bytes
    for (size_t i = 0; i < info.fields.size(); ++i) {
      if (isInt(info.fields[i].type) && typeSize(info.fields[i].type) >= 4) {
        PointField f = info.fields[i];
        f.name = "alias";
        f.resolution.reset();
        f.type = r.chance(0.5) ? FieldType::UINT8 : FieldType::UINT16;
        f.offset += uint32_t(r.below(2));
        info.fields.push_back(f);
        break;
      }
    }
  }
  return info;
}

// ------------------------------------------------------------------ integer columns (raw bit patterns, width bits each)
inline uint64_t widthMask(size_t bytes) { return bytes >= 8 ? ~0ull : ((1ull << (8 * bytes)) - 1); }
constexpr int kIntPatterns = 14;

inline void intSegment(Rng& r, FieldType t, std::vector<uint64_t>& v, size_t b, size_t e, int pat) {
  const size_t w = typeSize(t);
  const uint64_t m = widthMask(w);
  const uint64_t minv = isSignedInt(t) ? (1ull << (8 * w - 1)) : 0;
  const uint64_t maxv = isSignedInt(t) ? minv - 1 : m;
  auto edge = [&]() -> uint64_t { return r.pick({minv, maxv, uint64_t(0), m, uint64_t(1), minv + 1, maxv - 1}) & m; };
  uint64_t cur = r.chance(0.5) ? r.next() & m : (r.chance(0.5) ? edge() : r.below(1000));
  switch (pat) {
    case 0:
      for (size_t i = b; i < e; ++i) v[i] = cur & m;
      break;
    case 1: {  // ramp, wrapping
      const uint64_t step = r.pick({uint64_t(1), uint64_t(2), ~uint64_t(0), uint64_t(100), r.next() & 0xffff, r.next()});
      for (size_t i = b; i < e; ++i, cur += step) v[i] = cur & m;
    } break;
    case 2: {
      const int64_t a = int64_t(r.pick({1, 3, 30, 60, 63, 64, 100, 5000}));
      for (size_t i = b; i < e; ++i, cur += uint64_t(r.range(-a, a))) v[i] = cur & m;
    } break;
    case 3:
      for (size_t i = b; i < e; ++i) v[i] = r.next() & m;
      break;
    case 4: {
      const uint64_t k = (1ull << r.range(1, std::min<int>(40, int(8 * w))));
      const uint64_t base = r.chance(0.5) ? 0 : r.next();
      for (size_t i = b; i < e; ++i) v[i] = (base + r.below(k)) & m;
    } break;
    case 5: {  // runs
      const int style = int(r.below(4));
      for (size_t i = b; i < e;) {
        size_t len = style == 0 ? size_t(r.pick({127, 128, 129})) : style == 1 ? size_t(r.pick({16383, 16384, 16385}))
                     : style == 2 ? size_t(r.range(1, 6)) : size_t(r.range(1, 3000));
        cur = r.chance(0.5) ? cur + r.below(5) : r.next();
        for (; len && i < e; --len, ++i) v[i] = cur & m;
      }
    } break;
    case 6: {  // palettes with sizes around the powers of two
      size_t k = size_t(r.pick({1, 2, 3, 4, 5, 7, 8, 9, 15, 16, 17, 31, 32, 33, 64, 65, 127, 128, 129, 255, 256, 257, 511,
                                512, 513, 1023, 1024, 1025, 2047, 2048, 2049, 4095, 4096, 4097, 16384, 32767, 32768}));
      if (w == 2) k = std::min<size_t>(k, 32768);
      if (w == 1) k = std::min<size_t>(k, 200);
      std::vector<uint64_t> pal;
      std::set<uint64_t> seen;
      // all different, or different in some of the bits only
      const uint64_t base = r.next();
      uint64_t differing = m;
      if (w >= 4 && k <= 2048 && r.chance(0.35)) {
        const size_t width = r.pick({12, 16, 24, 32}), at = r.below(8 * w - std::min<size_t>(width, 8 * w - 1));
        differing = (r.chance(0.5) ? ((1ull << width) - 1) << at : ~((1ull << (4 * w)) - 1)) & m;
        while (std::popcount(differing) < 12) differing = differing << 1 | 1;
        differing &= m;
        if ((1ull << std::min(std::popcount(differing), 40)) < 2 * k) differing = m;
      }
      while (pal.size() < k) {
        const uint64_t x = ((base & ~differing) | (r.next() & differing)) & m;
        if (seen.insert(x).second) pal.push_back(x);
      }
      const bool cyclic = r.chance(0.4);
      for (size_t i = b; i < e; ++i) v[i] = pal[cyclic ? (i - b) % k : r.below(k)];
    } break;
    case 7:
      for (size_t i = b; i < e; ++i) v[i] = (i & 1) ? minv : maxv;
      break;
    case 8: {  // differences right at the varint length boundaries
      for (size_t i = b; i < e; ++i) {
        const int k = int(r.range(1, 9));
        uint64_t d = (1ull << (7 * k - 1)) + uint64_t(r.range(-2, 2));
        if (k == 9 && r.chance(0.5)) d = (1ull << 63) + uint64_t(r.range(-2, 2));
        cur += r.chance(0.5) ? d : uint64_t(0) - d;
        v[i] = cur & m;
      }
    } break;
    case 9:
      for (size_t i = b; i < e; ++i) v[i] = edge();
      break;
    case 10: {  // sawtooth
      const uint64_t period = r.pick({2, 3, 7, 16, 64, 100, 128, 1000});
      const uint64_t step = r.pick({uint64_t(1), uint64_t(2), ~uint64_t(0), uint64_t(1000)});
      const uint64_t base = cur;
      for (size_t i = b; i < e; ++i) v[i] = (base + ((i - b) % period) * step) & m;
    } break;
    case 11: {  // zeros with rare spikes
      const double p = r.pick({0.001, 0.01, 0.1});
      const uint64_t base = r.chance(0.7) ? 0 : cur;
      for (size_t i = b; i < e; ++i) v[i] = r.chance(p) ? (r.next() & m) : (base & m);
    } break;
    case 12: {  // around zero, both signs
      for (size_t i = b; i < e; ++i) v[i] = uint64_t(r.range(-3, 3)) & m;
    } break;
    case 13: {  // mostly constant differences, with interruptions
      uint64_t step = r.below(20);
      for (size_t i = b; i < e; ++i) {
        if (r.chance(0.01)) step = r.next() & (r.chance(0.5) ? 0xff : m);
        cur += step;
        v[i] = cur & m;
      }
    } break;
  }
}

inline std::vector<uint64_t> genIntColumn(Rng& r, FieldType t, size_t n) {
  std::vector<uint64_t> v(n);
  const double u = r.uniform();
  std::vector<size_t> cuts;
  if (u < 0.35 && n > 1) {
    cuts.push_back(r.chance(0.5) && n > 4096 ? 4096 : (n > 32768 && r.chance(0.5) ? 32768 : 1 + r.below(n - 1)));
    if (r.chance(0.3)) cuts.push_back(1 + r.below(n - 1));
  } else if (u < 0.5 && n > 1) {
    for (int k = 0; k < 6; ++k) cuts.push_back(1 + r.below(n - 1));
  }
  cuts.push_back(n);
  std::sort(cuts.begin(), cuts.end());
  size_t b = 0;
  for (size_t e : cuts) {
    if (e > b) intSegment(r, t, v, b, e, int(r.below(kIntPatterns)));
    b = std::max(b, e);
  }
  return v;
}

// ------------------------------------------------------------------ float columns
// values of a quantized column: magnitudes stay within `qmax` resolution steps, unless wild
template <class T>
inline std::vector<T> genQuantColumn(Rng& r, double res, double qmax, size_t n, bool wild, bool nans = true) {
  std::vector<T> v(n);
  const int pat = int(r.below(10));
  const double range = std::min(qmax, r.pick({1.0, 10.0, 100.0, 1e3, 1e4, 1e5, 1e6, 1e7}));
  double cur = r.uniform(-range, range);
  for (size_t i = 0; i < n; ++i) {
    double q;
    switch (pat) {
      case 0: q = r.uniform(-range, range); break;
      case 1: cur += r.uniform(-3, 3); q = cur; break;
      case 2: q = std::floor(r.uniform(-range, range)); break;
      case 3: q = std::floor(r.uniform(-range, range)) + 0.5; break;
      case 4: q = cur; break;
      case 5: q = (i & 1) ? range : -range; break;
      case 6: q = r.uniform(-1, 1) * qmax; break;
      case 7: q = (i & 1) ? qmax : -qmax; break;
      case 8: q = r.uniform(-1.2, 1.2); break;
      default: cur += r.chance(0.02) ? r.uniform(-range, range) : r.uniform(-0.6, 0.6); q = cur; break;
    }
    if (std::abs(q) > qmax) q = std::copysign(qmax, q);
    v[i] = T(q * res);
    if (r.chance(0.003)) v[i] = r.chance(0.5) ? T(-0.0) : std::numeric_limits<T>::denorm_min();
  }
  if (wild)
    for (size_t i = 0; i < n; ++i)
      if (r.chance(0.02))
        v[i] = r.pick({std::numeric_limits<T>::infinity(), -std::numeric_limits<T>::infinity(),
                       std::numeric_limits<T>::max(), std::numeric_limits<T>::lowest(), T(1e18 * res), T(-1e25)});
  if (!nans) return v;
  auto nanv = [&]() -> T {
    using U = std::conditional_t<sizeof(T) == 4, uint32_t, uint64_t>;
    U bits = sizeof(T) == 4 ? U(0x7F800000u | (r.next() & 0x807FFFFFu) | 1u)
                            : U(0x7FF0000000000000ull | (r.next() & 0x800FFFFFFFFFFFFFull) | 1ull);
    if (r.chance(0.5)) bits = sizeof(T) == 4 ? U(0x7FC00000u) : U(0x7FF8000000000000ull);
    T x;
    memcpy(&x, &bits, sizeof x);
    return x;
  };
  switch (r.below(8)) {
    case 0:
      for (size_t i = 0; i < n; ++i)
        if (r.chance(0.05)) v[i] = nanv();
      break;
    case 1:
      for (size_t i = 0; i < n;) {
        const size_t len = r.below(50);
        if (r.chance(0.3))
          for (size_t k = 0; k < len && i + k < n; ++k) v[i + k] = nanv();
        i += len + 1;
      }
      break;
    case 2: v[0] = nanv(); v[n - 1] = nanv(); break;
    case 3:
      if (r.chance(0.3))
        for (auto& x : v) x = nanv();
      else
        for (size_t i = 0; i < n; i += 2) v[i] = nanv();
      break;
    default: break;
  }
  return v;
}

// raw bit patterns for floats stored exactly
inline std::vector<uint64_t> genRawFloatColumn(Rng& r, bool f64, size_t n) {
  std::vector<uint64_t> v(n);
  const uint64_t m = f64 ? ~0ull : 0xffffffffull;
  const int bits = f64 ? 64 : 32;
  auto special = [&]() -> uint64_t {
    if (f64) {
      static const uint64_t s[] = {0, 1ull << 63, 0x7FF0000000000000ull, 0xFFF0000000000000ull, 0x7FF8000000000000ull,
                                   0x7FF0000000000001ull, 0xFFFFFFFFFFFFFFFFull, 1, 0x8000000000000001ull,
                                   0x000FFFFFFFFFFFFFull, 0x3FF0000000000000ull, 0x7FEFFFFFFFFFFFFFull};
      return s[r.below(12)];
    }
    static const uint32_t s[] = {0, 0x80000000u, 0x7F800000u, 0xFF800000u, 0x7FC00000u, 0x7F800001u,
                                 0xFFFFFFFFu, 1, 0x80000001u, 0x007FFFFFu, 0x3F800000u, 0x7F7FFFFFu};
    return s[r.below(12)];
  };
  auto fromReal = [&](double x) -> uint64_t {
    if (f64) {
      uint64_t u;
      memcpy(&u, &x, 8);
      return u;
    }
    const float g = float(x);
    uint32_t u;
    memcpy(&u, &g, 4);
    return u;
  };
  std::vector<size_t> cuts{n};
  if (n > 2 && r.chance(0.4)) cuts.insert(cuts.begin(), 1 + r.below(n - 1));
  size_t b = 0;
  for (size_t e : cuts) {
    const int pat = int(r.below(9));
    uint64_t cur = r.next() & m;
    double real = r.uniform(-100, 100), t0 = 1.7e9;
    for (size_t i = b; i < e; ++i) {
      switch (pat) {
        case 0: v[i] = r.next() & m; break;
        case 1: v[i] = special(); break;
        case 2: real += r.uniform(-0.1, 0.1); v[i] = fromReal(real); break;
        case 3: t0 += 1e-5; v[i] = fromReal(t0); break;
        case 4: v[i] = cur; break;
        case 5:  // one bit changes: windows of every position and width 1
          cur ^= 1ull << r.below(uint64_t(bits));
          v[i] = cur & m;
          break;
        case 6: {  // window of random position and width, sometimes shrinking into the previous one
          const uint64_t hi = r.below(uint64_t(bits)), lo = r.below(hi + 1);
          const uint64_t width = hi - lo + 1;
          const uint64_t w = (width >= 64 ? ~0ull : ((1ull << width) - 1)) << lo;
          cur ^= (r.next() & w) | (1ull << hi) | (1ull << lo);
          v[i] = cur & m;
        } break;
        case 7:
          if (r.chance(0.2)) cur = r.next() & m;
          v[i] = cur;
          break;
        default: v[i] = (i & 1) ? (~cur & m) : cur; break;
      }
    }
    b = e;
  }
  return v;
}

// largest quantized magnitude that the format can hold for this field (by its position in the layout)
inline double quantLimit(const EncodingInfo& info, size_t field) {
  return field < leadingGroup(info) ? 2147483000.0 : 4.6e18;
}

struct DataOpts {
  bool wild = true;
  bool nans = true;
  double qcap = 1e300;
};

inline void putRaw(Bytes& d, size_t step, size_t off, size_t w, const std::vector<uint64_t>& v) {
  for (size_t i = 0; i < v.size(); ++i) memcpy(d.data() + i * step + off, &v[i], w);
}

inline Bytes genData(Rng& r, const EncodingInfo& info, size_t n, const DataOpts& o = {}) {
  Bytes d(n * info.point_step);
  r.fill(d.data(), d.size());
  if (!n) return d;
  for (size_t k = 0; k < info.fields.size(); ++k) {
    const auto& f = info.fields[k];
    const size_t w = typeSize(f.type);
    if (f.name == "alias") continue;
    if (isInt(f.type)) {
      putRaw(d, info.point_step, f.offset, w, genIntColumn(r, f.type, n));
    } else if (isQuantized(info, f)) {
      const double res = double(*f.resolution);
      const double qmax = std::min({o.qcap, quantLimit(info, k), f.type == FieldType::FLOAT32 ? 1e12 : 1e16});
      const bool wild = o.wild && r.chance(0.08);
      if (f.type == FieldType::FLOAT32) {
        auto v = genQuantColumn<float>(r, res, qmax, n, wild, o.nans);
        for (size_t i = 0; i < n; ++i) memcpy(d.data() + i * info.point_step + f.offset, &v[i], 4);
      } else {
        auto v = genQuantColumn<double>(r, res, qmax, n, wild, o.nans);
        for (size_t i = 0; i < n; ++i) memcpy(d.data() + i * info.point_step + f.offset, &v[i], 8);
      }
    } else if (isFloat(f.type)) {
      putRaw(d, info.point_step, f.offset, w, genRawFloatColumn(r, f.type == FieldType::FLOAT64, n));
    }
  }
  return d;
}

// ------------------------------------------------------------------ fidelity oracle
enum Aspect { kInts = 1, kQuant = 2, kExactFloats = 4, kPadding = 8, kAllAspects = 15 };

struct FidelityStats {
  uint64_t ints = 0, quant = 0, nans = 0, exact = 0, unconstrained = 0, padding = 0;
  void report(Ctx& c) const {
    if (ints) c.count("integer_values_compared", ints);
    if (quant) c.count("quantized_values_compared", quant);
    if (nans) c.count("nan_values_compared", nans);
    if (exact) c.count("exact_float_values_compared", exact);
    if (unconstrained) c.count("quantized_values_outside_format", unconstrained);
    if (padding) c.count("padding_bytes_compared", padding);
  }
};

inline bool quantOk32(float a, float b, double res, double qlimit, FidelityStats& st, bool& constrained) {
  constrained = true;
  if (std::isnan(a)) {
    ++st.nans;
    return std::isnan(b);
  }
  if (!std::isfinite(a) || std::abs(double(a)) / res > qlimit) {
    ++st.unconstrained;
    constrained = false;
    return true;
  }
  ++st.quant;
  const double tol = 0.5 * res * (1 + 1e-6) + std::abs(double(a)) * std::ldexp(1.0, -22);
  return std::abs(double(a) - double(b)) <= tol;
}
inline bool quantOk64(double a, double b, double res, double qlimit, FidelityStats& st) {
  if (std::isnan(a)) {
    ++st.nans;
    return std::isnan(b);
  }
  if (!std::isfinite(a) || std::abs(a) / res > qlimit) {
    ++st.unconstrained;
    return true;
  }
  ++st.quant;
  const long double tol = 0.5L * res * (1 + 1e-9L) + std::abs((long double)a) * std::ldexp(1.0L, -51);
  return std::abs((long double)a - (long double)b) <= tol;
}

// compares the aspects asked for; returns an empty string or the description of the first difference
inline std::string compareClouds(const EncodingInfo& info, const uint8_t* a, const uint8_t* b, size_t n, int aspects,
                                 FidelityStats& st) {
  const size_t step = info.point_step;
  for (size_t k = 0; k < info.fields.size(); ++k) {
    const auto& f = info.fields[k];
    if (f.offset == kDecodeButSkipStore) continue;
    const size_t w = typeSize(f.type);
    const bool quant = isQuantized(info, f);
    const int asp = isInt(f.type) ? kInts : quant ? kQuant : kExactFloats;
    if (!(aspects & asp)) continue;
    const double limit = quantLimit(info, k);
    const double res = f.resolution ? double(*f.resolution) : 1;
    for (size_t i = 0; i < n; ++i) {
      const uint8_t* pa = a + i * step + f.offset;
      const uint8_t* pb = b + i * step + f.offset;
      bool ok;
      if (asp == kQuant) {
        if (w == 4) {
          float x, y;
          bool c;
          memcpy(&x, pa, 4);
          memcpy(&y, pb, 4);
          ok = quantOk32(x, y, res, limit, st, c);
          if (!ok) return fmt("point %zu of %zu, field #%zu (%s, res %.9g): %.9g came back as %.9g", i, n, k, f.name.c_str(), res, x, y);
        } else {
          double x, y;
          memcpy(&x, pa, 8);
          memcpy(&y, pb, 8);
          ok = quantOk64(x, y, res, limit, st);
          if (!ok) return fmt("point %zu of %zu, field #%zu (%s, res %.9g): %.17g came back as %.17g", i, n, k, f.name.c_str(), res, x, y);
        }
      } else {
        (asp == kInts ? st.ints : st.exact)++;
        if (memcmp(pa, pb, w) != 0) {
          uint64_t x = 0, y = 0;
          memcpy(&x, pa, w);
          memcpy(&y, pb, w);
          return fmt("point %zu of %zu, field #%zu (%s): bits 0x%llx came back as 0x%llx", i, n, k, typeName(f.type),
                     (unsigned long long)x, (unsigned long long)y);
        }
      }
    }
  }
  return "";
}

// bytes of a point that belong to no field
inline std::vector<uint32_t> paddingBytes(const EncodingInfo& info) {
  std::vector<char> used(info.point_step, 0);
  for (auto& f : info.fields) {
    if (f.offset == kDecodeButSkipStore) continue;
    for (size_t b = 0; b < typeSize(f.type); ++b)
      if (f.offset + b < info.point_step) used[f.offset + b] = 1;
  }
  std::vector<uint32_t> out;
  for (uint32_t b = 0; b < info.point_step; ++b)
    if (!used[b]) out.push_back(b);
  return out;
}

// ------------------------------------------------------------------ codec wrappers
inline Bytes encodeCloud(const EncodingInfo& info, ConstBufferView data) {
  PointcloudEncoder enc(info);
  Bytes out;
  const size_t n = enc.encode(data, out);
  if (n != out.size()) throw std::runtime_error(fmt("encode returned %zu but produced %zu bytes", n, out.size()));
  return out;
}
inline Bytes encodeCloud(const EncodingInfo& info, const Bytes& data) {
  Block in(data);
  return encodeCloud(info, in.view());
}

struct Decoded {
  EncodingInfo info;
  Bytes data;
};
// header + payload, into a buffer filled with `canary`
inline Decoded decodeStream(const Bytes& stream, uint8_t canary = 0xA5) {
  Block in(stream);
  Decoded d;
  ConstBufferView v = in.view();
  d.info = DecodeHeader(v);
  Block out(size_t(d.info.width) * d.info.height * d.info.point_step);
  memset(out.p, canary, out.n);
  PointcloudDecoder dec;
  dec.decode(d.info, v, out.mview());
  d.data.assign(out.p, out.p + out.n);
  return d;
}

// exception-safe call: "" when it went through, otherwise the message of the exception
template <class F>
inline bool throwsException(F&& f, std::string* what = nullptr) {
  try {
    f();
    return false;
  } catch (const std::exception& e) {
    if (what) *what = e.what();
    return true;
  }
}

inline std::string namesKey(const EncodingInfo& info) { return describe(info); }

// the checks' notion of a stream's layout: payload = sequence of [u32 size][chunk]
inline std::vector<Bytes> splitChunks(const uint8_t* p, size_t n, bool& ok) {
  std::vector<Bytes> out;
  ok = true;
  while (n) {
    if (n < 4) { ok = false; break; }
    uint32_t s;
    memcpy(&s, p, 4);
    p += 4;
    n -= 4;
    if (s > n) { ok = false; break; }
    out.emplace_back(p, p + s);
    p += s;
    n -= s;
  }
  return out;
}

inline size_t headerSize(const Bytes& stream) {
  ConstBufferView v(stream.data(), stream.size());
  DecodeHeader(v);
  return stream.size() - v.size();
}
// Dimensions whose product, or whose size in bytes, does not fit in size_t (only slightly too large for 64 bits to be
// refused before anything is allocated; the smaller ones are for the 32-bit builds).
inline void pickWrappingDims(Rng& r, EncodingInfo& i) {
  const bool narrow = sizeof(size_t) == 4;
  const uint32_t step = i.point_step;
  if (!narrow) {
    i.width = r.pick<uint32_t>({0x80000000u, 0xffffffffu, 0x80000001u, 0xfffffffeu});
    i.height = r.pick<uint32_t>({0x80000000u, 0xffffffffu, 0x80000000u, 0xfffffffdu});
    return;
  }
  switch (r.below(4)) {
    case 0:
      i.width = r.pick<uint32_t>({65536, 65537, 0x80000000u, 0x40000000u, 131072, 0xffffffffu, 65536 + uint32_t(r.below(100))});
      i.height = uint32_t((0x100000000ull + i.width - 1) / i.width) + uint32_t(r.below(3));
      break;
    case 1:  // chunks of 32768 points wrap around
      i.point_step = 131072u * uint32_t(r.range(1, 40)) + (r.chance(0.5) ? 0u : uint32_t(r.below(64)));
      i.point_step = std::max(i.point_step, step);
      i.width = uint32_t(r.range(1, 3)) * 32768u;
      i.height = uint32_t(r.range(1, 3));
      break;
    case 2:
      i.width = uint32_t(0x100000000ull / std::max<uint32_t>(1, step)) + 1 + uint32_t(r.below(100));
      i.height = 1;
      break;
    default:
      i.point_step = r.pick<uint32_t>({0xffffffffu, 0x80000000u, 0xffffff00u, 0x10000000u});
      i.width = uint32_t(r.range(1, 100));
      i.height = uint32_t(r.range(1, 1000));
      break;
  }
}
// Other dimensions whose product is n when it is computed in 32 bits.
inline bool wrappingDims(Rng& r, uint64_t n, uint32_t& w, uint32_t& h) {
  if (n == 0 && r.chance(0.5)) {
    const int k = int(r.range(1, 31));
    w = uint32_t(1) << k;
    h = uint32_t(1) << (32 - k);
    return true;
  }
  h = uint32_t(r.next() >> r.below(29)) | 1;
  uint32_t inv = h;
  for (int i = 0; i < 5; ++i) inv *= 2 - h * inv;
  w = uint32_t(n) * inv;
  if (r.chance(0.5)) std::swap(w, h);
  return uint64_t(w) * h != n;
}

}  // namespace vh
