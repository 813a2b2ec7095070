// Mutations of byte strings and of encoded payloads.
#pragma once
#include "h_ref.hpp"

namespace vh {

inline void mutateBytes(Rng& r, Bytes& b, int times) {
  for (int t = 0; t < times; ++t) {
    const size_t n = b.size();
    switch (r.below(11)) {
      case 0:
        if (n) b[r.below(n)] ^= uint8_t(1u << r.below(8));
        break;
      case 1:
        if (n) b[r.below(n)] = uint8_t(r.next());
        break;
      case 2:
        if (n) b[r.below(n)] = r.pick<uint8_t>({0, 1, 0x7f, 0x80, 0xff, 0xfe, 2, 3});
        break;
      case 3:  // cut
        b.resize(r.below(n + 1));
        break;
      case 4: {  // insert
        Bytes ins(size_t(r.range(1, 12)), uint8_t(r.pick({0, 0xff, 0x80, int(r.below(256))})));
        b.insert(b.begin() + long(r.below(n + 1)), ins.begin(), ins.end());
      } break;
      case 5:  // erase
        if (n) {
          const size_t at = r.below(n), len = 1 + r.below(std::min<size_t>(n - at, 12));
          b.erase(b.begin() + long(at), b.begin() + long(at + len));
        }
        break;
      case 6:  // duplicate a piece
        if (n) {
          const size_t at = r.below(n), len = 1 + r.below(std::min<size_t>(n - at, 64));
          Bytes piece(b.begin() + long(at), b.begin() + long(at + len));
          b.insert(b.begin() + long(r.below(n)), piece.begin(), piece.end());
        }
        break;
      case 7: {  // overwrite a word
        if (n < 2) break;
        const size_t w = r.pick<size_t>({2, 4, 8});
        const uint64_t v = r.pick<uint64_t>({0, 1, ~0ull, 0x7fffffff, 0x80000000, 0xffffffff, 0x8000, 0x7fff, 32768, 32769, 0x10000, r.next(), r.below(1000)});
        const size_t at = r.below(n);
        for (size_t k = 0; k < w && at + k < n; ++k) b[at + k] = uint8_t(v >> (8 * k));
      } break;
      case 8: {  // a varint of chosen length
        Bytes v;
        const int len = int(r.range(1, 12));
        for (int k = 0; k < len - 1; ++k) v.push_back(uint8_t(0x80 | (r.chance(0.5) ? 0x7f : r.below(128))));
        v.push_back(r.pick<uint8_t>({0, 1, 2, 0x7f, 0x01, 0x03}));
        const size_t at = r.below(n + 1);
        if (r.chance(0.5)) b.insert(b.begin() + long(at), v.begin(), v.end());
        else for (size_t k = 0; k < v.size() && at + k < n; ++k) b[at + k] = v[k];
      } break;
      case 9:  // noise over a range
        if (n) {
          const size_t at = r.below(n), len = 1 + r.below(std::min<size_t>(n - at, 40));
          for (size_t k = 0; k < len; ++k) b[at + k] = uint8_t(r.next());
        }
        break;
      default:  // tail replaced by 0xff or 0x00 or 0x80
        if (n) {
          const size_t at = r.below(n);
          const uint8_t c = r.pick<uint8_t>({0, 0xff, 0x80});
          for (size_t k = at; k < n; ++k) b[k] = c;
        }
        break;
    }
  }
}

inline Bytes joinChunks(const EncodingInfo& info, const std::vector<Bytes>& stage1, const ref::Modes& m) {
  if (info.version < 3) return stage1.empty() ? Bytes() : ref::compress2(info, stage1[0], m);
  Bytes o;
  for (auto& s : stage1) {
    const Bytes c = ref::compress2(info, s, m);
    ref::putRawT<uint32_t>(o, uint32_t(c.size()));
    o.insert(o.end(), c.begin(), c.end());
  }
  return o;
}

// an adaptive section with hostile counts and contents
inline Bytes hostileSection(Rng& r, size_t w, size_t n) {
  Bytes o;
  const int mode = int(r.pick({0, 1, 1, 1, 2, 2, 2, 3, 3, 3, 4, 255}));
  o.push_back(uint8_t(mode));
  auto count = [&]() -> uint64_t {
    return r.pick<uint64_t>({0, 1, 2, n, n + 1, n - 1, 0xffffffffull, 0x7fffffffull, 0x80000000ull, 65535, 65536, 32768, r.below(20)});
  };
  auto runlen = [&]() -> u128 {
    return r.pick<uint64_t>({0, 1, n, n + 1, n - 1, n / 2, ~0ull, ~0ull - n + 1, 1ull << 63, (1ull << 63) - 1, 1ull << 32, 0xffffffffull, r.below(10)});
  };
  switch (mode) {
    case 1: {
      const uint64_t k = r.chance(0.4) ? 1 + r.below(40) : count();
      ref::putRawT<uint16_t>(o, uint16_t(k));
      const size_t have = size_t(r.chance(0.8) ? (k & 0xffff) : r.below(10));
      for (size_t i = 0; i < std::min<size_t>(have, 70000); ++i) ref::putBytes(o, r.next(), w);
      const size_t bits = r.chance(0.6) ? (n * size_t(ref::bitsFor(size_t(k & 0xffff))) + 7) / 8 : r.below(50);
      for (size_t i = 0; i < bits; ++i) o.push_back(uint8_t(r.chance(0.7) ? r.next() : 0xff));
    } break;
    case 2: case 3: {
      const bool fits = r.chance(0.5);
      const size_t k = r.below(6);
      ref::putRawT<uint32_t>(o, uint32_t(fits ? k : count()));
      for (size_t i = 0; i < k; ++i) {
        if (mode == 2) ref::putBytes(o, r.next(), w);
        else if (r.chance(0.1)) o.push_back(0);
        else ref::putS(o, r.pick<int64_t>({0, 1, -1, INT64_MIN, INT64_MAX, int64_t(r.next())}));
        ref::putU(o, runlen());
      }
    } break;
    default:
      for (size_t i = 0; i < n; ++i) {
        if (r.chance(0.02)) o.push_back(0);
        else ref::putS(o, r.pick<int64_t>({0, 1, -1, INT64_MIN, INT64_MAX, int64_t(r.next())}));
      }
  }
  return o;
}
}  // namespace vh
