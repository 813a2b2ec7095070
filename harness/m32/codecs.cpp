// LZ4 and Zstandard for the 32-bit builds (the sandbox has no 32-bit libraries of them). Valid blocks and frames of
// the published formats, made of literals only; the LZ4 decoder is complete, the Zstandard one reads raw and RLE blocks.
#include <cstdint>
#include <cstring>
#include <lz4.h>
#include <zstd.h>

extern "C" {
int LZ4_compressBound(int n) { return LZ4_COMPRESSBOUND(n); }
int LZ4_compress_default(const char* src, char* dst, int n, int cap) {
  if (n < 0 || n > LZ4_MAX_INPUT_SIZE) return 0;
  long long need = 1 + n;
  if (n >= 15) need += (n - 15) / 255 + 1;
  if (need > cap) return 0;
  uint8_t* o = reinterpret_cast<uint8_t*>(dst);
  *o++ = uint8_t((n < 15 ? n : 15) << 4);
  if (n >= 15) {
    int r = n - 15;
    for (; r >= 255; r -= 255) *o++ = 255;
    *o++ = uint8_t(r);
  }
  if (n) memcpy(o, src, size_t(n));
  return int(need);
}
int LZ4_decompress_safe(const char* src, char* dst, int n, int cap) {
  const uint8_t *p = reinterpret_cast<const uint8_t*>(src), *e = p + n;
  int at = 0;
  if (n <= 0) return -1;
  for (;;) {
    if (p == e) return -1;
    const unsigned token = *p++;
    long long lit = token >> 4;
    if (lit == 15)
      for (;;) {
        if (p == e) return -1;
        lit += *p;
        if (*p++ != 255) break;
      }
    if (lit > e - p || lit > cap - at) return -1;
    if (lit) memcpy(dst + at, p, size_t(lit));
    p += lit;
    at += int(lit);
    if (p == e) return at;
    if (e - p < 2) return -1;
    const int off = p[0] | p[1] << 8;
    p += 2;
    if (!off || off > at) return -1;
    long long len = token & 15;
    if (len == 15)
      for (;;) {
        if (p == e) return -1;
        len += *p;
        if (*p++ != 255) break;
      }
    len += 4;
    if (len > cap - at) return -1;
    for (; len; --len, ++at) dst[at] = dst[at - off];
  }
}

size_t ZSTD_compressBound(size_t n) { return ZSTD_COMPRESSBOUND(n); }
unsigned ZSTD_isError(size_t c) { return c > size_t(-120); }
const char* ZSTD_getErrorName(size_t) { return "error"; }
size_t ZSTD_compress(void* dst, size_t cap, const void* src, size_t n, int) {
  const size_t blocks = n ? (n + 131071) / 131072 : 1;
  uint64_t need = 4 + 1 + 8 + 3ull * blocks + n;
  // small frames: a size field of 4 bytes, and the bound of the library must hold
  uint8_t* o = static_cast<uint8_t*>(dst);
  const bool one = n < 256;
  need = 4 + 1 + (one ? 1 : 4) + 3ull * blocks + n;
  if (need > cap) return size_t(-70);
  const uint32_t magic = 0xFD2FB528u;
  memcpy(o, &magic, 4);
  o += 4;
  *o++ = one ? 0x20 : 0xA0;
  if (one) *o++ = uint8_t(n);
  else {
    const uint32_t v = uint32_t(n);
    memcpy(o, &v, 4);
    o += 4;
  }
  const uint8_t* s = static_cast<const uint8_t*>(src);
  for (size_t b = 0; b < blocks; ++b) {
    const size_t k = n - b * 131072 < 131072 ? n - b * 131072 : 131072;
    const uint32_t h = uint32_t(k << 3) | (b + 1 == blocks ? 1 : 0);
    *o++ = uint8_t(h);
    *o++ = uint8_t(h >> 8);
    *o++ = uint8_t(h >> 16);
    if (k) memcpy(o, s, k);
    o += k;
    s += k;
  }
  return size_t(need);
}
size_t ZSTD_decompress(void* dst, size_t cap, const void* src, size_t n) {
  const uint8_t *p = static_cast<const uint8_t*>(src), *e = p + n;
  uint8_t* d = static_cast<uint8_t*>(dst);
  size_t at = 0;
  while (p != e) {
    if (e - p < 6) return size_t(-72);
    uint32_t magic;
    memcpy(&magic, p, 4);
    if (magic != 0xFD2FB528u) return size_t(-10);
    const uint8_t fd = p[4];
    if ((fd & 0x3f) != 0x20) return size_t(-14);  // single segment, no checksum, no dictionary
    p += 5;
    const size_t w = fd >> 6 == 0 ? 1 : size_t(1) << (fd >> 6);
    if (size_t(e - p) < w) return size_t(-72);
    uint64_t size = 0;
    memcpy(&size, p, w);
    if (w == 2) size += 256;
    p += w;
    const size_t begin = at;
    for (bool last = false; !last;) {
      if (e - p < 3) return size_t(-72);
      const uint32_t h = uint32_t(p[0] | p[1] << 8 | p[2] << 16);
      p += 3;
      last = h & 1;
      const unsigned type = (h >> 1) & 3;
      const size_t k = h >> 3;
      if (type > 1 || k > 131072) return size_t(-20);
      if (k > cap - at) return size_t(-70);
      if (type == 0) {
        if (size_t(e - p) < k) return size_t(-72);
        if (k) memcpy(d + at, p, k);
        p += k;
      } else {
        if (p == e) return size_t(-72);
        memset(d + at, *p++, k);
      }
      at += k;
    }
    if (at - begin != size) return size_t(-20);
  }
  return at;
}
unsigned long long ZSTD_getFrameContentSize(const void*, size_t) { return ZSTD_CONTENTSIZE_UNKNOWN; }
}
