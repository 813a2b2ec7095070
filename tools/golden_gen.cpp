// Writes golden/streams.zst with the library it is linked to (the release this work started from): streams of format
// versions 3 to 5 in every encoding and compression, each with the cloud that release decodes from it.
#include "h_cloud.hpp"
#include <zstd.h>
using namespace vh;
uint64_t numCases(const Ctx&) { return 1; }
void runCase(Ctx& ctx, uint64_t) {
  Bytes all;
  auto put32 = [&](size_t v) { for (int i = 0; i < 4; ++i) all.push_back(uint8_t(v >> (8 * i))); };
  uint64_t made = 0;
  for (uint64_t k = 0; made < 405; ++k) {
    Rng r(mix64(k + 4711));
    LayoutOpts o;
    o.versions = {int(3 + made % 3)};
    o.encodings = {int(made / 3 % 3)};
    o.compressions = {int(made / 9 % 3)};
    o.extremes = false;
    o.wide_res = false;
    EncodingInfo info = genLayout(r, o);
    size_t n = made % 27 == 13 && info.point_step < 20 ? 32768 + size_t(r.below(4000)) : made % 9 == 7 ? 4096 + size_t(r.below(300)) : size_t(r.range(1, 150));
    setDims(r, info, n);
    DataOpts d;
    d.wild = false;
    Bytes data = genData(r, info, n, d);
    if (n > 1000)  // compressible: repeat the beginning, the rest of the point is zero
      for (size_t i = 0; i < n; ++i)
        memcpy(&data[i * info.point_step], &data[(i % 97) * info.point_step], info.point_step);
    Bytes stream;
    Decoded back;
    try {
      stream = encodeCloud(info, data);
      back = decodeStream(stream, 0);
    } catch (const std::exception&) {
      continue;
    }
    FidelityStats st;
    if (back.data.size() != data.size() || !compareClouds(back.info, data.data(), back.data.data(), n, kAllAspects, st).empty()) continue;
    put32(stream.size());
    all.insert(all.end(), stream.begin(), stream.end());
    put32(back.data.size());
    all.insert(all.end(), back.data.begin(), back.data.end());
    ++made;
  }
  Bytes z(ZSTD_compressBound(all.size()));
  z.resize(ZSTD_compress(z.data(), z.size(), all.data(), all.size(), 19));
  FILE* f = fopen((ctx.dir + "/streams.zst").c_str(), "wb");
  fwrite(z.data(), 1, z.size(), f);
  fclose(f);
  fprintf(stderr, "%llu streams, %zu bytes, %zu compressed\n", (unsigned long long)made, all.size(), z.size());
}
void finishWorker(Ctx&) {}
