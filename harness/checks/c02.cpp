// C02: lossy float error within half the resolution; NaN stays NaN
#include "h_cloud.hpp"
using namespace vh;

uint64_t numCases(const Ctx& c) { return c.thorough() ? 120000 : 14000; }

// every quantized column of the decoded cloud, with the largest error seen relative to the bound
void runCase(Ctx& ctx, uint64_t) {
  Rng r = ctx.rng();
  LayoutOpts o;
  o.p_float = r.chance(0.5) ? 0.9 : 0.4;
  o.encodings = {1};
  o.max_fields = 6;
  EncodingInfo info = genLayout(r, o);
  bool any = false;
  for (auto& f : info.fields) any |= isQuantized(info, f);
  if (!any) {
    PointField f;
    f.name = "q";
    f.type = r.chance(0.5) ? FieldType::FLOAT32 : FieldType::FLOAT64;
    f.resolution = pickResolution(r, true);
    f.offset = info.point_step;
    info.point_step += uint32_t(typeSize(f.type));
    info.fields.push_back(f);
  }
  const size_t n = pickCountFor(r, info, ctx.thorough());
  setDims(r, info, n);
  ctx.label(describe(info));
  const Bytes data = genData(r, info, n);
  Bytes stream = encodeCloud(info, data);
  const bool binary_header = r.chance(0.2);
  if (binary_header) {  // the same payload behind the other form of the header
    const size_t h = headerSize(stream);
    Bytes hdr;
    EncodeHeader(info, hdr, HeaderEncoding::BINARY);
    hdr.insert(hdr.end(), stream.begin() + long(h), stream.end());
    stream = hdr;
  }
  const Decoded d = decodeStream(stream);
  FidelityStats st;
  std::string diff;
  if (d.data.size() != data.size() || d.info.fields.size() != info.fields.size())
    diff = fmt("decoded %zu bytes instead of %zu", d.data.size(), data.size());
  else
    diff = compareClouds(info, data.data(), d.data.data(), n, kQuant, st);
  if (!diff.empty()) ctx.violate("error-bound", diff + " in " + describe(info));
  st.report(ctx);
  ctx.count(fmt("group_of_%zu", leadingGroup(info)));
  if (binary_header) ctx.count("binary_headers");
  if (n > 32768) ctx.count("multi_chunk_streams");
  if (n > 8 * 32768) ctx.count("streams_of_more_than_8_chunks");
  ctx.nontrivial(hashBytes(stream.data(), stream.size()));
  if (ctx.idx % 997 == 3) ctx.sample(describe(info));
}
void finishWorker(Ctx&) {}
