// C03: floats not subject to quantization are reproduced bit for bit
#include "h_cloud.hpp"
using namespace vh;

uint64_t numCases(const Ctx& c) { return c.thorough() ? 120000 : 14000; }
void runCase(Ctx& ctx, uint64_t) {
  Rng r = ctx.rng();
  LayoutOpts o;
  o.p_float = r.chance(0.5) ? 0.9 : 0.5;
  o.encodings = {1, 2, 2, 0};
  o.force_lead = r.chance(0.5) ? 0 : -1;
  EncodingInfo info = genLayout(r, o);
  bool any = false;
  for (auto& f : info.fields) any |= isFloat(f.type) && !isQuantized(info, f);
  if (!any) {
    PointField f;
    f.name = "e";
    f.type = r.chance(0.4) ? FieldType::FLOAT32 : FieldType::FLOAT64;
    f.offset = info.point_step;
    info.point_step += uint32_t(typeSize(f.type));
    info.fields.push_back(f);
  }
  const size_t n = pickCountFor(r, info, ctx.thorough());
  setDims(r, info, n);
  ctx.label(describe(info));
  const Bytes data = genData(r, info, n);
  const Bytes stream = encodeCloud(info, data);
  const Decoded d = decodeStream(stream);
  FidelityStats st;
  std::string diff;
  if (d.data.size() != data.size() || d.info.fields.size() != info.fields.size())
    diff = fmt("decoded %zu bytes instead of %zu", d.data.size(), data.size());
  else
    diff = compareClouds(info, data.data(), d.data.data(), n, kExactFloats, st);
  if (!diff.empty()) ctx.violate("float-bits", diff + " in " + describe(info));
  st.report(ctx);
  ctx.count(fmt("streams_%s_v%d", ToString(info.encoding_opt), info.version));
  if (n > 32768) ctx.count("multi_chunk_streams");
  if (n > 8 * 32768) ctx.count("streams_of_more_than_8_chunks");
  ctx.nontrivial(hashBytes(stream.data(), stream.size()));
  if (ctx.idx % 997 == 3) ctx.sample(describe(info));
}
void finishWorker(Ctx&) {}
