// C01: integer and byte columns survive encode/decode exactly
#include "h_cloud.hpp"
using namespace vh;

uint64_t numCases(const Ctx& c) { return c.thorough() ? 120000 : 16000; }
void runCase(Ctx& ctx, uint64_t) {
  Rng r = ctx.rng();
  LayoutOpts o;
  o.p_float = r.chance(0.3) ? 0.5 : 0.15;
  o.alias = true;
  if (r.chance(0.4)) o.force_lead = int(r.pick({0, 3, 4}));
  o.min_fields = 1;
  EncodingInfo info = genLayout(r, o);
  bool any = false;
  for (auto& f : info.fields) any |= isInt(f.type);
  if (!any) {
    PointField f;
    f.name = "i";
    f.type = FieldType(r.pick({1, 2, 3, 4, 5, 6, 9, 10}));
    f.offset = info.point_step;
    info.point_step += uint32_t(typeSize(f.type));
    info.fields.push_back(f);
  }
  const size_t n = pickCountFor(r, info, ctx.thorough());
  setDims(r, info, n);
  ctx.label(describe(info));
  const Bytes data = genData(r, info, n);
  const Bytes stream = encodeCloud(info, data);
  const Decoded d = decodeStream(stream);
  FidelityStats st;
  std::string diff;
  if (d.data.size() != data.size() || d.info.fields.size() != info.fields.size()) {
    diff = fmt("decoded %zu bytes instead of %zu", d.data.size(), data.size());
  } else {
    diff = compareClouds(info, data.data(), d.data.data(), n, kInts, st);
  }
  if (!diff.empty()) ctx.violate("integer-mismatch", diff + " in " + describe(info));
  st.report(ctx);
  ctx.count(fmt("streams_v%d", info.version));
  if (hasAdaptive(info)) ctx.count("streams_with_adaptive_columns");
  if (n > 32768) ctx.count("multi_chunk_streams");
  if (n > 8 * 32768) ctx.count("streams_of_more_than_8_chunks");
  ctx.nontrivial(hashBytes(stream.data(), stream.size()));
  if (ctx.idx % 997 == 3) ctx.sample(describe(info) + " -> " + std::to_string(stream.size()) + " bytes");
}
void finishWorker(Ctx&) {}
