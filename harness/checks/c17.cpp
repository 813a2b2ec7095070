// C17: decoding writes only the bytes of the fields asked for
#include "h_cloud.hpp"
#include "h_ref.hpp"
using namespace vh;

uint64_t numCases(const Ctx& c) { return c.thorough() ? 80000 : 10000; }

void runCase(Ctx& ctx, uint64_t idx) {
  Rng r = ctx.rng();
  LayoutOpts o;
  o.max_fields = 7;
  o.alias = false;
  const bool foreign = r.chance(0.3);  // a stream of another encoder (the reference one), in any form the format allows
  if (foreign) o.versions = {2, 3, 4, 5};
  if (r.chance(0.3)) o.versions = {5};
  EncodingInfo info = genLayout(r, o);
  if (info.fields.size() > 40) info.fields.resize(40);
  const size_t n = foreign ? size_t(r.range(1, 3000)) : pickCountFor(r, info);
  setDims(r, info, n);
  ctx.label(describe(info));
  DataOpts dopt;
  dopt.wild = false;
  const Bytes data = genData(r, info, n, dopt);
  Bytes payload;
  if (foreign) {
    payload = ref::encodePayload(info, data.data(), n, ref::randomModes(r, info));
  } else {
    Bytes s = encodeCloud(info, data);
    payload.assign(s.begin() + long(headerSize(s)), s.end());
  }
  // fields to skip
  EncodingInfo ask = info;
  const int style = int(r.below(4));
  size_t skipped = 0;
  for (size_t i = 0; i < ask.fields.size(); ++i) {
    const bool skip = style == 0 ? false : style == 1 ? r.chance(0.3) : style == 2 ? r.chance(0.8) : i == r.below(ask.fields.size());
    if (skip) {
      ask.fields[i].offset = kDecodeButSkipStore;
      ++skipped;
      ctx.count(std::string("skipped_") + typeName(ask.fields[i].type));
    }
  }
  // room after the cloud that must not be touched either
  const size_t tail = size_t(r.pick({0, 1, 64})) * (r.chance(0.5) ? info.point_step : 1);
  Block in(payload);
  Block full(data.size()), a(data.size() + tail), b(data.size() + tail);
  memset(full.p, 0, full.n);
  memset(a.p, 0x5C, a.n);
  memset(b.p, 0xA3, b.n);
  std::string what;
  if (throwsException([&] {
        PointcloudDecoder d;
        d.decode(info, in.view(), full.mview());
        d.decode(ask, in.view(), a.mview());
        PointcloudDecoder d2;
        d2.decode(ask, in.view(), b.mview());
      }, &what)) {
    ctx.violate("refused", "decoding failed: " + what + " in " + describe(ask) + (foreign ? " (reference stream)" : ""));
    return;
  }
  std::vector<char> written(info.point_step, 0);
  for (auto& f : ask.fields)
    if (f.offset != kDecodeButSkipStore)
      for (size_t k = 0; k < typeSize(f.type); ++k) written[f.offset + k] = 1;
  uint64_t kept = 0, stored = 0;
  for (size_t i = 0; i < n; ++i)
    for (size_t k = 0; k < info.point_step; ++k) {
      const size_t at = i * info.point_step + k;
      if (written[k]) {
        ++stored;
        if (a.p[at] != full.p[at] || b.p[at] != full.p[at]) {
          ctx.violate("other-field-affected", fmt("byte %zu of point %zu is %02x, %02x when nothing is skipped, in ", k, i, a.p[at], full.p[at]) + describe(ask));
          return;
        }
      } else {
        ++kept;
        if (a.p[at] != 0x5C || b.p[at] != 0xA3) {
          ctx.violate("wrote-outside-fields", fmt("byte %zu of point %zu overwritten with %02x in ", k, i, a.p[at]) + describe(ask));
          return;
        }
      }
    }
  for (size_t at = data.size(); at < a.n; ++at)
    if (a.p[at] != 0x5C || b.p[at] != 0xA3) {
      ctx.violate("wrote-past-cloud", fmt("byte %zu past the cloud overwritten in ", at - data.size()) + describe(ask));
      return;
    }
  ctx.count("bytes_that_kept_the_callers_value", kept);
  ctx.count("bytes_of_fields_compared", stored);
  if (foreign) ctx.count("reference_streams");
  ctx.count("fields_skipped", skipped);
  ctx.nontrivial(hashBytes(payload.data(), payload.size()) ^ infoClass(ask) ^ (skipped << 20));
  if (idx % 997 == 3) ctx.sample(describe(ask));
}
void finishWorker(Ctx&) {}
