// C22: requests that cannot be honoured are refused and leave the encoder usable
#include "h_cloud.hpp"
using namespace vh;

uint64_t numCases(const Ctx& c) { return c.thorough() ? 100000 : 12000; }

// a request made with a description that is itself invalid: it must be refused at construction or at encoding
static void badDescription(Ctx& ctx, Rng& r) {
  LayoutOpts o;
  o.max_fields = 6;
  EncodingInfo info = genLayout(r, o);
  const size_t k = r.below(info.fields.size());
  std::string how;
  switch (r.below(5)) {
    case 0:
      switch (r.below(3)) {
        case 0:
          info.version = uint8_t(r.pick({0, 1, 2, 6, 7, 10, 99, 100, 255}));
          how = fmt("version %d", int(info.version));
          break;
        case 1:
          info.encoding_opt = EncodingOptions(r.pick({3, 4, 100, 255}));
          how = fmt("encoding %d", int(info.encoding_opt));
          break;
        default:
          info.compression_opt = CompressionOption(r.pick({3, 4, 100, 255}));
          how = fmt("compression %d", int(info.compression_opt));
      }
      break;
    case 4:
      info.point_step = 0;
      how = "point_step 0";
      break;
    case 1: {  // field outside the point
      auto& f = info.fields[k];
      const uint32_t sz = uint32_t(typeSize(f.type));
      const uint32_t first_bad = info.point_step - sz + 1;
      f.offset = uint32_t(r.pick({uint64_t(first_bad), uint64_t(info.point_step), uint64_t(info.point_step) + r.below(1000),
                                  uint64_t(0xFFFFFFFFu), uint64_t(0xFFFFFFFEu), uint64_t(0xFFFFFFFFu - sz + 1), uint64_t(0x7FFFFFFFu),
                                  uint64_t(0x80000000u), uint64_t(first_bad) + r.below(8)}));
      how = fmt("field %zu at offset %u", k, f.offset);
    } break;
    case 2: {
      auto& f = info.fields[k];
      f.type = FieldType(r.pick({0, 11, 12, 100, 255}));
      f.resolution.reset();
      how = fmt("field %zu of type %d", k, int(f.type));
    } break;
    default: {
      info.encoding_opt = EncodingOptions::LOSSY;
      auto& f = info.fields[k];
      if (!isFloat(f.type)) {
        f.type = FieldType::FLOAT32;
        f.offset = 0;
        info.point_step = std::max<uint32_t>(info.point_step, 4);
      }
      const float inf = std::numeric_limits<float>::infinity();
      if (r.chance(0.3)) f.resolution = f.type == FieldType::FLOAT32 && r.chance(0.5) ? r.pick({1e-39f, 1e-40f, 1.4e-45f, 2.5e-39f}) : r.pick({inf, std::nanf("")});
      else f.resolution = r.pick({0.0f, -0.0f, -0.001f, -1.0f, -1e-30f, -std::numeric_limits<float>::infinity()});
      how = fmt("field %zu with resolution %g", k, *f.resolution);
    }
  }
  const size_t n = size_t(r.range(1, 300));
  setDims(r, info, n);
  ctx.label(how + " in " + describe(info));
  const size_t step = std::max<uint32_t>(1, info.point_step);
  Bytes data(n * step);
  r.fill(data.data(), data.size());
  Block in(data);
  const bool vec = r.chance(0.5);
  Block room(1 << 20);
  const bool threw = throwsException([&] {
    PointcloudEncoder enc(info);
    if (vec) {
      Bytes out;
      enc.encode(in.view(), out);
    } else {
      BufferView v = room.mview();
      enc.encode(in.view(), v, true);
    }
  });
  ctx.count("bad_descriptions");
  if (!threw) ctx.violate("bad-description-accepted", how + " accepted in " + describe(info));
  // decoding with such a description is refused just as well (the skip marker is legal there)
  if (how.find("offset") != std::string::npos) {
    bool skip = false;
    for (auto& f : info.fields) skip |= f.offset == kDecodeButSkipStore;
    if (!skip) {
      Block out(data.size());
      Bytes noise(size_t(r.range(1, 3000)));
      r.fill(noise.data(), noise.size());
      uint32_t s = uint32_t(noise.size() - 4);
      if (noise.size() > 4) memcpy(noise.data(), &s, 4);
      Block bn(noise);
      if (!throwsException([&] { PointcloudDecoder d; d.decode(info, bn.view(), out.mview()); }))
        ctx.violate("bad-description-decoded", how + " accepted by the decoder in " + describe(info));
    }
  }
  ctx.nontrivial(hashStr(how) ^ infoClass(info));
}

// refused calls on a good encoder, then valid ones
static void badCalls(Ctx& ctx, Rng& r) {
  LayoutOpts o;
  o.max_fields = 6;
  EncodingInfo info = genLayout(r, o);
  const size_t n = pickCountFor(r, info);
  setDims(r, info, n);
  ctx.label("refusals then " + describe(info));
  const Bytes data = genData(r, info, n);
  const Bytes want = encodeCloud(info, data);
  Block in(data);
  PointcloudEncoder enc(info);
  const int rounds = int(r.range(1, 3));
  std::string history;
  if (r.chance(0.4)) {  // one of the allocations of the first request fails
    Block room(MaxCompressedSize(info, n, true));
    uint64_t per = 0;
    {
      PointcloudEncoder other(info);
      BufferView v = room.mview();
      const uint64_t a0 = AllocMonitor::made;
      other.encode(in.view(), v, true);
      per = AllocMonitor::made - a0;
    }
    BufferView v = room.mview();
    AllocMonitor::failed = false;
    AllocMonitor::fail_in = per ? int(r.chance(0.5) ? 1 : r.range(1, int64_t(per))) : 0;
    try {
      enc.encode(in.view(), v, true);
    } catch (const std::exception&) {
      ctx.count("allocation_failures_reported");
    }
    AllocMonitor::fail_in = 0;
    history += "allocation ";
  }
  for (int k = 0; k < rounds; ++k) {
    const int refusals = int(r.range(1, 3));
    for (int q = 0; q < refusals; ++q) {
      if (r.chance(0.5) && info.point_step > 1) {
        const size_t cut = data.size() - 1 - r.below(info.point_step - 1);
        Block bad(data.data(), cut);
        const bool vec = r.chance(0.5);
        Bytes out;
        Block room(MaxCompressedSize(info, n, true));
        BufferView v = room.mview();
        const bool threw = throwsException([&] {
          if (vec) enc.encode(bad.view(), out);
          else enc.encode(bad.view(), v, true);
        });
        if (!threw) ctx.violate("partial-point-accepted", fmt("%zu bytes accepted in ", cut) + describe(info));
        history += "partial ";
        ctx.count("partial_points_refused");
      } else {
        const bool hdr = r.chance(0.5);
        const size_t bound = MaxCompressedSize(info, n, false) + (hdr ? enc.getHeader().size() : 0);
        const size_t sz = r.chance(0.4) ? bound - 1 : r.below(bound);
        Block room(sz);
        memset(room.p, 0x42, room.n);
        BufferView v = room.mview();
        if (!throwsException([&] { enc.encode(in.view(), v, hdr); }))
          ctx.violate("small-output-accepted", fmt("output of %zu bytes accepted, bound %zu in ", sz, bound) + describe(info));
        history += "small ";
        ctx.count("small_outputs_refused");
      }
    }
    Bytes got;
    std::string what;
    if (throwsException([&] { enc.encode(in.view(), got); }, &what)) {
      ctx.violate("unusable-after-refusal", "after [" + history + "]: " + what + " in " + describe(info));
      return;
    }
    if (got != want) {
      ctx.violate("wrong-after-refusal", "after [" + history + "] different bytes in " + describe(info));
      return;
    }
    const Decoded d = decodeStream(got);
    FidelityStats st;
    const std::string diff = compareClouds(info, data.data(), d.data.data(), n, kInts | kQuant | kExactFloats, st);
    if (!diff.empty()) {
      ctx.violate("wrong-after-refusal", "after [" + history + "] " + diff + " in " + describe(info));
      return;
    }
    ctx.count("valid_encodes_after_refusals");
  }
  ctx.nontrivial(hashBytes(want.data(), want.size()) ^ hashStr(history));
  if (ctx.idx % 499 == 3) ctx.sample(history + describe(info));
}

// points so large that the buffers of a chunk do not fit in 32 bits (on 64 bits they would be several GB)
static void hugePoints(Ctx& ctx, Rng& r) {
  LayoutOpts o;
  o.max_fields = 6;
  EncodingInfo info = genLayout(r, o);
  info.point_step = std::max<uint32_t>(info.point_step, 131072u * uint32_t(r.range(1, 8)) - 64 * uint32_t(r.below(3)) + uint32_t(r.below(3)) - 1);
  const size_t n = size_t(r.range(1, 12));
  setDims(r, info, n);
  ctx.label("huge points " + describe(info));
  Bytes data(n * info.point_step);
  r.fill(data.data(), std::min<size_t>(data.size(), 4096));
  Block in(data);
  Bytes got;
  // refused, or encoded and decodable
  if (!throwsException([&] { PointcloudEncoder e(info); e.encode(in.view(), got); })) {
    const Decoded d = decodeStream(got);
    FidelityStats st;
    const std::string diff = compareClouds(info, data.data(), d.data.data(), n, kInts, st);
    if (!diff.empty()) ctx.violate("huge-points", diff + " in " + describe(info));
    ctx.count("huge_points_encoded");
  } else {
    ctx.count("huge_points_refused");
  }
}

void runCase(Ctx& ctx, uint64_t idx) {
  Rng r = ctx.rng();
  if (sizeof(size_t) == 4 && idx % 8 == 0) return hugePoints(ctx, r);
  if (idx % 2) badCalls(ctx, r);
  else badDescription(ctx, r);
}
void finishWorker(Ctx&) {}
