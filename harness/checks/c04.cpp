// C04: decoding arbitrary bytes is memory-safe and terminates
#include "h_mut.hpp"
using namespace vh;

uint64_t numCases(const Ctx& c) { return c.thorough() ? 120000 : 6000; }

struct Outcome {
  bool threw = false;
  std::string what;
  uint64_t out = 0;
};

static Outcome attempt(const EncodingInfo& info, const Bytes& payload, size_t out_size, int fill, PointcloudDecoder* reuse) {
  Outcome o;
  Block in(payload);
  Block out(out_size);
  memset(out.p, 0x3C, out.n);
  AllocMonitor::fill = fill;
  try {
    PointcloudDecoder fresh;
    (reuse ? *reuse : fresh).decode(info, in.view(), out.mview());
  } catch (const std::exception& e) {
    o.threw = true;
    o.what = e.what();
  }
  AllocMonitor::fill = -1;
  o.out = hashBytes(out.p, out.n);
  if (hashBytes(in.p, in.n) != hashBytes(payload.data(), payload.size())) o.what = "INPUT MODIFIED";
  return o;
}

static void mutateDescription(Rng& r, EncodingInfo& i) {
  switch (r.below(11)) {
    case 0: i.version = uint8_t(r.pick({2, 3, 4, 5, 0, 1, 6, 255})); break;
    case 1: i.encoding_opt = EncodingOptions(r.below(3)); break;
    case 2: i.compression_opt = CompressionOption(r.below(3)); break;
    case 3: i.width = uint32_t(r.pick<uint64_t>({0, 1, i.width + 1ull, i.width ? i.width - 1ull : 0, i.width * 2ull, i.width + 32768ull, 40000})); break;
    case 4: i.height = uint32_t(r.pick({0, 1, 2, 3})); break;
    case 5:
      if (!i.fields.empty()) i.fields[r.below(i.fields.size())].type = FieldType(r.below(11));
      break;
    case 6:
      if (!i.fields.empty())
        i.fields[r.below(i.fields.size())].offset = r.pick<uint32_t>({0, i.point_step, i.point_step - 1, i.point_step - 4, i.point_step - 8,
                                                                      0xffffffffu, 0xfffffffeu, 0xfffffffcu, 0x80000000u, uint32_t(r.below(i.point_step + 4))});
      break;
    case 7:
      if (!i.fields.empty()) {
        auto& f = i.fields[r.below(i.fields.size())];
        if (r.chance(0.3)) f.resolution.reset();
        else f.resolution = r.pick({0.0f, -1.0f, 1e-38f, 1e-45f, 3e38f, INFINITY, NAN, 0.001f, -INFINITY});
      }
      break;
    case 8:
      if (!i.fields.empty()) i.fields.erase(i.fields.begin() + long(r.below(i.fields.size())));
      break;
    case 9:
      if (!i.fields.empty()) i.fields.push_back(i.fields[r.below(i.fields.size())]);
      break;
    default: i.point_step = r.pick<uint32_t>({0, 1, i.point_step + 1, i.point_step ? i.point_step - 1 : 0, i.point_step * 2, 3}); break;
  }
}

void runCase(Ctx& ctx, uint64_t idx) {
  Rng r = ctx.rng();
  LayoutOpts o;
  o.max_fields = 5;
  o.alias = true;
  o.versions = {2, 3, 4, 5, 5, 5, 5};
  EncodingInfo info = genLayout(r, o);
  if (info.point_step > 2000) return;
  const bool big = idx % 12 == 0;
  size_t n = big ? std::min<size_t>(pickCountFor(r, info), (4u << 20) / info.point_step + 1) : size_t(r.range(1, 80));
  setDims(r, info, n);
  ctx.label(describe(info));
  DataOpts dopt;
  dopt.wild = r.chance(0.3);
  const Bytes data = genData(r, info, n, dopt);
  const ref::Modes modes = ref::randomModes(r, info);
  std::vector<Bytes> stage1;
  const size_t per = info.version < 3 ? n : ref::kChunk;
  for (size_t at = 0, c = 0; at < n; at += per, ++c)
    stage1.push_back(ref::encodeChunk(info, data.data() + at * info.point_step, std::min(per, n - at), c, modes));
  const Bytes valid = joinChunks(info, stage1, modes);
  PointcloudDecoder reuse;
  const int rounds = big ? 6 : 40;
  for (int k = 0; k < rounds; ++k) {
    EncodingInfo di = info;
    Bytes payload;
    std::string how;
    const int kind = int(r.below(9));
    switch (kind) {
      case 0:
        how = "payload bytes";
        payload = valid;
        mutateBytes(r, payload, int(r.range(1, 4)));
        break;
      case 1: case 2: case 3: {
        how = "stage 1 bytes";
        auto s = stage1;
        mutateBytes(r, s[r.below(s.size())], int(r.range(1, 4)));
        payload = joinChunks(info, s, modes);
      } break;
      case 4: {
        how = "hostile sections";
        auto s = stage1;
        const size_t c = r.below(s.size());
        const size_t cn = std::min(per, n - c * per);
        ref::Trace tr;
        Bytes tmp(cn * info.point_step);
        try {
          ref::decodeChunkInto(info, s[c], cn, tmp.data(), tr);
        } catch (const ref::Malformed&) {
        }
        const size_t reg = tr.regular_bytes.empty() ? 0 : tr.regular_bytes[0];
        Bytes b(s[c].begin(), s[c].begin() + long(reg));
        size_t at = reg, j = 0;
        for (size_t q = 0; q < info.fields.size(); ++q) {
          if (ref::kindOf(info, q) != ref::kAdaptive || j >= tr.section_bytes.at(0).size()) continue;
          const size_t len = tr.section_bytes[0][j++];
          if (r.chance(0.6)) {
            const Bytes h = hostileSection(r, typeSize(info.fields[q].type), cn);
            b.insert(b.end(), h.begin(), h.end());
          } else {
            b.insert(b.end(), s[c].begin() + long(at), s[c].begin() + long(at + len));
          }
          at += len;
        }
        s[c] = b;
        payload = joinChunks(info, s, modes);
      } break;
      case 5:
        how = "noise";
        payload.resize(r.below(r.chance(0.5) ? 40 : 2000));
        r.fill(payload.data(), payload.size());
        if (r.chance(0.5) && payload.size() > 4) {
          const uint32_t sz = uint32_t(payload.size() - 4);
          memcpy(payload.data(), &sz, 4);
        }
        break;
      case 6: {
        how = "noise, compressed properly";
        std::vector<Bytes> s(stage1.size());
        for (auto& c : s) {
          c.resize(r.below(3000));
          const int style = int(r.below(3));
          for (auto& x : c) x = style == 0 ? uint8_t(r.next()) : style == 1 ? uint8_t(r.below(4)) : uint8_t(0x80 | r.below(128));
        }
        payload = joinChunks(info, s, modes);
      } break;
      case 7:
        how = "description";
        payload = valid;
        for (int t = int(r.range(1, 3)); t; --t) mutateDescription(r, di);
        break;
      default:
        how = "description and stage 1 bytes";
        for (int t = int(r.range(1, 2)); t; --t) mutateDescription(r, di);
        auto s = stage1;
        mutateBytes(r, s[r.below(s.size())], int(r.range(1, 3)));
        EncodingInfo ci = info;
        ci.version = di.version;
        ci.compression_opt = di.compression_opt;
        payload = joinChunks(ci, s, modes);
        break;
    }
    if (r.chance(0.1))
      for (auto& f : di.fields)
        if (r.chance(0.5)) f.offset = kDecodeButSkipStore;
    if (r.chance(0.08)) {  // sizes that do not fit in size_t
      pickWrappingDims(r, di);
      if (r.chance(0.5)) payload = valid;
      const u128 total = (u128)di.width * di.height * di.point_step;
      if (total >> (8 * sizeof(size_t)) != 0) {
        ctx.label("wrapping size " + describe(di));
        Block in(payload);
        Block out(r.chance(0.5) ? std::min(size_t(total), size_t(1) << 20) : r.below(100000));
        const bool threw = throwsException([&] { PointcloudDecoder d; d.decode(di, in.view(), out.mview()); });
        if (!threw) ctx.violate("wrapping-size-decoded", "a cloud larger than the memory was decoded: " + describe(di));
        ctx.count("wrapping_sizes");
      }
      continue;
    }
    const u128 need = (u128)di.width * di.height * di.point_step;
    if (need > (64u << 20)) continue;
    const size_t out_size = size_t(need);
    ctx.label(how + " " + describe(di));
    const Outcome a = attempt(di, payload, out_size, 0x00, nullptr);
    const Outcome b = attempt(di, payload, out_size, 0xE7, r.chance(0.5) ? &reuse : nullptr);
    if (a.what == "INPUT MODIFIED" || b.what == "INPUT MODIFIED") ctx.violate("input-modified", how + " " + describe(di));
    if (a.threw != b.threw || (!a.threw && a.out != b.out))
      ctx.violate("depends-on-uninitialised-memory",
                  how + ": outcome differs with the contents of fresh memory (" + (a.threw ? a.what : "ok") + " / " + (b.threw ? b.what : "ok") + ") " + describe(di));
    ctx.count(a.threw ? "decodes_refused" : "decodes_completed");
    ctx.count(fmt("mutants_kind_%d", kind));
    ctx.nontrivial(hashBytes(payload.data(), payload.size()) ^ hashStr(describe(di)));
    if (idx % 1501 == 7 && k == 3) ctx.sample(how + ": " + describe(di) + (a.threw ? " -> " + a.what : " -> completed"));
  }
}
void finishWorker(Ctx&) {}
