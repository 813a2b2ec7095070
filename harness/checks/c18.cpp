// C18: the newest format stores each integer column in its smallest form
#include "h_ref.hpp"
using namespace vh;

uint64_t numCases(const Ctx& c) { return c.thorough() ? 400000 : 16000; }
constexpr size_t kProbe = 4096;

void runCase(Ctx& ctx, uint64_t idx) {
  Rng r = ctx.rng();
  LayoutOpts o;
  o.versions = {5};
  o.encodings = {1};
  o.compressions = {0};
  o.extremes = false;
  if (idx % 4 == 3) {  // no adaptive columns: the payload of the previous version
    o.ints = r.chance(0.3);
    o.compressions = {0, 1, 2};
    EncodingInfo info = genLayout(r, o);
    for (auto& f : info.fields)
      if (isAdaptiveInt(f.type)) f.type = typeSize(f.type) >= 4 && r.chance(0.5) ? FieldType::FLOAT32 : FieldType::UINT8;
    const size_t n = pickCountFor(r, info);
    setDims(r, info, n);
    ctx.label("float only " + describe(info));
    const Bytes data = genData(r, info, n);
    EncodingInfo v4 = info;
    v4.version = 4;
    const Bytes a = encodeCloud(info, data), b = encodeCloud(v4, data);
    const size_t ha = headerSize(a), hb = headerSize(b);
    if (a.size() - ha != b.size() - hb || memcmp(a.data() + ha, b.data() + hb, a.size() - ha) != 0)
      ctx.violate("float-only-differs", fmt("payload of %zu bytes instead of the %zu of version 4: ", a.size() - ha, b.size() - hb) + describe(info));
    ctx.count("payloads_compared_with_version_4");
    ctx.nontrivial(hashBytes(a.data() + ha, a.size() - ha));
    return;
  }
  o.p_float = 0.2;
  o.floats = r.chance(0.6);
  EncodingInfo info = genLayout(r, o);
  if (!hasAdaptive(info)) {
    PointField f;
    f.name = "extra";
    f.type = FieldType(r.pick({3, 4, 5, 6, 9, 10}));
    f.offset = info.point_step;
    info.point_step += uint32_t(typeSize(f.type));
    info.fields.push_back(f);
  }
  const size_t n = r.chance(0.8) ? size_t(r.chance(0.5) ? r.range(1, 200) : r.range(1, int64_t(kProbe)))
                                 : std::min<size_t>(size_t(r.pick({4096, 4097, 8000, 32768, 32769, 70000, 98305})), (16u << 20) / info.point_step);
  setDims(r, info, n);
  ctx.label(describe(info));
  const Bytes data = genData(r, info, n);
  const Bytes stream = encodeCloud(info, data);
  const size_t h = headerSize(stream);
  ref::Trace tr;
  ref::decodePayload(info, stream.data() + h, stream.size() - h, n, tr);
  size_t a = 0;
  for (size_t k = 0; k < info.fields.size(); ++k) {
    if (ref::kindOf(info, k) != ref::kAdaptive) continue;
    const size_t col = a++;
    const size_t first = std::min(n, ref::kChunk);
    const ref::Column c = ref::column(info, k, data.data(), n);
    size_t sizes[4];
    ref::sectionSizes(c, 0, std::min(first, kProbe), sizes);
    const size_t best = *std::min_element(sizes, sizes + 4);
    const int mode = tr.modes[0][col];
    if (n <= kProbe) {
      if (tr.section_bytes[0][col] > best)
        ctx.violate("not-smallest", fmt("field #%zu %s of %zu points takes %zu bytes in form %d, smallest is %zu (delta %zu, palette %zu, rle %zu, delta-rle %zu) ", k,
                                        typeName(info.fields[k].type), n, tr.section_bytes[0][col], mode, best, sizes[0], sizes[1], sizes[2], sizes[3]) + describe(info));
      ctx.count("columns_within_one_probe");
    } else {
      if (sizes[mode] > best)
        ctx.violate("not-smallest-on-probe", fmt("field #%zu %s: form %d takes %zu bytes on the first probe, smallest is %zu ", k, typeName(info.fields[k].type), mode,
                                                 sizes[mode], best) + describe(info));
      ctx.count("columns_longer_than_a_probe");
    }
    for (size_t j = 1; j < tr.modes.size(); ++j)
      if (tr.modes[j][col] != mode) ctx.violate("form-changes", fmt("field #%zu: form %d in chunk 0, %d in chunk %zu ", k, mode, tr.modes[j][col], j) + describe(info));
    ctx.count(fmt("columns_in_form_%d", mode));
    size_t ties = 0;
    for (size_t s : sizes) ties += s == best;
    if (ties > 1) ctx.count("columns_with_ties");
    ctx.nontrivial(hashBytes(c.raw.data(), c.raw.size() * 8) ^ uint64_t(info.fields[k].type));
  }
  ctx.count("chunks_seen", tr.modes.size());
  if (idx % 2003 == 4) ctx.sample(describe(info));
}
void finishWorker(Ctx&) {}
