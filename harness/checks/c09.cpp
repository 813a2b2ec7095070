// C09: the wire format is stable: golden streams of the earlier release, and a reference codec in both directions
#include "h_ref.hpp"
using namespace vh;

static std::vector<std::pair<Bytes, Bytes>>& golden(const Ctx& ctx) {
  static std::vector<std::pair<Bytes, Bytes>> g;
  static bool done = false;
  if (done) return g;
  done = true;
  // the 32-bit build cannot decompress: it is given the contents, and cannot use the streams compressed with Zstandard
  const bool wide = sizeof(size_t) > 4;
  const char* plain = getenv("VH_GOLDEN");
  FILE* f = fopen(wide || !plain ? (ctx.datadir + "/golden/streams.zst").c_str() : plain, "rb");
  if (!f) throw std::runtime_error("golden/streams.zst is missing");
  Bytes z;
  uint8_t buf[65536];
  for (size_t n; (n = fread(buf, 1, sizeof buf, f)) > 0;) z.insert(z.end(), buf, buf + n);
  fclose(f);
  Bytes all(wide ? size_t(ZSTD_getFrameContentSize(z.data(), z.size())) : z.size());
  if (!wide) all = z;
  else if (ZSTD_decompress(all.data(), all.size(), z.data(), z.size()) != all.size()) throw std::runtime_error("golden/streams.zst is damaged");
  const uint8_t* p = all.data();
  while (p < all.data() + all.size()) {
    Bytes part[2];
    for (auto& b : part) {
      uint32_t n;
      memcpy(&n, p, 4);
      b.assign(p + 4, p + 4 + n);
      p += 4 + n;
    }
    g.emplace_back(std::move(part[0]), std::move(part[1]));
  }
  return g;
}

static uint64_t generated(const Ctx& c) { return c.thorough() ? 120000 : 6000; }
uint64_t numCases(const Ctx& c) { return golden(c).size() + generated(c); }

// two decodings of one stream: integers and exact floats identical, quantized floats up to the rounding of the product
static std::string sameCloud(const EncodingInfo& info, const uint8_t* a, const uint8_t* b, size_t n) {
  for (size_t k = 0; k < info.fields.size(); ++k) {
    const auto& f = info.fields[k];
    const size_t w = typeSize(f.type);
    const bool quant = isQuantized(info, f);
    for (size_t i = 0; i < n; ++i) {
      const uint8_t *pa = a + i * info.point_step + f.offset, *pb = b + i * info.point_step + f.offset;
      if (!memcmp(pa, pb, w)) continue;
      double x = 0, y = 0;
      bool ok = false;
      if (quant && w == 4) {
        float u, v;
        memcpy(&u, pa, 4);
        memcpy(&v, pb, 4);
        x = u;
        y = v;
        ok = (std::isnan(u) && std::isnan(v)) || std::abs(x - y) <= std::abs(x) * std::ldexp(1.0, -22) + 1e-4 * double(*f.resolution);
      } else if (quant) {
        memcpy(&x, pa, 8);
        memcpy(&y, pb, 8);
        ok = (std::isnan(x) && std::isnan(y)) || std::abs(x - y) <= std::abs(x) * std::ldexp(1.0, -50) + 1e-9 * double(*f.resolution);
      }
      if (!ok) {
        uint64_t u = 0, v = 0;
        memcpy(&u, pa, w);
        memcpy(&v, pb, w);
        return fmt("point %zu of %zu, field #%zu %s: 0x%llx (%.17g) and 0x%llx (%.17g)", i, n, k, typeName(f.type), (unsigned long long)u, x,
                   (unsigned long long)v, y);
      }
    }
  }
  return "";
}
static std::string diffInfo(const EncodingInfo& a, const EncodingInfo& b) {
  if (a.version != b.version || a.width != b.width || a.height != b.height || a.point_step != b.point_step) return "version or dimensions";
  if (a.encoding_opt != b.encoding_opt || a.compression_opt != b.compression_opt) return "options";
  if (a.fields.size() != b.fields.size()) return "number of fields";
  for (size_t i = 0; i < a.fields.size(); ++i)
    if (a.fields[i].name != b.fields[i].name || a.fields[i].offset != b.fields[i].offset || a.fields[i].type != b.fields[i].type ||
        a.fields[i].resolution != b.fields[i].resolution)
      return fmt("field %zu", i);
  return "";
}

static void goldenCase(Ctx& ctx, uint64_t idx) {
  const auto& [stream, expect] = golden(ctx)[idx];
  size_t used = 0;
  const EncodingInfo info = ref::readYamlHeader(stream, used);
  ctx.label("golden stream " + describe(info));
  if (sizeof(size_t) == 4 && info.compression_opt == CompressionOption::ZSTD) return;
  const size_t n = size_t(info.width) * info.height;
  std::string what;
  Decoded d;
  if (throwsException([&] { d = decodeStream(stream, 0); }, &what)) {
    ctx.violate("old-stream-refused", fmt("golden stream %llu: ", (unsigned long long)idx) + what + " " + describe(info));
    return;
  }
  std::string diff = diffInfo(info, d.info);
  if (diff.empty() && d.data.size() != expect.size()) diff = "size";
  if (diff.empty()) diff = sameCloud(info, expect.data(), d.data.data(), n);
  if (!diff.empty()) ctx.violate("old-stream-differs", fmt("golden stream %llu: ", (unsigned long long)idx) + diff + " " + describe(info));
  // the reference decoder has to agree with the old release as well, otherwise it is no reference
  ref::Trace tr;
  const Bytes rd = ref::decodePayload(info, stream.data() + used, stream.size() - used, n, tr, 0);
  const std::string rdiff = sameCloud(info, expect.data(), rd.data(), n);
  if (!rdiff.empty()) throw std::runtime_error("the reference decoder disagrees with a golden stream: " + rdiff + describe(info));
  ctx.count("golden_streams");
  ctx.nontrivial(hashBytes(stream.data(), stream.size()));
}

void runCase(Ctx& ctx, uint64_t idx) {
  if (idx < golden(ctx).size()) return goldenCase(ctx, idx);
  Rng r = ctx.rng();
  LayoutOpts o;
  const bool library_writes = idx % 2;
  o.versions = library_writes ? std::vector<int>{3, 4, 5, 5} : std::vector<int>{2, 3, 4, 5, 5};
  EncodingInfo info = genLayout(r, o);
  const size_t n = pickCountFor(r, info, ctx.thorough());
  setDims(r, info, n);
  ctx.label(std::string(library_writes ? "library writes " : "reference writes ") + describe(info));
  DataOpts dopt;
  dopt.wild = false;
  const Bytes data = genData(r, info, n, dopt);
  Bytes stream;
  ref::Trace tr;
  Bytes by_ref, by_lib;
  EncodingInfo ref_info;
  std::string what;
  if (library_writes) {
    stream = encodeCloud(info, data);
    try {
      size_t used = 0;
      ref_info = ref::readYamlHeader(stream, used);
      const std::string diff = diffInfo(info, ref_info);
      if (!diff.empty()) ctx.violate("header-layout", "the header as published says otherwise: " + diff + " " + describe(info));
      by_ref = ref::decodePayload(ref_info, stream.data() + used, stream.size() - used, n, tr);
    } catch (const ref::Malformed& e) {
      ctx.violate("layout", std::string("the stream does not follow the published layout: ") + e.what() + " " + describe(info));
      return;
    }
    ctx.count("streams_read_by_the_reference");
  } else {
    const ref::Modes m = ref::randomModes(r, info);
    const bool text = r.chance(0.6);
    stream = text ? ref::yamlHeader(info) : ref::binaryHeader(info);
    const Bytes p = ref::encodePayload(info, data.data(), n, m);
    by_ref = ref::decodePayload(info, p.data(), p.size(), n, tr);
    stream.insert(stream.end(), p.begin(), p.end());
    ctx.count(fmt("streams_of_the_reference_v%d", info.version));
  }
  Decoded d;
  if (throwsException([&] { d = decodeStream(stream); }, &what)) {
    ctx.violate("conforming-stream-refused", what + " " + describe(info));
    return;
  }
  std::string diff = diffInfo(info, d.info);
  if (!diff.empty()) ctx.violate("header-differs", diff + " " + describe(info));
  if (d.data.size() != by_ref.size()) {
    ctx.violate("size", describe(info));
    return;
  }
  diff = sameCloud(info, by_ref.data(), d.data.data(), n);
  if (!diff.empty()) ctx.violate("decoders-disagree", "reference and library: " + diff + " " + describe(info));
  FidelityStats st;
  diff = compareClouds(info, data.data(), by_ref.data(), n, kAllAspects, st);
  if (!diff.empty()) ctx.violate("independent-decoder", "the independent decoder recovers another cloud: " + diff + " " + describe(info));
  st.report(ctx);
  for (auto& c : tr.modes)
    for (int m : c) ctx.count(fmt("sections_in_mode_%d", m));
  ctx.nontrivial(hashBytes(stream.data(), stream.size()));
  if (idx % 997 == 3) ctx.sample(std::string(library_writes ? "library -> reference: " : "reference -> library: ") + describe(info));
}
void finishWorker(Ctx&) {}
