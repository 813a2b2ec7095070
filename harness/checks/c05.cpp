// C05: the advertised bound is a true bound and encoding stays inside the buffer
#include <sys/mman.h>

#include "h_cloud.hpp"
using namespace vh;

uint64_t numCases(const Ctx& c) { return c.thorough() ? 60000 : 9000; }

static void hugeView(Ctx& ctx, Rng& r) {
  // an output area larger than 2 GiB (address space only) must be accepted like any other
  const size_t len = size_t(3ull << 30);
  uint8_t* p = static_cast<uint8_t*>(
      mmap(nullptr, len, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0));
  if (p == MAP_FAILED) {
    ctx.count("huge_view_not_available");
    return;
  }
  LayoutOpts o;
  EncodingInfo info = genLayout(r, o);
  info.compression_opt = r.chance(0.7) ? CompressionOption::LZ4 : CompressionOption::ZSTD;
  const size_t n = size_t(r.range(1, 2000));
  setDims(r, info, n);
  const Bytes data = genData(r, info, n);
  const Bytes ref = encodeCloud(info, data);
  PointcloudEncoder enc(info);
  BufferView out(p, len);
  std::string what;
  size_t got = 0;
  if (throwsException([&] { got = enc.encode(ConstBufferView(data.data(), data.size()), out, true); }, &what))
    ctx.violate("huge-view-refused", "output area of 3 GiB refused: " + what + " in " + describe(info));
  else if (got != ref.size() || memcmp(p, ref.data(), got) != 0)
    ctx.violate("huge-view-differs", "different bytes into an output area of 3 GiB in " + describe(info));
  munmap(p, len);
  ctx.count("huge_views");
}

// contents that blow up: worst-case varints, alternating extremes, incompressible bytes, and a probe that commits the
// integer columns to a form that the rest of the cloud makes as expensive as possible
static void makeWorst(Rng& r, const EncodingInfo& info, size_t n, Bytes& d) {
  const int style = int(r.below(4));
  for (size_t k = 0; k < info.fields.size(); ++k) {
    const auto& f = info.fields[k];
    const size_t w = typeSize(f.type);
    if (f.name == "alias") continue;
    const size_t probe = r.chance(0.7) ? std::min<size_t>(n, size_t(r.pick({4096, 4096, 32768}))) : 0;
    std::vector<uint64_t> v(n);
    if (isInt(f.type)) {
      if (probe) intSegment(r, f.type, v, 0, probe, int(r.pick({0, 5, 6, 1, 10, 4})));
      intSegment(r, f.type, v, probe, n, style == 0 ? 3 : style == 1 ? 7 : int(r.pick({3, 7, 8, 9, 6})));
      putRaw(d, info.point_step, f.offset, w, v);
    } else if (isQuantized(info, f)) {
      const double big = quantLimit(info, k) * double(*f.resolution);
      for (size_t i = 0; i < n; ++i) {
        const double x = style == 1 ? ((i & 1) ? big : -big) : r.uniform(-1, 1) * big;
        if (w == 4) {
          float g = float(x);
          if (style == 2 && r.chance(0.5)) g = (i & 1) ? INFINITY : -INFINITY;
          memcpy(d.data() + i * info.point_step + f.offset, &g, 4);
        } else {
          memcpy(d.data() + i * info.point_step + f.offset, &x, 8);
        }
      }
    } else {
      for (size_t i = 0; i < n; ++i) v[i] = r.next();
      putRaw(d, info.point_step, f.offset, w, v);
    }
  }
}

// the bound for clouds of up to 2^32 points, too large to be encoded here: 256^k different clouds need k bytes
static void hugeCounts(Ctx& ctx, Rng& r) {
  LayoutOpts o;
  o.max_fields = r.chance(0.3) ? 1 : 7;
  EncodingInfo info = genLayout(r, o);
  uint64_t exact = 0;  // bytes of a point that are kept as they are
  for (const auto& f : info.fields)
    if (f.name != "alias" && !isQuantized(info, f)) exact += typeSize(f.type);
  for (int k = 0; k < 8; ++k) {
    const size_t n = r.chance(0.5) ? size_t(r.pick<uint64_t>({0xffffffffu, 0x80000000u, 0x7fffffffu, 0x40000000u, 0x10000000u, 0xffff8000u, 0xffff8001u}))
                                   : size_t(r.below(0x100000000ull) >> r.below(12));
    const bool with_header = r.chance(0.5);
    ctx.label(fmt("bound of %zu points, ", n) + describe(info));
    size_t bound = 0;
    if (throwsException([&] { bound = MaxCompressedSize(info, n, with_header); })) {
      ctx.count("bounds_of_huge_clouds_refused");
      continue;
    }
    ctx.count("bounds_of_huge_clouds");
    if ((u128)bound < (u128)n * exact)
      ctx.violate("bound-of-huge-cloud", fmt("the bound for %zu points with %llu incompressible bytes each is %zu, ", n, (unsigned long long)exact, bound) + describe(info));
  }
}

void runCase(Ctx& ctx, uint64_t idx) {
  Rng r = ctx.rng();
  if (idx % 300 == 7 && sizeof(size_t) > 4) return hugeView(ctx, r);
  if (idx % 25 == 8) return hugeCounts(ctx, r);
  LayoutOpts o;
  o.p_float = r.uniform();
  o.max_fields = r.chance(0.3) ? 1 : 7;
  if (r.chance(0.5)) o.force_lead = 0;
  EncodingInfo info = genLayout(r, o);
  if (r.chance(0.1)) info.fields[0].name = std::string(size_t(r.range(1, 3000)), 'n');
  if (r.chance(0.1)) info.encoding_config = std::string(size_t(r.range(1, 500)), 'c');
  size_t n = pickCountFor(r, info, ctx.thorough());
  if (r.chance(0.02)) n = 0;
  setDims(r, info, n);
  ctx.label(describe(info));
  Bytes data = genData(r, info, n);
  const bool worst = r.chance(0.6);
  if (worst) makeWorst(r, info, n, data);
  const Block in(data);

  const bool with_header = r.chance(0.6);
  const size_t bound_all = MaxCompressedSize(info, n, true);
  const size_t bound = with_header ? bound_all : MaxCompressedSize(info, n, false);
  Bytes ref;
  std::string what;
  {
    PointcloudEncoder enc(info);
    if (throwsException([&] { enc.encode(in.view(), ref); }, &what)) {
      ctx.violate("encode-failed", what + " in " + describe(info));
      return;
    }
    if (ref.size() > bound_all) ctx.violate("bound", fmt("%zu bytes > bound %zu in ", ref.size(), bound_all) + describe(info));
  }
  const size_t hsize = headerSize(ref);
  const size_t expect = with_header ? ref.size() : ref.size() - hsize;
  ctx.counters["max_permille_of_bound"] = std::max<uint64_t>(
      ctx.counters["max_permille_of_bound"], n > 50 ? 1000 * (ref.size() - hsize) / std::max<size_t>(1, bound_all - hsize) : 0);

  // a buffer of exactly the bound, and larger ones
  for (size_t extra : {size_t(0), size_t(r.range(1, 100000))}) {
    Block out(bound + extra);
    memset(out.p, 0x5A, out.n);
    PointcloudEncoder enc(info);
    BufferView v = out.mview();
    size_t got = 0;
    if (throwsException([&] { got = enc.encode(in.view(), v, with_header); }, &what)) {
      ctx.violate("exact-buffer-refused", fmt("buffer of bound+%zu refused: %s in ", extra, what.c_str()) + describe(info));
      return;
    }
    if (got > bound) ctx.violate("bound", fmt("%zu bytes > bound %zu in ", got, bound) + describe(info));
    if (got != expect || got > out.n || memcmp(out.p, ref.data() + (with_header ? 0 : hsize), got) != 0) {
      ctx.violate("reported-size", fmt("reported %zu bytes, expected %zu in ", got, expect) + describe(info));
      return;
    }
    // what lies beyond the bound is not even scratch
    for (size_t i = bound; i < out.n && i < bound + 4096; ++i)
      if (i >= got && out.p[i] != 0x5A && info.compression_opt == CompressionOption::NONE) {
        ctx.violate("wrote-past-bound", fmt("byte %zu past the bound modified in ", i - bound) + describe(info));
        break;
      }
    ctx.count("encodes_into_caller_buffer");
  }
  // too small ones
  std::vector<size_t> sizes{0, bound - 1, expect > 0 ? expect - 1 : 0, bound / 2, size_t(r.below(bound)), expect};
  for (size_t s : sizes) {
    if (s >= bound) continue;
    Block out(s);
    PointcloudEncoder enc(info);
    BufferView v = out.mview();
    if (!throwsException([&] { enc.encode(in.view(), v, with_header); })) {
      ctx.violate("small-buffer-accepted", fmt("buffer of %zu bytes accepted, bound is %zu in ", s, bound) + describe(info));
    }
    ctx.count("small_buffers_refused");
  }
  if (worst) ctx.count("worst_case_contents");
  ctx.nontrivial(hashBytes(ref.data(), ref.size()));
  if (idx % 997 == 3) ctx.sample(describe(info) + fmt(" %zu of %zu bytes", ref.size(), bound_all));
}
void finishWorker(Ctx&) {}
