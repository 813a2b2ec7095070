// C12: hostile serialized ROS messages are rejected without memory errors
#include "cloudini_lib/ros_msg_utils.hpp"
#include "h_cdr.hpp"
#include "h_mut.hpp"
using namespace vh;

uint64_t numCases(const Ctx& c) { return c.thorough() ? 300000 : 7000; }

struct Result {
  int stage = 0;  // how far it went
  bool sized = false;  // the data had to agree with the dimensions
  std::string what;
  uint64_t hash = 0;
  bool operator==(const Result& o) const { return stage == o.stage && hash == o.hash; }
};

static Result pass(Ctx& ctx, const Bytes& raw, uint64_t choice, int fill) {
  Result res;
  Block in(raw);
  Rng r(choice);
  AllocMonitor::fill = fill;
  try {
    cloudini_ros::RosPointCloud2 pc = cloudini_ros::getDeserializedPointCloudMessage(in.view());
    res.stage = 1;
    if (pc.data.size() && (pc.data.data() < in.p || pc.data.data() + pc.data.size() > in.p + in.n))
      ctx.violate("view-outside", "the data view lies outside the message");
    Bytes out;
    if (r.chance(0.5)) {
      cloudini_ros::ResolutionProfile prof;
      if (r.chance(0.5)) prof["x"] = r.pick({0.0f, 0.1f});
      if (r.chance(0.3)) prof["f3"] = r.pick({0.0f, 0.1f, -1.0f});
      std::optional<float> def;
      if (r.chance(0.8)) def = r.pick({0.001f, 0.01f, 1e-30f, 1e30f, 0.0f, -1.0f, NAN, INFINITY});
      cloudini_ros::applyResolutionProfile(prof, pc.fields, def);
      res.sized = !pc.data.empty();
      if (r.chance(0.3)) {
        cloudini_ros::applyVizLossyPreprocessing(pc);
        res.sized = false;
      }
      res.stage = 2;
      EncodingInfo info = cloudini_ros::toEncodingInfo(pc);
      info.compression_opt = CompressionOption(r.below(3));
      info.encoding_opt = EncodingOptions(r.pick({0, 1, 1, 1, 2}));
      info.use_threads = r.chance(0.2);
      cloudini_ros::convertPointCloud2ToCompressedCloud(pc, info, out);
    } else {
      res.stage = 2;
      res.sized = true;
      cloudini_ros::convertCompressedCloudToPointCloud2(pc, out);
    }
    res.stage = 3;
    res.hash = hashBytes(out.data(), out.size());
  } catch (const std::exception& e) {
    AllocMonitor::fill = -1;
    res.what = e.what();
  }
  AllocMonitor::fill = -1;
  if (hashBytes(in.p, in.n) != hashBytes(raw.data(), raw.size())) ctx.violate("input-modified", "the message was modified");
  return res;
}

void runCase(Ctx& ctx, uint64_t idx) {
  Rng r = ctx.rng();
  LayoutOpts o;
  o.extremes = false;
  o.max_fields = 6;
  EncodingInfo info = genLayout(r, o);
  const size_t n = r.chance(0.05) ? 0 : r.chance(0.02) ? 33000 : size_t(r.range(1, 60));
  setDims(r, info, n);
  DataOpts dopt;
  dopt.wild = r.chance(0.2);
  const Bytes data = genData(r, info, n, dopt);
  cdr::Msg m = cdr::genMsg(r, info, data);
  const bool compressed = r.chance(0.5);
  if (compressed) {
    m.compressed = true;
    m.format = r.chance(0.8) ? "cloudini" : cdr::randomText(r, r.below(10));
    if (n) {
      m.data = encodeCloud(info, data);
      if (r.chance(0.3)) {  // another description in the stream than in the message
        EncodingInfo i2 = info;
        switch (r.below(5)) {
          case 0: i2.width = uint32_t(r.pick<uint64_t>({0, 1, 0xffffffff, i2.width * 2ull, 0x10000})); break;
          case 1: i2.height = uint32_t(r.pick<uint64_t>({0, 2, 0xffffffff, 0x10000})); break;
          case 2: i2.point_step = uint32_t(r.pick<uint64_t>({0, 1, i2.point_step + 1ull, 0xffffffff})); break;
          case 3: if (!i2.fields.empty()) i2.fields[0].offset = uint32_t(r.pick<uint64_t>({i2.point_step, 0xffffffff, 0xfffffff0, i2.point_step - 1ull})); break;
          default: if (!i2.fields.empty()) i2.fields.back().type = FieldType(r.below(11)); break;
        }
        Bytes h = r.chance(0.5) ? ref::yamlHeader(i2) : ref::binaryHeader(i2);
        const size_t hs = headerSize(m.data);
        h.insert(h.end(), m.data.begin() + long(hs), m.data.end());
        m.data = h;
      }
    } else {
      m.data.clear();
    }
  }
  std::vector<size_t> marks;
  const Bytes valid = cdr::write(m, &marks);
  ctx.label("message " + describe(info));
  auto one = [&](const Bytes& raw, const char* kind) {
    const uint64_t choice = r.next();
    const Result a = pass(ctx, raw, choice, 0x00), b = pass(ctx, raw, choice, 0xD9);
    if (!(a == b))
      ctx.violate("depends-on-uninitialised-memory", fmt("%s: outcome differs with the contents of fresh memory (stage %d %s / stage %d %s)", kind, a.stage,
                                                         a.what.c_str(), b.stage, b.what.c_str()));
    ctx.count(fmt("reached_stage_%d", a.stage));
    ctx.count(std::string("mutants_") + kind);
    ctx.nontrivial(hashBytes(raw.data(), raw.size()));
    if (idx % 3001 == 5) ctx.sample(fmt("%s of %zu bytes -> stage %d %s", kind, raw.size(), a.stage, a.what.c_str()));
    return a;
  };
  one(valid, "none");
  if (valid.size() < 700 && idx % 6 == 0)  // every truncation
    for (size_t c = 0; c < valid.size(); ++c) one(Bytes(valid.begin(), valid.begin() + long(c)), "cut");
  for (int k = 0; k < 3; ++k) {  // dimensions whose product fits only when it is cut to 32 bits
    cdr::Msg w = m;
    if (!wrappingDims(r, n, w.width, w.height)) continue;
    if (compressed && !w.data.empty() && r.chance(0.7)) {
      EncodingInfo i2 = info;
      i2.width = w.width;
      i2.height = w.height;
      Bytes h = r.chance(0.5) ? ref::yamlHeader(i2) : ref::binaryHeader(i2);
      h.insert(h.end(), w.data.begin() + long(headerSize(w.data)), w.data.end());
      w.data = h;
    }
    const Result a = one(cdr::write(w), "wrapping");
    if (a.stage == 3 && a.sized && w.point_step)
      ctx.violate("wrapping-dimensions", fmt("a message of %ux%u points of %u bytes with %zu bytes of data was converted", w.width, w.height, w.point_step, w.data.size()));
  }
  for (int k = 0; k < 14; ++k) {
    Bytes b = valid;
    switch (r.below(6)) {
      case 0: case 1: {  // one or two of the integers
        for (int t = int(r.range(1, 2)); t; --t) {
          const size_t at = marks[r.below(marks.size())];
          const uint32_t old = uint32_t(b[at]) | uint32_t(b[at + 1]) << 8 | uint32_t(b[at + 2]) << 16 | uint32_t(b[at + 3]) << 24;
          const uint32_t v = r.pick<uint32_t>({0, 1, 2, 0xffffffff, 0x7fffffff, 0x80000000, 0xfffffffc, old + 1, old - 1, old * 2, old ^ 0x80000000u,
                                               uint32_t(r.next()), uint32_t(r.below(300)), 0x10000, 0x40000000, 0x01000000});
          for (int i = 0; i < 4; ++i) b[at + size_t(i)] = uint8_t(v >> (8 * (m.little ? i : 3 - i)));
        }
        one(b, "integer");
      } break;
      case 2: b.resize(r.below(b.size())); one(b, "cut"); break;
      case 3: b[r.below(4)] = uint8_t(r.pick({0, 1, 2, 3, 4, 6, 7, 255, int(r.below(256))})); one(b, "encapsulation"); break;
      case 4: mutateBytes(r, b, int(r.range(1, 4))); one(b, "bytes"); break;
      default:
        b.assign(r.below(300), 0);
        r.fill(b.data(), b.size());
        if (b.size() > 4 && r.chance(0.8)) {
          b[0] = b[2] = b[3] = 0;
          b[1] = uint8_t(r.below(2));
          for (size_t i = 4; i < b.size(); ++i)
            if (r.chance(0.7)) b[i] = uint8_t(r.below(4) ? 0 : r.below(20));
        }
        one(b, "noise");
        break;
    }
  }
}
void finishWorker(Ctx&) {}
