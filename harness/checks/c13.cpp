// C13: visualization preprocessing keeps exactly the first point of every voxel
#include <thread>

#include "h_viz.hpp"
using namespace vh;

uint64_t numCases(const Ctx& c) { return c.thorough() ? 300000 : 12000; }

static size_t pickN(Rng& r) {
  if (r.chance(0.002)) return size_t(r.range(50000, 600000));
  return r.chance(0.04) ? 0 : r.chance(0.7) ? size_t(r.range(1, 300)) : size_t(r.pick({1000, 4097, 20000, 1023, 1025}));
}

static void account(Ctx& ctx, const viz::Cloud& c) {
  if (c.triple && c.n) {
    ctx.count("clouds_with_triple");
    if (c.n > 100000) ctx.count("clouds_of_more_than_100000_points");
    ctx.count("points_kept", c.kept_points);
    ctx.count("points_dropped_non_finite", c.non_finite);
    ctx.count("points_dropped_duplicate", c.duplicates);
    if (!c.kept_points) ctx.count("clouds_left_without_points");
  } else {
    ctx.count("clouds_to_be_left_alone");
  }
}

void runCase(Ctx& ctx, uint64_t idx) {
  Rng r = ctx.rng();
  ctx.label("viz");
  if (idx % 20 == 0) {  // several threads at once, each with its own clouds
    std::vector<std::vector<viz::Cloud>> work(4);
    std::vector<std::string> bad(4);
    for (auto& w : work)
      for (int k = 0; k < 3; ++k) w.push_back(viz::gen(r, pickN(r), r.chance(0.1) ? 2 : 0));
    std::vector<std::thread> ts;
    for (size_t t = 0; t < 4; ++t)
      ts.emplace_back([&, t] {
        for (auto& c : work[t]) {
          const std::string d = viz::check(c);
          if (!d.empty()) bad[t] = d;
        }
      });
    for (auto& t : ts) t.join();
    for (auto& b : bad)
      if (!b.empty()) ctx.violate("concurrent", b);
    for (auto& w : work)
      for (auto& c : w) account(ctx, c);
    ctx.count("concurrent_rounds");
    return;
  }
  viz::Cloud c = viz::gen(r, pickN(r), r.chance(0.2) ? int(r.range(1, 8)) : 0);
  std::string d = viz::check(c);
  if (!d.empty()) {
    ctx.violate("result", d);
    return;
  }
  account(ctx, c);
  ctx.nontrivial(hashBytes(c.bytes->p, c.bytes->n) ^ c.msg.fields.size());
  if (idx % 2003 == 3) ctx.sample(fmt("%zu points: %zu kept, %zu not finite, %zu duplicates%s", c.n, c.kept_points, c.non_finite, c.duplicates, c.triple ? "" : c.why.c_str()));
  // again on its own result: nothing changes any more
  if (c.triple && c.kept_points && r.chance(0.5)) {
    cloudini_ros::applyVizLossyPreprocessing(c.msg);
    if (c.msg.width != c.kept_points || c.msg.data.size() != c.kept.size() || memcmp(c.msg.data.data(), c.kept.data(), c.kept.size()) != 0)
      ctx.violate("second-pass", fmt("a second pass changes the cloud: %u points instead of %zu", c.msg.width, c.kept_points));
    ctx.count("second_passes");
  }
  // and the result can be compressed as it stands
  if (c.triple && c.kept_points && r.chance(0.2)) {
    Bytes out;
    EncodingInfo info = cloudini_ros::toEncodingInfo(c.msg);
    cloudini_ros::convertPointCloud2ToCompressedCloud(c.msg, info, out);
    const auto back = cloudini_ros::getDeserializedPointCloudMessage(ConstBufferView(out.data(), out.size()));
    Decoded dec = decodeStream(Bytes(back.data.data(), back.data.data() + back.data.size()));
    if (dec.info.width != c.kept_points || dec.data.size() != c.kept.size()) ctx.violate("compressed", "the reduced cloud does not survive compression");
    ctx.count("compressed_afterwards");
  }
}
void finishWorker(Ctx&) {}
