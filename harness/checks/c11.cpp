// C11: ROS messages survive the compressed-message round trip
#include "cloudini_lib/ros_msg_utils.hpp"
#include "h_cdr.hpp"
using namespace vh;

uint64_t numCases(const Ctx& c) { return c.thorough() ? 150000 : 12000; }

using cdr::diffMeta;

void runCase(Ctx& ctx, uint64_t idx) {
  Rng r = ctx.rng();
  LayoutOpts o;
  EncodingInfo gen = genLayout(r, o);
  if (gen.point_step > 3000) return;
  size_t n = r.chance(0.05) ? 0 : pickCountFor(r, gen, ctx.thorough());
  if (n > 500 && r.chance(0.5)) n = size_t(r.range(1, 500));
  if (r.chance(0.006) && gen.point_step <= 48) n = size_t(r.range(98305, 300000));  // several full chunks, as a full lidar sweep
  setDims(r, gen, n);
  if (!n && r.chance(0.5)) gen.height = uint32_t(r.below(2));
  if (!n && r.chance(0.6)) {  // nothing depends on the layout: any values
    gen.point_step = uint32_t(r.next());
    for (auto& f : gen.fields) f.offset = uint32_t(r.chance(0.5) ? r.next() : r.below(70000));
    ctx.count("empty_clouds_of_any_layout");
  }
  for (auto& f : gen.fields) {
    if (r.chance(0.3)) f.name = cdr::randomText(r, r.chance(0.02) ? r.below(3000) : r.below(12));
    if (r.chance(0.1)) f.name = r.pick<std::string>({"", " ", "#", "x#y", " x", "x ", "\"", "\"x\"", "a\nb", "- name: x", "x: y", "\\u0041"});
  }
  for (size_t i = 0; i < gen.fields.size(); ++i) if (r.chance(0.9)) gen.fields[i].name += fmt("_%zu", i);
  DataOpts dopt;
  dopt.wild = false;
  const Bytes data = genData(r, gen, n, dopt);
  const cdr::Msg m = cdr::genMsg(r, gen, data);
  const Bytes raw = cdr::write(m);
  const std::string where = fmt("%s-endian, frame %zu bytes, ", m.little ? "little" : "big", m.frame.size()) + describe(gen);
  ctx.label(where);
  Block in(raw);
  cloudini_ros::RosPointCloud2 pc = cloudini_ros::getDeserializedPointCloudMessage(in.view());
  // what was read
  if (pc.ros_header.stamp_sec != m.sec || pc.ros_header.stamp_nsec != m.nsec || pc.ros_header.frame_id != m.frame || pc.height != m.height ||
      pc.width != m.width || pc.point_step != m.point_step || pc.row_step != m.row_step || pc.is_dense != m.dense || pc.fields.size() != m.fields.size() ||
      pc.data.size() != data.size() || (!data.empty() && memcmp(pc.data.data(), data.data(), data.size()) != 0)) {
    ctx.violate("read", "the message as read differs from the one serialized: " + where);
    return;
  }
  for (size_t i = 0; i < m.fields.size(); ++i)
    if (pc.fields[i].name != m.fields[i].name || pc.fields[i].offset != m.fields[i].offset || uint8_t(pc.fields[i].type) != m.fields[i].type) {
      ctx.violate("read", fmt("field %zu as read differs: ", i) + where);
      return;
    }
  // resolutions as the tools apply them, then compress
  for (size_t i = 0; i < gen.fields.size(); ++i) pc.fields[i].resolution = gen.fields[i].resolution;
  EncodingInfo info = cloudini_ros::toEncodingInfo(pc);
  if (info.width != m.width || info.height != m.height || info.point_step != m.point_step || info.fields.size() != m.fields.size())
    ctx.violate("encoding-info", where);
  info.encoding_opt = gen.encoding_opt;
  info.compression_opt = gen.compression_opt;
  info.use_threads = gen.use_threads;
  if (r.chance(0.3)) info.version = gen.version;
  Bytes compressed;
  std::string what;
  if (r.chance(0.3)) compressed.resize(r.below(5000), 0xEE);  // a vector used before
  cloudini_ros::convertPointCloud2ToCompressedCloud(pc, info, compressed);
  cdr::Msg cm;
  try {
    cm = cdr::read(compressed.data(), compressed.size(), true);
  } catch (const cdr::Bad& e) {
    ctx.violate("compressed-serialization", std::string(e.what()) + " in the compressed message, " + where);
    return;
  }
  std::string d = diffMeta(m, cm);
  if (!d.empty()) ctx.violate("compressed-metadata", d + " in the compressed message, " + where);
  if (cm.format != "cloudini") ctx.violate("format", "format '" + cm.format + "' " + where);
  if (n && cm.data.empty()) ctx.violate("data-missing", where);
  if (n) {  // the stream alone
    Decoded dec = decodeStream(cm.data);
    FidelityStats st;
    EncodingInfo want = info;
    d = compareClouds(want, data.data(), dec.data.data(), n, kAllAspects, st);
    if (!d.empty()) ctx.violate("stream", d + " " + where);
  }
  // and back
  Block cin(compressed);
  const cloudini_ros::RosPointCloud2 cpc = cloudini_ros::getDeserializedPointCloudMessage(cin.view());
  Bytes back;
  if (r.chance(0.3)) back.resize(r.below(5000), 0xEE);
  cloudini_ros::convertCompressedCloudToPointCloud2(cpc, back);
  cdr::Msg bm;
  try {
    bm = cdr::read(back.data(), back.size(), false);
  } catch (const cdr::Bad& e) {
    ctx.violate("restored-serialization", std::string(e.what()) + " in the restored message, " + where);
    return;
  }
  d = diffMeta(m, bm);
  if (!d.empty()) ctx.violate("restored-metadata", d + " in the restored message, " + where);
  if (bm.data.size() != data.size()) {
    ctx.violate("restored-data", fmt("%zu bytes came back as %zu ", data.size(), bm.data.size()) + where);
    return;
  }
  FidelityStats st;
  EncodingInfo cmp = info;
  d = compareClouds(cmp, data.data(), bm.data.data(), n, kAllAspects, st);
  if (!d.empty()) ctx.violate("restored-data", d + " " + where);
  st.report(ctx);
  ctx.count(m.little ? "little_endian_messages" : "big_endian_messages");
  ctx.count(n ? (m.height > 1 ? "organized_clouds" : "unorganized_clouds") : "empty_clouds");
  ctx.count(fmt("frame_length_mod4_%zu", m.frame.size() % 4));
  ctx.nontrivial(hashBytes(raw.data(), raw.size()) ^ infoClass(info));
  if (idx % 2003 == 3) ctx.sample(where);
}
void finishWorker(Ctx&) {}
