// C25: the ROS plugins, the PCL subscriber and the topic converter carry the same cloud
#include <deque>
#include <mutex>
#include <thread>

#include "../../cloudini_ros/src/topic_converter.cpp"
#include "cloudini_plugin/cloudini_publisher_plugin.hpp"
#include "cloudini_plugin/cloudini_subscriber_plugin.hpp"
#include "cloudini_ros/cloudini_subscriber_pcl.hpp"
#include "cloudini_ros/conversion_utils.hpp"
#include "h_cdr.hpp"
#include "h_mut.hpp"
using namespace vh;
using Raw = sensor_msgs::msg::PointCloud2;
using Comp = point_cloud_interfaces::msg::CompressedPointCloud2;
using cloudini_point_cloud_transport::CloudiniPublisher;
using cloudini_point_cloud_transport::CloudiniSubscriber;

uint64_t numCases(const Ctx& c) { return c.thorough() ? 60000 : 3000; }

template <class M>
static cdr::Msg metaToCdr(const M& m) {
  cdr::Msg c;
  c.little = true;
  c.sec = m.header.stamp.sec;
  c.nsec = m.header.stamp.nanosec;
  c.frame = m.header.frame_id;
  c.height = m.height;
  c.width = m.width;
  for (auto& f : m.fields) c.fields.push_back({f.name, f.offset, f.datatype, f.count});
  c.bigendian = m.is_bigendian;
  c.point_step = m.point_step;
  c.row_step = m.row_step;
  c.dense = m.is_dense;
  return c;
}
static Bytes toWire(const Raw& m, bool little) {
  cdr::Msg c = metaToCdr(m);
  c.little = little;
  c.data = m.data;
  return cdr::write(c);
}
static Bytes toWire(const Comp& m, bool little) {
  cdr::Msg c = metaToCdr(m);
  c.little = little;
  c.data = m.compressed_data;
  c.compressed = true;
  c.format = m.format;
  return cdr::write(c);
}
template <class M>
static M metaFromCdr(const cdr::Msg& c) {
  M m;
  m.header.stamp.sec = c.sec;
  m.header.stamp.nanosec = c.nsec;
  m.header.frame_id = c.frame;
  m.height = c.height;
  m.width = c.width;
  for (auto& f : c.fields) m.fields.push_back({f.name, f.offset, f.type, f.count});
  m.is_bigendian = c.bigendian;
  m.point_step = c.point_step;
  m.row_step = c.row_step;
  m.is_dense = c.dense;
  return m;
}
static Comp compFromWire(const Bytes& b) {
  const cdr::Msg c = cdr::read(b.data(), b.size(), true);
  Comp m = metaFromCdr<Comp>(c);
  m.compressed_data = c.data;
  m.format = c.format;
  return m;
}
static Raw rawFromWire(const Bytes& b) {
  const cdr::Msg c = cdr::read(b.data(), b.size(), false);
  Raw m = metaFromCdr<Raw>(c);
  m.data = c.data;
  return m;
}

// a cloud and the description it is compared with
struct Cloud {
  Raw raw;
  EncodingInfo info;  // resolutions are set when it is sent
  size_t n = 0;
};
static Cloud genCloud(Rng& r, float res, bool small) {
  Cloud c;
  LayoutOpts o;
  o.extremes = r.chance(0.3);
  c.info = genLayout(r, o);
  while (c.info.point_step > 2500) c.info = genLayout(r, o);
  c.info.version = kEncodingVersion;
  c.info.encoding_opt = EncodingOptions::LOSSY;
  for (auto& f : c.info.fields) {
    f.resolution.reset();
    if (f.type == FieldType::FLOAT32) f.resolution = res;
  }
  if (r.chance(0.3))
    for (size_t i = 0; i < c.info.fields.size(); ++i) c.info.fields[i].name = cdr::randomText(r, r.below(10)) + fmt("_%zu", i);
  c.n = r.chance(0.06) ? 0 : pickCountFor(r, c.info);
  if (small || (c.n > 500 && r.chance(0.7))) c.n = c.n ? size_t(r.range(1, 400)) : 0;
  setDims(r, c.info, c.n);
  if (!c.n && r.chance(0.5)) c.info.height = uint32_t(r.below(2));
  DataOpts d;
  d.wild = false;
  c.raw = metaFromCdr<Raw>(cdr::genMsg(r, c.info, {}));
  c.raw.data = genData(r, c.info, c.n, d);
  return c;
}
static void setRes(Cloud& c, float res) {
  for (auto& f : c.info.fields)
    if (f.resolution) f.resolution = res;
}

static std::string diffHeader(const std_msgs::msg::Header& a, const std_msgs::msg::Header& b) {
  if (!(a.stamp == b.stamp)) return fmt("stamp %d.%u arrived as %d.%u", a.stamp.sec, a.stamp.nanosec, b.stamp.sec, b.stamp.nanosec);
  if (a.frame_id != b.frame_id) return "frame id differs";
  return "";
}
static std::string diffRaw(const Cloud& c, const Raw& got, FidelityStats& st) {
  const Raw& a = c.raw;
  std::string d = diffHeader(a.header, got.header);
  if (!d.empty()) return d;
  if (got.width != a.width || got.height != a.height) return fmt("dimensions %ux%u arrived as %ux%u", a.width, a.height, got.width, got.height);
  if (!(got.fields == a.fields)) return "fields differ";
  if (got.point_step != a.point_step || got.row_step != a.row_step) return fmt("steps %u,%u arrived as %u,%u", a.point_step, a.row_step, got.point_step, got.row_step);
  if (got.is_bigendian) return "declared big-endian";
  if (got.is_dense != a.is_dense) return "density differs";
  if (got.data.size() != a.data.size()) return fmt("%zu bytes arrived as %zu", a.data.size(), got.data.size());
  return compareClouds(c.info, a.data.data(), got.data.data(), c.n, kAllAspects, st);
}
static std::string diffPcl(const Cloud& c, const pcl::PCLPointCloud2& got, FidelityStats& st) {
  const Raw& a = c.raw;
  const uint64_t stamp = uint64_t(int64_t(a.header.stamp.sec) * 1000000 + int64_t(a.header.stamp.nanosec / 1000));
  if (got.header.stamp != stamp) return fmt("stamp %llu us arrived as %llu", (unsigned long long)stamp, (unsigned long long)got.header.stamp);
  if (got.header.frame_id != a.header.frame_id) return "frame id differs";
  if (got.width != a.width || got.height != a.height) return fmt("dimensions %ux%u arrived as %ux%u", a.width, a.height, got.width, got.height);
  if (got.point_step != a.point_step || got.row_step != a.point_step * a.width) return "steps differ";
  if (bool(got.is_dense) != a.is_dense) return "density differs";
  if (got.is_bigendian) return "declared big-endian";
  if (got.fields.size() != a.fields.size()) return fmt("%zu fields arrived as %zu", a.fields.size(), got.fields.size());
  for (size_t i = 0; i < a.fields.size(); ++i)
    if (got.fields[i].name != a.fields[i].name || got.fields[i].offset != a.fields[i].offset || got.fields[i].datatype != a.fields[i].datatype || got.fields[i].count != 1)
      return fmt("field %zu differs", i);
  if (got.data.size() != a.data.size()) return fmt("%zu bytes arrived as %zu", a.data.size(), got.data.size());
  return compareClouds(c.info, a.data.data(), got.data.data(), c.n, kAllAspects, st);
}
static uint64_t hashPcl(const pcl::PCLPointCloud2& c) {
  uint64_t h = hashBytes(c.data.data(), c.data.size()) ^ mix64(c.width * 31 + c.height) ^ mix64(c.header.stamp) ^ hashStr(c.header.frame_id);
  for (auto& f : c.fields) h = mix64(h ^ hashStr(f.name) ^ f.offset ^ (uint64_t(f.datatype) << 40));
  return h;
}

static std::shared_ptr<rclcpp::SerializedMessage> wireMsg(const Bytes& b) {
  return std::make_shared<rclcpp::SerializedMessage>(b.data(), b.size());
}
// no exception may leave the callback of a subscription or of a plugin
template <class F>
static bool guarded(Ctx& ctx, const char* who, const std::string& where, F&& f) {
  try {
    f();
    return true;
  } catch (const std::exception& e) {
    ctx.violate("node-taken-down", fmt("%s: exception left the callback: %s, ", who, e.what()) + where);
  }
  return false;
}

struct Held {
  pcl::PCLPointCloud2::Ptr cloud;
  uint64_t hash;
};

struct Graph {
  std::string name;
  // senders
  std::unique_ptr<CloudiniPublisher> pub;
  double pub_res;
  std::unique_ptr<CloudiniPointcloudConverter> comp;
  double comp_res;
  // receivers
  CloudiniSubscriber sub;
  std::unique_ptr<CloudiniPointcloudConverter> decomp;
  std::shared_ptr<rclcpp::Node> node = std::make_shared<rclcpp::Node>("user");
  std::unique_ptr<cloudini_ros::CloudiniSubscriberPCL> pcl;
  std::vector<pcl::PCLPointCloud2::Ptr> arrived;
  std::deque<Held> held;
  bool user_throws = false;
};

static double pickRes(Rng& r) { return r.pick({0.001, 0.001, 0.01, 0.0001, 0.05, 0.25, 0.0037, 1e-5}); }

static std::vector<rclcpp::TopicEndpointInfo> genEndpoints(Rng& r) {
  std::vector<rclcpp::TopicEndpointInfo> v(r.below(4));
  for (auto& e : v) {
    auto& p = e.q.get_rmw_qos_profile();
    p.reliability = r.chance(0.5) ? RMW_QOS_POLICY_RELIABILITY_RELIABLE : RMW_QOS_POLICY_RELIABILITY_BEST_EFFORT;
    p.durability = r.chance(0.5) ? RMW_QOS_POLICY_DURABILITY_TRANSIENT_LOCAL : RMW_QOS_POLICY_DURABILITY_VOLATILE;
  }
  return v;
}
// a node that cannot receive what is offered delivers nothing
static std::unique_ptr<CloudiniPointcloudConverter> makeConverter(Ctx& ctx, Rng& r, bool compressing, double res) {
  rclcpp::NodeOptions o;
  const std::string in = r.pick<std::string>({"/points", "/a/b", "cloud"});
  std::string out;
  if (!compressing || r.chance(0.5)) o.overrides["compressing"] = rclcpp::Parameter("compressing", compressing);
  if (in != "/points" || r.chance(0.5)) o.overrides["topic_input"] = rclcpp::Parameter("topic_input", in);
  if (r.chance(0.4)) {
    out = "/elsewhere";
    o.overrides["topic_output"] = rclcpp::Parameter("topic_output", out);
  }
  if (res != 0.001 || r.chance(0.5)) o.overrides["resolution"] = rclcpp::Parameter("resolution", res);
  if (r.chance(0.5)) o.overrides["log_compression_stats"] = rclcpp::Parameter("log_compression_stats", r.chance(0.5));
  rclcpp::Node::endpoints = genEndpoints(r);
  auto node = std::make_unique<CloudiniPointcloudConverter>(o);
  const std::string rt = "sensor_msgs/msg/PointCloud2", ct = "point_cloud_interfaces/msg/CompressedPointCloud2";
  if (out.empty()) out = in + (compressing ? "/compressed" : "/decompressed");
  if (node->subs.size() != 1 || node->pubs.size() != 1) {
    ctx.violate("topics", "the converter does not have one input and one output");
    return node;
  }
  if (node->subs[0]->topic != in || node->subs[0]->type != (compressing ? rt : ct)) ctx.violate("topics", "subscribed to " + node->subs[0]->topic + " as " + node->subs[0]->type);
  if (node->pubs[0]->topic != out || node->pubs[0]->type != (compressing ? ct : rt)) ctx.violate("topics", "publishes " + node->pubs[0]->topic + " as " + node->pubs[0]->type);
  const auto& q = node->subs[0]->qos.get_rmw_qos_profile();
  for (auto& e : rclcpp::Node::endpoints) {
    const auto& p = e.q.get_rmw_qos_profile();
    if (q.reliability == RMW_QOS_POLICY_RELIABILITY_RELIABLE && p.reliability != RMW_QOS_POLICY_RELIABILITY_RELIABLE)
      ctx.violate("qos", "asks for reliable delivery although a publisher offers best effort");
    if (q.durability == RMW_QOS_POLICY_DURABILITY_TRANSIENT_LOCAL && p.durability != RMW_QOS_POLICY_DURABILITY_TRANSIENT_LOCAL)
      ctx.violate("qos", "asks for transient-local although a publisher is volatile");
  }
  return node;
}

static void checkHeld(Ctx& ctx, Graph& g, const std::string& where) {
  for (auto& h : g.held)
    if (hashPcl(*h.cloud) != h.hash) {
      ctx.violate("delivered-cloud-changed", "a cloud kept by the user changed after " + where);
      h.hash = hashPcl(*h.cloud);
    }
  ctx.count("kept_clouds_checked", g.held.size());
}

// delivers one compressed message to the three receivers
enum Expect { kArrives, kRefused, kAnything };
static void deliver(Ctx& ctx, Rng& r, Graph& g, const Comp* msg, const Bytes& wire, const Cloud& c, Expect plugin, Expect others, const std::string& where) {
  FidelityStats st;
  if (msg) guarded(ctx, "subscriber plugin", where, [&] {
    auto res = g.sub.decodeTyped(*msg);
    const bool got = res && res.value() && *res.value();
    if (plugin == kArrives) {
      if (!got) {
        ctx.violate("not-delivered", "subscriber plugin: " + (res ? std::string("nothing") : res.error()) + ", " + where);
        return;
      }
      const std::string d = diffRaw(c, **res.value(), st);
      if (!d.empty()) ctx.violate("plugin-delivery", "subscriber plugin: " + d + ", " + where);
      ctx.count("delivered_by_the_plugin");
    } else if (plugin == kRefused) {
      if (got) ctx.violate("malformed-delivered", "subscriber plugin: delivered a cloud, " + where);
      ctx.count("refused_by_the_plugin");
    }
  });
  guarded(ctx, "PCL subscriber", where, [&] {
    g.arrived.clear();
    g.node->subs[0]->callback(wireMsg(wire));
    if (others == kArrives) {
      if (g.arrived.size() != 1) {
        ctx.violate("not-delivered", fmt("PCL subscriber: %zu clouds, ", g.arrived.size()) + where);
        return;
      }
      const std::string d = diffPcl(c, *g.arrived[0], st);
      if (!d.empty()) ctx.violate("pcl-delivery", "PCL subscriber: " + d + ", " + where);
      ctx.count("delivered_by_the_pcl_subscriber");
      if (r.chance(0.6)) g.held.push_back({g.arrived[0], hashPcl(*g.arrived[0])});
    } else if (others == kRefused) {
      if (!g.arrived.empty()) ctx.violate("malformed-delivered", "PCL subscriber: delivered a cloud, " + where);
      ctx.count("refused_by_the_pcl_subscriber");
    }
    g.arrived.clear();
  });
  while (g.held.size() > 8 || (!g.held.empty() && r.chance(0.3))) g.held.erase(g.held.begin() + long(r.below(g.held.size())));
  guarded(ctx, "decompressing converter", where, [&] {
    auto& pub = *g.decomp->pubs[0];
    pub.sent.clear();
    g.decomp->subs[0]->callback(wireMsg(wire));
    if (others == kArrives) {
      if (pub.sent.size() != 1) {
        ctx.violate("not-delivered", fmt("decompressing converter: %zu messages, ", pub.sent.size()) + where);
        return;
      }
      try {
        const std::string d = diffRaw(c, rawFromWire(pub.sent[0]), st);
        if (!d.empty()) ctx.violate("converter-delivery", "decompressing converter: " + d + ", " + where);
      } catch (const cdr::Bad& e) {
        ctx.violate("converter-delivery", std::string("decompressing converter: invalid message: ") + e.what() + ", " + where);
      }
      ctx.count("delivered_by_the_converter");
    } else if (others == kRefused) {
      if (!pub.sent.empty()) ctx.violate("malformed-delivered", "decompressing converter: published a cloud, " + where);
      ctx.count("refused_by_the_converter");
    }
  });
  st.report(ctx);
  checkHeld(ctx, g, where);
}

// compresses with one of the senders
static bool send(Ctx& ctx, Rng& r, Graph& g, int sender, Cloud& c, Comp& out, Bytes& wire, std::string& where) {
  const bool little = r.chance(0.7);
  bool ok = false;
  if (sender == 0) {
    setRes(c, float(g.pub_res));
    where = fmt("publisher plugin (res %g), ", g.pub_res) + describe(c.info);
    ctx.label(where);
    guarded(ctx, "publisher plugin", where, [&] {
      auto res = g.pub->encodeTyped(c.raw);
      if (!res || !res.value()) {
        ctx.violate("not-sent", "publisher plugin: " + (res ? std::string("nothing") : res.error()) + ", " + where);
        return;
      }
      out = *res.value();
      wire = toWire(out, little);
      ok = true;
    });
  } else if (sender == 1) {
    setRes(c, float(g.comp_res));
    where = fmt("compressing converter (res %g), ", g.comp_res) + describe(c.info);
    ctx.label(where);
    auto& pub = *g.comp->pubs[0];
    pub.sent.clear();
    guarded(ctx, "compressing converter", where, [&] { g.comp->subs[0]->callback(wireMsg(toWire(c.raw, little))); });
    if (pub.sent.size() != 1) ctx.violate("not-sent", fmt("compressing converter: %zu messages, ", pub.sent.size()) + where);
    else {
      wire = pub.sent[0];
      ok = true;
    }
  } else {
    const float res = float(pickRes(r));
    setRes(c, res);
    where = fmt("SerializeCompressedPointCloud2 (res %g), ", res) + describe(c.info);
    ctx.label(where);
    if (r.chance(0.5)) wire.assign(r.below(4000), 0xEE);
    guarded(ctx, "SerializeCompressedPointCloud2", where, [&] {
      Cloudini::SerializeCompressedPointCloud2(c.raw, res, wire);
      ok = true;
    });
  }
  if (!ok) return false;
  if (sender != 0) {
    try {
      out = compFromWire(wire);
    } catch (const cdr::Bad& e) {
      ctx.violate("not-sent", std::string("invalid compressed message: ") + e.what() + ", " + where);
      return false;
    }
  }
  // what was published
  std::string d = diffHeader(c.raw.header, out.header);
  if (d.empty() && (out.width != c.raw.width || out.height != c.raw.height)) d = "dimensions differ";
  if (d.empty() && !(out.fields == c.raw.fields)) d = "fields differ";
  if (d.empty() && (out.point_step != c.raw.point_step || out.row_step != c.raw.row_step)) d = "steps differ";
  if (d.empty() && out.is_dense != c.raw.is_dense) d = "density differs";
  if (d.empty() && out.is_bigendian) d = "declared big-endian";
  if (d.empty() && out.format != "cloudini") d = "format '" + out.format + "'";
  if (!d.empty()) ctx.violate("published-metadata", d + ", " + where);
  if (c.n) {
    Comp m = out;
    guarded(ctx, "ReadEncodingInfo", where, [&] {
      const EncodingInfo i = Cloudini::ReadEncodingInfo(m);
      if (i.width != c.info.width || i.height != c.info.height || i.point_step != c.info.point_step || i.fields.size() != c.info.fields.size() || i.encoding_opt != EncodingOptions::LOSSY)
        ctx.violate("published-metadata", "ReadEncodingInfo describes another cloud, " + where);
      else
        for (size_t k = 0; k < i.fields.size(); ++k)
          if (i.fields[k].resolution != c.info.fields[k].resolution) ctx.violate("published-resolution", fmt("field %zu, ", k) + where);
    });
  }
  ctx.count(fmt("sent_by_%d", sender));
  return true;
}

static void malformed(Ctx& ctx, Rng& r, Graph& g, const Comp& good, const Bytes& goodWire, const Cloud& c) {
  Comp m = good;
  Bytes wire;
  Expect plugin = kRefused, others = kRefused;
  std::string what;
  const int kind = c.n ? int(r.below(8)) : 7;
  switch (kind) {
    case 0:
      m.compressed_data.resize(r.below(m.compressed_data.size()));
      what = fmt("cut to %zu of %zu bytes", m.compressed_data.size(), good.compressed_data.size());
      break;
    case 1:
      m.compressed_data[r.below(12)] ^= uint8_t(1u << r.below(7));
      what = "wrong magic";
      if (memcmp(m.compressed_data.data(), kMagicHeader, kMagicHeaderLength - 0) == 0) plugin = others = kAnything;
      break;
    case 2:
      m.compressed_data.clear();
      what = "no data";
      break;
    case 3: {
      const int k = int(r.below(3));
      auto& v = k == 0 ? m.width : k == 1 ? m.height : m.point_step;
      v = r.chance(0.6) ? v + uint32_t(r.pick({1, -1, 2, 100})) : uint32_t(r.next());
      if (r.chance(0.3)) {  // as many points, in other rows
        m = good;
        if (m.width != m.height) std::swap(m.width, m.height);
      }
      what = fmt("declares %ux%u points of %u bytes", m.width, m.height, m.point_step);
      if (m.width == good.width && m.height == good.height && m.point_step == good.point_step) plugin = kAnything;
      others = kAnything;
    } break;
    case 4: {
      if (m.fields.empty() || r.chance(0.2)) m.fields.push_back({"extra", 0, 7, 1});
      else {
        auto& f = m.fields[r.below(m.fields.size())];
        const int k = int(r.below(4));
        if (k == 0) f.name += "'";
        else if (k == 1) f.offset += 1;
        else if (k == 2) f.datatype = uint8_t(f.datatype + 1);
        else m.fields.pop_back();
      }
      what = "declares other fields";
      others = kAnything;
    } break;
    case 5:
      mutateBytes(r, m.compressed_data, int(r.range(1, 4)));
      what = "mutated data";
      plugin = others = kAnything;
      break;
    case 6:
      m.compressed_data.insert(m.compressed_data.end(), m.compressed_data.begin(), m.compressed_data.end());
      what = "data twice";
      break;
    default:
      wire = goodWire;
      mutateBytes(r, wire, int(r.range(1, 4)));
      what = "mutated message";
      plugin = others = kAnything;
      break;
  }
  const bool typed = wire.empty();
  if (typed) wire = toWire(m, r.chance(0.7));
  ctx.count(fmt("malformed_kind_%d", kind));
  ctx.label(what + ", " + describe(c.info));
  deliver(ctx, r, g, typed ? &m : nullptr, wire, c, plugin, others, what + " in " + describe(c.info));
}

// clouds that cannot be carried must be reported, not sent in a form that cannot be read
static void badRaw(Ctx& ctx, Rng& r, Graph& g) {
  Cloud c = genCloud(r, float(g.pub_res), true);
  if (!c.n) return;
  Raw m = c.raw;
  std::string what;
  bool must = true;
  switch (r.below(5)) {
    case 0: {  // padded rows
      const uint32_t pad = uint32_t(r.range(1, 16));
      m.row_step += pad;
      m.data.resize(size_t(m.row_step) * m.height, 0);
      what = "padded rows";
    } break;
    case 1:
      m.data.resize(r.below(m.data.size()));
      what = "data too short";
      break;
    case 2:
      m.fields[r.below(m.fields.size())].offset = m.point_step + uint32_t(r.below(3));
      what = "field outside of the point";
      break;
    case 3:
      (r.chance(0.5) ? m.width : m.height) += 1;
      what = "more points declared";
      break;
    default:
      m.fields[r.below(m.fields.size())].datatype = uint8_t(r.pick({0, 9, 10, 11, 200}));
      what = "unusual type";
      must = false;
      break;
  }
  const std::string where = what + " in " + describe(c.info);
  ctx.label(where);
  guarded(ctx, "publisher plugin", where, [&] {
    auto res = g.pub->encodeTyped(m);
    if (must && res) ctx.violate("bad-cloud-sent", "publisher plugin: " + where);
  });
  Bytes wire = toWire(m, true);
  if (r.chance(0.3)) {
    mutateBytes(r, wire, int(r.range(1, 3)));
    must = false;
  }
  auto& pub = *g.comp->pubs[0];
  pub.sent.clear();
  guarded(ctx, "compressing converter", where, [&] {
    g.comp->subs[0]->callback(wireMsg(wire));
    if (must && !pub.sent.empty()) ctx.violate("bad-cloud-sent", "compressing converter: " + where);
  });
  ctx.count("bad_clouds");
}

static void history(Ctx& ctx, Rng& r) {
  auto gp = std::make_unique<Graph>();
  Graph& g = *gp;
  g.pub = std::make_unique<CloudiniPublisher>();
  g.pub_res = pickRes(r);
  g.comp_res = pickRes(r);
  if (g.pub_res != 0.001 || r.chance(0.5)) g.pub->doubles["cloudini_resolution"] = g.pub_res;
  g.pub->declareParameters("/points");
  if (g.sub.getDataType() != g.pub->getDataType() || g.sub.getTransportName() != g.pub->getTransportName() ||
      g.pub->getDataType() != "point_cloud_interfaces/msg/CompressedPointCloud2")
    ctx.violate("topics", "publisher and subscriber plugins do not name the same transport");
  g.comp = makeConverter(ctx, r, true, g.comp_res);
  g.decomp = makeConverter(ctx, r, false, 0.001);
  auto cb = [&g](const pcl::PCLPointCloud2::Ptr& c) {
    g.arrived.push_back(c);
    if (g.user_throws) throw std::runtime_error("thrown by the user");
  };
  const std::string topic = "/in/compressed";
  if (r.chance(0.5)) g.pcl = std::make_unique<cloudini_ros::CloudiniSubscriberPCL>(g.node, topic, cb);
  else g.pcl = std::make_unique<cloudini_ros::CloudiniSubscriberPCL>(g.node.get(), topic, cb);
  if (g.pcl->getTopicName() != topic || g.node->subs.at(0)->type != "point_cloud_interfaces/msg/CompressedPointCloud2") ctx.violate("topics", "PCL subscriber");
  const int steps = int(r.range(1, 8));
  uint64_t h = 0;
  for (int s = 0; s < steps; ++s) {
    if (r.chance(0.25) && g.pub->param_cb) {  // a parameter changes while running
      const double res = pickRes(r);
      std::vector<rclcpp::Parameter> ps;
      if (r.chance(0.4)) ps.emplace_back("other.parameter", std::string("x"));
      const bool ours = r.chance(0.8);
      if (ours) ps.emplace_back(r.chance(0.5) ? "cloudini_resolution" : "points.cloudini.cloudini_resolution", res);
      if (r.chance(0.4)) ps.emplace_back("other", 7.0);
      const auto rc = g.pub->param_cb(ps);
      if (!rc.successful) ctx.violate("parameter-refused", rc.reason);
      if (ours) g.pub_res = res;
    }
    const double u = r.uniform();
    if (u < 0.12) {
      badRaw(ctx, r, g);
      continue;
    }
    Cloud c = genCloud(r, 0.001f, false);
    const int sender = int(r.below(3));
    // the data must fit the resolution it will be sent with
    setRes(c, sender == 0 ? float(g.pub_res) : sender == 1 ? float(g.comp_res) : 0.001f);
    if (c.n) {
      DataOpts d;
      d.wild = false;
      c.raw.data = genData(r, c.info, c.n, d);
    }
    Comp m;
    Bytes wire;
    std::string where;
    if (!send(ctx, r, g, sender, c, m, wire, where)) continue;
    h = mix64(h ^ hashBytes(wire.data(), wire.size()));
    if (r.chance(0.35)) {
      malformed(ctx, r, g, m, wire, c);
      ctx.label(where);
    }
    if (r.chance(0.05)) {  // the user's own exception
      g.user_throws = true;
      guarded(ctx, "PCL subscriber", "with a callback that throws", [&] { g.node->subs[0]->callback(wireMsg(wire)); });
      g.user_throws = false;
      g.arrived.clear();
    }
    deliver(ctx, r, g, &m, wire, c, kArrives, kArrives, where);
    if (!c.n) ctx.count("empty_clouds");
    if (c.n > 32768) ctx.count("clouds_of_several_chunks");
    ctx.nontrivial(h);
    if (ctx.idx % 501 == 3) ctx.sample(where);
  }
  // clouds kept by the user outlive the subscriber
  std::deque<Held> held;
  held.swap(g.held);
  gp.reset();
  for (auto& x : held)
    if (hashPcl(*x.cloud) != x.hash) ctx.violate("delivered-cloud-changed", "a cloud kept by the user changed when the subscriber was destroyed");
  ctx.count("clouds_kept_longer_than_the_subscriber", held.size());
}

// one subscriber per receiving thread, clouds released by other threads, also after the subscriber
static void concurrent(Ctx& ctx, Rng& r) {
  std::vector<Cloud> clouds;
  std::vector<Bytes> wires;
  Graph g;
  g.pub = std::make_unique<CloudiniPublisher>();
  g.pub_res = 0.001;
  for (int k = 0; k < 6; ++k) {
    Cloud c = genCloud(r, 0.001f, true);
    auto res = g.pub->encodeTyped(c.raw);
    if (!res || !res.value()) {
      ctx.violate("not-sent", describe(c.info));
      return;
    }
    wires.push_back(toWire(*res.value(), true));
    clouds.push_back(std::move(c));
  }
  ctx.label("clouds released by other threads");
  std::mutex mx;
  std::deque<std::pair<size_t, pcl::PCLPointCloud2::Ptr>> queue;
  std::atomic<bool> done{false};
  std::atomic<uint64_t> checked{0};
  std::string bad;
  const int consumers = int(r.range(1, 3));
  std::vector<std::thread> ts;
  for (int t = 0; t < consumers; ++t)
    ts.emplace_back([&, seed = r.next()] {
      Rng rr(seed);
      std::vector<pcl::PCLPointCloud2::Ptr> kept;
      for (;;) {
        std::pair<size_t, pcl::PCLPointCloud2::Ptr> x;
        bool last = done;
        {
          std::lock_guard<std::mutex> l(mx);
          if (!queue.empty()) {
            x = std::move(queue.front());
            queue.pop_front();
          }
        }
        if (!x.second) {
          if (last) break;
          std::this_thread::yield();
          continue;
        }
        FidelityStats st;
        const std::string d = diffPcl(clouds[x.first], *x.second, st);
        ++checked;
        if (!d.empty()) {
          std::lock_guard<std::mutex> l(mx);
          bad = d;
        }
        if (rr.chance(0.5)) kept.push_back(std::move(x.second));
        if (kept.size() > 6) kept.erase(kept.begin() + long(rr.below(kept.size())));
      }
    });
  const int rounds = int(r.range(1, 3)), per = int(r.range(4, 30));
  for (int q = 0; q < rounds; ++q) {
    auto node = std::make_shared<rclcpp::Node>("user");
    size_t at = 0;
    cloudini_ros::CloudiniSubscriberPCL sub(node, "/t", [&](const pcl::PCLPointCloud2::Ptr& c) {
      std::lock_guard<std::mutex> l(mx);
      queue.emplace_back(at, c);
    });
    for (int k = 0; k < per; ++k) {
      at = r.below(wires.size());
      node->subs[0]->callback(wireMsg(wires[at]));
    }
  }
  done = true;
  for (auto& t : ts) t.join();
  if (!bad.empty()) ctx.violate("pcl-delivery", "with clouds released by other threads: " + bad);
  if (checked != uint64_t(rounds) * uint64_t(per)) ctx.violate("not-delivered", "with clouds released by other threads");
  ctx.count("delivered_to_other_threads", checked);
  ctx.nontrivial(r.next());
}

void runCase(Ctx& ctx, uint64_t idx) {
  Rng r = ctx.rng();
#ifdef VH_NO_NEW
  (void)idx;
  concurrent(ctx, r);
#else
  if (idx % 25 == 7) concurrent(ctx, r);
  else history(ctx, r);
#endif
}
void finishWorker(Ctx&) {}
