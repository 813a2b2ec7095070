// Messages for the visualization preprocessing, and a model of it.
#pragma once
#include "cloudini_lib/ros_msg_utils.hpp"
#include "h_cloud.hpp"

namespace viz {
using namespace vh;
using cloudini_ros::RosPointCloud2;

struct Cloud {
  RosPointCloud2 msg;      // data views `bytes`
  std::shared_ptr<Block> bytes;
  bool triple = true;
  size_t n = 0;
  // model
  Bytes kept;
  size_t kept_points = 0, non_finite = 0, duplicates = 0;
  std::string why;  // when there is no triple
};

inline void putF(uint8_t* p, float f) { memcpy(p, &f, 4); }

// voxel coordinates within the documented range; values lie well inside their voxel, so that every way of rounding
// to the nearest grid point gives the same voxel
inline Cloud gen(Rng& r, size_t n, int broken, float given_res = 0) {
  Cloud c;
  c.n = n;
  RosPointCloud2& m = c.msg;
  const float res = given_res > 0 ? given_res : pickResolution(r, true);
  const uint32_t base = r.chance(0.6) ? 0 : uint32_t(r.below(20));
  uint32_t at = base + 12;
  for (int k = 0; k < 3; ++k) {
    PointField f;
    f.name = r.chance(0.8) ? std::string(1, char('x' + k)) : fmt("q%d", k);
    f.offset = base + uint32_t(4 * k);
    f.type = FieldType::FLOAT32;
    f.resolution = res;
    m.fields.push_back(f);
  }
  const int extra = int(r.below(6));
  for (int k = 0; k < extra; ++k) {
    PointField f;
    f.name = fmt("e%d", k);
    at += uint32_t(r.below(4));
    f.offset = at;
    f.type = FieldType(r.pick({1, 2, 3, 4, 5, 6, 7, 8, 8, 8, 9, 10}));
    if (r.chance(0.4)) f.resolution = pickResolution(r, false);
    at += uint32_t(typeSize(f.type));
    m.fields.push_back(f);
  }
  m.point_step = at + uint32_t(r.below(9));
  m.ros_header.frame_id = "map";
  m.ros_header.stamp_sec = int32_t(r.below(1000));
  m.is_dense = r.chance(0.5);
  m.width = uint32_t(n);
  m.height = 1;
  if (n % 2 == 0 && n && r.chance(0.4)) {
    m.width = uint32_t(n / 2);
    m.height = 2;
  }
  m.row_step = m.width * m.point_step;
  c.bytes = std::make_shared<Block>(n * m.point_step);
  r.fill(c.bytes->p, c.bytes->n);
  m.data = c.bytes->view();
  // voxels
  struct V {
    int32_t q[3];
    bool operator<(const V& o) const { return std::lexicographical_compare(q, q + 3, o.q, o.q + 3); }
  };
  const int32_t limit = (1 << 20) - 2;
  const int style = int(r.below(6));
  auto coord = [&]() -> int32_t {
    switch (style) {
      case 0: return int32_t(r.range(-3, 3));
      case 1: return int32_t(r.range(-100, 100));
      case 2: return int32_t(r.pick({-limit, limit, 0, 1, -1, -limit + 1, limit - 1, 1 << 19, -(1 << 19)}));
      case 3: return int32_t(r.range(-limit, limit));
      case 4: return int32_t(1 << r.below(20)) * (r.chance(0.5) ? 1 : -1);
      default: return int32_t(r.range(-20000, 20000));
    }
  };
  std::vector<V> pool;
  const size_t distinct = style == 0 ? 343 : size_t(r.pick({1, 5, 50, 500, 5000, 50000}));
  for (size_t i = 0; i < std::min<size_t>(distinct, n + 1); ++i) {
    V v{{coord(), coord(), coord()}};
    if (i && r.chance(0.5)) {  // a neighbour, a permutation or a mirror image of another one
      v = pool[r.below(pool.size())];
      switch (r.below(4)) {
        case 0: { int32_t& q = v.q[r.below(3)]; q = std::min(limit, q + 1); } break;
        case 1: std::swap(v.q[0], v.q[r.below(3)]); break;
        case 2: { int32_t& q = v.q[r.below(3)]; q = -q; } break;
        default: std::swap(v.q[1], v.q[2]); break;
      }
    }
    pool.push_back(v);
  }
  const double p_bad = r.pick({0.0, 0.0, 0.01, 0.3, 1.0});
  const bool fresh = r.chance(0.3);  // mostly first occurrences
  std::set<V> seen;
  for (size_t i = 0; i < n; ++i) {
    uint8_t* p = c.bytes->p + i * m.point_step;
    const V v = fresh ? pool[i % pool.size()] : pool[r.below(pool.size())];
    for (int k = 0; k < 3; ++k) {
      const double frac = std::abs(v.q[k]) < (1 << 17) ? r.pick({0.0, 0.4, -0.4, 0.2, -0.2, r.uniform(-0.4, 0.4)}) : 0.0;
      putF(p + base + 4 * k, float((double(v.q[k]) + frac) * double(res)));
    }
    bool bad = r.chance(p_bad);
    if (bad) putF(p + base + 4 * r.below(3), r.pick({float(NAN), float(INFINITY), -float(INFINITY)}));
    if (broken) continue;
    if (bad) {
      ++c.non_finite;
    } else if (!seen.insert(v).second) {
      ++c.duplicates;
    } else {
      c.kept.insert(c.kept.end(), p, p + m.point_step);
      ++c.kept_points;
    }
  }
  if (broken) {
    c.triple = false;
    switch (broken) {
      case 1: m.fields.resize(r.below(3)); c.why = "fewer than three fields"; break;
      case 2: m.fields[r.below(3)].resolution.reset(); c.why = "a coordinate without resolution"; break;
      case 3: m.fields[r.below(3)].resolution = res * 1.5f; c.why = "resolutions differ"; break;
      case 4: m.fields[r.below(3)].type = FieldType(r.pick({8, 5, 6, 1})); c.why = "a coordinate of another type"; break;
      case 5: std::swap(m.fields[0].offset, m.fields[1 + r.below(2)].offset); c.why = "offsets not consecutive"; break;
      case 6: m.fields[1 + r.below(2)].offset += 1; c.why = "offsets not consecutive"; break;
      case 7: {
        PointField f;
        f.name = "first";
        f.type = r.chance(0.5) ? FieldType::UINT8 : FieldType::FLOAT32;
        f.offset = 0;
        m.fields.insert(m.fields.begin(), f);
        c.why = "the triple does not come first";
      } break;
      default: {
        const float bad = r.pick({0.0f, -1.0f, float(NAN), float(INFINITY), -0.0f});
        for (int k = 0; k < 3; ++k) m.fields[size_t(k)].resolution = bad;
        c.why = "a resolution that is none";
      }
    }
  }
  return c;
}

inline bool sameFields(const std::vector<PointField>& a, const std::vector<PointField>& b) {
  if (a.size() != b.size()) return false;
  for (size_t i = 0; i < a.size(); ++i) {
    if (a[i].name != b[i].name || a[i].offset != b[i].offset || a[i].type != b[i].type || a[i].resolution.has_value() != b[i].resolution.has_value()) return false;
    if (a[i].resolution && memcmp(&*a[i].resolution, &*b[i].resolution, 4) != 0) return false;
  }
  return true;
}

// runs the preprocessing on the message and compares with the model
inline std::string check(Cloud& c) {
  const RosPointCloud2 before = c.msg;
  const Bytes orig(c.bytes->p, c.bytes->p + c.bytes->n);
  cloudini_ros::applyVizLossyPreprocessing(c.msg);
  const RosPointCloud2& m = c.msg;
  const std::string at = fmt("%zu points of %u bytes, resolution %g", c.n, before.point_step, before.fields.empty() || !before.fields[0].resolution ? -1.0 : double(*before.fields[0].resolution));
  if (!orig.empty() && memcmp(orig.data(), c.bytes->p, orig.size()) != 0) return "the input was modified: " + at;
  if (m.ros_header.frame_id != before.ros_header.frame_id || m.ros_header.stamp_sec != before.ros_header.stamp_sec || m.point_step != before.point_step ||
      m.is_dense != before.is_dense || m.is_bigendian != before.is_bigendian)
    return "another attribute changed: " + at;
  if (!c.triple || c.n == 0) {
    if (m.width != before.width || m.height != before.height || m.row_step != before.row_step || m.data.size() != before.data.size() ||
        m.data.data() != before.data.data() || !sameFields(m.fields, before.fields) || !m.owned_data.empty())
      return "a cloud without triple or points was touched (" + c.why + "): " + at;
    return "";
  }
  std::vector<PointField> want = before.fields;
  for (auto& f : want)
    if (f.type == FieldType::FLOAT64 && !f.resolution) f.resolution = 1e-6f;
  if (!sameFields(m.fields, want)) return "fields are not as documented: " + at;
  if (m.width != c.kept_points || m.height != 1 || m.row_step != uint32_t(c.kept_points) * m.point_step)
    return fmt("dimensions %ux%u row %u instead of %zux1: ", m.width, m.height, m.row_step, c.kept_points) + at;
  if (m.data.size() != c.kept.size()) return fmt("%zu bytes instead of %zu: ", m.data.size(), c.kept.size()) + at;
  if (!c.kept.empty() && memcmp(m.data.data(), c.kept.data(), c.kept.size()) != 0) return "points differ: " + at;
  return "";
}
}  // namespace viz
