// C21: message values copy and move like values
#include "h_viz.hpp"
using namespace vh;
using cloudini_ros::RosPointCloud2;

uint64_t numCases(const Ctx& c) { return c.thorough() ? 300000 : 20000; }

// what a value should look like
struct Model {
  bool moved = false;  // contents unspecified, but they must be its own
  std::string frame;
  int32_t sec = 0;
  uint32_t width = 0, step = 1, height = 1, row = 0;
  uint32_t nsec = 0;
  bool bigdata = false;
  size_t nfields = 0;
  bool dense = true, big = false, owned = false;
  Bytes bytes;
};

struct World {
  Ctx& ctx;
  Rng& r;
  std::vector<std::shared_ptr<Block>> external;  // stays alive
  std::string history;

  void fresh(RosPointCloud2& v, Model& m) {
    m = Model();
    m.frame = fmt("frame_%llu_%s", (unsigned long long)r.below(1000), r.chance(0.3) ? "with_a_name_that_does_not_fit_in_place" : "");
    m.sec = int32_t(r.next());
    m.width = uint32_t(r.below(1000));
    m.step = uint32_t(r.range(1, 40));
    m.nfields = r.chance(0.2) ? r.below(40) : r.below(5);
    m.height = uint32_t(r.below(50));
    m.row = uint32_t(r.next());
    m.nsec = uint32_t(r.next());
    m.bigdata = r.chance(0.2);
    m.dense = r.chance(0.5);
    m.big = r.chance(0.3);
    v.ros_header.frame_id = m.frame;
    v.ros_header.stamp_sec = m.sec;
    v.cdr_header.endianness = m.big ? nanocdr::Endianness::CDR_BIG_ENDIAN : nanocdr::Endianness::CDR_LITTLE_ENDIAN;
    v.width = m.width;
    v.point_step = m.step;
    v.is_dense = m.dense;
    v.height = m.height;
    v.row_step = m.row;
    v.ros_header.stamp_nsec = m.nsec;
    v.is_bigendian = m.bigdata;
    v.fields.clear();
    for (size_t k = 0; k < m.nfields; ++k) {
      PointField f;
      f.name = fmt("field_%zu", k);
      f.offset = m.width + uint32_t(k);
      f.type = FieldType(1 + (k + m.step) % 8);
      if ((k + m.step) % 3 == 0) f.resolution = 0.001f * float(k + 1);
      v.fields.push_back(f);
    }
    contents(v, m);
  }
  void contents(RosPointCloud2& v, Model& m) {
    m.owned = r.chance(0.6);
    m.bytes.assign(r.chance(0.1) ? 0 : size_t(r.chance(0.03) ? r.range(601, 70000) : r.range(1, 600)), 0);
    r.fill(m.bytes.data(), m.bytes.size());
    if (m.owned && !m.bytes.empty()) {
      v.owned_data = m.bytes;
      v.data = ConstBufferView(v.owned_data.data(), v.owned_data.size());
    } else {
      m.owned = false;
      if (r.chance(0.5)) v.owned_data.clear();
      else v.owned_data.assign(size_t(r.range(1, 50)), 0x77);  // owned memory that the view does not refer to
      external.push_back(std::make_shared<Block>(m.bytes));
      v.data = external.back()->view();
    }
  }
  std::string look(const RosPointCloud2& v, const Model& m) {
    // every byte is read, whoever owns it
    uint64_t sum = 0;
    for (size_t i = 0; i < v.data.size(); ++i) sum += v.data.data()[i];
    ctx.count("bytes_read", v.data.size() + (sum & 0));
    if (m.moved) return "";
    if (v.ros_header.frame_id != m.frame) return "frame id";
    if (v.ros_header.stamp_sec != m.sec || v.width != m.width || v.point_step != m.step || v.is_dense != m.dense) return "attributes";
    if (v.height != m.height || v.row_step != m.row || v.ros_header.stamp_nsec != m.nsec || v.is_bigendian != m.bigdata) return "attributes";
    if ((v.cdr_header.endianness == nanocdr::Endianness::CDR_BIG_ENDIAN) != m.big) return "byte order";
    if (v.fields.size() != m.nfields) return "number of fields";
    for (size_t k = 0; k < m.nfields; ++k)
      if (v.fields[k].name != fmt("field_%zu", k) || v.fields[k].offset != m.width + k ||
          v.fields[k].type != FieldType(1 + (k + m.step) % 8) ||
          v.fields[k].resolution != ((k + m.step) % 3 == 0 ? std::optional<float>(0.001f * float(k + 1)) : std::nullopt)) return "fields";
    if (v.data.size() != m.bytes.size()) return fmt("%zu bytes instead of %zu", v.data.size(), m.bytes.size());
    if (!m.bytes.empty() && memcmp(v.data.data(), m.bytes.data(), m.bytes.size()) != 0) return "bytes";
    if (m.owned && v.data.data() != v.owned_data.data()) return "the data is not its own";
    return "";
  }
};

void runCase(Ctx& ctx, uint64_t idx) {
  Rng r = ctx.rng();
  World w{ctx, r, {}, ""};
  std::vector<RosPointCloud2> vals;
  std::vector<Model> mods;
  const bool tight = r.chance(0.5);
  if (!tight) vals.reserve(16);
  const int steps = int(r.range(3, 40));
  uint64_t sig = 0;
  for (int s = 0; s < steps; ++s) {
    const int op = vals.empty() ? 0 : int(r.below(14));
    const size_t n = vals.size();
    const size_t i = n ? r.below(n) : 0, j = n ? r.below(n) : 0;
    sig = mix64(sig ^ uint64_t(op * 4 + (i == j) * 2 + (n && mods[i].owned)));
    switch (op) {
      case 0: {
        RosPointCloud2 v;
        Model m;
        w.fresh(v, m);
        w.history += "new; ";
        vals.push_back(v);  // copy; the vector may grow
        mods.push_back(m);
        v = RosPointCloud2();
      } break;
      case 1:
        w.history += fmt("copy %zu to the end; ", i);
        vals.push_back(vals[i]);
        mods.push_back(Model(mods[i]));
        break;
      case 2: {
        w.history += fmt("move %zu to the end; ", i);
        RosPointCloud2 v(std::move(vals[i]));
        Model m = mods[i];
        mods[i].moved = true;
        vals.push_back(std::move(v));
        mods.push_back(m);
      } break;
      case 3:
        w.history += fmt("%zu = %zu; ", i, j);
        vals[i] = vals[j];
        if (i != j) mods[i] = Model(mods[j]);
        break;
      case 4:
        if (i == j) break;
        w.history += fmt("%zu = move(%zu); ", i, j);
        vals[i] = std::move(vals[j]);
        mods[i] = mods[j];
        mods[j].moved = true;
        break;
      case 5: {
        w.history += fmt("%zu = itself; ", i);
        RosPointCloud2& same = vals[i];
        vals[i] = same;
      } break;
      case 6: {
        w.history += fmt("%zu = move(itself); ", i);
        RosPointCloud2& same = vals[i];
        vals[i] = std::move(same);
      } break;
      case 7:
        w.history += fmt("swap %zu %zu; ", i, j);
        std::swap(vals[i], vals[j]);
        std::swap(mods[i], mods[j]);
        break;
      case 8:
        w.history += fmt("erase %zu; ", i);
        vals.erase(vals.begin() + long(i));
        // the ones behind were move-assigned one place down
        mods.erase(mods.begin() + long(i));
        break;
      case 9:
        w.history += fmt("rewrite %zu; ", i);
        w.fresh(vals[i], mods[i]);
        break;
      case 10:
        if (mods[i].moved) break;
        w.history += fmt("new contents of %zu; ", i);
        w.contents(vals[i], mods[i]);
        break;
      case 11: {  // the source dies, the copy lives
        if (mods[i].moved) break;
        w.history += fmt("%zu replaced by its copy; ", i);
        RosPointCloud2 v(vals[i]);
        vals[i] = RosPointCloud2();
        vals[i] = std::move(v);
      } break;
      case 12: {  // insertion in the middle
        if (mods[j].moved) break;
        w.history += fmt("insert copy of %zu at %zu; ", j, i);
        RosPointCloud2 v(vals[j]);
        Model m = mods[j];
        vals.insert(vals.begin() + long(i), v);
        mods.insert(mods.begin() + long(i), m);
      } break;
      default: {  // an own payload edited in place: copies do not see it
        if (mods[i].moved || !mods[i].owned) break;
        w.history += fmt("edit %zu; ", i);
        const size_t at = r.below(vals[i].owned_data.size());
        vals[i].owned_data[at] ^= 0x5a;
        mods[i].bytes[at] ^= 0x5a;
      }
    }
    ctx.label(w.history.substr(w.history.size() > 400 ? w.history.size() - 400 : 0));
    for (size_t k = 0; k < vals.size(); ++k) {
      const std::string d = w.look(vals[k], mods[k]);
      ctx.count("values_compared");
      if (!d.empty()) {
        ctx.violate("value", fmt("value %zu: ", k) + d + " after " + w.history);
        return;
      }
      for (size_t q = 0; q < vals.size(); ++q) {
        const auto& o = vals[q].owned_data;
        if (q != k && !o.empty() && vals[k].data.data() >= o.data() && vals[k].data.data() < o.data() + o.size())
          ctx.violate("foreign-memory", fmt("value %zu%s refers to the memory of value %zu after ", k, mods[k].moved ? " (moved from)" : "", q) + w.history);
      }
    }
  }
  ctx.count("histories");
  ctx.count("steps", uint64_t(steps));
  ctx.nontrivial(sig);
  if (idx % 3001 == 7) ctx.sample(w.history);
}
void finishWorker(Ctx&) {}
