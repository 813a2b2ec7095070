// Independent reader and writer of the serialized ROS messages (plain CDR, either byte order).
#pragma once
#include "h_cloud.hpp"

namespace cdr {
using namespace vh;

struct Field {
  std::string name;
  uint32_t offset = 0;
  uint8_t type = 0;
  uint32_t count = 1;
  bool operator==(const Field& o) const { return name == o.name && offset == o.offset && type == o.type && count == o.count; }
};
struct Msg {
  bool little = true;
  int32_t sec = 0;
  uint32_t nsec = 0;
  std::string frame;
  uint32_t height = 1, width = 0;
  std::vector<Field> fields;
  bool bigendian = false;
  uint32_t point_step = 0, row_step = 0;
  Bytes data;
  bool dense = true;
  bool compressed = false;
  std::string format;
};

struct Writer {
  Bytes b;
  bool little;
  std::vector<size_t> marks;  // where the integers are
  explicit Writer(bool le) : little(le) { b = {0, uint8_t(le ? 1 : 0), 0, 0}; }
  void u8(uint8_t v) { b.push_back(v); }
  void u32(uint32_t v) {
    while ((b.size() - 4) % 4) b.push_back(0);
    marks.push_back(b.size());
    for (int i = 0; i < 4; ++i) b.push_back(uint8_t(little ? v >> (8 * i) : v >> (24 - 8 * i)));
  }
  void str(const std::string& s) {
    u32(uint32_t(s.size() + 1));
    b.insert(b.end(), s.begin(), s.end());
    b.push_back(0);
  }
  void bytes(const Bytes& d) {
    u32(uint32_t(d.size()));
    b.insert(b.end(), d.begin(), d.end());
  }
};
inline Bytes write(const Msg& m, std::vector<size_t>* marks = nullptr) {
  Writer w(m.little);
  w.u32(uint32_t(m.sec));
  w.u32(m.nsec);
  w.str(m.frame);
  w.u32(m.height);
  w.u32(m.width);
  w.u32(uint32_t(m.fields.size()));
  for (auto& f : m.fields) {
    w.str(f.name);
    w.u32(f.offset);
    w.u8(f.type);
    w.u32(f.count);
  }
  w.u8(m.bigendian);
  w.u32(m.point_step);
  w.u32(m.row_step);
  w.bytes(m.data);
  w.u8(m.dense);
  if (m.compressed) w.str(m.format);
  if (marks) *marks = w.marks;
  return w.b;
}

struct Bad : std::runtime_error {
  using std::runtime_error::runtime_error;
};
struct Reader {
  const uint8_t* p;
  size_t n, at = 4;
  bool little;
  Reader(const uint8_t* p_, size_t n_) : p(p_), n(n_) {
    if (n < 4 || p[0] != 0 || p[1] > 1) throw Bad("encapsulation header");
    little = p[1] == 1;
  }
  uint8_t u8() {
    if (at >= n) throw Bad("ends early");
    return p[at++];
  }
  bool boolean() {
    const uint8_t v = u8();
    if (v > 1) throw Bad("boolean that is neither 0 nor 1");
    return v;
  }
  uint32_t u32() {
    while ((at - 4) % 4) u8();
    uint32_t v = 0;
    for (int i = 0; i < 4; ++i) v |= uint32_t(u8()) << (little ? 8 * i : 24 - 8 * i);
    return v;
  }
  std::string str() {
    const uint32_t len = u32();
    if (!len || len > n - at) throw Bad("string length");
    std::string s(reinterpret_cast<const char*>(p) + at, len - 1);
    if (p[at + len - 1] != 0) throw Bad("string without terminator");
    at += len;
    return s;
  }
  Bytes bytes() {
    const uint32_t len = u32();
    if (len > n - at) throw Bad("sequence length");
    Bytes b(p + at, p + at + len);
    at += len;
    return b;
  }
};
inline Msg read(const uint8_t* p, size_t n, bool compressed) {
  Reader r(p, n);
  Msg m;
  m.little = r.little;
  m.compressed = compressed;
  m.sec = int32_t(r.u32());
  m.nsec = r.u32();
  m.frame = r.str();
  m.height = r.u32();
  m.width = r.u32();
  const uint32_t k = r.u32();
  for (uint32_t i = 0; i < k; ++i) {
    Field f;
    f.name = r.str();
    f.offset = r.u32();
    f.type = r.u8();
    f.count = r.u32();
    m.fields.push_back(f);
  }
  m.bigendian = r.boolean();
  m.point_step = r.u32();
  m.row_step = r.u32();
  m.data = r.bytes();
  m.dense = r.boolean();
  if (compressed) m.format = r.str();
  if (r.at != n) throw Bad(fmt("%zu bytes left over", n - r.at));
  return m;
}

inline std::string randomText(Rng& r, size_t len) {
  std::string s;
  static const char* bits[] = {"é", "日本", "/", "_", "-", " "};
  while (s.size() < len) {
    if (r.chance(0.05)) s += bits[r.below(6)];
    else s += char(r.range(33, 126));
  }
  s.resize(len);
  return s;
}
// a message around a cloud; the fields of `info` without their resolutions
inline Msg genMsg(Rng& r, const EncodingInfo& info, const Bytes& data) {
  Msg m;
  m.little = r.chance(0.65);
  m.sec = int32_t(r.chance(0.5) ? r.next() : r.below(2000000000));
  m.nsec = uint32_t(r.chance(0.3) ? r.next() : r.below(1000000000));
  m.frame = randomText(r, r.chance(0.9) ? r.below(18) : size_t(r.pick({63, 64, 255, 256, 1000, 4000})));
  m.height = info.height;
  m.width = info.width;
  for (auto& f : info.fields) m.fields.push_back({f.name, f.offset, uint8_t(f.type), 1});
  m.point_step = info.point_step;
  m.row_step = info.point_step * info.width;
  m.data = data;
  m.dense = r.chance(0.5);
  return m;
}
inline std::string diffMeta(const Msg& a, const Msg& b) {
  if (a.little != b.little) return "byte order";
  if (a.sec != b.sec || a.nsec != b.nsec) return fmt("stamp %d.%u came back as %d.%u", a.sec, a.nsec, b.sec, b.nsec);
  if (a.frame != b.frame) return fmt("frame id of %zu bytes came back with %zu", a.frame.size(), b.frame.size());
  if (a.height != b.height || a.width != b.width) return fmt("dimensions %ux%u came back as %ux%u", a.width, a.height, b.width, b.height);
  if (a.point_step != b.point_step) return fmt("point_step %u came back as %u", a.point_step, b.point_step);
  if (a.row_step != b.row_step) return fmt("row_step %u came back as %u", a.row_step, b.row_step);
  if (a.dense != b.dense) return "is_dense";
  if (a.fields.size() != b.fields.size()) return fmt("%zu fields came back as %zu", a.fields.size(), b.fields.size());
  for (size_t i = 0; i < a.fields.size(); ++i)
    if (!(a.fields[i] == b.fields[i])) return fmt("field %zu '%s'", i, a.fields[i].name.c_str());
  return "";
}
}  // namespace cdr
