// C16: PCL clouds round-trip field by field
#define PCL_NO_PRECOMPILE
#include <pcl/conversions.h>
#include <pcl/io/pcd_io.h>
#include <pcl/point_cloud.h>
#include <pcl/point_types.h>

#include <fstream>
#include <iostream>
#include <sstream>

#include "cloudini_lib/pcl_conversion.hpp"
#include "h_pcd.hpp"
using namespace vh;

struct EIGEN_ALIGN16 LidarPoint {
  PCL_ADD_POINT4D;
  float intensity;
  std::uint16_t ring;
  std::int8_t echo;
  double timestamp;
  std::int32_t label;
  PCL_MAKE_ALIGNED_OPERATOR_NEW
};
POINT_CLOUD_REGISTER_POINT_STRUCT(LidarPoint, (float, x, x)(float, y, y)(float, z, z)(float, intensity, intensity)(std::uint16_t, ring, ring)(
                                                  std::int8_t, echo, echo)(double, timestamp, timestamp)(std::int32_t, label, label))

uint64_t numCases(const Ctx& c) { return c.thorough() ? 60000 : 5200; }

namespace {
void pcdDims(Rng& r, uint32_t& w, uint32_t& h, size_t n) {
  EncodingInfo t;
  setDims(r, t, n);
  w = t.width;
  h = t.height;
}
pcl::PCLPointCloud2 toPcl(const EncodingInfo& info, const Bytes& data) {
  pcl::PCLPointCloud2 c;
  c.width = info.width;
  c.height = info.height;
  c.point_step = info.point_step;
  c.row_step = info.point_step * info.width;
  c.is_bigendian = 0;
  c.is_dense = 1;
  c.data.assign(data.begin(), data.end());
  for (auto& f : info.fields) {
    pcl::PCLPointField p;
    p.name = f.name;
    p.offset = f.offset;
    p.datatype = uint8_t(f.type);
    p.count = 1;
    c.fields.push_back(p);
  }
  return c;
}
std::string diffMeta(const pcl::PCLPointCloud2& c, const EncodingInfo& info) {
  if (c.width != info.width || c.height != info.height) return fmt("dimensions %ux%u", c.width, c.height);
  if (c.point_step != info.point_step || c.row_step != info.point_step * info.width) return fmt("point_step %u row_step %u", c.point_step, c.row_step);
  if (c.data.size() != size_t(info.width) * info.height * info.point_step) return fmt("%zu bytes of data", c.data.size());
  if (c.fields.size() != info.fields.size()) return fmt("%zu fields", c.fields.size());
  for (size_t i = 0; i < c.fields.size(); ++i)
    if (c.fields[i].name != info.fields[i].name || c.fields[i].offset != info.fields[i].offset || c.fields[i].datatype != uint8_t(info.fields[i].type) ||
        c.fields[i].count != 1)
      return fmt("field %zu '%s' type %u offset %u", i, c.fields[i].name.c_str(), c.fields[i].datatype, c.fields[i].offset);
  return "";
}
double pickRes(Rng& r) { return r.chance(0.1) ? r.pick({0.0, -1.0}) : double(pickResolution(r, true)); }

// a dirty cloud to decode into
void dirty(Rng& r, pcl::PCLPointCloud2& c) {
  if (r.chance(0.5)) return;
  c.width = 7;
  c.height = 3;
  c.point_step = 99;
  c.data.assign(r.below(50000), 0xEE);
  c.fields.resize(3);
}

void genericCase(Ctx& ctx, Rng& r, EncodingInfo info, const Bytes& data, size_t n, const char* kind) {
  const double res = pickRes(r);
  const EncodingInfo want = modelInfo(info, res);
  const std::string where = fmt("%s, resolution %g, ", kind, res) + describe(want);
  ctx.label(where);
  const pcl::PCLPointCloud2 cloud = toPcl(info, data);
  const EncodingInfo got = ConvertToEncodingInfo(cloud, res);
  std::string d = diffInfo(got, want);
  if (!d.empty()) ctx.violate("description", d + " for " + where);
  Bytes stream;
  if (r.chance(0.3)) stream.assign(r.below(9000), 0xEE);
  const size_t k = PCLPointCloudEncode(cloud, stream, res);
  if (k != stream.size()) ctx.violate("size", fmt("%zu returned, %zu bytes, ", k, stream.size()) + where);
  Block in(stream);
  pcl::PCLPointCloud2 back;
  dirty(r, back);
  PCLPointCloudDecode(in.view(), back);
  d = diffMeta(back, info);
  if (!d.empty()) {
    ctx.violate("metadata", d + " for " + where);
    return;
  }
  FidelityStats st;
  d = compareClouds(want, data.data(), back.data.data(), n, kAllAspects, st);
  if (!d.empty()) ctx.violate("values", d + " for " + where);
  st.report(ctx);
  ctx.count(fmt("clouds_%s", kind));
  // and once more: what was decoded is a cloud like any other
  if (r.chance(0.3)) {
    Bytes s2;
    PCLPointCloudEncode(back, s2, res);
    pcl::PCLPointCloud2 b2;
    PCLPointCloudDecode(ConstBufferView(s2.data(), s2.size()), b2);
    FidelityStats s3;
    d = compareClouds(want, back.data.data(), b2.data.data(), n, kAllAspects, s3);
    if (b2.data.size() != back.data.size() || !d.empty()) ctx.violate("second-generation", d + " for " + where);
  }
  ctx.nontrivial(hashBytes(stream.data(), stream.size()));
}

// registered point types through PCL's own conversion
template <class P>
void registered(Ctx& ctx, Rng& r, const char* kind) {
  pcl::PointCloud<P> pc;
  const size_t n = r.chance(0.04) ? size_t(r.range(32760, 66000)) : size_t(r.range(1, 400));
  pc.points.resize(n);
  pcdDims(r, pc.width, pc.height, n);
  pcl::PCLPointCloud2 msg;
  pcl::toPCLPointCloud2(pc, msg);
  EncodingInfo info;
  info.width = msg.width;
  info.height = msg.height;
  info.point_step = msg.point_step;
  for (auto& f : msg.fields) info.fields.push_back(PointField{f.name, f.offset, FieldType(f.datatype), std::nullopt});
  EncodingInfo gen = modelInfo(info, 0.001);
  for (auto& f : gen.fields)
    if (f.type == FieldType::FLOAT64) f.resolution.reset();
  DataOpts o;
  o.wild = false;
  Bytes data = genData(r, gen, n, o);
  fillColours(r, gen, data, n);
  genericCase(ctx, r, info, data, n, kind);
}

// The sizes a typed cloud may have, and the named fields it shows.
template <class P>
void typed(Ctx& ctx, Rng& r, bool with_intensity, const char* kind) {
  const double res = double(pickResolution(r, true));
  EncodingInfo info;
  info.encoding_opt = EncodingOptions::LOSSY;
  info.point_step = sizeof(P);
  for (int i = 0; i < 3; ++i) info.fields.push_back(PointField{std::string(1, char('x' + i)), uint32_t(4 * i), FieldType::FLOAT32, float(res)});
  if (with_intensity) info.fields.push_back(PointField{"intensity", 16, FieldType::FLOAT32, std::nullopt});
  const size_t n = r.chance(0.02) ? 0 : r.chance(0.05) ? size_t(r.range(32760, 66000)) : size_t(r.range(1, 500));
  setDims(r, info, n);
  DataOpts o;
  o.wild = r.chance(0.2);
  const Bytes data = genData(r, info, n, o);
  const std::string where = fmt("%s, resolution %g, ", kind, res) + describe(info);
  ctx.label(where);
  pcl::PointCloud<P> pc;
  pc.points.resize(n);
  if (n) memcpy(static_cast<void*>(pc.points.data()), data.data(), data.size());
  pc.width = info.width;
  pc.height = info.height;
  const EncodingInfo got = ConvertToEncodingInfo(pc, res);
  std::string d = diffInfo(got, info);
  if (!d.empty()) ctx.violate("description", d + " for " + where);
  Bytes stream;
  if (r.chance(0.3)) stream.assign(r.below(9000), 0xEE);
  const size_t k = PointcloudEncode(pc, stream, res);
  if (k != stream.size()) ctx.violate("size", fmt("%zu returned, %zu bytes, ", k, stream.size()) + where);
  if (n && memcmp(pc.points.data(), data.data(), data.size()) != 0) ctx.violate("input-modified", where);
  Block in(stream);
  pcl::PointCloud<P> back;
  if (r.chance(0.5)) back.points.resize(r.below(2000));
  PointcloudDecode(in.view(), back);
  if (back.width != pc.width || back.height != pc.height || back.points.size() != n) {
    ctx.violate("metadata", fmt("%ux%u, %zu points for ", back.width, back.height, back.points.size()) + where);
    return;
  }
  FidelityStats st;
  d = compareClouds(info, data.data(), reinterpret_cast<const uint8_t*>(back.points.data()), n, kAllAspects, st);
  if (!d.empty()) ctx.violate("values", d + " for " + where);
  st.report(ctx);
  ctx.count(fmt("clouds_%s", kind));
  ctx.nontrivial(hashBytes(stream.data(), stream.size()));
}

// any stream into a typed cloud: fields go by name, others are skipped
template <class P>
void foreign(Ctx& ctx, Rng& r, bool with_intensity, const char* kind) {
  LayoutOpts o;
  o.extremes = false;
  o.max_fields = 8;
  o.min_fields = 4;
  EncodingInfo info = genLayout(r, o);
  // names for the typed fields, on fields of that type
  std::vector<size_t> floats;
  for (size_t i = 0; i < info.fields.size(); ++i) {
    info.fields[i].name = fmt("f%zu", i);
    if (info.fields[i].type == FieldType::FLOAT32) floats.push_back(i);
  }
  if (r.chance(0.6)) r.shuffle(floats);
  static const char* names[] = {"x", "y", "z", "intensity"};
  std::vector<std::pair<size_t, uint32_t>> shown;  // field, offset in P
  const size_t want = r.chance(0.8) ? 4 : r.below(4);
  for (size_t k = 0; k < want && k < floats.size(); ++k) {
    info.fields[floats[k]].name = names[k];
    if (k < 3 || with_intensity) shown.push_back({floats[k], k < 3 ? uint32_t(4 * k) : 16});
  }
  bool mismatch = false;
  if (r.chance(0.1)) {  // a named field of another type must be refused
    for (auto& f : info.fields)
      if (f.type != FieldType::FLOAT32 && shown.size() < 3) {
        f.name = names[shown.size()];
        mismatch = true;
        break;
      }
  }
  const size_t n = r.chance(0.03) ? size_t(r.range(32760, 66000)) : size_t(r.range(1, 400));
  setDims(r, info, n);
  DataOpts d;
  d.wild = false;
  const Bytes data = genData(r, info, n, d);
  const Bytes stream = encodeCloud(info, data);
  const std::string where = fmt("%s from ", kind) + describe(info);
  ctx.label(where);
  Block in(stream);
  pcl::PointCloud<P> back;
  try {
    PointcloudDecode(in.view(), back);
  } catch (const std::exception& e) {
    if (!mismatch) ctx.violate("refused", std::string(e.what()) + " " + where);
    else ctx.count("type_mismatches_refused");
    return;
  }
  if (mismatch) ctx.violate("mismatch-accepted", where);
  if (back.width != info.width || back.height != info.height || back.points.size() != n) {
    ctx.violate("metadata", fmt("%ux%u, %zu points for ", back.width, back.height, back.points.size()) + where);
    return;
  }
  // the same points in the stream's own layout, for the oracle
  Bytes as_stream = data;
  EncodingInfo cmp = info;
  cmp.fields.clear();
  std::vector<size_t> back_index;
  for (size_t i = 0; i < n; ++i)
    for (auto& [k, off] : shown) memcpy(&as_stream[i * info.point_step + info.fields[k].offset], reinterpret_cast<uint8_t*>(&back.points[i]) + off, 4);
  FidelityStats st;
  // fields that are not shown are the original's own bytes and compare equal
  const std::string diff = compareClouds(info, data.data(), as_stream.data(), n, kAllAspects, st);
  if (!diff.empty()) ctx.violate("values", diff + " for " + where);
  ctx.count("typed_decodes_of_foreign_streams");
  ctx.count("fields_shown", shown.size());
  ctx.nontrivial(hashBytes(stream.data(), stream.size()));
}

void describing(Ctx& ctx, Rng& r, const PcdText& p, const std::string& where) {
  std::string header = p.header;
  if (r.chance(0.3)) {  // comments behind the text of a line
    std::string out;
    size_t b = 0;
    while (b < header.size()) {
      size_t e = header.find('\n', b);
      if (e == std::string::npos) e = header.size();
      std::string line = header.substr(b, e - b);
      const bool cr = !line.empty() && line.back() == '\r';
      if (cr) line.pop_back();
      if (r.chance(0.4)) line += r.pick(std::vector<std::string>{" # note", "# a comment with FIELDS x y", " # SIZE 4 4 4 # twice"});
      out += line + (cr ? "\r\n" : "\n");
      b = e + 1;
    }
    header = out;
    ctx.count("pcd_headers_with_comments");
  }
  std::istringstream is(header + (r.chance(0.5) ? "FIELDS q\nSIZE 1\nTYPE I\n" : "\1\2\3 0 0"));
  const auto map = ReadEncodingInfoFromPCD(is);
  std::map<std::string, FieldType> want;
  for (auto& f : p.info.fields) want[f.name] = f.type;
  if (map != want) {
    std::string s;
    for (auto& [k, v] : map) s += k + ":" + typeName(v) + " ";
    ctx.violate("pcd-fields", "read as " + s + "from " + where);
  }
  ctx.count("pcd_headers_described");
}

void pcdCase(Ctx& ctx, Rng& r) {
  LayoutOpts o;
  o.extremes = false;
  o.max_fields = 7;
  EncodingInfo layout = genLayout(r, o);
  for (size_t i = 0; i < layout.fields.size(); ++i) {
    layout.fields[i].name = i < 3 ? std::string(1, char('x' + i)) : r.chance(0.3) ? fmt("intensity%zu", i) : fmt("f%zu", i);
    if (layout.fields[i].type == FieldType::FLOAT32 && r.chance(0.05) && i >= 3) layout.fields[i].name = "rgb";
  }
  for (size_t i = 0; i < layout.fields.size(); ++i)
    for (size_t j = 0; j < i; ++j)
      if (layout.fields[i].name == layout.fields[j].name) layout.fields[i].name = fmt("g%zu", i);
  const bool ascii = r.chance(0.35);
  const size_t n = r.chance(0.03) && !ascii ? size_t(r.range(32760, 66000)) : size_t(r.range(1, 200));
  PcdText p = pcdHeader(r, layout, n, ascii ? "ascii" : "binary");
  const double res = pickRes(r);
  EncodingInfo want = modelInfo(p.info, res);
  DataOpts d;
  d.wild = false;
  Bytes data = genData(r, want, n, d);
  fillColours(r, want, data, n);
  const std::string where = fmt("PCD %s, resolution %g, ", ascii ? "ascii" : "binary", res) + describe(want);
  ctx.label(where);
  describing(ctx, r, p, where);
  bool has64 = false, narrow = false;
  for (auto& f : p.info.fields) {
    if (f.type == FieldType::INT64 || f.type == FieldType::UINT64) has64 = true;
    if (colour(f.name)) narrow = true;
  }
  if (ascii && narrow) return;  // colours have no exact text form as floats
  const std::string path = ctx.dir + "/cloud.pcd";
  writePcd(path, p, data, n, ascii);
  // what PCL itself makes of the file; the reader is not under test here
  pcl::PCLPointCloud2 loaded;
  if (pcl::io::loadPCDFile(path, loaded) != 0 || loaded.data.size() != data.size() || loaded.point_step != p.info.point_step) {
    ctx.count("pcd_files_pcl_does_not_read");
    return;
  }
  if (memcmp(loaded.data.data(), data.data(), data.size()) != 0) {
    if (!ascii) ctx.count("pcd_files_pcl_reads_differently");
    // text to number is PCL's business: take its numbers
    data.assign(loaded.data.begin(), loaded.data.end());
  }
  Bytes stream;
  bool configured = false;
  const EncodingInfo before = want;
  if (r.chance(0.4)) {
    const size_t k = PCLPointCloudEncode(std::filesystem::path(path), stream, res, [&](EncodingInfo& i) {
      configured = true;
      const std::string diff = diffInfo(i, want);
      if (!diff.empty()) ctx.violate("description", diff + " handed to configure for " + where);
      i.encoding_opt = EncodingOptions(r.below(3));
      i.compression_opt = CompressionOption(r.below(3));
      for (auto& f : i.fields)
        if (isFloat(f.type) && r.chance(0.3)) f.resolution = r.chance(0.5) ? std::optional<float>(0.125f) : std::nullopt;
      want = i;
    });
    if (k != stream.size() || !configured) ctx.violate("size", where);
  } else {
    const size_t k = PCLPointCloudEncode(std::filesystem::path(path), stream, res);
    if (k != stream.size()) ctx.violate("size", where);
  }
  Block in(stream);
  ConstBufferView v = in.view();
  const EncodingInfo h = DecodeHeader(v);
  std::string diff = diffInfo(h, want);
  if (!diff.empty()) {
    ctx.violate("description", diff + " in the stream of " + where);
    return;
  }
  if (h.encoding_opt != want.encoding_opt || (configured && h.compression_opt != want.compression_opt)) ctx.violate("options", where);
  pcl::PCLPointCloud2 back;
  dirty(r, back);
  PCLPointCloudDecode(in.view(), back);
  diff = diffMeta(back, p.info);
  if (!diff.empty()) {
    ctx.violate("metadata", diff + " for " + where);
    return;
  }
  FidelityStats st;
  diff = compareClouds(want, data.data(), back.data.data(), n, kAllAspects, st);
  if (!diff.empty()) ctx.violate("values", diff + " for " + where);
  st.report(ctx);
  ctx.count(ascii ? "pcd_ascii" : "pcd_binary");
  if (has64) ctx.count("pcd_with_64_bit_integers");
  ctx.nontrivial(hashBytes(stream.data(), stream.size()));
}
}  // namespace

void runCase(Ctx& ctx, uint64_t idx) {
  static const bool quiet = [] {
    pcl::console::setVerbosityLevel(pcl::console::L_ALWAYS);
    std::cout.setstate(std::ios::failbit);
    return true;
  }();
  (void)quiet;
  Rng r = ctx.rng();
  switch (idx % 8) {
    case 0: typed<pcl::PointXYZ>(ctx, r, false, "PointXYZ"); break;
    case 1: typed<pcl::PointXYZI>(ctx, r, true, "PointXYZI"); break;
    case 2: foreign<pcl::PointXYZ>(ctx, r, false, "PointXYZ"); break;
    case 3: foreign<pcl::PointXYZI>(ctx, r, true, "PointXYZI"); break;
    case 4: case 5: {
      LayoutOpts o;
      o.extremes = false;
      EncodingInfo info = genLayout(r, o);
      for (auto& f : info.fields) {
        if (f.type == FieldType::FLOAT32 && r.chance(0.08)) f.name = r.pick({"rgb", "rgba"});
      }
      const size_t n = r.chance(0.04) ? size_t(r.range(32760, 66000)) : size_t(r.range(1, 400));
      setDims(r, info, n);
      DataOpts d;
      d.wild = r.chance(0.2);
      EncodingInfo gen = modelInfo(info, 0.01);
      Bytes data = genData(r, gen, n, d);
      fillColours(r, gen, data, n);
      genericCase(ctx, r, info, data, n, "generic");
    } break;
    case 6:
      switch (r.below(9)) {
        case 0: registered<pcl::PointXYZRGB>(ctx, r, "PointXYZRGB"); break;
        case 1: registered<pcl::PointXYZRGBA>(ctx, r, "PointXYZRGBA"); break;
        case 2: registered<pcl::PointXYZL>(ctx, r, "PointXYZL"); break;
        case 3: registered<pcl::PointNormal>(ctx, r, "PointNormal"); break;
        case 4: registered<pcl::PointXYZRGBNormal>(ctx, r, "PointXYZRGBNormal"); break;
        case 5: registered<pcl::PointXYZRGBL>(ctx, r, "PointXYZRGBL"); break;
        case 6: registered<pcl::PointXYZI>(ctx, r, "PointXYZI_generic"); break;
        default: registered<LidarPoint>(ctx, r, "LidarPoint"); break;
      }
      break;
    default: pcdCase(ctx, r); break;
  }
  if (idx % 1301 == 7) ctx.sample(ctx.prog->label);
}
void finishWorker(Ctx&) {}
