// PCD files: writing them, and what the library makes of their fields.
#pragma once
#include <fstream>

#include "h_cloud.hpp"
#include "h_ref.hpp"

namespace vh {
inline bool colour(const std::string& name) { return name == "rgb" || name == "rgba"; }

// what PCLPointCloudEncode is documented to do with the fields
inline EncodingInfo modelInfo(EncodingInfo info, double res) {
  info.encoding_opt = EncodingOptions::LOSSY;
  for (auto& f : info.fields) {
    f.resolution.reset();
    if (f.type == FieldType::FLOAT32 && res > 0 && !colour(f.name)) f.resolution = float(res);
  }
  return info;
}
// packed colours as PCL stores them: any 32 bits seen as a float
inline void fillColours(Rng& r, const EncodingInfo& info, Bytes& d, size_t n) {
  for (auto& f : info.fields)
    if (colour(f.name) && typeSize(f.type) == 4)
      for (size_t i = 0; i < n; ++i) {
        const uint32_t v = uint32_t(r.next()) & (r.chance(0.5) ? 0x00ffffffu : 0xffffffffu);
        memcpy(&d[i * info.point_step + f.offset], &v, 4);
      }
}
inline std::string diffInfo(const EncodingInfo& a, const EncodingInfo& want) {
  if (a.width != want.width || a.height != want.height || a.point_step != want.point_step) return fmt("dimensions %ux%u step %u", a.width, a.height, a.point_step);
  if (a.fields.size() != want.fields.size()) return fmt("%zu fields", a.fields.size());
  for (size_t i = 0; i < a.fields.size(); ++i)
    if (a.fields[i].name != want.fields[i].name || a.fields[i].offset != want.fields[i].offset || a.fields[i].type != want.fields[i].type)
      return fmt("field %zu '%s' type %s offset %u", i, a.fields[i].name.c_str(), typeName(a.fields[i].type), a.fields[i].offset);
  return "";
}

inline const char* kTypeLetters = "?IUIUIUFFIU";

struct PcdText {
  std::string header;
  EncodingInfo info;  // packed, as the file stores it
};
inline PcdText pcdHeader(Rng& r, const EncodingInfo& layout, size_t n, const char* mode) {
  PcdText p;
  p.info = layout;
  uint32_t at = 0;
  for (auto& f : p.info.fields) {
    f.offset = at;
    at += uint32_t(typeSize(f.type));
  }
  p.info.point_step = at;
  setDims(r, p.info, n);
  const std::string eol = r.chance(0.15) ? "\r\n" : "\n";
  auto noise = [&] {
    std::string s;
    while (r.chance(0.15)) s += "# " + std::string(r.pick({"a comment", "FIELDS a b c", "DATA ascii", "SIZE 1 1", "#"})) + eol;
    return s;
  };
  // what PCL's own reader accepts between words
  const int blanks = r.chance(0.7) ? 0 : int(r.range(1, 3));
  auto gap = [&]() -> std::string { return blanks == 0 ? " " : blanks == 1 ? "\t" : blanks == 2 ? "  " : r.pick<std::string>({" ", "\t", " \t", "\t\t", "   "}); };
  auto list = [&](const char* key, const std::function<std::string(const PointField&)>& f) {
    std::string s = noise() + (blanks && r.chance(0.1) ? gap() : "") + key;
    for (auto& x : p.info.fields) s += gap() + f(x);
    return s + (r.chance(0.1) ? gap() : "") + eol;
  };
  std::string& h = p.header;
  h = "# .PCD v0.7 - Point Cloud Data file format" + eol + noise() + "VERSION 0.7" + eol;
  h += list(r.chance(0.1) ? "COLUMNS" : "FIELDS", [](const PointField& f) { return f.name; });
  h += list("SIZE", [](const PointField& f) { return std::to_string(typeSize(f.type)); });
  h += list("TYPE", [](const PointField& f) { return std::string(1, kTypeLetters[int(f.type)]); });
  h += list("COUNT", [](const PointField&) { return std::string("1"); });
  h += noise() + fmt("WIDTH %u", p.info.width) + eol + noise() + fmt("HEIGHT %u", p.info.height) + eol;
  h += noise() + "VIEWPOINT 0 0 0 1 0 0 0" + eol + fmt("POINTS %zu", n) + eol + noise() + "DATA " + mode + eol;
  return p;
}


// Writes the file. In text form some special values have no exact counterpart: `data` is adapted to what the text says.
inline void writePcd(const std::string& path, const PcdText& p, Bytes& data, size_t n, bool ascii) {
  std::ofstream f(path, std::ios::binary);
  f << p.header;
  if (!ascii) {
    f.write(reinterpret_cast<const char*>(data.data()), std::streamsize(data.size()));
    return;
  }
  auto text = [](uint8_t* at, auto x, const char* format) {
    if (std::isinf(x)) x = 1.5;
    if (std::fpclassify(x) == FP_SUBNORMAL) x = 0;
    if (std::isnan(x)) x = std::numeric_limits<decltype(x)>::quiet_NaN();
    memcpy(at, &x, sizeof x);
    return std::isnan(x) ? std::string("nan") : fmt(format, double(x));
  };
  for (size_t i = 0; i < n; ++i) {
    std::string line;
    for (auto& fl : p.info.fields) {
      uint8_t* at = &data[i * p.info.point_step + fl.offset];
      std::string v;
      if (fl.type == FieldType::FLOAT32) {
        float x;
        memcpy(&x, at, 4);
        v = text(at, x, "%.9g");
      } else if (fl.type == FieldType::FLOAT64) {
        double x;
        memcpy(&x, at, 8);
        v = text(at, x, "%.17g");
      } else {
        uint64_t raw = 0;
        memcpy(&raw, at, typeSize(fl.type));
        v = isSignedInt(fl.type) ? fmt("%lld", (long long)ref::asI64(raw, fl.type)) : fmt("%llu", (unsigned long long)raw);
      }
      line += (line.empty() ? "" : " ") + v;
    }
    f << line << "\n";
  }
}
}  // namespace vh
