// C06: the header round-trips every cloud description
#include <clocale>
#include <filesystem>
#include <locale>

#include "h_cloud.hpp"
using namespace vh;

// the application's locale: none, a C++ one or a C one that write numbers as 1.234.567,5
struct Commas : std::numpunct<char> {
  char do_decimal_point() const override { return ','; }
  char do_thousands_sep() const override { return '.'; }
  std::string do_grouping() const override { return "\3"; }
};
struct AppLocale {
  int kind;
  AppLocale(Ctx& ctx, int k) : kind(k) {
    if (kind == 1) {
      std::locale::global(std::locale(std::locale::classic(), new Commas));
      ctx.count("calls_under_a_c++_locale");
    } else if (kind == 2) {
      static const bool there = [&] {
        // LC_NUMERIC of de_DE, as localedef compiles it
        static const uint8_t numeric[] = {20, 17, 3, 32, 6, 0, 0, 0, 32, 0, 0, 0, 34, 0, 0, 0, 36, 0, 0, 0, 40, 0, 0, 0, 44, 0, 0,
                                          0, 48, 0, 0, 0, 44, 0, 46, 0, 3, 0, 0, 0, 44, 0, 0, 0, 46, 0, 0, 0, 85, 84, 70, 45, 56, 0};
        const std::string dir = ctx.dir + "/locale/commas";
        std::filesystem::create_directories(dir);
        if (FILE* f = fopen((dir + "/LC_NUMERIC").c_str(), "wb")) {
          fwrite(numeric, 1, sizeof numeric, f);
          fclose(f);
        }
        setenv("LOCPATH", (ctx.dir + "/locale").c_str(), 1);
        return true;
      }();
      (void)there;
      if (setlocale(LC_NUMERIC, "commas")) ctx.count("calls_under_a_c_locale");
    }
  }
  ~AppLocale() {
    if (kind == 1) std::locale::global(std::locale::classic());
    if (kind == 2) setlocale(LC_NUMERIC, "C");
  }
};

uint64_t numCases(const Ctx& c) { return c.thorough() ? 3000000 : 250000; }

static uint32_t anyU32(Rng& r) {
  switch (r.below(6)) {
    case 0: return uint32_t(r.next());
    case 1: return uint32_t(r.below(300));
    case 2: return uint32_t(r.pick({0u, 1u, 10u, 0x0Au, 0xFFu, 266u, 0x7FFFFFFFu, 0x80000000u, 0xFFFFFFFFu, 0x0A0A0A0Au, 65536u}));
    case 3: return uint32_t(10 + 256 * r.below(1 << 20));
    case 4: return uint32_t(1) << r.below(32);
    default: return uint32_t(r.below(200000));
  }
}
static float anyRes(Rng& r) {
  for (;;) {
    float f;
    switch (r.below(4)) {
      case 0: f = pickResolution(r, true); break;
      case 1: {
        uint32_t u = uint32_t(r.next());
        memcpy(&f, &u, 4);
        f = std::abs(f);
      } break;
      case 2: f = float(std::pow(10.0, r.uniform(-37, 37))); break;
      default: f = float(r.range(1, 100000)) / float(r.pick({1, 10, 1000, 3, 7})); break;
    }
    if (std::isnormal(f) && f > 0) return f;
  }
}
static std::string plainName(Rng& r) {
  static const char first[] = "abcdefghijklmnopqrstuvwxyzABCDEFGHIJKLMNOPQRSTUVWXYZ_";
  static const char rest[] = "abcdefghijklmnopqrstuvwxyzABCDEFGHIJKLMNOPQRSTUVWXYZ_0123456789";
  if (r.chance(0.3))
    return r.pick<std::string>({"x", "y", "z", "intensity", "rgb", "rgba", "timestamp", "ring", "null", "true", "name",
                                "version", "fields", "offset", "type", "resolution", "FLOAT32", "width", "CLOUDINI_V05"});
  size_t len = size_t(r.chance(0.9) ? r.range(1, 12) : r.range(13, 300));
  std::string s(1, first[r.below(sizeof first - 1)]);
  while (s.size() < len) s += rest[r.below(sizeof rest - 1)];
  return s;
}
// any bytes at all: the header has to keep them
static std::string textName(Rng& r) {
  if (r.chance(0.8)) return plainName(r);
  std::string s;
  switch (r.below(4)) {
    case 0: return r.pick<std::string>({"", " ", "#", "\"", "\"\"", "\"x\"", " x", "x ", "x#y", "# x", "a: b", "- x", "~", "a\nb", "\n", "\\u0041", "\"\\u0041\"", "\\", "\"\\\"", "\tx\r", "x: # y", "'x'", "|", "null", "é#", "[1, 2]", "{}"});
    case 1: {
      s.resize(size_t(r.range(0, 40)));
      r.fill(s.data(), s.size());
    } break;
    default: {
      const size_t len = size_t(r.range(1, 20));
      for (size_t i = 0; i < len; ++i) s += "ab# \n\"\\u0:-\t{"[r.below(14)];
    }
  }
  return s;
}
static std::string diffInfo(const EncodingInfo& a, const EncodingInfo& b) {
  if (a.version != b.version) return fmt("version %d came back as %d", a.version, b.version);
  if (a.width != b.width) return fmt("width %u came back as %u", a.width, b.width);
  if (a.height != b.height) return fmt("height %u came back as %u", a.height, b.height);
  if (a.point_step != b.point_step) return fmt("point_step %u came back as %u", a.point_step, b.point_step);
  if (a.encoding_opt != b.encoding_opt) return fmt("encoding %d came back as %d", int(a.encoding_opt), int(b.encoding_opt));
  if (a.compression_opt != b.compression_opt)
    return fmt("compression %d came back as %d", int(a.compression_opt), int(b.compression_opt));
  if (a.fields.size() != b.fields.size()) return fmt("%zu fields came back as %zu", a.fields.size(), b.fields.size());
  for (size_t i = 0; i < a.fields.size(); ++i) {
    const auto &x = a.fields[i], &y = b.fields[i];
    if (x.name != y.name) return fmt("name of field %zu (%zu bytes) '%s' came back as '%s'", i, x.name.size(), x.name.substr(0, 80).c_str(), y.name.substr(0, 80).c_str());
    if (x.offset != y.offset) return fmt("offset %u of field %zu came back as %u", x.offset, i, y.offset);
    if (x.type != y.type) return fmt("type %d of field %zu came back as %d", int(x.type), i, int(y.type));
    if (x.resolution.has_value() != y.resolution.has_value()) return fmt("presence of the resolution of field %zu changed", i);
    if (x.resolution && memcmp(&*x.resolution, &*y.resolution, 4) != 0)
      return fmt("resolution %.9g of field %zu came back as %.9g", *x.resolution, i, *y.resolution);
  }
  return "";
}

// what the binary form has no room for (16 bits for the length of a name and the number of fields) must be refused
static void tooLarge(Ctx& ctx, Rng& r) {
  EncodingInfo info;
  info.width = anyU32(r);
  info.point_step = anyU32(r);
  const bool name = r.chance(0.6);
  const size_t nf = name ? size_t(r.range(1, 4)) : size_t(r.pick({65536, 65537, 70000}));
  for (size_t i = 0; i < nf; ++i) {
    PointField f;
    f.name = plainName(r);
    f.offset = anyU32(r);
    f.type = FieldType(r.range(1, 10));
    info.fields.push_back(std::move(f));
  }
  if (name) info.fields[r.below(nf)].name.assign(size_t(r.pick({65536, 65537, 65600, 131072, 200000})), char('a' + r.below(26)));
  ctx.label("binary header that is too large");
  Bytes hdr;
  if (!throwsException([&] { EncodeHeader(info, hdr, HeaderEncoding::BINARY); })) {
    ConstBufferView v(hdr.data(), hdr.size());
    EncodingInfo back;
    std::string d = "refused when it is read";
    if (!throwsException([&] { back = DecodeHeader(v); })) d = diffInfo(info, back);
    if (!d.empty()) ctx.violate("too-large", fmt("a binary header with %zu fields and a name of %zu bytes was written: ", nf, info.fields[0].name.size()) + d);
  }
  ctx.count("too_large_for_a_binary_header");
}

void runCase(Ctx& ctx, uint64_t idx) {
  Rng r = ctx.rng();
  if (idx % 1009 == 11) return tooLarge(ctx, r);
  EncodingInfo info;
  const bool yaml = r.chance(0.55);
  info.version = uint8_t(r.pick({2, 3, 4, 5}));
  info.width = anyU32(r);
  info.height = anyU32(r);
  info.point_step = anyU32(r);
  info.encoding_opt = EncodingOptions(r.below(3));
  info.compression_opt = CompressionOption(r.below(3));
  info.use_threads = r.chance(0.5);
  size_t nf = size_t(r.chance(0.97) ? r.below(9) : r.pick({10, 16, 100, 255, 256, 257, 300}));
  if (!yaml && idx % 20011 == 5) nf = size_t(r.pick({65535, 40000}));
  for (size_t i = 0; i < nf; ++i) {
    PointField f;
    if (yaml) {
      f.name = textName(r);
    } else {
      size_t len = size_t(r.chance(0.97) ? r.below(20) : r.pick({0, 255, 256, 1000, 65535}));
      if (nf > 1000) len = 2;
      f.name.resize(len);
      if (r.chance(0.5)) r.fill(f.name.data(), len);
      else for (auto& c : f.name) c = char('a' + r.below(26));
    }
    f.offset = anyU32(r);
    f.type = FieldType(r.range(0, 10));
    if (r.chance(0.5)) f.resolution = anyRes(r);
    info.fields.push_back(std::move(f));
  }
  if (yaml && r.chance(0.2)) info.encoding_config = "cfg_" + plainName(r);
  ctx.label(yaml ? "text header" : "binary header");
  Bytes hdr;
  const int writer_locale = r.chance(0.15) ? int(r.range(1, 2)) : 0, reader_locale = r.chance(0.15) ? int(r.range(1, 2)) : 0;
  {
    AppLocale l(ctx, writer_locale);
    EncodeHeader(info, hdr, yaml ? HeaderEncoding::YAML : HeaderEncoding::BINARY);
  }
  // what follows: nothing, noise, another header, zeros
  Bytes all = hdr;
  switch (r.below(5)) {
    case 0: break;
    case 1: {
      const size_t at = all.size();
      all.resize(at + size_t(r.range(1, 64)));
      r.fill(all.data() + at, all.size() - at);
    } break;
    case 2: all.insert(all.end(), hdr.begin(), hdr.end()); break;
    case 3: all.resize(all.size() + size_t(r.range(1, 40)), 0); break;
    default: {
      const std::string t = "\nversion: 3\nwidth: 1\n";
      all.insert(all.end(), t.begin(), t.end());
    }
  }
  Block in(all);
  ConstBufferView v = in.view();
  EncodingInfo back;
  std::string what;
  // trailing padding bytes that a text header writes after its terminator belong to the header: they are known by
  // writing the header twice and comparing sizes, so the amount to be consumed is up to the terminator
  size_t expect = hdr.size();
  if (yaml) expect = size_t(std::find(hdr.begin(), hdr.end(), uint8_t(0)) - hdr.begin()) + 1;
  if (yaml && expect != hdr.size())
    ctx.violate("header-size", fmt("the header has %zu bytes but ends at %zu", hdr.size(), expect));
  if (throwsException([&] { AppLocale l(ctx, reader_locale); back = DecodeHeader(v); }, &what)) {
    ctx.violate("header-refused", "own header refused: " + what + " " + describe(info));
  } else {
    std::string d = diffInfo(info, back);
    if (d.empty() && yaml && back.encoding_config != info.encoding_config) d = "encoding_config changed";
    if (!d.empty()) ctx.violate("header-differs", std::string(yaml ? "text: " : "binary: ") + d);
    if (all.size() - v.size() != hdr.size())
      ctx.violate("consumed", fmt("%zu bytes consumed of a header of %zu (%s)", all.size() - v.size(), hdr.size(), yaml ? "text" : "binary"));
    if (v.data() != in.p + (all.size() - v.size())) ctx.violate("consumed", "view not advanced in place");
  }
  if (yaml) {
    std::string text;
    {
      AppLocale l(ctx, writer_locale);
      text = EncodingInfoToYAML(info);
    }
    std::unique_ptr<char[]> exact(new char[text.size()]);
    memcpy(exact.get(), text.data(), text.size());
    EncodingInfo b2;
    if (throwsException([&] { AppLocale l(ctx, reader_locale); b2 = EncodingInfoFromYAML(std::string_view(exact.get(), text.size())); }, &what)) {
      ctx.violate("yaml-refused", "own text refused: " + what);
    } else {
      std::string d = diffInfo(info, b2);
      if (d.empty() && b2.encoding_config != info.encoding_config) d = "encoding_config changed";
      if (!d.empty()) ctx.violate("yaml-differs", d);
    }
    ctx.count("text_headers");
  } else {
    ctx.count("binary_headers");
  }
  ctx.count("fields", nf);
  ctx.nontrivial(hashBytes(hdr.data(), hdr.size()));
  if (idx % 50021 == 3) ctx.sample(hex(hdr.data(), hdr.size(), 100));
}
void finishWorker(Ctx&) {}
