// C23: reading arbitrary bytes as a header is safe and never misreports
#include "h_mut.hpp"
using namespace vh;

uint64_t numCases(const Ctx& c) { return c.thorough() ? 400000 : 16000; }

struct Res {
  bool threw = false;
  std::string what;
  uint64_t h = 0;
  size_t used = 0;
  EncodingInfo info;
};
static uint64_t hashInfo(const EncodingInfo& i) {
  uint64_t h = mix64(i.version + (uint64_t(i.width) << 8) + (uint64_t(i.height) << 40)) ^ mix64(i.point_step * 31ull + uint64_t(i.encoding_opt) * 7 + uint64_t(i.compression_opt));
  h ^= hashStr(i.encoding_config);
  for (auto& f : i.fields) {
    uint32_t u = 0;
    if (f.resolution) memcpy(&u, &*f.resolution, 4);
    h = mix64(h ^ hashStr(f.name)) ^ f.offset ^ (uint64_t(f.type) << 32) ^ (uint64_t(u) << 13) ^ f.resolution.has_value();
  }
  return h;
}
static Res header(Ctx& ctx, const Bytes& b, int fill) {
  Res res;
  Block in(b);
  ConstBufferView v = in.view();
  AllocMonitor::fill = fill;
  try {
    res.info = DecodeHeader(v);
    res.h = hashInfo(res.info);
    res.used = b.size() - v.size();
    // every later step (how chunks are stored, which encoding) follows the version, so it is the one after the magic
    if (b.size() < 12 || res.info.version != (b[10] - '0') * 10 + (b[11] - '0'))
      ctx.violate("version", fmt("version %u reported for a header that starts with ", unsigned(res.info.version)) + jsonEsc(std::string(b.begin(), b.begin() + long(std::min<size_t>(12, b.size())))));
    if (v.size() > b.size() || (v.size() && v.data() != in.p + res.used)) ctx.violate("view", "the view after the header does not lie in the input");
  } catch (const std::exception& e) {
    res.threw = true;
    res.what = e.what();
  }
  AllocMonitor::fill = -1;
  return res;
}
static Res text(const std::string& s, int fill) {
  Res res;
  std::unique_ptr<char[]> exact(new char[s.size() ? s.size() : 1]);
  memcpy(exact.get(), s.data(), s.size());
  AllocMonitor::fill = fill;
  try {
    res.info = EncodingInfoFromYAML(std::string_view(exact.get(), s.size()));
    res.h = hashInfo(res.info);
  } catch (const std::exception& e) {
    res.threw = true;
    res.what = e.what();
  }
  AllocMonitor::fill = -1;
  return res;
}

static std::string mutateText(Rng& r, std::string s) {
  static const std::vector<std::string> tokens = {"version", "width", "height", "point_step", "encoding_opt", "compression_opt", "fields", "name", "offset", "type",
                                                  "resolution", "null", "NONE", "LOSSY", "ZSTD", "LZ4", "FLOAT32", "INT8", ": ", ":", "- ", "-", "\n", "  ", "\n  - ",
                                                  "#", "\"", "'", "[", "]", "{", "}", "\t", "-1", "99999999999999999999", "4294967295", "4294967296", "1e999", "nan",
                                                  "0x10", "~", "&a", "*a", "|", ">", "---", "...", "%", "\r\n", "\\", "5", "3.5", "inf", "- - -", "? "};
  const int times = int(r.range(1, 4));
  for (int t = 0; t < times; ++t) {
    const size_t n = s.size();
    switch (r.below(8)) {
      case 0: s.insert(r.below(n + 1), tokens[r.below(tokens.size())]); break;
      case 1: {  // replace the value of a line
        std::vector<size_t> colons;
        for (size_t i = 0; i < n; ++i)
          if (s[i] == ':') colons.push_back(i);
        if (colons.empty()) break;
        const size_t c = colons[r.below(colons.size())];
        const size_t e = std::min(s.find('\n', c), n);
        s.replace(c + 1, e - c - 1, (r.chance(0.8) ? " " : "") + tokens[r.below(tokens.size())]);
      } break;
      case 2: {  // remove a line
        if (!n) break;
        const size_t a = s.rfind('\n', r.below(n));
        const size_t b = a == std::string::npos ? 0 : a + 1;
        const size_t e = s.find('\n', b);
        s.erase(b, e == std::string::npos ? std::string::npos : e - b + 1);
      } break;
      case 3: {  // repeat a line
        if (!n) break;
        const size_t a = s.rfind('\n', r.below(n));
        const size_t b = a == std::string::npos ? 0 : a + 1;
        const size_t e = std::min(s.find('\n', b), n - 1);
        const std::string line = s.substr(b, e - b + 1);
        for (int k = int(r.pick({1, 1, 2, 50})); k; --k) s.insert(b, line);
      } break;
      case 4: s.resize(r.below(n + 1)); break;
      case 5: if (n) s[r.below(n)] = char(r.next()); break;
      case 6: if (n) s.erase(r.below(n), 1 + r.below(8)); break;
      default: {  // indentation
        const size_t a = s.find('\n', r.below(n + 1));
        if (a != std::string::npos) s.insert(a + 1, std::string(r.below(9), r.chance(0.9) ? ' ' : '\t'));
      }
    }
  }
  return s;
}

void runCase(Ctx& ctx, uint64_t idx) {
  Rng r = ctx.rng();
  LayoutOpts o;
  o.versions = {2, 3, 4, 5};
  EncodingInfo info = genLayout(r, o);
  setDims(r, info, r.below(1000000));
  if (r.chance(0.2)) info.encoding_config = "cfg";
  const bool yaml = r.chance(0.5);
  Bytes hdr;
  if (r.chance(0.7)) EncodeHeader(info, hdr, yaml ? HeaderEncoding::YAML : HeaderEncoding::BINARY);
  else hdr = yaml ? ref::yamlHeader(info) : ref::binaryHeader(info);
  ctx.label(yaml ? "text header" : "binary header");
  auto both = [&](const Bytes& b, const char* kind) {
    const Res x = header(ctx, b, 0x00), y = header(ctx, b, 0xE3);
    if (x.threw != y.threw || x.h != y.h || x.used != y.used)
      ctx.violate("depends-on-uninitialised-memory", fmt("%s: outcome differs with the contents of fresh memory: ", kind) + hex(b.data(), b.size(), 200));
    ctx.count(std::string(kind) + (x.threw ? "_refused" : "_read"));
    ctx.nontrivial(hashBytes(b.data(), b.size()));
    return x;
  };
  if (both(hdr, "valid").threw) ctx.violate("valid-refused", describe(info));
  // cut at every byte
  const size_t len = hdr.size();
  for (size_t c = 0; c < len; ++c) {
    if (len > 400 && !r.chance(150.0 / double(len)) && c + 3 < len) continue;
    Bytes b(hdr.begin(), hdr.begin() + long(c));
    if (!both(b, "cut").threw) {
      ctx.violate("cut-accepted", fmt("%s header cut at %zu of %zu accepted: ", yaml ? "text" : "binary", c, len) + describe(info));
      break;
    }
  }
  // magic and version
  for (int k = 0; k < 8; ++k) {
    Bytes b = hdr;
    b.insert(b.end(), 50, uint8_t(r.next()));
    if (r.chance(0.5)) {
      const size_t at = r.below(10);
      b[at] = uint8_t(b[at] ^ (1 + r.below(255)));
    } else {
      bool supported;
      do {
        b[10] = r.chance(0.6) ? uint8_t('0' + r.below(10)) : uint8_t(r.next());
        b[11] = r.chance(0.6) ? uint8_t('0' + r.below(10)) : uint8_t(r.next());
        supported = b[10] == '0' && b[11] >= '2' && b[11] <= '5';
      } while (supported);
    }
    if (!both(b, "magic_or_version").threw)
      ctx.violate("magic-or-version-accepted", "accepted although it starts with " + hex(b.data(), 14) + " '" + jsonEsc(std::string(b.begin(), b.begin() + 12)) + "'");
  }
  // another version after the magic than the one written in the text
  for (uint8_t d = '2'; d <= '5'; ++d) {
    Bytes b = hdr;
    b[11] = d;
    both(b, "other_version");
  }
  // bytes changed
  for (int k = 0; k < 12; ++k) {
    Bytes b = hdr;
    if (r.chance(0.3)) b.insert(b.end(), 30, uint8_t(r.next()));
    Bytes tail(b.begin() + 12, b.end());
    mutateBytes(r, tail, int(r.range(1, 3)));
    b.resize(12);
    b.insert(b.end(), tail.begin(), tail.end());
    both(b, "bytes");
  }
  {
    Bytes b(r.below(200));
    r.fill(b.data(), b.size());
    if (b.size() > 12 && r.chance(0.7)) memcpy(b.data(), hdr.data(), r.chance(0.5) ? 12 : 13);
    both(b, "noise");
  }
  // text
  std::string t = EncodingInfoToYAML(info);
  // a number is read as it is written, or refused
  for (int k = 0; k < 6; ++k) {
    static const char* const keys[] = {"version: ", "width: ", "height: ", "point_step: ", "offset: "};
    const int key = int(r.below(5));
    const size_t at = t.find(keys[key]);
    if (at == std::string::npos) continue;
    const size_t b = at + strlen(keys[key]), e = t.find('\n', b);
    std::string digits;
    switch (r.below(5)) {
      case 0: digits = std::to_string(r.below(1000)); break;
      case 1: digits = std::to_string((uint64_t(1) << r.range(7, 63)) + r.below(8) - r.below(8)); break;
      case 2: digits = std::to_string(r.next()); break;
      case 3: digits = std::to_string(uint32_t(r.next())); break;
      default: digits = std::to_string(r.below(90) + 10) + std::to_string(r.next()); break;
    }
    const std::string m = t.substr(0, b) + digits + t.substr(e);
    const Res x = text(m, 0x00);
    ctx.count(x.threw ? "numbers_refused" : "numbers_read");
    if (x.threw) {
      if (key && digits.size() < 10) ctx.violate("number-refused", std::string(keys[key]) + digits + " refused: " + x.what);
      continue;
    }
    const uint64_t got = key == 0 ? x.info.version : key == 1 ? x.info.width : key == 2 ? x.info.height : key == 3 ? x.info.point_step : x.info.fields.at(0).offset;
    if (std::to_string(got) != digits) ctx.violate("number", std::string(keys[key]) + digits + fmt(" was read as %llu", (unsigned long long)got));
  }
  for (int k = 0; k < 16; ++k) {
    const std::string m = k == 0 ? t : r.chance(0.1) ? mutateText(r, "") : mutateText(r, t);
    const Res x = text(m, 0x00), y = text(m, 0xE3);
    if (x.threw != y.threw || x.h != y.h) ctx.violate("depends-on-uninitialised-memory", "text: outcome differs with the contents of fresh memory: " + m);
    ctx.count(x.threw ? "text_refused" : "text_read");
    ctx.nontrivial(hashStr(m));
    if (idx % 3001 == 3 && k == 5) ctx.sample("text: " + m.substr(0, 300));
    // the same text inside a header
    Bytes b(hdr.begin(), hdr.begin() + 12);
    b.push_back('\n');
    b.insert(b.end(), m.begin(), m.end());
    if (r.chance(0.9)) b.push_back(0);
    const bool terminated = std::find(b.begin() + 13, b.end(), uint8_t(0)) != b.end();
    const Res z = both(b, "text_in_header");
    if (!terminated && !z.threw && b[12] == '\n' && z.used == 0) ctx.violate("consumed", "a header was read but nothing consumed");
  }
}
void finishWorker(Ctx&) {}
