// C27: cutting a recording keeps the first point clouds of every channel; inspecting one describes its first compressed cloud
// The tools' own main() run in a child process per case, on a stand-in for the MCAP library.
#include "h_rec.hpp"
// one tool per binary: tools/cutter_main.cpp or tools/inspector_main.cpp
__attribute__((weak)) int cutter_main(int argc, char** argv);
__attribute__((weak)) int inspector_main(int argc, char** argv);
using namespace vh;
using namespace rec_ns;

uint64_t numCases(const Ctx& c) { return c.thorough() ? 30000 : 1600; }

namespace {
struct Case {
  Ctx& ctx;
  Rng& r;
  std::string dir, where;
  void label(const char* tool, const std::vector<std::string>& args) {
    where = tool;
    for (auto& a : args) where += " '" + a + "'";
    ctx.label(where);
  }
  void fail(const char* key, const std::string& what, const Run& x) {
    ctx.violate(key, what + fmt(" (exit %d, %s), ", x.code, x.err.substr(0, 300).c_str()) + where);
  }
  void opt(std::vector<std::string>& args, const char* s, const char* l, const std::string& v) {
    if (r.chance(0.5)) {
      args.push_back(s);
      args.push_back(v);
    } else {
      args.push_back(std::string(l) + "=" + v);
    }
  }
  bool common(const Run& x, const std::string& file, const std::string& bytes) {
    if (sanitizer(x)) return fail("sanitizer", "sanitizer report", x), false;
    if (x.code >= 1000 || x.code == 134) return fail("crash", "the tool crashed", x), false;
    if (slurp(dir + "/" + file) != Bytes(bytes.begin(), bytes.end())) return fail("input-changed", "the input was changed", x), false;
    return true;
  }
};

// what the cutter must have written
std::string checkCut(Ctx& ctx, const Recording& in, const std::string& path, size_t limit) {
  Recording got;
  try {
    got = readRecording(path);
  } catch (const Damaged& e) {
    return std::string("the output is damaged: ") + e.what();
  }
  if (got.profile != in.profile) return "profile of the recording '" + got.profile + "'";
  auto isCloud = [&](const RChannel& c) { return c.schema && in.schemas.at(c.schema).name == kRaw; };
  std::multiset<std::string> ta, tb;
  for (auto& [id, c] : in.channels)
    if (isCloud(c)) ta.insert(c.topic);
  for (auto& [id, c] : got.channels) {
    tb.insert(c.topic);
    if (!c.schema) return "channel without a schema";
    const RSchema& s = got.schemas.at(c.schema);
    if (s.name != kRaw) return "schema '" + s.name + "'";
    const std::string d = checkDefinition(s, false);
    if (!d.empty()) return d;
    if (c.encoding != "cdr") return "message encoding '" + c.encoding + "'";
  }
  if (ta != tb) return fmt("%zu channels instead of %zu, or others", tb.size(), ta.size());
  // the expected messages, in the order of the recording; channels of one topic are told apart by their metadata
  std::map<uint16_t, size_t> count;
  std::vector<const RMessage*> want;
  for (auto& m : in.messages) {
    if (!isCloud(in.channels.at(m.channel))) continue;
    if (count[m.channel]++ < limit) want.push_back(&m);
    else ctx.count("messages_cut_off");
  }
  if (got.messages.size() != want.size()) return fmt("%zu messages instead of %zu", got.messages.size(), want.size());
  std::map<std::string, std::vector<const RMessage*>> pa, pb;
  for (auto* m : want) pa[in.channels.at(m->channel).topic].push_back(m);
  for (auto& m : got.messages) pb[got.channels.at(m.channel).topic].push_back(&m);
  for (auto& [topic, va] : pa) {
    const auto& vb = pb[topic];
    if (va.size() != vb.size()) return fmt("%zu messages instead of %zu on topic ", vb.size(), va.size()) + topic;
    for (size_t i = 0; i < va.size(); ++i) {
      const std::string at = fmt("message %zu of topic ", i) + topic + ": ";
      if (va[i]->sequence != vb[i]->sequence) return at + fmt("sequence %u instead of %u", vb[i]->sequence, va[i]->sequence);
      if (va[i]->log != vb[i]->log || va[i]->publish != vb[i]->publish) return at + "timestamps";
      if (va[i]->data != vb[i]->data) return at + "bytes";
      if (in.channels.at(va[i]->channel).metadata != got.channels.at(vb[i]->channel).metadata) return at + "channel metadata";
      ctx.count("messages_kept");
    }
  }
  return "";
}

// the value of the line that begins with `key`, from position `at` on
std::string value(const std::string& out, const std::string& key, size_t* at) {
  const size_t p = out.find("\n" + key + ": ", *at);
  if (p == std::string::npos) return "<missing>";
  const size_t b = p + key.size() + 3, e = out.find('\n', b);
  *at = e == std::string::npos ? out.size() : e;
  return out.substr(b, *at - b);
}
const char* typeName(FieldType t) {
  switch (t) {
    case FieldType::INT8: return "INT8";
    case FieldType::UINT8: return "UINT8";
    case FieldType::INT16: return "INT16";
    case FieldType::UINT16: return "UINT16";
    case FieldType::INT32: return "INT32";
    case FieldType::UINT32: return "UINT32";
    case FieldType::INT64: return "INT64";
    case FieldType::UINT64: return "UINT64";
    case FieldType::FLOAT32: return "FLOAT32";
    case FieldType::FLOAT64: return "FLOAT64";
    default: return "UNKNOWN";
  }
}
std::string checkReport(const std::string& out, const std::string& topic, const RMessage& m, size_t stream, const EncodingInfo& info) {
  size_t at = 0;
  auto line = [&](const std::string& key, const std::string& want) -> std::string {
    const std::string v = value(out, key, &at);
    return v == want ? "" : key + ": '" + v + "' instead of '" + want + "'";
  };
  static const char* const enc[] = {"NONE", "LOSSY", "LOSSLESS"};
  static const char* const comp[] = {"NONE", "LZ4", "ZSTD"};
  const uint64_t points = uint64_t(info.width) * info.height;
  std::string d = line("Topic", topic);
  if (d.empty()) d = line("Timestamp", fmt("%llu ns", (unsigned long long)m.log));
  if (d.empty()) d = line("Message size", fmt("%zu bytes", m.data.size()));
  if (d.empty()) d = line("Compressed data size", fmt("%zu bytes", stream));
  if (d.empty()) d = line("Version", fmt("%d", int(info.version)));
  if (d.empty()) d = line("Width", fmt("%u", info.width));
  if (d.empty()) d = line("Height", fmt("%u", info.height));
  if (d.empty()) d = line("Point step", fmt("%u", info.point_step));
  if (d.empty()) d = line("Total points", fmt("%llu", (unsigned long long)points));
  if (d.empty() && points <= UINT64_MAX / std::max<uint64_t>(info.point_step, 1))
    d = line("Total data size", fmt("%llu bytes", (unsigned long long)(points * info.point_step)));
  if (d.empty()) d = line("Encoding option", enc[int(info.encoding_opt)]);
  if (d.empty()) d = line("Compression option", comp[int(info.compression_opt)]);
  if (d.empty()) d = line("Number of fields", fmt("%zu", info.fields.size()));
  for (size_t i = 0; i < info.fields.size() && d.empty(); ++i) {
    const auto& f = info.fields[i];
    const size_t p = out.find(fmt("\nField %zu:", i), at);
    if (p == std::string::npos) return fmt("field %zu is missing", i);
    at = p + 1;
    d = line("  Name", f.name);
    if (d.empty()) d = line("  Offset", fmt("%u", f.offset));
    if (d.empty()) d = line("  Type", typeName(f.type));
    if (d.empty() && f.resolution) {
      const double v = strtod(value(out, "  Resolution", &at).c_str(), nullptr);
      if (std::abs(v - double(*f.resolution)) > 1e-5 * double(*f.resolution)) d = fmt("  Resolution: %g instead of %g", v, double(*f.resolution));
    }
  }
  return d;
}
}  // namespace

void runCase(Ctx& ctx, uint64_t idx) {
  Rng r = ctx.rng();
  Case c{ctx, r, ctx.dir + "/w", ""};
  fs::remove_all(c.dir);
  fs::create_directories(c.dir + "/dir");
  std::vector<Item> items;
  const bool cut = cutter_main != nullptr;
  const bool present = r.chance(0.9);
  Recording in = genRecording(r, {}, items, cut ? present : r.chance(0.5), cut ? r.chance(0.4) : present, r.chance(0.2));
  if (cut)  // the definition of the recording is kept or replaced by the standard one: make them the same
    for (auto& [id, s] : in.schemas)
      if (s.name == kRaw) s.encoding = "ros2msg";
  if (!cut && r.chance(0.2)) {
    // clouds too large to be generated: only their header is looked at
    for (size_t i = 0; i < in.messages.size(); ++i) {
      const uint16_t sid = in.channels.at(in.messages[i].channel).schema;
      if (!sid || in.schemas.at(sid).name != kComp) continue;
      cdr::Msg m = items[i].msg;
      EncodingInfo& info = items[i].info;
      m.compressed = true;
      m.format = "cloudini";
      m.width = info.width = uint32_t(r.chance(0.5) ? r.range(60000, 200000) : r.next());
      m.height = info.height = uint32_t(r.chance(0.5) ? r.range(60000, 200000) : r.next());
      m.data.clear();
      EncodeHeader(info, m.data, r.chance(0.7) ? HeaderEncoding::YAML : HeaderEncoding::BINARY);
      in.messages[i].data = cdr::write(m);
      ctx.count("huge_clouds");
    }
  }
  const bool lengthy = cut && !in.messages.empty() && r.chance(0.03);
  if (lengthy) {  // the contents of the clouds do not matter for cutting
    for (size_t k = size_t(r.range(1000, 5000)); k > 0; --k) {
      RMessage m = in.messages[r.below(in.messages.size())];
      m.data.resize(r.below(60));
      r.fill(m.data.data(), m.data.size());
      m.sequence = uint32_t(r.next());
      m.log += k;
      in.messages.push_back(m);
    }
    ctx.count("long_recordings");
  }
  std::string bytes = writeRecording(r, in);
  const std::string name = r.pick<std::string>({"a.mcap", "dir/b c.mcap", "x.y.mcap"});
  std::vector<std::string> args;
  if (r.chance(0.7)) {
    // an intact recording
    spit(c.dir + "/" + name, bytes);
    c.opt(args, "-f", "--filename", name);
    if (cut) {
      size_t limit = 1000;
      if (r.chance(0.8)) {
        limit = size_t(r.pick({1, 2, 3, 5, 100}));
        if (lengthy) limit = size_t(r.chance(0.5) ? r.pick({255, 256, 999, 1000, 1001, 100000}) : int(r.range(1, 3000)));
        c.opt(args, "-n", "--max-messages", fmt("%zu", limit));
      }
      std::string out = fs::path(name).stem().string() + "_cut.mcap";
      if (r.chance(0.6)) {
        const std::string given = r.pick<std::string>({"out.mcap", "dir/out.mcap", "out", "dir/o.bin"});
        out = given.find(".mcap") == std::string::npos ? given + ".mcap" : given;
        c.opt(args, "-o", "--output", given);
      }
      c.label("mcap_cutter", args);
      const Run x = run(cutter_main, c.dir, args, "");
      if (!c.common(x, name, bytes)) return;
      bool any = false;
      for (auto& [id, ch] : in.channels) any |= ch.schema && in.schemas.at(ch.schema).name == kRaw;
      if (!any) {
        if ((x.out + x.err).find("No PointCloud2") == std::string::npos && x.code == 0) c.fail("silent", "nothing to cut, and no word of it", x);
        ctx.count("nothing_to_do");
        return;
      }
      if (x.code != 0) return c.fail("refused", "a valid recording was not cut", x);
      const std::string d = checkCut(ctx, in, c.dir + "/" + out, limit);
      if (!d.empty()) return c.fail("cut", d, x);
      ctx.count("recordings_cut");
    } else {
      c.label("mcap_header_inspector", args);
      const Run x = run(inspector_main, c.dir, args, "");
      if (!c.common(x, name, bytes)) return;
      bool any = false;
      for (auto& [id, ch] : in.channels) any |= ch.schema && in.schemas.at(ch.schema).name == kComp;
      size_t first = in.messages.size();
      for (size_t i = in.messages.size(); i-- > 0;) {
        const uint16_t s = in.channels.at(in.messages[i].channel).schema;
        if (s && in.schemas.at(s).name == kComp) first = i;
      }
      if (first == in.messages.size()) {
        if ((x.out + x.err).find("No CompressedPointCloud2") == std::string::npos) c.fail("silent", "nothing to inspect, and no word of it", x);
        ctx.count("nothing_to_do");
        return;
      }
      const cdr::Msg m = cdr::read(in.messages[first].data.data(), in.messages[first].data.size(), true);
      if (m.data.empty()) {  // an empty cloud has no header
        if (x.code == 0) c.fail("failure-not-reported", "a cloud without a header was described", x);
        ctx.count("clouds_without_header");
        return;
      }
      if (x.code != 0) return c.fail("refused", "a valid recording was not described", x);
      const std::string d = checkReport(x.out, in.channels.at(in.messages[first].channel).topic, in.messages[first], m.data.size(), items[first].info);
      if (!d.empty()) return c.fail("report", d, x);
      ctx.count("recordings_described");
    }
    ctx.nontrivial(hashBytes(bytes.data(), bytes.size()) ^ hashStr(c.where));
    if (idx % 401 == 3) ctx.sample(fmt("%zu messages on %zu channels: ", in.messages.size(), in.channels.size()) + c.where);
    return;
  }
  // failures
  std::string file = name, what;
  bool must_fail = true;
  mcap::stub::Faults faults;
  bool clouds = false, comps = false;
  for (auto& m : in.messages) {
    const uint16_t s = in.channels.at(m.channel).schema;
    clouds |= s && in.schemas.at(s).name == kRaw;
    comps |= s && in.schemas.at(s).name == kComp;
  }
  switch (r.below(cut ? 9 : 6)) {
    case 0:
      what = "missing input";
      file = "nowhere.mcap";
      break;
    case 1:
      what = "input that is no recording";
      bytes = std::string(r.below(100), 'x');
      break;
    case 2:
      what = "another extension";
      file = "dir";
      break;
    case 3:
      what = "the summary cannot be read";
      faults.summary = true;
      break;
    case 4:
      what = "damaged recording";
      if (cut ? !clouds : !comps) return;
      bytes.resize(30 + r.below(bytes.size() - 30));
      must_fail = false;
      break;
    case 5:
      what = "malformed cloud";
      if (cut) return;  // the cutter copies what there is
      {
        bool done = false;
        for (size_t i = 0; i < in.messages.size() && !done; ++i) {
          const uint16_t s = in.channels.at(in.messages[i].channel).schema;
          if (!s || in.schemas.at(s).name != kComp) continue;
          in.messages[i].data.resize(r.below(std::min<size_t>(in.messages[i].data.size(), 40)));
          done = true;
        }
        if (!done) return;
        bytes = writeRecording(r, in);
      }
      break;
    case 6: {
      what = "output is the input";
      fs::create_symlink(fs::absolute(c.dir + "/" + name), c.dir + "/link.mcap");
      c.opt(args, "-o", "--output", r.pick<std::string>({name, "./" + name, "dir/../" + name, "link.mcap", name.substr(0, name.size() - 5)}));
      if (!clouds) must_fail = false;
      if (r.chance(0.3)) file = "link.mcap";
    } break;
    case 7:
      what = "writing a message fails";
      if (!clouds) return;
      faults.write_message = 0;
      break;
    default:
      what = "bad arguments";
      args.push_back(r.pick<std::string>({"-n=0", "--max-messages=0", "--max-messages=-3", "--max-messages=x", "--nonsense"}));
      break;
  }
  spit(c.dir + "/" + name, bytes);
  c.opt(args, "-f", "--filename", file);
  c.label(cut ? "mcap_cutter" : "mcap_header_inspector", args);
  c.where = what + ": " + c.where;
  const Run x = run(cut ? cutter_main : inspector_main, c.dir, args, "", faults);
  // an exception about the arguments may leave main()
  if (what == "bad arguments" ? !c.common(Run{x.code == 134 ? 1 : x.code, x.err, x.out}, name, bytes) : !c.common(x, name, bytes)) return;
  if (must_fail && x.code == 0) c.fail("failure-not-reported", "exit status 0", x);
  if (what == "damaged recording" && cut && x.code == 0 && x.err.empty() && (x.out.find("No PointCloud2") == std::string::npos))
    c.fail("failure-not-reported", "a damaged recording was cut without a word", x);
  ctx.count("requests_refused");
  ctx.nontrivial(hashStr(c.where) ^ hashBytes(bytes.data(), bytes.size()));
}
void finishWorker(Ctx&) {}
