// C30: the codec benchmark reports what is in the recording and what the library achieves
// The tool's own main() runs in a child process per case, on a stand-in for the MCAP library.
#include "cloudini_lib/ros_msg_utils.hpp"
#include "h_rec.hpp"
int benchmark_main(int argc, char** argv);
using namespace vh;
using namespace rec_ns;

uint64_t numCases(const Ctx& c) { return c.thorough() ? 20000 : 1200; }

namespace {
const char* const kModes[4] = {"V4", "V5", "V4-viz", "V5-viz"};
struct Figures {
  uint64_t messages = 0, points = 0, raw = 0;
  uint64_t in[4] = {}, out[4] = {};
};
struct Expected {
  std::map<std::string, Figures> topics;
  std::map<std::string, size_t> unread, refused;  // warnings
  uint64_t hash[4];
  bool exact_hash = true;
  size_t samples = 0;
};
struct Opts {
  float res = 0.001f;
  uint64_t max = 0, every = 1, repeat = 1;
  bool zstd = false, encode_only = false, replay = false, hash = false, explain = false;
  int mode = -1;
};

Expected model(Ctx& ctx, const Recording& in, const Opts& o) {
  Expected e;
  for (auto& h : e.hash) h = 14695981039346656037ull;
  std::map<std::string, uint64_t> seen;
  for (auto& m : in.messages) {
    const RChannel& ch = in.channels.at(m.channel);
    if (!ch.schema || in.schemas.at(ch.schema).name != kRaw) continue;
    const uint64_t k = seen[ch.topic]++;
    if ((o.max && k >= o.max) || k % o.every) {
      ctx.count("messages_left_out");
      continue;
    }
    Bytes raw = m.data;
    cloudini_ros::RosPointCloud2 pc;
    try {
      pc = cloudini_ros::getDeserializedPointCloudMessage(ConstBufferView(raw.data(), raw.size()));
    } catch (const std::exception&) {
      ++e.unread[ch.topic];
      continue;
    }
    if (pc.data.size() == 0 || pc.point_step == 0) continue;
    if (pc.data.size() % pc.point_step || pc.data.size() / pc.point_step != uint64_t(pc.width) * pc.height) {
      ++e.unread[ch.topic];
      continue;
    }
    for (auto& f : pc.fields)
      if (f.type == FieldType::FLOAT32) f.resolution = o.res;
    Figures& t = e.topics[ch.topic];
    ++t.messages;
    t.points += pc.data.size() / pc.point_step;
    t.raw += pc.data.size();
    for (int mode = 0; mode < 4; ++mode) {
      if (o.mode >= 0 && mode != o.mode) continue;
      cloudini_ros::RosPointCloud2 p = pc;
      if (mode >= 2) cloudini_ros::applyVizLossyPreprocessing(p);
      EncodingInfo info;
      info.width = p.width;
      info.height = p.height;
      info.point_step = p.point_step;
      info.fields = p.fields;
      info.encoding_opt = EncodingOptions::LOSSY;
      info.compression_opt = o.zstd ? CompressionOption::ZSTD : CompressionOption::NONE;
      info.version = mode & 1 ? 5 : 4;
      info.use_threads = false;
      Bytes out;
      try {
        PointcloudEncoder enc(info);
        enc.encode(ConstBufferView(p.data.data(), p.data.size()), out);
      } catch (const std::exception&) {
        ++e.refused[ch.topic];
        continue;
      }
      t.in[mode] += pc.data.size();
      t.out[mode] += out.size();
      ++e.samples;
      if (o.hash) {
        ConstBufferView v(out.data(), out.size());
        EncodingInfo hi = DecodeHeader(v);
        Bytes dec(size_t(hi.width) * hi.height * hi.point_step, 0);
        PointcloudDecoder d;
        d.decode(hi, v, BufferView(dec.data(), dec.size()));
        for (uint8_t b : dec) e.hash[mode] = (e.hash[mode] ^ b) * 1099511628211ull;
        if (!paddingBytes(hi).empty()) e.exact_hash = false;  // gaps hold whatever they held
        for (auto& f : hi.fields)
          if (std::count_if(hi.fields.begin(), hi.fields.end(), [&](const PointField& g) { return g.offset < f.offset + SizeOf(f.type) && f.offset < g.offset + SizeOf(g.type); }) > 1) e.exact_hash = false;
      }
    }
  }
  return e;
}
std::string mib(uint64_t b) { return fmt("%.2f", double(b) / 1048576.0); }

struct Case {
  Ctx& ctx;
  Rng& r;
  std::string dir, where;
  void fail(const char* key, const std::string& what, const Run& x) { ctx.violate(key, what + fmt(" (exit %d, %s), ", x.code, x.err.substr(0, 300).c_str()) + where); }
  bool common(const Run& x, const std::string& file, const Bytes& bytes) {
    if (sanitizer(x)) return fail("sanitizer", "sanitizer report", x), false;
    if (x.code >= 1000 || x.code == 134) return fail("crash", "the tool crashed", x), false;
    if (!file.empty() && slurp(dir + "/" + file) != bytes) return fail("input-changed", "the input was changed", x), false;
    return true;
  }
};

// the table that begins at the line with `title`
std::string table(const std::string& text, const std::string& title, const Figures& t, const Opts& o) {
  const size_t at = text.find("\n" + title + "  [");
  if (at == std::string::npos) return "no table '" + title + "'";
  std::istringstream in(text.substr(at + 1));
  std::string line;
  std::getline(in, line);
  std::getline(in, line);
  if (line != fmt("  messages=%llu  points=%llu  raw=%s MiB", (unsigned long long)t.messages, (unsigned long long)t.points, mib(t.raw).c_str()))
    return title + ": '" + line + fmt("' instead of %llu messages, %llu points, %llu bytes", (unsigned long long)t.messages, (unsigned long long)t.points, (unsigned long long)t.raw);
  for (int k = 0; k < 3; ++k) std::getline(in, line);
  for (int m = 0; m < 4; ++m) {
    std::string name, out, ratio, enc, dec;
    std::getline(in, line);
    std::istringstream l(line);
    l >> name >> out >> ratio >> enc >> dec;
    const std::string where = title + ", " + kModes[m] + ": ";
    if (name != kModes[m]) return where + "'" + line + "'";
    if (out != mib(t.out[m])) return where + out + " MiB instead of " + mib(t.out[m]);
    const bool used = t.in[m] != 0;
    if (!used) {
      if (ratio != "n/a" && ratio != "0.0%") return where + "ratio " + ratio + " of nothing";
      continue;
    }
    const std::string want = fmt("%.1f%%", 100.0 * double(t.out[m]) / double(t.in[m]));
    if (ratio != want) return where + "ratio " + ratio + fmt(" instead of %s (%llu of %llu bytes)", want.c_str(), (unsigned long long)t.out[m], (unsigned long long)t.in[m]);
    if (enc.find_first_not_of("0123456789") != std::string::npos) return where + "encoding speed '" + enc + "'";
    if (o.encode_only ? dec != "n/a" : dec.find_first_not_of("0123456789") != std::string::npos) return where + "decoding speed '" + dec + "'";
  }
  return "";
}
size_t occurrences(const std::string& text, const std::string& what) {
  size_t n = 0;
  for (size_t p = text.find(what); p != std::string::npos; p = text.find(what, p + 1)) ++n;
  return n;
}
}  // namespace

void runCase(Ctx& ctx, uint64_t idx) {
  Rng r = ctx.rng();
  Case c{ctx, r, ctx.dir + "/w", ""};
  fs::remove_all(c.dir);
  fs::create_directories(c.dir + "/dir");
  Opts o;
  if (r.chance(0.5)) o.res = pickResolution(r, true);
  std::vector<Item> items;
  Settings s;
  s.res = o.res;
  s.viz = r.chance(0.7);
  Recording in = genRecording(r, s, items, r.chance(0.95), r.chance(0.3), r.chance(0.2));
  std::vector<size_t> clouds;
  bool any = false;
  for (auto& [id, ch] : in.channels) any |= ch.schema && in.schemas.at(ch.schema).name == kRaw;
  for (size_t i = 0; i < in.messages.size(); ++i) {
    const uint16_t sid = in.channels.at(in.messages[i].channel).schema;
    if (sid && in.schemas.at(sid).name == kRaw) clouds.push_back(i);
  }
  if (r.chance(0.3)) {  // clouds without unused bytes
    for (size_t i : clouds) {
      EncodingInfo info;
      info.version = kEncodingVersion;
      info.encoding_opt = EncodingOptions::LOSSY;
      uint32_t at = 0;
      for (int k = int(r.range(1, 6)); k > 0; --k) {
        PointField f{fmt("f%u", at), at, FieldType(r.range(1, 8)), std::nullopt};
        if (f.type == FieldType::FLOAT32) f.resolution = o.res;
        at += SizeOf(f.type);
        info.fields.push_back(f);
      }
      info.point_step = at;
      const size_t n = r.chance(0.05) ? pickCountFor(r, info) : size_t(r.range(1, 250));
      setDims(r, info, n);
      DataOpts d;
      d.wild = false;
      const Bytes data = genData(r, info, n, d);
      in.messages[i].data = cdr::write(cdr::genMsg(r, info, data));
    }
  }
  std::string damage;
  if (!clouds.empty() && r.chance(0.25)) {
    // messages that cannot be read or compressed
    for (int k = int(r.range(1, 3)); k > 0; --k) {
      RMessage& m = in.messages[clouds[r.below(clouds.size())]];
      switch (r.below(3)) {
        case 0: m.data.resize(r.below(m.data.size() + 1)); break;
        case 1: {
          cdr::Msg x;
          try {
            x = cdr::read(m.data.data(), m.data.size(), false);
          } catch (const std::exception&) {
            break;
          }
          if (r.chance(0.5)) x.point_step = uint32_t(r.chance(0.5) ? 0 : r.below(200));
          else if (!x.fields.empty()) x.fields[r.below(x.fields.size())].offset = x.point_step;
          m.data = cdr::write(x);
        } break;
        default:
          if (m.data.size() > 60) m.data[4 + r.below(50)] ^= uint8_t(1 << r.below(8));
      }
    }
    damage = "damaged messages, ";
    ctx.count("recordings_with_bad_messages");
  }
  std::string bytes = writeRecording(r, in);
  const std::string name = r.pick<std::string>({"a.mcap", "dir/b c.mcap", "x"});
  std::vector<std::string> args;
  auto opt = [&](const std::string& n, const std::string& v) {
    if (r.chance(0.5)) args.push_back(n + "=" + v);
    else args.push_back(n), args.push_back(v);
  };
  if (r.chance(0.5)) args.push_back(name);
  else opt("--filename", name);
  if (o.res != 0.001f || r.chance(0.3)) opt("--resolution", fmt("%.9g", double(o.res)));
  if (r.chance(0.25)) opt("--max-messages", fmt("%d", int(o.max = uint64_t(r.range(0, 4)))));
  else if (r.chance(0.25)) {  // both together may be understood in two ways
    o.every = uint64_t(r.range(0, 4));
    opt("--sample-every", fmt("%d", int(o.every)));
    if (!o.every) o.every = 1;
  }
  if ((o.zstd = r.chance(0.4))) args.push_back("--zstd");
  if (r.chance(0.55)) {
    o.mode = int(r.below(4));
    opt("--mode", kModes[o.mode]);
    if ((o.replay = r.chance(0.6))) {
      args.push_back("--decode-replay");
      if ((o.hash = r.chance(0.8))) args.push_back("--hash");
      if (r.chance(0.3)) opt("--decode-repeat", fmt("%d", int(o.repeat = uint64_t(r.range(1, 3)))));
    }
  }
  if (!o.replay && (o.encode_only = r.chance(0.3))) args.push_back("--encode-only");
  if ((o.explain = r.chance(0.12))) args.push_back("--explain");
  mcap::stub::Faults faults;
  std::string expect_failure;
  bool silent_ok = false;
  if (r.chance(0.25)) {
    switch (r.below(6)) {
      case 0:
        expect_failure = "missing file";
        args = {"nowhere.mcap"};
        break;
      case 1:
        expect_failure = "no recording";
        bytes = std::string(r.below(200), 'x');
        break;
      case 2:
        expect_failure = "the summary cannot be read";
        faults.summary = true;
        break;
      case 3:
        expect_failure = "bad arguments";
        args.push_back(r.pick<std::string>({"--mode=V6", "--mode=", "--nonsense", "--resolution=x", "--max-messages=x", "--sample-every=-1"}));
        if (o.mode < 0 && !o.replay && r.chance(0.3)) args.back() = r.pick<std::string>({"--hash", "--decode-replay"});
        break;
      case 4:
        expect_failure = "a directory";
        args = {"dir"};
        break;
      default:
        // cut within the data: what is left may still hold every cloud
        expect_failure = "damaged recording";
        if (clouds.empty() || o.explain) return;
        bytes.resize(30 + r.below(bytes.size() - 30));
        silent_ok = true;
    }
  }
  c.where = damage + "mcap_codec_benchmark";
  for (auto& a : args) c.where += " '" + a + "'";
  if (!expect_failure.empty()) c.where = expect_failure + ": " + c.where;
  ctx.label(c.where);
  spit(c.dir + "/" + name, bytes);
  const Bytes file(bytes.begin(), bytes.end());
  const Run x = run(benchmark_main, c.dir, args, "", faults);
  if (!expect_failure.empty()) {
    // an exception about the arguments may leave main()
    if (expect_failure == "bad arguments" ? !c.common(Run{x.code == 134 ? 1 : x.code, x.err, x.out}, name, file) : !c.common(x, name, file)) return;
    if (x.code == 0 && !(silent_ok && !x.err.empty())) return c.fail("failure-not-reported", "exit status 0", x);
    ctx.count("requests_refused");
    ctx.nontrivial(hashStr(c.where) ^ hashBytes(file.data(), file.size()));
    return;
  }
  if (!c.common(x, name, file)) return;
  if (!any) {
    if (x.code == 0 && (x.out + x.err).find("No raw") == std::string::npos) c.fail("silent", "no point clouds, and no word of it", x);
    ctx.count("nothing_to_do");
    return;
  }
  if (x.code != 0) return c.fail("refused", "a valid recording was refused", x);
  for (auto& [id, ch] : in.channels)
    if (ch.schema && in.schemas.at(ch.schema).name == kRaw && x.out.find("\n  - " + ch.topic + "\n") == std::string::npos) return c.fail("topics", "topic '" + ch.topic + "' is not listed", x);
  if (o.explain) {
    // the first message of every topic
    std::map<std::string, const RMessage*> first;
    for (size_t i : clouds) first.emplace(in.channels.at(in.messages[i].channel).topic, &in.messages[i]);
    for (auto& [topic, m] : first) {
      Bytes raw = m->data;
      cloudini_ros::RosPointCloud2 pc;
      try {
        pc = cloudini_ros::getDeserializedPointCloudMessage(ConstBufferView(raw.data(), raw.size()));
      } catch (const std::exception&) {
        if (x.err.find(topic + " parse failed") == std::string::npos) return c.fail("explain", "no warning about topic " + topic, x);
        continue;
      }
      if (pc.point_step == 0) continue;
      const size_t at = x.out.find("\nTopic: " + topic + "\n"), n = pc.data.size() / pc.point_step;
      if (at == std::string::npos) return c.fail("explain", "topic '" + topic + "' is not explained", x);
      const std::string text = x.out.substr(at + 1, x.out.find("\n====", at) - at);
      if (text.find(fmt("  point_step=%u  n_points=%zu  raw=%s MiB\n", pc.point_step, n, mib(pc.data.size()).c_str())) == std::string::npos) return c.fail("explain", "size of the cloud of topic " + topic, x);
      for (auto& f : pc.fields)
        if (f.type == FieldType::FLOAT32) f.resolution = o.res;
      for (size_t i = 0; i < pc.fields.size(); ++i) {
        const auto& f = pc.fields[i];
        const size_t p = text.find(fmt("    [%zu] ", i) + f.name);
        if (p == std::string::npos) return c.fail("explain", "field '" + f.name + "' of topic " + topic + " is missing", x);
        const std::string l = text.substr(p, text.find('\n', p) - p) + " ";
        if (l.find(fmt(" offset=%-3u ", f.offset)) == std::string::npos) return c.fail("explain", "offset of a field: " + l, x);
        if ((l.find("resolution=n/a") == std::string::npos) != f.resolution.has_value()) return c.fail("explain", "resolution of a field: " + l, x);
      }
      cloudini_ros::applyVizLossyPreprocessing(pc);
      if (text.find(fmt("    points: %zu -> %zu  (removed %zu = ", n, pc.data.size() / pc.point_step, n - pc.data.size() / pc.point_step)) == std::string::npos)
        return c.fail("explain", "effect of the preprocessing on topic " + topic, x);
      ctx.count("topics_explained");
    }
    return;
  }
  const Expected e = model(ctx, in, o);
  if (e.topics.empty()) {
    if (x.out.find("No PointCloud2 messages were processed") == std::string::npos) return c.fail("report", "tables without messages", x);
    ctx.count("nothing_to_do");
    return;
  }
  Figures total;
  for (auto& [topic, t] : e.topics) {
    const std::string d = table(x.out, "Topic: " + topic, t, o);
    if (!d.empty()) return c.fail("report", d, x);
    total.messages += t.messages;
    total.points += t.points;
    total.raw += t.raw;
    for (int m = 0; m < 4; ++m) total.in[m] += t.in[m], total.out[m] += t.out[m];
    ctx.count("topics_reported");
  }
  if (occurrences(x.out, "\nTopic: ") != e.topics.size()) return c.fail("report", "more topics than there are", x);
  if (e.topics.size() > 1) {
    const std::string d = table(x.out, "FILE TOTAL", total, o);
    if (!d.empty()) return c.fail("report", d, x);
  }
  for (auto& [topic, n] : e.unread)
    if (occurrences(x.err, "[warn] " + topic + " msg #") < n) return c.fail("warnings", fmt("fewer than %zu warnings about unreadable messages of topic ", n) + topic, x);
  for (auto& [topic, n] : e.refused)
    if (occurrences(x.err, "[warn] " + topic + " msg #") < n) return c.fail("warnings", fmt("fewer than %zu warnings about refused messages of topic ", n) + topic, x);
  if (e.unread.empty() && e.refused.empty() && x.err.find("[warn]") != std::string::npos) return c.fail("warnings", "a warning without a reason", x);
  ctx.count("messages_refused", e.refused.size() + e.unread.size());
  if (o.replay) {
    if (x.out.find(fmt("samples=%zu  repeat=%llu  total-decodes=%zu ", e.samples, (unsigned long long)o.repeat, size_t(e.samples * o.repeat))) == std::string::npos) return c.fail("replay", fmt("not %zu samples replayed", e.samples), x);
    if (o.hash) {
      const std::string line = fmt("  %s : 0x%llx\n", kModes[o.mode], (unsigned long long)e.hash[o.mode]);
      if (e.exact_hash) {
        if (x.out.find(line) == std::string::npos) return c.fail("fingerprint", "not the fingerprint of the decoded clouds " + line, x);
        ctx.count("fingerprints");
      } else {
        const size_t p = x.out.find(fmt("  %s : 0x", kModes[o.mode]));
        if (p == std::string::npos) return c.fail("fingerprint", "no fingerprint", x);
        const Run y = run(benchmark_main, c.dir, args, "", faults);
        const std::string l = x.out.substr(p, x.out.find('\n', p) - p) + "\n";
        if (y.out.find(l) == std::string::npos) return c.fail("fingerprint", "another fingerprint the second time", x);
        ctx.count("fingerprints_repeated");
      }
    }
  }
  ctx.count("recordings_measured");
  ctx.nontrivial(hashBytes(file.data(), file.size()) ^ hashStr(c.where));
  if (idx % 301 == 3) ctx.sample(fmt("%zu messages on %zu channels: ", in.messages.size(), in.channels.size()) + c.where);
}
void finishWorker(Ctx&) {}
