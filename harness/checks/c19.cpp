// C19: the bag converter keeps every message and converts only point clouds
// The converter's own main() runs in a child process per case, on a stand-in for the MCAP library.
#include "h_rec.hpp"
int bag_tool_main(int argc, char** argv);  // tools/bag_main.cpp
using namespace vh;
using namespace rec_ns;

uint64_t numCases(const Ctx& c) { return c.thorough() ? 20000 : 800; }

namespace {
std::string checkMessage(Ctx& ctx, const Item& it, bool compressed, const Bytes& got) {
  cdr::Msg m;
  try {
    m = cdr::read(got.data(), got.size(), compressed);
  } catch (const cdr::Bad& e) {
    return std::string("is no valid message: ") + e.what();
  }
  cdr::Msg want = it.msg;
  std::string d = cdr::diffMeta(want, m);
  if (!d.empty()) return d;
  const size_t n = size_t(it.info.width) * it.info.height;
  Bytes data = m.data;
  if (compressed) {
    if (m.format != "cloudini") return "format '" + m.format + "'";
    if (!n) return "";
    try {
      const Decoded dec = decodeStream(m.data);
      data = dec.data;
      if (dec.info.width != it.info.width || dec.info.height != it.info.height) return "stream with other dimensions";
    } catch (const std::exception& e) {
      return std::string("does not decode: ") + e.what();
    }
  }
  if (data.size() != n * it.info.point_step) return fmt("%zu bytes of points instead of %zu", data.size(), n * it.info.point_step);
  FidelityStats st;
  d = compareClouds(it.info, it.msg.data.data(), data.data(), n, kAllAspects, st);
  st.report(ctx);
  return d;
}

// the output of one conversion: `items` describe the messages of `in` as they must be now
std::string checkRecording(Ctx& ctx, const Recording& in, const std::vector<Item>& items, bool encoding, const std::string& path, Recording& got) {
  try {
    got = readRecording(path);
  } catch (const Damaged& e) {
    return std::string("the output is damaged: ") + e.what();
  }
  if (got.profile != in.profile) return "profile of the recording '" + got.profile + "'";
  if (got.metadata != in.metadata) return fmt("%zu metadata records instead of %zu, or others", got.metadata.size(), in.metadata.size());
  auto wanted = [&](uint16_t id) -> RSchema {
    if (!id) return {};
    RSchema s = in.schemas.at(id);
    if (encoding && s.name == kRaw) s.name = kComp;
    else if (!encoding && s.name == kComp) s.name = kRaw;
    return s;
  };
  auto channelDiff = [&](const RChannel& a, const RChannel& b) -> std::string {
    if (a.topic != b.topic) return "topic";
    if (a.encoding != b.encoding) return "message encoding '" + b.encoding + "'";
    if (a.metadata != b.metadata) return "channel metadata";
    if (!a.schema || !b.schema) return a.schema == b.schema ? "" : "schema";
    const RSchema want = wanted(a.schema);
    const RSchema& have = got.schemas.at(b.schema);
    if (have.name != want.name) return "schema '" + have.name + "' instead of '" + want.name + "'";
    const bool changed = in.schemas.at(a.schema).name != want.name;
    if (changed) return checkDefinition(have, encoding);
    if (have.encoding != want.encoding || have.data != want.data) return "definition of '" + have.name + "'";
    return "";
  };
  // every channel, also those without messages
  std::multiset<std::string> ta, tb;
  for (auto& [id, c] : in.channels) ta.insert(c.topic + " | " + wanted(c.schema).name);
  for (auto& [id, c] : got.channels) tb.insert(c.topic + " | " + (c.schema ? got.schemas.at(c.schema).name : ""));
  if (ta != tb) return fmt("%zu channels instead of %zu, or others", tb.size(), ta.size());
  // per topic, in order
  if (got.messages.size() != in.messages.size()) return fmt("%zu messages instead of %zu", got.messages.size(), in.messages.size());
  std::map<std::string, std::vector<size_t>> pa, pb;
  for (size_t i = 0; i < in.messages.size(); ++i) pa[in.channels.at(in.messages[i].channel).topic].push_back(i);
  for (size_t i = 0; i < got.messages.size(); ++i) pb[got.channels.at(got.messages[i].channel).topic].push_back(i);
  for (auto& [topic, ia] : pa) {
    const auto& ib = pb[topic];
    if (ia.size() != ib.size()) return fmt("%zu messages instead of %zu on topic ", ib.size(), ia.size()) + topic;
    for (size_t k = 0; k < ia.size(); ++k) {
      const RMessage &a = in.messages[ia[k]], &b = got.messages[ib[k]];
      const std::string at = fmt("message %zu of topic ", k) + topic + ": ";
      if (a.sequence != b.sequence) return at + fmt("sequence %u instead of %u", b.sequence, a.sequence);
      if (a.log != b.log || a.publish != b.publish) return at + "timestamps";
      const std::string d = channelDiff(in.channels.at(a.channel), got.channels.at(b.channel));
      if (!d.empty()) return at + d;
      const Item& it = items[ia[k]];
      const uint16_t sid = in.channels.at(a.channel).schema;
      const std::string sname = sid ? in.schemas.at(sid).name : "";
      const bool converted = sname == (encoding ? kRaw : kComp);
      if (!converted) {
        if (a.data != b.data) return at + "bytes of a message that is not converted";
        ctx.count("messages_copied");
        continue;
      }
      const std::string m = checkMessage(ctx, it, encoding, b.data);
      if (!m.empty()) return at + m + " in " + describe(it.info);
      ctx.count(encoding ? "clouds_encoded" : "clouds_decoded");
      if (it.msg.data.empty()) ctx.count("empty_clouds");
      if (it.viz && encoding) ctx.count("clouds_preprocessed");
    }
  }
  return "";
}

std::string metadataYaml(const Recording& x, const std::string& file) {
  std::string s = "rosbag2_bagfile_information:\n  version: 8\n  storage_identifier: mcap\n  relative_file_paths:\n    - " + file +
                  "\n  duration:\n    nanoseconds: 1\n  message_count: " + fmt("%zu", x.messages.size()) + "\n  topics_with_message_count:\n";
  for (auto& [id, c] : x.channels)
    s += "    - topic_metadata:\n        name: " + c.topic + "\n        type: " + (c.schema ? x.schemas.at(c.schema).name : "") +
         "\n        serialization_format: cdr\n      message_count: 1\n";
  s += "  compression_format: \"\"\n  files:\n    - path: " + file + "\n      message_count: 1\n";
  return s;
}
std::vector<std::string> linesWith(const std::string& text, const std::string& key) {
  std::vector<std::string> out;
  std::istringstream in(text);
  std::string l;
  while (std::getline(in, l)) {
    const size_t at = l.find(key);
    if (!l.empty() && l.back() == '\r') l.pop_back();
    if (at != std::string::npos) out.push_back(l.substr(at + key.size()));
  }
  return out;
}
}  // namespace

void runCase(Ctx& ctx, uint64_t idx) {
  Rng r = ctx.rng();
  const std::string dir = ctx.dir + "/w";
  fs::remove_all(dir);
  fs::create_directory(dir);
  std::string where;
  auto label = [&](const std::vector<std::string>& args) {
    where = "arguments";
    for (auto& a : args) where += " '" + a + "'";
    ctx.label(where);
  };
  auto fail = [&](const char* key, const std::string& what, const Run& x) {
    ctx.violate(key, what + fmt(" (exit %d, %s), ", x.code, x.err.substr(0, 300).c_str()) + where);
  };
  auto opt = [&](std::vector<std::string>& args, const char* s, const char* l, const std::string& v) {
    if (r.chance(0.4)) {
      args.push_back(s);
      args.push_back(v);
    } else {
      args.push_back(std::string(l) + "=" + v);
    }
  };
  Settings s;
  s.viz = r.chance(0.2);
  s.res = r.chance(0.3) ? 0.001f : pickResolution(r, true);
  const bool profile = r.chance(0.45);
  if (profile) s.profile = genProfile(r);
  std::vector<std::string> enc;
  const std::string resText = fmt("%.9g", s.res);
  if (s.res != 0.001f || r.chance(0.5)) opt(enc, "-r", "--resolution", resText);
  s.res = float(strtod(resText.c_str(), nullptr));
  if (s.viz) enc.push_back("--viz");
  auto method = [&](std::vector<std::string>& a) {
    if (r.chance(0.6)) opt(a, "-m", "--method", r.pick<std::string>({"zstd", "none"}));
    if (r.chance(0.3)) a.push_back(r.chance(0.5) ? "-s" : "--stats");
  };
  const int kind = int(idx % 10);
  std::vector<Item> items;
  if (kind <= 6) {  // there and back
    const bool comp = r.chance(0.3);
    Recording in = genRecording(r, s, items, true, comp, r.chance(0.15));
    const bool bag = r.chance(0.35);
    fs::create_directory(dir + "/bag");
    const std::string name = r.pick<std::string>({"a.mcap", "my bag_0.mcap", "x.y.mcap"});
    const std::string path = bag || r.chance(0.3) ? "bag/" + name : name;
    const std::string bytes = writeRecording(r, in);
    std::string yaml = metadataYaml(in, name);
    if (r.chance(0.15)) {  // written on another system
      std::string crlf;
      for (char c : yaml) crlf += c == '\n' ? "\r\n" : std::string(1, c);
      yaml = crlf;
    }
    spit(dir + "/" + path, bytes);
    if (bag) spit(dir + "/bag/metadata.yaml", yaml);
    if (profile) {
      std::string v = s.profile.text;
      if (r.chance(0.4)) {  // from a file
        if (r.chance(0.5)) v += "\n";
        if (r.chance(0.3))
          for (size_t at = 0; (at = v.find(';', at)) != std::string::npos; ++at) v.insert(at + 1, "\n");
        spit(dir + "/profile.txt", v);
        v = "profile.txt";
      }
      enc.push_back("--profile=" + v);
    }
    std::vector<std::string> args = enc;
    args.push_back(r.chance(0.5) ? "-c" : "--compress");
    method(args);
    opt(args, "-f", "--filename", bag && r.chance(0.5) ? (r.chance(0.5) ? "bag" : "bag/") : path);
    const std::string stem = name.substr(0, name.size() - 5);
    std::string out = bag ? "bag_encoded/" + stem + "_encoded.mcap" : stem + "_encoded.mcap";
    if (r.chance(0.6)) {
      std::string given = r.pick<std::string>({"out.mcap", "new/dir/out.mcap", "out", "deep/out.bin"});
      out = given.find(".mcap") == std::string::npos ? given + ".mcap" : given;
      opt(args, "-o", "--output", given);
    }
    std::string answer;
    bool refuse = false;
    const Bytes old = {1, 2, 3};
    if (r.chance(0.2)) {
      fs::create_directories(fs::path(dir + "/" + out).parent_path());
      spit(dir + "/" + out, old);
      switch (r.below(3)) {
        case 0: args.push_back(r.chance(0.5) ? "-y" : "--yes"); break;
        case 1: answer = r.chance(0.5) ? "y\n" : "Y\n"; break;
        default: answer = "n\n"; refuse = true; break;
      }
    }
    label(args);
    Run x = run(bag_tool_main, dir, args, answer);
    if (sanitizer(x)) fail("sanitizer", "sanitizer report", x);
    if (slurp(dir + "/" + path) != Bytes(bytes.begin(), bytes.end())) fail("input-changed", "the input was changed", x);
    if (bag && slurp(dir + "/bag/metadata.yaml") != Bytes(yaml.begin(), yaml.end())) fail("input-changed", "the metadata of the input was changed", x);
    if (refuse) {
      if (slurp(dir + "/" + out) != old) fail("overwritten", "the output was overwritten although the answer was no", x);
      ctx.count("overwrites_declined");
      return;
    }
    if (x.code != 0) {
      fail("refused", "a valid conversion failed", x);
      return;
    }
    for (auto& it : items) applyEncoding(it, s);
    Recording mid;
    std::string d = checkRecording(ctx, in, items, true, dir + "/" + out, mid);
    if (!d.empty()) {
      fail("encoding", d, x);
      return;
    }
    auto checkYaml = [&](const std::string& outPath, bool encoding) {
      const std::string y = (fs::path(dir + "/" + outPath).parent_path() / "metadata.yaml").string();
      if (!fs::exists(y)) {
        fail("bag-metadata", "there is no metadata beside the output", x);
        return;
      }
      const Bytes b = slurp(y);
      const std::string text(b.begin(), b.end()), file = fs::path(outPath).filename().string();
      const auto types = linesWith(text, " type: ");
      size_t i = 0;
      std::string want;
      for (auto& [id, c] : in.channels) {
        want = c.schema ? in.schemas.at(c.schema).name : "";
        if (encoding && want == kRaw) want = kComp;
        else if (!encoding && want == kComp) want = kRaw;
        if (i >= types.size() || types[i] != want) {
          fail("bag-metadata", "type '" + (i < types.size() ? types[i] : std::string()) + "' instead of '" + want + "' in metadata.yaml", x);
          return;
        }
        ++i;
      }
      const auto names = linesWith(text, "    - /"), paths = linesWith(text, "- path: ");
      if (linesWith(text, "    - ").empty() || linesWith(text, "    - ")[0] != file || paths.size() != 1 || paths[0] != file)
        fail("bag-metadata", "metadata.yaml does not name " + file, x);
      ctx.count("bag_metadata_checked");
    };
    if (bag) checkYaml(out, true);
    // back
    std::vector<std::string> args2;
    args2.push_back(r.chance(0.5) ? "-d" : "--decode");
    method(args2);
    opt(args2, "-f", "--filename", out);
    std::string out2 = "back.mcap";
    if (bag || r.chance(0.7)) {
      // (an output beside the metadata.yaml of the input is refused)
      const bool beside = bag && fs::path(out).parent_path().empty();
      out2 = beside ? "b/back.mcap" : r.pick<std::string>({"back.mcap", "b/back.mcap"});
      if (beside) ctx.count("bags_in_the_working_directory");
      opt(args2, "-o", "--output", out2);
    } else {
      out2 = fs::path(out).stem().string() + "_decoded.mcap";
    }
    label(args2);
    x = run(bag_tool_main, dir, args2, "");
    if (sanitizer(x)) fail("sanitizer", "sanitizer report", x);
    if (x.code != 0) {
      fail("refused", "a valid conversion failed", x);
      return;
    }
    Recording back;
    d = checkRecording(ctx, mid, items, false, dir + "/" + out2, back);
    if (!d.empty()) fail("decoding", d, x);
    ctx.count("round_trips");
    ctx.nontrivial(hashBytes(bytes.data(), bytes.size()) ^ hashStr(where));
    if (idx % 301 == 3) ctx.sample(fmt("%zu messages on %zu channels, ", in.messages.size(), in.channels.size()) + where);
    return;
  }
  // requests that cannot be carried out: reported, and the input stays as it is
  const bool decode = r.chance(0.4);
  Recording in = genRecording(r, s, items, !decode, decode || r.chance(0.2), false);
  if (profile && !decode) enc.push_back("--profile=" + s.profile.text);
  std::vector<std::string> args = decode ? std::vector<std::string>{"-d"} : enc;
  if (!decode) args.push_back("-c");
  method(args);
  std::string what, file = "a.mcap", answer;
  bool must_fail = true, valid_input = true;
  mcap::stub::Faults faults;
  std::string bytes;
  auto convertible = [&] {
    std::vector<size_t> v;
    for (size_t i = 0; i < in.messages.size(); ++i)
      if (in.schemas.at(in.channels.at(in.messages[i].channel).schema).name == (decode ? kComp : kRaw)) v.push_back(i);
    return v;
  };
  switch (r.below(15)) {
    case 0: case 1: case 2: {
      what = "output is the input";
      const std::string o = r.pick<std::string>({"a.mcap", "./a.mcap", "a", "dir/../a.mcap", "link.mcap"});
      fs::create_directory(dir + "/dir");
      opt(args, "-o", "--output", o);
      if (r.chance(0.6)) args.push_back("-y");
      else answer = "y\n";
      if (r.chance(0.3)) file = "link.mcap";
    } break;
    case 3: {
      what = "malformed cloud";
      const auto v = convertible();
      if (v.empty()) return;
      Bytes& b = in.messages[v[r.below(v.size())]].data;
      const Item& it = items[v[0]];
      (void)it;
      b.resize(r.below(std::min<size_t>(b.size(), 40)));
    } break;
    case 4: {
      what = "writing a message fails";
      if (in.messages.empty()) return;
      faults.write_message = long(r.below(in.messages.size()));
    } break;
    case 5:
      what = "the summary cannot be read";
      faults.summary = true;
      break;
    case 6:
      what = "metadata cannot be copied";
      if (in.metadata.empty()) return;
      (r.chance(0.5) ? faults.write_metadata : faults.read_record) = true;
      break;
    case 7:
      what = "input that is no recording";
      valid_input = false;
      bytes = std::string(r.below(100), 'x');
      break;
    case 8:
      what = "missing input";
      file = "nowhere.mcap";
      break;
    case 9:
      what = "bad arguments";
      args.push_back(r.pick<std::string>({"--method=lz4", "--nonsense", "-d", "--viz", "--profile=x:abc", "--profile=x", "--profile=a:b:c"}));
      if (args.back() == "-d" && decode) args.push_back("-c");
      if (args.back() == "--viz" && !decode) must_fail = false;
      break;
    case 10: {
      what = "output that cannot be created";
      fs::create_directory(dir + "/o.mcap");
      opt(args, "-o", "--output", "o.mcap");
      args.push_back("-y");
    } break;
    case 11: {
      what = "output beside the metadata of the input";
      spit(dir + "/metadata.yaml", metadataYaml(in, "a.mcap"));
      opt(args, "-o", "--output", r.pick<std::string>({"b.mcap", "./b.mcap", "a.mcap", "../w/b.mcap"}));
      args.push_back("-y");
    } break;
    case 12: {
      what = "damaged recording";  // converted as far as possible, or refused; never silently
      bytes = writeRecording(r, in);
      bytes.resize(30 + r.below(bytes.size() - 30));
      must_fail = false;
    } break;
    case 13: {
      what = "metadata.yaml that cannot be written";
      if (convertible().empty()) return;
      fs::create_directories(dir + "/bag");
      fs::create_directories(dir + "/out");
      spit(dir + "/bag/metadata.yaml", metadataYaml(in, "a.mcap"));
      if (r.chance(0.5)) fs::create_directory(dir + "/out/metadata.yaml");
      else fs::create_symlink("/dev/full", dir + "/out/metadata.yaml");
      fs::create_symlink("../a.mcap", dir + "/bag/a.mcap");
      file = r.chance(0.5) ? "bag/a.mcap" : "bag";
      opt(args, "-o", "--output", "out/b.mcap");
    } break;
    default:
      what = "nothing to convert";
      args.pop_back();
      args.push_back(decode ? "-c" : "-d");
      if (args.size() != 1) return;
      for (auto& [id, sc] : in.schemas)
        if (sc.name == (decode ? kRaw : kComp)) return;
      break;
  }
  if (bytes.empty() && valid_input) bytes = writeRecording(r, in);
  spit(dir + "/a.mcap", bytes);
  fs::create_symlink("a.mcap", dir + "/link.mcap");
  opt(args, "-f", "--filename", file);
  label(args);
  where = what + ": " + where;
  const Run x = run(bag_tool_main, dir, args, answer, faults);
  if (sanitizer(x)) fail("sanitizer", "sanitizer report", x);
  if (x.code >= 1000) fail("crash", "the converter crashed", x);
  if (must_fail && x.code == 0) fail("failure-not-reported", "exit status 0", x);
  if (slurp(dir + "/a.mcap") != Bytes(bytes.begin(), bytes.end())) fail("input-changed", "the input was changed", x);
  if (what == "damaged recording" && x.code == 0 && x.err.empty()) {
    // nothing said: then everything that was in it must be there
    fail("failure-not-reported", "a damaged recording was converted without a word", x);
  }
  ctx.count("requests_refused");
  ctx.nontrivial(hashStr(where) ^ hashBytes(bytes.data(), bytes.size()));
}
void finishWorker(Ctx&) {}
