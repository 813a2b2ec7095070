// Recordings for the checks of the MCAP tools: an own reader and writer, a generator, and the tools' main() in a child process.
#pragma once
#include <fcntl.h>
#include <sys/stat.h>
#include <sys/wait.h>
#include <unistd.h>

#include <csignal>
#include <filesystem>
#include <fstream>
#include <iostream>
#include <set>
#include <sstream>

#include <mcap/reader.hpp>
#include <mcap/types.hpp>
#include <mcap/writer.hpp>

#include "h_cdr.hpp"
#include "h_viz.hpp"

namespace rec_ns {
using namespace vh;
namespace fs = std::filesystem;
const std::string kRaw = "sensor_msgs/msg/PointCloud2", kComp = "point_cloud_interfaces/msg/CompressedPointCloud2";

inline Bytes slurp(const std::string& p) {
  std::ifstream f(p, std::ios::binary);
  return Bytes((std::istreambuf_iterator<char>(f)), std::istreambuf_iterator<char>());
}
inline void spit(const std::string& p, const Bytes& b) {
  std::ofstream f(p, std::ios::binary);
  f.write(reinterpret_cast<const char*>(b.data()), std::streamsize(b.size()));
}
inline void spit(const std::string& p, const std::string& b) { spit(p, Bytes(b.begin(), b.end())); }

// ---------------------------------------------------------------- recordings, with an own reader and writer
struct RSchema {
  std::string name, encoding, data;
};
struct RChannel {
  std::string topic, encoding;
  uint16_t schema = 0;
  std::map<std::string, std::string> metadata;
};
struct RMessage {
  uint16_t channel = 0;
  uint32_t sequence = 0;
  uint64_t log = 0, publish = 0;
  Bytes data;
};
struct Recording {
  std::string profile;
  std::map<uint16_t, RSchema> schemas;
  std::map<uint16_t, RChannel> channels;
  std::vector<RMessage> messages;
  std::multimap<std::string, std::map<std::string, std::string>> metadata;
};
inline void rec(std::string& out, mcap::OpCode op, const std::string& body) {
  mcap::stub::put<uint8_t>(out, uint8_t(op));
  mcap::stub::put<uint64_t>(out, body.size());
  out += body;
}
inline mcap::KeyValueMap kv(const std::map<std::string, std::string>& m) { return mcap::KeyValueMap(m.begin(), m.end()); }
inline std::string writeRecording(Rng& r, const Recording& x, bool footer = true) {
  using namespace mcap::stub;
  std::string out(kMagic, 8), b;
  putS(b, x.profile);
  putS(b, "generated");
  rec(out, mcap::OpCode::Header, b);
  auto metas = [&] {
    for (auto& [n, m] : x.metadata) {
      b.clear();
      putS(b, n);
      putMap(b, kv(m));
      rec(out, mcap::OpCode::Metadata, b);
    }
  };
  const bool meta_first = r.chance(0.5);
  auto defs = [&] {
    for (auto& [id, s] : x.schemas) {
      b.clear();
      put(b, id);
      putS(b, s.name);
      putS(b, s.encoding);
      putS(b, s.data);
      rec(out, mcap::OpCode::Schema, b);
    }
    for (auto& [id, c] : x.channels) {
      b.clear();
      put(b, id);
      putS(b, c.topic);
      putS(b, c.encoding);
      put(b, c.schema);
      putMap(b, kv(c.metadata));
      rec(out, mcap::OpCode::Channel, b);
    }
  };
  const bool defs_first = r.chance(0.5);
  if (meta_first) metas();
  if (defs_first) defs();
  for (auto& m : x.messages) {
    b.clear();
    put(b, m.channel);
    put(b, m.sequence);
    put(b, m.log);
    put(b, m.publish);
    b.append(reinterpret_cast<const char*>(m.data.data()), m.data.size());
    rec(out, mcap::OpCode::Message, b);
  }
  if (!defs_first) defs();
  if (!meta_first) metas();
  if (footer) rec(out, mcap::OpCode::Footer, "");
  return out;
}
struct Damaged : std::runtime_error {
  using std::runtime_error::runtime_error;
};
inline Recording readRecording(const std::string& path) {
  const Bytes f = slurp(path);
  if (f.size() < 8 || memcmp(f.data(), mcap::stub::kMagic, 8) != 0) throw Damaged("no recording");
  Recording x;
  mcap::stub::Parser p{reinterpret_cast<const char*>(f.data()), f.size(), 8};
  bool footer = false;
  while (p.at < p.n) {
    const auto op = mcap::OpCode(p.get<uint8_t>());
    const std::string body = p.str();
    if (p.bad) throw Damaged("cut record");
    mcap::stub::Parser q{body.data(), body.size()};
    switch (op) {
      case mcap::OpCode::Header: x.profile = q.str(); break;
      case mcap::OpCode::Schema: {
        const uint16_t id = q.get<uint16_t>();
        RSchema s;
        s.name = q.str();
        s.encoding = q.str();
        s.data = q.str();
        x.schemas[id] = s;
      } break;
      case mcap::OpCode::Channel: {
        const uint16_t id = q.get<uint16_t>();
        RChannel c;
        c.topic = q.str();
        c.encoding = q.str();
        c.schema = q.get<uint16_t>();
        auto m = mcap::stub::getMap(q);
        c.metadata.insert(m.begin(), m.end());
        x.channels[id] = c;
      } break;
      case mcap::OpCode::Message: {
        RMessage m;
        m.channel = q.get<uint16_t>();
        m.sequence = q.get<uint32_t>();
        m.log = q.get<uint64_t>();
        m.publish = q.get<uint64_t>();
        m.data.assign(body.begin() + long(q.at), body.end());
        x.messages.push_back(m);
      } break;
      case mcap::OpCode::Metadata: {
        const std::string n = q.str();
        auto m = mcap::stub::getMap(q);
        x.metadata.emplace(n, std::map<std::string, std::string>(m.begin(), m.end()));
      } break;
      case mcap::OpCode::Footer: footer = true; break;
      default: break;
    }
    if (q.bad) throw Damaged("invalid record");
  }
  if (!footer) throw Damaged("unfinished");
  for (auto& m : x.messages)
    if (!x.channels.count(m.channel)) throw Damaged("message of an unknown channel");
  for (auto& [id, c] : x.channels)
    if (c.schema && !x.schemas.count(c.schema)) throw Damaged("channel with an unknown schema");
  return x;
}

// the fields a message definition declares, in order
inline std::vector<std::string> definition(const std::string& text) {
  std::vector<std::string> out;
  std::istringstream in(text);
  std::string line;
  while (std::getline(in, line)) {
    if (line.rfind("====", 0) == 0) {
      out.push_back("====");
      continue;
    }
    const size_t h = line.find('#');
    if (h != std::string::npos) line.resize(h);
    std::istringstream l(line);
    std::string a, b, c;
    if (l >> a) {
      l >> b;
      if (a == "MSG:") out.push_back("MSG: " + b);
      else if (b.find('=') == std::string::npos && !(l >> c && c == "=")) out.push_back(a + " " + b);  // constants left out
    }
  }
  return out;
}
inline std::string joined(const std::vector<std::string>& v) {
  std::string s;
  for (auto& x : v) s += x + ";";
  return s;
}
// everything the serialized form depends on must be declared
inline std::string checkDefinition(const RSchema& s, bool compressed) {
  if (s.encoding != "ros2msg") return "definition declared as '" + s.encoding + "'";
  const auto d = definition(s.data);
  const std::vector<std::string> head = compressed
      ? std::vector<std::string>{"std_msgs/Header header", "uint32 height", "uint32 width", "sensor_msgs/PointField[] fields", "bool is_bigendian", "uint32 point_step", "uint32 row_step", "uint8[] compressed_data", "bool is_dense", "string format"}
      : std::vector<std::string>{"std_msgs/Header header", "uint32 height", "uint32 width", "PointField[] fields", "bool is_bigendian", "uint32 point_step", "uint32 row_step", "uint8[] data", "bool is_dense"};
  auto norm = [](std::string x) {
    for (const char* p : {"sensor_msgs/msg/", "sensor_msgs/", "std_msgs/msg/", "std_msgs/", "builtin_interfaces/msg/", "builtin_interfaces/"}) {
      size_t at;
      while ((at = x.find(p)) != std::string::npos) x.erase(at, strlen(p));
    }
    return x;
  };
  size_t i = 0;
  for (auto& h : head) {
    if (i >= d.size() || norm(d[i]) != norm(h)) return "definition declares '" + (i < d.size() ? d[i] : std::string("nothing")) + "' where the message has '" + h + "'";
    ++i;
  }
  if (i < d.size() && d[i] != "====") return "definition declares '" + d[i] + "' in addition";
  std::string rest;
  for (; i < d.size(); ++i) rest += norm(d[i]) + ";";
  for (const char* need : {"MSG: Header;Time stamp;string frame_id;", "MSG: PointField;string name;uint32 offset;uint8 datatype;uint32 count;", "MSG: Time;int32 sec;uint32 nanosec;"})
    if (rest.find(need) == std::string::npos && std::string(need).find("Time;int32") == std::string::npos) return std::string("definition lacks ") + need;
  return "";
}

// ---------------------------------------------------------------- running the tool
struct Run {
  int code = 0;
  std::string err, out;
};
inline Run run(int (*tool_main)(int, char**), const std::string& dir, std::vector<std::string> args, const std::string& answer, mcap::stub::Faults faults = {}) {
  args.insert(args.begin(), "tool");
  const std::string in = dir + ".stdin", err = dir + ".stderr", outp = dir + ".stdout";
  spit(in, answer);
  fflush(nullptr);
  const pid_t pid = fork();
  if (pid == 0) {
    if (chdir(dir.c_str()) != 0) _exit(99);
    const int fi = open(in.c_str(), O_RDONLY), fo = open(outp.c_str(), O_WRONLY | O_CREAT | O_TRUNC, 0600), fe = open(err.c_str(), O_WRONLY | O_CREAT | O_TRUNC, 0600);
    dup2(fi, 0);
    dup2(fo, 1);
    dup2(fe, 2);
    mcap::stub::faults = faults;
    std::vector<char*> argv;
    for (auto& a : args) argv.push_back(a.data());
    argv.push_back(nullptr);
    int rc = 134;  // an exception that leaves main() aborts the real program
    try {
      rc = tool_main(int(args.size()), argv.data());
    } catch (const std::exception& e) {
      std::cerr << "terminate: " << e.what() << std::endl;
    } catch (...) {
    }
    std::cout.flush();
    _exit(rc);
  }
  int st = 0;
  waitpid(pid, &st, 0);
  Run res;
  res.code = WIFEXITED(st) ? WEXITSTATUS(st) : 1000 + WTERMSIG(st);
  const Bytes e = slurp(err), o = slurp(outp);
  res.err.assign(e.begin(), e.end());
  res.out.assign(o.begin(), o.end());
  return res;
}
inline bool sanitizer(const Run& x) {
  return x.code == 77 || x.err.find("AddressSanitizer") != std::string::npos || x.err.find("runtime error:") != std::string::npos;
}

// ---------------------------------------------------------------- contents
// what a message must be after a conversion
struct Item {
  enum Kind { kOther, kCloud, kCompressed } kind = kOther;
  cdr::Msg msg;         // the cloud, uncompressed
  EncodingInfo info;    // with the resolutions it has been stored with
  bool viz = false;     // preprocessing applies
  viz::Cloud vc;
};
struct Profile {
  std::map<std::string, float> entries;
  std::string text;
};
inline Profile genProfile(Rng& r) {
  Profile p;
  const int k = int(r.range(1, 4));
  auto sp = [&] { return std::string(r.chance(0.4) ? r.below(3) : 0, r.chance(0.8) ? ' ' : '\t'); };
  for (int i = 0; i < k; ++i) {
    const std::string name = r.pick<std::string>({"xyz", "xyz", "f3", "f4", "f5", "x", "z", "intensity", "f0", "f1", "f2", "nothing"});
    const bool remove = r.chance(0.35);
    const float res = pickResolution(r, true);
    const std::string value = remove ? (r.chance(0.8) ? "remove" : "0") : fmt("%.9g", res);
    const float v = remove ? 0.0f : strtof(value.c_str(), nullptr);
    if (name == "xyz") p.entries["x"] = p.entries["y"] = p.entries["z"] = v;
    else p.entries[name] = v;
    p.text += (i ? std::string(";") : "") + sp() + name + sp() + ":" + sp() + value + sp();
  }
  return p;
}
inline void applyModel(EncodingInfo& info, const Profile& p, float res) {
  std::vector<PointField> out;
  for (auto f : info.fields) {
    f.resolution.reset();
    auto it = p.entries.find(f.name);
    if (it != p.entries.end() && it->second == 0.0f) continue;
    if (it != p.entries.end()) f.resolution = it->second;
    else if (f.type == FieldType::FLOAT32) f.resolution = res;
    out.push_back(f);
  }
  info.fields = out;
}
inline Item genCloud(Rng& r, float res, const Profile& prof, bool viz) {
  Item it;
  it.kind = Item::kCloud;
  const bool empty = r.chance(0.06);
  const size_t n = empty ? 0 : r.chance(0.03) ? pickCount(r) : size_t(r.range(1, 250));
  if (viz && r.chance(0.8)) {
    it.viz = true;
    it.vc = viz::gen(r, n, 0, res);
    const auto& m = it.vc.msg;
    it.info.fields = m.fields;
    it.info.point_step = m.point_step;
    it.info.width = m.width;
    it.info.height = m.height;
    for (size_t i = 0; i < it.info.fields.size(); ++i) it.info.fields[i].name = fmt("v%zu", i);
    const Bytes data(it.vc.bytes->p, it.vc.bytes->p + it.vc.bytes->n);
    it.msg = cdr::genMsg(r, it.info, data);
  } else {
    LayoutOpts o;
    o.extremes = false;
    it.info = genLayout(r, o);
    while (viz && it.info.fields.size() >= 3 && it.info.fields[2].type == FieldType::FLOAT32) it.info = genLayout(r, o);  // no triple
    setDims(r, it.info, n);
    if (!n && r.chance(0.5)) it.info.height = uint32_t(r.below(2));
    for (size_t i = 0; i < it.info.fields.size(); ++i) {
      auto& f = it.info.fields[i];
      f.name = i < 3 && r.chance(0.7) ? std::string(1, char('x' + i)) : fmt("f%zu", i);
      if (i == 3 && r.chance(0.4)) f.name = "intensity";
    }
    EncodingInfo model = it.info;  // the data must fit the resolutions it will be stored with
    model.version = kEncodingVersion;
    model.encoding_opt = EncodingOptions::LOSSY;
    for (auto& f : model.fields) f.resolution.reset();
    for (auto& f : model.fields) {
      auto e = prof.entries.find(f.name);
      if (e != prof.entries.end() && e->second != 0) f.resolution = e->second;
      else if (f.type == FieldType::FLOAT32) f.resolution = res;
    }
    DataOpts d;
    d.wild = false;
    it.msg = cdr::genMsg(r, it.info, genData(r, model, n, d));
  }
  it.info.version = kEncodingVersion;
  it.info.encoding_opt = EncodingOptions::LOSSY;
  for (auto& f : it.info.fields) f.resolution.reset();
  return it;
}
// a compressed message that some other program wrote
inline Bytes compressForeign(Rng& r, Item& it) {
  cdr::Msg m = it.msg;
  m.compressed = true;
  m.format = "cloudini";
  it.info.encoding_opt = EncodingOptions(r.pick({1, 1, 2, 0}));
  it.info.version = uint8_t(r.pick({3, 4, 5, 5}));
  it.info.compression_opt = CompressionOption(r.below(3));
  for (auto& f : it.info.fields) f.resolution = f.type == FieldType::FLOAT32 && r.chance(0.7) ? std::optional<float>(0.001f) : std::nullopt;
  if (!it.msg.data.empty()) {
    DataOpts d;
    d.wild = false;
    it.msg.data = genData(r, it.info, size_t(it.info.width) * it.info.height, d);
    m.data = encodeCloud(it.info, it.msg.data);
  }
  it.kind = Item::kCompressed;
  return cdr::write(m);
}

// what has been done to the clouds of kind kCloud: nothing, or compressed with these settings
struct Settings {
  float res = 0.001f;
  Profile profile;
  bool viz = false;
};
inline void applyEncoding(Item& it, const Settings& s) {
  if (it.kind != Item::kCloud) return;
  it.kind = Item::kCompressed;
  applyModel(it.info, s.profile, s.res);
  it.msg.fields.clear();
  for (auto& f : it.info.fields) it.msg.fields.push_back({f.name, f.offset, uint8_t(f.type), 1});
  if (s.viz && it.viz) {
    // with a profile that touches the coordinates there is no triple: the generator avoids the names
    if (it.vc.n) {
      for (auto& f : it.info.fields)
        if (f.type == FieldType::FLOAT64 && !f.resolution) f.resolution = 1e-6f;
      it.msg.data = it.vc.kept;
      it.msg.width = it.info.width = uint32_t(it.vc.kept_points);
      it.msg.height = it.info.height = 1;
      it.msg.row_step = it.msg.width * it.msg.point_step;
    }
  }
}

inline Recording genRecording(Rng& r, const Settings& s, std::vector<Item>& items, bool raw, bool comp, bool schemaless) {
  Recording x;
  x.profile = r.pick<std::string>({"ros2", "", "other profile"});
  // ids in no particular order, with gaps
  std::set<uint16_t> used;
  auto newId = [&] {
    for (;;) {
      const uint16_t id = uint16_t(r.chance(0.6) ? r.range(1, 12) : r.range(1, 65535));
      if (used.insert(id).second) return id;
    }
  };
  auto text = [&](size_t n) { return cdr::randomText(r, n); };
  std::vector<uint16_t> raws, comps, others;
  auto schema = [&](const std::string& name, std::vector<uint16_t>& list) {
    const uint16_t id = newId();
    x.schemas[id] = {name, r.chance(0.8) ? "ros2msg" : "ros2idl", text(r.below(40))};
    list.push_back(id);
  };
  if (raw) for (int k = r.chance(0.2) ? 2 : 1; k > 0; --k) schema(kRaw, raws);
  if (comp) for (int k = r.chance(0.2) ? 2 : 1; k > 0; --k) schema(kComp, comps);
  for (int k = int(r.below(4)); k > 0; --k)
    schema(r.pick<std::string>({"std_msgs/msg/String", "sensor_msgs/msg/PointCloud", "sensor_msgs/msg/Image", "sensor_msgs/PointCloud2", "point_cloud_interfaces/msg/CompressedPointCloud", "sensor_msgs/msg/PointCloud2Array", ""}), others);
  used.clear();
  std::vector<uint16_t> rc, cc, oc;
  auto channel = [&](uint16_t sid, std::vector<uint16_t>& list) {
    const uint16_t id = newId();
    RChannel c;
    c.topic = r.pick<std::string>({"/points", "/a", "/b", "/c/d", "/lidar", "", "/sensor_msgs/msg/PointCloud2"}) + (r.chance(0.6) ? fmt("%d", int(id)) : "");
    c.encoding = "cdr";
    // (one topic of both kinds would be listed as one of them: not part of what is checked)
    if (&list == &cc) c.topic += r.chance(0.5) ? "/compressed" : "_c";
    c.schema = sid;
    for (int k = int(r.below(3)); k > 0; --k) c.metadata[r.pick<std::string>({"offered_qos_profiles", "topic_type_hash", "x"})] = text(r.below(60));
    if (r.chance(0.1))
      for (int k = int(r.below(9)); k > 0; --k) c.metadata[text(r.below(12))] = text(r.below(r.chance(0.9) ? 20 : 3000));
    if (&list == &oc && r.chance(0.3)) c.encoding = "json";
    x.channels[id] = c;
    list.push_back(id);
  };
  for (auto s2 : raws) for (int k = int(r.range(1, 3)); k > 0; --k) channel(s2, rc);
  for (auto s2 : comps) for (int k = int(r.range(1, 3)); k > 0; --k) channel(s2, cc);
  for (auto s2 : others) for (int k = int(r.below(3)); k > 0; --k) channel(s2, oc);
  if (schemaless) channel(0, oc);
  std::vector<uint16_t> all;
  for (auto* l : {&rc, &cc, &oc}) all.insert(all.end(), l->begin(), l->end());
  const int n = int(all.empty() || r.chance(0.05) ? 0 : r.chance(0.99) ? r.range(1, 14) : r.range(50, 300));
  uint64_t t = r.chance(0.5) ? r.below(1ull << 60) : r.below(100);
  for (int i = 0; i < n; ++i) {
    RMessage m;
    Item it;
    m.channel = all[r.below(all.size())];
    m.sequence = uint32_t(r.chance(0.6) ? uint64_t(i) : r.next());
    t += r.chance(0.8) ? r.below(1000) : 0;
    m.log = r.chance(0.8) ? t : r.next() >> 1;
    m.publish = r.chance(0.5) ? m.log : r.chance(0.6) ? r.next() : r.chance(0.7) ? 0 : UINT64_MAX;
    const uint16_t sid = x.channels[m.channel].schema;
    const std::string sname = sid ? x.schemas[sid].name : "";
    if (sname == kRaw) {
      it = genCloud(r, s.res, s.profile, s.viz);
      m.data = cdr::write(it.msg);
    } else if (sname == kComp) {
      it = genCloud(r, 0.001f, {}, false);
      m.data = compressForeign(r, it);
    } else if (r.chance(0.3)) {  // looks like a cloud
      Item c = genCloud(r, 0.001f, {}, false);
      m.data = r.chance(0.5) ? cdr::write(c.msg) : compressForeign(r, c);
    } else {
      m.data.resize(r.below(r.chance(0.9) ? 60 : 5000));
      r.fill(m.data.data(), m.data.size());
    }
    x.messages.push_back(m);
    items.push_back(it);
  }
  for (int k = int(r.below(3)); k > 0; --k) {
    std::map<std::string, std::string> m;
    for (int q = int(r.below(4)); q > 0; --q) m[text(r.below(8))] = text(r.below(30));
    x.metadata.emplace(r.chance(0.5) ? "rosbag2" : text(5), m);
  }
  return x;
}
}  // namespace rec_ns
