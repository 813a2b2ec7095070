// C24: independent encoders and decoders may be used from many threads
#include <atomic>
#include <thread>

#include "cloudini_lib/ros_msg_utils.hpp"
#include "cloudini_lib/wasm_functions.h"
#include "h_cdr.hpp"
#include "h_mut.hpp"
using namespace vh;

uint64_t numCases(const Ctx& c) { return c.thorough() ? 12000 : 1100; }

namespace {
// Read-only inputs of one case, shared by all threads.
struct Input {
  EncodingInfo info;
  size_t n = 0;
  Bytes data, stream, plain, comp, broken;
  std::string yaml;
  cloudini_ros::RosPointCloud2 parsed;  // refers to `plain`
};

std::unique_ptr<Input> makeInput(Rng& r, int kind) {
  auto in = std::make_unique<Input>();
  LayoutOpts o;
  o.extremes = false;
  o.max_fields = 6;
  if (kind == 1) o.force_lead = 3;
  in->info = genLayout(r, o);
  if (kind == 1) {
    in->info.encoding_opt = EncodingOptions::LOSSY;
    for (size_t i = 1; i < 3 && i < in->info.fields.size(); ++i) in->info.fields[i].resolution = in->info.fields[0].resolution;
  }
  in->n = r.chance(0.04) ? size_t(r.range(32760, 70000)) : r.chance(0.3) ? size_t(r.range(300, 3000)) : size_t(r.range(1, 300));
  setDims(r, in->info, in->n);
  DataOpts d;
  d.wild = false;
  in->data = genData(r, in->info, in->n, d);
  in->stream = encodeCloud(in->info, in->data);
  const cdr::Msg m = cdr::genMsg(r, in->info, in->data);
  in->plain = cdr::write(m);
  cdr::Msg c = m;
  c.compressed = true;
  c.format = "cloudini";
  c.data = in->stream;
  in->comp = cdr::write(c);
  in->broken = in->stream;
  mutateBytes(r, in->broken, 2);
  in->yaml = EncodingInfoToYAML(in->info);
  in->parsed = cloudini_ros::getDeserializedPointCloudMessage(ConstBufferView(in->plain.data(), in->plain.size()));
  for (size_t i = 0; i < in->info.fields.size(); ++i) in->parsed.fields[i].resolution = in->info.fields[i].resolution;
  return in;
}

constexpr int kOps = 18;
const char* opName(int op) {
  static const char* const names[kOps] = {"encode", "encode_into_buffer", "decode", "decode_broken", "reused_objects", "header", "text", "read_message",
                                    "compress_message", "restore_message", "profile", "viz", "c_header", "c_sizes", "c_decode", "c_convert",
                                    "c_encode", "refused"};
  return names[op];
}
uintptr_t addr(const void* p) { return reinterpret_cast<uintptr_t>(p); }

// One operation on objects of its own; the result as a hash of everything observable.
uint64_t perform(int op, const Input& in, uint64_t choice) {
  uint64_t h = mix64(uint64_t(op));
  auto add = [&](const void* p, size_t n) { h = hashBytes(p, n, h); };
  auto addStr = [&](const std::string& s) { add(s.data(), s.size()); };
  auto msg = [&](const cloudini_ros::RosPointCloud2& m) {
    addStr(m.ros_header.frame_id);
    h = mix64(h ^ m.width) + m.height * 3ull + m.point_step * 5ull + m.row_step * 7ull + m.is_dense;
    for (auto& f : m.fields) {
      addStr(f.name);
      h = mix64(h ^ (uint64_t(f.offset) << 8 | uint64_t(f.type))) + (f.resolution ? hashBytes(&*f.resolution, 4) : 1);
    }
    if (m.data.size()) add(m.data.data(), m.data.size());
  };
  const ConstBufferView data(in.data.data(), in.data.size());
  try {
    switch (op) {
      case 0: {
        EncodingInfo i = in.info;
        i.use_threads = choice & 1;
        const Bytes b = encodeCloud(i, data);
        add(b.data(), b.size());
      } break;
      case 1: {
        Bytes b(MaxCompressedSize(in.info, in.n, true));
        PointcloudEncoder enc(in.info);
        BufferView v(b.data(), b.size());
        const size_t k = enc.encode(data, v, true);
        add(b.data(), k);
        h ^= b.size();
      } break;
      case 2: {
        const Decoded d = decodeStream(in.stream, uint8_t(choice));
        add(d.data.data(), d.data.size());
        h ^= infoClass(d.info);
      } break;
      case 3: {
        ConstBufferView v(in.broken.data(), in.broken.size());
        EncodingInfo i = DecodeHeader(v);
        if (uint64_t(i.width) * i.height * i.point_step > (8u << 20)) break;
        Bytes out(size_t(i.width) * i.height * i.point_step, 7);
        PointcloudDecoder dec;
        try {
          dec.decode(i, v, BufferView(out.data(), out.size()));
          add(out.data(), out.size());
        } catch (const std::exception&) {
          h ^= 0xdead;
        }
      } break;
      case 4: {
        PointcloudEncoder enc(in.info);
        PointcloudDecoder dec;
        Bytes b;
        for (int k = 0; k < 2; ++k) {
          enc.encode(data, b);
          add(b.data(), b.size());
          ConstBufferView v(b.data(), b.size());
          const EncodingInfo i = DecodeHeader(v);
          Bytes out(in.data.size(), 3);
          dec.decode(i, v, BufferView(out.data(), out.size()));
          add(out.data(), out.size());
        }
      } break;
      case 5: {
        Bytes b;
        EncodeHeader(in.info, b);
        add(b.data(), b.size());
        EncodeHeader(in.info, b, HeaderEncoding::BINARY);
        add(b.data(), b.size());
        ConstBufferView v(b.data(), b.size());
        addStr(EncodingInfoToYAML(DecodeHeader(v)));
      } break;
      case 6: addStr(EncodingInfoToYAML(EncodingInfoFromYAML(in.yaml))); break;
      case 7: {
        const auto m = cloudini_ros::getDeserializedPointCloudMessage(ConstBufferView(in.plain.data(), in.plain.size()));
        msg(m);
        cloudini_ros::RosPointCloud2 copy = in.parsed;  // copies of a shared value
        const cloudini_ros::RosPointCloud2 moved = std::move(copy);
        msg(moved);
      } break;
      case 8: {
        EncodingInfo i = cloudini_ros::toEncodingInfo(in.parsed);
        i.compression_opt = CompressionOption(choice % 3);
        i.use_threads = (choice >> 8) & 1;
        Bytes b;
        cloudini_ros::convertPointCloud2ToCompressedCloud(in.parsed, i, b);
        add(b.data(), b.size());
      } break;
      case 9: {
        const auto m = cloudini_ros::getDeserializedPointCloudMessage(ConstBufferView(in.comp.data(), in.comp.size()));
        Bytes b;
        cloudini_ros::convertCompressedCloudToPointCloud2(m, b);
        add(b.data(), b.size());
      } break;
      case 10: {
        cloudini_ros::ResolutionProfile prof;
        prof[in.info.fields[choice % in.info.fields.size()].name] = (choice >> 16) & 1 ? 0.0f : 0.25f;
        cloudini_ros::RosPointCloud2 m = in.parsed;
        cloudini_ros::applyResolutionProfile(prof, m.fields, 0.01f);
        msg(m);
      } break;
      case 11: {
        cloudini_ros::RosPointCloud2 m = in.parsed;
        cloudini_ros::applyVizLossyPreprocessing(m);
        msg(m);
        const cloudini_ros::RosPointCloud2 c = m;
        cloudini_ros::applyVizLossyPreprocessing(m);
        msg(m);
        msg(c);
      } break;
      case 12: {
        Bytes o(8192 + 20 * in.stream.size());
        const uint32_t k = cldn_GetHeaderAsYAML(addr(in.stream.data()), uint32_t(in.stream.size()), addr(o.data()));
        add(o.data(), k);
        const uint32_t l = cldn_GetHeaderAsYAMLFromDDS(addr(in.comp.data()), uint32_t(in.comp.size()), addr(o.data()));
        add(o.data(), l);
      } break;
      case 13:
        h = mix64(h ^ cldn_ComputeCompressedSize(addr(in.plain.data()), uint32_t(in.plain.size()), 0.01f));
        h = mix64(h ^ cldn_GetDecompressedSize(addr(in.comp.data()), uint32_t(in.comp.size())));
        break;
      case 14: {
        Bytes o(in.data.size(), 9);
        h = mix64(h ^ cldn_DecodeCompressedData(addr(in.stream.data()), uint32_t(in.stream.size()), addr(o.data())));
        add(o.data(), o.size());
        h = mix64(h ^ cldn_DecodeCompressedMessage(addr(in.comp.data()), uint32_t(in.comp.size()), addr(o.data())));
        add(o.data(), o.size());
      } break;
      case 15: {
        Bytes o(in.plain.size() + 64, 9);
        const uint32_t k = cldn_ConvertCompressedMsgToPointCloud2Msg(addr(in.comp.data()), uint32_t(in.comp.size()), addr(o.data()));
        add(o.data(), k);
      } break;
      case 16: {
        Bytes o(in.plain.size(), 9);
        uint32_t k = cldn_EncodePointcloudMessage(addr(in.plain.data()), uint32_t(in.plain.size()), 0.01f, addr(o.data()));
        add(o.data(), k);
        k = cldn_EncodePointcloudData(in.yaml.c_str(), addr(in.data.data()), uint32_t(in.data.size()), addr(o.data()));
        add(o.data(), k);
      } break;
      default: {  // a request that is refused, then the same encoder again
        PointcloudEncoder enc(in.info);
        Bytes b;
        try {
          enc.encode(ConstBufferView(in.data.data(), in.data.size() - (in.info.point_step > 1 ? 1 : 0)), b);
        } catch (const std::exception&) {
          h ^= 0xbad;
        }
        enc.encode(data, b);
        add(b.data(), b.size());
      } break;
    }
  } catch (const std::exception& e) {
    addStr(e.what());
  }
  return h;
}

struct Step {
  int op;
  size_t input;
  uint64_t choice;
  int pause;  // before it
  uint64_t result = 0, begin = 0, end = 0;
};
}  // namespace

void runCase(Ctx& ctx, uint64_t idx) {
  Rng r = ctx.rng();
  std::vector<std::unique_ptr<Input>> inputs;
  const size_t ni = size_t(r.range(2, 4));
  for (size_t i = 0; i < ni; ++i) inputs.push_back(makeInput(r, r.chance(0.5) ? 1 : 0));
  const size_t nt = size_t(r.range(2, 6));
  std::vector<std::vector<Step>> plan(nt);
  const bool same = r.chance(0.4);  // all threads do the same kind of thing
  const int kind = int(r.below(kOps));
  for (auto& p : plan)
    for (int k = int(r.range(2, 5)); k; --k)
      p.push_back({same && r.chance(0.8) ? kind : int(r.below(kOps)), size_t(r.below(ni)), r.next(), r.chance(0.3) ? int(r.range(1, 200)) : 0, 0, 0, 0});
  ctx.label(fmt("%zu threads, kind %s%s", nt, same ? opName(kind) : "any", idx < 8 ? ", first use" : ""));
  // alone first or together first: what is built on first use is built together in the first cases of a process
  auto alone = [&](std::vector<uint64_t>& out) {
    for (auto& p : plan)
      for (auto& s : p) out.push_back(perform(s.op, *inputs[s.input], s.choice));
  };
  std::vector<uint64_t> expected;
  const bool alone_first = idx >= 8 && r.chance(0.5);
  if (alone_first) alone(expected);
  std::atomic<int> ready{0};
  std::atomic<uint64_t> clock{0};
  std::vector<std::thread> threads;
  for (size_t t = 0; t < nt; ++t)
    threads.emplace_back([&, t] {
      ready.fetch_add(1, std::memory_order_relaxed);
      while (ready.load(std::memory_order_relaxed) < int(nt)) std::this_thread::yield();
      for (auto& s : plan[t]) {
        if (s.pause) std::this_thread::sleep_for(std::chrono::microseconds(s.pause));
        s.begin = clock.fetch_add(1, std::memory_order_relaxed);
        s.result = perform(s.op, *inputs[s.input], s.choice);
        s.end = clock.fetch_add(1, std::memory_order_relaxed);
      }
    });
  for (auto& t : threads) t.join();
  if (!alone_first) alone(expected);
  size_t k = 0;
  uint64_t overlap = 0, order = mix64(nt);
  std::vector<std::pair<uint64_t, uint64_t>> events;
  for (size_t t = 0; t < nt; ++t)
    for (auto& s : plan[t]) {
      if (s.result != expected[k])
        ctx.violate("result-differs", fmt("%s of %s gives another result among %zu threads than alone", opName(s.op), describe(inputs[s.input]->info).c_str(), nt));
      ++k;
      ctx.count(fmt("op_%s", opName(s.op)));
      if (s.end > s.begin + 1) ++overlap;
      events.push_back({s.begin, t * 64 + uint64_t(s.op)});
      events.push_back({s.end, 1000 + t});
    }
  std::sort(events.begin(), events.end());
  for (auto& e : events) order = mix64(order ^ e.second);
  ctx.count("operations", k);
  ctx.count("operations_overlapping_others", overlap);
  ctx.nontrivial(order);
  if (idx % 301 == 3) {
    std::string s = fmt("%zu threads:", nt);
    for (auto& p : plan) {
      s += " [";
      for (auto& x : p) s += fmt("%s@%llu-%llu ", opName(x.op), (unsigned long long)x.begin, (unsigned long long)x.end);
      s += "]";
    }
    ctx.sample(s);
  }
}
void finishWorker(Ctx&) {}
