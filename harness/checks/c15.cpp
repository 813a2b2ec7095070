// C15: the C/WebAssembly interface is a faithful, contained wrapper
#include "cloudini_lib/ros_msg_utils.hpp"
#include "cloudini_lib/wasm_functions.h"
#include "h_cdr.hpp"
#include "h_mut.hpp"
using namespace vh;

uint64_t numCases(const Ctx& c) { return c.thorough() ? 150000 : 9000; }

extern "C" __attribute__((weak)) uint32_t cldn_GetDecodedDataSize(uintptr_t, uint32_t);  // earlier releases lack it

namespace {
constexpr size_t kMany = size_t(24) << 20;  // largest output the checks allocate

uintptr_t addr(const void* p) { return reinterpret_cast<uintptr_t>(p); }

// What the library does for the same request: the bytes, or nothing when it refuses.
using Want = std::optional<Bytes>;
template <class F>
Want lib(F&& f) {
  try {
    return f();
  } catch (const std::exception&) {
    return std::nullopt;
  }
}
// size of a cloud, nothing when it does not fit 32 bits
std::optional<uint64_t> sizeOf(uint64_t w, uint64_t h, uint64_t step) {
  const u128 t = (u128)(w * h) * step;
  if (w * h > 0xffffffffull || t > 0xffffffffull) return std::nullopt;
  return uint64_t(t);
}

struct Api {
  Ctx& ctx;
  Rng& r;
  std::string where;
  bool faults = false;  // also with allocations failing
  uint8_t canary = 0x5A;

  // Calls one exported function with an output block of exactly `room` bytes. Nothing may escape.
  uint32_t call(const char* name, size_t room, Bytes& out, const std::function<uint32_t(uintptr_t)>& f, int fail_in = 0) {
    Block o(room);
    memset(o.p, canary, o.n ? o.n : 1);
    uint32_t res = 0;
    ctx.count("calls");
    try {
      AllocMonitor::failed = false;
      AllocMonitor::fail_in = fail_in;
      res = f(addr(o.p));
      AllocMonitor::fail_in = 0;
    } catch (const std::exception& e) {
      AllocMonitor::fail_in = 0;
      ctx.violate("exception-escaped", fmt("%s let an exception out: %s, ", name, e.what()) + where);
    } catch (...) {
      AllocMonitor::fail_in = 0;
      ctx.violate("exception-escaped", fmt("%s let an exception out, ", name) + where);
    }
    out.assign(o.p, o.p + o.n);
    return res;
  }
  // The function must return what the library produces, or 0.
  void same(const char* name, const Want& want, size_t room, const std::function<uint32_t(uintptr_t)>& f) {
    Bytes out;
    const size_t cap = std::max(room, want ? want->size() : 0);
    const uint32_t got = call(name, cap, out, f);
    if (!want || want->empty()) {
      ctx.count(fmt("refused_%s", name));
      if (got != 0) ctx.violate("failure-not-reported", fmt("%s returned %u although the operation fails, ", name, got) + where);
    } else {
      ctx.count(fmt("done_%s", name));
      if (got != want->size()) ctx.violate("size", fmt("%s returned %u instead of %zu, ", name, got, want->size()) + where);
      else if (memcmp(out.data(), want->data(), want->size()) != 0) ctx.violate("content", fmt("%s wrote other bytes than the library, ", name) + where);
    }
    if (want && !faults) {
      for (size_t i = want->size(); i < out.size() && room != kMany; ++i)
        if (got == want->size() && out[i] != canary && strncmp(name, "Encode", 6) != 0) {
          ctx.violate("overrun", fmt("%s wrote behind the %zu bytes it returned, ", name, want->size()) + where);
          break;
        }
    }
    if (faults)
      for (int k = 0; k < 3; ++k) {
        const uint32_t g = call(name, cap, out, f, int(r.range(1, 12)));
        if (!AllocMonitor::failed) continue;
        ctx.count("calls_with_failed_allocation");
        if (g == 0) continue;
        // a failure may be survived, but then the result must be right
        if (!want || g != want->size() || memcmp(out.data(), want->data(), g) != 0)
          ctx.violate("failure-not-reported", fmt("%s returned %u after a failed allocation, ", name, g) + where);
      }
  }
  void sameNumber(const char* name, std::optional<uint64_t> want, const std::function<uint32_t()>& f) {
    Bytes out;
    const uint32_t got = call(name, 1, out, [&](uintptr_t) { return f(); });
    ctx.count(fmt(want && *want ? "done_%s" : "refused_%s", name));
    if (got != uint32_t(want.value_or(0))) ctx.violate("size", fmt("%s returned %u instead of %llu, ", name, got, (unsigned long long)want.value_or(0)) + where);
    if (faults) {
      const uint32_t g = call(name, 1, out, [&](uintptr_t) { return f(); }, int(r.range(1, 12)));
      if (AllocMonitor::failed && g != 0 && g != got) ctx.violate("size", fmt("%s returned %u after a failed allocation, ", name, g) + where);
    }
  }

  void stream(const Bytes& s) {
    Block in(s);
    const Want yaml = lib([&] {
      ConstBufferView v = in.view();
      const std::string t = EncodingInfoToYAML(DecodeHeader(v));
      return Bytes(t.begin(), t.end());
    });
    same("GetHeaderAsYAML", yaml, 0, [&](uintptr_t o) { return cldn_GetHeaderAsYAML(addr(in.p), uint32_t(in.n), o); });
    std::optional<uint64_t> size;
    const Want data = lib([&]() -> Bytes {
      ConstBufferView v = in.view();
      const EncodingInfo info = DecodeHeader(v);
      size = sizeOf(info.width, info.height, info.point_step);
      if (!size || *size > kMany) throw std::runtime_error("too large");
      Block o(*size);
      memset(o.p, canary, o.n ? o.n : 1);
      PointcloudDecoder dec;
      dec.decode(info, v, o.mview());
      return Bytes(o.p, o.p + o.n);
    });
    if (cldn_GetDecodedDataSize) {
      std::optional<uint64_t> promised;
      lib([&]() -> Bytes {
        ConstBufferView v = in.view();
        const EncodingInfo info = DecodeHeader(v);
        promised = sizeOf(info.width, info.height, info.point_step);
        return {};
      });
      sameNumber("GetDecodedDataSize", promised, [&] { return cldn_GetDecodedDataSize(addr(in.p), uint32_t(in.n)); });
    }
    if (size && *size > kMany) return;  // nobody could have allocated the output
    same("DecodeCompressedData", data, size.value_or(0), [&](uintptr_t o) { return cldn_DecodeCompressedData(addr(in.p), uint32_t(in.n), o); });
  }
  void compressedMessage(const Bytes& msg) {
    Block in(msg);
    cloudini_ros::RosPointCloud2 pc;
    bool readable = true;
    try {
      pc = cloudini_ros::getDeserializedPointCloudMessage(in.view());
    } catch (const std::exception&) {
      readable = false;
    }
    std::optional<uint64_t> size;
    if (readable) size = sizeOf(pc.width, pc.height, pc.point_step);
    sameNumber("GetDecompressedSize", size, [&] { return cldn_GetDecompressedSize(addr(in.p), uint32_t(in.n)); });
    const Want yaml = lib([&]() -> Bytes {
      if (!readable) throw std::runtime_error("unreadable");
      ConstBufferView v = pc.data;
      const std::string t = EncodingInfoToYAML(DecodeHeader(v));
      return Bytes(t.begin(), t.end());
    });
    same("GetHeaderAsYAMLFromDDS", yaml, 0, [&](uintptr_t o) { return cldn_GetHeaderAsYAMLFromDDS(addr(in.p), uint32_t(in.n), o); });
    if (size && *size > kMany) return;
    const Want data = lib([&]() -> Bytes {
      if (!readable || !size) throw std::runtime_error("unreadable");
      ConstBufferView v = pc.data;
      const EncodingInfo info = DecodeHeader(v);
      const auto s = sizeOf(info.width, info.height, info.point_step);
      if (!s || *s > *size) throw std::runtime_error("larger than promised");
      Block o(*s);
      memset(o.p, canary, o.n ? o.n : 1);
      PointcloudDecoder dec;
      dec.decode(info, v, o.mview());
      return Bytes(o.p, o.p + o.n);
    });
    same("DecodeCompressedMessage", data, size.value_or(0), [&](uintptr_t o) { return cldn_DecodeCompressedMessage(addr(in.p), uint32_t(in.n), o); });
    const Want back = lib([&]() -> Bytes {
      if (!readable) throw std::runtime_error("unreadable");
      Bytes b;
      cloudini_ros::convertCompressedCloudToPointCloud2(pc, b);
      return b;
    });
    same("ConvertCompressedMsgToPointCloud2Msg", back, 0,
         [&](uintptr_t o) { return cldn_ConvertCompressedMsgToPointCloud2Msg(addr(in.p), uint32_t(in.n), o); });
  }
  void plainMessage(const Bytes& msg, float res) {
    Block in(msg);
    bool consistent = false;
    const Want enc = lib([&]() -> Bytes {
      cloudini_ros::RosPointCloud2 pc = cloudini_ros::getDeserializedPointCloudMessage(in.view());
      const auto s = sizeOf(pc.width, pc.height, pc.point_step);
      consistent = s && *s == pc.data.size();
      if (!consistent) throw std::runtime_error("dimensions");
      if (!pc.point_step) throw std::runtime_error("point size");
      EncodingInfo info = cloudini_ros::toEncodingInfo(pc);
      for (auto& f : info.fields)
        if (f.type == FieldType::FLOAT32) f.resolution = res;
      return encodeCloud(info, pc.data);
    });
    if (consistent || !enc) {
      if (consistent) sameNumber("ComputeCompressedSize", enc ? std::optional<uint64_t>(enc->size()) : std::nullopt, [&] {
        return cldn_ComputeCompressedSize(addr(in.p), uint32_t(in.n), res);
      });
      else {
        Bytes out;
        call("ComputeCompressedSize", 1, out, [&](uintptr_t) { return cldn_ComputeCompressedSize(addr(in.p), uint32_t(in.n), res); });
      }
    }
    const Want fits = enc && enc->size() <= in.n ? enc : std::nullopt;
    if (enc && !fits) ctx.count("outputs_larger_than_the_input");
    same("EncodePointcloudMessage", fits, in.n, [&](uintptr_t o) { return cldn_EncodePointcloudMessage(addr(in.p), uint32_t(in.n), res, o); });
  }
  void dataWithText(const std::string& yaml, const Bytes& data) {
    Block in(data);
    const Want enc = lib([&]() -> Bytes {
      const EncodingInfo info = EncodingInfoFromYAML(yaml.c_str());
      const auto s = sizeOf(info.width, info.height, info.point_step);
      if (!s || *s != in.n) throw std::runtime_error("dimensions");
      return encodeCloud(info, in.view());
    });
    const Want fits = enc && enc->size() <= in.n ? enc : std::nullopt;
    if (enc && !fits) ctx.count("outputs_larger_than_the_input");
    same("EncodePointcloudData", fits, in.n, [&](uintptr_t o) { return cldn_EncodePointcloudData(yaml.c_str(), addr(in.p), uint32_t(in.n), o); });
  }
};
}  // namespace

void runCase(Ctx& ctx, uint64_t idx) {
  Rng r = ctx.rng();
  LayoutOpts o;
  o.extremes = r.chance(0.02);
  o.max_fields = 6;
  EncodingInfo info = genLayout(r, o);
  if (info.point_step > 2000) return;
  size_t n = r.chance(0.05) ? 0 : r.chance(0.01) ? size_t(r.range(32760, 66000)) : size_t(r.range(1, 300));
  if (n * info.point_step > (4u << 20)) n = 200;
  setDims(r, info, n);
  DataOpts dopt;
  dopt.wild = r.chance(0.1);
  const Bytes data = genData(r, info, n, dopt);
  Api api{ctx, r, describe(info)};
  api.faults = r.chance(0.3);
  api.canary = uint8_t(r.next());
  ctx.label(api.where);
  cdr::Msg m = cdr::genMsg(r, info, data);
  // as the C functions encode: every float with the same resolution
  std::vector<size_t> marks, cmarks;
  const Bytes plain = cdr::write(m, &marks);
  cdr::Msg cm = m;
  cm.compressed = true;
  cm.format = "cloudini";
  cm.data = n ? encodeCloud(info, data) : Bytes();
  if (n && r.chance(0.3)) {  // binary header, as older releases wrote
    Bytes h = ref::binaryHeader(info);
    const size_t hs = headerSize(cm.data);
    h.insert(h.end(), cm.data.begin() + long(hs), cm.data.end());
    cm.data = h;
  }
  const Bytes stream = cm.data;
  if (n && r.chance(0.25)) {  // the stream tells another size than the message
    EncodingInfo i2 = info;
    if (r.chance(0.5)) i2.width = uint32_t(r.pick<uint64_t>({i2.width + 1ull, i2.width * 2ull, i2.width / 2ull, 0, 0xffffffff}));
    else if (r.chance(0.5)) i2.point_step = uint32_t(r.pick<uint64_t>({i2.point_step + 1ull, i2.point_step * 3ull, 0xffffffff}));
    else i2.height = uint32_t(r.pick<uint64_t>({0, i2.height + 1ull, 0x10000}));
    Bytes h = r.chance(0.5) ? ref::yamlHeader(i2) : ref::binaryHeader(i2);
    const size_t hs = headerSize(cm.data);
    h.insert(h.end(), cm.data.begin() + long(hs), cm.data.end());
    cm.data = h;
  }
  const Bytes comp = cdr::write(cm, &cmarks);
  const float res = r.chance(0.9) ? pickResolution(r, true) : r.pick({0.0f, -1.0f, float(NAN), float(INFINITY), 1e-40f, 3e38f});
  api.stream(stream);
  api.compressedMessage(comp);
  api.plainMessage(plain, res);
  EncodingInfo yi = info;
  if (r.chance(0.15)) yi.width += uint32_t(r.range(1, 3));
  api.dataWithText(EncodingInfoToYAML(yi), data);
  // outputs that fit exactly, or are one byte too large
  if (n && r.chance(0.25)) {
    EncodingInfo ei = info;
    const size_t size = encodeCloud(ei, data).size();
    if (size <= data.size() && data.size() - size < 4000) {
      ei.fields[0].name += std::string(data.size() - size, 'n');
      for (int k = 0; k < 2; ++k) {
        api.where = fmt("%d bytes more than the cloud, ", k) + describe(ei);
        api.dataWithText(EncodingInfoToYAML(ei), data);
        ctx.count("outputs_that_fit_exactly");
        ei.fields[0].name += "n";
      }
    }
    cdr::Msg em = m;
    for (int k = 0; k < 4; ++k) {
      const Bytes b = cdr::write(em);
      Block in(b);
      size_t enc = 0;
      try {
        cloudini_ros::RosPointCloud2 pc = cloudini_ros::getDeserializedPointCloudMessage(in.view());
        EncodingInfo i2 = cloudini_ros::toEncodingInfo(pc);
        for (auto& f : i2.fields)
          if (f.type == FieldType::FLOAT32) f.resolution = res;
        enc = encodeCloud(i2, pc.data).size();
      } catch (const std::exception&) {
        break;
      }
      if (enc == b.size() || enc == b.size() + 1) {
        api.where = fmt("message with room for all of the encoding but %zu bytes, ", enc - b.size()) + describe(info);
        api.plainMessage(b, res);
        ctx.count("outputs_that_fit_exactly");
      }
      if (enc > b.size() + 1 && enc - b.size() < 4000) em.frame += std::string((enc - b.size()) / 4 * 4, 'i');
      else if (enc < b.size()) break;
      if (em.fields.empty()) break;
      em.fields.back().name += "n";
    }
  }
  // malformed
  auto corrupt = [&](Bytes b, const std::vector<size_t>* mk, bool little) {
    switch (r.below(mk ? 4 : 2)) {
      case 0: mutateBytes(r, b, int(r.range(1, 3))); break;
      case 1: b.resize(r.below(b.size() + 1)); break;
      default: {
        const size_t at = (*mk)[r.below(mk->size())];
        const uint32_t v = r.pick<uint32_t>({0, 1, 0xffffffff, 0x7fffffff, 0x80000000, uint32_t(r.next()), uint32_t(r.below(300)), 0x10000});
        for (int i = 0; i < 4; ++i) b[at + size_t(i)] = uint8_t(v >> (8 * (little ? i : 3 - i)));
      }
    }
    return b;
  };
  for (int k = 0; k < 4; ++k) {
    api.where = "malformed variant of " + describe(info);
    if (!stream.empty()) api.stream(corrupt(stream, nullptr, true));
    api.compressedMessage(corrupt(comp, &cmarks, cm.little));
    api.plainMessage(corrupt(plain, &marks, m.little), res);
    std::string y = EncodingInfoToYAML(info);
    Bytes yb = corrupt(Bytes(y.begin(), y.end()), nullptr, true);
    y.assign(yb.begin(), yb.end());
    y = y.c_str();
    api.dataWithText(y, data);
  }
  // dimensions whose product fits only when it is cut to 32 bits
  if (r.chance(0.3)) {
    EncodingInfo wi = info;
    if (wrappingDims(r, n, wi.width, wi.height)) {
      api.where = fmt("%ux%u points, ", wi.width, wi.height) + describe(info);
      Bytes s;
      if (!stream.empty()) {
        s = r.chance(0.5) ? ref::yamlHeader(wi) : ref::binaryHeader(wi);
        s.insert(s.end(), stream.begin() + long(headerSize(stream)), stream.end());
        api.stream(s);
      }
      cdr::Msg w = m;
      w.width = wi.width;
      w.height = wi.height;
      api.plainMessage(cdr::write(w), res);
      w.compressed = true;
      w.format = "cloudini";
      w.data = r.chance(0.5) ? s : stream;
      api.compressedMessage(cdr::write(w));
      api.dataWithText(EncodingInfoToYAML(wi), data);
      ctx.count("wrapping_dimensions");
    }
  }
  // points so large that the buffers of a chunk do not fit in 32 bits
  if (sizeof(size_t) == 4 && r.chance(0.1)) {
    EncodingInfo hi = info;
    hi.point_step = 131072u * uint32_t(r.range(1, 8)) + uint32_t(r.below(3)) - 1;
    setDims(r, hi, size_t(r.range(1, 8)));
    api.where = describe(hi);
    Bytes hd(size_t(hi.width) * hi.height * hi.point_step);
    r.fill(hd.data(), 4096);
    api.plainMessage(cdr::write(cdr::genMsg(r, hi, hd)), res);
    api.dataWithText(EncodingInfoToYAML(hi), hd);
    ctx.count("huge_points");
  }
  // functions given the wrong kind of input
  if (r.chance(0.2)) {
    api.where = "wrong kind of input";
    api.stream(comp);
    api.stream(Bytes());
    api.compressedMessage(plain);
    api.compressedMessage(Bytes());
    api.plainMessage(comp, res);
    api.plainMessage(Bytes(), res);
    api.dataWithText("", data);
  }
  ctx.nontrivial(hashBytes(comp.data(), comp.size()) ^ hashBytes(plain.data(), plain.size()));
  if (idx % 2003 == 3) ctx.sample(describe(info) + fmt(" n=%zu", n));
}
void finishWorker(Ctx&) {}
