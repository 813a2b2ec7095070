// C28, C29: the C functions over the memory of the JavaScript side, and generated messages with what the library makes of them.
#define VH_NO_MAIN
#include <node_api.h>

#include "cloudini_lib/ros_msg_utils.hpp"
#include "cloudini_lib/wasm_functions.h"
#include "h_cdr.hpp"
#include "h_mut.hpp"
using namespace vh;

extern "C" __attribute__((weak)) uint32_t cldn_GetDecodedDataSize(uintptr_t, uint32_t);  // releases before 1.3 lack it

namespace {
napi_value undef(napi_env e) {
  napi_value v;
  napi_get_undefined(e, &v);
  return v;
}
napi_value num(napi_env e, double d) {
  napi_value v;
  napi_create_double(e, d, &v);
  return v;
}
napi_value boolean(napi_env e, bool b) {
  napi_value v;
  napi_get_boolean(e, b, &v);
  return v;
}
napi_value text(napi_env e, const std::string& s) {
  napi_value v;
  napi_create_string_utf8(e, s.data(), s.size(), &v);
  return v;
}
napi_value bytes(napi_env e, const Bytes& b) {
  napi_value ab, v;
  void* p = nullptr;
  napi_create_arraybuffer(e, b.size(), &p, &ab);
  if (!b.empty()) memcpy(p, b.data(), b.size());
  napi_create_typedarray(e, napi_uint8_array, b.size(), ab, 0, &v);
  return v;
}
void set(napi_env e, napi_value o, const char* k, napi_value v) { napi_set_named_property(e, o, k, v); }
std::vector<napi_value> args(napi_env e, napi_callback_info i) {
  size_t n = 10;
  std::vector<napi_value> a(n);
  napi_get_cb_info(e, i, &n, a.data(), nullptr, nullptr);
  a.resize(n);
  return a;
}
double number(napi_env e, napi_value v) {
  double d = 0;
  napi_get_value_double(e, v, &d);
  return d;
}

// what a stream holds: its size, and its contents when the library decodes them
void expectation(napi_env e, napi_value o, const Bytes& stream) {
  Block in(stream);
  try {
    ConstBufferView v = in.view();
    const EncodingInfo info = DecodeHeader(v);
    const u128 size = (u128)info.width * info.height * info.point_step;
    set(e, o, "streamSize", num(e, double(size)));
    if (size > (size_t(48) << 20)) return;
    Bytes out[2];  // bytes that belong to no field are not written
    for (int k = 0; k < 2; ++k) {
      out[k].assign(size_t(size), k ? 0xFF : 0);
      PointcloudDecoder dec;
      dec.decode(info, v, BufferView(out[k].data(), out[k].size()));
    }
    Bytes mask(size_t(size), 0);
    for (size_t k = 0; k < mask.size(); ++k) mask[k] = out[0][k] == out[1][k] ? 0xFF : 0;
    set(e, o, "expect", bytes(e, out[0]));
    set(e, o, "mask", bytes(e, mask));
  } catch (const std::exception&) {
  }
}

napi_value message(napi_env e, const cdr::Msg& m) {
  napi_value o, fields;
  napi_create_object(e, &o);
  set(e, o, "sec", num(e, m.sec));
  set(e, o, "nsec", num(e, m.nsec));
  set(e, o, "frame", text(e, m.frame));
  set(e, o, "height", num(e, m.height));
  set(e, o, "width", num(e, m.width));
  set(e, o, "point_step", num(e, m.point_step));
  set(e, o, "row_step", num(e, m.row_step));
  set(e, o, "is_dense", boolean(e, m.dense));
  set(e, o, "data", bytes(e, m.data));
  napi_create_array_with_length(e, m.fields.size(), &fields);
  for (size_t i = 0; i < m.fields.size(); ++i) {
    napi_value f;
    napi_create_object(e, &f);
    set(e, f, "name", text(e, m.fields[i].name));
    set(e, f, "offset", num(e, m.fields[i].offset));
    set(e, f, "datatype", num(e, m.fields[i].type));
    set(e, f, "count", num(e, 1));
    napi_set_element(e, fields, uint32_t(i), f);
  }
  set(e, o, "fields", fields);
  return o;
}

struct Made {
  EncodingInfo info;
  size_t n;
  Bytes data;
  cdr::Msg m;
};
Made make(Rng& r, int big) {
  Made c;
  LayoutOpts o;
  o.extremes = false;
  o.versions = {3, 4, 5, 5};
  o.max_fields = 7;
  do c.info = genLayout(r, o);
  while (c.info.point_step > 500);
  c.n = r.chance(0.05) ? 0 : r.chance(0.2) ? size_t(r.range(1, 4)) : size_t(r.range(1, 500));
  if (big) c.n = size_t(big) / c.info.point_step + 1 + r.below(1000);
  setDims(r, c.info, c.n);
  DataOpts d;
  d.wild = r.chance(0.1);
  c.data = genData(r, c.info, c.n, d);
  c.m = cdr::genMsg(r, c.info, c.data);
  return c;
}

// compressed(seed, case, variant, big): variant 0 is right, the others are not
napi_value compressed(napi_env e, napi_callback_info i) {
  const auto a = args(e, i);
  const uint64_t seed = uint64_t(number(e, a[0])), idx = uint64_t(number(e, a[1])), variant = uint64_t(number(e, a[2]));
  Rng r(mix64(seed * 0x9E37) ^ mix64(idx + 77));
  Made c = make(r, int(number(e, a[3])));
  Bytes stream = c.n ? encodeCloud(c.info, c.data) : Bytes();
  auto withHeader = [&](const EncodingInfo& h) {
    Bytes b = r.chance(0.5) ? ref::yamlHeader(h) : ref::binaryHeader(h);
    b.insert(b.end(), stream.begin() + long(headerSize(stream)), stream.end());
    stream = b;
  };
  if (c.n && r.chance(0.3)) withHeader(c.info);
  std::string what = fmt("variant %d of ", int(variant)) + describe(c.info) + fmt(" n=%zu", c.n);
  cdr::Msg& m = c.m;
  m.data = stream;
  if (variant) {
    Rng q(mix64(seed + 99) ^ mix64(idx * 16 + variant));
    EncodingInfo h = c.info;
    switch (q.below(8)) {
      case 0:
        if (!m.data.empty()) mutateBytes(q, m.data, int(q.range(1, 3)));
        break;
      case 1: m.data.resize(q.below(m.data.size() + 1)); break;
      case 2: case 3:  // the stream tells another size than the message
        if (!c.n) break;
        switch (q.below(5)) {
          case 0: h.width += uint32_t(q.range(1, 2000)); break;
          case 1: h.width = uint32_t(q.below(h.width + 1)); break;
          case 2: h.height = uint32_t(q.pick({0, 2, 3, 17, 0x10000, -1})); break;
          case 3: h.point_step += uint32_t(q.range(1, 400)); break;
          default: h.point_step = uint32_t(q.below(h.point_step + 1)); break;
        }
        if (q.chance(0.6)) {  // decodable, with the other size
          const size_t n = size_t(h.width) * h.height;
          if (n && n < 200000 && n * h.point_step < (4u << 20) && h.point_step >= c.info.point_step) {
            Bytes d2(n * h.point_step, 7);
            stream = encodeCloud(h, d2);
            m.data = stream;
            break;
          }
        }
        withHeader(h);
        m.data = stream;
        break;
      case 4: m.width = q.pick<uint32_t>({0, m.width + 1, m.width / 2, 0x10000, 0xffffffffu, m.width * 2}); break;
      case 5: m.height = q.pick<uint32_t>({0, m.height + 1, m.height / 2, 0x10000, 0xffffffffu, m.height * 2}); break;
      case 6: m.point_step = q.pick<uint32_t>({0, m.point_step + 1, m.point_step / 2, 0x10000, 0xffffffffu}); break;
      default: {  // the size of the cloud fits only when it is cut to 32 bits
        wrappingDims(q, c.n, m.width, m.height);
        if (q.chance(0.5)) break;
        const size_t k = size_t(q.range(1, 3000));  // and the stream has another one
        EncodingInfo w = c.info;
        setDims(q, w, k);
        Bytes d2(k * w.point_step, 7);
        m.data = encodeCloud(w, d2);
      }
    }
  }
  napi_value o = message(e, m);
  set(e, o, "what", text(e, what));
  expectation(e, o, m.data);
  return o;
}

// plain(seed, case, big): a serialized message and its compressed size, 0 when the library refuses it
napi_value plain(napi_env e, napi_callback_info i) {
  const auto a = args(e, i);
  const uint64_t seed = uint64_t(number(e, a[0])), idx = uint64_t(number(e, a[1]));
  Rng r(mix64(seed * 0x9E37) ^ mix64(idx + 7777));
  Made c = make(r, int(number(e, a[2])));
  Bytes b = cdr::write(c.m);
  std::string what = describe(c.info) + fmt(" n=%zu", c.n);
  if (r.chance(0.15)) {
    what = "damaged " + what;
    if (r.chance(0.5)) b.resize(r.below(b.size()));
    else mutateBytes(r, b, int(r.range(1, 4)));
  }
  Block in(b);
  double size = 0;
  try {
    size = cldn_ComputeCompressedSize(reinterpret_cast<uintptr_t>(in.p), uint32_t(in.n), 0.001f);
  } catch (...) {
  }
  napi_value o;
  napi_create_object(e, &o);
  set(e, o, "what", text(e, what));
  set(e, o, "data", bytes(e, b));
  set(e, o, "size", num(e, size));
  return o;
}

// call(name, memory, ...): arguments as WebAssembly gets them, numbers cut to 32 bits; undefined when there is no such function
napi_value call(napi_env e, napi_callback_info i) {
  const auto a = args(e, i);
  char name[100] = "";
  size_t len = 0;
  napi_get_value_string_utf8(e, a[0], name, sizeof name, &len);
  void* p = nullptr;
  size_t n = 0;
  if (napi_get_arraybuffer_info(e, a[1], &p, &n) != napi_ok) return undef(e);
  const uintptr_t base = reinterpret_cast<uintptr_t>(p);
  auto u = [&](size_t k) -> uint32_t {
    if (k >= a.size()) return 0;
    const double d = number(e, a[k]);
    if (!std::isfinite(d)) return 0;
    return uint32_t(int64_t(std::fmod(std::trunc(d), 4294967296.0)));
  };
  // an input outside of the memory traps
  auto inside = [&](size_t at, size_t size) { return uint64_t(u(at)) + u(size) <= n; };
  const std::string f = name;
  double res = -1;
  if (!inside(2, 3)) {
    napi_throw_error(e, nullptr, "memory access out of bounds");
    return undef(e);
  }
  if (f == "_cldn_GetHeaderAsYAML") res = cldn_GetHeaderAsYAML(base + u(2), u(3), base + u(4));
  else if (f == "_cldn_GetHeaderAsYAMLFromDDS") res = cldn_GetHeaderAsYAMLFromDDS(base + u(2), u(3), base + u(4));
  else if (f == "_cldn_ComputeCompressedSize") res = cldn_ComputeCompressedSize(base + u(2), u(3), float(number(e, a[4])));
  else if (f == "_cldn_GetDecompressedSize") res = cldn_GetDecompressedSize(base + u(2), u(3));
  else if (f == "_cldn_GetDecodedDataSize" && cldn_GetDecodedDataSize) res = cldn_GetDecodedDataSize(base + u(2), u(3));
  else if (f == "_cldn_DecodeCompressedData") res = cldn_DecodeCompressedData(base + u(2), u(3), base + u(4));
  else if (f == "_cldn_DecodeCompressedMessage") res = cldn_DecodeCompressedMessage(base + u(2), u(3), base + u(4));
  else if (f == "_cldn_ConvertCompressedMsgToPointCloud2Msg") res = cldn_ConvertCompressedMsgToPointCloud2Msg(base + u(2), u(3), base + u(4));
  else if (f == "_cldn_EncodePointcloudMessage") res = cldn_EncodePointcloudMessage(base + u(2), u(3), float(number(e, a[4])), base + u(5));
  if (res < 0) return undef(e);
  return num(e, double(int32_t(uint32_t(res))));  // the result of a function is a signed number there
}
}  // namespace

NAPI_MODULE_INIT() {
  const std::pair<const char*, napi_callback> fs[] = {{"compressed", compressed}, {"plain", plain}, {"call", call}};
  for (auto& [name, f] : fs) {
    napi_value v;
    napi_create_function(env, name, NAPI_AUTO_LENGTH, f, nullptr, &v);
    napi_set_named_property(env, exports, name, v);
  }
  return exports;
}
