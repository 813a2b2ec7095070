// C20: makes compressed messages, valid and corrupted, together with what the C++ library decodes from them.
#define VH_NO_MAIN
#include "cloudini_lib/ros_msg_utils.hpp"
#include "cloudini_lib/wasm_functions.h"
#include "h_cdr.hpp"
#include "h_mut.hpp"
using namespace vh;

namespace {
struct Case {
  Bytes msg;
  std::string head;  // what the stream says, one item per line; empty when the library refuses the message
  Bytes data;
  std::string what;
};
Case g;

// the library's own decoding, without the C functions the Python decoder calls
void reference() {
  g.head.clear();
  g.data.clear();
  Block in(g.msg);
  try {
    const auto pc = cloudini_ros::getDeserializedPointCloudMessage(in.view());
    const uint64_t promised = uint64_t(pc.width) * pc.height;
    if (promised > 0xffffffffull || promised * pc.point_step > (uint64_t(96) << 20)) {
      g.head = "skip";
      return;
    }
    ConstBufferView v = pc.data;
    const EncodingInfo info = DecodeHeader(v);
    const uint64_t pts = uint64_t(info.width) * info.height;
    if (pts > 0xffffffffull || pts * info.point_step > promised * pc.point_step) return;  // more than promised: refused
    Bytes out(pts * info.point_step, 0);
    PointcloudDecoder dec;
    dec.decode(info, v, BufferView(out.data(), out.size()));
    std::string h = fmt("%d\x1e%u\x1e%u\x1e%u\x1e%s\x1e%s\x1e", int(info.version), info.width, info.height, info.point_step,
                        ToString(info.encoding_opt), ToString(info.compression_opt));
    for (auto& f : info.fields) {
      h += f.name + "\x1f" + fmt("%u\x1f%s\x1f", f.offset, ToString(f.type));
      if (f.resolution) h += fmt("%a", double(*f.resolution));
      h += "\x1e";
    }
    g.head = h;
    g.data = out;
  } catch (const std::exception&) {
    g.head.clear();
  }
}
}  // namespace

extern "C" {
// variant 0 is the message itself, the others corrupt it
void vh_make(uint64_t seed, uint64_t idx, int variant, int big) {
  Rng r(mix64(seed * 0x9E37) ^ mix64(idx + 77));
  LayoutOpts o;
  o.extremes = r.chance(0.03);
  o.versions = {3, 4, 5, 5};
  o.max_fields = 9;
  EncodingInfo info = genLayout(r, o);
  if (info.point_step > 2000) info = genLayout(r, LayoutOpts{.extremes = false});
  size_t n = r.chance(0.03) ? 0 : r.chance(0.02) ? size_t(r.range(32760, 66000)) : r.chance(0.2) ? size_t(r.range(1, 4)) : size_t(r.range(1, 400));
  if (big == 2) n = (size_t(300) << 10) / info.point_step + 1;  // for long histories
  else if (big) n = (size_t(33) << 20) / info.point_step + 1 + r.below(1000);  // more than the decoder's first buffer
  else if (n * info.point_step > (size_t(4) << 20)) n = 200;
  if (r.chance(0.5))
    for (size_t i = 0; i < info.fields.size(); ++i) {  // realistic and awkward names, all different
      static const char* names[] = {"intensity", "ring", "t", "timestamp", "rgb", "a:b", "x y", "-z", "123", "null", "1e5", "é", "fields", "name", "offset", "#n", "q'r\"s", "\"q\"", " lead", "trail ", "n#m", "new\nline", "t\tb\\u", "~"};
      if (r.chance(0.3)) info.fields[i].name = std::string(names[r.below(24)]) + (r.chance(0.5) && i ? fmt("_%zu", i) : fmt("%zu", i));
    }
  if (r.chance(0.05))  // long names: the description is far longer than usual
    for (size_t i = 0; i < info.fields.size(); ++i) info.fields[i].name = fmt("n%zu_", i) + std::string(r.below(600), char('a' + i % 26));
  setDims(r, info, n);
  DataOpts dopt;
  dopt.wild = r.chance(0.1);
  const Bytes data = genData(r, info, n, dopt);
  cdr::Msg m = cdr::genMsg(r, info, data);
  m.compressed = true;
  m.format = "cloudini";
  m.data = n ? encodeCloud(info, data) : Bytes();
  if (n && r.chance(0.3)) {  // binary header, as older releases wrote
    Bytes h = ref::binaryHeader(info);
    const size_t hs = headerSize(m.data);
    h.insert(h.end(), m.data.begin() + long(hs), m.data.end());
    m.data = h;
  }
  g.what = describe(info) + fmt(" n=%zu", n);
  std::vector<size_t> marks;
  if (variant) {
    Rng q(mix64(seed + 99) ^ mix64(idx * 16 + uint64_t(variant)));
    g.what = fmt("variant %d of ", variant) + g.what;
    const size_t hs = n ? headerSize(m.data) : 0;
    switch (q.below(6)) {
      case 0: {  // the payload
        Bytes p(m.data.begin() + long(hs), m.data.end());
        mutateBytes(q, p, int(q.range(1, 3)));
        m.data.resize(hs);
        m.data.insert(m.data.end(), p.begin(), p.end());
        g.msg = cdr::write(m);
      } break;
      case 1:  // cut stream
        m.data.resize(q.below(m.data.size() + 1));
        g.msg = cdr::write(m);
        break;
      case 2:  // the header of the stream
        if (n) {
          EncodingInfo i2 = info;
          switch (q.below(6)) {
            case 0: i2.width += uint32_t(q.range(1, 9)); break;
            case 1: i2.width = uint32_t(q.below(i2.width + 1)); break;
            case 2: i2.height = uint32_t(q.pick({0, 2, 3, 0x10000, -1})); break;
            case 3: i2.point_step = uint32_t(q.below(i2.point_step + 9)); break;
            case 4: i2.fields.resize(q.below(i2.fields.size() + 1)); break;
            default: i2.fields[q.below(i2.fields.size())].type = FieldType(q.below(13)); break;
          }
          Bytes h = q.chance(0.5) ? ref::yamlHeader(i2) : ref::binaryHeader(i2);
          h.insert(h.end(), m.data.begin() + long(hs), m.data.end());
          m.data = h;
        }
        g.msg = cdr::write(m);
        break;
      case 3: {  // the integers of the message
        g.msg = cdr::write(m, &marks);
        const size_t at = marks[q.below(marks.size())];
        const uint32_t v = q.pick<uint32_t>({0, 1, 0xffffffff, 0x7fffffff, 0x80000000, uint32_t(q.next()), uint32_t(q.below(300)), 0x10000});
        for (int i = 0; i < 4; ++i) g.msg[at + size_t(i)] = uint8_t(v >> (8 * (m.little ? i : 3 - i)));
      } break;
      case 4: {
        g.msg = cdr::write(m);
        g.msg.resize(q.below(g.msg.size() + 1));
      } break;
      default:
        g.msg = cdr::write(m);
        mutateBytes(q, g.msg, int(q.range(1, 3)));
    }
  } else {
    g.msg = cdr::write(m);
  }
  reference();
}
const uint8_t* vh_msg(uint64_t* n) { *n = g.msg.size(); return g.msg.data(); }
const char* vh_head(uint64_t* n) { *n = g.head.size(); return g.head.data(); }
const uint8_t* vh_data(uint64_t* n) { *n = g.data.size(); return g.data.data(); }
const char* vh_what() { return g.what.c_str(); }

// the exported functions, called by the stand-in for the WebAssembly runtime; -1 when an exception escapes
int64_t vh_call(int which, uint64_t in, uint32_t n, uint64_t out) {
  try {
    switch (which) {
      case 0: return cldn_DecodeCompressedMessage(in, n, out);
      case 1: return cldn_GetHeaderAsYAMLFromDDS(in, n, out);
      default: return cldn_GetDecompressedSize(in, n);
    }
  } catch (...) {
    return -1;
  }
}
}
