// C08: encoders and decoders carry no history from one cloud to the next
#include "h_cloud.hpp"
using namespace vh;

uint64_t numCases(const Ctx& c) { return c.thorough() ? 20000 : 2600; }

static Bytes fresh(const EncodingInfo& info, const Bytes& data, int fill) {
  AllocMonitor::fill = fill;
  Bytes b = encodeCloud(info, data);
  AllocMonitor::fill = -1;
  return b;
}

static void encoderHistory(Ctx& ctx, Rng& r) {
  LayoutOpts o;
  o.max_fields = 6;
  if (r.chance(0.5)) o.versions = {5};
  if (r.chance(0.5)) o.encodings = {1};
  EncodingInfo info = genLayout(r, o);
  setDims(r, info, size_t(r.range(1, 100)));
  PointcloudEncoder enc(info);
  const int steps = int(r.range(2, 7));
  std::string history;
  for (int s = 0; s < steps; ++s) {
    const double u = r.uniform();
    if (u < 0.25) {  // a call that fails, in one of several ways
      const size_t n = pickCountFor(r, info);
      Bytes data = genData(r, info, std::min<size_t>(n, 5000));
      std::string what;
      bool threw = false;
      switch (r.below(3)) {
        case 0: {
          if (info.point_step < 2) break;
          Bytes bad(data.begin(), data.end() - long(1 + r.below(info.point_step - 1)));
          Block in(bad);
          Bytes out;
          threw = throwsException([&] { enc.encode(in.view(), out); }, &what);
          history += "partial-point ";
        } break;
        case 1: {
          Block in(data);
          Block out(size_t(r.below(64)));
          BufferView v = out.mview();
          threw = throwsException([&] { enc.encode(in.view(), v, r.chance(0.5)); }, &what);
          history += "small-buffer ";
        } break;
        default: {
          Bytes out;
          threw = throwsException([&] { enc.encode(ConstBufferView(), out); }, &what);
          history += "empty ";
          threw = true;
        }
      }
      if (threw) ctx.count("failed_or_empty_calls_in_between");
      continue;
    }
    const size_t n = pickCountFor(r, info);
    const Bytes data = genData(r, info, n);
    Block in(data);
    Bytes got;
    const uint64_t before = hashBytes(in.p, in.n);
    const bool twice = r.chance(0.3);
    for (int k = 0; k < (twice ? 2 : 1); ++k) {
      if (r.chance(0.7)) {
        if (r.chance(0.3)) got.assign(r.below(10000), 0xEE);  // left-overs in the caller's vector
        enc.encode(in.view(), got);
      } else {
        const bool hdr = r.chance(0.5);
        Block out(MaxCompressedSize(info, n, true) + r.below(100));
        r.fill(out.p, out.n);
        BufferView v = out.mview();
        const size_t sz = enc.encode(in.view(), v, hdr);
        got.clear();
        if (!hdr) got = enc.getHeader();
        got.insert(got.end(), out.p, out.p + std::min(sz, out.n));
      }
      if (hashBytes(in.p, in.n) != before) ctx.violate("input-modified", "the encoder modified its input in " + describe(info));
      const Bytes a = fresh(info, data, 0xA7);
      const Bytes b = fresh(info, data, 0x3C);
      if (a != b) {
        ctx.violate("not-deterministic", fmt("two encoders produce different bytes (%zu, %zu) for n=%zu in ", a.size(), b.size(), n) + describe(info));
        return;
      }
      if (a != got) {
        size_t at = 0;
        while (at < a.size() && at < got.size() && a[at] == got[at]) ++at;
        ctx.violate("encoder-history", fmt("after [%s] n=%zu: %zu bytes instead of %zu, first difference at %zu in ", history.c_str(), n,
                                           got.size(), a.size(), at) + describe(info));
        return;
      }
      ctx.count("encodes_compared_with_a_fresh_encoder");
      ctx.nontrivial(hashBytes(got.data(), got.size()) ^ hashStr(history));
    }
    history += fmt("n=%zu ", n);
  }
  if (ctx.idx % 397 == 4) ctx.sample("encoder: " + history + "in " + describe(info));
}

static void decoderHistory(Ctx& ctx, Rng& r) {
  PointcloudDecoder dec;
  std::string history;
  const int steps = int(r.range(2, 7));
  EncodingInfo info;
  for (int s = 0; s < steps; ++s) {
    if (s == 0 || r.chance(0.5)) {
      LayoutOpts o;
      o.max_fields = 6;
      info = genLayout(r, o);
    }
    const size_t n = pickCountFor(r, info);
    setDims(r, info, n);
    const Bytes data = genData(r, info, n);
    Bytes stream = encodeCloud(info, data);
    const size_t h = headerSize(stream);
    const uint8_t canary = uint8_t(r.next());
    const bool corrupt = r.chance(0.35);
    if (corrupt) {
      const int kind = int(r.below(4));
      if (kind == 0) stream.resize(h + r.below(stream.size() - h));
      if (kind == 1 && stream.size() > h) stream[h + r.below(stream.size() - h)] ^= uint8_t(1 + r.below(255));
      if (kind == 2) stream.push_back(uint8_t(r.next()));
      if (kind == 3 && stream.size() > h + 8)
        for (int k = 0; k < 5; ++k) stream[h + r.below(stream.size() - h)] = uint8_t(r.next());
    }
    Block payload(stream.data() + h, stream.size() - h);
    Block out1(data.size()), out2(data.size());
    memset(out1.p, canary, out1.n);
    memset(out2.p, canary, out2.n);
    std::string e1, e2;
    const uint64_t before = hashBytes(payload.p, payload.n);
    AllocMonitor::fill = 0x77;
    const bool t1 = throwsException([&] { dec.decode(info, payload.view(), out1.mview()); }, &e1);
    AllocMonitor::fill = 0xC9;
    const bool t2 = throwsException([&] { PointcloudDecoder f; f.decode(info, payload.view(), out2.mview()); }, &e2);
    AllocMonitor::fill = -1;
    if (hashBytes(payload.p, payload.n) != before) ctx.violate("input-modified", "the decoder modified its input in " + describe(info));
    if (t1 != t2) {
      ctx.violate("decoder-history-status", fmt("after [%s]: reused decoder %s (%s), fresh one %s (%s) in ", history.c_str(),
                                                t1 ? "fails" : "succeeds", e1.c_str(), t2 ? "fails" : "succeeds", e2.c_str()) + describe(info));
      return;
    }
    if (!t1 && memcmp(out1.p, out2.p, out1.n) != 0) {
      ctx.violate("decoder-history", fmt("after [%s] a reused decoder gives a different cloud (n=%zu) in ", history.c_str(), n) + describe(info));
      return;
    }
    ctx.count(t1 ? "decodes_failed_in_between" : "decodes_compared_with_a_fresh_decoder");
    ctx.nontrivial(hashBytes(stream.data(), stream.size()) ^ hashStr(history));
    history += fmt("%s n=%zu %s/%s%s; ", corrupt ? "corrupted" : "valid", n, ToString(info.encoding_opt), ToString(info.compression_opt),
                   hasAdaptive(info) ? " v5" : "");
  }
  if (ctx.idx % 397 == 5) ctx.sample("decoder: " + history);
}

void runCase(Ctx& ctx, uint64_t idx) {
  Rng r = ctx.rng();
  ctx.label(idx % 2 ? "decoder history" : "encoder history");
  if (idx % 2) decoderHistory(ctx, r);
  else encoderHistory(ctx, r);
  if (const int f = AllocMonitor::fill; f != -1) AllocMonitor::fill = -1;
}
void finishWorker(Ctx&) {}
