// C10: incomplete or over-long streams are rejected, never decoded silently
#include "h_cloud.hpp"
#include "h_ref.hpp"
using namespace vh;

uint64_t numCases(const Ctx& c) { return c.thorough() ? 40000 : 5000; }

static bool decodes(const EncodingInfo& info, const uint8_t* p, size_t n, size_t out_size, std::string* what = nullptr) {
  Block in(p, n);
  Block out(out_size);
  memset(out.p, 0x11, out.n);
  return !throwsException([&] { PointcloudDecoder d; d.decode(info, in.view(), out.mview()); }, what);
}

static bool decodesAdaptively(const EncodingInfo& info) {
  for (size_t k = 0; k < info.fields.size(); ++k)
    if (ref::kindOf(info, k) == ref::kAdaptive) return true;
  return false;
}

void runCase(Ctx& ctx, uint64_t idx) {
  Rng r = ctx.rng();
  LayoutOpts o;
  o.max_fields = 5;
  EncodingInfo info = genLayout(r, o);
  const bool exhaustive = idx % 5 != 0;
  size_t n = exhaustive ? size_t(r.range(1, 60)) : pickCountFor(r, info);
  if (!exhaustive && r.chance(0.4)) n = std::min<size_t>(size_t(r.pick({32768, 32769, 65536, 65537, 98304})), std::max<size_t>(1, (24u << 20) / info.point_step));
  setDims(r, info, n);
  ctx.label(describe(info));
  const Bytes data = genData(r, info, n);
  const Bytes stream = encodeCloud(info, data);
  const size_t h = headerSize(stream);
  const uint8_t* p = stream.data() + h;
  const size_t len = stream.size() - h;
  std::string what;
  if (!decodes(info, p, len, data.size(), &what)) {
    ctx.violate("valid-refused", "a valid stream is refused: " + what + " in " + describe(info));
    return;
  }
  ctx.nontrivial(hashBytes(stream.data(), stream.size()));
  if (idx % 997 == 3) ctx.sample(describe(info) + fmt(" payload of %zu bytes, %s cuts", len, exhaustive ? "all" : "sampled"));
  auto refuse = [&](const char* key, const EncodingInfo& i, const uint8_t* q, size_t m, size_t out_size, const std::string& how) {
    ctx.count(std::string("refused_") + key);
    if (decodes(i, q, m, out_size)) {
      ctx.violate(key, how + " accepted in " + describe(info));
      return false;
    }
    return true;
  };
  // ---- cut at every byte
  bool ok = true;
  std::vector<Bytes> chunks = splitChunks(p, len, ok);
  if (!ok) { ctx.violate("layout", "payload is not a sequence of chunks in " + describe(info)); return; }
  std::vector<size_t> cuts;
  if (exhaustive && len < 3000) {
    for (size_t c = 0; c < len; ++c) cuts.push_back(c);
  } else {
    for (int k = 0; k < 10; ++k) cuts.push_back(r.below(len));
    cuts.push_back(len - 1);
    cuts.push_back(0);
    size_t at = 0;
    for (auto& c : chunks) {  // chunk boundaries and their neighbourhood
      for (long d : {-1L, 0L, 1L, 4L, 5L})
        if (long(at) + d >= 0 && at + size_t(d) < len) cuts.push_back(at + size_t(d));
      at += 4 + c.size();
    }
  }
  for (size_t c : cuts)
    if (!refuse("cut", info, p, c, data.size(), fmt("payload cut at %zu of %zu", c, len))) break;
  // ---- a stream cut short, as a whole: either the header or the payload is reported
  for (int k = 0; k < 4; ++k) {
    const size_t c = r.chance(0.5) ? r.below(h) : r.below(stream.size());
    Block in(stream.data(), c);
    ConstBufferView v = in.view();
    ctx.count("refused_whole_stream_cut");
    if (!throwsException([&] {
          EncodingInfo i2 = DecodeHeader(v);
          Block out(size_t(i2.width) * i2.height * i2.point_step);
          PointcloudDecoder d;
          d.decode(i2, v, out.mview());
        }))
      ctx.violate("stream-cut", fmt("stream cut at %zu of %zu (header %zu) accepted in ", c, stream.size(), h) + describe(info));
  }
  // ---- chunks missing, repeated, added
  auto join = [&](const std::vector<Bytes>& cs) {
    Bytes b;
    for (auto& c : cs) {
      const uint32_t s = uint32_t(c.size());
      b.insert(b.end(), reinterpret_cast<const uint8_t*>(&s), reinterpret_cast<const uint8_t*>(&s) + 4);
      b.insert(b.end(), c.begin(), c.end());
    }
    return b;
  };
  for (size_t k = 0; k < chunks.size(); ++k) {
    if (k != 0 && k + 1 != chunks.size() && !r.chance(0.5)) continue;
    auto less = chunks;
    less.erase(less.begin() + long(k));
    Bytes b = join(less);
    if (!refuse("missing_chunk", info, b.data(), b.size(), data.size(), fmt("stream without chunk %zu of %zu", k, chunks.size()))) break;
    auto more = chunks;
    more.insert(more.begin() + long(k), chunks[k]);
    b = join(more);
    const size_t roomy = data.size() + (r.chance(0.5) ? 33000 * size_t(info.point_step) : 0);
    if (!refuse("repeated_chunk", info, b.data(), b.size(), roomy, fmt("stream with chunk %zu of %zu twice", k, chunks.size()))) break;
  }
  {
    auto more = chunks;
    more.push_back(Bytes());
    Bytes b = join(more);
    refuse("extra_chunk", info, b.data(), b.size(), data.size() + 100 * info.point_step, "stream with an empty chunk appended");
    more.back().assign(size_t(r.range(1, 40)), uint8_t(r.next()));
    b = join(more);
    refuse("extra_chunk", info, b.data(), b.size(), data.size() + 100 * info.point_step, "stream with a noise chunk appended");
    b.assign(p, p + len);
    b.resize(len + size_t(r.range(1, 7)), uint8_t(r.next()));
    refuse("extra_bytes", info, b.data(), b.size(), data.size(), fmt("stream with %zu bytes appended", b.size() - len));
  }
  // ---- dimensions that declare more points than the stream has
  for (int k = 0; k < 3; ++k) {
    EncodingInfo more = info;
    more.width = uint32_t(n);
    more.height = 1;
    // up to where one more chunk is needed: within a chunk the format itself does not always carry the number of
    // points (a palette of one value is the same whatever the number of points)
    const size_t next = chunks.size() * 32768 + 1;
    if (k == 0) more.width = uint32_t(next);
    if (k == 1) more.width = uint32_t(next + r.below(70000));
    if (k == 2) more.height = uint32_t((next + n - 1) / n);
    refuse("more_declared", more, p, len, size_t(more.width) * more.height * info.point_step,
           fmt("declaring %zu points for a stream of %zu", size_t(more.width) * more.height, n));
  }
  // another number of points that needs the same number of chunks, wherever the stream itself shows that it is wrong: the
  // independent decoder tells (a palette of one value, for example, does not)
  {
    const bool own = r.chance(0.5);
    ref::Modes modes = ref::randomModes(r, info);
    if (r.chance(0.5)) modes.fixed = int(r.range(2, 3));
    const Bytes q = own ? Bytes(p, p + len) : ref::encodePayload(info, data.data(), n, modes);
    const long long lo = (long long)(chunks.size() - 1) * 32768 + 1, hi = (long long)chunks.size() * 32768;
    for (int k = 0; k < 4; ++k) {
      // (before version 5, bytes left over at the end of a chunk are ignored)
      const long long other = (long long)n + (k == 0 ? 1 : k == 1 ? r.range(1, 9) : k == 2 ? r.range(1, 3000) : info.version >= 5 ? -r.range(1, 9) : 1);
      if (other < lo || other > hi) continue;
      EncodingInfo i2 = info;
      i2.height = 1;
      i2.width = uint32_t(other);
      bool wrong = false;
      try {
        ref::Trace tr;
        ref::decodePayload(i2, q.data(), q.size(), size_t(other), tr);
      } catch (const ref::Malformed&) {
        wrong = true;
      }
      if (!wrong) {
        ctx.count("other_counts_without_evidence");
        continue;
      }
      if (other < (long long)n && !decodesAdaptively(info)) continue;
      refuse("other_declared", i2, q.data(), q.size(), size_t(other) * info.point_step, fmt("declaring %lld points for a stream of %zu", other, n));
    }
  }
  // fewer chunks declared than present
  if (chunks.size() > 1) {
    EncodingInfo fewer = info;
    fewer.height = 1;
    fewer.width = uint32_t(32768 * (chunks.size() - 1));
    refuse("fewer_declared", fewer, p, len, data.size(), "declaring one chunk less than the stream has");
  }
  for (int k = 0; k < 2; ++k) {  // more than the memory can hold
    EncodingInfo wrap = info;
    pickWrappingDims(r, wrap);
    if ((u128)wrap.width * wrap.height * wrap.point_step >> (8 * sizeof(size_t)) == 0) continue;
    refuse("wrapping_declared", wrap, p, k ? len : 0, std::min(data.size(), size_t(wrap.width) * wrap.height * wrap.point_step),
           fmt("declaring %ux%u points of %u bytes", wrap.width, wrap.height, wrap.point_step));
  }
  {
    EncodingInfo none = info;
    none.width = 0;
    refuse("zero_declared", none, p, len, data.size(), "declaring no points");
  }
  // ---- output too small
  for (size_t s : {data.size() - 1, data.size() - info.point_step, data.size() / 2, size_t(0), size_t(r.below(data.size()))})
    refuse("small_output", info, p, len, s, fmt("output of %zu bytes instead of %zu", s, data.size()));
  // ---- version 2: one chunk without a size prefix, written by the reference encoder
  if (idx % 4 == 1) {
    EncodingInfo two = info;
    two.version = 2;
    const Bytes q = ref::encodePayload(two, data.data(), n, ref::randomModes(r, two));
    if (!decodes(two, q.data(), q.size(), data.size(), &what)) {
      ctx.violate("valid-refused", "a valid version 2 stream is refused: " + what + " in " + describe(two));
      return;
    }
    ctx.count("version_2_streams");
    std::vector<size_t> c2;
    if (q.size() < 2000) {
      for (size_t c = 0; c < q.size(); ++c) c2.push_back(c);
    } else {
      for (int k = 0; k < 12; ++k) c2.push_back(r.below(q.size()));
      c2.push_back(0);
      c2.push_back(q.size() - 1);
      // without compression, points of equal encoded size: whole points missing
      if (q.size() >= n) c2.push_back(q.size() - q.size() / n);
    }
    const size_t roomy = data.size() + (r.chance(0.5) ? 5 * size_t(info.point_step) : 0);
    for (size_t c : c2)
      if (!refuse("v2_cut", two, q.data(), c, roomy, fmt("version 2 payload cut at %zu of %zu", c, q.size()))) break;
    for (int k = 0; k < 4; ++k) {
      EncodingInfo other = two;
      other.height = 1;
      other.width = uint32_t(k == 0 ? n + 1 : k == 1 ? n - 1 : k == 2 ? 0 : r.below(2 * n));
      if (other.width == n) continue;
      refuse("v2_declared", other, q.data(), q.size(), (std::max<size_t>(n, other.width) + 3) * info.point_step,
             fmt("version 2: declaring %u points for a stream of %zu", other.width, n));
    }
    for (size_t s : {data.size() - 1, data.size() - info.point_step, size_t(r.below(data.size()))})
      refuse("v2_small_output", two, q.data(), q.size(), s, fmt("version 2: output of %zu bytes instead of %zu", s, data.size()));
  }
  // ---- with its header, or another magic or version
  refuse("header_left_in", info, stream.data(), stream.size(), data.size(), "payload that still carries its header");
  {
    Bytes hb;
    EncodeHeader(info, hb, HeaderEncoding::BINARY);
    hb.insert(hb.end(), p, p + len);
    refuse("header_left_in", info, hb.data(), hb.size(), data.size(), "payload that still carries a binary header");
  }
  for (int k = 0; k < 6; ++k) {
    Bytes m = stream;
    std::string how;
    if (k < 3) {
      const size_t at = r.below(10);
      m[at] = uint8_t(m[at] ^ (1 + r.below(255)));
      how = fmt("magic with byte %zu changed", at);
    } else {
      int ver = k == 3 ? int(r.range(6, 99)) : k == 4 ? int(r.pick({0, 1, 6, 7, 10, 50, 99})) : -1;
      if (ver >= 0) {
        m[10] = uint8_t('0' + ver / 10);
        m[11] = uint8_t('0' + ver % 10);
        how = fmt("version %02d", ver);
      } else {
        do {
          m[10 + r.below(2)] = uint8_t(r.next());
        } while (isdigit(m[10]) && isdigit(m[11]));
        how = "version that is no number";
      }
    }
    Block in(m);
    ConstBufferView v = in.view();
    ctx.count("refused_magic_or_version");
    if (!throwsException([&] { DecodeHeader(v); })) ctx.violate("magic-or-version", how + " accepted");
  }
}
void finishWorker(Ctx&) {}
