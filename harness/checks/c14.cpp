// C14: a resolution profile drops and sets exactly the fields it names
#include "cloudini_lib/ros_msg_utils.hpp"
#include "h_cloud.hpp"
using namespace vh;

uint64_t numCases(const Ctx& c) { return c.thorough() ? 200000 : 14000; }

void runCase(Ctx& ctx, uint64_t idx) {
  Rng r = ctx.rng();
  LayoutOpts o;
  o.extremes = false;
  o.max_fields = 9;
  if (r.chance(0.1)) o.max_fields = 40;
  o.min_fields = 2;
  EncodingInfo info = genLayout(r, o);
  static const std::vector<std::string> names = {"x", "y", "z", "intensity", "X", "xx", "", "ring", "t", "rgb"};
  for (auto& f : info.fields) f.name = names[r.below(names.size())];  // also the same name twice
  if (r.chance(0.5))
    for (size_t i = 0; i < info.fields.size(); ++i) info.fields[i].name += fmt("%zu", i);
  cloudini_ros::ResolutionProfile prof;
  const size_t entries = r.chance(0.1) ? r.below(30) : r.below(6);
  for (size_t k = 0; k < entries; ++k) {
    std::string name = r.chance(0.7) ? info.fields[r.below(info.fields.size())].name : names[r.below(names.size())];
    prof[name] = r.chance(0.45) ? (r.chance(0.8) ? 0.0f : -0.0f) : r.chance(0.1) ? std::ldexp(1.0f, -int(r.range(20, 60))) : pickResolution(r, true);
  }
  bool unusable = false;  // a value that is not a resolution is not zero either: encoding refuses it
  if (!prof.empty() && r.chance(0.08)) {
    auto it = std::next(prof.begin(), long(r.below(prof.size())));
    it->second = r.pick({-0.001f, -1.0f, -1e-30f, -1e30f, 1e-45f, -1e-45f, std::numeric_limits<float>::infinity(), -std::numeric_limits<float>::infinity()});
    unusable = true;
    ctx.count("profiles_with_unusable_values");
  }
  std::optional<float> def;
  if (r.chance(0.6)) def = pickResolution(r, true);
  ctx.label("profile " + describe(info));
  // model
  std::vector<PointField> want;
  for (auto f : info.fields) {
    auto it = prof.find(f.name);
    if (it != prof.end() && it->second == 0.0f) continue;
    if (it != prof.end()) f.resolution = it->second;
    else if (def && f.type == FieldType::FLOAT32) f.resolution = *def;
    want.push_back(f);
  }
  std::vector<PointField> got = info.fields;
  const auto prof_before = prof;
  cloudini_ros::applyResolutionProfile(prof, got, def);
  if (prof != prof_before) ctx.violate("profile-modified", describe(info));
  std::string diff;
  if (got.size() != want.size()) diff = fmt("%zu fields left instead of %zu", got.size(), want.size());
  for (size_t i = 0; diff.empty() && i < got.size(); ++i) {
    const auto &a = want[i], &b = got[i];
    if (a.name != b.name || a.offset != b.offset || a.type != b.type) diff = fmt("field %zu is '%s' instead of '%s'", i, b.name.c_str(), a.name.c_str());
    else if (a.resolution != b.resolution) diff = fmt("field %zu '%s': resolution %g instead of %g", i, a.name.c_str(), b.resolution.value_or(-1), a.resolution.value_or(-1));
  }
  std::string ptxt;
  for (auto& [k, v] : prof) ptxt += fmt("%s=%g ", k.c_str(), v);
  if (!diff.empty()) {
    ctx.violate("fields", diff + fmt(" with default %g and profile ", def.value_or(-1)) + ptxt + " on " + describe(info));
    return;
  }
  ctx.count("profiles_applied");
  ctx.count("fields_dropped", info.fields.size() - want.size());
  uint64_t h = infoClass(info);
  for (auto& [k, v] : prof) h = mix64(h ^ hashStr(k) ^ hashBytes(reinterpret_cast<const uint8_t*>(&v), sizeof v));
  if (idx % 3001 == 5) ctx.sample(fmt("default %g, profile ", def.value_or(-1)) + ptxt + " on " + describe(info));
  if (want.empty() || unusable || r.chance(0.4)) {
    ctx.nontrivial(h);
    return;
  }
  // encode with what is left: the remaining fields come back where they were, the dropped ones have no influence
  EncodingInfo red = info;
  red.fields = got;
  const size_t n = r.chance(0.9) ? size_t(r.range(1, 300)) : pickCountFor(r, info);
  setDims(r, red, n);
  DataOpts d;
  d.wild = false;
  const Bytes data = genData(r, red, n, d);
  const Bytes stream = encodeCloud(red, data);
  Decoded dec = decodeStream(stream, uint8_t(r.next()));
  FidelityStats st;
  diff = compareClouds(red, data.data(), dec.data.data(), n, kAllAspects, st);
  if (!diff.empty()) ctx.violate("remaining-fields", diff + " in " + describe(red));
  st.report(ctx);
  Bytes other = data;
  const auto pad = paddingBytes(red);  // the dropped fields' bytes among them
  for (size_t i = 0; i < n; ++i)
    for (uint32_t b : pad) other[i * red.point_step + b] = uint8_t(r.next());
  if (encodeCloud(red, other) != stream) ctx.violate("dropped-fields-matter", "the bytes of dropped fields change the stream: " + describe(red));
  ctx.count("bytes_of_dropped_fields_varied", pad.size() * n);
  ctx.count("encoded_with_reduced_fields");
  ctx.nontrivial(hashBytes(stream.data(), stream.size()) ^ h);
}
void finishWorker(Ctx&) {}
