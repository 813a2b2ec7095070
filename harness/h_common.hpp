// Common machinery of the monitors: deterministic random numbers, the worker driver, counters and reports.
#pragma once
#include <fcntl.h>
#include <sys/mman.h>
#include <unistd.h>

#include <chrono>
#include <cmath>
#include <cstdarg>
#include <cstdint>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <functional>
#include <map>
#include <new>
#include <string>
#include <unordered_set>
#include <vector>

namespace vh {

#ifdef __SIZEOF_INT128__
using u128 = unsigned __int128;
#else  // 32-bit builds
using u128 = unsigned _BitInt(128);
#endif

// ------------------------------------------------------------------ hashing and random numbers
inline uint64_t mix64(uint64_t z) {
  z += 0x9E3779B97F4A7C15ull;
  z = (z ^ (z >> 30)) * 0xBF58476D1CE4E5B9ull;
  z = (z ^ (z >> 27)) * 0x94D049BB133111EBull;
  return z ^ (z >> 31);
}
inline uint64_t hashBytes(const void* p, size_t n, uint64_t h = 0x1234567) {
  const uint8_t* b = static_cast<const uint8_t*>(p);
  size_t i = 0;
  for (; i + 8 <= n; i += 8) {
    uint64_t w;
    memcpy(&w, b + i, 8);
    h = mix64(h ^ w) + 0x51ed27;
  }
  uint64_t w = 0;
  if (i < n) memcpy(&w, b + i, n - i);
  return mix64(h ^ w ^ (uint64_t(n) << 32));
}
inline uint64_t hashStr(const std::string& s) { return hashBytes(s.data(), s.size()); }

struct Rng {
  uint64_t s[2];
  explicit Rng(uint64_t seed) {
    s[0] = mix64(seed);
    s[1] = mix64(seed ^ 0xABCDEF0123456789ull);
  }
  uint64_t next() {
    uint64_t a = s[0], b = s[1];
    uint64_t r = a + b;
    b ^= a;
    s[0] = ((a << 55) | (a >> 9)) ^ b ^ (b << 14);
    s[1] = (b << 36) | (b >> 28);
    return r;
  }
  uint64_t below(uint64_t n) { return n ? next() % n : 0; }
  int64_t range(int64_t lo, int64_t hi) { return lo + int64_t(below(uint64_t(hi - lo) + 1)); }
  bool chance(double p) { return uniform() < p; }
  double uniform() { return double(next() >> 11) * (1.0 / 9007199254740992.0); }
  double uniform(double a, double b) { return a + (b - a) * uniform(); }
  template <class T>
  const T& pick(const std::vector<T>& v) {
    return v[below(v.size())];
  }
  template <class T>
  T pick(std::initializer_list<T> v) {
    return *(v.begin() + below(v.size()));
  }
  template <class T>
  void shuffle(std::vector<T>& v) {
    for (size_t i = v.size(); i > 1; --i) std::swap(v[i - 1], v[below(i)]);
  }
  void fill(void* p, size_t n) {
    uint8_t* b = static_cast<uint8_t*>(p);
    while (n >= 8) {
      uint64_t x = next();
      memcpy(b, &x, 8);
      b += 8;
      n -= 8;
    }
    uint64_t x = next();
    if (n) memcpy(b, &x, n);
  }
};

inline std::string fmt(const char* f, ...) {
  va_list ap;
  va_start(ap, f);
  char buf[4096];
  vsnprintf(buf, sizeof buf, f, ap);
  va_end(ap);
  return buf;
}
inline std::string jsonEsc(const std::string& s) {
  std::string o;
  for (unsigned char c : s) {
    if (c == '"' || c == '\\') {
      o += '\\';
      o += char(c);
    } else if (c < 0x20 || c >= 0x7f) {
      char b[8];
      snprintf(b, sizeof b, "\\u%04x", c);
      o += b;
    } else {
      o += char(c);
    }
  }
  return o;
}
inline std::string hex(const uint8_t* p, size_t n, size_t max = 64) {
  std::string o;
  for (size_t i = 0; i < n && i < max; ++i) o += fmt("%02x", p[i]);
  if (n > max) o += fmt("...(%zu bytes)", n);
  return o;
}

// ------------------------------------------------------------------ allocation monitor
// Every C++ allocation of the process goes through these: allocations larger than the cap throw
// std::bad_alloc (as they would on a small machine), and fresh memory is filled with a chosen byte, so
// that output that depends on uninitialised memory differs from one run to the next.
struct AllocMonitor {
  static inline size_t cap = size_t(768) << 20;
  static inline volatile int fill = -1;
  // > 0: the allocation of this thread that fails, counting from the next one
  static inline thread_local int fail_in = 0;
  static inline thread_local bool failed = false;
  static inline thread_local uint64_t made = 0;  // allocations of this thread
};

// ------------------------------------------------------------------ driver
struct Progress {
  uint64_t case_idx;
  uint64_t done;
  char label[496];
};

struct Ctx {
  uint64_t seed = 1;
  std::string tier = "quick";
  bool thorough() const { return tier == "thorough"; }
  uint64_t idx = 0;
  std::map<std::string, uint64_t> counters;
  std::unordered_set<uint64_t> distinct;
  std::vector<std::string> samples;
  Progress* prog = nullptr;
  FILE* out = nullptr;
  uint64_t violations = 0;
  std::string dir;  // private scratch directory of this worker
  std::string datadir;  // /verif, for committed data

  void count(const std::string& k, uint64_t n = 1) { counters[k] += n; }
  void nontrivial(uint64_t h) {
    if (distinct.size() < 2000000) distinct.insert(h);
  }
  void nontrivial(const std::string& s) { nontrivial(hashStr(s)); }
  void sample(const std::string& s) {
    if (samples.size() < 4) samples.push_back(s);
  }
  void label(const std::string& s) {
    if (prog) snprintf(prog->label, sizeof prog->label, "%s", s.c_str());
  }
  // key identifies what fails (used to match known findings), msg says how
  void violate(const std::string& key, const std::string& msg) {
    ++violations;
    if (violations <= 20) {
      fprintf(out, "{\"violation\":1,\"case\":%llu,\"key\":\"%s\",\"msg\":\"%s\"}\n", (unsigned long long)idx,
              jsonEsc(key).c_str(), jsonEsc(msg).c_str());
      fflush(out);
    }
  }
  Rng rng(uint64_t salt = 0) const { return Rng(mix64(seed * 0x9E37 + salt) ^ mix64(idx + 77)); }
};

}  // namespace vh

// provided by each check
uint64_t numCases(const vh::Ctx& ctx);
void runCase(vh::Ctx& ctx, uint64_t idx);
void finishWorker(vh::Ctx& ctx);

#ifndef VH_NO_MAIN
#ifndef VH_NO_NEW
static void* vh_new(size_t n) {
  if (n > vh::AllocMonitor::cap) throw std::bad_alloc();
  ++vh::AllocMonitor::made;
  if (vh::AllocMonitor::fail_in > 0 && --vh::AllocMonitor::fail_in == 0) {
    vh::AllocMonitor::failed = true;
    throw std::bad_alloc();
  }
  void* p = malloc(n ? n : 1);
  if (!p) throw std::bad_alloc();
  const int f = vh::AllocMonitor::fill;
  if (f >= 0) memset(p, f, n);
  return p;
}
void* operator new(size_t n) { return vh_new(n); }
void* operator new[](size_t n) { return vh_new(n); }
void operator delete(void* p) noexcept { free(p); }
void operator delete[](void* p) noexcept { free(p); }
void operator delete(void* p, size_t) noexcept { free(p); }
void operator delete[](void* p, size_t) noexcept { free(p); }
static void* vh_new0(size_t n) noexcept {
  try {
    return vh_new(n);
  } catch (...) {
    return nullptr;
  }
}
static void* vh_newa(size_t n, size_t a) {
  if (n > vh::AllocMonitor::cap) throw std::bad_alloc();
  void* p = aligned_alloc(a, (n + a) / a * a);
  if (!p) throw std::bad_alloc();
  return p;
}
void* operator new(size_t n, const std::nothrow_t&) noexcept { return vh_new0(n); }
void* operator new[](size_t n, const std::nothrow_t&) noexcept { return vh_new0(n); }
void operator delete(void* p, const std::nothrow_t&) noexcept { free(p); }
void operator delete[](void* p, const std::nothrow_t&) noexcept { free(p); }
void* operator new(size_t n, std::align_val_t a) { return vh_newa(n, size_t(a)); }
void* operator new[](size_t n, std::align_val_t a) { return vh_newa(n, size_t(a)); }
void operator delete(void* p, std::align_val_t) noexcept { free(p); }
void operator delete[](void* p, std::align_val_t) noexcept { free(p); }
void operator delete(void* p, size_t, std::align_val_t) noexcept { free(p); }
void operator delete[](void* p, size_t, std::align_val_t) noexcept { free(p); }
#endif

int main(int argc, char** argv) {
  vh::Ctx ctx;
  uint64_t shard = 0, shards = 1, only = UINT64_MAX, begin = 0;
  uint64_t scale = 100;  // percent of the cases
  double budget = 1e9;
  std::string out_path, prog_path, hash_path;
  for (int i = 1; i + 1 < argc; i += 2) {
    std::string a = argv[i], v = argv[i + 1];
    if (a == "--seed") ctx.seed = strtoull(v.c_str(), 0, 10);
    if (a == "--shard") shard = strtoull(v.c_str(), 0, 10);
    if (a == "--shards") shards = strtoull(v.c_str(), 0, 10);
    if (a == "--case") only = strtoull(v.c_str(), 0, 10);
    if (a == "--scale") scale = strtoull(v.c_str(), 0, 10);
    if (a == "--begin") begin = strtoull(v.c_str(), 0, 10);
    if (a == "--tier") ctx.tier = v;
    if (a == "--out") out_path = v;
    if (a == "--progress") prog_path = v;
    if (a == "--hashes") hash_path = v;
    if (a == "--dir") ctx.dir = v;
    if (a == "--data") ctx.datadir = v;
    if (a == "--budget") budget = atof(v.c_str());
  }
  ctx.out = out_path.empty() ? stdout : fopen(out_path.c_str(), "a");
  if (!ctx.out) return 2;
  static vh::Progress local{};
  ctx.prog = &local;
  if (!prog_path.empty()) {
    int fd = open(prog_path.c_str(), O_RDWR | O_CREAT, 0600);
    if (fd < 0 || ftruncate(fd, sizeof(vh::Progress)) != 0) return 2;
    void* p = mmap(nullptr, sizeof(vh::Progress), PROT_READ | PROT_WRITE, MAP_SHARED, fd, 0);
    if (p == MAP_FAILED) return 2;
    ctx.prog = static_cast<vh::Progress*>(p);
    close(fd);
  }
  const uint64_t n = scale ? numCases(ctx) * scale / 100 : 0;
  uint64_t evaluated = 0, skipped = 0;
  const auto t0 = std::chrono::steady_clock::now();
  for (uint64_t i = 0; i < n; ++i) {
    if (only != UINT64_MAX ? i != only : i % shards != shard) continue;
    if (i < begin) continue;
    if (std::chrono::duration<double>(std::chrono::steady_clock::now() - t0).count() > budget) {
      ++skipped;
      continue;
    }
    ctx.idx = i;
    ctx.prog->case_idx = i;
    ctx.prog->label[0] = 0;
    try {
      runCase(ctx, i);
    } catch (const std::exception& e) {
      ctx.violate("unexpected-exception", std::string("exception escaped: ") + e.what() + " in " + ctx.prog->label);
    }
    ++evaluated;
    ctx.prog->done = evaluated;
  }
  finishWorker(ctx);
  fprintf(ctx.out, "{\"stats\":1,\"cases\":%llu,\"skipped\":%llu,\"distinct\":%llu,\"counters\":{",
          (unsigned long long)evaluated, (unsigned long long)skipped, (unsigned long long)ctx.distinct.size());
  bool first = true;
  for (auto& [k, v] : ctx.counters) {
    fprintf(ctx.out, "%s\"%s\":%llu", first ? "" : ",", vh::jsonEsc(k).c_str(), (unsigned long long)v);
    first = false;
  }
  fprintf(ctx.out, "},\"samples\":[");
  for (size_t i = 0; i < ctx.samples.size(); ++i)
    fprintf(ctx.out, "%s\"%s\"", i ? "," : "", vh::jsonEsc(ctx.samples[i]).c_str());
  fprintf(ctx.out, "]}\n");
  fflush(ctx.out);
  if (!hash_path.empty()) {
    FILE* h = fopen(hash_path.c_str(), "wb");
    if (h) {
      for (uint64_t x : ctx.distinct) fwrite(&x, 8, 1, h);
      fclose(h);
    }
  }
  return ctx.violations ? 1 : 0;
}
#endif
