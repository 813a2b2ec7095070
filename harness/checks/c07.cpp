// C07: threaded compression is race-free and identical to the unthreaded one
#include <dirent.h>
#include <pthread.h>
#include <sched.h>

#include <atomic>
#include <condition_variable>
#include <mutex>
#include <thread>

#include <lz4.h>
#include <zstd.h>

#include "h_cloud.hpp"
using namespace vh;

uint64_t numCases(const Ctx& c) { return c.thorough() ? 60000 : 2400; }

// ---------------------------------------------------------------- schedule control: delays at every synchronisation
// and at every compression, and a log of who passed where in which order
namespace sched {
static std::atomic<uint64_t> seed{0};
static std::atomic<int> p_caller{0}, p_worker{0};  // per mille
static std::atomic<int> longest_us{0};
static thread_local bool is_caller = false;
static thread_local uint64_t tl_seed = 0;
static thread_local uint64_t tl_state = 0;
static std::atomic<uint32_t> log_n{0};
static std::atomic<uint8_t> log_ev[512];
static std::atomic<int> fail_compress_at{0};  // counts down, the compression that reaches 0 fails
// one very long delay, far beyond any time limit a waiting side could have: counts down over the compressions
// (for the worker) or over the caller's locks
static std::atomic<int> long_worker{0}, long_caller{0}, long_us{0};
static std::atomic<uint64_t> long_delays{0};
static void longDelay(std::atomic<int>& in) {
  if (in.load(std::memory_order_relaxed) > 0 && in.fetch_sub(1, std::memory_order_relaxed) == 1) {
    long_delays.fetch_add(1, std::memory_order_relaxed);
    usleep(useconds_t(long_us.load(std::memory_order_relaxed)));
  }
}
static std::atomic<uint64_t> compressions{0}, failures{0}, sync_points{0};

static void point(int ev) {
  sync_points.fetch_add(1, std::memory_order_relaxed);
  const uint32_t at = log_n.fetch_add(1, std::memory_order_relaxed);
  if (at < 512) log_ev[at].store(uint8_t(ev * 2 + is_caller), std::memory_order_relaxed);
  const uint64_t sd = seed.load(std::memory_order_relaxed);
  if (tl_seed != sd) {
    tl_seed = sd;
    tl_state = mix64(sd + is_caller);
  }
  tl_state = mix64(tl_state);
  const int p = is_caller ? p_caller.load(std::memory_order_relaxed) : p_worker.load(std::memory_order_relaxed);
  if (int(tl_state % 1000) < p) {
    const int most = longest_us.load(std::memory_order_relaxed);
    if ((tl_state >> 20) % 3 == 0) sched_yield();
    else usleep(useconds_t((tl_state >> 32) % uint64_t(most + 1)));
  }
}
static bool failNow() {
  compressions.fetch_add(1, std::memory_order_relaxed);
  if (fail_compress_at.load(std::memory_order_relaxed) > 0 && fail_compress_at.fetch_sub(1, std::memory_order_relaxed) == 1) {
    failures.fetch_add(1, std::memory_order_relaxed);
    return true;
  }
  return false;
}
}  // namespace sched

extern "C" {
int __real_pthread_mutex_lock(pthread_mutex_t*);
int __real_pthread_mutex_unlock(pthread_mutex_t*);
int __wrap_pthread_mutex_lock(pthread_mutex_t* m) {
  sched::point(1);
  if (sched::is_caller) sched::longDelay(sched::long_caller);
  return __real_pthread_mutex_lock(m);
}
int __wrap_pthread_mutex_unlock(pthread_mutex_t* m) {
  const int r = __real_pthread_mutex_unlock(m);
  sched::point(2);
  return r;
}
void __real__ZNSt18condition_variable10notify_oneEv(void*);
void __wrap__ZNSt18condition_variable10notify_oneEv(void* c) {
  sched::point(3);
  __real__ZNSt18condition_variable10notify_oneEv(c);
  sched::point(4);
}
int __real_LZ4_compress_default(const char*, char*, int, int);
int __wrap_LZ4_compress_default(const char* a, char* b, int c, int d) {
  sched::point(5);
  sched::longDelay(sched::long_worker);
  const int r = sched::failNow() ? 0 : __real_LZ4_compress_default(a, b, c, d);
  sched::point(6);
  return r;
}
size_t __real_ZSTD_compress(void*, size_t, const void*, size_t, int);
size_t __wrap_ZSTD_compress(void* a, size_t b, const void* c, size_t d, int l) {
  sched::point(5);
  sched::longDelay(sched::long_worker);
  const size_t r = sched::failNow() ? size_t(-70) : __real_ZSTD_compress(a, b, c, d, l);
  sched::point(6);
  return r;
}
}

static int threadCount() {
  int n = 0;
  DIR* d = opendir("/proc/self/task");
  while (d && readdir(d)) ++n;
  if (d) closedir(d);
  return n - 2;
}

void runCase(Ctx& ctx, uint64_t idx) {
  Rng r = ctx.rng();
  sched::is_caller = true;
  if (idx % 16 == 5) {  // everything on one processor
    cpu_set_t set;
    CPU_ZERO(&set);
    CPU_SET(int(idx / 16 % 8), &set);
    sched_setaffinity(0, sizeof set, &set);
  } else {
    cpu_set_t set;
    CPU_ZERO(&set);
    for (int i = 0; i < 64; ++i) CPU_SET(i, &set);
    sched_setaffinity(0, sizeof set, &set);
  }
  LayoutOpts o;
  o.max_fields = 3;
  o.extremes = false;
  o.compressions = {1, 2};
  o.threads = 1;
  EncodingInfo info = genLayout(r, o);
  ctx.label("threads " + describe(info));
  static const bool warm = (std::thread([] {}).join(), true);  // ThreadSanitizer starts a thread of its own
  (void)warm;
  const int before = threadCount();
  // clouds and the bytes the unthreaded encoder makes of them
  struct Item {
    Bytes data, expect;
    size_t chunks;
  };
  std::vector<Item> items;
  info.width = 7;
  EncodingInfo plain = info;
  plain.use_threads = false;
  sched::p_caller = 0;
  sched::p_worker = 0;
  for (int k = 0; k < 2; ++k) {
    Item it;
    const size_t n = r.chance(0.15) ? r.below(3) : r.chance(0.3) ? size_t(r.range(1, 3000))
                     : size_t(r.pick({32768, 32769, 65536, 65537, 98304, 98305, 131073, 40000, 163841}));
    it.data = genData(r, info, n);
    it.chunks = (n + 32767) / 32768;
    it.expect = encodeCloud(plain, it.data);
    items.push_back(std::move(it));
  }
  // ---- the history of one threaded encoder under a perturbed schedule
  const int style = int(r.below(6));
  sched::longest_us = int(r.pick({20, 100, 300, 1500}));
  sched::p_caller = style == 1 || style == 3 ? 700 : style == 4 ? 150 : 0;
  sched::p_worker = style == 2 || style == 3 ? 700 : style == 4 ? 150 : 0;
  std::string history;
  {
    std::optional<PointcloudEncoder> enc;
    sched::seed = mix64(idx * 77 + ctx.seed);
    sched::log_n = 0;
    enc.emplace(info);
    int steps = int(r.below(5));  // 0: destroyed right after construction
    if (idx % 240 == 11) {
      sched::long_us = idx == 251 ? 6000000 : 1300000;
      (idx / 240 % 4 == 3 ? sched::long_caller : sched::long_worker) = int(r.range(1, 4));
      steps = std::max(steps, 2);
    }
    for (int s = 0; s < steps; ++s) {
      const Item& it = items[r.below(items.size())];
      const int act = int(r.below(10));
      sched::seed = mix64(r.next());
      sched::log_n = 0;
      std::string what;
      Bytes out;
      ctx.label("threads: " + history + describe(info));
      if (act < 6) {
        history += fmt("encode %zu chunks; ", it.chunks);
        size_t ret = 0;
        if (throwsException([&] { ret = enc->encode(ConstBufferView(it.data.data(), it.data.size()), out); }, &what)) {
          ctx.violate("threaded-refused", "after [" + history + "]: " + what + " " + describe(info));
        } else if (ret != out.size() || out != it.expect) {
          ctx.violate("bytes-differ", fmt("after [%s]: threaded %zu bytes, unthreaded %zu, returned %zu ", history.c_str(), out.size(), it.expect.size(), ret) + describe(info));
        }
        ctx.count("encodes_compared");
        ctx.count("chunks_compared", it.chunks);
        ctx.count(fmt("schedule_style_%d", style));
        uint64_t sig = it.chunks;
        const uint32_t n = std::min<uint32_t>(512, sched::log_n.load());
        for (uint32_t i = 0; i < n; ++i) sig = mix64(sig ^ sched::log_ev[i].load());
        if (it.chunks) ctx.nontrivial(sig);
      } else if (act == 6) {
        history += "into a caller's buffer; ";
        Block b(MaxCompressedSize(info, it.data.size() / info.point_step, true));
        BufferView v = b.mview();
        size_t ret = 0;
        if (throwsException([&] { ret = enc->encode(ConstBufferView(it.data.data(), it.data.size()), v, true); }, &what))
          ctx.violate("threaded-refused", "after [" + history + "]: " + what + " " + describe(info));
        else if (ret != it.expect.size() || memcmp(b.p, it.expect.data(), ret) != 0)
          ctx.violate("bytes-differ", fmt("caller's buffer, after [%s]: %zu bytes, unthreaded %zu ", history.c_str(), ret, it.expect.size()) + describe(info));
        ctx.count("encodes_compared");
      } else if (act == 7) {
        history += "refused; ";
        Bytes bad(info.point_step + 1);
        if (info.point_step > 1 && !throwsException([&] { enc->encode(ConstBufferView(bad.data(), bad.size()), out); }))
          ctx.violate("bad-accepted", "data that is not a whole number of points accepted " + describe(info));
        ctx.count("refusals");
      } else if (act == 8) {  // one compression fails
        if (!it.chunks) continue;
        const uint64_t f0 = sched::failures.load();
        sched::fail_compress_at = int(1 + r.below(it.chunks));
        history += fmt("compression %d of %zu fails; ", sched::fail_compress_at.load(), it.chunks);
        const bool threw = throwsException([&] { enc->encode(ConstBufferView(it.data.data(), it.data.size()), out); }, &what);
        const bool failed = sched::failures.load() != f0;
        sched::fail_compress_at = 0;
        if (failed && !threw) ctx.violate("failure-lost", "a compression failed but encode reported nothing, after [" + history + "] " + describe(info));
        if (!failed && threw) ctx.violate("threaded-refused", "after [" + history + "]: " + what);
        if (!failed && !threw && out != it.expect) ctx.violate("bytes-differ", "after [" + history + "] " + describe(info));
        ctx.count("injected_compression_failures", failed);
      } else {  // an allocation of the caller fails
        Bytes buf(MaxCompressedSize(info, it.data.size() / info.point_step, true));
        auto own = std::make_unique<Block>(buf.size());
        BufferView v = own->mview();
        // how many there are to choose from: as many as an encode makes
        const uint64_t a0 = AllocMonitor::made;
        if (throwsException([&] { BufferView w(buf.data(), buf.size()); enc->encode(ConstBufferView(it.data.data(), it.data.size()), w, true); }, &what))
          ctx.violate("threaded-refused", "after [" + history + "]: " + what + " " + describe(info));
        const uint64_t per = AllocMonitor::made - a0;
        const bool respawn = per > 0 && r.chance(0.3);
        if (respawn && it.chunks) {  // the worker has died before: it has to be started again
          sched::fail_compress_at = 1;
          throwsException([&] { BufferView w(buf.data(), buf.size()); enc->encode(ConstBufferView(it.data.data(), it.data.size()), w, true); });
          sched::fail_compress_at = 0;
        }
        const int nth = int(r.range(1, int64_t(per + (respawn ? 2 : 0) + (per == 0))));
        history += fmt("allocation %d fails; ", nth);
        AllocMonitor::failed = false;
        AllocMonitor::fail_in = nth;
        bool threw = false;
        size_t ret = 0;
        try {
          ret = enc->encode(ConstBufferView(it.data.data(), it.data.size()), v, true);
        } catch (const std::exception& e) {
          threw = true;
        }
        AllocMonitor::fail_in = 0;
        if (!threw && (ret != it.expect.size() || memcmp(own->p, it.expect.data(), ret) != 0))
          ctx.violate("bytes-differ", fmt("with a failing allocation, after [%s] ", history.c_str()) + describe(info));
        own.reset();  // nobody may write there any more
        ctx.count("injected_allocation_failures", threw && AllocMonitor::failed);
      }
    }
    ctx.label("destroying: " + history + describe(info));
    sched::seed = mix64(r.next());
    enc.reset();
  }
  sched::p_caller = 0;
  sched::p_worker = 0;
  sched::long_caller = 0;
  sched::long_worker = 0;
  ctx.count("encoders_destroyed");
  int after = threadCount();
  for (int k = 0; k < 50 && after > before; ++k) {  // a joined thread may linger in /proc for a moment
    usleep(2000);
    after = threadCount();
  }
  if (after > before) ctx.violate("thread-leak", fmt("%d threads before, %d after [%s] ", before, after, history.c_str()) + describe(info));
  if (idx % 401 == 9) ctx.sample("[" + history + "] " + describe(info));
}
void finishWorker(Ctx& ctx) {
  ctx.count("very_long_delays", sched::long_delays.load());
  ctx.count("compressions_seen", sched::compressions.load());
  ctx.count("synchronisation_points_seen", sched::sync_points.load());
}
