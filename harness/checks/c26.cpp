// C26: the PCD converter honours its options and preserves the cloud
// The converter's own main() runs in a child process per case, inside a scratch directory.
#define PCL_NO_PRECOMPILE
#include <pcl/io/pcd_io.h>
#include <pcl/point_cloud.h>
#include <pcl/point_types.h>
#include <sys/resource.h>
#include <sys/stat.h>
#include <sys/wait.h>

#include <csignal>
#include <filesystem>
#include <fstream>
#include <iomanip>
#include <iostream>

#include "cloudini_lib/cloudini.hpp"
#include "cloudini_lib/pcl_conversion.hpp"
#include "cxxopts.hpp"
#include "h_pcd.hpp"
int pcd_tool_main(int argc, char** argv);  // tools/pcd_main.cpp
using namespace vh;
namespace fs = std::filesystem;

uint64_t numCases(const Ctx& c) { return c.thorough() ? 12000 : 900; }

namespace {
Bytes slurp(const std::string& p) {
  std::ifstream f(p, std::ios::binary);
  return Bytes((std::istreambuf_iterator<char>(f)), std::istreambuf_iterator<char>());
}
void spit(const std::string& p, const Bytes& b) {
  std::ofstream f(p, std::ios::binary);
  f.write(reinterpret_cast<const char*>(b.data()), std::streamsize(b.size()));
}
struct Run {
  int code = 0;  // exit code, or 1000 + signal
  std::string err;
};
// runs the tool in `dir`
Run run(const std::string& dir, std::vector<std::string> args, const std::string& answer, long file_limit = -1) {
  args.insert(args.begin(), "pcd_to_cloudini_converter");
  const std::string in = dir + ".stdin", err = dir + ".stderr";
  spit(in, Bytes(answer.begin(), answer.end()));
  fflush(nullptr);
  const pid_t pid = fork();
  if (pid == 0) {
    if (chdir(dir.c_str()) != 0) _exit(99);
    const int fi = open(in.c_str(), O_RDONLY), fo = open("/dev/null", O_WRONLY), fe = open(err.c_str(), O_WRONLY | O_CREAT | O_TRUNC, 0600);
    dup2(fi, 0);
    dup2(fo, 1);
    dup2(fe, 2);
    signal(SIGABRT, SIG_DFL);
    if (file_limit >= 0) {
      signal(SIGXFSZ, SIG_IGN);
      rlimit rl{rlim_t(file_limit), rlim_t(file_limit)};
      setrlimit(RLIMIT_FSIZE, &rl);
    }
    std::vector<char*> argv;
    for (auto& a : args) argv.push_back(a.data());
    argv.push_back(nullptr);
    int rc = 134;  // an exception that leaves main() aborts the real program
    try {
      rc = pcd_tool_main(int(args.size()), argv.data());
    } catch (...) {
    }
    std::cout.flush();
    _exit(rc);
  }
  int st = 0;
  waitpid(pid, &st, 0);
  Run res;
  res.code = WIFEXITED(st) ? WEXITSTATUS(st) : 1000 + WTERMSIG(st);
  const Bytes e = slurp(err);
  res.err.assign(e.begin(), e.end());
  return res;
}
bool sanitizer(const Run& x) {
  return x.code == 77 || x.err.find("AddressSanitizer") != std::string::npos || x.err.find("runtime error:") != std::string::npos;
}

struct Source {
  std::string name;  // within the directory
  PcdText text;
  Bytes data, file;
  size_t n = 0;
  bool ascii = false;
};
Source makeSource(Ctx&, Rng& r, const std::string& dir, const std::string& name, double res) {
  Source s;
  LayoutOpts o;
  o.extremes = false;
  o.max_fields = 7;
  EncodingInfo layout = genLayout(r, o);
  for (size_t i = 0; i < layout.fields.size(); ++i) layout.fields[i].name = i < 3 ? std::string(1, char('x' + i)) : fmt("f%zu", i);
  if (layout.fields.size() > 3 && r.chance(0.6)) layout.fields[3].name = "intensity";
  if (layout.fields.size() > 4 && r.chance(0.2)) layout.fields[4].name = "rgb";
  s.ascii = r.chance(0.3);
  if (s.ascii)
    for (auto& f : layout.fields)
      if (colour(f.name)) f.name = "c";
  s.n = r.chance(0.03) && !s.ascii ? size_t(r.range(32760, 50000)) : size_t(r.range(1, 300));
  s.text = pcdHeader(r, layout, s.n, s.ascii ? "ascii" : "binary");
  EncodingInfo gen = modelInfo(s.text.info, res);
  DataOpts d;
  d.wild = false;
  s.data = genData(r, gen, s.n, d);
  fillColours(r, gen, s.data, s.n);
  s.name = name;
  writePcd(dir + "/" + name, s.text, s.data, s.n, s.ascii);
  s.file = slurp(dir + "/" + name);
  return s;
}
struct Options {
  std::string enc, comp;
  double res = 0.001, ires = 0.001;
};
// the output must decode to the input within the resolutions asked for; "" when it does
std::string verify(Ctx& ctx, const Source& s, const Options& o, const std::string& dir, const std::string& out) {
  pcl::PCLPointCloud2 loaded;  // PCL's reader turns text into numbers
  Bytes data = s.data;
  if (pcl::io::loadPCDFile(dir + "/" + s.name, loaded) != 0 || loaded.data.size() != data.size() || loaded.point_step != s.text.info.point_step) {
    ctx.count("pcd_files_pcl_does_not_read");
    return "";
  }
  if (s.ascii) data.assign(loaded.data.begin(), loaded.data.end());
  EncodingInfo want = modelInfo(s.text.info, o.res);
  want.encoding_opt = o.enc == "lossy" ? EncodingOptions::LOSSY : o.enc == "lossless" ? EncodingOptions::LOSSLESS : EncodingOptions::NONE;
  want.compression_opt = o.comp == "lz4" ? CompressionOption::LZ4 : o.comp == "zstd" ? CompressionOption::ZSTD : CompressionOption::NONE;
  for (auto& f : want.fields)
    if (f.name == "intensity" && f.type == FieldType::FLOAT32) f.resolution = o.ires > 0 ? std::optional<float>(float(o.ires)) : std::nullopt;
  if (!fs::exists(out)) return "there is no " + out;
  const Bytes stream = slurp(out);
  Decoded d;
  try {
    d = decodeStream(stream);
  } catch (const std::exception& e) {
    return std::string("the output does not decode: ") + e.what();
  }
  if (d.info.encoding_opt != want.encoding_opt) return "another encoding than asked for";
  if (d.info.compression_opt != want.compression_opt) return "another compression than asked for";
  std::string diff = diffInfo(d.info, want);
  if (!diff.empty()) return diff;
  if (want.encoding_opt == EncodingOptions::LOSSY)
    for (size_t i = 0; i < want.fields.size(); ++i)
      if (isFloat(want.fields[i].type) && d.info.fields[i].resolution != want.fields[i].resolution)
        return fmt("field '%s' has resolution %g instead of %g", want.fields[i].name.c_str(), d.info.fields[i].resolution.value_or(-1), want.fields[i].resolution.value_or(-1));
  FidelityStats st;
  diff = compareClouds(want, data.data(), d.data.data(), s.n, kAllAspects, st);
  st.report(ctx);
  ctx.nontrivial(hashBytes(stream.data(), stream.size()));
  return diff;
}
}  // namespace

void runCase(Ctx& ctx, uint64_t idx) {
  static const bool quiet = [] {
    pcl::console::setVerbosityLevel(pcl::console::L_ALWAYS);
    return true;
  }();
  (void)quiet;
  Rng r = ctx.rng();
  const std::string dir = ctx.dir + "/w";
  fs::remove_all(dir);
  fs::create_directory(dir);
  Options o;
  o.enc = r.pick({"lossy", "lossy", "lossless", "none"});
  o.comp = r.pick({"lz4", "zstd", "none"});
  std::vector<std::string> args;
  auto opt = [&](const char* s, const char* l, const std::string& v) {
    if (r.chance(0.4)) {
      args.push_back(s);
      args.push_back(v);
    } else if (r.chance(0.5)) {
      args.push_back(std::string(l) + "=" + v);
    } else {
      args.push_back(l);
      args.push_back(v);
    }
  };
  std::vector<std::function<void()>> opts;
  if (o.enc == "lossy" && r.chance(0.3)) ;  // the default
  else opts.push_back([&] { opt("-e", "--encoding", o.enc); });
  if (o.comp == "zstd" && r.chance(0.3)) ;
  else opts.push_back([&] { opt("-c", "--compression", o.comp); });
  if (r.chance(0.7)) {
    o.res = r.chance(0.9) ? double(pickResolution(r, true)) : 0.0;
    opts.push_back([&] { opt("-r", "--resolution", fmt("%.9g", o.res)); });
  }
  if (r.chance(0.6)) {
    o.ires = r.chance(0.8) ? double(pickResolution(r, true)) : 0.0;
    opts.push_back([&] { opt("-i", "--intensity-resolution", fmt("%.9g", o.ires)); });
  }
  if (r.chance(0.2)) opts.push_back([&] { args.push_back("-v"); });
  // the values as the tool reads them back
  o.res = strtod(fmt("%.9g", o.res).c_str(), nullptr);
  o.ires = strtod(fmt("%.9g", o.ires).c_str(), nullptr);
  const int kind = int(idx % 10);
  std::string where;
  auto fail = [&](const char* key, const std::string& what, const Run& x) {
    ctx.violate(key, what + fmt(" (exit %d, %s), ", x.code, x.err.substr(0, 200).c_str()) + where);
  };
  auto describeArgs = [&] {
    where = "arguments";
    for (auto& a : args) where += " '" + a + "'";
    ctx.label(where);
  };
  auto unchanged = [&](const Source& s, const Run& x) {
    if (slurp(dir + "/" + s.name) != s.file) fail("input-changed", "the input file was changed", x);
  };
  auto finishArgs = [&] {
    r.shuffle(opts);
    for (auto& f : opts) f();
    describeArgs();
  };
  if (kind <= 4) {  // one file
    const std::string name = r.pick({"a.pcd", "cloud one.pcd", "x.y.pcd", "dir/a.pcd"});
    fs::create_directory(dir + "/dir");
    const Source s = makeSource(ctx, r, dir, name, o.res > 0 ? o.res : 0.01);
    std::string out = name.substr(0, name.size() - 4) + ".cldn";
    opts.push_back([&] { opt("-f", "--filename", name); });
    if (r.chance(0.5)) {
      const std::string given = r.pick<std::string>({"out.cldn", "dir/o.cldn", "out", "out.bin", "a.pcd", "out.tar.gz"});
      out = given == "out.bin" || given == "out" ? "out.cldn" : given == "a.pcd" ? "a.cldn" : given == "out.tar.gz" ? "out.tar.cldn" : given;
      opts.push_back([&, given] { opt("-o", "--output", given); });
    }
    std::string answer;
    bool refuse = false;
    const Bytes old(r.chance(0.5) ? size_t(r.range(0, 9)) : size_t(r.range(1000, 200000)), uint8_t(5));
    const bool exists = r.chance(0.3);
    if (exists) {
      spit(dir + "/" + out, old);
      switch (r.below(3)) {
        case 0: opts.push_back([&] { args.push_back(r.chance(0.5) ? "-y" : "--yes"); }); break;
        case 1: answer = r.chance(0.5) ? "y\n" : "Y\n"; break;
        default: answer = r.pick<std::string>({"n\n", "N\n", "no\n", "", "\n", " \n\n", "x\n", "0\n"}); refuse = true; break;
      }
    }
    finishArgs();
    const Run x = run(dir, args, answer);
    if (sanitizer(x)) fail("sanitizer", "sanitizer report", x);
    unchanged(s, x);
    if (refuse) {
      if (slurp(dir + "/" + out) != old) fail("overwritten", "the output was overwritten although the answer was no", x);
      ctx.count("overwrites_declined");
    } else {
      if (x.code != 0) fail("refused", "a valid conversion failed", x);
      else {
        const std::string d = verify(ctx, s, o, dir, dir + "/" + out);
        if (!d.empty()) fail("output", d, x);
        ctx.count("single_conversions");
        ctx.count(fmt("encoding_%s", o.enc.c_str()));
        ctx.count(fmt("compression_%s", o.comp.c_str()));
      }
    }
  } else if (kind == 5) {  // a directory
    const size_t k = size_t(r.range(1, 4));
    std::vector<Source> src;
    fs::create_directory(dir + "/in");
    const int style = int(r.below(4));  // names may contain dots and blanks, and differ after a dot only
    auto stem = [&](size_t i) { return fmt(style == 0 ? "scan.%zu" : style == 1 ? "a b.v1.%zu" : "cloud%zu", i); };
    for (size_t i = 0; i < k; ++i) src.push_back(makeSource(ctx, r, dir, "in/" + stem(i) + ".pcd", o.res > 0 ? o.res : 0.01));
    if (style < 2 && k > 1) ctx.count("batches_with_dotted_names");
    const bool bad = r.chance(0.4);
    if (bad) spit(dir + "/in/broken.pcd", Bytes{'F', 'I', 'E', 'L', 'D', 'S', ' ', 'x', '\n'});
    spit(dir + "/in/readme.txt", Bytes{'h', 'i'});
    opts.push_back([&] { opt("-b", "--batch", r.chance(0.5) ? "in" : "in/"); });
    // some of the outputs are there already
    const int existing = r.chance(0.6) ? 0 : int(r.range(1, 3));  // 1: -y, 2: yes to all, 3: no to all
    const Bytes old(size_t(r.range(1, 100000)), uint8_t(7));
    std::vector<bool> there(k, false);
    std::string answers;
    if (existing) {
      for (size_t i = 0; i < k; ++i)
        if (r.chance(0.6)) {
          there[i] = true;
          spit(dir + "/in/" + stem(i) + ".cldn", old);
          answers += existing == 2 ? "y\n" : "n\n";
        }
      if (existing == 1) {
        opts.push_back([&] { args.push_back("-y"); });
        answers.clear();
      }
      if (existing == 3 && r.chance(0.3)) answers.clear();
    }
    finishArgs();
    const Run x = run(dir, args, answers);
    if (sanitizer(x)) fail("sanitizer", "sanitizer report", x);
    if (x.code != 0 && !bad && existing != 3) fail("refused", "a valid conversion failed", x);
    for (size_t i = 0; i < k; ++i) {
      const Source& s = src[i];
      unchanged(s, x);
      if (existing == 3 && there[i]) {
        if (slurp(dir + "/in/" + stem(i) + ".cldn") != old) fail("overwritten", "an output of the batch was overwritten although the answer was no", x);
        ctx.count("batch_overwrites_declined");
        continue;
      }
      if (there[i]) ctx.count("batch_overwrites");
      const std::string d = verify(ctx, s, o, dir, dir + "/" + s.name.substr(0, s.name.size() - 4) + ".cldn");
      if (!d.empty()) fail("output", d, x);
    }
    for (auto& e : fs::directory_iterator(dir + "/in"))
      if (e.path().extension() != ".pcd" && e.path().extension() != ".cldn" && e.path().filename() != "readme.txt") fail("stray-file", e.path().string(), x);
    ctx.count("batch_conversions");
  } else {  // requests that must fail
    const Source s = makeSource(ctx, r, dir, "a.pcd", o.res > 0 ? o.res : 0.01);
    std::string what;
    bool file = true;
    long limit = -1;
    switch (r.below(13)) {
      case 11:
        what = "output that is a link to the input";
        if (r.chance(0.5)) fs::create_symlink("a.pcd", dir + "/a.cldn");
        else fs::create_hard_link(dir + "/a.pcd", dir + "/a.cldn");
        opts.push_back([&] { args.push_back("-y"); });
        break;
      case 0: what = "unknown encoding"; opts.clear(); { const std::string v = r.pick<std::string>({"lossyy", "LOSSY", "", "zstd", "1"}); opts.push_back([&, v] { args.push_back("--encoding=" + v); }); } break;
      case 1: what = "unknown compression"; opts.clear(); { const std::string v = r.pick<std::string>({"gzip", "ZSTD", "", "lossy", "2"}); opts.push_back([&, v] { args.push_back("--compression=" + v); }); } break;
      case 2: what = "missing input"; file = false; opts.push_back([&] { opt("-f", "--filename", "b.pcd"); }); break;
      case 3: what = "neither file nor directory"; file = false; break;
      case 4: what = "file and directory"; opts.push_back([&] { opt("-b", "--batch", "."); }); break;
      case 5: what = "unknown option"; opts.push_back([&] { args.push_back("--nonsense"); }); break;
      case 6: what = "resolution that is no number"; opts.push_back([&] { args.push_back("--resolution=abc"); }); break;
      case 7: what = "directory that does not exist"; file = false; opts.push_back([&] { opt("-b", "--batch", "nowhere"); }); break;
      case 8: what = "input of another kind"; file = false; spit(dir + "/a.txt", s.file); opts.push_back([&] { opt("-f", "--filename", "a.txt"); }); break;
      case 9: {
        what = "damaged input";
        Bytes b = s.file;
        const size_t h = s.text.header.size();
        switch (r.below(4)) {
          case 0: b.resize(r.below(h - 12)); break;                     // the header is cut
          case 1: b.assign(r.below(200), uint8_t(r.next())); break;     // something else
          case 2: b.clear(); break;
          default: {                                                    // the lists disagree
            std::string t(b.begin(), b.end());
            const size_t at = t.find("\nSIZE ");
            if (at != std::string::npos) t.replace(at, 6, "\nSIZE 4 4 4 4 4 4 4 4 ");
            b.assign(t.begin(), t.end());
          }
        }
        spit(dir + "/d.pcd", b);
        pcl::PCLPointCloud2 probe;  // PCL takes some cut headers for an empty cloud
        if (pcl::io::loadPCDFile(dir + "/d.pcd", probe) == 0) {
          ctx.count("damaged_files_pcl_reads");
          return;
        }
        file = false;
        opts.push_back([&] { opt("-f", "--filename", "d.pcd"); });
      } break;
      case 10: what = "output that cannot be created"; opts.push_back([&] { opt("-o", "--output", "nowhere/o.cldn"); }); break;
      default:
        what = "output that cannot be written completely";
        limit = 20;
        break;
    }
    if (file) opts.push_back([&] { opt("-f", "--filename", "a.pcd"); });
    finishArgs();
    where = what + ": " + where;
    const Run x = run(dir, args, "", limit);
    if (sanitizer(x)) fail("sanitizer", "sanitizer report", x);
    if (x.code == 0) fail("failure-not-reported", "exit status 0", x);
    if (x.code >= 1000) fail("crash", "the converter crashed", x);
    unchanged(s, x);
    ctx.count("refused: " + what);
    ctx.nontrivial(hashStr(where) ^ hashBytes(s.file.data(), s.file.size()));
  }
  if (idx % 301 == 7) ctx.sample(where);
}
void finishWorker(Ctx&) {}
