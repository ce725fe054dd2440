// A generated C/C++ project built through the real buildcc::Target, with the
// compiler/linker replaced by a deterministic stand-in: every output is a
// function of the command line and of the contents of everything the step is
// declared to read. An output is fresh iff it equals that function evaluated
// on the project as it is now, so staleness is observable without looking at
// how buildcc decides what to rebuild.
#pragma once
#include <fcntl.h>
#include <sys/stat.h>
#include <unistd.h>

#include <array>
#include <map>
#include <memory>
#include <mutex>
#include <set>
#include <thread>

#include "exec_stub.hpp"
#include "pbt.hpp"

#include "env/env.h"
#include "env/task_state.h"
#include "target/target.h"
#include "toolchain/toolchain.h"

namespace tw {
using namespace pbt;
using buildcc::Target;
using buildcc::TargetConfig;
using buildcc::TargetEnv;
using buildcc::TargetType;
using buildcc::Toolchain;

constexpr char SEP = '\x1f';
enum Kind { SRC, HDR, PCH, CDEP, LDEP };
enum Cat { PRE, COMMON, PCHC, PCHO, ASM, CC_, CPP, LINK, NCAT };
inline const char *cat_name(int c) {
  static const char *n[] = {"preprocessor", "common", "pch_compile", "pch_object",
                            "asm", "c", "cpp", "link"};
  return n[c];
}

struct File {
  Kind kind;
  std::string rel; // relative to the project root
  int version{0};
  int newest{0};
  bool exists{true};
  int64_t tick{0};
  std::vector<std::pair<int, int64_t>> past; // earlier (version, tick)
};

struct Tgt {
  std::string name;
  TargetType type{TargetType::Executable};
  std::string root; // target root relative to the project root
  std::vector<int> sources, headers, pchs, cdeps, ldeps;
  std::vector<int> libs; // indices of earlier targets
  int dup{0};            // 1: the first source is added twice, 2: spelled differently
  std::vector<std::string> incdirs, libdirs, extlibs;
  std::array<std::vector<std::string>, NCAT> flags;
};

struct Step { // identifies a command
  std::string kind; // CC PC LD
  std::string target;
  int src{-1};
  bool operator<(const Step &o) const {
    return std::tie(kind, target, src) < std::tie(o.kind, o.target, o.src);
  }
  bool operator==(const Step &o) const {
    return kind == o.kind && target == o.target && src == o.src;
  }
};
struct Exec {
  Step step;
  bool ok;
};
struct Fault {
  Step step;
  int code;
  int mode; // 0 keep old output, 1 delete output, 2 garbage
};
struct MidEdit {
  Step step;
  int file;
  bool before;
  bool fired{false};
};

inline std::vector<std::string> split(const std::string &s, char d) {
  std::vector<std::string> r(1);
  for (char c : s) {
    if (c == d)
      r.emplace_back();
    else
      r.back() += c;
  }
  return r;
}
inline std::vector<std::string> words(const std::string &s) {
  std::vector<std::string> r;
  for (auto &w : split(s, ' '))
    if (!w.empty())
      r.push_back(w);
  return r;
}
inline std::string hex(uint64_t h) {
  char b[20];
  snprintf(b, sizeof b, "%016lx", (unsigned long)h);
  return b;
}

inline bool is_cpp(const std::string &p) {
  auto e = fs::path(p).extension().string();
  return e == ".cpp" || e == ".cc" || e == ".cxx";
}
inline bool is_c(const std::string &p) { return fs::path(p).extension() == ".c"; }

class World {
public:
  Ctx &ctx;
  fs::path base, root, bdir;
  std::vector<File> files;
  std::vector<Tgt> tgts;
  int64_t hi{1000}, lo{999};
  int64_t step_ns{1};
  bool allow_restore{true};
  int64_t jump{1}; // how far apart in time edits are
  std::mutex mu;

  // per-build instrumentation
  std::vector<Exec> execs;
  std::vector<Fault> faults;
  std::vector<MidEdit> mids;
  int crash_at{-1};    // n-th command
  int crash_phase{0};  // 0 before, 1 torn output, 2 after
  int cmd_count{0};
  std::vector<std::unique_ptr<Target>> live;
  std::unique_ptr<Toolchain> tc;

  explicit World(Ctx &c) : ctx(c) {
    base = fs::weakly_canonical(ctx.dir);
    root = base / "r";
    bdir = base / "b";
    fs::create_directories(root / "d/f");
    fs::create_directories(base / "o");
    fs::create_directories(bdir);
    probe_granularity();
    auto add = [&](Kind k, const std::string &rel) { files.push_back({k, rel}); };
    for (auto s : {"a.c", "b.cpp", "m.S", "d/a.c", "d/e.cc", "d/f/g.cxx", "k.cpp", "../o/x.cpp", "y.c", "z.asm"})
      add(SRC, s);
    for (auto s : {"h0.h", "h1.hpp", "d/h0.h"})
      add(HDR, s);
    for (auto s : {"p0.h", "p1.hpp", "d/p0.h"})
      add(PCH, s);
    for (auto s : {"cd0.txt", "d/cd0.txt"})
      add(CDEP, s);
    for (auto s : {"l0.ld", "d/l0.ld"})
      add(LDEP, s);
    for (size_t i = 0; i < files.size(); i++)
      write(i, true);
  }
  ~World() { stub::set_handler(nullptr); }

  fs::path path(size_t f) const { return (root / files[f].rel).lexically_normal(); }
  std::vector<int> of(Kind k) const {
    std::vector<int> r;
    for (size_t i = 0; i < files.size(); i++)
      if (files[i].kind == k)
        r.push_back((int)i);
    return r;
  }
  void probe_granularity() {
    fs::path p = base / "probe";
    write_file(p, "x");
    set_tick(p, 12345);
    struct stat st;
    stat(p.c_str(), &st);
    step_ns = 1;
    if (st.st_mtim.tv_nsec % 1000000000 != tick_ns(12345) % 1000000000)
      step_ns = 2000000000;
    fs::remove(p);
  }
  int64_t tick_ns(int64_t t) const { return t * step_ns; }
  void set_tick(const fs::path &p, int64_t t) {
    int64_t ns = tick_ns(t);
    int64_t sec = 1600000000 + ns / 1000000000;
    int64_t n = ns % 1000000000;
    if (n < 0) {
      n += 1000000000;
      sec -= 1;
    }
    timespec ts[2] = {{sec, n}, {sec, n}};
    utimensat(AT_FDCWD, p.c_str(), ts, 0);
  }
  // new content, new (unique) timestamp
  void write(size_t f, bool newer) {
    File &x = files[f];
    if (x.version)
      x.past.emplace_back(x.version, x.tick);
    x.version = ++x.newest;
    x.exists = true;
    x.tick = newer ? hi += jump : lo -= jump;
    write_file(path(f), x.rel + "#" + std::to_string(x.version));
    set_tick(path(f), x.tick);
  }
  // an earlier version comes back, with the timestamp it had
  void restore(size_t f, size_t which) {
    File &x = files[f];
    auto old = x.past[which];
    x.past.emplace_back(x.version, x.tick);
    x.version = old.first;
    x.tick = old.second;
    x.exists = true;
    write_file(path(f), x.rel + "#" + std::to_string(x.version));
    set_tick(path(f), x.tick);
  }
  void remove(size_t f) {
    files[f].exists = false;
    fs::remove(path(f));
  }

  // ---- commands -----------------------------------------------------------
  TargetConfig config(const Tgt &t) const {
    TargetConfig c;
    c.target_ext = t.type == TargetType::Executable ? ".exe" : ".lib";
    std::string S(1, SEP);
    auto j = [&](std::vector<std::string> v) {
      std::string r;
      for (auto &x : v)
        r += (r.empty() ? "" : S) + x;
      return r;
    };
    c.compile_command = j({"CC", t.name, "{compiler}", "{preprocessor_flags}", "{include_dirs}",
                           "{common_compile_flags}", "{pch_object_flags}", "{pch_object_output}",
                           "{compile_flags}", "{output}", "{input}"});
    c.pch_command = j({"PC", t.name, "{compiler}", "{preprocessor_flags}", "{include_dirs}",
                       "{common_compile_flags}", "{pch_compile_flags}", "{compile_flags}",
                       "{output}", "{input}", "{input_source}"});
    c.link_command = j({"LD", t.name, "{cpp_compiler}", "{link_flags}", "{compiled_sources}",
                        "{output}", "{lib_dirs}", "{lib_deps}"});
    return c;
  }
  std::string content(const std::vector<int> &fs_) const {
    std::string r;
    for (int f : fs_)
      r += "[" + (fs::exists(path((size_t)f)) ? read_file(path((size_t)f)) : "<missing>") + "]";
    return r;
  }
  // outputs as functions of command + inputs
  std::string obj_content(const Tgt &t, const std::vector<std::string> &f,
                          const std::string &src_content, const std::string &pch) const {
    std::string cmd;
    for (size_t i = 2; i < f.size(); i++)
      cmd += f[i] + "|";
    return "OBJ " + cmd + " src=" + src_content + " hdr=" + content(t.headers) +
           " cdep=" + content(t.cdeps) + " pch=" + (t.pchs.empty() ? "-" : hex(hash_str(pch)));
  }
  std::string pch_content(const Tgt &t, const std::string &cmdline, const std::string &includes) const {
    return "PCH " + cmdline + " inc=" + includes + " pchs=" + content(t.pchs) +
           " hdr=" + content(t.headers);
  }
  static std::string member(const std::string &o) {
    auto c = o.find(':');
    return o.substr(0, c) + ":" + hex(hash_str(o.substr(c + 1)));
  }
  // an archiver updates the archive it finds: members that are not replaced stay
  static std::string stale_members(const std::string &old, const std::string &now) {
    auto list = [](const std::string &c) {
      std::map<std::string, std::string> r;
      auto a = c.find(" objs=");
      if (c.compare(0, 4, "LNK ") != 0 || a == std::string::npos)
        return r;
      auto e = c.find(" libs=", a);
      for (auto &m : split(c.substr(a + 6, e == std::string::npos ? e : e - a - 6), ','))
        if (m.find(':') != std::string::npos)
          r[m.substr(0, m.find(':'))] = m;
      return r;
    };
    auto n = list(now);
    std::string r;
    for (auto &[k, m] : list(old))
      if (!n.count(k))
        r += m + ",";
    return r.empty() ? r : " left-over=" + r;
  }
  std::string link_content(const Tgt &t, const std::string &flags, const std::string &libdirs,
                           const std::string &libdeps, std::vector<std::string> objs,
                           const std::vector<std::string> &libs) const {
    // objs: "member name:content"
    std::sort(objs.begin(), objs.end());
    std::string r = "LNK " + flags + "|" + libdirs + "|" + libdeps + " objs=";
    for (auto &o : objs)
      r += member(o) + ",";
    r += " libs=";
    for (auto &o : libs)
      r += hex(hash_str(o)) + ",";
    return r + " ldep=" + content(t.ldeps);
  }
  static std::string includes_of(const std::string &hdr) {
    std::string r;
    for (auto l : split(hdr, '\n')) {
      auto a = l.find("#include");
      if (a == std::string::npos)
        continue;
      auto b = l.find('"', a), e = b == std::string::npos ? b : l.find('"', b + 1);
      if (e != std::string::npos)
        r += l.substr(b + 1, e - b - 1) + ";";
    }
    return r;
  }
  const Tgt &tgt(const std::string &n) const {
    for (auto &t : tgts)
      if (t.name == n)
        return t;
    throw Violation{"command for unknown target " + n};
  }
  int find_src(const Tgt &t, const std::string &p) const {
    for (int s : t.sources)
      if (path((size_t)s) == fs::path(p))
        return s;
    return -1;
  }

  int handle(const std::string &cmd) {
    auto f = split(cmd, SEP);
    std::unique_lock<std::mutex> lk(mu);
    if (f.size() < 3) {
      handler_error = "unexpected command: " + cmd;
      return 1;
    }
    const Tgt *t = nullptr;
    for (auto &x : tgts)
      if (x.name == f[1])
        t = &x;
    Step st{f[0], f[1], -1};
    size_t oi = f[0] == "CC" ? 9 : f[0] == "PC" ? 8 : 5;
    if (!t || f.size() <= oi) {
      handler_error = "unexpected command: " + cmd;
      return 1;
    }
    if (f[0] == "CC") {
      st.src = find_src(*t, f[10]);
      if (st.src < 0)
        handler_error = "compile of a source that is not part of the target: " + f[10];
    }
    int my = cmd_count++;
    if (my == crash_at && crash_phase == 0)
      _exit(99);
    for (auto &m : mids)
      if (!m.fired && m.before && m.step == st) {
        m.fired = true;
        write((size_t)m.file, true);
      }
    fs::path out = f[oi];
    int rc = 0;
    const Fault *flt = nullptr;
    for (auto &x : faults)
      if (x.step == st)
        flt = &x;
    if (flt) {
      if (flt->mode == 1)
        fs::remove(out);
      if (flt->mode == 2)
        put(out, "GARBAGE");
      rc = flt->code;
    } else {
      std::string c;
      if (f[0] == "CC")
        c = obj_content(*t, f, st.src >= 0 ? content({st.src}) : "?",
                        t->pchs.empty() ? "" : read_file(pch_path(f[1])));
      else if (f[0] == "PC")
        c = pch_content(*t, f[2] + "|" + f[3] + "|" + f[4] + "|" + f[5] + "|" + f[6] + "|" + f[7],
                        includes_of(read_file(f[9])));
      else {
        std::vector<std::string> objs, libs;
        for (auto &w : words(f[4]))
          objs.push_back(fs::path(w).filename().string() + ":" +
                         (fs::exists(w) ? read_file(w) : "<missing>"));
        for (auto &w : words(f[7]))
          if (fs::exists(w))
            libs.push_back(read_file(w));
        c = link_content(*t, f[3], f[6], f[7], objs, libs);
        if (t->type == TargetType::StaticLibrary && fs::exists(out))
          c += stale_members(read_file(out), c);
      }
      if (my == crash_at && crash_phase == 1) {
        put(out, c.substr(0, c.size() / 2));
        _exit(99);
      }
      put(out, c);
    }
    execs.push_back({st, rc == 0});
    for (auto &m : mids)
      if (!m.fired && !m.before && m.step == st) {
        m.fired = true;
        write((size_t)m.file, true);
      }
    if (my == crash_at && crash_phase == 2)
      _exit(99);
    return rc;
  }
  std::string handler_error;
  void put(const fs::path &p, const std::string &c) {
    write_file(p, c);
    set_tick(p, ++hi);
  }
  fs::path pch_path(const std::string &name) const {
    return bdir / "tc" / name / "buildcc_pch.h.gch";
  }

  // ---- build --------------------------------------------------------------
  void construct() {
    buildcc::Project::Deinit();
    buildcc::Project::Init(root, bdir);
    buildcc::env::set_task_state(buildcc::env::TaskState::SUCCESS);
    live.clear();
    tc = std::make_unique<Toolchain>(
        buildcc::ToolchainId::Gcc, "tc",
        buildcc::ToolchainExecutables("as", "cc", "cxx", "ar", "ld"));
    for (auto &t : tgts) {
      live.push_back(std::make_unique<Target>(t.name, t.type, *tc, TargetEnv(t.root.c_str()),
                                              config(t)));
      Target &x = *live.back();
      fs::path rel_to_target = t.root.empty() ? fs::path("") : fs::path("..");
      auto rel = [&](int f) { return rel_to_target / files[(size_t)f].rel; };
      for (int s : t.sources)
        x.AddSource(rel(s));
      if (t.dup == 1)
        x.AddSource(rel(t.sources[0]));
      if (t.dup == 2)
        x.AddSource(fs::path("./d/..") / rel(t.sources[0]));
      for (int s : t.headers)
        x.AddHeader(rel(s));
      for (int s : t.pchs)
        x.AddPch(rel(s));
      for (int s : t.cdeps)
        x.AddCompileDependency(rel(s));
      for (int s : t.ldeps)
        x.AddLinkDependency(rel(s));
      for (auto &d : t.incdirs)
        x.AddIncludeDir(d);
      for (auto &d : t.libdirs)
        x.AddLibDir(d);
      for (auto &d : t.extlibs)
        x.AddLibDep(d);
      for (int l : t.libs)
        x.AddLibDep(*live[(size_t)l]);
      for (auto &fl : t.flags[PRE])
        x.AddPreprocessorFlag(fl);
      for (auto &fl : t.flags[COMMON])
        x.AddCommonCompileFlag(fl);
      for (auto &fl : t.flags[PCHC])
        x.AddPchCompileFlag(fl);
      for (auto &fl : t.flags[PCHO])
        x.AddPchObjectFlag(fl);
      for (auto &fl : t.flags[ASM])
        x.AddAsmCompileFlag(fl);
      for (auto &fl : t.flags[CC_])
        x.AddCCompileFlag(fl);
      for (auto &fl : t.flags[CPP])
        x.AddCppCompileFlag(fl);
      for (auto &fl : t.flags[LINK])
        x.AddLinkFlag(fl);
    }
  }
  // one invocation of the build script; true = reported as successful
  bool build(unsigned workers) {
    execs.clear();
    cmd_count = 0;
    handler_error.clear();
    stub::set_handler([this](const std::string &c, const std::string &, const stub::Reader &,
                             const stub::Reader &) { return handle(c); });
    construct();
    for (auto &t : live)
      t->Build();
    tf::Taskflow flow;
    std::vector<tf::Task> tasks;
    for (auto &t : live)
      tasks.push_back(flow.composed_of(t->GetTaskflow()));
    for (size_t i = 0; i < tgts.size(); i++)
      for (int l : std::set<int>(tgts[i].libs.begin(), tgts[i].libs.end()))
        tasks[(size_t)l].precede(tasks[i]);
    tf::Executor ex(workers);
    ex.run(flow).wait();
    ex.wait_for_all();
    if (!handler_error.empty())
      ctx.fail(handler_error);
    return buildcc::env::get_task_state() == buildcc::env::TaskState::SUCCESS;
  }

  // ---- oracle -------------------------------------------------------------
  std::string expected_pch(const Tgt &t) const {
    bool cpp = false;
    for (int s : t.sources)
      cpp |= is_cpp(files[(size_t)s].rel);
    auto join = [](const std::vector<std::string> &v) {
      std::string r;
      for (auto &x : v)
        r += (r.empty() ? "" : " ") + x;
      return r;
    };
    std::string inc;
    for (auto &d : t.incdirs)
      inc += (inc.empty() ? "" : " ") + ("-I" + buildcc::path_as_string(root / t.root / d));
    std::string cmd = std::string(cpp ? "cxx" : "cc") + "|" + join(t.flags[PRE]) + "|" + inc +
                      "|" + join(t.flags[COMMON]) + "|" + join(t.flags[PCHC]) + "|" +
                      join(cpp ? t.flags[CPP] : t.flags[CC_]);
    std::string includes;
    for (int p : t.pchs)
      includes += path((size_t)p).string() + ";";
    return pch_content(t, cmd, includes);
  }
  // Every output equals what building the project from scratch would produce.
  void check_fresh(const std::string &when) {
    std::vector<std::string> lib_out(tgts.size());
    for (size_t i = 0; i < tgts.size(); i++) {
      const Tgt &t = tgts[i];
      Target &x = *live[i];
      std::string pch;
      if (!t.pchs.empty()) {
        pch = expected_pch(t);
        ctx.equal(read_file(x.GetPchCompilePath()), pch,
                  when + ": precompiled header of " + t.name + " is stale");
      }
      std::vector<std::string> objs;
      std::set<int> uniq(t.sources.begin(), t.sources.end());
      for (int s : uniq) {
        auto f = split(x.GetCompileCommand(path((size_t)s)), SEP);
        std::string e = obj_content(t, f, content({s}), pch);
        ctx.equal(read_file(f[9]), e,
                  when + ": object of " + t.name + "/" + files[(size_t)s].rel + " is stale");
        objs.push_back(fs::path(f[9]).filename().string() + ":" + e);
      }
      std::vector<std::string> libs;
      for (int l : t.libs)
        libs.push_back(lib_out[(size_t)l]);
      auto f = split(x.GetLinkCommand(), SEP);
      std::string e = link_content(t, f[3], f[6], f[7], objs, libs);
      ctx.equal(read_file(x.GetTargetPath()), e, when + ": linked output of " + t.name + " is stale");
      lib_out[i] = e;
    }
  }
  std::string exec_str() const {
    std::string r;
    for (auto &e : execs)
      r += " " + e.step.kind + ":" + e.step.target +
           (e.step.src >= 0 ? "/" + files[(size_t)e.step.src].rel : "") + (e.ok ? "" : "(FAILED)");
    return r.empty() ? " (nothing)" : r;
  }
  unsigned count(const Step &s) const {
    unsigned n = 0;
    for (auto &e : execs)
      n += e.step == s;
    return n;
  }

  // ---- generators ---------------------------------------------------------
  static std::string tname(size_t i) { return "t" + std::to_string(i); }

  // a project with many files
  void grow(Src &s) {
    size_t before = files.size();
    size_t n = 10 + s.draw(60), h = 2 + s.draw(24);
    for (size_t i = 0; i < n; i++)
      files.push_back({SRC, "d/s" + std::to_string(i) + (i % 3 ? ".cpp" : ".c")});
    for (size_t i = 0; i < h; i++) {
      files.push_back({HDR, "h_" + std::to_string(i) + ".h"});
      files.push_back({PCH, "p_" + std::to_string(i) + ".h"});
      files.push_back({CDEP, "c_" + std::to_string(i) + ".txt"});
      files.push_back({LDEP, "l_" + std::to_string(i) + ".txt"});
    }
    for (size_t i = before; i < files.size(); i++)
      write(i, true);
    ctx.note("large project: " + std::to_string(files.size()) + " files");
    ctx.label("large project");
  }

  void gen_project(Src &s, size_t max_targets) {
    if (s.chance(1, 4)) { // a checkout: every file carries the same timestamp
      ctx.note("all files have the same timestamp");
      for (size_t f = 0; f < files.size(); f++)
        set_tick(path(f), files[f].tick = hi);
    }
    bool big = s.chance(1, 14);
    if (big)
      grow(s);
    if (s.chance(1, 8)) { // one file is a symbolic link out of the project
      size_t f = s.draw(files.size());
      fs::path real = base / "o" / ("real" + std::to_string(f));
      fs::rename(path(f), real);
      fs::create_symlink(real, path(f));
      ctx.note(files[f].rel + " is a symbolic link");
    }
    size_t n = 1 + s.draw(big ? max_targets * 2 : max_targets);
    for (size_t i = 0; i < n; i++) {
      Span sp(s);
      Tgt t;
      t.name = tname(i);
      t.type = i + 1 == n ? TargetType::Executable
               : s.chance(1, 4) ? TargetType::DynamicLibrary
                                : TargetType::StaticLibrary;
      if (s.chance(1, 5))
        t.root = "d";
      auto srcs = of(SRC);
      size_t k = 1 + s.draw(big ? srcs.size() : 4);
      for (size_t j = 0; j < k; j++) {
        int f = srcs[s.draw(srcs.size())];
        if (std::find(t.sources.begin(), t.sources.end(), f) == t.sources.end())
          t.sources.push_back(f);
      }
      if (s.chance(1, 8))
        t.dup = 1 + (int)s.draw(2);
      const bool many = big && s.coin();
      for (int f : of(HDR))
        if (s.chance(many ? 3 : 1, many ? 4 : 3))
          t.headers.push_back(f);
      if (s.chance(1, 2))
        for (int f : of(PCH))
          if (s.chance(many ? 3 : 2, 4))
            t.pchs.push_back(f);
      for (int f : of(CDEP))
        if (s.chance(many ? 3 : 1, 4))
          t.cdeps.push_back(f);
      for (int f : of(LDEP))
        if (s.chance(many ? 3 : 1, 4))
          t.ldeps.push_back(f);
      for (size_t l = 0; l < i; l++)
        if (s.chance(1, 2))
          t.libs.push_back((int)l);
      for (int c = 0; c < NCAT; c++)
        if (s.chance(1, 3)) {
          size_t nf = 1 + s.draw(big ? 20 : 3);
          for (size_t j = 0; j < nf; j++)
            t.flags[(size_t)c].push_back(gen_flag(s));
        }
      if (s.chance(1, 3))
        for (size_t j = 1 + s.draw(big ? 20 : 3); j > 0; j--)
          t.incdirs.push_back(gen_dir(s));
      if (s.chance(1, 4))
        for (size_t j = 1 + s.draw(big ? 20 : 3); j > 0; j--)
          t.libdirs.push_back(gen_dir(s));
      if (s.chance(1, 4))
        for (size_t j = 1 + s.draw(big ? 20 : 3); j > 0; j--)
          t.extlibs.push_back(gen_lib(s));
      ctx.note("target " + describe(t));
      tgts.push_back(t);
    }
  }
  std::string describe(const Tgt &t) const {
    auto l = [&](const char *n, const std::vector<int> &v) {
      std::string r;
      for (int f : v)
        r += (r.empty() ? "" : ",") + files[(size_t)f].rel;
      return v.empty() ? std::string() : std::string(" ") + n + "={" + r + "}";
    };
    std::string r = t.name + (t.root.empty() ? "" : " root=" + t.root) + l("src", t.sources) +
                    (t.dup ? " (first source added twice)" : "") +
                    l("hdr", t.headers) + l("pch", t.pchs) + l("cdep", t.cdeps) + l("ldep", t.ldeps);
    for (int i : t.libs)
      r += " lib=t" + std::to_string(i);
    for (int c = 0; c < NCAT; c++)
      if (!t.flags[(size_t)c].empty())
        r += std::string(" ") + cat_name(c) + "=" + Ctx::show(t.flags[(size_t)c]);
    if (!t.incdirs.empty())
      r += " inc=" + Ctx::show(t.incdirs);
    if (!t.libdirs.empty())
      r += " libdir=" + Ctx::show(t.libdirs);
    if (!t.extlibs.empty())
      r += " ext=" + Ctx::show(t.extlibs);
    return r;
  }
  std::string gen_flag(Src &s) {
    static const std::vector<std::string> f{"-DA", "-DB=1", "-O2", "-g", "-Wall", "-fx", "-D\xc3\xa9=\xe2\x82\xac",
                                            "-DS=\\\"q\\\"", "-DB=2", "-da"};
    return s.pick(f);
  }
  std::string gen_dir(Src &s) {
    static const std::vector<std::string> f{"inc", "d", "d/f", "inc2", "inc2/../d/../x", "INC"};
    return s.pick(f);
  }
  std::string gen_lib(Src &s) {
    static const std::vector<std::string> f{"-lm", "-lz", "-lpthread"};
    return s.pick(f);
  }
  template <typename T> static void toggle(std::vector<T> &v, const T &x) {
    auto it = std::find(v.begin(), v.end(), x);
    if (it == v.end())
      v.push_back(x);
    else
      v.erase(it);
  }
  template <typename T> void edit_list(Src &s, std::vector<T> &v, const T &x, std::string &d) {
    switch (s.weighted(v.size() > 1 ? std::vector<unsigned>{2, 2, 5, 2, 3} : std::vector<unsigned>{1, 1, 0, 1, 1})) {
    case 0:
      toggle(v, x);
      d += " toggle";
      break;
    case 1:
      v.push_back(x);
      d += " append";
      break;
    case 4:
      // the same characters, divided in another way
      if constexpr (std::is_same_v<T, std::string>) {
        if (v.size() > 1 && s.coin()) {
          size_t i = s.draw(v.size() - 1);
          v[i] += v[i + 1];
          v.erase(v.begin() + (long)i + 1);
          d += " join two";
          break;
        }
        if (!v.empty()) {
          size_t i = s.draw(v.size());
          size_t at = v[i].size() < 2 ? 0 : 1 + s.draw(v[i].size() - 1);
          if (at != 0 && ((unsigned char)v[i][at] & 0xc0) != 0x80 && v[i].find('\\') == std::string::npos) {
            std::string rest = v[i].substr(at);
            v[i].resize(at);
            v.insert(v.begin() + (long)i + 1, rest);
            d += " split one";
            break;
          }
        }
      }
      toggle(v, x);
      d += " toggle";
      break;
    case 2:
      if (v.size() > 1) {
        size_t i = s.coin() ? v.size() - 1 : 1 + s.draw(v.size() - 1);
        std::swap(v[0], v[i]);
        d += " swap";
      } else {
        toggle(v, x);
        d += " toggle";
      }
      break;
    default:
      if (!v.empty()) {
        v[s.draw(v.size())] = x;
        d += " replace";
      } else {
        v.push_back(x);
        d += " append";
      }
    }
  }
  void edit_files(Src &s, std::vector<int> &v, int f, const char *what, std::string &d) {
    bool has = std::find(v.begin(), v.end(), f) != v.end();
    if (v.size() > 1 && s.chance(1, 6)) {
      std::rotate(v.begin(), v.begin() + 1, v.end());
      d += std::string(" reorder ") + what + " list";
    } else if (!v.empty() && !has && s.chance(1, 4)) {
      size_t i = s.draw(v.size());
      d += std::string(" replace ") + what + " " + files[(size_t)v[i]].rel + " by " + files[(size_t)f].rel;
      v[i] = f;
    } else {
      toggle(v, f);
      d += std::string(" toggle ") + what + " " + files[(size_t)f].rel;
    }
  }
  // an edit of file contents
  int gen_file(Src &s) {
    // prefer files in use
    std::vector<int> used;
    for (auto &t : tgts)
      for (auto *l : {&t.sources, &t.headers, &t.pchs, &t.cdeps, &t.ldeps})
        used.insert(used.end(), l->begin(), l->end());
    std::sort(used.begin(), used.end());
    used.erase(std::unique(used.begin(), used.end()), used.end());
    return used[s.draw(used.size())];
  }
  struct Edit {
    std::string what;
    int file{-1};
    int target{-1};
    bool config{false};
  };
  Edit gen_edit(Src &s, bool allow_config = true) {
    Span sp(s);
    Edit e;
    size_t k = s.weighted(allow_config ? std::vector<unsigned>{8, 4, 2, 2, 1, 1, 4, 3, 2, 2}
                                       : std::vector<unsigned>{1});
    if (k == 0) {
      e.file = gen_file(s);
      bool newer = !s.chance(1, 4);
      static const std::vector<int64_t> jumps{1, 1000, 1000000, 1000000000, 4294967296, 256, 86400000000000};
      jump = s.pick(jumps);
      auto &past = files[(size_t)e.file].past;
      if (!past.empty() && allow_restore && s.chance(1, 6)) {
        restore((size_t)e.file, s.draw(past.size()));
        jump = 1;
        e.what = "restore an earlier " + files[(size_t)e.file].rel;
        return e;
      }
      write((size_t)e.file, newer);
      jump = 1;
      e.what = "edit " + files[(size_t)e.file].rel + (newer ? "" : " (older timestamp)");
      return e;
    }
    e.config = true;
    e.target = (int)s.draw(tgts.size());
    Tgt &t = tgts[(size_t)e.target];
    e.what = t.name + ":";
    switch (k) {
    case 1: { // sources
      auto all = of(SRC);
      int f = all[s.draw(all.size())];
      if (t.sources.size() == 1 && t.sources[0] == f) {
        e.what += " (kept last source)";
        break;
      }
      if (s.chance(1, 5) && t.sources.size() > 1) {
        std::rotate(t.sources.begin(), t.sources.begin() + 1, t.sources.end());
        e.what += " reorder sources";
        break;
      }
      if (std::find(t.sources.begin(), t.sources.end(), f) == t.sources.end() && s.chance(1, 4)) {
        size_t i = s.draw(t.sources.size());
        e.what += " replace source " + files[(size_t)t.sources[i]].rel + " by " + files[(size_t)f].rel;
        t.sources[i] = f;
        break;
      }
      toggle(t.sources, f);
      e.what += " toggle source " + files[(size_t)f].rel;
      break;
    }
    case 2: {
      auto all = of(HDR);
      int f = all[s.draw(all.size())];
      edit_files(s, t.headers, f, "header", e.what);
      break;
    }
    case 3: {
      auto all = of(PCH);
      int f = all[s.draw(all.size())];
      edit_files(s, t.pchs, f, "pch", e.what);
      break;
    }
    case 4: {
      auto all = of(CDEP);
      int f = all[s.draw(all.size())];
      edit_files(s, t.cdeps, f, "compile dependency", e.what);
      break;
    }
    case 5: {
      auto all = of(LDEP);
      int f = all[s.draw(all.size())];
      edit_files(s, t.ldeps, f, "link dependency", e.what);
      break;
    }
    case 6: {
      size_t c = s.draw(NCAT);
      if (s.coin()) { // prefer lists with several entries
        std::vector<size_t> several;
        for (size_t i = 0; i < NCAT; i++)
          if (t.flags[i].size() > 1)
            several.push_back(i);
        if (!several.empty())
          c = several[s.draw(several.size())];
      }
      e.what += std::string(" ") + cat_name((int)c) + " flags";
      edit_list(s, t.flags[c], gen_flag(s), e.what);
      break;
    }
    case 7: {
      size_t w = s.draw(3);
      if (w == 0) {
        e.what += " include dirs";
        edit_list(s, t.incdirs, gen_dir(s), e.what);
      } else if (w == 1) {
        e.what += " lib dirs";
        edit_list(s, t.libdirs, gen_dir(s), e.what);
      } else {
        e.what += " external libs";
        edit_list(s, t.extlibs, gen_lib(s), e.what);
      }
      break;
    }
    case 8: {
      if (e.target == 0) {
        e.what += " (no lib to toggle)";
        break;
      }
      int l = (int)s.draw((uint64_t)e.target);
      if (t.libs.size() > 1 && s.chance(1, 4)) {
        std::rotate(t.libs.begin(), t.libs.begin() + 1, t.libs.end());
        e.what += " reorder libs";
        break;
      }
      toggle(t.libs, l);
      e.what += " toggle lib t" + std::to_string(l);
      break;
    }
    default: { // remove all pchs / re-add
      if (t.pchs.empty())
        t.pchs.push_back(of(PCH)[0]);
      else
        t.pchs.clear();
      e.what += " toggle all pch";
    }
    }
    return e;
  }
  Step gen_step(Src &s) {
    Step st;
    size_t ti = s.draw(tgts.size());
    const Tgt &t = tgts[ti];
    st.target = t.name;
    size_t k = s.weighted({5, (unsigned)(t.pchs.empty() ? 0 : 3), 2});
    if (k == 0) {
      st.kind = "CC";
      st.src = t.sources[s.draw(t.sources.size())];
    } else
      st.kind = k == 1 ? "PC" : "LD";
    return st;
  }
  std::string step_str(const Step &st) const {
    return st.kind + ":" + st.target + (st.src >= 0 ? "/" + files[(size_t)st.src].rel : "");
  }
  unsigned gen_workers(Src &s) {
    static const std::vector<unsigned> w{1, 2, 4};
    return s.pick(w);
  }

  // ---- snapshots (what the last successful build saw) ---------------------
  std::vector<std::pair<int, int64_t>> snap(const std::vector<int> &v) const {
    std::vector<std::pair<int, int64_t>> r;
    for (int f : v)
      r.emplace_back(f, files[(size_t)f].tick);
    return r;
  }
  struct Snap {
    // everything any compile step of the target may depend on
    std::vector<std::pair<int, int64_t>> headers, pchs, cdeps, ldeps;
    std::array<std::vector<std::string>, NCAT> flags;
    std::vector<std::string> incdirs, libdirs, extlibs;
    std::vector<int> libs;
    std::map<int, int64_t> sources;
    std::string root;
    bool cpp{false};
    bool same_compile_inputs(const Snap &o) const {
      for (int c = 0; c < NCAT; c++)
        if (c != LINK && flags[(size_t)c] != o.flags[(size_t)c])
          return false;
      return headers == o.headers && pchs == o.pchs && cdeps == o.cdeps && incdirs == o.incdirs &&
             (pchs.empty() || cpp == o.cpp);
    }
    bool same_link_inputs(const Snap &o) const {
      return flags[LINK] == o.flags[LINK] && libdirs == o.libdirs && extlibs == o.extlibs &&
             libs == o.libs && ldeps == o.ldeps;
    }
  };
  Snap snapshot(const Tgt &t) const {
    Snap s;
    s.headers = snap(t.headers);
    s.pchs = snap(t.pchs);
    s.cdeps = snap(t.cdeps);
    s.ldeps = snap(t.ldeps);
    s.flags = t.flags;
    s.incdirs = t.incdirs;
    s.libdirs = t.libdirs;
    s.extlibs = t.extlibs;
    s.libs = t.libs;
    for (int f : t.sources) {
      s.sources[f] = files[(size_t)f].tick;
      s.cpp |= is_cpp(files[(size_t)f].rel);
    }
    return s;
  }
};
} // namespace tw
