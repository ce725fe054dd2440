// C01 finding and verifying toolchains, C02 predefined toolchains and targets,
// C03 programs built with the real gcc.
#include <fcntl.h>
#include <spawn.h>
#include <sys/stat.h>
#include <sys/wait.h>
#include <unistd.h>

#include <algorithm>
#include <map>
#include <memory>
#include <mutex>
#include <set>

#include "exec_stub.hpp"
#include "pbt.hpp"

#include "env/command.h"
#include "env/env.h"
#include "env/storage.h"
#include "env/task_state.h"
#include "target/target.h"
#include "targets/target_generic.h"
#include "toolchains/toolchain_specialized.h"

using namespace pbt;
using buildcc::Target;
using buildcc::TargetConfig;
using buildcc::TargetEnv;
using buildcc::TargetType;
using buildcc::Toolchain;
using buildcc::ToolchainConfig;
using buildcc::ToolchainExecutables;
using buildcc::ToolchainId;
using Strs = std::vector<std::string>;
extern char **environ;

namespace {

Strs shell_words(const std::string &s) {
  Strs r;
  bool in = false, q = false;
  std::string cur;
  for (char c : s) {
    if (c == '"') {
      q = !q;
      in = true;
    } else if (!q && (c == ' ' || c == '\t' || c == '\n')) {
      if (in)
        r.push_back(cur);
      cur.clear();
      in = false;
    } else {
      cur += c;
      in = true;
    }
  }
  if (in)
    r.push_back(cur);
  return r;
}
std::string norm(const fs::path &p) { return p.lexically_normal().string(); }
struct Handler {
  explicit Handler(stub::Handler h) { stub::set_handler(std::move(h)); }
  ~Handler() { stub::set_handler(nullptr); }
};
Strs exe_list(const ToolchainExecutables &e) {
  return {e.assembler, e.c_compiler, e.cpp_compiler, e.archiver, e.linker};
}
Strs config_fields(const ToolchainConfig &c) {
  auto set = [](const std::unordered_set<std::string> &s) {
    return Ctx::show(std::set<std::string>(s.begin(), s.end()));
  };
  return {c.obj_ext,          c.pch_header_ext,      c.pch_compile_ext,    c.prefix_include_dir,   c.prefix_lib_dir,
          set(c.valid_c_ext), set(c.valid_cpp_ext), set(c.valid_asm_ext), set(c.valid_header_ext)};
}
ToolchainConfig gen_config(Src &s) {
  ToolchainConfig c;
  static const Strs oe{".o", ".obj", ".x"}, pe{".gch", ".pch"}, he{".h", ".hh"}, ip{"-I", "/I", "-isystem="}, lp{"-L", "/L:"};
  c.obj_ext = s.pick(oe);
  c.pch_compile_ext = s.pick(pe);
  c.pch_header_ext = s.pick(he);
  c.prefix_include_dir = s.pick(ip);
  c.prefix_lib_dir = s.pick(lp);
  if (s.coin())
    c.valid_cpp_ext = {".cpp", ".cppm"};
  if (s.coin())
    c.valid_c_ext = {".c", ".h.c"};
  return c;
}

// ------------------------------------------------------------------ C01 ----
void c01(Src &s, Ctx &ctx) {
  fs::path base = fs::canonical(ctx.dir);
  static const Strs pool{"as", "gcc", "g++", "ar", "ld", "gcc-12.2", "x86_64-linux-gnu-g++", "cl", "llvm-ar-14.0.0", "a.b.c"};
  ToolchainExecutables ex;
  bool distinct = s.coin();
  std::vector<std::string *> f{&ex.assembler, &ex.c_compiler, &ex.cpp_compiler, &ex.archiver, &ex.linker};
  for (size_t i = 0; i < 5; i++)
    *f[i] = distinct ? pool[i] : s.pick(pool);
  Strs want = exe_list(ex);
  std::set<std::string> need(want.begin(), want.end());
  ctx.note("executables " + Ctx::show(want));

  // directories with some of the executables, in various disguises
  size_t nd = 1 + s.some(5);
  std::map<std::string, bool> complete; // dir -> has everything
  Strs dirs;
  write_file(base / "real", "x");
  bool partial = false, decoy = false;
  for (size_t i = 0; i < nd; i++) {
    Span sp(s);
    static const Strs dn{"d", "my tools ", "e.d", "-x"};
    fs::path d = base / (s.pick(dn) + std::to_string(i));
    fs::create_directories(d);
    bool all = true;
    std::string desc;
    bool good = s.coin();
    for (auto &n : need) {
      // file, missing, directory, n.txt, n.exe, symlink, dangling symlink, prefix, with suffix
      size_t k = good ? s.weighted({6, 0, 0, 0, 0, 2, 0, 0, 0}) : s.weighted({12, 2, 1, 1, 1, 2, 1, 1, 1});
      fs::path p = d / n;
      switch (k) {
      case 0: write_file(p, ""); break;
      case 1: break;
      case 2: fs::create_directories(p); break;
      case 3: write_file(d / (n + ".txt"), ""); break;
      case 4: write_file(d / (n + ".exe"), ""); break;
      case 5: fs::create_symlink(base / "real", p); break;
      case 6: fs::create_symlink(base / "nowhere", p); break;
      case 7: write_file(d / n.substr(0, n.size() - 1), ""); break;
      default: write_file(d / (n + "-1"), ""); break;
      }
      desc += " " + n + ":" + "fmdtesypx"[k];
      decoy |= k >= 2 && k != 5;
    }
    if (s.chance(1, 3))
      write_file(d / "other", "");
    for (auto &n : need) // what is really there decides
      all = all && fs::is_regular_file(d / n);
    partial |= !all;
    complete[d.string()] = all;
    dirs.push_back(d.string());
    ctx.note("dir " + d.filename().string() + desc + (all ? " complete" : ""));
  }
  fs::create_symlink(base / "loop", base / "loop");
  if (s.chance(1, 4)) {
    fs::create_directory_symlink(dirs[0], base / "link");
    complete[(base / "link").string()] = complete[dirs[0]];
    dirs.push_back((base / "link").string());
  }
  auto gen_search = [&]() -> std::string {
    switch (s.weighted({8, 1, 1, 1, 1})) {
    case 0: return s.pick(dirs);
    case 1: return (base / "missing").string();
    case 2: return (base / "real").string();
    case 3: return (base / "loop").string();
    default: return (base / std::string(300, 'n')).string();
    }
  };
  std::vector<fs::path> search;
  for (size_t i = 0, n = s.some(4); i < n; i++)
    search.push_back(gen_search());
  Strs vars, order;
  for (auto &p : search)
    order.push_back(p.string());
  bool unset = false;
  for (size_t i = 0, n = s.some(3); i < n; i++) {
    Span sp(s);
    std::string v = "VP_TOOLS_" + std::to_string(i);
    vars.push_back(v);
    if (s.chance(1, 8)) {
      unsetenv(v.c_str());
      unset = true;
      ctx.note(v + " not set");
      continue;
    }
    std::string val;
    for (size_t j = 0, m = s.some(4); j < m; j++) {
      if (j)
        val += ":";
      if (s.chance(1, 6))
        continue; // an empty entry
      std::string e = gen_search();
      val += e;
      order.push_back(e);
    }
    if (s.chance(1, 5))
      val += ":";
    setenv(v.c_str(), val.c_str(), 1);
    ctx.note(v + "=" + val);
  }
  ctx.note("search " + Ctx::show(search));
  Strs expect;
  for (auto &d : order)
    if (complete.count(d) && complete[d])
      expect.push_back(d);
  buildcc::ToolchainFindConfig cfg(vars, search);
  auto list = [](const std::vector<fs::path> &v) {
    Strs r;
    for (auto &p : v)
      r.push_back(p.string());
    return r;
  };
  size_t flavour = s.draw(6); // plain, gcc, mingw, msvc, clang, custom
  std::unique_ptr<Toolchain> tc;
  switch (flavour) {
  case 0: tc = std::make_unique<Toolchain>(ToolchainId::Gcc, "t", ex); break;
  case 1: tc = std::make_unique<buildcc::Toolchain_gcc>("t", ex); break;
  case 2: tc = std::make_unique<buildcc::Toolchain_mingw>("t", ex); break;
  case 3: tc = std::make_unique<buildcc::Toolchain_msvc>("t", ex); break;
  case 4: tc = std::make_unique<buildcc::Toolchain_custom>(ToolchainId::Clang, "t", ex); break;
  default: tc = std::make_unique<buildcc::Toolchain_custom>(ToolchainId::Custom, "t", ex); break;
  }
  ctx.label("flavour " + std::to_string(flavour));
  std::vector<fs::path> found;
  bool bad = fatal([&] { found = tc->Find(cfg); });
  ctx.equal(bad, unset, "search rejected (environment variable missing: " + std::string(unset ? "yes" : "no") + ")");
  if (!bad)
    ctx.equal(list(found), expect, "directories found");
  ctx.equal(exe_list(tc->GetToolchainExecutables()), want, "executables after a search");
  if ((partial || decoy) && !expect.empty())
    ctx.nontrivial();

  // ---- verification
  std::string version = "12.3.0", arch = "x86_64-linux-gnu";
  bool fails = s.chance(1, 4), silent = s.chance(1, 8), chatty = s.coin(); // chatty: prints something, then fails
  size_t which = s.draw(2);
  size_t chunks = 1 + s.draw(3);
  std::vector<Strs> asked;
  Handler h([&](const std::string &c, const std::string &, const stub::Reader &out, const stub::Reader &) -> int {
    Strs w = shell_words(c);
    asked.push_back(w);
    bool v = !w.empty() && w.back() == "-dumpversion";
    const bool failing = fails && v == (which == 0);
    if (failing && !chatty)
      return 1;
    if (silent && v == (which == 0))
      return 0;
    std::string text = (v ? version : arch) + "\n";
    size_t per = (text.size() + chunks - 1) / chunks;
    for (size_t i = 0; i < text.size(); i += per)
      if (out)
        out(text.data() + i, std::min(per, text.size() - i));
    return failing ? 1 : 0;
  });
  bool ms[3] = {!s.chance(1, 6), !s.chance(1, 6), !s.chance(1, 6)};
  const char *mv[3] = {"VSCMD_VER", "VSCMD_ARG_HOST_ARCH", "VSCMD_ARG_TGT_ARCH"};
  for (int i = 0; i < 3; i++)
    ms[i] ? setenv(mv[i], ("v" + std::to_string(i)).c_str(), 1) : unsetenv(mv[i]);
  size_t own = flavour == 0 ? s.draw(3) : s.weighted({4, 1, 1}); // callback: default, own ok, own failing
  std::vector<Strs> seen;
  if (own) {
    tc->SetToolchainInfoCb([&](const ToolchainExecutables &e) -> buildcc::env::optional<buildcc::ToolchainCompilerInfo> {
      seen.push_back(exe_list(e));
      if (own == 2)
        return {};
      buildcc::ToolchainCompilerInfo i;
      i.compiler_version = "own";
      i.target_arch = "arch";
      return i;
    });
  }
  bool ok;
  std::string ev, ea;
  if (own) {
    ok = own == 1;
    ev = "own";
    ea = "arch";
  } else if (flavour == 0 || flavour == 5)
    ok = false;
  else if (flavour == 3) {
    ok = ms[0] && ms[1] && ms[2];
    ev = "v0";
    ea = "v1_v2";
  } else {
    ok = !fails && !silent;
    ev = version;
    ea = arch;
  }
  ok = ok && !unset && !expect.empty();
  buildcc::ToolchainCompilerInfo info;
  bool vbad = fatal([&] { info = tc->Verify(cfg); });
  ctx.equal(vbad, !ok, "verification rejected");
  if (vbad) {
    ctx.equal(exe_list(tc->GetToolchainExecutables()), want, "executables after a failed verification");
    return;
  }
  Strs full;
  for (auto &n : want)
    full.push_back((fs::path(expect[0]) / n).string());
  ctx.equal(info.path.string(), expect[0], "directory of the verified toolchain");
  ctx.equal(info.compiler_version, ev, "compiler version");
  ctx.equal(info.target_arch, ea, "target architecture");
  ctx.equal(exe_list(tc->GetToolchainExecutables()), full, "executables after verification");
  ctx.equal(Strs{tc->GetAssembler(), tc->GetCCompiler(), tc->GetCppCompiler(), tc->GetArchiver(), tc->GetLinker()}, full,
            "executables after verification");
  for (auto &p : full)
    ctx.check(fs::is_regular_file(p), "verified executable " + p + " does not exist");
  if (own)
    ctx.equal(seen, std::vector<Strs>{full}, "executables given to the verification callback");
  else if (flavour != 3)
    for (auto &w : asked) {
      ctx.equal(w.size(), (size_t)2, "arguments of the command " + Ctx::show(w));
      ctx.equal(w[0], full[2], "compiler asked for its version");
    }
}

// ------------------------------------------------------------------ C02 ----
template <typename T> void set_flags(T &t, int c, const std::string &f) {
  switch (c) {
  case 0: t.AddPreprocessorFlag(f); break;
  case 1: t.AddCommonCompileFlag(f); break;
  case 2: t.AddPchCompileFlag(f); break;
  case 3: t.AddPchObjectFlag(f); break;
  case 4: t.AddAsmCompileFlag(f); break;
  case 5: t.AddCCompileFlag(f); break;
  case 6: t.AddCppCompileFlag(f); break;
  default: t.AddLinkFlag(f); break;
  }
}
void reset(const fs::path &root, const fs::path &build) {
  buildcc::Project::Deinit();
  buildcc::Project::Init(root, build);
  buildcc::env::set_task_state(buildcc::env::TaskState::SUCCESS);
}
void run_flow(const std::vector<Target *> &v, unsigned workers) {
  tf::Taskflow flow;
  tf::Task prev;
  for (size_t i = 0; i < v.size(); i++) {
    tf::Task t = flow.composed_of(v[i]->GetTaskflow());
    if (i)
      prev.precede(t);
    prev = t;
  }
  tf::Executor exec(workers);
  exec.run(flow).wait();
}
using OptCfg = buildcc::env::optional<TargetConfig>;
std::unique_ptr<Target> make(int how, ToolchainId id, TargetType type, const std::string &name, const Toolchain &tc,
                             const TargetEnv &env, const OptCfg &cfg) {
  using namespace buildcc;
  auto spec = [&](auto *tag) -> std::unique_ptr<Target> {
    using X = std::remove_pointer_t<decltype(tag)>;
    if (cfg.has_value())
      return std::make_unique<X>(name, tc, env, cfg.value());
    return std::make_unique<X>(name, tc, env);
  };
  if (how == 2)
    return std::make_unique<Target_generic>(name, type, tc, env, cfg);
  bool e = type == TargetType::Executable, st = type == TargetType::StaticLibrary;
  if (how == 1)
    return e ? std::unique_ptr<Target>(std::make_unique<ExecutableTarget_generic>(name, tc, env, cfg))
           : st ? std::unique_ptr<Target>(std::make_unique<StaticTarget_generic>(name, tc, env, cfg))
                : std::unique_ptr<Target>(std::make_unique<DynamicTarget_generic>(name, tc, env, cfg));
  switch (id) {
  case ToolchainId::Gcc:
    return e ? spec((ExecutableTarget_gcc *)0) : st ? spec((StaticTarget_gcc *)0) : spec((DynamicTarget_gcc *)0);
  case ToolchainId::MinGW:
    return e ? spec((ExecutableTarget_mingw *)0) : st ? spec((StaticTarget_mingw *)0) : spec((DynamicTarget_mingw *)0);
  default:
    return e ? spec((ExecutableTarget_msvc *)0) : st ? spec((StaticTarget_msvc *)0) : spec((DynamicTarget_msvc *)0);
  }
}
bool subsequence(const Strs &sub, const Strs &v) {
  size_t i = 0;
  for (auto &x : v)
    if (i < sub.size() && x == sub[i])
      i++;
  return i == sub.size();
}
void c02(Src &s, Ctx &ctx) {
  fs::path base = fs::canonical(ctx.dir);
  buildcc::Storage::Clear();
  if (s.chance(1, 3)) { // the toolchain registry
    static const Strs ids{"a", "b", "gcc", ""};
    std::map<std::string, std::pair<ToolchainId, const Toolchain *>> model;
    bool rej = false;
    if (s.coin()) { // a specialised kind made without any argument
      int k = (int)s.draw(3);
      std::unique_ptr<Toolchain> d =
          k == 0 ? std::unique_ptr<Toolchain>(std::make_unique<buildcc::Toolchain_gcc>())
                 : k == 1 ? std::unique_ptr<Toolchain>(std::make_unique<buildcc::Toolchain_mingw>())
                          : std::unique_ptr<Toolchain>(std::make_unique<buildcc::Toolchain_msvc>());
      ToolchainId want = k == 0 ? ToolchainId::Gcc : k == 1 ? ToolchainId::MinGW : ToolchainId::Msvc;
      Toolchain &g = buildcc::Toolchain_generic::New(want, "default");
      model["default"] = {want, &g};
      ctx.equal(d->GetName(), std::string(k == 2 ? "msvc" : "gcc"), "name of a toolchain made without arguments");
      ctx.check(d->GetId() == want, "kind of a toolchain made without arguments");
      ctx.equal(exe_list(d->GetToolchainExecutables()), exe_list(g.GetToolchainExecutables()),
                "tools of a toolchain made without arguments");
      ctx.equal(config_fields(d->GetConfig()), config_fields(g.GetConfig()),
                "configuration of a toolchain made without arguments");
    }
    for (size_t i = 0, n = 1 + s.some(6); i < n; i++) {
      Span sp(s);
      auto id = (ToolchainId)s.draw(6);
      std::string name = s.pick(ids);
      buildcc::env::optional<ToolchainExecutables> ex;
      if (s.coin())
        ex = ToolchainExecutables("A" + std::to_string(i), "B", "C", "D", "E");
      buildcc::env::optional<ToolchainConfig> cfg;
      if (s.coin())
        cfg = gen_config(s);
      ctx.note("new toolchain id=" + std::to_string((int)id) + " name=" + name + (ex ? " with executables" : "") +
               (cfg ? " with config " + Ctx::show(config_fields(*cfg)) : ""));
      Toolchain *t = nullptr;
      bool bad = fatal([&] { t = &buildcc::Toolchain_generic::New(id, name, ex, cfg); });
      bool needs = id == ToolchainId::Clang || id == ToolchainId::Custom;
      bool want_bad = model.count(name) || id == ToolchainId::Undefined || (needs && !ex);
      ctx.equal(bad, want_bad, "toolchain rejected");
      rej |= want_bad || cfg.has_value();
      if (!bad) {
        model[name] = {id, t};
        ctx.check(t->GetId() == id && t->GetName() == name, "identity of the new toolchain");
        Strs e = ex ? exe_list(*ex)
                    : id == ToolchainId::Msvc ? Strs{"cl", "cl", "cl", "lib", "link"} : Strs{"as", "gcc", "g++", "ar", "ld"};
        ctx.equal(exe_list(t->GetToolchainExecutables()), e, "executables of the new toolchain");
        ToolchainConfig d;
        if (id == ToolchainId::Msvc) {
          d.obj_ext = ".obj";
          d.pch_compile_ext = ".pch";
          d.prefix_include_dir = "/I";
          d.prefix_lib_dir = "/LIBPATH:";
        }
        ctx.equal(config_fields(t->GetConfig()), config_fields(cfg ? *cfg : d), "configuration of the new toolchain");
      }
      for (auto &[n2, m] : model)
        ctx.check(buildcc::Storage::Contains(n2) && m.second->GetName() == n2 && m.second->GetId() == m.first,
                  "toolchain " + n2 + " lost");
    }
    if (rej)
      ctx.nontrivial();
    buildcc::Storage::Clear();
    return;
  }
  static const Strs roots{"r", "my root"}, builds{"b", "out dir"};
  fs::path root = base / s.pick(roots), bdir = base / s.pick(builds);
  fs::create_directories(root);
  fs::create_directories(bdir);
  reset(root, bdir);
  static const std::vector<ToolchainId> tids{ToolchainId::Gcc, ToolchainId::MinGW, ToolchainId::Msvc};
  ToolchainId id = s.pick(tids);
  bool ms = id == ToolchainId::Msvc;
  ToolchainExecutables ex = s.coin() ? ToolchainExecutables("/t/as", "/t/cc", "/t/cxx", "/t/ar", "/t/ld")
                                     : ToolchainExecutables("/my t/as", "/my t/cc", "/my t/cxx", "/my t/ar", "/my t/ld");
  buildcc::env::optional<ToolchainConfig> tcfg;
  if (s.chance(1, 3))
    tcfg = gen_config(s);
  Toolchain &tc = buildcc::Toolchain_generic::New(id, "tc", ex, tcfg);
  ToolchainConfig eff = tc.GetConfig();
  if (tcfg)
    ctx.equal(config_fields(eff), config_fields(*tcfg), "configuration of the toolchain");
  static const Strs fl{"-DA", "-DB=1", "-O2", "-g", "-Wall", "-DS=\"x y\"", "-z"};
  Strs flags[8];
  auto join = [](const Strs &v) {
    std::string r;
    for (auto &x : v)
      r += x + " ";
    return r;
  };
  for (int c = 0; c < 8; c++)
    for (size_t i = 0, n = s.some(3); i < n; i++) {
      flags[c].push_back("-T" + std::to_string(c) + s.pick(fl));
      set_flags(tc, c, flags[c].back());
    }
  auto type = (TargetType)s.draw(3);
  bool dyn = type == TargetType::DynamicLibrary, exe = type == TargetType::Executable;
  OptCfg cfg;
  if (s.chance(1, 4)) {
    TargetConfig c;
    c.target_ext = ".mine";
    c.compile_command = "COMPILE {compiler} {input} {output} {common_compile_flags}";
    c.pch_command = "PCH {input} {output}";
    c.link_command = "LINK {output} {compiled_sources}";
    cfg = c;
  }
  std::string ext = cfg ? ".mine"
                        : ms ? (exe ? ".exe" : ".lib")
                             : exe ? (id == ToolchainId::MinGW ? ".exe" : "")
                                   : type == TargetType::StaticLibrary ? ".a" : (id == ToolchainId::MinGW ? ".dll" : ".so");
  static const Strs names{"app", "my app", "lib.x"};
  std::string name = s.pick(names);
  Strs srcs, incs, libdirs, ext_libs, pchs;
  static const Strs sp{"a.c", "b.cpp", "d e/f.c", "g.cc"}, dp{"inc", "in c", "z"};
  for (size_t i = 0, n = 1 + s.some(4); i < n; i++) {
    auto &f = s.pick(sp);
    if (eff.IsValidSource(f) && std::find(srcs.begin(), srcs.end(), f) == srcs.end())
      srcs.push_back(f);
  }
  if (srcs.empty())
    srcs.push_back("a.c");
  for (size_t i = 0, n = s.some(3); i < n; i++)
    incs.push_back(s.pick(dp));
  for (size_t i = 0, n = s.some(3); i < n; i++)
    libdirs.push_back(s.pick(dp));
  for (size_t i = 0, n = s.some(3); i < n; i++)
    ext_libs.push_back("-l" + std::to_string(i));
  bool pch = s.coin();
  Strs tf[8];
  for (int c = 0; c < 8; c++)
    for (size_t i = 0, n = s.some(2); i < n; i++)
      tf[c].push_back("-U" + std::to_string(c) + s.pick(fl));
  bool prefix_root = s.coin();
  (void)prefix_root;
  ctx.note("toolchain id=" + std::to_string((int)id) + " type=" + std::to_string((int)type) + " name=" + name +
           (cfg ? " own config" : "") + (pch ? " pch" : "") + " src=" + Ctx::show(srcs) + " inc=" + Ctx::show(incs) +
           (tcfg ? " toolchain config " + Ctx::show(config_fields(*tcfg)) : ""));
  write_file(root / "p.h", "x");
  for (auto &f : srcs) {
    fs::create_directories((root / f).parent_path());
    write_file(root / f, "x");
  }
  struct Out {
    std::map<std::string, std::string> compile; // source -> command
    std::string link, path, pchcmd;
    Strs cmds;
  };
  auto build = [&](int how) {
    Out o;
    fs::remove_all(bdir);
    fs::create_directories(bdir);
    reset(root, bdir);
    std::mutex mu;
    Handler h([&](const std::string &c, const std::string &, const stub::Reader &, const stub::Reader &) {
      std::lock_guard<std::mutex> g(mu);
      o.cmds.push_back(c);
      return 0;
    });
    auto t = make(how, id, type, name, tc, TargetEnv(""), cfg);
    for (auto &f : srcs)
      t->AddSource(f);
    for (auto &d : incs)
      t->AddIncludeDir(d);
    for (auto &d : libdirs)
      t->AddLibDir(d);
    for (auto &l : ext_libs)
      t->AddLibDep(l);
    if (pch)
      t->AddPch("p.h");
    for (int c = 0; c < 8; c++)
      for (auto &f : tf[c])
        set_flags(*t, c, f);
    t->Build();
    run_flow({t.get()}, 2);
    ctx.check(buildcc::env::get_task_state() == buildcc::env::TaskState::SUCCESS, "build failed");
    for (auto &f : srcs)
      o.compile[f] = t->GetCompileCommand(root / f);
    o.link = t->GetLinkCommand();
    o.path = t->GetTargetPath().string();
    std::set<std::string> known{o.link};
    for (auto &[_, c] : o.compile)
      known.insert(c);
    for (auto &c : o.cmds)
      if (!known.count(c))
        o.pchcmd = c;
    std::sort(o.cmds.begin(), o.cmds.end());
    ctx.equal(o.cmds.size(), srcs.size() + 1 + (pch ? 1 : 0), "number of commands");
    if (dyn && how == 0 && ms) {
      auto *d = dynamic_cast<buildcc::DynamicTarget_msvc *>(t.get());
      ctx.check(d && d->GetDllPath().string() == o.path + ".dll", "path of the dll");
    }
    return o;
  };
  Out a = build(0);
  int how = 1 + (int)s.draw(2);
  Out b = build(how);
  ctx.equal(b.cmds, a.cmds, "commands of the generic target compared with the specialised one");
  ctx.equal(b.path, a.path, "path of the generic target");
  fs::path tb = bdir / "tc" / name;
  ctx.equal(norm(a.path), norm(tb / (name + ext)), "path of the target");
  if (cfg) {
    for (auto &[f, c] : a.compile)
      ctx.check(c.rfind("COMPILE ", 0) == 0, "own compile command not used: " + c);
    ctx.check(a.link.rfind("LINK ", 0) == 0, "own link command not used: " + a.link);
    ctx.check(!pch || a.pchcmd.rfind("PCH ", 0) == 0, "own pch command not used: " + a.pchcmd);
    if (dyn && !ms)
      for (auto &[f, c] : a.compile) {
        Strs w = shell_words(c);
        ctx.check(std::find(w.begin(), w.end(), "-fpic") != w.end(), "dynamic library compiled without -fpic");
      }
    ctx.nontrivial();
    buildcc::Storage::Clear();
    return;
  }
  // what the tools are told, independent of the order of unrelated options
  auto fw = [&](int c) {
    Strs r = flags[c];
    r.insert(r.end(), tf[c].begin(), tf[c].end());
    return shell_words(join(r));
  };
  auto pre = [&](const std::string &p, const Strs &v) {
    Strs r;
    for (auto &d : v)
      r.push_back(p + norm(root / d));
    return r;
  };
  std::string hdr = norm(tb / ("buildcc_pch" + eff.pch_header_ext)), pout = hdr + eff.pch_compile_ext;
  auto same = [&](const std::string &cmd, const std::vector<Strs> &groups, const std::string &what) {
    Strs w = shell_words(cmd);
    std::multiset<std::string> got, want;
    for (auto &x : w)
      if (x != "-H" && x != "/nologo")
        got.insert(x);
    for (auto &g : groups) {
      want.insert(g.begin(), g.end());
      ctx.check(subsequence(g, w), what + ": " + Ctx::show(g) + " is not in order in " + cmd);
    }
    ctx.equal(got, want, what + " " + cmd);
    ctx.equal(w.empty() ? "" : w[0], groups[0].empty() ? "" : groups[0][0], what + ": tool");
  };
  Strs objs;
  bool cpp_any = false;
  for (auto &f : srcs)
    cpp_any |= eff.GetFileExt(f) == buildcc::FileExt::Cpp;
  for (auto &f : srcs) {
    bool cpp = eff.GetFileExt(f) == buildcc::FileExt::Cpp;
    std::string obj = norm(tb / (f + eff.obj_ext)), in = norm(root / f);
    objs.push_back(obj);
    Strs common = fw(1);
    if (dyn && !ms)
      common.push_back("-fpic");
    Strs lang = fw(cpp ? 6 : 5);
    if (ms && cpp)
      lang.push_back("/EHsc");
    std::multiset<std::string> cm(common.begin(), common.end());
    Strs po;
    if (pch) {
      po = fw(3);
      Strs extra = ms ? Strs{"/Yu" + hdr, "/FI" + hdr, "/Fp" + pout} : Strs{"-include", hdr};
      po.insert(po.end(), extra.begin(), extra.end());
    }
    // built-in options may come before or after those of the toolchain
    auto split = [&](const Strs &v, size_t n) {
      std::vector<Strs> r{Strs(v.begin(), v.end() - (long)n)};
      if (n)
        r.push_back(Strs(v.end() - (long)n, v.end()));
      return r;
    };
    std::vector<Strs> g{{cpp ? ex.cpp_compiler : ex.c_compiler}};
    auto add = [&](const std::vector<Strs> &x) { g.insert(g.end(), x.begin(), x.end()); };
    add({fw(0), pre(eff.prefix_include_dir, incs)});
    add(split(common, dyn && !ms ? 1 : 0));
    add(split(lang, ms && cpp ? 1 : 0));
    if (pch && !ms)
      add(split(po, 2));
    else if (pch) {
      add(split(Strs(po.begin(), po.end() - 3), 0));
      for (size_t i = po.size() - 3; i < po.size(); i++)
        g.push_back({po[i]});
    }
    if (ms)
      add({{"/Fo" + obj}, {"/c", in}});
    else
      add({{"-o", obj}, {"-c", in}});
    same(a.compile[f], g, "compile command");
  }
  if (pch) {
    Strs common = fw(1);
    std::vector<Strs> g{{cpp_any ? ex.cpp_compiler : ex.c_compiler}, fw(0), pre(eff.prefix_include_dir, incs), common,
                        fw(2), fw(cpp_any ? 6 : 5)};
    if (dyn && !ms)
      g.push_back({"-fpic"});
    if (ms) {
      if (cpp_any)
        g.push_back({"/EHsc"});
      g.insert(g.end(), {{"/Yc" + hdr},
                         {"/FI" + hdr},
                         {"/Fp" + pout},
                         {"/Fo" + norm(tb / ("buildcc_pch" + eff.obj_ext))},
                         {"/c", norm(tb / (cpp_any ? "buildcc_pch.cpp" : "buildcc_pch.c"))}});
    } else
      g.insert(g.end(), {{"-o", pout}, {"-c", hdr}});
    same(a.pchcmd, g, "precompiled header command");
  }
  {
    std::vector<Strs> g;
    std::string out = norm(a.path);
    if (ms) {
      g = {{type == TargetType::StaticLibrary ? ex.archiver : ex.linker}, fw(7)};
      if (exe)
        g.insert(g.end(), {{"/OUT:" + out}, pre(eff.prefix_lib_dir, libdirs), ext_libs});
      else if (dyn)
        g.insert(g.end(), {{"/DLL"}, {"/OUT:" + out + ".dll"}, {"/IMPLIB:" + out}});
      else
        g.push_back({"/OUT:" + out});
      if (pch)
        g.push_back({norm(tb / ("buildcc_pch" + eff.obj_ext))});
      for (auto &o : objs)
        g.push_back({o});
    } else if (type == TargetType::StaticLibrary) {
      g = {{ex.archiver, "rcs", out}};
      for (auto &o : objs)
        g.push_back({out, o});
      // the output is listed once
      for (size_t i = 1; i < g.size(); i++)
        g[i] = {objs[i - 1]};
      for (auto &o : objs)
        ctx.check(subsequence({out, o}, shell_words(a.link)), "archive comes before its members: " + a.link);
    } else {
      g = {{ex.cpp_compiler}, fw(7), {"-o", out}};
      for (auto &o : objs)
        g.push_back({o});
      if (exe) {
        g.push_back(pre(eff.prefix_lib_dir, libdirs));
        g.push_back(ext_libs);
        for (auto &o : objs)
          for (auto &l : ext_libs)
            ctx.check(subsequence({o, l}, shell_words(a.link)), "libraries come after the objects: " + a.link);
      } else {
        g.push_back({"-shared"});
        if (id == ToolchainId::MinGW)
          g.push_back({"-Wl,--out-implib," + out + ".a"});
      }
    }
    same(a.link, g, "link command");
  }
  if (pch || dyn || tcfg)
    ctx.nontrivial();
  buildcc::Storage::Clear();
}

// ------------------------------------------------------------------ C03 ----
// A real project: every source defines a function returning a value that is a
// function of its text, macros, headers and flags; main prints all of them.
struct Unit {
  std::string file; // name
  int kind;         // 0 C, 1 C++, 2 assembler
  int base;
  std::string func; // the function it defines, also after it moved to another file
};
struct Lib {
  std::string name;
  TargetType type;
  std::vector<Unit> units;
  Strs macros;       // -DM<i>=v of the target
  std::vector<int> incs; // order of include dirs
  bool pch{false};
  int flag{0}; // common flag -DCF=flag
};
int real_sh(const std::string &c, const std::string &cwd) {
  std::string cmd = "exec </dev/null >/dev/null 2>&1; " + (cwd.empty() ? "" : "cd '" + cwd + "' && ") + c;
  const char *argv[] = {"/bin/sh", "-c", cmd.c_str(), nullptr};
  pid_t pid;
  if (posix_spawn(&pid, "/bin/sh", nullptr, nullptr, (char **)argv, environ))
    return -1;
  int st;
  while (waitpid(pid, &st, 0) < 0)
    if (errno != EINTR)
      return -1;
  return WIFEXITED(st) ? WEXITSTATUS(st) : 128;
}
void c03(Src &s, Ctx &ctx) {
  fs::path base = fs::canonical(ctx.dir);
  static const Strs roots{"r", "my root"}, builds{"b", "out dir"};
  fs::path root = base / s.pick(roots), bdir = base / s.pick(builds);
  fs::create_directories(root / "src x");
  fs::create_directories(bdir);
  int64_t tick = 1000;
  auto put = [&](const fs::path &p, const std::string &t) {
    fs::create_directories(p.parent_path());
    write_file(p, t);
    tick += 1000000;
    timespec ts[2] = {{1600000000, tick}, {1600000000, tick}};
    utimensat(AT_FDCWD, p.c_str(), ts, 0);
  };
  // headers: inc0/val.h and inc1/val.h define VAL; hdr.h defines HDR; pch.h PCHV
  // (plus PDEP of pdep.h, which only pch.h includes)
  int val[2] = {1, 2}, hdr = 3, pchv = 4, pdep = 1;
  auto write_headers = [&](int which) {
    if (which < 0 || which < 2)
      for (int i = 0; i < 2; i++)
        if (which < 0 || which == i)
          put(root / ("inc " + std::to_string(i)) / "val.h", "#undef VAL\n#define VAL " + std::to_string(val[i]) + "\n");
    if (which < 0 || which == 2)
      put(root / "hdr.h", "#define HDR " + std::to_string(hdr) + "\n");
    if (which < 0 || which == 3)
      put(root / "pch.h", "#include \"" + (root / "pdep.h").string() + "\"\n#define PCHV (PDEP + " + std::to_string(pchv) + ")\n");
    if (which < 0 || which == 4)
      put(root / "pdep.h", "#define PDEP " + std::to_string(pdep) + "\n");
  };
  std::vector<Lib> libs;
  int counter = 0;
  auto fn = [](const Unit &u) { return u.func; };
  auto write_unit = [&](const Unit &u) {
    std::string n = fn(u);
    if (u.kind == 2)
      put(root / u.file, ".globl " + n + "\n" + n + ":\n movl $" + std::to_string(u.base) +
                             ", %eax\n ret\n.section .note.GNU-stack,\"\",@progbits\n");
    else
      put(root / u.file, std::string("#include \"val.h\"\n#include \"../hdr.h\"\n#ifndef CF\n#define CF 0\n#endif\n"
                                     "#ifndef PCHV\n#define PCHV 0\n#endif\n#ifndef LANGF\n#define LANGF 0\n#endif\n") +
                             (u.kind == 1 ? "extern \"C\" " : "") + "int " + n + "(void);\n" +
                             (u.kind == 1 ? "extern \"C\" " : "") + "int " + n + "(void) { return " +
                             std::to_string(u.base) + " + 10 * VAL + 100 * HDR + 1000 * PCHV + 10000 * CF + 100000 * LANGF; }\n");
  };
  auto name_unit = [&](Unit &u) {
    static const Strs ext[3] = {{".c"}, {".cpp", ".cc", ".cxx"}, {".s", ".S"}};
    u.kind = (int)s.weighted({4, 4, 1});
    static const Strs stem{"src/a", "src x/b", "src/c.d", "src x/../src/e"};
    u.file = s.pick(stem) + std::to_string(counter++) + s.pick(ext[u.kind]);
  };
  auto new_unit = [&](Lib &l) {
    Unit u;
    name_unit(u);
    u.func = "f" + std::to_string(counter);
    u.base = (int)s.draw(9);
    l.units.push_back(u);
    write_unit(u);
  };
  size_t n = 1 + s.draw(3);
  for (size_t i = 0; i < n; i++) {
    Span sp(s);
    Lib l;
    static const Strs names{"lib", "my lib", "l.x"};
    l.name = i + 1 == n ? "prog" : s.pick(names) + std::to_string(i);
    l.type = i + 1 == n ? TargetType::Executable : s.coin() ? TargetType::StaticLibrary : TargetType::DynamicLibrary;
    l.incs = s.coin() ? std::vector<int>{0, 1} : std::vector<int>{1, 0};
    l.pch = s.coin();
    l.flag = (int)s.draw(4);
    for (size_t k = 0, m = 1 + s.draw(2); k < m; k++)
      new_unit(l);
    libs.push_back(l);
  }
  write_headers(-1);
  bool main_c = s.coin();
  int cflag = (int)s.draw(3), cppflag = (int)s.draw(3);
  auto write_main = [&]() {
    std::string t = "#include <stdio.h>\n";
    for (auto &l : libs)
      for (auto &u : l.units)
        t += std::string(main_c ? "extern" : "extern \"C\"") + " int " + fn(u) + "(void);\n";
    t += "int main(void) {\n";
    for (auto &l : libs)
      for (auto &u : l.units)
        t += "printf(\"%d,\", " + fn(u) + "());\n";
    put(root / (main_c ? "src/main.c" : "src/main.cpp"), t + "return 0; }\n");
  };
  write_main();
  auto expected = [&]() {
    std::string r;
    for (auto &l : libs)
      for (auto &u : l.units) {
        int v = u.base;
        if (u.kind != 2)
          v += 10 * val[l.incs[0]] + 100 * hdr + (l.pch ? 1000 * (pchv + pdep) : 0) + 10000 * l.flag +
               100000 * (u.kind == 0 ? cflag : cppflag);
        r += std::to_string(v) + ",";
      }
    return r;
  };
  size_t steps = 1 + s.draw(4);
  for (size_t st = 0; st < steps; st++) {
    if (st) {
      Span sp(s);
      std::string what;
      Lib &l = libs[s.draw(libs.size())];
      switch (s.draw(13)) {
      case 12: { // its function moves to another file, of another language perhaps
        Unit &u = l.units[s.draw(l.units.size())];
        std::string old = u.file;
        name_unit(u);
        u.base = (u.base + 1) % 10;
        write_unit(u);
        fs::remove(root / old);
        what = l.name + ": " + old + " becomes " + u.file;
        ctx.label("source renamed");
        break;
      }
      case 8: pdep = (pdep + 1) % 10, write_headers(4), what = "edit pdep.h"; break;
      case 9:
        if (l.units.size() > 1) {
          what = l.name + ": remove source " + l.units.back().file;
          l.units.pop_back();
          write_main();
        } else
          what = "no edit";
        break;
      case 10:
        if (&l != &libs.back()) {
          l.type = l.type == TargetType::StaticLibrary ? TargetType::DynamicLibrary : TargetType::StaticLibrary;
          what = l.name + ": other library type";
        } else
          what = "no edit";
        break;
      case 0: {
        int i = (int)s.draw(2);
        val[i] = (val[i] + 1) % 10;
        write_headers(i);
        what = "edit inc" + std::to_string(i) + "/val.h";
        break;
      }
      case 1: hdr = (hdr + 1) % 10, write_headers(2), what = "edit hdr.h"; break;
      case 2: pchv = (pchv + 1) % 10, write_headers(3), what = "edit pch.h"; break;
      case 3: {
        Unit &u = l.units[s.draw(l.units.size())];
        u.base = (u.base + 1) % 10;
        write_unit(u);
        what = "edit " + u.file;
        break;
      }
      case 4: std::swap(l.incs[0], l.incs[1]), what = l.name + ": swap include dirs"; break;
      case 5: l.flag = (l.flag + 1) % 4, what = l.name + ": common flag"; break;
      case 6: l.pch = !l.pch, what = l.name + ": toggle pch"; break;
      case 7: cppflag = (cppflag + 1) % 3, what = "C++ flag"; break;
      default: new_unit(l), write_main(), what = l.name + ": new source " + l.units.back().file; break;
      }
      ctx.note(what);
    }
    buildcc::Storage::Clear();
    reset(root, bdir);
    Handler h([&](const std::string &c, const std::string &cwd, const stub::Reader &out, const stub::Reader &) {
      if (out) { // version queries
        std::string t = "1\n";
        out(t.data(), t.size());
        return 0;
      }
      return real_sh(c, cwd);
    });
    auto &tc = buildcc::Toolchain_generic::New(ToolchainId::Gcc, "gcc",
                                               ToolchainExecutables("gcc", "gcc", "g++", "ar", "ld"));
    tc.Verify(buildcc::ToolchainFindConfig({}, {"/usr/bin"}));
    tc.AddCCompileFlag("-DLANGF=" + std::to_string(cflag));
    tc.AddCppCompileFlag("-DLANGF=" + std::to_string(cppflag));
    std::vector<std::unique_ptr<Target>> ts;
    std::vector<Target *> flow;
    for (size_t i = 0; i < libs.size(); i++) {
      auto &l = libs[i];
      ts.push_back(make(2, ToolchainId::Gcc, l.type, l.name, tc, TargetEnv(""), {}));
      Target &t = *ts.back();
      for (auto &u : l.units)
        t.AddSource(u.file);
      t.AddHeader("hdr.h");
      t.AddHeader("inc 0/val.h");
      t.AddHeader("inc 1/val.h");
      for (int d : l.incs)
        t.AddIncludeDir("inc " + std::to_string(d));
      if (l.pch) {
        t.AddPch("pch.h");
        t.AddHeader("pdep.h");
      }
      t.AddCommonCompileFlag("-DCF=" + std::to_string(l.flag));
      if (i + 1 == libs.size()) {
        t.AddSource(main_c ? "src/main.c" : "src/main.cpp");
        for (size_t k = 0; k < i; k++)
          t.AddLibDep(*ts[k]);
      }
      t.Build();
      flow.push_back(&t);
    }
    if (!st)
      for (auto &l : libs) {
        std::string d = "target " + l.name + " type " + std::to_string((int)l.type) + (l.pch ? " pch" : "");
        for (auto &u : l.units)
          d += " " + u.file;
        ctx.note(d);
        ctx.label(l.type == TargetType::StaticLibrary ? "static" : l.type == TargetType::DynamicLibrary ? "dynamic" : "exe");
      }
    run_flow(flow, 2);
    ctx.check(buildcc::env::get_task_state() == buildcc::env::TaskState::SUCCESS, "build of a valid project failed");
    fs::path out = base / "out.txt", exe = flow.back()->GetTargetPath();
    Handler h2(nullptr);
    std::string cmd = "'" + exe.string() + "' > '" + out.string() + "' 2>&1";
    const char *argv[] = {"/bin/sh", "-c", cmd.c_str(), nullptr};
    pid_t pid;
    posix_spawn(&pid, "/bin/sh", nullptr, nullptr, (char **)argv, environ);
    int rc;
    while (waitpid(pid, &rc, 0) < 0 && errno == EINTR)
      ;
    ctx.equal(read_file(out), expected(), "output of the built program");
    ctx.count("real builds");
  }
  buildcc::Storage::Clear();
  if (steps > 1 || libs.size() > 1)
    ctx.nontrivial();
}

Register r1([] {
  Property p;
  p.id = "C01";
  p.rule = "a complete toolchain is found although incomplete directories or look-alike files are present";
  p.run = c01;
  p.quick_cases = 12000;
  p.quick_seconds = 45;
  return p;
}());
Register r2([] {
  Property p;
  p.id = "C02";
  p.rule = "a precompiled header, a dynamic library, an own configuration or a rejected toolchain is involved";
  p.run = c02;
  p.quick_cases = 6000;
  p.quick_seconds = 45;
  return p;
}());
Register r3([] {
  Property p;
  p.id = "C03";
  p.rule = "several targets or an edit between two real builds";
  p.run = c03;
  p.quick_cases = 400;
  p.quick_seconds = 70;
  p.thorough_cases = 6000;
  p.thorough_seconds = 400;
  return p;
}());
} // namespace
