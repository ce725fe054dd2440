// X01 immediate mode, X02 script mode of the buildexe program: its real main()
// runs in a forked child with stand-in tools that log what they are asked to do.
#include <fcntl.h>
#include <sys/stat.h>
#include <unistd.h>

#include <nlohmann/json.hpp>

#include "reg_world.hpp"

#include "buildcc.h"

int buildexe_main(int argc, char **argv);

namespace {
using namespace rw;
using namespace buildcc;
using J = nlohmann::json;

// commands are long: one line per event in a file
std::string g_events;
void xlog(char kind, const std::string &what) {
  std::string l = std::string(1, kind) + what + "\n";
  int fd = open(g_events.c_str(), O_WRONLY | O_APPEND | O_CREAT, 0600);
  if (write(fd, l.data(), l.size()) < 0)
    _exit(9);
  close(fd);
}
std::vector<Event> xevents() {
  std::vector<Event> r;
  std::istringstream in(read_file(g_events));
  std::string l;
  while (std::getline(in, l))
    r.push_back({l[0], l.substr(1)});
  return r;
}

struct Inputs {
  Strs srcs, incs, lib_dirs, ext_libs, pre, common, as, c, cpp, link;
};
struct Case {
  fs::path cwd, home, tools;
  std::string root{"pro"}, bdir{"out"}, name{"app"}, rel;
  int type{0};
  bool script{false};
  Inputs in;
  Strs configs;                         // of the script
  std::vector<std::pair<std::string, Strs>> libs; // library -> build files used
  Strs unused_libs;
  // faults
  std::string fail; // marker: a command containing it fails
  bool clean{false};
  std::string missing; // required setting that is not given
  fs::path broot() const { return cwd / root / rel; }
  fs::path bd() const { return cwd / bdir; }
};

const char *kTypes[] = {"executable", "staticLibrary", "dynamicLibrary"};

std::string quoted(const std::string &v) { return v.find('"') == std::string::npos ? "\"" + v + "\"" : "'" + v + "'"; }
std::string array(const Strs &v) {
  std::string r = "[";
  for (auto &x : v)
    r += (r.size() > 1 ? ", " : "") + quoted(x);
  return r + "]";
}

// writes what tools would write; logs 'K' compile, 'A' archive, 'L' link,
// 'Q' query, 'X' anything else (a program that was built)
int tool(const Case &c, const std::string &cmd, const stub::Reader &out) {
  Strs w = words(cmd);
  std::string t = w.empty() ? "" : w[0];
  auto is = [&](const char *n) { return t == (c.tools / n).string(); };
  auto has = [&](const char *o) { return std::find(w.begin(), w.end(), o) != w.end(); };
  bool bad = !c.fail.empty() && cmd.find(c.fail) != std::string::npos;
  if (is("g++") && w.size() == 2 && w[1].rfind("-dump", 0) == 0) {
    xlog('Q', cmd);
    std::string v = w[1] == "-dumpversion" ? "13\n" : "x86_64-linux-gnu\n";
    if (out)
      out(v.data(), v.size());
    return bad;
  }
  std::string o;
  char kind = 'X';
  if ((is("g++") || is("gcc") || is("as")) && has("-o")) {
    auto it = std::find(w.begin(), w.end(), "-o");
    if (it + 1 != w.end())
      o = *(it + 1);
    kind = has("-c") ? 'K' : 'L';
  } else if (is("ar") && w.size() > 2) {
    o = w[2];
    kind = 'A';
  }
  xlog(kind, cmd);
  if (bad)
    return 1;
  if (!o.empty())
    write_file(o, cmd);
  return 0;
}

// the file that `cmd`, a compile, compiles
std::string source_of(const std::string &cmd) {
  Strs w = words(cmd);
  return w.empty() ? "" : w.back();
}

ForkResult run_buildexe(const Case &c, const Strs &argv) {
  fs::remove(g_events);
  return run_forked([&]() -> std::string {
    if (chdir(c.cwd.c_str()))
      return "chdir";
    setenv("BUILDCC_HOME", c.home.c_str(), 1);
    setenv("PATH", c.tools.c_str(), 1);
    stub::set_handler([&c](const std::string &cmd, const std::string &, const stub::Reader &o, const stub::Reader &) {
      return tool(c, cmd, o);
    });
    std::vector<char *> av;
    for (auto &a : argv)
      av.push_back(const_cast<char *>(a.c_str()));
    int r = buildexe_main((int)av.size(), av.data());
    return std::to_string(r);
  });
}

void make_tools(Case &c, Src &s, Ctx &ctx) {
  g_events = (ctx.dir / "events").string();
  c.cwd = ctx.dir / (s.chance(1, 4) ? "w s" : "ws");
  c.home = ctx.dir / (s.chance(1, 4) ? "ho me" : "home");
  c.tools = ctx.dir / (s.chance(1, 4) ? "to ols" : "tools");
  for (auto &d : {c.cwd, c.home / "buildcc", c.home / "libs", c.home / "extensions", c.tools})
    fs::create_directories(d);
  for (auto &t : {"as", "gcc", "g++", "ar", "ld"})
    write_file(c.tools / t, "x");
}

void put(const fs::path &p, const std::string &t) {
  fs::create_directories(p.parent_path());
  write_file(p, t);
}

// everything buildexe is told, spread over configuration files and options
Strs arguments(Src &s, const Case &c, Ctx &ctx) {
  Strs argv{"buildexe"};
  std::string top, late;
  Strs cli;
  auto one = [&](const std::string &k, const std::string &v) {
    if (k == c.missing)
      return;
    if (s.chance(1, 4))
      cli.push_back("--" + k + "=" + v);
    else
      (s.coin() ? top : late) += k + " = " + quoted(v) + "\n";
  };
  one("root_dir", c.root);
  one("build_dir", c.bdir);
  one("loglevel", "critical");
  one("mode", c.script ? "script" : "immediate");
  one("name", c.name);
  one("type", kTypes[c.type]);
  if (c.rel.empty())
    top += "relative_to_root = \"\"\n";
  else
    one("relative_to_root", c.rel);
  if (c.clean)
    cli.push_back("--clean");
  auto many = [&](const std::string &k, const Strs &v) {
    if (v.empty())
      return;
    bool empty = false;
    for (auto &x : v)
      empty |= x.empty();
    if (!empty && s.chance(1, 4))
      for (auto &x : v)
        cli.push_back("--" + k + "=" + x);
    else
      (s.coin() ? top : late) += k + " = " + array(v) + "\n";
  };
  many("srcs", c.in.srcs);
  many("includes", c.in.incs);
  many("lib_dirs", c.in.lib_dirs);
  many("external_libs", c.in.ext_libs);
  many("preprocessor_flags", c.in.pre);
  many("common_compile_flags", c.in.common);
  many("asm_compile_flags", c.in.as);
  many("c_compile_flags", c.in.c);
  many("cpp_compile_flags", c.in.cpp);
  many("link_flags", c.in.link);
  std::string secs = "[toolchain.host]\nid = \"gcc\"\nname = \"gcc\"\nasm_compiler = \"as\"\nc_compiler = \"gcc\"\n"
                     "cpp_compiler = \"g++\"\narchiver = \"ar\"\nlinker = \"ld\"\n";
  if (!c.configs.empty())
    secs += "[script]\nconfigs = " + array(c.configs) + "\n";
  if (!c.libs.empty()) {
    secs += "[libs]\n";
    for (auto &[n, f] : c.libs)
      secs += n + " = " + array(f) + "\n";
  }
  bool split = s.coin();
  write_file(c.cwd / "compile.toml", split ? top + late : top + late + secs);
  argv.push_back("--config");
  argv.push_back("compile.toml");
  if (split) {
    write_file(c.cwd / "host.toml", secs);
    argv.push_back("--config");
    argv.push_back("host.toml");
  }
  for (auto &x : cli)
    argv.push_back(x);
  std::string line;
  for (auto &a : argv)
    line += Ctx::show(a) + " ";
  ctx.note(line);
  ctx.note(read_file(c.cwd / "compile.toml"));
  return argv;
}

void gen_inputs(Src &s, Case &c, Ctx &ctx) {
  static const Strs roots{"pro", "p q", ".", "a/b"};
  static const Strs outs{"out", "o ut", "x/out"};
  static const Strs rels{"", "sub", "s p"};
  c.root = s.pick(roots);
  c.bdir = s.pick(outs);
  c.rel = s.pick(rels);
  c.name = s.chance(1, 4) ? "my app" : "app";
  static const Strs srcs{"main.cpp", "a.c", "dir/b.cc", "d r/c.cpp", "asm.s", "x.cxx"};
  size_t n = 1 + s.draw(4);
  for (size_t i = 0; i < n; i++) {
    std::string f = srcs[(i + s.draw(2)) % srcs.size()];
    if (std::find(c.in.srcs.begin(), c.in.srcs.end(), f) == c.in.srcs.end())
      c.in.srcs.push_back(f);
  }
  for (auto &f : c.in.srcs)
    put(c.broot() / f, "0");
  for (auto &d : {"inc", "in c", "lib"})
    fs::create_directories(c.broot() / d);
  auto some = [&](Strs &out, const Strs &from, size_t max) {
    size_t k = s.draw(max + 1);
    for (size_t i = 0; i < k; i++) {
      out.push_back(s.pick(from)); // also more than once
    }
  };
  some(c.in.incs, {"inc", "in c", ""}, 3);
  some(c.in.lib_dirs, {"lib", "inc"}, 2);
  some(c.in.ext_libs, {"-lm", "-lpthread", "-l:x.a"}, 3);
  some(c.in.pre, {"-DA=1", "-DB", "-DC=x", "-DD='a,b'"}, 3);
  some(c.in.common, {"-O2", "-g", "-fPIC"}, 2);
  some(c.in.as, {"-Wa", "-asmflag"}, 2);
  some(c.in.c, {"-std=c11", "-Wc"}, 2);
  some(c.in.cpp, {"-std=c++17", "-Wcpp"}, 2);
  some(c.in.link, {"-Wl,x", "-static"}, 2);
  (void)ctx;
}

std::multiset<std::string> commands(const std::vector<Event> &ev, const std::string &kinds) {
  std::multiset<std::string> r;
  for (auto &e : ev)
    if (kinds.find(e.kind) != std::string::npos)
      r.insert(e.what);
  return r;
}

// ------------------------------------------------------------------ X01 ----
void x01(Src &s, Ctx &ctx) {
  Case c;
  make_tools(c, s, ctx);
  gen_inputs(s, c, ctx);
  c.type = (int)s.draw(3);
  size_t mistake = s.weighted({14, 1, 1, 1, 1, 1, 1, 1, 2});
  // what the same description does through the library
  auto api = [&]() {
    fs::remove(g_events);
    auto r = run_forked([&]() -> std::string {
      if (chdir(c.cwd.c_str()))
        return "chdir";
      setenv("PATH", c.tools.c_str(), 1);
      stub::set_handler([&c](const std::string &cmd, const std::string &, const stub::Reader &o, const stub::Reader &) {
        return tool(c, cmd, o);
      });
      const char *argv[] = {"", "--root_dir", c.root.c_str(), "--build_dir", c.bdir.c_str(), "--loglevel", "critical"};
      Args::Init().Parse(7, argv);
      Reg::Init();
      Toolchain_gcc tc;
      tc.Verify();
      static const TargetType ty[] = {TargetType::Executable, TargetType::StaticLibrary, TargetType::DynamicLibrary};
      Target_generic t(c.name, ty[c.type], tc, TargetEnv(c.rel));
      for (auto &x : c.in.srcs)
        t.AddSource(x);
      for (auto &x : c.in.incs)
        t.AddIncludeDir(x);
      for (auto &x : c.in.lib_dirs)
        t.AddLibDir(x);
      for (auto &x : c.in.ext_libs)
        t.AddLibDep(x);
      for (auto &x : c.in.pre)
        t.AddPreprocessorFlag(x);
      for (auto &x : c.in.common)
        t.AddCommonCompileFlag(x);
      for (auto &x : c.in.as)
        t.AddAsmCompileFlag(x);
      for (auto &x : c.in.c)
        t.AddCCompileFlag(x);
      for (auto &x : c.in.cpp)
        t.AddCppCompileFlag(x);
      for (auto &x : c.in.link)
        t.AddLinkFlag(x);
      Reg::Toolchain(ArgToolchainState(true)).Build([](BaseTarget &x) { x.Build(); }, t);
      Reg::Run();
      return t.GetTargetPath().string();
    });
    ctx.check(r.returned, "the same build through the library " + why(r));
    return r.out;
  };
  if (mistake) {
    const std::vector<std::function<void(Case &)>> how{
        [](Case &c) { c.fail = "-dumpversion"; },
        [](Case &c) { c.fail = "main.cpp"; c.in.srcs = {"main.cpp"}; put(c.broot() / "main.cpp", "0"); },
        [](Case &c) { c.fail = c.type == 1 ? "rcs" : c.type == 0 ? c.name : "-shared"; },
        [](Case &c) { c.in.srcs.push_back("missing.cpp"); },
        [](Case &c) { fs::remove(c.tools / "ar"); },
        [](Case &c) { fs::remove_all(c.home / "libs"); },
        [](Case &c) { c.in.srcs.push_back("text.txt"); put(c.broot() / "text.txt", "x"); },
        [&s](Case &c) { c.missing = s.pick(Strs{"root_dir", "build_dir", "mode", "name", "type"}); },
    };
    how[mistake - 1](c);
    ctx.note("mistake " + std::to_string(mistake));
    auto r = run_buildexe(c, arguments(s, c, ctx));
    ctx.check(!r.timeout && !r.signal && r.exited && r.code != 0 && !r.returned,
              "buildexe with something wrong (" + std::to_string(mistake) + ") " + why(r));
    ctx.label("mistake");
    ctx.nontrivial();
    return;
  }
  Strs argv = arguments(s, c, ctx);
  auto r = run_buildexe(c, argv);
  ctx.check(r.returned && r.out == "0", "buildexe " + why(r) + " " + r.out);
  auto first = xevents();
  auto got = commands(first, "KALQX");
  fs::path db = c.bd() / "compile_commands.json";
  J j = J::parse(read_file(db), nullptr, false);
  ctx.check(j.is_array() && j.size() == c.in.srcs.size(), "compilation database of the target\n" + read_file(db));
  // again without a change
  r = run_buildexe(c, argv);
  ctx.check(r.returned && r.out == "0", "a second run " + why(r));
  ctx.equal(commands(xevents(), "KALX"), std::multiset<std::string>{}, "commands of a second run with nothing changed");
  // after an edit, or cleaning
  size_t edit = s.draw(3);
  if (edit == 1) {
    fs::path f = c.broot() / s.pick(c.in.srcs);
    write_file(f, "1");
    timespec t[2] = {{2000000000, 0}, {2000000000, 0}};
    utimensat(AT_FDCWD, f.c_str(), t, 0);
    r = run_buildexe(c, argv);
    ctx.check(r.returned && r.out == "0", "a run after an edit " + why(r));
    auto k = commands(xevents(), "K"), l = commands(xevents(), "LA");
    ctx.check(k.size() == 1 && source_of(*k.begin()) == f.lexically_normal().string() && l.size() == 1,
              "after editing " + f.string() + " was run: " + Ctx::show(k) + Ctx::show(l));
  } else if (edit == 2) {
    static const Strs left{"leftover", ".hidden", "sub/deep/x.o", "compile_commands.json.old", "x y/z", "a.bin", "_internal/f"};
    fs::path leftover = c.bd() / s.pick(left), outside = ctx.dir / "outside";
    put(leftover, "x");
    put(outside / "kept", "x");
    if (s.coin())
      fs::create_directory_symlink(outside, c.bd() / "symlink");
    Strs a = argv;
    a.insert(a.begin() + 1, "--clean");
    r = run_buildexe(c, a);
    ctx.check(r.returned && r.out == "0", "a run with cleaning " + why(r));
    ctx.equal(commands(xevents(), "KALQX"), got, "commands after cleaning");
    ctx.check(!fs::exists(leftover) && !fs::is_symlink(c.bd() / "symlink"), "cleaning left a file");
    ctx.check(fs::exists(outside / "kept"), "cleaning removed a file outside of the build directory");
    for (auto &f : c.in.srcs)
      ctx.check(fs::exists(c.broot() / f), "cleaning removed a source");
    ctx.label("cleaned");
  }
  fs::remove_all(c.bd());
  std::string path = api();
  ctx.equal(got, commands(xevents(), "KALQX"), "commands run by buildexe compared with the library");
  ctx.check(!got.empty() && fs::exists(path), "the target");
  if (c.in.srcs.size() > 1)
    ctx.nontrivial();
}

// ------------------------------------------------------------------ X02 ----
// names of all files of the library, from the repository
const std::vector<std::pair<std::string, bool>> &library_files() {
  static std::vector<std::pair<std::string, bool>> v = [] {
    std::vector<std::pair<std::string, bool>> r;
    const char *repo = getenv("VERIF_REPO");
    fs::path base = fs::path(repo ? repo : "/repo") / "buildcc";
    for (auto &e : fs::recursive_directory_iterator(base)) {
      if (!e.is_regular_file())
        continue;
      std::string p = e.path().lexically_relative(base).string();
      if (p.find("test/") != std::string::npos || p.find("mock/") != std::string::npos)
        continue;
      bool src = p.find("src/") != std::string::npos && e.path().extension() == ".cpp";
      bool hdr = (p.find("include/") != std::string::npos || p.find('/') == std::string::npos) && e.path().extension() == ".h";
      if (src || hdr)
        r.push_back({p, src});
    }
    std::sort(r.begin(), r.end());
    return r;
  }();
  return v;
}
const Strs kThirdHeaders{"json/include/nlohmann", "json/include/nlohmann/thirdparty/hedley", "json/include/nlohmann/detail",
                         "json/include/nlohmann/detail/conversions", "json/include/nlohmann/detail/input",
                         "json/include/nlohmann/detail/iterators", "json/include/nlohmann/detail/meta",
                         "json/include/nlohmann/detail/meta/call_std", "json/include/nlohmann/detail/output",
                         "CLI11/include/CLI", "fmt/include/fmt", "spdlog/include/spdlog", "spdlog/include/spdlog/cfg",
                         "spdlog/include/spdlog/details", "spdlog/include/spdlog/fmt", "spdlog/include/spdlog/sinks",
                         "taskflow/taskflow", "taskflow/taskflow/algorithm", "taskflow/taskflow/core",
                         "taskflow/taskflow/cuda", "taskflow/taskflow/cuda/algorithm", "taskflow/taskflow/dsl",
                         "taskflow/taskflow/sycl", "taskflow/taskflow/sycl/algorithm", "taskflow/taskflow/utility"};

void x02(Src &s, Ctx &ctx) {
  Case c;
  c.script = true;
  make_tools(c, s, ctx);
  gen_inputs(s, c, ctx);
  c.in.link.clear();
  static const Strs cf{"build.toml", "b c.toml", "dir/x.toml", "./y.toml"};
  for (size_t k = s.draw(4); k > 0; k--)
    c.configs.push_back(s.pick(cf));
  fs::path base = c.home / "buildcc";
  std::set<std::string> lib_srcs;
  std::vector<fs::path> lib_hdrs;
  std::set<std::string> inc_roots;
  for (auto &[p, src] : library_files()) {
    put(base / "buildcc" / p, "0");
    if (src)
      lib_srcs.insert((base / "buildcc" / p).string());
    else {
      lib_hdrs.push_back(base / "buildcc" / p);
      auto at = p.find("include/");
      inc_roots.insert((base / "buildcc" / (at == std::string::npos ? "" : p.substr(0, at + 7))).string());
    }
  }
  for (auto &d : kThirdHeaders)
    put(base / "third_party" / d / "x.hpp", "0");
  for (auto &f : {"process.cpp", "process_unix.cpp", "process.hpp"})
    put(base / "third_party/tiny-process-library" / f, "0");
  // libraries below BUILDCC_HOME/libs
  size_t nl = s.draw(3);
  Strs all_libs;
  for (size_t i = 0; i < nl; i++) {
    Span sp(s);
    std::string n = "lib" + std::to_string(i);
    all_libs.push_back(n);
    fs::path d = c.home / "libs" / n;
    put(d / ("build." + n + ".cpp"), "0");
    put(d / "sub dir" / (n + ".cpp"), "0");
    put(d / "inc" / ("build." + n + ".h"), "0");
    put(d / "README", "0");
    put(d / "build.cpp", "0"); // the same name in every library
    put(d / "build.h", "0");
    Strs use;
    for (auto &f : {"build." + n + ".cpp", "sub dir/" + n + ".cpp", "inc/build." + n + ".h", std::string("README"),
                    std::string("build.cpp"), std::string("build.h")})
      if (s.coin())
        use.push_back(f);
    if (!use.empty())
      c.libs.push_back({n, use});
  }
  put(c.home / "libs" / "not a directory", "x");
  for (auto &d : all_libs)
    ctx.note("library " + d);
  std::string exe = (c.bd() / "gcc" / c.name / c.name).lexically_normal().string();
  Strs argv = arguments(s, c, ctx);
  size_t mistake = s.weighted({8, 1, 1, 1, 1, 1, 2});
  if (mistake) {
    switch (mistake) {
    case 1:
      c.fail = "-dumpmachine";
      break;
    case 2:
      c.fail = "verify_host_toolchain.cpp";
      break;
    case 3:
      c.fail = "verify_host_toolchain/gcc/verify/verify";
      break;
    case 4:
      c.fail = "process_unix.cpp";
      break;
    case 5:
      c.fail = fs::path(s.pick(c.in.srcs)).filename().string();
      break;
    default:
      c.fail = "SCRIPT";
      break;
    }
    ctx.note("fails: " + c.fail);
  }
  auto run = [&](const Strs &av) {
    if (c.fail != "SCRIPT")
      return run_buildexe(c, av);
    // the script itself fails: a command that starts with the program
    std::string keep = c.fail;
    fs::remove(g_events);
    return run_forked([&]() -> std::string {
      if (chdir(c.cwd.c_str()))
        return "chdir";
      setenv("BUILDCC_HOME", c.home.c_str(), 1);
      setenv("PATH", c.tools.c_str(), 1);
      stub::set_handler([&](const std::string &cmd, const std::string &, const stub::Reader &o, const stub::Reader &) {
        Strs w = words(cmd);
        int r = tool(c, cmd, o);
        return !w.empty() && w[0] == exe ? 3 : r;
      });
      std::vector<char *> p;
      for (auto &a : av)
        p.push_back(const_cast<char *>(a.c_str()));
      return std::to_string(buildexe_main((int)p.size(), p.data()));
    });
  };
  auto r = run(argv);
  auto ev = xevents();
  auto programs = [&](const std::vector<Event> &ev) { // programs run, except the host verification
    std::vector<Strs> p;
    for (auto &e : ev)
      if (e.kind == 'X') {
        Strs w = words(e.what);
        if (w.empty() || fs::path(w[0]).filename() != "verify")
          p.push_back(w);
      }
    return p;
  };
  if (mistake) {
    ctx.check(!r.timeout && !r.signal && r.exited && r.code != 0 && !r.returned,
              "buildexe with something failing (" + c.fail + ") " + why(r));
    if (mistake < 6)
      ctx.check(programs(ev).empty(), "the script was run although " + c.fail + " failed");
    ctx.label("failing");
    ctx.nontrivial();
    return;
  }
  ctx.check(r.returned && r.out == "0", "buildexe " + why(r) + " " + r.out);
  // every source once: the library, its process library, the script, its libraries
  std::multiset<std::string> want(lib_srcs.begin(), lib_srcs.end()), got;
  for (auto &f : {"process.cpp", "process_unix.cpp"})
    want.insert((base / "third_party/tiny-process-library" / f).string());
  std::set<std::string> user;
  for (auto &f : c.in.srcs)
    user.insert((c.broot() / f).lexically_normal().string());
  std::set<std::string> user_incs;
  for (auto &[n, fl] : c.libs)
    for (auto &f : fl) {
      fs::path p = c.home / "libs" / n / f;
      if (p.extension() == ".cpp")
        user.insert(p.string());
      if (p.extension() == ".h")
        user_incs.insert(p.parent_path().string());
    }
  want.insert(user.begin(), user.end());
  int last_lib = -1, lib_archive = -1, user_link = -1, ran = -1, pos = 0;
  std::string lib_file, tpl_file;
  for (auto &i : c.in.incs)
    user_incs.insert((c.broot() / i).lexically_normal().string());
  auto trim = [](std::string p) {
    while (p.size() > 1 && p.back() == '/')
      p.pop_back();
    return p;
  };
  for (auto &e : ev) {
    pos++;
    Strs w = words(e.what);
    for (size_t i = 1; i < w.size(); i++) // options of another compiler family would be taken for files
      ctx.check(w[i][0] != '/' || w[i].rfind(ctx.dir.string(), 0) == 0, "unexpected argument " + w[i] + " in " + e.what);
    if (e.kind == 'K') {
      std::string f = source_of(e.what);
      if (fs::path(f).filename() == "verify_host_toolchain.cpp")
        continue;
      got.insert(f);
      if (lib_srcs.count(f))
        last_lib = pos;
      if (lib_srcs.count(f) || user.count(f)) {
        std::set<std::string> incs;
        for (auto &x : w)
          if (x.rfind("-I", 0) == 0)
            incs.insert(trim(x.substr(2)));
        for (auto &i : inc_roots)
          ctx.check(incs.count(trim(i)), f + " is compiled without the include directory " + i);
        if (user.count(f)) {
          for (auto &i : user_incs)
            ctx.check(incs.count(trim(i)), f + " is compiled without the include directory " + i);
          for (auto &x : c.in.pre)
            ctx.check(std::find(w.begin(), w.end(), x) != w.end(), f + " is compiled without " + x);
        }
      }
    } else if (e.kind == 'A') {
      if (fs::path(w[2]).filename().string().find("buildcc") != std::string::npos)
        lib_archive = pos, lib_file = w[2];
      else
        tpl_file = w[2];
    } else if (e.kind == 'L' && std::find(w.begin(), w.end(), exe) != w.end()) {
      user_link = pos;
      auto at = [&](const std::string &x) { return std::find(w.begin(), w.end(), x) - w.begin(); };
      ctx.check(!lib_file.empty() && at(lib_file) < (long)w.size() && at(tpl_file) < (long)w.size() && at(lib_file) < at(tpl_file),
                "the script is not linked with the library and what it needs: " + e.what);
    } else if (e.kind == 'X' && !w.empty() && w[0] == exe)
      ran = pos;
  }
  ctx.equal(got, want, "sources compiled");
  ctx.check(last_lib < lib_archive && lib_archive < user_link && user_link < ran, "order of library, script and its run");
  std::vector<Strs> wantrun{{exe}};
  for (auto &x : c.configs) {
    wantrun[0].push_back("--config");
    wantrun[0].push_back(fs::path(x).lexically_normal().string());
  }
  auto judge_run = [&](const std::vector<Event> &ev) {
    auto p = programs(ev);
    for (auto &w : p)
      for (auto &x : w)
        x = fs::path(x).lexically_normal().string();
    ctx.equal(p, wantrun, "programs run");
  };
  judge_run(ev);
  // the generated header names every library
  auto judge_header = [&] {
    std::string h = read_file(c.bd() / "gcc" / c.name / "buildexe_lib_dirs.h");
    for (auto &n : all_libs)
      ctx.check(h.find(" " + n + " = \"" + (c.home / "libs" / n).string() + "\";") != std::string::npos,
                "buildexe_lib_dirs.h does not name " + n + "\n" + h);
  };
  judge_header();
  // again without a change: only the script runs
  r = run(argv);
  ctx.check(r.returned && r.out == "0", "a second run " + why(r));
  ev = xevents();
  judge_run(ev);
  for (auto &e : ev)
    if (e.kind == 'K' || e.kind == 'A' || e.kind == 'L')
      ctx.check(e.what.find("verify_host_toolchain") != std::string::npos, "a second run with nothing changed ran " + e.what);
  // a change of the library, the script or its libraries reaches the script
  fs::path f;
  std::vector<fs::path> own_hdrs;
  for (auto &[n, fl] : c.libs)
    for (auto &x : fl)
      if (fs::path(x).extension() == ".h")
        own_hdrs.push_back(c.home / "libs" / n / x);
  auto any = [&](const std::set<std::string> &v) {
    auto it = v.begin();
    std::advance(it, (long)s.draw(v.size()));
    return fs::path(*it);
  };
  if (s.chance(1, 3)) { // another library appears: the generated header names it from the next run on
    all_libs.push_back("newlib");
    put(c.home / "libs/newlib/build.cpp", "0");
    ctx.note("a new library");
  }
  size_t ek = s.weighted({4, 3, 2, own_hdrs.empty() ? 0u : 2u});
  f = ek == 0 ? s.pick(lib_hdrs) : ek == 1 ? any(lib_srcs) : ek == 2 ? any(user) : s.pick(own_hdrs);
  static const char *ekn[] = {"library header edited", "library source edited", "script source edited", "header of a used library edited"};
  ctx.label(ekn[ek]);
  ctx.note("edit " + f.string());
  write_file(f, "1");
  timespec t[2] = {{2000000000, 0}, {2000000000, 0}};
  utimensat(AT_FDCWD, f.c_str(), t, 0);
  r = run(argv);
  ctx.check(r.returned && r.out == "0", "a run after editing the library " + why(r));
  ev = xevents();
  judge_run(ev);
  judge_header();
  bool archived = false, linked = false;
  std::multiset<std::string> again;
  for (auto &e : ev) {
    archived |= e.kind == 'A' && e.what.find(lib_file) != std::string::npos;
    linked |= e.kind == 'L' && e.what.find(exe) != std::string::npos;
    if (e.kind == 'K')
      again.insert(source_of(e.what));
  }
  ctx.check(linked && (ek > 1 || archived), "editing " + f.string() + " did not rebuild " + (ek > 1 ? "" : "the library and ") + "the script");
  if (ek == 1 || ek == 2)
    ctx.equal(again.count(f.string()), (size_t)1, "compilations of the edited " + f.string());
  else
    for (auto &x : user)
      ctx.equal(again.count(x), (size_t)1, "compilations of " + x + ", which can include the edited " + f.string());
  ctx.nontrivial();
}

Register rx1([] {
  Property p;
  p.id = "X01";
  p.rule = "more than one source, or a mistake";
  p.run = x01;
  p.mode = Mode::kMain;
  p.quick_cases = 2000;
  p.quick_seconds = 45;
  return p;
}());
Register rx2([] {
  Property p;
  p.id = "X02";
  p.rule = "a complete script run with an edit, or a failing step";
  p.run = x02;
  p.mode = Mode::kMain;
  p.quick_cases = 600;
  p.quick_seconds = 60;
  return p;
}());
} // namespace
