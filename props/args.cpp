// A01 command line and configuration files, J01 compile_commands.json,
// J02 search of host programs.
#include <fcntl.h>
#include <sys/stat.h>
#include <unistd.h>

#include <regex>

#include <nlohmann/json.hpp>
#include <spdlog/spdlog.h>

#include "reg_world.hpp"

#include "plugins/buildcc_find.h"
#include "plugins/clang_compile_commands.h"

namespace {
using namespace rw;
using namespace buildcc;
using J = nlohmann::json;

// ------------------------------------------------------------------ A01 ----
// one setting of the program: where it was given and what it must be
struct Setting {
  std::string section; // "" root, "toolchain.gcc", "target.x"
  std::string key;
  enum Type { STR, FLAG, LEVEL, ID, PATH, LIST } type{STR};
  std::string initial; // canonical value when given nowhere
  std::string value;   // canonical value expected
  int given{-1};       // -1 nowhere, i config file i, 100 command line
};

struct Given {
  int setting;
  std::string text; // how it is spelled
};

const Strs kValues{"gcc", "a b", "/usr/bin/g++", "x=y", "{compiler} -c {input} -o {output}", "", "-flag", "a,b", "say \"hi\"",
                   "C:/Program Files/x", "[a]", "\xc3\xa9t\xc3\xa9", "a#b", "it's"};
const std::vector<std::pair<std::string, int>> kLevels{{"trace", 0}, {"debug", 1}, {"info", 2}, {"warning", 3}, {"critical", 5}};
const Strs kIds{"gcc", "msvc", "mingw", "clang", "custom", "undefined"};

ToolchainId id_of(const std::string &s) {
  static const std::vector<ToolchainId> v{ToolchainId::Gcc,   ToolchainId::Msvc,   ToolchainId::MinGW,
                                          ToolchainId::Clang, ToolchainId::Custom, ToolchainId::Undefined};
  for (size_t i = 0; i < kIds.size(); i++)
    if (kIds[i] == s)
      return v[i];
  return ToolchainId::Undefined;
}
std::string id_name(ToolchainId id) {
  for (auto &n : kIds)
    if (id_of(n) == id)
      return n;
  return "?";
}

std::string mixed_case(Src &s, std::string x) {
  if (s.chance(1, 3))
    for (auto &c : x)
      if (s.coin())
        c = (char)toupper(c);
  return x;
}

// (canonical value, spelling)
std::pair<std::string, std::string> gen_value(Src &s, const Setting &st) {
  switch (st.type) {
  case Setting::FLAG:
    return s.chance(1, 4) ? std::make_pair(std::string("false"), std::string("false"))
                          : std::make_pair(std::string("true"), std::string("true"));
  case Setting::LEVEL: {
    auto &l = s.pick(kLevels);
    return {std::to_string(l.second), mixed_case(s, l.first)};
  }
  case Setting::ID: {
    auto &l = s.pick(kIds);
    return {l, mixed_case(s, l)};
  }
  case Setting::PATH: {
    static const Strs v{"a", "", "sub/dir", ".", "with space", "../up", "_b.1"};
    auto x = s.pick(v);
    return {x, x};
  }
  default: {
    auto x = s.pick(kValues);
    return {x, x};
  }
  }
}

std::string toml_quote(const std::string &v) {
  if (v.find('"') == std::string::npos)
    return "\"" + v + "\"";
  return "'" + v + "'";
}

struct MyData : ArgCustom {
  std::string text{"unset"};
  bool flag{false};
  void Add(CLI::App &app) override {
    app.add_option("--my_text", text);
    app.add_flag("--my_flag", flag);
  }
};

void a01(Src &s, Ctx &ctx) {
  std::vector<Setting> st;
  auto add = [&](std::string sec, std::string key, Setting::Type t, std::string init) {
    Setting x;
    x.section = sec;
    x.key = key;
    x.type = t;
    x.initial = x.value = init;
    st.push_back(x);
  };
  add("", "root_dir", Setting::PATH, "");
  add("", "build_dir", Setting::PATH, "");
  add("", "clean", Setting::FLAG, "false");
  add("", "loglevel", Setting::LEVEL, "2");
  static const Strs names{"gcc", "msvc", "my-tool", "host"};
  size_t ntc = s.draw(4), nta = s.draw(3);
  std::vector<bool> has_init, ta_init;
  std::vector<ArgToolchain> init(ntc);
  std::vector<ArgTarget> tinit(nta);
  for (size_t i = 0; i < ntc; i++) {
    Span sp(s);
    std::string sec = "toolchain." + names[i];
    has_init.push_back(s.coin());
    static const Strs iv{"", "init", "a b", "/usr/bin/as"};
    if (has_init[i])
      init[i] = ArgToolchain(id_of(s.pick(kIds)), s.pick(iv),
                             ToolchainExecutables(s.pick(iv), s.pick(iv), s.pick(iv), s.pick(iv), s.pick(iv)), {});
    add(sec, "build", Setting::FLAG, "false");
    add(sec, "test", Setting::FLAG, "false");
    add(sec, "id", Setting::ID, id_name(init[i].id));
    add(sec, "name", Setting::STR, init[i].name);
    add(sec, "asm_compiler", Setting::STR, init[i].executables.assembler);
    add(sec, "c_compiler", Setting::STR, init[i].executables.c_compiler);
    add(sec, "cpp_compiler", Setting::STR, init[i].executables.cpp_compiler);
    add(sec, "archiver", Setting::STR, init[i].executables.archiver);
    add(sec, "linker", Setting::STR, init[i].executables.linker);
  }
  for (size_t i = 0; i < nta; i++) {
    Span sp(s);
    std::string sec = "target." + names[i];
    ta_init.push_back(s.coin());
    static const Strs iv{"", "{compiler} -c", "x"};
    if (ta_init[i]) {
      tinit[i].compile_command = s.pick(iv);
      tinit[i].link_command = s.pick(iv);
    }
    add(sec, "compile_command", Setting::STR, tinit[i].compile_command);
    add(sec, "link_command", Setting::STR, tinit[i].link_command);
  }
  bool data = s.coin();
  if (data) {
    add("", "my_text", Setting::STR, "unset");
    add("", "my_flag", Setting::FLAG, "false");
  }
  static const std::vector<size_t> ncfgs{0, 1, 2, 3, 1, 2, 5, 10};
  size_t ncfg = s.pick(ncfgs);
  std::vector<std::vector<Given>> cfg(ncfg);
  std::vector<Given> cli;
  // what is given where; later configuration files win over earlier ones, the
  // command line over all of them
  for (size_t i = 0; i < st.size(); i++) {
    Span sp(s);
    bool need = i < 2;
    unsigned times = need ? 1 + (unsigned)s.draw(2) : (unsigned)s.weighted({4, 3, 2});
    for (unsigned k = 0; k < times; k++) {
      int where = (int)s.draw(ncfg + 1);
      auto &list = where == (int)ncfg ? cli : cfg[where];
      bool dup = false;
      for (auto &g : list)
        dup |= g.setting == (int)i;
      if (dup)
        continue;
      auto [v, text] = gen_value(s, st[i]);
      int rank = where == (int)ncfg ? 100 : where;
      if (rank >= st[i].given) {
        st[i].given = rank;
        st[i].value = v;
      }
      list.push_back({(int)i, text});
    }
  }
  // at most one mistake
  static const Strs mistakes{"none",           "none",        "none",         "none",       "none",   "none", "none", "none", "none",
                             "unknown option", "bad level",   "bad id",       "no root",    "no build",
                             "missing config", "unknown sub", "given twice",  "unknown toolchain option",
                             "unknown config key", "help"};
  std::string bad = s.pick(mistakes);
  if ((bad == "bad id" || bad == "unknown toolchain option") && ntc == 0)
    bad = "bad level";
  auto drop = [&](int i) {
    auto no = [&](const Given &g) { return g.setting == i; };
    cli.erase(std::remove_if(cli.begin(), cli.end(), no), cli.end());
    for (auto &c : cfg)
      c.erase(std::remove_if(c.begin(), c.end(), no), c.end());
  };
  if (bad == "no root")
    drop(0);
  if (bad == "no build")
    drop(1);
  int bad_at = (int)s.draw(ncfg + 1); // config file or command line
  auto spoil = [&](int i) {
    drop(i);
    (bad_at == (int)ncfg ? cli : cfg[bad_at]).push_back({i, s.pick(Strs{"verbose", "gccc", "17", "-1", "0x", "gcc "})});
  };
  if (bad == "bad level")
    spoil(3);
  if (bad == "bad id")
    spoil(6);

  fs::path cwd = ctx.dir / "cw d";
  fs::create_directories(cwd);
  // configuration files
  Strs cfgnames;
  for (size_t c = 0; c < ncfg; c++) {
    std::map<std::string, std::string> sec;
    for (auto &g : cfg[c]) {
      auto &x = st[g.setting];
      std::string v = x.type == Setting::FLAG ? g.text : toml_quote(g.text);
      sec[x.section] += x.key + " = " + v + "\n";
    }
    std::string text = sec[""];
    if (bad == "unknown config key" && (int)c == bad_at)
      text += "nosuchkey = 1\n";
    for (auto &[k, v] : sec)
      if (!k.empty())
        text += "[" + k + "]\n" + v;
    std::string name = "c" + std::to_string(c) + (s.coin() ? ".toml" : " x.toml");
    cfgnames.push_back(name);
    write_file(cwd / name, text);
    ctx.note(name + ": " + text);
  }
  if (bad == "unknown config key" && bad_at == (int)ncfg)
    bad = "unknown option";
  if (bad == "missing config")
    cfgnames.push_back("nosuch.toml");

  // command line: root options first, then one block per section
  Strs argv{"build"};
  auto put = [&](const Given &g) {
    auto &x = st[g.setting];
    std::string o = "--" + x.key;
    if (x.type == Setting::FLAG) {
      argv.push_back(g.text == "true" && s.coin() ? o : o + "=" + g.text);
    } else if ((s.coin() || (!g.text.empty() && g.text[0] == '-')) && !g.text.empty())
      argv.push_back(o + "=" + g.text);
    else {
      argv.push_back(o);
      argv.push_back(g.text);
    }
  };
  bool joined = s.coin();
  if (!cfgnames.empty()) {
    for (size_t i = 0; i < cfgnames.size(); i++) {
      if (i == 0 || !joined)
        argv.push_back("--config");
      argv.push_back(cfgnames[i]);
    }
  }
  int twice = -1; // a setting given again on the command line
  if (bad == "given twice") {
    std::vector<int> can;
    for (auto &g : cli)
      if (st[g.setting].type != Setting::FLAG)
        can.push_back((int)(&g - cli.data()));
    if (!can.empty() && !s.chance(1, 4)) {
      twice = s.pick(can);
      cli.push_back(Given(cli[twice]));
    }
  }
  std::vector<Given> order = cli;
  for (size_t i = 0; i < order.size(); i++)
    std::swap(order[i], order[i + s.draw(order.size() - i)]);
  if (bad == "help")
    argv.push_back(s.coin() ? "--help" : "--help-all");
  for (auto &g : order)
    if (st[g.setting].section.empty())
      put(g);
  if (bad == "unknown option")
    argv.push_back("--nosuchoption");
  if (bad == "given twice" && twice < 0) {
    argv.push_back("--loglevel=info");
    argv.push_back("--loglevel=info");
  }
  if (bad == "unknown sub")
    argv.push_back("nosuchcommand");
  Strs secs;
  for (auto &g : order) {
    auto &sc = st[g.setting].section;
    if (!sc.empty() && std::find(secs.begin(), secs.end(), sc) == secs.end())
      secs.push_back(sc);
  }
  if (bad == "unknown toolchain option" && std::find(secs.begin(), secs.end(), "toolchain.gcc") == secs.end())
    secs.push_back("toolchain.gcc");
  std::stable_sort(secs.begin(), secs.end(), [](const std::string &a, const std::string &b) {
    return a.substr(0, a.find('.')) < b.substr(0, b.find('.'));
  });
  std::string top;
  for (auto &sc : secs) {
    auto dot = sc.find('.');
    if (sc.substr(0, dot) != top)
      argv.push_back(top = sc.substr(0, dot));
    argv.push_back(sc.substr(dot + 1));
    for (auto &g : order)
      if (st[g.setting].section == sc)
        put(g);
    if (bad == "unknown toolchain option" && sc == "toolchain.gcc")
      argv.push_back("--nosuchoption");
  }
  std::string line;
  for (auto &a : argv)
    line += Ctx::show(a) + " ";
  ctx.note(line);
  if (bad != "none")
    ctx.note("mistake: " + bad);
  ctx.label(bad == "none" ? "valid" : bad == "help" ? "help" : "invalid");

  auto r = run_forked([&]() -> std::string {
    if (chdir(cwd.c_str()))
      return "chdir";
    std::vector<ArgToolchain> tc(ntc);
    std::vector<ArgTarget> ta(nta);
    MyData d;
    std::string cb_text;
    auto &in = Args::Init();
    for (size_t i = 0; i < ntc; i++)
      if (has_init[i])
        in.AddToolchain(names[i], "t", tc[i], init[i]);
      else
        in.AddToolchain(names[i], "t", tc[i]);
    for (size_t i = 0; i < nta; i++)
      if (ta_init[i])
        in.AddTarget(names[i], "t", ta[i], tinit[i]);
      else
        in.AddTarget(names[i], "t", ta[i]);
    if (data)
      in.AddCustomData(d);
    bool called = false;
    in.AddCustomCallback([&](CLI::App &app) {
      called = true;
      app.add_option("--cb_text", cb_text);
    });
    std::vector<const char *> av;
    for (auto &a : argv)
      av.push_back(a.c_str());
    J o = J::object();
    o["before"] = Args::IsParsed();
    in.Parse((int)av.size(), av.data());
    o["parsed"] = Args::IsParsed();
    o["called"] = called;
    Strs got;
    got.push_back(Args::GetProjectRootDir().string());
    got.push_back(Args::GetProjectBuildDir().string());
    auto b = [](bool x) { return std::string(x ? "true" : "false"); };
    got.push_back(b(Args::Clean()));
    got.push_back(std::to_string((int)Args::GetLogLevel()));
    for (auto &t : tc) {
      got.push_back(b(t.state.build));
      got.push_back(b(t.state.test));
      got.push_back(id_name(t.id));
      for (auto &x : {t.name, t.executables.assembler, t.executables.c_compiler, t.executables.cpp_compiler,
                      t.executables.archiver, t.executables.linker})
        got.push_back(x);
    }
    for (auto &t : ta) {
      TargetConfig c = t.GetTargetConfig();
      got.push_back(c.compile_command);
      got.push_back(c.link_command);
    }
    if (data) {
      got.push_back(d.text);
      got.push_back(b(d.flag));
    }
    o["got"] = got;
    Reg::Init();
    o["root"] = Project::GetRootDir().string();
    o["build"] = Project::GetBuildDir().string();
    o["level"] = (int)spdlog::get_level();
    J cons = J::array();
    std::set<std::string> used; // names identify toolchains
    for (auto &t : tc) {
      if (t.id != ToolchainId::Gcc && t.id != ToolchainId::Msvc && t.id != ToolchainId::MinGW)
        continue;
      if (!used.insert(t.name).second)
        continue;
      buildcc::Toolchain &x = t.ConstructToolchain();
      cons.push_back({id_name(x.GetId()), x.GetName(), x.GetAssembler(), x.GetCCompiler(), x.GetCppCompiler(),
                      x.GetArchiver(), x.GetLinker()});
    }
    o["cons"] = cons;
    return o.dump();
  });
  if (bad == "help") {
    ctx.check(!r.returned && r.exited && r.code == 0, "asking for help " + why(r));
    return;
  }
  if (bad != "none") {
    ctx.check(!r.returned && r.exited && r.code != 0, "a command line with a mistake (" + bad + ") " + why(r));
    ctx.nontrivial();
    return;
  }
  ctx.check(r.returned, "a valid command line " + why(r));
  J o = J::parse(r.out);
  ctx.check(!o["before"].get<bool>() && o["parsed"].get<bool>() && o["called"].get<bool>(), "parse state");
  for (size_t i = 0; i < st.size(); i++)
    ctx.equal(o["got"][i].get<std::string>(), st[i].value,
              "value of " + st[i].section + " " + st[i].key +
                  (st[i].given < 0 ? " (not given)" : st[i].given == 100 ? " (command line)" : " (configuration file)"));
  ctx.equal(o["root"].get<std::string>(), (fs::path(cwd) / st[0].value).string(), "project root");
  ctx.equal(o["build"].get<std::string>(), (fs::path(cwd) / st[1].value).string(), "project build directory");
  ctx.equal(o["level"].get<int>(), atoi(st[3].value.c_str()), "log level in effect");
  J cons = J::array();
  std::set<std::string> used;
  for (size_t i = 0; i < ntc; i++) {
    size_t k = 4 + 9 * i;
    auto id = st[k + 2].value;
    if (id == "gcc" || id == "msvc" || id == "mingw")
      if (used.insert(st[k + 3].value).second)
        cons.push_back({id, st[k + 3].value, st[k + 4].value, st[k + 5].value, st[k + 6].value, st[k + 7].value, st[k + 8].value});
  }
  ctx.equal(o["cons"].dump(), cons.dump(), "toolchains constructed");
  int sources = 0;
  for (auto &x : st)
    sources += x.given >= 0;
  if (sources > 2)
    ctx.nontrivial();
  if (ncfg)
    ctx.label("with configuration files");
}

// ------------------------------------------------------------------ J01 ----
// Targets built through the public API with stand-in tools; the compilation
// database is compared with the commands that were really executed.
struct DbTarget {
  std::string name;
  int type;
  std::vector<int> srcs; // indices into the source files
  Strs pre, cpp, incs;
  bool pch{false};
  bool listed{true};
};

void j01(Src &s, Ctx &ctx) {
  static const Strs dirs{"", "sub/", "with space/", "q'/", "\xc3\xa9/"};
  static const Strs stems{"a", "b", "c d", "e-f", "g.h", "back\\slash"};
  static const Strs exts{".cpp", ".c", ".cc", ".s"};
  static const Strs pre{"-DX=1", "-DNAME=\\\"str\\\"", "-DS='\"x y\"'", "-DB=\\\\", "-DT=a\tb", "-D{X}", "-DU=\xc3\xa9"};
  static const Strs cf{"-Wall", "-O2", "-std=c++17", "-fx=\"q\""};
  fs::path root = ctx.dir / (s.chance(1, 3) ? "ro ot" : "root"), bdir = ctx.dir / (s.chance(1, 3) ? "bu ild" : "build");
  Strs files;
  size_t nf = 1 + s.draw(5);
  for (size_t i = 0; i < nf; i++) {
    Span sp(s);
    std::string f = s.pick(dirs) + s.pick(stems) + std::to_string(i) + s.pick(exts);
    files.push_back(f);
    fs::create_directories((root / f).parent_path());
    write_file(root / f, "0");
  }
  for (auto &d : {"inc", "in c"})
    fs::create_directories(root / d);
  write_file(root / "p.h", "0");
  std::vector<DbTarget> ts;
  size_t nt = 1 + s.draw(3);
  auto gen_flags = [&](DbTarget &t) {
    t.pre.clear();
    t.cpp.clear();
    for (size_t k = s.draw(3); k > 0; k--)
      t.pre.push_back(s.pick(pre));
    for (size_t k = s.draw(2); k > 0; k--)
      t.cpp.push_back(s.pick(cf));
  };
  for (size_t i = 0; i < nt; i++) {
    Span sp(s);
    DbTarget t;
    t.name = (s.chance(1, 4) ? "t " : "t") + std::to_string(i);
    t.type = (int)s.draw(3);
    for (size_t k = 0; k < nf; k++)
      if (s.coin())
        t.srcs.push_back((int)k);
    if (t.srcs.empty())
      t.srcs.push_back(0);
    gen_flags(t);
    if (s.coin())
      t.incs.push_back("inc");
    if (s.coin())
      t.incs.push_back("in c");
    t.pch = s.chance(1, 4);
    t.listed = !s.chance(1, 5);
    ts.push_back(t);
  }
  bool by_ctor = s.coin();
  auto show = [&] {
    for (auto &t : ts) {
      std::string d = "target " + t.name + (t.listed ? "" : " (not listed)") + " sources";
      for (int k : t.srcs)
        d += " " + Ctx::show(files[k]);
      ctx.note(d + " preprocessor flags " + Ctx::show(t.pre) + " compile flags " + Ctx::show(t.cpp));
    }
  };
  show();
  std::map<std::pair<std::string, std::string>, std::string> last; // (target, source) -> executed command
  fs::path db = bdir / "compile_commands.json";
  long clock = 2000000000;
  size_t rounds = 1 + s.draw(4);
  for (size_t round = 0; round < rounds; round++) {
    if (round) {
      Span sp(s);
      size_t what = s.draw(5);
      DbTarget &t = ts[s.draw(ts.size())];
      if (what == 1 || what == 2) {
        fs::path f = root / files[s.draw(nf)];
        write_file(f, std::to_string(round));
        timespec tsp[2] = {{++clock, 0}, {clock, 0}};
        utimensat(AT_FDCWD, f.c_str(), tsp, 0);
        ctx.note("edit " + f.string());
      } else if (what == 3) {
        gen_flags(t);
        ctx.note("new flags of " + t.name);
      } else if (what == 4) {
        int k = (int)s.draw(nf);
        if (std::find(t.srcs.begin(), t.srcs.end(), k) == t.srcs.end())
          t.srcs.push_back(k);
        else if (t.srcs.size() > 1)
          t.srcs.erase(std::find(t.srcs.begin(), t.srcs.end(), k));
        ctx.note("change sources of " + t.name);
      } else
        ctx.note("no change");
    }
    const std::string sentinel = "sentinel " + std::to_string(round);
    if (round)
      write_file(db, sentinel);
    fs::path cmds = ctx.dir / "commands";
    fs::remove(cmds);
    auto r = run_forked([&]() -> std::string {
      std::string rr = root.string(), b = bdir.string();
      const char *argv[] = {"", "--root_dir", rr.c_str(), "--build_dir", b.c_str(), "--loglevel", "critical"};
      Args::Init().Parse(7, argv);
      Reg::Init();
      buildcc::Toolchain tc(ToolchainId::Gcc, "gcc", ToolchainExecutables("as", "gcc", "g++", "ar", "ld"));
      std::mutex m;
      J executed = J::array();
      stub::set_handler([&](const std::string &c, const std::string &, const stub::Reader &, const stub::Reader &) {
        Strs w = words(c);
        std::lock_guard<std::mutex> l(m);
        if (w.size() > 2 && (w[0] == "COMPILE" || w[0] == "PCH" || w[0] == "LINK"))
          write_file(w[1], "x");
        if (w[0] != "PCH")
          executed.push_back({w[1], w[0] == "COMPILE" ? w[2] : "", c});
        return 0;
      });
      std::vector<std::unique_ptr<Target>> obj;
      std::vector<const BaseTarget *> listed;
      for (auto &t : ts) {
        TargetConfig c;
        c.compile_command = "COMPILE {output} {input} {compiler} {preprocessor_flags} {include_dirs} {compile_flags}";
        c.pch_command = "PCH {output} {input}";
        c.link_command = "LINK {output} {compiled_sources}";
        static const TargetType ty[] = {TargetType::Executable, TargetType::StaticLibrary, TargetType::DynamicLibrary};
        obj.push_back(std::make_unique<Target>(t.name, ty[t.type], tc, TargetEnv(""), c));
        auto &o = *obj.back();
        for (int k : t.srcs)
          o.AddSource(files[k]);
        for (auto &f : t.pre)
          o.AddPreprocessorFlag(f);
        for (auto &f : t.cpp)
          o.AddCppCompileFlag(f), o.AddCCompileFlag(f);
        for (auto &d : t.incs)
          o.AddIncludeDir(d);
        if (t.pch)
          o.AddPch("p.h");
        Reg::Toolchain(ArgToolchainState(true, false)).Build([](Target &x) { x.Build(); }, o);
        if (t.listed)
          listed.push_back(&o);
      }
      Reg::Run([&] {
        if (by_ctor)
          plugin::ClangCompileCommands(std::move(std::vector<const BaseTarget *>(listed))).Generate();
        else {
          plugin::ClangCompileCommands db({});
          for (auto *t : listed)
            db.AddTarget(t);
          db.Generate();
        }
      });
      J out;
      out["executed"] = executed;
      return out.dump();
    });
    ctx.check(r.returned, "a build with a compilation database " + why(r));
    J out = J::parse(r.out);
    bool rebuilt = false, any_listed = false;
    for (auto &e : out["executed"]) {
      // the object lies below the build directory of its target
      std::string obj = e[0];
      for (size_t i = 0; i < ts.size(); i++) {
        fs::path tb = bdir / "gcc" / ts[i].name;
        if (obj.rfind(tb.string() + "/", 0) == 0) {
          if (e[1] != "")
            last[{ts[i].name, e[1]}] = e[2];
          rebuilt |= ts[i].listed;
        }
      }
    }
    for (auto &t : ts)
      any_listed |= t.listed;
    if (round == 0)
      ctx.equal(fs::exists(db), any_listed, "a compilation database exists after the first build");
    if (!any_listed) {
      if (round)
        ctx.equal(read_file(db), sentinel, "compilation database without targets");
      continue;
    }
    std::string text = read_file(db);
    if (text == sentinel) {
      ctx.check(!rebuilt, "the compilation database was not regenerated although a listed target was built");
      ctx.label("left alone");
      continue;
    }
    ctx.label("regenerated");
    J j = J::parse(text, nullptr, false);
    ctx.check(!j.is_discarded() && j.is_array(), "the compilation database is not valid JSON\n" + text);
    std::multiset<std::string> got, want;
    for (auto &e : j) {
      ctx.check(e.is_object() && e.size() == 3 && e.contains("directory") && e.contains("command") && e.contains("file"),
                "malformed entry " + e.dump());
      got.insert(e["directory"].get<std::string>() + " | " + e["file"].get<std::string>() + " | " +
                 e["command"].get<std::string>());
    }
    for (auto &t : ts)
      if (t.listed)
        for (int k : t.srcs) {
          std::string f = (root / files[k]).string();
          auto it = last.find({t.name, f});
          ctx.check(it != last.end(), "source " + f + " of " + t.name + " was never compiled");
          want.insert(bdir.string() + " | " + f + " | " + it->second);
        }
    ctx.equal(got, want, "entries of the compilation database (directory | file | command)");
    if (round)
      ctx.nontrivial();
    ctx.count("entries", got.size());
  }
}

// ------------------------------------------------------------------ J02 ----
void j02(Src &s, Ctx &ctx) {
  struct Pat {
    std::string regex;
    std::function<bool(const std::string &)> matches;
  };
  auto is = [](std::string n) { return [n](const std::string &f) { return f == n; }; };
  static const std::vector<Pat> pats{
      {"gcc", is("gcc")},
      {"gcc.*", [](const std::string &f) { return f.rfind("gcc", 0) == 0; }},
      {".*gcc", [](const std::string &f) { return f.size() >= 3 && f.substr(f.size() - 3) == "gcc"; }},
      {"g\\+\\+", is("g++")},
      {"gcc|clang", [](const std::string &f) { return f == "gcc" || f == "clang"; }},
      {"[a-z]+", [](const std::string &f) { return !f.empty() && f.find_first_not_of("abcdefghijklmnopqrstuvwxyz") == std::string::npos; }},
      {"gcc-[0-9]+", [](const std::string &f) { return f.rfind("gcc-", 0) == 0 && f.size() > 4 && f.find_first_not_of("0123456789", 4) == std::string::npos; }},
      {"GCC", is("GCC")},
      {".*", [](const std::string &) { return true; }},
      {"nothing", [](const std::string &f) { return f == "nothing"; }},
  };
  static const Strs names{"gcc", "gcc-12", "gcc-x", "xgcc", "clang", "g++", "gc", "GCC", "gcc.txt", "a b", "ggcc", "gcc "};
  auto &pat = s.pick(pats);
  // directories with regular files, sub directories and links
  size_t nd = 1 + s.draw(4);
  std::vector<std::set<std::string>> present(nd);
  Strs dirs;
  for (size_t i = 0; i < nd; i++) {
    Span sp(s);
    fs::path d = ctx.dir / (s.chance(1, 4) ? "d " + std::to_string(i) : "d" + std::to_string(i));
    dirs.push_back(d.string());
    fs::create_directories(d);
    for (auto &n : names) {
      size_t k = s.weighted({6, 4, 2, 1, 1, 1});
      std::string what;
      if (k == 1)
        write_file(d / n, s.chance(1, 4) ? "" : "x"), present[i].insert(n), what = "file ";
      else if (k == 2) {
        fs::create_directories(d / n);
        write_file(d / n / "gcc", "x"); // files of sub directories do not count
        what = "directory ";
      } else if (k == 3) {
        write_file(ctx.dir / "elsewhere", "x");
        fs::create_symlink(ctx.dir / "elsewhere", d / n);
        present[i].insert(n);
        what = "link to a file ";
      } else if (k == 4) {
        fs::create_symlink(ctx.dir / "missing", d / n);
        what = "dangling link ";
      } else if (k == 5) {
        fs::create_directory_symlink(d, d / n);
        what = "link to a directory ";
      }
      if (!what.empty())
        ctx.note(what + (d / n).string());
    }
  }
  write_file(ctx.dir / "a file", "x");
  // environment variables
  size_t nv = 1 + s.draw(3);
  Strs vars;
  std::vector<std::vector<int>> lists; // -1 entry without matches
  for (size_t v = 0; v < nv; v++) {
    Span sp(s);
    vars.push_back("PBT_FIND_" + std::to_string(v));
    lists.emplace_back();
    if (s.chance(1, 6)) {
      unsetenv(vars[v].c_str());
      ctx.note(vars[v] + " not set");
      continue;
    }
    std::string val;
    size_t n = s.draw(5);
    for (size_t k = 0; k < n; k++) {
      if (k)
        val += ":";
      size_t w = s.weighted({6, 1, 1, 1});
      if (w == 0) {
        size_t d = s.draw(nd);
        val += dirs[d];
        lists[v].push_back((int)d);
      } else if (w == 1)
        val += (ctx.dir / "nowhere").string();
      else if (w == 2)
        val += (ctx.dir / "a file").string();
    }
    setenv(vars[v].c_str(), val.c_str(), 1);
    ctx.note(vars[v] + "=" + val);
  }
  size_t ctor = s.draw(3), type = s.weighted({8, 1, 1});
  ctx.note("search " + pat.regex + " type " + std::to_string(type));
  using F = plugin::BuildccFind;
  static const F::Type types[] = {F::Type::HostExecutable, F::Type::BuildccLibrary, F::Type::BuildccPlugin};
  auto go = [&](F &f) {
    bool ok = f.Search();
    std::vector<std::vector<std::string>> want; // runs of matches, one per searched directory
    if (type == 0)
      for (size_t v = 0; v < nv; v++)
        for (int d : lists[v]) {
          Strs m;
          for (auto &n : present[d])
            if (pat.matches(n))
              m.push_back((fs::path(dirs[d]) / n).string());
          std::sort(m.begin(), m.end());
          if (!m.empty())
            want.push_back(m);
        }
    Strs got, flat;
    for (auto &p : f.GetPathMatches())
      got.push_back(p.string());
    // the order within one directory is the file system's
    size_t at = 0;
    for (auto &m : want) {
      if (at + m.size() <= got.size())
        std::sort(got.begin() + (long)at, got.begin() + (long)(at + m.size()));
      at += m.size();
      for (auto &x : m)
        flat.push_back(x);
    }
    ctx.equal(got, flat, "programs found");
    ctx.equal(ok, !flat.empty(), "result of the search");
    if (!flat.empty())
      ctx.nontrivial();
  };
  if (ctor == 0) {
    F f(pat.regex, types[type]);
    for (auto &v : vars)
      f.AddHostEnvVar(v);
    go(f);
  } else if (ctor == 1 && nv == 2) {
    F f(pat.regex, types[type], {vars[0], vars[1]});
    go(f);
  } else {
    F f(pat.regex, types[type], {vars[0]});
    if (nv == 3)
      f.AddHostEnvVars({vars[1], vars[2]});
    else if (nv == 2)
      f.AddHostEnvVars({vars[1]});
    go(f);
  }
}

Register rj1([] {
  Property p;
  p.id = "J01";
  p.rule = "the database is regenerated after an edit";
  p.run = j01;
  p.mode = Mode::kMain;
  p.quick_cases = 2500;
  p.quick_seconds = 45;
  return p;
}());
Register rj2([] {
  Property p;
  p.id = "J02";
  p.rule = "at least one program is found";
  p.run = j02;
  p.quick_cases = 8000;
  p.quick_seconds = 45;
  return p;
}());
Register ra([] {
  Property p;
  p.id = "A01";
  p.rule = "more than two settings given, or a mistake";
  p.run = a01;
  p.mode = Mode::kMain;
  p.quick_cases = 8000;
  p.quick_seconds = 45;
  return p;
}());
} // namespace
