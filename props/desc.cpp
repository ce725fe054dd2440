// K01 command lines, K02 pattern substitution, K03 object paths, S01 target
// descriptions: everything that is computed from what a user declares.
#include <algorithm>
#include <map>
#include <memory>
#include <mutex>
#include <set>

#include "exec_stub.hpp"
#include "pbt.hpp"

#include "env/command.h"
#include "env/env.h"
#include "env/task_state.h"
#include "target/custom_generator.h"
#include "target/file_generator.h"
#include "target/target.h"
#include "target/template_generator.h"
#include "toolchain/toolchain.h"

using namespace pbt;
using buildcc::Target;
using buildcc::TargetConfig;
using buildcc::TargetEnv;
using buildcc::TargetInfo;
using buildcc::TargetType;
using buildcc::Toolchain;

namespace {

using Strs = std::vector<std::string>;

// words of a shell command line: blanks separate, double quotes group
Strs shell_words(const std::string &s) {
  Strs r;
  bool in = false, q = false;
  std::string cur;
  for (char c : s) {
    if (c == '"') {
      q = !q;
      in = true;
    } else if (!q && (c == ' ' || c == '\t' || c == '\n')) {
      if (in)
        r.push_back(cur);
      cur.clear();
      in = false;
    } else {
      cur += c;
      in = true;
    }
  }
  if (in)
    r.push_back(cur);
  return r;
}
std::string norm(const fs::path &p) { return p.lexically_normal().string(); }

void reset(const fs::path &root, const fs::path &build) {
  buildcc::Project::Deinit();
  buildcc::Project::Init(root, build);
  buildcc::env::set_task_state(buildcc::env::TaskState::SUCCESS);
}
struct Handler {
  explicit Handler(stub::Handler h) { stub::set_handler(std::move(h)); }
  ~Handler() { stub::set_handler(nullptr); }
};
void run_flow(std::vector<buildcc::internal::BuilderInterface *> v, unsigned workers) {
  tf::Taskflow flow;
  tf::Task prev;
  bool first = true;
  for (auto *b : v) {
    tf::Task t = flow.composed_of(b->GetTaskflow());
    if (!first)
      prev.precede(t);
    prev = t;
    first = false;
  }
  tf::Executor ex(workers);
  ex.run(flow).wait();
  ex.wait_for_all();
}

// ---------------------------------------------------------------- K01 ------
enum Cat { PRE, COMMON, PCHC, PCHO, ASM, CC_, CPP, LINK, NCAT };
template <typename T> void add_flag(T &t, int c, const std::string &f) {
  switch (c) {
  case PRE: t.AddPreprocessorFlag(f); break;
  case COMMON: t.AddCommonCompileFlag(f); break;
  case PCHC: t.AddPchCompileFlag(f); break;
  case PCHO: t.AddPchObjectFlag(f); break;
  case ASM: t.AddAsmCompileFlag(f); break;
  case CC_: t.AddCCompileFlag(f); break;
  case CPP: t.AddCppCompileFlag(f); break;
  default: t.AddLinkFlag(f); break;
  }
}
template <typename T> const Strs &get_flags(const T &t, int c) {
  switch (c) {
  case PRE: return t.GetPreprocessorFlags();
  case COMMON: return t.GetCommonCompileFlags();
  case PCHC: return t.GetPchCompileFlags();
  case PCHO: return t.GetPchObjectFlags();
  case ASM: return t.GetAsmCompileFlags();
  case CC_: return t.GetCCompileFlags();
  case CPP: return t.GetCppCompileFlags();
  default: return t.GetLinkFlags();
  }
}
const std::vector<std::string> kFlagPool{"-DA",    "-DB=1", "-O2",       "-g",          "-DS=\"x y\"", "-std=c++17",
                                         "-Wall", "-fpic", "-isystem q", "--param=a=b", "-DL={v}",     "-DE={}"};

struct KTarget {
  std::string name;
  TargetType type{TargetType::Executable};
  std::string ext;
  std::string root;
  Strs sources, headers, pchs, cdeps, ldeps, incdirs, libdirs, extlibs; // relative
  std::vector<size_t> libs;
  std::vector<int> lib_order; // interleaving of lib kinds while adding
  Strs flags[NCAT];
  Strs pat[3]; // elements: keys "{x}" or literal words; empty => default pattern
};

std::string join(const Strs &v, const char *sep = " ") {
  std::string r;
  for (size_t i = 0; i < v.size(); i++)
    r += (i ? sep : "") + v[i];
  return r;
}

void k01(Src &s, Ctx &ctx) {
  fs::path base = fs::weakly_canonical(ctx.dir);
  static const Strs roots{"r", "my root", "r.x/y"}, builds{"b", "out dir", "b/c d"};
  fs::path root = base / s.pick(roots), bdir = base / s.pick(builds);
  fs::create_directories(root);
  fs::create_directories(bdir);
  reset(root, bdir);

  buildcc::ToolchainConfig tcfg;
  Strs cexts{".c"}, cppexts{".cpp", ".cxx", ".cc"}, asmexts{".s", ".S", ".asm"}, hexts{".h", ".hpp"};
  if (s.chance(1, 3)) { // custom conventions
    tcfg.obj_ext = ".obj";
    tcfg.pch_header_ext = ".hh";
    tcfg.pch_compile_ext = ".pch";
    tcfg.prefix_include_dir = "/I";
    tcfg.prefix_lib_dir = "/LIBPATH:";
    tcfg.valid_cpp_ext = {".cpp", ".C"};
    tcfg.valid_c_ext = {".c", ".cc"};
    tcfg.valid_asm_ext = {".s"};
    tcfg.valid_header_ext = {".h", ".ipp"};
    cexts = {".c", ".cc"};
    cppexts = {".cpp", ".C"};
    asmexts = {".s"};
    hexts = {".h", ".ipp"};
  }
  auto exe = [&](const char *n) {
    size_t k = s.draw(3);
    return k == 0 ? std::string(n) : k == 1 ? "/opt/x/" + std::string(n) : "/opt/my tools/" + std::string(n);
  };
  buildcc::ToolchainExecutables ex(exe("as"), exe("cc"), exe("cxx"), exe("ar"), exe("ld"));
  static const Strs tcnames{"tc", "tool chain"};
  Toolchain tc(buildcc::ToolchainId::Custom, s.pick(tcnames), ex, tcfg);
  Strs tflags[NCAT];
  for (int c = 0; c < NCAT; c++) {
    size_t n = s.draw(3);
    for (size_t i = 0; i < n; i++) {
      tflags[c].push_back(s.pick(kFlagPool));
      add_flag(tc, c, tflags[c].back());
    }
  }
  static const Strs dirs{"", "d/", "e f/", "d/../g/", "./"};
  static const Strs stems{"a", "b c", "m.n", "z"};
  static const Strs idirs{"inc", "in c", "d/../inc2", "./x y/z"};
  static const Strs elibs{"-lm", "-lz", "-Wl,--x", "/usr/lib/liba.a"};

  std::vector<KTarget> ks;
  std::vector<std::unique_ptr<Target>> ts;
  size_t nt = 1 + s.draw(2);
  for (size_t ti = 0; ti < nt; ti++) {
    Span sp(s);
    KTarget k;
    static const Strs names{"app", "my app", "lib.x"};
    k.name = s.pick(names) + std::to_string(ti);
    k.type = (TargetType)s.draw(3);
    static const Strs exts{"", ".exe", ".a"};
    k.ext = s.pick(exts);
    static const Strs trs{"", "sub", "su b"};
    k.root = s.pick(trs);
    auto file = [&](const Strs &e) { return s.pick(dirs) + s.pick(stems) + s.pick(e); };
    size_t n = 1 + s.some(4);
    for (size_t i = 0; i < n; i++) {
      size_t w = s.draw(3);
      k.sources.push_back(file(w == 0 ? cexts : w == 1 ? cppexts : asmexts));
    }
    if (s.coin())
      for (size_t i = 0, m = 1 + s.some(3); i < m; i++)
        k.pchs.push_back(file(hexts));
    if (s.chance(1, 3))
      k.headers.push_back(file(hexts));
    if (s.chance(1, 4))
      k.cdeps.push_back("dep.txt");
    if (s.chance(1, 4))
      k.ldeps.push_back("link script.ld");
    for (size_t i = 0, m = s.some(4); i < m; i++)
      k.incdirs.push_back(s.pick(idirs));
    for (size_t i = 0, m = s.some(3); i < m; i++)
      k.libdirs.push_back(s.pick(idirs));
    for (size_t i = 0, m = s.some(3); i < m; i++)
      k.extlibs.push_back(s.pick(elibs));
    for (size_t i = 0; i < ti; i++)
      if (s.coin())
        k.libs.push_back(i);
    for (auto &f : k.flags)
      for (size_t i = 0, m = s.some(3); i < m; i++)
        f.push_back(s.pick(kFlagPool));
    TargetConfig cfg;
    cfg.target_ext = k.ext;
    if (s.chance(1, 2)) { // custom patterns
      static const Strs common{"{include_dirs}",     "{lib_dirs}",   "{preprocessor_flags}", "{common_compile_flags}",
                               "{link_flags}",       "{asm_compiler}", "{c_compiler}",       "{cpp_compiler}",
                               "{archiver}",         "{linker}",     "{pch_compile_flags}",  "{pch_object_flags}",
                               "{pch_object_output}", "{{lit}}",     "--x"};
      static const Strs own[3] = {{"{compiler}", "{compile_flags}", "{output}", "{input}"},
                                  {"{compiler}", "{compile_flags}", "{output}", "{input}", "{input_source}"},
                                  {"{output}", "{compiled_sources}", "{lib_deps}"}};
      for (int p = 0; p < 3; p++) {
        Strs e = own[p];
        for (size_t i = 0, m = s.some(5); i < m; i++)
          e.insert(e.begin() + (long)s.draw(e.size() + 1), s.pick(common));
        if (p == 2) // keep the unordered part unique
          ;
        k.pat[p] = e;
      }
      cfg.compile_command = join(k.pat[0]);
      cfg.pch_command = join(k.pat[1]);
      cfg.link_command = join(k.pat[2]);
    } else {
      k.pat[0] = {"{compiler}", "{preprocessor_flags}", "{include_dirs}", "{common_compile_flags}",
                  "{pch_object_flags}", "{compile_flags}", "-o", "{output}", "-c", "{input}"};
      k.pat[1] = {"{compiler}", "{preprocessor_flags}", "{include_dirs}", "{common_compile_flags}",
                  "{pch_compile_flags}", "{compile_flags}", "-o", "{output}", "-c", "{input}"};
      k.pat[2] = {"{cpp_compiler}", "{link_flags}", "{compiled_sources}", "-o", "{output}", "{lib_dirs}", "{lib_deps}"};
    }
    fs::path troot = root / k.root;
    auto touch = [&](const std::string &rel) {
      fs::path p = norm(troot / rel);
      fs::create_directories(p.parent_path());
      write_file(p, "x");
    };
    for (auto *l : {&k.sources, &k.pchs, &k.headers, &k.cdeps, &k.ldeps})
      for (auto &f : *l)
        touch(f);
    ts.push_back(std::make_unique<Target>(k.name, k.type, tc, TargetEnv(k.root.c_str()), cfg));
    Target &t = *ts.back();
    for (auto &f : k.sources)
      t.AddSource(f);
    for (auto &f : k.pchs)
      t.AddPch(f);
    for (auto &f : k.headers)
      t.AddHeader(f);
    for (auto &f : k.cdeps)
      t.AddCompileDependency(f);
    for (auto &f : k.ldeps)
      t.AddLinkDependency(f);
    for (auto &f : k.incdirs)
      t.AddIncludeDir(f);
    for (auto &f : k.libdirs)
      t.AddLibDir(f);
    for (auto &f : k.extlibs)
      t.AddLibDep(f);
    for (auto l : k.libs)
      t.AddLibDep(*ts[l]);
    for (int c = 0; c < NCAT; c++)
      for (auto &f : k.flags[c])
        add_flag(t, c, f);
    ctx.note("target " + k.name + " root=" + k.root + " src=" + Ctx::show(k.sources) + " pch=" + Ctx::show(k.pchs) +
             " inc=" + Ctx::show(k.incdirs) + " libdir=" + Ctx::show(k.libdirs) + " ext=" + Ctx::show(k.extlibs) +
             " patterns: " + join(k.pat[0]) + " | " + join(k.pat[1]) + " | " + join(k.pat[2]));
    ks.push_back(k);
  }
  ctx.note("root " + root.string() + " build " + bdir.string() + " compilers " + ex.assembler + "," + ex.c_compiler +
           "," + ex.cpp_compiler);
  Strs cmds;
  std::mutex mu;
  Handler h([&](const std::string &c, const std::string &, const stub::Reader &, const stub::Reader &) {
    std::lock_guard<std::mutex> g(mu);
    cmds.push_back(c);
    return 0;
  });
  for (size_t ti = 0; ti < nt; ti++) {
    auto &k = ks[ti];
    Target &t = *ts[ti];
    // libraries only have to exist for the linker's input check
    for (auto l : k.libs)
      write_file(ts[l]->GetTargetPath(), "lib");
    cmds.clear();
    t.Build();
    run_flow({&t}, 1 + (unsigned)s.draw(4));
    ctx.check(buildcc::env::get_task_state() == buildcc::env::TaskState::SUCCESS, "build failed");

    fs::path troot = root / k.root;
    auto has = [](const Strs &v, const std::string &e) { return std::find(v.begin(), v.end(), e) != v.end(); };
    Strs uniq;
    bool cpp = false;
    for (auto &f : k.sources) {
      std::string p = norm(troot / f);
      if (!has(uniq, p))
        uniq.push_back(p);
      cpp |= has(cppexts, fs::path(p).extension().string());
    }
    auto prefixed = [&](const std::string &pre, const Strs &v) {
      Strs r;
      for (auto &d : v)
        r.push_back(pre + norm(troot / d));
      return r;
    };
    auto flags = [&](int c) { // toolchain flags first, raw shell text
      Strs a = tflags[c];
      a.insert(a.end(), k.flags[c].begin(), k.flags[c].end());
      return shell_words(join(a));
    };
    fs::path tbuild = bdir / tc.GetName() / k.name;
    std::map<std::string, Strs> vals{
        {"{include_dirs}", prefixed(tcfg.prefix_include_dir, k.incdirs)},
        {"{lib_dirs}", prefixed(tcfg.prefix_lib_dir, k.libdirs)},
        {"{preprocessor_flags}", flags(PRE)},
        {"{common_compile_flags}", flags(COMMON)},
        {"{link_flags}", flags(LINK)},
        {"{asm_compiler}", {ex.assembler}},
        {"{c_compiler}", {ex.c_compiler}},
        {"{cpp_compiler}", {ex.cpp_compiler}},
        {"{archiver}", {ex.archiver}},
        {"{linker}", {ex.linker}},
        {"{pch_compile_flags}", k.pchs.empty() ? Strs{} : flags(PCHC)},
        {"{pch_object_flags}", k.pchs.empty() ? Strs{} : flags(PCHO)},
        {"{pch_object_output}", k.pchs.empty() ? Strs{} : Strs{norm(tbuild / ("buildcc_pch" + tcfg.obj_ext))}},
        {"{{lit}}", {"{lit}"}},
    };
    auto expand = [&](const Strs &pat, const std::map<std::string, Strs> &own) {
      Strs r;
      for (auto &e : pat) {
        auto a = own.find(e);
        auto b = vals.find(e);
        if (a != own.end())
          r.insert(r.end(), a->second.begin(), a->second.end());
        else if (b != vals.end())
          r.insert(r.end(), b->second.begin(), b->second.end());
        else
          r.push_back(e);
      }
      return r;
    };
    std::multiset<Strs> expected, actual;
    Strs objs;
    const std::string OUT = "\1OUT";
    for (auto &p : uniq) {
      std::string e = fs::path(p).extension().string();
      bool is_c = has(cexts, e), is_cpp = has(cppexts, e);
      Strs want = expand(k.pat[0], {{"{compiler}", {is_c ? ex.c_compiler : is_cpp ? ex.cpp_compiler : ex.assembler}},
                                    {"{compile_flags}", flags(is_c ? CC_ : is_cpp ? CPP : ASM)},
                                    {"{output}", {OUT}},
                                    {"{input}", {p}}});
      Strs got = shell_words(t.GetCompileCommand(p));
      ctx.equal(got.size(), want.size(), "compile command of " + p + ": number of arguments of " + join(got, "|") +
                                             "\n      wanted " + join(want, "|"));
      std::string obj;
      for (size_t i = 0; i < want.size(); i++)
        if (want[i] == OUT) {
          obj = got[i];
          want[i] = got[i];
        }
      ctx.equal(got, want, "compile command of " + p);
      ctx.check(obj.rfind(norm(tbuild) + "/", 0) == 0, "object outside the target's build directory: " + obj);
      ctx.equal(fs::path(obj).extension().string(), tcfg.obj_ext, "object extension of " + obj);
      objs.push_back(obj);
      expected.insert(want);
    }
    std::sort(objs.begin(), objs.end());
    std::string pch_hdr = norm(tbuild / ("buildcc_pch" + tcfg.pch_header_ext));
    std::string pch_src = norm(tbuild / (cpp ? "buildcc_pch.cpp" : "buildcc_pch.c"));
    if (!k.pchs.empty()) {
      expected.insert(expand(k.pat[1], {{"{compiler}", {cpp ? ex.cpp_compiler : ex.c_compiler}},
                                        {"{compile_flags}", flags(cpp ? CPP : CC_)},
                                        {"{output}", {pch_hdr + tcfg.pch_compile_ext}},
                                        {"{input}", {pch_hdr}},
                                        {"{input_source}", {pch_src}}}));
      Strs inc, want;
      std::string c = read_file(pch_hdr);
      for (size_t at = 0; (at = c.find("#include \"", at)) != std::string::npos;) {
        at += 10;
        auto e = c.find('"', at);
        inc.push_back(c.substr(at, e - at));
      }
      for (auto &p : k.pchs)
        want.push_back(norm(troot / p));
      ctx.equal(inc, want, "headers aggregated in the precompiled header of " + k.name);
      ctx.check(fs::exists(pch_src), "source of the precompiled header does not exist: " + pch_src);
    }
    std::string tpath = norm(tbuild / (k.name + k.ext));
    ctx.equal(norm(t.GetTargetPath()), tpath, "path of the target");
    Strs libdeps;
    for (auto l : k.libs)
      libdeps.push_back(norm(ts[l]->GetTargetPath()));
    libdeps.insert(libdeps.end(), k.extlibs.begin(), k.extlibs.end());
    // the order of objects is not specified: compare it sorted
    Strs linkpat = k.pat[2];
    Strs link = expand(linkpat, {{"{output}", {tpath}}, {"{lib_deps}", libdeps}, {"{compiled_sources}", objs}});
    std::set<std::string> oset(objs.begin(), objs.end());
    auto canon = [&](Strs v) {
      for (size_t i = 0; i < v.size();) {
        size_t j = i;
        while (j < v.size() && oset.count(v[j]))
          j++;
        std::sort(v.begin() + (long)i, v.begin() + (long)j);
        i = j + 1;
      }
      return v;
    };
    ctx.equal(canon(shell_words(t.GetLinkCommand())), canon(link), "link command of " + k.name);
    expected.insert(canon(link));
    for (auto &c : cmds)
      actual.insert(canon(shell_words(c)));
    ctx.equal(actual, expected, "commands executed for " + k.name);
    if (uniq.size() > 1 && (!k.flags[0].empty() || !k.incdirs.empty()))
      ctx.nontrivial();
    if (root.string().find(' ') != std::string::npos || bdir.string().find(' ') != std::string::npos)
      ctx.label("spaces in project directories");
    if (!k.pchs.empty())
      ctx.label("pch");
    if (k.pat[0][0] != "{compiler}" || k.pat[0].size() != 10)
      ctx.label("custom patterns");
  }
}
Register rk01({"K01", "a target with several sources and flags or include directories", k01, Mode::kThread, 8000, 45,
               300000, 300, 8, 60, false,
               {"paths contain no shell metacharacters other than spaces",
                "flags and external libraries are raw shell text supplied by the user"},
               {}});

// ---------------------------------------------------------------- K02 ------
struct Pat { // a pattern together with what it expands to
  std::string text, value;
};
std::string gen_text(Src &s) {
  static const Strs pool{"a",  "x y", "{", "}", "{}", "{key}", "%s", "\\", "\"", "\n", "$HOME", "ö", "{{", "}}", "-DX=1",
                         "/p/q", "{0}", "{root}", ":", "\r\n", "\t", std::string("n\0l", 3), std::string(700, 'L')};
  std::string r;
  for (size_t i = 0, n = s.some(5); i < n; i++)
    r += s.pick(pool);
  return r;
}
std::string escape(const std::string &t) {
  std::string r;
  for (char c : t) {
    r += c;
    if (c == '{' || c == '}')
      r += c;
  }
  return r;
}
Pat gen_pat(Src &s, const std::map<std::string, std::string> &vals, size_t max) {
  Pat p;
  for (size_t i = 0, n = s.draw(max + 1); i < n; i++) {
    if (!vals.empty() && s.coin()) {
      auto it = vals.begin();
      std::advance(it, (long)s.draw(vals.size()));
      p.text += "{" + it->first + "}";
      p.value += it->second;
    } else {
      std::string t = gen_text(s);
      p.text += escape(t);
      p.value += t;
    }
  }
  return p;
}
// a pattern that refers to something that is not there, or is not well formed
std::string gen_bad(Src &s, const std::map<std::string, std::string> &vals) {
  Pat a = gen_pat(s, vals, 2);
  static const Strs bad{"{no_such_key}", "{unknown", "} tail", "{a b}"};
  return a.text + s.pick(bad);
}

void k02(Src &s, Ctx &ctx) {
  fs::path base = fs::weakly_canonical(ctx.dir);
  static const Strs rn{"r", "r {x}", "r s"};
  fs::path root = base / s.pick(rn), bdir = base / "b";
  fs::create_directories(root);
  fs::create_directories(bdir);
  reset(root, bdir);
  static const Strs keys{"alpha", "b", "key", "root", "a_1", "Z9", "out_dir"};
  std::map<std::string, std::string> vals;
  auto fresh = [&](const std::string &pre = "") {
    for (;;) {
      std::string k = pre + s.pick(keys);
      if (!vals.count(k))
        return k;
      if (vals.size() >= 6)
        return k + std::to_string(vals.size());
    }
  };
  size_t subst = 0;
  auto used = [&](const Pat &p) { subst += p.text != p.value; };
  switch (s.draw(4)) {
  case 0: { // Command
    ctx.label("command");
    buildcc::env::Command c;
    for (size_t i = 0, n = s.some(4); i < n; i++) {
      std::string k = fresh(), v = gen_text(s);
      vals[k] = v;
      if (s.coin())
        c.AddDefaultArgument(k, v);
      else
        c.AddDefaultArguments({{k, v}});
      ctx.equal(c.GetDefaultValueByKey(k), v, "default value of " + k);
    }
    if (!vals.empty() && s.chance(1, 4)) { // given again: the first value stays
      auto it = vals.begin();
      std::string v = gen_text(s);
      if (s.coin())
        c.AddDefaultArgument(it->first, v);
      else
        c.AddDefaultArguments({{it->first, v}});
      ctx.note("default " + it->first + " given again as " + Ctx::show(v));
      ctx.equal(c.GetDefaultValueByKey(it->first), it->second, "default value of " + it->first + " given twice");
    }
    auto all = vals;
    std::unordered_map<const char *, std::string> args;
    static const Strs own{"own1", "own2", "own3"};
    for (size_t i = 0, n = s.draw(4); i < n; i++) {
      std::string v = gen_text(s);
      args[own[i].c_str()] = v;
      all[own[i]] = v;
    }
    for (size_t i = 0, n = 1 + s.some(3); i < n; i++) {
      Span sp(s);
      Pat p = gen_pat(s, all, 5);
      used(p);
      ctx.note("Construct(" + Ctx::show(p.text) + ") with " + Ctx::show(all));
      ctx.equal(c.Construct(p.text, args), p.value, "expansion of " + Ctx::show(p.text));
      if (s.chance(1, 3)) {
        std::string b = gen_bad(s, all);
        ctx.note("Construct(" + Ctx::show(b) + ") must be rejected");
        ctx.check(fatal([&]() { c.Construct(b, args); }), "pattern " + Ctx::show(b) + " was accepted");
        ctx.label("rejected pattern");
      }
    }
    if (!args.empty()) { // the same pattern with another value
      std::string k = args.begin()->first, v = gen_text(s);
      std::unordered_map<const char *, std::string> other{{args.begin()->first, v}};
      ctx.equal(c.Construct("<{" + k + "}>", args), "<" + args.begin()->second + ">", "expansion of {" + k + "}");
      ctx.equal(c.Construct("<{" + k + "}>", other), "<" + v + ">", "expansion of {" + k + "} with another value");
    }
    // arguments of one call do not leak into the next
    if (!args.empty())
      ctx.check(fatal([&]() { c.Construct(std::string("{") + args.begin()->first + "}"); }),
                "argument of an earlier call still usable");
    ctx.check(fatal([&]() { c.GetDefaultValueByKey("no_such_key"); }), "value of an unknown key returned");
    break;
  }
  case 1: { // file generator
    ctx.label("file generator");
    static const Strs subs{"", "sub"};
    std::string sub = s.pick(subs);
    buildcc::FileGenerator g("gen", TargetEnv(sub.c_str()));
    vals = {{"project_root_dir", norm(root)},
            {"project_build_dir", norm(bdir)},
            {"current_root_dir", norm(root / sub)},
            {"current_build_dir", norm(bdir / "gen")}};
    for (size_t i = 0, n = s.draw(5); i < n; i++) { // chained patterns
      std::string k = fresh();
      Pat p = gen_pat(s, vals, 3);
      used(p);
      ctx.note("AddPattern(" + k + ", " + Ctx::show(p.text) + ")");
      g.AddPattern(k, p.text);
      vals[k] = p.value;
      ctx.equal(g.Get(k), p.value, "value of pattern " + k);
    }
    if (s.chance(1, 4)) {
      std::string b = gen_bad(s, vals);
      ctx.check(fatal([&]() { g.AddPattern("bad", b); }), "pattern " + Ctx::show(b) + " was accepted");
    }
    Strs want, got;
    for (size_t i = 0, n = s.some(4); i < n; i++) {
      Span sp(s);
      auto all = vals;
      std::unordered_map<const char *, std::string> args;
      if (s.coin()) {
        std::string v = gen_text(s);
        args["local_arg"] = v;
        all["local_arg"] = v;
      }
      Pat p = gen_pat(s, all, 4);
      p.text += ";";
      p.value += ";";
      used(p);
      ctx.note("AddCommand(" + Ctx::show(p.text) + ")");
      g.AddCommand(p.text, args);
      want.push_back(p.value);
      ctx.equal(g.ParsePattern(p.text, args), p.value, "expansion of " + Ctx::show(p.text));
    }
    write_file(root / "in put", "x");
    g.AddInput("{project_root_dir}/in put");
    g.AddOutput("{current_build_dir}/o");
    Handler h([&](const std::string &c, const std::string &, const stub::Reader &, const stub::Reader &) {
      got.push_back(c);
      return 0;
    });
    g.Build();
    run_flow({&g}, 2);
    ctx.check(buildcc::env::get_task_state() == buildcc::env::TaskState::SUCCESS, "generation failed");
    ctx.equal(got, want, "commands run by the file generator");
    break;
  }
  case 2: { // template generator
    ctx.label("template generator");
    buildcc::TemplateGenerator g("tpl", TargetEnv(""));
    vals = {{"project_root_dir", norm(root)},
            {"project_build_dir", norm(bdir)},
            {"current_root_dir", norm(root / "")},
            {"current_build_dir", norm(bdir / "tpl")}};
    vals["current_root_dir"] = g.Get("current_root_dir"); // "" root: trailing slash allowed
    ctx.equal(fs::path(vals["current_root_dir"] + "/").lexically_normal().string(), norm(root / ""),
              "current_root_dir");
    for (size_t i = 0, n = s.draw(5); i < n; i++) {
      std::string k = fresh();
      Pat p = gen_pat(s, vals, 3);
      used(p);
      g.AddPattern(k, p.text);
      vals[k] = p.value;
      ctx.equal(g.Parse("{" + k + "}"), p.value, "value of pattern " + k);
    }
    std::map<std::string, std::string> want;
    size_t n = 1 + s.some(3);
    bool bad = s.chance(1, 6);
    for (size_t i = 0; i < n; i++) {
      Span sp(s);
      std::string in = "t" + std::to_string(i) + ".in", out = "t" + std::to_string(i) + ".out";
      Pat p = gen_pat(s, vals, 6);
      used(p);
      if (bad && i == 0)
        p.text = gen_bad(s, vals);
      ctx.note("template " + Ctx::show(p.text) + " with " + Ctx::show(vals));
      write_file(root / in, p.text);
      g.AddTemplate("{project_root_dir}/" + in, "{current_build_dir}/" + out);
      want[out] = p.value;
    }
    g.Build();
    run_flow({&g}, 1 + (unsigned)s.draw(3));
    bool ok = buildcc::env::get_task_state() == buildcc::env::TaskState::SUCCESS;
    ctx.equal(ok, !bad, "reported result of generating templates");
    if (ok)
      for (auto &[o, v] : want)
        ctx.equal(read_file(bdir / "tpl" / o), v, "generated file " + o);
    break;
  }
  default: { // custom generator: inputs and outputs of an id are patterns
    ctx.label("custom generator");
    buildcc::CustomGenerator g("cg", TargetEnv(""));
    vals = {{"project_root_dir", norm(root)}, {"project_build_dir", norm(bdir)}};
    std::unordered_map<std::string, std::string> many;
    for (size_t i = 0, n = s.some(3); i < n; i++) { // independent of each other
      std::string k = fresh();
      Pat p = gen_pat(s, {{"project_root_dir", norm(root)}, {"project_build_dir", norm(bdir)}}, 3);
      used(p);
      many[k] = p.text;
      vals[k] = p.value;
    }
    g.AddPatterns(many);
    for (auto &[k, t] : many)
      ctx.equal(g.Get(k), vals[k], "value of pattern " + k);
    static const Strs names{"n", "n m", "n{x}", "ü"};
    std::set<std::string> in, out, gin, gout;
    std::unordered_set<std::string> pin, pout;
    std::map<std::string, std::string> fn;
    for (size_t i = 0, n = s.some(3); i < n; i++) {
      std::string nm = s.pick(names) + std::to_string(i);
      fn["f" + std::to_string(i)] = nm;
      g.AddPattern("f" + std::to_string(i), escape(nm));
      write_file(root / nm, "x");
      pin.insert("{project_root_dir}/{f" + std::to_string(i) + "}");
      in.insert(norm(root / nm));
    }
    for (size_t i = 0, n = s.some(3); i < n; i++) {
      std::string nm = s.pick(names) + std::to_string(i);
      g.AddPattern("o" + std::to_string(i), escape(nm));
      pout.insert("{project_build_dir}/{o" + std::to_string(i) + "}");
      out.insert(norm(bdir / nm));
      subst++;
    }
    ctx.note("inputs " + Ctx::show(in) + " outputs " + Ctx::show(out));
    size_t calls = 0;
    g.AddIdInfo("id", pin, pout, [&](const buildcc::CustomGeneratorContext &c) {
      calls++;
      for (auto &p : c.inputs)
        gin.insert(fs::path(p).string());
      for (auto &p : c.outputs)
        gout.insert(fs::path(p).string());
      return true;
    });
    g.Build();
    run_flow({&g}, 2);
    ctx.check(buildcc::env::get_task_state() == buildcc::env::TaskState::SUCCESS, "generation failed");
    ctx.equal(calls, (size_t)1, "callback calls");
    ctx.equal(gin, in, "inputs seen by the callback");
    ctx.equal(gout, out, "outputs seen by the callback");
  }
  }
  if (subst)
    ctx.nontrivial();
}
Register rk02({"K02", "at least one expanded pattern contained a substitution or an escaped brace", k02, Mode::kThread,
               16000, 45, 500000, 240, 8, 60, false,
               {"keys are distinct (a key given twice keeps one of its values)"},
               {}});

// ---------------------------------------------------------------- K03 ------
void k03(Src &s, Ctx &ctx) {
  fs::path base = fs::weakly_canonical(ctx.dir) / "w" / "x";
  fs::path root = base / "r", bdir = base / "b";
  fs::create_directories(root);
  fs::create_directories(bdir);
  reset(root, bdir);
  static const Strs comp{"..", "a", "a.b", "a_b", "d", ".", "__", "a..b", "a__b", ".h", "_h", "r", "x y", "w",
                         std::string(90, 'd') + "1", std::string(90, 'd') + "2", "A"};
  static const Strs file{"f.c", "f.cpp", "f.x.c", "f_x.c", "g h.cc", "f..c", "f_.c", "f.S", "f.s", "f.asm", "f.cc",
                         "f.cxx", "F.c", "f.c.c", "f.o.c", std::string(70, 'n') + "1.c", std::string(70, 'n') + "2.c",
                         std::string(200, 'n') + "1.c", std::string(200, 'n') + "2.c", "1" + std::string(70, 'n') + ".c",
                         "2" + std::string(70, 'n') + ".c", ".f.c"};
  std::vector<std::pair<Strs, std::string>> seen; // folders and file of the sources so far
  auto rel = [&](size_t up) {
    Strs cs;
    std::string f;
    if (!seen.empty() && s.coin()) { // close to an earlier one
      std::tie(cs, f) = s.pick(seen);
      for (size_t i = 1 + s.draw(2); i > 0; i--)
        switch (s.draw(cs.empty() ? 2 : 5)) {
        case 0: f = s.pick(file); break;
        case 1: cs.insert(cs.begin() + (long)s.draw(cs.size() + 1), s.chance(1, 3) ? ".." : s.pick(comp)); break;
        case 2: cs.erase(cs.begin() + (long)s.draw(cs.size())); break;
        case 3: cs[s.draw(cs.size())] = s.pick(comp); break;
        default: std::swap(cs[s.draw(cs.size())], cs[s.draw(cs.size())]);
        }
    } else {
      for (size_t i = 0, n = s.some(4); i < n; i++)
        cs.push_back(s.pick(comp));
      f = s.pick(file);
    }
    std::string r;
    Strs kept;
    for (auto &c : cs) {
      if (c == "..") {
        if (up == 0)
          continue;
        up--;
      }
      kept.push_back(c);
      r += c + "/";
    }
    seen.emplace_back(kept, f);
    return r + f;
  };
  Toolchain tc1(buildcc::ToolchainId::Gcc, "tc", buildcc::ToolchainExecutables("as", "cc", "cxx", "ar", "ld"));
  Toolchain tc2(buildcc::ToolchainId::Gcc, "tc2", buildcc::ToolchainExecutables("as", "cc", "cxx", "ar", "ld"));
  TargetConfig cfg;
  cfg.compile_command = "{output}\x1f{input}";
  cfg.link_command = "{output}\x1f{compiled_sources}";
  cfg.pch_command = "{output}\x1f{input}\x1f{input_source}";
  std::map<std::string, std::string> owner; // output -> who
  size_t out_of_root = 0, total = 0;
  size_t nt = 1 + s.draw(3);
  std::vector<std::unique_ptr<Target>> ts;
  auto unq = [](std::string p) {
    if (p.size() > 1 && p[0] == '"')
      p = p.substr(1, p.size() - 2);
    return p;
  };
  for (size_t ti = 0; ti < nt; ti++) {
    Span sp(s);
    static const Strs names{"t", "t2", "u.v", "u_v"};
    std::string name = names[ti % names.size()];
    bool second = s.chance(1, 4);
    if (second)
      name = names[0];
    Toolchain &tc = second ? tc2 : tc1;
    std::string id = tc.GetName() + "/" + name;
    bool dup = false;
    for (auto &t : ts)
      dup |= t->GetToolchain().GetName() + "/" + t->GetName() == id;
    if (dup)
      continue;
    fs::path troot;
    std::unique_ptr<TargetEnv> env;
    size_t kind = s.draw(3);
    static const Strs roots{"", "a", "..", "a/..", "./a", "../r", "a/../..", "x y"};
    if (kind < 2) {
      auto &r = s.pick(roots);
      env = std::make_unique<TargetEnv>(r.c_str());
      troot = root / r;
    } else {
      auto &r = s.pick(roots);
      static const Strs bd{"b", "b/a", "b2"};
      fs::path tb = base / s.pick(bd);
      troot = base / r;
      env = std::make_unique<TargetEnv>(troot, tb);
    }
    Target *t;
    ts.push_back(std::make_unique<Target>(name, TargetType::Executable, tc, *env, cfg));
    t = ts.back().get();
    fs::path tbuild = (env->GetTargetBuildDir() / tc.GetName() / name).lexically_normal();
    std::set<std::string> srcs;
    std::string d;
    for (size_t i = 0, n = 2 + s.some(5); i < n; i++) {
      std::string r = rel(3);
      fs::path abs = (troot / r).lexically_normal();
      if (s.coin())
        t->AddSource(r);
      else
        t->AddSourceAbsolute(abs);
      srcs.insert(abs.string());
      d += " " + r;
      out_of_root += abs.lexically_relative(troot.lexically_normal()).string().rfind("..", 0) == 0;
    }
    ctx.note("target " + id + " root " + troot.string() + " build " + tbuild.string() + ":" + d);
    t->Build();
    auto add = [&](const std::string &out, const std::string &who, const std::string &alias) {
      auto [it, fresh] = owner.try_emplace(out, who + "\x1f" + alias);
      total++;
      if (!fresh) {
        // listed finding: a literal "__" folder next to an out of root folder
        std::string prev_alias = it->second.substr(it->second.find('\x1f') + 1);
        if (!alias.empty() && alias == prev_alias) {
          ctx.known("object-path-literal-underscores");
          return;
        }
        ctx.check(false, "two steps write " + out + ": " + who + " and " + it->second.substr(0, it->second.find('\x1f')));
      }
      ctx.check(true, "");
      fs::path p(out);
      auto r = p.lexically_relative(tbuild);
      ctx.check(p == p.lexically_normal() && !r.empty() && *r.begin() != ".." && *r.begin() != ".",
                who + " is written outside the build directory of its target: " + out);
    };
    for (auto &src : srcs) {
      std::string c = t->GetCompileCommand(src);
      auto at = c.find('\x1f');
      ctx.equal(unq(c.substr(at + 1)), src, "input of the compile command of " + src);
      // where this source lands when every ".." component becomes "__"
      std::string alias = id + ":";
      bool up = false;
      for (auto &x : fs::path(src).lexically_relative(troot.lexically_normal())) {
        up |= x == ".." || x == "__";
        alias += (x == ".." ? "__" : x.string()) + "/";
      }
      add(unq(c.substr(0, at)), id + ":" + src, up ? alias : "");
      ctx.check(fs::is_directory(fs::path(unq(c.substr(0, at))).parent_path()), "folder of the object does not exist");
    }
    add(norm(t->GetTargetPath()), id + " linked output", "");
    add(norm(t->GetBinaryPath()), id + " record", "");
    add(norm(t->GetPchHeaderPath()), id + " pch header", "");
    add(norm(t->GetPchCompilePath()), id + " pch", "");
  }
  if (total > 4 && out_of_root)
    ctx.nontrivial();
}
Register rk03({"K03", "several sources of which at least one lies outside the target root", k03, Mode::kThread, 12000,
               45, 400000, 240, 8, 60, false,
               {"targets have distinct (toolchain name, target name) pairs and plain names"},
               {}});

// ---------------------------------------------------------------- S01 ------
enum Opt { SRC, HDR, PCH, LIBS, INC, LDIR, EXT, F0, CDEP = F0 + NCAT, LDEP, NOPT };
const buildcc::SyncOption kOpts[NOPT] = {
    buildcc::SyncOption::SourceFiles,       buildcc::SyncOption::HeaderFiles,        buildcc::SyncOption::PchFiles,
    buildcc::SyncOption::LibDeps,           buildcc::SyncOption::IncludeDirs,        buildcc::SyncOption::LibDirs,
    buildcc::SyncOption::ExternalLibDeps,   buildcc::SyncOption::PreprocessorFlags,  buildcc::SyncOption::CommonCompileFlags,
    buildcc::SyncOption::PchCompileFlags,   buildcc::SyncOption::PchObjectFlags,     buildcc::SyncOption::AsmCompileFlags,
    buildcc::SyncOption::CCompileFlags,     buildcc::SyncOption::CppCompileFlags,    buildcc::SyncOption::LinkFlags,
    buildcc::SyncOption::CompileDependencies, buildcc::SyncOption::LinkDependencies};
const char *opt_name(int o) {
  static const char *n[] = {"sources", "headers", "pchs", "libs", "include dirs", "lib dirs", "external libs",
                            "preprocessor flags", "common flags", "pch compile flags", "pch object flags", "asm flags",
                            "c flags", "cpp flags", "link flags", "compile deps", "link deps"};
  return n[o];
}
Strs get_opt(const TargetInfo &t, int o) {
  switch (o) {
  case SRC: return t.GetSourceFiles();
  case HDR: return t.GetHeaderFiles();
  case PCH: return t.GetPchFiles();
  case LIBS: return t.GetLibDeps();
  case INC: return t.GetIncludeDirs();
  case LDIR: return t.GetLibDirs();
  case EXT: return t.GetExternalLibDeps();
  case CDEP: return t.GetCompileDependencies();
  case LDEP: return t.GetLinkDependencies();
  default: return get_flags(t, o - F0);
  }
}
struct Info {
  std::unique_ptr<TargetInfo> info;   // a header only description
  std::unique_ptr<Target> target;     // or a real target
  fs::path root;
  Strs m[NOPT];
  TargetInfo &get() { return target ? *target : *info; }
};

void s01(Src &s, Ctx &ctx) {
  fs::path base = fs::weakly_canonical(ctx.dir);
  fs::path root = base / "r", bdir = base / "b";
  static const Strs dirs{"", "d", "e f", "d/g"};
  static const Strs names{"a.c", "b.cpp", "c.h", "d.hpp", "e.S", "f.txt", "noext", "h.cc", ".c", "i.C", "j.asm", "k.tar.c", "l.h.in", "m.cxx", "n.s",
                          "o.inl", "p.ipp", "q.hh", "r.hxx", "t.H", "u.c++", "v.i", "w.h~", "x.CPP", "y.tpp",
                          ".hid.c", ".hid.h", "sp ace.c", "sp ace.h", "\xc3\xa9.h", "\xc3\xa9.c", "_z.cpp", "~t.h"};
  std::map<std::string, std::set<std::string>> tree;
  for (auto &d : dirs) {
    fs::create_directories(root / d);
    for (auto &n : names)
      if (s.chance(1, 3)) {
        write_file(root / d / n, "x");
        tree[d].insert(n);
      }
  }
  fs::create_directories(bdir);
  reset(root, bdir);
  auto ext = [](const std::string &n) {
    auto at = n.rfind('.');
    return at == std::string::npos || at == 0 ? std::string() : n.substr(at);
  };
  static const std::set<std::string> sext{".c", ".cpp", ".cxx", ".cc", ".s", ".S", ".asm"}, hext{".h", ".hpp"};
  Toolchain tc(buildcc::ToolchainId::Gcc, "tc", buildcc::ToolchainExecutables("as", "cc", "cxx", "ar", "ld"));
  Strs tf[NCAT];
  for (int c = 0; c < NCAT; c++)
    for (size_t i = 0, n = s.some(3); i < n; i++) {
      tf[c].push_back(s.pick(kFlagPool));
      add_flag(tc, c, tf[c].back());
    }
  std::vector<Info> v;
  size_t n = 2 + s.draw(2);
  for (size_t i = 0; i < n; i++) {
    Info x;
    auto &r = s.pick(dirs);
    x.root = root / r;
    if (s.coin())
      x.target = std::make_unique<Target>("t" + std::to_string(i), TargetType::StaticLibrary, tc, TargetEnv(r.c_str()));
    else
      x.info = std::make_unique<TargetInfo>(tc, TargetEnv(r.c_str()));
    for (int c = 0; c < NCAT; c++)
      x.m[F0 + c] = tf[c];
    v.push_back(std::move(x));
  }
  auto verify = [&](const std::string &what) {
    for (size_t i = 0; i < v.size(); i++)
      for (int o = 0; o < NOPT; o++)
        ctx.equal(get_opt(v[i].get(), o), v[i].m[o], "after " + what + ": " + opt_name(o) + " of description " +
                                                         std::to_string(i));
  };
  verify("construction");
  bool sync = false, nonempty = false;
  size_t ops = 2 + s.draw(ctx.thorough ? 24 : 12);
  for (size_t k = 0; k < ops; k++) {
    Span sp(s);
    size_t i = s.draw(v.size());
    Info &x = v[i];
    TargetInfo &t = x.get();
    std::string d = "#" + std::to_string(i) + " ";
    static const Strs subs{"", "d", ".", "../r", "d/../e f"};
    auto &sub = s.pick(subs);
    std::string f = s.pick(names);
    fs::path abs = (x.root / sub / f);
    // an append whose order within the directory is unspecified
    auto glob = [&](int o, const fs::path &dir, const std::set<std::string> &exts) {
      std::multiset<std::string> want, got;
      for (auto &e : fs::directory_iterator(dir))
        if (exts.count(ext(e.path().filename().string())))
          want.insert(norm(e.path()));
      Strs now = get_opt(t, o);
      ctx.check(now.size() >= x.m[o].size() && std::equal(x.m[o].begin(), x.m[o].end(), now.begin()),
                d + ": what was there before the glob changed");
      got.insert(now.begin() + (long)x.m[o].size(), now.end());
      ctx.equal(got, want, d + ": files found in " + dir.string());
      x.m[o] = now;
    };
    auto expect = [&](bool valid, int o, const fs::path &p, const std::function<void()> &fn) {
      bool rejected = fatal(fn);
      ctx.equal(rejected, !valid, d + ": rejected by its extension");
      if (valid)
        x.m[o].push_back(norm(p));
      else
        ctx.label("rejected extension");
    };
    switch (s.weighted({3, 3, 2, 2, 3, 2, 2, 2, 3, 7, 7})) {
    case 0:
      d += "AddSource(" + f + ", " + sub + ")";
      ctx.note(d);
      if (s.coin())
        expect(sext.count(ext(f)), SRC, abs, [&]() { t.AddSource(f, sub); });
      else
        expect(sext.count(ext(f)), SRC, abs, [&]() { t.AddSourceAbsolute(abs); });
      break;
    case 1:
      d += "AddHeader(" + f + ", " + sub + ")";
      ctx.note(d);
      if (s.coin())
        expect(hext.count(ext(f)), HDR, abs, [&]() { t.AddHeader(f, sub); });
      else
        expect(hext.count(ext(f)), HDR, abs, [&]() { t.AddHeaderAbsolute(abs); });
      break;
    case 2:
      d += "AddPch(" + f + ", " + sub + ")";
      ctx.note(d);
      if (s.coin())
        expect(hext.count(ext(f)), PCH, abs, [&]() { t.AddPch(f, sub); });
      else
        expect(hext.count(ext(f)), PCH, abs, [&]() { t.AddPchAbsolute(abs); });
      break;
    case 3: { // globs
      auto &dir = s.pick(dirs);
      fs::path gd = root / dir;
      bool absn = s.coin();
      // relative form: only for descriptions rooted at the project root
      fs::path reld = fs::path(gd.lexically_normal()).lexically_relative(x.root.lexically_normal());
      bool src = s.coin();
      d += std::string("Glob") + (src ? "Sources" : "Headers") + "(" + dir + ")";
      ctx.note(d);
      if (src)
        absn ? t.GlobSourcesAbsolute(gd) : t.GlobSources(reld);
      else
        absn ? t.GlobHeadersAbsolute(gd) : t.GlobHeaders(reld);
      glob(src ? SRC : HDR, gd, src ? sext : hext);
      break;
    }
    case 4: {
      bool g = s.chance(1, 3);
      fs::path dir = (x.root / sub);
      if (!fs::exists(dir))
        g = false;
      d += "AddIncludeDir(" + sub + (g ? ", glob" : "") + ")";
      ctx.note(d);
      if (s.coin())
        t.AddIncludeDir(sub, g);
      else
        t.AddIncludeDirAbsolute(dir, g);
      x.m[INC].push_back(norm(dir));
      if (g)
        glob(HDR, dir, hext);
      break;
    }
    case 5:
      d += "AddLibDir(" + sub + ")";
      ctx.note(d);
      if (s.coin())
        t.AddLibDir(sub);
      else
        t.AddLibDirAbsolute(x.root / sub);
      x.m[LDIR].push_back(norm(x.root / sub));
      break;
    case 6: {
      size_t j = s.draw(v.size());
      if (v[j].target && j != i) {
        d += "AddLibDep(target " + std::to_string(j) + ")";
        t.AddLibDep(*v[j].target);
        x.m[LIBS].push_back(norm(bdir / "tc" / ("t" + std::to_string(j)) / ("t" + std::to_string(j))));
      } else {
        d += "AddLibDep(-lfoo)";
        t.AddLibDep("-lfoo" + std::to_string(k));
        x.m[EXT].push_back("-lfoo" + std::to_string(k));
      }
      ctx.note(d);
      break;
    }
    case 7: {
      bool c = s.coin();
      bool a = s.coin();
      fs::path rel = fs::path(sub) / f;
      d += std::string(c ? "AddCompileDependency(" : "AddLinkDependency(") + rel.string() + ")";
      ctx.note(d);
      if (c)
        a ? t.AddCompileDependencyAbsolute(x.root / rel) : t.AddCompileDependency(rel);
      else
        a ? t.AddLinkDependencyAbsolute(x.root / rel) : t.AddLinkDependency(rel);
      x.m[c ? CDEP : LDEP].push_back(norm(x.root / rel));
      break;
    }
    case 8: {
      int c = (int)s.draw(NCAT);
      auto &fl = s.pick(kFlagPool);
      d += std::string("add ") + opt_name(F0 + c) + " " + fl;
      ctx.note(d);
      add_flag(t, c, fl);
      x.m[F0 + c].push_back(fl);
      break;
    }
    default: { // Copy / Insert
      size_t j = s.draw(v.size());
      if (j == i)
        j = (j + 1) % v.size();
      Info &y = v[j];
      bool ins = s.coin(), mv = s.coin();
      std::set<int> os;
      if (s.chance(1, 8))
        for (int o = 0; o < NOPT; o++)
          os.insert(o);
      else
        for (size_t q = 0, m = 1 + s.draw(4); q < m; q++)
          os.insert((int)s.draw(NOPT));
      d += std::string(ins ? "Insert" : "Copy") + (mv ? " by move" : " by reference") + " from #" + std::to_string(j) + ":";
      for (int o : os)
        d += std::string(" ") + opt_name(o) + ",";
      ctx.note(d);
      std::vector<buildcc::SyncOption> l;
      for (int o : os) {
        l.push_back(kOpts[o]);
        nonempty |= !y.m[o].empty();
        if (!ins)
          x.m[o].clear();
        x.m[o].insert(x.m[o].end(), y.m[o].begin(), y.m[o].end());
      }
      if (s.coin())
        std::reverse(l.begin(), l.end());
      auto call = [&](std::initializer_list<buildcc::SyncOption> il) {
        TargetInfo &src = y.get();
        if (ins)
          mv ? t.Insert(std::move(src), il) : t.Insert(src, il);
        else
          mv ? t.Copy(std::move(src), il) : t.Copy(src, il);
      };
      switch (l.size()) {
      case 1: call({l[0]}); break;
      case 2: call({l[0], l[1]}); break;
      case 3: call({l[0], l[1], l[2]}); break;
      case 4: call({l[0], l[1], l[2], l[3]}); break;
      default:
        static_assert(NOPT == 17);
        call({l[0], l[1], l[2], l[3], l[4], l[5], l[6], l[7], l[8], l[9], l[10], l[11], l[12], l[13], l[14], l[15],
              l[16]});
        break;
      }
      if (mv) // what was moved from may or may not be kept
        for (int o : os)
          y.m[o] = get_opt(y.get(), o);
      sync = true;
    }
    }
    verify(d);
  }
  if (sync && nonempty)
    ctx.nontrivial();
}
Register rs01({"S01", "a Copy or Insert of something non-empty", s01, Mode::kThread, 10000, 45, 300000, 240, 8, 60, false,
               {"the source of a move is not inspected for the moved parts"},
               {}});

} // namespace
