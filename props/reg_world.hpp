// Builders registered through the real Reg API and run by Reg::Run in a forked
// child on its main thread, so that what a user sees (exit status of the build
// program, commands run and their order) is what is judged. Every step logs its
// begin and end into shared memory.
#pragma once
#include <sched.h>
#include <sys/mman.h>
#include <sys/wait.h>
#include <unistd.h>

#include <atomic>
#include <cstring>
#include <map>
#include <memory>
#include <mutex>
#include <set>
#include <thread>

#include "exec_stub.hpp"
#include "pbt.hpp"

#include "args/args.h"
#include "args/register.h"
#include "env/env.h"
#include "env/storage.h"
#include "env/task_state.h"
#include "target/custom_generator.h"
#include "target/file_generator.h"
#include "target/target.h"
#include "target/template_generator.h"
#include "toolchain/toolchain.h"

namespace rw {
using namespace pbt;
using Strs = std::vector<std::string>;

struct Ev {
  char kind; // 'S' start, 'E' end, 'F' failed end, 'P' post callback, 'R' result of a registration, ...
  char what[600];
};
struct Log {
  std::atomic<uint32_t> n{0};
  Ev ev[4096];
};
inline Log *g_log = nullptr;
inline void new_log() {
  if (!g_log)
    g_log = (Log *)mmap(nullptr, sizeof(Log), PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0);
  g_log->n = 0;
}
inline bool g_log_off = false; // race checking: the log's lock would order the steps
inline void log(char kind, const std::string &what) {
  if (g_log_off)
    return;
  static std::mutex m;
  std::lock_guard<std::mutex> l(m);
  uint32_t i = g_log->n;
  if (i >= 4096)
    return;
  g_log->ev[i].kind = kind;
  strncpy(g_log->ev[i].what, what.c_str(), 599);
  g_log->ev[i].what[599] = 0;
  g_log->n = i + 1;
}
struct Event {
  char kind;
  std::string what;
};
inline std::vector<Event> events() {
  std::vector<Event> r;
  for (uint32_t i = 0; i < g_log->n; i++)
    r.push_back({g_log->ev[i].kind, g_log->ev[i].what});
  return r;
}

inline Strs words(const std::string &s) {
  Strs r;
  std::string cur;
  bool q = false, any = false;
  for (char c : s) {
    if (c == '"') {
      q = !q;
      any = true;
    } else if (c == ' ' && !q) {
      if (any || !cur.empty())
        r.push_back(cur);
      cur.clear();
      any = false;
    } else
      cur += c;
  }
  if (any || !cur.empty())
    r.push_back(cur);
  return r;
}

enum Kind { CUSTOM, FILEGEN, TEMPLATE, EXE, STATIC, DYNAMIC };
enum FailHow { F_NONE, F_FALSE, F_THROW, F_THROW_INT, F_CMD, F_MISSING };

struct Builder {
  Kind kind{CUSTOM};
  std::string name;
  std::string declared;   // a target may be named like another one of the other toolchain
  int toolchain{0};
  const std::string &given() const { return declared.empty() ? name : declared; }
  int steps{1};           // ids / commands / sources
  bool pch{false};
  std::vector<int> delay; // per step, microseconds
  int fail{-1};           // failing step (link = steps, pch = -2)
  FailHow how{F_NONE};
  bool is_target() const { return kind >= EXE; }
  std::string uid() const { return is_target() ? (toolchain ? "[gcc2] " : "[gcc] ") + given() : name; }
  // names of the steps a full build runs
  std::set<std::string> all_steps() const {
    std::set<std::string> r;
    if (kind == TEMPLATE)
      return r;
    if (kind == FILEGEN && steps == 0)
      return r;
    for (int i = 0; i < steps; i++)
      r.insert(name + ":" + std::to_string(i));
    if (pch)
      r.insert(name + ":pch");
    if (is_target())
      r.insert(name + ":link");
    return r;
  }
};

struct World {
  fs::path root, bdir;
  std::vector<Builder> bs;
  std::set<std::pair<int, int>> deps; // (target, dependency)
  unsigned cpus{8};

  std::set<int> above(int d) const { // everything that depends on d, transitively
    std::set<int> r;
    std::vector<int> todo{d};
    while (!todo.empty()) {
      int x = todo.back();
      todo.pop_back();
      for (auto &[t, dep] : deps)
        if (dep == x && r.insert(t).second)
          todo.push_back(t);
    }
    return r;
  }
};

inline const char *kind_name(Kind k) {
  static const char *n[] = {"custom generator", "file generator", "template generator", "executable", "static library",
                            "dynamic library"};
  return n[k];
}

inline Builder gen_builder(Src &s, int i) {
  Span sp(s);
  Builder b;
  b.kind = (Kind)s.weighted({4, 3, 1, 3, 2, 1});
  b.name = "b" + std::to_string(i);
  b.steps = 1 + (int)s.some(3, 20);
  if (b.is_target())
    b.pch = s.chance(1, 3);
  if (b.is_target() && s.chance(1, 3)) {
    b.toolchain = 1;
    b.declared = "b" + std::to_string(i ^ 1);
  }
  static const std::vector<int> d{0, 0, 200, 1000, 3000};
  for (int k = 0; k < b.steps + 2; k++)
    b.delay.push_back(s.pick(d));
  return b;
}

inline int delay_of(const Builder &b, const std::string &step) {
  if (step == "pch")
    return b.delay[b.steps];
  if (step == "link")
    return b.delay[b.steps + 1];
  return b.delay[atoi(step.c_str())];
}
inline bool fails(const Builder &b, const std::string &step) {
  if (b.how == F_NONE)
    return false;
  int f = step == "pch" ? -2 : step == "link" ? b.steps : atoi(step.c_str());
  return f == b.fail;
}

// the child: everything below runs inside run_forked
struct Child {
  World &w;
  bool faults{true};
  std::unique_ptr<buildcc::Toolchain> tc, tc2;
  std::vector<std::unique_ptr<buildcc::internal::BuilderInterface>> obj;
  std::function<int(const std::string &, const std::string &, const stub::Reader &, const stub::Reader &)> on_test;

  explicit Child(World &w) : w(w) {}

  void nap(int us) {
    if (us)
      std::this_thread::sleep_for(std::chrono::microseconds(us));
  }

  void start() {
    cpu_set_t all, some;
    sched_getaffinity(0, sizeof all, &all);
    CPU_ZERO(&some);
    unsigned k = 0;
    for (int c = 0; c < CPU_SETSIZE && k < w.cpus; c++)
      if (CPU_ISSET(c, &all))
        CPU_SET(c, &some), k++;
    sched_setaffinity(0, sizeof some, &some);
    std::string r = w.root.string(), b = w.bdir.string();
    const char *argv[] = {"", "--root_dir", r.c_str(), "--build_dir", b.c_str(), "--loglevel", "critical"};
    buildcc::Args::Init().Parse(7, argv);
    buildcc::Reg::Init();
    tc = std::make_unique<buildcc::Toolchain>(buildcc::ToolchainId::Gcc, "gcc",
                                              buildcc::ToolchainExecutables("as", "gcc", "g++", "ar", "ld"));
    tc2 = std::make_unique<buildcc::Toolchain>(buildcc::ToolchainId::Gcc, "gcc2",
                                               buildcc::ToolchainExecutables("as", "gcc", "g++", "ar", "ld"));
    stub::set_handler([this](const std::string &c, const std::string &cwd, const stub::Reader &o, const stub::Reader &e) {
      Strs ws = words(c);
      if (ws.size() >= 3 && ws[0] == "STEP")
        return step(ws);
      if (on_test)
        return on_test(c, cwd, o, e);
      log('?', c);
      return 1;
    });
    for (auto &b : w.bs)
      obj.push_back(make(b));
  }

  int step(const Strs &ws) { // STEP builder step [output]
    const Builder *b = nullptr;
    for (auto &x : w.bs)
      if (x.name == ws[1])
        b = &x;
    std::string st = ws[2];
    if (st == "src")
      st = fs::path(ws[4]).stem().string().substr(1);
    std::string id = ws[1] + ":" + st;
    log('S', id);
    nap(delay_of(*b, st));
    if (faults && fails(*b, st)) {
      log('F', id);
      return 1;
    }
    if (ws.size() > 3)
      write_file(ws[3], id);
    log('E', id);
    return 0;
  }

  std::unique_ptr<buildcc::internal::BuilderInterface> make(Builder &b) {
    using namespace buildcc;
    fs::path dir = w.root / b.name;
    fs::create_directories(dir);
    if (b.is_target()) {
      TargetConfig c;
      c.compile_command = "STEP " + b.name + " src {output} {input}";
      c.pch_command = "STEP " + b.name + " pch {output} {input}";
      c.link_command = "STEP " + b.name + " link {output} {compiled_sources} {lib_deps}";
      auto t = std::make_unique<Target>(b.given(),
                                        b.kind == EXE      ? TargetType::Executable
                                        : b.kind == STATIC ? TargetType::StaticLibrary
                                                           : TargetType::DynamicLibrary,
                                        b.toolchain ? *tc2 : *tc, TargetEnv(""), c);
      for (int i = 0; i < b.steps; i++) {
        std::string f = b.name + "/s" + std::to_string(i) + ".cpp";
        if (!(faults && b.how == F_MISSING && b.fail == i))
          if (!fs::exists(w.root / f))
            write_file(w.root / f, f);
        t->AddSource(f);
      }
      if (b.pch) {
        if (!fs::exists(dir / "p.h"))
          write_file(dir / "p.h", "p");
        t->AddPch(b.name + "/p.h");
      }
      return t;
    }
    if (b.kind == CUSTOM) {
      auto g = std::make_unique<CustomGenerator>(b.name, TargetEnv(""));
      for (int i = 0; i < b.steps; i++) {
        std::string in = (dir / ("i" + std::to_string(i))).string();
        std::string out = "{current_build_dir}/o" + std::to_string(i);
        if (!(faults && b.how == F_MISSING && b.fail == i))
          if (!fs::exists(in))
            write_file(in, "x");
        const Builder *pb = &b;
        g->AddIdInfo("id" + std::to_string(i), {in}, {out}, [this, pb, i](const CustomGeneratorContext &ctx) {
          std::string id = pb->name + ":" + std::to_string(i);
          log('S', id);
          nap(pb->delay[i]);
          if (faults && pb->fail == i && pb->how != F_NONE) {
            log('F', id);
            if (pb->how == F_THROW)
              throw std::runtime_error("callback");
            if (pb->how == F_THROW_INT)
              throw 1;
            return false;
          }
          for (auto &o : ctx.outputs)
            write_file(o, id);
          log('E', id);
          return true;
        });
      }
      return g;
    }
    if (b.kind == FILEGEN) {
      auto g = std::make_unique<FileGenerator>(b.name, TargetEnv(""));
      std::string in = (dir / "in").string();
      if (!(faults && b.how == F_MISSING))
        if (!fs::exists(in))
          write_file(in, "x");
      g->AddInput(in);
      for (int i = 0; i < b.steps; i++) {
        g->AddOutput("{current_build_dir}/o" + std::to_string(i));
        g->AddCommand("STEP " + b.name + " " + std::to_string(i) + " {current_build_dir}/o" + std::to_string(i));
      }
      return g;
    }
    auto g = std::make_unique<TemplateGenerator>(b.name, TargetEnv(""));
    std::string in = (dir / "t.in").string();
    if (!(faults && b.how == F_MISSING))
      if (!fs::exists(in))
        write_file(in, "name " + b.name);
    g->AddTemplate(in, "{current_build_dir}/t.out");
    return g;
  }

  // registers builder i through `via` (anything with a Build member)
  template <typename R> void build(R &&via, int i) {
    using namespace buildcc;
    auto cb = [](auto &x) { x.Build(); };
    auto *p = obj[i].get();
    switch (w.bs[i].kind) {
    case CUSTOM:
      via.Build(cb, static_cast<CustomGenerator &>(*p));
      break;
    case FILEGEN:
      via.Build(cb, static_cast<FileGenerator &>(*p));
      break;
    case TEMPLATE:
      via.Build(cb, static_cast<TemplateGenerator &>(*p));
      break;
    default:
      via.Build(cb, static_cast<Target &>(*p));
      break;
    }
  }
};

inline void describe(Ctx &ctx, const World &w) {
  for (size_t i = 0; i < w.bs.size(); i++) {
    auto &b = w.bs[i];
    std::string d = b.name + ": " + kind_name(b.kind) + ", " + std::to_string(b.steps) + " steps" + (b.pch ? " + pch" : "");
    if (b.toolchain)
      d += ", declared as " + b.uid();
    if (b.how != F_NONE)
      d += " [step " + std::to_string(b.fail) + " fails, way " + std::to_string((int)b.how) + "]";
    for (auto &[t, dep] : w.deps)
      if (t == (int)i)
        d += " <- " + w.bs[dep].name;
    ctx.note(d);
    ctx.label(kind_name(b.kind));
  }
  ctx.note(std::to_string(w.cpus) + " cpus");
}

inline std::string why(const ForkResult &r) {
  if (r.timeout)
    return "did not end";
  if (r.signal)
    return "died with signal " + std::to_string(r.signal) + " " + r.err;
  if (r.returned)
    return "returned";
  return "exited with status " + std::to_string(r.code) + (r.err.empty() ? "" : " (" + r.err.substr(0, 600) + ")");
}

} // namespace rw
