// P01: parallel builds are free of data races and give the result of a serial
// build. Compiled with ThreadSanitizer; the first race ends the process.
#include <fcntl.h>
#include <sys/stat.h>

#include <nlohmann/json.hpp>

#include "reg_world.hpp"

namespace {
using namespace rw;
using buildcc::ArgToolchainState;
using buildcc::Reg;
using nlohmann::json;

// arrays of records are sets: their order is the order of completion
json canon(const json &j) {
  if (j.is_array()) {
    std::vector<std::string> v;
    bool bytes = !j.empty();
    for (auto &x : j)
      bytes &= x.is_number();
    if (bytes)
      return j;
    for (auto &x : j)
      v.push_back(canon(x).dump());
    std::sort(v.begin(), v.end());
    return v;
  }
  if (j.is_object()) {
    json r = json::object();
    for (auto &[k, x] : j.items())
      r[k] = canon(x);
    return r;
  }
  return j;
}

std::map<std::string, std::string> snapshot(const fs::path &d) {
  std::map<std::string, std::string> r;
  for (auto &e : fs::recursive_directory_iterator(d))
    if (e.is_regular_file()) {
      std::string c = read_file(e.path());
      auto x = e.path().extension();
      if (x == ".bin" || x == ".json") {
        json j = json::parse(c, nullptr, false);
        if (!j.is_discarded())
          c = canon(j).dump();
      }
      r[e.path().lexically_relative(d).string()] = c;
    }
  return r;
}

void p01(Src &s, Ctx &ctx) {
  World w;
  w.root = ctx.dir / "p";
  w.bdir = ctx.dir / "b";
  fs::create_directories(w.root);
  int n = 1 + (int)s.draw(5);
  bool faults = s.chance(1, 3);
  for (int i = 0; i < n; i++) {
    Builder b = gen_builder(s, i);
    Span sp(s);
    b.steps = 1 + (int)s.draw(6);
    b.delay.assign(b.steps + 2, 0);
    static const std::vector<int> d{0, 0, 50, 300};
    for (auto &x : b.delay)
      x = s.pick(d);
    if (faults && s.chance(1, 3)) {
      b.fail = (int)s.draw(b.steps);
      b.how = b.kind == CUSTOM ? (s.coin() ? F_FALSE : F_THROW) : b.kind == TEMPLATE ? F_MISSING : F_CMD;
    }
    w.bs.push_back(b);
  }
  for (size_t k = 0, m = s.draw(n); k < m; k++) {
    int a = (int)s.draw(n), b = (int)s.draw(n);
    if (a < b)
      w.deps.insert({b, a});
  }
  bool tests = s.coin();
  static const std::vector<unsigned> cp{4, 2, 3, 8};
  unsigned par = s.pick(cp);
  w.cpus = par;
  describe(ctx, w);
  bool fails = false;
  for (auto &b : w.bs)
    fails |= b.how != F_NONE;
  new_log();
  g_log_off = true;
  auto go = [&](unsigned cpus, bool edit) {
    w.cpus = cpus;
    return run_forked([&]() -> std::string {
      Child c(w);
      c.start();
      std::vector<std::vector<std::string>> out(n);
      c.on_test = [](const std::string &, const std::string &, const stub::Reader &o, const stub::Reader &e) {
        if (o)
          o("out", 3);
        if (e)
          e("err", 3);
        return 0;
      };
      (void)edit;
      auto on = Reg::Toolchain(ArgToolchainState(true, tests));
      for (int i = 0; i < n; i++)
        c.build(on, i);
      for (auto &[t, d] : w.deps)
        on.Dep(*c.obj[t], *c.obj[d]);
      for (int i = 0; i < n; i++)
        if (w.bs[i].is_target())
          on.Test("run {executable}", static_cast<buildcc::Target &>(*c.obj[i]),
                  buildcc::TestConfig({}, {},
                                      buildcc::TestOutput(i % 2 ? buildcc::TestOutput::Type::UserRedirect
                                                                : buildcc::TestOutput::Type::TestPrintOnStderrAndStdout,
                                                          &out[i], nullptr)));
      Reg::Run();
      return "";
    });
  };
  // a first build, then another after touching some inputs
  size_t touched = s.draw(3);
  auto r = go(par, false);
  auto bad = [&](const ForkResult &r) {
    if (r.exited && r.code == 66) {
      auto p = r.err.find("WARNING: ThreadSanitizer");
      ctx.fail("data race in a parallel build\n" + r.err.substr(p == std::string::npos ? 0 : p, 2500));
    }
  };
  bad(r);
  if (fails) {
    ctx.label("with failures");
    ctx.check(!r.returned && r.exited && r.code == 1, "a failing parallel build " + why(r));
    return;
  }
  ctx.check(r.returned, "a parallel build " + why(r));
  auto snap = snapshot(w.bdir);
  for (size_t k = 0; k < touched; k++) {
    auto &b = w.bs[s.draw(n)];
    bool all = s.coin();
    for (int i = 0; i < (b.is_target() || b.kind == CUSTOM ? b.steps : 1); i++) {
      if (!all && i != (int)(k % b.steps))
        continue;
      std::string nr = std::to_string(i);
      fs::path f = w.root / b.name /
                   (b.is_target() ? "s" + nr + ".cpp" : b.kind == CUSTOM ? "i" + nr : b.kind == FILEGEN ? "in" : "t.in");
      write_file(f, b.kind == TEMPLATE ? "changed" : "y");
      timespec ts[2] = {{2000000000 + (long)k, 5}, {2000000000 + (long)k, 5}};
      utimensat(AT_FDCWD, f.c_str(), ts, 0);
    }
    ctx.label(all ? "every input of a builder edited" : "one input edited");
  }
  if (touched) {
    r = go(par, true);
    bad(r);
    ctx.check(r.returned, "a second parallel build " + why(r));
    snap = snapshot(w.bdir);
  }
  fs::remove_all(w.bdir);
  r = go(1, false);
  bad(r);
  ctx.check(r.returned, "a serial build " + why(r));
  ctx.equal(snapshot(w.bdir), snap, "files after a serial build compared with the parallel build");
  size_t steps = 0;
  for (auto &b : w.bs)
    steps += b.steps;
  if (steps > 2)
    ctx.nontrivial();
}

Register r1([] {
  Property p;
  p.id = "P01";
  p.rule = "more than two steps that can run in parallel";
  p.run = p01;
  p.mode = Mode::kMain;
  p.racy = true;
  p.quick_cases = 400;
  p.quick_seconds = 70;
  p.workers = 6;
  return p;
}());
} // namespace
