// R01 build order, R02 registration, R03 failing builds, R04 gating and tests:
// builders registered and run through Reg, judged from outside the process.
#include "reg_world.hpp"

namespace {
using namespace rw;
using buildcc::ArgToolchainState;
using buildcc::BaseTarget;
using buildcc::Reg;
using buildcc::TestConfig;
using buildcc::TestOutput;

World gen_world(Src &s, Ctx &ctx, int maxn) {
  World w;
  w.root = ctx.dir / "p";
  w.bdir = ctx.dir / "b";
  fs::create_directories(w.root);
  int n = 1 + (int)s.some(maxn, 30);
  for (int i = 0; i < n; i++)
    w.bs.push_back(gen_builder(s, i));
  // a random order is the topological order
  std::vector<int> ord(n);
  for (int i = 0; i < n; i++)
    ord[i] = i;
  for (int i = 0; i < n; i++)
    std::swap(ord[i], ord[i + s.draw(n - i)]);
  size_t m = n > 1 ? s.draw(std::min(3 * n, n * (n - 1) / 2) + 1) : 0;
  for (size_t k = 0; k < m; k++) {
    Span sp(s);
    int a = (int)s.draw(n), b = (int)s.draw(n);
    if (a == b)
      continue;
    if (a > b)
      std::swap(a, b);
    w.deps.insert({ord[b], ord[a]});
  }
  static const std::vector<unsigned> cp{8, 1, 2, 3, 5};
  w.cpus = s.pick(cp);
  return w;
}

// every step at most once, ends after it starts; returns index of start/end
struct Spanned {
  std::map<std::string, int> start, end;
  std::set<std::string> failed;
};
Spanned judge_steps(Ctx &ctx, const std::vector<Event> &ev) {
  Spanned r;
  int i = 0;
  for (auto &e : ev) {
    i++;
    if (e.kind == 'S') {
      ctx.check(!r.start.count(e.what), "step " + e.what + " ran twice");
      r.start[e.what] = i;
    } else if (e.kind == 'E')
      r.end[e.what] = i;
    else if (e.kind == 'F')
      r.failed.insert(e.what), r.end[e.what] = i;
    else if (e.kind == '?')
      ctx.fail("unexpected command " + e.what);
  }
  return r;
}

void judge_order(Ctx &ctx, const World &w, const Spanned &sp) {
  for (auto &[t, d] : w.deps)
    for (auto &a : w.bs[d].all_steps())
      for (auto &b : w.bs[t].all_steps())
        if (sp.start.count(b)) {
          ctx.check(sp.end.count(a) && sp.end.at(a) < sp.start.at(b),
                    "step " + b + " started before step " + a + " of its dependency ended");
          ctx.count("ordered pairs");
        }
  for (auto &b : w.bs) {
    auto before = [&](const std::string &x, const std::string &y) {
      if (sp.start.count(y))
        ctx.check(sp.end.count(x) && sp.end.at(x) < sp.start.at(y), "step " + y + " started before " + x + " ended");
    };
    if (b.is_target())
      for (int i = 0; i < b.steps; i++) {
        before(b.name + ":" + std::to_string(i), b.name + ":link");
        if (b.pch)
          before(b.name + ":pch", b.name + ":" + std::to_string(i));
      }
    if (b.kind == FILEGEN)
      for (int i = 1; i < b.steps; i++)
        before(b.name + ":" + std::to_string(i - 1), b.name + ":" + std::to_string(i));
  }
}

void register_all(Src &, Child &c, World &w, const std::vector<int> &how, const std::vector<std::pair<int, int>> &edges) {
  for (size_t i = 0; i < w.bs.size(); i++) {
    if (how[i] == 0)
      c.build(Reg::Toolchain(ArgToolchainState(true, false)), (int)i);
    else
      c.build(Reg::Call(), (int)i);
  }
  for (auto &[t, d] : edges)
    Reg::Toolchain(ArgToolchainState(true, true)).Dep(*c.obj[t], *c.obj[d]);
}

std::vector<std::pair<int, int>> shuffled(Src &s, const std::set<std::pair<int, int>> &e) {
  std::vector<std::pair<int, int>> v(e.begin(), e.end());
  for (size_t i = 0; i < v.size(); i++)
    std::swap(v[i], v[i + s.draw(v.size() - i)]);
  return v;
}

// ------------------------------------------------------------------ R01 ----
void r01(Src &s, Ctx &ctx) {
  World w = gen_world(s, ctx, ctx.thorough ? 14 : 9);
  std::vector<int> how;
  for (size_t i = 0; i < w.bs.size(); i++)
    how.push_back((int)s.draw(2));
  auto edges = shuffled(s, w.deps);
  describe(ctx, w);
  for (int round = 0; round < 2; round++) {
    new_log();
    auto r = run_forked([&]() -> std::string {
      Child c(w);
      c.start();
      register_all(s, c, w, how, edges);
      Reg::Run([] { log('P', "post"); });
      return "";
    });
    ctx.check(r.returned, "a build in which nothing fails " + why(r));
    auto ev = events();
    auto sp = judge_steps(ctx, ev);
    ctx.check(!ev.empty() && ev.back().kind == 'P', "the post build callback did not run last");
    if (round == 0) {
      for (auto &b : w.bs) {
        for (auto &st : b.all_steps())
          ctx.check(sp.end.count(st), "step " + st + " did not run");
        if (b.kind == TEMPLATE)
          ctx.equal(read_file(w.bdir / b.name / "t.out"), "name " + b.name, "generated file of " + b.name);
      }
      judge_order(ctx, w, sp);
    } else
      ctx.check(sp.start.empty(), "a second run with nothing changed ran a step");
  }
  if (!w.deps.empty())
    ctx.nontrivial();
}

// ------------------------------------------------------------------ R02 ----
void r02(Src &s, Ctx &ctx) {
  World w;
  w.root = ctx.dir / "p";
  w.bdir = ctx.dir / "b";
  fs::create_directories(w.root);
  w.cpus = 2;
  bool ladder = s.chance(1, 5); // many paths between few builders
  bool chain = ladder && s.chance(1, 3), fan = chain && s.coin();
  int n;
  if (ladder) {
    n = chain ? s.pick(std::vector<int>{20, 65, 70, 130, 200, 260}) + (int)s.draw(10) : 10 + (int)s.draw(50);
    ctx.label(fan ? "wide fan" : chain ? "long chain" : "ladder");
    for (int i = 0; i < n; i++) {
      Builder b;
      b.name = "b" + std::to_string(i);
      b.kind = CUSTOM;
      b.steps = 1;
      b.delay = {0, 0, 0};
      w.bs.push_back(b);
    }
  } else {
    n = 1 + (int)s.draw(8);
    for (int i = 0; i < n; i++) {
      w.bs.push_back(gen_builder(s, i));
      for (auto &d : w.bs.back().delay)
        d = d > 200 ? 200 : d;
    }
  }
  struct Op {
    int what; // 0 build 1 dep 2 test
    int a, b;
    bool open;
    bool via_call;
  };
  std::vector<Op> ops;
  std::set<int> built;
  std::set<int> tests;
  bool rejected_build = false;
  int rejections = 0;
  std::vector<int> verdict; // 1 = must be rejected
  auto reaches = [&](int from, int to) { // to depends on from (transitively)
    if (from == to)
      return true;
    auto up = w.above(from);
    return up.count(to) != 0;
  };
  auto add = [&](Op o) {
    bool bad = false;
    if (o.open) {
      if (o.what == 0) {
        bad = built.count(o.a);
        if (bad)
          rejected_build = true;
        built.insert(o.a);
      } else if (o.what == 1) {
        bad = !built.count(o.a) || !built.count(o.b) || w.deps.count({o.a, o.b}) || reaches(o.a, o.b);
        if (!bad)
          w.deps.insert({o.a, o.b});
      } else {
        bad = !built.count(o.a) || tests.count(o.a);
        if (!bad)
          tests.insert(o.a);
      }
    }
    ops.push_back(o);
    verdict.push_back(bad);
    rejections += bad;
    static const char *nm[] = {"build ", "dep ", "test "};
    ctx.note(nm[o.what] + w.bs[o.a].name + (o.what == 1 ? " <- " + w.bs[o.b].name : "") + (o.open ? "" : " (gate closed)") +
             (bad ? "  must be rejected" : ""));
  };
  if (ladder) {
    for (int i = 0; i < n; i++)
      add({0, i, 0, true, false});
    // i depends on i-1 and i-2
    bool up = s.coin();
    if (fan) { // 0 <- everything in between <- n-1
      for (int i = 1; i + 1 < n; i++) {
        add({1, i, 0, true, false});
        if (i % 7 == 3 || i + 2 == n)
          add({1, n - 1, i, true, false});
      }
      add({1, 0, n - 1, true, false});
    }
    for (int k = 1; k < n && !fan; k++) {
      int i = up ? k : n - k;
      add({1, i, i - 1, true, false});
      if (i > 1 && !chain)
        add({1, i, i - 2, true, false});
    }
    if (chain && !fan) { // closes a cycle through almost everything
      int d = (int)s.draw(3);
      add({1, d, n - 1 - (int)s.draw(3), true, false});
    }
    int m = (int)s.draw(4);
    for (int k = 0; k < m; k++)
      add({1, (int)s.draw(n), (int)s.draw(n), true, false});
  } else {
    int m = 1 + (int)s.draw(24);
    bool hub = s.chance(1, 4); // one builder with many dependencies
    if (hub)
      ctx.label("hub");
    for (int k = 0; k < m && !rejected_build; k++) {
      Span sp(s);
      int what = (int)s.weighted({5, 7, 2});
      int a = (int)s.draw(n), b = (int)s.draw(n);
      if (what == 1 && hub)
        a = 0;
      if (what == 1 && !w.deps.empty() && s.chance(1, 6)) { // again, or the other way round
        auto it = w.deps.begin();
        std::advance(it, s.draw(w.deps.size()));
        bool back = s.chance(1, 3);
        a = back ? it->second : it->first;
        b = back ? it->first : it->second;
        ctx.label(back ? "reversed dependency" : "repeated dependency");
      }
      bool open = !s.chance(1, 6), call = s.coin();
      if (what == 0 && built.count(a) && !s.chance(1, 10)) { // prefer an unbuilt one
        for (int i = 0; i < n; i++)
          if (!built.count(i)) {
            a = i;
            break;
          }
        if (built.count(a))
          continue;
      }
      if (what == 2 && !w.bs[a].is_target())
        continue;
      add({what, a, b, open, call});
    }
  }
  new_log();
  // registration runs on another thread of the child, where a rejection is an exception
  auto r = run_forked([&]() -> std::string {
    std::string out;
    Child c(w);
    c.start();
    c.on_test = [](const std::string &cmd, const std::string &, const stub::Reader &, const stub::Reader &) {
      log('T', cmd);
      return 0;
    };
    bool done = false;
    std::thread th([&] {
      for (size_t k = 0; k < ops.size(); k++) {
        auto &o = ops[k];
        bool bad = false;
        try {
          if (o.what == 0) {
            if (o.via_call)
              c.build(Reg::Call(o.open), o.a);
            else
              c.build(Reg::Toolchain(ArgToolchainState(o.open, false)), o.a);
          } else if (o.what == 1)
            Reg::Toolchain(ArgToolchainState(o.open, false)).Dep(*c.obj[o.a], *c.obj[o.b]);
          else
            Reg::Toolchain(ArgToolchainState(true, o.open))
                .Test("TESTCMD " + w.bs[o.a].name, static_cast<buildcc::Target &>(*c.obj[o.a]));
        } catch (const std::exception &) {
          bad = true;
        }
        out += bad ? 'R' : 'A';
      }
      if (!rejected_build)
        Reg::Run();
      done = true;
    });
    th.join();
    return out + (done ? "" : "!");
  });
  ctx.check(r.returned, "registration of " + std::to_string(ops.size()) + " operations " + why(r));
  for (size_t k = 0; k < ops.size(); k++) {
    ctx.check(k < r.out.size(), "registration stopped");
    ctx.equal(std::string(1, r.out[k]), std::string(verdict[k] ? "R" : "A"),
              "outcome of registration " + std::to_string(k) + " (A accepted, R rejected)");
  }
  if (!rejected_build) {
    auto ev = events();
    auto sp = judge_steps(ctx, ev);
    for (int i = 0; i < n; i++)
      for (auto &st : w.bs[i].all_steps())
        ctx.equal(sp.end.count(st) != 0, built.count(i) != 0, "step " + st + " ran");
    judge_order(ctx, w, sp);
    std::multiset<std::string> got, want;
    for (auto &e : ev)
      if (e.kind == 'T')
        got.insert(e.what);
    for (int t : tests)
      want.insert("TESTCMD " + w.bs[t].name);
    ctx.equal(got, want, "tests run");
  }
  if (rejections)
    ctx.nontrivial();
  ctx.count("rejections", rejections);
}

// the same rejections end the build program with a failure status
void r02_main(Src &s, Ctx &ctx) {
  if (!s.chance(1, 12)) {
    r02(s, ctx);
    return;
  }
  ctx.label("main thread");
  World w;
  w.root = ctx.dir / "p";
  w.bdir = ctx.dir / "b";
  fs::create_directories(w.root);
  for (int i = 0; i < 3; i++) {
    Builder b;
    b.kind = s.coin() ? EXE : CUSTOM;
    b.name = "b" + std::to_string(i);
    b.delay = {0, 0, 0};
    w.bs.push_back(b);
  }
  w.bs[0].kind = EXE;
  size_t what = s.draw(7);
  ctx.note("rejection " + std::to_string(what));
  new_log();
  auto r = run_forked([&]() -> std::string {
    Child c(w);
    c.start();
    auto on = Reg::Toolchain(ArgToolchainState(true, true));
    c.build(on, 0);
    if (what != 0)
      c.build(on, 1);
    auto &t0 = static_cast<buildcc::Target &>(*c.obj[0]);
    switch (what) {
    case 0:
      on.Dep(*c.obj[0], *c.obj[1]);
      break;
    case 1:
      c.build(on, 1);
      break;
    case 2:
      on.Dep(*c.obj[0], *c.obj[1]);
      on.Dep(*c.obj[0], *c.obj[1]);
      break;
    case 3:
      on.Dep(*c.obj[0], *c.obj[1]);
      on.Dep(*c.obj[1], *c.obj[0]);
      break;
    case 4:
      on.Dep(*c.obj[0], *c.obj[0]);
      break;
    case 5:
      on.Test("x", t0);
      on.Test("x", t0);
      break;
    default:
      on.Dep(*c.obj[2], *c.obj[0]);
      break;
    }
    Reg::Run();
    return "";
  });
  ctx.check(!r.returned && r.exited && r.code != 0 && !r.timeout, "a build program with an invalid registration " + why(r));
  ctx.check(events().empty(), "a build program with an invalid registration built something");
  ctx.nontrivial();
}

// ------------------------------------------------------------------ R03 ----
void r03(Src &s, Ctx &ctx) {
  World w = gen_world(s, ctx, ctx.thorough ? 12 : 8);
  std::vector<int> how;
  for (size_t i = 0; i < w.bs.size(); i++)
    how.push_back((int)s.draw(2));
  auto edges = shuffled(s, w.deps);
  size_t nf = 1 + s.draw(2);
  std::set<int> failing;
  for (size_t k = 0; k < nf; k++) {
    Span sp(s);
    int i = (int)s.draw(w.bs.size());
    Builder &b = w.bs[i];
    if (b.how != F_NONE)
      continue;
    b.fail = (int)s.draw(b.steps);
    if (b.kind == CUSTOM) {
      static const std::vector<FailHow> h{F_FALSE, F_THROW, F_THROW_INT, F_MISSING};
      b.how = s.pick(h);
    } else if (b.kind == TEMPLATE)
      b.how = F_MISSING;
    else if (b.kind == FILEGEN)
      b.how = s.chance(1, 4) ? F_MISSING : F_CMD;
    else {
      b.how = F_CMD;
      size_t where = s.weighted({4, 2, 2, 1});
      if (where == 1)
        b.fail = b.steps;
      else if (where == 2 && b.pch)
        b.fail = -2;
      else if (where == 3)
        b.how = F_MISSING;
    }
    failing.insert(i);
  }
  bool with_test = s.coin();
  describe(ctx, w);
  auto go = [&](bool faults) {
    new_log();
    return run_forked([&, faults]() -> std::string {
      Child c(w);
      c.faults = faults;
      c.start();
      c.on_test = [](const std::string &cmd, const std::string &, const stub::Reader &, const stub::Reader &) {
        log('T', cmd);
        return 0;
      };
      register_all(s, c, w, how, edges);
      if (with_test)
        for (size_t i = 0; i < w.bs.size(); i++)
          if (w.bs[i].is_target())
            Reg::Toolchain(ArgToolchainState(true, true)).Test("TESTCMD", static_cast<buildcc::Target &>(*c.obj[i]));
      Reg::Run([] { log('P', "post"); });
      return "";
    });
  };
  auto r = go(true);
  ctx.check(!r.timeout && !r.signal, "a failing build " + why(r));
  ctx.check(!r.returned && r.exited && r.code != 0, "a failing build " + why(r) + " instead of failing");
  auto ev = events();
  auto sp = judge_steps(ctx, ev);
  judge_order(ctx, w, sp);
  for (auto &e : ev) {
    ctx.check(e.kind != 'P', "the post build callback ran after a failed build");
    ctx.check(e.kind != 'T', "a test ran after a failed build");
  }
  bool someone = false, blocked = false;
  for (int f : failing) {
    for (auto &st : w.bs[f].all_steps())
      someone |= sp.failed.count(st) != 0;
    someone |= w.bs[f].how == F_MISSING;
    for (int t : w.above(f))
      for (auto &st : w.bs[t].all_steps()) {
        blocked = true;
        ctx.check(!sp.start.count(st), "step " + st + " ran although " + w.bs[f].name + ", which it depends on, failed");
      }
    auto &b = w.bs[f];
    if (b.is_target()) {
      ctx.check(!sp.start.count(b.name + ":link") || b.fail == b.steps, b.name + " was linked although a step failed");
      if (b.fail == -2)
        for (int i = 0; i < b.steps; i++)
          ctx.check(!sp.start.count(b.name + ":" + std::to_string(i)), b.name + " compiled without its precompiled header");
    }
    if (b.kind == FILEGEN && b.how == F_CMD)
      for (int i = b.fail + 1; i < b.steps; i++)
        ctx.check(!sp.start.count(b.name + ":" + std::to_string(i)), "a command of " + b.name + " ran after one failed");
  }
  ctx.check(someone, "the build failed although no step failed");
  // and recovers
  auto done = sp.end;
  for (auto &f : sp.failed)
    done.erase(f);
  r = go(false);
  ctx.check(r.returned, "the build after the failures are repaired " + why(r));
  ev = events();
  auto sp2 = judge_steps(ctx, ev);
  for (size_t i = 0; i < w.bs.size(); i++)
    for (auto &st : w.bs[i].all_steps())
      ctx.check(sp2.end.count(st) || done.count(st), "step " + st + " has not run in either build");
  size_t posts = 0, tests = 0, targets = 0;
  for (auto &e : ev)
    posts += e.kind == 'P', tests += e.kind == 'T';
  for (auto &b : w.bs)
    targets += b.is_target();
  ctx.equal(posts, (size_t)1, "post build callbacks");
  ctx.equal(tests, with_test ? targets : 0, "tests run");
  if (blocked)
    ctx.nontrivial();
}

// ------------------------------------------------------------------ R04 ----
struct TestSpec {
  int builder;
  int state;                                // index of the toolchain state it is registered with
  std::string command;                      // pattern
  std::vector<std::pair<int, std::string>> args; // k<i> -> value
  int cwd{0};                               // 0 none, 1 dir
  int type{0};
  bool uout{false}, uerr{false};
  bool fail{false};
  int delay{0};
  std::string out, err; // what the test program prints
};
const char *const kArgNames[] = {"k0", "k1", "k2"};

void r04(Src &s, Ctx &ctx) {
  World w;
  w.root = ctx.dir / (s.coin() ? "p p" : "p");
  w.bdir = ctx.dir / (s.coin() ? "b b" : "b");
  fs::create_directories(w.root);
  fs::create_directories(ctx.dir / "cw d");
  static const std::vector<unsigned> cp{8, 1, 2, 3};
  w.cpus = s.pick(cp);
  int n = 1 + (int)s.some(6, 20);
  std::vector<std::pair<bool, bool>> states;
  for (size_t i = 0, m = 1 + s.draw(3); i < m; i++) {
    Span sp(s);
    static const std::vector<std::pair<bool, bool>> all{{true, true}, {true, false}, {false, true}, {false, false}};
    states.push_back(all[s.weighted({5, 2, 2, 1})]);
  }
  std::vector<int> st_of, funcs;
  std::vector<bool> via_pkg;
  std::vector<TestSpec> tests;
  for (int i = 0; i < n; i++) {
    Span sp(s);
    Builder b = gen_builder(s, i);
    if (s.coin())
      b.kind = EXE;
    for (auto &d : b.delay)
      d = d > 1000 ? 1000 : d;
    w.bs.push_back(b);
    st_of.push_back((int)s.draw(states.size()));
    via_pkg.push_back(s.chance(1, 3));
  }
  for (int i = 0; i < n; i++) {
    if (!w.bs[i].is_target() || s.chance(1, 4))
      continue;
    Span sp(s);
    TestSpec t;
    t.builder = i;
    t.state = st_of[i];
    // a test through another gate, as long as the target is built
    if (states[st_of[i]].first && s.chance(1, 4))
      t.state = (int)s.draw(states.size());
    static const Strs pats{"{executable}", "{executable} --run {k0}", "run {k1} {executable} {k0}{k2}", "{{x}} {executable}",
                           "nothing", "env run {executable} x"};
    t.command = s.pick(pats);
    static const Strs vals{"v", "a b", "", "{executable}", "-x=1", "\"q\""};
    bool unused = t.command.find("{k") == std::string::npos && s.coin(); // then none are needed
    for (int k = 0; k < 3 && !unused; k++)
      t.args.push_back({k, s.pick(vals)});
    t.cwd = (int)s.draw(2);
    t.type = (int)s.draw(5);
    t.uout = s.coin();
    t.uerr = s.coin();
    t.fail = s.chance(1, 6);
    static const std::vector<int> d{0, 0, 500, 2000};
    t.delay = s.pick(d);
    static const Strs outs{"", "ok\n", "two\nlines\n", "{0} % {}"};
    t.out = s.pick(outs);
    t.err = s.pick(outs);
    tests.push_back(t);
  }
  for (size_t k = 0, m = s.draw(4); k < m; k++)
    funcs.push_back((int)s.draw(2 * states.size() + 2));
  // dependencies between built builders only
  auto built = [&](int i) { return states[st_of[i]].first; };
  for (size_t k = 0, m = s.draw(2 * n); k < m; k++) {
    Span sp(s);
    int a = (int)s.draw(n), b = (int)s.draw(n);
    if (a < b)
      w.deps.insert({b, a});
  }
  for (size_t i = 0; i < states.size(); i++)
    ctx.note("toolchain " + std::to_string(i) + ": build " + Ctx::show(states[i].first) + " test " + Ctx::show(states[i].second));
  describe(ctx, w);
  for (int i = 0; i < n; i++)
    ctx.note(w.bs[i].name + " registered with toolchain " + std::to_string(st_of[i]));
  for (auto &t : tests)
    ctx.note("test of " + w.bs[t.builder].name + " with toolchain " + std::to_string(t.state) + " pattern " + t.command +
             (t.fail ? " fails" : "") + " output type " + std::to_string(t.type));

  // the model
  auto gate = [&](int i) { return states[i].first && states[i].second; };
  bool any_fail = false;
  new_log();
  fs::path cwd = ctx.dir / "cw d";
  struct Pkg {
    std::function<void(const ArgToolchainState &)> f;
    void Setup(const ArgToolchainState &st) { f(st); }
  };
  auto r = run_forked([&]() -> std::string {
    Child c(w);
    c.start();
    std::mutex m;
    // the stand-in test program is found by the marker in its arguments
    std::vector<std::vector<std::string>> uo(tests.size()), ue(tests.size());
    c.on_test = [&](const std::string &cmd, const std::string &dir, const stub::Reader &o, const stub::Reader &e) {
      size_t idx = tests.size();
      auto p = cmd.rfind(" #");
      if (p != std::string::npos)
        idx = (size_t)atoi(cmd.c_str() + p + 2);
      if (idx >= tests.size()) {
        log('?', cmd);
        return 0;
      }
      auto &t = tests[idx];
      log('S', "test" + std::to_string(idx));
      log('C', cmd + " @" + dir + (o ? " out" : "") + (e ? " err" : ""));
      c.nap(t.delay);
      if (o && !t.out.empty())
        o(t.out.data(), t.out.size());
      if (e && !t.err.empty())
        e(t.err.data(), t.err.size());
      log(t.fail ? 'F' : 'E', "test" + std::to_string(idx));
      return t.fail ? 3 : 0;
    };
    for (int f : funcs) {
      auto cb = [](int a, const std::string &b) { log('N', std::to_string(a) + b); };
      if (f < (int)(2 * states.size()))
        Reg::Toolchain(ArgToolchainState(states[f / 2].first, states[f / 2].second)).Func(cb, f, "t");
      else
        Reg::Call(f % 2 == 0).Func(cb, f, "c");
    }
    for (int i = 0; i < n; i++) {
      auto st = states[st_of[i]];
      ArgToolchainState state(st.first, st.second);
      if (via_pkg[i]) {
        Pkg pkg;
        pkg.f = [&](const ArgToolchainState &got) {
          log('G', std::to_string(i) + (got.build ? "b" : "-") + (got.test ? "t" : "-"));
          c.build(Reg::Toolchain(got), i);
        };
        Reg::Toolchain(state).BuildPackage(pkg);
      } else
        c.build(Reg::Toolchain(state), i);
    }
    for (auto &[t, d] : w.deps)
      Reg::Toolchain(ArgToolchainState(built(t) && built(d), false)).Dep(*c.obj[t], *c.obj[d]);
    for (size_t k = 0; k < tests.size(); k++) {
      auto &t = tests[k];
      std::unordered_map<const char *, std::string> args;
      for (auto &[i, v] : t.args)
        args.insert({kArgNames[i], v});
      buildcc::env::optional<fs::path> dir;
      if (t.cwd)
        dir = cwd;
      TestOutput out((TestOutput::Type)t.type, t.uout ? &uo[k] : nullptr, t.uerr ? &ue[k] : nullptr);
      Reg::Toolchain(ArgToolchainState(states[t.state].first, states[t.state].second))
          .Test(t.command + " #" + std::to_string(k), static_cast<buildcc::Target &>(*c.obj[t.builder]),
                TestConfig(args, dir, out));
    }
    for (int i = 0; i < n; i++)
      if (w.bs[i].is_target())
        log('X', std::to_string(i) + " " + static_cast<buildcc::Target &>(*c.obj[i]).GetTargetPath().string());
    Reg::Run([] { log('P', "post"); });
    auto cat = [](const std::vector<std::string> &v) {
      std::string x;
      for (auto &p : v)
        x += p;
      return x;
    };
    for (size_t k = 0; k < tests.size(); k++)
      log('U', std::to_string(k) + "|" + cat(uo[k]) + "|" + cat(ue[k]));
    return "";
  });
  auto ev = events();
  std::map<int, std::string> exe;
  Strs fns, wantfns, pk, wantpk;
  std::map<int, std::string> user;
  int post = -1, pos = 0;
  for (auto &e : ev) {
    pos++;
    if (e.kind == 'X')
      exe[atoi(e.what.c_str())] = e.what.substr(e.what.find(' ') + 1);
    if (e.kind == 'N')
      fns.push_back(e.what);
    if (e.kind == 'G')
      pk.push_back(e.what);
    if (e.kind == 'P') {
      ctx.check(post < 0, "the post build callback ran twice");
      post = pos;
    }
    if (e.kind == 'U')
      user[atoi(e.what.c_str())] = e.what.substr(e.what.find('|'));
  }
  std::multiset<std::string> gotcmds, wantcmds;
  for (auto &e : ev)
    if (e.kind == 'C')
      gotcmds.insert(e.what);
  auto sp = judge_steps(ctx, ev);
  for (int f : funcs) {
    if (f < (int)(2 * states.size())) {
      if (states[f / 2].first)
        wantfns.push_back(std::to_string(f) + "t");
    } else if (f % 2 == 0)
      wantfns.push_back(std::to_string(f) + "c");
  }
  ctx.equal(fns, wantfns, "callbacks run by Func");
  for (int i = 0; i < n; i++)
    if (via_pkg[i] && built(i))
      wantpk.push_back(std::to_string(i) + "b" + (states[st_of[i]].second ? "t" : "-"));
  ctx.equal(pk, wantpk, "packages set up");
  World open = w; // order among what is built
  for (auto it = open.deps.begin(); it != open.deps.end();)
    it = built(it->first) && built(it->second) ? std::next(it) : open.deps.erase(it);
  judge_order(ctx, open, sp);
  int last_build = 0, ran = 0;
  for (int i = 0; i < n; i++)
    for (auto &st : w.bs[i].all_steps()) {
      ctx.equal(sp.end.count(st) != 0, built(i), "step " + st + " ran");
      if (sp.end.count(st))
        last_build = std::max(last_build, sp.end[st]);
    }
  ctx.check(post > last_build, "the post build callback ran before the builds ended");
  for (size_t k = 0; k < tests.size(); k++) {
    auto &t = tests[k];
    std::string id = "test" + std::to_string(k);
    bool on = gate(t.state);
    ctx.equal(sp.start.count(id) != 0, on, "test of " + w.bs[t.builder].name + " ran");
    if (!on)
      continue;
    ran++;
    any_fail |= t.fail;
    ctx.check(sp.start[id] > post && sp.end.count(id), "a test ran before the builds and the post build callback ended");
    std::string e = exe[t.builder], cmd = t.command;
    if (e.find(' ') != std::string::npos)
      e = "\"" + e + "\"";
    std::string x;
    for (size_t i = 0; i < cmd.size();) {
      if (cmd.compare(i, 2, "{{") == 0 || cmd.compare(i, 2, "}}") == 0) {
        x += cmd[i];
        i += 2;
      } else if (cmd[i] == '{') {
        auto q = cmd.find('}', i);
        std::string key = cmd.substr(i + 1, q - i - 1);
        x += key == "executable" ? e : t.args[key[1] - '0'].second;
        i = q + 1;
      } else
        x += cmd[i++];
    }
    // what is captured depends on the output type only
    using Ty = TestOutput::Type;
    bool co = t.type == (int)Ty::TestPrintOnStdout || t.type == (int)Ty::TestPrintOnStderrAndStdout ||
              (t.type == (int)Ty::UserRedirect && t.uout);
    bool ce = t.type == (int)Ty::TestPrintOnStderr || t.type == (int)Ty::TestPrintOnStderrAndStdout ||
              (t.type == (int)Ty::UserRedirect && t.uerr);
    wantcmds.insert(x + " #" + std::to_string(k) + " @" + (t.cwd ? cwd.string() : "") + (co ? " out" : "") + (ce ? " err" : ""));
    if (r.returned && t.type == (int)TestOutput::Type::UserRedirect)
      ctx.equal(user[(int)k], "|" + (t.uout ? t.out : "") + "|" + (t.uerr ? t.err : ""), "output handed to the user by " + id);
  }
  ctx.equal(gotcmds, wantcmds, "test commands");
  if (any_fail)
    ctx.check(!r.returned && r.exited && r.code != 0, "a run with a failing test " + why(r) + " instead of failing");
  else
    ctx.check(r.returned, "a run in which everything succeeds " + why(r));
  if (ran)
    ctx.nontrivial();
  if (any_fail)
    ctx.label("failing test");
}

Register r1([] {
  Property p;
  p.id = "R01";
  p.rule = "at least one dependency between two builders";
  p.run = r01;
  p.mode = Mode::kMain;
  p.racy = true;
  p.quick_cases = 2500;
  p.quick_seconds = 60;
  return p;
}());
Register r2([] {
  Property p;
  p.id = "R02";
  p.rule = "at least one registration that has to be rejected";
  p.run = r02_main;
  p.mode = Mode::kMain;
  p.quick_cases = 3000;
  p.quick_seconds = 60;
  p.case_timeout_s = 20;
  return p;
}());
Register r3([] {
  Property p;
  p.id = "R03";
  p.rule = "a builder depends on one that fails";
  p.run = r03;
  p.mode = Mode::kMain;
  p.racy = true;
  p.quick_cases = 2500;
  p.quick_seconds = 60;
  return p;
}());
Register r4([] {
  Property p;
  p.id = "R04";
  p.rule = "at least one test is run";
  p.run = r04;
  p.mode = Mode::kMain;
  p.racy = true;
  p.quick_cases = 2500;
  p.quick_seconds = 60;
  return p;
}());
} // namespace
