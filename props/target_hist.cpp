// B01..B05: histories of edits, builds, faults, crashes and concurrent edits
// over a generated project, checked against "what building from scratch would
// give" (freshness) and against the set of commands that were really run.
#include "target_world.hpp"

using namespace tw;

namespace {

std::string bin_of(const World &w, const Tgt &t) {
  return (w.bdir / "tc" / t.name / (t.name + ".bin")).string();
}

std::string edits(World &w, Src &s, size_t max, bool config = true) {
  size_t n = s.draw(max + 1);
  std::string d;
  for (size_t i = 0; i < n; i++)
    d += (i ? "; " : "") + w.gen_edit(s, config).what;
  return d;
}

// ---------------------------------------------------------------- B01 ------
void b01(Src &s, Ctx &ctx) {
  World w(ctx);
  w.gen_project(s, 3);
  size_t steps = 2 + s.draw(ctx.thorough ? 10 : 6);
  size_t effective = 0;
  bool ran = false, skipped = false;
  for (size_t i = 0; i < steps; i++) {
    Span sp(s);
    std::string d = i ? edits(w, s, 3) : "";
    unsigned k = w.gen_workers(s);
    ctx.note("edits: " + (d.empty() ? "none" : d));
    bool ok = w.build(k);
    ctx.note("  build(" + std::to_string(k) + " workers):" + w.exec_str());
    ctx.check(ok, "build of a correct project reported failure");
    w.check_fresh("after build " + std::to_string(i));
    if (i && !d.empty()) {
      effective++;
      size_t all = 0;
      for (auto &t : w.tgts)
        all += t.sources.size() + 1 + !t.pchs.empty();
      ran |= !w.execs.empty();
      skipped |= w.execs.size() < all;
    }
  }
  ctx.count("builds", steps);
  if (effective >= 1 && ran && skipped)
    ctx.nontrivial();
}
Register r01({"B01",
              "at least one edit followed by a successful build that ran some commands, and some build "
              "that skipped work",
              b01, Mode::kThread, 10000, 60, 400000, 420, 8, 60, false,
              {"the compiler, archiver and linker are deterministic functions of their command line and "
               "declared input files",
               "every edit changes the file's modification time (nanosecond resolution)"},
              {}});

// ---------------------------------------------------------------- B02 ------
void b02(Src &s, Ctx &ctx) {
  World w(ctx);
  w.gen_project(s, 3);
  std::map<std::string, World::Snap> last;
  std::map<std::string, std::string> record;
  size_t steps = 2 + s.draw(ctx.thorough ? 10 : 6);
  bool saw_noop = false, saw_partial = false;
  for (size_t i = 0; i < steps; i++) {
    Span sp(s);
    std::string d;
    if (i) {
      // mostly single edits: the interesting claim is about what is not redone
      if (s.chance(3, 4)) {
        bool cfg = s.coin();
        d = w.gen_edit(s, cfg).what;
      } else
        d = edits(w, s, 2);
    }
    unsigned k = w.gen_workers(s);
    ctx.note("edits: " + (d.empty() ? "none" : d));
    std::map<std::string, World::Snap> now;
    for (auto &t : w.tgts)
      now[t.name] = w.snapshot(t);
    bool ok = w.build(k);
    ctx.note("  build(" + std::to_string(k) + " workers):" + w.exec_str());
    ctx.check(ok, "build of a correct project reported failure");
    bool any_prev = !last.empty();
    for (size_t ti = 0; ti < w.tgts.size(); ti++) {
      auto &t = w.tgts[ti];
      std::multiset<std::string> cc;
      unsigned pc = 0, ld = 0;
      for (auto &e : w.execs)
        if (e.step.target == t.name) {
          if (e.step.kind == "CC")
            cc.insert(w.files[(size_t)e.step.src].rel);
          else if (e.step.kind == "PC")
            pc++;
          else
            ld++;
        }
      for (auto &c : cc)
        ctx.check(cc.count(c) == 1, t.name + ": " + c + " compiled more than once in one build");
      ctx.check(pc <= 1 && ld <= 1, t.name + ": a step ran more than once in one build");
      if (any_prev) {
        const auto &o = last[t.name];
        const auto &n = now[t.name];
        bool lib_relinked = false;
        for (int l : t.libs)
          lib_relinked |= w.count({"LD", w.tgts[(size_t)l].name, -1}) > 0;
        if (n.same_compile_inputs(o)) {
          std::multiset<std::string> want;
          bool removed = false;
          for (auto &[f, tick] : n.sources)
            if (!o.sources.count(f) || o.sources.at(f) != tick)
              want.insert(w.files[(size_t)f].rel);
          for (auto &[f, tick] : o.sources)
            removed |= !n.sources.count(f);
          ctx.equal(cc, want, t.name + ": compiled sources differ from the changed/added ones");
          ctx.equal(pc, 0u, t.name + ": precompiled header rebuilt although nothing it reads changed");
          bool relink = !want.empty() || removed || !n.same_link_inputs(o) || lib_relinked;
          ctx.equal(ld, relink ? 1u : 0u,
                    t.name + (relink ? ": not relinked" : ": relinked although nothing it links changed"));
          if (!relink) {
            saw_noop = true;
            ctx.equal(read_file(bin_of(w, t)), record[t.name],
                      t.name + ": build record rewritten by a build with nothing to do");
          } else if (want.size() < n.sources.size())
            saw_partial = true;
          ctx.count(relink ? "target partially rebuilt" : "target untouched");
        } else
          ctx.count("target fully recompiled");
      }
      record[t.name] = read_file(bin_of(w, t));
    }
    last = now;
  }
  if (saw_noop || saw_partial)
    ctx.nontrivial();
}
Register r02({"B02",
              "some target was left untouched, or rebuilt only partially, by a build after the first one",
              b02, Mode::kThread, 10000, 60, 400000, 420, 8, 60, false,
              {"library outputs get a new modification time whenever they are linked again"},
              {}});

// ---------------------------------------------------------------- B03 ------
struct Tracker {
  World &w;
  std::map<std::string, std::set<int>> done; // compiled and recorded, nothing changed since
  std::set<Step> failed;
  explicit Tracker(World &w) : w(w) {}

  std::set<std::string> dependents(const std::set<std::string> &bad) const {
    std::set<std::string> r;
    for (auto &t : w.tgts) // libs refer to earlier targets only
      for (int l : t.libs) {
        const std::string &n = w.tgts[(size_t)l].name;
        if (bad.count(n) || r.count(n))
          r.insert(t.name);
      }
    return r;
  }
};

void b03(Src &s, Ctx &ctx) {
  World w(ctx);
  w.gen_project(s, 3);
  Tracker tr(w);
  size_t steps = 2 + s.draw(ctx.thorough ? 8 : 5);
  bool was_failed = false, recovered = false;
  for (size_t i = 0; i < steps; i++) {
    Span sp(s);
    std::string d;
    // after a failure, often build again without touching anything
    if (i && !(was_failed && s.coin())) {
      d = edits(w, s, 2);
      if (!d.empty())
        tr.done.clear();
    }
    w.faults.clear();
    int missing = -1;
    int blocked = -1;
    std::string saved;
    if (s.chance(3, 5)) {
      size_t kind = s.weighted({6, 2, 1});
      if (kind == 0) {
        size_t nf = 1 + s.draw(3);
        for (size_t j = 0; j < nf; j++) {
          Fault f{w.gen_step(s), (int)s.pick(std::vector<int>{1, 2, 127, 139, 255}), (int)s.draw(3)};
          w.faults.push_back(f);
          d += " [fault " + w.step_str(f.step) + " exit " + std::to_string(f.code) + " mode " +
               std::to_string(f.mode) + "]";
        }
      } else if (kind == 1) {
        missing = w.gen_file(s);
        w.remove((size_t)missing);
        tr.done.clear();
        d += " [missing " + w.files[(size_t)missing].rel + "]";
      } else {
        blocked = (int)s.draw(w.tgts.size());
        std::string b = bin_of(w, w.tgts[(size_t)blocked]);
        if (fs::exists(b) && !fs::is_directory(b))
          fs::remove(b);
        fs::create_directories(b);
        tr.done.clear();
        tr.failed.clear();
        d += " [record of " + w.tgts[(size_t)blocked].name + " not writable]";
      }
    }
    unsigned k = w.gen_workers(s);
    ctx.note("edits: " + (d.empty() ? "none" : d));
    bool ok = w.build(k);
    ctx.note("  build(" + std::to_string(k) + " workers):" + w.exec_str() + (ok ? " => ok" : " => FAILED"));

    bool any_failed = false;
    std::set<std::string> bad;
    std::map<std::string, std::set<std::string>> kinds_failed;
    for (auto &e : w.execs)
      if (!e.ok) {
        any_failed = true;
        bad.insert(e.step.target);
        kinds_failed[e.step.target].insert(e.step.kind);
      }
    bool expect_fail = any_failed || missing >= 0 || blocked >= 0;
    ctx.equal(ok, !expect_fail,
              expect_fail ? "a step failed but the build was reported as successful"
                          : "nothing failed but the build was reported as failed");
    for (auto &[t, ks] : kinds_failed) {
      bool cc = false, ld = false;
      for (auto &e : w.execs)
        if (e.step.target == t) {
          cc |= e.step.kind == "CC";
          ld |= e.step.kind == "LD";
        }
      if (ks.count("CC"))
        ctx.check(!ld, t + " was linked although a compile step failed");
      if (ks.count("PC"))
        ctx.check(!cc && !ld, t + " was compiled or linked although its precompiled header failed");
    }
    auto deps = tr.dependents(bad);
    for (auto &e : w.execs)
      ctx.check(!deps.count(e.step.target),
                "command of " + e.step.target + " ran although a target it depends on failed");
    // what finished earlier is not lost, what failed is done again
    for (auto &e : w.execs)
      if (e.step.kind == "CC")
        ctx.check(!tr.done[e.step.target].count(e.step.src),
                  w.step_str(e.step) + " had finished before the failure but was run again");
    if (ok) {
      for (auto &f : tr.failed) {
        const Tgt *t = nullptr;
        for (auto &x : w.tgts)
          if (x.name == f.target)
            t = &x;
        bool still = f.kind == "LD" || (f.kind == "PC" && !t->pchs.empty()) ||
                     (f.kind == "CC" &&
                      std::find(t->sources.begin(), t->sources.end(), f.src) != t->sources.end());
        if (still)
          ctx.check(w.count(f) == 1, "failed step " + w.step_str(f) + " was not run again");
      }
      w.check_fresh("after build " + std::to_string(i));
      recovered |= was_failed && !tr.failed.empty();
      tr.failed.clear();
      tr.done.clear();
      was_failed = false;
    } else {
      was_failed = true;
      for (auto &t : w.tgts) {
        bool pc_ran = false, pc_bad = false, cc_ran = false;
        std::set<int> cc_ok;
        for (auto &e : w.execs)
          if (e.step.target == t.name) {
            if (e.step.kind == "PC") {
              pc_ran = true;
              pc_bad |= !e.ok;
            }
            if (e.step.kind == "CC") {
              cc_ran = true;
              if (e.ok) {
                cc_ok.insert(e.step.src);
                tr.failed.erase(e.step);
              }
            }
            if (e.ok)
              tr.failed.erase(e.step);
            else
              tr.failed.insert(e.step);
          }
        auto &dn = tr.done[t.name];
        if (pc_bad || (pc_ran && !cc_ran))
          dn.clear();
        dn.insert(cc_ok.begin(), cc_ok.end());
      }
      if (blocked >= 0) {
        tr.done.clear();
        tr.failed.clear();
      }
      for (auto &[k2, v] : kinds_failed)
        for (auto &x : v)
          ctx.label("failed " + x);
    }
    if (missing >= 0) {
      ctx.label("missing input");
      tr.done.clear();
      w.write((size_t)missing, true);
    }
    if (blocked >= 0) {
      ctx.label("record not writable");
      fs::remove_all(bin_of(w, w.tgts[(size_t)blocked]));
    }
  }
  // always end with a clean build
  w.faults.clear();
  bool ok = w.build(2);
  ctx.note("final build:" + w.exec_str());
  ctx.check(ok, "build without faults reported failure");
  for (auto &f : tr.failed)
    if (was_failed) {
      const Tgt &t = w.tgt(f.target);
      bool still = f.kind == "LD" || (f.kind == "PC" && !t.pchs.empty()) ||
                   (f.kind == "CC" &&
                    std::find(t.sources.begin(), t.sources.end(), f.src) != t.sources.end());
      if (still)
        ctx.check(w.count(f) == 1, "failed step " + w.step_str(f) + " was not run again");
    }
  w.check_fresh("after the final build");
  recovered |= was_failed && !tr.failed.empty();
  if (recovered)
    ctx.nontrivial();
}
Register r03({"B03",
              "at least one command failed in a build and a later build recovered from it", b03,
              Mode::kThread, 10000, 60, 400000, 420, 8, 60, false,
              {"a failing tool reports failure by a non-zero exit status"},
              {}});

// ---------------------------------------------------------------- B04 ------
void b04(Src &s, Ctx &ctx) {
  World w(ctx);
  w.gen_project(s, 2);
  size_t steps = 2 + s.draw(ctx.thorough ? 7 : 4);
  bool crashed = false, damaged = false, hit = false;
  std::vector<Tgt> before;
  for (size_t i = 0; i < steps; i++) {
    Span sp(s);
    std::string d;
    if (i) {
      if (crashed && !before.empty() && s.chance(1, 3)) {
        w.tgts = before; // the user reverts the configuration change
        d = "revert configuration";
        ctx.label("revert");
      } else {
        before = w.tgts;
        d = edits(w, s, 2);
      }
    }
    crashed = false;
    ctx.note("edits: " + (d.empty() ? "none" : d));
    size_t kind = i ? s.weighted({3, 4, 2}) : s.weighted({5, 2, 0});
    if (kind == 1) { // the build script is killed in the middle of a build
      w.crash_at = (int)s.draw(6);
      w.crash_phase = (int)s.draw(3);
      unsigned k = w.gen_workers(s);
      auto r = run_forked([&]() {
        w.build(k);
        return std::string("done") + w.exec_str();
      });
      w.hi += 10000;
      bool c = r.exited && r.code == 99;
      if (!c && !r.returned)
        ctx.fail("build died: exit=" + std::to_string(r.code) + " signal=" + std::to_string(r.signal) +
                 "\n" + r.err);
      ctx.note("  build killed at command " + std::to_string(w.crash_at) + " phase " +
               std::to_string(w.crash_phase) + (c ? "" : " (finished before)"));
      w.crash_at = -1;
      crashed = c;
      hit |= c;
      if (c)
        ctx.label("killed phase " + std::to_string(w.crash_phase));
      continue;
    }
    if (kind == 2) { // torn or corrupted record
      auto &t = w.tgts[s.draw(w.tgts.size())];
      std::string b = bin_of(w, t);
      if (fs::exists(b)) {
        std::string c = read_file(b);
        std::string what;
        switch (s.draw(6)) {
        case 0:
          c = "";
          what = "emptied";
          break;
        case 1:
        case 2:
          c = c.substr(0, s.draw(c.size()));
          what = "truncated to " + std::to_string(c.size());
          break;
        case 3:
          c = std::string((size_t)(1 + s.draw(64)), '\0');
          what = "zeroed";
          break;
        case 4: {
          static const std::vector<std::string> junk{"null", "[]", "{}", "0", "\"x\"", "\xff\xfe", "{\"name\":1}",
                                                     "{\"sources\":{}}", "[[[[", "true"};
          c = s.pick(junk);
          what = "replaced by " + Ctx::show(c);
          break;
        }
        default: {
          // one key renamed: a record of another format
          std::vector<size_t> keys;
          for (size_t p = 0; (p = c.find("\": ", p)) != std::string::npos; p++)
            keys.push_back(p);
          if (!keys.empty()) {
            size_t p = keys[s.draw(keys.size())];
            c[p - 1] = '~';
          }
          what = "key renamed";
        }
        }
        write_file(b, c);
        ctx.note("  record of " + t.name + " " + what);
        ctx.label("damaged record");
        damaged = true;
      }
    }
    unsigned k = w.gen_workers(s);
    bool ok = w.build(k);
    ctx.note("  build:" + w.exec_str());
    ctx.check(ok, "build of a correct project reported failure");
    w.check_fresh("after build " + std::to_string(i));
  }
  bool ok = w.build(2);
  ctx.note("final build:" + w.exec_str());
  ctx.check(ok, "build of a correct project reported failure");
  w.check_fresh("after the final build");
  if (hit || damaged)
    ctx.nontrivial();
}
Register r04({"B04", "a build was really killed in the middle, or a record was damaged, and a later build ran",
              b04, Mode::kThread, 10000, 60, 200000, 420, 8, 60, false,
              {"a kill happens at a command boundary or in the middle of a tool writing its output; record "
               "damage is truncation, zeroing or replacement by other data, not a forged valid record"},
              {}});

// ---------------------------------------------------------------- B05 ------
void b05(Src &s, Ctx &ctx) {
  World w(ctx);
  // an edit during a build that is undone to the very same timestamp cannot be
  // seen by any tool that decides by timestamps
  w.allow_restore = false;
  w.gen_project(s, 3);
  size_t steps = 2 + s.draw(ctx.thorough ? 8 : 5);
  bool fired = false;
  for (size_t i = 0; i < steps; i++) {
    Span sp(s);
    std::string d = i ? edits(w, s, 2) : "";
    w.mids.clear();
    size_t n = 1 + s.draw(2);
    for (size_t j = 0; j < n; j++) {
      MidEdit m{w.gen_step(s), w.gen_file(s), s.coin()};
      w.mids.push_back(m);
      d += " [during " + w.step_str(m.step) + (m.before ? " before" : " after") + " it reads: edit " +
           w.files[(size_t)m.file].rel + "]";
    }
    unsigned k = w.gen_workers(s);
    bool ok = w.build(k);
    ctx.note("edits: " + (d.empty() ? "none" : d));
    ctx.note("  build:" + w.exec_str());
    ctx.check(ok, "build of a correct project reported failure");
    bool f = false;
    for (auto &m : w.mids)
      f |= m.fired;
    fired |= f;
    if (f && s.chance(2, 3)) {
      w.mids.clear();
      ok = w.build(w.gen_workers(s));
      ctx.note("  quiet build:" + w.exec_str());
      ctx.check(ok, "build of a correct project reported failure");
      w.check_fresh("after the build following an edit made during a build");
    }
  }
  w.mids.clear();
  bool ok = w.build(2);
  ctx.note("final build:" + w.exec_str());
  ctx.check(ok, "build of a correct project reported failure");
  w.check_fresh("after the final build");
  if (fired)
    ctx.nontrivial();
}
Register r05({"B05", "an input file was edited while a command of the build was running", b05,
              Mode::kThread, 10000, 60, 400000, 420, 8, 60, false,
              {"edits become visible atomically, before or after a running command reads its inputs"},
              {}});

} // namespace
