// G01..G03: generators
#include "gen_world.hpp"

using namespace gw;

namespace {

std::string edits(World &w, Src &s, size_t max) {
  size_t n = s.draw(max + 1);
  std::string d;
  for (size_t i = 0; i < n; i++)
    d += (i ? "; " : "") + w.gen_edit(s);
  return d;
}
unsigned gen_workers(Src &s) {
  static const std::vector<unsigned> w{1, 2, 4};
  return s.pick(w);
}
std::string key(const Gen &g, const Id &id) { return g.name + "/" + id.name; }

// template outputs get a sentinel timestamp so that a rewrite is visible
void arm_templates(World &w) {
  for (auto &g : w.gens)
    if (g.kind == TEMPL)
      for (auto &id : g.ids)
        if (fs::exists(w.out(g, *id.outputs.begin())))
          w.set_tick(w.out(g, *id.outputs.begin()), 7);
}
bool ran(World &w, const Gen &g, const Id &id) {
  if (g.kind == TEMPL) {
    struct stat st;
    if (stat(w.out(g, *id.outputs.begin()).c_str(), &st))
      return false;
    return !(st.st_mtim.tv_sec == 1600000000 && st.st_mtim.tv_nsec == 7);
  }
  for (auto &e : w.execs)
    if (e.gen == g.name && (g.kind == FILEG || e.id == id.name))
      return true;
  return false;
}

// ---------------------------------------------------------------- G01 ------
void g01(Src &s, Ctx &ctx) {
  World w(ctx);
  w.gen_project(s, 3);
  std::map<std::string, World::Snap> rec;
  size_t steps = 2 + s.draw(ctx.thorough ? 10 : 6);
  bool some_run = false, some_skip = false;
  for (size_t i = 0; i < steps; i++) {
    Span sp(s);
    std::string d = i ? edits(w, s, 2) : "";
    unsigned k = gen_workers(s);
    std::map<std::string, std::string> records;
    for (auto &g : w.gens)
      records[g.name] = read_file(w.record(g));
    arm_templates(w);
    bool ok = w.build(k);
    ctx.note("edits: " + (d.empty() ? "none" : d));
    ctx.note("  build(" + std::to_string(k) + "):" + w.exec_str());
    ctx.check(ok, "generation without failures reported failure");
    w.check_fresh("after build " + std::to_string(i));
    std::map<std::string, World::Snap> now;
    for (size_t gi = 0; gi < w.gens.size(); gi++) {
      auto &g = w.gens[gi];
      bool any = false;
      for (auto &id : g.ids) {
        auto sn = w.snap(gi, id);
        auto it = rec.find(key(g, id));
        bool want = it == rec.end() || !(it->second == sn);
        // a file generator without commands leaves no trace of having run
        bool visible = g.kind != FILEG || !w.commands(g).empty();
        bool r = ran(w, g, id);
        if (visible)
          ctx.equal(r, want,
                    key(g, id) + (want ? ": not run although an input, output or user data changed"
                                       : ": run although no input, output or user data changed"));
        any |= want;
        if (i) {
          some_run |= r;
          some_skip |= !r;
        }
        now[key(g, id)] = sn;
      }
      for (auto &[kk, v] : rec)
        if (kk.rfind(g.name + "/", 0) == 0 && !now.count(kk))
          any = true; // removed id
      if (!any)
        ctx.equal(read_file(w.record(g)), records[g.name], g.name + ": record rewritten with nothing to do");
      std::map<std::string, unsigned> n;
      for (auto &e : w.execs)
        if (e.gen == g.name && g.kind != FILEG)
          ctx.check(++n[e.id] == 1, g.name + "/" + e.id + " ran twice in one build");
      if (g.kind == FILEG && ran(w, g, g.ids[0])) {
        std::vector<std::string> mine;
        for (auto &c : w.seq)
          if (c.find(std::string(1, SEP) + g.name + SEP) != std::string::npos)
            mine.push_back(c);
        ctx.equal(mine, w.commands(g), g.name + ": commands not run in the order they were added");
      }
    }
    rec = now;
  }
  ctx.count("builds", steps);
  if (some_run && some_skip)
    ctx.nontrivial();
}
Register r1({"G01", "after the first build some id ran again and some id was skipped", g01, Mode::kThread, 10000,
             60, 400000, 420, 8, 60, false,
             {"generator callbacks are deterministic functions of their inputs and user data",
              "every edit changes the file's modification time"},
             {}});

// ---------------------------------------------------------------- G02 ------
void g02(Src &s, Ctx &ctx) {
  World w(ctx);
  w.gen_project(s, 3);
  std::set<std::string> must_skip, failed;
  std::vector<Gen> before;
  bool hit = false, interrupted = false;
  size_t steps = 2 + s.draw(ctx.thorough ? 8 : 5);
  for (size_t i = 0; i < steps; i++) {
    Span sp(s);
    std::string d;
    if (i) {
      // (a configuration that was interrupted is often given up again)
      if (!before.empty() && s.chance(interrupted ? 3 : 1, 5)) {
        w.gens = before;
        d = "revert configuration";
        must_skip.clear();
      } else if (s.coin()) {
        before = w.gens;
        d = edits(w, s, 2);
        if (!d.empty())
          must_skip.clear();
      }
    }
    auto pick = [&](std::string &g, std::string &id) {
      auto &x = w.gens[s.draw(w.gens.size())];
      g = x.name;
      if (x.kind == FILEG)
        id = std::to_string(s.draw(x.ids[0].blob.size()));
      else
        id = x.ids[s.draw(x.ids.size())].name;
    };
    w.faults.clear();
    w.mids.clear();
    int blocked = -1, kind = (int)s.weighted({3, 4, 3, 3, 2, 1, 2, 1});
    int missing = -1;
    std::string blocked_out;
    switch (kind) {
    case 1: {
      size_t n = 1 + s.draw(2);
      for (size_t j = 0; j < n; j++) {
        Fault f;
        pick(f.gen, f.id);
        f.mode = (int)s.draw(5);
        w.faults.push_back(f);
        d += " [fault " + f.gen + "/" + f.id + " mode " + std::to_string(f.mode) + "]";
      }
      break;
    }
    case 2: {
      Mid m;
      pick(m.gen, m.id);
      m.file = (int)s.draw(4);
      m.before = s.coin();
      w.mids.push_back(m);
      d += " [during " + m.gen + "/" + m.id + (m.before ? " before" : " after") + " it reads: edit " +
           w.files[(size_t)m.file].rel + "]";
      break;
    }
    case 3: { // killed
      w.crash_at = (int)s.draw(5);
      w.crash_phase = (int)s.draw(3);
      unsigned k = gen_workers(s);
      auto r = run_forked([&]() {
        w.build(k);
        return std::string("done");
      });
      w.hi += 10000;
      bool c = r.exited && r.code == 99;
      if (!c && !r.returned)
        ctx.fail("build died: exit=" + std::to_string(r.code) + " signal=" + std::to_string(r.signal) + "\n" +
                 r.err);
      ctx.note("edits: " + (d.empty() ? "none" : d));
      ctx.note("  build killed at callback " + std::to_string(w.crash_at) + " phase " +
               std::to_string(w.crash_phase) + (c ? "" : " (finished before)"));
      if (c)
        ctx.label("killed");
      hit |= c;
      interrupted = c;
      w.crash_at = -1;
      must_skip.clear();
      failed.clear();
      continue;
    }
    case 4: { // damaged record
      auto &g = w.gens[s.draw(w.gens.size())];
      std::string p = w.record(g);
      if (fs::exists(p)) {
        std::string c = read_file(p);
        static const std::vector<std::string> junk{"", "null", "[]", "{}", "0", "\"x\"", "\xff", "{\"ids\":1}", "[["};
        if (s.coin())
          c = c.substr(0, s.draw(c.size()));
        else
          c = s.pick(junk);
        write_file(p, c);
        d += " [record of " + g.name + " damaged: " + std::to_string(c.size()) + " bytes]";
        ctx.label("damaged record");
        hit = true;
        must_skip.clear();
        failed.clear();
      }
      break;
    }
    case 5: {
      blocked = (int)s.draw(w.gens.size());
      std::string p = w.record(w.gens[(size_t)blocked]);
      if (fs::exists(p))
        fs::remove(p);
      fs::create_directories(p);
      d += " [record of " + w.gens[(size_t)blocked].name + " not writable]";
      must_skip.clear();
      failed.clear();
      break;
    }
    case 6: { // an input does not exist
      std::vector<int> used;
      for (auto &g : w.gens)
        for (auto &id : g.ids)
          used.insert(used.end(), id.inputs.begin(), id.inputs.end());
      if (!used.empty()) {
        missing = used[s.draw(used.size())];
        fs::remove(w.path((size_t)missing));
        d += " [missing " + w.files[(size_t)missing].rel + "]";
        must_skip.clear();
        ctx.label("missing input");
      }
      break;
    }
    case 7: // a template cannot be written
      for (auto &g : w.gens)
        if (g.kind == TEMPL) {
          fs::path o = w.out(g, *g.ids[s.draw(g.ids.size())].outputs.begin());
          blocked_out = o.string();
          fs::remove(o);
          fs::create_directories(o);
          fs::remove(w.record(g)); // it has to be generated
          d += " [" + o.filename().string() + " not writable]";
          must_skip.clear();
          failed.clear();
          ctx.label("template not writable");
        }
      break;
    default:
      break;
    }
    unsigned k = gen_workers(s);
    bool ok = w.build(k);
    ctx.note("edits: " + (d.empty() ? "none" : d));
    ctx.note("  build(" + std::to_string(k) + "):" + w.exec_str() + (ok ? " => ok" : " => FAILED"));
    bool any_failed = false;
    std::string first_bad;
    for (auto &e : w.execs)
      if (!e.ok) {
        any_failed = true;
        if (first_bad.empty())
          first_bad = e.gen;
      }
    interrupted = any_failed;
    ctx.equal(ok, !(any_failed || blocked >= 0 || missing >= 0 || !blocked_out.empty()),
              "reported result does not match what happened");
    if (any_failed) {
      ctx.label("failed callback");
      hit = true;
      for (auto &e : w.execs)
        ctx.check(e.gen <= first_bad, "generator " + e.gen + " ran although " + first_bad + " it depends on failed");
    }
    if (missing >= 0)
      for (auto &g : w.gens)
        for (auto &id : g.ids)
          if (id.inputs.count(missing))
            for (auto &e : w.execs)
              ctx.check(e.gen != g.name || (g.kind == CUSTOM && e.id != id.name),
                        e.gen + "/" + e.id + " ran although its input does not exist");
    // a file generator stops at its first failing command
    for (auto &g : w.gens)
      if (g.kind == FILEG) {
        bool bad = false;
        for (auto &e : w.execs)
          if (e.gen == g.name) {
            ctx.check(!bad, g.name + ": a command ran after an earlier one failed");
            bad |= !e.ok;
          }
      }
    for (auto &e : w.execs)
      ctx.check(!must_skip.count(e.gen + "/" + e.id), e.gen + "/" + e.id + " had completed but was run again");
    bool fired = false;
    for (auto &m : w.mids)
      fired |= m.fired;
    if (fired)
      ctx.label("edit during callback");
    hit |= fired;
    must_skip.clear();
    if (ok) {
      for (auto &f : failed) {
        bool present = false, again = false;
        for (auto &g : w.gens)
          for (auto &id : g.ids)
            present |= g.kind == CUSTOM && key(g, id) == f;
        for (auto &e : w.execs)
          again |= e.gen + "/" + e.id == f;
        if (present)
          ctx.check(again, f + " failed before but was not run again");
      }
      failed.clear();
      if (!fired)
        w.check_fresh("after build " + std::to_string(i));
    } else if (blocked < 0) {
      std::set<std::string> custom;
      for (auto &g : w.gens)
        if (g.kind == CUSTOM)
          for (auto &id : g.ids)
            custom.insert(key(g, id));
      for (auto &e : w.execs) {
        std::string kk = e.gen + "/" + e.id;
        if (!custom.count(kk))
          continue;
        if (e.ok) {
          must_skip.insert(kk);
          failed.erase(kk);
        } else
          failed.insert(kk);
      }
    }
    if (missing >= 0) {
      hit = true;
      must_skip.clear();
      w.write((size_t)missing, true);
    }
    if (!blocked_out.empty()) {
      hit = true;
      must_skip.clear();
      failed.clear();
      fs::remove_all(blocked_out);
    }
    if (blocked >= 0) {
      fs::remove_all(w.record(w.gens[(size_t)blocked]));
      ctx.label("record not writable");
      must_skip.clear();
      failed.clear();
    }
  }
  w.faults.clear();
  w.mids.clear();
  bool ok = w.build(2);
  ctx.note("final build:" + w.exec_str());
  ctx.check(ok, "generation without failures reported failure");
  w.check_fresh("after the final build");
  if (hit)
    ctx.nontrivial();
}
Register r2({"G02",
             "a callback failed, a record was damaged, an input was edited during a callback, or the build was "
             "killed inside one",
             g02, Mode::kThread, 10000, 60, 400000, 420, 8, 60, false,
             {"kill points are callback boundaries and torn outputs"},
             {}});

} // namespace
