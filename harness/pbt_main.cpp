#include "pbt.hpp"

#include <fcntl.h>
#include <poll.h>
#include <signal.h>
#include <sys/mman.h>
#include <sys/prctl.h>
#include <sys/resource.h>
#include <sys/wait.h>
#include <unistd.h>

#include <algorithm>
#include <atomic>
#include <chrono>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <fstream>
#include <thread>

#include <nlohmann/json.hpp>

// Called once in every process that runs cases (mutes logging etc.)
void harness_init();

namespace pbt {

std::vector<Property> &registry() {
  static std::vector<Property> r;
  return r;
}

std::string read_file(const fs::path &p) {
  std::ifstream f(p, std::ios::binary);
  std::stringstream ss;
  ss << f.rdbuf();
  return ss.str();
}
bool write_file(const fs::path &p, const std::string &s) {
  std::ofstream f(p, std::ios::binary | std::ios::trunc);
  f << s;
  f.flush();
  return f.good();
}

using clk = std::chrono::steady_clock;
static double now() {
  return std::chrono::duration<double>(clk::now().time_since_epoch()).count();
}

// A child process ends with its parent, and runaway recursion or looping must
// not take the sandbox down.
static void contain() {
  prctl(PR_SET_PDEATHSIG, SIGKILL);
#if !defined(__SANITIZE_ADDRESS__) && !defined(__SANITIZE_THREAD__)
  rlimit rl{(rlim_t)4 << 30, (rlim_t)4 << 30};
  setrlimit(RLIMIT_AS, &rl);
#endif
}

ForkResult run_forked(const std::function<std::string()> &fn, unsigned timeout_s) {
  int p[2], q[2];
  if (pipe(p) || pipe(q))
    throw std::runtime_error("pipe failed");
  fflush(stdout);
  fflush(stderr);
  pid_t pid = fork();
  if (pid < 0)
    throw std::runtime_error("fork failed");
  if (pid == 0) {
    close(p[0]);
    close(q[0]);
    dup2(q[1], 1);
    dup2(q[1], 2);
    close(q[1]);
    setpgid(0, 0);
    contain();
    std::string r = fn();
    r = "\x01" + r; // marks a normal return
    size_t off = 0;
    while (off < r.size()) {
      ssize_t n = write(p[1], r.data() + off, r.size() - off);
      if (n <= 0)
        break;
      off += (size_t)n;
    }
    fflush(stdout);
    _exit(0);
  }
  close(p[1]);
  close(q[1]);
  ForkResult res;
  double deadline = now() + timeout_s;
  pollfd fds[2] = {{p[0], POLLIN, 0}, {q[0], POLLIN, 0}};
  int open_fds = 2;
  while (open_fds > 0) {
    int left = (int)((deadline - now()) * 1000);
    if (left <= 0) {
      res.timeout = true;
      break;
    }
    int pr = poll(fds, 2, left);
    if (pr < 0 && errno == EINTR)
      continue;
    for (int i = 0; i < 2; i++) {
      if (fds[i].fd >= 0 && (fds[i].revents & (POLLIN | POLLHUP | POLLERR))) {
        char buf[8192];
        ssize_t n = read(fds[i].fd, buf, sizeof buf);
        if (n <= 0) {
          fds[i].fd = -1;
          open_fds--;
        } else {
          std::string &t = i == 0 ? res.out : res.err;
          t.append(buf, (size_t)n);
          if (i == 1 && t.size() > 65536)
            t.erase(0, t.size() - 32768);
        }
      }
    }
    // a child that exited but left grandchildren holding the pipes
    if (open_fds > 0 && pr == 0) {
      res.timeout = true;
      break;
    }
  }
  if (res.timeout)
    kill(-pid, SIGKILL), kill(pid, SIGKILL);
  int st = 0;
  while (waitpid(pid, &st, 0) < 0 && errno == EINTR) {
  }
  close(p[0]);
  close(q[0]);
  if (WIFEXITED(st)) {
    res.exited = true;
    res.code = WEXITSTATUS(st);
  } else if (WIFSIGNALED(st))
    res.signal = WTERMSIG(st);
  if (!res.out.empty() && res.out[0] == '\x01') {
    res.returned = true;
    res.out.erase(0, 1);
  }
  return res;
}

namespace {

struct Opts {
  std::string prop, tier{"quick"}, evidence, replay_dir, known_file, replay;
  uint64_t seed{1};
  int64_t cases{-1};
  double seconds{-1};
  int workers{-1};
} opt;

fs::path scratch_root;
pid_t main_pid;

void cleanup() {
  if (getpid() != main_pid || scratch_root.empty())
    return;
  std::error_code ec;
  fs::remove_all(scratch_root, ec);
}
void on_signal(int sig) {
  cleanup();
  _exit(128 + sig);
}

struct Slot {
  std::atomic<int64_t> current; // case index being run, -1 idle, -2 done
  std::atomic<double> started;
  std::atomic<uint64_t> cases, evals, nontrivial;
};

struct Outcome {
  enum Kind { kPass, kFail, kCrash, kHang } kind{kPass};
  std::string msg;
  std::vector<uint64_t> choices;
  std::vector<std::pair<size_t, size_t>> spans;
  std::string desc;
  std::set<std::string> knowns;
};

uint64_t case_seed(const Property &p, uint64_t idx) {
  return mix(mix(opt.seed * 0x1000193 + hash_str(p.id)) ^ (idx * 0x9E3779B97F4A7C15ull));
}

// Runs one case in this process. Returns message or empty on success.
std::string run_case(const Property &p, Src &src, Ctx &ctx) {
  std::error_code ec;
  fs::remove_all(ctx.dir, ec);
  fs::create_directories(ctx.dir);
  std::string msg;
  auto body = [&]() {
    try {
      p.run(src, ctx);
    } catch (const Violation &v) {
      msg = v.msg.empty() ? "violation" : v.msg;
    } catch (const std::exception &e) {
      msg = std::string("unexpected exception: ") + e.what();
    } catch (...) {
      msg = "unexpected exception of unknown type";
    }
  };
  if (p.mode == Mode::kThread) {
    std::thread t(body);
    t.join();
  } else
    body();
  fs::remove_all(ctx.dir, ec);
  return msg;
}

std::string ser(const std::vector<uint64_t> &v) {
  std::string s;
  for (auto x : v)
    s += std::to_string(x) + " ";
  return s;
}

constexpr size_t kTap = 1 << 18;

// Runs given choices (or a seed when choices==nullptr) in a forked child.
Outcome run_isolated(const Property &p, const std::vector<uint64_t> *choices,
                     uint64_t seed, bool thorough) {
  static int n = 0;
  static uint64_t *tap = (uint64_t *)mmap(nullptr, kTap * 8, PROT_READ | PROT_WRITE,
                                          MAP_SHARED | MAP_ANONYMOUS, -1, 0);
  tap[0] = 0;
  fs::path d = scratch_root / ("i" + std::to_string(n++));
  auto r = run_forked(
      [&]() {
        harness_init();
        Src src = choices ? Src(*choices) : Src(seed);
        src.tap(tap, kTap);
        Ctx ctx;
        ctx.dir = d;
        ctx.thorough = thorough;
        std::string m = run_case(p, src, ctx);
        nlohmann::json j;
        j["msg"] = m;
        j["choices"] = src.choices();
        j["spans"] = src.spans();
        j["desc"] = ctx.desc;
        j["knowns"] = ctx.knowns;
        return j.dump(-1, ' ', false, nlohmann::json::error_handler_t::replace);
      },
      p.case_timeout_s);
  std::error_code ec;
  fs::remove_all(d, ec);
  Outcome o;
  if (r.timeout || !r.returned)
    o.choices.assign(tap + 1, tap + 1 + tap[0]);
  if (r.timeout) {
    o.kind = Outcome::kHang;
    o.msg = "case did not finish within " + std::to_string(p.case_timeout_s) + " s";
  } else if (!r.returned) {
    o.kind = Outcome::kCrash;
    std::string tail = r.err;
    auto pos = tail.find("ERROR: ");
    if (pos == std::string::npos)
      pos = tail.find("runtime error");
    if (pos == std::string::npos)
      pos = tail.find("WARNING: ThreadSanitizer");
    if (pos != std::string::npos)
      tail = tail.substr(pos > 200 ? pos - 200 : 0, 2500);
    else if (tail.size() > 1500)
      tail = tail.substr(tail.size() - 1500);
    o.msg = r.exited ? "process ended with exit code " + std::to_string(r.code)
                     : "process killed by signal " + std::to_string(r.signal);
    o.msg += "\n" + tail;
  } else {
    auto j = nlohmann::json::parse(r.out, nullptr, false);
    if (j.is_discarded()) {
      o.kind = Outcome::kCrash;
      o.msg = "unreadable result";
      return o;
    }
    o.msg = j["msg"].get<std::string>();
    o.choices = j["choices"].get<std::vector<uint64_t>>();
    o.spans = j["spans"].get<std::vector<std::pair<size_t, size_t>>>();
    o.desc = j["desc"].get<std::string>();
    o.knowns = j["knowns"].get<std::set<std::string>>();
    if (!o.msg.empty())
      o.kind = Outcome::kFail;
  }
  return o;
}

struct Totals {
  uint64_t cases{0}, evals{0}, nontrivial{0};
  std::set<uint64_t> distinct;
  std::map<std::string, uint64_t> labels, counters;
  std::vector<std::string> samples;
  std::set<std::string> knowns;
};

void worker(const Property &p, unsigned w, unsigned W, uint64_t first, uint64_t cases,
            double deadline, Slot *slot) {
  setpgid(0, 0);
  int dn = open("/dev/null", O_WRONLY);
  fs::path errf = scratch_root / ("err" + std::to_string(w));
  int ef = open(errf.c_str(), O_WRONLY | O_CREAT | O_TRUNC, 0600);
  dup2(dn, 1);
  dup2(ef, 2);
  harness_init();
  std::map<std::string, uint64_t> labels, counters;
  std::vector<uint64_t> hashes;
  std::vector<std::string> samples;
  std::set<std::string> knowns;
  int rc = 0;
  for (uint64_t idx = first; idx < cases && now() < deadline; idx += W) {
    slot->started = now();
    slot->current = (int64_t)idx;
    Src src(case_seed(p, idx));
    Ctx ctx;
    ctx.dir = scratch_root / ("w" + std::to_string(w));
    ctx.thorough = opt.tier == "thorough";
    std::string msg = run_case(p, src, ctx);
    slot->cases++;
    slot->evals += ctx.evaluations;
    for (auto &l : ctx.labels)
      labels[l]++;
    for (auto &[k, v] : ctx.counters)
      counters[k] += v;
    for (auto &k : ctx.knowns)
      knowns.insert(k);
    if (ctx.is_nontrivial) {
      slot->nontrivial++;
      hashes.push_back(hash_str(ser(src.choices())));
      if (samples.size() < 3 && !ctx.desc.empty())
        samples.push_back(ctx.desc.substr(0, 1200));
    }
    if (!msg.empty()) {
      nlohmann::json j;
      j["idx"] = idx;
      j["msg"] = msg;
      j["choices"] = src.choices();
      write_file(scratch_root / ("fail" + std::to_string(w)),
                 j.dump(-1, ' ', false, nlohmann::json::error_handler_t::replace));
      rc = 3;
      break;
    }
  }
  nlohmann::json j;
  j["labels"] = labels;
  j["counters"] = counters;
  j["hashes"] = hashes;
  j["samples"] = samples;
  j["knowns"] = knowns;
  write_file(scratch_root / ("res" + std::to_string(w) + "_" + std::to_string(first)),
             j.dump(-1, ' ', false, nlohmann::json::error_handler_t::replace));
  slot->current = -2;
  _exit(rc);
}

// Re-runs; returns number of failing runs out of n, and last failing outcome
unsigned confirm(const Property &p, const std::vector<uint64_t> *ch, uint64_t seed, unsigned n,
                 unsigned enough, Outcome &last) {
  unsigned f = 0;
  for (unsigned i = 0; i < n && f < enough; i++) {
    Outcome o = run_isolated(p, ch, seed, opt.tier == "thorough");
    if (o.kind != Outcome::kPass) {
      f++;
      last = o;
    }
  }
  return f;
}

std::vector<uint64_t> shrink(const Property &p, std::vector<uint64_t> best,
                             std::vector<std::pair<size_t, size_t>> spans, bool flaky,
                             Outcome &bo) {
  double deadline = now() + (opt.tier == "thorough" ? 120 : 45);
  unsigned attempts = 0;
  auto still = [&](const std::vector<uint64_t> &c, Outcome &o) {
    if (now() > deadline || attempts > 3000)
      return false;
    unsigned reps = flaky ? 6 : 1;
    for (unsigned i = 0; i < reps; i++) {
      attempts++;
      o = run_isolated(p, &c, 0, opt.tier == "thorough");
      if (o.kind != Outcome::kPass && (o.kind != Outcome::kHang || bo.kind == Outcome::kHang))
        return true;
    }
    return false;
  };
  auto accept = [&](const std::vector<uint64_t> &c, const Outcome &o) {
    bo = o;
    best = o.choices.empty() ? c : o.choices;
    if (best.size() > c.size())
      best = c;
    while (!best.empty() && best.back() == 0)
      best.pop_back();
    spans = o.spans;
  };
  bool progress = true;
  while (progress && now() < deadline) {
    progress = false;
    // 1. delete spans, longest first
    auto sp = spans;
    std::sort(sp.begin(), sp.end(), [](auto &a, auto &b) {
      return (a.second - a.first) > (b.second - b.first);
    });
    for (auto &[a, b] : sp) {
      if (b > best.size() || a >= b)
        continue;
      auto c = best;
      c.erase(c.begin() + (long)a, c.begin() + (long)b);
      Outcome o;
      if (still(c, o)) {
        accept(c, o);
        progress = true;
        break;
      }
    }
    if (progress)
      continue;
    // 2. delete blocks
    for (size_t k : {32, 16, 8, 4, 2, 1}) {
      for (size_t i = 0; i + k <= best.size() && now() < deadline;) {
        auto c = best;
        c.erase(c.begin() + (long)i, c.begin() + (long)(i + k));
        Outcome o;
        if (still(c, o)) {
          accept(c, o);
          progress = true;
        } else
          i += k;
      }
    }
    // 3. lower values
    for (size_t i = 0; i < best.size() && now() < deadline; i++) {
      while (best.size() > i && best[i] > 0) {
        bool ok = false;
        for (uint64_t v : {(uint64_t)0, best[i] / 2, best[i] - 1}) {
          if (v >= best[i])
            continue;
          auto c = best;
          c[i] = v;
          Outcome o;
          if (still(c, o)) {
            accept(c, o);
            ok = progress = true;
            break;
          }
        }
        if (!ok)
          break;
      }
    }
  }
  return best;
}

std::map<std::string, std::string> load_known(const std::string &prop) {
  std::map<std::string, std::string> r;
  std::ifstream f(opt.known_file);
  std::string line;
  while (std::getline(f, line)) {
    auto j = nlohmann::json::parse(line, nullptr, false);
    if (j.is_discarded() || !j.is_object())
      continue;
    if (j.value("status", "") == "known" && j.value("property", "") == prop)
      r[j.value("id", "")] = j.value("what", "");
  }
  return r;
}

int do_replay(const Property &p, const std::string &file) {
  auto j = nlohmann::json::parse(read_file(file));
  auto ch = j["choices"].get<std::vector<uint64_t>>();
  printf("replaying %s (%zu choices)\n", p.id.c_str(), ch.size());
  unsigned n = p.racy || j.value("flaky", false) ? 30 : 1;
  Outcome o;
  for (unsigned i = 0; i < n; i++) {
    o = run_isolated(p, &ch, 0, j.value("tier", "quick") == "thorough");
    if (o.kind != Outcome::kPass)
      break;
  }
  printf("%s", o.desc.c_str());
  if (o.kind == Outcome::kPass) {
    printf("PASS\n");
    return 0;
  }
  printf("FAIL: %s\n", o.msg.c_str());
  printf("VIOLATION property=%s replay=%s\n", p.id.c_str(), file.c_str());
  return 1;
}

int main_run(const Property &p) {
  double t0 = now();
  bool thorough = opt.tier == "thorough";
  uint64_t cases = opt.cases >= 0 ? (uint64_t)opt.cases : (thorough ? p.thorough_cases : p.quick_cases);
  double secs = opt.seconds >= 0 ? opt.seconds : (thorough ? p.thorough_seconds : p.quick_seconds);
  unsigned W = opt.workers > 0 ? (unsigned)opt.workers : p.workers;
  double deadline = t0 + secs;
  Slot *slots = (Slot *)mmap(nullptr, sizeof(Slot) * W, PROT_READ | PROT_WRITE,
                             MAP_SHARED | MAP_ANONYMOUS, -1, 0);
  for (unsigned i = 0; i < W; i++)
    new (&slots[i]) Slot{};

  struct W_ {
    pid_t pid{-1};
    uint64_t first{0};
  };
  std::vector<W_> ws(W);
  auto spawn = [&](unsigned w, uint64_t first) {
    slots[w].current = -1;
    slots[w].started = now();
    fflush(stdout);
    pid_t pid = fork();
    if (pid == 0) {
      contain();
      worker(p, w, W, first, cases, deadline, &slots[w]);
    }
    ws[w].pid = pid;
    ws[w].first = first;
  };

  bool violated = false;
  Outcome vo;
  std::vector<uint64_t> vchoices;
  bool vflaky = false;
  unsigned unreproduced = 0;
  std::vector<std::string> unrep_msgs;

  // regressions first
  for (size_t i = 0; i < p.regressions.size() && !violated; i++) {
    Outcome o = run_isolated(p, &p.regressions[i], 0, thorough);
    if (o.kind != Outcome::kPass) {
      Outcome last = o;
      if (confirm(p, &p.regressions[i], 0, 3, 3, last) >= 2) {
        violated = true;
        vo = last;
        vchoices = p.regressions[i];
      }
    }
  }

  if (!violated)
    for (unsigned w = 0; w < W; w++)
      spawn(w, w);
  auto kill_all = [&]() {
    for (auto &x : ws)
      if (x.pid > 0) {
        kill(-x.pid, SIGKILL);
        kill(x.pid, SIGKILL);
        int st;
        waitpid(x.pid, &st, 0);
        x.pid = -1;
      }
  };
  while (!violated) {
    bool any = false;
    for (auto &x : ws)
      any |= x.pid > 0;
    if (!any)
      break;
    usleep(20000);
    for (unsigned w = 0; w < W && !violated; w++) {
      if (ws[w].pid <= 0)
        continue;
      int st = 0;
      pid_t r = waitpid(ws[w].pid, &st, WNOHANG);
      bool hang = false;
      if (r == 0) {
        if (slots[w].current >= 0 && now() - slots[w].started > p.case_timeout_s) {
          hang = true;
          kill(-ws[w].pid, SIGKILL);
          kill(ws[w].pid, SIGKILL);
          waitpid(ws[w].pid, &st, 0);
        } else
          continue;
      }
      kill(-ws[w].pid, SIGKILL); // stray children of the worker
      ws[w].pid = -1;
      if (!hang && WIFEXITED(st) && WEXITSTATUS(st) == 0 && slots[w].current == -2)
        continue;
      // something failed: which case?
      int64_t idx = slots[w].current;
      std::vector<uint64_t> ch;
      bool have = false;
      std::string first_msg;
      fs::path ff = scratch_root / ("fail" + std::to_string(w));
      if (!hang && WIFEXITED(st) && WEXITSTATUS(st) == 3 && fs::exists(ff)) {
        auto j = nlohmann::json::parse(read_file(ff));
        idx = j["idx"].get<int64_t>();
        ch = j["choices"].get<std::vector<uint64_t>>();
        first_msg = j["msg"].get<std::string>();
        have = true;
        fs::remove(ff);
      } else {
        first_msg = hang ? "hang" : "worker died, status " + std::to_string(st);
        std::string e = read_file(scratch_root / ("err" + std::to_string(w)));
        if (e.size() > 1500)
          e = e.substr(e.size() - 1500);
        first_msg += "\n" + e;
      }
      if (idx < 0) { // died outside a case: environment trouble; restart
        unrep_msgs.push_back("worker died outside a case: " + first_msg);
        if (++unreproduced < 10)
          spawn(w, ws[w].first);
        continue;
      }
      Outcome last;
      uint64_t seed = case_seed(p, (uint64_t)idx);
      const std::vector<uint64_t> *cp = have ? &ch : nullptr;
      unsigned n1 = hang ? 2 : 3;
      unsigned f = confirm(p, cp, seed, n1, n1, last);
      bool ok = f == n1;
      bool flaky = false;
      if (!ok && !hang) {
        // schedule dependent? the oracle must fail again at least twice
        Outcome l2;
        unsigned tries = p.racy ? 150 : 40;
        unsigned need = f >= 2 ? 0 : 2 - f;
        unsigned f2 = need ? confirm(p, cp, seed, tries, need, l2) : 0;
        if (f + f2 >= 2) {
          ok = flaky = true;
          if (f2)
            last = l2;
        }
      }
      if (ok) {
        violated = true;
        vo = last;
        vflaky = flaky;
        vchoices = !last.choices.empty() ? last.choices : ch;
      } else {
        unreproduced++;
        unrep_msgs.push_back("case " + std::to_string(idx) + ": " + first_msg);
        if (unreproduced < 10)
          spawn(w, (uint64_t)idx + W);
      }
    }
  }
  kill_all();

  Totals tot;
  for (unsigned i = 0; i < W; i++) {
    tot.cases += slots[i].cases;
    tot.evals += slots[i].evals;
    tot.nontrivial += slots[i].nontrivial;
  }
  for (auto &e : fs::directory_iterator(scratch_root)) {
    if (e.path().filename().string().rfind("res", 0) != 0)
      continue;
    auto j = nlohmann::json::parse(read_file(e.path()), nullptr, false);
    if (j.is_discarded())
      continue;
    for (auto &[k, v] : j["labels"].items())
      tot.labels[k] += v.get<uint64_t>();
    for (auto &[k, v] : j["counters"].items())
      tot.counters[k] += v.get<uint64_t>();
    for (auto &h : j["hashes"])
      tot.distinct.insert(h.get<uint64_t>());
    for (auto &s : j["samples"])
      if (tot.samples.size() < 6)
        tot.samples.push_back(s.get<std::string>());
    for (auto &s : j["knowns"])
      tot.knowns.insert(s.get<std::string>());
  }

  auto known = load_known(p.id);
  if (!violated)
    for (auto &k : tot.knowns)
      if (!known.count(k)) {
        violated = true;
        vo.msg = "finding '" + k + "' is not listed as known";
      }

  std::string replay_path;
  if (violated) {
    if (!vchoices.empty())
      vchoices = shrink(p, vchoices, vo.spans, vflaky, vo);
    fs::create_directories(opt.replay_dir);
    replay_path = (fs::path(opt.replay_dir) / (p.id + ".json")).string();
    nlohmann::json j;
    j["property"] = p.id;
    j["choices"] = vchoices;
    j["message"] = vo.msg;
    j["case"] = vo.desc;
    j["flaky"] = vflaky;
    j["tier"] = opt.tier;
    j["seed"] = opt.seed;
    write_file(replay_path, j.dump(1, ' ', false, nlohmann::json::error_handler_t::replace));
  }

  nlohmann::json ev;
  ev["property"] = p.id;
  ev["tier"] = opt.tier;
  ev["seed"] = opt.seed;
  ev["level"] = "exploration";
  nlohmann::json cov;
  cov["evaluations"] = tot.cases;
  cov["oracle_checks"] = tot.evals;
  cov["nontrivial_cases"] = tot.nontrivial;
  cov["distinct_nontrivial"] = tot.distinct.size();
  cov["rule"] = p.rule;
  cov["samples"] = tot.samples;
  cov["labels"] = tot.labels;
  cov["counters"] = tot.counters;
  cov["planned_cases"] = cases;
  cov["stopped_by"] = tot.cases >= cases ? "case count" : (violated ? "violation" : "time budget");
  cov["unreproduced_failures"] = unreproduced;
  if (!unrep_msgs.empty())
    cov["unreproduced_messages"] = unrep_msgs;
  cov["regression_cases"] = p.regressions.size();
  ev["coverage"] = cov;
  ev["wall_s"] = now() - t0;
  ev["violations"] = violated ? 1 : 0;
  ev["assumptions"] = p.assumptions;
  std::vector<std::string> kf;
  for (auto &[k, w] : known)
    if (tot.knowns.count(k))
      kf.push_back(k + ": " + w);
  ev["known_findings"] = kf;
  if (violated)
    ev["violation_message"] = vo.msg;
  if (!opt.evidence.empty()) {
    fs::create_directories(fs::path(opt.evidence).parent_path());
    write_file(opt.evidence, ev.dump(1, ' ', false, nlohmann::json::error_handler_t::replace));
  }

  printf("%s [%s seed=%lu] cases=%lu oracle_checks=%lu nontrivial=%lu distinct=%zu wall=%.1fs\n",
         p.id.c_str(), opt.tier.c_str(), (unsigned long)opt.seed, (unsigned long)tot.cases,
         (unsigned long)tot.evals, (unsigned long)tot.nontrivial, tot.distinct.size(), now() - t0);
  for (auto &[k, v] : tot.labels)
    printf("  label %-40s %lu\n", k.c_str(), (unsigned long)v);
  for (auto &[k, v] : tot.counters)
    printf("  count %-40s %lu\n", k.c_str(), (unsigned long)v);
  if (unreproduced) {
    printf("  %u failure(s) did not reproduce on replay (not reported as violations)\n", unreproduced);
    for (auto &m : unrep_msgs)
      printf("    %s\n", m.c_str());
  }
  for (auto &[k, w] : known)
    if (tot.knowns.count(k))
      printf("KNOWN-FINDING: property=%s %s\n", p.id.c_str(), w.c_str());
  if (violated) {
    printf("%s\n  %s\n", vo.desc.c_str(), vo.msg.c_str());
    printf("VIOLATION property=%s replay=%s\n", p.id.c_str(), replay_path.c_str());
    return 1;
  }
  return 0;
}

} // namespace
} // namespace pbt

int main(int argc, char **argv) {
  using namespace pbt;
  for (int i = 1; i < argc; i++) {
    std::string a = argv[i];
    auto next = [&]() { return std::string(i + 1 < argc ? argv[++i] : ""); };
    if (a == "--prop") opt.prop = next();
    else if (a == "--tier") opt.tier = next();
    else if (a == "--seed") opt.seed = std::stoull(next());
    else if (a == "--cases") opt.cases = std::stoll(next());
    else if (a == "--seconds") opt.seconds = std::stod(next());
    else if (a == "--workers") opt.workers = std::stoi(next());
    else if (a == "--evidence") opt.evidence = next();
    else if (a == "--replay-dir") opt.replay_dir = next();
    else if (a == "--known") opt.known_file = next();
    else if (a == "--replay") opt.replay = next();
  }
  main_pid = getpid();
  const char *td = getenv("PBT_SCRATCH");
  std::string base = (td ? std::string(td) : std::string("/tmp")) + "/bp.XXXXXX";
  std::vector<char> b(base.begin(), base.end());
  b.push_back(0);
  if (!mkdtemp(b.data())) {
    perror("mkdtemp");
    return 2;
  }
  scratch_root = b.data();
  signal(SIGINT, on_signal);
  signal(SIGTERM, on_signal);
  signal(SIGHUP, on_signal);
  const Property *p = nullptr;
  for (auto &x : registry())
    if (x.id == opt.prop)
      p = &x;
  int rc = 2;
  if (!p)
    fprintf(stderr, "no property %s\n", opt.prop.c_str());
  else
    rc = opt.replay.empty() ? main_run(*p) : do_replay(*p, opt.replay);
  cleanup();
  fflush(stdout);
  fflush(stderr);
  _exit(rc);
}
