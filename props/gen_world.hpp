// Generated projects of custom / file / template generators, driven through the
// real generator classes. What a generator id writes is a function of the
// contents of its inputs, its declared outputs and its user data, so freshness
// is decided by comparing outputs with that function.
#pragma once
#include <sys/stat.h>
#include <fcntl.h>
#include <unistd.h>

#include <map>
#include <memory>
#include <mutex>
#include <set>

#include "exec_stub.hpp"
#include "pbt.hpp"

#include "env/env.h"
#include "env/task_state.h"
#include "target/custom_generator.h"
#include "target/file_generator.h"
#include "target/template_generator.h"

namespace gw {
using namespace pbt;
constexpr char SEP = '\x1f';

enum GKind { CUSTOM, FILEG, TEMPL };

struct Id {
  std::string name;
  std::set<int> inputs;     // indices of project files
  std::set<int> lib_inputs; // outputs of the previous generator (by index in its flat output list)
  std::set<std::string> outputs; // file names in the generator's build dir
  std::set<std::string> extra;   // outputs of a file generator that no command names
  size_t number() const { return (size_t)atoi(name.c_str() + 2); }
  bool has_blob{false};
  std::vector<std::string> blob;
  int blob_kind{0}; // 0: vector, 1: map (both typed), 2: the user's own handler
  std::map<std::string, std::string> as_map() const {
    std::map<std::string, std::string> m;
    for (size_t i = 0; i < blob.size(); i++)
      m[std::to_string(i)] = blob[i];
    return m;
  }
  std::vector<uint8_t> as_bytes() const {
    std::vector<uint8_t> r{'R'};
    for (auto &b : blob) {
      r.insert(r.end(), b.begin(), b.end());
      r.push_back(0xff);
    }
    return r;
  }
  // the part of the user data that matters to the handler
  std::vector<std::string> data() const {
    auto r = blob;
    if (blob_kind == 2)
      for (auto &b : r)
        for (auto &c : b)
          c = (char)tolower((unsigned char)c);
    return r;
  }
};
// handler written by the user: data that differs only in case is equal
class OwnHandler : public buildcc::CustomBlobHandler {
public:
  explicit OwnHandler(std::vector<uint8_t> d) : d_(std::move(d)) {}

private:
  std::vector<uint8_t> d_;
  static std::vector<uint8_t> low(std::vector<uint8_t> v) {
    for (auto &c : v)
      c = (uint8_t)tolower(c);
    return v;
  }
  bool Verify(const std::vector<uint8_t> &b) const override { return !b.empty() && b[0] == 'R'; }
  bool IsEqual(const std::vector<uint8_t> &a, const std::vector<uint8_t> &b) const override {
    return low(a) == low(b);
  }
  std::vector<uint8_t> Serialize() const override { return d_; }
};
struct Gen {
  GKind kind{CUSTOM};
  std::string name;
  std::vector<Id> ids;
  std::vector<Id> removed;
  std::map<std::string, std::string> patterns; // template
  bool in_sub{false};                          // root of a template generator
};

struct Exec {
  std::string gen, id;
  bool ok;
};
struct Fault {
  std::string gen, id;
  int mode; // 0 return false, 1 throw, 2 garbage + false, 3 throw something else, 4 fatal assertion
};
struct Mid {
  std::string gen, id;
  int file;
  bool before;
  bool fired{false};
};

class World {
public:
  Ctx &ctx;
  fs::path root, bdir;
  struct File {
    std::string rel;
    int version{0};
    int64_t tick{0};
    std::string body;
    std::set<int64_t> past{}; // every modification time it ever had
  };
  std::vector<File> files;
  std::vector<Gen> gens;
  int64_t hi{1000}, lo{999};
  int64_t jump{1}; // how far apart in time edits are
  std::mutex mu;
  std::vector<Exec> execs;
  std::vector<Fault> faults;
  std::vector<Mid> mids;
  int crash_at{-1}, crash_phase{0}, count_{0};
  std::string error;

  explicit World(Ctx &c) : ctx(c) {
    fs::path base = fs::weakly_canonical(c.dir);
    root = base / "r";
    bdir = base / "b";
    fs::create_directories(root / "sub");
    fs::create_directories(bdir);
    for (auto s : {"i0.txt", "i1.txt", "sub/i0.txt", "i3"})
      files.push_back({s});
    for (auto s : {"t0.in", "sub/t0.in"})
      files.push_back({s});
    for (size_t i = 0; i < files.size(); i++)
      write(i, true);
  }
  ~World() { stub::set_handler(nullptr); }
  fs::path path(size_t f) const { return root / files[f].rel; }
  void set_tick(const fs::path &p, int64_t t) {
    int64_t sec = 1600000000 + t / 1000000000, n = t % 1000000000;
    if (n < 0)
      n += 1000000000, sec -= 1;
    timespec ts[2] = {{sec, n}, {sec, n}};
    utimensat(AT_FDCWD, p.c_str(), ts, 0);
  }
  void write(size_t f, bool newer) {
    File &x = files[f];
    x.version++;
    do
      x.tick = newer ? hi += jump : lo -= jump;
    while (!x.past.insert(x.tick).second);
    x.body = x.rel + "#" + std::to_string(x.version) + (f >= 4 ? " {a} {{b}} {c} {current_root_dir}|{current_build_dir}|{project_root_dir}|{project_build_dir}" : "");
    write_file(path(f), x.body);
    set_tick(path(f), x.tick);
  }
  void put(const fs::path &p, const std::string &s) {
    write_file(p, s);
    set_tick(p, ++hi);
  }
  fs::path out(const Gen &g, const std::string &o) const { return bdir / g.name / o; }
  std::vector<std::string> flat_outputs(const Gen &g) const {
    std::vector<std::string> r;
    for (auto &i : g.ids)
      for (auto &o : i.outputs)
        r.push_back(out(g, o).string());
    return r;
  }
  std::vector<std::string> inputs_of(size_t gi, const Id &id) const {
    std::vector<std::string> r;
    for (int f : id.inputs)
      r.push_back(path((size_t)f).string());
    if (gi > 0) {
      auto fo = flat_outputs(gens[gi - 1]);
      for (int l : id.lib_inputs)
        if (!fo.empty())
          r.push_back(fo[(size_t)l % fo.size()]);
    }
    std::sort(r.begin(), r.end());
    r.erase(std::unique(r.begin(), r.end()), r.end());
    return r;
  }
  // what id writes to output o, given the contents of its inputs
  static std::string content(const std::string &gen, const Id &id, const std::string &o,
                             const std::map<std::string, std::string> &in) {
    std::string r = gen + "/" + id.name + "->" + o + " outs=";
    for (auto &x : id.outputs)
      r += x + ",";
    r += " blob=";
    if (id.has_blob)
      for (auto &b : id.data())
        r += std::to_string(id.blob_kind == 1) + b + ",";
    else
      r += "-";
    for (auto &[p, c] : in)
      r += " [" + fs::path(p).filename().string() + "=" + std::to_string(hash_str(c)) + "]";
    return r;
  }
  std::string expand(std::string body, const Gen &g) const {
    const auto &pat = g.patterns;
    auto rep = [&](const std::string &k, const std::string &v) {
      for (size_t p; (p = body.find(k)) != std::string::npos;)
        body.replace(p, k.size(), v);
    };
    rep("{{b}}", "<b>");
    rep("{a}", pat.at("a"));
    rep("{c}", pat.at("c"));
    rep("{current_root_dir}", (g.in_sub ? root / "sub" : root).string());
    rep("{current_build_dir}", (bdir / g.name).string());
    rep("{project_root_dir}", root.string());
    rep("{project_build_dir}", bdir.string());
    rep("<b>", "{b}");
    return body;
  }

  struct Pre {
    bool crash{false};
    int my{0};
    const Fault *f{nullptr};
  };
  Pre before(const std::string &g, const std::string &id) {
    Pre p;
    p.my = count_++;
    if (p.my == crash_at && crash_phase == 0)
      _exit(99);
    for (auto &m : mids)
      if (!m.fired && m.before && m.gen == g && m.id == id) {
        m.fired = true;
        write((size_t)m.file, true);
      }
    for (auto &f : faults)
      if (f.gen == g && f.id == id)
        p.f = &f;
    return p;
  }
  void after(const Pre &p, const std::string &g, const std::string &id, bool ok) {
    execs.push_back({g, id, ok});
    for (auto &m : mids)
      if (!m.fired && !m.before && m.gen == g && m.id == id) {
        m.fired = true;
        write((size_t)m.file, true);
      }
    if (p.my == crash_at && crash_phase == 2)
      _exit(99);
  }
  bool run_id(size_t gi, const Id &id, const std::vector<std::string> &ctx_inputs,
              const std::vector<std::string> &ctx_outputs, const std::vector<uint8_t> &blob) {
    std::unique_lock<std::mutex> lk(mu);
    const Gen &g = gens[gi];
    Pre p = before(g.name, id.name);
    // the callback must be handed exactly what was declared
    auto want = inputs_of(gi, id);
    auto got = ctx_inputs;
    std::sort(got.begin(), got.end());
    std::vector<std::string> wo, go = ctx_outputs;
    for (auto &o : id.outputs)
      wo.push_back(out(g, o).string());
    std::sort(go.begin(), go.end());
    std::sort(wo.begin(), wo.end());
    if (got != want)
      error = "callback of " + id.name + " got inputs " + Ctx::show(got) + " instead of " + Ctx::show(want);
    if (go != wo)
      error = "callback of " + id.name + " got outputs " + Ctx::show(go) + " instead of " + Ctx::show(wo);
    if (id.has_blob && id.blob_kind == 2) {
      if (blob != id.as_bytes())
        error = "callback of " + id.name + " got other user data than the handler provides";
    } else if (id.has_blob && id.blob_kind == 1) {
      auto b = buildcc::TypedCustomBlobHandler<std::map<std::string, std::string>>::Deserialize(blob);
      if (b != id.as_map())
        error = "callback of " + id.name + " got other user data than the handler provides";
    } else if (id.has_blob) {
      auto b = buildcc::TypedCustomBlobHandler<std::vector<std::string>>::Deserialize(blob);
      if (b != id.blob)
        error = "callback of " + id.name + " got user data " + Ctx::show(b) + " instead of " + Ctx::show(id.blob);
    }
    if (p.f) {
      if (p.f->mode == 2)
        for (auto &o : id.outputs)
          put(out(g, o), "GARBAGE");
      after(p, g.name, id.name, false);
      if (p.f->mode == 1)
        throw std::runtime_error("generator failed");
      if (p.f->mode == 3)
        throw 42;
      if (p.f->mode == 4)
        buildcc::env::assert_fatal<false>("generator failed");
      return false;
    }
    std::map<std::string, std::string> in;
    for (auto &i : want)
      in[i] = fs::exists(i) ? read_file(i) : "<missing>";
    for (auto &o : id.outputs) {
      std::string c = content(g.name, id, o, in);
      if (p.my == crash_at && crash_phase == 1) {
        put(out(g, o), c.substr(0, c.size() / 2));
        _exit(99);
      }
      put(out(g, o), c);
    }
    if (p.my == crash_at && crash_phase == 1)
      _exit(99);
    after(p, g.name, id.name, true);
    return true;
  }
  // command of a file generator: FG<sep>gen<sep>k<sep>arg<sep>out
  std::vector<std::string> seq; // commands in order of execution
  int run_cmd(const std::string &cmd) {
    std::unique_lock<std::mutex> lk(mu);
    seq.push_back(cmd);
    std::vector<std::string> f(1);
    for (char c : cmd)
      if (c == SEP)
        f.emplace_back();
      else
        f.back() += c;
    if (f.size() != 5 || f[0] != "FG") {
      error = "unexpected command " + cmd;
      return 1;
    }
    size_t gi = 0;
    for (; gi < gens.size(); gi++)
      if (gens[gi].name == f[1])
        break;
    const Gen &g = gens[gi];
    Pre p = before(g.name, f[2]);
    if (p.f) {
      if (p.f->mode == 2)
        put(f[4], "GARBAGE");
      after(p, g.name, f[2], false);
      return 3;
    }
    std::string c = file_content(gi, cmd);
    if (p.my == crash_at && crash_phase == 1) {
      put(f[4], c.substr(0, c.size() / 2));
      _exit(99);
    }
    put(f[4], c);
    after(p, g.name, f[2], true);
    return 0;
  }
  std::string file_content(size_t gi, const std::string &cmd,
                           const std::map<std::string, std::string> *model = nullptr) const {
    std::string r = cmd;
    for (auto &i : inputs_of(gi, gens[gi].ids[0])) {
      std::string c = model && model->count(i) ? model->at(i) : (fs::exists(i) ? read_file(i) : "<missing>");
      r += " [" + fs::path(i).filename().string() + "=" + std::to_string(hash_str(c)) + "]";
    }
    return r;
  }
  static std::string split3(const std::string &c) { // third field
    auto a = c.find(SEP, c.find(SEP) + 1);
    return c.substr(a + 1, c.find(SEP, a + 1) - a - 1);
  }
  // commands of a file generator: one per (output, blob entry)
  std::vector<std::string> commands(const Gen &g) const {
    std::vector<std::string> r;
    size_t k = 0;
    std::string S(1, SEP);
    std::vector<std::string> outs(g.ids[0].outputs.begin(), g.ids[0].outputs.end());
    for (auto &b : g.ids[0].blob) {
      if (outs.empty())
        break;
      std::string tail = S + b + S + out(g, outs[k % outs.size()]).string();
      // the same command may be given more than once
      size_t n = k;
      for (size_t j = 0; j < k && n == k; j++)
        if (r[j].substr(r[j].size() - std::min(r[j].size(), tail.size())) == tail)
          n = (size_t)atoi(split3(r[j]).c_str());
      r.push_back("FG" + S + g.name + S + std::to_string(n) + tail);
      k++;
    }
    return r;
  }

  std::vector<std::unique_ptr<buildcc::CustomGenerator>> live;
  std::vector<std::unique_ptr<std::map<std::string, std::string>>> maps; // data of typed handlers
  bool build(unsigned workers) {
    execs.clear();
    seq.clear();
    count_ = 0;
    error.clear();
    stub::set_handler([this](const std::string &c, const std::string &, const stub::Reader &,
                             const stub::Reader &) { return run_cmd(c); });
    buildcc::Project::Deinit();
    buildcc::Project::Init(root, bdir);
    buildcc::env::set_task_state(buildcc::env::TaskState::SUCCESS);
    live.clear();
    maps.clear();
    for (size_t gi = 0; gi < gens.size(); gi++) {
      Gen &g = gens[gi];
      if (g.kind == CUSTOM) {
        auto x = std::make_unique<buildcc::CustomGenerator>(g.name, buildcc::TargetEnv(root, bdir));
        x->AddPattern("where", "{project_build_dir}/" + g.name);
        for (auto &id : g.ids) {
          std::unordered_set<std::string> in, ou;
          size_t nth = 0;
          for (auto &p : inputs_of(gi, id)) {
            std::string pre = root.string() + "/";
            if (++nth % 2 && p.compare(0, pre.size(), pre) == 0)
              in.insert((nth % 4 == 1 ? "{project_root_dir}/" : "{current_root_dir}/") + p.substr(pre.size()));
            else
              in.insert(p);
          }
          for (auto &o : id.outputs)
            ou.insert((++nth % 2 ? "{current_build_dir}/" : "{where}/") + o);
          std::shared_ptr<buildcc::CustomBlobHandler> h;
          if (id.has_blob && id.blob_kind == 2)
            h = std::make_shared<OwnHandler>(id.as_bytes());
          else if (id.has_blob && id.blob_kind == 1) {
            maps.push_back(std::make_unique<std::map<std::string, std::string>>(id.as_map()));
            h = std::make_shared<buildcc::TypedCustomBlobHandler<std::map<std::string, std::string>>>(*maps.back());
          } else if (id.has_blob)
            h = std::make_shared<buildcc::TypedCustomBlobHandler<std::vector<std::string>>>(id.blob);
          const Id *pid = &id;
          x->AddIdInfo(id.name, in, ou,
                       [this, gi, pid](const buildcc::CustomGeneratorContext &c) {
                         return run_id(gi, *pid, c.inputs, c.outputs, c.userblob);
                       },
                       h);
        }
        x->Build();
        live.push_back(std::move(x));
      } else if (g.kind == FILEG) {
        auto x = std::make_unique<buildcc::FileGenerator>(g.name, buildcc::TargetEnv(root, bdir));
        for (auto &p : inputs_of(gi, g.ids[0]))
          x->AddInput(p);
        for (auto &o : g.ids[0].outputs)
          x->AddOutput("{current_build_dir}/" + o);
        for (auto &o : g.ids[0].extra)
          x->AddOutput("{current_build_dir}/" + o);
        for (auto &c : commands(g)) {
          // the output path goes through an argument pattern
          auto cut = c.rfind(SEP);
          x->AddCommand(c.substr(0, cut + 1) + "{dst}", {{"dst", c.substr(cut + 1)}});
        }
        x->Build();
        live.push_back(std::move(x));
      } else {
        auto x = std::make_unique<buildcc::TemplateGenerator>(
            g.name, buildcc::TargetEnv(g.in_sub ? root / "sub" : root, bdir));
        for (auto &[k, v] : g.patterns)
          x->AddPattern(k, v);
        for (auto &id : g.ids)
          x->AddTemplate(path((size_t)*id.inputs.begin()).string(),
                         "{current_build_dir}/" + *id.outputs.begin());
        x->Build();
        live.push_back(std::move(x));
      }
    }
    tf::Taskflow flow;
    std::vector<tf::Task> tasks;
    for (auto &x : live)
      tasks.push_back(flow.composed_of(x->GetTaskflow()));
    for (size_t i = 1; i < tasks.size(); i++)
      tasks[i - 1].precede(tasks[i]);
    tf::Executor ex(workers);
    ex.run(flow).wait();
    if (!error.empty())
      ctx.fail(error);
    return buildcc::env::get_task_state() == buildcc::env::TaskState::SUCCESS;
  }

  void check_fresh(const std::string &when) {
    std::map<std::string, std::string> model; // expected contents of generated files
    auto get = [&](const std::string &p) {
      auto it = model.find(p);
      return it != model.end() ? it->second : (fs::exists(p) ? read_file(p) : std::string("<missing>"));
    };
    for (size_t gi = 0; gi < gens.size(); gi++) {
      Gen &g = gens[gi];
      std::map<std::string, std::string> mine;
      if (g.kind == FILEG) {
        for (auto &c : commands(g))
          mine[c.substr(c.rfind(SEP) + 1)] = file_content(gi, c, &model);
      } else
        for (auto &id : g.ids) {
          if (g.kind == TEMPL) {
            mine[out(g, *id.outputs.begin()).string()] =
                expand(files[(size_t)*id.inputs.begin()].body, g);
            continue;
          }
          std::map<std::string, std::string> in;
          for (auto &i : inputs_of(gi, id))
            in[i] = get(i);
          for (auto &o : id.outputs)
            mine[out(g, o).string()] = content(g.name, id, o, in);
        }
      for (auto &[p, c] : mine) {
        ctx.equal(read_file(p), c, when + ": " + p + " is stale");
        model[p] = c;
      }
    }
  }
  std::string exec_str() const {
    std::string r;
    for (auto &e : execs)
      r += " " + e.gen + "/" + e.id + (e.ok ? "" : "(FAILED)");
    return r.empty() ? " (nothing)" : r;
  }

  // ---- generation ---------------------------------------------------------
  static std::string val(Src &s, bool may_be_long = true) {
    static const std::vector<std::string> v{"x", "y", "zz", "", "w w", "X", "\xe2\x82\xac\xc3\xa9", "a\"b\\"};
    if (may_be_long && s.chance(1, 60)) // longer than any length prefix or buffer
      return std::string(s.pick(std::vector<size_t>{31, 255, 256, 4096, 65535, 65536, 70000}), s.coin() ? 'p' : 'q');
    return s.pick(v);
  }
  static std::string id_name(Src &s, size_t k) {
    static const std::vector<std::string> v{"", "", "", "", "", " a b", "/x.c", "\"q\\", "\xc3\xa9", "{x}", ".json",
                                            "\n"};
    return "id" + std::to_string(k) + s.pick(v);
  }
  bool gens_outputless_{false};
  void gen_id(Src &s, size_t gi, Id &id, size_t k) {
    for (int f = 0; f < 4; f++)
      if (s.chance(1, 3))
        id.inputs.insert(f);
    if (gi > 0)
      for (int l = 0; l < 3; l++)
        if (s.chance(1, 3))
          id.lib_inputs.insert(l);
    if (gens_outputless_ && s.chance(1, 10))
      ctx.label("id without outputs");
    else
      id.outputs.insert("o" + std::to_string(k));
    if (!id.outputs.empty() && s.chance(1, 3))
      id.outputs.insert("o" + std::to_string(k) + "b");
    if (s.chance(1, 2)) {
      id.has_blob = true;
      id.blob_kind = (int)s.weighted({6, 2, 2});
      size_t n = s.chance(1, 25) ? s.pick(std::vector<size_t>{15, 16, 17, 300}) : s.draw(3);
      for (size_t i = 0; i < n; i++)
        id.blob.push_back(val(s, n < 4));
    }
  }
  void gen_project(Src &s, size_t max, bool templates = true) {
    if (s.chance(1, 4)) { // a checkout: every file carries the same timestamp
      ctx.note("all files have the same timestamp");
      for (size_t f = 0; f < files.size(); f++)
        set_tick(path(f), files[f].tick = hi), files[f].past.insert(hi);
    }
    size_t n = 1 + s.draw(max);
    for (size_t i = 0; i < n; i++) {
      Span sp(s);
      Gen g;
      g.name = "g" + std::to_string(i);
      // a template generator reads project files only: keep it last in a chain
      g.kind = (GKind)s.weighted({5, 3, templates && i + 1 == n ? 2u : 0u});
      if (g.kind == CUSTOM) {
        size_t m = 1 + s.draw(s.chance(1, 14) ? 40 : 4);
        for (size_t k = 0; k < m; k++) {
          Id id;
          id.name = id_name(s, k);
          gens_outputless_ = true;
          gen_id(s, i, id, k);
          gens_outputless_ = false;
          g.ids.push_back(id);
        }
      } else if (g.kind == FILEG) {
        Id id;
        id.name = "Generate";
        gen_id(s, i, id, 0);
        id.has_blob = true;
        id.blob_kind = 0;
        while (id.blob.size() < id.outputs.size())
          id.blob.push_back(val(s));
        g.ids.push_back(id);
      } else {
        g.patterns = {{"a", val(s)}, {"c", val(s)}};
        for (int t = 0; t < 2; t++)
          if (t == 0 || s.coin()) {
            Id id;
            id.name = files[(size_t)(4 + t)].rel;
            id.inputs.insert(4 + t);
            id.outputs.insert("t" + std::to_string(t));
            g.ids.push_back(id);
          }
      }
      gens.push_back(g);
      ctx.note(describe(g));
    }
  }
  std::string describe(const Gen &g) const {
    std::string r = std::string(g.kind == CUSTOM ? "custom " : g.kind == FILEG ? "file " : "template ") + g.name;
    for (auto &id : g.ids) {
      r += " {" + id.name + " in=";
      for (int f : id.inputs)
        r += files[(size_t)f].rel + ",";
      for (int l : id.lib_inputs)
        r += "prev" + std::to_string(l) + ",";
      r += " out=";
      for (auto &o : id.outputs)
        r += o + ",";
      r += id.has_blob ? " blob=" + Ctx::show(id.blob) : "";
      r += "}";
    }
    return r;
  }
  std::string gen_edit(Src &s) {
    Span sp(s);
    size_t gi = s.draw(gens.size());
    Gen &g = gens[gi];
    size_t k = s.weighted({6, 2, 2, 3, 2});
    if (k == 0) {
      std::vector<int> used;
      for (auto &x : gens)
        for (auto &id : x.ids)
          used.insert(used.end(), id.inputs.begin(), id.inputs.end());
      if (used.empty())
        return "nothing to edit";
      int f = used[s.draw(used.size())];
      bool newer = !s.chance(1, 4);
      static const std::vector<int64_t> jumps{1, 1000, 1000000, 1000000000, 4294967296, 256, 86400000000000};
      jump = s.pick(jumps);
      write((size_t)f, newer);
      if (s.chance(1, 8)) { // as old as another file, as after a checkout or a copy
        size_t o = s.draw(files.size());
        if (files[(size_t)f].past.insert(files[o].tick).second) {
          set_tick(path((size_t)f), files[(size_t)f].tick = files[o].tick);
          jump = 1;
          return "edit " + files[(size_t)f].rel + " (same time as " + files[o].rel + ")";
        }
      }
      jump = 1;
      return "edit " + files[(size_t)f].rel + (newer ? "" : " (older)");
    }
    if (g.kind == TEMPL) {
      if (k == 1) { // second template comes and goes
        if (g.ids.size() == 2) {
          g.ids.pop_back();
          return g.name + ": remove the second template";
        }
        Id id;
        id.name = files[5].rel;
        id.inputs.insert(5);
        id.outputs.insert("t1");
        g.ids.push_back(id);
        return g.name + ": add a second template";
      }
      if (k == 2) {
        Id &id = g.ids[s.draw(g.ids.size())];
        std::string o = *id.outputs.begin();
        id.outputs = {o.back() == 'r' ? o.substr(0, o.size() - 1) : o + "r"};
        return g.name + ": rename output " + o;
      }
      if (k == 4) {
        g.in_sub = !g.in_sub;
        return g.name + ": another root directory";
      }
      std::string key = s.coin() ? "a" : "c";
      g.patterns[key] = val(s);
      return g.name + ": pattern " + key + "=" + g.patterns[key];
    }
    Id &id = g.ids[s.draw(g.ids.size())];
    switch (k) {
    case 1: {
      int f = (int)s.draw(4);
      if (!id.inputs.empty() && id.inputs.size() < 4 && s.chance(1, 3)) { // same number of inputs
        int old = *std::next(id.inputs.begin(), (long)s.draw(id.inputs.size()));
        while (id.inputs.count(f))
          f = (f + 1) % 4;
        id.inputs.erase(old);
        id.inputs.insert(f);
        return g.name + "/" + id.name + ": replace input " + files[(size_t)old].rel + " by " + files[(size_t)f].rel;
      }
      if (!id.inputs.erase(f))
        id.inputs.insert(f);
      return g.name + "/" + id.name + ": toggle input " + files[(size_t)f].rel;
    }
    case 2: {
      if (id.outputs.empty()) {
        std::string o = "o" + std::to_string(id.number());
        id.outputs.insert(o);
        return g.name + "/" + id.name + ": add output " + o;
      }
      if (g.kind == CUSTOM && id.outputs.size() == 1 && s.chance(1, 6)) {
        id.outputs.clear();
        return g.name + "/" + id.name + ": drop every output";
      }
      std::string base = *id.outputs.begin();
      if (s.chance(1, 3)) { // same number of outputs
        std::string old = *std::next(id.outputs.begin(), (long)s.draw(id.outputs.size()));
        std::string o = old.size() > 1 && old.back() == 'r' ? old.substr(0, old.size() - 1) : old + "r";
        if (!id.outputs.count(o)) {
          id.outputs.erase(old);
          id.outputs.insert(o);
          return g.name + "/" + id.name + ": rename output " + old + " to " + o;
        }
      }
      if (id.outputs.count(base + "b")) {
        id.outputs.erase(base + "b");
        return g.name + "/" + id.name + ": drop output " + base + "b";
      }
      id.outputs.insert(base + "b");
      if (g.kind == FILEG)
        while (id.blob.size() < id.outputs.size())
          id.blob.push_back(val(s));
      return g.name + "/" + id.name + ": add output " + base + "b";
    }
    case 3: {
      if (g.kind == FILEG) {
        size_t w = s.draw(5);
        if (w == 0)
          id.blob.push_back(s.coin() ? id.blob.back() : val(s));
        else if (w == 1 && id.blob.size() > id.outputs.size())
          id.blob.pop_back();
        else if (w == 2 && id.blob.size() > 1)
          std::swap(id.blob.front(), id.blob.back());
        else
          id.blob[s.draw(id.blob.size())] = val(s);
        return g.name + ": change command -> " + Ctx::show(id.blob);
      }
      size_t w = s.draw(7);
      if (w == 4 && id.blob_kind != 2 && id.has_blob) {
        id.blob_kind = 1 - id.blob_kind;
        return g.name + "/" + id.name + ": user data of another type";
      }
      if (w == 5 && !id.blob.empty() && id.has_blob) {
        id.blob[s.draw(id.blob.size())] = val(s);
        return g.name + "/" + id.name + ": user data " + Ctx::show(id.data());
      }
      if (w == 6 && id.blob.size() > 1 && id.has_blob) {
        std::swap(id.blob.front(), id.blob.back());
        return g.name + "/" + id.name + ": swap user data " + Ctx::show(id.data());
      }
      if (w == 0) {
        id.has_blob = !id.has_blob;
        return g.name + "/" + id.name + (id.has_blob ? ": start" : ": stop") + " using user data";
      }
      id.has_blob = true;
      if (w == 1 && !id.blob.empty())
        id.blob.pop_back();
      else
        id.blob.push_back(val(s));
      return g.name + "/" + id.name + ": user data " + Ctx::show(id.blob);
    }
    default: {
      if (g.kind != CUSTOM) { // an output that only the commands' side effects make
        std::string o = s.coin() ? "side0" : "side1";
        if (!id.extra.erase(o))
          id.extra.insert(o);
        return g.name + ": toggle output " + o;
      }
      if (g.ids.size() > 1 && s.coin()) {
        size_t which = s.draw(g.ids.size());
        std::string n = g.ids[which].name;
        g.removed.push_back(g.ids[which]);
        g.ids.erase(g.ids.begin() + (long)which);
        return g.name + ": remove " + n;
      }
      if (g.ids.size() < 45) {
        Id x;
        size_t kk = 0;
        auto used = [&] {
          for (auto &i : g.ids)
            if (i.number() == kk)
              return true;
          return false;
        };
        if (!g.removed.empty() && s.chance(2, 3)) { // an id comes back as it was
          x = g.removed[s.draw(g.removed.size())];
          kk = x.number();
          if (!used()) {
            g.ids.push_back(x);
            return g.name + ": add " + x.name + " again";
          }
          x = Id();
          kk = 0;
        }
        while (used())
          kk++;
        x.name = id_name(s, kk);
        gen_id(s, gi, x, kk);
        g.ids.push_back(x);
        return g.name + ": add " + x.name;
      }
      return "-";
    }
    }
  }
  // what an id's re-run decision may depend on
  struct Snap {
    std::map<std::string, int64_t> inputs; // path -> mtime ns
    std::set<std::string> outputs;
    bool has_blob{false};
    std::vector<std::string> blob;
    std::map<std::string, std::string> patterns;
    bool operator==(const Snap &o) const {
      return inputs == o.inputs && outputs == o.outputs && has_blob == o.has_blob && blob == o.blob &&
             patterns == o.patterns;
    }
  };
  static int64_t mtime(const std::string &p) {
    struct stat st;
    if (stat(p.c_str(), &st))
      return -1;
    return (int64_t)st.st_mtim.tv_sec * 1000000000 + st.st_mtim.tv_nsec;
  }
  Snap snap(size_t gi, const Id &id) const {
    Snap s;
    for (auto &i : inputs_of(gi, id))
      s.inputs[i] = mtime(i);
    s.outputs = id.outputs;
    for (auto &o : id.extra)
      s.outputs.insert("+" + o);
    s.has_blob = id.has_blob;
    if (id.has_blob) {
      s.blob = id.data();
      s.blob.push_back(id.blob_kind == 1 ? "map" : "");
    }
    if (gens[gi].kind == FILEG)
      s.blob = commands(gens[gi]);
    s.patterns = gens[gi].patterns;
    s.patterns[""] = gens[gi].in_sub ? "sub" : "";
    return s;
  }
  std::string record(const Gen &g) const { return (bdir / g.name / (g.name + ".json")).string(); }
};
} // namespace gw
