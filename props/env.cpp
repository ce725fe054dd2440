// E01 file save/load, E02 paths and text helpers, E03 object storage, E04
// running commands, Z01 build records on disk.
#include <sys/resource.h>
#include <sys/stat.h>
#include <fcntl.h>
#include <signal.h>

#include <algorithm>
#include <map>
#include <memory>
#include <mutex>
#include <set>
#include <thread>

#include "exec_stub.hpp"
#include "pbt.hpp"

#include "env/command.h"
#include "env/env.h"
#include "env/logging.h"
#include "env/storage.h"
#include "env/util.h"
#include "schema/custom_generator_serialization.h"
#include "schema/path.h"
#include "schema/target_serialization.h"
#include "target/custom_generator/custom_blob_handler.h"

using namespace pbt;
namespace env = buildcc::env;
using Strs = std::vector<std::string>;

namespace {

std::string bytes(Src &s, size_t max) {
  std::string r;
  static const std::vector<unsigned char> special{0, '\n', '\r', 0x1a, 0xff, 0xef, ' ', '"', '\\', 0x80};
  size_t n = s.draw(4) == 0 ? s.draw(max + 1) : s.draw(std::min<size_t>(max, 24) + 1);
  size_t kind = s.draw(3);
  if (n > 200) { // big contents: a repeated pattern
    std::string unit;
    for (size_t i = 0, u = 1 + s.draw(7); i < u; i++)
      unit += (char)s.draw(256);
    while (r.size() < n)
      r += unit;
    r.resize(n);
    return r;
  }
  for (size_t i = 0; i < n; i++)
    r += kind == 0 ? (char)('a' + s.draw(26)) : kind == 1 ? (char)s.pick(special) : (char)s.draw(256);
  return r;
}

// ------------------------------------------------------------------ E01 ----
void e01(Src &s, Ctx &ctx) {
  std::map<std::string, std::string> model; // name -> contents
  static const Strs names{"a", "b.bin", "d e", "sub/x", "sub/\xc3\xbc"};
  fs::create_directories(ctx.dir / "sub");
  fs::create_directories(ctx.dir / "dir");
  size_t n = 2 + s.draw(8);
  bool over = false, faulty = false;
  for (size_t i = 0; i < n; i++) {
    Span sp(s);
    size_t op = s.weighted({6, 5, 2, 2});
    if (op == 0) {
      std::string name = s.pick(names), data = bytes(s, 70000);
      bool bin = s.coin();
      ctx.note("save " + name + " " + std::to_string(data.size()) + " bytes" + (bin ? " binary" : " text"));
      over |= model.count(name) != 0;
      bool ok = s.coin() ? env::save_file((ctx.dir / name).c_str(), data, bin)
                         : env::save_file((ctx.dir / name).c_str(), data.data(), data.size(), bin);
      ctx.check(ok, "saving " + name + " failed");
      model[name] = data;
      ctx.check(read_file(ctx.dir / name) == data, "file " + name + " does not contain exactly the saved bytes");
    } else if (op == 1) {
      std::string name = s.pick(names), buf = bytes(s, 300);
      bool bin = s.coin();
      ctx.note("load " + name + (bin ? " binary" : " text") + " into " + std::to_string(buf.size()) + " byte buffer");
      bool ok = env::load_file((ctx.dir / name).c_str(), bin, &buf);
      ctx.equal(ok, model.count(name) != 0, "result of loading " + name);
      if (ok)
        ctx.check(buf == model[name], "loading " + name + " gave " + Ctx::show(buf) + " instead of " +
                                          Ctx::show(model[name]));
    } else if (op == 2) { // places that cannot be read or written
      std::string buf = "old", data = bytes(s, 50);
      static const Strs bad{"dir", "missing/x", "a/b/c", ""};
      std::string w = s.pick(bad);
      fs::path p = w.empty() ? fs::path() : ctx.dir / w;
      ctx.note("bad path '" + w + "'");
      ctx.check(!env::save_file(p.c_str(), data, s.coin()), "saving to '" + w + "' reported success");
      ctx.check(!env::load_file(p.c_str(), s.coin(), &buf), "loading '" + w + "' reported success");
      ctx.check(!env::save_file(nullptr, data, false), "saving without a name reported success");
      ctx.check(!env::load_file(nullptr, false, &buf), "loading without a name reported success");
      ctx.check(!env::load_file((ctx.dir / "a").c_str(), false, nullptr), "loading without a buffer reported success");
      ctx.check(!env::save_file((ctx.dir / "nobuf").c_str(), nullptr, 3, false), "saving no buffer reported success");
    } else { // the medium fills up after `limit` bytes
      faulty = true;
      std::string data = bytes(s, 70000);
      bool bin = s.coin();
      if (s.coin()) {
        bool ok = env::save_file("/dev/full", data, bin);
        ctx.note("save " + std::to_string(data.size()) + " bytes to a full device");
        ctx.equal(ok, data.empty(), "result of saving " + std::to_string(data.size()) + " bytes to a full device");
      } else {
        size_t limit = s.draw(70000);
        ctx.note("save " + std::to_string(data.size()) + " bytes, medium full after " + std::to_string(limit));
        fs::path p = ctx.dir / "limited";
        auto r = run_forked([&]() -> std::string {
          signal(SIGXFSZ, SIG_IGN);
          rlimit rl{limit, limit};
          setrlimit(RLIMIT_FSIZE, &rl);
          return env::save_file(p.c_str(), data, bin) ? "1" : "0";
        });
        ctx.check(r.returned, "save_file did not return when the medium was full");
        bool complete = read_file(p) == data;
        ctx.equal(r.out == "1", complete, "reported result of a save with the medium full after " +
                                              std::to_string(limit) + " bytes");
        fs::remove(p);
      }
    }
  }
  if (over || faulty)
    ctx.nontrivial();
}

// ------------------------------------------------------------------ E02 ----
std::string norm(const std::string &p) { return fs::path(p).lexically_normal().string(); }

void e02(Src &s, Ctx &ctx) {
  static const Strs comp{"a", "b b", "..", ".", "", "x.y", "__", "a  b", " ", "(z)", "=", "c++", "\xc3\xbc", "-I", "'"};
  auto gen = [&]() {
    std::string p = s.coin() ? "/" : "";
    size_t n = 1 + s.draw(6);
    for (size_t i = 0; i < n; i++)
      p += (i ? "/" : "") + s.pick(comp);
    if (s.chance(1, 4))
      p += "/";
    return p;
  };
  Strs paths;
  size_t n = 1 + s.some(8);
  for (size_t i = 0; i < n; i++) {
    Span sp(s);
    paths.push_back(gen());
  }
  ctx.note(Ctx::show(paths));
  bool spaces = false, dots = false;
  buildcc::internal::PathList list, list2;
  buildcc::internal::PathInfoList infos;
  Strs expect;
  for (auto &p : paths) {
    std::string m = norm(p), a = buildcc::path_as_string(p);
    dots |= m != p;
    ctx.equal(a, m, "normalised form of " + Ctx::show(p));
    ctx.equal(buildcc::path_as_string(a), a, "normalising twice");
    ctx.equal(buildcc::string_as_path(p).string(), m, "string_as_path of " + Ctx::show(p));
    std::string d = buildcc::path_as_display_string(p);
    bool sp = m.find(' ') != std::string::npos;
    spaces |= sp;
    ctx.equal(d, sp ? "\"" + m + "\"" : m, "display form of " + Ctx::show(p));
    ctx.equal(fmt::format("{}", fs::path(p)), d, "formatting of " + Ctx::show(p));
    list.Emplace(p);
    infos.Emplace(p, std::to_string(expect.size()));
    expect.push_back(m);
  }
  ctx.equal(list.GetPaths(), expect, "list of paths");
  ctx.equal(infos.GetPaths(), expect, "list of paths with hashes");
  for (size_t i = 0; i < n; i++)
    ctx.equal(infos.GetPathInfos()[i].hash, std::to_string(i), "hash of entry " + std::to_string(i));
  std::map<std::string, std::string> first;
  for (size_t i = 0; i < n; i++)
    first.emplace(expect[i], std::to_string(i));
  auto um = infos.GetUnorderedPathInfos();
  ctx.equal(std::map<std::string, std::string>(um.begin(), um.end()), first, "map of paths with hashes");
  auto us = list.GetUnorderedPaths();
  ctx.equal(std::set<std::string>(us.begin(), us.end()), std::set<std::string>(expect.begin(), expect.end()),
            "set of paths");
  // concatenation and equality
  size_t cut = s.draw(n + 1);
  buildcc::internal::PathInfoList i1, i2;
  buildcc::internal::PathList l1, l2;
  for (size_t i = 0; i < n; i++) {
    (i < cut ? i1 : i2).Emplace(paths[i], std::to_string(i));
    (i < cut ? l1 : l2).Emplace(paths[i]);
  }
  i1.Insert(i2);
  l1.Insert(l2);
  ctx.check(i1 == infos && l1 == list, "joined lists differ from the original");
  if (n > 1) {
    size_t how = s.draw(3); // swap, drop, change hash
    size_t k = s.draw(how == 0 ? n - 1 : n);
    buildcc::internal::PathInfoList other;
    buildcc::internal::PathList lother;
    for (size_t i = 0; i < n; i++) {
      size_t j = how == 0 && i == k ? k + 1 : how == 0 && i == k + 1 ? k : i;
      if (how == 1 && i == k)
        continue;
      other.Emplace(paths[j], how == 2 && i == k ? "changed" : std::to_string(j));
      lother.Emplace(paths[j]);
    }
    ctx.check(!(other == infos) && !(infos == other), "a different list (" + std::to_string(how) + ") compares equal");
    ctx.equal(lother == list, lother.GetPaths() == expect, "equality of path lists");
    ctx.equal(list == lother, lother.GetPaths() == expect, "equality of path lists");
  }
  // change detection is exactly the modification time
  {
    fs::path f = ctx.dir / "f", g = ctx.dir / "g";
    write_file(f, "1");
    write_file(g, "2");
    auto touch = [&](const fs::path &p, int64_t sec, long ns) {
      timespec ts[2] = {{sec, ns}, {sec, ns}};
      utimensat(AT_FDCWD, p.c_str(), ts, 0);
    };
    static const std::vector<int64_t> d{0, 1, 1000, 1000000, 1000000000, 4294967296, 86400000000000, 256, 65536};
    int64_t base = 1500000000ll * 1000000000 + (int64_t)s.draw(1000000000);
    int64_t other = base + (s.coin() ? 1 : -1) * s.pick(d) * s.range(0, 3);
    touch(f, base / 1000000000, base % 1000000000);
    touch(g, other / 1000000000, other % 1000000000);
    struct stat a, b;
    stat(f.c_str(), &a);
    stat(g.c_str(), &b);
    bool same = a.st_mtim.tv_sec == b.st_mtim.tv_sec && a.st_mtim.tv_nsec == b.st_mtim.tv_nsec;
    ctx.note("timestamps differ by " + std::to_string(other - base));
    using L = buildcc::internal::PathInfoList;
    ctx.equal(L::ComputeHash(f.string()) == L::ComputeHash(g.string()), same, "hashes equal");
    write_file(f, "3");
    touch(f, base / 1000000000, base % 1000000000);
    L two;
    two.Emplace(f, "");
    two.Emplace(g, "");
    two.ComputeHashForAll();
    ctx.equal(two.GetPathInfos()[0].hash, L::ComputeHash(f.string()), "hash of the first of two files");
    ctx.equal(two.GetPathInfos()[1].hash, L::ComputeHash(g.string()), "hash of the second of two files");
    two.Emplace(ctx.dir / "missing", "");
    ctx.check(fatal([&] { two.ComputeHashForAll(); }), "a missing file got a hash");
  }
  // split / trim
  {
    static const std::string chars = std::string(":: ;ab \t\n\r\v\f\xc3") + '\0';
    std::string t;
    for (size_t i = 0, m = s.draw(12); i < m; i++)
      t += chars[s.draw(chars.size())];
    char delim = s.coin() ? ':' : ';';
    Strs e;
    size_t pos = 0;
    while (pos < t.size()) { // a final delimiter ends the last item
      size_t q = t.find(delim, pos);
      if (q == std::string::npos)
        q = t.size();
      e.push_back(t.substr(pos, q - pos));
      pos = q + 1;
    }
    ctx.note("text " + Ctx::show(t));
    ctx.equal(env::split(t, delim), e, "split of " + Ctx::show(t));
    const char *ws = " \t\n\r\v\f";
    auto a = t.find_first_not_of(ws), b = t.find_last_not_of(ws);
    ctx.equal(env::trim(t), a == std::string::npos ? "" : t.substr(a, b - a + 1), "trim of " + Ctx::show(t));
    ctx.equal(env::ltrim(t), a == std::string::npos ? "" : t.substr(a), "ltrim of " + Ctx::show(t));
    ctx.equal(env::rtrim(t), b == std::string::npos ? "" : t.substr(0, b + 1), "rtrim of " + Ctx::show(t));
  }
  if (spaces || dots)
    ctx.nontrivial();
}

// ------------------------------------------------------------------ E03 ----
struct Life {
  std::map<int, int> alive; // object -> times destroyed
  int next{0};
};
Life *g_life;
struct ThrowNow {};
template <int K> struct Obj {
  int id, a;
  std::string b;
  Obj(int a, const std::string &b, bool boom = false) : id(g_life->next++), a(a), b(b) {
    if (boom)
      throw std::runtime_error("constructor");
    g_life->alive[id] = 0;
  }
  Obj(const Obj &) = delete;
  ~Obj() { g_life->alive[id]++; }
};
struct Entry {
  int type, a, id;
  std::string b;
  const void *addr;
};
struct GlobalStore {
  template <typename T, typename... P> T &Add(const std::string &i, P &&...p) {
    return buildcc::Storage::Add<T>(i, std::forward<P>(p)...);
  }
  template <typename T> const T &ConstRef(const std::string &i) const { return buildcc::Storage::ConstRef<T>(i); }
  template <typename T> T &Ref(const std::string &i) { return buildcc::Storage::Ref<T>(i); }
  bool Contains(const std::string &i) const { return buildcc::Storage::Contains(i); }
  template <typename T> bool Valid(const std::string &i) const { return buildcc::Storage::Valid<T>(i); }
  void Clear() { buildcc::Storage::Clear(); }
  ~GlobalStore() { Clear(); }
};
template <typename S, int K> void e03_probe(S &st, std::map<std::string, Entry> &model, const std::string &id, Ctx &ctx,
                                            Src &s, bool write) {
  auto it = model.find(id);
  bool want = it != model.end() && it->second.type == K;
  ctx.equal(st.Contains(id), it != model.end(), "contains " + Ctx::show(id));
  ctx.equal(st.template Valid<Obj<K>>(id), want, "valid " + Ctx::show(id) + " as type " + std::to_string(K));
  const void *p = nullptr;
  int a = 0, oid = -1;
  std::string b;
  bool bad = fatal([&] {
    const Obj<K> &o = st.template ConstRef<Obj<K>>(id);
    p = &o;
    a = o.a;
    b = o.b;
    oid = o.id;
  });
  ctx.equal(bad, !want, "const reference to " + Ctx::show(id) + " as type " + std::to_string(K) + " rejected");
  bool bad2 = fatal([&] {
    Obj<K> &o = st.template Ref<Obj<K>>(id);
    if (want)
      ctx.check(p == &o, "two references to the same object differ");
    if (write && want) {
      o.a += 7;
      it->second.a += 7;
      a = o.a;
    }
  });
  ctx.equal(bad2, !want, "reference to " + Ctx::show(id) + " rejected");
  if (want) {
    ctx.check(p == it->second.addr && oid == it->second.id, "the stored object was moved or replaced");
    ctx.equal(a, it->second.a, "field of " + Ctx::show(id));
    ctx.equal(b, it->second.b, "field of " + Ctx::show(id));
  }
  (void)s;
}
template <typename S, int K> void e03_add(S &st, std::map<std::string, Entry> &model, const std::string &id, Ctx &ctx,
                                          Src &s) {
  int a = (int)s.draw(100);
  std::string b(s.draw(40), 'q');
  bool boom = s.chance(1, 8);
  const Obj<K> *p = nullptr;
  int before = g_life->next;
  bool bad = fatal([&] { p = &st.template Add<Obj<K>>(id, a, b, boom); });
  bool dup = model.count(id) != 0;
  ctx.equal(bad, dup || boom, "adding " + Ctx::show(id) + (dup ? " again" : "") + " rejected");
  if (!bad) {
    ctx.check(p->a == a && p->b == b, "constructor arguments were not passed on");
    model[id] = {K, a, p->id, b, p};
  }
  if (dup && g_life->next != before) // a rejected object must not linger
    for (int i = before; i < g_life->next; i++)
      if (g_life->alive.count(i))
        ctx.equal(g_life->alive[i], 1, "times the rejected object was destroyed");
}
template <typename S> void e03_run(Src &s, Ctx &ctx, S &st, std::map<std::string, Entry> &model) {
  static const Strs ids{"a", "b", "", "a b", "A", "aa", std::string("a\0b", 3), std::string("a\0c", 3), std::string(300, 'a')};
  size_t n = 3 + s.draw(20);
  bool wrong = false, dup = false, clear = false;
  if (s.chance(1, 20)) { // many objects, of which the steps below see a few and the end of the case sees all
    size_t m = 50 + s.draw(500);
    ctx.note(std::to_string(m) + " objects");
    ctx.label("many objects");
    for (size_t i = 0; i < m; i++) {
      const auto &o = st.template Add<Obj<1>>("m" + std::to_string(i), (int)i, std::string("m"), false);
      model["m" + std::to_string(i)] = {1, (int)i, o.id, "m", &o};
    }
    for (size_t i = 0; i < m; i++)
      e03_probe<S, 1>(st, model, "m" + std::to_string(i), ctx, s, false);
  }
  for (size_t i = 0; i < n; i++) {
    Span sp(s);
    std::string id = s.pick(ids);
    int k = (int)s.draw(3);
    size_t op = s.weighted({5, 5, 1});
    ctx.note((op == 0 ? "add " : op == 1 ? "get " : "clear ") + Ctx::show(id) + " type " + std::to_string(k));
    if (op == 0) {
      dup |= model.count(id) != 0;
      k == 0 ? e03_add<S, 0>(st, model, id, ctx, s) : k == 1 ? e03_add<S, 1>(st, model, id, ctx, s)
                                                               : e03_add<S, 2>(st, model, id, ctx, s);
    } else if (op == 1) {
      wrong |= model.count(id) && model[id].type != k;
      bool w = s.coin();
      k == 0 ? e03_probe<S, 0>(st, model, id, ctx, s, w) : k == 1 ? e03_probe<S, 1>(st, model, id, ctx, s, w)
                                                                    : e03_probe<S, 2>(st, model, id, ctx, s, w);
    } else {
      clear = true;
      st.Clear();
      for (auto &[_, e] : model)
        ctx.equal(g_life->alive[e.id], 1, "times a cleared object was destroyed");
      model.clear();
    }
    for (auto &[name, e] : model)
      ctx.equal(g_life->alive[e.id], 0, "times the live object " + name + " was destroyed");
  }
  if (wrong || dup || clear)
    ctx.nontrivial();
}
// small and related types
template <int K> struct Tiny {};
struct Base {
  int x{1};
  virtual ~Base() = default;
};
struct Derived : Base {};
template <typename T, typename U> void e03_pair(Ctx &ctx, buildcc::ScopedStorage &st, const std::string &what) {
  bool same = std::is_same_v<T, U>;
  ctx.equal(st.Valid<U>("x"), same, "valid: " + what);
  const void *p = nullptr;
  ctx.equal(fatal([&] { p = &st.ConstRef<U>("x"); }), !same, "const reference rejected: " + what);
  ctx.equal(fatal([&] { p = &st.Ref<U>("x"); }), !same, "reference rejected: " + what);
}
template <typename T> void e03_types(Ctx &ctx, const std::string &t) {
  buildcc::ScopedStorage st;
  st.Add<T>("x");
  e03_pair<T, Tiny<0>>(ctx, st, t + " as tiny 0");
  e03_pair<T, Tiny<1>>(ctx, st, t + " as tiny 1");
  e03_pair<T, bool>(ctx, st, t + " as bool");
  e03_pair<T, char>(ctx, st, t + " as char");
  e03_pair<T, int>(ctx, st, t + " as int");
  e03_pair<T, unsigned>(ctx, st, t + " as unsigned");
  e03_pair<T, Base>(ctx, st, t + " as base");
  e03_pair<T, Derived>(ctx, st, t + " as derived");
  e03_pair<T, std::string>(ctx, st, t + " as string");
}
void e03(Src &s, Ctx &ctx) {
  Life life;
  if (s.chance(1, 8))
    switch (s.draw(9)) {
    case 0: e03_types<Tiny<0>>(ctx, "tiny 0"); break;
    case 1: e03_types<Tiny<1>>(ctx, "tiny 1"); break;
    case 2: e03_types<bool>(ctx, "bool"); break;
    case 3: e03_types<char>(ctx, "char"); break;
    case 4: e03_types<int>(ctx, "int"); break;
    case 5: e03_types<unsigned>(ctx, "unsigned"); break;
    case 6: e03_types<Base>(ctx, "base"); break;
    case 7: e03_types<Derived>(ctx, "derived"); break;
    default: e03_types<std::string>(ctx, "string");
    }
  g_life = &life;
  std::map<std::string, Entry> model;
  if (s.coin()) {
    ctx.label("scoped");
    buildcc::ScopedStorage st;
    e03_run(s, ctx, st, model);
  } else {
    ctx.label("global");
    GlobalStore st;
    e03_run(s, ctx, st, model);
  }
  for (auto &[id, n] : life.alive)
    ctx.equal(n, 1, "times object " + std::to_string(id) + " was destroyed");
}

// ------------------------------------------------------------------ E04 ----
struct Cmd {
  std::string line, out, err;
  bool ok{true};
  int cwd{0}; // 0 none 1 sub 2 missing
  bool want_out{true}, want_err{true};
};
Cmd gen_cmd(Src &s, const fs::path &dir, size_t idx) {
  Cmd c;
  size_t n = s.draw(4);
  c.cwd = (int)s.weighted({4, 3, 1});
  c.want_out = !s.chance(1, 4);
  c.want_err = !s.chance(1, 4);
  std::string script;
  for (size_t i = 0; i < n; i++) {
    Span sp(s);
    size_t k = s.weighted({4, 4, 2, 2});
    std::string t;
    bool big = s.chance(1, 10);
    if (big) {
      size_t len = 1000 + s.draw(300000);
      if (s.chance(1, 6)) // far more than a pipe holds, so that it is read in hundreds of pieces
        len = 5000000 + s.draw(15000000);
      char ch = (char)('a' + s.draw(26));
      t = std::string(len, ch);
      std::string cmd = "head -c " + std::to_string(len) + " /dev/zero | tr '\\0' " + ch;
      if (k % 2 == 0)
        script += cmd + "; ", c.out += t;
      else
        script += "{ " + cmd + "; } 1>&2; ", c.err += t;
      continue;
    }
    if (s.chance(1, 12)) { // many separate writes
      size_t m = 50 + s.draw(400);
      for (size_t j = 0; j < m; j++)
        t += "l" + std::to_string(j) + "\n";
      script += "i=0; while [ $i -lt " + std::to_string(m) + " ]; do echo l$i" + (k % 2 == 0 ? "" : " 1>&2") +
                "; i=$((i+1)); done; ";
      (k % 2 == 0 ? c.out : c.err) += t;
      continue;
    }
    t = "t" + std::to_string(idx) + "." + std::to_string(s.draw(1000)) + (s.coin() ? "\n" : "");
    std::string esc = t;
    if (s.chance(1, 4)) { // bytes that are no text
      static const std::vector<std::pair<const char *, char>> raw{{"\\000", '\0'}, {"\\377", '\xff'}, {"\\033", '\033'}, {"\\r", '\r'}};
      for (size_t j = 1 + s.draw(3); j > 0; j--) {
        auto &[e, ch] = s.pick(raw);
        t = std::string(1, ch) + t;
        esc = e + esc;
      }
    }
    if (!esc.empty() && esc.back() == '\n')
      esc = esc.substr(0, esc.size() - 1) + "\\n";
    if (k == 0)
      script += "printf '" + esc + "'; ", c.out += t;
    else if (k == 1)
      script += "printf '" + esc + "' 1>&2; ", c.err += t;
    else if (k == 2) {
      script += "pwd; ";
      c.out += (c.cwd == 1 ? (dir / "sub dir") : fs::current_path()).string() + "\n";
    } else { // a failing step in the middle does not decide
      script += "false; ";
      c.ok = true;
    }
  }
  if (!c.want_out) // not captured: keep the terminal quiet
    script = "exec 1>/dev/null; " + script;
  if (!c.want_err)
    script = "exec 2>/dev/null; " + script;
  switch (s.weighted({4, 4, 2, 1, 1})) {
  case 0:
    script += "exit 0";
    c.ok = true;
    break;
  case 1: {
    static const std::vector<int> codes{1, 2, 3, 64, 77, 126, 127, 128, 129, 254, 255, 256, 512};
    int code = s.pick(codes);
    script += "exit " + std::to_string(code & 255);
    c.ok = (code & 255) == 0;
    break;
  }
  case 2: {
    static const Strs sig{"KILL", "TERM", "SEGV", "ABRT", "INT"};
    script += "kill -" + s.pick(sig) + " $$; sleep 5";
    c.ok = false;
    break;
  }
  case 3:
    script += "exec /nonexistent/tool" + std::string(c.want_err ? " 2>/dev/null" : "");
    c.ok = false;
    break;
  default:
    script += "true";
    c.ok = true;
    break;
  }
  c.line = script;
  if (c.cwd == 2) {
    c.ok = false;
    c.out.clear();
    c.err.clear();
  }
  return c;
}
void e04(Src &s, Ctx &ctx) {
  fs::create_directories(ctx.dir / "sub dir");
  fs::path dir = fs::canonical(ctx.dir);
  size_t n = 1 + s.draw(4);
  std::vector<Cmd> cmds;
  for (size_t i = 0; i < n; i++) {
    Span sp(s);
    cmds.push_back(gen_cmd(s, dir, i));
    ctx.note("cwd=" + std::to_string(cmds[i].cwd) + " " + cmds[i].line + (cmds[i].want_out ? "" : " [no stdout]") +
             (cmds[i].want_err ? "" : " [no stderr]"));
    if (!cmds[i].ok)
      ctx.nontrivial();
    if (cmds[i].out.size() > 1000 || cmds[i].err.size() > 1000)
      ctx.label("big output");
  }
  if (n > 1)
    ctx.nontrivial();
  struct Res {
    bool ok;
    Strs out, err;
    bool threw{false};
  };
  std::vector<Res> res(n);
  auto one = [&](size_t i) {
    const Cmd &c = cmds[i];
    buildcc::env::optional<fs::path> cwd;
    if (c.cwd == 1)
      cwd = dir / "sub dir";
    if (c.cwd == 2)
      cwd = dir / "missing";
    try {
      res[i].ok = env::Command::Execute(c.line, cwd, c.want_out ? &res[i].out : nullptr,
                                        c.want_err ? &res[i].err : nullptr);
    } catch (...) {
      res[i].threw = true;
    }
  };
  bool par = s.coin();
  if (par) {
    std::vector<std::thread> th;
    for (size_t i = 0; i < n; i++)
      th.emplace_back(one, i);
    for (auto &t : th)
      t.join();
  } else
    for (size_t i = 0; i < n; i++)
      one(i);
  auto cat = [](const Strs &v) {
    std::string r;
    for (auto &x : v)
      r += x;
    return r;
  };
  for (size_t i = 0; i < n; i++) {
    std::string w = "command " + Ctx::show(cmds[i].line);
    ctx.check(!res[i].threw, w + " raised an error instead of returning its result");
    ctx.equal(res[i].ok, cmds[i].ok, "result of " + w);
    if (cmds[i].want_out)
      ctx.check(cat(res[i].out) == cmds[i].out,
                "captured stdout of " + w + ": " + Ctx::show(cat(res[i].out)) + " expected " + Ctx::show(cmds[i].out));
    if (cmds[i].want_err)
      ctx.check(cat(res[i].err) == cmds[i].err,
                "captured stderr of " + w + ": " + Ctx::show(cat(res[i].err)) + " expected " + Ctx::show(cmds[i].err));
  }
  ctx.check(fatal([&] { env::Command::Execute(""); }), "an empty command was accepted");
  if (s.chance(1, 4)) { // the system cannot start (or not fully serve) the command
    int spare = (int)s.draw(8);
    bool wo = s.coin(), we = s.coin();
    ctx.note("command with " + std::to_string(spare) + " free file descriptors" + (wo ? " stdout" : "") +
             (we ? " stderr" : ""));
    ctx.label("no resources");
    auto r = run_forked([&]() -> std::string {
      int fd = open("/dev/null", O_RDONLY);
      close(fd);
      rlimit rl{(rlim_t)(fd + spare), (rlim_t)(fd + spare)};
      setrlimit(RLIMIT_NOFILE, &rl);
      Strs out, err;
      bool ok = env::Command::Execute("mkdir '" + (dir / "ran").string() + (wo ? "' && echo x" : "'"), {}, wo ? &out : nullptr,
                                      we ? &err : nullptr);
      return std::string(ok ? "1" : "0") + (wo ? cat(out) : "x\n");
    });
    ctx.check(r.returned, "a command that could not be started crashed the caller");
    bool ran = fs::is_directory(dir / "ran");
    if (!r.out.empty() && r.out[0] == '1')
      ctx.check(ran && r.out == "1x\n", "a command that was not run with " + std::to_string(spare) +
                                            " free file descriptors was reported as successful");
    if (spare > 6)
      ctx.check(ran && r.out == "1x\n", "a command was reported as failed though it was run");
  }
}

// ------------------------------------------------------------------ Z01 ----
using TS = buildcc::internal::TargetSchema;
using CS = buildcc::internal::CustomGeneratorSchema;

bool g_foreign_text = false; // also text that is not valid UTF-8
std::string text(Src &s) {
  if (s.chance(1, 60))
    return std::string(s.pick(std::vector<size_t>{255, 256, 4096, 65536, 70000}), 'l');
  static const Strs odd{"\xff", "a\xc3", "\xe2\x82", "caf\xe9.cpp", "\xed\xa0\x80"};
  if (g_foreign_text && s.chance(1, 12))
    return s.pick(odd);
  static const Strs pool{"",      "a",          "/r/src/main.cpp", "-DX=\"y z\"", "{x}",       "\xc3\xa9\xe2\x82\xac",
                         "a\\b",  "tab\there",  "line\nbreak",     "\x01\x1f",    "null",      "-Wl,-rpath,$ORIGIN",
                         "1e999", "\xf0\x9f\x98\x80", "..",          "c:/a b/c",    "'quoted'", "</script>"};
  if (s.chance(1, 6)) {
    std::string r;
    for (size_t i = 0, n = s.draw(20); i < n; i++)
      r += (char)s.draw(128);
    return r;
  }
  return s.pick(pool);
}
Strs texts(Src &s) {
  Strs r;
  for (size_t i = 0, n = s.chance(1, 60) ? s.pick(std::vector<size_t>{16, 100, 300}) : s.some(4); i < n; i++)
    r.push_back(text(s));
  return r;
}
buildcc::internal::PathInfoList infos(Src &s) {
  buildcc::internal::PathInfoList l;
  for (size_t i = 0, n = s.some(4); i < n; i++) {
    std::string p = text(s);
    l.Emplace(p, s.coin() ? std::to_string(mix(s.draw(1000))) : text(s));
  }
  return l;
}
buildcc::internal::PathList plist(Src &s) {
  buildcc::internal::PathList l;
  for (size_t i = 0, n = s.some(4); i < n; i++)
    l.Emplace(text(s));
  return l;
}
TS gen_ts(Src &s) {
  TS t;
  t.name = text(s);
  t.type = (buildcc::TargetType)s.draw(4);
  for (auto *l : {&t.sources, &t.headers, &t.pchs, &t.libs, &t.compile_dependencies, &t.link_dependencies}) {
    Span sp(s);
    *l = infos(s);
  }
  t.include_dirs = plist(s);
  t.lib_dirs = plist(s);
  for (auto *l : {&t.external_libs, &t.preprocessor_flags, &t.common_compile_flags, &t.pch_compile_flags,
                  &t.pch_object_flags, &t.asm_compile_flags, &t.c_compile_flags, &t.cpp_compile_flags, &t.link_flags}) {
    Span sp(s);
    *l = texts(s);
  }
  t.pch_compiled = s.coin();
  t.target_linked = s.coin();
  return t;
}
std::string str(const buildcc::internal::PathInfoList &l) {
  std::string r = "(";
  for (auto &i : l.GetPathInfos())
    r += Ctx::show(i.path) + "=" + Ctx::show(i.hash) + ",";
  return r + ")";
}
// every field, readable
Strs fields(const TS &t, bool stages) {
  Strs r{"name=" + Ctx::show(t.name), "type=" + std::to_string((int)t.type), "headers=" + str(t.headers),
         "libs=" + str(t.libs), "cdeps=" + str(t.compile_dependencies), "ldeps=" + str(t.link_dependencies),
         "inc=" + Ctx::show(t.include_dirs.GetPaths()), "libdirs=" + Ctx::show(t.lib_dirs.GetPaths()),
         "ext=" + Ctx::show(t.external_libs), "pre=" + Ctx::show(t.preprocessor_flags),
         "common=" + Ctx::show(t.common_compile_flags), "pchc=" + Ctx::show(t.pch_compile_flags),
         "pcho=" + Ctx::show(t.pch_object_flags), "asm=" + Ctx::show(t.asm_compile_flags),
         "c=" + Ctx::show(t.c_compile_flags), "cpp=" + Ctx::show(t.cpp_compile_flags),
         "link=" + Ctx::show(t.link_flags)};
  if (stages) {
    r.push_back("sources=" + str(t.sources));
    r.push_back("pchs=" + str(t.pchs));
    r.push_back("pch_compiled=" + std::to_string(t.pch_compiled));
    r.push_back("target_linked=" + std::to_string(t.target_linked));
  }
  return r;
}
Strs fields(const CS &c) {
  std::map<std::string, std::string> m;
  for (auto &[k, v] : c.internal_ids)
    m[k] = str(v.inputs) + Ctx::show(v.outputs.GetPaths()) + Ctx::show(std::string(v.userblob.begin(), v.userblob.end())) +
           std::to_string(v.userblob.size()) + ":" + std::to_string(hash_str(std::string(v.userblob.begin(), v.userblob.end())));
  Strs r;
  for (auto &[k, v] : m)
    r.push_back(Ctx::show(k) + "->" + v);
  return r;
}
std::string damage(Src &s, std::string d, Ctx &ctx, bool &prefix) {
  prefix = false;
  switch (s.draw(7)) {
  case 6: { // a field is missing
    json j = json::parse(d, nullptr, false);
    json *o = &j;
    if (j.contains("ids") && j["ids"].is_object() && !j["ids"].empty() && s.chance(3, 4)) {
      auto it = j["ids"].begin();
      std::advance(it, (long)s.draw(j["ids"].size()));
      o = &*it;
    }
    if (!o->is_object() || o->empty())
      return d;
    auto it = o->begin();
    std::advance(it, (long)s.draw(o->size()));
    ctx.note("damage: field " + Ctx::show(it.key()) + " is missing");
    o->erase(it);
    prefix = true;
    return j.dump(4);
  }
  case 0: { // torn write
    size_t n = s.draw(d.size());
    ctx.note("damage: only the first " + std::to_string(n) + " of " + std::to_string(d.size()) + " bytes");
    prefix = true;
    return d.substr(0, n);
  }
  case 1: {
    for (size_t i = 0, n = 1 + s.some(4); i < n && !d.empty(); i++)
      d[s.draw(d.size())] = (char)s.draw(256);
    ctx.note("damage: random bytes");
    return d;
  }
  case 2: {
    size_t n = s.draw(d.size());
    ctx.note("damage: zeroed from " + std::to_string(n));
    std::fill(d.begin() + (long)n, d.end(), '\0');
    prefix = true;
    return d;
  }
  case 3: { // swap JSON values
    static const Strs v{"null", "1", "\"s\"", "[]", "{}", "[1]", "[{}]", "true", "-1", "1e400", "[null]", "{\"path\":1}"};
    size_t p = d.find(':', s.draw(d.size()));
    if (p == std::string::npos)
      return "{}";
    size_t e = d.find(",\n", p);
    if (e == std::string::npos)
      return "[]";
    std::string nv = s.pick(v);
    ctx.note("damage: a value becomes " + nv);
    return d.substr(0, p + 1) + nv + d.substr(e);
  }
  case 4: {
    static const Strs v{"", " ", "null", "[]", "{}", "\xef\xbb\xbf{}", "0", "\"\"", "{\"ids\":{}}", "not json", "\xff\xfe"};
    std::string x = s.pick(v);
    ctx.note("damage: file is " + Ctx::show(x));
    prefix = x != "{\"ids\":{}}";
    return x;
  }
  default: {
    std::string x;
    size_t n = 1 + s.draw(3000);
    for (size_t i = 0; i < n; i++)
      x += s.coin() ? "[" : "{\"a\":";
    ctx.note("damage: nested " + std::to_string(n));
    prefix = true;
    return x;
  }
  }
}
template <typename Ser> void damaged(Src &s, Ctx &ctx, const fs::path &f, bool kind_target) {
  std::string good = read_file(f);
  bool prefix = false;
  if (s.chance(1, 8)) { // no record at all, or something else in its place
    fs::path n = f;
    n += ".none";
    bool dir = s.coin();
    if (dir)
      fs::create_directories(n);
    ctx.note(dir ? "damage: a directory" : "damage: no file");
    Ser r(n);
    bool ok = true;
    bool threw = fatal([&] { ok = r.LoadFromFile(); });
    ctx.check(!threw && !ok && !r.IsLoaded(), "a record that does not exist was loaded");
    return;
  }
  std::string bad = damage(s, good, ctx, prefix);
  write_file(f, bad);
  Ser r(f);
  bool ok = false;
  bool threw = fatal([&] { ok = r.LoadFromFile(); });
  ctx.check(!threw, "loading a damaged record raised an error instead of reporting it");
  ctx.equal(r.IsLoaded(), ok, "loaded state");
  ctx.count(ok ? "damaged but readable" : "damage rejected");
  if (prefix)
    ctx.check(!ok, "an incomplete or foreign file was accepted as a record");
  if (ok) {
    // whatever was accepted is a complete record: storing and loading it again gives it back
    fs::path g = f;
    g += ".again";
    Ser w(g);
    w.UpdateStore(r.GetLoad());
    bool st = false;
    if (fatal([&] { st = w.StoreToFile(); }) || !st)
      return;
    Ser r2(g);
    ctx.check(r2.LoadFromFile(), "a record could not be read back");
    if constexpr (std::is_same_v<Ser, buildcc::internal::TargetSerialization>)
      ctx.equal(fields(r2.GetLoad(), false), fields(r.GetLoad(), false), "record after store and load");
    else
      ctx.equal(fields(r2.GetLoad()), fields(r.GetLoad()), "record after store and load");
  }
  (void)kind_target;
}
struct Blob {
  std::string a;
  std::vector<int64_t> b;
  std::map<std::string, bool> c;
  double d{0};
  bool operator==(const Blob &o) const { return a == o.a && b == o.b && c == o.c && d == o.d; }
  friend void to_json(json &j, const Blob &x) {
    j["a"] = x.a;
    j["b"] = x.b;
    j["c"] = x.c;
    j["d"] = x.d;
  }
  friend void from_json(const json &j, Blob &x) {
    j.at("a").get_to(x.a);
    j.at("b").get_to(x.b);
    j.at("c").get_to(x.c);
    j.at("d").get_to(x.d);
  }
};
Blob gen_blob(Src &s) {
  Blob b;
  b.a = text(s);
  static const std::vector<int64_t> ints{0, 1, -1, 127, 128, 255, 256, 65535, 65536, -32769, INT64_MAX, INT64_MIN, 4294967296};
  for (size_t i = 0, n = s.some(4); i < n; i++)
    b.b.push_back(s.pick(ints));
  for (size_t i = 0, n = s.some(3); i < n; i++)
    b.c[text(s)] = s.coin();
  static const std::vector<double> ds{0, 0.1, -1.5, 1e300, 1};
  b.d = s.pick(ds);
  return b;
}
void z01(Src &s, Ctx &ctx) {
  size_t kind = s.draw(3);
  g_foreign_text = kind < 2 && s.chance(1, 10);
  // text that cannot be stored is refused; a record that was stored is exact
  bool refused = false;
  auto store = [&](auto &w) {
    bool ok = false;
    bool threw = fatal([&] { ok = w.StoreToFile(); });
    if (g_foreign_text && (threw || !ok))
      refused = true;
    else
      ctx.check(!threw && ok, "storing the record failed");
  };
  if (g_foreign_text)
    ctx.label("text that is not UTF-8");
  if (kind == 0) {
    ctx.label("target record");
    fs::path f = ctx.dir / "t.bin";
    if (s.coin())
      write_file(f, std::string(s.draw(20000), 'x')); // an older, longer record
    TS full = gen_ts(s);
    buildcc::internal::TargetSerialization w(f);
    // what the stages completed, in any order with progress stores in between
    TS stages;
    std::vector<int> ops;
    for (size_t i = 0, n = s.some(8); i < n; i++) {
      Span sp(s);
      switch (s.draw(4)) {
      case 0: {
        std::string p = text(s), h = text(s);
        ctx.note("completed source " + Ctx::show(p));
        w.AddSource(p, h);
        stages.sources.Emplace(p, h);
        break;
      }
      case 1:
        ctx.note("completed pch");
        w.UpdatePchCompiled(full);
        stages.pchs = full.pchs;
        stages.pch_compiled = true;
        break;
      case 2:
        ctx.note("completed link");
        w.UpdateTargetCompiled();
        stages.target_linked = true;
        break;
      default:
        ctx.note("progress store");
        w.UpdateStore(full);
        store(w);
        break;
      }
    }
    w.UpdateStore(full);
    refused = false;
    store(w);
    if (refused)
      return;
    TS want = full;
    want.sources = stages.sources;
    want.pchs = stages.pchs;
    want.pch_compiled = stages.pch_compiled;
    want.target_linked = stages.target_linked;
    buildcc::internal::TargetSerialization r(f);
    ctx.check(r.LoadFromFile() && r.IsLoaded(), "a stored record could not be loaded");
    ctx.equal(fields(r.GetLoad(), true), fields(want, true), "loaded target record");
    ctx.nontrivial();
    if (s.coin())
      damaged<buildcc::internal::TargetSerialization>(s, ctx, f, true);
  } else if (kind == 1) {
    ctx.label("generator record");
    fs::path f = ctx.dir / "g.json";
    CS c;
    c.name = text(s);
    for (size_t i = 0, n = s.some(5); i < n; i++) {
      Span sp(s);
      CS::IdInfo info;
      info.inputs = infos(s);
      info.outputs = plist(s);
      std::string b = bytes(s, s.chance(1, 30) ? 100000 : 60);
      info.userblob.assign(b.begin(), b.end());
      c.internal_ids[text(s)] = info;
    }
    buildcc::internal::CustomGeneratorSerialization w(f);
    w.UpdateStore(c);
    store(w);
    if (refused)
      return;
    buildcc::internal::CustomGeneratorSerialization r(f);
    ctx.check(r.LoadFromFile() && r.IsLoaded(), "a stored record could not be loaded");
    ctx.equal(fields(r.GetLoad()), fields(c), "loaded generator record");
    if (!c.internal_ids.empty())
      ctx.nontrivial();
    if (s.coin())
      damaged<buildcc::internal::CustomGeneratorSerialization>(s, ctx, f, false);
  } else {
    ctx.label("user data");
    Blob a = gen_blob(s), b = s.chance(1, 3) ? a : gen_blob(s);
    if (s.chance(1, 2)) { // change one thing
      b = a;
      switch (s.draw(4)) {
      case 0: b.a += "x"; break;
      case 1: b.b.push_back(0); break;
      case 2: b.c["k"] = !b.c["k"]; break;
      default: b.d += 1; break;
      }
    }
    using H = buildcc::TypedCustomBlobHandler<Blob>;
    H ha(a), hb(b);
    auto sa = ha.GetSerializedData(), sb = hb.GetSerializedData();
    ctx.note("user data " + Ctx::show(a.a) + " / " + Ctx::show(b.a));
    ctx.check(H::Deserialize(sa) == a && H::Deserialize(sb) == b, "user data changed by serialization");
    ctx.equal(ha.CheckChanged(sa, sb), !(a == b), "user data reported as changed");
    ctx.equal(hb.CheckChanged(sb, sa), !(a == b), "user data reported as changed");
    ctx.check(!ha.CheckChanged(sa, sa), "unchanged user data reported as changed");
    // damaged stored user data: reported as an error or as changed, never taken as equal
    auto bad = sa;
    bool trunc = s.coin();
    if (trunc)
      bad.resize(s.draw(bad.size()));
    else
      bad[s.draw(bad.size())] ^= (uint8_t)(1 + s.draw(255));
    bool changed = true;
    bool threw = fatal([&] { changed = ha.CheckChanged(bad, sa); });
    if (!threw && !changed) {
      bool eq = false;
      fatal([&] { eq = H::Deserialize(bad) == a; });
      ctx.check(eq, "damaged user data was taken as unchanged");
    }
    if (trunc)
      ctx.check(threw || changed, "truncated user data was taken as unchanged");
    if (!(a == b))
      ctx.nontrivial();
  }
}

Register r1([] {
  Property p;
  p.id = "E01";
  p.rule = "the history overwrites a file or a save runs into a full medium";
  p.run = e01;
  p.quick_cases = 12000;
  p.quick_seconds = 45;
  return p;
}());
Register r2([] {
  Property p;
  p.id = "E02";
  p.rule = "at least one path contains a space or is not in normal form";
  p.run = e02;
  p.quick_cases = 20000;
  p.quick_seconds = 45;
  p.assumptions = {"paths without double quotes or control characters"};
  return p;
}());
Register r3([] {
  Property p;
  p.id = "E03";
  p.rule = "a duplicate identifier, a wrong type or a clear occurs in the history";
  p.run = e03;
  p.quick_cases = 30000;
  p.quick_seconds = 45;
  return p;
}());
Register r4([] {
  Property p;
  p.id = "E04";
  p.rule = "several commands, or one that fails";
  p.run = e04;
  p.quick_cases = 2500;
  p.quick_seconds = 45;
  return p;
}());
Register r5([] {
  Property p;
  p.id = "Z01";
  p.rule = "a record with content or user data that differ";
  p.run = z01;
  p.quick_cases = 12000;
  p.quick_seconds = 45;
  p.assumptions = {"records holding text that is not valid UTF-8 may be refused when they are stored"};
  return p;
}());
} // namespace
