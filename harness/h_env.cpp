// C07 C08 (records), C20 (storage), C21 (patterns), C22 (files), C23 (paths), C26 (text)
#include "common.hpp"
#include "env/storage.h"
#include "env/util.h"
#include "schema/custom_generator_serialization.h"
#include "schema/target_serialization.h"
#include "fmt/format.h"
using namespace buildcc;
using namespace buildcc::internal;
using vh::check;

static vh::Rng *R;
static std::string rstr(int maxn, bool nasty = true) {
  static const std::vector<std::string> al = {"a", "b", "z", "0", " ", "/", ".", "..", "-", "_", "\"", "\\", "\n", "\t", "{", "}", "\xc3\xa9", "\xe2\x82\xac", "\x01", "'", ":", ",", "[", "]", "A"};
  std::string s;
  int n = (*R)(maxn + 1);
  for (int i = 0; i < n; i++) s += al[(*R)(nasty ? (int)al.size() : 8)];
  return s;
}
static PathInfoList pil() { PathInfoList l; int n = (*R)(4); for (int i = 0; i < n; i++) l.Emplace("/r/" + rstr(6), rstr(5)); return l; }
static PathList pl() { PathList l; int n = (*R)(4); for (int i = 0; i < n; i++) l.Emplace("/d/" + rstr(6)); return l; }
static std::vector<std::string> sl() { std::vector<std::string> v; int n = (*R)(4); for (int i = 0; i < n; i++) v.push_back(rstr(6)); return v; }
static bool eqi(const PathInfoList &a, const PathInfoList &b) { return a.GetPathInfos() == b.GetPathInfos(); }

static TargetSchema rec() {
  TargetSchema t;
  t.name = rstr(8); t.type = (TargetType)(*R)(4);
  t.sources = pil(); t.headers = pil(); t.pchs = pil(); t.libs = pil(); t.external_libs = sl(); t.include_dirs = pl(); t.lib_dirs = pl();
  t.preprocessor_flags = sl(); t.common_compile_flags = sl(); t.link_flags = sl(); t.asm_compile_flags = sl(); t.c_compile_flags = sl(); t.cpp_compile_flags = sl();
  t.pch_compile_flags = sl(); t.pch_object_flags = sl(); t.compile_dependencies = pil(); t.link_dependencies = pil(); t.pch_compiled = R->p(50); t.target_linked = R->p(50);
  return t;
}
static bool same(const TargetSchema &a, const TargetSchema &b) {
  return a.name == b.name && a.type == b.type && eqi(a.sources, b.sources) && eqi(a.headers, b.headers) && eqi(a.pchs, b.pchs) && eqi(a.libs, b.libs) && a.external_libs == b.external_libs &&
         a.include_dirs.GetPaths() == b.include_dirs.GetPaths() && a.lib_dirs.GetPaths() == b.lib_dirs.GetPaths() && a.preprocessor_flags == b.preprocessor_flags &&
         a.common_compile_flags == b.common_compile_flags && a.link_flags == b.link_flags && a.asm_compile_flags == b.asm_compile_flags && a.c_compile_flags == b.c_compile_flags &&
         a.cpp_compile_flags == b.cpp_compile_flags && a.pch_compile_flags == b.pch_compile_flags && a.pch_object_flags == b.pch_object_flags &&
         eqi(a.compile_dependencies, b.compile_dependencies) && eqi(a.link_dependencies, b.link_dependencies) && a.pch_compiled == b.pch_compiled && a.target_linked == b.target_linked;
}
// store_ of a target record as a build fills it
static void fill(TargetSerialization &s, const TargetSchema &t) {
  if (t.pch_compiled) s.UpdatePchCompiled(t);
  for (auto &i : t.sources.GetPathInfos()) s.AddSource(i.path, i.hash);
  if (t.target_linked) s.UpdateTargetCompiled();
  s.UpdateStore(t);
}
static void records(int it) {
  auto f = vh::scratch() / "rec.json";
  TargetSchema t = rec();
  if (!t.pch_compiled) t.pchs = PathInfoList();
  TargetSerialization a(f);
  fill(a, t);
  bool ok = false, th = vh::threw([&] { ok = a.StoreToFile(); });
  check(ok && !th, "C07 C22", [&] { return "storing a target record failed"; });
  TargetSerialization b(f);
  bool ld = false;
  th = vh::threw([&] { ld = b.LoadFromFile(); });
  check(!th && ld && b.IsLoaded() && same(b.GetLoad(), t), "C07", [&] { return "target record differs after store+load: " + vh::slurp(f).substr(0, 300); });
  std::string text = vh::slurp(f);
  // generator record
  CustomGeneratorSchema g;
  g.name = rstr(6);
  int n = (*R)(4);
  for (int i = 0; i < n; i++) { CustomGeneratorSchema::IdInfo x; x.inputs = pil(); x.outputs = pl(); int k = (*R)(5); for (int q = 0; q < k; q++) x.userblob.push_back((uint8_t)(*R)(256)); g.internal_ids.emplace(rstr(5), x); }
  auto gf = vh::scratch() / "gen.json";
  CustomGeneratorSerialization ga(gf);
  ga.UpdateStore(g);
  ok = false;
  th = vh::threw([&] { ok = ga.StoreToFile(); });
  check(ok && !th, "C07", [&] { return "storing a generator record failed"; });
  CustomGeneratorSerialization gb(gf);
  th = vh::threw([&] { ld = gb.LoadFromFile(); });
  bool eq = !th && ld && gb.IsLoaded() && gb.GetLoad().name == g.name && gb.GetLoad().internal_ids.size() == g.internal_ids.size();
  if (eq) for (auto &[k, v] : g.internal_ids) {
    auto i = gb.GetLoad().internal_ids.find(k);
    if (i == gb.GetLoad().internal_ids.end() || !eqi(i->second.inputs, v.inputs) || i->second.outputs.GetPaths() != v.outputs.GetPaths() || i->second.userblob != v.userblob) eq = false;
  }
  check(eq, "C07", [&] { return "generator record differs after store+load: " + vh::slurp(gf).substr(0, 300); });
  std::string gtext = vh::slurp(gf);
  // bad records
  auto bad = [&](const std::string &content, const char *what, bool gen, bool expect = false) {
    auto p = vh::scratch() / "bad.json";
    vh::write(p, content);
    vh::set_mtime(p, 12345);
    bool l = false, isl = false;
    bool e = vh::threw([&] {
      if (gen) { CustomGeneratorSerialization s(p); l = s.LoadFromFile(); isl = s.IsLoaded(); }
      else { TargetSerialization s(p); l = s.LoadFromFile(); isl = s.IsLoaded(); }
    });
    check(!e && l == expect && isl == l, "C08", [&] { return fmt::format("{} record {}: error={} loaded={} flag={} text={}", gen ? "generator" : "target", what, e, l, isl, content.substr(0, 200)); });
    check(vh::slurp(p) == content && vh::mtime(p) == std::to_string(12345L * 1000000000L), "C08", [&] { return std::string("loading changed the file: ") + what; });
  };
  for (int gen = 0; gen < 2; gen++) {
    const std::string &tx = gen ? gtext : text;
    bad(tx, "complete", gen, true);
    bad(tx.substr(0, (*R)((int)tx.size())), "truncated", gen);
    bad("", "empty", gen);
    bad("not json", "garbage", gen);
    bad("[]", "array", gen); bad("null", "null", gen); bad("3", "number", gen); bad("{}", "no fields", gen); bad(tx + "x", "trailing garbage", gen);
    Json j = Json::parse(tx);
    std::vector<std::string> ks;
    for (auto &e : j.items()) ks.push_back(e.key());
    for (auto &k : ks) {
      Json m = j; m.erase(k); bad(m.dump(), ("without " + k).c_str(), gen);
      Json w = j; w[k] = nullptr; if (k != "type") bad(w.dump(), ("null " + k).c_str(), gen);
      Json w2 = j; w2[k] = Json::array({1.5}); if (k != "type") bad(w2.dump(), ("wrong type " + k).c_str(), gen);
      if (j[k].is_array()) { Json w3 = j; w3[k] = Json::array({Json::object()}); bad(w3.dump(), ("wrong element " + k).c_str(), gen); }
      if (j[k].is_array() && !j[k].empty() && j[k][0].is_object()) for (auto f2 : {"path", "hash"}) {
        Json w4 = j; w4[k][0].erase(f2); bad(w4.dump(), ("element without field " + k + "." + f2).c_str(), gen);
        Json w5 = j; w5[k][w5[k].size() - 1][f2] = 4; bad(w5.dump(), ("element with wrong field " + k + "." + f2).c_str(), gen); }
    }
    if (gen) for (auto &e : j["ids"].items()) for (auto f2 : {"inputs", "outputs", "userblob"}) { Json w = j; w["ids"][e.key()].erase(f2); bad(w.dump(), f2, gen); w = j; w["ids"][e.key()][f2] = "x"; bad(w.dump(), f2, gen); }
  }
  // absent / directory / reload after loss
  for (int gen = 0; gen < 2; gen++) {
    auto dir = vh::scratch() / "adir"; fs::create_directories(dir);
    for (auto &p : {vh::scratch() / "absent.json", dir, vh::scratch() / "no" / "such"}) {
      bool l = true, isl = true;
      bool e = vh::threw([&] { if (gen) { CustomGeneratorSerialization s(p); l = s.LoadFromFile(); isl = s.IsLoaded(); } else { TargetSerialization s(p); l = s.LoadFromFile(); isl = s.IsLoaded(); } });
      check(!e && !l && !isl && !fs::exists(vh::scratch() / "absent.json"), "C08", [&] { return "absent or directory record: " + p.string(); });
    }
    auto p = vh::scratch() / "again.json";
    vh::write(p, gen ? gtext : text);
    bool l1 = false, l2 = true, isl = true;
    bool e = vh::threw([&] { if (gen) { CustomGeneratorSerialization s(p); l1 = s.LoadFromFile(); fs::remove(p); l2 = s.LoadFromFile(); isl = s.IsLoaded(); } else { TargetSerialization s(p); l1 = s.LoadFromFile(); fs::remove(p); l2 = s.LoadFromFile(); isl = s.IsLoaded(); } });
    check(!e && l1 && !l2 && !isl, "C08", [&] { return "record deleted between two loads still counts as loaded"; });
  }
  // failed write is reported
  TargetSerialization nw(vh::scratch() / "no" / "such" / "dir.json");
  ok = true;
  th = vh::threw([&] { ok = nw.StoreToFile(); });
  check(!th && !ok, "C05 C10 C22", [&] { return "write into a missing directory reported as success"; });
}

// ---- storage
static std::map<int, int> alive;
struct Obj { int id; std::string v; Obj(int i, const std::string &s) : id(i), v(s) { alive[id]++; } Obj(const Obj &o) : id(o.id), v(o.v) { alive[id]++; } ~Obj() { alive[id]--; } };
struct Other { double d = 1.5; };
struct Bad { explicit Bad(int k) { if (k) throw k; } };
struct Third { int x; explicit Third(int q) : x(q) {} };
static void storage() {
  alive.clear();
  std::map<std::string, std::pair<int, std::string>> model;
  std::map<std::string, void *> where;
  int next = 0;
  {
    ScopedStorage s;
    bool dup = vh::threw([&] {
      for (int i = 0; i < 30; i++) {
        std::string id = "id" + std::to_string((*R)(8));
        int op = (*R)(8);
        if (op < 3) {
          if (model.count(id)) {
            bool t = vh::threw([&] { s.Add<Obj>(id, 1000 + next, "dup"); });
            int live = 0; for (auto &[k, n] : alive) if (k >= 1000) live += n;
            bool kept = false;
            if (!t && s.Valid<Obj>(id)) kept = s.ConstRef<Obj>(id).id >= 1000;
            check(t || (kept && alive[model[id].first] == 0), "C20", [&] { return "reused identifier: second object is neither refused nor stored (" + id + ")"; });
            check(!t || live == 0, "C20", [&] { return "reused identifier leaks an object"; });
            if (!t) throw 1;
          } else {
            if ((*R)(3) == 0) {
              bool t = vh::threw([&] { s.Add<Bad>(id, 1); });
              check(t && !s.Contains(id) && !s.Valid<Bad>(id), "C20", [&] { return "an object whose constructor threw is stored as " + id; });
              if (s.Contains(id)) throw 1;
            }
            std::string v = rstr(5);
            Obj &o = s.Add<Obj>(id, next, v);
            check(o.id == next && o.v == v, "C20", [&] { return "Add returned another object"; });
            model[id] = {next, v}; where[id] = &o; next++;
          }
        } else if (op < 7) {
          bool has = model.count(id) > 0;
          check(s.Contains(id) == has && s.Valid<Obj>(id) == has && !s.Valid<Other>(id), "C20", [&] { return "Contains/Valid wrong for " + id; });
          bool t = vh::threw([&] { const Obj &o = s.ConstRef<Obj>(id); if (!has || &o != where[id] || o.v != model[id].second || &s.Ref<Obj>(id) != where[id]) check(false, "C20", [&] { return "lookup of " + id + " returned another object"; }); });
          check(t == !has, "C20", [&] { return "lookup of " + id + (has ? " fails" : " does not fail"); });
          bool t2 = vh::threw([&] { s.ConstRef<Other>(id); });
          check(t2, "C20", [&] { return "wrong type accepted for " + id; });
        } else if ((*R)(6) == 0) {
          s.Clear();
          for (auto &[k, n] : alive) check(n == 0, "C20", [&] { return fmt::format("object {} has {} live copies after Clear", k, n); });
          for (auto &[k, v] : model) check(!s.Contains(k), "C20", [&] { return k + " still contained after Clear"; });
          model.clear(); where.clear();
        }
        int live = 0; for (auto &[k, n] : alive) live += n;
        check(live == (int)model.size(), "C20", [&] { return fmt::format("{} objects alive, {} stored", live, model.size()); });
      }
    });
    (void)dup;
  }
  for (auto &[k, n] : alive) check(n == 0, "C20", [&] { return fmt::format("object {}: balance {} after the storage went out of scope", k, n); });
  Storage::Add<Obj>("g", 5, "x"); Storage::Add<Third>("t", 3);
  check(Storage::Contains("g") && Storage::ConstRef<Obj>("g").v == "x" && Storage::Valid<Third>("t") && !Storage::Valid<Obj>("t") && Storage::Ref<Third>("t").x == 3, "C20", [] { return "global storage lookup"; });
  Storage::Clear();
  check(!Storage::Contains("g") && alive[5] == 0, "C20", [] { return "global storage clear"; });
}

// ---- patterns
static void patterns() {
  env::Command c;
  std::map<std::string, std::string> d;
  static const std::vector<std::string> keys = {"a", "bb", "src", "out", "x1", "flags"};
  static const std::vector<const char *> ckeys = {"a", "bb", "src", "out", "x1", "flags"};
  for (int i = 0, n = (*R)(5); i < n; i++) {
    if (R->p(50)) { auto k = keys[(*R)(6)], v = rstr(4); c.AddDefaultArgument(k, v); d.emplace(k, v); }
    else { std::unordered_map<std::string, std::string> m; for (int q = 0; q < 3; q++) m.emplace(keys[(*R)(6)], rstr(4)); c.AddDefaultArguments(m); for (auto &[k, v] : m) d.emplace(k, v); }
  }
  for (auto &k : keys) {
    std::string got;
    bool t = vh::threw([&] { got = c.GetDefaultValueByKey(k); });
    check(d.count(k) ? (!t && got == d[k]) : t, "C21", [&] { return "default value of '" + k + "'"; });
  }
  for (int round = 0; round < 4; round++) {
    std::unordered_map<const char *, std::string> args;
    std::map<std::string, std::string> a;
    for (int q = 0, n = (*R)(4); q < n; q++) { int k = (*R)(6); auto v = rstr(4); if (args.emplace(ckeys[k], v).second) a[keys[k]] = v; }
    std::string pat, want;
    bool bad = false;
    for (int q = 0, n = (*R)(7); q < n; q++) switch ((*R)(6)) {
      case 0: case 1: case 2: { auto k = keys[(*R)(6)]; pat += "{" + k + "}"; if (d.count(k)) want += d[k]; else if (a.count(k)) want += a[k]; else bad = true; break; }
      case 3: { auto t = rstr(3, false); pat += t; want += t; break; }
      case 4: pat += "{{x}}"; want += "{x}"; break;
      case 5: if (R->p(15)) { pat += R->p(50) ? "{" : "}"; bad = true; pat += " "; } break;
    }
    if (bad && pat.find("} ") != std::string::npos && pat.find("}} ") != std::string::npos) continue; // the stray brace pairs up with its neighbour
    std::string got;
    bool t = vh::threw([&] { got = c.Construct(pat, args); });
    check(bad ? t : (!t && got == want), "C21", [&] { return fmt::format("pattern '{}' gives '{}' (fatal={}), expected '{}' (fatal={})", pat, got, t, want, bad); });
  }
}

// ---- files
static void files() {
  auto f = vh::scratch() / "f.bin";
  std::string s = rstr(40);
  if (R->p(20)) s.assign(200000 + (*R)(1000), (char)(*R)(256));
  for (int i = 0; i < (*R)(6); i++) s.insert((size_t)(*R)((int)s.size() + 1), 1, (char)(*R)(256));
  bool bin = R->p(50), ok;
  vh::write(f, "previous content that is longer than the new one");
  ok = R->p(50) ? env::save_file(f.c_str(), s, bin) : env::save_file(f.c_str(), s.data(), s.size(), bin);
  check(ok && vh::slurp(f) == s, "C22", [&] { return fmt::format("save_file of {} bytes: returned {}, file has {} bytes", s.size(), ok, vh::slurp(f).size()); });
  std::string b = "junk";
  ok = env::load_file(f.c_str(), bin, &b);
  check(ok && b == s, "C22", [&] { return fmt::format("load_file of {} bytes: returned {}, got {} bytes", s.size(), ok, b.size()); });
  check(!env::save_file(nullptr, s, bin) && !env::save_file(f.c_str(), nullptr, 3, bin) && !env::load_file(nullptr, bin, &b) && !env::load_file(f.c_str(), bin, nullptr), "C22", [] { return "null argument accepted"; });
  bool t = vh::threw([&] {
    check(!env::load_file((vh::scratch() / "nope").c_str(), bin, &b) && !env::load_file(vh::scratch().c_str(), bin, &b), "C22", [] { return "load of a missing file or directory reported success"; });
    check(!env::save_file((vh::scratch() / "no" / "dir").c_str(), s, bin) && !env::save_file(vh::scratch().c_str(), s, bin), "C22", [] { return "save into a missing directory or onto a directory reported success"; });
    check(!env::save_file("/dev/full", "x", bin), "C22", [] { return "save_file(\"/dev/full\", \"x\") reported success although nothing can be written there"; });
    check(!env::save_file("/dev/full", std::string(100000, 'y'), bin), "C22", [] { return "save_file(\"/dev/full\", 100000 bytes) reported success"; });
  });
  check(!t, "C22", [] { return "an exception escaped a file helper"; });
}

// ---- paths
static std::string lexnorm(const std::string &s) {  // independent of std::filesystem: POSIX lexical normal form
  if (s.empty()) return "";
  bool abs = s[0] == '/';
  std::vector<std::string> out, parts;
  std::string cur; bool trail = false;
  for (char c : s) { if (c == '/') { parts.push_back(cur); cur.clear(); } else cur += c; }
  parts.push_back(cur);
  std::vector<std::string> comp;
  for (auto &p : parts) if (!p.empty()) comp.push_back(p);
  trail = s.back() == '/' || (!comp.empty() && (comp.back() == "." ));
  bool lastdd = false;
  for (auto &p : comp) {
    lastdd = false;
    if (p == ".") continue;
    if (p == "..") { if (!out.empty() && out.back() != "..") { out.pop_back(); lastdd = true; continue; } if (abs) { lastdd = true; continue; } }
    out.push_back(p);
  }
  std::string r = abs ? "/" : "";
  for (size_t i = 0; i < out.size(); i++) { if (i) r += "/"; r += out[i]; }
  if (!out.empty() && out.back() != ".." && (trail || lastdd)) r += "/";
  if (r.empty()) r = ".";
  return r;
}
static void paths() {
  std::string p = rstr(8);
  if (R->p(40)) p = "/" + p;
  while (p.rfind("//", 0) == 0) p.erase(0, 1);
  std::string n = PathInfo::ToPathString(p);
  check(n == lexnorm(p), "C23", [&] { return "stored form of '" + p + "' is '" + n + "', expected '" + lexnorm(p) + "'"; });
  check(PathInfo::ToPathString(n) == n, "C23", [&] { return "normalising twice changes '" + p + "'"; });
  std::string d = n.find(' ') != std::string::npos ? "\"" + n + "\"" : n;
  check(PathInfo::ToPathDisplayString(p) == d && path_as_display_string(p) == d && path_as_string(p) == n, "C23", [&] { return "display form of '" + p + "' is '" + PathInfo::ToPathDisplayString(p) + "', expected '" + d + "'"; });
  check(fmt::format("{}", fs::path(p)) == d, "C23", [&] { return "formatted path '" + p + "' is '" + fmt::format("{}", fs::path(p)) + "', expected '" + d + "'"; });
  PathInfoList l; l.Emplace(p, "h"); PathList q; q.Emplace(p);
  check(l.GetPaths() == std::vector<std::string>{n} && l.GetPathInfos()[0].hash == "h" && q.GetPaths() == std::vector<std::string>{n}, "C23 C16", [&] { return "list entry of '" + p + "'"; });
}

// ---- text
static void text() {
  static const char al[] = {'a', 'b', ' ', '\t', '\n', ':', ';', '\v', '\f', '\r', '\0', '.', '\x08', '\x1f'};
  std::string s;
  for (int i = 0, n = (*R)(12); i < n; i++) s += al[(*R)(14)];
  auto sp = [](char c) { return c == ' ' || (c >= 9 && c <= 13); };
  size_t a = 0, b = s.size();
  while (a < s.size() && sp(s[a])) a++;
  while (b > 0 && sp(s[b - 1])) b--;
  check(env::ltrim(s) == s.substr(a), "C26", [&] { return "ltrim of " + s; });
  check(env::rtrim(s) == s.substr(0, b), "C26", [&] { return "rtrim of " + s; });
  check(env::trim(s) == (a < b ? s.substr(a, b - a) : ""), "C26", [&] { return "trim of " + s; });
  char d = al[(*R)(8)];
  auto v = env::split(s, d);
  std::vector<std::string> w; std::string cur;
  for (char c : s) if (c == d) { w.push_back(cur); cur.clear(); } else cur += c;
  if (!cur.empty()) w.push_back(cur);
  check(v == w, "C26", [&] { return fmt::format("split of '{}' by '{}' gives {} pieces, expected {}", s, d, v.size(), w.size()); });
}

int main(int argc, char **argv) {
  spdlog::set_level(spdlog::level::off);
  vh::make_scratch();
  vh::Rng r(vh::seed_arg(argc, argv));
  R = &r;
  int n = vh::iters_arg(argc, argv, 100);
  for (int i = 0; i < n; i++) {
    if (i % 10 == 0) records(i);
    storage();
    patterns();
    files();
    for (int k = 0; k < 10; k++) { paths(); text(); }
  }
  return vh::finish();
}
