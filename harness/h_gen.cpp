// Random histories of custom, file and template generators against an oracle computed from the record, the files and the callback script.
#include "common.hpp"
#include "env/env.h"
#include "target/custom_generator.h"
#include "target/file_generator.h"
#include "target/template_generator.h"
#include "taskflow/taskflow.hpp"
using namespace buildcc;
using SV = std::vector<std::string>;
using SS = std::set<std::string>;
static fs::path root() { return vh::scratch() / "root"; }
static std::string abs(const std::string &n) { return (root() / n).string(); }

struct Blob : CustomBlobHandler {
  int v;
  explicit Blob(int x) : v(x) {}
  bool Verify(const std::vector<uint8_t> &d) const override { return d.size() == 1 && d[0] != 99; }
  bool IsEqual(const std::vector<uint8_t> &a, const std::vector<uint8_t> &b) const override { return a == b; }
  std::vector<uint8_t> Serialize() const override { return {(uint8_t)v}; }
};
struct Id { SV in, out; int blob = -1; int act = 0; /*0 ok 1 false 2 throw 3 ok and touches an input*/ };
struct Seen { std::string id; SS in, out; std::vector<uint8_t> blob; bool ok; };

struct Rec { bool loaded = false; Json ids; };
static Rec read_rec(const fs::path &p) {
  Rec r;
  std::error_code ec;
  if (!fs::is_regular_file(p, ec)) return r;
  Json j = Json::parse(vh::slurp(p), nullptr, false);
  if (j.is_discarded() || !j.is_object() || !j.contains("name") || !j["name"].is_string() || !j.contains("ids") || !j["ids"].is_object()) return r;
  for (auto &v : j["ids"]) if (!v.is_object() || !v.contains("inputs") || !v.contains("outputs") || !v.contains("userblob")) return r;
  r.loaded = true;
  r.ids = j["ids"];
  return r;
}
static std::map<std::string, std::string> infos(const Json &a) { std::map<std::string, std::string> m; for (auto &x : a) m[x["path"]] = x["hash"]; return m; }
static SS paths(const Json &a) { SS s; for (auto &x : a) s.insert(x.get<std::string>()); return s; }
static SS absset(const SV &v) { SS s; for (auto &x : v) s.insert(abs(x)); return s; }
static std::unordered_set<std::string> us(const SV &v) { std::unordered_set<std::string> s; for (auto &x : v) s.insert("{current_root_dir}/" + x); return s; }
static SV subset(vh::Rng &R, const SV &all, int pct) { SV o; for (auto &x : all) if (R.p(pct)) o.push_back(x); return o; }

static void custom(unsigned seed, int h, tf::Executor &ex) {
  vh::Rng R(seed * 7919u + h);
  fs::path bld = vh::scratch() / "bld";
  const SV IN = {"i0", "i1", "i2"}, OUT = {"o0", "o1"};
  long tick = 1000000000L;
  for (auto &n : IN) { vh::write(root() / n, "x"); vh::set_mtime(root() / n, tick++); }
  std::map<std::string, Id> ids;
  auto mk = [&] { Id d; d.in = subset(R, IN, 60); d.out = subset(R, OUT, 60); d.blob = R.p(50) ? R(3) : -1; return d; };
  for (int k = R(4); k >= 0; k--) ids["g" + std::to_string(k)] = mk();
  std::string log;
  for (int step = 0; step < 7; step++) {
    // ---- change something
    for (auto &[k, d] : ids) { d.act = R.p(75) ? 0 : 1 + R(3); if (d.blob == 99) d.blob = 1; }
    int what = step == 0 ? 99 : R(10);
    auto any = [&]() -> Id * { if (ids.empty()) return nullptr; auto it = ids.begin(); std::advance(it, R((int)ids.size())); return &it->second; };
    if (what == 0) { auto &n = IN[R(3)]; if (fs::exists(root() / n)) { vh::set_mtime(root() / n, R.p(50) ? tick++ : 500000000L + R(1000)); log += " touch " + n; } }
    else if (what == 1) { if (auto d = any()) { d->in = subset(R, IN, 60); log += " inputs"; } }
    else if (what == 2) { if (auto d = any()) { d->out = subset(R, OUT, 60); log += " outputs"; } }
    else if (what == 3) { if (auto d = any()) { if (d->blob >= 0) d->blob = R(3); log += " blob"; } }
    else if (what == 4) { std::string k = "g" + std::to_string(R(5)); if (!ids.count(k)) { ids[k] = mk(); log += " add " + k; } }
    else if (what == 5) { if (!ids.empty()) { auto it = ids.begin(); std::advance(it, R((int)ids.size())); log += " remove " + it->first; ids.erase(it); } }
    else if (what == 6) { auto &n = IN[R(3)]; if (fs::exists(root() / n)) fs::remove(root() / n); else { vh::write(root() / n, "y"); vh::set_mtime(root() / n, tick++); } log += " flip " + n; }
    else if (what == 7) { if (R.p(40)) { vh::write(bld / "gen" / "gen.json", R.p(50) ? "{" : "[]"); log += " torn record"; } }
    else if (what == 8) { if (auto d = any()) { if (d->blob >= 0 && R.p(40)) { d->blob = 99; log += " bad blob"; } } }
    log += ";";
    bool start_failed = R.p(8);
    vh::threw([&] { env::set_task_state(start_failed ? env::TaskState::FAILURE : env::TaskState::SUCCESS); });
    fs::path recf = bld / "gen" / "gen.json";
    Rec before = read_rec(recf);
    bool existed = fs::exists(recf);
    std::string raw = existed ? vh::slurp(recf) : "";
    if (existed) vh::set_mtime(recf, 1000);
    std::map<std::string, std::string> mt;
    for (auto &n : IN) if (fs::exists(root() / n)) mt[abs(n)] = vh::mtime(root() / n);
    std::vector<Seen> seen;
    std::set<std::string> touched;
    std::mutex m;
    std::unique_ptr<CustomGenerator> g;
    bool t = vh::threw([&] {
      g = std::make_unique<CustomGenerator>("gen", TargetEnv(root(), bld));
      for (auto &[k, d] : ids) {
        int act = d.act; SV in = d.in; std::string id = k;
        g->AddIdInfo(k, us(d.in), us(d.out), [&, act, in, id](const CustomGeneratorContext &c) {
          Seen s{id, {}, {}, c.userblob, act == 0 || act == 3};
          for (auto &p : c.inputs) s.in.insert(fs::path(p).string());
          for (auto &p : c.outputs) s.out.insert(fs::path(p).string());
          { std::lock_guard<std::mutex> l(m); seen.push_back(s);
            if (act == 3 && !in.empty() && fs::exists(root() / in[0])) { touched.insert(abs(in[0])); vh::set_mtime(root() / in[0], tick++); } }
          if (act == 2 && c.outputs.size() % 2) throw 7;
          if (act == 2) throw std::runtime_error("x");
          return act == 0 || act == 3;
        }, d.blob >= 0 ? std::make_shared<Blob>(d.blob) : nullptr);
      }
      g->Build();
    });
    auto text = [&] { std::string s = "seed " + std::to_string(seed) + " history " + std::to_string(h) + " step " + std::to_string(step) + ":" + log + " ids"; for (auto &[k, d] : ids) { s += " " + k + "(act" + std::to_string(d.act) + ",blob" + std::to_string(d.blob) + ")"; } return s; };
    vh::check(!t, "C09", [&] { return text() + " registration failed"; });
    if (t) return;
    ex.run(g->GetTaskflow()).wait();
    bool failed = env::get_task_state() != env::TaskState::SUCCESS;
    if (start_failed) {
      vh::check(seen.empty() && failed, "C06 C09", [&] { return text() + " ran after a failure"; });
      vh::check(existed ? vh::slurp(recf) == raw : !fs::exists(recf), "C06 C10", [&] { return text() + " record written after a failure"; });
      continue;
    }
    bool cause = false, diff = before.loaded && before.ids.size() != ids.size();
    std::map<std::string, bool> need, bad;
    for (auto &[k, d] : ids) {
      bool added = !before.loaded || !before.ids.contains(k);
      diff |= before.loaded && added;
      bool unread = false, iosame = false, obad = false, bdiff = false;
      for (auto &n : d.in) unread |= !mt.count(abs(n));
      if (!added && !unread) {
        const Json &r = before.ids[k];
        std::map<std::string, std::string> now;
        for (auto &n : d.in) now[abs(n)] = mt[abs(n)];
        iosame = infos(r["inputs"]) == now && paths(r["outputs"]) == absset(d.out);
        std::vector<uint8_t> ob = r["userblob"];
        if (d.blob >= 0) { obad = iosame && !(ob.size() == 1 && ob[0] != 99); bdiff = ob != std::vector<uint8_t>{(uint8_t)d.blob}; }
      }
      bool b = unread || d.blob == 99 || obad;
      bool nd = !b && (added || !iosame || bdiff);
      // ids may share inputs: one that a callback touched while the build ran cannot be judged for the other ids
      bool murky = false;
      if (!touched.empty()) for (auto &n : d.in) murky |= touched.count(abs(n)) && !(d.act == 3 && !d.in.empty() && d.in[0] == n);
      for (auto &[k2, d2] : ids) if (k2 != k && d2.act == 3 && !d2.in.empty()) for (auto &n : d.in) murky |= n == d2.in[0];
      if (b) cause = true;
      int runs = 0; bool ok = true; const Seen *sn = nullptr;
      for (auto &s : seen) if (s.id == k) { runs++; ok &= s.ok; sn = &s; }
      vh::check(runs <= 1, "C09", [&] { return text() + " callback ran twice: " + k; });
      if (!ok) cause = true;
      need[k] = nd; bad[k] = b;
      if (murky) { need.erase(k); continue; }
      if (!nd) vh::check(runs == 0, b ? "C09 C06" : "C09", [&] { return text() + " callback ran needlessly: " + k; });
      if (nd && !failed) vh::check(runs == 1, "C09", [&] { return text() + " callback did not run: " + k; });
      if (sn) vh::check(sn->in == absset(d.in) && sn->out == absset(d.out) && sn->blob == (d.blob >= 0 ? std::vector<uint8_t>{(uint8_t)d.blob} : std::vector<uint8_t>{}), "C09", [&] { return text() + " callback got wrong inputs, outputs or blob: " + k; });
    }
    vh::check(failed == cause, "C06", [&] { return text() + (failed ? " failed without cause" : " failure not reported"); });
    bool dirty = !before.loaded || diff || !seen.empty();
    bool rewritten = fs::exists(recf) && (!existed || vh::mtime(recf) != std::to_string(1000L * 1000000000L));
    vh::check(rewritten == dirty, "C10", [&] { return text() + (dirty ? " record not written" : " record rewritten needlessly"); });
    if (!dirty) continue;
    Rec after = read_rec(recf);
    vh::check(after.loaded, "C10 C07", [&] { return text() + " record unreadable"; });
    if (!after.loaded) continue;
    for (auto &[k, v] : after.ids.items()) vh::check(ids.count(k), "C10", [&, kk = k] { return text() + " removed id recorded: " + kk; });
    for (auto &[k, d] : ids) {
      if (!need.count(k)) continue;
      bool ran = false, ok = true;
      for (auto &s : seen) if (s.id == k) { ran = true; ok &= s.ok; }
      bool in = after.ids.contains(k), nd = need[k], b = bad[k];
      if (in) vh::check(!b && ok && (!nd || ran), "C10", [&, kk = k] { return text() + " recorded although not up to date: " + kk; });
      if ((ran && ok) || (!b && !nd && !failed)) vh::check(in, "C10", [&, kk = k] { return text() + " up to date but not recorded: " + kk; });
      if (in && !b) {
        std::map<std::string, std::string> now;
        for (auto &n : d.in) now[abs(n)] = mt[abs(n)];
        vh::check(infos(after.ids[k]["inputs"]) == now && paths(after.ids[k]["outputs"]) == absset(d.out), "C10", [&, kk = k] { return text() + " recorded inputs or outputs wrong: " + kk; });
        vh::check(after.ids[k]["userblob"].get<std::vector<uint8_t>>() == (d.blob >= 0 ? std::vector<uint8_t>{(uint8_t)d.blob} : std::vector<uint8_t>{}), "C10", [&, kk = k] { return text() + " recorded blob wrong: " + kk; });
      }
    }
  }
}

static void registering() {
  fs::path bld = vh::scratch() / "bld";
  CustomGenerator *g = nullptr;
  vh::threw([&] { g = new CustomGenerator("reg", TargetEnv(root(), bld)); });
  auto cb = [](const CustomGeneratorContext &) { return true; };
  vh::check(!vh::threw([&] { g->AddIdInfo("a", {}, {}, cb); }), "C09", [] { return "new id rejected"; });
  vh::check(vh::threw([&] { g->AddIdInfo("a", {}, {}, cb); }), "C09", [] { return "duplicate id accepted"; });
  vh::check(vh::threw([&] { g->AddIdInfo("b", {}, {}, GenerateCb()); }), "C09", [] { return "empty callback accepted"; });
  vh::check(vh::threw([&] { g->AddIdInfo("c", {"{nope}"}, {}, cb); }), "C09 C11", [] { return "unknown placeholder accepted"; });
}

static void files(unsigned seed, int h, tf::Executor &ex) {
  vh::Rng R(seed * 104729u + h);
  fs::path bld = vh::scratch() / "bld";
  vh::write(root() / "f.in", "x");
  vh::set_mtime(root() / "f.in", 1000000000L);
  SV cmds;
  SV prev;
  bool have = false;
  for (int step = 0; step < 5; step++) {
    if (step == 0 || R.p(60)) { int w = cmds.empty() ? 0 : R(3); if (w == 0) for (int k = R(3); k >= 0; k--) cmds.push_back("run" + std::to_string(R(4))); else if (w == 1) cmds.pop_back(); else std::swap(cmds[0], cmds.back()); }
    int failat = R.p(30) ? R(4) : 99;
    vh::threw([&] { env::set_task_state(env::TaskState::SUCCESS); });
    vh::execs().clear();
    int n = 0;
    vh::decide() = [&](const std::string &) { return n++ != failat; };
    std::unique_ptr<FileGenerator> g;
    bool t = vh::threw([&] {
      g = std::make_unique<FileGenerator>("fg", TargetEnv(root(), bld));
      g->AddPattern("who", "{current_root_dir}");
      g->AddInput("{current_root_dir}/f.in");
      g->AddOutput("{current_build_dir}/f.out");
      for (auto &c : cmds) g->AddCommand("{x} {who} " + c, {{"x", "tool"}});
      g->Build();
    });
    vh::check(!t, "C11", [&] { return "file generator registration failed"; });
    if (t) return;
    ex.run(g->GetTaskflow()).wait();
    bool failed = env::get_task_state() != env::TaskState::SUCCESS;
    bool should = !have || prev != cmds;
    SV want, got;
    bool wfail = false;
    if (should) for (int i = 0; i < (int)cmds.size(); i++) { want.push_back("tool " + root().string() + " " + cmds[i]); if (i == failat) { wfail = true; break; } }
    for (auto &e : vh::execs()) got.push_back(e.cmd);
    auto text = [&] { std::string s = "file generator seed " + std::to_string(seed) + " history " + std::to_string(h) + " step " + std::to_string(step) + " commands"; for (auto &c : cmds) s += " '" + c + "'"; return s + " failing " + std::to_string(failat) + " executed " + std::to_string(got.size()) + " expected " + std::to_string(want.size()); };
    vh::check(got == want, "C11", text);
    vh::check(failed == wfail, "C11 C06", [&] { return text() + (failed ? " failed" : " no failure reported"); });
    if (should) { have = !wfail; prev = cmds; if (wfail) prev.clear(); }
  }
  vh::decide() = nullptr;
}

static void templates(unsigned seed, int h, tf::Executor &ex) {
  vh::Rng R(seed * 15485863u + h);
  fs::path bld = vh::scratch() / "bld";
  int n = R(4);
  struct T { std::string in, out, text, want; bool ok; };
  std::vector<T> ts;
  for (int i = 0; i < n; i++) {
    T t;
    t.in = abs("t" + std::to_string(i) + ".in"); t.out = abs("t" + std::to_string(i) + ".out"); t.ok = true;
    for (int k = R(4); k > 0; k--) switch (R(6)) {
      case 0: t.text += "{v}"; t.want += "VAL"; break;
      case 1: t.text += "{{x}}\n"; t.want += "{x}\n"; break;
      case 2: t.text += "{current_root_dir}"; t.want += root().string(); break;
      case 3: t.text += "line " + std::to_string(R(9)) + "\n"; t.want += t.text.substr(t.text.size() - 7); break;
      case 4: t.text += "é"; t.want += "é"; break;
      default: if (R.p(15)) { t.text += "{unknown}"; t.ok = false; } break;
    }
    vh::write(t.in, t.text);
    if (R.p(8)) { t.ok = false; fs::create_directories(t.out); } // output cannot be written
    ts.push_back(t);
  }
  vh::threw([&] { env::set_task_state(env::TaskState::SUCCESS); });
  std::unique_ptr<TemplateGenerator> g;
  bool t = vh::threw([&] {
    g = std::make_unique<TemplateGenerator>("tg", TargetEnv(root(), bld));
    g->AddPattern("v", "VAL");
    for (auto &x : ts) g->AddTemplate(x.in, x.out);
    g->Build();
  });
  vh::check(!t, "C11", [&] { return "template generator registration failed"; });
  if (t) return;
  ex.run(g->GetTaskflow()).wait();
  bool failed = env::get_task_state() != env::TaskState::SUCCESS, bad = false;
  for (auto &x : ts) bad |= !x.ok;
  auto text = [&] { std::string s = "templates seed " + std::to_string(seed) + " history " + std::to_string(h); for (auto &x : ts) s += " [" + x.text + "]"; return s; };
  vh::check(failed == bad, "C11", [&] { return text() + (failed ? " failed" : " bad template not reported"); });
  if (!bad) for (auto &x : ts) vh::check(fs::exists(x.out) && vh::slurp(x.out) == x.want, "C11", [&] { return text() + " wrong output '" + vh::slurp(x.out) + "'"; });
}

int main(int argc, char **argv) {
  unsigned seed = vh::seed_arg(argc, argv);
  int n = vh::iters_arg(argc, argv, 120);
  spdlog::set_level(spdlog::level::off);
  tf::Executor ex1(1), ex2(3);
  for (int h = 0; h < n; h++) {
    vh::make_scratch();
    fs::create_directories(root());
    fs::create_directories(vh::scratch() / "bld");
    vh::threw([&] { Project::Init(root(), vh::scratch() / "bld"); });
    tf::Executor &ex = h % 2 ? ex2 : ex1;
    custom(seed, h, ex);
    if (h == 0) registering();
    files(seed, h, ex);
    templates(seed, h, ex);
    vh::threw([&] { Project::Deinit(); });
    vh::drop_scratch();
  }
  return vh::finish();
}
