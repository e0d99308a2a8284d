// Random sequences of registrations, dependency declarations and tests against a plain model of the graph; then runs it.
#include <csignal>
#include <sys/wait.h>
#include "taskflow/taskflow.hpp"
#include "taskflow/algorithm/for_each.hpp"
#include "common.hpp"
#include "args/register.h"
#include "env/env.h"
#include "target/file_generator.h"
#include "target/target.h"
using namespace buildcc;
using SV = std::vector<std::string>;
using Edges = std::multiset<std::pair<std::string, std::string>>;

static void graph(std::multiset<std::string> &names, Edges &edges) {
  Reg::GetTaskflow().for_each_task([&](tf::Task t) {
    names.insert(t.name());
    t.for_each_successor([&](tf::Task s) { edges.insert({t.name(), s.name()}); });
  });
}
struct T { std::string id, cmd, exe, a, wd; int type; SV so, se; };

int main(int argc, char **argv) {
  unsigned seed = vh::seed_arg(argc, argv);
  int iters = vh::iters_arg(argc, argv, 100);
  spdlog::set_level(spdlog::level::off);
  vh::make_scratch();
  fs::current_path(vh::scratch());
  {
    const char *av[] = {"prog", "--root_dir", ".", "--build_dir", "bd"};
    vh::threw([&] { Args::Init().Parse(5, av); });
  }
  // without Init everything is an error
  vh::check(vh::threw([&] { Reg::Call(true); }) && vh::threw([&] { Reg::Toolchain(ArgToolchainState(true, true)); }) && vh::threw([&] { Reg::Call(false); }), "C13", [&] { return "registration before Reg::Init accepted"; });
  for (int h = 0; h < iters; h++) {
    vh::Rng R(seed * 104729u + h);
    const fs::path top = vh::scratch() / ("r" + std::to_string(h));
    fs::path bld = top / (R.p(30) ? "b ld" : "bld");
    fs::create_directories(bld);
    env::set_task_state(env::TaskState::SUCCESS);
    vh::execs().clear();
    vh::decide() = nullptr;
    vh::output() = nullptr;
    vh::threw([&] { Reg::Deinit(); Reg::Init(); Project::Deinit(); Project::Init(top, bld); });
    spdlog::set_level(spdlog::level::off);
    std::string log = "seed=" + std::to_string(seed) + " iteration=" + std::to_string(h) + ":";
    Toolchain tc(ToolchainId::Gcc, "gcc", ToolchainExecutables("as", "gcc", "g++", "ar", "ld"));
    const int NG = 2 + R(6), NT = 1 + R(3);
    std::vector<std::unique_ptr<FileGenerator>> gs;
    std::vector<std::unique_ptr<BaseTarget>> ts;
    std::vector<internal::BuilderInterface *> bs;
    vh::threw([&] {
      for (int i = 0; i < NG; i++) { gs.push_back(std::make_unique<FileGenerator>("g" + std::to_string(i), TargetEnv(top, bld))); bs.push_back(gs.back().get()); }
      for (int i = 0; i < NT; i++) { ts.push_back(std::make_unique<BaseTarget>("t" + std::to_string(i), TargetType::Executable, tc, TargetEnv(top, bld), TargetConfig())); bs.push_back(ts.back().get()); }
    });
    std::map<std::string, int> cbs;        // callbacks expected per builder
    std::map<std::string, int> got;
    std::set<std::string> reg;
    std::set<std::pair<std::string, std::string>> dep; // dependency -> target
    std::vector<T> tests;
    std::vector<std::unique_ptr<std::pair<SV, SV>>> bufs;
    auto id = [&](int i) { return bs[i]->GetUniqueId(); };
    auto build = [&](auto &w, int i) {
      if (i < NG) w.Build([&](FileGenerator &g) { got[g.GetUniqueId()]++; g.AddCommand("gen-" + std::to_string(i)); g.Build(); }, *gs[i]);
      else w.Build([&](BaseTarget &t) { got[t.GetUniqueId()]++; t.Build(); }, *ts[i - NG]);
    };
    auto same = [&](const std::string &what) {
      std::multiset<std::string> n; Edges e;
      graph(n, e);
      std::string s = "graph:";
      for (auto &[a, b] : e) s += " " + a + "->" + b;
      vh::check(e == Edges(dep.begin(), dep.end()), "C12 C13", [&] { return log + " after " + what + " unexpected orderings, " + s; });
      bool all = true;
      for (auto &x : reg) all = all && n.count(x) == 1;
      vh::check(all && n.size() == reg.size(), "C12 C13", [&] { return log + " after " + what + " the registered builders are not exactly the tasks"; });
      vh::check(got == cbs, "C13", [&] { return log + " after " + what + " callback counts wrong"; });
    };
    auto closes = [&](const std::string &d, const std::string &t) {
      std::set<std::string> seen{t}; std::vector<std::string> w{t};
      while (!w.empty()) { auto x = w.back(); w.pop_back(); for (auto &[a, b] : dep) if (a == x && seen.insert(b).second) w.push_back(b); }
      return seen.count(d) != 0;
    };
    bool stop = false;
    // usually register everything first, in a random order, so that long chains can form
    std::vector<int> order;
    for (size_t i = 0; i < bs.size(); i++) order.push_back((int)i);
    std::shuffle(order.begin(), order.end(), R.g);
    bool upfront = R.p(70), star = R.p(35); // star: many dependents of one builder, then attempts to make it depend on them
    int ops = 6 + R(22) + (star ? 40 : 0);
    for (int k = 0; k < ops && !stop; k++) {
      bool pre = upfront && k < (int)order.size();
      int what = pre ? 0 : star && R.p(70) ? 5 : R(10);
      int i = pre ? order[k] : R((int)bs.size());
      bool bon = pre || R.p(75), ton = R.p(70);
      ArgToolchainState st(bon, ton);
      std::string d;
      if (what < 2) { // build
        bool viatc = R.p(60), th;
        if (viatc) th = vh::threw([&] { auto w = Reg::Toolchain(st); build(w, i); });
        else th = vh::threw([&] { auto w = Reg::Call(bon); build(w, i); });
        d = "Build(" + id(i) + ", " + std::to_string(bon) + ")";
        log += " " + d;
        bool dup = bon && reg.count(id(i));
        if (bon) cbs[id(i)]++;
        vh::check(th == dup, "C12", [&] { return log + (th ? " refused" : " accepted twice"); });
        if (dup) { got = cbs; break; } // a duplicate leaves an unnamed composition behind: the error is fatal
        if (bon) reg.insert(id(i));
      } else if (what < 7) { // dep
        int j = R((int)bs.size());
        if (star && R.p(50)) j = order[0];
        else if (star && R.p(50)) {
          i = order[0];
          for (int n = 0; n < 8 && (!closes(id(j), id(i)) || dep.count({id(i), id(j)})); n++) j = R((int)bs.size());
        }
        if (R.p(6)) j = i;
        d = "Dep(" + id(i) + " on " + id(j) + ", " + std::to_string(bon) + ")";
        log += " " + d;
        bool bad = !reg.count(id(i)) || !reg.count(id(j)) || dep.count({id(j), id(i)}) || closes(id(j), id(i));
        bool th = vh::threw([&] { Reg::Toolchain(st).Dep(*bs[i], *bs[j]); });
        vh::check(th == (bon && bad), bon ? "C12" : "C13", [&] { return log + (th ? " refused" : " accepted"); });
        if (th != (bon && bad)) stop = true;
        if (bon && !bad) dep.insert({id(j), id(i)});
      } else if (what < 9) { // test
        int q = R(NT);
        i = NG + q;
        T t;
        t.id = id(i); t.a = std::string(1, char('a' + R(4))); t.type = R(5);
        t.cmd = R.p(50) ? "{executable} --x {arg}" : "run {arg} {executable} {arg}";
        if (R.p(50)) t.wd = (top / "wd").string();
        t.exe = ts[q]->GetTargetPath().string();
        if (t.exe.find(' ') != std::string::npos) t.exe = "\"" + t.exe + "\"";
        bufs.push_back(std::make_unique<std::pair<SV, SV>>());
        int nul = R(4);
        std::vector<std::string> *po = nul & 1 ? nullptr : &bufs.back()->first, *pe = nul & 2 ? nullptr : &bufs.back()->second;
        TestConfig cfg({{"arg", t.a}}, t.wd.empty() ? env::optional<fs::path>() : env::optional<fs::path>(fs::path(t.wd)), TestOutput((TestOutput::Type)t.type, po, pe));
        d = "Test(" + t.id + ", " + std::to_string(bon) + std::to_string(ton) + ")";
        log += " " + d;
        bool on = bon && ton, bad = !reg.count(t.id);
        for (auto &x : tests) bad = bad || x.id == t.id;
        bool th = vh::threw([&] { Reg::Toolchain(st).Test(t.cmd, *ts[q], cfg); });
        vh::check(th == (on && bad), "C13", [&] { return log + (th ? " refused" : " accepted"); });
        if (on && !bad) {
          auto sub = [&](std::string s, const std::string &k2, const std::string &v) { size_t p; while ((p = s.find(k2)) != std::string::npos) s.replace(p, k2.size(), v); return s; };
          t.cmd = sub(sub(t.cmd, "{executable}", "\x01"), "{arg}", t.a);
          t.cmd = sub(t.cmd, "\x01", t.exe);
          // what the run must do: (stdout captured, stderr captured, user's own)
          t.so = {std::to_string(t.type == 2 || t.type == 3 || (t.type == 4 && po))}; t.se = {std::to_string(t.type == 1 || t.type == 3 || (t.type == 4 && pe))};
          if (t.type == 4) { t.so.push_back(std::to_string((size_t)po)); t.se.push_back(std::to_string((size_t)pe)); }
          tests.push_back(t);
        }
      } else { // func
        int n = 0;
        bool viatc = R.p(50);
        vh::threw([&] { if (viatc) Reg::Toolchain(st).Func([&](int a) { n += a; }, 1); else Reg::Call(bon).Func([&](int a) { n += a; }, 1); });
        d = "Func(" + std::to_string(bon) + ")";
        log += " " + d;
        vh::check(n == (bon ? 1 : 0), "C13", [&] { return log + " ran " + std::to_string(n) + " times"; });
      }
      same(d);
    }
    if (reg.empty() || stop) continue;
    bool dupbroken = false;
    for (auto &[k, v] : cbs) dupbroken = dupbroken || v > 1;
    if (dupbroken) continue;
    // ---- run
    bool failbuild = R.p(15), failtest = R.p(10) && !tests.empty();
    std::map<std::string, std::vector<std::pair<size_t, size_t>>> ptrs;
    std::string victim = "gen-" + std::to_string(R(NG));
    bool hit = failbuild && reg.count(gs[std::stoi(victim.substr(4))]->GetUniqueId());
    std::string bad = failtest ? tests[R((int)tests.size())].cmd : "";
    vh::decide() = [&](const std::string &c) { return !(hit && c == victim) && c != bad; };
    vh::output() = [&](const std::string &c, SV *so, SV *se) { ptrs[c].push_back({(size_t)so, (size_t)se}); if (so) so->push_back("o:" + c); if (se) se->push_back("e:" + c); };
    if (failtest && !hit) {
      // the error is raised on a worker thread: look at it from outside
      std::fflush(stdout);
      pid_t p = fork();
      if (p == 0) {
        freopen("/dev/null", "w", stderr);
        freopen("/dev/null", "w", stdout);
        std::thread th([&] { try { Reg::Run(); } catch (...) { std::_Exit(1); } std::_Exit(0); });
        th.join();
        std::_Exit(0);
      }
      int st = 0;
      bool ended = false;
      for (int w = 0; w < 2000 && !ended; w++) { ended = waitpid(p, &st, WNOHANG) == p; if (!ended) usleep(5000); }
      if (!ended) { kill(p, SIGKILL); waitpid(p, &st, 0); }
      vh::check(ended, "C14", [&] { return log + " run with failing test '" + bad + "' never ends"; });
      vh::check(!(WIFEXITED(st) && WEXITSTATUS(st) == 0), "C14", [&] { return log + " run with failing test '" + bad + "' ended without an error"; });
      continue;
    }
    int posts = 0; size_t before = 0;
    bool th = vh::threw([&] { Reg::Run([&] { posts++; before = vh::execs().size(); }); });
    auto &ex = vh::execs();
    vh::check(th == hit, "C06 C14", [&] { return log + (th ? " run failed" : " run of a failing build did not fail"); });
    std::map<std::string, size_t> at;
    std::map<std::string, int> cnt;
    for (size_t i = 0; i < ex.size(); i++) { at[ex[i].cmd] = i; cnt[ex[i].cmd]++; }
    for (auto &[d, t] : dep) {
      // both generators: their commands are ordered
      std::string a, b;
      for (int i = 0; i < NG; i++) { if (gs[i]->GetUniqueId() == d) a = "gen-" + std::to_string(i); if (gs[i]->GetUniqueId() == t) b = "gen-" + std::to_string(i); }
      if (a.empty() || b.empty() || !at.count(a) || !at.count(b)) continue;
      vh::check(at[a] < at[b], "C12", [&] { return log + " " + b + " ran before its dependency " + a; });
    }
    for (int i = 0; i < NG && !hit; i++) { bool r = reg.count(gs[i]->GetUniqueId()) != 0; int n = cnt["gen-" + std::to_string(i)]; vh::check(n == (r ? 1 : 0), "C13", [&] { return log + " gen-" + std::to_string(i) + " ran " + std::to_string(n) + " times"; }); }
    if (hit) {
      for (auto &t : tests) vh::check(cnt[t.cmd] == 0, "C14 C06", [&] { return log + " test ran after a failed build"; });
      continue;
    }
    vh::check(posts == 1, "C14", [&] { return log + " post-build callback ran " + std::to_string(posts) + " times"; });
    std::multiset<std::string> want, have;
    auto line = [](const std::string &c, const std::string &wd, bool o, bool e) { return c + " |wd " + wd + " |" + std::to_string(o) + std::to_string(e); };
    for (auto &t : tests) want.insert(line(t.cmd, t.wd, t.so[0] == "1", t.se[0] == "1"));
    for (size_t i = before; i < ex.size(); i++) have.insert(line(ex[i].cmd, ex[i].wd ? *ex[i].wd : "", ex[i].so, ex[i].se));
    std::string w, g;
    for (auto &x : want) w += " [" + x + "]";
    for (auto &x : have) g += " [" + x + "]";
    vh::check(want == have, "C14", [&] { return log + " tests ran:" + g + " expected:" + w; });
    for (auto &t : tests) if (t.type == 4 && want == have) {
      auto &v = ptrs[t.cmd];
      bool ok = false;
      for (auto &[o, e] : v) ok = ok || (std::to_string(o) == t.so[1] && std::to_string(e) == t.se[1]);
      vh::check(ok, "C14", [&] { return log + " user buffers not passed to " + t.cmd; });
    }
  }
  fs::current_path("/tmp");
  return vh::finish();
}
