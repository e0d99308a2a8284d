// Concurrent builds under ThreadSanitizer: a data race on the real code is a failing input of C30.
#define VH_REAL_EXECUTE
#include "common.hpp"
#include "args/args.h"
#include "args/register.h"
#include "env/env.h"
#include "schema/target_serialization.h"
#include "target/custom_generator.h"
#include "target/file_generator.h"
#include "target/target.h"
#include "taskflow/taskflow.hpp"
#include <atomic>
#include <cstring>
using namespace buildcc;

extern "C" {
int __tsan_get_report_data(void *, const char **, int *, int *, int *, int *, int *, void **, unsigned long);
int __tsan_get_report_mop(void *, unsigned long, int *, void **, int *, int *, int *, void **, unsigned long);
void __sanitizer_symbolize_pc(void *, const char *, char *, unsigned long);
const char *__tsan_default_options() { return "report_bugs=1:halt_on_error=0:exitcode=0:report_thread_leaks=0:report_signal_unsafe=0:report_mutex_bugs=0:detect_deadlocks=0:suppress_equal_stacks=1"; }
}
static volatile int races = 0;
static char scen[600];
static void *pcs[2][8];
static int wr[2];
// runs inside the tool, possibly in the middle of malloc: no allocation here
extern "C" void __tsan_on_report(void *r) {
  if (races++ != 0) return;
  int tid, size, at;
  void *addr;
  for (unsigned k = 0; k < 2; k++) __tsan_get_report_mop(r, k, &tid, &addr, &size, &wr[k], &at, pcs[k], 8);
  const char *h = "FAIL C30 data race in: ";
  (void)!::write(1, h, strlen(h));
  (void)!::write(1, scen, strlen(scen));
  (void)!::write(1, "\n", 1);
  alarm(30); // the race may have damaged memory: do not hang
}

namespace buildcc::env {
static std::function<bool(const std::string &)> g_decide;
bool Command::Execute(const std::string &command, const optional<fs::path> &, std::vector<std::string> *so, std::vector<std::string> *se) {
  if (so) so->push_back("out");
  if (se) se->push_back("err");
  return g_decide(command);
}
} // namespace buildcc::env

static void scenario(const std::string &d) { std::snprintf(scen, sizeof scen, "%s", d.c_str()); }
static void verdict(const std::string &what) {
  int n = races;
  races = 0;
  vh::check(n == 0, "C30", [&] {
    std::string s;
    for (int k = 0; k < 2; k++) {
      s += (k ? "; against " : "") + std::string(wr[k] ? "write in" : "read in");
      for (int i = 0; i < 6 && pcs[k][i]; i++) {
        char b[300];
        __sanitizer_symbolize_pc((char *)pcs[k][i] - 1, "%f", b, sizeof b);
        s += " < " + std::string(b).substr(0, 90);
      }
    }
    return std::to_string(n) + " data races in: " + what + ": " + s;
  });
  alarm(0);
}

struct Ser : internal::TargetSerialization { using internal::TargetSerialization::TargetSerialization; };

// several threads record their compiled sources and a failure at the same time
static void direct(vh::Rng &R) {
  int n = 2 + R(5), per = 5 + R(40);
  Ser ser(vh::scratch() / "rec.json");
  env::set_task_state(env::TaskState::SUCCESS);
  std::vector<std::thread> th;
  std::atomic<bool> go{false};
  int failing = R.p(50) ? R(n) : -1;
  for (int t = 0; t < n; t++) th.emplace_back([&, t] {
    while (!go) std::this_thread::yield();
    for (int i = 0; i < per; i++) {
      ser.AddSource("/s/" + std::to_string(t) + "_" + std::to_string(i), std::to_string(i));
      if (t == failing && i == per / 2) env::set_task_state(env::TaskState::FAILURE);
      (void)env::get_task_state();
    }
  });
  scenario(std::to_string(n) + " tasks recording " + std::to_string(per) + " sources each");
  go = true;
  for (auto &x : th) x.join();
  std::multiset<std::string> got;
  for (auto &i : ser.GetStore().sources.GetPathInfos()) got.insert(i.path + "=" + i.hash);
  bool ok = (int)got.size() == n * per;
  for (int t = 0; t < n; t++) for (int i = 0; i < per; i++) ok = ok && got.count("/s/" + std::to_string(t) + "_" + std::to_string(i) + "=" + std::to_string(i)) == 1;
  std::string d = std::to_string(n) + " tasks recording " + std::to_string(per) + " sources each";
  vh::check(ok, "C30", [&] { return d + ": " + std::to_string(got.size()) + " of " + std::to_string(n * per) + " entries recorded"; });
  vh::check((env::get_task_state() == env::TaskState::FAILURE) == (failing >= 0), "C30", [&] { return d + ": the failure of one of them is " + (failing >= 0 ? "lost" : "invented"); });
  verdict(d);
}

// two targets and two generators built by one executor
static void build(vh::Rng &R, Toolchain &tc) {
  fs::path root = vh::scratch() / "root", bld = vh::scratch() / "bld";
  int nt = 1 + R(2), ng = 1 + R(2);
  std::string d;
  std::vector<std::unique_ptr<Target>> ts;
  std::vector<std::unique_ptr<CustomGenerator>> gs;
  std::vector<std::vector<std::string>> src(nt);
  TargetConfig conf;
  conf.pch_command = "PCH {input} {output}";
  conf.compile_command = "OBJ <{input}> {output}";
  conf.link_command = "LINK {output} {compiled_sources}";
  std::set<std::string> bad, badsrc;
  bool genbad = false;
  bool t = vh::threw([&] {
    for (int k = 0; k < nt; k++) {
      ts.push_back(std::make_unique<Target>("t" + std::to_string(k), TargetType::Executable, tc, TargetEnv(root, bld), conf));
      int n = 2 + R(10);
      for (int i = 0; i < n; i++) {
        std::string f = "t" + std::to_string(k) + "_" + std::to_string(i) + ".cpp";
        vh::write(root / f, "x");
        src[k].push_back((root / f).string());
        if (R.p(10)) { bad.insert("<" + src[k].back() + ">"); badsrc.insert(src[k].back()); }
        ts.back()->AddSource(f);
      }
      if (R.p(40)) { vh::write(root / "p.h", "x"); ts.back()->AddPch("p.h"); }
      d += "target with " + std::to_string(n) + " sources; ";
    }
    for (int k = 0; k < ng; k++) {
      gs.push_back(std::make_unique<CustomGenerator>("g" + std::to_string(k), TargetEnv(root, bld)));
      int n = 1 + R(6);
      for (int i = 0; i < n; i++) {
        std::string f = "g" + std::to_string(k) + "_" + std::to_string(i) + ".in";
        vh::write(root / f, "x");
        bool fail = R.p(8);
        genbad = genbad || fail;
        gs.back()->AddIdInfo("id" + std::to_string(i), {"{current_root_dir}/" + f}, {"{current_build_dir}/" + f + ".out"}, [fail](const CustomGeneratorContext &c) { return !fail && c.inputs.size() == 1; });
      }
      d += "generator with " + std::to_string(n) + " ids; ";
    }
    for (auto &x : ts) x->Build();
    for (auto &x : gs) x->Build();
  });
  vh::check(!t, "C30", [&] { return d + "could not be set up"; });
  if (t) return;
  env::g_decide = [bad](const std::string &c) { for (auto &b : bad) if (c.find(b) != std::string::npos) return false; return true; };
  env::set_task_state(env::TaskState::SUCCESS);
  scenario(d);
  tf::Taskflow flow;
  for (auto &x : ts) flow.composed_of(x->GetTaskflow());
  for (auto &x : gs) flow.composed_of(x->GetTaskflow());
  {
    tf::Executor ex(4);
    ex.run(flow).wait();
  }
  bool failed = env::get_task_state() == env::TaskState::FAILURE;
  vh::check(failed == (genbad || !bad.empty()), "C30", [&] { return d + (failed ? "fails without a failing task" : "a failing task is lost"); });
  for (int k = 0; k < nt; k++) {
    fs::path rec = ts[k]->GetTargetBuildDir() / ("t" + std::to_string(k) + ".bin");
    Json j = Json::parse(vh::slurp(rec), nullptr, false);
    std::multiset<std::string> got, want;
    if (j.is_object() && j.contains("sources")) for (auto &x : j["sources"]) got.insert(x["path"].get<std::string>());
    for (auto &x : src[k]) if (!badsrc.count(x)) want.insert(x);
    bool sub = std::includes(want.begin(), want.end(), got.begin(), got.end());
    vh::check(sub && (failed || got == want), "C30", [&] { return d + std::to_string(got.size()) + " of " + std::to_string(want.size()) + " compiled sources recorded"; });
  }
  verdict(d);
}

// registered tests run at the same time
static void tests(vh::Rng &R, Toolchain &tc) {
  fs::path root = vh::scratch() / "root", bld = vh::scratch() / "bldt";
  int n = 2 + R(5);
  std::vector<std::unique_ptr<Target>> ts;
  env::g_decide = [](const std::string &) { return true; };
  env::set_task_state(env::TaskState::SUCCESS);
  bool t = vh::threw([&] {
    Reg::Deinit();
    Reg::Init();
    ArgToolchainState st(true, true);
    vh::write(root / "m.cpp", "x");
    TargetConfig conf;
    for (int k = 0; k < n; k++) ts.push_back(std::make_unique<Target>("x" + std::to_string(k), TargetType::Executable, tc, TargetEnv(root, bld), conf));
    auto r = Reg::Toolchain(st);
    static const TestOutput::Type ty[] = {TestOutput::Type::DefaultBehaviour, TestOutput::Type::TestPrintOnStderr, TestOutput::Type::TestPrintOnStdout, TestOutput::Type::TestPrintOnStderrAndStdout};
    for (auto &x : ts) {
      r.Build([](Target &q) { q.AddSource("m.cpp"); q.Build(); }, *x);
      r.Test("{executable}", *x, TestConfig({}, {}, TestOutput(ty[R(4)])));
    }
    spdlog::set_level(spdlog::level::off);
    scenario(std::to_string(n) + " tests run together");
    Reg::Run();
  });
  (void)t;
  verdict(std::to_string(n) + " tests run together");
}

int main(int argc, char **argv) {
  unsigned seed = vh::seed_arg(argc, argv);
  int iters = vh::iters_arg(argc, argv, 20);
  spdlog::set_level(spdlog::level::off);
  vh::make_scratch();
  fs::path start = vh::scratch();
  fs::current_path(start);
  {
    const char *av[] = {"prog", "--root_dir", ".", "--build_dir", "bd"};
    vh::threw([&] { Args::Init().Parse(5, av); });
    spdlog::set_level(spdlog::level::off);
  }
  for (int k = 0; k < iters; k++) {
    vh::Rng R(seed * 9176u + k);
    vh::make_scratch();
    fs::create_directories(vh::scratch() / "root");
    fs::create_directories(vh::scratch() / "bld");
    vh::threw([&] { Project::Deinit(); Project::Init(vh::scratch() / "root", vh::scratch() / "bld"); });
    Toolchain tc(ToolchainId::Gcc, "gcc", ToolchainExecutables("as", "gcc", "g++", "ar", "ld"));
    direct(R);
    build(R, tc);
    if (R.p(50)) tests(R, tc);
    vh::drop_scratch();
  }
  vh::scratch() = start;
  return vh::finish();
}
