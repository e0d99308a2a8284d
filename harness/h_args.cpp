// C32: the real command-line parser on random command lines and configuration files, against a table of what each option names.
#include "common.hpp"
#include "args/args.h"
#include <sys/wait.h>
using namespace buildcc;
using vh::check;
struct Tc { std::string name; int id; std::string tn; std::string ex[5]; };
struct Tg { std::string name, cc, lc; };
static const char *const EX[] = {"asm_compiler", "c_compiler", "cpp_compiler", "archiver", "linker"};
static const std::pair<const char *, int> IDN[] = {{"gcc", (int)ToolchainId::Gcc}, {"msvc", (int)ToolchainId::Msvc}, {"mingw", (int)ToolchainId::MinGW},
  {"clang", (int)ToolchainId::Clang}, {"custom", (int)ToolchainId::Custom}, {"undefined", (int)ToolchainId::Undefined}};
static const std::pair<const char *, int> LVN[] = {{"trace", (int)env::LogLevel::Trace}, {"debug", (int)env::LogLevel::Debug}, {"info", (int)env::LogLevel::Info},
  {"warning", (int)env::LogLevel::Warning}, {"critical", (int)env::LogLevel::Critical}};
static std::string word(vh::Rng &R) { static const char *const w[] = {"gcc", "ld", "ar", "clang++", "my tool", "/opt/x y/bin/cc", "{compiler} -c {input}", "a.b", "x"}; return std::string(w[R(9)]) + std::to_string(R(50)); }
static std::string up(std::string s, bool u) { if (u) for (auto &c : s) c = toupper(c); return s; }
static ArgToolchain mk(const Tc &t) {
  return ArgToolchain((ToolchainId)t.id, t.tn, ToolchainExecutables(t.ex[0], t.ex[1], t.ex[2], t.ex[3], t.ex[4]), ToolchainConfig());
}
int main(int argc, char **argv) {
  spdlog::set_level(spdlog::level::off);
  vh::make_scratch();
  vh::Rng R(vh::seed_arg(argc, argv));
  for (int it = 0, n = vh::iters_arg(argc, argv, 100); it < n; it++) {
    std::vector<Tc> tcs; std::vector<Tg> tgs;
    for (int i = R(3); i >= 0; i--) { Tc t; t.name = "tc" + std::to_string(i); t.id = IDN[R(6)].second; t.tn = word(R); for (auto &e : t.ex) e = word(R); tcs.push_back(t); }
    for (int i = R(3); i > 0; i--) tgs.push_back({"tg" + std::to_string(i), word(R), word(R)});
    Json want; std::vector<std::string> av{"prog"}; std::string toml;
    bool file = R.p(40), tw = false, gw = false;
    bool clean = R.p(50); int lv = R.p(70) ? R(5) : -1;
    std::string rd = word(R), bd = word(R);
    auto q = [](const std::string &s) { return "\"" + s + "\""; };
    if (file) {
      toml += "root_dir = " + q(rd) + "\nbuild_dir = " + q(bd) + "\n";
      if (clean) toml += "clean = true\n";
      if (lv >= 0) toml += "loglevel = " + q(LVN[lv].first) + "\n";
    } else {
      std::vector<std::vector<std::string>> g{{"--root_dir", rd}, {"--build_dir", bd}};
      if (clean) g.push_back({"--clean"});
      if (lv >= 0) g.push_back({"--loglevel", up(LVN[lv].first, R.p(30))});
      for (size_t i = g.size(); i > 1; i--) std::swap(g[i - 1], g[R(i)]);
      for (auto &x : g) for (auto &y : x) av.push_back(y);
    }
    want["clean"] = clean; want["level"] = lv >= 0 ? LVN[lv].second : (int)env::LogLevel::Info; want["root"] = rd; want["build"] = bd;
    for (auto &t : tcs) {
      bool b = R.p(50), te = R.p(50); int id = R.p(50) ? R(6) : -1; bool nm = R.p(40); Tc w = t;
      std::vector<std::string> a; std::string s;
      if (b) { a.push_back("--build"); s += "build = true\n"; }
      if (te) { a.push_back("--test"); s += "test = true\n"; }
      if (id >= 0) { w.id = IDN[id].second; a.push_back("--id"); a.push_back(up(IDN[id].first, R.p(30))); s += "id = " + q(IDN[id].first) + "\n"; }
      if (nm) { w.tn = word(R); a.push_back("--name"); a.push_back(w.tn); s += "name = " + q(w.tn) + "\n"; }
      for (int k = 0; k < 5; k++) if (R.p(40)) { w.ex[k] = word(R); a.push_back(std::string("--") + EX[k]); a.push_back(w.ex[k]); s += std::string(EX[k]) + " = " + q(w.ex[k]) + "\n"; }
      if (file) { if (!s.empty()) toml += "[toolchain." + t.name + "]\n" + s; }
      else if (!a.empty()) { if (!tw) av.push_back("toolchain"); tw = true; av.push_back(t.name); for (auto &x : a) av.push_back(x); }
      want["tc"].push_back({b, te, w.id, w.tn, w.ex[0], w.ex[1], w.ex[2], w.ex[3], w.ex[4]});
    }
    for (auto &t : tgs) {
      Tg w = t; std::vector<std::string> a; std::string s;
      if (R.p(50)) { w.cc = word(R); a.push_back("--compile_command"); a.push_back(w.cc); s += "compile_command = " + q(w.cc) + "\n"; }
      if (R.p(50)) { w.lc = word(R); a.push_back("--link_command"); a.push_back(w.lc); s += "link_command = " + q(w.lc) + "\n"; }
      if (file) { if (!s.empty()) toml += "[target." + t.name + "]\n" + s; }
      else if (!a.empty()) { if (!gw) av.push_back("target"); gw = true; av.push_back(t.name); for (auto &x : a) av.push_back(x); }
      want["tg"].push_back({w.cc, w.lc});
    }
    if (file) { vh::write(vh::scratch() / "c.toml", toml); av.push_back("--config"); av.push_back((vh::scratch() / "c.toml").string()); }
    int bad = R.p(20) ? 1 + R(4) : 0;
    if (bad == 1) av.push_back("--no_such_option");
    if (bad == 2 && !file) { auto i = std::find(av.begin(), av.end(), "--root_dir"); av.erase(i, i + 2); } else if (bad == 2) bad = 0;
    if (bad == 3) { av.insert(av.begin() + 1, {"--loglevel", "loud"}); if (lv >= 0 && !file) bad = 3; }
    if (bad == 4 && !file) { auto i = std::find(av.begin(), av.end(), "--build_dir"); av.erase(i, i + 2); } else if (bad == 4) bad = 0;
    std::vector<const char *> cv; for (auto &x : av) cv.push_back(x.c_str());
    int fd[2]; if (pipe(fd)) return 3;
    pid_t p = fork();
    if (p == 0) {
      close(fd[0]); freopen("/dev/null", "w", stdout); freopen("/dev/null", "w", stderr);
      Json got;
      std::vector<ArgToolchain> o(tcs.size()); std::vector<ArgTarget> u(tgs.size());
      auto &in = Args::Init();
      got["before"] = {Args::IsInit(), Args::IsParsed(), Args::Clean()};
      for (size_t i = 0; i < tcs.size(); i++) in.AddToolchain(tcs[i].name, "d", o[i], mk(tcs[i]));
      for (size_t i = 0; i < tgs.size(); i++) { ArgTarget d; d.compile_command = tgs[i].cc; d.link_command = tgs[i].lc; in.AddTarget(tgs[i].name, "d", u[i], d); }
      in.Parse((int)cv.size(), cv.data());
      got["after"] = Args::IsParsed(); got["clean"] = Args::Clean(); got["level"] = (int)Args::GetLogLevel();
      got["root"] = Args::GetProjectRootDir().string(); got["build"] = Args::GetProjectBuildDir().string();
      for (auto &x : o) got["tc"].push_back({x.state.build, x.state.test, (int)x.id, x.name, x.executables.assembler, x.executables.c_compiler, x.executables.cpp_compiler, x.executables.archiver, x.executables.linker});
      for (auto &x : u) { auto c = x.GetTargetConfig(); got["tg"].push_back({c.compile_command, c.link_command}); }
      std::string s = got.dump();
      if (::write(fd[1], s.data(), s.size()) < 0) _exit(9);
      _exit(0);
    }
    close(fd[1]);
    std::string s; char buf[4096]; ssize_t k; while ((k = read(fd[0], buf, sizeof buf)) > 0) s.append(buf, k);
    close(fd[0]);
    int st = 0; waitpid(p, &st, 0);
    auto d = [&] { std::string r; for (auto &x : av) r += "'" + x + "' "; return r + (file ? " with file " + toml : "") + " gave " + (s.empty() ? "exit " + std::to_string(WEXITSTATUS(st)) : s) + " wanted " + (bad ? "a usage error" : want.dump()); };
    if (bad) { check(s.empty() && WIFEXITED(st) && WEXITSTATUS(st) != 0, "C32", d); continue; }
    Json got = s.empty() ? Json() : Json::parse(s);
    bool ok = !s.empty() && got["before"] == Json({true, false, false}) && got["after"] == true;
    if (ok) for (auto &[kk, v] : want.items()) ok = ok && got[kk] == v;
    check(ok, "C32", d);
  }
  return vh::finish();
}
