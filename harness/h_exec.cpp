// C25: the repository's execute.cpp over a recording stand-in for tiny-process-library (which is not installed).
#define VH_REAL_EXECUTE 1
#include "common.hpp"
#include "lib/env/src/execute.cpp"
using vh::check;
struct Plan { int status; std::vector<std::pair<int, std::string>> chunks; };
struct Seen { std::string cmd, path; bool so, se, sin; };
static Plan plan;
static std::vector<Seen> seen;
static int asked = 0;
namespace TinyProcessLib {
Process::Process(const string_type &c, const string_type &p, std::function<void(const char *, size_t)> o, std::function<void(const char *, size_t)> e, bool in, const Config &) noexcept {
  seen.push_back({c, p, (bool)o, (bool)e, in});
  for (auto &[w, s] : plan.chunks) { if (w == 0 && o) o(s.data(), s.size()); if (w == 1 && e) e(s.data(), s.size()); }
}
Process::~Process() noexcept {}
int Process::get_exit_status() noexcept { asked++; return plan.status; }
int Process::get_id() const noexcept { return 42; }
bool Process::try_get_exit_status(int &s) noexcept { asked++; s = plan.status; return true; }
}
int main(int argc, char **argv) {
  spdlog::set_level(spdlog::level::off);
  vh::make_scratch();
  vh::Rng R(vh::seed_arg(argc, argv));
  static const int sts[] = {0, 0, 0, 1, 2, -1, 127, 255, 256, -2147483647, 9};
  for (int i = 0, n = vh::iters_arg(argc, argv, 100); i < n * 20; i++) {
    plan = Plan(); seen.clear(); asked = 0;
    plan.status = sts[R(11)];
    for (int q = R(5); q > 0; q--) { std::string s; for (int k = R(5); k > 0; k--) s += (char)R(256); plan.chunks.push_back({R(2), s}); }
    std::string cmd = R.p(10) ? "" : "cmd " + std::to_string(R(100));
    buildcc::env::optional<fs::path> wd;
    if (R.p(50)) wd = fs::path(R.p(80) ? "/some/dir " + std::to_string(i) : "");
    std::vector<std::string> so{"before"}, se;
    bool po = R.p(50), pe = R.p(50), r = false;
    bool t = vh::threw([&] { r = buildcc::env::Command::Execute(cmd, wd, po ? &so : nullptr, pe ? &se : nullptr); });
    auto d = [&] { return "command '" + cmd + "' status " + std::to_string(plan.status) + " stdout " + (po ? "captured" : "not captured") + " stderr " + (pe ? "captured" : "not captured") + " returned " + (r ? "true" : "false"); };
    if (cmd.empty()) { check(t && seen.empty(), "C25", [&] { return "empty command accepted"; }); continue; }
    check(!t && seen.size() == 1, "C25", [&] { return d() + ": number of processes " + std::to_string(seen.size()); });
    if (t || seen.size() != 1) continue;
    check(seen[0].cmd == cmd && seen[0].path == (wd.has_value() ? wd.value().string() : ""), "C25", [&] { return d() + ": wrong command line or directory " + seen[0].path; });
    check(r == (plan.status == 0), "C25", d);
    check(seen[0].so == po && seen[0].se == pe && !seen[0].sin, "C25", [&] { return d() + ": capture mismatch"; });
    std::vector<std::string> wo{"before"}, we;
    for (auto &[w, s] : plan.chunks) { if (w == 0 && po) wo.push_back(s); if (w == 1 && pe) we.push_back(s); }
    check(so == wo && se == we, "C25", [&] { return d() + ": captured chunks differ"; });
  }
  return vh::finish();
}
