// Shared pieces of the replay harness: it links the sources of /repo with a recording stand-in for Command::Execute (execute.cpp needs
// tiny-process-library, which is not installed), works only inside a scratch directory, and prints one line
//   FAIL <property> <input that fails>
// for each disagreement between the real code and the property's oracle.
#pragma once
#include <atomic>
#include <chrono>
#include <cstdio>
#include <cstdlib>
#include <filesystem>
#include <fstream>
#include <functional>
#include <iostream>
#include <map>
#include <mutex>
#include <optional>
#include <random>
#include <set>
#include <sstream>
#include <string>
#include <thread>
#include <vector>
#include <unistd.h>

#include "env/command.h"
#include "env/task_state.h"
#include "nlohmann/json.hpp"
#include "spdlog/spdlog.h"

namespace fs = std::filesystem;
using Json = nlohmann::json;

namespace vh {

inline fs::path &scratch() {
  static fs::path p;
  return p;
}
inline void make_scratch(const std::string &sub = "") {
  char t[] = "/tmp/vh.XXXXXX";
  if (!mkdtemp(t)) { perror("mkdtemp"); exit(3); }
  scratch() = fs::path(t);
  if (!sub.empty()) { fs::create_directories(scratch() / sub); }
}
inline void drop_scratch() {
  if (scratch().string().rfind("/tmp/vh.", 0) == 0) { std::error_code ec; fs::remove_all(scratch(), ec); }
}

// ---- recorded commands
struct Exec { std::string cmd; bool ok; std::optional<std::string> wd; bool so, se; };
inline std::mutex &mu() { static std::mutex m; return m; }
inline std::vector<Exec> &execs() { static std::vector<Exec> v; return v; }
inline std::function<bool(const std::string &)> &decide() { static std::function<bool(const std::string &)> f; return f; }
inline std::function<void(const std::string &, std::vector<std::string> *, std::vector<std::string> *)> &output() {
  static std::function<void(const std::string &, std::vector<std::string> *, std::vector<std::string> *)> f; return f; }

// ---- failures
inline std::map<std::string, int> &nfail() { static std::map<std::string, int> m; return m; }
inline long &nchecks() { static long n = 0; return n; }
inline std::map<std::string, long> &per_prop() { static std::map<std::string, long> m; return m; }
inline void check(bool ok, const std::string &props, const std::function<std::string()> &what) {
  nchecks()++;
  std::istringstream is(props);
  std::string p;
  while (is >> p) {
    per_prop()[p]++;
    if (!ok && nfail()[p]++ < 3) { std::string w = what(); for (auto &c : w) if (c == '\n') c = ' '; std::printf("FAIL %s %s\n", p.c_str(), w.c_str()); std::fflush(stdout); }
  }
}
inline int finish() {
  for (auto &[p, n] : per_prop()) std::printf("CHECKED %s %ld\n", p.c_str(), n);
  std::printf("DONE %ld\n", nchecks());
  std::fflush(stdout);
  drop_scratch();
  // several classes keep threads or statics alive on purpose
  std::_Exit(nfail().empty() ? 0 : 1);
}
// fatal assertions throw off the main thread: run scenarios in a thread; returns true if an exception reached the caller
inline bool threw(const std::function<void()> &f) {
  bool t = false;
  std::thread th([&] { try { f(); } catch (...) { t = true; } });
  th.join();
  return t;
}
inline void write(const fs::path &p, const std::string &s) {
  fs::create_directories(p.parent_path());
  std::ofstream o(p, std::ios::binary);
  o << s;
}
inline std::string slurp(const fs::path &p) {
  std::ifstream i(p, std::ios::binary);
  std::ostringstream o;
  o << i.rdbuf();
  return o.str();
}
inline void set_mtime(const fs::path &p, long tick) {
  fs::last_write_time(p, fs::file_time_type(std::chrono::nanoseconds(tick * 1000000000L)));
}
inline std::string mtime(const fs::path &p) { return std::to_string(fs::last_write_time(p).time_since_epoch().count()); }

inline unsigned seed_arg(int argc, char **argv, unsigned d = 1) { return argc > 1 ? (unsigned)std::stoul(argv[1]) : d; }
inline int iters_arg(int argc, char **argv, int d) { return argc > 2 ? std::stoi(argv[2]) : d; }
struct Rng {
  std::mt19937 g;
  explicit Rng(unsigned s) : g(s) {}
  int operator()(int n) { return (int)(g() % (unsigned)n); }
  bool p(int pct) { return (int)(g() % 100u) < pct; }
};
} // namespace vh

#ifndef VH_REAL_EXECUTE
namespace buildcc::env {
bool Command::Execute(const std::string &command, const optional<fs::path> &wd, std::vector<std::string> *so, std::vector<std::string> *se) {
  bool ok = vh::decide() ? vh::decide()(command) : true;
  std::lock_guard<std::mutex> l(vh::mu());
  vh::Exec e{command, ok, {}, so != nullptr, se != nullptr};
  if (wd.has_value()) e.wd = wd.value().string();
  vh::execs().push_back(e);
  if (vh::output()) vh::output()(command, so, se);
  return ok;
}
} // namespace buildcc::env
#endif
