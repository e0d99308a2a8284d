// recording stand-in for Command::Execute and small helpers for the demonstrations
#pragma once
#include <chrono>
#include <cstdio>
#include <filesystem>
#include <fstream>
#include <functional>
#include <iostream>
#include <memory>
#include <mutex>
#include <sstream>
#include <string>
#include <thread>
#include <vector>
#include "env/command.h"
#include "env/env.h"
#include "env/task_state.h"
namespace fs = std::filesystem;
namespace demo {
inline std::mutex mu;
inline std::vector<std::string> cmds;
inline std::function<bool(const std::string &)> ok = [](const std::string &) { return true; };
inline void write(const fs::path &p, const std::string &s = "x") { fs::create_directories(p.parent_path()); std::ofstream(p, std::ios::binary) << s; }
inline std::string slurp(const fs::path &p) { std::ifstream i(p, std::ios::binary); std::ostringstream o; o << i.rdbuf(); return o.str(); }
inline void age(const fs::path &p, long s) { fs::last_write_time(p, fs::file_time_type(std::chrono::seconds(1000000000 + s))); }
inline bool threw(const std::function<void()> &f) { bool t = false; std::thread th([&] { try { f(); } catch (...) { t = true; } }); th.join(); return t; }
inline int count(const std::string &s) { int n = 0; for (auto &c : cmds) if (c.find(s) != std::string::npos) n++; return n; }
inline int fail(const char *m) { std::printf("demo: %s\n", m); std::fflush(stdout); std::_Exit(1); }
inline int pass() { std::fflush(stdout); std::_Exit(0); }
}
#ifndef DEMO_OWN_EXECUTE
namespace buildcc::env {
bool Command::Execute(const std::string &c, const optional<fs::path> &, std::vector<std::string> *, std::vector<std::string> *) {
  std::lock_guard<std::mutex> l(demo::mu);
  demo::cmds.push_back(c);
  return demo::ok(c);
}
}
#endif
