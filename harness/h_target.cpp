// Random build histories of one target against an oracle computed from the record before the build, the present inputs and the failure script.
#include "common.hpp"
#include "env/env.h"
#include "target/target.h"
#include "taskflow/taskflow.hpp"
using namespace buildcc;

static Toolchain tc(ToolchainId::Gcc, "gcc", ToolchainExecutables("as", "gcc", "g++", "ar", "ld"));
using SV = std::vector<std::string>;

struct Cfg {
  SV src, hdr, pch, cdep, ldep, lib, ext; // file names (relative to root)
  std::vector<SV> inc, ldir;
  SV f_pre, f_com, f_pcho, f_asm, f_c, f_cpp, f_pchc, f_link, incs, ldirs;
};
struct Rec { bool loaded = false; Json j; };

static fs::path root() { return vh::scratch() / "root"; }
static bool strs(const Json &j) { if (!j.is_array()) return false; for (auto &x : j) if (!x.is_string()) return false; return true; }
static bool infos(const Json &j) { if (!j.is_array()) return false; for (auto &x : j) if (!x.is_object() || !x.contains("path") || !x["path"].is_string() || !x.contains("hash") || !x["hash"].is_string()) return false; return true; }
static const char *INFOS[] = {"sources", "headers", "pchs", "libs", "compile_dependencies", "link_dependencies"};
static const char *STRS[] = {"external_libs", "include_dirs", "lib_dirs", "preprocessor_flags", "common_compile_flags", "link_flags", "asm_compile_flags", "c_compile_flags", "cpp_compile_flags", "pch_compile_flags", "pch_object_flags"};
static Rec read_rec(const fs::path &p) {
  Rec r;
  std::error_code ec;
  if (!fs::is_regular_file(p, ec)) return r;
  r.j = Json::parse(vh::slurp(p), nullptr, false);
  if (r.j.is_discarded() || !r.j.is_object()) return r;
  for (auto k : INFOS) if (!r.j.contains(k) || !infos(r.j[k])) return r;
  for (auto k : STRS) if (!r.j.contains(k) || !strs(r.j[k])) return r;
  for (auto k : {"pch_compiled", "target_linked"}) if (!r.j.contains(k) || !r.j[k].is_boolean()) return r;
  if (!r.j.contains("name") || !r.j["name"].is_string() || !r.j.contains("type")) return r;
  r.loaded = true;
  return r;
}
static Json jinfos(const SV &v) { Json a = Json::array(); for (auto &n : v) a.push_back({{"path", (root() / n).string()}, {"hash", vh::mtime(root() / n)}}); return a; }
static bool readable(const SV &v) { for (auto &n : v) if (!fs::exists(root() / n)) return false; return true; }
static Json abs_dirs(const SV &v) { Json a = Json::array(); for (auto &n : v) a.push_back((root() / n).string()); return a; }
static bool has(const std::string &s, const std::string &t) { return s.find(t) != std::string::npos; }

int main(int argc, char **argv) {
  unsigned seed = vh::seed_arg(argc, argv);
  int histories = vh::iters_arg(argc, argv, 120);
  spdlog::set_level(spdlog::level::off);
  SV LIB;
  const SV SRC = {"a.cpp", "b.c", "c.s", "d.cpp", "e.cpp"}, HDR = {"h0.h", "h1.h"}, PCH = {"p0.h", "p1.h"}, DEP = {"d0.txt", "d1.txt"}, LD = {"l0.txt"}, EXT = {"-lm", "-lz"}, DIR = {"i0", "i1"};
  tf::Executor ex(2);
  for (int h = 0; h < histories; h++) {
    vh::Rng R(seed * 100003u + h);
    vh::make_scratch();
    bool space = R.p(25);
    fs::path bld = vh::scratch() / (space ? "b ld" : "bld");
    fs::create_directories(root());
    fs::create_directories(bld);
    long tick = 1000000000L;
    vh::threw([&] { Project::Init(root(), bld); });
    std::vector<std::unique_ptr<Target>> libt;
    LIB.clear();
    vh::threw([&] { for (auto n : {"la", "lb"}) { libt.push_back(std::make_unique<Target>(n, TargetType::StaticLibrary, tc, TargetEnv(root(), bld))); LIB.push_back(libt.back()->GetTargetPath().string()); } });
    for (const SV *l : std::initializer_list<const SV *>{&SRC, &HDR, &PCH, &DEP, &LD, &LIB}) for (auto &n : *l) { vh::write(root() / n, "x"); vh::set_mtime(root() / n, tick++); }
    for (auto &d : DIR) fs::create_directories(root() / d);
    auto sub = [&](const SV &v, int pct) { SV o; for (auto &x : v) if (R.p(pct)) o.push_back(x); return o; };
    Cfg c;
    c.src = sub(SRC, 60);
    if (c.src.empty()) c.src = {"a.cpp"};
    if (R.p(60)) c.hdr = sub(HDR, 60);
    if (R.p(60)) { c.pch = sub(PCH, 70); }
    c.cdep = sub(DEP, 30); c.ldep = sub(LD, 40); c.lib = sub(LIB, 70); c.ext = sub(EXT, 50); c.incs = sub(DIR, 40); c.ldirs = sub(DIR, 30);
    std::string log;
    fs::path recf;
    int steps = 3 + R(6);
    for (int s = 0; s < steps; s++) {
      // ---- mutate
      int muts = s == 0 ? 0 : (R.p(25) ? 0 : 1 + (R.p(25) ? 1 : 0));
      for (int m = 0; m < muts; m++) {
        auto touch = [&](const SV &v) { if (!v.empty()) { auto &n = v[R((int)v.size())]; if (!fs::exists(root() / n)) vh::write(root() / n, "x"); vh::set_mtime(root() / n, R.p(30) ? tick - 50 - R(20) : tick++); log += " touch:" + n; } };
        auto flip = [&](SV &v, const SV &u, const char *w) { auto &x = u[R((int)u.size())]; auto it = std::find(v.begin(), v.end(), x); if (it == v.end()) v.push_back(x); else v.erase(it); log += std::string(" flip:") + w + ":" + x; };
        const SV FL = {"-A", "-B"};
        switch (R(29)) {
        case 0: case 1: touch(c.src); break;
        case 2: touch(c.hdr); break;
        case 3: touch(c.pch); break;
        case 4: touch(c.cdep); break;
        case 5: touch(c.ldep); break;
        case 6: touch(c.lib); break;
        case 7: case 8: flip(c.src, SRC, "src"); break;
        case 9: flip(c.hdr, HDR, "hdr"); break;
        case 10: flip(c.pch, PCH, "pch"); break;
        case 11: flip(c.cdep, DEP, "cdep"); break;
        case 12: flip(c.ldep, LD, "ldep"); break;
        case 13: flip(c.lib, LIB, "lib"); break;
        case 14: flip(c.ext, EXT, "ext"); break;
        case 15: flip(c.incs, DIR, "inc"); break;
        case 16: flip(c.ldirs, DIR, "ldir"); break;
        case 17: flip(c.f_pre, FL, "pre"); break;
        case 18: flip(c.f_com, FL, "com"); break;
        case 19: flip(c.f_pcho, FL, "pcho"); break;
        case 20: flip(c.f_asm, FL, "asm"); break;
        case 21: flip(c.f_c, FL, "c"); break;
        case 22: flip(c.f_cpp, FL, "cpp"); break;
        case 23: flip(c.f_pchc, FL, "pchc"); break;
        case 24: flip(c.f_link, FL, "link"); break;
        case 26: case 27: { SV *ls[] = {&c.src, &c.hdr, &c.pch, &c.cdep, &c.lib, &c.ext, &c.incs, &c.ldirs}; auto &l = *ls[R(8)]; std::reverse(l.begin(), l.end()); log += " reorder"; break; }
        case 25: case 28:
          if (R.p(50) && fs::exists(recf)) { // damage the record
            std::string t = vh::slurp(recf);
            switch (R(6)) {
            case 0: fs::remove(recf); log += " rec:removed"; break;
            case 1: vh::write(recf, t.substr(0, t.size() / 2)); log += " rec:cut"; break;
            case 2: vh::write(recf, "[]"); log += " rec:array"; break;
            case 3: { Json j = Json::parse(t, nullptr, false); if (!j.is_object()) break; j.erase(STRS[R(11)]); vh::write(recf, j.dump()); log += " rec:key-removed"; break; }
            case 4: { Json j = Json::parse(t, nullptr, false); if (!j.is_object()) break; j["target_linked"] = false; vh::write(recf, j.dump()); log += " rec:unlinked"; break; }
            case 5: { Json j = Json::parse(t, nullptr, false); if (!j.is_object()) break; j[INFOS[R(6)]] = 5; vh::write(recf, j.dump()); log += " rec:bad-type"; break; }
            }
          } else if (R.p(50)) { auto &n = c.src[c.src.empty() ? 0 : R((int)c.src.size())]; if (!c.src.empty()) { fs::remove(root() / n); log += " missing:" + n; } }
          break;
        }
      }
      if (c.src.empty()) c.src = {"a.cpp"};
      bool ro = false;
      std::set<std::string> failing;
      if (R.p(25)) { if (R.p(20)) failing.insert("PCH "); if (R.p(25)) failing.insert("LINK "); for (auto &n : SRC) if (R.p(25)) failing.insert("/" + n + ">"); }
      log += " [fail:"; for (auto &f : failing) log += f + ","; log += "] build;";
      auto fails = [&](const std::string &cmd) { for (auto &f : failing) if (has(cmd, f)) return true; return false; };
      bool busy = R.p(15); // files are saved again while their compile command runs
      if (busy) log += " (sources saved while compiling)";
      vh::decide() = [&](const std::string &cmd) {
        if (busy) for (auto &x : SRC) if (has(cmd, "<" + (root() / x).string() + ">") && fs::exists(root() / x)) vh::set_mtime(root() / x, 2000000000L + s);
        return !fails(cmd);
      };
      vh::execs().clear();
      env::set_task_state(env::TaskState::SUCCESS);
      bool pre_failed = R.p(4);
      // ---- the oracle's view before the build
      TargetConfig conf;
      conf.pch_command = "PCH <{input}> {output}";
      conf.compile_command = "OBJ <{input}> {output}";
      conf.link_command = "LINK {output} {compiled_sources} {lib_deps}";
      bool constructed = true;
      std::unique_ptr<Target> t;
      Rec rec;
      std::string before;
      bool rec_existed = false;
      Json want;
      std::string why = "seed=" + std::to_string(seed) + " history=" + std::to_string(h) + (space ? " (space in build dir)" : "") + " steps:" + log;
      bool hdr_existed = false, psrc_existed = false;
      std::string psrc_text;
      fs::path hp, sp;
      bool err = vh::threw([&] {
        t = std::make_unique<Target>("T", TargetType::Executable, tc, TargetEnv(root(), bld), conf);
        recf = t->GetTargetBuildDir() / "T.bin";
        rec_existed = fs::exists(recf);
        if (rec_existed) before = vh::slurp(recf);
        rec = read_rec(recf);
        for (auto &x : c.src) t->AddSourceAbsolute(root() / x);
        for (auto &x : c.hdr) t->AddHeaderAbsolute(root() / x);
        for (auto &x : c.pch) t->AddPchAbsolute(root() / x);
        for (auto &x : c.cdep) t->AddCompileDependencyAbsolute(root() / x);
        for (auto &x : c.ldep) t->AddLinkDependencyAbsolute(root() / x);
        for (auto &x : c.lib) t->AddLibDep(*libt[x == LIB[0] ? 0 : 1]);
        for (auto &x : c.ext) t->AddLibDep(x);
        for (auto &x : c.incs) t->AddIncludeDirAbsolute(root() / x);
        for (auto &x : c.ldirs) t->AddLibDirAbsolute(root() / x);
        for (auto &x : c.f_pre) t->AddPreprocessorFlag(x);
        for (auto &x : c.f_com) t->AddCommonCompileFlag(x);
        for (auto &x : c.f_pcho) t->AddPchObjectFlag(x);
        for (auto &x : c.f_asm) t->AddAsmCompileFlag(x);
        for (auto &x : c.f_c) t->AddCCompileFlag(x);
        for (auto &x : c.f_cpp) t->AddCppCompileFlag(x);
        for (auto &x : c.f_pchc) t->AddPchCompileFlag(x);
        for (auto &x : c.f_link) t->AddLinkFlag(x);
        t->Build();
        hp = t->GetPchHeaderPath();
        sp = hp; sp.replace_extension(".cpp");
      });
      if (err) { // a missing source is already fatal when listed
        bool missing = !readable(c.src) || !readable(c.hdr);
        vh::check(missing, "C06", [&] { return why + " Build() threw"; });
        continue;
      }
      bool has_cpp = false;
      for (auto &x : c.src) if (has(x, ".cpp")) has_cpp = true;
      if (!has_cpp) sp.replace_extension(".c");
      hdr_existed = fs::exists(hp); (void)hdr_existed;
      psrc_existed = fs::exists(sp);
      if (psrc_existed && R.p(50)) vh::write(sp, "// mine");
      if (psrc_existed) psrc_text = vh::slurp(sp);
      // the commands this target will run, by source
      if (pre_failed) env::set_task_state(env::TaskState::FAILURE);
      Json &rj = rec.j;
      auto same_str = [&](const char *k, const SV &v) { return rec.loaded && rj[k] == Json(v); };
      auto same_dir = [&](const char *k, const SV &v) { return rec.loaded && rj[k] == abs_dirs(v); };
      auto same_inf = [&](const char *k, const SV &v) { return rec.loaded && readable(v) && rj[k] == jinfos(v); };
      SV libs = c.lib;
      bool stage_ok = !pre_failed, dirty = false, expect_fail = pre_failed;
      // PCH
      int want_pch = 0;
      bool pch_done = false;
      bool unread = false;
      if (!c.pch.empty() && stage_ok) {
        if (!readable(c.hdr) || !readable(c.pch)) { stage_ok = false; expect_fail = true; unread = true; }
        else {
          bool agree = rec.loaded && same_str("preprocessor_flags", c.f_pre) && same_str("common_compile_flags", c.f_com) && same_str("pch_compile_flags", c.f_pchc) && same_str("c_compile_flags", c.f_c) && same_str("cpp_compile_flags", c.f_cpp) && same_dir("include_dirs", c.incs) && same_inf("headers", c.hdr) && same_inf("pchs", c.pch) && rj["pch_compiled"].get<bool>();
          if (!agree) { dirty = true; want_pch = 1; if (failing.count("PCH ")) { stage_ok = false; expect_fail = true; } else pch_done = true; } else pch_done = true;
        }
      }
      bool pch_stage_ok = stage_ok;
      // objects
      std::set<std::string> want_src, done_src;
      std::map<std::string, std::string> mt;
      for (auto &x : c.src) if (fs::exists(root() / x)) mt[x] = vh::mtime(root() / x);
      bool obj_started = stage_ok;
      if (stage_ok) {
        if (!readable(c.src) || !readable(c.hdr) || !readable(c.cdep)) { stage_ok = false; expect_fail = true; unread = true; }
        else {
          bool pchs_same = c.pch.empty() ? (rec.loaded && rj["pchs"].empty()) : same_inf("pchs", c.pch);
          bool agree = rec.loaded && same_str("preprocessor_flags", c.f_pre) && same_str("common_compile_flags", c.f_com) && same_str("pch_object_flags", c.f_pcho) && same_str("asm_compile_flags", c.f_asm) && same_str("c_compile_flags", c.f_c) && same_str("cpp_compile_flags", c.f_cpp) && same_dir("include_dirs", c.incs) && same_inf("headers", c.hdr) && same_inf("compile_dependencies", c.cdep) && pchs_same;
          std::set<std::string> recpaths;
          if (rec.loaded) for (auto &i : rj["sources"]) recpaths.insert(i["path"]);
          if (dirty) agree = false; // the PCH was rebuilt
          if (!agree) dirty = true;
          for (auto &x : c.src) {
            bool ok = false;
            if (agree) for (auto &i : rj["sources"]) if (i["path"] == (root() / x).string() && i["hash"] == mt[x]) ok = true;
            if (!ok) { want_src.insert(x); dirty = true; }
            recpaths.erase((root() / x).string());
            if (ok || !fails("OBJ <" + (root() / x).string() + "> ")) { if (ok) done_src.insert(x); }
          }
          if (!recpaths.empty()) dirty = true;
          for (auto &x : want_src) { if (failing.count("/" + x + ">")) { expect_fail = true; stage_ok = false; } else done_src.insert(x); }
        }
      }
      int want_link = 0;
      bool linked = false, link_started = stage_ok;
      if (stage_ok) {
        if (!readable(c.ldep) || !readable(libs)) { stage_ok = false; expect_fail = true; }
        else {
          bool agree = rec.loaded && same_str("link_flags", c.f_link) && same_dir("lib_dirs", c.ldirs) && same_str("external_libs", c.ext) && same_inf("link_dependencies", c.ldep) && same_inf("libs", libs) && rj["target_linked"].get<bool>();
          if (dirty || !agree) { dirty = true; want_link = 1; if (failing.count("LINK ")) expect_fail = true; else linked = true; }
        }
      }
      // ---- run
      bool tf_threw = false;
      try { ex.run(t->GetTaskflow()).get(); } catch (...) { tf_threw = true; }
      vh::check(!tf_threw, "C06", [&] { return why + " exception escaped a task"; });
      auto execs = vh::execs();
      int n_pch = 0, n_link = 0, n_other = 0;
      std::map<std::string, int> got;
      bool order = true, seen_obj = false, seen_link = false;
      for (auto &e : execs) {
        if (e.cmd.rfind("PCH ", 0) == 0) { n_pch++; if (seen_obj || seen_link) order = false; }
        else if (e.cmd.rfind("LINK ", 0) == 0) { n_link++; seen_link = true; }
        else if (e.cmd.rfind("OBJ ", 0) == 0) { seen_obj = true; if (seen_link) order = false; for (auto &x : SRC) if (has(e.cmd, "<" + (root() / x).string() + ">")) got[x]++; }
        else n_other++;
      }
      auto text = [&] { std::string o = why + " executed:"; for (auto &e : execs) o += " {" + e.cmd + "}" + (e.ok ? "" : "!"); return o; };
      bool failed = env::get_task_state() == env::TaskState::FAILURE;
      vh::check(order, "C06", [&] { return text() + " stages out of order"; });
      vh::check(failed == expect_fail, "C06", [&] { return text() + (expect_fail ? " failure not reported" : " failure reported without cause"); });
      vh::check(n_other == 0, "C01 C02", [&] { return text() + " unexpected command"; });
      if (pre_failed) vh::check(execs.empty(), "C06", [&] { return text() + " commands after a failure"; });
      vh::check(n_pch <= want_pch, want_pch ? "C04" : "C04 C02", [&] { return text() + " PCH compiled more often than needed"; });
      vh::check(n_pch >= want_pch, "C04", [&] { return text() + " PCH not compiled"; });
      if (n_pch == 1 && want_pch == 1) {
        std::string inc;
        for (auto &x : c.pch) inc += "#include \"" + (root() / x).string() + "\"\r\n";
        std::string ht = vh::slurp(hp);
        vh::check(has(ht, inc) && ht.size() == std::string("// Generated by BuildCC\n#ifndef BUILDCC_GENERATED_PCH_H_\n#define BUILDCC_GENERATED_PCH_H_\n\n// clang-format off\n\n\n#endif\n").size() + inc.size(), "C04", [&] { return text() + " aggregate header: " + ht; });
        vh::check(fs::exists(sp) && (!psrc_existed || vh::slurp(sp) == psrc_text), "C04", [&] { return text() + " companion source"; });
      }
      for (auto &x : c.src) {
        int w = want_src.count(x) ? 1 : 0;
        if (!obj_started) vh::check(got[x] == 0, "C06", [&] { return text() + " compiled after a failure: " + x; });
        else if (!unread) {
          vh::check(got[x] >= w, "C01", [&] { return text() + " not compiled: " + x; });
          vh::check(got[x] <= 1, "C01", [&] { return text() + " compiled twice: " + x; });
          if (!w) vh::check(got[x] == 0, "C02", [&] { return text() + " compiled needlessly: " + x; });
        }
      }
      if (!link_started) vh::check(n_link == 0, "C06", [&] { return text() + " linked after a failure"; });
      else {
        vh::check(n_link >= want_link, "C03", [&] { return text() + " not linked"; });
        vh::check(n_link <= want_link, want_link ? "C03" : "C03 C02", [&] { return text() + " linked needlessly"; });
      }
      // ---- record after
      if (!dirty) vh::check((rec_existed ? fs::exists(recf) && vh::slurp(recf) == before : !fs::exists(recf)), "C05 C02", [&] { return text() + " record rewritten although nothing changed"; });
      else {
        Rec a = read_rec(recf);
        vh::check(a.loaded, "C05 C07", [&] { return text() + " record missing or unreadable"; });
        if (a.loaded) {
          std::map<std::string, std::string> rs;
          for (auto &i : a.j["sources"]) rs[i["path"]] = i["hash"];
          for (auto &x : SRC) {
            bool in = rs.count((root() / x).string()), w = done_src.count(x);
            if (in) vh::check(w && rs[(root() / x).string()] == mt[x], "C05", [&] { return text() + " recorded although not done: " + x; });
            else if (!unread) vh::check(!w, "C05 C02", [&] { return text() + " done but not recorded: " + x; });
          }
          vh::check(a.j["target_linked"] == linked, "C05", [&] { return text() + " target_linked wrong"; });
          vh::check(a.j["pch_compiled"] == pch_done, "C05", [&] { return text() + " pch_compiled wrong"; });
          if (pch_done) vh::check(a.j["pchs"] == jinfos(c.pch), "C05", [&] { return text() + " pchs wrong"; });
          else vh::check(a.j["pchs"].empty(), "C05", [&] { return text() + " pchs recorded without success"; });
          vh::check(a.j["preprocessor_flags"] == Json(c.f_pre) && a.j["common_compile_flags"] == Json(c.f_com) && a.j["pch_object_flags"] == Json(c.f_pcho) && a.j["asm_compile_flags"] == Json(c.f_asm) && a.j["c_compile_flags"] == Json(c.f_c) && a.j["cpp_compile_flags"] == Json(c.f_cpp) && a.j["pch_compile_flags"] == Json(c.f_pchc) && a.j["link_flags"] == Json(c.f_link) && a.j["external_libs"] == Json(c.ext) && a.j["include_dirs"] == abs_dirs(c.incs) && a.j["lib_dirs"] == abs_dirs(c.ldirs), "C05 C07", [&] { return text() + " recorded flags or directories wrong"; });
          auto cmp = [&](const char *k, const SV &v, bool hashed) { if (!readable(v)) return; Json w = jinfos(v); Json &g = a.j[k]; bool ok = g.size() == w.size(); for (size_t i = 0; ok && i < w.size(); i++) ok = g[i]["path"] == w[i]["path"] && (!hashed || g[i]["hash"] == w[i]["hash"]); vh::check(ok, "C05", [&] { return text() + " recorded " + k + " wrong"; }); };
          cmp("headers", c.hdr, obj_started && !unread); cmp("compile_dependencies", c.cdep, obj_started && !unread); cmp("libs", libs, link_started); cmp("link_dependencies", c.ldep, link_started);
        }
      }
      (void)pch_stage_ok; (void)constructed; (void)ro;
    }
    vh::threw([&] { Project::Deinit(); });
    vh::drop_scratch();
  }
  return vh::finish();
}
