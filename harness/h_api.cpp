// Random sequences of API calls on targets against a plain model of the lists, plus the commands and paths of the finished target.
#include "common.hpp"
#include "env/env.h"
#include "target/target.h"
#include "taskflow/taskflow.hpp"
using namespace buildcc;
using SV = std::vector<std::string>;

enum L { SRC, HDR, PCH, LIB, INC, LDIR, EXTL, F_PRE, F_COM, F_PCHC, F_PCHO, F_ASM, F_C, F_CPP, F_LINK, CDEP, LDEP, NL };
static const char *LN[] = {"sources", "headers", "pchs", "libs", "include_dirs", "lib_dirs", "external_libs", "preprocessor", "common", "pch_compile", "pch_object", "asm", "c", "cpp", "link", "compile_deps", "link_deps"};
static const SyncOption OPT[] = {SyncOption::SourceFiles, SyncOption::HeaderFiles, SyncOption::PchFiles, SyncOption::LibDeps, SyncOption::IncludeDirs, SyncOption::LibDirs, SyncOption::ExternalLibDeps, SyncOption::PreprocessorFlags, SyncOption::CommonCompileFlags, SyncOption::PchCompileFlags, SyncOption::PchObjectFlags, SyncOption::AsmCompileFlags, SyncOption::CCompileFlags, SyncOption::CppCompileFlags, SyncOption::LinkFlags, SyncOption::CompileDependencies, SyncOption::LinkDependencies};
struct M { SV l[NL]; };
static M get(const Target &t) {
  M m;
  m.l[SRC] = t.GetSourceFiles(); m.l[HDR] = t.GetHeaderFiles(); m.l[PCH] = t.GetPchFiles(); m.l[LIB] = t.GetLibDeps(); m.l[INC] = t.GetIncludeDirs(); m.l[LDIR] = t.GetLibDirs(); m.l[EXTL] = t.GetExternalLibDeps();
  m.l[F_PRE] = t.GetPreprocessorFlags(); m.l[F_COM] = t.GetCommonCompileFlags(); m.l[F_PCHC] = t.GetPchCompileFlags(); m.l[F_PCHO] = t.GetPchObjectFlags(); m.l[F_ASM] = t.GetAsmCompileFlags(); m.l[F_C] = t.GetCCompileFlags(); m.l[F_CPP] = t.GetCppCompileFlags(); m.l[F_LINK] = t.GetLinkFlags();
  m.l[CDEP] = t.GetCompileDependencies(); m.l[LDEP] = t.GetLinkDependencies();
  return m;
}
static std::string show(const SV &v) { std::string o = "["; for (auto &x : v) o += "'" + x + "' "; return o + "]"; }
static std::string diff(const M &a, const M &b) { std::string o; for (int i = 0; i < NL; i++) if (a.l[i] != b.l[i]) o += std::string(" ") + LN[i] + ": got " + show(a.l[i]) + " want " + show(b.l[i]); return o; }
static std::string norm(const fs::path &p) { return p.lexically_normal().string(); }
static std::string disp(const fs::path &p) { auto s = norm(p); return s.find(' ') != std::string::npos ? "\"" + s + "\"" : s; }
static std::string join(const SV &v) { std::string o; for (size_t i = 0; i < v.size(); i++) o += (i ? " " : "") + v[i]; return o; }

int main(int argc, char **argv) {
  unsigned seed = vh::seed_arg(argc, argv);
  int iters = vh::iters_arg(argc, argv, 120);
  spdlog::set_level(spdlog::level::off);
  tf::Executor ex(2);
  for (int h = 0; h < iters; h++) {
    vh::Rng R(seed * 7919u + h);
    vh::make_scratch();
    const fs::path top = vh::scratch();
    fs::path root = top / (R.p(30) ? "my proj" : "proj"), bld = top / (R.p(30) ? "b ld" : "bld");
    fs::create_directories(root); fs::create_directories(bld);
    vh::threw([&] { Project::Init(root, bld); });
    ToolchainConfig tcf;
    if (R.p(40)) { tcf.obj_ext = ".obj"; tcf.pch_compile_ext = ".pch"; tcf.prefix_include_dir = "/I"; tcf.prefix_lib_dir = "/LIB:"; tcf.pch_header_ext = ".hpp"; }
    if (R.p(30)) tcf.valid_asm_ext = {".s", ".cpp"};
    if (R.p(30)) tcf.valid_c_ext = {".c", ".S", ".h"};
    std::string sp = R.p(30) ? "/opt/my tools/" : "";
    Toolchain tc(ToolchainId::Gcc, R.p(50) ? "gcc" : "tool one", ToolchainExecutables(sp + "as", sp + "gcc", sp + "g++", sp + "ar", sp + "ld"), tcf);
    M m0;
    std::string log = "seed=" + std::to_string(seed) + " iteration=" + std::to_string(h) + ":";
    auto fl = [&] { return "-" + std::string(1, char('a' + R(6))) + (R.p(20) ? " v" : ""); };
    auto addflag = [&](auto &t, int k, const std::string &f) { switch (k) { case F_PRE: t.AddPreprocessorFlag(f); break; case F_COM: t.AddCommonCompileFlag(f); break; case F_PCHC: t.AddPchCompileFlag(f); break; case F_PCHO: t.AddPchObjectFlag(f); break; case F_ASM: t.AddAsmCompileFlag(f); break; case F_C: t.AddCCompileFlag(f); break; case F_CPP: t.AddCppCompileFlag(f); break; default: t.AddLinkFlag(f); } };
    for (int i = R(8); i > 0; i--) { int k = F_PRE + R(8); auto f = fl(); addflag(tc, k, f); m0.l[k].push_back(f); }
    // ---- class of a file
    auto cls = [&](const fs::path &p) { auto e = p.extension().string(); return e.empty() ? FileExt::Invalid : tcf.valid_c_ext.count(e) ? FileExt::C : tcf.valid_cpp_ext.count(e) ? FileExt::Cpp : tcf.valid_asm_ext.count(e) ? FileExt::Asm : tcf.valid_header_ext.count(e) ? FileExt::Header : FileExt::Invalid; };
    auto issrc = [&](const fs::path &p) { auto c = cls(p); return c == FileExt::C || c == FileExt::Cpp || c == FileExt::Asm; };
    auto ishdr = [&](const fs::path &p) { return tcf.valid_header_ext.count(p.extension().string()) != 0; };
    for (auto n : {"a.c", "a.cpp", "a.cc", "a.cxx", "a.s", "a.S", "a.asm", "a.h", "a.hpp", "a.txt", "a", ".c", "a.C", "x.y/a", "a.c.txt", "a.", "a.HPP", "a.H", "a.CPP", "a.Cc", "a.ASM", "a.cppx", "a.cp", "a.hpp.c", "A B.hpp"}) {
      FileExt got = FileExt::Invalid; bool s = false, hh = false, es = false, eh = false;
      vh::threw([&] { got = tc.GetConfig().GetFileExt(n); s = tc.GetConfig().IsValidSource(n); hh = tc.GetConfig().IsValidHeader(n); });
      es = vh::threw([&] { tc.GetConfig().ExpectsValidSource(n); }); eh = vh::threw([&] { tc.GetConfig().ExpectsValidHeader(n); });
      vh::check(got == cls(n) && s == issrc(n) && hh == ishdr(n) && es == !issrc(n) && eh == !ishdr(n), "C17", [&] { return log + " class of " + n + " wrong"; });
    }
    // ---- two targets, random calls
    TargetConfig cf;
    cf.target_ext = R.p(50) ? ".exe" : "";
    cf.compile_command = "OBJ|{compiler}|{preprocessor_flags}|{include_dirs}|{common_compile_flags}|{pch_object_flags}|{compile_flags}|{output}|{input}|{pch_object_output}|{lib_dirs}|{link_flags}|{asm_compiler}|{c_compiler}|{cpp_compiler}|{archiver}|{linker}|{pch_compile_flags}";
    cf.pch_command = "PCH|{compiler}|{preprocessor_flags}|{include_dirs}|{common_compile_flags}|{pch_compile_flags}|{compile_flags}|{output}|{input}|{input_source}";
    cf.link_command = "LINK|{linker}|{archiver}|{link_flags}|{output}|{compiled_sources}|{lib_dirs}|{lib_deps}|{pch_object_output}";
    TargetType ty = R.p(50) ? TargetType::Executable : TargetType::StaticLibrary;
    std::unique_ptr<Target> t[2], lt;
    bool bad = vh::threw([&] { lt = std::make_unique<Target>("l b", TargetType::StaticLibrary, tc, TargetEnv(root, bld)); for (int i = 0; i < 2; i++) t[i] = std::make_unique<Target>(i ? "U" : (h % 3 == 0 ? "T.v1" : h % 2 ? "T" : "T t"), ty, tc, R.p(50) ? TargetEnv(root, bld) : TargetEnv(""), cf); });
    vh::check(!bad, "C16 C19", [&] { return log + " constructing a target threw"; });
    if (bad) { vh::threw([&] { Project::Deinit(); }); vh::drop_scratch(); continue; }
    M m[2] = {m0, m0};
    for (int i = 0; i < 2; i++) vh::check(diff(get(*t[i]), m[i]).empty(), "C16", [&] { return log + " new target:" + diff(get(*t[i]), m[i]); });
    const SV FS = {"a.c", "b.cpp", "sub/c.s", "sub/../d.cpp", "../out.cpp", "../o.d/x.cpp", "x..y.cpp", "d.d/x.c", "e.h", "f.hpp", "sub/g.h", "h.txt", "n", "./i.cc", "sp ace/j.cpp", "k.HPP", "l.CPP", "m.v1.cpp"};
    const SV DS = {"inc", "sub/../lib", "my dir", "."};
    for (auto &f : FS) vh::write(root / f, "x");
    int calls = 6 + R(25);
    for (int k = 0; k < calls; k++) {
      int w = R(2), op = R(26);
      Target &T = *t[w];
      M &m1 = m[w];
      M other = m[1 - w];
      std::string f = FS[R((int)FS.size())], d = DS[R((int)DS.size())], props = "C16";
      fs::path a = root / f;
      M want = m1;
      bool fatal = false;
      std::string c;
      std::function<void()> call;
      auto file = [&](int l, bool ok) { fatal = !ok; if (ok) want.l[l].push_back(norm(a)); if (!ok) props = "C17"; };
      switch (op) {
      case 0: c = "AddSource " + f; file(SRC, issrc(f)); call = [&] { T.AddSource(f); }; break;
      case 1: c = "AddSourceAbsolute " + f; file(SRC, issrc(f)); call = [&] { T.AddSourceAbsolute(a); }; break;
      case 2: c = "AddSource2 " + f; a = root / "sub" / f; file(SRC, issrc(f)); call = [&] { T.AddSource(f, "sub"); }; break;
      case 3: c = "AddHeader " + f; file(HDR, ishdr(f)); call = [&] { T.AddHeader(f); }; break;
      case 4: c = "AddHeaderAbsolute " + f; file(HDR, ishdr(f)); call = [&] { T.AddHeaderAbsolute(a); }; break;
      case 5: c = "AddPch " + f; file(PCH, ishdr(f)); call = [&] { T.AddPch(f); }; break;
      case 6: c = "AddPchAbsolute " + f; file(PCH, ishdr(f)); call = [&] { T.AddPchAbsolute(a); }; break;
      case 7: c = "AddIncludeDir " + d; want.l[INC].push_back(norm(root / d)); call = [&] { T.AddIncludeDir(d); }; break;
      case 8: c = "AddIncludeDirAbsolute " + d; want.l[INC].push_back(norm(root / d)); call = [&] { T.AddIncludeDirAbsolute(root / d); }; break;
      case 9: c = "AddLibDir " + d; want.l[LDIR].push_back(norm(root / d)); call = [&] { T.AddLibDir(d); }; break;
      case 10: c = "AddLibDirAbsolute " + d; want.l[LDIR].push_back(norm(root / d)); call = [&] { T.AddLibDirAbsolute(root / d); }; break;
      case 11: c = "AddLibDep ext"; want.l[EXTL].push_back("-lx"); call = [&] { T.AddLibDep(std::string("-lx")); }; break;
      case 12: c = "AddLibDep target"; want.l[LIB].push_back(norm(lt->GetTargetPath())); call = [&] { T.AddLibDep(*lt); }; break;
      case 13: c = "AddCompileDependency " + f; want.l[CDEP].push_back(norm(a)); call = [&] { T.AddCompileDependency(f); }; break;
      case 14: c = "AddCompileDependencyAbsolute " + f; want.l[CDEP].push_back(norm(a)); call = [&] { T.AddCompileDependencyAbsolute(a); }; break;
      case 15: c = "AddLinkDependency " + f; want.l[LDEP].push_back(norm(a)); call = [&] { T.AddLinkDependency(f); }; break;
      case 16: c = "AddLinkDependencyAbsolute " + f; want.l[LDEP].push_back(norm(a)); call = [&] { T.AddLinkDependencyAbsolute(a); }; break;
      case 17: case 18: case 19: { int q = F_PRE + R(8); auto g = fl(); c = std::string("flag ") + LN[q] + " " + g; want.l[q].push_back(g); call = [&, q, g] { addflag(T, q, g); }; break; }
      case 20: case 21: { // copy / insert from the other target
        int i = R(NL), j = R(NL); bool two = R.p(60) && i != j, mv = R.p(30), cp = op == 20;
        props = "C15"; c = std::string(cp ? "Copy" : "Insert") + (mv ? " by move " : " ") + LN[i] + (two ? std::string(",") + LN[j] : "");
        for (int q : two ? std::vector<int>{i, j} : std::vector<int>{i}) { if (cp) want.l[q] = other.l[q]; else want.l[q].insert(want.l[q].end(), other.l[q].begin(), other.l[q].end()); }
        call = [&, i, j, two, mv, cp] { Target &O = *t[1 - w];
          if (mv) { if (cp) { if (two) T.Copy(std::move(O), {OPT[i], OPT[j]}); else T.Copy(std::move(O), {OPT[i]}); } else { if (two) T.Insert(std::move(O), {OPT[i], OPT[j]}); else T.Insert(std::move(O), {OPT[i]}); } }
          else { const Target &CO = O; if (cp) { if (two) T.Copy(CO, {OPT[i], OPT[j]}); else T.Copy(CO, {OPT[i]}); } else { if (two) T.Insert(CO, {OPT[i], OPT[j]}); else T.Insert(CO, {OPT[i]}); } } };
        if (mv) { bool th = vh::threw(call); log += " " + c; vh::check(!th && diff(get(T), want).empty(), "C15", [&] { return log + diff(get(T), want); }); m1 = get(T); m[1 - w] = get(*t[1 - w]); call = nullptr; }
        break; }
      case 22: props = "C15"; c = "Copy unknown option"; fatal = true; call = [&] { T.Copy(std::as_const(*t[1 - w]), {SyncOption(99)}); }; break;
      case 23: props = "C15"; c = "Insert unknown option"; fatal = true; call = [&] { T.Insert(std::as_const(*t[1 - w]), {SyncOption(99)}); }; break;
      case 24: { c = "GlobSources sub"; SV exp; for (auto &e : fs::directory_iterator(root / "sub")) if (issrc(e.path())) exp.push_back(norm(e.path())); for (auto &x : exp) want.l[SRC].push_back(x); call = [&] { if (R.p(50)) T.GlobSources("sub"); else T.GlobSourcesAbsolute(root / "sub"); }; break; }
      default: { c = "GlobHeaders"; for (auto &e : fs::directory_iterator(root)) if (ishdr(e.path())) want.l[HDR].push_back(norm(e.path())); call = [&] { if (R.p(50)) T.GlobHeaders(); else T.GlobHeadersAbsolute(root); }; break; }
      }
      if (!call) continue;
      log += " " + c;
      bool th = vh::threw(call);
      M g = get(T), go = get(*t[1 - w]);
      vh::check(th == fatal, props, [&] { return log + (th ? " threw" : " did not fail"); });
      vh::check(diff(g, want).empty(), props, [&] { return log + diff(g, want); });
      vh::check(diff(go, other).empty(), props == "C15" ? "C15" : "C16", [&] { return log + " changed the other target:" + diff(go, other); });
      m1 = g; m[1 - w] = go;
    }
    // ---- commands and paths
    Target &T = *t[0];
    M w = m[0];
    if (w.l[SRC].empty()) { vh::threw([&] { T.AddSource("b.cpp"); }); w = get(T); }
    for (auto &p : w.l[SRC]) vh::write(p, "x");
    for (int l : {HDR, PCH, CDEP, LDEP, LIB}) for (auto &p : w.l[l]) if (!fs::is_directory(p)) vh::write(p, "x");
    vh::execs().clear();
    vh::decide() = nullptr;
    env::set_task_state(env::TaskState::SUCCESS);
    std::string why = log + " Build";
    bool th = vh::threw([&] { T.Build(); });
    vh::check(!th, "C18", [&] { return why + " threw"; });
    if (!th) {
      fs::path d = bld / tc.GetName() / T.GetName();
      vh::check(T.GetTargetBuildDir() == d && T.GetTargetPath() == d / (T.GetName() + cf.target_ext) && T.GetBinaryPath() == d / (T.GetName() + ".bin") && T.GetPchHeaderPath() == d / ("buildcc_pch" + tcf.pch_header_ext) && T.GetPchCompilePath() == d / ("buildcc_pch" + tcf.pch_header_ext + tcf.pch_compile_ext), "C19", [&] { return why + " paths: " + T.GetTargetBuildDir().string() + " " + T.GetTargetPath().string() + " " + T.GetBinaryPath().string() + " " + T.GetPchHeaderPath().string() + " " + T.GetPchCompilePath().string(); });
      auto dirs = [&](const std::string &pre, const SV &v) { SV o; for (auto &x : v) o.push_back(pre + disp(x)); return join(o); };
      auto object = [&](const fs::path &s) { fs::path rel = s.lexically_relative(root); if (*rel.begin() == "..") { auto q = rel.string(); for (auto &c : q) if (c == '.') c = '_'; rel = q; } return d / rel.parent_path() / (s.filename().string() + tcf.obj_ext); };
      bool haspch = !w.l[PCH].empty();
      bool cpp = false;
      for (auto &s : w.l[SRC]) if (cls(s) == FileExt::Cpp) cpp = true;
      std::string E[] = {disp(sp + "as"), disp(sp + "gcc"), disp(sp + "g++"), disp(sp + "ar"), disp(sp + "ld")};
      std::string po = haspch ? disp(d / ("buildcc_pch" + tcf.obj_ext)) : "";
      std::set<std::string> objs;
      for (auto &s : w.l[SRC]) {
        auto c = cls(s);
        std::string comp = c == FileExt::C ? E[1] : c == FileExt::Cpp ? E[2] : E[0];
        SV &cfl = c == FileExt::C ? w.l[F_C] : c == FileExt::Cpp ? w.l[F_CPP] : w.l[F_ASM];
        std::string obj = disp(object(s));
        objs.insert(obj);
        std::string exp = "OBJ|" + comp + "|" + join(w.l[F_PRE]) + "|" + dirs(tcf.prefix_include_dir, w.l[INC]) + "|" + join(w.l[F_COM]) + "|" + (haspch ? join(w.l[F_PCHO]) : "") + "|" + join(cfl) + "|" + obj + "|" + disp(s) + "|" + po + "|" + dirs(tcf.prefix_lib_dir, w.l[LDIR]) + "|" + join(w.l[F_LINK]) + "|" + E[0] + "|" + E[1] + "|" + E[2] + "|" + E[3] + "|" + E[4] + "|" + (haspch ? join(w.l[F_PCHC]) : "");
        std::string got;
        bool t2 = vh::threw([&] { got = T.GetCompileCommand(s); });
        auto seg = [](const std::string &x, int n) { std::istringstream is(x); std::string o; for (int i = 0; i <= n; i++) std::getline(is, o, '|'); return o; };
        vh::check(!t2 && got == exp, "C18", [&] { return why + " compile command of " + s + ": " + got + " want " + exp; });
        vh::check(!t2 && seg(got, 1) == comp && seg(got, 6) == join(cfl), "C17", [&] { return why + " compiler or flags of " + s + ": " + got; });
        vh::check(!t2 && seg(got, 7) == obj, "C19", [&] { return why + " object of " + s + ": " + seg(got, 7) + " want " + obj; });
      }
      std::string got = T.GetLinkCommand();
      std::string pre = "LINK|" + E[4] + "|" + E[3] + "|" + join(w.l[F_LINK]) + "|" + disp(d / (T.GetName() + cf.target_ext)) + "|";
      SV lq; for (auto &x : w.l[LIB]) lq.push_back(disp(x));
      std::string post = "|" + dirs(tcf.prefix_lib_dir, w.l[LDIR]) + "|" + join(lq) + " " + join(w.l[EXTL]) + "|" + po;
      bool okl = got.size() >= pre.size() + post.size() && got.compare(0, pre.size(), pre) == 0 && got.compare(got.size() - post.size(), post.size(), post) == 0;
      if (okl) { // the objects, each once, in any order
        std::string mid = got.substr(pre.size(), got.size() - pre.size() - post.size());
        std::multiset<std::string> have; std::string cur; bool q = false;
        for (char ch : mid) { if (ch == '"') q = !q; if (ch == ' ' && !q) { have.insert(cur); cur.clear(); } else cur += ch; }
        if (!cur.empty()) have.insert(cur);
        okl = have == std::multiset<std::string>(objs.begin(), objs.end());
      }
      vh::check(okl, "C18", [&] { return why + " link command: " + got + " want " + pre + "<objects>" + post; });
      try { ex.run(T.GetTaskflow()).get(); } catch (...) {}
      for (auto &e : vh::execs()) if (e.cmd.rfind("PCH|", 0) == 0) {
        fs::path hp = d / ("buildcc_pch" + tcf.pch_header_ext), sp2 = hp; sp2.replace_extension(cpp ? ".cpp" : ".c");
        std::string exp = "PCH|" + (cpp ? E[2] : E[1]) + "|" + join(w.l[F_PRE]) + "|" + dirs(tcf.prefix_include_dir, w.l[INC]) + "|" + join(w.l[F_COM]) + "|" + join(w.l[F_PCHC]) + "|" + join(cpp ? w.l[F_CPP] : w.l[F_C]) + "|" + disp(d / ("buildcc_pch" + tcf.pch_header_ext + tcf.pch_compile_ext)) + "|" + disp(hp) + "|" + disp(sp2);
        vh::check(e.cmd == exp, "C18", [&] { return why + " PCH command: " + e.cmd + " want " + exp; });
      }
    }
    // two sources under the root never share an object
    if (h % 4 == 0) {
      std::unique_ptr<Target> q;
      vh::threw([&] { q = std::make_unique<Target>("Q", ty, tc, TargetEnv(root, bld), cf); });
      SV ss;
      const SV parts = {"a", "b.d", "b_d", "x..y", "a.c", "__"};
      std::set<std::string> used;
      for (int i = 0; i < 12; i++) { std::string p; for (int n = R(3); n > 0; n--) p += parts[R((int)parts.size())] + "/"; p += parts[R((int)parts.size())] + (R.p(50) ? ".c" : ".cpp"); used.insert(p); }
      bool t3 = vh::threw([&] { for (auto &u : used) if (issrc(u)) { q->AddSource(u); ss.push_back(u); } q->Build(); });
      std::map<std::string, std::string> seen;
      if (!t3) for (auto &u : ss) {
        std::string cmd; vh::threw([&] { cmd = q->GetCompileCommand(root / u); });
        std::istringstream is(cmd); std::string o; for (int i = 0; i <= 7; i++) std::getline(is, o, '|');
        vh::check(!seen.count(o), "C19", [&] { return log + " sources " + seen[o] + " and " + u + " share object " + o; });
        seen[o] = u;
      }
    }
    vh::threw([&] { Project::Deinit(); });
    vh::drop_scratch();
  }
  return vh::finish();
}
