// Toolchain search, generic toolchains, specialised targets and compile_commands.json against plain models.
#include "taskflow/taskflow.hpp"
#include "taskflow/algorithm/for_each.hpp"
#include "common.hpp"
#include "env/env.h"
#include "env/storage.h"
#include "plugins/clang_compile_commands.h"
#include "target/target.h"
#include "targets/target_generic.h"
#include "toolchains/toolchain_generic.h"
using namespace buildcc;
using SV = std::vector<std::string>;
using Json = nlohmann::json;

static std::string q(const std::string &s) { return s.find(' ') == std::string::npos ? s : "\"" + s + "\""; }
static SV plus(SV a, const SV &b) { a.insert(a.end(), b.begin(), b.end()); return a; }
static std::string show(const SV &v) { std::string s; for (auto &x : v) s += "[" + x + "]"; return s; }

struct Cfg { std::string ext, pch, obj, link; };
static Cfg want_cfg(ToolchainId id, int kind) {
  const std::string gp = "{compiler} {preprocessor_flags} {include_dirs} {common_compile_flags} {pch_compile_flags} {compile_flags} -o {output} -c {input}";
  const std::string go = "{compiler} {preprocessor_flags} {include_dirs} {common_compile_flags} {pch_object_flags} {compile_flags} -o {output} -c {input}";
  const std::string ge = "{cpp_compiler} {link_flags} {compiled_sources} -o {output} {lib_dirs} {lib_deps}", gl = "{archiver} rcs {output} {compiled_sources}", gd = "{cpp_compiler} -shared {link_flags} {compiled_sources} -o {output}";
  const std::string vp = "{compiler} {preprocessor_flags} {include_dirs} {common_compile_flags} /Yc{input} /FI{input} /Fp{output} {pch_compile_flags} {compile_flags} /Fo{pch_object_output} /c {input_source}";
  const std::string vo = "{compiler} {preprocessor_flags} {include_dirs} {common_compile_flags} {pch_object_flags} {compile_flags} /Fo{output} /c {input}";
  if (id == ToolchainId::Gcc) return kind == 0 ? Cfg{"", gp, go, ge} : kind == 1 ? Cfg{".a", gp, go, gl} : Cfg{".so", gp, go, gd};
  if (id == ToolchainId::MinGW) return kind == 0 ? Cfg{".exe", gp, go, ge} : kind == 1 ? Cfg{".a", gp, go, gl} : Cfg{".dll", gp, go, gd + " -Wl,--out-implib,{output}.a"};
  return kind == 0   ? Cfg{".exe", vp, vo, "{linker} {link_flags} {lib_dirs} /OUT:{output} {lib_deps} {compiled_sources} {pch_object_output}"}
         : kind == 1 ? Cfg{".lib", vp, vo, "{archiver} {link_flags} /OUT:{output} {compiled_sources} {pch_object_output}"}
                     : Cfg{".lib", vp, vo, "{linker} /DLL {link_flags} /OUT:{output}.dll /IMPLIB:{output} {compiled_sources} {pch_object_output}"};
}

static void check_target(BaseTarget &t, Toolchain &tc, ToolchainId id, int kind, const TargetConfig *own, const std::string &why) {
  Cfg w = want_cfg(id, kind);
  if (own) w = Cfg{own->target_ext, own->pch_command, own->compile_command, own->link_command};
  const auto &g = t.GetConfig();
  vh::check((int)t.GetType() == kind, "C29", [&] { return why + " wrong type"; });
  vh::check(g.target_ext == w.ext && g.pch_command == w.pch && g.compile_command == w.obj && g.link_command == w.link, "C29", [&] { return why + " configuration: ext=" + g.target_ext + " pch=" + g.pch_command + " compile=" + g.compile_command + " link=" + g.link_command; });
  SV common, pco, cc, cxx, link;
  std::string hp = q(t.GetPchHeaderPath().string()), cp = q(t.GetPchCompilePath().string());
  if (id == ToolchainId::Msvc) {
    cc = {"/nologo"}; cxx = {"/nologo", "/EHsc"}; link = {"/nologo"};
    pco = {"/Yu" + hp, "/FI" + hp, "/Fp" + cp};
  } else {
    pco = {"-include " + q(fs::path(t.GetPchCompilePath()).replace_extension("").string()), "-H"};
    if (kind == 2) common = {"-fpic"};
  }
  auto one = [&](const char *n, const SV &got, const SV &base, const SV &extra) {
    vh::check(got == plus(base, extra), "C29", [&] { return why + " " + n + ": " + show(got) + " expected " + show(plus(base, extra)); });
  };
  one("preprocessor flags", t.GetPreprocessorFlags(), tc.GetPreprocessorFlags(), {});
  one("common compile flags", t.GetCommonCompileFlags(), tc.GetCommonCompileFlags(), common);
  one("pch compile flags", t.GetPchCompileFlags(), tc.GetPchCompileFlags(), {});
  one("pch object flags", t.GetPchObjectFlags(), tc.GetPchObjectFlags(), pco);
  one("asm flags", t.GetAsmCompileFlags(), tc.GetAsmCompileFlags(), {});
  one("c flags", t.GetCCompileFlags(), tc.GetCCompileFlags(), cc);
  one("c++ flags", t.GetCppCompileFlags(), tc.GetCppCompileFlags(), cxx);
  one("link flags", t.GetLinkFlags(), tc.GetLinkFlags(), link);
}

int main(int argc, char **argv) {
  unsigned seed = vh::seed_arg(argc, argv);
  int iters = vh::iters_arg(argc, argv, 100);
  spdlog::set_level(spdlog::level::off);
  vh::make_scratch();
  fs::current_path(vh::scratch());
  tf::Executor ex(2);
  for (int h = 0; h < iters; h++) {
    vh::Rng R(seed * 7919u + h);
    const fs::path top = vh::scratch() / ("t" + std::to_string(h));
    fs::create_directories(top);
    std::string log = "seed=" + std::to_string(seed) + " iteration=" + std::to_string(h) + ":";
    vh::execs().clear(); vh::decide() = nullptr; vh::output() = nullptr;
    env::set_task_state(env::TaskState::SUCCESS);
    Storage::Clear();
    // ---------------------------------------------------------------- C24
    {
      SV names = {"as", "gcc", "g++", "ar", "ld"};
      if (R.p(30)) names = {"cl", "cl", "cl", "lib", "link"};
      if (R.p(10)) names[R(5)] = "x.y";
      ToolchainExecutables exes(names[0], names[1], names[2], names[3], names[4]);
      std::vector<fs::path> dirs;
      std::map<std::string, bool> good;
      for (int i = 0, n = 1 + R(5); i < n; i++) {
        fs::path d = top / ("d" + std::string(R.p(20) ? " " : "") + std::to_string(i));
        dirs.push_back(d);
        bool all = false;
        switch (R(6)) {
        case 0: break;                                                              // does not exist
        case 1: vh::write(d, "x"); break;                                           // a file
        case 2: fs::create_symlink(d, d); break;                                    // cannot be inspected
        default: {
          fs::create_directories(d);
          std::set<std::string> left(names.begin(), names.end());
          int miss = R.p(40) ? R(5) : -1;
          for (int k = 0; k < 5; k++) {
            std::string ext = R.p(40) ? (R.p(50) ? ".exe" : ".1") : "", f = names[k] + ext;
            if (names[k].find('.') != std::string::npos && ext.empty()) f = names[k] + ".exe";
            if (k == miss) {
              switch (R(4)) {
              case 0: break;
              case 1: { std::error_code ec; fs::create_directories(d / f, ec); break; }
              case 2: vh::write(d / (names[k] + "-9"), ""); break;
              default: if (!fs::exists(d / f)) { std::error_code ec; fs::create_symlink("nowhere", d / f, ec); } break;
              }
            } else if (R.p(15)) { vh::write(d / "real" / f, ""); std::error_code ec; if (!fs::exists(d / f)) fs::create_symlink(d / "real" / f, d / f, ec); }
            else if (!fs::is_directory(d / f)) vh::write(d / f, "");
          }
          for (auto &e : fs::directory_iterator(d)) { std::error_code ec; if (fs::is_regular_file(e.path(), ec)) left.erase(e.path().stem().string()); }
          all = left.empty();
        }
        }
        good[d.string()] = all;
      }
      std::vector<fs::path> order, abs;
      SV vars;
      for (auto &d : dirs) if (R.p(50)) abs.push_back(d);
      order = abs;
      bool missing = false;
      for (int v = 0, n = R(3); v < n; v++) {
        std::string name = "VH_PATH_" + std::to_string(v), val;
        vars.push_back(name);
        if (R.p(10)) { unsetenv(name.c_str()); missing = true; continue; }
        for (auto &d : dirs) if (R.p(50)) { val += (val.empty() ? "" : ":") + d.string(); order.push_back(d); }
        setenv(name.c_str(), val.c_str(), 1);
      }
      std::vector<fs::path> want, got;
      for (auto &d : order) if (good[d.string()]) want.push_back(d);
      ToolchainFindConfig fc(vars, abs);
      Toolchain tc(ToolchainId::Custom, "c", exes);
      bool th = vh::threw([&] { got = tc.Find(fc); });
      std::string why = log + " find over " + std::to_string(order.size()) + " directories";
      vh::check(th == missing, "C24", [&] { return why + (th ? " threw" : " accepted a missing variable"); });
      if (!th) vh::check(got == want, "C24", [&] { std::string s = why + " returned"; for (auto &p : got) s += " " + p.string(); s += " expected"; for (auto &p : want) s += " " + p.string(); return s; });
      bool has = R.p(85), know = R.p(75);
      int asked = 0;
      ToolchainExecutables seen("", "", "", "", "");
      if (has) tc.SetToolchainInfoCb([&](const ToolchainExecutables &e) -> env::optional<ToolchainCompilerInfo> {
        asked++; seen = e;
        if (!know) return {};
        ToolchainCompilerInfo i; i.compiler_version = "11"; i.target_arch = "arch"; return i;
      });
      ToolchainCompilerInfo info;
      th = vh::threw([&] { info = tc.Verify(fc); });
      bool ok = !missing && !want.empty() && has && know;
      vh::check(th != ok, "C24", [&] { return why + (ok ? " verify failed" : " verify succeeded"); });
      SV now = {tc.GetAssembler(), tc.GetCCompiler(), tc.GetCppCompiler(), tc.GetArchiver(), tc.GetLinker()}, exp = names;
      if (!missing && !want.empty()) {
        SV in;
        for (auto &n : names) in.push_back((want[0] / n).string());
        if (ok) exp = in;
        if (asked) vh::check(SV{seen.assembler, seen.c_compiler, seen.cpp_compiler, seen.archiver, seen.linker} == in, "C24", [&] { return why + " the info callback was asked about other executables"; });
        if (ok) vh::check(info.path == want[0] && info.compiler_version == "11" && info.target_arch == "arch" && asked == 1, "C24", [&] { return why + " verify returned other information"; });
      }
      vh::check(now == exp && tc.GetId() == ToolchainId::Custom && tc.GetName() == "c", "C24", [&] { return why + " toolchain after verify: " + show(now) + " expected " + show(exp); });
    }
    // ---------------------------------------------------------------- C28
    {
      std::set<std::string> taken;
      for (int k = 0, n = 1 + R(6); k < n; k++) {
        int i = R(7);
        ToolchainId id = i < 6 ? (ToolchainId)i : (ToolchainId)42;
        std::string name = "tc" + std::to_string(R(4));
        env::optional<ToolchainExecutables> ox;
        if (R.p(50)) ox = ToolchainExecutables("a1", "c 1", "x1", "r1", "l1");
        Toolchain *t = nullptr;
        bool th = vh::threw([&] { t = &Toolchain_generic::New(id, name, ox); });
        bool deflt = id == ToolchainId::Gcc || id == ToolchainId::MinGW || id == ToolchainId::Msvc;
        bool ok = !taken.count(name) && (deflt || ((id == ToolchainId::Clang || id == ToolchainId::Custom) && ox.has_value()));
        std::string why = log + " New(id " + std::to_string((int)id) + ", " + name + (ox ? ", executables" : "") + ")";
        vh::check(th != ok, "C28", [&] { return why + (ok ? " failed" : " was accepted"); });
        if (th || !t) continue;
        taken.insert(name);
        SV e = {t->GetAssembler(), t->GetCCompiler(), t->GetCppCompiler(), t->GetArchiver(), t->GetLinker()};
        SV w = ox ? SV{"a1", "c 1", "x1", "r1", "l1"} : id == ToolchainId::Msvc ? SV{"cl", "cl", "cl", "lib", "link"} : SV{"as", "gcc", "g++", "ar", "ld"};
        vh::check(t->GetId() == id && t->GetName() == name && e == w, "C28", [&] { return why + " has id " + std::to_string((int)t->GetId()) + " name " + t->GetName() + " executables " + show(e); });
        vh::check(vh::threw([&] { Storage::Ref<BaseTarget>(name); }), "C28", [&] { return why + " stored under another type"; });
        ToolchainConfig d;
        const auto &g = t->GetConfig();
        SV c = {g.obj_ext, g.pch_header_ext, g.pch_compile_ext, g.prefix_include_dir, g.prefix_lib_dir}, wc = {".o", ".h", ".gch", "-I", "-L"};
        if (id == ToolchainId::Msvc) wc = {".obj", ".h", ".pch", "/I", "/LIBPATH:"};
        if (id == ToolchainId::Custom) wc = {d.obj_ext, d.pch_header_ext, d.pch_compile_ext, d.prefix_include_dir, d.prefix_lib_dir};
        vh::check(c == wc && g.valid_c_ext == d.valid_c_ext && g.valid_cpp_ext == d.valid_cpp_ext && g.valid_asm_ext == d.valid_asm_ext && g.valid_header_ext == d.valid_header_ext, "C28", [&] { return why + " configuration " + show(c) + " expected " + show(wc); });
        // the information callback
        int f = R(6);
        vh::decide() = [&](const std::string &x) { return !(f == 1 && x.find("-dumpversion") != std::string::npos) && !(f == 2 && x.find("-dumpmachine") != std::string::npos); };
        vh::output() = [&](const std::string &x, SV *so, SV *) {
          if (!so || (f == 3 && x.find("-dumpversion") != std::string::npos) || (f == 4 && x.find("-dumpmachine") != std::string::npos)) return;
          so->push_back(x + "!"); so->push_back("more");
        };
        vh::execs().clear();
        bool v0 = R.p(80), v1 = R.p(80), v2 = R.p(80);
        auto put = [](const char *n, bool on, const char *v) { if (on) setenv(n, v, 1); else unsetenv(n); };
        put("VSCMD_VER", v0, "17.1"); put("VSCMD_ARG_HOST_ARCH", v1, "x64"); put("VSCMD_ARG_TGT_ARCH", v2, "arm");
        env::optional<ToolchainCompilerInfo> r;
        bool tcb = vh::threw([&] { r = t->GetToolchainInfoCb()(ToolchainExecutables("", "no", "q++", "", "")); });
        bool gcc = id == ToolchainId::Gcc || id == ToolchainId::MinGW || id == ToolchainId::Clang, wok = gcc ? (f == 0 || f == 5) : id == ToolchainId::Msvc ? v0 && v1 && v2 : false;
        std::string wv = gcc ? "q++ -dumpversion!" : "17.1", wa = gcc ? "q++ -dumpmachine!" : "x64_arm";
        vh::check(!tcb && r.has_value() == wok && (!wok || (r->compiler_version == wv && r->target_arch == wa)), "C28", [&] { return why + " info callback (case " + std::to_string(f) + "): " + (r ? r->compiler_version + " / " + r->target_arch : std::string("nothing")); });
        for (auto &x : vh::execs()) vh::check(gcc && (x.cmd == "q++ -dumpversion" || x.cmd == "q++ -dumpmachine"), "C28", [&] { return why + " info callback ran " + x.cmd; });
        vh::decide() = nullptr; vh::output() = nullptr;
      }
    }
    // ---------------------------------------------------------------- C29
    vh::threw([&] { Project::Deinit(); Project::Init(top, top / (R.p(30) ? "b ld" : "bld")); });
    spdlog::set_level(spdlog::level::off);
    const TargetEnv te(top, Project::GetBuildDir());
    {
      int i = R(7);
      ToolchainId id = i < 6 ? (ToolchainId)i : (ToolchainId)42;
      Toolchain tc(id, "tc" + std::to_string(h), ToolchainExecutables("as", "gcc", "g++", "ar", "ld"));
      if (R.p(70)) { tc.AddCommonCompileFlag("-own"); tc.AddPchObjectFlag("-po"); tc.AddLinkFlag("-l1"); tc.AddLinkFlag("-l2"); tc.AddPreprocessorFlag("-D"); tc.AddAsmCompileFlag("-s"); tc.AddCCompileFlag("-c1"); tc.AddCppCompileFlag("-x1"); tc.AddPchCompileFlag("-p"); }
      TargetConfig own;
      own.target_ext = ".own"; own.link_command = "L";
      bool use = R.p(40), sup = id == ToolchainId::Gcc || id == ToolchainId::Msvc || id == ToolchainId::MinGW;
      env::optional<TargetConfig> oc;
      if (use) oc = own;
      int kind = R(4);
      std::unique_ptr<BaseTarget> t;
      std::string why = log + " Target_generic(type " + std::to_string(kind) + ", id " + std::to_string((int)id) + (use ? ", own configuration)" : ")");
      bool th = vh::threw([&] { t = std::make_unique<Target_generic>("g", (TargetType)kind, tc, te, oc); });
      vh::check(th != (sup && kind < 3), "C29", [&] { return why + (th ? " failed" : " was accepted"); });
      if (!th) check_target(*t, tc, id, kind, use ? &own : nullptr, why);
      kind = R(3);
      why = log + " generic class (kind " + std::to_string(kind) + ", id " + std::to_string((int)id) + (use ? ", own configuration)" : ")");
      th = vh::threw([&] {
        if (kind == 0) t = std::make_unique<ExecutableTarget_generic>("e", tc, te, oc);
        else if (kind == 1) t = std::make_unique<StaticTarget_generic>("s", tc, te, oc);
        else t = std::make_unique<DynamicTarget_generic>("d", tc, te, oc);
      });
      vh::check(th != sup, "C29", [&] { return why + (th ? " failed" : " was accepted"); });
      if (!th) check_target(*t, tc, id, kind, use ? &own : nullptr, why);
      // the family classes work with any toolchain
      int fam = R(3);
      ToolchainId fid = fam == 0 ? ToolchainId::Gcc : fam == 1 ? ToolchainId::MinGW : ToolchainId::Msvc;
      why = log + " class of family " + std::to_string(fam) + " kind " + std::to_string(kind);
      th = vh::threw([&] {
        if (fam == 0 && kind == 0) t = std::make_unique<ExecutableTarget_gcc>("f", tc, te);
        else if (fam == 0 && kind == 1) t = std::make_unique<StaticTarget_gcc>("f", tc, te);
        else if (fam == 0) t = std::make_unique<DynamicTarget_gcc>("f", tc, te);
        else if (fam == 1 && kind == 0) t = std::make_unique<ExecutableTarget_mingw>("f", tc, te);
        else if (fam == 1 && kind == 1) t = std::make_unique<StaticTarget_mingw>("f", tc, te);
        else if (fam == 1) t = std::make_unique<DynamicTarget_mingw>("f", tc, te);
        else if (kind == 0) t = std::make_unique<ExecutableTarget_msvc>("f", tc, te);
        else if (kind == 1) t = std::make_unique<StaticTarget_msvc>("f", tc, te);
        else t = std::make_unique<DynamicTarget_msvc>("f", tc, te);
      });
      vh::check(!th, "C29", [&] { return why + " failed"; });
      if (!th) check_target(*t, tc, fid, kind, nullptr, why);
    }
    // ---------------------------------------------------------------- C27
    {
      Toolchain tc(ToolchainId::Gcc, "gcc", ToolchainExecutables("as", "gcc", "g++", "ar", "ld"));
      TargetConfig cf;
      cf.compile_command = "{compiler} \"-D\\\\{compile_flags}\" -o {output} -c {input}";
      cf.link_command = "L {output}";
      const char *SRC[] = {"a.cpp", "b c.cpp", "q\"uote.cpp", "back\\slash.c", "tab\t.cpp", "d/e.cpp", "\xc3\xa9.cpp"};
      std::vector<std::unique_ptr<BaseTarget>> ts;
      std::vector<SV> srcs;
      plugin::ClangCompileCommands ccc({});
      bool any = false;
      std::vector<std::array<std::string, 3>> want;
      int n = R(4), only = R.p(60) ? R(4) : -1;
      for (int k = 0; k < n; k++) {
        ts.push_back(std::make_unique<BaseTarget>("T" + std::to_string(k), TargetType::Executable, tc, TargetEnv(top, Project::GetBuildDir()), cf));
        auto &t = *ts.back();
        t.AddCppCompileFlag(R.p(50) ? "-x" : "\"q\"");
        std::set<std::string> used;
        for (int s = 0, m = 1 + R(4); s < m; s++) {
          std::string f = SRC[R(7)];
          if (!used.insert(f).second) continue;
          vh::write(top / f, "//");
          t.AddSourceAbsolute(top / f);
        }
        vh::threw([&] { t.Build(); });
        bool run = only < 0 || only == k;
        vh::output() = [&](const std::string &, SV *, SV *) {};
        vh::decide() = [&](const std::string &c) { auto p = c.find("-o "); if (p != std::string::npos) {} return true; };
        if (run) {
          std::set<std::string> before;
          try { ex.run(t.GetTaskflow()).get(); } catch (...) {}
          any = any || t.IsBuilt();
          vh::check(t.IsBuilt(), "C27", [&] { return log + " the target did not build"; });
        }
        ccc.AddTarget(&t);
        for (auto &f : t.GetSourceFiles()) want.push_back({path_as_string(Project::GetBuildDir()), t.GetCompileCommand(f), f});
      }
      vh::check(vh::threw([&] { ccc.AddTarget(nullptr); }), "C27", [&] { return log + " AddTarget(nullptr) accepted"; });
      fs::path out = Project::GetBuildDir() / "compile_commands.json";
      fs::create_directories(Project::GetBuildDir());
      bool old = R.p(50), blocked = R.p(10);
      if (blocked) { fs::create_directories(out / "x"); old = false; } else if (old) vh::write(out, "OLD");
      bool th = vh::threw([&] { ccc.Generate(); });
      std::string why = log + " Generate() with " + std::to_string(n) + " targets, " + (any ? "some built" : "none built");
      vh::check(th == (any && blocked), "C27", [&] { return why + (th ? " failed" : " hid a failed write"); });
      if (!blocked && !any) vh::check(old ? vh::slurp(out) == "OLD" : !fs::exists(out), "C27", [&] { return why + " touched the file"; });
      if (!blocked && any) {
        std::string text = vh::slurp(out);
        Json j = Json::parse(text, nullptr, false);
        bool ok = !j.is_discarded() && j.is_array() && j.size() == want.size();
        for (size_t k = 0; ok && k < want.size(); k++)
          ok = j[k].is_object() && j[k].size() == 3 && j[k].value("directory", "?") == want[k][0] && j[k].value("command", "?") == want[k][1] && j[k].value("file", "?") == want[k][2];
        vh::check(ok, "C27", [&] { return why + " wrote " + text.substr(0, 600); });
      }
      vh::decide() = nullptr; vh::output() = nullptr;
    }
    fs::remove_all(top);
  }
  vh::threw([&] { Project::Deinit(); });
  Storage::Clear();
  vh::drop_scratch();
  return vh::finish();
}
