// Instantiates the header-only templates of /repo so that their bodies appear
// (as the compiler sees them) in the exported AST.  Contains no logic.
#include "args/args.h"
#include "args/register.h"
#include "env/storage.h"
#include "env/util.h"
#include "target/target.h"
#include "target/template_generator.h"
#include "targets/target_custom.h"
#include "targets/target_gcc.h"
#include "targets/target_generic.h"
#include "targets/target_mingw.h"
#include "targets/target_msvc.h"
#include "plugins/clang_compile_commands.h"
#include "plugins/buildcc_find.h"

template class buildcc::internal::FlagApi<buildcc::TargetInfo>;
template class buildcc::internal::FlagApi<buildcc::Toolchain>;
template class buildcc::internal::SourceApi<buildcc::TargetInfo>;
template class buildcc::internal::IncludeApi<buildcc::TargetInfo>;
template class buildcc::internal::PchApi<buildcc::TargetInfo>;
template class buildcc::internal::DepsApi<buildcc::TargetInfo>;
template class buildcc::internal::TargetEnvApi<buildcc::TargetInfo>;
template class buildcc::TypedCustomBlobHandler<std::vector<std::string>>;

namespace cxxvc_inst {
struct ItemA { int a; };
struct ItemB { int b; };
struct ItemC { int c; explicit ItemC(int v); }; // its constructor may throw
inline void storage() {
  buildcc::ScopedStorage s;
  s.Add<ItemA>("a", ItemA{});
  s.Add<ItemC>("c", 1);
  s.ConstRef<ItemA>("a");
  s.Ref<ItemA>("a");
  s.Valid<ItemA>("a");
  s.ConstRef<ItemB>("b");
  s.Valid<ItemB>("b");
  buildcc::Storage::Add<ItemA>("a", ItemA{});
  buildcc::Storage::ConstRef<ItemA>("a");
  buildcc::Storage::Ref<ItemA>("a");
  buildcc::Storage::Valid<ItemA>("a");
  buildcc::Storage::Contains("a");
  buildcc::Storage::Clear();
}
inline void reg(buildcc::BaseTarget &t, buildcc::FileGenerator &g) {
  std::function<void(buildcc::BaseTarget &)> tcb;
  std::function<void(buildcc::FileGenerator &)> gcb;
  std::function<void()> fcb;
  buildcc::Reg::Call(true).Func(fcb).Build(tcb, t).Build(gcb, g);
  buildcc::Reg::Toolchain(buildcc::ArgToolchainState()).Func(fcb).Build(tcb, t).Build(gcb, g);
}
inline void agg(const std::vector<std::string> &v, const std::vector<fs::path> &p) {
  buildcc::internal::aggregate(v);
  buildcc::internal::aggregate(p);
  buildcc::internal::aggregate_with_prefix(std::string(), v);
}
// the specialised targets as a user makes them: with their default configuration
template <typename T> struct Made : T {
  Made(const std::string &name, const buildcc::BaseToolchain &toolchain, const buildcc::TargetEnv &env) : T(name, toolchain, env) {}
};
template struct Made<buildcc::ExecutableTarget_gcc>;
template struct Made<buildcc::StaticTarget_gcc>;
template struct Made<buildcc::DynamicTarget_gcc>;
template struct Made<buildcc::ExecutableTarget_mingw>;
template struct Made<buildcc::DynamicTarget_mingw>;
template struct Made<buildcc::ExecutableTarget_msvc>;
template struct Made<buildcc::StaticTarget_msvc>;
template struct Made<buildcc::DynamicTarget_msvc>;
template struct Made<buildcc::ExecutableTarget_generic>;
template struct Made<buildcc::StaticTarget_generic>;
template struct Made<buildcc::DynamicTarget_generic>;
} // namespace cxxvc_inst
