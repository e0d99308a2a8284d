From eb813ecd2db1a0f269a9466e2732711a22eeff8d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:27:23 +0000
Subject: [PATCH 01/13] fix: recompile sources when the set of precompiled
 headers changes

A source compiled against a precompiled header was skipped when all
precompiled headers were removed from the target: the PCH stage is not run
then, and BuildObjectCompile did not compare the list.
---
 buildcc/lib/target/src/target/friend/compile_object.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/buildcc/lib/target/src/target/friend/compile_object.cpp b/buildcc/lib/target/src/target/friend/compile_object.cpp
index f905426..eee36a0 100644
--- a/buildcc/lib/target/src/target/friend/compile_object.cpp
+++ b/buildcc/lib/target/src/target/friend/compile_object.cpp
@@ -194,7 +194,8 @@ void CompileObject::BuildObjectCompile(
                  user_target_schema.include_dirs)) {
       target_.dirty_ = true;
       target_.DirChanged();
-    } else if (!(load_target_schema.headers == user_target_schema.headers)) {
+    } else if (!(load_target_schema.headers == user_target_schema.headers) ||
+               !(load_target_schema.pchs == user_target_schema.pchs)) {
       target_.dirty_ = true;
       target_.PathChanged();
     } else if (!(load_target_schema.compile_dependencies ==
-- 
2.43.0


From 3422d9251f5cadccafbd6340a641d13595e4b035 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:28:11 +0000
Subject: [PATCH 02/13] fix: write the companion PCH source to its path, not to
 its quoted display form

With a space in the build directory the formatted path carries quotes, so the
source could not be written and the precompiled header failed to build.
---
 buildcc/lib/target/src/target/friend/compile_pch.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/buildcc/lib/target/src/target/friend/compile_pch.cpp b/buildcc/lib/target/src/target/friend/compile_pch.cpp
index be3b514..69c2077 100644
--- a/buildcc/lib/target/src/target/friend/compile_pch.cpp
+++ b/buildcc/lib/target/src/target/friend/compile_pch.cpp
@@ -110,7 +110,7 @@ void CompilePch::BuildCompile() {
   if (target_.dirty_) {
     AggregateToFile(header_path_, target_.GetPchFiles());
     if (!fs::exists(source_path_)) {
-      const std::string p = fmt::format("{}", source_path_);
+      const std::string p = path_as_string(source_path_);
       const bool save =
           env::save_file(p.c_str(), {"//Generated by BuildCC"}, false);
       env::assert_fatal(save, fmt::format("Could not save {}", p));
-- 
2.43.0


From fabe933bb92a2f7ff80c583f8f330e1a3c7c14e4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:45:06 +0000
Subject: [PATCH 03/13] fix: save_file reports failure when buffered data
 cannot be written

---
 buildcc/lib/env/include/env/util.h | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/buildcc/lib/env/include/env/util.h b/buildcc/lib/env/include/env/util.h
index 45a7144..e291f46 100644
--- a/buildcc/lib/env/include/env/util.h
+++ b/buildcc/lib/env/include/env/util.h
@@ -58,8 +58,10 @@ inline bool save_file(const char *name, const char *buf, size_t len,
   }
 
   // * 1
-  std::ostream &os = ofs.write(buf, len);
-  return !os.bad();
+  ofs.write(buf, len);
+  // Buffered data reaches the file (and can fail to) only here
+  ofs.close();
+  return !ofs.fail();
 }
 
 inline bool save_file(const char *name, const std::string &buf, bool binary) {
-- 
2.43.0


From 9055da90f239c1e95c16dee01b4be27c02ef3d03 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:45:06 +0000
Subject: [PATCH 04/13] fix: reject a duplicate storage identifier instead of
 leaking the new object

---
 buildcc/lib/env/include/env/storage.h | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/buildcc/lib/env/include/env/storage.h b/buildcc/lib/env/include/env/storage.h
index b5407df..5cb598b 100644
--- a/buildcc/lib/env/include/env/storage.h
+++ b/buildcc/lib/env/include/env/storage.h
@@ -38,6 +38,8 @@ public:
 
   template <typename T, typename... Params>
   T &Add(const std::string &identifier, Params &&...params) {
+    env::assert_fatal(!Contains(identifier),
+                      fmt::format("Duplicate identifier '{}'", identifier));
     T *ptr = new T(std::forward<Params>(params)...);
     env::assert_fatal(ptr != nullptr, "System out of memory");
 
-- 
2.43.0


From 94fcee3b113d8987cdd6d5fee610a39e99b224a1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:52:58 +0000
Subject: [PATCH 05/13] fix: a failed reload of a record reports not loaded

---
 .../schema/include/schema/interface/serialization_interface.h    | 1 +
 1 file changed, 1 insertion(+)

diff --git a/buildcc/schema/include/schema/interface/serialization_interface.h b/buildcc/schema/include/schema/interface/serialization_interface.h
index c09bdde..c6c34ad 100644
--- a/buildcc/schema/include/schema/interface/serialization_interface.h
+++ b/buildcc/schema/include/schema/interface/serialization_interface.h
@@ -36,6 +36,7 @@ public:
 
   bool LoadFromFile() {
     std::string buffer;
+    loaded_ = false;
 
     // Read from serialized file
     bool is_loaded =
-- 
2.43.0


From 5566fec01d60e3cb9b8429204b2ab6e683b32195 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:05:46 +0000
Subject: [PATCH 06/13] fix: record generator inputs as they were before the
 callback ran

---
 buildcc/lib/target/include/target/custom_generator.h | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/buildcc/lib/target/include/target/custom_generator.h b/buildcc/lib/target/include/target/custom_generator.h
index a9dec03..6f51ef9 100644
--- a/buildcc/lib/target/include/target/custom_generator.h
+++ b/buildcc/lib/target/include/target/custom_generator.h
@@ -50,8 +50,9 @@ struct UserCustomGeneratorSchema : public internal::CustomGeneratorSchema {
   };
 
   void ConvertToInternal() {
-    for (auto &[id_key, id_info] : ids) {
-      id_info.ConvertToInternal();
+    // NOTE, Every id has been converted before its generate_cb was invoked
+    // Inputs changed afterwards must be detected during the next build
+    for (const auto &[id_key, id_info] : ids) {
       auto [_, success] = internal_ids.try_emplace(id_key, id_info);
       env::assert_fatal(success, fmt::format("Could not save {}", id_key));
     }
-- 
2.43.0


From 80cdf71457262859ee0671357ac313f21061e934 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:53:03 +0000
Subject: [PATCH 07/13] fix: quote sources, libraries and directories with
 spaces in commands

---
 buildcc/lib/target/include/target/common/util.h         | 3 ++-
 buildcc/lib/target/src/target/friend/compile_object.cpp | 3 ++-
 buildcc/lib/target/src/target/friend/link_target.cpp    | 5 +++--
 3 files changed, 7 insertions(+), 4 deletions(-)

diff --git a/buildcc/lib/target/include/target/common/util.h b/buildcc/lib/target/include/target/common/util.h
index 30191e8..8393ff6 100644
--- a/buildcc/lib/target/include/target/common/util.h
+++ b/buildcc/lib/target/include/target/common/util.h
@@ -33,7 +33,8 @@ template <typename T>
 std::string aggregate_with_prefix(const std::string &prefix, const T &list) {
   std::vector<std::string> agg_list;
   for (const auto &l : list) {
-    auto formatted_output = fmt::format("{}{}", prefix, l);
+    auto formatted_output =
+        fmt::format("{}{}", prefix, PathInfo::ToPathDisplayString(l));
     agg_list.emplace_back(std::move(formatted_output));
   }
   return aggregate(agg_list);
diff --git a/buildcc/lib/target/src/target/friend/compile_object.cpp b/buildcc/lib/target/src/target/friend/compile_object.cpp
index eee36a0..f33c4bc 100644
--- a/buildcc/lib/target/src/target/friend/compile_object.cpp
+++ b/buildcc/lib/target/src/target/friend/compile_object.cpp
@@ -44,7 +44,8 @@ void CompileObject::CacheCompileCommands() {
 
     const std::string output =
         fmt::format("{}", GetObjectData(absolute_current_source).output);
-    const std::string input = fmt::format("{}", absolute_current_source);
+    const std::string input =
+        fmt::format("{}", fs::path(absolute_current_source));
 
     const auto type =
         target_.toolchain_.GetConfig().GetFileExt(absolute_current_source);
diff --git a/buildcc/lib/target/src/target/friend/link_target.cpp b/buildcc/lib/target/src/target/friend/link_target.cpp
index fb5219a..98ed0e9 100644
--- a/buildcc/lib/target/src/target/friend/link_target.cpp
+++ b/buildcc/lib/target/src/target/friend/link_target.cpp
@@ -35,14 +35,15 @@ void LinkTarget::CacheLinkCommand() {
 
   const std::string output_target = fmt::format("{}", output_);
   const auto &target_user_schema = target_.user_;
+  const auto &lib_paths = target_user_schema.libs.GetPaths();
+  const std::vector<fs::path> libs(lib_paths.begin(), lib_paths.end());
   command_ = target_.command_.Construct(
       target_.GetConfig().link_command,
       {
           {kOutput, output_target},
           {kCompiledSources, aggregated_compiled_sources},
           {kLibDeps,
-           fmt::format("{} {}",
-                       internal::aggregate(target_user_schema.libs.GetPaths()),
+           fmt::format("{} {}", internal::aggregate(libs),
                        internal::aggregate(target_user_schema.external_libs))},
       });
 }
-- 
2.43.0


From 7d6f9c02200bcccdd651021a3eee1d446705629d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:54:44 +0000
Subject: [PATCH 08/13] fix: only sources outside the target root get the
 out-of-root object path

---
 buildcc/lib/target/src/target/friend/compile_object.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/buildcc/lib/target/src/target/friend/compile_object.cpp b/buildcc/lib/target/src/target/friend/compile_object.cpp
index f33c4bc..ddeef8d 100644
--- a/buildcc/lib/target/src/target/friend/compile_object.cpp
+++ b/buildcc/lib/target/src/target/friend/compile_object.cpp
@@ -124,7 +124,7 @@ CompileObject::ConstructObjectPath(const fs::path &absolute_source_file) const {
   // - Convert .. to __
   // NOTE, Similar to how CMake handles out of root files
   std::string relstr = relative.string();
-  if (relstr.find("..") != std::string::npos) {
+  if (!relative.empty() && *relative.begin() == "..") {
     env::log_warning(
         __FUNCTION__,
         fmt::format("Out of Root Source detected '{}' -> '{}'. Use "
-- 
2.43.0


From 9e4eb0775c51eaafedaf7d8038873f7f38bcaada Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:30:37 +0000
Subject: [PATCH 09/13] fix: reject a builder depending on itself

---
 buildcc/lib/args/src/register.cpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/buildcc/lib/args/src/register.cpp b/buildcc/lib/args/src/register.cpp
index e141541..5167471 100644
--- a/buildcc/lib/args/src/register.cpp
+++ b/buildcc/lib/args/src/register.cpp
@@ -45,6 +45,10 @@ void DepDetectDuplicate(const tf::Task &target_task, const std::string &match) {
 
 void DepDetectCyclicDependency(const tf::Task &target_task,
                                const std::string &match) {
+  buildcc::env::assert_fatal(
+      !(target_task.name() == match),
+      fmt::format("Cyclic dependency detected when adding '{}'", match));
+
   std::queue<tf::Task> taskqueue;
   taskqueue.push(target_task);
 
-- 
2.43.0


From 8f434d9cfb2d584252cf3f30760e58c41764a4d8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:06:16 +0000
Subject: [PATCH 10/13] fix: a failing test ends the run with an error instead
 of hanging it

---
 buildcc/lib/args/src/tasks.cpp | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/buildcc/lib/args/src/tasks.cpp b/buildcc/lib/args/src/tasks.cpp
index 8328671..1af79a4 100644
--- a/buildcc/lib/args/src/tasks.cpp
+++ b/buildcc/lib/args/src/tasks.cpp
@@ -44,11 +44,19 @@ void Reg::Instance::RunTest() {
   tf::Taskflow test_tf{"Tests"};
   test_tf.for_each(
       tests_.begin(), tests_.end(),
-      [](const std::pair<std::string, TestInfo> &p) { p.second.TestRunner(); });
+      [](const std::pair<std::string, TestInfo> &p) {
+        try {
+          p.second.TestRunner();
+        } catch (...) {
+          env::set_task_state(env::TaskState::FAILURE);
+        }
+      });
 
   tf::Executor executor;
   executor.run(test_tf);
   executor.wait_for_all();
+  env::assert_fatal(env::get_task_state() == env::TaskState::SUCCESS,
+                    "Tests are not successful!");
 }
 
 } // namespace buildcc
-- 
2.43.0


From fee20303d3c66969e29b0ef6494d2cc0448dd2c6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:15:02 +0000
Subject: [PATCH 11/13] fix: toolchain search skips directories that cannot be
 inspected

---
 buildcc/lib/toolchain/src/api/toolchain_find.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/buildcc/lib/toolchain/src/api/toolchain_find.cpp b/buildcc/lib/toolchain/src/api/toolchain_find.cpp
index 9c1e621..c356a5f 100644
--- a/buildcc/lib/toolchain/src/api/toolchain_find.cpp
+++ b/buildcc/lib/toolchain/src/api/toolchain_find.cpp
@@ -83,11 +83,11 @@ ToolchainFind<T>::Find(const ToolchainFindConfig &config) const {
   // - Find ALL Toolchain binaries in ONE directory
   // - If matched, store that path
   for (const auto &search_path : absolute_search_paths) {
-    if (!fs::exists(search_path)) {
+    std::error_code ec;
+    if (!fs::exists(search_path, ec)) {
       continue;
     }
 
-    std::error_code ec;
     auto directory_iterator = fs::directory_iterator(search_path, ec);
     if (ec) {
       continue;
-- 
2.43.0


From 64937ee153e623b16f5d50201f86974ba17df558 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:18:27 +0000
Subject: [PATCH 12/13] fix: compile_commands.json escapes its strings

---
 buildcc/plugins/src/clang_compile_commands.cpp | 14 ++++++++------
 1 file changed, 8 insertions(+), 6 deletions(-)

diff --git a/buildcc/plugins/src/clang_compile_commands.cpp b/buildcc/plugins/src/clang_compile_commands.cpp
index c1ef59f..79d8a77 100644
--- a/buildcc/plugins/src/clang_compile_commands.cpp
+++ b/buildcc/plugins/src/clang_compile_commands.cpp
@@ -31,9 +31,9 @@ namespace {
 // clang-format off
 constexpr const char *const clang_compile_command_format =
 R"({{
-  "directory": "{directory}",
-  "command": "{command}",
-  "file": "{file}"
+  "directory": {directory},
+  "command": {command},
+  "file": {file}
 }})";
 // clang-format on
 
@@ -65,9 +65,11 @@ void ClangCompileCommands::Generate() {
       // DONE, Get source list name
       // DONE, Get std::vector<std::string> CompileCommand
       // DONE, Get intermediate directory from env
-      std::string sf = fmt::format("{}", source);
-      const std::string &command = t->GetCompileCommand(source);
-      std::string directory = fmt::format("{}", Project::GetBuildDir());
+      // NOTE, json(..).dump() quotes and escapes the strings
+      std::string sf = json(source).dump();
+      std::string command = json(t->GetCompileCommand(source)).dump();
+      std::string directory =
+          json(path_as_string(Project::GetBuildDir())).dump();
 
       std::string temp = fmt::format(
           clang_compile_command_format, fmt::arg("directory", directory),
-- 
2.43.0


From cc6f14a0446c8a7fc6ae7e814fdac9321753f21f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:21:18 +0000
Subject: [PATCH 13/13] fix: read the global task state under its mutex

---
 buildcc/lib/env/src/task_state.cpp | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/buildcc/lib/env/src/task_state.cpp b/buildcc/lib/env/src/task_state.cpp
index d0b14a6..270ed4f 100644
--- a/buildcc/lib/env/src/task_state.cpp
+++ b/buildcc/lib/env/src/task_state.cpp
@@ -36,6 +36,9 @@ void set_task_state(TaskState state) {
   current_state = state;
 }
 
-TaskState get_task_state() { return current_state; }
+TaskState get_task_state() {
+  std::lock_guard<std::mutex> guard(current_state_mutex);
+  return current_state;
+}
 
 } // namespace buildcc::env
-- 
2.43.0

