From 0f2cae671115d22197594dacead854b8d9c52f3c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:25:45 +0000
Subject: [PATCH 01/21] fix: recompile objects when the precompiled headers of
 a target are dropped

The object stage never compared the recorded precompiled headers with the
current ones, so removing every PCH from a target kept objects that had been
compiled against it.
---
 buildcc/lib/target/src/target/friend/compile_object.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/buildcc/lib/target/src/target/friend/compile_object.cpp b/buildcc/lib/target/src/target/friend/compile_object.cpp
index f905426..eee36a0 100644
--- a/buildcc/lib/target/src/target/friend/compile_object.cpp
+++ b/buildcc/lib/target/src/target/friend/compile_object.cpp
@@ -194,7 +194,8 @@ void CompileObject::BuildObjectCompile(
                  user_target_schema.include_dirs)) {
       target_.dirty_ = true;
       target_.DirChanged();
-    } else if (!(load_target_schema.headers == user_target_schema.headers)) {
+    } else if (!(load_target_schema.headers == user_target_schema.headers) ||
+               !(load_target_schema.pchs == user_target_schema.pchs)) {
       target_.dirty_ = true;
       target_.PathChanged();
     } else if (!(load_target_schema.compile_dependencies ==
-- 
2.43.0


From eb5be9189ea40a265065201d348cda229d504c44 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:11:42 +0000
Subject: [PATCH 02/21] fix: do not fingerprint headers again after the PCH was
 compiled from them

---
 buildcc/lib/target/src/target/friend/compile_object.cpp | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/buildcc/lib/target/src/target/friend/compile_object.cpp b/buildcc/lib/target/src/target/friend/compile_object.cpp
index eee36a0..5764f41 100644
--- a/buildcc/lib/target/src/target/friend/compile_object.cpp
+++ b/buildcc/lib/target/src/target/friend/compile_object.cpp
@@ -219,7 +219,11 @@ void CompileObject::PreObjectCompile() {
   target_user_schema.sources.ComputeHashForAll();
 
   // Convert user_header_files to current_header_files
-  target_user_schema.headers.ComputeHashForAll();
+  // NOTE, With PCH this is already done before the PCH is compiled. Doing it
+  // again would record header changes that the compiled PCH has not seen
+  if (!target_.GetState().ContainsPch()) {
+    target_user_schema.headers.ComputeHashForAll();
+  }
 
   // Convert user_compile_dependencies to current_compile_dependencies
   target_user_schema.compile_dependencies.ComputeHashForAll();
-- 
2.43.0


From 0ef4801e2ed4fcfe84e165f6f2aa3241a2b9d5f2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:12:56 +0000
Subject: [PATCH 03/21] fix: record the generator inputs that were compared
 before the callback ran

---
 buildcc/lib/target/include/target/custom_generator.h | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/buildcc/lib/target/include/target/custom_generator.h b/buildcc/lib/target/include/target/custom_generator.h
index a9dec03..6ce6014 100644
--- a/buildcc/lib/target/include/target/custom_generator.h
+++ b/buildcc/lib/target/include/target/custom_generator.h
@@ -49,9 +49,10 @@ struct UserCustomGeneratorSchema : public internal::CustomGeneratorSchema {
     std::shared_ptr<CustomBlobHandler> blob_handler{nullptr};
   };
 
+  // NOTE, Expects every id_info to be converted already. Converting it again here
+  // would record input changes that its generate_cb has not seen
   void ConvertToInternal() {
     for (auto &[id_key, id_info] : ids) {
-      id_info.ConvertToInternal();
       auto [_, success] = internal_ids.try_emplace(id_key, id_info);
       env::assert_fatal(success, fmt::format("Could not save {}", id_key));
     }
-- 
2.43.0


From f3ba72e3899eb21957caaf03467c03c892396f17 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:58:42 +0000
Subject: [PATCH 04/21] fix: quote source, library and directory paths with
 spaces in commands

---
 buildcc/lib/target/include/target/common/util.h         | 3 ++-
 buildcc/lib/target/src/target/friend/compile_object.cpp | 3 ++-
 buildcc/lib/target/src/target/friend/link_target.cpp    | 3 ++-
 3 files changed, 6 insertions(+), 3 deletions(-)

diff --git a/buildcc/lib/target/include/target/common/util.h b/buildcc/lib/target/include/target/common/util.h
index 30191e8..3a688a7 100644
--- a/buildcc/lib/target/include/target/common/util.h
+++ b/buildcc/lib/target/include/target/common/util.h
@@ -29,11 +29,12 @@ template <typename T> std::string aggregate(const T &list) {
   return fmt::format("{}", fmt::join(list, " "));
 }
 
+// NOTE, Expects a list of paths
 template <typename T>
 std::string aggregate_with_prefix(const std::string &prefix, const T &list) {
   std::vector<std::string> agg_list;
   for (const auto &l : list) {
-    auto formatted_output = fmt::format("{}{}", prefix, l);
+    auto formatted_output = fmt::format("{}{}", prefix, fs::path(l));
     agg_list.emplace_back(std::move(formatted_output));
   }
   return aggregate(agg_list);
diff --git a/buildcc/lib/target/src/target/friend/compile_object.cpp b/buildcc/lib/target/src/target/friend/compile_object.cpp
index 5764f41..9f7d64e 100644
--- a/buildcc/lib/target/src/target/friend/compile_object.cpp
+++ b/buildcc/lib/target/src/target/friend/compile_object.cpp
@@ -44,7 +44,8 @@ void CompileObject::CacheCompileCommands() {
 
     const std::string output =
         fmt::format("{}", GetObjectData(absolute_current_source).output);
-    const std::string input = fmt::format("{}", absolute_current_source);
+    const std::string input =
+        fmt::format("{}", fs::path(absolute_current_source));
 
     const auto type =
         target_.toolchain_.GetConfig().GetFileExt(absolute_current_source);
diff --git a/buildcc/lib/target/src/target/friend/link_target.cpp b/buildcc/lib/target/src/target/friend/link_target.cpp
index fb5219a..401541d 100644
--- a/buildcc/lib/target/src/target/friend/link_target.cpp
+++ b/buildcc/lib/target/src/target/friend/link_target.cpp
@@ -42,7 +42,8 @@ void LinkTarget::CacheLinkCommand() {
           {kCompiledSources, aggregated_compiled_sources},
           {kLibDeps,
            fmt::format("{} {}",
-                       internal::aggregate(target_user_schema.libs.GetPaths()),
+                       internal::aggregate_with_prefix(
+                           "", target_user_schema.libs.GetPaths()),
                        internal::aggregate(target_user_schema.external_libs))},
       });
 }
-- 
2.43.0


From 285ede5511d79567f82d378d08a68656eaa7a00d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:58:42 +0000
Subject: [PATCH 05/21] fix: do not use the quoted display string of the PCH
 source as its file name

---
 buildcc/lib/target/src/target/friend/compile_pch.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/buildcc/lib/target/src/target/friend/compile_pch.cpp b/buildcc/lib/target/src/target/friend/compile_pch.cpp
index be3b514..69c2077 100644
--- a/buildcc/lib/target/src/target/friend/compile_pch.cpp
+++ b/buildcc/lib/target/src/target/friend/compile_pch.cpp
@@ -110,7 +110,7 @@ void CompilePch::BuildCompile() {
   if (target_.dirty_) {
     AggregateToFile(header_path_, target_.GetPchFiles());
     if (!fs::exists(source_path_)) {
-      const std::string p = fmt::format("{}", source_path_);
+      const std::string p = path_as_string(source_path_);
       const bool save =
           env::save_file(p.c_str(), {"//Generated by BuildCC"}, false);
       env::assert_fatal(save, fmt::format("Could not save {}", p));
-- 
2.43.0


From 6627cd4027bb674aecdc4f1f6462b4f7087d7489 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:59:20 +0000
Subject: [PATCH 06/21] fix: escape compile_commands.json entries and do not
 quote its paths

---
 .../plugins/src/clang_compile_commands.cpp    | 36 +++++--------------
 1 file changed, 9 insertions(+), 27 deletions(-)

diff --git a/buildcc/plugins/src/clang_compile_commands.cpp b/buildcc/plugins/src/clang_compile_commands.cpp
index c1ef59f..44f836b 100644
--- a/buildcc/plugins/src/clang_compile_commands.cpp
+++ b/buildcc/plugins/src/clang_compile_commands.cpp
@@ -22,22 +22,8 @@
 #include "env/assert_fatal.h"
 #include "env/util.h"
 
-// third party
-#include "fmt/format.h"
-#include "fmt/ranges.h"
-
-namespace {
-
-// clang-format off
-constexpr const char *const clang_compile_command_format =
-R"({{
-  "directory": "{directory}",
-  "command": "{command}",
-  "file": "{file}"
-}})";
-// clang-format on
-
-} // namespace
+// schema
+#include "schema/path.h"
 
 namespace buildcc::plugin {
 
@@ -57,7 +43,7 @@ void ClangCompileCommands::Generate() {
   }
   env::log_trace("ClangCompileCommands", "Generate -> true");
 
-  std::vector<std::string> compile_command_list;
+  json compile_command_list = json::array();
 
   for (const auto *t : targets_) {
     const auto &source_files = t->GetSourceFiles();
@@ -65,19 +51,15 @@ void ClangCompileCommands::Generate() {
       // DONE, Get source list name
       // DONE, Get std::vector<std::string> CompileCommand
       // DONE, Get intermediate directory from env
-      std::string sf = fmt::format("{}", source);
-      const std::string &command = t->GetCompileCommand(source);
-      std::string directory = fmt::format("{}", Project::GetBuildDir());
-
-      std::string temp = fmt::format(
-          clang_compile_command_format, fmt::arg("directory", directory),
-          fmt::arg("command", command), fmt::arg("file", sf));
-      compile_command_list.push_back(temp);
+      json compile_command;
+      compile_command["directory"] = path_as_string(Project::GetBuildDir());
+      compile_command["command"] = t->GetCompileCommand(source);
+      compile_command["file"] = path_as_string(source);
+      compile_command_list.push_back(compile_command);
     }
   }
 
-  std::string compile_commands =
-      fmt::format("[\n{}\n]", fmt::join(compile_command_list, ",\n"));
+  const std::string compile_commands = compile_command_list.dump(2);
 
   // DONE, Convert to json
   // DONE, Save file
-- 
2.43.0


From 88f909f05fa36c871e30394a637b22ae0e16913d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:59:20 +0000
Subject: [PATCH 07/21] fix: report data that could not be written out in
 save_file

---
 buildcc/lib/env/include/env/util.h | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/buildcc/lib/env/include/env/util.h b/buildcc/lib/env/include/env/util.h
index 45a7144..524d1c4 100644
--- a/buildcc/lib/env/include/env/util.h
+++ b/buildcc/lib/env/include/env/util.h
@@ -58,8 +58,10 @@ inline bool save_file(const char *name, const char *buf, size_t len,
   }
 
   // * 1
-  std::ostream &os = ofs.write(buf, len);
-  return !os.bad();
+  ofs.write(buf, len);
+  // NOTE, Buffered data is only written here
+  ofs.close();
+  return !ofs.fail();
 }
 
 inline bool save_file(const char *name, const std::string &buf, bool binary) {
-- 
2.43.0


From bac7d57e36640799234d7e48cc34f97750b9a839 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:59:20 +0000
Subject: [PATCH 08/21] fix: read the task state under its mutex

---
 buildcc/lib/env/src/task_state.cpp | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/buildcc/lib/env/src/task_state.cpp b/buildcc/lib/env/src/task_state.cpp
index d0b14a6..270ed4f 100644
--- a/buildcc/lib/env/src/task_state.cpp
+++ b/buildcc/lib/env/src/task_state.cpp
@@ -36,6 +36,9 @@ void set_task_state(TaskState state) {
   current_state = state;
 }
 
-TaskState get_task_state() { return current_state; }
+TaskState get_task_state() {
+  std::lock_guard<std::mutex> guard(current_state_mutex);
+  return current_state;
+}
 
 } // namespace buildcc::env
-- 
2.43.0


From 4330ddb796de3242d55f3b4af32b029b31603aa3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:00:18 +0000
Subject: [PATCH 09/21] fix: reject duplicate identifiers in ScopedStorage::Add
 instead of leaking the object

---
 buildcc/lib/env/include/env/storage.h | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/buildcc/lib/env/include/env/storage.h b/buildcc/lib/env/include/env/storage.h
index b5407df..5cb598b 100644
--- a/buildcc/lib/env/include/env/storage.h
+++ b/buildcc/lib/env/include/env/storage.h
@@ -38,6 +38,8 @@ public:
 
   template <typename T, typename... Params>
   T &Add(const std::string &identifier, Params &&...params) {
+    env::assert_fatal(!Contains(identifier),
+                      fmt::format("Duplicate identifier '{}'", identifier));
     T *ptr = new T(std::forward<Params>(params)...);
     env::assert_fatal(ptr != nullptr, "System out of memory");
 
-- 
2.43.0


From 20adf70f59b1e8a15a8e6e75e9e44b59368f4a8f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:16:47 +0000
Subject: [PATCH 10/21] fix: report failing tests in Reg::Run instead of losing
 the exception in the executor

---
 buildcc/lib/args/src/tasks.cpp | 13 ++++++++++---
 1 file changed, 10 insertions(+), 3 deletions(-)

diff --git a/buildcc/lib/args/src/tasks.cpp b/buildcc/lib/args/src/tasks.cpp
index 8328671..2e4c99f 100644
--- a/buildcc/lib/args/src/tasks.cpp
+++ b/buildcc/lib/args/src/tasks.cpp
@@ -42,13 +42,20 @@ void Reg::Instance::RunBuild() {
 
 void Reg::Instance::RunTest() {
   tf::Taskflow test_tf{"Tests"};
-  test_tf.for_each(
-      tests_.begin(), tests_.end(),
-      [](const std::pair<std::string, TestInfo> &p) { p.second.TestRunner(); });
+  test_tf.for_each(tests_.begin(), tests_.end(),
+                   [](const std::pair<std::string, TestInfo> &p) {
+                     try {
+                       p.second.TestRunner();
+                     } catch (...) {
+                       env::set_task_state(env::TaskState::FAILURE);
+                     }
+                   });
 
   tf::Executor executor;
   executor.run(test_tf);
   executor.wait_for_all();
+  env::assert_fatal(env::get_task_state() == env::TaskState::SUCCESS,
+                    "Tests are not successful!");
 }
 
 } // namespace buildcc
-- 
2.43.0


From 066f2051f7193b831edf996c12740a28d60e2b19 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:17:22 +0000
Subject: [PATCH 11/21] fix: detect a target that depends on itself in Reg Dep

---
 buildcc/lib/args/src/register.cpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/buildcc/lib/args/src/register.cpp b/buildcc/lib/args/src/register.cpp
index e141541..5167471 100644
--- a/buildcc/lib/args/src/register.cpp
+++ b/buildcc/lib/args/src/register.cpp
@@ -45,6 +45,10 @@ void DepDetectDuplicate(const tf::Task &target_task, const std::string &match) {
 
 void DepDetectCyclicDependency(const tf::Task &target_task,
                                const std::string &match) {
+  buildcc::env::assert_fatal(
+      !(target_task.name() == match),
+      fmt::format("Cyclic dependency detected when adding '{}'", match));
+
   std::queue<tf::Task> taskqueue;
   taskqueue.push(target_task);
 
-- 
2.43.0


From 89aa13f8449a200311eb881e8b1e9a72c2e4b7e5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:17:02 +0000
Subject: [PATCH 12/21] fix: report files that could not be read completely in
 load_file

---
 buildcc/lib/env/include/env/util.h | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/buildcc/lib/env/include/env/util.h b/buildcc/lib/env/include/env/util.h
index 524d1c4..fc0d070 100644
--- a/buildcc/lib/env/include/env/util.h
+++ b/buildcc/lib/env/include/env/util.h
@@ -100,12 +100,16 @@ inline bool load_file(const char *name, bool binary, std::string *buf) {
     // * 3
     // flawfinder: ignore
     ifs.read(buf->data(), buf->size());
+    // NOTE, A short read only sets the failbit
+    return !ifs.fail();
   } else {
     // This is slower, but works correctly on all platforms for text files.
     // * 4
     std::ostringstream oss;
     oss << ifs.rdbuf();
     *buf = oss.str();
+    // NOTE, `rdbuf` does not report read errors to ifs
+    ifs.peek();
   }
   return !ifs.bad();
 }
-- 
2.43.0


From d26e68c26c6efaf69005d51e229a839ffd3b8e33 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:17:02 +0000
Subject: [PATCH 13/21] fix: match toolchain executables by their file name and
 skip unreadable search paths

---
 .../lib/toolchain/src/api/toolchain_find.cpp  | 21 ++++++++++++-------
 1 file changed, 14 insertions(+), 7 deletions(-)

diff --git a/buildcc/lib/toolchain/src/api/toolchain_find.cpp b/buildcc/lib/toolchain/src/api/toolchain_find.cpp
index 9c1e621..90ac4f7 100644
--- a/buildcc/lib/toolchain/src/api/toolchain_find.cpp
+++ b/buildcc/lib/toolchain/src/api/toolchain_find.cpp
@@ -42,18 +42,25 @@ std::vector<std::string> ParseEnvVarToPaths(const std::string &env_var) {
 bool ContainsToolchainExecutables(
     const fs::directory_iterator &directory_iterator,
     const buildcc::ToolchainExecutables &executables) {
-  std::unordered_set<std::string> exes(
-      {executables.assembler, executables.c_compiler, executables.cpp_compiler,
-       executables.archiver, executables.linker});
+  constexpr const char *const executable_ext =
+      buildcc::env::get_os_executable_extension();
+  buildcc::env::assert_fatal<executable_ext != nullptr>(
+      "Host executable extension not supported");
+
+  std::unordered_set<std::string> exes;
+  for (const auto &exe :
+       {executables.assembler, executables.c_compiler, executables.cpp_compiler,
+        executables.archiver, executables.linker}) {
+    exes.insert(fmt::format("{}{}", exe, executable_ext));
+  }
   std::error_code ec;
   for (const auto &dir_iter : directory_iterator) {
     bool is_regular_file = dir_iter.is_regular_file(ec);
     if (!is_regular_file || ec) {
       continue;
     }
-    const auto &filename_without_ext = dir_iter.path().stem().string();
     // NOTE, Must match the entire filename
-    exes.erase(filename_without_ext);
+    exes.erase(dir_iter.path().filename().string());
   }
   return exes.empty();
 }
@@ -83,11 +90,11 @@ ToolchainFind<T>::Find(const ToolchainFindConfig &config) const {
   // - Find ALL Toolchain binaries in ONE directory
   // - If matched, store that path
   for (const auto &search_path : absolute_search_paths) {
-    if (!fs::exists(search_path)) {
+    std::error_code ec;
+    if (!fs::exists(search_path, ec)) {
       continue;
     }
 
-    std::error_code ec;
     auto directory_iterator = fs::directory_iterator(search_path, ec);
     if (ec) {
       continue;
-- 
2.43.0


From a9bd8ff9e29f37e8808013ffa2f6e231bc3f8657 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:17:02 +0000
Subject: [PATCH 14/21] fix: quote verified toolchain executables with spaces
 in their path

---
 .../toolchain/src/api/toolchain_verify.cpp    | 30 +++++++++----------
 1 file changed, 15 insertions(+), 15 deletions(-)

diff --git a/buildcc/lib/toolchain/src/api/toolchain_verify.cpp b/buildcc/lib/toolchain/src/api/toolchain_verify.cpp
index 7189ecb..d5924ef 100644
--- a/buildcc/lib/toolchain/src/api/toolchain_verify.cpp
+++ b/buildcc/lib/toolchain/src/api/toolchain_verify.cpp
@@ -43,25 +43,25 @@ buildcc::ToolchainExecutables CreateToolchainExecutables(
       "Host executable extension not supported");
 
   std::string assembler_path =
-      (absolute_path /
-       fmt::format("{}{}", current_executables.assembler, executable_ext))
-          .string();
+      buildcc::internal::PathInfo::ToPathDisplayString(
+          absolute_path /
+          fmt::format("{}{}", current_executables.assembler, executable_ext));
   std::string c_compiler_path =
-      (absolute_path /
-       fmt::format("{}{}", current_executables.c_compiler, executable_ext))
-          .string();
+      buildcc::internal::PathInfo::ToPathDisplayString(
+          absolute_path /
+          fmt::format("{}{}", current_executables.c_compiler, executable_ext));
   std::string cpp_compiler_path =
-      (absolute_path /
-       fmt::format("{}{}", current_executables.cpp_compiler, executable_ext))
-          .string();
+      buildcc::internal::PathInfo::ToPathDisplayString(
+          absolute_path /
+          fmt::format("{}{}", current_executables.cpp_compiler, executable_ext));
   std::string archiver_path =
-      (absolute_path /
-       fmt::format("{}{}", current_executables.archiver, executable_ext))
-          .string();
+      buildcc::internal::PathInfo::ToPathDisplayString(
+          absolute_path /
+          fmt::format("{}{}", current_executables.archiver, executable_ext));
   std::string linker_path =
-      (absolute_path /
-       fmt::format("{}{}", current_executables.linker, executable_ext))
-          .string();
+      buildcc::internal::PathInfo::ToPathDisplayString(
+          absolute_path /
+          fmt::format("{}{}", current_executables.linker, executable_ext));
 
   return buildcc::ToolchainExecutables(assembler_path, c_compiler_path,
                                        cpp_compiler_path, archiver_path,
-- 
2.43.0


From 7737f2c7638c39439cffaca6f4686591a0f0dcef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:37:27 +0000
Subject: [PATCH 15/21] fix: quote the compiler when toolchain information is
 queried, not in the toolchain

Targets already quote the executables of their toolchain when they construct
commands, so Verify has to store plain paths.
---
 .../toolchain/src/api/toolchain_verify.cpp    | 30 +++++++++----------
 buildcc/toolchains/src/toolchain_infos.cpp    |  3 +-
 2 files changed, 17 insertions(+), 16 deletions(-)

diff --git a/buildcc/lib/toolchain/src/api/toolchain_verify.cpp b/buildcc/lib/toolchain/src/api/toolchain_verify.cpp
index d5924ef..7189ecb 100644
--- a/buildcc/lib/toolchain/src/api/toolchain_verify.cpp
+++ b/buildcc/lib/toolchain/src/api/toolchain_verify.cpp
@@ -43,25 +43,25 @@ buildcc::ToolchainExecutables CreateToolchainExecutables(
       "Host executable extension not supported");
 
   std::string assembler_path =
-      buildcc::internal::PathInfo::ToPathDisplayString(
-          absolute_path /
-          fmt::format("{}{}", current_executables.assembler, executable_ext));
+      (absolute_path /
+       fmt::format("{}{}", current_executables.assembler, executable_ext))
+          .string();
   std::string c_compiler_path =
-      buildcc::internal::PathInfo::ToPathDisplayString(
-          absolute_path /
-          fmt::format("{}{}", current_executables.c_compiler, executable_ext));
+      (absolute_path /
+       fmt::format("{}{}", current_executables.c_compiler, executable_ext))
+          .string();
   std::string cpp_compiler_path =
-      buildcc::internal::PathInfo::ToPathDisplayString(
-          absolute_path /
-          fmt::format("{}{}", current_executables.cpp_compiler, executable_ext));
+      (absolute_path /
+       fmt::format("{}{}", current_executables.cpp_compiler, executable_ext))
+          .string();
   std::string archiver_path =
-      buildcc::internal::PathInfo::ToPathDisplayString(
-          absolute_path /
-          fmt::format("{}{}", current_executables.archiver, executable_ext));
+      (absolute_path /
+       fmt::format("{}{}", current_executables.archiver, executable_ext))
+          .string();
   std::string linker_path =
-      buildcc::internal::PathInfo::ToPathDisplayString(
-          absolute_path /
-          fmt::format("{}{}", current_executables.linker, executable_ext));
+      (absolute_path /
+       fmt::format("{}{}", current_executables.linker, executable_ext))
+          .string();
 
   return buildcc::ToolchainExecutables(assembler_path, c_compiler_path,
                                        cpp_compiler_path, archiver_path,
diff --git a/buildcc/toolchains/src/toolchain_infos.cpp b/buildcc/toolchains/src/toolchain_infos.cpp
index 1b7a1fc..807d939 100644
--- a/buildcc/toolchains/src/toolchain_infos.cpp
+++ b/buildcc/toolchains/src/toolchain_infos.cpp
@@ -63,7 +63,8 @@ GetGccTargetArchitecture(const buildcc::env::Command &command) {
 buildcc::env::optional<buildcc::ToolchainCompilerInfo>
 GetGccToolchainInfo(const buildcc::ToolchainExecutables &executables) {
   buildcc::env::Command command;
-  command.AddDefaultArgument("compiler", executables.cpp_compiler);
+  command.AddDefaultArgument(
+      "compiler", fmt::format("{}", fs::path(executables.cpp_compiler)));
 
   auto op_compiler_version = GetGccCompilerVersion(command);
   auto op_target_arch = GetGccTargetArchitecture(command);
-- 
2.43.0


From 90e279283ece65db7be5eba65b1a0905750b0d1a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:45:03 +0000
Subject: [PATCH 16/21] fix: compare ids whose blob handler was added or
 removed since the previous run

CheckChanged was handed the empty blob recorded for an id without a
handler, so once a handler was added to an existing id every run failed
verification, and removing a handler from an id was never noticed.
---
 .../src/custom_generator/custom_generator.cpp | 19 +++++++++++++------
 1 file changed, 13 insertions(+), 6 deletions(-)

diff --git a/buildcc/lib/target/src/custom_generator/custom_generator.cpp b/buildcc/lib/target/src/custom_generator/custom_generator.cpp
index 138bb9f..8d67087 100644
--- a/buildcc/lib/target/src/custom_generator/custom_generator.cpp
+++ b/buildcc/lib/target/src/custom_generator/custom_generator.cpp
@@ -74,12 +74,19 @@ struct Comparator {
 
     bool changed = !previous_id_info.inputs.IsEqual(current_id_info.inputs) ||
                    !previous_id_info.outputs.IsEqual(current_id_info.outputs);
-    if (!changed && current_id_info.blob_handler != nullptr) {
-      // We only check blob handler if not changed by inputs/outputs
-      // Checking blob_handler could be expensive so this optimization is made
-      // to run only when changed == false
-      changed = current_id_info.blob_handler->CheckChanged(
-          previous_id_info.userblob, current_id_info.userblob);
+    if (!changed) {
+      if (current_id_info.blob_handler == nullptr ||
+          previous_id_info.userblob.empty()) {
+        // The blob handler has been added or removed since the previous run
+        // i.e there is nothing for the blob handler to compare
+        changed = previous_id_info.userblob != current_id_info.userblob;
+      } else {
+        // We only check blob handler if not changed by inputs/outputs
+        // Checking blob_handler could be expensive so this optimization is made
+        // to run only when changed == false
+        changed = current_id_info.blob_handler->CheckChanged(
+            previous_id_info.userblob, current_id_info.userblob);
+      }
     }
     return changed;
   }
-- 
2.43.0


From 3049f7ddda649a383b79aef0914bc42930705c6d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:54:46 +0000
Subject: [PATCH 17/21] fix: refuse two sources of a target that map to the
 same object file

Out of root sources replace every '.' of their path by '_', so for example
../a.b/x.cpp and ../a_b/x.cpp compiled into the same object and one of them
silently went missing from the link.
---
 .../include/target/friend/compile_object.h      |  4 ++++
 .../target/src/target/friend/compile_object.cpp | 17 ++++++++++++++---
 2 files changed, 18 insertions(+), 3 deletions(-)

diff --git a/buildcc/lib/target/include/target/friend/compile_object.h b/buildcc/lib/target/include/target/friend/compile_object.h
index 3e2e8ec..2f88340 100644
--- a/buildcc/lib/target/include/target/friend/compile_object.h
+++ b/buildcc/lib/target/include/target/friend/compile_object.h
@@ -18,6 +18,9 @@
 #define TARGET_FRIEND_COMPILE_OBJECT_H_
 
 #include <filesystem>
+#include <string>
+#include <unordered_map>
+#include <unordered_set>
 
 #include "schema/path.h"
 
@@ -76,6 +79,7 @@ private:
   Target &target_;
 
   std::unordered_map<std::string, ObjectData> object_files_;
+  std::unordered_set<std::string> object_outputs_;
   tf::Task compile_task_;
 };
 
diff --git a/buildcc/lib/target/src/target/friend/compile_object.cpp b/buildcc/lib/target/src/target/friend/compile_object.cpp
index 9f7d64e..2e0a8b8 100644
--- a/buildcc/lib/target/src/target/friend/compile_object.cpp
+++ b/buildcc/lib/target/src/target/friend/compile_object.cpp
@@ -34,9 +34,20 @@ void CompileObject::AddObjectData(const fs::path &absolute_source_path) {
       ConstructObjectPath(absolute_source_path);
   fs::create_directories(absolute_object_path.parent_path());
 
-  object_files_.try_emplace(
-      internal::PathInfo::ToPathString(absolute_source_path),
-      absolute_object_path, "");
+  const bool added =
+      object_files_
+          .try_emplace(internal::PathInfo::ToPathString(absolute_source_path),
+                       absolute_object_path, "")
+          .second;
+  if (added) {
+    // Different sources must not overwrite each others object
+    const bool unique =
+        object_outputs_.insert(absolute_object_path.string()).second;
+    env::assert_fatal(unique,
+                      fmt::format("Object {} of source {} is already used by "
+                                  "another source",
+                                  absolute_object_path, absolute_source_path));
+  }
 }
 
 void CompileObject::CacheCompileCommands() {
-- 
2.43.0


From f5f0d977883800ddf10f0fa3c8d6b1701332a1e4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:51:51 +0000
Subject: [PATCH 18/21] fix: run the user target with whole config paths and
 fail when it fails

---
 buildexe/src/build_env_setup.cpp | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/buildexe/src/build_env_setup.cpp b/buildexe/src/build_env_setup.cpp
index d36360e..69338d7 100644
--- a/buildexe/src/build_env_setup.cpp
+++ b/buildexe/src/build_env_setup.cpp
@@ -42,7 +42,7 @@ void BuildEnvSetup::RunUserTarget(const ArgScriptInfo &arg_script_info) {
   std::transform(arg_script_info.configs.begin(), arg_script_info.configs.end(),
                  std::back_inserter(configs),
                  [](const std::string &c) -> std::string {
-                   return fmt::format("--config {}", c);
+                   return fmt::format("--config {}", fs::path(c));
                  });
   std::string aggregated_configs = fmt::format("{}", fmt::join(configs, " "));
 
@@ -52,7 +52,8 @@ void BuildEnvSetup::RunUserTarget(const ArgScriptInfo &arg_script_info) {
                   fmt::arg("executable",
                            fmt::format("{}", GetUserTarget().GetTargetPath())),
                   fmt::arg("configs", aggregated_configs));
-  env::Command::Execute(command_str);
+  bool success = env::Command::Execute(command_str);
+  env::assert_fatal(success, "Failed to run user target");
 }
 
 // Private
-- 
2.43.0


From c65585b27b5ca8fed94d9e280e3d3eecc4de716c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:51:51 +0000
Subject: [PATCH 19/21] fix: quote the path of the host toolchain verification
 program

---
 buildexe/src/toolchain_setup.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/buildexe/src/toolchain_setup.cpp b/buildexe/src/toolchain_setup.cpp
index 4d483da..cb283f3 100644
--- a/buildexe/src/toolchain_setup.cpp
+++ b/buildexe/src/toolchain_setup.cpp
@@ -72,7 +72,8 @@ int main() {
 
   // Run
   bool execute = env::Command::Execute(fmt::format(
-      "{executable}", fmt::arg("executable", target.GetTargetPath().string())));
+      "{executable}",
+      fmt::arg("executable", fmt::format("{}", target.GetTargetPath()))));
   env::assert_fatal(execute, "Could not execute verification target");
 
   env::log_info(kTag, "*** Toolchain verification done ***");
-- 
2.43.0


From 8006a843556cd74529eaa222dcf11a9207a39ad6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:51:51 +0000
Subject: [PATCH 20/21] fix: write the plain library path into
 buildexe_lib_dirs.h

---
 buildexe/src/args_setup.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/buildexe/src/args_setup.cpp b/buildexe/src/args_setup.cpp
index edee4ad..8d4a353 100644
--- a/buildexe/src/args_setup.cpp
+++ b/buildexe/src/args_setup.cpp
@@ -114,7 +114,7 @@ void ArgLibsInfo::Add(CLI::App &app) {
 
     LibInfo lib_info;
     lib_info.lib_name = lib_name;
-    lib_info.absolute_lib_path = fmt::format("{}", lib_path);
+    lib_info.absolute_lib_path = lib_path.generic_string();
     libs_info.push_back(lib_info);
 
     auto add_lib_files_cb_func = [lib_path,
-- 
2.43.0


From 6d690c16c803eb681697eeb07c5a55d494691129 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:51:51 +0000
Subject: [PATCH 21/21] fix: track all headers of libbuildcc in the bootstrap
 build

---
 bootstrap/src/build_buildcc.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/bootstrap/src/build_buildcc.cpp b/bootstrap/src/build_buildcc.cpp
index fa75c46..4183db3 100644
--- a/bootstrap/src/build_buildcc.cpp
+++ b/bootstrap/src/build_buildcc.cpp
@@ -58,6 +58,7 @@ void buildcc_cb(BaseTarget &target, const TargetInfo &nlohmann_json_ho,
   target.GlobHeaders("lib/target/include/target");
   target.GlobHeaders("lib/target/include/target/api");
   target.GlobHeaders("lib/target/include/target/common");
+  target.GlobHeaders("lib/target/include/target/custom_generator");
   target.GlobHeaders("lib/target/include/target/friend");
   target.GlobHeaders("lib/target/include/target/interface");
 
@@ -65,6 +66,7 @@ void buildcc_cb(BaseTarget &target, const TargetInfo &nlohmann_json_ho,
   target.GlobSources("lib/args/src");
   target.AddIncludeDir("lib/args/include");
   target.GlobHeaders("lib/args/include/args");
+  target.GlobHeaders("lib/args/include/args/register");
 
   // Specialized Toolchains
   target.GlobSources("toolchains/src");
-- 
2.43.0

