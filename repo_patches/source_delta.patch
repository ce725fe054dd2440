From de4cfe7677f1ab1182872a6a8f6feb44c2e69656 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:26:21 +0000
Subject: [PATCH 01/34] fix: rebuild objects when every pch of a target is
 removed

---
 buildcc/lib/target/src/target/friend/compile_object.cpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/buildcc/lib/target/src/target/friend/compile_object.cpp b/buildcc/lib/target/src/target/friend/compile_object.cpp
index f905426..d69cbf4 100644
--- a/buildcc/lib/target/src/target/friend/compile_object.cpp
+++ b/buildcc/lib/target/src/target/friend/compile_object.cpp
@@ -194,7 +194,9 @@ void CompileObject::BuildObjectCompile(
                  user_target_schema.include_dirs)) {
       target_.dirty_ = true;
       target_.DirChanged();
-    } else if (!(load_target_schema.headers == user_target_schema.headers)) {
+    } else if (!(load_target_schema.headers == user_target_schema.headers) ||
+               !(load_target_schema.pchs == user_target_schema.pchs)) {
+      // NOTE, pchs differ here when every pch of the target has been removed
       target_.dirty_ = true;
       target_.PathChanged();
     } else if (!(load_target_schema.compile_dependencies ==
-- 
2.43.0


From da4864b31024f8cde493ffa64a1239ebdca96ed5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:27:04 +0000
Subject: [PATCH 02/34] fix: recompile the pch when its language changes
 between C and C++

---
 buildcc/lib/target/src/target/friend/compile_pch.cpp | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/buildcc/lib/target/src/target/friend/compile_pch.cpp b/buildcc/lib/target/src/target/friend/compile_pch.cpp
index be3b514..a4488d8 100644
--- a/buildcc/lib/target/src/target/friend/compile_pch.cpp
+++ b/buildcc/lib/target/src/target/friend/compile_pch.cpp
@@ -100,6 +100,9 @@ void CompilePch::BuildCompile() {
                !(load_target_schema.pchs == user_target_schema.pchs)) {
       target_.dirty_ = true;
       target_.PathChanged();
+    } else if (!fs::exists(source_path_)) {
+      // Pch language (C / C++) changed since the previous compile
+      target_.dirty_ = true;
     } else if (!load_target_schema.pch_compiled) {
       // TODO, Replace this with fs::exists to check if compiled pch file is
       // present or no
@@ -114,6 +117,8 @@ void CompilePch::BuildCompile() {
       const bool save =
           env::save_file(p.c_str(), {"//Generated by BuildCC"}, false);
       env::assert_fatal(save, fmt::format("Could not save {}", p));
+      // Only keep the source of the language we are compiling for
+      fs::remove(ConstructSourcePath(!target_.GetState().ContainsCpp()));
     }
     bool success = env::Command::Execute(command_);
     env::assert_fatal(success, "Failed to compile pch");
-- 
2.43.0


From f58395ef3c85f1a9aec51cceadf9d386e243e117 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:34:37 +0000
Subject: [PATCH 03/34] fix: never mistake an interrupted target build for the
 previous complete one

---
 buildcc/lib/target/include/target/target.h         |  1 +
 .../lib/target/src/target/friend/compile_pch.cpp   |  1 +
 .../lib/target/src/target/friend/link_target.cpp   |  1 +
 buildcc/lib/target/src/target/tasks.cpp            | 14 ++++++++++++--
 4 files changed, 15 insertions(+), 2 deletions(-)

diff --git a/buildcc/lib/target/include/target/target.h b/buildcc/lib/target/include/target/target.h
index 1e0ab02..1a9a028 100644
--- a/buildcc/lib/target/include/target/target.h
+++ b/buildcc/lib/target/include/target/target.h
@@ -97,6 +97,7 @@ private:
   env::optional<std::string> SelectCompiler(FileExt ext) const;
 
   // Tasks
+  bool StoreProgress();
   void EndTask();
   void TaskDeps();
 
diff --git a/buildcc/lib/target/src/target/friend/compile_pch.cpp b/buildcc/lib/target/src/target/friend/compile_pch.cpp
index a4488d8..f165b6d 100644
--- a/buildcc/lib/target/src/target/friend/compile_pch.cpp
+++ b/buildcc/lib/target/src/target/friend/compile_pch.cpp
@@ -111,6 +111,7 @@ void CompilePch::BuildCompile() {
   }
 
   if (target_.dirty_) {
+    (void)target_.StoreProgress();
     AggregateToFile(header_path_, target_.GetPchFiles());
     if (!fs::exists(source_path_)) {
       const std::string p = fmt::format("{}", source_path_);
diff --git a/buildcc/lib/target/src/target/friend/link_target.cpp b/buildcc/lib/target/src/target/friend/link_target.cpp
index fb5219a..89b4459 100644
--- a/buildcc/lib/target/src/target/friend/link_target.cpp
+++ b/buildcc/lib/target/src/target/friend/link_target.cpp
@@ -101,6 +101,7 @@ void LinkTarget::BuildLink() {
   }
 
   if (target_.dirty_) {
+    (void)target_.StoreProgress();
     bool success = env::Command::Execute(command_);
     env::assert_fatal(success, "Failed to link target");
     target_.serialization_.UpdateTargetCompiled();
diff --git a/buildcc/lib/target/src/target/tasks.cpp b/buildcc/lib/target/src/target/tasks.cpp
index ef9f3e0..0d5a2d3 100644
--- a/buildcc/lib/target/src/target/tasks.cpp
+++ b/buildcc/lib/target/src/target/tasks.cpp
@@ -91,6 +91,9 @@ void CompileObject::Task() {
       for (const auto &path_info : selected_dummy_source_files) {
         target_.serialization_.AddSource(path_info.path, path_info.hash);
       }
+      if (target_.dirty_) {
+        (void)target_.StoreProgress();
+      }
 
       for (const auto &path_info : selected_source_files) {
         std::string name = fmt::format(
@@ -147,12 +150,19 @@ void LinkTarget::Task() {
 
 namespace buildcc {
 
+// Stores what has been completed so far
+// NOTE, This is also done before a stage runs its commands, so that a build
+// interrupted in that stage is never mistaken for the previous complete one
+bool Target::StoreProgress() {
+  serialization_.UpdateStore(user_);
+  return serialization_.StoreToFile();
+}
+
 void Target::EndTask() {
   target_end_task_ = tf_.emplace([&]() {
     if (dirty_) {
       try {
-        serialization_.UpdateStore(user_);
-        env::assert_fatal(serialization_.StoreToFile(),
+        env::assert_fatal(StoreProgress(),
                           fmt::format("Store failed for {}", GetName()));
         state_.BuildCompleted();
       } catch (...) {
-- 
2.43.0


From 7e5dd8356f5dcff0c61a2ce7b176a878d83bf7e4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:35:47 +0000
Subject: [PATCH 04/34] fix: do not lose a header change made while the pch is
 being compiled

---
 buildcc/lib/target/src/target/friend/compile_object.cpp | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/buildcc/lib/target/src/target/friend/compile_object.cpp b/buildcc/lib/target/src/target/friend/compile_object.cpp
index d69cbf4..e550fac 100644
--- a/buildcc/lib/target/src/target/friend/compile_object.cpp
+++ b/buildcc/lib/target/src/target/friend/compile_object.cpp
@@ -220,7 +220,11 @@ void CompileObject::PreObjectCompile() {
   target_user_schema.sources.ComputeHashForAll();
 
   // Convert user_header_files to current_header_files
-  target_user_schema.headers.ComputeHashForAll();
+  // NOTE, Already done before compiling the pch. A header changed since then
+  // must not be recorded as up to date
+  if (!target_.GetState().ContainsPch()) {
+    target_user_schema.headers.ComputeHashForAll();
+  }
 
   // Convert user_compile_dependencies to current_compile_dependencies
   target_user_schema.compile_dependencies.ComputeHashForAll();
-- 
2.43.0


From 4760abf13c082862babf588340e8da3a8c344754 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:48:47 +0000
Subject: [PATCH 05/34] fix: rerun a generator id when its blob handler is
 added or removed

---
 .../lib/target/src/custom_generator/custom_generator.cpp    | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/buildcc/lib/target/src/custom_generator/custom_generator.cpp b/buildcc/lib/target/src/custom_generator/custom_generator.cpp
index 138bb9f..1a5fdf8 100644
--- a/buildcc/lib/target/src/custom_generator/custom_generator.cpp
+++ b/buildcc/lib/target/src/custom_generator/custom_generator.cpp
@@ -74,7 +74,11 @@ struct Comparator {
 
     bool changed = !previous_id_info.inputs.IsEqual(current_id_info.inputs) ||
                    !previous_id_info.outputs.IsEqual(current_id_info.outputs);
-    if (!changed && current_id_info.blob_handler != nullptr) {
+    if (!changed && (current_id_info.blob_handler == nullptr ||
+                     previous_id_info.userblob.empty())) {
+      // The blob handler has been added or removed since the previous run
+      changed = previous_id_info.userblob != current_id_info.userblob;
+    } else if (!changed) {
       // We only check blob handler if not changed by inputs/outputs
       // Checking blob_handler could be expensive so this optimization is made
       // to run only when changed == false
-- 
2.43.0


From 9f9488dec99968e8eca1e4987441463ef622640d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:49:36 +0000
Subject: [PATCH 06/34] fix: regenerate templates when the value of a pattern
 changes

---
 buildcc/lib/env/include/env/command.h                   | 3 +++
 buildcc/lib/target/include/target/template_generator.h  | 2 ++
 buildcc/lib/target/src/generator/template_generator.cpp | 7 ++++++-
 3 files changed, 11 insertions(+), 1 deletion(-)

diff --git a/buildcc/lib/env/include/env/command.h b/buildcc/lib/env/include/env/command.h
index c054e6b..ab862ce 100644
--- a/buildcc/lib/env/include/env/command.h
+++ b/buildcc/lib/env/include/env/command.h
@@ -85,6 +85,9 @@ public:
    * Assert Fatal if default value is not found
    */
   const std::string &GetDefaultValueByKey(const std::string &key) const;
+  const std::unordered_map<std::string, std::string> &GetDefaultValues() const {
+    return default_values_;
+  }
 
 private:
   std::unordered_map<std::string, std::string> default_values_;
diff --git a/buildcc/lib/target/include/target/template_generator.h b/buildcc/lib/target/include/target/template_generator.h
index 73c892e..2f70140 100644
--- a/buildcc/lib/target/include/target/template_generator.h
+++ b/buildcc/lib/target/include/target/template_generator.h
@@ -17,6 +17,7 @@
 #ifndef TARGET_TEMPLATE_GENERATOR_H_
 #define TARGET_TEMPLATE_GENERATOR_H_
 
+#include <map>
 #include <string_view>
 
 #include "target/custom_generator.h"
@@ -53,6 +54,7 @@ private:
 
 private:
   std::vector<TemplateInfo> template_infos_;
+  std::map<std::string, std::string> patterns_;
 };
 
 } // namespace buildcc
diff --git a/buildcc/lib/target/src/generator/template_generator.cpp b/buildcc/lib/target/src/generator/template_generator.cpp
index 45cab89..76cf8f1 100644
--- a/buildcc/lib/target/src/generator/template_generator.cpp
+++ b/buildcc/lib/target/src/generator/template_generator.cpp
@@ -62,12 +62,17 @@ std::string TemplateGenerator::Parse(const std::string &pattern) const {
  * Use `GetTaskflow` for the registered tasks
  */
 void TemplateGenerator::Build() {
+  // Outputs also depend on the values of the patterns
+  const auto &values = ConstCommand().GetDefaultValues();
+  patterns_ = std::map<std::string, std::string>(values.begin(), values.end());
+  auto blob_handler = std::make_shared<
+      TypedCustomBlobHandler<std::map<std::string, std::string>>>(patterns_);
   for (const auto &info : template_infos_) {
     std::string name = string_as_path(ParsePattern(info.input_pattern))
                            .lexically_relative(Project::GetRootDir())
                            .string();
     AddIdInfo(name, {info.input_pattern}, {info.output_pattern},
-              template_generate_cb);
+              template_generate_cb, blob_handler);
   }
   this->CustomGenerator::Build();
 }
-- 
2.43.0


From 6a9f529e593a7a677a47cdd805051b0ab58057e1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:50:24 +0000
Subject: [PATCH 07/34] fix: do not lose an input change made while a generator
 callback is running

---
 buildcc/lib/target/include/target/custom_generator.h   |  8 --------
 .../target/src/custom_generator/custom_generator.cpp   | 10 +++++-----
 2 files changed, 5 insertions(+), 13 deletions(-)

diff --git a/buildcc/lib/target/include/target/custom_generator.h b/buildcc/lib/target/include/target/custom_generator.h
index a9dec03..f17d80f 100644
--- a/buildcc/lib/target/include/target/custom_generator.h
+++ b/buildcc/lib/target/include/target/custom_generator.h
@@ -49,14 +49,6 @@ struct UserCustomGeneratorSchema : public internal::CustomGeneratorSchema {
     std::shared_ptr<CustomBlobHandler> blob_handler{nullptr};
   };
 
-  void ConvertToInternal() {
-    for (auto &[id_key, id_info] : ids) {
-      id_info.ConvertToInternal();
-      auto [_, success] = internal_ids.try_emplace(id_key, id_info);
-      env::assert_fatal(success, fmt::format("Could not save {}", id_key));
-    }
-  }
-
   std::unordered_map<IdKey, UserIdInfo> ids;
 };
 
diff --git a/buildcc/lib/target/src/custom_generator/custom_generator.cpp b/buildcc/lib/target/src/custom_generator/custom_generator.cpp
index 1a5fdf8..acd57fa 100644
--- a/buildcc/lib/target/src/custom_generator/custom_generator.cpp
+++ b/buildcc/lib/target/src/custom_generator/custom_generator.cpp
@@ -295,19 +295,19 @@ void CustomGenerator::GenerateTask() {
       // NOTE, Do not call detach otherwise this will fail
       subflow.join();
 
-      UserCustomGeneratorSchema user_final_schema;
+      // NOTE, Store the ids as they were before running the generate callbacks.
+      // Inputs changed since then must not be recorded as up to date
+      internal::CustomGeneratorSchema final_schema;
       for (const auto &[id, state] : states) {
         dirty_ = dirty_ || state.should_run;
         if (state.run_success) {
-          user_final_schema.ids.try_emplace(id, user_.ids.at(id));
+          final_schema.internal_ids.try_emplace(id, user_.ids.at(id));
         }
       }
 
       // Store
       if (dirty_) {
-        user_final_schema.ConvertToInternal();
-
-        serialization_.UpdateStore(user_final_schema);
+        serialization_.UpdateStore(final_schema);
         env::assert_fatal(serialization_.StoreToFile(),
                           fmt::format("Store failed for {}", name_));
       }
-- 
2.43.0


From 2c0e4600e2e64e186c4ebc2ff453c7d5ba23649b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:52:46 +0000
Subject: [PATCH 08/34] fix: never mistake an interrupted generator run for the
 previous complete one

---
 .../src/custom_generator/custom_generator.cpp | 29 ++++++++++++++++---
 1 file changed, 25 insertions(+), 4 deletions(-)

diff --git a/buildcc/lib/target/src/custom_generator/custom_generator.cpp b/buildcc/lib/target/src/custom_generator/custom_generator.cpp
index acd57fa..a2dbaca 100644
--- a/buildcc/lib/target/src/custom_generator/custom_generator.cpp
+++ b/buildcc/lib/target/src/custom_generator/custom_generator.cpp
@@ -16,6 +16,9 @@
 
 #include "target/custom_generator.h"
 
+#include <functional>
+#include <mutex>
+
 namespace {
 
 constexpr const char *const kGenerateTaskName = "Generate";
@@ -123,9 +126,10 @@ struct TaskFunctor {
   TaskFunctor(const std::string &id,
               UserCustomGeneratorSchema::UserIdInfo &id_info,
               const Comparator &comparator, const env::Command &command,
-              TaskState &state)
+              TaskState &state,
+              const std::function<void(const std::string &)> &before_run_cb)
       : id_(id), id_info_(id_info), comparator(comparator), command_(command),
-        state_(state) {}
+        state_(state), before_run_cb_(before_run_cb) {}
 
   void operator()() {
     if (env::get_task_state() != env::TaskState::SUCCESS) {
@@ -139,6 +143,7 @@ struct TaskFunctor {
 
       // Invoke generator callback
       if (state_.should_run) {
+        before_run_cb_(id_);
         const auto input_paths = id_info_.inputs.GetPaths();
         CustomGeneratorContext ctx(command_, input_paths,
                                    id_info_.outputs.GetPaths(),
@@ -162,6 +167,7 @@ private:
   const env::Command &command_;
 
   TaskState &state_;
+  const std::function<void(const std::string &)> &before_run_cb_;
 };
 
 bool ComputeBuild(const internal::CustomGeneratorSerialization &serialization,
@@ -277,18 +283,33 @@ void CustomGenerator::GenerateTask() {
 
       std::unordered_map<std::string, TaskState> states;
 
+      // An id is dropped from the stored ids before it is run, so that an
+      // interrupted run is never mistaken for the previous complete one
+      std::mutex pending_mutex;
+      internal::CustomGeneratorSchema pending = serialization_.GetLoad();
+      const std::function<void(const std::string &)> before_run_cb =
+          [&](const std::string &id) {
+            std::scoped_lock guard(pending_mutex);
+            if (pending.internal_ids.erase(id) != 0) {
+              serialization_.UpdateStore(pending);
+              (void)serialization_.StoreToFile();
+            }
+          };
+
       // Create runner for each added/updated id
       for (const auto &id : comparator.GetAddedIds()) {
         states.try_emplace(id, TaskState());
         auto &id_info = user_.ids.at(id);
-        TaskFunctor functor(id, id_info, comparator, command_, states.at(id));
+        TaskFunctor functor(id, id_info, comparator, command_, states.at(id),
+                            before_run_cb);
         subflow.emplace(functor).name(id);
       }
 
       for (const auto &id : comparator.GetCheckLaterIds()) {
         states.try_emplace(id, TaskState());
         auto &id_info = user_.ids.at(id);
-        TaskFunctor functor(id, id_info, comparator, command_, states.at(id));
+        TaskFunctor functor(id, id_info, comparator, command_, states.at(id),
+                            before_run_cb);
         subflow.emplace(functor).name(id);
       }
 
-- 
2.43.0


From b43268fb63d975251063b219c09bf23c720849f3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:56:29 +0000
Subject: [PATCH 09/34] fix: keep objects of out of root sources apart

Every '.' of the relative path was converted to '_', not only '..' components,
so ../lib.v1/x.c and ../lib_v1/x.c were compiled to the same object.
---
 buildcc/lib/target/src/target/friend/compile_object.cpp | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/buildcc/lib/target/src/target/friend/compile_object.cpp b/buildcc/lib/target/src/target/friend/compile_object.cpp
index e550fac..fe0e962 100644
--- a/buildcc/lib/target/src/target/friend/compile_object.cpp
+++ b/buildcc/lib/target/src/target/friend/compile_object.cpp
@@ -123,7 +123,7 @@ CompileObject::ConstructObjectPath(const fs::path &absolute_source_file) const {
   // - Convert .. to __
   // NOTE, Similar to how CMake handles out of root files
   std::string relstr = relative.string();
-  if (relstr.find("..") != std::string::npos) {
+  if (!relative.empty() && *relative.begin() == "..") {
     env::log_warning(
         __FUNCTION__,
         fmt::format("Out of Root Source detected '{}' -> '{}'. Use "
@@ -131,11 +131,14 @@ CompileObject::ConstructObjectPath(const fs::path &absolute_source_file) const {
                     "path -> absolute target build path. By "
                     "default converts '..' to '__'",
                     absolute_source_file.string(), relstr));
-    std::replace(relstr.begin(), relstr.end(), '.', '_');
     // Converts above
     // .. / file.cpp -> __ / file.cpp
     // .. / folder / file.cpp -> __ / folder / file.cpp
-    relative = relstr;
+    fs::path converted;
+    for (const auto &component : relative) {
+      converted /= (component == "..") ? fs::path("__") : component;
+    }
+    relative = converted;
 
     // TODO, path replacement found
     // * API
-- 
2.43.0


From eeb2bede840c208d8e0f09e0c3985b3030f40035 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:56:29 +0000
Subject: [PATCH 10/34] fix: keep objects apart when the target root is not
 normalized

With TargetEnv("..") sources below the project root have no lexical relation to
<root>/.., and sources of the same name in different folders were compiled to the
same object.
---
 buildcc/lib/target/src/target/friend/compile_object.cpp | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/buildcc/lib/target/src/target/friend/compile_object.cpp b/buildcc/lib/target/src/target/friend/compile_object.cpp
index fe0e962..7b002af 100644
--- a/buildcc/lib/target/src/target/friend/compile_object.cpp
+++ b/buildcc/lib/target/src/target/friend/compile_object.cpp
@@ -113,8 +113,10 @@ CompileObject::ConstructObjectPath(const fs::path &absolute_source_file) const {
   // Expects to convert
   // 1. {project_root_dir} / file.cpp -> file.cpp
   // 2. {project_root_dir} / folder / file.cpp -> folder / file.cpp
-  fs::path relative =
-      absolute_source_file.lexically_relative(target_.GetTargetRootDir());
+  // NOTE, Without lexically_normal a root such as TargetEnv("..") does not
+  // relate to its sources
+  fs::path relative = absolute_source_file.lexically_relative(
+      target_.GetTargetRootDir().lexically_normal());
 
   // Expects to convert
   // 1. {project_root_dir} / .. / file.cpp -> .. / file.cpp
-- 
2.43.0


From 7881a92dbe1893036568ce06615112cffa3b40d9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:56:29 +0000
Subject: [PATCH 11/34] fix: create the pch source when the build directory
 contains spaces

The path for display, with quotes, was used as the name of the file.
---
 buildcc/lib/target/src/target/friend/compile_pch.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/buildcc/lib/target/src/target/friend/compile_pch.cpp b/buildcc/lib/target/src/target/friend/compile_pch.cpp
index f165b6d..64656ac 100644
--- a/buildcc/lib/target/src/target/friend/compile_pch.cpp
+++ b/buildcc/lib/target/src/target/friend/compile_pch.cpp
@@ -114,7 +114,7 @@ void CompilePch::BuildCompile() {
     (void)target_.StoreProgress();
     AggregateToFile(header_path_, target_.GetPchFiles());
     if (!fs::exists(source_path_)) {
-      const std::string p = fmt::format("{}", source_path_);
+      const std::string p = path_as_string(source_path_);
       const bool save =
           env::save_file(p.c_str(), {"//Generated by BuildCC"}, false);
       env::assert_fatal(save, fmt::format("Could not save {}", p));
-- 
2.43.0


From d58aa8d2c38968a5f5599ca364dc969807aa7f0a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:56:44 +0000
Subject: [PATCH 12/34] fix: keep paths with spaces as one argument of compile
 and link commands

Source inputs, include and library directories and library paths were not
quoted, unlike outputs, objects and executables.
---
 buildcc/lib/target/include/target/common/util.h         | 7 +++++++
 buildcc/lib/target/src/target/build.cpp                 | 8 ++++----
 buildcc/lib/target/src/target/friend/compile_object.cpp | 3 ++-
 buildcc/lib/target/src/target/friend/link_target.cpp    | 3 ++-
 4 files changed, 15 insertions(+), 6 deletions(-)

diff --git a/buildcc/lib/target/include/target/common/util.h b/buildcc/lib/target/include/target/common/util.h
index 30191e8..38f9d44 100644
--- a/buildcc/lib/target/include/target/common/util.h
+++ b/buildcc/lib/target/include/target/common/util.h
@@ -39,6 +39,13 @@ std::string aggregate_with_prefix(const std::string &prefix, const T &list) {
   return aggregate(agg_list);
 }
 
+// Aggregates paths such that each of them is one argument of a command
+inline std::string aggregate_paths(const std::vector<std::string> &paths,
+                                   const std::string &prefix = "") {
+  return aggregate_with_prefix(
+      prefix, std::vector<fs::path>(paths.begin(), paths.end()));
+}
+
 } // namespace buildcc::internal
 
 #endif
diff --git a/buildcc/lib/target/src/target/build.cpp b/buildcc/lib/target/src/target/build.cpp
index 18ae8fa..f8010ab 100644
--- a/buildcc/lib/target/src/target/build.cpp
+++ b/buildcc/lib/target/src/target/build.cpp
@@ -72,10 +72,10 @@ void Target::Build() {
   // Target default arguments
   command_.AddDefaultArguments({
       {kIncludeDirs,
-       internal::aggregate_with_prefix<std::vector<std::string>>(
-           toolchain_.GetConfig().prefix_include_dir, GetIncludeDirs())},
-      {kLibDirs, internal::aggregate_with_prefix<std::vector<std::string>>(
-                     toolchain_.GetConfig().prefix_lib_dir, GetLibDirs())},
+       internal::aggregate_paths(GetIncludeDirs(),
+                                 toolchain_.GetConfig().prefix_include_dir)},
+      {kLibDirs, internal::aggregate_paths(
+                     GetLibDirs(), toolchain_.GetConfig().prefix_lib_dir)},
       {kPreprocessorFlags, internal::aggregate(GetPreprocessorFlags())},
       {kCommonCompileFlags, internal::aggregate(GetCommonCompileFlags())},
       //  TODO, Cache more flags here
diff --git a/buildcc/lib/target/src/target/friend/compile_object.cpp b/buildcc/lib/target/src/target/friend/compile_object.cpp
index 7b002af..7f55a9e 100644
--- a/buildcc/lib/target/src/target/friend/compile_object.cpp
+++ b/buildcc/lib/target/src/target/friend/compile_object.cpp
@@ -44,7 +44,8 @@ void CompileObject::CacheCompileCommands() {
 
     const std::string output =
         fmt::format("{}", GetObjectData(absolute_current_source).output);
-    const std::string input = fmt::format("{}", absolute_current_source);
+    const std::string input =
+        fmt::format("{}", fs::path(absolute_current_source));
 
     const auto type =
         target_.toolchain_.GetConfig().GetFileExt(absolute_current_source);
diff --git a/buildcc/lib/target/src/target/friend/link_target.cpp b/buildcc/lib/target/src/target/friend/link_target.cpp
index 89b4459..09fcc9f 100644
--- a/buildcc/lib/target/src/target/friend/link_target.cpp
+++ b/buildcc/lib/target/src/target/friend/link_target.cpp
@@ -42,7 +42,8 @@ void LinkTarget::CacheLinkCommand() {
           {kCompiledSources, aggregated_compiled_sources},
           {kLibDeps,
            fmt::format("{} {}",
-                       internal::aggregate(target_user_schema.libs.GetPaths()),
+                       internal::aggregate_paths(
+                           target_user_schema.libs.GetPaths()),
                        internal::aggregate(target_user_schema.external_libs))},
       });
 }
-- 
2.43.0


From 9e153dcc4c26994ffaadaf831e367555809dce10 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:56:44 +0000
Subject: [PATCH 13/34] fix: compile a source that has been added more than
 once only once

Such a source was compiled by two tasks to the same object at the same time and
was considered as newly added by every following build.
---
 buildcc/lib/target/src/target/build.cpp |  3 +++
 buildcc/schema/include/schema/path.h    | 12 ++++++++++++
 2 files changed, 15 insertions(+)

diff --git a/buildcc/lib/target/src/target/build.cpp b/buildcc/lib/target/src/target/build.cpp
index f8010ab..8d8f5e2 100644
--- a/buildcc/lib/target/src/target/build.cpp
+++ b/buildcc/lib/target/src/target/build.cpp
@@ -59,6 +59,9 @@ void Target::Build() {
     state_.PchDetected();
   }
 
+  // A source added more than once is still compiled only once
+  user_.sources.RemoveDuplicates();
+
   // Source - Object relation
   // Source state
   for (const auto &source_info : user_.sources.GetPathInfos()) {
diff --git a/buildcc/schema/include/schema/path.h b/buildcc/schema/include/schema/path.h
index 7509173..20fcc12 100644
--- a/buildcc/schema/include/schema/path.h
+++ b/buildcc/schema/include/schema/path.h
@@ -173,6 +173,18 @@ public:
 
   // TODO, Create a move version of Insert(PathInfoList &&other)
 
+  // Keeps the first of every path
+  void RemoveDuplicates() {
+    std::unordered_set<std::string> seen;
+    std::vector<PathInfo> unique_infos;
+    for (auto &info : infos_) {
+      if (seen.insert(info.path).second) {
+        unique_infos.emplace_back(std::move(info));
+      }
+    }
+    infos_ = std::move(unique_infos);
+  }
+
   void ComputeHashForAll() {
     for (auto &info : infos_) {
       info.hash = ComputeHash(info.path);
-- 
2.43.0


From 1878c41c3e6672503d40c1cc3465381462413df4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:10:05 +0000
Subject: [PATCH 14/34] fix: report a file that could not be written completely

Up to a buffer of data is only written when the file is closed, after success had
been reported (for example on a full disk).
---
 buildcc/lib/env/include/env/util.h | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/buildcc/lib/env/include/env/util.h b/buildcc/lib/env/include/env/util.h
index 45a7144..97f0a1b 100644
--- a/buildcc/lib/env/include/env/util.h
+++ b/buildcc/lib/env/include/env/util.h
@@ -58,8 +58,10 @@ inline bool save_file(const char *name, const char *buf, size_t len,
   }
 
   // * 1
-  std::ostream &os = ofs.write(buf, len);
-  return !os.bad();
+  ofs.write(buf, len);
+  // NOTE, Data is buffered and could only fail when it is really written
+  ofs.close();
+  return !ofs.fail();
 }
 
 inline bool save_file(const char *name, const std::string &buf, bool binary) {
-- 
2.43.0


From 98b2152bcc8952b5fa1ab15475b23e97da37b9a1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:10:05 +0000
Subject: [PATCH 15/34] fix: reject storing two objects with the same
 identifier

The second object was handed out but not stored: it was never destroyed and the
identifier kept referring to the first one.
---
 buildcc/lib/env/include/env/storage.h | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/buildcc/lib/env/include/env/storage.h b/buildcc/lib/env/include/env/storage.h
index b5407df..bb60486 100644
--- a/buildcc/lib/env/include/env/storage.h
+++ b/buildcc/lib/env/include/env/storage.h
@@ -38,6 +38,8 @@ public:
 
   template <typename T, typename... Params>
   T &Add(const std::string &identifier, Params &&...params) {
+    env::assert_fatal(!Contains(identifier),
+                      fmt::format("'{}' already exists", identifier));
     T *ptr = new T(std::forward<Params>(params)...);
     env::assert_fatal(ptr != nullptr, "System out of memory");
 
-- 
2.43.0


From f9a6a9c1a111216f0e7cc91b6a0286632a8cfba2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:22:28 +0000
Subject: [PATCH 16/34] fix: skip toolchain search paths that cannot be
 inspected

---
 buildcc/lib/toolchain/src/api/toolchain_find.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/buildcc/lib/toolchain/src/api/toolchain_find.cpp b/buildcc/lib/toolchain/src/api/toolchain_find.cpp
index 9c1e621..c356a5f 100644
--- a/buildcc/lib/toolchain/src/api/toolchain_find.cpp
+++ b/buildcc/lib/toolchain/src/api/toolchain_find.cpp
@@ -83,11 +83,11 @@ ToolchainFind<T>::Find(const ToolchainFindConfig &config) const {
   // - Find ALL Toolchain binaries in ONE directory
   // - If matched, store that path
   for (const auto &search_path : absolute_search_paths) {
-    if (!fs::exists(search_path)) {
+    std::error_code ec;
+    if (!fs::exists(search_path, ec)) {
       continue;
     }
 
-    std::error_code ec;
     auto directory_iterator = fs::directory_iterator(search_path, ec);
     if (ec) {
       continue;
-- 
2.43.0


From 012f765585ad9b8a496e1650c5f34033daa718e6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:22:28 +0000
Subject: [PATCH 17/34] fix: match toolchain executables by their complete file
 name

---
 buildcc/lib/toolchain/src/api/toolchain_find.cpp | 15 ++++++++++-----
 1 file changed, 10 insertions(+), 5 deletions(-)

diff --git a/buildcc/lib/toolchain/src/api/toolchain_find.cpp b/buildcc/lib/toolchain/src/api/toolchain_find.cpp
index c356a5f..00a1be9 100644
--- a/buildcc/lib/toolchain/src/api/toolchain_find.cpp
+++ b/buildcc/lib/toolchain/src/api/toolchain_find.cpp
@@ -42,18 +42,23 @@ std::vector<std::string> ParseEnvVarToPaths(const std::string &env_var) {
 bool ContainsToolchainExecutables(
     const fs::directory_iterator &directory_iterator,
     const buildcc::ToolchainExecutables &executables) {
-  std::unordered_set<std::string> exes(
-      {executables.assembler, executables.c_compiler, executables.cpp_compiler,
-       executables.archiver, executables.linker});
+  constexpr const char *os_executable_ext =
+      buildcc::env::get_os_executable_extension();
+  buildcc::env::assert_fatal<os_executable_ext != nullptr>("OS not supported");
+  std::unordered_set<std::string> exes;
+  for (const auto &exe :
+       {executables.assembler, executables.c_compiler, executables.cpp_compiler,
+        executables.archiver, executables.linker}) {
+    exes.insert(exe + os_executable_ext);
+  }
   std::error_code ec;
   for (const auto &dir_iter : directory_iterator) {
     bool is_regular_file = dir_iter.is_regular_file(ec);
     if (!is_regular_file || ec) {
       continue;
     }
-    const auto &filename_without_ext = dir_iter.path().stem().string();
     // NOTE, Must match the entire filename
-    exes.erase(filename_without_ext);
+    exes.erase(dir_iter.path().filename().string());
   }
   return exes.empty();
 }
-- 
2.43.0


From 291f32e04ab635ed7af701420b3dfd4ba7d6b8a4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:22:28 +0000
Subject: [PATCH 18/34] fix: use the complete output of the compiler version
 query

---
 buildcc/toolchains/src/toolchain_infos.cpp | 14 ++++++++++++--
 1 file changed, 12 insertions(+), 2 deletions(-)

diff --git a/buildcc/toolchains/src/toolchain_infos.cpp b/buildcc/toolchains/src/toolchain_infos.cpp
index 1b7a1fc..87a84b0 100644
--- a/buildcc/toolchains/src/toolchain_infos.cpp
+++ b/buildcc/toolchains/src/toolchain_infos.cpp
@@ -19,6 +19,7 @@
 #include "env/assert_fatal.h"
 #include "env/command.h"
 #include "env/logging.h"
+#include "env/util.h"
 
 namespace {
 
@@ -38,6 +39,15 @@ buildcc::ToolchainConfig GetGccToolchainConfig() {
   return config;
 }
 
+// NOTE, Output is received in chunks and ends with a newline
+std::string JoinOutput(const std::vector<std::string> &stdout_data) {
+  std::string output;
+  for (const auto &chunk : stdout_data) {
+    output += chunk;
+  }
+  return buildcc::env::trim(output);
+}
+
 buildcc::env::optional<std::string>
 GetGccCompilerVersion(const buildcc::env::Command &command) {
   std::vector<std::string> stdout_data;
@@ -46,7 +56,7 @@ GetGccCompilerVersion(const buildcc::env::Command &command) {
   if (!executed || stdout_data.empty()) {
     return {};
   }
-  return stdout_data[0];
+  return JoinOutput(stdout_data);
 }
 
 buildcc::env::optional<std::string>
@@ -57,7 +67,7 @@ GetGccTargetArchitecture(const buildcc::env::Command &command) {
   if (!executed || stdout_data.empty()) {
     return {};
   }
-  return stdout_data[0];
+  return JoinOutput(stdout_data);
 }
 
 buildcc::env::optional<buildcc::ToolchainCompilerInfo>
-- 
2.43.0


From 0b7a9aca76f5f075ca5c0822e850c6200d1d56cc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:22:28 +0000
Subject: [PATCH 19/34] fix: query compilers in directories with spaces

---
 buildcc/toolchains/src/toolchain_infos.cpp | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/buildcc/toolchains/src/toolchain_infos.cpp b/buildcc/toolchains/src/toolchain_infos.cpp
index 87a84b0..86e2cd5 100644
--- a/buildcc/toolchains/src/toolchain_infos.cpp
+++ b/buildcc/toolchains/src/toolchain_infos.cpp
@@ -21,6 +21,8 @@
 #include "env/logging.h"
 #include "env/util.h"
 
+#include "schema/path.h"
+
 namespace {
 
 // GCC
@@ -73,7 +75,8 @@ GetGccTargetArchitecture(const buildcc::env::Command &command) {
 buildcc::env::optional<buildcc::ToolchainCompilerInfo>
 GetGccToolchainInfo(const buildcc::ToolchainExecutables &executables) {
   buildcc::env::Command command;
-  command.AddDefaultArgument("compiler", executables.cpp_compiler);
+  command.AddDefaultArgument(
+      "compiler", fmt::format("{}", fs::path(executables.cpp_compiler)));
 
   auto op_compiler_version = GetGccCompilerVersion(command);
   auto op_target_arch = GetGccTargetArchitecture(command);
-- 
2.43.0


From 5c0ce282aecb93e660f0ac52831849f2b89217e4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:23:38 +0000
Subject: [PATCH 20/34] fix: use the toolchain configuration provided by the
 user

---
 buildcc/lib/args/include/args/args.h                     | 6 +++---
 buildcc/toolchains/include/toolchains/toolchain_custom.h | 4 +++-
 buildcc/toolchains/include/toolchains/toolchain_gcc.h    | 5 ++++-
 buildcc/toolchains/include/toolchains/toolchain_mingw.h  | 5 ++++-
 buildcc/toolchains/include/toolchains/toolchain_msvc.h   | 5 ++++-
 buildcc/toolchains/src/toolchain_aggregate.cpp           | 1 -
 buildcc/toolchains/src/toolchain_gcc.cpp                 | 2 --
 buildcc/toolchains/src/toolchain_msvc.cpp                | 1 -
 8 files changed, 18 insertions(+), 11 deletions(-)

diff --git a/buildcc/lib/args/include/args/args.h b/buildcc/lib/args/include/args/args.h
index bb32faf..25aa95e 100644
--- a/buildcc/lib/args/include/args/args.h
+++ b/buildcc/lib/args/include/args/args.h
@@ -51,10 +51,10 @@ class ArgToolchain {
 public:
   ArgToolchain()
       : ArgToolchain(ToolchainId::Undefined, "", ToolchainExecutables(),
-                     ToolchainConfig()) {}
+                     {}) {}
   ArgToolchain(ToolchainId initial_id, const std::string &initial_name,
                const ToolchainExecutables &initial_executables,
-               const ToolchainConfig &initial_config)
+               const env::optional<ToolchainConfig> &initial_config)
       : id(initial_id), name(initial_name), executables(initial_executables),
         config(initial_config) {}
 
@@ -67,7 +67,7 @@ public:
   ToolchainId id;
   std::string name;
   ToolchainExecutables executables;
-  ToolchainConfig config;
+  env::optional<ToolchainConfig> config; ///< Toolchain default when not set
 };
 
 // NOTE, Incomplete without pch_compile_command
diff --git a/buildcc/toolchains/include/toolchains/toolchain_custom.h b/buildcc/toolchains/include/toolchains/toolchain_custom.h
index dd43dfc..95f5ac7 100644
--- a/buildcc/toolchains/include/toolchains/toolchain_custom.h
+++ b/buildcc/toolchains/include/toolchains/toolchain_custom.h
@@ -19,6 +19,8 @@
 
 #include "toolchain/toolchain.h"
 
+#include "toolchain_infos.h"
+
 namespace buildcc {
 
 class Toolchain_custom : public Toolchain {
@@ -28,7 +30,7 @@ public:
                    const ToolchainExecutables &executables,
                    const env::optional<ToolchainConfig> &op_config = {})
       : Toolchain(id, name, executables,
-                  op_config.value_or(ToolchainConfig())) {
+                  op_config.value_or(GlobalToolchainMetadata::GetConfig(id))) {
     Initialize();
   }
 
diff --git a/buildcc/toolchains/include/toolchains/toolchain_gcc.h b/buildcc/toolchains/include/toolchains/toolchain_gcc.h
index 60b1505..1af3c0a 100644
--- a/buildcc/toolchains/include/toolchains/toolchain_gcc.h
+++ b/buildcc/toolchains/include/toolchains/toolchain_gcc.h
@@ -19,6 +19,8 @@
 
 #include "toolchain/toolchain.h"
 
+#include "toolchain_infos.h"
+
 namespace buildcc {
 
 /**
@@ -40,7 +42,8 @@ public:
       : Toolchain(ToolchainId::Gcc, name,
                   op_executables.value_or(
                       ToolchainExecutables("as", "gcc", "g++", "ar", "ld")),
-                  op_config.value_or(ToolchainConfig())) {
+                  op_config.value_or(
+                      GlobalToolchainMetadata::GetConfig(ToolchainId::Gcc))) {
     Initialize();
   }
 
diff --git a/buildcc/toolchains/include/toolchains/toolchain_mingw.h b/buildcc/toolchains/include/toolchains/toolchain_mingw.h
index 4b01916..2a88917 100644
--- a/buildcc/toolchains/include/toolchains/toolchain_mingw.h
+++ b/buildcc/toolchains/include/toolchains/toolchain_mingw.h
@@ -19,6 +19,8 @@
 
 #include "toolchain/toolchain.h"
 
+#include "toolchain_infos.h"
+
 #include "toolchain_gcc.h"
 
 namespace buildcc {
@@ -43,7 +45,8 @@ public:
       : Toolchain(ToolchainId::MinGW, name,
                   op_executables.value_or(
                       ToolchainExecutables("as", "gcc", "g++", "ar", "ld")),
-                  op_config.value_or(ToolchainConfig())) {
+                  op_config.value_or(
+                      GlobalToolchainMetadata::GetConfig(ToolchainId::MinGW))) {
     Initialize();
   }
 
diff --git a/buildcc/toolchains/include/toolchains/toolchain_msvc.h b/buildcc/toolchains/include/toolchains/toolchain_msvc.h
index 8fbb8fd..7d46254 100644
--- a/buildcc/toolchains/include/toolchains/toolchain_msvc.h
+++ b/buildcc/toolchains/include/toolchains/toolchain_msvc.h
@@ -19,6 +19,8 @@
 
 #include "toolchain/toolchain.h"
 
+#include "toolchain_infos.h"
+
 namespace buildcc {
 
 /**
@@ -40,7 +42,8 @@ public:
       : Toolchain(ToolchainId::Msvc, name,
                   op_executables.value_or(
                       ToolchainExecutables("cl", "cl", "cl", "lib", "link")),
-                  op_config.value_or(ToolchainConfig())) {
+                  op_config.value_or(
+                      GlobalToolchainMetadata::GetConfig(ToolchainId::Msvc))) {
     Initialize();
   }
 
diff --git a/buildcc/toolchains/src/toolchain_aggregate.cpp b/buildcc/toolchains/src/toolchain_aggregate.cpp
index 6a9526b..4715b9b 100644
--- a/buildcc/toolchains/src/toolchain_aggregate.cpp
+++ b/buildcc/toolchains/src/toolchain_aggregate.cpp
@@ -44,7 +44,6 @@ namespace buildcc {
 
 void Toolchain_custom::Initialize() {
   auto id = GetId();
-  RefConfig() = GlobalToolchainMetadata::GetConfig(id);
   SetToolchainInfoCb(GlobalToolchainMetadata::GetInfoCb(id));
 }
 
diff --git a/buildcc/toolchains/src/toolchain_gcc.cpp b/buildcc/toolchains/src/toolchain_gcc.cpp
index 19b7240..6f141bf 100644
--- a/buildcc/toolchains/src/toolchain_gcc.cpp
+++ b/buildcc/toolchains/src/toolchain_gcc.cpp
@@ -24,12 +24,10 @@
 namespace buildcc {
 
 void Toolchain_gcc::Initialize() {
-  RefConfig() = GlobalToolchainMetadata::GetConfig(ToolchainId::Gcc);
   SetToolchainInfoCb(GlobalToolchainMetadata::GetInfoCb(ToolchainId::Gcc));
 }
 
 void Toolchain_mingw::Initialize() {
-  RefConfig() = GlobalToolchainMetadata::GetConfig(ToolchainId::MinGW);
   SetToolchainInfoCb(GlobalToolchainMetadata::GetInfoCb(ToolchainId::MinGW));
 }
 
diff --git a/buildcc/toolchains/src/toolchain_msvc.cpp b/buildcc/toolchains/src/toolchain_msvc.cpp
index ddb047e..6ee3498 100644
--- a/buildcc/toolchains/src/toolchain_msvc.cpp
+++ b/buildcc/toolchains/src/toolchain_msvc.cpp
@@ -21,7 +21,6 @@
 namespace buildcc {
 
 void Toolchain_msvc::Initialize() {
-  RefConfig() = GlobalToolchainMetadata::GetConfig(ToolchainId::Msvc);
   SetToolchainInfoCb(GlobalToolchainMetadata::GetInfoCb(ToolchainId::Msvc));
 }
 
-- 
2.43.0


From 066dc4178de49f19ed0af126fa0558fa782dbb68 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:33:20 +0000
Subject: [PATCH 21/34] fix: report failing tests once all of them have been
 run

---
 buildcc/lib/args/src/tasks.cpp | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/buildcc/lib/args/src/tasks.cpp b/buildcc/lib/args/src/tasks.cpp
index 8328671..1af79a4 100644
--- a/buildcc/lib/args/src/tasks.cpp
+++ b/buildcc/lib/args/src/tasks.cpp
@@ -44,11 +44,19 @@ void Reg::Instance::RunTest() {
   tf::Taskflow test_tf{"Tests"};
   test_tf.for_each(
       tests_.begin(), tests_.end(),
-      [](const std::pair<std::string, TestInfo> &p) { p.second.TestRunner(); });
+      [](const std::pair<std::string, TestInfo> &p) {
+        try {
+          p.second.TestRunner();
+        } catch (...) {
+          env::set_task_state(env::TaskState::FAILURE);
+        }
+      });
 
   tf::Executor executor;
   executor.run(test_tf);
   executor.wait_for_all();
+  env::assert_fatal(env::get_task_state() == env::TaskState::SUCCESS,
+                    "Tests are not successful!");
 }
 
 } // namespace buildcc
-- 
2.43.0


From fd6a04599d464bd09e53ed38f3975ec26c82b269 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:33:20 +0000
Subject: [PATCH 22/34] fix: reject a builder that depends on itself

---
 buildcc/lib/args/src/register.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/buildcc/lib/args/src/register.cpp b/buildcc/lib/args/src/register.cpp
index e141541..5aeee90 100644
--- a/buildcc/lib/args/src/register.cpp
+++ b/buildcc/lib/args/src/register.cpp
@@ -157,6 +157,8 @@ void Reg::Instance::Dep(const internal::BuilderInterface &target,
                     "dependency before Instance::Dep API");
 
   const std::string &dep_unique_id = dependency.GetUniqueId();
+  env::assert_fatal(target.GetUniqueId() != dep_unique_id,
+                    fmt::format("'{}' cannot depend on itself", dep_unique_id));
   DepDetectDuplicate(target_iter->second, dep_unique_id);
   DepDetectCyclicDependency(target_iter->second, dep_unique_id);
 
-- 
2.43.0


From 2daef6268040d808d27b678fab8eba862d1ed8aa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:33:20 +0000
Subject: [PATCH 23/34] fix: visit every task once when detecting cyclic
 dependencies

---
 buildcc/lib/args/src/register.cpp | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/buildcc/lib/args/src/register.cpp b/buildcc/lib/args/src/register.cpp
index 5aeee90..1acd7d3 100644
--- a/buildcc/lib/args/src/register.cpp
+++ b/buildcc/lib/args/src/register.cpp
@@ -18,6 +18,7 @@
 
 #include <filesystem>
 #include <queue>
+#include <unordered_set>
 
 #include "fmt/format.h"
 
@@ -46,6 +47,7 @@ void DepDetectDuplicate(const tf::Task &target_task, const std::string &match) {
 void DepDetectCyclicDependency(const tf::Task &target_task,
                                const std::string &match) {
   std::queue<tf::Task> taskqueue;
+  std::unordered_set<std::string> visited;
   taskqueue.push(target_task);
 
   while (!taskqueue.empty()) {
@@ -54,7 +56,9 @@ void DepDetectCyclicDependency(const tf::Task &target_task,
 
     current_task.for_each_successor([&](const tf::Task &t) {
       buildcc::env::log_trace("for_each_successor", t.name());
-      taskqueue.push(t);
+      if (visited.insert(t.name()).second) {
+        taskqueue.push(t);
+      }
       buildcc::env::assert_fatal(
           !(t.name() == match),
           fmt::format("Cyclic dependency detected when adding '{}'", t.name()));
-- 
2.43.0


From 30c8894f1ede402d45718f0ae7de0a59c7c66453 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:38:16 +0000
Subject: [PATCH 24/34] fix: read the task state under its lock

---
 buildcc/lib/env/src/task_state.cpp | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/buildcc/lib/env/src/task_state.cpp b/buildcc/lib/env/src/task_state.cpp
index d0b14a6..270ed4f 100644
--- a/buildcc/lib/env/src/task_state.cpp
+++ b/buildcc/lib/env/src/task_state.cpp
@@ -36,6 +36,9 @@ void set_task_state(TaskState state) {
   current_state = state;
 }
 
-TaskState get_task_state() { return current_state; }
+TaskState get_task_state() {
+  std::lock_guard<std::mutex> guard(current_state_mutex);
+  return current_state;
+}
 
 } // namespace buildcc::env
-- 
2.43.0


From 816ccd8bbef70ee8216dc7ab5ed6dafe029de2c0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:54:00 +0000
Subject: [PATCH 25/34] fix: write a valid compile_commands.json when commands
 contain quotes or backslashes

---
 .../plugins/src/clang_compile_commands.cpp    | 33 +++++--------------
 1 file changed, 8 insertions(+), 25 deletions(-)

diff --git a/buildcc/plugins/src/clang_compile_commands.cpp b/buildcc/plugins/src/clang_compile_commands.cpp
index c1ef59f..7133c5d 100644
--- a/buildcc/plugins/src/clang_compile_commands.cpp
+++ b/buildcc/plugins/src/clang_compile_commands.cpp
@@ -23,21 +23,7 @@
 #include "env/util.h"
 
 // third party
-#include "fmt/format.h"
-#include "fmt/ranges.h"
-
-namespace {
-
-// clang-format off
-constexpr const char *const clang_compile_command_format =
-R"({{
-  "directory": "{directory}",
-  "command": "{command}",
-  "file": "{file}"
-}})";
-// clang-format on
-
-} // namespace
+#include "nlohmann/json.hpp"
 
 namespace buildcc::plugin {
 
@@ -57,7 +43,7 @@ void ClangCompileCommands::Generate() {
   }
   env::log_trace("ClangCompileCommands", "Generate -> true");
 
-  std::vector<std::string> compile_command_list;
+  nlohmann::ordered_json compile_command_list = nlohmann::ordered_json::array();
 
   for (const auto *t : targets_) {
     const auto &source_files = t->GetSourceFiles();
@@ -65,19 +51,16 @@ void ClangCompileCommands::Generate() {
       // DONE, Get source list name
       // DONE, Get std::vector<std::string> CompileCommand
       // DONE, Get intermediate directory from env
-      std::string sf = fmt::format("{}", source);
-      const std::string &command = t->GetCompileCommand(source);
-      std::string directory = fmt::format("{}", Project::GetBuildDir());
-
-      std::string temp = fmt::format(
-          clang_compile_command_format, fmt::arg("directory", directory),
-          fmt::arg("command", command), fmt::arg("file", sf));
-      compile_command_list.push_back(temp);
+      compile_command_list.push_back({
+          {"directory", path_as_string(Project::GetBuildDir())},
+          {"command", t->GetCompileCommand(source)},
+          {"file", path_as_string(source)},
+      });
     }
   }
 
   std::string compile_commands =
-      fmt::format("[\n{}\n]", fmt::join(compile_command_list, ",\n"));
+      compile_command_list.dump(2, ' ', false, json::error_handler_t::replace);
 
   // DONE, Convert to json
   // DONE, Save file
-- 
2.43.0


From 941ba035579e0c95e72cdf1414ead6038554aa3e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:54:00 +0000
Subject: [PATCH 26/34] fix: find only files when searching for host
 executables

---
 buildcc/plugins/src/buildcc_find.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/buildcc/plugins/src/buildcc_find.cpp b/buildcc/plugins/src/buildcc_find.cpp
index d60eaa3..573cf3c 100644
--- a/buildcc/plugins/src/buildcc_find.cpp
+++ b/buildcc/plugins/src/buildcc_find.cpp
@@ -63,7 +63,8 @@ std::vector<fs::path> SearchEnv(const std::string &host_env_var,
     }
 
     for (const auto &dir_entry : dir_iter) {
-      if (!dir_entry.path().has_filename()) {
+      std::error_code file_errcode;
+      if (!dir_entry.is_regular_file(file_errcode)) {
         continue;
       }
 
-- 
2.43.0


From 00e6d6779f88752e187f1cb86224c30841f11277 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:57:28 +0000
Subject: [PATCH 27/34] fix: do not rebuild an unchanged script on every
 buildexe run

---
 buildexe/src/build_env_setup.cpp | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/buildexe/src/build_env_setup.cpp b/buildexe/src/build_env_setup.cpp
index d36360e..c9a528e 100644
--- a/buildexe/src/build_env_setup.cpp
+++ b/buildexe/src/build_env_setup.cpp
@@ -188,7 +188,15 @@ struct BuildExeLibDir {{
         user_target.GetTargetBuildDir() / "buildexe_lib_dirs.h";
     std::string data = fmt::format(
         kLibDirsFormat, fmt::arg("lib_dirs", fmt::join(lib_constants, "\r\n")));
-    env::save_file(lib_dirs_filename.string().c_str(), data, false);
+    // NOTE, Only write when required, otherwise the user target is always rebuilt
+    std::string current_data;
+    const bool loaded = env::load_file(lib_dirs_filename.string().c_str(), false,
+                                       &current_data);
+    if (!loaded || current_data != data) {
+      const bool saved =
+          env::save_file(lib_dirs_filename.string().c_str(), data, false);
+      env::assert_fatal(saved, "Could not save buildexe_lib_dirs.h");
+    }
 
     user_target.AddIncludeDirAbsolute(user_target.GetTargetBuildDir(), true);
   }
-- 
2.43.0


From fe3de5527a080165bc9e5034b0a23c099cf2a47c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:57:42 +0000
Subject: [PATCH 28/34] fix: fail buildexe when the script it runs fails

---
 buildexe/src/build_env_setup.cpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/buildexe/src/build_env_setup.cpp b/buildexe/src/build_env_setup.cpp
index c9a528e..4641576 100644
--- a/buildexe/src/build_env_setup.cpp
+++ b/buildexe/src/build_env_setup.cpp
@@ -52,7 +52,9 @@ void BuildEnvSetup::RunUserTarget(const ArgScriptInfo &arg_script_info) {
                   fmt::arg("executable",
                            fmt::format("{}", GetUserTarget().GetTargetPath())),
                   fmt::arg("configs", aggregated_configs));
-  env::Command::Execute(command_str);
+  const bool executed = env::Command::Execute(command_str);
+  env::assert_fatal(executed, fmt::format("Running '{}' failed",
+                                          buildexe_args_.GetTargetInfo().name));
 }
 
 // Private
-- 
2.43.0


From 653743d9508202f46a7989b3d589d4164427adcf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:58:01 +0000
Subject: [PATCH 29/34] fix: pass script configs with spaces as one argument

---
 buildexe/src/build_env_setup.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/buildexe/src/build_env_setup.cpp b/buildexe/src/build_env_setup.cpp
index 4641576..1894fd0 100644
--- a/buildexe/src/build_env_setup.cpp
+++ b/buildexe/src/build_env_setup.cpp
@@ -42,7 +42,7 @@ void BuildEnvSetup::RunUserTarget(const ArgScriptInfo &arg_script_info) {
   std::transform(arg_script_info.configs.begin(), arg_script_info.configs.end(),
                  std::back_inserter(configs),
                  [](const std::string &c) -> std::string {
-                   return fmt::format("--config {}", c);
+                   return fmt::format("--config {}", fs::path(c));
                  });
   std::string aggregated_configs = fmt::format("{}", fmt::join(configs, " "));
 
-- 
2.43.0


From d51755d264f69d0db2ad5b46b931a38da2d6f4b0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:58:18 +0000
Subject: [PATCH 30/34] fix: run the host verification target when its path
 contains spaces

---
 buildexe/src/toolchain_setup.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/buildexe/src/toolchain_setup.cpp b/buildexe/src/toolchain_setup.cpp
index 4d483da..6e8e5b1 100644
--- a/buildexe/src/toolchain_setup.cpp
+++ b/buildexe/src/toolchain_setup.cpp
@@ -72,7 +72,7 @@ int main() {
 
   // Run
   bool execute = env::Command::Execute(fmt::format(
-      "{executable}", fmt::arg("executable", target.GetTargetPath().string())));
+      "{executable}", fmt::arg("executable", target.GetTargetPath())));
   env::assert_fatal(execute, "Could not execute verification target");
 
   env::log_info(kTag, "*** Toolchain verification done ***");
-- 
2.43.0


From 87e76ddcfea6a14bb6f47a5951e2c38e35c7ba85 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:59:06 +0000
Subject: [PATCH 31/34] fix: generate a valid library path when BUILDCC_HOME
 contains spaces

---
 buildexe/src/args_setup.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/buildexe/src/args_setup.cpp b/buildexe/src/args_setup.cpp
index edee4ad..6ef969d 100644
--- a/buildexe/src/args_setup.cpp
+++ b/buildexe/src/args_setup.cpp
@@ -114,7 +114,7 @@ void ArgLibsInfo::Add(CLI::App &app) {
 
     LibInfo lib_info;
     lib_info.lib_name = lib_name;
-    lib_info.absolute_lib_path = fmt::format("{}", lib_path);
+    lib_info.absolute_lib_path = path_as_string(lib_path);
     libs_info.push_back(lib_info);
 
     auto add_lib_files_cb_func = [lib_path,
-- 
2.43.0


From 5f5fe15c5a322916755042143b288342d300bc3a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:00:09 +0000
Subject: [PATCH 32/34] fix: rebuild buildcc when any of its headers changes

---
 bootstrap/src/build_buildcc.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/bootstrap/src/build_buildcc.cpp b/bootstrap/src/build_buildcc.cpp
index fa75c46..4183db3 100644
--- a/bootstrap/src/build_buildcc.cpp
+++ b/bootstrap/src/build_buildcc.cpp
@@ -58,6 +58,7 @@ void buildcc_cb(BaseTarget &target, const TargetInfo &nlohmann_json_ho,
   target.GlobHeaders("lib/target/include/target");
   target.GlobHeaders("lib/target/include/target/api");
   target.GlobHeaders("lib/target/include/target/common");
+  target.GlobHeaders("lib/target/include/target/custom_generator");
   target.GlobHeaders("lib/target/include/target/friend");
   target.GlobHeaders("lib/target/include/target/interface");
 
@@ -65,6 +66,7 @@ void buildcc_cb(BaseTarget &target, const TargetInfo &nlohmann_json_ho,
   target.GlobSources("lib/args/src");
   target.AddIncludeDir("lib/args/include");
   target.GlobHeaders("lib/args/include/args");
+  target.GlobHeaders("lib/args/include/args/register");
 
   // Specialized Toolchains
   target.GlobSources("toolchains/src");
-- 
2.43.0


From 72ff4066047b2a038e3e0d86efcb90f67ef79e14 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:49:33 +0000
Subject: [PATCH 33/34] fix: rerun a generator id when the type of its user
 data changes

---
 .../target/custom_generator/custom_blob_handler.h        | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/buildcc/lib/target/include/target/custom_generator/custom_blob_handler.h b/buildcc/lib/target/include/target/custom_generator/custom_blob_handler.h
index 3b64d23..52c4a64 100644
--- a/buildcc/lib/target/include/target/custom_generator/custom_blob_handler.h
+++ b/buildcc/lib/target/include/target/custom_generator/custom_blob_handler.h
@@ -93,7 +93,14 @@ private:
 
   bool IsEqual(const std::vector<uint8_t> &previous,
                const std::vector<uint8_t> &current) const override {
-    return Deserialize(previous) == Deserialize(current);
+    Type previous_data;
+    try {
+      previous_data = Deserialize(previous);
+    } catch (const json::exception &) {
+      // The previous data was stored as a different type
+      return false;
+    }
+    return previous_data == Deserialize(current);
   }
 
   std::vector<uint8_t> Serialize() const override {
-- 
2.43.0


From 341b3c8ad5fffa1655aea77277c163f3137e6cbf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:27:32 +0000
Subject: [PATCH 34/34] fix: recreate a static library instead of updating the
 previous archive

---
 buildcc/lib/target/src/target/friend/link_target.cpp | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/buildcc/lib/target/src/target/friend/link_target.cpp b/buildcc/lib/target/src/target/friend/link_target.cpp
index 09fcc9f..e17840d 100644
--- a/buildcc/lib/target/src/target/friend/link_target.cpp
+++ b/buildcc/lib/target/src/target/friend/link_target.cpp
@@ -103,6 +103,12 @@ void LinkTarget::BuildLink() {
 
   if (target_.dirty_) {
     (void)target_.StoreProgress();
+    if (target_.type_ == TargetType::StaticLibrary) {
+      // NOTE, Archivers update an existing archive, which would keep the
+      // objects of sources that have been removed
+      std::error_code errcode;
+      fs::remove(output_, errcode);
+    }
     bool success = env::Command::Execute(command_);
     env::assert_fatal(success, "Failed to link target");
     target_.serialization_.UpdateTargetCompiled();
-- 
2.43.0

