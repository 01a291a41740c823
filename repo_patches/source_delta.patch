From 767adf7856f3bbf2321cb1ad8edd81c6728c0017 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:05:06 +0000
Subject: [PATCH 01/23] fix: report failure to write the mutation info file

The output stream for the mutation info file was never checked, so that dredd
exited with status 0 when the file could not be opened or written.
---
 src/dredd/src/main.cc | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/dredd/src/main.cc b/src/dredd/src/main.cc
index da21004..7697085 100644
--- a/src/dredd/src/main.cc
+++ b/src/dredd/src/main.cc
@@ -180,10 +180,14 @@ int main(int argc, const char** argv) {
     json_options.always_print_primitive_fields = true;
     auto json_generation_status = google::protobuf::util::MessageToJsonString(
         mutation_info.value(), &json_string, json_options);
+    bool json_written = false;
     if (json_generation_status.ok()) {
       std::ofstream transformations_json_file(mutation_info_file);
       transformations_json_file << json_string;
-    } else {
+      transformations_json_file.close();
+      json_written = transformations_json_file.good();
+    }
+    if (!json_written) {
       llvm::errs() << "Error writing JSON data to " << mutation_info_file
                    << "\n";
       return 1;
-- 
2.43.0


From 4f063ffa910825c76dd7fe1f740593a9f1abc5b4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:05:06 +0000
Subject: [PATCH 02/23] fix: replace source files atomically and report failure
 to write them

Rewriter::overwriteChangedFiles does not check that the temporary file was
written successfully (so that a full disk truncates the source file), and
copies over the source file when the temporary cannot be renamed. The result
was only asserted on, after the file had been added to the mutation info.
---
 .../include/libdredd/mutate_ast_consumer.h    |  5 ++
 src/libdredd/src/mutate_ast_consumer.cc       | 77 +++++++++++++++----
 2 files changed, 69 insertions(+), 13 deletions(-)

diff --git a/src/libdredd/include_private/include/libdredd/mutate_ast_consumer.h b/src/libdredd/include_private/include/libdredd/mutate_ast_consumer.h
index 0f06a8f..b567bbe 100644
--- a/src/libdredd/include_private/include/libdredd/mutate_ast_consumer.h
+++ b/src/libdredd/include_private/include/libdredd/mutate_ast_consumer.h
@@ -30,6 +30,7 @@
 #include "libdredd/mutation_tree_node.h"
 #include "libdredd/options.h"
 #include "libdredd/protobufs/dredd_protobufs.h"
+#include "llvm/Support/Error.h"
 
 namespace dredd {
 
@@ -68,6 +69,10 @@ class MutateAstConsumer : public clang::ASTConsumer {
   bool RewriteExpressionInMainFileToIntegerConstant(const clang::Expr* expr,
                                                     uint64_t integer_constant);
 
+  // Replaces the main source file with its rewritten text. On failure the source
+  // file is left untouched.
+  [[nodiscard]] llvm::Error OverwriteMainFile(const std::string& filename);
+
   void ApplyMutations(
       const MutationTreeNode& dredd_mutation_tree_node, int initial_mutation_id,
       clang::ASTContext& context,
diff --git a/src/libdredd/src/mutate_ast_consumer.cc b/src/libdredd/src/mutate_ast_consumer.cc
index 568e5ea..1dd5df7 100644
--- a/src/libdredd/src/mutate_ast_consumer.cc
+++ b/src/libdredd/src/mutate_ast_consumer.cc
@@ -19,7 +19,9 @@
 #include <set>
 #include <sstream>
 #include <string>
+#include <system_error>
 #include <unordered_set>
+#include <utility>
 #include <vector>
 
 #include "clang/AST/ASTContext.h"
@@ -30,17 +32,23 @@
 #include "clang/AST/TypeLoc.h"
 #include "clang/Basic/Diagnostic.h"
 #include "clang/Basic/FileEntry.h"
+#include "clang/Basic/FileManager.h"
 #include "clang/Basic/LangOptions.h"
 #include "clang/Basic/SourceLocation.h"
 #include "clang/Basic/SourceManager.h"
 #include "clang/Frontend/CompilerInstance.h"
+#include "clang/Rewrite/Core/RewriteBuffer.h"
 #include "clang/Rewrite/Core/Rewriter.h"
 #include "libdredd/mutation.h"
 #include "libdredd/util.h"
 #include "llvm/ADT/APInt.h"
 #include "llvm/ADT/APSInt.h"
+#include "llvm/ADT/SmallString.h"
 #include "llvm/ADT/StringRef.h"
+#include "llvm/ADT/Twine.h"
 #include "llvm/Support/Casting.h"
+#include "llvm/Support/Error.h"
+#include "llvm/Support/FileSystem.h"
 #include "llvm/Support/raw_ostream.h"
 
 namespace dredd {
@@ -127,15 +135,6 @@ void MutateAstConsumer::HandleTranslationUnit(clang::ASTContext& ast_context) {
 
   RewriteExpressionsInMainFile();
 
-  if (mutation_info_->has_value()) {
-    mutation_info_for_file.set_filename(
-        ast_context.getSourceManager()
-            .getFileEntryForID(ast_context.getSourceManager().getMainFileID())
-            ->getName()
-            .str());
-    *mutation_info_->value().add_info_for_files() = mutation_info_for_file;
-  }
-
   auto& source_manager = ast_context.getSourceManager();
   const clang::SourceLocation start_of_source_file =
       source_manager.translateLineCol(source_manager.getMainFileID(), 1, 1);
@@ -164,14 +163,66 @@ void MutateAstConsumer::HandleTranslationUnit(clang::ASTContext& ast_context) {
           ? GetDreddPreludeCpp(initial_mutation_id)
           : GetDreddPreludeC(initial_mutation_id);
 
-  bool rewriter_result =
+  const bool rewriter_result =
       rewriter_.InsertTextBefore(dredd_prelude_start_location, dredd_prelude);
   (void)rewriter_result;  // Keep release-mode compilers happy.
   assert(!rewriter_result && "Rewrite failed.\n");
 
-  rewriter_result = rewriter_.overwriteChangedFiles();
-  (void)rewriter_result;  // Keep release mode compilers happy
-  assert(!rewriter_result && "Something went wrong emitting rewritten files.");
+  if (llvm::Error error = OverwriteMainFile(filename)) {
+    // The file has been left in its original state, so the mutations that were
+    // prepared for it do not exist: report the problem, and proceed as if the
+    // file had not been processed.
+    *mutation_id_ = initial_mutation_id;
+    auto& diagnostics = ast_context.getDiagnostics();
+    const unsigned overwrite_failure = diagnostics.getCustomDiagID(
+        clang::DiagnosticsEngine::Error, "unable to overwrite file %0: %1");
+    diagnostics.Report(overwrite_failure)
+        << filename << llvm::toString(std::move(error));
+    return;
+  }
+
+  if (mutation_info_->has_value()) {
+    mutation_info_for_file.set_filename(filename);
+    *mutation_info_->value().add_info_for_files() = mutation_info_for_file;
+  }
+}
+
+llvm::Error MutateAstConsumer::OverwriteMainFile(const std::string& filename) {
+  auto& source_manager = compiler_instance_->getSourceManager();
+  llvm::SmallString<128> path(filename);
+  source_manager.getFileManager().makeAbsolutePath(path);
+
+  // The rewritten text goes to a temporary file that only replaces the source
+  // file once it is known to be complete. (Rewriter::overwriteChangedFiles does
+  // not check that the temporary file was written successfully, and falls back
+  // to copying over the source file if the temporary cannot be renamed.)
+  llvm::Expected<llvm::sys::fs::TempFile> temp_file =
+      llvm::sys::fs::TempFile::create(path + ".temp-stream-%%%%%%");
+  if (!temp_file) {
+    return temp_file.takeError();
+  }
+  const std::string temp_file_name = temp_file->TmpName;
+
+  llvm::raw_fd_ostream stream(temp_file->FD, /*shouldClose=*/false);
+  rewriter_.getEditBuffer(source_manager.getMainFileID()).write(stream);
+  stream.flush();
+  std::error_code error_code = stream.error();
+  stream.clear_error();
+
+  // Close the temporary file; it is removed below if anything goes wrong.
+  llvm::Error close_error = temp_file->keep();
+  if (!error_code) {
+    error_code = llvm::errorToErrorCode(std::move(close_error));
+  } else {
+    llvm::consumeError(std::move(close_error));
+  }
+  if (!error_code) {
+    error_code = llvm::sys::fs::rename(temp_file_name, path.str());
+  }
+  if (error_code) {
+    (void)llvm::sys::fs::remove(temp_file_name);
+  }
+  return llvm::errorCodeToError(error_code);
 }
 
 void MutateAstConsumer::RewriteExpressionsInMainFile() {
-- 
2.43.0


From adf5ae76ebf4dbee794f320a2c43d5ef1a5cbb4d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:06:16 +0000
Subject: [PATCH 03/23] fix: recognise different paths to the same file as one
 file

Listing a file under two names, e.g. `a.cc` and `../dir/a.cc`, mutated it twice
and produced a file that does not compile. Symbolic links are followed when
writing, so that the link and the file it refers to are one file.
---
 src/libdredd/src/mutate_ast_consumer.cc          |  6 ++++++
 .../src/new_mutate_frontend_action_factory.cc    | 16 ++++++++++++----
 2 files changed, 18 insertions(+), 4 deletions(-)

diff --git a/src/libdredd/src/mutate_ast_consumer.cc b/src/libdredd/src/mutate_ast_consumer.cc
index 1dd5df7..b654aa3 100644
--- a/src/libdredd/src/mutate_ast_consumer.cc
+++ b/src/libdredd/src/mutate_ast_consumer.cc
@@ -191,6 +191,12 @@ llvm::Error MutateAstConsumer::OverwriteMainFile(const std::string& filename) {
   auto& source_manager = compiler_instance_->getSourceManager();
   llvm::SmallString<128> path(filename);
   source_manager.getFileManager().makeAbsolutePath(path);
+  // If the path is a symbolic link, it is the file it refers to that should be
+  // replaced.
+  llvm::SmallString<128> real_path;
+  if (!llvm::sys::fs::real_path(path, real_path)) {
+    path = real_path;
+  }
 
   // The rewritten text goes to a temporary file that only replaces the source
   // file once it is known to be complete. (Rewriter::overwriteChangedFiles does
diff --git a/src/libdredd/src/new_mutate_frontend_action_factory.cc b/src/libdredd/src/new_mutate_frontend_action_factory.cc
index dee7212..3d56fbc 100644
--- a/src/libdredd/src/new_mutate_frontend_action_factory.cc
+++ b/src/libdredd/src/new_mutate_frontend_action_factory.cc
@@ -26,7 +26,9 @@
 #include "clang/Tooling/Tooling.h"
 #include "libdredd/mutate_ast_consumer.h"
 #include "libdredd/options.h"
+#include "llvm/ADT/SmallString.h"
 #include "llvm/ADT/StringRef.h"
+#include "llvm/Support/FileSystem.h"
 #include "llvm/Support/raw_ostream.h"
 
 namespace dredd {
@@ -54,8 +56,14 @@ class MutateFrontendAction : public clang::ASTFrontendAction {
     (void)input_exists;  // Keep release-mode compilers happy.
     assert(input_exists && "No current file.");
 
+    // Different paths, e.g. `a.cc` and `./a.cc`, can refer to the same file.
+    llvm::SmallString<128> real_path;
+    if (llvm::sys::fs::real_path(getCurrentFile(), real_path)) {
+      real_path = getCurrentFile();
+    }
+
     // Check whether this file has already been processed.
-    if (processed_files_->contains(getCurrentFile().str())) {
+    if (processed_files_->contains(real_path.str().str())) {
       llvm::errs() << "Warning: already processed " << getCurrentFile()
                    << "; skipping repeat occurrence.\n";
       return false;
@@ -63,7 +71,7 @@ class MutateFrontendAction : public clang::ASTFrontendAction {
 
     // Record that this file has been processed so that duplicate processing
     // will be detected in the future.
-    processed_files_->insert(getCurrentFile().str());
+    processed_files_->insert(real_path.str().str());
     return true;
   }
 
@@ -98,8 +106,8 @@ NewMutateFrontendActionFactory(
     int* mutation_id_;
     std::optional<protobufs::MutationInfo>* mutation_info_;
 
-    // Stores the ids of the files that have been processed so far, to avoid
-    // processing a file multiple times.
+    // Stores the real paths of the files that have been processed so far, to
+    // avoid processing a file multiple times.
     std::set<std::string> processed_files_;
   };
 
-- 
2.43.0


From 06399dd4b5f82d0bb69996d0061f8171565f3c45 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:08:00 +0000
Subject: [PATCH 04/23] fix: failure to write the mutant tracking file must not
 disturb the program

The C prelude dereferenced a null FILE* when the tracking file could not be
opened, and both preludes clobbered errno.
---
 .../include/libdredd/mutate_ast_consumer.h          |  4 ++--
 src/libdredd/src/mutate_ast_consumer.cc             | 13 +++++++++++++
 2 files changed, 15 insertions(+), 2 deletions(-)

diff --git a/src/libdredd/include_private/include/libdredd/mutate_ast_consumer.h b/src/libdredd/include_private/include/libdredd/mutate_ast_consumer.h
index b567bbe..7d2c4c9 100644
--- a/src/libdredd/include_private/include/libdredd/mutate_ast_consumer.h
+++ b/src/libdredd/include_private/include/libdredd/mutate_ast_consumer.h
@@ -69,8 +69,8 @@ class MutateAstConsumer : public clang::ASTConsumer {
   bool RewriteExpressionInMainFileToIntegerConstant(const clang::Expr* expr,
                                                     uint64_t integer_constant);
 
-  // Replaces the main source file with its rewritten text. On failure the source
-  // file is left untouched.
+  // Replaces the main source file with its rewritten text. On failure the
+  // source file is left untouched.
   [[nodiscard]] llvm::Error OverwriteMainFile(const std::string& filename);
 
   void ApplyMutations(
diff --git a/src/libdredd/src/mutate_ast_consumer.cc b/src/libdredd/src/mutate_ast_consumer.cc
index b654aa3..0161b38 100644
--- a/src/libdredd/src/mutate_ast_consumer.cc
+++ b/src/libdredd/src/mutate_ast_consumer.cc
@@ -407,6 +407,7 @@ std::string MutateAstConsumer::GetMutantTrackingDreddPreludeCpp(
   const int num_mutations = *mutation_id_ - initial_mutation_id;
 
   std::stringstream result;
+  result << "#include <cerrno>\n";
   result << kDreddPreludeHeadersCpp;
   result << "\n";
   result << "static void __dredd_record_covered_mutants(int local_mutation_id, "
@@ -418,6 +419,8 @@ std::string MutateAstConsumer::GetMutantTrackingDreddPreludeCpp(
   result << "  const char* dredd_tracking_environment_variable = "
             "std::getenv(\"DREDD_MUTANT_TRACKING_FILE\");\n";
   result << "  if (dredd_tracking_environment_variable == nullptr) return;\n";
+  // Failure to write to the tracking file must not affect the program.
+  result << "  const int saved_errno = errno;\n";
   result << "  std::ofstream output_file;\n";
   result << "  output_file.open(dredd_tracking_environment_variable, "
             "std::ios_base::app);\n";
@@ -425,6 +428,8 @@ std::string MutateAstConsumer::GetMutantTrackingDreddPreludeCpp(
   result << "    output_file << (" << std::to_string(initial_mutation_id)
          << " + local_mutation_id + i) << \"\\n\";\n";
   result << "  }\n";
+  result << "  output_file.close();\n";
+  result << "  errno = saved_errno;\n";
   result << "}\n\n";
   return result.str();
 }
@@ -502,6 +507,7 @@ std::string MutateAstConsumer::GetMutantTrackingDreddPreludeC(
   // port to C.
   const int num_mutations = *mutation_id_ - initial_mutation_id;
   std::stringstream result;
+  result << "#include <errno.h>\n";
   result << kDreddPreludeHeadersC;
   result << "\n";
   result << "static void __dredd_record_covered_mutants(int local_mutation_id, "
@@ -512,12 +518,19 @@ std::string MutateAstConsumer::GetMutantTrackingDreddPreludeC(
   result << "  const char* dredd_tracking_environment_variable = "
             "getenv(\"DREDD_MUTANT_TRACKING_FILE\");\n";
   result << "  if (!dredd_tracking_environment_variable) return;\n";
+  // Failure to write to the tracking file must not affect the program.
+  result << "  const int saved_errno = errno;\n";
   result << "  FILE* fp = fopen(dredd_tracking_environment_variable, \"a\");\n";
+  result << "  if (!fp) {\n";
+  result << "    errno = saved_errno;\n";
+  result << "    return;\n";
+  result << "  }\n";
   result << "  for (int i = 0; i < num_mutations; i++) {\n";
   result << R"(    fprintf(fp, "%d\n", )" + std::to_string(initial_mutation_id)
          << " + local_mutation_id + i);\n";
   result << "  }\n";
   result << "  fclose(fp);\n";
+  result << "  errno = saved_errno;\n";
   result << "}\n\n";
   return result.str();
 }
-- 
2.43.0


From 4e869e78a906a3f1ac40abae33ff64e63d4207d6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:38:51 +0000
Subject: [PATCH 05/23] fix: do not record coverage for expressions without
 mutants

When optimisations leave an expression with no mutants, its mutator function
still called __dredd_record_covered_mutants with the id of the next mutant in
the file, which then was never recorded as covered (and could index beyond the
end of the array of flags).
---
 src/libdredd/src/mutation_replace_binary_operator.cc | 5 ++++-
 src/libdredd/src/mutation_replace_expr.cc            | 5 ++++-
 src/libdredd/src/mutation_replace_unary_operator.cc  | 5 ++++-
 3 files changed, 12 insertions(+), 3 deletions(-)

diff --git a/src/libdredd/src/mutation_replace_binary_operator.cc b/src/libdredd/src/mutation_replace_binary_operator.cc
index 3373707..6be54e2 100644
--- a/src/libdredd/src/mutation_replace_binary_operator.cc
+++ b/src/libdredd/src/mutation_replace_binary_operator.cc
@@ -501,7 +501,10 @@ std::string MutationReplaceBinaryOperator::GenerateMutatorFunction(
                               mutation_id, new_function, mutation_id_offset,
                               protobuf_message);
 
-  if (only_track_mutant_coverage) {
+  // If optimisations leave no mutants to track then there is nothing to record.
+  // Recording anyway would mark the next mutant in the file as recorded, since
+  // it has the same id.
+  if (only_track_mutant_coverage && mutation_id_offset > 0) {
     new_function << "  __dredd_record_covered_mutants(local_mutation_id, " +
                         std::to_string(mutation_id_offset) + ");\n";
   }
diff --git a/src/libdredd/src/mutation_replace_expr.cc b/src/libdredd/src/mutation_replace_expr.cc
index 7dec481..37b4ca2 100644
--- a/src/libdredd/src/mutation_replace_expr.cc
+++ b/src/libdredd/src/mutation_replace_expr.cc
@@ -496,7 +496,10 @@ std::string MutationReplaceExpr::GenerateMutatorFunction(
       ast_context, optimise_mutations, only_track_mutant_coverage, mutation_id,
       new_function, mutation_id_offset, protobuf_message);
 
-  if (only_track_mutant_coverage) {
+  // If optimisations leave no mutants to track then there is nothing to record.
+  // Recording anyway would mark the next mutant in the file as recorded, since
+  // it has the same id.
+  if (only_track_mutant_coverage && mutation_id_offset > 0) {
     new_function << "  __dredd_record_covered_mutants(local_mutation_id, " +
                         std::to_string(mutation_id_offset) + ");\n";
   }
diff --git a/src/libdredd/src/mutation_replace_unary_operator.cc b/src/libdredd/src/mutation_replace_unary_operator.cc
index 5782279..05c13bd 100644
--- a/src/libdredd/src/mutation_replace_unary_operator.cc
+++ b/src/libdredd/src/mutation_replace_unary_operator.cc
@@ -229,7 +229,10 @@ std::string MutationReplaceUnaryOperator::GenerateMutatorFunction(
       only_track_mutant_coverage, mutation_id, new_function, mutation_id_offset,
       protobuf_message);
 
-  if (only_track_mutant_coverage) {
+  // If optimisations leave no mutants to track then there is nothing to record.
+  // Recording anyway would mark the next mutant in the file as recorded, since
+  // it has the same id.
+  if (only_track_mutant_coverage && mutation_id_offset > 0) {
     new_function << "  __dredd_record_covered_mutants(local_mutation_id, " +
                         std::to_string(mutation_id_offset) + ");\n";
   }
-- 
2.43.0


From 88421d6ff2036f7b930ee4a8c1c2724539cb9db2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:15:16 +0000
Subject: [PATCH 06/23] fix: respect C++17 evaluation order of assignments and
 shifts

The LHS of an assignment was bound by reference before the RHS was
evaluated, and the RHS of a shift was evaluated before an LHS with side
effects, so that with no mutant enabled e.g. 'a[n] = f()' and 'f() << n',
where f modifies n, behaved differently from the original program.
---
 .../mutation_replace_binary_operator.h        |  6 +++
 .../src/mutation_replace_binary_operator.cc   | 41 +++++++++++++++----
 2 files changed, 38 insertions(+), 9 deletions(-)

diff --git a/src/libdredd/include/libdredd/mutation_replace_binary_operator.h b/src/libdredd/include/libdredd/mutation_replace_binary_operator.h
index d5b4279..f3a66c6 100644
--- a/src/libdredd/include/libdredd/mutation_replace_binary_operator.h
+++ b/src/libdredd/include/libdredd/mutation_replace_binary_operator.h
@@ -96,6 +96,12 @@ class MutationReplaceBinaryOperator : public Mutation {
   [[nodiscard]] std::vector<clang::BinaryOperatorKind> GetReplacementOperators(
       bool optimise_mutations, const clang::ASTContext& ast_context) const;
 
+  // These determine whether, when targeting C++, the LHS (respectively RHS) is
+  // passed to the mutator function as a lambda, so that it is evaluated when -
+  // and in the order in which - the mutator function requires it.
+  bool LhsIsEvaluatedLazily(const clang::ASTContext& ast_context) const;
+  bool RhsIsEvaluatedLazily(const clang::ASTContext& ast_context) const;
+
   // The && and || operators in C require special treatment: due to
   // short-circuit evaluation their arguments must not be prematurely evaluated.
   // In C++ this is worked around via lambdas, but lambdas are not available in
diff --git a/src/libdredd/src/mutation_replace_binary_operator.cc b/src/libdredd/src/mutation_replace_binary_operator.cc
index 6be54e2..a484d34 100644
--- a/src/libdredd/src/mutation_replace_binary_operator.cc
+++ b/src/libdredd/src/mutation_replace_binary_operator.cc
@@ -34,6 +34,7 @@
 #include "libdredd/options.h"
 #include "libdredd/util.h"
 #include "llvm/ADT/StringRef.h"
+#include "llvm/Support/Casting.h"
 
 namespace dredd {
 
@@ -435,6 +436,31 @@ MutationReplaceBinaryOperator::GetReplacementOperators(
   return result;
 }
 
+bool MutationReplaceBinaryOperator::LhsIsEvaluatedLazily(
+    const clang::ASTContext& ast_context) const {
+  if (binary_operator_->getLHS()->HasSideEffects(ast_context)) {
+    return true;
+  }
+  // From C++17 onwards the RHS of an assignment is evaluated before the LHS, so
+  // which object the LHS refers to must not be determined up front if
+  // evaluating the RHS might change this.
+  return binary_operator_->isAssignmentOp() &&
+         binary_operator_->getRHS()->HasSideEffects(ast_context) &&
+         !llvm::isa<clang::DeclRefExpr>(
+             binary_operator_->getLHS()->IgnoreParens());
+}
+
+bool MutationReplaceBinaryOperator::RhsIsEvaluatedLazily(
+    const clang::ASTContext& ast_context) const {
+  if (binary_operator_->isLogicalOp() ||
+      binary_operator_->getRHS()->HasSideEffects(ast_context)) {
+    return true;
+  }
+  // From C++17 onwards the LHS of a shift is evaluated before the RHS.
+  return binary_operator_->isShiftOp() &&
+         binary_operator_->getLHS()->HasSideEffects(ast_context);
+}
+
 std::string MutationReplaceBinaryOperator::GenerateMutatorFunction(
     clang::ASTContext& ast_context, const std::string& function_name,
     const std::string& result_type, const std::string& lhs_type,
@@ -445,7 +471,7 @@ std::string MutationReplaceBinaryOperator::GenerateMutatorFunction(
   new_function << "static " << result_type << " " << function_name << "(";
 
   if (ast_context.getLangOpts().CPlusPlus &&
-      binary_operator_->getLHS()->HasSideEffects(ast_context)) {
+      LhsIsEvaluatedLazily(ast_context)) {
     new_function << "std::function<" << lhs_type << "()>";
   } else {
     new_function << lhs_type;
@@ -453,8 +479,7 @@ std::string MutationReplaceBinaryOperator::GenerateMutatorFunction(
   new_function << " arg1, ";
 
   if (ast_context.getLangOpts().CPlusPlus &&
-      (binary_operator_->isLogicalOp() ||
-       binary_operator_->getRHS()->HasSideEffects(ast_context))) {
+      RhsIsEvaluatedLazily(ast_context)) {
     new_function << "std::function<" << rhs_type << "()>";
   } else {
     new_function << rhs_type;
@@ -466,7 +491,7 @@ std::string MutationReplaceBinaryOperator::GenerateMutatorFunction(
 
   std::string arg1_evaluated("arg1");
   if (ast_context.getLangOpts().CPlusPlus &&
-      binary_operator_->getLHS()->HasSideEffects(ast_context)) {
+      LhsIsEvaluatedLazily(ast_context)) {
     arg1_evaluated += "()";
   }
   if (!ast_context.getLangOpts().CPlusPlus &&
@@ -476,8 +501,7 @@ std::string MutationReplaceBinaryOperator::GenerateMutatorFunction(
 
   std::string arg2_evaluated("arg2");
   if (ast_context.getLangOpts().CPlusPlus &&
-      (binary_operator_->isLogicalOp() ||
-       binary_operator_->getRHS()->HasSideEffects(ast_context))) {
+      RhsIsEvaluatedLazily(ast_context)) {
     arg2_evaluated += "()";
   }
 
@@ -679,13 +703,12 @@ void MutationReplaceBinaryOperator::ReplaceOperator(
   std::string rhs_suffix;
 
   if (ast_context.getLangOpts().CPlusPlus) {
-    if (binary_operator_->getLHS()->HasSideEffects(ast_context)) {
+    if (LhsIsEvaluatedLazily(ast_context)) {
       lhs_prefix.append("[&]() -> " + lhs_type + " { return static_cast<" +
                         lhs_type + ">(");
       lhs_suffix.append("); }");
     }
-    if (binary_operator_->isLogicalOp() ||
-        binary_operator_->getRHS()->HasSideEffects(ast_context)) {
+    if (RhsIsEvaluatedLazily(ast_context)) {
       rhs_prefix.append("[&]() -> " + rhs_type + " { return static_cast<" +
                         rhs_type + ">(");
       rhs_suffix.append("); }");
-- 
2.43.0


From 0a5d8f61e4dde4307f33fc856f44f3f5ba749530 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:40:53 +0000
Subject: [PATCH 07/23] fix: record coverage of C logical operators before
 evaluating the RHS

The mutants of a C logical operator already act once its LHS has been
evaluated, but in mutant tracking mode they were recorded only once the whole
expression had been evaluated. If evaluation of the RHS exits or jumps away
they were thus reported as not covered, even though enabling them changes the
behaviour of the program.
---
 .../src/mutation_replace_binary_operator.cc   | 68 +++++++++++--------
 1 file changed, 40 insertions(+), 28 deletions(-)

diff --git a/src/libdredd/src/mutation_replace_binary_operator.cc b/src/libdredd/src/mutation_replace_binary_operator.cc
index a484d34..cde2255 100644
--- a/src/libdredd/src/mutation_replace_binary_operator.cc
+++ b/src/libdredd/src/mutation_replace_binary_operator.cc
@@ -766,7 +766,29 @@ void MutationReplaceBinaryOperator::HandleCLogicalOperator(
   //   and "rhs" functions do nothing, and the "lhs" function return either 0 or
   //   1, depending on the operator.
 
-  if (!only_track_mutant_coverage) {
+  if (only_track_mutant_coverage) {
+    // The fact that three mutants are covered is recorded, to reflect
+    // swapping the operator, replacing with LHS and replacing with RHS.
+    // This is recorded as soon as the LHS has been evaluated: the mutants can
+    // already have an effect at that point, and evaluation of the RHS might
+    // never complete.
+    auto source_range_lhs =
+        GetSourceRangeInMainFile(preprocessor, *binary_operator_->getLHS());
+    const std::string lhs_function_name = new_function_prefix + "_lhs";
+    rewriter.InsertTextBefore(source_range_lhs.getBegin(),
+                              lhs_function_name + "(");
+    rewriter.InsertTextAfterToken(
+        source_range_lhs.getEnd(),
+        ", " + std::to_string(mutation_id - first_mutation_id_in_file) + ")");
+
+    std::stringstream lhs_function;
+    lhs_function << "static " << lhs_type << " " << lhs_function_name << "("
+                 << lhs_type << " arg, int local_mutation_id) {\n";
+    lhs_function << "  __dredd_record_covered_mutants(local_mutation_id, 3);\n";
+    lhs_function << "  return arg;\n";
+    lhs_function << "}\n";
+    dredd_declarations.insert(lhs_function.str());
+  } else {
     {
       // Rewrite the LHS of the expression, and introduce the associated
       // function.
@@ -851,23 +873,22 @@ void MutationReplaceBinaryOperator::HandleCLogicalOperator(
       rhs_function << "}\n";
       dredd_declarations.insert(rhs_function.str());
     }
-  }
 
-  {
-    // Rewrite the overall expression, and introduce the associated function.
-    auto source_range_binary_operator =
-        GetSourceRangeInMainFile(preprocessor, *binary_operator_);
-    const std::string outer_function_name = new_function_prefix + "_outer";
-    rewriter.InsertTextBefore(source_range_binary_operator.getBegin(),
-                              outer_function_name + "(");
-    rewriter.InsertTextAfterToken(
-        source_range_binary_operator.getEnd(),
-        ", " + std::to_string(mutation_id - first_mutation_id_in_file) + ")");
+    {
+      // Rewrite the overall expression, and introduce the associated function.
+      auto source_range_binary_operator =
+          GetSourceRangeInMainFile(preprocessor, *binary_operator_);
+      const std::string outer_function_name = new_function_prefix + "_outer";
+      rewriter.InsertTextBefore(source_range_binary_operator.getBegin(),
+                                outer_function_name + "(");
+      rewriter.InsertTextAfterToken(
+          source_range_binary_operator.getEnd(),
+          ", " + std::to_string(mutation_id - first_mutation_id_in_file) + ")");
 
-    std::stringstream outer_function;
-    outer_function << "static " << result_type << " " << outer_function_name
-                   << "(" << result_type << " arg, int local_mutation_id) {\n";
-    if (!only_track_mutant_coverage) {
+      std::stringstream outer_function;
+      outer_function << "static " << result_type << " " << outer_function_name
+                     << "(" << result_type
+                     << " arg, int local_mutation_id) {\n";
       // Case 0: swapping the operator.
       // Replacing && with || is achieved by negating the whole expression, and
       // negating each of the LHS and RHS. The same holds for replacing || with
@@ -879,19 +900,10 @@ void MutationReplaceBinaryOperator::HandleCLogicalOperator(
       // Case 1: replacing with LHS: no action is needed here.
 
       // Case 2: replacing with RHS: no action is needed here.
+      outer_function << "  return arg;\n";
+      outer_function << "}\n";
+      dredd_declarations.insert(outer_function.str());
     }
-    if (only_track_mutant_coverage) {
-      // The fact that three mutants are covered is recorded, to reflect
-      // swapping the operator, replacing with LHS and replacing with RHS.
-      // It does not matter in which function this is recorded, but intuitively
-      // it seems most elegant for the function enclosing the whole expression
-      // to take care of it.
-      outer_function
-          << "  __dredd_record_covered_mutants(local_mutation_id, 3);\n";
-    }
-    outer_function << "  return arg;\n";
-    outer_function << "}\n";
-    dredd_declarations.insert(outer_function.str());
   }
 
   // Record the mutations in the associated protobuf object:
-- 
2.43.0


From bc2fe9a4168848da32fdccbb9c4b3819adb71a66 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:16:58 +0000
Subject: [PATCH 08/23] fix: preserve negative and enumeration template
 arguments

A negative constant used as a template argument was rewritten to a large
unsigned value, and an enumeration constant to an integer, neither of which
is accepted as the argument in question.
---
 .../include/libdredd/mutate_ast_consumer.h    |  5 ++--
 src/libdredd/src/mutate_ast_consumer.cc       | 29 ++++++++++---------
 2 files changed, 18 insertions(+), 16 deletions(-)

diff --git a/src/libdredd/include_private/include/libdredd/mutate_ast_consumer.h b/src/libdredd/include_private/include/libdredd/mutate_ast_consumer.h
index 7d2c4c9..a57b829 100644
--- a/src/libdredd/include_private/include/libdredd/mutate_ast_consumer.h
+++ b/src/libdredd/include_private/include/libdredd/mutate_ast_consumer.h
@@ -15,7 +15,6 @@
 #ifndef LIBDREDD_MUTATE_AST_CONSUMER_H
 #define LIBDREDD_MUTATE_AST_CONSUMER_H
 
-#include <cstdint>
 #include <memory>
 #include <optional>
 #include <string>
@@ -66,8 +65,8 @@ class MutateAstConsumer : public clang::ASTConsumer {
 
   void RewriteExpressionsInMainFile();
 
-  bool RewriteExpressionInMainFileToIntegerConstant(const clang::Expr* expr,
-                                                    uint64_t integer_constant);
+  bool RewriteExpressionInMainFileToIntegerConstant(
+      const clang::Expr* expr, const std::string& integer_constant);
 
   // Replaces the main source file with its rewritten text. On failure the
   // source file is left untouched.
diff --git a/src/libdredd/src/mutate_ast_consumer.cc b/src/libdredd/src/mutate_ast_consumer.cc
index 0161b38..b6d0189 100644
--- a/src/libdredd/src/mutate_ast_consumer.cc
+++ b/src/libdredd/src/mutate_ast_consumer.cc
@@ -44,6 +44,7 @@
 #include "llvm/ADT/APInt.h"
 #include "llvm/ADT/APSInt.h"
 #include "llvm/ADT/SmallString.h"
+#include "llvm/ADT/StringExtras.h"
 #include "llvm/ADT/StringRef.h"
 #include "llvm/ADT/Twine.h"
 #include "llvm/Support/Casting.h"
@@ -254,12 +255,12 @@ void MutateAstConsumer::RewriteExpressionsInMainFile() {
             typeloc.getUnqualifiedLoc().getAs<clang::ConstantArrayTypeLoc>()) {
       RewriteExpressionInMainFileToIntegerConstant(
           constant_array_typeloc.getSizeExpr(),
-          llvm::dyn_cast<clang::ConstantArrayType>(
-              constant_array_typeloc.getType()
-                  ->getAsArrayTypeUnsafe()
-                  ->getAsArrayTypeUnsafe())
-              ->getSize()
-              .getLimitedValue());
+          std::to_string(llvm::dyn_cast<clang::ConstantArrayType>(
+                             constant_array_typeloc.getType()
+                                 ->getAsArrayTypeUnsafe()
+                                 ->getAsArrayTypeUnsafe())
+                             ->getSize()
+                             .getLimitedValue()));
       typeloc = constant_array_typeloc.getElementLoc();
     }
   }
@@ -270,7 +271,7 @@ void MutateAstConsumer::RewriteExpressionsInMainFile() {
   for (const auto& static_assert_decl :
        visitor_->GetStaticAssertionsToRewrite()) {
     RewriteExpressionInMainFileToIntegerConstant(
-        static_assert_decl->getAssertExpr(), 1);
+        static_assert_decl->getAssertExpr(), "1");
   }
 
   // Rewrite the constant integer arguments of builtin functions and templates.
@@ -284,24 +285,26 @@ void MutateAstConsumer::RewriteExpressionsInMainFile() {
     if (const auto integer_const_expr =
             constant_argument_expresion->getIntegerConstantExpr(
                 compiler_instance_->getASTContext())) {
-      // Argument is an integer constant
+      if (constant_argument_expresion->getType()->isEnumeralType()) {
+        // Integers are not implicitly converted to enumeration types.
+        continue;
+      }
+      // Argument is an integer constant, which might be negative.
       RewriteExpressionInMainFileToIntegerConstant(
-          constant_argument_expresion, integer_const_expr->getLimitedValue());
+          constant_argument_expresion, llvm::toString(*integer_const_expr, 10));
     }
   }
 }
 
 bool MutateAstConsumer::RewriteExpressionInMainFileToIntegerConstant(
-    const clang::Expr* expr, uint64_t integer_constant) {
+    const clang::Expr* expr, const std::string& integer_constant) {
   auto source_range_in_main_file =
       GetSourceRangeInMainFile(compiler_instance_->getPreprocessor(), *expr);
 
   // We only consider the rewriting if the source range for the size
   // expression is in the main source file.
   if (source_range_in_main_file.isValid()) {
-    std::stringstream stringstream;
-    stringstream << integer_constant;
-    rewriter_.ReplaceText(source_range_in_main_file, stringstream.str());
+    rewriter_.ReplaceText(source_range_in_main_file, integer_constant);
     return true;
   }
   return false;
-- 
2.43.0


From 7d3ec0c6f967e03ee1019abd88e2ad4eb24d07af Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:17:27 +0000
Subject: [PATCH 09/23] fix: avoid references to prematurely destroyed
 temporaries

An lvalue obtained from a temporary object by dereferencing or indexing a
pointer, or by calling a member function, was passed to a mutator function
via a lambda, so that the temporary was destroyed before the lvalue was
used, even with no mutation enabled.
---
 src/libdredd/src/mutate_visitor.cc | 44 +++++++++++++++---------------
 1 file changed, 22 insertions(+), 22 deletions(-)

diff --git a/src/libdredd/src/mutate_visitor.cc b/src/libdredd/src/mutate_visitor.cc
index 604f7c9..02b2e33 100644
--- a/src/libdredd/src/mutate_visitor.cc
+++ b/src/libdredd/src/mutate_visitor.cc
@@ -395,6 +395,14 @@ void MutateVisitor::HandleUnaryOperator(clang::UnaryOperator* unary_operator) {
     return;
   }
 
+  // The operand of ++ or -- is passed to mutation functions by reference, so it
+  // must not refer to temporary storage that would be destroyed too early.
+  if (unary_operator->isIncrementDecrementOp() &&
+      MayDependOnLifetimeOfMaterializedTemporaryStorage(
+          *unary_operator->getSubExpr())) {
+    return;
+  }
+
   if (options_->GetOptimiseMutations()) {
     if (unary_operator->getOpcode() == clang::UO_Minus &&
         (MutationReplaceExpr::ExprIsEquivalentToInt(
@@ -829,33 +837,25 @@ bool MutateVisitor::MayDependOnLifetimeOfMaterializedTemporaryStorage(
     return true;
   }
 
-  if (const auto* member_expr = llvm::dyn_cast<clang::MemberExpr>(&expr)) {
-    // Consider a member expression whose base expression may depend on the
-    // lifetime of a materialized temporary. If the member expression yields
-    // an lvalue or a pointer, then the member expression itself may depend on
-    // the lifetime of the materialized temporary.
-    if (member_expr->isLValue() || member_expr->getType()->isPointerType()) {
-      return MayDependOnLifetimeOfMaterializedTemporaryStorage(
-          *member_expr->getBase());
-    }
+  if (expr.isPRValue() && expr.getType()->isArithmeticType()) {
+    // The expression yields a plain value, which does not refer to any storage.
     return false;
   }
 
-  if (const auto* call_expr = llvm::dyn_cast<clang::CallExpr>(&expr)) {
-    // Consider a calll expression that returns an lvalue or pointer. If some
-    // argument to the call depends on the lifetime of a materialized temporary
-    // then the overall call expression may do so too. In practice this occurs
-    // in the context of the [] operator on a std::vector. When the target
-    // vector is a temporary, the [] operator may yield a reference into
-    // storage owned by the temporary.
-    if (call_expr->isLValue() || call_expr->getType()->isPointerType()) {
-      for (const auto* arg : call_expr->arguments()) {
-        if (MayDependOnLifetimeOfMaterializedTemporaryStorage(*arg)) {
-          return true;
-        }
+  // The expression may yield a reference or pointer to some storage, or an
+  // object that contains a reference or pointer to some storage. If some subexpression may depend on the lifetime of a
+  // materialized temporary then the overall expression may do so too. In
+  // practice this occurs in the context of the [] operator on a std::vector:
+  // when the target vector is a temporary, the [] operator may yield a
+  // reference into storage owned by the temporary. It also occurs when a
+  // pointer into a temporary is dereferenced, or when a member function that
+  // returns a reference is called on a temporary.
+  for (const auto* child : expr.children()) {
+    if (const auto* child_expr = llvm::dyn_cast_or_null<clang::Expr>(child)) {
+      if (MayDependOnLifetimeOfMaterializedTemporaryStorage(*child_expr)) {
+        return true;
       }
     }
-    return false;
   }
 
   return false;
-- 
2.43.0


From 4052793daa872ab605d128cd01404d1e33508bfd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:17:27 +0000
Subject: [PATCH 10/23] fix: do not mutate x-values

An x-value such as std::move(x), for x of scalar type, was replaced with a
copy of its value. A reference bound to it thus no longer referred to x, and
a function returning it returned a dangling reference.
---
 src/libdredd/src/mutate_visitor.cc | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/src/libdredd/src/mutate_visitor.cc b/src/libdredd/src/mutate_visitor.cc
index 02b2e33..c082b75 100644
--- a/src/libdredd/src/mutate_visitor.cc
+++ b/src/libdredd/src/mutate_visitor.cc
@@ -507,6 +507,14 @@ void MutateVisitor::HandleExpr(clang::Expr* expr) {
     return;
   }
 
+  // Do not mutate x-values: the mutator function would yield a copy of the
+  // value, so that a reference bound to the expression would no longer refer to
+  // the original object. If the value of the expression is needed then the
+  // associated l-value to r-value cast is considered for mutation.
+  if (expr->isXValue()) {
+    return;
+  }
+
   // It is incorrect to attempt to mutate braced initializer lists.
   if (llvm::dyn_cast<clang::InitListExpr>(expr) != nullptr) {
     return;
-- 
2.43.0


From bbafd9d13a97326cee231578805592f06d5bc735 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:17:27 +0000
Subject: [PATCH 11/23] fix: do not move certain expressions into lambdas

In C++, mutated expressions are evaluated in lambdas. This broke setjmp,
changed the value of __func__, shortened the lifetime of memory obtained
from alloca, and led to uncompilable code in the case of co_await.
---
 .../include/libdredd/mutate_visitor.h         |  8 +++
 src/libdredd/src/mutate_visitor.cc            | 49 +++++++++++++++++++
 2 files changed, 57 insertions(+)

diff --git a/src/libdredd/include_private/include/libdredd/mutate_visitor.h b/src/libdredd/include_private/include/libdredd/mutate_visitor.h
index 3f0e50a..1d6c9b2 100644
--- a/src/libdredd/include_private/include/libdredd/mutate_visitor.h
+++ b/src/libdredd/include_private/include/libdredd/mutate_visitor.h
@@ -243,6 +243,14 @@ class MutateVisitor : public clang::RecursiveASTVisitor<MutateVisitor> {
   static bool MayDependOnLifetimeOfMaterializedTemporaryStorage(
       const clang::Expr& expr);
 
+  // Determines whether a statement has some component whose meaning depends on
+  // it being evaluated directly by the function in which the statement appears:
+  // - a predefined identifier such as __func__
+  // - a coroutine suspension point
+  // - a call to alloca
+  // - a call to a function that may return twice, such as setjmp
+  static bool MustBeEvaluatedInEnclosingFunction(const clang::Stmt& stmt);
+
   // Recursively saves constant template arguments that need to be rewritten
   // later to avoid compilation errors.
   void SaveConstantTemplateArgumentForRewrite(
diff --git a/src/libdredd/src/mutate_visitor.cc b/src/libdredd/src/mutate_visitor.cc
index c082b75..75f5b15 100644
--- a/src/libdredd/src/mutate_visitor.cc
+++ b/src/libdredd/src/mutate_visitor.cc
@@ -662,6 +662,14 @@ bool MutateVisitor::VisitExpr(clang::Expr* expr) {
     return true;
   }
 
+  if (compiler_instance_->getLangOpts().CPlusPlus &&
+      MustBeEvaluatedInEnclosingFunction(*expr)) {
+    // In C++, mutating an expression leads to it being evaluated in the body of
+    // a lambda. Do not mutate this expression, because it only has its intended
+    // meaning when evaluated directly by the function in which it appears.
+    return true;
+  }
+
   if (auto* unary_operator = llvm::dyn_cast<clang::UnaryOperator>(expr)) {
     HandleUnaryOperator(unary_operator);
   }
@@ -869,6 +877,47 @@ bool MutateVisitor::MayDependOnLifetimeOfMaterializedTemporaryStorage(
   return false;
 }
 
+bool MutateVisitor::MustBeEvaluatedInEnclosingFunction(
+    const clang::Stmt& stmt) {
+  if (llvm::isa<clang::PredefinedExpr, clang::CoroutineSuspendExpr,
+                clang::DependentCoawaitExpr>(stmt)) {
+    // The function's name, or a point at which the function may suspend.
+    return true;
+  }
+
+  if (llvm::isa<clang::LambdaExpr>(stmt)) {
+    // The body of a lambda is a function in its own right.
+    return false;
+  }
+
+  if (const auto* call_expr = llvm::dyn_cast<clang::CallExpr>(&stmt)) {
+    switch (call_expr->getBuiltinCallee()) {
+      case clang::Builtin::BIalloca:
+      case clang::Builtin::BI__builtin_alloca:
+      case clang::Builtin::BI__builtin_alloca_with_align:
+        // The allocated memory is released when the function returns.
+        return true;
+      default:
+        break;
+    }
+    if (const auto* callee = call_expr->getDirectCallee()) {
+      if (callee->hasAttr<clang::ReturnsTwiceAttr>()) {
+        // A function such as setjmp, which may return again later provided that
+        // the function that called it has not returned.
+        return true;
+      }
+    }
+  }
+
+  for (const auto* child : stmt.children()) {
+    if (child != nullptr && MustBeEvaluatedInEnclosingFunction(*child)) {
+      return true;
+    }
+  }
+
+  return false;
+}
+
 void MutateVisitor::SaveConstantTemplateArgumentForRewrite(
     const clang::TemplateSpecializationType* template_specialization_type) {
   for (auto template_argument :
-- 
2.43.0


From a258778e6f083a807ae836a0090ff1993cd1ca00 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:17:27 +0000
Subject: [PATCH 12/23] fix: do not mutate constraints and exception
 specifications

The conditions of requires clauses and noexcept specifiers are evaluated at
compile time, so that mutating them leads to uncompilable code.
---
 .../include/libdredd/mutate_visitor.h         |  4 +++
 src/libdredd/src/mutate_visitor.cc            | 30 +++++++++++++++++++
 2 files changed, 34 insertions(+)

diff --git a/src/libdredd/include_private/include/libdredd/mutate_visitor.h b/src/libdredd/include_private/include/libdredd/mutate_visitor.h
index 1d6c9b2..851b9d7 100644
--- a/src/libdredd/include_private/include/libdredd/mutate_visitor.h
+++ b/src/libdredd/include_private/include/libdredd/mutate_visitor.h
@@ -77,6 +77,10 @@ class MutateVisitor : public clang::RecursiveASTVisitor<MutateVisitor> {
   bool TraverseTemplateArgumentLoc(
       clang::TemplateArgumentLoc template_argument_loc);
 
+  // Overridden to avoid mutating exception specifications.
+  bool TraverseFunctionProtoTypeLoc(
+      clang::FunctionProtoTypeLoc function_proto_type_loc);
+
   // Overridden to avoid mutating lambda capture expressions, because the code
   // that can occur in a lambda capture expression is very limited and in
   // particular cannot include other lambdas.
diff --git a/src/libdredd/src/mutate_visitor.cc b/src/libdredd/src/mutate_visitor.cc
index 75f5b15..1728394 100644
--- a/src/libdredd/src/mutate_visitor.cc
+++ b/src/libdredd/src/mutate_visitor.cc
@@ -28,6 +28,7 @@
 #include "clang/AST/DeclCXX.h"
 #include "clang/AST/Expr.h"
 #include "clang/AST/ExprCXX.h"
+#include "clang/AST/ExprConcepts.h"
 #include "clang/AST/LambdaCapture.h"
 #include "clang/AST/OperationKinds.h"
 #include "clang/AST/RecursiveASTVisitor.h"
@@ -232,6 +233,24 @@ bool MutateVisitor::TraverseStmt(clang::Stmt* stmt) {
     return true;
   }
 
+  // Do not mutate under a 'requires' expression, and do not mutate the
+  // constraints of functions and lambdas: these are evaluated at compile time.
+  if (llvm::isa<clang::RequiresExpr>(stmt)) {
+    return true;
+  }
+  if (const auto* function_parent = GetFirstParentOfType<clang::FunctionDecl>(
+          *stmt, compiler_instance_->getASTContext())) {
+    if (function_parent->getTrailingRequiresClause() == stmt) {
+      return true;
+    }
+  }
+  if (const auto* lambda_parent = GetFirstParentOfType<clang::LambdaExpr>(
+          *stmt, compiler_instance_->getASTContext())) {
+    if (lambda_parent->getTrailingRequiresClause() == stmt) {
+      return true;
+    }
+  }
+
   // Do not mutate under 'sizeof' or 'alignof', as this is guaranteed to yield
   // equivalent mutants. Note that we *do* want to mutate above these
   // expressions, hence we ignore children of such expressions, rather than
@@ -344,6 +363,17 @@ bool MutateVisitor::TraverseTemplateArgumentLoc(
   return true;
 }
 
+bool MutateVisitor::TraverseFunctionProtoTypeLoc(
+    clang::FunctionProtoTypeLoc function_proto_type_loc) {
+  // Prevent compilers complaining that this method could be made static, and
+  // that it ignores its parameter.
+  (void)this;
+  (void)function_proto_type_loc;
+  // There is nothing to mutate in the type of a function. In particular, a
+  // C++ exception specification must be a compile-time constant.
+  return true;
+}
+
 bool MutateVisitor::TraverseLambdaCapture(
     clang::LambdaExpr* lambda_expr, const clang::LambdaCapture* lambda_capture,
     clang::Expr* init) {
-- 
2.43.0


From f7c2c563ac744cc878bcde1408a5d9941d4543cb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:08:42 +0000
Subject: [PATCH 13/23] fix: do not mutate under decltype and typeof

---
 .../include/libdredd/mutate_visitor.h          |  6 ++++++
 src/libdredd/src/mutate_visitor.cc             | 18 ++++++++++++++++++
 2 files changed, 24 insertions(+)

diff --git a/src/libdredd/include_private/include/libdredd/mutate_visitor.h b/src/libdredd/include_private/include/libdredd/mutate_visitor.h
index 851b9d7..aba234c 100644
--- a/src/libdredd/include_private/include/libdredd/mutate_visitor.h
+++ b/src/libdredd/include_private/include/libdredd/mutate_visitor.h
@@ -77,6 +77,12 @@ class MutateVisitor : public clang::RecursiveASTVisitor<MutateVisitor> {
   bool TraverseTemplateArgumentLoc(
       clang::TemplateArgumentLoc template_argument_loc);
 
+  // Overridden to avoid mutating the operands of decltype and typeof, which are
+  // not evaluated and, in C++, cannot contain lambdas in general.
+  bool TraverseDecltypeTypeLoc(clang::DecltypeTypeLoc decltype_type_loc);
+  bool TraverseTypeOfExprTypeLoc(
+      clang::TypeOfExprTypeLoc type_of_expr_type_loc);
+
   // Overridden to avoid mutating exception specifications.
   bool TraverseFunctionProtoTypeLoc(
       clang::FunctionProtoTypeLoc function_proto_type_loc);
diff --git a/src/libdredd/src/mutate_visitor.cc b/src/libdredd/src/mutate_visitor.cc
index 1728394..a90bf97 100644
--- a/src/libdredd/src/mutate_visitor.cc
+++ b/src/libdredd/src/mutate_visitor.cc
@@ -330,6 +330,24 @@ bool MutateVisitor::TraverseConstantArrayTypeLoc(
   return true;
 }
 
+bool MutateVisitor::TraverseDecltypeTypeLoc(
+    clang::DecltypeTypeLoc decltype_type_loc) {
+  // Prevent compilers complaining that this method could be made static, and
+  // that it ignores its parameter.
+  (void)this;
+  (void)decltype_type_loc;
+  return true;
+}
+
+bool MutateVisitor::TraverseTypeOfExprTypeLoc(
+    clang::TypeOfExprTypeLoc type_of_expr_type_loc) {
+  // Prevent compilers complaining that this method could be made static, and
+  // that it ignores its parameter.
+  (void)this;
+  (void)type_of_expr_type_loc;
+  return true;
+}
+
 bool MutateVisitor::TraverseVariableArrayTypeLoc(
     clang::VariableArrayTypeLoc variable_array_type_loc) {
   if (compiler_instance_->getLangOpts().CPlusPlus) {
-- 
2.43.0


From da805d5157cf37ca73c81f3bea9a6d74320d3b4a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:08:42 +0000
Subject: [PATCH 14/23] fix: do not mutate binary operators that come from
 macros

---
 src/libdredd/src/mutate_visitor.cc | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/libdredd/src/mutate_visitor.cc b/src/libdredd/src/mutate_visitor.cc
index a90bf97..93a174a 100644
--- a/src/libdredd/src/mutate_visitor.cc
+++ b/src/libdredd/src/mutate_visitor.cc
@@ -486,6 +486,12 @@ void MutateVisitor::HandleUnaryOperator(clang::UnaryOperator* unary_operator) {
 
 void MutateVisitor::HandleBinaryOperator(
     clang::BinaryOperator* binary_operator) {
+  // The operator symbol will be replaced, which is not possible if it comes
+  // from a macro.
+  if (binary_operator->getOperatorLoc().isMacroID()) {
+    return;
+  }
+
   // Check that arguments of the binary expression have source ranges that are
   // part of the main file. In particular, this avoids mutating expressions that
   // directly involve the use of macros (though it is OK if sub-expressions of
-- 
2.43.0


From bd0ed64e23492fc1b092e601a119d5d59a8d8a42 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:08:42 +0000
Subject: [PATCH 15/23] fix: handle alternative operator tokens

---
 src/libdredd/src/mutation_replace_binary_operator.cc | 7 ++++---
 src/libdredd/src/mutation_replace_unary_operator.cc  | 7 ++++---
 2 files changed, 8 insertions(+), 6 deletions(-)

diff --git a/src/libdredd/src/mutation_replace_binary_operator.cc b/src/libdredd/src/mutation_replace_binary_operator.cc
index cde2255..7e46c7a 100644
--- a/src/libdredd/src/mutation_replace_binary_operator.cc
+++ b/src/libdredd/src/mutation_replace_binary_operator.cc
@@ -28,6 +28,7 @@
 #include "clang/AST/Type.h"
 #include "clang/Basic/LangOptions.h"
 #include "clang/Basic/SourceLocation.h"
+#include "clang/Lex/Lexer.h"
 #include "clang/Lex/Preprocessor.h"
 #include "clang/Rewrite/Core/Rewriter.h"
 #include "libdredd/mutation_replace_expr.h"
@@ -683,9 +684,9 @@ void MutationReplaceBinaryOperator::ReplaceOperator(
   // Replace the operator symbol with ","
   rewriter.ReplaceText(
       binary_operator_->getOperatorLoc(),
-      static_cast<unsigned int>(
-          clang::BinaryOperator::getOpcodeStr(binary_operator_->getOpcode())
-              .size()),
+      clang::Lexer::MeasureTokenLength(binary_operator_->getOperatorLoc(),
+                                       preprocessor.getSourceManager(),
+                                       preprocessor.getLangOpts()),
       ",");
 
   // These record the text that should be inserted before and after the LHS and
diff --git a/src/libdredd/src/mutation_replace_unary_operator.cc b/src/libdredd/src/mutation_replace_unary_operator.cc
index 05c13bd..55e4d5e 100644
--- a/src/libdredd/src/mutation_replace_unary_operator.cc
+++ b/src/libdredd/src/mutation_replace_unary_operator.cc
@@ -24,6 +24,7 @@
 #include "clang/AST/Type.h"
 #include "clang/Basic/LangOptions.h"
 #include "clang/Basic/SourceLocation.h"
+#include "clang/Lex/Lexer.h"
 #include "clang/Lex/Preprocessor.h"
 #include "clang/Rewrite/Core/Rewriter.h"
 #include "libdredd/mutation_replace_expr.h"
@@ -414,9 +415,9 @@ protobufs::MutationGroup MutationReplaceUnaryOperator::Apply(
   // Remove the operator symbol.
   rewriter.ReplaceText(
       unary_operator_->getOperatorLoc(),
-      static_cast<unsigned int>(
-          clang::UnaryOperator::getOpcodeStr(unary_operator_->getOpcode())
-              .size()),
+      clang::Lexer::MeasureTokenLength(unary_operator_->getOperatorLoc(),
+                                       preprocessor.getSourceManager(),
+                                       preprocessor.getLangOpts()),
       "");
 
   // These record the text that should be inserted before and after the operand.
-- 
2.43.0


From 1bb56562795c036dc60e82858a489709d961bb24 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:08:42 +0000
Subject: [PATCH 16/23] fix: keep inserted text apart from preceding keywords
 and macros

---
 src/libdredd/include/libdredd/util.h          |  8 +++++++
 src/libdredd/src/mutation_remove_stmt.cc      | 14 +++++++----
 .../src/mutation_replace_binary_operator.cc   | 20 +++++++++++++---
 src/libdredd/src/mutation_replace_expr.cc     | 23 +------------------
 .../src/mutation_replace_unary_operator.cc    |  6 +++++
 src/libdredd/src/util.cc                      | 19 +++++++++++++++
 6 files changed, 61 insertions(+), 29 deletions(-)

diff --git a/src/libdredd/include/libdredd/util.h b/src/libdredd/include/libdredd/util.h
index bfea16b..9a66091 100644
--- a/src/libdredd/include/libdredd/util.h
+++ b/src/libdredd/include/libdredd/util.h
@@ -67,6 +67,14 @@ template <typename HasSourceRange>
 bool SourceRangeConsistencyCheck(clang::SourceRange source_range,
                                  const clang::ASTContext& ast_context);
 
+// Determines whether the character right before the given source range could
+// belong to an identifier or keyword, in which case text that starts with an
+// identifier or keyword must be separated from it, e.g. by a space, if inserted
+// at the start of the range.
+bool PrecedingCharacterIsIdentifierCharacter(
+    const clang::Preprocessor& preprocessor,
+    const clang::SourceRange& source_range);
+
 // Delegates to Expr::EvaluateAsBooleanCondition, but only if the expression is
 // not value-dependent.
 bool EvaluateAsBooleanCondition(const clang::Expr& expr,
diff --git a/src/libdredd/src/mutation_remove_stmt.cc b/src/libdredd/src/mutation_remove_stmt.cc
index 7a5be63..2335a84 100644
--- a/src/libdredd/src/mutation_remove_stmt.cc
+++ b/src/libdredd/src/mutation_remove_stmt.cc
@@ -111,15 +111,21 @@ protobufs::MutationGroup MutationRemoveStmt::Apply(
   if (options.GetOnlyTrackMutantCoverage()) {
     const bool rewriter_result = rewriter.InsertTextBefore(
         source_range.getBegin(),
-        "__dredd_record_covered_mutants" + ast_node_type_comment + "(" +
-            std::to_string(local_mutation_id) + ", 1); ");
+  // The statement may come right after a keyword, e.g. in `else--x;`.
+  const std::string separator = PrecedingCharacterIsIdentifierCharacter(
+                                    preprocessor, source_range.getAsRange())
+                                    ? " "
+                                    : "";
+
+        separator + "__dredd_record_covered_mutants" + ast_node_type_comment +
+            "(" + std::to_string(local_mutation_id) + ", 1); ");
     assert(!rewriter_result && "Rewrite failed.\n");
     (void)rewriter_result;  // Keep release-mode compilers happy.
   } else {
     bool rewriter_result = rewriter.InsertTextBefore(
         source_range.getBegin(),
-        "if (!__dredd_enabled_mutation" + ast_node_type_comment + "(" +
-            std::to_string(local_mutation_id) + ")) { ");
+        separator + "if (!__dredd_enabled_mutation" + ast_node_type_comment +
+            "(" + std::to_string(local_mutation_id) + ")) { ");
     assert(!rewriter_result && "Rewrite failed.\n");
     std::string to_insert = " }";
     if (!is_extended_with_semi && IsNextTokenHash(source_range, preprocessor)) {
diff --git a/src/libdredd/src/mutation_replace_binary_operator.cc b/src/libdredd/src/mutation_replace_binary_operator.cc
index 7e46c7a..39b2c6b 100644
--- a/src/libdredd/src/mutation_replace_binary_operator.cc
+++ b/src/libdredd/src/mutation_replace_binary_operator.cc
@@ -723,6 +723,12 @@ void MutationReplaceBinaryOperator::ReplaceOperator(
   rhs_suffix.append(", " + std::to_string(local_mutation_id) + ")");
 
   // The prefixes and suffixes are ready, so make the relevant insertions.
+  // The LHS may come right after a keyword, e.g. in `else(*p)=x;`.
+  if (PrecedingCharacterIsIdentifierCharacter(preprocessor,
+                                              lhs_source_range_in_main_file)) {
+    lhs_prefix = " " + lhs_prefix;
+  }
+
   bool rewriter_result = rewriter.InsertTextBefore(
       lhs_source_range_in_main_file.getBegin(), lhs_prefix);
   assert(!rewriter_result && "Rewrite failed.\n");
@@ -776,8 +782,12 @@ void MutationReplaceBinaryOperator::HandleCLogicalOperator(
     auto source_range_lhs =
         GetSourceRangeInMainFile(preprocessor, *binary_operator_->getLHS());
     const std::string lhs_function_name = new_function_prefix + "_lhs";
-    rewriter.InsertTextBefore(source_range_lhs.getBegin(),
-                              lhs_function_name + "(");
+    rewriter.InsertTextBefore(
+        source_range_lhs.getBegin(),
+        (PrecedingCharacterIsIdentifierCharacter(preprocessor, source_range_lhs)
+             ? " "
+             : "") +
+            lhs_function_name + "(");
     rewriter.InsertTextAfterToken(
         source_range_lhs.getEnd(),
         ", " + std::to_string(mutation_id - first_mutation_id_in_file) + ")");
@@ -881,7 +891,11 @@ void MutationReplaceBinaryOperator::HandleCLogicalOperator(
           GetSourceRangeInMainFile(preprocessor, *binary_operator_);
       const std::string outer_function_name = new_function_prefix + "_outer";
       rewriter.InsertTextBefore(source_range_binary_operator.getBegin(),
-                                outer_function_name + "(");
+                                (PrecedingCharacterIsIdentifierCharacter(
+                                     preprocessor, source_range_binary_operator)
+                                     ? " "
+                                     : "") +
+                                    outer_function_name + "(");
       rewriter.InsertTextAfterToken(
           source_range_binary_operator.getEnd(),
           ", " + std::to_string(mutation_id - first_mutation_id_in_file) + ")");
diff --git a/src/libdredd/src/mutation_replace_expr.cc b/src/libdredd/src/mutation_replace_expr.cc
index 37b4ca2..b0f8fc3 100644
--- a/src/libdredd/src/mutation_replace_expr.cc
+++ b/src/libdredd/src/mutation_replace_expr.cc
@@ -15,7 +15,6 @@
 #include "libdredd/mutation_replace_expr.h"
 
 #include <cassert>
-#include <cctype>
 #include <sstream>
 
 #include "clang/AST/APValue.h"
@@ -37,26 +36,6 @@
 #include "llvm/ADT/StringRef.h"
 #include "llvm/Support/Casting.h"
 
-namespace {
-bool PrecedingCharacterIsIdentifierCharacter(
-    const clang::ASTContext& ast_context,
-    const clang::SourceRange& source_range) {
-  bool is_invalid = false;
-  const char* pointer_to_character_before_location =
-      ast_context.getSourceManager().getCharacterData(
-          source_range.getBegin().getLocWithOffset(-1), &is_invalid);
-  if (is_invalid) {
-    return false;
-  }
-  // There is a previous character. Check whether it is alphanumeric, or an
-  // underscore.
-  const char character_before_location =
-      pointer_to_character_before_location[0];
-  return character_before_location == '_' ||
-         static_cast<bool>(std::isalnum(character_before_location));
-}
-}  // namespace
-
 namespace dredd {
 dredd::MutationReplaceExpr::MutationReplaceExpr(
     const clang::Expr& expr, const clang::Preprocessor& preprocessor,
@@ -627,7 +606,7 @@ void MutationReplaceExpr::ReplaceExprWithFunctionCall(
   // expression being mutated comes right after a macro. If this happens, then
   // unless a space is added, the function name gets conjoined onto the macro
   // name, leading to invalid code.
-  if (PrecedingCharacterIsIdentifierCharacter(ast_context,
+  if (PrecedingCharacterIsIdentifierCharacter(preprocessor,
                                               expr_source_range_in_main_file)) {
     prefix = " " + prefix;
   }
diff --git a/src/libdredd/src/mutation_replace_unary_operator.cc b/src/libdredd/src/mutation_replace_unary_operator.cc
index 55e4d5e..15e33ce 100644
--- a/src/libdredd/src/mutation_replace_unary_operator.cc
+++ b/src/libdredd/src/mutation_replace_unary_operator.cc
@@ -452,6 +452,12 @@ protobufs::MutationGroup MutationReplaceUnaryOperator::Apply(
   suffix.append(", " + std::to_string(local_mutation_id) + ")");
 
   // The prefix and suffix are ready, so make the relevant insertions.
+  // The operator may come right after a keyword, e.g. in `return-x;`.
+  if (PrecedingCharacterIsIdentifierCharacter(
+          preprocessor, unary_operator_source_range_in_main_file)) {
+    prefix = " " + prefix;
+  }
+
   bool rewriter_result = rewriter.InsertTextBefore(
       unary_operator_source_range_in_main_file.getBegin(), prefix);
   assert(!rewriter_result && "Rewrite failed.\n");
diff --git a/src/libdredd/src/util.cc b/src/libdredd/src/util.cc
index 2165a07..968324c 100644
--- a/src/libdredd/src/util.cc
+++ b/src/libdredd/src/util.cc
@@ -16,6 +16,7 @@
 
 #include <algorithm>
 #include <cassert>
+#include <cctype>
 #include <utility>
 
 #include "clang/AST/ASTContext.h"
@@ -213,4 +214,22 @@ bool IsCxx11ConstantExpr(const clang::Expr& expr,
   return {begin_loc_in_main_file, end_loc_in_main_file};
 }
 
+bool PrecedingCharacterIsIdentifierCharacter(
+    const clang::Preprocessor& preprocessor,
+    const clang::SourceRange& source_range) {
+  bool is_invalid = false;
+  const char* pointer_to_character_before_location =
+      preprocessor.getSourceManager().getCharacterData(
+          source_range.getBegin().getLocWithOffset(-1), &is_invalid);
+  if (is_invalid) {
+    return false;
+  }
+  // There is a previous character. Check whether it is alphanumeric, or an
+  // underscore.
+  const char character_before_location =
+      pointer_to_character_before_location[0];
+  return character_before_location == '_' ||
+         static_cast<bool>(std::isalnum(character_before_location));
+}
+
 }  // namespace dredd
-- 
2.43.0


From 8345afcecc2c23b1e716a68781fd2f92d6f6b6f7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:08:42 +0000
Subject: [PATCH 17/23] fix: handle removal of statements followed immediately
 by other tokens

---
 .../include/libdredd/mutation_remove_stmt.h   |  4 +
 src/libdredd/src/mutation_remove_stmt.cc      | 79 +++++++++++++++++--
 .../src/mutation_replace_binary_operator.cc   |  5 +-
 .../src/mutation_replace_unary_operator.cc    |  5 +-
 4 files changed, 82 insertions(+), 11 deletions(-)

diff --git a/src/libdredd/include/libdredd/mutation_remove_stmt.h b/src/libdredd/include/libdredd/mutation_remove_stmt.h
index a9426dc..e8e8d71 100644
--- a/src/libdredd/include/libdredd/mutation_remove_stmt.h
+++ b/src/libdredd/include/libdredd/mutation_remove_stmt.h
@@ -43,6 +43,10 @@ class MutationRemoveStmt : public Mutation {
       std::unordered_set<std::string>& dredd_declarations) const override;
 
  private:
+  // Helper method to determine whether the given statement ends with a
+  // semicolon that is not part of its source range.
+  static bool IsTerminatedBySemi(const clang::Stmt& stmt);
+
   // Helper method to determine whether the token immediately following the
   // given source range is the '#' token. This is useful for working around
   // issues where the placement of semicolons at the end of a statement that is
diff --git a/src/libdredd/src/mutation_remove_stmt.cc b/src/libdredd/src/mutation_remove_stmt.cc
index 2335a84..a901b7d 100644
--- a/src/libdredd/src/mutation_remove_stmt.cc
+++ b/src/libdredd/src/mutation_remove_stmt.cc
@@ -21,7 +21,9 @@
 
 #include "clang/AST/ASTContext.h"
 #include "clang/AST/Stmt.h"
+#include "clang/AST/StmtCXX.h"
 #include "clang/Basic/SourceLocation.h"
+#include "clang/Basic/SourceManager.h"
 #include "clang/Basic/TokenKinds.h"
 #include "clang/Lex/Lexer.h"
 #include "clang/Lex/Preprocessor.h"
@@ -30,6 +32,7 @@
 #include "clang/Tooling/Transformer/SourceCode.h"
 #include "libdredd/options.h"
 #include "libdredd/util.h"
+#include "llvm/Support/Casting.h"
 
 namespace dredd {
 
@@ -108,15 +111,15 @@ protobufs::MutationGroup MutationRemoveStmt::Apply(
                             " " + stringstream.str() + "*/";
   }
 
-  if (options.GetOnlyTrackMutantCoverage()) {
-    const bool rewriter_result = rewriter.InsertTextBefore(
-        source_range.getBegin(),
   // The statement may come right after a keyword, e.g. in `else--x;`.
   const std::string separator = PrecedingCharacterIsIdentifierCharacter(
                                     preprocessor, source_range.getAsRange())
                                     ? " "
                                     : "";
 
+  if (options.GetOnlyTrackMutantCoverage()) {
+    const bool rewriter_result = rewriter.InsertTextBefore(
+        source_range.getBegin(),
         separator + "__dredd_record_covered_mutants" + ast_node_type_comment +
             "(" + std::to_string(local_mutation_id) + ", 1); ");
     assert(!rewriter_result && "Rewrite failed.\n");
@@ -128,7 +131,10 @@ protobufs::MutationGroup MutationRemoveStmt::Apply(
             "(" + std::to_string(local_mutation_id) + ")) { ");
     assert(!rewriter_result && "Rewrite failed.\n");
     std::string to_insert = " }";
-    if (!is_extended_with_semi && IsNextTokenHash(source_range, preprocessor)) {
+    const bool needs_semi =
+        !is_extended_with_semi && (IsTerminatedBySemi(*stmt_) ||
+                                   IsNextTokenHash(source_range, preprocessor));
+    if (needs_semi) {
       // If we did not extend the range to capture an immediately-following
       // semicolon, then we could have a problem if the statement is separated
       // from its semicolon by a preprocessor directive. For example:
@@ -141,7 +147,9 @@ protobufs::MutationGroup MutationRemoveStmt::Apply(
       // If we find a hash token - indicative of a preprocessor directive -
       // having not extended the range with a semicolon, we conservatively add
       // a semicolon to ensure that the code in the conditional that is
-      // introduced is well-formed.
+      // introduced is well-formed. The same applies if the statement requires a
+      // semicolon but is followed by something else, e.g. a macro that expands
+      // to nothing.
       to_insert = "; " + to_insert;
     }
     if (is_extended_with_comment && !is_extended_with_semi) {
@@ -153,8 +161,28 @@ protobufs::MutationGroup MutationRemoveStmt::Apply(
       // line, but this would make mutated files harder to read.
       to_insert = "\n" + to_insert;
     }
-    rewriter_result =
-        rewriter.InsertTextAfterToken(source_range.getEnd(), to_insert);
+    if (needs_semi) {
+      // The end of the statement can be the end of an expression that has been
+      // mutated, and the text must follow the text inserted after that
+      // expression.
+      rewriter_result =
+          rewriter.InsertTextAfterToken(source_range.getEnd(), to_insert);
+    } else {
+      // Another statement may follow immediately, as in `x = 1;y = 2;`. To make
+      // sure that the text ends up before any text that is inserted in front of
+      // that statement, attach it to the final character of this statement.
+      const clang::SourceManager& source_manager =
+          preprocessor.getSourceManager();
+      const clang::SourceLocation last_character =
+          clang::Lexer::getAsCharRange(source_range, source_manager,
+                                       preprocessor.getLangOpts())
+              .getEnd()
+              .getLocWithOffset(-1);
+      rewriter_result = rewriter.ReplaceText(
+          last_character, 1,
+          std::string(1, *source_manager.getCharacterData(last_character)) +
+              to_insert);
+    }
     assert(!rewriter_result && "Rewrite failed.\n");
     (void)rewriter_result;  // Keep release-mode compilers happy.
   }
@@ -166,6 +194,43 @@ protobufs::MutationGroup MutationRemoveStmt::Apply(
   return result;
 }
 
+bool MutationRemoveStmt::IsTerminatedBySemi(const clang::Stmt& stmt) {
+  // Find the sub-statement with which the statement ends.
+  const clang::Stmt* last = &stmt;
+  while (true) {
+    if (const auto* if_stmt = llvm::dyn_cast<clang::IfStmt>(last)) {
+      last = if_stmt->getElse() != nullptr ? if_stmt->getElse()
+                                           : if_stmt->getThen();
+    } else if (const auto* for_stmt = llvm::dyn_cast<clang::ForStmt>(last)) {
+      last = for_stmt->getBody();
+    } else if (const auto* range_for_stmt =
+                   llvm::dyn_cast<clang::CXXForRangeStmt>(last)) {
+      last = range_for_stmt->getBody();
+    } else if (const auto* while_stmt =
+                   llvm::dyn_cast<clang::WhileStmt>(last)) {
+      last = while_stmt->getBody();
+    } else if (const auto* switch_stmt =
+                   llvm::dyn_cast<clang::SwitchStmt>(last)) {
+      last = switch_stmt->getBody();
+    } else if (const auto* switch_case =
+                   llvm::dyn_cast<clang::SwitchCase>(last)) {
+      last = switch_case->getSubStmt();
+    } else if (const auto* label_stmt =
+                   llvm::dyn_cast<clang::LabelStmt>(last)) {
+      last = label_stmt->getSubStmt();
+    } else if (const auto* attributed_stmt =
+                   llvm::dyn_cast<clang::AttributedStmt>(last)) {
+      last = attributed_stmt->getSubStmt();
+    } else {
+      break;
+    }
+  }
+  // The semicolons of null statements and declarations are part of them.
+  return !llvm::isa<clang::CompoundStmt>(last) &&
+         !llvm::isa<clang::CXXTryStmt>(last) &&
+         !llvm::isa<clang::NullStmt>(last) && !llvm::isa<clang::DeclStmt>(last);
+}
+
 bool MutationRemoveStmt::IsNextTokenHash(
     const clang::CharSourceRange& source_range,
     const clang::Preprocessor& preprocessor) {
diff --git a/src/libdredd/src/mutation_replace_binary_operator.cc b/src/libdredd/src/mutation_replace_binary_operator.cc
index 39b2c6b..9f8fdb0 100644
--- a/src/libdredd/src/mutation_replace_binary_operator.cc
+++ b/src/libdredd/src/mutation_replace_binary_operator.cc
@@ -681,7 +681,8 @@ void MutationReplaceBinaryOperator::ReplaceOperator(
   // replacing the text for the binary operator node, because the Clang rewriter
   // does not support nested replacements.
 
-  // Replace the operator symbol with ","
+  // Replace the operator symbol, which may be an alternative token such as
+  // "and", with ","
   rewriter.ReplaceText(
       binary_operator_->getOperatorLoc(),
       clang::Lexer::MeasureTokenLength(binary_operator_->getOperatorLoc(),
@@ -722,13 +723,13 @@ void MutationReplaceBinaryOperator::ReplaceOperator(
   }
   rhs_suffix.append(", " + std::to_string(local_mutation_id) + ")");
 
-  // The prefixes and suffixes are ready, so make the relevant insertions.
   // The LHS may come right after a keyword, e.g. in `else(*p)=x;`.
   if (PrecedingCharacterIsIdentifierCharacter(preprocessor,
                                               lhs_source_range_in_main_file)) {
     lhs_prefix = " " + lhs_prefix;
   }
 
+  // The prefixes and suffixes are ready, so make the relevant insertions.
   bool rewriter_result = rewriter.InsertTextBefore(
       lhs_source_range_in_main_file.getBegin(), lhs_prefix);
   assert(!rewriter_result && "Rewrite failed.\n");
diff --git a/src/libdredd/src/mutation_replace_unary_operator.cc b/src/libdredd/src/mutation_replace_unary_operator.cc
index 15e33ce..a32be7c 100644
--- a/src/libdredd/src/mutation_replace_unary_operator.cc
+++ b/src/libdredd/src/mutation_replace_unary_operator.cc
@@ -412,7 +412,8 @@ protobufs::MutationGroup MutationReplaceUnaryOperator::Apply(
   // replacing the text for the unary operator node, because the Clang rewriter
   // does not support nested replacements.
 
-  // Remove the operator symbol.
+  // Remove the operator symbol, which may be an alternative token such as
+  // "not".
   rewriter.ReplaceText(
       unary_operator_->getOperatorLoc(),
       clang::Lexer::MeasureTokenLength(unary_operator_->getOperatorLoc(),
@@ -451,13 +452,13 @@ protobufs::MutationGroup MutationReplaceUnaryOperator::Apply(
   }
   suffix.append(", " + std::to_string(local_mutation_id) + ")");
 
-  // The prefix and suffix are ready, so make the relevant insertions.
   // The operator may come right after a keyword, e.g. in `return-x;`.
   if (PrecedingCharacterIsIdentifierCharacter(
           preprocessor, unary_operator_source_range_in_main_file)) {
     prefix = " " + prefix;
   }
 
+  // The prefix and suffix are ready, so make the relevant insertions.
   bool rewriter_result = rewriter.InsertTextBefore(
       unary_operator_source_range_in_main_file.getBegin(), prefix);
   assert(!rewriter_result && "Rewrite failed.\n");
-- 
2.43.0


From fb2f6278d7e94565b050445bc54983a6b9fb6ba3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:23:33 +0000
Subject: [PATCH 18/23] fix: detect source ranges that end on an earlier line
 than they start

---
 src/libdredd/src/util.cc | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/libdredd/src/util.cc b/src/libdredd/src/util.cc
index 968324c..f438601 100644
--- a/src/libdredd/src/util.cc
+++ b/src/libdredd/src/util.cc
@@ -116,7 +116,8 @@ bool SourceRangeConsistencyCheck(clang::SourceRange source_range,
       source_manager.getSpellingColumnNumber(source_range.getEnd()) +
       final_token_length;
 
-  return start_line < end_line || start_column < end_column;
+  return start_line < end_line ||
+         (start_line == end_line && start_column < end_column);
 }
 
 InfoForSourceRange::InfoForSourceRange(clang::SourceRange source_range,
-- 
2.43.0


From 5913b08ba63e2b0a32c85ac5a67460860aa888a3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:41:37 +0000
Subject: [PATCH 19/23] fix: do not crash on brace-initialised enumerations

The explicit cast that is added around a mutated element of an initializer
list assumed that the type of the element is a built-in type, so that dredd
crashed on e.g. `E{3}` or `std::byte{3}`.
---
 src/libdredd/src/mutation_replace_expr.cc | 24 +++++++++++++----------
 1 file changed, 14 insertions(+), 10 deletions(-)

diff --git a/src/libdredd/src/mutation_replace_expr.cc b/src/libdredd/src/mutation_replace_expr.cc
index b0f8fc3..96f4377 100644
--- a/src/libdredd/src/mutation_replace_expr.cc
+++ b/src/libdredd/src/mutation_replace_expr.cc
@@ -584,17 +584,21 @@ void MutationReplaceExpr::ReplaceExprWithFunctionCall(
   }
   if (IsSubjectToImplicitCastInInitializerList(*deparenthesis_expr,
                                                ast_context)) {
-    // Add an explicit cast to the result type of the explicit cast.
-    const auto* implicit_cast_expr =
+    // Add an explicit cast to the result type of the implicit cast. In the case
+    // of an enumeration, the cast is to its underlying type.
+    clang::QualType result_type =
         GetFirstParentOfType<clang::ImplicitCastExpr>(*deparenthesis_expr,
-                                                      ast_context);
-    prefix = "static_cast<" +
-             implicit_cast_expr->getType()
-                 ->getAs<clang::BuiltinType>()
-                 ->getName(ast_context.getPrintingPolicy())
-                 .str() +
-             ">(" + prefix;
-    suffix.append(")");
+                                                      ast_context)
+            ->getType();
+    if (const auto* enum_type = result_type->getAs<clang::EnumType>()) {
+      result_type = enum_type->getDecl()->getIntegerType();
+    }
+    if (const auto* builtin_type = result_type->getAs<clang::BuiltinType>()) {
+      prefix = "static_cast<" +
+               builtin_type->getName(ast_context.getPrintingPolicy()).str() +
+               ">(" + prefix;
+      suffix.append(")");
+    }
   }
 
   const clang::SourceRange expr_source_range_in_main_file =
-- 
2.43.0


From 1ae5ff626c28d5b07d60b7852a9461ba2fb8b8f8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:51:08 +0000
Subject: [PATCH 20/23] fix: do not take references to l-values that do not
 support it

Elements of vectors cannot be bound to references or have their address taken,
and in C this also applies to 'register' variables, so that mutating them
yielded code that does not compile.
---
 src/libdredd/include/libdredd/util.h      |  6 +++++
 src/libdredd/src/mutate_visitor.cc        | 11 +++++----
 src/libdredd/src/mutation_replace_expr.cc |  4 ++--
 src/libdredd/src/util.cc                  | 28 +++++++++++++++++++++++
 4 files changed, 43 insertions(+), 6 deletions(-)

diff --git a/src/libdredd/include/libdredd/util.h b/src/libdredd/include/libdredd/util.h
index 9a66091..9bf1861 100644
--- a/src/libdredd/include/libdredd/util.h
+++ b/src/libdredd/include/libdredd/util.h
@@ -75,6 +75,12 @@ bool PrecedingCharacterIsIdentifierCharacter(
     const clang::Preprocessor& preprocessor,
     const clang::SourceRange& source_range);
 
+// Determines whether the given l-value can be passed to a mutator function by
+// reference (in C++) or via its address (in C). This is not possible for
+// bit-fields, elements of vectors, and variables that are declared 'register'.
+bool CanBePassedByReference(const clang::Expr& expr,
+                            const clang::ASTContext& ast_context);
+
 // Delegates to Expr::EvaluateAsBooleanCondition, but only if the expression is
 // not value-dependent.
 bool EvaluateAsBooleanCondition(const clang::Expr& expr,
diff --git a/src/libdredd/src/mutate_visitor.cc b/src/libdredd/src/mutate_visitor.cc
index 93a174a..6514a17 100644
--- a/src/libdredd/src/mutate_visitor.cc
+++ b/src/libdredd/src/mutate_visitor.cc
@@ -437,9 +437,10 @@ void MutateVisitor::HandleUnaryOperator(clang::UnaryOperator* unary_operator) {
   // Mutation functions for ++ and -- operators require their argument to be
   // passed by reference. It is not possible to pass bit-fields by reference,
   // this mutation of these operators when applied to bit-fields is not
-  // supported.
+  // supported. The same applies to some other l-values.
   if (unary_operator->isIncrementDecrementOp() &&
-      unary_operator->getSubExpr()->refersToBitField()) {
+      !CanBePassedByReference(*unary_operator->getSubExpr(),
+                              compiler_instance_->getASTContext())) {
     return;
   }
 
@@ -517,9 +518,11 @@ void MutateVisitor::HandleBinaryOperator(
   // Mutation functions for assignment operators (for example +=) require their
   // first argument to be passed by reference. It is not possible to pass
   // bit-fields by reference, this mutation of these operators when applied to a
-  // bit-field first argument is not supported.
+  // bit-field first argument is not supported. The same applies to some other
+  // l-values.
   if (binary_operator->isAssignmentOp() &&
-      binary_operator->getLHS()->refersToBitField()) {
+      !CanBePassedByReference(*binary_operator->getLHS(),
+                              compiler_instance_->getASTContext())) {
     return;
   }
 
diff --git a/src/libdredd/src/mutation_replace_expr.cc b/src/libdredd/src/mutation_replace_expr.cc
index 96f4377..fa23a4c 100644
--- a/src/libdredd/src/mutation_replace_expr.cc
+++ b/src/libdredd/src/mutation_replace_expr.cc
@@ -687,8 +687,8 @@ bool MutationReplaceExpr::CanMutateLValue(clang::ASTContext& ast_context,
   }
   // Bit-fields cannot be passed by reference, and mutator functions for
   // l-values must be passed by reference, hence bit-fields are not supported
-  // in this context.
-  if (expr.refersToBitField()) {
+  // in this context. The same applies to some other l-values.
+  if (!CanBePassedByReference(expr, ast_context)) {
     return false;
   }
   // The following checks that `expr` is the child of an ImplicitCastExpr that
diff --git a/src/libdredd/src/util.cc b/src/libdredd/src/util.cc
index f438601..2880227 100644
--- a/src/libdredd/src/util.cc
+++ b/src/libdredd/src/util.cc
@@ -233,4 +233,32 @@ bool PrecedingCharacterIsIdentifierCharacter(
          static_cast<bool>(std::isalnum(character_before_location));
 }
 
+bool CanBePassedByReference(const clang::Expr& expr,
+                            const clang::ASTContext& ast_context) {
+  if (expr.refersToBitField() || expr.refersToVectorElement() ||
+      expr.refersToMatrixElement() || expr.refersToGlobalRegisterVar()) {
+    return false;
+  }
+  if (ast_context.getLangOpts().CPlusPlus) {
+    return true;
+  }
+  // In C, the address of a 'register' variable, or of any part of such a
+  // variable, cannot be taken.
+  const clang::Expr* base = expr.IgnoreParens();
+  while (const auto* member_expr = llvm::dyn_cast<clang::MemberExpr>(base)) {
+    if (member_expr->isArrow()) {
+      return true;
+    }
+    base = member_expr->getBase()->IgnoreParens();
+  }
+  const auto* decl_ref_expr = llvm::dyn_cast<clang::DeclRefExpr>(base);
+  if (decl_ref_expr == nullptr) {
+    return true;
+  }
+  const auto* var_decl =
+      llvm::dyn_cast<clang::VarDecl>(decl_ref_expr->getDecl());
+  return var_decl == nullptr ||
+         var_decl->getStorageClass() != clang::StorageClass::SC_Register;
+}
+
 }  // namespace dredd
-- 
2.43.0


From f9a7109593494a603ddce882fe276af05641a9fc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:51:08 +0000
Subject: [PATCH 21/23] fix: do not crash on __extension__, __real__ and
 __imag__

These operators were considered for replacement, which tripped an assertion.
---
 src/libdredd/src/mutate_visitor.cc | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/src/libdredd/src/mutate_visitor.cc b/src/libdredd/src/mutate_visitor.cc
index 6514a17..3f4059f 100644
--- a/src/libdredd/src/mutate_visitor.cc
+++ b/src/libdredd/src/mutate_visitor.cc
@@ -429,6 +429,14 @@ void MutateVisitor::HandleUnaryOperator(clang::UnaryOperator* unary_operator) {
     return;
   }
 
+  // The GNU operators '__extension__', '__real__' and '__imag__' cannot be
+  // replaced.
+  if (unary_operator->getOpcode() == clang::UnaryOperatorKind::UO_Extension ||
+      unary_operator->getOpcode() == clang::UnaryOperatorKind::UO_Real ||
+      unary_operator->getOpcode() == clang::UnaryOperatorKind::UO_Imag) {
+    return;
+  }
+
   // Check that the argument type is supported
   if (!IsTypeSupported(unary_operator->getSubExpr()->getType())) {
     return;
-- 
2.43.0


From c3f11c559aa49f5164c75f464843d59eae32ae53 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:51:08 +0000
Subject: [PATCH 22/23] fix: preserve the meaning of GNU statement expressions

The last statement of a statement expression provides its value, so it cannot
be removed, and a return or other jump in a statement expression cannot be
moved into a lambda.
---
 .../include/libdredd/mutate_visitor.h             |  1 +
 src/libdredd/src/mutate_visitor.cc                | 15 +++++++++++++++
 2 files changed, 16 insertions(+)

diff --git a/src/libdredd/include_private/include/libdredd/mutate_visitor.h b/src/libdredd/include_private/include/libdredd/mutate_visitor.h
index aba234c..c3f0afd 100644
--- a/src/libdredd/include_private/include/libdredd/mutate_visitor.h
+++ b/src/libdredd/include_private/include/libdredd/mutate_visitor.h
@@ -257,6 +257,7 @@ class MutateVisitor : public clang::RecursiveASTVisitor<MutateVisitor> {
   // it being evaluated directly by the function in which the statement appears:
   // - a predefined identifier such as __func__
   // - a coroutine suspension point
+  // - a jump, or an inline assembly statement, in a GNU statement expression
   // - a call to alloca
   // - a call to a function that may return twice, such as setjmp
   static bool MustBeEvaluatedInEnclosingFunction(const clang::Stmt& stmt);
diff --git a/src/libdredd/src/mutate_visitor.cc b/src/libdredd/src/mutate_visitor.cc
index 3f4059f..42edf54 100644
--- a/src/libdredd/src/mutate_visitor.cc
+++ b/src/libdredd/src/mutate_visitor.cc
@@ -792,6 +792,13 @@ bool MutateVisitor::TraverseCompoundStmt(clang::CompoundStmt* compound_stmt) {
       // without risking breaking compilation.
       continue;
     }
+    if (stmt == compound_stmt->body_back() &&
+        GetFirstParentOfType<clang::StmtExpr>(
+            *compound_stmt, compiler_instance_->getASTContext()) != nullptr) {
+      // The last statement of a GNU statement expression provides the value of
+      // the expression.
+      continue;
+    }
     if (options_->GetOptimiseMutations() &&
         llvm::dyn_cast<clang::CompoundStmt>(target_stmt) != nullptr) {
       // It is likely redundant to remove a compound statement since each of its
@@ -955,6 +962,14 @@ bool MutateVisitor::MustBeEvaluatedInEnclosingFunction(
     return false;
   }
 
+  if (llvm::isa<clang::ReturnStmt, clang::BreakStmt, clang::ContinueStmt,
+                clang::GotoStmt, clang::IndirectGotoStmt, clang::AsmStmt,
+                clang::AddrLabelExpr>(stmt)) {
+    // These can be part of a GNU statement expression. (A jump may have its
+    // target inside the expression; it is not worth distinguishing this case.)
+    return true;
+  }
+
   if (const auto* call_expr = llvm::dyn_cast<clang::CallExpr>(&stmt)) {
     switch (call_expr->getBuiltinCallee()) {
       case clang::Builtin::BIalloca:
-- 
2.43.0


From 7ea274cc122b1864464633237b61b83eee17bb78 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:51:08 +0000
Subject: [PATCH 23/23] fix: do not mutate constant arguments of built-in
 functions

Many built-in functions, __builtin_shufflevector and inline assembly require
constant operands. The return address and the frame address depend on the
function in which they are evaluated, so are not to be moved into a lambda.
---
 .../include/libdredd/mutate_visitor.h         |  4 +++
 src/libdredd/src/mutate_visitor.cc            | 35 +++++++++++++++++++
 2 files changed, 39 insertions(+)

diff --git a/src/libdredd/include_private/include/libdredd/mutate_visitor.h b/src/libdredd/include_private/include/libdredd/mutate_visitor.h
index c3f0afd..7af9c42 100644
--- a/src/libdredd/include_private/include/libdredd/mutate_visitor.h
+++ b/src/libdredd/include_private/include/libdredd/mutate_visitor.h
@@ -262,6 +262,10 @@ class MutateVisitor : public clang::RecursiveASTVisitor<MutateVisitor> {
   // - a call to a function that may return twice, such as setjmp
   static bool MustBeEvaluatedInEnclosingFunction(const clang::Stmt& stmt);
 
+  // Determines whether the given expression is an argument of a compiler
+  // built-in function or operator that might be required to be constant.
+  bool IsConstantArgumentOfBuiltin(const clang::Expr& expr) const;
+
   // Recursively saves constant template arguments that need to be rewritten
   // later to avoid compilation errors.
   void SaveConstantTemplateArgumentForRewrite(
diff --git a/src/libdredd/src/mutate_visitor.cc b/src/libdredd/src/mutate_visitor.cc
index 42edf54..7cceef3 100644
--- a/src/libdredd/src/mutate_visitor.cc
+++ b/src/libdredd/src/mutate_visitor.cc
@@ -296,6 +296,22 @@ bool MutateVisitor::TraverseStmt(clang::Stmt* stmt) {
     }
   }
 
+  // Various other built-in functions and operators require particular arguments
+  // to be constants, so constant arguments are not mutated. (Functions of the C
+  // standard library are not affected by this, even if the compiler treats
+  // calls to them as calls to built-in functions.)
+  if (const auto* expr = llvm::dyn_cast<clang::Expr>(stmt)) {
+    if (IsConstantArgumentOfBuiltin(*expr)) {
+      return true;
+    }
+  }
+
+  // The operands of inline assembly may be required to be constants, or to
+  // refer to particular variables, so they are not mutated.
+  if (llvm::isa<clang::AsmStmt>(stmt)) {
+    return true;
+  }
+
   // Do not mutate expression under `decltype`, as Dredd doesn't change the type
   // of underlying expression.
   if (const auto* cast_expr = llvm::dyn_cast<clang::CastExpr>(stmt)) {
@@ -977,6 +993,10 @@ bool MutateVisitor::MustBeEvaluatedInEnclosingFunction(
       case clang::Builtin::BI__builtin_alloca_with_align:
         // The allocated memory is released when the function returns.
         return true;
+      case clang::Builtin::BI__builtin_frame_address:
+      case clang::Builtin::BI__builtin_return_address:
+        // The result depends on the function that is being executed.
+        return true;
       default:
         break;
     }
@@ -998,6 +1018,21 @@ bool MutateVisitor::MustBeEvaluatedInEnclosingFunction(
   return false;
 }
 
+bool MutateVisitor::IsConstantArgumentOfBuiltin(const clang::Expr& expr) const {
+  auto& ast_context = compiler_instance_->getASTContext();
+  if (GetFirstParentOfType<clang::ShuffleVectorExpr>(expr, ast_context) ==
+      nullptr) {
+    const auto* call_expr =
+        GetFirstParentOfType<clang::CallExpr>(expr, ast_context);
+    if (call_expr == nullptr || call_expr->getBuiltinCallee() == 0 ||
+        ast_context.BuiltinInfo.isPredefinedLibFunction(
+            call_expr->getBuiltinCallee())) {
+      return false;
+    }
+  }
+  return expr.isValueDependent() || expr.isIntegerConstantExpr(ast_context);
+}
+
 void MutateVisitor::SaveConstantTemplateArgumentForRewrite(
     const clang::TemplateSpecializationType* template_specialization_type) {
   for (auto template_argument :
-- 
2.43.0

