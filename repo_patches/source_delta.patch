From 7e920e5f6979d2e62e45bacdb1992e96fdd4189a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:45:03 +0000
Subject: [PATCH 01/19] fix: do not record coverage for replacement functions
 without mutants

When optimisations remove every mutant of a replacement function, tracking
mode still emitted a call recording zero mutants starting at the id of the
next mutation. That marked the next mutation as already recorded, so its
mutants were never reported as covered (and indexed out of bounds when there
was no next mutation).
---
 src/libdredd/src/mutation_replace_binary_operator.cc | 2 +-
 src/libdredd/src/mutation_replace_expr.cc            | 2 +-
 src/libdredd/src/mutation_replace_unary_operator.cc  | 2 +-
 3 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/libdredd/src/mutation_replace_binary_operator.cc b/src/libdredd/src/mutation_replace_binary_operator.cc
index 3373707..b8202af 100644
--- a/src/libdredd/src/mutation_replace_binary_operator.cc
+++ b/src/libdredd/src/mutation_replace_binary_operator.cc
@@ -501,7 +501,7 @@ std::string MutationReplaceBinaryOperator::GenerateMutatorFunction(
                               mutation_id, new_function, mutation_id_offset,
                               protobuf_message);
 
-  if (only_track_mutant_coverage) {
+  if (only_track_mutant_coverage && mutation_id_offset > 0) {
     new_function << "  __dredd_record_covered_mutants(local_mutation_id, " +
                         std::to_string(mutation_id_offset) + ");\n";
   }
diff --git a/src/libdredd/src/mutation_replace_expr.cc b/src/libdredd/src/mutation_replace_expr.cc
index 7dec481..314c667 100644
--- a/src/libdredd/src/mutation_replace_expr.cc
+++ b/src/libdredd/src/mutation_replace_expr.cc
@@ -496,7 +496,7 @@ std::string MutationReplaceExpr::GenerateMutatorFunction(
       ast_context, optimise_mutations, only_track_mutant_coverage, mutation_id,
       new_function, mutation_id_offset, protobuf_message);
 
-  if (only_track_mutant_coverage) {
+  if (only_track_mutant_coverage && mutation_id_offset > 0) {
     new_function << "  __dredd_record_covered_mutants(local_mutation_id, " +
                         std::to_string(mutation_id_offset) + ");\n";
   }
diff --git a/src/libdredd/src/mutation_replace_unary_operator.cc b/src/libdredd/src/mutation_replace_unary_operator.cc
index 5782279..1243d2e 100644
--- a/src/libdredd/src/mutation_replace_unary_operator.cc
+++ b/src/libdredd/src/mutation_replace_unary_operator.cc
@@ -229,7 +229,7 @@ std::string MutationReplaceUnaryOperator::GenerateMutatorFunction(
       only_track_mutant_coverage, mutation_id, new_function, mutation_id_offset,
       protobuf_message);
 
-  if (only_track_mutant_coverage) {
+  if (only_track_mutant_coverage && mutation_id_offset > 0) {
     new_function << "  __dredd_record_covered_mutants(local_mutation_id, " +
                         std::to_string(mutation_id_offset) + ");\n";
   }
-- 
2.43.0


From e4773655d7c36d08c15b08e82df047ded77eb8ba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:45:03 +0000
Subject: [PATCH 02/19] fix: tolerate an unwritable mutant tracking file in C
 programs

The C prelude passed the result of fopen to fprintf without checking it, so
a program in mutant tracking mode crashed if the tracking file could not be
opened. The C++ prelude already carries on in this case.
---
 src/libdredd/src/mutate_ast_consumer.cc | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/libdredd/src/mutate_ast_consumer.cc b/src/libdredd/src/mutate_ast_consumer.cc
index 568e5ea..8e46e01 100644
--- a/src/libdredd/src/mutate_ast_consumer.cc
+++ b/src/libdredd/src/mutate_ast_consumer.cc
@@ -456,6 +456,7 @@ std::string MutateAstConsumer::GetMutantTrackingDreddPreludeC(
             "getenv(\"DREDD_MUTANT_TRACKING_FILE\");\n";
   result << "  if (!dredd_tracking_environment_variable) return;\n";
   result << "  FILE* fp = fopen(dredd_tracking_environment_variable, \"a\");\n";
+  result << "  if (!fp) return;\n";
   result << "  for (int i = 0; i < num_mutations; i++) {\n";
   result << R"(    fprintf(fp, "%d\n", )" + std::to_string(initial_mutation_id)
          << " + local_mutation_id + i);\n";
-- 
2.43.0


From 99d0c6899b297fb4efcbad6a00b302cae90080bd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:46:08 +0000
Subject: [PATCH 03/19] fix: do not try to mutate unary operators such as
 __extension__

HandleUnaryOperator accepted any unary operator on a supported type, so
GNU operators like __extension__, __real and __imag reached an assertion
failure (or undefined behaviour in release builds).
---
 src/libdredd/src/mutate_visitor.cc | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/src/libdredd/src/mutate_visitor.cc b/src/libdredd/src/mutate_visitor.cc
index 604f7c9..c7d7784 100644
--- a/src/libdredd/src/mutate_visitor.cc
+++ b/src/libdredd/src/mutate_visitor.cc
@@ -381,6 +381,13 @@ void MutateVisitor::HandleUnaryOperator(clang::UnaryOperator* unary_operator) {
     return;
   }
 
+  // Don't mutate operators for which no mutations are defined, such as
+  // '__extension__' and '__real'.
+  if (!unary_operator->isArithmeticOp() &&
+      !unary_operator->isIncrementDecrementOp()) {
+    return;
+  }
+
   // Check that the argument type is supported
   if (!IsTypeSupported(unary_operator->getSubExpr()->getType())) {
     return;
-- 
2.43.0


From 12b88091253344ed3fdf343893c0d1bef11a3f25 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:46:55 +0000
Subject: [PATCH 04/19] fix: keep the value of negative and enum template
 arguments

A template argument was replaced by its value printed as an unsigned number,
so U<-2> became U<4294967294>, and an argument of unscoped enum type became an
integer; neither compiles. Print the value with its sign, and leave arguments
of enum type, which cannot depend on mutated code, as they are.
---
 .../include/libdredd/mutate_ast_consumer.h    |  4 +--
 src/libdredd/src/mutate_ast_consumer.cc       | 28 +++++++++++--------
 2 files changed, 18 insertions(+), 14 deletions(-)

diff --git a/src/libdredd/include_private/include/libdredd/mutate_ast_consumer.h b/src/libdredd/include_private/include/libdredd/mutate_ast_consumer.h
index 0f06a8f..760d568 100644
--- a/src/libdredd/include_private/include/libdredd/mutate_ast_consumer.h
+++ b/src/libdredd/include_private/include/libdredd/mutate_ast_consumer.h
@@ -65,8 +65,8 @@ class MutateAstConsumer : public clang::ASTConsumer {
 
   void RewriteExpressionsInMainFile();
 
-  bool RewriteExpressionInMainFileToIntegerConstant(const clang::Expr* expr,
-                                                    uint64_t integer_constant);
+  bool RewriteExpressionInMainFileToIntegerConstant(
+      const clang::Expr* expr, const std::string& integer_constant);
 
   void ApplyMutations(
       const MutationTreeNode& dredd_mutation_tree_node, int initial_mutation_id,
diff --git a/src/libdredd/src/mutate_ast_consumer.cc b/src/libdredd/src/mutate_ast_consumer.cc
index 8e46e01..b1ea468 100644
--- a/src/libdredd/src/mutate_ast_consumer.cc
+++ b/src/libdredd/src/mutate_ast_consumer.cc
@@ -39,6 +39,7 @@
 #include "libdredd/util.h"
 #include "llvm/ADT/APInt.h"
 #include "llvm/ADT/APSInt.h"
+#include "llvm/ADT/StringExtras.h"
 #include "llvm/ADT/StringRef.h"
 #include "llvm/Support/Casting.h"
 #include "llvm/Support/raw_ostream.h"
@@ -197,12 +198,12 @@ void MutateAstConsumer::RewriteExpressionsInMainFile() {
             typeloc.getUnqualifiedLoc().getAs<clang::ConstantArrayTypeLoc>()) {
       RewriteExpressionInMainFileToIntegerConstant(
           constant_array_typeloc.getSizeExpr(),
-          llvm::dyn_cast<clang::ConstantArrayType>(
-              constant_array_typeloc.getType()
-                  ->getAsArrayTypeUnsafe()
-                  ->getAsArrayTypeUnsafe())
-              ->getSize()
-              .getLimitedValue());
+          std::to_string(llvm::dyn_cast<clang::ConstantArrayType>(
+                             constant_array_typeloc.getType()
+                                 ->getAsArrayTypeUnsafe()
+                                 ->getAsArrayTypeUnsafe())
+                             ->getSize()
+                             .getLimitedValue()));
       typeloc = constant_array_typeloc.getElementLoc();
     }
   }
@@ -213,7 +214,7 @@ void MutateAstConsumer::RewriteExpressionsInMainFile() {
   for (const auto& static_assert_decl :
        visitor_->GetStaticAssertionsToRewrite()) {
     RewriteExpressionInMainFileToIntegerConstant(
-        static_assert_decl->getAssertExpr(), 1);
+        static_assert_decl->getAssertExpr(), "1");
   }
 
   // Rewrite the constant integer arguments of builtin functions and templates.
@@ -224,27 +225,30 @@ void MutateAstConsumer::RewriteExpressionsInMainFile() {
       continue;
     }
     already_rewritten.insert(constant_argument_expresion);
+    if (constant_argument_expresion->getType()->isEnumeralType()) {
+      // An integer is not a valid template argument for a parameter of enum
+      // type, and enum constants are never mutated.
+      continue;
+    }
     if (const auto integer_const_expr =
             constant_argument_expresion->getIntegerConstantExpr(
                 compiler_instance_->getASTContext())) {
       // Argument is an integer constant
       RewriteExpressionInMainFileToIntegerConstant(
-          constant_argument_expresion, integer_const_expr->getLimitedValue());
+          constant_argument_expresion, llvm::toString(*integer_const_expr, 10));
     }
   }
 }
 
 bool MutateAstConsumer::RewriteExpressionInMainFileToIntegerConstant(
-    const clang::Expr* expr, uint64_t integer_constant) {
+    const clang::Expr* expr, const std::string& integer_constant) {
   auto source_range_in_main_file =
       GetSourceRangeInMainFile(compiler_instance_->getPreprocessor(), *expr);
 
   // We only consider the rewriting if the source range for the size
   // expression is in the main source file.
   if (source_range_in_main_file.isValid()) {
-    std::stringstream stringstream;
-    stringstream << integer_constant;
-    rewriter_.ReplaceText(source_range_in_main_file, stringstream.str());
+    rewriter_.ReplaceText(source_range_in_main_file, integer_constant);
     return true;
   }
   return false;
-- 
2.43.0


From 1b4916705a5fbb5eaf3aa9851fdc565ef63c2a4e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:54:07 +0000
Subject: [PATCH 05/19] fix: do not mutate a file twice when it is named in
 different ways

Files were considered already processed only if the exact path passed to the
compiler had been seen before, so a file named via different spellings
(file.cc and dir/../file.cc) was mutated twice.
---
 .../src/new_mutate_frontend_action_factory.cc | 21 ++++++++++++++++++-
 1 file changed, 20 insertions(+), 1 deletion(-)

diff --git a/src/libdredd/src/new_mutate_frontend_action_factory.cc b/src/libdredd/src/new_mutate_frontend_action_factory.cc
index dee7212..be07073 100644
--- a/src/libdredd/src/new_mutate_frontend_action_factory.cc
+++ b/src/libdredd/src/new_mutate_frontend_action_factory.cc
@@ -26,7 +26,10 @@
 #include "clang/Tooling/Tooling.h"
 #include "libdredd/mutate_ast_consumer.h"
 #include "libdredd/options.h"
+#include "llvm/ADT/SmallString.h"
 #include "llvm/ADT/StringRef.h"
+#include "llvm/Support/Path.h"
+#include "llvm/Support/VirtualFileSystem.h"
 #include "llvm/Support/raw_ostream.h"
 
 namespace dredd {
@@ -54,8 +57,23 @@ class MutateFrontendAction : public clang::ASTFrontendAction {
     (void)input_exists;  // Keep release-mode compilers happy.
     assert(input_exists && "No current file.");
 
+    // The same file may be referred to via different paths, so also identify it
+    // by its name and the real path of its directory.
+    llvm::StringRef directory = llvm::sys::path::parent_path(getCurrentFile());
+    if (directory.empty()) {
+      directory = ".";
+    }
+    llvm::SmallString<256> file_id;
+    if (compiler_instance.getVirtualFileSystem().getRealPath(directory,
+                                                             file_id)) {
+      file_id = directory;
+    }
+    llvm::sys::path::append(file_id,
+                            llvm::sys::path::filename(getCurrentFile()));
+
     // Check whether this file has already been processed.
-    if (processed_files_->contains(getCurrentFile().str())) {
+    if (processed_files_->contains(getCurrentFile().str()) ||
+        processed_files_->contains(file_id.str().str())) {
       llvm::errs() << "Warning: already processed " << getCurrentFile()
                    << "; skipping repeat occurrence.\n";
       return false;
@@ -64,6 +82,7 @@ class MutateFrontendAction : public clang::ASTFrontendAction {
     // Record that this file has been processed so that duplicate processing
     // will be detected in the future.
     processed_files_->insert(getCurrentFile().str());
+    processed_files_->insert(file_id.str().str());
     return true;
   }
 
-- 
2.43.0


From d4d6868f1f0fd44171cfdd79907255e335d7461a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:15:13 +0000
Subject: [PATCH 06/19] fix: do not split multi-byte characters when
 abbreviating snippets

---
 src/libdredd/src/util.cc | 25 ++++++++++++++++---------
 1 file changed, 16 insertions(+), 9 deletions(-)

diff --git a/src/libdredd/src/util.cc b/src/libdredd/src/util.cc
index 2165a07..8e5d6d0 100644
--- a/src/libdredd/src/util.cc
+++ b/src/libdredd/src/util.cc
@@ -153,15 +153,22 @@ InfoForSourceRange::InfoForSourceRange(clang::SourceRange source_range,
   if (length <= kMinSnippedLength) {
     snippet_ = buffer_data.substr(start_loc_decomposed.second, length).str();
   } else {
-    snippet_ =
-        buffer_data.substr(start_loc_decomposed.second, kSnippetLengthEachSide)
-            .str() +
-        kSnipText +
-        buffer_data
-            .substr(
-                start_loc_decomposed.second + length - kSnippetLengthEachSide,
-                kSnippetLengthEachSide)
-            .str();
+    // Avoid splitting a multi-byte UTF-8 character at either side of the snip,
+    // by skipping continuation bytes.
+    const auto is_continuation_byte = [&buffer_data](unsigned int offset) {
+      return (static_cast<unsigned char>(buffer_data[offset]) & 0xC0) == 0x80;
+    };
+    const unsigned int start_offset = start_loc_decomposed.second;
+    unsigned int prefix_end = start_offset + kSnippetLengthEachSide;
+    while (is_continuation_byte(prefix_end)) {
+      prefix_end++;
+    }
+    unsigned int suffix_start = start_offset + length - kSnippetLengthEachSide;
+    while (suffix_start > prefix_end && is_continuation_byte(suffix_start)) {
+      suffix_start--;
+    }
+    snippet_ = buffer_data.slice(start_offset, prefix_end).str() + kSnipText +
+               buffer_data.slice(suffix_start, start_offset + length).str();
   }
 }
 
-- 
2.43.0


From f1c268f5bdc5f54aa5c223040bae66e6a59f8bdc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:15:13 +0000
Subject: [PATCH 07/19] fix: treat columns as byte offsets when querying mutant
 information

---
 scripts/query_mutant_info.py | 14 ++++++++++----
 1 file changed, 10 insertions(+), 4 deletions(-)

diff --git a/scripts/query_mutant_info.py b/scripts/query_mutant_info.py
index badea50..108dda8 100755
--- a/scripts/query_mutant_info.py
+++ b/scripts/query_mutant_info.py
@@ -57,6 +57,10 @@ def parenthesise_if_needed(expr_text: str) -> str:
     return f"({expr_text})"
 
 
+def decode_source_text(source_text: bytes) -> str:
+    return source_text.decode('utf-8', errors='replace').replace('\r\n', '\n')
+
+
 # Returns:
 # (range is on single line?, range description, blank prefix, text for range)
 def get_text_for_source_range(start_location: Dict[str, int],
@@ -69,15 +73,17 @@ def get_text_for_source_range(start_location: Dict[str, int],
     end_column = end_location['column']
     range_description = f"{filename_without_prefix}, {start_line}:{start_column}--{end_line}:{end_column}"
 
-    lines = open(original_source_code_filename, 'r').readlines()
+    # Columns count bytes, so the text for the range is extracted before decoding.
+    with open(original_source_code_filename, 'rb') as original_source_code:
+        lines = original_source_code.read().splitlines(keepends=True)
     if start_line == end_line:
-        return True, range_description, "", lines[start_line - 1][start_column - 1:end_column - 1]
+        return True, range_description, "", decode_source_text(lines[start_line - 1][start_column - 1:end_column - 1])
     blank_prefix: str = " " * (start_column - 1)
-    source_range_text: str = lines[start_line - 1][start_column - 1:]
+    source_range_text: bytes = lines[start_line - 1][start_column - 1:]
     for i in range(start_line, end_line - 1):
         source_range_text += lines[i]
     source_range_text += lines[end_line - 1][0:end_column - 1]
-    return False, range_description, blank_prefix, source_range_text
+    return False, range_description, blank_prefix, decode_source_text(source_range_text)
 
 
 def show_info_for_replace_expr(mutant_info: MutantInfo,
-- 
2.43.0


From a372728ada29a378e7eac4b4ea1f7d190f04ae8f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:41:23 +0000
Subject: [PATCH 08/19] fix: do not mutate the operands of decltype, typeof and
 __alignof__

These operands are not evaluated. Mutating the operand of typeof in C yields
code that does not compile.
---
 .../include/libdredd/mutate_visitor.h         |  6 +++++
 src/libdredd/src/mutate_visitor.cc            | 23 ++++++++++++++++++-
 2 files changed, 28 insertions(+), 1 deletion(-)

diff --git a/src/libdredd/include_private/include/libdredd/mutate_visitor.h b/src/libdredd/include_private/include/libdredd/mutate_visitor.h
index 3f0e50a..94cf025 100644
--- a/src/libdredd/include_private/include/libdredd/mutate_visitor.h
+++ b/src/libdredd/include_private/include/libdredd/mutate_visitor.h
@@ -72,6 +72,12 @@ class MutateVisitor : public clang::RecursiveASTVisitor<MutateVisitor> {
   bool TraverseDependentSizedArrayTypeLoc(
       clang::DependentSizedArrayTypeLoc dependent_sized_array_type_loc);
 
+  // Overridden to avoid mutating expressions that only serve to denote a type.
+  bool TraverseDecltypeTypeLoc(clang::DecltypeTypeLoc decltype_type_loc);
+
+  bool TraverseTypeOfExprTypeLoc(
+      clang::TypeOfExprTypeLoc type_of_expr_type_loc);
+
   // Overridden to avoid mutating template argument expressions, which typically
   // (and perhaps always) need to be compile-time constants.
   bool TraverseTemplateArgumentLoc(
diff --git a/src/libdredd/src/mutate_visitor.cc b/src/libdredd/src/mutate_visitor.cc
index c7d7784..77a255d 100644
--- a/src/libdredd/src/mutate_visitor.cc
+++ b/src/libdredd/src/mutate_visitor.cc
@@ -240,7 +240,8 @@ bool MutateVisitor::TraverseStmt(clang::Stmt* stmt) {
           GetFirstParentOfType<clang::UnaryExprOrTypeTraitExpr>(
               *stmt, compiler_instance_->getASTContext())) {
     const auto kind = unary_expr_or_type_trait_parent->getKind();
-    if (kind == clang::UETT_SizeOf || kind == clang::UETT_AlignOf) {
+    if (kind == clang::UETT_SizeOf || kind == clang::UETT_AlignOf ||
+        kind == clang::UETT_PreferredAlignOf) {
       return true;
     }
   }
@@ -333,6 +334,26 @@ bool MutateVisitor::TraverseDependentSizedArrayTypeLoc(
   return true;
 }
 
+bool MutateVisitor::TraverseDecltypeTypeLoc(
+    clang::DecltypeTypeLoc decltype_type_loc) {
+  // Prevent compilers complaining that this method could be made static, and
+  // that it ignores its parameter.
+  (void)this;
+  (void)decltype_type_loc;
+  // The operand of 'decltype' is never evaluated.
+  return true;
+}
+
+bool MutateVisitor::TraverseTypeOfExprTypeLoc(
+    clang::TypeOfExprTypeLoc type_of_expr_type_loc) {
+  // Prevent compilers complaining that this method could be made static, and
+  // that it ignores its parameter.
+  (void)this;
+  (void)type_of_expr_type_loc;
+  // The operand of 'typeof' only serves to denote a type.
+  return true;
+}
+
 bool MutateVisitor::TraverseTemplateArgumentLoc(
     clang::TemplateArgumentLoc template_argument_loc) {
   // Prevent compilers complaining that this method could be made static, and
-- 
2.43.0


From 6eb8c085db8e367b38f7f7fd97be812f2f45c084 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:41:23 +0000
Subject: [PATCH 09/19] fix: do not remove the statement that gives a statement
 expression its value

Wrapping it in a conditional makes the statement expression void, so that the
mutated program does not compile.
---
 src/libdredd/src/mutate_visitor.cc | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/src/libdredd/src/mutate_visitor.cc b/src/libdredd/src/mutate_visitor.cc
index 77a255d..bad5a2f 100644
--- a/src/libdredd/src/mutate_visitor.cc
+++ b/src/libdredd/src/mutate_visitor.cc
@@ -737,6 +737,13 @@ bool MutateVisitor::TraverseCompoundStmt(clang::CompoundStmt* compound_stmt) {
       // sub-statements will be considered for removal anyway.
       continue;
     }
+    if (target_stmt == compound_stmt->body_back() &&
+        GetFirstParentOfType<clang::StmtExpr>(
+            *compound_stmt, compiler_instance_->getASTContext()) != nullptr) {
+      // The last statement of a statement expression provides the expression's
+      // value, so it cannot be wrapped in conditional code.
+      continue;
+    }
     assert(!enclosing_decls_.empty() &&
            "Statements can only be removed if they are nested in some "
            "declaration.");
-- 
2.43.0


From de857ccd1d9f5efdb53e8084a78cef219dbf5ad0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:42:05 +0000
Subject: [PATCH 10/19] fix: do not pass register variables and vector elements
 by reference

The address of a register variable cannot be taken in C, and a reference cannot
be bound to an element of a vector, so mutating them as l-values yields code
that does not compile. Treat them as bit-fields are treated.
---
 src/libdredd/include/libdredd/util.h      |  6 ++++++
 src/libdredd/src/mutate_visitor.cc        |  6 ++++--
 src/libdredd/src/mutation_replace_expr.cc |  2 +-
 src/libdredd/src/util.cc                  | 23 +++++++++++++++++++++++
 4 files changed, 34 insertions(+), 3 deletions(-)

diff --git a/src/libdredd/include/libdredd/util.h b/src/libdredd/include/libdredd/util.h
index bfea16b..14059f6 100644
--- a/src/libdredd/include/libdredd/util.h
+++ b/src/libdredd/include/libdredd/util.h
@@ -91,6 +91,12 @@ bool EvaluateAsFloat(const clang::Expr& expr,
 bool IsCxx11ConstantExpr(const clang::Expr& expr,
                          const clang::ASTContext& ast_context);
 
+// Returns true if and only if it is not possible to pass the l-value `expr` by
+// reference (C++) or to take its address (C). This is the case for bit-fields,
+// elements of vectors, and, in C, variables declared with 'register'.
+bool CannotBePassedByReference(const clang::Expr& expr,
+                               const clang::ASTContext& ast_context);
+
 // It is often necessary to ask whether a given statement (which includes
 // expressions) has a parent of a given type. This helper returns nullptr if
 // the given statement has no parent of the template parameter type, and
diff --git a/src/libdredd/src/mutate_visitor.cc b/src/libdredd/src/mutate_visitor.cc
index bad5a2f..165fa22 100644
--- a/src/libdredd/src/mutate_visitor.cc
+++ b/src/libdredd/src/mutate_visitor.cc
@@ -419,7 +419,8 @@ void MutateVisitor::HandleUnaryOperator(clang::UnaryOperator* unary_operator) {
   // this mutation of these operators when applied to bit-fields is not
   // supported.
   if (unary_operator->isIncrementDecrementOp() &&
-      unary_operator->getSubExpr()->refersToBitField()) {
+      CannotBePassedByReference(*unary_operator->getSubExpr(),
+                                compiler_instance_->getASTContext())) {
     return;
   }
 
@@ -485,7 +486,8 @@ void MutateVisitor::HandleBinaryOperator(
   // bit-fields by reference, this mutation of these operators when applied to a
   // bit-field first argument is not supported.
   if (binary_operator->isAssignmentOp() &&
-      binary_operator->getLHS()->refersToBitField()) {
+      CannotBePassedByReference(*binary_operator->getLHS(),
+                                compiler_instance_->getASTContext())) {
     return;
   }
 
diff --git a/src/libdredd/src/mutation_replace_expr.cc b/src/libdredd/src/mutation_replace_expr.cc
index 314c667..9d13fef 100644
--- a/src/libdredd/src/mutation_replace_expr.cc
+++ b/src/libdredd/src/mutation_replace_expr.cc
@@ -702,7 +702,7 @@ bool MutationReplaceExpr::CanMutateLValue(clang::ASTContext& ast_context,
   // Bit-fields cannot be passed by reference, and mutator functions for
   // l-values must be passed by reference, hence bit-fields are not supported
   // in this context.
-  if (expr.refersToBitField()) {
+  if (CannotBePassedByReference(expr, ast_context)) {
     return false;
   }
   // The following checks that `expr` is the child of an ImplicitCastExpr that
diff --git a/src/libdredd/src/util.cc b/src/libdredd/src/util.cc
index 8e5d6d0..4d9cc17 100644
--- a/src/libdredd/src/util.cc
+++ b/src/libdredd/src/util.cc
@@ -19,13 +19,17 @@
 #include <utility>
 
 #include "clang/AST/ASTContext.h"
+#include "clang/AST/Decl.h"
 #include "clang/AST/Expr.h"
+#include "clang/Basic/LangOptions.h"
 #include "clang/Basic/SourceLocation.h"
 #include "clang/Basic/SourceManager.h"
+#include "clang/Basic/Specifiers.h"
 #include "clang/Lex/Lexer.h"
 #include "clang/Lex/Preprocessor.h"
 #include "llvm/ADT/APFloat.h"
 #include "llvm/ADT/StringRef.h"
+#include "llvm/Support/Casting.h"
 
 namespace dredd {
 
@@ -220,4 +224,23 @@ bool IsCxx11ConstantExpr(const clang::Expr& expr,
   return {begin_loc_in_main_file, end_loc_in_main_file};
 }
 
+bool CannotBePassedByReference(const clang::Expr& expr,
+                               const clang::ASTContext& ast_context) {
+  if (expr.refersToBitField() || expr.refersToVectorElement()) {
+    return true;
+  }
+  if (ast_context.getLangOpts().CPlusPlus) {
+    return false;
+  }
+  const auto* decl_ref_expr =
+      llvm::dyn_cast<clang::DeclRefExpr>(expr.IgnoreParens());
+  if (decl_ref_expr == nullptr) {
+    return false;
+  }
+  const auto* var_decl =
+      llvm::dyn_cast<clang::VarDecl>(decl_ref_expr->getDecl());
+  return var_decl != nullptr &&
+         var_decl->getStorageClass() == clang::SC_Register;
+}
+
 }  // namespace dredd
-- 
2.43.0


From 790597a34aaf0fb58cf741c11b0b944950e65a83 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:42:05 +0000
Subject: [PATCH 11/19] fix: do not mutate a binary operator that comes from a
 macro

Replacing an operator involves rewriting the operator token, which is silently
not done when the token results from the expansion of a macro between the
operands; the mutated code then does not compile.
---
 src/libdredd/src/mutate_visitor.cc | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/libdredd/src/mutate_visitor.cc b/src/libdredd/src/mutate_visitor.cc
index 165fa22..521f6bc 100644
--- a/src/libdredd/src/mutate_visitor.cc
+++ b/src/libdredd/src/mutate_visitor.cc
@@ -472,6 +472,12 @@ void MutateVisitor::HandleBinaryOperator(
     return;
   }
 
+  // The operator itself is replaced with a comma, so it must not come from a
+  // macro.
+  if (binary_operator->getOperatorLoc().isMacroID()) {
+    return;
+  }
+
   // We only want to change operators for binary operations on basic types.
   // Check that the argument types are supported.
   if (!IsTypeSupported(binary_operator->getLHS()->getType())) {
-- 
2.43.0


From 23c27334f552e9af32289170e3b8589f95309291 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:42:05 +0000
Subject: [PATCH 12/19] fix: do not mutate the trailing requires clause of a
 function

A constraint has to be a constant expression, which mutation logic is not.
---
 src/libdredd/src/mutate_visitor.cc | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/src/libdredd/src/mutate_visitor.cc b/src/libdredd/src/mutate_visitor.cc
index 521f6bc..7f40c44 100644
--- a/src/libdredd/src/mutate_visitor.cc
+++ b/src/libdredd/src/mutate_visitor.cc
@@ -254,6 +254,14 @@ bool MutateVisitor::TraverseStmt(clang::Stmt* stmt) {
     }
   }
 
+  // Do not mutate a requires clause, as it has to be a constant expression.
+  if (const auto* function_decl = GetFirstParentOfType<clang::FunctionDecl>(
+          *stmt, compiler_instance_->getASTContext())) {
+    if (function_decl->getTrailingRequiresClause() == stmt) {
+      return true;
+    }
+  }
+
   // Do not mutate the array size expression of C++'s NewExpr.
   // For instance, we do not want to mutate `2` in new `a[2]{3, 4}`,
   // as doing so requires type `a` to have zero-argument constructor.
-- 
2.43.0


From ea1a26fdca79bde96ba0006d740b466ecc951153 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:46:18 +0000
Subject: [PATCH 13/19] fix: do not mutate arguments of builtins that must be
 constant

P15: some builtin functions, such as __builtin_return_address, require an
argument to be an integer constant expression; replacing such an argument
with a call yields code that does not compile.
---
 src/libdredd/src/mutate_visitor.cc | 19 +++++++++++++++++++
 1 file changed, 19 insertions(+)

diff --git a/src/libdredd/src/mutate_visitor.cc b/src/libdredd/src/mutate_visitor.cc
index 7f40c44..dba0a40 100644
--- a/src/libdredd/src/mutate_visitor.cc
+++ b/src/libdredd/src/mutate_visitor.cc
@@ -286,6 +286,25 @@ bool MutateVisitor::TraverseStmt(clang::Stmt* stmt) {
     }
   }
 
+  // More generally, do not mutate an argument of a builtin function that has to
+  // be an integer constant expression, but replace it with its value.
+  if (const auto* call_expr = GetFirstParentOfType<clang::CallExpr>(
+          *stmt, compiler_instance_->getASTContext())) {
+    if (call_expr->getBuiltinCallee() != 0) {
+      clang::ASTContext::GetBuiltinTypeError error;
+      unsigned constant_args = 0;
+      compiler_instance_->getASTContext().GetBuiltinType(
+          call_expr->getBuiltinCallee(), error, &constant_args);
+      for (unsigned index = 0; index < call_expr->getNumArgs(); index++) {
+        if (call_expr->getArg(index) == stmt && index < 32 &&
+            ((constant_args >> index) & 1U) != 0) {
+          constant_arguments_to_rewrite_.push_back(call_expr->getArg(index));
+          return true;
+        }
+      }
+    }
+  }
+
   // Do not mutate expression under `decltype`, as Dredd doesn't change the type
   // of underlying expression.
   if (const auto* cast_expr = llvm::dyn_cast<clang::CastExpr>(stmt)) {
-- 
2.43.0


From 8c869eba4784a0d4cbe6c3ed804233b8a080ad06 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:13:38 +0000
Subject: [PATCH 14/19] fix: do not mutate operands that are never evaluated

P16: the operands of requires expressions, of typeid where they are not
evaluated, and the operands of generic selections other than the selected one
received mutants, although no execution can reach them.
---
 .../include/libdredd/mutate_visitor.h         |  3 ++
 src/libdredd/src/mutate_visitor.cc            | 28 +++++++++++++++++++
 2 files changed, 31 insertions(+)

diff --git a/src/libdredd/include_private/include/libdredd/mutate_visitor.h b/src/libdredd/include_private/include/libdredd/mutate_visitor.h
index 94cf025..1ca4708 100644
--- a/src/libdredd/include_private/include/libdredd/mutate_visitor.h
+++ b/src/libdredd/include_private/include/libdredd/mutate_visitor.h
@@ -78,6 +78,9 @@ class MutateVisitor : public clang::RecursiveASTVisitor<MutateVisitor> {
   bool TraverseTypeOfExprTypeLoc(
       clang::TypeOfExprTypeLoc type_of_expr_type_loc);
 
+  // Overridden to avoid mutating the operands of 'requires' expressions.
+  bool TraverseConceptRequirement(clang::concepts::Requirement* requirement);
+
   // Overridden to avoid mutating template argument expressions, which typically
   // (and perhaps always) need to be compile-time constants.
   bool TraverseTemplateArgumentLoc(
diff --git a/src/libdredd/src/mutate_visitor.cc b/src/libdredd/src/mutate_visitor.cc
index dba0a40..7690ed9 100644
--- a/src/libdredd/src/mutate_visitor.cc
+++ b/src/libdredd/src/mutate_visitor.cc
@@ -246,6 +246,24 @@ bool MutateVisitor::TraverseStmt(clang::Stmt* stmt) {
     }
   }
 
+  // Do not mutate the operand of 'typeid' if it is not evaluated.
+  if (const auto* typeid_expr = GetFirstParentOfType<clang::CXXTypeidExpr>(
+          *stmt, compiler_instance_->getASTContext())) {
+    if (!typeid_expr->isPotentiallyEvaluated()) {
+      return true;
+    }
+  }
+
+  // Of the operands of a generic selection, only the selected one is evaluated.
+  if (const auto* generic_selection_expr =
+          GetFirstParentOfType<clang::GenericSelectionExpr>(
+              *stmt, compiler_instance_->getASTContext())) {
+    if (!generic_selection_expr->isResultDependent() &&
+        generic_selection_expr->getResultExpr() != stmt) {
+      return true;
+    }
+  }
+
   // Do not mutate the condition of a constexpr if statement.
   if (const auto* if_stmt = GetFirstParentOfType<clang::IfStmt>(
           *stmt, compiler_instance_->getASTContext())) {
@@ -371,6 +389,16 @@ bool MutateVisitor::TraverseDecltypeTypeLoc(
   return true;
 }
 
+bool MutateVisitor::TraverseConceptRequirement(
+    clang::concepts::Requirement* requirement) {
+  // Prevent compilers complaining that this method could be made static, and
+  // that it ignores its parameter.
+  (void)this;
+  (void)requirement;
+  // The operands of a 'requires' expression are never evaluated.
+  return true;
+}
+
 bool MutateVisitor::TraverseTypeOfExprTypeLoc(
     clang::TypeOfExprTypeLoc type_of_expr_type_loc) {
   // Prevent compilers complaining that this method could be made static, and
-- 
2.43.0


From 2208f49ae1629639a50e08a69e773cc09e6c1640 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:13:38 +0000
Subject: [PATCH 15/19] fix: report that the mutation information could not be
 written

P13: the tool exited with success without having written the mutation
information it was asked for.
---
 src/dredd/src/main.cc | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/dredd/src/main.cc b/src/dredd/src/main.cc
index da21004..b312d45 100644
--- a/src/dredd/src/main.cc
+++ b/src/dredd/src/main.cc
@@ -183,6 +183,11 @@ int main(int argc, const char** argv) {
     if (json_generation_status.ok()) {
       std::ofstream transformations_json_file(mutation_info_file);
       transformations_json_file << json_string;
+      transformations_json_file.close();
+      if (!transformations_json_file) {
+        llvm::errs() << "Error writing to " << mutation_info_file << "\n";
+        return 1;
+      }
     } else {
       llvm::errs() << "Error writing JSON data to " << mutation_info_file
                    << "\n";
-- 
2.43.0


From 57e25e606019f5e6836a18ecfea266a56ca2a0de Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:01:16 +0000
Subject: [PATCH 16/19] fix: do not count a file that could not be overwritten
 as mutated

P13: when a mutated file could not be written back, the tool stopped on an
assertion (or, built without assertions, recorded mutants for the file).
---
 src/libdredd/src/mutate_ast_consumer.cc | 27 ++++++++++++++-----------
 1 file changed, 15 insertions(+), 12 deletions(-)

diff --git a/src/libdredd/src/mutate_ast_consumer.cc b/src/libdredd/src/mutate_ast_consumer.cc
index b1ea468..175ee9a 100644
--- a/src/libdredd/src/mutate_ast_consumer.cc
+++ b/src/libdredd/src/mutate_ast_consumer.cc
@@ -128,15 +128,6 @@ void MutateAstConsumer::HandleTranslationUnit(clang::ASTContext& ast_context) {
 
   RewriteExpressionsInMainFile();
 
-  if (mutation_info_->has_value()) {
-    mutation_info_for_file.set_filename(
-        ast_context.getSourceManager()
-            .getFileEntryForID(ast_context.getSourceManager().getMainFileID())
-            ->getName()
-            .str());
-    *mutation_info_->value().add_info_for_files() = mutation_info_for_file;
-  }
-
   auto& source_manager = ast_context.getSourceManager();
   const clang::SourceLocation start_of_source_file =
       source_manager.translateLineCol(source_manager.getMainFileID(), 1, 1);
@@ -170,9 +161,21 @@ void MutateAstConsumer::HandleTranslationUnit(clang::ASTContext& ast_context) {
   (void)rewriter_result;  // Keep release-mode compilers happy.
   assert(!rewriter_result && "Rewrite failed.\n");
 
-  rewriter_result = rewriter_.overwriteChangedFiles();
-  (void)rewriter_result;  // Keep release mode compilers happy
-  assert(!rewriter_result && "Something went wrong emitting rewritten files.");
+  if (rewriter_.overwriteChangedFiles()) {
+    // The file could not be overwritten, which has been reported as an error.
+    // It has not been mutated, so its mutation ids remain available.
+    *mutation_id_ = initial_mutation_id;
+    return;
+  }
+
+  if (mutation_info_->has_value()) {
+    mutation_info_for_file.set_filename(
+        ast_context.getSourceManager()
+            .getFileEntryForID(ast_context.getSourceManager().getMainFileID())
+            ->getName()
+            .str());
+    *mutation_info_->value().add_info_for_files() = mutation_info_for_file;
+  }
 }
 
 void MutateAstConsumer::RewriteExpressionsInMainFile() {
-- 
2.43.0


From 84190abbcc382e14ac4af6afa19242be690acdc4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:34:59 +0000
Subject: [PATCH 17/19] fix: judge a source range's consistency in the main
 file, not by the columns of macro definitions

---
 src/libdredd/src/mutate_visitor.cc | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/src/libdredd/src/mutate_visitor.cc b/src/libdredd/src/mutate_visitor.cc
index 7690ed9..0e23719 100644
--- a/src/libdredd/src/mutate_visitor.cc
+++ b/src/libdredd/src/mutate_visitor.cc
@@ -705,8 +705,9 @@ bool MutateVisitor::VisitExpr(clang::Expr* expr) {
     return true;
   }
 
-  if (GetSourceRangeInMainFile(compiler_instance_->getPreprocessor(), *expr)
-          .isInvalid()) {
+  const clang::SourceRange source_range_in_main_file =
+      GetSourceRangeInMainFile(compiler_instance_->getPreprocessor(), *expr);
+  if (source_range_in_main_file.isInvalid()) {
     return true;
   }
 
@@ -714,7 +715,7 @@ bool MutateVisitor::VisitExpr(clang::Expr* expr) {
   // range can end earlier than it starts. See "structured_binding.cc" under
   // single file tests. If the Clang issue is indeed a bug and gets fixed, this
   // check (and the associated function) should be removed.
-  if (!SourceRangeConsistencyCheck(expr->getSourceRange(),
+  if (!SourceRangeConsistencyCheck(source_range_in_main_file,
                                    compiler_instance_->getASTContext())) {
     return true;
   }
-- 
2.43.0


From 912235412ad1e28288fdf2806ea127bb6bafd447 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:50:13 +0000
Subject: [PATCH 18/19] fix: replace all of an operator that is not spelled in
 the usual way (alternative tokens, spliced lines)

---
 src/libdredd/src/mutation_replace_binary_operator.cc | 10 ++++++----
 src/libdredd/src/mutation_replace_unary_operator.cc  | 10 ++++++----
 2 files changed, 12 insertions(+), 8 deletions(-)

diff --git a/src/libdredd/src/mutation_replace_binary_operator.cc b/src/libdredd/src/mutation_replace_binary_operator.cc
index b8202af..e387f63 100644
--- a/src/libdredd/src/mutation_replace_binary_operator.cc
+++ b/src/libdredd/src/mutation_replace_binary_operator.cc
@@ -28,6 +28,7 @@
 #include "clang/AST/Type.h"
 #include "clang/Basic/LangOptions.h"
 #include "clang/Basic/SourceLocation.h"
+#include "clang/Lex/Lexer.h"
 #include "clang/Lex/Preprocessor.h"
 #include "clang/Rewrite/Core/Rewriter.h"
 #include "libdredd/mutation_replace_expr.h"
@@ -653,12 +654,13 @@ void MutationReplaceBinaryOperator::ReplaceOperator(
   // replacing the text for the binary operator node, because the Clang rewriter
   // does not support nested replacements.
 
-  // Replace the operator symbol with ","
+  // Replace the operator symbol with ",". Its length in the source code need
+  // not be that of the usual spelling, e.g. if 'bitor' is used in place of '|'.
   rewriter.ReplaceText(
       binary_operator_->getOperatorLoc(),
-      static_cast<unsigned int>(
-          clang::BinaryOperator::getOpcodeStr(binary_operator_->getOpcode())
-              .size()),
+      clang::Lexer::MeasureTokenLength(binary_operator_->getOperatorLoc(),
+                                       ast_context.getSourceManager(),
+                                       ast_context.getLangOpts()),
       ",");
 
   // These record the text that should be inserted before and after the LHS and
diff --git a/src/libdredd/src/mutation_replace_unary_operator.cc b/src/libdredd/src/mutation_replace_unary_operator.cc
index 1243d2e..bc01e22 100644
--- a/src/libdredd/src/mutation_replace_unary_operator.cc
+++ b/src/libdredd/src/mutation_replace_unary_operator.cc
@@ -24,6 +24,7 @@
 #include "clang/AST/Type.h"
 #include "clang/Basic/LangOptions.h"
 #include "clang/Basic/SourceLocation.h"
+#include "clang/Lex/Lexer.h"
 #include "clang/Lex/Preprocessor.h"
 #include "clang/Rewrite/Core/Rewriter.h"
 #include "libdredd/mutation_replace_expr.h"
@@ -408,12 +409,13 @@ protobufs::MutationGroup MutationReplaceUnaryOperator::Apply(
   // replacing the text for the unary operator node, because the Clang rewriter
   // does not support nested replacements.
 
-  // Remove the operator symbol.
+  // Remove the operator symbol. Its length in the source code need not be that
+  // of the usual spelling, e.g. if 'compl' is used in place of '~'.
   rewriter.ReplaceText(
       unary_operator_->getOperatorLoc(),
-      static_cast<unsigned int>(
-          clang::UnaryOperator::getOpcodeStr(unary_operator_->getOpcode())
-              .size()),
+      clang::Lexer::MeasureTokenLength(unary_operator_->getOperatorLoc(),
+                                       ast_context.getSourceManager(),
+                                       ast_context.getLangOpts()),
       "");
 
   // These record the text that should be inserted before and after the operand.
-- 
2.43.0


From eda6b18d939aea2da77d0c08fc679c11afb3bc99 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:19:35 +0000
Subject: [PATCH 19/19] fix: parenthesise operands whose operators are words
 (and, bitor, ...) when showing a mutant

---
 scripts/query_mutant_info.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/scripts/query_mutant_info.py b/scripts/query_mutant_info.py
index 108dda8..3e86245 100755
--- a/scripts/query_mutant_info.py
+++ b/scripts/query_mutant_info.py
@@ -51,8 +51,9 @@ def build_mutant_to_node_mapping(json_info: Dict) -> Dict[int, MutantInfo]:
 
 def parenthesise_if_needed(expr_text: str) -> str:
     # Do not parenthesise if it is clearly unnecessary. This regex captures a bunch
-    # of obvious cases, such as identifiers and numeric literals.
-    if re.match(r'^[a-zA-Z0-9_\\.\s]+$', expr_text):
+    # of obvious cases, such as identifiers and numeric literals. It does not allow
+    # white space in the middle, as words can be operators: 'a and b', 'a bitor b'.
+    if re.match(r'^\s*[a-zA-Z0-9_.]+\s*$', expr_text):
         return expr_text
     return f"({expr_text})"
 
-- 
2.43.0

