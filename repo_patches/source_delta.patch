From d830695d9e537610e08d71e7c197b9ceac5a2f9f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:28:11 +0000
Subject: [PATCH 01/20] fix: attribute visible declarations to the namespace
 opening they belong to

Name lookup returns the declarations of all openings of a namespace.  Thus an
opening without any annotations (e.g. for a forward declaration) was kept if
another opening contained a visible declaration.  It then took precedence over
the annotated opening (losing `module` and `visible`) and undid the effect of
`only_expose_in`.
---
 src/decl_context_graph_processing.cpp | 14 ++++++++++++++
 1 file changed, 14 insertions(+)

diff --git a/src/decl_context_graph_processing.cpp b/src/decl_context_graph_processing.cpp
index fb48b58..78b10bc 100644
--- a/src/decl_context_graph_processing.cpp
+++ b/src/decl_context_graph_processing.cpp
@@ -223,10 +223,24 @@ ConstDeclContextSet genpybind::declContextsWithVisibleNamedDecls(
       return default_visibility;
     };
 
+    // Name lookup finds the declarations of all openings of a namespace, while
+    // each opening is represented by a separate node (with its own annotations).
+    auto belongs_to_different_opening =
+        [&](const clang::NamedDecl *decl) -> bool {
+      const clang::DeclContext *parent = decl->getLexicalDeclContext();
+      while (parent != nullptr && !parent->Equals(context))
+        parent = parent->getLexicalParent();
+      return parent != nullptr && parent != context &&
+             llvm::isa<clang::NamespaceDecl>(context);
+    };
+
     std::vector<const clang::NamedDecl *> decls =
         collectVisibleDeclsFromDeclContext(sema, context);
 
     return llvm::any_of(decls, [&](const clang::NamedDecl *decl) {
+      if (belongs_to_different_opening(decl))
+        return false;
+
       // Nested declaration contexts that are represented in the graph are taken
       // into account above.
       assert(!DeclContextGraph::accepts(decl));
-- 
2.43.0


From 294c887bf481f5ac9ece4cea0970535a0c69c35a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:31:09 +0000
Subject: [PATCH 02/20] fix: keep discriminated identifiers of declaration
 contexts unique

The second context named `a` is called `a_2`, which clashed with a context
that already has this name.
---
 src/expose.cpp | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/src/expose.cpp b/src/expose.cpp
index 022342f..c5f3b6a 100644
--- a/src/expose.cpp
+++ b/src/expose.cpp
@@ -43,7 +43,7 @@
 #include <llvm/ADT/SmallString.h>
 #include <llvm/ADT/SmallVector.h>
 #include <llvm/ADT/StringExtras.h>
-#include <llvm/ADT/StringMap.h>
+#include <llvm/ADT/StringSet.h>
 #include <llvm/ADT/iterator.h>
 #include <llvm/Support/Casting.h>
 #include <llvm/Support/ErrorHandling.h>
@@ -62,15 +62,15 @@ using namespace genpybind;
 namespace {
 
 class DiscriminateIdentifiers {
-  llvm::StringMap<unsigned> discriminators;
+  llvm::StringSet<> used_identifiers;
 
 public:
   std::string discriminate(llvm::StringRef name) {
-    auto it = discriminators.try_emplace(name, 0).first;
-    const unsigned discriminator = ++it->getValue();
     std::string result{name};
-    if (discriminator != 1)
-      result += "_" + llvm::utostr(discriminator);
+    // A discriminated name can in turn be equal to a name that is already used.
+    for (unsigned discriminator = 2; !used_identifiers.insert(result).second;
+         ++discriminator)
+      result = name.str() + "_" + llvm::utostr(discriminator);
     return result;
   }
 };
-- 
2.43.0


From a3acba1a68e9bd9719be7fa63530215c4bdd27a0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:34:31 +0000
Subject: [PATCH 03/20] fix: do not report equal settings of reopened
 namespaces as different

An opening without annotations did not compare equal to one with annotations
that only state the default, e.g. `visible(default)`.
---
 src/annotated_decl.cpp | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/src/annotated_decl.cpp b/src/annotated_decl.cpp
index 66583bd..49e7dbf 100644
--- a/src/annotated_decl.cpp
+++ b/src/annotated_decl.cpp
@@ -931,10 +931,14 @@ void AnnotationStorage::insert(const clang::NamedDecl *decl) {
 
 bool AnnotationStorage::equal(const clang::NamedDecl *left,
                               const clang::NamedDecl *right) const {
+  // Declarations without annotations are equal to those with default settings.
   return std::apply(
-      [&](auto... x) {
+      [&](const auto &...defaults) {
         return (
-            (this->get<decltype(x)>(left) == this->get<decltype(x)>(right)) &&
+            (this->get<llvm::remove_cvref_t<decltype(defaults)>>(left).value_or(
+                 defaults) ==
+             this->get<llvm::remove_cvref_t<decltype(defaults)>>(right)
+                 .value_or(defaults)) &&
             ...);
       },
       AttrTypes{});
-- 
2.43.0


From 364d8588682801397d4901df09d61131234d7c2e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:41:49 +0000
Subject: [PATCH 04/20] fix: let unannotated namespace openings share the
 module of annotated ones

Openings of a namespace without any annotations (or annotated content)
did not receive the `module`/`only_expose_in` settings of the other
openings, so that visible declarations in them ended up in the parent
module or were not hidden.
---
 include/genpybind/lookup_context_collector.h |  7 +++++++
 src/decl_context_graph_builder.cpp           | 19 +++++++++++++++++++
 2 files changed, 26 insertions(+)

diff --git a/include/genpybind/lookup_context_collector.h b/include/genpybind/lookup_context_collector.h
index 468620a..81ae532 100644
--- a/include/genpybind/lookup_context_collector.h
+++ b/include/genpybind/lookup_context_collector.h
@@ -85,6 +85,13 @@ public:
     return true;
   }
 
+  /// Returns the first opening of the given namespace that is annotated or
+  /// contains annotated declarations.
+  const clang::NamedDecl *
+  findFirstAnnotatedOpening(const clang::NamespaceDecl *decl) const {
+    return first_decls.lookup(decl->getCanonicalDecl());
+  }
+
   static void warnIfAliasHasQualifiers(const clang::TypedefNameDecl *decl);
 
   void errorIfAnnotationsDoNotMatchFirstDecl(const clang::NamedDecl *decl);
diff --git a/src/decl_context_graph_builder.cpp b/src/decl_context_graph_builder.cpp
index 7f42781..ca30aef 100644
--- a/src/decl_context_graph_builder.cpp
+++ b/src/decl_context_graph_builder.cpp
@@ -56,6 +56,25 @@ std::optional<DeclContextGraph> DeclContextGraphBuilder::buildGraph() {
   if (trap.hasErrorOccurred())
     return std::nullopt;
 
+  // Openings of a namespace that do not contain any annotations belong to the
+  // same module as those that do.
+  for (const clang::DeclContext *decl_context : visitor.lookup_contexts) {
+    const auto *decl = llvm::dyn_cast<clang::NamespaceDecl>(decl_context);
+    if (decl == nullptr || annotations.has(decl))
+      continue;
+    const clang::NamedDecl *annotated_decl =
+        visitor.findFirstAnnotatedOpening(decl);
+    if (annotated_decl == nullptr || !annotations.has(annotated_decl))
+      continue;
+    annotations.update<NamedDeclAttrs>(decl, [&](auto &attrs) {
+      attrs.spelling =
+          annotations.lookup<NamedDeclAttrs>(annotated_decl).spelling;
+    });
+    annotations.update<NamespaceDeclAttrs>(decl, [&](auto &attrs) {
+      attrs = annotations.lookup<NamespaceDeclAttrs>(annotated_decl);
+    });
+  }
+
   for (const clang::TypedefNameDecl *alias_decl : visitor.aliases) {
     const auto attrs = annotations.get<TypedefNameDeclAttrs>(alias_decl);
     assert(attrs.has_value());
-- 
2.43.0


From c48024a10ffef336376c18b119f441290c85ff89 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:52:22 +0000
Subject: [PATCH 05/20] fix: leave moved-from string values in a valid state

Move-assigning a string to a value of a different kind left the source
as a string without storage, so that inspecting it was undefined
behavior.
---
 src/annotations/literal_value.cpp | 7 +++----
 1 file changed, 3 insertions(+), 4 deletions(-)

diff --git a/src/annotations/literal_value.cpp b/src/annotations/literal_value.cpp
index dbb8a98..50db16a 100644
--- a/src/annotations/literal_value.cpp
+++ b/src/annotations/literal_value.cpp
@@ -83,10 +83,9 @@ LiteralValue::LiteralValue(LiteralValue &&other) noexcept
 
 LiteralValue &LiteralValue::operator=(LiteralValue &&other) noexcept {
   if (other.isString()) {
-    if (!isString()) {
-      kind = Kind::String;
-      string = nullptr;
-    }
+    if (!isString())
+      setNothing();
+    std::swap(kind, other.kind);
     std::swap(string, other.string);
   } else {
     *this = other;
-- 
2.43.0


From 6deb74b6f2f759c55b6fd863f8b3d88debf1e169 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:53:44 +0000
Subject: [PATCH 06/20] fix: do not read released storage when a value is
 assigned its own string

---
 src/annotations/literal_value.cpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/annotations/literal_value.cpp b/src/annotations/literal_value.cpp
index 50db16a..c45592a 100644
--- a/src/annotations/literal_value.cpp
+++ b/src/annotations/literal_value.cpp
@@ -101,9 +101,11 @@ void LiteralValue::setNothing() {
 }
 
 void LiteralValue::setString(llvm::StringRef value) {
+  // `value` may refer to the string that is going to be replaced.
+  auto *new_string = new std::string(value);
   setNothing();
   kind = Kind::String;
-  string = new std::string(value);
+  string = new_string;
 }
 
 void LiteralValue::setUnsigned(unsigned value) {
-- 
2.43.0


From d57ab317891b5a2868f7dbb3b22f97a8bbfa11c7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:41:06 +0000
Subject: [PATCH 07/20] fix: expose members of inline namespaces only as part
 of that namespace

Name lookup also finds them in the enclosing namespace, so they were exposed
a second time there, even if the inline namespace is hidden or belongs to a
different module.
---
 src/visible_decls.cpp | 20 +++++++++++++++++++-
 1 file changed, 19 insertions(+), 1 deletion(-)

diff --git a/src/visible_decls.cpp b/src/visible_decls.cpp
index ad80a10..c0f835f 100644
--- a/src/visible_decls.cpp
+++ b/src/visible_decls.cpp
@@ -6,6 +6,7 @@
 
 #include "genpybind/annotated_decl.h"
 #include "genpybind/decl_context_graph.h"
+#include "genpybind/lookup_context_collector.h"
 
 #include <clang/AST/ASTContext.h>
 #include <clang/AST/CXXInheritance.h>
@@ -58,9 +59,23 @@ public:
     return inlining_policy->shouldInline(parent_decl);
   }
 
+  /// Members of inline namespaces are also found in the enclosing namespace,
+  /// but belong to the inline namespace if it is represented by a node of its
+  /// own in the graph.
+  static bool belongsToInlineNamespace(const clang::NamedDecl *proposed_decl,
+                                       const clang::DeclContext *lookup_context) {
+    const auto *namespace_decl = llvm::dyn_cast<clang::NamespaceDecl>(
+        proposed_decl->getDeclContext()->getRedeclContext());
+    return namespace_decl != nullptr && namespace_decl->isInline() &&
+           lookup_context->isFileContext() &&
+           !namespace_decl->Equals(lookup_context) &&
+           !LookupContextCollector::shouldSkip(namespace_decl);
+  }
+
   // NOLINTNEXTLINE(bugprone-easily-swappable-parameters)
   void FoundDecl(clang::NamedDecl *proposed_decl, clang::NamedDecl *hiding,
-                 clang::DeclContext *, bool in_base_class) override {
+                 clang::DeclContext *lookup_context,
+                 bool in_base_class) override {
     bool is_visible_in_scope = hiding == nullptr;
     bool is_accessible = proposed_decl->getAccess() == clang::AS_public ||
                          proposed_decl->getAccess() == clang::AS_none;
@@ -70,6 +85,9 @@ public:
     if (in_base_class && !shouldInlineDecl(proposed_decl))
       return;
 
+    if (belongsToInlineNamespace(proposed_decl, lookup_context))
+      return;
+
     if (const auto *using_decl =
             llvm::dyn_cast<clang::UsingShadowDecl>(proposed_decl)) {
       proposed_decl = using_decl->getTargetDecl();
-- 
2.43.0


From 8c451f56e99e02642892b9e16d8844d017e7656d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:55:38 +0000
Subject: [PATCH 08/20] fix: apply noconvert and required to the parameters
 they name

The index did not account for `pybind11::args` parameters.
---
 src/expose.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/expose.cpp b/src/expose.cpp
index c5f3b6a..391fadd 100644
--- a/src/expose.cpp
+++ b/src/expose.cpp
@@ -331,9 +331,10 @@ static void emitParameters(llvm::raw_ostream &os,
   const clang::ASTContext &context = function->getASTContext();
   auto printing_policy = getPrintingPolicyForExposedNames(context);
   AttemptFullQualificationPrinter printer_helper{context, printing_policy};
-  unsigned index = 0;
   const clang::ParmVarDecl *last_kwargs_param = nullptr;
   for (const clang::ParmVarDecl *param : function->parameters()) {
+    // Annotations refer to the position among all parameters.
+    const unsigned index = param->getFunctionScopeIndex();
     // `arg()` should not be emitted for `pybind11::args` or `pybind11::kwargs`
     // parameters.  `kwargs` needs to be the last parameter of the function.
     if (llvm::StringRef kind = getPybind11ArgsType(param->getType());
@@ -360,7 +361,6 @@ static void emitParameters(llvm::raw_ostream &os,
       expr->printPretty(os, &printer_helper, printing_policy, /*Indentation=*/0,
                         /*NewlineSymbol=*/"\n", &context);
     }
-    ++index;
   }
 }
 
-- 
2.43.0


From d22f6457aa8858490365be5b4bfe854cebca8201 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:55:38 +0000
Subject: [PATCH 09/20] fix: also diagnose pybind11::args and kwargs parameters
 after kwargs

---
 src/expose.cpp | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/src/expose.cpp b/src/expose.cpp
index 391fadd..45bd72e 100644
--- a/src/expose.cpp
+++ b/src/expose.cpp
@@ -337,6 +337,11 @@ static void emitParameters(llvm::raw_ostream &os,
     const unsigned index = param->getFunctionScopeIndex();
     // `arg()` should not be emitted for `pybind11::args` or `pybind11::kwargs`
     // parameters.  `kwargs` needs to be the last parameter of the function.
+    if (last_kwargs_param != nullptr) {
+      Diagnostics::report(last_kwargs_param,
+                          Diagnostics::Kind::TrailingParametersError);
+      break;
+    }
     if (llvm::StringRef kind = getPybind11ArgsType(param->getType());
         kind == "kwargs") {
       last_kwargs_param = param;
@@ -344,11 +349,6 @@ static void emitParameters(llvm::raw_ostream &os,
     } else if (!kind.empty()) {
       continue;
     }
-    if (last_kwargs_param != nullptr) {
-      Diagnostics::report(last_kwargs_param,
-                          Diagnostics::Kind::TrailingParametersError);
-      break;
-    }
     os << ", ::pybind11::arg(";
     emitStringLiteral(os, param->getName());
     os << ")";
-- 
2.43.0


From 4cd17824af1a111fb9391e4dcd384f793f3033d6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:55:38 +0000
Subject: [PATCH 10/20] fix: use correct keep_alive indices for static methods

---
 src/annotated_decl.cpp | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/annotated_decl.cpp b/src/annotated_decl.cpp
index 49e7dbf..682d7b4 100644
--- a/src/annotated_decl.cpp
+++ b/src/annotated_decl.cpp
@@ -627,8 +627,11 @@ bool genpybind::processAnnotation(const clang::NamedDecl *decl,
     return dispatch
         .binary(LiteralValue::Kind::String,
                 [&](const LiteralValue &first, const LiteralValue &second) {
+                  // There is no implicit `this` argument for static methods.
+                  const auto *method =
+                      llvm::dyn_cast<clang::CXXMethodDecl>(function_decl);
                   auto lookup = make_parameter_indices_lookup(
-                      true, llvm::isa<clang::CXXMethodDecl>(function_decl));
+                      true, method != nullptr && method->isInstance());
                   auto first_idx = lookup(first.getString());
                   auto second_idx = lookup(second.getString());
                   if (!first_idx.has_value()) {
-- 
2.43.0


From 680ab85c9f31ff38b7f033511195c521117942f9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:55:38 +0000
Subject: [PATCH 11/20] fix: do not expose operators without Python counterpart
 under an empty name

---
 src/expose.cpp | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/src/expose.cpp b/src/expose.cpp
index 45bd72e..f9a832a 100644
--- a/src/expose.cpp
+++ b/src/expose.cpp
@@ -1172,10 +1172,14 @@ void RecordExposer::emitOperator(llvm::raw_ostream &os,
       lhs_param_type = lhs_param_type->getPointeeType();
     return !ast_context.hasSameUnqualifiedType(lhs_param_type, record_type);
   }();
+  llvm::StringRef name =
+      unary ? pythonUnaryOperatorName(kind)
+            : pythonBinaryOperatorName(kind, reverse_parameters);
+  // Not all operators have a counterpart in Python.
+  if (name.empty())
+    return;
   os << "context.def(";
-  emitStringLiteral(os,
-                    unary ? pythonUnaryOperatorName(kind)
-                          : pythonBinaryOperatorName(kind, reverse_parameters));
+  emitStringLiteral(os, name);
   os << ", ";
   emitOperatorDefinition(os, ast_context, kind, parameter_types,
                          function->getReturnType(), reverse_parameters);
-- 
2.43.0


From 3a0b10ad3a343188cd450d87f8118163e011b27a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:55:38 +0000
Subject: [PATCH 12/20] fix: do not crash on shift operators of unnamed classes

---
 src/expose.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/expose.cpp b/src/expose.cpp
index f9a832a..6f7374e 100644
--- a/src/expose.cpp
+++ b/src/expose.cpp
@@ -619,7 +619,8 @@ static bool isOstreamOperator(const clang::FunctionDecl *function) {
   assert(function->getNumParams() >= 1);
   if (const clang::CXXRecordDecl *record =
           function->getParamDecl(0)->getType()->getPointeeCXXRecordDecl()) {
-    if (!record->getIdentifier()->isStr("basic_ostream"))
+    const clang::IdentifierInfo *identifier = record->getIdentifier();
+    if (identifier == nullptr || !identifier->isStr("basic_ostream"))
       return false;
     clang::ast_matchers::internal::HasNameMatcher matcher(
         {"::std::basic_ostream"});
-- 
2.43.0


From c58c186e57ecfdfcbbc06844c4a76b4261fc81fa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:55:38 +0000
Subject: [PATCH 13/20] fix: do not expose operators as functions of their
 namespace

They all ended up being called `operator_` (or `__str__`).
---
 src/expose.cpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/expose.cpp b/src/expose.cpp
index 6f7374e..9776021 100644
--- a/src/expose.cpp
+++ b/src/expose.cpp
@@ -943,6 +943,10 @@ void DeclContextExposer::handleDeclImpl(llvm::raw_ostream &os,
     return;
   }
 
+  // Operators are exposed as methods of their operands, see `RecordExposer`.
+  if (OperatorDeclAttrs::supports(decl))
+    return;
+
   if (const auto method_attrs = annotations.get<MethodDeclAttrs>(decl)) {
     // Properties are handled separately in `RecordExposer::finalizeDefinition`.
     if (!method_attrs->getter_for.empty() || !method_attrs->setter_for.empty())
-- 
2.43.0


From 2f77b744e143308efc73b51d304bc0a2c39dfcf7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:03:41 +0000
Subject: [PATCH 14/20] fix: inline virtual bases that are also reachable via
 non-public inheritance

Whether such a base was inlined depended on the order of the base specifiers.
---
 src/visible_decls.cpp | 36 ++++++++++++++++++------------------
 1 file changed, 18 insertions(+), 18 deletions(-)

diff --git a/src/visible_decls.cpp b/src/visible_decls.cpp
index c0f835f..515a806 100644
--- a/src/visible_decls.cpp
+++ b/src/visible_decls.cpp
@@ -9,7 +9,6 @@
 #include "genpybind/lookup_context_collector.h"
 
 #include <clang/AST/ASTContext.h>
-#include <clang/AST/CXXInheritance.h>
 #include <clang/AST/Decl.h>
 #include <clang/AST/DeclCXX.h>
 #include <clang/AST/DeclTemplate.h>
@@ -18,7 +17,6 @@
 #include <clang/Basic/Specifiers.h>
 #include <clang/Sema/Lookup.h>
 #include <clang/Sema/Sema.h>
-#include <llvm/ADT/STLExtras.h>
 #include <llvm/ADT/SmallPtrSet.h>
 #include <llvm/ADT/SmallVector.h>
 #include <llvm/Support/Casting.h>
@@ -135,25 +133,27 @@ RecordInliningPolicy::RecordInliningPolicy(
     const llvm::SmallPtrSetImpl<const clang::TagDecl *> &inline_candidates,
     const llvm::SmallPtrSetImpl<const clang::TagDecl *> &hidden_bases)
     : hide_bases(hidden_bases.begin(), hidden_bases.end()) {
-  auto is_hidden_base = [&](const clang::CXXBasePathElement &element) -> bool {
-    const auto *base_decl = element.Base->getType()->getAsCXXRecordDecl();
-    base_decl = base_decl->getDefinition();
-    return hidden_bases.count(base_decl) != 0;
-  };
-
-  auto is_valid_path = [&](const clang::CXXBasePath &path) -> bool {
-    return path.Access == clang::AS_public &&
-           !llvm::any_of(path, is_hidden_base);
-  };
+  // Find all bases that are reachable via public inheritance without passing
+  // through a hidden base.  `clang::CXXBasePaths` cannot be used for this, as
+  // it follows only one of the paths that lead to a virtual base.
+  llvm::SmallPtrSet<const clang::CXXRecordDecl *, 4> reachable_bases;
+  llvm::SmallVector<const clang::CXXRecordDecl *, 4> remaining{record_decl};
+  while (!remaining.empty()) {
+    const clang::CXXRecordDecl *decl = remaining.pop_back_val();
+    for (const clang::CXXBaseSpecifier &base : decl->bases()) {
+      const auto *base_decl = base.getType()->getAsCXXRecordDecl();
+      base_decl = base_decl->getDefinition();
+      if (base.getAccessSpecifier() == clang::AS_public &&
+          hidden_bases.count(base_decl) == 0 &&
+          reachable_bases.insert(base_decl).second)
+        remaining.push_back(base_decl);
+    }
+  }
 
   auto should_inline = [&](const clang::CXXRecordDecl *base_decl) -> bool {
     base_decl = base_decl->getDefinition();
-    if (inline_candidates.count(base_decl) == 0)
-      return false;
-
-    clang::CXXBasePaths paths;
-    record_decl->isDerivedFrom(base_decl, paths);
-    return llvm::any_of(paths, is_valid_path);
+    return inline_candidates.count(base_decl) != 0 &&
+           reachable_bases.count(base_decl) != 0;
   };
 
   // Use `forallBases` in order to provide a deterministic iteration order.
-- 
2.43.0


From 058c0c54b0cb19957af4b2be534ba8872fdb2c5e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:03:41 +0000
Subject: [PATCH 15/20] fix: list each base class only once

Python does not allow duplicate base classes.
---
 src/expose.cpp | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/src/expose.cpp b/src/expose.cpp
index 9776021..7f8e709 100644
--- a/src/expose.cpp
+++ b/src/expose.cpp
@@ -1239,7 +1239,9 @@ void RecordExposer::emitType(llvm::raw_ostream &os) {
 
   // Add all exposed (i.e. part of graph) public bases as arguments.
   // This is called recursively, since bases of inlined bases also need to
-  // be emitted.
+  // be emitted.  A base can be found more than once on different paths, but has
+  // to be listed only once.
+  llvm::SmallPtrSet<const clang::TagDecl *, 4> emitted_bases;
   auto maybe_emit_bases = [&](const clang::CXXRecordDecl *decl,
                               auto &&recurse) -> void {
     for (const clang::CXXBaseSpecifier &base : decl->bases()) {
@@ -1251,7 +1253,8 @@ void RecordExposer::emitType(llvm::raw_ostream &os) {
       if (inlining_policy.shouldInline(base_decl)) {
         if (const auto *rd = llvm::dyn_cast<clang::CXXRecordDecl>(base_decl))
           recurse(rd, recurse);
-      } else if (graph.getNode(base_decl) != nullptr) {
+      } else if (graph.getNode(base_decl) != nullptr &&
+                 emitted_bases.insert(base_decl).second) {
         os << ", " << getFullyQualifiedName(base_decl);
       }
     }
-- 
2.43.0


From 9b5bcf90e557fa23ae74c68965f838ba202d5a23 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:13:43 +0000
Subject: [PATCH 16/20] fix: export enumerators of unscoped enums without
 annotations

---
 src/expose.cpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/expose.cpp b/src/expose.cpp
index 7f8e709..e61f041 100644
--- a/src/expose.cpp
+++ b/src/expose.cpp
@@ -1021,9 +1021,9 @@ void EnumExposer::emitIntroducer(llvm::raw_ostream &os,
 }
 
 void EnumExposer::finalizeDefinition(llvm::raw_ostream &os) {
-  if (const auto attrs = annotations.get<EnumDeclAttrs>(enum_decl);
-      attrs.has_value() &&
-      attrs->export_values.value_or(!enum_decl->isScoped())) {
+  // Enums that inherit the visibility of their parent have no annotations.
+  if (const auto attrs = annotations.lookup<EnumDeclAttrs>(enum_decl);
+      attrs.export_values.value_or(!enum_decl->isScoped())) {
     os << "context.export_values();\n";
   }
 }
-- 
2.43.0


From 3db8e28f410f50b6ca554806ca1022a44fd16ae6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:19:06 +0000
Subject: [PATCH 17/20] fix: do not crash if an annotated template cannot be
 instantiated

---
 src/instantiate_annotated_templates.cpp | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/instantiate_annotated_templates.cpp b/src/instantiate_annotated_templates.cpp
index 8acb0c2..b4ddaba 100644
--- a/src/instantiate_annotated_templates.cpp
+++ b/src/instantiate_annotated_templates.cpp
@@ -88,7 +88,10 @@ void InstantiateAnnotatedTemplatesASTConsumer::instantiateSpecialization(
 
   auto *definition = llvm::cast_or_null<clang::ClassTemplateSpecializationDecl>(
       specialization->getDefinition());
-  assert(definition != nullptr && definition == specialization);
+  // The instantiation can fail, e.g. for undefined templates.
+  if (definition == nullptr)
+    return;
+  assert(definition == specialization);
 
   definition->setSpecializationKind(tsk);
   sema->runWithSufficientStackSpace(loc, [&] {
-- 
2.43.0


From 372f205a560033089f74d1ec40f460825213e400 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:19:06 +0000
Subject: [PATCH 18/20] fix: analyse headers as C++17 if the command uses a C
 standard

---
 src/tool.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/tool.cpp b/src/tool.cpp
index 9967562..b82c6fb 100644
--- a/src/tool.cpp
+++ b/src/tool.cpp
@@ -407,7 +407,8 @@ clang::tooling::ArgumentsAdjuster getCpp17OrLaterAdjuster() {
       if (arg.consume_front("-std=")) {
         // HACK: Simplistic check to also allow, e.g., gnu++2a.
         auto parts = arg.split("++");
-        language_standard_prefix = parts.first;
+        // Also covers standards of other languages, e.g., gnu11.
+        language_standard_prefix = arg.starts_with("gnu") ? "gnu" : "c";
         uses_later_standard = parts.second.starts_with("2");
         if (!uses_later_standard)
           continue;
-- 
2.43.0


From 9b42593ac1657cfd37bf4d079722ee429f25ab29 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:19:06 +0000
Subject: [PATCH 19/20] fix: recognize the long forms of -std= and -x

---
 src/tool.cpp | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/src/tool.cpp b/src/tool.cpp
index b82c6fb..8660def 100644
--- a/src/tool.cpp
+++ b/src/tool.cpp
@@ -396,15 +396,16 @@ clang::tooling::ArgumentsAdjuster getCpp17OrLaterAdjuster() {
       }
 
       // Skip further -x<language> arguments.
-      if (arg.consume_front("-x")) {
-        if (arg.empty())
-          ++idx; // skip next argument too
+      if (arg == "-x" || arg == "--language") {
+        ++idx; // skip next argument too
         continue;
       }
+      if (arg.starts_with("-x") || arg.starts_with("--language="))
+        continue;
 
       // Skip language standard argument, if less than 2x.
       // TODO: Take into account future changes to compiler's default values.
-      if (arg.consume_front("-std=")) {
+      if (arg.consume_front("-std=") || arg.consume_front("--std=")) {
         // HACK: Simplistic check to also allow, e.g., gnu++2a.
         auto parts = arg.split("++");
         // Also covers standards of other languages, e.g., gnu11.
-- 
2.43.0


From 534e20b48fba59b09086cbb6ec33141e347e8c07 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:25:49 +0000
Subject: [PATCH 20/20] fix: keep namespaces that contain only visible function
 templates

---
 src/decl_context_graph_processing.cpp | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/src/decl_context_graph_processing.cpp b/src/decl_context_graph_processing.cpp
index 78b10bc..75cf129 100644
--- a/src/decl_context_graph_processing.cpp
+++ b/src/decl_context_graph_processing.cpp
@@ -11,6 +11,7 @@
 
 #include <clang/AST/Decl.h>
 #include <clang/AST/DeclCXX.h>
+#include <clang/AST/DeclTemplate.h>
 #include <clang/AST/Type.h>
 #include <clang/Basic/Diagnostic.h>
 #include <clang/Basic/Specifiers.h>
@@ -250,6 +251,12 @@ ConstDeclContextSet genpybind::declContextsWithVisibleNamedDecls(
       if (decl->isImplicit())
         return false;
 
+      // Annotations of function templates are stored on their specializations.
+      if (const auto *tpl = llvm::dyn_cast<clang::FunctionTemplateDecl>(decl);
+          tpl != nullptr && llvm::any_of(tpl->specializations(),
+                                         is_visible_given_default_visibility))
+        return true;
+
       return is_visible_given_default_visibility(decl);
     });
   };
-- 
2.43.0

