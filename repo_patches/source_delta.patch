From 3ee1f1265b015708bc7ba5f8a01731ee3883f4f9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:30:16 +0000
Subject: [PATCH 01/45] fix: quote identifiers named infinity or variant_record
 when printing

Both words are reserved by the lexer but were missing from the list
consulted by Printer::quoteId, so a model using 'infinity' as a name
was printed to FlatZinc and output models as an expression.
---
 include/minizinc/prettyprinter.hh | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/include/minizinc/prettyprinter.hh b/include/minizinc/prettyprinter.hh
index d85acfd..23dbb60 100644
--- a/include/minizinc/prettyprinter.hh
+++ b/include/minizinc/prettyprinter.hh
@@ -84,12 +84,12 @@ public:
     const std::vector<std::string> reserved = {
         "ann",       "annotation", "any",      "array",    "bool",     "case",      "constraint",
         "default",   "diff",       "div",      "else",     "elseif",   "endif",     "enum",
-        "false",     "float",      "function", "if",       "in",       "include",   "int",
-        "intersect", "let",        "list",     "maximize", "minimize", "mod",       "not",
-        "of",        "op",         "opt",      "output",   "par",      "predicate", "record",
-        "satisfy",   "set",        "solve",    "string",   "subset",   "superset",  "symdiff",
-        "test",      "then",       "true",     "tuple",    "type",     "union",     "var",
-        "where",     "xor"};
+        "false",     "float",      "function", "if",       "in",       "include",   "infinity",
+        "int",       "intersect",  "let",      "list",     "maximize", "minimize",  "mod",
+        "not",       "of",         "op",       "opt",      "output",   "par",       "predicate",
+        "record",    "satisfy",    "set",      "solve",    "string",   "subset",    "superset",
+        "symdiff",   "test",       "then",     "true",     "tuple",    "type",      "union",
+        "var",       "variant_record",         "where",    "xor"};
     bool is_reserved =
         std::find(reserved.begin(), reserved.end(), std::string(str)) != reserved.end();
     int offset = str[0] == '_' ? 1 : 0;
-- 
2.43.0


From c20c91b985cf90b6723d186f8021288aec28654d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:30:16 +0000
Subject: [PATCH 02/45] fix: quote the identifier consisting of a single
 underscore

strchr also finds the terminating NUL, so the name '_' was printed
unquoted and read back as an anonymous variable (or a syntax error).
---
 include/minizinc/prettyprinter.hh | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/include/minizinc/prettyprinter.hh b/include/minizinc/prettyprinter.hh
index 23dbb60..453bf0f 100644
--- a/include/minizinc/prettyprinter.hh
+++ b/include/minizinc/prettyprinter.hh
@@ -93,7 +93,9 @@ public:
     bool is_reserved =
         std::find(reserved.begin(), reserved.end(), std::string(str)) != reserved.end();
     int offset = str[0] == '_' ? 1 : 0;
-    if (is_reserved || strchr(idBegin, str[offset]) == nullptr) {
+    // The single underscore denotes an anonymous variable
+    bool is_underscore = offset == 1 && str[1] == '\0';
+    if (is_reserved || is_underscore || strchr(idBegin, str[offset]) == nullptr) {
       return "'" + std::string(str) + "'";
     }
     auto n = s.size();
-- 
2.43.0


From f3ab1aeca2174f117efee3a92d919dd1cb5266c4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:15:47 +0000
Subject: [PATCH 03/45] fix: quote generator and assigned names when printing

---
 lib/prettyprinter.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/lib/prettyprinter.cpp b/lib/prettyprinter.cpp
index fcbb27e..ca8dbdc 100644
--- a/lib/prettyprinter.cpp
+++ b/lib/prettyprinter.cpp
@@ -566,7 +566,7 @@ public:
           for (unsigned int j = 0; j < c->numberOfDecls(i); j++) {
             auto* ident = c->decl(i, j)->id();
             if (ident->idn() == -1) {
-              _os << ident->v();
+              _os << Printer::quoteId(ident->v());
             } else if (ident->idn() < -1) {
               _os << "_";
             } else {
@@ -872,7 +872,7 @@ public:
         p(i->cast<VarDeclI>()->e());
         break;
       case Item::II_ASN:
-        _os << i->cast<AssignI>()->id() << " = ";
+        _os << Printer::quoteId(i->cast<AssignI>()->id()) << " = ";
         p(i->cast<AssignI>()->e());
         break;
       case Item::II_CON:
-- 
2.43.0


From a2a37c383019eed3c1a55ae5f8c6542af341648d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:15:47 +0000
Subject: [PATCH 04/45] fix: parenthesise signed operands of exponentiation
 when printing

---
 lib/prettyprinter.cpp | 18 ++++++++++++++++++
 1 file changed, 18 insertions(+)

diff --git a/lib/prettyprinter.cpp b/lib/prettyprinter.cpp
index ca8dbdc..0f658f5 100644
--- a/lib/prettyprinter.cpp
+++ b/lib/prettyprinter.cpp
@@ -111,12 +111,30 @@ Assoc assoc(const BinOp* bo) {
 
 enum Parentheses { PN_LEFT = 1, PN_RIGHT = 2 };
 
+/// Whether the printed form of \a e starts with a sign
+bool has_sign(const Expression* e) {
+  if (const auto* uo = Expression::dynamicCast<UnOp>(e)) {
+    return uo->op() == UOT_PLUS || uo->op() == UOT_MINUS;
+  }
+  if (const auto* il = Expression::dynamicCast<IntLit>(e)) {
+    return IntLit::v(il) < 0;
+  }
+  if (const auto* fl = Expression::dynamicCast<FloatLit>(e)) {
+    return FloatLit::v(fl) < 0.0;
+  }
+  return false;
+}
+
 Parentheses need_parentheses(const BinOp* bo, const Expression* left, const Expression* right) {
   int pbo = precedence(bo);
   int pl = precedence(left);
   int pr = precedence(right);
   int ret = static_cast<int>((pbo < pl) || (pbo == pl && assoc(bo) != AS_LEFT));
   ret += 2 * static_cast<int>((pbo < pr) || (pbo == pr && assoc(bo) != AS_RIGHT));
+  if (bo->op() == BOT_POW) {
+    // A sign binds less tightly than exponentiation
+    ret |= static_cast<int>(has_sign(left)) + 2 * static_cast<int>(has_sign(right));
+  }
   return static_cast<Parentheses>(ret);
 }
 
-- 
2.43.0


From 87bc1d21df66bee23075ffa8717d8e3e91beecf6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:15:47 +0000
Subject: [PATCH 05/45] fix: do not print addition of a unary plus as
 concatenation

---
 lib/prettyprinter.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/lib/prettyprinter.cpp b/lib/prettyprinter.cpp
index 0f658f5..7b84c9e 100644
--- a/lib/prettyprinter.cpp
+++ b/lib/prettyprinter.cpp
@@ -751,7 +751,8 @@ public:
             _os << "not ";
             break;
           case UOT_PLUS:
-            _os << "+";
+            // Separate from a preceding plus operator
+            _os << " +";
             break;
           case UOT_MINUS:
             _os << "-";
-- 
2.43.0


From 3ad28c5fff6b1480c5db3b3cccc58ec54fe4dbe7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:15:47 +0000
Subject: [PATCH 06/45] fix: parenthesise set values printed as unions

---
 lib/prettyprinter.cpp | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/lib/prettyprinter.cpp b/lib/prettyprinter.cpp
index 7b84c9e..60a965f 100644
--- a/lib/prettyprinter.cpp
+++ b/lib/prettyprinter.cpp
@@ -82,6 +82,15 @@ int precedence(const Expression* e) {
   } else if (Expression::isa<Let>(e)) {
     return 1300;
 
+  } else if (const auto* sl = Expression::dynamicCast<SetLit>(e)) {
+    // Set values that cannot be printed as a list or a single range are printed as a union
+    if ((sl->isv() != nullptr && sl->isv()->size() > 1 &&
+         !(sl->isv()->min().isFinite() && sl->isv()->max().isFinite())) ||
+        (sl->fsv() != nullptr && sl->fsv()->size() > 1)) {
+      return 600;
+    }
+    return 0;
+
   } else {
     return 0;
   }
-- 
2.43.0


From 2a29cbbfc01d91363183b44385f54546c2673962 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:15:48 +0000
Subject: [PATCH 07/45] fix: parenthesise operators and let expressions before
 a field access when printing

---
 lib/prettyprinter.cpp | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/lib/prettyprinter.cpp b/lib/prettyprinter.cpp
index 60a965f..972d35e 100644
--- a/lib/prettyprinter.cpp
+++ b/lib/prettyprinter.cpp
@@ -548,7 +548,14 @@ public:
       } break;
       case Expression::E_FIELDACCESS: {
         const auto* fa = Expression::cast<FieldAccess>(e);
+        bool needParentheses = Expression::isa<BinOp>(fa->v()) || Expression::isa<Let>(fa->v());
+        if (needParentheses) {
+          _os << "(";
+        }
         p(fa->v());
+        if (needParentheses) {
+          _os << ")";
+        }
         _os << ".";
         if (_env != nullptr && Expression::isa<IntLit>(fa->field()) &&
             Expression::type(fa->v()).isrecord()) {
-- 
2.43.0


From 4c5ca313da044562a1f54367b540159a37704b58 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:15:48 +0000
Subject: [PATCH 08/45] fix: print the annotations of operators so that they
 are not attached to the last operand

---
 lib/prettyprinter.cpp | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/lib/prettyprinter.cpp b/lib/prettyprinter.cpp
index 972d35e..00e8f9a 100644
--- a/lib/prettyprinter.cpp
+++ b/lib/prettyprinter.cpp
@@ -324,6 +324,13 @@ public:
     if (e == nullptr) {
       return;
     }
+    // An annotation would otherwise be attached to the last operand
+    bool annParentheses = (Expression::isa<BinOp>(e) || Expression::isa<UnOp>(e) ||
+                           Expression::isa<Let>(e) || Expression::isa<SetLit>(e)) &&
+                          !Expression::ann(e).isEmpty();
+    if (annParentheses) {
+      _os << "(";
+    }
     switch (Expression::eid(e)) {
       case Expression::E_INTLIT:
         _os << IntLit::v(Expression::cast<IntLit>(e));
@@ -887,6 +894,9 @@ public:
         }
       }
     }
+    if (annParentheses) {
+      _os << ")";
+    }
     if (!Expression::isa<VarDecl>(e)) {
       p(Expression::ann(e));
     }
-- 
2.43.0


From e2be9cfceabfdcdb2a3df5c4fc448bbed6f1bb25 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:21:54 +0000
Subject: [PATCH 09/45] fix: parenthesise annotated expressions before an index
 or field when printing

---
 lib/prettyprinter.cpp | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/lib/prettyprinter.cpp b/lib/prettyprinter.cpp
index 00e8f9a..4195fbd 100644
--- a/lib/prettyprinter.cpp
+++ b/lib/prettyprinter.cpp
@@ -510,7 +510,8 @@ public:
         const auto* aa = Expression::cast<ArrayAccess>(e);
         bool needParentheses =
             !(Expression::isa<Id>(aa->v()) || Expression::isa<Call>(aa->v()) ||
-              Expression::isa<ArrayLit>(aa->v()) || Expression::isa<Comprehension>(aa->v()));
+              Expression::isa<ArrayLit>(aa->v()) || Expression::isa<Comprehension>(aa->v())) ||
+            !Expression::ann(aa->v()).isEmpty();
         if (needParentheses) {
           _os << "(";
         }
@@ -555,7 +556,8 @@ public:
       } break;
       case Expression::E_FIELDACCESS: {
         const auto* fa = Expression::cast<FieldAccess>(e);
-        bool needParentheses = Expression::isa<BinOp>(fa->v()) || Expression::isa<Let>(fa->v());
+        bool needParentheses = Expression::isa<BinOp>(fa->v()) || Expression::isa<Let>(fa->v()) ||
+                               !Expression::ann(fa->v()).isEmpty();
         if (needParentheses) {
           _os << "(";
         }
-- 
2.43.0


From d4720997dacb228ab7a71e2d139fd55fef016523 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:30:47 +0000
Subject: [PATCH 10/45] fix: parenthesise let operands of unary operators when
 printing

---
 lib/prettyprinter.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lib/prettyprinter.cpp b/lib/prettyprinter.cpp
index 4195fbd..0567099 100644
--- a/lib/prettyprinter.cpp
+++ b/lib/prettyprinter.cpp
@@ -787,7 +787,7 @@ public:
             break;
         }
         bool needParen = (Expression::isa<BinOp>(uo->e()) || Expression::isa<UnOp>(uo->e()) ||
-                          !Expression::ann(uo).isEmpty());
+                          Expression::isa<Let>(uo->e()) || !Expression::ann(uo).isEmpty());
         if (needParen) {
           _os << "(";
         }
-- 
2.43.0


From 01011a8c8458a039c413aead6494aae92d94757c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:13:26 +0000
Subject: [PATCH 11/45] fix: order overloads consistently (a type always before
 its supertypes)

---
 lib/model.cpp | 65 ++++++++++++++++++++++++++++++++++++++-------------
 1 file changed, 49 insertions(+), 16 deletions(-)

diff --git a/lib/model.cpp b/lib/model.cpp
index f65ea4f..6163a9c 100644
--- a/lib/model.cpp
+++ b/lib/model.cpp
@@ -17,6 +17,7 @@
 #include <minizinc/type.hh>
 
 #include <algorithm>
+#include <limits>
 #include <vector>
 
 #undef MZN_DEBUG_FUNCTION_REGISTRY
@@ -54,28 +55,60 @@ bool Model::FnEntry::checkPoly(const EnvI& env, const Type& t) {
   return false;
 }
 
+namespace {
+/// Total order on parameter types that places every type before its proper supertypes. Each key
+/// is monotone under Type::isSubtypeOf, so no further subtype test is needed to break ties (mixing
+/// the partial subtype order with an unrelated total order would not be transitive).
+int cmp_specific(const EnvI& env, const Type& t1, const Type& t2) {
+  auto cmp = [](int a, int b) { return a < b ? -1 : (a > b ? 1 : 0); };
+  // Any number of dimensions (-1) comes last
+  auto dimKey = [](const Type& t) {
+    return t.dim() < 0 ? std::numeric_limits<int>::max() : t.dim();
+  };
+  // Type ids of enums come before the unrestricted type (which has type id 0)
+  auto idKey = [](const Type& t) {
+    return t.typeId() == 0 ? std::numeric_limits<int>::max() : static_cast<int>(t.typeId());
+  };
+  int c = cmp(static_cast<int>(t1.any()), static_cast<int>(t2.any()));
+  if (c == 0) {
+    c = -cmp(static_cast<int>(t1.st()), static_cast<int>(t2.st()));
+  }
+  if (c == 0) {
+    c = cmp(static_cast<int>(t1.bt()), static_cast<int>(t2.bt()));
+  }
+  if (c == 0) {
+    c = cmp(static_cast<int>(t1.ti()), static_cast<int>(t2.ti()));
+  }
+  if (c == 0) {
+    c = cmp(static_cast<int>(t1.ot()), static_cast<int>(t2.ot()));
+  }
+  if (c == 0 && t1.structBT() && t1.typeId() != 0 && t2.typeId() != 0) {
+    StructType* s1 = env.getStructType(t1);
+    StructType* s2 = env.getStructType(t2);
+    c = cmp(static_cast<int>(s1->size()), static_cast<int>(s2->size()));
+    for (unsigned int i = 0; c == 0 && i < s1->size(); i++) {
+      c = cmp_specific(env, (*s1)[i], (*s2)[i]);
+    }
+  }
+  if (c == 0) {
+    c = cmp(idKey(t1), idKey(t2));
+  }
+  if (c == 0) {
+    c = cmp(dimKey(t1), dimKey(t2));
+  }
+  return c;
+}
+}  // namespace
+
 bool Model::FnEntry::compare(const EnvI& env, const Model::FnEntry& e1, const Model::FnEntry& e2) {
   if (e1.t.size() < e2.t.size()) {
     return true;
   }
   if (e1.t.size() == e2.t.size()) {
     for (unsigned int i = 0; i < e1.t.size(); i++) {
-      if (e1.t[i] != e2.t[i]) {
-        if (e1.t[i].isSubtypeOf(env, e2.t[i], true)) {
-          assert(!e2.t[i].isSubtypeOf(env, e1.t[i], true));
-          return true;
-        }
-        if (e2.t[i].isSubtypeOf(env, e1.t[i], true)) {
-          return false;
-        }
-        switch (e1.t[i].cmp(e2.t[i])) {
-          case -1:
-            return true;
-          case 1:
-            return false;
-          default:
-            assert(false);
-        }
+      const int c = cmp_specific(env, e1.t[i], e2.t[i]);
+      if (c != 0) {
+        return c < 0;
       }
     }
   }
-- 
2.43.0


From 581c1d035bee860f6f696dc0e87c39860169c5fb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:13:26 +0000
Subject: [PATCH 12/45] fix: compare semantic versions lexicographically

---
 include/minizinc/utils.hh | 26 ++++++--------------------
 1 file changed, 6 insertions(+), 20 deletions(-)

diff --git a/include/minizinc/utils.hh b/include/minizinc/utils.hh
index 5df0988..1bc9655 100644
--- a/include/minizinc/utils.hh
+++ b/include/minizinc/utils.hh
@@ -277,30 +277,16 @@ public:
     patch = parseComponent(version.substr(begin, end - begin));
   }
   bool operator<(const SemanticVersion& other) const {
-    if (major < other.major) {
-      return true;
-    }
-    if (minor < other.minor) {
-      return true;
+    if (major != other.major) {
+      return major < other.major;
     }
-    if (patch < other.patch) {
-      return true;
+    if (minor != other.minor) {
+      return minor < other.minor;
     }
-
-    return false;
+    return patch < other.patch;
   }
   bool operator<=(const SemanticVersion& other) const {
-    if (major > other.major) {
-      return false;
-    }
-    if (minor > other.minor) {
-      return false;
-    }
-    if (patch > other.patch) {
-      return false;
-    }
-
-    return true;
+    return !(other < *this);
   }
   bool operator==(const SemanticVersion& other) const {
     return major == other.major && minor == other.minor && patch == other.patch;
-- 
2.43.0


From 787d29b4cae22bc649199b5386a8c9924b75fae8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:13:26 +0000
Subject: [PATCH 13/45] fix: order documentation index entries consistently

---
 lib/htmlprinter.cpp | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/lib/htmlprinter.cpp b/lib/htmlprinter.cpp
index 66d1cb3..ffeee90 100644
--- a/lib/htmlprinter.cpp
+++ b/lib/htmlprinter.cpp
@@ -977,8 +977,9 @@ std::vector<HtmlDocument> HtmlPrinter::printHtml(EnvI& env, MiniZinc::Model* m,
       }
     }
     bool operator<(const IndexEntry& e) const {
-      if ((isalpha(id[0]) == 0) && (isalpha(e.id[0]) != 0)) {
-        return true;
+      const bool alpha = isalpha(id[0]) != 0;
+      if (alpha != (isalpha(e.id[0]) != 0)) {
+        return !alpha;
       }
       return id == e.id ? groupName < e.groupName : id < e.id;
     }
-- 
2.43.0


From 829b3149a3f9b198c3df7509919e42b904216174 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:13:26 +0000
Subject: [PATCH 14/45] fix: order set literals of different representations
 consistently

---
 lib/ast.cpp | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/lib/ast.cpp b/lib/ast.cpp
index b238572..b2bd0ce 100644
--- a/lib/ast.cpp
+++ b/lib/ast.cpp
@@ -2120,6 +2120,13 @@ int Expression::compare(const Expression* e0, const Expression* e1) {
       }
       FloatSetVal* f0 = s0->fsv();
       FloatSetVal* f1 = s1->fsv();
+      // Different representations are never equal, so they need an order, too
+      if ((i0 != nullptr) != (i1 != nullptr)) {
+        return i0 != nullptr ? -1 : 1;
+      }
+      if ((f0 != nullptr) != (f1 != nullptr)) {
+        return f0 != nullptr ? -1 : 1;
+      }
       if ((f0 != nullptr) && (f1 != nullptr)) {
         if (f0->size() != f1->size()) {
           return f0->size() < f1->size() ? -1 : 1;
-- 
2.43.0


From 727a1a7cb601c5f7ebaacf0b0f1f765a659b034d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:15:29 +0000
Subject: [PATCH 15/45] fix: escape standard and required flags in the JSON
 listing of solver configurations

---
 lib/solver_config.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/lib/solver_config.cpp b/lib/solver_config.cpp
index 50598f9..de8f2aa 100644
--- a/lib/solver_config.cpp
+++ b/lib/solver_config.cpp
@@ -462,7 +462,7 @@ std::string SolverConfig::toJSON(const SolverConfigs& configs) const {
   if (!requiredFlags().empty()) {
     oss << "  \"requiredFlags\": [";
     for (unsigned int j = 0; j < requiredFlags().size(); j++) {
-      oss << "\"" << requiredFlags()[j] << "\"";
+      oss << "\"" << Printer::escapeStringLit(requiredFlags()[j]) << "\"";
       if (j < requiredFlags().size() - 1) {
         oss << ",";
       }
@@ -472,7 +472,7 @@ std::string SolverConfig::toJSON(const SolverConfigs& configs) const {
   if (!stdFlags().empty()) {
     oss << "  \"stdFlags\": [";
     for (unsigned int j = 0; j < stdFlags().size(); j++) {
-      oss << "\"" << stdFlags()[j] << "\"";
+      oss << "\"" << Printer::escapeStringLit(stdFlags()[j]) << "\"";
       if (j < stdFlags().size() - 1) {
         oss << ",";
       }
-- 
2.43.0


From 5a77465f81402ad7149d3113b1e3cb045567e84a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:15:29 +0000
Subject: [PATCH 16/45] fix: reject extra flags of a solver configuration with
 an unknown type or entries that are not strings

---
 lib/solver_config.cpp | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/lib/solver_config.cpp b/lib/solver_config.cpp
index de8f2aa..1ea516f 100644
--- a/lib/solver_config.cpp
+++ b/lib/solver_config.cpp
@@ -178,6 +178,10 @@ std::vector<SolverConfig::ExtraFlag> get_extra_flag_list(AssignI* ai) {
       auto* sl2 = Expression::dynamicCast<StringLit>((*al)[i + 1]);
       StringLit* sl3 = haveType ? Expression::dynamicCast<StringLit>((*al)[i + 2]) : nullptr;
       StringLit* sl4 = haveDefault ? Expression::dynamicCast<StringLit>((*al)[i + 3]) : nullptr;
+      if ((haveType && sl3 == nullptr) || (haveDefault && sl4 == nullptr)) {
+        throw ConfigException(
+            "invalid configuration item (right hand side must be a 2d array of strings)");
+      }
       std::string opt_type_full =
           sl3 != nullptr ? std::string(sl3->v().c_str(), sl3->v().size()) : "bool";
       std::vector<std::string> opt_range;
@@ -202,6 +206,9 @@ std::vector<SolverConfig::ExtraFlag> get_extra_flag_list(AssignI* ai) {
         flag_type = SolverConfig::ExtraFlag::FlagType::T_FLOAT;
       } else if (opt_type == "string" || opt_type == "opt") {
         flag_type = SolverConfig::ExtraFlag::FlagType::T_STRING;
+      } else {
+        throw ConfigException("invalid configuration item (unknown extra flag type " + opt_type +
+                              ")");
       }
       if (split != std::string::npos) {
         opt_type_full = opt_type_full.substr(split + 1);
-- 
2.43.0


From 0040b6d759df4c3b3278bcc65bc68869940fade5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:29:19 +0000
Subject: [PATCH 17/45] fix: check that options of the driver have their
 argument before reading it

---
 lib/solver.cpp | 34 ++++++++++++++++++++++++++++++----
 1 file changed, 30 insertions(+), 4 deletions(-)

diff --git a/lib/solver.cpp b/lib/solver.cpp
index ab25ec0..39115e1 100644
--- a/lib/solver.cpp
+++ b/lib/solver.cpp
@@ -403,9 +403,14 @@ MznSolver::OptionStatus MznSolver::processOptions(std::vector<std::string>& argv
       }
       paramFile = argv[i];
     } else if (argv[i] == "--push-working-directory") {
-      ++i;
+      if (++i == argc) {
+        throw BadOption("Argument required for --push-working-directory");
+      }
       workingDirs.push_back(argv[i]);
     } else if (argv[i] == "--pop-working-directory") {
+      if (workingDirs.size() == 1) {
+        throw BadOption("--pop-working-directory without matching --push-working-directory");
+      }
       workingDirs.pop_back();
     } else {
       size_t last_dot = argv[i].find_last_of('.');
@@ -482,9 +487,14 @@ MznSolver::OptionStatus MznSolver::processOptions(std::vector<std::string>& argv
       bool ok = false;
       if (argv[i] == "--push-working-directory") {
         remaining.push_back(argv[i]);
-        i++;
+        if (++i == argc) {
+          throw BadOption("Argument required for --push-working-directory");
+        }
         workingDirs.push_back(argv[i]);
       } else if (argv[i] == "--pop-working-directory") {
+        if (workingDirs.size() == 1) {
+          throw BadOption("--pop-working-directory without matching --push-working-directory");
+        }
         workingDirs.pop_back();
       } else {
         for (const auto& factoryFlag : factoryFlags) {
@@ -512,6 +522,9 @@ MznSolver::OptionStatus MznSolver::processOptions(std::vector<std::string>& argv
         argv[i] == "--nl-flags" || argv[i] == "--nl-flag") {
       // Ensure that we don't consume the argument to --backend-flags and similar
       argv[j++] = argv[i++];
+      if (i == argc) {
+        throw BadOption("Argument required for " + argv[i - 1]);
+      }
       argv[j++] = argv[i];
       continue;
     }
@@ -634,6 +647,9 @@ MznSolver::OptionStatus MznSolver::processOptions(std::vector<std::string>& argv
     } else if (argv[i] == "--only-sections" || argv[i] == "--not-sections") {
       argv[j++] = argv[i];
       s2out.opt.checkerArgs.push_back(argv[i++]);
+      if (i == argc) {
+        throw BadOption("Argument required for " + argv[i - 1]);
+      }
       argv[j++] = argv[i];
       s2out.opt.checkerArgs.push_back(argv[i]);
     } else {
@@ -911,9 +927,14 @@ MznSolver::OptionStatus MznSolver::processOptions(std::vector<std::string>& argv
     CLOParser cop(i, argv);  // For special handling of -a, -i and -n-i
     for (i = 1; i < argc; ++i) {
       if (argv[i] == "--push-working-directory") {
-        i++;
+        if (++i == argc) {
+          throw BadOption("Argument required for --push-working-directory");
+        }
         workingDirs.push_back(argv[i]);
       } else if (argv[i] == "--pop-working-directory") {
+        if (workingDirs.size() == 1) {
+          throw BadOption("--pop-working-directory without matching --push-working-directory");
+        }
         workingDirs.pop_back();
       } else if (!ifMzn2Fzn() ? s2out.processOption(i, argv, workingDirs.back())
                               : false) {  // NOLINT: Allow repeated empty if
@@ -951,9 +972,14 @@ MznSolver::OptionStatus MznSolver::processOptions(std::vector<std::string>& argv
   }
   for (i = 1; i < argc; ++i) {
     if (argv[i] == "--push-working-directory") {
-      i++;
+      if (++i == argc) {
+        throw BadOption("Argument required for --push-working-directory");
+      }
       workingDirs.push_back(argv[i]);
     } else if (argv[i] == "--pop-working-directory") {
+      if (workingDirs.size() == 1) {
+        throw BadOption("--pop-working-directory without matching --push-working-directory");
+      }
       workingDirs.pop_back();
     } else if (s2out.processOption(i, argv, workingDirs.back())) {
       // Processed by Solns2Out
-- 
2.43.0


From b83ab31c82a94cfa57bd5d3f14cb234129dc535c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:29:19 +0000
Subject: [PATCH 18/45] fix: leave the option index in range when a Gecode
 option lacks its argument, document the accepted time limit option

---
 solvers/gecode/gecode_solverinstance.cpp | 12 +++++++++++-
 1 file changed, 11 insertions(+), 1 deletion(-)

diff --git a/solvers/gecode/gecode_solverinstance.cpp b/solvers/gecode/gecode_solverinstance.cpp
index ef096d1..654d0bb 100644
--- a/solvers/gecode/gecode_solverinstance.cpp
+++ b/solvers/gecode/gecode_solverinstance.cpp
@@ -68,6 +68,7 @@ bool GecodeSolverFactory::processOption(SolverInstanceBase::Options* opt, int& i
   auto& _opt = static_cast<GecodeOptions&>(*opt);
   if (string(argv[i]) == "--backend-flags") {
     if (++i == argv.size()) {
+      --i;
       return false;
     }
     auto args = FileUtils::parse_cmd_line(argv[i]);
@@ -86,6 +87,7 @@ bool GecodeSolverFactory::processOption(SolverInstanceBase::Options* opt, int& i
     _opt.shave = true;
   } else if (string(argv[i]) == "--pre-passes") {
     if (++i == argv.size()) {
+      --i;
       return false;
     }
     const int passes = parse_int_option(argv[i], "--pre-passes");
@@ -96,6 +98,7 @@ bool GecodeSolverFactory::processOption(SolverInstanceBase::Options* opt, int& i
     _opt.allSolutions = true;
   } else if (string(argv[i]) == "-n" || string(argv[i]) == "--num-solutions") {
     if (++i == argv.size()) {
+      --i;
       return false;
     }
     const int n = parse_int_option(argv[i], "--num-solutions");
@@ -104,6 +107,7 @@ bool GecodeSolverFactory::processOption(SolverInstanceBase::Options* opt, int& i
     }
   } else if (string(argv[i]) == "--node") {
     if (++i == argv.size()) {
+      --i;
       return false;
     }
     const int nodes = parse_int_option(argv[i], "--node");
@@ -112,6 +116,7 @@ bool GecodeSolverFactory::processOption(SolverInstanceBase::Options* opt, int& i
     }
   } else if (string(argv[i]) == "--c_d") {
     if (++i == argv.size()) {
+      --i;
       return false;
     }
     const int c_d = parse_int_option(argv[i], "--c_d");
@@ -120,6 +125,7 @@ bool GecodeSolverFactory::processOption(SolverInstanceBase::Options* opt, int& i
     }
   } else if (string(argv[i]) == "--a_d") {
     if (++i == argv.size()) {
+      --i;
       return false;
     }
     const int a_d = parse_int_option(argv[i], "--a_d");
@@ -129,6 +135,7 @@ bool GecodeSolverFactory::processOption(SolverInstanceBase::Options* opt, int& i
 #if GECODE_VERSION_NUMBER >= 600300
   } else if (string(argv[i]) == "--restart-limit") {
     if (++i == argv.size()) {
+      --i;
       return false;
     }
     const int restarts = parse_int_option(argv[i], "--restart-limit");
@@ -138,6 +145,7 @@ bool GecodeSolverFactory::processOption(SolverInstanceBase::Options* opt, int& i
 #endif
   } else if (string(argv[i]) == "--fail") {
     if (++i == argv.size()) {
+      --i;
       return false;
     }
     const int fails = parse_int_option(argv[i], "--fail");
@@ -146,6 +154,7 @@ bool GecodeSolverFactory::processOption(SolverInstanceBase::Options* opt, int& i
     }
   } else if (argv[i] == "--solver-time-limit" || argv[i] == "-t") {
     if (++i == argv.size()) {
+      --i;
       return false;
     }
     const int time = parse_int_option(argv[i], "--solver-time-limit");
@@ -158,6 +167,7 @@ bool GecodeSolverFactory::processOption(SolverInstanceBase::Options* opt, int& i
     _opt.statistics = true;
   } else if (string(argv[i]) == "-p") {
     if (++i == argv.size()) {
+      --i;
       return false;
     }
     const int threads = parse_int_option(argv[i], "-p");
@@ -195,7 +205,7 @@ void GecodeSolverFactory::printHelp(ostream& os) {
      << "  --restart-limit <n>" << std::endl
      << "    restart cutoff (0 = none, solution mode)" << std::endl
 #endif
-     << "  --time <ms>" << std::endl
+     << "  -t <ms>, --solver-time-limit <ms>" << std::endl
      << "    time (in ms) cutoff (0 = none, solution mode)" << std::endl
      << "  -a, --all-solutions" << std::endl
      << "    print intermediate solutions" << std::endl
-- 
2.43.0


From f00efef4735b7138d49645cf02657a6e351dafb5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:29:19 +0000
Subject: [PATCH 19/45] fix: reject option values that do not parse completely

---
 include/minizinc/utils.hh | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/minizinc/utils.hh b/include/minizinc/utils.hh
index 1bc9655..aad6bfb 100644
--- a/include/minizinc/utils.hh
+++ b/include/minizinc/utils.hh
@@ -163,7 +163,7 @@ public:
       }
       std::istringstream iss(arg);
       Value tmp;
-      if (!(iss >> tmp)) {
+      if (!(iss >> tmp) || !(iss >> std::ws).eof()) {
         if (!combinedArg) {
           --_i;
         }
-- 
2.43.0


From b675ade3e86308cbe1679439165ddbe62f33cd98 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:31:16 +0000
Subject: [PATCH 20/45] fix: report JSON numbers and escapes that are out of
 range or incomplete instead of clipping them

---
 lib/json_parser.cpp | 25 +++++++++++++++++++------
 1 file changed, 19 insertions(+), 6 deletions(-)

diff --git a/lib/json_parser.cpp b/lib/json_parser.cpp
index cc5f1e8..24fddf3 100644
--- a/lib/json_parser.cpp
+++ b/lib/json_parser.cpp
@@ -18,6 +18,7 @@
 #include <minizinc/json_parser.hh>
 
 #include <fstream>
+#include <limits>
 #include <sstream>
 #include <string>
 #include <utility>
@@ -36,11 +37,11 @@ protected:
 public:
   Token() : t(T_EOF) {}
   std::string s;
-  int i;
+  long long int i;
   double d;
   bool b;
   Token(std::string s0) : t(T_STRING), s(std::move(s0)) {}
-  Token(int i0) : t(T_INT), i(i0), d(i0) {}
+  Token(long long int i0) : t(T_INT), i(i0), d(static_cast<double>(i0)) {}
   Token(double d0) : t(T_FLOAT), d(d0) {}
   Token(bool b0) : t(T_BOOL), i(static_cast<int>(b0)), d(static_cast<double>(b0)), b(b0) {}
   static Token listOpen() { return Token(T_LIST_OPEN); }
@@ -273,7 +274,7 @@ JSONParser::Token JSONParser::readToken(istream& is) {
             ss << std::hex << std::string(rest, is.gcount());
             unsigned long codepoint;
             ss >> codepoint;
-            if (ss.fail()) {
+            if (ss.fail() || !ss.eof()) {
               throw JSONError(_env, errLocation(),
                               "unexpected token `" + string(rest, is.gcount()) + "'");
             }
@@ -293,7 +294,7 @@ JSONParser::Token JSONParser::readToken(istream& is) {
               ss << std::hex << std::string(&rest[2], 4);
               unsigned int lowSurrogate;
               ss >> lowSurrogate;
-              if (ss.fail() || lowSurrogate < 0xDC00 || lowSurrogate > 0xDFFF) {
+              if (ss.fail() || !ss.eof() || lowSurrogate < 0xDC00 || lowSurrogate > 0xDFFF) {
                 throw JSONError(_env, errLocation(),
                                 "unexpected token `" + string(rest, is.gcount()) + "'");
               }
@@ -351,8 +352,11 @@ JSONParser::Token JSONParser::readToken(istream& is) {
         } else {
           is.unget();
           std::istringstream iss(result);
-          int v;
+          long long int v;
           iss >> v;
+          if (iss.fail() || !iss.eof()) {
+            throw JSONError(_env, errLocation(), "invalid integer literal `" + result + "'");
+          }
           state = S_NOTHING;
           return Token(v);
         }
@@ -369,6 +373,9 @@ JSONParser::Token JSONParser::readToken(istream& is) {
           std::istringstream iss(result);
           double v;
           iss >> v;
+          if (iss.fail() || !iss.eof()) {
+            throw JSONError(_env, errLocation(), "invalid float literal `" + result + "'");
+          }
           state = S_NOTHING;
           return Token(v);
         }
@@ -381,6 +388,9 @@ JSONParser::Token JSONParser::readToken(istream& is) {
           std::istringstream iss(result);
           double v;
           iss >> v;
+          if (iss.fail() || !iss.eof()) {
+            throw JSONError(_env, errLocation(), "invalid float literal `" + result + "'");
+          }
           state = S_NOTHING;
           return Token(v);
         }
@@ -414,7 +424,10 @@ int JSONParser::expectInt(istream& is) {
   if (rt.t != T_INT) {
     throw JSONError(_env, errLocation(), "unexpected token, expected int");
   }
-  return rt.i;
+  if (rt.i < std::numeric_limits<int>::min() || rt.i > std::numeric_limits<int>::max()) {
+    throw JSONError(_env, errLocation(), "integer out of range");
+  }
+  return static_cast<int>(rt.i);
 }
 
 void JSONParser::expectEof(istream& is) {
-- 
2.43.0


From cc2f45503e9c4d014691910fe6f0e6ca45669bcf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:31:16 +0000
Subject: [PATCH 21/45] fix: initialise the parsed expression of a JSON enum
 object

---
 lib/json_parser.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lib/json_parser.cpp b/lib/json_parser.cpp
index 24fddf3..d3e93ee 100644
--- a/lib/json_parser.cpp
+++ b/lib/json_parser.cpp
@@ -551,7 +551,7 @@ Expression* JSONParser::parseEnumObject(std::istream& is, const std::string& see
   // precondition: already parsed '{ "e" :' or '{ "c" :' or '{ "i":'
   //               seen = "e" or "c" or "i"
   auto key = seen;
-  Expression* e;
+  Expression* e = nullptr;
   std::string c;
   int i = -1;
 
-- 
2.43.0


From abca2004fe37112c311163aadbb5956add2c55b8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:34:12 +0000
Subject: [PATCH 22/45] fix: reject numbers followed by rubbish in solver
 parameters, flag ranges, solver statistics and NL solutions

---
 include/minizinc/utils.hh       |  6 +++---
 lib/flatten.cpp                 |  2 +-
 lib/solns2out.cpp               | 14 ++++++++------
 lib/solver_config.cpp           | 14 ++++++++++----
 lib/utils.cpp                   | 18 ++++++++++++++++++
 solvers/MIP/MIP_cplex_wrap.cpp  |  6 +++---
 solvers/MIP/MIP_gurobi_wrap.cpp |  6 ++++--
 solvers/MIP/MIP_highs_wrap.cpp  |  8 +++++---
 solvers/MIP/MIP_scip_wrap.cpp   |  9 ++++++---
 solvers/MIP/MIP_xpress_wrap.cpp |  6 +++---
 solvers/nl/nl_solreader.cpp     | 18 +++++++++++++-----
 11 files changed, 74 insertions(+), 33 deletions(-)

diff --git a/include/minizinc/utils.hh b/include/minizinc/utils.hh
index aad6bfb..5697e78 100644
--- a/include/minizinc/utils.hh
+++ b/include/minizinc/utils.hh
@@ -45,6 +45,8 @@ namespace MiniZinc {
 
 int parse_int(const std::string& value);
 long parse_long(const std::string& value);
+long long parse_long_long(const std::string& value);
+double parse_double(const std::string& value);
 unsigned long parse_unsigned_long(const std::string& value);
 unsigned int parse_unsigned_int(const std::string& value);
 int parse_int_option(const std::string& value, const std::string& option);
@@ -285,9 +287,7 @@ public:
     }
     return patch < other.patch;
   }
-  bool operator<=(const SemanticVersion& other) const {
-    return !(other < *this);
-  }
+  bool operator<=(const SemanticVersion& other) const { return !(other < *this); }
   bool operator==(const SemanticVersion& other) const {
     return major == other.major && minor == other.minor && patch == other.patch;
   }
diff --git a/lib/flatten.cpp b/lib/flatten.cpp
index c226993..98f7871 100644
--- a/lib/flatten.cpp
+++ b/lib/flatten.cpp
@@ -5030,7 +5030,7 @@ void flatten(Env& e, FlatteningOptions opt) {
                   size_t sep = loc.find('|');
                   std::string filename = loc.substr(0, sep);
                   std::string start_line_s = loc.substr(sep + 1, loc.find('|', sep + 1) - sep - 1);
-                  int start_line = std::stoi(start_line_s);
+                  int start_line = parse_int(start_line_s);
                   Location new_loc(ASTString(filename), start_line, 0, start_line, 0);
                   orig_loc = new_loc;
                 }
diff --git a/lib/solns2out.cpp b/lib/solns2out.cpp
index a59a48b..294ca5f 100644
--- a/lib/solns2out.cpp
+++ b/lib/solns2out.cpp
@@ -731,14 +731,16 @@ bool Solns2Out::feedRawDataChunk(const char* data) {
           if (is_statistic && line.size() > 13) {
             if (line.substr(13, 6) == "nodes=") {
               std::istringstream iss(line.substr(19));
-              int n_nodes;
-              iss >> n_nodes;
-              stats.nNodes = n_nodes;
+              unsigned long long n_nodes;
+              if (iss >> n_nodes && (iss >> std::ws).eof()) {
+                stats.nNodes = n_nodes;
+              }
             } else if (line.substr(13, 9) == "failures=") {
               std::istringstream iss(line.substr(22));
-              int n_failures;
-              iss >> n_failures;
-              stats.nFails = n_failures;
+              unsigned long long n_failures;
+              if (iss >> n_failures && (iss >> std::ws).eof()) {
+                stats.nFails = n_failures;
+              }
             }
           }
         }
diff --git a/lib/solver_config.cpp b/lib/solver_config.cpp
index 1ea516f..b615b06 100644
--- a/lib/solver_config.cpp
+++ b/lib/solver_config.cpp
@@ -15,6 +15,7 @@
 #include <minizinc/parser.hh>
 #include <minizinc/prettyprinter.hh>
 #include <minizinc/solver_config.hh>
+#include <minizinc/utils.hh>
 
 #include <algorithm>
 #include <cctype>
@@ -49,12 +50,12 @@ bool SolverConfig::ExtraFlag::validate(const std::string& v) const {
       case FlagType::T_STRING:
         return range.empty() || std::find(range.begin(), range.end(), v) != range.end();
       case FlagType::T_INT: {
-        long long i = stoll(v);
-        return range.empty() || (i >= stoll(range[0]) && i <= stoll(range[1]));
+        long long i = parse_long_long(v);
+        return range.empty() || (i >= parse_long_long(range[0]) && i <= parse_long_long(range[1]));
       }
       case FlagType::T_FLOAT: {
-        double i = stod(v);
-        return range.empty() || (i >= stod(range[0]) && i <= stod(range[1]));
+        double i = parse_double(v);
+        return range.empty() || (i >= parse_double(range[0]) && i <= parse_double(range[1]));
       }
     }
   } catch (const invalid_argument&) {
@@ -217,6 +218,11 @@ std::vector<SolverConfig::ExtraFlag> get_extra_flag_list(AssignI* ai) {
           opt_range.push_back(opt_type_full.substr(0, split));
           opt_type_full = split == std::string::npos ? "" : opt_type_full.substr(split + 1);
         }
+        if ((opt_type == "int" || opt_type == "float") && !opt_range.empty() &&
+            opt_range.size() != 2) {
+          throw ConfigException("invalid configuration item (range of extra flag type " + opt_type +
+                                " must have a lower and an upper bound)");
+        }
       }
 
       if ((sl1 != nullptr) && (sl2 != nullptr)) {
diff --git a/lib/utils.cpp b/lib/utils.cpp
index aa6ff97..3465ccc 100644
--- a/lib/utils.cpp
+++ b/lib/utils.cpp
@@ -45,6 +45,24 @@ long parse_long(const std::string& value) {
   return result;
 }
 
+long long parse_long_long(const std::string& value) {
+  size_t parsed = 0;
+  const long long result = std::stoll(value, &parsed, 10);
+  if (parsed != value.size()) {
+    throw std::invalid_argument("Invalid integer");
+  }
+  return result;
+}
+
+double parse_double(const std::string& value) {
+  size_t parsed = 0;
+  const double result = std::stod(value, &parsed);
+  if (parsed != value.size()) {
+    throw std::invalid_argument("Invalid number");
+  }
+  return result;
+}
+
 unsigned long parse_unsigned_long(const std::string& value) {
   const size_t first = value.find_first_not_of(" \t\n\r\f\v");
   if (first != std::string::npos && value[first] == '-') {
diff --git a/solvers/MIP/MIP_cplex_wrap.cpp b/solvers/MIP/MIP_cplex_wrap.cpp
index 6c642b7..b256889 100644
--- a/solvers/MIP/MIP_cplex_wrap.cpp
+++ b/solvers/MIP/MIP_cplex_wrap.cpp
@@ -1258,15 +1258,15 @@ void MIPCplexWrapper::solve() {  // Move into ancestor?
     wrapAssert(_status == 0, "CPLEX: could not get type for parameter " + name);
     switch (param_type) {
       case CPX_PARAMTYPE_INT:
-        _status = dll_CPXsetintparam(_env, param, stoi(it.second));
+        _status = dll_CPXsetintparam(_env, param, MiniZinc::parse_int(it.second));
         wrapAssert(_status == 0, "CPLEX: failed to set parameter " + name);
         break;
       case CPX_PARAMTYPE_LONG:
-        _status = dll_CPXsetlongparam(_env, param, stoll(it.second));
+        _status = dll_CPXsetlongparam(_env, param, MiniZinc::parse_long_long(it.second));
         wrapAssert(_status == 0, "CPLEX: failed to set parameter " + name);
         break;
       case CPX_PARAMTYPE_DOUBLE:
-        _status = dll_CPXsetdblparam(_env, param, stod(it.second));
+        _status = dll_CPXsetdblparam(_env, param, MiniZinc::parse_double(it.second));
         wrapAssert(_status == 0, "CPLEX: failed to set parameter " + name);
         break;
       case CPX_PARAMTYPE_STRING:
diff --git a/solvers/MIP/MIP_gurobi_wrap.cpp b/solvers/MIP/MIP_gurobi_wrap.cpp
index 9d1a958..187c6e8 100644
--- a/solvers/MIP/MIP_gurobi_wrap.cpp
+++ b/solvers/MIP/MIP_gurobi_wrap.cpp
@@ -978,10 +978,12 @@ void MIPGurobiWrapper::solve() {        // Move into ancestor?
     enum GurobiParamType { T_INT = 1, T_DOUBLE = 2, T_STRING = 3 };
     switch (type) {
       case T_INT:
-        _error = dll_GRBsetintparam(dll_GRBgetenv(_model), name.c_str(), stoi(it.second));
+        _error =
+            dll_GRBsetintparam(dll_GRBgetenv(_model), name.c_str(), MiniZinc::parse_int(it.second));
         break;
       case T_DOUBLE:
-        _error = dll_GRBsetdblparam(dll_GRBgetenv(_model), name.c_str(), stod(it.second));
+        _error = dll_GRBsetdblparam(dll_GRBgetenv(_model), name.c_str(),
+                                    MiniZinc::parse_double(it.second));
         break;
       case T_STRING:
         _error = dll_GRBsetstrparam(dll_GRBgetenv(_model), name.c_str(), it.second.c_str());
diff --git a/solvers/MIP/MIP_highs_wrap.cpp b/solvers/MIP/MIP_highs_wrap.cpp
index 33572f5..6768bd9 100644
--- a/solvers/MIP/MIP_highs_wrap.cpp
+++ b/solvers/MIP/MIP_highs_wrap.cpp
@@ -479,12 +479,14 @@ void MIPHiGHSWrapper::setOptions() {
         break;
       }
       case kHighsOptionTypeInt: {
-        checkHiGHSReturn(_plugin->Highs_setIntOptionValue(_highs, name.c_str(), stoi(it.second)),
-                         "unable to set HiGHS option `" + name + "'");
+        checkHiGHSReturn(
+            _plugin->Highs_setIntOptionValue(_highs, name.c_str(), MiniZinc::parse_int(it.second)),
+            "unable to set HiGHS option `" + name + "'");
         break;
       }
       case kHighsOptionTypeDouble: {
-        checkHiGHSReturn(_plugin->Highs_setDoubleOptionValue(_highs, name.c_str(), stod(it.second)),
+        checkHiGHSReturn(_plugin->Highs_setDoubleOptionValue(_highs, name.c_str(),
+                                                             MiniZinc::parse_double(it.second)),
                          "unable to set HiGHS option `" + name + "'");
         break;
       }
diff --git a/solvers/MIP/MIP_scip_wrap.cpp b/solvers/MIP/MIP_scip_wrap.cpp
index 704deb5..3cdb3f3 100644
--- a/solvers/MIP/MIP_scip_wrap.cpp
+++ b/solvers/MIP/MIP_scip_wrap.cpp
@@ -904,13 +904,16 @@ SCIP_RETCODE MIPScipWrapper::solveSCIP() {  // Move into ancestor?
         }
         break;
       case SCIP_ParamType::SCIP_PARAMTYPE_INT:
-        SCIP_PLUGIN_CALL_R(_plugin, _plugin->SCIPchgIntParam(_scip, param, stoi(it.second)));
+        SCIP_PLUGIN_CALL_R(_plugin,
+                           _plugin->SCIPchgIntParam(_scip, param, MiniZinc::parse_int(it.second)));
         break;
       case SCIP_ParamType::SCIP_PARAMTYPE_LONGINT:
-        SCIP_PLUGIN_CALL_R(_plugin, _plugin->SCIPchgLongintParam(_scip, param, stoll(it.second)));
+        SCIP_PLUGIN_CALL_R(_plugin, _plugin->SCIPchgLongintParam(
+                                        _scip, param, MiniZinc::parse_long_long(it.second)));
         break;
       case SCIP_ParamType::SCIP_PARAMTYPE_REAL:
-        SCIP_PLUGIN_CALL_R(_plugin, _plugin->SCIPchgRealParam(_scip, param, stod(it.second)));
+        SCIP_PLUGIN_CALL_R(
+            _plugin, _plugin->SCIPchgRealParam(_scip, param, MiniZinc::parse_double(it.second)));
         break;
       case SCIP_ParamType::SCIP_PARAMTYPE_STRING:
         SCIP_PLUGIN_CALL_R(_plugin, _plugin->SCIPchgStringParam(_scip, param, it.second.c_str()));
diff --git a/solvers/MIP/MIP_xpress_wrap.cpp b/solvers/MIP/MIP_xpress_wrap.cpp
index 4fb314b..a077053 100644
--- a/solvers/MIP/MIP_xpress_wrap.cpp
+++ b/solvers/MIP/MIP_xpress_wrap.cpp
@@ -761,13 +761,13 @@ void MIPxpressWrapper::setOptions() {
     }
     switch (t) {
       case XPRS_TYPE_INT:
-        _plugin->XPRSsetintcontrol(_problem, n, stoi(it.second));
+        _plugin->XPRSsetintcontrol(_problem, n, MiniZinc::parse_int(it.second));
         break;
       case XPRS_TYPE_INT64:
-        _plugin->XPRSsetintcontrol64(_problem, n, stoll(it.second));
+        _plugin->XPRSsetintcontrol64(_problem, n, MiniZinc::parse_long_long(it.second));
         break;
       case XPRS_TYPE_DOUBLE:
-        _plugin->XPRSsetdblcontrol(_problem, n, stod(it.second));
+        _plugin->XPRSsetdblcontrol(_problem, n, MiniZinc::parse_double(it.second));
         break;
       case XPRS_TYPE_STRING:
         _plugin->XPRSsetstrcontrol(_problem, n, it.second.c_str());
diff --git a/solvers/nl/nl_solreader.cpp b/solvers/nl/nl_solreader.cpp
index 74b1c18..ae3457e 100644
--- a/solvers/nl/nl_solreader.cpp
+++ b/solvers/nl/nl_solreader.cpp
@@ -5,11 +5,19 @@
  * file, You can obtain one at http://mozilla.org/MPL/2.0/. */
 
 #include <minizinc/solvers/nl/nl_solreader.hh>
+#include <minizinc/utils.hh>
 
 using namespace std;
 
 namespace MiniZinc {
 
+namespace {
+/// Remove white space at the end of a line (e.g. a carriage return)
+std::string trim_end(const std::string& line) {
+  return line.substr(0, line.find_last_not_of(" \t\r\n") + 1);
+}
+}  // namespace
+
 // *** *** *** NLSol *** *** ***
 
 // Parse a string into a NLSol object
@@ -33,7 +41,7 @@ NLSol NLSol::parseSolution(istream& in) {
     if (getline(in, buffer)) {
       if (buffer == "Options") {
         if (getline(in, buffer)) {
-          int nb_options = stoi(buffer);
+          int nb_options = parse_int(trim_end(buffer));
           while (nb_options > 0) {
             getline(in, buffer);
             nb_options--;
@@ -52,14 +60,14 @@ NLSol NLSol::parseSolution(istream& in) {
     if (!success || in.bad()) {
       return NLSol("Error reading the number of dual", NL_Solver_Status::PARSE_ERROR, {});
     }
-    int nb_duals = stoi(buffer);
+    int nb_duals = parse_int(trim_end(buffer));
 
     // Check the primal: we ignore the first, read the second
     success = getline(in, buffer) && getline(in, buffer);
     if (!success || in.bad()) {
       return NLSol("Error reading the number of primal", NL_Solver_Status::PARSE_ERROR, {});
     }
-    int nb_vars = stoi(buffer);
+    int nb_vars = parse_int(trim_end(buffer));
 
     // Skip the duals
     while (nb_duals > 0 && getline(in, buffer)) {
@@ -72,7 +80,7 @@ NLSol NLSol::parseSolution(istream& in) {
 
     // Read the vars
     while (nb_vars > 0 && getline(in, buffer)) {
-      double d = stod(buffer);
+      double d = parse_double(trim_end(buffer));
       vec.push_back(d);
       nb_vars--;
     }
@@ -87,7 +95,7 @@ NLSol NLSol::parseSolution(istream& in) {
     // 8 char
     getline(in, buffer);
     string sub = buffer.substr(8, buffer.length() - 8);
-    int resultCode = stoi(sub);
+    int resultCode = parse_int(trim_end(sub));
     st = NL_Solver_Status::UNKNOWN;
     // Not this case, this one is our own: case -2: st = NL_Solver_Status::PARSE_ERROR;
     if (resultCode == -1) {
-- 
2.43.0


From 43ff801f78841d6813b33035ca0e1ce08bc3c36a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:44:14 +0000
Subject: [PATCH 23/45] fix: reject configuration integers that are out of
 range instead of truncating them

---
 lib/solver_config.cpp | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/lib/solver_config.cpp b/lib/solver_config.cpp
index b615b06..9d9f6c7 100644
--- a/lib/solver_config.cpp
+++ b/lib/solver_config.cpp
@@ -20,6 +20,7 @@
 #include <algorithm>
 #include <cctype>
 #include <iterator>
+#include <limits>
 #include <set>
 #include <sstream>
 #include <string>
@@ -81,7 +82,11 @@ bool get_bool(AssignI* ai) {
 }
 int get_int(AssignI* ai) {
   if (auto* il = Expression::dynamicCast<IntLit>(ai->e())) {
-    return static_cast<int>(IntLit::v(il).toInt());
+    const long long v = IntLit::v(il).toInt();
+    if (v < std::numeric_limits<int>::min() || v > std::numeric_limits<int>::max()) {
+      throw ConfigException("invalid configuration item (right hand side is out of range)");
+    }
+    return static_cast<int>(v);
   }
   throw ConfigException("invalid configuration item (right hand side must be int)");
 }
-- 
2.43.0


From 40734ce45490911b02c20eb2709a14bd7436c1c9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:50:41 +0000
Subject: [PATCH 24/45] fix: accept the documented option --num-opt-solutions

---
 solvers/fzn/fzn_solverinstance.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/solvers/fzn/fzn_solverinstance.cpp b/solvers/fzn/fzn_solverinstance.cpp
index cc12d6d..193f491 100644
--- a/solvers/fzn/fzn_solverinstance.cpp
+++ b/solvers/fzn/fzn_solverinstance.cpp
@@ -141,7 +141,7 @@ bool FZNSolverFactory::processOption(SolverInstanceBase::Options* opt, int& i,
     _opt.fznFlags.emplace_back("-a");
   } else if (cop.getOption("-i")) {
     _opt.fznFlags.emplace_back("-i");
-  } else if (_opt.supportsNO && cop.getOption("-n-o --num-optimal", &nn)) {
+  } else if (_opt.supportsNO && cop.getOption("-n-o --num-opt-solutions --num-optimal", &nn)) {
     _opt.numOptimal = (nn != 0);
   } else if (_opt.supportsAO && cop.getOption("-a-o --all-opt --all-optimal")) {
     _opt.allOptimal = true;
-- 
2.43.0


From 6d388c93f573213849eb9cd30ef615cd8661a4ec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:30:16 +0000
Subject: [PATCH 25/45] fix: supervise solver subprocesses on every path: check
 pipe, fork and read, reap the child and restore signal handlers on errors

---
 include/minizinc/process.hh | 79 ++++++++++++++++++++++++++++++++-----
 1 file changed, 69 insertions(+), 10 deletions(-)

diff --git a/include/minizinc/process.hh b/include/minizinc/process.hh
index 7776bb0..ae3ba64 100644
--- a/include/minizinc/process.hh
+++ b/include/minizinc/process.hh
@@ -125,6 +125,45 @@ protected:
     }
   }
   static bool hadTerm;
+
+  /// Restores the previous handler of a signal
+  class SignalGuard {
+  public:
+    SignalGuard(int sig, const struct sigaction& old) : _sig(sig), _old(old) {}
+    ~SignalGuard() { sigaction(_sig, &_old, nullptr); }
+    SignalGuard(const SignalGuard&) = delete;
+    SignalGuard& operator=(const SignalGuard&) = delete;
+
+  private:
+    int _sig;
+    struct sigaction _old;
+  };
+
+  /// Kills and reaps a child process and closes its pipes, unless released
+  class ChildGuard {
+  public:
+    ChildGuard(pid_t pid, int out, int err) : _pid(pid), _out(out), _err(err) {}
+    ~ChildGuard() {
+      if (!_released) {
+        if (killpg(_pid, SIGKILL) == -1) {
+          // Fallback to killing the child if killing the process group fails
+          kill(_pid, SIGKILL);
+        }
+        close(_out);
+        close(_err);
+        waitpid(_pid, nullptr, 0);
+      }
+    }
+    ChildGuard(const ChildGuard&) = delete;
+    ChildGuard& operator=(const ChildGuard&) = delete;
+    void release() { _released = true; }
+
+  private:
+    pid_t _pid;
+    int _out;
+    int _err;
+    bool _released = false;
+  };
 #endif
   static bool hadInterrupt;
 
@@ -332,16 +371,35 @@ public:
   }
 #else
     int pipes[3][2];
-    pipe(pipes[0]);
-    pipe(pipes[1]);
-    pipe(pipes[2]);
+    for (int i = 0; i < 3; i++) {
+      if (pipe(pipes[i]) == -1) {
+        const std::string msg = strerror(errno);
+        for (int j = 0; j < i; j++) {
+          close(pipes[j][0]);
+          close(pipes[j][1]);
+        }
+        throw Error("Failed to create pipe for subprocess: " + msg);
+      }
+    }
 
-    if (int childPID = fork()) {
+    int childPID = fork();
+    if (childPID == -1) {
+      const std::string msg = strerror(errno);
+      for (auto& p : pipes) {
+        close(p[0]);
+        close(p[1]);
+      }
+      throw Error("Failed to create subprocess: " + msg);
+    }
+    if (childPID != 0) {
       close(pipes[0][0]);
       close(pipes[1][1]);
       close(pipes[2][1]);
       close(pipes[0][1]);
 
+      // Reaps the child and closes the pipes if an exception is thrown below
+      ChildGuard childGuard(childPID, pipes[1][0], pipes[2][0]);
+
       if (_interactive) {
         // The child shares our terminal stdin and process group, so a terminal
         // Ctrl-C is delivered to it directly. Ignore SIGINT here so the solver
@@ -353,6 +411,7 @@ public:
         sa_ign.sa_flags = 0;
         sigemptyset(&sa_ign.sa_mask);
         sigaction(SIGINT, &sa_ign, &old_sa_int);
+        SignalGuard sigintGuard(SIGINT, old_sa_int);
 
         bool done = false;
         bool watchErr = true;  // stop watching stderr once it closes, to avoid a busy-wait
@@ -368,7 +427,6 @@ public:
             if (errno == EINTR) {
               continue;
             }
-            sigaction(SIGINT, &old_sa_int, nullptr);
             throw Error(std::string("Error in communication with solver: ") + strerror(errno));
           }
           if (FD_ISSET(pipes[1][0], &ifdset)) {
@@ -380,7 +438,6 @@ public:
                 _pS2Out->feedRawDataChunk(buffer);
               } catch (...) {
                 kill(childPID, SIGKILL);
-                sigaction(SIGINT, &old_sa_int, nullptr);
                 throw;
               }
             } else {
@@ -407,7 +464,7 @@ public:
         if (waitpid(childPID, &childStatus, 0) > 0 && WIFEXITED(childStatus)) {
           exitStatus = WEXITSTATUS(childStatus);
         }
-        sigaction(SIGINT, &old_sa_int, nullptr);
+        childGuard.release();
         return exitStatus;
       }
 
@@ -432,6 +489,8 @@ public:
       sigfillset(&sa.sa_mask);
       sigaction(SIGINT, &sa, &old_sa_int);
       sigaction(SIGTERM, &sa, &old_sa_term);
+      SignalGuard sigintGuard(SIGINT, old_sa_int);
+      SignalGuard sigtermGuard(SIGTERM, old_sa_term);
       int signal = _sigint ? SIGINT : SIGTERM;
       bool handledInterrupt = false;
       bool handledTerm = false;
@@ -448,6 +507,7 @@ public:
             // some error has happened
             throw Error(std::string("Error in communication with solver: ") + strerror(errno));
           }
+          FD_ZERO(&fdset);  // NOLINT(readability-isolate-declaration): not set by select
         }
         bool timeoutImmediately = false;
         if (hadInterrupt && !handledInterrupt) {
@@ -519,7 +579,7 @@ public:
         for (int i = 1; i <= 2; ++i) {
           if (FD_ISSET(pipes[i][0], &fdset)) {
             char buffer[1000];
-            size_t count = read(pipes[i][0], buffer, sizeof(buffer) - 1);
+            ssize_t count = read(pipes[i][0], buffer, sizeof(buffer) - 1);
             if (count > 0) {
               buffer[count] = 0;
               if (1 == i) {
@@ -560,8 +620,7 @@ public:
           exitStatus = WEXITSTATUS(childStatus);
         }
       }
-      sigaction(SIGINT, &old_sa_int, nullptr);
-      sigaction(SIGTERM, &old_sa_term, nullptr);
+      childGuard.release();
       if (hadInterrupt) {
         throw SignalRaised(SIGINT);
       }
-- 
2.43.0


From dc1ebcc4d8f0ea625b61a08e036f46bc3e65b1df Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:54:05 +0000
Subject: [PATCH 26/45] fix: do not raise from a destructor when solving ends,
 return the status of a MiniZinc subprocess

---
 lib/solver.cpp | 47 ++++++++++++++++++++++-------------------------
 1 file changed, 22 insertions(+), 25 deletions(-)

diff --git a/lib/solver.cpp b/lib/solver.cpp
index 39115e1..8f62d4d 100644
--- a/lib/solver.cpp
+++ b/lib/solver.cpp
@@ -1046,33 +1046,31 @@ SolverInstance::Status MznSolver::solve() {
     getSI()->processFlatZinc();
   }
 
-  struct Solve {
-    MznSolver& solver;
-    SolverInstance::Status status = SolverInstance::Status::UNKNOWN;
-    Solve(MznSolver& s) : solver(s) {}
-    SolverInstance::Status operator()() {
-      status = solver.getSI()->solve();
-      return status;
+  auto finish = [this](SolverInstance::Status status) {
+    GCLock lock;
+    if (!getSI()->getSolns2Out()->fStatusPrinted) {
+      getSI()->getSolns2Out()->evalStatus(status);
     }
-    ~Solve() {
-      // Put in destructor so that this still happens when interrupted
-      GCLock lock;
-      if (!solver.getSI()->getSolns2Out()->fStatusPrinted) {
-        solver.getSI()->getSolns2Out()->evalStatus(status);
-      }
-      if (solver._siOpt->printStatistics) {
-        solver.getSI()->printStatistics();
-      }
-      if (solver.flagStatistics) {
-        solver.getSI()->getSolns2Out()->printStatistics(solver._os);
-      }
-      // Print any statistics left in the buffer
-      solver.getSI()->getSolns2Out()->flushStatistics(solver._os);
+    if (_siOpt->printStatistics) {
+      getSI()->printStatistics();
     }
+    if (flagStatistics) {
+      getSI()->getSolns2Out()->printStatistics(_os);
+    }
+    // Print any statistics left in the buffer
+    getSI()->getSolns2Out()->flushStatistics(_os);
   };
 
-  Solve s(*this);
-  return s();
+  SolverInstance::Status status = SolverInstance::Status::UNKNOWN;
+  try {
+    status = getSI()->solve();
+  } catch (...) {
+    // This should still happen when interrupted
+    finish(status);
+    throw;
+  }
+  finish(status);
+  return status;
 }
 
 SolverInstance::Status MznSolver::run(const std::vector<std::string>& args0,
@@ -1124,8 +1122,7 @@ SolverInstance::Status MznSolver::run(const std::vector<std::string>& args0,
       _si->options()->verbose = getFlagVerbose();
       _si->options()->printStatistics = getFlagStatistics();
     }
-    _si->solve();
-    return SolverInstance::NONE;
+    return _si->solve();
   }
 
   try {
-- 
2.43.0


From 62d73f7099cfacf882e5a8d21c001e21afba6ec8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:54:05 +0000
Subject: [PATCH 27/45] fix: statistics stream destructor must not raise

---
 lib/statistics.cpp | 15 ++++++++++-----
 1 file changed, 10 insertions(+), 5 deletions(-)

diff --git a/lib/statistics.cpp b/lib/statistics.cpp
index dec9821..9499b58 100644
--- a/lib/statistics.cpp
+++ b/lib/statistics.cpp
@@ -34,12 +34,17 @@ StatisticsStream::~StatisticsStream() {
     _os << "%%%mzn-stat-end\n";
   }
   if (!_warnings.empty()) {
-    for (auto& w : _warnings) {
-      if (_json) {
-        w->json(_os, false);
-      } else {
-        w->print(_os, false);
+    try {
+      for (auto& w : _warnings) {
+        if (_json) {
+          w->json(_os, false);
+        } else {
+          w->print(_os, false);
+        }
       }
+    } catch (const std::exception& e) {
+      // Must not leave the destructor
+      std::cerr << e.what() << std::endl;
     }
   }
   _os.copyfmt(_ios);
-- 
2.43.0


From 3dbc4559e8ea59c401cd66d2d67ec0de00bb728a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:54:06 +0000
Subject: [PATCH 28/45] fix: raise errors instead of ending the process in
 library code

---
 lib/flattener.cpp | 2 +-
 lib/solns2out.cpp | 3 +--
 2 files changed, 2 insertions(+), 3 deletions(-)

diff --git a/lib/flattener.cpp b/lib/flattener.cpp
index ec8e13f..a147451 100644
--- a/lib/flattener.cpp
+++ b/lib/flattener.cpp
@@ -855,7 +855,7 @@ void Flattener::flatten(const std::string& modelString, const std::string& model
 
           Env* out_env = multiPassFlatten(managed_passes);
           if (out_env == nullptr) {
-            exit(EXIT_FAILURE);
+            throw Error("Failed to compile the model with the library of another solver.");
           }
 
           if (out_env != env) {
diff --git a/lib/solns2out.cpp b/lib/solns2out.cpp
index 294ca5f..ba0d548 100644
--- a/lib/solns2out.cpp
+++ b/lib/solns2out.cpp
@@ -148,8 +148,7 @@ void Solns2Out::initFromOzn(const std::string& filename) {
 
   for (auto& includePath : _includePaths) {
     if (!FileUtils::directory_exists(includePath)) {
-      std::cerr << "solns2out: cannot access include directory " << includePath << "\n";
-      std::exit(EXIT_FAILURE);
+      throw Error("solns2out: cannot access include directory " + includePath);
     }
   }
 
-- 
2.43.0


From c4f96e19bcdb5e63b8a161591ceb3b0c12d3e4ba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:54:06 +0000
Subject: [PATCH 29/45] fix: raise proper errors for corrupt compressed data,
 unreadable files, unsupported MIP calls and CBC errors

---
 include/minizinc/solvers/MIP/MIP_wrap.hh | 12 +++++++++---
 lib/file_utils.cpp                       | 23 +++++++++++++----------
 lib/parser.cpp                           |  2 +-
 lib/solver_instance_base.cpp             |  2 +-
 solvers/MIP/MIP_osicbc_wrap.cpp          |  3 ++-
 5 files changed, 26 insertions(+), 16 deletions(-)

diff --git a/include/minizinc/solvers/MIP/MIP_wrap.hh b/include/minizinc/solvers/MIP/MIP_wrap.hh
index f704b82..6eaf9fe 100644
--- a/include/minizinc/solvers/MIP/MIP_wrap.hh
+++ b/include/minizinc/solvers/MIP/MIP_wrap.hh
@@ -252,9 +252,15 @@ public:
   }
 
   /// var bounds
-  virtual void setVarBounds(int iVar, double lb, double ub) { throw 0; }
-  virtual void setVarLB(int iVar, double lb) { throw 0; }
-  virtual void setVarUB(int iVar, double ub) { throw 0; }
+  virtual void setVarBounds(int iVar, double lb, double ub) {
+    throw std::runtime_error("MIPWrapper: changing variable bounds is not supported");
+  }
+  virtual void setVarLB(int iVar, double lb) {
+    throw std::runtime_error("MIPWrapper: changing variable bounds is not supported");
+  }
+  virtual void setVarUB(int iVar, double ub) {
+    throw std::runtime_error("MIPWrapper: changing variable bounds is not supported");
+  }
   /// adding a linear constraint
   virtual void addRow(int nnz, int* rmatind, double* rmatval, LinConType sense, double rhs,
                       int mask = MaskConsType_Normal, const std::string& rowName = "") = 0;
diff --git a/lib/file_utils.cpp b/lib/file_utils.cpp
index 7cf9e67..e0280a6 100644
--- a/lib/file_utils.cpp
+++ b/lib/file_utils.cpp
@@ -729,40 +729,43 @@ void inflate_string(std::string& s) {
     size_t dataLen;
     if (cc[0] == 0x1F && cc[1] == 0x8B) {
       windowBits = -Z_DEFAULT_WINDOW_BITS;
+      if (s.size() < 10) {
+        throw Error("Corrupt compressed data");
+      }
       if ((cc[3] & 0x4) != 0) {
         dataStart += 2;
         if (dataStart >= cc + s.size()) {
-          throw -1;
+          throw Error("Corrupt compressed data");
         }
       }
       if ((cc[3] & 0x8) != 0) {
         while (*dataStart != '\0') {
           dataStart++;
           if (dataStart >= cc + s.size()) {
-            throw -1;
+            throw Error("Corrupt compressed data");
           }
         }
         dataStart++;
         if (dataStart >= cc + s.size()) {
-          throw -1;
+          throw Error("Corrupt compressed data");
         }
       }
       if ((cc[3] & 0x10) != 0) {
         while (*dataStart != '\0') {
           dataStart++;
           if (dataStart >= cc + s.size()) {
-            throw -1;
+            throw Error("Corrupt compressed data");
           }
         }
         dataStart++;
         if (dataStart >= cc + s.size()) {
-          throw -1;
+          throw Error("Corrupt compressed data");
         }
       }
       if ((cc[3] & 0x2) != 0) {
         dataStart += 2;
         if (dataStart >= cc + s.size()) {
-          throw -1;
+          throw Error("Corrupt compressed data");
         }
       }
       dataLen = s.size() - (dataStart - cc);
@@ -777,7 +780,7 @@ void inflate_string(std::string& s) {
     stream.avail_out = BUF_SIZE;
     int status = inflateInit2(&stream, windowBits);
     if (status != Z_OK) {
-      throw status;
+      throw Error("Corrupt compressed data");
     }
     std::ostringstream oss;
     while (true) {
@@ -792,12 +795,12 @@ void inflate_string(std::string& s) {
         break;
       }
       if (status != Z_OK) {
-        throw status;
+        throw Error("Corrupt compressed data");
       }
     }
     status = inflateEnd(&stream);
     if (status != Z_OK) {
-      throw status;
+      throw Error("Corrupt compressed data");
     }
     s = oss.str();
   }
@@ -810,7 +813,7 @@ std::string deflate_string(const std::string& s) {
                         static_cast<mz_ulong>(s.size()));
   if (status != Z_OK) {
     ::free(cmpr);
-    throw status;
+    throw Error("Failed to compress data");
   }
   std::string ret(reinterpret_cast<const char*>(cmpr), compressedLength);
   ::free(cmpr);
diff --git a/lib/parser.cpp b/lib/parser.cpp
index dbf8b44..c275e9c 100644
--- a/lib/parser.cpp
+++ b/lib/parser.cpp
@@ -50,7 +50,7 @@ std::string get_file_contents(std::ifstream& in) {
     }
     return contents;
   }
-  throw errno;
+  throw MiniZinc::Error("Failed to read file");
 }
 }  // namespace
 
diff --git a/lib/solver_instance_base.cpp b/lib/solver_instance_base.cpp
index baa65c2..14bb04a 100644
--- a/lib/solver_instance_base.cpp
+++ b/lib/solver_instance_base.cpp
@@ -146,7 +146,7 @@ void SolverInstanceBase2<AsgArray>::assignSolutionToOutput() {
         } else if (Id* id = Expression::dynamicCast<Id>(e)) {
           dims = Expression::cast<ArrayLit>(id->decl()->e());
         } else {
-          throw -1;
+          throw Error("Invalid output_array annotation");
         }
         std::vector<std::pair<int, int> > dims_v;
         for (unsigned int i = 0; i < dims->length(); i++) {
diff --git a/solvers/MIP/MIP_osicbc_wrap.cpp b/solvers/MIP/MIP_osicbc_wrap.cpp
index 4771bb2..f819bc1 100644
--- a/solvers/MIP/MIP_osicbc_wrap.cpp
+++ b/solvers/MIP/MIP_osicbc_wrap.cpp
@@ -1009,7 +1009,8 @@ void MIPosicbcWrapper::solve() {  // Move into ancestor?
     output.nOpenNodes = -1;
 
   } catch (CoinError& err) {
-    err.print(true);
+    throw std::runtime_error("MIPosicbcWrapper: " + err.className() + "::" + err.methodName() +
+                             ": " + err.message());
   }
 }
 
-- 
2.43.0


From 02d5cbbbdd0beb48096d13b6b9a8a21894075e37 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:56:16 +0000
Subject: [PATCH 30/45] fix: remove the rest of a temporary directory when it
 has subdirectories

---
 lib/file_utils.cpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/lib/file_utils.cpp b/lib/file_utils.cpp
index e0280a6..de735f3 100644
--- a/lib/file_utils.cpp
+++ b/lib/file_utils.cpp
@@ -564,7 +564,9 @@ void remove_dir(const std::string& d) {
 #else
 namespace {
 int remove_file(const char* fpath, const struct stat* /*s*/, int /*i*/, struct FTW* /*ftw*/) {
-  return unlink(fpath);
+  // Directories are visited after their contents; carry on with the others if one cannot be removed
+  remove(fpath);
+  return 0;
 }
 }  // namespace
 #endif
-- 
2.43.0


From ac1ab41e5ceec1edb2bd48ba0f563e018292dd60 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:56:16 +0000
Subject: [PATCH 31/45] fix: notice failures to write or read files completely

---
 lib/flattener.cpp                  |  8 +++++---
 lib/parser.cpp                     | 11 +++++++++--
 mzn2doc.cpp                        |  5 +++++
 solvers/fzn/fzn_solverinstance.cpp | 12 ++++++++++++
 solvers/nl/nl_solverinstance.cpp   |  5 ++++-
 5 files changed, 35 insertions(+), 6 deletions(-)

diff --git a/lib/flattener.cpp b/lib/flattener.cpp
index a147451..e04de45 100644
--- a/lib/flattener.cpp
+++ b/lib/flattener.cpp
@@ -777,8 +777,10 @@ void Flattener::flatten(const std::string& modelString, const std::string& model
             _log << "Write solution checker to " << mzc_filename << "\n";
           }
           std::ofstream mzc_f(FILE_PATH(mzc_filename));
+          check_io_status(mzc_f.good(), " I/O error: cannot open mzc output file. ");
           mzc_f << mzc;
           mzc_f.close();
+          check_io_status(mzc_f.good(), " I/O error: cannot write mzc output file. ");
         }
         status = SolverInstance::NONE;
         // Not flattening so have to print warnings ourselves
@@ -998,8 +1000,8 @@ void Flattener::flatten(const std::string& modelString, const std::string& model
           check_io_status(ofs.good(), " I/O error: cannot open fzn output file. ");
           PathFilePrinter pfp(ofs, env->envi());
           pfp.print(env->flat());
-          check_io_status(ofs.good(), " I/O error: cannot write fzn output file. ");
           ofs.close();
+          check_io_status(ofs.good(), " I/O error: cannot write fzn output file. ");
           if (_flags.verbose) {
             _log << " done (" << _starttime.stoptime() << ")" << std::endl;
           }
@@ -1067,8 +1069,8 @@ void Flattener::flatten(const std::string& modelString, const std::string& model
               p.print(env->flat());
             } break;
           }
-          check_io_status(ofs.good(), " I/O error: cannot write fzn output file. ");
           ofs.close();
+          check_io_status(ofs.good(), " I/O error: cannot write fzn output file. ");
           if (_flags.verbose) {
             _log << " done (" << _starttime.stoptime() << ")" << std::endl;
           }
@@ -1103,8 +1105,8 @@ void Flattener::flatten(const std::string& modelString, const std::string& model
             }
             type_demonomorphise_library(*env, ozn.get());
             p.print(ozn.get());
-            check_io_status(ofs.good(), " I/O error: cannot write ozn output file. ");
             ofs.close();
+            check_io_status(ofs.good(), " I/O error: cannot write ozn output file. ");
             if (_flags.verbose) {
               _log << " done (" << _starttime.stoptime() << ")" << std::endl;
             }
diff --git a/lib/parser.cpp b/lib/parser.cpp
index c275e9c..fc59e9d 100644
--- a/lib/parser.cpp
+++ b/lib/parser.cpp
@@ -39,10 +39,17 @@ std::string get_file_contents(std::ifstream& in) {
   if (in) {
     std::string contents;
     in.seekg(0, std::ios::end);
-    contents.resize(static_cast<unsigned int>(in.tellg()));
+    const std::streamoff size = in.tellg();
+    if (size < 0) {
+      throw MiniZinc::Error("Failed to read file");
+    }
+    contents.resize(static_cast<size_t>(size));
     in.seekg(0, std::ios::beg);
     // Warning assume editability of the string underlying storage
-    in.read(const_cast<char*>(contents.data()), static_cast<long>(contents.size()));
+    in.read(const_cast<char*>(contents.data()), static_cast<std::streamsize>(contents.size()));
+    if (!in) {
+      throw MiniZinc::Error("Failed to read file");
+    }
     in.close();
     if (!contents.empty() && contents[0] == '@') {
       contents = MiniZinc::FileUtils::decode_base64(contents);
diff --git a/mzn2doc.cpp b/mzn2doc.cpp
index 42a03cb..adbd522 100644
--- a/mzn2doc.cpp
+++ b/mzn2doc.cpp
@@ -274,6 +274,11 @@ int main(int argc, char** argv) {
             os << doc.document();
             os << footer;
             os.close();
+            if (!os.good()) {
+              std::cerr << "Error: cannot write file '" << basedir << doc.filename()
+                        << (flag_rst ? ".rst" : ".html") << "'." << std::endl;
+              exit(EXIT_FAILURE);
+            }
           }
         } catch (LocationException& e) {
           if (flag_verbose) {
diff --git a/solvers/fzn/fzn_solverinstance.cpp b/solvers/fzn/fzn_solverinstance.cpp
index 193f491..d88dc00 100644
--- a/solvers/fzn/fzn_solverinstance.cpp
+++ b/solvers/fzn/fzn_solverinstance.cpp
@@ -329,6 +329,10 @@ SolverInstance::Status FZNSolverInstance::solve() {
         }
       }
       p.print(_fzn->solveItem());
+      os.close();
+      if (!os.good()) {
+        throw Error("cannot write FlatZinc file '" + fznFile->name() + "'");
+      }
     }
   } else {
     assert(opt.fznFormat == FZNSolverOptions::FF_JSON);
@@ -336,6 +340,10 @@ SolverInstance::Status FZNSolverInstance::solve() {
     std::ofstream os(FILE_PATH(fznFile->name()));
     FznJSONPrinter p(os, _env.envi());
     p.print(_fzn);
+    os.close();
+    if (!os.good()) {
+      throw Error("cannot write FlatZinc file '" + fznFile->name() + "'");
+    }
   }
   cmd_line.push_back(fznFile->name());
 
@@ -345,6 +353,10 @@ SolverInstance::Status FZNSolverInstance::solve() {
     std::ofstream ofs(FILE_PATH(pathsFile->name()));
     PathFilePrinter pfp(ofs, _env.envi());
     pfp.print(_fzn);
+    ofs.close();
+    if (!ofs.good()) {
+      throw Error("cannot write paths file '" + pathsFile->name() + "'");
+    }
 
     cmd_line.emplace_back("--paths");
     cmd_line.push_back(pathsFile->name());
diff --git a/solvers/nl/nl_solverinstance.cpp b/solvers/nl/nl_solverinstance.cpp
index 33a27cb..28f21be 100644
--- a/solvers/nl/nl_solverinstance.cpp
+++ b/solvers/nl/nl_solverinstance.cpp
@@ -194,13 +194,16 @@ SolverInstance::Status NLSolverInstance::solve() {
     _nlFile.phase2();
     // Print to the files
     _nlFile.printToStream(outfile);
+    outfile.close();
+    if (!outfile.good()) {
+      throw Error("cannot write NL file '" + file_nl + "'");
+    }
 
     // --- --- --- Call the solver
     NLSolns2Out s2o = NLSolns2Out(out, _nlFile, opt.verbose);
     vector<string> cmd_line;
 
     if (opt.nlSolver.empty()) {
-      outfile.close();
       throw Error("No NL solver specified");
     }
 
-- 
2.43.0


From 17a867d5d2868ec5cf4863d2dd55eb6a693ef7ef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:02:20 +0000
Subject: [PATCH 32/45] fix: initialise members that may be read before they
 are set

---
 include/minizinc/ast.hpp       | 8 +++++++-
 include/minizinc/flatten.hh    | 1 +
 include/minizinc/statistics.hh | 2 +-
 lib/ast.cpp                    | 1 +
 lib/astexception.cpp           | 2 +-
 5 files changed, 11 insertions(+), 3 deletions(-)

diff --git a/include/minizinc/ast.hpp b/include/minizinc/ast.hpp
index 6787d5d..917b9b5 100644
--- a/include/minizinc/ast.hpp
+++ b/include/minizinc/ast.hpp
@@ -585,6 +585,7 @@ inline VarDecl::VarDecl(const Location& loc, TypeInst* ti, const ASTString& id,
       _flat(nullptr) {
   _id = new Id(loc, id, this);
   _flag1 = false;
+  _flag2 = false;
   _secondaryId = 1;
   _ti = ti;
   _e = e;
@@ -599,6 +600,7 @@ inline VarDecl::VarDecl(const Location& loc, TypeInst* ti, long long int idn, Ex
       _flat(nullptr) {
   _id = new Id(loc, idn, this);
   _flag1 = false;
+  _flag2 = false;
   _secondaryId = 1;
   _ti = ti;
   _e = e;
@@ -613,6 +615,7 @@ inline VarDecl::VarDecl(const Location& loc, TypeInst* ti, const std::string& id
       _flat(nullptr) {
   _id = new Id(loc, ASTString(id), this);
   _flag1 = false;
+  _flag2 = false;
   _secondaryId = 1;
   _ti = ti;
   _e = e;
@@ -632,6 +635,7 @@ inline VarDecl::VarDecl(const Location& loc, TypeInst* ti, Id* id, Expression* e
     _id = new Id(Expression::loc(id), id->idn(), this);
   }
   _flag1 = false;
+  _flag2 = false;
   _secondaryId = 1;
   _ti = ti;
   _e = e;
@@ -707,7 +711,9 @@ inline AssignI::AssignI(const Location& loc, const std::string& id, Expression*
 inline AssignI::AssignI(const Location& loc, const ASTString& id, Expression* e)
     : Item(loc, II_ASN), _id(id), _e(e), _decl(nullptr) {}
 
-inline ConstraintI::ConstraintI(const Location& loc, Expression* e) : Item(loc, II_CON), _e(e) {}
+inline ConstraintI::ConstraintI(const Location& loc, Expression* e) : Item(loc, II_CON), _e(e) {
+  _flag2 = false;
+}
 
 inline SolveI::SolveI(const Location& loc, Expression* e) : Item(loc, II_SOL), _e(e) {}
 inline SolveI* SolveI::sat(const Location& loc) {
diff --git a/include/minizinc/flatten.hh b/include/minizinc/flatten.hh
index fe24b3a..14a1bce 100644
--- a/include/minizinc/flatten.hh
+++ b/include/minizinc/flatten.hh
@@ -79,6 +79,7 @@ struct FlatteningOptions {
         outputMode(OUTPUT_ITEM),
         outputObjective(false),
         outputOutputItem(false),
+        hasChecker(false),
         detailedTiming(false),
         debug(false),
         supressWarnings(false),
diff --git a/include/minizinc/statistics.hh b/include/minizinc/statistics.hh
index 5b296cf..72e7d20 100644
--- a/include/minizinc/statistics.hh
+++ b/include/minizinc/statistics.hh
@@ -73,7 +73,7 @@ protected:
   double _objective;
 
 public:
-  Statistics() : _time(0), _nodes(0), _failures(0) {}
+  Statistics() : _time(0), _nodes(0), _failures(0), _objective(0) {}
 
   virtual void print(std::ostream& os);
 
diff --git a/lib/ast.cpp b/lib/ast.cpp
index b2bd0ce..2194d01 100644
--- a/lib/ast.cpp
+++ b/lib/ast.cpp
@@ -487,6 +487,7 @@ ArrayLit::ArrayLit(const Location& loc, ArrayLit* v, const std::vector<std::pair
     d[sliceOffset + i * 2 + 1] = slice[i].second;
   }
   _dims = ASTIntVec(d);
+  rehash();
 }
 
 void ArrayLit::compress(const std::vector<Expression*>& v, const std::vector<int>& dims) {
diff --git a/lib/astexception.cpp b/lib/astexception.cpp
index d0bc988..6532c5e 100644
--- a/lib/astexception.cpp
+++ b/lib/astexception.cpp
@@ -93,7 +93,7 @@ void LocationException::json(std::ostream& os) const {
 }
 
 ResultUndefinedError::ResultUndefinedError(EnvI& env, const Location& loc, const std::string& msg)
-    : LocationException(env, loc, msg) {
+    : LocationException(env, loc, msg), _warningIdx(-1) {
   if (env.inMaybePartial == 0) {
     std::string warning = "undefined result becomes false in Boolean context";
     if (!msg.empty()) {
-- 
2.43.0


From 5bc61d1a842cc0f1bd09a3af1fc5c61e0b9b9cc9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:05:44 +0000
Subject: [PATCH 33/45] fix: release the collector lock when flattening an
 operator leaves by an exception

---
 lib/flatten.cpp               | 74 +++++++++++++++++++----------------
 lib/flatten/flatten_binop.cpp | 39 +++++++++---------
 lib/flatten/flatten_unop.cpp  | 38 ++++++++++--------
 3 files changed, 81 insertions(+), 70 deletions(-)

diff --git a/lib/flatten.cpp b/lib/flatten.cpp
index 98f7871..cbfd00c 100644
--- a/lib/flatten.cpp
+++ b/lib/flatten.cpp
@@ -3666,17 +3666,19 @@ KeepAlive conj(EnvI& env, VarDecl* b, const Ctx& ctx, const std::vector<EE>& e)
       }
       return env.constants.literalTrue;
     }
-    GC::lock();
-    std::vector<Expression*> args;
-    auto* al = new ArrayLit(Location().introduce(), nontrue);
-    al->type(Type::varbool(1));
-    args.push_back(al);
-    Call* ret = Call::a(Expression::loc(nontrue[0]).introduce(), env.constants.ids.forall, args);
-    ret->decl(env.model->matchFn(env, ret, false));
-    ret->type(ret->decl()->rtype(env, args, nullptr, false));
-    KeepAlive ka(ret);
-    GC::unlock();
-    return flat_exp(env, ctx, ret, b, env.constants.varTrue).r;
+    KeepAlive ka;
+    {
+      GCLock lock;
+      std::vector<Expression*> args;
+      auto* al = new ArrayLit(Location().introduce(), nontrue);
+      al->type(Type::varbool(1));
+      args.push_back(al);
+      Call* ret = Call::a(Expression::loc(nontrue[0]).introduce(), env.constants.ids.forall, args);
+      ret->decl(env.model->matchFn(env, ret, false));
+      ret->type(ret->decl()->rtype(env, args, nullptr, false));
+      ka = ret;
+    }
+    return flat_exp(env, ctx, ka(), b, env.constants.varTrue).r;
   }
   Ctx nctx = ctx;
   nctx.neg = false;
@@ -3696,12 +3698,14 @@ KeepAlive conj(EnvI& env, VarDecl* b, const Ctx& ctx, const std::vector<EE>& e)
     return bind(env, Ctx(), b, env.constants.literalFalse);
   }
   if (nonfalse.size() == 1) {
-    GC::lock();
-    UnOp* uo = new UnOp(Expression::loc(nonfalse[0]), UOT_NOT, nonfalse[0]);
-    uo->type(Type::varbool());
-    KeepAlive ka(uo);
-    GC::unlock();
-    return flat_exp(env, nctx, uo, b, env.constants.varTrue).r;
+    KeepAlive ka;
+    {
+      GCLock lock;
+      UnOp* uo = new UnOp(Expression::loc(nonfalse[0]), UOT_NOT, nonfalse[0]);
+      uo->type(Type::varbool());
+      ka = uo;
+    }
+    return flat_exp(env, nctx, ka(), b, env.constants.varTrue).r;
   }
   if (b == env.constants.varFalse) {
     for (auto& i : nonfalse) {
@@ -3709,23 +3713,25 @@ KeepAlive conj(EnvI& env, VarDecl* b, const Ctx& ctx, const std::vector<EE>& e)
     }
     return env.constants.literalFalse;
   }
-  GC::lock();
-  std::vector<Expression*> args;
-  for (auto& i : nonfalse) {
-    UnOp* uo = new UnOp(Expression::loc(i), UOT_NOT, i);
-    uo->type(Type::varbool());
-    i = uo;
-  }
-  auto* al = new ArrayLit(Location().introduce(), nonfalse);
-  al->type(Type::varbool(1));
-  args.push_back(al);
-  Call* ret = Call::a(Location().introduce(), env.constants.ids.exists, args);
-  ret->decl(env.model->matchFn(env, ret, false));
-  ret->type(ret->decl()->rtype(env, args, nullptr, false));
-  assert(ret->decl());
-  KeepAlive ka(ret);
-  GC::unlock();
-  return flat_exp(env, nctx, ret, b, env.constants.varTrue).r;
+  KeepAlive ka;
+  {
+    GCLock lock;
+    std::vector<Expression*> args;
+    for (auto& i : nonfalse) {
+      UnOp* uo = new UnOp(Expression::loc(i), UOT_NOT, i);
+      uo->type(Type::varbool());
+      i = uo;
+    }
+    auto* al = new ArrayLit(Location().introduce(), nonfalse);
+    al->type(Type::varbool(1));
+    args.push_back(al);
+    Call* ret = Call::a(Location().introduce(), env.constants.ids.exists, args);
+    ret->decl(env.model->matchFn(env, ret, false));
+    ret->type(ret->decl()->rtype(env, args, nullptr, false));
+    assert(ret->decl());
+    ka = ret;
+  }
+  return flat_exp(env, nctx, ka(), b, env.constants.varTrue).r;
 }
 
 Expression* eval_typeinst_domain(EnvI& env, const Ctx& ctx, Expression* dom) {
diff --git a/lib/flatten/flatten_binop.cpp b/lib/flatten/flatten_binop.cpp
index 8e0593c..1a8fa04 100644
--- a/lib/flatten/flatten_binop.cpp
+++ b/lib/flatten/flatten_binop.cpp
@@ -970,7 +970,7 @@ EE flatten_nonbool_op(EnvI& env, const Ctx& ctx, const Ctx& ctx0, const Ctx& ctx
     ret.b = bind(env, Ctx(), b, env.constants.literalFalse);
   }
 
-  GC::lock();
+  std::unique_ptr<GCLock> lock(new GCLock());
   std::vector<Expression*> args = {ees[0].r(), ees[1].r()};
   Call* cc;
   if (!isBuiltin) {
@@ -989,9 +989,9 @@ EE flatten_nonbool_op(EnvI& env, const Ctx& ctx, const Ctx& ctx0, const Ctx& ctx
       cc->decl(fi);
       cc->type(cc->decl()->rtype(env, args, nullptr, false));
       KeepAlive ka(cc);
-      GC::unlock();
+      lock.reset();
       ees.emplace_back(flat_exp(env, ctx, cc, r, ctx.partialityVar(env)));
-      GC::lock();
+      lock.reset(new GCLock());
       ret.r = ees.back().r;
       ret.b = conj(env, b, Ctx(), ees);
     } else {
@@ -1003,7 +1003,6 @@ EE flatten_nonbool_op(EnvI& env, const Ctx& ctx, const Ctx& ctx0, const Ctx& ctx
       }
     }
   }
-  GC::unlock();
   return ret;
 }
 
@@ -1614,7 +1613,7 @@ EE flatten_bool_op(EnvI& env, Ctx& ctx, const Ctx& ctx0, const Ctx& ctx1, Expres
   }
 
   if (!args.empty()) {
-    GC::lock();
+    std::unique_ptr<GCLock> lock(new GCLock());
 
     bool idIsOp = false;
     if (callid.empty()) {
@@ -1674,7 +1673,7 @@ EE flatten_bool_op(EnvI& env, Ctx& ctx, const Ctx& ctx0, const Ctx& ctx1, Expres
         env.addCtxAnn(id->decl(), ctx.b);
       }
       ret.r = conj(env, r, ctx, ees);
-      GC::unlock();
+      lock.reset();
     } else {
       bool singleExp = true;
       for (auto& ee : ees) {
@@ -1684,7 +1683,7 @@ EE flatten_bool_op(EnvI& env, Ctx& ctx, const Ctx& ctx0, const Ctx& ctx1, Expres
         }
       }
       KeepAlive ka(cc);
-      GC::unlock();
+      lock.reset();
       Ctx ccCtx = ctx;
       if (doubleNeg) {
         ccCtx.b = -ctx.b;
@@ -1872,11 +1871,12 @@ EE flatten_binop(EnvI& env, const Ctx& input_ctx, Expression* e, VarDecl* r, Var
           ret.r = bind(env, ctx, r, env.constants.literalTrue);
           break;
         }
-        GC::lock();
-        Call* c = aggregate_and_or_ops(env, bo, negArgs, bot);
-        KeepAlive ka(c);
-        GC::unlock();
-        ret = flat_exp(env, ctx, c, r, b);
+        KeepAlive ka;
+        {
+          GCLock lock;
+          ka = aggregate_and_or_ops(env, bo, negArgs, bot);
+        }
+        ret = flat_exp(env, ctx, ka(), r, b);
         if (Id* id = Expression::dynamicCast<Id>(ret.r())) {
           env.addCtxAnn(id->decl(), ctx.b);
         }
@@ -1884,11 +1884,12 @@ EE flatten_binop(EnvI& env, const Ctx& input_ctx, Expression* e, VarDecl* r, Var
       }
     case BOT_OR:
       if (isBuiltin) {
-        GC::lock();
-        Call* c = aggregate_and_or_ops(env, bo, negArgs, bot);
-        KeepAlive ka(c);
-        GC::unlock();
-        ret = flat_exp(env, ctx, c, r, b);
+        KeepAlive ka;
+        {
+          GCLock lock;
+          ka = aggregate_and_or_ops(env, bo, negArgs, bot);
+        }
+        ret = flat_exp(env, ctx, ka(), r, b);
         if (Id* id = Expression::dynamicCast<Id>(ret.r())) {
           env.addCtxAnn(id->decl(), ctx.b);
         }
@@ -2028,7 +2029,7 @@ EE flatten_binop(EnvI& env, const Ctx& input_ctx, Expression* e, VarDecl* r, Var
         ret = flat_exp(env, nctx, boe0, env.constants.varTrue, env.constants.varTrue);
         break;
       }
-      GC::lock();
+      std::unique_ptr<GCLock> lock(new GCLock());
       std::vector<Expression*> args;
       ASTString id;
       if (ctx.neg) {
@@ -2063,7 +2064,7 @@ EE flatten_binop(EnvI& env, const Ctx& input_ctx, Expression* e, VarDecl* r, Var
       }
       c->type(c->decl()->rtype(env, args, nullptr, false));
       KeepAlive ka(c);
-      GC::unlock();
+      lock.reset();
       ret = flat_exp(env, ctx, c, r, b);
       if (Id* id = Expression::dynamicCast<Id>(ret.r())) {
         env.addCtxAnn(id->decl(), ctx.b);
diff --git a/lib/flatten/flatten_unop.cpp b/lib/flatten/flatten_unop.cpp
index 7455da4..4408881 100644
--- a/lib/flatten/flatten_unop.cpp
+++ b/lib/flatten/flatten_unop.cpp
@@ -30,34 +30,38 @@ EE flatten_unop(EnvI& env, const Ctx& ctx, Expression* e, VarDecl* r, VarDecl* b
       case UOT_PLUS:
         return flat_exp(env, ctx, uo->e(), r, b);
       case UOT_MINUS: {
-        GC::lock();
         if (UnOp* uo_inner = Expression::dynamicCast<UnOp>(uo->e())) {
           if (uo_inner->op() == UOT_MINUS) {
             return flat_exp(env, ctx, uo_inner->e(), r, b);
           }
         }
-        Expression* zero;
-        if (Expression::type(uo->e()).bt() == Type::BT_INT) {
-          zero = IntLit::a(0);
-        } else {
-          zero = FloatLit::a(0.0);
+        KeepAlive ka;
+        {
+          GCLock lock;
+          Expression* zero;
+          if (Expression::type(uo->e()).bt() == Type::BT_INT) {
+            zero = IntLit::a(0);
+          } else {
+            zero = FloatLit::a(0.0);
+          }
+          auto* bo = new BinOp(Location().introduce(), zero, BOT_MINUS, uo->e());
+          bo->type(uo->type());
+          ka = bo;
         }
-        auto* bo = new BinOp(Location().introduce(), zero, BOT_MINUS, uo->e());
-        bo->type(uo->type());
-        KeepAlive ka(bo);
-        GC::unlock();
         return flat_exp(env, ctx, ka(), r, b);
       }
       default:
         throw InternalError("unhandled unary operator");
     }
   }  // else (!isBuiltin)
-  GC::lock();
-  Call* c = Call::a(Expression::loc(uo).introduce(), uo->opToString(), {uo->e()});
-  c->decl(env.model->matchFn(env, c, false));
-  c->type(uo->type());
-  KeepAlive ka(c);
-  GC::unlock();
-  return flat_exp(env, ctx, c, r, b);
+  KeepAlive ka;
+  {
+    GCLock lock;
+    Call* c = Call::a(Expression::loc(uo).introduce(), uo->opToString(), {uo->e()});
+    c->decl(env.model->matchFn(env, c, false));
+    c->type(uo->type());
+    ka = c;
+  }
+  return flat_exp(env, ctx, ka(), r, b);
 }
 }  // namespace MiniZinc
-- 
2.43.0


From fda63bc4b2b72fa12a7972dede53e3ac741f1ca6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:05:44 +0000
Subject: [PATCH 34/45] fix: restore generator bindings, counters and flat
 values when evaluation leaves by an exception

---
 include/minizinc/eval_par.hh         | 23 +++++++++--
 include/minizinc/flatten_internal.hh | 26 ++++++++++++
 lib/builtins.cpp                     | 14 +++----
 lib/eval_par.cpp                     |  7 +---
 lib/flatten/flatten_call.cpp         | 60 ++++++++++++++++++----------
 lib/flatten/flatten_let.cpp          | 29 ++++++++++----
 6 files changed, 113 insertions(+), 46 deletions(-)

diff --git a/include/minizinc/eval_par.hh b/include/minizinc/eval_par.hh
index dd0fd96..7fa0625 100644
--- a/include/minizinc/eval_par.hh
+++ b/include/minizinc/eval_par.hh
@@ -176,11 +176,28 @@ template <class Eval, bool isIndexed>
 void eval_comp_set(EnvI& env, Eval& eval, Comprehension* e, int gen, int id, KeepAlive in,
                    EvaluatedCompTmp<typename Eval::ArrayVal>& a);
 
+/// Restores the binding of a generator variable, also if the evaluation is left by an exception
+class GeneratorBinding {
+private:
+  VarDecl* _decl;
+
+public:
+  GeneratorBinding(VarDecl* decl) : _decl(decl) {
+    GC::mark();
+    _decl->trail();
+  }
+  ~GeneratorBinding() {
+    GC::untrail();
+    _decl->flat(nullptr);
+  }
+  GeneratorBinding(const GeneratorBinding&) = delete;
+  GeneratorBinding& operator=(const GeneratorBinding&) = delete;
+};
+
 template <class Eval, bool isSet, bool isIndexed>
 void eval_comp_array(EnvI& env, Eval& eval, Comprehension* e, int gen, int id, IntVal i,
                      KeepAlive in, EvaluatedCompTmp<typename Eval::ArrayVal>& a) {
-  GC::mark();
-  e->decl(gen, id)->trail();
+  GeneratorBinding binding(e->decl(gen, id));
   CallStackItem csi(env, e->decl(gen, id)->id(), i);
   if (isSet) {
     GCLock lock;
@@ -254,8 +271,6 @@ void eval_comp_array(EnvI& env, Eval& eval, Comprehension* e, int gen, int id, I
       eval_comp_array<Eval, isIndexed>(env, eval, e, gen, id + 1, in, a);
     }
   }
-  GC::untrail();
-  e->decl(gen, id)->flat(nullptr);
 }
 
 /**
diff --git a/include/minizinc/flatten_internal.hh b/include/minizinc/flatten_internal.hh
index 45cbdc8..233c980 100644
--- a/include/minizinc/flatten_internal.hh
+++ b/include/minizinc/flatten_internal.hh
@@ -290,6 +290,32 @@ struct TypeList : public StructType {
   Type operator[](unsigned int i) const override { return tt[i]; };
 };
 
+/// Raises a counter for the lifetime of the object, also if the scope is left by an exception
+class NestedCounter {
+private:
+  int& _counter;
+  int _n;
+
+public:
+  NestedCounter(int& counter, int n = 1) : _counter(counter), _n(n) { _counter += _n; }
+  ~NestedCounter() { _counter -= _n; }
+  NestedCounter(const NestedCounter&) = delete;
+  NestedCounter& operator=(const NestedCounter&) = delete;
+};
+
+/// Sets a flag for the lifetime of the object, also if the scope is left by an exception
+class NestedFlag {
+private:
+  bool& _flag;
+  bool _previous;
+
+public:
+  NestedFlag(bool& flag, bool value) : _flag(flag), _previous(flag) { _flag = value; }
+  ~NestedFlag() { _flag = _previous; }
+  NestedFlag(const NestedFlag&) = delete;
+  NestedFlag& operator=(const NestedFlag&) = delete;
+};
+
 class EnvI {
   friend class Type;
   friend class TypeInst;
diff --git a/lib/builtins.cpp b/lib/builtins.cpp
index 6c26c53..99f96ca 100644
--- a/lib/builtins.cpp
+++ b/lib/builtins.cpp
@@ -1969,9 +1969,11 @@ Expression* b_default(EnvI& env, Call* call) {
   Ctx ctx;
   ctx.i = C_MIX;
   ctx.b = C_MIX;
-  env.inMaybePartial++;
-  EE arg0 = flat_exp(env, ctx, call->arg(0), nullptr, nullptr);
-  env.inMaybePartial--;
+  EE arg0;
+  {
+    NestedCounter inMaybePartial(env.inMaybePartial);
+    arg0 = flat_exp(env, ctx, call->arg(0), nullptr, nullptr);
+  }
   auto def_t = Expression::type(call->arg(1));
   if (Expression::type(arg0.b()).isPar()) {
     bool isDefined = eval_bool(env, arg0.b());
@@ -2072,8 +2074,8 @@ Expression* b_trace_exp(EnvI& env, Call* call) {
   if (env.inTraceExp) {
     return call->arg(0);
   }
-  env.inTraceExp = true;
-  env.inMaybePartial++;
+  NestedFlag inTraceExp(env.inTraceExp, true);
+  NestedCounter inMaybePartial(env.inMaybePartial);
   if (env.fopts.encapsulateJSON) {
     std::ostringstream oss;
     Printer p(oss, 0, false, &env);
@@ -2100,8 +2102,6 @@ Expression* b_trace_exp(EnvI& env, Call* call) {
     env.errstream << "\n";
     env.errstream.resetTraceModified(loc);
   }
-  env.inTraceExp = false;
-  env.inMaybePartial--;
   return call->arg(0);
 }
 
diff --git a/lib/eval_par.cpp b/lib/eval_par.cpp
index 054ce00..05b025f 100644
--- a/lib/eval_par.cpp
+++ b/lib/eval_par.cpp
@@ -1735,17 +1735,12 @@ bool eval_bool(EnvI& env, Expression* e) {
           if (auto* vdi = Expression::dynamicCast<VarDecl>(l->let()[i])) {
             vdi->e(eval_par(env, vdi->e()));
             bool maybe_partial = Expression::ann(vdi).contains(env.constants.ann.maybe_partial);
-            if (maybe_partial) {
-              env.inMaybePartial++;
-            }
+            NestedCounter inMaybePartial(env.inMaybePartial, maybe_partial ? 1 : 0);
             try {
               check_par_declaration(env, vdi);
             } catch (ResultUndefinedError&) {
               ret = false;
             }
-            if (maybe_partial) {
-              env.inMaybePartial--;
-            }
           } else {
             // This is a constraint item. Since the let is par,
             // it can only be a par bool expression. If it evaluates
diff --git a/lib/flatten/flatten_call.cpp b/lib/flatten/flatten_call.cpp
index e654c10..9ec39ee 100644
--- a/lib/flatten/flatten_call.cpp
+++ b/lib/flatten/flatten_call.cpp
@@ -339,10 +339,47 @@ public:
 };
 
 // NOLINTNEXTLINE(readability-function-size): TODO??
+namespace {
+/// Restores the bindings of the parameters of a function, also if flattening is left by an exception
+class RestoreParameters {
+private:
+  FunctionI* _decl;
+  std::vector<KeepAlive> _previousParameters;
+  KeepAlive _previousCapture;
+
+public:
+  RestoreParameters(FunctionI* decl) : _decl(decl), _previousParameters(decl->paramCount()) {
+    for (unsigned int i = 0; i < _decl->paramCount(); i++) {
+      _previousParameters[i] = _decl->param(i)->e();
+    }
+    if (_decl->capturedAnnotationsVar() != nullptr) {
+      _previousCapture = _decl->capturedAnnotationsVar()->e();
+    }
+  }
+  ~RestoreParameters() {
+    for (unsigned int i = 0; i < _decl->paramCount(); i++) {
+      restore(_decl->param(i), _previousParameters[i]());
+    }
+    if (_decl->capturedAnnotationsVar() != nullptr) {
+      restore(_decl->capturedAnnotationsVar(), _previousCapture());
+    }
+  }
+  RestoreParameters(const RestoreParameters&) = delete;
+  RestoreParameters& operator=(const RestoreParameters&) = delete;
+
+private:
+  static void restore(VarDecl* vd, Expression* e) {
+    vd->e(e);
+    vd->flat(e != nullptr ? vd : nullptr);
+  }
+};
+}  // namespace
+
 EE flatten_call(EnvI& env, const Ctx& input_ctx, Expression* e, VarDecl* r, VarDecl* b) {
   EE ret;
   Call* c = Expression::cast<Call>(e);
   IgnorePartial ignorePartial(env, c);
+  std::unique_ptr<NestedFlag> inReverseMapVar;
   if (c->id().endsWith("_reif")) {
     env.counters.reifConstraints++;
   } else if (c->id().endsWith("_imp")) {
@@ -601,7 +638,7 @@ EE flatten_call(EnvI& env, const Ctx& input_ctx, Expression* e, VarDecl* r, VarD
                          cid != env.constants.ids.array3d && cid != env.constants.ids.array4d &&
                          cid != env.constants.ids.array5d && cid != env.constants.ids.array6d);
       if (cid == env.constants.ids.mzn_reverse_map_var) {
-        env.inReverseMapVar = true;
+        inReverseMapVar.reset(new NestedFlag(env.inReverseMapVar, true));
       }
       if (decl->e() == nullptr && cid == env.constants.ids.clause &&
           Expression::isa<ArrayLit>(c->arg(0)) && Expression::isa<ArrayLit>(c->arg(1))) {
@@ -1261,10 +1298,8 @@ EE flatten_call(EnvI& env, const Ctx& input_ctx, Expression* e, VarDecl* r, VarD
           }
         }
       } else {
-        std::vector<KeepAlive> previousParameters(decl->paramCount());
-        KeepAlive previousCapture;
+        RestoreParameters restoreParameters(decl);
         if (decl->capturedAnnotationsVar() != nullptr) {
-          previousCapture = decl->capturedAnnotationsVar()->e();
           GCLock lock;
           decl->capturedAnnotationsVar()->flat(decl->capturedAnnotationsVar());
           ArrayLit* al = env.createAnnotationArray(c->type().isbool() ? ctx.b : ctx.i);
@@ -1272,7 +1307,6 @@ EE flatten_call(EnvI& env, const Ctx& input_ctx, Expression* e, VarDecl* r, VarD
         }
         for (unsigned int i = decl->paramCount(); (i--) != 0U;) {
           VarDecl* vd = decl->param(i);
-          previousParameters[i] = vd->e();
           vd->flat(vd);
           vd->e(args[i]());
         }
@@ -1343,25 +1377,9 @@ EE flatten_call(EnvI& env, const Ctx& input_ctx, Expression* e, VarDecl* r, VarD
         if (!ctx.neg && !Expression::type(cr()).isAnn()) {
           env.cseMapInsert(cr(), ret);
         }
-
-        // Restore previous mapping
-        for (unsigned int i = decl->paramCount(); (i--) != 0U;) {
-          VarDecl* vd = decl->param(i);
-          vd->e(previousParameters[i]());
-          vd->flat(vd->e() != nullptr ? vd : nullptr);
-        }
-        if (decl->capturedAnnotationsVar() != nullptr) {
-          decl->capturedAnnotationsVar()->e(previousCapture());
-          decl->capturedAnnotationsVar()->flat(decl->capturedAnnotationsVar()->e() != nullptr
-                                                   ? decl->capturedAnnotationsVar()
-                                                   : nullptr);
-        }
       }
     }
   }
-  if (cid == env.constants.ids.mzn_reverse_map_var) {
-    env.inReverseMapVar = false;
-  }
   return ret;
 }
 }  // namespace MiniZinc
diff --git a/lib/flatten/flatten_let.cpp b/lib/flatten/flatten_let.cpp
index 68bf4d7..79451db 100644
--- a/lib/flatten/flatten_let.cpp
+++ b/lib/flatten/flatten_let.cpp
@@ -13,12 +13,31 @@
 
 namespace MiniZinc {
 
+namespace {
+/// Restores the flattened version of let variables, also if flattening is left by an exception
+class RestoreFlat {
+private:
+  std::vector<std::pair<VarDecl*, KeepAlive>> _saved;
+
+public:
+  void save(VarDecl* vd) { _saved.emplace_back(vd, vd->flat()); }
+  RestoreFlat() = default;
+  ~RestoreFlat() {
+    for (auto it = _saved.rbegin(); it != _saved.rend(); ++it) {
+      it->first->flat(it->second() == nullptr ? nullptr : Expression::cast<VarDecl>(it->second()));
+    }
+  }
+  RestoreFlat(const RestoreFlat&) = delete;
+  RestoreFlat& operator=(const RestoreFlat&) = delete;
+};
+}  // namespace
+
 EE flatten_let(EnvI& env, const Ctx& ctx, Expression* e, VarDecl* r, VarDecl* b) {
   CallStackItem _csi(env, e);
   EE ret;
   Let* let = Expression::cast<Let>(e);
   std::vector<EE> cs;
-  std::vector<KeepAlive> flatmap;
+  RestoreFlat flatmap;
   {
     LetPushBindings lpb(let);
     for (unsigned int i = 0; i < let->let().size(); i++) {
@@ -78,7 +97,7 @@ EE flatten_let(EnvI& env, const Ctx& ctx, Expression* e, VarDecl* r, VarDecl* b)
           let_e = nvd->id();
           vd->e(let_e);
         }
-        flatmap.emplace_back(vd->flat());
+        flatmap.save(vd);
         if (Id* id = Expression::dynamicCast<Id>(let_e)) {
           vd->flat(id->decl());
         } else {
@@ -123,12 +142,6 @@ EE flatten_let(EnvI& env, const Ctx& ctx, Expression* e, VarDecl* r, VarDecl* b)
       }
     }
   }
-  // Restore previous mapping
-  for (unsigned int i = 0, j = 0; i < let->let().size(); i++) {
-    if (auto* vd = Expression::dynamicCast<VarDecl>(let->let()[i])) {
-      vd->flat(Expression::cast<VarDecl>(flatmap[j++]()));
-    }
-  }
   return ret;
 }
 }  // namespace MiniZinc
-- 
2.43.0


From 9754750b81daac67613103f8bea83199564bbffb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:05:44 +0000
Subject: [PATCH 35/45] fix: escape identifiers and file names written into
 JSON output

---
 lib/builtins.cpp      |  2 +-
 lib/flatten.cpp       |  2 +-
 lib/prettyprinter.cpp | 20 +++++++++++++-------
 lib/typecheck.cpp     | 18 +++++++++++++-----
 4 files changed, 28 insertions(+), 14 deletions(-)

diff --git a/lib/builtins.cpp b/lib/builtins.cpp
index 99f96ca..6e67cd5 100644
--- a/lib/builtins.cpp
+++ b/lib/builtins.cpp
@@ -2726,7 +2726,7 @@ Expression* b_output_json_parameters(EnvI& env, Call* call) {
         } else {
           s << ",\n";
         }
-        s << "  \"" << vd->id()->str() << "\"" << " : ";
+        s << "  \"" << Printer::escapeStringLit(vd->id()->str()) << "\"" << " : ";
         auto* sl = new StringLit(Location().introduce(), s.str());
         _outputVars.push_back(sl);
 
diff --git a/lib/flatten.cpp b/lib/flatten.cpp
index cbfd00c..26272bd 100644
--- a/lib/flatten.cpp
+++ b/lib/flatten.cpp
@@ -5235,7 +5235,7 @@ void flatten(Env& e, FlatteningOptions opt) {
             std::chrono::duration_cast<std::chrono::milliseconds>(entry.second);
         if (time_taken > std::chrono::milliseconds(0)) {
           std::ostringstream oss;
-          oss << "[\"" << entry.first.first << "\"," << entry.first.second << ","
+          oss << "[\"" << Printer::escapeStringLit(entry.first.first) << "\"," << entry.first.second << ","
               << time_taken.count() << "]";
           ss.addRaw("profiling", oss.str());
         }
diff --git a/lib/prettyprinter.cpp b/lib/prettyprinter.cpp
index 0567099..40be897 100644
--- a/lib/prettyprinter.cpp
+++ b/lib/prettyprinter.cpp
@@ -2436,6 +2436,14 @@ void Printer::print(const Model* m) {
   }
 }
 
+namespace {
+std::string json_id(const Id* ident) {
+  std::ostringstream oss;
+  oss << *ident;
+  return Printer::escapeStringLit(oss.str());
+}
+}  // namespace
+
 void FznJSONPrinter::printBasicElement(std::ostream& os, Expression* e) {
   if (auto* call = Expression::dynamicCast<Call>(e)) {
     os << "{ \"id\" : \"" << Printer::escapeStringLit(call->id()) << "\", \"args\" : [";
@@ -2449,9 +2457,7 @@ void FznJSONPrinter::printBasicElement(std::ostream& os, Expression* e) {
     printAnnotations(os, Expression::ann(call));
     os << "}";
   } else if (auto* ident = Expression::dynamicCast<Id>(e)) {
-    std::ostringstream ident_oss;
-    ident_oss << *ident;
-    os << "\"" << Printer::escapeStringLit(ident_oss.str()) << "\"";
+    os << "\"" << json_id(ident) << "\"";
   } else if (auto* al = Expression::dynamicCast<ArrayLit>(e)) {
     os << "[";
     for (unsigned int j = 0; j < al->size(); j++) {
@@ -2543,7 +2549,7 @@ void FznJSONPrinter::printAnnotations(std::ostream& os, const Annotation& ann) {
       os << ", \"defined\" : true";
     }
     if (defines != nullptr) {
-      os << ", \"defines\" : \"" << *defines << "\"";
+      os << ", \"defines\" : \"" << json_id(defines) << "\"";
     }
   }
 }
@@ -2566,7 +2572,7 @@ void FznJSONPrinter::print(MiniZinc::Model* m) {
       } else {
         os_arrays << ",\n";
       }
-      os_arrays << "    \"" << *vd->id() << "\" : ";
+      os_arrays << "    \"" << json_id(vd->id()) << "\" : ";
       os_arrays << "{ \"a\": ";
       printBasicElement(os_arrays, vd->e());
       printAnnotations(os_arrays, Expression::ann(vd));
@@ -2577,7 +2583,7 @@ void FznJSONPrinter::print(MiniZinc::Model* m) {
       } else {
         _os << ",\n";
       }
-      _os << "    \"" << *vd->id() << "\" : {";
+      _os << "    \"" << json_id(vd->id()) << "\" : {";
       _os << " \"type\" : ";
       if (vd->type().isIntSet()) {
         _os << "\"set of int\"";
@@ -2631,7 +2637,7 @@ void FznJSONPrinter::print(MiniZinc::Model* m) {
       } else {
         output_idents << ", ";
       }
-      output_idents << "\"" << *vd->id() << "\"";
+      output_idents << "\"" << json_id(vd->id()) << "\"";
     }
   }
   _os << "\n  },\n";
diff --git a/lib/typecheck.cpp b/lib/typecheck.cpp
index 1472694..0e0a30e 100644
--- a/lib/typecheck.cpp
+++ b/lib/typecheck.cpp
@@ -5647,7 +5647,9 @@ void output_var_desc_json(Env& env, TypeInst* ti, std::ostream& os, bool extra =
       for (auto& range : ranges) {
         if (range->type().typeId() > 0) {
           os << (had_dim ? "," : "") << "\""
-             << *env.envi().getEnum(range->type().typeId())->e()->id() << "\"";
+             << Printer::escapeStringLit(
+                    env.envi().getEnum(range->type().typeId())->e()->id()->str())
+             << "\"";
         } else {
           os << (had_dim ? "," : "") << "\"int\"";
         }
@@ -5664,7 +5666,9 @@ void output_var_desc_json(Env& env, TypeInst* ti, std::ostream& os, bool extra =
             record_types();
           } else {
             assert(ti->type().bt() == Type::BT_INT);
-            os << ", \"enum_type\" : \"" << *env.envi().getEnum(typeIds.back())->e()->id() << "\"";
+            os << ", \"enum_type\" : \""
+               << Printer::escapeStringLit(env.envi().getEnum(typeIds.back())->e()->id()->str())
+               << "\"";
           }
         }
       }
@@ -5678,7 +5682,8 @@ void output_var_desc_json(Env& env, TypeInst* ti, std::ostream& os, bool extra =
           record_types();
         } else {
           assert(ti->type().bt() == Type::BT_INT);
-          os << ", \"enum_type\" : \"" << *env.envi().getEnum(ti->type().typeId())->e()->id()
+          os << ", \"enum_type\" : \""
+             << Printer::escapeStringLit(env.envi().getEnum(ti->type().typeId())->e()->id()->str())
              << "\"";
         }
       }
@@ -5728,7 +5733,10 @@ void output_model_variable_types(Env& env, Model* m, std::ostream& os,
         if (hadEnum) {
           ossEnums << ", ";
         }
-        ossEnums << "\"" << *env.envi().getEnum(vdi->e()->type().typeId())->e()->id() << "\"";
+        ossEnums << "\""
+                 << Printer::escapeStringLit(
+                        env.envi().getEnum(vdi->e()->type().typeId())->e()->id()->str())
+                 << "\"";
         hadEnum = true;
       }
     }
@@ -5895,7 +5903,7 @@ void output_model_interface(Env& env, Model* m, std::ostream& os,
   os << ", \"globals\": [";
   bool first = true;
   for (const auto& g : model_globals(m, skipDirs)) {
-    os << (first ? "    " : ", ") << "\"" << g << "\"";
+    os << (first ? "    " : ", ") << "\"" << Printer::escapeStringLit(g) << "\"";
     first = false;
   }
   os << "]";
-- 
2.43.0


From 099c14a4a7029bbcda0eaceee17bdafdf3774a9f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:09:03 +0000
Subject: [PATCH 36/45] fix: test divisors against zero before dividing

---
 include/minizinc/solvers/MIP/MIP_solverinstance.hpp | 3 ++-
 lib/builtins.cpp                                    | 7 +++++--
 lib/flatten.cpp                                     | 3 +++
 lib/flatten/flatten_binop.cpp                       | 3 +++
 lib/optimize_constraints.cpp                        | 4 ++++
 5 files changed, 17 insertions(+), 3 deletions(-)

diff --git a/include/minizinc/solvers/MIP/MIP_solverinstance.hpp b/include/minizinc/solvers/MIP/MIP_solverinstance.hpp
index 9a09129..d17f947 100644
--- a/include/minizinc/solvers/MIP/MIP_solverinstance.hpp
+++ b/include/minizinc/solvers/MIP/MIP_solverinstance.hpp
@@ -1030,7 +1030,8 @@ void p_lex_chain_lesseq_binary(SolverInstanceBase& si, const Call* call) {
   auto isModelCons = gi.exprToConst(call->arg(4));
 
   gi.getMIPWrapper()->addLexChainLesseq(
-      static_cast<int>(m), static_cast<int>(static_cast<double>(vars.size()) / m), vars.data(),
+      static_cast<int>(m), m > 0 ? static_cast<int>(static_cast<double>(vars.size()) / m) : 0,
+      vars.data(),
       static_cast<int>(orbitopeType), static_cast<bool>(resolveprop),
       static_cast<bool>(isModelCons),
       make_constraint_name("p_lex_lesseq__orbisack_", (gi.getMIPWrapper()->nAddedRows++), call));
diff --git a/lib/builtins.cpp b/lib/builtins.cpp
index 6e67cd5..42f8560 100644
--- a/lib/builtins.cpp
+++ b/lib/builtins.cpp
@@ -1835,8 +1835,11 @@ FloatVal b_log2(EnvI& env, Call* call) {
 }
 FloatVal b_ln(EnvI& env, Call* call) { return std::log(eval_float(env, call->arg(0)).toDouble()); }
 FloatVal b_log(EnvI& env, Call* call) {
-  return std::log(eval_float(env, call->arg(1)).toDouble()) /
-         std::log(eval_float(env, call->arg(0)).toDouble());
+  const double logBase = std::log(eval_float(env, call->arg(0)).toDouble());
+  if (logBase == 0.0) {
+    throw ResultUndefinedError(env, Expression::loc(call), "logarithm to base one is undefined");
+  }
+  return std::log(eval_float(env, call->arg(1)).toDouble()) / logBase;
 }
 FloatVal b_exp(EnvI& env, Call* call) { return std::exp(eval_float(env, call->arg(0)).toDouble()); }
 FloatVal b_pow(EnvI& env, Call* call) {
diff --git a/lib/flatten.cpp b/lib/flatten.cpp
index 26272bd..4dc0357 100644
--- a/lib/flatten.cpp
+++ b/lib/flatten.cpp
@@ -2770,6 +2770,9 @@ bool check_domain_constraints(EnvI& env, Call* c) {
     if (al_c->size() == 1) {
       auto* al_x = Expression::cast<ArrayLit>(follow_id(c->arg(1)));
       IntVal coeff = eval_int(env, (*al_c)[0]);
+      if (coeff == 0) {
+        return true;
+      }
       IntVal y = eval_int(env, c->arg(2));
       IntVal lb = -IntVal::infinity();
       IntVal ub = IntVal::infinity();
diff --git a/lib/flatten/flatten_binop.cpp b/lib/flatten/flatten_binop.cpp
index 1a8fa04..0e3c64e 100644
--- a/lib/flatten/flatten_binop.cpp
+++ b/lib/flatten/flatten_binop.cpp
@@ -961,6 +961,9 @@ EE flatten_nonbool_op(EnvI& env, const Ctx& ctx, const Ctx& ctx0, const Ctx& ctx
         if (coeff == 1.0) {
           return with_ees(flat_exp(env, ctx, e0r, r, b));
         }
+        if (coeff == 0.0) {
+          throw ResultUndefinedError(env, Expression::loc(e), "division by zero");
+        }
         KeepAlive ka = mklinexp<FloatLit>(env, 1.0 / coeff, 0.0, e0r, nullptr);
         return with_ees(flat_exp(env, ctx, ka(), r, b));
       }
diff --git a/lib/optimize_constraints.cpp b/lib/optimize_constraints.cpp
index 3ebe9b1..f73d591 100644
--- a/lib/optimize_constraints.cpp
+++ b/lib/optimize_constraints.cpp
@@ -364,6 +364,10 @@ OptimizeRegistry::ConstraintStatus o_not(EnvI& env, Item* i, Call* c, Expression
 OptimizeRegistry::ConstraintStatus o_div(EnvI& env, Item* i, Call* c, Expression*& rewrite) {
   if (Expression::type(c->arg(1)).isPar()) {
     IntVal c1v = eval_int(env, c->arg(1));
+    if (c1v == 0) {
+      // Division by zero has no result
+      return OptimizeRegistry::CS_FAILED;
+    }
     if (Expression::type(c->arg(0)).isPar() && c->argCount() == 3 &&
         Expression::type(c->arg(2)).isPar()) {
       IntVal c0v = eval_int(env, c->arg(0));
-- 
2.43.0


From 49e52bb1a68c40cad4d84e26d4089b16938686dc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:44:31 +0000
Subject: [PATCH 37/45] fix: do not use references into containers after they
 may have grown

---
 include/minizinc/astiterator.hh |  4 +++-
 lib/builtins.cpp                |  2 +-
 lib/eval_par.cpp                |  2 +-
 lib/flatten/flatten_call.cpp    | 10 ++++++----
 4 files changed, 11 insertions(+), 7 deletions(-)

diff --git a/include/minizinc/astiterator.hh b/include/minizinc/astiterator.hh
index ea7f3f4..179be9f 100644
--- a/include/minizinc/astiterator.hh
+++ b/include/minizinc/astiterator.hh
@@ -171,6 +171,7 @@ void BottomUpIterator<T>::run(Expression* root) {
     } else {
       c.done = true;
       Expression* ce = c.e;
+      const std::size_t cIdx = stack.size() - 1;
       for (ExpressionSetIter it = Expression::ann(ce).begin(); it != Expression::ann(ce).end();
            ++it) {
         if (_t.enter(*it)) {
@@ -257,7 +258,8 @@ void BottomUpIterator<T>::run(Expression* root) {
             break;
         }
       } else {
-        c.e = nullptr;
+        // The annotations pushed above may have moved the elements of the stack
+        stack[cIdx].e = nullptr;
       }
     }
   }
diff --git a/lib/builtins.cpp b/lib/builtins.cpp
index 42f8560..a3f923e 100644
--- a/lib/builtins.cpp
+++ b/lib/builtins.cpp
@@ -2515,7 +2515,7 @@ std::string b_show_index_sets(EnvI& env, Call* c) {
       }
     }
   } else {
-    const auto& arrayIds = env.getArrayEnum(t.typeId());
+    const std::vector<unsigned int> arrayIds = env.getArrayEnum(t.typeId());
     for (unsigned int j = 0; j < al->dims(); j++) {
       display_enum_range(oss, env, al->min(j), al->max(j), arrayIds[j]);
       if (j < al->dims() - 1) {
diff --git a/lib/eval_par.cpp b/lib/eval_par.cpp
index 05b025f..35bd117 100644
--- a/lib/eval_par.cpp
+++ b/lib/eval_par.cpp
@@ -64,7 +64,7 @@ void check_par_domain(EnvI& env, VarDecl* vd, Expression* rhs, int argNumber,
           }
           std::vector<Expression*> indexes_s(indexes.size());
           if (enumId != 0) {
-            const auto& enumIds = env.getArrayEnum(enumId);
+            const std::vector<unsigned int> enumIds = env.getArrayEnum(enumId);
             for (unsigned int j = 0; j < indexes.size(); j++) {
               std::ostringstream index_oss;
               if (enumIds[j] != 0) {
diff --git a/lib/flatten/flatten_call.cpp b/lib/flatten/flatten_call.cpp
index 9ec39ee..2484bd6 100644
--- a/lib/flatten/flatten_call.cpp
+++ b/lib/flatten/flatten_call.cpp
@@ -1137,19 +1137,21 @@ EE flatten_call(EnvI& env, const Ctx& input_ctx, Expression* e, VarDecl* r, VarD
       cit = env.cseMapFind(cr());
     }
     if (cit != env.cseMapEnd()) {
+      // Binding may add entries to the map, keep what was found
+      const EE found(cit->second.r, cit->second.b);
       if (Expression::type(e).isbool() && !Expression::type(e).isOpt()) {
-        cse_result_change_ctx(env, cit->second.r, ctx.b);
+        cse_result_change_ctx(env, found.r(), ctx.b);
         ret.b = bind(env, Ctx(), b, env.constants.literalTrue);
-        args_ee.emplace_back(nullptr, cit->second.r);
+        args_ee.emplace_back(nullptr, found.r());
         ret.r = conj(env, r, ctx, args_ee);
       } else {
         if (env.ignorePartial) {
           ret.b = bind(env, Ctx(), b, env.constants.literalTrue);
         } else {
-          args_ee.emplace_back(nullptr, cit->second.b);
+          args_ee.emplace_back(nullptr, found.b());
           ret.b = conj(env, b, Ctx(), args_ee);
         }
-        ret.r = bind(env, ctx, r, cit->second.r);
+        ret.r = bind(env, ctx, r, found.r());
       }
     } else {
       for (unsigned int i = 0; i < decl->paramCount(); i++) {
-- 
2.43.0


From 8fe4cc5fb89f342c8f581a4176d576c555124ad5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:55:41 +0000
Subject: [PATCH 38/45] fix: count range constraints of NL files as ranges only

---
 solvers/nl/nl_file.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/solvers/nl/nl_file.cpp b/solvers/nl/nl_file.cpp
index b568ac2..d8bf4c0 100644
--- a/solvers/nl/nl_file.cpp
+++ b/solvers/nl/nl_file.cpp
@@ -1413,9 +1413,11 @@ void NLFile::phase2() {
     switch (c.range.tag) {
       case NLBound::LB_UB: {
         ++algConsRangeCount;
+        break;
       }
       case NLBound::EQ: {
         ++algConsEqCount;
+        break;
       }
       default: {
         break;
-- 
2.43.0


From b0cf8aa0eadba83ddb5ffed0c686984d2b1126f0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:30:24 +0000
Subject: [PATCH 39/45] fix: flush checker output and elapsed time when
 solutions are canonicalised

---
 lib/solns2out.cpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/lib/solns2out.cpp b/lib/solns2out.cpp
index ba0d548..4044da7 100644
--- a/lib/solns2out.cpp
+++ b/lib/solns2out.cpp
@@ -339,6 +339,9 @@ bool Solns2Out::evalOutput() {
           getOutput() << "% time elapsed: " << _starttime.stoptime() << "\n";
         }
       }
+      if (opt.flagOutputFlush) {
+        getOutput().flush();
+      }
     } else {
       if ((!opt.solutionComma.empty()) && stats.nSolns > 1) {
         getOutput() << opt.solutionComma << '\n';
-- 
2.43.0


From 3a4c6df7cd24ba1d7c27b9deee183e488b9fad4d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:30:34 +0000
Subject: [PATCH 40/45] fix: post Gecode's precede over a list of values

---
 solvers/gecode/gecode_constraints.cpp | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/solvers/gecode/gecode_constraints.cpp b/solvers/gecode/gecode_constraints.cpp
index 304fad8..43e7506 100644
--- a/solvers/gecode/gecode_constraints.cpp
+++ b/solvers/gecode/gecode_constraints.cpp
@@ -1506,6 +1506,11 @@ void p_precede(SolverInstanceBase& s, const Call* call) {
   const Annotation& ann = Expression::ann(call);
   auto& gi = static_cast<GecodeSolverInstance&>(s);
   IntVarArgs x = gi.arg2intvarargs(call->arg(0));
+  if (call->argCount() == 2) {
+    IntArgs c = GecodeSolverInstance::arg2intargs(call->arg(1));
+    precede(*gi.currentSpace, x, c, GecodeSolverInstance::ann2icl(ann));
+    return;
+  }
   int p_s = static_cast<int>(IntLit::v(Expression::cast<IntLit>(call->arg(1))).toInt());
   int p_t = static_cast<int>(IntLit::v(Expression::cast<IntLit>(call->arg(2))).toInt());
   precede(*gi.currentSpace, x, p_s, p_t, GecodeSolverInstance::ann2icl(ann));
-- 
2.43.0


From 893788148365a700b3dc0b0556472d18fe2f10a3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:30:34 +0000
Subject: [PATCH 41/45] fix: post set_in on integer variables to Gecode as an
 integer constraint

---
 solvers/gecode/gecode_constraints.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/solvers/gecode/gecode_constraints.cpp b/solvers/gecode/gecode_constraints.cpp
index 43e7506..249ce6c 100644
--- a/solvers/gecode/gecode_constraints.cpp
+++ b/solvers/gecode/gecode_constraints.cpp
@@ -1827,7 +1827,7 @@ void p_set_in(SolverInstanceBase& s, const Call* ce) {
   auto& gi = static_cast<GecodeSolverInstance&>(s);
   if (!Expression::type(ce->arg(1)).isvar()) {
     IntSet d = gi.arg2intset(s.env().envi(), ce->arg(1));
-    if (Expression::type(ce->arg(0)).isvar()) {
+    if (Expression::type(ce->arg(0)).isvarbool()) {
       Gecode::IntSetRanges dr(d);
       Iter::Ranges::Singleton sr(0, 1);
       Iter::Ranges::Inter<Gecode::IntSetRanges, Iter::Ranges::Singleton> i(dr, sr);
-- 
2.43.0


From 487cdafc9173bbb21c19c5f1d23d5c526f5782ef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:30:34 +0000
Subject: [PATCH 42/45] fix: do not report HiGHS stopping at an objective bound
 or target as a proof

---
 solvers/MIP/MIP_highs_wrap.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/solvers/MIP/MIP_highs_wrap.cpp b/solvers/MIP/MIP_highs_wrap.cpp
index 6768bd9..ad432e0 100644
--- a/solvers/MIP/MIP_highs_wrap.cpp
+++ b/solvers/MIP/MIP_highs_wrap.cpp
@@ -385,10 +385,10 @@ MIPWrapper::Status MIPHiGHSWrapper::convertStatus(const HighsInt model_status) {
       return MIPWrapper::UNBND;
     case kHighsModelStatusObjectiveBound:
       output.statusName = "Objective bound";
-      return valid ? MIPWrapper::OPT : MIPWrapper::UNSAT;
+      return valid ? MIPWrapper::SAT : MIPWrapper::UNKNOWN;
     case kHighsModelStatusObjectiveTarget:
       output.statusName = "Objective target";
-      return valid ? MIPWrapper::OPT : MIPWrapper::UNSAT;
+      return valid ? MIPWrapper::SAT : MIPWrapper::UNKNOWN;
     case kHighsModelStatusTimeLimit:
       output.statusName = "Time limit";
       return valid ? MIPWrapper::SAT : MIPWrapper::UNKNOWN;
-- 
2.43.0


From b7f29cd8ba4ec2cb796ee6cc6e9f015b5d5e9d10 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:30:34 +0000
Subject: [PATCH 43/45] fix: test the flag, not the second argument, of
 indicator equality constraints

---
 include/minizinc/solvers/MIP/MIP_solverinstance.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/minizinc/solvers/MIP/MIP_solverinstance.hpp b/include/minizinc/solvers/MIP/MIP_solverinstance.hpp
index d17f947..19080f7 100644
--- a/include/minizinc/solvers/MIP/MIP_solverinstance.hpp
+++ b/include/minizinc/solvers/MIP/MIP_solverinstance.hpp
@@ -948,7 +948,7 @@ void p_indicator_eq_if1(SolverInstanceBase& si, const Call* call) {
   }
   /// Check feas-ty. 1e-6 ?????????????   TODO
   if (f1const && f2const && fBconst) {
-    if (fabs(val1 - val2) > 1e-6 && val2 > 0.999999) {
+    if (fabs(val1 - val2) > 1e-6 && valB > 0.999999) {
       si.setStatus(SolverInstance::UNSAT);
       if (gi.getMIPWrapper()->fVerbose) {
         std::cerr << "  Constraint '" << *call << "' seems infeasible: " << valB << "==0 -> "
@@ -960,7 +960,7 @@ void p_indicator_eq_if1(SolverInstanceBase& si, const Call* call) {
       gi.getMIPWrapper()->setVarBounds(varB, 0.0, 0.0);
     }
   } else if (fBconst) {
-    if (val2 > 0.999999) {  // so  var1<=0
+    if (valB > 0.999999) {  // so  var1==var2
       remove_duplicates(vars, coefs);
       gi.getMIPWrapper()->addRow(
           static_cast<int>(vars.size()), vars.data(), coefs.data(), MIPWrapper::LinConType::EQ, rhs,
-- 
2.43.0


From bbaaffc22e80a697c3f05d6d63e0a15371e2edc3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:35:13 +0000
Subject: [PATCH 44/45] fix: include sliding_among.mzn in gecode.mzn

among_seq calls sliding_among, so any model including gecode.mzn was rejected.
---
 share/minizinc/gecode_presolver/gecode.mzn | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/share/minizinc/gecode_presolver/gecode.mzn b/share/minizinc/gecode_presolver/gecode.mzn
index eddc8d7..57b8c41 100644
--- a/share/minizinc/gecode_presolver/gecode.mzn
+++ b/share/minizinc/gecode_presolver/gecode.mzn
@@ -34,6 +34,8 @@
 %
 %
 
+include "sliding_among.mzn";
+
 /***
  @groupdef gecode Additional declarations for Gecode 
  
-- 
2.43.0


From f6da1a3166c9ac098571e9eb68678a20d4ca1e05 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:35:13 +0000
Subject: [PATCH 45/45] fix: make the deprecated decreasing_* globals usable
 again

The files included fzn_decreasing_*.mzn files that the standard library does
not contain, so every model including them was rejected. Define the
predicates through decreasing instead.
---
 share/minizinc/std/decreasing_bool.mzn  | 5 ++---
 share/minizinc/std/decreasing_float.mzn | 5 ++---
 share/minizinc/std/decreasing_int.mzn   | 5 ++---
 share/minizinc/std/decreasing_set.mzn   | 5 ++---
 4 files changed, 8 insertions(+), 12 deletions(-)

diff --git a/share/minizinc/std/decreasing_bool.mzn b/share/minizinc/std/decreasing_bool.mzn
index 49d1353..6e9b1cc 100644
--- a/share/minizinc/std/decreasing_bool.mzn
+++ b/share/minizinc/std/decreasing_bool.mzn
@@ -1,8 +1,7 @@
-include "fzn_decreasing_bool.mzn";
-include "fzn_decreasing_bool_reif.mzn";
+include "decreasing.mzn";
 
 %-----------------------------------------------------------------------------%
 % Requires that the array 'x' is in decreasing order (duplicates are allowed).
 %-----------------------------------------------------------------------------%
 
-predicate decreasing_bool(array [$X] of var bool: x) = fzn_decreasing_bool(array1d(x));
+predicate decreasing_bool(array [$X] of var bool: x) = decreasing(array1d(x));
diff --git a/share/minizinc/std/decreasing_float.mzn b/share/minizinc/std/decreasing_float.mzn
index 9459938..23e1f35 100644
--- a/share/minizinc/std/decreasing_float.mzn
+++ b/share/minizinc/std/decreasing_float.mzn
@@ -1,8 +1,7 @@
-include "fzn_decreasing_float.mzn";
-include "fzn_decreasing_float_reif.mzn";
+include "decreasing.mzn";
 
 %-----------------------------------------------------------------------------%
 % Requires that the array 'x' is in decreasing order (duplicates are allowed).
 %-----------------------------------------------------------------------------%
 
-predicate decreasing_float(array [$X] of var float: x) = fzn_decreasing_float(array1d(x));
+predicate decreasing_float(array [$X] of var float: x) = decreasing(array1d(x));
diff --git a/share/minizinc/std/decreasing_int.mzn b/share/minizinc/std/decreasing_int.mzn
index c726cfd..8a57675 100644
--- a/share/minizinc/std/decreasing_int.mzn
+++ b/share/minizinc/std/decreasing_int.mzn
@@ -1,8 +1,7 @@
-include "fzn_decreasing_int.mzn";
-include "fzn_decreasing_int_reif.mzn";
+include "decreasing.mzn";
 
 %-----------------------------------------------------------------------------%
 % Requires that the array 'x' is in decreasing order (duplicates are allowed).
 %-----------------------------------------------------------------------------%
 
-predicate decreasing_int(array [$X] of var int: x) = fzn_decreasing_int(array1d(x));
+predicate decreasing_int(array [$X] of var int: x) = decreasing(array1d(x));
diff --git a/share/minizinc/std/decreasing_set.mzn b/share/minizinc/std/decreasing_set.mzn
index f4729a1..618203a 100644
--- a/share/minizinc/std/decreasing_set.mzn
+++ b/share/minizinc/std/decreasing_set.mzn
@@ -1,8 +1,7 @@
-include "fzn_decreasing_set.mzn";
-include "fzn_decreasing_set_reif.mzn";
+include "decreasing.mzn";
 
 %-----------------------------------------------------------------------------%
 % Requires that the array 'x' is in decreasing order (duplicates are allowed).
 %-----------------------------------------------------------------------------%
 
-predicate decreasing_set(array [$X] of var set of int: x) = fzn_decreasing_set(array1d(x));
+predicate decreasing_set(array [$X] of var set of int: x) = decreasing(array1d(x));
-- 
2.43.0

