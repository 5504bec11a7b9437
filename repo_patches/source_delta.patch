From 9e75cc5a697f9a2a1e44e57c143207ff036cd674 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:29:44 +0000
Subject: [PATCH 01/84] fix: accept the documented widths 1 and 128 in
 Concrete_Type

---
 src/bms/concrete_type.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/bms/concrete_type.hpp b/src/bms/concrete_type.hpp
index fcbcd48..91752cb 100644
--- a/src/bms/concrete_type.hpp
+++ b/src/bms/concrete_type.hpp
@@ -45,7 +45,7 @@ struct Concrete_Type {
     [[nodiscard]] static constexpr Concrete_Type Uint(int width)
     {
         BIT_MANIPULATION_ASSERT(width <= uint_max_width);
-        BIT_MANIPULATION_ASSERT(width > 1);
+        BIT_MANIPULATION_ASSERT(width >= 1);
         return Concrete_Type { Type_Type::Uint, width };
     }
 
@@ -59,7 +59,7 @@ public:
         , m_width(width)
     {
         BIT_MANIPULATION_ASSERT(type == Type_Type::Uint || width == 0);
-        BIT_MANIPULATION_ASSERT(type != Type_Type::Uint || (width > 0 && width < uint_max_width));
+        BIT_MANIPULATION_ASSERT(type != Type_Type::Uint || (width > 0 && width <= uint_max_width));
     }
 
     [[nodiscard]] friend constexpr bool operator<=>(Concrete_Type, Concrete_Type) = default;
-- 
2.43.0


From b9fa299dfec8e5e953d6c9c1fdda8f8f2e841819 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:29:44 +0000
Subject: [PATCH 02/84] fix: use a full mask for Uint(128)

---
 src/bms/concrete_type.hpp  | 2 +-
 src/bms/concrete_value.hpp | 3 +--
 src/bms/value.hpp          | 4 ++--
 3 files changed, 4 insertions(+), 5 deletions(-)

diff --git a/src/bms/concrete_type.hpp b/src/bms/concrete_type.hpp
index 91752cb..5fb0129 100644
--- a/src/bms/concrete_type.hpp
+++ b/src/bms/concrete_type.hpp
@@ -97,7 +97,7 @@ public:
         case Type_Type::Int: return Big_Uint(-1);
         case Type_Type::Uint:
             return m_width == std::numeric_limits<Big_Uint>::digits
-                ? 0
+                ? Big_Uint(-1)
                 : Big_Uint(Big_Uint(1) << m_width) - 1;
         }
         BIT_MANIPULATION_ASSERT_UNREACHABLE("Unknown type.");
diff --git a/src/bms/concrete_value.hpp b/src/bms/concrete_value.hpp
index 9849edd..43688cb 100644
--- a/src/bms/concrete_value.hpp
+++ b/src/bms/concrete_value.hpp
@@ -62,8 +62,7 @@ public:
     constexpr Concrete_Value transform_uint(Big_Uint f(Big_Uint)) const
     {
         BIT_MANIPULATION_ASSERT(type.is_uint());
-        const auto mask = Big_Uint(Big_Uint(1) << type.width()) - 1;
-        return { type, Big_Int(Big_Uint(f(Big_Uint(int_value))) & mask) };
+        return { type, Big_Int(Big_Uint(f(Big_Uint(int_value))) & type.get_mask()) };
     }
 };
 
diff --git a/src/bms/value.hpp b/src/bms/value.hpp
index 73d9238..f9e72df 100644
--- a/src/bms/value.hpp
+++ b/src/bms/value.hpp
@@ -103,8 +103,8 @@ public:
     constexpr Value and_then_uint(F f) const
     {
         if (is_known()) {
-            const auto mask = Big_Uint(Big_Uint(1) << m_type.width()) - 1;
-            return Value { m_type, Big_Int(Big_Uint(f(Big_Uint(m_int_value))) & mask) };
+            return Value { m_type,
+                           Big_Int(Big_Uint(f(Big_Uint(m_int_value))) & m_type.get_mask()) };
         }
         return *this;
     }
-- 
2.43.0


From 72665312e2800ffd3c05da9ad886584113686079 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:29:44 +0000
Subject: [PATCH 03/84] fix: divide Uint(128) values as unsigned integers

---
 src/bms/evaluation/operations.cpp | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/bms/evaluation/operations.cpp b/src/bms/evaluation/operations.cpp
index 4013e27..20273ea 100644
--- a/src/bms/evaluation/operations.cpp
+++ b/src/bms/evaluation/operations.cpp
@@ -375,6 +375,11 @@ evaluate_binary_operator(Concrete_Value lhs, Expression_Type op, Concrete_Value
             if (rhs.int_value == 0) {
                 return Evaluation_Error_Code::division_by_zero;
             }
+            if (lhs.type.is_uint()) {
+                return op == Expression_Type::division
+                    ? transform_uint([](Big_Uint x, Big_Uint y) -> Big_Uint { return x / y; })
+                    : transform_uint([](Big_Uint x, Big_Uint y) -> Big_Uint { return x % y; });
+            }
             return op == Expression_Type::division
                 ? Concrete_Value { lhs.type, lhs.int_value / rhs.int_value }
                 : Concrete_Value { lhs.type, lhs.int_value % rhs.int_value };
-- 
2.43.0


From 0a14182f1cc43fcd8bded0eb0092eaae0fbfc608 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:29:44 +0000
Subject: [PATCH 04/84] fix: evaluate equality of Bool values

---
 src/bms/evaluation/operations.cpp | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/bms/evaluation/operations.cpp b/src/bms/evaluation/operations.cpp
index 20273ea..c2075b7 100644
--- a/src/bms/evaluation/operations.cpp
+++ b/src/bms/evaluation/operations.cpp
@@ -403,6 +403,12 @@ evaluate_binary_operator(Concrete_Value lhs, Expression_Type op, Concrete_Value
         if (op == logical_or) {
             return Concrete_Value { Concrete_Type::Bool, Big_Int(lhs.int_value || rhs.int_value) };
         }
+        if (op == equals) {
+            return Concrete_Value { Concrete_Type::Bool, Big_Int(lhs.int_value == rhs.int_value) };
+        }
+        if (op == not_equals) {
+            return Concrete_Value { Concrete_Type::Bool, Big_Int(lhs.int_value != rhs.int_value) };
+        }
         BIT_MANIPULATION_ASSERT_UNREACHABLE("Unsupported Bool operation not caught by type-check.");
     }
 
-- 
2.43.0


From e0db5f334d66bb3a8c6dc42918c2f92d039d08ca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:29:44 +0000
Subject: [PATCH 05/84] fix: report excessive shifts of known values

---
 src/bms/evaluation/operations.cpp | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/src/bms/evaluation/operations.cpp b/src/bms/evaluation/operations.cpp
index c2075b7..e01f80b 100644
--- a/src/bms/evaluation/operations.cpp
+++ b/src/bms/evaluation/operations.cpp
@@ -390,6 +390,13 @@ evaluate_binary_operator(Concrete_Value lhs, Expression_Type op, Concrete_Value
             return Concrete_Value { Concrete_Type::Bool, Big_Int(lhs.int_value == rhs.int_value) };
         case Expression_Type::not_equals: //
             return Concrete_Value { Concrete_Type::Bool, Big_Int(lhs.int_value != rhs.int_value) };
+        case Expression_Type::shift_left:
+        case Expression_Type::shift_right: {
+            if (Big_Uint(rhs.int_value) >= Big_Uint(lhs.type.width())) {
+                return Evaluation_Error_Code::shift_too_much;
+            }
+            break;
+        }
         default: break;
         }
     }
-- 
2.43.0


From 78b21e52facbefb4c19e107c3bc09fbeb1bf9d21 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:29:44 +0000
Subject: [PATCH 06/84] fix: inspect a known Uint operand without requiring it
 to be an Int

---
 src/bms/evaluation/operations.cpp | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/bms/evaluation/operations.cpp b/src/bms/evaluation/operations.cpp
index e01f80b..bf894ba 100644
--- a/src/bms/evaluation/operations.cpp
+++ b/src/bms/evaluation/operations.cpp
@@ -539,11 +539,12 @@ evaluate_binary_operator(Value lhs, Expression_Type op, Value rhs)
     // illegal no matter what the other operand is, such as division by zero.
     if (rhs) {
         using enum Expression_Type;
-        if ((op == division || op == remainder) && rhs.as_int() == 0) {
+        const Big_Int rhs_int = rhs.concrete_value().int_value;
+        if ((op == division || op == remainder) && rhs_int == 0) {
             return Evaluation_Error_Code::division_by_zero;
         }
         if ((op == shift_left || op == shift_right)
-            && (rhs.as_int() < 0 || rhs.as_int() >= lhs.get_type().width())) {
+            && Big_Uint(rhs_int) >= Big_Uint(lhs.get_type().width())) {
             return Evaluation_Error_Code::shift_too_much;
         }
     }
-- 
2.43.0


From f01c3cbbbe36180df4985010e2237b61b70f7b1b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:29:44 +0000
Subject: [PATCH 07/84] fix: let a known left operand short-circuit && and ||
 with an unknown right operand

---
 src/bms/evaluation/operations.cpp | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/bms/evaluation/operations.cpp b/src/bms/evaluation/operations.cpp
index bf894ba..4c647b1 100644
--- a/src/bms/evaluation/operations.cpp
+++ b/src/bms/evaluation/operations.cpp
@@ -535,6 +535,12 @@ evaluate_binary_operator(Value lhs, Expression_Type op, Value rhs)
         return result_from_concrete(
             evaluate_binary_operator(lhs.concrete_value(), op, rhs.concrete_value()));
     }
+    // A known left operand can decide the result of a logical operator alone.
+    if (lhs
+        && ((op == Expression_Type::logical_and && !lhs.as_bool())
+            || (op == Expression_Type::logical_or && lhs.as_bool()))) {
+        return lhs;
+    }
     // Even if we don't know the values of both operands, there are certain operations which are
     // illegal no matter what the other operand is, such as division by zero.
     if (rhs) {
-- 
2.43.0


From bbda32908be35d85bfcf4467fe405a7d32791a50 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:30:54 +0000
Subject: [PATCH 08/84] fix: lengths of the && and ! tokens

---
 src/bms/util.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/bms/util.cpp b/src/bms/util.cpp
index 187a841..0907d7c 100644
--- a/src/bms/util.cpp
+++ b/src/bms/util.cpp
@@ -232,6 +232,7 @@ namespace bit_manipulation::bms {
     case colon:
     case comma:
     case at:
+    case logical_not:
     case semicolon: return 1;
 
     case equals:
@@ -240,14 +241,13 @@ namespace bit_manipulation::bms {
     case greater_or_equal:
     case shift_left:
     case shift_right:
+    case logical_and:
     case logical_or:
     case right_arrow:
     case double_right_arrow:
     case keyword_as:
     case keyword_if: return 2;
 
-    case logical_and:
-    case logical_not:
     case keyword_let:
     case keyword_int: return 3;
 
-- 
2.43.0


From b068fe240995810b315e91de43a166fce793954b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:30:54 +0000
Subject: [PATCH 09/84] fix: tokenize a block comment at the end of the source

---
 src/bms/tokenization/tokenize.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/bms/tokenization/tokenize.cpp b/src/bms/tokenization/tokenize.cpp
index 3f5cda4..7652100 100644
--- a/src/bms/tokenization/tokenize.cpp
+++ b/src/bms/tokenization/tokenize.cpp
@@ -187,7 +187,7 @@ struct Tokenizer {
 
     void advance_position_by(Size length)
     {
-        BIT_MANIPULATION_ASSERT(pos.begin + length < m_source.length());
+        BIT_MANIPULATION_ASSERT(pos.begin + length <= m_source.length());
         for (Size i = 0; i < length; ++i) {
             switch (m_source[pos.begin]) {
             case '\t': pos.column += 4; break;
-- 
2.43.0


From f7b96dd832d397e261ecc653bf005eb1e31a7b35 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:30:54 +0000
Subject: [PATCH 10/84] fix: track the position across string literals with
 line breaks and tabs

---
 src/bms/tokenization/tokenize.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/bms/tokenization/tokenize.cpp b/src/bms/tokenization/tokenize.cpp
index 7652100..fc51837 100644
--- a/src/bms/tokenization/tokenize.cpp
+++ b/src/bms/tokenization/tokenize.cpp
@@ -226,7 +226,8 @@ Result<void, Tokenize_Error> Tokenizer::tokenize(std::pmr::vector<Token>& out)
         pos.length = result->length;
         out.push_back({ pos, result->type });
 
-        if (result->type != Token_Type::block_comment) {
+        if (result->type != Token_Type::block_comment
+            && result->type != Token_Type::string_literal) {
             // Special case for all tokens that aren't multi-line.
             // We could just advance the position as usual, but it is much cheaper if we know
             // that there are no newline characters anyway.
-- 
2.43.0


From 71f0ae2062d05f3880bd64fd4349455f2525f238 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:30:54 +0000
Subject: [PATCH 11/84] fix: detect every overflow when parsing integer
 literals

---
 src/common/parse.cpp | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/common/parse.cpp b/src/common/parse.cpp
index c6623f4..96c0b5d 100644
--- a/src/common/parse.cpp
+++ b/src/common/parse.cpp
@@ -13,9 +13,11 @@ static_assert(are_hex_digits_ascii);
 
 constexpr bool safe_mul(Big_Uint& x, Big_Uint y)
 {
-    auto old = x;
+    if (y != 0 && x > Big_Uint(-1) / y) {
+        return false;
+    }
     x *= y;
-    return x >= old;
+    return true;
 }
 
 constexpr bool safe_add(Big_Uint& x, Big_Uint y)
-- 
2.43.0


From 4a3598bf72777dca9903ec57c043ef5471d67355 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:30:54 +0000
Subject: [PATCH 12/84] fix: accept upper-case hexadecimal digits in literals

---
 src/common/parse.cpp | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/common/parse.cpp b/src/common/parse.cpp
index 96c0b5d..ad45039 100644
--- a/src/common/parse.cpp
+++ b/src/common/parse.cpp
@@ -74,6 +74,11 @@ constexpr std::optional<Big_Uint> parse_uinteger_digits(std::string_view str, Bi
                 return {};
             }
         }
+        else if (c >= 'A' && c <= 'F') {
+            if (!safe_add(result, Big_Uint(10 + c - 'A'))) {
+                return {};
+            }
+        }
         else {
             return {};
         }
-- 
2.43.0


From 5aa9dac9f7241702dd5075e85596b6ea68895fd5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:30:54 +0000
Subject: [PATCH 13/84] fix: support the >= operator in the analyzed program

---
 src/bms/ast.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/bms/ast.cpp b/src/bms/ast.cpp
index 35c9fba..27f3c3f 100644
--- a/src/bms/ast.cpp
+++ b/src/bms/ast.cpp
@@ -25,6 +25,7 @@ namespace {
     case less_than: return Expression_Type::less_than;
     case greater_than: return Expression_Type::greater_than;
     case less_or_equal: return Expression_Type::less_or_equal;
+    case greater_or_equal: return Expression_Type::greater_or_equal;
     case plus: return Expression_Type::binary_plus;
     case minus: return Expression_Type::binary_minus;
     case multiplication: return Expression_Type::multiplication;
-- 
2.43.0


From 7c2eda7be47007cf074500a46f2e341edda9a78d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:30:54 +0000
Subject: [PATCH 14/84] fix: recognize the @inline annotation by its name

---
 src/bms/util.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/bms/util.cpp b/src/bms/util.cpp
index 0907d7c..017fac2 100644
--- a/src/bms/util.cpp
+++ b/src/bms/util.cpp
@@ -509,7 +509,7 @@ namespace bit_manipulation::bms {
     using enum Annotation_Type;
     switch (type) {
         BIT_MANIPULATION_ENUM_STRING_CASE(immutable);
-        BIT_MANIPULATION_ENUM_STRING_CASE(inline_);
+    case inline_: return "inline";
         BIT_MANIPULATION_ENUM_STRING_CASE(loop_variable);
         BIT_MANIPULATION_ENUM_STRING_CASE(loop_step);
         BIT_MANIPULATION_ENUM_STRING_CASE(unroll);
-- 
2.43.0


From 342070f1b08fd6a451bd2230d654845aca625bf7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:30:54 +0000
Subject: [PATCH 15/84] fix: know the return type of a function while analyzing
 its body

---
 src/bms/analyze.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/bms/analyze.cpp b/src/bms/analyze.cpp
index d969bfc..de45fbd 100644
--- a/src/bms/analyze.cpp
+++ b/src/bms/analyze.cpp
@@ -175,6 +175,8 @@ private:
 
         if (node.analysis_so_far < Analysis_Level::shallow) {
             node.analysis_so_far = Analysis_Level::shallow;
+            // Recursive calls in the body already need to know the return type.
+            node.const_value() = get_const_value(*node.get_return_type_node());
         }
         if (level >= Analysis_Level::full) {
             if (auto r = analyze_types(node.get_body_node(), level, Expression_Context::normal);
-- 
2.43.0


From 40c9d4f9777bf0b920beb7e3b95720d33cf3762d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:30:54 +0000
Subject: [PATCH 16/84] fix: diagnose a failing conversion in a constant
 expression

---
 src/bms/analyze.cpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/bms/analyze.cpp b/src/bms/analyze.cpp
index de45fbd..0645a1e 100644
--- a/src/bms/analyze.cpp
+++ b/src/bms/analyze.cpp
@@ -607,6 +607,9 @@ private:
 
         const Result<Value, Evaluation_Error_Code> eval_result
             = evaluate_conversion(*expression_value, *type);
+        if (!eval_result && context == Expression_Context::constant) {
+            return Analysis_Error_Builder { eval_result.error() }.fail(handle).build();
+        }
 
         node.const_value() = eval_result ? *eval_result : Value::unknown_of_type(*type);
         return {};
-- 
2.43.0


From af6015a43b7413b2f2c9af4903325838d4147e72 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:30:54 +0000
Subject: [PATCH 17/84] fix: diagnose a failing conversion of a selected
 operand in a constant expression

---
 src/bms/analyze.cpp | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/src/bms/analyze.cpp b/src/bms/analyze.cpp
index 0645a1e..3d509f6 100644
--- a/src/bms/analyze.cpp
+++ b/src/bms/analyze.cpp
@@ -661,9 +661,10 @@ private:
         const Result<Value, Evaluation_Error_Code> eval_result
             = evaluate_if_expression(*left_value, *condition_value, *right_value);
 
-        // Type analysis has already succeeded, and for context expressions, the condition is known.
-        // Therefore, it should be impossible for an evaluation to fail.
-        BIT_MANIPULATION_ASSERT(context != Expression_Context::constant || eval_result.has_value());
+        // The selected value may still be impossible to convert to the common type.
+        if (!eval_result && context == Expression_Context::constant) {
+            return Analysis_Error_Builder { eval_result.error() }.fail(handle).build();
+        }
 
         node.const_value() = eval_result ? *eval_result : Value::unknown_of_type(*type_result);
         return {};
-- 
2.43.0


From edd6ceb2689b9eccec47323ed5f3292cf7d852b0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:30:54 +0000
Subject: [PATCH 18/84] fix: allow widths of type Uint

---
 src/bms/analyze.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/bms/analyze.cpp b/src/bms/analyze.cpp
index 3d509f6..de983cc 100644
--- a/src/bms/analyze.cpp
+++ b/src/bms/analyze.cpp
@@ -227,7 +227,7 @@ private:
                 .fail(node.get_width_node())
                 .build();
         }
-        const Big_Int folded_width = width->as_int();
+        const Big_Int folded_width = width->concrete_value().int_value;
         if (folded_width <= 0 || folded_width > uint_max_width) {
             return Analysis_Error_Builder { Analysis_Error_Code::width_invalid }
                 .fail(node.get_width_node())
-- 
2.43.0


From a59a01fb8ff2afbf16fd8dbe0361cdb445fb4cf4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:30:54 +0000
Subject: [PATCH 19/84] fix: convert values to the variable's type on
 initialization and assignment

---
 src/bms/vm/codegen.cpp | 13 +++++++++++++
 1 file changed, 13 insertions(+)

diff --git a/src/bms/vm/codegen.cpp b/src/bms/vm/codegen.cpp
index 90a5e43..5227275 100644
--- a/src/bms/vm/codegen.cpp
+++ b/src/bms/vm/codegen.cpp
@@ -60,6 +60,17 @@ public:
     }
 
 private:
+    /// @brief Converts the value of the expression at the top of the stack to the target type,
+    /// unless it has that type already.
+    void convert_if_necessary(const ast::Some_Node* h,
+                              const ast::Some_Node* expression,
+                              Concrete_Type target)
+    {
+        if (get_const_value(*expression).value().get_type() != target) {
+            out.push_back(ins::Convert { { h }, target });
+        }
+    }
+
     Result<void, Analysis_Error> generate_code(const ast::Some_Node* h)
     {
         BIT_MANIPULATION_ASSERT(h);
@@ -144,6 +155,7 @@ private:
         if (!init) {
             return init;
         }
+        convert_if_necessary(h, node.get_initializer_node(), node.const_value()->get_type());
         out.push_back(ins::Store { { h }, h });
         return init;
     }
@@ -288,6 +300,7 @@ private:
         if (!result) {
             return result;
         }
+        convert_if_necessary(h, node.get_expression_node(), node.const_value()->get_type());
         out.push_back(ins::Store { { h }, to_target(node.lookup_result.value()) });
         return {};
     }
-- 
2.43.0


From 9a064310b865472579d6900ac72deeb4c572afd0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:30:54 +0000
Subject: [PATCH 20/84] fix: convert the selected operand of a conditional
 expression to the common type

---
 src/bms/vm/codegen.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/bms/vm/codegen.cpp b/src/bms/vm/codegen.cpp
index 5227275..53de7e8 100644
--- a/src/bms/vm/codegen.cpp
+++ b/src/bms/vm/codegen.cpp
@@ -365,6 +365,7 @@ private:
             restore();
             return left;
         }
+        convert_if_necessary(h, node.get_left_node(), node.const_value()->get_type());
         get<ins::Relative_Jump_If>(out[blank_jump_to_right_index]).offset
             = Signed_Size(out.size() - size_before_left + 1);
 
@@ -376,6 +377,7 @@ private:
             restore();
             return right;
         }
+        convert_if_necessary(h, node.get_right_node(), node.const_value()->get_type());
         get<ins::Relative_Jump>(out[blank_jump_past_right_index]).offset
             = Signed_Size(out.size() - size_before_right);
 
-- 
2.43.0


From 91f2479ee298e67c57e8f2cc656037385fc97ffb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:31:40 +0000
Subject: [PATCH 21/84] fix: check the bounds of the jumps and calls that are
 taken, in both directions

---
 src/bms/vm/vm.cpp | 21 +++++++++++----------
 1 file changed, 11 insertions(+), 10 deletions(-)

diff --git a/src/bms/vm/vm.cpp b/src/bms/vm/vm.cpp
index d8c66c3..bcec740 100644
--- a/src/bms/vm/vm.cpp
+++ b/src/bms/vm/vm.cpp
@@ -59,12 +59,11 @@ struct Cycle_Impl {
 
     Result<void, Execution_Error> operator()(const ins::Relative_Jump& jump)
     {
-        if (Signed_Size(self.m_instruction_counter) + jump.offset + 1
-            >= Signed_Size(self.m_instructions.size())) {
+        const Signed_Size target = Signed_Size(self.m_instruction_counter) + jump.offset + 1;
+        if (target < 0 || target >= Signed_Size(self.m_instructions.size())) {
             return Execution_Error { Execution_Error_Code::jump_out_of_program, jump.debug_info };
         }
-        self.m_instruction_counter
-            = Size(Signed_Size(self.m_instruction_counter) + jump.offset + 1);
+        self.m_instruction_counter = Size(target);
         return {};
     }
 
@@ -78,14 +77,16 @@ struct Cycle_Impl {
         if (actual.type != Concrete_Type::Bool) {
             return Execution_Error { Execution_Error_Code::jump_if_not_bool, jump_if.debug_info };
         }
-        if (Signed_Size(self.m_instruction_counter) + jump_if.offset + 1
-            >= Signed_Size(self.m_instructions.size())) {
+        if (jump_if.expected != bool(actual.int_value)) {
+            ++self.m_instruction_counter;
+            return {};
+        }
+        const Signed_Size target = Signed_Size(self.m_instruction_counter) + jump_if.offset + 1;
+        if (target < 0 || target >= Signed_Size(self.m_instructions.size())) {
             return Execution_Error { Execution_Error_Code::jump_out_of_program,
                                      jump_if.debug_info };
         }
-        self.m_instruction_counter
-            = Size(Signed_Size(self.m_instruction_counter + 1)
-                   + (jump_if.expected == bool(actual.int_value) ? jump_if.offset : 0));
+        self.m_instruction_counter = Size(target);
         return {};
     }
 
@@ -162,7 +163,7 @@ struct Cycle_Impl {
 
     Result<void, Execution_Error> operator()(const ins::Call& call)
     {
-        if (call.address > self.m_instructions.size()) {
+        if (call.address >= self.m_instructions.size()) {
             return Execution_Error { Execution_Error_Code::call_out_of_program, call.debug_info };
         }
         const auto return_address = Concrete_Value::Int(Big_Int(self.m_instruction_counter + 1));
-- 
2.43.0


From d36633f097405228a288172782eca8e92a839283 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:31:40 +0000
Subject: [PATCH 22/84] fix: forget the compared values of an assertion that
 has passed

---
 src/bms/vm/vm.cpp | 1 +
 src/bms/vm/vm.hpp | 1 +
 2 files changed, 2 insertions(+)

diff --git a/src/bms/vm/vm.cpp b/src/bms/vm/vm.cpp
index bcec740..c9cb54a 100644
--- a/src/bms/vm/vm.cpp
+++ b/src/bms/vm/vm.cpp
@@ -189,6 +189,7 @@ struct Cycle_Impl {
             error.comparison_failure = self.m_comparison_failure_for_assert;
             return error;
         }
+        self.m_comparison_failure_for_assert.reset();
         self.m_stack.resize(self.m_stack.size() - params);
         self.m_stack.push_back(*result);
         ++self.m_instruction_counter;
diff --git a/src/bms/vm/vm.hpp b/src/bms/vm/vm.hpp
index 9b01e80..2497b6f 100644
--- a/src/bms/vm/vm.hpp
+++ b/src/bms/vm/vm.hpp
@@ -97,6 +97,7 @@ public:
         m_function_frame_stack.clear();
         m_stack.clear();
         m_instruction_counter = 0;
+        m_comparison_failure_for_assert.reset();
     }
 
     void clear()
-- 
2.43.0


From 745097da8b581bf06f67af504b7f066b30047fb8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:31:40 +0000
Subject: [PATCH 23/84] fix: stop with an execution error at the end of a
 function that lacks a return

---
 src/bms/vm/codegen.cpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/bms/vm/codegen.cpp b/src/bms/vm/codegen.cpp
index 53de7e8..d87f76e 100644
--- a/src/bms/vm/codegen.cpp
+++ b/src/bms/vm/codegen.cpp
@@ -109,6 +109,10 @@ private:
         }
 
         if (return_type.get_type() != Type_Type::Void) {
+            // If control reaches the end of the function, there is no value to return.
+            // This must not run into the code of whatever function comes next.
+            out.push_back(ins::Load { { h }, h });
+            out.push_back(ins::Return { { h } });
             return {};
         }
 
-- 
2.43.0


From 51d1c819d9771b354ab45704c5a4258b006ddf1b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:49:28 +0000
Subject: [PATCH 24/84] fix: parse expressions deterministically, without
 scanning ahead for comparisons

---
 src/bms/parsing/parse.cpp | 160 +++++++++++++-------------------------
 1 file changed, 52 insertions(+), 108 deletions(-)

diff --git a/src/bms/parsing/parse.cpp b/src/bms/parsing/parse.cpp
index 39485bd..787f602 100644
--- a/src/bms/parsing/parse.cpp
+++ b/src/bms/parsing/parse.cpp
@@ -487,32 +487,6 @@ private:
 
     using Rule_Result = Result<astp::Some_Node, Rule_Error>;
 
-    struct Scoped_Attempt {
-        Parser& self;
-        const Size pos;
-        const Size node_count;
-
-        explicit Scoped_Attempt(Parser& self)
-            : self(self)
-            , pos(self.m_pos)
-            , node_count(self.m_program.get_node_count())
-        {
-        }
-
-        ~Scoped_Attempt() noexcept(false)
-        {
-            BIT_MANIPULATION_ASSERT(self.m_pos >= pos);
-            BIT_MANIPULATION_ASSERT(self.m_program.get_node_count() >= node_count);
-            self.m_pos = pos;
-            self.m_program.downsize_nodes(node_count);
-        }
-    };
-
-    Scoped_Attempt start_attempt()
-    {
-        return Scoped_Attempt { *this };
-    }
-
     [[maybe_unused]] Result<std::optional<astp::Some_Node>, Rule_Error>
     optionally_match(Rule_Result (Parser::*match)(), bool condition)
     {
@@ -1178,22 +1152,19 @@ private:
 
     Rule_Result match_expression()
     {
-        bool is_conversion_expression = [&]() {
-            Scoped_Attempt always_roll_back = start_attempt();
-            return match_prefix_expression() && peek(Token_Type::keyword_as);
-        }();
-
-        return is_conversion_expression ? match_conversion_expression() //
-                                        : match_if_expression();
+        auto prefix = match_prefix_expression();
+        if (!prefix) {
+            return prefix;
+        }
+        // Both conversion expressions and if expressions start with a prefix expression,
+        // so the decision can be deferred until we know what comes after.
+        return peek(Token_Type::keyword_as) ? match_conversion_expression_after(std::move(*prefix))
+                                            : match_if_expression_after(std::move(*prefix));
     }
 
-    Rule_Result match_conversion_expression()
+    Rule_Result match_conversion_expression_after(astp::Some_Node&& expression)
     {
         constexpr auto this_rule = Grammar_Rule::conversion_expression;
-        auto expression = match_prefix_expression();
-        if (!expression) {
-            return expression;
-        }
         if (!expect(Token_Type::keyword_as)) {
             return Rule_Error { this_rule, const_array_one_v<Token_Type::keyword_as> };
         }
@@ -1201,15 +1172,26 @@ private:
         if (!type) {
             return type;
         }
+        const auto pos = get_source_position(expression);
         return astp::Some_Node { astp::Conversion_Expression {
-            get_source_position(*expression), m_program.push_node(std::move(*expression)),
+            pos, m_program.push_node(std::move(expression)),
             m_program.push_node(std::move(*type)) } };
     }
 
     Rule_Result match_if_expression()
+    {
+        auto prefix = match_prefix_expression();
+        if (!prefix) {
+            return prefix;
+        }
+        return match_if_expression_after(std::move(*prefix));
+    }
+
+    /// @brief Matches the remainder of an if expression after its first prefix expression.
+    Rule_Result match_if_expression_after(astp::Some_Node&& prefix)
     {
         constexpr auto this_rule = Grammar_Rule::if_expression;
-        auto left = match_binary_expression();
+        auto left = match_binary_expression_after(std::move(prefix));
         if (!left || !expect(Token_Type::keyword_if)) {
             return left;
         }
@@ -1224,33 +1206,47 @@ private:
         if (!right) {
             return right;
         }
+        const auto pos = get_source_position(*left);
         return astp::Some_Node { astp::If_Expression {
-            get_source_position(*left), m_program.push_node(std::move(*left)),
-            m_program.push_node(std::move(*condition)), m_program.push_node(std::move(*right)) } };
+            pos, m_program.push_node(std::move(*left)), m_program.push_node(std::move(*condition)),
+            m_program.push_node(std::move(*right)) } };
     }
 
     Rule_Result match_binary_expression()
     {
-        // FIXME: use a similar roll_back_after approach to match_conversion_expression
-        if (should_binary_expression_commit_to_comparison_expression()) {
-            return match_comparison_expression();
+        auto prefix = match_prefix_expression();
+        if (!prefix) {
+            return prefix;
         }
+        return match_binary_expression_after(std::move(*prefix));
+    }
 
-        auto left = match_prefix_expression();
-        if (!left) {
-            return left;
-        }
+    /// @brief Matches the remainder of a binary expression after its first prefix expression.
+    ///
+    /// If the first operator is an arithmetic operator, we may have only seen the left operand of
+    /// a comparison, such as in `a + b == c`.
+    Rule_Result match_binary_expression_after(astp::Some_Node&& left)
+    {
         const Token* op = expect(is_binary_operator);
         if (!op) {
-            return left;
+            return std::move(left);
+        }
+        if (is_comparison_operator(op->type)) {
+            return match_comparison_expression_after(std::move(left), *op);
         }
         auto right = match_prefix_expression();
         if (!right) {
             return right;
         }
-        return astp::Some_Node { astp::Binary_Expression {
-            op->pos, m_program.push_node(std::move(*left)), m_program.push_node(std::move(*right)),
-            op->type } };
+        astp::Some_Node result
+            = astp::Binary_Expression { op->pos, m_program.push_node(std::move(left)),
+                                        m_program.push_node(std::move(*right)), op->type };
+        if (is_arithmetic_operator(op->type)) {
+            if (const Token* comparison_op = expect(is_comparison_operator)) {
+                return match_comparison_expression_after(std::move(result), *comparison_op);
+            }
+        }
+        return result;
     }
 
 #if BIT_MANIPULATION_ENABLE_EXPERIMENTAL_PARSING
@@ -1309,67 +1305,15 @@ private:
     }
 #endif
 
-    /// @brief An arbitrary look-ahead member function which tells us whether we should commit
-    /// to matching a comparison expression when matching a binary expression.
-    ///
-    /// Consider for example that if we are parsing `(0) == 3`, we can already tell that this
-    /// needs to be a comparison expression based on the following `==`.
-    /// However, identifying this situation is not as simple as looking at the next token due to
-    /// arbitrary amounts of parentheses.
-    ///
-    /// This approach is a bit unusual, but makes sense for BMS specifically.
-    /// Thanks to this test, our parser is completely deterministic and we can avoid more complex
-    /// expression parsing approach.
-    /// @return `true` if we should commit, `false` otherwise.
-    bool should_binary_expression_commit_to_comparison_expression() const
+    Rule_Result match_comparison_expression_after(astp::Some_Node&& left, const Token& op)
     {
-        Size parenthesis_level = 0;
-        for (Size i = m_pos; i < m_tokens.size(); ++i) {
-            switch (m_tokens[i].type) {
-            case Token_Type::left_brace:
-            case Token_Type::right_brace:
-            case Token_Type::semicolon: return false;
-
-            case Token_Type::left_parenthesis: ++parenthesis_level; break;
-            case Token_Type::right_parenthesis: --parenthesis_level; break;
-
-            default:
-                if (parenthesis_level != 0) {
-                    continue;
-                }
-                if (m_tokens[i].type == Token_Type::keyword_if) {
-                    return false;
-                }
-                if (is_comparison_operator(m_tokens[i].type)) {
-                    return true;
-                }
-            }
-        }
-        return false;
-    }
-
-    Rule_Result match_comparison_expression()
-    {
-        constexpr auto this_rule = Grammar_Rule::comparison_expression;
-        static constexpr Token_Type expected[]
-            = { Token_Type::equals,       Token_Type::not_equals,    Token_Type::less_than,
-                Token_Type::greater_than, Token_Type::less_or_equal, Token_Type::greater_or_equal };
-
-        auto left = match_arithmetic_expression();
-        if (!left) {
-            return left;
-        }
-        const Token* op = expect(is_comparison_operator);
-        if (!op) {
-            return Rule_Error { this_rule, expected };
-        }
         auto right = match_arithmetic_expression();
         if (!right) {
             return right;
         }
         return astp::Some_Node { astp::Binary_Expression {
-            op->pos, m_program.push_node(std::move(*left)), m_program.push_node(std::move(*right)),
-            op->type } };
+            op.pos, m_program.push_node(std::move(left)), m_program.push_node(std::move(*right)),
+            op.type } };
     }
 
     Rule_Result match_arithmetic_expression()
-- 
2.43.0


From a422256053d3d7b305cfdbec89a00cec32faa9db Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:49:28 +0000
Subject: [PATCH 25/84] fix: require commas between the arguments of a call

---
 src/bms/parsing/parse.cpp | 19 ++++++++++---------
 1 file changed, 10 insertions(+), 9 deletions(-)

diff --git a/src/bms/parsing/parse.cpp b/src/bms/parsing/parse.cpp
index 787f602..bd7d373 100644
--- a/src/bms/parsing/parse.cpp
+++ b/src/bms/parsing/parse.cpp
@@ -1371,16 +1371,17 @@ private:
         }
 
         std::pmr::vector<astp::Handle> arguments(m_program.get_memory());
-        for (bool demand_expression = false; true;) {
-            if (!demand_expression && expect(Token_Type::right_parenthesis)) {
-                break;
-            }
-            auto arg = match_expression();
-            if (!arg) {
-                return arg;
+        if (!expect(Token_Type::right_parenthesis)) {
+            do {
+                auto arg = match_expression();
+                if (!arg) {
+                    return arg;
+                }
+                arguments.push_back(m_program.push_node(std::move(*arg)));
+            } while (expect(Token_Type::comma));
+            if (!expect(Token_Type::right_parenthesis)) {
+                return Rule_Error { this_rule, const_array_one_v<Token_Type::right_parenthesis> };
             }
-            arguments.push_back(m_program.push_node(std::move(*arg)));
-            demand_expression = expect(Token_Type::comma);
         }
 
         auto annotations
-- 
2.43.0


From 1b5c376d26ba84255dfb2f65f17cca472ec51636 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:49:28 +0000
Subject: [PATCH 26/84] fix: refuse string literals outside of annotations, as
 the grammar says

---
 src/bms/parsing/parse.cpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/bms/parsing/parse.cpp b/src/bms/parsing/parse.cpp
index bd7d373..97d2ec0 100644
--- a/src/bms/parsing/parse.cpp
+++ b/src/bms/parsing/parse.cpp
@@ -1404,7 +1404,9 @@ private:
                 Token_Type::decimal_literal, Token_Type::hexadecimal_literal,
                 Token_Type::identifier,      Token_Type::left_parenthesis };
 
-        if (const Token* t = expect(is_literal)) {
+        if (const Token* t = expect([](Token_Type type) {
+                return is_literal(type) && type != Token_Type::string_literal;
+            })) {
             return astp::Some_Node { astp::Literal { t->pos, m_program.extract(t->pos), t->type } };
         }
         if (const Token* t = expect(Token_Type::identifier)) {
-- 
2.43.0


From 27b4ce7017e613bd1b8e0776cdc51b6cd6b05adc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:49:28 +0000
Subject: [PATCH 27/84] fix: report syntax errors in the arguments of an
 annotation

---
 src/bms/parsing/parse.cpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/bms/parsing/parse.cpp b/src/bms/parsing/parse.cpp
index 97d2ec0..2180784 100644
--- a/src/bms/parsing/parse.cpp
+++ b/src/bms/parsing/parse.cpp
@@ -833,6 +833,9 @@ private:
             }
             return r;
         }();
+        if (!arguments) {
+            return arguments.error();
+        }
         return astp::Some_Node { astp::Annotation { at->pos, m_program.extract(id->pos),
                                                     std::move(*arguments) } };
     }
-- 
2.43.0


From 2c3726783133a71fca2fdf1ef4b23ac0d8d09427 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:53:06 +0000
Subject: [PATCH 28/84] fix: instantiate functions that refer to parameters,
 variables, and other declarations

---
 src/bms/instantiate.cpp | 18 +++++++++++++++---
 1 file changed, 15 insertions(+), 3 deletions(-)

diff --git a/src/bms/instantiate.cpp b/src/bms/instantiate.cpp
index e8b3ec4..4368c5d 100644
--- a/src/bms/instantiate.cpp
+++ b/src/bms/instantiate.cpp
@@ -112,6 +112,7 @@ private:
         // This is done in a second pass, since cloning a cyclic graph in one go is difficult.
 
         m_remap.clear();
+        m_parameter_remap.clear();
         ast::Some_Node* const result = deep_copy_for_instantiation(h);
         deep_update_name_lookup(result);
 
@@ -154,7 +155,9 @@ private:
         m_remap.emplace(h, result);
         for (ast::Some_Node*& child : get_children(*result)) {
             child = deep_copy_for_instantiation(child);
-            set_parent(*child, *result);
+            if (child) {
+                set_parent(*child, *result);
+            }
         }
         return result;
     }
@@ -186,14 +189,22 @@ private:
 
         void operator()(Builtin_Function) const { }
 
+        // Only nodes within the function are copied, so when a global constant or another function
+        // was looked up, the instance keeps referring to the original.
+
         void operator()(const ast::Some_Node* looked_up_node)
         {
-            target = self.m_remap.at(looked_up_node);
+            if (auto it = self.m_remap.find(looked_up_node); it != self.m_remap.end()) {
+                target = it->second;
+            }
         }
 
         void operator()(const Parameter* looked_up_parameter)
         {
-            target = self.m_parameter_remap.at(looked_up_parameter);
+            if (auto it = self.m_parameter_remap.find(looked_up_parameter);
+                it != self.m_parameter_remap.end()) {
+                target = it->second;
+            }
         }
     };
 
@@ -203,6 +214,7 @@ private:
         void operator()(ast::Id_Expression& n) const
         {
             BIT_MANIPULATION_ASSERT(n.bit_generic || n.lookup_result);
+            visit(Remap_Lookup_Result { self, n.lookup_result }, n.lookup_result);
         }
         template <Lookup_Performing_Node T>
         void operator()(T& n)
-- 
2.43.0


From 1b0c59d77c6c5f07801652a6d4fedfff0288c758 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:53:06 +0000
Subject: [PATCH 29/84] fix: let instantiate_all skip functions that are not
 generic

---
 src/bms/instantiate.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/bms/instantiate.cpp b/src/bms/instantiate.cpp
index 4368c5d..8ecf90f 100644
--- a/src/bms/instantiate.cpp
+++ b/src/bms/instantiate.cpp
@@ -40,7 +40,7 @@ public:
     Result<void, Analysis_Error> instantiate_all(const Widths& w)
     {
         for (ast::Some_Node* decl : get_children(*m_program.get_root())) {
-            if (auto* f = get_if<ast::Function>(decl)) {
+            if (auto* f = get_if<ast::Function>(decl); f && f->is_generic) {
                 auto r = instantiate_function(decl, *f, w);
                 if (!r) {
                     return r.error();
-- 
2.43.0


From d23fc36dc0acf585ca48d0223932ae9c31622684 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:53:06 +0000
Subject: [PATCH 30/84] fix: analyze the bodies of all instances of bit-generic
 functions

---
 src/bms/analyze.cpp | 30 ++++++++++++++++++++++++++++--
 1 file changed, 28 insertions(+), 2 deletions(-)

diff --git a/src/bms/analyze.cpp b/src/bms/analyze.cpp
index de983cc..c58ebdb 100644
--- a/src/bms/analyze.cpp
+++ b/src/bms/analyze.cpp
@@ -98,10 +98,34 @@ private:
                 return r;
             }
         }
+        // Bit-generic functions may have been instantiated after their declaration was visited.
+        for (Size instances = 0; instances != get_instance_count(node);) {
+            instances = get_instance_count(node);
+            for (ast::Some_Node* h : node.get_children()) {
+                auto* const function = get_if<ast::Function>(h);
+                if (!function || !function->is_generic) {
+                    continue;
+                }
+                if (auto r = analyze_types(h, *function, level, Expression_Context::normal); !r) {
+                    return r;
+                }
+            }
+        }
         node.const_value() = Value::Void;
         return {};
     }
 
+    [[nodiscard]] static Size get_instance_count(const ast::Program& program)
+    {
+        Size result = 0;
+        for (const ast::Some_Node* h : program.get_children()) {
+            if (const auto* const function = get_if<ast::Function>(h)) {
+                result += function->instances.size();
+            }
+        }
+        return result;
+    }
+
     Result<void, Analysis_Error> analyze_types(ast::Some_Node* handle,
                                                ast::Function& node,
                                                Analysis_Level level,
@@ -117,8 +141,10 @@ private:
         // new implicit instantiations may have been generated in the meantime.
         // For concrete functions, we can memoize the result of type analysis.
         if (node.is_generic) {
-            for (const ast::Function::Instance& instance : node.instances) {
-                auto r = analyze_types(instance.handle, level, Expression_Context::normal);
+            // The analysis of one instance may create more instances of the same function.
+            for (Size i = 0; i < node.instances.size(); ++i) {
+                auto r
+                    = analyze_types(node.instances[i].handle, level, Expression_Context::normal);
                 if (!r) {
                     return r;
                 }
-- 
2.43.0


From 92d1d330ad6c3f7d454f37a13f9ff46b4fb9167e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:53:06 +0000
Subject: [PATCH 31/84] fix: report undefined functions in the width of a
 parameter

---
 src/bms/analyze_name_lookup.cpp | 2 --
 1 file changed, 2 deletions(-)

diff --git a/src/bms/analyze_name_lookup.cpp b/src/bms/analyze_name_lookup.cpp
index 37ca9ff..d712379 100644
--- a/src/bms/analyze_name_lookup.cpp
+++ b/src/bms/analyze_name_lookup.cpp
@@ -203,8 +203,6 @@ private:
             return {};
         }
         if (auto r = analyze_symbols_local(g, table); !r) {
-            BIT_MANIPULATION_ASSERT(r.error().code()
-                                    == Analysis_Error_Code::reference_to_undefined_variable);
             if (auto* id = get_if<ast::Id_Expression>(g)) {
                 // TODO: now that lookup results can be more than just an AST node,
                 //       we can get rid of this dirty hack and properly emplace a lookup result
-- 
2.43.0


From 9135bd1cde9487e24471263d6bc123a3fef280a4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:53:06 +0000
Subject: [PATCH 32/84] fix: report calls to a parameter

---
 src/bms/analyze.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/bms/analyze.cpp b/src/bms/analyze.cpp
index c58ebdb..616f863 100644
--- a/src/bms/analyze.cpp
+++ b/src/bms/analyze.cpp
@@ -835,7 +835,7 @@ private:
         if (!function) {
             return Analysis_Error_Builder { Analysis_Error_Code::call_non_function }
                 .fail(handle)
-                .cause(*looked_up_node)
+                .cause(*node.lookup_result)
                 .build();
         }
 
-- 
2.43.0


From bedd99349fcead354b83fc8dd7adf86323bcfe0e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:53:06 +0000
Subject: [PATCH 33/84] fix: report assignments to widths, and builtin
 functions used as variables

---
 src/bms/analyze.cpp | 16 +++++++++++++++-
 1 file changed, 15 insertions(+), 1 deletion(-)

diff --git a/src/bms/analyze.cpp b/src/bms/analyze.cpp
index 616f863..9e1cf70 100644
--- a/src/bms/analyze.cpp
+++ b/src/bms/analyze.cpp
@@ -547,6 +547,12 @@ private:
                 .cause(*node.lookup_result)
                 .build();
         }
+        if (holds_alternative<Builtin_Function>(node.lookup_result)) {
+            return Analysis_Error_Builder { Analysis_Error_Code::assigning_function }
+                .fail(handle)
+                .cause(*node.lookup_result)
+                .build();
+        }
         ast::Some_Node* looked_up_node = get<ast::Some_Node*>(node.lookup_result);
         if (holds_alternative<ast::Function>(*looked_up_node)) {
             return Analysis_Error_Builder { Analysis_Error_Code::assigning_function }
@@ -555,7 +561,9 @@ private:
                 .build();
         }
 
-        if (holds_alternative<ast::Const>(*looked_up_node)) {
+        // The width of a bit-generic parameter is also a constant.
+        if (holds_alternative<ast::Const>(*looked_up_node)
+            || holds_alternative<ast::Id_Expression>(*looked_up_node)) {
             return Analysis_Error_Builder { Analysis_Error_Code::assigning_const }
                 .fail(handle)
                 .cause(looked_up_node)
@@ -1034,6 +1042,12 @@ private:
             node.const_value() = (*parameter)->get_type().const_value();
             return {};
         }
+        if (holds_alternative<Builtin_Function>(node.lookup_result)) {
+            return Analysis_Error_Builder { Analysis_Error_Code::function_in_expression }
+                .fail(handle)
+                .cause(node.lookup_result.value())
+                .build();
+        }
         auto looked_up_node = get<ast::Some_Node*>(node.lookup_result);
         return analyze_types_for_id_looking_up_node(handle, node, looked_up_node, level, context);
     }
-- 
2.43.0


From c761ec74562f36045b6874ab87d4eaa82729eaa4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:53:06 +0000
Subject: [PATCH 34/84] fix: diagnose functions whose signature depends on a
 call to themselves

---
 src/bms/analyze.cpp | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/src/bms/analyze.cpp b/src/bms/analyze.cpp
index 9e1cf70..90c3d20 100644
--- a/src/bms/analyze.cpp
+++ b/src/bms/analyze.cpp
@@ -152,6 +152,7 @@ private:
             return {};
         }
         BIT_MANIPULATION_ASSERT(node.instances.empty());
+        auto scope = push_function(&node);
 
         for (Parameter& parameter : node.get_parameters()) {
             auto r = analyze_types(parameter.get_type_node(), parameter.get_type(), level,
@@ -165,8 +166,6 @@ private:
             !r) {
             return r;
         }
-        auto scope = push_function(&node);
-
         if (node.get_requires_clause_node() != nullptr) {
             auto& expr_const_value = get_const_value(*node.get_requires_clause_node());
             // Expressions in requires-clauses don't need to be checked twice, but we have to
@@ -929,7 +928,10 @@ private:
 
         // TODO: instead of a stack, we could also use a bool for functions and constants
         //       or simply all nodes, and track whether they are under analysis
-        if (inner_level == Analysis_Level::for_constant_evaluation) {
+        //      The same applies to any call within the types or the requires-clause of a function,
+        //      to the function itself.
+        if (inner_level == Analysis_Level::for_constant_evaluation
+            || function->analysis_so_far == Analysis_Level::unanalyzed) {
             for (const ast::Function* info : m_function_stack) {
                 if (function == info) {
                     // TODO: this should probably use a different diagnostic or the diagnostic
-- 
2.43.0


From 011b3badf0a6c0c0c993a35d88eabb6af636e4d3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:53:06 +0000
Subject: [PATCH 35/84] fix: keep the kind of an execution error in the
 analysis error

---
 src/bms/analysis_error.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/bms/analysis_error.hpp b/src/bms/analysis_error.hpp
index d532806..88b7c3e 100644
--- a/src/bms/analysis_error.hpp
+++ b/src/bms/analysis_error.hpp
@@ -332,7 +332,7 @@ public:
             m_code.evaluation = error.evaluation_error;
         }
         else {
-            m_code = Analysis_Error_Code::execution_error;
+            m_code = error.code;
         }
         if (error.comparison_failure) {
             m_extras = *error.comparison_failure;
-- 
2.43.0


From df7d97d483565c0df937881cc49423c14dddfe02 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:58:20 +0000
Subject: [PATCH 36/84] fix: let assertions fail only when they are evaluated,
 and report the compared values

---
 src/bms/analyze.cpp    | 20 ++++++++++++--------
 src/bms/vm/codegen.cpp | 23 ++++++++++++++++++++++-
 2 files changed, 34 insertions(+), 9 deletions(-)

diff --git a/src/bms/analyze.cpp b/src/bms/analyze.cpp
index 90c3d20..f60da43 100644
--- a/src/bms/analyze.cpp
+++ b/src/bms/analyze.cpp
@@ -822,15 +822,19 @@ private:
                     .build();
             }
             auto eval_result = evaluate_builtin_function(*builtin, arg_values);
-            if (!eval_result) {
-                return Analysis_Error_Builder { eval_result.error() }
-                    .fail(handle)
-                    .cause(*builtin)
-                    .build();
+            // Like for operators, an evaluation that fails outside of constant expressions is not
+            // an error because it is unknown whether it ever takes place.
+            if (!eval_result && context == Expression_Context::constant) {
+                Analysis_Error_Builder error { eval_result.error() };
+                error.fail(handle).cause(*builtin);
+                if (const auto* const comparison
+                    = get_if<ast::Binary_Expression>(node.get_argument_node(0));
+                    comparison && is_comparison_operator(comparison->get_op())) {
+                    error.comparison_failure(comparison_failure_of(*comparison));
+                }
+                return error.build();
             }
-            BIT_MANIPULATION_ASSERT(context != Expression_Context::constant
-                                    || eval_result.has_value());
-            node.const_value() = *eval_result;
+            node.const_value() = eval_result ? *eval_result : Value::unknown_of_type(*type_result);
             return {};
         }
 
diff --git a/src/bms/vm/codegen.cpp b/src/bms/vm/codegen.cpp
index d87f76e..b956f0c 100644
--- a/src/bms/vm/codegen.cpp
+++ b/src/bms/vm/codegen.cpp
@@ -466,6 +466,27 @@ private:
         return {};
     }
 
+    /// @brief Generates code for an argument.
+    /// Comparisons in assertions are not constant-folded, so that the compared values can be
+    /// reported when the assertion fails.
+    Result<void, Analysis_Error> generate_argument(const ast::Function_Call_Expression& call,
+                                                   const ast::Some_Node* argument)
+    {
+        const auto* const comparison = get_if<ast::Binary_Expression>(argument);
+        if (!holds_alternative<Builtin_Function>(call.lookup_result) || !comparison
+            || !is_comparison_operator(comparison->get_op())) {
+            return generate_code(argument);
+        }
+        if (auto left = generate_code(comparison->get_left_node()); !left) {
+            return left;
+        }
+        if (auto right = generate_code(comparison->get_right_node()); !right) {
+            return right;
+        }
+        out.push_back(ins::Binary_Operate { { argument }, comparison->get_expression_type() });
+        return {};
+    }
+
     Result<void, Analysis_Error> generate_code(const ast::Some_Node* h,
                                                const ast::Function_Call_Expression& node)
     {
@@ -481,7 +502,7 @@ private:
         const std::span<const ast::Some_Node* const> arguments = node.get_children();
 
         for (Size i = 0; i < arguments.size(); ++i) {
-            auto arg_code = generate_code(arguments[i]);
+            auto arg_code = generate_argument(node, arguments[i]);
             if (!arg_code) {
                 BIT_MANIPULATION_ASSERT(restore_size <= out.size());
                 out.resize(restore_size);
-- 
2.43.0


From 74868715725d2630aa334273806ff9d32679746b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:04:10 +0000
Subject: [PATCH 37/84] fix: return the right children of constants in the
 parsed program

---
 src/bms/parsing/astp.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/bms/parsing/astp.hpp b/src/bms/parsing/astp.hpp
index 22258ab..2c1c1e9 100644
--- a/src/bms/parsing/astp.hpp
+++ b/src/bms/parsing/astp.hpp
@@ -181,11 +181,11 @@ struct Const final : detail::Node_Base, detail::Parent<3> {
     }
     Handle get_type() const
     {
-        return children[0];
+        return children[1];
     }
     Handle get_initializer() const
     {
-        return children[1];
+        return children[2];
     }
 };
 
-- 
2.43.0


From bdb3e990105704d42846f43aa32a051b5e191ce6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:09:30 +0000
Subject: [PATCH 38/84] fix: accept annotations of an if statement behind else,
 as the grammar says

---
 src/bms/parsing/parse.cpp | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/src/bms/parsing/parse.cpp b/src/bms/parsing/parse.cpp
index 2180784..04f846f 100644
--- a/src/bms/parsing/parse.cpp
+++ b/src/bms/parsing/parse.cpp
@@ -1106,6 +1106,13 @@ private:
         if (!first) {
             return Rule_Error { this_rule, const_array_one_v<Token_Type::keyword_else> };
         }
+        if (peek(Token_Type::at)) {
+            auto annotations = match_annotation_sequence();
+            if (!annotations) {
+                return annotations;
+            }
+            return match_if_statement(&*annotations);
+        }
         return peek(Token_Type::keyword_if) ? match_if_statement() : match_block_statement();
     }
 
-- 
2.43.0


From 15afed37803704cbe55912efc6b127a7b3b2b04a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:33:54 +0000
Subject: [PATCH 39/84] fix: deduce widths of functions that have parameters
 without width

---
 src/bms/analyze.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/bms/analyze.cpp b/src/bms/analyze.cpp
index f60da43..003f7d8 100644
--- a/src/bms/analyze.cpp
+++ b/src/bms/analyze.cpp
@@ -876,7 +876,7 @@ private:
                 const ast::Type& type = possibly_generic_params[i].get_type();
                 // If this function is generic, parameter types wouldn't have undergone analysis.
                 BIT_MANIPULATION_ASSERT(!type.const_value());
-                if (type.concrete_width) {
+                if (type.concrete_width || type.get_width_node() == nullptr) {
                     continue;
                 }
                 const auto* gen_expr = get_if<ast::Id_Expression>(type.get_width_node());
-- 
2.43.0


From 62584d7ec7d991b0154f67c4345ee7b51193b475 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:36:34 +0000
Subject: [PATCH 40/84] fix: do not refer to the types of temporary values in
 builtin function calls

---
 src/bms/evaluation/operations.cpp | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/bms/evaluation/operations.cpp b/src/bms/evaluation/operations.cpp
index 4c647b1..030ad2a 100644
--- a/src/bms/evaluation/operations.cpp
+++ b/src/bms/evaluation/operations.cpp
@@ -121,8 +121,9 @@ unsafe_evaluate_builtin_function_impl(Builtin_Function f, Iter begin, Iter end)
     static_assert(std::random_access_iterator<Iter>);
     static_assert(std::same_as<std::iter_value_t<Iter>, Concrete_Value>);
 
-    const auto types
-        = std::ranges::subrange(begin, end) | std::views::transform(&Concrete_Value::type);
+    // The iterators may yield prvalues, so the types must not be references into them.
+    const auto types = std::ranges::subrange(begin, end)
+        | std::views::transform([](const Concrete_Value& v) { return v.type; });
 
     Result<Concrete_Type, Analysis_Error_Code> type_result = check_builtin_function_impl(f, types);
     if (!type_result) {
-- 
2.43.0


From 0883734a7039f014e96052084ef309dad54780f8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:30:25 +0000
Subject: [PATCH 41/84] fix: let the markup parser read a comment opener at the
 end of a document

---
 src/bmd/parsing/parse.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/bmd/parsing/parse.cpp b/src/bmd/parsing/parse.cpp
index 6bf8184..0d3a1bc 100644
--- a/src/bmd/parsing/parse.cpp
+++ b/src/bmd/parsing/parse.cpp
@@ -132,7 +132,7 @@ private:
 
     void advance_position_by(Size length)
     {
-        BIT_MANIPULATION_ASSERT(m_pos.begin + length < m_source.length());
+        BIT_MANIPULATION_ASSERT(m_pos.begin + length <= m_source.length());
         for (Size i = 0; i < length; ++i) {
             advance_position_based_on(m_source[m_pos.begin]);
         }
-- 
2.43.0


From 771ecacb6ebde0d797e169c48626329c1a7442df Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:30:25 +0000
Subject: [PATCH 42/84] fix: match the opening brace of an empty directive
 block

---
 src/bmd/parsing/parse.cpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/bmd/parsing/parse.cpp b/src/bmd/parsing/parse.cpp
index 0d3a1bc..8b027fa 100644
--- a/src/bmd/parsing/parse.cpp
+++ b/src/bmd/parsing/parse.cpp
@@ -579,6 +579,9 @@ private:
 
     Result<ast::Some_Node*, Rule_Error> match_empty_block()
     {
+        if (auto r = expect('{'); !r) {
+            return Rule_Error { r.error(), Grammar_Rule::block };
+        }
         if (auto r = match_blank(); !r) {
             return Rule_Error { Parse_Error_Code::unterminated_comment, Grammar_Rule::block };
         }
-- 
2.43.0


From 66f98c821698ac434588458594a04ccc420e89c1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:31:05 +0000
Subject: [PATCH 43/84] fix: end a paragraph at comments and report breaks
 behind them instead of looping

---
 src/bmd/parsing/parse.cpp | 13 +++++++------
 1 file changed, 7 insertions(+), 6 deletions(-)

diff --git a/src/bmd/parsing/parse.cpp b/src/bmd/parsing/parse.cpp
index 8b027fa..46176d4 100644
--- a/src/bmd/parsing/parse.cpp
+++ b/src/bmd/parsing/parse.cpp
@@ -381,16 +381,17 @@ private:
         const auto initial_pos = m_pos;
         std::pmr::vector<ast::Some_Node*> elements(m_memory);
         while (!eof()) {
-            if (peek(is_space)) {
+            if (peek(is_space) || peek("//") || peek("/*")) {
                 Result<Blank, Rule_Error> blank = match_blank(Grammar_Rule::blank);
                 if (!blank) {
                     return blank.error();
                 }
-                // If there is a leading space but we couldn't match it as a blank, we must have
-                // run into a paragraph break and should break.
+                // If there is a leading space or comment but we couldn't match it as a blank,
+                // we must have run into a paragraph break and should break.
                 if (blank->length == 0) {
                     break;
                 }
+                continue;
             }
             ast::Some_Node* text = match_text();
             if (text) {
@@ -606,9 +607,9 @@ private:
         if (!result) {
             return result;
         }
-        if (peek(is_space)) {
-            // Text already consumes trailing space, so it only would have failed to consume
-            // all if the trailing space is a paragraph break.
+        if (directives_allowed && !eof()) {
+            // Paragraphs already consume trailing blanks, so they only would have failed to
+            // consume all if there is a paragraph break.
             return Rule_Error { Parse_Error_Code::paragraph_break_in_span, Grammar_Rule::block };
         }
         if (!directives_allowed && peek_possible_directive()) {
-- 
2.43.0


From 417c6d2416163317030287e33de7434b2747993e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:31:30 +0000
Subject: [PATCH 44/84] fix: accept blanks and comments within and behind the
 text of a text-only block

---
 src/bmd/parsing/parse.cpp | 53 ++++++++++++++++++++++++++++++++++-----
 1 file changed, 47 insertions(+), 6 deletions(-)

diff --git a/src/bmd/parsing/parse.cpp b/src/bmd/parsing/parse.cpp
index 46176d4..74bfa32 100644
--- a/src/bmd/parsing/parse.cpp
+++ b/src/bmd/parsing/parse.cpp
@@ -1,3 +1,4 @@
+#include <algorithm>
 #include <optional>
 
 #include "common/assert.hpp"
@@ -558,6 +559,46 @@ private:
         return m_source.substr(initial_pos.begin, final_pos.begin - initial_pos.begin);
     }
 
+    /// @brief Matches text and any blanks surrounding it, up to a directive or paragraph break.
+    /// If the text is interrupted by comments, the parts are joined by a single space.
+    /// @return `ast::Text`, or `nullptr` if there is no text, or `Rule_Error`.
+    Result<ast::Some_Node*, Rule_Error> match_text_span()
+    {
+        const Local_Source_Position initial_pos = m_pos;
+        std::string_view text;
+        Size end = m_pos.begin;
+        while (true) {
+            const std::string_view part = match_text_impl();
+            if (part.empty()) {
+                break;
+            }
+            text = text.empty() ? part : join_with_space(text, part);
+            end = m_pos.begin;
+
+            Result<Blank, Rule_Error> blank = match_blank(Grammar_Rule::blank);
+            if (!blank) {
+                return blank.error();
+            }
+            if (blank->length == 0) {
+                break;
+            }
+        }
+        if (text.empty()) {
+            return nullptr;
+        }
+        return alloc_node<ast::Text>({ initial_pos, end - initial_pos.begin }, text);
+    }
+
+    std::string_view join_with_space(std::string_view left, std::string_view right)
+    {
+        const Size length = left.length() + 1 + right.length();
+        char* const storage = static_cast<char*>(m_memory->allocate(length, 1));
+        char* out = std::copy(left.begin(), left.end(), storage);
+        *out++ = ' ';
+        std::copy(right.begin(), right.end(), out);
+        return { storage, length };
+    }
+
     Result<ast::Some_Node*, Rule_Error> match_directive_content(Directive_Content_Type type)
     {
         switch (type) {
@@ -603,18 +644,18 @@ private:
         if (leading_blank->is_paragraph_break) {
             return Rule_Error { Parse_Error_Code::paragraph_break_in_span, Grammar_Rule::block };
         }
-        auto result = directives_allowed ? match_paragraph() : match_text();
+        auto result = directives_allowed ? match_paragraph() : match_text_span();
         if (!result) {
             return result;
         }
-        if (directives_allowed && !eof()) {
-            // Paragraphs already consume trailing blanks, so they only would have failed to
-            // consume all if there is a paragraph break.
-            return Rule_Error { Parse_Error_Code::paragraph_break_in_span, Grammar_Rule::block };
-        }
         if (!directives_allowed && peek_possible_directive()) {
             return Rule_Error { Parse_Error_Code::directive_in_text_span, Grammar_Rule::block };
         }
+        if (!eof()) {
+            // Trailing blanks are already consumed, so we only would have failed to consume all
+            // if there is a paragraph break.
+            return Rule_Error { Parse_Error_Code::paragraph_break_in_span, Grammar_Rule::block };
+        }
         return result;
     }
 
-- 
2.43.0


From 651cb929ca5806d5c29cb005f7f40f2ed159e61e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:31:33 +0000
Subject: [PATCH 45/84] fix: accept empty blocks of directives

---
 src/bmd/parsing/parse.cpp | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/bmd/parsing/parse.cpp b/src/bmd/parsing/parse.cpp
index 74bfa32..d662aa4 100644
--- a/src/bmd/parsing/parse.cpp
+++ b/src/bmd/parsing/parse.cpp
@@ -61,7 +61,6 @@ Raw::Raw(const Local_Source_Span& pos, std::string_view value)
     : detail::Base { pos }
     , m_value(value)
 {
-    BIT_MANIPULATION_ASSERT(!value.empty());
 }
 
 } // namespace ast
@@ -744,13 +743,16 @@ private:
 
     /// @brief Matches a "raw block", which is of the form `{`, text, `}`.
     /// Basically, it matches any brace-enclosed content.
-    /// @return `ast::Text` which excludes the enclosing braces.
+    /// @return `ast::Text` which excludes the enclosing braces, or `nullptr` if it is empty.
     Result<ast::Some_Node*, Rule_Error> match_raw_block()
     {
         Result<ast::Raw, Rule_Error> raw = match_raw_block_impl();
         if (!raw) {
             return raw.error();
         }
+        if (raw->get_value().empty()) {
+            return nullptr;
+        }
         return alloc_node<ast::Text>(raw->get_source_position(), raw->get_value());
     }
 
-- 
2.43.0


From bc867b2733338df7df7fb78c4a989832f207436c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:31:56 +0000
Subject: [PATCH 46/84] fix: do not read behind the table for unknown directive
 names

---
 src/bmd/enums.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/bmd/enums.cpp b/src/bmd/enums.cpp
index 32e8f24..20c69cf 100644
--- a/src/bmd/enums.cpp
+++ b/src/bmd/enums.cpp
@@ -190,7 +190,7 @@ std::optional<Directive_Type> directive_type_by_id(std::string_view directive_id
     static_assert(std::ranges::is_sorted(lookup, {}, &Pair::id));
 
     const auto it = std::ranges::lower_bound(lookup, directive_id, {}, &Pair::id);
-    if (it->id != directive_id) {
+    if (it == std::ranges::end(lookup) || it->id != directive_id) {
         return {};
     }
     return it->type;
-- 
2.43.0


From 698240a2ff58a11aa6dbe6cf9bb2dd9594749bbd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:31:56 +0000
Subject: [PATCH 47/84] fix: superscript directives become sup elements

---
 src/bmd/enums.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/bmd/enums.cpp b/src/bmd/enums.cpp
index 20c69cf..aea90bd 100644
--- a/src/bmd/enums.cpp
+++ b/src/bmd/enums.cpp
@@ -216,7 +216,7 @@ std::string_view directive_type_tag(Directive_Type type)
     case quoted: return "q";
     case strikethrough: return "s";
     case subscript: return "sub";
-    case superscript: return "sub";
+    case superscript: return "sup";
     case teletype: return "tt";
     case underlined: return "u";
     case unordered_list: return "ul";
-- 
2.43.0


From 29d7b5c8561de9cf01c863d6b2f063501635bb69 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:31:56 +0000
Subject: [PATCH 48/84] fix: a line comment may be the end of a document

---
 src/bmd/parsing/parse.cpp | 5 +----
 1 file changed, 1 insertion(+), 4 deletions(-)

diff --git a/src/bmd/parsing/parse.cpp b/src/bmd/parsing/parse.cpp
index d662aa4..fc3d86b 100644
--- a/src/bmd/parsing/parse.cpp
+++ b/src/bmd/parsing/parse.cpp
@@ -856,10 +856,7 @@ private:
             // Parse C99-style line comments.
             if (expect("//")) {
                 newline_count = 0;
-                while (true) {
-                    if (eof()) {
-                        return Parse_Error_Code::unterminated_comment;
-                    }
+                while (!eof()) {
                     const char c = pop();
                     if (c == '\n') {
                         newline_count = 1;
-- 
2.43.0


From 9633fdeeb1b7cc9a26c04b8a1691d74710b0c3dd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:31:56 +0000
Subject: [PATCH 49/84] fix: refuse directive arguments that are too large
 instead of truncating them

---
 src/bmd/parsing/parse.cpp | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/src/bmd/parsing/parse.cpp b/src/bmd/parsing/parse.cpp
index fc3d86b..faefff9 100644
--- a/src/bmd/parsing/parse.cpp
+++ b/src/bmd/parsing/parse.cpp
@@ -937,9 +937,8 @@ private:
         }
 
         std::optional<Big_Int> value = parse_integer_literal(s.substr(0, literal_match.length));
-        if (!value) {
-            return Rule_Error { Parse_Error_Code::invalid_integer_literal,
-                                Grammar_Rule::decimal_literal };
+        if (!value || *value < 0 || *value > std::numeric_limits<Int64>::max()) {
+            return Rule_Error { Parse_Error_Code::invalid_integer_literal, rule };
         }
         const auto initial_pos = std::exchange(m_pos, m_pos.to_right(literal_match.length));
         return ast::Number { { initial_pos, literal_match.length },
-- 
2.43.0


From d213f4efcd46409d333a57bd897617cddb598e63 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:31:56 +0000
Subject: [PATCH 50/84] fix: the content of inline code is raw

---
 src/bmd/enums.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/bmd/enums.cpp b/src/bmd/enums.cpp
index aea90bd..dd2006f 100644
--- a/src/bmd/enums.cpp
+++ b/src/bmd/enums.cpp
@@ -77,7 +77,6 @@ Directive_Content_Type directive_type_content_type(Directive_Type type)
     case title: return Directive_Content_Type::text_span;
 
     case bold:
-    case code:
     case deleted:
     case heading1:
     case heading2:
@@ -95,6 +94,7 @@ Directive_Content_Type directive_type_content_type(Directive_Type type)
     case teletype:
     case underlined: return Directive_Content_Type::span;
 
+    case code:
     case code_block: return Directive_Content_Type::raw;
 
     case note: return Directive_Content_Type::block;
-- 
2.43.0


From 4f8b9e7c6061d9c1bc02ded70fe0c0ac579f206a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:33:09 +0000
Subject: [PATCH 51/84] fix: find the affected line of errors at a line end or
 at the end of the file

---
 src/common/diagnostics.cpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/common/diagnostics.cpp b/src/common/diagnostics.cpp
index d4923f9..722af14 100644
--- a/src/common/diagnostics.cpp
+++ b/src/common/diagnostics.cpp
@@ -618,12 +618,12 @@ std::ostream& print_file_position(std::ostream& out,
 
 std::string_view find_line(std::string_view source, Size index)
 {
-    BIT_MANIPULATION_ASSERT(index < source.size());
+    BIT_MANIPULATION_ASSERT(index <= source.size());
 
-    Size begin = source.rfind('\n', index);
+    Size begin = index == 0 ? std::string_view::npos : source.rfind('\n', index - 1);
     begin = begin != std::string_view::npos ? begin + 1 : 0;
 
-    Size end = std::min(source.find('\n', index + 1), source.size());
+    Size end = std::min(source.find('\n', index), source.size());
 
     return source.substr(begin, end - begin);
 }
-- 
2.43.0


From 89c9ce548f765155de8816133ca21fea4044145c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:33:09 +0000
Subject: [PATCH 52/84] fix: escape ampersands in HTML text

---
 src/bmd/html/html_writer.cpp | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/bmd/html/html_writer.cpp b/src/bmd/html/html_writer.cpp
index 0e01596..d281bbf 100644
--- a/src/bmd/html/html_writer.cpp
+++ b/src/bmd/html/html_writer.cpp
@@ -37,7 +37,7 @@ void HTML_Writer::write_escaped_text(std::string_view text)
     BIT_MANIPULATION_ASSERT(m_state == State::new_line || m_state == State::normal);
 
     while (!text.empty()) {
-        const Size bracket_pos = text.find_first_of("<>");
+        const Size bracket_pos = text.find_first_of("<>&");
         const std::string_view snippet = text.substr(0, std::min(text.length(), bracket_pos));
         m_out.write(snippet, HTML_Token_Type::inner_text);
         if (bracket_pos == std::string_view::npos) {
@@ -49,6 +49,9 @@ void HTML_Writer::write_escaped_text(std::string_view text)
         else if (text[bracket_pos] == '>') {
             m_out.write("&gt;", HTML_Token_Type::inner_text);
         }
+        else if (text[bracket_pos] == '&') {
+            m_out.write("&amp;", HTML_Token_Type::inner_text);
+        }
         else {
             BIT_MANIPULATION_ASSERT_UNREACHABLE("Logical mistake.");
         }
-- 
2.43.0


From d2c0c3b0c017a212ba208ddef6f4ea48cdc4e455 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:33:15 +0000
Subject: [PATCH 53/84] fix: quote and escape HTML attribute values which need
 it

---
 src/bmd/html/html_writer.cpp | 16 +++++++++++++++-
 src/bmd/html/html_writer.hpp |  6 +++++-
 2 files changed, 20 insertions(+), 2 deletions(-)

diff --git a/src/bmd/html/html_writer.cpp b/src/bmd/html/html_writer.cpp
index d281bbf..3fc0c1d 100644
--- a/src/bmd/html/html_writer.cpp
+++ b/src/bmd/html/html_writer.cpp
@@ -61,6 +61,20 @@ void HTML_Writer::write_escaped_text(std::string_view text)
     m_state = State::normal;
 }
 
+void HTML_Writer::write_escaped_attribute_value(std::string_view value)
+{
+    while (!value.empty()) {
+        const Size length = std::min(value.find_first_of("\"&"), value.length());
+        m_out.write(value.substr(0, length), HTML_Token_Type::attribute_value);
+        if (length == value.length()) {
+            break;
+        }
+        m_out.write(value[length] == '"' ? std::string_view("&quot;") : std::string_view("&amp;"),
+                    HTML_Token_Type::attribute_value);
+        value = value.substr(length + 1);
+    }
+}
+
 auto HTML_Writer::write_whitespace(char c, Size length) -> Self&
 {
     BIT_MANIPULATION_ASSERT(m_state != State::attributes && m_state != State::initial);
@@ -212,7 +226,7 @@ auto HTML_Writer::write_attribute(std::string_view key, std::string_view value)
         m_out.write('=', HTML_Token_Type::attribute_equal);
         if (requires_quotes_in_attribute(value)) {
             m_out.write('"', HTML_Token_Type::attribute_quote);
-            m_out.write(value, HTML_Token_Type::attribute_value);
+            write_escaped_attribute_value(value);
             m_out.write('"', HTML_Token_Type::attribute_quote);
         }
         else {
diff --git a/src/bmd/html/html_writer.hpp b/src/bmd/html/html_writer.hpp
index 7091eab..6e32c63 100644
--- a/src/bmd/html/html_writer.hpp
+++ b/src/bmd/html/html_writer.hpp
@@ -14,7 +14,7 @@ namespace bit_manipulation::bmd {
 /// no wrapping, but `id="<x>"` requires `<x>` to be surrounded by quotes.
 inline bool requires_quotes_in_attribute(std::string_view value)
 {
-    return value.find_first_of("\"/'`=<> ") != std::string_view::npos;
+    return value.find_first_of("\"/'`=<>& \t\r\n") != std::string_view::npos;
 }
 
 /// @brief The formatting style of an HTML tag.
@@ -211,6 +211,10 @@ private:
     /// @param text the text to write
     void write_escaped_text(std::string_view text);
 
+    /// @brief Like `write_escaped_text`, but for an attribute value between double quotes.
+    /// @param value the value to write
+    void write_escaped_attribute_value(std::string_view value);
+
     void break_line();
     void indent(Formatting_Style style);
 };
-- 
2.43.0


From b2d72a69c56b7fbc3c8e71da4b36a0b0f06d24dc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:33:15 +0000
Subject: [PATCH 54/84] fix: an HTML writer is only done behind the preamble
 and complete tags

---
 src/bmd/html/html_writer.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/bmd/html/html_writer.hpp b/src/bmd/html/html_writer.hpp
index 6e32c63..79d7631 100644
--- a/src/bmd/html/html_writer.hpp
+++ b/src/bmd/html/html_writer.hpp
@@ -143,7 +143,7 @@ public:
     /// complete, `false` otherwise.
     bool is_done() const
     {
-        return (m_state != State::normal || m_state == State::new_line) && m_depth == 0
+        return (m_state == State::normal || m_state == State::new_line) && m_depth == 0
             && m_indent_depth == 0;
     }
 
-- 
2.43.0


From e53a38ec49352f7a665d7b78287b55f03e2b2704 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:33:15 +0000
Subject: [PATCH 55/84] fix: refuse HTML comments before the preamble

---
 src/bmd/html/html_writer.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/bmd/html/html_writer.cpp b/src/bmd/html/html_writer.cpp
index 3fc0c1d..057c691 100644
--- a/src/bmd/html/html_writer.cpp
+++ b/src/bmd/html/html_writer.cpp
@@ -171,7 +171,7 @@ auto HTML_Writer::end_tag(Tag_Properties properties) -> Self&
 
 auto HTML_Writer::write_comment_tag(std::string_view comment, Formatting_Style style) -> Self&
 {
-    BIT_MANIPULATION_ASSERT(m_state != State::attributes);
+    BIT_MANIPULATION_ASSERT(m_state == State::normal || m_state == State::new_line);
     BIT_MANIPULATION_ASSERT(comment.find("-->") == std::string_view::npos);
 
     indent(style);
-- 
2.43.0


From 42a0c1d59ac0f2f9e8be5c63232c1768aadc5fea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:33:15 +0000
Subject: [PATCH 56/84] fix: render directives that must be empty

---
 src/bmd/html/doc_to_html.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/bmd/html/doc_to_html.cpp b/src/bmd/html/doc_to_html.cpp
index 60f43bc..c28aba3 100644
--- a/src/bmd/html/doc_to_html.cpp
+++ b/src/bmd/html/doc_to_html.cpp
@@ -262,7 +262,7 @@ struct HTML_Converter {
         const Tag_Properties tag { directive_type_tag(directive.get_type()),
                                    directive_type_formatting_style(directive.get_type()) };
 
-        BIT_MANIPULATION_ASSERT(directive.get_block() != nullptr
+        BIT_MANIPULATION_ASSERT(directive.get_block() == nullptr
                                 || !directive_type_must_be_empty(directive.get_type()));
 
         if (directive.get_block() == nullptr && directive.m_arguments.empty()) {
-- 
2.43.0


From fe0760380c8b63a2b02d243e2b6e5ba1dae3bd70 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:33:15 +0000
Subject: [PATCH 57/84] fix: do not close the tag of a directive without a
 block again

---
 src/bmd/html/doc_to_html.cpp | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/bmd/html/doc_to_html.cpp b/src/bmd/html/doc_to_html.cpp
index c28aba3..43637dc 100644
--- a/src/bmd/html/doc_to_html.cpp
+++ b/src/bmd/html/doc_to_html.cpp
@@ -270,6 +270,9 @@ struct HTML_Converter {
         }
         else {
             begin_tag_with_passed_through_attributes(directive, tag);
+            if (directive.get_block() == nullptr) {
+                return {};
+            }
 
             const auto content_type = directive_type_content_type(directive.get_type());
             if (auto r = convert_block(directive.get_block(), tag.style, content_type); !r) {
@@ -349,6 +352,9 @@ struct HTML_Converter {
         if (title_directive != nullptr) {
             const Tag_Properties heading { "h1", Formatting_Style::in_line };
             begin_tag_with_passed_through_attributes(*title_directive, heading);
+            if (title_directive->get_block() == nullptr && !title_directive->m_arguments.empty()) {
+                return {};
+            }
             m_writer.write_inner_text(m_meta.title, heading.style);
             m_writer.end_tag(heading);
         }
-- 
2.43.0


From 263bf2b5aa6f98bbe47ec82548a7deeff1ecb693 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:33:15 +0000
Subject: [PATCH 58/84] fix: render text which is interrupted by comments

---
 src/bmd/html/doc_to_html.cpp | 10 ++++------
 1 file changed, 4 insertions(+), 6 deletions(-)

diff --git a/src/bmd/html/doc_to_html.cpp b/src/bmd/html/doc_to_html.cpp
index 43637dc..42c0785 100644
--- a/src/bmd/html/doc_to_html.cpp
+++ b/src/bmd/html/doc_to_html.cpp
@@ -191,15 +191,13 @@ struct HTML_Converter {
                 if (i + 1 >= children.size()) {
                     continue;
                 }
-                // get is appropriate here because there cannot be two consecutive Text
-                // elements
-                const auto& d = get<ast::Directive>(*children[i + 1]);
+                // The next element can also be text if there is a comment in between.
+                const Local_Source_Span next_pos = get_source_span(*children[i + 1]);
 
-                if (current_pos.end() == d.get_source_position().begin) {
+                if (current_pos.end() == next_pos.begin) {
                     continue;
                 }
-                const bool separate_lines
-                    = d.get_source_position().line + 1 > current_pos.line + *lines_written;
+                const bool separate_lines = next_pos.line + 1 > current_pos.line + *lines_written;
                 m_writer.write_whitespace(separate_lines ? '\n' : ' ', 1);
                 // TODO: this approach isn't perfect because it doesn't handle line breaks
                 // after directives properly. It would be best if directives stored what type
-- 
2.43.0


From 3fc1f9fce30493b552c8d6f796dabdc04fd02f51 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:33:41 +0000
Subject: [PATCH 59/84] fix: render list items and notes

---
 src/bmd/enums.cpp            | 4 ++--
 src/bmd/html/doc_to_html.cpp | 9 +++++++++
 2 files changed, 11 insertions(+), 2 deletions(-)

diff --git a/src/bmd/enums.cpp b/src/bmd/enums.cpp
index dd2006f..5138f56 100644
--- a/src/bmd/enums.cpp
+++ b/src/bmd/enums.cpp
@@ -223,13 +223,13 @@ std::string_view directive_type_tag(Directive_Type type)
     case code: return "code";
     case code_block: return "div";
     case instruction: return "span";
+    case item: return "li";
     case note: return "div";
     case meta: return "head";
     case title: return "title";
 
     case bms_function:
-    case c_equivalent:
-    case item: return "";
+    case c_equivalent: return "";
     }
     BIT_MANIPULATION_ASSERT_UNREACHABLE("Invalid directive type.");
 }
diff --git a/src/bmd/html/doc_to_html.cpp b/src/bmd/html/doc_to_html.cpp
index 42c0785..8b9fe72 100644
--- a/src/bmd/html/doc_to_html.cpp
+++ b/src/bmd/html/doc_to_html.cpp
@@ -246,6 +246,9 @@ struct HTML_Converter {
 
         case Directive_Type::instruction: return convert_instruction_directive(directive);
 
+        case Directive_Type::item:
+        case Directive_Type::note: return convert_element_directive(directive);
+
         default: BIT_MANIPULATION_ASSERT_UNREACHABLE("Unimplemented directive type.");
         }
     }
@@ -254,7 +257,13 @@ struct HTML_Converter {
     convert_html_passthrough_directive(const ast::Directive& directive)
     {
         BIT_MANIPULATION_ASSERT(directive_type_is_html_passthrough(directive.get_type()));
+        return convert_element_directive(directive);
+    }
 
+    /// @brief Converts a directive to the element with the corresponding tag.
+    [[nodiscard]] Result<void, Document_Error>
+    convert_element_directive(const ast::Directive& directive)
+    {
         m_at_start_of_file = false;
 
         const Tag_Properties tag { directive_type_tag(directive.get_type()),
-- 
2.43.0


From 789f7c9d1d16314493d7b51d0e61dcf8d9ed5626 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:33:44 +0000
Subject: [PATCH 60/84] fix: render code in languages without highlighting as
 plain text

---
 src/bmd/html/doc_to_html.cpp | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/bmd/html/doc_to_html.cpp b/src/bmd/html/doc_to_html.cpp
index 8b9fe72..1c81498 100644
--- a/src/bmd/html/doc_to_html.cpp
+++ b/src/bmd/html/doc_to_html.cpp
@@ -420,8 +420,9 @@ struct HTML_Converter {
             break;
         }
         default:
-            BIT_MANIPULATION_ASSERT_UNREACHABLE(
-                "Only bms and plaintext highlighting is implemented.");
+            // There is no highlighting for other languages yet.
+            m_writer.write_inner_text(code_text->get_text(), Formatting_Style::pre);
+            break;
         }
 
         return {};
-- 
2.43.0


From 7eb2b71338d848b817185c662a9d2d561625c47c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:33:47 +0000
Subject: [PATCH 61/84] fix: handle instructions without a name and with
 invalid extensions

---
 src/bmd/html/doc_to_html.cpp | 12 ++++++++----
 1 file changed, 8 insertions(+), 4 deletions(-)

diff --git a/src/bmd/html/doc_to_html.cpp b/src/bmd/html/doc_to_html.cpp
index 1c81498..7b46283 100644
--- a/src/bmd/html/doc_to_html.cpp
+++ b/src/bmd/html/doc_to_html.cpp
@@ -454,18 +454,22 @@ struct HTML_Converter {
             }
             return id->get_value();
         }();
+        if (!extension) {
+            return extension.error();
+        }
 
         static constexpr Tag_Properties hyperlink { "a", Formatting_Style::in_line };
         static constexpr Tag_Properties code { "code", Formatting_Style::in_line };
 
-        // TODO: deal with potentially empty text (null block)
-        const ast::Text& text = get<ast::Text>(*directive.get_block());
+        const std::string_view text = directive.get_block() == nullptr
+            ? std::string_view {}
+            : get<ast::Text>(*directive.get_block()).get_text();
 
         std::string_view link_prefix = architecture_link_prefix(*arch);
 
         if (!link_prefix.empty()) {
             std::pmr::string link(link_prefix, m_memory);
-            link += text.get_text();
+            link += text;
 
             m_writer
                 .begin_tag_with_attributes(hyperlink) //
@@ -473,7 +477,7 @@ struct HTML_Converter {
                 .end();
         }
         m_writer.begin_tag(code);
-        m_writer.write_inner_text(text.get_text(), Formatting_Style::in_line);
+        m_writer.write_inner_text(text, Formatting_Style::in_line);
         m_writer.end_tag(code);
 
         if (!link_prefix.empty()) {
-- 
2.43.0


From 1697b6486f609d6f6a32dccbb00b807f14279c4c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:34:15 +0000
Subject: [PATCH 62/84] fix: render escape sequences as the characters they
 stand for

---
 src/bmd/html/doc_to_html.cpp | 24 +++++++++++++++++++-----
 1 file changed, 19 insertions(+), 5 deletions(-)

diff --git a/src/bmd/html/doc_to_html.cpp b/src/bmd/html/doc_to_html.cpp
index 7b46283..ab8f0ff 100644
--- a/src/bmd/html/doc_to_html.cpp
+++ b/src/bmd/html/doc_to_html.cpp
@@ -229,7 +229,21 @@ struct HTML_Converter {
                                                             Formatting_Style inherited_style)
     {
         m_at_start_of_file = false;
-        return m_writer.write_inner_text(text.get_text(), inherited_style);
+        return m_writer.write_inner_text(unescape(text.get_text()), inherited_style);
+    }
+
+    /// @brief Replaces escape sequences such as `\\{` with the character they stand for.
+    [[nodiscard]] std::pmr::string unescape(std::string_view text) const
+    {
+        std::pmr::string result(m_memory);
+        for (Size i = 0; i < text.length(); ++i) {
+            if (text[i] == '\\' && i + 1 < text.length()
+                && std::string_view("\\{}").find(text[i + 1]) != std::string_view::npos) {
+                ++i;
+            }
+            result += text[i];
+        }
+        return result;
     }
 
     [[nodiscard]] Result<void, Document_Error> convert_directive(const ast::Directive& directive)
@@ -362,7 +376,7 @@ struct HTML_Converter {
             if (title_directive->get_block() == nullptr && !title_directive->m_arguments.empty()) {
                 return {};
             }
-            m_writer.write_inner_text(m_meta.title, heading.style);
+            m_writer.write_inner_text(unescape(m_meta.title), heading.style);
             m_writer.end_tag(heading);
         }
 
@@ -461,9 +475,9 @@ struct HTML_Converter {
         static constexpr Tag_Properties hyperlink { "a", Formatting_Style::in_line };
         static constexpr Tag_Properties code { "code", Formatting_Style::in_line };
 
-        const std::string_view text = directive.get_block() == nullptr
-            ? std::string_view {}
-            : get<ast::Text>(*directive.get_block()).get_text();
+        const std::pmr::string text = directive.get_block() == nullptr
+            ? std::pmr::string(m_memory)
+            : unescape(get<ast::Text>(*directive.get_block()).get_text());
 
         std::string_view link_prefix = architecture_link_prefix(*arch);
 
-- 
2.43.0


From 6124ba9925df24ec3b81eb7b8d6885066312c773 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:34:16 +0000
Subject: [PATCH 63/84] fix: preserve whitespace between highlighted tokens
 exactly

---
 src/bmd/html/bms_to_html.cpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/bmd/html/bms_to_html.cpp b/src/bmd/html/bms_to_html.cpp
index 3e773a0..d84cae5 100644
--- a/src/bmd/html/bms_to_html.cpp
+++ b/src/bmd/html/bms_to_html.cpp
@@ -91,7 +91,9 @@ void tokens_to_html(HTML_Writer& out, std::span<const bms::Token> tokens, std::s
 {
     for (Size i = 0; i < tokens.size(); ++i) {
         if (i != 0) {
-            out.write_source_gap(tokens[i - 1].pos, tokens[i].pos, Formatting_Style::pre);
+            const Size gap_begin = tokens[i - 1].pos.end();
+            out.write_inner_text(code.substr(gap_begin, tokens[i].pos.begin - gap_begin),
+                                 Formatting_Style::pre);
         }
 
         const Code_Span_Type category = categorize_token_type(tokens[i].type);
-- 
2.43.0


From fe1e9d6b7cc83478615f74bab705ffec04574e88 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:35:29 +0000
Subject: [PATCH 64/84] fix: separate the slash of an empty tag from an
 unquoted attribute value

---
 src/bmd/html/html_writer.cpp | 6 ++++++
 src/bmd/html/html_writer.hpp | 1 +
 2 files changed, 7 insertions(+)

diff --git a/src/bmd/html/html_writer.cpp b/src/bmd/html/html_writer.cpp
index 057c691..090ddf2 100644
--- a/src/bmd/html/html_writer.cpp
+++ b/src/bmd/html/html_writer.cpp
@@ -143,6 +143,7 @@ Attribute_Writer HTML_Writer::begin_tag_with_attributes(Tag_Properties propertie
     m_out.write(properties.id, HTML_Token_Type::tag_bracket);
 
     m_state = State::attributes;
+    m_after_unquoted_value = false;
 
     return { *this, properties.style };
 }
@@ -221,6 +222,7 @@ auto HTML_Writer::write_attribute(std::string_view key, std::string_view value)
 
     m_out.write(' ', HTML_Token_Type::whitespace);
     m_out.write(key, HTML_Token_Type::attribute_key);
+    m_after_unquoted_value = !value.empty() && !requires_quotes_in_attribute(value);
 
     if (!value.empty()) {
         m_out.write('=', HTML_Token_Type::attribute_equal);
@@ -262,6 +264,10 @@ auto HTML_Writer::end_empty_tag_attributes(Formatting_Style style) -> Self&
 {
     BIT_MANIPULATION_ASSERT(m_state == State::attributes);
 
+    if (m_after_unquoted_value) {
+        // Otherwise, the slash would be a part of the attribute value.
+        m_out.write(' ', HTML_Token_Type::whitespace);
+    }
     m_out.write("/>", HTML_Token_Type::tag_bracket);
     m_state = State::normal;
 
diff --git a/src/bmd/html/html_writer.hpp b/src/bmd/html/html_writer.hpp
index 79d7631..d6e2412 100644
--- a/src/bmd/html/html_writer.hpp
+++ b/src/bmd/html/html_writer.hpp
@@ -124,6 +124,7 @@ private:
     enum struct State { initial, attributes, normal, new_line } m_state = State::initial;
     Size m_depth = 0;
     Size m_indent_depth = 0;
+    bool m_after_unquoted_value = false;
 
 public:
     /// @brief Constructor.
-- 
2.43.0


From b0cdc60f4a9da37b6e5c5790d97dcec5f6479170 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:44:28 +0000
Subject: [PATCH 65/84] fix: leave the attributes of a block-level tag before
 breaking the line

---
 src/bmd/html/html_writer.cpp | 4 +---
 1 file changed, 1 insertion(+), 3 deletions(-)

diff --git a/src/bmd/html/html_writer.cpp b/src/bmd/html/html_writer.cpp
index 090ddf2..d7a4efc 100644
--- a/src/bmd/html/html_writer.cpp
+++ b/src/bmd/html/html_writer.cpp
@@ -244,6 +244,7 @@ auto HTML_Writer::end_attributes(Formatting_Style style) -> Self&
     BIT_MANIPULATION_ASSERT(m_state == State::attributes);
 
     m_out.write('>', HTML_Token_Type::tag_bracket);
+    m_state = State::normal;
 
     if (is_block_like(style)) {
         break_line();
@@ -251,9 +252,6 @@ auto HTML_Writer::end_attributes(Formatting_Style style) -> Self&
             ++m_indent_depth;
         }
     }
-    else {
-        m_state = State::normal;
-    }
 
     ++m_depth;
 
-- 
2.43.0


From cffc18236e2ad8858a8e7a69291df310111c688e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:10:56 +0000
Subject: [PATCH 66/84] fix: describe every tokenizer error in diagnostics

---
 src/common/diagnostics.cpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/common/diagnostics.cpp b/src/common/diagnostics.cpp
index 722af14..9df7669 100644
--- a/src/common/diagnostics.cpp
+++ b/src/common/diagnostics.cpp
@@ -95,10 +95,14 @@ std::string_view to_prose(bms::Tokenize_Error_Code e)
     switch (e) {
     case bms::Tokenize_Error_Code::illegal_character: //
         return "Illegal character encountered.";
+    case bms::Tokenize_Error_Code::no_digits_following_integer_prefix: //
+        return "Expected digits after the prefix of an integer literal";
     case bms::Tokenize_Error_Code::integer_suffix: //
         return "Suffix after integer literal is not allowed";
     case bms::Tokenize_Error_Code::unterminated_comment: //
         return "Unterminated block comment found. '/*' must have a matching '*/'";
+    case bms::Tokenize_Error_Code::unterminated_string: //
+        return "Unterminated string literal found. '\"' must have a matching '\"'";
     default: //
         BIT_MANIPULATION_ASSERT_UNREACHABLE("invalid error code");
     }
-- 
2.43.0


From 2f6c970108f7771204e8746e0ec1d17aa68b0b3e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:10:56 +0000
Subject: [PATCH 67/84] fix: attach the return type to an error about a
 returned value

---
 src/bms/analyze.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/bms/analyze.cpp b/src/bms/analyze.cpp
index 003f7d8..c4a92e5 100644
--- a/src/bms/analyze.cpp
+++ b/src/bms/analyze.cpp
@@ -524,6 +524,7 @@ private:
             return Analysis_Error_Builder { Analysis_Error_Code::incompatible_types }
                 .fail(handle)
                 .cause(function->get_return_type_node())
+                .type(return_type)
                 .build();
         }
         const Result<Value, Evaluation_Error_Code> eval_result
-- 
2.43.0


From 3ae59a39d17e998daa556f7d989130617be031e4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:10:56 +0000
Subject: [PATCH 68/84] fix: do not ask for a bug report when the executed
 script is at fault

---
 src/common/diagnostics.cpp | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/common/diagnostics.cpp b/src/common/diagnostics.cpp
index 9df7669..a709891 100644
--- a/src/common/diagnostics.cpp
+++ b/src/common/diagnostics.cpp
@@ -82,7 +82,10 @@ struct Printable_Error {
 // of faulty codegen.
 [[nodiscard]] bool is_internal(const bms::Analysis_Error& error)
 {
-    return error.code() == bms::Analysis_Error_Code::execution_error
+    // Reading a variable that has no value and looping forever are mistakes in the program though.
+    return (error.code() == bms::Analysis_Error_Code::execution_error
+            && error.execution_error() != bms::Execution_Error_Code::load_uninitialized
+            && error.execution_error() != bms::Execution_Error_Code::infinite_loop)
         || (error.code() == bms::Analysis_Error_Code::evaluation_error
             && error.evaluation_error() == bms::Evaluation_Error_Code::type_error);
 }
-- 
2.43.0


From 9ddca4bec77c3e2ef623aeb9b46759c8d12ec15f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:11:34 +0000
Subject: [PATCH 69/84] fix: report a syntax error at the end of a file where
 the file ends

---
 src/bms/parsing/parse.cpp  | 20 +++++++++++++++++++-
 src/common/diagnostics.cpp | 10 ++++++++--
 2 files changed, 27 insertions(+), 3 deletions(-)

diff --git a/src/bms/parsing/parse.cpp b/src/bms/parsing/parse.cpp
index 04f846f..ec8e45e 100644
--- a/src/bms/parsing/parse.cpp
+++ b/src/bms/parsing/parse.cpp
@@ -1,3 +1,4 @@
+#include <algorithm>
 #include <functional>
 #include <memory_resource>
 #include <optional>
@@ -399,13 +400,30 @@ public:
             return {};
         }
         else {
-            const auto fail_token = m_pos < m_tokens.size() ? m_tokens[m_pos] : Token {};
+            const auto fail_token = m_pos < m_tokens.size() ? m_tokens[m_pos] : end_of_file_token();
             const auto [fail_rule, expected_tokens] = program.error();
             return Parse_Error { fail_rule, expected_tokens, fail_token };
         }
     }
 
 private:
+    /// @brief Returns an empty token which is located right behind the last token.
+    [[nodiscard]] Token end_of_file_token() const
+    {
+        Local_Source_Span pos {};
+        if (!m_tokens.empty()) {
+            const Local_Source_Span& last = m_tokens.back().pos;
+            // The last token may be a block comment, which can span multiple lines.
+            const std::string_view text = m_program.extract(last);
+            const Size line_break = text.rfind('\n');
+            pos.line = last.line + Size(std::ranges::count(text, '\n'));
+            pos.column = line_break == std::string_view::npos ? last.end_column()
+                                                              : text.length() - line_break - 1;
+            pos.begin = last.end();
+        }
+        return { pos, {} };
+    }
+
     /// @brief Checks whether the parser is at the end of the file, in a way that respects comments.
     /// @return `true` if the parser has no more tokens to examine.
     [[nodiscard]] bool eof() noexcept
diff --git a/src/common/diagnostics.cpp b/src/common/diagnostics.cpp
index a709891..6ea8392 100644
--- a/src/common/diagnostics.cpp
+++ b/src/common/diagnostics.cpp
@@ -695,8 +695,14 @@ std::ostream& print_parse_error(std::ostream& out,
                                 bool colors)
 {
     print_file_position(out, file, error.fail_token.pos, colors) << ": " << error_prefix;
-    out << "unexpected token " << token_type_readable_name(error.fail_token.type)
-        << " while matching '" << grammar_rule_name(error.fail_rule) << "'\n";
+    // Only the end of the file has no characters.
+    if (error.fail_token.pos.length == 0) {
+        out << "unexpected end of file";
+    }
+    else {
+        out << "unexpected token " << token_type_readable_name(error.fail_token.type);
+    }
+    out << " while matching '" << grammar_rule_name(error.fail_rule) << "'\n";
 
     print_file_position(out, file, error.fail_token.pos, colors)
         << ": " << note_prefix << "expected ";
-- 
2.43.0


From 3ccbf7a4b3e57c973b0d9013f7a13ba52da407cc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:12:02 +0000
Subject: [PATCH 70/84] fix: fail when asked to convert a script to HTML

---
 src/cli/main.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/cli/main.cpp b/src/cli/main.cpp
index 0ee87a0..a01913c 100644
--- a/src/cli/main.cpp
+++ b/src/cli/main.cpp
@@ -72,8 +72,8 @@ int to_html(std::string_view file,
     const std::pmr::string source = load_file(file, memory);
 
     if (file.ends_with(".bms")) {
-        std::cout << "Converting BMS files to HTML is not supported yet\n";
-        return 0;
+        std::cout << ansi::red << "Error: converting BMS files to HTML is not supported yet\n";
+        return 1;
     }
     if (file.ends_with(".bmd")) {
         const bmd::Parsed_Document program = parse_bmd_file(source, file, memory);
-- 
2.43.0


From 7f4bc80bff93dd1102b829f27fbe407401125010 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:12:18 +0000
Subject: [PATCH 71/84] fix: report a file that cannot be read instead of
 throwing

---
 src/common/io.cpp | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/common/io.cpp b/src/common/io.cpp
index 0b23eb2..a1a04ff 100644
--- a/src/common/io.cpp
+++ b/src/common/io.cpp
@@ -10,7 +10,6 @@ Result<std::pmr::string, IO_Error_Code> file_to_string(std::string_view path,
 {
     constexpr auto read_size = std::size_t(4096);
     auto stream = std::ifstream(path.data());
-    stream.exceptions(std::ios_base::badbit);
 
     if (!stream) {
         return IO_Error_Code::cannot_open;
@@ -23,6 +22,10 @@ Result<std::pmr::string, IO_Error_Code> file_to_string(std::string_view path,
         out.append(buf, 0, static_cast<Size>(stream.gcount()));
     }
     out.append(buf, 0, static_cast<Size>(stream.gcount()));
+    // Reaching the end of the file is not an error, but e.g. reading from a directory is.
+    if (stream.bad()) {
+        return IO_Error_Code::read_error;
+    }
     return out;
 }
 
-- 
2.43.0


From ebb4130cd3c2cc4ff3c2f3796572aa1c42281e92 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:12:34 +0000
Subject: [PATCH 72/84] fix: fail when the output could not be written

---
 src/cli/main.cpp           | 14 ++++++++++++--
 src/common/diagnostics.cpp |  2 +-
 2 files changed, 13 insertions(+), 3 deletions(-)

diff --git a/src/cli/main.cpp b/src/cli/main.cpp
index a01913c..e18bc0d 100644
--- a/src/cli/main.cpp
+++ b/src/cli/main.cpp
@@ -91,12 +91,16 @@ int to_html(std::string_view file,
         else {
             std::ofstream out { std::string(*out_file) };
             if (!out) {
-                print_io_error(out, *out_file, IO_Error_Code::cannot_open, colors);
+                print_io_error(std::cout, *out_file, IO_Error_Code::cannot_open, colors);
                 return 1;
             }
 
             Simple_HTML_Consumer consumer { out };
             result = write_html(consumer, program, memory);
+            if (!out.flush()) {
+                print_io_error(std::cout, *out_file, IO_Error_Code::write_error, colors);
+                return 1;
+            }
         }
 
         if (!result) {
@@ -243,5 +247,11 @@ try {
 
 int main(int argc, const char** argv)
 {
-    return bit_manipulation::main(argc, argv);
+    const int status = bit_manipulation::main(argc, argv);
+    if (!std::cout.flush()) {
+        print_io_error(std::cerr, "stdout", bit_manipulation::IO_Error_Code::write_error,
+                       bit_manipulation::colors);
+        return 1;
+    }
+    return status;
 }
diff --git a/src/common/diagnostics.cpp b/src/common/diagnostics.cpp
index 6ea8392..26b522c 100644
--- a/src/common/diagnostics.cpp
+++ b/src/common/diagnostics.cpp
@@ -810,7 +810,7 @@ std::ostream& print_assertion_error(std::ostream& out, const Assertion_Error& er
 std::ostream&
 print_io_error(std::ostream& out, std::string_view file, IO_Error_Code error, bool colors)
 {
-    print_location_of_file(std::cout, file, colors) << ": " << to_prose(error) << '\n';
+    print_location_of_file(out, file, colors) << ": " << to_prose(error) << '\n';
     return out;
 }
 
-- 
2.43.0


From e7ef285ce46287d5d8cfad0d198f78ef37c67aa6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:37:22 +0000
Subject: [PATCH 73/84] fix: generate the else keyword of BMS else blocks

---
 src/bmd/codegen/codegen_bms.cpp | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/bmd/codegen/codegen_bms.cpp b/src/bmd/codegen/codegen_bms.cpp
index f88ce1e..167bf3f 100644
--- a/src/bmd/codegen/codegen_bms.cpp
+++ b/src/bmd/codegen/codegen_bms.cpp
@@ -298,7 +298,7 @@ struct Bms_Code_Generator::Visitor {
 
         if (const Some_Node* else_node = statement.get_else_node()) {
             if (const If_Statement* else_if = get_if<If_Statement>(else_node)) {
-                self.write_indent();
+                self.m_out.append(' ');
                 self.write_keyword(bms::Token_Type::keyword_else);
                 self.m_out.append(' ');
                 if (auto r = Visitor { self, else_node }(*else_if); !r) {
@@ -306,6 +306,9 @@ struct Bms_Code_Generator::Visitor {
                 }
             }
             else if (const Block_Statement* else_block = get_if<Block_Statement>(else_node)) {
+                self.m_out.append(' ');
+                self.write_keyword(bms::Token_Type::keyword_else);
+                self.separate_after_if();
                 if (auto r = Visitor { self, else_node }(*else_block); !r) {
                     return r;
                 }
-- 
2.43.0


From c8edcf9e73eceae8d91f634efa89b479fd079ebe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:37:26 +0000
Subject: [PATCH 74/84] fix: generate the else keyword of C and C++ else blocks

---
 src/bmd/codegen/codegen_c_cpp.cpp | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/src/bmd/codegen/codegen_c_cpp.cpp b/src/bmd/codegen/codegen_c_cpp.cpp
index ba39b75..2692aa4 100644
--- a/src/bmd/codegen/codegen_c_cpp.cpp
+++ b/src/bmd/codegen/codegen_c_cpp.cpp
@@ -444,14 +444,17 @@ struct C_Cpp_Code_Generator::Visitor {
 
         if (const Some_Node* else_node = statement.get_else_node()) {
             if (const If_Statement* else_if = get_if<If_Statement>(else_node)) {
-                self.write_indent();
-                self.m_out.append("else", Code_Span_Type::keyword);
+                self.m_out.append(' ');
+                self.write_keyword("else");
                 self.m_out.append(' ');
                 if (auto r = Visitor { self, else_node }(*else_if); !r) {
                     return r;
                 }
             }
             else if (const Block_Statement* else_block = get_if<Block_Statement>(else_node)) {
+                self.m_out.append(' ');
+                self.write_keyword("else");
+                self.separate_after_if();
                 if (auto r = Visitor { self, else_node }(*else_block); !r) {
                     return r;
                 }
-- 
2.43.0


From a88eea864d85f89c3ababaa23723a5097d0bda60 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:37:29 +0000
Subject: [PATCH 75/84] fix: terminate BMS call statements with a semicolon

---
 src/bmd/codegen/codegen_bms.cpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/bmd/codegen/codegen_bms.cpp b/src/bmd/codegen/codegen_bms.cpp
index 167bf3f..2ea1fda 100644
--- a/src/bmd/codegen/codegen_bms.cpp
+++ b/src/bmd/codegen/codegen_bms.cpp
@@ -488,6 +488,9 @@ struct Bms_Code_Generator::Visitor {
                 first = false;
             }
         }
+        if (call.is_statement()) {
+            self.write_semicolon();
+        }
 
         attempt.commit();
         return {};
-- 
2.43.0


From 37e390e05d1ed04ae8f7dbb05d29af8369c7e972 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:37:33 +0000
Subject: [PATCH 76/84] fix: terminate C and C++ call statements with a
 semicolon

---
 src/bmd/codegen/codegen_c_cpp.cpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/bmd/codegen/codegen_c_cpp.cpp b/src/bmd/codegen/codegen_c_cpp.cpp
index 2692aa4..88696a0 100644
--- a/src/bmd/codegen/codegen_c_cpp.cpp
+++ b/src/bmd/codegen/codegen_c_cpp.cpp
@@ -652,6 +652,9 @@ struct C_Cpp_Code_Generator::Visitor {
                 first = false;
             }
         }
+        if (call.is_statement()) {
+            self.write_semicolon();
+        }
 
         attempt.commit();
         return {};
-- 
2.43.0


From a454bcda455ab08d8b187951d496b58424c947da Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:37:36 +0000
Subject: [PATCH 77/84] fix: parenthesize binary operands of BMS conversions

---
 src/bmd/codegen/codegen_bms.cpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/bmd/codegen/codegen_bms.cpp b/src/bmd/codegen/codegen_bms.cpp
index 2ea1fda..acb537d 100644
--- a/src/bmd/codegen/codegen_bms.cpp
+++ b/src/bmd/codegen/codegen_bms.cpp
@@ -106,6 +106,9 @@ private:
                                          const Some_Node& inner) const final
     {
         const bms::Expression_Type inner_type = bms::ast::get_expression_type(inner);
+        if (outer_type == bms::Expression_Type::conversion && bms::is_binary(inner_type)) {
+            return true; // the operand of a conversion is a prefix-expression
+        }
         return !std::is_lteq(bms::compare_precedence(outer_type, inner_type));
     }
 
-- 
2.43.0


From 24a3d2e1cae56894b3e53d3844d02bcc26703e48 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:37:40 +0000
Subject: [PATCH 78/84] fix: declare C and C++ parameters with the type first

---
 src/bmd/codegen/codegen_c_cpp.cpp | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/src/bmd/codegen/codegen_c_cpp.cpp b/src/bmd/codegen/codegen_c_cpp.cpp
index 88696a0..292d8eb 100644
--- a/src/bmd/codegen/codegen_c_cpp.cpp
+++ b/src/bmd/codegen/codegen_c_cpp.cpp
@@ -341,13 +341,12 @@ struct C_Cpp_Code_Generator::Visitor {
                     self.write_separating_comma();
                 }
                 first = false;
-                self.m_out.append(parameter.get_name(), Code_Span_Type::identifier);
-                self.m_out.append(':', Code_Span_Type::punctuation);
-                self.m_out.append(' ');
                 auto v = Visitor { self, parameter.get_type_node() };
                 if (auto r = v(parameter.get_type()); !r) {
                     return r;
                 }
+                self.m_out.append(' ');
+                self.m_out.append(parameter.get_name(), Code_Span_Type::identifier);
             }
             if (first) {
                 self.write_keyword("void");
-- 
2.43.0


From 6088fac9ff1e7de2cf4921f5f18d43ffbdb32245 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:37:43 +0000
Subject: [PATCH 79/84] fix: unbalanced parentheses around C and C++
 conditional expressions

---
 src/bmd/codegen/codegen_c_cpp.cpp | 11 -----------
 1 file changed, 11 deletions(-)

diff --git a/src/bmd/codegen/codegen_c_cpp.cpp b/src/bmd/codegen/codegen_c_cpp.cpp
index 292d8eb..b0411d5 100644
--- a/src/bmd/codegen/codegen_c_cpp.cpp
+++ b/src/bmd/codegen/codegen_c_cpp.cpp
@@ -577,13 +577,6 @@ struct C_Cpp_Code_Generator::Visitor {
         constexpr auto outer_type = bms::Expression_Type::if_expression;
         Scoped_Attempt attempt = self.start_attempt();
 
-        const Some_Node& parent = *expression.get_parent();
-        const bool parenthesize = is_expression(parent);
-
-        if (parenthesize) {
-            self.m_out.append('(', Code_Span_Type::bracket);
-        }
-
         if (auto r = self.generate_subexpression(outer_type, expression.get_condition_node()); !r) {
             return r;
         }
@@ -596,10 +589,6 @@ struct C_Cpp_Code_Generator::Visitor {
             return r;
         }
 
-        if (!parenthesize) {
-            self.m_out.append(')', Code_Span_Type::bracket);
-        }
-
         attempt.commit();
         return {};
     }
-- 
2.43.0


From adf6b54130c59f37fd1ee4a957a53756dbba25c6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:37:46 +0000
Subject: [PATCH 80/84] fix: parenthesize C and C++ operands of the same
 precedence

---
 src/bmd/codegen/codegen_c_cpp.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/bmd/codegen/codegen_c_cpp.cpp b/src/bmd/codegen/codegen_c_cpp.cpp
index b0411d5..149fa92 100644
--- a/src/bmd/codegen/codegen_c_cpp.cpp
+++ b/src/bmd/codegen/codegen_c_cpp.cpp
@@ -285,7 +285,7 @@ private:
     {
         const C_Cpp_Precedence_Group outer_group = precedence_group_of(outer_type);
         const C_Cpp_Precedence_Group inner_group = precedence_group_of(get_expression_type(inner));
-        return !std::is_lteq(compare_readably(outer_group, inner_group));
+        return !std::is_lt(compare_readably(outer_group, inner_group));
     }
 
     struct Visitor;
-- 
2.43.0


From 29b8325b8df823ed8cae44a5213b9c26f04ff0df Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:37:50 +0000
Subject: [PATCH 81/84] fix: generate the names of C23 constants where they are
 used

---
 src/bmd/codegen/codegen_c_cpp.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/bmd/codegen/codegen_c_cpp.cpp b/src/bmd/codegen/codegen_c_cpp.cpp
index 149fa92..d1a739f 100644
--- a/src/bmd/codegen/codegen_c_cpp.cpp
+++ b/src/bmd/codegen/codegen_c_cpp.cpp
@@ -656,8 +656,8 @@ struct C_Cpp_Code_Generator::Visitor {
                 // Therefore, we are forced to inline these whenever used.
                 if (!self.m_options.c_23) {
                     append_value(self.m_out, constant->const_value()->concrete_value());
+                    return {};
                 }
-                return {};
             }
         }
 
-- 
2.43.0


From 387a5937010eb3f2909d8c833ea5882046a41c34 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:37:54 +0000
Subject: [PATCH 82/84] fix: parenthesize negative constants inlined into C and
 C++ code

---
 src/bmd/codegen/codegen_c_cpp.cpp | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/bmd/codegen/codegen_c_cpp.cpp b/src/bmd/codegen/codegen_c_cpp.cpp
index d1a739f..a8e217c 100644
--- a/src/bmd/codegen/codegen_c_cpp.cpp
+++ b/src/bmd/codegen/codegen_c_cpp.cpp
@@ -655,7 +655,11 @@ struct C_Cpp_Code_Generator::Visitor {
                 // Only C23 supports constexpr; there are no "true constants" prior to that.
                 // Therefore, we are forced to inline these whenever used.
                 if (!self.m_options.c_23) {
-                    append_value(self.m_out, constant->const_value()->concrete_value());
+                    const bms::Concrete_Value value = constant->const_value()->concrete_value();
+                    // The minus of a negative value must not merge with a prefix operator.
+                    Scoped_Parenthesization p
+                        = self.parenthesize_if(value.type == bms::Concrete_Type::Int && value.int_value < 0);
+                    append_value(self.m_out, value);
                     return {};
                 }
             }
-- 
2.43.0


From 4d8d7fca9f9a659cf767c09bb4614c39d9526a32 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:38:33 +0000
Subject: [PATCH 83/84] fix: generate the requires-clauses of BMS functions

---
 src/bmd/codegen/codegen_bms.cpp | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/src/bmd/codegen/codegen_bms.cpp b/src/bmd/codegen/codegen_bms.cpp
index acb537d..10e7122 100644
--- a/src/bmd/codegen/codegen_bms.cpp
+++ b/src/bmd/codegen/codegen_bms.cpp
@@ -177,6 +177,13 @@ struct Bms_Code_Generator::Visitor {
             return r;
         }
 
+        if (const Some_Node* clause = function.get_requires_clause_node()) {
+            self.write_infix_keyword(bms::Token_Type::keyword_requires);
+            if (auto r = self.generate_code(clause); !r) {
+                return r;
+            }
+        }
+
         self.separate_after_function();
         if (auto r = Visitor { self, function.get_body_node() }(function.get_body()); !r) {
             return r;
-- 
2.43.0


From d8f4dc7f22df2e025d4a1108f79c9eb95994094a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:49:38 +0000
Subject: [PATCH 84/84] fix: zeros lost in the middle of printed 128-bit
 integers

---
 src/common/diagnostics.cpp | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/src/common/diagnostics.cpp b/src/common/diagnostics.cpp
index 26b522c..9e074df 100644
--- a/src/common/diagnostics.cpp
+++ b/src/common/diagnostics.cpp
@@ -32,8 +32,11 @@ std::string to_string(Uint128 x)
     /// The greatest power of 10 that fits into a 64-bit integer.
     constexpr Uint128 exp10_19 = 10000000000000000000ull;
 
-    return x <= std::uint64_t(-1) ? std::to_string(Uint64(x))
-                                  : to_string(x / exp10_19) + std::to_string(Uint64(x % exp10_19));
+    if (x <= std::uint64_t(-1)) {
+        return std::to_string(Uint64(x));
+    }
+    const std::string low = std::to_string(Uint64(x % exp10_19));
+    return to_string(x / exp10_19) + std::string(19 - low.length(), '0') + low;
 }
 
 std::string to_string(Int128 x)
-- 
2.43.0

