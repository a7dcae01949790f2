From 611ce0adc70a727ef60342e97e18d7c95236a9f9 Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:33:00 +0000
Subject: [PATCH 01/73] fix: carry of 64-bit literal accumulation when crossing
 2^31

---
 pnut.c | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/pnut.c b/pnut.c
index 3bb6a91..0d0a2b6 100644
--- a/pnut.c
+++ b/pnut.c
@@ -988,10 +988,12 @@ void u64_mul_u32(int *x, int y) {
 
 // x = x + y
 void u64_add_u32(int *x, int y) {
-  int lo = x[0] + y;
-  // Carry (using signed integers)
-  x[1] += ((x[0] < 0) != (lo < 0));
-  x[0] = lo;
+  // The addition is done on 16 bit halves so that the carry can be computed
+  // without relying on the overflow behavior of signed integers.
+  int lo = (x[0] & 0xffff) + (y & 0xffff);
+  int hi = I32_LOGICAL_RSHIFT_16(x[0]) + I32_LOGICAL_RSHIFT_16(y) + (lo >> 16);
+  x[1] += hi >> 16;
+  x[0] = ((hi & 0xffff) << 16) + (lo & 0xffff);
 }
 
 // Pack a 64 bit unsigned integer into an object.
-- 
2.43.0


From d1dcb4724337feab9a4f8d3fff3239544f8ae6b1 Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:33:00 +0000
Subject: [PATCH 02/73] fix: keep the parentheses of a == (b == c) in the shell
 backend

---
 sh.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/sh.c b/sh.c
index 22ba1e6..24c0628 100644
--- a/sh.c
+++ b/sh.c
@@ -1160,8 +1160,8 @@ text with_prefixed_side_effects(ast test_side_effects, text code) {
 // Return true if the operator is associative.
 // Associative operators can be chained without parentheses.
 bool is_associative_operator(int op) {
-  return (op == '+')   | (op == '*')     | (op == '&')    | (op == '|')    | (op == '^')
-      |  (op == EQ_EQ) | (op == AMP_AMP) | (op == BAR_BAR);
+  return (op == '+')     | (op == '*')     | (op == '&')    | (op == '|')    | (op == '^')
+      |  (op == AMP_AMP) | (op == BAR_BAR);
 }
 
 // Wrap code in $((...)) if it's not already and if it's already in $(( )), wrap
-- 
2.43.0


From 2dc8a37921fea3af072a401d014082b178f56ba9 Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:33:54 +0000
Subject: [PATCH 03/73] fix: shell backend compiled ~ and ! of a literal as -,
 and -(-x) as a decrement

---
 sh.c | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/sh.c b/sh.c
index 24c0628..c4c3daa 100644
--- a/sh.c
+++ b/sh.c
@@ -1245,11 +1245,12 @@ text comp_rvalue_go(ast node, int context, ast test_side_effects, int outer_op)
       // +x is equivalent to x
       return comp_rvalue_go(child0, context, test_side_effects, outer_op);
     } else if (op == '-' || op == '~' || op == '!') {
-      if (get_op(child0) == INTEGER || op == INTEGER_HEX || op == INTEGER_OCT) {
+      if (op == '-' && outer_op != '-' && get_op(child0) == INTEGER) {
         return wrap_in_condition_if_needed(context, test_side_effects, wrap_integer(-1, child0));
       } else {
         sub1 = comp_rvalue_go(child0, RVALUE_CTX_ARITH_EXPANSION, 0, op);
-        return wrap_if_needed(false, context, test_side_effects, string_concat(wrap_char(op), sub1), outer_op, op);
+        // Parenthesize nested negations so that -(-x) is not compiled to a decrement (--x)
+        return wrap_if_needed(op == '-' && outer_op == '-', context, test_side_effects, string_concat(wrap_char(op), sub1), outer_op, op);
       }
     } else if (op == MINUS_MINUS_PRE) {
       sub1 = comp_lvalue(child0);
-- 
2.43.0


From c9137f3fc85f3c4b5d73033db926debe5e2dd567 Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:35:00 +0000
Subject: [PATCH 04/73] fix: shell backend dropped the function calls of a cast
 operand in a test

---
 sh.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/sh.c b/sh.c
index c4c3daa..936ac70 100644
--- a/sh.c
+++ b/sh.c
@@ -1324,7 +1324,7 @@ text comp_rvalue_go(ast node, int context, ast test_side_effects, int outer_op)
         return wrap_if_needed(true, context, test_side_effects, string_concat3(sub1, op_to_str(op), sub2), outer_op, op);
       }
     } else if (op == CAST) { // Casts are no-op
-      return comp_rvalue_go(child1, context, 0, op);
+      return comp_rvalue_go(child1, context, test_side_effects, op);
     } else {
       fatal_error("comp_rvalue_go: unknown rvalue with 2 children");
       return 0;
-- 
2.43.0


From efaa4396f4a5c9eaa1063fa9f72266d539201dc8 Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:35:01 +0000
Subject: [PATCH 05/73] fix: shell backend lost the precedence of x++ and x--
 as operands

---
 sh.c | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/sh.c b/sh.c
index 936ac70..b5e9ead 100644
--- a/sh.c
+++ b/sh.c
@@ -1164,6 +1164,13 @@ bool is_associative_operator(int op) {
       |  (op == AMP_AMP) | (op == BAR_BAR);
 }
 
+// Return true if a sum or difference must be parenthesized to be an operand of
+// the operator, on its right hand side at least. Used by post-increment and
+// post-decrement, which are compiled to (x += 1) - 1 and (x -= 1) + 1.
+bool binds_tighter_than_rhs_sum(int op) {
+  return (op == '-') | (op == '*') | (op == '/') | (op == '%') | (op == '~') | (op == '!') | (op == CAST);
+}
+
 // Wrap code in $((...)) if it's not already and if it's already in $(( )), wrap
 // it in parentheses if parens_otherwise is true. If it's not in an arithmetic
 // expansion and we're compiling tests, we also add the test condition to make it
@@ -1260,10 +1267,10 @@ text comp_rvalue_go(ast node, int context, ast test_side_effects, int outer_op)
       return wrap_if_needed(true, context, test_side_effects, string_concat(sub1, wrap_str_lit(" += 1")), outer_op, op);
     } else if (op == MINUS_MINUS_POST) {
       sub1 = comp_lvalue(child0);
-      return wrap_if_needed(false, context, test_side_effects,string_concat4(wrap_char('('), sub1, wrap_str_lit(" -= 1)"), wrap_str_lit(" + 1")), outer_op, '+');
+      return wrap_if_needed(binds_tighter_than_rhs_sum(outer_op), context, test_side_effects,string_concat4(wrap_char('('), sub1, wrap_str_lit(" -= 1)"), wrap_str_lit(" + 1")), outer_op, '+');
     } else if (op == PLUS_PLUS_POST) {
       sub1 = comp_lvalue(child0);
-      return wrap_if_needed(false, context, test_side_effects, string_concat4(wrap_char('('), sub1, wrap_str_lit(" += 1)"), wrap_str_lit(" - 1")), outer_op, '-');
+      return wrap_if_needed(binds_tighter_than_rhs_sum(outer_op), context, test_side_effects, string_concat4(wrap_char('('), sub1, wrap_str_lit(" += 1)"), wrap_str_lit(" - 1")), outer_op, '-');
     } else if (op == SIZEOF_KW) {
       // child0 is either an abstract declaration or an expression
       if (get_op(child0) == DECL) {
-- 
2.43.0


From 96154bff58edba8303e4cf22d8d6aaebca61fef4 Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:35:14 +0000
Subject: [PATCH 06/73] fix: shell backend compiled -(int)-x as a decrement

---
 sh.c | 14 ++++++++++++--
 1 file changed, 12 insertions(+), 2 deletions(-)

diff --git a/sh.c b/sh.c
index b5e9ead..f123aec 100644
--- a/sh.c
+++ b/sh.c
@@ -1171,6 +1171,15 @@ bool binds_tighter_than_rhs_sum(int op) {
   return (op == '-') | (op == '*') | (op == '/') | (op == '%') | (op == '~') | (op == '!') | (op == CAST);
 }
 
+// Return true if the expression is compiled to code starting with unary minus
+bool is_negation(ast node) {
+  while (get_op(node) == PARENS || get_op(node) == CAST || (get_op(node) == '+' && get_nb_children(node) == 1)) {
+    node = get_child(node, get_op(node) == CAST);
+  }
+  if (get_op(node) != '-') return false;
+  return get_nb_children(node) == 1;
+}
+
 // Wrap code in $((...)) if it's not already and if it's already in $(( )), wrap
 // it in parentheses if parens_otherwise is true. If it's not in an arithmetic
 // expansion and we're compiling tests, we also add the test condition to make it
@@ -1252,12 +1261,13 @@ text comp_rvalue_go(ast node, int context, ast test_side_effects, int outer_op)
       // +x is equivalent to x
       return comp_rvalue_go(child0, context, test_side_effects, outer_op);
     } else if (op == '-' || op == '~' || op == '!') {
-      if (op == '-' && outer_op != '-' && get_op(child0) == INTEGER) {
+      if (op == '-' && get_op(child0) == INTEGER) {
         return wrap_in_condition_if_needed(context, test_side_effects, wrap_integer(-1, child0));
       } else {
         sub1 = comp_rvalue_go(child0, RVALUE_CTX_ARITH_EXPANSION, 0, op);
         // Parenthesize nested negations so that -(-x) is not compiled to a decrement (--x)
-        return wrap_if_needed(op == '-' && outer_op == '-', context, test_side_effects, string_concat(wrap_char(op), sub1), outer_op, op);
+        if (op == '-' && is_negation(child0)) sub1 = string_concat3(wrap_char('('), sub1, wrap_char(')'));
+        return wrap_if_needed(false, context, test_side_effects, string_concat(wrap_char(op), sub1), outer_op, op);
       }
     } else if (op == MINUS_MINUS_PRE) {
       sub1 = comp_lvalue(child0);
-- 
2.43.0


From d9c711b8ece38945a0c7f13ee082d2d54fa1d342 Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:35:18 +0000
Subject: [PATCH 07/73] fix: shell backend dropped assignments nested in an
 expression statement

---
 sh.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/sh.c b/sh.c
index f123aec..1617b1d 100644
--- a/sh.c
+++ b/sh.c
@@ -993,6 +993,7 @@ ast handle_side_effects_go(ast node, bool executes_conditionally) {
         // In that case, we reuse the left hand side of the assignment as the result location
         return handle_fun_call_side_effect(child1, child0, executes_conditionally);
       } else {
+        contains_side_effects = true;
         sub1 = handle_side_effects_go(child0, executes_conditionally);
         sub2 = handle_side_effects_go(child1, executes_conditionally); // We could inline that one since the assignment to the global variable is done after the last handle_side_effects_go call
         return new_ast2(op, sub1, sub2);
-- 
2.43.0


From 18dd6c021fc8877cc6ade678a05f51a793ae2edb Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:35:21 +0000
Subject: [PATCH 08/73] fix: shell backend dropped function calls preceding a
 ternary in a test

---
 sh.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/sh.c b/sh.c
index 1617b1d..b05a825 100644
--- a/sh.c
+++ b/sh.c
@@ -1038,6 +1038,7 @@ ast handle_side_effects_go(ast node, bool executes_conditionally) {
     conditional_fun_calls = 0;
     sub2 = handle_side_effects_go(child2, true);
     right_conditional_fun_calls = conditional_fun_calls;
+    conditional_fun_calls = previous_conditional_fun_calls;
     if (left_conditional_fun_calls != 0 || right_conditional_fun_calls != 0) {
       fatal_error("Conditional function calls in ternary operator not allowed");
     }
-- 
2.43.0


From 129128f57c16d1f2fbb8b6f22497a987ed4ffbf5 Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:35:34 +0000
Subject: [PATCH 09/73] fix: continue in a do-while loop skipped the condition
 in the shell backend

---
 sh.c | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/sh.c b/sh.c
index b05a825..129ed54 100644
--- a/sh.c
+++ b/sh.c
@@ -2014,9 +2014,12 @@ bool comp_loop(text cond, ast body, ast loop_end_stmt, text last_line, STMT_CTX
   // modifying comp_statement to accomodate this, we just remove the code
   // generated by comp_statement using undo_glo_decls and save the indices of
   // the declarations of the loop end actions so they can replayed later.
-  if (loop_end_stmt) {
+  // The same goes for the last line of do-while loops, which tests the
+  // condition and must also be executed before a continue statement.
+  if (loop_end_stmt || last_line) {
     heap[loop_binding + 2] = glo_decl_ix;
-    comp_statement(loop_end_stmt, stmt_ctx);
+    if (last_line) append_glo_decl(last_line);
+    else comp_statement(loop_end_stmt, stmt_ctx);
     undo_glo_decls(heap[loop_binding + 2]);
     heap[loop_binding + 3] = glo_decl_ix;
   }
@@ -2025,7 +2028,6 @@ bool comp_loop(text cond, ast body, ast loop_end_stmt, text last_line, STMT_CTX
   nest_level += 1;
   start_glo_decl_idx = glo_decl_ix;
   always_returns = comp_statement(body, stmt_ctx);
-  append_glo_decl(last_line);
   replay_glo_decls(heap[loop_binding + 2], heap[loop_binding + 3], true);
   // while loops cannot be empty so we insert ':' if it's empty
   if (!any_active_glo_decls(start_glo_decl_idx)) append_glo_decl(wrap_char(':'));
-- 
2.43.0


From fe52dc442c3442c42d9d28162f04bc1b1b84a8eb Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:35:45 +0000
Subject: [PATCH 10/73] fix: evaluate the operands of a comma statement in
 order in the shell backend

---
 sh.c | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/sh.c b/sh.c
index 129ed54..f655656 100644
--- a/sh.c
+++ b/sh.c
@@ -2188,6 +2188,9 @@ bool comp_statement(ast node, STMT_CTX stmt_ctx) {
   } else if (op == '=') { // six.x=y
     comp_assignment(get_child_('=', node, 0), get_child_('=', node, 1));
     return false;
+  } else if (op == ',') { // Evaluate the operands in order, each as a statement
+    comp_statement(get_child_(',', node, 0), stmt_ctx);
+    return comp_statement(get_child_(',', node, 1), stmt_ctx);
   } else if (op == ':') {
     // Labelled statement are not very useful as gotos are not supported in the
     // Shell backend, but we still emit a label comment for readability.
-- 
2.43.0


From 2734fdc6050d60f126f7bf7cc5246989a5c712fb Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:35:49 +0000
Subject: [PATCH 11/73] fix: shell backend lost the parentheses of x = (a, b)

---
 sh.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/sh.c b/sh.c
index f655656..687df71 100644
--- a/sh.c
+++ b/sh.c
@@ -1193,7 +1193,7 @@ text wrap_if_needed(int parens_otherwise, int context, ast test_side_effects, te
   if (context == RVALUE_CTX_ARITH_EXPANSION) {
     if ( parens_otherwise
       && outer_op != 0
-      && outer_op != '=' // Assignment has the lowest precedence so we never use parentheses
+      && (outer_op != '=' || inner_op == ',') // Only the comma operator has a lower precedence than assignment
       && (!is_associative_operator(inner_op) || inner_op != outer_op) // Adjacent associative operations don't need parentheses
       ) {
       return string_concat3(wrap_char('('), code, wrap_char(')'));
-- 
2.43.0


From b090070a2a3ae3976eee7fdb732412ee0a520da1 Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:36:43 +0000
Subject: [PATCH 12/73] fix: global arrays called an undefined function without
 RT_NO_INIT_GLOBALS

---
 sh-runtime.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/sh-runtime.c b/sh-runtime.c
index 54f01fc..df3da6e 100644
--- a/sh-runtime.c
+++ b/sh-runtime.c
@@ -326,7 +326,7 @@ DEPENDS_ON(malloc)
   }
 #else
 DEPENDS_ON(initialize)
-  putstr("defarr() { _malloc $1 $2; initialize_memory $@; }\n");
+  putstr("defarr() { _malloc $1 $2; initialize $@; }\n");
 #endif
 END_RUNTIME_FUN(defarr)
 
-- 
2.43.0


From 392d566ae5de5c0e6ee0edf8c2d60ee66f8e9dd0 Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:36:54 +0000
Subject: [PATCH 13/73] fix: array initializers were dropped after an
 uninitialized global array with RT_NO_INIT_GLOBALS

---
 sh.c | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/sh.c b/sh.c
index 687df71..9c9f68b 100644
--- a/sh.c
+++ b/sh.c
@@ -2356,6 +2356,8 @@ void comp_glo_var_decl(ast node) {
         fatal_error("Array declaration without size or initializer list");
       }
 
+      // Redefine defarr if it was first defined without support for initializers
+      if (runtime_use_initialize && !runtime_initialize_defined) runtime_defarr_defined = false;
       runtime_defarr();
 
       append_glo_decl(
-- 
2.43.0


From 5fe19a3f81ddca4708934da97bedf55b56f30266 Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:37:40 +0000
Subject: [PATCH 14/73] fix: shell backend compiled a parenthesized lvalue to
 its address

---
 sh.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/sh.c b/sh.c
index 9c9f68b..153aeb2 100644
--- a/sh.c
+++ b/sh.c
@@ -1514,7 +1514,7 @@ text comp_lvalue(ast node) {
   } else if (op == CAST) {
     return comp_lvalue(get_child_(CAST, node, 1));
   } else if (op == PARENS) {
-    return comp_lvalue_address(get_child_(PARENS, node, 0));
+    return comp_lvalue(get_child_(PARENS, node, 0));
   } else {
     printf("op=%d %c\n", op, op);
     fatal_error("comp_lvalue: unknown lvalue");
-- 
2.43.0


From 95386e2b530cbb3231e73e1932d31b59fd65be66 Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:38:12 +0000
Subject: [PATCH 15/73] fix: shell backend lost the precedence of &a[i] as an
 operand

---
 sh.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/sh.c b/sh.c
index 153aeb2..cbffbbb 100644
--- a/sh.c
+++ b/sh.c
@@ -1309,7 +1309,7 @@ text comp_rvalue_go(ast node, int context, ast test_side_effects, int outer_op)
         return 0;
       }
     } else if (op == '&') {
-      return wrap_if_needed(false, context, test_side_effects, comp_lvalue_address(child0), outer_op, op);
+      return wrap_if_needed(true, context, test_side_effects, comp_lvalue_address(child0), outer_op, '+');
     } else {
       printf("op=%d %c", op, op);
       fatal_error("comp_rvalue_go: unexpected operator");
-- 
2.43.0


From 599fcf765950d38fda90024e0472c1f53661fd58 Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:44:19 +0000
Subject: [PATCH 16/73] fix: continue in a do-while loop skipped the condition
 in the native backends

---
 exe.c | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/exe.c b/exe.c
index a70980c..f363e12 100644
--- a/exe.c
+++ b/exe.c
@@ -2169,13 +2169,15 @@ void codegen_statement(ast node) {
 
     lbl1 = alloc_label(0); // do statement start
     lbl2 = alloc_label(0); // break point
+    lbl3 = alloc_label(0); // continue point, before the condition
 
     save_fs = cgc_fs;
     save_locals = cgc_locals;
 
-    cgc_add_enclosing_loop(cgc_fs, lbl2, lbl1);
+    cgc_add_enclosing_loop(cgc_fs, lbl2, lbl3);
     def_label(lbl1);
     codegen_statement(get_child_(DO_KW, node, 0));
+    def_label(lbl3);
     codegen_rvalue(get_child_(DO_KW, node, 1));
     pop_reg(reg_X);
     grow_fs(-1);
-- 
2.43.0


From 6504caadfae1762f781806bca09efcd693adbf1e Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:44:19 +0000
Subject: [PATCH 17/73] fix: && and || evaluated to one of their operands
 instead of 0 or 1 in the native backends

---
 exe.c | 15 ++++++++++-----
 1 file changed, 10 insertions(+), 5 deletions(-)

diff --git a/exe.c b/exe.c
index f363e12..502bafc 100644
--- a/exe.c
+++ b/exe.c
@@ -933,7 +933,7 @@ ast value_type(ast node) {
       return value_type(child0); // Only the left side is relevant here
     } else if (op == AMP_AMP || op == BAR_BAR) {
       // TODO: Check that the operands have compatible types?
-      return value_type(child0);
+      return int_type; // Logical operators always return an integer
     } else if (op == '(') {
       binding = cgc_lookup_fun(get_val_(IDENTIFIER, child0), cgc_globals);
       if (binding != 0) {
@@ -1570,15 +1570,20 @@ void codegen_rvalue(ast node) {
       push_reg(reg_X);
     } else if (op == AMP_AMP || op == BAR_BAR) {
       lbl1 = alloc_label(0);
+      lbl2 = alloc_label(0);
       codegen_rvalue(child0);
-      pop_reg(reg_X);
-      push_reg(reg_X);
+      pop_reg(reg_X); grow_fs(-1);
       xor_reg_reg(reg_Y, reg_Y);
       jump_cond_reg_reg(op == AMP_AMP ? EQ : NE, lbl1, reg_X, reg_Y);
-      pop_reg(reg_X); grow_fs(-1);
       codegen_rvalue(child1);
-      grow_fs(-1);
+      pop_reg(reg_X); grow_fs(-1);
+      xor_reg_reg(reg_Y, reg_Y);
       def_label(lbl1);
+      // reg_X is the last operand evaluated and reg_Y is 0
+      jump_cond_reg_reg(EQ, lbl2, reg_X, reg_Y);
+      mov_reg_imm(reg_X, 1);
+      def_label(lbl2);
+      push_reg(reg_X);
     } else if (op == '(') {
       codegen_call(node);
     } else if (op == '.') {
-- 
2.43.0


From df284c9c5d68db3e1a0d184acb616576596218b3 Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:44:19 +0000
Subject: [PATCH 18/73] fix: pointer subtraction with a negative result used an
 unsigned division

---
 exe.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/exe.c b/exe.c
index 502bafc..bcba842 100644
--- a/exe.c
+++ b/exe.c
@@ -281,7 +281,7 @@ void div_for_pointer_arith(int reg, int width) {
     }
 
     mov_reg_imm(reg_Y, width);
-    div_reg_reg(reg_X, reg_Y);
+    idiv_reg_reg(reg_X, reg_Y);
 
     if (reg_start != reg_X) {
       mov_reg_reg(reg_start, reg_X);
-- 
2.43.0


From 4c2b18a5450df0a577b077afd7b9281dc2194fd3 Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:44:19 +0000
Subject: [PATCH 19/73] fix: the offset of the members of an anonymous struct
 in a union was ignored

---
 exe.c | 20 ++++----------------
 1 file changed, 4 insertions(+), 16 deletions(-)

diff --git a/exe.c b/exe.c
index bcba842..fc122d9 100644
--- a/exe.c
+++ b/exe.c
@@ -1300,10 +1300,7 @@ int codegen_lvalue(ast node) {
       if (is_struct_or_union_type(type)) {
         codegen_lvalue(child0);
         pop_reg(reg_X);
-        // union members are at the same offset: 0
-        if (get_op(type) == STRUCT_KW) {
-          add_reg_imm(reg_X, struct_member_offset(type, child1));
-        }
+        add_reg_imm(reg_X, struct_member_offset(type, child1));
         push_reg(reg_X);
         grow_fs(-1);
         lvalue_width = type_width(get_child_(DECL, struct_member(type, child1), 1), true, false); // child 1 of member is the type
@@ -1317,10 +1314,7 @@ int codegen_lvalue(ast node) {
         type = get_child_('*', type, 1);
         codegen_rvalue(child0);
         pop_reg(reg_X);
-        // union members are at the same offset: 0
-        if (get_op(type) == STRUCT_KW) {
-          add_reg_imm(reg_X, struct_member_offset(type, child1));
-        }
+        add_reg_imm(reg_X, struct_member_offset(type, child1));
         push_reg(reg_X);
         grow_fs(-1);
         lvalue_width = type_width(get_child_(DECL, struct_member(type, child1), 1), true, false); // child 1 of member is the type
@@ -1593,10 +1587,7 @@ void codegen_rvalue(ast node) {
         codegen_lvalue(child0);
         pop_reg(reg_Y);
         grow_fs(-1);
-        // union members are at the same offset: 0
-        if (get_op(type1) == STRUCT_KW) {
-          add_reg_imm(reg_Y, struct_member_offset(type1, child1));
-        }
+        add_reg_imm(reg_Y, struct_member_offset(type1, child1));
         if (!is_aggregate_type(type2)) {
           load_mem_location(reg_Y, reg_Y, 0, type_width(type2, false, false), is_signed_numeric_type(type2));
         }
@@ -1612,10 +1603,7 @@ void codegen_rvalue(ast node) {
         codegen_rvalue(child0);
         pop_reg(reg_Y);
         grow_fs(-1);
-        // union members are at the same offset: 0
-        if (get_op(type1) == STRUCT_KW) {
-          add_reg_imm(reg_Y, struct_member_offset(type1, child1));
-        }
+        add_reg_imm(reg_Y, struct_member_offset(type1, child1));
         if (!is_aggregate_type(type2)) {
           load_mem_location(reg_Y, reg_Y, 0, type_width(type2, false, false), is_signed_numeric_type(type2));
         }
-- 
2.43.0


From b288e013f56b56eba85324325b867d91914bc665 Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:44:19 +0000
Subject: [PATCH 20/73] fix: struct members were accessed before the padding
 aligning them

---
 exe.c | 27 +++++++++++++++++----------
 1 file changed, 17 insertions(+), 10 deletions(-)

diff --git a/exe.c b/exe.c
index fc122d9..3961acf 100644
--- a/exe.c
+++ b/exe.c
@@ -747,12 +747,6 @@ int struct_member_offset_go(ast struct_type, ast member_ident) {
   while (members != 0) {
     decl = car_(DECL, members);
     ident = get_child_opt_(DECL, IDENTIFIER, decl, 0);
-    if (ident == 0) { // Anonymous struct member, search that struct
-      sub_offset = struct_member_offset_go(get_child_(DECL, decl, 1), member_ident);
-      if (sub_offset != -1) return offset + sub_offset;
-    } else if (get_val_(IDENTIFIER, member_ident) == get_val_(IDENTIFIER, ident)) {
-      return offset;
-    }
 
     if (get_op(struct_type) == STRUCT_KW) {
       // For unions, fields are always at offset 0. We must still iterate
@@ -760,8 +754,16 @@ int struct_member_offset_go(ast struct_type, ast member_ident) {
       // final offset is not 0.
       member_size = type_width(get_child_(DECL, decl, 1), true, false);
       if (member_size != 0) offset = align_to(type_largest_member(get_child_(DECL, decl, 1)), offset);
-      offset += member_size;
     }
+
+    if (ident == 0) { // Anonymous struct member, search that struct
+      sub_offset = struct_member_offset_go(get_child_(DECL, decl, 1), member_ident);
+      if (sub_offset != -1) return offset + sub_offset;
+    } else if (get_val_(IDENTIFIER, member_ident) == get_val_(IDENTIFIER, ident)) {
+      return offset;
+    }
+
+    if (get_op(struct_type) == STRUCT_KW) offset += member_size;
     members = tail(members);
   }
 
@@ -1820,6 +1822,7 @@ void codegen_initializer(bool local, ast init, ast type, int base_reg, int offse
   ast inner_type;
   int arr_len;
   int inner_type_width;
+  int struct_offset = offset;
 
   type = canonicalize_type(type);
 
@@ -1862,8 +1865,10 @@ void codegen_initializer(bool local, ast init, ast type, int base_reg, int offse
           members = get_child_(STRUCT_KW, type, 2);
           while (init != 0 && members != 0) {
             inner_type = get_child_(DECL, car_(DECL, members), 1);
+            inner_type_width = type_width(inner_type, true, false);
+            if (inner_type_width != 0) offset = struct_offset + align_to(type_largest_member(inner_type), offset - struct_offset);
             codegen_initializer(local, car(init), inner_type, base_reg, offset);
-            offset += type_width(inner_type, true, false);
+            offset += inner_type_width;
             init = tail(init);
             members = tail(members);
           }
@@ -1871,8 +1876,10 @@ void codegen_initializer(bool local, ast init, ast type, int base_reg, int offse
           // Initialize rest of the members to 0
           while (local && members != 0) {
             inner_type = get_child_(DECL, car_(DECL, members), 1);
-            initialize_memory(0, base_reg, offset, type_width(inner_type, true, false));
-            offset += type_width(inner_type, true, false);
+            inner_type_width = type_width(inner_type, true, false);
+            if (inner_type_width != 0) offset = struct_offset + align_to(type_largest_member(inner_type), offset - struct_offset);
+            initialize_memory(0, base_reg, offset, inner_type_width);
+            offset += inner_type_width;
             members = tail(members);
           }
           break;
-- 
2.43.0


From b68932c3c19b21509cecd1ec0bf897c4aebb5205 Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:45:37 +0000
Subject: [PATCH 21/73] fix: multidimensional arrays were dereferenced like
 arrays of pointers in the native backends

---
 exe.c | 16 +++++++++++-----
 1 file changed, 11 insertions(+), 5 deletions(-)

diff --git a/exe.c b/exe.c
index 3961acf..f05d338 100644
--- a/exe.c
+++ b/exe.c
@@ -659,7 +659,7 @@ int type_width(ast type, bool array_value, bool word_align) {
 
 // Width of an object pointed to by a reference type.
 ast ref_type_width(ast type) {
-  return type_width(dereference_type(type), false, false);
+  return type_width(dereference_type(type), true, false);
 }
 
 // Structs, enums and unions types come in 2 variants:
@@ -1108,7 +1108,10 @@ void codegen_binop(int op, ast lhs, ast rhs) {
     }
 
     add_reg_reg(reg_X, reg_Y);
-    load_mem_location(reg_X, reg_X, 0, width, is_signed);
+    // Aggregates are represented by their address, so no need to dereference
+    if (!is_aggregate_type(dereference_type(is_pointer_type(left_type) ? left_type : right_type))) {
+      load_mem_location(reg_X, reg_X, 0, width, is_signed);
+    }
   } else {
     putstr("op="); putint(op); putchar('\n');
     fatal_error("codegen_binop: unknown op");
@@ -1453,9 +1456,12 @@ void codegen_rvalue(ast node) {
       grow_fs(-1);
       if (is_function_type(type1)) {
       } else if (is_pointer_type(type1)) {
-        pop_reg(reg_X);
-        load_mem_location(reg_X, reg_X, 0, ref_type_width(type1), is_signed_numeric_type(dereference_type(type1)));
-        push_reg(reg_X);
+        // Aggregates are represented by their address, so no need to dereference
+        if (!is_aggregate_type(dereference_type(type1))) {
+          pop_reg(reg_X);
+          load_mem_location(reg_X, reg_X, 0, ref_type_width(type1), is_signed_numeric_type(dereference_type(type1)));
+          push_reg(reg_X);
+        }
       } else {
         fatal_error("codegen_rvalue: non-pointer is being dereferenced with *");
       }
-- 
2.43.0


From d29b22ebd6fa838320ce2b18a6a5405719e426c2 Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:47:00 +0000
Subject: [PATCH 22/73] fix: initializing a struct member from a struct
 overwrote the member following it

---
 exe.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/exe.c b/exe.c
index f05d338..2e6e1d6 100644
--- a/exe.c
+++ b/exe.c
@@ -1920,7 +1920,7 @@ void codegen_initializer(bool local, ast init, ast type, int base_reg, int offse
         codegen_lvalue(init);
         pop_reg(reg_X);
         grow_fs(-1);
-        copy_obj(base_reg, offset, reg_X, 0, type_width(type, true, true));
+        copy_obj(base_reg, offset, reg_X, 0, type_width(type, true, false));
       } else if (get_op(type) != '[') {
         codegen_rvalue(init);
         pop_reg(reg_X);
-- 
2.43.0


From c4a76c39070e7a774b1a307f2e6c04052305a43e Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:47:40 +0000
Subject: [PATCH 23/73] fix: the type of a call through a function pointer was
 unknown to the native backends

---
 exe.c | 15 ++++-----------
 1 file changed, 4 insertions(+), 11 deletions(-)

diff --git a/exe.c b/exe.c
index 2e6e1d6..8d1c78b 100644
--- a/exe.c
+++ b/exe.c
@@ -937,17 +937,10 @@ ast value_type(ast node) {
       // TODO: Check that the operands have compatible types?
       return int_type; // Logical operators always return an integer
     } else if (op == '(') {
-      binding = cgc_lookup_fun(get_val_(IDENTIFIER, child0), cgc_globals);
-      if (binding != 0) {
-        // heap[binding+5] is the '(' type
-        return get_child_('(', heap[binding+5], 0);
-      } else {
-        putstr("ident = ");
-        putstr(STRING_BUF(get_val_(IDENTIFIER, child0)));
-        putchar('\n');
-        fatal_error("value_type: function not found");
-        return -1;
-      }
+      left_type = value_type(child0);
+      if (get_op(left_type) == '*') left_type = get_child_('*', left_type, 1); // Dereference function pointer
+      if (get_op(left_type) != '(') fatal_error("value_type: called object is not a function or function pointer");
+      return get_child_('(', left_type, 0);
     } else if (op == '.') {
       left_type = value_type(child0);
       if (is_struct_or_union_type(left_type)) {
-- 
2.43.0


From 7f92aae10a858820786c00fc688b2ab7ab62391d Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:50:12 +0000
Subject: [PATCH 24/73] fix: missing integer promotions and conversions in the
 native backends

---
 exe.c | 125 ++++++++++++++++++++++++++++++++++++++++++++++++----------
 1 file changed, 105 insertions(+), 20 deletions(-)

diff --git a/exe.c b/exe.c
index 8d1c78b..341f258 100644
--- a/exe.c
+++ b/exe.c
@@ -80,6 +80,9 @@ void write_i32_le(int n) {
 // If the main function returns a value
 bool main_returns = false;
 
+// Return type of the function being compiled
+ast cgc_return_type;
+
 // Environment tracking
 #include "env.c"
 
@@ -820,6 +823,25 @@ int resolve_identifier(int ident_probe) {
   return 0;
 }
 
+// Integer promotions: integers narrower than int are converted to int
+ast promoted_type(ast type) {
+  if (get_op(type) == CHAR_KW || get_op(type) == SHORT_KW || get_op(type) == ENUM_KW) return int_type;
+  return type;
+}
+
+// Usual arithmetic conversions: common type of the operands of a binary operator
+ast arithmetic_type(ast left_type, ast right_type) {
+  int left_width, right_width;
+
+  left_type = promoted_type(left_type);
+  right_type = promoted_type(right_type);
+  left_width = type_width(left_type, false, false);
+  right_width = type_width(right_type, false, false);
+
+  if (left_width != right_width) return left_width > right_width ? left_type : right_type;
+  return is_signed_numeric_type(left_type) ? right_type : left_type;
+}
+
 // Compute the type of an expression
 ast value_type(ast node) {
   int op = get_op(node);
@@ -844,7 +866,7 @@ ast value_type(ast node) {
     }
 #endif
     else if (op == CHARACTER) {
-      return char_type;
+      return int_type; // Character constants are integers
     } else if (op == STRING) {
       return string_type;
     } else if (op == IDENTIFIER) {
@@ -887,7 +909,9 @@ ast value_type(ast node) {
       return pointer_type(left_type, false);
     } else if (op == '!') {
       return int_type; // Logical not always returns an integer
-    } else if (op == '+' || op == '-' || op == '~' || op == MINUS_MINUS || op == PLUS_PLUS || op == MINUS_MINUS_POST || op == PLUS_PLUS_POST || op == PLUS_PLUS_PRE || op == MINUS_MINUS_PRE || op == PARENS) {
+    } else if (op == '+' || op == '-' || op == '~') {
+      return promoted_type(value_type(child0));
+    } else if (op == MINUS_MINUS || op == PLUS_PLUS || op == MINUS_MINUS_POST || op == PLUS_PLUS_POST || op == PLUS_PLUS_PRE || op == MINUS_MINUS_PRE || op == PARENS) {
       // Unary operation don't change the type
       return value_type(child0);
     } else if (op == SIZEOF_KW) {
@@ -900,8 +924,9 @@ ast value_type(ast node) {
 
   } else if (nb_children == 2) {
 
-    if (op == '+' || op == '-' || op == '*' || op == '/' || op == '%' || op == '&' || op == '|' || op == '^'
-     || op == LSHIFT || op == RSHIFT) {
+    if (op == LSHIFT || op == RSHIFT) {
+      return promoted_type(value_type(child0)); // The type of a shift is the type of its left operand
+    } else if (op == '+' || op == '-' || op == '*' || op == '/' || op == '%' || op == '&' || op == '|' || op == '^') {
       left_type = value_type(child0);
       right_type = value_type(child1);
       if (is_pointer_type(left_type) && is_pointer_type(right_type) && op == '-') {
@@ -909,9 +934,10 @@ ast value_type(ast node) {
       } else if (is_pointer_type(left_type)) {
         // if left is an array or a pointer, the type is also a pointer
         return left_type;
-      } else {
-        // if left is not a pointer, the type is the type of the right operand
+      } else if (is_pointer_type(right_type)) {
         return right_type;
+      } else {
+        return arithmetic_type(left_type, right_type);
       }
     } else if (op == '<' || op == '>' || op == EQ_EQ || op == EXCL_EQ || op == LT_EQ || op == GT_EQ) {
       return int_type; // Comparison always returns an integer
@@ -968,8 +994,12 @@ ast value_type(ast node) {
   } else if (nb_children == 3) {
 
     if (op == '?') {
-      // We assume that the 2 cases have the same type.
-      return value_type(child1);
+      left_type = value_type(child1);
+      right_type = value_type(get_child(node, 2));
+      if (is_numeric_type(left_type) && is_numeric_type(right_type)) return arithmetic_type(left_type, right_type);
+      // If one of the cases is the null pointer, the type is the type of the other case.
+      // Otherwise, we assume that the 2 cases have the same type.
+      return is_numeric_type(left_type) ? right_type : left_type;
     } else {
       putstr("op="); putint(op); putchar('\n');
       fatal_error("value_type: unknown expression with 3 children");
@@ -983,6 +1013,38 @@ ast value_type(ast node) {
   }
 }
 
+// Convert the value on top of the stack. Values are always kept sign or zero
+// extended according to their type, so a value only needs to be converted if it
+// may not fit in the destination type. The conversion is done by reading back
+// the value from the stack using the width and signedness of its new type.
+void codegen_convert(ast from_type, ast to_type) {
+  int from_width = type_width(from_type, false, false);
+  int to_width = type_width(to_type, false, false);
+  bool from_signed = is_signed_numeric_type(from_type);
+  bool to_signed = is_signed_numeric_type(to_type);
+
+  if (to_width == WORD_SIZE || !is_numeric_type(to_type)) return; // Full registers don't need to be extended
+  if (from_width < to_width && (to_signed || !from_signed)) return;
+  if (from_width == to_width && from_signed == to_signed) return;
+
+  load_mem_location(reg_X, reg_SP, 0, to_width, to_signed);
+  grow_stack(-1);
+  push_reg(reg_X);
+}
+
+// Wrap around the result of an operation on unsigned operands narrower than the
+// registers. The result is on top of the stack.
+void codegen_truncate_unsigned(ast type) {
+  if (is_numeric_type(type) && !is_signed_numeric_type(type)) codegen_convert(void_star_type, type);
+}
+
+// Type of the result of a compound assignment or increment before it's converted to the type of the lvalue
+ast compound_assignment_type(int op, ast left_type, ast right_type) {
+  if (!is_numeric_type(left_type) || !is_numeric_type(right_type)) return left_type;
+  if (op == LSHIFT_EQ || op == RSHIFT_EQ) return promoted_type(left_type);
+  return arithmetic_type(left_type, right_type);
+}
+
 void codegen_binop(int op, ast lhs, ast rhs) {
 
   int lbl1;
@@ -993,9 +1055,28 @@ void codegen_binop(int op, ast lhs, ast rhs) {
   bool left_is_numeric = is_numeric_type(left_type);
   bool right_is_numeric = is_numeric_type(right_type);
   int width;
-  // If any of the operands is unsigned, the result is unsigned
+  ast type = 0; // Type of the operation, 0 if the operands don't have arithmetic types
   bool is_signed = false;
-  if (is_signed_numeric_type(left_type) && is_signed_numeric_type(right_type)) is_signed = true;
+
+  if (left_is_numeric && right_is_numeric) {
+    if (op == LSHIFT || op == LSHIFT_EQ || op == RSHIFT || op == RSHIFT_EQ) type = promoted_type(left_type);
+    else type = arithmetic_type(left_type, right_type);
+    is_signed = is_signed_numeric_type(type);
+  } else if (is_signed_numeric_type(left_type) && is_signed_numeric_type(right_type)) {
+    is_signed = true;
+  }
+
+#if WORD_SIZE == 8
+  // 32-bit unsigned operations are done using 64-bit registers, their operands
+  // must be zero extended. It's only necessary for the operators for which the
+  // upper bits have an effect on the lower bits of the result.
+  if (type != 0 && !is_signed && type_width(type, false, false) < WORD_SIZE && op != ',') {
+    if (op != LSHIFT && op != LSHIFT_EQ && op != RSHIFT && op != RSHIFT_EQ) codegen_convert(right_type, type);
+    pop_reg(reg_Y);
+    codegen_convert(left_type, type);
+    push_reg(reg_Y);
+  }
+#endif
 
   pop_reg(reg_Y); // rhs operand
   pop_reg(reg_X); // lhs operand
@@ -1111,6 +1192,8 @@ void codegen_binop(int op, ast lhs, ast rhs) {
   }
 
   push_reg(reg_X);
+
+  if (type != 0 && cond == -1 && op != ',') codegen_truncate_unsigned(type);
 }
 
 void codegen_rvalue(ast node);
@@ -1468,6 +1551,7 @@ void codegen_rvalue(ast node) {
       xor_reg_reg(reg_X, reg_X);
       sub_reg_reg(reg_X, reg_Y);
       push_reg(reg_X);
+      codegen_truncate_unsigned(value_type(node));
     } else if (op == '~') {
       codegen_rvalue(child0);
       pop_reg(reg_Y);
@@ -1475,6 +1559,7 @@ void codegen_rvalue(ast node) {
       mov_reg_imm(reg_X, -1);
       xor_reg_reg(reg_X, reg_Y);
       push_reg(reg_X);
+      codegen_truncate_unsigned(value_type(node));
     } else if (op == '!') {
       xor_reg_reg(reg_X, reg_X);
       push_reg(reg_X);
@@ -1505,6 +1590,7 @@ void codegen_rvalue(ast node) {
       mov_reg_imm(reg_X, 1); // equivalent to calling codegen rvalue with INTEGER 1 (subtraction or addition handled in codegen_binop)
       push_reg(reg_X);
       codegen_binop(op, child0, new_ast0(INTEGER, 0)); // Pops two values off the stack and pushes the result
+      codegen_convert(compound_assignment_type(op, value_type(child0), int_type), value_type(child0));
       pop_reg(reg_X); // result
       pop_reg(reg_Y); // address
       grow_fs(-1);
@@ -1550,14 +1636,16 @@ void codegen_rvalue(ast node) {
       }
       push_reg(reg_X);
     } else if (op == AMP_EQ || op == BAR_EQ || op == CARET_EQ || op == LSHIFT_EQ || op == MINUS_EQ || op == PERCENT_EQ || op == PLUS_EQ || op == RSHIFT_EQ || op == SLASH_EQ || op == STAR_EQ) {
+      type1 = value_type(child0);
       left_width = codegen_lvalue(child0);
       pop_reg(reg_Y);
       push_reg(reg_Y);
-      load_mem_location(reg_X, reg_Y, 0, left_width, is_signed_numeric_type(value_type(child0)));
+      load_mem_location(reg_X, reg_Y, 0, left_width, is_signed_numeric_type(type1));
       push_reg(reg_X);
       grow_fs(1);
       codegen_rvalue(child1);
       codegen_binop(op, child0, child1);
+      codegen_convert(compound_assignment_type(op, type1, value_type(child1)), type1);
       pop_reg(reg_X);
       pop_reg(reg_Y);
       grow_fs(-3);
@@ -1614,15 +1702,7 @@ void codegen_rvalue(ast node) {
       }
     } else if (op == CAST) {
       codegen_rvalue(child1);
-      // If the cast is to a value narrower than the width of the value, we need
-      // to truncate the value. This is done by writing the value to the stack
-      // and then reading it back, sign extending it if necessary.
-      child0 = get_child_(DECL, child0, 1); // child 1 of cast is the type
-      if (type_width(child0, false, false) < type_width(value_type(child1), false, false)) {
-        load_mem_location(reg_X, reg_SP, 0, type_width(child0, false, false), is_signed_numeric_type(child0));
-        grow_stack(-1);
-        push_reg(reg_X);
-      }
+      codegen_convert(value_type(child1), get_child_(DECL, child0, 1)); // child 1 of cast is the type
       grow_fs(-1); // grow_fs(1) is called by codegen_rvalue and at the end of the function
     } else {
       fatal_error("codegen_rvalue: unknown rvalue with 2 children");
@@ -1638,11 +1718,14 @@ void codegen_rvalue(ast node) {
       grow_fs(-1);
       xor_reg_reg(reg_Y, reg_Y);
       jump_cond_reg_reg(EQ, lbl1, reg_X, reg_Y);
+      type1 = value_type(node);
       codegen_rvalue(child1); // value when true
+      codegen_convert(value_type(child1), type1);
       jump(lbl2);
       def_label(lbl1);
       grow_fs(-1); // here, the child#1 is not on the stack, so we adjust it
       codegen_rvalue(get_child(node, 2)); // value when false
+      codegen_convert(value_type(get_child(node, 2)), type1);
       grow_fs(-1); // grow_fs(1) is called by codegen_rvalue and at the end of the function
       def_label(lbl2);
     } else {
@@ -2309,6 +2392,7 @@ void codegen_statement(ast node) {
 
     if (get_child_(RETURN_KW, node, 0) != 0) {
       codegen_rvalue(get_child_(RETURN_KW, node, 0));
+      codegen_convert(value_type(get_child_(RETURN_KW, node, 0)), cgc_return_type);
       pop_reg(reg_X);
       grow_fs(-1);
     }
@@ -2401,6 +2485,7 @@ void codegen_glo_fun_decl(ast node) {
   //   rt_debug("\n");
   // }
 
+  cgc_return_type = fun_return_type;
   cgc_fs = -1; // space for return address
   cgc_locals = 0;
   add_params(params);
-- 
2.43.0


From 3b4df0b588ecb7826e4327a46f7a7d2401cf244a Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:51:24 +0000
Subject: [PATCH 25/73] fix: && and || evaluated to their second operand in
 constant expressions

---
 pnut.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pnut.c b/pnut.c
index 0d0a2b6..0b84275 100644
--- a/pnut.c
+++ b/pnut.c
@@ -1367,12 +1367,12 @@ int eval_constant(ast expr, bool if_macro) {
     case AMP_AMP:
       op1 = eval_constant(child0, if_macro);
       if (!op1) return 0;
-      else return eval_constant(child1, if_macro);
+      else return eval_constant(child1, if_macro) != 0;
 
     case BAR_BAR:
       op1 = eval_constant(child0, if_macro);
       if (op1) return 1;
-      else return eval_constant(child1, if_macro);
+      else return eval_constant(child1, if_macro) != 0;
 
     case '(': // defined operators are represented as fun calls
       if (if_macro && get_val_(IDENTIFIER, child0) == DEFINED_ID) {
-- 
2.43.0


From 7ae6bb398adaf89c6189c6fa4e1333b108302ddb Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:51:24 +0000
Subject: [PATCH 26/73] fix: crash on division by zero in constant expressions

---
 pnut.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/pnut.c b/pnut.c
index 0b84275..9865680 100644
--- a/pnut.c
+++ b/pnut.c
@@ -1346,6 +1346,7 @@ int eval_constant(ast expr, bool if_macro) {
     case '>':
       op1 = eval_constant(child0, if_macro);
       op2 = eval_constant(child1, if_macro);
+      if ((op == '/' || op == '%') && op2 == 0) fatal_error("division by zero in constant expression");
       switch (op) {
         case '*':     return op1 * op2;
         case '/':     return op1 / op2;
-- 
2.43.0


From 193b4366fae85e409b7a1cba85fbd90eae339948 Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:51:24 +0000
Subject: [PATCH 27/73] fix: the conditions of skipped #if and #elif directives
 were evaluated

---
 pnut.c | 15 +++++++++++----
 1 file changed, 11 insertions(+), 4 deletions(-)

diff --git a/pnut.c b/pnut.c
index 9865680..c64f424 100644
--- a/pnut.c
+++ b/pnut.c
@@ -1403,6 +1403,11 @@ int eval_constant(ast expr, bool if_macro) {
 
 ast parse_assignment_expression();
 
+// Skip the rest of the directive
+void skip_directive() {
+  while (tok != '\n' && tok != EOF) get_tok_macro();
+}
+
 int evaluate_if_condition() {
   bool prev_skip_newlines = skip_newlines;
   int previous_mask = if_macro_mask;
@@ -1463,14 +1468,17 @@ void handle_preprocessor_directive() {
       push_if_macro_mask(temp == IFDEF_ID ? tok == MACRO : tok != MACRO);
     get_tok_macro(); // Skip the macro name
   } else if (tok == IF_KW) {
-    temp = evaluate_if_condition() != 0;
+    temp = false;
+    if (if_macro_mask) temp = evaluate_if_condition() != 0;
+    else skip_directive(); // The condition is not evaluated when the directive is in a skipped group
     push_if_macro_mask(temp);
   } else if (tok == IDENTIFIER && val == ELIF_ID) {
-    temp = evaluate_if_condition() != 0;
     if (prev_macro_mask() && !if_macro_executed) {
+      temp = evaluate_if_condition() != 0;
       if_macro_executed |= temp;
       if_macro_mask = temp;
     } else {
+      skip_directive(); // A previous group was selected, the condition is not evaluated
       if_macro_mask = false;
     }
   } else if (tok == ELSE_KW) {
@@ -1528,8 +1536,7 @@ void handle_preprocessor_directive() {
       syntax_error("unsupported preprocessor directive");
     }
   } else {
-    // Skip the rest of the directive
-    while (tok != '\n' && tok != EOF) get_tok_macro();
+    skip_directive();
   }
 
   if (tok != '\n' && tok != EOF) {
-- 
2.43.0


From c7d5029aa4c7f2ffa53710ae2b37ec659fb948dc Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:51:24 +0000
Subject: [PATCH 28/73] fix: out of bounds read when reporting an unsupported
 preprocessor directive

---
 pnut.c | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/pnut.c b/pnut.c
index c64f424..7b8a136 100644
--- a/pnut.c
+++ b/pnut.c
@@ -1532,7 +1532,9 @@ void handle_preprocessor_directive() {
       tok = '\n';
 #endif
     } else {
-      putstr("tok="); putint(tok); putstr(": "); putstr(STRING_BUF(val)); putchar('\n');
+      putstr("tok="); putint(tok);
+      if (tok == IDENTIFIER || tok == MACRO) { putstr(": "); putstr(STRING_BUF(val)); }
+      putchar('\n');
       syntax_error("unsupported preprocessor directive");
     }
   } else {
-- 
2.43.0


From cefc8f454ed4e4bf68629290f49d2f9a67c57ccd Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:51:24 +0000
Subject: [PATCH 29/73] fix: string pool overflow by one character

---
 pnut.c | 11 +++++++----
 1 file changed, 7 insertions(+), 4 deletions(-)

diff --git a/pnut.c b/pnut.c
index 7b8a136..791d451 100644
--- a/pnut.c
+++ b/pnut.c
@@ -581,21 +581,21 @@ void begin_string() {
 // Append the current character (ch) to the string under construction in the pool
 void accum_string() {
   hash = (ch + (hash ^ HASH_PARAM)) % HASH_PRIME;
-  string_pool[string_pool_alloc] = ch;
-  string_pool_alloc += 1;
   if (string_pool_alloc >= STRING_POOL_SIZE) {
     fatal_error("string pool overflow");
   }
+  string_pool[string_pool_alloc] = ch;
+  string_pool_alloc += 1;
 }
 
 // Append a character to the current string under construction in the pool
 void accum_string_char(char c) {
   hash = (c + (hash ^ HASH_PARAM)) % HASH_PRIME;
-  string_pool[string_pool_alloc] = c;
-  string_pool_alloc += 1;
   if (string_pool_alloc >= STRING_POOL_SIZE) {
     fatal_error("string pool overflow");
   }
+  string_pool[string_pool_alloc] = c;
+  string_pool_alloc += 1;
 }
 
 // Append a string from the string_pool to the string under construction
@@ -636,6 +636,9 @@ int end_ident_i;
 #define end_string end_ident
 
 int end_ident() {
+  if (string_pool_alloc >= STRING_POOL_SIZE) {
+    fatal_error("string pool overflow");
+  }
   string_pool[string_pool_alloc] = 0; // terminate string
   string_pool_alloc += 1; // account for terminator
 
-- 
2.43.0


From af68b25e79105bba246d69ecb688a8658ba22f17 Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:51:48 +0000
Subject: [PATCH 30/73] fix: overflow of the table of generated lines

---
 sh.c | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/sh.c b/sh.c
index cbffbbb..6917f76 100644
--- a/sh.c
+++ b/sh.c
@@ -372,6 +372,7 @@ void init_comp_context() {
 }
 
 void append_glo_decl(text decl) {
+  if (glo_decl_ix + 3 > GLO_DECL_SIZE) fatal_error("too many lines of code");
   glo_decls[glo_decl_ix] = nest_level;
   glo_decls[glo_decl_ix + 1] = 1; // If it's active or not. Used by undo_glo_decls and replay_glo_decls
   glo_decls[glo_decl_ix + 2] = decl;
@@ -379,6 +380,7 @@ void append_glo_decl(text decl) {
 }
 
 int append_glo_decl_fixup() {
+  if (glo_decl_ix + 3 > GLO_DECL_SIZE) fatal_error("too many lines of code");
   glo_decls[glo_decl_ix] = -nest_level; // Negative value to indicate that it's a fixup
   glo_decls[glo_decl_ix + 1] = 1; // If it's active or not. Used by undo_glo_decls and replay_glo_decls
   glo_decls[glo_decl_ix + 2] = 0;
-- 
2.43.0


From 4fe10b078a4f3b193b50abf80217b6942c43b1c7 Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:51:48 +0000
Subject: [PATCH 31/73] fix: string literals containing null characters could
 be merged with other strings

---
 pnut.c | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/pnut.c b/pnut.c
index 791d451..b8d98aa 100644
--- a/pnut.c
+++ b/pnut.c
@@ -650,7 +650,9 @@ int end_ident() {
     c1 = string_pool[string_start+end_ident_i];
     c2 = string_pool[probe_start+end_ident_i];
     while (c1 == c2) {
-      if (c1 == 0) {
+      // Strings may contain null characters, so the terminator must also be at the end of both strings
+      if (string_start + end_ident_i + 1 == string_pool_alloc) {
+        if (end_ident_i != heap[probe+4]) break;
         string_pool_alloc = string_start; // undo string allocation
         return probe;
       }
-- 
2.43.0


From 28d62b4138409c789f7b8d1f2e62a86d75f3b729 Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:51:48 +0000
Subject: [PATCH 32/73] fix: fgetc and getchar did not return EOF on read
 errors

---
 exe.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/exe.c b/exe.c
index 341f258..1551cbe 100644
--- a/exe.c
+++ b/exe.c
@@ -2575,8 +2575,8 @@ void rt_fgetc(int fd_reg) {
   os_read();                  // reg_X = number of bytes read, buffer[0] = character
 
   pop_reg(reg_Z);             // Get character from buffer and deallocate buffer
-  mov_reg_imm(reg_Y, 0);      // If read returned 0, then we're at EOF (-1)
-  jump_cond_reg_reg(NE, success_lbl, reg_X, reg_Y);
+  mov_reg_imm(reg_Y, 0);      // If read returned 0 or an error, then we're at EOF (-1)
+  jump_cond_reg_reg(GT, success_lbl, reg_X, reg_Y);
   mov_reg_imm(reg_Z, -1);     // mov  eax, -1  # -1 on EOF
   def_label(success_lbl);     // end label
   mov_reg_reg(reg_X, reg_Z);  // return value
-- 
2.43.0


From 9e5db93af3192d3f6edb8030fc3b7c04a6c30181 Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:52:21 +0000
Subject: [PATCH 33/73] fix: main returned garbage when reaching its end
 without a return statement

---
 exe.c | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/exe.c b/exe.c
index 1551cbe..1207940 100644
--- a/exe.c
+++ b/exe.c
@@ -2496,6 +2496,9 @@ void codegen_glo_fun_decl(ast node) {
   grow_stack(-cgc_fs);
   cgc_fs = 0;
 
+  // Reaching the end of main is equivalent to returning 0
+  if (name_probe == MAIN_ID) mov_reg_imm(reg_X, 0);
+
   ret();
 
   cgc_locals_fun = save_locals_fun;
-- 
2.43.0


From 1a0bee5a38c889fe030ce0e46065906ee283de1b Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:52:56 +0000
Subject: [PATCH 34/73] fix: long and large integer literals had type int in
 the native backends

---
 exe.c | 35 +++++++++++++++++++++++++++++++----
 1 file changed, 31 insertions(+), 4 deletions(-)

diff --git a/exe.c b/exe.c
index 1207940..7395584 100644
--- a/exe.c
+++ b/exe.c
@@ -537,6 +537,8 @@ void def_goto_label(int lbl) {
 
 ast int_type;
 ast uint_type;
+ast long_type;  // Same as int_type and uint_type on 32-bit platforms, where long is not supported
+ast ulong_type;
 ast char_type;
 ast string_type;
 ast void_type;
@@ -842,6 +844,20 @@ ast arithmetic_type(ast left_type, ast right_type) {
   return is_signed_numeric_type(left_type) ? right_type : left_type;
 }
 
+#ifdef PARSE_NUMERIC_LITERAL_SUFFIX
+// If an integer literal doesn't fit in an int, or in an unsigned int if it has an unsigned suffix
+bool is_large_literal(ast node) {
+#ifdef SUPPORT_64_BIT_LITERALS
+  ast val = get_val(node);
+  if (val <= 0) return false; // Small integers are represented by their opposite
+  if (get_op(node) != INTEGER_U) return true;
+  return heap[val + 1] != 0;
+#else
+  return false;
+#endif
+}
+#endif
+
 // Compute the type of an expression
 ast value_type(ast node) {
   int op = get_op(node);
@@ -855,10 +871,14 @@ ast value_type(ast node) {
 
   if (nb_children == 0) {
 #ifdef PARSE_NUMERIC_LITERAL_SUFFIX
-    if (op == INTEGER || op == INTEGER_L || op == INTEGER_LL) {
-      return int_type;
-    } else if (op == INTEGER_U || op == INTEGER_UL || op == INTEGER_ULL) {
-      return uint_type;
+    if (op == INTEGER) {
+      return is_large_literal(node) ? long_type : int_type;
+    } else if (op == INTEGER_L || op == INTEGER_LL) {
+      return long_type;
+    } else if (op == INTEGER_U) {
+      return is_large_literal(node) ? ulong_type : uint_type;
+    } else if (op == INTEGER_UL || op == INTEGER_ULL) {
+      return ulong_type;
     }
 #else
     if (op == INTEGER) {
@@ -1754,6 +1774,13 @@ void codegen_begin() {
 
   int_type = new_ast0(INT_KW, 0);
   uint_type = new_ast0(INT_KW, MK_TYPE_SPECIFIER(UNSIGNED_KW));
+#if WORD_SIZE == 8
+  long_type = new_ast0(LONG_KW, 0);
+  ulong_type = new_ast0(LONG_KW, MK_TYPE_SPECIFIER(UNSIGNED_KW));
+#else
+  long_type = int_type;
+  ulong_type = uint_type;
+#endif
   char_type = new_ast0(CHAR_KW, 0);
   string_type = pointer_type(new_ast0(CHAR_KW, 0), false);
   void_type = new_ast0(VOID_KW, 0);
-- 
2.43.0


From 0003a4a3be57adbc5e8ec7031b77340e94dbaeba Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:54:22 +0000
Subject: [PATCH 35/73] fix: crash when the argument of the last option is
 missing, and ignored failure to open the output file

---
 pnut.c | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/pnut.c b/pnut.c
index b8d98aa..cf27049 100644
--- a/pnut.c
+++ b/pnut.c
@@ -4034,15 +4034,18 @@ int main(int argc, char **argv) {
           // Output file name
           if (argv[i][2] == 0) { // rest of option is in argv[i + 1]
             i += 1;
+            if (i >= argc) fatal_error("missing option argument");
             output_fd = open(argv[i], O_WRONLY | O_CREAT | O_TRUNC, 0644);
           } else {
             output_fd = open(argv[i] + 2, O_WRONLY | O_CREAT | O_TRUNC, 0644);
           }
+          if (output_fd < 0) fatal_error("could not open the output file");
           break;
 
         case 'D':
           if (argv[i][2] == 0) { // rest of option is in argv[i + 1]
             i += 1;
+            if (i >= argc) fatal_error("missing option argument");
             handle_macro_D(argv[i]);
           } else {
             handle_macro_D(argv[i] + 2); // skip '-D'
@@ -4057,6 +4060,7 @@ int main(int argc, char **argv) {
         case 'U':
           if (argv[i][2] == 0) { // rest of option is in argv[i + 1]
             i += 1;
+            if (i >= argc) fatal_error("missing option argument");
             init_ident(IDENTIFIER, argv[i]);
           } else {
             init_ident(IDENTIFIER, argv[i] + 2); // skip '-U'
@@ -4068,6 +4072,7 @@ int main(int argc, char **argv) {
 
           if (argv[i][2] == 0) { // rest of option is in argv[i + 1]
             i += 1;
+            if (i >= argc) fatal_error("missing option argument");
             include_search_path = argv[i];
           } else {
             include_search_path = argv[i] + 2; // skip '-I'
-- 
2.43.0


From fd84f697939a31ca71b5b9564f35947fed1421cc Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:06:25 +0000
Subject: [PATCH 36/73] fix: shell backend rejected && and || in the arguments
 of nested function calls

---
 sh.c | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/sh.c b/sh.c
index 6917f76..90a8639 100644
--- a/sh.c
+++ b/sh.c
@@ -1046,6 +1046,11 @@ ast handle_side_effects_go(ast node, bool executes_conditionally) {
     }
 
     return new_ast3('?', handle_side_effects_go(child0, executes_conditionally), sub1, sub2);
+  } else if (nb_children == 4 && (op == AMP_AMP || op == BAR_BAR)) {
+    // The arguments of a function call are traversed again when compiling the call
+    sub1 = handle_side_effects_go(child0, true);
+    sub2 = handle_side_effects_go(child1, true);
+    return new_ast4(op, sub1, sub2, child2, get_child(node, 3));
   } else {
     printf("op=%d %c with %d children\n", op, op, get_nb_children(node));
     fatal_error("unexpected operator");
-- 
2.43.0


From 38112b56998908e13fd56b4eb7179f5da2ed8e7b Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:07:54 +0000
Subject: [PATCH 37/73] fix: shell backend relied on the C precedence of x++
 and x-- as operands of bitwise operators, which zsh does not have

---
 sh.c | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/sh.c b/sh.c
index 90a8639..a05ba5e 100644
--- a/sh.c
+++ b/sh.c
@@ -1176,8 +1176,10 @@ bool is_associative_operator(int op) {
 // Return true if a sum or difference must be parenthesized to be an operand of
 // the operator, on its right hand side at least. Used by post-increment and
 // post-decrement, which are compiled to (x += 1) - 1 and (x -= 1) + 1.
+// In zsh, bitwise operators and shifts have a higher precedence than sums.
 bool binds_tighter_than_rhs_sum(int op) {
-  return (op == '-') | (op == '*') | (op == '/') | (op == '%') | (op == '~') | (op == '!') | (op == CAST);
+  return (op == '-') | (op == '*') | (op == '/') | (op == '%') | (op == '~') | (op == '!') | (op == CAST)
+      |  (op == '&') | (op == '|') | (op == '^') | (op == LSHIFT) | (op == RSHIFT);
 }
 
 // Return true if the expression is compiled to code starting with unary minus
-- 
2.43.0


From 92428560a5247827656f4d382b30be3fd1bc85b3 Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:14:20 +0000
Subject: [PATCH 38/73] fix: octal literals were read as decimal by ksh, mksh
 and zsh

---
 sh.c | 16 ++++++----------
 1 file changed, 6 insertions(+), 10 deletions(-)

diff --git a/sh.c b/sh.c
index a05ba5e..1a91222 100644
--- a/sh.c
+++ b/sh.c
@@ -213,12 +213,6 @@ void puthex_unsigned(int n) {
   putchar("0123456789abcdef"[n & 15]);
 }
 
-void putoct_unsigned(int n) {
-  // Because n is signed, we clear the upper bits after shifting in case n was negative
-  if ((n >> 3) & 0x1fffffff) putoct_unsigned((n >> 3) & 0x1fffffff);
-  putchar('0' + (n & 7));
-}
-
 void print_escaped_char(char c, int for_printf) {
   // C escape sequences
   if      (c == '\0') { putchar('\\');  putchar('0'); }
@@ -281,8 +275,9 @@ void print_escaped_text(text t, bool for_printf) {
     putchar('0'); putchar('x');
     puthex_unsigned(TEXT_TO_INT(text_pool[t + 1]));
   } else if (text_pool[t] == TEXT_FROM_INT(TEXT_INTEGER_OCT)) {
-    putchar('0'); // Note: This is not supported by zsh by default
-    putoct_unsigned(TEXT_TO_INT(text_pool[t + 1]));
+    // Printed in hexadecimal because ksh, mksh and zsh read octal literals as decimal by default
+    putchar('0'); putchar('x');
+    puthex_unsigned(TEXT_TO_INT(text_pool[t + 1]));
   } else if (text_pool[t] == TEXT_FROM_INT(TEXT_STRING)) {
     print_escaped_string((char*) text_pool[t + 1],  (char*) text_pool[t + 2], for_printf);
   } else if (text_pool[t] == TEXT_FROM_INT(TEXT_ESCAPED)) {
@@ -316,8 +311,9 @@ void print_text(text t) {
     putchar('0'); putchar('x');
     puthex_unsigned(TEXT_TO_INT(text_pool[t + 1]));
   } else if (text_pool[t] == TEXT_FROM_INT(TEXT_INTEGER_OCT)) {
-    putchar('0'); // Note: This is not supported by zsh by default
-    putoct_unsigned(TEXT_TO_INT(text_pool[t + 1]));
+    // Printed in hexadecimal because ksh, mksh and zsh read octal literals as decimal by default
+    putchar('0'); putchar('x');
+    puthex_unsigned(TEXT_TO_INT(text_pool[t + 1]));
   } else if (text_pool[t] == TEXT_FROM_INT(TEXT_STRING)) {
     if (TEXT_TO_INT(text_pool[t + 2]) == 0) { // null-terminated string
       putstr((char*) text_pool[t + 1]);
-- 
2.43.0


From 24f477350165394d682725b5e1cba2d2a7f67173 Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:25:37 +0000
Subject: [PATCH 39/73] fix: statements after for (;;) loops whose body always
 breaks were dropped (sh)

---
 env.c | 3 ++-
 sh.c  | 6 ++++--
 2 files changed, 6 insertions(+), 3 deletions(-)

diff --git a/env.c b/env.c
index f601322..ac6ecf1 100644
--- a/env.c
+++ b/env.c
@@ -136,11 +136,12 @@ void cgc_add_local_var(enum BINDING binding_type, int ident, ast type) {
 }
 
 void cgc_add_enclosing_loop() {
-  int binding = alloc_obj(4);
+  int binding = alloc_obj(5);
   heap[binding+0] = cgc_locals;
   heap[binding+1] = BINDING_LOOP;
   heap[binding+2] = 0; // loop end action start
   heap[binding+3] = 0; // loop end action end
+  heap[binding+4] = false; // whether the loop contains a break
   cgc_locals = binding;
 }
 
diff --git a/sh.c b/sh.c
index 1a91222..390fb58 100644
--- a/sh.c
+++ b/sh.c
@@ -2040,14 +2040,16 @@ bool comp_loop(text cond, ast body, ast loop_end_stmt, text last_line, STMT_CTX
   append_glo_decl(wrap_str_lit("done"));
   cgc_locals = start_cgc_locals;
 
-  // If the condition is always true and the loop always returns
-  return cond == wrap_char(':') && always_returns;
+  // If the condition is always true and the loop always returns. A body that
+  // always ends with a break terminates the loop, not the enclosing block.
+  return cond == wrap_char(':') && always_returns && !heap[loop_binding + 4];
 }
 
 bool comp_break() {
   int binding = cgc_lookup_enclosing_loop_or_switch(cgc_locals);
   if (binding == 0) fatal_error("comp_statement: break not in loop or switch");
   if (binding_kind(binding) == BINDING_LOOP) {
+    heap[binding + 4] = true;
     append_glo_decl(wrap_str_lit("break"));
   }
   return true;
-- 
2.43.0


From a8f399b838b5aef9a1331d6a121c6fabd288b37c Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:25:54 +0000
Subject: [PATCH 40/73] fix: breaks out of loops nested in switch cases were
 rejected (sh)

---
 sh.c | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/sh.c b/sh.c
index 390fb58..d6618e5 100644
--- a/sh.c
+++ b/sh.c
@@ -2032,7 +2032,8 @@ bool comp_loop(text cond, ast body, ast loop_end_stmt, text last_line, STMT_CTX
   append_glo_decl(string_concat3(wrap_str_lit("while "), cond ? cond : wrap_char(':'), wrap_str_lit("; do")));
   nest_level += 1;
   start_glo_decl_idx = glo_decl_ix;
-  always_returns = comp_statement(body, stmt_ctx);
+  // Breaks in the body are out of the loop, not out of the enclosing switch case
+  always_returns = comp_statement(body, stmt_ctx & ~STMT_CTX_SWITCH);
   replay_glo_decls(heap[loop_binding + 2], heap[loop_binding + 3], true);
   // while loops cannot be empty so we insert ':' if it's empty
   if (!any_active_glo_decls(start_glo_decl_idx)) append_glo_decl(wrap_char(':'));
-- 
2.43.0


From d8ba0df5e8f6fe574795f554358a27ba18e5a4cc Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:16:48 +0000
Subject: [PATCH 41/73] fix: macro calls with an empty first or only argument
 were rejected

---
 pnut.c | 27 ++++++++-------------------
 1 file changed, 8 insertions(+), 19 deletions(-)

diff --git a/pnut.c b/pnut.c
index cf27049..81f5625 100644
--- a/pnut.c
+++ b/pnut.c
@@ -1785,33 +1785,22 @@ void check_macro_arity(int macro_args_count, int macro) {
 int get_macro_args_toks(int macro) {
   int args = 0;
   int macro_args_count = 0;
-  bool prev_is_comma = tok == ',';
   get_tok_macro_expand(); // Skip '('
 
-  while (tok != ')' && tok != EOF) {
-    if (tok == ',') {
-      get_tok_macro_expand(); // Skip comma
-      if (prev_is_comma) { // Push empty arg
-        args = cons(0, args);
-        macro_args_count += 1;
-      }
-      prev_is_comma = true;
-      continue;
-    } else {
-      prev_is_comma = false;
-    }
-
+  // Only the call of a macro without parameters has no argument: for other
+  // macros, nothing between the parentheses is an empty argument.
+  if (tok != ')' || cdr(heap[macro + 3]) != 0) {
     args = cons(macro_parse_argument(), args);
     macro_args_count += 1;
+    while (tok == ',') {
+      get_tok_macro_expand(); // Skip comma
+      args = cons(macro_parse_argument(), args);
+      macro_args_count += 1;
+    }
   }
 
   if (tok != ')') syntax_error("unterminated macro argument list");
 
-  if (prev_is_comma) {
-    args = cons(0, args); // Push empty arg
-    macro_args_count += 1;
-  }
-
   check_macro_arity(macro_args_count, macro);
 
   return args;
-- 
2.43.0


From 63055b432ec704da46b9d8ef358fdbb0c21a7ba9 Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:18:38 +0000
Subject: [PATCH 42/73] fix: token pasting with empty operands, operands naming
 macros, chains of ## and 0 digits

---
 pnut.c | 62 ++++++++++++++++++++++++++++++----------------------------
 1 file changed, 32 insertions(+), 30 deletions(-)

diff --git a/pnut.c b/pnut.c
index 81f5625..3ada584 100644
--- a/pnut.c
+++ b/pnut.c
@@ -712,7 +712,6 @@ int macro_tok_lst = 0;  // Current list of tokens to replay for the macro being
 int macro_args = 0;     // Current list of arguments for the macro being expanded
 int macro_ident = 0;    // The identifier of the macro being expanded (if any)
 int macro_args_count;   // Number of arguments for the current macro being expanded
-bool paste_last_token = false; // Whether the last token was a ## or not
 
 bool prev_macro_mask() {
   return if_macro_stack_ix == 0 || if_macro_stack[if_macro_stack_ix - 2];
@@ -1938,32 +1937,41 @@ int paste_integers(int left_val, int right_val) {
 #ifdef SUPPORT_64_BIT_LITERALS
   if (left_val < 0 || right_val < 0) fatal_error("Only small integers can be pasted");
 #endif
-  while (right_digits > 0) {
+  do { // At least one digit, because 0 is also a digit
     result *= 10;
     right_digits /= 10;
-  }
+  } while (right_digits > 0);
   return result + right_val;
 }
 
+// Returns the list of tokens toks followed by the tokens of rest
+int append_tokens(int toks, int rest) {
+  if (toks == 0) return rest;
+  rest = append_tokens(cdr(toks), rest);
+  return cons(car(toks), rest);
+}
+
 // Support token pasting between identifiers and non-negative integers
+// The right operand is the next token of the macro being expanded. It's not
+// read with get_tok because the operands of ## are not macro expanded.
 void paste_tokens(int left_tok, int left_val) {
   int right_tok;
   int right_val;
-  expand_macro_arg = false;
-  get_tok_macro();
-  expand_macro_arg = true;
-  // We need to handle the case where the right-hand side is a macro argument that expands to empty
-  // In that case, the left-hand side is returned as is.
-  if (tok == MACRO_ARG) {
-    if (get_macro_arg(val) == 0) {
+  if (car(car(macro_tok_lst)) == MACRO_ARG) {
+    right_val = get_macro_arg(cdr(car(macro_tok_lst)));
+    macro_tok_lst = append_tokens(right_val, cdr(macro_tok_lst)); // Play the tokens of the macro argument
+    // We need to handle the case where the right-hand side is a macro argument that expands to empty
+    // In that case, the left-hand side is returned as is.
+    if (right_val == 0) {
       tok = left_tok;
       val = left_val;
       return;
-    } else {
-      begin_macro_expansion(0, get_macro_arg(val), 0); // Play the tokens of the macro argument
-      get_tok_macro();
     }
   }
+  tok = car(car(macro_tok_lst));
+  val = cdr(car(macro_tok_lst));
+  macro_tok_lst = cdr(macro_tok_lst);
+  if (tok >= IDENTIFIER) tok = heap[val + 2]; // Reload the kind of the identifier, see get_tok
   right_tok = tok;
   right_val = val;
   if (left_tok == IDENTIFIER || left_tok == TYPE || left_tok == MACRO || left_tok <= WHILE_KW) {
@@ -2060,25 +2068,19 @@ void get_tok() {
         if (tok >= IDENTIFIER) tok = heap[val + 2];
 
         // Check if the next token is ## for token pasting
-        if (macro_tok_lst != 0 && car(car(macro_tok_lst)) == HASH_HASH) {
-          if (tok == MACRO || tok == MACRO_ARG) {
-            // If the token is a macro or macro arg, it must be expanded before pasting
-            macro_tok_lst = cdr(macro_tok_lst); // We consume the ## token
-            paste_last_token = true;
-          } else {
-            // macro_tok_lst is not empty because read_macro_tokens checked for trailing ##
+        if (tok == MACRO_ARG && macro_tok_lst != 0 && car(car(macro_tok_lst)) == HASH_HASH) {
+          // Play the tokens of the macro argument in place so its last token is pasted.
+          // If there are none, the right-hand side of ## is left as is.
+          if (get_macro_arg(val) == 0) {
             macro_tok_lst = cdr(macro_tok_lst); // Skip the ##
-            paste_tokens(tok, val);
-          }
-        } else if (macro_tok_lst == 0 && paste_last_token) { // We finished expanding the left-hand side of ##
-          if (macro_stack_ix == 0) {
-            // If we are not in a macro expansion, we can't paste the last token
-            // This should not happen if the macro is well-formed, which is
-            // checked by read_macro_tokens.
-            syntax_error("## cannot appear at the end of a macro expansion");
+          } else {
+            macro_tok_lst = append_tokens(get_macro_arg(val), macro_tok_lst);
           }
-          return_to_parent_macro();
-          paste_last_token = false; // We are done pasting
+          continue;
+        }
+        while (macro_tok_lst != 0 && car(car(macro_tok_lst)) == HASH_HASH) {
+          // macro_tok_lst is not empty because read_macro_tokens checked for trailing ##
+          macro_tok_lst = cdr(macro_tok_lst); // Skip the ##
           paste_tokens(tok, val);
         }
 
-- 
2.43.0


From 7b98c05709960ebbd807e72c18df6a1a68bb55e0 Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:21:11 +0000
Subject: [PATCH 43/73] fix: labels of goto statements were lost when the
 semicolon came from a macro

---
 pnut.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pnut.c b/pnut.c
index 3ada584..5f28b00 100644
--- a/pnut.c
+++ b/pnut.c
@@ -3842,8 +3842,8 @@ ast parse_statement() {
   } else if (tok == GOTO_KW) {
 
     get_tok();
+    result = new_ast1(GOTO_KW, new_ast0(IDENTIFIER, val)); // val is the label, if the current token is an identifier
     expect_tok(IDENTIFIER);
-    result = new_ast1(GOTO_KW, new_ast0(IDENTIFIER, val));
     expect_tok(';');
 
   } else if (tok == CONTINUE_KW) {
-- 
2.43.0


From 3957a1d8af03d1aed3136f40ee6f9b2deb784719 Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:25:28 +0000
Subject: [PATCH 44/73] fix: includes at the end of a file without a newline
 were relative to the wrong directory

---
 pnut.c | 15 +++++++++------
 sh.c   |  4 ++--
 2 files changed, 11 insertions(+), 8 deletions(-)

diff --git a/pnut.c b/pnut.c
index 5f28b00..e6ba358 100644
--- a/pnut.c
+++ b/pnut.c
@@ -846,7 +846,7 @@ void get_ch() {
       column_number = include_stack->column_number;
 #endif
       // Not freeing include_stack2->filepath because it may not be dynamically allocated
-      free(include_stack2->dirname);
+      // Not freeing include_stack2->dirname because it may be in use by handle_preprocessor_directive
       free(include_stack2);
       // EOF is treated as a newline so that files without a newline at the end are still parsed correctly
       // On the next get_ch call, the first character of the next file will be read
@@ -1429,9 +1429,9 @@ int evaluate_if_condition() {
   return eval_constant(expr, true);
 }
 
-void handle_include() {
+void handle_include(char *dirname) {
   if (tok == STRING) {
-    include_file(STRING_BUF(val), include_stack->dirname);
+    include_file(STRING_BUF(val), dirname);
 #ifdef DEBUG_EXPAND_INCLUDES
     // When running pnut in "expand includes" mode, we want to annotate the
     // #include directives that were expanded with a comment so we can remove
@@ -1455,11 +1455,14 @@ void handle_include() {
 }
 
 #ifdef sh
-void handle_shell_include();
+void handle_shell_include(char *dirname);
 #endif
 
 void handle_preprocessor_directive() {
   int temp;
+  // Directory of the file containing the directive. If the directive is at the
+  // end of a file that has no newline, reading it pops the file from the stack.
+  char *dirname = include_stack->dirname;
 #ifdef SH_INCLUDE_C_CODE
   int prev_char_buf_ix = code_char_buf_ix; // Index of the # token in the code buffer
 #endif
@@ -1499,13 +1502,13 @@ void handle_preprocessor_directive() {
   } else if (if_macro_mask) {
     if (tok == IDENTIFIER && val == INCLUDE_ID) {
       get_tok_macro(); // Get the STRING token
-      handle_include();
+      handle_include(dirname);
     }
 #ifdef sh
     // Not standard C, but serves to mix existing shell code with compiled C code
     else if (tok == IDENTIFIER && val == INCLUDE_SHELL_ID) {
       get_tok_macro(); // Get the STRING token
-      handle_shell_include();
+      handle_shell_include(dirname);
     }
 #endif
     else if (tok == IDENTIFIER && val == UNDEF_ID) {
diff --git a/sh.c b/sh.c
index d6618e5..0953432 100644
--- a/sh.c
+++ b/sh.c
@@ -2,7 +2,7 @@
 
 #include "sh-runtime.c"
 
-void handle_shell_include() {
+void handle_shell_include(char *dirname) {
   FILE* shell_include_fp;
   int c;
   if (tok == STRING) {
@@ -11,7 +11,7 @@ void handle_shell_include() {
     runtime_use_put_pstr = true;
     runtime_use_unpack_string = true;
     // Include the file as-is without any preprocessing
-    shell_include_fp = fopen_source_file(STRING_BUF(val), include_stack->dirname);
+    shell_include_fp = fopen_source_file(STRING_BUF(val), dirname);
     while ((c = fgetc(shell_include_fp)) != EOF) {
       putchar(c);
     }
-- 
2.43.0


From aa62a7f7345856ccec3fef8ea361c544d140b1a2 Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:40:40 +0000
Subject: [PATCH 45/73] fix: negative enum constants had garbage values on
 x86_64

---
 exe.c | 5 +----
 1 file changed, 1 insertion(+), 4 deletions(-)

diff --git a/exe.c b/exe.c
index 7395584..ecc68a5 100644
--- a/exe.c
+++ b/exe.c
@@ -1520,11 +1520,8 @@ void codegen_rvalue(ast node) {
           push_reg(reg_X);
           break;
         case BINDING_ENUM_CST:
-#ifdef SUPPORT_64_BIT_LITERALS
-          mov_reg_large_imm(reg_X, get_val(heap[binding+3]));
-#else
+          // Enum values are small integers, but unlike literals they can be negative
           mov_reg_imm(reg_X, -get_val_(INTEGER, heap[binding+3]));
-#endif
           push_reg(reg_X);
           break;
 
-- 
2.43.0


From 16df2c452969beadf897f335c4a7537a31096982 Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:41:43 +0000
Subject: [PATCH 46/73] fix: character constants in the initializers of global
 variables were undefined (sh)

---
 sh.c | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/sh.c b/sh.c
index 0953432..4728718 100644
--- a/sh.c
+++ b/sh.c
@@ -345,6 +345,7 @@ int string_counter = 0;         // Counter for string literals
 #define CHARACTERS_BITFIELD_SIZE 16
 int characters_useds[16];       // Characters used in string literals. Bitfield, each int stores 16 bits, so 16 ints in total
 bool any_character_used = false; // If any character is used
+bool in_global_initializer = false; // Character constants are inlined in the initializers of global variables
 ast rest_loc_var_fixups = 0;    // rest_loc_vars call to fixup after compiling a function
 bool main_defined = false;      // If the main function is defined
 bool main_returns = false;      // If the main function returns a value
@@ -1243,6 +1244,8 @@ text comp_rvalue_go(ast node, int context, ast test_side_effects, int outer_op)
 #ifdef SH_INLINE_CHAR_LITERAL
       return wrap_in_condition_if_needed(context, test_side_effects, wrap_int(get_val_(CHARACTER, node)));
 #else
+      // Character identifiers are only defined at the end of the script, after the global variables
+      if (in_global_initializer) return wrap_in_condition_if_needed(context, test_side_effects, wrap_int(get_val_(CHARACTER, node)));
       if (context == RVALUE_CTX_ARITH_EXPANSION) {
         return character_ident(get_val_(CHARACTER, node));
       } else {
@@ -2392,7 +2395,9 @@ void comp_glo_var_decl(ast node) {
     );
 #else
     if (init == 0) init = new_ast0(INTEGER, 0);
+    in_global_initializer = true;
     comp_assignment(name, init);
+    in_global_initializer = false;
 #endif
   }
 }
-- 
2.43.0


From 801f3a399c07515d2ce6d612f8fb9669fd6b145a Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:41:43 +0000
Subject: [PATCH 47/73] fix: negative enum values following a hexadecimal one
 were printed as unsigned numbers (sh)

---
 pnut.c | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/pnut.c b/pnut.c
index e6ba358..d427068 100644
--- a/pnut.c
+++ b/pnut.c
@@ -2673,7 +2673,9 @@ ast parse_enum() {
         // literal type to determine which type to use when creating a new node.
         value = non_parenthesized_operand(value);
         if (get_op(value) != INTEGER && get_op(value) != INTEGER_HEX && get_op(value) != INTEGER_OCT) {
-          value = new_ast0(last_literal_type, -eval_constant(value, false));
+          next_value = -eval_constant(value, false);
+          // Negative values are only printed correctly in base 10
+          value = new_ast0(next_value > 0 ? INTEGER : last_literal_type, next_value);
         }
         last_literal_type = get_op(value);
 #else
-- 
2.43.0


From af0f82419c77b5a0335cfe4e5485c5983cdb1112 Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:49:41 +0000
Subject: [PATCH 48/73] fix: printf("%%") without other arguments printed %%
 (sh)

---
 sh.c | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/sh.c b/sh.c
index 4728718..8df96c9 100644
--- a/sh.c
+++ b/sh.c
@@ -1764,7 +1764,8 @@ text comp_fun_call_code(ast node, ast assign_to) {
     if (((name_id == PUTS_ID || name_id == PUTSTR_ID || name_id == PRINTF_ID)
         && (param = list_singleton(params)) != 0
         && get_op(param) == STRING)) { // puts("..."), putstr("..."), printf("...")
-      return printf_call(STRING_BUF(get_val_(STRING, param)), 0, 0, true);
+      // Only puts and putstr print % as is, %% means % for both printf functions
+      return printf_call(STRING_BUF(get_val_(STRING, param)), 0, 0, name_id != PRINTF_ID);
     } else if (name_id == PRINTF_ID && params != 0 && get_op(car(params)) == STRING) { // printf("...", ...)
       handle_printf_call(STRING_BUF(get_val_(STRING, car(params))), tail(params));
       return 0;
-- 
2.43.0


From 995ff71f157967edc977fe83133728c913926ed8 Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:49:41 +0000
Subject: [PATCH 49/73] fix: precisions starting with 0 were rejected in printf
 formats (sh)

---
 sh.c | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/sh.c b/sh.c
index 8df96c9..3815a5e 100644
--- a/sh.c
+++ b/sh.c
@@ -1631,7 +1631,14 @@ void handle_printf_call(char *format_str, ast params) {
         case ' ': case '#': case '+': case '-': case '0': // Flags
           // Flags correspond to 0x20,0x23,0x2b,0x2d,0x30 which are spread over
           // 16 bits meaning we can easily convert char -> bit if we wanted to.
-          if (state != PRINTF_STATE_FLAGS) fatal_error("Invalid printf format: Flags must come before width and precision");
+          if (state == PRINTF_STATE_PRECISION && *format_str == '0') { // Precision starting with 0
+            while ('0' <= *format_str && *format_str <= '9') format_str += 1; // Skip the rest of the number
+            has_precision = true;
+            state += 1;      // Move to the next state (PRINTF_STATE_PRECISION => PRINTF_STATE_SPECIFIER)
+            format_str -= 1; // Reprocess non-numeric character
+          } else if (state != PRINTF_STATE_FLAGS) {
+            fatal_error("Invalid printf format: Flags must come before width and precision");
+          }
           break;
 
         // Width or precision literal
-- 
2.43.0


From aec0351ee22e1fa7df779f755b6bad379c95c907 Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:50:37 +0000
Subject: [PATCH 50/73] fix: l modifiers of printf formats were passed to
 shells that do not support them (sh)

---
 sh.c | 35 ++++++++++++++++++++++++-----------
 1 file changed, 24 insertions(+), 11 deletions(-)

diff --git a/sh.c b/sh.c
index 3815a5e..44d7276 100644
--- a/sh.c
+++ b/sh.c
@@ -1582,19 +1582,25 @@ text comp_putchar_inline(ast param) {
 #endif
 
 #ifdef SH_AVOID_PRINTF_USE
-// format_str is from the string pool so immutable
-text printf_call(char *format_str, char *format_str_end, text params_text, bool escape) {
-  if (format_str == format_str_end) {
+// format_start is the first character of the format, whose text is format_text
+text printf_call(char *format_start, text format_text, text params_text) {
+  if (format_text == 0) {
     return 0;
   } else {
     // Some shells interpret leading - as options. In that case, we add -- in front of the format string.
-    return string_concat3(wrap_str_lit(format_str[0] == '-' ? "printf -- \"" : "printf \""),
-                          escape_text(wrap_str_imm(format_str, format_str_end), escape),
+    return string_concat3(wrap_str_lit(format_start[0] == '-' ? "printf -- \"" : "printf \""),
+                          format_text,
                           concatenate_strings_with(wrap_char('\"'), params_text, wrap_char(' '))
                           );
   }
 }
 
+// format_str is from the string pool so immutable
+text append_format(text format_text, char *format_str, char *format_str_end) {
+  if (format_str == format_str_end) return format_text;
+  return string_concat(format_text, escape_text(wrap_str_imm(format_str, format_str_end), false));
+}
+
 enum PRINTF_STATE {
   PRINTF_STATE_FLAGS,
   PRINTF_STATE_WIDTH,
@@ -1609,7 +1615,9 @@ enum PRINTF_STATE {
 void handle_printf_call(char *format_str, ast params) {
   ast param = 0; // Next parameter, if any
   char *format_start = format_str;
+  char *chunk_start = format_str; // Start of the part of the format that's not in format_text yet
   char *specifier_start;
+  text format_text = 0;
   // compiled parameters to be passed to printf
   text params_text = 0, width_text = 0, precision_text = 0;
 
@@ -1681,7 +1689,10 @@ void handle_printf_call(char *format_str, ast params) {
         // The following options are the same between the shell's printf and C's printf
         case 'l': case 'd': case 'i': case 'o': case 'u': case 'x': case 'X':
           if (*format_str == 'l') {
+            // Some shells don't support 'l', so it's removed from the format
+            format_text = append_format(format_text, chunk_start, format_str);
             while (*format_str == 'l') format_str += 1; // Skip the 'l' for long
+            chunk_start = format_str;
             if (*format_str != 'd' && *format_str != 'i' && *format_str != 'o' && *format_str != 'u' && *format_str != 'x' && *format_str != 'X') {
               printf("*format_str=%c%c\n", *(format_str - 1), *format_str);
               fatal_error("Invalid printf format: Unsupported long specifier");
@@ -1705,9 +1716,10 @@ void handle_printf_call(char *format_str, ast params) {
           // TODO: Find way to support width that's not too verbose
           if (has_width)   fatal_error("Width not supported for %c");
           // Generate printf call with what we have so far
-          append_glo_decl(printf_call(format_start, specifier_start, params_text, false));
+          append_glo_decl(printf_call(format_start, append_format(format_text, chunk_start, specifier_start), params_text));
           // New format string starts after the %
-          format_start = format_str + 1;
+          format_start = chunk_start = format_str + 1;
+          format_text = 0;
           // Generate the printf call for the character
           append_glo_decl(comp_putchar_inline(param));
           param = 0; // Consume param
@@ -1727,9 +1739,10 @@ void handle_printf_call(char *format_str, ast params) {
             params_text = concatenate_strings_with(params_text, string_concat3(wrap_str_lit("\"$(_put_pstr __ "), comp_rvalue(param, RVALUE_CTX_BASE), wrap_str_lit(")\"")), wrap_char(' ')); // Add the parameter
           } else {
             // Generate printf call with what we have so far
-            append_glo_decl(printf_call(format_start, specifier_start, params_text, false));
+            append_glo_decl(printf_call(format_start, append_format(format_text, chunk_start, specifier_start), params_text));
             // New format string starts after the %
-            format_start = format_str + 1;
+            format_start = chunk_start = format_str + 1;
+          format_text = 0;
             // Compile printf("...%s...", str) to _put_pstr str
             append_glo_decl(string_concat(wrap_str_lit("_put_pstr __ "), comp_rvalue(param, RVALUE_CTX_BASE)));
           }
@@ -1755,7 +1768,7 @@ void handle_printf_call(char *format_str, ast params) {
   }
 
   // Dump the remaining format string
-  append_glo_decl(printf_call(format_start, format_str, params_text, false));
+  append_glo_decl(printf_call(format_start, append_format(format_text, chunk_start, format_str), params_text));
 }
 #endif
 
@@ -1772,7 +1785,7 @@ text comp_fun_call_code(ast node, ast assign_to) {
         && (param = list_singleton(params)) != 0
         && get_op(param) == STRING)) { // puts("..."), putstr("..."), printf("...")
       // Only puts and putstr print % as is, %% means % for both printf functions
-      return printf_call(STRING_BUF(get_val_(STRING, param)), 0, 0, name_id != PRINTF_ID);
+      return printf_call(STRING_BUF(get_val_(STRING, param)), escape_text(wrap_str_imm(STRING_BUF(get_val_(STRING, param)), 0), name_id != PRINTF_ID), 0);
     } else if (name_id == PRINTF_ID && params != 0 && get_op(car(params)) == STRING) { // printf("...", ...)
       handle_printf_call(STRING_BUF(get_val_(STRING, car(params))), tail(params));
       return 0;
-- 
2.43.0


From 4f4b00262fa3eafba7fec384e653008744f8adbc Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:51:08 +0000
Subject: [PATCH 51/73] fix: conversions following %s in a printf format used
 the parameters preceding it (sh)

---
 sh.c | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/sh.c b/sh.c
index 44d7276..54a9679 100644
--- a/sh.c
+++ b/sh.c
@@ -1622,6 +1622,7 @@ void handle_printf_call(char *format_str, ast params) {
   text params_text = 0, width_text = 0, precision_text = 0;
 
   bool mod = false;
+  bool params_printed = false; // If params_text was already used, by the printf call preceding a %s
   bool has_width = false;
   bool has_precision = false;
 
@@ -1745,6 +1746,7 @@ void handle_printf_call(char *format_str, ast params) {
           format_text = 0;
             // Compile printf("...%s...", str) to _put_pstr str
             append_glo_decl(string_concat(wrap_str_lit("_put_pstr __ "), comp_rvalue(param, RVALUE_CTX_BASE)));
+            params_printed = true;
           }
           param = 0; // Consume param
           mod = false;
@@ -1761,6 +1763,9 @@ void handle_printf_call(char *format_str, ast params) {
       // Reset the state machine
       width_text = precision_text = has_width = has_precision = 0;
       state = PRINTF_STATE_FLAGS;
+      // The parameters preceding a %s are not parameters of the conversions following it
+      if (params_printed) params_text = 0;
+      params_printed = false;
     }
 
     // Keep accumulating the format string
-- 
2.43.0


From 308cd11f415d837156c04d89e943822c208ff7b9 Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:52:10 +0000
Subject: [PATCH 52/73] fix: getchar of scripts with OPTIMIZE_LONG_LINES at
 empty lines, multiples of 16 characters and end of file

---
 sh-runtime.c | 12 ++++--------
 1 file changed, 4 insertions(+), 8 deletions(-)

diff --git a/sh-runtime.c b/sh-runtime.c
index df3da6e..63333da 100644
--- a/sh-runtime.c
+++ b/sh-runtime.c
@@ -524,10 +524,9 @@ DEPENDS_ON(char_to_int)
   putstr("__stdin_line_ending=0 # Line ending, either -1 (EOF) or 10 ('\\n')\n");
 #ifdef OPTIMIZE_LONG_LINES
   putstr("__stdin_buf16=\n");
-  putstr("__stdin_buf256=\n");
-  putstr("__stdin_end=1\n");
+  putstr("__stdin_line_buf256=\n");
   putstr("_getchar() {\n");
-  putstr("  if [ -z \"$__stdin_buf16\" ] && [ $__stdin_end -eq 1 ] ; then          # need to get next line when buffer empty\n");
+  putstr("  if [ -z \"$__stdin_buf16$__stdin_line_buf256$__stdin_buf\" ]; then  # need to get next line when buffers empty\n");
 #else
   putstr("_getchar() {\n");
   putstr("  if [ -z \"$__stdin_buf\" ]; then          # need to get next line when buffer empty\n");
@@ -537,9 +536,6 @@ DEPENDS_ON(char_to_int)
   putstr("      __stdin_line_ending=0                  # Reset line ending for next getchar call\n");
   putstr("      return\n");
   putstr("    fi\n");
-#ifdef OPTIMIZE_LONG_LINES
-  putstr("    __stdin_end=0\n");
-#endif
   putstr("    IFS=                                            # don't split input\n");
   putstr("    if read -r __stdin_buf ; then                   # read next line into $__stdin_buf\n");
   putstr("      if [ -z \"$__stdin_buf\" ] ; then               # an empty line implies a newline character\n");
@@ -557,8 +553,8 @@ DEPENDS_ON(char_to_int)
   putstr("    fi\n");
   putstr("  fi\n");
 #ifdef OPTIMIZE_LONG_LINES
-  extract_line_head("  ", "__stdin_buf256", "__stdin_buf", ANY_STRING_256, "256", "")
-  extract_line_head("  ", "__stdin_buf16", "__stdin_buf256", ANY_STRING_16, "16", "      __stdin_end=1\n")
+  extract_line_head("  ", "__stdin_line_buf256", "__stdin_buf", ANY_STRING_256, "256", "")
+  extract_line_head("  ", "__stdin_buf16", "__stdin_line_buf256", ANY_STRING_16, "16", "")
   extract_first_char("", "__stdin_buf16", "$1")
   putstr("  __stdin_buf16=${__stdin_buf16#?}  # Remove the first character\n");
 #else
-- 
2.43.0


From 73490dd258e910f2b30e45e0fbf900197262ca28 Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:38:12 +0000
Subject: [PATCH 53/73] fix: cases of a switch in a block with local variables
 used a wrong stack frame in the native backends

---
 exe.c | 16 +++++++++++++++-
 1 file changed, 15 insertions(+), 1 deletion(-)

diff --git a/exe.c b/exe.c
index ecc68a5..1acfb3c 100644
--- a/exe.c
+++ b/exe.c
@@ -2190,6 +2190,13 @@ void codegen_body(ast node) {
   cgc_locals = save_locals;
 }
 
+// The operand of a switch is on the top of the stack when jumping to a case, but
+// the case may be in a block with local variables, for which space must be made.
+void grow_stack_to_case(int binding) {
+  int words = cgc_fs - heap[binding + 2] - 1; // 1 for the switch operand
+  if (words != 0) grow_stack(words);
+}
+
 void codegen_statement(ast node) {
   int op;
   int lbl1, lbl2, lbl3;
@@ -2365,14 +2372,17 @@ void codegen_statement(ast node) {
     //   jump to next case
     if (binding != 0) {
       lbl1 = alloc_label(0);                  // skip case when falling through
+      lbl2 = alloc_label(0);                  // case value matches
       jump(lbl1);
       def_label(heap[binding + 4]);           // false jump location of previous case
       heap[binding + 4] = alloc_label(0);     // create false jump location for current case
       codegen_rvalue(get_child_(CASE_KW, node, 0)); // evaluate case expression and compare it
       pop_reg(reg_Y); grow_fs(-1);
       mov_reg_mem(reg_X, reg_SP, 0);          // get switch operand without popping it
-      jump_cond_reg_reg(EQ, lbl1, reg_X, reg_Y);
+      jump_cond_reg_reg(EQ, lbl2, reg_X, reg_Y);
       jump(heap[binding + 4]);                // condition is false => jump to next case
+      def_label(lbl2);
+      grow_stack_to_case(binding);
       def_label(lbl1);                        // start of case conditional block
       codegen_statement(get_child_(CASE_KW, node, 1));  // case statement
     } else {
@@ -2386,7 +2396,11 @@ void codegen_statement(ast node) {
     if (binding != 0) {
       if (heap[binding + 5]) fatal_error("default already defined in switch");
       heap[binding + 5] = alloc_label(0);                 // create label for default
+      lbl1 = alloc_label(0);                              // skip stack adjustment when falling through
+      jump(lbl1);
       def_label(heap[binding + 5]);                       // default label
+      grow_stack_to_case(binding);
+      def_label(lbl1);
       codegen_statement(get_child_(DEFAULT_KW, node, 0)); // default statement
     } else {
       fatal_error("default outside of switch");
-- 
2.43.0


From 44fc44166314a88edd955c9b9a02de597cedc51b Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:06:43 +0000
Subject: [PATCH 54/73] fix: a conditional directive that is not closed or not
 opened was ignored or read forever

---
 pnut.c | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/pnut.c b/pnut.c
index d427068..8e1ac59 100644
--- a/pnut.c
+++ b/pnut.c
@@ -1479,6 +1479,8 @@ void handle_preprocessor_directive() {
     if (if_macro_mask) temp = evaluate_if_condition() != 0;
     else skip_directive(); // The condition is not evaluated when the directive is in a skipped group
     push_if_macro_mask(temp);
+  } else if (if_macro_stack_ix == 0 && (tok == ELSE_KW || (tok == IDENTIFIER && val == ELIF_ID))) {
+    fatal_error("Unbalanced #ifdef/#ifndef/#else/#endif directives.");
   } else if (tok == IDENTIFIER && val == ELIF_ID) {
     if (prev_macro_mask() && !if_macro_executed) {
       temp = evaluate_if_condition() != 0;
@@ -2106,6 +2108,9 @@ void get_tok() {
       } else if (ch <= ' ') {
 
         if (ch == EOF) {
+          if (if_macro_stack_ix != 0) {
+            fatal_error("Unbalanced #ifdef/#ifndef/#else/#endif directives.");
+          }
           tok = EOF;
           break;
         }
-- 
2.43.0


From 67870a9506b3602d775e6f6d2197db2ca52de482 Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:07:39 +0000
Subject: [PATCH 55/73] fix: a call of an expression that is not a name read an
 identifier at a wrong address in the shell backend

---
 sh.c | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/sh.c b/sh.c
index 54a9679..d9788f9 100644
--- a/sh.c
+++ b/sh.c
@@ -1778,12 +1778,15 @@ void handle_printf_call(char *format_str, ast params) {
 #endif
 
 text comp_fun_call_code(ast node, ast assign_to) {
-  ast name = get_child__('(', IDENTIFIER, node, 0);
+  ast name = get_child_('(', node, 0);
   ast params = get_child_('(', node, 1);
-  int name_id = get_val_(IDENTIFIER, name);
+  int name_id;
   ast param;
   text res;
 
+  if (get_op(name) != IDENTIFIER) fatal_error("Only calls of named functions are supported");
+  name_id = get_val_(IDENTIFIER, name);
+
 #ifdef SH_AVOID_PRINTF_USE
   if (get_op(assign_to) == IDENTIFIER_EMPTY) {
     if (((name_id == PUTS_ID || name_id == PUTSTR_ID || name_id == PRINTF_ID)
-- 
2.43.0


From 3756dd3cbdcfef53b5ddd84626722453ba399b51 Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:09:20 +0000
Subject: [PATCH 56/73] fix: initializers of unions were rejected in SAFE_MODE

---
 exe.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/exe.c b/exe.c
index 1acfb3c..58342c6 100644
--- a/exe.c
+++ b/exe.c
@@ -1991,7 +1991,7 @@ void codegen_initializer(bool local, ast init, ast type, int base_reg, int offse
           break;
 
         case UNION_KW:
-          members = get_child_(STRUCT_KW, type, 2);
+          members = get_child_(UNION_KW, type, 2);
           if (tail(init) != 0) {
             fatal_error("codegen_initializer: union initializer list has more than one element");
           } else if (members == 0) {
-- 
2.43.0


From 32e462b59ec3aaf0574d8b4d756bdbe6e852157f Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:12:26 +0000
Subject: [PATCH 57/73] fix: sizeof of an unnamed structure used an undefined
 variable in the shell backend

---
 sh.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/sh.c b/sh.c
index d9788f9..1e3dbfb 100644
--- a/sh.c
+++ b/sh.c
@@ -1303,7 +1303,7 @@ text comp_rvalue_go(ast node, int context, ast test_side_effects, int outer_op)
           || get_op(child0) == ENUM_KW
           || get_op(child0) == '*') { // If it's a pointer
           return wrap_in_condition_if_needed(context, test_side_effects, wrap_int(1));
-        } else if (get_op(child0) == STRUCT_KW) {
+        } else if (get_op(child0) == STRUCT_KW && get_child_opt_(STRUCT_KW, IDENTIFIER, child0, 1) != 0) {
           return wrap_if_needed(false, context, test_side_effects, struct_sizeof_var(get_child__(STRUCT_KW, IDENTIFIER, child0, 1)), outer_op, op);
         } else {
           printf("op=%d %c\n", get_op(child0), get_op(child0));
-- 
2.43.0


From e7c5e5c7158d379080935a64587734b63967cfeb Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:12:26 +0000
Subject: [PATCH 58/73] fix: pasting an operator read an identifier at a wrong
 address

---
 pnut.c | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/pnut.c b/pnut.c
index 8e1ac59..b7cf52b 100644
--- a/pnut.c
+++ b/pnut.c
@@ -1979,12 +1979,12 @@ void paste_tokens(int left_tok, int left_val) {
   if (tok >= IDENTIFIER) tok = heap[val + 2]; // Reload the kind of the identifier, see get_tok
   right_tok = tok;
   right_val = val;
-  if (left_tok == IDENTIFIER || left_tok == TYPE || left_tok == MACRO || left_tok <= WHILE_KW) {
+  if (left_tok == IDENTIFIER || left_tok == TYPE || left_tok == MACRO || (AUTO_KW <= left_tok && left_tok <= WHILE_KW)) {
     // Something that starts with an identifier can only be an identifier
     begin_string();
     accum_string_string(left_val);
 
-    if (right_tok == IDENTIFIER || right_tok == TYPE || right_tok == MACRO || right_tok <= WHILE_KW) {
+    if (right_tok == IDENTIFIER || right_tok == TYPE || right_tok == MACRO || (AUTO_KW <= right_tok && right_tok <= WHILE_KW)) {
       accum_string_string(right_val);
     } else if (right_tok == INTEGER
 #ifdef PARSE_NUMERIC_LITERAL_WITH_BASE
@@ -2021,7 +2021,7 @@ void paste_tokens(int left_tok, int left_val) {
 #endif
        ) {
       val = -paste_integers(-left_val, -right_val);
-    } else if (right_tok == IDENTIFIER || right_tok == MACRO || right_tok <= WHILE_KW) {
+    } else if (right_tok == IDENTIFIER || right_tok == MACRO || (AUTO_KW <= right_tok && right_tok <= WHILE_KW)) {
       begin_string();
       accum_string_integer(-left_val);
       accum_string_string(right_val);
-- 
2.43.0


From e2fa7f31dcd6bf434cfb0c98539da02d14b3fbec Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:29:45 +0000
Subject: [PATCH 59/73] fix: stringizing an empty argument or a type name did
 not give its spelling

---
 pnut.c | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/pnut.c b/pnut.c
index b7cf52b..559584d 100644
--- a/pnut.c
+++ b/pnut.c
@@ -1926,8 +1926,12 @@ void stringify() {
   }
   arg = get_macro_arg(val);
   tok = STRING;
+  if (arg == 0) {
+    begin_string();
+    val = end_string(); // Empty argument
+  }
   // Support the case where the argument is a single identifier/macro/keyword token
-  if ((car(car(arg)) == IDENTIFIER || car(car(arg)) == MACRO || (AUTO_KW <= car(car(arg)) && car(car(arg)) <= WHILE_KW)) && cdr(arg) == 0) {
+  else if ((car(car(arg)) == IDENTIFIER || car(car(arg)) == TYPE || car(car(arg)) == MACRO || (AUTO_KW <= car(car(arg)) && car(car(arg)) <= WHILE_KW)) && cdr(arg) == 0) {
     val = cdr(car(arg)); // Use the identifier probe
   } else {
     val = NOT_SUPPORTED_ID; // Return string "NOT_SUPPORTED"
-- 
2.43.0


From 68880eebfd4f9fa5fce136ca5a83a8d5ebde3eb1 Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:35:36 +0000
Subject: [PATCH 60/73] fix: the text segment of Mach-O executables did not
 include all the code

---
 mach-o.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/mach-o.c b/mach-o.c
index 9f6a886..2b3de88 100644
--- a/mach-o.c
+++ b/mach-o.c
@@ -43,11 +43,11 @@ void write_text_section(){
 
   write_i32_le(0x00000000); // VM address low
   write_i32_le(0x00000001); // VM address high
-  write_i32_le(code_alloc); // VM size low
+  write_i32_le(360 + code_alloc); // VM size low, with the header and load commands
   write_i32_le(0x00000000); // VM size high. Warning: This assumes that the file size is less than 4GB
   write_i32_le(0x00000000); // file offset low
   write_i32_le(0x00000000); // file offset high
-  write_i32_le(code_alloc); // file size low
+  write_i32_le(360 + code_alloc); // file size low, with the header and load commands
   write_i32_le(0x00000000); // file size high. Warning: This assumes that the file size is less than 4GB
 
   write_4_i8(0x07, 0x00, 0x00, 0x00); // max VM protection ; 4 bytes
-- 
2.43.0


From f790d6dd9477bb119d9d895ccc9ae4cdfe31ca6c Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:08:27 +0000
Subject: [PATCH 61/73] fix: __LINE__ at the end of a line was that of the next
 line

---
 pnut.c | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/pnut.c b/pnut.c
index 559584d..3fc7c03 100644
--- a/pnut.c
+++ b/pnut.c
@@ -144,6 +144,7 @@ typedef int FILE;
 #ifdef INCLUDE_LINE_NUMBER_ON_ERROR
 int line_number = 1;
 int column_number = 0;
+int tok_line_number = 1; // Line of the last token that does not come from a macro
 int last_tok_line_number = 1;
 int last_tok_column_number = 0;
 #endif
@@ -1897,7 +1898,7 @@ bool attempt_macro_expansion(int macro) {
     }
 #ifdef INCLUDE_LINE_NUMBER_ON_ERROR
     else if (macro == LINE__ID) {
-      tokens = cons(cons(INTEGER, -line_number), 0);
+      tokens = cons(cons(INTEGER, -tok_line_number), 0);
     }
 #endif
     begin_macro_expansion(macro, tokens, 0);
@@ -2064,6 +2065,13 @@ void get_tok() {
 #endif
 
     while (1) {
+#ifdef INCLUDE_LINE_NUMBER_ON_ERROR
+      // Remember the line of the token, for __LINE__, unless it comes from a macro
+      if (macro_tok_lst == 0 && macro_stack_ix == 0) {
+        tok_line_number = line_number;
+      }
+#endif
+
       // Check if there are any tokens to replay. Macros are just identifiers that
       // have been marked as macros. In terms of how we get into that state, a
       // macro token is first returned by the get_ident call a few lines below.
-- 
2.43.0


From 3413b2bddfb851b3759074b0d55a762d9d4b25f2 Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:06:08 +0000
Subject: [PATCH 62/73] fix: characters that are not tokens were rejected in
 skipped groups

---
 pnut.c | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/pnut.c b/pnut.c
index 3fc7c03..57bf12b 100644
--- a/pnut.c
+++ b/pnut.c
@@ -2481,6 +2481,11 @@ void get_tok() {
             putstr("ch="); putint(ch); putchar('\n');
             syntax_error("unexpected character after backslash");
           }
+        } else if (!if_macro_mask) {
+          // Any character can appear in the groups skipped by #if
+          tok = ch;
+          get_ch();
+          break;
         } else {
           putstr("ch="); putint(ch); putchar('\n');
           syntax_error("invalid token");
-- 
2.43.0


From af8f92620cf041049eea0bd760b7c950f84c1fe1 Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:06:08 +0000
Subject: [PATCH 63/73] fix: an #include ending the main file without a newline
 was ignored

---
 pnut.c | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/pnut.c b/pnut.c
index 57bf12b..7bcecda 100644
--- a/pnut.c
+++ b/pnut.c
@@ -965,6 +965,8 @@ void include_file(char *file_name, char *relative_to) {
   column_number = 1;
 #endif
   include_stack = include_stack2;
+  // The #include directive may be the last line of a file without a newline at the end
+  if (ch == EOF) ch = '\n';
 }
 
 #ifdef SUPPORT_64_BIT_LITERALS
-- 
2.43.0


From 298c170867a1b1105a6e70385372f23c96d07e25 Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:06:08 +0000
Subject: [PATCH 64/73] fix: errors writing the executable were ignored

---
 exe.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/exe.c b/exe.c
index 58342c6..a0d7421 100644
--- a/exe.c
+++ b/exe.c
@@ -60,7 +60,7 @@ void emit_i64_le_large_imm(int imm_obj) {
 char write_buf[1];
 void write_i8(int n) {
   write_buf[0] = (n & 0xff);
-  write(output_fd, write_buf, 1);
+  if (write(output_fd, write_buf, 1) != 1) fatal_error("could not write the output");
 }
 
 void write_2_i8(int a, int b) {
-- 
2.43.0


From 5e0f3a86419107aec325762f4de5e76f90df2ba1 Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:19:01 +0000
Subject: [PATCH 65/73] fix: the location of errors after an #include mixed the
 lines of two files

---
 pnut.c | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/pnut.c b/pnut.c
index 7bcecda..27c67d0 100644
--- a/pnut.c
+++ b/pnut.c
@@ -845,6 +845,8 @@ void get_ch() {
 #ifdef INCLUDE_LINE_NUMBER_ON_ERROR
       line_number = include_stack->line_number;
       column_number = include_stack->column_number;
+      last_tok_line_number = line_number;
+      last_tok_column_number = column_number;
 #endif
       // Not freeing include_stack2->filepath because it may not be dynamically allocated
       // Not freeing include_stack2->dirname because it may be in use by handle_preprocessor_directive
@@ -963,6 +965,8 @@ void include_file(char *file_name, char *relative_to) {
   }
   line_number = 1;
   column_number = 1;
+  last_tok_line_number = line_number;
+  last_tok_column_number = column_number;
 #endif
   include_stack = include_stack2;
   // The #include directive may be the last line of a file without a newline at the end
@@ -2058,6 +2062,7 @@ void get_tok() {
 #ifdef INCLUDE_LINE_NUMBER_ON_ERROR
   int prev_tok_line_number = line_number;
   int prev_tok_column_number = column_number;
+  char *prev_tok_filepath = include_stack->filepath;
 #endif
 
   // This outer loop is used to skip over tokens removed by #ifdef/#ifndef/#else
@@ -2501,8 +2506,11 @@ void get_tok() {
 #endif
 
 #ifdef INCLUDE_LINE_NUMBER_ON_ERROR
-  last_tok_line_number = prev_tok_line_number;
-  last_tok_column_number = prev_tok_column_number;
+  // If the previous token is in another file, the location is that of the change of file
+  if (include_stack->filepath == prev_tok_filepath) {
+    last_tok_line_number = prev_tok_line_number;
+    last_tok_column_number = prev_tok_column_number;
+  }
 #endif
 }
 
-- 
2.43.0


From 8c95e40b60141006d0562ddd0f9f81932b549e2c Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:27:08 +0000
Subject: [PATCH 66/73] fix: incomplete tokens were rejected in skipped groups

---
 pnut.c | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/pnut.c b/pnut.c
index 27c67d0..a8c962f 100644
--- a/pnut.c
+++ b/pnut.c
@@ -1078,7 +1078,7 @@ void get_string_char() {
       // Allow 1 or 2 hex digits.
       if (accum_digit(16)) {
         accum_digit(16);
-      } else {
+      } else if (if_macro_mask) {
         syntax_error("invalid hex escape -- it must have at least one digit");
       }
       val = DIGIT_BYTE; // keep low 8 bits, without overflowing
@@ -1099,7 +1099,7 @@ void get_string_char() {
         val = 11;
       } else if (ch == '\\' || ch == '\'' || ch == '\"') {
         val = ch;
-      } else {
+      } else if (if_macro_mask) {
         syntax_error("unimplemented string character escape");
       }
       get_ch();
@@ -2194,7 +2194,7 @@ void get_tok() {
             get_ch();
             if (accum_digit(16)) {
               while (accum_digit(16));
-            } else {
+            } else if (if_macro_mask) {
               syntax_error("invalid hex integer -- it must have at least one digit");
             }
           } else {
@@ -2464,7 +2464,7 @@ void get_tok() {
             if (ch == '.') {
               get_ch();
               tok = ELLIPSIS;
-            } else {
+            } else if (if_macro_mask) {
               syntax_error("invalid token");
             }
           } else {
@@ -2484,7 +2484,7 @@ void get_tok() {
 
           if (ch == '\n') { // Continues with next token
             get_ch();
-          } else {
+          } else if (if_macro_mask) {
             putstr("ch="); putint(ch); putchar('\n');
             syntax_error("unexpected character after backslash");
           }
-- 
2.43.0


From 47a97f221d90908c61e86bbe8051942f12c51b7a Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:28:57 +0000
Subject: [PATCH 67/73] fix: spaces and comments after an #include were read
 after the included file

---
 pnut.c | 40 ++++++++++++++++++++++++++++++++++++++++
 1 file changed, 40 insertions(+)

diff --git a/pnut.c b/pnut.c
index a8c962f..3ac0184 100644
--- a/pnut.c
+++ b/pnut.c
@@ -1436,8 +1436,47 @@ int evaluate_if_condition() {
   return eval_constant(expr, true);
 }
 
+// Skip the spaces and comments at the end of a directive, but not the newline.
+// The included file must be opened when ch is the newline of the #include
+// directive, otherwise the rest of the line is read after the included file.
+void skip_to_end_of_directive() {
+  int prev_ch_in_comment;
+  while (ch == ' ' || ch == '\t' || ch == '\r' || ch == '\\' || ch == '/') {
+    if (ch == '\\') {
+      get_ch();
+      if (ch != '\n') {
+        syntax_error("unexpected character after backslash");
+      }
+      get_ch();
+    } else if (ch == '/') {
+      get_ch();
+      if (ch == '*') {
+        get_ch();
+        prev_ch_in_comment = ch; // remember previous char, except first one
+        while ((prev_ch_in_comment != '*' || ch != '/') && ch != EOF) {
+          prev_ch_in_comment = ch;
+          get_ch();
+        }
+        if (ch == EOF) {
+          syntax_error("unterminated comment");
+        }
+        get_ch();
+      } else if (ch == '/') {
+        while (ch != '\n' && ch != EOF) {
+          get_ch();
+        }
+      } else {
+        syntax_error("preprocessor expected end of line");
+      }
+    } else {
+      get_ch();
+    }
+  }
+}
+
 void handle_include(char *dirname) {
   if (tok == STRING) {
+    skip_to_end_of_directive();
     include_file(STRING_BUF(val), dirname);
 #ifdef DEBUG_EXPAND_INCLUDES
     // When running pnut in "expand includes" mode, we want to annotate the
@@ -1449,6 +1488,7 @@ void handle_include(char *dirname) {
   } else if (tok == '<') {
     accum_string_until('>');
     val = end_string();
+    skip_to_end_of_directive();
     // #include <file> directives only take effect if the search path is provided
     // TODO: Issue a warning to stderr when skipping the directive
     if (include_search_path != 0) {
-- 
2.43.0


From 690dfe61f89c410bd94a5b3db1619cf7752146b9 Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:48:57 +0000
Subject: [PATCH 68/73] fix: error messages about some tokens were replaced by
 an internal error

---
 debug.c | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/debug.c b/debug.c
index 3bb7830..a36682e 100644
--- a/debug.c
+++ b/debug.c
@@ -213,6 +213,7 @@ void print_tok_type(int tok) {
   else if (tok == FOR_KW)       putstr("for");
   else if (tok == GOTO_KW)      putstr("goto");
   else if (tok == IF_KW)        putstr("if");
+  else if (tok == INLINE_KW)    putstr("inline");
   else if (tok == INT_KW)       putstr("int");
   else if (tok == LONG_KW)      putstr("long");
   else if (tok == REGISTER_KW)  putstr("register");
@@ -250,11 +251,13 @@ void print_tok_type(int tok) {
   else if (tok == EXCL_EQ)      putstr("!=");
   else if (tok == PERCENT_EQ)   putstr("%=");
   else if (tok == PLUS_EQ)      putstr("+=");
+  else if (tok == PLUS_PLUS)    putstr("++");
   else if (tok == RSHIFT_EQ)    putstr(">>=");
   else if (tok == RSHIFT)       putstr(">>");
   else if (tok == SLASH_EQ)     putstr("/=");
   else if (tok == STAR_EQ)      putstr("*=");
   else if (tok == HASH_HASH)    putstr("##");
+  else if (tok == ELLIPSIS)     putstr("...");
   else if (tok == PLUS_PLUS_PRE)    putstr("++");
   else if (tok == MINUS_MINUS_PRE)  putstr("--");
   else if (tok == PLUS_PLUS_POST)   putstr("++");
@@ -271,6 +274,10 @@ void print_tok_type(int tok) {
 
   else if (tok == IDENTIFIER)       putstr("identifier");
   else if (tok == INTEGER)          putstr("integer");
+#ifdef PARSE_NUMERIC_LITERAL_WITH_BASE
+  else if (tok == INTEGER_HEX)      putstr("integer_hex");
+  else if (tok == INTEGER_OCT)      putstr("integer_oct");
+#endif
 #ifdef PARSE_NUMERIC_LITERAL_SUFFIX
   else if (tok == INTEGER_L)        putstr("integer_l");
   else if (tok == INTEGER_LL)       putstr("integer_ll");
@@ -280,6 +287,7 @@ void print_tok_type(int tok) {
 #endif
   else if (tok == CHARACTER)        putstr("character");
   else if (tok == STRING)           putstr("string");
+  else if (tok == TYPE)             putstr("type");
   else if (tok == MACRO)            putstr("macro");
   else if (tok == MACRO_ARG)        putstr("macro argument");
   else if (tok == EOF)              putstr("end of file");
-- 
2.43.0


From 071625775c0c502c00913effff3bbb5a8e5f7b0f Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:17:06 +0000
Subject: [PATCH 69/73] fix: programs were rejected depending on the position
 of the empty string in the heap

The list of the statements of a switch ends with node 0, whose operator was
read in the first entry of the hash table, that of the empty string. When its
address was congruent to '{' modulo 1024, the end of the list was not seen.
---
 pnut.c | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/pnut.c b/pnut.c
index 3ac0184..086022c 100644
--- a/pnut.c
+++ b/pnut.c
@@ -326,7 +326,7 @@ int hash;
 #define HASH_PRIME 1009
 #define HEAP_SIZE 2000000
 intptr_t heap[HEAP_SIZE];
-int heap_alloc = HASH_PRIME;
+int heap_alloc = HASH_PRIME + 1; // heap[0] is not used and is always 0, so that get_op(0) is 0
 
 int alloc_result;
 
@@ -643,6 +643,7 @@ int end_ident() {
   string_pool[string_pool_alloc] = 0; // terminate string
   string_pool_alloc += 1; // account for terminator
 
+  hash += 1; // The hash table starts at heap[1]
   probe = heap[hash];
 
   while (probe != 0) {
@@ -1665,7 +1666,7 @@ void init_ident_table() {
 
   int i = 0;
 
-  while (i < HASH_PRIME) {
+  while (i <= HASH_PRIME) {
     heap[i] = 0;
     i += 1;
   }
-- 
2.43.0


From 5b4325538b4987e2a883c26e7ac68679718930a5 Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:21:29 +0000
Subject: [PATCH 70/73] fix: struct members with void type were accepted

---
 pnut.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pnut.c b/pnut.c
index 086022c..7f2ea0d 100644
--- a/pnut.c
+++ b/pnut.c
@@ -2833,7 +2833,7 @@ ast parse_struct_or_union(int struct_or_union_tok) {
             tail = get_child_(LIST, tail, 1);
           }
 
-          if (get_child_(DECL, decl, 1) == VOID_KW) parse_error("member with void type not allowed in struct/union", tok);
+          if (get_op(get_child_(DECL, decl, 1)) == VOID_KW) parse_error("member with void type not allowed in struct/union", tok);
           if (get_child_(DECL, decl, 1) == '[' && get_child_('[', get_child_(DECL, decl, 1), 1) == 0) {
             // Set ends_in_flex_array if the type is an array with no size
             ends_in_flex_array = true;
-- 
2.43.0


From c6e055960f19b3380bf231423f0c2c371a3896a4 Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:26:26 +0000
Subject: [PATCH 71/73] fix: a multiplication was accepted as an lvalue in the
 shell backend

---
 sh.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/sh.c b/sh.c
index 1e3dbfb..d62d2d1 100644
--- a/sh.c
+++ b/sh.c
@@ -1484,7 +1484,7 @@ text comp_lvalue_address(ast node) {
     sub1 = comp_rvalue(get_child_('[', node, 0), RVALUE_CTX_ARITH_EXPANSION);
     sub2 = comp_rvalue(get_child_('[', node, 1), RVALUE_CTX_ARITH_EXPANSION);
     return string_concat3(sub1, wrap_str_lit(" + "), sub2);
-  } else if (op == '*') {
+  } else if (op == '*' && get_nb_children(node) == 1) {
     return comp_rvalue(get_child_('*', node, 0), RVALUE_CTX_BASE);
   } else if (op == ARROW) {
     sub1 = comp_rvalue(get_child_(ARROW, node, 0), RVALUE_CTX_ARITH_EXPANSION);
@@ -1512,7 +1512,7 @@ text comp_lvalue(ast node) {
     sub1 = comp_rvalue(get_child_('[', node, 0), RVALUE_CTX_ARITH_EXPANSION);
     sub2 = comp_rvalue(get_child_('[', node, 1), RVALUE_CTX_ARITH_EXPANSION);
     return string_concat5(wrap_str_lit("_$(("), sub1, wrap_str_lit(" + "), sub2, wrap_str_lit("))"));
-  } else if (op == '*') {
+  } else if (op == '*' && get_nb_children(node) == 1) {
     sub1 = comp_rvalue(get_child_('*', node, 0), RVALUE_CTX_BASE);
     return string_concat(wrap_char('_'), sub1);
   } else if (op == ARROW) {
-- 
2.43.0


From 8701a8c5ca6fc970124ccd6ce9df6e156f1ff44e Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:27:25 +0000
Subject: [PATCH 72/73] fix: functions returning structs were accepted by the
 shell backend, which returned their first member

---
 sh.c | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/sh.c b/sh.c
index d62d2d1..baa9e2c 100644
--- a/sh.c
+++ b/sh.c
@@ -2270,6 +2270,10 @@ void comp_glo_fun_decl(ast node) {
 
   top_level_stmt = false;
 
+  if (get_op(get_child_('(', fun_type, 0)) == STRUCT_KW) {
+    fatal_error("returning structs from functions is not supported for shell backend. Use a reference type instead.");
+  }
+
   check_decls(params);
   add_fun_params_to_local_env(params);
 
-- 
2.43.0


From 0df04ea0f3e23a821b3ba0bd3a74ab78cda4531a Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:50:45 +0000
Subject: [PATCH 73/73] fix: getchar and fgetc of executables returned wrong
 characters from descriptors above 255

---
 exe.c | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/exe.c b/exe.c
index a0d7421..931d924 100644
--- a/exe.c
+++ b/exe.c
@@ -2609,8 +2609,9 @@ void rt_crash(char* msg) {
 
 void rt_fgetc(int fd_reg) {
   int success_lbl = alloc_label("rt_fgetc_success");
-  push_reg(reg_X);            // Allocate buffer on stack, initialized with some random value
   mov_reg_reg(reg_X, fd_reg); // reg_X = file descriptor (stdin)
+  mov_reg_imm(reg_Y, 0);
+  push_reg(reg_Y);            // Allocate buffer on stack, zeroed because read only sets its low byte
   mov_reg_reg(reg_Y, reg_SP); // reg_Y = buffer size
   mov_reg_imm(reg_Z, 1);      // reg_Z = buffer address
   os_read();                  // reg_X = number of bytes read, buffer[0] = character
-- 
2.43.0

