From c3249ea15ecf025f60e94f8775f0e3bb5bee6d3e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:38:51 +0000
Subject: [PATCH 01/62] hook: small primes vp<n> for bounded model checking
 (cfg vp_mc, off by default)

---
 circom/src/input_user.rs                 | 11 ++++++++++-
 program_structure/src/utils/constants.rs | 19 +++++++++++++++++++
 2 files changed, 29 insertions(+), 1 deletion(-)

diff --git a/circom/src/input_user.rs b/circom/src/input_user.rs
index 2ca0b97..b671333 100644
--- a/circom/src/input_user.rs
+++ b/circom/src/input_user.rs
@@ -368,8 +368,17 @@ mod input_processing {
     pub fn get_flag_old_heuristics(matches: &ArgMatches) -> bool {
         matches.is_present("flag_old_heuristics")
     }
+    #[allow(unexpected_cfgs)]
     pub fn get_prime(matches: &ArgMatches) -> Result<String, ()> {
-        
+        #[cfg(vp_mc)]
+        {
+            if let Some(name) = matches.value_of("prime") {
+                if program_structure::constants::vp_mc_prime(name).is_some() {
+                    return Ok(String::from(name));
+                }
+            }
+        }
+
         match matches.is_present("prime"){
             true => 
                {
diff --git a/program_structure/src/utils/constants.rs b/program_structure/src/utils/constants.rs
index 2fe88b5..9526dc2 100644
--- a/program_structure/src/utils/constants.rs
+++ b/program_structure/src/utils/constants.rs
@@ -24,8 +24,27 @@ impl Clone for UsefulConstants {
     }
 }
 
+// Verification hook, off by default: with `--cfg vp_mc` the names "vp<n>" choose the prime n < 1000,
+// so that a model checker can enumerate whole fields.
+#[allow(unexpected_cfgs)]
+#[cfg(vp_mc)]
+pub fn vp_mc_prime(name: &str) -> Option<BigInt> {
+    let n: u32 = name.strip_prefix("vp")?.parse().ok()?;
+    if n < 3 || n >= 1000 || (2..n).any(|d| n % d == 0) {
+        return None;
+    }
+    Some(BigInt::from(n))
+}
+
 impl UsefulConstants {
+    #[allow(unexpected_cfgs)]
     pub fn new(possible_prime: &String) -> UsefulConstants {
+        #[cfg(vp_mc)]
+        {
+            if let Some(p) = vp_mc_prime(possible_prime) {
+                return UsefulConstants { p };
+            }
+        }
         let prime_to_use = if possible_prime.eq("bn128") {P_BN128} 
           else if possible_prime.eq("bls12381") { P_BLS12381} 
           else if possible_prime.eq("goldilocks") { P_GOLDILOCKS} 
-- 
2.43.0


From 86a0f4a33ba1c3d445a7209b30ea54624f7eaef6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:18:57 +0000
Subject: [PATCH 02/62] fix: shifts by 2^64 or more bits were reported as
 divisions by zero, and large ones never ended

---
 circom_algebra/src/modular_arithmetic.rs | 20 ++++++++++++--------
 1 file changed, 12 insertions(+), 8 deletions(-)

diff --git a/circom_algebra/src/modular_arithmetic.rs b/circom_algebra/src/modular_arithmetic.rs
index 60c386c..43319e6 100644
--- a/circom_algebra/src/modular_arithmetic.rs
+++ b/circom_algebra/src/modular_arithmetic.rs
@@ -112,10 +112,13 @@ pub fn shift_l(left: &BigInt, right: &BigInt, field: &BigInt) -> Result<BigInt,
     let two = BigInt::from(2);
     let top = field / &two;
     if right <= &top {
-        let usize_repr = right
-            .to_usize()
-            .map_or(Result::Err(ArithmeticError::DivisionByZero), |a| Result::Ok(a))?;
-        let value = modulus(&((left * &num_traits::pow(two, usize_repr)) & &mask(field)), field);
+        // shifting by the number of bits of the field or more leaves no bit inside of the mask
+        let value = match right.to_usize() {
+            Some(shift) if shift < field.bits() => {
+                modulus(&((left * &num_traits::pow(two, shift)) & &mask(field)), field)
+            }
+            _ => BigInt::from(0),
+        };
         Result::Ok(value)
     } else {
         shift_r(left, &(field - right), field)
@@ -125,10 +128,11 @@ pub fn shift_r(left: &BigInt, right: &BigInt, field: &BigInt) -> Result<BigInt,
     let two = BigInt::from(2);
     let top = field / &two;
     if right <= &top {
-        let usize_repr = right
-            .to_usize()
-            .map_or(Result::Err(ArithmeticError::DivisionByZero), |a| Result::Ok(a))?;
-        let value = left / &num_traits::pow(two, usize_repr);
+        // shifting by the number of bits of the field or more drops every bit
+        let value = match right.to_usize() {
+            Some(shift) if shift < field.bits() => left / &num_traits::pow(two, shift),
+            _ => BigInt::from(0),
+        };
         Result::Ok(value)
     } else {
         shift_l(left, &(field - right), field)
-- 
2.43.0


From 1f22565f3907710ca53c3db2e0501e99460ebf82 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:36:15 +0000
Subject: [PATCH 03/62] fix: an array read at an unknown index overwrote only
 the first known value of the array it was assigned to

---
 constraint_generation/src/execute.rs | 32 +++++++++++++++++++---------
 1 file changed, 22 insertions(+), 10 deletions(-)

diff --git a/constraint_generation/src/execute.rs b/constraint_generation/src/execute.rs
index 0e5698a..a7794fb 100644
--- a/constraint_generation/src/execute.rs
+++ b/constraint_generation/src/execute.rs
@@ -1601,7 +1601,12 @@ fn perform_assign(
             )?;
             *symbol_tags = TagInfo::new();
         } else {
-
+            // an unknown value is represented by a single cell even if it is an array:
+            // in this case all the assigned positions become unknown
+            if r_slice.is_single() && AExpressionSlice::get_reference_to_single_value(&r_slice, &[]).map_or(false, |v| v.is_nonquadratic()){
+                let assigned_route = symbol_content.route().get(accessing_information.before_signal.len()..).unwrap_or(&[]);
+                r_slice = AExpressionSlice::new_with_route(assigned_route, &AExpr::NonQuadratic);
+            }
             let memory_result = AExpressionSlice::insert_values(
                 symbol_content,
                 &accessing_information.before_signal,
@@ -2843,13 +2848,8 @@ fn execute_variable(
     flags: FlagsExecution
 ) -> Result<FoldedValue, ()> {
     let access_information = treat_accessing(meta, access, program_archive, runtime, flags)?;
-    if access_information.undefined {
-        let arithmetic_slice = Option::Some(AExpressionSlice::new(&AExpr::NonQuadratic));
-        return Result::Ok(FoldedValue { arithmetic_slice, ..FoldedValue::default() });
-    }
     debug_assert!(access_information.signal_access.is_none());
     debug_assert!(access_information.after_signal.is_empty());
-    let indexing = access_information.before_signal;
     let environment_response = ExecutionEnvironment::get_variable_res(&runtime.environment, symbol);
     let (var_tag, ae_slice) = treat_result_with_environment_error(
         environment_response,
@@ -2857,6 +2857,11 @@ fn execute_variable(
         &mut runtime.runtime_errors,
         &runtime.call_trace,
     )?;
+    if access_information.undefined {
+        let arithmetic_slice = Option::Some(unknown_access_value(ae_slice.route(), access));
+        return Result::Ok(FoldedValue { arithmetic_slice, ..FoldedValue::default() });
+    }
+    let indexing = access_information.before_signal;
     let memory_response = AExpressionSlice::access_values(&ae_slice, &indexing);
     let ae_slice = treat_result_with_memory_error(
         memory_response,
@@ -2871,6 +2876,13 @@ fn execute_variable(
     Result::Ok(FoldedValue { arithmetic_slice: Option::Some(ae_slice), tags: Option::Some(tags), ..FoldedValue::default() })
 }
 
+// Value of an access whose indexes are not all known: each of the remaining positions is unknown
+fn unknown_access_value(route: &[SliceCapacity], access: &[Access]) -> AExpressionSlice {
+    let dimensions = access.iter().take_while(|a| matches!(a, Access::ArrayAccess(_))).count();
+    let remaining_route = route.get(dimensions..).unwrap_or(&[]);
+    AExpressionSlice::new_with_route(remaining_route, &AExpr::NonQuadratic)
+}
+
 fn execute_signal(
     meta: &Meta,
     symbol: &str,
@@ -2880,10 +2892,6 @@ fn execute_signal(
     flags: FlagsExecution
 ) -> Result<FoldedValue, ()> {
     let access_information = treat_accessing(meta, access, program_archive, runtime, flags)?;
-    if access_information.undefined {
-        let arithmetic_slice = Option::Some(AExpressionSlice::new(&AExpr::NonQuadratic));
-        return Result::Ok(FoldedValue { arithmetic_slice, ..FoldedValue::default() });
-    }
     debug_assert!(access_information.after_signal.is_empty());
     let indexing = &access_information.before_signal;
     let environment_response = if ExecutionEnvironment::has_input(&runtime.environment, symbol) {
@@ -2901,6 +2909,10 @@ fn execute_signal(
         &mut runtime.runtime_errors,
         &runtime.call_trace,
     )?;
+    if access_information.undefined {
+        let arithmetic_slice = Option::Some(unknown_access_value(signal_slice.route(), access));
+        return Result::Ok(FoldedValue { arithmetic_slice, ..FoldedValue::default() });
+    }
     if let Some(acc) = access_information.signal_access {
         if tag_data.tags.contains_key(&acc) {
             let value_tag = tag_data.tags.get(&acc).unwrap();
-- 
2.43.0


From 4d311c128f03d8bbf0941794d59d14af77de53da Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:42:06 +0000
Subject: [PATCH 04/62] fix: a function calling another one twice in the same
 expression was rejected as untypable

---
 type_analysis/src/analyzers/type_given_function.rs | 1 +
 1 file changed, 1 insertion(+)

diff --git a/type_analysis/src/analyzers/type_given_function.rs b/type_analysis/src/analyzers/type_given_function.rs
index 427d11b..7d1ee24 100644
--- a/type_analysis/src/analyzers/type_given_function.rs
+++ b/type_analysis/src/analyzers/type_given_function.rs
@@ -315,6 +315,7 @@ fn look_for_type_in_expression(
                 params_types.push(arg_type);
             }
             let has_type = start(id, explored_functions, function_info, &params_types);
+            explored_functions.remove(id);
             has_type
         }
         _ => {unreachable!("Anonymous calls should not be reachable at this point."); }
-- 
2.43.0


From 7b38547dfca1f6a496be04ab0d4123ddfd9971ea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:42:31 +0000
Subject: [PATCH 05/62] fix: calls, arrays and ternaries inside loop
 conditions, ternary branches and unbraced bodies were computed in the wrong
 place

---
 compiler/src/hir/merger.rs        |  6 +-
 compiler/src/hir/sugar_cleaner.rs | 95 ++++++++++++++++++++++++-------
 2 files changed, 80 insertions(+), 21 deletions(-)

diff --git a/compiler/src/hir/merger.rs b/compiler/src/hir/merger.rs
index 100dcdd..4ef7a47 100644
--- a/compiler/src/hir/merger.rs
+++ b/compiler/src/hir/merger.rs
@@ -313,7 +313,8 @@ fn produce_vcf_variable(expr: &Expression, state: &mut State, environment: &E) {
 
 fn produce_vcf_switch(expr: &Expression, state: &mut State, environment: &E) {
     use Expression::InlineSwitchOp;
-    if let InlineSwitchOp { if_true, if_false, .. } = expr {
+    if let InlineSwitchOp { cond, if_true, if_false, .. } = expr {
+        produce_vcf_expr(cond, state, environment);
         produce_vcf_expr(if_true, state, environment);
         produce_vcf_expr(if_false, state, environment);
     } else {
@@ -580,7 +581,8 @@ fn link_variable(expr: &mut Expression, state: &State, env: &E) {
 
 fn link_switch(expr: &mut Expression, state: &State, env: &E) {
     use Expression::InlineSwitchOp;
-    if let InlineSwitchOp { if_true, if_false, .. } = expr {
+    if let InlineSwitchOp { cond, if_true, if_false, .. } = expr {
+        link_expression(cond, state, env);
         link_expression(if_true, state, env);
         link_expression(if_false, state, env);
     } else {
diff --git a/compiler/src/hir/sugar_cleaner.rs b/compiler/src/hir/sugar_cleaner.rs
index 3fefc25..df55d41 100644
--- a/compiler/src/hir/sugar_cleaner.rs
+++ b/compiler/src/hir/sugar_cleaner.rs
@@ -101,15 +101,41 @@ fn extend_block(stmt: &mut Statement, state: &mut State, context: &Context) -> V
     }
 }
 
+// What is extracted from a body has to be computed inside it, even if the body is not a block
+fn extend_body(stmt: &mut Statement, state: &mut State, context: &Context) -> Vec<Statement> {
+    if !stmt.is_block() {
+        let meta = stmt.get_meta().clone();
+        let body = std::mem::replace(stmt, Statement::Block { meta, stmts: Vec::new() });
+        if let Statement::Block { stmts, .. } = stmt {
+            stmts.push(body);
+        }
+    }
+    extend_statement(stmt, state, context)
+}
+
 fn extend_while(stmt: &mut Statement, state: &mut State, context: &Context) -> Vec<Statement> {
-    use Statement::While;
-    if let While { cond, stmt, .. } = stmt {
-        let mut expands = extend_statement(stmt, state, context);
-        let mut cond_extension = extend_expression(cond, state, context);
-        expands.append(&mut cond_extension.initializations);
+    use Statement::{Block, While};
+    if let While { meta, cond, stmt } = stmt {
+        let mut expands = extend_body(stmt, state, context);
+        let mut cond_expands = extend_expression(cond, state, context).initializations;
         let mut expr = vec![cond.clone()];
-        sugar_filter(&mut expr, state, &mut expands);
+        sugar_filter(&mut expr, state, &mut cond_expands);
         *cond = expr.pop().unwrap();
+        // the condition is evaluated before each iteration, so the values extracted
+        // from it have to be computed again at the end of the body
+        let updates: Vec<Statement> =
+            cond_expands.iter().filter(|s| !s.is_declaration()).cloned().collect();
+        if !updates.is_empty() {
+            let body = std::mem::replace(
+                stmt.as_mut(),
+                Block { meta: meta.clone(), stmts: Vec::new() },
+            );
+            let mut stmts = vec![body];
+            stmts.extend(updates);
+            map_substitutions(&mut stmts);
+            *stmt = Box::new(Block { meta: meta.clone(), stmts });
+        }
+        expands.append(&mut cond_expands);
         expands
     } else {
         unreachable!()
@@ -124,9 +150,9 @@ fn extend_conditional(
     use Statement::IfThenElse;
     if let IfThenElse { cond, if_case, else_case, .. } = stmt {
         let mut expands = vec![];
-        expands.append(&mut extend_statement(if_case, state, context));
+        expands.append(&mut extend_body(if_case, state, context));
         if let Option::Some(s) = else_case {
-            expands.append(&mut extend_statement(s, state, context));
+            expands.append(&mut extend_body(s, state, context));
         }
         let mut cond_extension = extend_expression(cond, state, context);
         expands.append(&mut cond_extension.initializations);
@@ -147,7 +173,7 @@ fn extend_substitution(
     use Statement::Substitution;
     if let Substitution { rhe, access, .. } = stmt {
         let mut expands = extend_expression(rhe, state, context).initializations;
-        
+
         let mut inits = vec![];
         for acc in access {
             if let Access::ArrayAccess(e) = acc {
@@ -368,16 +394,47 @@ fn extend_infix(expr: &mut Expression, state: &mut State, context: &Context) ->
 
 fn extend_switch(expr: &mut Expression, state: &mut State, context: &Context) -> ExtendedSyntax {
     use Expression::InlineSwitchOp;
-    if let InlineSwitchOp { if_true, if_false, .. } = expr {
-        let mut true_expand = extend_expression(if_true, state, context);
-        let mut false_expand = extend_expression(if_false, state, context);
-        true_expand.initializations.append(&mut false_expand.initializations);
-        let mut extended = true_expand;
-        let mut expr = vec![*if_true.clone(), *if_false.clone()];
-        sugar_filter(&mut expr, state, &mut extended.initializations);
-        *if_false = Box::new(expr.pop().unwrap());
-        *if_true = Box::new(expr.pop().unwrap());
-        extended
+    if let InlineSwitchOp { cond, if_true, if_false, .. } = expr {
+        let mut initializations = extend_operand(cond, state, context);
+        let true_expand = extend_operand(if_true, state, context);
+        let false_expand = extend_operand(if_false, state, context);
+        if !true_expand.is_empty() || !false_expand.is_empty() {
+            // what is extracted from a branch can only be computed if the branch is selected
+            let id = state.produce_id();
+            let mut extracted = vec![];
+            *expr = rmv_sugar(&id, expr.clone(), &mut extracted);
+            map_substitutions(&mut extracted);
+            if let Option::Some(Statement::IfThenElse { if_case, else_case, .. }) = extracted.last_mut() {
+                add_at_the_beginning(if_case, true_expand);
+                add_at_the_beginning(else_case.as_mut().unwrap(), false_expand);
+            } else {
+                unreachable!()
+            }
+            initializations.append(&mut extracted);
+        }
+        ExtendedSyntax { initializations }
+    } else {
+        unreachable!()
+    }
+}
+
+fn extend_operand(
+    expr: &mut Expression,
+    state: &mut State,
+    context: &Context,
+) -> Vec<Statement> {
+    let mut initializations = extend_expression(expr, state, context).initializations;
+    let mut work = vec![expr.clone()];
+    sugar_filter(&mut work, state, &mut initializations);
+    *expr = work.pop().unwrap();
+    initializations
+}
+
+fn add_at_the_beginning(block: &mut Statement, mut initializations: Vec<Statement>) {
+    if let Statement::Block { stmts, .. } = block {
+        initializations.append(stmts);
+        map_substitutions(&mut initializations);
+        *stmts = initializations;
     } else {
         unreachable!()
     }
-- 
2.43.0


From 12e4b7533543e53cada35d0f1915b9355a0040d2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:42:31 +0000
Subject: [PATCH 06/62] fix: an array built from the variable it is assigned to
 was computed from partially assigned values

---
 compiler/src/hir/sugar_cleaner.rs | 34 ++++++++++++++++++++++++++++++-
 1 file changed, 33 insertions(+), 1 deletion(-)

diff --git a/compiler/src/hir/sugar_cleaner.rs b/compiler/src/hir/sugar_cleaner.rs
index df55d41..53b88a2 100644
--- a/compiler/src/hir/sugar_cleaner.rs
+++ b/compiler/src/hir/sugar_cleaner.rs
@@ -171,8 +171,15 @@ fn extend_substitution(
     context: &Context,
 ) -> Vec<Statement> {
     use Statement::Substitution;
-    if let Substitution { rhe, access, .. } = stmt {
+    if let Substitution { rhe, access, var, .. } = stmt {
         let mut expands = extend_expression(rhe, state, context).initializations;
+        // the positions of an array are assigned one by one, so an array that is built
+        // from the assigned variable has to be completely computed before the assignment
+        if rhe.is_array() && mentions(rhe, var) {
+            let mut work = vec![rhe.clone()];
+            sugar_filter(&mut work, state, &mut expands);
+            *rhe = work.pop().unwrap();
+        }
 
         let mut inits = vec![];
         for acc in access {
@@ -518,6 +525,31 @@ fn extend_call(expr: &mut Expression, state: &mut State, context: &Context) -> E
 
 // Utils
 
+fn mentions(expr: &Expression, symbol: &str) -> bool {
+    use Expression::*;
+    match expr {
+        Number(..) => false,
+        Variable { name, access, .. } => {
+            name == symbol
+                || access.iter().any(|a| match a {
+                    Access::ArrayAccess(index) => mentions(index, symbol),
+                    Access::ComponentAccess(_) => false,
+                })
+        }
+        PrefixOp { rhe, .. } | ParallelOp { rhe, .. } => mentions(rhe, symbol),
+        InfixOp { lhe, rhe, .. } => mentions(lhe, symbol) || mentions(rhe, symbol),
+        InlineSwitchOp { cond, if_true, if_false, .. } => {
+            mentions(cond, symbol) || mentions(if_true, symbol) || mentions(if_false, symbol)
+        }
+        Call { args, .. } => args.iter().any(|a| mentions(a, symbol)),
+        ArrayInLine { values, .. } => values.iter().any(|v| mentions(v, symbol)),
+        UniformArray { value, dimension, .. } => {
+            mentions(value, symbol) || mentions(dimension, symbol)
+        }
+        _ => false,
+    }
+}
+
 fn sugar_filter(elements: &mut Vec<Expression>, state: &mut State, inits: &mut Vec<Statement>) {
     let work = std::mem::replace(elements, Vec::with_capacity(elements.len()));
     for elem in work {
-- 
2.43.0


From f629520ec30af65076abbc98343288255cd63cde Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:44:38 +0000
Subject: [PATCH 07/62] fix: a call whose argument calls the same function made
 the compiler panic

---
 compiler/src/hir/type_inference.rs | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/compiler/src/hir/type_inference.rs b/compiler/src/hir/type_inference.rs
index fb633ba..cd1fb86 100644
--- a/compiler/src/hir/type_inference.rs
+++ b/compiler/src/hir/type_inference.rs
@@ -252,15 +252,16 @@ fn infer_type_call(expr: &Expression, state: &State, context: &mut SearchInfo) -
         if context.open_calls.contains(id) {
             Option::None
         } else {
-            context.open_calls.insert(id.clone());
-            context.environment.add_variable_block();
             let mut index = 0;
             let body = &state.generic_functions.get(id).unwrap().body;
             let names = &state.generic_functions.get(id).unwrap().params_names;
+            // the arguments do not belong to the call, they can contain calls to the same function
             let arg_types = infer_args(args, state, context);
             if arg_types.is_none() {
                 return Option::None;
             }
+            context.open_calls.insert(id.clone());
+            context.environment.add_variable_block();
             let arg_types = arg_types.unwrap();
             for arg_type in arg_types {
                 context.environment.add_variable(&names[index], arg_type);
-- 
2.43.0


From df7084ff9e978d555032517e66b05a4a4f5e666b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:53:43 +0000
Subject: [PATCH 08/62] fix: a constraint fixing a signal to a second,
 different constant was lost in the simplification

---
 constraint_list/src/constraint_simplification.rs | 11 ++++++++++-
 1 file changed, 10 insertions(+), 1 deletion(-)

diff --git a/constraint_list/src/constraint_simplification.rs b/constraint_list/src/constraint_simplification.rs
index 66d7a21..d4fdcdc 100644
--- a/constraint_list/src/constraint_simplification.rs
+++ b/constraint_list/src/constraint_simplification.rs
@@ -258,13 +258,22 @@ fn constant_eq_simplification(
 ) -> (LinkedList<S>, LinkedList<C>) {
     let mut cons = LinkedList::new();
     let mut subs = LinkedList::new();
-    for constraint in c_eq {
+    let mut constants: HashMap<usize, S> = HashMap::new();
+    for mut constraint in c_eq {
         let mut signals: Vec<_> = C::take_cloned_signals_ordered(&constraint).iter().cloned().collect();
         let signal = signals.pop().unwrap();
         if HashSet::contains(&forbidden, &signal) {
             LinkedList::push_back(&mut cons, constraint);
+        } else if let Some(previous) = constants.get(&signal) {
+            // the signal already has a value: if it is not the same one the constraint cannot be lost
+            C::apply_substitution(&mut constraint, previous, field);
+            C::fix_constraint(&mut constraint, field);
+            if !C::is_empty(&constraint) {
+                LinkedList::push_back(&mut cons, constraint);
+            }
         } else {
             let sub = C::clear_signal_from_linear(constraint, &signal, field);
+            constants.insert(signal, sub.clone());
             LinkedList::push_back(&mut subs, sub);
         }
     }
-- 
2.43.0


From 8b2e9fb3cc7fd35d6b23e6cc819690d2be045789 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:25:33 +0000
Subject: [PATCH 09/62] fix: substitutions written with
 --simplification_substitution referred to signals that later ones had removed

---
 .../src/constraint_simplification.rs          | 51 ++++++++++++-------
 1 file changed, 34 insertions(+), 17 deletions(-)

diff --git a/constraint_list/src/constraint_simplification.rs b/constraint_list/src/constraint_simplification.rs
index d4fdcdc..71f3683 100644
--- a/constraint_list/src/constraint_simplification.rs
+++ b/constraint_list/src/constraint_simplification.rs
@@ -6,14 +6,33 @@ use constraint_writers::json_writer::SubstitutionJSON;
 use std::collections::{HashMap, HashSet, LinkedList, BTreeSet};
 use std::sync::Arc;
 
-fn log_substitutions(substitutions: &LinkedList<S>, writer: &mut Option<SubstitutionJSON>) {
+// The substitutions found in every phase, in the order in which they were found
+type SubstitutionLog = Option<Vec<S>>;
+
+fn log_substitutions(substitutions: &LinkedList<S>, log: &mut SubstitutionLog) {
+    if let Some(log) = log {
+        log.extend(substitutions.iter().cloned());
+    }
+}
+
+// Writes each substitution in terms of signals that no other substitution removes: the
+// signals of a substitution may have been removed by the ones that were found after it.
+fn write_substitutions(log: Vec<S>, writer: &mut SubstitutionJSON, field: &BigInt) -> Result<(), ()> {
     use super::json_porting::port_substitution;
-    if let Some(w) = writer {
-        for s in substitutions {
-            let (from, to) = port_substitution(s);
-            w.write_substitution(&from, &to).unwrap();
-        }
+    use circom_algebra::simplification_utils::fast_encoded_substitution_substitution;
+    let mut encoded = SEncoded::with_capacity(log.len());
+    let mut resolved = Vec::with_capacity(log.len());
+    for mut substitution in log.into_iter().rev() {
+        fast_encoded_substitution_substitution(&mut substitution, &encoded, field);
+        let (from, to) = S::decompose(substitution.clone());
+        encoded.insert(from, to);
+        resolved.push(substitution);
+    }
+    for substitution in resolved.iter().rev() {
+        let (from, to) = port_substitution(substitution);
+        writer.write_substitution(&from, &to)?;
     }
+    Result::Ok(())
 }
 
 #[derive(Default, Clone)]
@@ -200,7 +219,7 @@ fn eq_simplification(
     forbidden: Arc<HashSet<usize>>,
     no_vars: usize,
     field: &BigInt,
-    substitution_log: &mut Option<SubstitutionJSON>,
+    substitution_log: &mut SubstitutionLog,
 ) -> (LinkedList<S>, LinkedList<C>) {
     use std::sync::mpsc;
     use threadpool::ThreadPool;
@@ -254,7 +273,7 @@ fn constant_eq_simplification(
     c_eq: LinkedList<C>,
     forbidden: &HashSet<usize>,
     field: &BigInt,
-    substitution_log: &mut Option<SubstitutionJSON>,
+    substitution_log: &mut SubstitutionLog,
 ) -> (LinkedList<S>, LinkedList<C>) {
     let mut cons = LinkedList::new();
     let mut subs = LinkedList::new();
@@ -282,7 +301,7 @@ fn constant_eq_simplification(
 }
 
 fn linear_simplification(
-    log: &mut Option<SubstitutionJSON>,
+    log: &mut SubstitutionLog,
     linear: LinkedList<C>,
     forbidden: Arc<HashSet<usize>>,
     no_labels: usize,
@@ -454,12 +473,8 @@ pub fn simplification(smp: &mut Simplifier) -> (ConstraintStorage, SignalMap, us
     use circom_algebra::simplification_utils::fast_encoded_constraint_substitution;
     use std::time::SystemTime;
 
-    let mut substitution_log =
-        if smp.port_substitution { 
-            Some(SubstitutionJSON::new(&smp.json_substitutions).unwrap()) 
-        } else {
-             None 
-        };
+    let mut substitution_log: SubstitutionLog =
+        if smp.port_substitution { Some(Vec::new()) } else { None };
     let apply_linear = !smp.flag_s;
     let use_old_heuristics = smp.flag_old_heuristics;
     let field = smp.field.clone();
@@ -731,8 +746,10 @@ pub fn simplification(smp: &mut Simplifier) -> (ConstraintStorage, SignalMap, us
     }
 
 
-    if let Some(w) = substitution_log {
-        w.end().unwrap();
+    if let Some(log) = substitution_log {
+        let mut writer = SubstitutionJSON::new(&smp.json_substitutions).unwrap();
+        write_substitutions(log, &mut writer, &field).unwrap();
+        writer.end().unwrap();
     }
     // println!("NO CONSTANTS: {}", constraint_storage.no_constants());
     (constraint_storage, signal_map, smp.no_private_inputs - deleted_inputs)
-- 
2.43.0


From b04e2c5ae2feb8a9e3b287da6dda351d43285f31 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:32:43 +0000
Subject: [PATCH 10/62] fix: the order of the constraints and substitutions
 written depended on thread timing and hash seeds

---
 circom_algebra/src/simplification_utils.rs    |  6 +++--
 .../src/constraint_simplification.rs          | 26 +++++++++++--------
 2 files changed, 19 insertions(+), 13 deletions(-)

diff --git a/circom_algebra/src/simplification_utils.rs b/circom_algebra/src/simplification_utils.rs
index 6219843..1061c93 100644
--- a/circom_algebra/src/simplification_utils.rs
+++ b/circom_algebra/src/simplification_utils.rs
@@ -1,7 +1,7 @@
 use super::num_bigint::BigInt;
 use crate::num_traits::ToPrimitive;
 use crate::modular_arithmetic;
-use std::collections::{BTreeMap, HashMap, HashSet, LinkedList};
+use std::collections::{BTreeMap, BTreeSet, HashMap, HashSet, LinkedList};
 use std::mem::replace;
 
 type C = crate::algebra::Constraint<usize>;
@@ -379,7 +379,8 @@ fn take_signal_3(signals: &SignalDefinition, constraint: &C) -> Option<usize> {
 fn take_signal_4(signals: &SignalDefinition4, info_ocurrences: &SignalsInformation, constraint: &C) -> Option<usize> {
     let mut ret = Option::None;
     let mut ocurrences_ret: Option<usize> = Option::None;
-    for k in constraint.c().keys() {
+    let keys: BTreeSet<_> = constraint.c().keys().collect();
+    for k in keys {
         if signals.can_be_taken(*k) {
             if signals.is_deleted(*k) {
                 ret = Some(*k);
@@ -572,6 +573,7 @@ where
     }
     let mut substitutions = LinkedList::new();
     let mut removed = LinkedList::new();
+    let non_overlapping: SH = non_overlapping.into_iter().collect();
     for (s, v) in non_overlapping {
         LinkedList::push_back(&mut removed, s);
         LinkedList::push_back(&mut substitutions, v);
diff --git a/constraint_list/src/constraint_simplification.rs b/constraint_list/src/constraint_simplification.rs
index 71f3683..617a2d5 100644
--- a/constraint_list/src/constraint_simplification.rs
+++ b/constraint_list/src/constraint_simplification.rs
@@ -93,7 +93,7 @@ fn build_clusters(linear: LinkedList<C>, no_vars: usize) -> Vec<Cluster> {
     let mut signal_to_cluster = vec![no_linear; no_vars];
     for constraint in linear {
         if !constraint.is_empty(){
-            let signals = C::take_cloned_signals(&constraint);
+            let signals = C::take_cloned_signals_ordered(&constraint);
             let dest = ClusterArena::len(&arena);
             ClusterArena::push(&mut arena, Some(Cluster::new(constraint, signals.len())));
             Vec::push(&mut cluster_to_current, dest);
@@ -175,7 +175,7 @@ fn eq_cluster_simplification(
         let mut cons = LinkedList::new();
         let mut subs = LinkedList::new();
         let (mut remains, mut min_remains) = (BTreeSet::new(), None);
-        let (mut remove, mut min_remove) = (HashSet::new(), None);
+        let (mut remove, mut min_remove) = (BTreeSet::new(), None);
         for c in cluster.constraints {
             for signal in C::take_cloned_signals_ordered(&c) {
                 if HashSet::contains(&forbidden, &signal) {
@@ -183,7 +183,7 @@ fn eq_cluster_simplification(
                     min_remains = Some(min_remains.map_or(signal, |s| std::cmp::min(s, signal)));
                 } else {
                     min_remove = Some(min_remove.map_or(signal, |s| std::cmp::min(s, signal)));
-                    HashSet::insert(&mut remove, signal);
+                    BTreeSet::insert(&mut remove, signal);
                 }
             }
         }
@@ -193,7 +193,7 @@ fn eq_cluster_simplification(
             signal
         } else {
             let signal = min_remove.unwrap();
-            HashSet::remove(&mut remove, &signal);
+            BTreeSet::remove(&mut remove, &signal);
             signal
         };
 
@@ -234,11 +234,12 @@ fn eq_simplification(
     let mut single_clusters = 0;
     let mut id = 0;
     let mut aux_constraints = vec![LinkedList::new(); clusters.len()];
+    let mut aux_substitutions = vec![LinkedList::new(); clusters.len()];
     for cluster in clusters {
         if Cluster::size(&cluster) == 1 {
-            let (mut subs, cons) = eq_cluster_simplification(cluster, &forbidden, &field);
+            let (subs, cons) = eq_cluster_simplification(cluster, &forbidden, &field);
             aux_constraints[id] = cons;
-            LinkedList::append(&mut substitutions, &mut subs);
+            aux_substitutions[id] = subs;
             single_clusters += 1;
         } else {
             let cluster_tx = cluster_tx.clone();
@@ -258,11 +259,12 @@ fn eq_simplification(
     // println!("{} clusters were of size 1", single_clusters);
     ThreadPool::join(&pool);
     for _ in 0..(no_clusters - single_clusters) {
-        let (id, (mut subs, cons)) = simplified_rx.recv().unwrap();
+        let (id, (subs, cons)) = simplified_rx.recv().unwrap();
         aux_constraints[id] = cons;
-        LinkedList::append(&mut substitutions, &mut subs);
+        aux_substitutions[id] = subs;
     }
     for id in 0..no_clusters {
+        LinkedList::append(&mut substitutions, &mut aux_substitutions[id]);
         LinkedList::append(&mut constraints, &mut aux_constraints[id]);
     }
     log_substitutions(&substitutions, substitution_log);
@@ -335,7 +337,7 @@ fn linear_simplification(
             // println!("cluster: {}", id);
             let result = full_simplification(config);
             // println!("End of cluster: {}", id);
-            cluster_tx.send(result).unwrap();
+            cluster_tx.send((id, result)).unwrap();
         };
         ThreadPool::execute(&pool, job);
         let _ = id;
@@ -343,8 +345,10 @@ fn linear_simplification(
     }
     ThreadPool::join(&pool);
 
-    for _ in 0..no_clusters {
-        let mut result = simplified_rx.recv().unwrap();
+    // the results arrive in any order, they are collected in the order of the clusters
+    let mut results: Vec<_> = simplified_rx.iter().take(no_clusters).collect();
+    results.sort_by_key(|(id, _)| *id);
+    for (_, mut result) in results {
         log_substitutions(&result.substitutions, log);
         LinkedList::append(&mut cons, &mut result.constraints);
         LinkedList::append(&mut substitutions, &mut result.substitutions);
-- 
2.43.0


From 5b42dd56ab3c586f29c65037ce698e992a53f8b2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:46:53 +0000
Subject: [PATCH 11/62] fix: --sanity_check was ignored by the WASM witness
 generator

---
 compiler/src/circuit_design/template.rs       | 33 +++++++++++++++++++
 .../assert_bucket.rs                          |  3 ++
 2 files changed, 36 insertions(+)

diff --git a/compiler/src/circuit_design/template.rs b/compiler/src/circuit_design/template.rs
index c642354..84af21e 100644
--- a/compiler/src/circuit_design/template.rs
+++ b/compiler/src/circuit_design/template.rs
@@ -147,6 +147,39 @@ impl WriteWasm for TemplateCodeInfo {
             instructions.append(&mut instructions_body);
         }
 
+        // check that all the inputs of the subcomponents have been set if sanity_check >= 2
+        if producer.sanity_check_style >= 2 && self.number_of_components > 0 {
+            let start = producer.get_sub_component_start_in_component();
+            instructions.push(get_local(producer.get_offset_tag()));
+            instructions.push(set_local(producer.get_aux_0_tag()));
+            instructions.push(set_constant(&self.number_of_components.to_string()));
+            instructions.push(set_local(producer.get_counter_tag()));
+            instructions.push(add_loop());
+            instructions.push(get_local(producer.get_aux_0_tag()));
+            instructions.push(load32(Some(&start.to_string())));
+            instructions.push(tee_local(producer.get_sub_cmp_tag()));
+            instructions.push(add_if()); // the subcomponent has been created
+            instructions.push(get_local(producer.get_sub_cmp_tag()));
+            instructions.push(load32(Some(
+                &producer.get_input_counter_address_in_component().to_string(),
+            )));
+            instructions.push(add_if()); // there are inputs to be set
+            instructions.push(set_constant(&exception_code_assert_fail().to_string()));
+            instructions.push(add_return());
+            instructions.push(add_end());
+            instructions.push(add_end());
+            instructions.push(get_local(producer.get_aux_0_tag()));
+            instructions.push(set_constant("4"));
+            instructions.push(add32());
+            instructions.push(set_local(producer.get_aux_0_tag()));
+            instructions.push(get_local(producer.get_counter_tag()));
+            instructions.push(set_constant("1"));
+            instructions.push(sub32());
+            instructions.push(tee_local(producer.get_counter_tag()));
+            instructions.push(br_if("0"));
+            instructions.push(add_end());
+        }
+
         //free stack
         let mut free_stack_code = free_stack(producer);
         instructions.append(&mut free_stack_code);
diff --git a/compiler/src/intermediate_representation/assert_bucket.rs b/compiler/src/intermediate_representation/assert_bucket.rs
index 3e6def3..d285c68 100644
--- a/compiler/src/intermediate_representation/assert_bucket.rs
+++ b/compiler/src/intermediate_representation/assert_bucket.rs
@@ -45,6 +45,9 @@ impl WriteWasm for AssertBucket {
     fn produce_wasm(&self, producer: &WASMProducer) -> Vec<String> {
         use code_producers::wasm_elements::wasm_code_generator::*;
         let mut instructions = vec![];
+        if self.is_constraint_equality && producer.sanity_check_style < 1 {
+            return instructions;
+        }
         if producer.needs_comments() {
             instructions.push(";; assert bucket".to_string());
 	}
-- 
2.43.0


From 9a10de98d85364738c2372168c21d86d29d8c56d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:50:26 +0000
Subject: [PATCH 12/62] fix: asserts of the witness generation were evaluated
 or dropped at compile time

---
 constraint_generation/src/execute.rs | 21 +++++++++++++++++----
 1 file changed, 17 insertions(+), 4 deletions(-)

diff --git a/constraint_generation/src/execute.rs b/constraint_generation/src/execute.rs
index a7794fb..61027d0 100644
--- a/constraint_generation/src/execute.rs
+++ b/constraint_generation/src/execute.rs
@@ -44,6 +44,8 @@ enum BlockType {
 
 struct RuntimeInformation {
     pub block_type: BlockType,
+    pub called_in_unknown: bool, // executing a function called from an unknown block
+    pub delayed_asserts: usize, // asserts found so far that are left to the witness generation
     pub conditions_state: Vec<(usize, bool)>,
     pub unknown_counter: usize,
     pub analysis: Analysis,
@@ -61,6 +63,8 @@ impl RuntimeInformation {
         RuntimeInformation {
             current_file,
             block_type: BlockType::Known,
+            called_in_unknown: false,
+            delayed_asserts: 0,
             analysis: Analysis::new(id_max),
             public_inputs: vec![],
             constants: UsefulConstants::new(prime),
@@ -702,7 +706,7 @@ fn execute_statement(
                 if returned.is_some() {
                     break returned;
                 } else if condition_result.is_none() {
-                    let (returned, _, _) = execute_conditional_statement(
+                    let (returned, can_simplify, _) = execute_conditional_statement(
                         cond,
                         stmt,
                         None,
@@ -711,6 +715,7 @@ fn execute_statement(
                         actual_node,
                         flags
                     )?;
+                    can_be_simplified &= can_simplify;
                     break returned;
                 } else if !condition_result.unwrap() {
                     break returned;
@@ -766,10 +771,13 @@ fn execute_statement(
             let arith = safe_unwrap_to_single_arithmetic_expression(f_result, line!());
             let possible_bool = AExpr::get_boolean_equivalence(&arith, runtime.constants.get_p());
             let result = match possible_bool {
-                Some(b) if !b => Err(ExecutionError::FalseAssert),
-                Some(b) if b => Ok(None),
+                // an assert that depends on an unknown condition is left to the witness generation
+                Some(b) if runtime.block_type == BlockType::Known && !runtime.called_in_unknown => {
+                    if b { Ok(None) } else { Err(ExecutionError::FalseAssert) }
+                }
                 _ => {
                     can_be_simplified = false;
+                    runtime.delayed_asserts += 1;
                     Ok(None)
                 }
             };
@@ -958,6 +966,7 @@ fn execute_expression(
 ) -> Result<FoldedValue, ()> {
     use Expression::*;
     let mut can_be_simplified = true;
+    let previous_delayed_asserts = runtime.delayed_asserts;
     let res = match expr {
         Number(_, value) => {
             let a_value = AExpr::Number { value: value.clone() };
@@ -1261,7 +1270,8 @@ fn execute_expression(
     let expr_id = expr.get_meta().elem_id;
     let res_p = res.arithmetic_slice.clone();
     if let Some(slice) = res_p {
-        if slice.is_single() && can_be_simplified{
+        // an expression that executes asserts in the witness generation has to stay there
+        if slice.is_single() && can_be_simplified && runtime.delayed_asserts == previous_delayed_asserts {
             let value = AExpressionSlice::unwrap_to_single(slice);
             Analysis::computed(&mut runtime.analysis, expr_id, value);
         }
@@ -1305,6 +1315,8 @@ fn execute_call(
         let new_environment = prepare_environment_for_call(id, &arg_values, program_archive);
         let previous_environment = std::mem::replace(&mut runtime.environment, new_environment);
         let previous_block_type = std::mem::replace(&mut runtime.block_type, BlockType::Known);
+        let previous_called_in_unknown = runtime.called_in_unknown;
+        runtime.called_in_unknown |= previous_block_type == BlockType::Unknown;
         let previous_anonymous_components = std::mem::replace(&mut runtime.anonymous_components, AnonymousComponentsInfo::new());
 
         let new_file_id = program_archive.get_function_data(id).get_file_id();
@@ -1316,6 +1328,7 @@ fn execute_call(
         runtime.environment = previous_environment;
         runtime.current_file = previous_id;
         runtime.block_type = previous_block_type;
+        runtime.called_in_unknown = previous_called_in_unknown;
         runtime.anonymous_components = previous_anonymous_components;
         runtime.call_trace.pop();
         Ok(folded_result)
-- 
2.43.0


From 0872e93651b73119eb1a9e3ef695bee50c67759c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:53:52 +0000
Subject: [PATCH 13/62] fix: the C++ witness generator rounded the non-integer
 numbers of the JSON input

---
 code_producers/src/c_elements/common/main.cpp   | 6 ++++++
 code_producers/src/c_elements/common64/main.cpp | 6 ++++++
 2 files changed, 12 insertions(+)

diff --git a/code_producers/src/c_elements/common/main.cpp b/code_producers/src/c_elements/common/main.cpp
index c286558..ad9ef6a 100644
--- a/code_producers/src/c_elements/common/main.cpp
+++ b/code_producers/src/c_elements/common/main.cpp
@@ -9,6 +9,7 @@
 #include <nlohmann/json.hpp>
 #include <vector>
 #include <chrono>
+#include <cmath>
 
 using json = nlohmann::json;
 
@@ -169,6 +170,11 @@ void json2FrElements (json val, std::vector<FrElement> & vval){
       }
     } else if (val.is_number()) {
         double vd = val.get<double>();
+        if (vd != std::floor(vd)) {
+            std::ostringstream errStrStream;
+            errStrStream << "Invalid number in JSON input: " << val << "\n";
+	      throw std::runtime_error(errStrStream.str() );
+        }
         std::stringstream stream;
         stream << std::fixed << std::setprecision(0) << vd;
         s = stream.str();
diff --git a/code_producers/src/c_elements/common64/main.cpp b/code_producers/src/c_elements/common64/main.cpp
index 18ec889..77d4f55 100644
--- a/code_producers/src/c_elements/common64/main.cpp
+++ b/code_producers/src/c_elements/common64/main.cpp
@@ -9,6 +9,7 @@
 #include <nlohmann/json.hpp>
 #include <vector>
 #include <chrono>
+#include <cmath>
 
 using json = nlohmann::json;
 
@@ -173,6 +174,11 @@ void json2FrElements (json val, std::vector<u64> & vval){
       }
     } else if (val.is_number()) {
         double vd = val.get<double>();
+        if (vd != std::floor(vd)) {
+            std::ostringstream errStrStream;
+            errStrStream << "Invalid number in JSON input: " << val << "\n";
+	      throw std::runtime_error(errStrStream.str() );
+        }
         std::stringstream stream;
         stream << std::fixed << std::setprecision(0) << vd;
         s = stream.str();
-- 
2.43.0


From 21f9ddfb0494b65a07b149a4f652add9ad6d0573 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:53:52 +0000
Subject: [PATCH 14/62] fix: heap overflow in the C++ witness generator with
 buses of more than 10 fields

---
 code_producers/src/c_elements/common/main.cpp   | 4 ++--
 code_producers/src/c_elements/common64/main.cpp | 4 ++--
 2 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/code_producers/src/c_elements/common/main.cpp b/code_producers/src/c_elements/common/main.cpp
index ad9ef6a..0069de3 100644
--- a/code_producers/src/c_elements/common/main.cpp
+++ b/code_producers/src/c_elements/common/main.cpp
@@ -56,7 +56,7 @@ Circom_Circuit* loadCircuit(std::string const &datFileName) {
     }
 
     std::map<u32,IOFieldDefPair> templateInsId2IOSignalInfo1;
-    IOFieldDefPair* busInsId2FieldInfo1;
+    IOFieldDefPair* busInsId2FieldInfo1 = NULL;
     if (get_size_of_io_map()>0) {
       u32 index[get_size_of_io_map()];
       inisize += dsize;
@@ -109,7 +109,7 @@ Circom_Circuit* loadCircuit(std::string const &datFileName) {
 	  defs[j].busId=*(pu32+1);	  
 	  pu32 += 2;
 	}
-	p.defs = (IOFieldDef*)calloc(10, sizeof(IOFieldDef));
+	p.defs = (IOFieldDef*)calloc(p.len, sizeof(IOFieldDef));
 	for (u32 j = 0; j < p.len; j++){
 	  p.defs[j] = defs[j];
 	}
diff --git a/code_producers/src/c_elements/common64/main.cpp b/code_producers/src/c_elements/common64/main.cpp
index 77d4f55..fad1d6d 100644
--- a/code_producers/src/c_elements/common64/main.cpp
+++ b/code_producers/src/c_elements/common64/main.cpp
@@ -49,7 +49,7 @@ Circom_Circuit* loadCircuit(std::string const &datFileName) {
     memcpy((void *)(circuit->witness2SignalList), (void *)(bdata+inisize), dsize);
     
     std::map<u32,IOFieldDefPair> templateInsId2IOSignalInfo1;
-    IOFieldDefPair* busInsId2FieldInfo1;
+    IOFieldDefPair* busInsId2FieldInfo1 = NULL;
     if (get_size_of_io_map()>0) {
       u32 index[get_size_of_io_map()];
       inisize += dsize;
@@ -102,7 +102,7 @@ Circom_Circuit* loadCircuit(std::string const &datFileName) {
 	  defs[j].busId=*(pu32+1);	  
 	  pu32 += 2;
 	}
-	p.defs = (IOFieldDef*)calloc(10, sizeof(IOFieldDef));
+	p.defs = (IOFieldDef*)calloc(p.len, sizeof(IOFieldDef));
 	for (u32 j = 0; j < p.len; j++){
 	  p.defs[j] = defs[j];
 	}
-- 
2.43.0


From 3e9ea2409f2e8a8ed63d0e383c105f4682a706c8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:58:20 +0000
Subject: [PATCH 15/62] fix: components without inputs were not run in WASM
 when their array has undefined positions

---
 .../create_component_bucket.rs                | 30 +++++++++++++++++--
 1 file changed, 28 insertions(+), 2 deletions(-)

diff --git a/compiler/src/intermediate_representation/create_component_bucket.rs b/compiler/src/intermediate_representation/create_component_bucket.rs
index 681b084..e79b15e 100644
--- a/compiler/src/intermediate_representation/create_component_bucket.rs
+++ b/compiler/src/intermediate_representation/create_component_bucket.rs
@@ -64,6 +64,32 @@ impl ToString for CreateCmpBucket {
     }
 }
 
+impl CreateCmpBucket {
+    // stores the offset given by create in the subcomponent address and, if it has no inputs, runs the subcomponent
+    fn store_and_run_wasm(&self, producer: &WASMProducer) -> Vec<String> {
+        use code_producers::wasm_elements::wasm_code_generator::*;
+        let mut instructions = vec![];
+        if self.has_inputs {
+            instructions.push(store32(None));
+        } else {
+            instructions.push(tee_local(producer.get_temp_tag()));
+            instructions.push(store32(None));
+            instructions.push(get_local(producer.get_temp_tag()));
+            instructions.push(call(&format!("${}_run", self.symbol)));
+            instructions.push(tee_local(producer.get_merror_tag()));
+            instructions.push(add_if());
+            instructions.push(set_constant(&self.message_id.to_string()));
+            instructions.push(set_constant(&self.line.to_string()));
+            instructions.push(call("$buildBufferMessage"));
+            instructions.push(call("$printErrorMessage"));
+            instructions.push(get_local(producer.get_merror_tag()));
+            instructions.push(add_return());
+            instructions.push(add_end());
+        }
+        instructions
+    }
+}
+
 impl WriteWasm for CreateCmpBucket {
     fn produce_wasm(&self, producer: &WASMProducer) -> Vec<String> {
         use code_producers::wasm_elements::wasm_code_generator::*;
@@ -171,7 +197,7 @@ impl WriteWasm for CreateCmpBucket {
                 instructions.push(get_local(producer.get_create_loop_offset_tag()));
                 //sub_component signal address start
                 instructions.push(call(&format!("${}_create", self.symbol)));
-                instructions.push(store32(None)); //store the offset given by create in the subcomponent address
+                instructions.append(&mut self.store_and_run_wasm(producer));
                 //producer.get_create_loop_sub_cmp_tag() contains the position of last created subcomponent
                 //producer.get_create_loop_offset_tag() contains the offset of last created subcomponent
                 for i in 1..self.defined_positions.len() {
@@ -190,7 +216,7 @@ impl WriteWasm for CreateCmpBucket {
                     instructions.push(get_local(producer.get_create_loop_offset_tag()));
                     //sub_component signal address start
                     instructions.push(call(&format!("${}_create", self.symbol)));
-                    instructions.push(store32(None)); //store the offset given by create in the subcomponent addre
+                    instructions.append(&mut self.store_and_run_wasm(producer));
                 }
             }
         }
-- 
2.43.0


From 4466588a818e578eb4356e229dd0a66e2fe5ae19 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:01:56 +0000
Subject: [PATCH 16/62] fix: C++ code of parallel templates without inputs, or
 used as main, did not compile

---
 compiler/src/circuit_design/build.rs    |  1 +
 compiler/src/circuit_design/template.rs | 10 +++++++++-
 2 files changed, 10 insertions(+), 1 deletion(-)

diff --git a/compiler/src/circuit_design/build.rs b/compiler/src/circuit_design/build.rs
index 4d41226..528da20 100644
--- a/compiler/src/circuit_design/build.rs
+++ b/compiler/src/circuit_design/build.rs
@@ -263,6 +263,7 @@ fn initialize_c_producer(vcp: &VCP, database: &TemplateDB, no_asm_flag: bool, sa
     let mut producer = CProducer::default();
     let stats = vcp.get_stats();
     producer.main_header = vcp.get_main_instance().unwrap().template_header.clone();
+    producer.main_is_parallel = vcp.get_main_instance().unwrap().is_parallel;
     producer.main_signal_offset = 1;
     producer.prime = prime.to_str_radix(10);
     producer.prime_str = vcp.prime.clone();
diff --git a/compiler/src/circuit_design/template.rs b/compiler/src/circuit_design/template.rs
index 84af21e..f919fee 100644
--- a/compiler/src/circuit_design/template.rs
+++ b/compiler/src/circuit_design/template.rs
@@ -305,7 +305,15 @@ impl TemplateCodeInfo {
 	}
 	// if has no inputs should be runned
 	if self.number_of_inputs == 0 {
-	    let cmp_call_name = format!("{}_run", self.header);
+	    let cmp_call_name = if parallel {
+	        // the run function of a parallel component discounts one thread when it ends
+	        create_body.push(format!("{}->numThreadMutex.lock();", CIRCOM_CALC_WIT));
+	        create_body.push(format!("{}->numThread++;", CIRCOM_CALC_WIT));
+	        create_body.push(format!("{}->numThreadMutex.unlock();", CIRCOM_CALC_WIT));
+	        format!("{}_run_parallel", self.header)
+	    } else {
+	        format!("{}_run", self.header)
+	    };
 	    let cmp_call_arguments = vec![component_offset(), CIRCOM_CALC_WIT.to_string()]; 
 	    create_body.push(format!("{};",build_call(cmp_call_name, cmp_call_arguments)));
         }
-- 
2.43.0


From 19beb3c04540958bb974e8ac9cd4087a7aac9341 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:06:26 +0000
Subject: [PATCH 17/62] fix: the C++ reader of a parallel output kept its mutex
 while waiting for a thread slot (deadlock)

---
 compiler/src/intermediate_representation/load_bucket.rs | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/compiler/src/intermediate_representation/load_bucket.rs b/compiler/src/intermediate_representation/load_bucket.rs
index e1c1acc..11dcd7e 100644
--- a/compiler/src/intermediate_representation/load_bucket.rs
+++ b/compiler/src/intermediate_representation/load_bucket.rs
@@ -378,6 +378,8 @@ impl WriteC for LoadBucket {
 			            CIRCOM_CALC_WIT, MY_SUBCOMPONENTS, CIRCOM_CALC_WIT,
 			            MY_SUBCOMPONENTS, CIRCOM_CALC_WIT, MY_SUBCOMPONENTS)
                     );
+                    // the component may need this mutex to end: do not keep it while waiting for a thread slot
+                    prologue.push(format!("lk.unlock();"));
                     prologue.push(format!("std::unique_lock<std::mutex> lkt({}->numThreadMutex);",CIRCOM_CALC_WIT));
                     prologue.push(format!("{}->ntcvs.wait(lkt, [{}]() {{return {}->numThread <  {}->maxThread; }});",CIRCOM_CALC_WIT,CIRCOM_CALC_WIT,CIRCOM_CALC_WIT,CIRCOM_CALC_WIT));
                     prologue.push(format!("ctx->numThread++;"));
@@ -425,6 +427,7 @@ impl WriteC for LoadBucket {
 			            CIRCOM_CALC_WIT, MY_SUBCOMPONENTS, CIRCOM_CALC_WIT,
 			            MY_SUBCOMPONENTS, CIRCOM_CALC_WIT, MY_SUBCOMPONENTS)
                     );
+                prologue.push(format!("lk.unlock();"));
                 prologue.push(format!("std::unique_lock<std::mutex> lkt({}->numThreadMutex);",CIRCOM_CALC_WIT));
                 prologue.push(format!("{}->ntcvs.wait(lkt, [{}]() {{return {}->numThread <  {}->maxThread; }});",CIRCOM_CALC_WIT,CIRCOM_CALC_WIT,CIRCOM_CALC_WIT,CIRCOM_CALC_WIT));
                 prologue.push(format!("ctx->numThread++;"));
-- 
2.43.0


From 1d318753cf96952df7dde8fd589d8e5563d21b6e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:17:57 +0000
Subject: [PATCH 18/62] fix: the code emitted for arrays of different
 components depended on hash seeds

---
 compiler/src/intermediate_representation/translate.rs | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/compiler/src/intermediate_representation/translate.rs b/compiler/src/intermediate_representation/translate.rs
index 04e13d4..6858bad 100644
--- a/compiler/src/intermediate_representation/translate.rs
+++ b/compiler/src/intermediate_representation/translate.rs
@@ -7,7 +7,7 @@ use num_bigint_dig::BigInt;
 use program_structure::ast::*;
 use program_structure::file_definition::FileLibrary;
 use program_structure::utils::environment::VarEnvironment;
-use std::collections::{HashMap, BTreeMap, HashSet};
+use std::collections::{HashMap, BTreeMap, BTreeSet, HashSet};
 use std::mem;
 
 type Length = usize;
@@ -131,7 +131,7 @@ struct State {
     field_tracker: FieldTracker,
     environment: E,
     component_to_parallel:  HashMap<String, ParallelClusters>,
-    component_to_instance: HashMap<String, HashSet<usize>>,
+    component_to_instance: HashMap<String, BTreeSet<usize>>,
     signal_to_type: HashMap<String, SignalType>,
     signal_to_tags: HashMap<Vec<String>, BigInt>,
     message_id: usize,
@@ -370,7 +370,7 @@ fn create_components(state: &mut State, triggers: &[Trigger], clusters: Vec<Trig
                 info.insert(trigger.template_id);
             }
             None =>{
-                let mut new_info = HashSet::new();
+                let mut new_info = BTreeSet::new();
                 new_info.insert(trigger.template_id);
                 state.component_to_instance.insert(trigger.component_name.clone(), new_info);
             }
-- 
2.43.0


From f84cb77a1c25cb8eeb76cc0a3867123d7b9cae05 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:17:59 +0000
Subject: [PATCH 19/62] fix: comment marks inside string literals were taken as
 comments

---
 parser/src/parser_logic.rs | 14 ++++++++++++++
 1 file changed, 14 insertions(+)

diff --git a/parser/src/parser_logic.rs b/parser/src/parser_logic.rs
index 9851362..518eb97 100644
--- a/parser/src/parser_logic.rs
+++ b/parser/src/parser_logic.rs
@@ -16,6 +16,17 @@ pub fn preprocess(expr: &str, file_id: FileID) -> Result<String, ReportCollectio
     while let Some(c0) = it.next() {
         loc += 1;
         match (state, c0) {
+            // strings end in their line (an unclosed one is an error of the lexer)
+            (0, '"') => {
+                pp.push(c0);
+                state = 3;
+            }
+            (3, _) => {
+                pp.push(c0);
+                if c0 == '"' || c0 == '\n' {
+                    state = 0;
+                }
+            }
             (0, '/') => {
                 loc += 1;
                 match it.next() {
@@ -33,6 +44,9 @@ pub fn preprocess(expr: &str, file_id: FileID) -> Result<String, ReportCollectio
                     Some(c1) => {
                         pp.push(c0);
                         pp.push(c1);
+                        if c1 == '"' {
+                            state = 3;
+                        }
                     }
                     None => {
                         pp.push(c0);
-- 
2.43.0


From 58d942b5bbee8d5992ac1ef2fe4808ec2f0f587d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:19:29 +0000
Subject: [PATCH 20/62] fix: strings of log with % were taken as printf formats
 by the C++ witness generator

---
 compiler/src/intermediate_representation/log_bucket.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/compiler/src/intermediate_representation/log_bucket.rs b/compiler/src/intermediate_representation/log_bucket.rs
index 3004414..7abbdd5 100644
--- a/compiler/src/intermediate_representation/log_bucket.rs
+++ b/compiler/src/intermediate_representation/log_bucket.rs
@@ -129,7 +129,7 @@ impl WriteC for LogBucket {
                 let print_c =
                     build_call(
                         "printf".to_string(), 
-                        vec![format!("\"{}\"", string_value)]
+                        vec!["\"%s\"".to_string(), format!("\"{}\"", string_value)]
                     );
                 log_c.push("{".to_string());
                 log_c.push(format!("{};", print_c));
-- 
2.43.0


From 65f3c6aaf5e7b1f866508b7e44b101264f5b7e13 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:23:38 +0000
Subject: [PATCH 21/62] fix: logs of functions called by folded functions were
 not printed

---
 constraint_generation/src/execute.rs | 38 +++++++++++++++++++++-------
 1 file changed, 29 insertions(+), 9 deletions(-)

diff --git a/constraint_generation/src/execute.rs b/constraint_generation/src/execute.rs
index 61027d0..f18d240 100644
--- a/constraint_generation/src/execute.rs
+++ b/constraint_generation/src/execute.rs
@@ -45,7 +45,7 @@ enum BlockType {
 struct RuntimeInformation {
     pub block_type: BlockType,
     pub called_in_unknown: bool, // executing a function called from an unknown block
-    pub delayed_asserts: usize, // asserts found so far that are left to the witness generation
+    pub delayed_effects: usize, // asserts and logs found so far that are left to the witness generation
     pub conditions_state: Vec<(usize, bool)>,
     pub unknown_counter: usize,
     pub analysis: Analysis,
@@ -64,7 +64,7 @@ impl RuntimeInformation {
             current_file,
             block_type: BlockType::Known,
             called_in_unknown: false,
-            delayed_asserts: 0,
+            delayed_effects: 0,
             analysis: Analysis::new(id_max),
             public_inputs: vec![],
             constants: UsefulConstants::new(prime),
@@ -284,7 +284,7 @@ fn execute_statement(
                     let mut arithmetic_values = Vec::new();
                     for dimension in dimensions.iter() {
                         let f_dimensions = 
-                            execute_expression(dimension, program_archive, runtime, flags)?;
+                            execute_size_expression(dimension, program_archive, runtime, flags)?;
                         arithmetic_values
                             .push(safe_unwrap_to_single_arithmetic_expression(f_dimensions, line!()));
                     }
@@ -734,6 +734,7 @@ fn execute_statement(
         }
         LogCall { args, .. } => {
             can_be_simplified = false;
+            runtime.delayed_effects += 1;
             if flags.verbose{
                 let mut index = 0;
                 for arglog in args {
@@ -777,7 +778,7 @@ fn execute_statement(
                 }
                 _ => {
                     can_be_simplified = false;
-                    runtime.delayed_asserts += 1;
+                    runtime.delayed_effects += 1;
                     Ok(None)
                 }
             };
@@ -891,7 +892,7 @@ fn execute_bus_statement(
             let mut arithmetic_values = Vec::new();
             for dimension in dimensions.iter() {
                 let f_dimensions = 
-                    execute_expression(dimension, program_archive, runtime, flags)?;
+                    execute_size_expression(dimension, program_archive, runtime, flags)?;
                     arithmetic_values
                     .push(safe_unwrap_to_single_arithmetic_expression(f_dimensions, line!()));
             }
@@ -966,7 +967,7 @@ fn execute_expression(
 ) -> Result<FoldedValue, ()> {
     use Expression::*;
     let mut can_be_simplified = true;
-    let previous_delayed_asserts = runtime.delayed_asserts;
+    let previous_delayed_effects = runtime.delayed_effects;
     let res = match expr {
         Number(_, value) => {
             let a_value = AExpr::Number { value: value.clone() };
@@ -1172,7 +1173,7 @@ fn execute_expression(
             
         }
         UniformArray { meta, value, dimension, .. } => {
-            let f_dimension = execute_expression(dimension, program_archive, runtime, flags)?;
+            let f_dimension = execute_size_expression(dimension, program_archive, runtime, flags)?;
             let arithmetic_dimension = safe_unwrap_to_single_arithmetic_expression(f_dimension, line!());
             let usable_dimension = if let Option::Some(dimension) = cast_index(&arithmetic_dimension) {
                 dimension
@@ -1270,8 +1271,8 @@ fn execute_expression(
     let expr_id = expr.get_meta().elem_id;
     let res_p = res.arithmetic_slice.clone();
     if let Some(slice) = res_p {
-        // an expression that executes asserts in the witness generation has to stay there
-        if slice.is_single() && can_be_simplified && runtime.delayed_asserts == previous_delayed_asserts {
+        // an expression that executes asserts or logs in the witness generation has to stay there
+        if slice.is_single() && can_be_simplified && runtime.delayed_effects == previous_delayed_effects {
             let value = AExpressionSlice::unwrap_to_single(slice);
             Analysis::computed(&mut runtime.analysis, expr_id, value);
         }
@@ -1280,6 +1281,25 @@ fn execute_expression(
 }
 
 
+// The sizes of arrays are always values of the compilation, also when computing them executes logs
+fn execute_size_expression(
+    expr: &Expression,
+    program_archive: &ProgramArchive,
+    runtime: &mut RuntimeInformation,
+    flags: FlagsExecution,
+) -> Result<FoldedValue, ()> {
+    let previous_delayed_effects = runtime.delayed_effects;
+    let res = execute_expression(expr, program_archive, runtime, flags)?;
+    runtime.delayed_effects = previous_delayed_effects;
+    if let Some(slice) = &res.arithmetic_slice {
+        if slice.is_single() {
+            let value = AExpressionSlice::unwrap_to_single(slice.clone());
+            Analysis::computed(&mut runtime.analysis, expr.get_meta().elem_id, value);
+        }
+    }
+    Ok(res)
+}
+
 //************************************************* Statement execution support *************************************************
 
 fn execute_call(
-- 
2.43.0


From 52b9ec7484ca95a1cd976fc9fc6fe89021e05833 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:50:14 +0000
Subject: [PATCH 22/62] fix: assigning a bus with already assigned fields made
 the compiler panic

---
 constraint_generation/src/assignment_utils.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/constraint_generation/src/assignment_utils.rs b/constraint_generation/src/assignment_utils.rs
index b090e9b..df4397c 100644
--- a/constraint_generation/src/assignment_utils.rs
+++ b/constraint_generation/src/assignment_utils.rs
@@ -129,7 +129,8 @@ pub fn perform_tag_propagation(tags_values: &mut TagInfo, tags_definitions: &mut
 
 pub fn perform_tag_propagation_bus(tag_data: &mut BusTagInfo, assigned_tags: &TagWire, n_inserts: usize){
     perform_tag_propagation(&mut tag_data.tags, &mut tag_data.definitions, &assigned_tags.tags, tag_data.is_init);
-    tag_data.remaining_inserts -= n_inserts; 
+    // fields assigned twice are reported when inserting them in the bus
+    tag_data.remaining_inserts = tag_data.remaining_inserts.saturating_sub(n_inserts);
     tag_data.is_init = true;
 
     for (field_name, field_data) in &mut tag_data.fields{
-- 
2.43.0


From 07751031748e7393adb1cdb642f993244d3c58eb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:50:14 +0000
Subject: [PATCH 23/62] fix: signals, buses and components with the same name
 in different blocks of a template were merged

---
 constraint_generation/src/execute.rs          | 24 ++++++++++++++++++-
 .../src/execution_data/executed_template.rs   |  5 ++++
 2 files changed, 28 insertions(+), 1 deletion(-)

diff --git a/constraint_generation/src/execute.rs b/constraint_generation/src/execute.rs
index f18d240..4fa751c 100644
--- a/constraint_generation/src/execute.rs
+++ b/constraint_generation/src/execute.rs
@@ -156,7 +156,8 @@ enum ExecutionError {
     UnknownTemplate,
     NonValidTagAssignment,
     FalseAssert,
-    ArraySizeTooBig
+    ArraySizeTooBig,
+    RepeatedDeclaration
 }
 
 enum ExecutionWarning {
@@ -306,6 +307,15 @@ fn execute_statement(
                                 &runtime.call_trace,
                             )?
                         };
+                    if *xtype != VariableType::Var && is_declared_in_node(name, actual_node) {
+                        let err = Result::Err(ExecutionError::RepeatedDeclaration);
+                        treat_result_with_execution_error(
+                            err,
+                            meta,
+                            &mut runtime.runtime_errors,
+                            &runtime.call_trace,
+                        )?;
+                    }
                     match xtype {
                         VariableType::Component => {
                             if runtime.block_type == BlockType::Unknown{
@@ -1389,6 +1399,14 @@ fn execute_template_call_complete(
     }
 }
 
+// Signals, buses and components are identified by their name in the whole template
+fn is_declared_in_node(name: &str, actual_node: &Option<ExecutedTemplate>) -> bool {
+    match actual_node {
+        Option::Some(node) => node.is_declared(name),
+        Option::None => false,
+    }
+}
+
 fn execute_component_declaration(
     component_name: &str,
     dimensions: &[SliceCapacity],
@@ -4332,6 +4350,10 @@ fn treat_result_with_execution_error<C>(
                 FalseAssert => {
                     Report::error("False assert reached".to_string(), ReportCode::RuntimeError)
                 }
+                RepeatedDeclaration => Report::error(
+                    "There is already a signal, bus or component with this name in the template: the names of its signals, buses and components cannot be repeated, not even in different blocks".to_string(),
+                    ReportCode::RuntimeError,
+                ),
                 ArraySizeTooBig => Report::error(
                     "The size of the array is expected to be a usize".to_string(),
                     ReportCode::RuntimeError,
diff --git a/constraint_generation/src/execution_data/executed_template.rs b/constraint_generation/src/execution_data/executed_template.rs
index ed95f02..63a9285 100644
--- a/constraint_generation/src/execution_data/executed_template.rs
+++ b/constraint_generation/src/execution_data/executed_template.rs
@@ -211,6 +211,11 @@ impl ExecutedTemplate {
         self.number_of_components += dimensions.iter().fold(1, |p, c| p * (*c));
     }
 
+    pub fn is_declared(&self, name: &str) -> bool {
+        self.ordered_signals.iter().any(|wire| wire.name == name)
+            || self.components.iter().any(|component| component.name == name)
+    }
+
     pub fn add_constraint(&mut self, constraint: Constraint) {
         self.constraints.push(constraint);
     }
-- 
2.43.0


From a0dc97a309be8aab5360b265bbcf007425ec58af Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:57:40 +0000
Subject: [PATCH 24/62] fix: buses assigned with <-- inherited the tags of the
 assigned value, unlike signals

---
 constraint_generation/src/execute.rs | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/constraint_generation/src/execute.rs b/constraint_generation/src/execute.rs
index 4fa751c..1d82cac 100644
--- a/constraint_generation/src/execute.rs
+++ b/constraint_generation/src/execute.rs
@@ -2476,7 +2476,11 @@ fn perform_assign(
 
                 // Perform the tag propagation
                 // access to the field that is assigned and then propagate the tags
-                let new_tags = r_folded.tags.unwrap();
+                let new_tags = if r_folded.tags.is_some() && op == AssignOp::AssignConstraintSignal {
+                    r_folded.tags.unwrap()
+                } else {
+                    TagWire::default()
+                };
                 
                 let mut to_access = accessing_information;
                 let mut tag_data = tags_info;
@@ -2576,7 +2580,11 @@ fn perform_assign(
                 
                 // Perform the tag propagation
                 // access to the field that is assigned and then propagate the tags
-                let new_tags = r_folded.tags.unwrap();
+                let new_tags = if r_folded.tags.is_some() && op == AssignOp::AssignConstraintSignal {
+                    r_folded.tags.unwrap()
+                } else {
+                    TagWire::default()
+                };
                 
                 let mut to_access = accessing_information;
                 let mut tag_data = tags_info;
-- 
2.43.0


From 9c9d14eb0073100477e3e1282873e6d6b63f1745 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:35:40 +0000
Subject: [PATCH 25/62] fix: wasm copied the size of the source, not the
 minimum, when it depends on the instance of a component

---
 compiler/src/intermediate_representation/store_bucket.rs | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/compiler/src/intermediate_representation/store_bucket.rs b/compiler/src/intermediate_representation/store_bucket.rs
index 148d793..9795e30 100644
--- a/compiler/src/intermediate_representation/store_bucket.rs
+++ b/compiler/src/intermediate_representation/store_bucket.rs
@@ -314,8 +314,9 @@ impl WriteWasm for StoreBucket {
 		} else { 
 		    instructions.push(set_constant(&size_src.to_string()));
 		}
-		instructions.push(tee_local(producer.get_aux_0_tag()));
-		instructions.push(tee_local(producer.get_aux_1_tag()));
+		instructions.push(set_local(producer.get_aux_1_tag())); // size of the source
+		instructions.push(tee_local(producer.get_aux_0_tag())); // size of the destination
+		instructions.push(get_local(producer.get_aux_1_tag()));
 		instructions.push(lt32_u());
 		instructions.push(format!("{} (result i32)", add_if()));
 		instructions.push(get_local(producer.get_aux_0_tag()));
-- 
2.43.0


From d78a231bdedfd024c8c11c8da9fa31c4a24ec380 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:35:40 +0000
Subject: [PATCH 26/62] fix: wasm functions returning an array copied to a
 longer one wrote the memory that follows the value

---
 .../src/intermediate_representation/return_bucket.rs   | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/compiler/src/intermediate_representation/return_bucket.rs b/compiler/src/intermediate_representation/return_bucket.rs
index 14759c2..c846c9a 100644
--- a/compiler/src/intermediate_representation/return_bucket.rs
+++ b/compiler/src/intermediate_representation/return_bucket.rs
@@ -57,6 +57,16 @@ impl WriteWasm for ReturnBucket {
             let mut instructions_value = self.value.produce_wasm(producer);
             instructions.append(&mut instructions_value); // value evaluation address
             instructions.push(set_local(producer.get_store_aux_2_tag())); // value evaluation temp address
+            // we copy the minimum of the sizes of the value and of the destination
+            instructions.push(get_local(producer.get_result_size_tag()));
+            instructions.push(set_constant(&self.with_size.to_string()));
+            instructions.push(lt32_u());
+            instructions.push(format!("{} (result i32)", add_if()));
+            instructions.push(get_local(producer.get_result_size_tag()));
+            instructions.push(add_else());
+            instructions.push(set_constant(&self.with_size.to_string()));
+            instructions.push(add_end());
+            instructions.push(set_local(producer.get_result_size_tag()));
             instructions.push(add_block());
             instructions.push(add_loop());
             instructions.push(get_local(producer.get_result_size_tag()));
-- 
2.43.0


From 5d41084d083f22139f4fb98c2353c6b5c9ad47c7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:48:29 +0000
Subject: [PATCH 27/62] fix: witness generators assigning arrays of other
 dimensions wrote out of the variable or in the wrong positions

---
 .../intermediate_representation/translate.rs  | 146 +++++++++++++++++-
 1 file changed, 143 insertions(+), 3 deletions(-)

diff --git a/compiler/src/intermediate_representation/translate.rs b/compiler/src/intermediate_representation/translate.rs
index 6858bad..231241c 100644
--- a/compiler/src/intermediate_representation/translate.rs
+++ b/compiler/src/intermediate_representation/translate.rs
@@ -197,7 +197,7 @@ struct Context<'a> {
     _translating: String,
     files: &'a FileLibrary,
     tmp_database: &'a TemplateDB,
-    _functions: &'a HashMap<String, Vec<Length>>,
+    functions: &'a HashMap<String, Vec<Length>>,
     cmp_to_type: HashMap<String, ClusterType>,
     buses: &'a Vec<BusInstance>
 }
@@ -581,8 +581,26 @@ fn translate_while(stmt: Statement, state: &mut State, context: &Context) {
 
 fn translate_substitution(stmt: Statement, state: &mut State, context: &Context) {
     use Statement::Substitution;
-    if let Substitution { meta, var, access, rhe, .. } = stmt {
+    if let Substitution { meta, var, access, op, rhe } = stmt {
         debug_assert!(!meta.get_type_knowledge().is_component());
+        if meta.get_type_knowledge().is_var() && is_out_of_range(&var, &access, state) {
+            // elements of an array that is longer than the assigned one
+            return;
+        }
+        if let Option::Some(rows) = rows_to_assign(&meta, &var, &access, &rhe, state, context) {
+            let rhe = store_call_result(rhe, state, context);
+            for row in 0..rows {
+                let sub = Substitution {
+                    meta: meta.clone(),
+                    var: var.clone(),
+                    access: access_row(&meta, &access, row),
+                    op,
+                    rhe: expression_row(&rhe, row),
+                };
+                translate_substitution(sub, state, context);
+            }
+            return;
+        }
         let def = SymbolDef { meta: meta.clone(), symbol: var, acc: access };
         let str_info =
             StoreInfo { prc_symbol: ProcessedSymbol::new(def, state, context), src: rhe };
@@ -597,6 +615,128 @@ fn translate_substitution(stmt: Statement, state: &mut State, context: &Context)
     }
 }
 
+// Arrays of variables can be assigned with arrays of other dimensions: only the positions that
+// exist in both of them are copied
+
+fn is_out_of_range(var: &str, access: &[Access], state: &State) -> bool {
+    let dimensions = &state.environment.get_variable(var).unwrap().dimensions;
+    access.iter().zip(dimensions).any(|(acc, dimension)| match acc {
+        Access::ArrayAccess(Expression::Number(_, index)) => *index >= BigInt::from(*dimension),
+        _ => false,
+    })
+}
+
+// The positions of both arrays are consecutive in memory only if the inner dimensions are equal,
+// otherwise it returns how many rows have to be assigned separately
+fn rows_to_assign(
+    meta: &Meta,
+    var: &str,
+    access: &[Access],
+    rhe: &Expression,
+    state: &State,
+    context: &Context,
+) -> Option<usize> {
+    if !meta.get_type_knowledge().is_var() {
+        return Option::None;
+    }
+    let dimensions = &state.environment.get_variable(var).unwrap().dimensions;
+    let dest = dimensions.get(access.len()..)?;
+    let src = array_dimensions(rhe, state, context)?;
+    if dest.len() == src.len() && dest.len() > 1 && dest[1..] != src[1..] {
+        Option::Some(std::cmp::min(dest[0], src[0]))
+    } else {
+        Option::None
+    }
+}
+
+fn array_dimensions(expr: &Expression, state: &State, context: &Context) -> Option<Vec<Length>> {
+    match expr {
+        Expression::Call { id, .. } => context.functions.get(id).cloned(),
+        Expression::Variable { name, access, .. } => {
+            let symbol = state.environment.get_variable(name)?;
+            let mut dimensions = symbol.dimensions.clone();
+            let mut bus_id = symbol.bus_id;
+            for acc in access {
+                match acc {
+                    Access::ArrayAccess(_) if dimensions.is_empty() => return Option::None,
+                    Access::ArrayAccess(_) => {
+                        dimensions.remove(0);
+                    }
+                    Access::ComponentAccess(field) => {
+                        let (field_dimensions, field_bus) = if let Option::Some(id) = bus_id {
+                            let info = context.buses[id].fields.get(field)?;
+                            (info.dimensions.clone(), info.bus_id)
+                        } else {
+                            let mut instances = state.component_to_instance.get(name)?.iter();
+                            let wires = &context.tmp_database.wire_info;
+                            let info = wires[*instances.next()?].get(field)?;
+                            // the dimensions can depend on the instance
+                            if instances.any(|id| wires[*id][field].lengths != info.lengths) {
+                                return Option::None;
+                            }
+                            (info.lengths.clone(), info.bus_id)
+                        };
+                        dimensions = field_dimensions;
+                        bus_id = field_bus;
+                    }
+                }
+            }
+            Option::Some(dimensions)
+        }
+        _ => Option::None,
+    }
+}
+
+// If the expression is a call its result is stored in a fresh variable
+fn store_call_result(expr: Expression, state: &mut State, context: &Context) -> Expression {
+    if !expr.is_call() {
+        return expr;
+    }
+    let mut meta = expr.get_meta().clone();
+    meta.get_mut_type_knowledge().set_reduces_to(TypeReduction::Variable);
+    let dimensions = array_dimensions(&expr, state, context).unwrap();
+    meta.get_mut_memory_knowledge().set_concrete_dimensions(dimensions);
+    let name = "result_auto".to_string();
+    let declaration = Statement::Declaration {
+        meta: meta.clone(),
+        xtype: VariableType::Var,
+        name: name.clone(),
+        dimensions: vec![],
+        is_constant: false,
+        is_anonymous: false,
+    };
+    let initialization = Statement::Substitution {
+        meta: meta.clone(),
+        var: name.clone(),
+        access: vec![],
+        op: AssignOp::AssignVar,
+        rhe: expr,
+    };
+    translate_declaration(declaration, state, context);
+    translate_substitution(initialization, state, context);
+    Expression::Variable { meta, name, access: vec![] }
+}
+
+fn access_row(meta: &Meta, access: &[Access], row: usize) -> Vec<Access> {
+    let mut index_meta = meta.clone();
+    index_meta.get_mut_memory_knowledge().set_concrete_dimensions(vec![]);
+    let mut row_access = access.to_vec();
+    row_access.push(Access::ArrayAccess(Expression::Number(index_meta, BigInt::from(row))));
+    row_access
+}
+
+fn expression_row(expr: &Expression, row: usize) -> Expression {
+    if let Expression::Variable { meta, name, access } = expr {
+        Expression::Variable {
+            meta: meta.clone(),
+            name: name.clone(),
+            access: access_row(meta, access, row),
+        }
+    } else {
+        unreachable!()
+    }
+}
+
 // Start of substitution utils
 struct StoreInfo {
     prc_symbol: ProcessedSymbol,
@@ -1951,7 +2091,7 @@ pub fn translate_code(body: Statement, code_info: CodeInfo) -> CodeOutput {
     let context = Context {
         files: code_info.files,
         _translating: code_info.header,
-        _functions: code_info.functions,
+        functions: code_info.functions,
         cmp_to_type: code_info.cmp_to_type,
         tmp_database: code_info.template_database,
         buses: code_info.buses
-- 
2.43.0


From 66949e24b52ebe6ddc1c835370621262ff6f789c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:57:29 +0000
Subject: [PATCH 28/62] fix: a cycle of includes through the main file read it
 twice (reported as two main components)

---
 parser/src/include_logic.rs | 11 ++++++++---
 1 file changed, 8 insertions(+), 3 deletions(-)

diff --git a/parser/src/include_logic.rs b/parser/src/include_logic.rs
index 0b6b910..13480d5 100644
--- a/parser/src/include_logic.rs
+++ b/parser/src/include_logic.rs
@@ -51,10 +51,10 @@ impl FileStack {
                 None => {
                     break None;
                 }
-                Some(file) if !f_stack.black_paths.contains(&file) => {
+                Some(file) if !f_stack.black_paths.contains(&canonical_path(&file)) => {
                     f_stack.current_location = file.clone();
                     f_stack.current_location.pop();
-                    f_stack.black_paths.insert(file.clone());
+                    f_stack.black_paths.insert(canonical_path(&file));
                     break Some(file);
                 }
                 _ => {}
@@ -63,6 +63,11 @@ impl FileStack {
     }
 }
 
+// The main file is given as the user writes it, the included ones are always canonical
+fn canonical_path(path: &PathBuf) -> PathBuf {
+    std::fs::canonicalize(path).unwrap_or_else(|_| path.clone())
+}
+
 pub struct IncludesNode {
     pub path: PathBuf,
     pub custom_gates_pragma: bool,
@@ -81,7 +86,7 @@ impl IncludesGraph {
     }
 
     pub fn add_node(&mut self, path: PathBuf, custom_gates_pragma: bool, custom_gates_usage: bool) {
-        self.nodes.push(IncludesNode { path, custom_gates_pragma });
+        self.nodes.push(IncludesNode { path: canonical_path(&path), custom_gates_pragma });
         if custom_gates_usage {
             self.custom_gates_nodes.push(self.nodes.len() - 1);
         }
-- 
2.43.0


From 56a99cd3a08b163c0d91a76300a306ca53b39c67 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:35:20 +0000
Subject: [PATCH 29/62] fix: a run-time ternary as the argument of log or
 assert made the compiler panic

---
 compiler/src/hir/sugar_cleaner.rs | 14 +++++++++++++-
 1 file changed, 13 insertions(+), 1 deletion(-)

diff --git a/compiler/src/hir/sugar_cleaner.rs b/compiler/src/hir/sugar_cleaner.rs
index 53b88a2..86ef3a0 100644
--- a/compiler/src/hir/sugar_cleaner.rs
+++ b/compiler/src/hir/sugar_cleaner.rs
@@ -230,6 +230,7 @@ fn extend_log_call(stmt: &mut Statement, state: &mut State, context: &Context) -
             if let LogArgument::LogExp(arg) = arglog {
                 let mut exp = extend_expression(arg, state, context);
                 initializations.append(&mut exp.initializations);
+                extract_switch(arg, state, &mut initializations);
             }
         }
         initializations
@@ -241,12 +242,23 @@ fn extend_log_call(stmt: &mut Statement, state: &mut State, context: &Context) -
 fn extend_assert(stmt: &mut Statement, state: &mut State, context: &Context) -> Vec<Statement> {
     use Statement::Assert;
     if let Assert { arg, .. } = stmt {
-        extend_expression(arg, state, context).initializations
+        let mut initializations = extend_expression(arg, state, context).initializations;
+        extract_switch(arg, state, &mut initializations);
+        initializations
     } else {
         unreachable!()
     }
 }
 
+// A ternary that is the whole argument of a log or an assert
+fn extract_switch(expr: &mut Expression, state: &mut State, inits: &mut Vec<Statement>) {
+    if expr.is_switch() {
+        let mut work = vec![expr.clone()];
+        sugar_filter(&mut work, state, inits);
+        *expr = work.pop().unwrap();
+    }
+}
+
 fn extend_expression(
     expr: &mut Expression,
     state: &mut State,
-- 
2.43.0


From a63895f67b7a8d98b6ffdc82bf8605e4b9003b7d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:35:20 +0000
Subject: [PATCH 30/62] fix: expressions not always known kept in the witness
 generator the value computed when they were

---
 constraint_generation/src/execute.rs          | 41 +++++++++++++++++++
 .../src/execution_data/analysis.rs            | 15 ++++++-
 2 files changed, 55 insertions(+), 1 deletion(-)

diff --git a/constraint_generation/src/execute.rs b/constraint_generation/src/execute.rs
index 1d82cac..6351339 100644
--- a/constraint_generation/src/execute.rs
+++ b/constraint_generation/src/execute.rs
@@ -1256,6 +1256,9 @@ fn execute_expression(
                     execute_expression(if_false, program_archive, runtime, flags)?
                 }
             } else {
+                // the cases are not executed: what they computed when the condition was known may not hold now
+                mark_not_computed(if_true, &mut runtime.analysis);
+                mark_not_computed(if_false, &mut runtime.analysis);
                 let arithmetic_slice = Option::Some(AExpressionSlice::new(&AExpr::NonQuadratic));
                 FoldedValue { arithmetic_slice, ..FoldedValue::default() }
             }
@@ -1285,11 +1288,47 @@ fn execute_expression(
         if slice.is_single() && can_be_simplified && runtime.delayed_effects == previous_delayed_effects {
             let value = AExpressionSlice::unwrap_to_single(slice);
             Analysis::computed(&mut runtime.analysis, expr_id, value);
+        } else {
+            Analysis::not_computed(&mut runtime.analysis, expr_id);
         }
     }
     Result::Ok(res)
 }
 
+fn mark_not_computed(expr: &Expression, analysis: &mut Analysis) {
+    use Expression::*;
+    Analysis::not_computed(analysis, expr.get_meta().elem_id);
+    match expr {
+        InfixOp { lhe, rhe, .. } => {
+            mark_not_computed(lhe, analysis);
+            mark_not_computed(rhe, analysis);
+        }
+        PrefixOp { rhe, .. } | ParallelOp { rhe, .. } => mark_not_computed(rhe, analysis),
+        InlineSwitchOp { cond, if_true, if_false, .. } => {
+            mark_not_computed(cond, analysis);
+            mark_not_computed(if_true, analysis);
+            mark_not_computed(if_false, analysis);
+        }
+        Variable { access, .. } => {
+            for acc in access {
+                if let Access::ArrayAccess(index) = acc {
+                    mark_not_computed(index, analysis);
+                }
+            }
+        }
+        Call { args: values, .. } | BusCall { args: values, .. } | ArrayInLine { values, .. } => {
+            for value in values {
+                mark_not_computed(value, analysis);
+            }
+        }
+        UniformArray { value, dimension, .. } => {
+            mark_not_computed(value, analysis);
+            mark_not_computed(dimension, analysis);
+        }
+        _ => {}
+    }
+}
+
 
 // The sizes of arrays are always values of the compilation, also when computing them executes logs
 fn execute_size_expression(
@@ -1299,10 +1338,12 @@ fn execute_size_expression(
     flags: FlagsExecution,
 ) -> Result<FoldedValue, ()> {
     let previous_delayed_effects = runtime.delayed_effects;
+    let previous_analysis = Analysis::computed_value(&runtime.analysis, expr.get_meta().elem_id);
     let res = execute_expression(expr, program_archive, runtime, flags)?;
     runtime.delayed_effects = previous_delayed_effects;
     if let Some(slice) = &res.arithmetic_slice {
         if slice.is_single() {
+            Analysis::set_computed_value(&mut runtime.analysis, expr.get_meta().elem_id, previous_analysis);
             let value = AExpressionSlice::unwrap_to_single(slice.clone());
             Analysis::computed(&mut runtime.analysis, expr.get_meta().elem_id, value);
         }
diff --git a/constraint_generation/src/execution_data/analysis.rs b/constraint_generation/src/execution_data/analysis.rs
index 23b62ef..577321a 100644
--- a/constraint_generation/src/execution_data/analysis.rs
+++ b/constraint_generation/src/execution_data/analysis.rs
@@ -29,6 +29,19 @@ impl Analysis {
         }
     }
 
+    // the expression does not always have the same known value
+    pub fn not_computed(analysis: &mut Analysis, id: usize) {
+        analysis.computed_values[id] = ValuePOS::Top;
+    }
+
+    pub fn computed_value(analysis: &Analysis, id: usize) -> ValuePOS {
+        analysis.computed_values[id].clone()
+    }
+
+    pub fn set_computed_value(analysis: &mut Analysis, id: usize, value: ValuePOS) {
+        analysis.computed_values[id] = value;
+    }
+
     pub fn read_computed(analysis: &Analysis, id: usize) -> Option<BigInt> {
         match &analysis.computed_values[id] {
             ValuePOS::Val(v) => Some(v.clone()),
@@ -38,7 +51,7 @@ impl Analysis {
 }
 
 #[derive(Clone)]
-enum ValuePOS {
+pub enum ValuePOS {
     Bottom,
     Val(BigInt),
     Top,
-- 
2.43.0


From fb7684c91b7a174b27dcf559e967a523d2728822 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:35:20 +0000
Subject: [PATCH 31/62] fix: accessing a component with more indexes than its
 dimensions made the compiler panic

---
 type_analysis/src/analyzers/type_check.rs | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/type_analysis/src/analyzers/type_check.rs b/type_analysis/src/analyzers/type_check.rs
index 3ad2271..3323135 100644
--- a/type_analysis/src/analyzers/type_check.rs
+++ b/type_analysis/src/analyzers/type_check.rs
@@ -1090,6 +1090,9 @@ fn check_if_it_is_a_tag(
     let (mut kind, mut tags) = if environment.has_component(symbol){ 
         // we are inside component
         let (name, dim) = environment.get_component_or_break(symbol, file!(), line!()).clone();
+        if access_information.0 > dim {
+            return add_report_and_end(ReportCode::InvalidArrayAccess(dim, access_information.0), meta, reports);
+        }
         let current_dim = dim - access_information.0;
         if current_dim != 0{ // only allowed complete accesses to component
             return add_report_and_end(ReportCode::InvalidPartialArray, meta, reports);
-- 
2.43.0


From e3db2d87ccf34ae288f94877124db29b014ca551 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:46:35 +0000
Subject: [PATCH 32/62] fix: variables with the name of a signal, bus or
 component of another block were taken for it

---
 .../src/program_library/template_data.rs      |   3 +
 type_analysis/src/check_types.rs              |   3 +
 type_analysis/src/decorators/mod.rs           |   1 +
 .../src/decorators/variable_shadowing.rs      | 170 ++++++++++++++++++
 4 files changed, 177 insertions(+)
 create mode 100644 type_analysis/src/decorators/variable_shadowing.rs

diff --git a/program_structure/src/program_library/template_data.rs b/program_structure/src/program_library/template_data.rs
index 142e1af..8fc892a 100644
--- a/program_structure/src/program_library/template_data.rs
+++ b/program_structure/src/program_library/template_data.rs
@@ -122,6 +122,9 @@ impl TemplateData {
     pub fn get_param_location(&self) -> FileLocation {
         self.param_location.clone()
     }
+    pub fn get_mut_name_of_params(&mut self) -> &mut Vec<String> {
+        &mut self.name_of_params
+    }
     pub fn get_name_of_params(&self) -> &Vec<String> {
         &self.name_of_params
     }
diff --git a/type_analysis/src/check_types.rs b/type_analysis/src/check_types.rs
index 35a9e7d..f62d58f 100644
--- a/type_analysis/src/check_types.rs
+++ b/type_analysis/src/check_types.rs
@@ -124,6 +124,9 @@ fn template_level_decorators(
     program_archive: &mut ProgramArchive,
     reports: &mut ReportCollection,
 ) {
+    for template_data in program_archive.get_mut_templates().values_mut() {
+        variable_shadowing::rename_variables(template_data);
+    }
     component_type_inference::inference(program_archive);
     let program_archive2 = program_archive.clone();
     for template_data in program_archive.get_mut_templates().values_mut() {
diff --git a/type_analysis/src/decorators/mod.rs b/type_analysis/src/decorators/mod.rs
index 5b1a842..a33bfcb 100644
--- a/type_analysis/src/decorators/mod.rs
+++ b/type_analysis/src/decorators/mod.rs
@@ -1,3 +1,4 @@
 pub mod component_type_inference;
 pub mod constants_handler;
 pub mod type_reduction;
+pub mod variable_shadowing;
diff --git a/type_analysis/src/decorators/variable_shadowing.rs b/type_analysis/src/decorators/variable_shadowing.rs
new file mode 100644
index 0000000..c026524
--- /dev/null
+++ b/type_analysis/src/decorators/variable_shadowing.rs
@@ -0,0 +1,170 @@
+use program_structure::ast::*;
+use program_structure::template_data::TemplateData;
+use std::collections::{HashMap, HashSet};
+
+type Scope = HashMap<String, Option<String>>;
+
+// The signals, buses and components of a template are known by their name in all its blocks, so a
+// variable (or parameter) with the same name as one of them, declared in a different block, needs another name.
+pub fn rename_variables(template: &mut TemplateData) {
+    let mut wires = HashSet::new();
+    collect_wires(template.get_body(), &mut wires);
+    if wires.is_empty() {
+        return;
+    }
+    let mut state = State { wires, scopes: vec![Scope::new()] };
+    for param in template.get_mut_name_of_params() {
+        state.declare(param, true);
+    }
+    for stmt in template.get_mut_body_as_vec() {
+        rename_in_statement(stmt, &mut state);
+    }
+}
+
+struct State {
+    wires: HashSet<String>,
+    scopes: Vec<Scope>,
+}
+
+impl State {
+    fn declare(&mut self, name: &mut String, is_variable: bool) {
+        let new_name = if is_variable && self.wires.contains(name) {
+            Option::Some(format!("{}#var", name))
+        } else {
+            Option::None
+        };
+        self.scopes.last_mut().unwrap().insert(name.clone(), new_name.clone());
+        if let Option::Some(new_name) = new_name {
+            *name = new_name;
+        }
+    }
+
+    fn rename(&self, name: &mut String) {
+        let declaration = self.scopes.iter().rev().find_map(|scope| scope.get(name));
+        if let Option::Some(Option::Some(new_name)) = declaration {
+            *name = new_name.clone();
+        }
+    }
+}
+
+fn collect_wires(stmt: &Statement, wires: &mut HashSet<String>) {
+    use Statement::*;
+    match stmt {
+        Declaration { name, xtype, .. } => {
+            if *xtype != VariableType::Var {
+                wires.insert(name.clone());
+            }
+        }
+        Block { stmts, .. } | InitializationBlock { initializations: stmts, .. } => {
+            for s in stmts {
+                collect_wires(s, wires);
+            }
+        }
+        While { stmt, .. } => collect_wires(stmt, wires),
+        IfThenElse { if_case, else_case, .. } => {
+            collect_wires(if_case, wires);
+            if let Option::Some(else_case) = else_case {
+                collect_wires(else_case, wires);
+            }
+        }
+        _ => {}
+    }
+}
+
+fn rename_in_statement(stmt: &mut Statement, state: &mut State) {
+    use Statement::*;
+    match stmt {
+        Declaration { name, xtype, dimensions, .. } => {
+            rename_in_expressions(dimensions, state);
+            state.declare(name, *xtype == VariableType::Var);
+        }
+        Substitution { var, access, rhe, .. } => {
+            rename_in_expression(rhe, state);
+            rename_in_access(access, state);
+            state.rename(var);
+        }
+        MultSubstitution { lhe, rhe, .. } | ConstraintEquality { lhe, rhe, .. } => {
+            rename_in_expression(lhe, state);
+            rename_in_expression(rhe, state);
+        }
+        Return { value: exp, .. } | UnderscoreSubstitution { rhe: exp, .. } | Assert { arg: exp, .. } => {
+            rename_in_expression(exp, state);
+        }
+        LogCall { args, .. } => {
+            for arg in args {
+                if let LogArgument::LogExp(exp) = arg {
+                    rename_in_expression(exp, state);
+                }
+            }
+        }
+        InitializationBlock { initializations, .. } => {
+            for s in initializations {
+                rename_in_statement(s, state);
+            }
+        }
+        Block { stmts, .. } => {
+            state.scopes.push(Scope::new());
+            for s in stmts {
+                rename_in_statement(s, state);
+            }
+            state.scopes.pop();
+        }
+        While { cond, stmt, .. } => {
+            rename_in_expression(cond, state);
+            rename_in_statement(stmt, state);
+        }
+        IfThenElse { cond, if_case, else_case, .. } => {
+            rename_in_expression(cond, state);
+            rename_in_statement(if_case, state);
+            if let Option::Some(else_case) = else_case {
+                rename_in_statement(else_case, state);
+            }
+        }
+    }
+}
+
+fn rename_in_access(access: &mut [Access], state: &State) {
+    for acc in access {
+        if let Access::ArrayAccess(exp) = acc {
+            rename_in_expression(exp, state);
+        }
+    }
+}
+
+fn rename_in_expressions(exps: &mut [Expression], state: &State) {
+    for exp in exps {
+        rename_in_expression(exp, state);
+    }
+}
+
+fn rename_in_expression(exp: &mut Expression, state: &State) {
+    use Expression::*;
+    match exp {
+        Variable { name, access, .. } => {
+            rename_in_access(access, state);
+            state.rename(name);
+        }
+        InfixOp { lhe, rhe, .. } => {
+            rename_in_expression(lhe, state);
+            rename_in_expression(rhe, state);
+        }
+        PrefixOp { rhe, .. } | ParallelOp { rhe, .. } => rename_in_expression(rhe, state),
+        InlineSwitchOp { cond, if_true, if_false, .. } => {
+            rename_in_expression(cond, state);
+            rename_in_expression(if_true, state);
+            rename_in_expression(if_false, state);
+        }
+        Call { args: values, .. } | BusCall { args: values, .. } | ArrayInLine { values, .. } | Tuple { values, .. } => {
+            rename_in_expressions(values, state);
+        }
+        AnonymousComp { params, signals, .. } => {
+            rename_in_expressions(params, state);
+            rename_in_expressions(signals, state);
+        }
+        UniformArray { value, dimension, .. } => {
+            rename_in_expression(value, state);
+            rename_in_expression(dimension, state);
+        }
+        Number(..) => {}
+    }
+}
-- 
2.43.0


From c039812045d172541865a3f9199d8d9e46b7b360 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:46:35 +0000
Subject: [PATCH 33/62] fix: parallel applied to an expression that is not a
 component made the compiler panic

---
 type_analysis/src/decorators/type_reduction.rs | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/type_analysis/src/decorators/type_reduction.rs b/type_analysis/src/decorators/type_reduction.rs
index b14f4ce..3e023ee 100644
--- a/type_analysis/src/decorators/type_reduction.rs
+++ b/type_analysis/src/decorators/type_reduction.rs
@@ -91,7 +91,10 @@ fn reduce_types_in_expression(expression: &mut Expression, environment: &Environ
         PrefixOp { rhe, .. } => reduce_types_in_expression(rhe, environment,program_archive),
         ParallelOp { meta, rhe, .. } => {
             let report = reduce_types_in_expression(rhe, environment,program_archive);
-            meta.get_mut_type_knowledge().set_reduces_to(rhe.get_meta().get_type_knowledge().get_reduces_to());
+            let reduced_type = rhe.get_meta().get_type_knowledge();
+            if reduced_type.is_initialized() { // otherwise it is not a component, check type will return the corresponding error
+                meta.get_mut_type_knowledge().set_reduces_to(reduced_type.get_reduces_to());
+            }
             report
         }
         InlineSwitchOp { cond, if_true, if_false, .. } => {
-- 
2.43.0


From 8087127945d97cbb7f99b759aa2a60a916ac2539 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:46:35 +0000
Subject: [PATCH 34/62] fix: a bus and a signal with the same name in different
 blocks made the compiler panic instead of reporting it

---
 type_analysis/src/analyzers/type_check.rs | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/type_analysis/src/analyzers/type_check.rs b/type_analysis/src/analyzers/type_check.rs
index 3323135..946ac5f 100644
--- a/type_analysis/src/analyzers/type_check.rs
+++ b/type_analysis/src/analyzers/type_check.rs
@@ -1203,11 +1203,11 @@ fn apply_access_to_symbol(
     let (current_template_or_bus, mut current_dim, possible_tags) = if environment.has_component(symbol) {
         let (temp, dim) = environment.get_component_or_break(symbol, file!(), line!()).clone();
         (temp.clone(),dim, Vec::new())
+    } else if environment.has_bus(symbol){
+        environment.get_bus_or_break(symbol, file!(), line!()).clone()
     } else if environment.has_signal(symbol) {
         let(dim, tags) = environment.get_signal_or_break(symbol, file!(), line!());
         (Some(symbol.to_string()),  *dim, tags.clone())
-    } else if environment.has_bus(symbol){
-        environment.get_bus_or_break(symbol, file!(), line!()).clone()
     } else {
         let dim = environment.get_variable_or_break(symbol, file!(), line!());
         (Option::None, *dim, Vec::new())
@@ -1343,11 +1343,11 @@ fn apply_access_to_symbol(
         //add_report_and_end(ReportCode::InvalidTagAccessAfterArray, meta, reports);
     } else if environment.has_variable(symbol) {
         Result::Ok(SymbolInformation::Var(current_dim))
-    } else if environment.has_signal(symbol) {
-        Result::Ok(SymbolInformation::Signal(current_dim))
     } else if environment.has_bus(symbol){ 
         Result::Ok(SymbolInformation::Bus(current_template_or_bus, current_dim))
-    }else if environment.has_component(symbol) && current_dim == 0 {
+    } else if environment.has_signal(symbol) {
+        Result::Ok(SymbolInformation::Signal(current_dim))
+    } else if environment.has_component(symbol) && current_dim == 0 {
         Result::Ok(SymbolInformation::Component(current_template_or_bus))
     } else {
         add_report_and_end(ReportCode::InvalidPartialArray, meta, reports)
-- 
2.43.0


From 9ccccd39f00ccc3e4c83c9a2b2f260869d0916d5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:57:16 +0000
Subject: [PATCH 35/62] fix: buses that contain themselves overflowed the stack
 of the compiler

---
 .../src/program_library/error_code.rs         |  2 +
 type_analysis/src/check_types.rs              | 38 +++++++++++++++++--
 2 files changed, 36 insertions(+), 4 deletions(-)

diff --git a/program_structure/src/program_library/error_code.rs b/program_structure/src/program_library/error_code.rs
index f2e7c0c..17e3fbd 100644
--- a/program_structure/src/program_library/error_code.rs
+++ b/program_structure/src/program_library/error_code.rs
@@ -128,6 +128,7 @@ pub enum ReportCode {
     InvalidSignalAccessInBus,
     MustBeSameBus,
     MustBeBus,
+    RecursiveBus,
 }
 
 impl fmt::Display for ReportCode {
@@ -257,6 +258,7 @@ impl fmt::Display for ReportCode {
             InvalidSignalAccessInBus => "BU04",
             MustBeSameBus => "BU05",
             MustBeBus => "BU06",
+            RecursiveBus => "BU07",
         };
         f.write_str(string_format)
     }
diff --git a/type_analysis/src/check_types.rs b/type_analysis/src/check_types.rs
index f62d58f..acd206f 100644
--- a/type_analysis/src/check_types.rs
+++ b/type_analysis/src/check_types.rs
@@ -1,7 +1,10 @@
 use super::analyzers::*;
 use super::decorators::*;
-use program_structure::error_definition::ReportCollection;
+use program_structure::error_code::ReportCode;
+use program_structure::error_definition::{Report, ReportCollection};
 use program_structure::program_archive::ProgramArchive;
+use program_structure::wire_data::WireType;
+use std::collections::HashSet;
 
 pub fn check_types(
     program_archive: &mut ProgramArchive,
@@ -92,9 +95,6 @@ fn program_level_analyses(program_archive: &ProgramArchive, reports: &mut Report
 }
 
 fn template_level_analyses(program_archive: &ProgramArchive, reports: &mut ReportCollection) {
-    use program_structure::error_code::ReportCode;
-    use program_structure::error_definition::Report;
-    
     for template_data in program_archive.get_templates().values() {
         // check that extern_c only if custom gate
         if template_data.is_extern_c() && !template_data.is_custom_gate(){
@@ -165,7 +165,37 @@ fn bus_level_analyses(program_archive: &ProgramArchive, reports: &mut ReportColl
         if let Result::Err(mut free_of_invalid_statements_reports) = free_of_invalid_statements_result {
             reports.append(&mut free_of_invalid_statements_reports);
         }
+        if bus_contains_bus(bus_data.get_name(), program_archive) {
+            let mut report = Report::error(
+                format!("Recursive bus"),
+                ReportCode::RecursiveBus,
+            );
+            report.add_primary(
+                bus_data.get_param_location(),
+                bus_data.get_file_id(),
+                format!("The fields of this bus contain the bus itself."),
+            );
+            reports.push(report);
+        }
+    }
+}
+
+fn bus_contains_bus(bus_name: &str, program_archive: &ProgramArchive) -> bool {
+    let mut visited = HashSet::new();
+    let mut pending = vec![bus_name.to_string()];
+    while let Some(name) = pending.pop() {
+        for info in program_archive.get_bus_data(&name).get_fields().values() {
+            if let WireType::Bus(field_bus) = info.get_type() {
+                if field_bus == bus_name {
+                    return true;
+                }
+                if visited.insert(field_bus.clone()) {
+                    pending.push(field_bus);
+                }
+            }
+        }
     }
+    false
 }
 
 fn bus_level_decorators(program_archive: &mut ProgramArchive, reports: &mut ReportCollection) {
-- 
2.43.0


From 0eb98b66278ab52fbd1e88ae156e69ec54c75594 Mon Sep 17 00:00:00 2001
From: verif <v@x>
Date: Thu, 19 Nov 2026 00:30:02 +0000
Subject: [PATCH 36/62] fix: constants of functions were expanded in
 expressions where another variable has the same name

A constant variable of a function (var q = 1) was replaced by its expression
in every expression below, even where another variable of an inner block had
the same name, so that loops did not end or gave wrong values, and the calls
in its expression were repeated once per use.  Only the sizes of arrays need
the expansion, and only of closed expressions.
---
 .../src/decorators/constants_handler.rs       | 124 +++++++-----------
 1 file changed, 49 insertions(+), 75 deletions(-)

diff --git a/type_analysis/src/decorators/constants_handler.rs b/type_analysis/src/decorators/constants_handler.rs
index 1a42965..bb32ab3 100644
--- a/type_analysis/src/decorators/constants_handler.rs
+++ b/type_analysis/src/decorators/constants_handler.rs
@@ -184,17 +184,21 @@ fn initialization_invariant_check(
     initializations: &[Statement],
     environment: &mut Constants,
 ) -> ReportCollection {
-    use Statement::Declaration;
+    use Statement::{Declaration, Substitution};
     let mut reports = ReportCollection::new();
+    let mut constants = HashSet::new();
     for init in initializations {
-        if let Declaration { dimensions, .. } = init {
+        if let Declaration { name, dimensions, is_constant, .. } = init {
             let mut r = declaration_invariant_check(dimensions, environment);
             reports.append(&mut r);
-        }
-    }
-    for init in initializations {
-        if let Declaration { name, is_constant, .. } = init {
-            environment.add_variable(name, *is_constant);
+            environment.add_variable(name, false);
+            if *is_constant {
+                constants.insert(name);
+            }
+        } else if let Substitution { var, rhe, .. } = init {
+            if constants.contains(var) && has_constant_value(rhe, environment) {
+                environment.add_variable(var, true);
+            }
         }
     }
     reports
@@ -293,51 +297,36 @@ fn parallel_op(rhe: &Expression, environment: &Constants) -> bool {
     has_constant_value(rhe, environment)
 }
 
-// Set of functions whose purpose is to expand constants
+// Set of functions whose purpose is to expand constants in the sizes of arrays
 fn expand_statement(stmt: &mut Statement, environment: &mut ExpressionHolder) {
     use Statement::*;
     match stmt {
-        IfThenElse { cond, if_case, else_case, .. } => {
-            expand_if_then_else(cond, if_case, else_case, environment)
+        IfThenElse { if_case, else_case, .. } => {
+            expand_if_then_else(if_case, else_case, environment)
         }
-        While { cond, stmt, .. } => expand_while(cond, stmt, environment),
-        Return { value, .. } => expand_return(value, environment),
+        While { stmt, .. } => expand_statement(stmt, environment),
         InitializationBlock { initializations, .. } => {
             expand_initialization_block(initializations, environment)
         }
         Declaration { dimensions, .. } => expand_declaration(dimensions, environment),
-        Substitution { access, rhe, .. } => expand_substitution(access, rhe, environment),
-        ConstraintEquality { lhe, rhe, .. } => expand_constraint_equality(lhe, rhe, environment),
-        LogCall { args, .. } => expand_log_call(args, environment),
-        Assert { arg, .. } => expand_assert(arg, environment),
+        Substitution { rhe, .. } => expand_dimensions(rhe, environment),
         Block { stmts, .. } => expand_block(stmts, environment),
         MultSubstitution { .. } => unreachable!(),
-        UnderscoreSubstitution { rhe, .. } => expand_underscore_substitution(rhe, environment),
+        _ => {}
     }
 }
 
 fn expand_if_then_else(
-    cond: &mut Expression,
     if_case: &mut Statement,
     else_case: &mut Option<Box<Statement>>,
     environment: &mut ExpressionHolder,
 ) {
-    *cond = expand_expression(cond.clone(), environment);
     expand_statement(if_case, environment);
     if let Option::Some(s) = else_case {
         expand_statement(s, environment);
     }
 }
 
-fn expand_while(cond: &mut Expression, stmt: &mut Statement, environment: &mut ExpressionHolder) {
-    *cond = expand_expression(cond.clone(), environment);
-    expand_statement(stmt, environment);
-}
-
-fn expand_return(value: &mut Expression, environment: &ExpressionHolder) {
-    *value = expand_expression(value.clone(), environment);
-}
-
 fn expand_initialization_block(
     initializations: &mut [Statement],
     environment: &mut ExpressionHolder,
@@ -346,18 +335,19 @@ fn expand_initialization_block(
     let mut constants = HashSet::new();
     for s in initializations.iter_mut() {
         expand_statement(s, environment);
-    }
-    for s in initializations.iter_mut() {
-        if let Declaration { name, is_constant, .. } = s {
+        if let Declaration { meta, name, is_constant, .. } = s {
             if *is_constant {
                 constants.insert(name.clone());
             }
-        }
-    }
-    for s in initializations.iter_mut() {
-        if let Substitution { var, rhe, .. } = s {
+            // unless it is constant, the name stands for itself (not for a constant of an outer block)
+            let itself = build_variable(meta.clone(), name.clone(), vec![]);
+            environment.add_variable(name, itself);
+        } else if let Substitution { var, rhe, .. } = s {
             if constants.contains(var) {
-                environment.add_variable(var, rhe.clone());
+                let value = expand_expression(rhe.clone(), environment);
+                if !has_variables(&value) {
+                    environment.add_variable(var, value);
+                }
             }
         }
     }
@@ -369,48 +359,15 @@ fn expand_declaration(dimensions: &mut [Expression], environment: &ExpressionHol
     }
 }
 
-fn expand_substitution(
-    access: &mut [Access],
-    rhe: &mut Expression,
-    environment: &ExpressionHolder,
-) {
-    use Access::ArrayAccess;
-    *rhe = expand_expression(rhe.clone(), environment);
-    for a in access {
-        if let ArrayAccess(e) = a {
-            *e = expand_expression(e.clone(), environment);
-        }
-    }
-}
-
-fn expand_underscore_substitution(
-    rhe: &mut Expression,
-    environment: &ExpressionHolder,
-) {
-    *rhe = expand_expression(rhe.clone(), environment);
-}
-
-fn expand_constraint_equality(
-    lhe: &mut Expression,
-    rhe: &mut Expression,
-    environment: &ExpressionHolder,
-) {
-    *lhe = expand_expression(lhe.clone(), environment);
-    *rhe = expand_expression(rhe.clone(), environment);
-}
-
-fn expand_log_call(args: &mut Vec<LogArgument>, environment: &ExpressionHolder) {
-    for arglog in args {
-        if let LogArgument::LogExp(arg) = arglog {
-            *arg = expand_expression(arg.clone(), environment);
-        }
+// The value of an array that is not initialized has its sizes
+fn expand_dimensions(rhe: &mut Expression, environment: &ExpressionHolder) {
+    use Expression::UniformArray;
+    if let UniformArray { value, dimension, .. } = rhe {
+        **dimension = expand_expression((**dimension).clone(), environment);
+        expand_dimensions(value, environment);
     }
 }
 
-fn expand_assert(arg: &mut Expression, environment: &ExpressionHolder) {
-    *arg = expand_expression(arg.clone(), environment);
-}
-
 fn expand_block(stmts: &mut [Statement], environment: &mut ExpressionHolder) {
     environment.add_variable_block();
     for s in stmts {
@@ -419,6 +376,23 @@ fn expand_block(stmts: &mut [Statement], environment: &mut ExpressionHolder) {
     environment.remove_variable_block();
 }
 
+fn has_variables(expr: &Expression) -> bool {
+    use Expression::*;
+    match expr {
+        Variable { .. } => true,
+        InfixOp { lhe, rhe, .. } => has_variables(lhe) || has_variables(rhe),
+        PrefixOp { rhe, .. } | ParallelOp { rhe, .. } => has_variables(rhe),
+        InlineSwitchOp { cond, if_true, if_false, .. } => {
+            has_variables(cond) || has_variables(if_true) || has_variables(if_false)
+        }
+        Call { args: values, .. } | BusCall { args: values, .. } | ArrayInLine { values, .. } => {
+            values.iter().any(has_variables)
+        }
+        UniformArray { value, dimension, .. } => has_variables(value) || has_variables(dimension),
+        _ => false,
+    }
+}
+
 fn expand_expression(expr: Expression, environment: &ExpressionHolder) -> Expression {
     use Expression::*;
     match expr {
-- 
2.43.0


From 65d3e3104e02d1c010759d632325456fc55d596b Mon Sep 17 00:00:00 2001
From: verif <v@x>
Date: Thu, 19 Nov 2026 00:54:06 +0000
Subject: [PATCH 37/62] fix: copies whose size depends on the component of the
 source used a wrong component

The index of that component was computed without positions for its
intermediate values, so that they overwrote each other (both generators), and
in C++ it was read after other computations; two such copies in the same block
did not compile in C++.
---
 compiler/src/intermediate_representation/store_bucket.rs | 8 +++++++-
 compiler/src/ir_processing/build_stack.rs                | 6 +++++-
 2 files changed, 12 insertions(+), 2 deletions(-)

diff --git a/compiler/src/intermediate_representation/store_bucket.rs b/compiler/src/intermediate_representation/store_bucket.rs
index 9795e30..7c7db0e 100644
--- a/compiler/src/intermediate_representation/store_bucket.rs
+++ b/compiler/src/intermediate_representation/store_bucket.rs
@@ -458,7 +458,10 @@ impl WriteC for StoreBucket {
         if self.src_address_type.is_some() {
             let (mut cmp_prologue, cmp_index) = self.src_address_type.as_ref().unwrap().produce_c(producer, parallel);
             prologue.append(&mut cmp_prologue);
-	        src_index_ref  = cmp_index.clone();
+            // keep the index: the computations below overwrite what it is computed with
+            src_index_ref = "cmp_index_ref_src".to_string();
+            prologue.push(format!("{{"));
+            prologue.push(format!("uint {} = {};", src_index_ref, cmp_index));
 	    }
         // We compute the possible sizes, case multiple sizes
         let expr_size = match &self.context.size{
@@ -844,6 +847,9 @@ impl WriteC for StoreBucket {
     		prologue.push(format!("}}"));
 	    }
 	}
+	if self.src_address_type.is_some() {
+	    prologue.push(format!("}}")); // close the block of the index of the source
+	}
 	if let AddressType::SubcmpSignal { .. } = &self.dest_address_type {
 	    prologue.push(format!("}}"));
 	}
diff --git a/compiler/src/ir_processing/build_stack.rs b/compiler/src/ir_processing/build_stack.rs
index f4d69b9..f9c23d4 100644
--- a/compiler/src/ir_processing/build_stack.rs
+++ b/compiler/src/ir_processing/build_stack.rs
@@ -133,7 +133,11 @@ pub fn build_store(bucket: &mut StoreBucket, fresh: usize) -> usize {
     let f_0 = build_instruction(&mut bucket.src, fresh);
     let (f_1, _) = build_location(&mut bucket.dest, fresh);
     let (f_2, _) = build_address_type(&mut bucket.dest_address_type, fresh);
-    std::cmp::max(std::cmp::max(f_0, f_1), f_2)
+    let f_3 = match &mut bucket.src_address_type {
+        Some(src_address) => build_instruction_address(src_address, fresh).0,
+        None => fresh,
+    };
+    std::cmp::max(std::cmp::max(f_0, f_1), std::cmp::max(f_2, f_3))
 }
 
 pub fn build_value(bucket: &mut ValueBucket, fresh: usize) -> usize {
-- 
2.43.0


From bdc9139073bea663e3d23627d50ecfd0966d7eec Mon Sep 17 00:00:00 2001
From: verif <v@x>
Date: Thu, 19 Nov 2026 01:17:10 +0000
Subject: [PATCH 38/62] fix: _ <== with an expression that is not quadratic
 made the compiler panic

---
 constraint_generation/src/execute.rs | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/constraint_generation/src/execute.rs b/constraint_generation/src/execute.rs
index 6351339..6a5beec 100644
--- a/constraint_generation/src/execute.rs
+++ b/constraint_generation/src/execute.rs
@@ -811,6 +811,14 @@ fn execute_statement(
                             &mut runtime.runtime_errors,
                             &runtime.call_trace,
                         )?;
+                        if value_cell.is_nonquadratic() {
+                            treat_result_with_execution_error(
+                                Result::Err(ExecutionError::NonQuadraticConstraint),
+                                meta,
+                                &mut runtime.runtime_errors,
+                                &runtime.call_trace,
+                            )?;
+                        }
                         let constraint_expression = AExpr::transform_expression_to_constraint_form(
                             value_cell,
                             runtime.constants.get_p(),
-- 
2.43.0


From 235c0dfd64331c1ec45323620f911e54a030a57b Mon Sep 17 00:00:00 2001
From: verif <v@x>
Date: Thu, 19 Nov 2026 01:17:31 +0000
Subject: [PATCH 39/62] fix: --inspect advised <== in blocks where it is not
 allowed

---
 constraint_generation/src/execute.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/constraint_generation/src/execute.rs b/constraint_generation/src/execute.rs
index 6a5beec..75e567b 100644
--- a/constraint_generation/src/execute.rs
+++ b/constraint_generation/src/execute.rs
@@ -426,7 +426,9 @@ fn execute_statement(
 
 
             if let Option::Some(node) = actual_node {
-                if *op == AssignOp::AssignConstraintSignal || (*op == AssignOp::AssignSignal && flags.inspect){
+                // in unknown blocks <-- cannot be replaced by <==
+                let can_inspect = flags.inspect && runtime.block_type == BlockType::Known;
+                if *op == AssignOp::AssignConstraintSignal || (*op == AssignOp::AssignSignal && can_inspect){
                     debug_assert!(possible_constraint.is_some());
                     
                     if *op == AssignOp::AssignConstraintSignal && runtime.block_type == BlockType::Unknown{
-- 
2.43.0


From 6453fbbce95c7ed9c3c73b4edf3d273f31eae0cd Mon Sep 17 00:00:00 2001
From: verif <v@x>
Date: Thu, 19 Nov 2026 02:04:50 +0000
Subject: [PATCH 40/62] fix: C++ generator did not run circuits whose only
 inputs are empty arrays

---
 code_producers/src/c_elements/common/main.cpp   | 5 ++---
 code_producers/src/c_elements/common64/main.cpp | 5 ++---
 2 files changed, 4 insertions(+), 6 deletions(-)

diff --git a/code_producers/src/c_elements/common/main.cpp b/code_producers/src/c_elements/common/main.cpp
index 0069de3..3816f75 100644
--- a/code_producers/src/c_elements/common/main.cpp
+++ b/code_producers/src/c_elements/common/main.cpp
@@ -257,9 +257,8 @@ void loadJson(Circom_CalcWit *ctx, std::string filename) {
   qualify_input(prefix, jin, j);
   //std::cout << j << std::endl;
   
-  u64 nItems = j.size();
-  // printf("Items : %llu\n",nItems);
-  if (nItems == 0){
+  // without values to be set nothing else runs the circuit
+  if (get_main_input_signal_no() == 0){
     ctx->tryRunCircuit();
   }
   for (json::iterator it = j.begin(); it != j.end(); ++it) {
diff --git a/code_producers/src/c_elements/common64/main.cpp b/code_producers/src/c_elements/common64/main.cpp
index fad1d6d..3e3eec2 100644
--- a/code_producers/src/c_elements/common64/main.cpp
+++ b/code_producers/src/c_elements/common64/main.cpp
@@ -281,9 +281,8 @@ void loadJson(Circom_CalcWit *ctx, std::string filename) {
   qualify_input(prefix, jin, j);
   //std::cout << j << std::endl;
   
-  u64 nItems = j.size();
-  // printf("Items : %llu\n",nItems);
-  if (nItems == 0){
+  // without values to be set nothing else runs the circuit
+  if (get_main_input_signal_no() == 0){
     ctx->tryRunCircuit();
   }
   for (json::iterator it = j.begin(); it != j.end(); ++it) {
-- 
2.43.0


From 42536aed9bb234cfd589963dc97f65082c6a0f8a Mon Sep 17 00:00:00 2001
From: verif <v@x>
Date: Thu, 19 Nov 2026 02:04:50 +0000
Subject: [PATCH 41/62] fix: arrays of length zero broke the generators
 (panics, invalid WASM, C++ overwriting the next position)

---
 compiler/src/circuit_design/build.rs          |  5 +++--
 .../call_bucket.rs                            |  4 ++--
 .../compute_bucket.rs                         | 22 +++++++++++++------
 .../return_bucket.rs                          |  2 +-
 .../store_bucket.rs                           |  2 +-
 .../intermediate_representation/translate.rs  | 19 ++++++++++++----
 6 files changed, 37 insertions(+), 17 deletions(-)

diff --git a/compiler/src/circuit_design/build.rs b/compiler/src/circuit_design/build.rs
index 528da20..b9a689b 100644
--- a/compiler/src/circuit_design/build.rs
+++ b/compiler/src/circuit_design/build.rs
@@ -504,7 +504,8 @@ fn build_input_output_list(instance: &TemplateInstance, database: &TemplateDB) -
         for len in s.lengths(){
             total_array_size *= len;
         }
-        let individual_size = s.size() / total_array_size;
+        // an array without positions has no elements whose size is needed
+        let individual_size = if total_array_size == 0 { 0 } else { s.size() / total_array_size };
         if s.xtype() != Intermediate {
             let def = IODef {
                 code: TemplateDB::get_signal_id(database, &instance.template_name, s.name()),
@@ -609,7 +610,7 @@ fn get_info_buses(buses: &Vec<BusInstance>)->(usize, FieldMap){
             for len in &field_info.dimensions{
                 total_array_size *= len;
             }
-            let individual_size = field_info.size / total_array_size;
+            let individual_size = if total_array_size == 0 { 0 } else { field_info.size / total_array_size };
             let data = FieldData{
                 offset: field_info.offset,
                 size: individual_size,
diff --git a/compiler/src/intermediate_representation/call_bucket.rs b/compiler/src/intermediate_representation/call_bucket.rs
index c881a8b..e2d7135 100644
--- a/compiler/src/intermediate_representation/call_bucket.rs
+++ b/compiler/src/intermediate_representation/call_bucket.rs
@@ -102,7 +102,7 @@ impl WriteWasm for CallBucket {
 			0
                     }
                 };
-                if arg_size > 1 {
+                if arg_size != 1 {
                     instructions.push(set_local(producer.get_store_aux_1_tag()));
                 }
                 let mut instructions_arg = p.produce_wasm(producer);
@@ -497,7 +497,7 @@ impl WriteC for CallBucket {
 		    0
                 }
             };
-            if size > 1 {
+            if size != 1 {
                 let copy_arguments = if producer.prime_str != "goldilocks" {
                     vec![arena_position, src, size.to_string()]
                 }else {
diff --git a/compiler/src/intermediate_representation/compute_bucket.rs b/compiler/src/intermediate_representation/compute_bucket.rs
index 07d863d..9a22304 100644
--- a/compiler/src/intermediate_representation/compute_bucket.rs
+++ b/compiler/src/intermediate_representation/compute_bucket.rs
@@ -220,7 +220,6 @@ impl WriteWasm for ComputeBucket {
                                 (v.len(),v.clone())
                             }
                         };
-			assert!(length != 0);
 			if !is_multiple && length == 1 {
                             instructions.push(call("$Fr_eq"));
                         } else {
@@ -237,8 +236,15 @@ impl WriteWasm for ComputeBucket {
                             instructions.push(set_local(producer.get_aux_2_tag()));  // second argument initial position
 			    instructions.push(set_local(producer.get_aux_1_tag()));  // first argument initial position
 			    instructions.push(set_local(producer.get_aux_0_tag()));  // resut position
+			    // without elements to compare the result is true
+                            instructions.push(get_local(producer.get_aux_0_tag()));
+                            instructions.push(set_constant_64("1"));
+                            instructions.push(store64(None));
                             instructions.push(add_block());
                             instructions.push(add_loop());
+                            instructions.push(get_local(producer.get_counter_tag()));
+                            instructions.push(eqz32());
+                            instructions.push(br_if("1"));
                             instructions.push(get_local(producer.get_aux_0_tag()));
                             instructions.push(get_local(producer.get_aux_1_tag()));
                             instructions.push(get_local(producer.get_aux_2_tag()));
@@ -250,9 +256,7 @@ impl WriteWasm for ComputeBucket {
                             instructions.push(get_local(producer.get_counter_tag()));
                             instructions.push(set_constant("1"));
                             instructions.push(sub32());
-                            instructions.push(tee_local(producer.get_counter_tag()));
-                            instructions.push(eqz32());
-                            instructions.push(br_if("1"));
+                            instructions.push(set_local(producer.get_counter_tag()));
                             instructions.push(get_local(producer.get_aux_1_tag()));
                             let s = producer.get_size_32_bits_in_memory() * 4;
                             instructions.push(set_constant(&s.to_string()));
@@ -370,7 +374,6 @@ impl WriteC for ComputeBucket {
                     let operands_copy = operands.clone();
                     arguments.append(&mut operands);
                     compute_c.push("{{".to_string());
-                    compute_c.push(format!("{}; // line circom {}", build_call(operator.clone(), arguments),self.line.to_string()));
                     
                     // We compute the possible sizes, case multiple sizes
                     let expr_size = match &n{
@@ -387,8 +390,13 @@ impl WriteC for ComputeBucket {
                         }
                     };
                 
-                    if expr_size != "1" {
-                        compute_c.push(format!("{} = 1;", index_multiple_eq()));
+                    if expr_size == "1" {
+                        compute_c.push(format!("{}; // line circom {}", build_call(operator.clone(), arguments),self.line.to_string()));
+                    } else {
+                        // without elements to compare the result is true
+                        let true_arguments = vec![result_ref.clone(), "\"1\"".to_string(), "10".to_string()];
+                        compute_c.push(format!("{};", build_call("Fr_str2element".to_string(), true_arguments)));
+                        compute_c.push(format!("{} = 0;", index_multiple_eq()));
                         compute_c.push(format!("while({} < {} && Fr_isTrue({})) {{", index_multiple_eq(), expr_size, result_ref));
                         operands = vec![];
                         arguments = vec![result_ref.clone()];
diff --git a/compiler/src/intermediate_representation/return_bucket.rs b/compiler/src/intermediate_representation/return_bucket.rs
index c846c9a..4636ba4 100644
--- a/compiler/src/intermediate_representation/return_bucket.rs
+++ b/compiler/src/intermediate_representation/return_bucket.rs
@@ -111,7 +111,7 @@ impl WriteC for ReturnBucket {
         let (mut instructions_value, src) = self.value.produce_c(producer, parallel);
         instructions.append(&mut instructions_value);
                 
-        if self.with_size > 1 {
+        if self.with_size != 1 {
             let final_size = format!("std::min({},{})", self.with_size, FUNCTION_DESTINATION_SIZE);
 
             let copy_arguments = if producer.prime_str != "goldilocks" {
diff --git a/compiler/src/intermediate_representation/store_bucket.rs b/compiler/src/intermediate_representation/store_bucket.rs
index 7c7db0e..b77f0bd 100644
--- a/compiler/src/intermediate_representation/store_bucket.rs
+++ b/compiler/src/intermediate_representation/store_bucket.rs
@@ -621,7 +621,7 @@ impl WriteC for StoreBucket {
     prologue.append(&mut src_prologue);
 	prologue.push(format!("// end load src"));	
         std::mem::drop(src_prologue);
-        if size != "1" && size != "0" {
+        if size != "1" {
             let copy_arguments = if producer.prime_str != "goldilocks" {
                  vec![aux_dest, src, size.clone()]
             } else {
diff --git a/compiler/src/intermediate_representation/translate.rs b/compiler/src/intermediate_representation/translate.rs
index 231241c..b1b9f67 100644
--- a/compiler/src/intermediate_representation/translate.rs
+++ b/compiler/src/intermediate_representation/translate.rs
@@ -1286,8 +1286,17 @@ impl ProcessedSymbol {
                     // we need to study all possible sizes and lenghts
                     let mut index = 0;
                     for possible_length in &mut possible_status.possible_lengths{
-                        let aux_length = possible_length.pop();
-                        possible_status.possible_sizes[index] /= aux_length.unwrap();
+                        let aux_length = possible_length.pop().unwrap();
+                        possible_status.possible_sizes[index] = if aux_length != 0{
+                            possible_status.possible_sizes[index] / aux_length
+                        } else{
+                            // an array without positions: the size that they would have
+                            let element_size: usize = match &possible_status.possible_bus_fields{
+                                Some(fields) => fields[index].values().map(|field| field.size).sum(),
+                                None => 1
+                            };
+                            possible_length.iter().product::<usize>() * element_size
+                        };
                         index += 1;
                     }
                     
@@ -1707,7 +1716,8 @@ fn compute_full_address(
     let index_stack = indexing_instructions_filter(indexed_with[0].clone(), state);
     for instruction in index_stack {
         let dimension_length = dimensions.pop().unwrap();
-        linear_length /= dimension_length;
+        // there is nothing to address in an array without positions
+        linear_length = if dimension_length == 0 { 0 } else { linear_length / dimension_length };
         let inst = ValueBucket {
             line: at.get_line(),
             message_id: at.get_message_id(),
@@ -1748,7 +1758,8 @@ fn compute_full_address(
         let index_stack = indexing_instructions_filter(indexed_with[index].clone(), state);
         for instruction in index_stack {
             let dimension_length = access.lengths.pop().unwrap();
-            linear_length /= dimension_length;
+            // there is nothing to address in an array without positions
+            linear_length = if dimension_length == 0 { 0 } else { linear_length / dimension_length };
             let inst = ValueBucket {
                 line: at.get_line(),
                 message_id: at.get_message_id(),
-- 
2.43.0


From bace071136359e0b21ec809b46d9a9d16d2ab631 Mon Sep 17 00:00:00 2001
From: verif <v@x>
Date: Thu, 19 Nov 2026 02:07:41 +0000
Subject: [PATCH 42/62] fix: empty input assignments could run a component
 twice or too early

---
 .../call_bucket.rs                            | 22 +++++++++--
 .../store_bucket.rs                           | 20 ++++++++--
 .../src/intermediate_representation/types.rs  |  9 +++++
 .../src/ir_processing/build_inputs_info.rs    | 37 ++++++++++++++++---
 4 files changed, 77 insertions(+), 11 deletions(-)

diff --git a/compiler/src/intermediate_representation/call_bucket.rs b/compiler/src/intermediate_representation/call_bucket.rs
index e2d7135..e210fec 100644
--- a/compiler/src/intermediate_representation/call_bucket.rs
+++ b/compiler/src/intermediate_representation/call_bucket.rs
@@ -377,6 +377,8 @@ impl WriteWasm for CallBucket {
                 instructions.push(add_return());
                 instructions.push(add_end());
                 match &data.dest_address_type {
+                    // assignments of no values do not provide any input
+                    AddressType::SubcmpSignal { .. } if matches!(&data.context.size, SizeOption::Single(0)) => (),
                     AddressType::SubcmpSignal { .. } => {
                         // if subcomponent input check if run needed
 			if producer.needs_comments() {
@@ -406,6 +408,12 @@ impl WriteWasm for CallBucket {
                         instructions.push(load32(Some(
                             &producer.get_input_counter_address_in_component().to_string(),
                         )));
+			if data.context.size.may_be_zero() {
+			    // if no values are assigned the last input has not been provided here
+			    instructions.push(get_local(producer.get_result_size_tag()));
+			    instructions.push(eqz32());
+			    instructions.push(add32());
+			}
                         instructions.push(eqz32());
                         instructions.push(add_if());
 			if producer.needs_comments() {
@@ -692,6 +700,8 @@ impl WriteC for CallBucket {
 		}
                 // like store update counters and check if Subcomponent needs to be run
                 match &data.dest_address_type {
+                    // assignments of no values do not provide any input
+                    AddressType::SubcmpSignal { .. } if size == "0" => (),
                     AddressType::SubcmpSignal { uniform_parallel_value, input_information, .. } => {
                         // if subcomponent input check if run needed
                         let sub_cmp_counter = format!(
@@ -702,6 +712,12 @@ impl WriteC for CallBucket {
                             "{} -= {}",
                             sub_cmp_counter, size
                         );
+                        // if no values are assigned the last input has not been provided here
+                        let assigns_values_check = if data.context.size.may_be_zero() {
+                            format!("{} > 0 && ", size)
+                        } else {
+                            "".to_string()
+                        };
 			if let InputInformation::Input{status, needs_decrement} = input_information {
 			    if let StatusInput::NoLast = status {
 			        // no need to run subcomponent
@@ -750,7 +766,7 @@ impl WriteC for CallBucket {
                     };
                     if let StatusInput::Unknown = status {
                         assert!(needs_decrement);
-                        let sub_cmp_counter_decrease_andcheck = format!("!({})",sub_cmp_counter_decrease);
+                        let sub_cmp_counter_decrease_andcheck = format!("{}!({})",assigns_values_check,sub_cmp_counter_decrease);
                         let if_condition = vec![sub_cmp_counter_decrease_andcheck];
                         prologue.push("// run sub component if needed".to_string());
                         let else_instructions = vec![];
@@ -811,7 +827,7 @@ impl WriteC for CallBucket {
                         },
                         StatusInput::Unknown =>{
                             assert!(needs_decrement);
-                            let sub_cmp_counter_decrease_andcheck = format!("!({})",sub_cmp_counter_decrease);
+                            let sub_cmp_counter_decrease_andcheck = format!("{}!({})",assigns_values_check,sub_cmp_counter_decrease);
                             let if_condition = vec![sub_cmp_counter_decrease_andcheck];
                             prologue.push("// run sub component if needed".to_string());
                             let else_instructions = vec![];
@@ -856,7 +872,7 @@ impl WriteC for CallBucket {
                         },
                         StatusInput::Unknown =>{
                             assert!(needs_decrement);
-                            let sub_cmp_counter_decrease_andcheck = format!("!({})",sub_cmp_counter_decrease);
+                            let sub_cmp_counter_decrease_andcheck = format!("{}!({})",assigns_values_check,sub_cmp_counter_decrease);
                             let if_condition = vec![sub_cmp_counter_decrease_andcheck];
                             prologue.push("// run sub component if needed".to_string());
                             let else_instructions = vec![];
diff --git a/compiler/src/intermediate_representation/store_bucket.rs b/compiler/src/intermediate_representation/store_bucket.rs
index b77f0bd..220d28a 100644
--- a/compiler/src/intermediate_representation/store_bucket.rs
+++ b/compiler/src/intermediate_representation/store_bucket.rs
@@ -385,6 +385,12 @@ impl WriteWasm for StoreBucket {
                 instructions.push(load32(Some(
                     &producer.get_input_counter_address_in_component().to_string(),
                 )));
+		if self.context.size.may_be_zero() || self.src_context.size.may_be_zero() {
+		    // if no values are assigned the last input has not been provided here
+		    instructions.push(get_local(producer.get_result_size_tag()));
+		    instructions.push(eqz32());
+		    instructions.push(add32());
+		}
                 instructions.push(eqz32());
                 instructions.push(add_if());
 		if producer.needs_comments() {
@@ -662,6 +668,8 @@ impl WriteC for StoreBucket {
 	    prologue.push(format!("}}")); // add a close block 2 if opened // not that since all closing } are at the end it works
         }
         match &self.dest_address_type {
+            // assignments of no values do not provide any input
+            AddressType::SubcmpSignal{ .. } if size == "0" => (),
             AddressType::SubcmpSignal{ uniform_parallel_value, input_information,.. } => {
                 // if subcomponent input check if run needed
                 let sub_cmp_counter = format!(
@@ -672,6 +680,12 @@ impl WriteC for StoreBucket {
                     "{} -= {}",
                     sub_cmp_counter, size
                 );
+                // if no values are assigned the last input has not been provided here
+                let assigns_values_check = if self.context.size.may_be_zero() || self.src_context.size.may_be_zero() {
+                    format!("{} > 0 && ", size)
+                } else {
+                    "".to_string()
+                };
 		if let InputInformation::Input{status, needs_decrement} = input_information {
 		    if let StatusInput::NoLast = status {
 			    // no need to run subcomponent
@@ -720,7 +734,7 @@ impl WriteC for StoreBucket {
 
                 if let StatusInput::Unknown = status {
                     assert!(needs_decrement);
-                    let sub_cmp_counter_decrease_andcheck = format!("!({})",sub_cmp_counter_decrease);
+                    let sub_cmp_counter_decrease_andcheck = format!("{}!({})",assigns_values_check,sub_cmp_counter_decrease);
                     let if_condition = vec![sub_cmp_counter_decrease_andcheck];
                     prologue.push("// run sub component if needed".to_string());
                     let else_instructions = vec![];
@@ -781,7 +795,7 @@ impl WriteC for StoreBucket {
                     },
                     StatusInput::Unknown =>{
                         assert!(needs_decrement);
-                        let sub_cmp_counter_decrease_andcheck = format!("!({})",sub_cmp_counter_decrease);
+                        let sub_cmp_counter_decrease_andcheck = format!("{}!({})",assigns_values_check,sub_cmp_counter_decrease);
                         let if_condition = vec![sub_cmp_counter_decrease_andcheck];
                         prologue.push("// run sub component if needed".to_string());
                         let else_instructions = vec![];
@@ -825,7 +839,7 @@ impl WriteC for StoreBucket {
                         }
                     },
                     StatusInput::Unknown =>{
-                        let sub_cmp_counter_decrease_andcheck = format!("!({})",sub_cmp_counter_decrease);
+                        let sub_cmp_counter_decrease_andcheck = format!("{}!({})",assigns_values_check,sub_cmp_counter_decrease);
                         let if_condition = vec![sub_cmp_counter_decrease_andcheck];
                         prologue.push("// run sub component if needed".to_string());
                         let else_instructions = vec![];
diff --git a/compiler/src/intermediate_representation/types.rs b/compiler/src/intermediate_representation/types.rs
index 0600412..3ff6ff3 100644
--- a/compiler/src/intermediate_representation/types.rs
+++ b/compiler/src/intermediate_representation/types.rs
@@ -20,6 +20,15 @@ pub enum SizeOption{
     Multiple(Vec<(usize, usize)>) // The first value indicates the cmp_id, the second the size
 }
 
+impl SizeOption {
+    pub fn may_be_zero(&self) -> bool {
+        match self {
+            SizeOption::Single(value) => *value == 0,
+            SizeOption::Multiple(values) => values.iter().any(|(_, size)| *size == 0),
+        }
+    }
+}
+
 #[derive(Clone, PartialEq, Eq)]
 pub struct InstrContext {
     pub size: SizeOption,
diff --git a/compiler/src/ir_processing/build_inputs_info.rs b/compiler/src/ir_processing/build_inputs_info.rs
index 2b9ba4d..03a3e2e 100644
--- a/compiler/src/ir_processing/build_inputs_info.rs
+++ b/compiler/src/ir_processing/build_inputs_info.rs
@@ -90,8 +90,10 @@ pub fn visit_call(
                 
             }
             _ => {
+                let may_be_empty = data.context.size.may_be_zero();
                 visit_address_type(
                     &mut data.dest_address_type, 
+                    may_be_empty,
                     assignment_status,
                     assignments_level,
                     unknown_component_names,
@@ -131,8 +133,10 @@ pub fn visit_store(
         SizeOption::Single(value) if value == 0 =>{
         }
         _ => {
+            let may_be_empty = bucket.context.size.may_be_zero() || bucket.src_context.size.may_be_zero();
             visit_address_type(
                 &mut bucket.dest_address_type, 
+                may_be_empty,
                 assignment_status,
                 assigments_level,
                 unknown_component_names,
@@ -146,6 +150,7 @@ pub fn visit_store(
 
 pub fn visit_address_type(
     xtype: &mut AddressType,
+    may_be_empty: bool,
     assignment_status: &mut LastInfoMap, 
     assigments_level: &mut ComponentsSet,
     unknown_component_names: &mut ComponentsSet, 
@@ -194,10 +199,22 @@ pub fn visit_address_type(
                     
                     // case anonymous components
                     if *is_anonymous {
-                        if assignment_status.contains_key(cmp_name){
-                            assert!(assignment_status.get(cmp_name).unwrap().found_last);
-                            *status = NoLast;
-                            *needs_decrement = false;
+                        if let Some(last_info) = assignment_status.get_mut(cmp_name){
+                            *needs_decrement = last_info.needs_decrement;
+                            if last_info.found_last {
+                                *status = NoLast;
+                            } else{
+                                // the assignments after this one may be empty
+                                *status = Unknown;
+                                last_info.found_last = !may_be_empty;
+                            }
+                        } else if may_be_empty {
+                            *status = Unknown;
+                            *needs_decrement = true;
+                            assignment_status.insert(cmp_name.clone(), LastInfo{
+                                needs_decrement: true,
+                                found_last: false
+                            });
                         } else{
                             *status = Last;
                             *needs_decrement = false;
@@ -223,13 +240,23 @@ pub fn visit_address_type(
                                     } else{
                                         *status = Unknown;
                                         *needs_decrement = true;
-                                        if !inside_loop{
+                                        if may_be_empty{
+                                            // the last input may be provided by a previous assignment
+                                        } else if !inside_loop{
                                             last_info.found_last = true;
                                         } else{
                                             assigments_level.insert(value.clone());
                                         }
                                     }
                                 }
+                            } else if may_be_empty{
+                                // the last input may be provided by a previous assignment
+                                *status = Unknown;
+                                *needs_decrement = true;
+                                assignment_status.insert(value, LastInfo{
+                                    needs_decrement: true,
+                                    found_last: false
+                                });
                             } else{
                                 if !unknown_component_names.contains(cmp_name){
                                     // case we know all assignments to the component
-- 
2.43.0


From a82a059e8cb623eb28fb058f117220e3d82c4059 Mon Sep 17 00:00:00 2001
From: verif <v@x>
Date: Thu, 19 Nov 2026 02:16:50 +0000
Subject: [PATCH 43/62] fix: main inputs that are or contain empty arrays of
 buses made the compiler panic or were refused

---
 compiler/src/circuit_design/build.rs | 11 ++++++++++-
 1 file changed, 10 insertions(+), 1 deletion(-)

diff --git a/compiler/src/circuit_design/build.rs b/compiler/src/circuit_design/build.rs
index b9a689b..2b279cd 100644
--- a/compiler/src/circuit_design/build.rs
+++ b/compiler/src/circuit_design/build.rs
@@ -356,6 +356,15 @@ fn main_input_list(main: &TemplateInstance, buses: &FieldMap) -> InputList {
 	    if let Some(value) = io.bus_id {
 		let accesses = get_accesses(0,&io.dimensions);
 		//println!("accesses list: {:?}", accesses);
+		if accesses.is_empty() { // array of buses without elements
+		    buslist.push(InputInfo{
+			name: name.clone(),
+			dimensions: io.dimensions.clone(),
+			size: 0,
+			start: new_start,
+			bus_id: None
+		    });
+		}
 		for (a,s) in &accesses {
 		    let prefix = format!("{}{}",name.clone(),a);
 		    let mut ios = get_qualified_names (value,new_start+s*io.size,prefix,buses);
@@ -389,7 +398,7 @@ fn main_input_list(main: &TemplateInstance, buses: &FieldMap) -> InputList {
 		for i in &io.dimensions {
 		    elems *= i;
 		}
-		let size:usize = io.size/elems;
+		let size:usize = if elems == 0 { 0 } else { io.size/elems };
 		let accesses = get_accesses(0,&io.dimensions);
 		for (a,s) in &accesses {
 		    let prefix = format!("{}{}",io.name.clone(),a);
-- 
2.43.0


From e3bf9d2716d31b321c9c9dafaa79fbc05b9a245d Mon Sep 17 00:00:00 2001
From: verif <v@x>
Date: Thu, 19 Nov 2026 02:27:55 +0000
Subject: [PATCH 44/62] fix: C++ positions of partial accesses and of arrays of
 buses with several dimensions in arrays of different components

---
 compiler/src/intermediate_representation/call_bucket.rs  | 4 ++--
 compiler/src/intermediate_representation/load_bucket.rs  | 2 +-
 compiler/src/intermediate_representation/store_bucket.rs | 4 ++--
 3 files changed, 5 insertions(+), 5 deletions(-)

diff --git a/compiler/src/intermediate_representation/call_bucket.rs b/compiler/src/intermediate_representation/call_bucket.rs
index e210fec..9b70e58 100644
--- a/compiler/src/intermediate_representation/call_bucket.rs
+++ b/compiler/src/intermediate_representation/call_bucket.rs
@@ -609,12 +609,12 @@ impl WriteC for CallBucket {
 					// must be last access
 					assert!(idxpos+1 == indexes.len());
 					for i in index_list.len()..dim {
-					    map_index = format!("{}*cur_def->lengths[{}]",
+					    map_index = format!("({})*cur_def->lengths[{}]",
 								map_index, (i-1).to_string());
 					} // after this we have multiplied by the remaining dimensions
 				    }
 				    // multiply the offset in the array (after multiplying by the missing dimensions) by the size of the elements
-				    map_prologue.push(format!("map_accesses_aux[{}] = {}*cur_def->size;", idxpos.to_string(), map_index));
+				    map_prologue.push(format!("map_accesses_aux[{}] = ({})*cur_def->size;", idxpos.to_string(), map_index));
 				    map_prologue.push(format!("}}"));
 				} else if let AccessType::Qualified(field_no) = &indexes[idxpos] {
 				    map_prologue.push(format!("cur_def = &({}->{}[cur_def->busId].defs[{}]);",
diff --git a/compiler/src/intermediate_representation/load_bucket.rs b/compiler/src/intermediate_representation/load_bucket.rs
index 11dcd7e..d7b1d78 100644
--- a/compiler/src/intermediate_representation/load_bucket.rs
+++ b/compiler/src/intermediate_representation/load_bucket.rs
@@ -296,7 +296,7 @@ impl WriteC for LoadBucket {
 				// must be last access
 				assert!(idxpos+1 == indexes.len());
 				for i in index_list.len()..dim {
-				    map_index = format!("{}*{}.lengths[{}]",
+				    map_index = format!("({})*{}.lengths[{}]",
 							map_index, cur_def, (i-1).to_string());
 				} // after this we have multiplied by the remaining dimensions
 			    }
diff --git a/compiler/src/intermediate_representation/store_bucket.rs b/compiler/src/intermediate_representation/store_bucket.rs
index 220d28a..a4aac31 100644
--- a/compiler/src/intermediate_representation/store_bucket.rs
+++ b/compiler/src/intermediate_representation/store_bucket.rs
@@ -551,12 +551,12 @@ impl WriteC for StoreBucket {
 				// must be last access
 				assert!(idxpos+1 == indexes.len());
 				for i in index_list.len()..dim {
-				    map_index = format!("{}*cur_def->lengths[{}]",
+				    map_index = format!("({})*cur_def->lengths[{}]",
 							map_index, (i-1).to_string());
 				} // after this we have multiplied by the remaining dimensions
 			    }
 			    // multiply the offset in the array (after multiplying by the missing dimensions) by the size of the elements
-		            map_prologue.push(format!("map_accesses_aux[{}] = {}*cur_def->size;", idxpos.to_string(), map_index));
+		            map_prologue.push(format!("map_accesses_aux[{}] = ({})*cur_def->size;", idxpos.to_string(), map_index));
 			    map_prologue.push(format!("}}"));
 			} else if let AccessType::Qualified(field_no) = &indexes[idxpos] {
 			    map_prologue.push(format!("cur_def = &({}->{}[cur_def->busId].defs[{}]);",
-- 
2.43.0


From 5ed0fa2c221058142a4a8a2d17fe2976def99b28 Mon Sep 17 00:00:00 2001
From: verif <v@x>
Date: Thu, 19 Nov 2026 02:45:50 +0000
Subject: [PATCH 45/62] fix: strings of log with backslashes, control
 characters or non-ASCII characters

---
 .../common/witness_calculator.js              |  6 ++---
 .../src/wasm_elements/wasm_code_generator.rs  | 23 +++++++++++++++--
 .../intermediate_representation/log_bucket.rs | 25 ++++++++++++++++++-
 .../statement_builders.rs                     |  7 +++++-
 4 files changed, 54 insertions(+), 7 deletions(-)

diff --git a/code_producers/src/wasm_elements/common/witness_calculator.js b/code_producers/src/wasm_elements/common/witness_calculator.js
index 4f16502..697ad8b 100644
--- a/code_producers/src/wasm_elements/common/witness_calculator.js
+++ b/code_producers/src/wasm_elements/common/witness_calculator.js
@@ -79,13 +79,13 @@ module.exports = async function builder(code, options) {
     return wc;
 
     function getMessage() {
-        var message = "";
+        const message = [];
 	var c = instance.exports.getMessageChar();
         while ( c != 0 ) {
-	    message += String.fromCharCode(c);
+	    message.push(c);
 	    c = instance.exports.getMessageChar();
 	}
-        return message;
+        return new TextDecoder().decode(new Uint8Array(message));
     }
 	
     function printSharedRWMemory () {
diff --git a/code_producers/src/wasm_elements/wasm_code_generator.rs b/code_producers/src/wasm_elements/wasm_code_generator.rs
index ba1ca86..be4ac01 100644
--- a/code_producers/src/wasm_elements/wasm_code_generator.rs
+++ b/code_producers/src/wasm_elements/wasm_code_generator.rs
@@ -768,13 +768,13 @@ pub fn generate_data_list(producer: &WASMProducer) -> Vec<WasmInstruction> {
             wdata.push(format!(
                 "(data (i32.const {}) \"{}\\00\")",
                 s + i * producer.get_size_of_message_in_bytes(),
-                st[i]
+                escape_string(&st[i])
             ));
         } else {
             wdata.push(format!(
                 "(data (i32.const {}) \"{}\\00\")",
                 s + i * producer.get_size_of_message_in_bytes(),
-                &st[i][..producer.get_size_of_message_in_bytes()-1]
+                escape_string(&st[i][..producer.get_size_of_message_in_bytes()-1])
             ));
         }
     }
@@ -787,6 +787,25 @@ pub fn generate_data_list(producer: &WASMProducer) -> Vec<WasmInstruction> {
     wdata
 }
 
+// The bytes of a string of the program, as they can be written in a string of the text format.
+// The escape sequences that mean the same in C++ are kept, any other backslash is a character.
+fn escape_string(text: &str) -> String {
+    let mut escaped = String::new();
+    let mut bytes = text.bytes().peekable();
+    while let Some(byte) = bytes.next() {
+        match (byte, bytes.peek()) {
+            (b'\\', Some(b'n' | b't' | b'r' | b'\\' | b'\'')) => {
+                escaped.push('\\');
+                escaped.push(bytes.next().unwrap() as char);
+            }
+            (b'"' | b'\\', _) => escaped.push_str(&format!("\\{:02x}", byte)),
+            (0x20..=0x7e, _) => escaped.push(byte as char),
+            _ => escaped.push_str(&format!("\\{:02x}", byte)),
+        }
+    }
+    escaped
+}
+
 // ------ stack handling operations
 
 pub fn reserve_stack_fr(producer: &WASMProducer, nbytes: usize) -> Vec<WasmInstruction> {
diff --git a/compiler/src/intermediate_representation/log_bucket.rs b/compiler/src/intermediate_representation/log_bucket.rs
index 7abbdd5..210e584 100644
--- a/compiler/src/intermediate_representation/log_bucket.rs
+++ b/compiler/src/intermediate_representation/log_bucket.rs
@@ -102,6 +102,29 @@ impl WriteWasm for LogBucket {
     }
 }
 
+// The bytes of a string of the program, as they can be written in a string literal of C++.
+// The escape sequences that mean the same in WebAssembly are kept, any other backslash is a character.
+fn escape_c_string(text: &str) -> String {
+    let mut escaped = String::new();
+    let mut bytes = text.bytes().peekable();
+    while let Some(byte) = bytes.next() {
+        match (byte, bytes.peek()) {
+            (b'\\', Some(b'n' | b't' | b'r' | b'\\' | b'\'')) => {
+                escaped.push('\\');
+                escaped.push(bytes.next().unwrap() as char);
+            }
+            // (`?` could be part of a trigraph)
+            (b'"' | b'\\' | b'?', _) => {
+                escaped.push('\\');
+                escaped.push(byte as char);
+            }
+            (0x20..=0x7e, _) => escaped.push(byte as char),
+            _ => escaped.push_str(&format!("\\{:03o}", byte)),
+        }
+    }
+    escaped
+}
+
 impl WriteC for LogBucket {
     fn produce_c(&self, producer: &CProducer, parallel: Option<bool>) -> (Vec<String>, String) {
         use c_code_generator::*;
@@ -129,7 +152,7 @@ impl WriteC for LogBucket {
                 let print_c =
                     build_call(
                         "printf".to_string(), 
-                        vec!["\"%s\"".to_string(), format!("\"{}\"", string_value)]
+                        vec!["\"%s\"".to_string(), format!("\"{}\"", escape_c_string(string_value))]
                     );
                 log_c.push("{".to_string());
                 log_c.push(format!("{};", print_c));
diff --git a/program_structure/src/abstract_syntax_tree/statement_builders.rs b/program_structure/src/abstract_syntax_tree/statement_builders.rs
index 3c51078..e126d26 100644
--- a/program_structure/src/abstract_syntax_tree/statement_builders.rs
+++ b/program_structure/src/abstract_syntax_tree/statement_builders.rs
@@ -70,7 +70,12 @@ fn split_string(str: String) -> Vec<LogArgument> {
     let sub_len = 230;
     let mut cur = str;
     while !cur.is_empty() {
-        let (chunk, rest) = cur.split_at(std::cmp::min(sub_len, cur.len()));
+        // a character of several bytes cannot be cut
+        let mut cut = std::cmp::min(sub_len, cur.len());
+        while !cur.is_char_boundary(cut) {
+            cut -= 1;
+        }
+        let (chunk, rest) = cur.split_at(cut);
         v.push(LogArgument::LogStr(chunk.to_string()));
         cur = rest.to_string();
     }
-- 
2.43.0


From ff8c194427c443b1f1d889e46b5f2abf6a42e68e Mon Sep 17 00:00:00 2001
From: verif <v@x>
Date: Thu, 19 Nov 2026 03:40:35 +0000
Subject: [PATCH 46/62] fix: build the user's functions of extern_c templates
 with make

The documentation of extern_c says that a cpp file with the functions has to be
put in the generated folder and that make then builds the executable. The
Makefiles only built the generated files (except the one for goldilocks).
---
 code_producers/src/c_elements/common/makefile  | 2 +-
 code_producers/src/c_elements/generic/makefile | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/code_producers/src/c_elements/common/makefile b/code_producers/src/c_elements/common/makefile
index 6146998..8931de1 100644
--- a/code_producers/src/c_elements/common/makefile
+++ b/code_producers/src/c_elements/common/makefile
@@ -1,7 +1,7 @@
 CC=g++
 CFLAGS=-std=c++11 -O3 -I.
 DEPS_HPP = circom.hpp calcwit.hpp fr.hpp
-DEPS_O = main.o calcwit.o fr.o fr_asm.o
+DEPS_O := $(patsubst %.cpp,%.o,$(wildcard *.cpp)) fr_asm.o
 
 ifeq ($(shell uname),Darwin)
 	NASM=nasm -fmacho64 --prefix _
diff --git a/code_producers/src/c_elements/generic/makefile b/code_producers/src/c_elements/generic/makefile
index c2ddb8f..8ee3415 100644
--- a/code_producers/src/c_elements/generic/makefile
+++ b/code_producers/src/c_elements/generic/makefile
@@ -1,7 +1,7 @@
 CC=g++
 CFLAGS=-std=c++11 -O3 -I.
 DEPS_HPP = circom.hpp calcwit.hpp fr.hpp
-DEPS_O = main.o calcwit.o fr.o 
+DEPS_O := $(patsubst %.cpp,%.o,$(wildcard *.cpp))
 
 all: {{run_name}}
 
-- 
2.43.0


From 8440eed704b56fe12381225acaa3e5e64aa0e2cf Mon Sep 17 00:00:00 2001
From: verif <v@x>
Date: Thu, 19 Nov 2026 03:40:35 +0000
Subject: [PATCH 47/62] fix: arguments of the functions of extern_c templates

With goldilocks the calls passed pointers to circuit constants, which do not
exist there and do not fit the announced signature. Arrays of several dimensions
gave a declaration that is not C++.
---
 compiler/src/circuit_design/template.rs | 30 +++++++++++++------------
 1 file changed, 16 insertions(+), 14 deletions(-)

diff --git a/compiler/src/circuit_design/template.rs b/compiler/src/circuit_design/template.rs
index f919fee..b5eb87d 100644
--- a/compiler/src/circuit_design/template.rs
+++ b/compiler/src/circuit_design/template.rs
@@ -395,25 +395,27 @@ impl TemplateCodeInfo {
 
             // add the parameters of the instance
             for arg in &self.arguments{
-                if arg.lengths.len() == 0{
-                    // case single value
-                    let constant = arg.values[0].to_str_radix(10);
-                    let index = self.map_constants_arguments.get(&constant).unwrap();
-                    arguments.push(format!("&{}", circuit_constants(index.to_string())));
-                } else{
-                    // case array
-                    // build the array of indexes
-                    let mut arg_values = Vec::new();
-                    for v in &arg.values{
-                        let constant = v.to_str_radix(10);
+                // the values: pointers to the constants or, in 64 bits, the numbers
+                let mut arg_values = Vec::new();
+                for v in &arg.values{
+                    let constant = v.to_str_radix(10);
+                    if producer.prime_str != "goldilocks" {
                         let index = self.map_constants_arguments.get(&constant).unwrap();
                         arg_values.push(format!("&{}", circuit_constants(index.to_string())));
+                    } else {
+                        arg_values.push(format!("{}ull", constant));
                     }
-                    run_body.push(format!("FrElement* arg_{}{:?} = {};",
-                        arg.name, arg.lengths, set_list_str(arg_values)
+                }
+                if arg.lengths.len() == 0{
+                    // case single value
+                    arguments.push(arg_values.pop().unwrap());
+                } else{
+                    // case array: its values in row-major order
+                    let type_name = if producer.prime_str != "goldilocks" {"FrElement*"} else {"uint64_t"};
+                    run_body.push(format!("{} arg_{}[{}] = {};",
+                        type_name, arg.name, arg_values.len(), set_list_str(arg_values)
                     ));
                     arguments.push(format!("arg_{}", arg.name));
-
                 }
             }
 
-- 
2.43.0


From 7ddcbd07b457f03b6ced0b270c814f68a7c45e71 Mon Sep 17 00:00:00 2001
From: verif <v@x>
Date: Thu, 19 Nov 2026 03:46:33 +0000
Subject: [PATCH 48/62] fix: remainders by zero of known values

idiv and div report a division by zero; mod_op made the compiler panic.
---
 circom_algebra/src/modular_arithmetic.rs | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/circom_algebra/src/modular_arithmetic.rs b/circom_algebra/src/modular_arithmetic.rs
index 43319e6..c95ee0b 100644
--- a/circom_algebra/src/modular_arithmetic.rs
+++ b/circom_algebra/src/modular_arithmetic.rs
@@ -58,7 +58,11 @@ pub fn idiv(left: &BigInt, right: &BigInt, field: &BigInt) -> Result<BigInt, Ari
 pub fn mod_op(left: &BigInt, right: &BigInt, field: &BigInt) -> Result<BigInt, ArithmeticError> {
     let left = modulus(left, field);
     let right = modulus(right, field);
-    Result::Ok(modulus(&left, &right))
+    if right == BigInt::from(0) {
+        Result::Err(ArithmeticError::DivisionByZero)
+    } else {
+        Result::Ok(modulus(&left, &right))
+    }
 }
 pub fn pow(base: &BigInt, exp: &BigInt, field: &BigInt) -> BigInt {
     base.modpow(exp, field)
-- 
2.43.0


From 8b452ac12559b8ad24e4bde66063ac6040d8852a Mon Sep 17 00:00:00 2001
From: verif <v@x>
Date: Thu, 19 Nov 2026 03:53:59 +0000
Subject: [PATCH 49/62] fix: statements with calls whose value is not stored in
 the traces of the WASM generator

The error of a check in a function called in a log left an empty line where the
line of the log belongs.
---
 compiler/src/intermediate_representation/call_bucket.rs | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/compiler/src/intermediate_representation/call_bucket.rs b/compiler/src/intermediate_representation/call_bucket.rs
index 9b70e58..e3f1643 100644
--- a/compiler/src/intermediate_representation/call_bucket.rs
+++ b/compiler/src/intermediate_representation/call_bucket.rs
@@ -154,6 +154,9 @@ impl WriteWasm for CallBucket {
                 instructions.push(call(&format!("${}", self.symbol)));
 		instructions.push(tee_local(producer.get_merror_tag()));
 		instructions.push(add_if());
+                instructions.push(set_constant(&self.message_id.to_string()));
+                instructions.push(set_constant(&self.line.to_string()));
+                instructions.push(call("$buildBufferMessage"));
                 instructions.push(call("$printErrorMessage"));
 		instructions.push(get_local(producer.get_merror_tag()));    
                 instructions.push(add_return());
-- 
2.43.0


From 794661f7333a2b904c62bafe89b53629d6e4a95c Mon Sep 17 00:00:00 2001
From: verif <v@x>
Date: Thu, 19 Nov 2026 04:02:09 +0000
Subject: [PATCH 50/62] fix: place of unterminated comments after letters of
 several bytes

---
 parser/src/parser_logic.rs | 8 ++------
 1 file changed, 2 insertions(+), 6 deletions(-)

diff --git a/parser/src/parser_logic.rs b/parser/src/parser_logic.rs
index 518eb97..a2a1ccb 100644
--- a/parser/src/parser_logic.rs
+++ b/parser/src/parser_logic.rs
@@ -9,12 +9,10 @@ use program_structure::file_definition::FileID;
 pub fn preprocess(expr: &str, file_id: FileID) -> Result<String, ReportCollection> {
     let mut pp = String::new();
     let mut state = 0;
-    let mut loc = 0;
     let mut block_start = 0;
 
     let mut it = expr.chars();
     while let Some(c0) = it.next() {
-        loc += 1;
         match (state, c0) {
             // strings end in their line (an unclosed one is an error of the lexer)
             (0, '"') => {
@@ -28,7 +26,6 @@ pub fn preprocess(expr: &str, file_id: FileID) -> Result<String, ReportCollectio
                 }
             }
             (0, '/') => {
-                loc += 1;
                 match it.next() {
                     Some('/') => {
                         state = 1;
@@ -36,7 +33,8 @@ pub fn preprocess(expr: &str, file_id: FileID) -> Result<String, ReportCollectio
                         pp.push(' ');
                     }
                     Some('*') => {
-                        block_start = loc;
+                        // in bytes, as the rest of the locations
+                        block_start = expr.len() - it.as_str().len();
                         state = 2;
                         pp.push(' ');
                         pp.push(' ');
@@ -60,11 +58,9 @@ pub fn preprocess(expr: &str, file_id: FileID) -> Result<String, ReportCollectio
                 state = 0;
             }
             (2, '*') => {
-                loc += 1;
                 let mut next = it.next();
                 while next == Some('*') {
                     pp.push(' ');
-                    loc += 1;
                     next = it.next();
                 }
                 match next {
-- 
2.43.0


From c757d7dcd932fcb61b67d301a0a4fc0d1f62b5db Mon Sep 17 00:00:00 2001
From: verif <v@x>
Date: Thu, 19 Nov 2026 04:11:48 +0000
Subject: [PATCH 51/62] fix: position in the C++ traces of the components of
 arrays with one position

---
 .../intermediate_representation/create_component_bucket.rs   | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/compiler/src/intermediate_representation/create_component_bucket.rs b/compiler/src/intermediate_representation/create_component_bucket.rs
index e79b15e..f6f5d35 100644
--- a/compiler/src/intermediate_representation/create_component_bucket.rs
+++ b/compiler/src/intermediate_representation/create_component_bucket.rs
@@ -310,7 +310,10 @@ impl WriteC for CreateCmpBucket {
             );
         }
         else {
-            instructions.push(format!("std::string new_cmp_name = \"{}\";", self.name_subcomponent.to_string()));
+            // the name already has the position, except in arrays with only one
+            let has_one_position = self.dimensions.iter().all(|d| *d == 1);
+            let position = if has_one_position { "[0]".repeat(self.dimensions.len()) } else { String::new() };
+            instructions.push(format!("std::string new_cmp_name = \"{}{}\";", self.name_subcomponent, position));
         }
 
         let create_args = vec![
-- 
2.43.0


From 9a1199a1fb3e768f7399ddbce04f43105c3620b1 Mon Sep 17 00:00:00 2001
From: verif <v@x>
Date: Thu, 19 Nov 2026 04:46:00 +0000
Subject: [PATCH 52/62] fix: equalities where a side is a call or a ternary
 panicked or were not checked in the witness generators

---
 compiler/src/hir/sugar_cleaner.rs | 15 ++++++++++++++-
 1 file changed, 14 insertions(+), 1 deletion(-)

diff --git a/compiler/src/hir/sugar_cleaner.rs b/compiler/src/hir/sugar_cleaner.rs
index 86ef3a0..dbbd609 100644
--- a/compiler/src/hir/sugar_cleaner.rs
+++ b/compiler/src/hir/sugar_cleaner.rs
@@ -207,6 +207,10 @@ fn extend_constraint_equality(
     if let ConstraintEquality { lhe, rhe, .. } = stmt {
         let mut expands = extend_expression(lhe, state, context).initializations;
         expands.append(&mut extend_expression(rhe, state, context).initializations);
+        for side in [lhe, rhe] {
+            extract_call(side, state, &mut expands);
+            extract_switch(side, state, &mut expands);
+        }
         expands
     } else {
         unreachable!()
@@ -250,7 +254,16 @@ fn extend_assert(stmt: &mut Statement, state: &mut State, context: &Context) ->
     }
 }
 
-// A ternary that is the whole argument of a log or an assert
+// A call that is a whole side of an equality
+fn extract_call(expr: &mut Expression, state: &mut State, inits: &mut Vec<Statement>) {
+    if expr.is_call() {
+        let mut work = vec![expr.clone()];
+        sugar_filter(&mut work, state, inits);
+        *expr = work.pop().unwrap();
+    }
+}
+
+// A ternary that is the whole argument of a log or an assert, or a whole side of an equality
 fn extract_switch(expr: &mut Expression, state: &mut State, inits: &mut Vec<Statement>) {
     if expr.is_switch() {
         let mut work = vec![expr.clone()];
-- 
2.43.0


From 2611c652683511fe15dd2a2cd19c851932a9f93a Mon Sep 17 00:00:00 2001
From: verif <v@x>
Date: Thu, 19 Nov 2026 04:49:54 +0000
Subject: [PATCH 53/62] fix: access to a field of a signal of a component of no
 template panicked

---
 type_analysis/src/analyzers/type_check.rs | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/type_analysis/src/analyzers/type_check.rs b/type_analysis/src/analyzers/type_check.rs
index 946ac5f..40734f7 100644
--- a/type_analysis/src/analyzers/type_check.rs
+++ b/type_analysis/src/analyzers/type_check.rs
@@ -1101,7 +1101,11 @@ fn check_if_it_is_a_tag(
         }
         //current_dim == 0 => component completely defined
         //buses_and_signals.len() > 1 => we are accessing a signal, or a bus and later maybe a tag
-        let template_name = name.unwrap();
+        let template_name = if let Some(template_name) = name {
+            template_name
+        } else {
+            return add_report_and_end(ReportCode::UninitializedComponent, meta, reports);
+        };
         let (accessed_element,accessed_dim) = buses_and_signals.get(0).unwrap();
         pos += 1;
         num_dims_accessed += accessed_dim; 
-- 
2.43.0


From 1d797131491084735e33c3b4b7da11cca8836bd5 Mon Sep 17 00:00:00 2001
From: verif <v@x>
Date: Thu, 19 Nov 2026 04:49:56 +0000
Subject: [PATCH 54/62] fix: ternaries of a bus and a number, or of two types
 of bus, were accepted and panicked

---
 type_analysis/src/analyzers/type_check.rs | 12 +-----------
 1 file changed, 1 insertion(+), 11 deletions(-)

diff --git a/type_analysis/src/analyzers/type_check.rs b/type_analysis/src/analyzers/type_check.rs
index 40734f7..9566276 100644
--- a/type_analysis/src/analyzers/type_check.rs
+++ b/type_analysis/src/analyzers/type_check.rs
@@ -62,17 +62,7 @@ impl FoldedType {
         }
     }
     pub fn same_type(left: &FoldedType, right: &FoldedType) -> bool {
-        let mut equal = false;
-        if let (Option::Some(l_template), Option::Some(r_template)) = (&left.template, &right.template) {
-            equal = l_template.eq(r_template);
-        }
-        if let (Option::Some(l_bus), Option::Some(r_bus)) = (&left.bus, &right.bus) {
-            equal = l_bus.eq(r_bus);
-        }
-        if let (Option::Some(l_dim), Option::Some(r_dim)) = (&left.arithmetic, &right.arithmetic) {
-            equal = *l_dim == *r_dim;
-        }
-        equal
+        left.template == right.template && left.bus == right.bus && left.arithmetic == right.arithmetic
     }
 }
 
-- 
2.43.0


From 49cc0245aedebea2e5c2aaf139b19d359dee4557 Mon Sep 17 00:00:00 2001
From: verif <v@x>
Date: Thu, 19 Nov 2026 04:51:38 +0000
Subject: [PATCH 55/62] fix: ternaries of buses or components whose condition
 is unknown panicked

---
 constraint_generation/src/execute.rs | 36 ++++++++++++++++++++++++++--
 1 file changed, 34 insertions(+), 2 deletions(-)

diff --git a/constraint_generation/src/execute.rs b/constraint_generation/src/execute.rs
index 75e567b..1590b1e 100644
--- a/constraint_generation/src/execute.rs
+++ b/constraint_generation/src/execute.rs
@@ -157,7 +157,8 @@ enum ExecutionError {
     NonValidTagAssignment,
     FalseAssert,
     ArraySizeTooBig,
-    RepeatedDeclaration
+    RepeatedDeclaration,
+    UnknownTernary
 }
 
 enum ExecutionWarning {
@@ -1254,7 +1255,7 @@ fn execute_expression(
             let slice_result = AExpressionSlice::new(&arithmetic_result);
             FoldedValue { arithmetic_slice: Option::Some(slice_result), ..FoldedValue::default() }
         }
-        InlineSwitchOp { cond, if_true, if_false, .. } => {
+        InlineSwitchOp { meta, cond, if_true, if_false } => {
             let f_cond = execute_expression(cond, program_archive, runtime, flags)?;
             let ae_cond = safe_unwrap_to_single_arithmetic_expression(f_cond, line!());
             let possible_bool_cond =
@@ -1266,6 +1267,14 @@ fn execute_expression(
                     execute_expression(if_false, program_archive, runtime, flags)?
                 }
             } else {
+                if !is_arithmetic_expression(if_true, program_archive) {
+                    treat_result_with_execution_error(
+                        Result::Err(ExecutionError::UnknownTernary),
+                        meta,
+                        &mut runtime.runtime_errors,
+                        &runtime.call_trace,
+                    )?;
+                }
                 // the cases are not executed: what they computed when the condition was known may not hold now
                 mark_not_computed(if_true, &mut runtime.analysis);
                 mark_not_computed(if_false, &mut runtime.analysis);
@@ -1305,6 +1314,25 @@ fn execute_expression(
     Result::Ok(res)
 }
 
+// false if the value of the expression is a bus or a component
+fn is_arithmetic_expression(expr: &Expression, program_archive: &ProgramArchive) -> bool {
+    use Expression::*;
+    match expr {
+        Variable { meta, .. } => {
+            let reduces_to = meta.get_type_knowledge();
+            !reduces_to.is_bus() && !reduces_to.is_component()
+        }
+        Call { id, .. } => !program_archive.contains_template(id),
+        BusCall { .. } | ParallelOp { .. } => false,
+        InlineSwitchOp { if_true, .. } => is_arithmetic_expression(if_true, program_archive),
+        ArrayInLine { values, .. } => {
+            values.first().map_or(true, |value| is_arithmetic_expression(value, program_archive))
+        }
+        UniformArray { value, .. } => is_arithmetic_expression(value, program_archive),
+        _ => true,
+    }
+}
+
 fn mark_not_computed(expr: &Expression, analysis: &mut Analysis) {
     use Expression::*;
     Analysis::not_computed(analysis, expr.get_meta().elem_id);
@@ -4413,6 +4441,10 @@ fn treat_result_with_execution_error<C>(
                     "There is already a signal, bus or component with this name in the template: the names of its signals, buses and components cannot be repeated, not even in different blocks".to_string(),
                     ReportCode::RuntimeError,
                 ),
+                UnknownTernary => Report::error(
+                    "The condition of a ternary operator whose cases are buses or components must be known during the constraint generation phase".to_string(),
+                    ReportCode::RuntimeError,
+                ),
                 ArraySizeTooBig => Report::error(
                     "The size of the array is expected to be a usize".to_string(),
                     ReportCode::RuntimeError,
-- 
2.43.0


From 7691a2ba7bf992081a37872fd1e9c93df4fd561f Mon Sep 17 00:00:00 2001
From: verif <v@x>
Date: Thu, 19 Nov 2026 04:52:11 +0000
Subject: [PATCH 56/62] fix: assignments whose index is an unknown value of an
 array panicked or were ignored

---
 constraint_generation/src/execute.rs | 32 +++++++++++++++++++++++++++-
 1 file changed, 31 insertions(+), 1 deletion(-)

diff --git a/constraint_generation/src/execute.rs b/constraint_generation/src/execute.rs
index 1590b1e..9e7ad61 100644
--- a/constraint_generation/src/execute.rs
+++ b/constraint_generation/src/execute.rs
@@ -158,7 +158,8 @@ enum ExecutionError {
     FalseAssert,
     ArraySizeTooBig,
     RepeatedDeclaration,
-    UnknownTernary
+    UnknownTernary,
+    UnknownComponentAccess
 }
 
 enum ExecutionWarning {
@@ -429,6 +430,8 @@ fn execute_statement(
             if let Option::Some(node) = actual_node {
                 // in unknown blocks <-- cannot be replaced by <==
                 let can_inspect = flags.inspect && runtime.block_type == BlockType::Known;
+                // there is nothing to inspect if the index of the assigned signal is not known
+                let can_inspect = can_inspect && possible_constraint.is_some();
                 if *op == AssignOp::AssignConstraintSignal || (*op == AssignOp::AssignSignal && can_inspect){
                     debug_assert!(possible_constraint.is_some());
                     
@@ -1690,6 +1693,29 @@ fn perform_assign(
     } else{
         create_symbol(symbol, &accessing_information.other_access.as_ref().unwrap())
     };
+    let undefined_access = match (&accessing_information.bus_access, &accessing_information.other_access) {
+        (Some(access), _) => access.undefined,
+        (None, Some(access)) => access.undefined,
+        (None, None) => false,
+    };
+    if undefined_access && !runtime.anonymous_components.contains_key(symbol) {
+        // the constraints and the components cannot depend on indexes that are not known
+        let error = if op == AssignOp::AssignConstraintSignal {
+            Some(ExecutionError::NonQuadraticConstraint)
+        } else if ExecutionEnvironment::has_component(&runtime.environment, symbol) {
+            Some(ExecutionError::UnknownComponentAccess)
+        } else {
+            None
+        };
+        if let Some(error) = error {
+            treat_result_with_execution_error(
+                Result::Err(error),
+                meta,
+                &mut runtime.runtime_errors,
+                &runtime.call_trace,
+            )?;
+        }
+    }
     let conditions_assignment = if runtime.conditions_state.len() == 0{
         AssignmentState::Assigned(Some(meta.clone()))
     } else{
@@ -4445,6 +4471,10 @@ fn treat_result_with_execution_error<C>(
                     "The condition of a ternary operator whose cases are buses or components must be known during the constraint generation phase".to_string(),
                     ReportCode::RuntimeError,
                 ),
+                UnknownComponentAccess => Report::error(
+                    "Assigments within an unknown access to an array of components are not allowed".to_string(),
+                    ReportCode::RuntimeError,
+                ),
                 ArraySizeTooBig => Report::error(
                     "The size of the array is expected to be a usize".to_string(),
                     ReportCode::RuntimeError,
-- 
2.43.0


From bf324bae0983270ae9066e6046bac62f3bd47fbb Mon Sep 17 00:00:00 2001
From: verif <v@x>
Date: Thu, 19 Nov 2026 04:52:32 +0000
Subject: [PATCH 57/62] fix: tags in the cases of a ternary that are not
 executed in the constraint generation panicked

---
 constraint_generation/src/execute.rs | 54 +++++++++++++++++++++++++---
 1 file changed, 49 insertions(+), 5 deletions(-)

diff --git a/constraint_generation/src/execute.rs b/constraint_generation/src/execute.rs
index 9e7ad61..6a60459 100644
--- a/constraint_generation/src/execute.rs
+++ b/constraint_generation/src/execute.rs
@@ -1264,11 +1264,16 @@ fn execute_expression(
             let possible_bool_cond =
                 AExpr::get_boolean_equivalence(&ae_cond, runtime.constants.get_p());
             if let Option::Some(bool_cond) = possible_bool_cond {
-                if bool_cond {
-                    execute_expression(if_true, program_archive, runtime, flags)?
-                } else {
-                    execute_expression(if_false, program_archive, runtime, flags)?
+                let (case, other_case) = if bool_cond { (if_true, if_false) } else { (if_false, if_true) };
+                let value = execute_expression(case, program_archive, runtime, flags)?;
+                // if the value is a number, it replaces the whole expression
+                let is_number = value.arithmetic_slice.as_ref().map_or(false, |slice| {
+                    slice.is_single() && AExpr::is_number(&AExpressionSlice::unwrap_to_single(slice.clone()))
+                });
+                if !is_number {
+                    compute_tags(other_case, program_archive, runtime, flags)?;
                 }
+                value
             } else {
                 if !is_arithmetic_expression(if_true, program_archive) {
                     treat_result_with_execution_error(
@@ -1281,6 +1286,8 @@ fn execute_expression(
                 // the cases are not executed: what they computed when the condition was known may not hold now
                 mark_not_computed(if_true, &mut runtime.analysis);
                 mark_not_computed(if_false, &mut runtime.analysis);
+                compute_tags(if_true, program_archive, runtime, flags)?;
+                compute_tags(if_false, program_archive, runtime, flags)?;
                 let arithmetic_slice = Option::Some(AExpressionSlice::new(&AExpr::NonQuadratic));
                 FoldedValue { arithmetic_slice, ..FoldedValue::default() }
             }
@@ -1338,7 +1345,9 @@ fn is_arithmetic_expression(expr: &Expression, program_archive: &ProgramArchive)
 
 fn mark_not_computed(expr: &Expression, analysis: &mut Analysis) {
     use Expression::*;
-    Analysis::not_computed(analysis, expr.get_meta().elem_id);
+    if !is_tag(expr) {
+        Analysis::not_computed(analysis, expr.get_meta().elem_id);
+    }
     match expr {
         InfixOp { lhe, rhe, .. } => {
             mark_not_computed(lhe, analysis);
@@ -1370,6 +1379,41 @@ fn mark_not_computed(expr: &Expression, analysis: &mut Analysis) {
     }
 }
 
+fn is_tag(expr: &Expression) -> bool {
+    matches!(expr, Expression::Variable { meta, .. } if meta.get_type_knowledge().is_tag())
+}
+
+// the witness generators have no tags: every tag has to be replaced by its value, also in the
+// expressions that are not executed in this phase
+fn compute_tags(
+    expr: &Expression,
+    program_archive: &ProgramArchive,
+    runtime: &mut RuntimeInformation,
+    flags: FlagsExecution,
+) -> Result<(), ()> {
+    use Expression::*;
+    if is_tag(expr) {
+        execute_expression(expr, program_archive, runtime, flags)?;
+        return Ok(());
+    }
+    let inside: Vec<&Expression> = match expr {
+        InfixOp { lhe, rhe, .. } => vec![lhe.as_ref(), rhe.as_ref()],
+        PrefixOp { rhe, .. } | ParallelOp { rhe, .. } => vec![rhe.as_ref()],
+        InlineSwitchOp { cond, if_true, if_false, .. } => vec![cond.as_ref(), if_true.as_ref(), if_false.as_ref()],
+        Variable { access, .. } => access
+            .iter()
+            .filter_map(|acc| if let Access::ArrayAccess(index) = acc { Some(index) } else { None })
+            .collect(),
+        Call { args: values, .. } | BusCall { args: values, .. } | ArrayInLine { values, .. } => values.iter().collect(),
+        UniformArray { value, dimension, .. } => vec![value.as_ref(), dimension.as_ref()],
+        _ => vec![],
+    };
+    for value in inside {
+        compute_tags(value, program_archive, runtime, flags)?;
+    }
+    Ok(())
+}
+
 
 // The sizes of arrays are always values of the compilation, also when computing them executes logs
 fn execute_size_expression(
-- 
2.43.0


From 0ae76eda1d88bd15d84ad33e10b696b38d3eef67 Mon Sep 17 00:00:00 2001
From: verif <v@x>
Date: Thu, 19 Nov 2026 05:02:32 +0000
Subject: [PATCH 58/62] fix: copies of buses from a position that is unknown in
 the constraint generation panicked

---
 constraint_generation/src/execute.rs | 23 ++++++++++++++++++++++-
 1 file changed, 22 insertions(+), 1 deletion(-)

diff --git a/constraint_generation/src/execute.rs b/constraint_generation/src/execute.rs
index 6a60459..eeec20b 100644
--- a/constraint_generation/src/execute.rs
+++ b/constraint_generation/src/execute.rs
@@ -159,7 +159,8 @@ enum ExecutionError {
     ArraySizeTooBig,
     RepeatedDeclaration,
     UnknownTernary,
-    UnknownComponentAccess
+    UnknownComponentAccess,
+    UnknownBusAccess
 }
 
 enum ExecutionWarning {
@@ -3238,6 +3239,14 @@ fn execute_bus(
     };
 
     if access_information.undefined {
+        if meta.get_type_knowledge().is_bus() {
+            treat_result_with_execution_error(
+                Result::Err(ExecutionError::UnknownBusAccess),
+                meta,
+                &mut runtime.runtime_errors,
+                &runtime.call_trace,
+            )?;
+        }
         let arithmetic_slice = Option::Some(AExpressionSlice::new(&AExpr::NonQuadratic));
         return Result::Ok(FoldedValue { arithmetic_slice, ..FoldedValue::default() });
     }
@@ -3426,6 +3435,14 @@ fn execute_component(
         
     let access_information = treat_accessing_bus(meta, access, program_archive, runtime, flags)?;
     if access_information.undefined {
+        if meta.get_type_knowledge().is_bus() {
+            treat_result_with_execution_error(
+                Result::Err(ExecutionError::UnknownBusAccess),
+                meta,
+                &mut runtime.runtime_errors,
+                &runtime.call_trace,
+            )?;
+        }
         let arithmetic_slice = Option::Some(AExpressionSlice::new(&AExpr::NonQuadratic));
         return Result::Ok(FoldedValue { arithmetic_slice, ..FoldedValue::default() });
     }
@@ -4515,6 +4532,10 @@ fn treat_result_with_execution_error<C>(
                     "The condition of a ternary operator whose cases are buses or components must be known during the constraint generation phase".to_string(),
                     ReportCode::RuntimeError,
                 ),
+                UnknownBusAccess => Report::error(
+                    "The indexes of an access to a bus must be known during the constraint generation phase".to_string(),
+                    ReportCode::RuntimeError,
+                ),
                 UnknownComponentAccess => Report::error(
                     "Assigments within an unknown access to an array of components are not allowed".to_string(),
                     ReportCode::RuntimeError,
-- 
2.43.0


From 7aa36ed03b9df2e0e284f39771e181579963699a Mon Sep 17 00:00:00 2001
From: verif <v@x>
Date: Thu, 19 Nov 2026 05:07:04 +0000
Subject: [PATCH 59/62] fix: assignments to an underscore in functions panicked

---
 compiler/src/hir/component_preprocess.rs | 3 +++
 compiler/src/hir/type_inference.rs       | 2 ++
 2 files changed, 5 insertions(+)

diff --git a/compiler/src/hir/component_preprocess.rs b/compiler/src/hir/component_preprocess.rs
index 85f48a5..facc344 100644
--- a/compiler/src/hir/component_preprocess.rs
+++ b/compiler/src/hir/component_preprocess.rs
@@ -5,6 +5,9 @@ pub fn rm_component_ci(vcp: &mut VCP) {
     for template in &mut vcp.templates {
         rm_statement(&mut template.code);
     }
+    for function in &mut vcp.functions {
+        rm_statement(&mut function.body);
+    }
 }
 
 fn rm_statement(stmt: &mut Statement) {
diff --git a/compiler/src/hir/type_inference.rs b/compiler/src/hir/type_inference.rs
index cd1fb86..7ea2dd4 100644
--- a/compiler/src/hir/type_inference.rs
+++ b/compiler/src/hir/type_inference.rs
@@ -40,6 +40,8 @@ fn infer_type_stmt(stmt: &Statement, state: &State, context: &mut SearchInfo) ->
         Option::None
     } else if stmt.is_assert() {
         Option::None
+    } else if stmt.is_underscore_substitution() {
+        Option::None
     } else{
         unreachable!()
     }
-- 
2.43.0


From 05ff8b4adb1a04cb0eb6a5488ade8b12c21c71f8 Mon Sep 17 00:00:00 2001
From: verif <v@x>
Date: Thu, 19 Nov 2026 05:20:11 +0000
Subject: [PATCH 60/62] fix: errors in the arguments of the main component
 panicked

---
 constraint_generation/src/execute.rs | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/constraint_generation/src/execute.rs b/constraint_generation/src/execute.rs
index eeec20b..2d35492 100644
--- a/constraint_generation/src/execute.rs
+++ b/constraint_generation/src/execute.rs
@@ -185,8 +185,11 @@ pub fn constraint_execution(
         if let Call { id, args, .. } = &program_archive.get_main_expression() {
             let mut arg_values = Vec::new();
             for arg_expression in args.iter() {
-                let f_arg = execute_expression(arg_expression, program_archive, &mut runtime_information, flags);
-                arg_values.push(safe_unwrap_to_arithmetic_slice(f_arg.unwrap(), line!()));
+                let f_arg = match execute_expression(arg_expression, program_archive, &mut runtime_information, flags) {
+                    Result::Ok(f_arg) => f_arg,
+                    Result::Err(_) => return Result::Err(runtime_information.runtime_errors),
+                };
+                arg_values.push(safe_unwrap_to_arithmetic_slice(f_arg, line!()));
                 // improve
             }
             execute_template_call_complete(
-- 
2.43.0


From ec2bf0ccbc6567d819c2c96f81b83f2575bd79e7 Mon Sep 17 00:00:00 2001
From: verif <v@x>
Date: Thu, 19 Nov 2026 05:29:57 +0000
Subject: [PATCH 61/62] fix: numbers 0x without digits and versions of many
 digits panicked

---
 parser/src/lang.lalrpop | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/parser/src/lang.lalrpop b/parser/src/lang.lalrpop
index 681db7f..5e1c72c 100644
--- a/parser/src/lang.lalrpop
+++ b/parser/src/lang.lalrpop
@@ -840,7 +840,7 @@ DECNUMBER: BigInt = {
 };
 
 HEXNUMBER : BigInt = {
-    r"0x[0-9A-Fa-f]*" => BigInt::parse_bytes(&(<>.as_bytes()[2..]),16).expect("failed to parse base16")
+    r"0x[0-9A-Fa-f]+" => BigInt::parse_bytes(&(<>.as_bytes()[2..]),16).expect("failed to parse base16")
 };
 
 IDENTIFIER : String = {
@@ -852,7 +852,8 @@ STRING : String = {
 };
 
 SMALL_DECNUMBER: usize = {
-    r"[0-9]+" => usize::from_str(<>).expect("failed to parse number")
+    // a number that does not fit is greater than any version
+    r"[0-9]+" => usize::from_str(<>).unwrap_or(usize::MAX)
 };
 
 
-- 
2.43.0


From 0d3e0a301d2c580a2edac6a78df34fb8d24475a3 Mon Sep 17 00:00:00 2001
From: verif <v@x>
Date: Thu, 19 Nov 2026 05:29:57 +0000
Subject: [PATCH 62/62] fix: tuples and anonymous components in buses and in
 the main component panicked

---
 parser/src/syntax_sugar_remover.rs | 16 +++++++++++++++-
 1 file changed, 15 insertions(+), 1 deletion(-)

diff --git a/parser/src/syntax_sugar_remover.rs b/parser/src/syntax_sugar_remover.rs
index a2ed76b..d23ba9d 100644
--- a/parser/src/syntax_sugar_remover.rs
+++ b/parser/src/syntax_sugar_remover.rs
@@ -12,10 +12,24 @@ use num_bigint::BigInt;
 
 
 pub fn apply_syntactic_sugar(program_archive : &mut  ProgramArchive) -> Result<(), Report> {
-    if program_archive.get_main_expression().is_anonymous_comp() {
+    if program_archive.get_main_expression().contains_anonymous_comp() {
         return Result::Err(anonymous_general_error(program_archive.get_main_expression().get_meta().clone(),"The main component cannot contain an anonymous call  ".to_string()));
      
     }
+    if program_archive.get_main_expression().contains_tuple() {
+        return Result::Err(tuple_general_error(program_archive.get_main_expression().get_meta().clone(),"The main component cannot contain a tuple".to_string()));
+    }
+
+    for b in program_archive.buses.values_mut() {
+        let body = b.get_body();
+        if body.contains_anonymous_comp() {
+            return Result::Err(anonymous_general_error(body.get_meta().clone(),"Buses cannot contain calls to anonymous templates".to_string()));
+        }
+        check_tuples_statement(body)?;
+        let new_body = remove_tuples_from_statement(body.clone())?;
+        b.set_body(new_body);
+    }
+
     let old_templates = program_archive.templates.clone();
 
     for (_name, t) in &mut program_archive.templates {
-- 
2.43.0

