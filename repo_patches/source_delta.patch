From d9ffd138889b1447b29288c5cb7065fe492ed551 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:09:40 +0000
Subject: [PATCH 01/34] Add GCS_SIMULATION scheduling hooks to the propagation
 loop (off by default)

---
 gcs/innards/propagators.cc      | 24 ++++++++++++++++
 gcs/innards/simulation_hooks.hh | 49 +++++++++++++++++++++++++++++++++
 2 files changed, 73 insertions(+)
 create mode 100644 gcs/innards/simulation_hooks.hh

diff --git a/gcs/innards/propagators.cc b/gcs/innards/propagators.cc
index ad66471..0b72178 100644
--- a/gcs/innards/propagators.cc
+++ b/gcs/innards/propagators.cc
@@ -6,6 +6,7 @@
 #include <gcs/innards/proofs/proof_logger.hh>
 #include <gcs/innards/proofs/proof_model.hh>
 #include <gcs/innards/propagators.hh>
+#include <gcs/innards/simulation_hooks.hh>
 
 #include <util/enumerate.hh>
 #include <util/overloaded.hh>
@@ -844,6 +845,21 @@ auto Propagators::propagate(const Literals & guesses, State & state, ProofLogger
                 tracker.reset();
             }
 
+#ifdef GCS_SIMULATION
+            if (simulation_hooks) {
+                auto at_fixpoint = _imp->enqueued_begin == _imp->enqueued_end;
+                while (auto woken = simulation_hooks->wake_idle(_imp->idle_end - _imp->enqueued_end, at_fixpoint))
+                    enqueue_if_idle(_imp->queue[_imp->enqueued_end + *woken]);
+
+                if (_imp->enqueued_begin != _imp->enqueued_end) {
+                    auto chosen = _imp->enqueued_begin + simulation_hooks->choose_next(_imp->enqueued_end - _imp->enqueued_begin);
+                    swap(_imp->queue[_imp->enqueued_begin], _imp->queue[chosen]);
+                    _imp->lookup[_imp->queue[_imp->enqueued_begin]] = _imp->enqueued_begin;
+                    _imp->lookup[_imp->queue[chosen]] = chosen;
+                }
+            }
+#endif
+
             if (_imp->enqueued_begin == _imp->enqueued_end)
                 break;
 
@@ -883,6 +899,14 @@ auto Propagators::propagate(const Literals & guesses, State & state, ProofLogger
                 else {
                     if (tracker.did_anything_since_last_call_by_propagation_queue())
                         ++_imp->effectful_propagations;
+#ifdef GCS_SIMULATION
+                    if (simulation_hooks) {
+                        if (PropagatorState::DisableUntilBacktrack == propagator_state && simulation_hooks->ignore_disable())
+                            propagator_state = PropagatorState::Enable;
+                        else if (PropagatorState::EnableButIdempotent == propagator_state && simulation_hooks->ignore_idempotence())
+                            propagator_state = PropagatorState::Enable;
+                    }
+#endif
                     switch (propagator_state) {
                     case PropagatorState::Enable: break;
                     case PropagatorState::EnableButIdempotent:
diff --git a/gcs/innards/simulation_hooks.hh b/gcs/innards/simulation_hooks.hh
new file mode 100644
index 0000000..bc6abb9
--- /dev/null
+++ b/gcs/innards/simulation_hooks.hh
@@ -0,0 +1,49 @@
+#ifndef GLASGOW_CONSTRAINT_SOLVER_GUARD_GCS_INNARDS_SIMULATION_HOOKS_HH
+#define GLASGOW_CONSTRAINT_SOLVER_GUARD_GCS_INNARDS_SIMULATION_HOOKS_HH
+
+/**
+ * \file
+ *
+ * Seams for deterministic simulation of the propagation engine. Nothing here
+ * exists unless GCS_SIMULATION is defined, which the ordinary build never does.
+ */
+#ifdef GCS_SIMULATION
+
+#include <cstddef>
+#include <optional>
+
+namespace gcs::innards
+{
+    /**
+     * Every choice the propagation engine is free to make without changing what
+     * it promises: which ready propagator runs next, extra wake-ups of idle
+     * propagators, and whether to act on a propagator's request to be disabled
+     * or its claim to be idempotent.
+     *
+     * \ingroup Innards
+     */
+    class SimulationHooks
+    {
+    public:
+        virtual ~SimulationHooks() = default;
+
+        /// Called before each propagator run; which of the n ready propagators should go next?
+        [[nodiscard]] virtual auto choose_next(std::size_t number_ready) -> std::size_t = 0;
+
+        /// Called before each propagator run and at each fixpoint; which of the n idle propagators, if any, should be woken?
+        [[nodiscard]] virtual auto wake_idle(std::size_t number_idle, bool at_fixpoint) -> std::optional<std::size_t> = 0;
+
+        /// Should a request to be disabled until backtrack be ignored?
+        [[nodiscard]] virtual auto ignore_disable() -> bool = 0;
+
+        /// Should a claim of idempotence be ignored?
+        [[nodiscard]] virtual auto ignore_idempotence() -> bool = 0;
+    };
+
+    /// The hooks in force for this thread, if any.
+    inline thread_local SimulationHooks * simulation_hooks = nullptr;
+}
+
+#endif
+
+#endif
-- 
2.43.0


From 9bafe62215484c43e5b17cd5896cbde2860c7c98 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:48:38 +0000
Subject: [PATCH 02/34] fix: do not ask for the bounds of an emptied domain in
 RefinedWeighting

A conflict can leave a variable in the failing constraint's scope with an
empty domain, and note_conflict called has_single_value on it, which reads
the bounds of an empty interval set.
---
 gcs/variable_weighting.cc | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/gcs/variable_weighting.cc b/gcs/variable_weighting.cc
index d60fee1..ca45ea0 100644
--- a/gcs/variable_weighting.cc
+++ b/gcs/variable_weighting.cc
@@ -213,16 +213,20 @@ RefinedWeighting::RefinedWeighting(const Propagators & propagators, const State
 auto RefinedWeighting::note_conflict(
     int constraint_index, const vector<SimpleIntegerVariableID> & scope, const optional<Reason> &, const State & state) -> void
 {
+    // The conflict may have left one of these domains empty: such a variable is
+    // not assigned, but it has no bounds for has_single_value to look at.
+    auto is_future = [&](const SimpleIntegerVariableID & v) { return state.domain_size(v) != 1_i; };
+
     long long futures = 0;
     for (const auto & v : scope)
-        if (! state.has_single_value(v))
+        if (is_future(v))
             ++futures;
     if (futures == 0)
         return;
 
     auto & weights = _local_weights[constraint_index];
     for (const auto & x : scope) {
-        if (state.has_single_value(x))
+        if (! is_future(x))
             continue;
         double increment = 0.0;
         switch (_variant) {
-- 
2.43.0


From b23f3a503292d577aa0e6d8480281cf14004acd8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:53:45 +0000
Subject: [PATCH 03/34] fix: an empty linear equality with a positive right
 hand side is a contradiction

propagate_linear only compared the empty sum with its right hand side as an
inequality, so x^0 = -3 or x^1 = x - 3 was accepted.
---
 gcs/constraints/linear/propagate.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/gcs/constraints/linear/propagate.cc b/gcs/constraints/linear/propagate.cc
index 18ecd7a..1e8c7e9 100644
--- a/gcs/constraints/linear/propagate.cc
+++ b/gcs/constraints/linear/propagate.cc
@@ -211,7 +211,7 @@ auto gcs::innards::propagate_linear(const auto & coeff_vars, Integer value, cons
     // need to check the empty sum case somewhere, because we only get a contradiction
     // by inferring a specific variable has to take a value that it can't
     if (coeff_vars.terms.empty()) {
-        if (! (0_i <= value)) {
+        if ((! (0_i <= value)) || (equality && value != 0_i)) {
             inference.contradiction(
                 logger, JustifyUsingRUP{hint}, linear_bounds_reason(inference.want_reasons(), coeff_vars, bounds, nullopt, false, add_to_reason));
         }
-- 
2.43.0


From 65765e374ae87092df9b1d9110bb2105cd680baa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:56:33 +0000
Subject: [PATCH 04/34] fix: Among keeps looking if the same variable appears
 twice

When a variable appears twice, perhaps inside views or as how_many, an
inference made for one position could change the number of matches after they
were counted, and then the propagator was disabled without ever checking the
result.
---
 gcs/constraints/among/among.cc | 25 ++++++++++++++++++++++---
 1 file changed, 22 insertions(+), 3 deletions(-)

diff --git a/gcs/constraints/among/among.cc b/gcs/constraints/among/among.cc
index 05eb298..0e1ff19 100644
--- a/gcs/constraints/among/among.cc
+++ b/gcs/constraints/among/among.cc
@@ -22,6 +22,7 @@
 #include <algorithm>
 #include <map>
 #include <optional>
+#include <set>
 #include <sstream>
 #include <string>
 #include <tuple>
@@ -34,6 +35,7 @@ using std::make_shared;
 using std::map;
 using std::optional;
 using std::pair;
+using std::set;
 using std::shared_ptr;
 using std::string;
 using std::stringstream;
@@ -115,9 +117,26 @@ auto Among::install_propagators(Propagators & propagators) -> void
             }
         });
 
+    // usually, once we've decided which variables match, we're done. but if the same
+    // variable shows up twice, perhaps inside views, then deciding one position can
+    // change what we counted at another, so we have to keep looking.
+    set<IntegerVariableID> underlying;
+    auto appears_again = [&](const IntegerVariableID & var) -> bool {
+        return overloaded{
+            [&](const SimpleIntegerVariableID & v) -> bool { return ! underlying.insert(v).second; },                  //
+            [&](const ViewOfIntegerVariableID & v) -> bool { return ! underlying.insert(v.actual_variable).second; }, //
+            [&](const ConstantIntegerVariableID &) -> bool { return false; }                                          //
+        }
+            .visit(var);
+    };
+    bool aliased = appears_again(_how_many);
+    for (const auto & var : _vars)
+        aliased = appears_again(var) || aliased;
+    auto when_decided = aliased ? PropagatorState::Enable : PropagatorState::DisableUntilBacktrack;
+
     propagators.install(
         constraint_id(),
-        [vars = _vars, values_of_interest = _values_of_interest, how_many = _how_many, sum_line = _sum_line, am1_lines = am1_lines,
+        [when_decided = when_decided, vars = _vars, values_of_interest = _values_of_interest, how_many = _how_many, sum_line = _sum_line, am1_lines = am1_lines,
             owner = constraint_id()](const State & state, auto & inference, ProofLogger * const logger) -> PropagatorState {
             // partition variables to be 1) those that must not match, 2) those that must match, and 3) those
             // where they might match but don't have to.
@@ -236,7 +255,7 @@ auto Among::install_propagators(Propagators & propagators) -> void
                 // now every variable is set in a way that either must
                 // match or must not match, and the count is fixed, so
                 // we'll never propagate anything again
-                return PropagatorState::DisableUntilBacktrack;
+                return when_decided;
             }
 
             if (must_match_count + can_be_either_count == at_least_how_many) {
@@ -290,7 +309,7 @@ auto Among::install_propagators(Propagators & propagators) -> void
                     // now every variable is set in a way that either must
                     // match or must not match, and the count is fixed, so
                     // we'll never propagate anything again
-                    return PropagatorState::DisableUntilBacktrack;
+                    return when_decided;
                 }
             }
 
-- 
2.43.0


From fdb9f42c6fb6f8c1736b4e81d23ff8b67c29021c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:58:25 +0000
Subject: [PATCH 05/34] fix: SmartTable keeps the domains of the variables its
 views view

The filtered domain of a view was padded with zeros up to the length of the
unfiltered domain, and a view in the table's own variables had no domain to
filter at all, so tables over views lost solutions or gained some. The proof
steps for filtering now speak of the view rather than what it views.
---
 gcs/constraints/smart_table/smart_table.cc | 32 ++++++++++++----------
 1 file changed, 17 insertions(+), 15 deletions(-)

diff --git a/gcs/constraints/smart_table/smart_table.cc b/gcs/constraints/smart_table/smart_table.cc
index 06b6e4e..128e3c0 100644
--- a/gcs/constraints/smart_table/smart_table.cc
+++ b/gcs/constraints/smart_table/smart_table.cc
@@ -132,7 +132,7 @@ namespace
         overloaded{
             [&](ConstantIntegerVariableID) -> void { throw UnimplementedException{}; }, //
             [&](ViewOfIntegerVariableID v) -> void {
-                auto mod_vec = vector<Integer>(vdom[v.actual_variable].size(), 0_i);
+                auto mod_vec = vector<Integer>(vec.size(), 0_i);
                 for (unsigned i = 0; i < vec.size(); i++) {
                     mod_vec[i] = (v.negate_first ? -1_i : 1_i) * (vec[i] - v.then_add);
                 }
@@ -186,10 +186,10 @@ namespace
                     copy_if(dom_1, back_inserter(new_dom_1), [&](Integer val) { return val < dom_2[dom_2.size() - 1]; });
                     if (logger && logger->get_assertion_level() == AssertionLevel::Off) {
                         if (new_dom_2.size() < dom_2.size())
-                            log_filtering_inference(logger, tuple_selector, deview(binary_entry.var_2) >= (dom_1[0] + 1_i), state, inference,
+                            log_filtering_inference(logger, tuple_selector, binary_entry.var_2 >= (dom_1[0] + 1_i), state, inference,
                                 singleton_reason(binary_entry.var_1 >= dom_1[0]));
                         if (new_dom_1.size() < dom_1.size())
-                            log_filtering_inference(logger, tuple_selector, deview(binary_entry.var_1) < dom_2[dom_2.size() - 1], state, inference,
+                            log_filtering_inference(logger, tuple_selector, binary_entry.var_1 < dom_2[dom_2.size() - 1], state, inference,
                                 singleton_reason(binary_entry.var_2 < dom_2[dom_2.size() - 1] + 1_i));
                     }
                     break;
@@ -198,10 +198,10 @@ namespace
                     copy_if(dom_1, back_inserter(new_dom_1), [&](Integer val) { return val <= dom_2[dom_2.size() - 1]; });
                     if (logger && logger->get_assertion_level() == AssertionLevel::Off) {
                         if (new_dom_2.size() < dom_2.size())
-                            log_filtering_inference(logger, tuple_selector, deview(binary_entry.var_2) >= (dom_1[0]), state, inference,
+                            log_filtering_inference(logger, tuple_selector, binary_entry.var_2 >= (dom_1[0]), state, inference,
                                 singleton_reason(binary_entry.var_1 >= dom_1[0]));
                         if (new_dom_1.size() < dom_1.size())
-                            log_filtering_inference(logger, tuple_selector, deview(binary_entry.var_1) < (dom_2[dom_2.size() - 1] + 1_i), state,
+                            log_filtering_inference(logger, tuple_selector, binary_entry.var_1 < (dom_2[dom_2.size() - 1] + 1_i), state,
                                 inference, singleton_reason(binary_entry.var_2 < dom_2[dom_2.size() - 1] + 1_i));
                     }
                     break;
@@ -215,7 +215,7 @@ namespace
                             vector<Integer> discarded_dom1;
                             set_difference(dom_1, dom_2, back_inserter(discarded_dom1));
                             for (const auto & val : discarded_dom1) {
-                                log_filtering_inference(logger, tuple_selector, deview(binary_entry.var_1) != val, state, inference,
+                                log_filtering_inference(logger, tuple_selector, binary_entry.var_1 != val, state, inference,
                                     singleton_reason(binary_entry.var_2 != val));
                             }
                         }
@@ -224,7 +224,7 @@ namespace
                             vector<Integer> discarded_dom2;
                             set_difference(dom_2, dom_1, back_inserter(discarded_dom2));
                             for (const auto & val : discarded_dom2) {
-                                log_filtering_inference(logger, tuple_selector, deview(binary_entry.var_2) != val, state, inference,
+                                log_filtering_inference(logger, tuple_selector, binary_entry.var_2 != val, state, inference,
                                     singleton_reason(binary_entry.var_1 != val));
                             }
                         }
@@ -235,7 +235,7 @@ namespace
                         new_dom_1 = dom_1;
                         set_difference(dom_2, dom_1, back_inserter(new_dom_2));
                         if (logger && new_dom_2.size() < dom_2.size() && logger->get_assertion_level() == AssertionLevel::Off) {
-                            log_filtering_inference(logger, tuple_selector, deview(binary_entry.var_2) != (dom_1[0]), state, inference,
+                            log_filtering_inference(logger, tuple_selector, binary_entry.var_2 != (dom_1[0]), state, inference,
                                 singleton_reason(binary_entry.var_1 == dom_1[0]));
                         }
                     }
@@ -243,7 +243,7 @@ namespace
                         new_dom_2 = dom_2;
                         set_difference(dom_1, dom_2, back_inserter(new_dom_1));
                         if (logger && new_dom_1.size() < dom_1.size() && logger->get_assertion_level() == AssertionLevel::Off) {
-                            log_filtering_inference(logger, tuple_selector, deview(binary_entry.var_1) != (dom_2[0]), state, inference,
+                            log_filtering_inference(logger, tuple_selector, binary_entry.var_1 != (dom_2[0]), state, inference,
                                 singleton_reason(binary_entry.var_2 == dom_2[0]));
                         }
                     }
@@ -257,10 +257,10 @@ namespace
                     copy_if(dom_2, back_inserter(new_dom_2), [&](Integer val) { return val < dom_1[dom_1.size() - 1]; });
                     if (logger && logger->get_assertion_level() == AssertionLevel::Off) {
                         if (new_dom_1.size() < dom_1.size())
-                            log_filtering_inference(logger, tuple_selector, deview(binary_entry.var_1) >= (dom_2[0] + 1_i), state, inference,
+                            log_filtering_inference(logger, tuple_selector, binary_entry.var_1 >= (dom_2[0] + 1_i), state, inference,
                                 singleton_reason(binary_entry.var_2 >= dom_2[0]));
                         if (new_dom_2.size() < dom_2.size())
-                            log_filtering_inference(logger, tuple_selector, deview(binary_entry.var_2) < dom_1[dom_1.size() - 1], state, inference,
+                            log_filtering_inference(logger, tuple_selector, binary_entry.var_2 < dom_1[dom_1.size() - 1], state, inference,
                                 singleton_reason(binary_entry.var_1 < dom_1[dom_1.size() - 1] + 1_i));
                     }
                     break;
@@ -269,10 +269,10 @@ namespace
                     copy_if(dom_2, back_inserter(new_dom_2), [&](Integer val) { return val <= dom_1[dom_1.size() - 1]; });
                     if (logger && logger->get_assertion_level() == AssertionLevel::Off) {
                         if (new_dom_1.size() < dom_1.size())
-                            log_filtering_inference(logger, tuple_selector, deview(binary_entry.var_1) >= (dom_2[0]), state, inference,
+                            log_filtering_inference(logger, tuple_selector, binary_entry.var_1 >= (dom_2[0]), state, inference,
                                 singleton_reason(binary_entry.var_2 >= dom_2[0]));
                         if (new_dom_2.size() < dom_2.size())
-                            log_filtering_inference(logger, tuple_selector, deview(binary_entry.var_2) < (dom_1[dom_1.size() - 1] + 1_i), state,
+                            log_filtering_inference(logger, tuple_selector, binary_entry.var_2 < (dom_1[dom_1.size() - 1] + 1_i), state,
                                 inference, singleton_reason(binary_entry.var_1 < dom_1[dom_1.size() - 1] + 1_i));
                     }
                     break;
@@ -445,9 +445,11 @@ namespace
                 // Initialise supported by tree to current variable domains
                 VariableDomainMap supported_by_tree{};
 
+                // (views read and write the domain of the variable they view)
                 for (const auto & var : vars)
-                    for (auto value : state.each_value_immutable(var))
-                        supported_by_tree[var].emplace_back(value);
+                    if (auto & supported = supported_by_tree[deview(var)]; supported.empty())
+                        for (auto value : state.each_value_immutable(deview(var)))
+                            supported.emplace_back(value);
 
                 // First pass of filtering supported_by_tree and check of validity
                 if (! filter_and_check_valid(tree, supported_by_tree, pb_selector, state, inference, reason, logger)) {
-- 
2.43.0


From f6bd698e81ec4f247d645087289e98d92b359c8b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:05:07 +0000
Subject: [PATCH 06/34] fix: Inverse's all-different is over the indices of y

The values x takes start at y_start, not x_start, so giving different starts
lost every solution.
---
 gcs/constraints/inverse/inverse.cc | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/gcs/constraints/inverse/inverse.cc b/gcs/constraints/inverse/inverse.cc
index b732c7c..6c1f18b 100644
--- a/gcs/constraints/inverse/inverse.cc
+++ b/gcs/constraints/inverse/inverse.cc
@@ -115,7 +115,7 @@ auto Inverse::install_propagators(Propagators & propagators) -> void
     triggers.on_change.insert(triggers.on_change.end(), _y.begin(), _y.end());
 
     if (_x_value_am1s) {
-        auto build_am1s = [](const vector<IntegerVariableID> & x, Integer x_start, const State &, auto &, ProofLogger * const logger,
+        auto build_am1s = [](const vector<IntegerVariableID> & x, Integer y_start, const State &, auto &, ProofLogger * const logger,
                               const auto & map) {
             // recover_am1 requires at least two atoms; with one variable
             // the at-most-one is trivially true and the map is never read
@@ -123,7 +123,7 @@ auto Inverse::install_propagators(Propagators & propagators) -> void
             // single variable).
             if (x.size() < 2)
                 return;
-            for (Integer v = x_start; v < x_start + Integer(x.size()); ++v) {
+            for (Integer v = y_start; v < y_start + Integer(x.size()); ++v) {
                 // make an am1 for x[i] = v
                 vector<IntegerVariableCondition> xieqvs;
                 for (const auto & var : x)
@@ -136,11 +136,11 @@ auto Inverse::install_propagators(Propagators & propagators) -> void
             }
         };
 
-        propagators.install_initialiser([x = _x, x_start = _x_start, x_value_am1s = _x_value_am1s, build_am1s = build_am1s](
+        propagators.install_initialiser([x = _x, y_start = _y_start, x_value_am1s = _x_value_am1s, build_am1s = build_am1s](
                                             const State & state, auto & inference, ProofLogger * const logger) -> void {
             if (! logger || logger->get_assertion_level() > AssertionLevel::Off)
                 return;
-            build_am1s(x, x_start, state, inference, logger, x_value_am1s);
+            build_am1s(x, y_start, state, inference, logger, x_value_am1s);
         });
     }
     else {
@@ -150,7 +150,7 @@ auto Inverse::install_propagators(Propagators & propagators) -> void
 
     vector<Integer> x_values;
     for (const auto & [i, _] : enumerate(_x))
-        x_values.push_back(Integer(i) + _x_start);
+        x_values.push_back(Integer(i) + _y_start);
 
     propagators.install(
         constraint_id(),
-- 
2.43.0


From e410df8c9d795d8adfea67f170a649591ca08d22 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:05:30 +0000
Subject: [PATCH 07/34] fix: AllDifferent's value consistency pass sees
 initially fixed variables

The pass only pushes out the values of variables on its unassigned list, and
variables fixed before the search, constants included, were left off it, so
nothing stopped another variable from taking their values.
---
 gcs/constraints/all_different/all_different.cc | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/gcs/constraints/all_different/all_different.cc b/gcs/constraints/all_different/all_different.cc
index 66f53b3..d373ec4 100644
--- a/gcs/constraints/all_different/all_different.cc
+++ b/gcs/constraints/all_different/all_different.cc
@@ -123,9 +123,10 @@ auto AllDifferent::prepare(Propagators &, State & initial_state, ProofModel * co
     // state would still be saved and restored at every search node.
     if (holds_alternative<consistency::VC>(_level) || _gac_staged) {
         NonGacAllDifferentUnassigned unassigned{};
+        // (Variables which already have a single value go in too: nothing has told
+        // the others about it yet.)
         for (auto & var : _sanitised_vars)
-            if (! initial_state.has_single_value(var))
-                unassigned.push_back(var);
+            unassigned.push_back(var);
         _unassigned_handle = initial_state.add_constraint_state(unassigned);
     }
 
-- 
2.43.0


From 55d56d7ebcff09fffb0e0af5e058ea2d07a4ef18 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:05:46 +0000
Subject: [PATCH 08/34] fix: AllEqual is only entailed once every variable has
 the same value

A bound tightened past a hole could fix the first variable to a value the
others had not been told about, and then the propagator was disabled.
---
 gcs/constraints/all_equal/all_equal.cc | 11 +++++++----
 1 file changed, 7 insertions(+), 4 deletions(-)

diff --git a/gcs/constraints/all_equal/all_equal.cc b/gcs/constraints/all_equal/all_equal.cc
index 23fb22a..18f2411 100644
--- a/gcs/constraints/all_equal/all_equal.cc
+++ b/gcs/constraints/all_equal/all_equal.cc
@@ -9,6 +9,7 @@
 #include <gcs/innards/s_expr.hh>
 #include <gcs/innards/state.hh>
 
+#include <algorithm>
 #include <memory>
 #include <sstream>
 #include <utility>
@@ -30,6 +31,7 @@ using std::stringstream;
 using std::to_string;
 using std::unique_ptr;
 using std::vector;
+using std::ranges::all_of;
 
 #if defined(__cpp_lib_print) && defined(__cpp_lib_format)
 using std::print;
@@ -133,10 +135,11 @@ auto AllEqual::install_propagators(Propagators & propagators) -> void
                 }
             }
 
-            // Entailed once any var is single-valued: the chain equalities will
-            // have propagated that value to every other var (or contradicted),
-            // so further calls have nothing to do.
-            if (state.has_single_value(vars[0]))
+            // Entailed once every var has the same single value. One of them having
+            // a single value is not enough: a bound tightened above may have landed
+            // the other side of a hole, and only the next call will pass that on.
+            auto value = state.optional_single_value(vars[0]);
+            if (value && all_of(vars, [&](const auto & v) { return state.optional_single_value(v) == value; }))
                 return PropagatorState::DisableUntilBacktrack;
 
             return PropagatorState::Enable;
-- 
2.43.0


From 6b6ca222b23f8b8560dc13f9a08e358dd8136278 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:06:23 +0000
Subject: [PATCH 09/34] fix: ArrayMinMax does not throw if result is also one
 of the vars

Removing an unsupported value from result can then remove the support for a
value which was kept, which was reported as a bug rather than being left for
the next call.
---
 gcs/constraints/min_max/min_max.cc | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/gcs/constraints/min_max/min_max.cc b/gcs/constraints/min_max/min_max.cc
index 870f9f8..ae9dc9c 100644
--- a/gcs/constraints/min_max/min_max.cc
+++ b/gcs/constraints/min_max/min_max.cc
@@ -144,8 +144,12 @@ auto ArrayMinMax::install_propagators(Propagators & propagators) -> void
                 }
             }
 
-            if (! support_1)
-                throw UnexpectedException{"missing support, bug in MinMaxArray propagator"};
+            if (! support_1) {
+                // this can only be because result is also one of the vars, perhaps inside a
+                // view, and what we just removed from it was supporting something we kept.
+                // we'll be called again for what we just removed.
+                return PropagatorState::Enable;
+            }
             else if (! support_2) {
                 // no, there's only a single var left that has any intersection with result. so, that
                 // variable has to lose any values not present in result.
-- 
2.43.0


From 3e46b6f21acd139204819b42ca292cedb5ff30b9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:07:08 +0000
Subject: [PATCH 10/34] fix: GlobalCardinality sorts its cover values under GAC
 too

The GAC propagator looks them up by binary search, but they were only sorted
under BC, so giving them in another order lost solutions.
---
 gcs/constraints/global_cardinality/global_cardinality.cc | 5 ++---
 gcs/constraints/global_cardinality/global_cardinality.hh | 5 +++--
 2 files changed, 5 insertions(+), 5 deletions(-)

diff --git a/gcs/constraints/global_cardinality/global_cardinality.cc b/gcs/constraints/global_cardinality/global_cardinality.cc
index 09e020b..4a5bce7 100644
--- a/gcs/constraints/global_cardinality/global_cardinality.cc
+++ b/gcs/constraints/global_cardinality/global_cardinality.cc
@@ -70,8 +70,7 @@ auto GlobalCardinality::clone() const -> unique_ptr<Constraint>
 {
     auto cloned = make_unique<GlobalCardinality>(_vars, _values, _counts);
     cloned->with_consistency(_level).with_closed(_closed);
-    if (holds_alternative<consistency::BC>(_level))
-        cloned->sort_cover_values();
+    cloned->sort_cover_values();
     return cloned;
 }
 
@@ -121,7 +120,7 @@ auto GlobalCardinality::install_propagators(Propagators & propagators) -> void
     // the disjunction. This is also what lets the GAC propagator hand it the
     // no-cover-value-left case rather than raising an unjustified contradiction.
     if (_closed) {
-        // sort_cover_values() only runs on the BC path, so sort a copy rather
+        // sort_cover_values() only runs when cloning, so sort a copy rather
         // than assume _values is ordered.
         auto sorted_cover = _values;
         sort(sorted_cover);
diff --git a/gcs/constraints/global_cardinality/global_cardinality.hh b/gcs/constraints/global_cardinality/global_cardinality.hh
index 0a3d34c..d078838 100644
--- a/gcs/constraints/global_cardinality/global_cardinality.hh
+++ b/gcs/constraints/global_cardinality/global_cardinality.hh
@@ -55,8 +55,9 @@ namespace gcs
         virtual auto install_propagators(innards::Propagators &) -> void override;
 
         // The bounds propagator's Hall-interval reasoning ranges over contiguous
-        // runs of the cover values, so under consistency::BC they (and their count
-        // variables) must be in ascending order. Done in clone() rather than a
+        // runs of the cover values, and the GAC propagator looks cover values up by
+        // binary search, so they (and their count variables) must be in ascending
+        // order. Done in clone() rather than a
         // constructor because the level is chosen post-construction, and both the
         // stored constraint (which s_expr reads) and its install-time clone (which
         // define_proof_model reads) must agree.
-- 
2.43.0


From fd0593702f9014bb633eca2789f030c33d5a20bc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:17:24 +0000
Subject: [PATCH 11/34] fix: fire refined watches in rounds where a propagator
 claimed idempotence

---
 gcs/innards/propagators.cc | 22 ++++++++++++++--------
 1 file changed, 14 insertions(+), 8 deletions(-)

diff --git a/gcs/innards/propagators.cc b/gcs/innards/propagators.cc
index 0b72178..de510cb 100644
--- a/gcs/innards/propagators.cc
+++ b/gcs/innards/propagators.cc
@@ -623,12 +623,7 @@ auto Propagators::propagate(const Literals & guesses, State & state, ProofLogger
         }
     };
 
-    auto requeue = [&](const SimpleIntegerVariableID & v, const Inference inf) {
-        if (v.index < _imp->iv_triggers.size())
-            for (auto & [p, mask] : _imp->iv_triggers[v.index].ids_and_masks)
-                if (mask & (1 << to_underlying(inf)))
-                    enqueue_if_idle(p);
-
+    auto fire_refined_watches = [&](const SimpleIntegerVariableID & v, const Inference inf) {
         // Refined watches: fire any whose literal is now entailed, delivering the
         // payload to its owner and consuming the watch. A watch is only tested when
         // the current inference granularity is in its trigger_mask -- e.g. an `x==v`
@@ -656,19 +651,30 @@ auto Propagators::propagate(const Literals & guesses, State & state, ProofLogger
         }
     };
 
+    auto requeue = [&](const SimpleIntegerVariableID & v, const Inference inf) {
+        if (v.index < _imp->iv_triggers.size())
+            for (auto & [p, mask] : _imp->iv_triggers[v.index].ids_and_masks)
+                if (mask & (1 << to_underlying(inf)))
+                    enqueue_if_idle(p);
+
+        fire_refined_watches(v, inf);
+    };
+
     // A run that claimed idempotence must not be re-woken by any inference it
     // had already seen (everything recorded up to its run's end, its own
     // inferences included): the round-boundary replay uses this variant, with
     // claim_protected flagging the claimants whose runs ended after the
     // inference being replayed, when (and only when) the round produced
     // claims -- the plain requeue above keeps the claim-free hot path free of
-    // the extra load. Refined watches are consumed on their first fire in the
-    // requeue above, so this coarse-only replay does not re-fire them.
+    // the extra load. Refined watches are always fired, claims or not: this
+    // replay is the only time they are tested against the round's inferences.
     auto requeue_unless_already_seen = [&](const SimpleIntegerVariableID & v, const Inference inf) {
         if (v.index < _imp->iv_triggers.size())
             for (auto & [p, mask] : _imp->iv_triggers[v.index].ids_and_masks)
                 if ((mask & (1 << to_underlying(inf))) && ! _imp->claim_protected[p])
                     enqueue_if_idle(p);
+
+        fire_refined_watches(v, inf);
     };
 
     // A contradiction or an abort ends a round without replaying it, so a
-- 
2.43.0


From bc43f5ea4b9696d4eb9b797e32574ea9dacb5d4f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:19:21 +0000
Subject: [PATCH 12/34] fix: AutoTable reaches the root fixpoint before opening
 its epoch

---
 gcs/presolvers/auto_table/auto_table.cc | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/gcs/presolvers/auto_table/auto_table.cc b/gcs/presolvers/auto_table/auto_table.cc
index d0d1041..3639b41 100644
--- a/gcs/presolvers/auto_table/auto_table.cc
+++ b/gcs/presolvers/auto_table/auto_table.cc
@@ -121,6 +121,13 @@ auto AutoTable::run(Problem & problem, Propagators & propagators, State & initia
     // callback once and reuse it down the subproblem recursion.
     auto branch_callback = branch_with(variable_order::dom_then_deg(_vars), value_order::smallest_first())(problem, initial_state, propagators);
 
+    // Every propagator's first run has to be at the root, not inside the epoch
+    // the subproblem is going to be explored in: that is when watches are armed
+    // and incremental state is set up, and neither would survive backtracking
+    // out of the epoch.
+    if (! propagators.propagate({}, initial_state, logger))
+        return false;
+
     auto timestamp = initial_state.new_epoch(true);
     initial_state.guess(TrueLiteral{});
 
-- 
2.43.0


From 6fb1793a9e107fa7cdeb3397943129b9e94c609f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:22:51 +0000
Subject: [PATCH 13/34] fix: give the values of a negated view in ascending
 order

Iterating over a negating view's values went in descending order, against the
documentation. Among other things, splitting such a variable's domain in two
made value_order::split_* guess something already true, and recurse for ever.
---
 gcs/innards/state.cc | 15 ++++++++++-----
 gcs/innards/state.hh | 12 ++++++++++--
 gcs/interval_set.hh  | 20 ++++++++++++++++++++
 3 files changed, 40 insertions(+), 7 deletions(-)

diff --git a/gcs/innards/state.cc b/gcs/innards/state.cc
index ba0f41a..8488dec 100644
--- a/gcs/innards/state.cc
+++ b/gcs/innards/state.cc
@@ -629,10 +629,15 @@ auto State::domains_intersect(const IntegerVariableID & var1, const IntegerVaria
 
 namespace
 {
-    auto each_value_generator(IntervalSet<Integer> set, std::function<auto(Integer)->Integer> apply) -> generator<Integer>
+    auto each_value_generator(IntervalSet<Integer> set, bool reversed, std::function<auto(Integer)->Integer> apply) -> generator<Integer>
     {
-        for (auto i : set.each())
-            co_yield apply(i);
+        // A negating view turns the order around, so walk downwards to give values in ascending order.
+        if (reversed)
+            for (auto i : set.each_reversed())
+                co_yield apply(i);
+        else
+            for (auto i : set.each())
+                co_yield apply(i);
     }
 
     auto each_value_constant_generator(Integer val, std::function<auto(Integer)->Integer> apply) -> generator<Integer>
@@ -649,7 +654,7 @@ auto State::each_value_immutable(const VarType_ & var) const -> generator<Intege
     auto apply = [negate_first = negate_first, then_add = then_add](Integer v) -> Integer { return apply_view(v, negate_first, then_add); };
 
     return visit_actual(
-        actual_var, [&](const SimpleIntegerVariableID & v) { return each_value_generator(state_of(v), apply); },
+        actual_var, [&, negate_first = negate_first](const SimpleIntegerVariableID & v) { return each_value_generator(state_of(v), negate_first, apply); },
         [&](const ConstantIntegerVariableID & v) { return each_value_constant_generator(v.const_value, apply); });
 }
 
@@ -661,7 +666,7 @@ auto State::each_value_mutable(const VarType_ & var) const -> generator<Integer>
     auto apply = [negate_first = negate_first, then_add = then_add](Integer v) -> Integer { return apply_view(v, negate_first, then_add); };
 
     return visit_actual(
-        actual_var, [&](const SimpleIntegerVariableID & v) { return each_value_generator(state_of(v), apply); },
+        actual_var, [&, negate_first = negate_first](const SimpleIntegerVariableID & v) { return each_value_generator(state_of(v), negate_first, apply); },
         [&](const ConstantIntegerVariableID & v) { return each_value_constant_generator(v.const_value, apply); });
 }
 
diff --git a/gcs/innards/state.hh b/gcs/innards/state.hh
index 29359f8..92484e6 100644
--- a/gcs/innards/state.hh
+++ b/gcs/innards/state.hh
@@ -433,7 +433,11 @@ namespace gcs::innards
             state_detail::visit_actual(
                 actual_var,
                 [&, negate_first = negate_first, then_add = then_add](const SimpleIntegerVariableID & v) {
-                    state_of_for_iteration(v).for_each([&](Integer i) { return cb(state_detail::apply_view(i, negate_first, then_add)); });
+                    auto visit = [&](Integer i) { return cb(state_detail::apply_view(i, negate_first, then_add)); };
+                    if (negate_first)
+                        state_of_for_iteration(v).for_each_reversed(visit);
+                    else
+                        state_of_for_iteration(v).for_each(visit);
                 },
                 [&, negate_first = negate_first, then_add = then_add](
                     const ConstantIntegerVariableID & v) { cb(state_detail::apply_view(v.const_value, negate_first, then_add)); });
@@ -455,7 +459,11 @@ namespace gcs::innards
                 actual_var,
                 [&, negate_first = negate_first, then_add = then_add](const SimpleIntegerVariableID & v) {
                     auto snapshot = state_of_for_iteration(v);
-                    snapshot.for_each([&](Integer i) { return cb(state_detail::apply_view(i, negate_first, then_add)); });
+                    auto visit = [&](Integer i) { return cb(state_detail::apply_view(i, negate_first, then_add)); };
+                    if (negate_first)
+                        snapshot.for_each_reversed(visit);
+                    else
+                        snapshot.for_each(visit);
                 },
                 [&, negate_first = negate_first, then_add = then_add](
                     const ConstantIntegerVariableID & v) { cb(state_detail::apply_view(v.const_value, negate_first, then_add)); });
diff --git a/gcs/interval_set.hh b/gcs/interval_set.hh
index 42e32df..d6f21b0 100644
--- a/gcs/interval_set.hh
+++ b/gcs/interval_set.hh
@@ -596,6 +596,26 @@ namespace gcs
             }(intervals);
         }
 
+        /**
+         * \brief Calls \p f on each value in the set in descending order.
+         *
+         * Non-coroutine alternative to each_reversed(). If \p f returns \c bool,
+         * returning \c false stops iteration early.
+         *
+         * \sa each_reversed(), for_each()
+         */
+        template <typename F_>
+        auto for_each_reversed(F_ && f) const -> void
+        {
+            for (auto lu = intervals.rbegin(); lu != intervals.rend(); ++lu)
+                for (Int_ i = lu->second; i >= lu->first; --i) {
+                    if constexpr (std::is_void_v<std::invoke_result_t<F_ &, Int_>>)
+                        f(i);
+                    else if (! f(i))
+                        return;
+                }
+        }
+
         ///@}
     };
 }
-- 
2.43.0


From baff2c95f7561a457cd92cfa885f1c5227dd3b2c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:42:02 +0000
Subject: [PATCH 14/34] fix: keep the proof stream's buffer alive for as long
 as the stream

---
 gcs/innards/proofs/proof_logger.cc | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/gcs/innards/proofs/proof_logger.cc b/gcs/innards/proofs/proof_logger.cc
index f9d4520..30e995c 100644
--- a/gcs/innards/proofs/proof_logger.cc
+++ b/gcs/innards/proofs/proof_logger.cc
@@ -178,11 +178,13 @@ struct ProofLogger::Imp
     deque<IntervalSet<long long>> proof_lines_by_level;
 
     string proof_file;
-    fstream proof;
     // A proof is many short lines; the default stream buffer makes for a
     // write syscall every few KB, which shows up at this volume. Installed
-    // via pubsetbuf before open in start_proof.
+    // via pubsetbuf before open in start_proof. Declared ahead of the stream,
+    // which still writes from it when it is destroyed with the proof
+    // unfinished, as happens when an exception ends the search.
     vector<char> proof_stream_buffer;
+    fstream proof;
     int current_indent = 0;
     AssertionLevel assertion_level;
 
-- 
2.43.0


From 823e3da14eff35c4444e37892c7f5084ffe30d1b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:46:07 +0000
Subject: [PATCH 15/34] fix: log the objective improving line over the
 objective's own bits

---
 gcs/innards/proofs/proof_logger.cc | 11 ++++++++++-
 1 file changed, 10 insertions(+), 1 deletion(-)

diff --git a/gcs/innards/proofs/proof_logger.cc b/gcs/innards/proofs/proof_logger.cc
index 30e995c..d403a01 100644
--- a/gcs/innards/proofs/proof_logger.cc
+++ b/gcs/innards/proofs/proof_logger.cc
@@ -22,6 +22,7 @@
 #include <fstream>
 #include <optional>
 #include <sstream>
+#include <type_traits>
 
 #include <variant>
 #include <version>
@@ -312,7 +313,15 @@ auto ProofLogger::solution(const vector<pair<IntegerVariableID, Integer>> & all_
         visit(
             [&](const auto & id) {
                 _imp->proof << "e ";
-                emit_inequality_to(names_and_ids_tracker(), WPBSum{} + 1_i * id <= optional_minimise_variable_and_value->second - 1_i, _imp->proof);
+                // This has to be over the same bits as the min: line. A plain
+                // negation is written there over its underlying variable (see
+                // ProofModel::write_preamble), even if a constraint has since
+                // had the same view registered with bits of its own.
+                auto objective = WPBSum{} + 1_i * id;
+                if constexpr (std::is_same_v<std::decay_t<decltype(id)>, ViewOfIntegerVariableID>)
+                    if (id.negate_first && id.then_add == 0_i)
+                        objective = WPBSum{} + -1_i * IntegerVariableID{id.actual_variable};
+                emit_inequality_to(names_and_ids_tracker(), objective <= optional_minimise_variable_and_value->second - 1_i, _imp->proof);
                 _imp->proof << ":" << relative_proof_line(_imp->proof_line, _imp->proof_line.number) << ";\n";
 
                 emit_rup_proof_line(WPBSum{} + 1_i * (id < optional_minimise_variable_and_value->second) >= 1_i, ProofLevel::Top);
-- 
2.43.0


From 72b6ff9d449da719bfe9bc3b01c8d24e119ba537 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:48:02 +0000
Subject: [PATCH 16/34] fix: do not ask for the bounds of the objective if the
 root is infeasible

---
 gcs/solve.cc | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/gcs/solve.cc b/gcs/solve.cc
index 756cfec..5d4bea5 100644
--- a/gcs/solve.cc
+++ b/gcs/solve.cc
@@ -371,8 +371,9 @@ auto gcs::solve_with(
         }
     }
 
+    // If the root is already infeasible, the objective may have no values left.
     Integer objective_lower_bound_for_proof = 0_i;
-    if (optional_proof && problem.optional_minimise_variable())
+    if (initialisation_success && presolve_success && optional_proof && problem.optional_minimise_variable())
         objective_lower_bound_for_proof = state.lower_bound(*problem.optional_minimise_variable());
 
     if (initialisation_success && presolve_success) {
-- 
2.43.0


From 8d7f4de21132bce099f8d2759b618884618d226c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:49:55 +0000
Subject: [PATCH 17/34] fix: name ArgSort's sorted values after the constraint
 in proofs

---
 gcs/constraints/sort/arg_sort.cc | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/gcs/constraints/sort/arg_sort.cc b/gcs/constraints/sort/arg_sort.cc
index 9d81d59..d0c3d22 100644
--- a/gcs/constraints/sort/arg_sort.cc
+++ b/gcs/constraints/sort/arg_sort.cc
@@ -127,8 +127,11 @@ auto ArgSort::define_proof_model(ProofModel & model, const State &) -> void
     // when the range is non-negative), with no OPB bound lines. Name y's bits to
     // match, so the in-proof introduction of y's atoms lines up with cake's.
     vector<IntegerVariableID> y_ids{_y.begin(), _y.end()};
+    // The name has the constraint's id in it because atoms over y are named
+    // after it, and there may be more than one ArgSort.
     for (size_t j = 0; j < _y.size(); ++j)
-        model.set_up_integer_variable(_y[j], _lowest_x, _highest_x, "argsort_y_" + std::to_string(j), IntegerVariableProofRepresentation::Bits,
+        model.set_up_integer_variable(_y[j], _lowest_x, _highest_x, "argsort_y_" + as_string(_constraint_id) + "_" + std::to_string(j),
+            IntegerVariableProofRepresentation::Bits,
             CakeBitNaming{.id = _constraint_id,
                 .indices = {static_cast<long long>(j)},
                 .value_annotation = "y",
-- 
2.43.0


From 5bbe3df128dd884d7028f507f1d2a61565f8f20d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:56:38 +0000
Subject: [PATCH 18/34] fix: leave constants out of GlobalCardinality's
 at-most-one proof steps

---
 .../global_cardinality/bounds_global_cardinality.cc         | 6 ++++++
 gcs/constraints/global_cardinality/justify.cc               | 3 +++
 2 files changed, 9 insertions(+)

diff --git a/gcs/constraints/global_cardinality/bounds_global_cardinality.cc b/gcs/constraints/global_cardinality/bounds_global_cardinality.cc
index 7abbd29..f0be6ba 100644
--- a/gcs/constraints/global_cardinality/bounds_global_cardinality.cc
+++ b/gcs/constraints/global_cardinality/bounds_global_cardinality.cc
@@ -303,6 +303,9 @@ auto gcs::innards::propagate_bounds_global_cardinality(const vector<IntegerVaria
                                 auto & tracker = logger->names_and_ids_tracker();
                                 PolBuilder pb;
                                 for (const auto & var : potential) {
+                                    // A constant's atoms are already folded into the count lines.
+                                    if (holds_alternative<ConstantIntegerVariableID>(var))
+                                        continue;
                                     vector<IntegerVariableCondition> atoms;
                                     for (std::size_t v = a; v <= b; ++v)
                                         atoms.push_back(var == values[v]);
@@ -360,6 +363,9 @@ auto gcs::innards::propagate_bounds_global_cardinality(const vector<IntegerVaria
                         pb.add_for_literal(tracker, counts[v] >= state.bounds(counts[v]).first);
                 }
                 for (const auto & var : potential) {
+                    // A constant's atoms are already folded into the count lines.
+                    if (holds_alternative<ConstantIntegerVariableID>(var))
+                        continue;
                     vector<IntegerVariableCondition> atoms;
                     for (std::size_t v = a; v <= b; ++v)
                         atoms.push_back(var == values[v]);
diff --git a/gcs/constraints/global_cardinality/justify.cc b/gcs/constraints/global_cardinality/justify.cc
index e5e3ccb..48dec16 100644
--- a/gcs/constraints/global_cardinality/justify.cc
+++ b/gcs/constraints/global_cardinality/justify.cc
@@ -75,6 +75,9 @@ auto gcs::innards::emit_gcc_demand_pol(ProofLogger & logger, const State & state
     }
     (void)vars;
     for (const auto & var : potential) {
+        // A constant's atoms are already folded into the count lines.
+        if (holds_alternative<ConstantIntegerVariableID>(var))
+            continue;
         vector<IntegerVariableCondition> atoms;
         for (const auto & val : hall)
             atoms.push_back(var == val);
-- 
2.43.0


From 84e14185c8e900f7689a63f0729be6e37e7ed49c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:59:35 +0000
Subject: [PATCH 19/34] fix: bounds consistent Element's reason holds for
 entries outside the result's range

---
 gcs/constraints/element/element.cc | 13 +++++++++++--
 1 file changed, 11 insertions(+), 2 deletions(-)

diff --git a/gcs/constraints/element/element.cc b/gcs/constraints/element/element.cc
index 0d7ac26..d99fc93 100644
--- a/gcs/constraints/element/element.cc
+++ b/gcs/constraints/element/element.cc
@@ -515,8 +515,17 @@ auto NDimensionalElement<EntryType_, dimensions_>::install_propagators_impl(Prop
                     Reason reason;
                     if (inference.want_reasons()) {
                         ReasonLiterals extra;
-                        for (const auto & var : considered_vars)
-                            extra.push_back(ge ? (var >= relevant_bound) : (var <= relevant_bound));
+                        for (const auto & var : considered_vars) {
+                            // An entry which has nothing in the result's range did not
+                            // count towards the bound, and need not respect it.
+                            auto var_bounds = state.bounds(var);
+                            if (var_bounds.first > current_bounds.second)
+                                extra.push_back(var > current_bounds.second);
+                            else if (var_bounds.second < current_bounds.first)
+                                extra.push_back(var < current_bounds.first);
+                            else
+                                extra.push_back(ge ? (var >= relevant_bound) : (var <= relevant_bound));
+                        }
                         extra.push_back(result_var >= current_bounds.first);
                         extra.push_back(result_var <= current_bounds.second);
                         reason = with_extra(generic_reason(vector<IntegerVariableID>{index_vars.begin(), index_vars.end()}), std::move(extra));
-- 
2.43.0


From 09c5dcf376c0148b05edb0974ed5a2e5d5351174 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:22:26 +0000
Subject: [PATCH 20/34] fix: closing a proof, variables map or s-expression
 file reports a failure rather than dropping it

---
 gcs/innards/proofs/names_and_ids_tracker.cc | 1 +
 gcs/innards/proofs/proof_logger.cc          | 4 +++-
 gcs/innards/proofs/scp_writer.cc            | 1 +
 3 files changed, 5 insertions(+), 1 deletion(-)

diff --git a/gcs/innards/proofs/names_and_ids_tracker.cc b/gcs/innards/proofs/names_and_ids_tracker.cc
index bfb8ccc..012322e 100644
--- a/gcs/innards/proofs/names_and_ids_tracker.cc
+++ b/gcs/innards/proofs/names_and_ids_tracker.cc
@@ -420,6 +420,7 @@ auto NamesAndIDsTracker::finalise() -> void
     if (_imp->variables_map_file) {
         try {
             *_imp->variables_map_file << "\n}\n";
+            _imp->variables_map_file->close();
         }
         catch (const ios_base::failure &) {
             throw ProofError{"Error writing proof variables mapping file to '" + _imp->variables_map_file_name + "'"};
diff --git a/gcs/innards/proofs/proof_logger.cc b/gcs/innards/proofs/proof_logger.cc
index d403a01..d2db2e2 100644
--- a/gcs/innards/proofs/proof_logger.cc
+++ b/gcs/innards/proofs/proof_logger.cc
@@ -364,8 +364,10 @@ auto ProofLogger::end_proof() -> void
     _imp->proof << "end pseudo-Boolean proof;\n";
 
     // this is mostly for tests: we haven't necessarily destroyed the
-    // Problem before running the verifier.
+    // Problem before running the verifier. It is also the last chance to hear
+    // that what was written has not reached the file.
     _imp->proof << flush;
+    _imp->proof.close();
 }
 
 auto ProofLogger::conclude_unsatisfiable(bool is_optimisation) -> void
diff --git a/gcs/innards/proofs/scp_writer.cc b/gcs/innards/proofs/scp_writer.cc
index 82a3851..8f2fff3 100644
--- a/gcs/innards/proofs/scp_writer.cc
+++ b/gcs/innards/proofs/scp_writer.cc
@@ -63,6 +63,7 @@ auto gcs::innards::write_scp(const string & file_name, const Problem & problem,
         else
             println(s_expr, "    (prob_type enumerate)");
         println(s_expr, ")");
+        s_expr.close();
     }
     catch (const ios_base::failure &) {
         throw ProofError{"Error writing proof s-expr file to '" + file_name + "'"};
-- 
2.43.0


From 8e6dd909aa7e847b78a86d38469d44737b89541e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:22:26 +0000
Subject: [PATCH 21/34] fix: glasgow_regular in the FlatZinc front end honours
 a start state other than 1

---
 minizinc/fzn_glasgow.cc | 25 +++++++++++--------------
 1 file changed, 11 insertions(+), 14 deletions(-)

diff --git a/minizinc/fzn_glasgow.cc b/minizinc/fzn_glasgow.cc
index 67ce3da..fd97b21 100644
--- a/minizinc/fzn_glasgow.cc
+++ b/minizinc/fzn_glasgow.cc
@@ -957,28 +957,25 @@ auto main(int argc, char * argv[]) -> int
                 const auto & raw_transitions = arg_as_array_of_integer(data, args, 3);
                 const auto & start_state = static_cast<long long>(args.at(4));
 
-                vector<vector<long>> transitions;
-                for (int i = 0; i < num_states; i++) {
-                    transitions.emplace_back();
+                // gcs::Regular always starts in state 0, so renumber: swap state 1 and
+                // the start state, and everything else moves down by one.
+                auto renumbered = [&](long long state) -> long {
+                    return static_cast<long>(state == start_state ? 0 : state == 1 ? start_state - 1 : state - 1);
+                };
+
+                vector<vector<long>> transitions(num_states);
+                for (int i = 0; i < num_states; i++)
                     for (int j = 0; j < num_symbols; j++) {
-                        // Swap 0 and start state to ensure start state is always 0 for gcs::regular
+                        // A target of 0 is the failing state, which becomes -1.
                         auto t_value = raw_transitions->at(i * num_symbols + j).raw_value;
-                        if (t_value == start_state) {
-                            transitions[i].emplace_back(0);
-                        }
-                        else if (t_value == 1) {
-                            transitions[i].emplace_back(start_state - 1);
-                        }
-                        else
-                            transitions[i].emplace_back(t_value - 1);
+                        transitions.at(renumbered(i + 1)).emplace_back(t_value == 0 ? -1 : renumbered(t_value));
                     }
-                }
 
                 const auto & final_states = arg_as_set_of_integer(data, args, 5);
                 vector<long> final_states_raw{};
                 for (long i = 1; i < num_states + 1; i++) {
                     if (final_states.contains(Integer{i})) {
-                        final_states_raw.emplace_back(i - 1);
+                        final_states_raw.emplace_back(renumbered(i));
                     }
                 }
 
-- 
2.43.0


From 3cf527c4dc35b20e72e1e15e8fd588428eb36dcd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:08:26 +0000
Subject: [PATCH 22/34] fix: a proof's scaffolding scope which cannot write
 when it ends reports that rather than ending the process

---
 gcs/innards/proofs/proof_scaffolding_scope.cc | 21 +++++++++++++++----
 gcs/innards/proofs/proof_scaffolding_scope.hh |  9 ++++++--
 2 files changed, 24 insertions(+), 6 deletions(-)

diff --git a/gcs/innards/proofs/proof_scaffolding_scope.cc b/gcs/innards/proofs/proof_scaffolding_scope.cc
index 71aa504..63df2d2 100644
--- a/gcs/innards/proofs/proof_scaffolding_scope.cc
+++ b/gcs/innards/proofs/proof_scaffolding_scope.cc
@@ -1,9 +1,14 @@
 #include <gcs/innards/proofs/proof_logger.hh>
 #include <gcs/innards/proofs/proof_scaffolding_scope.hh>
 
+#include <exception>
+
 using namespace gcs::innards;
 
-ProofScaffoldingScope::ProofScaffoldingScope(ProofLogger & logger) : _logger(logger), _saved(logger.proof_level())
+using std::uncaught_exceptions;
+
+ProofScaffoldingScope::ProofScaffoldingScope(ProofLogger & logger) :
+    _logger(logger), _saved(logger.proof_level()), _uncaught_exceptions(uncaught_exceptions())
 {
     _logger.enter_proof_level(_saved + 1);
 }
@@ -16,8 +21,16 @@ auto ProofScaffoldingScope::restore() -> void
     }
 }
 
-ProofScaffoldingScope::~ProofScaffoldingScope()
+ProofScaffoldingScope::~ProofScaffoldingScope() noexcept(false)
 {
-    restore();
-    _logger.forget_proof_level(_saved + 2);
+    try {
+        restore();
+        _logger.forget_proof_level(_saved + 2);
+    }
+    catch (...) {
+        // If something has been thrown already, that is what the caller has to
+        // hear about.
+        if (uncaught_exceptions() == _uncaught_exceptions)
+            throw;
+    }
 }
diff --git a/gcs/innards/proofs/proof_scaffolding_scope.hh b/gcs/innards/proofs/proof_scaffolding_scope.hh
index 3439c07..b589e8b 100644
--- a/gcs/innards/proofs/proof_scaffolding_scope.hh
+++ b/gcs/innards/proofs/proof_scaffolding_scope.hh
@@ -33,12 +33,17 @@ namespace gcs::innards
     {
     private:
         ProofLogger & _logger;
-        int _saved;
+        int _saved, _uncaught_exceptions;
         bool _restored = false;
 
     public:
         explicit ProofScaffoldingScope(ProofLogger &);
-        ~ProofScaffoldingScope();
+
+        /**
+         * Deleting the working writes to the proof, which can fail, so the
+         * destructor may throw; it does not if it is itself part of unwinding.
+         */
+        ~ProofScaffoldingScope() noexcept(false);
 
         ProofScaffoldingScope(const ProofScaffoldingScope &) = delete;
         auto operator=(const ProofScaffoldingScope &) -> ProofScaffoldingScope & = delete;
-- 
2.43.0


From bc78fb2f74a3364712ae07c8648191673d351aca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:08:26 +0000
Subject: [PATCH 23/34] fix: a lexicographic comparison which must not hold if
 a condition does justifies the condition's negation under the right condition

---
 gcs/constraints/lex/lex.cc | 20 ++++++++++++--------
 1 file changed, 12 insertions(+), 8 deletions(-)

diff --git a/gcs/constraints/lex/lex.cc b/gcs/constraints/lex/lex.cc
index 9a01f11..0233311 100644
--- a/gcs/constraints/lex/lex.cc
+++ b/gcs/constraints/lex/lex.cc
@@ -30,6 +30,7 @@
 
 using std::any_cast;
 using std::get;
+using std::holds_alternative;
 using std::make_shared;
 using std::min;
 using std::move;
@@ -277,8 +278,8 @@ namespace
     auto run_lex_undecided_detection(const State & state, ProofLogger * const, const vector<IntegerVariableID> & vars_1,
         const vector<IntegerVariableID> & vars_2, bool or_equal, const shared_ptr<vector<optional<ProofFlag>>> & prefix_equal_gt_flags,
         const shared_ptr<vector<ProofFlag>> & decision_at_gt_flags, const shared_ptr<vector<optional<ProofFlag>>> & prefix_equal_lt_flags,
-        const shared_ptr<vector<ProofFlag>> & decision_at_lt_flags, const IntegerVariableCondition & cond, const ConstraintID & owner)
-        -> ReificationVerdictFor<JustifyExplicitly<hints::LexUnsatScaffold>>
+        const shared_ptr<vector<ProofFlag>> & decision_at_lt_flags, const IntegerVariableCondition & cond, bool negation_under_cond,
+        const ConstraintID & owner) -> ReificationVerdictFor<JustifyExplicitly<hints::LexUnsatScaffold>>
     {
         auto n1 = vars_1.size();
         auto n2 = vars_2.size();
@@ -334,12 +335,14 @@ namespace
         // therefore lives under that negation: the opposite-direction
         // encoding's at-least-one is then active, and the bounds force
         // every aux flag to FALSE, violating it. We pre-emit those
-        // ~aux_flag lines so VeriPB's PB unit propagation can chain.
+        // ~aux_flag lines so VeriPB's PB unit propagation can chain. The
+        // encoding of the negation is active under !cond for Iff, but under
+        // cond for NotIf, where it is !cond that is inferred.
         if (definitely_holds) {
-            auto reason_under_cond_false = reason;
-            reason_under_cond_false.push_back(! cond);
+            auto reason_under_negation = reason;
+            reason_under_negation.push_back(negation_under_cond ? cond : ! cond);
             return reification_verdict::MustHold<JustifyExplicitly<hints::LexUnsatScaffold>>{
-                .justification = JustifyExplicitly{hints::LexUnsatScaffold{{owner}, &state, std::move(reason_under_cond_false), vars_2, vars_1, n,
+                .justification = JustifyExplicitly{hints::LexUnsatScaffold{{owner}, &state, std::move(reason_under_negation), vars_2, vars_1, n,
                                                        prefix_equal_lt_flags, decision_at_lt_flags},
                     ThenRUP::Yes},          //
                 .reason = std::move(reason) //
@@ -569,10 +572,11 @@ auto LexCompareGreaterThanOrMaybeEqual::install_propagators(Propagators & propag
     auto infer_cond_when_undecided = [vars_1 = move(_vars_1), vars_2 = move(_vars_2), or_equal, prefix_equal_gt_flags = _prefix_equal_gt_flags,
                                          decision_at_gt_flags = _decision_at_gt_flags, prefix_equal_lt_flags = _prefix_equal_lt_flags,
                                          decision_at_lt_flags = _decision_at_lt_flags,
-                                         owner = constraint_id()](const State & state, auto &, ProofLogger * const logger,
+                                         negation_under_cond = holds_alternative<reif::NotIf>(_reif_cond), owner = constraint_id()](
+                                         const State & state, auto &, ProofLogger * const logger,
                                          const IntegerVariableCondition & cond) -> ReificationVerdictFor<JustifyExplicitly<hints::LexUnsatScaffold>> {
         return run_lex_undecided_detection(state, logger, vars_1, vars_2, or_equal, prefix_equal_gt_flags, decision_at_gt_flags,
-            prefix_equal_lt_flags, decision_at_lt_flags, cond, owner);
+            prefix_equal_lt_flags, decision_at_lt_flags, cond, negation_under_cond, owner);
     };
 
     install_reified_dispatcher(propagators, constraint_id(), _evaluated_cond, _reif_cond, triggers, std::move(enforce_constraint_must_hold),
-- 
2.43.0


From e0f838c46e60af8e9ecabb91bc2780a13eb4e63f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:14:14 +0000
Subject: [PATCH 24/34] fix: an empty Circuit no longer reads past the end of
 its lists

---
 gcs/constraints/circuit/circuit.cc | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/gcs/constraints/circuit/circuit.cc b/gcs/constraints/circuit/circuit.cc
index e4bb6e7..418e497 100644
--- a/gcs/constraints/circuit/circuit.cc
+++ b/gcs/constraints/circuit/circuit.cc
@@ -121,6 +121,10 @@ auto Circuit::with_short_reasons(optional<bool> enable) -> Circuit &
 
 auto Circuit::prepare(Propagators & propagators, State & initial_state, ProofModel * const model) -> bool
 {
+    // With nothing to visit there is nothing to enforce, and no node to start from.
+    if (_succ.empty())
+        return false;
+
     // Can't have negative values
     for (const auto & s : _succ)
         propagators.define_bound(initial_state, model, s, Bound::Lower, 0_i);
-- 
2.43.0


From 19a6b92e17f50936878cfcd626b7518894abcbd8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:14:14 +0000
Subject: [PATCH 25/34] fix: post_linear_greater_equal_iff in the Python
 interface posted the opposite comparison

---
 python/gcspy.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/python/gcspy.cc b/python/gcspy.cc
index 459096f..8de1c3c 100644
--- a/python/gcspy.cc
+++ b/python/gcspy.cc
@@ -591,7 +591,7 @@ auto Python::post_linear_greater_equal_iff(
 #ifdef WRITE_API_CALLS
     api_calls << "post_linear_greater_equal_iff" << endl;
 #endif
-    p.post(LinearLessThanEqualIff{(make_linear(var_ids, coeffs)), Integer{value}, get_var(reif) != 0_i});
+    p.post(LinearGreaterThanEqualIff{(make_linear(var_ids, coeffs)), Integer{value}, get_var(reif) != 0_i});
 }
 
 auto Python::post_linear_not_equal(const vector<string> & var_ids, const vector<long long int> & coeffs, long long int value) -> void
-- 
2.43.0


From 64eeb3682c5c74eefc802d4c11189a2550614d73 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:14:14 +0000
Subject: [PATCH 26/34] fix: the Python interface checks what a proof needs
 before it starts the timeout thread

---
 python/gcspy.cc | 14 +++++++-------
 1 file changed, 7 insertions(+), 7 deletions(-)

diff --git a/python/gcspy.cc b/python/gcspy.cc
index 8de1c3c..ef8ab2f 100644
--- a/python/gcspy.cc
+++ b/python/gcspy.cc
@@ -119,6 +119,13 @@ auto Python::solve(bool all_solutions, optional<float> timeout, optional<unsigne
     api_calls << "solve" << endl;
 #endif
 
+    if (prove) {
+        if (! proof_name)
+            throw pybind11::value_error("Glasgow Constraint Solver: prove is true but no proof_name provided");
+        if (! proof_location)
+            throw pybind11::value_error("Glasgow Constraint Solver: prove is true but no proof_location provided");
+    }
+
     abort_flag.store(false);
     was_terminated.store(false);
 
@@ -151,13 +158,6 @@ auto Python::solve(bool all_solutions, optional<float> timeout, optional<unsigne
         });
     }
 
-    if (prove) {
-        if (! proof_name)
-            throw pybind11::value_error("Glasgow Constraint Solver: prove is true but no proof_name provided");
-        if (! proof_location)
-            throw pybind11::value_error("Glasgow Constraint Solver: prove is true but no proof_location provided");
-    }
-
     try {
         auto stats = solve_with(p, //
             SolveCallbacks{        //
-- 
2.43.0


From dd226f3e2fc77771d2ab1cb4486f406480e32dee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:14:14 +0000
Subject: [PATCH 27/34] fix: get_solution_value in the Python interface rejects
 solutions which do not exist

---
 python/gcspy.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/python/gcspy.cc b/python/gcspy.cc
index ef8ab2f..3ada92b 100644
--- a/python/gcspy.cc
+++ b/python/gcspy.cc
@@ -232,7 +232,7 @@ auto Python::get_solution_value(const string & var_id, const long long solution_
         if (solution_number < 0) {
             actual_solution_number = solution_values.size() + solution_number;
         }
-        auto sol_val = solution_values[actual_solution_number].at(var);
+        auto sol_val = solution_values.at(actual_solution_number).at(var);
         return sol_val;
     }
     catch (const std::out_of_range & e) {
-- 
2.43.0


From 5e6849c5a64d58611189268e69a1bac9298cd353 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:14:14 +0000
Subject: [PATCH 28/34] fix: recording calls of the Python interface no longer
 reads outside empty or mismatched lists

---
 python/gcspy.cc | 21 +++++++++++----------
 1 file changed, 11 insertions(+), 10 deletions(-)

diff --git a/python/gcspy.cc b/python/gcspy.cc
index 3ada92b..fa68927 100644
--- a/python/gcspy.cc
+++ b/python/gcspy.cc
@@ -307,9 +307,9 @@ auto Python::post_alldifferent(const vector<std::string> & var_ids) -> void
 {
 #ifdef WRITE_API_CALLS
     api_calls << "p.post(AllDifferent{{";
-    for (size_t i = 0; i < var_ids.size() - 1; ++i)
-        api_calls << "v" << var_ids[i] << ", ";
-    api_calls << "v" << var_ids.back() << "}});" << endl;
+    for (size_t i = 0; i < var_ids.size(); ++i)
+        api_calls << (i ? ", v" : "v") << var_ids[i];
+    api_calls << "}});" << endl;
 #endif
     p.post(AllDifferent{get_vars(var_ids)});
 }
@@ -318,9 +318,9 @@ auto Python::post_circuit(const vector<std::string> & var_ids) -> void
 {
 #ifdef WRITE_API_CALLS
     api_calls << "p.post(Circuit{{";
-    for (size_t i = 0; i < var_ids.size() - 1; ++i)
-        api_calls << "v" << var_ids[i] << ", ";
-    api_calls << "v" << var_ids.back() << "}});" << endl;
+    for (size_t i = 0; i < var_ids.size(); ++i)
+        api_calls << (i ? ", v" : "v") << var_ids[i];
+    api_calls << "}});" << endl;
 #endif
     p.post(Circuit{get_vars(var_ids)});
 }
@@ -540,6 +540,7 @@ auto Python::post_in_vars(const string & var_id, const vector<string> & var_ids)
 
 auto Python::post_linear_equality(const vector<string> & var_ids, const vector<long long int> & coeffs, long long int value) -> void
 {
+    auto linear = make_linear(var_ids, coeffs);
 #ifdef WRITE_API_CALLS
     api_calls << "p.post(LinearEquality{WeightedSum{}";
     for (size_t i = 0; i < var_ids.size(); ++i)
@@ -548,7 +549,7 @@ auto Python::post_linear_equality(const vector<string> & var_ids, const vector<l
     api_calls << ", " << value << "_i"
               << "});" << endl;
 #endif
-    p.post(LinearEquality{(make_linear(var_ids, coeffs)), Integer{value}});
+    p.post(LinearEquality{std::move(linear), Integer{value}});
 }
 
 auto Python::post_linear_equality_iff(const vector<string> & var_ids, const vector<long long int> & coeffs, long long int value, const string & reif)
@@ -686,9 +687,9 @@ auto Python::post_min(const vector<string> & var_ids, const string & var_id) ->
 {
 #ifdef WRITE_API_CALLS
     api_calls << "p.post(ArrayMin{{";
-    for (size_t i = 0; i < var_ids.size() - 1; ++i)
-        api_calls << "v" << var_ids[i] << ", ";
-    api_calls << "v" << var_ids.back() << "}, v" << var_id << "});" << endl;
+    for (size_t i = 0; i < var_ids.size(); ++i)
+        api_calls << (i ? ", v" : "v") << var_ids[i];
+    api_calls << "}, v" << var_id << "});" << endl;
 #endif
     p.post(ArrayMin(get_vars(var_ids), get_var(var_id)));
 }
-- 
2.43.0


From 1873eaa74ed5496ec358414b88e5758ac475bdcf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:14:14 +0000
Subject: [PATCH 29/34] fix: bind post_linear_less_equal_iff in the Python
 interface

---
 python/gcspy.cc | 1 +
 1 file changed, 1 insertion(+)

diff --git a/python/gcspy.cc b/python/gcspy.cc
index fa68927..1649fab 100644
--- a/python/gcspy.cc
+++ b/python/gcspy.cc
@@ -810,6 +810,7 @@ PYBIND11_MODULE(gcspy, m)
         .def("post_linear_equality", &Python::post_linear_equality)
         .def("post_linear_equality_iff", &Python::post_linear_equality_iff)
         .def("post_linear_less_equal", &Python::post_linear_less_equal)
+        .def("post_linear_less_equal_iff", &Python::post_linear_less_equal_iff)
         .def("post_linear_greater_equal", &Python::post_linear_greater_equal)
         .def("post_linear_greater_equal_iff", &Python::post_linear_greater_equal_iff)
         .def("post_linear_not_equal", &Python::post_linear_not_equal)
-- 
2.43.0


From 2b4c4e7ddb50a18ddbf424e9a825f338677dda73 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:14:14 +0000
Subject: [PATCH 30/34] fix: the XCSP front end rejects an unknown --branch
 before it starts the timeout thread

---
 xcsp/xcsp_glasgow_constraint_solver.cc | 13 +++++++------
 1 file changed, 7 insertions(+), 6 deletions(-)

diff --git a/xcsp/xcsp_glasgow_constraint_solver.cc b/xcsp/xcsp_glasgow_constraint_solver.cc
index 5d5e67c..dcf4052 100644
--- a/xcsp/xcsp_glasgow_constraint_solver.cc
+++ b/xcsp/xcsp_glasgow_constraint_solver.cc
@@ -1971,6 +1971,13 @@ auto main(int argc, char * argv[]) -> int
 
     optional<CurrentState> saved_solution;
 
+    // Before there is a timeout thread, which nobody would join.
+    auto brancher = brancher_from_string(options_vars["branch"].as<string>(), problem);
+    if (! brancher) {
+        cerr << "Error: unknown --branch value " << options_vars["branch"].as<string>() << endl;
+        return EXIT_FAILURE;
+    }
+
     signal(SIGINT, &sig_int_or_term_handler);
     signal(SIGTERM, &sig_int_or_term_handler);
 
@@ -2000,12 +2007,6 @@ auto main(int argc, char * argv[]) -> int
         });
     }
 
-    auto brancher = brancher_from_string(options_vars["branch"].as<string>(), problem);
-    if (! brancher) {
-        cerr << "Error: unknown --branch value " << options_vars["branch"].as<string>() << endl;
-        return EXIT_FAILURE;
-    }
-
     auto restarts =
         options_vars.contains("restarts") ? make_optional(RestartSchedule::luby(options_vars["restarts"].as<unsigned long long>())) : nullopt;
 
-- 
2.43.0


From 60648172d999363db8416730258a3f781ad0e0cd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:14:15 +0000
Subject: [PATCH 31/34] fix: sum with a ne condition in the XCSP front end lost
 solutions for large right hand sides

---
 xcsp/xcsp_glasgow_constraint_solver.cc | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/xcsp/xcsp_glasgow_constraint_solver.cc b/xcsp/xcsp_glasgow_constraint_solver.cc
index dcf4052..6b569da 100644
--- a/xcsp/xcsp_glasgow_constraint_solver.cc
+++ b/xcsp/xcsp_glasgow_constraint_solver.cc
@@ -1211,8 +1211,15 @@ namespace
             Integer bound = 0_i;
             switch (cond.operandType) {
                 using enum OperandType;
-            case VARIABLE: cvs += -1_i * need_variable(cond.var); break;
-            case INTEGER: bound = Integer{cond.val}; break;
+            case VARIABLE: {
+                auto & mv = find_variable(cond.var);
+                cvs += -1_i * need_variable(cond.var);
+                range += max(abs(mv.lower), abs(mv.upper));
+            } break;
+            case INTEGER:
+                bound = Integer{cond.val};
+                range += abs(bound);
+                break;
             case INTERVAL: report_unsupported("sum", "interval condition");
             case SET: report_unsupported("sum", "set condition");
             }
-- 
2.43.0


From e57351ae42cc3a83293190a8bac9b45d7ca25ea5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:14:15 +0000
Subject: [PATCH 32/34] fix: the XCSP front end accepts comparisons of a
 variable with itself

---
 xcsp/xcsp_glasgow_constraint_solver.cc | 24 ++++++++++++++++++------
 1 file changed, 18 insertions(+), 6 deletions(-)

diff --git a/xcsp/xcsp_glasgow_constraint_solver.cc b/xcsp/xcsp_glasgow_constraint_solver.cc
index 6b569da..2632ec1 100644
--- a/xcsp/xcsp_glasgow_constraint_solver.cc
+++ b/xcsp/xcsp_glasgow_constraint_solver.cc
@@ -1300,6 +1300,18 @@ namespace
 
         // -------- intension tree walking --------
 
+        // The comparison constraints reject being given the same variable twice,
+        // but an instance may compare a variable with itself: give the second
+        // operand a name of its own.
+        auto other_operand(const ExprResult & a, const ExprResult & b) -> IntegerVariableID
+        {
+            if (a.var != b.var)
+                return b.var;
+            auto r = create_aux_variable(b.lower, b.upper, "sameoperand");
+            _problem.post(Equals{r, b.var});
+            return r;
+        }
+
         // Helper for binary relational operators inside an expression: walks
         // both children and posts the corresponding *Iff reification with
         // a fresh 0/1 control variable.
@@ -1309,7 +1321,7 @@ namespace
             auto a = walk_intension(node->parameters.at(0));
             auto b = walk_intension(node->parameters.at(1));
             auto control = create_aux_variable(0_i, 1_i, name);
-            _problem.post(Constraint_{a.var, b.var, control == 1_i});
+            _problem.post(Constraint_{a.var, other_operand(a, b), control == 1_i});
             return {control, 0_i, 1_i};
         }
 
@@ -1719,7 +1731,7 @@ namespace
                     report_unsupported("intension", "ne with != 2 children");
                 auto a = walk_intension(root->parameters.at(0));
                 auto b = walk_intension(root->parameters.at(1));
-                _problem.post(NotEquals{a.var, b.var});
+                _problem.post(NotEquals{a.var, other_operand(a, b)});
                 return;
             }
             // The four orderings each try the affine peephole first, in the
@@ -1734,7 +1746,7 @@ namespace
                     return;
                 auto a = walk_intension(root->parameters.at(0));
                 auto b = walk_intension(root->parameters.at(1));
-                _problem.post(LessThanEqual{a.var, b.var});
+                _problem.post(LessThanEqual{a.var, other_operand(a, b)});
                 return;
             }
             case OLT: {
@@ -1742,7 +1754,7 @@ namespace
                     return;
                 auto a = walk_intension(root->parameters.at(0));
                 auto b = walk_intension(root->parameters.at(1));
-                _problem.post(LessThan{a.var, b.var});
+                _problem.post(LessThan{a.var, other_operand(a, b)});
                 return;
             }
             case OGT: {
@@ -1750,7 +1762,7 @@ namespace
                     return;
                 auto a = walk_intension(root->parameters.at(0));
                 auto b = walk_intension(root->parameters.at(1));
-                _problem.post(GreaterThan{a.var, b.var});
+                _problem.post(GreaterThan{a.var, other_operand(a, b)});
                 return;
             }
             case OGE: {
@@ -1758,7 +1770,7 @@ namespace
                     return;
                 auto a = walk_intension(root->parameters.at(0));
                 auto b = walk_intension(root->parameters.at(1));
-                _problem.post(GreaterThanEqual{a.var, b.var});
+                _problem.post(GreaterThanEqual{a.var, other_operand(a, b)});
                 return;
             }
             case OOR: {
-- 
2.43.0


From bcd7ce8ae4760f067c46f4347c1f44c59e81517a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:01:55 +0000
Subject: [PATCH 33/34] fix: SmartTable asserts what it infers under the reason
 it infers it for

---
 gcs/constraints/smart_table/smart_table.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/gcs/constraints/smart_table/smart_table.cc b/gcs/constraints/smart_table/smart_table.cc
index 128e3c0..4faa320 100644
--- a/gcs/constraints/smart_table/smart_table.cc
+++ b/gcs/constraints/smart_table/smart_table.cc
@@ -535,7 +535,7 @@ namespace
         else {
             for (const auto & var : vars) {
                 for (const auto & value : unsupported[var]) {
-                    inference.infer_not_equal(logger, var, value, JustifyUsingRUP{hints::SmartTable{owner}}, NoReason{});
+                    inference.infer_not_equal(logger, var, value, JustifyUsingRUP{hints::SmartTable{owner}}, reason);
                 }
             }
         }
-- 
2.43.0


From 2073f2f04f338e0168ed86f6f8e8c2c2b71e5ae7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:01:55 +0000
Subject: [PATCH 34/34] fix: Circuit asserts pruned skips and required edges
 under the reason for them

---
 gcs/constraints/circuit/circuit_scc.cc | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/gcs/constraints/circuit/circuit_scc.cc b/gcs/constraints/circuit/circuit_scc.cc
index 95d01a2..c5b21fd 100644
--- a/gcs/constraints/circuit/circuit_scc.cc
+++ b/gcs/constraints/circuit/circuit_scc.cc
@@ -976,7 +976,7 @@ namespace
                         inference.infer(logger, succ[node] != w, NoJustificationNeeded{}, NoReason{});
                     }
                     else {
-                        inference.infer(logger, succ[node] != w, JustifyUsingRUP{hints::Circuit{owner}}, NoReason{});
+                        inference.infer(logger, succ[node] != w, JustifyUsingRUP{hints::Circuit{owner}}, reason);
                     }
                 }
                 data.lowlink[node] = pos_min(data.lowlink[node], data.visit_number[next_node]);
@@ -1026,7 +1026,7 @@ namespace
                         }
                         else {
 
-                            inference.infer(logger, succ[from_node] == Integer{to_node}, JustifyUsingRUP{hints::Circuit{owner}}, NoReason{});
+                            inference.infer(logger, succ[from_node] == Integer{to_node}, JustifyUsingRUP{hints::Circuit{owner}}, reason);
                         }
                     }
                 }
-- 
2.43.0

