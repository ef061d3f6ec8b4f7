From d98e54b17d3e9eea0c4b34056ee0349c26e5b835 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:21:55 +0000
Subject: [PATCH 01/41] fix: saturation procedures keep their early-termination
 callback alive

The saturation classes stored a reference to the std::function passed to the
constructor. Solver passes lambdas, so the reference was bound to a temporary
that died at the end of the constructor call (stack-use-after-scope).
---
 src/include/pdaaal/internal/PdaSaturation.h | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/include/pdaaal/internal/PdaSaturation.h b/src/include/pdaaal/internal/PdaSaturation.h
index 3c1c1a9..db286a6 100644
--- a/src/include/pdaaal/internal/PdaSaturation.h
+++ b/src/include/pdaaal/internal/PdaSaturation.h
@@ -113,7 +113,7 @@ namespace pdaaal::internal {
         // http://www.lsv.fr/Publis/PAPERS/PDF/schwoon-phd02.pdf (page 42)
 
         p_automaton_t& _automaton;
-        const early_termination_fn2<W>& _early_termination;
+        const early_termination_fn2<W> _early_termination;
         const std::vector<typename PDA<W>::state_t>& _pda_states;
         const size_t _n_pda_states;
         const size_t _n_automaton_states;
@@ -355,7 +355,7 @@ namespace pdaaal::internal {
         // http://www.lsv.fr/Publis/PAPERS/PDF/schwoon-phd02.pdf (page 48)
 
         p_automaton_t& _automaton;
-        const early_termination_fn<W>& _early_termination;
+        const early_termination_fn<W> _early_termination;
         const std::vector<typename PDA<W>::state_t>& _pda_states;
         const size_t _n_pda_states;
         const size_t _n_Q;
@@ -525,7 +525,7 @@ namespace pdaaal::internal {
 
     private:
         p_automaton_t& _automaton;
-        const early_termination_fn2<W>& _early_termination;
+        const early_termination_fn2<W> _early_termination;
         const std::vector<typename PDA<W>::state_t>& _pda_states;
         const size_t _n_pda_states;
         const size_t _n_Q;
-- 
2.43.0


From 134f0d87c0d06ac16bcd16b6b930fcdb4b728375 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:25:58 +0000
Subject: [PATCH 02/41] fix: initial product states start with best weight zero

_best_weight was left uninitialized, so a configuration with an empty stack
accepted by both automata was compared with an indeterminate value and the
shortest-trace engines could answer 'unreachable'.
---
 src/include/pdaaal/internal/PAutomaton.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/include/pdaaal/internal/PAutomaton.h b/src/include/pdaaal/internal/PAutomaton.h
index 1e765f1..0420482 100644
--- a/src/include/pdaaal/internal/PAutomaton.h
+++ b/src/include/pdaaal/internal/PAutomaton.h
@@ -175,7 +175,7 @@ namespace pdaaal::internal {
             // TODO: Move this out to sub-class IncrementalPAutomaton
             size_t _back_edge_state = std::numeric_limits<size_t>::max(); // Use the back_edge_state to check for existence of a back_edge.
             uint32_t _back_edge_label = std::numeric_limits<uint32_t>::max()-1; // The null value should not equal epsilon (defensive defaults)
-            weight_or_bool_t _best_weight;
+            weight_or_bool_t _best_weight = weight_or_bool_t{}; // Default is weight zero, which is the best weight of the initial states.
 
             state_t(bool accepting, size_t id) : _accepting(accepting), _id(id) {};
 
-- 
2.43.0


From 4f09809a767523cfe9c0b8c1816955534d37958c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:25:58 +0000
Subject: [PATCH 03/41] fix: pre* and dual* shortest search initialize the
 product for shortest traces

They initialized the product without back edges and path weights, so paths
present before saturation were not considered in the shortest-path search.
---
 src/include/pdaaal/Solver.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/include/pdaaal/Solver.h b/src/include/pdaaal/Solver.h
index 8ab4ed5..84bb3fe 100644
--- a/src/include/pdaaal/Solver.h
+++ b/src/include/pdaaal/Solver.h
@@ -83,7 +83,7 @@ namespace pdaaal {
 
         template <Trace_Type trace_type,typename pda_t, typename automaton_t, typename W>
         static bool dual_search_accepts(PAutomatonProduct<pda_t,automaton_t,W>& instance) {
-            if (instance.template initialize_product<true>()) {
+            if (instance.template initialize_product<true,true,trace_type>()) {
                 return true;
             }
             // we could *probably* avoid some dupplication here if the pre/post* algorithms
@@ -181,7 +181,7 @@ namespace pdaaal {
         template <Trace_Type trace_type, typename pda_t, typename automaton_t, typename W>
         static bool pre_star_accepts(PAutomatonProduct<pda_t,automaton_t,W>& instance) {
             instance.enable_pre_star();
-            return instance.initialize_product() ||
+            return instance.template initialize_product<false,true,trace_type>() ||
                    pre_star<trace_type,W,true>(instance.automaton(), [&instance](size_t from, uint32_t label, size_t to, internal::edge_annotation_t<W> trace, const auto& et_param) -> bool {
                         if constexpr (is_weighted<W> && trace_type == Trace_Type::Shortest)
                             return instance.template add_edge_product<true,trace_type>(from, label, to, trace, et_param);
-- 
2.43.0


From e91aee92bcccff23b850f174482d6b05cf0a21bc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:30:49 +0000
Subject: [PATCH 04/41] fix: pre* shortest saturation handles accepting states
 and improved edges

Pop edges of accepting states were inserted while the original edges were
being enumerated, so they were treated as original edges, and the path weight
of an accepting state was never set to zero (assertion failure). When an edge
was improved, only its weight and not its trace was replaced. The popped flag
was also read out of bounds for non-PDA states, and the edge weight was ignored
without early termination.
---
 src/include/pdaaal/internal/PdaSaturation.h | 15 +++++++++++----
 1 file changed, 11 insertions(+), 4 deletions(-)

diff --git a/src/include/pdaaal/internal/PdaSaturation.h b/src/include/pdaaal/internal/PdaSaturation.h
index db286a6..4c435c1 100644
--- a/src/include/pdaaal/internal/PdaSaturation.h
+++ b/src/include/pdaaal/internal/PdaSaturation.h
@@ -176,7 +176,14 @@ namespace pdaaal::internal {
                         } else throw std::logic_error("Shortest traces for void-weights is not supported.");
                     }
                 }
-                if(from->_accepting) add_pop(from->_id);
+            }
+            // Only add pop edges after iterating over the original edges, since add_pop inserts edges into the automaton.
+            for (const auto& from : _automaton.states()) {
+                if (!from->_accepting) continue;
+                if constexpr (W::is_weight && SHORTEST) {
+                    _minpath[from->_id] = solver_weight::zero();
+                }
+                add_pop(from->_id);
             }
         }
 
@@ -194,7 +201,7 @@ namespace pdaaal::internal {
                     _workset.emplace(from, label, to, std::move(res), trace);
                 } else {
                     if(solver_weight::less(weight, it->second.second)) {
-                        it->second.second = std::move(weight);
+                        it->second = std::make_pair(trace, std::move(weight));
                         _workset.emplace(from, label, to, std::move(res), trace);
                     }
                 }
@@ -222,7 +229,7 @@ namespace pdaaal::internal {
 
         weight_t get_pautomata_edge_weight(auto from, auto label, auto to)
         {
-            if constexpr (ET && W::is_weight)
+            if constexpr (SHORTEST && W::is_weight)
                 return  _automaton.get_edge(from, label, to)->second;
             return weight_t{};
         }
@@ -239,7 +246,7 @@ namespace pdaaal::internal {
 
             if constexpr (SHORTEST && W::is_weight) {
                 assert(t._weight != solver_weight::max());
-                if(!_popped[t._from])
+                if(t._from < _n_pda_states && !_popped[t._from])
                     _minpath[t._from] = t._weight;
                 if(solver_weight::less(solver_weight::add(w, _minpath[t._to]), t._weight))
                     return;
-- 
2.43.0


From 5899e90e48e30fa80d435e2713395f5448120aa5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:30:49 +0000
Subject: [PATCH 05/41] fix: shortest search reports a solution found when the
 saturation is exhausted

When the worklist becomes empty the weight of the best accepted path may exceed
the weight of the last worklist edge, in which case the solver answered that
there is no trace although the product has an accepting state.
---
 src/include/pdaaal/Solver.h | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/src/include/pdaaal/Solver.h b/src/include/pdaaal/Solver.h
index 84bb3fe..896e2ff 100644
--- a/src/include/pdaaal/Solver.h
+++ b/src/include/pdaaal/Solver.h
@@ -105,8 +105,7 @@ namespace pdaaal {
                         auto w = internal::solver_weight<W,trace_type>::add(latest_poststar_queue_weight, latest_prestar_queue_weight);*/
                         return instance.template add_initial_edge<trace_type>(from, label, to, trace, /*std::move(w)*/ et_param);
                     }
-                );
-                return false;
+                ) || instance.product_automaton().has_accepting_state(); // The best accepted weight may exceed the last queue weight when the search is exhausted.
             }
             else
             {
@@ -188,7 +187,9 @@ namespace pdaaal {
                         else
                             return instance.add_edge_product(from, label, to, trace);
 
-                   });
+                   })
+                   // If saturation completes, the best accepted weight may exceed the weight of the last edge in the queue.
+                   || instance.product_automaton().has_accepting_state();
             }
 
         template <Trace_Type trace_type, typename W, bool ET=false>
@@ -221,7 +222,8 @@ namespace pdaaal {
                     [&instance](size_t from, uint32_t label, size_t to, internal::edge_annotation_t<W> trace, const auto& et_param) -> bool {
                         return instance.template add_edge_product<true,trace_type>(from, label, to, trace, et_param);
                     });
-                return saturation.run();
+                // If saturation completes, the best accepted weight may exceed the weight of the last edge in the queue.
+                return saturation.run() || instance.product_automaton().has_accepting_state();
             } else if constexpr (trace_type == Trace_Type::Any ||
                                  trace_type == Trace_Type::None) { // TODO: Implement faster no-trace option.
                 internal::PostStarSaturation<W,true> saturation(instance.automaton(),
-- 
2.43.0


From b991e2dd087ad31fac20d25fc9fffe8b92f77121 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:35:18 +0000
Subject: [PATCH 06/41] fix: pre* considers push rules with negative weight

The lookup of the rules into a state started at a default rule with weight
zero, and so it skipped rules pushing the first label with a negative weight.
---
 src/include/pdaaal/internal/PdaSaturation.h | 14 ++++++++++----
 1 file changed, 10 insertions(+), 4 deletions(-)

diff --git a/src/include/pdaaal/internal/PdaSaturation.h b/src/include/pdaaal/internal/PdaSaturation.h
index 4c435c1..45ed151 100644
--- a/src/include/pdaaal/internal/PdaSaturation.h
+++ b/src/include/pdaaal/internal/PdaSaturation.h
@@ -57,6 +57,12 @@ namespace pdaaal::internal {
         }
     };
 
+    // Rules are ordered by their 'to'-state first. Finds the first rule into state 'to' irrespective of the remaining fields (the weight can be less than zero).
+    template <typename rules_t>
+    auto first_rule_into(const rules_t& rules, size_t to) {
+        return std::lower_bound(rules.begin(), rules.end(), to, [](const auto& elem, size_t state) { return elem.first._to < state; });
+    }
+
     template <typename W>
     using early_termination_fn = std::function<bool(size_t,uint32_t,size_t,edge_annotation_t<W>)>;
     template <typename W>
@@ -139,7 +145,7 @@ namespace pdaaal::internal {
             if(_popped[state]) return;
             for (auto pre_state : _pda_states[state]._pre_states) {
                 const auto& rules = _pda_states[pre_state]._rules;
-                auto lb = rules.lower_bound(pda_rule_t<W>{state});
+                auto lb = first_rule_into(rules, state);
                 while (lb != rules.end() && lb->first._to == state) {
                     const auto& [rule, labels] = *lb;
                     size_t rule_id = lb - rules.begin();
@@ -273,7 +279,7 @@ namespace pdaaal::internal {
             if (t._from >= _n_pda_states) { return; }
             for (auto pre_state : _pda_states[t._from]._pre_states) {
                 const auto& rules = _pda_states[pre_state]._rules;
-                auto lb = rules.lower_bound(pda_rule_t<W>{t._from});
+                auto lb = first_rule_into(rules, t._from);
                 while (lb != rules.end() && lb->first._to == t._from) {
                     const auto& [rule, labels] = *lb;
                     size_t rule_id = lb - rules.begin();
@@ -807,7 +813,7 @@ namespace pdaaal::internal {
                 _added_pop[state] = true;
                 for (auto pre_state : _pda_states[state]._pre_states) {
                     const auto &rules = _pda_states[pre_state]._rules;
-                    auto lb = rules.lower_bound(pda_rule_t<W>{state});
+                    auto lb = first_rule_into(rules, state);
                     while (lb != rules.end() && lb->first._to == state) {
                         const auto& [rule, labels] = *lb;
                         size_t rule_id = lb - rules.begin();
@@ -859,7 +865,7 @@ namespace pdaaal::internal {
             if (t._from >= _n_pda_states) { return true; }
             for (auto pre_state : _pda_states[t._from]._pre_states) {
                 const auto &rules = _pda_states[pre_state]._rules;
-                auto lb = rules.lower_bound(pda_rule_t<W>{t._from});
+                auto lb = first_rule_into(rules, t._from);
                 while (lb != rules.end() && lb->first._to == t._from) {
                     const auto &[rule, labels] = *lb;
                     size_t rule_id = lb - rules.begin();
-- 
2.43.0


From 6c46f2596e3c7507f1927de46706a6790299c24e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:35:18 +0000
Subject: [PATCH 07/41] fix: paths in fixed-point product may contain epsilon
 edges

The label of an epsilon edge (added by post*) is the maximum value, so the
assertions rejected legal paths.
---
 src/include/pdaaal/internal/PAutomatonAlgorithms.h | 2 --
 1 file changed, 2 deletions(-)

diff --git a/src/include/pdaaal/internal/PAutomatonAlgorithms.h b/src/include/pdaaal/internal/PAutomatonAlgorithms.h
index 4fb2725..b13f229 100644
--- a/src/include/pdaaal/internal/PAutomatonAlgorithms.h
+++ b/src/include/pdaaal/internal/PAutomatonAlgorithms.h
@@ -129,7 +129,6 @@ namespace pdaaal::internal {
             AutomatonPath path(state_map(_min_accepting_state));
             size_t state = _min_accepting_state;
             while (_states[state].predecessor != no_state) {
-                assert(_states[state].label != std::numeric_limits<uint32_t>::max());
                 path.emplace(state_map(_states[state].predecessor), _states[state].label);
                 state = _states[state].predecessor;
                 assert(path.edges_size() <= _states.size()); // There should be no loop here - covered elsewhere.
@@ -163,7 +162,6 @@ namespace pdaaal::internal {
                     _current_state = _states[_current_state].predecessor;
                 }
                 if (_current_state == no_state) return std::nullopt; // Done searching.
-                assert(label != std::numeric_limits<uint32_t>::max());
                 assert(_current_state != uninitialized_state);
                 _path.emplace(_state_map(_current_state), label);
                 return label;
-- 
2.43.0


From 78cecf588d384e3ed025644cf9259ea45c867a50 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:35:18 +0000
Subject: [PATCH 08/41] fix: fixed-point round limit counts from the latest
 discovered transition

The limit was the total number of transitions found so far, but a transition
can be discovered (and improved) after that many rounds. Then the remaining
improvements were taken for an unbounded weight, and newly discovered
transitions violated an assertion.
---
 src/include/pdaaal/utils/workset.h | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/include/pdaaal/utils/workset.h b/src/include/pdaaal/utils/workset.h
index e694f3c..8c800a6 100644
--- a/src/include/pdaaal/utils/workset.h
+++ b/src/include/pdaaal/utils/workset.h
@@ -87,7 +87,8 @@ namespace pdaaal {
         auto emplace(Args&&... args){
             return _next_workset.emplace_back(std::forward<Args>(args)...);
         }
-        void set_round_limit(size_t new_round_limit) { _round_limit = new_round_limit; }
+        // Sets the limit for the number of rounds to do from now on.
+        void set_round_limit(size_t new_round_limit) { _round_limit = _rounds + new_round_limit; }
     };
 }
 
-- 
2.43.0


From 76655fdc841bcfba763c171d44cf2aa84bcb84c6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:39:30 +0000
Subject: [PATCH 09/41] fix: weight addition saturates towards bottom

When the fixed-point computation diverges, weights grow exponentially and
overflowed (undefined for signed weights, wrap-around for unsigned), which gave
wrong weights and non-terminating trace reconstruction.
---
 src/include/pdaaal/Weight.h | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/src/include/pdaaal/Weight.h b/src/include/pdaaal/Weight.h
index 668dfd6..e24f1e5 100644
--- a/src/include/pdaaal/Weight.h
+++ b/src/include/pdaaal/Weight.h
@@ -114,8 +114,8 @@ namespace pdaaal {
             static constexpr bool is_signed = parent_t::is_signed;
         private:
             static constexpr type bottom_val = maximize ? std::numeric_limits<type>::max() - (is_signed ? 0 : 1)
-                                                        : std::numeric_limits<type>::min();
-            static constexpr type max_val = (maximize && is_signed) ? std::numeric_limits<type>::min()
+                                                        : std::numeric_limits<type>::lowest();
+            static constexpr type max_val = (maximize && is_signed) ? std::numeric_limits<type>::lowest()
                                                                     : std::numeric_limits<type>::max();
         public:
             static constexpr auto bottom = []() -> type { return bottom_val; };
@@ -135,6 +135,12 @@ namespace pdaaal {
                 if (lhs == max_val || rhs == max_val) return max_val;
                 if constexpr (bottom_val != 0) {
                     if (lhs == bottom_val || rhs == bottom_val) return bottom_val;
+                    // Saturate instead of overflowing towards bottom, e.g. while a fixed-point computation diverges.
+                    if constexpr (maximize) {
+                        if (rhs > 0 && lhs > bottom_val - rhs) return bottom_val;
+                    } else {
+                        if (rhs < 0 && lhs < bottom_val - rhs) return bottom_val;
+                    }
                 }
                 return lhs + rhs;
             };
-- 
2.43.0


From 44b4447efe6588ea2b3f8f2bf1d57e4c9131fe8d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:40:40 +0000
Subject: [PATCH 10/41] fix: comparison of vector weights does not read past
 the end

When the vectors differ in length by two or more, the iterator of the shorter
one was incremented past its end and then dereferenced.
---
 src/include/pdaaal/Weight.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/include/pdaaal/Weight.h b/src/include/pdaaal/Weight.h
index e24f1e5..c263e60 100644
--- a/src/include/pdaaal/Weight.h
+++ b/src/include/pdaaal/Weight.h
@@ -184,7 +184,7 @@ namespace pdaaal {
                     auto l1 = lhs.end(), l2 = rhs.end();
                     bool exhaust1 = (f1 == l1);
                     bool exhaust2 = (f2 == l2);
-                    for (; !exhaust1 || !exhaust2; exhaust1 = (++f1 == l1), exhaust2 = (++f2 == l2)) {
+                    for (; !exhaust1 || !exhaust2; exhaust1 = (exhaust1 || ++f1 == l1), exhaust2 = (exhaust2 || ++f2 == l2)) {
                         auto v1 = exhaust1 ? weight<Inner>::zero() : *f1; // Missing elements are implicitly zero.
                         auto v2 = exhaust2 ? weight<Inner>::zero() : *f2;
                         if (weight_impl<Inner, maximize>::less(v1, v2)) return true;
-- 
2.43.0


From 446019641aaa26e285efc795a37f59fd648c3248 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:46:23 +0000
Subject: [PATCH 11/41] fix: empty-stack configurations and unaccepted stacks
 in single-configuration queries

After post* a configuration with empty stack is accepted by an epsilon edge,
which accepts, accept_path and get_trace ignored; shortest accept_path could
return the target of an epsilon edge as the first state; and get_trace for a
stack that is not accepted read the back of an empty vector.
---
 src/include/pdaaal/Solver.h              | 15 ++++++++----
 src/include/pdaaal/internal/PAutomaton.h | 29 ++++++++++++++++++++----
 2 files changed, 35 insertions(+), 9 deletions(-)

diff --git a/src/include/pdaaal/Solver.h b/src/include/pdaaal/Solver.h
index 896e2ff..1b882ae 100644
--- a/src/include/pdaaal/Solver.h
+++ b/src/include/pdaaal/Solver.h
@@ -337,10 +337,10 @@ namespace pdaaal {
             auto stack_native = pda.encode_pre(stack);
             if constexpr (trace_type == Trace_Type::Shortest) {
                 auto [path, weight] = automaton.template accept_path<trace_type>(state, stack_native);
-                return std::make_pair(_get_trace(pda, automaton, AutomatonPath(path, stack_native)), weight);
+                return std::make_pair(_get_trace(pda, automaton, _make_path(path, stack_native)), weight);
             } else {
                 auto path = automaton.template accept_path<trace_type>(state, stack_native);
-                return _get_trace(pda, automaton, AutomatonPath(path, stack_native));
+                return _get_trace(pda, automaton, _make_path(path, stack_native));
             }
         }
         template <Trace_Type trace_type = Trace_Type::Any, typename T, typename W, typename = std::enable_if_t<!std::is_same_v<T,uint32_t>>>
@@ -348,14 +348,21 @@ namespace pdaaal {
             static_assert(trace_type != Trace_Type::None, "If you want a trace, don't ask for none.");
             if constexpr (trace_type == Trace_Type::Shortest) {
                 auto [path, weight] = automaton.template accept_path<trace_type>(state, stack_native);
-                return std::make_pair(_get_trace(pda, automaton, AutomatonPath(path, stack_native)), weight);
+                return std::make_pair(_get_trace(pda, automaton, _make_path(path, stack_native)), weight);
             } else {
                 auto path = automaton.template accept_path<trace_type>(state, stack_native);
-                return _get_trace(pda, automaton, AutomatonPath(path, stack_native));
+                return _get_trace(pda, automaton, _make_path(path, stack_native));
             }
         }
 
     private:
+        // Path from the result of accept_path. There is no path if stack is not accepted, and the empty stack can be accepted by an epsilon edge.
+        static AutomatonPath<> _make_path(const std::vector<size_t>& path, const std::vector<uint32_t>& stack) {
+            if (path.empty()) return AutomatonPath<>();
+            if (stack.empty() && path.size() == 2) return AutomatonPath(path, std::vector<uint32_t>{internal::epsilon});
+            return AutomatonPath(path, stack);
+        }
+
         template <typename T, typename W, typename S, bool ssm>
         static typename PDA<T,W,fut::type::vector,S,ssm>::tracestate_t
         _decode_edges(const PDA<T,W,fut::type::vector,S,ssm> &pda, const AutomatonPath<>& path) {
diff --git a/src/include/pdaaal/internal/PAutomaton.h b/src/include/pdaaal/internal/PAutomaton.h
index 0420482..6ec12e1 100644
--- a/src/include/pdaaal/internal/PAutomaton.h
+++ b/src/include/pdaaal/internal/PAutomaton.h
@@ -509,7 +509,7 @@ namespace pdaaal::internal {
             //Equivalent to (but hopefully faster than): return !_accept_path(state, stack).empty();
 
             if (stack.empty()) {
-                return _states[state]->_accepting;
+                return _states[state]->_accepting || accepting_epsilon_edge(state).has_value();
             }
             // DFS search.
             std::stack<std::pair<size_t, size_t>> search_stack;
@@ -532,6 +532,8 @@ namespace pdaaal::internal {
             return false;
         }
 
+        // The states on an accepting path for the stack (no states if there is no such path).
+        // For the empty stack, the path may be a single epsilon edge. Otherwise post* has an epsilon-free path for every stack it accepts.
         template<Trace_Type trace_type = Trace_Type::Any>
         [[nodiscard]] typename std::conditional_t<trace_type == Trace_Type::Shortest && is_weighted<W>,
                 std::pair<std::vector<size_t>, typename W::type>, std::vector<size_t>>
@@ -540,6 +542,8 @@ namespace pdaaal::internal {
                 if (stack.empty()) {
                     if (_states[state]->_accepting) {
                         return std::make_pair(std::vector<size_t>{state}, W::zero());
+                    } else if (auto to = accepting_epsilon_edge(state); to) {
+                        return std::make_pair(std::vector<size_t>{state, to.value()}, _states[state]->_edges.get(to.value(), epsilon)->second);
                     } else {
                         return std::make_pair(std::vector<size_t>(), solver_weight<W,trace_type>::max());
                     }
@@ -604,10 +608,6 @@ namespace pdaaal::internal {
                                 search_queue.emplace(solver_weight<W,trace_type>::add(current._weight, label->second), to, current._stack_index + 1, pointer);
                             }
                         }
-                        auto eps_label = labels.get(epsilon);
-                        if (eps_label != nullptr) {
-                            search_queue.emplace(solver_weight<W,trace_type>::add(current._weight, eps_label->second), to, current._stack_index, pointer->_back_pointer);
-                        }
                     }
                 }
                 return std::make_pair(std::vector<size_t>(), solver_weight<W,trace_type>::max());
@@ -615,6 +615,8 @@ namespace pdaaal::internal {
                 if (stack.empty()) {
                     if (_states[state]->_accepting) {
                         return std::vector<size_t>{state};
+                    } else if (auto to = accepting_epsilon_edge(state); to) {
+                        return std::vector<size_t>{state, to.value()};
                     } else {
                         return std::vector<size_t>();
                     }
@@ -889,6 +891,23 @@ namespace pdaaal::internal {
             }
         }
     private:
+        // Finds the best (if weighted) epsilon edge from state to an accepting state. In post*, this means that the empty stack is accepted.
+        [[nodiscard]] std::optional<size_t> accepting_epsilon_edge(size_t state) const {
+            std::optional<size_t> result;
+            for (const auto& [to,labels] : _states[state]->_edges) {
+                auto edge = labels.get(epsilon);
+                if (edge == nullptr || !_states[to]->_accepting) continue;
+                if (!result) {
+                    result = to;
+                } else if constexpr (W::is_weight) {
+                    if (solver_weight<W,Trace_Type::Shortest>::less(edge->second, _states[state]->_edges.get(result.value(), epsilon)->second)) {
+                        result = to;
+                    }
+                }
+            }
+            return result;
+        }
+
         std::vector<std::unique_ptr<state_t>> _states;
         std::vector<state_t *> _initial;
         std::vector<state_t *> _accepting;
-- 
2.43.0


From ec595098ece5b254c429b34d1ce297454f8f91e7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:51:40 +0000
Subject: [PATCH 12/41] fix: rule trace of post* reports the push rule that was
 applied

---
 src/include/pdaaal/internal/PdaSaturation.h | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/include/pdaaal/internal/PdaSaturation.h b/src/include/pdaaal/internal/PdaSaturation.h
index 45ed151..817970e 100644
--- a/src/include/pdaaal/internal/PdaSaturation.h
+++ b/src/include/pdaaal/internal/PdaSaturation.h
@@ -1165,7 +1165,8 @@ namespace pdaaal::internal {
                             break;
                     }
                     assert(from == rule._to);
-                    return rule_t(trace_label._state, trace_label._label, rule);
+                    // In case of PUSH, the applied rule is the one that created the second edge.
+                    return rule_t(trace_label._state, trace_label._label, _automaton.pda().states()[trace_label._state]._rules[trace_label._rule_id].first);
                 }
             }
         }
-- 
2.43.0


From 8ba84c9506606108d5c9d6dd1601de4c77cdc4fe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:51:40 +0000
Subject: [PATCH 13/41] fix: rule traces of unreachable, zero-step and weighted
 instances

---
 src/include/pdaaal/Solver.h       | 19 ++++++++++---------
 src/include/pdaaal/internal/PDA.h |  4 ++++
 2 files changed, 14 insertions(+), 9 deletions(-)

diff --git a/src/include/pdaaal/Solver.h b/src/include/pdaaal/Solver.h
index 1b882ae..b3fdfed 100644
--- a/src/include/pdaaal/Solver.h
+++ b/src/include/pdaaal/Solver.h
@@ -321,13 +321,13 @@ namespace pdaaal {
             static_assert(trace_type != Trace_Type::None, "If you want a trace, don't ask for none.");
             if constexpr (trace_type == Trace_Type::Shortest) {
                 auto[paths, weight] = instance.template find_path<trace_type, true>();
-                return std::make_pair(_get_rule_trace_and_paths(instance.automaton(), paths), weight);
+                return std::make_pair(_get_rule_trace_and_paths(instance.automaton(), paths, &instance.automaton() == &instance.initial_automaton()), weight);
             } else if constexpr(use_dual) {
                 auto paths = instance.template find_path<trace_type, true>();
                 return _get_rule_trace_and_paths(instance.initial_automaton(), instance.final_automaton(), paths);
             } else {
                 auto paths = instance.template find_path<trace_type, true>();
-                return _get_rule_trace_and_paths(instance.automaton(), paths);
+                return _get_rule_trace_and_paths(instance.automaton(), paths, &instance.automaton() == &instance.initial_automaton());
             }
         }
 
@@ -408,7 +408,8 @@ namespace pdaaal {
                 std::vector<size_t>, // Path in initial PAutomaton (accepting initial stack)
                 std::vector<size_t>  // Path in final PAutomaton (accepting final stack) (independent of whether pre* or post* was used)
                 > _get_rule_trace_and_paths(const internal::PAutomaton<W,trace_info_type>& automaton, // The PAutomaton that has been build up (either A_pre* or A_post*)
-                                            const AutomatonPath<true>& paths) {
+                                            const AutomatonPath<true>& paths,
+                                            bool post) { // Whether automaton is A_post*. An empty trace cannot tell.
             using rule_t = user_rule_t<W>;
 
             if (paths.is_null()) {
@@ -428,9 +429,9 @@ namespace pdaaal {
             // Get accepting path of initial stack (and the initial stack itself - for post*)
             auto [start_path, start_stack] = tb.path().get_path_and_stack();
 
-            if (tb.post()) { // post* was used
+            if (post) { // post* was used
                 std::reverse(trace.begin(), trace.end());
-                return std::make_tuple(trace[0].from(), std::move(trace),
+                return std::make_tuple(tb.path().front_state(), std::move(trace),
                                        std::move(start_stack), std::move(goal_stack),
                                        std::move(start_path), std::move(goal_path));
             } else { // pre* was used
@@ -450,20 +451,20 @@ namespace pdaaal {
         std::vector<size_t>  // Path in final PAutomaton (accepting final stack) (independent of whether pre* or post* was used)
         > _get_rule_trace_and_paths(const internal::PAutomaton<W,trace_info_type1>& initial_automaton,
                                     const internal::PAutomaton<W,trace_info_type2>& final_automaton,
-                                    const std::optional<AutomatonPath<true>>& paths) {
+                                    const AutomatonPath<true>& paths) {
             using rule_t = user_rule_t<W>;
 
-            if (!paths.has_value()) {
+            if (paths.is_null()) {
                 return std::make_tuple(std::numeric_limits<size_t>::max(), std::vector<rule_t>(), std::vector<uint32_t>(), std::vector<uint32_t>(), std::vector<size_t>(), std::vector<size_t>());
             }
             // The paths was retrieved from the product automaton. First number is the state in initial_automaton, second number is state in final_automaton.
-            auto [initial_automaton_path, final_automaton_path] = paths.value().split();
+            auto [initial_automaton_path, final_automaton_path] = paths.split();
             final_automaton_path.remove_epsilon(); // post* may add an epsilon-edge as first. this edge is not in pre* automaton (final_automaton), so remove it from f_path.
             auto [trace, initial_stack, initial_path] = _get_trace_stack_path(initial_automaton, std::move(initial_automaton_path));
             auto [trace2, final_stack, final_path] = _get_trace_stack_path(final_automaton, std::move(final_automaton_path));
             // Concat traces
             trace.insert(trace.end(), trace2.begin(), trace2.end());
-            return std::make_tuple(trace[0].from(), std::move(trace),
+            return std::make_tuple(initial_path[0], std::move(trace),
                                    std::move(initial_stack), std::move(final_stack),
                                    std::move(initial_path), std::move(final_path));
         }
diff --git a/src/include/pdaaal/internal/PDA.h b/src/include/pdaaal/internal/PDA.h
index 1f0f8c3..c5216d2 100644
--- a/src/include/pdaaal/internal/PDA.h
+++ b/src/include/pdaaal/internal/PDA.h
@@ -199,6 +199,10 @@ namespace pdaaal {
         }
         bool operator!=(const user_rule_t<W>& other) const { return !(*this == other); }
 
+        [[nodiscard]] size_t from() const {
+            return _from;
+        }
+
         internal::pda_rule_t<W> to_impl_rule() const {
             return internal::pda_rule_t<W>{_to, _op, _weight, _op_label};
         }
-- 
2.43.0


From 847d9ae8cda4edcb1ab5b721f7dbeea39f3e6636 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:53:20 +0000
Subject: [PATCH 14/41] fix: optional and starred expressions accept only the
 empty word in addition

---
 src/include/pdaaal/NFA.h | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/src/include/pdaaal/NFA.h b/src/include/pdaaal/NFA.h
index 3544662..0ef75bf 100644
--- a/src/include/pdaaal/NFA.h
+++ b/src/include/pdaaal/NFA.h
@@ -330,12 +330,14 @@ namespace pdaaal {
         }
         
         void question_extend() {
+            // The existing initial states can have ingoing edges, so they cannot just be made accepting.
+            _states.emplace_back(std::make_unique<state_t>(true));
+            auto initial = _states.back().get();
             for(auto s : _initial) {
-                if(!s->_accepting) {
-                    s->_accepting = true;
-                    _accepting.push_back(s);
-                }
+                initial->add_epsilon_edge(s);
             }
+            _initial = {initial};
+            _accepting.push_back(initial);
         }
         
         void plus_extend() {
-- 
2.43.0


From c9317be93e48c3b99045fa30f67c3505df35fc63 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:53:20 +0000
Subject: [PATCH 15/41] fix: copy assignment of NFA replaces the previous
 contents

---
 src/include/pdaaal/NFA.h | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/src/include/pdaaal/NFA.h b/src/include/pdaaal/NFA.h
index 0ef75bf..c543fe9 100644
--- a/src/include/pdaaal/NFA.h
+++ b/src/include/pdaaal/NFA.h
@@ -291,6 +291,10 @@ namespace pdaaal {
 
         
         NFA& operator=(const NFA& other) {
+            if (this == &other) return *this;
+            _states.clear();
+            _initial.clear();
+            _accepting.clear();
             std::unordered_map<state_t*, state_t*> indir;
             for(auto& s : other._states) {
                 _states.emplace_back(std::make_unique<state_t>(*s));
@@ -311,6 +315,9 @@ namespace pdaaal {
             for(auto& s : other._initial) {
                 _initial.push_back(indir[s]);
             }
+            // Keep the order established by compile().
+            std::sort(_accepting.begin(), _accepting.end());
+            std::sort(_initial.begin(), _initial.end());
             return *this;
         }
 
-- 
2.43.0


From 2c115ca9432f659824e0722f63d1d1064f33114e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:53:20 +0000
Subject: [PATCH 16/41] fix: intersect_edge_labels handles each edge separately

---
 src/include/pdaaal/NFA.h | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/include/pdaaal/NFA.h b/src/include/pdaaal/NFA.h
index c543fe9..374a820 100644
--- a/src/include/pdaaal/NFA.h
+++ b/src/include/pdaaal/NFA.h
@@ -270,6 +270,7 @@ namespace pdaaal {
                     result.reserve(labels.size());
                     temp_union.reserve(labels.size());
                     temp.reserve(labels.size());
+                    temp.clear();
                     if (e._negated) {
                         std::set_difference(labels.begin(), labels.end(), e._symbols.begin(), e._symbols.end(), std::back_inserter(temp));
                     } else {
-- 
2.43.0


From ba63b0a32478616baf48c007678fbf80903c40f2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:56:15 +0000
Subject: [PATCH 17/41] fix: a regular expression ending in | is a parse error

---
 src/include/pdaaal/parsing/NfaParserGrammar.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/include/pdaaal/parsing/NfaParserGrammar.h b/src/include/pdaaal/parsing/NfaParserGrammar.h
index bdec27f..b606df8 100644
--- a/src/include/pdaaal/parsing/NfaParserGrammar.h
+++ b/src/include/pdaaal/parsing/NfaParserGrammar.h
@@ -55,7 +55,7 @@ namespace pdaaal {
     template<typename L, typename C>
     struct seq_expr : pegtl::seq<unary_expr<L, C>, pegtl::star<pegtl::seq<pegtl::star<ignored<C>>,unary_expr<L, C>>>> {};
     template<typename L, typename C>
-    struct nfa_expr : pegtl::list<seq_expr<L, C>, or_symbol, ignored < C>> {};
+    struct nfa_expr : pegtl::list_must<seq_expr<L, C>, or_symbol, ignored < C>> {};
     template<typename L, typename C>
     struct nfa_expr_or_empty : pegtl::opt<nfa_expr<L,C>> {};
 
-- 
2.43.0


From a8b804021326221eae87db40e5a6c3c34e0c0fde Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:38:30 +0000
Subject: [PATCH 18/41] fix: post* fixed-point propagates unbounded weights
 over epsilon edges

When an improvement of (q_new, label, to) was found unbounded, the finite
candidate weight was used to update the epsilon combinations, and the later
change to bottom did not trigger them again.
---
 src/include/pdaaal/internal/PdaSaturation.h | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/include/pdaaal/internal/PdaSaturation.h b/src/include/pdaaal/internal/PdaSaturation.h
index 817970e..a924706 100644
--- a/src/include/pdaaal/internal/PdaSaturation.h
+++ b/src/include/pdaaal/internal/PdaSaturation.h
@@ -1053,9 +1053,10 @@ namespace pdaaal::internal {
                             update_edge<change_is_bottom>(rule._to, rule._op_label, q_new, W::zero(), trace);
                             if (update_edge<change_is_bottom>(q_new, t._label, t._to, wb, trace)) {
                                 assert(q_new >= _n_Q);
+                                auto w_new = _automaton.get_edge(q_new, t._label, t._to)->second; // This is bottom if change_is_bottom.
                                 for (auto f: _rel2[q_new - _n_Q]) {
                                     assert(_automaton.get_edge(f, epsilon, q_new) != nullptr);
-                                    update_edge<change_is_bottom>(f, t._label, t._to, solverW::add(wb, _automaton.get_edge(f, epsilon, q_new)->second), p_automaton_t::new_post_trace(q_new));
+                                    update_edge<change_is_bottom>(f, t._label, t._to, solverW::add(w_new, _automaton.get_edge(f, epsilon, q_new)->second), p_automaton_t::new_post_trace(q_new));
                                 }
                             }
                             break;
-- 
2.43.0


From 5cf2edb0053b5302edabdab9e8a62152420fb2a7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:55:46 +0000
Subject: [PATCH 19/41] fix: reduction keeps the rules into the terminal state

A terminal state other than 0 was pruned like any other state, which removed
every rule into it and thereby every successful run.
---
 src/include/pdaaal/internal/Reducer.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/include/pdaaal/internal/Reducer.h b/src/include/pdaaal/internal/Reducer.h
index 662fcfb..850ca26 100644
--- a/src/include/pdaaal/internal/Reducer.h
+++ b/src/include/pdaaal/internal/Reducer.h
@@ -137,7 +137,7 @@ namespace pdaaal::internal {
             }
             // DO PRUNING!
             for (size_t i = 1; i < pda.states().size(); ++i) {
-                if(i == initial_id) continue;
+                if(i == initial_id || i == terminal_id) continue; // Clearing the terminal state would remove the rules into it.
                 auto& app = approximation[i];
                 auto& state = pda.states_mutable()[i];
                 size_t br = 0;
-- 
2.43.0


From 1280428b7a2a110619a1f7afa009b0a9b961dabc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:59:54 +0000
Subject: [PATCH 20/41] fix: negated label sets of automata do not rely on the
 order of label ids

---
 src/include/pdaaal/internal/PAutomaton.h | 11 +++++------
 1 file changed, 5 insertions(+), 6 deletions(-)

diff --git a/src/include/pdaaal/internal/PAutomaton.h b/src/include/pdaaal/internal/PAutomaton.h
index 6ec12e1..e85241a 100644
--- a/src/include/pdaaal/internal/PAutomaton.h
+++ b/src/include/pdaaal/internal/PAutomaton.h
@@ -36,6 +36,7 @@
 #include <vector>
 #include <stack>
 #include <queue>
+#include <set>
 #include <iostream>
 #include <cassert>
 
@@ -780,10 +781,9 @@ namespace pdaaal::internal {
 
         void add_edges(size_t from, size_t to, bool negated, const std::vector<uint32_t>& labels) {
             if (negated) {
-                assert(std::is_sorted(labels.begin(), labels.end()));
-                //std::sort(labels.begin(), labels.end());
+                std::set<uint32_t> excluded(labels.begin(), labels.end()); // Label ids need not follow the order of the labels.
                 size_t i = 0;
-                for (auto label : labels) {
+                for (auto label : excluded) {
                     for (; i < label; ++i){
                         add_edge(from, to, i);
                     }
@@ -801,10 +801,9 @@ namespace pdaaal::internal {
         }
         void add_edges(const std::vector<size_t>& from, size_t to, bool negated, const std::vector<uint32_t>& labels) {
             if (negated) {
-                assert(std::is_sorted(labels.begin(), labels.end()));
-                //std::sort(labels.begin(), labels.end());
+                std::set<uint32_t> excluded(labels.begin(), labels.end()); // Label ids need not follow the order of the labels.
                 size_t i = 0;
-                for (auto label : labels) {
+                for (auto label : excluded) {
                     for (; i < label; ++i){
                         for (auto f : from) {
                             add_edge(f, to, i);
-- 
2.43.0


From 4aa0e135f535ad63421c7655a2df551f9e481593 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:59:54 +0000
Subject: [PATCH 21/41] fix: rules accept their pre-labels in any order

---
 src/include/pdaaal/PDA.h | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/src/include/pdaaal/PDA.h b/src/include/pdaaal/PDA.h
index bcf8ed5..57ef06b 100644
--- a/src/include/pdaaal/PDA.h
+++ b/src/include/pdaaal/PDA.h
@@ -32,6 +32,7 @@
 
 #include <nlohmann/json.hpp>
 
+#include <algorithm>
 #include <queue>
 #include <unordered_map>
 #include <cassert>
@@ -250,15 +251,22 @@ namespace pdaaal {
         }
 
     private:
+        // Label ids need not follow the order of the labels, but sets of label ids are kept sorted.
+        std::vector<uint32_t> encode_pre_set(const std::vector<label_t>& pre) const {
+            auto ids = encode_pre(pre);
+            std::sort(ids.begin(), ids.end());
+            ids.erase(std::unique(ids.begin(), ids.end()), ids.end());
+            return ids;
+        }
 
         template<typename WT, typename = std::enable_if_t<!is_weighted<WT>>>
         void add_rule_(size_t from, size_t to, op_t op, label_t op_label, bool wildcard, const std::vector<label_t>& pre_labels) {
-            this->add_untyped_rule_impl(from, {to, op, find_labelid(op, op_label)}, wildcard, encode_pre(pre_labels));
+            this->add_untyped_rule_impl(from, {to, op, find_labelid(op, op_label)}, wildcard, encode_pre_set(pre_labels));
         }
 
         template<typename WT, typename = std::enable_if_t<is_weighted<WT>>>
         void add_rule_(size_t from, size_t to, op_t op, label_t op_label, bool wildcard, const std::vector<label_t>& pre_labels, typename WT::type weight = WT::zero()) {
-            this->add_untyped_rule_impl(from, {to, op, weight, find_labelid(op, op_label)}, wildcard, encode_pre(pre_labels));
+            this->add_untyped_rule_impl(from, {to, op, weight, find_labelid(op, op_label)}, wildcard, encode_pre_set(pre_labels));
         }
 
         template<typename WT, typename = std::enable_if_t<!is_weighted<WT>>>
-- 
2.43.0


From e367a235c593e8855bb3cec146ade898421314ae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:03:13 +0000
Subject: [PATCH 22/41] fix: factories create initial and accepting states that
 occur in no rule

---
 src/include/pdaaal/PDAFactory.h | 11 +++++++++++
 1 file changed, 11 insertions(+)

diff --git a/src/include/pdaaal/PDAFactory.h b/src/include/pdaaal/PDAFactory.h
index bb13f7a..a53a484 100644
--- a/src/include/pdaaal/PDAFactory.h
+++ b/src/include/pdaaal/PDAFactory.h
@@ -57,6 +57,8 @@ namespace pdaaal {
         // NFAs must be already compiled before passing them to this function.
         solver_instance_t compile(const NFA<label_t>& initial_headers, const NFA<label_t>& final_headers) {
             build_pda();
+            ensure_states(initial()); // Initial and accepting states may occur in no rule.
+            ensure_states(accepting());
             return solver_instance_t{pda_t{std::move(_temp_pda)}, initial_headers, initial(), final_headers, accepting()};
         }
     protected:
@@ -73,6 +75,15 @@ namespace pdaaal {
         }
 
         builder_pda_t _temp_pda;
+
+    private:
+        void ensure_states(const std::vector<size_t>& states) {
+            for (auto state : states) {
+                if (state >= _temp_pda.states().size()) {
+                    _temp_pda.states_mutable().resize(state + 1);
+                }
+            }
+        }
     };
 
     template<typename T, typename W = weight<void>, TraceInfoType trace_info_type = TraceInfoType::Single>
-- 
2.43.0


From 9b492f395d2a65fbff00ba7e27264cc520eb0438 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:21:41 +0000
Subject: [PATCH 23/41] fix: linear weight functions sum in the weight type

---
 src/include/pdaaal/Weight.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/include/pdaaal/Weight.h b/src/include/pdaaal/Weight.h
index c263e60..a5e7b61 100644
--- a/src/include/pdaaal/Weight.h
+++ b/src/include/pdaaal/Weight.h
@@ -228,7 +228,7 @@ namespace pdaaal {
             if (_function) {
                 return _function.value()(args...);
             }
-            return std::accumulate(_functions.begin(), _functions.end(), 0,
+            return std::accumulate(_functions.begin(), _functions.end(), static_cast<W>(0),
                     [&args...](const W& lhs, const std::pair<W, linear_weight_function<W, Args...>>& rhs) -> W {
                 return lhs + (rhs.first * rhs.second(args...));
             });
-- 
2.43.0


From 2683d030cbe328fac4163f74e6edba6c26dca550 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:21:41 +0000
Subject: [PATCH 24/41] fix: negated label sets of an abstraction exclude only
 fully covered abstract labels

---
 src/include/pdaaal/cegar/AbstractionPDA.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/include/pdaaal/cegar/AbstractionPDA.h b/src/include/pdaaal/cegar/AbstractionPDA.h
index 5b9bd18..87c106b 100644
--- a/src/include/pdaaal/cegar/AbstractionPDA.h
+++ b/src/include/pdaaal/cegar/AbstractionPDA.h
@@ -65,7 +65,7 @@ namespace pdaaal {
                 abstract_labels.erase(std::remove_if(abstract_labels.begin(), abstract_labels.end(), [this, &labels](const auto& abstract_label){
                     auto concrete = _label_abstraction.get_concrete_values(abstract_label);
                     std::sort(concrete.begin(), concrete.end());
-                    return std::includes(labels.begin(), labels.end(), concrete.begin(), concrete.end());
+                    return !std::includes(labels.begin(), labels.end(), concrete.begin(), concrete.end());
                 }), abstract_labels.end());
             }
             return std::vector<uint32_t>(abstract_labels.begin(), abstract_labels.end()); // TODO: This is not optimal. Label type in PDA should be size_t instead of uint32_t. This is a change many places...
-- 
2.43.0


From d6686c228ce3f79a7784d2e9abf16cd366a4e720 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:41:05 +0000
Subject: [PATCH 25/41] fix: an indexed state without rules is part of the
 parsed PDA

---
 src/pdaaal-bin/parsing/PdaJsonParser.h | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/pdaaal-bin/parsing/PdaJsonParser.h b/src/pdaaal-bin/parsing/PdaJsonParser.h
index 80985c6..6e8830c 100644
--- a/src/pdaaal-bin/parsing/PdaJsonParser.h
+++ b/src/pdaaal-bin/parsing/PdaJsonParser.h
@@ -435,6 +435,7 @@ namespace pdaaal::parsing {
             switch (current_context_type()) {
                 case context_type::state:
                     if constexpr (!use_state_names) {
+                        build_pda.insert_state(current_from_state); // Also create states without rules.
                         ++current_from_state;
                     }
                     break;
-- 
2.43.0


From 75cf45d55e6f1b7516add020dfd1b73a2b423387 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:41:05 +0000
Subject: [PATCH 26/41] fix: a pop rule with a label is a parse error instead
 of an assertion failure

---
 src/pdaaal-bin/parsing/PdaJsonParser.h | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/pdaaal-bin/parsing/PdaJsonParser.h b/src/pdaaal-bin/parsing/PdaJsonParser.h
index 6e8830c..c2d15d1 100644
--- a/src/pdaaal-bin/parsing/PdaJsonParser.h
+++ b/src/pdaaal-bin/parsing/PdaJsonParser.h
@@ -291,7 +291,9 @@ namespace pdaaal::parsing {
                         return false;
                     }
                 case keys::pop:
-                    assert(value.empty()); // TODO: Should this be error?
+                    if (!value.empty()) {
+                        return error_unexpected("string", value, "The value of \"pop\" should be empty.");
+                    }
                     current_rule._operation = op_t::POP;
                     current_rule._op_label = std::numeric_limits<uint32_t>::max();
                     break;
-- 
2.43.0


From 32fdd366ddc3f2d7883e96eb52dff1df426d75e3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:41:05 +0000
Subject: [PATCH 27/41] fix: a single number is not a vector weight

---
 src/pdaaal-bin/parsing/PdaJsonParser.h | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/pdaaal-bin/parsing/PdaJsonParser.h b/src/pdaaal-bin/parsing/PdaJsonParser.h
index c2d15d1..81eb4d6 100644
--- a/src/pdaaal-bin/parsing/PdaJsonParser.h
+++ b/src/pdaaal-bin/parsing/PdaJsonParser.h
@@ -265,8 +265,9 @@ namespace pdaaal::parsing {
                             return false;
                         }
                         current_rule._weight = value;
+                        break;
                     }
-                    break;
+                    return error_unexpected("unsigned", value);
                 case keys::unknown:
                     break;
                 default:
-- 
2.43.0


From 0da02d781ec8ac4eea35d8e267c98acf34fd47db Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:41:05 +0000
Subject: [PATCH 28/41] fix: objects and arrays with several values are ignored
 under unknown keys

---
 src/pdaaal-bin/parsing/PdaJsonParser.h | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/src/pdaaal-bin/parsing/PdaJsonParser.h b/src/pdaaal-bin/parsing/PdaJsonParser.h
index 81eb4d6..7db7b3c 100644
--- a/src/pdaaal-bin/parsing/PdaJsonParser.h
+++ b/src/pdaaal-bin/parsing/PdaJsonParser.h
@@ -196,6 +196,14 @@ namespace pdaaal::parsing {
             return pda_t(std::move(build_pda));
         }
 
+        bool element_done() {
+            parent_t::element_done();
+            if (!no_context() && current_context_type() == context_type::unknown) {
+                last_key = keys::unknown; // Any number of values (at any depth) is ignored in an unknown context.
+            }
+            return true;
+        }
+
         bool null() {
             return last_key == keys::unknown ? element_done() : error_unexpected("null value");
         }
-- 
2.43.0


From 588f0e13ccb044acd2a1a196dea8c9b959e00ded Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:41:05 +0000
Subject: [PATCH 29/41] fix: a number in place of the instance parameters is a
 parse error

---
 src/pdaaal-bin/parsing/PdaJsonParser.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/pdaaal-bin/parsing/PdaJsonParser.h b/src/pdaaal-bin/parsing/PdaJsonParser.h
index 7db7b3c..aea9a51 100644
--- a/src/pdaaal-bin/parsing/PdaJsonParser.h
+++ b/src/pdaaal-bin/parsing/PdaJsonParser.h
@@ -668,7 +668,7 @@ namespace pdaaal::parsing {
             return error_unexpected("integer", value);
         }
         bool number_unsigned(number_unsigned_t value) {
-            if (current_context_type() == context_type::weight_array) {
+            if (!no_context() && current_context_type() == context_type::weight_array) {
                 if (!handle_index<context_type::weight_array,1>(value)) return false;
                 weight_array_size.emplace(value);
                 return element_done();
-- 
2.43.0


From 97dfa4caf0e42bc5094bc798e87a8d2a3979690f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:41:05 +0000
Subject: [PATCH 30/41] fix: the size of a weight array can be given in the
 weight type

---
 src/pdaaal-bin/parsing/PdaJsonParser.h | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/src/pdaaal-bin/parsing/PdaJsonParser.h b/src/pdaaal-bin/parsing/PdaJsonParser.h
index aea9a51..e0fa633 100644
--- a/src/pdaaal-bin/parsing/PdaJsonParser.h
+++ b/src/pdaaal-bin/parsing/PdaJsonParser.h
@@ -583,8 +583,7 @@ namespace pdaaal::parsing {
                 print_value(s, value) << "at index " << current_context().get_index() << " in " << type << " was expected to be at index " << index << "." << std::endl;
                 return false;
             }
-            current_context().increment_index();
-            return true;
+            return true; // The index is incremented by element_done().
         }
 
         template<typename T> struct weight_to_pda_sax_handler;
-- 
2.43.0


From 73ab377f92d4cde90a3814ed21875419864fd8db Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:41:05 +0000
Subject: [PATCH 31/41] fix: nested arrays of states, rules or weights are a
 parse error

---
 src/pdaaal-bin/parsing/PdaJsonParser.h | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/pdaaal-bin/parsing/PdaJsonParser.h b/src/pdaaal-bin/parsing/PdaJsonParser.h
index e0fa633..45eb794 100644
--- a/src/pdaaal-bin/parsing/PdaJsonParser.h
+++ b/src/pdaaal-bin/parsing/PdaJsonParser.h
@@ -470,6 +470,9 @@ namespace pdaaal::parsing {
                 errors() << "error: Encountered start of array, but must start with an object." << std::endl;
                 return false;
             }
+            if (current_context().is_array()) {
+                return error_unexpected("start of array");
+            }
             switch (last_key) {
                 case keys::states:
                     if constexpr (use_state_names) {
-- 
2.43.0


From efb7081f31bdf5e267ac0d824d5692fcdd1918d0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:41:05 +0000
Subject: [PATCH 32/41] fix: nested arrays in a P-automaton are a parse error

---
 src/pdaaal-bin/parsing/PAutomatonJsonParser.h | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/pdaaal-bin/parsing/PAutomatonJsonParser.h b/src/pdaaal-bin/parsing/PAutomatonJsonParser.h
index 14eb04f..c92c340 100644
--- a/src/pdaaal-bin/parsing/PAutomatonJsonParser.h
+++ b/src/pdaaal-bin/parsing/PAutomatonJsonParser.h
@@ -354,6 +354,9 @@ namespace pdaaal::parsing {
                 current_label.clear();
                 return true;
             }
+            if (current_context().is_array()) {
+                return error_unexpected("start of array");
+            }
             switch (last_key) {
                 case keys::initial:
                     push_context(initial_array);
-- 
2.43.0


From 69427901de2f87d450079bb852cf795c3fa590d3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:41:05 +0000
Subject: [PATCH 33/41] fix: a number in place of a P-automaton is a parse
 error

---
 src/pdaaal-bin/parsing/PAutomatonJsonParser.h | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/pdaaal-bin/parsing/PAutomatonJsonParser.h b/src/pdaaal-bin/parsing/PAutomatonJsonParser.h
index c92c340..96bdb2e 100644
--- a/src/pdaaal-bin/parsing/PAutomatonJsonParser.h
+++ b/src/pdaaal-bin/parsing/PAutomatonJsonParser.h
@@ -199,6 +199,9 @@ namespace pdaaal::parsing {
         bool boolean(bool value) { return error_unexpected("boolean", value); }
         bool number_integer(number_integer_t value) { return error_unexpected("integer", value); }
         bool number_unsigned(number_unsigned_t value) {
+            if (no_context()) {
+                return error_unexpected("unsigned", value);
+            }
             switch (current_context_type()) {
                 case context_type::initial_array:
                     if constexpr(std::is_same_v<pda_state_t,size_t>) {
-- 
2.43.0


From 9ce473a85284f932f7912ff24b5e06d948a43263 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:41:05 +0000
Subject: [PATCH 34/41] fix: a P-automaton edge with missing elements is a
 parse error

---
 src/pdaaal-bin/parsing/PAutomatonJsonParser.h | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/pdaaal-bin/parsing/PAutomatonJsonParser.h b/src/pdaaal-bin/parsing/PAutomatonJsonParser.h
index 96bdb2e..1a211c7 100644
--- a/src/pdaaal-bin/parsing/PAutomatonJsonParser.h
+++ b/src/pdaaal-bin/parsing/PAutomatonJsonParser.h
@@ -383,6 +383,10 @@ namespace pdaaal::parsing {
             }
             switch (current_context_type()) {
                 case context_type::edge_context:
+                    if (current_context().get_index() != 3) {
+                        errors() << "error: An edge should contain exactly three elements, but has " << current_context().get_index() << "." << std::endl;
+                        return false;
+                    }
                     assert(current_from_state != std::numeric_limits<size_t>::max());
                     assert(current_to_state != std::numeric_limits<size_t>::max());
                     if (current_label.empty()) {
-- 
2.43.0


From 7c7bf8ae002049ba7749bd657a1740bf6cddbc09 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:41:05 +0000
Subject: [PATCH 35/41] fix: P-automata can mix named and numbered extra states

---
 src/pdaaal-bin/parsing/PAutomatonJsonParser.h | 14 +++++++++++---
 1 file changed, 11 insertions(+), 3 deletions(-)

diff --git a/src/pdaaal-bin/parsing/PAutomatonJsonParser.h b/src/pdaaal-bin/parsing/PAutomatonJsonParser.h
index 1a211c7..9200254 100644
--- a/src/pdaaal-bin/parsing/PAutomatonJsonParser.h
+++ b/src/pdaaal-bin/parsing/PAutomatonJsonParser.h
@@ -129,6 +129,7 @@ namespace pdaaal::parsing {
         automaton_t automaton;
 
         std::unordered_map<size_t,size_t> extra_state_map;
+        std::unordered_map<std::string,size_t> extra_named_state_map;
 
         std::string current_label;
         size_t current_from_state = 0;
@@ -172,12 +173,19 @@ namespace pdaaal::parsing {
             if constexpr(std::is_same_v<pda_state_t,std::string>) {
                 auto [exists, id] = automaton.exists_state(state);
                 if (!exists) {
+                    if (auto it = extra_named_state_map.find(state); it != extra_named_state_map.end()) {
+                        return it->second;
+                    }
                     id = automaton.add_state(false, false); // accepting is set later.
+                    if (extra_state_map.empty()) {
 #ifndef NDEBUG
-                    auto id2 =
+                        auto id2 =
 #endif
-                            automaton.insert_state(state);
-                    assert(id == id2);
+                                automaton.insert_state(state);
+                        assert(id == id2);
+                    } else { // The mapping in automaton requires named states to come before any unnamed states.
+                        extra_named_state_map.emplace(state, id);
+                    }
                 }
                 return id;
             } else {
-- 
2.43.0


From 4b2d0eb74045fb545d229d59b5645a27e622aaae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:41:05 +0000
Subject: [PATCH 36/41] fix: JSON of a P-automaton always has the required keys

---
 src/include/pdaaal/PAutomaton.h | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/include/pdaaal/PAutomaton.h b/src/include/pdaaal/PAutomaton.h
index f87dc8a..20516cd 100644
--- a/src/include/pdaaal/PAutomaton.h
+++ b/src/include/pdaaal/PAutomaton.h
@@ -138,6 +138,10 @@ namespace pdaaal {
     template<bool with_initial = true, typename label_t, typename W, typename state_t, bool skip_state_mapping, TraceInfoType trace_info_type>
     void to_json_impl(json& j, const PAutomaton<label_t,W,state_t,skip_state_mapping,trace_info_type>& automaton) {
         j = json::object();
+        if constexpr(with_initial) {
+            j["initial"] = json::array();
+        }
+        j["accepting"] = json::array();
         size_t num_pda_states = automaton.pda().states().size();
         json j_edges = json::array();
         for (const auto& state : automaton.states()) {
-- 
2.43.0


From ce7e21df25f4beeb48b7dd4019aa861146c28480 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:57:16 +0000
Subject: [PATCH 37/41] fix: an unknown quoted state in a P-automaton text is a
 parse error

---
 src/pdaaal-bin/parsing/PAutomatonParser.h | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/src/pdaaal-bin/parsing/PAutomatonParser.h b/src/pdaaal-bin/parsing/PAutomatonParser.h
index 624d53c..a643527 100644
--- a/src/pdaaal-bin/parsing/PAutomatonParser.h
+++ b/src/pdaaal-bin/parsing/PAutomatonParser.h
@@ -41,8 +41,10 @@ namespace pdaaal::parsing {
         template<typename ParseInput, typename... States >
         explicit string_state(const ParseInput&, States&&...) { }
         template<typename ParseInput, typename... States >
-        void success(const ParseInput&, States&&... st) {
-            (st.accept_string(*this), ...);
+        void success(const ParseInput& in, States&&... st) {
+            if (!(st.accept_string(*this) && ...)) {
+                throw pegtl::parse_error("state is not found in the PDA.", in);
+            }
         }
     };
     struct string_literal : pegtl::state<string_state, pegtl::one< '"' >, pegtl::until< pegtl::one< '"' >, character > > {};
@@ -83,8 +85,8 @@ namespace pdaaal::parsing {
             }
             return found;
         }
-        void accept_string(const std::string& s) {
-            add_state(s);
+        bool accept_string(const std::string& s) {
+            return add_state(s);
         }
         [[nodiscard]] const std::function<uint32_t(const std::string&)>& get_label_map() const {
             return _label_mapping;
-- 
2.43.0


From 700739092e048577a309208e1ed77aeaf6ecd4ca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:20:08 +0000
Subject: [PATCH 38/41] fix: fixed-point search with vector weights terminates

The bottom of vector and array weights was not absorbing, so a weight
without bound kept improving, and elements could overflow.
---
 src/include/pdaaal/Weight.h | 14 ++++++++++++++
 1 file changed, 14 insertions(+)

diff --git a/src/include/pdaaal/Weight.h b/src/include/pdaaal/Weight.h
index a5e7b61..6392333 100644
--- a/src/include/pdaaal/Weight.h
+++ b/src/include/pdaaal/Weight.h
@@ -142,6 +142,12 @@ namespace pdaaal {
                         if (rhs < 0 && lhs < bottom_val - rhs) return bottom_val;
                     }
                 }
+                // In the other direction stay at the worst finite weight.
+                if constexpr (!maximize) {
+                    if (rhs > 0 && lhs > max_val - rhs) return max_val - 1;
+                } else if constexpr (is_signed) {
+                    if (rhs < 0 && lhs < max_val - rhs) return max_val + 1;
+                }
                 return lhs + rhs;
             };
         };
@@ -160,9 +166,13 @@ namespace pdaaal {
                         weight_impl<Inner, maximize>::less);
             }
             static constexpr type add(const type& lhs, const type& rhs) {
+                if (lhs == max() || rhs == max()) return max();
                 std::array<Inner, N> res{};
                 for (size_t i = 0; i < N; ++i) {
                     res[i] = weight_impl<Inner, maximize>::add(lhs[i], rhs[i]);
+                    if constexpr (maximize || parent_t::is_signed) { // An element without bound makes the weight unbounded.
+                        if (res[i] == weight_impl<Inner, maximize>::bottom()) return bottom();
+                    }
                 }
                 return res;
             };
@@ -195,10 +205,14 @@ namespace pdaaal {
                 }
             }
             static constexpr type add(const type& lhs, const type& rhs) {
+                if (lhs == max() || rhs == max()) return max();
                 const auto& [small, large] = std::minmax(lhs, rhs, [](const type& l, const type& r){ return l.size() < r.size(); });
                 std::vector<Inner> result = large;
                 std::transform(small.begin(), small.end(), large.begin(),
                                result.begin(), weight_impl<Inner, maximize>::add);
+                if constexpr (maximize || is_signed) { // An element without bound makes the weight unbounded.
+                    if (std::find(result.begin(), result.end(), weight_impl<Inner, maximize>::bottom()) != result.end()) return bottom();
+                }
                 return result;
             };
         };
-- 
2.43.0


From 4388c3d4ec33dc28d14570a2ebbf9e651d2ef551 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:44:08 +0000
Subject: [PATCH 39/41] fix: pre_star_accepts_no_ET can be instantiated

---
 src/include/pdaaal/Solver.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/include/pdaaal/Solver.h b/src/include/pdaaal/Solver.h
index b3fdfed..fda6648 100644
--- a/src/include/pdaaal/Solver.h
+++ b/src/include/pdaaal/Solver.h
@@ -250,7 +250,7 @@ namespace pdaaal {
         template <typename pda_t, typename automaton_t, typename W>
         static bool pre_star_accepts_no_ET(PAutomatonProduct<pda_t,automaton_t,W>& instance) {
             instance.enable_pre_star();
-            pre_star<W,false>(instance.automaton());
+            pre_star<Trace_Type::Any,W>(instance.automaton());
             return instance.template initialize_product<false,false>();
         }
         template <Trace_Type trace_type = Trace_Type::Any, typename pda_t, typename automaton_t, typename W>
-- 
2.43.0


From d5a50ab7e168998223c442a73e11c3e6a9e3d995 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:44:08 +0000
Subject: [PATCH 40/41] fix: search without early termination honours the trace
 type

---
 src/include/pdaaal/Solver.h | 12 +++++++-----
 1 file changed, 7 insertions(+), 5 deletions(-)

diff --git a/src/include/pdaaal/Solver.h b/src/include/pdaaal/Solver.h
index fda6648..8e7858a 100644
--- a/src/include/pdaaal/Solver.h
+++ b/src/include/pdaaal/Solver.h
@@ -247,16 +247,18 @@ namespace pdaaal {
             }
         }
 
-        template <typename pda_t, typename automaton_t, typename W>
+        template <Trace_Type trace_type = Trace_Type::Any, typename pda_t, typename automaton_t, typename W>
         static bool pre_star_accepts_no_ET(PAutomatonProduct<pda_t,automaton_t,W>& instance) {
             instance.enable_pre_star();
-            pre_star<Trace_Type::Any,W>(instance.automaton());
-            return instance.template initialize_product<false,false>();
+            pre_star<trace_type,W>(instance.automaton());
+            instance.template initialize_product<false,false,trace_type>();
+            return instance.product_automaton().has_accepting_state();
         }
         template <Trace_Type trace_type = Trace_Type::Any, typename pda_t, typename automaton_t, typename W>
         static bool post_star_accepts_no_ET(PAutomatonProduct<pda_t,automaton_t,W>& instance) {
-            post_star(instance.automaton());
-            return instance.template initialize_product<false,false>();
+            post_star<trace_type>(instance.automaton());
+            instance.template initialize_product<false,false,trace_type>();
+            return instance.product_automaton().has_accepting_state();
         }
 
         template <Trace_Type trace_type = Trace_Type::Any, typename pda_t, typename automaton_t, typename W, TraceInfoType trace_info_type>
-- 
2.43.0


From 8a1da392ec69970ebddf645a2cd778c004ccc501 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:16:06 +0000
Subject: [PATCH 41/41] fix: insert_or_assign on nested fut sets compiles

---
 src/include/pdaaal/utils/fut_set.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/include/pdaaal/utils/fut_set.h b/src/include/pdaaal/utils/fut_set.h
index 37e2782..5000991 100644
--- a/src/include/pdaaal/utils/fut_set.h
+++ b/src/include/pdaaal/utils/fut_set.h
@@ -150,7 +150,7 @@ namespace pdaaal::fut {
 
             template <typename... Args>
             auto insert_or_assign(Args &&... args) { // In set_containers insert_or_assign is just emplace. Provide it here, to have consistent interface.
-                return emplace(std::forward<Args>(args)...);
+                return this->emplace(std::forward<Args>(args)...);
             }
         };
 
-- 
2.43.0

