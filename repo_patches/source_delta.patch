From 7c4657bb2884458e0fa9322861acf485a7f9c7cd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:37:00 +0000
Subject: [PATCH 01/22] fix: propagation levels and budgets with zero
 propagation

With --propagate=zero, an edge is disabled when it is propagated through the
zero node. If --propagate-root or --propagate-budget also enables full
propagation, the edge was disabled a second time, which corrupted the degree
counts and the trail of disabled edges.
---
 libclingo-dl/src/graph.cc | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/libclingo-dl/src/graph.cc b/libclingo-dl/src/graph.cc
index a2867ca..4996e07 100644
--- a/libclingo-dl/src/graph.cc
+++ b/libclingo-dl/src/graph.cc
@@ -663,7 +663,7 @@ template <typename T> auto Graph<T>::add_edge(Clingo::PropagateControl &ctl, edg
     costs_heap_.clear();
 
     // propagate cycles through zero node
-    // (using equality here intentional because full and zero vertex propagation should be exclusive)
+    // (full propagation can be enabled additionally by setting a propagation level or budget)
     if (mode() == PropagationMode::Zero) {
         consistent = consistent && propagate_zero_(ctl, uv_idx, zero_idx);
     }
@@ -858,7 +858,10 @@ template <typename T> auto Graph<T>::propagate_full_(Clingo::PropagateControl &c
     //
     // There is a negative cycle, if cost(x ->* u) + cost(v *<- y) - cost(x -> y) + cost(u -> v) is negative.
     ++stats_.edges_propagated;
-    disable_edge(xy_idx);
+    // Note: the edge has already been disabled if it has been propagated through the zero node
+    if (edge_is_enabled(xy_idx)) {
+        disable_edge(xy_idx);
+    }
     auto &xy = edges_[xy_idx];
     auto &x = vertices_[xy.from];
     auto &y = vertices_[xy.to];
-- 
2.43.0


From ee653020f2b6c7819c3216def35120575d248248 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:37:29 +0000
Subject: [PATCH 02/22] fix: pass zero node of component to zero propagation

The zero propagation mode received the index of the connected component
instead of the zero node of the component and thus missed conflicts through
the zero nodes of all components but the first.
---
 libclingo-dl/src/graph.cc      | 3 ++-
 libclingo-dl/src/propagator.cc | 2 +-
 2 files changed, 3 insertions(+), 2 deletions(-)

diff --git a/libclingo-dl/src/graph.cc b/libclingo-dl/src/graph.cc
index 4996e07..56db42d 100644
--- a/libclingo-dl/src/graph.cc
+++ b/libclingo-dl/src/graph.cc
@@ -498,7 +498,8 @@ template <typename T> template <typename D> struct Graph<T>::Impl : Graph {
         if (!visited_set().empty()) {
             auto costs = bellman_ford_(changed_edges_, zero_idx);
             assert(costs.has_value());
-            assert(costs->size() == bound_visited_set().size());
+            // Note: there can be one zero node for each connected component
+            assert(costs->size() <= bound_visited_set().size());
             for (auto [vertex_idx, value] : *costs) {
                 static_cast<void>(vertex_idx);
                 static_cast<void>(value);
diff --git a/libclingo-dl/src/propagator.cc b/libclingo-dl/src/propagator.cc
index 54276a8..0bb2b9d 100644
--- a/libclingo-dl/src/propagator.cc
+++ b/libclingo-dl/src/propagator.cc
@@ -744,7 +744,7 @@ void DLPropagator<T>::do_propagate(Clingo::PropagateControl &ctl, Clingo::Litera
             auto &edge = edges_[edge_idx];
             auto &info = vertex_info_[edge.from];
             // check for conflicts
-            if (!state.graph.add_edge(ctl, edge_idx, info.cc)) {
+            if (!state.graph.add_edge(ctl, edge_idx, zero_vertices_[info.cc])) {
                 return;
             }
         }
-- 
2.43.0


From c5ca9d8da8f0445bc344efa5bf58cc1a3ad3c8b5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:37:47 +0000
Subject: [PATCH 03/22] fix: respect maximum size of mutexes

With --add-mutexes=1, mutexes with two literals were added.
---
 libclingo-dl/src/propagator.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/libclingo-dl/src/propagator.cc b/libclingo-dl/src/propagator.cc
index 0bb2b9d..cf22c55 100644
--- a/libclingo-dl/src/propagator.cc
+++ b/libclingo-dl/src/propagator.cc
@@ -592,7 +592,7 @@ void DLPropagator<T>::calculate_mutexes_(Clingo::PropagateInit &init, edge_t edg
                 if (found == 0 && st_truth == Clingo::TruthValue::Free) {
                     n += 1;
                 }
-                if (st.to == start.from && w < 0) {
+                if (n <= conf_.mutex_size && st.to == start.from && w < 0) {
                     ++stats_.mutexes;
                     clause.emplace_back(-st.lit);
                     auto c = queue_offset;
-- 
2.43.0


From 7853280b650c41191ce3000df5225151b09dbbe7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:38:11 +0000
Subject: [PATCH 04/22] fix: reject invalid values for option dl-heuristic

Unknown values silently disabled the heuristic. The documented value `none` is
accepted in addition to `no`.
---
 libclingo-dl/src/clingo-dl.cc | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/libclingo-dl/src/clingo-dl.cc b/libclingo-dl/src/clingo-dl.cc
index 8efc17c..c2037aa 100644
--- a/libclingo-dl/src/clingo-dl.cc
+++ b/libclingo-dl/src/clingo-dl.cc
@@ -389,12 +389,14 @@ auto parse_sort(const char *value, void *data) -> bool {
 //! Return false if there is a parse error.
 auto parse_decide(const char *value, void *data) -> bool {
     DecisionMode mode = DecisionMode::Disabled;
-    if (iequals(value, "no")) {
+    if (iequals(value, "no") || iequals(value, "none")) {
         mode = DecisionMode::Disabled;
     } else if (iequals(value, "min")) {
         mode = DecisionMode::MinConflict;
     } else if (iequals(value, "max")) {
         mode = DecisionMode::MaxConflict;
+    } else {
+        return false;
     }
     static_cast<PropagatorConfig *>(data)->decision_mode = mode;
     return true;
-- 
2.43.0


From a55a562455645185e5a17e0941f5d241650f2819 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:38:15 +0000
Subject: [PATCH 05/22] fix: reject trailing characters in values for option
 add-mutexes

Values like `10x` were accepted and values like `10,x` changed the
configuration even though an error was reported.
---
 libclingo-dl/src/clingo-dl.cc | 19 +++++++------------
 1 file changed, 7 insertions(+), 12 deletions(-)

diff --git a/libclingo-dl/src/clingo-dl.cc b/libclingo-dl/src/clingo-dl.cc
index c2037aa..005e9fc 100644
--- a/libclingo-dl/src/clingo-dl.cc
+++ b/libclingo-dl/src/clingo-dl.cc
@@ -320,21 +320,16 @@ auto parse_budget(const char *value, void *data) -> bool {
 //! Return false if there is a parse error.
 auto parse_mutex(const char *value, void *data) -> bool {
     auto &pc = *static_cast<PropagatorConfig *>(data);
-    uint64_t x = 0;
-    if ((value = parse_uint64_pre(value, &x)) == nullptr) {
+    uint64_t size = 0;
+    if ((value = parse_uint64_pre(value, &size)) == nullptr) {
         return false;
     }
-    pc.mutex_size = x;
-    if (*value == '\0') {
-        pc.mutex_cutoff = 10 * x; // NOLINT
-        return true;
-    }
-    if (*value == ',') {
-        if (!parse_uint64(value + 1, &x)) {
-            return false;
-        } // NOLINT
-        pc.mutex_cutoff = x;
+    uint64_t cutoff = 10 * size; // NOLINT
+    if (*value != '\0' && (*value != ',' || !parse_uint64(value + 1, &cutoff))) {
+        return false;
     }
+    pc.mutex_size = size;
+    pc.mutex_cutoff = cutoff;
     return true;
 }
 
-- 
2.43.0


From f83e38db7185a4ad6895411083ff35161ce3fb52 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:38:18 +0000
Subject: [PATCH 06/22] fix: detect overflows in numeric option values

The check missed overflows that wrap around to larger numbers, for example
99999999999999999999.
---
 libclingo-dl/src/clingo-dl.cc | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/libclingo-dl/src/clingo-dl.cc b/libclingo-dl/src/clingo-dl.cc
index 005e9fc..06311d4 100644
--- a/libclingo-dl/src/clingo-dl.cc
+++ b/libclingo-dl/src/clingo-dl.cc
@@ -27,6 +27,7 @@
 
 #include <clingo.h>
 #include <clingo.hh>
+#include <limits>
 #include <sstream>
 
 #define CLINGODL_TRY try // NOLINT
@@ -252,12 +253,11 @@ auto parse_uint64_pre(const char *value, void *data) -> char const * {
 
     for (; *it != '\0'; ++it) { // NOLINT
         if ('0' <= *it && *it <= '9') {
-            auto tmp = res;
-            res *= 10; // NOLINT
-            res += *it - '0';
-            if (res < tmp) {
+            auto digit = static_cast<uint64_t>(*it - '0');
+            if (res > (std::numeric_limits<uint64_t>::max() - digit) / 10) { // NOLINT
                 return nullptr;
             }
+            res = 10 * res + digit; // NOLINT
         } else {
             break;
         }
-- 
2.43.0


From 6e62fa022cbccce69d21bb0e2ffc8993107eecfd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:38:21 +0000
Subject: [PATCH 07/22] fix: name option correctly in error message for
 propagate-budget

---
 libclingo-dl/src/clingo-dl.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/libclingo-dl/src/clingo-dl.cc b/libclingo-dl/src/clingo-dl.cc
index 06311d4..b29fe2b 100644
--- a/libclingo-dl/src/clingo-dl.cc
+++ b/libclingo-dl/src/clingo-dl.cc
@@ -494,7 +494,7 @@ extern "C" auto clingodl_configure(clingodl_theory_t *theory, char const *key, c
             return check_parse("propagate-root", parse_root(value, &theory->config));
         }
         if (strcmp(key, "propagate-budget") == 0) {
-            return check_parse("propgate-budget", parse_budget(value, &theory->config));
+            return check_parse("propagate-budget", parse_budget(value, &theory->config));
         }
         if (strcmp(key, "add-mutexes") == 0) {
             return check_parse("add-mutexes", parse_mutex(value, &theory->config));
-- 
2.43.0


From e4fbc5eafa2b479b0f42ae7e47e5a90d7d17d0d5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:38:27 +0000
Subject: [PATCH 08/22] fix: do not truncate values of option propagate-root

Values of 2^32 and above were reduced modulo 2^32.
---
 libclingo-dl/src/propagator.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/libclingo-dl/src/propagator.cc b/libclingo-dl/src/propagator.cc
index cf22c55..69eb1f8 100644
--- a/libclingo-dl/src/propagator.cc
+++ b/libclingo-dl/src/propagator.cc
@@ -87,7 +87,7 @@ template <typename T> struct DLPropagator<T>::VertexInfo {
 //! Struct to store thread specific state.
 template <typename T> struct DLPropagator<T>::ThreadState {
     ThreadState(ThreadStatistics &stats, const std::vector<Edge> &edges, PropagationMode propagate,
-                level_t propagate_root, uint64_t propagate_budget)
+                uint64_t propagate_root, uint64_t propagate_budget)
         : stats{stats}, graph{stats, edges, propagate}, propagate_root{propagate_root},
           propagate_budget{propagate_budget} {}
 
-- 
2.43.0


From 866dc21bfd2e1570c4570ab95473e4ddc516cfa6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:38:31 +0000
Subject: [PATCH 09/22] fix: configure the decision heuristic for each theory
 separately

The static propagator struct was initialized with the configuration of the
first theory. Theories registered later ignored their dl-heuristic setting.
---
 libclingo-dl/src/clingo-dl.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/libclingo-dl/src/clingo-dl.cc b/libclingo-dl/src/clingo-dl.cc
index b29fe2b..31996c8 100644
--- a/libclingo-dl/src/clingo-dl.cc
+++ b/libclingo-dl/src/clingo-dl.cc
@@ -138,7 +138,7 @@ template <typename T> class DLPropagatorFacade : public PropagatorFacade {
   public:
     DLPropagatorFacade(clingo_control_t *control, PropagatorConfig const &conf) : prop_{step_, conf} {
         handle_error(clingo_control_add(control, "base", nullptr, 0, THEORY));
-        static clingo_propagator_t prop = {init<T>, propagate<T>, undo<T>, check<T>,
+        clingo_propagator_t prop = {init<T>, propagate<T>, undo<T>, check<T>,
                                            conf.decision_mode != DecisionMode::Disabled ? decide<T> : nullptr};
         handle_error(clingo_control_register_propagator(control, &prop, &prop_, false));
     }
-- 
2.43.0


From 27da5ac982448f7dde74dd53828ece3b5b202cbd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:40:00 +0000
Subject: [PATCH 10/22] fix: watch existing edges in threads added in later
 steps

If the number of threads was increased between solve calls, the new threads
did not watch the edges of previous steps and failed with the error "not a
valid solution".
---
 libclingo-dl/clingo-dl/propagator.hh |  2 ++
 libclingo-dl/src/propagator.cc       | 24 ++++++++++++++++++------
 2 files changed, 20 insertions(+), 6 deletions(-)

diff --git a/libclingo-dl/clingo-dl/propagator.hh b/libclingo-dl/clingo-dl/propagator.hh
index b1eff00..aa3b9a2 100644
--- a/libclingo-dl/clingo-dl/propagator.hh
+++ b/libclingo-dl/clingo-dl/propagator.hh
@@ -127,6 +127,8 @@ template <typename T> class DLPropagator : public Clingo::Heuristic {
                     bool strict);
     //! Add (up to one) edge for a constraint.
     void add_edge_(Clingo::PropagateInit &init, vertex_t u_id, vertex_t v_id, value_t weight, literal_t lit);
+    //! Add watches for an edge literal to a thread.
+    void add_watches_(Clingo::PropagateInit &init, literal_t lit, Clingo::id_t thread_id);
     //! Reset connected components (to be recalculated with the next call to cc_calculate_).
     void cc_reset_();
     //! Mark a vertex in a component as visited.
diff --git a/libclingo-dl/src/propagator.cc b/libclingo-dl/src/propagator.cc
index 69eb1f8..6b72f9a 100644
--- a/libclingo-dl/src/propagator.cc
+++ b/libclingo-dl/src/propagator.cc
@@ -164,6 +164,13 @@ template <typename T> void DLPropagator<T>::init(Clingo::PropagateInit &init) {
     edge_t edge_start = edges_.size();
 
     Timer t{stats_.time_init};
+    // watch existing edges in threads that have been added since the last step
+    for (auto i = numeric_cast<Clingo::id_t>(facts_.size());
+         i < numeric_cast<Clingo::id_t>(init.number_of_threads()); ++i) {
+        for (auto &edge : edges_) {
+            add_watches_(init, edge.lit, i);
+        }
+    }
     if (!add_constraints_(init)) {
         return;
     }
@@ -422,12 +429,17 @@ void DLPropagator<T>::add_edge_(Clingo::PropagateInit &init, vertex_t u_id, vert
     edges_.push_back({u_id, v_id, weight, lit});
     lit_to_edges_.emplace(lit, id);
     for (int i = 0; i < init.number_of_threads(); ++i) {
-        init.add_watch(lit, i);
-        if (conf_.get_propagate_mode(i) >= PropagationMode::Zero || conf_.get_propagate_root(i) > 0 ||
-            conf_.get_propagate_budget(i) > 0) {
-            disable_edges_ = true;
-            init.add_watch(-lit, i);
-        }
+        add_watches_(init, lit, i);
+    }
+}
+
+template <typename T>
+void DLPropagator<T>::add_watches_(Clingo::PropagateInit &init, literal_t lit, Clingo::id_t thread_id) {
+    init.add_watch(lit, thread_id);
+    if (conf_.get_propagate_mode(thread_id) >= PropagationMode::Zero || conf_.get_propagate_root(thread_id) > 0 ||
+        conf_.get_propagate_budget(thread_id) > 0) {
+        disable_edges_ = true;
+        init.add_watch(-lit, thread_id);
     }
 }
 
-- 
2.43.0


From 2c23999211244dbc3867131aee051aa8f05fd462 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:40:06 +0000
Subject: [PATCH 11/22] fix: out of bounds access when accumulating statistics

If the number of threads was decreased between solve calls, statistics past
the end of the vector with the statistics of the current step were read.
---
 libclingo-dl/src/propagator.cc | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/libclingo-dl/src/propagator.cc b/libclingo-dl/src/propagator.cc
index 6b72f9a..939fc00 100644
--- a/libclingo-dl/src/propagator.cc
+++ b/libclingo-dl/src/propagator.cc
@@ -64,9 +64,9 @@ void Statistics::accu(Statistics const &x) {
     if (thread_statistics.size() < x.thread_statistics.size()) {
         thread_statistics.resize(x.thread_statistics.size());
     }
-    auto it = x.thread_statistics.begin();
-    for (auto &y : thread_statistics) {
-        y.accu(*it++);
+    auto it = thread_statistics.begin();
+    for (auto const &y : x.thread_statistics) {
+        (it++)->accu(y);
     }
 }
 
-- 
2.43.0


From 648eeb191adeef49f94fe075e028dd20814e6283 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:41:36 +0000
Subject: [PATCH 12/22] fix: evaluate divisions in difference constraints

The result of a division like 6/2 was treated as a variable named 3 and not as
the constant 3.
---
 libclingo-dl/src/parsing.cc | 13 +++++++++++++
 1 file changed, 13 insertions(+)

diff --git a/libclingo-dl/src/parsing.cc b/libclingo-dl/src/parsing.cc
index a221c88..7203f16 100644
--- a/libclingo-dl/src/parsing.cc
+++ b/libclingo-dl/src/parsing.cc
@@ -340,6 +340,19 @@ void parse_elem(Clingo::TheoryTerm const &term, std::function<int(Clingo::Symbol
                 }
             }
         }
+    } else if (match(term, "/", 2)) {
+        auto args = term.arguments();
+        auto parse_const = [&map_vert](Clingo::TheoryTerm const &term) {
+            N ret{0};
+            CoVarVec<N> elems;
+            parse_elem(term, map_vert, elems);
+            for (auto &[co, var] : elems) {
+                check_syntax(!is_valid_var(var), "Invalid Syntax: only constants can be divided");
+                ret = safe_add<N>(ret, co);
+            }
+            return ret;
+        };
+        res.emplace_back(safe_div<N>(parse_const(args.front()), parse_const(args.back())), INVALID_VAR);
     } else if (term.type() == Clingo::TheoryTermType::Symbol) {
         if (auto val = parse_number<N>(term.name()); val) {
             res.emplace_back(*val, INVALID_VAR);
-- 
2.43.0


From c7a0dc69bb2460d58f474c353a97b91b966f71e6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:43:08 +0000
Subject: [PATCH 13/22] fix: integer overflows with large values for option
 minimize-factor

The search bound was clamped to the smallest integer, which is rejected when
the constraint enforcing the bound is parsed.
---
 app/lib/src/app.cc | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/app/lib/src/app.cc b/app/lib/src/app.cc
index 6a00b05..2ee8d82 100644
--- a/app/lib/src/app.cc
+++ b/app/lib/src/app.cc
@@ -116,8 +116,10 @@ auto Optimizer::on_model(Clingo::Model &model) -> bool {
     if (lower_bound_ && aux <= *lower_bound_) {
         aux = *lower_bound_ + 1.0;
     }
-    if (aux < std::numeric_limits<int_value_t>::min()) {
-        aux = std::numeric_limits<int_value_t>::min();
+    // Note: stay clear of the smallest values to not cause overflows when the bound is propagated
+    static constexpr auto min_bound = std::numeric_limits<int_value_t>::min() / 2;
+    if (aux < min_bound) {
+        aux = min_bound;
     }
     search_bound_ = static_cast<int_value_t>(aux);
 
-- 
2.43.0


From 1ae8a3a38bcf7a60498bac2cbbe758c59e84fab8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:46:21 +0000
Subject: [PATCH 14/22] fix: full propagation with parallel edges

If an edge was added parallel to an edge with a larger weight, the end point
of the added edge was not marked as relevant and full propagation missed
consequences of the added edge.
---
 libclingo-dl/src/graph.cc | 20 ++++++++------------
 1 file changed, 8 insertions(+), 12 deletions(-)

diff --git a/libclingo-dl/src/graph.cc b/libclingo-dl/src/graph.cc
index 56db42d..ce62bb7 100644
--- a/libclingo-dl/src/graph.cc
+++ b/libclingo-dl/src/graph.cc
@@ -391,24 +391,20 @@ template <typename T> template <typename D> struct Graph<T>::Impl : Graph {
                 // this. Explicitely using uv.from and uv.to is intended here.
                 auto c = cost(u_idx) + vertices_[uv.from].potential() + uv.weight - vertices_[uv.to].potential();
                 assert(vertices_[uv.from].potential() + uv.weight - vertices_[uv.to].potential() >= 0);
-                if (!visited(v_idx) || less(c, relevant_u, v_idx)) {
-                    bool relevant_v = relevant(v_idx);
+                // NOTE: There can be other edges parallel to the relevant edge.
+                bool relevant_uv = relevant_u || uv_idx == relevant_idx;
+                if (!visited(v_idx) || less(c, relevant_uv, v_idx)) {
                     cost(v_idx) = c;
+                    // vertex v became or lost relevance
+                    if (relevant_uv != relevant(v_idx)) {
+                        relevant(v_idx) = relevant_uv;
+                        num_relevant += relevant_uv ? 1 : -1;
+                    }
                     if (!visited(v_idx)) {
-                        // vertex v became relevant
-                        if (relevant_u && !relevant_v) {
-                            ++num_relevant;
-                        }
                         visited_set().push_back(to(uv_idx));
                         visited(v_idx) = true;
-                        relevant(v_idx) = relevant_u || uv_idx == relevant_idx;
                         costs_heap_.push(*this, v_idx);
                     } else {
-                        // vertex v became or lost relevance
-                        if (relevant_u != relevant_v) {
-                            relevant(v_idx) = relevant_u;
-                            num_relevant += relevant_u ? 1 : -1;
-                        }
                         costs_heap_.decrease(*this, v_idx);
                     }
                     path(v_idx) = uv_idx;
-- 
2.43.0


From fc11848319e7a6eec0848bd6c8af25fbd46e40dd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:51:15 +0000
Subject: [PATCH 15/22] fix: watch edges in threads that are removed and added
 again

If the number of threads was decreased and then increased again between solve
calls, the added threads did not watch all edges of previous steps and failed
with the error "not a valid solution".
---
 libclingo-dl/src/propagator.cc | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/libclingo-dl/src/propagator.cc b/libclingo-dl/src/propagator.cc
index 939fc00..eaf25bf 100644
--- a/libclingo-dl/src/propagator.cc
+++ b/libclingo-dl/src/propagator.cc
@@ -164,6 +164,10 @@ template <typename T> void DLPropagator<T>::init(Clingo::PropagateInit &init) {
     edge_t edge_start = edges_.size();
 
     Timer t{stats_.time_init};
+    // forget about threads that have been removed since the last step
+    if (numeric_cast<size_t>(init.number_of_threads()) < facts_.size()) {
+        facts_.resize(init.number_of_threads());
+    }
     // watch existing edges in threads that have been added since the last step
     for (auto i = numeric_cast<Clingo::id_t>(facts_.size());
          i < numeric_cast<Clingo::id_t>(init.number_of_threads()); ++i) {
-- 
2.43.0


From b9a6e159429b8b388c6471579d69f13a011815a8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:43:55 +0000
Subject: [PATCH 16/22] fix: watch edges in threads re-created by a change of
 the configuration

---
 libclingo-dl/src/propagator.cc | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/libclingo-dl/src/propagator.cc b/libclingo-dl/src/propagator.cc
index eaf25bf..796e562 100644
--- a/libclingo-dl/src/propagator.cc
+++ b/libclingo-dl/src/propagator.cc
@@ -168,9 +168,9 @@ template <typename T> void DLPropagator<T>::init(Clingo::PropagateInit &init) {
     if (numeric_cast<size_t>(init.number_of_threads()) < facts_.size()) {
         facts_.resize(init.number_of_threads());
     }
-    // watch existing edges in threads that have been added since the last step
-    for (auto i = numeric_cast<Clingo::id_t>(facts_.size());
-         i < numeric_cast<Clingo::id_t>(init.number_of_threads()); ++i) {
+    // watch existing edges in threads that might have been added since the last
+    // step (note that adding an existing watch has no effect)
+    for (Clingo::id_t i = 1; i < numeric_cast<Clingo::id_t>(init.number_of_threads()); ++i) {
         for (auto &edge : edges_) {
             add_watches_(init, edge.lit, i);
         }
-- 
2.43.0


From 42469b35718d7baba53785f7cf71d8d4bddc98ea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:58:12 +0000
Subject: [PATCH 17/22] fix: tolerate rounding errors when checking solutions
 over floating point numbers

---
 libclingo-dl/src/propagator.cc | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/libclingo-dl/src/propagator.cc b/libclingo-dl/src/propagator.cc
index 796e562..b2fdd79 100644
--- a/libclingo-dl/src/propagator.cc
+++ b/libclingo-dl/src/propagator.cc
@@ -226,10 +226,12 @@ template <typename T> void DLPropagator<T>::check(Clingo::PropagateControl &ctl)
     }
 #if defined(CLINGODL_CHECKSOLUTION) || defined(CLINGODL_CROSSCHECK)
     if (ctl.assignment().is_total()) {
+        // Note: differences of floating point numbers are subject to rounding (the tolerance is zero for integers)
+        T const tolerance = epsilon<T>() / 2;
         for (auto &x : edges_) {
             if (ctl.assignment().is_true(x.lit)) {
                 if (!state.graph.has_value(x.from) || !state.graph.has_value(x.to) ||
-                    !(state.graph.get_value(x.from) - state.graph.get_value(x.to) <= x.weight)) {
+                    !(state.graph.get_value(x.from) - state.graph.get_value(x.to) <= x.weight + tolerance)) {
                     throw std::logic_error("not a valid solution");
                 }
             }
-- 
2.43.0


From 8112bb53c5fa76f125d2ccc76520f591d7e95732 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:45:38 +0000
Subject: [PATCH 18/22] fix: let equal terms denote the same variable with
 floating point numbers

---
 libclingo-dl/src/parsing.cc | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/libclingo-dl/src/parsing.cc b/libclingo-dl/src/parsing.cc
index 7203f16..9424f61 100644
--- a/libclingo-dl/src/parsing.cc
+++ b/libclingo-dl/src/parsing.cc
@@ -219,7 +219,12 @@ template <class N, class F, typename std::enable_if<std::is_floating_point_v<N>,
 [[nodiscard]] auto evaluate_binary(Clingo::TheoryTerm const &a, Clingo::TheoryTerm const &b, F &&f) -> Clingo::Symbol {
     auto ea = evaluate<N>(a);
     auto eb = evaluate<N>(b);
-    return Clingo::String(std::to_string(f(to_number<N>(ea), to_number<N>(eb))).c_str());
+    auto res = f(to_number<N>(ea), to_number<N>(eb));
+    // Note: integral results have to denote the same symbol as the corresponding numbers
+    if (res >= std::numeric_limits<int>::min() && res <= std::numeric_limits<int>::max() && res == std::trunc(res)) {
+        return Clingo::Number(static_cast<int>(res));
+    }
+    return Clingo::String(std::to_string(res).c_str());
 }
 
 //! Parse a string to a number.
-- 
2.43.0


From 22d5504daefd4d30852476d7a3feec0ef8ac0a9e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:47:57 +0000
Subject: [PATCH 19/22] fix: reject divisions by zero with floating point
 numbers

---
 libclingo-dl/clingo-dl/impl/util.hh | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/libclingo-dl/clingo-dl/impl/util.hh b/libclingo-dl/clingo-dl/impl/util.hh
index 5cc3575..192bc00 100644
--- a/libclingo-dl/clingo-dl/impl/util.hh
+++ b/libclingo-dl/clingo-dl/impl/util.hh
@@ -255,6 +255,9 @@ template <typename Int, std::enable_if_t<std::is_integral_v<Int>, int>> auto saf
 
 template <typename Float, std::enable_if_t<std::is_floating_point_v<Float>, int>>
 auto safe_div(Float a, Float b) -> Float {
+    if (b == 0) {
+        throw std::overflow_error("division by zero");
+    }
     return a / b;
 }
 
-- 
2.43.0


From 49778d67b63226594c817a588e0cb08f8873832d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:24:48 +0000
Subject: [PATCH 20/22] fix: reject strings with trailing characters in
 arithmetic terms

---
 libclingo-dl/src/parsing.cc | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/libclingo-dl/src/parsing.cc b/libclingo-dl/src/parsing.cc
index 9424f61..964a2a2 100644
--- a/libclingo-dl/src/parsing.cc
+++ b/libclingo-dl/src/parsing.cc
@@ -196,7 +196,11 @@ template <class T> [[nodiscard]] auto to_number(Clingo::Symbol const &a) -> T {
         return static_cast<T>(a.number());
     }
     if (a.type() == Clingo::SymbolType::String) {
-        return std::stod(a.string());
+        std::string str = a.string();
+        size_t parsed = 0;
+        auto res = std::stod(str, &parsed);
+        check_syntax(parsed == str.size());
+        return res;
     }
     return throw_syntax_error<T>();
 }
-- 
2.43.0


From fa037c729074db715af6ed4e4964597facc29d90 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:38:33 +0000
Subject: [PATCH 21/22] fix: rewrite difference constraints named by symbolic
 terms

The attribute of symbolic terms is called symbol and the tagged copy rather
than the original term has to be changed.
---
 libclingo-dl/src/parsing.cc | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/libclingo-dl/src/parsing.cc b/libclingo-dl/src/parsing.cc
index 964a2a2..4fc2bba 100644
--- a/libclingo-dl/src/parsing.cc
+++ b/libclingo-dl/src/parsing.cc
@@ -60,7 +60,7 @@ auto match_constant(Clingo::AST::Node const &ast, char const *name) -> bool {
     using namespace Clingo::AST;
     switch (ast.type()) {
         case Type::SymbolicTerm: {
-            return ast.get<Clingo::Symbol>(Attribute::Term).match(name, 0);
+            return ast.get<Clingo::Symbol>(Attribute::Symbol).match(name, 0);
         }
         case Type::Function: {
             if (ast.get<int>(Attribute::External) != 0) {
@@ -132,12 +132,12 @@ auto tag_terms(Clingo::AST::Node &ast, char const *tag) -> Clingo::AST::Node {
     using namespace Clingo::AST;
     if (ast.type() == Type::SymbolicTerm) {
         auto ret = ast.copy();
-        auto term = ast.get<Clingo::Symbol>(Attribute::Term);
+        auto term = ast.get<Clingo::Symbol>(Attribute::Symbol);
         check_syntax(term.type() == Clingo::SymbolType::Function);
         std::string name{"__"};
         name += term.name();
         name += tag;
-        ast.set(Attribute::Symbol, Clingo::Function(name.c_str(), {}));
+        ret.set(Attribute::Symbol, Clingo::Function(name.c_str(), {}));
         return ret;
     }
     if (ast.type() == Type::Function) {
-- 
2.43.0


From 70bfddd5a05b4bedaaa52afdfe70c0089e0fbfeb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:56:57 +0000
Subject: [PATCH 22/22] fix: end minimization if a search ends without result

---
 app/lib/src/app.cc | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/app/lib/src/app.cc b/app/lib/src/app.cc
index 2ee8d82..a988089 100644
--- a/app/lib/src/app.cc
+++ b/app/lib/src/app.cc
@@ -72,7 +72,8 @@ void Optimizer::solve(Clingo::Control &ctl) {
     for (;;) {
         prepare_(ctl);
         auto ret = ctl.solve(Clingo::SymbolicLiteralSpan{}, this, false, false).get();
-        if (ret.is_interrupted()) {
+        // Note: the search also ends without a result if a limit is reached
+        if (ret.is_interrupted() || ret.is_unknown()) {
             break;
         }
         if (ret.is_unsatisfiable()) {
-- 
2.43.0

