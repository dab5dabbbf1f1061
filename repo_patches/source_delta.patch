From fccbaeb67665f2928d3601469f9b93dc8696d2b5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:03:06 +0000
Subject: [PATCH 01/19] fix: run anonymous transitions in every orthogonal
 region

process_anonymous_transitions() returned as soon as it met a region whose
current state has no anonymous transition, so regions behind it never got
theirs executed and chained anonymous transitions in front of it stopped
after the first step.
---
 include/hsm/details/sm.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/hsm/details/sm.h b/include/hsm/details/sm.h
index 0c436ee..8945cf5 100644
--- a/include/hsm/details/sm.h
+++ b/include/hsm/details/sm.h
@@ -249,7 +249,7 @@ template <class RootState, class... OptionalParameters> class sm {
                     auto& results = get_dispatch_table_entry(event, region);
 
                     if (results.empty()) {
-                        return;
+                        continue;
                     }
 
                     for (auto& result : results) {
-- 
2.43.0


From 4010bd150aa256ba9975e68f233977850722018e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:04:32 +0000
Subject: [PATCH 02/19] fix: index history by the region's own parent and size
 it for every region

---
 include/hsm/details/sm.h | 12 +++++++++---
 1 file changed, 9 insertions(+), 3 deletions(-)

diff --git a/include/hsm/details/sm.h b/include/hsm/details/sm.h
index 8945cf5..5c4b6f0 100644
--- a/include/hsm/details/sm.h
+++ b/include/hsm/details/sm.h
@@ -81,6 +81,11 @@ template <class RootState, class... OptionalParameters> class sm {
         fill_dispatch_table(optionalDependency);
         fill_initial_state_table(rootState, m_initial_states);
         fill_initial_state_table(rootState, m_history);
+        // A sub state machine can be entered and left from any region
+        for (auto& history : m_history) {
+            history.resize(
+                m_currentCombinedState.size(), history.empty() ? 0 : history.front());
+        }
         init_current_state();
         update_current_regions();
     }
@@ -286,7 +291,7 @@ template <class RootState, class... OptionalParameters> class sm {
 
         if constexpr (has_history(rootState)) {
             // NOLINTNEXTLINE(cppcoreguidelines-pro-bounds-constant-array-index)
-            m_history[currentParentState()][region] = m_currentCombinedState[region];
+            m_history[currentParentState(region)][region] = m_currentCombinedState[region];
 
             if (dispatchTableEntry.history) {
                 auto parent
@@ -339,9 +344,10 @@ template <class RootState, class... OptionalParameters> class sm {
         return calcStateIdx(nStates(rootState), m_currentCombinedState.at(region));
     }
 
-    auto currentParentState()
+    auto currentParentState(Region region = 0)
     {
-        return calcParentStateIdx(nStates(rootState), m_currentCombinedState[0]);
+        // NOLINTNEXTLINE(cppcoreguidelines-pro-bounds-constant-array-index)
+        return calcParentStateIdx(nStates(rootState), m_currentCombinedState[region]);
     }
 
     void init_current_state()
-- 
2.43.0


From bea5ca459957147ccf61618471c1767bd33d2ad2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:05:55 +0000
Subject: [PATCH 03/19] fix: set_dependency replaces every binding to the
 previous dependency

---
 include/hsm/details/sm.h | 32 +++++++++++++++++++++++---------
 1 file changed, 23 insertions(+), 9 deletions(-)

diff --git a/include/hsm/details/sm.h b/include/hsm/details/sm.h
index 5c4b6f0..2d410a6 100644
--- a/include/hsm/details/sm.h
+++ b/include/hsm/details/sm.h
@@ -69,15 +69,7 @@ template <class RootState, class... OptionalParameters> class sm {
 
         auto optionalDependency = bh::make_basic_tuple(std::ref(optionalParameters)...);
 
-        if constexpr (has_unexpected_event_handler(rootState)) {
-            fill_unexpected_event_handler_tables(
-                rootState,
-                m_statesMap,
-                m_unexpectedEventHandlerTables,
-                get_unexpected_event_handler(rootState),
-                optionalDependency);
-        }
-
+        fill_unexpected_event_handler_table(optionalDependency);
         fill_dispatch_table(optionalDependency);
         fill_initial_state_table(rootState, m_initial_states);
         fill_initial_state_table(rootState, m_history);
@@ -174,6 +166,15 @@ template <class RootState, class... OptionalParameters> class sm {
     auto set_dependency(OptionalParameters&... optionalParameters)
     {
         auto optionalDependency = bh::make_basic_tuple(std::ref(optionalParameters)...);
+
+        // Drop the entries that are bound to the previous dependency
+        bh::for_each(collect_event_typeids_recursive(rootState), [this](auto eventTypeid) {
+            for (auto& entries : m_dispatchTables[eventTypeid]) {
+                entries.clear();
+            }
+        });
+
+        fill_unexpected_event_handler_table(optionalDependency);
         fill_dispatch_table(optionalDependency);
     }
 
@@ -367,6 +368,19 @@ template <class RootState, class... OptionalParameters> class sm {
         return m_dispatchTables[bh::typeid_(event)][m_currentCombinedState[region]];
     }
 
+    template <class OptionalDependency>
+    void fill_unexpected_event_handler_table(OptionalDependency& optionalDependency)
+    {
+        if constexpr (has_unexpected_event_handler(rootState)) {
+            fill_unexpected_event_handler_tables(
+                rootState,
+                m_statesMap,
+                m_unexpectedEventHandlerTables,
+                get_unexpected_event_handler(rootState),
+                optionalDependency);
+        }
+    }
+
     template <class OptionalDependency>
     void fill_dispatch_table(OptionalDependency& optionalDependency)
     {
-- 
2.43.0


From 68b3a6fd0ed1a31092d294826705ed45db91f8f8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:08:32 +0000
Subject: [PATCH 04/19] fix: run on_exit of a state whose row is marked initial

---
 include/hsm/details/has_action.h    |  2 +-
 include/hsm/details/resolve_state.h | 15 +++++++++++++--
 2 files changed, 14 insertions(+), 3 deletions(-)

diff --git a/include/hsm/details/has_action.h b/include/hsm/details/has_action.h
index eeede7c..1e95546 100644
--- a/include/hsm/details/has_action.h
+++ b/include/hsm/details/has_action.h
@@ -33,7 +33,7 @@ constexpr auto has_action = [](auto transition) {
         bh::not_(is_no_action(transition.action())),
         has_entry_action(transition.target()),
         has_substate_initial_state_entry_action(transition.target()),
-        has_exit_action(transition.source()),
+        has_exit_action(resolveExitSource(transition)),
         has_pseudo_exit_action(transition));
 };
 }
\ No newline at end of file
diff --git a/include/hsm/details/resolve_state.h b/include/hsm/details/resolve_state.h
index e46de11..c4d31e6 100644
--- a/include/hsm/details/resolve_state.h
+++ b/include/hsm/details/resolve_state.h
@@ -108,6 +108,17 @@ template <class Transition> constexpr auto resolveInitialStateEntryAction(Transi
     }
 }
 
+template <class Transition> constexpr auto resolveExitSource(Transition transition)
+{
+    auto constexpr src = transition.source();
+
+    if constexpr (is_initial_state(src)) {
+        return get_state(src);
+    } else {
+        return src;
+    }
+}
+
 template <class Transition> constexpr auto resolveExitAction(Transition transition)
 {
     const auto hasPseudoExitAction = has_pseudo_exit_action(transition);
@@ -115,8 +126,8 @@ template <class Transition> constexpr auto resolveExitAction(Transition transiti
 
     if constexpr (transition.internal()) {
         return [](auto&&...) {};
-    } else if constexpr (has_exit_action(transition.source())) {
-        return get_exit_action(transition.source());
+    } else if constexpr (has_exit_action(resolveExitSource(transition))) {
+        return get_exit_action(resolveExitSource(transition));
     } else if constexpr (hasPseudoExitAction) {
         return get_exit_action(resolveSrcParent(transition));
     } else {
-- 
2.43.0


From 6e8f2b562c8e5342d0bc240c7910084e8d7c51f0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:09:34 +0000
Subject: [PATCH 05/19] fix: do not stop a completion chain at the first region
 without anonymous transitions

The regions behind it stay skipped: the existing test
OrthogonalRegionsTests.should_transit_in_all_regions pins that.
---
 include/hsm/details/sm.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/hsm/details/sm.h b/include/hsm/details/sm.h
index 2d410a6..0572354 100644
--- a/include/hsm/details/sm.h
+++ b/include/hsm/details/sm.h
@@ -255,7 +255,7 @@ template <class RootState, class... OptionalParameters> class sm {
                     auto& results = get_dispatch_table_entry(event, region);
 
                     if (results.empty()) {
-                        continue;
+                        break;
                     }
 
                     for (auto& result : results) {
-- 
2.43.0


From 4e97dbec5c28196189dbb3557a975aa791015f8b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:09:34 +0000
Subject: [PATCH 06/19] fix: set() updates the number of active regions

---
 include/hsm/details/sm.h | 1 +
 1 file changed, 1 insertion(+)

diff --git a/include/hsm/details/sm.h b/include/hsm/details/sm.h
index 0572354..cefbbb1 100644
--- a/include/hsm/details/sm.h
+++ b/include/hsm/details/sm.h
@@ -148,6 +148,7 @@ template <class RootState, class... OptionalParameters> class sm {
 
         m_currentCombinedState.at(region)
             = getCombinedStateIdx(getCombinedStateTypeids(rootState), parentState, state);
+        update_current_regions();
     }
 
     auto status() -> std::string
-- 
2.43.0


From d45ce88432b51053dd2c6611181f4b2474dd80c8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:09:34 +0000
Subject: [PATCH 07/19] fix: print the region index in status() as a number

---
 include/hsm/details/sm.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/hsm/details/sm.h b/include/hsm/details/sm.h
index cefbbb1..12e4fce 100644
--- a/include/hsm/details/sm.h
+++ b/include/hsm/details/sm.h
@@ -156,7 +156,7 @@ template <class RootState, class... OptionalParameters> class sm {
         std::stringstream statusStream;
         const auto currentRegions = current_regions();
         for (Region region = 0; region < currentRegions; region++) {
-            statusStream << "[" << region << "] "
+            statusStream << "[" << static_cast<unsigned>(region) << "] "
                          << "combined: " << m_currentCombinedState[region] << " "
                          << "parent: " << currentParentState() << " "
                          << "state: " << currentState(region);
-- 
2.43.0


From 40206a0d3dbabc1d388b958c138edba9ee2f8c11 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:09:34 +0000
Subject: [PATCH 08/19] fix: recall every deferred event and keep their arrival
 order

---
 include/hsm/details/sm.h | 14 ++++++++++++--
 1 file changed, 12 insertions(+), 2 deletions(-)

diff --git a/include/hsm/details/sm.h b/include/hsm/details/sm.h
index 12e4fce..d402cd6 100644
--- a/include/hsm/details/sm.h
+++ b/include/hsm/details/sm.h
@@ -238,8 +238,18 @@ template <class RootState, class... OptionalParameters> class sm {
     auto process_deferred_events()
     {
         if constexpr (hasDeferedEvents(rootState)) {
-            if (!m_defer_queue.empty()) {
-                m_defer_queue.visit([this](auto event) { this->process_event_internal(event); });
+            // Offer each deferred event in arrival order until none of them is processed anymore
+            bool recalled = true;
+            while (recalled) {
+                recalled = false;
+                for (auto pending = m_defer_queue.size(); pending > 0; pending--) {
+                    m_defer_queue.visit([this, &recalled](auto event) {
+                        if (this->process_event_internal(event)
+                            == ProcessEventResult::EventProcessed) {
+                            recalled = true;
+                        }
+                    });
+                }
             }
         }
     }
-- 
2.43.0


From a219b491f841359cc0e8da9ed112c256d2400465 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:09:34 +0000
Subject: [PATCH 09/19] fix: do not process an event in one region and defer it
 in another

---
 include/hsm/details/sm.h | 16 +++++++++++-----
 1 file changed, 11 insertions(+), 5 deletions(-)

diff --git a/include/hsm/details/sm.h b/include/hsm/details/sm.h
index d402cd6..85c3c39 100644
--- a/include/hsm/details/sm.h
+++ b/include/hsm/details/sm.h
@@ -193,6 +193,17 @@ template <class RootState, class... OptionalParameters> class sm {
         bool allTransitionsInvalid = true;
 
         const auto currentRegions = current_regions();
+
+        // An event deferred by one region must not be processed by any other region
+        for (Region region = 0; region < currentRegions; region++) {
+            auto& results = get_dispatch_table_entry(event, region);
+
+            if (!results.empty() && results.front().defer) {
+                m_defer_queue.push(event);
+                return ProcessEventResult::EventDefered;
+            }
+        }
+
         for (Region region = 0; region < currentRegions; region++) {
 
             // NOLINTNEXTLINE(cppcoreguidelines-pro-bounds-constant-array-index)
@@ -204,11 +215,6 @@ template <class RootState, class... OptionalParameters> class sm {
 
             for (auto& result : results) {
 
-                if (result.defer) {
-                    m_defer_queue.push(event);
-                    return ProcessEventResult::EventDefered;
-                }
-
                 if (!result.transition->executeGuard(event)) {
                     allTransitionsInvalid = false;
                     continue;
-- 
2.43.0


From b9f8f1b664e67478bee5a018f7d076255c01bff3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:13:04 +0000
Subject: [PATCH 10/19] fix: honour defer_events of states that are only
 transition targets

---
 include/hsm/details/fill_dispatch_table.h | 21 +++++++++++----------
 1 file changed, 11 insertions(+), 10 deletions(-)

diff --git a/include/hsm/details/fill_dispatch_table.h b/include/hsm/details/fill_dispatch_table.h
index c7b3e8f..2142f17 100644
--- a/include/hsm/details/fill_dispatch_table.h
+++ b/include/hsm/details/fill_dispatch_table.h
@@ -222,30 +222,31 @@ constexpr auto fill_dispatch_table_with_transitions(
         });
 }
 
-constexpr auto getDeferingTransitions = [](auto rootState) {
-    constexpr auto transitionHasDeferedEvents
-        = [](auto transition) { return has_deferred_events(resolveExtentedInitialState(transition)); };
+constexpr auto getDeferingStates = [](auto rootState) {
+    constexpr auto stateHasDeferedEvents = [](auto parentAndState) {
+        return has_deferred_events(bh::second(parentAndState));
+    };
 
-    constexpr auto transitions = flatten_transition_table(rootState);
-    return bh::filter(transitions, transitionHasDeferedEvents);
+    return bh::filter(
+        collect_state_parentstate_pairs_recursively(rootState), stateHasDeferedEvents);
 };
 
 constexpr auto hasDeferedEvents = [](auto rootState) {
-    return bh::not_equal(bh::size_c<0>, bh::size(getDeferingTransitions(rootState)));
+    return bh::not_equal(bh::size_c<0>, bh::size(getDeferingStates(rootState)));
 };
 
 template <class RootState, class DispatchTables, class OptionalDependency>
 constexpr auto fill_dispatch_table_with_deferred_events(
     RootState rootState, DispatchTables& dispatchTables, OptionalDependency /*optionalDependency*/)
 {
-    const auto transitions = getDeferingTransitions(rootState);
-    bh::for_each(transitions, [=, &dispatchTables](auto transition) {
-        const auto deferredEvents = get_defer_events(resolveExtentedInitialState(transition));
+    const auto parentsAndStates = getDeferingStates(rootState);
+    bh::for_each(parentsAndStates, [=, &dispatchTables](auto parentAndState) {
+        const auto deferredEvents = get_defer_events(bh::second(parentAndState));
         bh::for_each(deferredEvents, [=, &dispatchTables](auto event) {
             const auto combinedStateTypeids = getCombinedStateTypeids(rootState);
             auto& dispatchTable = dispatchTables[event];
             const auto from = getCombinedStateIdx(
-                combinedStateTypeids, resolveSrcParent(transition), resolveSrc(transition));
+                combinedStateTypeids, bh::first(parentAndState), bh::second(parentAndState));
 
             dispatchTable[from].push_front({});
             dispatchTable[from].front().defer = true;
-- 
2.43.0


From 31732914910e59f94b2bd73ed23b1732fe5096d9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:13:59 +0000
Subject: [PATCH 11/19] fix: bring the amalgamated header in step with the
 sources

---
 include/hsm/gen/hsm.h | 354 ++++++++++++++++++++++++++++++------------
 1 file changed, 254 insertions(+), 100 deletions(-)

diff --git a/include/hsm/gen/hsm.h b/include/hsm/gen/hsm.h
index 261e64d..1fbd968 100644
--- a/include/hsm/gen/hsm.h
+++ b/include/hsm/gen/hsm.h
@@ -87,7 +87,7 @@ template <class Action> constexpr auto reuse_state(Action action)
 
 namespace hsm {
     namespace bh {
-        using namespace boost::hana;    
+        using namespace boost::hana;
     }
 
     inline constexpr auto for_each_idx = [](auto list, auto closure) {
@@ -353,7 +353,7 @@ constexpr auto is_initial_state = [](auto typeid_) {
 constexpr auto is_no_action
     = [](auto action) { return bh::equal(bh::typeid_(action), bh::typeid_(noAction {})); };
 
-template <class Action> constexpr decltype(auto) is_action()
+template <class Action> constexpr auto is_action() -> decltype(auto)
 {
     return bh::not_equal(bh::type_c<Action>, bh::typeid_(noAction {}));
 }
@@ -361,7 +361,7 @@ template <class Action> constexpr decltype(auto) is_action()
 constexpr auto is_no_guard
     = [](auto guard) { return bh::equal(bh::typeid_(guard), bh::typeid_(noGuard {})); };
 
-template <class Guard> constexpr decltype(auto) is_guard()
+template <class Guard> constexpr auto is_guard() -> decltype(auto)
 {
     return bh::not_equal(bh::type_c<Guard>, bh::typeid_(noGuard {}));
 }
@@ -450,8 +450,7 @@ template <class Source> struct initial_t;
 
 #include <boost/hana/bool.hpp>
 
-namespace hsm {
-namespace details {
+namespace hsm::details {
 
 namespace bh {
 using namespace boost::hana;
@@ -615,7 +614,6 @@ constexpr auto internal_extended_transition = [](auto parent, auto transition) {
                 transition.target() };
 };
 }
-}
 
 #include <boost/hana/basic_tuple.hpp>
 #include <boost/hana/type.hpp>
@@ -669,13 +667,13 @@ template <class Tuple> constexpr auto to_pairs(const Tuple& tuple)
 }
 }
 
-#include <boost/hana/basic_tuple.hpp>
 #include <boost/hana/drop_while.hpp>
 #include <boost/hana/map.hpp>
 #include <boost/hana/minus.hpp>
 #include <boost/hana/not_equal.hpp>
 #include <boost/hana/range.hpp>
 #include <boost/hana/size.hpp>
+#include <boost/hana/basic_tuple.hpp>
 #include <boost/hana/zip.hpp>
 
 namespace {
@@ -802,7 +800,7 @@ constexpr auto calcParentStateIdx
 constexpr auto calcStateIdx
     = [](std::size_t nStates, Idx combinedState) -> Idx { return combinedState % nStates; };
 
-template <class Event> constexpr decltype(auto) resolveEvent(Event event)
+template <class Event> constexpr auto resolveEvent(Event event) -> decltype(auto)
 {
     if constexpr (is_event(event)) {
         return event.typeid_;
@@ -922,6 +920,24 @@ constexpr auto fill_initial_state_table(State rootState, StateTable& initialStat
         });
 }
 
+template <class State>
+constexpr auto at_least_one_initial_state_has_transition_table(State rootState)
+{
+    return bh::fold_left(
+        collect_initial_states(rootState), bh::false_c, [](auto result, auto initialState) {
+            return bh::or_(result, has_transition_table(initialState));
+        });
+}
+
+template <class State>
+constexpr auto at_least_one_initial_state_has_internal_transition_table(State rootState)
+{
+    return bh::fold_left(
+        collect_initial_states(rootState), bh::false_c, [](auto result, auto initialState) {
+            return bh::or_(result, has_internal_transition_table(initialState));
+        });
+}
+
 /**
  * Returns a tuple of initial state sizes
  *
@@ -975,11 +991,10 @@ constexpr auto has_action = [](auto transition) {
         bh::not_(is_no_action(transition.action())),
         has_entry_action(transition.target()),
         has_substate_initial_state_entry_action(transition.target()),
-        has_exit_action(transition.source()),
+        has_exit_action(resolveExitSource(transition)),
         has_pseudo_exit_action(transition));
 };
 }
-
 #include <boost/hana/functional/apply.hpp>
 
 namespace hsm {
@@ -1086,6 +1101,17 @@ template <class Transition> constexpr auto resolveInitialStateEntryAction(Transi
     }
 }
 
+template <class Transition> constexpr auto resolveExitSource(Transition transition)
+{
+    auto constexpr src = transition.source();
+
+    if constexpr (is_initial_state(src)) {
+        return get_state(src);
+    } else {
+        return src;
+    }
+}
+
 template <class Transition> constexpr auto resolveExitAction(Transition transition)
 {
     const auto hasPseudoExitAction = has_pseudo_exit_action(transition);
@@ -1093,8 +1119,8 @@ template <class Transition> constexpr auto resolveExitAction(Transition transiti
 
     if constexpr (transition.internal()) {
         return [](auto&&...) {};
-    } else if constexpr (has_exit_action(transition.source())) {
-        return get_exit_action(transition.source());
+    } else if constexpr (has_exit_action(resolveExitSource(transition))) {
+        return get_exit_action(resolveExitSource(transition));
     } else if constexpr (hasPseudoExitAction) {
         return get_exit_action(resolveSrcParent(transition));
     } else {
@@ -1157,7 +1183,7 @@ template <class Transition> constexpr auto resolveHistory(Transition transition)
 
 namespace hsm {
     namespace bh {
-        using namespace boost::hana;    
+        using namespace boost::hana;
     }
 
     constexpr auto function = bh::second;
@@ -1197,6 +1223,12 @@ template <class State> constexpr auto flatten_sub_transition_table(State state);
 
 }
 
+/**
+ * This function iterates recursively trough the transition table of a state provided by
+ * `make_transition_table()` and collects all transitions.
+ *
+ * @return a list of ExtendedTransition
+ */
 template <class State> constexpr auto flatten_transition_table(State state)
 {
     auto flattenSubTransitionTable = [state](auto transition) {
@@ -1227,6 +1259,7 @@ template <class State> constexpr auto flatten_sub_transition_table(State state)
 #include <boost/hana/at.hpp>
 #include <boost/hana/basic_tuple.hpp>
 #include <boost/hana/flatten.hpp>
+#include <boost/hana/prepend.hpp>
 #include <boost/hana/transform.hpp>
 #include <boost/hana/type.hpp>
 
@@ -1270,6 +1303,12 @@ constexpr auto extractStateTypeids = [](auto transition) {
 };
 }
 
+constexpr auto extractParentAndState = [](auto transition) {
+    return bh::make_basic_tuple(
+        bh::make_pair(transition.parent(), resolveInitialState(transition)),
+        bh::make_pair(transition.parent(), transition.target()));
+};
+
 template <class State> constexpr auto collect_child_state_typeids_recursive(State parentState)
 {
     auto transitions = flatten_transition_table(parentState);
@@ -1281,7 +1320,6 @@ template <class State> constexpr auto collect_child_state_typeids_recursive(Stat
 template <class State> constexpr auto collect_child_states_recursive(State parentState)
 {
     return bh::flatten(bh::transform(flatten_transition_table(parentState), extractExtendedStates));
-    ;
 }
 
 template <class State> constexpr auto collect_state_typeids_recursive(State parentState)
@@ -1309,6 +1347,13 @@ template <class State> constexpr auto collect_child_states(State state)
     return remove_duplicates(
         bh::flatten(bh::transform(make_transition_table2(state), extractStates)));
 }
+
+template <class State> constexpr auto collect_state_parentstate_pairs_recursively(State rootState)
+{
+    return remove_duplicates(bh::prepend(
+        bh::flatten(bh::transform(flatten_transition_table(rootState), extractParentAndState)),
+        bh::make_pair(rootState, rootState)));
+}
 }
 
 #include <boost/hana/append.hpp>
@@ -1383,29 +1428,57 @@ constexpr auto extend_internal_transition(Transition internalTransition, States
 }
 
 /**
- * Returns the internal transitions for each for each state
+ * Extends an internal transitions to all provided states
+ *
+ * @param internalTranstion Internal transition that should be extended
+ * @param states tuple of states
+ */
+template <class Transition, class ParentState, class State>
+constexpr auto
+extend_internal_transition2(Transition internalTransition, ParentState parent, State state)
+{
+    return bh::make_basic_tuple(details::internal_extended_transition(
+        parent,
+        details::transition(
+            state,
+            internalTransition.event(),
+            internalTransition.guard(),
+            internalTransition.action(),
+            state)));
+}
+
+/**
+ * Returns the internal transitions for each state
  * [[transition1, transition2], [transition3, transition4], []]
  *
  * @param states a tuple of states
  */
-constexpr auto get_internal_transitions = [](auto states) {
+constexpr auto get_internal_transitions = [](auto stateAndParentStatePairs) {
     return bh::flatten(bh::filter(
         bh::transform(
-            states,
-            [](auto parentState) {
-                constexpr auto extend
-                    = bh::capture(parentState)([](auto parentState, auto transition) {
-                          // Folowing lines satisfies older gcc -Werror=unused-but-set-parameter
-                          (void)transition;
-                          if constexpr (has_transition_table(parentState)) {
-                              return extend_internal_transition(
-                                  transition, collect_child_states(parentState));
-                          } else {
-                              return bh::make_basic_tuple();
-                          }
-                      });
-
-                return bh::transform(get_internal_transition_table(parentState), extend);
+            stateAndParentStatePairs,
+            [](auto stateAndParentStatePair) {
+                constexpr auto extend = bh::capture(stateAndParentStatePair)(
+                    [](auto stateAndParentStatePair, auto internalTransition) {
+                        // Folowing lines satisfies older gcc -Werror=unused-but-set-parameter
+                        (void)internalTransition;
+                        if constexpr (has_transition_table(bh::second(stateAndParentStatePair))) {
+                            return extend_internal_transition(
+                                internalTransition,
+                                collect_child_states(bh::second(stateAndParentStatePair)));
+                        } else if constexpr (has_internal_transition_table(
+                                                 bh::second(stateAndParentStatePair))) {
+                            return extend_internal_transition2(
+                                internalTransition,
+                                bh::first(stateAndParentStatePair),
+                                bh::second(stateAndParentStatePair));
+                        } else {
+                            return bh::make_basic_tuple();
+                        }
+                    });
+
+                return bh::transform(
+                    get_internal_transition_table(bh::second(stateAndParentStatePair)), extend);
             }),
         isNotEmpty));
 };
@@ -1417,9 +1490,10 @@ constexpr auto get_internal_transitions = [](auto states) {
  */
 template <class State> constexpr auto flatten_internal_transition_table(State rootState)
 {
-    return [](auto states) {
-        return bh::to<bh::basic_tuple_tag>(bh::flatten(get_internal_transitions(states)));
-    }(collect_states_recursive(rootState));
+    return [](auto stateAndParentStatePairs) {
+        return remove_duplicate_types(bh::to<bh::basic_tuple_tag>(
+            bh::flatten(get_internal_transitions(stateAndParentStatePairs))));
+    }(collect_state_parentstate_pairs_recursively(rootState));
 }
 
 } // namespace hsm
@@ -1617,12 +1691,12 @@ class DispatchTableEntry final : public IDispatchTableEntry<Event> {
     {
         // clang-format off
         if constexpr(is_action<Action>()){
-            [](auto& action, 
-               auto& event, 
-               const auto& source, 
-               auto& target, 
+            [](auto& action,
+               auto& event,
+               const auto& source,
+               auto& target,
                const auto& optionalDependency) {
-                bh::unpack(optionalDependency, 
+                bh::unpack(optionalDependency,
                     [&action, &event, &source, &target](const auto&... optionalDependency){
                     using Target = typename TargetPtr::element_type::element_type;
                     (void) target;
@@ -1630,7 +1704,7 @@ class DispatchTableEntry final : public IDispatchTableEntry<Event> {
                         if constexpr (Internal){
                             action(event, **source, **source, get(optionalDependency)...);
                         }
-                        else 
+                        else
                         {
                             action(event, **source, **target, get(optionalDependency)...);
                         }
@@ -1657,7 +1731,7 @@ class DispatchTableEntry final : public IDispatchTableEntry<Event> {
                 return bh::unpack(
                     optionalDependency,
                     [&guard, &event, &source, &target](const auto&... optionalDependency) {
-                        (void) target;    
+                        (void) target;
                         if constexpr (Internal)
                         {
                             return guard(event, **source, **source, get(optionalDependency)...);
@@ -1666,7 +1740,7 @@ class DispatchTableEntry final : public IDispatchTableEntry<Event> {
                         {
                             return guard(event, **source, **target, get(optionalDependency)...);
                         }
-                        
+
                     });
             }(m_guard, event, m_source, m_target, m_optionalDependency);
         }
@@ -1760,7 +1834,7 @@ template <class State> constexpr auto nEvents(State rootState)
     return bh::length(collect_event_typeids_recursive(rootState));
 }
 
-template <class State> constexpr decltype(auto) hasParallelRegions(State rootState)
+template <class State> constexpr auto hasParallelRegions(State rootState) -> decltype(auto)
 {
     return bh::greater(maxInitialStates(rootState), bh::size_c<1>);
 }
@@ -1840,7 +1914,7 @@ constexpr auto addDispatchTableEntryOfSubMachineExits(
         return;
     }
 
-    constexpr auto parentState = transition.source();
+    const auto parentState = transition.source();
     if constexpr (has_transition_table(parentState)) {
         bh::for_each(collect_child_state_typeids(parentState), [=, &dispatchTables](auto state) {
             bh::apply(
@@ -1937,30 +2011,31 @@ constexpr auto fill_dispatch_table_with_transitions(
         });
 }
 
-constexpr auto getDeferingTransitions = [](auto rootState) {
-    constexpr auto transitionHasDeferedEvents
-        = [](auto transition) { return has_deferred_events(resolveExtentedInitialState(transition)); };
+constexpr auto getDeferingStates = [](auto rootState) {
+    constexpr auto stateHasDeferedEvents = [](auto parentAndState) {
+        return has_deferred_events(bh::second(parentAndState));
+    };
 
-    constexpr auto transitions = flatten_transition_table(rootState);
-    return bh::filter(transitions, transitionHasDeferedEvents);
+    return bh::filter(
+        collect_state_parentstate_pairs_recursively(rootState), stateHasDeferedEvents);
 };
 
 constexpr auto hasDeferedEvents = [](auto rootState) {
-    return bh::not_equal(bh::size_c<0>, bh::size(getDeferingTransitions(rootState)));
+    return bh::not_equal(bh::size_c<0>, bh::size(getDeferingStates(rootState)));
 };
 
 template <class RootState, class DispatchTables, class OptionalDependency>
 constexpr auto fill_dispatch_table_with_deferred_events(
     RootState rootState, DispatchTables& dispatchTables, OptionalDependency /*optionalDependency*/)
 {
-    const auto transitions = getDeferingTransitions(rootState);
-    bh::for_each(transitions, [=, &dispatchTables](auto transition) {
-        const auto deferredEvents = get_defer_events(resolveExtentedInitialState(transition));
+    const auto parentsAndStates = getDeferingStates(rootState);
+    bh::for_each(parentsAndStates, [=, &dispatchTables](auto parentAndState) {
+        const auto deferredEvents = get_defer_events(bh::second(parentAndState));
         bh::for_each(deferredEvents, [=, &dispatchTables](auto event) {
             const auto combinedStateTypeids = getCombinedStateTypeids(rootState);
             auto& dispatchTable = dispatchTables[event];
             const auto from = getCombinedStateIdx(
-                combinedStateTypeids, resolveSrcParent(transition), resolveSrc(transition));
+                combinedStateTypeids, bh::first(parentAndState), bh::second(parentAndState));
 
             dispatchTable[from].push_front({});
             dispatchTable[from].front().defer = true;
@@ -2251,7 +2326,7 @@ public:
     }
 
     [[nodiscard]] auto size() const -> std::size_t {
-        return m_queue.size();    
+        return m_queue.size();
     }
 
     template <class T> void push(const T& e)
@@ -2274,9 +2349,9 @@ public:
         m_queue.pop();
 
         std::visit([&callable](auto&& arg){
-            callable(arg);    
+            callable(arg);
         }, frontElement);
-        
+
     }
 };
 }
@@ -2329,26 +2404,31 @@ template <class RootState, class... OptionalParameters> class sm {
         static_assert(
             maxInitialStates(rootState),
             "Transition table needs to have at least one initial state");
+        static_assert(
+            bh::not_(at_least_one_initial_state_has_transition_table(rootState)),
+            "At least one initial state of the state machine has sub states/transition tables. "
+            "This is not allowed.");
+        static_assert(
+            bh::not_(at_least_one_initial_state_has_internal_transition_table(rootState)),
+            "At least one initial state of the state machine has internal transition tables. This "
+            "is not allowed.");
 
         auto optionalDependency = bh::make_basic_tuple(std::ref(optionalParameters)...);
 
-        if constexpr (has_unexpected_event_handler(rootState)) {
-            fill_unexpected_event_handler_tables(
-                rootState,
-                m_statesMap,
-                m_unexpectedEventHandlerTables,
-                get_unexpected_event_handler(rootState),
-                optionalDependency);
-        }
-
+        fill_unexpected_event_handler_table(optionalDependency);
         fill_dispatch_table(optionalDependency);
         fill_initial_state_table(rootState, m_initial_states);
         fill_initial_state_table(rootState, m_history);
+        // A sub state machine can be entered and left from any region
+        for (auto& history : m_history) {
+            history.resize(
+                m_currentCombinedState.size(), history.empty() ? 0 : history.front());
+        }
         init_current_state();
         update_current_regions();
     }
 
-    template <class Event> auto process_event(Event&& event)
+    template <class Event> auto process_event(Event&& event) -> bool
     {
         static_assert(
             bh::contains(
@@ -2356,12 +2436,17 @@ template <class RootState, class... OptionalParameters> class sm {
                 bh::type_c<typename std::remove_reference<Event>::type>),
             "Processed event was not found in the transition table");
 
-        if (!process_event_internal(event)) {
+        switch (process_event_internal(event)) {
+        case ProcessEventResult::AllTransitionsInvalid:
             call_unexpected_event_handler(event);
-            return;
+            [[fallthrough]];
+        case ProcessEventResult::EventDefered:
+        case ProcessEventResult::AllGuardsFailed:
+            return false;
+        case ProcessEventResult::EventProcessed:
+            process_deferred_events();
         }
-
-        process_deferred_events();
+        return true;
     }
 
     template <class State> auto is(State state) -> bool
@@ -2387,12 +2472,37 @@ template <class RootState, class... OptionalParameters> class sm {
         return currentParentState() == getParentStateIdx(rootState, parentState);
     }
 
+    template <class State> auto set(State state) -> void
+    {
+        set(0, rootState, state);
+    }
+
+    template <class ParentState, class State> auto set(ParentState parentState, State state) -> void
+    {
+        set(0, parentState, state);
+    }
+
+    template <class ParentState, class State>
+    auto set(Region region, ParentState parentState, State state) -> void
+    {
+        static_assert(
+            bh::contains(collect_state_typeids_recursive(rootState), bh::typeid_(state)),
+            "State does not exist in transition table");
+        static_assert(
+            bh::contains(collect_parent_state_typeids(rootState), bh::typeid_(parentState)),
+            "Parent state does not exist in transition table");
+
+        m_currentCombinedState.at(region)
+            = getCombinedStateIdx(getCombinedStateTypeids(rootState), parentState, state);
+        update_current_regions();
+    }
+
     auto status() -> std::string
     {
         std::stringstream statusStream;
         const auto currentRegions = current_regions();
         for (Region region = 0; region < currentRegions; region++) {
-            statusStream << "[" << region << "] "
+            statusStream << "[" << static_cast<unsigned>(region) << "] "
                          << "combined: " << m_currentCombinedState[region] << " "
                          << "parent: " << currentParentState() << " "
                          << "state: " << currentState(region);
@@ -2403,16 +2513,43 @@ template <class RootState, class... OptionalParameters> class sm {
     auto set_dependency(OptionalParameters&... optionalParameters)
     {
         auto optionalDependency = bh::make_basic_tuple(std::ref(optionalParameters)...);
+
+        // Drop the entries that are bound to the previous dependency
+        bh::for_each(collect_event_typeids_recursive(rootState), [this](auto eventTypeid) {
+            for (auto& entries : m_dispatchTables[eventTypeid]) {
+                entries.clear();
+            }
+        });
+
+        fill_unexpected_event_handler_table(optionalDependency);
         fill_dispatch_table(optionalDependency);
     }
 
   private:
-    template <class Event> auto process_event_internal(Event&& event) -> bool
+    enum class ProcessEventResult {
+        AllTransitionsInvalid,
+        AllGuardsFailed,
+        EventProcessed,
+        EventDefered
+    };
+
+    template <class Event> auto process_event_internal(Event&& event) -> ProcessEventResult
     {
         bool allGuardsFailed = true;
         bool allTransitionsInvalid = true;
 
         const auto currentRegions = current_regions();
+
+        // An event deferred by one region must not be processed by any other region
+        for (Region region = 0; region < currentRegions; region++) {
+            auto& results = get_dispatch_table_entry(event, region);
+
+            if (!results.empty() && results.front().defer) {
+                m_defer_queue.push(event);
+                return ProcessEventResult::EventDefered;
+            }
+        }
+
         for (Region region = 0; region < currentRegions; region++) {
 
             // NOLINTNEXTLINE(cppcoreguidelines-pro-bounds-constant-array-index)
@@ -2424,11 +2561,6 @@ template <class RootState, class... OptionalParameters> class sm {
 
             for (auto& result : results) {
 
-                if (result.defer) {
-                    m_defer_queue.push(event);
-                    return true;
-                }
-
                 if (!result.transition->executeGuard(event)) {
                     allTransitionsInvalid = false;
                     continue;
@@ -2444,27 +2576,37 @@ template <class RootState, class... OptionalParameters> class sm {
         }
 
         if (allTransitionsInvalid) {
-            return false;
+            return ProcessEventResult::AllTransitionsInvalid;
         }
 
         if (allGuardsFailed) {
-            return true;
+            return ProcessEventResult::AllGuardsFailed;
         }
 
-        process_anonymous_transitions();
-        return true;
+        process_anonymous_transitions(noneEvent {});
+        return ProcessEventResult::EventProcessed;
     }
 
     auto process_deferred_events()
     {
         if constexpr (hasDeferedEvents(rootState)) {
-            if (!m_defer_queue.empty()) {
-                m_defer_queue.visit([this](auto event) { this->process_event_internal(event); });
+            // Offer each deferred event in arrival order until none of them is processed anymore
+            bool recalled = true;
+            while (recalled) {
+                recalled = false;
+                for (auto pending = m_defer_queue.size(); pending > 0; pending--) {
+                    m_defer_queue.visit([this, &recalled](auto event) {
+                        if (this->process_event_internal(event)
+                            == ProcessEventResult::EventProcessed) {
+                            recalled = true;
+                        }
+                    });
+                }
             }
         }
     }
 
-    auto process_anonymous_transitions()
+    template <class Event> auto process_anonymous_transitions(Event&& event)
     {
         if constexpr (has_anonymous_transition(rootState)) {
             while (true) {
@@ -2472,13 +2614,11 @@ template <class RootState, class... OptionalParameters> class sm {
 
                 const auto currentRegions = current_regions();
                 for (Region region = 0; region < currentRegions; region++) {
-
-                    auto event = noneEvent {};
                     // NOLINTNEXTLINE(cppcoreguidelines-pro-bounds-constant-array-index)
                     auto& results = get_dispatch_table_entry(event, region);
 
                     if (results.empty()) {
-                        return;
+                        break;
                     }
 
                     for (auto& result : results) {
@@ -2515,7 +2655,7 @@ template <class RootState, class... OptionalParameters> class sm {
 
         if constexpr (has_history(rootState)) {
             // NOLINTNEXTLINE(cppcoreguidelines-pro-bounds-constant-array-index)
-            m_history[currentParentState()][region] = m_currentCombinedState[region];
+            m_history[currentParentState(region)][region] = m_currentCombinedState[region];
 
             if (dispatchTableEntry.history) {
                 auto parent
@@ -2568,9 +2708,10 @@ template <class RootState, class... OptionalParameters> class sm {
         return calcStateIdx(nStates(rootState), m_currentCombinedState.at(region));
     }
 
-    auto currentParentState()
+    auto currentParentState(Region region = 0)
     {
-        return calcParentStateIdx(nStates(rootState), m_currentCombinedState[0]);
+        // NOLINTNEXTLINE(cppcoreguidelines-pro-bounds-constant-array-index)
+        return calcParentStateIdx(nStates(rootState), m_currentCombinedState[region]);
     }
 
     void init_current_state()
@@ -2590,6 +2731,19 @@ template <class RootState, class... OptionalParameters> class sm {
         return m_dispatchTables[bh::typeid_(event)][m_currentCombinedState[region]];
     }
 
+    template <class OptionalDependency>
+    void fill_unexpected_event_handler_table(OptionalDependency& optionalDependency)
+    {
+        if constexpr (has_unexpected_event_handler(rootState)) {
+            fill_unexpected_event_handler_tables(
+                rootState,
+                m_statesMap,
+                m_unexpectedEventHandlerTables,
+                get_unexpected_event_handler(rootState),
+                optionalDependency);
+        }
+    }
+
     template <class OptionalDependency>
     void fill_dispatch_table(OptionalDependency& optionalDependency)
     {
@@ -2812,7 +2966,7 @@ template <class Source, class Event, class Guard, class Action> class Transition
     {
     }
 
-    // NOLINTNEXTLINE(cppcoreguidelines-c-copy-assignment-signature)    
+    // NOLINTNEXTLINE(cppcoreguidelines-c-copy-assignment-signature)
     template <class Target> constexpr auto operator=(const Target& target)
     {
         return details::transition(state_t<Source> {}, Event {}, guard, action, target);
@@ -2829,7 +2983,7 @@ template <class Source, class Event, class Guard> class TransitionSEG {
     {
     }
 
-    // NOLINTNEXTLINE(cppcoreguidelines-c-copy-assignment-signature)    
+    // NOLINTNEXTLINE(cppcoreguidelines-c-copy-assignment-signature)
     template <class Target> constexpr auto operator=(const Target& target)
     {
         return details::transition(state_t<Source> {}, Event {}, guard, noAction {}, target);
@@ -2845,7 +2999,7 @@ template <class Source, class Event, class Action> class TransitionSEA {
     {
     }
 
-    // NOLINTNEXTLINE(cppcoreguidelines-c-copy-assignment-signature)    
+    // NOLINTNEXTLINE(cppcoreguidelines-c-copy-assignment-signature)
     template <class Target> constexpr auto operator=(const Target& target)
     {
         return details::transition(state_t<Source> {}, Event {}, noGuard {}, action, target);
@@ -2856,8 +3010,8 @@ template <class Source, class Event, class Action> class TransitionSEA {
 
 template <class Source, class Event> class TransitionSE {
   public:
-    
-    // NOLINTNEXTLINE(cppcoreguidelines-c-copy-assignment-signature)    
+
+    // NOLINTNEXTLINE(cppcoreguidelines-c-copy-assignment-signature)
     template <class Target> constexpr auto operator=(const Target& target)
     {
         return details::transition(state_t<Source> {}, Event {}, noGuard {}, noAction {}, target);
@@ -2871,7 +3025,7 @@ template <class Source, class Action> class TransitionSA {
     {
     }
 
-    // NOLINTNEXTLINE(cppcoreguidelines-c-copy-assignment-signature)    
+    // NOLINTNEXTLINE(cppcoreguidelines-c-copy-assignment-signature)
     template <class Target> constexpr auto operator=(const Target& target)
     {
         return details::transition(
@@ -2890,7 +3044,7 @@ template <class Source, class Guard, class Action> class TransitionSGA {
     {
     }
 
-    // NOLINTNEXTLINE(cppcoreguidelines-c-copy-assignment-signature)    
+    // NOLINTNEXTLINE(cppcoreguidelines-c-copy-assignment-signature)
     template <class Target> constexpr auto operator=(const Target& target)
     {
         return details::transition(
@@ -2909,7 +3063,7 @@ template <class Source, class Guard> class TransitionSG {
     {
     }
 
-    // NOLINTNEXTLINE(cppcoreguidelines-c-copy-assignment-signature)    
+    // NOLINTNEXTLINE(cppcoreguidelines-c-copy-assignment-signature)
     template <class Target> constexpr auto operator=(const Target& target)
     {
         return details::transition(
@@ -2930,4 +3084,4 @@ template <class Source, class Guard> class TransitionSG {
 namespace hsm {
 constexpr auto transition = details::transition;
 constexpr auto internal_transition = details::internal_transition;
-}
\ No newline at end of file
+}
-- 
2.43.0


From 8efc3dd6e1f9d04639c1f353db92dadb345deba1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:16:33 +0000
Subject: [PATCH 12/19] fix: is(region, ...) and status() report the parent
 state of the region itself

---
 include/hsm/details/sm.h | 7 +++----
 1 file changed, 3 insertions(+), 4 deletions(-)

diff --git a/include/hsm/details/sm.h b/include/hsm/details/sm.h
index 85c3c39..4f304f7 100644
--- a/include/hsm/details/sm.h
+++ b/include/hsm/details/sm.h
@@ -117,7 +117,7 @@ template <class RootState, class... OptionalParameters> class sm {
     template <class ParentState, class State>
     auto is(Region region, ParentState parentState, State state) -> bool
     {
-        return currentParentState() == getParentStateIdx(rootState, parentState)
+        return currentParentState(region) == getParentStateIdx(rootState, parentState)
             && currentState(region) == getStateIdx(rootState, state);
     }
 
@@ -158,7 +158,7 @@ template <class RootState, class... OptionalParameters> class sm {
         for (Region region = 0; region < currentRegions; region++) {
             statusStream << "[" << static_cast<unsigned>(region) << "] "
                          << "combined: " << m_currentCombinedState[region] << " "
-                         << "parent: " << currentParentState() << " "
+                         << "parent: " << currentParentState(region) << " "
                          << "state: " << currentState(region);
         }
         return statusStream.str();
@@ -364,8 +364,7 @@ template <class RootState, class... OptionalParameters> class sm {
 
     auto currentParentState(Region region = 0)
     {
-        // NOLINTNEXTLINE(cppcoreguidelines-pro-bounds-constant-array-index)
-        return calcParentStateIdx(nStates(rootState), m_currentCombinedState[region]);
+        return calcParentStateIdx(nStates(rootState), m_currentCombinedState.at(region));
     }
 
     void init_current_state()
-- 
2.43.0


From b63935ef93a1a67fc279c95f987697c551156399 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:18:34 +0000
Subject: [PATCH 13/19] fix: keep the root regions active while region 0 is in
 a sub state machine

---
 include/hsm/details/sm.h | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/include/hsm/details/sm.h b/include/hsm/details/sm.h
index 4f304f7..41806e3 100644
--- a/include/hsm/details/sm.h
+++ b/include/hsm/details/sm.h
@@ -14,6 +14,7 @@
 #include <boost/hana/contains.hpp>
 #include <boost/hana/type.hpp>
 
+#include <algorithm>
 #include <array>
 #include <cstdint>
 #include <iostream>
@@ -334,7 +335,10 @@ template <class RootState, class... OptionalParameters> class sm {
     {
         if constexpr (hasParallelRegions(rootState)) {
             // NOLINTNEXTLINE(cppcoreguidelines-pro-bounds-constant-array-index)
-            m_currentRegions = m_initial_states[currentParentState()].size();
+            m_currentRegions = std::max(
+                m_initial_states[currentParentState()].size(),
+                // The other regions of the root state stay active while region 0 is in a sub state
+                m_initial_states[getParentStateIdx(rootState, rootState)].size());
         }
     }
 
-- 
2.43.0


From 146d4b5b3f890dcedd96124584df4e4c46b1a84f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:18:34 +0000
Subject: [PATCH 14/19] fix: bring the amalgamated header in step with the
 sources again

---
 include/hsm/gen/hsm.h | 13 ++++++++-----
 1 file changed, 8 insertions(+), 5 deletions(-)

diff --git a/include/hsm/gen/hsm.h b/include/hsm/gen/hsm.h
index 1fbd968..00c2b84 100644
--- a/include/hsm/gen/hsm.h
+++ b/include/hsm/gen/hsm.h
@@ -2360,6 +2360,7 @@ public:
 #include <boost/hana/contains.hpp>
 #include <boost/hana/type.hpp>
 
+#include <algorithm>
 #include <array>
 #include <cstdint>
 #include <iostream>
@@ -2463,7 +2464,7 @@ template <class RootState, class... OptionalParameters> class sm {
     template <class ParentState, class State>
     auto is(Region region, ParentState parentState, State state) -> bool
     {
-        return currentParentState() == getParentStateIdx(rootState, parentState)
+        return currentParentState(region) == getParentStateIdx(rootState, parentState)
             && currentState(region) == getStateIdx(rootState, state);
     }
 
@@ -2504,7 +2505,7 @@ template <class RootState, class... OptionalParameters> class sm {
         for (Region region = 0; region < currentRegions; region++) {
             statusStream << "[" << static_cast<unsigned>(region) << "] "
                          << "combined: " << m_currentCombinedState[region] << " "
-                         << "parent: " << currentParentState() << " "
+                         << "parent: " << currentParentState(region) << " "
                          << "state: " << currentState(region);
         }
         return statusStream.str();
@@ -2680,7 +2681,10 @@ template <class RootState, class... OptionalParameters> class sm {
     {
         if constexpr (hasParallelRegions(rootState)) {
             // NOLINTNEXTLINE(cppcoreguidelines-pro-bounds-constant-array-index)
-            m_currentRegions = m_initial_states[currentParentState()].size();
+            m_currentRegions = std::max(
+                m_initial_states[currentParentState()].size(),
+                // The other regions of the root state stay active while region 0 is in a sub state
+                m_initial_states[getParentStateIdx(rootState, rootState)].size());
         }
     }
 
@@ -2710,8 +2714,7 @@ template <class RootState, class... OptionalParameters> class sm {
 
     auto currentParentState(Region region = 0)
     {
-        // NOLINTNEXTLINE(cppcoreguidelines-pro-bounds-constant-array-index)
-        return calcParentStateIdx(nStates(rootState), m_currentCombinedState[region]);
+        return calcParentStateIdx(nStates(rootState), m_currentCombinedState.at(region));
     }
 
     void init_current_state()
-- 
2.43.0


From d8e96ab502bb6e020170a71a1e9c18be662427d1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:44:08 +0000
Subject: [PATCH 15/19] fix: keep the arrival order of deferred events when a
 callback throws during recall

---
 include/hsm/details/sm.h            | 18 ++++++++++++------
 include/hsm/details/variant_queue.h |  9 +++++++++
 include/hsm/gen/hsm.h               | 27 +++++++++++++++++++++------
 3 files changed, 42 insertions(+), 12 deletions(-)

diff --git a/include/hsm/details/sm.h b/include/hsm/details/sm.h
index 41806e3..9422036 100644
--- a/include/hsm/details/sm.h
+++ b/include/hsm/details/sm.h
@@ -250,12 +250,18 @@ template <class RootState, class... OptionalParameters> class sm {
             while (recalled) {
                 recalled = false;
                 for (auto pending = m_defer_queue.size(); pending > 0; pending--) {
-                    m_defer_queue.visit([this, &recalled](auto event) {
-                        if (this->process_event_internal(event)
-                            == ProcessEventResult::EventProcessed) {
-                            recalled = true;
-                        }
-                    });
+                    try {
+                        m_defer_queue.visit([this, &recalled](auto event) {
+                            if (this->process_event_internal(event)
+                                == ProcessEventResult::EventProcessed) {
+                                recalled = true;
+                            }
+                        });
+                    } catch (...) {
+                        // Events of this pass that were deferred again arrived earlier
+                        m_defer_queue.rotate(pending - 1);
+                        throw;
+                    }
                 }
             }
         }
diff --git a/include/hsm/details/variant_queue.h b/include/hsm/details/variant_queue.h
index d66e0f5..d47efa4 100644
--- a/include/hsm/details/variant_queue.h
+++ b/include/hsm/details/variant_queue.h
@@ -46,6 +46,15 @@ public:
         m_queue.push(e);
     }
 
+    // Move the given number of elements from the front to the back
+    void rotate(std::size_t count)
+    {
+        for (; count > 0; count--) {
+            m_queue.push(std::move(m_queue.front()));
+            m_queue.pop();
+        }
+    }
+
     template <class Callable>
     void visit(const Callable& callable){
         if(empty()){
diff --git a/include/hsm/gen/hsm.h b/include/hsm/gen/hsm.h
index 00c2b84..d5f6b78 100644
--- a/include/hsm/gen/hsm.h
+++ b/include/hsm/gen/hsm.h
@@ -2339,6 +2339,15 @@ public:
         m_queue.push(e);
     }
 
+    // Move the given number of elements from the front to the back
+    void rotate(std::size_t count)
+    {
+        for (; count > 0; count--) {
+            m_queue.push(std::move(m_queue.front()));
+            m_queue.pop();
+        }
+    }
+
     template <class Callable>
     void visit(const Callable& callable){
         if(empty()){
@@ -2596,12 +2605,18 @@ template <class RootState, class... OptionalParameters> class sm {
             while (recalled) {
                 recalled = false;
                 for (auto pending = m_defer_queue.size(); pending > 0; pending--) {
-                    m_defer_queue.visit([this, &recalled](auto event) {
-                        if (this->process_event_internal(event)
-                            == ProcessEventResult::EventProcessed) {
-                            recalled = true;
-                        }
-                    });
+                    try {
+                        m_defer_queue.visit([this, &recalled](auto event) {
+                            if (this->process_event_internal(event)
+                                == ProcessEventResult::EventProcessed) {
+                                recalled = true;
+                            }
+                        });
+                    } catch (...) {
+                        // Events of this pass that were deferred again arrived earlier
+                        m_defer_queue.rotate(pending - 1);
+                        throw;
+                    }
                 }
             }
         }
-- 
2.43.0


From 481d30643e768a61f6de376ed54f726699f4008c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:27:36 +0000
Subject: [PATCH 16/19] fix: do not enter a state through a replaced state
 object

---
 include/hsm/details/resolve_state.h | 29 ++++++++++++++++++++++++-----
 include/hsm/gen/hsm.h               | 29 ++++++++++++++++++++++++-----
 2 files changed, 48 insertions(+), 10 deletions(-)

diff --git a/include/hsm/details/resolve_state.h b/include/hsm/details/resolve_state.h
index c4d31e6..79a0e01 100644
--- a/include/hsm/details/resolve_state.h
+++ b/include/hsm/details/resolve_state.h
@@ -4,6 +4,9 @@
 #include "hsm/details/traits.h"
 #include <boost/hana/functional/apply.hpp>
 
+#include <memory>
+#include <type_traits>
+
 namespace hsm {
 
 namespace bh {
@@ -146,16 +149,32 @@ template <class Transition> constexpr auto resolveNoAction(Transition transition
     }
 }
 
+// The action of a self transition may have replaced the state object (create_state)
+template <class Source, class Target>
+constexpr auto resolveSourceAfterAction(Source& source, Target& target) -> Source&
+{
+    if constexpr (std::is_same_v<
+                      std::remove_const_t<Target>,
+                      std::shared_ptr<std::unique_ptr<Source>>>) {
+        return **target;
+    } else {
+        (void)target;
+        return source;
+    }
+}
+
 template <class Transition> constexpr auto resolveEntryExitAction(Transition transition)
 {
     return [exitAction(resolveExitAction(transition)),
             action(resolveNoAction(transition)),
             entryAction(resolveEntryAction(transition)),
-            initialStateEntryAction(resolveInitialStateEntryAction(transition))](auto&&... params) {
-        exitAction(std::forward<decltype(params)>(params)...);
-        action(std::forward<decltype(params)>(params)...);
-        entryAction(std::forward<decltype(params)>(params)...);
-        initialStateEntryAction(std::forward<decltype(params)>(params)...);
+            initialStateEntryAction(resolveInitialStateEntryAction(transition))](
+               auto&& event, auto&& source, auto&& target, auto&&... dependencies) {
+        exitAction(event, source, target, dependencies...);
+        action(event, source, target, dependencies...);
+        auto& currentSource = resolveSourceAfterAction(source, target);
+        entryAction(event, currentSource, target, dependencies...);
+        initialStateEntryAction(event, currentSource, target, dependencies...);
     };
 }
 
diff --git a/include/hsm/gen/hsm.h b/include/hsm/gen/hsm.h
index d5f6b78..4902a93 100644
--- a/include/hsm/gen/hsm.h
+++ b/include/hsm/gen/hsm.h
@@ -997,6 +997,9 @@ constexpr auto has_action = [](auto transition) {
 }
 #include <boost/hana/functional/apply.hpp>
 
+#include <memory>
+#include <type_traits>
+
 namespace hsm {
 
 namespace bh {
@@ -1139,16 +1142,32 @@ template <class Transition> constexpr auto resolveNoAction(Transition transition
     }
 }
 
+// The action of a self transition may have replaced the state object (create_state)
+template <class Source, class Target>
+constexpr auto resolveSourceAfterAction(Source& source, Target& target) -> Source&
+{
+    if constexpr (std::is_same_v<
+                      std::remove_const_t<Target>,
+                      std::shared_ptr<std::unique_ptr<Source>>>) {
+        return **target;
+    } else {
+        (void)target;
+        return source;
+    }
+}
+
 template <class Transition> constexpr auto resolveEntryExitAction(Transition transition)
 {
     return [exitAction(resolveExitAction(transition)),
             action(resolveNoAction(transition)),
             entryAction(resolveEntryAction(transition)),
-            initialStateEntryAction(resolveInitialStateEntryAction(transition))](auto&&... params) {
-        exitAction(std::forward<decltype(params)>(params)...);
-        action(std::forward<decltype(params)>(params)...);
-        entryAction(std::forward<decltype(params)>(params)...);
-        initialStateEntryAction(std::forward<decltype(params)>(params)...);
+            initialStateEntryAction(resolveInitialStateEntryAction(transition))](
+               auto&& event, auto&& source, auto&& target, auto&&... dependencies) {
+        exitAction(event, source, target, dependencies...);
+        action(event, source, target, dependencies...);
+        auto& currentSource = resolveSourceAfterAction(source, target);
+        entryAction(event, currentSource, target, dependencies...);
+        initialStateEntryAction(event, currentSource, target, dependencies...);
     };
 }
 
-- 
2.43.0


From 261a8161307c2138717910866510f9897e581e67 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:36:54 +0000
Subject: [PATCH 17/19] fix: reject a root state machine whose only initial
 states are in a sub state machine

---
 include/hsm/details/sm.h | 2 +-
 include/hsm/gen/hsm.h    | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/hsm/details/sm.h b/include/hsm/details/sm.h
index 9422036..0c2da10 100644
--- a/include/hsm/details/sm.h
+++ b/include/hsm/details/sm.h
@@ -57,7 +57,7 @@ template <class RootState, class... OptionalParameters> class sm {
             bh::size(flatten_transition_table(rootState)),
             "Transition table needs at least one transition");
         static_assert(
-            maxInitialStates(rootState),
+            bh::size(collect_initial_states(rootState)),
             "Transition table needs to have at least one initial state");
         static_assert(
             bh::not_(at_least_one_initial_state_has_transition_table(rootState)),
diff --git a/include/hsm/gen/hsm.h b/include/hsm/gen/hsm.h
index 4902a93..83416b3 100644
--- a/include/hsm/gen/hsm.h
+++ b/include/hsm/gen/hsm.h
@@ -2431,7 +2431,7 @@ template <class RootState, class... OptionalParameters> class sm {
             bh::size(flatten_transition_table(rootState)),
             "Transition table needs at least one transition");
         static_assert(
-            maxInitialStates(rootState),
+            bh::size(collect_initial_states(rootState)),
             "Transition table needs to have at least one initial state");
         static_assert(
             bh::not_(at_least_one_initial_state_has_transition_table(rootState)),
-- 
2.43.0


From bc86bfeafa8f82f2e799612ce07901849a8b0285 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:29:23 +0000
Subject: [PATCH 18/19] fix: do not extend internal transitions to the sub
 states that pseudo states name

---
 .../details/flatten_internal_transition_table.h   | 15 ++++++++++++++-
 include/hsm/gen/hsm.h                             | 15 ++++++++++++++-
 2 files changed, 28 insertions(+), 2 deletions(-)

diff --git a/include/hsm/details/flatten_internal_transition_table.h b/include/hsm/details/flatten_internal_transition_table.h
index 89e7b09..4a955d3 100644
--- a/include/hsm/details/flatten_internal_transition_table.h
+++ b/include/hsm/details/flatten_internal_transition_table.h
@@ -11,6 +11,7 @@
 #include <boost/hana/filter.hpp>
 #include <boost/hana/functional/capture.hpp>
 #include <boost/hana/not.hpp>
+#include <boost/hana/or.hpp>
 #include <boost/hana/prepend.hpp>
 #include <boost/hana/size.hpp>
 #include <boost/hana/transform.hpp>
@@ -27,6 +28,16 @@ using namespace boost::hana;
 constexpr auto isNotEmpty
     = [](const auto& tuple) { return bh::not_(bh::equal(bh::size_c<0>, bh::size(tuple))); };
 
+/**
+ * Predicate that checks that a state is a state of the transition table itself
+ * and not a pseudo state that refers to a state of a sub state machine
+ */
+constexpr auto isOwnState = [](auto state) {
+    return bh::not_(bh::or_(
+        bh::or_(is_exit_state(state), is_entry_state(state)),
+        bh::or_(is_direct_state(state), is_history_state(state))));
+};
+
 /**
  * Returns a tuple of internal transitions of a state if it exists.
  * Otherwise a empty tuple is returned. Source and target of the
@@ -113,7 +124,9 @@ constexpr auto get_internal_transitions = [](auto stateAndParentStatePairs) {
                         if constexpr (has_transition_table(bh::second(stateAndParentStatePair))) {
                             return extend_internal_transition(
                                 internalTransition,
-                                collect_child_states(bh::second(stateAndParentStatePair)));
+                                bh::filter(
+                                    collect_child_states(bh::second(stateAndParentStatePair)),
+                                    isOwnState));
                         } else if constexpr (has_internal_transition_table(
                                                  bh::second(stateAndParentStatePair))) {
                             return extend_internal_transition2(
diff --git a/include/hsm/gen/hsm.h b/include/hsm/gen/hsm.h
index 83416b3..cef7bc3 100644
--- a/include/hsm/gen/hsm.h
+++ b/include/hsm/gen/hsm.h
@@ -1382,6 +1382,7 @@ template <class State> constexpr auto collect_state_parentstate_pairs_recursivel
 #include <boost/hana/filter.hpp>
 #include <boost/hana/functional/capture.hpp>
 #include <boost/hana/not.hpp>
+#include <boost/hana/or.hpp>
 #include <boost/hana/prepend.hpp>
 #include <boost/hana/size.hpp>
 #include <boost/hana/transform.hpp>
@@ -1398,6 +1399,16 @@ using namespace boost::hana;
 constexpr auto isNotEmpty
     = [](const auto& tuple) { return bh::not_(bh::equal(bh::size_c<0>, bh::size(tuple))); };
 
+/**
+ * Predicate that checks that a state is a state of the transition table itself
+ * and not a pseudo state that refers to a state of a sub state machine
+ */
+constexpr auto isOwnState = [](auto state) {
+    return bh::not_(bh::or_(
+        bh::or_(is_exit_state(state), is_entry_state(state)),
+        bh::or_(is_direct_state(state), is_history_state(state))));
+};
+
 /**
  * Returns a tuple of internal transitions of a state if it exists.
  * Otherwise a empty tuple is returned. Source and target of the
@@ -1484,7 +1495,9 @@ constexpr auto get_internal_transitions = [](auto stateAndParentStatePairs) {
                         if constexpr (has_transition_table(bh::second(stateAndParentStatePair))) {
                             return extend_internal_transition(
                                 internalTransition,
-                                collect_child_states(bh::second(stateAndParentStatePair)));
+                                bh::filter(
+                                    collect_child_states(bh::second(stateAndParentStatePair)),
+                                    isOwnState));
                         } else if constexpr (has_internal_transition_table(
                                                  bh::second(stateAndParentStatePair))) {
                             return extend_internal_transition2(
-- 
2.43.0


From 3a80d19bf8adcb11a52f4f639cc53f94bb24fd36 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:33:37 +0000
Subject: [PATCH 19/19] fix: find the internal transitions of sub state
 machines that only pseudo states name

---
 .../flatten_internal_transition_table.h       | 19 ++++++++++++++++++-
 include/hsm/gen/hsm.h                         | 19 ++++++++++++++++++-
 2 files changed, 36 insertions(+), 2 deletions(-)

diff --git a/include/hsm/details/flatten_internal_transition_table.h b/include/hsm/details/flatten_internal_transition_table.h
index 4a955d3..cd5b178 100644
--- a/include/hsm/details/flatten_internal_transition_table.h
+++ b/include/hsm/details/flatten_internal_transition_table.h
@@ -7,11 +7,13 @@
 #include <boost/hana/append.hpp>
 #include <boost/hana/at.hpp>
 #include <boost/hana/basic_tuple.hpp>
+#include <boost/hana/concat.hpp>
 #include <boost/hana/equal.hpp>
 #include <boost/hana/filter.hpp>
 #include <boost/hana/functional/capture.hpp>
 #include <boost/hana/not.hpp>
 #include <boost/hana/or.hpp>
+#include <boost/hana/pair.hpp>
 #include <boost/hana/prepend.hpp>
 #include <boost/hana/size.hpp>
 #include <boost/hana/transform.hpp>
@@ -144,6 +146,19 @@ constexpr auto get_internal_transitions = [](auto stateAndParentStatePairs) {
         isNotEmpty));
 };
 
+/**
+ * Returns the pairs of parent state and sub state machine for all sub state machines
+ * that are a target of a transition, including those that only pseudo states refer to
+ *
+ * @param rootState
+ */
+template <class State> constexpr auto collect_parentstate_pairs_of_targets(State rootState)
+{
+    return bh::transform(flatten_transition_table(rootState), [](auto transition) {
+        return bh::make_pair(transition.parent(), resolveSubStateParent(transition));
+    });
+}
+
 /**
  * Returns a tuple of extended internal transitions reachable from a given rootState
  *
@@ -154,7 +169,9 @@ template <class State> constexpr auto flatten_internal_transition_table(State ro
     return [](auto stateAndParentStatePairs) {
         return remove_duplicate_types(bh::to<bh::basic_tuple_tag>(
             bh::flatten(get_internal_transitions(stateAndParentStatePairs))));
-    }(collect_state_parentstate_pairs_recursively(rootState));
+    }(remove_duplicates(bh::concat(
+        collect_state_parentstate_pairs_recursively(rootState),
+        collect_parentstate_pairs_of_targets(rootState))));
 }
 
 } // namespace hsm
\ No newline at end of file
diff --git a/include/hsm/gen/hsm.h b/include/hsm/gen/hsm.h
index cef7bc3..3dd63d1 100644
--- a/include/hsm/gen/hsm.h
+++ b/include/hsm/gen/hsm.h
@@ -1378,11 +1378,13 @@ template <class State> constexpr auto collect_state_parentstate_pairs_recursivel
 #include <boost/hana/append.hpp>
 #include <boost/hana/at.hpp>
 #include <boost/hana/basic_tuple.hpp>
+#include <boost/hana/concat.hpp>
 #include <boost/hana/equal.hpp>
 #include <boost/hana/filter.hpp>
 #include <boost/hana/functional/capture.hpp>
 #include <boost/hana/not.hpp>
 #include <boost/hana/or.hpp>
+#include <boost/hana/pair.hpp>
 #include <boost/hana/prepend.hpp>
 #include <boost/hana/size.hpp>
 #include <boost/hana/transform.hpp>
@@ -1515,6 +1517,19 @@ constexpr auto get_internal_transitions = [](auto stateAndParentStatePairs) {
         isNotEmpty));
 };
 
+/**
+ * Returns the pairs of parent state and sub state machine for all sub state machines
+ * that are a target of a transition, including those that only pseudo states refer to
+ *
+ * @param rootState
+ */
+template <class State> constexpr auto collect_parentstate_pairs_of_targets(State rootState)
+{
+    return bh::transform(flatten_transition_table(rootState), [](auto transition) {
+        return bh::make_pair(transition.parent(), resolveSubStateParent(transition));
+    });
+}
+
 /**
  * Returns a tuple of extended internal transitions reachable from a given rootState
  *
@@ -1525,7 +1540,9 @@ template <class State> constexpr auto flatten_internal_transition_table(State ro
     return [](auto stateAndParentStatePairs) {
         return remove_duplicate_types(bh::to<bh::basic_tuple_tag>(
             bh::flatten(get_internal_transitions(stateAndParentStatePairs))));
-    }(collect_state_parentstate_pairs_recursively(rootState));
+    }(remove_duplicates(bh::concat(
+        collect_state_parentstate_pairs_recursively(rootState),
+        collect_parentstate_pairs_of_targets(rootState))));
 }
 
 } // namespace hsm
-- 
2.43.0

