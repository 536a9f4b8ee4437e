From 459057ebad90b4a736bef888438c5b208475a23a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:49:20 +0000
Subject: [PATCH 01/38] fix: thread: nested supervisors deliver inbound
 messages via the locality leader

Messages enqueued from other threads (and shutdown()) to a non-root
supervisor_thread_t were pushed to its own inbound queue, which nobody polls.
---
 src/rotor/thread/supervisor_thread.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/rotor/thread/supervisor_thread.cpp b/src/rotor/thread/supervisor_thread.cpp
index 1f7ed2c..c83a2f0 100644
--- a/src/rotor/thread/supervisor_thread.cpp
+++ b/src/rotor/thread/supervisor_thread.cpp
@@ -24,7 +24,8 @@ void supervisor_thread_t::shutdown() noexcept {
 
 void supervisor_thread_t::enqueue(message_ptr_t message) noexcept {
     auto ctx = static_cast<system_context_thread_t *>(context);
-    inbound_queue.push(message.detach());
+    auto leader = static_cast<supervisor_thread_t *>(locality_leader);
+    leader->inbound_queue.push(message.detach());
     std::lock_guard<std::mutex> lock(ctx->mutex);
     ctx->cv.notify_one();
 }
-- 
2.43.0


From 42c57170b664df9c6d1c03d9b4b8553a53c0d2c9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:08:13 +0000
Subject: [PATCH 02/38] fix: thread: refresh the cached time when the loop
 starts to run

---
 src/rotor/thread/system_context_thread.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/rotor/thread/system_context_thread.cpp b/src/rotor/thread/system_context_thread.cpp
index b420c07..a3a7eb5 100644
--- a/src/rotor/thread/system_context_thread.cpp
+++ b/src/rotor/thread/system_context_thread.cpp
@@ -52,6 +52,7 @@ void system_context_thread_t::run() noexcept {
 
     auto total_us = poll_duration.total_microseconds();
     auto delta = time_units_t{total_us};
+    now = clock_t::now(); // a lot of time might have passed since the construction of the context
     while (condition()) {
         root_sup.do_process();
         if (condition()) {
-- 
2.43.0


From 7d1c6277cb5a49cb72520537e91dd82bf270e769 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:08:35 +0000
Subject: [PATCH 03/38] fix: tag a handler in the subscription map of its
 locality leader

---
 src/rotor/subscription_point.cpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/rotor/subscription_point.cpp b/src/rotor/subscription_point.cpp
index 0cdee33..d9e5532 100644
--- a/src/rotor/subscription_point.cpp
+++ b/src/rotor/subscription_point.cpp
@@ -11,9 +11,11 @@ namespace rotor {
 
 namespace to {
 struct subscription_map {};
+struct locality_leader {};
 } // namespace to
 
 template <> auto &supervisor_t::access<to::subscription_map>() noexcept { return subscription_map; }
+template <> auto &supervisor_t::access<to::locality_leader>() noexcept { return locality_leader; }
 
 namespace tags {
 
@@ -39,7 +41,7 @@ subscription_container_t::iterator subscription_container_t::find(const subscrip
 void subscription_info_t::tag(const void *t) noexcept {
     auto new_handler = handler->upgrade(t);
     auto &sup = handler->actor_ptr->get_supervisor();
-    auto &sm = sup.access<to::subscription_map>();
+    auto &sm = sup.access<to::locality_leader>()->access<to::subscription_map>();
     sm.update(*this, new_handler);
 }
 
-- 
2.43.0


From 9f55cd754837311842aa135299852c89899dec54 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:09:35 +0000
Subject: [PATCH 04/38] fix: thread: timer handlers may start and cancel timers
 while a blocking handler runs

---
 src/rotor/thread/system_context_thread.cpp | 17 ++++++++---------
 1 file changed, 8 insertions(+), 9 deletions(-)

diff --git a/src/rotor/thread/system_context_thread.cpp b/src/rotor/thread/system_context_thread.cpp
index a3a7eb5..8a30cab 100644
--- a/src/rotor/thread/system_context_thread.cpp
+++ b/src/rotor/thread/system_context_thread.cpp
@@ -94,11 +94,12 @@ void system_context_thread_t::check() noexcept {
 
 void system_context_thread_t::update_time() noexcept {
     now = clock_t::now();
-    auto it = timer_nodes.begin();
-    while (it != timer_nodes.end() && it->deadline < now) {
-        auto actor_ptr = it->handler->owner;
-        actor_ptr->access<to::on_timer_trigger, request_id_t, bool>(it->handler->request_id, false);
-        it = timer_nodes.erase(it);
+    while (!timer_nodes.empty() && timer_nodes.front().deadline < now) {
+        // forget the timer before its handler is called, as the handler might lead here again
+        auto handler = timer_nodes.front().handler;
+        timer_nodes.pop_front();
+        auto actor_ptr = handler->owner;
+        actor_ptr->access<to::on_timer_trigger, request_id_t, bool>(handler->request_id, false);
     }
 }
 
@@ -116,14 +117,12 @@ void system_context_thread_t::start_timer(const pt::time_duration &interval, tim
 }
 
 void system_context_thread_t::cancel_timer(request_id_t timer_id) noexcept {
-    if (intercepting)
-        update_time();
     auto predicate = [&](auto &info) { return info.handler->request_id == timer_id; };
     auto it = std::find_if(timer_nodes.begin(), timer_nodes.end(), predicate);
     assert(it != timer_nodes.end() && "timer has been found");
-    auto &actor_ptr = it->handler->owner;
-    actor_ptr->access<to::on_timer_trigger, request_id_t, bool>(timer_id, true);
+    auto actor_ptr = it->handler->owner;
     timer_nodes.erase(it);
+    actor_ptr->access<to::on_timer_trigger, request_id_t, bool>(timer_id, true);
 }
 
 } // namespace rotor
-- 
2.43.0


From 22dac57b930568b26ea50554623202506993f0a2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:20:35 +0000
Subject: [PATCH 05/38] fix: start children created after a supervisor with
 synchronized start became operational

---
 src/rotor/plugin/child_manager.cpp | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/src/rotor/plugin/child_manager.cpp b/src/rotor/plugin/child_manager.cpp
index 8ce2271..0d814b0 100644
--- a/src/rotor/plugin/child_manager.cpp
+++ b/src/rotor/plugin/child_manager.cpp
@@ -292,8 +292,11 @@ void child_manager_plugin_t::on_init(message::init_response_t &message) noexcept
            right after creation */
         if (actor_found) {
             it_actor->second->initialized = true;
-            bool do_start = (address == actor->get_address()) ? (self_state <= state_t::OPERATIONAL)
-                                                              : !sup.access<to::synchronize_start>();
+            /* when supervisor is already operational (i.e. actor was created or spawned later), there
+               will be no other event to start it */
+            bool do_start = (address == actor->get_address())
+                                ? (self_state <= state_t::OPERATIONAL)
+                                : (!sup.access<to::synchronize_start>() || self_state == state_t::OPERATIONAL);
             if (do_start) {
                 sup.template send<payload::start_actor_t>(address);
                 it_actor->second->started = true;
-- 
2.43.0


From f77c82859fe8a3f6d5992d5999e048d0e23e4d6c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:22:19 +0000
Subject: [PATCH 06/38] fix: supervisor does not finish initialization while a
 child, failed to initialize, shuts down

---
 src/rotor/plugin/child_manager.cpp | 16 ++++++++++------
 1 file changed, 10 insertions(+), 6 deletions(-)

diff --git a/src/rotor/plugin/child_manager.cpp b/src/rotor/plugin/child_manager.cpp
index 0d814b0..53a871a 100644
--- a/src/rotor/plugin/child_manager.cpp
+++ b/src/rotor/plugin/child_manager.cpp
@@ -258,9 +258,12 @@ void child_manager_plugin_t::on_init(message::init_response_t &message) noexcept
 
     auto &sup = static_cast<supervisor_t &>(*actor);
     bool continue_init = false;
-    continue_init = !ec && !has_initializing();
     auto it_actor = actors_map.find(address);
     bool actor_found = it_actor != actors_map.end();
+    if (!ec && actor_found) {
+        it_actor->second->initialized = true;
+    }
+    continue_init = !ec && !has_initializing();
 
     auto &self_state = actor->access<to::state>();
     if (ec) {
@@ -291,7 +294,6 @@ void child_manager_plugin_t::on_init(message::init_response_t &message) noexcept
         /* the if is needed for the very rare case when supervisor was immediately shut down
            right after creation */
         if (actor_found) {
-            it_actor->second->initialized = true;
             /* when supervisor is already operational (i.e. actor was created or spawned later), there
                will be no other event to start it */
             bool do_start = (address == actor->get_address())
@@ -455,16 +457,18 @@ void child_manager_plugin_t::handle_start(message::start_trigger_t *trigger) noe
 }
 
 bool child_manager_plugin_t::has_initializing() const noexcept {
+    auto &sup = static_cast<supervisor_t &>(*actor);
+    bool shutdown_self = sup.access<to::policy>() == supervisor_policy_t::shutdown_self;
     auto init_predicate = [&](auto &it) {
         auto &info = *it.second;
         auto &child = info.actor;
         if (!child) {
             return false;
         }
-        auto &state = child->template access<to::state>();
-        bool still_initializing =
-            (it.first != actor->get_address()) && (state <= state_t::INITIALIZING) && !info.initialized;
-        return still_initializing;
+        /* unless failed children are allowed, the one which is being shut down without confirmed
+           initialization has to be accounted until it is removed, independently how long that takes */
+        bool pending = shutdown_self || (info.shutdown == detail::shutdown_state_t::none);
+        return (it.first != actor->get_address()) && !info.initialized && pending;
     };
     bool has_any = std::any_of(actors_map.begin(), actors_map.end(), init_predicate);
     return has_any;
-- 
2.43.0


From b1e4f9ff59c07f6476e076a2f5d25276f47b1cbc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:23:04 +0000
Subject: [PATCH 07/38] fix: failure escalation of a supervisor's init keeps
 the reason of the failed child

---
 src/rotor/plugin/child_manager.cpp | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/rotor/plugin/child_manager.cpp b/src/rotor/plugin/child_manager.cpp
index 53a871a..43d3f71 100644
--- a/src/rotor/plugin/child_manager.cpp
+++ b/src/rotor/plugin/child_manager.cpp
@@ -105,12 +105,13 @@ void child_manager_plugin_t::remove_child(const actor_base_t &child) noexcept {
             auto &policy = sup->access<to::policy>();
             if (policy == supervisor_policy_t::shutdown_failed) {
                 auto ec = make_error_code(shutdown_code_t::child_down);
-                supervisor_reason = make_error(ec);
+                supervisor_reason = make_error(ec, info.actor->get_shutdown_reason());
             } else {
                 auto &init_request = actor->access<to::init_request>();
                 if (init_request) {
                     auto ec = make_error_code(error_code_t::failure_escalation);
-                    actor->reply_with_error(*init_request, make_error(ec, {}, init_request));
+                    auto &child_reason = info.actor->get_shutdown_reason();
+                    actor->reply_with_error(*init_request, make_error(ec, child_reason, init_request));
                     init_request.reset();
                 }
             }
-- 
2.43.0


From 353c9fbc23d1e8896db8bf650199d4c3440e64b4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:27:26 +0000
Subject: [PATCH 08/38] fix: child manager handles late init failures and
 shutdown triggers of children which are gone or live on other threads

---
 src/rotor/plugin/child_manager.cpp | 13 ++++++++-----
 1 file changed, 8 insertions(+), 5 deletions(-)

diff --git a/src/rotor/plugin/child_manager.cpp b/src/rotor/plugin/child_manager.cpp
index 43d3f71..f2bcb7d 100644
--- a/src/rotor/plugin/child_manager.cpp
+++ b/src/rotor/plugin/child_manager.cpp
@@ -285,11 +285,11 @@ void child_manager_plugin_t::on_init(message::init_response_t &message) noexcept
                 auto reason = make_error(make_error_code(shutdown_code_t::child_init_failed), ec);
                 actor->do_shutdown(reason);
             }
-        } else {
-            auto source_actor = actor_found ? it_actor->second->actor : this->actor;
+        } else if (actor_found) {
             auto inner = make_error_code(shutdown_code_t::init_failed);
             auto reason = make_error(inner, ec);
-            source_actor->do_shutdown(reason);
+            /* the failed actor might belong to a different locality, i.e. have different queue */
+            actor->send<payload::shutdown_trigger_t>(actor->get_address(), address, std::move(reason));
         }
     } else {
         /* the if is needed for the very rare case when supervisor was immediately shut down
@@ -317,8 +317,11 @@ void child_manager_plugin_t::on_init(message::init_response_t &message) noexcept
 
 void child_manager_plugin_t::on_shutdown_trigger(message::shutdown_trigger_t &message) noexcept {
     auto &source_addr = message.payload.actor_address;
-    auto &actor_state = actors_map.at(source_addr);
-    request_shutdown(*actor_state, message.payload.reason);
+    auto it = actors_map.find(source_addr);
+    /* the trigger might be late, i.e. when the child is already removed (or waits to be spawned again) */
+    if (it != actors_map.end() && it->second->actor) {
+        request_shutdown(*it->second, message.payload.reason);
+    }
 }
 
 void child_manager_plugin_t::on_shutdown_fail(actor_base_t &actor_, const extended_error_ptr_t &ec) noexcept {
-- 
2.43.0


From 388e2e82b42606417e70173e1987a6b3eab72b77 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:29:38 +0000
Subject: [PATCH 09/38] fix: a nested supervisor does not discard an own
 request instead of its init request, made by the parent

---
 src/rotor/plugin/child_manager.cpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/rotor/plugin/child_manager.cpp b/src/rotor/plugin/child_manager.cpp
index f2bcb7d..8f13264 100644
--- a/src/rotor/plugin/child_manager.cpp
+++ b/src/rotor/plugin/child_manager.cpp
@@ -330,6 +330,9 @@ void child_manager_plugin_t::on_shutdown_fail(actor_base_t &actor_, const extend
 
 void child_manager_plugin_t::cancel_init(const actor_base_t *child) noexcept {
     auto &sup = static_cast<supervisor_t &>(*actor);
+    if (child == actor && sup.access<to::parent>()) {
+        return; // the own init-request was made by the parent, i.e. it has nothing to do with own requests
+    }
     auto &init_request = child->access<to::init_request>();
     if (init_request) {
         // options: answer instead of actor (easier, but unexpected message can be seen)
-- 
2.43.0


From 643a13f422b8d7222953af548ee3eeb685f7b94c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:33:32 +0000
Subject: [PATCH 10/38] fix: failure of a child, which happens before the init
 request of its supervisor arrives, is not ignored

---
 include/rotor/plugin/child_manager.h |  3 +++
 src/rotor/plugin/child_manager.cpp   | 17 +++++++++++++++--
 2 files changed, 18 insertions(+), 2 deletions(-)

diff --git a/include/rotor/plugin/child_manager.h b/include/rotor/plugin/child_manager.h
index 7b6c1ef..b957096 100644
--- a/include/rotor/plugin/child_manager.h
+++ b/include/rotor/plugin/child_manager.h
@@ -117,6 +117,9 @@ struct ROTOR_API child_manager_plugin_t : public plugin_base_t {
     /** \brief local address to local actor (intrusive pointer) mapping */
     actors_map_t actors_map;
     spawning_map_t spawning_map;
+
+    /** \brief the reason of a child init failure, which happened before own init request arrived */
+    extended_error_ptr_t init_failure;
 };
 
 } // namespace rotor::plugin
diff --git a/src/rotor/plugin/child_manager.cpp b/src/rotor/plugin/child_manager.cpp
index 8f13264..f032e52 100644
--- a/src/rotor/plugin/child_manager.cpp
+++ b/src/rotor/plugin/child_manager.cpp
@@ -108,11 +108,14 @@ void child_manager_plugin_t::remove_child(const actor_base_t &child) noexcept {
                 supervisor_reason = make_error(ec, info.actor->get_shutdown_reason());
             } else {
                 auto &init_request = actor->access<to::init_request>();
+                auto &child_reason = info.actor->get_shutdown_reason();
                 if (init_request) {
                     auto ec = make_error_code(error_code_t::failure_escalation);
-                    auto &child_reason = info.actor->get_shutdown_reason();
                     actor->reply_with_error(*init_request, make_error(ec, child_reason, init_request));
                     init_request.reset();
+                } else {
+                    /* the request has not arrived yet (or it is already replied) */
+                    init_failure = child_reason;
                 }
             }
         }
@@ -369,7 +372,17 @@ void child_manager_plugin_t::on_shutdown_confirm(message::shutdown_response_t &m
     }
 }
 
-bool child_manager_plugin_t::handle_init(message::init_request_t *) noexcept { return !has_initializing(); }
+bool child_manager_plugin_t::handle_init(message::init_request_t *) noexcept {
+    if (init_failure) {
+        auto &init_request = actor->access<to::init_request>();
+        auto ec = make_error_code(error_code_t::failure_escalation);
+        actor->reply_with_error(*init_request, make_error(ec, init_failure, init_request));
+        init_request.reset();
+        init_failure.reset();
+        return false;
+    }
+    return !has_initializing();
+}
 
 bool child_manager_plugin_t::handle_shutdown(message::shutdown_request_t *req) noexcept {
     /* prevent double sending req, i.e. from parent and from self */
-- 
2.43.0


From 084c815090c2217c596e6eb9848179d4b7f8f292 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:36:42 +0000
Subject: [PATCH 11/38] fix: nested supervisors escalate failures to and shut
 down their parent, when they are asked to

---
 src/rotor/actor_base.cpp | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/src/rotor/actor_base.cpp b/src/rotor/actor_base.cpp
index 336f90b..415398a 100644
--- a/src/rotor/actor_base.cpp
+++ b/src/rotor/actor_base.cpp
@@ -104,14 +104,17 @@ void actor_base_t::on_start() noexcept { state = state_t::OPERATIONAL; }
 
 void actor_base_t::shutdown_start() noexcept {
     state = state_t::SHUTTING_DOWN;
-    if (!spawner_address) {
+    // a nested supervisor is supervised by its parent (and nobody supervises the root one)
+    auto self_supervised = static_cast<actor_base_t *>(supervisor) == this;
+    auto upstream = self_supervised ? supervisor->parent : supervisor;
+    if (!spawner_address && upstream) {
         if ((continuation_mask & ESCALATE_FALIURE) && shutdown_reason && shutdown_reason->root()->ec) {
-            auto &sup = supervisor->get_address();
+            auto &sup = upstream->get_address();
             auto ee = make_error(make_error_code(error_code_t::failure_escalation), shutdown_reason);
             send<payload::shutdown_trigger_t>(sup, sup, std::move(ee));
         }
         if (continuation_mask & AUTOSHUTDOWN_SUPERVISOR) {
-            auto &sup = supervisor->get_address();
+            auto &sup = upstream->get_address();
             auto ee = make_error(make_error_code(shutdown_code_t::child_down), shutdown_reason);
             send<payload::shutdown_trigger_t>(sup, sup, std::move(ee));
         }
-- 
2.43.0


From bf58f2f750624af33b305099b78b0b01802123c2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:49:21 +0000
Subject: [PATCH 12/38] fix: ev: poll for messages by the monotonic clock

ev_now() follows the wall clock. When that was stepped back during polling,
the loop spun until the wall clock caught up and did not serve timers.
---
 src/rotor/ev/supervisor_ev.cpp | 13 +++++++------
 1 file changed, 7 insertions(+), 6 deletions(-)

diff --git a/src/rotor/ev/supervisor_ev.cpp b/src/rotor/ev/supervisor_ev.cpp
index 45c69f0..0540c6a 100644
--- a/src/rotor/ev/supervisor_ev.cpp
+++ b/src/rotor/ev/supervisor_ev.cpp
@@ -5,6 +5,7 @@
 //
 
 #include "rotor/ev/supervisor_ev.h"
+#include <chrono>
 
 using namespace rotor;
 using namespace rotor::ev;
@@ -125,14 +126,14 @@ void supervisor_ev_t::on_async() noexcept {
     }
 
     if (poll_duration > 0 && enqueued_messages) {
-        ev_now_update(loop);
-        auto now = ev_now(loop);
-        auto deadline = now + poll_duration;
-        while (now < deadline && q.empty()) {
+        // ev_now() follows the wall clock, which might be stepped back
+        using clock_t = std::chrono::steady_clock;
+        auto started = clock_t::now();
+        auto interval = std::chrono::duration<ev_tstamp>(poll_duration);
+        while (q.empty() && (clock_t::now() - started) < interval) {
             move_inbound_queue();
-            ev_now_update(loop);
-            now = ev_now(loop);
         }
+        ev_now_update(loop);
 
         if (!q.empty()) {
             do_process();
-- 
2.43.0


From 88bf6580eea7f7aeda4afd26d33e3d793541f116 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:49:21 +0000
Subject: [PATCH 13/38] fix: do not spawn actors on a supervisor which is
 shutting down

The spawn message could have been sent before the shutdown started; a new
instance was made then, contrary to the documentation of spawner_t.
---
 src/rotor/plugin/child_manager.cpp | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/src/rotor/plugin/child_manager.cpp b/src/rotor/plugin/child_manager.cpp
index f032e52..193fc88 100644
--- a/src/rotor/plugin/child_manager.cpp
+++ b/src/rotor/plugin/child_manager.cpp
@@ -221,6 +221,15 @@ void child_manager_plugin_t::on_spawn(message::spawn_actor_t &message) noexcept
     if (!info.active) {
         return;
     }
+    auto &self_state = actor->access<to::state>();
+    if (self_state > state_t::OPERATIONAL) {
+        /* the message was sent before the shutdown has been started */
+        info.active = false;
+        if (self_state == state_t::SHUTTING_DOWN && (active_actors() <= 1)) {
+            actor->shutdown_continue();
+        }
+        return;
+    }
     info.spawn_attempt();
 
     try {
-- 
2.43.0


From e479da71e289d0f6b758c62e9d697a1eb551e72f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:52:47 +0000
Subject: [PATCH 14/38] fix: measure the restart pause of spawners by a
 monotonic clock

A step of the wall clock (or of the time zone offset, as the local time was
used) made a spawner restart its actor before the pause was over.
---
 include/rotor/detail/child_info.h | 7 ++++---
 src/rotor/detail/child_info.cpp   | 7 ++++---
 2 files changed, 8 insertions(+), 6 deletions(-)

diff --git a/include/rotor/detail/child_info.h b/include/rotor/detail/child_info.h
index 6ff7924..512cb02 100644
--- a/include/rotor/detail/child_info.h
+++ b/include/rotor/detail/child_info.h
@@ -8,6 +8,7 @@
 
 #include "rotor/forward.hpp"
 #include "rotor/policy.h"
+#include <chrono>
 #include <variant>
 
 #if defined(_MSC_VER)
@@ -34,8 +35,8 @@ using spawn_demand_t = std::variant<demand::no, demand::now, demand::escalate_fa
  *
  */
 struct ROTOR_API child_info_t : boost::intrusive_ref_counter<child_info_t, boost::thread_unsafe_counter> {
-    /** \brief an alias for used microsec clock */
-    using clock_t = pt::microsec_clock;
+    /** \brief an alias for used (monotonic) clock */
+    using clock_t = std::chrono::steady_clock;
 
     /** \brief CTOR for spawner-instantiated actor */
     template <typename Factory>
@@ -106,7 +107,7 @@ struct ROTOR_API child_info_t : boost::intrusive_ref_counter<child_info_t, boost
     request_id_t timer_id{0};
 
     /** \brief when an actor was successfully spawned */
-    pt::ptime last_instantiation;
+    clock_t::time_point last_instantiation;
 
     /** \brief whether actor is initialized */
     bool initialized = false;
diff --git a/src/rotor/detail/child_info.cpp b/src/rotor/detail/child_info.cpp
index 1cfa860..687bbb0 100644
--- a/src/rotor/detail/child_info.cpp
+++ b/src/rotor/detail/child_info.cpp
@@ -14,7 +14,7 @@ void child_info_t::spawn_attempt() noexcept {
     ++attempts;
     timer_id = 0;
     shutdown = shutdown_state_t::none;
-    last_instantiation = clock_t::local_time();
+    last_instantiation = clock_t::now();
     if (max_attempts && attempts >= max_attempts) {
         active = false;
     }
@@ -73,8 +73,9 @@ spawn_demand_t child_info_t::next_spawn(bool abnormal_shutdown) noexcept {
         }
     }
 
-    auto now = clock_t::local_time();
-    auto after = now - last_instantiation;
+    auto elapsed = clock_t::now() - last_instantiation;
+    auto elapsed_us = std::chrono::duration_cast<std::chrono::microseconds>(elapsed).count();
+    pt::time_duration after = pt::microseconds(elapsed_us);
     if (after >= restart_period) {
         return demand::now{};
     }
-- 
2.43.0


From f4c0493c0263c8bfe87c60c018c1f5fe5bb5473b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:03:48 +0000
Subject: [PATCH 15/38] fix: a link response does not continue the
 initialization of an actor which shuts down

---
 src/rotor/plugin/link_client.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/rotor/plugin/link_client.cpp b/src/rotor/plugin/link_client.cpp
index aa30779..f7d77d2 100644
--- a/src/rotor/plugin/link_client.cpp
+++ b/src/rotor/plugin/link_client.cpp
@@ -83,7 +83,7 @@ void link_client_plugin_t::on_link_response(message::link_response_t &message) n
         } */
     } else {
         it->second.state = link_state_t::OPERATIONAL;
-        if (actor->access<to::init_request>()) {
+        if (actor->access<to::init_request>() && actor->access<to::state>() == state_t::INITIALIZING) {
             actor->init_continue();
         }
     }
-- 
2.43.0


From d7739bed3a760d29304c4f96bb1b55be3cd0fcc5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:03:48 +0000
Subject: [PATCH 16/38] fix: refuse clients, which wait for an operational
 server, when the server shuts down

---
 src/rotor/plugin/link_server.cpp | 12 +++++++++++-
 1 file changed, 11 insertions(+), 1 deletion(-)

diff --git a/src/rotor/plugin/link_server.cpp b/src/rotor/plugin/link_server.cpp
index c11b79b..546380a 100644
--- a/src/rotor/plugin/link_server.cpp
+++ b/src/rotor/plugin/link_server.cpp
@@ -121,7 +121,16 @@ void link_server_plugin_t::handle_start(message::start_trigger_t *trigger) noexc
 }
 
 void link_server_plugin_t::notify_shutdown() noexcept {
-    for (auto &[address, link_info] : linked_clients) {
+    for (auto it = linked_clients.begin(); it != linked_clients.end();) {
+        auto &[address, link_info] = *it;
+        if (link_info.state == link_state_t::PENDING) {
+            // the actor never becomes operational
+            auto &request = *link_info.request;
+            auto ec = make_error_code(error_code_t::actor_not_linkable);
+            actor->reply_with_error(request, make_error(ec, {}, &request));
+            it = linked_clients.erase(it);
+            continue;
+        }
         if (link_info.state == link_state_t::OPERATIONAL) {
             auto &self = actor->get_address();
             auto &timeout = actor->access<to::shutdown_timeout>();
@@ -129,5 +138,6 @@ void link_server_plugin_t::notify_shutdown() noexcept {
             link_info.state = link_state_t::UNLINKING;
             link_info.unlink_request = request_id;
         }
+        ++it;
     }
 }
-- 
2.43.0


From a98ed17e4a40604bdd71a0acab207985c0bb3ac0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:04:12 +0000
Subject: [PATCH 17/38] fix: a client, which has own clients, shuts down when
 it is asked to unlink from its server

---
 src/rotor/plugin/link_client.cpp | 17 ++++++++++++++++-
 1 file changed, 16 insertions(+), 1 deletion(-)

diff --git a/src/rotor/plugin/link_client.cpp b/src/rotor/plugin/link_client.cpp
index f7d77d2..625c643 100644
--- a/src/rotor/plugin/link_client.cpp
+++ b/src/rotor/plugin/link_client.cpp
@@ -95,6 +95,19 @@ void link_client_plugin_t::forget_link(message::unlink_request_t &message) noexc
     if (it == servers_map.end())
         return;
 
+    if (it->second.state == link_state_t::OPERATIONAL && actor->access<to::state>() < state_t::SHUTTING_DOWN &&
+        actor->access<to::link_server>()->has_clients()) {
+        it->second.state = link_state_t::UNLINKING;
+        if (!actor->access<to::on_unlink, const address_ptr_t &>(server_addr)) {
+            actor->reply_to(message, actor->get_address());
+            servers_map.erase(server_addr);
+            return;
+        }
+        // own clients go first, the request is answered during shutdown
+        auto ec = make_error_code(shutdown_code_t::unlink_requested);
+        actor->do_shutdown(make_error(ec));
+    }
+
     unlink_queue.emplace_back(&message);
     try_forget_links(true);
 }
@@ -108,12 +121,14 @@ void link_client_plugin_t::try_forget_links(bool attempt_shutdown) noexcept {
             auto &server_addr = message.payload.request_payload.server_addr;
             auto server_it = servers_map.find(server_addr);
             if (server_it != servers_map.end()) {
+                bool asked = server_it->second.state == link_state_t::UNLINKING;
                 actor->reply_to(message, actor->get_address());
                 servers_map.erase(server_it);
-                auto result = actor->access<to::on_unlink, const address_ptr_t &>(server_addr);
+                auto result = asked || actor->access<to::on_unlink, const address_ptr_t &>(server_addr);
                 shutdown_needed |= result;
             }
         }
+        unlink_queue.clear();
         if (attempt_shutdown && shutdown_needed) {
             if (actor->access<to::state>() == rotor::state_t::SHUTTING_DOWN) {
                 actor->shutdown_continue();
-- 
2.43.0


From fbfbc919e164d5178b4685215120562b47d3aab7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:04:23 +0000
Subject: [PATCH 18/38] fix: link timeouts and late unlink responses leave no
 links behind and break no assertions

---
 src/rotor/plugin/link_client.cpp |  9 +++++++--
 src/rotor/plugin/link_server.cpp | 20 ++++++++++----------
 src/rotor/supervisor.cpp         |  7 ++++---
 3 files changed, 21 insertions(+), 15 deletions(-)

diff --git a/src/rotor/plugin/link_client.cpp b/src/rotor/plugin/link_client.cpp
index 625c643..85e8a26 100644
--- a/src/rotor/plugin/link_client.cpp
+++ b/src/rotor/plugin/link_client.cpp
@@ -60,10 +60,15 @@ void link_client_plugin_t::on_link_response(message::link_response_t &message) n
     auto &address = message.payload.req->address;
     auto &ec = message.payload.ee;
     auto it = servers_map.find(address);
-    assert(it != servers_map.end());
+    if (it == servers_map.end()) // timeout, which comes after the links have been dropped by shutdown
+        return;
 
     auto callback = it->second.callback;
     if (ec) {
+        if (ec->root()->ec == error_code_t::request_timeout) {
+            // the server has accepted the link or is going to
+            actor->send<payload::unlink_notify_t>(address, actor->get_address());
+        }
         servers_map.erase(it);
     }
 
@@ -92,7 +97,7 @@ void link_client_plugin_t::on_link_response(message::link_response_t &message) n
 void link_client_plugin_t::forget_link(message::unlink_request_t &message) noexcept {
     auto &server_addr = message.payload.request_payload.server_addr;
     auto it = servers_map.find(server_addr);
-    if (it == servers_map.end())
+    if (it == servers_map.end() || it->second.state == link_state_t::LINKING)
         return;
 
     if (it->second.state == link_state_t::OPERATIONAL && actor->access<to::state>() < state_t::SHUTTING_DOWN &&
diff --git a/src/rotor/plugin/link_server.cpp b/src/rotor/plugin/link_server.cpp
index 546380a..bc5c174 100644
--- a/src/rotor/plugin/link_server.cpp
+++ b/src/rotor/plugin/link_server.cpp
@@ -16,9 +16,13 @@ struct state {};
 struct shutdown_request {};
 struct shutdown_timeout {};
 struct link_server {};
+struct discard_request {};
 } // namespace to
 } // namespace
 
+template <> auto supervisor_t::access<to::discard_request, request_id_t>(request_id_t request_id) noexcept {
+    return discard_request(request_id);
+}
 template <> auto &actor_base_t::access<to::state>() noexcept { return state; }
 template <> auto &actor_base_t::access<to::shutdown_request>() noexcept { return shutdown_request; }
 template <> auto &actor_base_t::access<to::shutdown_timeout>() noexcept { return shutdown_timeout; }
@@ -72,7 +76,7 @@ void link_server_plugin_t::on_unlink_notify(message::unlink_notify_t &message) n
 
     auto &unlink_request = it->second.unlink_request;
     if (unlink_request) {
-        actor->get_supervisor().cancel_timer(*unlink_request);
+        actor->get_supervisor().access<to::discard_request>(*unlink_request);
     }
     linked_clients.erase(it);
 
@@ -82,6 +86,11 @@ void link_server_plugin_t::on_unlink_notify(message::unlink_notify_t &message) n
 }
 
 void link_server_plugin_t::on_unlink_response(message::unlink_response_t &message) noexcept {
+    // the client might have notified about unlinking already
+    auto it = linked_clients.find(message.payload.req->address);
+    if (it == linked_clients.end())
+        return;
+
     auto &ec = message.payload.ee;
     auto &shutdown_request = actor->access<to::shutdown_request>();
     if (ec && shutdown_request) {
@@ -89,15 +98,6 @@ void link_server_plugin_t::on_unlink_response(message::unlink_response_t &messag
         return;
     }
 
-    auto &client = message.payload.res.client_addr;
-    auto it = linked_clients.find(client);
-
-    // no idea, how to trigger/cause the race
-    assert(it != linked_clients.end());
-    /*
-    if (it == linked_clients.end())
-        return;
-    */
     linked_clients.erase(it);
 
     auto &state = actor->access<to::state>();
diff --git a/src/rotor/supervisor.cpp b/src/rotor/supervisor.cpp
index f7c08ac..b028608 100644
--- a/src/rotor/supervisor.cpp
+++ b/src/rotor/supervisor.cpp
@@ -138,9 +138,10 @@ void supervisor_t::on_request_trigger(request_id_t timer_id, bool cancelled) noe
 }
 
 void supervisor_t::discard_request(request_id_t request_id) noexcept {
-    assert(request_map.find(request_id) != request_map.end());
-    cancel_timer(request_id);
-    request_map.erase(request_id);
+    if (request_map.find(request_id) != request_map.end()) { // otherwise it has been timed out
+        cancel_timer(request_id);
+        request_map.erase(request_id);
+    }
 }
 
 void supervisor_t::shutdown_finish() noexcept {
-- 
2.43.0


From 5a70fcd21086cb862bb8edbe39d62c887acc6519 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:05:57 +0000
Subject: [PATCH 19/38] fix: refusing waiting clients does not suspend the
 shutdown of a server, which is a client itself

---
 src/rotor/plugin/link_client.cpp | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/src/rotor/plugin/link_client.cpp b/src/rotor/plugin/link_client.cpp
index 85e8a26..1a139cf 100644
--- a/src/rotor/plugin/link_client.cpp
+++ b/src/rotor/plugin/link_client.cpp
@@ -166,9 +166,10 @@ bool link_client_plugin_t::handle_shutdown(message::shutdown_request_t *req) noe
     if (servers_map.empty())
         return plugin_base_t::handle_shutdown(req);
 
+    auto link_server = actor->access<to::link_server>();
+    link_server->notify_shutdown();
     try_forget_links(false);
 
-    auto link_server = actor->access<to::link_server>();
     if (!link_server->has_clients()) {
         auto &source_addr = actor->get_address();
         for (auto it = servers_map.begin(); it != servers_map.end();) {
@@ -179,8 +180,6 @@ bool link_client_plugin_t::handle_shutdown(message::shutdown_request_t *req) noe
             }
             it = servers_map.erase(it);
         }
-    } else {
-        link_server->notify_shutdown();
     }
 
     if (servers_map.empty()) {
-- 
2.43.0


From bd4efb04c3de33f10a398f59633be19e1cc45fce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:26:31 +0000
Subject: [PATCH 20/38] fix: registrations in flight are withdrawn on shutdown
 or timeout, late responses break no assertions

---
 src/rotor/plugin/registry.cpp | 12 +++++++++++-
 1 file changed, 11 insertions(+), 1 deletion(-)

diff --git a/src/rotor/plugin/registry.cpp b/src/rotor/plugin/registry.cpp
index d373412..efcaa81 100644
--- a/src/rotor/plugin/registry.cpp
+++ b/src/rotor/plugin/registry.cpp
@@ -84,8 +84,15 @@ void registry_plugin_t::on_registration(message::registration_response_t &messag
     auto &service = message.payload.req->payload.request_payload.service_name;
     auto &ee = message.payload.ee;
     auto it = register_map.find(service);
-    assert(it != register_map.end());
+    if (it == register_map.end()) // withdrawn by shutdown
+        return;
+
     if (ee) {
+        if (ee->root()->ec == error_code_t::request_timeout) {
+            // the request might reach the registry later
+            auto &registry_addr = actor->get_supervisor().get_registry_address();
+            actor->send<payload::deregistration_notify_t>(registry_addr, it->second.address);
+        }
         register_map.erase(it);
     } else {
         it->second.state = state_t::OPERATIONAL;
@@ -158,6 +165,9 @@ bool registry_plugin_t::handle_shutdown(message::shutdown_request_t *req) noexce
             if (it.second.state == state_t::OPERATIONAL) {
                 actor->send<payload::deregistration_service_t>(registry_addr, it.first);
                 it.second.state = state_t::UNREGISTERING;
+            } else if (plugin_state & LINKED) {
+                // the request is on its way, the name is ours only if it succeeds
+                actor->send<payload::deregistration_notify_t>(registry_addr, it.second.address);
             }
         }
         register_map.clear();
-- 
2.43.0


From d2b7ba44a805b3dabf47d1ec8499cdeda75b57c0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:26:31 +0000
Subject: [PATCH 21/38] fix: an actor, which failed to register or to discover
 a service, does not finish its initialization

---
 src/rotor/plugin/registry.cpp | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/rotor/plugin/registry.cpp b/src/rotor/plugin/registry.cpp
index efcaa81..db77123 100644
--- a/src/rotor/plugin/registry.cpp
+++ b/src/rotor/plugin/registry.cpp
@@ -113,10 +113,14 @@ void registry_plugin_t::on_future(message::discovery_future_t &message) noexcept
 
 void registry_plugin_t::continue_init(const error_code_t &possible_ec, const extended_error_ptr_t &root_ec) noexcept {
     auto &init_request = actor->access<to::init_request>();
-    assert(init_request);
+    // the failure has been already reported or the actor is going to shutdown
+    if (!init_request || actor->access<to::state>() != rotor::state_t::INITIALIZING)
+        return;
+
     if (root_ec) {
         auto reason = make_error(possible_ec, root_ec, init_request);
         actor->reply_with_error(*init_request, reason);
+        init_request.reset();
     } else {
         actor->init_continue();
     }
-- 
2.43.0


From 33e35bc96d58ecea6fe9bbac8c483ec228b3bdab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:26:31 +0000
Subject: [PATCH 22/38] fix: discoveries under several names complete,
 cancelled discoveries do not suspend shutdown

---
 include/rotor/plugin/registry.h |   5 +-
 src/rotor/plugin/registry.cpp   | 110 +++++++++++++++-----------------
 2 files changed, 55 insertions(+), 60 deletions(-)

diff --git a/include/rotor/plugin/registry.h b/include/rotor/plugin/registry.h
index 87a9e02..1e94677 100644
--- a/include/rotor/plugin/registry.h
+++ b/include/rotor/plugin/registry.h
@@ -71,8 +71,7 @@ struct ROTOR_API registry_plugin_t : public plugin_base_t {
 
         void do_discover() noexcept;
         void on_discovery(address_ptr_t *service_addr, const extended_error_ptr_t &ec) noexcept;
-        bool do_cancel() noexcept;
-        void post_discovery(const extended_error_ptr_t &ec) noexcept;
+        void do_cancel() noexcept;
 
         // allow implicit copy-assignment operator
         registry_plugin_t *plugin;
@@ -156,6 +155,8 @@ struct ROTOR_API registry_plugin_t : public plugin_base_t {
 
     void link_registry() noexcept;
     void on_link(const extended_error_ptr_t &ec) noexcept;
+    void on_service_link(const address_ptr_t &address, const extended_error_ptr_t &ec) noexcept;
+    void post_discovery(const extended_error_ptr_t &ec) noexcept;
     bool has_registering() noexcept;
     virtual void continue_init(const error_code_t &possible_ec, const extended_error_ptr_t &root_ec) noexcept;
 };
diff --git a/src/rotor/plugin/registry.cpp b/src/rotor/plugin/registry.cpp
index db77123..b10179f 100644
--- a/src/rotor/plugin/registry.cpp
+++ b/src/rotor/plugin/registry.cpp
@@ -177,19 +177,10 @@ bool registry_plugin_t::handle_shutdown(message::shutdown_request_t *req) noexce
         register_map.clear();
     }
 
-    if (!discovery_map.empty()) {
-        for (auto it = discovery_map.begin(); it != discovery_map.end();) {
-            if (it->second.do_cancel()) {
-                it = discovery_map.erase(it);
-            } else {
-                ++it;
-            }
-        }
-        if (!discovery_map.empty())
-            return false;
-        // discovery_map.clear();
+    for (auto &it : discovery_map) {
+        it.second.do_cancel();
     }
-
+    discovery_map.clear();
     aliases_map.clear();
     return plugin_base_t::handle_shutdown(req);
 }
@@ -203,7 +194,9 @@ template <typename Message> void process_discovery(registry_plugin_t::discovery_
     auto &service = message.payload.req->payload.request_payload.service_name;
     auto &ee = message.payload.ee;
     auto it = dm.find(service);
-    assert(it != dm.end());
+    if (it == dm.end()) // cancelled by shutdown
+        return;
+
     address_ptr_t *address_value = ee ? nullptr : &message.payload.res.service_addr;
     it->second.template access<to::on_discovery, address_ptr_t *, const extended_error_ptr_t &>(address_value, ee);
 }
@@ -218,56 +211,59 @@ void registry_plugin_t::discovery_task_t::on_discovery(address_ptr_t *service_ad
     }
 
     auto actor_state = plugin->actor->access<to::state>();
-    if (actor_state == rotor::state_t::INITIALIZING) {
-        if (!ec) {
-            auto &aliases = plugin->access<to::aliases_map>();
-            if (!aliases.count(*address)) {
-                auto p = plugin->actor->access<to::get_plugin>(&link_client_plugin_t::class_identity);
-                auto &link_plugin = *static_cast<link_client_plugin_t *>(p);
-                link_plugin.link(*address, operational_only, [this](auto &ec) {
-                    auto &am = plugin->access<to::aliases_map>();
-                    auto &dm = plugin->access<to::discovery_map>();
-                    for (auto &alias : am.at(*address)) {
-                        auto &callback = dm.at(alias).task_callback;
-                        if (callback) {
-                            callback(phase_t::linking, ec);
-                        }
-                    }
-                    post_discovery(ec);
-                });
-                aliases.emplace(*address, names_t{service_name});
-            } else {
-                aliases.at(*address).emplace_back(service_name);
-            }
+    if (!ec && actor_state == rotor::state_t::INITIALIZING) {
+        state = state_t::LINKING;
+        auto &aliases = plugin->access<to::aliases_map>();
+        auto it = aliases.find(*address);
+        if (it == aliases.end()) {
+            auto p = plugin->actor->access<to::get_plugin>(&link_client_plugin_t::class_identity);
+            auto &link_plugin = *static_cast<link_client_plugin_t *>(p);
+            aliases.emplace(*address, names_t{service_name});
+            link_plugin.link(*address, operational_only, [plugin = plugin, address = *address](auto &ec) {
+                plugin->on_service_link(address, ec);
+            });
+            return;
+        } else if (!it->second.empty()) {
+            it->second.emplace_back(service_name);
             return;
         }
+        // already linked under other name
+        if (task_callback) {
+            task_callback(phase_t::linking, ec);
+        }
     }
-    post_discovery(ec);
+    auto p = plugin;
+    p->discovery_map.erase(p->discovery_map.find(service_name));
+    p->post_discovery(ec);
 }
 
-void registry_plugin_t::discovery_task_t::post_discovery(const extended_error_ptr_t &ec) noexcept {
-    auto p = plugin;
-    auto &dm = p->discovery_map;
-    auto it = dm.find(service_name);
-    assert(it != dm.end());
-
-    auto &am = p->aliases_map;
-    auto ait = am.find(*it->second.address);
-    if (ait != am.end()) {
-        for (auto &alias : ait->second) {
-            dm.erase(alias);
+void registry_plugin_t::on_service_link(const address_ptr_t &address, const extended_error_ptr_t &ec) noexcept {
+    auto it = aliases_map.find(address);
+    if (it == aliases_map.end()) // is going to shutdown
+        return;
+
+    // no names left means, that the address is linked
+    auto names = names_t();
+    names.swap(it->second);
+    if (ec) {
+        aliases_map.erase(it);
+    }
+    for (auto &name : names) {
+        auto task_it = discovery_map.find(name);
+        if (task_it != discovery_map.end()) {
+            auto callback = std::move(task_it->second.task_callback);
+            discovery_map.erase(task_it);
+            if (callback) {
+                callback(phase_t::linking, ec);
+            }
         }
-    } else {
-        dm.erase(it);
     }
+    post_discovery(ec);
+}
 
-    if (dm.empty() || ec) {
-        auto actor_state = p->actor->access<to::state>();
-        if (actor_state == rotor::state_t::INITIALIZING) {
-            p->continue_init(error_code_t::discovery_failed, ec);
-        } else {
-            p->actor->shutdown_continue();
-        }
+void registry_plugin_t::post_discovery(const extended_error_ptr_t &ec) noexcept {
+    if (discovery_map.empty() || ec) {
+        continue_init(error_code_t::discovery_failed, ec);
     }
 }
 
@@ -283,14 +279,12 @@ void registry_plugin_t::discovery_task_t::do_discover() noexcept {
     }
 }
 
-bool registry_plugin_t::discovery_task_t::do_cancel() noexcept {
+void registry_plugin_t::discovery_task_t::do_cancel() noexcept {
     if (delayed && state == state_t::DISCOVERING) {
         using payload_t = rotor::message::discovery_cancel_t::payload_t;
         auto &actor_ = plugin->actor;
         auto &registry_addr = actor_->get_supervisor().get_registry_address();
         actor_->send<payload_t>(registry_addr, request_id, actor_->get_address());
         state = state_t::CANCELLING;
-        return false;
     }
-    return true;
 }
-- 
2.43.0


From 587b7c5a156188cea688e562235cba2187d6e5a5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:37:59 +0000
Subject: [PATCH 23/38] fix: a link callback, which releases resources, does
 not complete the failed initialization

---
 src/rotor/plugin/link_client.cpp | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/src/rotor/plugin/link_client.cpp b/src/rotor/plugin/link_client.cpp
index 1a139cf..1ef0d45 100644
--- a/src/rotor/plugin/link_client.cpp
+++ b/src/rotor/plugin/link_client.cpp
@@ -19,6 +19,7 @@ struct init_timeout {};
 struct state {};
 struct shutdown_request {};
 struct link_server {};
+struct continuation_mask {};
 } // namespace to
 } // namespace
 
@@ -33,6 +34,7 @@ template <> auto &actor_base_t::access<to::init_request>() noexcept { return ini
 template <> auto &actor_base_t::access<to::init_timeout>() noexcept { return init_timeout; }
 template <> auto &actor_base_t::access<to::state>() noexcept { return state; }
 template <> auto &actor_base_t::access<to::link_server>() noexcept { return link_server; }
+template <> auto &actor_base_t::access<to::continuation_mask>() noexcept { return continuation_mask; }
 
 const std::type_index link_client_plugin_t::class_identity = typeid(link_client_plugin_t);
 
@@ -72,9 +74,15 @@ void link_client_plugin_t::on_link_response(message::link_response_t &message) n
         servers_map.erase(it);
     }
 
+    // the callback might release resources, that should not complete the failed initialization
+    auto &continuation_mask = actor->access<to::continuation_mask>();
+    if (ec) {
+        continuation_mask = continuation_mask | actor_base_t::PROGRESS_INIT;
+    }
     if (callback) {
         callback(ec);
     }
+    continuation_mask = continuation_mask & ~actor_base_t::PROGRESS_INIT;
 
     if (ec) {
         auto &init_request = actor->access<to::init_request>();
-- 
2.43.0


From 2acd307a8d5ace0215999ee7546b366294118020 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:37:59 +0000
Subject: [PATCH 24/38] fix: resources acquired by the latter plugins or
 released without init request do not break initialization

---
 src/rotor/actor_base.cpp | 24 +++++++++++-------------
 1 file changed, 11 insertions(+), 13 deletions(-)

diff --git a/src/rotor/actor_base.cpp b/src/rotor/actor_base.cpp
index 415398a..5a7b0b8 100644
--- a/src/rotor/actor_base.cpp
+++ b/src/rotor/actor_base.cpp
@@ -149,23 +149,21 @@ void actor_base_t::shutdown_finish() noexcept {
 
 void actor_base_t::init_continue() noexcept {
     assert(state == state_t::INITIALIZING);
-    assert(init_request);
+    if (!init_request) {
+        // it has not arrived yet, or the failure has been already reported
+        return;
+    }
 
     continuation_mask = continuation_mask | PROGRESS_INIT;
-    std::size_t in_progress = plugins.size();
-    for (auto &plugin : plugins) {
-        if (plugin->get_reaction() & plugin_base_t::INIT) {
-            if (plugin->handle_init(init_request.get())) {
-                plugin->reaction_off(plugin_base_t::INIT);
-                --in_progress;
-                continue;
-            }
-            break;
-        }
-        --in_progress;
+    // a plugin might be reactivated by the others, e.g. when a resource is acquired
+    auto in_progress = [](auto &plugin) { return plugin->get_reaction() & plugin_base_t::INIT; };
+    auto it = std::find_if(plugins.begin(), plugins.end(), in_progress);
+    while (it != plugins.end() && (*it)->handle_init(init_request.get())) {
+        (*it)->reaction_off(plugin_base_t::INIT);
+        it = std::find_if(plugins.begin(), plugins.end(), in_progress);
     }
     continuation_mask = continuation_mask & ~PROGRESS_INIT;
-    if (in_progress == 0) {
+    if (it == plugins.end()) {
         init_finish();
     }
 }
-- 
2.43.0


From d06a94e311918f30f1c8a839cd19cda1b3edee3f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:37:59 +0000
Subject: [PATCH 25/38] fix: a resource released in shutdown_start does not run
 the shutdown ahead

---
 src/rotor/actor_base.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/rotor/actor_base.cpp b/src/rotor/actor_base.cpp
index 5a7b0b8..5e75b97 100644
--- a/src/rotor/actor_base.cpp
+++ b/src/rotor/actor_base.cpp
@@ -104,6 +104,8 @@ void actor_base_t::on_start() noexcept { state = state_t::OPERATIONAL; }
 
 void actor_base_t::shutdown_start() noexcept {
     state = state_t::SHUTTING_DOWN;
+    // resources released right now do not continue the shutdown, as it is just going to be continued
+    continuation_mask = continuation_mask | PROGRESS_SHUTDOWN;
     // a nested supervisor is supervised by its parent (and nobody supervises the root one)
     auto self_supervised = static_cast<actor_base_t *>(supervisor) == this;
     auto upstream = self_supervised ? supervisor->parent : supervisor;
-- 
2.43.0


From c5052f941e053c9ff00fcf5393470ccc7e6e5399 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:03:09 +0000
Subject: [PATCH 26/38] fix: wx: a message in flight is owned by the inbound
 queue only, so it can be routed further

---
 src/rotor/wx/supervisor_wx.cpp | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/src/rotor/wx/supervisor_wx.cpp b/src/rotor/wx/supervisor_wx.cpp
index 31d466a..c05eb82 100644
--- a/src/rotor/wx/supervisor_wx.cpp
+++ b/src/rotor/wx/supervisor_wx.cpp
@@ -66,10 +66,17 @@ void supervisor_wx_t::shutdown() noexcept {
 }
 
 void supervisor_wx_t::enqueue(message_ptr_t message) noexcept {
+    auto leader = static_cast<supervisor_wx_t *>(locality_leader);
+    leader->inbound_queue.push(message.detach());
+
     supervisor_ptr_t self{this};
-    handler->CallAfter([self = std::move(self), message = std::move(message)]() {
+    handler->CallAfter([self = std::move(self)]() {
         auto &sup = *self;
-        sup.put(message);
+        auto leader = static_cast<supervisor_wx_t *>(sup.locality_leader);
+        message_base_t *ptr;
+        while (leader->inbound_queue.pop(ptr)) {
+            leader->queue.emplace_back(ptr, false);
+        }
         sup.do_process();
     });
 }
-- 
2.43.0


From 249a2f04859a35000a1abe62557ba4cb4f444328 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:04:04 +0000
Subject: [PATCH 27/38] fix: messages with next route are routed once after all
 recipients in different threads handled them

---
 include/rotor/messages.hpp              | 28 +++++++++++++++++++++++--
 include/rotor/supervisor.h              |  4 ++--
 src/rotor/messages.cpp                  | 12 ++++-------
 src/rotor/plugin/delivery.cpp           | 16 +++++++++++---
 src/rotor/plugin/foreigners_support.cpp | 12 +++++++++++
 5 files changed, 57 insertions(+), 15 deletions(-)

diff --git a/include/rotor/messages.hpp b/include/rotor/messages.hpp
index 93f16d0..2da987b 100644
--- a/include/rotor/messages.hpp
+++ b/include/rotor/messages.hpp
@@ -13,6 +13,7 @@
 #include "subscription_point.h"
 #include "forward.hpp"
 #include "extended_error.h"
+#include <atomic>
 
 #if defined(_MSC_VER)
 #pragma warning(push)
@@ -118,6 +119,28 @@ struct shutdown_request_t {
     extended_error_ptr_t reason;
 };
 
+/** \struct routed_delivery_t
+ *  \brief Tracks the delivery of a message with the next route to the handlers, which
+ *  belong to different localities (i.e. are called in different threads).
+ *
+ *  Whoever completes the last delivery, routes the message further.
+ */
+struct ROTOR_API routed_delivery_t : public arc_base_t<routed_delivery_t> {
+    /** \brief constructs from the message and the amount of its deliveries */
+    routed_delivery_t(message_ptr_t message, size_t pending) noexcept;
+
+    /** \brief marks one delivery as completed, returns `true` if that was the last one */
+    bool complete() noexcept;
+
+    /** \brief the message with the next route */
+    message_ptr_t message;
+
+  private:
+    std::atomic_size_t pending;
+};
+/** \brief intrusive pointer for routed delivery */
+using routed_delivery_ptr_t = intrusive_ptr_t<routed_delivery_t>;
+
 /** \struct handler_call_t
  *  \brief Message with this payload is forwarded to the handler's supervisor for
  * the delivery of the original message.
@@ -131,14 +154,15 @@ struct shutdown_request_t {
  *
  */
 struct handler_call_t {
-    ~handler_call_t();
-
     /** \brief The original message (intrusive pointer) sent to an address */
     message_ptr_t orig_message;
 
     /** \brief The handler (intrusive pointer) on some external supervisor,
      * which can process the original message */
     handler_ptr_t handler;
+
+    /** \brief shared among all deliveries of the original message, if it has the next route */
+    routed_delivery_ptr_t routed_delivery;
 };
 
 /** \struct external_subscription_t
diff --git a/include/rotor/supervisor.h b/include/rotor/supervisor.h
index 55c095c..33c4a1c 100644
--- a/include/rotor/supervisor.h
+++ b/include/rotor/supervisor.h
@@ -455,7 +455,7 @@ template <> inline size_t delivery_plugin_t<plugin::local_delivery_t>::process()
             if (local_recipients) {
                 plugin::local_delivery_t::delivery(message, *local_recipients);
             }
-            if (message->next_route && message->use_count() == 1) {
+            if (message && message->next_route && message->use_count() == 1) {
                 auto sup = static_cast<supervisor_t *>(actor);
                 message->address = std::move(message->next_route);
                 sup->put(std::move(message));
@@ -482,7 +482,7 @@ template <> inline size_t delivery_plugin_t<plugin::inspected_local_delivery_t>:
             if (local_recipients) {
                 plugin::inspected_local_delivery_t::delivery(message, *local_recipients, stringifier);
             }
-            if (ptr->next_route && ptr->use_count() == 1) {
+            if (message && message->next_route && message->use_count() == 1) {
                 auto sup = static_cast<supervisor_t *>(actor);
                 message->address = std::move(message->next_route);
                 sup->put(std::move(message));
diff --git a/src/rotor/messages.cpp b/src/rotor/messages.cpp
index 971e3ed..b089096 100644
--- a/src/rotor/messages.cpp
+++ b/src/rotor/messages.cpp
@@ -10,13 +10,9 @@
 
 namespace rotor::payload {
 
-handler_call_t::~handler_call_t() {
-    auto ptr = orig_message.get();
-    if (ptr && ptr->next_route && ptr->use_count() == 1) {
-        ptr->address = std::move(ptr->next_route);
-        auto &sup = handler->actor_ptr->get_supervisor();
-        sup.enqueue(std::move(orig_message));
-    }
-}
+routed_delivery_t::routed_delivery_t(message_ptr_t message_, size_t pending_) noexcept
+    : message{std::move(message_)}, pending{pending_} {}
+
+bool routed_delivery_t::complete() noexcept { return pending.fetch_sub(1) == 1; }
 
 } // namespace rotor::payload
diff --git a/src/rotor/plugin/delivery.cpp b/src/rotor/plugin/delivery.cpp
index ea8d6c7..2589b42 100644
--- a/src/rotor/plugin/delivery.cpp
+++ b/src/rotor/plugin/delivery.cpp
@@ -38,14 +38,24 @@ void delivery_plugin_base_t::activate(actor_base_t *actor_) noexcept {
 
 void local_delivery_t::delivery(message_ptr_t &message,
                                 const subscription_t::joint_handlers_t &local_recipients) noexcept {
-    for (auto &handler : local_recipients.external) {
+    auto &external = local_recipients.external;
+    auto routed_delivery = payload::routed_delivery_ptr_t{};
+    if (message->next_route && !external.empty()) {
+        /* all external deliveries + the internal one */
+        routed_delivery = new payload::routed_delivery_t(std::move(message), external.size() + 1);
+    }
+    auto &orig_message = routed_delivery ? routed_delivery->message : message;
+    for (auto &handler : external) {
         auto &sup = handler->actor_ptr->get_supervisor();
         auto &address = sup.get_address();
-        auto wrapped_message = make_message<payload::handler_call_t>(address, message, handler);
+        auto wrapped_message = make_message<payload::handler_call_t>(address, orig_message, handler, routed_delivery);
         sup.enqueue(std::move(wrapped_message));
     }
     for (auto &handler : local_recipients.internal) {
-        handler->call(message);
+        handler->call(orig_message);
+    }
+    if (routed_delivery && routed_delivery->complete()) {
+        message = std::move(routed_delivery->message);
     }
 }
 
diff --git a/src/rotor/plugin/foreigners_support.cpp b/src/rotor/plugin/foreigners_support.cpp
index b05a533..1824192 100644
--- a/src/rotor/plugin/foreigners_support.cpp
+++ b/src/rotor/plugin/foreigners_support.cpp
@@ -68,6 +68,18 @@ void foreigners_support_plugin_t::on_call(message::handler_call_t &message) noex
             }
         }
     }
+
+    auto &routed_delivery = message.payload.routed_delivery;
+    if (routed_delivery) {
+        message.payload.orig_message.reset();
+        if (routed_delivery->complete()) {
+            auto &routed_message = routed_delivery->message;
+            if (routed_message->next_route && routed_message->use_count() == 1) {
+                routed_message->address = std::move(routed_message->next_route);
+                sup.put(std::move(routed_message));
+            }
+        }
+    }
 }
 
 void foreigners_support_plugin_t::on_subscription_external(message::external_subscription_t &message) noexcept {
-- 
2.43.0


From f8f1e38e6c7d5a5f80ded39394c00990b92a5ea7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:12:24 +0000
Subject: [PATCH 28/38] fix: withdrawal of a run-time subscription to a foreign
 address is committed once to the supervisor of the address

---
 src/rotor/plugin/lifetime.cpp    | 4 ++++
 src/rotor/plugin/plugin_base.cpp | 7 ++++---
 2 files changed, 8 insertions(+), 3 deletions(-)

diff --git a/src/rotor/plugin/lifetime.cpp b/src/rotor/plugin/lifetime.cpp
index 6c8d829..9c453fb 100644
--- a/src/rotor/plugin/lifetime.cpp
+++ b/src/rotor/plugin/lifetime.cpp
@@ -118,6 +118,10 @@ bool lifetime_plugin_t::handle_unsubscription(const subscription_point_t &point,
         plugin_base_t::forget_subscription(*it);
         points.erase(it);
         result = true;
+        if (external) {
+            auto &sup_addr = static_cast<actor_base_t &>(point.address->supervisor).get_address();
+            actor->send<payload::commit_unsubscription_t>(sup_addr, point);
+        }
         if (points.empty()) {
             plugin_base_t::deactivate();
         }
diff --git a/src/rotor/plugin/plugin_base.cpp b/src/rotor/plugin/plugin_base.cpp
index 55b80ab..10c5d79 100644
--- a/src/rotor/plugin/plugin_base.cpp
+++ b/src/rotor/plugin/plugin_base.cpp
@@ -88,9 +88,10 @@ bool plugin_base_t::handle_unsubscription(const subscription_point_t &point, boo
     if (external) {
         auto act = actor; /* backup */
         auto ok = forget_subscription(point);
-        assert(ok && "unsubscription handled");
-        auto &sup_addr = static_cast<actor_base_t &>(point.address->supervisor).get_address();
-        act->send<payload::commit_unsubscription_t>(sup_addr, point);
+        if (ok) { // otherwise it belongs to other plugin
+            auto &sup_addr = static_cast<actor_base_t &>(point.address->supervisor).get_address();
+            act->send<payload::commit_unsubscription_t>(sup_addr, point);
+        }
         return ok;
     }
     return forget_subscription(point);
-- 
2.43.0


From 827b403d842590c4ab017e04032767a4f8bf9ecf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:12:24 +0000
Subject: [PATCH 29/38] fix: unsubscribe by pointer-to-member handler is usable
 by any actor, not only by supervisors

---
 include/rotor/supervisor.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/rotor/supervisor.h b/include/rotor/supervisor.h
index 33c4a1c..50e23ff 100644
--- a/include/rotor/supervisor.h
+++ b/include/rotor/supervisor.h
@@ -189,7 +189,7 @@ struct ROTOR_API supervisor_t : public actor_base_t {
     /** \brief convenient templated version of `unsubscribe_actor */
     template <typename Handler> inline void unsubscribe_actor(const address_ptr_t &addr, Handler &&handler) noexcept {
         handler_ptr_t wrapped_handler(std::forward<Handler>(handler));
-        lifetime->unsubscribe(wrapped_handler, addr);
+        wrapped_handler->actor_ptr->lifetime->unsubscribe(wrapped_handler, addr);
     }
 
     /** \brief creates child-actor builder */
-- 
2.43.0


From add282cf7858127d98d7686aea780c389092efa4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:13:27 +0000
Subject: [PATCH 30/38] fix: different member functions with the same signature
 are different handlers

---
 include/rotor/handler.h | 20 +++++++++++++++++++-
 src/rotor/handler.cpp   |  2 ++
 2 files changed, 21 insertions(+), 1 deletion(-)

diff --git a/include/rotor/handler.h b/include/rotor/handler.h
index 2fe3ba3..bbd9a92 100644
--- a/include/rotor/handler.h
+++ b/include/rotor/handler.h
@@ -135,7 +135,7 @@ struct ROTOR_API handler_base_t : public arc_base_t<handler_base_t> {
 
     /** \brief compare two handler for equality */
     inline bool operator==(const handler_base_t &rhs) const noexcept {
-        return handler_type == rhs.handler_type && actor_ptr == rhs.actor_ptr;
+        return handler_type == rhs.handler_type && actor_ptr == rhs.actor_ptr && origin().same_function(rhs.origin());
     }
 
     /** \brief attempt to delivery message to the handler
@@ -167,6 +167,13 @@ struct ROTOR_API handler_base_t : public arc_base_t<handler_base_t> {
 
     /** \brief unique per-message-type pointer used for routing */
     virtual const void *message_type() const noexcept = 0;
+
+    /** \brief the handler itself or, if it has been "upgraded", the original one */
+    virtual const handler_base_t &origin() const noexcept { return *this; }
+
+  protected:
+    /** \brief compares functions of (original) handlers with the same `handler_type` and the same actor */
+    virtual bool same_function(const handler_base_t &) const noexcept { return true; }
 };
 
 /** \struct continuation_t
@@ -191,6 +198,7 @@ struct handler_intercepted_t : public handler_base_t {
     bool select(message_ptr_t &message) noexcept override;
     void call_no_check(message_ptr_t &message) noexcept override;
     const void *message_type() const noexcept override;
+    const handler_base_t &origin() const noexcept override;
 
   private:
     handler_ptr_t backend;
@@ -260,6 +268,11 @@ struct handler_t<Handler, std::enable_if_t<details::is_actor_handler_v<Handler>>
 
     const void *message_type() const noexcept override { return final_message_t::message_type; }
 
+  protected:
+    bool same_function(const handler_base_t &other) const noexcept override {
+        return handler == static_cast<const handler_t &>(other).handler;
+    }
+
   private:
     using traits = handler_traits<Handler>;
     using backend_t = typename traits::backend_t;
@@ -308,6 +321,11 @@ struct handler_t<Handler, std::enable_if_t<details::is_plugin_handler_v<Handler>
 
     const void *message_type() const noexcept override { return final_message_t::message_type; }
 
+  protected:
+    bool same_function(const handler_base_t &other) const noexcept override {
+        return handler == static_cast<const handler_t &>(other).handler;
+    }
+
   private:
     using traits = handler_traits<Handler>;
     using backend_t = typename traits::backend_t;
diff --git a/src/rotor/handler.cpp b/src/rotor/handler.cpp
index 88e57fa..51d727d 100644
--- a/src/rotor/handler.cpp
+++ b/src/rotor/handler.cpp
@@ -68,4 +68,6 @@ handler_ptr_t handler_intercepted_t::upgrade(const void *tag_) noexcept {
     return handler_base_t::upgrade(tag_);
 }
 
+const handler_base_t &handler_intercepted_t::origin() const noexcept { return backend->origin(); }
+
 const void *handler_intercepted_t::message_type() const noexcept { return backend->message_type(); }
-- 
2.43.0


From 24d1d0cde8df363a1175c5583ee0f6c48c108db1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:14:03 +0000
Subject: [PATCH 31/38] fix: a handler might be subscribed again before its
 withdrawal is confirmed

---
 include/rotor/subscription_point.h |  3 +++
 src/rotor/plugin/lifetime.cpp      | 12 ++++++++++++
 src/rotor/subscription_point.cpp   | 12 ++++++++++++
 3 files changed, 27 insertions(+)

diff --git a/include/rotor/subscription_point.h b/include/rotor/subscription_point.h
index 9dda0f4..739463b 100644
--- a/include/rotor/subscription_point.h
+++ b/include/rotor/subscription_point.h
@@ -126,6 +126,9 @@ using subscription_info_ptr_t = intrusive_ptr_t<subscription_info_t>;
 struct ROTOR_API subscription_container_t : public std::list<subscription_info_ptr_t> {
     /** \brief looks up for the subscription info pointer (returned as iterator) via the subscription point */
     iterator find(const subscription_point_t &point) noexcept;
+
+    /** \brief looks up for the subscription info of exactly that handler instance (not just of the equal one) */
+    iterator find_exact(const subscription_point_t &point) noexcept;
 };
 
 } // namespace rotor
diff --git a/src/rotor/plugin/lifetime.cpp b/src/rotor/plugin/lifetime.cpp
index 9c453fb..836cf1f 100644
--- a/src/rotor/plugin/lifetime.cpp
+++ b/src/rotor/plugin/lifetime.cpp
@@ -73,8 +73,20 @@ void lifetime_plugin_t::unsubscribe(const subscription_info_ptr_t &info_ptr) noe
 }
 
 void lifetime_plugin_t::unsubscribe(const handler_ptr_t &h, const address_ptr_t &addr) noexcept {
+    using state_t = subscription_info_t::state_t;
     auto it = points.find(subscription_point_t{h, addr});
     assert(it != points.end());
+    if ((*it)->access<to::state>() == state_t::UNSUBSCRIBING) {
+        // that one is already going to be unsubscribed, there might be another one
+        auto predicate = [&](const subscription_info_ptr_t &info) {
+            return info->access<to::state>() != state_t::UNSUBSCRIBING && *info->handler == *h && info->address == addr;
+        };
+        auto rit = std::find_if(points.rbegin(), points.rend(), predicate);
+        if (rit == points.rend()) {
+            return;
+        }
+        it = --rit.base();
+    }
     unsubscribe(*it);
 }
 
diff --git a/src/rotor/subscription_point.cpp b/src/rotor/subscription_point.cpp
index d9e5532..34ff0eb 100644
--- a/src/rotor/subscription_point.cpp
+++ b/src/rotor/subscription_point.cpp
@@ -27,7 +27,19 @@ bool subscription_point_t::operator==(const subscription_point_t &other) const {
     return address == other.address && (*handler == *other.handler);
 }
 
+subscription_container_t::iterator subscription_container_t::find_exact(const subscription_point_t &point) noexcept {
+    auto predicate = [&point](auto &info) {
+        return &info->handler->origin() == &point.handler->origin() && info->address == point.address;
+    };
+    return std::find_if(begin(), end(), predicate);
+}
+
 subscription_container_t::iterator subscription_container_t::find(const subscription_point_t &point) noexcept {
+    // the same handler might be subscribed, unsubscribed and subscribed again
+    auto it = find_exact(point);
+    if (it != end()) {
+        return it;
+    }
     auto predicate = [&point](auto &info) {
         return *info->handler == *point.handler && info->address == point.address;
     };
-- 
2.43.0


From 4ed0fd88c0e599e074c8da27e0cac117239fc1a2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:14:42 +0000
Subject: [PATCH 32/38] fix: a foreign message is handled by exactly the
 (tagged) handler which is still subscribed

---
 src/rotor/plugin/foreigners_support.cpp | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/rotor/plugin/foreigners_support.cpp b/src/rotor/plugin/foreigners_support.cpp
index 1824192..778c18f 100644
--- a/src/rotor/plugin/foreigners_support.cpp
+++ b/src/rotor/plugin/foreigners_support.cpp
@@ -62,8 +62,10 @@ void foreigners_support_plugin_t::on_call(message::handler_call_t &message) noex
             auto lifetime = child_actor->access<to::lifetime>();
             if (lifetime) {
                 auto &points = lifetime->access<to::points>();
-                if (points.find(point) != points.end()) {
-                    handler->call(orig_message);
+                auto it = points.find_exact(point);
+                if (it != points.end()) {
+                    auto actual_handler = (*it)->handler; // might be tagged
+                    actual_handler->call(orig_message);
                 }
             }
         }
-- 
2.43.0


From 893d312fff6dce44be12af3971e54992740422a1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:15:42 +0000
Subject: [PATCH 33/38] fix: a withdrawn plugin's subscription does not pass
 messages in flight

---
 src/rotor/plugin/plugin_base.cpp | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/src/rotor/plugin/plugin_base.cpp b/src/rotor/plugin/plugin_base.cpp
index 10c5d79..771eab5 100644
--- a/src/rotor/plugin/plugin_base.cpp
+++ b/src/rotor/plugin/plugin_base.cpp
@@ -14,11 +14,13 @@ namespace {
 namespace to {
 struct lifetime {};
 struct state {};
+struct points {};
 struct make_error_code {};
 } // namespace to
 } // namespace
 
 template <> auto &actor_base_t::access<to::lifetime>() noexcept { return lifetime; }
+template <> auto &lifetime_plugin_t::access<to::points>() noexcept { return points; }
 template <> auto &actor_base_t::access<to::state>() noexcept { return state; }
 template <>
 auto actor_base_t::access<to::make_error_code, const std::error_code &, const extended_error_ptr_t &,
@@ -69,6 +71,13 @@ bool plugin_base_t::forget_subscription(const subscription_point_t &point) noexc
         auto &info = *it;
         assert(info->owner_tag == owner_tag_t::PLUGIN);
         forget_subscription(info);
+        if (auto lifetime = actor->access<to::lifetime>(); lifetime) {
+            auto &points = lifetime->access<to::points>();
+            auto point_it = points.find_exact(*info);
+            if (point_it != points.end()) {
+                points.erase(point_it);
+            }
+        }
         subs.erase(it);
         if (subs.empty()) {
             actor->commit_plugin_deactivation(*this);
-- 
2.43.0


From 004162390ebc36f48f845979c9dab9106dfc7fdd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:15:42 +0000
Subject: [PATCH 34/38] fix: subscribing to a message from within its handler
 does not disturb the delivery

---
 src/rotor/plugin/delivery.cpp | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/src/rotor/plugin/delivery.cpp b/src/rotor/plugin/delivery.cpp
index 2589b42..24048e7 100644
--- a/src/rotor/plugin/delivery.cpp
+++ b/src/rotor/plugin/delivery.cpp
@@ -51,8 +51,13 @@ void local_delivery_t::delivery(message_ptr_t &message,
         auto wrapped_message = make_message<payload::handler_call_t>(address, orig_message, handler, routed_delivery);
         sup.enqueue(std::move(wrapped_message));
     }
-    for (auto &handler : local_recipients.internal) {
-        handler->call(orig_message);
+    /* a handler might subscribe or unsubscribe (from) the very message */
+    auto &internal = local_recipients.internal;
+    for (size_t i = 0, count = internal.size(); i < count; ++i) {
+        internal[i]->call(orig_message);
+        if (i + 1 < count && internal.size() < count) {
+            count = internal.size();
+        }
     }
     if (routed_delivery && routed_delivery->complete()) {
         message = std::move(routed_delivery->message);
-- 
2.43.0


From b725798c7371c08a7ddc1100eb3a94ccc6a54de2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:35:46 +0000
Subject: [PATCH 35/38] fix: routed messages crash when the supervisor has just
 shut down

The delivery plugin took its supervisor to put a routed message into the queue,
but the handler of that very message, or of an earlier one of the same batch,
may have finished the shutdown of the supervisor and deactivated the plugin.
---
 include/rotor/supervisor.h | 6 ++----
 1 file changed, 2 insertions(+), 4 deletions(-)

diff --git a/include/rotor/supervisor.h b/include/rotor/supervisor.h
index 50e23ff..e7c7850 100644
--- a/include/rotor/supervisor.h
+++ b/include/rotor/supervisor.h
@@ -456,9 +456,8 @@ template <> inline size_t delivery_plugin_t<plugin::local_delivery_t>::process()
                 plugin::local_delivery_t::delivery(message, *local_recipients);
             }
             if (message && message->next_route && message->use_count() == 1) {
-                auto sup = static_cast<supervisor_t *>(actor);
                 message->address = std::move(message->next_route);
-                sup->put(std::move(message));
+                queue->emplace_back(std::move(message));
             }
         } else {
             dest->supervisor.enqueue(std::move(message));
@@ -483,9 +482,8 @@ template <> inline size_t delivery_plugin_t<plugin::inspected_local_delivery_t>:
                 plugin::inspected_local_delivery_t::delivery(message, *local_recipients, stringifier);
             }
             if (message && message->next_route && message->use_count() == 1) {
-                auto sup = static_cast<supervisor_t *>(actor);
                 message->address = std::move(message->next_route);
-                sup->put(std::move(message));
+                queue->emplace_back(std::move(message));
             } else if (!local_recipients) {
                 plugin::inspected_local_delivery_t::discard(message, stringifier);
             }
-- 
2.43.0


From ace5d4d540819ed8fb27f2eaa50e835b0ff6cfac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:47:12 +0000
Subject: [PATCH 36/38] fix: a supervisor does not read the init request of a
 child on another thread

To forget the outstanding initialization request of a child which is being shut
down, the supervisor looked into the child, which might be running in a different
execution context at that very moment (data race). The supervisor keeps the id of
the request it has made instead.
---
 include/rotor/detail/child_info.h    |  3 +++
 include/rotor/plugin/child_manager.h |  2 +-
 src/rotor/plugin/child_manager.cpp   | 40 ++++++++++++++++------------
 3 files changed, 27 insertions(+), 18 deletions(-)

diff --git a/include/rotor/detail/child_info.h b/include/rotor/detail/child_info.h
index 512cb02..4164776 100644
--- a/include/rotor/detail/child_info.h
+++ b/include/rotor/detail/child_info.h
@@ -106,6 +106,9 @@ struct ROTOR_API child_info_t : boost::intrusive_ref_counter<child_info_t, boost
     /** \brief the timer_id when actor should be spawned */
     request_id_t timer_id{0};
 
+    /** \brief id of the outstanding initialization request for the current actor instance (if any) */
+    request_id_t init_request_id{0};
+
     /** \brief when an actor was successfully spawned */
     clock_t::time_point last_instantiation;
 
diff --git a/include/rotor/plugin/child_manager.h b/include/rotor/plugin/child_manager.h
index b957096..f2f9e76 100644
--- a/include/rotor/plugin/child_manager.h
+++ b/include/rotor/plugin/child_manager.h
@@ -105,7 +105,7 @@ struct ROTOR_API child_manager_plugin_t : public plugin_base_t {
     bool has_initializing() const noexcept;
     void init_continue() noexcept;
     void request_shutdown(const extended_error_ptr_t &ec) noexcept;
-    void cancel_init(const actor_base_t *child) noexcept;
+    void cancel_init(detail::child_info_t &child_state) noexcept;
     void request_shutdown(detail::child_info_t &child_state, const extended_error_ptr_t &ec) noexcept;
     void on_spawn_timer(request_id_t timer_id, bool cancelled) noexcept;
 
diff --git a/src/rotor/plugin/child_manager.cpp b/src/rotor/plugin/child_manager.cpp
index 193fc88..e5008a0 100644
--- a/src/rotor/plugin/child_manager.cpp
+++ b/src/rotor/plugin/child_manager.cpp
@@ -125,7 +125,7 @@ void child_manager_plugin_t::remove_child(const actor_base_t &child) noexcept {
         actor->do_shutdown(supervisor_reason);
     }
 
-    cancel_init(&child);
+    cancel_init(info);
     auto child_reason = info.actor->get_shutdown_reason();
     bool erase_spawner = true;
     static_cast<supervisor_t &>(*actor).access<to::alive_actors>().erase(&child);
@@ -207,8 +207,11 @@ void child_manager_plugin_t::on_create(message::create_actor_t &message) noexcep
     auto &sup = static_cast<supervisor_t &>(*actor);
     auto &child_actor = message.payload.actor;
     auto &actor_address = child_actor->get_address();
-    assert(actors_map.count(actor_address) == 1);
-    sup.template request<payload::initialize_actor_t>(actor_address).send(message.payload.timeout);
+    auto it = actors_map.find(actor_address);
+    assert(it != actors_map.end());
+    auto &timeout = message.payload.timeout;
+    /* the child might belong to a different thread, so its own record of the request can not be used later */
+    it->second->init_request_id = sup.template request<payload::initialize_actor_t>(actor_address).send(timeout);
 }
 
 void child_manager_plugin_t::on_spawn(message::spawn_actor_t &message) noexcept {
@@ -273,8 +276,9 @@ void child_manager_plugin_t::on_init(message::init_response_t &message) noexcept
     bool continue_init = false;
     auto it_actor = actors_map.find(address);
     bool actor_found = it_actor != actors_map.end();
-    if (!ec && actor_found) {
-        it_actor->second->initialized = true;
+    if (actor_found) {
+        it_actor->second->init_request_id = 0;
+        it_actor->second->initialized = !ec;
     }
     continue_init = !ec && !has_initializing();
 
@@ -340,20 +344,22 @@ void child_manager_plugin_t::on_shutdown_fail(actor_base_t &actor_, const extend
     actor_.get_supervisor().access<to::system_context>()->on_error(&actor_, ec);
 }
 
-void child_manager_plugin_t::cancel_init(const actor_base_t *child) noexcept {
+void child_manager_plugin_t::cancel_init(detail::child_info_t &child_state) noexcept {
     auto &sup = static_cast<supervisor_t &>(*actor);
-    if (child == actor && sup.access<to::parent>()) {
-        return; // the own init-request was made by the parent, i.e. it has nothing to do with own requests
-    }
-    auto &init_request = child->access<to::init_request>();
-    if (init_request) {
-        // options: answer instead of actor (easier, but unexpected message can be seen)
-        // or forget the init-request.
-        auto &timer_id = init_request->payload.id;
-        if (sup.access<to::timers_map>().count(timer_id)) {
-            sup.access<to::discard_request, request_id_t>(timer_id);
+    request_id_t request_id = child_state.init_request_id;
+    if (child_state.actor.get() == actor) {
+        if (sup.access<to::parent>()) {
+            return; // the own init-request was made by the parent, i.e. it has nothing to do with own requests
         }
+        auto &init_request = actor->access<to::init_request>();
+        request_id = init_request ? init_request->payload.id : 0;
+    }
+    // options: answer instead of actor (easier, but unexpected message can be seen)
+    // or forget the init-request.
+    if (request_id && sup.access<to::timers_map>().count(request_id)) {
+        sup.access<to::discard_request, request_id_t>(request_id);
     }
+    child_state.init_request_id = 0;
 }
 
 void child_manager_plugin_t::on_shutdown_confirm(message::shutdown_response_t &message) noexcept {
@@ -416,7 +422,7 @@ void child_manager_plugin_t::request_shutdown(detail::child_info_t &child_state,
         auto &sup = static_cast<supervisor_t &>(*actor);
         auto &source_actor = child_state.actor;
 
-        cancel_init(source_actor.get());
+        cancel_init(child_state);
         if (source_actor == actor) {
             if (sup.access<to::parent>()) {
                 // will be routed via shutdown request
-- 
2.43.0


From 2bf57a64abf67747835da1552bde12b05eceee36 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:59:27 +0000
Subject: [PATCH 37/38] fix: the registry keeps an entry for every address with
 deregistered services

---
 src/rotor/registry.cpp | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/src/rotor/registry.cpp b/src/rotor/registry.cpp
index 9ca4251..fe6ecf3 100644
--- a/src/rotor/registry.cpp
+++ b/src/rotor/registry.cpp
@@ -64,9 +64,11 @@ void registry_t::on_dereg_service(message::deregistration_service_t &message) no
     auto &name = message.payload.service_name;
     auto it = registered_map.find(name);
     if (it != registered_map.end()) {
-        auto &service_addr = it->second;
-        auto &names = reverse_map.at(service_addr);
-        names.erase(name);
+        auto names_it = reverse_map.find(it->second);
+        names_it->second.erase(name);
+        if (names_it->second.empty()) {
+            reverse_map.erase(names_it);
+        }
         registered_map.erase(it);
     }
 }
-- 
2.43.0


From 233414a1b3a4265fbd527a4bbe6b65429b45212d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:59:27 +0000
Subject: [PATCH 38/38] fix: the registry keeps promises, which have timed out,
 forever

---
 src/rotor/plugin/registry.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/rotor/plugin/registry.cpp b/src/rotor/plugin/registry.cpp
index b10179f..a3cb49d 100644
--- a/src/rotor/plugin/registry.cpp
+++ b/src/rotor/plugin/registry.cpp
@@ -208,6 +208,8 @@ void registry_plugin_t::discovery_task_t::on_discovery(address_ptr_t *service_ad
         if (task_callback) {
             task_callback(phase_t::discovering, ec);
         }
+    } else if (ec->root()->ec == error_code_t::request_timeout) {
+        do_cancel(); // the registry still keeps the promise
     }
 
     auto actor_state = plugin->actor->access<to::state>();
-- 
2.43.0

