From 094467a700363bc3967d8b2a75a334d877a926fa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:02:32 +0000
Subject: [PATCH 01/33] fix: unsubscribe an actor's handler via the lifetime
 plugin of that actor

actor_base_t::unsubscribe(&actor::handler[, address]) looked the subscription
up among the ones of the supervisor, where only supervisor's own handlers are
---
 include/rotor/supervisor.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/rotor/supervisor.h b/include/rotor/supervisor.h
index 55c095c..16c5b7f 100644
--- a/include/rotor/supervisor.h
+++ b/include/rotor/supervisor.h
@@ -500,12 +500,12 @@ template <> inline size_t delivery_plugin_t<plugin::inspected_local_delivery_t>:
 } // namespace plugin
 
 template <typename Handler, typename Enabled> void actor_base_t::unsubscribe(Handler &&h) noexcept {
-    supervisor->unsubscribe_actor(address, wrap_handler(*this, std::move(h)));
+    lifetime->unsubscribe(wrap_handler(*this, std::move(h)), address);
 }
 
 template <typename Handler, typename Enabled>
 void actor_base_t::unsubscribe(Handler &&h, address_ptr_t &addr) noexcept {
-    supervisor->unsubscribe_actor(addr, wrap_handler(*this, std::move(h)));
+    lifetime->unsubscribe(wrap_handler(*this, std::move(h)), addr);
 }
 
 template <typename T>
-- 
2.43.0


From 4f90ace4ff6f9ea801fc217a54ecad1c573a3033 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:15:04 +0000
Subject: [PATCH 02/33] fix: confirm an external unsubscription only by the
 plugin which owns the subscription

---
 src/rotor/plugin/lifetime.cpp    | 4 ++++
 src/rotor/plugin/plugin_base.cpp | 7 ++++---
 2 files changed, 8 insertions(+), 3 deletions(-)

diff --git a/src/rotor/plugin/lifetime.cpp b/src/rotor/plugin/lifetime.cpp
index 6c8d829..b84c90f 100644
--- a/src/rotor/plugin/lifetime.cpp
+++ b/src/rotor/plugin/lifetime.cpp
@@ -116,6 +116,10 @@ bool lifetime_plugin_t::handle_unsubscription(const subscription_point_t &point,
     if (point.owner_tag != owner_tag_t::PLUGIN) {
         auto it = points.find(point);
         plugin_base_t::forget_subscription(*it);
+        if (external) {
+            auto &sup_addr = static_cast<actor_base_t &>(point.address->supervisor).get_address();
+            actor->send<payload::commit_unsubscription_t>(sup_addr, point);
+        }
         points.erase(it);
         result = true;
         if (points.empty()) {
diff --git a/src/rotor/plugin/plugin_base.cpp b/src/rotor/plugin/plugin_base.cpp
index 55b80ab..bd5461f 100644
--- a/src/rotor/plugin/plugin_base.cpp
+++ b/src/rotor/plugin/plugin_base.cpp
@@ -88,9 +88,10 @@ bool plugin_base_t::handle_unsubscription(const subscription_point_t &point, boo
     if (external) {
         auto act = actor; /* backup */
         auto ok = forget_subscription(point);
-        assert(ok && "unsubscription handled");
-        auto &sup_addr = static_cast<actor_base_t &>(point.address->supervisor).get_address();
-        act->send<payload::commit_unsubscription_t>(sup_addr, point);
+        if (ok) { /* otherwise it belongs to some other plugin */
+            auto &sup_addr = static_cast<actor_base_t &>(point.address->supervisor).get_address();
+            act->send<payload::commit_unsubscription_t>(sup_addr, point);
+        }
         return ok;
     }
     return forget_subscription(point);
-- 
2.43.0


From a3bbdfb0ac9fff9236718b1fff1d47c65eb50000 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:40:25 +0000
Subject: [PATCH 03/33] fix: start children which are initialized after their
 supervisor was started also under synchronize_start

---
 src/rotor/plugin/child_manager.cpp | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/rotor/plugin/child_manager.cpp b/src/rotor/plugin/child_manager.cpp
index 8ce2271..447aa92 100644
--- a/src/rotor/plugin/child_manager.cpp
+++ b/src/rotor/plugin/child_manager.cpp
@@ -292,8 +292,10 @@ void child_manager_plugin_t::on_init(message::init_response_t &message) noexcept
            right after creation */
         if (actor_found) {
             it_actor->second->initialized = true;
-            bool do_start = (address == actor->get_address()) ? (self_state <= state_t::OPERATIONAL)
-                                                              : !sup.access<to::synchronize_start>();
+            /* there is nothing to synchronize with, when the supervisor has already been started */
+            bool do_start = (address == actor->get_address())
+                                ? (self_state <= state_t::OPERATIONAL)
+                                : (!sup.access<to::synchronize_start>() || self_state == state_t::OPERATIONAL);
             if (do_start) {
                 sup.template send<payload::start_actor_t>(address);
                 it_actor->second->started = true;
-- 
2.43.0


From f833350aa4d94f9a79474f3ac1ddc45d06f3332c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:50:38 +0000
Subject: [PATCH 04/33] fix: don't continue initialization, when a link is
 confirmed to an actor which is already shutting down

---
 src/rotor/plugin/link_client.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/rotor/plugin/link_client.cpp b/src/rotor/plugin/link_client.cpp
index aa30779..c98a0ca 100644
--- a/src/rotor/plugin/link_client.cpp
+++ b/src/rotor/plugin/link_client.cpp
@@ -83,7 +83,8 @@ void link_client_plugin_t::on_link_response(message::link_response_t &message) n
         } */
     } else {
         it->second.state = link_state_t::OPERATIONAL;
-        if (actor->access<to::init_request>()) {
+        /* the init request is still there, if the shutdown has started before the end of the initialization */
+        if (actor->access<to::init_request>() && actor->access<to::state>() == state_t::INITIALIZING) {
             actor->init_continue();
         }
     }
-- 
2.43.0


From 4dba3caee5022f5875f984ed2f9fd88ee2e10b32 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:50:38 +0000
Subject: [PATCH 05/33] fix: don't wait during shutdown for clients, which have
 never been linked

---
 src/rotor/plugin/link_client.cpp |  4 ++++
 src/rotor/plugin/link_server.cpp | 11 ++++++++++-
 2 files changed, 14 insertions(+), 1 deletion(-)

diff --git a/src/rotor/plugin/link_client.cpp b/src/rotor/plugin/link_client.cpp
index c98a0ca..1f39c3b 100644
--- a/src/rotor/plugin/link_client.cpp
+++ b/src/rotor/plugin/link_client.cpp
@@ -65,6 +65,10 @@ void link_client_plugin_t::on_link_response(message::link_response_t &message) n
     auto callback = it->second.callback;
     if (ec) {
         servers_map.erase(it);
+        if (ec->ec == make_error_code(error_code_t::request_timeout)) {
+            /* the server might have accepted the link (or might do that later) */
+            actor->send<payload::unlink_notify_t>(address, actor->get_address());
+        }
     }
 
     if (callback) {
diff --git a/src/rotor/plugin/link_server.cpp b/src/rotor/plugin/link_server.cpp
index c11b79b..c53e0ae 100644
--- a/src/rotor/plugin/link_server.cpp
+++ b/src/rotor/plugin/link_server.cpp
@@ -121,7 +121,15 @@ void link_server_plugin_t::handle_start(message::start_trigger_t *trigger) noexc
 }
 
 void link_server_plugin_t::notify_shutdown() noexcept {
-    for (auto &[address, link_info] : linked_clients) {
+    for (auto it = linked_clients.begin(); it != linked_clients.end();) {
+        auto &[address, link_info] = *it;
+        if (link_info.state == link_state_t::PENDING) {
+            /* never becomes operational */
+            auto ec = make_error_code(error_code_t::actor_not_linkable);
+            actor->reply_with_error(*link_info.request, make_error(ec, {}, link_info.request));
+            it = linked_clients.erase(it);
+            continue;
+        }
         if (link_info.state == link_state_t::OPERATIONAL) {
             auto &self = actor->get_address();
             auto &timeout = actor->access<to::shutdown_timeout>();
@@ -129,5 +137,6 @@ void link_server_plugin_t::notify_shutdown() noexcept {
             link_info.state = link_state_t::UNLINKING;
             link_info.unlink_request = request_id;
         }
+        ++it;
     }
 }
-- 
2.43.0


From 4e1530ad6db432c543b33b7cadae8807fe6ac991 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:50:38 +0000
Subject: [PATCH 06/33] fix: don't cancel the unlink request, which has already
 timed out

---
 src/rotor/plugin/link_server.cpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/rotor/plugin/link_server.cpp b/src/rotor/plugin/link_server.cpp
index c53e0ae..df2e67a 100644
--- a/src/rotor/plugin/link_server.cpp
+++ b/src/rotor/plugin/link_server.cpp
@@ -85,6 +85,10 @@ void link_server_plugin_t::on_unlink_response(message::unlink_response_t &messag
     auto &ec = message.payload.ee;
     auto &shutdown_request = actor->access<to::shutdown_request>();
     if (ec && shutdown_request) {
+        auto it = linked_clients.find(message.payload.req->address);
+        if (it != linked_clients.end()) {
+            it->second.unlink_request.reset(); /* there is nothing to cancel anymore */
+        }
         actor->reply_with_error(*actor->access<to::shutdown_request>(), ec);
         return;
     }
-- 
2.43.0


From 0984993256c4ca630562890fccab6fb00c582301 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:54:03 +0000
Subject: [PATCH 07/33] fix: shut down an actor, which is asked to unlink while
 it has clients of its own

---
 src/rotor/plugin/link_client.cpp | 18 ++++++++++++++++++
 1 file changed, 18 insertions(+)

diff --git a/src/rotor/plugin/link_client.cpp b/src/rotor/plugin/link_client.cpp
index 1f39c3b..efa2a2b 100644
--- a/src/rotor/plugin/link_client.cpp
+++ b/src/rotor/plugin/link_client.cpp
@@ -100,6 +100,20 @@ void link_client_plugin_t::forget_link(message::unlink_request_t &message) noexc
     if (it == servers_map.end())
         return;
 
+    if (actor->access<to::link_server>()->has_clients() && actor->access<to::state>() < state_t::SHUTTING_DOWN) {
+        /* the actor is a server too: its own clients have to be unlinked first, which is done upon its shutdown */
+        if (actor->access<to::on_unlink, const address_ptr_t &>(server_addr)) {
+            it->second.state = link_state_t::UNLINKING;
+            unlink_queue.emplace_back(&message);
+            auto ec = make_error_code(shutdown_code_t::unlink_requested);
+            actor->do_shutdown(make_error(ec));
+        } else {
+            actor->reply_to(message, actor->get_address());
+            servers_map.erase(it);
+        }
+        return;
+    }
+
     unlink_queue.emplace_back(&message);
     try_forget_links(true);
 }
@@ -114,7 +128,11 @@ void link_client_plugin_t::try_forget_links(bool attempt_shutdown) noexcept {
             auto server_it = servers_map.find(server_addr);
             if (server_it != servers_map.end()) {
                 actor->reply_to(message, actor->get_address());
+                bool notified = server_it->second.state == link_state_t::UNLINKING;
                 servers_map.erase(server_it);
+                if (notified) {
+                    continue;
+                }
                 auto result = actor->access<to::on_unlink, const address_ptr_t &>(server_addr);
                 shutdown_needed |= result;
             }
-- 
2.43.0


From 75519392c4d6aed25649da62e09fb2776b29531b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:54:38 +0000
Subject: [PATCH 08/33] fix: handle unlink notification and unlink timeout in
 any order

---
 src/rotor/plugin/link_server.cpp | 33 ++++++++++++++++----------------
 1 file changed, 17 insertions(+), 16 deletions(-)

diff --git a/src/rotor/plugin/link_server.cpp b/src/rotor/plugin/link_server.cpp
index df2e67a..77182fd 100644
--- a/src/rotor/plugin/link_server.cpp
+++ b/src/rotor/plugin/link_server.cpp
@@ -16,12 +16,16 @@ struct state {};
 struct shutdown_request {};
 struct shutdown_timeout {};
 struct link_server {};
+struct active_requests {};
+struct system_context {};
 } // namespace to
 } // namespace
 
 template <> auto &actor_base_t::access<to::state>() noexcept { return state; }
 template <> auto &actor_base_t::access<to::shutdown_request>() noexcept { return shutdown_request; }
 template <> auto &actor_base_t::access<to::shutdown_timeout>() noexcept { return shutdown_timeout; }
+template <> auto &actor_base_t::access<to::active_requests>() noexcept { return active_requests; }
+template <> auto &supervisor_t::access<to::system_context>() noexcept { return context; }
 template <> auto &actor_base_t::access<to::link_server>() noexcept { return link_server; }
 
 const std::type_index link_server_plugin_t::class_identity = typeid(link_server_plugin_t);
@@ -71,7 +75,8 @@ void link_server_plugin_t::on_unlink_notify(message::unlink_notify_t &message) n
         return;
 
     auto &unlink_request = it->second.unlink_request;
-    if (unlink_request) {
+    auto &requests = actor->access<to::active_requests>();
+    if (unlink_request && requests.count(*unlink_request)) { /* i.e. it has not timed out yet */
         actor->get_supervisor().cancel_timer(*unlink_request);
     }
     linked_clients.erase(it);
@@ -83,25 +88,21 @@ void link_server_plugin_t::on_unlink_notify(message::unlink_notify_t &message) n
 
 void link_server_plugin_t::on_unlink_response(message::unlink_response_t &message) noexcept {
     auto &ec = message.payload.ee;
-    auto &shutdown_request = actor->access<to::shutdown_request>();
-    if (ec && shutdown_request) {
-        auto it = linked_clients.find(message.payload.req->address);
-        if (it != linked_clients.end()) {
-            it->second.unlink_request.reset(); /* there is nothing to cancel anymore */
-        }
-        actor->reply_with_error(*actor->access<to::shutdown_request>(), ec);
+    auto it = linked_clients.find(message.payload.req->address);
+    if (it == linked_clients.end()) { /* has been unlinked via notification, while the timeout was on the way */
         return;
     }
 
-    auto &client = message.payload.res.client_addr;
-    auto it = linked_clients.find(client);
-
-    // no idea, how to trigger/cause the race
-    assert(it != linked_clients.end());
-    /*
-    if (it == linked_clients.end())
+    if (ec) {
+        auto &shutdown_request = actor->access<to::shutdown_request>();
+        if (shutdown_request) {
+            actor->reply_with_error(*shutdown_request, ec);
+        } else { /* root supervisor */
+            actor->get_supervisor().access<to::system_context>()->on_error(actor, ec);
+        }
         return;
-    */
+    }
+
     linked_clients.erase(it);
 
     auto &state = actor->access<to::state>();
-- 
2.43.0


From afbca2472d806d09c26da0b56580b18fb9013bfb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:58:48 +0000
Subject: [PATCH 09/33] fix: finish shutdown of a client, whose own clients
 have never been linked

---
 src/rotor/plugin/link_client.cpp | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/src/rotor/plugin/link_client.cpp b/src/rotor/plugin/link_client.cpp
index efa2a2b..a67704a 100644
--- a/src/rotor/plugin/link_client.cpp
+++ b/src/rotor/plugin/link_client.cpp
@@ -169,9 +169,13 @@ bool link_client_plugin_t::handle_shutdown(message::shutdown_request_t *req) noe
     if (servers_map.empty())
         return plugin_base_t::handle_shutdown(req);
 
+    auto link_server = actor->access<to::link_server>();
+    if (link_server->has_clients()) {
+        link_server->notify_shutdown();
+    }
+
     try_forget_links(false);
 
-    auto link_server = actor->access<to::link_server>();
     if (!link_server->has_clients()) {
         auto &source_addr = actor->get_address();
         for (auto it = servers_map.begin(); it != servers_map.end();) {
@@ -182,8 +186,6 @@ bool link_client_plugin_t::handle_shutdown(message::shutdown_request_t *req) noe
             }
             it = servers_map.erase(it);
         }
-    } else {
-        link_server->notify_shutdown();
     }
 
     if (servers_map.empty()) {
-- 
2.43.0


From eda76654048f12992466165fa955ad51449a155d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:17:09 +0000
Subject: [PATCH 10/33] fix: forget an address in the registry together with
 its last name

---
 src/rotor/registry.cpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/rotor/registry.cpp b/src/rotor/registry.cpp
index 9ca4251..80cb43d 100644
--- a/src/rotor/registry.cpp
+++ b/src/rotor/registry.cpp
@@ -67,6 +67,9 @@ void registry_t::on_dereg_service(message::deregistration_service_t &message) no
         auto &service_addr = it->second;
         auto &names = reverse_map.at(service_addr);
         names.erase(name);
+        if (names.empty()) {
+            reverse_map.erase(service_addr);
+        }
         registered_map.erase(it);
     }
 }
-- 
2.43.0


From 9274d27cc11d4d71f361ea9aac01af7b41b1dcf8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:22:55 +0000
Subject: [PATCH 11/33] fix: don't continue an initialization which has already
 failed in the registry plugin

---
 src/rotor/plugin/registry.cpp | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/rotor/plugin/registry.cpp b/src/rotor/plugin/registry.cpp
index d373412..dca3549 100644
--- a/src/rotor/plugin/registry.cpp
+++ b/src/rotor/plugin/registry.cpp
@@ -106,10 +106,14 @@ void registry_plugin_t::on_future(message::discovery_future_t &message) noexcept
 
 void registry_plugin_t::continue_init(const error_code_t &possible_ec, const extended_error_ptr_t &root_ec) noexcept {
     auto &init_request = actor->access<to::init_request>();
-    assert(init_request);
+    /* the initialization might have already failed or might have been interrupted by shutdown */
+    if (!init_request || actor->access<to::state>() != rotor::state_t::INITIALIZING) {
+        return;
+    }
     if (root_ec) {
         auto reason = make_error(possible_ec, root_ec, init_request);
         actor->reply_with_error(*init_request, reason);
+        init_request.reset();
     } else {
         actor->init_continue();
     }
-- 
2.43.0


From 1f44e351b797330a9dd7240ea598db1479beca43 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:22:55 +0000
Subject: [PATCH 12/33] fix: consider a link established before its callback is
 invoked

---
 src/rotor/plugin/link_client.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/rotor/plugin/link_client.cpp b/src/rotor/plugin/link_client.cpp
index a67704a..19bbd6d 100644
--- a/src/rotor/plugin/link_client.cpp
+++ b/src/rotor/plugin/link_client.cpp
@@ -69,6 +69,8 @@ void link_client_plugin_t::on_link_response(message::link_response_t &message) n
             /* the server might have accepted the link (or might do that later) */
             actor->send<payload::unlink_notify_t>(address, actor->get_address());
         }
+    } else {
+        it->second.state = link_state_t::OPERATIONAL;
     }
 
     if (callback) {
@@ -86,7 +88,6 @@ void link_client_plugin_t::on_link_response(message::link_response_t &message) n
             actor->do_shutdown(make_error(ec_inner, ec));
         } */
     } else {
-        it->second.state = link_state_t::OPERATIONAL;
         /* the init request is still there, if the shutdown has started before the end of the initialization */
         if (actor->access<to::init_request>() && actor->access<to::state>() == state_t::INITIALIZING) {
             actor->init_continue();
-- 
2.43.0


From d0fe919b686dd7e683d913d36d8e56e17be21287 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:22:55 +0000
Subject: [PATCH 13/33] fix: don't continue initialization upon resource
 release, when there is no init request

---
 src/rotor/plugin/resources.cpp | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/rotor/plugin/resources.cpp b/src/rotor/plugin/resources.cpp
index 36c858c..c9979a9 100644
--- a/src/rotor/plugin/resources.cpp
+++ b/src/rotor/plugin/resources.cpp
@@ -14,12 +14,14 @@ using namespace rotor::plugin;
 namespace {
 namespace to {
 struct state {};
+struct init_request {};
 struct resources {};
 struct continuation_mask {};
 } // namespace to
 } // namespace
 
 template <> auto &actor_base_t::access<to::state>() noexcept { return state; }
+template <> auto &actor_base_t::access<to::init_request>() noexcept { return init_request; }
 template <> auto &actor_base_t::access<to::resources>() noexcept { return resources; }
 template <> auto &actor_base_t::access<to::continuation_mask>() noexcept { return continuation_mask; }
 
@@ -72,7 +74,9 @@ bool resources_plugin_t::release(resource_id_t id) noexcept {
     auto state = actor->access<to::state>();
     bool has_acquired = has_any();
     if (state == state_t::INITIALIZING) {
-        if (!has_acquired && !(actor->access<to::continuation_mask>() & actor_base_t::PROGRESS_INIT)) {
+        /* there is no request when it has not arrived yet or when the initialization has already failed */
+        bool has_request = bool(actor->access<to::init_request>());
+        if (!has_acquired && has_request && !(actor->access<to::continuation_mask>() & actor_base_t::PROGRESS_INIT)) {
             actor->init_continue();
         }
     } else if (state == state_t::SHUTTING_DOWN) {
-- 
2.43.0


From 319527d48fee2eb286512b84a9bd379389466d16 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:22:55 +0000
Subject: [PATCH 14/33] fix: revoke also the names, the registration of which
 is in progress when the shutdown starts

---
 include/rotor/plugin/registry.h |  1 +
 src/rotor/plugin/registry.cpp   | 42 ++++++++++++++++++++++++++-------
 2 files changed, 34 insertions(+), 9 deletions(-)

diff --git a/include/rotor/plugin/registry.h b/include/rotor/plugin/registry.h
index 87a9e02..10d0d80 100644
--- a/include/rotor/plugin/registry.h
+++ b/include/rotor/plugin/registry.h
@@ -147,6 +147,7 @@ struct ROTOR_API registry_plugin_t : public plugin_base_t {
         CONFIGURED = 1 << 0,
         LINKING = 1 << 1,
         LINKED = 1 << 2,
+        REQUESTED = 1 << 3,
     };
     std::uint32_t plugin_state = 0;
 
diff --git a/src/rotor/plugin/registry.cpp b/src/rotor/plugin/registry.cpp
index dca3549..6451431 100644
--- a/src/rotor/plugin/registry.cpp
+++ b/src/rotor/plugin/registry.cpp
@@ -85,12 +85,29 @@ void registry_plugin_t::on_registration(message::registration_response_t &messag
     auto &ee = message.payload.ee;
     auto it = register_map.find(service);
     assert(it != register_map.end());
+    bool unregistering = it->second.state == state_t::UNREGISTERING;
     if (ee) {
+        if (ee->ec == make_error_code(error_code_t::request_timeout)) {
+            /* the registry might have registered the name (or might do that later) */
+            auto &registry_addr = actor->get_supervisor().get_registry_address();
+            actor->send<payload::deregistration_notify_t>(registry_addr, it->second.address);
+        }
+        register_map.erase(it);
+    } else if (unregistering) {
+        auto &registry_addr = actor->get_supervisor().get_registry_address();
+        actor->send<payload::deregistration_service_t>(registry_addr, service);
         register_map.erase(it);
     } else {
         it->second.state = state_t::OPERATIONAL;
     }
 
+    if (unregistering) {
+        if (register_map.empty()) {
+            actor->shutdown_continue();
+        }
+        return;
+    }
+
     if (!has_registering() || ee) {
         continue_init(error_code_t::registration_failed, ee);
     }
@@ -133,7 +150,8 @@ void registry_plugin_t::link_registry() noexcept {
 void registry_plugin_t::on_link(const extended_error_ptr_t &ec) noexcept {
     plugin_state = plugin_state | LINKED;
     plugin_state = plugin_state & ~LINKING;
-    if (!ec) {
+    if (!ec && actor->access<to::state>() == rotor::state_t::INITIALIZING) {
+        plugin_state = plugin_state | REQUESTED;
         auto &registry_addr = actor->get_supervisor().get_registry_address();
         auto timeout = actor->access<to::init_timeout>();
         for (auto &it : register_map) {
@@ -158,13 +176,18 @@ bool registry_plugin_t::handle_init(message::init_request_t *) noexcept {
 bool registry_plugin_t::handle_shutdown(message::shutdown_request_t *req) noexcept {
     if (!register_map.empty()) {
         auto &registry_addr = actor->get_supervisor().get_registry_address();
-        for (auto &it : register_map) {
-            if (it.second.state == state_t::OPERATIONAL) {
-                actor->send<payload::deregistration_service_t>(registry_addr, it.first);
-                it.second.state = state_t::UNREGISTERING;
+        for (auto it = register_map.begin(); it != register_map.end();) {
+            auto &state = it->second.state;
+            if (state == state_t::OPERATIONAL) {
+                actor->send<payload::deregistration_service_t>(registry_addr, it->first);
+            } else if (plugin_state & REQUESTED) {
+                /* only the response tells whether there is something to be revoked */
+                state = state_t::UNREGISTERING;
+                ++it;
+                continue;
             }
+            it = register_map.erase(it);
         }
-        register_map.clear();
     }
 
     if (!discovery_map.empty()) {
@@ -175,9 +198,10 @@ bool registry_plugin_t::handle_shutdown(message::shutdown_request_t *req) noexce
                 ++it;
             }
         }
-        if (!discovery_map.empty())
-            return false;
-        // discovery_map.clear();
+    }
+
+    if (!register_map.empty() || !discovery_map.empty()) {
+        return false;
     }
 
     aliases_map.clear();
-- 
2.43.0


From 704485f61726e382a7caa8c053bdffe25e184715 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:30:36 +0000
Subject: [PATCH 15/33] fix: keep lookups consistent, when the registry answers
 after the shutdown or after the link has been established

---
 include/rotor/plugin/registry.h |  2 +
 src/rotor/plugin/registry.cpp   | 86 ++++++++++++++++++++-------------
 2 files changed, 55 insertions(+), 33 deletions(-)

diff --git a/include/rotor/plugin/registry.h b/include/rotor/plugin/registry.h
index 10d0d80..78aa164 100644
--- a/include/rotor/plugin/registry.h
+++ b/include/rotor/plugin/registry.h
@@ -157,6 +157,8 @@ struct ROTOR_API registry_plugin_t : public plugin_base_t {
 
     void link_registry() noexcept;
     void on_link(const extended_error_ptr_t &ec) noexcept;
+    void on_service_link(const address_ptr_t &address, const extended_error_ptr_t &ec) noexcept;
+    void discovery_continue(const extended_error_ptr_t &ec) noexcept;
     bool has_registering() noexcept;
     virtual void continue_init(const error_code_t &possible_ec, const extended_error_ptr_t &root_ec) noexcept;
 };
diff --git a/src/rotor/plugin/registry.cpp b/src/rotor/plugin/registry.cpp
index 6451431..2e7d12e 100644
--- a/src/rotor/plugin/registry.cpp
+++ b/src/rotor/plugin/registry.cpp
@@ -217,7 +217,9 @@ template <typename Message> void process_discovery(registry_plugin_t::discovery_
     auto &service = message.payload.req->payload.request_payload.service_name;
     auto &ee = message.payload.ee;
     auto it = dm.find(service);
-    assert(it != dm.end());
+    if (it == dm.end()) {
+        return; // the lookup has been abandoned, as the actor shuts down
+    }
     address_ptr_t *address_value = ee ? nullptr : &message.payload.res.service_addr;
     it->second.template access<to::on_discovery, address_ptr_t *, const extended_error_ptr_t &>(address_value, ee);
 }
@@ -231,56 +233,74 @@ void registry_plugin_t::discovery_task_t::on_discovery(address_ptr_t *service_ad
         }
     }
 
+    if (ec && delayed && ec->ec == make_error_code(error_code_t::request_timeout)) {
+        do_cancel(); // the registry should not wait for the name any longer
+    }
+
     auto actor_state = plugin->actor->access<to::state>();
     if (actor_state == rotor::state_t::INITIALIZING) {
         if (!ec) {
             auto &aliases = plugin->access<to::aliases_map>();
-            if (!aliases.count(*address)) {
+            auto it = aliases.find(*address);
+            if (it == aliases.end()) {
                 auto p = plugin->actor->access<to::get_plugin>(&link_client_plugin_t::class_identity);
                 auto &link_plugin = *static_cast<link_client_plugin_t *>(p);
-                link_plugin.link(*address, operational_only, [this](auto &ec) {
-                    auto &am = plugin->access<to::aliases_map>();
-                    auto &dm = plugin->access<to::discovery_map>();
-                    for (auto &alias : am.at(*address)) {
-                        auto &callback = dm.at(alias).task_callback;
-                        if (callback) {
-                            callback(phase_t::linking, ec);
-                        }
-                    }
-                    post_discovery(ec);
+                link_plugin.link(*address, operational_only, [plugin = this->plugin, address = *address](auto &ec) {
+                    plugin->on_service_link(address, ec);
                 });
                 aliases.emplace(*address, names_t{service_name});
-            } else {
-                aliases.at(*address).emplace_back(service_name);
+                return;
+            } else if (!it->second.empty()) {
+                it->second.emplace_back(service_name);
+                return;
+            }
+            /* already linked */
+            if (task_callback) {
+                task_callback(phase_t::linking, ec);
             }
-            return;
         }
     }
     post_discovery(ec);
 }
 
-void registry_plugin_t::discovery_task_t::post_discovery(const extended_error_ptr_t &ec) noexcept {
-    auto p = plugin;
-    auto &dm = p->discovery_map;
-    auto it = dm.find(service_name);
-    assert(it != dm.end());
-
-    auto &am = p->aliases_map;
-    auto ait = am.find(*it->second.address);
-    if (ait != am.end()) {
-        for (auto &alias : ait->second) {
-            dm.erase(alias);
+void registry_plugin_t::on_service_link(const address_ptr_t &address, const extended_error_ptr_t &ec) noexcept {
+    auto it = aliases_map.find(address);
+    if (it == aliases_map.end()) {
+        return;
+    }
+    names_t names;
+    std::swap(names, it->second); // no names are left waiting for the link
+    bool found = false;
+    for (auto &alias : names) {
+        auto task = discovery_map.find(alias);
+        if (task != discovery_map.end()) {
+            found = true;
+            auto callback = std::move(task->second.task_callback);
+            discovery_map.erase(task);
+            if (callback) {
+                callback(phase_t::linking, ec);
+            }
         }
-    } else {
-        dm.erase(it);
     }
+    if (found) {
+        discovery_continue(ec);
+    }
+}
 
-    if (dm.empty() || ec) {
-        auto actor_state = p->actor->access<to::state>();
+void registry_plugin_t::discovery_task_t::post_discovery(const extended_error_ptr_t &ec) noexcept {
+    auto p = plugin;
+    extended_error_ptr_t reason = ec;
+    p->discovery_map.erase(p->discovery_map.find(service_name)); // destroys the task
+    p->discovery_continue(reason);
+}
+
+void registry_plugin_t::discovery_continue(const extended_error_ptr_t &ec) noexcept {
+    if (discovery_map.empty() || ec) {
+        auto actor_state = actor->access<to::state>();
         if (actor_state == rotor::state_t::INITIALIZING) {
-            p->continue_init(error_code_t::discovery_failed, ec);
-        } else {
-            p->actor->shutdown_continue();
+            continue_init(error_code_t::discovery_failed, ec);
+        } else if (actor_state == rotor::state_t::SHUTTING_DOWN) {
+            actor->shutdown_continue();
         }
     }
 }
-- 
2.43.0


From 2dd5c9d22a26aadf7d890d90f3a0a2c178eafc4f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:19:37 +0000
Subject: [PATCH 16/33] fix: apply escalate_failure and autoshutdown_supervisor
 of a supervisor to its parent

---
 src/rotor/actor_base.cpp | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/src/rotor/actor_base.cpp b/src/rotor/actor_base.cpp
index 336f90b..89383d6 100644
--- a/src/rotor/actor_base.cpp
+++ b/src/rotor/actor_base.cpp
@@ -104,14 +104,16 @@ void actor_base_t::on_start() noexcept { state = state_t::OPERATIONAL; }
 
 void actor_base_t::shutdown_start() noexcept {
     state = state_t::SHUTTING_DOWN;
-    if (!spawner_address) {
+    /* a supervisor reports to its parent, there is nobody to report to for the root supervisor */
+    auto upstream_sup = static_cast<actor_base_t *>(supervisor) == this ? supervisor->parent : supervisor;
+    if (!spawner_address && upstream_sup) {
         if ((continuation_mask & ESCALATE_FALIURE) && shutdown_reason && shutdown_reason->root()->ec) {
-            auto &sup = supervisor->get_address();
+            auto &sup = upstream_sup->get_address();
             auto ee = make_error(make_error_code(error_code_t::failure_escalation), shutdown_reason);
             send<payload::shutdown_trigger_t>(sup, sup, std::move(ee));
         }
         if (continuation_mask & AUTOSHUTDOWN_SUPERVISOR) {
-            auto &sup = supervisor->get_address();
+            auto &sup = upstream_sup->get_address();
             auto ee = make_error(make_error_code(shutdown_code_t::child_down), shutdown_reason);
             send<payload::shutdown_trigger_t>(sup, sup, std::move(ee));
         }
-- 
2.43.0


From 17ccba4c566e4d3b292a94a9d421a0d35e6499ab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:19:37 +0000
Subject: [PATCH 17/33] fix: don't spawn actors when the supervisor is shutting
 down

---
 src/rotor/plugin/child_manager.cpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/rotor/plugin/child_manager.cpp b/src/rotor/plugin/child_manager.cpp
index 447aa92..ed525cf 100644
--- a/src/rotor/plugin/child_manager.cpp
+++ b/src/rotor/plugin/child_manager.cpp
@@ -214,7 +214,7 @@ void child_manager_plugin_t::on_spawn(message::spawn_actor_t &message) noexcept
     auto &sup = static_cast<supervisor_t &>(*actor);
     auto &info = *it->second;
 
-    if (!info.active) {
+    if (!info.active || actor->access<to::state>() >= state_t::SHUTTING_DOWN) {
         return;
     }
     info.spawn_attempt();
@@ -418,6 +418,8 @@ void child_manager_plugin_t::request_shutdown(const extended_error_ptr_t &reason
         } else if (info.timer_id) {
             auto &sup = static_cast<supervisor_t &>(*actor);
             sup.cancel_timer(info.timer_id);
+        } else { /* the spawning message might be on the way */
+            info.active = false;
         }
     }
 }
-- 
2.43.0


From 76f8ef783993c3ab612e5f0fe236c4e560893040 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:19:37 +0000
Subject: [PATCH 18/33] fix: don't escalate a normal termination of a spawned
 actor

---
 src/rotor/detail/child_info.cpp | 18 ++++++++----------
 1 file changed, 8 insertions(+), 10 deletions(-)

diff --git a/src/rotor/detail/child_info.cpp b/src/rotor/detail/child_info.cpp
index 1cfa860..5a201f8 100644
--- a/src/rotor/detail/child_info.cpp
+++ b/src/rotor/detail/child_info.cpp
@@ -29,19 +29,17 @@ spawn_demand_t child_info_t::next_spawn(bool abnormal_shutdown) noexcept {
     }
 
     auto check_failure_escalation = [&]() -> bool {
-        if (escalate_failure) {
+        if (escalate_failure && abnormal_shutdown) {
             if (max_attempts && attempts >= max_attempts) {
                 return true;
             }
-            if (abnormal_shutdown) {
-                if (policy == restart_policy_t::always && !active) {
-                    active = false;
-                    return true;
-                }
-                if (policy == restart_policy_t::normal_only) {
-                    active = false;
-                    return true;
-                }
+            if (policy == restart_policy_t::always && !active) {
+                active = false;
+                return true;
+            }
+            if (policy == restart_policy_t::normal_only) {
+                active = false;
+                return true;
             }
         }
         return false;
-- 
2.43.0


From 8c53260b0097545faa85132088a435e8ef4b5dd6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:19:37 +0000
Subject: [PATCH 19/33] fix: measure the restart period independently of the
 time zone

---
 src/rotor/detail/child_info.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/rotor/detail/child_info.cpp b/src/rotor/detail/child_info.cpp
index 5a201f8..bbb74a0 100644
--- a/src/rotor/detail/child_info.cpp
+++ b/src/rotor/detail/child_info.cpp
@@ -14,7 +14,7 @@ void child_info_t::spawn_attempt() noexcept {
     ++attempts;
     timer_id = 0;
     shutdown = shutdown_state_t::none;
-    last_instantiation = clock_t::local_time();
+    last_instantiation = clock_t::universal_time();
     if (max_attempts && attempts >= max_attempts) {
         active = false;
     }
@@ -71,7 +71,7 @@ spawn_demand_t child_info_t::next_spawn(bool abnormal_shutdown) noexcept {
         }
     }
 
-    auto now = clock_t::local_time();
+    auto now = clock_t::universal_time();
     auto after = now - last_instantiation;
     if (after >= restart_period) {
         return demand::now{};
-- 
2.43.0


From 7efc77cc515abddd626291cadac590d14438276b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:52:32 +0000
Subject: [PATCH 20/33] fix: unsubscribe the very handler, when it is
 subscribed again while the unsubscription is in progress

---
 include/rotor/handler.h          |  4 ++++
 src/rotor/handler.cpp            |  4 ++++
 src/rotor/subscription_point.cpp | 11 ++++++++++-
 3 files changed, 18 insertions(+), 1 deletion(-)

diff --git a/include/rotor/handler.h b/include/rotor/handler.h
index 2fe3ba3..26644a8 100644
--- a/include/rotor/handler.h
+++ b/include/rotor/handler.h
@@ -138,6 +138,9 @@ struct ROTOR_API handler_base_t : public arc_base_t<handler_base_t> {
         return handler_type == rhs.handler_type && actor_ptr == rhs.actor_ptr;
     }
 
+    /** \brief returns true if it is the other handler itself or its upgraded version */
+    virtual bool same(const handler_base_t &other) const noexcept { return this == &other; }
+
     /** \brief attempt to delivery message to the handler
      *
      * The message is delivered only if its type matches to the handler message type,
@@ -191,6 +194,7 @@ struct handler_intercepted_t : public handler_base_t {
     bool select(message_ptr_t &message) noexcept override;
     void call_no_check(message_ptr_t &message) noexcept override;
     const void *message_type() const noexcept override;
+    bool same(const handler_base_t &other) const noexcept override;
 
   private:
     handler_ptr_t backend;
diff --git a/src/rotor/handler.cpp b/src/rotor/handler.cpp
index 88e57fa..f8b5a56 100644
--- a/src/rotor/handler.cpp
+++ b/src/rotor/handler.cpp
@@ -69,3 +69,7 @@ handler_ptr_t handler_intercepted_t::upgrade(const void *tag_) noexcept {
 }
 
 const void *handler_intercepted_t::message_type() const noexcept { return backend->message_type(); }
+
+bool handler_intercepted_t::same(const handler_base_t &other) const noexcept {
+    return this == &other || backend->same(other);
+}
diff --git a/src/rotor/subscription_point.cpp b/src/rotor/subscription_point.cpp
index 0cdee33..d65abc5 100644
--- a/src/rotor/subscription_point.cpp
+++ b/src/rotor/subscription_point.cpp
@@ -29,7 +29,16 @@ subscription_container_t::iterator subscription_container_t::find(const subscrip
     auto predicate = [&point](auto &info) {
         return *info->handler == *point.handler && info->address == point.address;
     };
-    auto rit = std::find_if(rbegin(), rend(), predicate);
+    auto exact_predicate = [&point](auto &info) {
+        auto &h1 = *info->handler;
+        auto &h2 = *point.handler;
+        return info->address == point.address && (h1.same(h2) || h2.same(h1));
+    };
+    // there might be a few similar points, e.g. when the old one is still unsubscribing
+    auto rit = std::find_if(rbegin(), rend(), exact_predicate);
+    if (rit == rend()) {
+        rit = std::find_if(rbegin(), rend(), predicate);
+    }
     if (rit == rend()) {
         return end();
     }
-- 
2.43.0


From c74ac64f5fb41ce5d3c91230932c0d4f31a43e2f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:52:32 +0000
Subject: [PATCH 21/33] fix: don't deliver a foreign message for a gone
 subscription, when the handler is subscribed again

---
 src/rotor/plugin/foreigners_support.cpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/rotor/plugin/foreigners_support.cpp b/src/rotor/plugin/foreigners_support.cpp
index b05a533..c810844 100644
--- a/src/rotor/plugin/foreigners_support.cpp
+++ b/src/rotor/plugin/foreigners_support.cpp
@@ -62,7 +62,9 @@ void foreigners_support_plugin_t::on_call(message::handler_call_t &message) noex
             auto lifetime = child_actor->access<to::lifetime>();
             if (lifetime) {
                 auto &points = lifetime->access<to::points>();
-                if (points.find(point) != points.end()) {
+                auto it = points.find(point);
+                // the handler of a gone subscription is not the same as the handler of it's successor
+                if (it != points.end() && (*it)->handler->same(*handler)) {
                     handler->call(orig_message);
                 }
             }
-- 
2.43.0


From 7dbe4b2c724230ae06f00829a1a69feda935c52a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:52:32 +0000
Subject: [PATCH 22/33] fix: forget the subscriptions of plugins, when they are
 unsubscribed before the shutdown

---
 src/rotor/plugin/plugin_base.cpp | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/src/rotor/plugin/plugin_base.cpp b/src/rotor/plugin/plugin_base.cpp
index bd5461f..5716b0e 100644
--- a/src/rotor/plugin/plugin_base.cpp
+++ b/src/rotor/plugin/plugin_base.cpp
@@ -15,11 +15,13 @@ namespace to {
 struct lifetime {};
 struct state {};
 struct make_error_code {};
+struct points {};
 } // namespace to
 } // namespace
 
 template <> auto &actor_base_t::access<to::lifetime>() noexcept { return lifetime; }
 template <> auto &actor_base_t::access<to::state>() noexcept { return state; }
+template <> auto &lifetime_plugin_t::access<to::points>() noexcept { return points; }
 template <>
 auto actor_base_t::access<to::make_error_code, const std::error_code &, const extended_error_ptr_t &,
                           const message_ptr_t &>(const std::error_code &ec, const extended_error_ptr_t &next,
@@ -66,9 +68,13 @@ bool plugin_base_t::forget_subscription(const subscription_point_t &point) noexc
     auto &subs = own_subscriptions;
     auto it = subs.find(point);
     if (it != subs.end()) {
-        auto &info = *it;
+        auto info = *it;
         assert(info->owner_tag == owner_tag_t::PLUGIN);
         forget_subscription(info);
+        auto lifetime = actor->access<to::lifetime>();
+        if (lifetime) {
+            lifetime->access<to::points>().remove(info);
+        }
         subs.erase(it);
         if (subs.empty()) {
             actor->commit_plugin_deactivation(*this);
-- 
2.43.0


From 98f5034394d5f990815edab5f96e1b2c25e3d11e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:21:26 +0000
Subject: [PATCH 23/33] fix: tell the original cause, when a supervisor goes
 down due to its child during the initialization

---
 src/rotor/plugin/child_manager.cpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/rotor/plugin/child_manager.cpp b/src/rotor/plugin/child_manager.cpp
index ed525cf..79439b1 100644
--- a/src/rotor/plugin/child_manager.cpp
+++ b/src/rotor/plugin/child_manager.cpp
@@ -99,18 +99,19 @@ void child_manager_plugin_t::remove_child(const actor_base_t &child) noexcept {
     auto &state = actor->access<to::state>();
     auto sup = static_cast<supervisor_t *>(actor);
 
+    auto child_reason = info.actor->get_shutdown_reason();
     auto supervisor_reason = extended_error_ptr_t{};
     if (state == state_t::INITIALIZING) {
         if (!child_started) {
             auto &policy = sup->access<to::policy>();
             if (policy == supervisor_policy_t::shutdown_failed) {
                 auto ec = make_error_code(shutdown_code_t::child_down);
-                supervisor_reason = make_error(ec);
+                supervisor_reason = make_error(ec, child_reason);
             } else {
                 auto &init_request = actor->access<to::init_request>();
                 if (init_request) {
                     auto ec = make_error_code(error_code_t::failure_escalation);
-                    actor->reply_with_error(*init_request, make_error(ec, {}, init_request));
+                    actor->reply_with_error(*init_request, make_error(ec, child_reason, init_request));
                     init_request.reset();
                 }
             }
@@ -122,7 +123,6 @@ void child_manager_plugin_t::remove_child(const actor_base_t &child) noexcept {
     }
 
     cancel_init(&child);
-    auto child_reason = info.actor->get_shutdown_reason();
     bool erase_spawner = true;
     static_cast<supervisor_t &>(*actor).access<to::alive_actors>().erase(&child);
 
-- 
2.43.0


From 86a679a56102d75f6e7ce004a221922f205cf0f6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:24:15 +0000
Subject: [PATCH 24/33] fix: shutdown_self: a child, which shuts down during
 the initialization of its supervisor, is a failure in any order of messages

---
 src/rotor/plugin/child_manager.cpp | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/src/rotor/plugin/child_manager.cpp b/src/rotor/plugin/child_manager.cpp
index 79439b1..077732e 100644
--- a/src/rotor/plugin/child_manager.cpp
+++ b/src/rotor/plugin/child_manager.cpp
@@ -456,6 +456,7 @@ void child_manager_plugin_t::handle_start(message::start_trigger_t *trigger) noe
 }
 
 bool child_manager_plugin_t::has_initializing() const noexcept {
+    auto &policy = static_cast<supervisor_t *>(actor)->access<to::policy>();
     auto init_predicate = [&](auto &it) {
         auto &info = *it.second;
         auto &child = info.actor;
@@ -463,8 +464,10 @@ bool child_manager_plugin_t::has_initializing() const noexcept {
             return false;
         }
         auto &state = child->template access<to::state>();
-        bool still_initializing =
-            (it.first != actor->get_address()) && (state <= state_t::INITIALIZING) && !info.initialized;
+        /* the child, which shuts down without being initialized, is a failure; the policy is applied when it is down */
+        bool failing = (state >= state_t::SHUTTING_DOWN) && (policy == supervisor_policy_t::shutdown_self);
+        bool unsettled = (state <= state_t::INITIALIZING) || failing;
+        bool still_initializing = (it.first != actor->get_address()) && unsettled && !info.initialized;
         return still_initializing;
     };
     bool has_any = std::any_of(actors_map.begin(), actors_map.end(), init_predicate);
-- 
2.43.0


From 01bd7a0b49099f21e913584aae838212100551b6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:06:09 +0000
Subject: [PATCH 25/33] fix: registry answers the pending promises, when it
 shuts down

---
 include/rotor/registry.h |  5 +++++
 src/rotor/registry.cpp   | 20 ++++++++++++++++++++
 2 files changed, 25 insertions(+)

diff --git a/include/rotor/registry.h b/include/rotor/registry.h
index 2e37171..4cc4f2e 100644
--- a/include/rotor/registry.h
+++ b/include/rotor/registry.h
@@ -48,6 +48,8 @@ struct ROTOR_API registry_t : public actor_base_t {
 
     void configure(plugin::plugin_base_t &plugin) noexcept override;
 
+    void shutdown_start() noexcept override;
+
     /** \brief registers address on the service. Fails, if the name already exists */
     virtual void on_reg(message::registration_request_t &request) noexcept;
 
@@ -85,6 +87,9 @@ struct ROTOR_API registry_t : public actor_base_t {
     /** \brief service address to registered names mapping type */
     using reverse_map_t = std::unordered_map<address_ptr_t, registered_names_t>;
 
+    /** \brief answers the promise with error, i.e. the name will not be discovered */
+    void reject(message::discovery_promise_t &request) noexcept;
+
     /** \brief name-to-address mapping */
     registered_map_t registered_map;
 
diff --git a/src/rotor/registry.cpp b/src/rotor/registry.cpp
index 80cb43d..a9ccd79 100644
--- a/src/rotor/registry.cpp
+++ b/src/rotor/registry.cpp
@@ -24,6 +24,21 @@ void registry_t::configure(plugin::plugin_base_t &plug) noexcept {
         plugin::config_phase_t::PREINIT);
 }
 
+void registry_t::shutdown_start() noexcept {
+    actor_base_t::shutdown_start();
+    /* nobody is going to answer later */
+    for (auto &request : promises) {
+        reject(*request);
+    }
+    promises.clear();
+}
+
+void registry_t::reject(message::discovery_promise_t &request) noexcept {
+    auto &name = request.payload.request_payload.service_name;
+    auto ec = make_error_code(error_code_t::cancelled);
+    reply_with_error(request, ::make_error(name, ec, {}, &request));
+}
+
 void registry_t::on_reg(message::registration_request_t &request) noexcept {
     auto &name = request.payload.request_payload.service_name;
     if (registered_map.find(name) != registered_map.end()) {
@@ -96,6 +111,11 @@ void registry_t::on_promise(message::discovery_promise_t &request) noexcept {
         return;
     }
 
+    if (state > state_t::OPERATIONAL) {
+        reject(request);
+        return;
+    }
+
     promises.emplace_back(&request);
 }
 
-- 
2.43.0


From f744ea3c92090a1869d7143ee4dfeb78a8af700f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:08:34 +0000
Subject: [PATCH 26/33] fix: a discovered name, which waits for the link, is
 not cancelled in the registry upon shutdown

---
 src/rotor/plugin/registry.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/rotor/plugin/registry.cpp b/src/rotor/plugin/registry.cpp
index 2e7d12e..8fddab7 100644
--- a/src/rotor/plugin/registry.cpp
+++ b/src/rotor/plugin/registry.cpp
@@ -249,9 +249,11 @@ void registry_plugin_t::discovery_task_t::on_discovery(address_ptr_t *service_ad
                     plugin->on_service_link(address, ec);
                 });
                 aliases.emplace(*address, names_t{service_name});
+                state = state_t::LINKING;
                 return;
             } else if (!it->second.empty()) {
                 it->second.emplace_back(service_name);
+                state = state_t::LINKING;
                 return;
             }
             /* already linked */
-- 
2.43.0


From 93279dc56e6bb29f8efb1f792e3632f75953560e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:15:17 +0000
Subject: [PATCH 27/33] fix: a nested supervisor discarded a request of its own
 with the id of its init-request

---
 src/rotor/plugin/child_manager.cpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/rotor/plugin/child_manager.cpp b/src/rotor/plugin/child_manager.cpp
index 077732e..ff42c49 100644
--- a/src/rotor/plugin/child_manager.cpp
+++ b/src/rotor/plugin/child_manager.cpp
@@ -324,7 +324,9 @@ void child_manager_plugin_t::on_shutdown_fail(actor_base_t &actor_, const extend
 void child_manager_plugin_t::cancel_init(const actor_base_t *child) noexcept {
     auto &sup = static_cast<supervisor_t &>(*actor);
     auto &init_request = child->access<to::init_request>();
-    if (init_request) {
+    /* the init-request of the (non-root) supervisor itself belongs to its parent, which has its own ids */
+    bool own_request = (child != actor) || !sup.access<to::parent>();
+    if (init_request && own_request) {
         // options: answer instead of actor (easier, but unexpected message can be seen)
         // or forget the init-request.
         auto &timer_id = init_request->payload.id;
-- 
2.43.0


From cf025660a19db31495e64751087d314ce90b0233 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:46:01 +0000
Subject: [PATCH 28/33] fix: thread loop: a message enqueued to a child
 supervisor of the loop was never processed

---
 src/rotor/thread/supervisor_thread.cpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/rotor/thread/supervisor_thread.cpp b/src/rotor/thread/supervisor_thread.cpp
index 1f7ed2c..a5e133e 100644
--- a/src/rotor/thread/supervisor_thread.cpp
+++ b/src/rotor/thread/supervisor_thread.cpp
@@ -24,7 +24,9 @@ void supervisor_thread_t::shutdown() noexcept {
 
 void supervisor_thread_t::enqueue(message_ptr_t message) noexcept {
     auto ctx = static_cast<system_context_thread_t *>(context);
-    inbound_queue.push(message.detach());
+    // the loop takes the messages only from the locality leader
+    auto leader = static_cast<supervisor_thread_t *>(locality_leader);
+    leader->inbound_queue.push(message.detach());
     std::lock_guard<std::mutex> lock(ctx->mutex);
     ctx->cv.notify_one();
 }
-- 
2.43.0


From eaf5e74bd107ec30d910783969885fffb4350a7d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:46:01 +0000
Subject: [PATCH 29/33] fix: thread loop: timers fired early, were triggered
 twice or fired when cancelled

---
 include/rotor/thread/system_context_thread.h |  3 +++
 src/rotor/thread/system_context_thread.cpp   | 23 +++++++++++---------
 2 files changed, 16 insertions(+), 10 deletions(-)

diff --git a/include/rotor/thread/system_context_thread.h b/include/rotor/thread/system_context_thread.h
index da0cfde..af8aed2 100644
--- a/include/rotor/thread/system_context_thread.h
+++ b/include/rotor/thread/system_context_thread.h
@@ -90,6 +90,9 @@ struct ROTOR_THREAD_API system_context_thread_t : public system_context_t {
     /** \brief whether the context is intercepting blocking (I/O) handler */
     bool intercepting = false;
 
+    /** \brief whether the loop is running, i.e. the cached current time is maintained */
+    bool running = false;
+
     friend struct supervisor_thread_t;
 };
 
diff --git a/src/rotor/thread/system_context_thread.cpp b/src/rotor/thread/system_context_thread.cpp
index b420c07..518b00a 100644
--- a/src/rotor/thread/system_context_thread.cpp
+++ b/src/rotor/thread/system_context_thread.cpp
@@ -52,6 +52,8 @@ void system_context_thread_t::run() noexcept {
 
     auto total_us = poll_duration.total_microseconds();
     auto delta = time_units_t{total_us};
+    now = clock_t::now();
+    running = true;
     while (condition()) {
         root_sup.do_process();
         if (condition()) {
@@ -78,6 +80,7 @@ void system_context_thread_t::run() noexcept {
         }
     }
     root_sup.do_process();
+    running = false;
 }
 
 void system_context_thread_t::check() noexcept {
@@ -93,18 +96,20 @@ void system_context_thread_t::check() noexcept {
 
 void system_context_thread_t::update_time() noexcept {
     now = clock_t::now();
-    auto it = timer_nodes.begin();
-    while (it != timer_nodes.end() && it->deadline < now) {
-        auto actor_ptr = it->handler->owner;
-        actor_ptr->access<to::on_timer_trigger, request_id_t, bool>(it->handler->request_id, false);
-        it = timer_nodes.erase(it);
+    // the timer is forgotten before it is triggered, as the callback might start and cancel timers
+    while (!timer_nodes.empty() && timer_nodes.front().deadline < now) {
+        auto handler = timer_nodes.front().handler;
+        timer_nodes.pop_front();
+        auto actor_ptr = handler->owner;
+        actor_ptr->access<to::on_timer_trigger, request_id_t, bool>(handler->request_id, false);
     }
 }
 
 void system_context_thread_t::start_timer(const pt::time_duration &interval, timer_handler_base_t &handler) noexcept {
     if (intercepting)
         update_time();
-    auto deadline = now + time_units_t{interval.total_microseconds()};
+    // the cached time is outdated until the loop is running
+    auto deadline = (running ? now : clock_t::now()) + time_units_t{interval.total_microseconds()};
     auto it = timer_nodes.begin();
     for (; it != timer_nodes.end(); ++it) {
         if (deadline < it->deadline) {
@@ -115,14 +120,12 @@ void system_context_thread_t::start_timer(const pt::time_duration &interval, tim
 }
 
 void system_context_thread_t::cancel_timer(request_id_t timer_id) noexcept {
-    if (intercepting)
-        update_time();
     auto predicate = [&](auto &info) { return info.handler->request_id == timer_id; };
     auto it = std::find_if(timer_nodes.begin(), timer_nodes.end(), predicate);
     assert(it != timer_nodes.end() && "timer has been found");
-    auto &actor_ptr = it->handler->owner;
-    actor_ptr->access<to::on_timer_trigger, request_id_t, bool>(timer_id, true);
+    auto actor_ptr = it->handler->owner;
     timer_nodes.erase(it);
+    actor_ptr->access<to::on_timer_trigger, request_id_t, bool>(timer_id, true);
 }
 
 } // namespace rotor
-- 
2.43.0


From f19ea9508fea7d69f530ebd1858d6b92e0a956a7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:01:39 +0000
Subject: [PATCH 30/33] fix: a handler of an actor below a child supervisor
 could not be tagged

---
 src/rotor/subscription_point.cpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/rotor/subscription_point.cpp b/src/rotor/subscription_point.cpp
index d65abc5..9762eba 100644
--- a/src/rotor/subscription_point.cpp
+++ b/src/rotor/subscription_point.cpp
@@ -11,9 +11,11 @@ namespace rotor {
 
 namespace to {
 struct subscription_map {};
+struct locality_leader {};
 } // namespace to
 
 template <> auto &supervisor_t::access<to::subscription_map>() noexcept { return subscription_map; }
+template <> auto &supervisor_t::access<to::locality_leader>() noexcept { return locality_leader; }
 
 namespace tags {
 
@@ -48,7 +50,7 @@ subscription_container_t::iterator subscription_container_t::find(const subscrip
 void subscription_info_t::tag(const void *t) noexcept {
     auto new_handler = handler->upgrade(t);
     auto &sup = handler->actor_ptr->get_supervisor();
-    auto &sm = sup.access<to::subscription_map>();
+    auto &sm = sup.access<to::locality_leader>()->access<to::subscription_map>();
     sm.update(*this, new_handler);
 }
 
-- 
2.43.0


From 1993eefe617e34516382b9e23ce97f078e248329 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:16:57 +0000
Subject: [PATCH 31/33] fix: a routed message, delivered by several loops in
 parallel, was not routed further

---
 include/rotor/messages.hpp    | 22 ++++++++++++++++++++++
 include/rotor/supervisor.h    |  4 ++--
 src/rotor/messages.cpp        | 16 ++++++++++------
 src/rotor/plugin/delivery.cpp | 10 +++++++++-
 4 files changed, 43 insertions(+), 9 deletions(-)

diff --git a/include/rotor/messages.hpp b/include/rotor/messages.hpp
index 93f16d0..042015a 100644
--- a/include/rotor/messages.hpp
+++ b/include/rotor/messages.hpp
@@ -118,6 +118,25 @@ struct shutdown_request_t {
     extended_error_ptr_t reason;
 };
 
+/** \struct route_guard_t
+ *  \brief Routes a message to its next address, when it has been delivered by all loops.
+ *
+ * The guard is shared between all loops, which deliver the message. They might do it
+ * in parallel, and the last one, which releases the guard, routes the message further.
+ *
+ */
+struct ROTOR_API route_guard_t : public arc_base_t<route_guard_t> {
+    /** \brief constructs guard for the message with the next route */
+    explicit route_guard_t(const message_ptr_t &message_) noexcept : message{message_} {}
+    ~route_guard_t();
+
+    /** \brief The message to be routed */
+    message_ptr_t message;
+};
+
+/** \brief intrusive pointer for the route guard */
+using route_guard_ptr_t = intrusive_ptr_t<route_guard_t>;
+
 /** \struct handler_call_t
  *  \brief Message with this payload is forwarded to the handler's supervisor for
  * the delivery of the original message.
@@ -139,6 +158,9 @@ struct handler_call_t {
     /** \brief The handler (intrusive pointer) on some external supervisor,
      * which can process the original message */
     handler_ptr_t handler;
+
+    /** \brief The guard (intrusive pointer) of the original message, if it should be routed further */
+    route_guard_ptr_t route_guard;
 };
 
 /** \struct external_subscription_t
diff --git a/include/rotor/supervisor.h b/include/rotor/supervisor.h
index 16c5b7f..5240f82 100644
--- a/include/rotor/supervisor.h
+++ b/include/rotor/supervisor.h
@@ -455,7 +455,7 @@ template <> inline size_t delivery_plugin_t<plugin::local_delivery_t>::process()
             if (local_recipients) {
                 plugin::local_delivery_t::delivery(message, *local_recipients);
             }
-            if (message->next_route && message->use_count() == 1) {
+            if (message && message->next_route && message->use_count() == 1) {
                 auto sup = static_cast<supervisor_t *>(actor);
                 message->address = std::move(message->next_route);
                 sup->put(std::move(message));
@@ -482,7 +482,7 @@ template <> inline size_t delivery_plugin_t<plugin::inspected_local_delivery_t>:
             if (local_recipients) {
                 plugin::inspected_local_delivery_t::delivery(message, *local_recipients, stringifier);
             }
-            if (ptr->next_route && ptr->use_count() == 1) {
+            if (message && message->next_route && message->use_count() == 1) {
                 auto sup = static_cast<supervisor_t *>(actor);
                 message->address = std::move(message->next_route);
                 sup->put(std::move(message));
diff --git a/src/rotor/messages.cpp b/src/rotor/messages.cpp
index 971e3ed..dbf6db0 100644
--- a/src/rotor/messages.cpp
+++ b/src/rotor/messages.cpp
@@ -10,13 +10,17 @@
 
 namespace rotor::payload {
 
-handler_call_t::~handler_call_t() {
-    auto ptr = orig_message.get();
-    if (ptr && ptr->next_route && ptr->use_count() == 1) {
-        ptr->address = std::move(ptr->next_route);
-        auto &sup = handler->actor_ptr->get_supervisor();
-        sup.enqueue(std::move(orig_message));
+route_guard_t::~route_guard_t() {
+    if (message->next_route && message->use_count() == 1) {
+        message->address = std::move(message->next_route);
+        auto &sup = message->address->supervisor;
+        sup.enqueue(std::move(message));
     }
 }
 
+handler_call_t::~handler_call_t() {
+    // the guard should be the last one to hold the message
+    orig_message.reset();
+}
+
 } // namespace rotor::payload
diff --git a/src/rotor/plugin/delivery.cpp b/src/rotor/plugin/delivery.cpp
index ea8d6c7..c6b51a7 100644
--- a/src/rotor/plugin/delivery.cpp
+++ b/src/rotor/plugin/delivery.cpp
@@ -38,15 +38,23 @@ void delivery_plugin_base_t::activate(actor_base_t *actor_) noexcept {
 
 void local_delivery_t::delivery(message_ptr_t &message,
                                 const subscription_t::joint_handlers_t &local_recipients) noexcept {
+    payload::route_guard_ptr_t route_guard;
+    if (message->next_route && !local_recipients.external.empty()) {
+        route_guard.reset(new payload::route_guard_t(message));
+    }
     for (auto &handler : local_recipients.external) {
         auto &sup = handler->actor_ptr->get_supervisor();
         auto &address = sup.get_address();
-        auto wrapped_message = make_message<payload::handler_call_t>(address, message, handler);
+        auto wrapped_message = make_message<payload::handler_call_t>(address, message, handler, route_guard);
         sup.enqueue(std::move(wrapped_message));
     }
     for (auto &handler : local_recipients.internal) {
         handler->call(message);
     }
+    if (route_guard) {
+        // from now on the message might be delivered and routed by any loop
+        message.reset();
+    }
 }
 
 static int get_message_level(const message_base_t *message) noexcept {
-- 
2.43.0


From ce12aae37e528d6bb9b3c435a9649318ef0dacb2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:20:16 +0000
Subject: [PATCH 32/33] fix: ev: a child supervisor was used after its release
 in its wake up callback

---
 src/rotor/ev/supervisor_ev.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/rotor/ev/supervisor_ev.cpp b/src/rotor/ev/supervisor_ev.cpp
index 45c69f0..5723730 100644
--- a/src/rotor/ev/supervisor_ev.cpp
+++ b/src/rotor/ev/supervisor_ev.cpp
@@ -116,6 +116,8 @@ void supervisor_ev_t::do_cancel_timer(request_id_t timer_id) noexcept {
 }
 
 void supervisor_ev_t::on_async() noexcept {
+    // the (child) supervisor might be released, when its shutdown is processed
+    auto self = intrusive_ptr_t<supervisor_ev_t>(this);
     move_inbound_queue();
     auto leader = static_cast<supervisor_ev_t *>(locality_leader);
     auto &q = leader->queue;
-- 
2.43.0


From 4fe5b0b29ee454c512def93608cd01af6f4527ea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:22:52 +0000
Subject: [PATCH 33/33] fix: fltk: messages of several contexts got lost, the
 pending wake up used a released supervisor

---
 include/rotor/fltk/supervisor_fltk.h   |  5 +++++
 src/rotor/fltk/system_context_fltk.cpp | 20 ++++++++++++--------
 2 files changed, 17 insertions(+), 8 deletions(-)

diff --git a/include/rotor/fltk/supervisor_fltk.h b/include/rotor/fltk/supervisor_fltk.h
index 48bd29b..bb5c388 100644
--- a/include/rotor/fltk/supervisor_fltk.h
+++ b/include/rotor/fltk/supervisor_fltk.h
@@ -10,6 +10,8 @@
 #include "rotor/fltk/export.h"
 #include "rotor/fltk/supervisor_config_fltk.h"
 
+#include <atomic>
+#include <cstdint>
 #include <memory>
 #include <unordered_map>
 
@@ -81,6 +83,9 @@ struct ROTOR_FLTK_API supervisor_fltk_t : public supervisor_t {
 
     /** \brief timer id to timer pointer mapping */
     timers_map_t timers_map;
+
+    /** \brief amount of enqueued and not yet processed messages */
+    std::atomic_int32_t queue_counter{0};
 };
 
 } // namespace fltk
diff --git a/src/rotor/fltk/system_context_fltk.cpp b/src/rotor/fltk/system_context_fltk.cpp
index aeb6bd8..826c374 100644
--- a/src/rotor/fltk/system_context_fltk.cpp
+++ b/src/rotor/fltk/system_context_fltk.cpp
@@ -5,8 +5,7 @@
 //
 
 #include "rotor/fltk/system_context_fltk.h"
-#include "rotor/supervisor.h"
-#include <atomic>
+#include "rotor/fltk/supervisor_fltk.h"
 #include <cstdint>
 
 #include <FL/Fl.H>
@@ -18,18 +17,20 @@ namespace {
 namespace to {
 struct inbound_queue {};
 struct queue {};
+struct queue_counter {};
 } // namespace to
 } // namespace
 
 template <> inline auto &rotor::supervisor_t::access<to::inbound_queue>() noexcept { return inbound_queue; }
 template <> inline auto &rotor::supervisor_t::access<to::queue>() noexcept { return queue; }
 
-static std::atomic_int32_t queue_counter{0};
+template <> inline auto &rotor::fltk::supervisor_fltk_t::access<to::queue_counter>() noexcept { return queue_counter; }
 
 static void _callback(void *data) {
-    auto sup_raw = static_cast<supervisor_t *>(data);
-    auto &inbound = sup_raw->access<to::inbound_queue>();
-    auto &queue = sup_raw->access<to::queue>();
+    auto sup_raw = static_cast<supervisor_fltk_t *>(data);
+    auto &queue_counter = sup_raw->access<to::queue_counter>();
+    auto &inbound = sup_raw->supervisor_t::access<to::inbound_queue>();
+    auto &queue = sup_raw->supervisor_t::access<to::queue>();
     message_base_t *ptr;
     bool try_fetch = true;
     while (try_fetch) {
@@ -44,14 +45,17 @@ static void _callback(void *data) {
             try_fetch = queue_counter.fetch_sub(fetched) != fetched;
         }
     }
+    intrusive_ptr_release(sup_raw);
 }
 
 void system_context_fltk_t::enqueue(message_ptr_t message) noexcept {
-    auto sup = get_supervisor().get();
+    auto sup = static_cast<supervisor_fltk_t *>(get_supervisor().get());
     if (sup) {
-        auto &inbound = sup->access<to::inbound_queue>();
+        auto &queue_counter = sup->access<to::queue_counter>();
+        auto &inbound = sup->supervisor_t::access<to::inbound_queue>();
         inbound.push(message.detach());
         if (queue_counter.fetch_add(1) == 0) {
+            intrusive_ptr_add_ref(sup);
             Fl::awake(_callback, sup);
         }
     }
-- 
2.43.0

