From 6695fc6aeda5b4c77c8e1457390ca56eb56980f0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:40:14 +0000
Subject: [PATCH 01/54] fix: make select() and mpt::as_tuple valid C++17

select() used the value of a reference parameter in constant expressions, and
the rvalue overloads of mpt::as_tuple bound an rvalue reference to an lvalue,
so nothing that includes arpc/select.h compiled with a conforming compiler.
---
 src/arpc/mpt.h    |  8 ++++----
 src/arpc/select.h | 15 +++------------
 2 files changed, 7 insertions(+), 16 deletions(-)

diff --git a/src/arpc/mpt.h b/src/arpc/mpt.h
index ab703c1..362945c 100644
--- a/src/arpc/mpt.h
+++ b/src/arpc/mpt.h
@@ -465,11 +465,11 @@ constexpr decltype(auto) as_tuple(std::tuple<T...>& t) {
 }
 template <typename... T>
 constexpr decltype(auto) as_tuple(const std::tuple<T...>&& t) {
-  return t;
+  return std::move(t);
 }
 template <typename... T>
 constexpr decltype(auto) as_tuple(std::tuple<T...>&& t) {
-  return t;
+  return std::move(t);
 }
 
 /// \brief Convert a a pair value into a tuple value.
@@ -486,11 +486,11 @@ constexpr decltype(auto) as_tuple(std::pair<U, V>& t) {
 }
 template <typename U, typename V>
 constexpr decltype(auto) as_tuple(const std::pair<U, V>&& t) {
-  return t;
+  return std::move(t);
 }
 template <typename U, typename V>
 constexpr decltype(auto) as_tuple(std::pair<U, V>&& t) {
-  return t;
+  return std::move(t);
 }
 
 /// \brief Convert a tuple value into a `pack` value.
diff --git a/src/arpc/select.h b/src/arpc/select.h
index 6c9209f..0d30b9d 100644
--- a/src/arpc/select.h
+++ b/src/arpc/select.h
@@ -198,15 +198,6 @@ constexpr std::size_t pollfds_index(const std::tuple<Args...>& awaitables) {
   return pollfds_index_helper(awaitables, mpt::make_index_sequence<idx>{});
 }
 
-template <typename... Args>
-constexpr bool select_inputs_have_static_size(const std::tuple<Args...>& awaitables) {
-  return (... && select_input<Args>::has_static_size);
-}
-
-template <typename... Args>
-constexpr std::size_t select_inputs_static_size(const std::tuple<Args...>& awaitables) {
-  return (0 + ... + select_input<Args>::static_size);
-}
 template <typename... Args, std::size_t... ints>
 std::tuple<typename select_input<Args>::result_type...> make_select_result(
     std::tuple<Args...>& awaitables, const pollfd* pollfds, bool was_timeout,
@@ -226,9 +217,9 @@ void make_select_pollfds_helper(const std::tuple<Args...>& awaitables, pollfd* f
 
 template <typename... Args>
 auto make_select_pollfds(const std::tuple<Args...>& awaitables) {
-  if constexpr (select_inputs_have_static_size(awaitables)) {
-    constexpr std::size_t size = pollfds_index<sizeof...(Args)>(awaitables);
-    std::array<pollfd, size> res;
+  if constexpr ((... && select_input<Args>::has_static_size)) {
+    // Every statically sized input takes exactly one entry.
+    std::array<pollfd, sizeof...(Args)> res;
     make_select_pollfds_helper(awaitables, res.data(), mpt::make_index_sequence<sizeof...(Args)>{});
     return res;
   } else {
-- 
2.43.0


From 7e678cf2be1482b50b210bf81703d5dcc9bf48be Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:01:39 +0000
Subject: [PATCH 02/54] fix: check the context before running any other
 reaction in select()

When the context was cancelled while another awaitable was ready, select()
ran the other reaction and then threw, losing its effects (a mutex stayed
locked, an item taken from a queue vanished).
---
 src/arpc/select.h | 34 ++++++++++++++++++++--------------
 1 file changed, 20 insertions(+), 14 deletions(-)

diff --git a/src/arpc/select.h b/src/arpc/select.h
index 0d30b9d..e0f11ff 100644
--- a/src/arpc/select.h
+++ b/src/arpc/select.h
@@ -199,11 +199,12 @@ constexpr std::size_t pollfds_index(const std::tuple<Args...>& awaitables) {
 }
 
 template <typename... Args, std::size_t... ints>
-std::tuple<typename select_input<Args>::result_type...> make_select_result(
+std::tuple<typename select_input<mpt::element_type_t<ints, std::tuple<Args...>>>::result_type...>
+make_select_result(
     std::tuple<Args...>& awaitables, const pollfd* pollfds, bool was_timeout,
     std::chrono::milliseconds min_timeout, bool min_timeout_is_polling,
     mpt::index_sequence<ints...>) {
-  return {std::move(select_input<Args>::make_result(
+  return {std::move(select_input<mpt::element_type_t<ints, std::tuple<Args...>>>::make_result(
       mpt::at<ints>(awaitables), pollfds + pollfds_index<ints>(awaitables), was_timeout,
       min_timeout, min_timeout_is_polling))...};
 }
@@ -266,22 +267,27 @@ template <typename... Args>
     int pres = poll(fds.data(), fds.size(), min_timeout / std::chrono::milliseconds(1));
     if (pres < 0) throw_io_error("Error in select");
 
-    auto res(detail::make_select_result(a, fds.data(), pres == 0, min_timeout,
-                                        min_timeout_is_polling, mpt::make_index_sequence<n>{}));
+    // Check the context first, so that no other reaction has run, and no
+    // effects have been lost, if we throw because of it.
+    const pollfd* context_fds = fds.data() + detail::pollfds_index<n - 2>(a);
+    if (auto cancelled =
+            detail::make_one_select_result(mpt::at<n - 2>(a), context_fds[0], pres == 0,
+                                           min_timeout, min_timeout_is_polling)) {
+      *cancelled;
+    }
+    if (auto deadline_exceeded =
+            detail::make_one_select_result(mpt::at<n - 1>(a), context_fds[1], pres == 0,
+                                           min_timeout, min_timeout_is_polling)) {
+      *deadline_exceeded;
+    }
 
+    auto res(detail::make_select_result(a, fds.data(), pres == 0, min_timeout,
+                                        min_timeout_is_polling,
+                                        mpt::make_index_sequence<n - 2>{}));
     bool active = mpt::accumulate(false, res, [](bool so_far, const auto& val) {
       return so_far || detail::select_output<decltype(val)>::is_active(val);
     });
-    if (active) {
-      auto [cancelled, deadline_exceeded] = mpt::range<n - 2, n>(res);
-      if (cancelled) {
-        *cancelled;
-      }
-      if (deadline_exceeded) {
-        *deadline_exceeded;
-      }
-      return mpt::range<0, n - 2>(std::move(res));
-    }
+    if (active) return res;
 
     auto now = std::chrono::steady_clock::now();
     elapsed += std::chrono::duration_cast<std::chrono::milliseconds>(now - last);
-- 
2.43.0


From e5b75ea6349ac2a7b1421d16b8ed9c23664386a1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:04:51 +0000
Subject: [PATCH 03/54] fix: make flags usable from cancelled contexts

set() and reset() waited on the calling thread's context, so in a cancelled
context they threw, leaving the flag and whatever it signals (promises,
queues, child contexts) out of step.
---
 src/arpc/flag.cpp | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/arpc/flag.cpp b/src/arpc/flag.cpp
index e675b80..ac1adab 100644
--- a/src/arpc/flag.cpp
+++ b/src/arpc/flag.cpp
@@ -35,7 +35,9 @@ flag::flag() {
 void flag::set() {
   std::scoped_lock lock(mu_);
   if (!set_) {
-    pipe_[1].write("*", 1);
+    // The pipe never holds more than one byte, so this can't block. Don't go
+    // through select(), as flags also have to work in cancelled contexts.
+    pipe_[1].maybe_write("*", 1);
     set_ = true;
   }
 }
@@ -44,7 +46,7 @@ void flag::reset() {
   std::scoped_lock lock(mu_);
   if (set_) {
     char c;
-    pipe_[0].read(&c, 1);
+    pipe_[0].maybe_read(&c, 1);
     set_ = false;
   }
 }
-- 
2.43.0


From 318a6adb26a1f35cce838e278dbf9c9d277bcf5d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:04:51 +0000
Subject: [PATCH 04/54] fix: queue<T>::empty() returned the opposite

---
 src/arpc/queue.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/arpc/queue.h b/src/arpc/queue.h
index d9bfa59..b976658 100644
--- a/src/arpc/queue.h
+++ b/src/arpc/queue.h
@@ -50,7 +50,7 @@ class queue {
   size_type capacity() const { return max_size_; }
   bool empty() const {
     std::scoped_lock lock(mu_);
-    return data_.empty() == 0;
+    return data_.empty();
   }
   bool full() const {
     std::scoped_lock lock(mu_);
-- 
2.43.0


From d53f86630dfdc1c271a5db2a7d03325e6e1d808a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:08:02 +0000
Subject: [PATCH 05/54] fix: measure select() timeouts from the start of the
 call

Plain timeouts were restarted by every spurious wakeup (and polling ones
were not), and those longer than INT_MAX ms did not fit in poll()'s int.
---
 src/arpc/select.h | 63 ++++++++++++++++++++++++++++-------------------
 1 file changed, 37 insertions(+), 26 deletions(-)

diff --git a/src/arpc/select.h b/src/arpc/select.h
index e0f11ff..a355ec2 100644
--- a/src/arpc/select.h
+++ b/src/arpc/select.h
@@ -32,6 +32,7 @@
 #include <chrono>
 #include <cstddef>
 #include <exception>
+#include <limits>
 #include <tuple>
 #include <type_traits>
 #include <utility>
@@ -46,15 +47,30 @@ namespace arpc {
 
 namespace detail {
 
+// The longest time that can be passed to poll().
+constexpr std::chrono::milliseconds max_poll_timeout(std::numeric_limits<int>::max());
+
+// Plain timeouts count from the start of the select() call, whereas polling ones
+// start over each time around the loop.
+template <typename A>
+std::chrono::milliseconds remaining_timeout(const A& a, std::chrono::milliseconds elapsed) {
+  if (a.timeout() >= std::chrono::milliseconds::zero() && !a.for_polling()) {
+    return std::max(a.timeout() - elapsed, std::chrono::milliseconds::zero());
+  }
+  return a.timeout();
+}
+
 template <typename A>
 result_holder<typename A::return_type> make_one_select_result(A& a, const pollfd& fd,
                                                               bool was_timeout,
+                                                              std::chrono::milliseconds elapsed,
                                                               std::chrono::milliseconds min_timeout,
                                                               bool min_timeout_is_polling) {
   bool active;
   if (was_timeout) {
     active = (a.timeout() >= std::chrono::milliseconds::zero() &&
-              (a.timeout() <= min_timeout || (min_timeout_is_polling && a.for_polling())));
+              (remaining_timeout(a, elapsed) <= min_timeout ||
+               (min_timeout_is_polling && a.for_polling())));
   } else {
     active = (fd.revents != 0);
   }
@@ -96,22 +112,15 @@ struct select_input_helper<awaitable<T>> {
   static constexpr bool has_static_size = true;
   static constexpr std::size_t size(const awaitable<T>&) { return 1; }
   static result_type make_result(awaitable<T>& a, const pollfd* fd, bool was_timeout,
+                                 std::chrono::milliseconds elapsed,
                                  std::chrono::milliseconds min_timeout,
                                  bool min_timeout_is_polling) {
-    return make_one_select_result(a, *fd, was_timeout, min_timeout, min_timeout_is_polling);
+    return make_one_select_result(a, *fd, was_timeout, elapsed, min_timeout,
+                                  min_timeout_is_polling);
   }
   static void fill_fds(const awaitable<T>& a, pollfd* fds) { *fds = make_pollfd(a); }
   static auto timeout_info(const awaitable<T>& a, std::chrono::milliseconds elapsed) {
-    auto timeout = a.timeout();
-    bool is_polling = a.for_polling();
-
-    if (timeout >= std::chrono::milliseconds::zero()) {
-      if (is_polling) {
-        timeout = std::max(timeout - elapsed, std::chrono::milliseconds::zero());
-      }
-    }
-
-    return std::pair(timeout, is_polling);
+    return std::pair(remaining_timeout(a, elapsed), a.for_polling());
   }
 };
 
@@ -121,13 +130,15 @@ struct select_input_helper<std::vector<awaitable<T>>> {
   static constexpr bool has_static_size = false;
   static constexpr std::size_t size(const std::vector<awaitable<T>>& v) { return v.size(); }
   static result_type make_result(std::vector<awaitable<T>>& v, const pollfd* fd, bool was_timeout,
+                                 std::chrono::milliseconds elapsed,
                                  std::chrono::milliseconds min_timeout,
                                  bool min_timeout_is_polling) {
     result_type res;
     res.reserve(v.size());
     for (auto& a : v) {
       res.push_back(
-          make_one_select_result(a, *fd++, was_timeout, min_timeout, min_timeout_is_polling));
+          make_one_select_result(a, *fd++, was_timeout, elapsed, min_timeout,
+                                  min_timeout_is_polling));
     }
     return res;
   }
@@ -141,13 +152,10 @@ struct select_input_helper<std::vector<awaitable<T>>> {
     bool min_timeout_is_polling = false;
 
     for (const auto& a : v) {
-      auto timeout = a.timeout();
+      auto timeout = remaining_timeout(a, elapsed);
       bool is_polling = a.for_polling();
 
       if (timeout >= std::chrono::milliseconds::zero()) {
-        if (is_polling) {
-          timeout = std::max(timeout - elapsed, std::chrono::milliseconds::zero());
-        }
         if (min_timeout < std::chrono::milliseconds::zero() || timeout < min_timeout) {
           min_timeout = timeout;
           min_timeout_is_polling = is_polling;
@@ -202,11 +210,12 @@ template <typename... Args, std::size_t... ints>
 std::tuple<typename select_input<mpt::element_type_t<ints, std::tuple<Args...>>>::result_type...>
 make_select_result(
     std::tuple<Args...>& awaitables, const pollfd* pollfds, bool was_timeout,
-    std::chrono::milliseconds min_timeout, bool min_timeout_is_polling,
+    std::chrono::milliseconds elapsed, std::chrono::milliseconds min_timeout,
+    bool min_timeout_is_polling,
     mpt::index_sequence<ints...>) {
   return {std::move(select_input<mpt::element_type_t<ints, std::tuple<Args...>>>::make_result(
       mpt::at<ints>(awaitables), pollfds + pollfds_index<ints>(awaitables), was_timeout,
-      min_timeout, min_timeout_is_polling))...};
+      elapsed, min_timeout, min_timeout_is_polling))...};
 }
 
 template <typename... Args, std::size_t... ints>
@@ -243,7 +252,7 @@ template <typename... Args>
                                                                  current_context.wait_deadline());
 
   std::chrono::milliseconds elapsed = std::chrono::milliseconds::zero();
-  auto last = std::chrono::steady_clock::now();
+  auto start = std::chrono::steady_clock::now();
 
   do {
     // Find whether we have a timeout to apply, and whether it's a polling one.
@@ -262,6 +271,9 @@ template <typename... Args>
           return std::pair(min_timeout, min_timeout_is_polling);
         });
 
+    // Really long timeouts take several trips around the loop.
+    min_timeout = std::min(min_timeout, detail::max_poll_timeout);
+
     auto fds(detail::make_select_pollfds(a));
 
     int pres = poll(fds.data(), fds.size(), min_timeout / std::chrono::milliseconds(1));
@@ -271,17 +283,17 @@ template <typename... Args>
     // effects have been lost, if we throw because of it.
     const pollfd* context_fds = fds.data() + detail::pollfds_index<n - 2>(a);
     if (auto cancelled =
-            detail::make_one_select_result(mpt::at<n - 2>(a), context_fds[0], pres == 0,
+            detail::make_one_select_result(mpt::at<n - 2>(a), context_fds[0], pres == 0, elapsed,
                                            min_timeout, min_timeout_is_polling)) {
       *cancelled;
     }
     if (auto deadline_exceeded =
-            detail::make_one_select_result(mpt::at<n - 1>(a), context_fds[1], pres == 0,
+            detail::make_one_select_result(mpt::at<n - 1>(a), context_fds[1], pres == 0, elapsed,
                                            min_timeout, min_timeout_is_polling)) {
       *deadline_exceeded;
     }
 
-    auto res(detail::make_select_result(a, fds.data(), pres == 0, min_timeout,
+    auto res(detail::make_select_result(a, fds.data(), pres == 0, elapsed, min_timeout,
                                         min_timeout_is_polling,
                                         mpt::make_index_sequence<n - 2>{}));
     bool active = mpt::accumulate(false, res, [](bool so_far, const auto& val) {
@@ -289,9 +301,8 @@ template <typename... Args>
     });
     if (active) return res;
 
-    auto now = std::chrono::steady_clock::now();
-    elapsed += std::chrono::duration_cast<std::chrono::milliseconds>(now - last);
-    last = now;
+    elapsed = std::chrono::duration_cast<std::chrono::milliseconds>(
+        std::chrono::steady_clock::now() - start);
   } while (true);
 }
 
-- 
2.43.0


From fbd77afe091c4e3ebe7e90ea6060aec431cab08c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:08:10 +0000
Subject: [PATCH 06/54] fix: do not fail select() when a signal interrupts
 poll()

---
 src/arpc/select.h | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/src/arpc/select.h b/src/arpc/select.h
index a355ec2..4396342 100644
--- a/src/arpc/select.h
+++ b/src/arpc/select.h
@@ -27,6 +27,7 @@
 #else  // ESP_PLATFORM
 #include <sys/poll.h>
 #endif  // ESP_PLATFORM
+#include <errno.h>
 #include <algorithm>
 #include <array>
 #include <chrono>
@@ -277,7 +278,13 @@ template <typename... Args>
     auto fds(detail::make_select_pollfds(a));
 
     int pres = poll(fds.data(), fds.size(), min_timeout / std::chrono::milliseconds(1));
-    if (pres < 0) throw_io_error("Error in select");
+    if (pres < 0) {
+      if (errno != EINTR) throw_io_error("Error in select");
+      // Interrupted by a signal: just wait for whatever time is left.
+      elapsed = std::chrono::duration_cast<std::chrono::milliseconds>(
+          std::chrono::steady_clock::now() - start);
+      continue;
+    }
 
     // Check the context first, so that no other reaction has run, and no
     // effects have been lost, if we throw because of it.
-- 
2.43.0


From 36d5353ff2e0c781180b53f083c59312b1b45bba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:17:41 +0000
Subject: [PATCH 07/54] fix: make future::except() compile

---
 src/arpc/future.h | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/arpc/future.h b/src/arpc/future.h
index 0849b69..8fd5fd9 100644
--- a/src/arpc/future.h
+++ b/src/arpc/future.h
@@ -166,8 +166,8 @@ class future {
 
   template <typename E, typename CGF>
   auto except(CGF&& handler_fn) {
-    auto new_get_fn =
-        compose_catch<E>(std::move(get_fn_), std::move(handler_fn));
+    auto new_get_fn = compose_catch<E, detail::future_state_base&>(
+        std::move(get_fn_), std::move(handler_fn));
     using new_value_type =
         std::invoke_result_t<decltype(new_get_fn), detail::future_state_base&>;
     return future<new_value_type>(std::move(state_), std::move(new_get_fn));
@@ -253,8 +253,8 @@ class future<void> {
 
   template <typename E, typename CGF>
   auto except(CGF&& handler_fn) {
-    auto new_get_fn =
-        compose_catch<E>(std::move(get_fn_), std::move(handler_fn));
+    auto new_get_fn = compose_catch<E, detail::future_state_base&>(
+        std::move(get_fn_), std::move(handler_fn));
     using new_value_type =
         std::invoke_result_t<decltype(new_get_fn), detail::future_state_base&>;
     return future<new_value_type>(std::move(state_), std::move(new_get_fn));
-- 
2.43.0


From ad03f015c6239033d8fc31605346e5537938f085 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:19:10 +0000
Subject: [PATCH 08/54] fix: make promise::set() hand its result over under the
 lock and signal it

---
 src/arpc/future.h | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/src/arpc/future.h b/src/arpc/future.h
index 8fd5fd9..62e2d51 100644
--- a/src/arpc/future.h
+++ b/src/arpc/future.h
@@ -75,7 +75,11 @@ class future_state : public future_state_base {
     set_.set();
   }
 
-  void set(result_holder<value_type>&& result) { result_ = std::move(result); }
+  void set(result_holder<value_type>&& result) {
+    std::scoped_lock lock(mu_);
+    result_ = std::move(result);
+    set_.set();
+  }
 
   value_type maybe_get() {
     std::scoped_lock lock(mu_);
@@ -107,7 +111,11 @@ class future_state<void> : public future_state_base {
     set_.set();
   }
 
-  void set(result_holder<value_type>&& result) { result_ = std::move(result); }
+  void set(result_holder<value_type>&& result) {
+    std::scoped_lock lock(mu_);
+    result_ = std::move(result);
+    set_.set();
+  }
 
   void maybe_get() {
     std::scoped_lock lock(mu_);
-- 
2.43.0


From e2b6cdd13641c0a9dae2898c53b09d54b9901fc5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:21:49 +0000
Subject: [PATCH 09/54] fix: lock the context data wherever it is read or
 written

---
 src/arpc/context.cpp | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/src/arpc/context.cpp b/src/arpc/context.cpp
index c79ec83..e82e695 100644
--- a/src/arpc/context.cpp
+++ b/src/arpc/context.cpp
@@ -43,6 +43,7 @@ context::context(context& parent, bool set_current, bool shield)
     if (!shield) {
       parent_->add_child(this);
     }
+    std::scoped_lock lock(parent_->data_mu_);
     deadline_ = parent_->deadline_;
     data_ = parent_->data_;
   }
@@ -144,19 +145,18 @@ void context::reset_all() {
 }
 
 std::vector<std::shared_ptr<const dynamic_base_class>> context::data() const {
+  std::scoped_lock lock(data_mu_);
   std::vector<std::shared_ptr<const dynamic_base_class>> res;
   res.reserve(data_.size());
-  {
-    std::scoped_lock lock(data_mu_);
-    for (auto it : data_) {
-      res.push_back(it.second);
-    }
+  for (auto it : data_) {
+    res.push_back(it.second);
   }
   return res;
 }
 
 void context::set_data(
     std::vector<std::shared_ptr<dynamic_base_class>>&& new_data) {
+  std::scoped_lock lock(data_mu_);
   data_.clear();
   for (auto it : new_data) {
     data_[it->portable_class_name()] =
-- 
2.43.0


From 4a223ceb5c62702b4de2fcc5c334a29d3cd165c1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:23:08 +0000
Subject: [PATCH 10/54] fix: notify a context's destructor before it may run

---
 src/arpc/context.cpp | 7 +++----
 1 file changed, 3 insertions(+), 4 deletions(-)

diff --git a/src/arpc/context.cpp b/src/arpc/context.cpp
index e82e695..548f5f5 100644
--- a/src/arpc/context.cpp
+++ b/src/arpc/context.cpp
@@ -79,10 +79,9 @@ void context::add_child(context* child) {
 }
 
 void context::remove_child(context* child) {
-  {
-    std::scoped_lock lock(children_mu_);
-    children_.erase(child);
-  }
+  // Notify with the lock held: once it's released we may be destroyed.
+  std::scoped_lock lock(children_mu_);
+  children_.erase(child);
   child_detached_.notify_one();
 }
 
-- 
2.43.0


From d546081d2c79e79a9002b92393c147d0feebce92 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:25:27 +0000
Subject: [PATCH 11/54] fix: do not lose thread pool tasks or wake-ups

---
 src/arpc/executor.cpp | 24 ++++++++++--------------
 src/arpc/executor.h   | 26 ++++++++++++--------------
 2 files changed, 22 insertions(+), 28 deletions(-)

diff --git a/src/arpc/executor.cpp b/src/arpc/executor.cpp
index a4f194b..1515c04 100644
--- a/src/arpc/executor.cpp
+++ b/src/arpc/executor.cpp
@@ -48,20 +48,16 @@ void thread_pool::request_work(promise<fn_type> slot) {
   while (true) {
     auto [have_pending_fn, have_slot_space] =
         select(pending_.can_get(), slots_.can_put());
-    try {
-      std::scoped_lock lock(mu_);
-      if (have_pending_fn) {
-        *have_pending_fn;
-        slot.set_value(pending_.maybe_get());
-        return;
-      }
-      if (have_slot_space) {
-        *have_slot_space;
-        slots_.maybe_put(std::move(slot));
-        return;
-      }
-    } catch (const errors::try_again&) {
-      // Just try again.
+
+    // See the comment in run().
+    std::scoped_lock lock(mu_);
+    if (!pending_.empty()) {
+      slot.set_value(pending_.maybe_get());
+      return;
+    }
+    if (!slots_.full()) {
+      slots_.maybe_put(std::move(slot));
+      return;
     }
   }
 }
diff --git a/src/arpc/executor.h b/src/arpc/executor.h
index e80cecb..4e2a879 100644
--- a/src/arpc/executor.h
+++ b/src/arpc/executor.h
@@ -55,20 +55,18 @@ class thread_pool {
     while (true) {
       auto [have_slot, have_pending_space] =
           select(slots_.can_get(), pending_.can_put());
-      try {
-        std::scoped_lock lock(mu_);
-        if (have_slot) {
-          *have_slot;
-          slots_.maybe_get().set_value(std::move(fn_type(std::forward<F>(f))));
-          return;
-        }
-        if (have_pending_space) {
-          *have_pending_space;
-          pending_.maybe_put(std::move(fn_type(std::forward<F>(f))));
-          return;
-        }
-      } catch (const errors::try_again&) {
-        // Just try again.
+
+      // Things may have changed since the select, so look again: a function must
+      // not be queued if there is a worker waiting for one, or the other way
+      // around, as nobody would wake them up.
+      std::scoped_lock lock(mu_);
+      if (!slots_.empty()) {
+        slots_.maybe_get().set_value(fn_type(std::forward<F>(f)));
+        return;
+      }
+      if (!pending_.full()) {
+        pending_.maybe_put(fn_type(std::forward<F>(f)));
+        return;
       }
     }
   }
-- 
2.43.0


From 609d9fc9855af7c6f6701b6ec3d0f55042a0aee1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:27:56 +0000
Subject: [PATCH 12/54] fix: synchronise usage_lock users with drop() and arm()

---
 src/arpc/usage_lock.h | 27 ++++++++++++++++++---------
 1 file changed, 18 insertions(+), 9 deletions(-)

diff --git a/src/arpc/usage_lock.h b/src/arpc/usage_lock.h
index 333d069..e2e3ed4 100644
--- a/src/arpc/usage_lock.h
+++ b/src/arpc/usage_lock.h
@@ -26,6 +26,7 @@
 #include <memory>
 #include <mutex>
 #include <string_view>
+#include <utility>
 #include "arpc/errors.h"
 
 namespace arpc {
@@ -45,35 +46,43 @@ class usage_lock {
 
   void arm(T* ptr) {
     std::scoped_lock arm_drop_lock(arm_drop_mu_);
-    ptr_.reset(ptr, [this](T*) {
-      {
-        std::scoped_lock lock(mu_);
-        done_ = true;
-      }
+    swap_ptr({ptr, [this](T*) {
+      // Notify with the lock held, as this object may be gone right afterwards.
+      std::scoped_lock lock(mu_);
+      done_ = true;
       done_cond_.notify_all();
-    });
+    }});
     std::scoped_lock lock(mu_);
     done_ = false;
   }
 
   void drop() {
     std::scoped_lock arm_drop_lock(arm_drop_mu_);
-    ptr_.reset();
+    swap_ptr(nullptr);
     std::unique_lock lock(mu_);
     done_cond_.wait(lock, [this]() { return done_; });
   }
 
   auto get() {
-    auto res = ptr_;
+    auto res = get_or_null();
     if (!res) {
       throw E(message_);
     }
     return res;
   }
 
-  auto get_or_null() { return ptr_; }
+  auto get_or_null() {
+    std::scoped_lock lock(mu_);
+    return ptr_;
+  }
 
  private:
+  // The previous reference is released without the lock, which its deleter needs.
+  void swap_ptr(std::shared_ptr<T> ptr) {
+    std::scoped_lock lock(mu_);
+    ptr_.swap(ptr);
+  }
+
   const char* const message_;
   std::shared_ptr<T> ptr_;
   std::mutex mu_, arm_drop_mu_;
-- 
2.43.0


From a5db476d9595ac423d77819dfab076b03d8709bb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:33:28 +0000
Subject: [PATCH 13/54] fix: keep channel_connection::flush() off a closed
 channel

---
 src/arpc/connection.cpp | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/arpc/connection.cpp b/src/arpc/connection.cpp
index 8586d23..6451652 100644
--- a/src/arpc/connection.cpp
+++ b/src/arpc/connection.cpp
@@ -73,7 +73,10 @@ void channel_connection::write(const char* data, std::size_t size) {
 
 void channel_connection::putc(char c) { connection::putc(c); }
 
-void channel_connection::flush() { channel_.flush(); }
+void channel_connection::flush() {
+  auto lock = locked_.get();
+  channel_.flush();
+}
 
 std::size_t channel_connection::read(char* data, std::size_t size) {
   auto lock = locked_.get();
-- 
2.43.0


From c4be153cf1ddaa9f194c3648d1b9dd92522b5076 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:33:44 +0000
Subject: [PATCH 14/54] fix: return the bytes read before the end of a
 channel_connection

---
 src/arpc/connection.cpp | 13 +++++++++----
 1 file changed, 9 insertions(+), 4 deletions(-)

diff --git a/src/arpc/connection.cpp b/src/arpc/connection.cpp
index 6451652..17dad7a 100644
--- a/src/arpc/connection.cpp
+++ b/src/arpc/connection.cpp
@@ -86,10 +86,15 @@ std::size_t channel_connection::read(char* data, std::size_t size) {
     auto [read, closing] =
         select(channel_.async_read(data, size), closing_.async_wait());
     if (read) {
-      if (*read == 0) break;
-      size -= *read;
-      data += *read;
-      total_read += *read;
+      try {
+        std::size_t num = *read;
+        size -= num;
+        data += num;
+        total_read += num;
+      } catch (const errors::eof&) {
+        // Report what was read before hitting EOF.
+        break;
+      }
     }
     if (closing)
       throw errors::io_error("Read interrupted by connection shutdown");
-- 
2.43.0


From fa122b37480fa3be521347f715e240516e18cd65 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:34:09 +0000
Subject: [PATCH 15/54] fix: retry I/O calls interrupted by a signal

---
 src/arpc/channel.cpp | 5 ++++-
 src/arpc/errors.cpp  | 2 +-
 2 files changed, 5 insertions(+), 2 deletions(-)

diff --git a/src/arpc/channel.cpp b/src/arpc/channel.cpp
index 429b324..5dc1e12 100644
--- a/src/arpc/channel.cpp
+++ b/src/arpc/channel.cpp
@@ -20,6 +20,7 @@
 ///   under the License.
 
 #include "arpc/channel.h"
+#include <errno.h>
 #include <fcntl.h>
 #include <signal.h>
 #include <unistd.h>
@@ -148,7 +149,9 @@ channel& channel::shutdown(bool read, bool write) {
 }
 
 awaitable<void> channel::async_connect(const address& addr) {
-  if (::connect(fd_, addr.address_data(), addr.address_size()))
+  // An interrupted connect() carries on in the background.
+  if (::connect(fd_, addr.address_data(), addr.address_size()) &&
+      errno != EINTR)
     throw_io_error("Error when connecting socket");
   return can_write().then(std::move([this]() {
     int err;
diff --git a/src/arpc/errors.cpp b/src/arpc/errors.cpp
index c1d2020..89365d2 100644
--- a/src/arpc/errors.cpp
+++ b/src/arpc/errors.cpp
@@ -64,7 +64,7 @@ void throw_io_error(const std::string& message, int code) {
     // This is just an ongoing non-blocking connection. Nothing to see here.
     return;
   }
-  if (code == EAGAIN || code == EWOULDBLOCK) {
+  if (code == EAGAIN || code == EWOULDBLOCK || code == EINTR) {
     throw errors::try_again("Try again");
   }
   throw errors::io_error(message + std::string(": ") + std::to_string(code));
-- 
2.43.0


From 1c2da4b0eaab1ccd982a523447734d32a58ec9f8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:38:10 +0000
Subject: [PATCH 16/54] fix: interrupt blocked users when disconnecting a
 reconnectable connection

---
 src/arpc/connection.cpp |  4 ++++
 src/arpc/connection.h   | 15 +++++++++++++--
 2 files changed, 17 insertions(+), 2 deletions(-)

diff --git a/src/arpc/connection.cpp b/src/arpc/connection.cpp
index 17dad7a..ffc75b4 100644
--- a/src/arpc/connection.cpp
+++ b/src/arpc/connection.cpp
@@ -32,6 +32,8 @@ void connection::connect() {
   throw errors::not_implemented("Constructor-only connection");
 }
 
+void connection::interrupt() {}
+
 packet_connection::~packet_connection() {}
 
 void packet_connection::connect() {
@@ -56,6 +58,8 @@ void channel_connection::disconnect() {
   channel_.close();
 }
 
+void channel_connection::interrupt() { closing_.set(); }
+
 void channel_connection::write(const char* data, std::size_t size) {
   auto lock = locked_.get();
 
diff --git a/src/arpc/connection.h b/src/arpc/connection.h
index 98e56bc..b129a30 100644
--- a/src/arpc/connection.h
+++ b/src/arpc/connection.h
@@ -52,6 +52,9 @@ class connection : public input_stream, public output_stream {
   /// Disconnect if the connection was active.
   virtual void disconnect() = 0;
 
+  /// Make any ongoing or later operations fail ahead of disconnecting.
+  virtual void interrupt();
+
   /// Check whether the connection is active.
   virtual bool connected() = 0;
 
@@ -80,7 +83,8 @@ class reconnectable_connection : public connection {
     std::scoped_lock lock(mu_);
     auto ptr = connection_.get_or_null();
     if (!ptr || !ptr->connected()) {
-      connection_.drop();
+      ptr.reset();
+      drop_connection();
       connection_factory_();
       connection_.arm(&*connection_storage_);
     }
@@ -88,7 +92,7 @@ class reconnectable_connection : public connection {
 
   void disconnect() override {
     std::scoped_lock lock(mu_);
-    connection_.drop();
+    drop_connection();
     connection_storage_.reset();
   }
 
@@ -119,6 +123,12 @@ class reconnectable_connection : public connection {
   }
 
  private:
+  void drop_connection() {
+    // Do not wait for users that may themselves be blocked forever.
+    if (auto ptr = connection_.get_or_null()) ptr->interrupt();
+    connection_.drop();
+  }
+
   std::optional<Connection> connection_storage_;
   usage_lock<Connection, errors::io_error> connection_{"Connection is closed"};
   std::mutex mu_;
@@ -179,6 +189,7 @@ class channel_connection : public connection {
   ~channel_connection() override;
   bool connected() override;
   void disconnect() override;
+  void interrupt() override;
   void write(const char* data, std::size_t size) override;
   void putc(char c) override;
   void flush() override;
-- 
2.43.0


From c098406860d7e7ff1e21c56f52dbedddc11f9aee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:42:14 +0000
Subject: [PATCH 17/54] fix: do not default construct an item to get one from a
 queue

---
 src/arpc/queue.h | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/src/arpc/queue.h b/src/arpc/queue.h
index b976658..96a86af 100644
--- a/src/arpc/queue.h
+++ b/src/arpc/queue.h
@@ -65,9 +65,8 @@ class queue {
   }
   value_type maybe_get() {
     std::scoped_lock lock(mu_);
-    value_type result;
     if (data_.size() == 0) throw errors::try_again("Queue is empty");
-    result = std::move(data_.front());
+    value_type result = std::move(data_.front());
     data_.pop();
     update_flags();
     return result;
-- 
2.43.0


From b37818ca30cda7ae7b53af357344de1052bb0652 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:43:18 +0000
Subject: [PATCH 18/54] fix: delete addresses as what they were allocated as

---
 src/arpc/address.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/arpc/address.cpp b/src/arpc/address.cpp
index 16aebb0..10289b3 100644
--- a/src/arpc/address.cpp
+++ b/src/arpc/address.cpp
@@ -108,7 +108,7 @@ address::address(address&& other)
 
 address::~address() {
   assert(ai_next == this);
-  delete ai_addr;
+  delete reinterpret_cast<struct sockaddr_storage*>(ai_addr);
 }
 
 int& address::family() { return ai_family; }
-- 
2.43.0


From ee01acf37b6cc9cfb3ebffe1d1bb7f2f9323cf86 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:07:55 +0000
Subject: [PATCH 19/54] fix: read sizes and ids of 128 and more as they were
 written

---
 src/arpc/binary_codecs.h | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/src/arpc/binary_codecs.h b/src/arpc/binary_codecs.h
index 3fd1c52..87e599a 100644
--- a/src/arpc/binary_codecs.h
+++ b/src/arpc/binary_codecs.h
@@ -26,6 +26,7 @@
 #include <cstddef>
 #include <cstdint>
 #include <iterator>
+#include <limits>
 #include <memory>
 #include <optional>
 #include <string>
@@ -594,11 +595,17 @@ class binary_decoder {
   // For convenience, this is always represented in little endian format.
   std::size_t read_variant() {
     std::size_t l = 0;
+    unsigned shift = 0;
     uint8_t o;
     do {
       (*this)(o);
-      l <<= 7;
-      l |= (static_cast<std::size_t>(o) & 0x7f);
+      const std::size_t bits = o & 0x7f;
+      if (shift >= std::numeric_limits<std::size_t>::digits ||
+          ((bits << shift) >> shift) != bits) {
+        throw errors::data_mismatch("Integer out of range in stream");
+      }
+      l |= bits << shift;
+      shift += 7;
     } while ((o & 0x80) != 0);
     return l;
   }
-- 
2.43.0


From 0dda33dca028480ca30aff72b5cbe77c7a3ab0f0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:07:55 +0000
Subject: [PATCH 20/54] fix: reject an empty byte-stuffed packet as damaged
 data

---
 src/arpc/packet_codecs.cpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/arpc/packet_codecs.cpp b/src/arpc/packet_codecs.cpp
index cf108c5..8cad1c4 100644
--- a/src/arpc/packet_codecs.cpp
+++ b/src/arpc/packet_codecs.cpp
@@ -119,6 +119,9 @@ void cobs_codec::encode(std::string& data) {
 }
 
 void cobs_codec::decode(std::string& data) {
+  if (data.empty()) {
+    throw errors::data_mismatch("Empty COBS-encoded data");
+  }
   auto src = data.begin();
   auto dst = data.begin();
   while (src < data.end()) {
-- 
2.43.0


From 816d64ae0973869db201b273448ff0d9778e26a1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:14:41 +0000
Subject: [PATCH 21/54] fix: let decoders read std::array without ambiguity

---
 src/arpc/binary_codecs.h | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/src/arpc/binary_codecs.h b/src/arpc/binary_codecs.h
index 87e599a..2d79739 100644
--- a/src/arpc/binary_codecs.h
+++ b/src/arpc/binary_codecs.h
@@ -103,8 +103,9 @@ class binary_encoder {
   // Tuples, pairs and bindable aggregates.
   template <typename T>
   std::enable_if_t<
-      (mpt::is_tuple_v<T> ||
-       traits::is_bindable_aggregate_v<T>)&&!traits::can_be_serialized_v<T>,
+      (mpt::is_tuple_v<T> || traits::is_bindable_aggregate_v<T>)&&!traits::
+              can_be_serialized_v<T> &&
+          !traits::is_iterable_v<T>,
       void>
   operator()(T& t) {
     mpt::for_each(mpt::as_tuple(t), tuple_element_saver(), *this);
@@ -467,8 +468,9 @@ class binary_decoder {
   // Tuples, pairs and bindable aggregates.
   template <typename T>
   std::enable_if_t<
-      (mpt::is_tuple_v<T> ||
-       traits::is_bindable_aggregate_v<T>)&&!traits::can_be_serialized_v<T>,
+      (mpt::is_tuple_v<T> || traits::is_bindable_aggregate_v<T>)&&!traits::
+              can_be_serialized_v<T> &&
+          !traits::is_iterable_v<T>,
       void>
   operator()(T& t) {
     mpt::for_each(mpt::as_tuple(t), tuple_element_loader(), *this);
-- 
2.43.0


From 927ae0ce94fb0dfd518b61f09768c064dd9285a7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:18:32 +0000
Subject: [PATCH 22/54] fix: reject bytes that are not valid booleans when
 decoding

---
 src/arpc/binary_codecs.h | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/src/arpc/binary_codecs.h b/src/arpc/binary_codecs.h
index 2d79739..d8c01ff 100644
--- a/src/arpc/binary_codecs.h
+++ b/src/arpc/binary_codecs.h
@@ -22,6 +22,7 @@
 #ifndef ARPC_BINARY_CODECS_H_
 #define ARPC_BINARY_CODECS_H_
 
+#include <algorithm>
 #include <chrono>
 #include <cstddef>
 #include <cstdint>
@@ -775,6 +776,14 @@ class binary_decoder {
   std::enable_if_t<!reverse_bytes || sizeof(T) == 1, void> read_block(
       T* p, std::size_t l) {
     in_.read_fully(reinterpret_cast<char*>(p), l * sizeof(T));
+    if constexpr (std::is_same_v<T, bool>) {
+      // Only two of the byte values are valid booleans.
+      auto* bytes = reinterpret_cast<unsigned char*>(p);
+      if (std::any_of(bytes, bytes + l, [](unsigned char b) { return b > 1; })) {
+        std::fill_n(bytes, l, 0);
+        throw errors::data_mismatch("Wrong boolean value in stream");
+      }
+    }
   }
 
   std::vector<seen_class_info> class_info_vector_;
-- 
2.43.0


From 45e09ebebdc7204ea240794433e873be07d97bc6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:18:32 +0000
Subject: [PATCH 23/54] fix: don't allocate memory for data that may never
 arrive when decoding

---
 src/arpc/binary_codecs.h | 22 ++++++++++++++++++----
 1 file changed, 18 insertions(+), 4 deletions(-)

diff --git a/src/arpc/binary_codecs.h b/src/arpc/binary_codecs.h
index d8c01ff..4094494 100644
--- a/src/arpc/binary_codecs.h
+++ b/src/arpc/binary_codecs.h
@@ -424,9 +424,16 @@ class binary_decoder {
       void>
   operator()(T& sequence) {
     std::size_t l = read_size();
-    // No need to reserve as we are setting the size directly.
-    sequence.resize(l);
-    read_sequence(std::data(sequence), l);
+    // No need to reserve as we are setting the size directly. Grow in bounded
+    // steps, as the size can't be trusted until the data shows up.
+    constexpr std::size_t step = max_unread_items_v<typename T::value_type>;
+    sequence.clear();
+    for (std::size_t done = 0; done < l;) {
+      const std::size_t items = std::min(l - done, step);
+      sequence.resize(done + items);
+      read_sequence(std::data(sequence) + done, items);
+      done += items;
+    }
   }
 
   // Containers where we need to read elements one by one and push_back them.
@@ -727,11 +734,18 @@ class binary_decoder {
   std::enable_if_t<!traits::has_custom_serialization_v<T>, void> invoke_load(
       T& o) {}
 
+  // How many items to allocate at most ahead of reading them.
+  template <typename T>
+  static constexpr std::size_t max_unread_items_v =
+      std::max<std::size_t>(1, 65536 / sizeof(T));
+
   // Reserve space in a container that supports a reserve method.
   template <typename T>
   std::enable_if_t<traits::can_reserve_capacity_v<T>, void> maybe_reserve(
       T& t, typename T::size_type l) {
-    t.reserve(l);
+    // The size can't be trusted until the data shows up.
+    t.reserve(std::min<typename T::size_type>(
+        l, max_unread_items_v<typename T::value_type>));
   }
 
   template <typename T>
-- 
2.43.0


From bb165274c65fe2a5f72fd9a3ba40667f1e2ab29f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:18:32 +0000
Subject: [PATCH 24/54] fix: reject references to objects that could not be
 decoded

---
 src/arpc/binary_codecs.h | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/src/arpc/binary_codecs.h b/src/arpc/binary_codecs.h
index 4094494..65cd86e 100644
--- a/src/arpc/binary_codecs.h
+++ b/src/arpc/binary_codecs.h
@@ -569,10 +569,12 @@ class binary_decoder {
       load_object_reference(p, update_pointer(object_info.ptr));
     } else {
       // Check for type compatibility.
-      if (object_info.type_id != registry::get_type_id<T>() ||
+      if (!object_info.ptr ||
+          object_info.type_id != registry::get_type_id<T>() ||
           !registry::check_dynamic_compatibility<T>(object_info.ptr.get())) {
-        // We recorded an incompatible type when we saw this object before,
-        // or the object's dynamic type can't be stored in this pointer.
+        // The object could not be created when we saw it before, we recorded
+        // an incompatible type then, or the object's dynamic type can't be
+        // stored in this pointer.
         throw errors::data_mismatch("Data shared among incompatible pointers");
       }
       // Cast the object reference we already had.
-- 
2.43.0


From d78fb92b838358c2e9c5241ea64cb4597b7ddca7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:23:02 +0000
Subject: [PATCH 25/54] fix: report output stream failures that only show when
 flushing

---
 src/arpc/iostream_adapters.cpp | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/src/arpc/iostream_adapters.cpp b/src/arpc/iostream_adapters.cpp
index 726d932..a5c7562 100644
--- a/src/arpc/iostream_adapters.cpp
+++ b/src/arpc/iostream_adapters.cpp
@@ -43,7 +43,13 @@ char istream_input_stream::getc() {
 
 ostream_output_stream::ostream_output_stream(std::ostream& os) : os_(os) {}
 
-ostream_output_stream::~ostream_output_stream() { flush(); }
+ostream_output_stream::~ostream_output_stream() {
+  try {
+    os_.flush();
+  } catch (...) {
+    // Nobody to report to; whoever cares has called flush() before.
+  }
+}
 
 void ostream_output_stream::write(const char* p, std::size_t l) {
   if (!os_.write(p, l)) throw errors::io_error("Bad output stream");
@@ -53,6 +59,8 @@ void ostream_output_stream::putc(char c) {
   if (!os_.put(c)) throw errors::io_error("Bad output stream");
 }
 
-void ostream_output_stream::flush() { os_.flush(); }
+void ostream_output_stream::flush() {
+  if (!os_.flush()) throw errors::io_error("Bad output stream");
+}
 
 }  // namespace arpc
-- 
2.43.0


From cf351e37246071916264355d20b5c125d8585a2a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:26:49 +0000
Subject: [PATCH 26/54] fix: refer to shared dynamic objects by their dynamic
 base when decoding

The decoder kept them as pointers to void made from whichever type was read,
and took those for pointers to dynamic_base_class later, which is wrong for
classes that have another polymorphic base before the dynamic one.
---
 src/arpc/binary_codecs.h | 14 ++++++++++++--
 1 file changed, 12 insertions(+), 2 deletions(-)

diff --git a/src/arpc/binary_codecs.h b/src/arpc/binary_codecs.h
index 65cd86e..4a60546 100644
--- a/src/arpc/binary_codecs.h
+++ b/src/arpc/binary_codecs.h
@@ -361,7 +361,12 @@ class binary_decoder {
     explicit update_pointer(std::shared_ptr<void>& ptr) : ptr_(ptr) {}
     template <typename T>
     void operator()(const std::shared_ptr<T>& ptr) {
-      ptr_ = ptr;
+      if constexpr (is_dynamic_v<T>) {
+        // The dynamic base might not be where the object starts.
+        ptr_ = std::static_pointer_cast<dynamic_base_class>(ptr);
+      } else {
+        ptr_ = ptr;
+      }
     }
 
    private:
@@ -578,7 +583,12 @@ class binary_decoder {
         throw errors::data_mismatch("Data shared among incompatible pointers");
       }
       // Cast the object reference we already had.
-      p = std::static_pointer_cast<T>(object_info.ptr);
+      if constexpr (is_dynamic_v<T>) {
+        p = std::static_pointer_cast<T>(
+            std::static_pointer_cast<dynamic_base_class>(object_info.ptr));
+      } else {
+        p = std::static_pointer_cast<T>(object_info.ptr);
+      }
     }
   }
 
-- 
2.43.0


From e97f4d723b5a65931c0dc427e1fdbc7e2a2224d0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:26:49 +0000
Subject: [PATCH 27/54] fix: identify shared dynamic objects by their dynamic
 base when encoding

The same object had different addresses when pointed to as classes with
different first bases, and was written more than once.
---
 src/arpc/binary_codecs.h | 16 ++++++++++++++--
 1 file changed, 14 insertions(+), 2 deletions(-)

diff --git a/src/arpc/binary_codecs.h b/src/arpc/binary_codecs.h
index 4a60546..628d421 100644
--- a/src/arpc/binary_codecs.h
+++ b/src/arpc/binary_codecs.h
@@ -163,11 +163,12 @@ class binary_encoder {
       return;
     }
 
-    auto it = shared_object_map_.find(p.get());
+    const void* address = object_address(*p);
+    auto it = shared_object_map_.find(address);
     bool first_time = false;
     if (it == shared_object_map_.end()) {
       std::size_t next_object_id = shared_object_map_.size();
-      it = shared_object_map_.emplace(p.get(), next_object_id).first;
+      it = shared_object_map_.emplace(address, next_object_id).first;
       first_time = true;
     }
     write_variant(it->second);
@@ -243,6 +244,17 @@ class binary_encoder {
     save_dynamic_object_reference(o);
   }
 
+  // Dynamic objects can be pointed to as any of their classes, so identify them
+  // by the one base that all of those share.
+  template <typename T>
+  static const void* object_address(const T& o) {
+    if constexpr (is_dynamic_v<T>) {
+      return static_cast<const ::arpc::dynamic_base_class*>(std::addressof(o));
+    } else {
+      return std::addressof(o);
+    }
+  }
+
   struct tuple_element_saver {
     template <typename T, typename S>
     void operator()(const T& v, S& s) {
-- 
2.43.0


From cdc3a97f244858e423c85c647a34fdd5a36a35d3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:26:49 +0000
Subject: [PATCH 28/54] fix: keep shared objects alive while an encoder knows
 them by address

An object created at the address of one that was written before and destroyed
since was taken for it.
---
 src/arpc/binary_codecs.h | 15 ++++++++++++---
 1 file changed, 12 insertions(+), 3 deletions(-)

diff --git a/src/arpc/binary_codecs.h b/src/arpc/binary_codecs.h
index 628d421..a245b0c 100644
--- a/src/arpc/binary_codecs.h
+++ b/src/arpc/binary_codecs.h
@@ -168,10 +168,12 @@ class binary_encoder {
     bool first_time = false;
     if (it == shared_object_map_.end()) {
       std::size_t next_object_id = shared_object_map_.size();
-      it = shared_object_map_.emplace(address, next_object_id).first;
+      it = shared_object_map_
+               .emplace(address, seen_object_info{next_object_id, p})
+               .first;
       first_time = true;
     }
-    write_variant(it->second);
+    write_variant(it->second.object_id);
     if (first_time) {
       save_object_reference(*p);
     }
@@ -191,6 +193,12 @@ class binary_encoder {
         encoder_function;
   };
 
+  struct seen_object_info {
+    std::size_t object_id;
+    // Keep the object alive, as another one could get its address otherwise.
+    std::shared_ptr<const void> ptr;
+  };
+
   // Save potentially short integers in a compact form.
   //
   // Use the highest bit in each byte to determine whether more bytes come
@@ -358,7 +366,8 @@ class binary_encoder {
   // Here we depend on portable_class_name() returning identical pointers for
   // speed.
   arpc::flat_map<std::string_view, seen_class_info> class_info_map_;
-  arpc::flat_map<const void*, std::size_t> shared_object_map_ = {{nullptr, 0}};
+  arpc::flat_map<const void*, seen_object_info> shared_object_map_ = {
+      {nullptr, seen_object_info{0, nullptr}}};
 
  protected:
   output_stream& out_;
-- 
2.43.0


From 3ff294d3d5108d9b5c609ee5cee5facee7118fbf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:32:38 +0000
Subject: [PATCH 29/54] fix: make emplace_hint() of flat sets and maps compile

---
 src/arpc/container/detail/flat_tree.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/arpc/container/detail/flat_tree.h b/src/arpc/container/detail/flat_tree.h
index e49787e..5e8e2fd 100644
--- a/src/arpc/container/detail/flat_tree.h
+++ b/src/arpc/container/detail/flat_tree.h
@@ -297,7 +297,7 @@ class flat_tree : protected std::vector<Value, Allocator> {
   }
   template <class... Args>
   iterator emplace_hint(const_iterator hint, Args&&... args) {
-    return insert(std::move(value_type(std::forward<Args>(args)...)));
+    return insert(hint, value_type(std::forward<Args>(args)...));
   }
 
   // erase
-- 
2.43.0


From dc95bc3e0fd8bdaea8e5a32ec843375027eadefc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:32:38 +0000
Subject: [PATCH 30/54] fix: move flat containers when constructing them from
 rvalues

They were copied.
---
 src/arpc/container/detail/flat_tree.h | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/src/arpc/container/detail/flat_tree.h b/src/arpc/container/detail/flat_tree.h
index 5e8e2fd..b9f17ef 100644
--- a/src/arpc/container/detail/flat_tree.h
+++ b/src/arpc/container/detail/flat_tree.h
@@ -202,10 +202,9 @@ class flat_tree : protected std::vector<Value, Allocator> {
       : underlying_container(static_cast<const underlying_container&>(other),
                              alloc) {}
   flat_tree(flat_tree&& other)
-      : underlying_container(static_cast<const underlying_container&&>(other)) {
-  }
+      : underlying_container(static_cast<underlying_container&&>(other)) {}
   flat_tree(flat_tree&& other, const Allocator& alloc)
-      : underlying_container(static_cast<const underlying_container&&>(other),
+      : underlying_container(static_cast<underlying_container&&>(other),
                              alloc) {}
   flat_tree(std::initializer_list<value_type> init,
             const Compare& comp = Compare(),
-- 
2.43.0


From 6cbd23f71447f1acc8dcdf45e3877bfa8694d41d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:33:37 +0000
Subject: [PATCH 31/54] fix: let flat containers keep their order when copied,
 moved or swapped

The elements were transferred, but not the comparator that they are sorted by.
---
 src/arpc/container/detail/flat_tree.h | 27 ++++++++++++++++++++++-----
 1 file changed, 22 insertions(+), 5 deletions(-)

diff --git a/src/arpc/container/detail/flat_tree.h b/src/arpc/container/detail/flat_tree.h
index b9f17ef..3dbd4e2 100644
--- a/src/arpc/container/detail/flat_tree.h
+++ b/src/arpc/container/detail/flat_tree.h
@@ -162,15 +162,24 @@ class flat_tree : protected std::vector<Value, Allocator> {
   using underlying_container::data;
 
   // swap.
-  void swap(flat_tree& other) { underlying_container::swap(other); }
+  void swap(flat_tree& other) {
+    using std::swap;
+    underlying_container::swap(other);
+    swap(comp_, other.comp_);
+    swap(eq_, other.eq_);
+  }
 
   // Assignment.
   flat_tree& operator=(const flat_tree& other) {
     underlying_container::operator=(other);
+    comp_ = other.comp_;
+    eq_ = other.eq_;
     return *this;
   }
   flat_tree& operator=(flat_tree&& other) {
     underlying_container::operator=(std::forward<flat_tree>(other));
+    comp_ = other.comp_;
+    eq_ = other.eq_;
     return *this;
   }
   flat_tree& operator=(std::initializer_list<value_type> ilist) {
@@ -197,15 +206,23 @@ class flat_tree : protected std::vector<Value, Allocator> {
     }
   }
   flat_tree(const flat_tree& other)
-      : underlying_container(static_cast<const underlying_container&>(other)) {}
+      : underlying_container(static_cast<const underlying_container&>(other)),
+        comp_(other.comp_),
+        eq_(other.eq_) {}
   flat_tree(const flat_tree& other, const Allocator& alloc)
       : underlying_container(static_cast<const underlying_container&>(other),
-                             alloc) {}
+                             alloc),
+        comp_(other.comp_),
+        eq_(other.eq_) {}
   flat_tree(flat_tree&& other)
-      : underlying_container(static_cast<underlying_container&&>(other)) {}
+      : underlying_container(static_cast<underlying_container&&>(other)),
+        comp_(other.comp_),
+        eq_(other.eq_) {}
   flat_tree(flat_tree&& other, const Allocator& alloc)
       : underlying_container(static_cast<underlying_container&&>(other),
-                             alloc) {}
+                             alloc),
+        comp_(other.comp_),
+        eq_(other.eq_) {}
   flat_tree(std::initializer_list<value_type> init,
             const Compare& comp = Compare(),
             const Allocator& alloc = Allocator())
-- 
2.43.0


From 86bc71c25a6cdcbb652de2508f4bd0467eb07756 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:36:45 +0000
Subject: [PATCH 32/54] fix: keep the first of several equivalent elements in
 flat sets and maps

As standard sets and maps do when constructed from or assigned a sequence; an
unstable sort left any of them in front.
---
 src/arpc/container/detail/flat_tree.h | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/arpc/container/detail/flat_tree.h b/src/arpc/container/detail/flat_tree.h
index 3dbd4e2..ebe15f7 100644
--- a/src/arpc/container/detail/flat_tree.h
+++ b/src/arpc/container/detail/flat_tree.h
@@ -184,7 +184,7 @@ class flat_tree : protected std::vector<Value, Allocator> {
   }
   flat_tree& operator=(std::initializer_list<value_type> ilist) {
     underlying_container::operator=(ilist);
-    std::sort(begin(), end(), comp_);
+    std::stable_sort(begin(), end(), comp_);
     if constexpr (!multiple_allowed) {
       this->erase(std::unique(begin(), end(), eq_), end());
     }
@@ -200,7 +200,7 @@ class flat_tree : protected std::vector<Value, Allocator> {
   flat_tree(InputIt first, InputIt last, const Compare& comp = Compare(),
             const Allocator& alloc = Allocator())
       : underlying_container(first, last, alloc), comp_(comp), eq_(comp) {
-    std::sort(begin(), end(), comp_);
+    std::stable_sort(begin(), end(), comp_);
     if constexpr (!multiple_allowed) {
       this->erase(std::unique(begin(), end(), eq_), end());
     }
@@ -227,7 +227,7 @@ class flat_tree : protected std::vector<Value, Allocator> {
             const Compare& comp = Compare(),
             const Allocator& alloc = Allocator())
       : underlying_container(init, alloc), comp_(comp), eq_(comp) {
-    std::sort(begin(), end(), comp_);
+    std::stable_sort(begin(), end(), comp_);
     if constexpr (!multiple_allowed) {
       this->erase(std::unique(begin(), end(), eq_), end());
     }
-- 
2.43.0


From 5ca74f0c0e9a82f565ac2df48f78f424495232c3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:34:26 +0000
Subject: [PATCH 33/54] fix: keep the comparator when assigning a list to a
 flat container

The assignment operator for initializer lists was hidden in the actual
container classes, so a container with a default comparator was assigned.
---
 src/arpc/container/flat_map.h | 8 ++++++++
 src/arpc/container/flat_set.h | 6 ++++++
 2 files changed, 14 insertions(+)

diff --git a/src/arpc/container/flat_map.h b/src/arpc/container/flat_map.h
index 06a7624..1e91f5a 100644
--- a/src/arpc/container/flat_map.h
+++ b/src/arpc/container/flat_map.h
@@ -49,6 +49,10 @@ class flat_map : public detail::flat_tree<Key, false, std::pair<Key, T>,
   using detail::flat_tree<Key, false, std::pair<Key, T>, Compare,
                           Allocator>::flat_tree;
 
+  // Inherit assignment from initializer lists.
+  using detail::flat_tree<Key, false, std::pair<Key, T>, Compare,
+                          Allocator>::operator=;
+
   // operator []
   T& operator[](const Key& key) {
     auto it = this->lower_bound(key);
@@ -101,6 +105,10 @@ class flat_multimap : public detail::flat_tree<Key, true, std::pair<Key, T>,
   // Inherit constructors.
   using detail::flat_tree<Key, true, std::pair<Key, T>, Compare,
                           Allocator>::flat_tree;
+
+  // Inherit assignment from initializer lists.
+  using detail::flat_tree<Key, true, std::pair<Key, T>, Compare,
+                          Allocator>::operator=;
 };
 
 }  // namespace arpc
diff --git a/src/arpc/container/flat_set.h b/src/arpc/container/flat_set.h
index 59b9cae..58e5680 100644
--- a/src/arpc/container/flat_set.h
+++ b/src/arpc/container/flat_set.h
@@ -41,6 +41,9 @@ class flat_set : public detail::flat_tree<Key, false, Key, Compare, Allocator> {
  public:
   // Inherit constructors.
   using detail::flat_tree<Key, false, Key, Compare, Allocator>::flat_tree;
+
+  // Inherit assignment from initializer lists.
+  using detail::flat_tree<Key, false, Key, Compare, Allocator>::operator=;
 };
 
 /// \brief `std::vector`-backed replacement for `std::multiset`.
@@ -57,6 +60,9 @@ class flat_multiset
  public:
   // Inherit constructors.
   using detail::flat_tree<Key, true, Key, Compare, Allocator>::flat_tree;
+
+  // Inherit assignment from initializer lists.
+  using detail::flat_tree<Key, true, Key, Compare, Allocator>::operator=;
 };
 
 }  // namespace arpc
-- 
2.43.0


From a1f86aec8f4a4687ad500ff5c9b369ff94677e04 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:34:26 +0000
Subject: [PATCH 34/54] fix: keep flat containers in order if assigning to them
 fails

The elements were copied one by one over those that were there.
---
 src/arpc/container/detail/flat_tree.h | 14 ++++++++++----
 1 file changed, 10 insertions(+), 4 deletions(-)

diff --git a/src/arpc/container/detail/flat_tree.h b/src/arpc/container/detail/flat_tree.h
index ebe15f7..2888296 100644
--- a/src/arpc/container/detail/flat_tree.h
+++ b/src/arpc/container/detail/flat_tree.h
@@ -171,7 +171,10 @@ class flat_tree : protected std::vector<Value, Allocator> {
 
   // Assignment.
   flat_tree& operator=(const flat_tree& other) {
-    underlying_container::operator=(other);
+    // Copy first, as copying might fail.
+    underlying_container elements(
+        static_cast<const underlying_container&>(other));
+    underlying_container::operator=(std::move(elements));
     comp_ = other.comp_;
     eq_ = other.eq_;
     return *this;
@@ -183,11 +186,14 @@ class flat_tree : protected std::vector<Value, Allocator> {
     return *this;
   }
   flat_tree& operator=(std::initializer_list<value_type> ilist) {
-    underlying_container::operator=(ilist);
-    std::stable_sort(begin(), end(), comp_);
+    // Copy first, as copying might fail.
+    underlying_container elements(ilist, get_allocator());
+    std::stable_sort(elements.begin(), elements.end(), comp_);
     if constexpr (!multiple_allowed) {
-      this->erase(std::unique(begin(), end(), eq_), end());
+      elements.erase(std::unique(elements.begin(), elements.end(), eq_),
+                     elements.end());
     }
+    underlying_container::operator=(std::move(elements));
     return *this;
   }
 
-- 
2.43.0


From 091230551c8cc28870db064f1cbd22df50307745 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:00:04 +0000
Subject: [PATCH 35/54] fix: remove server connections only once nothing uses
 them

---
 src/arpc/server.h | 58 +++++++++++++++++++++--------------------------
 1 file changed, 26 insertions(+), 32 deletions(-)

diff --git a/src/arpc/server.h b/src/arpc/server.h
index 8e1ef88..5e7fc07 100644
--- a/src/arpc/server.h
+++ b/src/arpc/server.h
@@ -185,7 +185,12 @@ class server {
       }
 
       return connection_->data_available().then([this]() {
-        can_receive_.reset();
+        {
+          // The connection may have failed since.
+          std::scoped_lock lock(mu_);
+          if (failed_receive_) return;
+          can_receive_.reset();
+        }
 
         server_.pool_.run([this]() {
           try {
@@ -232,7 +237,12 @@ class server {
       }
 
       return responses_.async_get().then([this](std::string response) {
-        can_send_.reset();
+        {
+          // The connection may have failed since.
+          std::scoped_lock lock(mu_);
+          if (failed_send_) return;
+          can_send_.reset();
+        }
 
         server_.pool_.run([this, response(std::move(response))]() mutable {
           try {
@@ -248,6 +258,8 @@ class server {
 
     awaitable<void> remove() {
       return can_remove_.async_wait().then([this]() {
+        // Whoever set the flag did it with the lock held.
+        { std::scoped_lock lock(mu_); }
         server_.acceptor_->return_connection(std::move(connection_));
         server_.connections_.erase(key_);
       });
@@ -256,38 +268,20 @@ class server {
     void add_response(std::string response) { responses_.put(std::move(response)); }
 
    private:
-    void receive_done(bool failed = false) {
-      bool removed = false;
-      {
-        std::scoped_lock lock(mu_);
-        if (failed) {
-          failed_receive_ = true;
-        }
-        if (failed_send_ || (can_send_ && failed)) {
-          failed_receive_ = true;
-          removed = true;
-        }
-        can_receive_.set();
-      }
-      if (removed) {
-        can_remove_.set();
-      }
-    }
+    void receive_done(bool failed = false) { done(can_receive_, can_send_, failed); }
 
-    void send_done(bool failed = false) {
-      bool removed = false;
-      {
-        std::scoped_lock lock(mu_);
-        if (failed) {
-          failed_send_ = true;
-        }
-        if (failed_receive_ || (can_receive_ && failed)) {
-          failed_send_ = true;
-          removed = true;
-        }
-        can_send_.set();
+    void send_done(bool failed = false) { done(can_send_, can_receive_, failed); }
+
+    // Once anything fails neither direction is used again, and the connection can
+    // be removed when both of them are idle.
+    void done(flag& finished, const flag& other, bool failed) {
+      std::scoped_lock lock(mu_);
+      if (failed) {
+        failed_receive_ = true;
+        failed_send_ = true;
       }
-      if (removed) {
+      finished.set();
+      if (failed_receive_ && other) {
         can_remove_.set();
       }
     }
-- 
2.43.0


From b6862a82e471975f195ce1472f41805ffb73ae27 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:01:56 +0000
Subject: [PATCH 36/54] fix: stop servers without pulling connections from
 under the thread pool

---
 src/arpc/server.h | 48 ++++++++++++++++++++++++++++++++++++++++-------
 1 file changed, 41 insertions(+), 7 deletions(-)

diff --git a/src/arpc/server.h b/src/arpc/server.h
index 5e7fc07..3b69a8e 100644
--- a/src/arpc/server.h
+++ b/src/arpc/server.h
@@ -165,7 +165,7 @@ class server {
 
   using connection_key = std::size_t;
   using connection_type = typename ConnectionProducer::connection_type;
-  class connection_wrapper {
+  class connection_wrapper : public std::enable_shared_from_this<connection_wrapper> {
    public:
     explicit connection_wrapper(server& server, connection_key key,
                                 std::unique_ptr<connection_type> connection)
@@ -192,7 +192,7 @@ class server {
           can_receive_.reset();
         }
 
-        server_.pool_.run([this]() {
+        server_.pool_.run([this, self(this->shared_from_this())]() {
           try {
             auto request = connection_->receive();
             string_input_stream request_is(request);
@@ -207,7 +207,7 @@ class server {
             switch (message_type) {
               case rpc_defs::message_type::REQUEST:
                 request.erase(0, request_is.pos());
-                server_.queue_request(request_key{key_, req_id}, request);
+                server_.queue_request(*this, request_key{key_, req_id}, request);
                 break;
               case rpc_defs::message_type::CANCEL_REQUEST:
                 server_.cancel_request(request_key{key_, req_id});
@@ -244,7 +244,8 @@ class server {
           can_send_.reset();
         }
 
-        server_.pool_.run([this, response(std::move(response))]() mutable {
+        server_.pool_.run([this, self(this->shared_from_this()),
+                           response(std::move(response))]() mutable {
           try {
             connection_->send(std::move(response));
 
@@ -267,6 +268,21 @@ class server {
 
     void add_response(std::string response) { responses_.put(std::move(response)); }
 
+    // Interrupts whatever still uses the connection and keeps it from being used again.
+    void close() {
+      {
+        std::scoped_lock lock(mu_);
+        failed_receive_ = true;
+        failed_send_ = true;
+      }
+      if (connection_) connection_->disconnect();
+    }
+
+    bool closed() {
+      std::scoped_lock lock(mu_);
+      return failed_receive_;
+    }
+
    private:
     void receive_done(bool failed = false) { done(can_receive_, can_send_, failed); }
 
@@ -295,7 +311,7 @@ class server {
     flag can_receive_, can_send_, can_remove_;
   };
 
-  using connection_map = flat_map<connection_key, std::unique_ptr<connection_wrapper>>;
+  using connection_map = flat_map<connection_key, std::shared_ptr<connection_wrapper>>;
 
   using request_key = std::pair<connection_key, rpc_defs::request_id_type>;
   using request_result = std::pair<request_key, std::string>;
@@ -340,9 +356,22 @@ class server {
     requests_.erase(key);
   }
 
-  void queue_request(const request_key& key, std::string request) {
+  void cancel_all_requests() {
     std::scoped_lock lock(requests_mu_);
 
+    for (auto& request : requests_) {
+      request.second->get_context().cancel();
+    }
+  }
+
+  void queue_request(connection_wrapper& connection, const request_key& key,
+                     std::string request) {
+    std::scoped_lock lock(requests_mu_);
+
+    if (connection.closed()) {
+      return;
+    }
+
     if (requests_.count(key) > 0) {
       // A previous request with the same key was already registered... dupe?
       // Just drop the new one.
@@ -516,7 +545,7 @@ class server {
             // Ensure we prevent connection counter cycle collisions.
           }
           connections_.insert(
-              {next_connection_key_, std::make_unique<connection_wrapper>(
+              {next_connection_key_, std::make_shared<connection_wrapper>(
                                          *this, next_connection_key_, std::move(new_connection))});
         });
   }
@@ -623,7 +652,12 @@ class server {
       reactor_.join();
     }
 
+    // The thread pool may still be working for the connections.
+    for (auto& connection : connections_) {
+      connection.second->close();
+    }
     connections_.clear();
+    cancel_all_requests();
 
     acceptor_.reset();
   }
-- 
2.43.0


From 40e9db5a38d968aa122a6c540b18943b9b751b09 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:07:30 +0000
Subject: [PATCH 37/54] fix: keep serving when connections cannot be accepted

---
 src/arpc/server.h | 15 ++++++++++++++-
 1 file changed, 14 insertions(+), 1 deletion(-)

diff --git a/src/arpc/server.h b/src/arpc/server.h
index 3b69a8e..f52a54f 100644
--- a/src/arpc/server.h
+++ b/src/arpc/server.h
@@ -108,10 +108,23 @@ class connection_producer {
   void produce() {
     while (true) {
       connections_given_.put();
-      output_.put(factory_());
+      std::unique_ptr<connection_type> connection;
+      try {
+        connection = factory_();
+      } catch (const errors::cancelled&) {
+        throw;
+      } catch (...) {
+        // The peer may be gone already, or we may be out of descriptors for now.
+        connections_given_.get();
+        auto [retry] = select(timeout(retry_delay));
+        continue;
+      }
+      output_.put(std::move(connection));
     }
   }
 
+  static constexpr auto retry_delay = std::chrono::milliseconds(10);
+
   std::mutex mu_;
   ConnectionFactory factory_;
   semaphore connections_given_{max_connections};
-- 
2.43.0


From d3400a77de00fb0fff6cea26669a677dc48a57c1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:10:17 +0000
Subject: [PATCH 38/54] fix: do not wait for a full thread pool from inside of
 it when serving requests

---
 src/arpc/server.h | 28 +++++++++++++++++++---------
 1 file changed, 19 insertions(+), 9 deletions(-)

diff --git a/src/arpc/server.h b/src/arpc/server.h
index f52a54f..3bc88c8 100644
--- a/src/arpc/server.h
+++ b/src/arpc/server.h
@@ -53,6 +53,7 @@
 #include "arpc/thread.h"
 #include "arpc/type_hash.h"
 #include "arpc/usage_lock.h"
+#include "function2/function2.hpp"
 
 namespace arpc {
 
@@ -169,6 +170,7 @@ class server {
   using method_fn = std::function<std::string(rpc_defs::request_id_type, std::string)>;
   using method_fn_key = std::tuple<std::string, traits::type_hash_t>;
   using method_fn_map = flat_map<method_fn_key, method_fn>;
+  using request_fn = fu2::unique_function<void()>;
 
   struct object_entry {
     std::shared_ptr<void> ref;
@@ -205,7 +207,8 @@ class server {
           can_receive_.reset();
         }
 
-        server_.pool_.run([this, self(this->shared_from_this())]() {
+        server_.pool_.run([this, self(this->shared_from_this())]() mutable {
+          request_fn run_request;
           try {
             auto request = connection_->receive();
             string_input_stream request_is(request);
@@ -220,7 +223,8 @@ class server {
             switch (message_type) {
               case rpc_defs::message_type::REQUEST:
                 request.erase(0, request_is.pos());
-                server_.queue_request(*this, request_key{key_, req_id}, request);
+                run_request = server_.queue_request(*this, request_key{key_, req_id},
+                                                    std::move(request));
                 break;
               case rpc_defs::message_type::CANCEL_REQUEST:
                 server_.cancel_request(request_key{key_, req_id});
@@ -235,6 +239,11 @@ class server {
           } catch (...) {
             receive_done(true);
           }
+
+          // Run the request right here, as waiting for space in the queue of the thread
+          // pool that is running us might never end.
+          self.reset();
+          if (run_request) run_request();
         });
       });
     }
@@ -377,34 +386,35 @@ class server {
     }
   }
 
-  void queue_request(connection_wrapper& connection, const request_key& key,
-                     std::string request) {
+  request_fn queue_request(connection_wrapper& connection, const request_key& key,
+                           std::string request) {
     std::scoped_lock lock(requests_mu_);
 
     if (connection.closed()) {
-      return;
+      return nullptr;
     }
 
     if (requests_.count(key) > 0) {
       // A previous request with the same key was already registered... dupe?
       // Just drop the new one.
-      return;
+      return nullptr;
     }
 
     promise<request_result> promise;
     auto wrapper_ptr = std::make_unique<request_wrapper>(*this, promise.get_future());
 
-    pool_.run([this, promise(std::move(promise)), key, request(std::move(request)),
-               &parent_context(wrapper_ptr->get_context())]() mutable {
+    request_fn res = [this, promise(std::move(promise)), key, request(std::move(request)),
+                      &parent_context(wrapper_ptr->get_context())]() mutable {
       try {
         context ctx(parent_context);
         promise.set_value(request_result{key, std::move(execute(key.second, std::move(request)))});
       } catch (...) {
         promise.set_exception(std::current_exception());
       }
-    });
+    };
 
     requests_.insert({key, std::move(wrapper_ptr)});
+    return res;
   }
 
   template <typename Interface>
-- 
2.43.0


From aea86e66a87c1d73bcdd82093d863846301ebd93 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:10:50 +0000
Subject: [PATCH 39/54] fix: let calls be given up in cancelled contexts

---
 src/arpc/client.h | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/arpc/client.h b/src/arpc/client.h
index c6208f0..c59d50e 100644
--- a/src/arpc/client.h
+++ b/src/arpc/client.h
@@ -26,6 +26,7 @@
 #include <chrono>
 #include <cstddef>
 #include <exception>
+#include <mutex>
 #include <optional>
 #include <sstream>
 #include <string>
@@ -404,7 +405,9 @@ class client_connection {
     }
   }
 
-  mutex pending_mu_, sending_mu_;
+  // Never waits for long, and has to work from cancelled contexts.
+  std::mutex pending_mu_;
+  mutex sending_mu_;
   rpc_defs::request_id_type sequence_;
   flag ready_;
   connection_type connection_;
-- 
2.43.0


From 55e0d485acd367dda61dc424f86d29df7ea7f0d6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:12:48 +0000
Subject: [PATCH 40/54] fix: tell calls in flight when sending another one
 breaks their connection

---
 src/arpc/client.h | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/src/arpc/client.h b/src/arpc/client.h
index c59d50e..9140c5e 100644
--- a/src/arpc/client.h
+++ b/src/arpc/client.h
@@ -273,8 +273,15 @@ class client_connection {
       ready_.set();
     } catch (...) {
       // Disconnect the connection.
+      bool was_ready = ready_.is_set();
       ready_.reset();
       connection_.disconnect();
+      if (was_ready) {
+        // The receiver may not have got to use the connection at all, so tell
+        // the requests already sent over it that they won't get any response.
+        broadcast_exception(std::make_exception_ptr(
+            errors::io_error("Connection is closed")));
+      }
       throw;
     }
   }
-- 
2.43.0


From 00c5256f12f6fdcb8855fdeb6742bf4c6f147003 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:14:00 +0000
Subject: [PATCH 41/54] fix: let no cancellation hold up the deadlines of other
 calls

---
 src/arpc/client.h | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/src/arpc/client.h b/src/arpc/client.h
index 9140c5e..ed514cf 100644
--- a/src/arpc/client.h
+++ b/src/arpc/client.h
@@ -403,8 +403,14 @@ class client_connection {
           // Request ID.
           encoder(req_id);
         }
-        // Send the cancellation request. Ignore errors.
+        // Send the cancellation request. Ignore errors, and don't let it make us
+        // miss any deadline.
         try {
+          context ctx;
+          earliest_deadline = get_earliest_deadline();
+          if (earliest_deadline) {
+            ctx.set_deadline(*earliest_deadline);
+          }
           send(cancel_request);
         } catch (...) {
         }
-- 
2.43.0


From a29ff35f4552d77b74cc4bc15b08229ace127d9e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:17:09 +0000
Subject: [PATCH 42/54] fix: unlock mutexes without creating descriptors

---
 src/arpc/mutex.cpp | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/arpc/mutex.cpp b/src/arpc/mutex.cpp
index f807d12..7403c6a 100644
--- a/src/arpc/mutex.cpp
+++ b/src/arpc/mutex.cpp
@@ -56,8 +56,9 @@ bool mutex::try_lock() {
 }
 
 void mutex::unlock() {
-  shield shield;
-  pipe_[1].write("*", 1);
+  // The pipe never holds more than one byte, so this can't block. Don't go
+  // through select(), so that it can't fail either.
+  pipe_[1].maybe_write("*", 1);
 }
 
 awaitable<void> mutex::can_lock() { return pipe_[0].can_read(); }
-- 
2.43.0


From f0df518ef4ac1859cd0181f9abf4af65328f309a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:17:09 +0000
Subject: [PATCH 43/54] fix: keep thread pool workers running when out of
 descriptors

---
 src/arpc/executor.cpp | 15 ++++++++++++---
 1 file changed, 12 insertions(+), 3 deletions(-)

diff --git a/src/arpc/executor.cpp b/src/arpc/executor.cpp
index 1515c04..1425b76 100644
--- a/src/arpc/executor.cpp
+++ b/src/arpc/executor.cpp
@@ -20,6 +20,8 @@
 ///   under the License.
 
 #include "arpc/executor.h"
+#include <chrono>
+#include "arpc/select.h"
 
 namespace arpc {
 
@@ -30,9 +32,16 @@ thread_pool::thread_pool(unsigned int num_worker_threads, int queue_size)
   for (unsigned int i = 0; i < num_worker_threads; i++) {
     threads_.emplace_back([this]() {
       while (true) {
-        promise<fn_type> fn_promise;
-        future<fn_type> fn_future = fn_promise.get_future();
-        request_work(std::move(fn_promise));
+        future<fn_type> fn_future;
+        try {
+          promise<fn_type> fn_promise;
+          fn_future = fn_promise.get_future();
+          request_work(std::move(fn_promise));
+        } catch (const errors::io_error&) {
+          // We may be out of descriptors for now.
+          auto [retry] = select(timeout(std::chrono::milliseconds(10)));
+          continue;
+        }
         auto f = fn_future.get();
         try {
           f();
-- 
2.43.0


From ef65063942590dc912211abc30b552bdd4607709 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:17:09 +0000
Subject: [PATCH 44/54] fix: keep servers running when out of descriptors for a
 connection or request

---
 src/arpc/server.h | 65 +++++++++++++++++++++++++++--------------------
 1 file changed, 38 insertions(+), 27 deletions(-)

diff --git a/src/arpc/server.h b/src/arpc/server.h
index 3bc88c8..0a23409 100644
--- a/src/arpc/server.h
+++ b/src/arpc/server.h
@@ -409,7 +409,8 @@ class server {
         context ctx(parent_context);
         promise.set_value(request_result{key, std::move(execute(key.second, std::move(request)))});
       } catch (...) {
-        promise.set_exception(std::current_exception());
+        promise.set_value(
+            request_result{key, exception_response(key.second, std::current_exception())});
       }
     };
 
@@ -484,6 +485,33 @@ class server {
     });
   }
 
+  static std::string exception_response(rpc_defs::request_id_type req_id,
+                                        std::exception_ptr exception) {
+    result_holder<void> exception_result;
+    exception_result.set_exception(exception);
+
+    std::string result_str;
+    string_output_stream result_is(result_str);
+
+    {
+      // A encoder for the header.
+      Encoder header_encoder(result_is);
+      // Message type: RPC request.
+      header_encoder(rpc_defs::message_type::RESPONSE);
+      // Request ID.
+      header_encoder(req_id);
+    }
+
+    {
+      // A encoder for the result.
+      Encoder result_encoder(result_is);
+      // Result.
+      result_encoder(exception_result);
+    }
+
+    return result_str;
+  }
+
   std::string execute(rpc_defs::request_id_type req_id, std::string request) {
     try {
       string_input_stream request_is(request);
@@ -535,29 +563,7 @@ class server {
     } catch (...) {
       // We directly return the result here if we caught an exception before
       // getting to the object's function.
-      result_holder<void> exception_result;
-      exception_result.set_exception(std::current_exception());
-
-      std::string result_str;
-      string_output_stream result_is(result_str);
-
-      {
-        // A encoder for the header.
-        Encoder header_encoder(result_is);
-        // Message type: RPC request.
-        header_encoder(rpc_defs::message_type::RESPONSE);
-        // Request ID.
-        header_encoder(req_id);
-      }
-
-      {
-        // A encoder for the result.
-        Encoder result_encoder(result_is);
-        // Result.
-        result_encoder(exception_result);
-      }
-
-      return result_str;
+      return exception_response(req_id, std::current_exception());
     }
   }
 
@@ -567,9 +573,14 @@ class server {
           while (connections_.count(++next_connection_key_) > 0) {
             // Ensure we prevent connection counter cycle collisions.
           }
-          connections_.insert(
-              {next_connection_key_, std::make_shared<connection_wrapper>(
-                                         *this, next_connection_key_, std::move(new_connection))});
+          try {
+            connections_.insert({next_connection_key_,
+                                 std::make_shared<connection_wrapper>(
+                                     *this, next_connection_key_, std::move(new_connection))});
+          } catch (const errors::io_error&) {
+            // Do without the connection if we are out of descriptors for now.
+            acceptor_->return_connection(std::move(new_connection));
+          }
         });
   }
 
-- 
2.43.0


From 3d7f0a9d03d5f79c76dd65ef6f7d49b75af80ae4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:43:34 +0000
Subject: [PATCH 45/54] fix: reject contexts with missing data objects

---
 src/arpc/context.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/arpc/context.cpp b/src/arpc/context.cpp
index 548f5f5..318d161 100644
--- a/src/arpc/context.cpp
+++ b/src/arpc/context.cpp
@@ -158,6 +158,7 @@ void context::set_data(
   std::scoped_lock lock(data_mu_);
   data_.clear();
   for (auto it : new_data) {
+    if (!it) throw errors::data_mismatch("Missing context data object");
     data_[it->portable_class_name()] =
         std::static_pointer_cast<const dynamic_base_class>(std::move(it));
   }
-- 
2.43.0


From cdfd81bd65b7d23a53d29a98723cfbd2a0e64468 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:43:34 +0000
Subject: [PATCH 46/54] fix: keep far deadlines from overflowing

---
 src/arpc/context.cpp | 14 ++++++++++++--
 1 file changed, 12 insertions(+), 2 deletions(-)

diff --git a/src/arpc/context.cpp b/src/arpc/context.cpp
index 318d161..b43321b 100644
--- a/src/arpc/context.cpp
+++ b/src/arpc/context.cpp
@@ -20,6 +20,7 @@
 ///   under the License.
 
 #include "arpc/context.h"
+#include <algorithm>
 #include <utility>
 #include "arpc/errors.h"
 
@@ -127,6 +128,13 @@ awaitable<void> context::wait_deadline() {
 }
 
 void context::set_deadline(time_point when) {
+  // Keep to times that can be told apart from any time of the finer grained
+  // system clock.
+  constexpr auto latest = std::chrono::time_point_cast<duration>(
+      std::chrono::system_clock::time_point::max());
+  constexpr time_point earliest(-latest.time_since_epoch() / 2);
+  when = std::clamp(when, earliest, latest);
+
   std::scoped_lock lock(data_mu_);
   if (!deadline_ || *deadline_ > when) {
     deadline_ = when;
@@ -134,8 +142,10 @@ void context::set_deadline(time_point when) {
 }
 
 void context::set_timeout(duration timeout) {
-  set_deadline(std::chrono::time_point_cast<context::duration>(
-      std::chrono::system_clock::now() + timeout));
+  auto now = std::chrono::time_point_cast<context::duration>(
+      std::chrono::system_clock::now());
+  set_deadline(timeout < time_point::max() - now ? now + timeout
+                                                 : time_point::max());
 }
 
 void context::reset_all() {
-- 
2.43.0


From 352e66ccc3972d7926a065bffe0f927fc5efdec1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:55:58 +0000
Subject: [PATCH 47/54] fix: forget the methods of the object a name stood for
 before

---
 src/arpc/server.h | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/arpc/server.h b/src/arpc/server.h
index 0a23409..c2ac5d1 100644
--- a/src/arpc/server.h
+++ b/src/arpc/server.h
@@ -633,10 +633,11 @@ class server {
     std::scoped_lock lock(objects_mu_);
 
     auto key = object_name<ObjectNameEncoder>(std::forward<Name>(name));
-    auto& entry = objects_[key];
+    object_entry entry;
     entry.ref = object.get_ref();
 
     register_object_interface(entry, object.get_ref());
+    objects_[key] = std::move(entry);
   }
 
   template <typename Impl>
-- 
2.43.0


From faed5e149601329652f9677dce71162a7362adec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:20:21 +0000
Subject: [PATCH 48/54] fix: files were created with whatever mode happened to
 be on the stack

---
 src/arpc/file.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/arpc/file.cpp b/src/arpc/file.cpp
index 2c73c23..a50af12 100644
--- a/src/arpc/file.cpp
+++ b/src/arpc/file.cpp
@@ -37,7 +37,7 @@ channel file(const std::string& path, open_mode mode) {
       O_RDWR | O_CREAT | O_APPEND,    // APPEND
   };
   channel res(
-      ::open(path.c_str(), posix_modes[static_cast<std::size_t>(mode)]));
+      ::open(path.c_str(), posix_modes[static_cast<std::size_t>(mode)], 0666));
   if (!res) throw_io_error("Error opening file");
   return res;
 }
-- 
2.43.0


From 45eed488bbbc49bb0632b48fb58d3e6ccc5dac42 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:20:21 +0000
Subject: [PATCH 49/54] fix: channel::linger() set SO_REUSEPORT instead of
 SO_LINGER

---
 src/arpc/channel.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/arpc/channel.cpp b/src/arpc/channel.cpp
index 5dc1e12..5824dde 100644
--- a/src/arpc/channel.cpp
+++ b/src/arpc/channel.cpp
@@ -255,7 +255,7 @@ channel& channel::linger(bool do_linger, std::chrono::seconds linger_time) {
   struct linger value {
     do_linger, static_cast<int>(linger_time / std::chrono::seconds(1))
   };
-  if (::setsockopt(fd_, SOL_SOCKET, SO_REUSEPORT, &value, sizeof(value)))
+  if (::setsockopt(fd_, SOL_SOCKET, SO_LINGER, &value, sizeof(value)))
     throw_io_error("Error setting linger");
   return *this;
 }
-- 
2.43.0


From fa6a2a0e4fc55e97ffa73afd9b40149918f8f2fa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:20:21 +0000
Subject: [PATCH 50/54] fix: a listener dropped connections it had accepted
 when another of its sockets failed to accept

---
 src/arpc/socket.cpp | 14 +++++++++++---
 1 file changed, 11 insertions(+), 3 deletions(-)

diff --git a/src/arpc/socket.cpp b/src/arpc/socket.cpp
index 47da107..77b153b 100644
--- a/src/arpc/socket.cpp
+++ b/src/arpc/socket.cpp
@@ -22,6 +22,7 @@
 #include "arpc/socket.h"
 #include <sys/socket.h>
 #include <sys/types.h>
+#include <exception>
 #include <utility>
 #include "arpc/address_resolver.h"
 #include "arpc/context.h"
@@ -93,13 +94,20 @@ channel listener::accept() {
       return res;
     }
     auto [res] = select(acceptors_);
+    std::exception_ptr failure;
     for (auto& r : res) {
       if (r) {
-        auto s = std::move(r).value();
-        s.make_non_blocking(non_blocking_);
-        pending_.push_back(std::move(s));
+        try {
+          auto s = std::move(r).value();
+          s.make_non_blocking(non_blocking_);
+          pending_.push_back(std::move(s));
+        } catch (...) {
+          // Don't lose the channels that other acceptors have accepted.
+          failure = std::current_exception();
+        }
       }
     }
+    if (failure && pending_.empty()) std::rethrow_exception(failure);
   } while (true);
 }
 
-- 
2.43.0


From 6f5061c37ebdcc34d71e9cfc683787be2ea8931b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:25:43 +0000
Subject: [PATCH 51/54] fix: a result holder constructed from an lvalue moved
 its value away

---
 src/arpc/result_holder.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/arpc/result_holder.h b/src/arpc/result_holder.h
index 7da2c6d..274103c 100644
--- a/src/arpc/result_holder.h
+++ b/src/arpc/result_holder.h
@@ -76,7 +76,7 @@ class result_holder : public serializable<result_holder<T>> {
   explicit result_holder(std::exception_ptr exception)
       : exception_(exception) {}
   template <typename U>
-  explicit result_holder(U&& u) : value_(std::move(u)) {}
+  explicit result_holder(U&& u) : value_(std::forward<U>(u)) {}
 
   template <typename U>
   void set_value(U&& u) {
-- 
2.43.0


From 09abec36764108e767448868be91c41061cc1ea5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:14:00 +0000
Subject: [PATCH 52/54] fix: let dropping a usage lock that was armed again
 wait for all users

---
 src/arpc/usage_lock.h | 13 ++++++++-----
 1 file changed, 8 insertions(+), 5 deletions(-)

diff --git a/src/arpc/usage_lock.h b/src/arpc/usage_lock.h
index e2e3ed4..b8b036b 100644
--- a/src/arpc/usage_lock.h
+++ b/src/arpc/usage_lock.h
@@ -46,21 +46,23 @@ class usage_lock {
 
   void arm(T* ptr) {
     std::scoped_lock arm_drop_lock(arm_drop_mu_);
+    {
+      std::scoped_lock lock(mu_);
+      ++in_use_;
+    }
     swap_ptr({ptr, [this](T*) {
       // Notify with the lock held, as this object may be gone right afterwards.
       std::scoped_lock lock(mu_);
-      done_ = true;
+      --in_use_;
       done_cond_.notify_all();
     }});
-    std::scoped_lock lock(mu_);
-    done_ = false;
   }
 
   void drop() {
     std::scoped_lock arm_drop_lock(arm_drop_mu_);
     swap_ptr(nullptr);
     std::unique_lock lock(mu_);
-    done_cond_.wait(lock, [this]() { return done_; });
+    done_cond_.wait(lock, [this]() { return in_use_ == 0; });
   }
 
   auto get() {
@@ -87,7 +89,8 @@ class usage_lock {
   std::shared_ptr<T> ptr_;
   std::mutex mu_, arm_drop_mu_;
   std::condition_variable done_cond_;
-  bool done_ = true;
+  // Resources armed and not yet released by all of their users.
+  int in_use_ = 0;
 };
 
 }  // namespace arpc
-- 
2.43.0


From a2f757e3d941a4b07529a8c738ab53e15fd78114 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:27:40 +0000
Subject: [PATCH 53/54] fix: send cancellations from a thread of their own

A cancellation that was half sent when the deadline of any other call expired
broke the connection, and with it every call that used it.
---
 src/arpc/client.h | 35 ++++++++++++++++++++---------------
 1 file changed, 20 insertions(+), 15 deletions(-)

diff --git a/src/arpc/client.h b/src/arpc/client.h
index ed514cf..a01fd3d 100644
--- a/src/arpc/client.h
+++ b/src/arpc/client.h
@@ -183,16 +183,19 @@ class client_connection {
         receiver_(&client_connection::receive, this),
         new_deadline_(max_queued_events),
         cancelled_requests_(max_queued_events),
-        timeout_and_cancellation_handler_(
-            &client_connection::handle_timeouts_and_cancellations, this) {}
+        timeout_handler_(&client_connection::handle_timeouts, this),
+        cancellation_handler_(&client_connection::handle_cancellations, this) {}
 
   ~client_connection() {
     receiver_.get_context().cancel();
     connection_.disconnect();
     receiver_.join();
 
-    timeout_and_cancellation_handler_.get_context().cancel();
-    timeout_and_cancellation_handler_.join();
+    timeout_handler_.get_context().cancel();
+    timeout_handler_.join();
+
+    cancellation_handler_.get_context().cancel();
+    cancellation_handler_.join();
   }
 
   template <typename I, typename N>
@@ -377,18 +380,25 @@ class client_connection {
     return earliest_deadline;
   }
 
-  void handle_timeouts_and_cancellations() {
+  void handle_timeouts() {
     while (true) {
       auto earliest_deadline = get_earliest_deadline();
 
-      auto [new_deadline_added, cancelled_request, time_to_do_gc] =
-          select(new_deadline_.async_get(), cancelled_requests_.async_get(),
+      auto [new_deadline_added, time_to_do_gc] =
+          select(new_deadline_.async_get(),
                  earliest_deadline ? deadline(*earliest_deadline) : never());
 
       if (time_to_do_gc) {
         gc();
       }
+    }
+  }
 
+  // In a thread of its own, so that sending cancellations makes us miss no
+  // deadlines, and no deadline makes us give up on one that is half sent.
+  void handle_cancellations() {
+    while (true) {
+      auto [cancelled_request] = select(cancelled_requests_.async_get());
       if (cancelled_request) {
         auto req_id = *cancelled_request;
 
@@ -403,14 +413,8 @@ class client_connection {
           // Request ID.
           encoder(req_id);
         }
-        // Send the cancellation request. Ignore errors, and don't let it make us
-        // miss any deadline.
+        // Send the cancellation request. Ignore errors.
         try {
-          context ctx;
-          earliest_deadline = get_earliest_deadline();
-          if (earliest_deadline) {
-            ctx.set_deadline(*earliest_deadline);
-          }
           send(cancel_request);
         } catch (...) {
         }
@@ -428,7 +432,8 @@ class client_connection {
   daemon_thread receiver_;
   queue<void> new_deadline_;
   queue<rpc_defs::request_id_type> cancelled_requests_;
-  daemon_thread timeout_and_cancellation_handler_;
+  daemon_thread timeout_handler_;
+  daemon_thread cancellation_handler_;
 };
 
 }  // namespace arpc
-- 
2.43.0


From ea120b2b13321c075b9e2ddaeb9b1866e214c189 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:31:33 +0000
Subject: [PATCH 54/54] fix: interrupt those waiting for data when a connection
 is cut

---
 src/arpc/connection.cpp | 16 +++++++++++++---
 1 file changed, 13 insertions(+), 3 deletions(-)

diff --git a/src/arpc/connection.cpp b/src/arpc/connection.cpp
index ffc75b4..d090db7 100644
--- a/src/arpc/connection.cpp
+++ b/src/arpc/connection.cpp
@@ -58,7 +58,17 @@ void channel_connection::disconnect() {
   channel_.close();
 }
 
-void channel_connection::interrupt() { closing_.set(); }
+void channel_connection::interrupt() {
+  closing_.set();
+  // Those waiting for data_available() only look at the channel.
+  if (auto lock = locked_.get_or_null()) {
+    try {
+      channel_.shutdown(true, false);
+    } catch (const errors::io_error&) {
+      // Not a (connected) socket.
+    }
+  }
+}
 
 void channel_connection::write(const char* data, std::size_t size) {
   auto lock = locked_.get();
@@ -89,6 +99,8 @@ std::size_t channel_connection::read(char* data, std::size_t size) {
   while (size > 0) {
     auto [read, closing] =
         select(channel_.async_read(data, size), closing_.async_wait());
+    if (closing)
+      throw errors::io_error("Read interrupted by connection shutdown");
     if (read) {
       try {
         std::size_t num = *read;
@@ -100,8 +112,6 @@ std::size_t channel_connection::read(char* data, std::size_t size) {
         break;
       }
     }
-    if (closing)
-      throw errors::io_error("Read interrupted by connection shutdown");
   }
   return total_read;
 }
-- 
2.43.0

