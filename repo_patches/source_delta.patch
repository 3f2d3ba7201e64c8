From c0353126d6c7d2e8bd600ab16458b234ab261db3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:02:11 +0000
Subject: [PATCH 01/13] fix: eager_throw/sync modifiers must rethrow when the
 child's exception is captured by the parent

---
 include/libfork/core/impl/promise.hpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/include/libfork/core/impl/promise.hpp b/include/libfork/core/impl/promise.hpp
index 0d0fb30..1ecdf3b 100644
--- a/include/libfork/core/impl/promise.hpp
+++ b/include/libfork/core/impl/promise.hpp
@@ -214,7 +214,8 @@ struct promise_base : frame {
 
     awaitable->set_parent(this);
 
-    constexpr bool throwing = stash_exception_in_return<I>;
+    // If the child cannot stash its exception in the return address then it will be captured by this frame.
+    constexpr bool throwing = !stash_exception_in_return<I>;
 
     using enum region;
 
-- 
2.43.0


From dfee54950a6d5268ea9c8db6a1c8064eff4efda6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:36:13 +0000
Subject: [PATCH 02/13] fix: co_new must refuse element counts whose size in
 bytes overflows

---
 include/libfork/core/impl/awaitables.hpp | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/include/libfork/core/impl/awaitables.hpp b/include/libfork/core/impl/awaitables.hpp
index a7859b1..5198ed9 100644
--- a/include/libfork/core/impl/awaitables.hpp
+++ b/include/libfork/core/impl/awaitables.hpp
@@ -12,9 +12,12 @@
 #include <atomic>      // for memory_order_acquire, atomic_thread_fence
 #include <bit>         // for bit_cast
 #include <coroutine>   // for coroutine_handle, noop_coroutine, suspend_...
+#include <cstddef>     // for size_t, ptrdiff_t
 #include <cstdint>     // for uint16_t
 #include <iterator>    // for iter_difference_t
+#include <limits>      // for numeric_limits
 #include <memory>      // for operator==, uninitialized_default_construct_n
+#include <new>         // for bad_array_new_length
 #include <span>        // for span
 #include <type_traits> // for remove_cvref_t
 #include <utility>     // for exchange
@@ -194,6 +197,10 @@ struct alloc_awaitable : std::suspend_never {
 
     LF_ASSERT(stack->top() == self->stacklet()); // Must own the stack.
 
+    if (request.count > static_cast<std::size_t>(std::numeric_limits<std::ptrdiff_t>::max()) / sizeof(T)) {
+      LF_THROW(std::bad_array_new_length{}); // The size in bytes would overflow.
+    }
+
     T *ptr = static_cast<T *>(stack->allocate(request.count * sizeof(T)));
 
     using int_t = std::iter_difference_t<T *>;
-- 
2.43.0


From 1474c80eceb78052eae40e2e4cf1d00bb3e571a0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:36:24 +0000
Subject: [PATCH 03/13] fix: worker_init must report a failure to allocate the
 worker's stack

---
 include/libfork/core/ext/tls.hpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/include/libfork/core/ext/tls.hpp b/include/libfork/core/ext/tls.hpp
index eaae831..b1b4937 100644
--- a/include/libfork/core/ext/tls.hpp
+++ b/include/libfork/core/ext/tls.hpp
@@ -111,6 +111,7 @@ inline namespace ext {
     impl::tls::thread_stack.construct();
   } LF_CATCH_ALL {
     impl::tls::thread_context.destroy();
+    LF_RETHROW;
   }
 
   impl::tls::has_stack = true;
-- 
2.43.0


From c5e28a2bad3d7b012aa4b4679019bb5a38e3aca2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:37:31 +0000
Subject: [PATCH 04/13] fix: destroy a task whose submission failed on the
 stack that holds it

---
 include/libfork/core/sync_wait.hpp | 15 +++++++++++++--
 1 file changed, 13 insertions(+), 2 deletions(-)

diff --git a/include/libfork/core/sync_wait.hpp b/include/libfork/core/sync_wait.hpp
index 5784057..cbbc3a1 100644
--- a/include/libfork/core/sync_wait.hpp
+++ b/include/libfork/core/sync_wait.hpp
@@ -273,13 +273,24 @@ schedule(Sch &&sch, F &&fun, Args &&...args) -> future<async_result_t<F, Args...
   await->set_root_sem(&share_state->sem);
 
   // If this throws then `await` will clean up the coroutine.
-  impl::ignore_t{} = impl::tls::thread_stack->release();
+  impl::stack::stacklet *stacklet = impl::tls::thread_stack->release();
 
   // We will pass a pointer to this to .schedule()
   share_state->node.construct(std::bit_cast<impl::submit_t *>(await.get()));
 
+  // clang-format off
+
   // Schedule upholds the strong exception guarantee hence, if it throws `await` cleans up.
-  std::forward<Sch>(sch).schedule(share_state->node.data());
+  LF_TRY {
+    std::forward<Sch>(sch).schedule(share_state->node.data());
+  } LF_CATCH_ALL {
+    // The coroutine must be destroyed by the owner of the stack it was allocated on.
+    *impl::tls::thread_stack = impl::stack{stacklet};
+    LF_RETHROW;
+  }
+
+  // clang-format on
+
   // If -^ didn't throw then we release ownership of the coroutine, it will be cleaned up by the worker.
   impl::ignore_t{} = await.release();
 
-- 
2.43.0


From ea36bd9e3b170859da5c7b33592107c8792ee884 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:41:39 +0000
Subject: [PATCH 05/13] fix: a worker context that cannot be allocated must be
 reported, not terminate

---
 include/libfork/core/ext/context.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/libfork/core/ext/context.hpp b/include/libfork/core/ext/context.hpp
index de43258..d729fb9 100644
--- a/include/libfork/core/ext/context.hpp
+++ b/include/libfork/core/ext/context.hpp
@@ -98,7 +98,7 @@ class worker_context : impl::immovable<context> {
    * Notify is a function that may be called concurrently by other workers to signal to the
    * worker owning this context that a task has been submitted to a private queue.
    */
-  explicit worker_context(nullary_function_t notify) noexcept : m_notify(std::move(notify)) {
+  explicit worker_context(nullary_function_t notify) : m_notify(std::move(notify)) {
     LF_ASSERT(m_notify);
   }
 
@@ -128,7 +128,7 @@ class full_context : public worker_context {
   /**
    * @brief Construct a new full context object, store a copy of the user provided notification function.
    */
-  explicit full_context(nullary_function_t notify) noexcept : worker_context(std::move(notify)) {}
+  explicit full_context(nullary_function_t notify) : worker_context(std::move(notify)) {}
 
   /**
    * @brief Add a task to the work queue.
-- 
2.43.0


From 58f46b42e5813aa6e27f727e4b1d9b379f8b25ec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:42:00 +0000
Subject: [PATCH 06/13] fix: a deque whose construction fails must not leak its
 buffer

---
 include/libfork/core/ext/deque.hpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/include/libfork/core/ext/deque.hpp b/include/libfork/core/ext/deque.hpp
index 89a488b..e61e11e 100644
--- a/include/libfork/core/ext/deque.hpp
+++ b/include/libfork/core/ext/deque.hpp
@@ -350,8 +350,10 @@ template <dequeable T>
 constexpr deque<T>::deque(std::ptrdiff_t cap)
     : m_top(0),
       m_bottom(0),
-      m_buf(new impl::atomic_ring_buf<T>{cap}) {
+      m_buf(nullptr) {
   m_garbage.reserve(k_garbage_reserve);
+  // Last, as the destructor would not release the buffer if anything threw after this.
+  m_buf.store(new impl::atomic_ring_buf<T>{cap}, relaxed);
 }
 
 template <dequeable T>
-- 
2.43.0


From 279dbe519d1ca951fe708eb4464996d54eda5c94 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:06:04 +0000
Subject: [PATCH 07/13] fix: publish a grown deque buffer with release ordering

---
 include/libfork/core/ext/deque.hpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/include/libfork/core/ext/deque.hpp b/include/libfork/core/ext/deque.hpp
index e61e11e..e9f539d 100644
--- a/include/libfork/core/ext/deque.hpp
+++ b/include/libfork/core/ext/deque.hpp
@@ -394,7 +394,8 @@ constexpr auto deque<T>::push(T const &val) -> void {
       // This should never throw as we reserve 64 slots.
       m_garbage.emplace_back(std::exchange(buf, bigger));
     }();
-    m_buf.store(buf, relaxed);
+    // A thief may see the new buffer before it sees the new value of bottom.
+    m_buf.store(buf, release);
   }
 
   // Construct new object, this does not have to be atomic as no one can steal this item until
-- 
2.43.0


From 9f329382e5a0c51ec0d56ffed6d4ba00a56bb568 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:52:43 +0000
Subject: [PATCH 08/13] fix: count steals and joins of a task with 32 bits

With 16 bits the counters wrap when 65535 or more continuations of a task are
stolen between two joins, the task is then resumed before its children are done
or never.
---
 include/libfork/core/impl/awaitables.hpp | 30 ++++++++++++------------
 include/libfork/core/impl/frame.hpp      | 20 ++++++++--------
 include/libfork/core/impl/promise.hpp    |  4 ++--
 include/libfork/core/impl/utility.hpp    |  6 ++---
 4 files changed, 30 insertions(+), 30 deletions(-)

diff --git a/include/libfork/core/impl/awaitables.hpp b/include/libfork/core/impl/awaitables.hpp
index 5198ed9..54187a4 100644
--- a/include/libfork/core/impl/awaitables.hpp
+++ b/include/libfork/core/impl/awaitables.hpp
@@ -13,7 +13,7 @@
 #include <bit>         // for bit_cast
 #include <coroutine>   // for coroutine_handle, noop_coroutine, suspend_...
 #include <cstddef>     // for size_t, ptrdiff_t
-#include <cstdint>     // for uint16_t
+#include <cstdint>     // for uint32_t
 #include <iterator>    // for iter_difference_t
 #include <limits>      // for numeric_limits
 #include <memory>      // for operator==, uninitialized_default_construct_n
@@ -31,7 +31,7 @@
 #include "libfork/core/impl/frame.hpp"        // for frame
 #include "libfork/core/impl/stack.hpp"        // for stack
 #include "libfork/core/impl/unique_frame.hpp" // for unique_frame, frame_deleter
-#include "libfork/core/impl/utility.hpp"      // for k_u16_max, checked_cast
+#include "libfork/core/impl/utility.hpp"      // for k_u32_max, checked_cast
 #include "libfork/core/invocable.hpp"         // for ignore_t
 #include "libfork/core/macro.hpp"             // for LF_ASSERT, LF_LOG, LF_FORCEINLINE, LF_THROW
 #include "libfork/core/scheduler.hpp"         // for context_switcher
@@ -113,7 +113,7 @@ struct context_switch_awaitable {
     // steals then we do not own the stack this coroutine is on and the resumer should not
     // take the stack otherwise, we should give-it-up and the resumer should take it.
 
-    std::uint16_t steals = std::bit_cast<frame *>(unwrap(&self))->load_steals();
+    std::uint32_t steals = std::bit_cast<frame *>(unwrap(&self))->load_steals();
 
     // Assert the above paragraphs validity.
 #ifndef NDEBUG
@@ -309,7 +309,7 @@ struct sync_fork_awaitable : fork_awaitable {
     // must not have thrown an exception. We can check if __some__ child threw an
     // exception but we cannot (generally) retrieve it as exception is not safe
     // to touch until after a join.
-    if (std::uint16_t steals_post = self->load_steals(); steals_post == steals_pre) {
+    if (std::uint32_t steals_post = self->load_steals(); steals_post == steals_pre) {
 
       // Then completed synchronously.
 
@@ -336,7 +336,7 @@ struct sync_fork_awaitable : fork_awaitable {
   /**
    * @brief The number of times the parent was stolen __before__ the fork.
    */
-  std::uint16_t steals_pre;
+  std::uint32_t steals_pre;
 };
 
 /**
@@ -436,14 +436,14 @@ struct join_awaitable {
       // Therefore no need to reset the control block.
       return true;
     }
-    // Currently:            joins() = k_u16_max - num_joined
-    // Hence:       k_u16_max - joins() = num_joined
+    // Currently:            joins() = k_u32_max - num_joined
+    // Hence:       k_u32_max - joins() = num_joined
 
     // Could use (relaxed) + (fence(acquire) in truthy branch) but, it's
     // better if we see all the decrements to joins() and avoid suspending
     // the coroutine if possible. Cannot fetch_sub() here and write to frame
     // as coroutine must be suspended first.
-    auto joined = k_u16_max - self->load_joins(std::memory_order_acquire);
+    auto joined = k_u32_max - self->load_joins(std::memory_order_acquire);
 
     if (self->load_steals() == joined) {
       LF_LOG("Sync is ready");
@@ -459,17 +459,17 @@ struct join_awaitable {
    * @brief Mark at join point then yield to scheduler or resume if children are done.
    */
   auto await_suspend(std::coroutine_handle<> task) const noexcept -> std::coroutine_handle<> {
-    // Currently        joins  = k_u16_max  - num_joined
-    // We set           joins  = joins()    - (k_u16_max - num_steals)
+    // Currently        joins  = k_u32_max  - num_joined
+    // We set           joins  = joins()    - (k_u32_max - num_steals)
     //                         = num_steals - num_joined
 
-    // Hence               joined = k_u16_max - num_joined
-    //         k_u16_max - joined = num_joined
+    // Hence               joined = k_u32_max - num_joined
+    //         k_u32_max - joined = num_joined
 
     auto steals = self->load_steals();
-    auto joined = self->fetch_sub_joins(k_u16_max - steals, std::memory_order_release);
+    auto joined = self->fetch_sub_joins(k_u32_max - steals, std::memory_order_release);
 
-    if (steals == k_u16_max - joined) {
+    if (steals == k_u32_max - joined) {
       // We set joins after all children had completed therefore we can resume the task.
       // Need to acquire to ensure we see all writes by other threads to the result.
       std::atomic_thread_fence(std::memory_order_acquire);
@@ -498,7 +498,7 @@ struct join_awaitable {
     LF_LOG("join resumes");
     // Check we have been reset.
     LF_ASSERT(self->load_steals() == 0);
-    LF_ASSERT_NO_ASSUME(self->load_joins(std::memory_order_acquire) == k_u16_max);
+    LF_ASSERT_NO_ASSUME(self->load_joins(std::memory_order_acquire) == k_u32_max);
     LF_ASSERT(self->stacklet() == tls::stack()->top());
 
     self->unsafe_rethrow_if_exception();
diff --git a/include/libfork/core/impl/frame.hpp b/include/libfork/core/impl/frame.hpp
index 7a4ec84..37d2c03 100644
--- a/include/libfork/core/impl/frame.hpp
+++ b/include/libfork/core/impl/frame.hpp
@@ -9,9 +9,9 @@
 // License, v. 2.0. If a copy of the MPL was not distributed with this
 // file, You can obtain one at https://mozilla.org/MPL/2.0/.
 
-#include <atomic>      // for atomic_ref, memory_order, atomic_uint16_t
+#include <atomic>      // for atomic_ref, memory_order, atomic_uint32_t
 #include <coroutine>   // for coroutine_handle
-#include <cstdint>     // for uint16_t
+#include <cstdint>     // for uint32_t
 #include <exception>   // for exception_ptr, operator==, current_exce...
 #include <memory>      // for construct_at
 #include <semaphore>   // for binary_semaphore
@@ -22,7 +22,7 @@
 #include "libfork/core/defer.hpp"                // for LF_DEFER
 #include "libfork/core/impl/manual_lifetime.hpp" // for manual_lifetime
 #include "libfork/core/impl/stack.hpp"           // for stack
-#include "libfork/core/impl/utility.hpp"         // for non_null, k_u16_max
+#include "libfork/core/impl/utility.hpp"         // for non_null, k_u32_max
 #include "libfork/core/macro.hpp"                // for LF_COMPILER_EXCEPTIONS, LF_ASSERT, LF_F...
 
 /**
@@ -70,11 +70,11 @@ class frame {
   /**
    * @brief  Number of children joined (with offset).
    */
-  std::atomic_uint16_t m_join = k_u16_max;
+  std::atomic_uint32_t m_join = k_u32_max;
   /**
    * @brief Number of times this frame has been stolen.
    */
-  std::uint16_t m_steal = 0;
+  std::uint32_t m_steal = 0;
 
 /**
  * @brief Flag to indicate if an exception has been set.
@@ -179,26 +179,26 @@ class frame {
   /**
    * @brief Perform a `.load(order)` on the atomic join counter.
    */
-  [[nodiscard]] auto load_joins(std::memory_order order) const noexcept -> std::uint16_t {
+  [[nodiscard]] auto load_joins(std::memory_order order) const noexcept -> std::uint32_t {
     return m_join.load(order);
   }
 
   /**
    * @brief Perform a `.fetch_sub(val, order)` on the atomic join counter.
    */
-  auto fetch_sub_joins(std::uint16_t val, std::memory_order order) noexcept -> std::uint16_t {
+  auto fetch_sub_joins(std::uint32_t val, std::memory_order order) noexcept -> std::uint32_t {
     return m_join.fetch_sub(val, order);
   }
 
   /**
    * @brief Get the number of times this frame has been stolen.
    */
-  [[nodiscard]] auto load_steals() const noexcept -> std::uint16_t { return m_steal; }
+  [[nodiscard]] auto load_steals() const noexcept -> std::uint32_t { return m_steal; }
 
   /**
    * @brief Increase the steal counter by one and return the previous value.
    */
-  auto fetch_add_steal() noexcept -> std::uint16_t { return m_steal++; }
+  auto fetch_add_steal() noexcept -> std::uint32_t { return m_steal++; }
 
   /**
    * @brief Reset the join and steal counters, must be outside a fork-join region.
@@ -211,7 +211,7 @@ class frame {
     // Use construct_at(...) to set non-atomically as we know we are the
     // only thread who can touch this control block until a steal which
     // would provide the required memory synchronization.
-    std::construct_at(&m_join, k_u16_max);
+    std::construct_at(&m_join, k_u32_max);
   }
 
   /**
diff --git a/include/libfork/core/impl/promise.hpp b/include/libfork/core/impl/promise.hpp
index 1ecdf3b..e592166 100644
--- a/include/libfork/core/impl/promise.hpp
+++ b/include/libfork/core/impl/promise.hpp
@@ -28,7 +28,7 @@
 #include "libfork/core/impl/frame.hpp"      // for frame
 #include "libfork/core/impl/return.hpp"     // for return_result
 #include "libfork/core/impl/stack.hpp"      // for stack
-#include "libfork/core/impl/utility.hpp"    // for byte_cast, k_u16_max
+#include "libfork/core/impl/utility.hpp"    // for byte_cast, k_u32_max
 #include "libfork/core/invocable.hpp"       // for return_address_for, ignore_t
 #include "libfork/core/just.hpp"            // for just_awaitable, just_wrapped
 #include "libfork/core/macro.hpp"           // for LF_LOG, LF_ASSERT, LF_FORCEINLINE, LF_ASSERT...
@@ -307,7 +307,7 @@ struct promise : promise_base, return_result<R, I> {
     // Completing a non-root task means we currently own the stack_stack this child is on
 
     LF_ASSERT(this->load_steals() == 0);                                           // Fork without join.
-    LF_ASSERT_NO_ASSUME(this->load_joins(std::memory_order_acquire) == k_u16_max); // Invalid state.
+    LF_ASSERT_NO_ASSUME(this->load_joins(std::memory_order_acquire) == k_u32_max); // Invalid state.
     LF_ASSERT(!this->unsafe_has_exception());                                      // Must have rethrown.
 
     return final_awaitable{};
diff --git a/include/libfork/core/impl/utility.hpp b/include/libfork/core/impl/utility.hpp
index e966623..62cbbfb 100644
--- a/include/libfork/core/impl/utility.hpp
+++ b/include/libfork/core/impl/utility.hpp
@@ -12,7 +12,7 @@
 #include <bit>             // for bit_cast, has_single_bit
 #include <concepts>        // for same_as, integral, convertible_to
 #include <cstddef>         // for byte, size_t
-#include <cstdint>         // for uint16_t
+#include <cstdint>         // for uint32_t
 #include <cstdio>          // for fprintf, stderr
 #include <exception>       // for terminate
 #include <functional>      // for invoke
@@ -94,9 +94,9 @@ inline constexpr std::size_t k_new_align = __STDCPP_DEFAULT_NEW_ALIGNMENT__;
 static_assert(std::has_single_bit(k_new_align));
 
 /**
- * @brief Shorthand for `std::numeric_limits<std::unt32_t>::max()`.
+ * @brief Shorthand for `std::numeric_limits<std::uint32_t>::max()`.
  */
-static constexpr std::uint16_t k_u16_max = std::numeric_limits<std::uint16_t>::max();
+static constexpr std::uint32_t k_u32_max = std::numeric_limits<std::uint32_t>::max();
 
 /**
  * @brief A dependent value to emulate `static_assert(false)` pre c++26.
-- 
2.43.0


From 2629d684526a7c7a2c54b7f6aeee3690ce82b462 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:52:07 +0000
Subject: [PATCH 09/13] numa_context: LF_VP_STEAL_ATTEMPTS bounds steal
 attempts for verification

---
 include/libfork/schedule/impl/numa_context.hpp | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/include/libfork/schedule/impl/numa_context.hpp b/include/libfork/schedule/impl/numa_context.hpp
index 53f0669..e79e84f 100644
--- a/include/libfork/schedule/impl/numa_context.hpp
+++ b/include/libfork/schedule/impl/numa_context.hpp
@@ -43,11 +43,19 @@ struct numa_context {
   /**
    * @brief The minimum number of steal attempts we will make per `try_steal` operation.
    */
+#ifdef LF_VP_STEAL_ATTEMPTS // Verification only: bound the number of attempts.
+  static constexpr std::size_t k_min_steal_attempts = LF_VP_STEAL_ATTEMPTS;
+#else
   static constexpr std::size_t k_min_steal_attempts = 1024;
+#endif
   /**
    * @brief The number of steal attempts we will make per target in a `try_steal` operation.
    */
+#ifdef LF_VP_STEAL_ATTEMPTS
+  static constexpr std::size_t k_steal_attempts_per_target = 0;
+#else
   static constexpr std::size_t k_steal_attempts_per_target = 32;
+#endif
   /**
    * @brief Thread-local RNG.
    */
-- 
2.43.0


From e26630f507620efb21609a35e5154b18cbaaf2e9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:02:31 +0000
Subject: [PATCH 10/13] fix: moved-from pools must be destructible and move
 assignment must stop the replaced workers

---
 include/libfork/schedule/busy_pool.hpp | 13 ++++++++++++-
 include/libfork/schedule/lazy_pool.hpp | 13 ++++++++++++-
 2 files changed, 24 insertions(+), 2 deletions(-)

diff --git a/include/libfork/schedule/busy_pool.hpp b/include/libfork/schedule/busy_pool.hpp
index df1d676..49f3750 100644
--- a/include/libfork/schedule/busy_pool.hpp
+++ b/include/libfork/schedule/busy_pool.hpp
@@ -145,7 +145,14 @@ class busy_pool {
   /**
    * @brief Move assign a lazy_pool object.
    */
-  auto operator=(busy_pool &&other) noexcept -> busy_pool & = default;
+  auto operator=(busy_pool &&other) noexcept -> busy_pool & {
+    if (this != &other) {
+      // The threads of this pool must be stopped and joined before they are replaced.
+      std::destroy_at(this);
+      std::construct_at(this, std::move(other));
+    }
+    return *this;
+  }
   /**
    * @brief The busy pool is not copy assignable.
    */
@@ -199,6 +206,10 @@ class busy_pool {
   auto contexts() noexcept -> std::span<worker_context *> { return m_contexts; }
 
   ~busy_pool() noexcept {
+    if (!m_share) {
+      return; // Moved from, another pool owns the workers.
+    }
+
     LF_LOG("Requesting a stop");
     // Set conditions for workers to stop
     m_share->stop.test_and_set(std::memory_order_release);
diff --git a/include/libfork/schedule/lazy_pool.hpp b/include/libfork/schedule/lazy_pool.hpp
index ef43035..3304fb6 100644
--- a/include/libfork/schedule/lazy_pool.hpp
+++ b/include/libfork/schedule/lazy_pool.hpp
@@ -312,7 +312,14 @@ class lazy_pool {
   /**
    * @brief Move assign a lazy_pool object.
    */
-  auto operator=(lazy_pool &&other) noexcept -> lazy_pool & = default;
+  auto operator=(lazy_pool &&other) noexcept -> lazy_pool & {
+    if (this != &other) {
+      // The threads of this pool must be stopped and joined before they are replaced.
+      std::destroy_at(this);
+      std::construct_at(this, std::move(other));
+    }
+    return *this;
+  }
   /**
    * @brief The lazy pool is not copy assignable.
    */
@@ -379,6 +386,10 @@ class lazy_pool {
    * @brief Destroy the lazy pool object, stops all workers.
    */
   ~lazy_pool() noexcept {
+    if (!m_share) {
+      return; // Moved from, another pool owns the workers.
+    }
+
     LF_LOG("Requesting a stop");
 
     // Set conditions for workers to stop.
-- 
2.43.0


From 99c60fd2ef58ba5c0810e4b2868b014a32ba2d7d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:19:02 +0000
Subject: [PATCH 11/13] fix: a stopping lazy_pool must not lose a task
 submitted before the stop

---
 include/libfork/schedule/lazy_pool.hpp | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/include/libfork/schedule/lazy_pool.hpp b/include/libfork/schedule/lazy_pool.hpp
index 3304fb6..2495be4 100644
--- a/include/libfork/schedule/lazy_pool.hpp
+++ b/include/libfork/schedule/lazy_pool.hpp
@@ -239,6 +239,12 @@ wake_up:
     // that the requester has ensured that everyone is done. We cannot check
     // this i.e it is possible a thread that just signaled the master thread
     // is still `active` but act stalled.
+    if (auto *submission = my_context->try_pop_all()) {
+      // Submitted before the stop but after we last checked, it must not be lost.
+      my_numa_vars.notifier.cancel_wait();
+      my_context->shared().thief_work_sleep(submission, numa_tid);
+      goto wake_up;
+    }
     my_numa_vars.notifier.cancel_wait();
     my_numa_vars.notifier.notify_all();
     my_numa_vars.thief.fetch_sub(1, release);
-- 
2.43.0


From c6eaebc2934d0d1a541aba15c62490e5e6030065 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:58:44 +0000
Subject: [PATCH 12/13] fix: resume_on must accept every kind of scheduler, not
 only worker contexts

---
 include/libfork/core/scheduler.hpp | 12 +++++++++---
 1 file changed, 9 insertions(+), 3 deletions(-)

diff --git a/include/libfork/core/scheduler.hpp b/include/libfork/core/scheduler.hpp
index 1f9bc4a..3965f19 100644
--- a/include/libfork/core/scheduler.hpp
+++ b/include/libfork/core/scheduler.hpp
@@ -66,7 +66,7 @@ struct resume_on_quasi_awaitable;
  */
 template <scheduler Sch>
 auto resume_on(Sch *dest) noexcept -> resume_on_quasi_awaitable<Sch> {
-  return resume_on_quasi_awaitable<Sch>{non_null(dest)};
+  return resume_on_quasi_awaitable<Sch>{impl::non_null(dest)};
 }
 
 /**
@@ -77,7 +77,7 @@ struct [[nodiscard("This should be immediately co_awaited")]] resume_on_quasi_aw
  private:
   Sch *m_dest;
 
-  explicit resume_on_quasi_awaitable(worker_context *dest) noexcept : m_dest{dest} {}
+  explicit resume_on_quasi_awaitable(Sch *dest) noexcept : m_dest{dest} {}
 
   friend auto resume_on<Sch>(Sch *dest) noexcept -> resume_on_quasi_awaitable;
 
@@ -85,7 +85,13 @@ struct [[nodiscard("This should be immediately co_awaited")]] resume_on_quasi_aw
   /**
    * @brief Don't suspend if on correct context.
    */
-  auto await_ready() const noexcept { return impl::tls::context() == m_dest; }
+  auto await_ready() const noexcept -> bool {
+    if constexpr (std::convertible_to<Sch *, worker_context *>) {
+      return impl::tls::context() == m_dest;
+    } else {
+      return false; // A worker cannot tell if it belongs to another kind of scheduler.
+    }
+  }
 
   /**
    * @brief Reschedule this coroutine onto the requested destination.
-- 
2.43.0


From 7d38a7f07a0c3fce683d50ad5edf02814ffd5f1d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:19:33 +0000
Subject: [PATCH 13/13] fix: regenerate the single header, which lacked the
 preceding fixes

---
 single_header/libfork.hpp | 149 +++++++++++++++++++++++++++-----------
 1 file changed, 107 insertions(+), 42 deletions(-)

diff --git a/single_header/libfork.hpp b/single_header/libfork.hpp
index 13906b5..2374bb4 100644
--- a/single_header/libfork.hpp
+++ b/single_header/libfork.hpp
@@ -566,7 +566,7 @@ LF_FORCEINLINE inline void thread_fence_seq_cst() {
 #include <bit>             // for bit_cast, has_single_bit
 #include <concepts>        // for same_as, integral, convertible_to
 #include <cstddef>         // for byte, size_t
-#include <cstdint>         // for uint16_t
+#include <cstdint>         // for uint32_t
 #include <cstdio>          // for fprintf, stderr
 #include <exception>       // for terminate
 #include <functional>      // for invoke
@@ -647,9 +647,9 @@ inline constexpr std::size_t k_new_align = __STDCPP_DEFAULT_NEW_ALIGNMENT__;
 static_assert(std::has_single_bit(k_new_align));
 
 /**
- * @brief Shorthand for `std::numeric_limits<std::unt32_t>::max()`.
+ * @brief Shorthand for `std::numeric_limits<std::uint32_t>::max()`.
  */
-static constexpr std::uint16_t k_u16_max = std::numeric_limits<std::uint16_t>::max();
+static constexpr std::uint32_t k_u32_max = std::numeric_limits<std::uint32_t>::max();
 
 /**
  * @brief A dependent value to emulate `static_assert(false)` pre c++26.
@@ -1166,8 +1166,10 @@ template <dequeable T>
 constexpr deque<T>::deque(std::ptrdiff_t cap)
     : m_top(0),
       m_bottom(0),
-      m_buf(new impl::atomic_ring_buf<T>{cap}) {
+      m_buf(nullptr) {
   m_garbage.reserve(k_garbage_reserve);
+  // Last, as the destructor would not release the buffer if anything threw after this.
+  m_buf.store(new impl::atomic_ring_buf<T>{cap}, relaxed);
 }
 
 template <dequeable T>
@@ -1208,7 +1210,8 @@ constexpr auto deque<T>::push(T const &val) -> void {
       // This should never throw as we reserve 64 slots.
       m_garbage.emplace_back(std::exchange(buf, bigger));
     }();
-    m_buf.store(buf, relaxed);
+    // A thief may see the new buffer before it sees the new value of bottom.
+    m_buf.store(buf, release);
   }
 
   // Construct new object, this does not have to be atomic as no one can steal this item until
@@ -1438,9 +1441,9 @@ class intrusive_list : impl::immovable<intrusive_list<T>> {
 // License, v. 2.0. If a copy of the MPL was not distributed with this
 // file, You can obtain one at https://mozilla.org/MPL/2.0/.
 
-#include <atomic>      // for atomic_ref, memory_order, atomic_uint16_t
+#include <atomic>      // for atomic_ref, memory_order, atomic_uint32_t
 #include <coroutine>   // for coroutine_handle
-#include <cstdint>     // for uint16_t
+#include <cstdint>     // for uint32_t
 #include <exception>   // for exception_ptr, operator==, current_exce...
 #include <memory>      // for construct_at
 #include <semaphore>   // for binary_semaphore
@@ -2000,7 +2003,7 @@ class stack {
 
 #endif /* F7577AB3_0439_404D_9D98_072AB84FBCD0 */
 
-           // for stack         // for non_null, k_u16_max                // for LF_COMPILER_EXCEPTIONS, LF_ASSERT, LF_F...
+           // for stack         // for non_null, k_u32_max                // for LF_COMPILER_EXCEPTIONS, LF_ASSERT, LF_F...
 
 /**
  * @file frame.hpp
@@ -2047,11 +2050,11 @@ class frame {
   /**
    * @brief  Number of children joined (with offset).
    */
-  std::atomic_uint16_t m_join = k_u16_max;
+  std::atomic_uint32_t m_join = k_u32_max;
   /**
    * @brief Number of times this frame has been stolen.
    */
-  std::uint16_t m_steal = 0;
+  std::uint32_t m_steal = 0;
 
 /**
  * @brief Flag to indicate if an exception has been set.
@@ -2156,26 +2159,26 @@ class frame {
   /**
    * @brief Perform a `.load(order)` on the atomic join counter.
    */
-  [[nodiscard]] auto load_joins(std::memory_order order) const noexcept -> std::uint16_t {
+  [[nodiscard]] auto load_joins(std::memory_order order) const noexcept -> std::uint32_t {
     return m_join.load(order);
   }
 
   /**
    * @brief Perform a `.fetch_sub(val, order)` on the atomic join counter.
    */
-  auto fetch_sub_joins(std::uint16_t val, std::memory_order order) noexcept -> std::uint16_t {
+  auto fetch_sub_joins(std::uint32_t val, std::memory_order order) noexcept -> std::uint32_t {
     return m_join.fetch_sub(val, order);
   }
 
   /**
    * @brief Get the number of times this frame has been stolen.
    */
-  [[nodiscard]] auto load_steals() const noexcept -> std::uint16_t { return m_steal; }
+  [[nodiscard]] auto load_steals() const noexcept -> std::uint32_t { return m_steal; }
 
   /**
    * @brief Increase the steal counter by one and return the previous value.
    */
-  auto fetch_add_steal() noexcept -> std::uint16_t { return m_steal++; }
+  auto fetch_add_steal() noexcept -> std::uint32_t { return m_steal++; }
 
   /**
    * @brief Reset the join and steal counters, must be outside a fork-join region.
@@ -2188,7 +2191,7 @@ class frame {
     // Use construct_at(...) to set non-atomically as we know we are the
     // only thread who can touch this control block until a steal which
     // would provide the required memory synchronization.
-    std::construct_at(&m_join, k_u16_max);
+    std::construct_at(&m_join, k_u32_max);
   }
 
   /**
@@ -2424,7 +2427,7 @@ class worker_context : impl::immovable<context> {
    * Notify is a function that may be called concurrently by other workers to signal to the
    * worker owning this context that a task has been submitted to a private queue.
    */
-  explicit worker_context(nullary_function_t notify) noexcept : m_notify(std::move(notify)) {
+  explicit worker_context(nullary_function_t notify) : m_notify(std::move(notify)) {
     LF_ASSERT(m_notify);
   }
 
@@ -2454,7 +2457,7 @@ class full_context : public worker_context {
   /**
    * @brief Construct a new full context object, store a copy of the user provided notification function.
    */
-  explicit full_context(nullary_function_t notify) noexcept : worker_context(std::move(notify)) {}
+  explicit full_context(nullary_function_t notify) : worker_context(std::move(notify)) {}
 
   /**
    * @brief Add a task to the work queue.
@@ -2578,6 +2581,7 @@ inline namespace ext {
     impl::tls::thread_stack.construct();
   } LF_CATCH_ALL {
     impl::tls::thread_context.destroy();
+    LF_RETHROW;
   }
 
   impl::tls::has_stack = true;
@@ -4536,7 +4540,7 @@ struct resume_on_quasi_awaitable;
  */
 template <scheduler Sch>
 auto resume_on(Sch *dest) noexcept -> resume_on_quasi_awaitable<Sch> {
-  return resume_on_quasi_awaitable<Sch>{non_null(dest)};
+  return resume_on_quasi_awaitable<Sch>{impl::non_null(dest)};
 }
 
 /**
@@ -4547,7 +4551,7 @@ struct [[nodiscard("This should be immediately co_awaited")]] resume_on_quasi_aw
  private:
   Sch *m_dest;
 
-  explicit resume_on_quasi_awaitable(worker_context *dest) noexcept : m_dest{dest} {}
+  explicit resume_on_quasi_awaitable(Sch *dest) noexcept : m_dest{dest} {}
 
   friend auto resume_on<Sch>(Sch *dest) noexcept -> resume_on_quasi_awaitable;
 
@@ -4555,7 +4559,13 @@ struct [[nodiscard("This should be immediately co_awaited")]] resume_on_quasi_aw
   /**
    * @brief Don't suspend if on correct context.
    */
-  auto await_ready() const noexcept { return impl::tls::context() == m_dest; }
+  auto await_ready() const noexcept -> bool {
+    if constexpr (std::convertible_to<Sch *, worker_context *>) {
+      return impl::tls::context() == m_dest;
+    } else {
+      return false; // A worker cannot tell if it belongs to another kind of scheduler.
+    }
+  }
 
   /**
    * @brief Reschedule this coroutine onto the requested destination.
@@ -4821,13 +4831,24 @@ schedule(Sch &&sch, F &&fun, Args &&...args) -> future<async_result_t<F, Args...
   await->set_root_sem(&share_state->sem);
 
   // If this throws then `await` will clean up the coroutine.
-  impl::ignore_t{} = impl::tls::thread_stack->release();
+  impl::stack::stacklet *stacklet = impl::tls::thread_stack->release();
 
   // We will pass a pointer to this to .schedule()
   share_state->node.construct(std::bit_cast<impl::submit_t *>(await.get()));
 
+  // clang-format off
+
   // Schedule upholds the strong exception guarantee hence, if it throws `await` cleans up.
-  std::forward<Sch>(sch).schedule(share_state->node.data());
+  LF_TRY {
+    std::forward<Sch>(sch).schedule(share_state->node.data());
+  } LF_CATCH_ALL {
+    // The coroutine must be destroyed by the owner of the stack it was allocated on.
+    *impl::tls::thread_stack = impl::stack{stacklet};
+    LF_RETHROW;
+  }
+
+  // clang-format on
+
   // If -^ didn't throw then we release ownership of the coroutine, it will be cleaned up by the worker.
   impl::ignore_t{} = await.release();
 
@@ -5085,13 +5106,16 @@ using extern_ret_ptr_t = typename detail::extern_ret_ptr_impl<R>::type;
 #include <atomic>      // for memory_order_acquire, atomic_thread_fence
 #include <bit>         // for bit_cast
 #include <coroutine>   // for coroutine_handle, noop_coroutine, suspend_...
-#include <cstdint>     // for uint16_t
+#include <cstddef>     // for size_t, ptrdiff_t
+#include <cstdint>     // for uint32_t
 #include <iterator>    // for iter_difference_t
+#include <limits>      // for numeric_limits
 #include <memory>      // for operator==, uninitialized_default_construct_n
+#include <new>         // for bad_array_new_length
 #include <span>        // for span
 #include <type_traits> // for remove_cvref_t
 #include <utility>     // for exchange
-          // for co_allocable, co_new_t, stack_allocated        // for exception_before_join       // for full_context       // for submit_handle, submit_node_t, task_handle          // for unwrap           // for stack, context        // for frame        // for stack // for unique_frame, frame_deleter      // for k_u16_max, checked_cast         // for ignore_t             // for LF_ASSERT, LF_LOG, LF_FORCEINLINE, LF_THROW         // for context_switcher               // for region
+          // for co_allocable, co_new_t, stack_allocated        // for exception_before_join       // for full_context       // for submit_handle, submit_node_t, task_handle          // for unwrap           // for stack, context        // for frame        // for stack // for unique_frame, frame_deleter      // for k_u32_max, checked_cast         // for ignore_t             // for LF_ASSERT, LF_LOG, LF_FORCEINLINE, LF_THROW         // for context_switcher               // for region
 
 /**
  * @file awaitables.hpp
@@ -5169,7 +5193,7 @@ struct context_switch_awaitable {
     // steals then we do not own the stack this coroutine is on and the resumer should not
     // take the stack otherwise, we should give-it-up and the resumer should take it.
 
-    std::uint16_t steals = std::bit_cast<frame *>(unwrap(&self))->load_steals();
+    std::uint32_t steals = std::bit_cast<frame *>(unwrap(&self))->load_steals();
 
     // Assert the above paragraphs validity.
 #ifndef NDEBUG
@@ -5253,6 +5277,10 @@ struct alloc_awaitable : std::suspend_never {
 
     LF_ASSERT(stack->top() == self->stacklet()); // Must own the stack.
 
+    if (request.count > static_cast<std::size_t>(std::numeric_limits<std::ptrdiff_t>::max()) / sizeof(T)) {
+      LF_THROW(std::bad_array_new_length{}); // The size in bytes would overflow.
+    }
+
     T *ptr = static_cast<T *>(stack->allocate(request.count * sizeof(T)));
 
     using int_t = std::iter_difference_t<T *>;
@@ -5361,7 +5389,7 @@ struct sync_fork_awaitable : fork_awaitable {
     // must not have thrown an exception. We can check if __some__ child threw an
     // exception but we cannot (generally) retrieve it as exception is not safe
     // to touch until after a join.
-    if (std::uint16_t steals_post = self->load_steals(); steals_post == steals_pre) {
+    if (std::uint32_t steals_post = self->load_steals(); steals_post == steals_pre) {
 
       // Then completed synchronously.
 
@@ -5388,7 +5416,7 @@ struct sync_fork_awaitable : fork_awaitable {
   /**
    * @brief The number of times the parent was stolen __before__ the fork.
    */
-  std::uint16_t steals_pre;
+  std::uint32_t steals_pre;
 };
 
 /**
@@ -5488,14 +5516,14 @@ struct join_awaitable {
       // Therefore no need to reset the control block.
       return true;
     }
-    // Currently:            joins() = k_u16_max - num_joined
-    // Hence:       k_u16_max - joins() = num_joined
+    // Currently:            joins() = k_u32_max - num_joined
+    // Hence:       k_u32_max - joins() = num_joined
 
     // Could use (relaxed) + (fence(acquire) in truthy branch) but, it's
     // better if we see all the decrements to joins() and avoid suspending
     // the coroutine if possible. Cannot fetch_sub() here and write to frame
     // as coroutine must be suspended first.
-    auto joined = k_u16_max - self->load_joins(std::memory_order_acquire);
+    auto joined = k_u32_max - self->load_joins(std::memory_order_acquire);
 
     if (self->load_steals() == joined) {
       LF_LOG("Sync is ready");
@@ -5511,17 +5539,17 @@ struct join_awaitable {
    * @brief Mark at join point then yield to scheduler or resume if children are done.
    */
   auto await_suspend(std::coroutine_handle<> task) const noexcept -> std::coroutine_handle<> {
-    // Currently        joins  = k_u16_max  - num_joined
-    // We set           joins  = joins()    - (k_u16_max - num_steals)
+    // Currently        joins  = k_u32_max  - num_joined
+    // We set           joins  = joins()    - (k_u32_max - num_steals)
     //                         = num_steals - num_joined
 
-    // Hence               joined = k_u16_max - num_joined
-    //         k_u16_max - joined = num_joined
+    // Hence               joined = k_u32_max - num_joined
+    //         k_u32_max - joined = num_joined
 
     auto steals = self->load_steals();
-    auto joined = self->fetch_sub_joins(k_u16_max - steals, std::memory_order_release);
+    auto joined = self->fetch_sub_joins(k_u32_max - steals, std::memory_order_release);
 
-    if (steals == k_u16_max - joined) {
+    if (steals == k_u32_max - joined) {
       // We set joins after all children had completed therefore we can resume the task.
       // Need to acquire to ensure we see all writes by other threads to the result.
       std::atomic_thread_fence(std::memory_order_acquire);
@@ -5550,7 +5578,7 @@ struct join_awaitable {
     LF_LOG("join resumes");
     // Check we have been reset.
     LF_ASSERT(self->load_steals() == 0);
-    LF_ASSERT_NO_ASSUME(self->load_joins(std::memory_order_acquire) == k_u16_max);
+    LF_ASSERT_NO_ASSUME(self->load_joins(std::memory_order_acquire) == k_u32_max);
     LF_ASSERT(self->stacklet() == tls::stack()->top());
 
     self->unsafe_rethrow_if_exception();
@@ -5976,7 +6004,7 @@ struct return_result<void, discard_t> {
 
 #endif /* A896798B_7E3B_4854_9997_89EA5AE765EB */
 
-     // for return_result      // for stack    // for byte_cast, k_u16_max       // for return_address_for, ignore_t            // for just_awaitable, just_wrapped           // for LF_LOG, LF_ASSERT, LF_FORCEINLINE, LF_ASSERT...       // for context_switcher             // for tag            // for returnable, task
+     // for return_result      // for stack    // for byte_cast, k_u32_max       // for return_address_for, ignore_t            // for just_awaitable, just_wrapped           // for LF_LOG, LF_ASSERT, LF_FORCEINLINE, LF_ASSERT...       // for context_switcher             // for tag            // for returnable, task
 
 /**
  * @file promise.hpp
@@ -6156,7 +6184,8 @@ struct promise_base : frame {
 
     awaitable->set_parent(this);
 
-    constexpr bool throwing = stash_exception_in_return<I>;
+    // If the child cannot stash its exception in the return address then it will be captured by this frame.
+    constexpr bool throwing = !stash_exception_in_return<I>;
 
     using enum region;
 
@@ -6248,7 +6277,7 @@ struct promise : promise_base, return_result<R, I> {
     // Completing a non-root task means we currently own the stack_stack this child is on
 
     LF_ASSERT(this->load_steals() == 0);                                           // Fork without join.
-    LF_ASSERT_NO_ASSUME(this->load_joins(std::memory_order_acquire) == k_u16_max); // Invalid state.
+    LF_ASSERT_NO_ASSUME(this->load_joins(std::memory_order_acquire) == k_u32_max); // Invalid state.
     LF_ASSERT(!this->unsafe_has_exception());                                      // Must have rethrown.
 
     return final_awaitable{};
@@ -7284,11 +7313,19 @@ struct numa_context {
   /**
    * @brief The minimum number of steal attempts we will make per `try_steal` operation.
    */
+#ifdef LF_VP_STEAL_ATTEMPTS // Verification only: bound the number of attempts.
+  static constexpr std::size_t k_min_steal_attempts = LF_VP_STEAL_ATTEMPTS;
+#else
   static constexpr std::size_t k_min_steal_attempts = 1024;
+#endif
   /**
    * @brief The number of steal attempts we will make per target in a `try_steal` operation.
    */
+#ifdef LF_VP_STEAL_ATTEMPTS
+  static constexpr std::size_t k_steal_attempts_per_target = 0;
+#else
   static constexpr std::size_t k_steal_attempts_per_target = 32;
+#endif
   /**
    * @brief Thread-local RNG.
    */
@@ -7589,7 +7626,14 @@ class busy_pool {
   /**
    * @brief Move assign a lazy_pool object.
    */
-  auto operator=(busy_pool &&other) noexcept -> busy_pool & = default;
+  auto operator=(busy_pool &&other) noexcept -> busy_pool & {
+    if (this != &other) {
+      // The threads of this pool must be stopped and joined before they are replaced.
+      std::destroy_at(this);
+      std::construct_at(this, std::move(other));
+    }
+    return *this;
+  }
   /**
    * @brief The busy pool is not copy assignable.
    */
@@ -7643,6 +7687,10 @@ class busy_pool {
   auto contexts() noexcept -> std::span<worker_context *> { return m_contexts; }
 
   ~busy_pool() noexcept {
+    if (!m_share) {
+      return; // Moved from, another pool owns the workers.
+    }
+
     LF_LOG("Requesting a stop");
     // Set conditions for workers to stop
     m_share->stop.test_and_set(std::memory_order_release);
@@ -8133,6 +8181,12 @@ wake_up:
     // that the requester has ensured that everyone is done. We cannot check
     // this i.e it is possible a thread that just signaled the master thread
     // is still `active` but act stalled.
+    if (auto *submission = my_context->try_pop_all()) {
+      // Submitted before the stop but after we last checked, it must not be lost.
+      my_numa_vars.notifier.cancel_wait();
+      my_context->shared().thief_work_sleep(submission, numa_tid);
+      goto wake_up;
+    }
     my_numa_vars.notifier.cancel_wait();
     my_numa_vars.notifier.notify_all();
     my_numa_vars.thief.fetch_sub(1, release);
@@ -8206,7 +8260,14 @@ class lazy_pool {
   /**
    * @brief Move assign a lazy_pool object.
    */
-  auto operator=(lazy_pool &&other) noexcept -> lazy_pool & = default;
+  auto operator=(lazy_pool &&other) noexcept -> lazy_pool & {
+    if (this != &other) {
+      // The threads of this pool must be stopped and joined before they are replaced.
+      std::destroy_at(this);
+      std::construct_at(this, std::move(other));
+    }
+    return *this;
+  }
   /**
    * @brief The lazy pool is not copy assignable.
    */
@@ -8273,6 +8334,10 @@ class lazy_pool {
    * @brief Destroy the lazy pool object, stops all workers.
    */
   ~lazy_pool() noexcept {
+    if (!m_share) {
+      return; // Moved from, another pool owns the workers.
+    }
+
     LF_LOG("Requesting a stop");
 
     // Set conditions for workers to stop.
-- 
2.43.0

