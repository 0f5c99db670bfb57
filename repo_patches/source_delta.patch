From 4487ab5c02ddbee19816a34b901a56cce02e89a6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:40:27 +0000
Subject: [PATCH 01/33] fix: construct and destroy ChunkedList items only when
 they exist

---
 redGrapes/util/chunked_list.hpp | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/redGrapes/util/chunked_list.hpp b/redGrapes/util/chunked_list.hpp
index 84629df..217fb67 100644
--- a/redGrapes/util/chunked_list.hpp
+++ b/redGrapes/util/chunked_list.hpp
@@ -145,7 +145,9 @@ namespace redGrapes
 
             ~Item()
             {
-                release<false>();
+                // only items which exist still hold the reference which was not yet dropped by `remove()`
+                if(iter_offset == 0)
+                    release<false>();
             }
 
             /* initialize value of this item.
@@ -159,7 +161,8 @@ namespace redGrapes
                 assert(iter_offset != 0);
                 assert(refcount == 0);
 
-                storage.value = value;
+                // the storage is uninitialized, so there is no value yet to be assigned to
+                new(&storage.value) T(value);
 
                 /* here, item.value is now fully initalized,
                  * so allow iterators to access this item now.
-- 
2.43.0


From e12dfce0274e12e05c0ef9e889fd4bd64ae9a8f1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:40:28 +0000
Subject: [PATCH 02/33] fix: ChunkedList::Item::acquire() must neither leak nor
 destroy an item that is removed concurrently

---
 redGrapes/util/chunked_list.hpp | 41 ++++++++++++++-------------------
 1 file changed, 17 insertions(+), 24 deletions(-)

diff --git a/redGrapes/util/chunked_list.hpp b/redGrapes/util/chunked_list.hpp
index 217fb67..5427f32 100644
--- a/redGrapes/util/chunked_list.hpp
+++ b/redGrapes/util/chunked_list.hpp
@@ -182,34 +182,27 @@ namespace redGrapes
             iter_offset_t acquire()
             {
                 iter_offset_t off = iter_offset.load();
-                refcount_t old_refcount = refcount.load();
 
-                if(off == 0 && old_refcount >= 0)
+                if(off == 0)
                 {
-                    old_refcount = refcount.fetch_add(1);
-                    off = iter_offset.load();
+                    /* get a reference, but never touch `refcount` of an item
+                     * whose data is already destructed.
+                     */
+                    refcount_t old_refcount = refcount.load();
+                    while(old_refcount >= 0 && !refcount.compare_exchange_weak(old_refcount, old_refcount + 1))
+                        ;
 
-                    if(old_refcount >= 0)
-                    {
-                        /* The item data is not already destructed,
-                         * but only when `iter_offset` is still set to `0`
-                         * as initialized by `operator=`, the item still exists.
-                         * In case `off > 0`, some thread already called `remove()`
-                         * on this iterator position.
-                         */
+                    off = iter_offset.load();
 
-                        /* keep others from falsely trying to acquire this item
-                         * if it is deleted already.
-                         */
-                        if(off != 0)
-                            --refcount;
-                    }
-                    else
-                        /* item data is already destructed.
-                         * just decrement refcount to keep others from trying to
-                         * acquire this item.
-                         */
-                        --refcount;
+                    /* The item data is not already destructed,
+                     * but only when `iter_offset` is still set to `0`
+                     * as initialized by `operator=`, the item still exists.
+                     * In case `off > 0`, some thread already called `remove()`
+                     * on this iterator position, so drop the reference again.
+                     * If this was the last one, the item data will be destructed here.
+                     */
+                    if(off != 0 && old_refcount >= 0)
+                        release();
                 }
 
                 return off;
-- 
2.43.0


From a31ba30bf8d25c3e7e3d1034f376c50b29796036 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:40:28 +0000
Subject: [PATCH 03/33] fix: ChunkedList iteration must not stop at a new chunk
 that has no items yet

---
 redGrapes/util/chunked_list.hpp | 38 +++++++++++++++++----------------
 1 file changed, 20 insertions(+), 18 deletions(-)

diff --git a/redGrapes/util/chunked_list.hpp b/redGrapes/util/chunked_list.hpp
index 5427f32..17fe07d 100644
--- a/redGrapes/util/chunked_list.hpp
+++ b/redGrapes/util/chunked_list.hpp
@@ -362,32 +362,34 @@ namespace redGrapes
              */
             void acquire_next_item()
             {
-                while(is_valid_idx())
+                while(chunk)
                 {
-                    iter_offset_t step = try_acquire();
-                    if(step == 0)
-                    {
-                        // item was successfully acquired.
-                        assert(has_item());
-                        return;
-                    }
-                    else
+                    // the index might also be invalid because there is no item in this chunk yet
+                    if(is_valid_idx())
                     {
+                        iter_offset_t step = try_acquire();
+                        if(step == 0)
+                        {
+                            // item was successfully acquired.
+                            assert(has_item());
+                            return;
+                        }
+
                         // item is not existent
                         assert(!has_item());
 
                         // jump to next valid item
                         cur_item = (uintptr_t) (get_item_ptr() - step);
+                    }
 
-                        // goto next chunk if necessary
-                        if(!is_valid_idx())
-                        {
-                            ++chunk;
-                            if(chunk)
-                                cur_item = (uintptr_t) chunk->get_last_item();
-                            else
-                                cur_item = 0;
-                        }
+                    // goto next chunk if necessary
+                    if(!is_valid_idx())
+                    {
+                        ++chunk;
+                        if(chunk)
+                            cur_item = (uintptr_t) chunk->get_last_item();
+                        else
+                            cur_item = 0;
                     }
                 }
 
-- 
2.43.0


From 87768b4b816b30f384fa195f22642820b8c779f7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:40:40 +0000
Subject: [PATCH 04/33] fix: ChunkedList::remove() must not derive the skip
 distance from an item that is only about to be created

---
 redGrapes/util/chunked_list.hpp | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/redGrapes/util/chunked_list.hpp b/redGrapes/util/chunked_list.hpp
index 17fe07d..a5e87f0 100644
--- a/redGrapes/util/chunked_list.hpp
+++ b/redGrapes/util/chunked_list.hpp
@@ -579,9 +579,15 @@ namespace redGrapes
                 if(pos.get_item_ptr() == pos.chunk->first_item)
                     pos.item().iter_offset = 1;
 
-                // if we have a predecessor in this chunk, reuse their offset
+                /* if we have a deleted predecessor in this chunk, reuse their offset.
+                 * In case the predecessor is just not initialized yet, its offset must not be used,
+                 * because it will exist soon.
+                 */
                 else
-                    pos.item().iter_offset = (pos.get_item_ptr() - 1)->iter_offset + 1;
+                {
+                    Item* pred = pos.get_item_ptr() - 1;
+                    pos.item().iter_offset = (pred->refcount < 0) ? pred->iter_offset + 1 : 1;
+                }
 
 
                 /* TODO: scan in other direction for deleted items too,
-- 
2.43.0


From 08b0128283a1f098e5aaf8307cce59117f0ad081 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:40:41 +0000
Subject: [PATCH 05/33] fix: ChunkedList::push() must stay usable after a
 failed chunk allocation

---
 redGrapes/util/chunked_list.hpp | 11 ++++++++++-
 1 file changed, 10 insertions(+), 1 deletion(-)

diff --git a/redGrapes/util/chunked_list.hpp b/redGrapes/util/chunked_list.hpp
index a5e87f0..00587f9 100644
--- a/redGrapes/util/chunked_list.hpp
+++ b/redGrapes/util/chunked_list.hpp
@@ -543,7 +543,16 @@ namespace redGrapes
                             /* here we are the first thread that overflows
                              * the current chunk, so allocate a new chunk here
                              */
-                            chunks.allocate_item();
+                            try
+                            {
+                                chunks.allocate_item();
+                            }
+                            catch(...)
+                            {
+                                // let the next thread (or the next call) try again
+                                chunk->next_item = chunk_end;
+                                throw;
+                            }
                         }
                         else
                         {
-- 
2.43.0


From 743190e415c77a4f0d5bfcde32ba67da97f92b8c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:40:41 +0000
Subject: [PATCH 06/33] fix: apply_patch() must compare with the real previous
 accesses and must not race with dependency checks

---
 redGrapes/task/property/resource.hpp | 44 +++++++++++++++++++++++-----
 redGrapes/util/chunked_list.hpp      | 14 ++++++++-
 2 files changed, 50 insertions(+), 8 deletions(-)

diff --git a/redGrapes/task/property/resource.hpp b/redGrapes/task/property/resource.hpp
index 9a2f57e..d8e5cbf 100644
--- a/redGrapes/task/property/resource.hpp
+++ b/redGrapes/task/property/resource.hpp
@@ -17,8 +17,13 @@
 #include <fmt/format.h>
 #include <spdlog/spdlog.h>
 
+#include <algorithm>
 #include <cstdarg>
+#include <list>
+#include <memory>
+#include <mutex>
 #include <stdexcept>
+#include <vector>
 
 namespace redGrapes
 {
@@ -114,23 +119,48 @@ namespace redGrapes
 
         void apply_patch(Patch const& patch)
         {
-            ResourceUser before(*this);
+            // try the patch on a copy first, so that nothing is changed in case it is not allowed
+            ResourceUser after(*this);
+            apply_diff(after, patch);
 
-            for(auto x : patch.diff)
+            if(!is_superset_of(after))
+                throw std::runtime_error("redGrapes: ResourceUserPolicy: updated access list is no subset!");
+
+            /* While holding the user-locks, no other task can be in the middle of checking its accesses
+             * against this task. So either this task was checked with its old accesses and the dependency
+             * already exists, or it will be checked with the new ones.
+             */
+            std::vector<std::shared_ptr<ResourceBase>> locked_resources;
+            for(auto u = unique_resources.rbegin(); u != unique_resources.rend(); ++u)
+                locked_resources.push_back(u->resource);
+
+            std::sort(locked_resources.begin(), locked_resources.end());
+            locked_resources.erase(
+                std::unique(locked_resources.begin(), locked_resources.end()),
+                locked_resources.end());
+
+            std::vector<std::unique_lock<SpinLock>> locks;
+            for(auto& r : locked_resources)
+                locks.emplace_back(r->users_mutex);
+
+            apply_diff(*this, patch);
+        }
+
+    private:
+        static void apply_diff(ResourceUser& user, Patch const& patch)
+        {
+            for(auto const& x : patch.diff)
             {
                 switch(x.first)
                 {
                 case Patch::DiffType::ADD:
-                    (*this) += x.second;
+                    user.add_resource_access(x.second);
                     break;
                 case Patch::DiffType::REMOVE:
-                    (*this) -= x.second;
+                    user.rm_resource_access(x.second);
                     break;
                 }
             }
-
-            if(!before.is_superset_of(*this))
-                throw std::runtime_error("redGrapes: ResourceUserPolicy: updated access list is no subset!");
         }
     };
 
diff --git a/redGrapes/util/chunked_list.hpp b/redGrapes/util/chunked_list.hpp
index 00587f9..a5f5762 100644
--- a/redGrapes/util/chunked_list.hpp
+++ b/redGrapes/util/chunked_list.hpp
@@ -492,6 +492,18 @@ namespace redGrapes
     private:
         memory::AtomicList<Chunk, Allocator> chunks;
 
+        // append all items up to `end`, beginning with the oldest one in order to preserve the order of `other`
+        void copy_items(ConstBackwardIterator it, ConstBackwardIterator const& end)
+        {
+            if(it != end)
+            {
+                T const& item = *it;
+                ConstBackwardIterator next = it;
+                copy_items(++next, end);
+                push(item);
+            }
+        }
+
     public:
         ChunkedList(Allocator&& alloc) : chunks(std::move(alloc), T_chunk_size * sizeof(Item) + sizeof(Chunk))
         {
@@ -501,7 +513,7 @@ namespace redGrapes
 
         ChunkedList(Allocator&& alloc, ChunkedList const& other) : ChunkedList(std::move(alloc))
         {
-            spdlog::error("copy construct ChunkedList!!");
+            copy_items(other.crbegin(), other.crend());
         }
 
         /* decrement item_count and in case all items of this chunk are deleted,
-- 
2.43.0


From 79aa855a89ef718bff2982a063775e84c7e0ae07 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:40:41 +0000
Subject: [PATCH 07/33] fix: update_graph() must drop every edge to an
 independent follower and keep all other followers

---
 redGrapes/task/property/graph.cpp | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/redGrapes/task/property/graph.cpp b/redGrapes/task/property/graph.cpp
index 3680c79..f92212e 100644
--- a/redGrapes/task/property/graph.cpp
+++ b/redGrapes/task/property/graph.cpp
@@ -117,14 +117,16 @@ namespace redGrapes
         for(auto it = post_event.followers.rbegin(); it != post_event.followers.rend(); ++it)
         {
             scheduler::EventPtr follower = *it;
-            if(follower.task)
+
+            // only consider the dependencies that were added by `init_graph()`
+            if(follower.tag == scheduler::T_EVT_PRE && follower.task->space == space)
             {
                 if(!space->is_serial(*this->task, *follower.task))
                 {
-                    // remove dependency
+                    // remove this dependency (there may be more than one to the same task)
                     // follower.task->in_edges.erase(std::find(std::begin(follower.task->in_edges),
                     // std::end(follower.task->in_edges), this));
-                    post_event.followers.erase(follower);
+                    post_event.followers.remove(it);
 
                     follower.notify();
                 }
-- 
2.43.0


From 2f61f76227106f9104c429938a18b91c8b315107 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:40:41 +0000
Subject: [PATCH 08/33] fix: AtomicBitfield::set() returned a wrong previous
 value for indices above 31

---
 redGrapes/util/bitfield.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/redGrapes/util/bitfield.hpp b/redGrapes/util/bitfield.hpp
index 716f42a..048bf72 100644
--- a/redGrapes/util/bitfield.hpp
+++ b/redGrapes/util/bitfield.hpp
@@ -37,7 +37,7 @@ namespace redGrapes
         inline bool set(unsigned idx, bool new_value)
         {
             __INDEX_CALC(idx, chunk_idx, k, mask)
-            unsigned old_val;
+            uint64_t old_val;
 
             switch(new_value)
             {
-- 
2.43.0


From f4e1f07f3a767fdc3d956d75e345233ba710d402 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:40:41 +0000
Subject: [PATCH 09/33] fix: activate_task() dereferenced the missing worker of
 a non-worker thread

---
 redGrapes/scheduler/default_scheduler.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/redGrapes/scheduler/default_scheduler.cpp b/redGrapes/scheduler/default_scheduler.cpp
index bf2366f..674b577 100644
--- a/redGrapes/scheduler/default_scheduler.cpp
+++ b/redGrapes/scheduler/default_scheduler.cpp
@@ -79,7 +79,8 @@ namespace redGrapes
             if(worker_id < 0)
             {
                 worker_id = next_worker.fetch_add(1) % SingletonContext::get().worker_pool->size();
-                if(worker_id == SingletonContext::get().current_worker->get_worker_id())
+                if(SingletonContext::get().current_worker
+                   && worker_id == SingletonContext::get().current_worker->get_worker_id())
                     worker_id = next_worker.fetch_add(1) % SingletonContext::get().worker_pool->size();
             }
 
-- 
2.43.0


From 7e93ddce7196117c7904f2064cee00f5abdc7d79 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:40:41 +0000
Subject: [PATCH 10/33] fix: do not register a task twice as user of the same
 resource

---
 redGrapes/resource/resource_user.cpp | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/redGrapes/resource/resource_user.cpp b/redGrapes/resource/resource_user.cpp
index 489bd05..cccf8df 100644
--- a/redGrapes/resource/resource_user.cpp
+++ b/redGrapes/resource/resource_user.cpp
@@ -39,7 +39,11 @@ namespace redGrapes
     {
         this->access_list.push(ra);
         std::shared_ptr<ResourceBase> r = ra.get_resource();
-        // unique_resources.erase(ResourceEntry{ r, r->users.end() });
+
+        for(auto u = unique_resources.rbegin(); u != unique_resources.rend(); ++u)
+            if(u->resource == r)
+                return;
+
         unique_resources.push(ResourceUsageEntry{r, r->users.rend()});
     }
 
-- 
2.43.0


From 583c975d7fd35e99295a3811d583af24e4dea527 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:40:51 +0000
Subject: [PATCH 11/33] fix: Event::add_follower() raced with reaching the
 event

---
 redGrapes/scheduler/event.cpp | 26 ++++++++++++++++++++++----
 redGrapes/scheduler/event.hpp |  6 +++++-
 2 files changed, 27 insertions(+), 5 deletions(-)

diff --git a/redGrapes/scheduler/event.cpp b/redGrapes/scheduler/event.cpp
index 566c9c4..5477bbe 100644
--- a/redGrapes/scheduler/event.cpp
+++ b/redGrapes/scheduler/event.cpp
@@ -32,14 +32,14 @@ namespace redGrapes
 
         Event::Event(Event& other)
             : state((uint16_t) other.state)
-            , waker_id(other.waker_id)
+            , waker_id(other.waker_id.load())
             , followers(memory::Allocator())
         {
         }
 
         Event::Event(Event&& other)
             : state((uint16_t) other.state)
-            , waker_id(other.waker_id)
+            , waker_id(other.waker_id.load())
             , followers(memory::Allocator())
         {
         }
@@ -68,11 +68,24 @@ namespace redGrapes
         {
             TRACE_EVENT("Event", "add_follower");
 
+            std::lock_guard<SpinLock> lock(followers_mutex);
+
             if(!is_reached())
             {
                 SPDLOG_TRACE("Event add follower");
-                followers.push(follower);
-                follower->state++;
+
+                // the edge must be counted before anyone is able to notify the follower
+                follower->up();
+
+                try
+                {
+                    followers.push(follower);
+                }
+                catch(...)
+                {
+                    follower->dn();
+                    throw;
+                }
             }
         }
 
@@ -88,6 +101,11 @@ namespace redGrapes
         {
             TRACE_EVENT("Event", "notify_followers");
 
+            // the event is reached now, so no more followers are added after the ones that are just being added
+            {
+                std::lock_guard<SpinLock> lock(followers_mutex);
+            }
+
             for(auto follower = followers.rbegin(); follower != followers.rend(); ++follower)
                 follower->notify();
         }
diff --git a/redGrapes/scheduler/event.hpp b/redGrapes/scheduler/event.hpp
index 8ff2c5c..5cad7b0 100644
--- a/redGrapes/scheduler/event.hpp
+++ b/redGrapes/scheduler/event.hpp
@@ -8,6 +8,7 @@
 #pragma once
 
 #include <redGrapes/scheduler/scheduler.hpp>
+#include <redGrapes/sync/spinlock.hpp>
 #include <redGrapes/util/chunked_list.hpp>
 
 #include <spdlog/spdlog.h>
@@ -94,7 +95,10 @@ namespace redGrapes
             std::atomic_uint16_t state;
 
             //! waker that is waiting for this event
-            WakerId waker_id;
+            std::atomic<WakerId> waker_id;
+
+            //! avoids that a follower is added while the event is just being reached
+            SpinLock followers_mutex;
 
             //! the set of subsequent events
             ChunkedList<EventPtr, REDGRAPES_EVENT_FOLLOWER_LIST_CHUNKSIZE> followers;
-- 
2.43.0


From c46213d6f4765ae40a219324adb804b3ea158830 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:40:51 +0000
Subject: [PATCH 12/33] fix: EventPtr::notify() must not touch an event after
 another notification may have destroyed it

---
 redGrapes/scheduler/event.cpp | 12 ++++++++----
 1 file changed, 8 insertions(+), 4 deletions(-)

diff --git a/redGrapes/scheduler/event.cpp b/redGrapes/scheduler/event.cpp
index 5477bbe..da25b59 100644
--- a/redGrapes/scheduler/event.cpp
+++ b/redGrapes/scheduler/event.cpp
@@ -174,12 +174,16 @@ namespace redGrapes
                     task->delete_from_resources();
             }
 
-            // if event is ready or reached (state ∈ {0,1})
-            if(state <= 1 && this->get_event().waker_id >= 0)
-                SingletonContext::get().scheduler->wake(this->get_event().waker_id);
-
+            /* NOTE: unless the event is reached, another notification might already have caused the destruction
+             * of this event, so it must not be touched any more
+             */
             if(state == 0)
             {
+                // wake the thread that is waiting for this event
+                WakerId waker_id = this->get_event().waker_id;
+                if(waker_id >= 0)
+                    SingletonContext::get().scheduler->wake(waker_id);
+
                 this->get_event().notify_followers();
 
                 // the second one of either post-event or result-get-event shall destroy the task
-- 
2.43.0


From c085de387dd524dade8bab542815acc6e6ef44b3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:40:51 +0000
Subject: [PATCH 13/33] fix: a paused task could be activated before its
 pausation was complete

---
 redGrapes/dispatch/thread/execute.cpp | 3 +--
 redGrapes/task/property/graph.hpp     | 6 +++++-
 2 files changed, 6 insertions(+), 3 deletions(-)

diff --git a/redGrapes/dispatch/thread/execute.cpp b/redGrapes/dispatch/thread/execute.cpp
index 2e2dc25..a4dae00 100644
--- a/redGrapes/dispatch/thread/execute.cpp
+++ b/redGrapes/dispatch/thread/execute.cpp
@@ -38,10 +38,9 @@ namespace thread
 
         if(event)
         {
-            event->get_event().waker_id = current_worker->get_waker_id();
             task.sg_pause(*event);
 
-            task.pre_event.up();
+            // from here on, the task may be continued by any worker
             task.get_pre_event().notify();
         }
         else
diff --git a/redGrapes/task/property/graph.hpp b/redGrapes/task/property/graph.hpp
index d7d7cad..f8ceccc 100644
--- a/redGrapes/task/property/graph.hpp
+++ b/redGrapes/task/property/graph.hpp
@@ -130,7 +130,11 @@ namespace redGrapes
          */
         inline void sg_pause(scheduler::EventPtr event)
         {
-            pre_event.state = 1;
+            /* one for the task itself and one for the currently ongoing pausation,
+             * which has to be removed by notifying the pre-event.
+             * until then, the task will not be activated.
+             */
+            pre_event.state = 2;
             event->add_follower(get_pre_event());
         }
 
-- 
2.43.0


From 5a8abbd7a8095f59afeaf28973a029ecbbfe4540 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:41:07 +0000
Subject: [PATCH 14/33] fix: release task memory to the arena it came from,
 also without workers

---
 redGrapes/task/task_space.cpp | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/redGrapes/task/task_space.cpp b/redGrapes/task/task_space.cpp
index c889d53..f494513 100644
--- a/redGrapes/task/task_space.cpp
+++ b/redGrapes/task/task_space.cpp
@@ -56,8 +56,7 @@ namespace redGrapes
         task->~Task();
 
         // FIXME: len of the Block is not correct since FunTask object is bigger than sizeof(Task)
-        SingletonContext::get().worker_pool->get_worker(arena_id).alloc.deallocate(
-            memory::Block{(uintptr_t) task, sizeof(Task)});
+        memory::Allocator(arena_id).deallocate(memory::Block{(uintptr_t) task, sizeof(Task)});
 
         // TODO: implement this using post-event of root-task?
         //  - event already has in_edge count
-- 
2.43.0


From 47b1c2a128c2ed7e6d1d600a96b40bf39df7789a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:41:07 +0000
Subject: [PATCH 15/33] fix: a task is finished not before its children, and
 barrier() must not depend on held futures

---
 redGrapes/scheduler/event.cpp     |  7 ++++++-
 redGrapes/task/property/graph.cpp |  7 +------
 redGrapes/task/property/graph.hpp |  1 -
 redGrapes/task/task_space.cpp     | 29 ++++++++++++++++++++++++-----
 redGrapes/task/task_space.hpp     |  8 +++++++-
 5 files changed, 38 insertions(+), 14 deletions(-)

diff --git a/redGrapes/scheduler/event.cpp b/redGrapes/scheduler/event.cpp
index da25b59..6bdd14a 100644
--- a/redGrapes/scheduler/event.cpp
+++ b/redGrapes/scheduler/event.cpp
@@ -190,8 +190,13 @@ namespace redGrapes
                 if(task)
                     if(tag == scheduler::T_EVT_POST || tag == scheduler::T_EVT_RES_GET)
                     {
+                        std::shared_ptr<TaskSpace> space = task->space;
+
                         if(task->removal_countdown.fetch_sub(1) == 1)
-                            task->space->free_task(task);
+                            space->free_task(task);
+
+                        if(tag == scheduler::T_EVT_POST)
+                            space->task_finished();
                     }
             }
 
diff --git a/redGrapes/task/property/graph.cpp b/redGrapes/task/property/graph.cpp
index f92212e..297ca05 100644
--- a/redGrapes/task/property/graph.cpp
+++ b/redGrapes/task/property/graph.cpp
@@ -73,12 +73,7 @@ namespace redGrapes
             }
         }
 
-        // add dependency to parent
-        if(auto parent = this->space->parent)
-        {
-            SPDLOG_TRACE("add event dep to parent");
-            this->post_event.add_follower(parent->get_post_event());
-        }
+        // the dependency to the parent task already exists since `TaskSpace::submit()`
     }
 
     void GraphProperty::delete_from_resources()
diff --git a/redGrapes/task/property/graph.hpp b/redGrapes/task/property/graph.hpp
index f8ceccc..61f3a98 100644
--- a/redGrapes/task/property/graph.hpp
+++ b/redGrapes/task/property/graph.hpp
@@ -150,7 +150,6 @@ namespace redGrapes
          * Abstractly adds a dependeny from preceding task to this,
          * by setting up an edge from the post-event of the
          * preceding task to the pre-event of this task.
-         * Additionally, an edge to the post-event of the parent is added.
          */
         void add_dependency(Task& preceding_task);
 
diff --git a/redGrapes/task/task_space.cpp b/redGrapes/task/task_space.cpp
index f494513..58f9064 100644
--- a/redGrapes/task/task_space.cpp
+++ b/redGrapes/task/task_space.cpp
@@ -43,26 +43,41 @@ namespace redGrapes
 
     bool TaskSpace::empty() const
     {
-        unsigned tc = task_count.load();
-        return tc == 0;
+        // wait until the thread which finished the last task does not need the scheduler any more
+        std::lock_guard<std::mutex> lock(finish_mutex);
+        return task_count == 0;
     }
 
     void TaskSpace::free_task(Task* task)
     {
         TRACE_EVENT("TaskSpace", "free_task()");
-        unsigned count = task_count.fetch_sub(1) - 1;
 
         unsigned arena_id = task->arena_id;
         task->~Task();
 
         // FIXME: len of the Block is not correct since FunTask object is bigger than sizeof(Task)
         memory::Allocator(arena_id).deallocate(memory::Block{(uintptr_t) task, sizeof(Task)});
+    }
+
+    void TaskSpace::task_finished()
+    {
+        TRACE_EVENT("TaskSpace", "task_finished()");
+
+        // the parent task is finished not before all of its children
+        if(parent)
+        {
+            --task_count;
+            parent->get_post_event().notify();
+            return;
+        }
+
+        std::lock_guard<std::mutex> lock(finish_mutex);
 
         // TODO: implement this using post-event of root-task?
         //  - event already has in_edge count
         //  -> never have current_task = nullptr
         // spdlog::info("kill task... {} remaining", count);
-        if(count == 0)
+        if(--task_count == 0)
             SingletonContext::get().scheduler->wake_all();
     }
 
@@ -72,10 +87,14 @@ namespace redGrapes
         task->space = shared_from_this();
         task->task = task;
 
+        if(parent)
+            assert(this->is_superset(*parent, *task));
+
         ++task_count;
 
+        // the parent task is finished not before all of its children
         if(parent)
-            assert(this->is_superset(*parent, *task));
+            parent->post_event.up();
 
         for(auto r = task->unique_resources.rbegin(); r != task->unique_resources.rend(); ++r)
         {
diff --git a/redGrapes/task/task_space.hpp b/redGrapes/task/task_space.hpp
index 71e7c98..211e1e8 100644
--- a/redGrapes/task/task_space.hpp
+++ b/redGrapes/task/task_space.hpp
@@ -45,10 +45,16 @@ namespace redGrapes
         // add a new task to the task-space
         void submit(Task* task);
 
-        // remove task from task-space
+        // destroy the task and release its memory
         void free_task(Task* task);
 
+        // remove a finished task from task-space
+        void task_finished();
+
         bool empty() const;
+
+    private:
+        mutable std::mutex finish_mutex;
     };
 
 } // namespace redGrapes
-- 
2.43.0


From 9ea1383e689996e72d7c77d76c05fa621ab3df76 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:41:21 +0000
Subject: [PATCH 16/33] fix: concurrently created tasks must be ordered the
 same on all shared resources

---
 redGrapes/task/task_space.cpp | 3 +++
 redGrapes/task/task_space.hpp | 1 +
 2 files changed, 4 insertions(+)

diff --git a/redGrapes/task/task_space.cpp b/redGrapes/task/task_space.cpp
index 58f9064..1100dc4 100644
--- a/redGrapes/task/task_space.cpp
+++ b/redGrapes/task/task_space.cpp
@@ -90,6 +90,9 @@ namespace redGrapes
         if(parent)
             assert(this->is_superset(*parent, *task));
 
+        // with multiple threads creating tasks, their order must be the same on all resources
+        std::lock_guard<std::mutex> lock(submit_mutex);
+
         ++task_count;
 
         // the parent task is finished not before all of its children
diff --git a/redGrapes/task/task_space.hpp b/redGrapes/task/task_space.hpp
index 211e1e8..300acea 100644
--- a/redGrapes/task/task_space.hpp
+++ b/redGrapes/task/task_space.hpp
@@ -54,6 +54,7 @@ namespace redGrapes
         bool empty() const;
 
     private:
+        std::mutex submit_mutex;
         mutable std::mutex finish_mutex;
     };
 
-- 
2.43.0


From b0db2b42d9cf906bf4f85c576d71ceca303e6c91 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:41:21 +0000
Subject: [PATCH 17/33] fix: a task whose submission fails must not block
 others forever

---
 redGrapes/task/task_space.cpp | 18 ++++++++++++++----
 1 file changed, 14 insertions(+), 4 deletions(-)

diff --git a/redGrapes/task/task_space.cpp b/redGrapes/task/task_space.cpp
index 1100dc4..4798ecb 100644
--- a/redGrapes/task/task_space.cpp
+++ b/redGrapes/task/task_space.cpp
@@ -99,12 +99,22 @@ namespace redGrapes
         if(parent)
             parent->post_event.up();
 
-        for(auto r = task->unique_resources.rbegin(); r != task->unique_resources.rend(); ++r)
+        try
         {
-            r->task_entry = r->resource->users.push(task);
-        }
+            for(auto r = task->unique_resources.rbegin(); r != task->unique_resources.rend(); ++r)
+            {
+                r->task_entry = r->resource->users.push(task);
+            }
 
-        SingletonContext::get().scheduler->emplace_task(*task);
+            SingletonContext::get().scheduler->emplace_task(*task);
+        }
+        catch(...)
+        {
+            // the task will never run and nobody will get its result, so remove it again
+            task->get_result_get_event().notify();
+            task->get_post_event().notify();
+            throw;
+        }
     }
 
 } // namespace redGrapes
-- 
2.43.0


From 7957075757609b531a25574ce8c8d562823f8ee6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:41:22 +0000
Subject: [PATCH 18/33] fix: AtomicList iterator must load the previous chunk
 atomically

---
 redGrapes/util/atomic_list.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/redGrapes/util/atomic_list.hpp b/redGrapes/util/atomic_list.hpp
index f67cc00..16b1841 100644
--- a/redGrapes/util/atomic_list.hpp
+++ b/redGrapes/util/atomic_list.hpp
@@ -240,7 +240,7 @@ namespace redGrapes
                     if(c)
                     {
                         c->skip_deleted_prev();
-                        c = c->prev;
+                        c = std::atomic_load(&c->prev);
                     }
 
                     return *this;
-- 
2.43.0


From e1f79df83aa4a046e3d7842b4762930167fc9209 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:41:22 +0000
Subject: [PATCH 19/33] fix: AtomicList must free the full chunk size and
 report failed allocations

---
 redGrapes/util/atomic_list.hpp | 13 +++++++++++--
 1 file changed, 11 insertions(+), 2 deletions(-)

diff --git a/redGrapes/util/atomic_list.hpp b/redGrapes/util/atomic_list.hpp
index 16b1841..3900864 100644
--- a/redGrapes/util/atomic_list.hpp
+++ b/redGrapes/util/atomic_list.hpp
@@ -18,6 +18,7 @@
 #include <cstddef>
 #include <cstdint>
 #include <memory>
+#include <new>
 #include <optional>
 
 namespace redGrapes
@@ -104,19 +105,27 @@ namespace redGrapes
 
                 Allocator alloc;
                 T* ptr;
+                size_t n_bytes;
 
-                StaticAlloc(Allocator alloc, size_t n_bytes) : alloc(alloc), ptr((T*) alloc.allocate(n_bytes))
+                StaticAlloc(Allocator alloc, size_t n_bytes)
+                    : alloc(alloc)
+                    , ptr((T*) alloc.allocate(n_bytes))
+                    , n_bytes(n_bytes)
                 {
                 }
 
                 template<typename U>
                 constexpr StaticAlloc(StaticAlloc<U> const& other) noexcept : alloc(other.alloc)
                                                                             , ptr((T*) other.ptr)
+                                                                            , n_bytes(other.n_bytes)
                 {
                 }
 
-                T* allocate(size_t n) noexcept
+                T* allocate(size_t n)
                 {
+                    if(!ptr)
+                        throw std::bad_alloc();
+
                     return ptr;
                 }
 
-- 
2.43.0


From 592e6f25ba0daa55f7e55d51d9723c3d6820a11e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:41:22 +0000
Subject: [PATCH 20/33] fix: ChunkedBumpAlloc must not drop used chunks, leak
 unused ones, or hang on unsatisfiable requests

---
 redGrapes/memory/bump_allocator.cpp     | 11 +++--
 redGrapes/memory/chunked_bump_alloc.hpp | 57 ++++++++++++++++---------
 redGrapes/util/atomic_list.hpp          | 33 +++++++++++++-
 3 files changed, 77 insertions(+), 24 deletions(-)

diff --git a/redGrapes/memory/bump_allocator.cpp b/redGrapes/memory/bump_allocator.cpp
index ba77e2a..f66f3af 100644
--- a/redGrapes/memory/bump_allocator.cpp
+++ b/redGrapes/memory/bump_allocator.cpp
@@ -57,14 +57,19 @@ namespace redGrapes
 
         Block BumpAllocator::allocate(size_t n_bytes)
         {
+            /* increment `count` first, so that whenever this allocator is `full()`
+             * all blocks which were successfully allocated are already counted
+             */
+            count++;
+
             uintptr_t addr = next_addr.fetch_sub(n_bytes) - n_bytes;
             if(addr >= lower_limit)
-            {
-                count++;
                 return Block{addr, n_bytes};
-            }
             else
+            {
+                count--;
                 return Block::null();
+            }
         }
 
         uint16_t BumpAllocator::deallocate(Block blk)
diff --git a/redGrapes/memory/chunked_bump_alloc.hpp b/redGrapes/memory/chunked_bump_alloc.hpp
index 20a6e87..adc659f 100644
--- a/redGrapes/memory/chunked_bump_alloc.hpp
+++ b/redGrapes/memory/chunked_bump_alloc.hpp
@@ -22,6 +22,7 @@
 #include <cstdint>
 #include <memory>
 #include <mutex>
+#include <new>
 #include <vector>
 
 // #include <redGrapes_config.hpp>
@@ -79,14 +80,32 @@ namespace redGrapes
                 return s;
             }
 
+            /* erase the chunk if it is exhausted and none of its blocks is in use
+             *
+             * NOTE: `full()` must be checked before `empty()`. A full chunk will not hand out any
+             * further blocks, but as long as it is not full, any other thread could still allocate from it.
+             */
+            template<typename ChunkIterator>
+            void erase_if_unused(ChunkIterator const& chunk)
+            {
+                if(chunk->full() && chunk->empty())
+                {
+                    SPDLOG_TRACE("ChunkedBumpAlloc: erase chunk");
+                    bump_allocators.erase(chunk);
+                    bump_allocators.rbegin().optimize();
+                }
+            }
+
             Block allocate(std::size_t n = 1) noexcept
             {
                 TRACE_EVENT("Allocator", "ChunkedBumpAlloc::allocate()");
                 size_t alloc_size = roundup_to_poweroftwo(n);
 
-                size_t const chunk_capacity = bump_allocators.get_chunk_capacity();
+                // the metadata of the chunk is stored inside of it too
+                size_t const chunk_capacity = bump_allocators.get_chunk_capacity()
+                                              - bump_allocators.get_controlblock_size() - sizeof(BumpAllocator);
 
-                if(alloc_size <= chunk_capacity)
+                if(n <= chunk_capacity && alloc_size <= chunk_capacity)
                 {
                     Block blk = Block::null();
 
@@ -98,14 +117,23 @@ namespace redGrapes
                         if(chunk != bump_allocators.rend())
                         {
                             blk = chunk->allocate(alloc_size);
+                            if(blk)
+                                break;
+
+                            // chunk is full and maybe all its blocks are already deallocated
+                            erase_if_unused(chunk);
+                        }
 
-                            // chunk is full, create a new one
-                            if(!blk)
-                                bump_allocators.allocate_item();
+                        // chunk is full or no chunk exists, create a new one
+                        try
+                        {
+                            bump_allocators.try_allocate_next_item(chunk);
+                        }
+                        catch(std::bad_alloc const&)
+                        {
+                            spdlog::error("ChunkedBumpAlloc: could not allocate a new chunk");
+                            return Block::null();
                         }
-                        // no chunk exists, create a new one
-                        else
-                            bump_allocators.allocate_item();
                     }
 
                     SPDLOG_TRACE("ChunkedBumpAlloc: alloc {},{}", blk.ptr, blk.len);
@@ -130,7 +158,6 @@ namespace redGrapes
                  * Additionally, delete the chunk if possible.
                  */
 
-                auto prev = bump_allocators.rbegin();
                 for(auto it = bump_allocators.rbegin(); it != bump_allocators.rend(); ++it)
                 {
                     if(it->owns(blk))
@@ -139,19 +166,11 @@ namespace redGrapes
                          * and this chunk is not `head`,
                          * remove this chunk
                          */
-                        if(it->deallocate(blk) == 1)
-                        {
-                            SPDLOG_TRACE("ChunkedBumpAlloc: erase chunk");
-                            if(it->full())
-                            {
-                                bump_allocators.erase(it);
-                                prev.optimize();
-                            }
-                        }
+                        it->deallocate(blk);
+                        erase_if_unused(it);
 
                         return;
                     }
-                    prev = it;
                 }
 
 #if REDGRAPES_ENABLE_BACKWARDCPP
diff --git a/redGrapes/util/atomic_list.hpp b/redGrapes/util/atomic_list.hpp
index 3900864..a5d13fe 100644
--- a/redGrapes/util/atomic_list.hpp
+++ b/redGrapes/util/atomic_list.hpp
@@ -129,9 +129,10 @@ namespace redGrapes
                     return ptr;
                 }
 
-                void deallocate(T* p, std::size_t n) noexcept
+                void deallocate(T* p, std::size_t) noexcept
                 {
-                    alloc.deallocate(Block{.ptr = (uintptr_t) p, .len = sizeof(T) * n});
+                    // give back everything that was allocated, not only the part requested by `allocate_shared`
+                    alloc.deallocate(Block{.ptr = (uintptr_t) p, .len = n_bytes});
                 }
             };
 
@@ -206,6 +207,34 @@ namespace redGrapes
                 return try_append_first_item(std::move(sharedChunk));
             }
 
+            /** allocate a new item, but only add it to the list if `old_head` is still the head.
+             *
+             * If more than one thread tries to extend the same head, only one of them will successfully add an item,
+             * so no unused item ends up in the middle of the list.
+             */
+            template<typename Iterator>
+            bool try_allocate_next_item(Iterator const& old_head)
+            {
+                TRACE_EVENT("Allocator", "AtomicList::try_allocate_next_item()");
+                StaticAlloc<void> chunk_alloc(this->alloc, get_chunk_allocsize());
+
+                // this block will contain the Item-data of ItemControlBlock
+                memory::Block blk{
+                    .ptr = (uintptr_t) chunk_alloc.ptr + get_controlblock_size(),
+                    .len = chunk_capacity - get_controlblock_size()};
+
+                auto new_head = std::allocate_shared<ItemControlBlock>(chunk_alloc, blk);
+                std::shared_ptr<ItemControlBlock> expected = old_head.c;
+                new_head->prev = expected;
+                bool appended = std::atomic_compare_exchange_strong<ItemControlBlock>(&head, &expected, new_head);
+
+                // `old_head` itself might be deleted already
+                if(appended)
+                    new_head->skip_deleted_prev();
+
+                return appended;
+            }
+
             /** @} */
 
             template<bool is_const = false>
-- 
2.43.0


From ecab66cbc96d961d1190cc2eb0930cfc2586f3cd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:41:22 +0000
Subject: [PATCH 21/33] fix: StdAllocator must report a failed allocation

---
 redGrapes/memory/allocator.hpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/redGrapes/memory/allocator.hpp b/redGrapes/memory/allocator.hpp
index 5167b26..3e343bd 100644
--- a/redGrapes/memory/allocator.hpp
+++ b/redGrapes/memory/allocator.hpp
@@ -7,6 +7,7 @@
 #include <spdlog/spdlog.h>
 
 #include <memory>
+#include <new>
 
 namespace redGrapes
 {
@@ -67,6 +68,9 @@ namespace redGrapes
                     n * sizeof(T),
                     boost::core::demangle(typeid(T).name()));
 
+                if(!blk)
+                    throw std::bad_alloc();
+
                 return (T*) blk.ptr;
             }
 
-- 
2.43.0


From 89236e895a45ed3c2a7f0a8169260f4f4c287278 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:50:43 +0000
Subject: [PATCH 22/33] fix: creating a ResourceAccess may fail and must be
 able to report that

---
 redGrapes/resource/fieldresource.hpp | 4 ++--
 redGrapes/resource/ioresource.hpp    | 4 ++--
 2 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/redGrapes/resource/fieldresource.hpp b/redGrapes/resource/fieldresource.hpp
index 9e8793b..57e9d84 100644
--- a/redGrapes/resource/fieldresource.hpp
+++ b/redGrapes/resource/fieldresource.hpp
@@ -161,7 +161,7 @@ namespace redGrapes
                 return this->obj.get();
             }
 
-            operator ResourceAccess() const noexcept
+            operator ResourceAccess() const
             {
                 return this->make_access(access::FieldAccess<dim>(access::IOAccess::read, this->m_area));
             }
@@ -211,7 +211,7 @@ namespace redGrapes
                 return this->obj.get();
             }
 
-            operator ResourceAccess() const noexcept
+            operator ResourceAccess() const
             {
                 return this->make_access(access::FieldAccess<dim>(access::IOAccess::write, this->m_area));
             }
diff --git a/redGrapes/resource/ioresource.hpp b/redGrapes/resource/ioresource.hpp
index 07efea4..16c75e6 100644
--- a/redGrapes/resource/ioresource.hpp
+++ b/redGrapes/resource/ioresource.hpp
@@ -24,7 +24,7 @@ namespace redGrapes
         template<typename T>
         struct ReadGuard : public SharedResourceObject<T, access::IOAccess>
         {
-            operator ResourceAccess() const noexcept
+            operator ResourceAccess() const
             {
                 return this->make_access(access::IOAccess::read);
             }
@@ -58,7 +58,7 @@ namespace redGrapes
         template<typename T>
         struct WriteGuard : public ReadGuard<T>
         {
-            operator ResourceAccess() const noexcept
+            operator ResourceAccess() const
             {
                 return this->make_access(access::IOAccess::write);
             }
-- 
2.43.0


From 28a9984f20e1dd501baf23c65029b78f035d2e29 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:54:56 +0000
Subject: [PATCH 23/33] fix: TaskBuilder must not leak the task if its
 construction fails

---
 redGrapes/task/task_builder.hpp | 25 +++++++++++++++++--------
 1 file changed, 17 insertions(+), 8 deletions(-)

diff --git a/redGrapes/task/task_builder.hpp b/redGrapes/task/task_builder.hpp
index 6f6af0c..218a710 100644
--- a/redGrapes/task/task_builder.hpp
+++ b/redGrapes/task/task_builder.hpp
@@ -80,16 +80,25 @@ namespace redGrapes
 
             task->arena_id = SingletonContext::get().current_arena;
 
-            // init properties from args
-            PropBuildHelper<TaskBuilder> build_helper{*this};
-            pass(build_helper.template build<Args>(std::forward<Args>(args))...);
-            build_helper.foo();
+            try
+            {
+                // init properties from args
+                PropBuildHelper<TaskBuilder> build_helper{*this};
+                pass(build_helper.template build<Args>(std::forward<Args>(args))...);
+                build_helper.foo();
 
-            // init id
-            this->init_id();
+                // init id
+                this->init_id();
 
-            // set impl
-            task->impl.emplace(BindArgs{}(std::move(f), std::forward<Args>(args)...));
+                // set impl
+                task->impl.emplace(BindArgs{}(std::move(f), std::forward<Args>(args)...));
+            }
+            catch(...)
+            {
+                // the destructor of this builder will not be called
+                space->free_task(task);
+                throw;
+            }
         }
 
         TaskBuilder(TaskBuilder& other)
-- 
2.43.0


From fac716e0b157b42acb94060ddca411defbb6c88b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:38:05 +0000
Subject: [PATCH 24/33] fix: AtomicList must not keep erased chunks nobody
 iterates over

Erased chunks were only unlinked when an iterator came along. As iterators
usually stop before, long-running programs accumulated erased chunks of
allocators and resource users without bound.
---
 redGrapes/memory/chunked_bump_alloc.hpp |  1 -
 redGrapes/util/atomic_list.hpp          | 11 +++++++++--
 2 files changed, 9 insertions(+), 3 deletions(-)

diff --git a/redGrapes/memory/chunked_bump_alloc.hpp b/redGrapes/memory/chunked_bump_alloc.hpp
index adc659f..939afad 100644
--- a/redGrapes/memory/chunked_bump_alloc.hpp
+++ b/redGrapes/memory/chunked_bump_alloc.hpp
@@ -92,7 +92,6 @@ namespace redGrapes
                 {
                     SPDLOG_TRACE("ChunkedBumpAlloc: erase chunk");
                     bump_allocators.erase(chunk);
-                    bump_allocators.rbegin().optimize();
                 }
             }
 
diff --git a/redGrapes/util/atomic_list.hpp b/redGrapes/util/atomic_list.hpp
index a5d13fe..3750b93 100644
--- a/redGrapes/util/atomic_list.hpp
+++ b/redGrapes/util/atomic_list.hpp
@@ -311,8 +311,9 @@ namespace redGrapes
                 return ConstBackwardIterator{std::shared_ptr<ItemControlBlock>()};
             }
 
-            /* Flags chunk at `pos` as erased. Actual removal is delayed until
-             * iterator stumbles over it.
+            /* Flags chunk at `pos` as erased and unlinks it from the list,
+             * it is freed when no iterator refers to it anymore.
+             * In case it is `head`, it will be unlinked later.
              *
              * Since we only append to the end and `chunk` is not `head`,
              * there wont occur any inserts after this chunk.
@@ -320,6 +321,12 @@ namespace redGrapes
             void erase(MutBackwardIterator pos)
             {
                 pos.erase();
+
+                /* iterators usually stop early, so nobody else might ever come along
+                 * the erased chunks. Stumble over all of them here.
+                 */
+                for(auto it = rbegin(); it != rend(); ++it)
+                    ;
             }
 
             /* atomically appends a floating chunk to this list
-- 
2.43.0


From 5fda52f2d8d073f45cdfa4a4afc3986ee07bb69b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:38:39 +0000
Subject: [PATCH 25/33] fix: events with more than 65535 incoming edges must
 not be reached early

---
 redGrapes/scheduler/event.cpp | 8 ++++----
 redGrapes/scheduler/event.hpp | 2 +-
 2 files changed, 5 insertions(+), 5 deletions(-)

diff --git a/redGrapes/scheduler/event.cpp b/redGrapes/scheduler/event.cpp
index 6bdd14a..14bd5e7 100644
--- a/redGrapes/scheduler/event.cpp
+++ b/redGrapes/scheduler/event.cpp
@@ -31,14 +31,14 @@ namespace redGrapes
         }
 
         Event::Event(Event& other)
-            : state((uint16_t) other.state)
+            : state((uint32_t) other.state)
             , waker_id(other.waker_id.load())
             , followers(memory::Allocator())
         {
         }
 
         Event::Event(Event&& other)
-            : state((uint16_t) other.state)
+            : state((uint32_t) other.state)
             , waker_id(other.waker_id.load())
             , followers(memory::Allocator())
         {
@@ -123,8 +123,8 @@ namespace redGrapes
         {
             TRACE_EVENT("Event", "notify");
 
-            int old_state = this->get_event().state.fetch_sub(1);
-            int state = old_state - 1;
+            uint32_t old_state = this->get_event().state.fetch_sub(1);
+            uint32_t state = old_state - 1;
 
             std::string tag_string;
             switch(this->tag)
diff --git a/redGrapes/scheduler/event.hpp b/redGrapes/scheduler/event.hpp
index 5cad7b0..6346826 100644
--- a/redGrapes/scheduler/event.hpp
+++ b/redGrapes/scheduler/event.hpp
@@ -92,7 +92,7 @@ namespace redGrapes
             /*! number of incoming edges
              * state == 0: event is reached and can be removed
              */
-            std::atomic_uint16_t state;
+            std::atomic_uint32_t state;
 
             //! waker that is waiting for this event
             std::atomic<WakerId> waker_id;
-- 
2.43.0


From 00294ac9a842ea045efdf315506835931d9bd60d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:38:39 +0000
Subject: [PATCH 26/33] fix: BumpAllocator must be able to count more than
 65535 blocks

---
 redGrapes/memory/bump_allocator.cpp | 2 +-
 redGrapes/memory/bump_allocator.hpp | 4 ++--
 2 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/redGrapes/memory/bump_allocator.cpp b/redGrapes/memory/bump_allocator.cpp
index f66f3af..d8701c1 100644
--- a/redGrapes/memory/bump_allocator.cpp
+++ b/redGrapes/memory/bump_allocator.cpp
@@ -72,7 +72,7 @@ namespace redGrapes
             }
         }
 
-        uint16_t BumpAllocator::deallocate(Block blk)
+        size_t BumpAllocator::deallocate(Block blk)
         {
             assert(owns(blk));
             return count.fetch_sub(1);
diff --git a/redGrapes/memory/bump_allocator.hpp b/redGrapes/memory/bump_allocator.hpp
index f6aa939..60d9d12 100644
--- a/redGrapes/memory/bump_allocator.hpp
+++ b/redGrapes/memory/bump_allocator.hpp
@@ -55,11 +55,11 @@ namespace redGrapes
             /*! @return how many active allocations remain,
              * if it returns 0, this allocator needs to be reset.
              */
-            uint16_t deallocate(Block blk);
+            size_t deallocate(Block blk);
 
         private:
             //! number of active allocations
-            std::atomic<uint16_t> count;
+            std::atomic<size_t> count;
 
             //! pointer to the upper-limit of the next allocation
             std::atomic<uintptr_t> next_addr;
-- 
2.43.0


From 84be88b9253ce21cce2f9df891681086d4ec9e21 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:41:33 +0000
Subject: [PATCH 27/33] fix: threads in which Context::idle is not set must be
 able to wait

Context::idle is thread local and set in the thread that constructed the
context only. barrier(), finalize() and Future::get() in any other thread,
e.g. one that creates tasks besides the main thread, called an empty
std::function and threw std::bad_function_call.
---
 redGrapes/redGrapes.cpp | 15 +++++++++++++--
 1 file changed, 13 insertions(+), 2 deletions(-)

diff --git a/redGrapes/redGrapes.cpp b/redGrapes/redGrapes.cpp
index 9d1e502..afe0121 100644
--- a/redGrapes/redGrapes.cpp
+++ b/redGrapes/redGrapes.cpp
@@ -17,6 +17,7 @@
 #include <functional>
 #include <memory>
 #include <optional>
+#include <thread>
 
 #if REDGRAPES_ENABLE_TRACE
 PERFETTO_TRACK_EVENT_STATIC_STORAGE();
@@ -32,6 +33,16 @@ namespace redGrapes
     thread_local scheduler::WakerId Context::current_waker_id;
     thread_local std::shared_ptr<dispatch::thread::WorkerThread> Context::current_worker;
 
+    //! wait in a thread which runs no task; `idle` is only set in the thread
+    //! that created the context and where the user has set it.
+    static void idle_once()
+    {
+        if(Context::idle)
+            Context::idle();
+        else
+            std::this_thread::yield();
+    }
+
     Context::Context()
     {
         idle = [this] { this->scheduler->idle(); };
@@ -138,7 +149,7 @@ namespace redGrapes
         SPDLOG_TRACE("barrier");
 
         while(!root_space->empty())
-            idle();
+            idle_once();
     }
 
     void Context::finalize()
@@ -165,7 +176,7 @@ namespace redGrapes
         {
             event->waker_id = Context::current_waker_id;
             while(!event->is_reached())
-                idle();
+                idle_once();
         }
     }
 
-- 
2.43.0


From 7db95e1744c86aac676bdd2977103573d44b0652 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:05:55 +0000
Subject: [PATCH 28/33] fix: init() must clean up if it fails

When a worker thread could not be created or a worker could not be
allocated, init() left the other workers running, with joinable threads
and without a way to end them: the next init(), or the end of the process,
terminated it or asserted.
---
 redGrapes/dispatch/thread/worker.cpp |  4 +++-
 redGrapes/redGrapes.cpp              | 22 ++++++++++++++++++----
 2 files changed, 21 insertions(+), 5 deletions(-)

diff --git a/redGrapes/dispatch/thread/worker.cpp b/redGrapes/dispatch/thread/worker.cpp
index e25c5d2..fbab48d 100644
--- a/redGrapes/dispatch/thread/worker.cpp
+++ b/redGrapes/dispatch/thread/worker.cpp
@@ -66,7 +66,9 @@ namespace redGrapes
             void WorkerThread::stop()
             {
                 Worker::stop();
-                thread.join();
+                // it never ran if init() failed
+                if(thread.joinable())
+                    thread.join();
             }
 
             void WorkerThread::run()
diff --git a/redGrapes/redGrapes.cpp b/redGrapes/redGrapes.cpp
index afe0121..402e6ba 100644
--- a/redGrapes/redGrapes.cpp
+++ b/redGrapes/redGrapes.cpp
@@ -129,12 +129,26 @@ namespace redGrapes
 
         this->n_workers = n_workers;
         worker_pool = std::make_shared<dispatch::thread::WorkerPool>(hwloc_ctx, n_workers);
-        worker_pool->emplace_workers(n_workers);
 
-        root_space = std::make_shared<TaskSpace>();
-        this->scheduler = scheduler;
+        try
+        {
+            worker_pool->emplace_workers(n_workers);
+
+            root_space = std::make_shared<TaskSpace>();
+            this->scheduler = scheduler;
 
-        worker_pool->start();
+            worker_pool->start();
+        }
+        catch(...)
+        {
+            // end the workers that are already running, and give
+            // all of them free while their memory is still there
+            worker_pool->stop();
+            this->scheduler.reset();
+            root_space.reset();
+            finalize_tracing();
+            throw;
+        }
     }
 
     void Context::init(size_t n_workers)
-- 
2.43.0


From 4cd2b674cdd0c0c22101a9342d3cb83cecbe8d49 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:29:44 +0000
Subject: [PATCH 29/33] fix: a patch that cannot be applied must not take
 accesses from the task

If no memory was left for the access that a patch adds, the one that it
removes was already gone: the task had lost access to a resource it was
using, and could not repeat the update.
---
 redGrapes/resource/resource_user.cpp |  9 ++++++---
 redGrapes/task/property/resource.hpp | 18 +++++++++++++++++-
 2 files changed, 23 insertions(+), 4 deletions(-)

diff --git a/redGrapes/resource/resource_user.cpp b/redGrapes/resource/resource_user.cpp
index cccf8df..cf86f1d 100644
--- a/redGrapes/resource/resource_user.cpp
+++ b/redGrapes/resource/resource_user.cpp
@@ -37,14 +37,17 @@ namespace redGrapes
 
     void ResourceUser::add_resource_access(ResourceAccess ra)
     {
-        this->access_list.push(ra);
         std::shared_ptr<ResourceBase> r = ra.get_resource();
 
+        bool known = false;
         for(auto u = unique_resources.rbegin(); u != unique_resources.rend(); ++u)
             if(u->resource == r)
-                return;
+                known = true;
+
+        if(!known)
+            unique_resources.push(ResourceUsageEntry{r, r->users.rend()});
 
-        unique_resources.push(ResourceUsageEntry{r, r->users.rend()});
+        this->access_list.push(ra);
     }
 
     void ResourceUser::rm_resource_access(ResourceAccess ra)
diff --git a/redGrapes/task/property/resource.hpp b/redGrapes/task/property/resource.hpp
index d8e5cbf..d3cf6d9 100644
--- a/redGrapes/task/property/resource.hpp
+++ b/redGrapes/task/property/resource.hpp
@@ -143,10 +143,26 @@ namespace redGrapes
             for(auto& r : locked_resources)
                 locks.emplace_back(r->users_mutex);
 
-            apply_diff(*this, patch);
+            /* add first, since only this may fail: no access is lost in that case
+             */
+            for(auto ra = after.access_list.rbegin(); ra != after.access_list.rend(); ++ra)
+                if(!contains(*this, *ra))
+                    this->add_resource_access(*ra);
+
+            for(auto ra = access_list.rbegin(); ra != access_list.rend(); ++ra)
+                if(!contains(after, *ra))
+                    access_list.remove(ra);
         }
 
     private:
+        static bool contains(ResourceUser const& user, ResourceAccess const& access)
+        {
+            for(auto ra = user.access_list.rbegin(); ra != user.access_list.rend(); ++ra)
+                if(*ra == access)
+                    return true;
+            return false;
+        }
+
         static void apply_diff(ResourceUser& user, Patch const& patch)
         {
             for(auto const& x : patch.diff)
-- 
2.43.0


From 7da2bc9b876a0379c98d0087c4f7e37401cfbfc0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:23:56 +0000
Subject: [PATCH 30/33] fix: a task that waits without stack switching must not
 run again

TaskBase::yield() remembered the event also in case the task could not
be paused. When the function of such a task returned, it was taken for
paused and its function was called once more.
---
 redGrapes/task/task_base.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/redGrapes/task/task_base.hpp b/redGrapes/task/task_base.hpp
index e9f40e5..510a327 100644
--- a/redGrapes/task/task_base.hpp
+++ b/redGrapes/task/task_base.hpp
@@ -72,10 +72,10 @@ namespace redGrapes
 
         void yield(scheduler::EventPtr event)
         {
-            this->event = event;
-
             if(enable_stack_switching)
             {
+                this->event = event;
+
                 std::optional<boost::context::continuation> old_yield;
                 this->yield_cont.swap(old_yield);
 
-- 
2.43.0


From a9f3a350ee438aa899c27ebe087623a0dbd9a2c4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:28:20 +0000
Subject: [PATCH 31/33] fix: do not read the id of a task that may already be
 destroyed

With trace messages compiled in, EventPtr::notify() read the id of the
task after it had changed the state of the event. Unless this was the
last notification, another one may have destroyed the task by then.
---
 redGrapes/scheduler/event.cpp | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/redGrapes/scheduler/event.cpp b/redGrapes/scheduler/event.cpp
index 14bd5e7..9e1b1f1 100644
--- a/redGrapes/scheduler/event.cpp
+++ b/redGrapes/scheduler/event.cpp
@@ -123,6 +123,9 @@ namespace redGrapes
         {
             TRACE_EVENT("Event", "notify");
 
+            // unless this is the last notification, the task may be destroyed as soon as the state is changed
+            [[maybe_unused]] TaskID const task_id = this->task ? this->task->task_id : 0;
+
             uint32_t old_state = this->get_event().state.fetch_sub(1);
             uint32_t state = old_state - 1;
 
@@ -151,7 +154,7 @@ namespace redGrapes
                     "notify event {} ({}-event of task {}) ~~> state = {}",
                     (void*) &this->get_event(),
                     tag_string,
-                    this->task->task_id,
+                    task_id,
                     state);
 
             assert(old_state > 0);
-- 
2.43.0


From e2a2c6c1256f160363dda2f56d0dfc054a917153 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:40:33 +0000
Subject: [PATCH 32/33] fix: the scope level of a task overflows with more than
 255 parents

A child could then use resources which its parent does not have.
---
 redGrapes/resource/resource_user.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/redGrapes/resource/resource_user.hpp b/redGrapes/resource/resource_user.hpp
index 3edf608..a642357 100644
--- a/redGrapes/resource/resource_user.hpp
+++ b/redGrapes/resource/resource_user.hpp
@@ -51,7 +51,7 @@ namespace redGrapes
         static bool is_superset(ResourceUser const& a, ResourceUser const& b);
         static bool is_serial(ResourceUser const& a, ResourceUser const& b);
 
-        uint8_t scope_level;
+        unsigned int scope_level;
 
         ChunkedList<ResourceAccess, 8> access_list;
         ChunkedList<ResourceUsageEntry, 8> unique_resources;
-- 
2.43.0


From f394c7d62a5764037eb1ca4d20609b83553af960 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:40:46 +0000
Subject: [PATCH 33/33] fix: the space of every task with children is kept
 until finalize()

Nobody reads the list of active child spaces, and nothing is removed from
it, so a program needs the more memory the more tasks with children it runs.
A child space is kept by the task it belongs to and by its tasks.
---
 redGrapes/redGrapes.cpp       | 3 ---
 redGrapes/task/task_space.hpp | 3 ---
 2 files changed, 6 deletions(-)

diff --git a/redGrapes/redGrapes.cpp b/redGrapes/redGrapes.cpp
index 402e6ba..91ed0ea 100644
--- a/redGrapes/redGrapes.cpp
+++ b/redGrapes/redGrapes.cpp
@@ -61,9 +61,6 @@ namespace redGrapes
                 auto task_space = std::make_shared<TaskSpace>(current_task);
                 SPDLOG_TRACE("create child space = {}", (void*) task_space.get());
                 current_task->children = task_space;
-
-                std::unique_lock<std::shared_mutex> wr_lock(current_task->space->active_child_spaces_mutex);
-                current_task->space->active_child_spaces.push_back(task_space);
             }
 
             return current_task->children;
diff --git a/redGrapes/task/task_space.hpp b/redGrapes/task/task_space.hpp
index 300acea..6bc48f6 100644
--- a/redGrapes/task/task_space.hpp
+++ b/redGrapes/task/task_space.hpp
@@ -28,9 +28,6 @@ namespace redGrapes
         unsigned depth;
         Task* parent;
 
-        std::shared_mutex active_child_spaces_mutex;
-        std::vector<std::shared_ptr<TaskSpace>> active_child_spaces;
-
         virtual ~TaskSpace();
 
         // top space
-- 
2.43.0

