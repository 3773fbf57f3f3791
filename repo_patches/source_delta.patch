From 6d44541cf8641d3c34599a77a81fb7d50207d2a3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:21:47 +0000
Subject: [PATCH 01/44] fix: require authentication when authenticators are
 configured

Register::handler inverted the emptiness test on the authenticator queue, so
required SASL was silently skipped whenever authenticators were present.
---
 src/client/register.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/client/register.rs b/src/client/register.rs
index 6691694..999b3ce 100644
--- a/src/client/register.rs
+++ b/src/client/register.rs
@@ -109,7 +109,7 @@ impl<O> Register<O> {
         let nicks = self.register_msgs(opts, sink);
         let caps = (self.caps)(opts);
         let (auths, mut needs_auth) = (self.auth)(opts);
-        needs_auth &= auths.is_empty();
+        needs_auth &= !auths.is_empty();
         Handler::new(nicks, caps, needs_auth, auths)
     }
 }
-- 
2.43.0


From 48ffabf0089e79e2e65f0cccb30b8486e01f5330 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:21:47 +0000
Subject: [PATCH 02/44] fix: clear a stale read timeout when no read limit
 applies

A timeout set to wake up for the queue stayed on the connection, so a later
wait without any limit was reported as a read timeout.
---
 src/client/conn/time.rs | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/client/conn/time.rs b/src/client/conn/time.rs
index 5bc6e37..66a5369 100644
--- a/src/client/conn/time.rs
+++ b/src/client/conn/time.rs
@@ -163,6 +163,9 @@ impl<'a, C: super::Connection> TimeLimitedSync<'a, C> {
                     "collective read time limit elapsed",
                 ));
             }
+        } else {
+            // A previous wait may have left its own timeout on the connection.
+            self.conn.set_read_timeout(None)?;
         }
         Ok(())
     }
-- 
2.43.0


From 3c06f7aa0b94a79ecdb7cf88ce703b2a099452ec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:22:12 +0000
Subject: [PATCH 03/44] fix: apply the write timeout before the first write,
 not after it

The write timeout was only put on the connection when starting to read, so the
first flush after configuring it, and every flush without handlers, could hang.
---
 src/client/conn/sync.rs | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/src/client/conn/sync.rs b/src/client/conn/sync.rs
index 7cff4ac..e026696 100644
--- a/src/client/conn/sync.rs
+++ b/src/client/conn/sync.rs
@@ -346,16 +346,19 @@ impl<C: Connection, S> crate::client::Client<C, S> {
             return Ok(None);
         }
         let mut timeout = None;
+        // Also applies any pending change of the write timeout before writing.
+        let (mut conn, _) =
+            TimeLimitedSync::new(&mut self.conn.conn, &mut self.logic.timeout, None)?;
         while let Some(popped) = self.logic.queue.pop(|new_timeout| timeout = new_timeout) {
             #[cfg(feature = "tracing")]
             tracing::debug!(target: "vinezombie::send", "{}", popped);
             let _ = ClientCodec::write_to(&popped, &mut self.conn.buf_o);
             self.conn.buf_o.extend_from_slice(b"\r\n");
         }
-        let result = self.conn.conn.as_write().write_all(&self.conn.buf_o);
+        let result = conn.write_all(&self.conn.buf_o);
         self.conn.buf_o.clear();
         result?;
-        self.conn.conn.as_write().flush()?;
+        conn.flush()?;
         Ok(timeout)
     }
 }
-- 
2.43.0


From f671fc70110f75bdcae0855d304cf08aef49b01d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:22:39 +0000
Subject: [PATCH 04/44] fix: make the async write time limit fire

The timer was created anew and dropped on every poll, which deregistered it, so
a stalled write never timed out.
---
 src/client/conn/time.rs | 15 +++++++++++----
 1 file changed, 11 insertions(+), 4 deletions(-)

diff --git a/src/client/conn/time.rs b/src/client/conn/time.rs
index 66a5369..031f1e9 100644
--- a/src/client/conn/time.rs
+++ b/src/client/conn/time.rs
@@ -211,21 +211,26 @@ impl<'a, C: super::Connection> std::io::BufRead for TimeLimitedSync<'a, C> {
 pub(super) struct TimeLimitedTokio<'a, C> {
     conn: &'a mut C,
     write: Option<Duration>,
+    /// Timer for the write in progress, running since the last time data was accepted.
+    sleeper: Option<std::pin::Pin<Box<tokio::time::Sleep>>>,
 }
 
 #[cfg(feature = "tokio")]
 impl<'a, C: super::ConnectionTokio> TimeLimitedTokio<'a, C> {
     pub fn new(conn: &'a mut C, timeouts: &TimeLimits) -> Self {
-        TimeLimitedTokio { conn, write: timeouts.write }
+        TimeLimitedTokio { conn, write: timeouts.write, sleeper: None }
     }
     fn poll_write_timeout(
-        self: std::pin::Pin<&mut Self>,
+        mut self: std::pin::Pin<&mut Self>,
         cx: &mut std::task::Context<'_>,
     ) -> std::task::Poll<std::io::Error> {
         if let Some(timeout) = self.write {
             use std::future::Future;
-            let sleeper = std::pin::pin!(tokio::time::sleep(timeout));
-            if sleeper.poll(cx).is_ready() {
+            // The timer has to outlive this poll in order to wake the task.
+            let sleeper =
+                self.sleeper.get_or_insert_with(|| Box::pin(tokio::time::sleep(timeout)));
+            if sleeper.as_mut().poll(cx).is_ready() {
+                self.sleeper = None;
                 return std::task::Poll::Ready(std::io::Error::new(
                     std::io::ErrorKind::TimedOut,
                     "async write time limit elapsed",
@@ -270,6 +275,7 @@ impl<'a, C: super::ConnectionTokio> tokio::io::AsyncWrite for TimeLimitedTokio<'
     ) -> std::task::Poll<Result<usize, std::io::Error>> {
         let writer = std::pin::Pin::new(self.conn.as_write());
         if let std::task::Poll::Ready(v) = writer.poll_write(cx, buf) {
+            self.sleeper = None;
             return std::task::Poll::Ready(v);
         }
         self.poll_write_timeout(cx).map(Err)
@@ -281,6 +287,7 @@ impl<'a, C: super::ConnectionTokio> tokio::io::AsyncWrite for TimeLimitedTokio<'
     ) -> std::task::Poll<Result<(), std::io::Error>> {
         let writer = std::pin::Pin::new(self.conn.as_write());
         if let std::task::Poll::Ready(v) = writer.poll_flush(cx) {
+            self.sleeper = None;
             return std::task::Poll::Ready(v);
         }
         self.poll_write_timeout(cx).map(Err)
-- 
2.43.0


From 036d022db5e6b07e75fb2fff958b055ccb3f701c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:23:42 +0000
Subject: [PATCH 05/44] fix: free oneshot channel memory exactly once

The sender count and the receiver flag were tested separately, so a receiver and
the last sender dropping concurrently could both free the channel or neither, and
a sender could touch it after it was freed. Use one count of all owners.
---
 src/client/handler/channel/oneshot.rs | 44 +++++++++++++--------------
 1 file changed, 22 insertions(+), 22 deletions(-)

diff --git a/src/client/handler/channel/oneshot.rs b/src/client/handler/channel/oneshot.rs
index 806b6de..5625e18 100644
--- a/src/client/handler/channel/oneshot.rs
+++ b/src/client/handler/channel/oneshot.rs
@@ -27,13 +27,25 @@ use std::{
 // The senders have no access to the sent value.
 
 struct Inner<T> {
-    sender_count: AtomicUsize,
+    /// How many senders, plus one for the receiver, still refer to this allocation.
+    owner_count: AtomicUsize,
     recver: AtomicBool,
     lock: Once,
     // Manually implement OnceLock so that we can deinit the value but keep the lock.
     value: UnsafeCell<MaybeUninit<T>>,
 }
 
+impl<T> Inner<T> {
+    /// Gives up one share of ownership, freeing the allocation if it was the last.
+    unsafe fn release(ptr: std::ptr::NonNull<Self>) {
+        if ptr.as_ref().owner_count.fetch_sub(1, Ordering::Release) == 1 {
+            // Everything the other owners did must happen before freeing.
+            std::sync::atomic::fence(Ordering::Acquire);
+            std::mem::drop(Box::from_raw(ptr.as_ptr()));
+        }
+    }
+}
+
 /// The receiver portion of a oneshot channel.
 #[derive(Debug)]
 pub struct Receiver<T>(std::ptr::NonNull<Inner<T>>);
@@ -51,7 +63,7 @@ unsafe impl<T> Sync for Sender<T> {}
 
 impl<T> Clone for Sender<T> {
     fn clone(&self) -> Self {
-        unsafe { self.0.as_ref().sender_count.fetch_add(1, Ordering::Relaxed) };
+        unsafe { self.0.as_ref().owner_count.fetch_add(1, Ordering::Relaxed) };
         Self(self.0)
     }
 }
@@ -70,32 +82,22 @@ impl<T> Drop for Receiver<T> {
         if has_value {
             unsafe { inner_ref.value.get().as_mut().unwrap_unchecked().assume_init_drop() };
         }
-        if inner_ref.sender_count.load(Ordering::Acquire) == 0 {
-            #[allow(dropping_references)]
-            std::mem::drop(inner_ref);
-            std::mem::drop(unsafe { Box::from_raw(self.0.as_ptr()) });
-        }
+        #[allow(dropping_references)]
+        std::mem::drop(inner_ref);
+        unsafe { Inner::release(self.0) };
     }
 }
 
 impl<T> Drop for Sender<T> {
     fn drop(&mut self) {
-        let inner_ref = unsafe { self.0.as_ref() };
-        if inner_ref.sender_count.fetch_sub(1, Ordering::Release) == 1 {
-            #[allow(clippy::collapsible_if)]
-            if !inner_ref.recver.load(Ordering::Acquire) {
-                #[allow(dropping_references)]
-                std::mem::drop(inner_ref);
-                std::mem::drop(unsafe { Box::from_raw(self.0.as_ptr()) });
-            }
-        }
+        unsafe { Inner::release(self.0) };
     }
 }
 
 /// Creates a new oneshot channel for sending single values.
 pub fn channel<T>() -> (Sender<T>, Receiver<T>) {
     let inner = Box::new(Inner {
-        sender_count: AtomicUsize::new(1),
+        owner_count: AtomicUsize::new(2),
         recver: AtomicBool::new(true),
         lock: Once::new(),
         value: UnsafeCell::new(MaybeUninit::uninit()),
@@ -135,11 +137,9 @@ impl<T> Receiver<T> {
         let retval = has_value.then(|| unsafe {
             inner_ref.value.get().as_ref().unwrap_unchecked().assume_init_read()
         });
-        if inner_ref.sender_count.load(Ordering::Acquire) == 0 {
-            #[allow(dropping_references)]
-            std::mem::drop(inner_ref);
-            std::mem::drop(unsafe { Box::from_raw(ptr.as_ptr()) });
-        }
+        #[allow(dropping_references)]
+        std::mem::drop(inner_ref);
+        unsafe { Inner::release(ptr) };
         retval
     }
     /// Receives a value over this channel. Parks using the provided `parker` if
-- 
2.43.0


From cccbb498d9f80cc0f1105cdd19d03b5f9d540934 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:24:17 +0000
Subject: [PATCH 06/44] fix: keep parker from returning spuriously, missing
 wake-ups or using a dead stack slot

The parker published a pointer to a local variable which unparkers could still
dereference after park had returned, treated any spurious wake-up as an unpark,
and wiped a pending unpark. Publish an owned handle and wait until it is taken.
---
 src/client/handler/channel/parker.rs | 64 +++++++++++++++++-----------
 1 file changed, 39 insertions(+), 25 deletions(-)

diff --git a/src/client/handler/channel/parker.rs b/src/client/handler/channel/parker.rs
index f4f6053..74a1c8a 100644
--- a/src/client/handler/channel/parker.rs
+++ b/src/client/handler/channel/parker.rs
@@ -13,6 +13,18 @@ use std::thread::Thread;
 /// Global location whose address we can use to indicate that a [`Parker`] should skip parking.
 static mut SKIP_PARKING: std::mem::MaybeUninit<Thread> = std::mem::MaybeUninit::uninit();
 
+// The shared pointer is null, the address of `SKIP_PARKING`, or an owning pointer to
+// the boxed handle of the parked thread. Whoever takes the handle out is the one to free it.
+
+fn skip_parking() -> *mut Thread {
+    unsafe { SKIP_PARKING.as_mut_ptr() }
+}
+
+/// Takes ownership of the handle behind a pointer that was removed from the shared location.
+unsafe fn take_thread(ptr: *mut Thread) -> Option<Box<Thread>> {
+    (!ptr.is_null() && ptr != skip_parking()).then(|| Box::from_raw(ptr))
+}
+
 /// A wrapped [`Sender`][super::Sender] that can unpark a thread blocked by a [`Parker`].
 #[derive(Clone, Debug, Default)]
 pub struct Unparker<S>(S, ManuallyDrop<Arc<AtomicPtr<Thread>>>);
@@ -35,10 +47,8 @@ impl<S> Drop for Unparker<S> {
             return;
         };
         let ptr = arc.into_inner();
-        if ptr != unsafe { SKIP_PARKING.as_mut_ptr() } {
-            if let Some(th) = unsafe { ptr.as_ref() } {
-                th.clone().unpark();
-            }
+        if let Some(th) = unsafe { take_thread(ptr) } {
+            th.unpark();
         }
     }
 }
@@ -49,11 +59,9 @@ impl<S> Unparker<S> {
     ///
     /// This generally doesn't need to be called manually unless `S` is not a sender.
     pub fn unpark(&self) {
-        let ptr = self.1.swap(unsafe { SKIP_PARKING.as_mut_ptr() }, Ordering::AcqRel);
-        if ptr != unsafe { SKIP_PARKING.as_mut_ptr() } {
-            if let Some(th) = unsafe { ptr.as_ref() } {
-                th.clone().unpark();
-            }
+        let ptr = self.1.swap(skip_parking(), Ordering::AcqRel);
+        if let Some(th) = unsafe { take_thread(ptr) } {
+            th.unpark();
         }
     }
 }
@@ -78,29 +86,35 @@ impl Parker {
     /// Block this thread until either all [`Unparker`]s are dropped or
     /// until one of them unparks this thread.
     pub fn park(&self) {
-        let Some(strong) = self.0.upgrade() else {
+        let Some(mut strong) = self.0.upgrade() else {
             return;
         };
-        let mut th = std::thread::current();
+        let th = Box::into_raw(Box::new(std::thread::current()));
         if strong
-            .compare_exchange(
-                std::ptr::null_mut(),
-                &mut th as *mut Thread,
-                Ordering::AcqRel,
-                Ordering::Acquire,
-            )
+            .compare_exchange(std::ptr::null_mut(), th, Ordering::AcqRel, Ordering::Acquire)
             .is_ok()
         {
-            if Arc::into_inner(strong).is_none() {
+            // Thread parking can return spuriously, so check that the handle was taken.
+            while strong.load(Ordering::Acquire) == th {
+                if let Some(inner) = Arc::into_inner(strong) {
+                    // No unparkers left!
+                    std::mem::drop(unsafe { take_thread(inner.into_inner()) });
+                    return;
+                }
                 std::thread::park();
-            } else {
-                // No unparkers left!
-                return;
+                strong = match self.0.upgrade() {
+                    Some(strong) => strong,
+                    None => return,
+                };
             }
+        } else {
+            std::mem::drop(unsafe { take_thread(th) });
         }
-        let Some(strong) = self.0.upgrade() else {
-            return;
-        };
-        strong.store(std::ptr::null_mut(), Ordering::Release);
+        let _ = strong.compare_exchange(
+            skip_parking(),
+            std::ptr::null_mut(),
+            Ordering::AcqRel,
+            Ordering::Acquire,
+        );
     }
 }
-- 
2.43.0


From f49a76dba906861c43b8a6dc3697a3b747131bbd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:24:48 +0000
Subject: [PATCH 07/44] fix: synchronise with other owners before freeing a
 shared buffer

Dropping the last reference, or unwrapping a unique one, lacked the acquire that
pairs with the release of the other owners' drops: a data race on the buffer.
---
 src/util/thinarc.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/util/thinarc.rs b/src/util/thinarc.rs
index 8077a09..8fd87e5 100644
--- a/src/util/thinarc.rs
+++ b/src/util/thinarc.rs
@@ -32,7 +32,7 @@ impl<T> ThinArc<T> {
     }
     pub fn try_unwrap(mut self) -> Result<T, Self> {
         unsafe {
-            if self.ret_rc().load(Ordering::Relaxed) == 1 {
+            if self.ret_rc().load(Ordering::Acquire) == 1 {
                 let retval = Ok(self.offsets().1.cast::<T>().read());
                 self.dealloc();
                 std::mem::forget(self);
@@ -109,6 +109,8 @@ impl<T: DynSized + ?Sized> Drop for ThinArc<T> {
     fn drop(&mut self) {
         unsafe {
             if self.ret_rc().fetch_sub(1, Ordering::Release) == 1 {
+                // All uses by other owners must happen before the value is dropped.
+                std::sync::atomic::fence(Ordering::Acquire);
                 let (ptr_meta, ptr_value) = self.offsets();
                 T::drop_in_place(
                     NonNull::new_unchecked(ptr_value),
-- 
2.43.0


From 81fe87cc6ef108b9562eea3f82d91a1cb47fe564 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:24:48 +0000
Subject: [PATCH 08/44] fix: make FlatMap edits see and keep elements added out
 of order

While editing, lookups missed unsorted elements (so duplicates appeared), indexed
past the vector's length, returned a reference past the end from push, and
removal could panic, drop the wrong element or leak.
---
 src/util/flatmap.rs | 32 ++++++++++++++++++++++----------
 1 file changed, 22 insertions(+), 10 deletions(-)

diff --git a/src/util/flatmap.rs b/src/util/flatmap.rs
index da32864..813520b 100644
--- a/src/util/flatmap.rs
+++ b/src/util/flatmap.rs
@@ -138,7 +138,6 @@ fn get_impl<E, X: KeyExtractor<E>>(
     let (sorted, unsorted) = pairs.split_at(sorted_until);
     match sorted.binary_search_by(|v| X::extract_key(v).borrow().cmp(key)) {
         Ok(key) => Some(key),
-        Err(v) if v < sorted_until => None,
         Err(_) => unsorted
             .iter()
             .position(|v| X::extract_key(v).borrow() == key)
@@ -184,13 +183,23 @@ impl<E, X: KeyExtractor<E>> FlatMap<E, X> {
 }
 
 impl<E, X: KeyExtractor<E>> FlatMapEditGuard<'_, E, X> {
-    collection_methods!(src);
-
+    /// Returns the number of elements, sorted and otherwise.
+    pub fn len(&self) -> usize {
+        self.real_len
+    }
+    /// Returns true if there are no elements.
+    pub fn is_empty(&self) -> bool {
+        self.real_len == 0
+    }
     /// Return a slice of all the elements in the `Vec`, sorted and otherwise.
     pub fn as_slice(&self) -> &[E] {
         let ptr = self.src.as_ptr();
         unsafe { std::slice::from_raw_parts(ptr, self.real_len) }
     }
+    fn as_slice_mut(&mut self) -> &mut [E] {
+        let ptr = self.src.as_mut_ptr();
+        unsafe { std::slice::from_raw_parts_mut(ptr, self.real_len) }
+    }
     /// Return the index of a given element in the full `Vec`.
     fn get_idx(&self, key: &X::KeyBorrowed) -> Option<usize> {
         let sorted_until = self.src.len();
@@ -198,11 +207,11 @@ impl<E, X: KeyExtractor<E>> FlatMapEditGuard<'_, E, X> {
     }
     pub fn get<'a>(&'a self, key: &X::KeyBorrowed) -> Option<&'a E> {
         let idx = self.get_idx(key)?;
-        Some(unsafe { self.src.get_unchecked(idx) })
+        Some(unsafe { self.as_slice().get_unchecked(idx) })
     }
     pub fn get_mut<'a>(&'a mut self, key: &X::KeyBorrowed) -> Option<&'a mut E> {
         let idx = self.get_idx(key)?;
-        Some(unsafe { self.src.get_unchecked_mut(idx) })
+        Some(unsafe { self.as_slice_mut().get_unchecked_mut(idx) })
     }
     fn push(&mut self, elem: E) -> &mut E {
         let key = X::extract_key(&elem);
@@ -228,7 +237,7 @@ impl<E, X: KeyExtractor<E>> FlatMapEditGuard<'_, E, X> {
         unsafe { self.src.set_len(sorted_until) };
         let mut ptr = self.src.as_mut_ptr();
         unsafe {
-            ptr = ptr.add(self.real_len);
+            ptr = ptr.add(self.real_len - 1);
             ptr.as_mut().unwrap_unchecked()
         }
     }
@@ -236,7 +245,7 @@ impl<E, X: KeyExtractor<E>> FlatMapEditGuard<'_, E, X> {
         let kb = X::extract_key(&elem).borrow();
         let idx = self.get_idx(kb);
         if let Some(idx) = idx {
-            let old_elem = unsafe { &mut self.src.get_unchecked_mut(idx) };
+            let old_elem = unsafe { self.as_slice_mut().get_unchecked_mut(idx) };
             Some(std::mem::replace(old_elem, elem))
         } else {
             self.push(elem);
@@ -258,7 +267,7 @@ impl<E, X: KeyExtractor<E>> FlatMapEditGuard<'_, E, X> {
         let kb = X::extract_key(&elem).borrow();
         let idx = self.get_idx(kb);
         if let Some(idx) = idx {
-            (unsafe { self.src.get_unchecked_mut(idx) }, Some(elem))
+            (unsafe { self.as_slice_mut().get_unchecked_mut(idx) }, Some(elem))
         } else {
             (self.push(elem), None)
         }
@@ -268,15 +277,18 @@ impl<E, X: KeyExtractor<E>> FlatMapEditGuard<'_, E, X> {
         // That said, removal should be infrequent, so it's probably
         // not worth adding some sort of tombstoning to the edit guard.
         let idx = self.get_idx(key)?;
+        let sorted_until = self.src.len();
+        unsafe { self.src.set_len(self.real_len) };
         let retval = self.src.swap_remove(idx);
         self.real_len -= 1;
-        unsafe { self.src.set_len(idx) };
+        unsafe { self.src.set_len(std::cmp::min(sorted_until, idx)) };
         Some(retval)
     }
     /// Removes all key-value pairs.
     pub fn clear(&mut self) {
-        self.src.clear();
+        unsafe { self.src.set_len(self.real_len) };
         self.real_len = 0;
+        self.src.clear();
     }
 }
 
-- 
2.43.0


From 23919335b09a09965838f2007875c071d7cc80f4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:25:05 +0000
Subject: [PATCH 09/44] fix: unescape the first escape sequence of a tag value

The backslash itself was kept and the byte after it was left as is, so tag values
with exactly the first byte escaped did not survive a round trip.
---
 src/string/tf/escape.rs | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/string/tf/escape.rs b/src/string/tf/escape.rs
index b13f02a..2b0bc01 100644
--- a/src/string/tf/escape.rs
+++ b/src/string/tf/escape.rs
@@ -62,13 +62,13 @@ pub fn unescape<'a>(tag_value: impl Into<NoNul<'a>>) -> NoNul<'a> {
     let (mut new_bytes, rest) = unsafe {
         let (no_escape, rest) = tag_value.as_bytes_unsafe().split_at(first_idx);
         // rest contains at least one byte because first_idx is a valid index.
-        let (first, rest) = rest.split_first().unwrap_unchecked();
+        // It is the backslash itself.
+        let (_, rest) = rest.split_first().unwrap_unchecked();
         let mut new_bytes = Vec::with_capacity(tag_value.len() - 1);
         new_bytes.extend_from_slice(no_escape);
-        new_bytes.push(unescape_byte(first));
         (new_bytes, rest)
     };
-    let mut esc = false;
+    let mut esc = true;
     for byte in rest {
         if esc {
             new_bytes.push(unescape_byte(byte));
-- 
2.43.0


From 485e43867a9ee3de0e46529140ec22ec543de175 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:25:41 +0000
Subject: [PATCH 10/44] fix: split message arguments at spaces only

Arguments starting with a tab or another ASCII whitespace byte lost it when read
back from the wire.
---
 src/ircmsg/args.rs | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/ircmsg/args.rs b/src/ircmsg/args.rs
index a5792d6..d13ebee 100644
--- a/src/ircmsg/args.rs
+++ b/src/ircmsg/args.rs
@@ -2,7 +2,7 @@
 
 use crate::{
     error::InvalidString,
-    string::{Arg, Line, Splitter},
+    string::{Arg, Line, Splitter, Word},
 };
 use std::borrow::Cow;
 
@@ -141,7 +141,8 @@ impl<'a> Args<'a> {
         let mut words = Vec::with_capacity(2);
         let mut long = None;
         loop {
-            line.consume_whitespace();
+            // Only spaces separate arguments. Other whitespace is part of them.
+            line.consume_invalid::<Word>();
             match line.string::<Arg>(false) {
                 Ok(arg) => words.push(arg),
                 Err(InvalidString::Colon) => {
-- 
2.43.0


From 27eb0219a302b815cc8b4932c66aaa316c0fc987 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:25:47 +0000
Subject: [PATCH 11/44] fix: do not loop forever on a tag key that starts with
 a colon

Such a key is invalid without any of its bytes being invalid, so nothing was
consumed. Skip the malformed tag instead.
---
 src/ircmsg/tags.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/ircmsg/tags.rs b/src/ircmsg/tags.rs
index 8b15297..8c7173b 100644
--- a/src/ircmsg/tags.rs
+++ b/src/ircmsg/tags.rs
@@ -87,7 +87,9 @@ impl<'a> Tags<'a> {
         // TODO: Tag bytes available.
         while !splitter.is_empty() {
             let Ok(key) = splitter.string::<Key>(false) else {
-                splitter.consume_invalid::<Key>();
+                // Malformed tag. Skip all of it, which always makes progress.
+                let _ = splitter.save_end().until_byte_eq(b';').rest::<NoNul>();
+                splitter.next_byte();
                 continue;
             };
             let value = if matches!(splitter.next_byte(), Some(b'=')) {
-- 
2.43.0


From 47a07dc46a682028bd5053f9a8a6c566bba4071a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:27:04 +0000
Subject: [PATCH 12/44] fix: report a connection closed in the middle of a line
 as unexpected EOF

It was reported as an over-long line, contrary to the documentation of the read
functions, and only when the connection closed at a line boundary as EOF.
---
 src/ircmsg/codec.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/ircmsg/codec.rs b/src/ircmsg/codec.rs
index 2d93c2f..550fd44 100644
--- a/src/ircmsg/codec.rs
+++ b/src/ircmsg/codec.rs
@@ -15,7 +15,8 @@ macro_rules! read_msg {
             if buflen < $limit {
                 let read_count = $limit - buflen;
                 $read.set_limit(read_count as u64);
-                if $read_expr? == 0 {
+                // Stopping before the limit without a newline also means the end of input.
+                if $read_expr? == 0 || ($buf.len() < $limit && !$buf.ends_with(b"\n")) {
                     return Err(Error::from(ErrorKind::UnexpectedEof));
                 }
             }
-- 
2.43.0


From 689673abca7551747986eb15717bbc3e731c8310 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:27:43 +0000
Subject: [PATCH 13/44] fix: make the framed codecs agree with the stream
 readers

Every line was rejected because its CR LF was kept, over-long lines were split
into several messages, and NUL or leading whitespace gave other results than the
stream readers. Strip the newline and report over-long lines as such.
---
 src/ircmsg/codec.rs | 52 ++++++++++++++++++++++++++++-----------------
 1 file changed, 33 insertions(+), 19 deletions(-)

diff --git a/src/ircmsg/codec.rs b/src/ircmsg/codec.rs
index 550fd44..2a036e8 100644
--- a/src/ircmsg/codec.rs
+++ b/src/ircmsg/codec.rs
@@ -423,6 +423,7 @@ impl ServerCodec {
 pub(super) mod tokio_codec {
     use super::{ClientCodec, ServerCodec};
     use crate::{
+        error::{InvalidString, ParseError},
         ircmsg::{ClientMsg, ServerMsg},
         string::Line,
     };
@@ -451,26 +452,39 @@ pub(super) mod tokio_codec {
         }
     }
 
+    /// Discards blank lines, then returns the length of the first line including its newline,
+    /// or of the first `limit` bytes if there is no newline among them.
+    ///
+    /// Leading whitespace on that line is also discarded, but counts towards the limit.
     pub fn scroll_buf(buf: &mut BytesMut, limit: usize) -> Option<NonZeroUsize> {
-        let mut leading_ws = true;
-        let mut trimmed_ws = 0usize;
-        let mut end_idx = 0usize;
-        for byte in buf.iter() {
-            if leading_ws {
-                if byte.is_ascii_whitespace() {
-                    trimmed_ws += 1;
-                    continue;
-                }
-                leading_ws = false;
-            }
-            end_idx += 1;
-            if end_idx >= limit || *byte == b'\n' || *byte == b'\0' {
-                buf.advance(trimmed_ws);
-                return NonZeroUsize::new(end_idx);
+        loop {
+            let Some(newline) = buf.iter().take(limit).position(|byte| *byte == b'\n') else {
+                return NonZeroUsize::new(limit).filter(|limit| buf.len() >= limit.get());
+            };
+            let end_idx = newline + 1;
+            if buf[..newline].iter().all(|byte| *byte == b'\r') {
+                buf.advance(end_idx);
+                continue;
             }
+            let is_ws = |byte: &&u8| byte.is_ascii_whitespace() && !matches!(byte, b'\r' | b'\n');
+            let trimmed_ws = buf.iter().take_while(is_ws).count();
+            buf.advance(trimmed_ws);
+            return NonZeroUsize::new(end_idx - trimmed_ws);
+        }
+    }
+
+    /// Removes the newline from what [`scroll_buf`] found.
+    fn trim_line(line: &[u8]) -> Result<&[u8], ParseError> {
+        let Some(mut line) = line.strip_suffix(b"\n") else {
+            return Err(match line.last() {
+                Some(c @ (b'\r' | b'\0')) => ParseError::InvalidLine(InvalidString::Byte(*c)),
+                _ => ParseError::TooLong,
+            });
+        };
+        while let Some(rest) = line.strip_suffix(b"\r") {
+            line = rest;
         }
-        buf.advance(trimmed_ws);
-        None
+        Ok(line)
     }
 
     impl Decoder for ClientCodec {
@@ -483,7 +497,7 @@ pub(super) mod tokio_codec {
                 return Ok(None);
             };
             let line_raw = src.split_to(split_at.get());
-            let line = Line::from_bytes(line_raw.as_ref())?;
+            let line = Line::from_bytes(trim_line(line_raw.as_ref())?)?;
             Ok(Some(ServerMsg::parse(line.owning())?))
         }
     }
@@ -497,7 +511,7 @@ pub(super) mod tokio_codec {
                 return Ok(None);
             };
             let line_raw = src.split_to(split_at.get());
-            let line = Line::from_bytes(line_raw.as_ref())?;
+            let line = Line::from_bytes(trim_line(line_raw.as_ref())?)?;
             Ok(Some(ClientMsg::parse(line.owning())?))
         }
     }
-- 
2.43.0


From 0fa3f1f71f90ad5e84e9df8049a3683d1ac4e7c8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:27:48 +0000
Subject: [PATCH 14/44] fix: discard a partial SASL challenge when switching
 mechanisms

The leftover chunks were prepended to the next mechanism's challenge.
---
 src/client/auth/handler.rs | 11 ++++++++---
 1 file changed, 8 insertions(+), 3 deletions(-)

diff --git a/src/client/auth/handler.rs b/src/client/auth/handler.rs
index 981a00c..bd966b8 100644
--- a/src/client/auth/handler.rs
+++ b/src/client/auth/handler.rs
@@ -115,6 +115,11 @@ impl Handler {
         let logic = queue.pop()?;
         Some(Self::new(logic, queue))
     }
+    /// Uses another [`SaslLogic`], discarding any partial challenge for the current one.
+    fn switch_logic(&mut self, logic: Box<dyn SaslLogic>) {
+        self.logic = logic;
+        self.decoder = crate::string::base64::ChunkDecoder::new(400);
+    }
     /// Creates an auth message for the current [`SaslLogic`].
     ///
     /// If you are manually driving this handler, this should typically
@@ -138,7 +143,7 @@ impl Handler {
         if supported(&self.logic.name()) {
             None
         } else if let Some(new_logic) = self.queue.pop() {
-            self.logic = new_logic;
+            self.switch_logic(new_logic);
             Some(true)
         } else {
             Some(false)
@@ -177,7 +182,7 @@ impl Handler {
                         let name = self.logic.name();
                         self.queue.retain(&|ln| name != *ln);
                         return if let Some(new_logic) = self.queue.pop() {
-                            self.logic = new_logic;
+                            self.switch_logic(new_logic);
                             // We can continue, but we need to wait for the server to
                             // acknowledge that we're stopping before sending AUTHENTICATE.
                             Ok(false)
@@ -198,7 +203,7 @@ impl Handler {
                 // In a more account-aware system, could purge all authenticators that are
                 // meant to log in to the same account on a 902.
                 if let Some(next_logic) = self.queue.pop() {
-                    self.logic = next_logic;
+                    self.switch_logic(next_logic);
                     sink.send(self.auth_msg());
                     Ok(false)
                 } else {
-- 
2.43.0


From 0b649e135bea84b128c9dd0498e37aeb8506bcda Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:28:17 +0000
Subject: [PATCH 15/44] fix: split the mechanism list of RPL_SASLMECHS at
 commas

The list is one comma-separated argument, so more than one advertised mechanism
ruled out every remaining authenticator.
---
 src/client/auth/handler.rs | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/src/client/auth/handler.rs b/src/client/auth/handler.rs
index bd966b8..7a1f924 100644
--- a/src/client/auth/handler.rs
+++ b/src/client/auth/handler.rs
@@ -227,8 +227,14 @@ impl Handler {
             "908" => {
                 // Let's assume that these apply to all accounts we might try to log in to.
                 #[allow(clippy::mutable_key_type)]
-                let set: std::collections::BTreeSet<_> =
-                    msg.args.split_last().0.iter().map(|a| a.clone().owning()).collect();
+                let set: std::collections::BTreeSet<_> = msg
+                    .args
+                    .split_last()
+                    .0
+                    .iter()
+                    .flat_map(|a| a.split(|b| *b == b','))
+                    .filter_map(|mech| Arg::from_bytes(mech.to_vec()).ok())
+                    .collect();
                 self.queue.retain(&|ln| set.contains(ln));
                 // If the mechanism is NOT supported,
                 // the server needs to error with a 904, which causes this handler to
-- 
2.43.0


From 968aa29a8e0c38882a4d1f68be34ee3cc72551ae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:28:22 +0000
Subject: [PATCH 16/44] fix: authenticate when the sasl capability has no
 mechanism list

An absent list was treated as a list of no mechanisms.
---
 src/client/register/handler.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/client/register/handler.rs b/src/client/register/handler.rs
index 3ae3071..3e73887 100644
--- a/src/client/register/handler.rs
+++ b/src/client/register/handler.rs
@@ -432,7 +432,8 @@ impl Handler {
                             use crate::names::cap::{SASL, STS};
                             // Filter SASL mechanisms.
                             match self.reg.caps.get_parsed(SASL) {
-                                Some(Ok(mechs)) => {
+                                // Without a list of mechanisms, we have to try them.
+                                Some(Ok(mechs)) if !mechs.is_empty() => {
                                     auths.retain(&|mech| mechs.contains(mech.as_bytes()));
                                 }
                                 Some(_) => (),
-- 
2.43.0


From 878d72b1014b41b1aea20417cd48da21e9194631 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:28:28 +0000
Subject: [PATCH 17/44] fix: ignore SASL failure numerics that follow the end
 of SASL

Giving up on SASL after an RPL_SASLMECHS or a broken challenge is followed by
another numeric, which failed the registration even if SASL was optional.
---
 src/client/register/handler.rs | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/client/register/handler.rs b/src/client/register/handler.rs
index 3e73887..3a51286 100644
--- a/src/client/register/handler.rs
+++ b/src/client/register/handler.rs
@@ -415,7 +415,12 @@ impl Handler {
                 }
                 Ok(None)
             }
-            "902" | "904" | "905" | "906" | "907" if ignore_sasl => Ok(None),
+            // These may also follow whatever made us give up on SASL.
+            "902" | "904" | "905" | "906" | "907"
+                if ignore_sasl || matches!(self.state, HandlerState::AwaitWelcome) =>
+            {
+                Ok(None)
+            }
             "CAP" => {
                 use crate::client::cap;
                 let cap_msg = cap::ServerMsgArgs::parse(&msg.args.clone().owning())
-- 
2.43.0


From 286433364ab396a9b41bbd69ff447cb9b252fa82 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:28:34 +0000
Subject: [PATCH 18/44] fix: only answer CTCP queries that arrive as PRIVMSG

The kind of message was not checked, so notices were answered too, which is how
reply loops start.
---
 src/client/handlers/autoreply.rs | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/client/handlers/autoreply.rs b/src/client/handlers/autoreply.rs
index 71fc218..194b3c1 100644
--- a/src/client/handlers/autoreply.rs
+++ b/src/client/handlers/autoreply.rs
@@ -42,6 +42,9 @@ impl Handler for CtcpVersion {
         _: crate::client::channel::SenderRef<'_, Self::Value>,
     ) -> std::ops::ControlFlow<()> {
         // TODO: Should probably consider length limits.
+        if msg.kind != PRIVMSG {
+            return std::ops::ControlFlow::Continue(());
+        }
         let Ok(msg) = msg.parse_as(PRIVMSG) else {
             return std::ops::ControlFlow::Continue(());
         };
-- 
2.43.0


From e62dd261ebfc02206804bc42edbfc31a050c9df2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:28:34 +0000
Subject: [PATCH 19/44] fix: reset the assumed source length along with the
 client state

---
 src/client/logic.rs | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/client/logic.rs b/src/client/logic.rs
index dd64cc2..c0e65cb 100644
--- a/src/client/logic.rs
+++ b/src/client/logic.rs
@@ -222,6 +222,7 @@ impl ClientState {
     /// Clears all state.
     pub(super) fn clear(&mut self) {
         self.state.clear();
+        self.source_len = DEFAULT_SOURCE_LEN;
     }
     /// Returns the length that clients should assume for the length of their `source` fields.
     pub fn source_len(&self) -> NonZeroUsize {
-- 
2.43.0


From ae7e3f1135cf8d37453c6e60d294197549808057 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:28:34 +0000
Subject: [PATCH 20/44] fix: use the announced ISUPPORT limits for the initial
 source length

They were stored only after the length had been calculated.
---
 src/client/register/handler.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/client/register/handler.rs b/src/client/register/handler.rs
index 3a51286..a5b8ed2 100644
--- a/src/client/register/handler.rs
+++ b/src/client/register/handler.rs
@@ -58,11 +58,12 @@ impl Registration {
     pub fn save(self, state: &mut crate::client::ClientState) {
         use crate::client::state::*;
         let source = Source { nick: self.nick, userhost: self.userhost };
+        state.insert::<ISupport>(self.isupport);
+        // Depends on ISUPPORT.
         state.update_source_len_from(Some(&source), true);
         state.insert::<ClientSource>(source);
         state.insert::<Account>(self.account);
         state.insert::<Caps>(self.caps);
-        state.insert::<ISupport>(self.isupport);
         if let Some(server_source) = self.source {
             state.insert::<ServerSource>(server_source);
         }
-- 
2.43.0


From 850d3354d26956de7bb30159bc6f429bd5b695f6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:28:57 +0000
Subject: [PATCH 21/44] fix: do not write past the end of a secret's buffer

Initialising the spare capacity ran as many elements past the end as were already
in use, corrupting the heap whenever a non-empty secret was grown or created.
---
 src/util/ownedslice.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/util/ownedslice.rs b/src/util/ownedslice.rs
index 8139cc8..4174c83 100644
--- a/src/util/ownedslice.rs
+++ b/src/util/ownedslice.rs
@@ -87,7 +87,7 @@ impl<T: Default + Copy> OwnedSlice<T> {
     /// Sets all uninitialized values of buffer to the default value.
     pub fn init_capacity(&mut self, len: usize) {
         let mut cur = unsafe { self.0.as_ptr().add(len) };
-        let end = unsafe { cur.add(self.1) };
+        let end = unsafe { self.0.as_ptr().add(self.1) };
         let default = T::default();
         while cur < end {
             unsafe {
-- 
2.43.0


From c73f70056d9c8af84e98996e57e0d62cdea1a003 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:28:57 +0000
Subject: [PATCH 22/44] fix: read no more of a secret than asked for, and retry
 interrupted reads

The whole spare capacity was offered to the reader instead of the requested
length, and an interrupted read was reported as a failure.
---
 src/string/secretbuf.rs | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/src/string/secretbuf.rs b/src/string/secretbuf.rs
index d7e43a6..340f7a9 100644
--- a/src/string/secretbuf.rs
+++ b/src/string/secretbuf.rs
@@ -82,10 +82,13 @@ impl SecretBuf {
         self.reserve(expect);
         // Safety: This data gets initialized on creation of the SecretBuf,
         // or above.
-        let mut write_to = unsafe { self.data.as_write_slice(self.len) };
+        let mut write_to = unsafe { &mut self.data.as_write_slice(self.len)[..expect] };
         let mut bytes_read = 0usize;
         while bytes_read < expect {
-            let last_read = read.read(write_to)?;
+            let last_read = match read.read(write_to) {
+                Err(e) if e.kind() == std::io::ErrorKind::Interrupted => continue,
+                result => result?,
+            };
             if last_read == 0 {
                 break;
             }
-- 
2.43.0


From 1e8874c91564c6824fecf2064f372f1936c82b46 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:29:36 +0000
Subject: [PATCH 23/44] fix: keep secret strings secret when making them owning
 in place

---
 src/string/bytes.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/string/bytes.rs b/src/string/bytes.rs
index 1612ba1..d16b9c3 100644
--- a/src/string/bytes.rs
+++ b/src/string/bytes.rs
@@ -46,7 +46,8 @@ unsafe impl<'a> crate::owning::MakeOwning for crate::string::Bytes<'a> {
 
     fn make_owning(&mut self) {
         if !self.is_owning() {
-            self.owning_force(false);
+            let secret = self.secret;
+            self.owning_force(secret);
         }
     }
 }
-- 
2.43.0


From 9e0b63f8fffcdd576357ffcfc41d90a5580d718a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:29:42 +0000
Subject: [PATCH 24/44] fix: keep other nicknames after the server calls one
 invalid

The comparison was inverted: the untried nickname was dropped and the invalid one
was tried again.
---
 src/client/nick.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/client/nick.rs b/src/client/nick.rs
index 61ad5f1..c2f8b22 100644
--- a/src/client/nick.rs
+++ b/src/client/nick.rs
@@ -77,7 +77,7 @@ impl NickGen for Nick<'static> {
 
     fn handle_invalid(self: Box<Self>, nick: &Nick<'static>) -> Option<Box<dyn NickGen>> {
         let eq = *nick == *self;
-        eq.then_some(self)
+        (!eq).then_some(self)
     }
 }
 
-- 
2.43.0


From b5350e6e94510493a7437a1046dba19c7072348b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:29:42 +0000
Subject: [PATCH 25/44] fix: generate hexadecimal nick suffixes, and do not
 panic without any suffix

The letters were offset by ten, and sequential suffixes made of empty choices
underflowed the counter.
---
 src/client/nick/suffix.rs | 11 ++++++-----
 1 file changed, 6 insertions(+), 5 deletions(-)

diff --git a/src/client/nick/suffix.rs b/src/client/nick/suffix.rs
index 6ed8285..7f647e1 100644
--- a/src/client/nick/suffix.rs
+++ b/src/client/nick/suffix.rs
@@ -37,15 +37,15 @@ impl SuffixType {
             SuffixType::Base8 => nick.try_push(b'0' + (num & 7)),
             SuffixType::Base10 => nick.try_push(b'0' + num % 10),
             SuffixType::Base16(uc) => nick.try_push(match num & 15 {
-                num if *uc && num > 9 => b'A' + num,
-                num if !uc && num > 9 => b'a' + num,
+                num if *uc && num > 9 => b'A' + num - 10,
+                num if !uc && num > 9 => b'a' + num - 10,
                 num => b'0' + num,
             }),
             SuffixType::NonZeroBase8 => nick.try_push(b'1' + (num % 7)),
             SuffixType::NonZeroBase10 => nick.try_push(b'1' + num % 9),
             SuffixType::NonZeroBase16(uc) => nick.try_push(match num % 15 {
-                num if *uc && num > 8 => b'A' + num,
-                num if !uc && num > 8 => b'a' + num,
+                num if *uc && num > 8 => b'A' + num - 9,
+                num if !uc && num > 8 => b'a' + num - 9,
                 num => b'1' + num,
             }),
             SuffixType::Choice(opts) if !opts.is_empty() => {
@@ -147,7 +147,8 @@ impl NickTransformer for Suffix {
                     .suffixes
                     .iter()
                     .fold(0u8, |count, suffix| count.saturating_add(suffix.variance()));
-                (0, limit)
+                // Even without anything to vary, one nick has to be yielded.
+                (0, std::cmp::max(1, limit))
             }
         };
         Box::new(SuffixGen { cfg: self.clone(), prefix, state: seed, limit })
-- 
2.43.0


From 701378cbbce0074b12d89ad07d88e30073d3ed91 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:29:59 +0000
Subject: [PATCH 26/44] fix: do not take a longer PONG argument for the latency
 probe's own

The shift dropped high digits, so any argument ending in the right ones matched.
---
 src/client/handlers/ping.rs | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/client/handlers/ping.rs b/src/client/handlers/ping.rs
index 8ac01b0..ad57692 100644
--- a/src/client/handlers/ping.rs
+++ b/src/client/handlers/ping.rs
@@ -39,7 +39,10 @@ impl Handler for Ping {
                     if !(b'0'..=b'7').contains(&byte) {
                         return std::ops::ControlFlow::Continue(());
                     }
-                    value <<= 3;
+                    let Some(shifted) = value.checked_mul(8) else {
+                        return std::ops::ControlFlow::Continue(());
+                    };
+                    value = shifted;
                     value |= (byte - b'0') as u32;
                 }
                 if hash == value {
-- 
2.43.0


From 4236057190a462582c1acfeb27802074057d3695 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:30:25 +0000
Subject: [PATCH 27/44] fix: do not panic on a rate limit delay too long to add
 to the current time

---
 src/client/queue.rs | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/src/client/queue.rs b/src/client/queue.rs
index b189e1e..744c397 100644
--- a/src/client/queue.rs
+++ b/src/client/queue.rs
@@ -11,6 +11,9 @@ use crate::string::{Key, NoNul, User};
 use std::collections::VecDeque;
 use std::time::{Duration, Instant};
 
+/// Upper limit on delays, so that adding them to the current time never overflows.
+const MAX_DELAY: Duration = Duration::from_secs(60 * 60 * 24 * 365 * 30);
+
 /// A rate-limited queue for client messages.
 ///
 /// See [module-level documentation][self] for more info.
@@ -88,12 +91,12 @@ impl Queue {
     /// `burst` specifies how many additional messages may be sent during an initial burst,
     /// e.g. a value of `4` results in a burst of five messages.
     pub fn set_rate_limit(&mut self, delay: Duration, burst: u32) -> &mut Self {
-        self.delay = delay;
-        self.sub = delay.saturating_mul(burst);
+        self.delay = std::cmp::min(delay, MAX_DELAY);
+        self.sub = std::cmp::min(self.delay.saturating_mul(burst), MAX_DELAY);
         // Pessimistically sets the next-message delay
         // to the longest possible under the new settings.
         let now = Instant::now();
-        self.timepoint = now.checked_add(self.sub.saturating_add(delay)).unwrap_or(now);
+        self.timepoint = now.checked_add(self.sub.saturating_add(self.delay)).unwrap_or(now);
         self
     }
     /// Retrieves a message from the queue, subject to rate limits.
-- 
2.43.0


From cddae5c3f76ba34796ff4f58ce023cef59e3e04c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:37:35 +0000
Subject: [PATCH 28/44] fix: accept USERHOST replies with several items or a
 trailing space

---
 src/client/handlers/track.rs | 12 +++++++++---
 1 file changed, 9 insertions(+), 3 deletions(-)

diff --git a/src/client/handlers/track.rs b/src/client/handlers/track.rs
index 74aab7c..6bed593 100644
--- a/src/client/handlers/track.rs
+++ b/src/client/handlers/track.rs
@@ -95,10 +95,16 @@ impl Handler for TrackClientSource {
         match msg.kind.as_str() {
             // RPL_USERHOST
             "302" => {
-                if let Some([_, items @ ..]) = msg.args.all() {
+                if let (words, Some(last)) = msg.args.split_last() {
                     let src = get_client_source(state)?;
-                    for item in items {
-                        let userhost = match parse_userhost_item(item.clone(), &src.nick) {
+                    // The trailing argument may contain several space-separated items.
+                    let mut last = crate::string::Splitter::new(last.clone());
+                    let last_items = std::iter::from_fn(|| {
+                        last.consume_whitespace();
+                        last.string::<Arg>(false).ok()
+                    });
+                    for item in words.iter().skip(1).cloned().chain(last_items) {
+                        let userhost = match parse_userhost_item(item, &src.nick) {
                             Ok(uh) => uh,
                             // TODO: Log warning on ParseError?
                             Err(_) => continue,
-- 
2.43.0


From b9cc1843f96cab1efa615adc39f0d10bae301eef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:57:28 +0000
Subject: [PATCH 29/44] fix: zero out the buffers of secret strings when the
 last reference is lost

As Bytes::secret documents. Only into_vec did so.
---
 src/string/bytes.rs | 54 ++++++++++++++++++++++++++++-----------------
 1 file changed, 34 insertions(+), 20 deletions(-)

diff --git a/src/string/bytes.rs b/src/string/bytes.rs
index d16b9c3..5f5b933 100644
--- a/src/string/bytes.rs
+++ b/src/string/bytes.rs
@@ -67,7 +67,7 @@ impl<'a> Bytes<'a> {
     }
     /// Cheaply conversts a secret value into a `Bytes`.
     pub fn from_secret(value: Vec<u8>) -> Self {
-        let (ownership, value) = unsafe { OwnedBytes::from_vec(value) };
+        let (ownership, value) = unsafe { OwnedBytes::from_vec(value, true) };
         Bytes { value, ownership, utf8: AtomicI8::new(0), secret: true }
     }
     /// Returns `true` if `self` is not borrowing its data.
@@ -107,7 +107,7 @@ impl<'a> Bytes<'a> {
     }
     fn owning_force(&mut self, secret: bool) {
         unsafe {
-            let (ownership, value) = OwnedBytes::from_vec(self.value.to_vec());
+            let (ownership, value) = OwnedBytes::from_vec(self.value.to_vec(), secret);
             *self = Bytes { value, ownership, utf8: self.utf8.load(Relaxed).into(), secret }
         }
     }
@@ -173,7 +173,7 @@ impl<'a> Bytes<'a> {
         use base64::engine::{general_purpose::STANDARD as ENGINE, Engine};
         let encoded = ENGINE.encode(self.value);
         unsafe {
-            let (ownership, value) = OwnedBytes::from_vec(encoded.into_bytes());
+            let (ownership, value) = OwnedBytes::from_vec(encoded.into_bytes(), self.secret);
             Bytes { value, ownership, utf8: 1i8.into(), secret: self.secret }
         }
     }
@@ -266,7 +266,7 @@ impl<'a> Bytes<'a> {
             Cow::Owned(o) => {
                 let utf8 = self.utf8_for_policy(tfed.utf8);
                 unsafe {
-                    let (ownership, value) = OwnedBytes::from_vec(o);
+                    let (ownership, value) = OwnedBytes::from_vec(o, self.secret);
                     *self = Bytes { value, ownership, utf8: utf8.into(), secret: self.secret };
                 }
             }
@@ -278,7 +278,7 @@ impl<'a> Bytes<'a> {
     /// This operation copies data unless `self` has sole ownership of its data.
     pub fn into_vec(self) -> Vec<u8> {
         if let Some(owner) = self.ownership {
-            unsafe { owner.into_vec(self.value, self.secret) }
+            unsafe { owner.into_vec(self.value) }
         } else {
             self.value.to_vec()
         }
@@ -310,7 +310,7 @@ impl std::borrow::Borrow<[u8]> for Bytes<'_> {
 impl<'a> From<Vec<u8>> for Bytes<'a> {
     fn from(value: Vec<u8>) -> Self {
         unsafe {
-            let (ownership, value) = OwnedBytes::from_vec(value);
+            let (ownership, value) = OwnedBytes::from_vec(value, false);
             Bytes { value, ownership, utf8: 0i8.into(), secret: false }
         }
     }
@@ -319,7 +319,7 @@ impl<'a> From<Vec<u8>> for Bytes<'a> {
 impl<'a> From<String> for Bytes<'a> {
     fn from(value: String) -> Self {
         unsafe {
-            let (ownership, value) = OwnedBytes::from_vec(value.into_bytes());
+            let (ownership, value) = OwnedBytes::from_vec(value.into_bytes(), false);
             Bytes { value, ownership, utf8: 1i8.into(), secret: false }
         }
     }
@@ -364,7 +364,7 @@ impl<'a> From<Bytes<'a>> for Vec<u8> {
 impl<'a> From<Bytes<'a>> for Cow<'a, [u8]> {
     fn from(value: Bytes<'a>) -> Self {
         match value.ownership {
-            Some(v) => Cow::Owned(unsafe { v.into_vec(value.value, value.secret) }),
+            Some(v) => Cow::Owned(unsafe { v.into_vec(value.value) }),
             None => Cow::Borrowed(value.value),
         }
     }
@@ -478,7 +478,21 @@ impl std::fmt::Debug for Bytes<'_> {
 /// There is also only a strong reference count, which is kept seperate.
 #[repr(transparent)]
 #[derive(Clone)]
-struct OwnedBytes(crate::util::ThinArc<crate::util::OwnedSlice<u8>>);
+struct OwnedBytes(crate::util::ThinArc<Buffer>);
+
+/// The buffer of an [`OwnedBytes`], which is zeroed out at the end of its lifetime if secret.
+struct Buffer {
+    data: crate::util::OwnedSlice<u8>,
+    secret: bool,
+}
+
+impl Drop for Buffer {
+    fn drop(&mut self) {
+        if self.secret {
+            self.data.reinit_all();
+        }
+    }
+}
 
 impl OwnedBytes {
     /// Converts a Vec into Self (which owns the data)
@@ -490,25 +504,25 @@ impl OwnedBytes {
     /// This returns a reference with an unbound lifetime.
     /// Make sure this lifetime doesn't leak anywhere that might outlive
     /// the `Self`.
-    pub unsafe fn from_vec<'a>(value: Vec<u8>) -> (Option<Self>, &'a [u8]) {
+    pub unsafe fn from_vec<'a>(value: Vec<u8>, secret: bool) -> (Option<Self>, &'a [u8]) {
         if value.is_empty() {
             return (None, &[]);
         }
-        let (os, len) = crate::util::OwnedSlice::from_vec(value);
-        let slice = unsafe { os.as_slice(len) };
-        (Some(OwnedBytes(crate::util::ThinArc::new(os))), slice)
+        let (data, len) = crate::util::OwnedSlice::from_vec(value);
+        let slice = unsafe { data.as_slice(len) };
+        (Some(OwnedBytes(crate::util::ThinArc::new(Buffer { data, secret }))), slice)
     }
     /// Attempts to re-use the buffer for constructing a `Vec` from `slice`.
     ///
     /// # Safety
     /// `slice` is assumed to be a slice of the data owned by self.
-    pub unsafe fn into_vec(self, slice: &[u8], secret: bool) -> Vec<u8> {
-        if let Ok(os) = self.0.try_unwrap() {
-            let (retval, destroy) = os.into_vec_with_slice(slice);
-            if secret {
-                if let Some(mut destroy) = destroy {
-                    destroy.reinit_all();
-                }
+    pub unsafe fn into_vec(self, slice: &[u8]) -> Vec<u8> {
+        if let Ok(mut buffer) = self.0.try_unwrap() {
+            let empty = crate::util::OwnedSlice::from_vec(Vec::new()).0;
+            let data = std::mem::replace(&mut buffer.data, empty);
+            let (retval, destroy) = data.into_vec_with_slice(slice);
+            if let Some(destroy) = destroy {
+                buffer.data = destroy;
             }
             retval
         } else {
-- 
2.43.0


From 62808071ec5327cf134032e9b22c745f2e88f328 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:57:28 +0000
Subject: [PATCH 30/44] fix: keep secret strings secret when replacing
 non-UTF-8 bytes

---
 src/string/bytes.rs | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/string/bytes.rs b/src/string/bytes.rs
index 5f5b933..917b2ca 100644
--- a/src/string/bytes.rs
+++ b/src/string/bytes.rs
@@ -165,7 +165,10 @@ impl<'a> Bytes<'a> {
                 utf8: 1i8.into(),
                 secret: self.secret,
             },
-            Cow::Owned(o) => o.into(),
+            Cow::Owned(o) => unsafe {
+                let (ownership, value) = OwnedBytes::from_vec(o.into_bytes(), self.secret);
+                Bytes { value, ownership, utf8: 1i8.into(), secret: self.secret }
+            },
         }
     }
     #[cfg(feature = "base64")]
-- 
2.43.0


From 1196f4556f75b98a3fbd14b6198df4746a92422a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:57:28 +0000
Subject: [PATCH 31/44] fix: to_base64_plus of an empty secret string is
 secret, as documented

---
 src/string/bytes.rs | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/string/bytes.rs b/src/string/bytes.rs
index 917b2ca..24bd30c 100644
--- a/src/string/bytes.rs
+++ b/src/string/bytes.rs
@@ -196,7 +196,11 @@ impl<'a> Bytes<'a> {
     #[cfg(feature = "base64")]
     pub fn to_base64_plus(&self) -> super::Arg<'static> {
         if self.is_empty() {
-            crate::names::PLUS
+            if self.secret {
+                crate::names::PLUS.secret()
+            } else {
+                crate::names::PLUS
+            }
         } else {
             unsafe { super::Arg::from_unchecked(self.to_base64_impl()) }
         }
-- 
2.43.0


From 4b96df65bbbdc1575ea284a378021927c1a677ad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:57:29 +0000
Subject: [PATCH 32/44] fix: Clear appends its secret instead of replacing what
 was loaded before

---
 src/client/auth/secret.rs | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/client/auth/secret.rs b/src/client/auth/secret.rs
index 3871883..85d70dc 100644
--- a/src/client/auth/secret.rs
+++ b/src/client/auth/secret.rs
@@ -105,7 +105,11 @@ impl LoadSecret for Clear {
         0 // Don't allocate a destination buffer. We're just going to reuse the Vec.
     }
     fn load_secret(self, data: &mut SecretBuf) -> std::io::Result<()> {
-        std::mem::drop(std::mem::replace(data, self.0));
+        if data.is_empty() {
+            std::mem::drop(std::mem::replace(data, self.0));
+        } else {
+            data.push_slice(self.0.as_ref());
+        }
         Ok(())
     }
 }
-- 
2.43.0


From 2336440615880bcd130a6be389cfc35ae5ed367d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:01:53 +0000
Subject: [PATCH 33/44] fix: keep secret tag values secret when escaping and
 unescaping

---
 src/string/tf/escape.rs | 15 ++++++++++++---
 1 file changed, 12 insertions(+), 3 deletions(-)

diff --git a/src/string/tf/escape.rs b/src/string/tf/escape.rs
index 2b0bc01..9b42e3c 100644
--- a/src/string/tf/escape.rs
+++ b/src/string/tf/escape.rs
@@ -1,4 +1,4 @@
-use crate::string::{NoNul, Word};
+use crate::string::{Bytes, NoNul, Word};
 use std::num::NonZeroU8;
 
 /// Returns the unescaped value for an tag value escape code.
@@ -25,6 +25,15 @@ pub fn escape_byte(byte: &u8) -> Option<NonZeroU8> {
     }
 }
 
+/// Converts `bytes` into a byte string that's secret if `original` is.
+fn with_secrecy_of<'a>(original: &NoNul<'_>, bytes: Vec<u8>) -> Bytes<'a> {
+    if original.is_secret() {
+        Bytes::from_secret(bytes)
+    } else {
+        bytes.into()
+    }
+}
+
 /// Returns an escaped form of the provided tag value.
 pub fn escape<'a>(tag_value: impl Into<NoNul<'a>>) -> Word<'a> {
     let tag_value = tag_value.into();
@@ -50,7 +59,7 @@ pub fn escape<'a>(tag_value: impl Into<NoNul<'a>>) -> Word<'a> {
             new_bytes.push(*byte);
         }
     }
-    unsafe { Word::from_unchecked(new_bytes.into()) }
+    unsafe { Word::from_unchecked(with_secrecy_of(&tag_value, new_bytes)) }
 }
 
 /// Returns an unescaped form of the provided tag value.
@@ -79,5 +88,5 @@ pub fn unescape<'a>(tag_value: impl Into<NoNul<'a>>) -> NoNul<'a> {
             new_bytes.push(*byte);
         }
     }
-    unsafe { NoNul::from_unchecked(new_bytes.into()) }
+    unsafe { NoNul::from_unchecked(with_secrecy_of(&tag_value, new_bytes)) }
 }
-- 
2.43.0


From 74f1308d2f3f9494acdf2a8d85bc23fa32fd8283 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:10:36 +0000
Subject: [PATCH 34/44] fix: zero the buffer of a secret string that turned out
 to be empty

---
 src/string/bytes.rs | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/src/string/bytes.rs b/src/string/bytes.rs
index 24bd30c..818b0fd 100644
--- a/src/string/bytes.rs
+++ b/src/string/bytes.rs
@@ -512,12 +512,14 @@ impl OwnedBytes {
     /// Make sure this lifetime doesn't leak anywhere that might outlive
     /// the `Self`.
     pub unsafe fn from_vec<'a>(value: Vec<u8>, secret: bool) -> (Option<Self>, &'a [u8]) {
-        if value.is_empty() {
+        let (data, len) = crate::util::OwnedSlice::from_vec(value);
+        let buffer = Buffer { data, secret };
+        if len == 0 {
+            // Dropping the buffer zeroes out anything it contained before, if it is secret.
             return (None, &[]);
         }
-        let (data, len) = crate::util::OwnedSlice::from_vec(value);
-        let slice = unsafe { data.as_slice(len) };
-        (Some(OwnedBytes(crate::util::ThinArc::new(Buffer { data, secret }))), slice)
+        let slice = unsafe { buffer.data.as_slice(len) };
+        (Some(OwnedBytes(crate::util::ThinArc::new(buffer))), slice)
     }
     /// Attempts to re-use the buffer for constructing a `Vec` from `slice`.
     ///
-- 
2.43.0


From 69ba0378edb1b4df2ce68f0d4b22dda453e28ebc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:53:07 +0000
Subject: [PATCH 35/44] fix: do not take bytes a splitter gets back from a
 saved range for UTF-8

---
 src/string/splitter.rs | 15 ++++++++++++---
 1 file changed, 12 insertions(+), 3 deletions(-)

diff --git a/src/string/splitter.rs b/src/string/splitter.rs
index ee73db0..06c4d20 100644
--- a/src/string/splitter.rs
+++ b/src/string/splitter.rs
@@ -69,15 +69,24 @@ impl Range {
         count
     }
     pub fn restore(&mut self, saved: Range, start: bool, end: bool) {
+        let empty = self.len() == 0;
         if start {
             self.start = saved.start;
         }
         if end {
             self.end = saved.end;
         }
-        if start && end {
-            self.encoding = saved.encoding;
-        }
+        self.encoding = if (start && end) || saved.encoding == Encoding::Ascii {
+            saved.encoding
+        } else if (start || end) && empty {
+            // The end that was not restored may be inside of a character.
+            Encoding::Unknown
+        } else if start || end {
+            // What is known of the smaller range does not hold for the bytes being restored.
+            std::cmp::min(self.encoding, saved.encoding)
+        } else {
+            self.encoding
+        };
     }
     pub fn constrain<'a, T>(&self, slice: &'a [T]) -> &'a [T] {
         &slice[self.start..self.end]
-- 
2.43.0


From e8f2904c1986d349e4fd6d64c77b9a8ffa72d52a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:42:09 +0000
Subject: [PATCH 36/44] fix: NoVerifier checks TLS 1.3 handshake signatures by
 TLS 1.3's rules

TLS 1.3 signatures went through the TLS 1.2 check, which accepts
signature schemes that TLS 1.3 forbids (such as RSA PKCS#1 v1.5).
---
 src/client/tls.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/client/tls.rs b/src/client/tls.rs
index d39e719..fe7e1f5 100644
--- a/src/client/tls.rs
+++ b/src/client/tls.rs
@@ -73,7 +73,7 @@ impl rustls::client::danger::ServerCertVerifier for NoVerifier {
         cert: &CertificateDer<'_>,
         dss: &rustls::DigitallySignedStruct,
     ) -> Result<rustls::client::danger::HandshakeSignatureValid, rustls::Error> {
-        rustls::crypto::verify_tls12_signature(
+        rustls::crypto::verify_tls13_signature(
             message,
             cert,
             dss,
-- 
2.43.0


From 53cac80fbdfda7f2d65eeeab8f80c93ccd6923e3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:49:16 +0000
Subject: [PATCH 37/44] fix: sync TLS writes honor the write timeout

When a write on a TLS stream timed out, rustls went on to read from the
socket, waiting for as long as the read timeout allowed: without one,
the client hung for good with its lines unsent.
---
 src/client/conn/sync.rs | 33 +++++++++++++++++++++++++++++++--
 1 file changed, 31 insertions(+), 2 deletions(-)

diff --git a/src/client/conn/sync.rs b/src/client/conn/sync.rs
index e026696..bae489d 100644
--- a/src/client/conn/sync.rs
+++ b/src/client/conn/sync.rs
@@ -43,6 +43,29 @@ impl<'a> super::ServerAddr<'a> {
     }
 }
 
+/// Writes out all pending TLS records.
+///
+/// Unlike the `Write` impl of `rustls`, this does not turn to reading
+/// (for as long as the read timeout allows) when a write times out.
+#[cfg(feature = "tls")]
+fn write_records(
+    tls: &mut rustls::StreamOwned<rustls::ClientConnection, TcpStream>,
+) -> std::io::Result<()> {
+    use std::io::ErrorKind;
+    if tls.conn.is_handshaking() {
+        tls.conn.complete_io(&mut tls.sock)?;
+    }
+    while tls.conn.wants_write() {
+        match tls.conn.write_tls(&mut tls.sock) {
+            Ok(0) => return Err(ErrorKind::WriteZero.into()),
+            Ok(_) => (),
+            Err(e) if e.kind() == ErrorKind::Interrupted => (),
+            Err(e) => return Err(e),
+        }
+    }
+    tls.sock.flush()
+}
+
 /// An abstraction of common I/O stream types.
 #[derive(Debug)]
 pub struct Stream(StreamInner);
@@ -140,7 +163,13 @@ impl Write for Stream {
             StreamInner::Closed => Ok(0),
             StreamInner::Tcp(s) => s.write(buf),
             #[cfg(feature = "tls")]
-            StreamInner::Tls(s) => s.write(buf),
+            StreamInner::Tls(s) => {
+                write_records(s)?;
+                let len = s.conn.writer().write(buf)?;
+                // `len` bytes have been taken; the next call reports any error.
+                let _ = write_records(s);
+                Ok(len)
+            }
         }
     }
 
@@ -149,7 +178,7 @@ impl Write for Stream {
             StreamInner::Closed => Ok(()),
             StreamInner::Tcp(s) => s.flush(),
             #[cfg(feature = "tls")]
-            StreamInner::Tls(s) => s.flush(),
+            StreamInner::Tls(s) => write_records(s),
         }
     }
 }
-- 
2.43.0


From ed06e53ec8f082b0872ee82d2d1b4ef7ed3b9823 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:28:37 +0000
Subject: [PATCH 38/44] fix: do not send bytes again after an async write was
 cancelled

---
 src/client.rs            |  4 ++--
 src/client/conn.rs       |  4 ++++
 src/client/conn/sync.rs  |  5 +++--
 src/client/conn/tokio.rs | 22 +++++++++++++++++-----
 4 files changed, 26 insertions(+), 9 deletions(-)

diff --git a/src/client.rs b/src/client.rs
index 83adf4d..ce8da33 100644
--- a/src/client.rs
+++ b/src/client.rs
@@ -73,7 +73,7 @@ impl<C, S> Client<C, S> {
     pub fn with_conn<C2>(self, conn: C2) -> Client<C2, S> {
         let Self { conn: old, spec, mut logic, on_timeout } = self;
         logic.timeout.require_update();
-        let conn = conn::MsgIo { conn, buf_i: old.buf_i, buf_o: old.buf_o };
+        let conn = conn::MsgIo { conn, buf_i: old.buf_i, buf_o: old.buf_o, sent: old.sent };
         Client { conn, logic, spec, on_timeout }
     }
     /// Uses the provided [`ChannelSpec`] for `self`.
@@ -181,6 +181,6 @@ impl<C, S> Client<C, S> {
 
     /// Returns `true` if the client has handlers or queued messages.
     pub fn needs_run(&self) -> bool {
-        self.logic.needs_run()
+        self.logic.needs_run() || !self.conn.buf_o.is_empty()
     }
 }
diff --git a/src/client/conn.rs b/src/client/conn.rs
index 37ba76b..2ff3057 100644
--- a/src/client/conn.rs
+++ b/src/client/conn.rs
@@ -99,6 +99,8 @@ pub(super) struct MsgIo<C> {
     pub conn: C,
     pub buf_i: Vec<u8>,
     pub buf_o: Vec<u8>,
+    /// How much of `buf_o` has been sent, if sending it was cancelled.
+    pub sent: usize,
 }
 
 impl<C> MsgIo<C> {
@@ -110,10 +112,12 @@ impl<C> MsgIo<C> {
             // Aside from being the size of the largest IRCv2 message,
             // this also fits just under 4 old-Twitter-sized messages.
             buf_o: Vec::with_capacity(512),
+            sent: 0,
         }
     }
     pub fn reset(&mut self) {
         self.buf_i.clear();
         self.buf_o.clear();
+        self.sent = 0;
     }
 }
diff --git a/src/client/conn/sync.rs b/src/client/conn/sync.rs
index bae489d..8edca6d 100644
--- a/src/client/conn/sync.rs
+++ b/src/client/conn/sync.rs
@@ -371,7 +371,7 @@ impl<C: Connection, S> crate::client::Client<C, S> {
     ///
     /// If the `tracing` feature is enabled, logs messages at the debug level.
     pub fn flush_partial(&mut self) -> std::io::Result<Option<Duration>> {
-        if self.logic.queue.is_empty() {
+        if self.logic.queue.is_empty() && self.conn.buf_o.is_empty() {
             return Ok(None);
         }
         let mut timeout = None;
@@ -384,8 +384,9 @@ impl<C: Connection, S> crate::client::Client<C, S> {
             let _ = ClientCodec::write_to(&popped, &mut self.conn.buf_o);
             self.conn.buf_o.extend_from_slice(b"\r\n");
         }
-        let result = conn.write_all(&self.conn.buf_o);
+        let result = conn.write_all(&self.conn.buf_o[self.conn.sent..]);
         self.conn.buf_o.clear();
+        self.conn.sent = 0;
         result?;
         conn.flush()?;
         Ok(timeout)
diff --git a/src/client/conn/tokio.rs b/src/client/conn/tokio.rs
index a596ec1..7c48276 100644
--- a/src/client/conn/tokio.rs
+++ b/src/client/conn/tokio.rs
@@ -215,7 +215,8 @@ impl<C: ConnectionTokio, S> crate::client::Client<C, S> {
     /// If the `tracing` feature is enabled, logs messages at the debug level.
     pub async fn flush_partial_tokio(&mut self) -> std::io::Result<Option<Duration>> {
         use tokio::io::AsyncWriteExt;
-        if self.logic.queue.is_empty() {
+        // A previous call may have been cancelled before everything was sent.
+        if self.logic.queue.is_empty() && self.conn.buf_o.is_empty() {
             return Ok(None);
         }
         let mut timeout = None;
@@ -225,11 +226,22 @@ impl<C: ConnectionTokio, S> crate::client::Client<C, S> {
             let _ = ClientCodec::write_to(&popped, &mut self.conn.buf_o);
             self.conn.buf_o.extend_from_slice(b"\r\n");
         }
-        let mut conn = TimeLimitedTokio::new(&mut self.conn.conn, &self.logic.timeout);
-        let result = conn.write_all(&self.conn.buf_o).await;
-        self.conn.buf_o.clear();
+        let super::MsgIo { conn, buf_o, sent, .. } = &mut self.conn;
+        let mut conn = TimeLimitedTokio::new(conn, &self.logic.timeout);
+        // Unlike `write_all`, this can be cancelled without forgetting what has been sent.
+        let result = loop {
+            if *sent >= buf_o.len() {
+                break conn.flush().await;
+            }
+            match conn.write(&buf_o[*sent..]).await {
+                Ok(0) => break Err(std::io::ErrorKind::WriteZero.into()),
+                Ok(len) => *sent += len,
+                Err(e) => break Err(e),
+            }
+        };
+        buf_o.clear();
+        *sent = 0;
         result?;
-        conn.flush().await?;
         Ok(timeout)
     }
 }
-- 
2.43.0


From 6315fe6680af1e135df3a26ea5d8c68112522a77 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:31:07 +0000
Subject: [PATCH 39/44] fix: CAP NEW updates the value of a capability already
 advertised

---
 src/client/register/handler.rs | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/src/client/register/handler.rs b/src/client/register/handler.rs
index a5b8ed2..e5a138b 100644
--- a/src/client/register/handler.rs
+++ b/src/client/register/handler.rs
@@ -474,12 +474,20 @@ impl Handler {
                             self.state = state;
                         }
                     }
-                    cap::SubCmd::Ls | cap::SubCmd::New => {
+                    cap::SubCmd::Ls => {
                         let mut caps = self.reg.caps.edit();
                         for (key, value) in cap_msg.caps {
                             caps.try_insert((key, value), false);
                         }
                     }
+                    cap::SubCmd::New => {
+                        let mut caps = self.reg.caps.edit();
+                        for (key, value) in cap_msg.caps {
+                            // Also sent when only the value of a capability changes.
+                            let enabled = caps.get_extra_raw(&key).copied().unwrap_or_default();
+                            caps.insert((key, value), enabled);
+                        }
+                    }
                     cap::SubCmd::Ack => {
                         let mut caps = self.reg.caps.edit();
                         self.state.ack(true, &cap_msg.caps, sink.borrow_mut())?;
-- 
2.43.0


From 36a695efe949402bd995d1b3d645890f3ec0ea67 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:39:40 +0000
Subject: [PATCH 40/44] fix: take over the buffer of an unshared string that is
 made secret

Bytes::secret copied it and freed the original with its contents in place,
as happened to server passwords (Options::set_pass), to encoded SASL
responses (ChunkEncoder) and to what SecretBuf::as_bytes views.
---
 src/string/bytes.rs | 20 +++++++++++++++++---
 1 file changed, 17 insertions(+), 3 deletions(-)

diff --git a/src/string/bytes.rs b/src/string/bytes.rs
index 818b0fd..694eed2 100644
--- a/src/string/bytes.rs
+++ b/src/string/bytes.rs
@@ -98,9 +98,17 @@ impl<'a> Bytes<'a> {
     /// Owning versions of these strings' buffers are zeroed out
     /// when the last reference to them is lost.
     pub fn secret(mut self) -> Self {
-        if !self.secret && self.is_owning() {
-            self.owning_force(true);
-        } else {
+        if !self.secret {
+            if let Some(owner) = self.ownership.take() {
+                match owner.into_secret() {
+                    Ok(owner) => self.ownership = Some(owner),
+                    Err(owner) => {
+                        // The original must outlive the copying of its contents.
+                        self.ownership = Some(owner);
+                        self.owning_force(true);
+                    }
+                }
+            }
             self.secret = true;
         }
         self
@@ -521,6 +529,12 @@ impl OwnedBytes {
         let slice = unsafe { buffer.data.as_slice(len) };
         (Some(OwnedBytes(crate::util::ThinArc::new(buffer))), slice)
     }
+    /// Marks the buffer as secret, if nothing else owns it.
+    pub fn into_secret(self) -> Result<Self, Self> {
+        let mut buffer = self.0.try_unwrap().map_err(OwnedBytes)?;
+        buffer.secret = true;
+        Ok(OwnedBytes(crate::util::ThinArc::new(buffer)))
+    }
     /// Attempts to re-use the buffer for constructing a `Vec` from `slice`.
     ///
     /// # Safety
-- 
2.43.0


From 2e090293a1c8342bb1e11472a96c69938e11c37f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:30:52 +0000
Subject: [PATCH 41/44] fix: accept PREFIX values with several modes without a
 prefix

---
 src/state/mode.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/state/mode.rs b/src/state/mode.rs
index b420d1f..1ad9690 100644
--- a/src/state/mode.rs
+++ b/src/state/mode.rs
@@ -473,7 +473,8 @@ impl StatusModes {
                         format!("duplicate mode `{mode}`").into(),
                     ));
                 }
-                if prefix == prefix_b {
+                // Modes without a prefix all have a NUL here.
+                if prefix != b'\0' && prefix == prefix_b {
                     return Err(ParseError::InvalidField(
                         "PREFIX value".into(),
                         format!("duplicate prefix `{}`", prefix.escape_ascii()).into(),
-- 
2.43.0


From 7e531767bd20731918ff79412b1b50a1d1c18b1a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:30:52 +0000
Subject: [PATCH 42/44] fix: notice type A modes that are announced as type C
 or D as well

---
 src/state/mode.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/state/mode.rs b/src/state/mode.rs
index 1ad9690..a2f4d8e 100644
--- a/src/state/mode.rs
+++ b/src/state/mode.rs
@@ -330,8 +330,9 @@ impl ModeTypes {
     /// and returned as a separate set. Use [`insert_set()`][Self::insert_set] to add them back.
     pub fn from_sets(a: ModeSet, b: ModeSet, c: ModeSet, d: ModeSet) -> (Self, ModeSet) {
         let mut overlap = a.intersection(b);
+        overlap = overlap.union(a.intersection(c));
+        overlap = overlap.union(a.intersection(d));
         overlap = overlap.union(b.intersection(c));
-        overlap = overlap.union(c.intersection(d));
         overlap = overlap.union(b.intersection(d));
         overlap = overlap.union(c.intersection(d));
         (
-- 
2.43.0


From a71372f0bdcf5a355c6533cb99f8d893375ce382 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:45:35 +0000
Subject: [PATCH 43/44] fix: restore numerics from the integers they are
 serialized as

---
 src/ircmsg/numeric.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/ircmsg/numeric.rs b/src/ircmsg/numeric.rs
index 8be4785..de1ff49 100644
--- a/src/ircmsg/numeric.rs
+++ b/src/ircmsg/numeric.rs
@@ -5,7 +5,7 @@ use std::{io::Write, num::NonZeroU8};
 /// A three-digit numeric reply code.
 #[derive(Clone, Copy, PartialEq, Eq, PartialOrd, Ord)]
 #[cfg_attr(feature = "serde", derive(serde_derive::Serialize, serde_derive::Deserialize))]
-#[cfg_attr(feature = "serde", serde(into = "u16"))]
+#[cfg_attr(feature = "serde", serde(into = "u16", try_from = "u16"))]
 pub struct Numeric([NonZeroU8; 3]);
 
 impl AsRef<str> for Numeric {
-- 
2.43.0


From 70da417948c48f64a0e48c4078750336d106a970 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:02:10 +0000
Subject: [PATCH 44/44] fix: count the last long argument in how many more can
 be added

`args_left` says how many more arguments can be safely added, given that a
message has at most 15, but did not count a last argument that is long, so
adding that many words before it made 16.
---
 src/ircmsg/args.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/ircmsg/args.rs b/src/ircmsg/args.rs
index d13ebee..02f7590 100644
--- a/src/ircmsg/args.rs
+++ b/src/ircmsg/args.rs
@@ -61,7 +61,7 @@ impl<'a> ArgsEditGuard<'a, '_> {
     /// IRC messages should contain no more than 15 arguments,
     /// but IRC software should also support any number of arguments.
     pub fn args_left(&self) -> isize {
-        15 - self.0.len() as isize
+        15 - self.0.len() as isize - self.1.is_some() as isize
     }
     /// Returns a mutable slice of all the arguments as a slice of [`Arg`]s,
     /// or None if the final argument is long.
-- 
2.43.0

