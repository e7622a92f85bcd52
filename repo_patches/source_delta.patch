From 06a6f8aba58d466f4487d97a840ca6b405ab7323 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:56:57 +0000
Subject: [PATCH 01/16] fix: make the total order of addresses agree with
 equality and the partial order

Ord::cmp ignored the strength of the handle, so that a strong and a weak Address<_, Either> of one
actor compared as equal although == and partial_cmp tell them apart.
---
 xtra/src/address.rs | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/xtra/src/address.rs b/xtra/src/address.rs
index 11502ca..752b6d3 100644
--- a/xtra/src/address.rs
+++ b/xtra/src/address.rs
@@ -302,7 +302,10 @@ impl<A, Rc: RefCounter, Rc2: RefCounter> PartialOrd<Address<A, Rc2>> for Address
 
 impl<A, Rc: RefCounter> Ord for Address<A, Rc> {
     fn cmp(&self, other: &Self) -> Ordering {
-        self.0.inner_ptr().cmp(&other.0.inner_ptr())
+        self.0
+            .inner_ptr()
+            .cmp(&other.0.inner_ptr())
+            .then_with(|| self.0.is_strong().cmp(&other.0.is_strong()))
     }
 }
 
-- 
2.43.0


From 0e8bc4b5c8c67970780b3d736ce60d0383ada9c6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:56:57 +0000
Subject: [PATCH 02/16] fix: admit waiting senders of equal priority in the
 order they arrived

max_by_key returns the last of several maxima, so the sender that had waited the shortest was
admitted first.
---
 xtra/src/chan.rs | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/xtra/src/chan.rs b/xtra/src/chan.rs
index 187d963..d644af3 100644
--- a/xtra/src/chan.rs
+++ b/xtra/src/chan.rs
@@ -432,9 +432,12 @@ where
 {
     queue.retain(|handle| handle.is_active()); // Only process handles which are still active.
 
+    // `max_by_key` yields the last of several maxima, so go through the queue in reverse in order to
+    // get the handle that has been waiting the longest.
     let pos = queue
         .iter()
         .enumerate()
+        .rev()
         .max_by_key(|(_, handle)| handle.priority())?
         .0;
 
-- 
2.43.0


From d0c717e43bcd2634813e8288fe5c2acc4b4e34a7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:59:08 +0000
Subject: [PATCH 03/16] fix: deliver messages of equal priority in the order
 they were queued

---
 xtra/src/chan.rs          | 31 ++++++++++++++++++++++++++-----
 xtra/src/chan/priority.rs | 11 ++++++++---
 2 files changed, 34 insertions(+), 8 deletions(-)

diff --git a/xtra/src/chan.rs b/xtra/src/chan.rs
index d644af3..2a35869 100644
--- a/xtra/src/chan.rs
+++ b/xtra/src/chan.rs
@@ -127,7 +127,7 @@ impl<A> Chan<A> {
             return Ok(Err(MailboxFull(waiting)));
         }
 
-        inner.unicast_queue.push(ByPriority(unfulfilled_msg));
+        inner.push_unicast(unfulfilled_msg);
 
         Ok(Ok(()))
     }
@@ -282,7 +282,8 @@ impl<A> Chan<A> {
     /// that this process gets cancelled. In that case, this function can be used to re-queue the
     /// given message so it does not get lost.
     ///
-    /// Note that the ordering of messages in the queues may be slightly off with this function.
+    /// The message goes ahead of all queued messages of the same priority. Note that the ordering of
+    /// messages in the queues may be slightly off with this function if several are re-queued.
     pub fn requeue_message(&self, msg: MessageToOne<A>) {
         let mut inner = match self.chan.lock() {
             Ok(lock) => lock,
@@ -290,7 +291,10 @@ impl<A> Chan<A> {
         };
 
         if let Err(msg) = inner.try_fulfill_receiver(msg) {
-            inner.unicast_queue.push(ByPriority(msg));
+            // It was at the front of the queue when it was taken out.
+            inner.first_position -= 1;
+            let position = inner.first_position;
+            inner.unicast_queue.push(ByPriority(msg, position));
         }
     }
 
@@ -310,6 +314,10 @@ struct Inner<A> {
     unicast_queue: BinaryHeap<ByPriority<MessageToOne<A>>>,
     broadcast_queues: Vec<Weak<BroadcastQueue<A>>>,
     broadcast_tail: usize,
+    /// The position of the next message to be queued.
+    next_position: i64,
+    /// The lowest position given to a re-queued message.
+    first_position: i64,
 }
 
 impl<A> Inner<A> {
@@ -322,15 +330,27 @@ impl<A> Inner<A> {
             unicast_queue: BinaryHeap::default(),
             broadcast_queues: Vec::default(),
             broadcast_tail: 0,
+            next_position: 0,
+            first_position: 0,
         }
     }
 
+    fn next_position(&mut self) -> i64 {
+        self.next_position += 1;
+        self.next_position
+    }
+
+    fn push_unicast(&mut self, msg: MessageToOne<A>) {
+        let position = self.next_position();
+        self.unicast_queue.push(ByPriority(msg, position));
+    }
+
     fn pop_unicast(&mut self) -> Option<Box<dyn MessageEnvelope<Actor = A>>> {
         let msg = self.unicast_queue.pop()?.0;
 
         if !self.is_unicast_full() {
             if let Some(msg) = self.try_take_waiting_unicast_message() {
-                self.unicast_queue.push(ByPriority(msg))
+                self.push_unicast(msg)
             }
         }
 
@@ -367,9 +387,10 @@ impl<A> Inner<A> {
     }
 
     fn send_broadcast(&mut self, m: MessageToAll<A>) {
+        let position = self.next_position();
         self.broadcast_queues.retain(|queue| match queue.upgrade() {
             Some(q) => {
-                q.lock().push(ByPriority(m.clone()));
+                q.lock().push(ByPriority(m.clone(), position));
                 true
             }
             None => false, // The corresponding receiver has been dropped - remove it
diff --git a/xtra/src/chan/priority.rs b/xtra/src/chan/priority.rs
index 1c01ee7..d1d1f6e 100644
--- a/xtra/src/chan/priority.rs
+++ b/xtra/src/chan/priority.rs
@@ -17,7 +17,9 @@ pub trait HasPriority {
 }
 
 /// A wrapper struct that allows comparison and ordering for anything thas has a priority, i.e. implements [`HasPriority`].
-pub struct ByPriority<T>(pub T);
+/// Orders messages by their priority, and those of the same priority by their position, such that
+/// the one with the lowest position is the greatest.
+pub struct ByPriority<T>(pub T, pub i64);
 
 impl<T> HasPriority for ByPriority<T>
 where
@@ -33,7 +35,7 @@ where
     T: HasPriority,
 {
     fn eq(&self, other: &Self) -> bool {
-        self.0.priority().eq(&other.0.priority())
+        self.cmp(other).is_eq()
     }
 }
 
@@ -53,6 +55,9 @@ where
     T: HasPriority,
 {
     fn cmp(&self, other: &Self) -> Ordering {
-        self.0.priority().cmp(&other.0.priority())
+        self.0
+            .priority()
+            .cmp(&other.0.priority())
+            .then_with(|| other.1.cmp(&self.1))
     }
 }
-- 
2.43.0


From 3ca55558b4a93c1f0b927aec41731641b5af6040 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:59:35 +0000
Subject: [PATCH 04/16] fix: do not queue a message if the last receiver went
 away in the meantime

---
 xtra/src/chan.rs | 11 +++++++++++
 1 file changed, 11 insertions(+)

diff --git a/xtra/src/chan.rs b/xtra/src/chan.rs
index 2a35869..bcb7499 100644
--- a/xtra/src/chan.rs
+++ b/xtra/src/chan.rs
@@ -114,6 +114,12 @@ impl<A> Chan<A> {
 
         let mut inner = self.chan.lock().unwrap();
 
+        // The last receiver might have gone away since the check above. It clears the queues with
+        // the channel locked, so the message would never be handled nor dropped if it was queued now.
+        if !self.is_connected() {
+            return Err(Error::Disconnected);
+        }
+
         let unfulfilled_msg = if let Err(msg) = inner.try_fulfill_receiver(message) {
             msg
         } else {
@@ -146,6 +152,11 @@ impl<A> Chan<A> {
 
         let mut inner = self.chan.lock().unwrap();
 
+        // See `try_send_to_one`.
+        if !self.is_connected() {
+            return Err(Error::Disconnected);
+        }
+
         if inner.is_broadcast_full() {
             let (handle, waiting) = WaitingSender::new(message);
             inner.waiting_send_to_all.push_back(handle);
-- 
2.43.0


From e5195ac80cbaa7a10f6a5e39949d33f5ba374ac6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:00:41 +0000
Subject: [PATCH 05/16] fix: do not drop messages while the channel is locked

---
 xtra/src/chan.rs                | 30 ++++++++++++++++++------------
 xtra/src/chan/waiting_sender.rs |  9 +++++++++
 2 files changed, 27 insertions(+), 12 deletions(-)

diff --git a/xtra/src/chan.rs b/xtra/src/chan.rs
index bcb7499..41170fc 100644
--- a/xtra/src/chan.rs
+++ b/xtra/src/chan.rs
@@ -164,7 +164,8 @@ impl<A> Chan<A> {
             return Ok(Err(MailboxFull(waiting)));
         }
 
-        inner.send_broadcast(message);
+        // Cloned such that it is not dropped with the channel locked if there is no one to receive it.
+        inner.send_broadcast(message.clone());
 
         Ok(Ok(()))
     }
@@ -253,20 +254,25 @@ impl<A> Chan<A> {
 
     /// Shutdown all [`WaitingSender`]s in this channel.
     fn shutdown_waiting_senders(&self) {
-        let mut inner = match self.chan.lock() {
-            Ok(lock) => lock,
-            Err(_) => return, // Poisoned, ignore
-        };
+        let _outstanding = {
+            let mut inner = match self.chan.lock() {
+                Ok(lock) => lock,
+                Err(_) => return, // Poisoned, ignore
+            };
 
-        self.on_shutdown.notify(usize::MAX);
+            self.on_shutdown.notify(usize::MAX);
 
-        // Let any outstanding messages drop
-        inner.unicast_queue.clear();
-        inner.broadcast_queues.clear();
+            inner.broadcast_queues.clear();
+            inner.broadcast_tail = 0;
 
-        // Close (and potentially wake) outstanding waiting senders
-        inner.waiting_send_to_one.clear();
-        inner.waiting_send_to_all.clear();
+            // Let any outstanding messages drop, and close (and potentially wake) outstanding waiting
+            // senders. This runs code from outside of this crate, so the channel must not be locked.
+            (
+                mem::take(&mut inner.unicast_queue),
+                mem::take(&mut inner.waiting_send_to_one),
+                mem::take(&mut inner.waiting_send_to_all),
+            )
+        };
     }
 
     pub fn disconnect_listener(&self) -> Option<EventListener> {
diff --git a/xtra/src/chan/waiting_sender.rs b/xtra/src/chan/waiting_sender.rs
index eedd217..6074b90 100644
--- a/xtra/src/chan/waiting_sender.rs
+++ b/xtra/src/chan/waiting_sender.rs
@@ -96,6 +96,15 @@ impl<A> Future for WaitingSender<A> {
     }
 }
 
+impl<M> Drop for WaitingSender<M> {
+    fn drop(&mut self) {
+        // Take the message out instead of leaving it to whoever has the last reference to it. The
+        // channel might be looking at it through a `Handle`, and dropping the message while the
+        // channel is locked would deadlock if that makes use of the channel.
+        let _message = mem::replace(&mut *self.0.lock(), Inner::Closed);
+    }
+}
+
 enum Inner<M> {
     Active { waker: Option<Waker>, message: M },
     Delivered,
-- 
2.43.0


From 7166ccd13f205cb8dca1c916d4ced3f2812d4d35 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:01:05 +0000
Subject: [PATCH 06/16] fix: do not lose a message sent while a receive is
 being cancelled

---
 xtra/src/chan.rs                  | 29 ++++++++++++++++++++++----
 xtra/src/chan/waiting_receiver.rs | 34 ++++++++++++++++++++++---------
 xtra/src/recv_future.rs           |  8 +++-----
 3 files changed, 52 insertions(+), 19 deletions(-)

diff --git a/xtra/src/chan.rs b/xtra/src/chan.rs
index 41170fc..71dfc86 100644
--- a/xtra/src/chan.rs
+++ b/xtra/src/chan.rs
@@ -200,7 +200,10 @@ impl<A> Chan<A> {
                     return Ok(ActorMessage::Shutdown);
                 }
 
-                let (receiver, handle) = WaitingReceiver::new();
+                let id = inner.next_receiver_id;
+                inner.next_receiver_id += 1;
+
+                let (receiver, handle) = WaitingReceiver::new(id);
 
                 inner.waiting_receivers_handles.push_back(handle);
                 Err(receiver)
@@ -293,20 +296,35 @@ impl<A> Chan<A> {
         }
     }
 
-    /// Re-queue the given message.
+    /// Cancel the given [`WaitingReceiver`], and re-queue the message it has been notified about, if any.
     ///
     /// Normally, messages are delivered from the inbox straight to the actor. It can however happen
     /// that this process gets cancelled. In that case, this function can be used to re-queue the
-    /// given message so it does not get lost.
+    /// message so it does not get lost.
     ///
     /// The message goes ahead of all queued messages of the same priority. Note that the ordering of
     /// messages in the queues may be slightly off with this function if several are re-queued.
-    pub fn requeue_message(&self, msg: MessageToOne<A>) {
+    pub fn cancel_receiver(&self, receiver: &mut WaitingReceiver<A>) {
+        // Dropped after the channel is unlocked, as it might wake the receiver's task.
+        let _handle;
+
         let mut inner = match self.chan.lock() {
             Ok(lock) => lock,
             Err(_) => return, // If we can't lock the inner channel, there is nothing we can do.
         };
 
+        // With the handle gone, nobody can notify the receiver about a message once it was cancelled.
+        let position = inner
+            .waiting_receivers_handles
+            .iter()
+            .position(|handle| handle.is_for(receiver));
+        _handle = position.and_then(|pos| inner.waiting_receivers_handles.remove(pos));
+
+        let msg = match receiver.cancel() {
+            Some(msg) => msg,
+            None => return,
+        };
+
         if let Err(msg) = inner.try_fulfill_receiver(msg) {
             // It was at the front of the queue when it was taken out.
             inner.first_position -= 1;
@@ -331,6 +349,8 @@ struct Inner<A> {
     unicast_queue: BinaryHeap<ByPriority<MessageToOne<A>>>,
     broadcast_queues: Vec<Weak<BroadcastQueue<A>>>,
     broadcast_tail: usize,
+    /// The ID of the next [`WaitingReceiver`].
+    next_receiver_id: u64,
     /// The position of the next message to be queued.
     next_position: i64,
     /// The lowest position given to a re-queued message.
@@ -347,6 +367,7 @@ impl<A> Inner<A> {
             unicast_queue: BinaryHeap::default(),
             broadcast_queues: Vec::default(),
             broadcast_tail: 0,
+            next_receiver_id: 0,
             next_position: 0,
             first_position: 0,
         }
diff --git a/xtra/src/chan/waiting_receiver.rs b/xtra/src/chan/waiting_receiver.rs
index ebed76e..0c33eec 100644
--- a/xtra/src/chan/waiting_receiver.rs
+++ b/xtra/src/chan/waiting_receiver.rs
@@ -7,18 +7,29 @@ use crate::chan::{self, ActorMessage, BroadcastQueue, MessageToOne, Rx};
 /// A [`WaitingReceiver`] is handed out by the channel any time [`Chan::try_recv`](crate::chan::Chan::try_recv) is called on an empty mailbox.
 ///
 /// [`WaitingReceiver`] implements [`Future`](std::future::Future) which will resolve once a message lands in the mailbox.
-pub struct WaitingReceiver<A>(catty::Receiver<CtrlMsg<A>>);
+pub struct WaitingReceiver<A> {
+    id: u64,
+    receiver: catty::Receiver<CtrlMsg<A>>,
+}
 
 /// A [`Handle`] is the counter-part to a [`WaitingReceiver`].
 ///
 /// It is stored internally in the channel and used by the channel implementation to notify a
 /// [`WaitingReceiver`] once a new message hits the mailbox.
-pub struct Handle<A>(catty::Sender<CtrlMsg<A>>);
+pub struct Handle<A> {
+    id: u64,
+    sender: catty::Sender<CtrlMsg<A>>,
+}
 
 impl<A> Handle<A> {
+    /// Whether this is the counter-part to the given [`WaitingReceiver`].
+    pub fn is_for(&self, receiver: &WaitingReceiver<A>) -> bool {
+        self.id == receiver.id
+    }
+
     /// Notify the connected [`WaitingReceiver`] that the channel is shutting down.
     pub fn notify_channel_shutdown(self) {
-        let _ = self.0.send(CtrlMsg::Shutdown);
+        let _ = self.sender.send(CtrlMsg::Shutdown);
     }
 
     /// Notify the connected [`WaitingReceiver`] about a new broadcast message.
@@ -26,7 +37,7 @@ impl<A> Handle<A> {
     /// Broadcast mailboxes are stored outside of the main channel implementation which is why this
     /// messages does not take any arguments.
     pub fn notify_new_broadcast(self) -> Result<(), ()> {
-        self.0.send(CtrlMsg::NewBroadcast).map_err(|_| ())
+        self.sender.send(CtrlMsg::NewBroadcast).map_err(|_| ())
     }
 
     /// Notify the connected [`WaitingReceiver`] about a new message.
@@ -37,7 +48,7 @@ impl<A> Handle<A> {
     /// This function will return the message in an `Err` if the [`WaitingReceiver`] has since called
     /// [`cancel`](WaitingReceiver::cancel) and is therefore unable to handle the message.
     pub fn notify_new_message(self, msg: MessageToOne<A>) -> Result<(), MessageToOne<A>> {
-        self.0
+        self.sender
             .send(CtrlMsg::NewMessage(msg))
             .map_err(|reason| match reason {
                 CtrlMsg::NewMessage(msg) => msg,
@@ -47,10 +58,12 @@ impl<A> Handle<A> {
 }
 
 impl<A> WaitingReceiver<A> {
-    pub fn new() -> (WaitingReceiver<A>, Handle<A>) {
+    /// Create a new [`WaitingReceiver`] along with its [`Handle`]. The given ID must be unique to
+    /// them within the channel.
+    pub fn new(id: u64) -> (WaitingReceiver<A>, Handle<A>) {
         let (sender, receiver) = catty::oneshot();
 
-        (WaitingReceiver(receiver), Handle(sender))
+        (WaitingReceiver { id, receiver }, Handle { id, sender })
     }
 
     /// Cancel this [`WaitingReceiver`].
@@ -59,9 +72,10 @@ impl<A> WaitingReceiver<A> {
     /// receiver has not been polled since.
     ///
     /// It is important to call this message over just dropping the [`WaitingReceiver`] as this
-    /// message would otherwise be dropped.
+    /// message would otherwise be dropped. For the same reason, the [`Handle`] must not be used to
+    /// notify this receiver about a new message from here on.
     pub fn cancel(&mut self) -> Option<MessageToOne<A>> {
-        match self.0.try_recv() {
+        match self.receiver.try_recv() {
             Ok(Some(CtrlMsg::NewMessage(msg))) => Some(msg),
             _ => None,
         }
@@ -78,7 +92,7 @@ impl<A> WaitingReceiver<A> {
         broadcast_mailbox: &BroadcastQueue<A>,
         cx: &mut Context<'_>,
     ) -> Poll<Option<ActorMessage<A>>> {
-        let ctrl_msg = match futures_util::ready!(self.0.poll_unpin(cx)) {
+        let ctrl_msg = match futures_util::ready!(self.receiver.poll_unpin(cx)) {
             Ok(reason) => reason,
             Err(_) => return Poll::Ready(None), // TODO: Not sure if this is correct.
         };
diff --git a/xtra/src/recv_future.rs b/xtra/src/recv_future.rs
index 2438322..67e71ff 100644
--- a/xtra/src/recv_future.rs
+++ b/xtra/src/recv_future.rs
@@ -121,11 +121,9 @@ impl<A> Future for Waiting<A> {
 
 impl<A> Drop for Waiting<A> {
     fn drop(&mut self) {
-        if let Some(msg) = self.waiting_receiver.cancel() {
-            self.channel
-                .as_mut()
-                .expect("to not have message on drop but channel is gone")
-                .requeue_message(msg);
+        // The channel is taken out once the wait is over.
+        if let Some(channel) = &self.channel {
+            channel.cancel_receiver(&mut self.waiting_receiver);
         }
     }
 }
-- 
2.43.0


From 84d10223a0142a9b5059e60766ca62529529317d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:02:03 +0000
Subject: [PATCH 07/16] fix: make room for waiting broadcasts when the mailbox
 lagging behind is dropped

---
 xtra/src/chan.rs        | 29 +++++++++++++++++++++++++++++
 xtra/src/mailbox.rs     |  3 ++-
 xtra/src/recv_future.rs |  7 ++++---
 3 files changed, 35 insertions(+), 4 deletions(-)

diff --git a/xtra/src/chan.rs b/xtra/src/chan.rs
index 71dfc86..cc41b72 100644
--- a/xtra/src/chan.rs
+++ b/xtra/src/chan.rs
@@ -64,6 +64,7 @@ impl<A> Chan<A> {
     pub fn on_receiver_dropped(&self) {
         // Memory orderings copied from Arc::drop
         if self.receiver_count.fetch_sub(1, atomic::Ordering::Release) != 1 {
+            self.update_broadcast_tail();
             return;
         }
 
@@ -72,6 +73,34 @@ impl<A> Chan<A> {
         self.shutdown_waiting_senders();
     }
 
+    /// Account for a broadcast mailbox which might have been destroyed. If it was the one lagging
+    /// behind the most, there is no one else who would make room for the waiting broadcasts.
+    fn update_broadcast_tail(&self) {
+        // Dropped after the channel is unlocked.
+        let mut admitted = Vec::new();
+
+        let mut inner = match self.chan.lock() {
+            Ok(lock) => lock,
+            Err(_) => return, // Poisoned, ignore
+        };
+
+        if inner.broadcast_tail == 0 {
+            return;
+        }
+
+        inner.broadcast_tail = inner.longest_broadcast_queue();
+
+        while !inner.is_broadcast_full() {
+            match inner.try_take_waiting_broadcast_message() {
+                Some(m) => {
+                    inner.send_broadcast(m.clone());
+                    admitted.push(m);
+                }
+                None => break,
+            }
+        }
+    }
+
     /// Callback to be invoked every time a sender is created.
     pub fn on_sender_created(&self) {
         // Memory orderings copied from Arc::clone
diff --git a/xtra/src/mailbox.rs b/xtra/src/mailbox.rs
index e75e966..1ed5e52 100644
--- a/xtra/src/mailbox.rs
+++ b/xtra/src/mailbox.rs
@@ -9,8 +9,9 @@ use crate::{Address, WeakAddress};
 /// Messages sent into an [`Address`] will be received in an actor's [`Mailbox`].
 /// Think of [`Address`] and [`Mailbox`] as an MPMC channel.
 pub struct Mailbox<A> {
-    inner: chan::Ptr<A, Rx>,
+    // Dropped before the pointer to the channel, which updates the channel upon its destruction.
     broadcast_mailbox: Arc<BroadcastQueue<A>>,
+    inner: chan::Ptr<A, Rx>,
 }
 
 impl<A> Mailbox<A> {
diff --git a/xtra/src/recv_future.rs b/xtra/src/recv_future.rs
index 67e71ff..89315f6 100644
--- a/xtra/src/recv_future.rs
+++ b/xtra/src/recv_future.rs
@@ -30,8 +30,9 @@ pub struct ReceiveFuture<A>(Receiving<A>);
 pub struct Message<A> {
     pub(crate) inner: ActorMessage<A>,
 
-    pub(crate) channel: chan::Ptr<A, Rx>,
+    // Dropped before the pointer to the channel, which updates the channel upon its destruction.
     pub(crate) broadcast_mailbox: Arc<BroadcastQueue<A>>,
+    pub(crate) channel: chan::Ptr<A, Rx>,
 }
 
 impl<A> ReceiveFuture<A> {
@@ -61,8 +62,8 @@ impl<A> Future for ReceiveFuture<A> {
 #[must_use = "Futures do nothing unless polled"]
 enum Receiving<A> {
     New {
-        channel: chan::Ptr<A, Rx>,
         broadcast_mailbox: Arc<BroadcastQueue<A>>,
+        channel: chan::Ptr<A, Rx>,
     },
     Waiting(Waiting<A>),
     Done,
@@ -77,8 +78,8 @@ enum Receiving<A> {
 /// mailbox in such a scenario.
 #[must_use = "Futures do nothing unless polled"]
 pub struct Waiting<A> {
-    channel: Option<chan::Ptr<A, Rx>>,
     broadcast_mailbox: Option<Arc<BroadcastQueue<A>>>,
+    channel: Option<chan::Ptr<A, Rx>>,
     waiting_receiver: WaitingReceiver<A>,
 }
 
-- 
2.43.0


From 652449ed3a0f685cf2eb5e6a67692e7a2770545c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:02:39 +0000
Subject: [PATCH 08/16] fix: do not swallow a stop of the actor when the future
 given to select completes first

---
 xtra/src/lib.rs | 12 ++++--------
 1 file changed, 4 insertions(+), 8 deletions(-)

diff --git a/xtra/src/lib.rs b/xtra/src/lib.rs
index 8803bcc..083f92c 100644
--- a/xtra/src/lib.rs
+++ b/xtra/src/lib.rs
@@ -8,7 +8,7 @@ use std::future::Future;
 use std::ops::ControlFlow;
 
 use futures_util::future::Either;
-use futures_util::{future, FutureExt};
+use futures_util::future;
 
 pub use self::address::{Address, WeakAddress};
 pub use self::context::Context;
@@ -309,13 +309,9 @@ where
         let (msg, unfinished) = {
             let mut next_msg = mailbox.next();
             match future::select(fut, &mut next_msg).await {
-                Either::Left((future_res, _)) => {
-                    if let Some(msg) = next_msg.now_or_never() {
-                        msg.dispatch_to(actor).await;
-                    }
-
-                    return Either::Left(future_res);
-                }
+                // A message that has already been handed to `next_msg` goes back to the mailbox. It is
+                // not handled here as it might stop the actor, which the caller would not learn about.
+                Either::Left((future_res, _)) => return Either::Left(future_res),
                 Either::Right(tuple) => tuple,
             }
         };
-- 
2.43.0


From 2e05c8bdfd97192d81d06df05779447ab94869e9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:53:10 +0000
Subject: [PATCH 09/16] hook: allow a model checker to replace the
 synchronisation primitives (cfg xtra_mc)

---
 xtra/src/lib.rs | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/xtra/src/lib.rs b/xtra/src/lib.rs
index 083f92c..116b16b 100644
--- a/xtra/src/lib.rs
+++ b/xtra/src/lib.rs
@@ -2,6 +2,11 @@
 
 #![cfg_attr(docsrs, feature(doc_cfg))]
 #![deny(unsafe_code, missing_docs)]
+#![allow(unexpected_cfgs)] // `xtra_mc`, see below
+
+// With this cfg the synchronisation primitives are replaced by those of a model checker.
+#[cfg(xtra_mc)]
+extern crate spin as std;
 
 use std::fmt;
 use std::future::Future;
-- 
2.43.0


From 3b2a6d5e033c87f430d0016968c28dc9161b33eb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:07:13 +0000
Subject: [PATCH 10/16] fix: do not drop the messages of a dropped mailbox
 while the channel is locked

---
 xtra/src/chan.rs | 39 +++++++++++++++++++++++++++++----------
 1 file changed, 29 insertions(+), 10 deletions(-)

diff --git a/xtra/src/chan.rs b/xtra/src/chan.rs
index cc41b72..b04e07a 100644
--- a/xtra/src/chan.rs
+++ b/xtra/src/chan.rs
@@ -78,6 +78,7 @@ impl<A> Chan<A> {
     fn update_broadcast_tail(&self) {
         // Dropped after the channel is unlocked.
         let mut admitted = Vec::new();
+        let mut dead = Vec::new();
 
         let mut inner = match self.chan.lock() {
             Ok(lock) => lock,
@@ -88,12 +89,12 @@ impl<A> Chan<A> {
             return;
         }
 
-        inner.broadcast_tail = inner.longest_broadcast_queue();
+        inner.broadcast_tail = inner.longest_broadcast_queue(&mut dead);
 
         while !inner.is_broadcast_full() {
             match inner.try_take_waiting_broadcast_message() {
                 Some(m) => {
-                    inner.send_broadcast(m.clone());
+                    inner.send_broadcast(m.clone(), &mut dead);
                     admitted.push(m);
                 }
                 None => break,
@@ -179,6 +180,7 @@ impl<A> Chan<A> {
             .expect("calling after try_send not supported")
             .start_span();
 
+        let mut dead = Vec::new(); // Dropped after the channel is unlocked.
         let mut inner = self.chan.lock().unwrap();
 
         // See `try_send_to_one`.
@@ -194,7 +196,7 @@ impl<A> Chan<A> {
         }
 
         // Cloned such that it is not dropped with the channel locked if there is no one to receive it.
-        inner.send_broadcast(message.clone());
+        inner.send_broadcast(message.clone(), &mut dead);
 
         Ok(Ok(()))
     }
@@ -203,6 +205,8 @@ impl<A> Chan<A> {
         &self,
         broadcast_mailbox: &BroadcastQueue<A>,
     ) -> Result<ActorMessage<A>, WaitingReceiver<A>> {
+        let mut dead = Vec::new(); // Dropped after the channel is unlocked.
+
         // Lock `ChanInner` as the first thing. This avoids race conditions in modifying the broadcast mailbox.
         let mut inner = self.chan.lock().unwrap();
 
@@ -221,7 +225,10 @@ impl<A> Chan<A> {
                 Ok(inner.pop_unicast().unwrap().into())
             }
             // Shared priority is less - take from broadcast
-            Ordering::Less => Ok(inner.pop_broadcast(broadcast_mailbox).unwrap().into()),
+            Ordering::Less => {
+                let msg = inner.pop_broadcast(broadcast_mailbox, &mut dead);
+                Ok(msg.unwrap().into())
+            }
             // Equal, but both are empty, so wait or exit if shutdown
             _ => {
                 // on_shutdown is only notified with inner locked, and it's locked here, so no race
@@ -278,10 +285,12 @@ impl<A> Chan<A> {
     where
         A: Actor,
     {
+        let mut dead = Vec::new(); // Dropped after the channel is unlocked.
+
         self.chan
             .lock()
             .unwrap()
-            .send_broadcast(Arc::new(Shutdown::new()));
+            .send_broadcast(Arc::new(Shutdown::new()), &mut dead);
     }
 
     /// Shutdown all [`WaitingSender`]s in this channel.
@@ -366,7 +375,11 @@ impl<A> Chan<A> {
         &self,
         broadcast_mailbox: &BroadcastQueue<A>,
     ) -> Option<Arc<dyn BroadcastEnvelope<Actor = A>>> {
-        self.chan.lock().unwrap().pop_broadcast(broadcast_mailbox)
+        let mut dead = Vec::new(); // Dropped after the channel is unlocked.
+
+        let mut inner = self.chan.lock().unwrap();
+
+        inner.pop_broadcast(broadcast_mailbox, &mut dead)
     }
 }
 
@@ -427,37 +440,43 @@ impl<A> Inner<A> {
     pub fn pop_broadcast(
         &mut self,
         broadcast_mailbox: &BroadcastQueue<A>,
+        dead: &mut Vec<BroadcastQueue<A>>,
     ) -> Option<Arc<dyn BroadcastEnvelope<Actor = A>>> {
         let message = broadcast_mailbox.lock().pop()?.0;
 
-        self.broadcast_tail = self.longest_broadcast_queue();
+        self.broadcast_tail = self.longest_broadcast_queue(dead);
 
         if !self.is_broadcast_full() {
             if let Some(m) = self.try_take_waiting_broadcast_message() {
-                self.send_broadcast(m)
+                self.send_broadcast(m, dead)
             }
         }
 
         Some(message)
     }
 
-    fn longest_broadcast_queue(&self) -> usize {
+    /// Queues whose receiver is dropped in the meantime end up in `dead`: dropping the messages in them
+    /// runs code from outside of this crate, so that must wait until the channel is unlocked.
+    fn longest_broadcast_queue(&self, dead: &mut Vec<BroadcastQueue<A>>) -> usize {
         let mut longest = 0;
 
         for queue in &self.broadcast_queues {
             if let Some(queue) = queue.upgrade() {
                 longest = cmp::max(longest, queue.lock().len());
+                dead.extend(Arc::into_inner(queue));
             }
         }
 
         longest
     }
 
-    fn send_broadcast(&mut self, m: MessageToAll<A>) {
+    /// See `longest_broadcast_queue` for `dead`.
+    fn send_broadcast(&mut self, m: MessageToAll<A>, dead: &mut Vec<BroadcastQueue<A>>) {
         let position = self.next_position();
         self.broadcast_queues.retain(|queue| match queue.upgrade() {
             Some(q) => {
                 q.lock().push(ByPriority(m.clone(), position));
+                dead.extend(Arc::into_inner(q));
                 true
             }
             None => false, // The corresponding receiver has been dropped - remove it
-- 
2.43.0


From 6f7bdbed3ff7f0bac92f076a2a7257737a55c4f5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:03:39 +0000
Subject: [PATCH 11/16] fix: do not mistake a type called Send for the trait in
 derive(Actor)

---
 macros/src/lib.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/macros/src/lib.rs b/macros/src/lib.rs
index f40a4a8..1f31291 100644
--- a/macros/src/lib.rs
+++ b/macros/src/lib.rs
@@ -41,7 +41,7 @@ fn send_and_static_bounds(input: &DeriveInput) -> Vec<WherePredicate> {
         })
         .map(|ident| {
             parse_quote! {
-                #ident: Send + 'static
+                #ident: ::core::marker::Send + 'static
             }
         })
         .collect::<Vec<WherePredicate>>()
-- 
2.43.0


From 1ee5f5fa3c68d8ad8f11b3caac2bc513072f2f1b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:43:05 +0000
Subject: [PATCH 12/16] fix: do not drop a message that waits for room while
 its sender is locked

A message that owns the future it is sent with made dropping the last
mailbox deadlock.
---
 xtra/src/chan/waiting_sender.rs | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/xtra/src/chan/waiting_sender.rs b/xtra/src/chan/waiting_sender.rs
index 6074b90..f1e1f9c 100644
--- a/xtra/src/chan/waiting_sender.rs
+++ b/xtra/src/chan/waiting_sender.rs
@@ -48,6 +48,9 @@ impl<M> Handle<M> {
 impl<M> Drop for Handle<M> {
     fn drop(&mut self) {
         if let Some(inner) = self.0.upgrade() {
+            // Dropped after unlocking, as the message might own the `WaitingSender` and drop it.
+            let _message;
+
             let mut this = inner.lock();
 
             match &*this {
@@ -55,7 +58,7 @@ impl<M> Drop for Handle<M> {
                     if let Some(waker) = waker {
                         waker.wake_by_ref();
                     }
-                    *this = Inner::Closed;
+                    _message = mem::replace(&mut *this, Inner::Closed);
                 }
                 Inner::Delivered => {}
                 Inner::Closed => {}
-- 
2.43.0


From 35fad220255c989016f600c562dc85613fd39b0a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:30:16 +0000
Subject: [PATCH 13/16] fix: stop the actor when select or join in one of its
 handlers was stopped

---
 xtra/src/context.rs  | 12 ++++++++++++
 xtra/src/envelope.rs | 12 ++----------
 xtra/src/lib.rs      | 18 +++++++++++++++++-
 xtra/src/mailbox.rs  | 22 ++++++++++++++++++++++
 4 files changed, 53 insertions(+), 11 deletions(-)

diff --git a/xtra/src/context.rs b/xtra/src/context.rs
index cb60ce3..ccdc2ff 100644
--- a/xtra/src/context.rs
+++ b/xtra/src/context.rs
@@ -1,3 +1,5 @@
+use std::ops::ControlFlow;
+
 use crate::{Actor, Mailbox};
 
 /// `Context` is used to control how the actor is managed and to get the actor's address from inside
@@ -34,6 +36,16 @@ impl<A: Actor> Context<A> {
         }
     }
 
+    /// Whether the actor was stopped, be it by this context or by a message that was handled while
+    /// the handler of this context used [`select`](crate::select) or [`join`](crate::join).
+    pub(crate) fn control_flow(&self) -> ControlFlow<()> {
+        if self.running {
+            self.mailbox.control_flow()
+        } else {
+            ControlFlow::Break(())
+        }
+    }
+
     /// Get a reference to the [`Mailbox`] of this actor.
     pub fn mailbox(&self) -> &Mailbox<A> {
         &self.mailbox
diff --git a/xtra/src/envelope.rs b/xtra/src/envelope.rs
index 97816ad..b0a5b54 100644
--- a/xtra/src/envelope.rs
+++ b/xtra/src/envelope.rs
@@ -109,11 +109,7 @@ where
             };
             let r = act.handle(message, &mut ctx).await;
 
-            if ctx.running {
-                (r, ControlFlow::Continue(()))
-            } else {
-                (r, ControlFlow::Break(()))
-            }
+            (r, ctx.control_flow())
         };
 
         let (fut, span) = instrumentation.apply::<_>(fut);
@@ -199,11 +195,7 @@ where
             };
             act.handle(msg, &mut ctx).await;
 
-            if ctx.running {
-                ControlFlow::Continue(())
-            } else {
-                ControlFlow::Break(())
-            }
+            ctx.control_flow()
         };
         let (fut, span) = instrumentation.apply::<_>(fut);
         (Box::pin(fut), span)
diff --git a/xtra/src/lib.rs b/xtra/src/lib.rs
index 116b16b..e8c1110 100644
--- a/xtra/src/lib.rs
+++ b/xtra/src/lib.rs
@@ -232,11 +232,18 @@ pub async fn run<A>(mailbox: Mailbox<A>, mut actor: A) -> A::Stop
 where
     A: Actor,
 {
+    // What stopped another actor on this mailbox before does not concern this one.
+    mailbox.set_stopped(false);
+
     if let Err(stop) = actor.started(&mailbox).await {
         return stop;
     }
 
-    while let ControlFlow::Continue(()) = yield_once(&mailbox, &mut actor).await {}
+    let mut control_flow = mailbox.control_flow();
+
+    while control_flow.is_continue() {
+        control_flow = yield_once(&mailbox, &mut actor).await;
+    }
 
     actor.stopped().await
 }
@@ -255,6 +262,9 @@ where
 /// future if the actor was stopped before it could complete. It is analagous to
 /// [`futures::select`](futures_util::future::select).
 ///
+/// If this is called inside of a handler with the mailbox of its context, and the actor is stopped,
+/// the actor's event loop ends as soon as that handler returns.
+///
 /// ## Example
 ///
 /// ```rust
@@ -325,6 +335,9 @@ where
         fut = unfinished;
     }
 
+    // If this runs in a handler, the event loop around it must stop, too.
+    mailbox.set_stopped(true);
+
     Either::Right(fut)
 }
 
@@ -334,6 +347,9 @@ where
 /// analagous to [`futures::join`](futures_util::future::join), but it will not wait for the incoming stream of messages
 /// from addresses to end before returning - it will return as soon as the provided future does.
 ///
+/// If this is called inside of a handler with the mailbox of its context, and the actor is stopped,
+/// the actor's event loop ends as soon as that handler returns.
+///
 /// ## Example
 ///
 /// ```rust
diff --git a/xtra/src/mailbox.rs b/xtra/src/mailbox.rs
index 1ed5e52..216476d 100644
--- a/xtra/src/mailbox.rs
+++ b/xtra/src/mailbox.rs
@@ -1,3 +1,5 @@
+use std::ops::ControlFlow;
+use std::sync::atomic::{AtomicBool, Ordering};
 use std::sync::Arc;
 
 use crate::chan::{self, BroadcastQueue, Rx};
@@ -12,6 +14,8 @@ pub struct Mailbox<A> {
     // Dropped before the pointer to the channel, which updates the channel upon its destruction.
     broadcast_mailbox: Arc<BroadcastQueue<A>>,
     inner: chan::Ptr<A, Rx>,
+    // Set by `select` and `join`, which may run inside of the handler that this mailbox belongs to.
+    stopped: AtomicBool,
 }
 
 impl<A> Mailbox<A> {
@@ -23,6 +27,7 @@ impl<A> Mailbox<A> {
         let mailbox = Mailbox {
             broadcast_mailbox: receiver.new_broadcast_mailbox(),
             inner: receiver,
+            stopped: AtomicBool::new(false),
         };
 
         (address, mailbox)
@@ -38,6 +43,7 @@ impl<A> Mailbox<A> {
         let mailbox = Mailbox {
             broadcast_mailbox: receiver.new_broadcast_mailbox(),
             inner: receiver,
+            stopped: AtomicBool::new(false),
         };
 
         (address, mailbox)
@@ -63,6 +69,21 @@ impl<A> Mailbox<A> {
         Self {
             inner: chan,
             broadcast_mailbox,
+            stopped: AtomicBool::new(false),
+        }
+    }
+
+    /// Notes whether a message received from this mailbox stopped the actor.
+    pub(crate) fn set_stopped(&self, stopped: bool) {
+        self.stopped.store(stopped, Ordering::Relaxed);
+    }
+
+    /// Whether the actor was stopped by a message received from this mailbox by `select` or `join`.
+    pub(crate) fn control_flow(&self) -> ControlFlow<()> {
+        if self.stopped.load(Ordering::Relaxed) {
+            ControlFlow::Break(())
+        } else {
+            ControlFlow::Continue(())
         }
     }
 }
@@ -72,6 +93,7 @@ impl<A> Clone for Mailbox<A> {
         Mailbox {
             inner: self.inner.clone(),
             broadcast_mailbox: self.inner.new_broadcast_mailbox(),
+            stopped: AtomicBool::new(false),
         }
     }
 }
-- 
2.43.0


From 264a0e5a669300c56fb6bf7f6287152bab9f4816 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:52:53 +0000
Subject: [PATCH 14/16] fix: do not stop an actor for lack of addresses while
 messages are queued

A receive that was waiting when the last strong address was dropped
stopped its actor even if a message went back into the mailbox, because
another receive had been dropped, or a broadcast was admitted in the
meantime. Look for messages again instead; the receive only stops the
actor if there are none.
---
 xtra/src/chan/waiting_receiver.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/xtra/src/chan/waiting_receiver.rs b/xtra/src/chan/waiting_receiver.rs
index 0c33eec..48a4298 100644
--- a/xtra/src/chan/waiting_receiver.rs
+++ b/xtra/src/chan/waiting_receiver.rs
@@ -99,7 +99,8 @@ impl<A> WaitingReceiver<A> {
 
         let actor_message = match ctrl_msg {
             CtrlMsg::NewMessage(msg) => ActorMessage::ToOneActor(msg),
-            CtrlMsg::Shutdown => ActorMessage::Shutdown,
+            // Messages might have been (re-)queued since the notification, so look for them once more.
+            CtrlMsg::Shutdown => return Poll::Ready(None),
             CtrlMsg::NewBroadcast => match chan.next_broadcast_message(broadcast_mailbox) {
                 Some(msg) => ActorMessage::ToAllActors(msg),
                 None => return Poll::Ready(None),
-- 
2.43.0


From 1ab163f5dc39a7a8686de69a274a5e4bc73fae43 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:27:53 +0000
Subject: [PATCH 15/16] fix: forget dropped mailboxes without a broadcast

Every mailbox that is created adds a reference to its broadcast queue to the
channel, which is only removed by the first broadcast after it was dropped. A
program that keeps cloning and dropping mailboxes but never broadcasts would
use more and more memory.
---
 xtra/src/chan.rs | 14 +++++++++-----
 1 file changed, 9 insertions(+), 5 deletions(-)

diff --git a/xtra/src/chan.rs b/xtra/src/chan.rs
index b04e07a..795f5fc 100644
--- a/xtra/src/chan.rs
+++ b/xtra/src/chan.rs
@@ -123,11 +123,15 @@ impl<A> Chan<A> {
     /// Creates a new broadcast mailbox on this channel.
     pub fn new_broadcast_mailbox(&self) -> Arc<BroadcastQueue<A>> {
         let mailbox = Arc::new(spin::Mutex::new(BinaryHeap::new()));
-        self.chan
-            .lock()
-            .unwrap()
-            .broadcast_queues
-            .push(Arc::downgrade(&mailbox));
+        let mut inner = self.chan.lock().unwrap();
+        let queues = &mut inner.broadcast_queues;
+
+        // Broadcasts remove the queues of dropped mailboxes, but there might never be any.
+        if queues.len() == queues.capacity() {
+            queues.retain(|queue| queue.strong_count() > 0);
+            queues.reserve(queues.len() + 1);
+        }
+        queues.push(Arc::downgrade(&mailbox));
 
         mailbox
     }
-- 
2.43.0


From da52bec2077e7c9c8531d3a923ccbba7244b3a8c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:28:38 +0000
Subject: [PATCH 16/16] fix: forget cancelled sends without a receive

A send that waits for room leaves a reference in the mailbox when it is dropped,
which is only removed when the next message is received. If the actor is stuck,
every send that times out would use up a little more memory.
---
 xtra/src/chan.rs | 18 ++++++++++++++++--
 1 file changed, 16 insertions(+), 2 deletions(-)

diff --git a/xtra/src/chan.rs b/xtra/src/chan.rs
index 795f5fc..0424955 100644
--- a/xtra/src/chan.rs
+++ b/xtra/src/chan.rs
@@ -162,7 +162,7 @@ impl<A> Chan<A> {
 
         if inner.is_unicast_full() {
             let (handle, waiting) = WaitingSender::new(unfulfilled_msg);
-            inner.waiting_send_to_one.push_back(handle);
+            push_active(&mut inner.waiting_send_to_one, handle);
 
             return Ok(Err(MailboxFull(waiting)));
         }
@@ -194,7 +194,7 @@ impl<A> Chan<A> {
 
         if inner.is_broadcast_full() {
             let (handle, waiting) = WaitingSender::new(message);
-            inner.waiting_send_to_all.push_back(handle);
+            push_active(&mut inner.waiting_send_to_all, handle);
 
             return Ok(Err(MailboxFull(waiting)));
         }
@@ -535,6 +535,20 @@ impl<A> Inner<A> {
     }
 }
 
+/// Adds the handle to the queue. Handles whose send was cancelled are removed when the next message is
+/// received, which might never happen, so do so here as well instead of letting the queue grow.
+fn push_active<M>(
+    queue: &mut VecDeque<waiting_sender::Handle<M>>,
+    handle: waiting_sender::Handle<M>,
+) {
+    if queue.len() == queue.capacity() {
+        queue.retain(|handle| handle.is_active());
+        queue.reserve(queue.len() + 1);
+    }
+
+    queue.push_back(handle);
+}
+
 fn find_remove_highest_priority<M>(
     queue: &mut VecDeque<waiting_sender::Handle<M>>,
 ) -> Option<waiting_sender::Handle<M>>
-- 
2.43.0

