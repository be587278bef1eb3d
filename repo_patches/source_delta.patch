From 3170f20999f99959c321df7f1a418902f690fda6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:20:31 +0000
Subject: [PATCH 001/155] fix: message broker: notify readers of every entry
 when writing a collection to a slot

The slot write blocks until the previous entry has been read while the
readers were not notified before all entries had been written, the writer
was stuck forever with more than one entry in the collection. Errors from
the write were also overwritten by the return value from notification.
---
 src/lib/message_broker.c                     | 31 ++++++++++++++++++--
 src/lib/message_holder/message_holder_slot.c | 19 +++++++-----
 src/lib/message_holder/message_holder_slot.h |  2 +-
 3 files changed, 41 insertions(+), 11 deletions(-)

diff --git a/src/lib/message_broker.c b/src/lib/message_broker.c
index 4943116..4159cf0 100644
--- a/src/lib/message_broker.c
+++ b/src/lib/message_broker.c
@@ -1330,10 +1330,35 @@ int rrr_message_broker_write_entries_from_collection_unsafe (
 	RRR_LL_ITERATE_END();
 
 	if (costumer->slot != NULL) {
-		ret = rrr_msg_holder_slot_write_from_collection(costumer->slot, collection, check_cancel_callback, check_cancel_callback_arg);
+		// The slot holds only one entry and the next write blocks until it
+		// has been read, readers must be notified about every single entry.
+		while (RRR_LL_COUNT(collection) > 0) {
+			if ((ret = rrr_msg_holder_slot_write_one_from_collection (
+					costumer->slot,
+					collection,
+					check_cancel_callback,
+					check_cancel_callback_arg
+			)) != 0) {
+				goto out;
+			}
+			if ((ret = __rrr_message_broker_write_notifications_send (
+					costumer,
+					1,
+					check_cancel_callback,
+					check_cancel_callback_arg
+			)) != 0) {
+				goto out;
+			}
+		}
+		goto out;
 	}
-	else {
-		ret = rrr_fifo_protected_write(&costumer->main_queue, __rrr_message_broker_write_entries_from_collection_callback, collection);
+
+	if ((ret = rrr_fifo_protected_write (
+			&costumer->main_queue,
+			__rrr_message_broker_write_entries_from_collection_callback,
+			collection
+	)) != 0) {
+		goto out;
 	}
 
 	while (written_entries > 0) {
diff --git a/src/lib/message_holder/message_holder_slot.c b/src/lib/message_holder/message_holder_slot.c
index 62ac996..a68a573 100644
--- a/src/lib/message_holder/message_holder_slot.c
+++ b/src/lib/message_holder/message_holder_slot.c
@@ -482,7 +482,7 @@ int rrr_msg_holder_slot_write_incref (
 	return ret;
 }
 
-int rrr_msg_holder_slot_write_from_collection (
+int rrr_msg_holder_slot_write_one_from_collection (
 		struct rrr_msg_holder_slot *slot,
 		struct rrr_msg_holder_collection *collection,
 		int (*check_cancel_callback)(void *arg),
@@ -490,12 +490,17 @@ int rrr_msg_holder_slot_write_from_collection (
 ) {
 	int ret = 0;
 
-	while (RRR_LL_COUNT(collection) > 0) {
-		struct rrr_msg_holder *entry = RRR_LL_FIRST(collection);
-		if ((ret = __rrr_msg_holder_slot_write (slot, entry, check_cancel_callback, check_cancel_callback_arg)) != 0) {
-			goto out;
-		}
-		(void)RRR_LL_SHIFT(collection);
+	// Once written, the entry may be read and freed at any time. It
+	// must not be inside the collection when that happens.
+	struct rrr_msg_holder *entry = RRR_LL_SHIFT(collection);
+
+	if (entry == NULL) {
+		goto out;
+	}
+
+	if ((ret = __rrr_msg_holder_slot_write (slot, entry, check_cancel_callback, check_cancel_callback_arg)) != 0) {
+		RRR_LL_UNSHIFT(collection, entry);
+		goto out;
 	}
 
 	out:
diff --git a/src/lib/message_holder/message_holder_slot.h b/src/lib/message_holder/message_holder_slot.h
index cfa09b4..0cae676 100644
--- a/src/lib/message_holder/message_holder_slot.h
+++ b/src/lib/message_holder/message_holder_slot.h
@@ -83,7 +83,7 @@ int rrr_msg_holder_slot_write_incref (
 		int (*check_cancel_callback)(void *arg),
 		void *check_cancel_callback_arg
 );
-int rrr_msg_holder_slot_write_from_collection (
+int rrr_msg_holder_slot_write_one_from_collection (
 		struct rrr_msg_holder_slot *slot,
 		struct rrr_msg_holder_collection *collection,
 		int (*check_cancel_callback)(void *arg),
-- 
2.43.0


From e26b38cf8940bfac6c2ca3118e6be868eaf54226 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:20:31 +0000
Subject: [PATCH 002/155] fix: message holder slot: take the reference before
 an entry is made available to readers

A reader could consume the entry and drop the only reference before the
writer had incremented it.
---
 src/lib/message_holder/message_holder_slot.c | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/lib/message_holder/message_holder_slot.c b/src/lib/message_holder/message_holder_slot.c
index a68a573..2b81d9f 100644
--- a/src/lib/message_holder/message_holder_slot.c
+++ b/src/lib/message_holder/message_holder_slot.c
@@ -472,12 +472,14 @@ int rrr_msg_holder_slot_write_incref (
 ) {
 	int ret = 0;
 
+	// Incref before the entry becomes available to readers
+	rrr_msg_holder_incref(entry_new);
+
 	if ((ret = __rrr_msg_holder_slot_write(slot, entry_new, check_cancel_callback, check_cancel_callback_arg)) != 0) {
+		rrr_msg_holder_decref(entry_new);
 		goto out;
 	}
 
-	rrr_msg_holder_incref(entry_new);
-
 	out:
 	return ret;
 }
-- 
2.43.0


From b5714869530c7c85a7876e44e896d8125d93b353 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:20:38 +0000
Subject: [PATCH 003/155] fix: protected fifo: don't keep pointers to entries
 owned by other readers

When a read was stopped at exactly the last entry of a batch, the next
entry, which another reader might already have taken, was put back into
the buffer.
---
 src/lib/fifo_protected.c | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/src/lib/fifo_protected.c b/src/lib/fifo_protected.c
index f8c9c56..cf42795 100644
--- a/src/lib/fifo_protected.c
+++ b/src/lib/fifo_protected.c
@@ -486,7 +486,6 @@ int rrr_fifo_protected_read_clear_forward (
 
 	struct rrr_fifo_protected_entry *last_element = NULL;
 	struct rrr_fifo_protected_entry *current = NULL;
-	struct rrr_fifo_protected_entry *stop = NULL;
 	int max_counter = RRR_FIFO_PROTECTED_MAX_READS;
 
 	__rrr_fifo_protected_write_lock(buffer);
@@ -505,10 +504,11 @@ int rrr_fifo_protected_read_clear_forward (
 	}
 
 	if (last_element != NULL) {
-		// Perform splice
+		// Perform splice. Entries after last_element remain available to other
+		// readers, don't keep any pointers to them.
 		buffer->gptr_first = last_element->next;
-		stop = last_element->next;
-		if (stop == NULL) {
+		last_element->next = NULL;
+		if (buffer->gptr_first == NULL) {
 			buffer->gptr_last = NULL;
 		}
 	}
@@ -528,7 +528,7 @@ int rrr_fifo_protected_read_clear_forward (
 	}
 
 	rrr_length processed_entries = 0;
-	while (current != stop) {
+	while (current != NULL) {
 		struct rrr_fifo_protected_entry *next = NULL;
 
 		int ret_tmp = 0;
-- 
2.43.0


From 2a9974ab2ce235827936d84a6f3cecc41f8fdd5a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:34:32 +0000
Subject: [PATCH 004/155] fix: message holder: preserve the originating
 instance when a message is cloned

The backstop check compares the originator of a message with the reader,
but the originator was lost when a message was cloned for the readers of a
duplicated or slot output. Messages on a duplicating bus were hence read
back by the instance they came from.
---
 src/lib/message_holder/message_holder_util.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/lib/message_holder/message_holder_util.c b/src/lib/message_holder/message_holder_util.c
index 82fcac3..0cb35c0 100644
--- a/src/lib/message_holder/message_holder_util.c
+++ b/src/lib/message_holder/message_holder_util.c
@@ -114,6 +114,7 @@ int rrr_msg_holder_util_clone_no_locking (
 
 	entry->buffer_time = source->buffer_time;
 	entry->send_time = source->send_time;
+	entry->source = source->source;
 	rrr_memcpy(entry->message, source->message, source->data_length);
 
 	ret = rrr_instance_friend_collection_append_from (&entry->nexthops, &source->nexthops);
-- 
2.43.0


From be4535ba3496c43349bee51c51a1a1881c4c3a90 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:46:46 +0000
Subject: [PATCH 005/155] fix: event: don't starve timer events when an event
 function leaves some of the amount

A signal event which re-activates itself because not all of the amount was
consumed is run again before timer events are checked. The periodic function
of the thread was not called as long as this lasted, and the thread could
not be stopped.
---
 src/lib/event/event.c | 11 +++++++++++
 1 file changed, 11 insertions(+)

diff --git a/src/lib/event/event.c b/src/lib/event/event.c
index f44b983..059fca1 100644
--- a/src/lib/event/event.c
+++ b/src/lib/event/event.c
@@ -42,6 +42,9 @@ along with this program.  If not, see <http://www.gnu.org/licenses/>.
 // Uncomment to debug event processing
 //#define RRR_WITH_LIBEVENT_DEBUG
 
+// Maximum number of callbacks to run before checking for new events and timers
+#define RRR_EVENT_DISPATCH_CALLBACKS_MAX 100
+
 struct rrr_event_hook_config rrr_event_hooking = {0};
 
 void rrr_event_hook_set (
@@ -525,6 +528,14 @@ int rrr_event_queue_new (
 		goto out;
 	}
 
+	// Events which re-activate themselves when not all of the amount was consumed
+	// must not keep timer events (i.e. the periodic event) from being checked.
+	if (event_config_set_max_dispatch_interval(cfg, NULL, RRR_EVENT_DISPATCH_CALLBACKS_MAX, 0) != 0) {
+		RRR_MSG_0("event_config_set_max_dispatch_interval() failed in rrr_event_queue_new\n");
+		ret = 1;
+		goto out;
+	}
+
 	if ((queue = rrr_allocate(sizeof(*queue))) == NULL) {
 		RRR_MSG_0("Failed to allocate memory in rrr_event_queue_new\n");
 		ret = 1;
-- 
2.43.0


From d5144a1415fbfaa988bf1ff0187ac7c4c653a0bd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:46:46 +0000
Subject: [PATCH 006/155] fix: message broker: don't leave entries behind when
 readers share senders

When readers with different sets of senders compete for messages, a reader
may spend the amount it was notified about on entries from another sender.
The remaining entry was left in the buffer until another message arrived as
no reader was notified about it, and the other reader kept spinning on an
amount it could not consume.
---
 src/lib/fifo_protected.c                     | 15 ++++
 src/lib/fifo_protected.h                     |  3 +
 src/lib/message_broker.c                     | 72 ++++++++++++++++++++
 src/lib/message_holder/message_holder_slot.c | 21 ++++++
 src/lib/message_holder/message_holder_slot.h |  4 ++
 5 files changed, 115 insertions(+)

diff --git a/src/lib/fifo_protected.c b/src/lib/fifo_protected.c
index cf42795..3fb0919 100644
--- a/src/lib/fifo_protected.c
+++ b/src/lib/fifo_protected.c
@@ -346,6 +346,21 @@ static int __rrr_fifo_protected_is_populated (
 	return ret;
 }
 
+// Unlike the entry count, this does not consider entries being processed by readers
+int rrr_fifo_protected_is_readable (
+		struct rrr_fifo_protected *buffer
+) {
+	int ret = 0;
+
+	__rrr_fifo_protected_read_lock(buffer);
+	pthread_mutex_lock(&buffer->write_queue_mutex);
+	ret = buffer->gptr_first != NULL || buffer->gptr_write_queue_first != NULL;
+	pthread_mutex_unlock(&buffer->write_queue_mutex);
+	__rrr_fifo_protected_unlock(buffer);
+
+	return ret;
+}
+
 int rrr_fifo_protected_get_ratelimit_active (
 		struct rrr_fifo_protected *buffer
 ) {
diff --git a/src/lib/fifo_protected.h b/src/lib/fifo_protected.h
index e13feca..1fdac2a 100644
--- a/src/lib/fifo_protected.h
+++ b/src/lib/fifo_protected.h
@@ -126,6 +126,9 @@ void rrr_fifo_protected_set_do_ratelimit (
 rrr_length rrr_fifo_protected_get_entry_count (
 		struct rrr_fifo_protected *buffer
 );
+int rrr_fifo_protected_is_readable (
+		struct rrr_fifo_protected *buffer
+);
 int rrr_fifo_protected_get_ratelimit_active (
 		struct rrr_fifo_protected *buffer
 );
diff --git a/src/lib/message_broker.c b/src/lib/message_broker.c
index 4159cf0..ffd3ff4 100644
--- a/src/lib/message_broker.c
+++ b/src/lib/message_broker.c
@@ -1626,6 +1626,59 @@ size_t rrr_message_broker_senders_count (
 	return ret;
 }
 
+static int __rrr_message_broker_has_shared_sender (
+		struct rrr_message_broker_costumer *self
+) {
+	FRIENDS_ITERATE_BEGIN(senders,RRR_MESSAGE_BROKER_SENDERS_MAX);
+		if (!costumer->split_buffers_active && costumer->write_notify_listeners[1] != NULL) {
+			return 1;
+		}
+	FRIENDS_ITERATE_END();
+
+	return 0;
+}
+
+static int __rrr_message_broker_senders_readable (
+		int *readable,
+		struct rrr_message_broker_costumer *self
+) {
+	int ret = 0;
+
+	*readable = 0;
+
+	FRIENDS_ITERATE_BEGIN(senders,RRR_MESSAGE_BROKER_SENDERS_MAX);
+		struct rrr_fifo_protected *source_buffer = NULL;
+		int source_buffer_is_main = 0;
+
+		if (costumer->slot != NULL) {
+			*readable = rrr_msg_holder_slot_is_readable(costumer->slot, self);
+		}
+		else if ((ret = __rrr_message_broker_get_source_buffer (
+				&source_buffer_is_main,
+				&source_buffer,
+				costumer,
+				self
+		)) != 0) {
+			goto out;
+		}
+		else {
+			// Main queue must be checked first, entries are not counted out of
+			// it before they have been written to all of the split buffers.
+			*readable =
+				(!source_buffer_is_main && rrr_fifo_protected_get_entry_count(&costumer->main_queue) > 0) ||
+				rrr_fifo_protected_is_readable(source_buffer)
+			;
+		}
+
+		if (*readable) {
+			break;
+		}
+	FRIENDS_ITERATE_END();
+
+	out:
+	return ret;
+}
+
 int rrr_message_broker_poll_delete (
 		uint16_t *amount,
 		struct rrr_message_broker_costumer *self,
@@ -1690,6 +1743,25 @@ int rrr_message_broker_poll_delete (
 		}
 	FRIENDS_ITERATE_END();
 
+	// When a sender is shared with other readers, any reader might have read
+	// entries which somebody else was notified about. Entries must not be left
+	// without a reader, and there is no point in waiting for entries which have
+	// already been read by others.
+	if (__rrr_message_broker_has_shared_sender(self)) {
+		int readable = 0;
+
+		if ((ret = __rrr_message_broker_senders_readable(&readable, self)) != 0) {
+			goto out;
+		}
+
+		if (!readable) {
+			*amount = 0;
+		}
+		else if (*amount == 0) {
+			*amount = 1;
+		}
+	}
+
 	out:
 	return ret;
 }
diff --git a/src/lib/message_holder/message_holder_slot.c b/src/lib/message_holder/message_holder_slot.c
index 2b81d9f..95dea3d 100644
--- a/src/lib/message_holder/message_holder_slot.c
+++ b/src/lib/message_holder/message_holder_slot.c
@@ -207,6 +207,27 @@ static rrr_slength __rrr_msg_holder_slot_reader_index_get_unlocked (
 	return self_index;
 }
 
+int rrr_msg_holder_slot_is_readable (
+		struct rrr_msg_holder_slot *slot,
+		const void *self
+) {
+	int ret = 0;
+
+	pthread_mutex_lock(&slot->lock);
+
+	if (slot->entry == NULL) {
+		goto out;
+	}
+
+	rrr_slength self_index = __rrr_msg_holder_slot_reader_index_get_unlocked(slot, self);
+
+	ret = self_index < 0 || !slot->reader_has_read[self_index];
+
+	out:
+	pthread_mutex_unlock(&slot->lock);
+	return ret;
+}
+
 int rrr_msg_holder_slot_read (
 		struct rrr_msg_holder_slot *slot,
 		void *self,
diff --git a/src/lib/message_holder/message_holder_slot.h b/src/lib/message_holder/message_holder_slot.h
index 0cae676..8acb48d 100644
--- a/src/lib/message_holder/message_holder_slot.h
+++ b/src/lib/message_holder/message_holder_slot.h
@@ -48,6 +48,10 @@ void rrr_msg_holder_slot_get_stats (
 unsigned int rrr_msg_holder_slot_count (
 		struct rrr_msg_holder_slot *slot
 );
+int rrr_msg_holder_slot_is_readable (
+		struct rrr_msg_holder_slot *slot,
+		const void *self
+);
 int rrr_msg_holder_slot_read (
 		struct rrr_msg_holder_slot *slot,
 		void *self,
-- 
2.43.0


From a617d3dcee88137aa4521670e12822a21730d21a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:46:46 +0000
Subject: [PATCH 007/155] fix: message holder: check the user count while
 holding the lock

The counter was read without the lock which protects it, a data race with
other users of the entry.
---
 src/lib/message_holder/message_holder.c | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/src/lib/message_holder/message_holder.c b/src/lib/message_holder/message_holder.c
index 757c587..93f1880 100644
--- a/src/lib/message_holder/message_holder.c
+++ b/src/lib/message_holder/message_holder.c
@@ -58,9 +58,6 @@ static void __rrr_msg_holder_util_lock_destroy (
 void rrr_msg_holder_lock (
 		struct rrr_msg_holder *entry
 ) {
-	if (entry->usercount <= 0) {
-		RRR_BUG("BUG: Entry was destroyed in rrr_msg_holder_lock\n");
-	}
 	pthread_mutex_lock(&rrr_msg_holder_master_lock);
 	while (pthread_mutex_trylock(&entry->lock) != 0) {
 		pthread_mutex_unlock(&rrr_msg_holder_master_lock);
@@ -69,6 +66,10 @@ void rrr_msg_holder_lock (
 		pthread_mutex_lock(&rrr_msg_holder_master_lock);
 	}
 	pthread_mutex_unlock(&rrr_msg_holder_master_lock);
+	// The counter may be updated by others when lock is not held
+	if (entry->usercount <= 0) {
+		RRR_BUG("BUG: Entry was destroyed in rrr_msg_holder_lock\n");
+	}
 #ifdef RRR_MESSAGE_HOLDER_DEBUG_LOCK_RECURSION
 	entry->lock_recursion_count++;
 #endif
-- 
2.43.0


From 39860ca992761320b655574b14c4487c7743b53f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:54:17 +0000
Subject: [PATCH 008/155] fix: evaluate condition operators of equal precedence
 from left to right

(10 - 3 - 2) was evaluated as 10 - (3 - 2) while the operators are
documented to work as in C.
---
 src/lib/condition.c | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/lib/condition.c b/src/lib/condition.c
index a8f93c7..4f15319 100644
--- a/src/lib/condition.c
+++ b/src/lib/condition.c
@@ -305,7 +305,11 @@ static int __rrr_condition_shunting_yard_shunt_op (
 	else {
 		while (RRR_LL_COUNT(&shunting_yard->op_stack) > 0) {
 			struct rrr_condition_shunting_yard_carrier *carrier = RRR_LL_FIRST(&shunting_yard->op_stack);
-			if (carrier->op->prio < carrier_new->op->prio && carrier->op != operator_par_open) {
+			// Binary operators are left associative, the unary ~ is not
+			if (carrier->op != operator_par_open && (
+				carrier->op->prio < carrier_new->op->prio ||
+				(carrier->op->prio == carrier_new->op->prio && carrier->op->prio != RRR_CONDITION_PRIORITY_SINGULAR)
+			)) {
 				carrier = RRR_LL_SHIFT(&shunting_yard->op_stack);
 				RRR_LL_APPEND(shunting_yard, carrier);
 			}
-- 
2.43.0


From e8b152b86f3ae28081afc6f4aa4c60d57b2286a4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:54:17 +0000
Subject: [PATCH 009/155] fix: use the value itself as the result of a
 condition without operators

IF ({tag}) was always false as the result was only set by operators.
---
 src/lib/condition.c | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/lib/condition.c b/src/lib/condition.c
index 4f15319..fe9a570 100644
--- a/src/lib/condition.c
+++ b/src/lib/condition.c
@@ -910,6 +910,10 @@ int rrr_condition_evaluate (
 			)) != 0) {
 				goto out;
 			}
+			if (element_count == 1) {
+				// No operators, the value itself is the result
+				*result = position->result;
+			}
 		}
 	}
 
-- 
2.43.0


From c0c0f8cbd0dc1218e7722484aae519769c643efb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:54:17 +0000
Subject: [PATCH 010/155] fix: treat - as subtraction after a closing
 parenthesis in conditions

(({a} + 2) - 1) was rejected.
---
 src/lib/condition.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/lib/condition.c b/src/lib/condition.c
index fe9a570..91f56c2 100644
--- a/src/lib/condition.c
+++ b/src/lib/condition.c
@@ -400,7 +400,7 @@ int rrr_condition_interpret (
 		}
 
 		if (op != NULL) {
-			prev_was_op = 1;
+			prev_was_op = op != operator_par_close;
 
 			if ((ret = __rrr_condition_shunting_yard_shunt_op (
 					&par_level,
-- 
2.43.0


From fece00ee600b25b024cbd36ffbb508b2d1aacb93 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:54:34 +0000
Subject: [PATCH 011/155] fix: reject condition expressions with operators
 missing values

Expressions like ((+) 1 2) passed validation and evaluation aborted the program.
---
 src/lib/condition.c | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/lib/condition.c b/src/lib/condition.c
index 91f56c2..2777536 100644
--- a/src/lib/condition.c
+++ b/src/lib/condition.c
@@ -248,6 +248,10 @@ static int __rrr_condition_shunting_yard_finalize (
 				if (node->op->prio != RRR_CONDITION_PRIORITY_SINGULAR) {
 					op_count++;
 				}
+				if (value_count - op_count < 1) {
+					RRR_MSG_0("Missing value for operator '%s' in condition expression\n", node->op->op);
+					return 1;
+				}
 			}
 			else {
 				value_count++;
-- 
2.43.0


From 5b15557088c5ce961e7ec4bbc2a8f02d374e12ea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:54:34 +0000
Subject: [PATCH 012/155] fix: avoid undefined shifts and signed overflow in
 condition evaluation

Shift counts and operands may come from parsed input data.
---
 src/lib/condition.c | 12 ++++++++++++
 1 file changed, 12 insertions(+)

diff --git a/src/lib/condition.c b/src/lib/condition.c
index 2777536..6bfcb9a 100644
--- a/src/lib/condition.c
+++ b/src/lib/condition.c
@@ -640,6 +640,10 @@ static uint64_t __rrr_condition_evaluate_operator (
 		*fpe = 1;
 		return 0;
 	}
+	if ((op == operator_bw_left || op == operator_bw_right) && b >= 64) {
+		*fpe = 0;
+		return 0;
+	}
 
 	EVALUATION;
 
@@ -658,6 +662,14 @@ static int64_t __rrr_condition_evaluate_operator_signed (
 		*fpe = 1;
 		return 0;
 	}
+	if (op == operator_bw_right && (b < 0 || b >= 64)) {
+		*fpe = 0;
+		return 0;
+	}
+	if (op == operator_bw_left || op == operator_add || op == operator_sub || op == operator_mul) {
+		// Wrap around on overflow
+		return (int64_t) __rrr_condition_evaluate_operator(fpe, (uint64_t) a, (uint64_t) b, op);
+	}
 
 	EVALUATION;
 
-- 
2.43.0


From 45bae10ebdb51bd18d8d071ae0d87eca62c86e6b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:55:49 +0000
Subject: [PATCH 013/155] fix: match complete tag names when resolving
 references in array trees

{abc} resolved to a later value with tag ab.
---
 src/lib/array_tree.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/lib/array_tree.c b/src/lib/array_tree.c
index abf4228..236bbe4 100644
--- a/src/lib/array_tree.c
+++ b/src/lib/array_tree.c
@@ -1299,7 +1299,7 @@ int __rrr_array_tree_import_value_resolve_ref (
 		const char *name
 ) {
 	RRR_LL_ITERATE_BEGIN_REVERSE(source, struct rrr_type_value);
-		if (node->tag != NULL && strncmp(name, node->tag, node->tag_length) == 0) {
+		if (node->tag != NULL && strcmp(name, node->tag) == 0) {
 			uint64_t result_tmp = node->definition->to_64(node);
 			if (result_tmp > RRR_LENGTH_MAX) {
 				RRR_MSG_0("Evaluation of reference '%s' resulted in a value of %" PRIu64 " while maximum value is %" PRIrrrl "\n",
@@ -1427,7 +1427,7 @@ static int __rrr_array_tree_import_condition_name_evaluate_callback (
 	struct rrr_array *array_tmp = arg;
 
 	RRR_LL_ITERATE_BEGIN_REVERSE(array_tmp, struct rrr_type_value);
-		if (node->tag != NULL && strncmp(node->tag, name, node->tag_length) == 0) {
+		if (node->tag != NULL && strcmp(node->tag, name) == 0) {
 			*result = node->definition->to_64(node);
 			*is_signed = RRR_TYPE_FLAG_IS_SIGNED(node->flags);
 			return RRR_ARRAY_TREE_OK;
-- 
2.43.0


From 434c22752c89a14c1bb8f253c6c7e4f35b7e3a6c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:55:49 +0000
Subject: [PATCH 014/155] fix: do not use reference name after free when
 reporting zero result

---
 src/lib/array_tree.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/lib/array_tree.c b/src/lib/array_tree.c
index 236bbe4..d20cab1 100644
--- a/src/lib/array_tree.c
+++ b/src/lib/array_tree.c
@@ -1325,13 +1325,13 @@ int __rrr_array_tree_import_value_resolve_ref (
         )) != 0) {                                                                                                             \
             goto out;                                                                                                          \
         }                                                                                                                      \
-        RRR_FREE_IF_NOT_NULL(new_value->ref);                                                                                  \
         if (new_value->target == 0) {                                                                                          \
             RRR_MSG_0("Resolve of reference '%s' to use as " RRR_QUOTE(target) " had 0 result\n",                              \
                 new_value->ref);                                                                                               \
             ret = RRR_ARRAY_TREE_SOFT_ERROR;                                                                                   \
             goto out;                                                                                                          \
         }                                                                                                                      \
+        RRR_FREE_IF_NOT_NULL(new_value->ref);                                                                                  \
     }} while (0)
 
 int __rrr_array_tree_import_value_callback (
-- 
2.43.0


From 22ba9d1d14e8e75b5fbd4df6bdca133b237ec943 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:55:49 +0000
Subject: [PATCH 015/155] fix: check for overflow when importing multiple array
 elements

The element count may come from the input data. The size calculations
wrapped around and data was written outside of the allocated memory.
---
 src/lib/type.c | 18 ++++++++++++++++++
 1 file changed, 18 insertions(+)

diff --git a/src/lib/type.c b/src/lib/type.c
index 11a58fc..0ffc156 100644
--- a/src/lib/type.c
+++ b/src/lib/type.c
@@ -174,6 +174,12 @@ static int __rrr_type_import_int (
 	}
 
 	rrr_length array_size = node->element_count;
+
+	if ((rrr_biglength) node->element_count * sizeof(uint64_t) > RRR_LENGTH_MAX) {
+		RRR_MSG_0("Element count %" PRIrrrl " of 64 type is too large\n", node->element_count);
+		return RRR_TYPE_PARSE_SOFT_ERR;
+	}
+
 	rrr_length total_size = node->element_count * node->import_length;
 
 	CHECK_END_AND_RETURN(total_size);
@@ -225,6 +231,12 @@ static int __rrr_type_import_blob (RRR_TYPE_IMPORT_ARGS) {
 		RRR_BUG("data was not NULL in %s\n", __func__);
 	}
 
+	if ((rrr_biglength) node->import_length * node->element_count > RRR_LENGTH_MAX) {
+		RRR_MSG_0("Total length of %" PRIrrrl " elements of length %" PRIrrrl " is too large\n",
+				node->element_count, node->import_length);
+		return RRR_TYPE_PARSE_SOFT_ERR;
+	}
+
 	rrr_length total_size = node->import_length * node->element_count;
 
 	CHECK_END_AND_RETURN(total_size);
@@ -439,6 +451,12 @@ static int __rrr_type_import_sep_stx (RRR_TYPE_IMPORT_ARGS, int (*validate)(char
 		RRR_BUG("data was not NULL in %s\n", __func__);
 	}
 
+	if ((rrr_biglength) node->import_length * node->element_count > RRR_LENGTH_MAX) {
+		RRR_MSG_0("Total length of %" PRIrrrl " elements of length %" PRIrrrl " is too large\n",
+				node->element_count, node->import_length);
+		return RRR_TYPE_PARSE_SOFT_ERR;
+	}
+
 	rrr_length total_size = node->import_length * node->element_count;
 
 	CHECK_END_AND_RETURN(total_size);
-- 
2.43.0


From fb0e7dbbb08067736baad505155517b519260c1b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:55:49 +0000
Subject: [PATCH 016/155] fix: wait for more data when input ends right before
 a msg array value

Whether the parsing failed depended on how the input data was split.
---
 src/lib/type.c | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/lib/type.c b/src/lib/type.c
index 0ffc156..23eb5c6 100644
--- a/src/lib/type.c
+++ b/src/lib/type.c
@@ -598,6 +598,10 @@ static int __rrr_type_import_msg (RRR_TYPE_IMPORT_ARGS) {
 		RRR_BUG("BUG: end was less than start in %s\n", __func__);
 	}
 
+	if (end == start) {
+		return RRR_TYPE_PARSE_INCOMPLETE;
+	}
+
 	rrr_slength size_total = end - start;
 	rrr_slength remaining_size = size_total;
 
-- 
2.43.0


From b4ec497fb4f226d115421b808aa3b659fdcadafa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:55:49 +0000
Subject: [PATCH 017/155] fix: wait for more data when only start of a fixp
 array value is received

Whether the parsing failed depended on how the input data was split.
---
 src/lib/type.c | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/lib/type.c b/src/lib/type.c
index 23eb5c6..1f5b1d5 100644
--- a/src/lib/type.c
+++ b/src/lib/type.c
@@ -990,7 +990,9 @@ static int __rrr_type_import_fixp (RRR_TYPE_IMPORT_ARGS) {
 			rrr_length_from_ptr_sub_bug_const (end, start),
 			&endptr
 	)) != 0) {
-		return RRR_TYPE_PARSE_SOFT_ERR;
+		return ret == RRR_FIXED_POINT_PARSE_INCOMPLETE
+			? RRR_TYPE_PARSE_INCOMPLETE
+			: RRR_TYPE_PARSE_SOFT_ERR;
 	}
 
 	// Fixed point needs another field after it to know where the number ends
-- 
2.43.0


From ad09823ca1938122b1889d76a6961187d7788d24 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:55:49 +0000
Subject: [PATCH 018/155] fix: do not parse the prefix of an incomplete fixed
 point number as a number

With 16# being the last received bytes the value became 16.
---
 src/lib/fixed_point.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/lib/fixed_point.c b/src/lib/fixed_point.c
index a8aa3fb..20bf70a 100644
--- a/src/lib/fixed_point.c
+++ b/src/lib/fixed_point.c
@@ -244,7 +244,7 @@ static int __rrr_fixp_str_preliminary_parse (
 		int *is_negative
 ) {
 	if (str_length == 0) {
-		return 1;
+		return RRR_FIXED_POINT_PARSE_INCOMPLETE;
 	}
 
 	const char *start = str;
@@ -260,7 +260,7 @@ static int __rrr_fixp_str_preliminary_parse (
 	*is_negative = 0;
 
 	// PREFIX PARSING
-	if (str_length > 3) {
+	if (str_length >= 3) {
 		if (strncmp(start, "16#", 3) == 0) {
 			*base = 16;
 			start += 3;
-- 
2.43.0


From af44175a9ce7ca3a3ef5a11e5aa17ff881f7d677 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:55:49 +0000
Subject: [PATCH 019/155] fix: fail instead of aborting when a fixp value is
 exported

The array may have been received from a remote.
---
 src/lib/type.c | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/src/lib/type.c b/src/lib/type.c
index 1f5b1d5..c1cb8fd 100644
--- a/src/lib/type.c
+++ b/src/lib/type.c
@@ -793,13 +793,14 @@ static int __rrr_type_fixp_pack (RRR_TYPE_PACK_ARGS) {
 }
 
 static int __rrr_type_fixp_export (RRR_TYPE_EXPORT_ARGS) {
-	RRR_BUG("%s not implemented", __func__);
+	RRR_MSG_0("Export of fixp type is not implemented\n");
 
 	(void)(target);
-	(void)(written_bytes);
 	(void)(node);
 
-	return 0;
+	*written_bytes = 0;
+
+	return 1;
 }
 
 static int __rrr_type_blob_unpack (RRR_TYPE_UNPACK_ARGS) {
-- 
2.43.0


From 9fb70a09c7a7802bbb65c28f47ebeae104879d15 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:56:08 +0000
Subject: [PATCH 020/155] fix: rewind input position past values of dynamic
 length types

REWIND past ustr, istr, fixp, msg and hdlc values removed the value but did
not move the read position.
---
 src/lib/array_tree.c | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/lib/array_tree.c b/src/lib/array_tree.c
index d20cab1..4280727 100644
--- a/src/lib/array_tree.c
+++ b/src/lib/array_tree.c
@@ -1407,6 +1407,11 @@ int __rrr_array_tree_import_value_callback (
 	RRR_DBG_3("Imported a value of type %s size %" PRIrrrl "x%" PRIrrrl "\n",
 			new_value->definition->identifier, parsed_bytes, new_value->element_count);
 
+	if (value->definition->max_length == 0) {
+		// Save length of dynamic length types in case of REWIND
+		new_value->import_length = parsed_bytes;
+	}
+
 	callback_data->pos += parsed_bytes;
 
 	RRR_LL_APPEND(&callback_data->array, new_value);
-- 
2.43.0


From 483059342bfca9a19b2f9b9a83b47992086ce606 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:56:08 +0000
Subject: [PATCH 021/155] fix: verify element count when unpacking array values
 from messages

A zero or too high count in a received message caused division by zero or
out of bounds reads when the values were used.
---
 src/lib/type.c | 14 ++++++++++++++
 1 file changed, 14 insertions(+)

diff --git a/src/lib/type.c b/src/lib/type.c
index c1cb8fd..7ea4793 100644
--- a/src/lib/type.c
+++ b/src/lib/type.c
@@ -738,6 +738,13 @@ static int __rrr_type_64_unpack (RRR_TYPE_UNPACK_ARGS, uint8_t target_type) {
 	}
 
 	rrr_length array_size = node->total_stored_length / sizeof(rrr_type_be);
+
+	if (array_size == 0 || array_size != node->element_count) {
+		RRR_MSG_0("Element count %" PRIrrrl " does not match size %" PRIrrrl " of 64 type in %s\n",
+				node->element_count, node->total_stored_length, __func__);
+		return 1;
+	}
+
 	const char *pos = node->data;
 	for (unsigned int i = 0; i < array_size; i++) {
 		rrr_type_be tmp = *((rrr_type_be *) pos);
@@ -1610,6 +1617,13 @@ int rrr_type_value_new_and_unpack (
 
 	}
 
+	if (total_length > 0 && (element_count == 0 || total_length % element_count != 0)) {
+		RRR_MSG_0("Element count %" PRIrrrl " does not match size %" PRIrrrl " while unpacking type %s\n",
+				element_count, total_length, type->identifier);
+		ret = 1;
+		goto out_free;
+	}
+
 	if ((ret = value->definition->unpack(value)) != 0) {
 		RRR_MSG_0("Error while unpacking type %s in %s\n", type->identifier, __func__);
 		goto out_free;
-- 
2.43.0


From 2b2432bafbf9faf2bf747dd730afdec054921af3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:58:54 +0000
Subject: [PATCH 022/155] fix: accept array value definitions of exactly two
 characters

The valid definitions h1 to h8 without tag were rejected as too short.
---
 src/lib/array_tree.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/lib/array_tree.c b/src/lib/array_tree.c
index 4280727..1f9be42 100644
--- a/src/lib/array_tree.c
+++ b/src/lib/array_tree.c
@@ -795,7 +795,7 @@ static int __rrr_array_tree_interpret_node (
 			}
 		}
 
-		if (i < 2) {
+		if (i < 1) {
 			RRR_MSG_0("Array value definition was too short (less than 2 characters long)\n");
 			ret = RRR_ARRAY_TREE_SOFT_ERROR;
 			goto out_destroy;
-- 
2.43.0


From 6e22b65669d328f901290b16ca962bad2d7f61a0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:09:12 +0000
Subject: [PATCH 023/155] fix: reject messages with topic length exceeding the
 message size

---
 src/lib/messages/msg_msg.c | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/lib/messages/msg_msg.c b/src/lib/messages/msg_msg.c
index 4d7e821..1c31b1c 100644
--- a/src/lib/messages/msg_msg.c
+++ b/src/lib/messages/msg_msg.c
@@ -260,6 +260,12 @@ static int __message_validate (const struct rrr_msg_msg *message){
 		ret = 1;
 		goto out;
 	}
+	if (MSG_TOPIC_LENGTH(message) > message->msg_size - (sizeof(*message) - 1)) {
+		RRR_DBG_1("Received a message in message_validate with topic length %u exceeding the message size %" PRIu32 "\n",
+				MSG_TOPIC_LENGTH(message), message->msg_size);
+		ret = 1;
+		goto out;
+	}
 	if (!MSG_CLASS_OK(message)) {
 		RRR_DBG_1("Invalid class %u in message to message_validate\n", MSG_CLASS(message));
 		ret = 1;
-- 
2.43.0


From 4663ab3acb917d6336dc229906e6fff9cdbeda0c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:09:12 +0000
Subject: [PATCH 024/155] fix: reject messages with stated size smaller than
 the message header

---
 src/lib/messages/msg.c | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/src/lib/messages/msg.c b/src/lib/messages/msg.c
index 0abf4e2..5fbd63e 100644
--- a/src/lib/messages/msg.c
+++ b/src/lib/messages/msg.c
@@ -141,7 +141,13 @@ int rrr_msg_get_target_size_and_check_checksum (
 		return RRR_MSG_READ_SOFT_ERROR;
 	}
 
-	*target_size = rrr_be32toh(msg->msg_size);
+	const rrr_length msg_size = rrr_be32toh(msg->msg_size);
+
+	if (msg_size < sizeof(struct rrr_msg)) {
+		return RRR_MSG_READ_SOFT_ERROR;
+	}
+
+	*target_size = msg_size;
 
 	return RRR_MSG_READ_OK;
 }
-- 
2.43.0


From 8b5d329b45db5982af29f14639a2ad543ff9e537 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:10:59 +0000
Subject: [PATCH 025/155] fix: check the size of log messages before accessing
 them and accept empty ones

---
 src/lib/messages/msg_log.c | 5 +++++
 src/lib/messages/msg_log.h | 2 +-
 2 files changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/lib/messages/msg_log.c b/src/lib/messages/msg_log.c
index 9ade221..313034a 100644
--- a/src/lib/messages/msg_log.c
+++ b/src/lib/messages/msg_log.c
@@ -36,6 +36,11 @@ void rrr_msg_msg_log_prepare_for_network (struct rrr_msg_log *msg) {
 }
 
 int rrr_msg_msg_log_to_host (struct rrr_msg_log *msg) {
+	if (msg->msg_size < sizeof(*msg) - 1) {
+		RRR_MSG_0("Message was too short in rrr_msg_msg_log_to_host\n");
+		return 1;
+	}
+
 	msg->prefix_size = rrr_be16toh(msg->prefix_size);
 	msg->line = rrr_be32toh(msg->line);
 
diff --git a/src/lib/messages/msg_log.h b/src/lib/messages/msg_log.h
index b2733ee..3ca0b6d 100644
--- a/src/lib/messages/msg_log.h
+++ b/src/lib/messages/msg_log.h
@@ -35,7 +35,7 @@ along with this program.  If not, see <http://www.gnu.org/licenses/>.
 	((msg->prefix_and_message) + (msg)->prefix_size)
 
 #define RRR_MSG_LOG_SIZE_OK(msg)											\
-	((msg)->prefix_size > (msg)->msg_size - sizeof(*(msg)) - 1 ? 0 : 1)
+	((msg)->msg_size < sizeof(*(msg)) - 1 || (msg)->prefix_size > (msg)->msg_size - (sizeof(*(msg)) - 1) ? 0 : 1)
 
 #define RRR_MSG_LOG_LEVEL_ORIG_NOT_GIVEN RRR_LOG_LEVEL_NOT_GIVEN
 
-- 
2.43.0


From f9dcf7b8c4f0d30a4b430cf9846bba4254603296 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:10:59 +0000
Subject: [PATCH 026/155] fix: terminate truncated log messages

---
 src/lib/messages/msg_log.c | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/lib/messages/msg_log.c b/src/lib/messages/msg_log.c
index 313034a..033d496 100644
--- a/src/lib/messages/msg_log.c
+++ b/src/lib/messages/msg_log.c
@@ -148,6 +148,10 @@ int rrr_msg_msg_log_new (
 	memcpy(result->prefix_and_message, prefix, prefix_size);
 	memcpy(RRR_MSG_LOG_MSG_POS(result), message, message_size);
 
+	// Make sure truncated values are terminated
+	result->prefix_and_message[prefix_size - 1] = '\0';
+	RRR_MSG_LOG_MSG_POS(result)[message_size - 1] = '\0';
+
 	result->loglevel_translated = loglevel_translated;
 	result->loglevel_orig = loglevel_orig;
 
-- 
2.43.0


From 2bfc9346b14fc8f3997b85564ab8762e942f0e81 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:10:59 +0000
Subject: [PATCH 027/155] fix: check path and data sizes of received statistics
 messages

---
 src/lib/stats/stats_message.c | 12 ++++++++++++
 1 file changed, 12 insertions(+)

diff --git a/src/lib/stats/stats_message.c b/src/lib/stats/stats_message.c
index fb75af0..68d2f80 100644
--- a/src/lib/stats/stats_message.c
+++ b/src/lib/stats/stats_message.c
@@ -93,6 +93,18 @@ static int __rrr_msg_stats_unpack (
 		goto out;
 	}
 
+	if (path_size > sizeof(target->path)) {
+		RRR_MSG_0("Path was too long in received statistics packet\n");
+		ret = RRR_READ_SOFT_ERROR;
+		goto out;
+	}
+
+	if (actual_path_and_data_size - path_size > sizeof(target->data)) {
+		RRR_MSG_0("Data was too long in received statistics packet\n");
+		ret = RRR_READ_SOFT_ERROR;
+		goto out;
+	}
+
 	memset (target, '\0', sizeof(*target));
 
 	target->flags = flags;
-- 
2.43.0


From 58fdd3bcbcac80569c9ce603dc9bef3eee2fcdbf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:10:59 +0000
Subject: [PATCH 028/155] fix: reject address messages with too long addresses

---
 src/lib/messages/msg_addr.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/lib/messages/msg_addr.h b/src/lib/messages/msg_addr.h
index c4b1558..b846e9a 100644
--- a/src/lib/messages/msg_addr.h
+++ b/src/lib/messages/msg_addr.h
@@ -36,7 +36,7 @@ struct rrr_msg_addr {
 } __attribute((__packed__));
 
 #define RRR_MSG_ADDR_SIZE_OK(msg) \
-	((msg)->msg_size >= sizeof(*(msg)) - sizeof ((msg)->addr))
+	((msg)->msg_size >= sizeof(*(msg)) - sizeof ((msg)->addr) && (msg)->msg_size <= sizeof(*(msg)))
 
 // NOTE ! This will underflow and wrap around if msg_size is small. We only check for 0 here.
 #define RRR_MSG_ADDR_GET_ADDR_LEN(msg) \
-- 
2.43.0


From 95622c36dd5f224fa8a2544801415b20c5e2bc09 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:13:16 +0000
Subject: [PATCH 029/155] fix: validate all of an UTF-8 string, not only the
 part before the first NUL

---
 src/lib/util/utf8.c | 11 +++++------
 1 file changed, 5 insertions(+), 6 deletions(-)

diff --git a/src/lib/util/utf8.c b/src/lib/util/utf8.c
index 450aa70..c6005be 100644
--- a/src/lib/util/utf8.c
+++ b/src/lib/util/utf8.c
@@ -109,9 +109,9 @@ int rrr_utf8_validate (const char *buf, rrr_length len) {
 	const char *end = buf + len;
 
 	uint32_t result = 0;
-	do {
+	while (ret == 0 && pos < end) {
 		ret = rrr_utf8_get_character (&result, &pos, end);
-	} while (ret == 0 && !(ret == 0 && result == 0));
+	}
 
 	return ret;
 }
@@ -128,15 +128,14 @@ int rrr_utf8_validate_and_iterate (
 	const char *end = buf + len;
 
 	uint32_t result = 0;
-	do {
-		ret = rrr_utf8_get_character (&result, &pos, end);
-		if (ret != 0 || (ret == 0 && result == 0)) {
+	while (pos < end) {
+		if ((ret = rrr_utf8_get_character (&result, &pos, end)) != 0) {
 			return ret;
 		}
 		if ((ret = callback(result, callback_arg)) != 0) {
 			return ret;
 		}
-	} while (ret == 0);
+	}
 
 	return ret;
 }
-- 
2.43.0


From 923879789af8ef9a3689df146006ad531dc65f55 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:21:47 +0000
Subject: [PATCH 030/155] fix: use correct element and verify type when getting
 integers from arrays

The index was multiplied with the element size twice, and values of other
types which may be shorter than 8 bytes were read as integers.
---
 src/lib/array.c | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/src/lib/array.c b/src/lib/array.c
index 3fe66c9..6b97119 100644
--- a/src/lib/array.c
+++ b/src/lib/array.c
@@ -480,8 +480,15 @@ static int __rrr_array_get_value_64_by_tag (
 		goto out;
 	}
 
-	signed_result = *((int64_t*) value->data + (sizeof(int64_t) * index));
-	unsigned_result = *((uint64_t*) value->data + (sizeof(uint64_t) * index));
+	if (!RRR_TYPE_IS_64(value->definition->type)) {
+		RRR_MSG_0("Array value '%s' of type '%s' is not an integer\n",
+				tag, value->definition->identifier);
+		ret = 1;
+		goto out;
+	}
+
+	signed_result = *((int64_t*) value->data + index);
+	unsigned_result = *((uint64_t*) value->data + index);
 
 	if (do_signed) {
 		if (!RRR_TYPE_FLAG_IS_SIGNED(value->flags) && unsigned_result > INT64_MAX) {
-- 
2.43.0


From d6fabbf66546ebb814b18704526e5296b6eaf6f5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:21:47 +0000
Subject: [PATCH 031/155] fix: keep results when the last methods of a
 conversion list are not possible

Methods which are not possible are to be skipped. When the last one was
skipped, the results of preceding conversions were discarded.
---
 src/lib/type_conversion.c | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/src/lib/type_conversion.c b/src/lib/type_conversion.c
index 4f61f46..6f2171e 100644
--- a/src/lib/type_conversion.c
+++ b/src/lib/type_conversion.c
@@ -660,7 +660,8 @@ static int __rrr_type_convert_using_list (
 	if ((ret = __rrr_type_convert_using_list (target, next_source, list, pos + 1, flags)) != 0) {
 		if (ret == RRR_TYPE_CONVERSION_DONE) {
 			if (result_local == NULL) {
-				ret = RRR_TYPE_CONVERSION_NOT_POSSIBLE;
+				// Caller uses the result of the last successful
+				// conversion, if any
 				goto out;
 			}
 
@@ -683,7 +684,10 @@ int rrr_type_convert_using_list (
 		const struct rrr_type_conversion_collection *list,
 		const int flags
 ) {
-	return __rrr_type_convert_using_list (target, source, list, 0, flags);
+	int ret = __rrr_type_convert_using_list (target, source, list, 0, flags);
+
+	// None of the methods could be used
+	return ret == RRR_TYPE_CONVERSION_DONE ? RRR_TYPE_CONVERSION_NOT_POSSIBLE : ret;
 }
 
 void rrr_type_conversion_collection_destroy (
-- 
2.43.0


From 9172dc441cc7430aa2c1521779c2cbcb247d684c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:25:43 +0000
Subject: [PATCH 032/155] fix: convert compatible strings to hex with blob2hex

Strings were passed through unconverted as source and destination types are
equal.
---
 src/lib/type_conversion.c | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/lib/type_conversion.c b/src/lib/type_conversion.c
index 6f2171e..7dd6d13 100644
--- a/src/lib/type_conversion.c
+++ b/src/lib/type_conversion.c
@@ -597,7 +597,8 @@ static int __rrr_type_convert (
 
 	*target = NULL;
 
-	if (source->definition == method->to) {
+	// Converting a string to hex is a conversion although both types are str
+	if (source->definition == method->to && method->identifier != RRR_TYPE_CONVERSION_BLOB2HEX) {
 		ret = rrr_type_value_clone(target, source, 1);
 	}
 	else {
-- 
2.43.0


From b6bfd2d027e0f9159ccf96d2c716ef3ccff50455 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:25:43 +0000
Subject: [PATCH 033/155] fix: avoid undefined conversions of fixed point
 numbers

---
 src/lib/fixed_point.c | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/lib/fixed_point.c b/src/lib/fixed_point.c
index 20bf70a..5dbfc3c 100644
--- a/src/lib/fixed_point.c
+++ b/src/lib/fixed_point.c
@@ -102,10 +102,10 @@ int rrr_fixp_to_ldouble (
 ) {
 	long double result = 0;
 	uint64_t sign = ((uint64_t) source) >> 63;
-	int64_t positive = sign ? -source : source;
+	uint64_t positive = sign ? 0 - (uint64_t) source : (uint64_t) source;
 
-	int64_t whole_number = positive >> RRR_FIXED_POINT_BASE2_EXPONENT;
-	int64_t decimals = positive & 0xFFFFFF;
+	uint64_t whole_number = positive >> RRR_FIXED_POINT_BASE2_EXPONENT;
+	uint64_t decimals = positive & 0xFFFFFF;
 
 	result += (long double) whole_number;
 
-- 
2.43.0


From fc3cbd635e120d8e5962e6c0d6a23ab2fd0abb81 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:25:43 +0000
Subject: [PATCH 034/155] fix: reject vain values with data in messages and
 avoid undefined conversions

Export of such values aborted the program.
---
 src/lib/type.c | 11 ++++++++---
 1 file changed, 8 insertions(+), 3 deletions(-)

diff --git a/src/lib/type.c b/src/lib/type.c
index 7ea4793..0ae2333 100644
--- a/src/lib/type.c
+++ b/src/lib/type.c
@@ -1200,7 +1200,10 @@ static int __rrr_type_import_str (RRR_TYPE_IMPORT_ARGS) {
 }
 
 static int __rrr_type_vain_unpack (RRR_TYPE_UNPACK_ARGS) {
-	(void)(node);
+	if (node->total_stored_length != 0) {
+		RRR_MSG_0("Length of vain type was not 0 in %s\n", __func__);
+		return 1;
+	}
 	return 0;
 }
 
@@ -1327,13 +1330,14 @@ static int __rrr_type_vain_to_str (RRR_TYPE_TO_STR_ARGS) {
 }
 
 static uint64_t __rrr_type_blob_to_64 (RRR_TYPE_TO_64_ARGS) {
-	const char *end = node->data + node->total_stored_length;
 	rrr_length get_length = node->total_stored_length > sizeof(uint64_t) ? sizeof(uint64_t) : node->total_stored_length;
 
 	if (get_length == 0) {
 		return 0;
 	}
 
+	const char *end = node->data + node->total_stored_length;
+
 	return __rrr_type_expand_be(get_length, end - get_length, 0);
 }
 
@@ -1347,7 +1351,8 @@ static unsigned long long __rrr_type_fixp_to_ull (RRR_TYPE_TO_ULL_ARGS) {
 	if (rrr_fixp_to_ldouble(&tmp, *((rrr_fixp*) node->data)) != 0) {
 		tmp = 0.0;
 	}
-	return (unsigned long long) tmp;
+	// Conversion of negative values directly to unsigned is undefined
+	return tmp < 0 ? (unsigned long long) (long long) tmp : (unsigned long long) tmp;
 }
 
 static unsigned long long __rrr_type_str_to_ull (RRR_TYPE_TO_ULL_ARGS) {
-- 
2.43.0


From 276b30f60a6917a589a4ac8260ac5c971cc2dc83 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:27:38 +0000
Subject: [PATCH 035/155] fix: limit the number of empty elements in received
 values

A small message could claim billions of empty elements causing memory to be
exhausted when the value was split. Also avoid offsets from and copying of
NULL data, and don't abort when converting empty strings without elements.
---
 src/lib/type.c            | 32 ++++++++++++++++++++++----------
 src/lib/type.h            |  3 +++
 src/lib/type_conversion.c | 14 +++++++-------
 3 files changed, 32 insertions(+), 17 deletions(-)

diff --git a/src/lib/type.c b/src/lib/type.c
index 0ae2333..f72e8a6 100644
--- a/src/lib/type.c
+++ b/src/lib/type.c
@@ -819,7 +819,9 @@ static int __rrr_type_blob_unpack (RRR_TYPE_UNPACK_ARGS) {
 }
 
 static int __rrr_type_blob_export_or_pack (RRR_TYPE_EXPORT_ARGS) {
-	memcpy(target, node->data, node->total_stored_length);
+	if (node->total_stored_length > 0) {
+		memcpy(target, node->data, node->total_stored_length);
+	}
 
 	*written_bytes = node->total_stored_length;
 
@@ -906,9 +908,9 @@ static int __rrr_type_msg_export (RRR_TYPE_EXPORT_ARGS) {
 static int __rrr_type_str_get_export_length (RRR_TYPE_GET_EXPORT_LENGTH_ARGS) {
 	rrr_length escape_count = 0;
 
-	const char *end = node->data + node->total_stored_length;
-	for (const char *pos = node->data; pos < end; pos++) {
-		if ((*pos) == '\\' || (*pos) == '"') {
+	for (rrr_length i = 0; i < node->total_stored_length; i++) {
+		const char c = node->data[i];
+		if (c == '\\' || c == '"') {
 			escape_count++;
 		}
 	}
@@ -934,14 +936,13 @@ static int __rrr_type_str_export (RRR_TYPE_EXPORT_ARGS) {
 	(*write_pos) = '"';
 	write_pos++;
 
-	const char *read_end = node->data + node->total_stored_length;
-
-	for (const char *read_pos = node->data; read_pos < read_end; read_pos++) {
-		if (*read_pos == '\\' || *read_pos == '"') {
+	for (rrr_length i = 0; i < node->total_stored_length; i++) {
+		const char c = node->data[i];
+		if (c == '\\' || c == '"') {
 			(*write_pos) = '\\';
 			write_pos++;
 		}
-		(*write_pos) = *read_pos;
+		(*write_pos) = c;
 		write_pos++;
 	}
 
@@ -1308,7 +1309,9 @@ static int __rrr_type_str_to_str (RRR_TYPE_TO_STR_ARGS) {
 		return 1;
 	}
 
-	memcpy(result, node->data, node->total_stored_length);
+	if (node->total_stored_length > 0) {
+		memcpy(result, node->data, node->total_stored_length);
+	}
 	(*(result + node->total_stored_length)) = '\0';
 
 	*target = result;
@@ -1629,6 +1632,15 @@ int rrr_type_value_new_and_unpack (
 		goto out_free;
 	}
 
+	// Empty elements take no space in the message, limit how
+	// many which can be created from a single value.
+	if (total_length == 0 && element_count > RRR_TYPE_MAX_EMPTY_ELEMENTS) {
+		RRR_MSG_0("Too many empty elements %" PRIrrrl " while unpacking type %s\n",
+				element_count, type->identifier);
+		ret = 1;
+		goto out_free;
+	}
+
 	if ((ret = value->definition->unpack(value)) != 0) {
 		RRR_MSG_0("Error while unpacking type %s in %s\n", type->identifier, __func__);
 		goto out_free;
diff --git a/src/lib/type.h b/src/lib/type.h
index bda2f20..dd142cc 100644
--- a/src/lib/type.h
+++ b/src/lib/type.h
@@ -101,6 +101,9 @@ enum rrr_type_enum {
 #define RRR_TYPE_MAX_VAIN   0
 #define RRR_TYPE_MAX_HDLC   0
 
+// Maximum number of elements in a value without any data
+#define RRR_TYPE_MAX_EMPTY_ELEMENTS 0xffff
+
 // Don't have the CASE macros overlap, a type must be in one CASE macro only. The
 // IS macros must overlap when types are convertibe (e.g. STR is also BLOB).
 
diff --git a/src/lib/type_conversion.c b/src/lib/type_conversion.c
index 7dd6d13..85c6c51 100644
--- a/src/lib/type_conversion.c
+++ b/src/lib/type_conversion.c
@@ -282,13 +282,6 @@ static int __rrr_type_convert_str2blob (RRR_TYPE_CONVERT_ARGS) {
 static int __rrr_type_convert_str2h (RRR_TYPE_CONVERT_ARGS) {
 	TYPE_STR_ENSURE();
 
-	if (source->element_count == 0) {
-		RRR_BUG("BUG: Element count was 0 in %s\n", __func__);
-	}
-	if (source->total_stored_length % source->element_count != 0) {
-		RRR_BUG("BUG: Stored length not divisible by element count in %s\n", __func__);
-	}
-
 	int ret = 0;
 
 	char *data_new = NULL;
@@ -300,6 +293,13 @@ static int __rrr_type_convert_str2h (RRR_TYPE_CONVERT_ARGS) {
 		goto out;
 	}
 
+	if (source->element_count == 0) {
+		RRR_BUG("BUG: Element count was 0 in %s\n", __func__);
+	}
+	if (source->total_stored_length % source->element_count != 0) {
+		RRR_BUG("BUG: Stored length not divisible by element count in %s\n", __func__);
+	}
+
 	int found_sign = 0;
 	for (const char *pos = source->data; pos < source->data + source->total_stored_length; pos++) {
 		if ((*pos >= '0' && *pos <= '9') || (*pos == ' ') || (*pos == '+')) {
-- 
2.43.0


From efe8cef72c464e9d3e7359ad1ac3704ebd70f8d6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:52:23 +0000
Subject: [PATCH 036/155] fix: do not read past the end of topics when matching
 wildcards

---
 src/lib/mqtt/mqtt_topic.c | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/lib/mqtt/mqtt_topic.c b/src/lib/mqtt/mqtt_topic.c
index 0eb0c94..2840712 100644
--- a/src/lib/mqtt/mqtt_topic.c
+++ b/src/lib/mqtt/mqtt_topic.c
@@ -191,7 +191,7 @@ int rrr_mqtt_topic_match_topic_and_linear_with_end (
 			assert(topic_token_pos == 0);
 			assert(filter_token_pos == 0);
 
-			if (*topic_pos == '$') {
+			if (topic_pos < topic_end && *topic_pos == '$') {
 				return RRR_MQTT_TOKEN_MISMATCH;
 			}
 
@@ -202,7 +202,7 @@ int rrr_mqtt_topic_match_topic_and_linear_with_end (
 			assert(topic_token_pos == 0);
 			assert(filter_token_pos == 0);
 
-			if (*topic_pos == '$') {
+			if (topic_pos < topic_end && *topic_pos == '$') {
 				return RRR_MQTT_TOKEN_MISMATCH;
 			}
 			for (; topic_pos < topic_end; topic_pos++) {
@@ -235,7 +235,7 @@ int rrr_mqtt_topic_match_topic_and_linear_with_end (
 
 	match:
 
-	if (*filter_pos != '#') {
+	if (filter_pos == filter_end || *filter_pos != '#') {
 		assert(topic_pos == topic_end);
 	}
 
-- 
2.43.0


From b2b1f06a53e267ff94a9be0e19f220d171ad3a8f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:55:27 +0000
Subject: [PATCH 037/155] fix: do not treat non-ASCII bytes as control
 characters in topic filters of route definitions

---
 src/lib/parse.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/lib/parse.h b/src/lib/parse.h
index 0b1e750..27bb6e5 100644
--- a/src/lib/parse.h
+++ b/src/lib/parse.h
@@ -64,7 +64,7 @@ along with this program.  If not, see <http://www.gnu.org/licenses/>.
 #define RRR_PARSE_MATCH_C_NULL(c) 		\
 	((c) == '\0')
 #define RRR_PARSE_MATCH_C_CONTROL(c)	\
-	((c) <= 0x1f)
+	((unsigned char) (c) <= 0x1f)
 #define RRR_PARSE_MATCH_C_TAG(c)	\
 	(RRR_PARSE_MATCH_C_LETTER(c) || RRR_PARSE_MATCH_C_NUMBER(c))
 
-- 
2.43.0


From cc50a02a8a7388e498c36139c888bea26560fd7c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:01:56 +0000
Subject: [PATCH 038/155] fix: detect failures from shmat in the mmap channel

---
 src/lib/mmap_channel.c | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/lib/mmap_channel.c b/src/lib/mmap_channel.c
index 3b689b7..a1b0509 100644
--- a/src/lib/mmap_channel.c
+++ b/src/lib/mmap_channel.c
@@ -245,8 +245,9 @@ static int __rrr_mmap_channel_allocate (
 		block->shmid = shmid;
 		block->size_capacity = data_size;
 
-		if ((block->ptr_shm_or_mmap_writer = shmat(shmid, NULL, 0)) == NULL) {
+		if ((block->ptr_shm_or_mmap_writer = shmat(shmid, NULL, 0)) == (void *) -1) {
 			RRR_MSG_0("shmat failed in %s: %s\n", __func__, rrr_strerror(errno));
+			block->ptr_shm_or_mmap_writer = NULL;
 			ret = 1;
 			goto out;
 		}
@@ -458,7 +459,7 @@ int rrr_mmap_channel_read_with_callback (
 	if (block->shmid != 0) {
 		const char *data_pointer = NULL;
 
-		if ((data_pointer = shmat(block->shmid, NULL, 0)) == NULL) {
+		if ((data_pointer = shmat(block->shmid, NULL, 0)) == (const char *) -1) {
 			RRR_MSG_0("Could not get shm pointer in %s: %s\n", __func__, rrr_strerror(errno));
 			ret = 1;
 			goto out_unlock;
-- 
2.43.0


From f0709d598cc4dc39c5d82649f521f0e080118c1e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:01:56 +0000
Subject: [PATCH 039/155] fix: make room for padding of large allocations in
 new memory maps

---
 src/lib/rrr_mmap.c | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/lib/rrr_mmap.c b/src/lib/rrr_mmap.c
index 7b6864e..10ffd16 100644
--- a/src/lib/rrr_mmap.c
+++ b/src/lib/rrr_mmap.c
@@ -430,6 +430,9 @@ static int __rrr_mmap_init (
 	memset(result, '\0', sizeof(*result));
 
 	heap_size += sizeof(struct rrr_mmap_heap_block_index);
+
+	// Room for padding when a single allocation takes up the whole heap
+	heap_size += RRR_MMAP_HEAP_CHUNK_MIN_SIZE;
 #ifdef RRR_MMAP_SENTINEL_DEBUG
 	heap_size += sizeof(rrr_mmap_sentinel_template);
 #endif
-- 
2.43.0


From 249bed755d386e1469d7e77360b215344ed501d0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:02:09 +0000
Subject: [PATCH 040/155] fix: check the return value of shmctl correctly when
 recovering from failed allocations

---
 src/lib/mmap_channel.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/lib/mmap_channel.c b/src/lib/mmap_channel.c
index a1b0509..0d911dd 100644
--- a/src/lib/mmap_channel.c
+++ b/src/lib/mmap_channel.c
@@ -122,7 +122,7 @@ static int __rrr_mmap_channel_block_free (
 		if (block->ptr_shm_or_mmap_writer == NULL) {
 			// Attempt to recover from previously failed allocation
 			struct shmid_ds ds;
-			if (shmctl(block->shmid, IPC_STAT, &ds) != block->shmid) {
+			if (shmctl(block->shmid, IPC_STAT, &ds) != 0) {
 				RRR_MSG_0("Warning: shmctl IPC_STAT failed in %s: %s\n", __func__, rrr_strerror(errno));
 			}
 			else {
-- 
2.43.0


From 3f7f7d8753a836775e1d721c98ae7e2f574fdeb7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:07:44 +0000
Subject: [PATCH 041/155] fix: do not leave mutex locked when trylock finds the
 previous holder dead

---
 src/lib/util/posix.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/lib/util/posix.c b/src/lib/util/posix.c
index cc9d202..baf20f1 100644
--- a/src/lib/util/posix.c
+++ b/src/lib/util/posix.c
@@ -303,6 +303,7 @@ int rrr_posix_mutex_robust_trylock (pthread_mutex_t *mutex) {
 	if ((ret = pthread_mutex_trylock (mutex)) != 0) {
 		if (ret == EOWNERDEAD) {
 			__rrr_posix_mutex_robust_consistent(mutex);
+			pthread_mutex_unlock(mutex);
 			ret = RRR_POSIX_MUTEX_ROBUST_ERROR;
 		}
 		else if (ret == EBUSY) {
-- 
2.43.0


From 555e7d3655934e2d13c368d2283c2fb0543b9da0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:07:44 +0000
Subject: [PATCH 042/155] fix: do not abort when another process has died while
 holding a shared memory lock

---
 src/lib/mmap_channel.c | 8 ++++++--
 src/lib/rrr_mmap.c     | 4 +++-
 2 files changed, 9 insertions(+), 3 deletions(-)

diff --git a/src/lib/mmap_channel.c b/src/lib/mmap_channel.c
index 0d911dd..54f970f 100644
--- a/src/lib/mmap_channel.c
+++ b/src/lib/mmap_channel.c
@@ -95,6 +95,10 @@ struct rrr_mmap_channel {
 
 #define INDEX_LOCK(channel) \
 	do {ret = rrr_posix_mutex_robust_lock(&channel->index_lock); if (ret != 0) goto out_lock_err;
+// The mutex is consistent again when a lock attempt returns because the holder
+// had died, use when the operation must succeed regardless of this.
+#define INDEX_LOCK_FORCE(channel) \
+	do {do {ret = rrr_posix_mutex_robust_lock(&channel->index_lock);} while (ret == RRR_POSIX_MUTEX_ROBUST_ERROR); if (ret != 0) goto out_lock_err;
 #define INDEX_UNLOCK(channel) \
 	{ret = pthread_mutex_unlock(&channel->index_lock); if (ret != 0) RRR_BUG("BUG: INDEX_UNLOCK failed: %s\n", rrr_strerror(ret)); }} while (0)
 
@@ -547,7 +551,7 @@ void rrr_mmap_channel_destroy (
 void rrr_mmap_channel_writer_free_blocks (struct rrr_mmap_channel *target) {
 	int ret = 0;
 
-	INDEX_LOCK(target);
+	INDEX_LOCK_FORCE(target);
 
 	// This function does not lock the blocks in case the reader has crashed
 	// while holding the mutex
@@ -648,7 +652,7 @@ void rrr_mmap_channel_get_counters_and_reset (
 ) {
 	int ret = 0;
 
-	INDEX_LOCK(source);
+	INDEX_LOCK_FORCE(source);
 
 	*count = (unsigned long long int) source->entry_count;
 
diff --git a/src/lib/rrr_mmap.c b/src/lib/rrr_mmap.c
index 10ffd16..bd6af20 100644
--- a/src/lib/rrr_mmap.c
+++ b/src/lib/rrr_mmap.c
@@ -104,8 +104,10 @@ struct rrr_mmap_heap_block_index {
 	rrr_biglength block_sizes[64];
 };
 
+// If another process has died while holding the lock, the mutex is made
+// consistent and the second attempt succeeds.
 #define LOCK(collection) \
-	do {int ret_tmp = rrr_posix_mutex_robust_lock(&collection->index_lock); if (ret_tmp != 0) RRR_BUG("Unhandled lock error %s in %s, cannot continue.\n", rrr_strerror(ret_tmp), __func__);
+	do {int ret_tmp = rrr_posix_mutex_robust_lock(&collection->index_lock); if (ret_tmp == RRR_POSIX_MUTEX_ROBUST_ERROR) ret_tmp = rrr_posix_mutex_robust_lock(&collection->index_lock); if (ret_tmp != 0) RRR_BUG("Unhandled lock error %s in %s, cannot continue.\n", rrr_strerror(ret_tmp), __func__);
 #define UNLOCK(collection) \
 	{ int ret_tmp = pthread_mutex_unlock(&collection->index_lock); if (ret_tmp != 0) RRR_BUG("Unhandled unlock error %s in %s, cannot continue\n", rrr_strerror(ret_tmp), __func__); }} while(0)
 #define INIT(collection, is_pshared) \
-- 
2.43.0


From ede21d5dddcd4f9478bb311d9786943300edf635 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:15:07 +0000
Subject: [PATCH 043/155] fix: do not abort when converting empty binary values
 to text

---
 src/lib/type.c | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/lib/type.c b/src/lib/type.c
index f72e8a6..7e918ed 100644
--- a/src/lib/type.c
+++ b/src/lib/type.c
@@ -1292,9 +1292,12 @@ static int __rrr_type_fixp_to_str (RRR_TYPE_TO_STR_ARGS) {
 	return ret;
 }
 
+static int __rrr_type_str_to_str (RRR_TYPE_TO_STR_ARGS);
+
 static int __rrr_type_bin_to_str (RRR_TYPE_TO_STR_ARGS) {
 	if (node->total_stored_length == 0) {
-		RRR_BUG("BUG: Length was 0 in %s\n", __func__);
+		// Empty values may be received from others
+		return __rrr_type_str_to_str(target, node);
 	}
 
 	rrr_biglength target_length_dummy = 0;
-- 
2.43.0


From 38bad047368f17a1299e109dedee735bdb642725 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:33:20 +0000
Subject: [PATCH 044/155] fix: wrong body length after merging HTTP chunks

The length of the request line and headers was included, hence data
beyond the end of the body was read.
---
 src/lib/http/http_part.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/lib/http/http_part.c b/src/lib/http/http_part.c
index 5f1b972..5cf647c 100644
--- a/src/lib/http/http_part.c
+++ b/src/lib/http/http_part.c
@@ -759,7 +759,7 @@ int rrr_http_part_chunks_merge (
 	RRR_LL_ITERATE_END_CHECK_DESTROY(&part->chunks, 0; rrr_free(node));
 
 	part->is_chunked = 0;
-	part->data_length = wpos;
+	part->data_length = wpos - top_length;
 
 	*result_data = data_new;
 	data_new = NULL;
-- 
2.43.0


From a681fc78f0aa4f5ac0f92d637d2921e07043f0c0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:33:20 +0000
Subject: [PATCH 045/155] fix: invalid memory access with very large HTTP chunk
 length

---
 src/lib/http/http_part_parse.c | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/src/lib/http/http_part_parse.c b/src/lib/http/http_part_parse.c
index dd6f580..e5b4cdf 100644
--- a/src/lib/http/http_part_parse.c
+++ b/src/lib/http/http_part_parse.c
@@ -286,6 +286,12 @@ static int __rrr_http_part_parse_chunk_header (
 		goto out;
 	}
 
+	if (chunk_length > RRR_BIGLENGTH_MAX / 2) {
+		RRR_MSG_0("Chunk length too big in HTTP message (%llu)\n", chunk_length);
+		ret = RRR_HTTP_PARSE_SOFT_ERR;
+		goto out;
+	}
+
 	pos += parsed_bytes_tmp;
 	pos += 2; // Plus CRLF after chunk header
 
@@ -378,7 +384,7 @@ static int __rrr_http_part_parse_chunk (
 	rrr_biglength parsed_bytes_previous_chunk = 0;
 
 	if (last_chunk != NULL) {
-		if (buf + last_chunk->start + last_chunk->length > end) {
+		if (last_chunk->start + last_chunk->length > rrr_biglength_from_ptr_sub_bug_const(end, buf)) {
 			// Need to read more
 			ret = RRR_HTTP_PARSE_INCOMPLETE;
 			goto out;
-- 
2.43.0


From 0bea106ed68a4ededa6a5c4447f9751cf8f52248 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:33:20 +0000
Subject: [PATCH 046/155] fix: HTTP chunked message considered complete without
 the final CRLF

Two bytes of whatever followed the last chunk were skipped and the rest
was parsed as the next message.
---
 src/lib/http/http_part_parse.c | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/src/lib/http/http_part_parse.c b/src/lib/http/http_part_parse.c
index e5b4cdf..95005b2 100644
--- a/src/lib/http/http_part_parse.c
+++ b/src/lib/http/http_part_parse.c
@@ -300,6 +300,13 @@ static int __rrr_http_part_parse_chunk_header (
 		goto out;
 	}
 
+	if (chunk_length == 0 && (pos[0] != '\r' || pos[1] != '\n')) {
+		// Trailers are not supported
+		RRR_MSG_0("CRLF missing after last chunk in HTTP message\n");
+		ret = RRR_HTTP_PARSE_SOFT_ERR;
+		goto out;
+	}
+
 	struct rrr_http_chunk *new_chunk = NULL;
 	rrr_biglength chunk_start = rrr_biglength_from_ptr_sub_bug_const (pos, buf);
 
-- 
2.43.0


From fb6fd8f48339a19e7e8f626467742c3415d9e2e9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:33:20 +0000
Subject: [PATCH 047/155] fix: HTTP request line parsing continuing beyond the
 end of the line

---
 src/lib/http/http_part_parse.c | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/lib/http/http_part_parse.c b/src/lib/http/http_part_parse.c
index 95005b2..3942956 100644
--- a/src/lib/http/http_part_parse.c
+++ b/src/lib/http/http_part_parse.c
@@ -133,7 +133,7 @@ static int __rrr_http_part_parse_request (
 		goto out;
 	}
 
-	if ((space = rrr_http_util_find_whsp(start, end)) == NULL) {
+	if ((space = rrr_http_util_find_whsp(start, crlf)) == NULL) {
 		RRR_MSG_0("Whitespace missing after request method in HTTP request\n");
 		rrr_http_util_print_where_message(start, end);
 		ret = RRR_HTTP_PARSE_SOFT_ERR;
@@ -158,9 +158,9 @@ static int __rrr_http_part_parse_request (
 	}
 
 	start += space - start;
-	start += rrr_http_util_count_whsp(start, end);
+	start += rrr_http_util_count_whsp(start, crlf);
 
-	if ((space = rrr_http_util_find_whsp(start, end)) == NULL) {
+	if ((space = rrr_http_util_find_whsp(start, crlf)) == NULL) {
 		RRR_MSG_0("Whitespace missing after request URI in HTTP request\n");
 		rrr_http_util_print_where_message(start, end);
 		ret = RRR_HTTP_PARSE_SOFT_ERR;
@@ -182,7 +182,7 @@ static int __rrr_http_part_parse_request (
 	}
 
 	start += space - start;
-	start += rrr_http_util_count_whsp(start, end);
+	start += rrr_http_util_count_whsp(start, crlf);
 
 	const char *start_orig = start;
 
-- 
2.43.0


From 15cec9d6c4670fee45b840d4d3442abb31a0f989 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:33:50 +0000
Subject: [PATCH 048/155] fix: too short HTTP response line treated as
 incomplete

The client would wait for more data until a timeout.
---
 src/lib/http/http_part_parse.c | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/src/lib/http/http_part_parse.c b/src/lib/http/http_part_parse.c
index 3942956..83bd109 100644
--- a/src/lib/http/http_part_parse.c
+++ b/src/lib/http/http_part_parse.c
@@ -55,7 +55,8 @@ static int __rrr_http_part_parse_response_code (
 	}
 
 	if (crlf - start < (ssize_t) strlen("HTTP/1.x 200")) {
-		ret = RRR_HTTP_PARSE_INCOMPLETE;
+		RRR_MSG_0("Response line too short in HTTP response\n");
+		ret = RRR_HTTP_PARSE_SOFT_ERR;
 		goto out;
 	}
 
@@ -76,7 +77,7 @@ static int __rrr_http_part_parse_response_code (
 	}
 
 	start += tmp_len;
-	start += rrr_http_util_count_whsp(start, end);
+	start += rrr_http_util_count_whsp(start, crlf);
 
 	unsigned long long int response_code = 0;
 	if (rrr_http_util_strtoull_raw(&response_code, &tmp_len, start, crlf, 10) != 0 || response_code > 999) {
@@ -87,7 +88,7 @@ static int __rrr_http_part_parse_response_code (
 	result->response_code = (unsigned int) response_code;
 
 	start += tmp_len;
-	start += rrr_http_util_count_whsp(start, end);
+	start += rrr_http_util_count_whsp(start, crlf);
 
 	if (start < crlf) {
 		// ssize_t response_str_len = crlf - start;
-- 
2.43.0


From adb220b66f9571ed40f87d5d73dc78a1863662ab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:33:50 +0000
Subject: [PATCH 049/155] fix: HTTP message framing with Content-Length

- A very large Content-Length made the total size wrap
- Chunked transfer encoding did not override Content-Length (RFC7230 3.3.3)
---
 src/lib/http/http_part_parse.c | 17 ++++++++++++-----
 1 file changed, 12 insertions(+), 5 deletions(-)

diff --git a/src/lib/http/http_part_parse.c b/src/lib/http/http_part_parse.c
index 83bd109..51de709 100644
--- a/src/lib/http/http_part_parse.c
+++ b/src/lib/http/http_part_parse.c
@@ -716,7 +716,18 @@ int rrr_http_part_parse (
 	const struct rrr_http_header_field *content_length = rrr_http_part_header_field_get(part, "content-length");
 	const struct rrr_http_header_field *transfer_encoding = rrr_http_part_header_field_get(part, "transfer-encoding");
 
-	if (content_length != NULL) {
+	// Transfer-Encoding overrides Content-Length, RFC7230 section 3.3.3
+	if (transfer_encoding != NULL && rrr_nullsafe_str_cmpto_case(transfer_encoding->value, "chunked") == 0) {
+		RRR_DBG_3("HTTP 'Transfer-Encoding: chunked' found in response\n");
+		goto out_parse_chunked;
+	}
+	else if (content_length != NULL) {
+		if (content_length->value_unsigned > RRR_BIGLENGTH_MAX / 2) {
+			RRR_MSG_0("Content-Length too big in HTTP message (%llu)\n", content_length->value_unsigned);
+			ret = RRR_HTTP_PARSE_SOFT_ERR;
+			goto out;
+		}
+
 		part->data_length = content_length->value_unsigned;
 		*target_size = part->headroom_length + part->header_length + content_length->value_unsigned;
 
@@ -727,10 +738,6 @@ int rrr_http_part_parse (
 
 		goto out;
 	}
-	else if (transfer_encoding != NULL && rrr_nullsafe_str_cmpto_case(transfer_encoding->value, "chunked") == 0) {
-		RRR_DBG_3("HTTP 'Transfer-Encoding: chunked' found in response\n");
-		goto out_parse_chunked;
-	}
 	else if (	parse_type == RRR_HTTP_PARSE_REQUEST ||
 				part->response_code == RRR_HTTP_RESPONSE_CODE_OK_NO_CONTENT ||
 				part->response_code == RRR_HTTP_RESPONSE_CODE_SWITCHING_PROTOCOLS
-- 
2.43.0


From f47639b9081592cd0f84d484f85eff3117850140 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:33:50 +0000
Subject: [PATCH 050/155] fix: HTTP header value ending with separator read
 beyond its end

---
 src/lib/http/http_header_fields.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/lib/http/http_header_fields.c b/src/lib/http/http_header_fields.c
index e70c9b6..53a43a0 100644
--- a/src/lib/http/http_header_fields.c
+++ b/src/lib/http/http_header_fields.c
@@ -844,7 +844,7 @@ static int __rrr_http_header_field_parse_subvalue (
 	const char *equal = NULL;
 	const char *semicolon = NULL;
 
-	while (*start == ' ' && start < end) {
+	while (start < line_end && *start == ' ') {
 		start++;
 	}
 
-- 
2.43.0


From c2f8316f58dd23f49304ea592e814f16d0ac2e8d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:33:50 +0000
Subject: [PATCH 051/155] fix: %-sequences with only one hexadecimal digit
 accepted

The character following the digit was lost.
---
 src/lib/http/http_part.c | 2 +-
 src/lib/http/http_util.c | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/lib/http/http_part.c b/src/lib/http/http_part.c
index 5cf647c..d2099e3 100644
--- a/src/lib/http/http_part.c
+++ b/src/lib/http/http_part.c
@@ -428,7 +428,7 @@ static int __rrr_http_part_query_string_parse (
 			unsigned long long int result = 0;
 
 			rrr_length result_len = 0;
-			if (rrr_http_util_strtoull_raw (&result, &result_len, start + 1, start + 3, 16) != 0) {
+			if (rrr_http_util_strtoull_raw (&result, &result_len, start + 1, start + 3, 16) != 0 || result_len != 2) {
 				RRR_MSG_0("Invalid %%-sequence in HTTP query string\n");
 				rrr_http_util_print_where_message(start, end);
 				ret = RRR_HTTP_PARSE_SOFT_ERR;
diff --git a/src/lib/http/http_util.c b/src/lib/http/http_util.c
index 0904eca..c8e5ee0 100644
--- a/src/lib/http/http_util.c
+++ b/src/lib/http/http_util.c
@@ -270,7 +270,7 @@ static int __rrr_http_util_decode_urlencoded_string (
 			unsigned long long int result = 0;
 
 			rrr_length result_len = 0;
-			if (rrr_http_util_strtoull_raw (&result, &result_len, (const char *) start + 1, (const char *) start + 3, 16) != 0) {
+			if (rrr_http_util_strtoull_raw (&result, &result_len, (const char *) start + 1, (const char *) start + 3, 16) != 0 || result_len != 2) {
 				if (RRR_DEBUGLEVEL_3) {
 					RRR_MSG_3("Invalid %%-sequence in urlencoded string\n");
 					rrr_http_util_print_where_message((const char *) start, (const char *) end);
-- 
2.43.0


From e4477e97e06ee472e4a7e3276d58d28eb5a825c2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:34:15 +0000
Subject: [PATCH 052/155] fix: length of HTTP multipart parts without data
 underflowing

---
 src/lib/http/http_part_multipart.c | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/lib/http/http_part_multipart.c b/src/lib/http/http_part_multipart.c
index 3e06466..f024714 100644
--- a/src/lib/http/http_part_multipart.c
+++ b/src/lib/http/http_part_multipart.c
@@ -170,6 +170,12 @@ static int __rrr_http_part_multipart_process_part_callback (
 		RRR_DBG_3("Invalid header specification in HTTP multipart request part header\n");
 	}
 
+	if (new_part->header_length + 2 > find_end_callback_data.part_length) {
+		RRR_DBG_3("Empty line after header or CRLF before boundary missing in HTTP multipart request part\n");
+		ret = RRR_HTTP_PARSE_SOFT_ERR;
+		goto out;
+	}
+
 	new_part->headroom_length = rrr_nullsafe_str_len(haystack_orig) - rrr_nullsafe_str_len(pos_after_needle);
 	new_part->data_length = find_end_callback_data.part_length - new_part->header_length - 2; // Subtract one CRLF
 
-- 
2.43.0


From f6df5f3a08f02b5a6fd6881acfcb92253418b4ee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:34:15 +0000
Subject: [PATCH 053/155] fix: HTTP multipart body refused without CRLF after
 the end boundary

The CRLF is optional (RFC2046 5.1.1).
---
 src/lib/http/http_part_multipart.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/lib/http/http_part_multipart.c b/src/lib/http/http_part_multipart.c
index f024714..55927c5 100644
--- a/src/lib/http/http_part_multipart.c
+++ b/src/lib/http/http_part_multipart.c
@@ -247,7 +247,7 @@ static int __rrr_http_part_multipart_process_parts (
 		if ((ret = rrr_nullsafe_str_dup(&boundary_with_dashes_end, boundary_with_dashes)) != 0) {
 			goto out;
 		}
-		if ((ret = rrr_nullsafe_str_append_raw(boundary_with_dashes_end, "--\r\n", 4)) != 0) {
+		if ((ret = rrr_nullsafe_str_append_raw(boundary_with_dashes_end, "--", 2)) != 0) {
 			goto out;
 		}
 	}
-- 
2.43.0


From bdb7a995fec1be8e08c0fe2670d97549211751b7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:36:18 +0000
Subject: [PATCH 054/155] fix: HTTP messages with any header value ending with
 = refused

Among these are requests with basic authorization, depending on the
length of the password.
---
 src/lib/http/http_header_fields.c | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/lib/http/http_header_fields.c b/src/lib/http/http_header_fields.c
index 53a43a0..353eb34 100644
--- a/src/lib/http/http_header_fields.c
+++ b/src/lib/http/http_header_fields.c
@@ -909,9 +909,9 @@ static int __rrr_http_header_field_parse_subvalue (
 	}
 
 	if (start >= line_end) {
-		RRR_MSG_0("Could not find value after = while parsing subvalues of HTTP header field\n");
-		ret = RRR_HTTP_PARSE_SOFT_ERR;
-		goto out;
+		// Nothing after =, accept as empty value (like with 'Authorization: Basic YWI6Y2Q=')
+		start = line_end;
+		goto no_value;
 	}
 
 	// TODO : This method to find value end is naive, need to parse quoted values correctly
-- 
2.43.0


From 7e5e2a933895ee3e88fa535d575d7de6fa0540b4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:37:56 +0000
Subject: [PATCH 055/155] fix: whitespace at the end of HTTP header values made
 part of the value

Fields like 'Transfer-Encoding: chunked ' and 'Connection: close ' were
not understood.
---
 src/lib/http/http_header_fields.c | 12 +++++++++++-
 1 file changed, 11 insertions(+), 1 deletion(-)

diff --git a/src/lib/http/http_header_fields.c b/src/lib/http/http_header_fields.c
index 353eb34..9df71f2 100644
--- a/src/lib/http/http_header_fields.c
+++ b/src/lib/http/http_header_fields.c
@@ -885,6 +885,11 @@ static int __rrr_http_header_field_parse_subvalue (
 		goto out;
 	}
 
+	// Whitespace after values is not part of them
+	while (name_length > 1 && (start[name_length - 1] == ' ' || start[name_length - 1] == '\t')) {
+		name_length--;
+	}
+
 	if (rrr_http_field_new_no_value_raw(&subvalue, start, name_length) != 0) {
 		RRR_MSG_0("Could not allocate field in __rrr_http_header_field_subvalue_parse\n");
 		ret = RRR_HTTP_PARSE_HARD_ERR;
@@ -919,7 +924,12 @@ static int __rrr_http_header_field_parse_subvalue (
 	const char *value_end = __rrr_http_header_field_parse_get_first_position(comma, semicolon, NULL, line_end);
 	rrr_length value_length = rrr_length_from_ptr_sub_bug_const (value_end, start);
 
-	if (rrr_http_field_value_set(subvalue, start, value_length) != 0) {
+	rrr_length value_length_trimmed = value_length;
+	while (value_length_trimmed > 0 && (start[value_length_trimmed - 1] == ' ' || start[value_length_trimmed - 1] == '\t')) {
+		value_length_trimmed--;
+	}
+
+	if (rrr_http_field_value_set(subvalue, start, value_length_trimmed) != 0) {
 		RRR_MSG_0("Could not allocate memory for value in __rrr_http_header_field_subvalue_parse\n");
 		ret = RRR_HTTP_PARSE_HARD_ERR;
 		goto out;
-- 
2.43.0


From 9962636bc699c55dab277b47005edb7577b6f2ad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:41:00 +0000
Subject: [PATCH 056/155] fix: HTTP field values starting with a NUL byte lost

---
 src/lib/http/http_fields.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/lib/http/http_fields.c b/src/lib/http/http_fields.c
index 09793ee..4c873b5 100644
--- a/src/lib/http/http_fields.c
+++ b/src/lib/http/http_fields.c
@@ -129,7 +129,7 @@ int rrr_http_field_value_set (
 ) {
 	int ret = 0;
 
-	if (value != NULL && *value != '\0' && value_length != 0) {
+	if (value != NULL && value_length != 0) {
 		if (rrr_nullsafe_str_new_or_replace_raw(&target->value, value, value_length) != 0) {
 			RRR_MSG_0("Could not allocate memory in rrr_http_field_set_value\n");
 			ret = 1;
-- 
2.43.0


From 10cb14fcf102a7ad85fa940ea978a1c631230d89 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:41:00 +0000
Subject: [PATCH 057/155] fix: HTTP multipart parts beyond the first 64 kB of
 the body refused

---
 src/lib/http/http_part_parse.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/lib/http/http_part_parse.c b/src/lib/http/http_part_parse.c
index 51de709..92ff7b0 100644
--- a/src/lib/http/http_part_parse.c
+++ b/src/lib/http/http_part_parse.c
@@ -624,9 +624,9 @@ int rrr_http_part_parse (
 		goto out;
 	}
 
-	if (start_pos + parsed_bytes_total - part->headroom_length> RRR_HTTP_PARSE_HEADER_LIMIT_KB * 1024) {
+	if (part->header_length > RRR_HTTP_PARSE_HEADER_LIMIT_KB * 1024) {
 		RRR_MSG_0("Received too long HTTP header (fixed limit) (%llu>%llu)\n",
-			(unsigned long long) start_pos + parsed_bytes_total - part->headroom_length,
+			(unsigned long long) part->header_length,
 			(unsigned long long) RRR_HTTP_PARSE_HEADER_LIMIT_KB * 1024
 		);
 		ret = RRR_HTTP_PARSE_SOFT_ERR;
-- 
2.43.0


From c046c13e78c9137e988bb53af1601f66cdc87079 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:44:05 +0000
Subject: [PATCH 058/155] fix: HTTP substring search giving partial matches and
 missing others

---
 src/lib/http/http_util.c | 33 +++++----------------------------
 1 file changed, 5 insertions(+), 28 deletions(-)

diff --git a/src/lib/http/http_util.c b/src/lib/http/http_util.c
index c8e5ee0..14a35a8 100644
--- a/src/lib/http/http_util.c
+++ b/src/lib/http/http_util.c
@@ -727,34 +727,11 @@ int rrr_http_util_strcasestr (
 		return 1;
 	}
 
-	const char *revert_position = NULL;
-
-	const char *needle_pos = needle;
-	for (const char *pos = start; pos < end; pos++) {
-		char a = (char) tolower(*pos);
-		char b = (char) tolower(*needle_pos);
-
-		if (a == b) {
-			needle_pos++;
-			len++;
-			if (revert_position == NULL) {
-				revert_position = pos + 1;
-			}
-			if (result == NULL) {
-				result = pos;
-			}
-			if (needle_pos == needle_end) {
-				break;
-			}
-		}
-		else {
-			if (revert_position != NULL) {
-				pos = revert_position;
-				revert_position = NULL;
-			}
-			needle_pos = needle;
-			result = NULL;
-			len = 0;
+	for (const char *pos = start; end - pos >= (rrr_slength) needle_len; pos++) {
+		if (rrr_posix_strncasecmp(pos, needle, needle_len) == 0) {
+			result = pos;
+			len = (rrr_length) needle_len;
+			break;
 		}
 	}
 
-- 
2.43.0


From 0541bdc763786adb7bd48cc5ff89b2fe18818ca8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:44:05 +0000
Subject: [PATCH 059/155] fix: wss URIs treated as unencrypted ws

---
 src/lib/http/http_util.c | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/lib/http/http_util.c b/src/lib/http/http_util.c
index 14a35a8..ab51c48 100644
--- a/src/lib/http/http_util.c
+++ b/src/lib/http/http_util.c
@@ -1122,16 +1122,16 @@ static int __rrr_http_util_uri_parse_callback (
 		}
 		else if (rrr_http_util_strcasestr(&new_pos, &result_len_tmp, pos, end, "://") == 0) {
 			ssize_t protocol_name_length = new_pos - pos;
-			if (protocol_name_length > 0 && rrr_posix_strncasecmp(pos, "https", 5) == 0) {
+			if (protocol_name_length == 5 && rrr_posix_strncasecmp(pos, "https", 5) == 0) {
 				uri_new->protocol = rrr_strdup("https");
 			}
-			else if (protocol_name_length > 0 && rrr_posix_strncasecmp(pos, "http", 4) == 0) {
+			else if (protocol_name_length == 4 && rrr_posix_strncasecmp(pos, "http", 4) == 0) {
 				uri_new->protocol = rrr_strdup("http");
 			}
-			else if (protocol_name_length > 0 && rrr_posix_strncasecmp(pos, "ws", 2) == 0) {
+			else if (protocol_name_length == 2 && rrr_posix_strncasecmp(pos, "ws", 2) == 0) {
 				uri_new->protocol = rrr_strdup("ws");
 			}
-			else if (protocol_name_length > 0 && rrr_posix_strncasecmp(pos, "wss", 3) == 0) {
+			else if (protocol_name_length == 3 && rrr_posix_strncasecmp(pos, "wss", 3) == 0) {
 				uri_new->protocol = rrr_strdup("wss");
 			}
 			else {
-- 
2.43.0


From 9379ca53bf169dc41f46097198def1cb51e6ab8b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:44:05 +0000
Subject: [PATCH 060/155] fix: relative URIs with :// in the query string
 refused

---
 src/lib/http/http_util.c | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/lib/http/http_util.c b/src/lib/http/http_util.c
index ab51c48..78a0740 100644
--- a/src/lib/http/http_util.c
+++ b/src/lib/http/http_util.c
@@ -1120,7 +1120,10 @@ static int __rrr_http_util_uri_parse_callback (
 		if (rrr_http_util_strcasestr(&new_pos, &result_len_tmp, pos, end, "//") == 0 && new_pos == pos) {
 			// OK, empty protocol
 		}
-		else if (rrr_http_util_strcasestr(&new_pos, &result_len_tmp, pos, end, "://") == 0) {
+		else if (rrr_http_util_strcasestr(&new_pos, &result_len_tmp, pos, end, "://") == 0 &&
+		         rrr_http_util_strchr(pos, new_pos, '/') == NULL &&
+		         rrr_http_util_strchr(pos, new_pos, '?') == NULL
+		) {
 			ssize_t protocol_name_length = new_pos - pos;
 			if (protocol_name_length == 5 && rrr_posix_strncasecmp(pos, "https", 5) == 0) {
 				uri_new->protocol = rrr_strdup("https");
-- 
2.43.0


From e9a34f3e1914d9e754519815b1cbd5c280c35ff2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:44:05 +0000
Subject: [PATCH 061/155] fix: URIs read beyond their end when ending after the
 hostname

---
 src/lib/http/http_util.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/lib/http/http_util.c b/src/lib/http/http_util.c
index 78a0740..3f0d335 100644
--- a/src/lib/http/http_util.c
+++ b/src/lib/http/http_util.c
@@ -997,7 +997,7 @@ static int __rrr_http_util_uri_parse_hostname_and_port (
 		uri_new->host[result_len_tmp] = '\0';
 	}
 
-	if (**pos == ':') {
+	if (*pos < end && **pos == ':') {
 		(*pos)++;
 		unsigned long long port = 0;
 		if (rrr_http_util_strtoull_raw(&port, &result_len_tmp, *pos, end, 10) != 0 || port < 1 || port > 65535) {
@@ -1011,7 +1011,7 @@ static int __rrr_http_util_uri_parse_hostname_and_port (
 		*pos += result_len_tmp;
 	}
 	else if (force_port) {
-		RRR_MSG_0("Invalid character x%02x after hostname in host:port URI\n", **pos);
+		RRR_MSG_0("Missing port after hostname in host:port URI\n");
 		ret = 1;
 		goto out;
 	}
-- 
2.43.0


From df6fd4923b9ded31117487739cb6baa2bce4b1d9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:44:05 +0000
Subject: [PATCH 062/155] fix: escaped backslashes in quoted HTTP header values

---
 src/lib/http/http_util.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/lib/http/http_util.c b/src/lib/http/http_util.c
index 3f0d335..b15f66a 100644
--- a/src/lib/http/http_util.c
+++ b/src/lib/http/http_util.c
@@ -410,8 +410,8 @@ static int __rrr_http_util_unquote_string_callback (
 				if (*start == '\\') {
 					if (start + 1 < end) {
 						unsigned char next = *(start + 1);
-						if (next == endquote) {
-							// Write only the quote character
+						if (next == endquote || next == '\\') {
+							// Write only the escaped character
 							start++;
 						}
 						else {
-- 
2.43.0


From ccc227f9135e5249af982cd66343b9f1770849a0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:45:37 +0000
Subject: [PATCH 063/155] fix: shared memory segment with identifier 0 left
 behind

---
 src/lib/mmap_channel.c | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/lib/mmap_channel.c b/src/lib/mmap_channel.c
index 54f970f..e6a7a46 100644
--- a/src/lib/mmap_channel.c
+++ b/src/lib/mmap_channel.c
@@ -244,6 +244,12 @@ static int __rrr_mmap_channel_allocate (
 					goto out;
 				}
 			}
+			else if (shmid == 0 && shmctl(shmid, IPC_RMID, NULL) != 0) {
+				// Identifier 0 is used to tell that no segment exists, try another one
+				RRR_MSG_0("shmctl IPC_RMID failed in %s: %s\n", __func__, rrr_strerror(errno));
+				ret = 1;
+				goto out;
+			}
 		} while (shmid <= 0);
 
 		block->shmid = shmid;
-- 
2.43.0


From b2b4564ac8118f4a5950ae2202e7d5c322dae3ee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:03:44 +0000
Subject: [PATCH 064/155] fix: data following a complete array was not
 processed until more arrived

---
 src/lib/socket/rrr_socket_client.c | 19 +++++++++++++++++++
 1 file changed, 19 insertions(+)

diff --git a/src/lib/socket/rrr_socket_client.c b/src/lib/socket/rrr_socket_client.c
index 8c1bcb1..2cf50a8 100644
--- a/src/lib/socket/rrr_socket_client.c
+++ b/src/lib/socket/rrr_socket_client.c
@@ -513,6 +513,17 @@ static void __rrr_socket_client_fd_notify_read (
 	assert(0 && "FD not found during notify read");
 }
 
+// Data already read from the FD which follows a complete message does
+// not cause any new read events, process it without waiting for more.
+static void __rrr_socket_client_fd_notify_read_if_overshoot (
+		struct rrr_socket_client *client,
+		int fd
+) {
+	if (rrr_read_session_collection_get_session_with_overshoot (&client->read_sessions) != NULL) {
+		__rrr_socket_client_fd_notify_read (client, fd);
+	}
+}
+
 static int __rrr_socket_client_collection_new (
 		struct rrr_socket_client_collection **target,
 		struct rrr_event_queue *queue,
@@ -1082,6 +1093,10 @@ static void __rrr_socket_client_event_read_raw (
 
 	PROCESS_SOFT_ERROR_PROPAGATION();
 
+	if (ret == RRR_READ_OK || ret == RRR_READ_INCOMPLETE) {
+		__rrr_socket_client_fd_notify_read_if_overshoot (client, fd);
+	}
+
 	__rrr_socket_client_return_value_process (
 			collection,
 			client,
@@ -1147,6 +1162,10 @@ static void __rrr_socket_client_event_read_array_tree (
 
 	PROCESS_SOFT_ERROR_PROPAGATION();
 
+	if (ret == RRR_READ_OK || ret == RRR_READ_INCOMPLETE) {
+		__rrr_socket_client_fd_notify_read_if_overshoot (client, fd);
+	}
+
 	__rrr_socket_client_return_value_process (
 		collection,
 		client,
-- 
2.43.0


From a0a0d0b0252bf70f13630eaf7abc9b805101434b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:05:15 +0000
Subject: [PATCH 065/155] fix: mangler deleted all values when only clearing
 tags

---
 src/modules/p_mangler.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/modules/p_mangler.c b/src/modules/p_mangler.c
index 08ead28..c4cfdc2 100644
--- a/src/modules/p_mangler.c
+++ b/src/modules/p_mangler.c
@@ -191,7 +191,7 @@ static int mangler_poll_callback (RRR_MODULE_POLL_CALLBACK_SIGNATURE) {
 
 	if ((ret = rrr_array_new_message_from_array (
 			&message_new,
-			&array_new,
+			RRR_LL_COUNT(&data->conversions_map) > 0 ? &array_new : &array_from_message,
 			rrr_time_get_64(),
 			data->topic != NULL
 				? data->topic
-- 
2.43.0


From cae3b92653104cc5312078aaa4b197d3cd53d799 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:12:23 +0000
Subject: [PATCH 066/155] fix: slow shutdown and thread cancellation when
 writing to full slot

---
 src/lib/message_holder/message_holder_slot.c | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/src/lib/message_holder/message_holder_slot.c b/src/lib/message_holder/message_holder_slot.c
index 95dea3d..d422f4b 100644
--- a/src/lib/message_holder/message_holder_slot.c
+++ b/src/lib/message_holder/message_holder_slot.c
@@ -349,6 +349,12 @@ static int __rrr_msg_holder_slot_write_wait (
 	int ret = 0;
 
 	while (slot->entry != NULL) {
+		// Check prior to waiting, the reader might be gone already when we are asked
+		// to stop and each write which is attempted would then wait for the full timeout.
+		if (check_cancel_callback != NULL && (ret = check_cancel_callback(check_cancel_callback_arg)) != 0) {
+			goto out;
+		}
+
 		struct timespec wakeup_time;
 		rrr_time_gettimeofday_timespec(&wakeup_time, 500 * 1000); /* 500 ms */
 		if ((ret = pthread_cond_timedwait(&slot->cond, &slot->lock, &wakeup_time)) != 0) {
@@ -359,9 +365,6 @@ static int __rrr_msg_holder_slot_write_wait (
 			}
 			ret = 0;
 		}
-		if (check_cancel_callback != NULL && (ret = check_cancel_callback(check_cancel_callback_arg)) != 0) {
-			goto out;
-		}
 	}
 
 	out:
-- 
2.43.0


From 5a6bd01bb8e7ce476e697e8835d821761ebb2647 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:12:46 +0000
Subject: [PATCH 067/155] fix: use after free in readers when sender with
 duplicate output has exited

---
 src/lib/message_broker.c | 14 +++++++++++---
 1 file changed, 11 insertions(+), 3 deletions(-)

diff --git a/src/lib/message_broker.c b/src/lib/message_broker.c
index ffd3ff4..6171489 100644
--- a/src/lib/message_broker.c
+++ b/src/lib/message_broker.c
@@ -1108,6 +1108,7 @@ struct rrr_message_broker_clone_and_write_entry_callback_data {
 	struct rrr_message_broker_costumer *costumer;
 	const struct rrr_msg_holder *source;
 	const rrr_msg_holder_nexthops *nexthops;
+	int do_pre_buffer_hook;
 };
 
 static int __rrr_message_broker_clone_and_write_entry_callback (RRR_FIFO_PROTECTED_WRITE_CALLBACK_ARGS) {
@@ -1125,7 +1126,9 @@ static int __rrr_message_broker_clone_and_write_entry_callback (RRR_FIFO_PROTECT
 
 	rrr_msg_holder_lock(target);
 	ret |= __rrr_message_broker_entry_prepare(callback_data->costumer, target, callback_data->nexthops);
-	ret |= __rrr_message_broker_pre_buffer_hook(callback_data->costumer, target);
+	if (callback_data->do_pre_buffer_hook) {
+		ret |= __rrr_message_broker_pre_buffer_hook(callback_data->costumer, target);
+	}
 	rrr_msg_holder_unlock(target);
 
 	if (ret != 0) {
@@ -1196,7 +1199,8 @@ int rrr_message_broker_clone_and_write_entry (
 		struct rrr_message_broker_clone_and_write_entry_callback_data callback_data = {
 			costumer,
 			entry,
-			nexthops
+			nexthops,
+			1 // Do pre buffer hook
 		};
 
 		if (rrr_fifo_protected_write (
@@ -1546,7 +1550,11 @@ static int __rrr_message_broker_split_buffers_fill_callback (RRR_FIFO_PROTECTED_
 		struct rrr_message_broker_clone_and_write_entry_callback_data callback_data = {
 			costumer,
 			entry,
-			&entry->nexthops
+			&entry->nexthops,
+			// The hook was run by the thread of the costumer when the entry was written
+			// to the main queue. We are now in the thread of a reader, and the argument to
+			// the hook belongs to the other thread which might even have exited.
+			0
 		};
 
 		// Use delayed write in case there are other threads reading from their buffer
-- 
2.43.0


From 3b6f843cfd1b0db9e98173922f9b2f21c2f626ae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:20:51 +0000
Subject: [PATCH 068/155] fix: deadlock when instance with buffer=no was read
 by both an instance and its reader

---
 src/lib/message_holder/message_holder_slot.c | 38 ++++++++++++++++----
 1 file changed, 31 insertions(+), 7 deletions(-)

diff --git a/src/lib/message_holder/message_holder_slot.c b/src/lib/message_holder/message_holder_slot.c
index d422f4b..afe0f30 100644
--- a/src/lib/message_holder/message_holder_slot.c
+++ b/src/lib/message_holder/message_holder_slot.c
@@ -49,6 +49,9 @@ struct rrr_msg_holder_slot {
 	const void **readers;
 	uint8_t *reader_has_read;
 
+	// Readers currently processing the entry
+	rrr_length reader_active_count;
+
 	uint64_t total_entries_deleted;
 	uint64_t total_entries_written;
 };
@@ -221,7 +224,10 @@ int rrr_msg_holder_slot_is_readable (
 
 	rrr_slength self_index = __rrr_msg_holder_slot_reader_index_get_unlocked(slot, self);
 
-	ret = self_index < 0 || !slot->reader_has_read[self_index];
+	ret = self_index < 0
+		? slot->reader_active_count == 0
+		: !slot->reader_has_read[self_index]
+	;
 
 	out:
 	pthread_mutex_unlock(&slot->lock);
@@ -245,7 +251,8 @@ int rrr_msg_holder_slot_read (
 	}
 
 	rrr_slength self_index = __rrr_msg_holder_slot_reader_index_get_unlocked(slot, self);
-	if (self_index >= 0 && slot->reader_has_read[self_index]) {
+	if (self_index >= 0 ? slot->reader_has_read[self_index] : slot->reader_active_count > 0) {
+		// Already read by us or being processed by somebody else
 		goto out;
 	}
 
@@ -265,20 +272,37 @@ int rrr_msg_holder_slot_read (
 
 	int do_keep = 0;
 
+	if (self_index >= 0) {
+		slot->reader_has_read[self_index] = 1;
+	}
+	slot->reader_active_count++;
+
 	{
+		// Don't hold lock while in callback, it might block while writing to another
+		// slot and the reader of that slot might be a reader of this slot as well. The
+		// entry remains in the slot and nobody will replace it.
+		pthread_mutex_unlock(&slot->lock);
+
 		// Callback must unlock entry
 		ret = callback(&do_keep, entry_new, callback_arg);
 
-		if (ret != 0) {
-			goto out_decref_and_unlock;
-		}
+		pthread_mutex_lock(&slot->lock);
+	}
+
+	slot->reader_active_count--;
+
+	if (self_index >= 0 && (ret != 0 || do_keep)) {
+		slot->reader_has_read[self_index] = 0;
+	}
+
+	if (ret != 0) {
+		goto out_decref_and_unlock;
 	}
 
 	if (!do_keep) {
 		rrr_length done_count = 0;
 
 		if (self_index >= 0) {
-			slot->reader_has_read[self_index] = 1;
 			for (rrr_length i = 0; i < slot->reader_count; i++) {
 				if (slot->reader_has_read[i]) {
 					done_count++;
@@ -286,7 +310,7 @@ int rrr_msg_holder_slot_read (
 			}
 		}
 
-		if (done_count >= slot->reader_count) {
+		if (done_count >= slot->reader_count && slot->reader_active_count == 0) {
 			slot->total_entries_deleted++;
 			rrr_msg_holder_decref(slot->entry);
 			slot->entry = NULL;
-- 
2.43.0


From 4d75a4dcb1df832cb3d8d2439231ac0c5f4e3b0f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:23:28 +0000
Subject: [PATCH 069/155] fix: blob conversion of empty string produced invalid
 value and stopped mangler

---
 src/lib/type_conversion.c | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/lib/type_conversion.c b/src/lib/type_conversion.c
index 85c6c51..cf80db9 100644
--- a/src/lib/type_conversion.c
+++ b/src/lib/type_conversion.c
@@ -230,6 +230,11 @@ static int __rrr_type_convert_blob2str (RRR_TYPE_CONVERT_ARGS) {
 
 static int __rrr_type_convert_blob2blob (RRR_TYPE_CONVERT_ARGS) {
 	TYPE_BLOB_ENSURE();
+	if (source->total_stored_length == 0) {
+		// May occur for string types, and a blob can't be empty
+		RRR_DBG_3("  E blob2blob not possible for empty value\n");
+		return RRR_TYPE_CONVERSION_NOT_POSSIBLE;
+	}
 	return __rrr_type_convert_clone_set_new_definition_with_data(target, source, &rrr_type_definition_blob);
 }
 
-- 
2.43.0


From 78b704c23d477596243e55304a7c6028d91a4be0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:24:05 +0000
Subject: [PATCH 070/155] fix: malformed array messages stopped the instances
 receiving them

---
 src/lib/discern_stack_helper.c | 8 +++++---
 src/modules/d_raw.c            | 3 +--
 src/modules/p_averager.c       | 3 +--
 src/modules/p_exploder.c       | 4 ++--
 src/modules/p_file.c           | 4 ++--
 src/modules/p_ip.c             | 3 +--
 src/modules/p_mangler.c        | 6 +++---
 src/modules/p_mqttclient.c     | 3 ++-
 8 files changed, 17 insertions(+), 17 deletions(-)

diff --git a/src/lib/discern_stack_helper.c b/src/lib/discern_stack_helper.c
index 9aad697..78353d1 100644
--- a/src/lib/discern_stack_helper.c
+++ b/src/lib/discern_stack_helper.c
@@ -72,12 +72,14 @@ int rrr_discern_stack_helper_array_tag_resolve_cb (RRR_DISCERN_STACK_RESOLVE_ARR
 	}
 
 	uint16_t version;
-	if ((ret = rrr_array_message_append_to_array (
+	if (rrr_array_message_append_to_array (
 			&version,
 			&array,
 			callback_data->msg
-	)) != 0) {
-		goto out;
+	) != 0) {
+		RRR_MSG_0("Warning: Failed to extract array from message while checking for array tag %s\n", tag);
+		*result = 0;
+		goto not_array;
 	}
 
 	if (!callback_data->index_produced) {
diff --git a/src/modules/d_raw.c b/src/modules/d_raw.c
index 67bbf95..61b4141 100644
--- a/src/modules/d_raw.c
+++ b/src/modules/d_raw.c
@@ -77,9 +77,8 @@ int raw_poll_callback (RRR_MODULE_POLL_CALLBACK_SIGNATURE) {
 		if (MSG_IS_ARRAY(reading)) {
 			uint16_t array_version_dummy;
 			if (rrr_array_message_append_to_array(&array_version_dummy, &array_tmp, reading) != 0) {
-				RRR_MSG_0("Could not get array from message in raw_poll_callback of raw instance %s\n",
+				RRR_MSG_0("Could not get array from message in raw_poll_callback of raw instance %s, dropping it\n",
 						INSTANCE_D_NAME(thread_data));
-				ret = 1;
 				goto out;
 			}
 			if (rrr_array_dump(&array_tmp) != 0) {
diff --git a/src/modules/p_averager.c b/src/modules/p_averager.c
index 582f2f6..586d15c 100644
--- a/src/modules/p_averager.c
+++ b/src/modules/p_averager.c
@@ -219,9 +219,8 @@ static int averager_process_message (
 
 	uint16_t array_version_dummy;
 	if (rrr_array_message_append_to_array(&array_version_dummy, &array_tmp, message) != 0) {
-		RRR_MSG_0("Could not create array in averager_callback of instance %s\n",
+		RRR_MSG_0("Could not create array in averager_callback of instance %s, dropping message\n",
 				INSTANCE_D_NAME(averager_data->thread_data));
-		ret = 1;
 		goto out;
 	}
 
diff --git a/src/modules/p_exploder.c b/src/modules/p_exploder.c
index b0033e0..051a4ec 100644
--- a/src/modules/p_exploder.c
+++ b/src/modules/p_exploder.c
@@ -188,8 +188,8 @@ static int exploder_poll_callback (RRR_MODULE_POLL_CALLBACK_SIGNATURE) {
 	}
 
 	uint16_t array_version_dummy;
-	if ((ret = rrr_array_message_append_to_array(&array_version_dummy, &array_tmp, message)) != 0) {
-		RRR_MSG_0("Failed to get array values from message in exploder instance %s\n",
+	if (rrr_array_message_append_to_array(&array_version_dummy, &array_tmp, message) != 0) {
+		RRR_MSG_0("Failed to get array values from message in exploder instance %s, dropping it\n",
 				INSTANCE_D_NAME(thread_data));
 		goto out_drop;
 	}
diff --git a/src/modules/p_file.c b/src/modules/p_file.c
index 2ab2f53..90a077a 100644
--- a/src/modules/p_file.c
+++ b/src/modules/p_file.c
@@ -1888,8 +1888,8 @@ static int file_send_push_array_values (
 	}
 
 	uint16_t version;
-	if ((ret = rrr_array_message_append_to_array (&version, &array, msg)) != 0) {
-		RRR_MSG_0("Failed to extract array from message in %s\n", __func__);
+	if (rrr_array_message_append_to_array (&version, &array, msg) != 0) {
+		RRR_MSG_0("Failed to extract array from message in file instance %s, dropping it\n", INSTANCE_D_NAME(data->thread_data));
 		goto out;
 	}
 
diff --git a/src/modules/p_ip.c b/src/modules/p_ip.c
index b003970..b667c95 100644
--- a/src/modules/p_ip.c
+++ b/src/modules/p_ip.c
@@ -1198,8 +1198,7 @@ static int ip_push_message (
 
 		uint16_t array_version_dummy;
 		if (rrr_array_message_append_to_array(&array_version_dummy, &array_tmp, message) != 0) {
-			RRR_MSG_0("Could not convert array message to collection in ip instance %s\n", INSTANCE_D_NAME(thread_data));
-			ret = RRR_SOCKET_HARD_ERROR;
+			RRR_MSG_0("Could not convert array message to collection in ip instance %s, dropping it\n", INSTANCE_D_NAME(thread_data));
 			goto out;
 		}
 
diff --git a/src/modules/p_mangler.c b/src/modules/p_mangler.c
index c4cfdc2..6529b10 100644
--- a/src/modules/p_mangler.c
+++ b/src/modules/p_mangler.c
@@ -144,12 +144,12 @@ static int mangler_poll_callback (RRR_MODULE_POLL_CALLBACK_SIGNATURE) {
 	}
 
 	uint16_t array_version_dummy;
-	if ((ret = rrr_array_message_append_to_array (
+	if (rrr_array_message_append_to_array (
 			&array_version_dummy,
 			&array_from_message,
 			(const struct rrr_msg_msg *) entry->message
-	)) != 0) {
-		RRR_MSG_0("Failed to get array values from message in mangler instance %s\n",
+	) != 0) {
+		RRR_MSG_0("Failed to get array values from message in mangler instance %s, dropping it\n",
 				INSTANCE_D_NAME(thread_data));
 		goto out_drop;
 	}
diff --git a/src/modules/p_mqttclient.c b/src/modules/p_mqttclient.c
index 4b1102e..efa2ffa 100644
--- a/src/modules/p_mqttclient.c
+++ b/src/modules/p_mqttclient.c
@@ -812,7 +812,8 @@ static int mqttclient_process_command (
 	}
 
 	uint16_t array_version_dummy;
-	if ((ret = rrr_array_message_append_to_array (&array_version_dummy, &array, reading)) != 0) {
+	if (rrr_array_message_append_to_array (&array_version_dummy, &array, reading) != 0) {
+		RRR_MSG_0("Warning: Failed to extract array from command message in mqtt client instance %s.\n", INSTANCE_D_NAME(data->thread_data));
 		goto out;
 	}
 
-- 
2.43.0


From 91219bf9f535de1c29d23d4488334aadaaf74644 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:24:15 +0000
Subject: [PATCH 071/155] fix: malformed array messages were taken to have any
 tag

---
 src/lib/array.c | 23 +++++++++++++++++++----
 1 file changed, 19 insertions(+), 4 deletions(-)

diff --git a/src/lib/array.c b/src/lib/array.c
index 6b97119..df8e664 100644
--- a/src/lib/array.c
+++ b/src/lib/array.c
@@ -1282,11 +1282,17 @@ int rrr_array_message_iterate_values (
 #define RRR_ARRAY_MESSAGE_ITERATE_RAW_CALLBACK_HAS_TAG() \
 	(strlen(tag) == tag_length && memcmp(data_start, tag, tag_length) == 0)
 
+struct rrr_array_message_has_tag_callback_data {
+	const char *tag;
+	int found;
+};
+
 static int __rrr_array_message_has_tag_callback (
 		RRR_TYPE_RAW_FIELDS,
 		void *arg
 ) {
-	const char *tag = arg;
+	struct rrr_array_message_has_tag_callback_data *callback_data = arg;
+	const char *tag = callback_data->tag;
 
 	(void)(type);
 	(void)(flags);
@@ -1294,7 +1300,8 @@ static int __rrr_array_message_has_tag_callback (
 	(void)(element_count);
 
 	if (RRR_ARRAY_MESSAGE_ITERATE_RAW_CALLBACK_HAS_TAG()) {
-		// Iterator will break out and return 1 if the tag is found
+		// Make the iterator break out if the tag is found
+		callback_data->found = 1;
 		return 1;
 	}
 
@@ -1309,11 +1316,19 @@ int rrr_array_message_has_tag (
 		return 0;
 	}
 
-	return rrr_array_message_iterate (
+	struct rrr_array_message_has_tag_callback_data callback_data = {
+			tag,
+			0
+	};
+
+	// Errors caused by malformed messages must not be mistaken for the tag being present
+	rrr_array_message_iterate (
 			message_orig,
 			__rrr_array_message_has_tag_callback,
-			(void *) tag // Cast away const OK
+			&callback_data
 	);
+
+	return callback_data.found;
 }
 
 struct rrr_array_message_clone_value_by_tag_callback_data {
-- 
2.43.0


From ccf6ebf9ce3fb45a04d2024b0e34ba61c67ae5ad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:27:51 +0000
Subject: [PATCH 072/155] fix: log messages lost when contention was mistaken
 for re-entry

---
 src/lib/log.c | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/lib/log.c b/src/lib/log.c
index da4b223..a0678e1 100644
--- a/src/lib/log.c
+++ b/src/lib/log.c
@@ -133,11 +133,14 @@ int rrr_log_init(void) {
 
 static void __rrr_log_printf_unlock_void (void *arg) {
 	(void)(arg);
+	// A holder left behind would make contention look like re-entry
+	rrr_log_lock_holder = (pthread_t) 0;
 	pthread_mutex_unlock (&rrr_log_lock);
 }
 
 static void __rrr_log_hook_unlock_void (void *arg) {
 	(void)(arg);
+	rrr_log_hook_lock_holder = (pthread_t) 0;
 	pthread_mutex_unlock (&rrr_log_hook_lock);
 }
 
-- 
2.43.0


From adb62968d906373d3d74e853f6a8903d68f78ff6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:43:19 +0000
Subject: [PATCH 073/155] fix: MQTT ID pool shifted into the sign bit of an int

---
 src/lib/mqtt/mqtt_id_pool.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/lib/mqtt/mqtt_id_pool.c b/src/lib/mqtt/mqtt_id_pool.c
index ce87a41..2a93fc8 100644
--- a/src/lib/mqtt/mqtt_id_pool.c
+++ b/src/lib/mqtt/mqtt_id_pool.c
@@ -82,7 +82,7 @@ static inline uint16_t __rrr_mqtt_id_pool_get_id_32 (uint32_t *source) {
 	uint32_t tmp = *source;
 	for (uint16_t i = 0; i < 32; i++) {
 		if ((tmp & 1) == 0) {
-			*source |= (uint32_t) (1 << i);
+			*source |= ((uint32_t) 1 << i);
 			return (uint16_t) (i + 1);
 		}
 		tmp >>= 1;
@@ -96,7 +96,7 @@ static inline uint16_t __rrr_mqtt_id_pool_get_id_32 (uint32_t *source) {
 #define MIN_MAJ_MASK(id)                                                \
 		uint32_t min = (uint32_t) ((id - 1) % 32);              \
 		rrr_length maj = (rrr_length) ((rrr_length) ((rrr_slength) id - 1 - min) / 32);    \
-		uint32_t mask = (uint32_t) (1 << min)
+		uint32_t mask = ((uint32_t) 1 << min)
 
 uint16_t rrr_mqtt_id_pool_get_id (struct rrr_mqtt_id_pool *pool) {
 	uint16_t ret = 0; // = no id available
-- 
2.43.0


From 1307642cb42672d03a07c494b664b240eed94724 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:43:19 +0000
Subject: [PATCH 074/155] fix: MQTT broker did not send the CONNACK of a
 refused CONNECT

---
 src/lib/mqtt/mqtt_connection.c | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/lib/mqtt/mqtt_connection.c b/src/lib/mqtt/mqtt_connection.c
index 2427520..d83aae4 100644
--- a/src/lib/mqtt/mqtt_connection.c
+++ b/src/lib/mqtt/mqtt_connection.c
@@ -327,6 +327,11 @@ static void __rrr_mqtt_conn_timeouts_check (
 	*keepalive_reached = 0;
 	*keepalive_exceeded = 0;
 
+	// Keep-alive is not in effect until a successful CONNECT, and never if set to 0
+	if (connection->keep_alive == 0) {
+		return;
+	}
+
 	uint64_t limit_ping = connection->keep_alive;
 	uint64_t limit = (uint64_t) ((double) connection->keep_alive * 1.5);
 
-- 
2.43.0


From b4bef7439828371c247f13ce0caf519e2eb23538 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:43:19 +0000
Subject: [PATCH 075/155] fix: MQTT broker accepted the reserved client ID
 prefix from any client

---
 src/lib/mqtt/mqtt_broker.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/lib/mqtt/mqtt_broker.c b/src/lib/mqtt/mqtt_broker.c
index f558227..aec3cd1 100644
--- a/src/lib/mqtt/mqtt_broker.c
+++ b/src/lib/mqtt/mqtt_broker.c
@@ -478,7 +478,7 @@ static int __rrr_mqtt_broker_handle_connect_check_client_identifier (
 				ret = RRR_MQTT_SESSION_INTERNAL_ERROR;
 				goto out;
 			}
-			if (session == NULL) {
+			if (*session == NULL) {
 				RRR_DBG_2("Client ID cannot begin with '" RRR_MQTT_BROKER_CLIENT_PREFIX "' unless a session with such name already exists\n");
 				*reason_v5 = RRR_MQTT_P_5_REASON_CLIENT_ID_REJECTED;
 				goto out;
-- 
2.43.0


From 719521548648e6ae8018fcc2925cb4e7115e4574 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:43:19 +0000
Subject: [PATCH 076/155] fix: MQTT V3.1 clean sessions remained in the broker
 after disconnect

---
 src/lib/mqtt/mqtt_broker.c | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/lib/mqtt/mqtt_broker.c b/src/lib/mqtt/mqtt_broker.c
index aec3cd1..b0a9917 100644
--- a/src/lib/mqtt/mqtt_broker.c
+++ b/src/lib/mqtt/mqtt_broker.c
@@ -576,9 +576,9 @@ static int _rrr_mqtt_broker_handle_connect_session_init (
 	struct rrr_mqtt_session_properties session_properties = rrr_mqtt_common_default_session_properties;
 
 	if (!RRR_MQTT_P_IS_V5(connect)) {
-		// Default for version 3.1 is that sessions do not expire,
-		// only use clean session to control this
-		session_properties.numbers.session_expiry = 0xffffffff;
+		// For version 3.1, only clean session is used to control expiry. A
+		// clean session ends with the connection, other sessions do not expire.
+		session_properties.numbers.session_expiry = RRR_MQTT_P_CONNECT_GET_FLAG_CLEAN_START(connect) ? 0 : 0xffffffff;
 	}
 
 	struct rrr_mqtt_common_parse_properties_data_connect callback_data = {
-- 
2.43.0


From 8858ccb93593d3e1a6c73863523fdd900300a4dc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:43:19 +0000
Subject: [PATCH 077/155] fix: MQTT sessions without expiry were deleted
 shortly after disconnect

---
 src/lib/mqtt/mqtt_session_ram.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/lib/mqtt/mqtt_session_ram.c b/src/lib/mqtt/mqtt_session_ram.c
index ade8871..ed38ae3 100644
--- a/src/lib/mqtt/mqtt_session_ram.c
+++ b/src/lib/mqtt/mqtt_session_ram.c
@@ -2795,7 +2795,7 @@ static int __rrr_mqtt_session_ram_notify_disconnect (
 	}
 	else {
 		if (ram_session->session_properties.numbers.session_expiry == 0xffffffff) { // 8 f's
-			ram_session->expire_time = 0; // Never
+			ram_session->expire_time = UINT64_MAX; // Never
 		}
 		else if (ram_session->session_properties.numbers.session_expiry == 0) {
 			ram_session->expire_time = rrr_time_get_64(); // Now
-- 
2.43.0


From 8c8739fd9abb856093054a263c8c4e7f1a2ad149 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:43:19 +0000
Subject: [PATCH 078/155] fix: MQTT session deleted upon reconnect when offline
 for longer than the heartbeat timeout

---
 src/lib/mqtt/mqtt_session_ram.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/lib/mqtt/mqtt_session_ram.c b/src/lib/mqtt/mqtt_session_ram.c
index ed38ae3..6a6c41d 100644
--- a/src/lib/mqtt/mqtt_session_ram.c
+++ b/src/lib/mqtt/mqtt_session_ram.c
@@ -1361,6 +1361,7 @@ static int __rrr_mqtt_session_ram_init (
 	ram_session->retry_interval_usec = retry_interval_usec;
 	ram_session->max_in_flight = max_in_flight;
 	ram_session->expire_time = 0;
+	ram_session->heartbeat_time = rrr_time_get_64(); // Old if the session has been offline
 	ram_session->complete_publish_grace_time_s = complete_publish_grace_time_s;
 
 	if (clean_session) {
-- 
2.43.0


From e8c7313631c37d8d319337b49b7233ec777be1d1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:43:19 +0000
Subject: [PATCH 079/155] fix: MQTT will delay interval overflow

---
 src/lib/mqtt/mqtt_session_ram.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/lib/mqtt/mqtt_session_ram.c b/src/lib/mqtt/mqtt_session_ram.c
index 6a6c41d..62a8230 100644
--- a/src/lib/mqtt/mqtt_session_ram.c
+++ b/src/lib/mqtt/mqtt_session_ram.c
@@ -1015,7 +1015,7 @@ static int __rrr_mqtt_session_ram_will_publish_notify_disconnect (
 	}
 
 	// Initialize. Delay interval is stored in seconds, multiply by 10^6.
-	ram_session->will_publish->planned_expiry_time = rrr_time_get_64() + (ram_session->will_publish->will_delay_interval * 1000 * 1000);
+	ram_session->will_publish->planned_expiry_time = rrr_time_get_64() + ((uint64_t) ram_session->will_publish->will_delay_interval * 1000 * 1000);
 
 	// Clear any WILL message unless explicitly told by client to publish it.
 	// In version 3.1, the will PUBLISH is always cleared (reason_v5 will
-- 
2.43.0


From b36b8359b25a0dac834f8a9d06b45870f02005a4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:44:22 +0000
Subject: [PATCH 080/155] fix: MQTT broker delivered messages of the previous
 session upon clean start

---
 src/lib/mqtt/mqtt_session_ram.c | 19 +++++++++++++++++--
 1 file changed, 17 insertions(+), 2 deletions(-)

diff --git a/src/lib/mqtt/mqtt_session_ram.c b/src/lib/mqtt/mqtt_session_ram.c
index 62a8230..4bd70e3 100644
--- a/src/lib/mqtt/mqtt_session_ram.c
+++ b/src/lib/mqtt/mqtt_session_ram.c
@@ -97,6 +97,10 @@ struct rrr_mqtt_session_collection_ram_data {
 	// Checks and modifications to perform before transmitting publish (broker handles expiry)
 	int (*pretransmit_method)(RRR_MQTT_SESSION_RAM_PRETRANSMIT_METHOD_ARGS);
 
+	// Keep outbound PUBLISH packets when a session is cleaned. Client does this
+	// to not lose its own messages, a new session in the broker must be empty.
+	int preserve_publish_on_clean;
+
 	// Packets in this queue are retained and will be published upon new subscriptions matching
 	// topics.
 	struct rrr_mqtt_p_queue retain_buffer;
@@ -1222,7 +1226,8 @@ static int __rrr_mqtt_session_ram_clean_preserve_publish_and_release_id_callback
 
 	// We need to check for all possible complete states, just like when housekeeping
 	// the queue. Complete packets are not preserved.
-	if (	RRR_MQTT_P_GET_TYPE(packet) == RRR_MQTT_P_TYPE_PUBLISH &&
+	if (	preserve_callback_data->ram_session->ram_data->preserve_publish_on_clean &&
+			RRR_MQTT_P_GET_TYPE(packet) == RRR_MQTT_P_TYPE_PUBLISH &&
 			packet->planned_expiry_time == 0 &&
 			(
 					(RRR_MQTT_P_PUBLISH_GET_FLAG_QOS(publish) == 1 && publish->qos_packets.puback == NULL) ||
@@ -1289,7 +1294,7 @@ static int __rrr_mqtt_session_ram_clean_final (struct rrr_mqtt_session_ram *ram_
 		0
 	};
 
-	// We preserve the outbound PUBLISH packets
+	// In the client, we preserve the outbound PUBLISH packets
 	// by re-queing them after the list is emptied (QOS0 are deleted, QOS1-2 are preserved).
 	rrr_fifo_clear_with_callback (
 			&ram_session->to_remote_buffer.buffer,
@@ -1316,6 +1321,12 @@ static int __rrr_mqtt_session_ram_clean_final (struct rrr_mqtt_session_ram *ram_
 		goto out;
 	}
 
+	rrr_fifo_clear_with_callback (
+			&ram_session->to_remote_delayed_buffer.buffer,
+			__rrr_mqtt_session_ram_packet_id_release_callback,
+			NULL
+	);
+
 	rrr_fifo_clear_with_callback (
 			&ram_session->from_remote_buffer.buffer,
 			__rrr_mqtt_session_ram_packet_id_release_callback,
@@ -3180,6 +3191,7 @@ static int __rrr_mqtt_session_collection_ram_new (
 		struct rrr_mqtt_session_collection **sessions,
 		int (*delivery_method)(RRR_MQTT_SESSION_RAM_DELIVERY_METHOD_ARGS),
 		int (*pretransmit_method)(RRR_MQTT_SESSION_RAM_PRETRANSMIT_METHOD_ARGS),
+		int preserve_publish_on_clean,
 		void *arg
 ) {
 	int ret = 0;
@@ -3211,6 +3223,7 @@ static int __rrr_mqtt_session_collection_ram_new (
 
 	ram_data->delivery_method = delivery_method;
 	ram_data->pretransmit_method = pretransmit_method;
+	ram_data->preserve_publish_on_clean = preserve_publish_on_clean;
 
 	*sessions = (struct rrr_mqtt_session_collection *) ram_data;
 
@@ -3230,6 +3243,7 @@ int rrr_mqtt_session_collection_ram_new_broker (struct rrr_mqtt_session_collecti
 			sessions,
 			__rrr_mqtt_session_ram_delivery_forward,
 			__rrr_mqtt_session_ram_pretransmit_forward,
+			0, // Don't preserve PUBLISH on clean
 			arg
 	);
 }
@@ -3239,6 +3253,7 @@ int rrr_mqtt_session_collection_ram_new_client (struct rrr_mqtt_session_collecti
 			sessions,
 			__rrr_mqtt_session_ram_delivery_local,
 			__rrr_mqtt_session_ram_pretransmit_local,
+			1, // Preserve PUBLISH on clean
 			arg
 	);
 }
-- 
2.43.0


From 5093efc4348bfa3039fd3dfd8923ffcae795d2fb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:45:14 +0000
Subject: [PATCH 081/155] fix: MQTT broker lost the will of a client whose
 session was taken over

---
 src/lib/mqtt/mqtt_broker.c      | 61 ++++++++++++++++++++-------------
 src/lib/mqtt/mqtt_session_ram.c | 27 ++++++++-------
 2 files changed, 52 insertions(+), 36 deletions(-)

diff --git a/src/lib/mqtt/mqtt_broker.c b/src/lib/mqtt/mqtt_broker.c
index b0a9917..7d62ec9 100644
--- a/src/lib/mqtt/mqtt_broker.c
+++ b/src/lib/mqtt/mqtt_broker.c
@@ -140,9 +140,13 @@ static int __rrr_mqtt_broker_check_unique_client_id_callback (struct rrr_net_tra
 
 	RRR_MQTT_CONN_SET_DISCONNECT_REASON_IF_ZERO(connection, RRR_MQTT_P_5_REASON_SESSION_TAKEN_OVER);
 
+	if (connection->protocol_version == NULL || connection->protocol_version->id < RRR_MQTT_VERSION_5) {
+		// DISCONNECT is only sent by clients in V3.1, just close the connection
+		connection->state_flags = RRR_MQTT_CONN_STATE_CLOSE_WAIT;
+	}
 	// On soft error, we cannot be sure that the existing client was actually
 	// disconnected, and we must disallow the new connection
-	if ((ret = rrr_mqtt_conn_iterator_ctx_send_disconnect(handle)) != 0) {
+	else if ((ret = rrr_mqtt_conn_iterator_ctx_send_disconnect(handle)) != 0) {
 		if (ret & RRR_MQTT_SOFT_ERROR) {
 			RRR_MSG_0("Soft error while disconnecting existing client in %s\n", __func__);
 		}
@@ -717,18 +721,39 @@ static int __rrr_mqtt_broker_handle_connect (RRR_MQTT_TYPE_HANDLER_DEFINITION) {
 		);
 	}
 
-	if (session == NULL) {
-		if ((ret = mqtt_data->sessions->methods->get_session (
-				&session,
-				mqtt_data->sessions,
-				connection->client_id,
-				&session_was_present,
-				0 // Create if non-existent client ID
-		)) != RRR_MQTT_SESSION_OK || session == NULL) {
-			RRR_MSG_0("Error while getting session in %s return was %i\n", __func__, ret);
-			ret = RRR_MQTT_INTERNAL_ERROR;
-			goto out;
-		}
+	if ((ret = mqtt_data->sessions->methods->get_session (
+			&session,
+			mqtt_data->sessions,
+			connection->client_id,
+			&session_was_present,
+			1 // No creation if non-existent client ID
+	)) != RRR_MQTT_SESSION_OK) {
+		RRR_MSG_0("Error while getting session in %s return was %i\n", __func__, ret);
+		ret = RRR_MQTT_INTERNAL_ERROR;
+		goto out;
+	}
+
+	// Complete disconnection of and remove session from any old connections not
+	// yet destroyed. The session is possibly deleted or its will published.
+	if (session != NULL && rrr_mqtt_common_clear_session_from_connections (
+			&data->mqtt_data,
+			session,
+			RRR_NET_TRANSPORT_CTX_HANDLE(handle)
+	) != 0) {
+		RRR_MSG_0("Could not clear session from other connections in %s\n", __func__);
+		goto out;
+	}
+
+	if ((ret = mqtt_data->sessions->methods->get_session (
+			&session,
+			mqtt_data->sessions,
+			connection->client_id,
+			&session_was_present,
+			0 // Create if non-existent client ID
+	)) != RRR_MQTT_SESSION_OK || session == NULL) {
+		RRR_MSG_0("Error while getting session in %s return was %i\n", __func__, ret);
+		ret = RRR_MQTT_INTERNAL_ERROR;
+		goto out;
 	}
 
 	if ((ret = _rrr_mqtt_broker_handle_connect_session_init (
@@ -743,16 +768,6 @@ static int __rrr_mqtt_broker_handle_connect (RRR_MQTT_TYPE_HANDLER_DEFINITION) {
 		goto out_send_connack;
 	}
 
-	// Remove session from any old connections not yet destroyed
-	if (rrr_mqtt_common_clear_session_from_connections (
-			&data->mqtt_data,
-			session,
-			RRR_NET_TRANSPORT_CTX_HANDLE(handle)
-	) != 0) {
-		RRR_MSG_0("Could not clear session from other connections in %s\n", __func__);
-		goto out;
-	}
-
 	// Handle will from connect
 	if ((ret = __rrr_mqtt_broker_handle_connect_will(&reason_v5, mqtt_data, connection->client_id, connect, &session)) != 0) {
 		if (ret == RRR_MQTT_SOFT_ERROR) {
diff --git a/src/lib/mqtt/mqtt_session_ram.c b/src/lib/mqtt/mqtt_session_ram.c
index 4bd70e3..0595493 100644
--- a/src/lib/mqtt/mqtt_session_ram.c
+++ b/src/lib/mqtt/mqtt_session_ram.c
@@ -1376,6 +1376,14 @@ static int __rrr_mqtt_session_ram_init (
 	ram_session->complete_publish_grace_time_s = complete_publish_grace_time_s;
 
 	if (clean_session) {
+		// The old session ends, ignore any delay interval of its will
+		if ((ret = __rrr_mqtt_session_ram_will_publish_maintain (
+				ram_data,
+				ram_session,
+				1
+		)) != 0) {
+			goto out;
+		}
 		__rrr_mqtt_session_ram_clean_final(ram_session);
 	}
 
@@ -2800,21 +2808,14 @@ static int __rrr_mqtt_session_ram_notify_disconnect (
 			reason_v5
 	);
 
-	if (reason_v5 == RRR_MQTT_P_5_REASON_SESSION_TAKEN_OVER) {
-		RRR_DBG_1("Session notify disconnect no deletion due to session take-over\n");
-		ram_session->expire_time = 0; // Never
-		goto out;
+	if (ram_session->session_properties.numbers.session_expiry == 0xffffffff) { // 8 f's
+		ram_session->expire_time = UINT64_MAX; // Never
+	}
+	else if (ram_session->session_properties.numbers.session_expiry == 0) {
+		ram_session->expire_time = rrr_time_get_64(); // Now
 	}
 	else {
-		if (ram_session->session_properties.numbers.session_expiry == 0xffffffff) { // 8 f's
-			ram_session->expire_time = UINT64_MAX; // Never
-		}
-		else if (ram_session->session_properties.numbers.session_expiry == 0) {
-			ram_session->expire_time = rrr_time_get_64(); // Now
-		}
-		else {
-			ram_session->expire_time = rrr_time_get_64() + ((uint64_t) 1000 * (uint64_t) 1000 * (uint64_t) ram_session->session_properties.numbers.session_expiry);
-		}
+		ram_session->expire_time = rrr_time_get_64() + ((uint64_t) 1000 * (uint64_t) 1000 * (uint64_t) ram_session->session_properties.numbers.session_expiry);
 	}
 
 	if (ram_session->session_properties.numbers.session_expiry == 0) {
-- 
2.43.0


From 4f85a49176fc8f129218b5ec38670a99dadad689 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:45:14 +0000
Subject: [PATCH 082/155] fix: MQTT QoS1 PUBLISH was lost if its packet ID was
 re-used before queue maintenance

---
 src/lib/mqtt/mqtt_session_ram.c | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/src/lib/mqtt/mqtt_session_ram.c b/src/lib/mqtt/mqtt_session_ram.c
index 0595493..4794b78 100644
--- a/src/lib/mqtt/mqtt_session_ram.c
+++ b/src/lib/mqtt/mqtt_session_ram.c
@@ -1581,6 +1581,16 @@ static int __rrr_mqtt_session_ram_process_ack_callback (RRR_FIFO_READ_CALLBACK_A
 		goto out;
 	}
 
+	if ( !ack_callback_data->is_outbound &&
+	     RRR_MQTT_P_GET_TYPE(ack_packet) == RRR_MQTT_P_TYPE_PUBACK &&
+	     RRR_MQTT_P_GET_TYPE(packet) == RRR_MQTT_P_TYPE_PUBLISH &&
+	     ((const struct rrr_mqtt_p_publish *) packet)->qos_packets.puback != NULL
+	) {
+		// Handshake is complete and the packet awaits removal from the buffer. The
+		// identifier is free, and the ACK is for another PUBLISH received after this.
+		goto out;
+	}
+
 	if (ack_callback_data->is_outbound == packet->is_outbound) {
 		if (( RRR_MQTT_P_GET_TYPE(ack_packet) == RRR_MQTT_P_TYPE_PUBACK ||
 		      RRR_MQTT_P_GET_TYPE(ack_packet) == RRR_MQTT_P_TYPE_PUBREC ||
-- 
2.43.0


From e16e2cb1963f2b5bd25518014c19315ae6d9eb4b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:47:12 +0000
Subject: [PATCH 083/155] fix: MQTT receive maximum exceeded by QoS2 handshakes
 and one too low otherwise

---
 src/lib/mqtt/mqtt_common.c      |  5 +++++
 src/lib/mqtt/mqtt_session_ram.c | 20 ++++++++++++++++----
 2 files changed, 21 insertions(+), 4 deletions(-)

diff --git a/src/lib/mqtt/mqtt_common.c b/src/lib/mqtt/mqtt_common.c
index 1e8aeca..5c47336 100644
--- a/src/lib/mqtt/mqtt_common.c
+++ b/src/lib/mqtt/mqtt_common.c
@@ -1065,6 +1065,11 @@ static int __rrr_mqtt_common_handle_pubrec_pubrel (
 		goto out;
 	}
 
+	if (RRR_MQTT_P_GET_TYPE(packet) == RRR_MQTT_P_TYPE_PUBREC && RRR_MQTT_P_GET_REASON_V5(packet) >= 0x80) {
+		// The PUBLISH is rejected and the handshake ends
+		goto out;
+	}
+
 	out_send_ack:
 	next_ack = rrr_mqtt_p_allocate (
 			next_ack_type,
diff --git a/src/lib/mqtt/mqtt_session_ram.c b/src/lib/mqtt/mqtt_session_ram.c
index 4794b78..37f2f89 100644
--- a/src/lib/mqtt/mqtt_session_ram.c
+++ b/src/lib/mqtt/mqtt_session_ram.c
@@ -2320,6 +2320,13 @@ int __rrr_mqtt_session_ram_packet_ack_complete (
 	return ret;
 }
 
+static int __rrr_mqtt_session_ram_publish_is_rejected (
+		const struct rrr_mqtt_p_publish *publish
+) {
+	// The QoS2 handshake ends with a PUBREC with error reason
+	return publish->qos_packets.pubrec != NULL && RRR_MQTT_P_GET_REASON_V5(publish->qos_packets.pubrec) >= 0x80;
+}
+
 static int __rrr_mqtt_session_ram_iterate_send_queue_callback_packet_maintain (
 		struct iterate_send_queue_callback_data *iterate_callback_data,
 		struct rrr_mqtt_p *packet
@@ -2338,7 +2345,8 @@ static int __rrr_mqtt_session_ram_iterate_send_queue_callback_packet_maintain (
 		}
 		else if (
 			(RRR_MQTT_P_PUBLISH_GET_FLAG_QOS(publish) == 1 && publish->qos_packets.puback != NULL) ||
-			(RRR_MQTT_P_PUBLISH_GET_FLAG_QOS(publish) == 2 && publish->qos_packets.pubcomp != NULL)
+			(RRR_MQTT_P_PUBLISH_GET_FLAG_QOS(publish) == 2 && publish->qos_packets.pubcomp != NULL) ||
+			(RRR_MQTT_P_PUBLISH_GET_FLAG_QOS(publish) == 2 && __rrr_mqtt_session_ram_publish_is_rejected(publish))
 		) {
 			goto out_ack_complete;
 		}
@@ -2469,10 +2477,14 @@ static int __rrr_mqtt_session_ram_iterate_send_queue_callback_process_publish (
 		goto out;
 	}
 
+	if (__rrr_mqtt_session_ram_publish_is_rejected(publish)) {
+		// PUBREL must not be sent
+		goto out;
+	}
+
 	if (	publish->is_outbound &&
 		RRR_MQTT_P_PUBLISH_GET_FLAG_QOS(publish) > 0 &&
 		publish->qos_packets.pubcomp == NULL &&
-		publish->qos_packets.pubrec == NULL &&
 		publish->planned_expiry_time == 0
 	) {
 		counters->incomplete_qos_publish_counter++;
@@ -2480,10 +2492,10 @@ static int __rrr_mqtt_session_ram_iterate_send_queue_callback_process_publish (
 
 	if (	publish->last_attempt == 0 &&
 		publish->is_outbound != 0 && (
-			counters->incomplete_qos_publish_counter >= iterate_callback_data->ram_session->max_in_flight ||
+			counters->incomplete_qos_publish_counter > iterate_callback_data->ram_session->max_in_flight ||
 			(
 				iterate_callback_data->ram_session->session_properties.numbers.receive_maximum != 0 &&
-				counters->incomplete_qos_publish_counter >= iterate_callback_data->ram_session->session_properties.numbers.receive_maximum
+				counters->incomplete_qos_publish_counter > iterate_callback_data->ram_session->session_properties.numbers.receive_maximum
 			)
 		)
 	) {
-- 
2.43.0


From 9e5fd23d5dcd57c5df7f7b65cb458bb3634a5bb4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:47:44 +0000
Subject: [PATCH 084/155] fix: MQTT expiry dropped packets of a QoS handshake
 in progress, leaked others and was not used for wills

---
 src/lib/mqtt/mqtt_broker.c      | 1 +
 src/lib/mqtt/mqtt_session_ram.c | 8 ++++++--
 2 files changed, 7 insertions(+), 2 deletions(-)

diff --git a/src/lib/mqtt/mqtt_broker.c b/src/lib/mqtt/mqtt_broker.c
index 7d62ec9..62e6f96 100644
--- a/src/lib/mqtt/mqtt_broker.c
+++ b/src/lib/mqtt/mqtt_broker.c
@@ -337,6 +337,7 @@ static int __rrr_mqtt_broker_new_will_publish (
 	RRR_MQTT_P_PUBLISH_SET_FLAG_RETAIN(publish, RRR_MQTT_P_CONNECT_GET_FLAG_WILL_RETAIN(connect));
 
 	publish->will_delay_interval = will_properties->will_delay_interval;
+	publish->message_expiry_interval = will_properties->message_expiry_interval;
 
 	if (rrr_mqtt_property_collection_add_selected_from_collection (
 			&publish->properties,
diff --git a/src/lib/mqtt/mqtt_session_ram.c b/src/lib/mqtt/mqtt_session_ram.c
index 37f2f89..255e606 100644
--- a/src/lib/mqtt/mqtt_session_ram.c
+++ b/src/lib/mqtt/mqtt_session_ram.c
@@ -987,6 +987,9 @@ static int __rrr_mqtt_session_ram_will_publish_maintain (
 		RRR_DBG_2("|==> WILL PUBLISH for client %s with topic '%s' retain %u, publishing now in MQTT broker.\n",
 				ram_session->client_id_, publish->topic, RRR_MQTT_P_PUBLISH_GET_FLAG_RETAIN(publish));
 
+		// Message expiry interval begins when the will is published
+		publish->create_time = rrr_time_get_64();
+
 		ret = __rrr_mqtt_session_collection_ram_delivery_forward_final (
 				ram_data,
 				publish
@@ -2460,13 +2463,14 @@ static int __rrr_mqtt_session_ram_iterate_send_queue_callback_process_publish (
 
 	*packet_to_transmit = NULL;
 
-	{
+	// Once transmission has begun, the QoS handshake must be completed regardless of expiry
+	if (publish->is_outbound && publish->last_attempt == 0 && !RRR_MQTT_P_PUBLISH_GET_FLAG_DUP(publish)) {
 		int do_drop = 0;
 		if ((ret = iterate_callback_data->ram_session->ram_data->pretransmit_method (&do_drop, publish)) != 0) {
 			goto out;
 		}
 		if (do_drop) {
-
+			*delete_now = 1;
 			goto out;
 		}
 	}
-- 
2.43.0


From 2a0604d317d776449fe7400731f75cd4f2de6899 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:49:13 +0000
Subject: [PATCH 085/155] fix: MQTT will messages were not checked against the
 ACL

---
 src/lib/mqtt/mqtt_broker.c | 42 ++++++++++++++++++++++++++++++++++++++
 1 file changed, 42 insertions(+)

diff --git a/src/lib/mqtt/mqtt_broker.c b/src/lib/mqtt/mqtt_broker.c
index 62e6f96..c629009 100644
--- a/src/lib/mqtt/mqtt_broker.c
+++ b/src/lib/mqtt/mqtt_broker.c
@@ -452,6 +452,41 @@ static int __rrr_mqtt_broker_handle_connect_auth (
 	return ret;
 }
 
+static int __rrr_mqtt_broker_handle_connect_will_acl (
+		uint8_t *reason_v5,
+		struct rrr_mqtt_broker_data *data,
+		const struct rrr_mqtt_p_connect *connect
+) {
+	int ret = RRR_MQTT_OK;
+
+	struct rrr_mqtt_topic_token *token_tree = NULL;
+
+	if (RRR_MQTT_P_CONNECT_GET_FLAG_WILL(connect) == 0) {
+		goto out;
+	}
+
+	if (rrr_mqtt_topic_tokenize(&token_tree, connect->will_topic) != 0) {
+		RRR_MSG_0("Could not create topic token tree for will in %s\n", __func__);
+		ret = RRR_MQTT_INTERNAL_ERROR;
+		goto out;
+	}
+
+	if (rrr_mqtt_acl_check_access (
+			data->acl,
+			token_tree,
+			RRR_MQTT_ACL_ACTION_RW,
+			connect->username,
+			rrr_mqtt_topic_match_tokens_recursively
+	) != RRR_MQTT_ACL_RESULT_ALLOW) {
+		RRR_DBG_2("ACL: Will topic '%s' of client '%s' denied\n", connect->will_topic, connect->client_identifier);
+		*reason_v5 = RRR_MQTT_P_5_REASON_NOT_AUTHORIZED;
+	}
+
+	out:
+	rrr_mqtt_topic_token_destroy(token_tree);
+	return ret;
+}
+
 static int __rrr_mqtt_broker_handle_connect_check_client_identifier (
 		uint8_t *reason_v5,
 		short *other_client_was_disconnected,
@@ -663,6 +698,13 @@ static int __rrr_mqtt_broker_handle_connect (RRR_MQTT_TYPE_HANDLER_DEFINITION) {
 		goto out_send_connack;
 	}
 
+	if ((ret = __rrr_mqtt_broker_handle_connect_will_acl (&reason_v5, data, connect)) != 0) {
+		goto out;
+	}
+	else if (reason_v5 != 0) {
+		goto out_send_connack;
+	}
+
 	if (connect->client_identifier == NULL || *(connect->client_identifier) == '\0') {
 		if ((ret = __rrr_mqtt_broker_handle_connect_assign_client_identifier (
 				&reason_v5,
-- 
2.43.0


From c1446d7053f83dcbb75e8bc40e3f5ba15225763d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:49:13 +0000
Subject: [PATCH 086/155] fix: MQTT broker accepted CONNECT with invalid will
 properties

---
 src/lib/mqtt/mqtt_broker.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/lib/mqtt/mqtt_broker.c b/src/lib/mqtt/mqtt_broker.c
index c629009..cb9a387 100644
--- a/src/lib/mqtt/mqtt_broker.c
+++ b/src/lib/mqtt/mqtt_broker.c
@@ -388,10 +388,10 @@ static int __rrr_mqtt_broker_handle_connect_will (
 		)) != 0) {
 			RRR_MSG_0("Could not create publish will message data in %s, ret %i, reason %u\n",
 					__func__, ret, *reason_v5);
-			if (ret == RRR_MQTT_SOFT_ERROR && reason_v5 == 0) {
+			if (ret == RRR_MQTT_SOFT_ERROR && *reason_v5 == 0) {
 				*reason_v5 = RRR_MQTT_P_5_REASON_UNSPECIFIED_ERROR;
-				goto out;
 			}
+			goto out;
 		}
 	}
 
-- 
2.43.0


From 7f3cd644d405a82a3276bb44e06af90e173a9838 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:56:54 +0000
Subject: [PATCH 087/155] fix: MQTT broker aborted upon SUBSCRIBE with No Local
 or Retain As Published

---
 src/lib/mqtt/mqtt_assemble.c     | 2 +-
 src/lib/mqtt/mqtt_subscription.c | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/lib/mqtt/mqtt_assemble.c b/src/lib/mqtt/mqtt_assemble.c
index 3206194..82a0494 100644
--- a/src/lib/mqtt/mqtt_assemble.c
+++ b/src/lib/mqtt/mqtt_assemble.c
@@ -378,7 +378,7 @@ int __rrr_mqtt_assemble_sub_usub_callback (struct rrr_mqtt_subscription *sub, vo
 	struct assemble_sub_usub_callback_data *callback_data = arg;
 	struct rrr_mqtt_payload_buf_session *session = callback_data->session;
 
-	if (sub->nl > 0 || sub->rap > 0 || sub->retain_handling > 2 || sub->qos_or_reason_v5 > 2) {
+	if (sub->nl > 1 || sub->rap > 1 || sub->retain_handling > 2 || sub->qos_or_reason_v5 > 2) {
 		RRR_BUG("Invalid flags/QoS in %s\n", __func__);
 	}
 
diff --git a/src/lib/mqtt/mqtt_subscription.c b/src/lib/mqtt/mqtt_subscription.c
index 10fc0bf..0409c92 100644
--- a/src/lib/mqtt/mqtt_subscription.c
+++ b/src/lib/mqtt/mqtt_subscription.c
@@ -60,7 +60,7 @@ int rrr_mqtt_subscription_new (
 
 	*target = NULL;
 
-	if (nl > 0 || rap > 0 || retain_handling > 2) {
+	if (nl > 1 || rap > 1 || retain_handling > 2) {
 		RRR_BUG("Invalid flags in %s\n", __func__);
 	}
 
-- 
2.43.0


From 8d532171ef3bbc0f92afb5a93c71374cfc29fb3a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:57:42 +0000
Subject: [PATCH 088/155] fix: MQTT broker did not send retained messages upon
 repeated subscription

The retain handling option of V5 was also not used.
---
 src/lib/mqtt/mqtt_session_ram.c  | 17 +++++++++++++----
 src/lib/mqtt/mqtt_subscription.c | 16 +++++++---------
 src/lib/mqtt/mqtt_subscription.h |  8 ++++++--
 src/modules/p_mqttclient.c       |  5 ++++-
 4 files changed, 30 insertions(+), 16 deletions(-)

diff --git a/src/lib/mqtt/mqtt_session_ram.c b/src/lib/mqtt/mqtt_session_ram.c
index 255e606..530ca41 100644
--- a/src/lib/mqtt/mqtt_session_ram.c
+++ b/src/lib/mqtt/mqtt_session_ram.c
@@ -1851,8 +1851,8 @@ static int __rrr_mqtt_session_ram_process_iterate_ack (
 static int __rrr_mqtt_session_ram_add_subscriptions (
 		struct rrr_mqtt_session_ram *ram_session,
 		struct rrr_mqtt_p_subscribe *subscribe,
-		int (*new_subscription_callback)(const struct rrr_mqtt_subscription *subscription, void *callback_data),
-		void *new_subscription_callback_data
+		int (*add_callback)(const struct rrr_mqtt_subscription *subscription, int did_replace, void *callback_data),
+		void *add_callback_data
 ) {
 	int ret = RRR_MQTT_SESSION_OK;
 
@@ -1860,8 +1860,8 @@ static int __rrr_mqtt_session_ram_add_subscriptions (
 			ram_session->subscriptions,
 			subscribe->subscriptions,
 			0, // <-- Don't include subscriptions with errors (QoS > 2)
-			new_subscription_callback,
-			new_subscription_callback_data
+			add_callback,
+			add_callback_data
 	)) != RRR_MQTT_SUBSCRIPTION_OK) {
 		RRR_MSG_0("Could not add subscriptions to session in %s\n", __func__);
 		ret = RRR_MQTT_SESSION_INTERNAL_ERROR;
@@ -2997,12 +2997,21 @@ struct session_ram_receive_new_subscription_callback_data {
 
 static int __rrr_mqtt_session_ram_receive_new_subscription_callback (
 		const struct rrr_mqtt_subscription *subscription,
+		int did_replace,
 		void *arg
 ) {
 	struct session_ram_receive_new_subscription_callback_data *callback_data = arg;
 
 	struct rrr_mqtt_subscription *subscription_new = NULL;
 
+	// Retained messages are also sent when an existing subscription is
+	// replaced, unless the client has requested otherwise.
+	if ( subscription->retain_handling == RRR_MQTT_SUBSCRIPTION_RETAIN_HANDLING_NONE ||
+	    (subscription->retain_handling == RRR_MQTT_SUBSCRIPTION_RETAIN_HANDLING_NEW && did_replace)
+	) {
+		return 0;
+	}
+
 	if (rrr_mqtt_subscription_clone(&subscription_new, subscription) != 0) {
 		RRR_MSG_0("Could not clone subscription in %s\n", __func__);
 		return 1;
diff --git a/src/lib/mqtt/mqtt_subscription.c b/src/lib/mqtt/mqtt_subscription.c
index 0409c92..9ec2872 100644
--- a/src/lib/mqtt/mqtt_subscription.c
+++ b/src/lib/mqtt/mqtt_subscription.c
@@ -595,8 +595,8 @@ int rrr_mqtt_subscription_collection_append_unique_copy_from_collection (
 		struct rrr_mqtt_subscription_collection *target,
 		const struct rrr_mqtt_subscription_collection *source,
 		int include_invalid_entries,
-		int (*new_subscrition_callback)(const struct rrr_mqtt_subscription *subscription, void *arg),
-		void *new_subscrition_callback_arg
+		int (*add_callback)(const struct rrr_mqtt_subscription *subscription, int did_replace, void *arg),
+		void *add_callback_arg
 ) {
 	int ret = RRR_MQTT_SUBSCRIPTION_OK;
 
@@ -615,13 +615,11 @@ int rrr_mqtt_subscription_collection_append_unique_copy_from_collection (
 		ret = rrr_mqtt_subscription_collection_add_unique(target, &subscription_tmp, 1);
 		rrr_mqtt_subscription_destroy(subscription_tmp); // Destroy function checks for NULL
 
-		if ((ret & RRR_MQTT_SUBSCRIPTION_REPLACED) == 0) {
-			if (new_subscrition_callback != NULL) {
-				ret = new_subscrition_callback(node, new_subscrition_callback_arg);
-			}
-		}
-		else {
-			ret &= ~(RRR_MQTT_SUBSCRIPTION_REPLACED);
+		const int did_replace = (ret & RRR_MQTT_SUBSCRIPTION_REPLACED) != 0;
+		ret &= ~(RRR_MQTT_SUBSCRIPTION_REPLACED);
+
+		if (ret == 0 && add_callback != NULL) {
+			ret = add_callback(node, did_replace, add_callback_arg);
 		}
 
 		if (ret != 0) {
diff --git a/src/lib/mqtt/mqtt_subscription.h b/src/lib/mqtt/mqtt_subscription.h
index 9cc27a7..568e8a8 100644
--- a/src/lib/mqtt/mqtt_subscription.h
+++ b/src/lib/mqtt/mqtt_subscription.h
@@ -38,6 +38,10 @@ along with this program.  If not, see <http://www.gnu.org/licenses/>.
 #define RRR_MQTT_SUBSCRIPTION_ITERATE_DESTROY             (1<<1)
 #define RRR_MQTT_SUBSCRIPTION_ITERATE_STOP                (1<<2)
 
+#define RRR_MQTT_SUBSCRIPTION_RETAIN_HANDLING_ALWAYS            0
+#define RRR_MQTT_SUBSCRIPTION_RETAIN_HANDLING_NEW               1
+#define RRR_MQTT_SUBSCRIPTION_RETAIN_HANDLING_NONE              2
+
 #define RRR_MQTT_SUBSCRIPTION_GET_FLAG_RAW_QOS(flags)           ((flags & (1<<0|1<<1)))
 #define RRR_MQTT_SUBSCRIPTION_GET_FLAG_RAW_NL(flags)            ((flags & (1<<2)) >> 2)
 #define RRR_MQTT_SUBSCRIPTION_GET_FLAG_RAW_RAP(flags)           ((flags & (1<<3)) >> 3)
@@ -147,8 +151,8 @@ int rrr_mqtt_subscription_collection_append_unique_copy_from_collection (
 		struct rrr_mqtt_subscription_collection *target,
 		const struct rrr_mqtt_subscription_collection *source,
 		int include_invalid_entries,
-		int (*new_subscrition_callback)(const struct rrr_mqtt_subscription *subscription, void *arg),
-		void *new_subscrition_callback_arg
+		int (*add_callback)(const struct rrr_mqtt_subscription *subscription, int did_replace, void *arg),
+		void *add_callback_arg
 );
 int rrr_mqtt_subscription_collection_remove_topics_matching_and_set_reason (
 		struct rrr_mqtt_subscription_collection *target,
diff --git a/src/modules/p_mqttclient.c b/src/modules/p_mqttclient.c
index efa2ffa..e9d5403 100644
--- a/src/modules/p_mqttclient.c
+++ b/src/modules/p_mqttclient.c
@@ -628,10 +628,13 @@ static int mqttclient_publish (
 
 static int mqttclient_process_command_subscribe_new_subscrition_callback (
 		const struct rrr_mqtt_subscription *subscription,
+		int did_replace,
 		void *arg
 ) {
 	struct mqtt_client_data *data = arg;
-	RRR_DBG_1("mqtt client instance %s new subscription '%s' from command\n", INSTANCE_D_NAME(data->thread_data), subscription->topic_filter);
+	if (!did_replace) {
+		RRR_DBG_1("mqtt client instance %s new subscription '%s' from command\n", INSTANCE_D_NAME(data->thread_data), subscription->topic_filter);
+	}
 	return 0;
 }
 
-- 
2.43.0


From feabf042d6cc8b01bccba464a2f591d0dfb6e904 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:57:43 +0000
Subject: [PATCH 089/155] fix: MQTT broker ignored subscription options No
 Local and Retain As Published

---
 src/lib/mqtt/mqtt_session_ram.c | 23 +++++++++++++++++++----
 1 file changed, 19 insertions(+), 4 deletions(-)

diff --git a/src/lib/mqtt/mqtt_session_ram.c b/src/lib/mqtt/mqtt_session_ram.c
index 530ca41..9047b05 100644
--- a/src/lib/mqtt/mqtt_session_ram.c
+++ b/src/lib/mqtt/mqtt_session_ram.c
@@ -296,6 +296,7 @@ static int __rrr_mqtt_session_ram_retain_buffer_write_callback (
 
 struct receive_forwarded_publish_data {
 	struct rrr_mqtt_session_ram *session;
+	const struct rrr_mqtt_session_ram *origin;
 };
 
 static int __rrr_mqtt_session_ram_receive_forwarded_publish_match_callback (
@@ -310,6 +311,12 @@ static int __rrr_mqtt_session_ram_receive_forwarded_publish_match_callback (
 
 	struct rrr_mqtt_p_publish *new_publish = NULL;
 
+	if (subscription->nl && session == callback_data->origin) {
+		RRR_DBG_3("Not forwarding PUBLISH topic '%s' to its publisher %s, No Local is set\n",
+				publish->topic, session->client_id_);
+		goto out;
+	}
+
 	if ( session->session_properties.numbers.maximum_packet_size != 0 &&
 	     publish->received_size > (int64_t) session->session_properties.numbers.maximum_packet_size
 	) {
@@ -327,8 +334,10 @@ static int __rrr_mqtt_session_ram_receive_forwarded_publish_match_callback (
 		goto out;
 	}
 
-	// Always clear retain flag per specification
-	RRR_MQTT_P_PUBLISH_SET_FLAG_RETAIN(new_publish, 0);
+	// Clear retain flag per specification unless subscribed to with Retain As Published
+	if (!subscription->rap) {
+		RRR_MQTT_P_PUBLISH_SET_FLAG_RETAIN(new_publish, 0);
+	}
 
 	// Always clear dup flag per speficiation
 	RRR_MQTT_P_PUBLISH_SET_FLAG_DUP(new_publish, 0);
@@ -367,12 +376,13 @@ static int __rrr_mqtt_session_ram_receive_forwarded_publish_match_callback (
 
 static int __rrr_mqtt_session_ram_receive_forwarded_publish (
 		struct rrr_mqtt_session_ram *ram_session,
+		const struct rrr_mqtt_session_ram *origin,
 		const struct rrr_mqtt_p_publish *publish,
 		rrr_length *match_count
 ) {
 	int ret = RRR_MQTT_SESSION_OK;
 
-	struct receive_forwarded_publish_data callback_data = { ram_session };
+	struct receive_forwarded_publish_data callback_data = { ram_session, origin };
 
 	// Note : We always send one PUBLISH per matching subscription and do
 	//        not check for overlaps. Other brokers might treat this different
@@ -397,6 +407,7 @@ static int __rrr_mqtt_session_ram_receive_forwarded_publish (
 
 static int __rrr_mqtt_session_collection_ram_forward_publish_to_clients (
 		struct rrr_mqtt_session_collection_ram_data *ram_data,
+		const struct rrr_mqtt_session_ram *origin,
 		const struct rrr_mqtt_p_publish *publish
 ) {
 	int ret = RRR_FIFO_OK;
@@ -405,7 +416,7 @@ static int __rrr_mqtt_session_collection_ram_forward_publish_to_clients (
 
 	RRR_LL_ITERATE_BEGIN(ram_data, struct rrr_mqtt_session_ram);
 		rrr_length match_count = 0;
-		int ret_tmp = __rrr_mqtt_session_ram_receive_forwarded_publish(node, publish, &match_count);
+		int ret_tmp = __rrr_mqtt_session_ram_receive_forwarded_publish(node, origin, publish, &match_count);
 		total_match_count += match_count;
 
 		if (ret_tmp != RRR_MQTT_SESSION_OK) {
@@ -427,6 +438,7 @@ static int __rrr_mqtt_session_collection_ram_forward_publish_to_clients (
 
 static int __rrr_mqtt_session_collection_ram_delivery_forward_final (
 		struct rrr_mqtt_session_collection_ram_data *ram_data,
+		const struct rrr_mqtt_session_ram *origin,
 		struct rrr_mqtt_p_publish *publish
 ) {
 	int ret = RRR_MQTT_SESSION_OK;
@@ -465,6 +477,7 @@ static int __rrr_mqtt_session_collection_ram_delivery_forward_final (
 
 	if ((ret = __rrr_mqtt_session_collection_ram_forward_publish_to_clients (
 			ram_data,
+			origin,
 			publish
 	)) != 0) {
 		goto out;
@@ -539,6 +552,7 @@ static int __rrr_mqtt_session_ram_delivery_forward (
 
 	return __rrr_mqtt_session_collection_ram_delivery_forward_final (
 			ram_session->ram_data,
+			ram_session,
 			publish
 	);
 }
@@ -992,6 +1006,7 @@ static int __rrr_mqtt_session_ram_will_publish_maintain (
 
 		ret = __rrr_mqtt_session_collection_ram_delivery_forward_final (
 				ram_data,
+				ram_session,
 				publish
 		);
 
-- 
2.43.0


From fe34da8a779f80aadf318ac7ee561bad28201ead Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:59:03 +0000
Subject: [PATCH 090/155] fix: MQTT maximum packet size exceeded by wills,
 retained messages and larger forwarded packets

---
 src/lib/mqtt/mqtt_session_ram.c | 74 +++++++++++++++++++++++++++++----
 1 file changed, 65 insertions(+), 9 deletions(-)

diff --git a/src/lib/mqtt/mqtt_session_ram.c b/src/lib/mqtt/mqtt_session_ram.c
index 9047b05..56ca54b 100644
--- a/src/lib/mqtt/mqtt_session_ram.c
+++ b/src/lib/mqtt/mqtt_session_ram.c
@@ -317,15 +317,6 @@ static int __rrr_mqtt_session_ram_receive_forwarded_publish_match_callback (
 		goto out;
 	}
 
-	if ( session->session_properties.numbers.maximum_packet_size != 0 &&
-	     publish->received_size > (int64_t) session->session_properties.numbers.maximum_packet_size
-	) {
-		RRR_MSG_0("Not forwarding matching PUBLISH to client, packet size exceeds set maximum packet size%" PRIrrrl ">%u\n",
-				publish->received_size, session->session_properties.numbers.maximum_packet_size);
-		ret = RRR_MQTT_SESSION_OK;
-		goto out;
-	}
-
 	if ((new_publish = rrr_mqtt_p_clone_publish (
 			publish, 1, 0, 0 // Preserve only type flags, but DUP and Retain flags are always overwritten elsewhere
 	)) == NULL) {
@@ -2466,6 +2457,64 @@ static int __rrr_mqtt_session_ram_packet_identifier_ensure (
 	return ret;
 }
 
+static int __rrr_mqtt_session_ram_publish_check_maximum_packet_size (
+		int *drop,
+		const struct rrr_mqtt_session_ram *ram_session,
+		const struct rrr_mqtt_p_publish *publish
+) {
+	int ret = 0;
+
+	const uint32_t maximum_packet_size = ram_session->session_properties.numbers.maximum_packet_size;
+
+	*drop = 0;
+
+	if (maximum_packet_size == 0) {
+		goto out;
+	}
+
+	// Only V5 clients may set a maximum packet size
+	rrr_length properties_size = 0;
+	rrr_length properties_count = 0;
+	if ((ret = rrr_mqtt_property_collection_calculate_size (
+			&properties_size,
+			&properties_count,
+			&publish->properties
+	)) != 0) {
+		RRR_MSG_0("Failed to calculate size of properties in %s\n", __func__);
+		goto out;
+	}
+
+	const rrr_biglength sizes[] = {
+		(rrr_biglength) properties_size + properties_count,
+		2 + strlen(publish->topic) + (RRR_MQTT_P_PUBLISH_GET_FLAG_QOS(publish) > 0 ? 2 : 0) +
+			(publish->payload != NULL ? publish->payload->size : 0)
+	};
+
+	// Type and flags byte followed by variable header and payload, including
+	// the variable length integers for property length and remaining length.
+	rrr_biglength total_size = 0;
+	for (int i = 0; i < 2; i++) {
+		total_size += sizes[i];
+		rrr_biglength tmp = total_size;
+		if (i == 1) {
+			total_size++;
+		}
+		do {
+			total_size++;
+			tmp >>= 7;
+		} while (tmp != 0);
+	}
+
+	if (total_size > maximum_packet_size) {
+		RRR_MSG_0("Not forwarding matching PUBLISH to client, packet size exceeds set maximum packet size %" PRIrrrbl ">%u\n",
+				total_size, maximum_packet_size);
+		*drop = 1;
+	}
+
+	out:
+	return ret;
+}
+
 static int __rrr_mqtt_session_ram_iterate_send_queue_callback_process_publish (
 		struct rrr_mqtt_p **packet_to_transmit,
 		int *delete_now,
@@ -2484,6 +2533,13 @@ static int __rrr_mqtt_session_ram_iterate_send_queue_callback_process_publish (
 		if ((ret = iterate_callback_data->ram_session->ram_data->pretransmit_method (&do_drop, publish)) != 0) {
 			goto out;
 		}
+		if (!do_drop && (ret = __rrr_mqtt_session_ram_publish_check_maximum_packet_size (
+				&do_drop,
+				iterate_callback_data->ram_session,
+				publish
+		)) != 0) {
+			goto out;
+		}
 		if (do_drop) {
 			*delete_now = 1;
 			goto out;
-- 
2.43.0


From 5d1711fd8365fc0ea8fba37b93e101bb04cb26b2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:03:53 +0000
Subject: [PATCH 091/155] fix: MQTT broker forwarded topic alias and
 subscription ID of publishers to subscribers

---
 src/lib/mqtt/mqtt_broker.c | 31 ++++++++++++++++++++++++++++++-
 1 file changed, 30 insertions(+), 1 deletion(-)

diff --git a/src/lib/mqtt/mqtt_broker.c b/src/lib/mqtt/mqtt_broker.c
index cb9a387..45b416f 100644
--- a/src/lib/mqtt/mqtt_broker.c
+++ b/src/lib/mqtt/mqtt_broker.c
@@ -900,6 +900,35 @@ static int __rrr_mqtt_broker_send_now_callback (
 	return ret;
 }
 
+static int __rrr_mqtt_broker_handle_publish (RRR_MQTT_TYPE_HANDLER_DEFINITION) {
+	const struct rrr_mqtt_p_publish *publish = (const struct rrr_mqtt_p_publish *) packet;
+
+	int ret = RRR_MQTT_OK;
+
+	RRR_MQTT_DEFINE_CONN_FROM_HANDLE_AND_CHECK;
+
+	// We don't announce any topic alias maximum
+	if (rrr_mqtt_property_collection_get_property(&publish->properties, RRR_MQTT_PROPERTY_TOPIC_ALIAS, 0) != NULL) {
+		RRR_MSG_0("Received PUBLISH with topic alias in MQTT broker, but this is not enabled\n");
+		RRR_MQTT_CONN_SET_DISCONNECT_REASON_IF_ZERO(connection, RRR_MQTT_P_5_REASON_TOPIC_ALIAS_INVALID);
+		ret = RRR_MQTT_SOFT_ERROR;
+		goto out;
+	}
+
+	// Only allowed in packets from server to client
+	if (rrr_mqtt_property_collection_get_property(&publish->properties, RRR_MQTT_PROPERTY_SUBSCRIPTION_ID, 0) != NULL) {
+		RRR_MSG_0("Received PUBLISH with subscription ID in MQTT broker\n");
+		RRR_MQTT_CONN_SET_DISCONNECT_REASON_IF_ZERO(connection, RRR_MQTT_P_5_REASON_PROTOCOL_ERROR);
+		ret = RRR_MQTT_SOFT_ERROR;
+		goto out;
+	}
+
+	ret = rrr_mqtt_common_handle_publish(mqtt_data, handle, packet);
+
+	out:
+	return ret;
+}
+
 static int __rrr_mqtt_broker_handle_subscribe (RRR_MQTT_TYPE_HANDLER_DEFINITION) {
 	struct rrr_mqtt_p_subscribe *subscribe = (struct rrr_mqtt_p_subscribe *) packet;
 
@@ -1063,7 +1092,7 @@ static const struct rrr_mqtt_type_handler_properties handler_properties[] = {
 	{NULL},
 	{__rrr_mqtt_broker_handle_connect},
 	{NULL},
-	{rrr_mqtt_common_handle_publish},
+	{__rrr_mqtt_broker_handle_publish},
 	{rrr_mqtt_common_handle_puback_pubcomp},
 	{rrr_mqtt_common_handle_pubrec},
 	{rrr_mqtt_common_handle_pubrel},
-- 
2.43.0


From 7f65f8a41c15088694f61802deff1d4f38ba127c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:04:18 +0000
Subject: [PATCH 092/155] fix: MQTT SUBACK lacked reason codes when a topic
 filter was repeated

---
 src/lib/mqtt/mqtt_parse.c | 20 ++++----------------
 1 file changed, 4 insertions(+), 16 deletions(-)

diff --git a/src/lib/mqtt/mqtt_parse.c b/src/lib/mqtt/mqtt_parse.c
index 18577aa..0727a05 100644
--- a/src/lib/mqtt/mqtt_parse.c
+++ b/src/lib/mqtt/mqtt_parse.c
@@ -1093,10 +1093,8 @@ static int __rrr_mqtt_parse_subscribe_unsubscribe (
 		return RRR_MQTT_SOFT_ERROR;
 	}
 
-	/* If we need several attempts to parse the SUBSCRIBE-packet, the subscriptions parsed in the
-	 * previous rounds are parsed again and overwritten. We do however skip to our payload position
-	 * checkpoint to avoid doing this with all of the subscriptions, only at most one should actually
-	 * be overwritten. */
+	/* If we need several attempts to parse the SUBSCRIBE-packet, parsing continues at our payload
+	 * position checkpoint which is saved after each completed subscription. */
 	while (!PARSE_CHECK_TARGET_END()) {
 		uint16_t utf8_length;
 		PARSE_UTF8_WITH_LENGTH(sub_usub,data_tmp,utf8_length,1,topic);
@@ -1153,18 +1151,8 @@ static int __rrr_mqtt_parse_subscribe_unsubscribe (
 			return RRR_MQTT_INTERNAL_ERROR;
 		}
 
-		int ret_tmp = rrr_mqtt_subscription_collection_add_unique (sub_usub->subscriptions, &subscription, 1);
-
-		// Destroy function checks for NULL
-		rrr_mqtt_subscription_destroy(subscription);
-
-		if (ret_tmp == RRR_MQTT_SUBSCRIPTION_REPLACED) {
-			RRR_DBG_3("Duplicate topic filter '%s' in received mqtt SUBSCRIBE\n", sub_usub->data_tmp);
-		}
-		else if (ret_tmp != RRR_MQTT_SUBSCRIPTION_OK) {
-			RRR_MSG_0("Error %i while adding subscription to collection in %s\n", ret_tmp, __func__);
-			return RRR_MQTT_INTERNAL_ERROR;
-		}
+		// Duplicate topic filters are preserved here as each needs a reason code in the reply
+		RRR_LL_APPEND(sub_usub->subscriptions, subscription);
 
 		PARSE_PAYLOAD_SAVE_CHECKPOINT();
 	}
-- 
2.43.0


From 552854d52208b23cb966065896538bbd60a49380 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:04:32 +0000
Subject: [PATCH 093/155] fix: MQTT broker terminated when a client made too
 many subscriptions

---
 src/lib/mqtt/mqtt_session_ram.c  | 5 ++++-
 src/lib/mqtt/mqtt_subscription.c | 5 +++++
 2 files changed, 9 insertions(+), 1 deletion(-)

diff --git a/src/lib/mqtt/mqtt_session_ram.c b/src/lib/mqtt/mqtt_session_ram.c
index 56ca54b..ab15a17 100644
--- a/src/lib/mqtt/mqtt_session_ram.c
+++ b/src/lib/mqtt/mqtt_session_ram.c
@@ -1870,7 +1870,10 @@ static int __rrr_mqtt_session_ram_add_subscriptions (
 			add_callback_data
 	)) != RRR_MQTT_SUBSCRIPTION_OK) {
 		RRR_MSG_0("Could not add subscriptions to session in %s\n", __func__);
-		ret = RRR_MQTT_SESSION_INTERNAL_ERROR;
+		ret = (ret == RRR_MQTT_SUBSCRIPTION_REFUSED
+			? RRR_MQTT_SESSION_ERROR // Too many, caused by the remote
+			: RRR_MQTT_SESSION_INTERNAL_ERROR
+		);
 	}
 
 	if (RRR_DEBUGLEVEL_2) {
diff --git a/src/lib/mqtt/mqtt_subscription.c b/src/lib/mqtt/mqtt_subscription.c
index 9ec2872..04a59f0 100644
--- a/src/lib/mqtt/mqtt_subscription.c
+++ b/src/lib/mqtt/mqtt_subscription.c
@@ -615,6 +615,11 @@ int rrr_mqtt_subscription_collection_append_unique_copy_from_collection (
 		ret = rrr_mqtt_subscription_collection_add_unique(target, &subscription_tmp, 1);
 		rrr_mqtt_subscription_destroy(subscription_tmp); // Destroy function checks for NULL
 
+		if (ret == RRR_MQTT_SUBSCRIPTION_REFUSED) {
+			// Collection full
+			goto out;
+		}
+
 		const int did_replace = (ret & RRR_MQTT_SUBSCRIPTION_REPLACED) != 0;
 		ret &= ~(RRR_MQTT_SUBSCRIPTION_REPLACED);
 
-- 
2.43.0


From eefcb0a0ea6e424a211ff856fbca3d1c451bc636 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:06:42 +0000
Subject: [PATCH 094/155] fix: MQTT client subscribed to all topics again upon
 each subscribe command

---
 src/modules/p_mqttclient.c | 11 +++++++----
 1 file changed, 7 insertions(+), 4 deletions(-)

diff --git a/src/modules/p_mqttclient.c b/src/modules/p_mqttclient.c
index e9d5403..b38a0e4 100644
--- a/src/modules/p_mqttclient.c
+++ b/src/modules/p_mqttclient.c
@@ -245,13 +245,16 @@ static int mqttclient_message_data_to_payload (
 	return 0;
 }
 
-static int mqttclient_do_subscribe (struct mqtt_client_data *data) {
+static int mqttclient_do_subscribe (
+		struct mqtt_client_data *data,
+		const struct rrr_mqtt_subscription_collection *subscriptions
+) {
 	int ret = RRR_MQTT_OK;
 
 	if ((ret = rrr_mqtt_client_subscribe (
 			data->mqtt_client_data,
 			&data->session,
-			data->subscriptions
+			subscriptions
 	)) != 0) {
 		RRR_MSG_0("Could not subscribe to topics in MQTT client instance %s return was %i\n",
 				INSTANCE_D_NAME(data->thread_data), ret);
@@ -708,7 +711,7 @@ static int mqttclient_process_command_subscribe (
 		goto out;
 	}
 
-	if ((ret = mqttclient_do_subscribe(data)) != 0) {
+	if ((ret = mqttclient_do_subscribe(data, subscriptions_tmp)) != 0) {
 		goto out;
 	}
 
@@ -2295,7 +2298,7 @@ static void *thread_entry_mqtt_client (struct rrr_thread *thread) {
 	// will respond with CONNACK with session present=0 if we need to clean up our state.
 	clean_start = 0;
 
-	if ((ret_tmp = mqttclient_do_subscribe(data)) != 0) {
+	if ((ret_tmp = mqttclient_do_subscribe(data, data->subscriptions)) != 0) {
 		if (ret_tmp & RRR_MQTT_INTERNAL_ERROR) {
 			goto out_destroy_client;
 		}
-- 
2.43.0


From 96145b79cece8de31caf97616ee3b42cf4776f2d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:06:53 +0000
Subject: [PATCH 095/155] fix: MQTT client crashed on subscribe command with
 unknown values

---
 src/modules/p_mqttclient.c | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/src/modules/p_mqttclient.c b/src/modules/p_mqttclient.c
index b38a0e4..a297817 100644
--- a/src/modules/p_mqttclient.c
+++ b/src/modules/p_mqttclient.c
@@ -699,6 +699,11 @@ static int mqttclient_process_command_subscribe (
 		goto out;
 	}
 
+	if (subscriptions_tmp == NULL) {
+		// Invalid command, warning already printed
+		goto out;
+	}
+
 	if ((ret = rrr_mqtt_subscription_collection_append_unique_copy_from_collection (
 			data->subscriptions,
 			subscriptions_tmp,
@@ -734,6 +739,11 @@ static int mqttclient_process_command_unsubscribe (
 		goto out;
 	}
 
+	if (subscriptions_tmp == NULL) {
+		// Invalid command, warning already printed
+		goto out;
+	}
+
 	if ((ret = rrr_mqtt_client_unsubscribe (
 			data->mqtt_client_data,
 			&data->session,
-- 
2.43.0


From 27e3dc4045bcbc0a766c2dd1051f36412d10a66e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:16:27 +0000
Subject: [PATCH 096/155] fix: Access to $ topics was denied in MQTT broker
 without ACL file

---
 src/lib/mqtt/mqtt_acl.c | 4 +++-
 src/lib/mqtt/mqtt_acl.h | 1 +
 2 files changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/lib/mqtt/mqtt_acl.c b/src/lib/mqtt/mqtt_acl.c
index db0f2a0..5215057 100644
--- a/src/lib/mqtt/mqtt_acl.c
+++ b/src/lib/mqtt/mqtt_acl.c
@@ -525,6 +525,8 @@ int rrr_mqtt_acl_entry_collection_push_allow_all (
 		goto out;
 	}
 
+	// The wildcard alone does not match topics with levels beginning with $
+	RRR_LL_LAST(collection)->match_all = 1;
 	RRR_LL_LAST(collection)->default_action = RRR_MQTT_ACL_ACTION_RW;
 
 	out:
@@ -584,7 +586,7 @@ int rrr_mqtt_acl_check_access (
 	int ret = RRR_MQTT_ACL_RESULT_DENY;
 
 	RRR_LL_ITERATE_BEGIN(collection, const struct rrr_mqtt_acl_entry);
-		if (match_function(node->first_token, first_token) == RRR_MQTT_TOKEN_MATCH) {
+		if (node->match_all || match_function(node->first_token, first_token) == RRR_MQTT_TOKEN_MATCH) {
 			RRR_DBG_2 ("ACL matched %s requested level %s default action %s\n",
 					node->topic_orig, RRR_MQTT_ACL_ACTION_TO_STR(requested_access_level), RRR_MQTT_ACL_ACTION_TO_STR(node->default_action));
 
diff --git a/src/lib/mqtt/mqtt_acl.h b/src/lib/mqtt/mqtt_acl.h
index 8deb662..0d6b8df 100644
--- a/src/lib/mqtt/mqtt_acl.h
+++ b/src/lib/mqtt/mqtt_acl.h
@@ -47,6 +47,7 @@ struct rrr_mqtt_acl_entry {
 	RRR_LL_NODE(struct rrr_mqtt_acl_entry);
 	int default_action;
 	int default_action_is_set;
+	int match_all;
 	struct rrr_mqtt_topic_token *first_token;
 	char *topic_orig;
 };
-- 
2.43.0


From 85c0c4dd26ade31978018fd52f9bc28f4ea4183e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:18:30 +0000
Subject: [PATCH 097/155] fix: MQTT Correlation Data corrupted the payload of
 V5 PUBLISH packets

The length of binary properties was counted twice while parsing.
---
 src/lib/mqtt/mqtt_parse.c | 2 --
 1 file changed, 2 deletions(-)

diff --git a/src/lib/mqtt/mqtt_parse.c b/src/lib/mqtt/mqtt_parse.c
index 0727a05..8aa8c7d 100644
--- a/src/lib/mqtt/mqtt_parse.c
+++ b/src/lib/mqtt/mqtt_parse.c
@@ -679,8 +679,6 @@ static int __rrr_mqtt_parse_property_blob (RRR_PROPERTY_PARSER_DEFINITION) {
 	target->length_orig = blob_length;
 	target->internal_data_type = RRR_MQTT_PROPERTY_DATA_TYPE_INTERNAL_BLOB;
 
-	bytes_parsed += blob_length;
-
 	*bytes_parsed_final = bytes_parsed;
 
 	return ret;
-- 
2.43.0


From f934c9c8f0a89dfaa06f33c54b7a326839bc4caa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:18:30 +0000
Subject: [PATCH 098/155] fix: Memory leak and missing length check when
 parsing MQTT properties

---
 src/lib/mqtt/mqtt_parse.c | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/src/lib/mqtt/mqtt_parse.c b/src/lib/mqtt/mqtt_parse.c
index 8aa8c7d..065adf4 100644
--- a/src/lib/mqtt/mqtt_parse.c
+++ b/src/lib/mqtt/mqtt_parse.c
@@ -793,10 +793,16 @@ static int __rrr_mqtt_parse_properties (
 		start = end;
 		ret = property_parsers[property_def->internal_data_type](property_tmp, session, start, &bytes_parsed);
 		if (ret != 0) {
-			return ret;
+			goto out;
 		}
 		end = start + bytes_parsed;
 
+		if (end > properties_body_end) {
+			RRR_MSG_0("MQTT property 0x%02x exceeds the length of the properties\n", type);
+			ret = RRR_MQTT_SOFT_ERROR;
+			goto out;
+		}
+
 		rrr_mqtt_property_collection_add (target, property_tmp);
 		property_tmp = NULL;
 	}
-- 
2.43.0


From 369a048498a28ac1e1623d1f65448c3c7d625f44 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:18:46 +0000
Subject: [PATCH 099/155] fix: Crash upon empty string and binary data in MQTT
 V5 properties

---
 src/lib/mqtt/mqtt_assemble.c |  4 ++--
 src/lib/mqtt/mqtt_property.c | 31 +++++++++++++------------------
 2 files changed, 15 insertions(+), 20 deletions(-)

diff --git a/src/lib/mqtt/mqtt_assemble.c b/src/lib/mqtt/mqtt_assemble.c
index 82a0494..acf9666 100644
--- a/src/lib/mqtt/mqtt_assemble.c
+++ b/src/lib/mqtt/mqtt_assemble.c
@@ -134,8 +134,8 @@ static int __rrr_mqtt_assemble_put_properties_callback (
 
 	int ret = RRR_MQTT_ASSEMBLE_OK;
 
-	if (property->data == NULL || property->length == 0) {
-		RRR_BUG("Property data and/or length was 0 in %s\n", __func__);
+	if (property->data == NULL) {
+		RRR_BUG("Property data was NULL in %s\n", __func__);
 	}
 
 	PUT_U8(property->definition->identifier);
diff --git a/src/lib/mqtt/mqtt_property.c b/src/lib/mqtt/mqtt_property.c
index 0828938..7ff7468 100644
--- a/src/lib/mqtt/mqtt_property.c
+++ b/src/lib/mqtt/mqtt_property.c
@@ -139,17 +139,15 @@ int rrr_mqtt_property_clone (
 	RRR_LL_NODE_INIT(result);
 	result->sibling = NULL;
 
-	if (result->length <= 0) {
-		RRR_BUG("Length was <= 0 in %s\n", __func__);
-	}
-
-	if ((result->data = rrr_allocate(result->length)) == NULL) {
+	// Strings and binary data may be empty
+	if ((result->data = rrr_allocate(result->length + 1)) == NULL) {
 		RRR_MSG_0("Could not allocate memory for data in %s\n", __func__);
 		ret = 1;
 		goto out_free;
 	}
 
 	memcpy(result->data, source->data, result->length);
+	result->data[result->length] = '\0';
 	result->order = 0;
 
 	if (source->sibling != NULL) {
@@ -177,11 +175,12 @@ int rrr_mqtt_property_save_blob (
 		int add_zero_if_needed
 ) {
 	uint32_t size_padded = size;
-	if (add_zero_if_needed != 0 && value[size - 1] != '\0') {
+	if (add_zero_if_needed != 0 && (size == 0 || value[size - 1] != '\0')) {
 		size_padded++;
 	}
 
-	target->data = rrr_allocate(size_padded);
+	// Binary data may be empty
+	target->data = rrr_allocate(size_padded + 1);
 	if (target->data == NULL) {
 		RRR_MSG_0("Could not allocate memory in %s\n", __func__);
 		return 1;
@@ -233,9 +232,6 @@ const char *rrr_mqtt_property_get_blob (
 	if (property->internal_data_type != RRR_MQTT_PROPERTY_DATA_TYPE_INTERNAL_BLOB) {
 		RRR_BUG("Property was not BLOB in %s\n", __func__);
 	}
-	if (property->length < 1) {
-		RRR_BUG("Length of property was <1 in %s\n", __func__);
-	}
 	*length = property->length;
 	return property->data;
 }
@@ -295,15 +291,14 @@ static int __rrr_mqtt_property_clone (
 	result->order = source->order;
 	result->internal_data_type = source->internal_data_type;
 
-	if (source->length > 0) {
-		result->length = source->length;
-		if ((result->data = rrr_allocate(result->length)) == NULL) {
-			RRR_MSG_0("Could not allocate memory for data in %s\n", __func__);
-			ret = 1;
-			goto out_destroy;
-		}
-		memcpy(result->data, source->data, result->length);
+	result->length = source->length;
+	if ((result->data = rrr_allocate(result->length + 1)) == NULL) {
+		RRR_MSG_0("Could not allocate memory for data in %s\n", __func__);
+		ret = 1;
+		goto out_destroy;
 	}
+	memcpy(result->data, source->data, result->length);
+	result->data[result->length] = '\0';
 
 	*target = result;
 
-- 
2.43.0


From b9be894d390da849461c74b7666f70ae20f176ae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:19:36 +0000
Subject: [PATCH 100/155] fix: Crash when assembling MQTT packets with empty
 strings

---
 src/lib/mqtt/mqtt_payload_buf.c | 4 ----
 1 file changed, 4 deletions(-)

diff --git a/src/lib/mqtt/mqtt_payload_buf.c b/src/lib/mqtt/mqtt_payload_buf.c
index 4a03070..8575876 100644
--- a/src/lib/mqtt/mqtt_payload_buf.c
+++ b/src/lib/mqtt/mqtt_payload_buf.c
@@ -63,10 +63,6 @@ void rrr_mqtt_payload_buf_dump (struct rrr_mqtt_payload_buf_session *session) {
 }
 
 int rrr_mqtt_payload_buf_ensure (struct rrr_mqtt_payload_buf_session *session, rrr_length size) {
-	if (size <= 0) {
-		RRR_BUG("size was <= 0 in %s\n", __func__);
-	}
-
 	if (session->wpos + size <= session->buf + session->buf_size) {
 		return RRR_MQTT_PAYLOAD_BUF_OK;
 	}
-- 
2.43.0


From 24c92657df1a4d886115d1f3d33c1bf48dc62303 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:19:36 +0000
Subject: [PATCH 101/155] fix: Crash when assembling MQTT packets with long
 properties

---
 src/lib/mqtt/mqtt_assemble.c | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/src/lib/mqtt/mqtt_assemble.c b/src/lib/mqtt/mqtt_assemble.c
index acf9666..a2ada52 100644
--- a/src/lib/mqtt/mqtt_assemble.c
+++ b/src/lib/mqtt/mqtt_assemble.c
@@ -211,7 +211,8 @@ static int __rrr_mqtt_assemble_put_properties (
 
 	PUT_VARIABLE_INT(total_size);
 
-	const char *begin = session->wpos;
+	// The buffer may be reallocated while writing, use offsets
+	const rrr_length begin = rrr_length_from_ptr_sub_bug_const (session->wpos, session->buf);
 
 	if (rrr_mqtt_property_collection_iterate(properties, __rrr_mqtt_assemble_put_properties_callback, session) != 0) {
 		RRR_MSG_0("Error while iterating properties in %s\n", __func__);
@@ -219,9 +220,9 @@ static int __rrr_mqtt_assemble_put_properties (
 		goto out;
 	}
 
-	const char *end = session->wpos;
+	const rrr_length end = rrr_length_from_ptr_sub_bug_const (session->wpos, session->buf);
 
-	if ((rrr_length) (end - begin) != total_size) {
+	if (end - begin != total_size) {
 		RRR_BUG("Size mismatch in %s\n", __func__);
 	}
 
-- 
2.43.0


From 75d8e71f1c37b25bd98c12ad6fac072756c063cb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:22:43 +0000
Subject: [PATCH 102/155] fix: MQTT V5 acknowledgements with reason and no
 property length were misparsed

---
 src/lib/mqtt/mqtt_parse.c | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/lib/mqtt/mqtt_parse.c b/src/lib/mqtt/mqtt_parse.c
index 065adf4..097fcd0 100644
--- a/src/lib/mqtt/mqtt_parse.c
+++ b/src/lib/mqtt/mqtt_parse.c
@@ -1066,6 +1066,9 @@ int rrr_mqtt_parse_def_puback (struct rrr_mqtt_parse_session *session) {
 			RRR_BUG("Unknown packet type %u in %s\n", RRR_MQTT_P_GET_TYPE(def_puback), __func__);
 		}
 
+		// Allowed to skip property length if there are no properties
+		PARSE_CHECK_NO_MORE_DATA();
+
 		PARSE_PROPERTIES_IF_V5(def_puback,properties);
 	}
 
-- 
2.43.0


From 265dbf8e91fc44aef4308dc0ac2bab8c5ed0be95 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:22:43 +0000
Subject: [PATCH 103/155] fix: Truncated MQTT packets were parsed using data of
 the next packet

---
 src/lib/mqtt/mqtt_parse.c | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/lib/mqtt/mqtt_parse.c b/src/lib/mqtt/mqtt_parse.c
index 097fcd0..a43ec96 100644
--- a/src/lib/mqtt/mqtt_parse.c
+++ b/src/lib/mqtt/mqtt_parse.c
@@ -1487,6 +1487,12 @@ void rrr_mqtt_packet_parse (
 		RRR_MQTT_PARSE_STATUS_SET(session,RRR_MQTT_PARSE_STATUS_FIXED_HEADER_DONE);
 	}
 
+	// Any bytes after the end belong to the next packet. If the packet does not
+	// contain all of its fields, parsing is still incomplete when it is fully read.
+	if (session->buf_wpos > session->target_size) {
+		session->buf_wpos = session->target_size;
+	}
+
 	if (!RRR_MQTT_PARSE_VARIABLE_HEADER_IS_DONE(session)) {
 		session->header_parse_attempts++;
 		if (session->header_parse_attempts > 10) {
-- 
2.43.0


From 8ef449bf0023aa804d9eb44452a8061f974145c9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:33:27 +0000
Subject: [PATCH 104/155] fix: MQTT message expiry interval was not reduced
 while waiting for flow control

---
 src/lib/mqtt/mqtt_packet.h      | 1 -
 src/lib/mqtt/mqtt_session_ram.c | 8 ++------
 2 files changed, 2 insertions(+), 7 deletions(-)

diff --git a/src/lib/mqtt/mqtt_packet.h b/src/lib/mqtt/mqtt_packet.h
index a83720e..7b74326 100644
--- a/src/lib/mqtt/mqtt_packet.h
+++ b/src/lib/mqtt/mqtt_packet.h
@@ -333,7 +333,6 @@ struct rrr_mqtt_p_publish {
 
 	uint64_t create_time;
 	uint32_t message_expiry_interval;
-	uint8_t message_expiry_interval_properties_updated;
 
 	uint8_t payload_format_indicator;
 	uint16_t topic_alias;
diff --git a/src/lib/mqtt/mqtt_session_ram.c b/src/lib/mqtt/mqtt_session_ram.c
index ab15a17..d967e49 100644
--- a/src/lib/mqtt/mqtt_session_ram.c
+++ b/src/lib/mqtt/mqtt_session_ram.c
@@ -569,14 +569,11 @@ static int __rrr_mqtt_session_ram_pretransmit_forward (
 
 	// Only update the properties which is sent to the client. Preserve
 	// the original value in case it needs to be checked for expiration.
-	if (!publish->message_expiry_interval_properties_updated && (ret = __rrr_mqtt_session_ram_update_publish_expiry_interval_properties (
-			publish
-	)) != 0) {
+	// This is repeated as the actual transmission may be held back by flow control.
+	if ((ret = __rrr_mqtt_session_ram_update_publish_expiry_interval_properties (publish)) != 0) {
 		goto out;
 	}
 
-	publish->message_expiry_interval_properties_updated = 1;
-
 	out:
 	return ret;
 }
@@ -3120,7 +3117,6 @@ static int __rrr_mqtt_p_queue_publish_from_retain_callback (
 		goto out;
 	}
 
-	new_publish->message_expiry_interval_properties_updated = 0;
 	new_publish->is_outbound = 1;
 	RRR_MQTT_P_PUBLISH_SET_FLAG_RETAIN(new_publish, 1);
 
-- 
2.43.0


From 583fa325a67b095a4add2469a399330b2d30f95e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:34:30 +0000
Subject: [PATCH 105/155] fix: Session expiry interval in MQTT V5 DISCONNECT
 was ignored

---
 src/lib/mqtt/mqtt_broker.c | 29 +++++++++++++++++++++++++++--
 1 file changed, 27 insertions(+), 2 deletions(-)

diff --git a/src/lib/mqtt/mqtt_broker.c b/src/lib/mqtt/mqtt_broker.c
index 45b416f..c8a029d 100644
--- a/src/lib/mqtt/mqtt_broker.c
+++ b/src/lib/mqtt/mqtt_broker.c
@@ -1060,8 +1060,6 @@ static int __rrr_mqtt_broker_handle_pingreq (RRR_MQTT_TYPE_HANDLER_DEFINITION) {
 static int __rrr_mqtt_broker_handle_disconnect (RRR_MQTT_TYPE_HANDLER_DEFINITION) {
 	struct rrr_mqtt_p_disconnect *disconnect = (struct rrr_mqtt_p_disconnect *) packet;
 
-	(void)(mqtt_data);
-
 	int ret = RRR_MQTT_OK;
 
 	RRR_MQTT_DEFINE_CONN_FROM_HANDLE_AND_CHECK;
@@ -1071,8 +1069,35 @@ static int __rrr_mqtt_broker_handle_disconnect (RRR_MQTT_TYPE_HANDLER_DEFINITION
 
 	RRR_MQTT_CONN_SET_DISCONNECT_REASON_IF_ZERO(connection, disconnect->reason_v5);
 
+	// A V5 client may change the session expiry interval upon disconnect
+	const struct rrr_mqtt_property *session_expiry = rrr_mqtt_property_collection_get_property (
+			&disconnect->properties,
+			RRR_MQTT_PROPERTY_SESSION_EXPIRY_INTERVAL,
+			0
+	);
+	if (session_expiry != NULL) {
+		struct rrr_mqtt_session_properties session_properties = {0};
+		struct rrr_mqtt_session_properties_numbers numbers_to_update = {0};
+
+		session_properties.numbers.session_expiry = rrr_mqtt_property_get_uint32(session_expiry);
+		numbers_to_update.session_expiry = 1;
+
+		RRR_MQTT_COMMON_CALL_SESSION_CHECK_RETURN_TO_CONN_ERRORS_GENERAL(
+				mqtt_data->sessions->methods->update_properties (
+						mqtt_data->sessions,
+						&connection->session,
+						&session_properties,
+						&numbers_to_update,
+						1
+				),
+				goto out,
+				" while updating session expiry upon DISCONNECT"
+		);
+	}
+
 	ret = rrr_mqtt_common_update_conn_state_upon_disconnect(connection, disconnect);
 
+	out:
 	return ret;
 }
 
-- 
2.43.0


From 56d7d4b3b4c8eb757190e8168fd1857e2cfd2cca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:54:19 +0000
Subject: [PATCH 106/155] fix: MQTT messages in flight were not sent again upon
 reconnection

---
 src/lib/mqtt/mqtt_session_ram.c | 27 +++++++++++++++++++++++++++
 1 file changed, 27 insertions(+)

diff --git a/src/lib/mqtt/mqtt_session_ram.c b/src/lib/mqtt/mqtt_session_ram.c
index d967e49..316cc7e 100644
--- a/src/lib/mqtt/mqtt_session_ram.c
+++ b/src/lib/mqtt/mqtt_session_ram.c
@@ -1353,6 +1353,23 @@ static int __rrr_mqtt_session_ram_clean_final (struct rrr_mqtt_session_ram *ram_
 	return ret;
 }
 
+static int __rrr_mqtt_session_ram_resend_prepare_callback (RRR_FIFO_READ_CALLBACK_ARGS) {
+	struct rrr_mqtt_p *packet = (struct rrr_mqtt_p *) data;
+
+	(void)(size);
+	(void)(arg);
+
+	if (	packet->last_attempt != 0 &&
+		RRR_MQTT_P_GET_TYPE(packet) == RRR_MQTT_P_TYPE_PUBLISH &&
+		RRR_MQTT_P_PUBLISH_GET_FLAG_QOS((struct rrr_mqtt_p_publish *) packet) > 0
+	) {
+		packet->last_attempt = 0;
+		RRR_MQTT_P_PUBLISH_SET_FLAG_DUP(packet, 1);
+	}
+
+	return RRR_FIFO_OK;
+}
+
 static int __rrr_mqtt_session_ram_init (
 		struct rrr_mqtt_session_collection *collection,
 		struct rrr_mqtt_session **session_to_find,
@@ -1392,6 +1409,16 @@ static int __rrr_mqtt_session_ram_init (
 		}
 		__rrr_mqtt_session_ram_clean_final(ram_session);
 	}
+	else if ((ret = rrr_fifo_search (
+			&ram_session->to_remote_buffer.buffer,
+			__rrr_mqtt_session_ram_resend_prepare_callback,
+			NULL
+	)) != 0) {
+		// Incomplete handshakes continue immediately on a new connection
+		RRR_MSG_0("Could not prepare packets for re-sending in %s\n", __func__);
+		ret = RRR_MQTT_SESSION_INTERNAL_ERROR;
+		goto out;
+	}
 
 	RRR_DBG_2("Initialize ram session, expiry interval is %" PRIu32 " have will publish %p clean session %i to remote buffer count %" PRIrrrl "\n",
 			ram_session->session_properties.numbers.session_expiry,
-- 
2.43.0


From 68f916f07004b3c58ca1ca20538f0d1d049934cf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:07:10 +0000
Subject: [PATCH 107/155] fix: MQTT will was not published when writing to the
 connection failed

---
 src/lib/mqtt/mqtt_broker.c | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/lib/mqtt/mqtt_broker.c b/src/lib/mqtt/mqtt_broker.c
index c8a029d..e525aa6 100644
--- a/src/lib/mqtt/mqtt_broker.c
+++ b/src/lib/mqtt/mqtt_broker.c
@@ -1147,13 +1147,17 @@ static int __rrr_mqtt_broker_event_handler (
 ) {
 	struct rrr_mqtt_broker_data *data = static_arg;
 
-	(void)(connection);
 	(void)(arg);
 
 	int ret = RRR_MQTT_OK;
 
 	switch (event) {
 		case RRR_MQTT_CONN_EVENT_DISCONNECT:
+			// Reason 0 means that the client sent DISCONNECT and that any will is not
+			// to be published, this is not the case if the connection failed.
+			if (!RRR_MQTT_CONN_STATE_IS_CLOSED_OR_CLOSE_WAIT(connection)) {
+				RRR_MQTT_CONN_SET_DISCONNECT_REASON_IF_ZERO(connection, RRR_MQTT_P_5_REASON_UNSPECIFIED_ERROR);
+			}
 			data->stats.total_connections_closed++;
 			break;
 		default:
-- 
2.43.0


From ee668af27982376831f3d2b7a434dc4e662f44f6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:34:07 +0000
Subject: [PATCH 108/155] fix: MQTT DISCONNECT was sent ahead of packets
 already queued

---
 src/lib/mqtt/mqtt_connection.c | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/lib/mqtt/mqtt_connection.c b/src/lib/mqtt/mqtt_connection.c
index d83aae4..d283d05 100644
--- a/src/lib/mqtt/mqtt_connection.c
+++ b/src/lib/mqtt/mqtt_connection.c
@@ -193,7 +193,10 @@ int rrr_mqtt_conn_iterator_ctx_send_disconnect (
 
 	// If a CONNACK is sent, we must not sent DISCONNECT packet
 	if (RRR_MQTT_CONN_STATE_SEND_ANY_IS_ALLOWED(connection)) {
-		if ((ret = rrr_mqtt_conn_iterator_ctx_send_packet_urgent (
+		// Not urgent, packets already queued must not be sent after the DISCONNECT
+		int do_stop_dummy = 0;
+		if ((ret = rrr_mqtt_conn_iterator_ctx_send_packet (
+				&do_stop_dummy,
 				handle,
 				(struct rrr_mqtt_p *) disconnect
 		)) != RRR_MQTT_OK) {
-- 
2.43.0


From 96f0efc40e06fb93c137665c75e67f3d009a8e3a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:34:07 +0000
Subject: [PATCH 109/155] fix: high priority chunk was sent in the middle of a
 partially sent chunk

---
 src/lib/socket/rrr_socket_send_chunk.c | 29 ++++++++++++++++++++++++++
 1 file changed, 29 insertions(+)

diff --git a/src/lib/socket/rrr_socket_send_chunk.c b/src/lib/socket/rrr_socket_send_chunk.c
index 8ebf6e6..d6bd989 100644
--- a/src/lib/socket/rrr_socket_send_chunk.c
+++ b/src/lib/socket/rrr_socket_send_chunk.c
@@ -302,6 +302,20 @@ int rrr_socket_send_chunk_collection_push_const_with_address_and_private_data (
 	);
 }
 
+// A chunk which is partially sent must be completed before any
+// other chunk, regardless of priority, is sent.
+static void __rrr_socket_send_chunk_collection_incomplete_first (
+		struct rrr_socket_send_chunk_collection *chunks
+) {
+	for (int i = 1; i < RRR_SOCKET_SEND_CHUNK_PRIORITY_COUNT; i++) {
+		struct rrr_socket_send_chunk *chunk = RRR_LL_FIRST(&chunks->chunk_lists[i]);
+		if (chunk != NULL && chunk->data_pos > 0) {
+			RRR_LL_REMOVE_NODE_NO_FREE(&chunks->chunk_lists[i], chunk);
+			RRR_LL_UNSHIFT(&chunks->chunk_lists[0], chunk);
+		}
+	}
+}
+
 static int __rrr_socket_send_chunk_collection_send (
 		struct rrr_socket_send_chunk_collection *chunks,
 		int fd,
@@ -312,6 +326,8 @@ static int __rrr_socket_send_chunk_collection_send (
 	if (callbacks->send_start)
 		callbacks->send_start(callbacks->start_end_arg);
 
+	__rrr_socket_send_chunk_collection_incomplete_first(chunks);
+
 	RRR_SOCKET_SEND_CHUNK_LISTS_ITERATE_BEGIN();
 		RRR_LL_ITERATE_BEGIN(list, struct rrr_socket_send_chunk);
 			if (!chunks->silent)
@@ -379,7 +395,10 @@ int rrr_socket_send_chunk_collection_send_with_callback (
 ) {
 	int ret = 0;
 
+	__rrr_socket_send_chunk_collection_incomplete_first(chunks);
+
 	int max = 10;
+	int do_stop = 0;
 	RRR_SOCKET_SEND_CHUNK_LISTS_ITERATE_BEGIN();
 		RRR_LL_ITERATE_BEGIN(list, struct rrr_socket_send_chunk);
 			if (!chunks->silent)
@@ -404,11 +423,21 @@ int rrr_socket_send_chunk_collection_send_with_callback (
 			else if (node->data_pos == node->data_size) {
 				RRR_LL_ITERATE_SET_DESTROY(); // Chunk complete
 			}
+			else {
+				do_stop = 1; // Remaining data must be sent first
+			}
 
 			if (ret != 0 || written_bytes == 0 || max-- == 0) {
+				do_stop = 1;
+			}
+
+			if (do_stop) {
 				RRR_LL_ITERATE_LAST();
 			}
 		RRR_LL_ITERATE_END_CHECK_DESTROY(list, 0; __rrr_socket_send_chunk_destroy(node));
+		if (do_stop) {
+			break;
+		}
 	RRR_SOCKET_SEND_CHUNK_LISTS_ITERATE_END();
 
 	return ret;
-- 
2.43.0


From 1c026818fc207263246803e7aaccef161f699fa3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:36:03 +0000
Subject: [PATCH 110/155] fix: MQTT packets with properties which are not
 allowed were accepted

---
 src/lib/mqtt/mqtt_common.c | 28 ++++++++++++++++++++++----
 src/lib/mqtt/mqtt_parse.c  | 40 ++++++++++++++++++++++++++++++++++++++
 2 files changed, 64 insertions(+), 4 deletions(-)

diff --git a/src/lib/mqtt/mqtt_common.c b/src/lib/mqtt/mqtt_common.c
index 5c47336..e95e425 100644
--- a/src/lib/mqtt/mqtt_common.c
+++ b/src/lib/mqtt/mqtt_common.c
@@ -446,6 +446,15 @@ int rrr_mqtt_common_data_init (
             (target) = property;                                                                    \
             break;
 
+#define HANDLE_PROPERTY_COPY_POINTER_DANGEROUS_TOPIC(target,id,error_msg)                           \
+        case id:                                                                                    \
+            if (__rrr_mqtt_common_property_has_topic_wildcard(property) != 0) {                          \
+                RRR_MSG_0(error_msg "\n");                                                          \
+                goto out_reason_protocol_error;                                                     \
+            }                                                                                       \
+            (target) = property;                                                                    \
+            break;
+
 #define HANDLE_PROPERTY_SWITCH_END()                                                                \
         default:                                                                                    \
             RRR_MSG_0("Unknown property '%s'\n", RRR_MQTT_PROPERTY_GET_NAME(property));             \
@@ -465,6 +474,15 @@ int rrr_mqtt_common_data_init (
     out:                                                                                    \
         return ret
 
+static int __rrr_mqtt_common_property_has_topic_wildcard (
+		const struct rrr_mqtt_property *property
+) {
+	rrr_length length = 0;
+	const char *topic = rrr_mqtt_property_get_blob(property, &length);
+
+	return memchr(topic, '+', length) != NULL || memchr(topic, '#', length) != NULL;
+}
+
 int rrr_mqtt_common_parse_connect_properties_callback (
 		const struct rrr_mqtt_property_collection *collection,
 		const struct rrr_mqtt_property *property,
@@ -670,9 +688,10 @@ int rrr_mqtt_common_parse_publish_properties_callback (
 				publish->topic_alias,
 				RRR_MQTT_PROPERTY_TOPIC_ALIAS
 		);
-		HANDLE_PROPERTY_COPY_POINTER_DANGEROUS (
+		HANDLE_PROPERTY_COPY_POINTER_DANGEROUS_TOPIC (
 				publish->response_topic,
-				RRR_MQTT_PROPERTY_RESPONSE_TOPIC
+				RRR_MQTT_PROPERTY_RESPONSE_TOPIC,
+				"Response topic in PUBLISH packet contained wildcards"
 		);
 		HANDLE_PROPERTY_COPY_POINTER_DANGEROUS (
 				publish->correlation_data,
@@ -722,9 +741,10 @@ int rrr_mqtt_common_parse_will_properties_callback (
 				will_properties->content_type,
 				RRR_MQTT_PROPERTY_CONTENT_TYPE
 		);
-		HANDLE_PROPERTY_COPY_POINTER_DANGEROUS (
+		HANDLE_PROPERTY_COPY_POINTER_DANGEROUS_TOPIC (
 				will_properties->response_topic,
-				RRR_MQTT_PROPERTY_RESPONSE_TOPIC
+				RRR_MQTT_PROPERTY_RESPONSE_TOPIC,
+				"Response topic in CONNECT will properties contained wildcards"
 		);
 		HANDLE_PROPERTY_COPY_POINTER_DANGEROUS (
 				will_properties->correlation_data,
diff --git a/src/lib/mqtt/mqtt_parse.c b/src/lib/mqtt/mqtt_parse.c
index a43ec96..3155d59 100644
--- a/src/lib/mqtt/mqtt_parse.c
+++ b/src/lib/mqtt/mqtt_parse.c
@@ -816,6 +816,43 @@ static int __rrr_mqtt_parse_properties (
 	return ret;
 }
 
+// Check that only the given property (or none if zero is specified), the
+// reason string (if specified) and any number of user properties are present
+static int __rrr_mqtt_parse_validate_properties (
+		const struct rrr_mqtt_property_collection *properties,
+		uint8_t allowed_id,
+		const char *packet_name
+) {
+	int found = 0;
+
+	RRR_LL_ITERATE_BEGIN(properties, const struct rrr_mqtt_property);
+		if (RRR_MQTT_PROPERTY_IS(node, RRR_MQTT_PROPERTY_USER_PROPERTY)) {
+			RRR_LL_ITERATE_NEXT();
+		}
+		if (allowed_id == 0 || !RRR_MQTT_PROPERTY_IS(node, allowed_id) || found) {
+			RRR_MSG_0("Property '%s' not allowed or duplicate in received %s packet\n",
+					RRR_MQTT_PROPERTY_GET_NAME(node), packet_name);
+			return RRR_MQTT_SOFT_ERROR;
+		}
+		if (allowed_id == RRR_MQTT_PROPERTY_SUBSCRIPTION_ID && rrr_mqtt_property_get_uint32(node) == 0) {
+			RRR_MSG_0("Subscription ID was zero in received %s packet\n", packet_name);
+			return RRR_MQTT_SOFT_ERROR;
+		}
+		found = 1;
+	RRR_LL_ITERATE_END();
+
+	return RRR_MQTT_OK;
+}
+
+#define PARSE_VALIDATE_PROPERTIES_IF_V5(type,target,allowed_id)                                \
+    do {if (PARSE_CHECK_V5(type) && (parse_state->ret = __rrr_mqtt_parse_validate_properties ( \
+            &(type)->target,                                                                   \
+            allowed_id,                                                                        \
+            RRR_MQTT_P_GET_TYPE_NAME(type)                                                     \
+    )) != RRR_MQTT_OK) {                                                                       \
+        return parse_state->ret;                                                               \
+    }} while (0)
+
 static int __rrr_mqtt_parse_protocol_version_validate_name (
 		const struct rrr_mqtt_p_protocol_version *protocol_version,
 		const char *string
@@ -1070,6 +1107,7 @@ int rrr_mqtt_parse_def_puback (struct rrr_mqtt_parse_session *session) {
 		PARSE_CHECK_NO_MORE_DATA();
 
 		PARSE_PROPERTIES_IF_V5(def_puback,properties);
+		PARSE_VALIDATE_PROPERTIES_IF_V5(def_puback,properties,RRR_MQTT_PROPERTY_REASON_STRING);
 	}
 
 	if (!PARSE_CHECK_TARGET_END()) {
@@ -1092,6 +1130,7 @@ static int __rrr_mqtt_parse_subscribe_unsubscribe (
 
 	PARSE_PACKET_ID(sub_usub);
 	PARSE_PROPERTIES_IF_V5(sub_usub,properties);
+	PARSE_VALIDATE_PROPERTIES_IF_V5(sub_usub,properties,has_topic_options ? RRR_MQTT_PROPERTY_SUBSCRIPTION_ID : 0);
 
 	PARSE_END_HEADER_BEGIN_PAYLOAD_AT_CHECKPOINT(sub_usub);
 
@@ -1209,6 +1248,7 @@ static int __rrr_mqtt_parse_suback_unsuback (
 
 	if (no_payload == 0) { // This check is redundant in practice, just here to clarify
 		PARSE_PROPERTIES_IF_V5(suback_unsuback,properties);
+		PARSE_VALIDATE_PROPERTIES_IF_V5(suback_unsuback,properties,RRR_MQTT_PROPERTY_REASON_STRING);
 	}
 
 	PARSE_END_HEADER_BEGIN_PAYLOAD_AT_CHECKPOINT(suback_unsuback);
-- 
2.43.0


From 13ff52293a8b8cd41c70cf5539a1a6e2d788d225 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:36:03 +0000
Subject: [PATCH 111/155] fix: MQTT connections with unsupported authentication
 method were accepted

---
 src/lib/mqtt/mqtt_broker.c | 19 +++++++++++++++++++
 1 file changed, 19 insertions(+)

diff --git a/src/lib/mqtt/mqtt_broker.c b/src/lib/mqtt/mqtt_broker.c
index e525aa6..6285687 100644
--- a/src/lib/mqtt/mqtt_broker.c
+++ b/src/lib/mqtt/mqtt_broker.c
@@ -418,6 +418,25 @@ static int __rrr_mqtt_broker_handle_connect_auth (
 ) {
 	int ret = RRR_MQTT_OK;
 
+	// Extended authentication is not supported
+	int have_auth_data = 0;
+	RRR_LL_ITERATE_BEGIN(&connect->properties, const struct rrr_mqtt_property);
+		if (RRR_MQTT_PROPERTY_IS(node, RRR_MQTT_PROPERTY_AUTH_METHOD)) {
+			RRR_DBG_2("Received CONNECT with authentication method, this is not supported\n");
+			*reason_v5 = RRR_MQTT_P_5_REASON_BAD_AUTH_METHOD;
+			goto out;
+		}
+		if (RRR_MQTT_PROPERTY_IS(node, RRR_MQTT_PROPERTY_AUTH_DATA)) {
+			have_auth_data = 1;
+		}
+	RRR_LL_ITERATE_END();
+
+	if (have_auth_data) {
+		RRR_DBG_2("Received CONNECT with authentication data but no authentication method\n");
+		*reason_v5 = RRR_MQTT_P_5_REASON_PROTOCOL_ERROR;
+		goto out;
+	}
+
 	if (connect->username != NULL && *(connect->username) != '\0') {
 		if (connect->password == NULL || *(connect->password) == '\0') {
 			RRR_DBG_2("Invalid CONNECT, username given but no password. The RRR MQTT broker requires passwords.\n");
-- 
2.43.0


From 050a3496634dde14c0b2360dce9103ef375571ee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:06:46 +0000
Subject: [PATCH 112/155] fix: message DB ended when a client started two
 iterations at once

---
 src/lib/msgdb/msgdb_server.c | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/lib/msgdb/msgdb_server.c b/src/lib/msgdb/msgdb_server.c
index e039a21..64c9f39 100644
--- a/src/lib/msgdb/msgdb_server.c
+++ b/src/lib/msgdb/msgdb_server.c
@@ -802,8 +802,9 @@ static int __rrr_msgdb_server_iteration_begin (
 	int ret = 0;
 
 	if (client->iteration_session != NULL) {
+		// Only affect the offending client
 		RRR_MSG_0("Attempted to start iteration session while one was already in progress\n");
-		ret = RRR_MSGDB_HARD_ERROR;
+		ret = RRR_MSGDB_SOFT_ERROR;
 		goto out;
 	}
 
-- 
2.43.0


From 32e20efe86150cd8a3ce54375e308e7e01e3c737 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:06:46 +0000
Subject: [PATCH 113/155] fix: message DB could not read back messages with
 NULL characters in their topic

---
 src/lib/msgdb/msgdb_server.c | 17 ++++++++++++-----
 1 file changed, 12 insertions(+), 5 deletions(-)

diff --git a/src/lib/msgdb/msgdb_server.c b/src/lib/msgdb/msgdb_server.c
index 64c9f39..95441b2 100644
--- a/src/lib/msgdb/msgdb_server.c
+++ b/src/lib/msgdb/msgdb_server.c
@@ -471,7 +471,8 @@ static int __rrr_msgdb_server_open_and_read_file (
 		struct rrr_msg_msg **target,
 		const char *str,
 		int do_head_only,
-		const char *topic_to_verify
+		const char *topic_to_verify,
+		size_t topic_to_verify_length
 ) {
 	int ret = 0;
 
@@ -560,7 +561,7 @@ static int __rrr_msgdb_server_open_and_read_file (
 	}
 
 	if (topic_to_verify != NULL) {
-		if ( MSG_TOPIC_LENGTH((struct rrr_msg_msg *) msg_tmp) != strlen(topic_to_verify) ||
+		if ( MSG_TOPIC_LENGTH((struct rrr_msg_msg *) msg_tmp) != topic_to_verify_length ||
 		     memcmp(MSG_TOPIC_PTR((struct rrr_msg_msg *) msg_tmp), topic_to_verify, MSG_TOPIC_LENGTH((struct rrr_msg_msg *) msg_tmp)) != 0
 		) {
 			RRR_MSG_0("Warning: Hash error, collition or topic error for '%s' in message db server, requsted topic was '%s'",
@@ -583,6 +584,7 @@ static int __rrr_msgdb_server_get_raw (
 		struct rrr_msgdb_server *server,
 		const char *str,
 		const char *topic_to_verify,
+		size_t topic_to_verify_length,
 		int response_fd
 ) {
 	int ret = 0;
@@ -593,7 +595,8 @@ static int __rrr_msgdb_server_get_raw (
 			&msg_tmp,
 			str,
 			0 /* Whole file */,
-			topic_to_verify
+			topic_to_verify,
+			topic_to_verify_length
 	)) != 0) {
 		goto out;
 	}
@@ -617,6 +620,7 @@ static int __rrr_msgdb_server_get (
 		struct rrr_msgdb_server *server,
 		const char *str,
 		const char *topic,
+		size_t topic_length,
 		int response_fd
 ) {
 	int ret = 0;
@@ -643,6 +647,7 @@ static int __rrr_msgdb_server_get (
 			server,
 			str,
 			topic,
+			topic_length,
 			response_fd
 	)) != 0) {
 		goto out;
@@ -689,7 +694,8 @@ static int __rrr_msgdb_server_client_iteration_session_process_file_callback (
 				(struct rrr_msg_msg **) &msg_tmp,
 				orig_path,
 				1, /* Head only */
-				NULL /* No topic to verify */
+				NULL, /* No topic to verify */
+				0
 	) != 0) {
 		RRR_MSG_0("Warning: msgdb failed to read header of '%s'. Deleting file.\n",
 				orig_path
@@ -875,6 +881,7 @@ static int __rrr_msgdb_server_idx_callback (RRR_MSGDB_SERVER_ITERATION_FILE_CALL
 			client->server,
 			path,
 			NULL,
+			0,
 			client->fd
 	)) != 0) {
 		goto out;
@@ -951,7 +958,7 @@ static int __rrr_msgdb_server_read_msg_msg_callback (
 			ret = __rrr_msgdb_server_del(server, sha256_hex);
 			break;
 		case MSG_TYPE_GET:
-			if ((ret = __rrr_msgdb_server_get(server, sha256_hex, rrr_string_builder_buf(&topic), client->fd)) == 0) {
+			if ((ret = __rrr_msgdb_server_get(server, sha256_hex, rrr_string_builder_buf(&topic), MSG_TOPIC_LENGTH(*msg), client->fd)) == 0) {
 				// GET responds with a message upon success, no need for ACK
 				// unless we failed
 				no_ack = 1;
-- 
2.43.0


From 232ffb429653ccc21e9d6030098078e827fecb74 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:07:41 +0000
Subject: [PATCH 114/155] fix: message DB returned messages with damaged data
 from disk

---
 src/lib/msgdb/msgdb_server.c | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/src/lib/msgdb/msgdb_server.c b/src/lib/msgdb/msgdb_server.c
index 95441b2..f5156ae 100644
--- a/src/lib/msgdb/msgdb_server.c
+++ b/src/lib/msgdb/msgdb_server.c
@@ -540,6 +540,13 @@ static int __rrr_msgdb_server_open_and_read_file (
 		goto out;
 	}
 
+	// Must be done prior to conversion of the message itself to host endianness
+	if (!do_head_only && rrr_msg_check_data_checksum_and_length(msg_tmp, (rrr_length) file_size) != 0) {
+		RRR_MSG_0("Data verification of '%s' failed in message db server (checksum error)\n", str);
+		ret = RRR_MSGDB_SOFT_ERROR;
+		goto out;
+	}
+
 	if (!RRR_MSG_IS_RRR_MESSAGE(msg_tmp)) {
 		RRR_MSG_0("Message type of '%u' was not RRR message in message db server\n", msg_tmp->msg_type);
 		ret = RRR_MSGDB_SOFT_ERROR;
-- 
2.43.0


From ae1be89bee4a683ce7d5a391ab2ddad7d8335d00 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:07:41 +0000
Subject: [PATCH 115/155] fix: one damaged file in the message DB made
 iterations fail

---
 src/lib/msgdb/msgdb_server.c | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/lib/msgdb/msgdb_server.c b/src/lib/msgdb/msgdb_server.c
index f5156ae..4c4c2a7 100644
--- a/src/lib/msgdb/msgdb_server.c
+++ b/src/lib/msgdb/msgdb_server.c
@@ -891,6 +891,12 @@ static int __rrr_msgdb_server_idx_callback (RRR_MSGDB_SERVER_ITERATION_FILE_CALL
 			0,
 			client->fd
 	)) != 0) {
+		if (ret == RRR_MSGDB_SOFT_ERROR) {
+			// Damaged files must not prevent the remaining messages from being read
+			RRR_MSG_0("Warning: msgdb failed to read message from '%s'. Deleting file.\n", path);
+			*do_delete = 1;
+			ret = 0;
+		}
 		goto out;
 	}
 
-- 
2.43.0


From 6b529a19a50e679c37bc6c2bff2b16e8f5775653 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:07:41 +0000
Subject: [PATCH 116/155] fix: message DB iterations repeated messages and did
 not complete with many messages in a directory

---
 src/lib/msgdb/msgdb_server.c | 94 +++++++++++++++++++++++++++---------
 1 file changed, 71 insertions(+), 23 deletions(-)

diff --git a/src/lib/msgdb/msgdb_server.c b/src/lib/msgdb/msgdb_server.c
index 4c4c2a7..3b1a097 100644
--- a/src/lib/msgdb/msgdb_server.c
+++ b/src/lib/msgdb/msgdb_server.c
@@ -65,6 +65,11 @@ struct rrr_msgdb_server_client;
 
 struct rrr_msgdb_server_iteration_session {
 	struct rrr_array dirs;
+
+	// Remaining files of the first directory
+	struct rrr_array files;
+	int files_ready;
+
 	uint32_t min_age_s;
 
 	int (*file_callback)(RRR_MSGDB_SERVER_ITERATION_FILE_CALLBACK_ARGS);
@@ -76,6 +81,7 @@ static void __rrr_msgdb_server_iteration_session_destroy (
 		struct rrr_msgdb_server_iteration_session *session
 ) {
 	rrr_array_clear(&session->dirs);
+	rrr_array_clear(&session->files);
 	rrr_free(session);
 }
 
@@ -664,39 +670,46 @@ static int __rrr_msgdb_server_get (
 	return ret;
 }
 
-struct rrr_msgdb_server_client_iteration_session_process_file_callback_data {
-	struct rrr_msgdb_server_client *client;
-	uint64_t time_end;
-};
-
-static int __rrr_msgdb_server_client_iteration_session_process_file_callback (
+static int __rrr_msgdb_server_client_iteration_session_read_directory_callback (
 		struct dirent *entry,
 		const char *orig_path,
 		const char *resolved_path,
 		unsigned char type,
 		void *private_data
 ) {
-	struct rrr_msgdb_server_client_iteration_session_process_file_callback_data *callback_data = private_data;
-	struct rrr_msgdb_server_client *client = callback_data->client;;
-	struct rrr_msgdb_server_iteration_session *session = client->iteration_session;
+	struct rrr_msgdb_server_iteration_session *session = private_data;
 
 	(void)(entry);
 	(void)(resolved_path);
 
+	if (type == DT_DIR) {
+		return 0;
+	}
+
+	if (strncmp (orig_path, "./", 2) == 0) {
+		orig_path += 2;
+	}
+
+	return rrr_array_push_value_str_with_tag(&session->files, "file", orig_path);
+}
+
+static int __rrr_msgdb_server_client_iteration_session_process_file (
+		struct rrr_msgdb_server_client *client,
+		const char *orig_path
+) {
+	struct rrr_msgdb_server_iteration_session *session = client->iteration_session;
+
 	int ret = 0;
 
 	const uint64_t min_age_us = (uint64_t) session->min_age_s * 1000 * 1000;
 
 	char *msg_tmp = NULL;
 
-	if (type == DT_DIR) {
+	if (access(orig_path, F_OK) != 0 && errno == ENOENT) {
+		// Deleted since the directory was read
 		goto out;
 	}
 
-	if (strncmp (orig_path, "./", 2) == 0) {
-		orig_path += 2;
-	}
-
 	if (__rrr_msgdb_server_open_and_read_file (
 				(struct rrr_msg_msg **) &msg_tmp,
 				orig_path,
@@ -734,13 +747,45 @@ static int __rrr_msgdb_server_client_iteration_session_process_file_callback (
 			RRR_MSG_0("Warning: msgdb deletion failed for '%s'\n", orig_path);
 		}
 	out:
-		if (ret == 0 && rrr_time_get_64() > callback_data->time_end) {
-			ret = RRR_MSGDB_INCOMPLETE;
-		}
 		RRR_FREE_IF_NOT_NULL(msg_tmp);
 		return ret;
 }
 
+static int __rrr_msgdb_server_client_iteration_session_process_files (
+		struct rrr_msgdb_server_client *client,
+		uint64_t time_end
+) {
+	struct rrr_msgdb_server_iteration_session *session = client->iteration_session;
+
+	int ret = 0;
+
+	char *path_tmp = NULL;
+
+	RRR_LL_ITERATE_BEGIN(&session->files, struct rrr_type_value);
+		if (rrr_time_get_64() > time_end) {
+			ret = RRR_MSGDB_INCOMPLETE;
+			goto out;
+		}
+
+		RRR_FREE_IF_NOT_NULL(path_tmp);
+
+		if ((ret = node->definition->to_str(&path_tmp, node)) != 0) {
+			RRR_MSG_0("Failed to extract string in %s\n", __func__);
+			goto out;
+		}
+
+		if ((ret = __rrr_msgdb_server_client_iteration_session_process_file (client, path_tmp)) != 0) {
+			goto out;
+		}
+
+		RRR_LL_ITERATE_SET_DESTROY();
+	RRR_LL_ITERATE_END_CHECK_DESTROY(&session->files, 0; rrr_type_value_destroy(node));
+
+	out:
+	RRR_FREE_IF_NOT_NULL(path_tmp);
+	return ret;
+}
+
 static int __rrr_msgdb_server_client_iteration_session_process (
 		struct rrr_msgdb_server_client *client
 ) {
@@ -753,11 +798,6 @@ static int __rrr_msgdb_server_client_iteration_session_process (
 
 	uint64_t time_end = rrr_time_get_64() + RRR_MSGDB_SERVER_ITERATION_MAX_MS * 1000;
 
-	struct rrr_msgdb_server_client_iteration_session_process_file_callback_data file_callback_data = {
-		client,
-		time_end
-	};
-
 	RRR_LL_ITERATE_BEGIN(&session->dirs, struct rrr_type_value);
 		if (rrr_time_get_64() > time_end) {
 			ret = RRR_MSGDB_INCOMPLETE;
@@ -789,9 +829,17 @@ static int __rrr_msgdb_server_client_iteration_session_process (
 				// Ignore
 				RRR_LL_ITERATE_NEXT();
 			}
-			if ((ret = rrr_readdir_foreach(".", __rrr_msgdb_server_client_iteration_session_process_file_callback, &file_callback_data)) != 0) {
+			// If processing gets interrupted, it continues at the next file later
+			if (!session->files_ready) {
+				if ((ret = rrr_readdir_foreach(".", __rrr_msgdb_server_client_iteration_session_read_directory_callback, session)) != 0) {
+					goto out;
+				}
+				session->files_ready = 1;
+			}
+			if ((ret = __rrr_msgdb_server_client_iteration_session_process_files(client, time_end)) != 0) {
 				goto out;
 			}
+			session->files_ready = 0;
 		}
 		else {
 			RRR_BUG("BUG: directory tag not found in node in %s, make sure directory index only is provided\n", __func__);
-- 
2.43.0


From 87d219d1dc86a63f4b92a3e95b86a3e4b54952f1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:07:51 +0000
Subject: [PATCH 117/155] fix: message DB lost the stored message when
 terminated or failing while updating it

---
 src/lib/msgdb/msgdb_server.c | 141 ++++++++++++++++++++---------------
 1 file changed, 82 insertions(+), 59 deletions(-)

diff --git a/src/lib/msgdb/msgdb_server.c b/src/lib/msgdb/msgdb_server.c
index 3b1a097..d7227ec 100644
--- a/src/lib/msgdb/msgdb_server.c
+++ b/src/lib/msgdb/msgdb_server.c
@@ -49,6 +49,10 @@ along with this program.  If not, see <http://www.gnu.org/licenses/>.
 #include "../event/event_collection.h"
 #include "../event/event_collection_struct.h"
 
+// Messages are written to this file in the base directory before being moved to
+// their final location. Files beginning with . are ignored by restructuring.
+#define RRR_MSGDB_SERVER_PUT_TMP_FILE ".put.tmp"
+
 // The difference between these gives room for other operations
 // to take place during iteration, like communication with clients
 #define RRR_MSGDB_SERVER_ITERATION_INTERVAL_MS 200
@@ -225,6 +229,61 @@ static int __rrr_msgdb_server_chdir_base (
 	return __rrr_msgdb_server_mkdir_chdir(server, server->directory);
 }
 
+static int __rrr_msgdb_server_make_path (
+		char **result,
+		struct rrr_msgdb_server *server,
+		const char *filename
+) {
+	int ret = 0;
+
+	*result = NULL;
+
+	char *path;
+	const size_t filename_length = strlen(filename);
+
+	if ((path = rrr_allocate(filename_length + server->directory_levels * 2 + 1)) == NULL) {
+		RRR_MSG_0("Failed to allocate memory in %s\n", __func__);
+		ret = 1;
+		goto out;
+	}
+
+	size_t i = 0;
+	for (; i < server->directory_levels; i++) {
+		path[i * 2] = filename[i];
+		path[i * 2 + 1] = '/';
+	}
+
+	strcpy(path + i * 2, filename);
+
+	*result = path;
+
+	out:
+	return ret;
+}
+
+static int __rrr_msgdb_server_make_directories (
+		struct rrr_msgdb_server *server,
+		const char *filename
+) {
+	int ret = 0;
+
+	for (size_t i = 0; i < server->directory_levels; i++) {
+		char dirname[2] = { filename[i], '\0' };
+		if ((ret = __rrr_msgdb_server_mkdir_chdir (server, dirname)) != 0) {
+			goto out;
+		}
+	}
+
+	for (size_t i = 0; i < server->directory_levels; i++) {
+		if ((ret = __rrr_msgdb_server_chdir (server, "..", 0)) != 0) {
+			goto out;
+		}
+	}
+
+	out:
+	return ret;
+}
+
 static int __rrr_msgdb_server_put (
 		struct rrr_msgdb_server *server,
 		const struct rrr_msg_msg *msg,
@@ -234,16 +293,22 @@ static int __rrr_msgdb_server_put (
 	int ret = 0;
 	int fd = 0;
 	struct rrr_msg *msg_tmp = NULL;
+	char *path_tmp = NULL;
 
 	if ((ret = __rrr_msgdb_server_chdir_base(server)) != 0) {
 		goto out;
 	}
 
-	if ((ret = __rrr_msgdb_server_mkdir_chdir_levels (server, sha256_str)) != 0) {
+	if ((ret = __rrr_msgdb_server_make_directories (server, sha256_str)) != 0) {
 		goto out;
 	}
 
-	if ((fd = rrr_socket_open(sha256_str, O_CREAT|O_TRUNC|O_RDWR, 0777, "msgdb_server_put", 0)) <= 0) {
+	if ((ret = __rrr_msgdb_server_make_path (&path_tmp, server, sha256_str)) != 0) {
+		goto out;
+	}
+
+	// Any existing message must remain until the new one is completely written
+	if ((fd = rrr_socket_open(RRR_MSGDB_SERVER_PUT_TMP_FILE, O_CREAT|O_TRUNC|O_RDWR, 0777, "msgdb_server_put", 0)) <= 0) {
 		RRR_MSG_0("Could not open file '%s' for writing in message db server: %s\n",
 			sha256_str, rrr_strerror(errno));
 		ret = RRR_MSGDB_SOFT_ERROR;
@@ -255,7 +320,7 @@ static int __rrr_msgdb_server_put (
 	if ((msg_tmp = rrr_allocate(MSG_TOTAL_SIZE(msg))) == NULL) {
 		RRR_MSG_0("Could not allocate memory for temporary message in %s\n", __func__);
 		ret = 1;
-		goto out;
+		goto out_unlink;
 	}
 
 	memcpy(msg_tmp, msg, MSG_TOTAL_SIZE(msg));
@@ -270,10 +335,20 @@ static int __rrr_msgdb_server_put (
 	if (write(fd, msg_tmp, MSG_TOTAL_SIZE(msg)) != (rrr_slength) MSG_TOTAL_SIZE(msg)) {
 		RRR_MSG_0("Could not write to file '%s' in message db server: %s\n", sha256_str, rrr_strerror(errno));
 		ret = 1;
-		goto out;
+		goto out_unlink;
 	}
 
+	if (rename(RRR_MSGDB_SERVER_PUT_TMP_FILE, path_tmp) != 0) {
+		RRR_MSG_0("Could not rename temporary file to '%s' in message db server: %s\n", path_tmp, rrr_strerror(errno));
+		ret = RRR_MSGDB_SOFT_ERROR;
+		goto out_unlink;
+	}
+
+	goto out;
+	out_unlink:
+	unlink(RRR_MSGDB_SERVER_PUT_TMP_FILE);
 	out:
+	RRR_FREE_IF_NOT_NULL(path_tmp);
 	RRR_FREE_IF_NOT_NULL(msg_tmp);
 	if (fd > 0) {
 		rrr_socket_close(fd);
@@ -1218,61 +1293,6 @@ static int __rrr_msgdb_server_client_new_void (
 	return __rrr_msgdb_server_client_new((struct rrr_msgdb_server_client **) target, server, fd);
 }
 
-static int __rrr_msgdb_server_make_path (
-		char **result,
-		struct rrr_msgdb_server *server,
-		const char *filename
-) {
-	int ret = 0;
-
-	*result = NULL;
-
-	char *path;
-	const size_t filename_length = strlen(filename);
-
-	if ((path = rrr_allocate(filename_length + server->directory_levels * 2 + 1)) == NULL) {
-		RRR_MSG_0("Failed to allocate memory in %s\n", __func__);
-		ret = 1;
-		goto out;
-	}
-
-	size_t i = 0;
-	for (; i < server->directory_levels; i++) {
-		path[i * 2] = filename[i];
-		path[i * 2 + 1] = '/';
-	}
-
-	strcpy(path + i * 2, filename);
-
-	*result = path;
-
-	out:
-	return ret;
-}
-
-static int __rrr_msgdb_server_make_directories (
-		struct rrr_msgdb_server *server,
-		const char *filename
-) {
-	int ret = 0;
-
-	for (size_t i = 0; i < server->directory_levels; i++) {
-		char dirname[2] = { filename[i], '\0' };
-		if ((ret = __rrr_msgdb_server_mkdir_chdir (server, dirname)) != 0) {
-			goto out;
-		}
-	}
-
-	for (size_t i = 0; i < server->directory_levels; i++) {
-		if ((ret = __rrr_msgdb_server_chdir (server, "..", 0)) != 0) {
-			goto out;
-		}
-	}
-
-	out:
-	return ret;
-}
-
 struct rrr_msgdb_server_restructure_callback_data {
 	struct rrr_array *directories;
 	struct rrr_msgdb_server *server;
@@ -1372,6 +1392,9 @@ static int __rrr_msgdb_server_restructure (
 		goto out;
 	}
 
+	// Incomplete write prior to restart
+	unlink(RRR_MSGDB_SERVER_PUT_TMP_FILE);
+
 	if ((ret = rrr_readdir_foreach_recursive(".", __rrr_msgdb_server_restructure_callback, &callback_data)) != 0) {
 		goto out;
 	}
-- 
2.43.0


From d9170bab9be79e0a7733589a1d30f973f0c670fa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:17:54 +0000
Subject: [PATCH 118/155] fix: message DB client took keep-alive response for
 the awaited response and crashed upon late responses

---
 src/lib/msgdb/msgdb_client.c | 30 +++++++++++++++++++++++++++++-
 1 file changed, 29 insertions(+), 1 deletion(-)

diff --git a/src/lib/msgdb/msgdb_client.c b/src/lib/msgdb/msgdb_client.c
index 1c9674d..de7fff6 100644
--- a/src/lib/msgdb/msgdb_client.c
+++ b/src/lib/msgdb/msgdb_client.c
@@ -42,6 +42,7 @@ along with this program.  If not, see <http://www.gnu.org/licenses/>.
 struct rrr_msgdb_client_await_callback_data {
 	int (*delivery_callback)(RRR_MSGDB_CLIENT_DELIVERY_CALLBACK_ARGS);
 	void *delivery_callback_arg;
+	unsigned int delivery_count;
 };
 
 static int __rrr_msgdb_client_read_ack_callback (
@@ -77,6 +78,14 @@ static int __rrr_msgdb_client_read_ack_callback (
 		goto out;
 	}
 
+	if (callback_data->delivery_callback == NULL) {
+		RRR_MSG_0("message database client received unexpected ACK message\n");
+		ret = RRR_MSGDB_SOFT_ERROR;
+		goto out;
+	}
+
+	callback_data->delivery_count++;
+
 	struct rrr_msg_msg *msg_dummy = NULL;
 	if ((ret = callback_data->delivery_callback (&msg_dummy, positive_ack, negative_ack, callback_data->delivery_callback_arg)) != 0) {
 		goto out;
@@ -96,12 +105,20 @@ static int __rrr_msgdb_client_read_msg_callback (
 
 	RRR_DBG_3("msgdb fd %i recv MSG size %" PRIrrrl "\n", conn->fd, MSG_TOTAL_SIZE(*message));
 
+	if (callback_data->delivery_callback == NULL) {
+		RRR_MSG_0("message database client received unexpected message\n");
+		return RRR_MSGDB_SOFT_ERROR;
+	}
+
+	callback_data->delivery_count++;
+
 	return callback_data->delivery_callback (message, 0, 0, callback_data->delivery_callback_arg);
 }
 
 static int __rrr_msgdb_client_read (
 		struct rrr_msgdb_client_conn *conn,
 		short allow_multiple,
+		unsigned int *delivery_count,
 		int (*delivery_callback)(RRR_MSGDB_CLIENT_DELIVERY_CALLBACK_ARGS),
 		void *delivery_callback_arg
 ) {
@@ -109,7 +126,8 @@ static int __rrr_msgdb_client_read (
 
 	struct rrr_msgdb_client_await_callback_data callback_data = {
 		delivery_callback,
-		delivery_callback_arg
+		delivery_callback_arg,
+		0
 	};
 
 	uint64_t bytes_read_dummy = 0;
@@ -132,6 +150,7 @@ static int __rrr_msgdb_client_read (
 	}
 
 	out:
+	*delivery_count = callback_data.delivery_count;
 	return ret;
 }
 
@@ -146,12 +165,14 @@ int rrr_msgdb_client_await (
 
 	uint64_t bytes_read = 0;
 	uint64_t bytes_read_prev = 0;
+	unsigned int delivery_count = 0;
 
 	retry:
 
 	if ((ret = __rrr_msgdb_client_read (
 			conn,
 			0, /* Process at most one message */
+			&delivery_count,
 			delivery_callback,
 			delivery_callback_arg
 	)) != 0) {
@@ -171,6 +192,11 @@ int rrr_msgdb_client_await (
 		goto out;
 	}
 
+	if (delivery_count == 0) {
+		// Any PONG message arriving first is not the awaited response
+		goto retry;
+	}
+
 	out:
 	RRR_FREE_IF_NOT_NULL(msg_tmp);
 	return ret;
@@ -351,6 +377,7 @@ static void __rrr_msgdb_client_event_read (
 
 	int ret_tmp = 0;
 	int max = 100;
+	unsigned int delivery_count_dummy = 0;
 
 	RRR_EVENT_HOOK();
 
@@ -358,6 +385,7 @@ static void __rrr_msgdb_client_event_read (
 	if ((ret_tmp = __rrr_msgdb_client_read (
 			conn,
 			1, /* Allow multiple messages being processed per round */
+			&delivery_count_dummy,
 			conn->delivery_callback,
 			conn->delivery_callback_arg
 	)) != 0) {
-- 
2.43.0


From 07093819ceb91a06c568f7135b62a38845e6797b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:41:46 +0000
Subject: [PATCH 119/155] fix: password file was missing when terminated while
 updating it, .old files of others were removed and -s wrote to standard input

---
 src/rrr_passwd.c | 46 ++++++++++------------------------------------
 1 file changed, 10 insertions(+), 36 deletions(-)

diff --git a/src/rrr_passwd.c b/src/rrr_passwd.c
index dbfd1a3..3af2055 100644
--- a/src/rrr_passwd.c
+++ b/src/rrr_passwd.c
@@ -451,10 +451,10 @@ int main (int argc, const char **argv, const char **env) {
 	rrr_strerror_init();
 
 	int fd_out = 0;
+	int do_rename = 0;
 	rrr_biglength passwd_file_size = 0;
 	char *passwd_file_contents = NULL;
 	char *temporary_file_name = NULL;
-	char *oldfile_name = NULL;
 
 	struct cmd_data cmd;
 	struct rrr_passwd_data data;
@@ -517,14 +517,8 @@ int main (int argc, const char **argv, const char **env) {
 		goto out;
 	}
 
-	if (rrr_asprintf(&oldfile_name, "%s.old", data.filename) < 0) {
-		RRR_MSG_0("Could not create oldfile name\n");
-		ret = EXIT_FAILURE;
-		goto out;
-	}
-
 	if (data.do_stdout != 0) {
-		fd_out = 0; // STDOUT
+		fd_out = STDOUT_FILENO;
 	}
 	else {
 		if ((fd_out = rrr_socket_mkstemp(temporary_file_name, "rrr_passwd")) <= 0) {
@@ -533,6 +527,7 @@ int main (int argc, const char **argv, const char **env) {
 			ret = EXIT_FAILURE;
 			goto out;
 		}
+		do_rename = 1;
 	}
 
 	if (data.password != NULL && *(data.password) == '\0') {
@@ -569,51 +564,30 @@ int main (int argc, const char **argv, const char **env) {
 		goto out;
 	}
 
-	if (fd_out > 0) {
-		if (rename(data.filename, oldfile_name) != 0) {
-			RRR_MSG_0("Could not move original file '%s' ot '%s': %s\n",
-					data.filename, oldfile_name, rrr_strerror(errno));
-			ret = 1;
-			goto out;
-		}
-
-		// After this, all gotos after errors are to restore_oldfile
-
+	if (do_rename) {
+		// The original file is replaced atomically
 		if (rename(temporary_file_name, data.filename) != 0) {
 			RRR_MSG_0("Could not rename temporary file '%s' to '%s': %s\n",
 					temporary_file_name, data.filename, rrr_strerror(errno));
-			ret = 1;
-			goto out_restore_oldfile;
+			ret = EXIT_FAILURE;
+			goto out;
 		}
-
-		// Oldfile gets unlinked below
+		RRR_FREE_IF_NOT_NULL(temporary_file_name);
 	}
 
 	goto out;
 
-	out_restore_oldfile:
-		if (rename(oldfile_name, data.filename)) {
-			RRR_MSG_0("Warning: Could not restore oldfile '%s' to original file '%s' while recovering from error, this must be fixed manually. Original file is now missing.: %s\n",
-					oldfile_name, data.filename, rrr_strerror(errno));
-			// Make sure oldfile (which is now the original file) is not unlinked
-			RRR_FREE_IF_NOT_NULL(oldfile_name);
-		}
 	out:
 		RRR_FREE_IF_NOT_NULL(passwd_file_contents);
 		// Looks like Linux unlinks the file in case we forget, but this does not
 		// seem to be documented. Unlink here.
-		if (temporary_file_name != NULL && *temporary_file_name != '\0' && fd_out > 0) {
-			// Ignore results in case we attempt to unlink the XXXXXX version
+		if (temporary_file_name != NULL && *temporary_file_name != '\0' && do_rename) {
 			unlink(temporary_file_name);
 		}
-		if (oldfile_name != NULL && *oldfile_name != '\0') {
-			unlink(oldfile_name);
-		}
 
-		RRR_FREE_IF_NOT_NULL(oldfile_name);
 		RRR_FREE_IF_NOT_NULL(temporary_file_name);
 
-		if (fd_out > 0) {
+		if (do_rename) {
 			rrr_socket_close(fd_out);
 		}
 		rrr_config_set_debuglevel_on_exit();
-- 
2.43.0


From 09bddd3c80d6566926cb3df5dff3441ba223f731 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:41:46 +0000
Subject: [PATCH 120/155] fix: password file was truncated upon short writes

---
 src/rrr_passwd.c | 17 ++++++++++++++++-
 1 file changed, 16 insertions(+), 1 deletion(-)

diff --git a/src/rrr_passwd.c b/src/rrr_passwd.c
index 3af2055..b2adc45 100644
--- a/src/rrr_passwd.c
+++ b/src/rrr_passwd.c
@@ -250,8 +250,23 @@ static int __rrr_passwd_parse_config (struct rrr_passwd_data *data, struct cmd_d
 	return ret;
 }
 
+static int __rrr_passwd_write (int fd, const char *str, size_t len) {
+	while (len > 0) {
+		ssize_t bytes = write(fd, str, len);
+		if (bytes < 0) {
+			if (errno == EINTR) {
+				continue;
+			}
+			return 1;
+		}
+		str += bytes;
+		len -= (size_t) bytes;
+	}
+	return 0;
+}
+
 #define WRITE_AND_CHECK(str,len)                               \
-    if (write(fd, str, len) < 0) {                             \
+    if (__rrr_passwd_write(fd, str, len) != 0) {               \
         RRR_MSG_0("Could not write to output file in process_line_callback\n"); \
         ret = 1;                                               \
         goto out;                                              \
-- 
2.43.0


From dce23b3ec5cdc564e074bb5a1d076f75fc668389 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:41:46 +0000
Subject: [PATCH 121/155] fix: newlines in user names and permissions made
 lines of their own in the password file

---
 src/rrr_passwd.c | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/src/rrr_passwd.c b/src/rrr_passwd.c
index b2adc45..b796625 100644
--- a/src/rrr_passwd.c
+++ b/src/rrr_passwd.c
@@ -123,6 +123,14 @@ static int __rrr_passwd_validate_str (const char *str) {
 		RRR_MSG_0("Invalid character ','\n");
 		ret = 1;
 	}
+	for (const char *pos = str; *pos != '\0'; pos++) {
+		// Would be line separators in the file
+		if (*pos == '\r' || *pos == '\n') {
+			RRR_MSG_0("Invalid newline character\n");
+			ret = 1;
+			break;
+		}
+	}
 
 	return ret;
 }
-- 
2.43.0


From a043d0b2751b082a72c9966f19fbfb3c2e04d6b1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:42:13 +0000
Subject: [PATCH 122/155] fix: user names with leading space could be created
 but never found in the password file

---
 src/rrr_passwd.c | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/rrr_passwd.c b/src/rrr_passwd.c
index b796625..5907f23 100644
--- a/src/rrr_passwd.c
+++ b/src/rrr_passwd.c
@@ -232,6 +232,12 @@ static int __rrr_passwd_parse_config (struct rrr_passwd_data *data, struct cmd_d
 		RRR_MSG_0("Invalid characters in username\n");
 		goto out;
 	}
+	if (*username == ' ' || *username == '\t') {
+		// Leading spaces are ignored when the file is read
+		RRR_MSG_0("Username may not begin with a space\n");
+		ret = 1;
+		goto out;
+	}
 
 	// Validate option combinations
 	if (data->do_remove_user != 0) {
-- 
2.43.0


From 5c1c1d2c4e9122b91d473407c9ee15b5d8b40f86 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:42:13 +0000
Subject: [PATCH 123/155] fix: password file with more than 32 permissions for
 a user was written and could not be read afterwards

---
 src/lib/passwd.c | 2 +-
 src/lib/passwd.h | 2 ++
 src/rrr_passwd.c | 6 +++++-
 3 files changed, 8 insertions(+), 2 deletions(-)

diff --git a/src/lib/passwd.c b/src/lib/passwd.c
index 1169b79..3a90036 100644
--- a/src/lib/passwd.c
+++ b/src/lib/passwd.c
@@ -503,7 +503,7 @@ static int __rrr_passwd_iterate_lines_split_columns_callback (
 	return rrr_parse_str_split (
 			callback_data->permissions,
 			',',
-			32,
+			RRR_PASSWD_PERMISSIONS_MAX,
 			__rrr_passwd_iterate_lines_split_permissions_callback,
 			arg
 	);
diff --git a/src/lib/passwd.h b/src/lib/passwd.h
index bb30780..54b540f 100644
--- a/src/lib/passwd.h
+++ b/src/lib/passwd.h
@@ -59,6 +59,8 @@ int rrr_passwd_encrypt (
 		const char *password
 );
 
+#define RRR_PASSWD_PERMISSIONS_MAX 32
+
 #define RRR_PASSWD_ITERATE_OK	0
 #define RRR_PASSWD_ITERATE_ERR	1
 #define RRR_PASSWD_ITERATE_STOP	2
diff --git a/src/rrr_passwd.c b/src/rrr_passwd.c
index 5907f23..9b2039d 100644
--- a/src/rrr_passwd.c
+++ b/src/rrr_passwd.c
@@ -333,7 +333,11 @@ static int __rrr_passwd_write_user (
 				WRITE_AND_CHECK(",", 1);
 			}
 			WRITE_AND_CHECK(node->permission, strlen(node->permission));
-			permissions_total++;
+			if (++permissions_total > RRR_PASSWD_PERMISSIONS_MAX) {
+				RRR_MSG_0("Too many permissions for user '%s', maximum is %i\n", username, RRR_PASSWD_PERMISSIONS_MAX);
+				ret = 1;
+				goto out;
+			}
 		}
 	RRR_LL_ITERATE_END();
 
-- 
2.43.0


From 35e869db3bd4f96938e4a2635ef8a5f6384bf121 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:42:13 +0000
Subject: [PATCH 124/155] fix: passwords beginning with the stored password
 were accepted for base64 enctype

---
 src/lib/passwd.c | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/lib/passwd.c b/src/lib/passwd.c
index 3a90036..46356e4 100644
--- a/src/lib/passwd.c
+++ b/src/lib/passwd.c
@@ -165,7 +165,10 @@ static int __rrr_passwd_check_base64 (
 		goto out;
 	}
 
-	if (memcmp(hash, base64_tmp, strlen(hash)) == 0) {
+	// Newlines are not stored in the password file
+	rrr_parse_str_strip_newlines((char *) base64_tmp);
+
+	if (strcmp(hash, (const char *) base64_tmp) == 0) {
 		ret = 0; // Authenticated
 	}
 	else {
-- 
2.43.0


From 60274635762365fdfadfd7dd7d88caa89fdaa29d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:42:13 +0000
Subject: [PATCH 125/155] fix: password hashes with short salt crashed programs
 and short hashes were read past their end

---
 src/lib/passwd.c | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/src/lib/passwd.c b/src/lib/passwd.c
index 46356e4..b8662e7 100644
--- a/src/lib/passwd.c
+++ b/src/lib/passwd.c
@@ -215,7 +215,9 @@ static int __rrr_passwd_openssl_encrypt (
 	}
 
 	if (salt_bin_length < RRR_PASSWD_SALT_BYTES) {
-		RRR_BUG("BUG:Salt too short in __rrr_passwd_openssl_encrypt\n");
+		RRR_MSG_0("Salt too short in __rrr_passwd_openssl_encrypt\n");
+		ret = 1;
+		goto out;
 	}
 
 	size_t password_plain_length = strlen(password_plain);
@@ -267,6 +269,11 @@ static int __rrr_passwd_check_openssl (
 		goto out;
 	}
 
+	if (hash_raw_length != RRR_PASSWD_HASH_KEY_LENGTH) {
+		RRR_MSG_0("Hash has wrong length in __rrr_passwd_check_openssl\n");
+		goto out;
+	}
+
 	if (__rrr_passwd_openssl_encrypt(tmp, password, (const unsigned char *) salt) != 0) {
 		goto out;
 	}
-- 
2.43.0


From 39be0329eeb80feeafe69b34bb565a73b7267132 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:42:13 +0000
Subject: [PATCH 126/155] fix: only the first part of a password on standard
 input was used if it came in parts or had null characters

---
 src/lib/passwd.c | 27 ++++++++++++++++++++++-----
 1 file changed, 22 insertions(+), 5 deletions(-)

diff --git a/src/lib/passwd.c b/src/lib/passwd.c
index b8662e7..198ef4a 100644
--- a/src/lib/passwd.c
+++ b/src/lib/passwd.c
@@ -868,13 +868,24 @@ int rrr_passwd_read_password_from_stdin (
 
 	char buf[RRR_PASSWD_MAX_INPUT_LENGTH];
 
-	ssize_t bytes = read(STDIN_FILENO, buf, RRR_PASSWD_MAX_INPUT_LENGTH - 1);
+	size_t bytes = 0;
 
-	if (bytes < 0) {
-		RRR_MSG_0("Could not read password from stdin: %s\n", rrr_strerror(errno));
-		ret = 1;
-		goto out;
+	while (bytes < RRR_PASSWD_MAX_INPUT_LENGTH - 1) {
+		ssize_t bytes_tmp = read(STDIN_FILENO, buf + bytes, RRR_PASSWD_MAX_INPUT_LENGTH - 1 - bytes);
+		if (bytes_tmp < 0) {
+			if (errno == EINTR) {
+				continue;
+			}
+			RRR_MSG_0("Could not read password from stdin: %s\n", rrr_strerror(errno));
+			ret = 1;
+			goto out;
+		}
+		if (bytes_tmp == 0) {
+			break;
+		}
+		bytes += (size_t) bytes_tmp;
 	}
+
 	if (bytes == 0) {
 		RRR_MSG_0("Password was empty while reading from standard input\n");
 		ret = 1;
@@ -886,6 +897,12 @@ int rrr_passwd_read_password_from_stdin (
 		goto out;
 	}
 
+	if (memchr(buf, '\0', bytes) != NULL) {
+		RRR_MSG_0("Password read from standard input contains null character\n");
+		ret = 1;
+		goto out;
+	}
+
 	buf[bytes] = '\0';
 
 	*result = rrr_strdup(buf);
-- 
2.43.0


From 97aede74b83f191b6879cc5cc5bbe69c1d7b0114 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:26:22 +0000
Subject: [PATCH 127/155] fix: MQTT client lost its session and unacknowledged
 messages upon every disconnect with version 3.1.1

---
 src/lib/mqtt/mqtt_client.c | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/src/lib/mqtt/mqtt_client.c b/src/lib/mqtt/mqtt_client.c
index b682446..dcae6a6 100644
--- a/src/lib/mqtt/mqtt_client.c
+++ b/src/lib/mqtt/mqtt_client.c
@@ -538,8 +538,6 @@ int rrr_mqtt_client_connect (
 		);
 
 		if (session_expiry == NULL) {
-			// Default for version 3.1 is that sessions do not expire,
-			// only use clean session to control this
 			session_properties_tmp.numbers.session_expiry = 0xffffffff;
 
 			if (rrr_mqtt_property_collection_add_uint32 (
@@ -553,6 +551,11 @@ int rrr_mqtt_client_connect (
 			}
 		}
 	}
+	else if (!RRR_MQTT_P_CONNECT_GET_FLAG_CLEAN_START(connect)) {
+		// Default for version 3.1 is that sessions do not expire,
+		// only use clean session to control this
+		session_properties_tmp.numbers.session_expiry = 0xffffffff;
+	}
 
 	data->protocol_version = protocol_version;
 
-- 
2.43.0


From 90f1602060119c9f0a7b34469e3097b59cdf64f6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:26:22 +0000
Subject: [PATCH 128/155] fix: MQTT client crashed with will topic but no will
 message set

---
 src/lib/mqtt/mqtt_client.c | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/lib/mqtt/mqtt_client.c b/src/lib/mqtt/mqtt_client.c
index dcae6a6..7ca7b70 100644
--- a/src/lib/mqtt/mqtt_client.c
+++ b/src/lib/mqtt/mqtt_client.c
@@ -409,9 +409,9 @@ static int __rrr_mqtt_client_connect_set_will (
 		goto out;
 	}
 
-	if ((ret = rrr_nullsafe_str_new_or_replace (
-			&connect->will_message,
-			will_message
+	if ((ret = (will_message != NULL
+			? rrr_nullsafe_str_new_or_replace (&connect->will_message, will_message)
+			: rrr_nullsafe_str_new_or_replace_empty (&connect->will_message)
 	)) != 0) {
 		RRR_MSG_0("Failed to set will message in %s\n", __func__);
 		goto out;
-- 
2.43.0


From b4af17d1b61ed7e754affcb2b43c89b14bfe1d55 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:26:22 +0000
Subject: [PATCH 129/155] fix: MQTT client made retained messages expire
 immediately when the retain tag was zero or not a number

---
 src/modules/p_mqttclient.c | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/modules/p_mqttclient.c b/src/modules/p_mqttclient.c
index a297817..8c348c2 100644
--- a/src/modules/p_mqttclient.c
+++ b/src/modules/p_mqttclient.c
@@ -535,6 +535,11 @@ static int mqttclient_publish_handle_retain (
 	}
 #endif
 
+	if (expiry_interval_s == 0) {
+		// Never expires
+		goto out;
+	}
+
 	publish->message_expiry_interval = (uint32_t) expiry_interval_s;
 
 	if (rrr_mqtt_property_collection_add_uint32 (
-- 
2.43.0


From 7cddffd19bcbf01535de18f5f17306dbd171880e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:26:22 +0000
Subject: [PATCH 130/155] fix: MQTT client stopped the program upon commands
 with invalid topic filters

---
 src/modules/p_mqttclient.c | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/modules/p_mqttclient.c b/src/modules/p_mqttclient.c
index 8c348c2..1784a75 100644
--- a/src/modules/p_mqttclient.c
+++ b/src/modules/p_mqttclient.c
@@ -671,6 +671,11 @@ static int mqttclient_process_command_get_topic_filters (
 			if ((ret = node->definition->to_str (&topic_filter_tmp, node)) != 0) {
 				goto out;
 			}
+			if (rrr_mqtt_topic_filter_validate_name(topic_filter_tmp) != 0) {
+				RRR_MSG_0("Warning: Invalid topic filter '%s' in command to mqtt client instance %s\n",
+						topic_filter_tmp, INSTANCE_D_NAME(data->thread_data));
+				goto out;
+			}
 			if ((ret = mqttclient_subscription_push (subscriptions_tmp, data, 0, topic_filter_tmp)) != 0) {
 				goto out;
 			}
-- 
2.43.0


From e7f8405f04205e48d0469246a2060d5c194eef44 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:26:22 +0000
Subject: [PATCH 131/155] fix: MQTT client aborted or sent invalid packets over
 and over upon messages with invalid topics

---
 src/modules/p_mqttclient.c | 14 ++++++++++++--
 1 file changed, 12 insertions(+), 2 deletions(-)

diff --git a/src/modules/p_mqttclient.c b/src/modules/p_mqttclient.c
index 1784a75..fd99535 100644
--- a/src/modules/p_mqttclient.c
+++ b/src/modules/p_mqttclient.c
@@ -277,8 +277,11 @@ static int mqttclient_publish_set_topic (
 
 	RRR_FREE_IF_NOT_NULL(publish->topic);
 
-	if (MSG_TOPIC_LENGTH(reading) > 0 && *((const char *) MSG_TOPIC_PTR(reading)) == '\0') {
-		RRR_BUG("BUG: Topic first character value was '0' in %s\n", __func__);
+	if (!data->do_force_publish_topic && memchr(MSG_TOPIC_PTR(reading), '\0', MSG_TOPIC_LENGTH(reading)) != NULL) {
+		RRR_MSG_0("Warning: Topic of message to MQTT client instance %s contained null characters. Dropping message.\n",
+				INSTANCE_D_NAME(data->thread_data));
+		*do_drop = 1;
+		goto out;
 	}
 
 	if (data->do_prepend_publish_topic) {
@@ -327,6 +330,13 @@ static int mqttclient_publish_set_topic (
 		goto out;
 	}
 
+	if (strlen(publish->topic) > UINT16_MAX || rrr_mqtt_topic_validate_name(publish->topic) != 0) {
+		RRR_MSG_0("Warning: Topic of message to MQTT client instance %s was not a valid topic name. Dropping message.\n",
+				INSTANCE_D_NAME(data->thread_data));
+		*do_drop = 1;
+		goto out;
+	}
+
 	out:
 	return ret;
 }
-- 
2.43.0


From f5be86c1cff97e37c3a240208081aca8840c1e6a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:30:48 +0000
Subject: [PATCH 132/155] fix: MQTT client ignored the result of processing the
 input queue upon connect

---
 src/modules/p_mqttclient.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/modules/p_mqttclient.c b/src/modules/p_mqttclient.c
index fd99535..3e8acbb 100644
--- a/src/modules/p_mqttclient.c
+++ b/src/modules/p_mqttclient.c
@@ -2358,7 +2358,7 @@ static void *thread_entry_mqtt_client (struct rrr_thread *thread) {
 			thread
 	);
 
-	if (mqttclient_input_queue_process(data) != 0) {
+	if ((ret_tmp = mqttclient_input_queue_process(data)) != 0) {
 		if (ret_tmp & RRR_MQTT_INTERNAL_ERROR) {
 			goto out_destroy_client;
 		}
-- 
2.43.0


From 74838788c717674c7bef23b7bef5a9e5cf83a7f8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:30:55 +0000
Subject: [PATCH 133/155] fix: MQTT client altered received data which looked
 like a message but was damaged

---
 src/modules/p_mqttclient.c | 22 ++++++++++++++--------
 1 file changed, 14 insertions(+), 8 deletions(-)

diff --git a/src/modules/p_mqttclient.c b/src/modules/p_mqttclient.c
index 3e8acbb..00ca87e 100644
--- a/src/modules/p_mqttclient.c
+++ b/src/modules/p_mqttclient.c
@@ -1410,11 +1410,12 @@ static int mqttclient_try_get_rrr_msg_msg_from_publish (
 ) {
 	int ret = 0;
 
+	struct rrr_msg_msg *message = NULL;
+
 	if (publish->payload == NULL) {
 		goto out;
 	}
 
-	struct rrr_msg_msg *message = (struct rrr_msg_msg *) publish->payload->payload_start;
 	const rrr_length message_actual_length = publish->payload->size;
 
 	if (message_actual_length < sizeof(struct rrr_msg)) {
@@ -1425,6 +1426,15 @@ static int mqttclient_try_get_rrr_msg_msg_from_publish (
 
 	*result = NULL;
 
+	// Must work on a copy, the payload is used as it is if it does not contain a valid message
+	if ((message = rrr_allocate(message_actual_length)) == NULL) {
+		RRR_MSG_0("Could not allocate memory in mqttclient_try_get_rrr_msg_msg_from_publish\n");
+		ret = 1;
+		goto out;
+	}
+
+	memcpy(message, publish->payload->payload_start, message_actual_length);
+
 	rrr_length message_stated_length = 0;
 	if (rrr_msg_get_target_size_and_check_checksum (
 			&message_stated_length,
@@ -1458,15 +1468,11 @@ static int mqttclient_try_get_rrr_msg_msg_from_publish (
 		goto out;
 	}
 
-	*result = rrr_allocate(message_actual_length);
-	if (*result == NULL) {
-		RRR_MSG_0("Could not allocate memory in mqttclient_try_get_rrr_msg_msg_from_publish\n");
-		ret = 1;
-		goto out;
-	}
-	memcpy(*result, message, message_actual_length);
+	*result = message;
+	message = NULL;
 
 	out:
+	RRR_FREE_IF_NOT_NULL(message);
 	return ret;
 }
 
-- 
2.43.0


From 3525d592c6ee7cf2b0a366d703500abce3db6c8a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:19:10 +0000
Subject: [PATCH 134/155] fix: empty topic filters in MQTT client commands
 aborted the program

---
 src/lib/mqtt/mqtt_topic.c | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/lib/mqtt/mqtt_topic.c b/src/lib/mqtt/mqtt_topic.c
index 2840712..f93f04a 100644
--- a/src/lib/mqtt/mqtt_topic.c
+++ b/src/lib/mqtt/mqtt_topic.c
@@ -85,6 +85,11 @@ int rrr_mqtt_topic_filter_validate_name (
 ) {
 	struct topic_name_seq seq = { 0, 0, topic_filter };
 
+	if (*topic_filter == '\0') {
+		RRR_MSG_0("Topic filter was empty in %s\n", __func__);
+		return 1;
+	}
+
 	if (strlen(topic_filter) > 0xffff) {
 		RRR_MSG_0("Topic filter too long in %s\n", __func__);
 		return 1;
-- 
2.43.0


From e71c088c07ef357500bed593495f9b5cd4137177 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:19:10 +0000
Subject: [PATCH 135/155] fix: MQTT client left messages in its input queue
 when the send queue had been full

---
 src/modules/p_mqttclient.c | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/src/modules/p_mqttclient.c b/src/modules/p_mqttclient.c
index 00ca87e..451bc73 100644
--- a/src/modules/p_mqttclient.c
+++ b/src/modules/p_mqttclient.c
@@ -2221,6 +2221,14 @@ static int mqttclient_event_periodic (RRR_EVENT_FUNCTION_PERIODIC_ARGS) {
 	}
 	else {
 		data->send_disabled = 0;
+
+		// Process any messages received just before sending was disabled
+		if (RRR_LL_COUNT(&data->input_queue) > 0 && (ret_tmp = mqttclient_input_queue_process(data)) != 0) {
+			return ret_tmp == RRR_MQTT_SESSION_DELETED
+				? RRR_EVENT_EXIT
+				: 1
+			;
+		}
 	}
 
 	mqttclient_update_stats(data);
-- 
2.43.0


From 8ede77fbb4010a31a6cc5ed257fc1ae551836af7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:39:21 +0000
Subject: [PATCH 136/155] fix: MQTT client closed the connection upon repeated
 SUBACK with the same rejection

---
 src/lib/mqtt/mqtt_session_ram.c | 9 ++++-----
 1 file changed, 4 insertions(+), 5 deletions(-)

diff --git a/src/lib/mqtt/mqtt_session_ram.c b/src/lib/mqtt/mqtt_session_ram.c
index 316cc7e..5681a74 100644
--- a/src/lib/mqtt/mqtt_session_ram.c
+++ b/src/lib/mqtt/mqtt_session_ram.c
@@ -1985,9 +1985,9 @@ static int __rrr_mqtt_session_ram_receive_suback (
 					subscription->topic_filter);
 		}
 		else {
-			RRR_MSG_0("Tried to remove non-existent topic '%s' from collection in %s\n", __func__,
+			// Already removed, for instance if an equal SUBSCRIBE has been rejected earlier
+			RRR_DBG_1("Topic '%s' was not in the session subscription collection when it was rejected by the broker\n",
 					subscription->topic_filter);
-			return 1;
 		}
 
 	}
@@ -2051,10 +2051,9 @@ static int __rrr_mqtt_session_ram_receive_unsuback (
 				}
 
 				if (did_remove != 1) {
-					RRR_MSG_0("Tried to remove non-existent topic '%s' from collection in %s\n", __func__,
+					// Already removed, for instance if an equal UNSUBSCRIBE has been acknowledged earlier
+					RRR_DBG_1("Topic '%s' was not in the session subscription collection when it was unsubscribed\n",
 							subscription->topic_filter);
-					ret = RRR_MQTT_SESSION_ERROR;
-					goto out;
 				}
 
 				rrr_length_inc_bug(&removed_count);
-- 
2.43.0


From 17fe9ea58d1cad582bfce3c365f57179a932aff2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:07:20 +0000
Subject: [PATCH 137/155] fix: httpserver left out cache control header in
 responses to OPTIONS requests and in favicon responses

---
 src/modules/p_httpserver.c | 30 +++++++++++++++---------------
 1 file changed, 15 insertions(+), 15 deletions(-)

diff --git a/src/modules/p_httpserver.c b/src/modules/p_httpserver.c
index ca2c18d..908de5b 100644
--- a/src/modules/p_httpserver.c
+++ b/src/modules/p_httpserver.c
@@ -1500,7 +1500,7 @@ static int httpserver_receive_callback (
 		RRR_MSG_0("Fail once debug is active in httpserver, sending 500 to client\n");
 		transaction->response_part->response_code = RRR_HTTP_RESPONSE_CODE_INTERNAL_SERVER_ERROR;
 		fail_once = 0;
-		goto out_cors_headers;
+		goto out_headers;
 	}
 
 	if ((ret = httpserver_response_data_new (&response_data, transaction->unique_id)) != 0) {
@@ -1510,7 +1510,7 @@ static int httpserver_receive_callback (
 	if (transaction->request_part->request_method == RRR_HTTP_METHOD_OPTIONS) {
 		// Don't receive fields, let server framework send default reply
 		RRR_DBG_3("Not processing fields from OPTIONS request, server will send default response.\n");
-		goto out_cors_headers;
+		goto out_headers;
 	}
 
 	if (data->do_topic_format_request) {
@@ -1544,7 +1544,7 @@ static int httpserver_receive_callback (
 
 	if (data->do_favicon_not_found_response && rrr_nullsafe_str_cmpto(transaction->request_part->request_uri_nullsafe, "/favicon.ico") == 0) {
 		transaction->response_part->response_code = RRR_HTTP_RESPONSE_CODE_ERROR_NOT_FOUND;
-		goto out_cors_headers;
+		goto out_headers;
 	}
 
 	////////////////////////////
@@ -1624,14 +1624,6 @@ static int httpserver_receive_callback (
 	// PREPARE RESPONSE //
 	////////////////////// 
 
-	if (data->cache_control_header != NULL && *(data->cache_control_header) != '\0') {
-		if ((ret = rrr_http_part_header_field_push(transaction->response_part, "Cache-Control", data->cache_control_header)) != 0) {
-			RRR_MSG_0("Failed to push cache-control header in %s\n", __func__);
-			ret = 1;
-			goto out;
-		}
-	}
-
 	if (data->do_get_response_from_senders) {
 		rrr_http_transaction_application_data_set(transaction, (void **) &response_data, httpserver_response_data_destroy_void);
 		ret_result = RRR_HTTP_NO_RESULT;
@@ -1642,11 +1634,19 @@ static int httpserver_receive_callback (
 		}
 	}
 
-	//////////////////////////
-	// PROCESS CORS HEADERS //
-	//////////////////////////
+	////////////////////////////////////
+	// PROCESS CACHE AND CORS HEADERS //
+	////////////////////////////////////
+
+	out_headers:
+	if (data->cache_control_header != NULL && *(data->cache_control_header) != '\0') {
+		if ((ret = rrr_http_part_header_field_push(transaction->response_part, "Cache-Control", data->cache_control_header)) != 0) {
+			RRR_MSG_0("Failed to push cache-control header in %s\n", __func__);
+			ret = 1;
+			goto out;
+		}
+	}
 
-	out_cors_headers:
 	if (data->allow_origin_header != NULL && *(data->allow_origin_header) != '\0') {
 		if ((ret = rrr_http_part_header_field_push(transaction->response_part, "access-control-allow-origin", data->allow_origin_header)) != 0) {
 			RRR_MSG_0("Failed to push allow-origin header in %s\n", __func__);
-- 
2.43.0


From a766e7b23ac7a8a61e5b1e7da75f1a763078bebd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:09:26 +0000
Subject: [PATCH 138/155] fix: httpserver refused to decode endpoints when full
 requests were implied by responses from senders

---
 src/modules/p_httpserver.c | 14 +++++++-------
 1 file changed, 7 insertions(+), 7 deletions(-)

diff --git a/src/modules/p_httpserver.c b/src/modules/p_httpserver.c
index 908de5b..52a8972 100644
--- a/src/modules/p_httpserver.c
+++ b/src/modules/p_httpserver.c
@@ -305,13 +305,6 @@ static int httpserver_parse_config (
 	RRR_INSTANCE_CONFIG_PARSE_OPTIONAL_YESNO("http_server_favicon_not_found_response", do_favicon_not_found_response, 0);
 	RRR_INSTANCE_CONFIG_PARSE_OPTIONAL_UNSIGNED("http_server_response_timeout_ms", response_timeout_ms, RRR_HTTPSERVER_DEFAULT_RESPONSE_FROM_SENDERS_TIMEOUT_MS);
 
-	if (data->do_decode_endpoint && !data->do_receive_full_request) {
-		RRR_MSG_0("http_server_decode_endpoint was 'yes' while http_server_receive_full_request was 'no' in httpserver instance %s, this is an invalid configuration.\n",
-				config->name_debug);
-		ret = 1;
-		goto out;
-	}
-
 	if (data->do_get_response_from_senders) {
 		if (RRR_INSTANCE_CONFIG_EXISTS("http_server_receive_full_request") && !data->do_receive_full_request) {
 			RRR_MSG_0("http_server_get_response_from_senders was 'yes' while http_server_receive_full_request was explicitly set to 'no' in httpserver instance %s, this is an invalid configuration.\n",
@@ -322,6 +315,13 @@ static int httpserver_parse_config (
 		data->do_receive_full_request = 1;
 	}
 
+	if (data->do_decode_endpoint && !data->do_receive_full_request) {
+		RRR_MSG_0("http_server_decode_endpoint was 'yes' while http_server_receive_full_request was 'no' in httpserver instance %s, this is an invalid configuration.\n",
+				config->name_debug);
+		ret = 1;
+		goto out;
+	}
+
 	RRR_INSTANCE_CONFIG_PARSE_OPTIONAL_YESNO("http_server_allow_empty_messages", do_allow_empty_messages, 0);
 
 	if (RRR_INSTANCE_CONFIG_EXISTS("http_server_worker_threads")) {
-- 
2.43.0


From 6098a0475e25458e81a6af5be89bcc2c730b18c5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:09:26 +0000
Subject: [PATCH 139/155] fix: httpserver sent no body when the body in the
 response from senders was a number

---
 src/modules/p_httpserver.c | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/src/modules/p_httpserver.c b/src/modules/p_httpserver.c
index 52a8972..8f8f72a 100644
--- a/src/modules/p_httpserver.c
+++ b/src/modules/p_httpserver.c
@@ -1216,12 +1216,18 @@ static int httpserver_async_response_process (
 				}
 				break;
 			default:
-				// TODO : body_to_free is not used afterwards?
 				if ((ret = value_body->definition->to_str(&body_to_free, value_body)) != 0) {
 					RRR_MSG_0("Failed to process body field in httpserver instance %s. Data type of array field was %s.\n",
 						INSTANCE_D_NAME(data->thread_data), value_body->definition->identifier);
 					goto out;
 				}
+				if ((ret = rrr_http_transaction_send_body_set (
+					transaction,
+					body_to_free,
+					rrr_length_from_size_t_bug_const(strlen(body_to_free))
+				)) != 0) {
+					goto out;
+				}
 				break;
 		};
 
-- 
2.43.0


From 24c5fd44f1c14f38593b8850f17c29d7ac22491d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:09:34 +0000
Subject: [PATCH 140/155] fix: httpserver used wrong content type for plain
 data messages in responses from senders

---
 src/modules/p_httpserver.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/modules/p_httpserver.c b/src/modules/p_httpserver.c
index 8f8f72a..59d1bb9 100644
--- a/src/modules/p_httpserver.c
+++ b/src/modules/p_httpserver.c
@@ -1112,7 +1112,7 @@ static int httpserver_async_response_get_extract_data (
 		}
 	}
 	else if (MSG_IS_DATA(msg)) {
-		if ((ret = rrr_array_push_value_str_with_tag_with_size(target, http_common_request_fields.http_body, MSG_DATA_PTR(msg), MSG_DATA_LENGTH(msg))) != 0) {
+		if ((ret = rrr_array_push_value_blob_with_tag_with_size(target, http_common_request_fields.http_body, MSG_DATA_PTR(msg), MSG_DATA_LENGTH(msg))) != 0) {
 			goto out;
 		}
 	}
-- 
2.43.0


From f17d755b06584735d20b119c5645a1ff99a7fd3c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:09:34 +0000
Subject: [PATCH 141/155] fix: httpserver sent content type header in responses
 without body and when it should have been suppressed

---
 src/modules/p_httpserver.c | 6 ++----
 1 file changed, 2 insertions(+), 4 deletions(-)

diff --git a/src/modules/p_httpserver.c b/src/modules/p_httpserver.c
index 59d1bb9..b25f508 100644
--- a/src/modules/p_httpserver.c
+++ b/src/modules/p_httpserver.c
@@ -1250,12 +1250,10 @@ static int httpserver_async_response_process (
 					INSTANCE_D_NAME(data->thread_data));
 				goto out;
 			}
-			if (*content_type_to_free != '\0') {
-				content_type_to_use = content_type_to_free;
-			}
+			content_type_to_use = content_type_to_free;
 		}
 
-		if (content_type_to_use != NULL) {
+		if (*content_type_to_use != '\0' && rrr_nullsafe_str_len(transaction->send_body) > 0) {
 			if ((ret = rrr_http_part_header_field_push(part, "Content-Type", content_type_to_use)) != 0) {
 				goto out;
 			}
-- 
2.43.0


From 3a1fcf24fdab01968aa126df142fbfadda1633ff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:10:37 +0000
Subject: [PATCH 142/155] fix: httpserver aborted upon requests with
 Content-Transfer-Encoding header

---
 src/lib/http/http_header_fields.c | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/lib/http/http_header_fields.c b/src/lib/http/http_header_fields.c
index 9df71f2..20bc691 100644
--- a/src/lib/http/http_header_fields.c
+++ b/src/lib/http/http_header_fields.c
@@ -403,6 +403,8 @@ static const struct rrr_http_header_field_definition definitions[] = {
 	                           RRR_HTTP_HEADER_FIELD_TRIM,              __rrr_http_header_parse_single_unsigned_value},
         {"content-type",           RRR_HTTP_HEADER_FIELD_TRIM,              __rrr_http_header_parse_content_type_value},
         {"content-encoding",       RRR_HTTP_HEADER_FIELD_NO_PAIRS,          __rrr_http_header_parse_single_string_value},
+        {"content-transfer-encoding",
+	                           RRR_HTTP_HEADER_FIELD_NO_PAIRS,          __rrr_http_header_parse_single_string_value},
         {"date",                   RRR_HTTP_HEADER_FIELD_NO_PAIRS,          __rrr_http_header_parse_single_string_value},
         {"link",                   RRR_HTTP_HEADER_FIELD_ALLOW_MULTIPLE |
 	                           RRR_HTTP_HEADER_FIELD_ANGLED_QUOTE_NAME, NULL},
-- 
2.43.0


From fbc2569b45b333df4aeed93bbe05a21a14443460 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:12:07 +0000
Subject: [PATCH 143/155] fix: HTTP/1.1 server dropped requests and mixed up
 responses when pipelined requests waited for responses from application

---
 src/lib/http/http_application_http1.c | 24 ++++++++++++++++++++++++
 1 file changed, 24 insertions(+)

diff --git a/src/lib/http/http_application_http1.c b/src/lib/http/http_application_http1.c
index 7a3c031..4e1a5f3 100644
--- a/src/lib/http/http_application_http1.c
+++ b/src/lib/http/http_application_http1.c
@@ -62,6 +62,9 @@ struct rrr_http_application_http1 {
 	// HTTP1 only has one active transaction at a time
 	struct rrr_http_transaction *active_transaction;
 	rrr_http_unique_id last_unique_id;
+
+	// Set when a new request waits for the response to the previous one
+	int request_deferred;
 };
 
 static void __rrr_http_application_http1_destroy (struct rrr_http_application *app) {
@@ -1083,6 +1086,22 @@ static int __rrr_http_application_http1_receive_get_target_size (
 		goto out;
 	}
 
+	if (receive_data->http1->callbacks.unique_id_generator_callback != NULL &&
+	    read_session->parse_pos == 0 &&
+	    receive_data->http1->active_transaction != NULL &&
+	    receive_data->http1->active_transaction->need_response
+	) {
+		// The response to the previous request must be sent before the next request
+		// is processed. Put data into overshoot so that it is picked up again later.
+		read_session->rx_overshoot = read_session->rx_buf_ptr;
+		read_session->rx_overshoot_size = read_session->rx_buf_wpos;
+		read_session->rx_buf_ptr = NULL;
+		read_session->rx_buf_wpos = 0;
+		receive_data->http1->request_deferred = 1;
+		ret = RRR_HTTP_PARSE_INCOMPLETE;
+		goto out;
+	}
+
 	if (receive_data->http1->callbacks.unique_id_generator_callback == NULL) {
 		// Is client
 		if (receive_data->http1->active_transaction == NULL) {
@@ -1649,6 +1668,8 @@ static int __rrr_http_application_http1_tick (
 					rules
 			};
 
+			http1->request_deferred = 0;
+
 			ret = rrr_net_transport_ctx_read_message (
 						handle,
 						4096,
@@ -1692,6 +1713,9 @@ static void __rrr_http_application_http1_need_tick (
 	) {
 		*speed = RRR_HTTP_TICK_SPEED_SLOW;
 	}
+	else if (http1->request_deferred) {
+		*speed = RRR_HTTP_TICK_SPEED_FAST;
+	}
 }
 
 static void __rrr_http_application_http1_polite_close (
-- 
2.43.0


From b37db7727f498d1ce53554217a52b9a8138cb8cb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:12:50 +0000
Subject: [PATCH 144/155] fix: HTTP server sent body in responses to HEAD
 requests

---
 src/lib/http/http_transaction.c | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/lib/http/http_transaction.c b/src/lib/http/http_transaction.c
index 4c9c168..448e4d1 100644
--- a/src/lib/http/http_transaction.c
+++ b/src/lib/http/http_transaction.c
@@ -693,6 +693,12 @@ int rrr_http_transaction_response_prepare_wrapper (
 		goto out;
 	}
 
+	// The content length is that of the response which would have been sent to
+	// a GET request, but a response to HEAD must never have an actual body.
+	if (transaction->request_part->request_method == RRR_HTTP_METHOD_HEAD) {
+		rrr_nullsafe_str_destroy_if_not_null(&transaction->send_body);
+	}
+
 	if ((ret = final_callback (
 			transaction,
 			callback_arg
-- 
2.43.0


From da6554d9a6f6053759ee5fee719876d0b50c61c4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:14:54 +0000
Subject: [PATCH 145/155] fix: httpserver sent messages in body fields in host
 byte order without checksums

---
 src/modules/p_httpserver.c | 22 +++++++++++++++++++++-
 1 file changed, 21 insertions(+), 1 deletion(-)

diff --git a/src/modules/p_httpserver.c b/src/modules/p_httpserver.c
index b25f508..9907753 100644
--- a/src/modules/p_httpserver.c
+++ b/src/modules/p_httpserver.c
@@ -1177,6 +1177,7 @@ static int httpserver_async_response_process (
 
 	char *content_type_to_free = NULL;
 	char *body_to_free = NULL;
+	rrr_length body_length = 0;
 
 	if (value_response_code != NULL) {
 		VERIFY_SINGLE_ELEMENT(value_response_code, "response code");
@@ -1202,8 +1203,27 @@ static int httpserver_async_response_process (
 		switch (value_body->definition->type) {
 			case RRR_TYPE_VAIN:
 				break;
-			case RRR_TYPE_BLOB:
 			case RRR_TYPE_MSG:
+				// Messages are stored in host format
+				if ((body_to_free = rrr_allocate(value_body->total_stored_length)) == NULL) {
+					RRR_MSG_0("Could not allocate memory for message body in %s\n", __func__);
+					ret = 1;
+					goto out;
+				}
+				if ((ret = value_body->definition->do_export(body_to_free, &body_length, value_body)) != 0) {
+					RRR_MSG_0("Failed to export message in body field in httpserver instance %s\n",
+						INSTANCE_D_NAME(data->thread_data));
+					goto out;
+				}
+				if ((ret = rrr_http_transaction_send_body_set (
+					transaction,
+					body_to_free,
+					body_length
+				)) != 0) {
+					goto out;
+				}
+				break;
+			case RRR_TYPE_BLOB:
 			case RRR_TYPE_STR:
 				if (value_body->total_stored_length > 0) {
 					if ((ret = rrr_http_transaction_send_body_set (
-- 
2.43.0


From 9ca460cb29eb5e88c0a5c7fcdb358b8b2db346c4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:20:43 +0000
Subject: [PATCH 146/155] fix: httpserver deleted responses from senders before
 use when the response timeout was 0

---
 src/modules/p_httpserver.c | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/src/modules/p_httpserver.c b/src/modules/p_httpserver.c
index 9907753..251e3b9 100644
--- a/src/modules/p_httpserver.c
+++ b/src/modules/p_httpserver.c
@@ -2153,7 +2153,13 @@ static int httpserver_housekeep_callback (RRR_FIFO_READ_CALLBACK_ARGS) {
 		RRR_BUG("BUG: Buffer time was 0 for entry in %s\n", __func__);
 	}
 
-	uint64_t timeout = entry->buffer_time + callback_data->httpserver_data->response_timeout_ms * 1000;
+	// When there is no timeout for requests, responses must still be kept for long
+	// enough for the requests to find them.
+	const rrr_setting_uint timeout_ms = callback_data->httpserver_data->response_timeout_ms != 0
+		? callback_data->httpserver_data->response_timeout_ms
+		: RRR_HTTPSERVER_DEFAULT_RESPONSE_FROM_SENDERS_TIMEOUT_MS;
+
+	uint64_t timeout = entry->buffer_time + timeout_ms * 1000;
 	if (rrr_time_get_64() > timeout) {
 		struct rrr_msg_msg *msg = entry->message;
 		RRR_DBG_1("httpserver instance %s deleting message from senders of size %u which has timed out\n",
-- 
2.43.0


From 8308e1dba7bff493eae217e443710e493d0f801c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:24:01 +0000
Subject: [PATCH 147/155] fix: httpserver aborted upon requests with targets
 not beginning with / when topic format was request

---
 src/modules/p_httpserver.c | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/src/modules/p_httpserver.c b/src/modules/p_httpserver.c
index 251e3b9..ba74253 100644
--- a/src/modules/p_httpserver.c
+++ b/src/modules/p_httpserver.c
@@ -1454,8 +1454,15 @@ static int httpserver_receive_endpoint_clean_callback (
 
 	int ret = 0;
 
-	assert(endpoint_cleaned_length > 0);
-	assert(* (const char *) endpoint_cleaned == '/');
+	// The target of a request might also be an absolute URI, an asterisk or something else
+
+	if (endpoint_cleaned_length == 0 || * (const char *) endpoint_cleaned != '/') {
+		RRR_MSG_0("Endpoint did not begin with / while creating message topic with format 'request' " \
+			"in httpserver instance %s, cannot create request message.\n",
+			INSTANCE_D_NAME(data->thread_data));
+		ret = RRR_HTTP_SOFT_ERROR;
+		goto out;
+	}
 
 	// NULL bytes are allowed in HTTP, ensure that any values used for the topic do not contain any
 
-- 
2.43.0


From e156f95db1b590027bc2de723c92e86a5a316642 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:24:01 +0000
Subject: [PATCH 148/155] fix: httpserver aborted upon requests with long
 endpoints when topic format was request

---
 src/modules/p_httpserver.c | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/src/modules/p_httpserver.c b/src/modules/p_httpserver.c
index ba74253..b8f5c3b 100644
--- a/src/modules/p_httpserver.c
+++ b/src/modules/p_httpserver.c
@@ -1495,6 +1495,13 @@ static int httpserver_receive_endpoint_clean_callback (
 		goto out;
 	}
 
+	if (strlen(*callback_data->result_topic) > RRR_MSG_TOPIC_MAX) {
+		RRR_MSG_0("Topic with format 'request' was too long in httpserver instance %s, cannot create request message.\n",
+			INSTANCE_D_NAME(data->thread_data));
+		ret = RRR_HTTP_SOFT_ERROR;
+		goto out;
+	}
+
 	out:
 	return ret;
 }
-- 
2.43.0


From f8a02eeef4c65364b8618a2db7d61f79505f31e6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:31:17 +0000
Subject: [PATCH 149/155] fix: websocket messages were lost when control frames
 arrived between their fragments

---
 src/lib/websocket/websocket.c | 63 ++++++++++++++++++++---------------
 1 file changed, 37 insertions(+), 26 deletions(-)

diff --git a/src/lib/websocket/websocket.c b/src/lib/websocket/websocket.c
index 3a99193..df011cb 100644
--- a/src/lib/websocket/websocket.c
+++ b/src/lib/websocket/websocket.c
@@ -376,45 +376,50 @@ int __rrr_websocket_get_target_size (
 	return ret;
 }
 
-int __rrr_websocket_receive_callback_final_step (
+static int __rrr_websocket_receive_callback_control_step (
 		struct rrr_websocket_state *ws_state,
-		const struct rrr_nullsafe_str *payload,
-		int (*final_callback)(RRR_WEBSOCKET_FRAME_CALLBACK_ARGS),
-		void *final_callback_arg
+		uint8_t opcode,
+		rrr_biglength payload_size
 ) {
-	int ret = 0;
-
-	RRR_DBG_3("Websocket receive frame type %u size %" PRIrrr_nullsafe_len "\n",
-			ws_state->last_receive_opcode, rrr_nullsafe_str_len(payload));
+	RRR_DBG_3("Websocket receive frame type %u size %" PRIrrrbl "\n",
+			opcode, payload_size);
 
 	// last_receive time is updated in get_target_size function
 
-	switch (ws_state->last_receive_opcode) {
+	switch (opcode) {
 		case RRR_WEBSOCKET_OPCODE_CONNECTION_CLOSE:
-			ret = RRR_READ_EOF;
-			goto out;
+			return RRR_READ_EOF;
 		case RRR_WEBSOCKET_OPCODE_PING:
-			ret = rrr_websocket_frame_enqueue (
+			return rrr_websocket_frame_enqueue (
 					ws_state,
 					RRR_WEBSOCKET_OPCODE_PONG,
 					NULL,
 					0
 			);
-			break;
 		case RRR_WEBSOCKET_OPCODE_PONG:
 			ws_state->waiting_for_pong = 0;
 			break;
-		default:
-			ret = final_callback (
-					ws_state->last_receive_opcode,
-					payload,
-					final_callback_arg
-			);
-			break;
 	};
 
-	out:
-	return ret;
+	return RRR_READ_OK;
+}
+
+int __rrr_websocket_receive_callback_final_step (
+		struct rrr_websocket_state *ws_state,
+		const struct rrr_nullsafe_str *payload,
+		int (*final_callback)(RRR_WEBSOCKET_FRAME_CALLBACK_ARGS),
+		void *final_callback_arg
+) {
+	RRR_DBG_3("Websocket receive frame type %u size %" PRIrrr_nullsafe_len "\n",
+			ws_state->last_receive_opcode, rrr_nullsafe_str_len(payload));
+
+	// last_receive time is updated in get_target_size function
+
+	return final_callback (
+			ws_state->last_receive_opcode,
+			payload,
+			final_callback_arg
+	);
 }
 
 static int __rrr_websocket_receive_callback_fragmentation_step_nullsafe_callback (
@@ -507,9 +512,6 @@ int __rrr_websocket_receive_callback_interpret_step (
 
 	// Zero opcode means CONTINUATION frame
 	if (opcode) {
-		// First non-fin frame has opcode, start new fragmented frame and reset header
-		rrr_websocket_state_clear_receive(ws_state);
-
 		switch (opcode) {
 			case RRR_WEBSOCKET_OPCODE_CONNECTION_CLOSE:
 			case RRR_WEBSOCKET_OPCODE_PING:
@@ -524,7 +526,13 @@ int __rrr_websocket_receive_callback_interpret_step (
 					ret = RRR_READ_SOFT_ERROR;
 					goto out;
 				}
-				break;
+				// Control frames may arrive between the fragments of another frame, leave these be
+				ret = __rrr_websocket_receive_callback_control_step (
+						ws_state,
+						opcode,
+						payload_len
+				);
+				goto out;
 			case RRR_WEBSOCKET_OPCODE_TEXT:
 			case RRR_WEBSOCKET_OPCODE_BINARY:
 				break;
@@ -540,6 +548,9 @@ int __rrr_websocket_receive_callback_interpret_step (
 			goto out;
 		}
 
+		// First non-fin frame has opcode, start new fragmented frame and reset header
+		rrr_websocket_state_clear_receive(ws_state);
+
 		ws_state->last_receive_opcode = opcode;
 	}
 
-- 
2.43.0


From af3393262d0e011a5d4d9c5890393d8a80cb2c82 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:31:17 +0000
Subject: [PATCH 150/155] fix: httpserver received binary websocket frames also
 when not told to accept them

---
 src/modules/p_httpserver.c | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/modules/p_httpserver.c b/src/modules/p_httpserver.c
index b8f5c3b..02e6e1b 100644
--- a/src/modules/p_httpserver.c
+++ b/src/modules/p_httpserver.c
@@ -2070,6 +2070,12 @@ static int httpserver_websocket_frame_callback (RRR_HTTP_SERVER_WORKER_WEBSOCKET
 
 	char *topic = NULL;
 
+	if (is_binary && !data->do_accept_websocket_binary && !data->do_receive_websocket_rrr_message) {
+		RRR_DBG_3("httpserver instance %s ignoring binary websocket frame\n",
+				INSTANCE_D_NAME(data->thread_data));
+		goto out;
+	}
+
 	if ((ret = httpserver_generate_unique_topic_base (
 			&topic,
 			RRR_HTTPSERVER_WEBSOCKET_TOPIC_PREFIX,
-- 
2.43.0


From d1f6989b93066efb5b15990613276a31d9836bd8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:31:51 +0000
Subject: [PATCH 151/155] fix: websocket pong frames did not carry the payload
 of the ping

---
 src/lib/websocket/websocket.c | 28 +++++++++++++++++++++++-----
 1 file changed, 23 insertions(+), 5 deletions(-)

diff --git a/src/lib/websocket/websocket.c b/src/lib/websocket/websocket.c
index df011cb..6b3956d 100644
--- a/src/lib/websocket/websocket.c
+++ b/src/lib/websocket/websocket.c
@@ -379,8 +379,13 @@ int __rrr_websocket_get_target_size (
 static int __rrr_websocket_receive_callback_control_step (
 		struct rrr_websocket_state *ws_state,
 		uint8_t opcode,
+		const uint8_t *payload,
 		rrr_biglength payload_size
 ) {
+	int ret = RRR_READ_OK;
+
+	char *pong_payload = NULL;
+
 	RRR_DBG_3("Websocket receive frame type %u size %" PRIrrrbl "\n",
 			opcode, payload_size);
 
@@ -388,20 +393,32 @@ static int __rrr_websocket_receive_callback_control_step (
 
 	switch (opcode) {
 		case RRR_WEBSOCKET_OPCODE_CONNECTION_CLOSE:
-			return RRR_READ_EOF;
+			ret = RRR_READ_EOF;
+			break;
 		case RRR_WEBSOCKET_OPCODE_PING:
-			return rrr_websocket_frame_enqueue (
+			// The response must have the same payload as the ping
+			if (payload_size > 0) {
+				if ((pong_payload = rrr_allocate(payload_size)) == NULL) {
+					RRR_MSG_0("Could not allocate memory in %s\n", __func__);
+					ret = RRR_READ_HARD_ERROR;
+					break;
+				}
+				memcpy(pong_payload, payload, payload_size);
+			}
+			ret = rrr_websocket_frame_enqueue (
 					ws_state,
 					RRR_WEBSOCKET_OPCODE_PONG,
-					NULL,
-					0
+					&pong_payload,
+					payload_size
 			);
+			break;
 		case RRR_WEBSOCKET_OPCODE_PONG:
 			ws_state->waiting_for_pong = 0;
 			break;
 	};
 
-	return RRR_READ_OK;
+	RRR_FREE_IF_NOT_NULL(pong_payload);
+	return ret;
 }
 
 int __rrr_websocket_receive_callback_final_step (
@@ -530,6 +547,7 @@ int __rrr_websocket_receive_callback_interpret_step (
 				ret = __rrr_websocket_receive_callback_control_step (
 						ws_state,
 						opcode,
+						payload,
 						payload_len
 				);
 				goto out;
-- 
2.43.0


From 72e47ae70100f50b13ea9c7e3648df56dfc71694 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:34:33 +0000
Subject: [PATCH 152/155] fix: HTTP server sent websocket responses and pings
 only when data was received from the client

---
 src/lib/http/http_application_http1.c | 12 +++++++++++-
 1 file changed, 11 insertions(+), 1 deletion(-)

diff --git a/src/lib/http/http_application_http1.c b/src/lib/http/http_application_http1.c
index 4e1a5f3..5975ab3 100644
--- a/src/lib/http/http_application_http1.c
+++ b/src/lib/http/http_application_http1.c
@@ -1297,9 +1297,11 @@ static int __rrr_http_application_http1_websocket_responses_get (
 	void *response_data = NULL;
 	rrr_biglength response_data_len = 0;
 	int response_is_binary = 0;
+	int found;
 
 	do {
 		RRR_FREE_IF_NOT_NULL(response_data);
+		found = 0;
 		if ((ret = callback (
 				http1->application_websocket_topic,
 				&response_data,
@@ -1311,6 +1313,9 @@ static int __rrr_http_application_http1_websocket_responses_get (
 			goto out;
 		}
 		if (response_data) {
+			// Pointer is cleared when the frame is enqueued
+			found = 1;
+
 			if ((ret = rrr_websocket_frame_enqueue (
 					ws_state,
 					(response_is_binary ? RRR_WEBSOCKET_OPCODE_BINARY : RRR_WEBSOCKET_OPCODE_TEXT),
@@ -1320,7 +1325,7 @@ static int __rrr_http_application_http1_websocket_responses_get (
 				goto out;
 			}
 		}
-	} while (response_data != NULL);
+	} while (found);
 
 	out:
 	RRR_FREE_IF_NOT_NULL(response_data);
@@ -1713,6 +1718,11 @@ static void __rrr_http_application_http1_need_tick (
 	) {
 		*speed = RRR_HTTP_TICK_SPEED_SLOW;
 	}
+	else if (http1->upgrade_active == RRR_HTTP_UPGRADE_MODE_WEBSOCKET) {
+		/* Need to tick to send data from the application, and to check
+		 * for ping and timeout, also when nothing is received. */
+		*speed = RRR_HTTP_TICK_SPEED_SLOW;
+	}
 	else if (http1->request_deferred) {
 		*speed = RRR_HTTP_TICK_SPEED_FAST;
 	}
-- 
2.43.0


From 38483385bcf12068ad71ca50bb19e34c25407e29 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:35:32 +0000
Subject: [PATCH 153/155] fix: out of bounds access when websocket frames
 stated lengths close to the maximum

---
 src/lib/websocket/websocket.c | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/src/lib/websocket/websocket.c b/src/lib/websocket/websocket.c
index 6b3956d..c03204f 100644
--- a/src/lib/websocket/websocket.c
+++ b/src/lib/websocket/websocket.c
@@ -358,15 +358,15 @@ int __rrr_websocket_get_target_size (
 		header_new.masking_key = rrr_be32toh(*((uint32_t *) pos));
 	}
 
-	rrr_biglength target_len = header_new.header_len + header_new.payload_len;
-
-	if (target_len > (rrr_biglength) SSIZE_MAX) {
-		RRR_MSG_0("Total specified length og websocket frame was too big (%" PRIrrrbl ">%lli)\n",
-				target_len, (long long int) SSIZE_MAX);
+	if (header_new.payload_len > (rrr_biglength) SSIZE_MAX - header_new.header_len) {
+		RRR_MSG_0("Total specified length of websocket frame was too big (%" PRIrrrbl "+%u>%lli)\n",
+				header_new.payload_len, header_new.header_len, (long long int) SSIZE_MAX);
 		ret = RRR_READ_SOFT_ERROR;
 		goto out;
 	}
 
+	rrr_biglength target_len = header_new.header_len + header_new.payload_len;
+
 	callback_data->ws_state->last_receive_time = rrr_time_get_64();
 	callback_data->ws_state->receive_state.header = header_new;
 	read_session->target_size = target_len;
-- 
2.43.0


From 047e3c89c2f4c472df5a88e0502ffe051d5e35a6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:35:50 +0000
Subject: [PATCH 154/155] fix: httpserver accessed memory out of bounds upon
 too short RRR messages in websocket frames and ignored the checksum of the
 message header

---
 src/modules/p_httpserver.c | 14 ++++++++++++++
 1 file changed, 14 insertions(+)

diff --git a/src/modules/p_httpserver.c b/src/modules/p_httpserver.c
index 02e6e1b..5dc223e 100644
--- a/src/modules/p_httpserver.c
+++ b/src/modules/p_httpserver.c
@@ -1758,6 +1758,20 @@ static int httpserver_receive_raw_broker_callback (
 			);
 		}
 
+		{
+			rrr_length target_size = 0;
+			if (rrr_msg_get_target_size_and_check_checksum (
+					&target_size,
+					msg_to_free,
+					rrr_length_from_biglength_bug_const(data_size)
+			) != 0 || target_size != data_size) {
+				RRR_MSG_0("Received RRR message of invalid size or with header CRC32 mismatch in HTTP server instance %s\n",
+						INSTANCE_D_NAME(data->thread_data));
+				ret = RRR_HTTP_SOFT_ERROR;
+				goto out;
+			}
+		}
+
 		if (rrr_msg_head_to_host_and_verify(msg_to_free, rrr_length_from_biglength_bug_const(data_size))) {
 			RRR_MSG_0("Received RRR message of which head verification failed in HTTP server instance %s\n",
 					INSTANCE_D_NAME(data->thread_data));
-- 
2.43.0


From d90863e27e1f46b35108d69ca4a0a989ae2abd52 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:42:59 +0000
Subject: [PATCH 155/155] fix: websocket frames from rrr_http_client were lost
 when reading of standard input finished or paused in the same round

---
 src/rrr_http_client.c | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/rrr_http_client.c b/src/rrr_http_client.c
index d44e752..0df471b 100644
--- a/src/rrr_http_client.c
+++ b/src/rrr_http_client.c
@@ -645,6 +645,11 @@ static int __rrr_http_client_send_websocket_frame_callback (RRR_HTTP_CLIENT_WEBS
 	if (ret != 0 && ret != RRR_SOCKET_READ_INCOMPLETE && EVENT_INITIALIZED(http_client_data->event_stdin)) {
 		EVENT_REMOVE(http_client_data->event_stdin);
 	}
+	if (ret == RRR_SOCKET_READ_INCOMPLETE || ret == RRR_SOCKET_READ_EOF) {
+		// No more data to send (for now), any frames already
+		// produced must still be sent.
+		ret = RRR_HTTP_OK;
+	}
 	return ret;
 }
 
-- 
2.43.0

