From 3a39769daad80c97e977578858d8fe8f1fc3cb3e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:44:12 +0000
Subject: [PATCH 01/38] fix: cancelling an invoked work must not drop the
 pending invocations of other works

---
 crates/rx_core_scheduler_ticking/src/ticking_executor.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/crates/rx_core_scheduler_ticking/src/ticking_executor.rs b/crates/rx_core_scheduler_ticking/src/ticking_executor.rs
index 7e22a44..74278b1 100644
--- a/crates/rx_core_scheduler_ticking/src/ticking_executor.rs
+++ b/crates/rx_core_scheduler_ticking/src/ticking_executor.rs
@@ -173,7 +173,7 @@ where
 				ScheduledWorkAction::CancelInvoked(cancelled_invocation_id) => {
 					self.invokable_work.remove(&cancelled_invocation_id);
 					self.invoked
-						.retain(|invoked_id| invoked_id == &cancelled_invocation_id);
+						.retain(|invoked_id| invoked_id != &cancelled_invocation_id);
 				}
 				ScheduledWorkAction::Cancel(cancelled_id) => {
 					if let Some(work_ids) = self.cancellation_map.remove(&cancelled_id) {
-- 
2.43.0


From 2a77ab64f8fe17c445c31ab2c382ea0e68157523 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:44:12 +0000
Subject: [PATCH 02/38] fix: a repeated work with a zero interval must not loop
 forever within a tick

---
 .../src/work/ticked_work_repeating.rs                       | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/crates/rx_core_scheduler_ticking/src/work/ticked_work_repeating.rs b/crates/rx_core_scheduler_ticking/src/work/ticked_work_repeating.rs
index ed0695a..223557b 100644
--- a/crates/rx_core_scheduler_ticking/src/work/ticked_work_repeating.rs
+++ b/crates/rx_core_scheduler_ticking/src/work/ticked_work_repeating.rs
@@ -93,6 +93,12 @@ where
 				self.start_immediately = false;
 			}
 			executions += 1;
+
+			// Time can't be consumed by an interval of zero length, without
+			// this the loop would never end
+			if self.interval.is_zero() && executions >= self.max_work_per_tick.into() {
+				break;
+			}
 		}
 		work_result
 	}
-- 
2.43.0


From 96c22f4f41e3a3c321c0e20f83e6bf81353324e6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:44:12 +0000
Subject: [PATCH 03/38] fix: late subscribers of a finished subject are
 notified outside of its state lock, once

---
 .../src/publish_subject.rs                        | 15 ++++++++++++---
 1 file changed, 12 insertions(+), 3 deletions(-)

diff --git a/crates/rx_core_subject_publish/src/publish_subject.rs b/crates/rx_core_subject_publish/src/publish_subject.rs
index 095eb93..4ea0710 100644
--- a/crates/rx_core_subject_publish/src/publish_subject.rs
+++ b/crates/rx_core_subject_publish/src/publish_subject.rs
@@ -117,11 +117,20 @@ where
 
 		let mut subscriber = destination.upgrade();
 
-		{
+		// The state must not stay locked while the subscriber is notified, as
+		// it may interact with this subject
+		let (observed_error, is_completed) = {
 			let state = self.deferred_state.lock_ignore_poison();
-			if let Some(error) = state.observed_error.clone() {
+			(
+				state.observed_error.clone(),
+				state.observed_state.is_completed(),
+			)
+		};
+
+		if !subscriber.is_closed() {
+			if let Some(error) = observed_error {
 				subscriber.error(error);
-			} else if state.observed_state.is_completed() {
+			} else if is_completed {
 				subscriber.complete();
 			}
 		}
-- 
2.43.0


From 8170100b05f0feaf57298cc7cac02d8bd6dc818c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:44:12 +0000
Subject: [PATCH 04/38] fix: values sent into a closed behavior, replay or
 async subject must not reach late subscribers

---
 crates/rx_core_subject_async/src/async_subject.rs      |  4 ++++
 .../rx_core_subject_behavior/src/behavior_subject.rs   |  7 +++++--
 crates/rx_core_subject_replay/src/replay_subject.rs    | 10 ++++++++--
 3 files changed, 17 insertions(+), 4 deletions(-)

diff --git a/crates/rx_core_subject_async/src/async_subject.rs b/crates/rx_core_subject_async/src/async_subject.rs
index f38c232..5de222f 100644
--- a/crates/rx_core_subject_async/src/async_subject.rs
+++ b/crates/rx_core_subject_async/src/async_subject.rs
@@ -85,6 +85,10 @@ where
 	InError: Signal + Clone,
 {
 	fn next(&mut self, next: In) {
+		if self.subject.is_closed() {
+			return;
+		}
+
 		let mut value = self.value.lock_ignore_poison();
 
 		let next_value = if let Some(current) = value.take() {
diff --git a/crates/rx_core_subject_behavior/src/behavior_subject.rs b/crates/rx_core_subject_behavior/src/behavior_subject.rs
index 73da64d..bd18be4 100644
--- a/crates/rx_core_subject_behavior/src/behavior_subject.rs
+++ b/crates/rx_core_subject_behavior/src/behavior_subject.rs
@@ -1,7 +1,8 @@
 use std::sync::{Arc, Mutex};
 
 use rx_core_common::{
-	LockWithPoisonBehavior, Never, Observable, RxObserver, Signal, Subscriber, UpgradeableObserver,
+	LockWithPoisonBehavior, Never, Observable, RxObserver, Signal, Subscriber, SubscriptionLike,
+	UpgradeableObserver,
 };
 use rx_core_macro_subject_derive::RxSubject;
 use rx_core_subject_publish::{internal::MulticastSubscription, subject::PublishSubject};
@@ -62,7 +63,9 @@ where
 	InError: Signal + Clone,
 {
 	fn next(&mut self, next: In) {
-		*self.value.lock_ignore_poison() = next.clone();
+		if !self.subject.is_closed() {
+			*self.value.lock_ignore_poison() = next.clone();
+		}
 		self.subject.next(next);
 	}
 
diff --git a/crates/rx_core_subject_replay/src/replay_subject.rs b/crates/rx_core_subject_replay/src/replay_subject.rs
index 654e2da..1cd98da 100644
--- a/crates/rx_core_subject_replay/src/replay_subject.rs
+++ b/crates/rx_core_subject_replay/src/replay_subject.rs
@@ -2,7 +2,8 @@ use std::sync::{Arc, Mutex};
 
 use ringbuffer::{ConstGenericRingBuffer, RingBuffer};
 use rx_core_common::{
-	LockWithPoisonBehavior, Never, Observable, RxObserver, Signal, Subscriber, UpgradeableObserver,
+	LockWithPoisonBehavior, Never, Observable, RxObserver, Signal, Subscriber, SubscriptionLike,
+	UpgradeableObserver,
 };
 use rx_core_macro_subject_derive::RxSubject;
 use rx_core_subject_publish::{internal::MulticastSubscription, subject::PublishSubject};
@@ -62,7 +63,9 @@ where
 	InError: Signal + Clone,
 {
 	fn next(&mut self, next: In) {
-		self.values.lock_ignore_poison().enqueue(next.clone());
+		if !self.subject.is_closed() {
+			self.values.lock_ignore_poison().enqueue(next.clone());
+		}
 
 		self.subject.next(next);
 	}
@@ -101,6 +104,9 @@ where
 			let buffer_iter = self.values.lock_ignore_poison().clone().into_iter();
 
 			for value in buffer_iter {
+				if destination.is_closed() {
+					break;
+				}
 				destination.next(value);
 			}
 		}
-- 
2.43.0


From 8259bcf50ce4cb18df2c66615bb03a98623373db Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:44:12 +0000
Subject: [PATCH 05/38] fix: the work of fallback_when_silent must end once its
 destination is closed

---
 .../src/fallback_when_silent_subscriber.rs                    | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/crates/rx_core_operator_fallback_when_silent/src/fallback_when_silent_subscriber.rs b/crates/rx_core_operator_fallback_when_silent/src/fallback_when_silent_subscriber.rs
index 75c037f..1b92082 100644
--- a/crates/rx_core_operator_fallback_when_silent/src/fallback_when_silent_subscriber.rs
+++ b/crates/rx_core_operator_fallback_when_silent/src/fallback_when_silent_subscriber.rs
@@ -67,6 +67,10 @@ where
 		let mut index = 0;
 		scheduler.schedule_continuous_work(
 			move |tick, context| {
+				if shared_destination_clone.is_closed() {
+					return WorkResult::Done;
+				}
+
 				let observed_next = {
 					let mut state = shared_state_clone.lock().unwrap_or_else(|a| a.into_inner());
 					state.next_observed_this_tick.take()
-- 
2.43.0


From da97157537cd95774498a70700041fc84d316877 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:44:12 +0000
Subject: [PATCH 06/38] fix: the on tick iterator must complete when it has
 nothing left to emit

---
 .../src/iterator_on_tick_subscription.rs          | 15 ++++++++++++++-
 1 file changed, 14 insertions(+), 1 deletion(-)

diff --git a/crates/rx_core_observable_iterator_on_tick/src/iterator_on_tick_subscription.rs b/crates/rx_core_observable_iterator_on_tick/src/iterator_on_tick_subscription.rs
index 76592c0..75ca3fb 100644
--- a/crates/rx_core_observable_iterator_on_tick/src/iterator_on_tick_subscription.rs
+++ b/crates/rx_core_observable_iterator_on_tick/src/iterator_on_tick_subscription.rs
@@ -70,6 +70,17 @@ where
 			destination.next(next);
 		}
 
+		if !destination.is_closed() && peekable_iterator.peek().is_none() {
+			destination.complete();
+
+			return OnTickIteratorSubscription {
+				destination,
+				owner_id: None,
+				scheduler,
+				_phantom_data: PhantomData,
+			};
+		}
+
 		let owner_id = {
 			let mut scheduler = scheduler_clone.lock();
 			let owner_id = scheduler.generate_cancellation_id();
@@ -97,7 +108,9 @@ where
 					{
 						state.observed_ticks = 0;
 						destination.next(value);
-						if state.peekable_iterator.peek().is_none() {
+						if destination.is_closed() {
+							WorkResult::Done
+						} else if state.peekable_iterator.peek().is_none() {
 							destination.complete();
 							WorkResult::Done
 						} else {
-- 
2.43.0


From 16a44c763c12844ca386227cf36e564c52b535f6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:44:12 +0000
Subject: [PATCH 07/38] fix: retry must not tear down a healthy last attempt,
 nor retry for a closed destination

---
 crates/rx_core_operator_retry/src/retry_observable.rs | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/crates/rx_core_operator_retry/src/retry_observable.rs b/crates/rx_core_operator_retry/src/retry_observable.rs
index 30cea51..3d943ca 100644
--- a/crates/rx_core_operator_retry/src/retry_observable.rs
+++ b/crates/rx_core_operator_retry/src/retry_observable.rs
@@ -89,6 +89,9 @@ where
 				if let Some(mut last_subscription) = last_subscription.lock_ignore_poison().take() {
 					last_subscription.unsubscribe();
 				}
+				if shared_destination.is_closed() {
+					break;
+				}
 				continue;
 			} else if shared_destination.is_closed() {
 				break;
@@ -98,8 +101,9 @@ where
 			}
 		}
 
-		if immediate_retries > self.max_retries {
-			if let Some(error) = caught_error.lock_ignore_poison().take() {
+		let unhandled_error = caught_error.lock_ignore_poison().take();
+		if let Some(error) = unhandled_error {
+			if !shared_destination.is_closed() {
 				shared_destination.error(error);
 			}
 			shared_destination.unsubscribe();
-- 
2.43.0


From cfe86371c5c8ad29d70be805a271a00694788e9a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:44:12 +0000
Subject: [PATCH 08/38] fix: check that the destination is still open before
 the second signal of a reaction

---
 crates/rx_core_observable_join/src/join_subscriber.rs     | 4 +++-
 crates/rx_core_observable_just/src/just_observable.rs     | 8 ++++++--
 .../src/buffer_count_subscriber.rs                        | 4 +++-
 crates/rx_core_operator_count/src/count_subscriber.rs     | 4 +++-
 .../src/element_at_subscriber.rs                          | 8 ++++++--
 .../rx_core_operator_end_with/src/end_with_subscriber.rs  | 4 +++-
 crates/rx_core_operator_find/src/find_subscriber.rs       | 4 +++-
 .../src/find_index_subscriber.rs                          | 4 +++-
 crates/rx_core_operator_first/src/first_subscriber.rs     | 4 +++-
 .../src/materialize_subscriber.rs                         | 8 ++++++--
 crates/rx_core_operator_reduce/src/reduce_subscriber.rs   | 4 +++-
 11 files changed, 42 insertions(+), 14 deletions(-)

diff --git a/crates/rx_core_observable_join/src/join_subscriber.rs b/crates/rx_core_observable_join/src/join_subscriber.rs
index 1db2db0..cd72c3c 100644
--- a/crates/rx_core_observable_join/src/join_subscriber.rs
+++ b/crates/rx_core_observable_join/src/join_subscriber.rs
@@ -78,7 +78,9 @@ where
 				self.destination.next(next);
 			}
 
-			self.destination.complete();
+			if !self.destination.is_closed() {
+				self.destination.complete();
+			}
 		}
 	}
 
diff --git a/crates/rx_core_observable_just/src/just_observable.rs b/crates/rx_core_observable_just/src/just_observable.rs
index 08a00bc..157892b 100644
--- a/crates/rx_core_observable_just/src/just_observable.rs
+++ b/crates/rx_core_observable_just/src/just_observable.rs
@@ -1,4 +1,6 @@
-use rx_core_common::{Never, Observable, RxObserver, Signal, Subscriber, UpgradeableObserver};
+use rx_core_common::{
+	Never, Observable, RxObserver, Signal, Subscriber, SubscriptionLike, UpgradeableObserver,
+};
 use rx_core_macro_observable_derive::RxObservable;
 use rx_core_subscription_inert::InertSubscription;
 
@@ -43,7 +45,9 @@ where
 	{
 		let mut destination = observer.upgrade();
 		destination.next(self.value.clone());
-		destination.complete();
+		if !destination.is_closed() {
+			destination.complete();
+		}
 		InertSubscription::new(destination)
 	}
 }
diff --git a/crates/rx_core_operator_buffer_count/src/buffer_count_subscriber.rs b/crates/rx_core_operator_buffer_count/src/buffer_count_subscriber.rs
index ee9379f..c1cde06 100644
--- a/crates/rx_core_operator_buffer_count/src/buffer_count_subscriber.rs
+++ b/crates/rx_core_operator_buffer_count/src/buffer_count_subscriber.rs
@@ -71,6 +71,8 @@ where
 	#[inline]
 	fn complete(&mut self) {
 		self.eject_buffer();
-		self.destination.complete();
+		if !self.destination.is_closed() {
+			self.destination.complete();
+		}
 	}
 }
diff --git a/crates/rx_core_operator_count/src/count_subscriber.rs b/crates/rx_core_operator_count/src/count_subscriber.rs
index 5d1921b..b417ab2 100644
--- a/crates/rx_core_operator_count/src/count_subscriber.rs
+++ b/crates/rx_core_operator_count/src/count_subscriber.rs
@@ -58,6 +58,8 @@ where
 	#[inline]
 	fn complete(&mut self) {
 		self.destination.next(self.count);
-		self.destination.complete();
+		if !self.destination.is_closed() {
+			self.destination.complete();
+		}
 	}
 }
diff --git a/crates/rx_core_operator_element_at/src/element_at_subscriber.rs b/crates/rx_core_operator_element_at/src/element_at_subscriber.rs
index 5c4a550..08335c0 100644
--- a/crates/rx_core_operator_element_at/src/element_at_subscriber.rs
+++ b/crates/rx_core_operator_element_at/src/element_at_subscriber.rs
@@ -71,7 +71,9 @@ where
 
 		if self.nexts_observed == self.index {
 			self.destination.next(next);
-			self.destination.complete();
+			if !self.destination.is_closed() {
+				self.destination.complete();
+			}
 			self.closed.close();
 			return;
 		}
@@ -96,7 +98,9 @@ where
 		}
 		if let Some(default_value) = self.default_value.as_ref() {
 			self.destination.next(default_value.provide());
-			self.destination.complete();
+			if !self.destination.is_closed() {
+				self.destination.complete();
+			}
 			self.closed.close();
 		} else {
 			self.destination
diff --git a/crates/rx_core_operator_end_with/src/end_with_subscriber.rs b/crates/rx_core_operator_end_with/src/end_with_subscriber.rs
index 0714dff..ee1b766 100644
--- a/crates/rx_core_operator_end_with/src/end_with_subscriber.rs
+++ b/crates/rx_core_operator_end_with/src/end_with_subscriber.rs
@@ -49,6 +49,8 @@ where
 		if let Some(last) = self.end_with.take() {
 			self.destination.next(last);
 		}
-		self.destination.complete();
+		if !self.destination.is_closed() {
+			self.destination.complete();
+		}
 	}
 }
diff --git a/crates/rx_core_operator_find/src/find_subscriber.rs b/crates/rx_core_operator_find/src/find_subscriber.rs
index 194b8bf..c96fa67 100644
--- a/crates/rx_core_operator_find/src/find_subscriber.rs
+++ b/crates/rx_core_operator_find/src/find_subscriber.rs
@@ -53,7 +53,9 @@ where
 		if !self.match_observed && (self.predicate)(&next) {
 			self.match_observed = true;
 			self.destination.next(next);
-			self.destination.complete();
+			if !self.destination.is_closed() {
+				self.destination.complete();
+			}
 		}
 	}
 
diff --git a/crates/rx_core_operator_find_index/src/find_index_subscriber.rs b/crates/rx_core_operator_find_index/src/find_index_subscriber.rs
index 4a2fe6b..5ea4e97 100644
--- a/crates/rx_core_operator_find_index/src/find_index_subscriber.rs
+++ b/crates/rx_core_operator_find_index/src/find_index_subscriber.rs
@@ -63,7 +63,9 @@ where
 		if !self.match_observed && (self.predicate)(&next) {
 			self.match_observed = true;
 			self.destination.next(nexts_observed_so_far);
-			self.destination.complete();
+			if !self.destination.is_closed() {
+				self.destination.complete();
+			}
 		}
 	}
 
diff --git a/crates/rx_core_operator_first/src/first_subscriber.rs b/crates/rx_core_operator_first/src/first_subscriber.rs
index ecb7717..3264d97 100644
--- a/crates/rx_core_operator_first/src/first_subscriber.rs
+++ b/crates/rx_core_operator_first/src/first_subscriber.rs
@@ -55,7 +55,9 @@ where
 		if !self.first_observed {
 			self.first_observed = true;
 			self.destination.next(next);
-			self.destination.complete();
+			if !self.destination.is_closed() {
+				self.destination.complete();
+			}
 		}
 	}
 
diff --git a/crates/rx_core_operator_materialize/src/materialize_subscriber.rs b/crates/rx_core_operator_materialize/src/materialize_subscriber.rs
index afee9a1..5558457 100644
--- a/crates/rx_core_operator_materialize/src/materialize_subscriber.rs
+++ b/crates/rx_core_operator_materialize/src/materialize_subscriber.rs
@@ -41,12 +41,16 @@ where
 	#[inline]
 	fn error(&mut self, error: Self::InError) {
 		self.destination.next(ObserverNotification::Error(error));
-		self.destination.complete();
+		if !self.destination.is_closed() {
+			self.destination.complete();
+		}
 	}
 
 	#[inline]
 	fn complete(&mut self) {
 		self.destination.next(ObserverNotification::Complete);
-		self.destination.complete();
+		if !self.destination.is_closed() {
+			self.destination.complete();
+		}
 	}
 }
diff --git a/crates/rx_core_operator_reduce/src/reduce_subscriber.rs b/crates/rx_core_operator_reduce/src/reduce_subscriber.rs
index 4c19132..2c4f755 100644
--- a/crates/rx_core_operator_reduce/src/reduce_subscriber.rs
+++ b/crates/rx_core_operator_reduce/src/reduce_subscriber.rs
@@ -66,6 +66,8 @@ where
 	#[inline]
 	fn complete(&mut self) {
 		self.destination.next(self.accumulator.clone());
-		self.destination.complete();
+		if !self.destination.is_closed() {
+			self.destination.complete();
+		}
 	}
 }
-- 
2.43.0


From d16d24964f9ffc4badaa13e64e6a93bb0cf3d0e9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:20:03 +0000
Subject: [PATCH 09/38] fix: deferred notifications must not reach a shared
 destination that an earlier one closed

---
 .../src/subscribers/subscriber_shared.rs      | 19 +++++++++++++++----
 1 file changed, 15 insertions(+), 4 deletions(-)

diff --git a/crates/rx_core_common/src/subscribers/subscriber_shared.rs b/crates/rx_core_common/src/subscribers/subscriber_shared.rs
index 916b4bc..05d4a66 100644
--- a/crates/rx_core_common/src/subscribers/subscriber_shared.rs
+++ b/crates/rx_core_common/src/subscribers/subscriber_shared.rs
@@ -232,8 +232,13 @@ where
 			for notification in notifications.into_iter() {
 				let is_closing = notification.is_closing();
 
+				// A previously applied notification could have closed the
+				// destination, after which only an unsubscribe can go through
+				let can_push = matches!(notification, SubscriberNotification::Unsubscribe)
+					|| !subscriber.is_closed();
+
 				// Other notifications can be safely dropped when already closed
-				if !state.lock_clear_poison().is_closed_ignoring_deferred() {
+				if can_push && !state.lock_clear_poison().is_closed_ignoring_deferred() {
 					subscriber.push(notification);
 				}
 
@@ -252,7 +257,9 @@ where
 			Ok(mut subscribers) => {
 				Self::apply_notification_queue(self.deferred_state.clone(), &mut subscribers); // First, the notification queue!
 
-				subscribers.next(next);
+				if !subscribers.is_closed() {
+					subscribers.next(next);
+				}
 
 				Ok(())
 			}
@@ -268,7 +275,9 @@ where
 			Ok(mut subscribers) => {
 				Self::apply_notification_queue(self.deferred_state.clone(), &mut subscribers); // First, the notification queue!
 
-				subscribers.error(error);
+				if !subscribers.is_closed() {
+					subscribers.error(error);
+				}
 
 				Ok(())
 			}
@@ -281,7 +290,9 @@ where
 			Ok(mut subscribers) => {
 				Self::apply_notification_queue(self.deferred_state.clone(), &mut subscribers); // First, the notification queue!
 
-				subscribers.complete();
+				if !subscribers.is_closed() {
+					subscribers.complete();
+				}
 				Ok(())
 			}
 			Err(_) => Err(SubscriberCompleteLockError),
-- 
2.43.0


From b6465491aac4be933e25ca53412b2d7c4e135a8f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:22:34 +0000
Subject: [PATCH 10/38] fix: a connectable must not run its observers and
 teardowns while its state is locked

---
 .../src/connectable_observable.rs             | 22 ++++++++++++++-----
 .../src/internal/connector_state.rs           |  6 -----
 2 files changed, 17 insertions(+), 11 deletions(-)

diff --git a/crates/rx_core_observable_connectable/src/connectable_observable.rs b/crates/rx_core_observable_connectable/src/connectable_observable.rs
index 84ca99e..0064d2d 100644
--- a/crates/rx_core_observable_connectable/src/connectable_observable.rs
+++ b/crates/rx_core_observable_connectable/src/connectable_observable.rs
@@ -82,10 +82,10 @@ where
 	where
 		Destination: 'static + UpgradeableObserver<In = Self::Out, InError = Self::OutError>,
 	{
-		let mut subscription = {
-			let mut connector = self.connector.lock_ignore_poison();
-			connector.get_connector().subscribe(observer.upgrade())
-		};
+		// The connector may notify the observer as it subscribes, the state must
+		// not stay locked meanwhile
+		let mut connector = self.connector.lock_ignore_poison().get_connector();
+		let mut subscription = connector.subscribe(observer.upgrade());
 
 		if !subscription.is_closed() {
 			self.connection_state
@@ -136,7 +136,18 @@ where
 
 	#[inline]
 	fn disconnect(&mut self) -> bool {
-		self.connector.lock_ignore_poison().disconnect()
+		// Unsubscribed only after the lock is released, its teardowns may
+		// interact with this observable
+		let connection = self.connection.lock_ignore_poison().take_connection();
+
+		if let Some(mut connection) = connection
+			&& !connection.is_closed()
+		{
+			connection.unsubscribe();
+			return true;
+		}
+
+		false
 	}
 
 	#[inline]
@@ -146,6 +157,7 @@ where
 
 	#[inline]
 	fn reset(&mut self) {
+		self.disconnect();
 		self.connector.lock_ignore_poison().reset();
 	}
 }
diff --git a/crates/rx_core_observable_connectable/src/internal/connector_state.rs b/crates/rx_core_observable_connectable/src/internal/connector_state.rs
index b72b9cd..2872db2 100644
--- a/crates/rx_core_observable_connectable/src/internal/connector_state.rs
+++ b/crates/rx_core_observable_connectable/src/internal/connector_state.rs
@@ -130,13 +130,7 @@ where
 		})
 	}
 
-	#[inline]
-	pub(crate) fn disconnect(&mut self) -> bool {
-		self.connection.lock_ignore_poison().disconnect()
-	}
-
 	pub(crate) fn reset(&mut self) {
-		self.disconnect();
 		self.connector.lock_ignore_poison().take();
 	}
 }
-- 
2.43.0


From bc2d31681cdee0b22230a691c754a7f59e03c503 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:47:41 +0000
Subject: [PATCH 11/38] fix: a panic of one subscriber must not silence the
 others and leave deferred teardowns undone

---
 .../subscribers/lock_with_poison_behavior.rs  | 20 +++++++-
 .../src/subscribers/subscriber_shared.rs      | 46 +++++++++++++------
 .../src/subscriptions/subscription_shared.rs  |  6 +--
 .../rx_core_subject_publish/src/multicast.rs  | 36 +++++++--------
 4 files changed, 73 insertions(+), 35 deletions(-)

diff --git a/crates/rx_core_common/src/subscribers/lock_with_poison_behavior.rs b/crates/rx_core_common/src/subscribers/lock_with_poison_behavior.rs
index 0b4135b..bf1861b 100644
--- a/crates/rx_core_common/src/subscribers/lock_with_poison_behavior.rs
+++ b/crates/rx_core_common/src/subscribers/lock_with_poison_behavior.rs
@@ -1,4 +1,4 @@
-use std::sync::{Arc, Mutex, MutexGuard, RwLock, RwLockReadGuard, RwLockWriteGuard};
+use std::sync::{Arc, Mutex, MutexGuard, RwLock, RwLockReadGuard, RwLockWriteGuard, TryLockError};
 
 pub trait LockWithPoisonBehavior<T>
 where
@@ -18,6 +18,10 @@ where
 	fn lock_ignore_poison(&self) -> Self::Guard<'_>;
 
 	fn lock_clear_poison(&self) -> Self::Guard<'_>;
+
+	/// Returns `None` when it's already locked. A poisoned lock is cleared and
+	/// acquired, once the panic that poisoned it finished unwinding.
+	fn try_lock_clear_poison(&self) -> Option<Self::Guard<'_>>;
 }
 
 impl<T> LockWithPoisonBehavior<T> for Arc<Mutex<T>>
@@ -57,6 +61,20 @@ where
 			poison_error.into_inner()
 		})
 	}
+
+	#[inline]
+	fn try_lock_clear_poison(&self) -> Option<Self::Guard<'_>> {
+		match self.try_lock() {
+			Ok(guard) => Some(guard),
+			// Still unwinding from the panic that poisoned it
+			Err(TryLockError::Poisoned(_)) if std::thread::panicking() => None,
+			Err(TryLockError::Poisoned(poison_error)) => {
+				self.clear_poison();
+				Some(poison_error.into_inner())
+			}
+			Err(TryLockError::WouldBlock) => None,
+		}
+	}
 }
 
 pub trait WriteLockWithPoisonBehavior<T>
diff --git a/crates/rx_core_common/src/subscribers/subscriber_shared.rs b/crates/rx_core_common/src/subscribers/subscriber_shared.rs
index 05d4a66..bb14693 100644
--- a/crates/rx_core_common/src/subscribers/subscriber_shared.rs
+++ b/crates/rx_core_common/src/subscribers/subscriber_shared.rs
@@ -1,4 +1,4 @@
-use std::sync::{Arc, Mutex, MutexGuard, Weak};
+use std::sync::{Arc, Mutex, MutexGuard, TryLockError, Weak};
 
 use rx_core_macro_subscriber_derive::RxSubscriber;
 
@@ -184,6 +184,26 @@ where
 			})
 	}
 
+	/// Tries to lock the shared destination, `None` means it's already locked.
+	/// Just like with `lock`, a poisoned destination is immediately
+	/// unsubscribed!
+	fn try_lock(&self) -> Option<MutexGuard<'_, Destination>> {
+		match self.shared_destination.try_lock() {
+			Ok(destination) => Some(destination),
+			// Still unwinding from the panic that poisoned it
+			Err(TryLockError::Poisoned(_)) if std::thread::panicking() => None,
+			Err(TryLockError::Poisoned(poison_error)) => {
+				self.shared_destination.clear_poison();
+				let mut destination = poison_error.into_inner();
+				if !destination.is_closed() {
+					destination.unsubscribe();
+				}
+				Some(destination)
+			}
+			Err(TryLockError::WouldBlock) => None,
+		}
+	}
+
 	pub fn downgrade(&self) -> Weak<Mutex<Destination>> {
 		Arc::downgrade(&self.shared_destination)
 	}
@@ -253,8 +273,8 @@ where
 		&mut self,
 		next: Destination::In,
 	) -> Result<(), SubscriberNextLockError<Destination::In>> {
-		match self.shared_destination.try_lock() {
-			Ok(mut subscribers) => {
+		match self.try_lock() {
+			Some(mut subscribers) => {
 				Self::apply_notification_queue(self.deferred_state.clone(), &mut subscribers); // First, the notification queue!
 
 				if !subscribers.is_closed() {
@@ -263,7 +283,7 @@ where
 
 				Ok(())
 			}
-			Err(_) => Err(SubscriberNextLockError { next }),
+			None => Err(SubscriberNextLockError { next }),
 		}
 	}
 
@@ -271,8 +291,8 @@ where
 		&mut self,
 		error: Destination::InError,
 	) -> Result<(), SubscriberErrorLockError<Destination::InError>> {
-		match self.shared_destination.try_lock() {
-			Ok(mut subscribers) => {
+		match self.try_lock() {
+			Some(mut subscribers) => {
 				Self::apply_notification_queue(self.deferred_state.clone(), &mut subscribers); // First, the notification queue!
 
 				if !subscribers.is_closed() {
@@ -281,13 +301,13 @@ where
 
 				Ok(())
 			}
-			Err(_) => Err(SubscriberErrorLockError { error }),
+			None => Err(SubscriberErrorLockError { error }),
 		}
 	}
 
 	pub(crate) fn try_complete(&mut self) -> Result<(), SubscriberCompleteLockError> {
-		match self.shared_destination.try_lock() {
-			Ok(mut subscribers) => {
+		match self.try_lock() {
+			Some(mut subscribers) => {
 				Self::apply_notification_queue(self.deferred_state.clone(), &mut subscribers); // First, the notification queue!
 
 				if !subscribers.is_closed() {
@@ -295,13 +315,13 @@ where
 				}
 				Ok(())
 			}
-			Err(_) => Err(SubscriberCompleteLockError),
+			None => Err(SubscriberCompleteLockError),
 		}
 	}
 
 	pub(crate) fn try_unsubscribe(&mut self) -> Result<(), SubscriberUnsubscribeLockError> {
-		match self.shared_destination.try_lock() {
-			Ok(mut subscriber) => {
+		match self.try_lock() {
+			Some(mut subscriber) => {
 				Self::apply_notification_queue(self.deferred_state.clone(), &mut subscriber); // First, the notification queue!
 
 				self.deferred_state.lock_ignore_poison().closed_flag.close();
@@ -312,7 +332,7 @@ where
 
 				Ok(())
 			}
-			Err(_) => Err(SubscriberUnsubscribeLockError),
+			None => Err(SubscriberUnsubscribeLockError),
 		}
 	}
 }
diff --git a/crates/rx_core_common/src/subscriptions/subscription_shared.rs b/crates/rx_core_common/src/subscriptions/subscription_shared.rs
index 23bf075..0e0838a 100644
--- a/crates/rx_core_common/src/subscriptions/subscription_shared.rs
+++ b/crates/rx_core_common/src/subscriptions/subscription_shared.rs
@@ -162,8 +162,8 @@ impl SharedSubscription {
 	}
 
 	pub(crate) fn try_unsubscribe(&mut self) -> Result<(), SubscriptionUnsubscribeLockError> {
-		match self.subscription.try_lock() {
-			Ok(mut subscription) => {
+		match self.subscription.try_lock_clear_poison() {
+			Some(mut subscription) => {
 				Self::apply_notification_queue(self.deferred_state.clone(), &mut subscription); // First, the notification queue!
 
 				self.deferred_state.lock_ignore_poison().closed_flag.close();
@@ -174,7 +174,7 @@ impl SharedSubscription {
 
 				Ok(())
 			}
-			Err(_) => Err(SubscriptionUnsubscribeLockError),
+			None => Err(SubscriptionUnsubscribeLockError),
 		}
 	}
 }
diff --git a/crates/rx_core_subject_publish/src/multicast.rs b/crates/rx_core_subject_publish/src/multicast.rs
index 039c7f1..5dd7867 100644
--- a/crates/rx_core_subject_publish/src/multicast.rs
+++ b/crates/rx_core_subject_publish/src/multicast.rs
@@ -202,28 +202,28 @@ where
 	) -> Result<MulticastSubscriberId, MulticastAddLockError<In, InError>> {
 		let id = self.subscriber_id_generator.lock_ignore_poison().get_next();
 
-		match self.subscribers.try_lock() {
-			Ok(mut subscribers) => {
+		match self.subscribers.try_lock_clear_poison() {
+			Some(mut subscribers) => {
 				Self::apply_notification_queue(self.deferred_state.clone(), &mut subscribers); // First, the notification queue!
 
 				subscribers.add_subscriber(id, subscriber);
 
 				Ok(id)
 			}
-			Err(_) => Err(MulticastAddLockError { id, subscriber }),
+			None => Err(MulticastAddLockError { id, subscriber }),
 		}
 	}
 
 	pub(crate) fn try_next(&mut self, next: In) -> Result<(), MulticastNextLockError<In>> {
-		match self.subscribers.try_lock() {
-			Ok(mut subscribers) => {
+		match self.subscribers.try_lock_clear_poison() {
+			Some(mut subscribers) => {
 				Self::apply_notification_queue(self.deferred_state.clone(), &mut subscribers); // First, the notification queue!
 
 				subscribers.next(next);
 
 				Ok(())
 			}
-			Err(_) => Err(MulticastNextLockError { next }),
+			None => Err(MulticastNextLockError { next }),
 		}
 	}
 
@@ -231,33 +231,33 @@ where
 		&mut self,
 		error: InError,
 	) -> Result<(), MulticastErrorLockError<InError>> {
-		match self.subscribers.try_lock() {
-			Ok(mut subscribers) => {
+		match self.subscribers.try_lock_clear_poison() {
+			Some(mut subscribers) => {
 				Self::apply_notification_queue(self.deferred_state.clone(), &mut subscribers); // First, the notification queue!
 
 				subscribers.error(error);
 
 				Ok(())
 			}
-			Err(_) => Err(MulticastErrorLockError { error }),
+			None => Err(MulticastErrorLockError { error }),
 		}
 	}
 
 	pub(crate) fn try_complete(&mut self) -> Result<(), MulticastCompleteLockError> {
-		match self.subscribers.try_lock() {
-			Ok(mut subscribers) => {
+		match self.subscribers.try_lock_clear_poison() {
+			Some(mut subscribers) => {
 				Self::apply_notification_queue(self.deferred_state.clone(), &mut subscribers); // First, the notification queue!
 
 				subscribers.complete();
 				Ok(())
 			}
-			Err(_) => Err(MulticastCompleteLockError),
+			None => Err(MulticastCompleteLockError),
 		}
 	}
 
 	pub(crate) fn try_unsubscribe(&mut self) -> Result<(), MulticastUnsubscribeLockError> {
-		match self.subscribers.try_lock() {
-			Ok(mut subscribers) => {
+		match self.subscribers.try_lock_clear_poison() {
+			Some(mut subscribers) => {
 				Self::apply_notification_queue(self.deferred_state.clone(), &mut subscribers); // First, the notification queue!
 
 				self.deferred_state.lock_ignore_poison().closed_flag.close();
@@ -266,7 +266,7 @@ where
 
 				Ok(())
 			}
-			Err(_) => Err(MulticastUnsubscribeLockError),
+			None => Err(MulticastUnsubscribeLockError),
 		}
 	}
 
@@ -274,15 +274,15 @@ where
 		&mut self,
 		id: MulticastSubscriberId,
 	) -> Result<(), MulticastUnsubscribeLockError> {
-		match self.subscribers.try_lock() {
-			Ok(mut subscribers) => {
+		match self.subscribers.try_lock_clear_poison() {
+			Some(mut subscribers) => {
 				Self::apply_notification_queue(self.deferred_state.clone(), &mut subscribers); // First, the notification queue!
 
 				subscribers.unsubscribe_by_id(id);
 
 				Ok(())
 			}
-			Err(_) => Err(MulticastUnsubscribeLockError),
+			None => Err(MulticastUnsubscribeLockError),
 		}
 	}
 }
-- 
2.43.0


From 9dc494bbccf2d31d0d8766cdd5490643a161f495 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:50:33 +0000
Subject: [PATCH 12/38] fix: what was deferred while a destination panicked
 must be applied afterwards

---
 crates/rx_core_common/src/subscribers/subscriber_shared.rs     | 2 +-
 crates/rx_core_common/src/subscriptions/subscription_shared.rs | 2 +-
 crates/rx_core_subject_publish/src/publish_subject.rs          | 2 +-
 3 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/crates/rx_core_common/src/subscribers/subscriber_shared.rs b/crates/rx_core_common/src/subscribers/subscriber_shared.rs
index bb14693..41123a7 100644
--- a/crates/rx_core_common/src/subscribers/subscriber_shared.rs
+++ b/crates/rx_core_common/src/subscribers/subscriber_shared.rs
@@ -210,7 +210,7 @@ where
 
 	fn try_apply_deferred(&mut self) {
 		if self.deferred_state.lock_ignore_poison().is_dirty()
-			&& let Ok(mut subscriber) = self.shared_destination.try_lock()
+			&& let Some(mut subscriber) = self.try_lock()
 		{
 			SharedSubscriber::<Destination>::apply_notification_queue::<Destination>(
 				self.deferred_state.clone(),
diff --git a/crates/rx_core_common/src/subscriptions/subscription_shared.rs b/crates/rx_core_common/src/subscriptions/subscription_shared.rs
index 0e0838a..73493a2 100644
--- a/crates/rx_core_common/src/subscriptions/subscription_shared.rs
+++ b/crates/rx_core_common/src/subscriptions/subscription_shared.rs
@@ -109,7 +109,7 @@ impl SharedSubscription {
 
 	fn try_apply_deferred(&mut self) {
 		if self.deferred_state.lock_ignore_poison().is_dirty()
-			&& let Ok(mut subscription) = self.subscription.try_lock()
+			&& let Some(mut subscription) = self.subscription.try_lock_clear_poison()
 		{
 			SharedSubscription::apply_notification_queue(
 				self.deferred_state.clone(),
diff --git a/crates/rx_core_subject_publish/src/publish_subject.rs b/crates/rx_core_subject_publish/src/publish_subject.rs
index 4ea0710..be22ae6 100644
--- a/crates/rx_core_subject_publish/src/publish_subject.rs
+++ b/crates/rx_core_subject_publish/src/publish_subject.rs
@@ -73,7 +73,7 @@ where
 {
 	fn try_apply_deferred(&mut self) {
 		if self.deferred_state.lock_ignore_poison().is_dirty()
-			&& let Ok(mut subscribers) = self.subscribers.subscribers.try_lock()
+			&& let Some(mut subscribers) = self.subscribers.subscribers.try_lock_clear_poison()
 		{
 			SharedSubscribers::apply_notification_queue(
 				self.deferred_state.clone(),
-- 
2.43.0


From 0deae4a0c133f78680e15aa2f988e926e4d89693 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:56:10 +0000
Subject: [PATCH 13/38] fix: throttle must not swallow its trailing value when
 a tick goes past the end of the window

---
 .../src/throttle_time_subscriber.rs                             | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/crates/rx_core_operator_throttle_time/src/throttle_time_subscriber.rs b/crates/rx_core_operator_throttle_time/src/throttle_time_subscriber.rs
index 381f2f4..1f6f823 100644
--- a/crates/rx_core_operator_throttle_time/src/throttle_time_subscriber.rs
+++ b/crates/rx_core_operator_throttle_time/src/throttle_time_subscriber.rs
@@ -96,7 +96,7 @@ where
 						return WorkResult::Pending;
 					}
 
-					if deadline < state.last_tick_time {
+					if deadline < state.last_tick_time && state.last_value.is_none() {
 						state.throttle_deadline = None;
 
 						(
-- 
2.43.0


From 9dabfb3e4c34b9d82700474f3c6b146d8db3d536 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:56:10 +0000
Subject: [PATCH 14/38] fix: throttle must not schedule work for a destination
 that its leading value closed

---
 .../src/throttle_time_subscriber.rs                             | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/crates/rx_core_operator_throttle_time/src/throttle_time_subscriber.rs b/crates/rx_core_operator_throttle_time/src/throttle_time_subscriber.rs
index 1f6f823..9165e8c 100644
--- a/crates/rx_core_operator_throttle_time/src/throttle_time_subscriber.rs
+++ b/crates/rx_core_operator_throttle_time/src/throttle_time_subscriber.rs
@@ -194,7 +194,7 @@ where
 			was_idle
 		};
 
-		if was_idle {
+		if was_idle && !self.destination.is_closed() {
 			self.schedule_throttle_work();
 		}
 	}
-- 
2.43.0


From ebe946b0119e2508ff692d719d86a03776589ef1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:01:57 +0000
Subject: [PATCH 15/38] fix: throttle must not panic when it is closed in the
 tick its work is due

---
 .../src/throttle_time_subscriber.rs                       | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/crates/rx_core_operator_throttle_time/src/throttle_time_subscriber.rs b/crates/rx_core_operator_throttle_time/src/throttle_time_subscriber.rs
index 9165e8c..ee5ef55 100644
--- a/crates/rx_core_operator_throttle_time/src/throttle_time_subscriber.rs
+++ b/crates/rx_core_operator_throttle_time/src/throttle_time_subscriber.rs
@@ -88,9 +88,11 @@ where
 					let mut state = state.lock_ignore_poison();
 					state.last_tick_time = tick.now();
 
-					let deadline = state
-						.throttle_deadline
-						.expect("scheduled work always has an active throttle deadline");
+					// A cancelled work can still be ticked once, in the same tick
+					// it was cancelled in
+					let Some(deadline) = state.throttle_deadline else {
+						return WorkResult::Done;
+					};
 
 					if state.last_tick_time < deadline {
 						return WorkResult::Pending;
-- 
2.43.0


From 3ea7b7cef15c6cdd8a0e9ee771ba12876a342ef7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:01:57 +0000
Subject: [PATCH 16/38] fix: a timer unsubscribed in the tick it is due must
 not emit

---
 crates/rx_core_observable_timer/src/timer_subscription.rs | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/crates/rx_core_observable_timer/src/timer_subscription.rs b/crates/rx_core_observable_timer/src/timer_subscription.rs
index 95b9bb4..3fcf84a 100644
--- a/crates/rx_core_observable_timer/src/timer_subscription.rs
+++ b/crates/rx_core_observable_timer/src/timer_subscription.rs
@@ -39,6 +39,9 @@ where
 			scheduler.schedule_delayed_work(
 				move |_, _| {
 					let mut destination = destination_clone.lock();
+					if destination.is_closed() {
+						return;
+					}
 					destination.next(());
 					if !destination.is_closed() {
 						destination.complete();
-- 
2.43.0


From 0f027b2af0083f2b9f08c9e8caf16537892dc47f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:44:26 +0000
Subject: [PATCH 17/38] fix: the notification queue drops its oldest value even
 behind a terminal notification

---
 crates/rx_core_notification_store/src/notification_queue.rs | 6 ++----
 1 file changed, 2 insertions(+), 4 deletions(-)

diff --git a/crates/rx_core_notification_store/src/notification_queue.rs b/crates/rx_core_notification_store/src/notification_queue.rs
index e3829be..f365f39 100644
--- a/crates/rx_core_notification_store/src/notification_queue.rs
+++ b/crates/rx_core_notification_store/src/notification_queue.rs
@@ -101,12 +101,10 @@ where
 	}
 
 	fn drop_oldest(&mut self) {
-		if let Some((oldest_next_index, _)) = self
+		if let Some(oldest_next_index) = self
 			.queue
 			.iter()
-			.rev()
-			.enumerate()
-			.find(|(_, n)| matches!(n, SubscriberNotification::Next(_)))
+			.position(|n| matches!(n, SubscriberNotification::Next(_)))
 		{
 			self.queue.remove(oldest_next_index);
 		}
-- 
2.43.0


From 7f4bbdf4f169c0cfaad9dcca2d36a1a7c5e8ffe0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:54:59 +0000
Subject: [PATCH 18/38] fix: a new connection must not inherit how the previous
 one ended

---
 .../src/internal/connector_state.rs                            | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/crates/rx_core_observable_connectable/src/internal/connector_state.rs b/crates/rx_core_observable_connectable/src/internal/connector_state.rs
index 2872db2..c34038a 100644
--- a/crates/rx_core_observable_connectable/src/internal/connector_state.rs
+++ b/crates/rx_core_observable_connectable/src/internal/connector_state.rs
@@ -71,6 +71,9 @@ where
 	) -> ConnectionSubscription<Source, ConnectorProvider::Provided> {
 		let connector = self.get_connector().clone();
 
+		// How the previous connection ended says nothing about this one
+		self.connection_state.lock_ignore_poison().reset();
+
 		let reset_connector_on_disconnect = self.options.reset_connector_on_disconnect;
 		let connection_on_complete = self.connection_state.clone();
 		let connection_on_error = self.connection_state.clone();
-- 
2.43.0


From 44128384b623466f93099dd319de0fe43f43aba8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:56:04 +0000
Subject: [PATCH 19/38] fix: a connection abandoned while it is being made must
 be disconnected

---
 .../src/connectable_observable.rs                 | 11 ++++++++++-
 .../src/internal/connection_state.rs              | 15 +++++++++++++--
 2 files changed, 23 insertions(+), 3 deletions(-)

diff --git a/crates/rx_core_observable_connectable/src/connectable_observable.rs b/crates/rx_core_observable_connectable/src/connectable_observable.rs
index 0064d2d..49e34c2 100644
--- a/crates/rx_core_observable_connectable/src/connectable_observable.rs
+++ b/crates/rx_core_observable_connectable/src/connectable_observable.rs
@@ -131,7 +131,16 @@ where
 	type ConnectionSubscription = ConnectionSubscription<Source, ConnectorProvider::Provided>;
 
 	fn connect(&mut self) -> ConnectionHandle<Self::ConnectionSubscription> {
-		self.connector.lock_ignore_poison().connect()
+		let connection = self.connector.lock_ignore_poison().connect();
+
+		// The last subscriber may leave as the source is being connected, when
+		// there is no connection to disconnect yet
+		let is_abandoned = self.connection_state.lock_ignore_poison().is_abandoned();
+		if is_abandoned {
+			self.disconnect();
+		}
+
+		connection
 	}
 
 	#[inline]
diff --git a/crates/rx_core_observable_connectable/src/internal/connection_state.rs b/crates/rx_core_observable_connectable/src/internal/connection_state.rs
index 32bb6dd..2b8b0db 100644
--- a/crates/rx_core_observable_connectable/src/internal/connection_state.rs
+++ b/crates/rx_core_observable_connectable/src/internal/connection_state.rs
@@ -10,6 +10,8 @@ pub(crate) struct ConnectionState {
 	downstream_subscriber_count: usize,
 	has_errored: bool,
 	has_completed: bool,
+	/// Whether the last subscriber left, and none have come since.
+	is_abandoned: bool,
 	connection_options: ConnectionOptions,
 }
 
@@ -34,6 +36,7 @@ impl ConnectionState {
 			downstream_subscriber_count: 0,
 			has_completed: false,
 			has_errored: false,
+			is_abandoned: false,
 		}
 	}
 
@@ -49,20 +52,28 @@ impl ConnectionState {
 
 	pub(crate) fn increment_subscriber_count(&mut self) {
 		self.downstream_subscriber_count = self.downstream_subscriber_count.saturating_add(1);
+		self.is_abandoned = false;
 	}
 
 	/// Returns true when disconnect_when_ref_count_zero is enabled and the
 	/// ref count has just dropped to zero.
 	pub(crate) fn decrement_subscriber_count(&mut self) -> bool {
 		self.downstream_subscriber_count = self.downstream_subscriber_count.saturating_sub(1);
-		self.connection_options.disconnect_when_ref_count_zero
+		self.is_abandoned = self.connection_options.disconnect_when_ref_count_zero
 			&& self.downstream_subscriber_count == 0
 			&& !self.has_errored
-			&& !self.has_completed
+			&& !self.has_completed;
+		self.is_abandoned
+	}
+
+	#[inline]
+	pub(crate) fn is_abandoned(&self) -> bool {
+		self.is_abandoned
 	}
 
 	pub(crate) fn reset(&mut self) {
 		self.has_completed = false;
 		self.has_errored = false;
+		self.is_abandoned = false;
 	}
 }
-- 
2.43.0


From f45af9b531d212a890ae4c4bda126aedfa6d985a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:29:17 +0000
Subject: [PATCH 20/38] fix: the scheduler is not locked while cancelled works
 are dropped

Dropping a work can apply an unsubscription deferred while it was running, and
the teardowns of that cancel their own works: the executor deadlocked when an
interval was unsubscribed by one of its own values.
---
 .../src/ticking_executor.rs                       | 15 ++++++++++-----
 1 file changed, 10 insertions(+), 5 deletions(-)

diff --git a/crates/rx_core_scheduler_ticking/src/ticking_executor.rs b/crates/rx_core_scheduler_ticking/src/ticking_executor.rs
index 74278b1..512f536 100644
--- a/crates/rx_core_scheduler_ticking/src/ticking_executor.rs
+++ b/crates/rx_core_scheduler_ticking/src/ticking_executor.rs
@@ -150,11 +150,16 @@ where
 	}
 
 	fn drain_scheduler_queue(&mut self, tick: Tick) -> bool {
-		let mut scheduler = self.scheduler.lock();
-		let had_actions = scheduler.has_actions();
-		scheduler.update_tick(tick);
-
-		for action in scheduler.drain_actions() {
+		// The scheduler must not be locked while the actions are applied, dropping
+		// a cancelled work can run teardowns that use the scheduler.
+		let (had_actions, actions) = {
+			let mut scheduler = self.scheduler.lock();
+			let had_actions = scheduler.has_actions();
+			scheduler.update_tick(tick);
+			(had_actions, scheduler.drain_actions().collect::<Vec<_>>())
+		};
+
+		for action in actions {
 			match action {
 				ScheduledWorkAction::<Tick, C>::Activate((cancellation_id, work)) => {
 					let work_id = self.work_id_generator.get_next();
-- 
2.43.0


From 914a248bb591f5ec9d1b79c5fdacd2d79aa04b40 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:29:17 +0000
Subject: [PATCH 21/38] fix: a subscription closed by one of its own scheduled
 values gets nothing more

The works of interval, timer, iterator_on_tick and the message observable signalled
the locked destination, where an unsubscription made while the value is delivered
is deferred and not seen until the work ends.
---
 .../src/message_subscription.rs                   |  9 ++++-----
 .../src/interval_subscription.rs                  |  8 +++-----
 .../src/iterator_on_tick_subscription.rs          |  9 ++++-----
 .../src/timer_subscription.rs                     | 15 +++++++--------
 4 files changed, 18 insertions(+), 23 deletions(-)

diff --git a/crates/rx_bevy_observable_message/src/message_subscription.rs b/crates/rx_bevy_observable_message/src/message_subscription.rs
index 6ad04a8..af42505 100644
--- a/crates/rx_bevy_observable_message/src/message_subscription.rs
+++ b/crates/rx_bevy_observable_message/src/message_subscription.rs
@@ -28,22 +28,21 @@ where
 			let cancellation_id = scheduler_lock.generate_cancellation_id();
 
 			let mut message_cursor = MessageCursor::<Destination::In>::default();
-			let shared_destination_clone = shared_destination.clone();
+			let mut shared_destination_clone = shared_destination.clone();
 			scheduler_lock.schedule_continuous_work(
 				move |_, context| {
 					let events = context
 						.deferred_world
 						.resource::<Messages<Destination::In>>();
 
-					let mut destination = shared_destination_clone.lock();
-					if destination.is_closed() {
+					if shared_destination_clone.is_closed() {
 						return WorkResult::Done;
 					}
 
 					for event in message_cursor.read(events).cloned() {
-						destination.next(event);
+						shared_destination_clone.next(event);
 
-						if destination.is_closed() {
+						if shared_destination_clone.is_closed() {
 							return WorkResult::Done;
 						}
 					}
diff --git a/crates/rx_core_observable_interval/src/interval_subscription.rs b/crates/rx_core_observable_interval/src/interval_subscription.rs
index addcea8..ead7888 100644
--- a/crates/rx_core_observable_interval/src/interval_subscription.rs
+++ b/crates/rx_core_observable_interval/src/interval_subscription.rs
@@ -38,7 +38,7 @@ where
 		let cancellation_id = {
 			let mut scheduler = scheduler.lock();
 			let cancellation_id = scheduler.generate_cancellation_id();
-			let destination_clone = destination.clone();
+			let mut destination_clone = destination.clone();
 
 			let mut count = if interval_subscription_options.start_on_subscribe {
 				1
@@ -48,13 +48,11 @@ where
 
 			scheduler.schedule_repeated_work(
 				move |_, _| {
-					let mut destination_lock = destination_clone.lock();
-
-					if destination_lock.is_closed() {
+					if destination_clone.is_closed() {
 						return WorkResult::Done;
 					}
 
-					destination_lock.next(count);
+					destination_clone.next(count);
 					count += 1;
 
 					WorkResult::Pending
diff --git a/crates/rx_core_observable_iterator_on_tick/src/iterator_on_tick_subscription.rs b/crates/rx_core_observable_iterator_on_tick/src/iterator_on_tick_subscription.rs
index 75ca3fb..23b2286 100644
--- a/crates/rx_core_observable_iterator_on_tick/src/iterator_on_tick_subscription.rs
+++ b/crates/rx_core_observable_iterator_on_tick/src/iterator_on_tick_subscription.rs
@@ -96,8 +96,7 @@ where
 				move |_, _context| {
 					state.observed_ticks += 1;
 
-					let mut destination = state.destination.lock();
-					if destination.is_closed() {
+					if state.destination.is_closed() {
 						return WorkResult::Done;
 					}
 
@@ -107,11 +106,11 @@ where
 						&& let Some(value) = state.peekable_iterator.next()
 					{
 						state.observed_ticks = 0;
-						destination.next(value);
-						if destination.is_closed() {
+						state.destination.next(value);
+						if state.destination.is_closed() {
 							WorkResult::Done
 						} else if state.peekable_iterator.peek().is_none() {
-							destination.complete();
+							state.destination.complete();
 							WorkResult::Done
 						} else {
 							WorkResult::Pending
diff --git a/crates/rx_core_observable_timer/src/timer_subscription.rs b/crates/rx_core_observable_timer/src/timer_subscription.rs
index 3fcf84a..ae676c7 100644
--- a/crates/rx_core_observable_timer/src/timer_subscription.rs
+++ b/crates/rx_core_observable_timer/src/timer_subscription.rs
@@ -1,8 +1,8 @@
 use std::time::Duration;
 
 use rx_core_common::{
-	Scheduler, SchedulerHandle, SchedulerScheduleWorkExtension, SharedSubscriber, Subscriber,
-	SubscriptionLike, WorkCancellationId,
+	RxObserver, Scheduler, SchedulerHandle, SchedulerScheduleWorkExtension, SharedSubscriber,
+	Subscriber, SubscriptionLike, WorkCancellationId,
 };
 use rx_core_macro_subscription_derive::RxSubscription;
 
@@ -34,17 +34,16 @@ where
 		let cancellation_id = {
 			let mut scheduler = scheduler_clone.lock();
 			let cancellation_id = scheduler.generate_cancellation_id();
-			let destination_clone = destination.clone();
+			let mut destination_clone = destination.clone();
 
 			scheduler.schedule_delayed_work(
 				move |_, _| {
-					let mut destination = destination_clone.lock();
-					if destination.is_closed() {
+					if destination_clone.is_closed() {
 						return;
 					}
-					destination.next(());
-					if !destination.is_closed() {
-						destination.complete();
+					destination_clone.next(());
+					if !destination_clone.is_closed() {
+						destination_clone.complete();
 					}
 				},
 				duration,
-- 
2.43.0


From fdcef6bdecdf9161855aa0d5f015eb975f6b1c46 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:48:53 +0000
Subject: [PATCH 22/38] fix: retry does not keep its last subscription locked
 while it's unsubscribed, and stops when that closed it

---
 .../rx_core_operator_retry/src/retry_observable.rs |  5 +++--
 .../rx_core_operator_retry/src/retry_subscriber.rs | 14 ++++++++++++--
 2 files changed, 15 insertions(+), 4 deletions(-)

diff --git a/crates/rx_core_operator_retry/src/retry_observable.rs b/crates/rx_core_operator_retry/src/retry_observable.rs
index 3d943ca..66affb0 100644
--- a/crates/rx_core_operator_retry/src/retry_observable.rs
+++ b/crates/rx_core_operator_retry/src/retry_observable.rs
@@ -86,8 +86,9 @@ where
 			immediate_retries += 1;
 
 			if caught_error.lock_ignore_poison().is_some() {
-				if let Some(mut last_subscription) = last_subscription.lock_ignore_poison().take() {
-					last_subscription.unsubscribe();
+				let failed_subscription = last_subscription.lock_ignore_poison().take();
+				if let Some(mut failed_subscription) = failed_subscription {
+					failed_subscription.unsubscribe();
 				}
 				if shared_destination.is_closed() {
 					break;
diff --git a/crates/rx_core_operator_retry/src/retry_subscriber.rs b/crates/rx_core_operator_retry/src/retry_subscriber.rs
index b57c4ac..879709c 100644
--- a/crates/rx_core_operator_retry/src/retry_subscriber.rs
+++ b/crates/rx_core_operator_retry/src/retry_subscriber.rs
@@ -56,7 +56,10 @@ where
 
 	#[inline]
 	fn reset(&mut self) {
-		if let Some(mut last_subscription) = self.last_subscription.lock_ignore_poison().take()
+		// Taken out first, its teardowns may unsubscribe the retry itself.
+		let last_subscription = self.last_subscription.lock_ignore_poison().take();
+
+		if let Some(mut last_subscription) = last_subscription
 			&& !last_subscription.is_closed()
 		{
 			last_subscription.unsubscribe();
@@ -101,8 +104,15 @@ where
 		};
 
 		while self.retries <= self.max_retries {
-			let mut stolen_source = self.source.lock_ignore_poison().take().expect(SOURCE_STEAL);
 			self.reset();
+
+			// The teardowns of the failed subscription may have closed the retry
+			if self.outer_subscription.is_closed() {
+				self.destination.unsubscribe();
+				return;
+			}
+
+			let mut stolen_source = self.source.lock_ignore_poison().take().expect(SOURCE_STEAL);
 			self.retries += 1;
 
 			let next_subscription = stolen_source.subscribe(RetrySubscriber::new(
-- 
2.43.0


From 1baaa72a6eb0991c849c18538ba87f7863fe99e0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:48:53 +0000
Subject: [PATCH 23/38] fix: an adsr whose source ends while its signal is
 observed must end too

---
 crates/rx_core_operator_adsr/src/adsr_subscriber.rs | 9 ++++-----
 1 file changed, 4 insertions(+), 5 deletions(-)

diff --git a/crates/rx_core_operator_adsr/src/adsr_subscriber.rs b/crates/rx_core_operator_adsr/src/adsr_subscriber.rs
index 669b5b5..45dbaf5 100644
--- a/crates/rx_core_operator_adsr/src/adsr_subscriber.rs
+++ b/crates/rx_core_operator_adsr/src/adsr_subscriber.rs
@@ -58,7 +58,7 @@ where
 			options,
 		}));
 		let shared_state_clone = shared_state.clone();
-		let shared_destination_clone = shared_destination.clone();
+		let mut destination = shared_destination.clone();
 		let scheduler_clone = scheduler.clone();
 		let mut scheduler_lock = scheduler_clone.lock();
 		let cancellation_id = scheduler_lock.generate_cancellation_id();
@@ -66,8 +66,7 @@ where
 		let mut envelope_state = AdsrEnvelopeState::default();
 		scheduler_lock.schedule_continuous_work(
 			move |tick, _context| {
-				let mut destination_lock = shared_destination_clone.lock();
-				if destination_lock.is_closed() {
+				if destination.is_closed() {
 					return WorkResult::Done;
 				}
 
@@ -110,8 +109,8 @@ where
 				};
 
 				if let Some(next) = next {
-					destination_lock.next(next);
-					if destination_lock.is_closed() {
+					destination.next(next);
+					if destination.is_closed() {
 						return WorkResult::Done;
 					}
 				}
-- 
2.43.0


From 158f0b5e89085a2e750799bb493f9a834c4ca5bb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:48:53 +0000
Subject: [PATCH 24/38] fix: an error observed while an observe_on value is
 delivered must not get lost

---
 .../rx_core_operator_observe_on/src/observe_on_subscriber.rs   | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/crates/rx_core_operator_observe_on/src/observe_on_subscriber.rs b/crates/rx_core_operator_observe_on/src/observe_on_subscriber.rs
index 19c255e..32780b8 100644
--- a/crates/rx_core_operator_observe_on/src/observe_on_subscriber.rs
+++ b/crates/rx_core_operator_observe_on/src/observe_on_subscriber.rs
@@ -57,7 +57,7 @@ where
 {
 	#[inline]
 	fn next(&mut self, next: Self::In) {
-		let destination = self.destination.clone();
+		let mut destination = self.destination.clone();
 
 		self.scheduled_work_counter.fetch_add(1, Ordering::Relaxed);
 		let scheduled_work_counter = self.scheduled_work_counter.clone();
@@ -65,7 +65,6 @@ where
 		let upstream_unsubscribed = self.upstream_unsubscribed.clone();
 		self.scheduler.lock().schedule_immediate_work(
 			move |_, _| {
-				let mut destination = destination.lock();
 				if !destination.is_closed() {
 					destination.next(next);
 				}
-- 
2.43.0


From 3b02f4b93bbec2ccdcb7b7e7e89c7c75bff24dce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:48:53 +0000
Subject: [PATCH 25/38] fix: a second inner error must not panic once the
 downstream has errored

---
 .../src/higher_order_subscriber_state.rs                     | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/crates/rx_core_subscriber_higher_order/src/higher_order_subscriber_state.rs b/crates/rx_core_subscriber_higher_order/src/higher_order_subscriber_state.rs
index 827bcac..5735537 100644
--- a/crates/rx_core_subscriber_higher_order/src/higher_order_subscriber_state.rs
+++ b/crates/rx_core_subscriber_higher_order/src/higher_order_subscriber_state.rs
@@ -116,6 +116,9 @@ where
 
 	pub fn downstream_error(&mut self) {
 		self.state.on_downstream_error();
-		self.downstream_subscriber_state.error();
+		// Another inner could have closed the downstream already
+		if !self.downstream_subscriber_state.is_closed() {
+			self.downstream_subscriber_state.error();
+		}
 	}
 }
-- 
2.43.0


From 8d12ee1efc033e372d06fafa425365fc955441c1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:48:53 +0000
Subject: [PATCH 26/38] fix: asking a subject subscription whether it's closed
 must not deadlock while it's notified

---
 .../src/multicast_subscription.rs                      | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/crates/rx_core_subject_publish/src/multicast_subscription.rs b/crates/rx_core_subject_publish/src/multicast_subscription.rs
index 4711b19..aa8699e 100644
--- a/crates/rx_core_subject_publish/src/multicast_subscription.rs
+++ b/crates/rx_core_subject_publish/src/multicast_subscription.rs
@@ -1,4 +1,4 @@
-use std::sync::{Arc, Mutex};
+use std::sync::{Arc, Mutex, TryLockError};
 
 use rx_core_common::{
 	LockWithPoisonBehavior, Never, Signal, Subscriber, SubscriptionLike, Teardown,
@@ -73,7 +73,13 @@ where
 {
 	fn is_closed(&self) -> bool {
 		if let Some(subscriber) = self.subscriber.as_ref() {
-			subscriber.is_closed()
+			// It's locked while it's being notified, and what it's notified of
+			// may ask
+			match subscriber.try_lock() {
+				Ok(subscriber) => subscriber.is_closed(),
+				Err(TryLockError::Poisoned(_)) => true,
+				Err(TryLockError::WouldBlock) => false,
+			}
 		} else {
 			true
 		}
-- 
2.43.0


From 9129aa6811fb54e4f0340e1236028b3a2fed9222 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:48:53 +0000
Subject: [PATCH 27/38] fix: work cancelled by other work in the same tick must
 not be ticked

---
 .../src/ticking_executor.rs                   | 58 ++++++++++++++++---
 1 file changed, 49 insertions(+), 9 deletions(-)

diff --git a/crates/rx_core_scheduler_ticking/src/ticking_executor.rs b/crates/rx_core_scheduler_ticking/src/ticking_executor.rs
index 512f536..8362201 100644
--- a/crates/rx_core_scheduler_ticking/src/ticking_executor.rs
+++ b/crates/rx_core_scheduler_ticking/src/ticking_executor.rs
@@ -48,6 +48,9 @@ where
 		Box<dyn ScheduledWork<Tick = Tick, WorkContextProvider = C> + Send + Sync>,
 	>,
 	invoked: Vec<WorkInvokeId>,
+	/// Actions already taken from the scheduler during a tick, to be applied the
+	/// next time the queue is drained.
+	queued_actions: Vec<ScheduledWorkAction<Tick, C>>,
 	already_ticked: HashSet<WorkId>,
 	max_single_tick_recursion_depth: usize,
 }
@@ -65,6 +68,7 @@ where
 			cancellation_map: HashMap::default(),
 			invokable_work: HashMap::new(),
 			invoked: Vec::new(),
+			queued_actions: Vec::new(),
 			scheduler: SchedulerHandle::new(scheduler),
 			already_ticked: HashSet::new(),
 			max_single_tick_recursion_depth: 100,
@@ -139,7 +143,9 @@ where
 	}
 
 	fn execute_invoked(&mut self, tick: Tick, context: &mut C::Item<'_>) {
-		for invoked_id in self.invoked.drain(..) {
+		for invoked_id in std::mem::take(&mut self.invoked) {
+			self.apply_queued_cancellations();
+
 			if let Some(invoked_work) = self.invokable_work.get_mut(&invoked_id) {
 				let invoke_result = invoked_work.tick(tick, context);
 				if matches!(invoke_result, WorkResult::Done) {
@@ -149,14 +155,39 @@ where
 		}
 	}
 
+	/// Work cancelled by other work within the same tick must not be ticked
+	/// anymore, every other action has to wait until the queue is drained.
+	fn apply_queued_cancellations(&mut self) {
+		let newly_queued_from = self.queued_actions.len();
+		self.queued_actions
+			.extend(self.scheduler.lock().drain_actions());
+
+		let mut cancelled_work = Vec::new();
+		for action in &self.queued_actions[newly_queued_from..] {
+			match action {
+				ScheduledWorkAction::Cancel(cancelled_id) => {
+					let work_ids = self.cancellation_map.get(cancelled_id);
+					for work_id in work_ids.into_iter().flatten() {
+						cancelled_work.extend(self.active_work.shift_remove(work_id));
+					}
+				}
+				ScheduledWorkAction::CancelInvoked(cancelled_invocation_id) => {
+					cancelled_work.extend(self.invokable_work.remove(cancelled_invocation_id));
+				}
+				_ => {}
+			}
+		}
+	}
+
 	fn drain_scheduler_queue(&mut self, tick: Tick) -> bool {
 		// The scheduler must not be locked while the actions are applied, dropping
 		// a cancelled work can run teardowns that use the scheduler.
 		let (had_actions, actions) = {
 			let mut scheduler = self.scheduler.lock();
-			let had_actions = scheduler.has_actions();
 			scheduler.update_tick(tick);
-			(had_actions, scheduler.drain_actions().collect::<Vec<_>>())
+			let mut actions = std::mem::take(&mut self.queued_actions);
+			actions.extend(scheduler.drain_actions());
+			(!actions.is_empty(), actions)
 		};
 
 		for action in actions {
@@ -200,18 +231,27 @@ where
 		let mut work_ticked = Vec::<WorkId>::new();
 		let mut work_finished_this_tick = Vec::<WorkId>::new();
 
-		for (work_id, work) in self
+		let work_to_tick = self
 			.active_work
-			.iter_mut()
-			.filter(|(key, _)| !self.already_ticked.contains(key))
-		{
+			.keys()
+			.filter(|key| !self.already_ticked.contains(*key))
+			.copied()
+			.collect::<Vec<_>>();
+
+		for work_id in work_to_tick {
+			self.apply_queued_cancellations();
+
+			let Some(work) = self.active_work.get_mut(&work_id) else {
+				continue;
+			};
+
 			let work_result = work.tick(tick, context);
 
 			if matches!(work_result, WorkResult::Done) {
-				work_finished_this_tick.push(*work_id);
+				work_finished_this_tick.push(work_id);
 			}
 
-			work_ticked.push(*work_id);
+			work_ticked.push(work_id);
 		}
 
 		let no_work_ticked = work_ticked.is_empty();
-- 
2.43.0


From af20ab1a29cd04152187e3beb575f6fa5dfc8580 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:48:53 +0000
Subject: [PATCH 28/38] fix: a value debounced while the previous one is
 delivered must not be lost on completion

---
 .../src/debounce_time_subscriber.rs                 | 13 ++++++-------
 1 file changed, 6 insertions(+), 7 deletions(-)

diff --git a/crates/rx_core_operator_debounce_time/src/debounce_time_subscriber.rs b/crates/rx_core_operator_debounce_time/src/debounce_time_subscriber.rs
index 9b1d943..4d8abb1 100644
--- a/crates/rx_core_operator_debounce_time/src/debounce_time_subscriber.rs
+++ b/crates/rx_core_operator_debounce_time/src/debounce_time_subscriber.rs
@@ -66,7 +66,7 @@ where
 {
 	#[inline]
 	fn next(&mut self, next: Self::In) {
-		let destination = self.destination.clone();
+		let mut destination = self.destination.clone();
 		let scheduled_work_counter = self.scheduled_work_counter.clone();
 		let upstream_completed = self.upstream_completed.clone();
 		let upstream_unsubscribed = self.upstream_unsubscribed.clone();
@@ -76,17 +76,16 @@ where
 		self.scheduled_work_counter.store(1, Ordering::Relaxed);
 		scheduler.schedule_delayed_work(
 			move |_, _| {
-				let mut destination = destination.lock();
+				// The destination may emit the next value to be debounced
+				scheduled_work_counter.store(0, Ordering::Relaxed);
+
 				if !destination.is_closed() {
 					destination.next(next);
 				}
 
-				let previous_work_counter_before_sub =
-					scheduled_work_counter.swap(0, Ordering::Relaxed);
-
 				// try complete
 				if upstream_completed.load(Ordering::Relaxed)
-					&& previous_work_counter_before_sub == 1
+					&& scheduled_work_counter.load(Ordering::Relaxed) == 0
 					&& !destination.is_closed()
 				{
 					destination.complete();
@@ -95,7 +94,7 @@ where
 
 				// try unsubscribe
 				if upstream_unsubscribed.load(Ordering::Relaxed)
-					&& previous_work_counter_before_sub == 1
+					&& scheduled_work_counter.load(Ordering::Relaxed) == 0
 					&& !destination.is_closed()
 				{
 					destination.unsubscribe();
-- 
2.43.0


From c02b4447f264d8d231bb2e65ef4b9277e1e46954 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:51:42 +0000
Subject: [PATCH 29/38] fix: adding a teardown to a shared subscription from
 one of its own teardowns must not deadlock

---
 .../src/subscriptions/subscription_shared.rs      | 15 +++++++++++++--
 1 file changed, 13 insertions(+), 2 deletions(-)

diff --git a/crates/rx_core_common/src/subscriptions/subscription_shared.rs b/crates/rx_core_common/src/subscriptions/subscription_shared.rs
index 73493a2..1aaf4d1 100644
--- a/crates/rx_core_common/src/subscriptions/subscription_shared.rs
+++ b/crates/rx_core_common/src/subscriptions/subscription_shared.rs
@@ -5,7 +5,7 @@ use rx_core_macro_subscription_derive::RxSubscription;
 use crate::{
 	LockWithPoisonBehavior, SubscriptionClosedFlag, SubscriptionData, SubscriptionLike,
 	SubscriptionLikePushNotificationExtention, SubscriptionNotification, SubscriptionWithTeardown,
-	TeardownCollectionExtension,
+	Teardown, TeardownCollection, TeardownCollectionExtension,
 };
 
 pub(crate) const SUBSCRIPTION_MAX_RECURSION_DEPTH: usize = 10;
@@ -88,7 +88,6 @@ impl Default for SubscriptionDeferredState {
 
 #[derive(RxSubscription, Default, Clone, Debug)]
 #[_rx_core_common_crate(crate)]
-#[rx_delegate_teardown_collection]
 #[rx_skip_unsubscribe_on_drop_impl] // It's shared
 pub struct SharedSubscription {
 	#[destination]
@@ -209,6 +208,18 @@ impl SubscriptionLike for SharedSubscription {
 	}
 }
 
+impl TeardownCollection for SharedSubscription {
+	fn add_teardown(&mut self, teardown: Teardown) {
+		// It's locked while its teardowns are running, and they may add more
+		let is_closed = self.deferred_state.lock_ignore_poison().is_closed();
+		if is_closed {
+			teardown.execute();
+		} else {
+			self.subscription.add_teardown(teardown);
+		}
+	}
+}
+
 impl Drop for SharedSubscription {
 	fn drop(&mut self) {
 		// Don't do anything, it's shared
-- 
2.43.0


From 90d01c11b1985f1211c30600414f6dccb77d3c50 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:51:42 +0000
Subject: [PATCH 30/38] fix: a subject notified by the teardown of a leaving
 subscriber must not keep that back

---
 crates/rx_core_subject_publish/src/multicast.rs | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/crates/rx_core_subject_publish/src/multicast.rs b/crates/rx_core_subject_publish/src/multicast.rs
index 5dd7867..a26b627 100644
--- a/crates/rx_core_subject_publish/src/multicast.rs
+++ b/crates/rx_core_subject_publish/src/multicast.rs
@@ -280,6 +280,9 @@ where
 
 				subscribers.unsubscribe_by_id(id);
 
+				// The teardowns of the subscriber may have notified the subject
+				Self::apply_notification_queue(self.deferred_state.clone(), &mut subscribers);
+
 				Ok(())
 			}
 			None => Err(MulticastUnsubscribeLockError),
-- 
2.43.0


From 37b50373372c9c78968a92aa21cac61b4d8ff91a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:00:44 +0000
Subject: [PATCH 31/38] fix: unsubscribing merge_map and concat_map drops the
 queue before the inner subscriptions, and no inner is unsubscribed under the
 lock

---
 .../src/concurrent_subscriber.rs              | 39 +++++++++++++------
 1 file changed, 27 insertions(+), 12 deletions(-)

diff --git a/crates/rx_core_subscriber_higher_order_concurrent/src/concurrent_subscriber.rs b/crates/rx_core_subscriber_higher_order_concurrent/src/concurrent_subscriber.rs
index 4c13b47..00b69a7 100644
--- a/crates/rx_core_subscriber_higher_order_concurrent/src/concurrent_subscriber.rs
+++ b/crates/rx_core_subscriber_higher_order_concurrent/src/concurrent_subscriber.rs
@@ -1,6 +1,7 @@
 use core::num::NonZero;
 use std::{
 	marker::PhantomData,
+	mem,
 	sync::{Arc, Mutex},
 };
 
@@ -38,7 +39,9 @@ where
 {
 	pub fn new(destination: Destination, concurrency_limit: NonZero<usize>) -> Self {
 		let mut shared_destination = SharedSubscriber::new(destination);
-		let state = Arc::new(Mutex::new(HigherOrderSubscriberState::default()));
+		let state = Arc::new(Mutex::new(HigherOrderSubscriberState::<
+			ConcurrentSubscriberQueue<InnerObservable>,
+		>::default()));
 		let inner_subscriptions = Arc::new(Mutex::new(Slab::<SubscriptionData>::new()));
 		let mut outer_teardown = SharedSubscription::default();
 
@@ -46,6 +49,15 @@ where
 		let state_on_unsubscribe = state.clone();
 
 		outer_teardown.add_fn(move || {
+			// Nothing that is still waiting in the queue is allowed to be subscribed to
+			// by the inner subscriptions that are about to be unsubscribed.
+			let queue = {
+				let mut state = state_on_unsubscribe.lock_ignore_poison();
+				state.upstream_subscriber_state.unsubscribe_if_not_already();
+				mem::take(&mut state.state.queue)
+			};
+			drop(queue);
+
 			let inner_subscriptions = inner_subscriptions_on_unsubscribe
 				.lock_ignore_poison()
 				.drain()
@@ -54,9 +66,6 @@ where
 			for mut inner_subscription in inner_subscriptions {
 				inner_subscription.unsubscribe();
 			}
-
-			let mut state = state_on_unsubscribe.lock_ignore_poison();
-			state.upstream_subscriber_state.unsubscribe_if_not_already();
 		});
 
 		shared_destination.add(outer_teardown.clone());
@@ -182,15 +191,21 @@ pub(crate) fn create_inner_subscription<InnerObservable, Destination>(
 	));
 
 	if !next_subscription.is_closed() {
-		let mut slab = inner_subscriptions_clone.lock_ignore_poison();
-		if let Some(entry) = slab.get_mut(key) {
-			entry.add(next_subscription);
-		} else {
-			// The entry may have been removed by teardown; ensure the subscription is closed.
-			let mut orphan = next_subscription;
-			if !orphan.is_closed() {
-				orphan.unsubscribe();
+		let orphan = {
+			let mut slab = inner_subscriptions_clone.lock_ignore_poison();
+			if let Some(entry) = slab.get_mut(key) {
+				entry.add(next_subscription);
+				None
+			} else {
+				Some(next_subscription)
 			}
+		};
+
+		// The entry may have been removed by teardown; ensure the subscription is closed.
+		if let Some(mut orphan) = orphan
+			&& !orphan.is_closed()
+		{
+			orphan.unsubscribe();
 		}
 	}
 }
-- 
2.43.0


From a7941215c2b60c25c03cf40c4ccbc222c2170a5d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:00:44 +0000
Subject: [PATCH 32/38] fix: first must not emit an upstream error after it
 completed

---
 crates/rx_core_operator_first/src/first_subscriber.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/crates/rx_core_operator_first/src/first_subscriber.rs b/crates/rx_core_operator_first/src/first_subscriber.rs
index 3264d97..9eb5382 100644
--- a/crates/rx_core_operator_first/src/first_subscriber.rs
+++ b/crates/rx_core_operator_first/src/first_subscriber.rs
@@ -63,7 +63,9 @@ where
 
 	#[inline]
 	fn error(&mut self, error: Self::InError) {
-		self.destination.error(FirstOperatorError::Upstream(error));
+		if !self.first_observed {
+			self.destination.error(FirstOperatorError::Upstream(error));
+		}
 	}
 
 	#[inline]
-- 
2.43.0


From 4f73e30d855f368bf545ed4e3f4ffed2eb21f980 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:00:44 +0000
Subject: [PATCH 33/38] fix: find must not emit an upstream error after it
 completed

---
 crates/rx_core_operator_find/src/find_subscriber.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/crates/rx_core_operator_find/src/find_subscriber.rs b/crates/rx_core_operator_find/src/find_subscriber.rs
index c96fa67..df98bd8 100644
--- a/crates/rx_core_operator_find/src/find_subscriber.rs
+++ b/crates/rx_core_operator_find/src/find_subscriber.rs
@@ -61,7 +61,9 @@ where
 
 	#[inline]
 	fn error(&mut self, error: Self::InError) {
-		self.destination.error(FindOperatorError::Upstream(error));
+		if !self.match_observed {
+			self.destination.error(FindOperatorError::Upstream(error));
+		}
 	}
 
 	#[inline]
-- 
2.43.0


From 859841fe19be36d7e50530c190e92e5dffaca79f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:00:44 +0000
Subject: [PATCH 34/38] fix: find_index must not emit an upstream error after
 it completed

---
 .../src/find_index_subscriber.rs                            | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/crates/rx_core_operator_find_index/src/find_index_subscriber.rs b/crates/rx_core_operator_find_index/src/find_index_subscriber.rs
index 5ea4e97..09424bb 100644
--- a/crates/rx_core_operator_find_index/src/find_index_subscriber.rs
+++ b/crates/rx_core_operator_find_index/src/find_index_subscriber.rs
@@ -71,8 +71,10 @@ where
 
 	#[inline]
 	fn error(&mut self, error: Self::InError) {
-		self.destination
-			.error(FindIndexOperatorError::Upstream(error));
+		if !self.match_observed {
+			self.destination
+				.error(FindIndexOperatorError::Upstream(error));
+		}
 	}
 
 	#[inline]
-- 
2.43.0


From 986235f8de5085f9009d62d7469a4f4a0ef3fb94 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:00:44 +0000
Subject: [PATCH 35/38] fix: is_empty decides only once

---
 .../src/is_empty_subscriber.rs                | 24 +++++++++++++------
 1 file changed, 17 insertions(+), 7 deletions(-)

diff --git a/crates/rx_core_operator_is_empty/src/is_empty_subscriber.rs b/crates/rx_core_operator_is_empty/src/is_empty_subscriber.rs
index 337275f..c69b1fd 100644
--- a/crates/rx_core_operator_is_empty/src/is_empty_subscriber.rs
+++ b/crates/rx_core_operator_is_empty/src/is_empty_subscriber.rs
@@ -15,6 +15,7 @@ where
 {
 	#[destination]
 	destination: Destination,
+	decided: bool,
 	_phantom_data: PhantomInvariant<In>,
 }
 
@@ -26,6 +27,7 @@ where
 	pub fn new(destination: Destination) -> Self {
 		Self {
 			destination,
+			decided: false,
 			_phantom_data: PhantomData,
 		}
 	}
@@ -38,22 +40,30 @@ where
 {
 	#[inline]
 	fn next(&mut self, _next: Self::In) {
-		self.destination.next(false);
-		if !self.destination.is_closed() {
-			self.destination.complete();
+		if !self.decided {
+			self.decided = true;
+			self.destination.next(false);
+			if !self.destination.is_closed() {
+				self.destination.complete();
+			}
 		}
 	}
 
 	#[inline]
 	fn error(&mut self, error: Self::InError) {
-		self.destination.error(error);
+		if !self.decided {
+			self.destination.error(error);
+		}
 	}
 
 	#[inline]
 	fn complete(&mut self) {
-		self.destination.next(true);
-		if !self.destination.is_closed() {
-			self.destination.complete();
+		if !self.decided {
+			self.decided = true;
+			self.destination.next(true);
+			if !self.destination.is_closed() {
+				self.destination.complete();
+			}
 		}
 	}
 }
-- 
2.43.0


From 32d3a48c9f6a16af2f9208db8b4e67841cea447a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:00:44 +0000
Subject: [PATCH 36/38] fix: dematerialize terminates only once

---
 .../src/dematerialize_subscriber.rs                | 14 ++++++++++----
 1 file changed, 10 insertions(+), 4 deletions(-)

diff --git a/crates/rx_core_operator_dematerialize/src/dematerialize_subscriber.rs b/crates/rx_core_operator_dematerialize/src/dematerialize_subscriber.rs
index 37b17de..7eccc3b 100644
--- a/crates/rx_core_operator_dematerialize/src/dematerialize_subscriber.rs
+++ b/crates/rx_core_operator_dematerialize/src/dematerialize_subscriber.rs
@@ -12,6 +12,7 @@ where
 {
 	#[destination]
 	destination: Destination,
+	terminated: bool,
 }
 
 impl<Destination> DematerializeSubscriber<Destination>
@@ -19,7 +20,10 @@ where
 	Destination: Subscriber,
 {
 	pub fn new(destination: Destination) -> Self {
-		Self { destination }
+		Self {
+			destination,
+			terminated: false,
+		}
 	}
 }
 
@@ -31,12 +35,13 @@ where
 	fn next(&mut self, notification: Self::In) {
 		match notification {
 			ObserverNotification::Next(next) => {
-				if !self.is_closed() {
+				if !self.terminated && !self.is_closed() {
 					self.destination.next(next)
 				}
 			}
 			ObserverNotification::Error(error) => {
-				if !self.is_closed() {
+				if !self.terminated && !self.is_closed() {
+					self.terminated = true;
 					self.destination.error(error);
 				}
 			}
@@ -50,7 +55,8 @@ where
 
 	#[inline]
 	fn complete(&mut self) {
-		if !self.is_closed() {
+		if !self.terminated && !self.is_closed() {
+			self.terminated = true;
 			self.destination.complete();
 		}
 	}
-- 
2.43.0


From f3a4d91559912e43ca5789ce96f58fea1de33d3d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:43:45 +0000
Subject: [PATCH 37/38] fix: a terminal signal deferred by a subject does not
 cancel its subscribers

What is deferred while a subject notifies its subscribers was applied with an
extra unsubscribe after a completion or an error, unlike a signal that is not
deferred: inner subscriptions still running and recoveries just started
downstream were cancelled.
---
 .../rx_core_subject_publish/src/multicast.rs   | 18 ++++++++++++------
 1 file changed, 12 insertions(+), 6 deletions(-)

diff --git a/crates/rx_core_subject_publish/src/multicast.rs b/crates/rx_core_subject_publish/src/multicast.rs
index a26b627..229bae6 100644
--- a/crates/rx_core_subject_publish/src/multicast.rs
+++ b/crates/rx_core_subject_publish/src/multicast.rs
@@ -178,15 +178,17 @@ where
 
 				let is_unsubscribe = matches!(&notification, MulticastNotification::Unsubscribe);
 
+				// A terminal notification does not end every subscriber, some
+				// may still have something left to emit, or have recovered.
+				// They can still be unsubscribed afterwards.
+				let can_always_apply = is_unsubscribe
+					|| matches!(&notification, MulticastNotification::UnsubscribeById(_));
+
 				// Other notifications can be safely dropped when already closed
-				if !state.lock_clear_poison().is_closed_ignoring_deferred() {
+				if can_always_apply || !state.lock_clear_poison().is_closed_ignoring_deferred() {
 					subscribers.apply(notification);
 				}
 
-				if is_terminal {
-					subscribers.apply(MulticastNotification::Unsubscribe);
-				}
-
 				if is_unsubscribe || is_terminal {
 					state.lock_ignore_poison().closed_flag.close();
 				}
@@ -318,7 +320,11 @@ where
 		let is_first_unsubscribe = matches!(notification, MulticastNotification::Unsubscribe)
 			&& !self.observed_state.is_unsubscribed();
 
-		if *self.closed_flag && !is_first_unsubscribe {
+		// Subscribers can outlive the subject, and can still be unsubscribed
+		let is_unsubscribe_by_id =
+			matches!(notification, MulticastNotification::UnsubscribeById(_));
+
+		if *self.closed_flag && !is_first_unsubscribe && !is_unsubscribe_by_id {
 			if let MulticastNotification::Add(_id, mut subscriber) = notification
 				&& !subscriber.is_closed()
 			{
-- 
2.43.0


From 69aa60c6a136f6ecce351427bf4e51695e5c4706 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:43:45 +0000
Subject: [PATCH 38/38] fix: leaving a subject removes the subscriber even if
 it is closed

A closed subscriber can still own something to tear down, which was left
running when its subscription was unsubscribed.
---
 .../src/multicast_subscription.rs                | 16 +++-------------
 1 file changed, 3 insertions(+), 13 deletions(-)

diff --git a/crates/rx_core_subject_publish/src/multicast_subscription.rs b/crates/rx_core_subject_publish/src/multicast_subscription.rs
index aa8699e..9ec5319 100644
--- a/crates/rx_core_subject_publish/src/multicast_subscription.rs
+++ b/crates/rx_core_subject_publish/src/multicast_subscription.rs
@@ -53,17 +53,6 @@ where
 			subscriber: None,
 		}
 	}
-
-	fn try_check_is_closed(&self) -> bool {
-		if let Some(subscriber) = self.subscriber.as_ref() {
-			subscriber
-				.try_lock()
-				.map(|s| s.is_closed())
-				.unwrap_or(false)
-		} else {
-			true
-		}
-	}
 }
 
 impl<In, InError> SubscriptionLike for MulticastSubscription<In, InError>
@@ -86,8 +75,9 @@ where
 	}
 
 	fn unsubscribe(&mut self) {
-		if !self.try_check_is_closed()
-			&& let Some(id) = self.id
+		// Even a closed subscriber can have something left to unsubscribe, and
+		// it has to be removed either way
+		if let Some(id) = self.id.take()
 			&& let Err(_unsubscribe_error) = self.subscribers.try_unsubscribe_by_id(id)
 		{
 			self.state
-- 
2.43.0

