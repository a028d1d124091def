From b8056cc98f5941e32de5dbc14678be58cae6b5b5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:30:57 +0000
Subject: [PATCH 001/331] fix: FastLock::unlock keeps the sleeper of the new
 owner alive while notifying it

---
 src/lightspeed/mt/fastlock.h | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/lightspeed/mt/fastlock.h b/src/lightspeed/mt/fastlock.h
index 3546352..4ba537c 100644
--- a/src/lightspeed/mt/fastlock.h
+++ b/src/lightspeed/mt/fastlock.h
@@ -92,7 +92,8 @@ public:
 			//find tail of the queue - previous object will be new owner
 			while (p->next != o) p = p->next;
 			//store target thread, setting new owner can make Slot disappear
-			ISleepingObject *ntf = p->notify;
+			//(keep the sleeper referenced, the target thread can finish before it is notified)
+			RefCntPtr<IThreadSleeper> ntf = p->notify;
 			//write owner to notify next thread - target thread has ownership now!
 			owner = p;
 			//notify new owner - it may sleep (release barrier here)
-- 
2.43.0


From ba8bc72f8e53bb144c8c121715c95c5740912c51 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:30:57 +0000
Subject: [PATCH 002/331] fix: FastLock::Async takes ownership when the lock is
 free

---
 src/lightspeed/mt/fastlock.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/lightspeed/mt/fastlock.h b/src/lightspeed/mt/fastlock.h
index 4ba537c..d29532c 100644
--- a/src/lightspeed/mt/fastlock.h
+++ b/src/lightspeed/mt/fastlock.h
@@ -144,7 +144,7 @@ public:
 		Slot sl;
 	public:
 		Async(FastLock &lk):lk(lk),sl(getCurThreadSleepingObj()) {
-			lk.addToQueue(&sl);
+			if (!lk.addToQueue(&sl)) lk.owner = &sl;
 		}
 		~Async() {
 			while (lk.owner != &sl) threadHalt();
-- 
2.43.0


From 9c30f63423d8bf4b1862c5217a13b9fc1a64b639 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:31:03 +0000
Subject: [PATCH 003/331] fix: FastLockR save/restore of the recursion updates
 the owner thread

---
 src/lightspeed/mt/fastlock.h | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/lightspeed/mt/fastlock.h b/src/lightspeed/mt/fastlock.h
index d29532c..b024c54 100644
--- a/src/lightspeed/mt/fastlock.h
+++ b/src/lightspeed/mt/fastlock.h
@@ -297,6 +297,7 @@ public:
 	natural unlockSaveRecusion() {
 		natural ret = recursiveCount;
 		recursiveCount = 0;
+		ownerThread = 0;
 		FastLock::unlock();
 		return ret;
 	}
@@ -316,6 +317,7 @@ public:
 		if (tryLock) {
 			//call original tryLock - it returns false, when lock is owned
 			if (!FastLock::tryLock()) return false;
+			ownerThread = getCurThreadId();
 		} else {
 			//try to lock
 			lock();
-- 
2.43.0


From f93d2ef2d690bc70ae4c44ff6b0ff44ded1653f9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:38:55 +0000
Subject: [PATCH 004/331] fix: Notifier bound with a thread keeps the sleeper
 of the thread while notifying it

---
 src/lightspeed/mt/notifier.cpp | 3 ++-
 src/lightspeed/mt/notifier.h   | 7 ++++++-
 2 files changed, 8 insertions(+), 2 deletions(-)

diff --git a/src/lightspeed/mt/notifier.cpp b/src/lightspeed/mt/notifier.cpp
index 5e388e1..5e33440 100644
--- a/src/lightspeed/mt/notifier.cpp
+++ b/src/lightspeed/mt/notifier.cpp
@@ -4,7 +4,8 @@
 
 namespace LightSpeed {
 
-	Notifier::Notifier():reason(0),signaled(0),forward(&Thread::current()) {}
+	Notifier::Notifier():reason(0),signaled(0),forward(&Thread::current())
+		,sleeper(Thread::current().getSafeSleepingObject()) {}
 
 
 	bool Notifier::wait(const Timeout &tm, bool wakeOnExit) {
diff --git a/src/lightspeed/mt/notifier.h b/src/lightspeed/mt/notifier.h
index e0e6a49..b5d8ce3 100644
--- a/src/lightspeed/mt/notifier.h
+++ b/src/lightspeed/mt/notifier.h
@@ -8,6 +8,7 @@
 #ifndef LIGHTSPEED_MT_NOTIFIER_H_
 #define LIGHTSPEED_MT_NOTIFIER_H_
 #include "sleepingobject.h"
+#include "threadSleeper.h"
 #include "atomic.h"
 #include <assert.h>
 
@@ -57,8 +58,10 @@ namespace LightSpeed {
 		 * helpful carry some user data with notification.
 		 */
 		virtual void wakeUp(natural reason = 0) throw() {
+			//keep the sleeper of the thread - the thread can finish before it is notified
+			RefCntPtr<IThreadSleeper> keep(sleeper);
 			//store forward - this object can disappear during processing
-			ISleepingObject *fw = forward;
+			ISleepingObject *fw = keep == nil ? forward : keep.get();
 			//store reason first
 			this->reason = reason;
 			//make object signaled - now thread can continue
@@ -123,6 +126,8 @@ namespace LightSpeed {
 	protected:
 		atomic signaled;
 		ISleepingObject *forward;
+		///sleeper of the current thread if the notifier is bound with it
+		RefCntPtr<IThreadSleeper> sleeper;
 
 
 	};
-- 
2.43.0


From ad7b1b5d608419634b0bbc54bda08c2832573905 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:39:05 +0000
Subject: [PATCH 005/331] fix: Gate::open changes the state under the lock of
 its queue, so a joined thread can be destroyed

---
 src/lightspeed/mt/gate.h     |  5 +++--
 src/lightspeed/mt/syncPt.cpp | 10 ++++++++++
 src/lightspeed/mt/syncPt.h   | 13 +++++++++++++
 3 files changed, 26 insertions(+), 2 deletions(-)

diff --git a/src/lightspeed/mt/gate.h b/src/lightspeed/mt/gate.h
index 05635a5..32b2922 100644
--- a/src/lightspeed/mt/gate.h
+++ b/src/lightspeed/mt/gate.h
@@ -83,8 +83,9 @@ namespace LightSpeed {
 
 	inline void Gate::open()
 	{
-		writeRelease(&state,stateOpen);
-		sp.notifyAll();
+		//the state is changed under the lock of the queue: a waiting thread which sees the opened gate
+		//can destroy the gate, but the destructor waits for the lock
+		sp.setAndNotifyAll(state,stateOpen);
 	}
 
 
diff --git a/src/lightspeed/mt/syncPt.cpp b/src/lightspeed/mt/syncPt.cpp
index a8952e3..c79186c 100644
--- a/src/lightspeed/mt/syncPt.cpp
+++ b/src/lightspeed/mt/syncPt.cpp
@@ -103,8 +103,18 @@ bool SyncPt::notifyOne() {
 	return true;
 }
 
+bool SyncPt::setAndNotifyAll(atomic &variable, atomicValue value) {
+	Synchronized<FastLock> _(queueLock);
+	writeRelease(&variable,value);
+	return notifyAll_lk();
+}
+
 bool SyncPt::notifyAll() {
 	Synchronized<FastLock> _(queueLock);
+	return notifyAll_lk();
+}
+
+bool SyncPt::notifyAll_lk() {
 	bool suc = false;
 	Slot *p = curQueue;
 	curQueue = 0;
diff --git a/src/lightspeed/mt/syncPt.h b/src/lightspeed/mt/syncPt.h
index 2fd6b5d..60bf097 100644
--- a/src/lightspeed/mt/syncPt.h
+++ b/src/lightspeed/mt/syncPt.h
@@ -259,6 +259,16 @@ namespace LightSpeed {
 		 */
 		bool notifyAll();
 
+		///Sets variable and notifies all slots while the queue is locked
+		/**
+		 * @param variable variable to set before the slots are notified. Thread, which notices the new value can
+		 * destroy this object: destructor waits until the notification is finished
+		 * @param value value to set
+		 * @retval true notified
+		 * @retval false empty queue
+		 */
+		bool setAndNotifyAll(atomic &variable, atomicValue value);
+
 
 		bool empty() const {return curQueue == 0;}
 
@@ -275,6 +285,9 @@ namespace LightSpeed {
 		//call under lock!
 		void notifySlot_lk(Slot *slot);
 
+		//call under lock!
+		bool notifyAll_lk();
+
 		void add_lk( Slot &slot );
 
 
-- 
2.43.0


From 8b55ca08807d985d852b0b468cd28608431853fd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:41:19 +0000
Subject: [PATCH 006/331] fix: SyncPt slot can be registered again after it was
 removed or reset

---
 src/lightspeed/mt/syncPt.cpp | 6 ++++++
 src/lightspeed/mt/syncPt.h   | 2 ++
 2 files changed, 8 insertions(+)

diff --git a/src/lightspeed/mt/syncPt.cpp b/src/lightspeed/mt/syncPt.cpp
index c79186c..2c5bfc9 100644
--- a/src/lightspeed/mt/syncPt.cpp
+++ b/src/lightspeed/mt/syncPt.cpp
@@ -50,6 +50,9 @@ bool SyncPt::remove(Slot& slot) {
 		}else if (q == &slot) {
 			//set queue-s new head
 			curQueue = slot.next;
+			//slot can be used again
+			slot.next = 0;
+			slot.charged = false;
 			//slot removed
 			return true;
 		} else {
@@ -61,6 +64,9 @@ bool SyncPt::remove(Slot& slot) {
 			if (q->next == &slot) {
 				//remove slot if found
 				q->next = slot.next;
+				//slot can be used again
+				slot.next = 0;
+				slot.charged = false;
 				//removed
 				suc = true;
 			} else {
diff --git a/src/lightspeed/mt/syncPt.h b/src/lightspeed/mt/syncPt.h
index 60bf097..a2afb5d 100644
--- a/src/lightspeed/mt/syncPt.h
+++ b/src/lightspeed/mt/syncPt.h
@@ -113,6 +113,8 @@ namespace LightSpeed {
 			  touch internal state, because it can be accessed form another thread */
 			bool reset() {
 				if (isSignaled()) {
+					next = 0;
+					charged = false;
 					Notifier::reset();
 					return true;
 				} else {
-- 
2.43.0


From f77c0453c6139b7e9b6cda8df5581e5329df596c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:48:35 +0000
Subject: [PATCH 007/331] fix: Mutex::lockAsync stores the thread which gets
 the ownership

---
 src/lightspeed/mt/mutex.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/lightspeed/mt/mutex.cpp b/src/lightspeed/mt/mutex.cpp
index 6016ec9..2637a83 100644
--- a/src/lightspeed/mt/mutex.cpp
+++ b/src/lightspeed/mt/mutex.cpp
@@ -110,7 +110,7 @@ bool Mutex::lockAsync( WaitPt::Slot &slot )
 			return true;
 		}
 		//set thread id - new owner
-		slot.threadId = me;
+		slot.value.threadId = me;
 		//register slot
 		waitPt.add(slot);
 		//test again for ownership - may be alread released
-- 
2.43.0


From 0061216c7aafccfdc863a03069c7146e18d4ec4a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:49:53 +0000
Subject: [PATCH 008/331] fix: Mutex::tryLock initializes the recursion counter

---
 src/lightspeed/mt/mutex.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/lightspeed/mt/mutex.cpp b/src/lightspeed/mt/mutex.cpp
index 2637a83..cae08c2 100644
--- a/src/lightspeed/mt/mutex.cpp
+++ b/src/lightspeed/mt/mutex.cpp
@@ -64,8 +64,8 @@ bool Mutex::tryLock()
 	atomic me = ThreadId::current().asAtomic();
 	if (lockCompareExchange(owner,0,me) != 0)
 		return false;
-	else
-		return true;
+	recursion = 1;
+	return true;
 }
 
 void Mutex::unlock()
-- 
2.43.0


From e20d0dc8f8b976f0c51613b2f43a246d5e447ba2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:50:06 +0000
Subject: [PATCH 009/331] fix: MicroLock::lock doesn't enqueue itself twice
 when the lock is granted immediately

---
 src/lightspeed/mt/microlock.h | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/src/lightspeed/mt/microlock.h b/src/lightspeed/mt/microlock.h
index 0e2d01c..f3afbb9 100644
--- a/src/lightspeed/mt/microlock.h
+++ b/src/lightspeed/mt/microlock.h
@@ -57,12 +57,14 @@ namespace LightSpeed {
 
 			//try to lock the lock, but if it is already locked, k will not NULL
 			MicroLockData *k = lockCompareExchangePtr<MicroLockData>(&lk.owner,0,this);
+			//expected value of the pointer (once enqueued, "next" can be changed by the current owner)
+			MicroLockData *expected = 0;
 			//test result of k
-			while (k != next) {
+			while (k != expected) {
 				//update next to reflect reality
-				next = k;
+				next = expected = k;
 				//accept reality and try to enqueue self to the queue
-				k = lockCompareExchangePtr<MicroLockData>(&lk.owner,next,this);
+				k = lockCompareExchangePtr<MicroLockData>(&lk.owner,expected,this);
 			}
 			//wait until next is equal zero
 			while (next != 0) {
-- 
2.43.0


From fb51b664dd3b9c55525715f902a93d58d56304f2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:50:19 +0000
Subject: [PATCH 010/331] fix: MicroLock::unlock keeps the sleeper of the new
 owner alive while notifying it

---
 src/lightspeed/mt/microlock.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/lightspeed/mt/microlock.h b/src/lightspeed/mt/microlock.h
index f3afbb9..8703572 100644
--- a/src/lightspeed/mt/microlock.h
+++ b/src/lightspeed/mt/microlock.h
@@ -84,7 +84,7 @@ namespace LightSpeed {
 					//find next object in the queue
 					while (k->next != this) k = k -> next;
 					//retrieve notifier - because object on k can vanish after the next command
-					ISleepingObject *n = k->owner;
+					RefCntPtr<IThreadSleeper> n = k->owner;
 					//give ownership to k (see lock() - while (next != 0) )
 					k->next = 0;
 					//notify the thread if it is necessary
-- 
2.43.0


From 7677ab0398b0504fe9be03b1ce79de124c17f188 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:50:26 +0000
Subject: [PATCH 011/331] fix: Semaphore::lock with timeout removes its slot
 from the queue when it fails

---
 src/lightspeed/mt/semaphore.h | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/lightspeed/mt/semaphore.h b/src/lightspeed/mt/semaphore.h
index 634e98d..b7a4c01 100644
--- a/src/lightspeed/mt/semaphore.h
+++ b/src/lightspeed/mt/semaphore.h
@@ -35,7 +35,7 @@ namespace LightSpeed {
 		bool lock(SyncPt::WaitInterruptMode md) {
 			Slot slot;
 			lockAsync(slot);
-			if (!SyncPt::wait(slot,nil,md)) {
+			if (!SyncPt::wait(slot,nil,md) && SyncPt::remove(slot)) {
 				return false;
 			} else {
 				return true;
@@ -46,7 +46,7 @@ namespace LightSpeed {
 		bool lock(const Timeout &tm, SyncPt::WaitInterruptMode md) {
 			Slot slot;
 			lockAsync(slot);
-			if (!SyncPt::wait(slot,tm,md)) {
+			if (!SyncPt::wait(slot,tm,md) && SyncPt::remove(slot)) {
 				return false;
 			} else {
 				return true;
@@ -57,7 +57,7 @@ namespace LightSpeed {
 		bool lock(const Timeout &tm) {
 			Slot slot;
 			lockAsync(slot);
-			if (!SyncPt::wait(slot,tm)) {
+			if (!SyncPt::wait(slot,tm) && SyncPt::remove(slot)) {
 				return false;
 			} else {
 				return true;
-- 
2.43.0


From 6a930aafde4f7394b7edcd8ab6a659223a543bde Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:50:34 +0000
Subject: [PATCH 012/331] fix: Semaphore::cancelLockAsync returns the unit of a
 slot granted without waiting

---
 src/lightspeed/mt/semaphore.h | 7 +++----
 1 file changed, 3 insertions(+), 4 deletions(-)

diff --git a/src/lightspeed/mt/semaphore.h b/src/lightspeed/mt/semaphore.h
index b7a4c01..d2b5cda 100644
--- a/src/lightspeed/mt/semaphore.h
+++ b/src/lightspeed/mt/semaphore.h
@@ -97,10 +97,9 @@ namespace LightSpeed {
 		}
 		void cancelLockAsync(Slot &slot) {
 			//remove slot from the syncpt
-			if (!SyncPt::remove(slot)) {
-				//if slot is signaled, unlock semaphore
-				if (slot) unlock();
-			}
+			SyncPt::remove(slot);
+			//if slot is signaled, unlock semaphore
+			if (slot) unlock();
 		}
 
 		///Initialize semaphore using another semaphore
-- 
2.43.0


From fd2186dfcc1118cc2b7be5a8492a75a5e2b6f8fe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:50:42 +0000
Subject: [PATCH 013/331] fix: LevelLock can be locked again after its queue
 has been emptied

---
 src/lightspeed/mt/rwlock.h | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/lightspeed/mt/rwlock.h b/src/lightspeed/mt/rwlock.h
index e180c50..7a21092 100644
--- a/src/lightspeed/mt/rwlock.h
+++ b/src/lightspeed/mt/rwlock.h
@@ -173,6 +173,7 @@ public:
 		curLevel = s->level;
 		//remove from the queue
 		qtop = qtop->next;
+		if (qtop == 0) qbot = 0;
 		//set use count 
 		useCount++;
 		//mark slot signaled
-- 
2.43.0


From a5e81e465b0c8dfb46e5a4b162cd93c8a2c8d2b1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:51:21 +0000
Subject: [PATCH 014/331] fix: LevelLock doesn't access the slot and the thread
 after the slot is signaled

---
 src/lightspeed/mt/rwlock.h | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/src/lightspeed/mt/rwlock.h b/src/lightspeed/mt/rwlock.h
index 7a21092..01423e0 100644
--- a/src/lightspeed/mt/rwlock.h
+++ b/src/lightspeed/mt/rwlock.h
@@ -36,10 +36,13 @@ public:
 	class Slot {
 	public:
 		Slot(ISleepingObject *n, atomicValue level):next(0),notify(n),level(level),signaled(false) {}
+		///slot bound with a thread keeps its sleeper
+		Slot(const RefCntPtr<IThreadSleeper> &n, atomicValue level):next(0),notify(n.get()),sleeper(n),level(level),signaled(false) {}
 
 	private:
 		Slot *next;
 		ISleepingObject *notify;
+		RefCntPtr<IThreadSleeper> sleeper;
 		atomicValue level;
 	public:
 		bool signaled;
@@ -176,10 +179,13 @@ public:
 		if (qtop == 0) qbot = 0;
 		//set use count 
 		useCount++;
+		//keep the target, slot (and its thread too) can disappear once it is signaled
+		RefCntPtr<IThreadSleeper> sleeper = s->sleeper;
+		ISleepingObject *notify = s->notify;
 		//mark slot signaled
 		s->signaled = true;
 		//wakeup thread
-		s->notify->wakeUp();
+		notify->wakeUp();
 	}
 
 	atomicValue getLevel() const {
-- 
2.43.0


From c56ab94c213cdfbd7c73378d566959a63c3dd078 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:51:28 +0000
Subject: [PATCH 015/331] fix: LevelLock::cancelAsync keeps the queue
 consistent and releases slots blocked by the cancelled one

---
 src/lightspeed/mt/rwlock.h | 15 ++++++++++++---
 1 file changed, 12 insertions(+), 3 deletions(-)

diff --git a/src/lightspeed/mt/rwlock.h b/src/lightspeed/mt/rwlock.h
index 01423e0..fa994ad 100644
--- a/src/lightspeed/mt/rwlock.h
+++ b/src/lightspeed/mt/rwlock.h
@@ -119,10 +119,19 @@ public:
 
 			if (!s.signaled) {
 				Slot *q = qtop;
-				if (q == &s) qtop = q->next;
-				else {
+				if (q == &s) {
+					qtop = q->next;
+					if (qtop == 0) qbot = 0;
+				} else {
 					while (q && q->next != &s) q = q ->next;
-					if (q->next == &s) q->next =  s.next;
+					if (q != 0) {
+						q->next = s.next;
+						if (qbot == &s) qbot = q;
+					}
+				}
+				//removed slot doesn't block the following ones anymore
+				while (qtop && useCount != 0 && qtop->level == curLevel) {
+					releaseTopThread();
 				}
 			}
 		}
-- 
2.43.0


From cf7d3d387b35b5f2195669e95c8e23091cd90a57 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:51:36 +0000
Subject: [PATCH 016/331] fix: copied LevelLock is initialized as unlocked

---
 src/lightspeed/mt/rwlock.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/lightspeed/mt/rwlock.h b/src/lightspeed/mt/rwlock.h
index fa994ad..7f6b86a 100644
--- a/src/lightspeed/mt/rwlock.h
+++ b/src/lightspeed/mt/rwlock.h
@@ -53,7 +53,7 @@ public:
 
 
 	LevelLock():qtop(0),qbot(0),curLevel(0),useCount(0) {}
-	LevelLock(const LevelLock &) {}
+	LevelLock(const LevelLock &):qtop(0),qbot(0),curLevel(0),useCount(0) {}
 
 	///locks for level
 	/***
-- 
2.43.0


From ac6d3e5fd6fd71a02cabe486dee5110c84f723ae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:51:48 +0000
Subject: [PATCH 017/331] fix: SyncPtT::notifyAll can be compiled

---
 src/lightspeed/mt/syncPt.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/lightspeed/mt/syncPt.h b/src/lightspeed/mt/syncPt.h
index a2afb5d..a2f9861 100644
--- a/src/lightspeed/mt/syncPt.h
+++ b/src/lightspeed/mt/syncPt.h
@@ -375,7 +375,7 @@ namespace LightSpeed {
 		bool succ = false;
 		Slot *p = static_cast<Slot *>(popSlot_lk());
 		while (p) {
-			notiftSlot_lk(p,val);
+			notifySlot_lk(p,val);
 			succ = true;
 			p = static_cast<Slot *>(popSlot_lk());
 		}
-- 
2.43.0


From b652c3caa0f031f021cc64e488ec2da39d875957 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:09:22 +0000
Subject: [PATCH 018/331] fix: Thread::isFinishing reports the state of the
 thread, not of the caller

---
 src/lightspeed/mt/linux/thread.cpp   | 2 +-
 src/lightspeed/mt/windows/thread.cpp | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/lightspeed/mt/linux/thread.cpp b/src/lightspeed/mt/linux/thread.cpp
index db0a0d9..c33195d 100644
--- a/src/lightspeed/mt/linux/thread.cpp
+++ b/src/lightspeed/mt/linux/thread.cpp
@@ -438,7 +438,7 @@ bool Thread::canFinish() throw() {
 
 ///true if thread is finishing already
 bool Thread::isFinishing() const throw() {
-	return (current().flags & flagFinish) != 0;
+	return (flags & flagFinish) != 0;
 }
 
 ///retrieves reference to TLS table
diff --git a/src/lightspeed/mt/windows/thread.cpp b/src/lightspeed/mt/windows/thread.cpp
index 1376674..e083dba 100644
--- a/src/lightspeed/mt/windows/thread.cpp
+++ b/src/lightspeed/mt/windows/thread.cpp
@@ -357,7 +357,7 @@ bool Thread::canFinish() throw() {
 
 ///true if thread is finishing already
 bool Thread::isFinishing() const throw() {
-	return (current().flags & flagFinish) != 0;
+	return (flags & flagFinish) != 0;
 }
 
 ///retrieves reference to TLS table
-- 
2.43.0


From 062ec95682623a0c6900bd2e89a34296618a1125 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:09:30 +0000
Subject: [PATCH 019/331] fix: Thread::sleep returns the reason when it was
 interrupted

---
 src/lightspeed/mt/linux/thread.cpp   | 2 +-
 src/lightspeed/mt/windows/thread.cpp | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/lightspeed/mt/linux/thread.cpp b/src/lightspeed/mt/linux/thread.cpp
index c33195d..7f1db0a 100644
--- a/src/lightspeed/mt/linux/thread.cpp
+++ b/src/lightspeed/mt/linux/thread.cpp
@@ -406,7 +406,7 @@ Thread *Thread::currentPtr() {
 
 bool Thread::impSleep(const Timeout &tm, natural &reason) {
 	bool r = sleeper->sleep(tm);
-	if (r) reason=sleeper->getReason();
+	if (!r) reason=sleeper->getReason();
 	return r;
 }
 
diff --git a/src/lightspeed/mt/windows/thread.cpp b/src/lightspeed/mt/windows/thread.cpp
index e083dba..d53d9ea 100644
--- a/src/lightspeed/mt/windows/thread.cpp
+++ b/src/lightspeed/mt/windows/thread.cpp
@@ -327,7 +327,7 @@ Thread *Thread::currentPtr() {
 
 bool Thread::impSleep(const Timeout &tm, natural &reason) {
 	bool r = sleeper->sleep(tm);
-	if (r) reason=sleeper->getReason();
+	if (!r) reason=sleeper->getReason();
 	return r;
 }
 
-- 
2.43.0


From a608d3ac372129136d47fc632c0aea92f24e4af8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:09:39 +0000
Subject: [PATCH 020/331] fix: Thread::deepSleep keeps the interruption flag

---
 src/lightspeed/mt/linux/thread.cpp   | 6 +++++-
 src/lightspeed/mt/windows/thread.cpp | 6 +++++-
 2 files changed, 10 insertions(+), 2 deletions(-)

diff --git a/src/lightspeed/mt/linux/thread.cpp b/src/lightspeed/mt/linux/thread.cpp
index 7f1db0a..27df31f 100644
--- a/src/lightspeed/mt/linux/thread.cpp
+++ b/src/lightspeed/mt/linux/thread.cpp
@@ -411,7 +411,11 @@ bool Thread::impSleep(const Timeout &tm, natural &reason) {
 }
 
 void Thread::deepSleep(const Timeout &timeout) {
-	while (!sleep(timeout)) {}
+	natural reason = 0;
+	bool interrupted = false;
+	while (!sleep(timeout,reason)) interrupted = true;
+	//restore the interruption for the next sleep
+	if (interrupted) current().wakeUp(reason);
 }
 
 void Thread::wakeUp(natural reason) throw() {
diff --git a/src/lightspeed/mt/windows/thread.cpp b/src/lightspeed/mt/windows/thread.cpp
index d53d9ea..36ddc01 100644
--- a/src/lightspeed/mt/windows/thread.cpp
+++ b/src/lightspeed/mt/windows/thread.cpp
@@ -332,7 +332,11 @@ bool Thread::impSleep(const Timeout &tm, natural &reason) {
 }
 
 void Thread::deepSleep(const Timeout &timeout) {
-	while (!sleep(timeout)) {}
+	natural reason = 0;
+	bool interrupted = false;
+	while (!sleep(timeout,reason)) interrupted = true;
+	//restore the interruption for the next sleep
+	if (interrupted) current().wakeUp(reason);
 }
 
 void Thread::wakeUp(natural reason) throw() {
-- 
2.43.0


From 21bea6263d08798f32c4e5ef08c2028f42c40c15 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:10:20 +0000
Subject: [PATCH 021/331] fix: thread left through an exception is finished
 only once

---
 src/lightspeed/mt/linux/thread.cpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/lightspeed/mt/linux/thread.cpp b/src/lightspeed/mt/linux/thread.cpp
index 27df31f..ec7d220 100644
--- a/src/lightspeed/mt/linux/thread.cpp
+++ b/src/lightspeed/mt/linux/thread.cpp
@@ -93,10 +93,12 @@ public:
 				//perform finish all
 				//if exception thrown, when continue in destructor
 				ctx->finishThread();
+				//finished - the owner can be already destroyed
+				ctx = 0;
 			}
 			~Finisher(){
 				//ensure everithing is finished
-				ctx->finishThread();
+				if (ctx) ctx->finishThread();
 			}
 		ThreadContext *ctx;
 		};
-- 
2.43.0


From 664fbfb4d80205f41a86589ae788d4fe88c0a287 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:10:29 +0000
Subject: [PATCH 022/331] fix: Thread which failed to start is not running

---
 src/lightspeed/mt/linux/thread.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/lightspeed/mt/linux/thread.cpp b/src/lightspeed/mt/linux/thread.cpp
index ec7d220..394243e 100644
--- a/src/lightspeed/mt/linux/thread.cpp
+++ b/src/lightspeed/mt/linux/thread.cpp
@@ -373,6 +373,8 @@ void Thread::start(const IThreadFunction &fn, natural stackSize) {
 		pthread_attr_destroy(&attr);
 		//thread creation failed. We must remove fake context
 		threadContext = 0;
+		//thread is not running
+		joinObject.open();
 		//continue exception
 		throw;
 	}
-- 
2.43.0


From 40a657bdde90de2020df52cfb77991786182325d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:10:56 +0000
Subject: [PATCH 023/331] fix: exception in a thread init hook unblocks the
 starting thread and informs the initialized hooks

---
 src/lightspeed/mt/linux/thread.cpp | 8 +++++++-
 src/lightspeed/mt/threadHook.cpp   | 9 +++++----
 2 files changed, 12 insertions(+), 5 deletions(-)

diff --git a/src/lightspeed/mt/linux/thread.cpp b/src/lightspeed/mt/linux/thread.cpp
index 394243e..19f15a1 100644
--- a/src/lightspeed/mt/linux/thread.cpp
+++ b/src/lightspeed/mt/linux/thread.cpp
@@ -210,7 +210,13 @@ void *ThreadContext::bootstrap(void * data) {
 
 		//start thread
 		try {
-			AbstractThreadHook::callOnThreadInitHooks(*ctx->owner);
+			try {
+				AbstractThreadHook::callOnThreadInitHooks(*ctx->owner);
+			} catch (...) {
+				//unblock caller - thread will not be started
+				bs->unblockCaller.wakeUp();
+				throw;
+			}
 
 			ctx->owner->getJoinObject().close();
 			//unblock caller - bootstrap data vanished
diff --git a/src/lightspeed/mt/threadHook.cpp b/src/lightspeed/mt/threadHook.cpp
index 87060b7..ba13c42 100644
--- a/src/lightspeed/mt/threadHook.cpp
+++ b/src/lightspeed/mt/threadHook.cpp
@@ -53,14 +53,15 @@ void AbstractThreadHook::uninstall() {
 
 static void callInitHooks(AbstractThreadHook *from, Thread &thread) {
 	if (from) {
+		callInitHooks(from->getNextHook(), thread);
 		try {
-			callInitHooks(from->getNextHook(), thread);
+			from->onThreadInit(thread);
 		} catch (...) {
-			from->onThreadException(thread);
+			//inform hooks which have been already initialized
+			for (AbstractThreadHook *p = from->getNextHook(); p; p = p->getNextHook())
+				p->onThreadException(thread);
 			throw;
-
 		}
-		from->onThreadInit(thread);
 	}
 }
 
-- 
2.43.0


From ad5bfb9c3601e233801218b90b1dd6411acb8021 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:11:04 +0000
Subject: [PATCH 024/331] fix: thread object destroyed by its own thread is
 passed to the exit hooks

---
 src/lightspeed/mt/linux/thread.cpp | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/lightspeed/mt/linux/thread.cpp b/src/lightspeed/mt/linux/thread.cpp
index 19f15a1..e1be30f 100644
--- a/src/lightspeed/mt/linux/thread.cpp
+++ b/src/lightspeed/mt/linux/thread.cpp
@@ -227,11 +227,12 @@ void *ThreadContext::bootstrap(void * data) {
 				fn.deliver();
 
 			} catch (...) {
-				AbstractThreadHook::callOnThreadExceptionHooks(*ctx->owner);
+				if (ctx->owner) AbstractThreadHook::callOnThreadExceptionHooks(*ctx->owner);
 				throw;
 			}
 
-			AbstractThreadHook::callOnThreadExitHooks(*ctx->owner);
+			//thread object can be already destroyed by the function
+			if (ctx->owner) AbstractThreadHook::callOnThreadExitHooks(*ctx->owner);
 
 			ctx->finishThread();
 
@@ -277,6 +278,7 @@ void ThreadContext::handleCleanup()
 
 	*/
 	if (owner) {
+		AbstractThreadHook::callOnThreadExitHooks(*owner);
 		finishThread();
 		owner = 0;
 	}
-- 
2.43.0


From 315b63aa151297dbb3cd1cbbeeb560d38f447978 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:11:13 +0000
Subject: [PATCH 025/331] fix: thread object attached to a kept context can
 sleep and knows its id

---
 src/lightspeed/mt/linux/thread.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/lightspeed/mt/linux/thread.cpp b/src/lightspeed/mt/linux/thread.cpp
index e1be30f..9479463 100644
--- a/src/lightspeed/mt/linux/thread.cpp
+++ b/src/lightspeed/mt/linux/thread.cpp
@@ -707,6 +707,8 @@ bool Thread::attach( bool keepContext, IRuntimeAlloc *contextAlloc /*= 0*/ )
 		ctx->owner = this;
 		threadContext = ctx;
 		flags = flagAttached;
+		if (sleeper == nil) sleeper = new ThreadSleeper;
+		id = pthread_self();
 		joinObject.close();
 		AbstractThreadHook::callOnThreadInitHooks(*this);
 		return true;
-- 
2.43.0


From 430cbca330b3867d822e432ab27ab3842360a4d1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:14:15 +0000
Subject: [PATCH 026/331] fix: WeakRef keeps the sleeper of the thread which
 waits for unlocking of the reference

---
 src/lightspeed/base/memory/weakref.h | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/lightspeed/base/memory/weakref.h b/src/lightspeed/base/memory/weakref.h
index e29bf3b..064454d 100644
--- a/src/lightspeed/base/memory/weakref.h
+++ b/src/lightspeed/base/memory/weakref.h
@@ -70,12 +70,12 @@ class WeakRef {
 		 */
 		atomic lockCount;
 		///during "reseting" phase, this is set to object which must be notified about unlocking the reference
-		ISleepingObject *clearOutNotify;
+		/** (the sleeper is kept along with the reference, because the target thread can finish before it is notified) */
+		RefCntPtr<IThreadSleeper> clearOutNotify;
 
 		Pointer(T *ptr)
 			:ptr(ptr)
-			,lockCount(initedFlag)
-			,clearOutNotify(0) {}
+			,lockCount(initedFlag) {}
 	};
 
 	///Contains null pointer which is marked as left
-- 
2.43.0


From cdcd701e583e6c010fef3186fb0059f6f9e637b0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:14:21 +0000
Subject: [PATCH 027/331] fix: assignment of WeakRefPtr locks the new reference
 and unlocks the old one

---
 src/lightspeed/base/memory/weakref.h | 14 ++++++++++++++
 1 file changed, 14 insertions(+)

diff --git a/src/lightspeed/base/memory/weakref.h b/src/lightspeed/base/memory/weakref.h
index 064454d..fb1704a 100644
--- a/src/lightspeed/base/memory/weakref.h
+++ b/src/lightspeed/base/memory/weakref.h
@@ -293,6 +293,20 @@ public:
 	WeakRefPtr(const WeakRefPtr &other)
 		:Pointer<T>(other.me.lockInternal()),me(other.me) {}
 
+	WeakRefPtr &operator=(const WeakRefPtr &other) {
+		if (this != &other) {
+			//lock the new reference first, then unlock the old one (in destructor of the copy)
+			WeakRefPtr copy(other);
+			WeakRef<T> save(me);
+			T *p = this->ptr;
+			me = copy.me;
+			this->ptr = copy.ptr;
+			copy.me = save;
+			copy.ptr = p;
+		}
+		return *this;
+	}
+
 	~WeakRefPtr() {me.unlockInternal();}
 protected:
 	WeakRef<T> me;
-- 
2.43.0


From 4711f24e4f5c311efdb126d3c6b90553e81839c5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:18:09 +0000
Subject: [PATCH 028/331] fix: SharedStaticPtr::operator= can be compiled

---
 src/lightspeed/base/memory/sharedPtr.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/lightspeed/base/memory/sharedPtr.h b/src/lightspeed/base/memory/sharedPtr.h
index 8a6bc1b..64f5495 100644
--- a/src/lightspeed/base/memory/sharedPtr.h
+++ b/src/lightspeed/base/memory/sharedPtr.h
@@ -123,7 +123,7 @@ namespace LightSpeed {
     	}
 
     	SharedStaticPtr &operator=(T *other) {
-    		redirect(other);
+    		this->redirect(other);
     		return *this;
     	}
 
-- 
2.43.0


From ff8fa3ad9f86098d3e6977ad7514d2f360c65527 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:18:24 +0000
Subject: [PATCH 029/331] fix: SharedPtr can be assigned from a pointer stored
 in the released object

---
 src/lightspeed/base/memory/sharedPtr.h | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/lightspeed/base/memory/sharedPtr.h b/src/lightspeed/base/memory/sharedPtr.h
index 64f5495..ba6728e 100644
--- a/src/lightspeed/base/memory/sharedPtr.h
+++ b/src/lightspeed/base/memory/sharedPtr.h
@@ -66,7 +66,9 @@ namespace LightSpeed {
         		return *this;
         	} else {
         		//in case two different pointers, perform standard assignment
-        		return SharedResource::makeAssign(other);
+        		//keep the source - it can be owned by the object which is being released
+        		SharedPtr copy(other);
+        		return SharedResource::makeAssign(copy);
         	}
         }
 
-- 
2.43.0


From 023b202ec46278526e6eb1aa65f2329f549a5aad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:19:12 +0000
Subject: [PATCH 030/331] fix: RefCntPtr can be assigned from itself and from a
 pointer stored in the released object

---
 src/lightspeed/base/memory/refCntPtr.h | 13 +++++++++----
 1 file changed, 9 insertions(+), 4 deletions(-)

diff --git a/src/lightspeed/base/memory/refCntPtr.h b/src/lightspeed/base/memory/refCntPtr.h
index 15b7cd7..0c4462d 100644
--- a/src/lightspeed/base/memory/refCntPtr.h
+++ b/src/lightspeed/base/memory/refCntPtr.h
@@ -148,10 +148,13 @@ namespace LightSpeed {
          * @return this         
          */
         RefCntPtr &operator=(const RefCntPtr &other) {
-        	Alloc::operator=(other);
+        	//other can be this pointer or it can be owned by the object which is being released
+        	T *p = other.ptr;
+        	Alloc alloc((const Alloc &)other);
         	other.manualAddRef();
         	releasePtr();
-        	this->ptr = other.ptr;
+        	Alloc::operator=(alloc);
+        	this->ptr = p;
             return *this;
         }
 
@@ -164,9 +167,11 @@ namespace LightSpeed {
 		}
 		RefCntPtr &operator=(RefCntPtr &&other) {
 			if (this != &other) {	
-				releasePtr();
-				this->ptr = other.ptr;
+				//other can be owned by the object which is being released
+				T *p = other.ptr;
 				other.ptr = 0;
+				releasePtr();
+				this->ptr = p;
 			}
 			return *this;
 		}
-- 
2.43.0


From 1a51a0244de4174360ecd493de89e440b17939a9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:19:30 +0000
Subject: [PATCH 031/331] fix: reference counter is not copied with the object

---
 src/lightspeed/base/memory/refCntPtr.h | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/lightspeed/base/memory/refCntPtr.h b/src/lightspeed/base/memory/refCntPtr.h
index 0c4462d..f40ca94 100644
--- a/src/lightspeed/base/memory/refCntPtr.h
+++ b/src/lightspeed/base/memory/refCntPtr.h
@@ -18,6 +18,10 @@ namespace LightSpeed {
 	public:
 
 		RefCntObj():counter(0) {}
+		///copy of the object has its own counter
+		RefCntObj(const RefCntObj &):counter(0) {}
+		///assignment doesn't change count of references
+		RefCntObj &operator=(const RefCntObj &) {return *this;}
 
 		///adds reference to counter
 		void addRef() const  {
-- 
2.43.0


From 652cbb5549b4ab3c68901467963edefbaf980a42 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:19:49 +0000
Subject: [PATCH 032/331] fix: RefCntPtr::attach and create release the
 original object instead of destroying it

---
 src/lightspeed/base/memory/refCntPtr.h | 15 +++++++++++----
 1 file changed, 11 insertions(+), 4 deletions(-)

diff --git a/src/lightspeed/base/memory/refCntPtr.h b/src/lightspeed/base/memory/refCntPtr.h
index f40ca94..13bbd49 100644
--- a/src/lightspeed/base/memory/refCntPtr.h
+++ b/src/lightspeed/base/memory/refCntPtr.h
@@ -261,8 +261,9 @@ namespace LightSpeed {
 
 		///Attaches object to the pointer
 		void attach(T *ptr) {
-		    Super::attach(ptr);
-		    addRefPtr();
+		    if (ptr) ptr->addRef();
+		    releasePtr();
+		    this->ptr = ptr;
 		}
 
 		///Serializing support
@@ -278,12 +279,18 @@ namespace LightSpeed {
 		}
 
 		///Creates new instance using current factory
-		void create() {Super::create();addRefPtr();}
+		void create() {releasePtr();Super::create();addRefPtr();}
 		///Creates new instance using current factory
 		/**
 		 * @param x source instance
 		 */
-		void create(const T &x) {Super::create(x);addRefPtr();}
+		void create(const T &x) {
+			//(x can be the current object)
+			RefCntPtr keep(*this);
+			releasePtr();
+			Super::create(x);
+			addRefPtr();
+		}
 
 
 		void clear() {
-- 
2.43.0


From 7817e64de277ac033173b3a0f4fc803ad1353aba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:33:28 +0000
Subject: [PATCH 033/331] fix: AutoArray can add and insert its own items

---
 src/lightspeed/base/containers/autoArray.tcc | 18 ++++++++++++++----
 1 file changed, 14 insertions(+), 4 deletions(-)

diff --git a/src/lightspeed/base/containers/autoArray.tcc b/src/lightspeed/base/containers/autoArray.tcc
index abbf795..e716d8d 100644
--- a/src/lightspeed/base/containers/autoArray.tcc
+++ b/src/lightspeed/base/containers/autoArray.tcc
@@ -82,8 +82,14 @@ void AutoArrayT<T,Alloc>::reserve(natural items) {
 
 template<typename T, typename Alloc>
 void AutoArrayT<T,Alloc>::add(const T &item) {
-	addExtra(1);
-	new((void *)(allocBk.getBase()+usedSz)) T(item);
+	if (usedSz < allocBk.getSize()) {
+		new((void *)(allocBk.getBase()+usedSz)) T(item);
+	} else {
+		//item can be part of this array, make copy before the array is moved
+		T tmp(item);
+		addExtra(1);
+		new((void *)(allocBk.getBase()+usedSz)) T(tmp);
+	}
 	++usedSz;
 
 }
@@ -91,9 +97,11 @@ void AutoArrayT<T,Alloc>::add(const T &item) {
 
 template<typename T, typename Alloc>
 void AutoArrayT<T,Alloc>::add(const T &item, natural count) {
+	//item can be part of this array, make copy before the array is moved
+	T tmp(item);
 	addExtra(count);
 	for (natural i = 0; i < count; i++) {
-    	new((void *)(allocBk.getBase()+usedSz)) T(item);
+    	new((void *)(allocBk.getBase()+usedSz)) T(tmp);
     	++usedSz;
 	}
 }
@@ -125,8 +133,10 @@ void AutoArrayT<T,Alloc>::insert(natural at, const T &init, natural count) {
 		throwRangeException_FromTo<natural>(THISLOCATION,0,usedSz,at);
 	if (at == usedSz)
 		return add(init, count);
+	//init can be part of this array, make copy before the items are moved
+	T tmp(init);
 	WriteInsertIter writ(*this,at,count);
-	while (count--) writ.write(init);
+	while (count--) writ.write(tmp);
 }
 
 template<typename T, typename Alloc>
-- 
2.43.0


From e0d8b9abd28e812891ffb282e30cc3a9ca280b51 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:33:44 +0000
Subject: [PATCH 034/331] fix: AutoArray assigned to itself keeps its items

---
 src/lightspeed/base/containers/autoArray.tcc | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/lightspeed/base/containers/autoArray.tcc b/src/lightspeed/base/containers/autoArray.tcc
index e716d8d..5977589 100644
--- a/src/lightspeed/base/containers/autoArray.tcc
+++ b/src/lightspeed/base/containers/autoArray.tcc
@@ -236,6 +236,7 @@ AutoArrayT<T,Alloc>::AutoArrayT(const AutoArrayT &arr)
 
 template<typename T, typename Alloc>
 AutoArrayT<T,Alloc> &AutoArrayT<T,Alloc>::operator=(const AutoArrayT &arr) {
+    if (&arr == this) return *this;
     clear();
     natural sz = arr.length();
     if (sz > 0) {
-- 
2.43.0


From 3e00fbb6280bef569ffcaf0d2e68b02e9e156773 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:34:00 +0000
Subject: [PATCH 035/331] fix: AutoArray erase of all items from a position

---
 src/lightspeed/base/containers/autoArray.tcc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/lightspeed/base/containers/autoArray.tcc b/src/lightspeed/base/containers/autoArray.tcc
index 5977589..bf7a0c5 100644
--- a/src/lightspeed/base/containers/autoArray.tcc
+++ b/src/lightspeed/base/containers/autoArray.tcc
@@ -180,7 +180,7 @@ void AutoArrayT<T,Alloc>::erase(natural at, natural count) {
     if (at > usedSz) {
 		throwRangeException_FromTo<natural>(THISLOCATION,0,usedSz,at);
     }
-	if (at+count > usedSz) count = usedSz - at;
+	if (count > usedSz - at) count = usedSz - at;
 	if (count) {
 		destruct<T>(allocBk.getBase()+at,count);
 		unreserveAt(at,count);
-- 
2.43.0


From a82bac9b3f325ee1b0ffd138bd9d105855ac4106 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:34:15 +0000
Subject: [PATCH 036/331] fix: AutoArray insertion of an empty array and append
 of itself

---
 src/lightspeed/base/containers/autoArray.tcc | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/lightspeed/base/containers/autoArray.tcc b/src/lightspeed/base/containers/autoArray.tcc
index bf7a0c5..c42561d 100644
--- a/src/lightspeed/base/containers/autoArray.tcc
+++ b/src/lightspeed/base/containers/autoArray.tcc
@@ -203,6 +203,7 @@ template<typename T, typename Alloc>
 void AutoArrayT<T,Alloc>::reserveAt(natural pos, natural count) {
 
 	//add space for new items
+	if (count == 0) return;
 	this->addExtra(count);
 	try {
 		//move items at position
@@ -281,7 +282,7 @@ template<typename A, typename B>
 void AutoArrayT<T,Alloc>::append(const ArrayT<A,B> &arr) {
     addExtra(arr.length());
     typename ArrayT<A,B>::Iterator iter = arr.getFwIter();
-    while (iter.hasItems()) {
+    for (natural cnt = arr.length(); cnt > 0; cnt--) {
         add(iter.getNext());
     }
 }
-- 
2.43.0


From ccc1e062f76098df07df8876b69184c549c9d303 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:34:49 +0000
Subject: [PATCH 037/331] fix: Deque copies its items

---
 src/lightspeed/base/containers/deque.h   |  2 ++
 src/lightspeed/base/containers/deque.tcc | 20 ++++++++++++++++++++
 2 files changed, 22 insertions(+)

diff --git a/src/lightspeed/base/containers/deque.h b/src/lightspeed/base/containers/deque.h
index e25ad50..4ee19ff 100644
--- a/src/lightspeed/base/containers/deque.h
+++ b/src/lightspeed/base/containers/deque.h
@@ -28,6 +28,8 @@ public:
 
 	Deque();
 	Deque(const Alloc &alloc);
+	Deque(const Deque &other);
+	Deque &operator=(const Deque &other);
 	~Deque();
 
 	bool empty() const;
diff --git a/src/lightspeed/base/containers/deque.tcc b/src/lightspeed/base/containers/deque.tcc
index 2b56a32..7a3c44e 100644
--- a/src/lightspeed/base/containers/deque.tcc
+++ b/src/lightspeed/base/containers/deque.tcc
@@ -31,6 +31,26 @@ namespace LightSpeed {
 
 	}
 
+	template<typename T, typename Alloc /*= StdAlloc*/>
+	Deque<T, Alloc>::Deque(const Deque &other)
+		:Super(other), memBlock(other.memBlock,0), head(0), tail(0)
+	{
+		natural cnt = other.length();
+		reserve(cnt);
+		for (natural i = 0; i < cnt; i++) pushFront(other.at(i));
+	}
+
+	template<typename T, typename Alloc /*= StdAlloc*/>
+	Deque<T, Alloc> &Deque<T, Alloc>::operator=(const Deque &other)
+	{
+		if (this != &other) {
+			clear();
+			natural cnt = other.length();
+			for (natural i = 0; i < cnt; i++) pushFront(other.at(i));
+		}
+		return *this;
+	}
+
 
 	template<typename T, typename Alloc /*= StdAlloc*/>
 	typename Deque<T, Alloc>::Ref Deque<T, Alloc>::set(natural index, ConstRef val)
-- 
2.43.0


From 019e289c9e35166b32ced82eb9d93f7206a2ff68 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:34:58 +0000
Subject: [PATCH 038/331] fix: Deque can push its own item when it grows

---
 src/lightspeed/base/containers/deque.tcc | 16 ++++++++++++++--
 1 file changed, 14 insertions(+), 2 deletions(-)

diff --git a/src/lightspeed/base/containers/deque.tcc b/src/lightspeed/base/containers/deque.tcc
index 7a3c44e..bcba61b 100644
--- a/src/lightspeed/base/containers/deque.tcc
+++ b/src/lightspeed/base/containers/deque.tcc
@@ -178,13 +178,25 @@ namespace LightSpeed {
 	template<typename T, typename Alloc /*= StdAlloc*/>
 	void Deque<T, Alloc>::pushFront(ConstRef val)
 	{
-		pushFront(Constructor1<T,T>(val));
+		if (isFull()) {
+			//val can be part of this container, make copy before it is moved
+			T tmp(val);
+			pushFront(Constructor1<T,T>(tmp));
+		} else {
+			pushFront(Constructor1<T,T>(val));
+		}
 	}
 
 	template<typename T, typename Alloc /*= StdAlloc*/>
 	void Deque<T, Alloc>::pushBack(ConstRef val)
 	{
-		pushBack(Constructor1<T,T>(val));
+		if (isFull()) {
+			//val can be part of this container, make copy before it is moved
+			T tmp(val);
+			pushBack(Constructor1<T,T>(tmp));
+		} else {
+			pushBack(Constructor1<T,T>(val));
+		}
 	}
 
 	template<typename T, typename Alloc /*= StdAlloc*/>
-- 
2.43.0


From edbc48edb5f38d73e7f26bb30cfb3f890dd27ff3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:35:08 +0000
Subject: [PATCH 039/331] fix: copy of LinkedList keeps the order

---
 src/lightspeed/base/containers/linkedList.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/lightspeed/base/containers/linkedList.h b/src/lightspeed/base/containers/linkedList.h
index 1d405ac..e991a82 100644
--- a/src/lightspeed/base/containers/linkedList.h
+++ b/src/lightspeed/base/containers/linkedList.h
@@ -107,7 +107,7 @@ namespace LightSpeed {
 		 */
 		LinkedList(const LinkedList &other):first(0),last(0),fact(other.fact) {
 			for (Iterator i = other.getFwIter();i.hasItems();)
-				insertFirst(i.getNext());
+				add(i.getNext());
 		}
 
 		LinkedList(MoveConstruct, LinkedList &other)
-- 
2.43.0


From 85752ab303883c6415bfe77d7827bddfbb2bb369 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:35:19 +0000
Subject: [PATCH 040/331] fix: LinkedList::getLast on constant list

---
 src/lightspeed/base/containers/linkedList.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/lightspeed/base/containers/linkedList.h b/src/lightspeed/base/containers/linkedList.h
index e991a82..eb75610 100644
--- a/src/lightspeed/base/containers/linkedList.h
+++ b/src/lightspeed/base/containers/linkedList.h
@@ -277,7 +277,7 @@ namespace LightSpeed {
 
 		///Retrieves last item
 		const T &getLast() const {
-			if (last) return first->value;
+			if (last) return last->value;
 			else throwIteratorNoMoreItems(THISLOCATION,typeid(T));
 			throw;
 		}
-- 
2.43.0


From 1a0c0f26346d1aba6c9823f523cd86b126db8adf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:35:49 +0000
Subject: [PATCH 041/331] fix: LinkedList iterators of inserted items know the
 previous item

---
 src/lightspeed/base/containers/linkedList.h | 14 ++++++++------
 1 file changed, 8 insertions(+), 6 deletions(-)

diff --git a/src/lightspeed/base/containers/linkedList.h b/src/lightspeed/base/containers/linkedList.h
index eb75610..fef5fa3 100644
--- a/src/lightspeed/base/containers/linkedList.h
+++ b/src/lightspeed/base/containers/linkedList.h
@@ -198,7 +198,7 @@ namespace LightSpeed {
 			item->next = const_cast<ListItem *>(iter.cur->next);
 			const_cast<ListItem *>(iter.cur)->next = item;
 			if (iter.cur == last) last = item;
-			return Iterator(item);
+			return Iterator(item,iter.cur);
 		}
 
 		///Inserts new node as before the node pointed by the iterator
@@ -209,24 +209,26 @@ namespace LightSpeed {
 		 */
 		Iterator insertBefore(const Iterator &iter, ListItem *item) {
 			if (!iter.hasItems()) throwIteratorNoMoreItems(THISLOCATION,typeid(T));
-			if (iter.prev == 0) return insertFirst(item);
+			const ListItem *prev = iter.prev;
+			const_cast<Iterator &>(iter).prev = item;
+			if (prev == 0) return insertFirst(item);
 
 			item->next = const_cast<ListItem *>(iter.cur);
-			const_cast<ListItem *>(iter.prev)->next = item;
-			const_cast<Iterator &>(iter).prev = item;
-			return Iterator(item);
+			const_cast<ListItem *>(prev)->next = item;
+			return Iterator(item,prev);
 		}
 
 
 		///Appends node
 		Iterator add(ListItem *x) {
+			const ListItem *prev = last;
 			x->next = 0;
 			if (last == 0) first = last = x;
 			else {
 				last->next = x;
 				last = x;
 			}
-			return Iterator(x);
+			return Iterator(x,prev);
 		}
 
 		///Removes node and returs it
-- 
2.43.0


From 76ca343046bb0264bf145b0b7de5cd81358f91c9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:36:02 +0000
Subject: [PATCH 042/331] fix: LinkedList::remove of the last item

---
 src/lightspeed/base/containers/linkedList.h | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/lightspeed/base/containers/linkedList.h b/src/lightspeed/base/containers/linkedList.h
index fef5fa3..1eb069f 100644
--- a/src/lightspeed/base/containers/linkedList.h
+++ b/src/lightspeed/base/containers/linkedList.h
@@ -255,6 +255,7 @@ namespace LightSpeed {
 			ListItem *prv = const_cast<ListItem *>(iter.prev);
 			ListItem *ret = const_cast<ListItem *>(iter.cur);
 			prv->next = ret->next;
+			if (ret == last) last = prv;
 			ret->next = 0;
 			return ret;
 		}
-- 
2.43.0


From a979fcfb7460d4e435530698d3c6d481ec32ff8b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:36:15 +0000
Subject: [PATCH 043/331] fix: LinkedList self assignment, and swap with the
 allocator

---
 src/lightspeed/base/containers/linkedList.h | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/lightspeed/base/containers/linkedList.h b/src/lightspeed/base/containers/linkedList.h
index 1eb069f..e771db3 100644
--- a/src/lightspeed/base/containers/linkedList.h
+++ b/src/lightspeed/base/containers/linkedList.h
@@ -120,10 +120,12 @@ namespace LightSpeed {
 		void swap(LinkedList &other) {
 			std::swap(first,other.first);
 			std::swap(last,other.last);
+			std::swap(fact,other.fact);
 		}
 
 		///assignment operator
 		LinkedList &operator=(const LinkedList &other) {
+			if (this == &other) return *this;
 			clear();
 			for (Iterator i = other.getFwIter();i.hasItems();)
 				add(i.getNext());
-- 
2.43.0


From 5cff65c0527a21ffd12457717c5e7c99391ed72d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:39:58 +0000
Subject: [PATCH 044/331] fix: operators of Set and Map

---
 src/lightspeed/base/containers/map.h | 12 ++++++------
 src/lightspeed/base/containers/set.h | 21 +++++++++++----------
 2 files changed, 17 insertions(+), 16 deletions(-)

diff --git a/src/lightspeed/base/containers/map.h b/src/lightspeed/base/containers/map.h
index 122bbfc..2d4a2c6 100644
--- a/src/lightspeed/base/containers/map.h
+++ b/src/lightspeed/base/containers/map.h
@@ -349,19 +349,19 @@ namespace LightSpeed {
 		enum Exclude{exclude};
 		enum Include{include};
 
-		Map(const Map &other, const Map &other2, Exclude ) {
-			(*this)-=other;
+		Map(const Map &other, const Map &other2, Exclude ):tree(other.tree.getCompareOperator()) {
+			(*this)+=other;
 			(*this)-=other2;
 		}
-		Map(const Map &other, const Map &other2, Include ) {
+		Map(const Map &other, const Map &other2, Include ):tree(other.tree.getCompareOperator()) {
 			(*this)+=other;
 			(*this)+=other2;
 		}
-		Map(const Map &other, const KeyValue &other2, Exclude ) {
-			(*this)-=other;
+		Map(const Map &other, const KeyValue &other2, Exclude ):tree(other.tree.getCompareOperator()) {
+			(*this)+=other;
 			(*this)-=other2;
 		}
-		Map(const Map &other, const KeyValue &other2, Include ) {
+		Map(const Map &other, const KeyValue &other2, Include ):tree(other.tree.getCompareOperator()) {
 			(*this)+=other;
 			(*this)+=other2;
 		}
diff --git a/src/lightspeed/base/containers/set.h b/src/lightspeed/base/containers/set.h
index 067351b..b28c37f 100644
--- a/src/lightspeed/base/containers/set.h
+++ b/src/lightspeed/base/containers/set.h
@@ -22,6 +22,7 @@ namespace LightSpeed {
 		typedef typename Super::Iterator Iterator;
 
 		Set() {}
+		explicit Set(const Cmp &cmp):Super(cmp) {}
 		Set(const Cmp &cmp, SharedPtr<IRuntimeAlloc> factory):Super(cmp,factory) {}
 
 		Set operator+(const Set &other) const {
@@ -38,20 +39,20 @@ namespace LightSpeed {
 		}
 		Set &operator+=(const Set &other) {
 			for (typename Set::Iterator iter = other.getFwIter();iter.hasItems();)
-				insert(iter.getNext());
+				this->insert(iter.getNext());
 			return *this;
 		}
 		Set &operator+=(const T &item) {
-				insert(item);			
+				this->insert(item);			
 				return *this;
 		}
 		Set &operator-=(const Set &other) {
 			for (typename Set::Iterator iter = other.getFwIter();iter.hasItems();)
-				remove(iter.getNext());
+				this->erase(iter.getNext());
 			return *this;
 		}
 		Set &operator-=(const T &item) {
-				remove(item);
+				this->erase(item);
 				return *this;
 		}
 
@@ -74,19 +75,19 @@ namespace LightSpeed {
 		enum Exclude{exclude};
 		enum Include{include};
 
-		Set(const Set &other, const Set &other2, Exclude ) {
-			(*this)-=other;
+		Set(const Set &other, const Set &other2, Exclude ):Super(other.cmpOper) {
+			(*this)+=other;
 			(*this)-=other2;
 		}
-		Set(const Set &other, const Set &other2, Include ) {
+		Set(const Set &other, const Set &other2, Include ):Super(other.cmpOper) {
 			(*this)+=other;
 			(*this)+=other2;
 		}
-		Set(const Set &other, const T &other2, Exclude ) {
-			(*this)-=other;
+		Set(const Set &other, const T &other2, Exclude ):Super(other.cmpOper) {
+			(*this)+=other;
 			(*this)-=other2;
 		}
-		Set(const Set &other, const T &other2, Include ) {
+		Set(const Set &other, const T &other2, Include ):Super(other.cmpOper) {
 			(*this)+=other;
 			(*this)+=other2;
 		}
-- 
2.43.0


From f6423c18ed286fc76b88542edb607645903395cd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:41:10 +0000
Subject: [PATCH 045/331] fix: iterator returned by insertion into AVL tree

---
 src/lightspeed/base/containers/avltree.h     | 6 ++++--
 src/lightspeed/base/containers/avltreenode.h | 6 +++++-
 2 files changed, 9 insertions(+), 3 deletions(-)

diff --git a/src/lightspeed/base/containers/avltree.h b/src/lightspeed/base/containers/avltree.h
index e3784ae..838d563 100644
--- a/src/lightspeed/base/containers/avltree.h
+++ b/src/lightspeed/base/containers/avltree.h
@@ -207,11 +207,13 @@ namespace LightSpeed {
 			bool done = false;
 			Node *newroot = tree->insert(NodeCmp(cmpOper),nd,done,&itr);
 			if (newroot == 0) {
-				if (*exist) *exist = true;
+				if (exist) *exist = true;
 			} else {
 				tree = newroot;
 				count++;
-				if (*exist) *exist = false;
+				if (exist) *exist = false;
+				//balancing could change the path to the new node
+				return Iterator(cmpOper,tree,nd,Direction::forward);
 			}
 			return Iterator(itr);
 		}
diff --git a/src/lightspeed/base/containers/avltreenode.h b/src/lightspeed/base/containers/avltreenode.h
index 6fc84a7..a22cb29 100644
--- a/src/lightspeed/base/containers/avltreenode.h
+++ b/src/lightspeed/base/containers/avltreenode.h
@@ -544,7 +544,11 @@ public:
 		Iterator out;
 		AvlTreeNode<T, LinkT> *x = tree->insert(order,nd,&out);
 		if (exists) *exists = x == 0;
-		if (x) {tree = x; count++;}
+		if (x) {
+			tree = x; count++;
+			//balancing could change the path to the new node
+			return Iterator(order,tree,nd,Direction::forward);
+		}
 		return out;
 	}
 
-- 
2.43.0


From a6d39f9c9b2d25187cb2c853cdb9e7991ecf4c71 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:41:21 +0000
Subject: [PATCH 046/331] fix: AVL tree assigned to itself, set or map minus
 itself

---
 src/lightspeed/base/containers/avltree.h | 1 +
 src/lightspeed/base/containers/map.h     | 1 +
 src/lightspeed/base/containers/set.h     | 1 +
 3 files changed, 3 insertions(+)

diff --git a/src/lightspeed/base/containers/avltree.h b/src/lightspeed/base/containers/avltree.h
index 838d563..36db2a4 100644
--- a/src/lightspeed/base/containers/avltree.h
+++ b/src/lightspeed/base/containers/avltree.h
@@ -128,6 +128,7 @@ namespace LightSpeed {
 		}
 
 		AVLTree &operator=(const AVLTree &other) {
+			if (this == &other) return *this;
 			clear();
 			insert(other);
 			return *this;
diff --git a/src/lightspeed/base/containers/map.h b/src/lightspeed/base/containers/map.h
index 2d4a2c6..db85175 100644
--- a/src/lightspeed/base/containers/map.h
+++ b/src/lightspeed/base/containers/map.h
@@ -302,6 +302,7 @@ namespace LightSpeed {
 			return *this;
 		}
 		Map &operator-=(const Map &other) {
+			if (this == &other) {clear(); return *this;}
 			for (typename Map::Iterator iter = other.getFwIter();iter.hasItems();)
 				(*this) -= iter.getNext();
 			return *this;
diff --git a/src/lightspeed/base/containers/set.h b/src/lightspeed/base/containers/set.h
index b28c37f..7c9c358 100644
--- a/src/lightspeed/base/containers/set.h
+++ b/src/lightspeed/base/containers/set.h
@@ -47,6 +47,7 @@ namespace LightSpeed {
 				return *this;
 		}
 		Set &operator-=(const Set &other) {
+			if (this == &other) {this->clear(); return *this;}
 			for (typename Set::Iterator iter = other.getFwIter();iter.hasItems();)
 				this->erase(iter.getNext());
 			return *this;
-- 
2.43.0


From 66fed9aa3a01f270a6685417add0d2313d0bec6e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:41:32 +0000
Subject: [PATCH 047/331] fix: AvlTreeBasic keeps count of nodes

---
 src/lightspeed/base/containers/avltreenode.h | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/lightspeed/base/containers/avltreenode.h b/src/lightspeed/base/containers/avltreenode.h
index a22cb29..c61d156 100644
--- a/src/lightspeed/base/containers/avltreenode.h
+++ b/src/lightspeed/base/containers/avltreenode.h
@@ -574,7 +574,7 @@ public:
 		bool done = false;
 		AvlTreeNode<T, LinkT> *nd = iter.peek();
 		tree = static_cast<AvlTreeNode<T, LinkT> *>(tree->remove(iter,done));
-		if (done) count--;
+		count--;
 		return nd;
 	}
 
@@ -587,6 +587,7 @@ public:
 		if (tree) {
 			tree->clear(eraser);
 			tree = 0;
+			count = 0;
 		}
 	}
 
-- 
2.43.0


From 8a501b7c710e58cc8a6a916717a051ce69a3b875 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:47:46 +0000
Subject: [PATCH 048/331] fix: PriorityQueue: pop removes exactly one item

---
 src/lightspeed/base/containers/priorityQueue.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/lightspeed/base/containers/priorityQueue.h b/src/lightspeed/base/containers/priorityQueue.h
index 1848cfd..f5d1467 100644
--- a/src/lightspeed/base/containers/priorityQueue.h
+++ b/src/lightspeed/base/containers/priorityQueue.h
@@ -30,7 +30,7 @@ namespace LightSpeed {
 
 		const T &top() const { return items[0]; }
 		T &top() { return items(0); }
-		void pop() { heap.pop(); items.trunc(heap.getSize()); }
+		void pop() { heap.pop(); items.trunc(items.length() - heap.getSize()); }
 		void clear() {heap.clear();items.clear();}
 		bool empty() const {return items.empty();}
 
-- 
2.43.0


From 1c497cb140a5d6b00ab48dc06c172d5c09dbba88 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:47:52 +0000
Subject: [PATCH 049/331] fix: PriorityQueue: a copy has a heap over its own
 items

---
 src/lightspeed/base/containers/priorityQueue.h | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/src/lightspeed/base/containers/priorityQueue.h b/src/lightspeed/base/containers/priorityQueue.h
index f5d1467..450feaa 100644
--- a/src/lightspeed/base/containers/priorityQueue.h
+++ b/src/lightspeed/base/containers/priorityQueue.h
@@ -23,6 +23,16 @@ namespace LightSpeed {
 		explicit PriorityQueue(const Allocator &alloc):items(alloc),heap(items) {}
 		PriorityQueue(const Allocator &alloc,const Cmp &cmp):items(alloc),heap(items,cmp) {}
 
+		PriorityQueue(const PriorityQueue &other)
+			:items(other.items),heap(items,other.heap.getCmpOp()) {heap.setSize(items.length());}
+		PriorityQueue &operator=(const PriorityQueue &other) {
+			if (this != &other) {
+				items = other.items;
+				heap.setSize(items.length());
+			}
+			return *this;
+		}
+
 		void push(const T &x) {items.add(x);heap.push();}
 
 		template<typename I>
-- 
2.43.0


From 057acc563d517137a9f97017f3b079101e80e195 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:47:58 +0000
Subject: [PATCH 050/331] fix: PriorityQueue: compiles with other than the
 standard allocator

---
 src/lightspeed/base/containers/priorityQueue.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/lightspeed/base/containers/priorityQueue.h b/src/lightspeed/base/containers/priorityQueue.h
index 450feaa..6f9a59f 100644
--- a/src/lightspeed/base/containers/priorityQueue.h
+++ b/src/lightspeed/base/containers/priorityQueue.h
@@ -49,7 +49,7 @@ namespace LightSpeed {
 
 	protected:
 		AutoArray<T,Allocator> items;
-		HeapSort<AutoArray<T>, Cmp> heap;
+		HeapSort<AutoArray<T,Allocator>, Cmp> heap;
 	};
 
 
-- 
2.43.0


From 89be75ba9705c793241b75637a85a2d998c436ab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:48:08 +0000
Subject: [PATCH 051/331] fix: HeapSort: removal from the middle keeps the heap
 ordered

---
 src/lightspeed/base/containers/sort.tcc | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/src/lightspeed/base/containers/sort.tcc b/src/lightspeed/base/containers/sort.tcc
index 09d8978..39df54e 100644
--- a/src/lightspeed/base/containers/sort.tcc
+++ b/src/lightspeed/base/containers/sort.tcc
@@ -71,7 +71,14 @@ bool HeapSort<Container,Cmp>::pop(natural at) {
         heapSize--;
         if (heapSize > at) {
             std::swap(cont(at),cont(heapSize));
-            shiftDown();
+            natural child = at;
+            while (child > 0) {
+                natural parent = (child - 1) / 2;
+                if (!isLess(cont[parent],cont[child])) break;
+                std::swap(cont(parent),cont(child));
+                child = parent;
+            }
+            shiftDown(child);
         }
         return true;
     } else {
-- 
2.43.0


From 2851b381b4e828c06698c190a23458b49250048d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:52:45 +0000
Subject: [PATCH 052/331] fix: Optional: move assignment compiles

---
 src/lightspeed/base/containers/optional.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/lightspeed/base/containers/optional.h b/src/lightspeed/base/containers/optional.h
index 72ed52d..f94b9e0 100644
--- a/src/lightspeed/base/containers/optional.h
+++ b/src/lightspeed/base/containers/optional.h
@@ -140,7 +140,7 @@ namespace LightSpeed {
 					destruct();
 				}
 				if (other._x) {
-					constuct(std::move(other.get()));
+					construct(std::move(other.get()));
 					arm();
 					other = nil;
 				}
-- 
2.43.0


From ddc504c8009a44876afd4889180cac374d8d7182 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:52:51 +0000
Subject: [PATCH 053/331] fix: SortFilter: compiles, a copy keeps its heap and
 its extra item

---
 src/lightspeed/base/iter/sortFilter.tcc | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/lightspeed/base/iter/sortFilter.tcc b/src/lightspeed/base/iter/sortFilter.tcc
index 8c0e862..5014c50 100644
--- a/src/lightspeed/base/iter/sortFilter.tcc
+++ b/src/lightspeed/base/iter/sortFilter.tcc
@@ -31,7 +31,7 @@ SortFilter<T,Order,Allocator>::SortFilter(const Order &order,Allocator alloc)
 template<typename T, typename Order, typename Allocator>
 inline bool SortFilter<T,Order,Allocator>::needItems() const
 {
-    return !extraItem.isSet();
+    return extraItem == nil;
 }
 
 
@@ -68,13 +68,15 @@ inline bool SortFilter<T,Order,Allocator>::hasItems() const
 
 template<typename T, typename Order, typename Allocator>
 SortFilter<T,Order,Allocator>::SortFilter(const SortFilter &other)
-    :buffer(other.buffer),heap(buffer, other.heap.getCmpOp()) {
+    :buffer(other.buffer),extraItem(other.extraItem),heap(buffer, other.heap.getCmpOp()) {
+    heap.setSize(buffer.length());
 
 }
 
 template<typename T, typename Order, typename Allocator>
 SortFilter<T,Order,Allocator> &SortFilter<T,Order,Allocator>::operator=(const SortFilter &other) {
     buffer = other.buffer;
+    extraItem = other.extraItem;
     heap.setSize(buffer.length());
     return *this;
 }
-- 
2.43.0


From a98213005d56c8d7e2c3728751edb7ce24800a08 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:58:08 +0000
Subject: [PATCH 054/331] fix: Future::wait: resolving thread does not touch
 the waiting thread after it is signaled

---
 src/lightspeed/base/actions/promise.tcc | 17 ++++++++++++-----
 1 file changed, 12 insertions(+), 5 deletions(-)

diff --git a/src/lightspeed/base/actions/promise.tcc b/src/lightspeed/base/actions/promise.tcc
index 0bf74d2..f8d236a 100644
--- a/src/lightspeed/base/actions/promise.tcc
+++ b/src/lightspeed/base/actions/promise.tcc
@@ -168,26 +168,33 @@ const T & Future<T>::wait( const Timeout &tm /*= Timeout()*/ ) const
 {
 	class Ntf: public IObserver {
 	public:
-		ISleepingObject *thread;
+		RefCntPtr<IThreadSleeper> thread;
 		const T *result;
 		PException exception;
+		atomic signaled;
 		
-		Ntf(ISleepingObject *thread):thread(thread),result(0),exception(0) {}
+		Ntf(const RefCntPtr<IThreadSleeper> &thread):thread(thread),result(0),exception(0),signaled(0) {}
 
 		virtual void resolve( const T &result ) throw()
 		{
 			this->result = &result;
-			thread->wakeUp();
+			signal();
 		}
 
 		virtual void resolve(const PException &e ) throw()
 		{
 			this->exception = e.getMT();
-			thread->wakeUp();
+			signal();
 		}		
 
 		bool resolved() const {
-			return exception != nil || result != 0;
+			return readAcquire(&signaled) != 0;
+		}
+		void signal() {
+			//the waiting thread can leave and destroy this object once the flag is set
+			RefCntPtr<IThreadSleeper> keep = thread;
+			writeRelease(&signaled,1);
+			keep->wakeUp();
 		}
 	};
 
-- 
2.43.0


From 18312ba45fdabd0d62a847810dbdf008cfafb3b2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:58:16 +0000
Subject: [PATCH 055/331] fix: future is resolved with CanceledException when
 its last promise is dropped

---
 src/lightspeed/base/actions/promise.tcc | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/lightspeed/base/actions/promise.tcc b/src/lightspeed/base/actions/promise.tcc
index f8d236a..f58c6dd 100644
--- a/src/lightspeed/base/actions/promise.tcc
+++ b/src/lightspeed/base/actions/promise.tcc
@@ -576,8 +576,8 @@ void Future<T>::Value::addResultRef()
 template<typename T>
 void Future<T>::Value::releaseResultRef()
 {
-	if (lockDec(resultRefCnt) == 0) {
-		cancel();
+	if (lockDec(resultRefCnt) == 0 && getState() == stateNotResolved) {
+		resolve(PException(new CanceledException(THISLOCATION)));
 	}
 }
 
-- 
2.43.0


From f9525f49248c8e8447a9a136f67bfcb5064bf61b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:58:26 +0000
Subject: [PATCH 056/331] fix: Future reads the state of the resolution under
 its lock

---
 src/lightspeed/base/actions/promise.h   | 2 +-
 src/lightspeed/base/actions/promise.tcc | 1 +
 2 files changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/lightspeed/base/actions/promise.h b/src/lightspeed/base/actions/promise.h
index d74a058..89c192f 100644
--- a/src/lightspeed/base/actions/promise.h
+++ b/src/lightspeed/base/actions/promise.h
@@ -302,7 +302,7 @@ public:
 	 *
 	 */
 	bool hasPromise() const {
-		return future != null && (future->resultRefCnt > 0 || future->isResolved());
+		return future != null && (future->resultRefCnt > 0 || future->resolved());
 	}
 
 	///Returns promise
diff --git a/src/lightspeed/base/actions/promise.tcc b/src/lightspeed/base/actions/promise.tcc
index f58c6dd..68ad2ca 100644
--- a/src/lightspeed/base/actions/promise.tcc
+++ b/src/lightspeed/base/actions/promise.tcc
@@ -15,6 +15,7 @@ namespace LightSpeed {
 template<typename T>
 bool Future<T>::Value::resolved() const throw()
 {
+	Synchronized<FastLock> _(lock);
 	return isResolved();
 }
 
-- 
2.43.0


From 2b8d497ed3a5b731b50aafa415fcaada90422c34 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:58:36 +0000
Subject: [PATCH 057/331] fix: assignment of a promise counts the references of
 both futures

---
 src/lightspeed/base/actions/promise.h   |  3 +++
 src/lightspeed/base/actions/promise.tcc | 10 ++++++++++
 2 files changed, 13 insertions(+)

diff --git a/src/lightspeed/base/actions/promise.h b/src/lightspeed/base/actions/promise.h
index 89c192f..368a3dc 100644
--- a/src/lightspeed/base/actions/promise.h
+++ b/src/lightspeed/base/actions/promise.h
@@ -991,6 +991,9 @@ public:
 
 	Promise(const Future<T> &future);
 
+	///assigns other promise, current promise is dropped as when it is destroyed
+	Promise &operator=(const Promise &other);
+
 	///destruct the result clone
 	/** When last instance of the result is destroyed, promise is resolved with an exception */
 	~Promise();
diff --git a/src/lightspeed/base/actions/promise.tcc b/src/lightspeed/base/actions/promise.tcc
index 68ad2ca..3326db4 100644
--- a/src/lightspeed/base/actions/promise.tcc
+++ b/src/lightspeed/base/actions/promise.tcc
@@ -605,6 +605,16 @@ Promise<T>::Promise(const Promise &other)
 
 
 
+template<typename T>
+Promise<T> &Promise<T>::operator=(const Promise &other)
+{
+	RefCntPtr<typename Future<T>::Value> old = ptr;
+	other.ptr->addResultRef();
+	ptr = other.ptr;
+	old->releaseResultRef();
+	return *this;
+}
+
 template<typename T>
 inline Future<T>::Value::~Value() {
 	lock.lock();
-- 
2.43.0


From 751aba76458ba4ca48567e899cb8ecea3ccf6c66 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:58:47 +0000
Subject: [PATCH 058/331] fix: Future compared with null

---
 src/lightspeed/base/actions/promise.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/lightspeed/base/actions/promise.h b/src/lightspeed/base/actions/promise.h
index 368a3dc..83ca355 100644
--- a/src/lightspeed/base/actions/promise.h
+++ b/src/lightspeed/base/actions/promise.h
@@ -790,7 +790,7 @@ protected:
 	friend class ComparableLess<Future<T> >;
 
 	bool lessThan(const Future<T> &other) const {return future < other.future;}
-	bool isNil() const {return future != nil;}
+	bool isNil() const {return future == nil;}
 
 	class Value:public IPromiseControl, public Resolution, public DynObject  {
 	public:
-- 
2.43.0


From 4a68288bd0d51d16103254278d7ae8f5a24e3588 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:58:57 +0000
Subject: [PATCH 059/331] fix: operator || of futures compiles and frees its
 observers

---
 src/lightspeed/base/actions/promise.tcc | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/src/lightspeed/base/actions/promise.tcc b/src/lightspeed/base/actions/promise.tcc
index 3326db4..7cb8546 100644
--- a/src/lightspeed/base/actions/promise.tcc
+++ b/src/lightspeed/base/actions/promise.tcc
@@ -957,7 +957,7 @@ template<typename T>
 template<typename Y>
 Future<Variant> Future<T>::operator||(const Future<Y> &b) {
 
-	class TtoVariant: public Future<T>::IObserver {
+	class TtoVariant: public Future<T>::IObserver, public DynObject {
 	public:
 		TtoVariant(const Promise<Variant> &v):v(v) {}
 		virtual void resolve(const T &val) throw() {
@@ -970,7 +970,7 @@ Future<Variant> Future<T>::operator||(const Future<Y> &b) {
 		}
 		Promise<Variant> v;
 	};
-	class YtoVariant: public Future<Y>::IObserver {
+	class YtoVariant: public Future<Y>::IObserver, public DynObject {
 	public:
 		YtoVariant(const Promise<Variant> &v):v(v) {}
 		virtual void resolve(const Y &val) throw() {
@@ -992,8 +992,9 @@ Future<Variant> Future<T>::operator||(const Future<Y> &b) {
 	Promise<Variant> p = v.getPromise();
 
 	//share promise between converters - only first will resolve, other will be ignored
+	Future<Y> cb = b;
 	this->addObserver(new(alloc) TtoVariant(p));
-	b.addObserver(new(alloc) YtoVariant(p));
+	cb.addObserver(new(alloc) YtoVariant(p));
 	//return result promise
 	return v;
 }
-- 
2.43.0


From acf476e56c469bc656b8f0711e262b9c260a1b95 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:59:25 +0000
Subject: [PATCH 060/331] fix: operator && of futures stores both results under
 a lock

---
 src/lightspeed/base/actions/promise.tcc | 28 +++++++++++++------------
 1 file changed, 15 insertions(+), 13 deletions(-)

diff --git a/src/lightspeed/base/actions/promise.tcc b/src/lightspeed/base/actions/promise.tcc
index 7cb8546..2bdd12d 100644
--- a/src/lightspeed/base/actions/promise.tcc
+++ b/src/lightspeed/base/actions/promise.tcc
@@ -1016,14 +1016,20 @@ public:
 	Optional<Y> v2;
 	//result promise
 	Promise<VariantPair> result;
+	FastLock lock;
 
 
+	//stores the result and checks whether both are resolved
+	template<typename V>
+	void store(Optional<V> &var, const V &v) {
 
-
-	//called to check whether both are resolved
-	void tryResolve() {
-
-		if (v1 != null && v2 != null) {
+		bool ready;
+		{
+			Synchronized<FastLock> _(lock);
+			var = v;
+			ready = v1 != null && v2 != null;
+		}
+		if (ready) {
 			//resolve pair
 			result.resolve(VariantPair(Variant(T(v1)),Variant(Y(v2))));
 		}
@@ -1042,10 +1048,8 @@ public:
 
 		ReceiverX(const PAktivator &owner):owner(owner.getMT()) {}
 		virtual void resolve(const T &v) throw() {
-			//store result
-			owner->v1 = v;
-			// try to resolve
-			owner->tryResolve();
+			//store result, try to resolve
+			owner->store(owner->v1,v);
 			// set pointer to NULL (decrease counter)
 			owner = null;
 		}
@@ -1063,10 +1067,8 @@ public:
 
 		ReceiverY(const PAktivator &owner):owner(owner.getMT()) {}
 		virtual void resolve(const Y &v) throw() {
-			//store result
-			owner->v2 = v;
-			// try to resolve
-			owner->tryResolve();
+			//store result, try to resolve
+			owner->store(owner->v2,v);
 			// set pointer to NULL (decrease counter)
 			owner = null;
 		}
-- 
2.43.0


From b531d408f9ae92bd91d9323fa6499577f5123888 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:59:34 +0000
Subject: [PATCH 061/331] fix: Future<void>::transform compiles

---
 src/lightspeed/base/actions/promise.tcc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/lightspeed/base/actions/promise.tcc b/src/lightspeed/base/actions/promise.tcc
index 2bdd12d..cd9e741 100644
--- a/src/lightspeed/base/actions/promise.tcc
+++ b/src/lightspeed/base/actions/promise.tcc
@@ -707,7 +707,7 @@ Future<void> Future<void>::transform(Future<X> original)
 {
 	class A:public Future<X>::IObserver, public DynObject {
 	public:
-		A(Promise<void> &rptr):rptr(rptr) {}
+		A(const Promise<void> &rptr):rptr(rptr) {}
 		virtual void resolve(const X &) throw() {
 			rptr.resolve();
 			delete this;
-- 
2.43.0


From 277eb8b2620367cf0f23530c7fd3d379c7c17ac2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:59:45 +0000
Subject: [PATCH 062/331] fix: futureCatch can be used with futures of any type

---
 src/lightspeed/base/actions/promise.h | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/lightspeed/base/actions/promise.h b/src/lightspeed/base/actions/promise.h
index 83ca355..c6be0fc 100644
--- a/src/lightspeed/base/actions/promise.h
+++ b/src/lightspeed/base/actions/promise.h
@@ -1158,6 +1158,10 @@ template<typename Fn> struct DetermineFutureHandlerRetVal<void, Fn> {
 	typedef typename std::result_of<Fn()>::type type;
 };
 
+template<typename T, typename Fn> struct DetermineFutureHandlerRetVal<T, FutureCatch<Fn> > {
+	typedef T type;
+};
+
 template<typename Fn> struct DetermineFutureHandlerRetVal<void, FutureCatch<Fn> > {
 	typedef void type;
 };
-- 
2.43.0


From 9a8ee4203e455b37f07972c65f35b373288d71bf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:01:19 +0000
Subject: [PATCH 063/331] fix: operator && of futures: observer does not write
 to itself after it is destroyed

---
 src/lightspeed/base/actions/promise.tcc | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/lightspeed/base/actions/promise.tcc b/src/lightspeed/base/actions/promise.tcc
index cd9e741..b3f64e3 100644
--- a/src/lightspeed/base/actions/promise.tcc
+++ b/src/lightspeed/base/actions/promise.tcc
@@ -1051,12 +1051,14 @@ public:
 			//store result, try to resolve
 			owner->store(owner->v1,v);
 			// set pointer to NULL (decrease counter)
+			PAktivator keep = owner;
 			owner = null;
 		}
 		virtual void resolve(const PException &e) throw() {
 			//reject
 			owner->reject(e);
 			// set pointer to NULL (decrease counter)
+			PAktivator keep = owner;
 			owner = null;
 		}
 	};
@@ -1070,12 +1072,14 @@ public:
 			//store result, try to resolve
 			owner->store(owner->v2,v);
 			// set pointer to NULL (decrease counter)
+			PAktivator keep = owner;
 			owner = null;
 		}
 		virtual void resolve(const PException &e) throw() {
 			//reject
 			owner->reject(e);
 			// set pointer to NULL (decrease counter)
+			PAktivator keep = owner;
 			owner = null;
 		}
 	};
-- 
2.43.0


From f90c7c6ad4da821cc3972d097812780722d4aea7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:03:57 +0000
Subject: [PATCH 064/331] fix: FutureAutoCancel can be destroyed while its
 future is being rejected

---
 src/lightspeed/base/actions/promise.tcc | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/lightspeed/base/actions/promise.tcc b/src/lightspeed/base/actions/promise.tcc
index b3f64e3..45c16e1 100644
--- a/src/lightspeed/base/actions/promise.tcc
+++ b/src/lightspeed/base/actions/promise.tcc
@@ -856,7 +856,11 @@ FutureAutoCancel<T>::~FutureAutoCancel() {
 	if (this->future != null) {
 		if (this->future->isLastReference()) {
 			if (IPromiseControl::stateResolving == this->cancel()) {
-				this->wait();
+				try {
+					this->wait();
+				} catch (...) {
+					//future rejected by an exception is resolved too
+				}
 			}
 		}
 	}
-- 
2.43.0


From 2eacab026a14f0337283867be4195ab140a8ee3a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:14:03 +0000
Subject: [PATCH 065/331] fix: Dispatcher removes an action from its queue when
 it takes it

---
 src/lightspeed/mt/dispatcher.cpp | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/lightspeed/mt/dispatcher.cpp b/src/lightspeed/mt/dispatcher.cpp
index 68610df..ac6c149 100644
--- a/src/lightspeed/mt/dispatcher.cpp
+++ b/src/lightspeed/mt/dispatcher.cpp
@@ -102,8 +102,9 @@ namespace LightSpeed {
 	IDispatcher::AbstractAction * Dispatcher::getNextAction()
 	{
 		if (queue.empty()) return 0;
-		AllocPointer<AbstractAction> &aa = queue.top();
-		return aa.detach();
+		AbstractAction *aa = queue.top().detach();
+		queue.pop();
+		return aa;
 	}
 
 	void Dispatcher::rejectQueue()
-- 
2.43.0


From b3e73a2f408ad9c4dcc6ee22e281102ffa7c667b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:14:11 +0000
Subject: [PATCH 066/331] fix: Dispatcher can be destroyed after join, quit
 does not use the dispatching thread after it has ended

---
 src/lightspeed/mt/dispatcher.cpp | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/lightspeed/mt/dispatcher.cpp b/src/lightspeed/mt/dispatcher.cpp
index ac6c149..d25a58b 100644
--- a/src/lightspeed/mt/dispatcher.cpp
+++ b/src/lightspeed/mt/dispatcher.cpp
@@ -72,6 +72,7 @@ namespace LightSpeed {
 
 	void Dispatcher::quit()
 	{
+		Synchronized<FastLock> _(lock);
 		needstop = true;
 		onNewMessage();
 	}
@@ -79,6 +80,8 @@ namespace LightSpeed {
 	void Dispatcher::join()
 	{
 		running.wait(nil);
+		//run() still owns the lock when it opens the gate, wait until it is really done
+		Synchronized<FastLock> _(lock);
 	}
 
 	void Dispatcher::onNewMessage() throw()
@@ -94,9 +97,8 @@ namespace LightSpeed {
 	void Dispatcher::finishRun() throw()
 	{
 		rejectQueue();
-		running.open();
 		currentThread = nil;
-
+		running.open();
 	}
 
 	IDispatcher::AbstractAction * Dispatcher::getNextAction()
-- 
2.43.0


From b1132d3cdf0d9450cc8ff503ff2bd549ea9ac5a6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:14:19 +0000
Subject: [PATCH 067/331] fix: Dispatcher does not hold its lock while it
 rejects actions

---
 src/lightspeed/mt/dispatcher.cpp | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/lightspeed/mt/dispatcher.cpp b/src/lightspeed/mt/dispatcher.cpp
index d25a58b..eda7153 100644
--- a/src/lightspeed/mt/dispatcher.cpp
+++ b/src/lightspeed/mt/dispatcher.cpp
@@ -113,7 +113,12 @@ namespace LightSpeed {
 	{
 		AllocPointer<AbstractAction> aa(getNextAction());
 		while (aa != nil) {
-			aa->reject();
+			{
+				//an observer of the rejected action can dispatch another action
+				SyncReleased<FastLock> _(lock);
+				aa->reject();
+				aa = nil;
+			}
 			aa = getNextAction();
 		}
 	}
-- 
2.43.0


From 5ecd09b42b9ac28faafc0232a40fa221d0e81c6c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:14:26 +0000
Subject: [PATCH 068/331] fix: Dispatcher rejects pending actions when it is
 destroyed

---
 src/lightspeed/mt/dispatcher.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/lightspeed/mt/dispatcher.cpp b/src/lightspeed/mt/dispatcher.cpp
index eda7153..1478e6b 100644
--- a/src/lightspeed/mt/dispatcher.cpp
+++ b/src/lightspeed/mt/dispatcher.cpp
@@ -14,6 +14,8 @@ namespace LightSpeed {
 	Dispatcher::~Dispatcher()
 	{
 		join();
+		Synchronized<FastLock> _(lock);
+		rejectQueue();
 	}
 
 	void Dispatcher::dispatch(AbstractAction *action)
-- 
2.43.0


From a54c5e7615b162d827f92ea5696d02e82e43891b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:14:33 +0000
Subject: [PATCH 069/331] fix: Dispatcher::onIdle is called with the lock held
 as documented

---
 src/lightspeed/mt/dispatcher.cpp | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/src/lightspeed/mt/dispatcher.cpp b/src/lightspeed/mt/dispatcher.cpp
index 1478e6b..fe4dea2 100644
--- a/src/lightspeed/mt/dispatcher.cpp
+++ b/src/lightspeed/mt/dispatcher.cpp
@@ -52,13 +52,15 @@ namespace LightSpeed {
 			natural idleCount = 0;
 			while (!needstop) {
 				AbstractAction *aa = getNextAction();
-				SyncReleased<FastLock> _(lock);
 				if (aa == 0) {					
-					Thread::sleep(onIdle(idleCount));
+					Timeout tm = onIdle(idleCount);
 					idleCount++;
-					
+					if (needstop) break;
+					SyncReleased<FastLock> _(lock);
+					Thread::sleep(tm);
 				}
 				else {
+					SyncReleased<FastLock> _(lock);
 					idleCount = 0;
 					aa->run();
 					delete aa;
-- 
2.43.0


From 6f592bf2f546e5eb604953818dcc84551c9974cf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:14:41 +0000
Subject: [PATCH 070/331] fix: IDispatcher::dispatch(promise, value) resolves
 the promise with the value

---
 src/lightspeed/base/actions/idispatcher.tcc | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/src/lightspeed/base/actions/idispatcher.tcc b/src/lightspeed/base/actions/idispatcher.tcc
index e4e9ad7..9cc9c7a 100644
--- a/src/lightspeed/base/actions/idispatcher.tcc
+++ b/src/lightspeed/base/actions/idispatcher.tcc
@@ -133,10 +133,11 @@ namespace LightSpeed {
 		class A : public AbstractAction {
 		public:
 
-			A(const Promise<void> &promise, const T &value) :promise(promise),value(value) {}
+			A(const Promise<T> &promise, const T &value) :promise(promise),value(value) {}
+			~A() throw() {}
 			virtual void run() throw()
 			{
-				promise.resolve();
+				promise.resolve(value);
 			}
 
 			virtual void reject() throw()
@@ -144,7 +145,7 @@ namespace LightSpeed {
 				promise.reject(CanceledException(THISLOCATION));
 			}
 		protected:
-			typename Future<T>::Promise promise;
+			Promise<T> promise;
 			T value;
 		};
 		AbstractAction *aa = new(getActionAllocator()) A(promise,value);
-- 
2.43.0


From df2484a8215e71a271ef66d5a5836427536f084c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:16:46 +0000
Subject: [PATCH 071/331] fix: MsgQueue does not touch a message after it has
 been queued

---
 src/lightspeed/base/actions/msgQueue.cpp | 23 ++++++++++++++---------
 1 file changed, 14 insertions(+), 9 deletions(-)

diff --git a/src/lightspeed/base/actions/msgQueue.cpp b/src/lightspeed/base/actions/msgQueue.cpp
index db64ba6..152b1ac 100644
--- a/src/lightspeed/base/actions/msgQueue.cpp
+++ b/src/lightspeed/base/actions/msgQueue.cpp
@@ -117,17 +117,20 @@ void MsgQueue::postMessage(AbstractMsg *msg) {
 	//notify message, that is queued
 	msg->queued(*this);
 	//set next by current top
-	msg->next = newMessages;
-	//atomically set new top
-	while (lockCompareExchangePtr(&newMessages,msg->next.get(),msg) != msg->next.get()) {
+	AbstractMsg *top = newMessages;
+	msg->next = top;
+	//count the message before it becomes visible to the worker thread
+	lockInc(queueLen);
+	//atomically set new top (the message can be processed and destroyed immediately after that)
+	while (lockCompareExchangePtr(&newMessages,top,msg) != top) {
 		//if not successfull (current top has been changed meanwhile)
 		//detach next
 		msg->next.detach();
 		//and try new top
-		msg->next = newMessages;
+		top = newMessages;
+		msg->next = top;
 		//try agaiin
 	}
-	lockInc(queueLen);
 	//notify worker thread about new message in the queue
 	notify();
 
@@ -138,12 +141,14 @@ void MsgQueue::postPriorityMessage(AbstractMsg *msg) {
 	if (msg == 0 || msg->next != nil) return;
 	//notify message, that is queued
 	msg->queued(*this);
-	msg->next = curQueue;
-	while (lockCompareExchangePtr(&curQueue,msg->next.get(),msg) != msg->next.get()) {
+	AbstractMsg *top = curQueue;
+	msg->next = top;
+	lockInc(queueLen);
+	while (lockCompareExchangePtr(&curQueue,top,msg) != top) {
 		msg->next.detach();
-		msg->next = curQueue;
+		top = curQueue;
+		msg->next = top;
 	}
-	lockInc(queueLen);
 	notify();
 }
 
-- 
2.43.0


From 7248cc7871aba3e6763f870cf67c6715983dbb89 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:16:53 +0000
Subject: [PATCH 072/331] fix: MsgQueue initializes all its members

---
 src/lightspeed/base/actions/msgQueue.cpp | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/src/lightspeed/base/actions/msgQueue.cpp b/src/lightspeed/base/actions/msgQueue.cpp
index 152b1ac..3b75f6f 100644
--- a/src/lightspeed/base/actions/msgQueue.cpp
+++ b/src/lightspeed/base/actions/msgQueue.cpp
@@ -38,19 +38,20 @@ MsgQueue::AbstractMsg *MsgQueue::AbstractMsg::isolate() {
 }
 
 MsgQueue::MsgQueue()
-:queueLen(0),curQueue(0),newMessages(0)
+:queueLen(0),curQueue(0),newMessages(0),curMessage(0)
 ,rtAllocator(StdAlloc::getInstance()) {
 
 }
 
 MsgQueue::MsgQueue(IRuntimeAlloc &rtAllocator)
-:queueLen(0),curQueue(0),newMessages(0)
+:queueLen(0),curQueue(0),newMessages(0),curMessage(0)
 ,rtAllocator(rtAllocator) {
 
 }
 
 MsgQueue::MsgQueue( const MsgQueue &other )
-	:rtAllocator(other.rtAllocator)
+	:queueLen(0),curQueue(0),newMessages(0),curMessage(0)
+	,rtAllocator(other.rtAllocator)
 {
 
 }
-- 
2.43.0


From 16021f424714c65005d5e64085d9eea87381f049 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:17:01 +0000
Subject: [PATCH 073/331] fix: MsgThread and SchedulerThread stop the thread
 before worker() becomes pure virtual

---
 src/lightspeed/mt/msgthread.cpp | 12 ++++++++++++
 src/lightspeed/mt/msgthread.h   |  2 ++
 2 files changed, 14 insertions(+)

diff --git a/src/lightspeed/mt/msgthread.cpp b/src/lightspeed/mt/msgthread.cpp
index 22c33e2..5fa8106 100644
--- a/src/lightspeed/mt/msgthread.cpp
+++ b/src/lightspeed/mt/msgthread.cpp
@@ -48,6 +48,12 @@ MsgThreadBase::~MsgThreadBase()
 {
 	Thread::stop();
 }
+MsgThread::~MsgThread()
+{
+	//stop the thread while worker() can be called
+	Thread::stop();
+}
+
 void MsgThread::worker()
 {
 	while (!Thread::canFinish()) {
@@ -82,6 +88,12 @@ void SchedulerThread::notify()
 	MsgThreadBase::notify();
 }
 
+SchedulerThread::~SchedulerThread()
+{
+	//stop the thread while worker() can be called
+	Thread::stop();
+}
+
 void SchedulerThread::worker()
 {
 	while (!Thread::canFinish()) {
diff --git a/src/lightspeed/mt/msgthread.h b/src/lightspeed/mt/msgthread.h
index d34a41d..73ae792 100644
--- a/src/lightspeed/mt/msgthread.h
+++ b/src/lightspeed/mt/msgthread.h
@@ -46,6 +46,7 @@ namespace LightSpeed {
 
 		MsgThread();
 		MsgThread(IRuntimeAlloc &rtAlloc);
+		~MsgThread();
 
 		static MsgThread &current();
 		static MsgThread *currentPtr();
@@ -78,6 +79,7 @@ namespace LightSpeed {
 
 		SchedulerThread();
 		SchedulerThread(IRuntimeAlloc &rtAlloc);
+		~SchedulerThread();
 
 		static SchedulerThread &current();
 		static SchedulerThread *currentPtr();
-- 
2.43.0


From 51d14464191849603408657493c3cfcb6c213bc2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:17:10 +0000
Subject: [PATCH 074/331] fix: AbstractAPCServer queue

---
 src/lightspeed/mt/apc.h | 20 ++++++++++++++++----
 1 file changed, 16 insertions(+), 4 deletions(-)

diff --git a/src/lightspeed/mt/apc.h b/src/lightspeed/mt/apc.h
index 44a573d..488bfe9 100644
--- a/src/lightspeed/mt/apc.h
+++ b/src/lightspeed/mt/apc.h
@@ -69,7 +69,7 @@ namespace LightSpeed {
 		virtual ~IAPCServer() {}
 	protected:
 		void setNext(AbstractAPC *p,AbstractAPC *q) {p->nextAPC = q;}
-		AbstractAPC *getNext(AbstractAPC *p) const {return p;}
+		AbstractAPC *getNext(AbstractAPC *p) const {return p->nextAPC;}
 	};
 
 
@@ -91,9 +91,12 @@ namespace LightSpeed {
 
 		virtual bool execute(AbstractAPC *apc) {
 			AbstractAPC *n = queue;
+			AbstractAPC *k;
 			do {
-				setNext(apc,n);
-			} while (lockCompareExchangePtr(&queue,n,apc));
+				k = n;
+				setNext(apc,k);
+				n = lockCompareExchangePtr(&queue,k,apc);
+			} while (n != k);
 			return n == 0;
 		}
 
@@ -126,10 +129,19 @@ namespace LightSpeed {
 
 		///Reject all messages
 		void rejectAll() {
-			AbstractAPC *k = queue;
+			//take whole queue, nobody can see the messages anymore
+			AbstractAPC *k = lockExchangePtr<AbstractAPC>(&queue,0);
+			//reverse it to FIFO order
+			AbstractAPC *f = 0;
 			while (k) {
 				AbstractAPC *z = k;
 				k = getNext(k);
+				setNext(z,f);
+				f = z;
+			}
+			while (f) {
+				AbstractAPC *z = f;
+				f = getNext(f);
 				z->rejected();
 			}
 		}
-- 
2.43.0


From 61f4985243c500fa041e762a54cb55ce71f0de02 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:17:18 +0000
Subject: [PATCH 075/331] fix: APCThread::impSleep sleeps instead of calling
 itself

---
 src/lightspeed/mt/apcthread.cpp | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/src/lightspeed/mt/apcthread.cpp b/src/lightspeed/mt/apcthread.cpp
index ec5c825..03b48d4 100644
--- a/src/lightspeed/mt/apcthread.cpp
+++ b/src/lightspeed/mt/apcthread.cpp
@@ -30,9 +30,12 @@ APCThread::APCThread():apc_enabled(true),apcImpl(this)
 }
 
 bool APCThread::impSleep(const Timeout& tm, natural& reason) {
-	bool x = Thread::sleep(tm,reason);
-	if (!x && apc_enabled) {
+	bool x = false;
+	//calls queued before the sleep (the thread could not be notified) are executed without sleeping
+	if (!apc_enabled || !apcImpl.anyAPC()) x = Thread::impSleep(tm,reason);
+	if (apc_enabled && apcImpl.anyAPC()) {
 		apcImpl.executeQueue();
+		x = false;
 	}
 	return x;
 }
-- 
2.43.0


From 7fbe25350f5ac84f8c5de9e2f06a6363c8a6bebe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:25:04 +0000
Subject: [PATCH 076/331] fix: QueueExecutor initializes the finish flag and
 the gate

---
 src/lightspeed/base/actions/queueExecutor.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/lightspeed/base/actions/queueExecutor.cpp b/src/lightspeed/base/actions/queueExecutor.cpp
index b2a18cb..6a78bb8 100644
--- a/src/lightspeed/base/actions/queueExecutor.cpp
+++ b/src/lightspeed/base/actions/queueExecutor.cpp
@@ -36,7 +36,7 @@ void QueueExecutor::execute(const IExecAction& action) {
 	wakeThread();
 }
 
-QueueExecutor::QueueExecutor():semaphore(1),runningMessages(0),threadsIn(0) {
+QueueExecutor::QueueExecutor():noThreads(Gate::stateOpen),semaphore(1),runningMessages(0),threadsIn(0),finishFlag(false) {
 
 }
 
-- 
2.43.0


From 74fba2f150497e55984caa90841a1d64077004e3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:25:11 +0000
Subject: [PATCH 077/331] fix: QueueExecutor counts running actions under the
 lock, destroys actions out of it and uses all threads

---
 src/lightspeed/base/actions/queueExecutor.cpp | 12 +++++++++---
 1 file changed, 9 insertions(+), 3 deletions(-)

diff --git a/src/lightspeed/base/actions/queueExecutor.cpp b/src/lightspeed/base/actions/queueExecutor.cpp
index 6a78bb8..8b71825 100644
--- a/src/lightspeed/base/actions/queueExecutor.cpp
+++ b/src/lightspeed/base/actions/queueExecutor.cpp
@@ -98,20 +98,24 @@ void QueueExecutor::Server::serve() {
 				owner->queue.pop();
 				//increase running actions
 				owner->runningMessages++;
+				//this thread can be busy for a long time, let another thread process the rest
+				if (!owner->queue.empty()) owner->wakeThread();
 				try
 				{
 					//unlock the lock temporary
 					SyncReleased<FastLock> _(owner->lock);
 					//perform action (in case of exception, continue after catch
 					(*action)();
-					//decrease running actions
-					owner->runningMessages--;
+					//destroy action before lock is acquired
+					action = nil;
 				} catch (...) {
 					//in case of exception, decrease running actions
 					owner->runningMessages--;
 					//throw above
 					throw;
 				}
+				//decrease running actions
+				owner->runningMessages--;
 				//if finish reported or thread will finish, break
 				if (owner->finishFlag || Thread::canFinish()) break;
 			}
@@ -156,9 +160,11 @@ Timeout  QueueExecutor::onIdle(natural ) {
 }
 
 void QueueExecutor::finish() {
+	//actions are destroyed out of the lock, they can try to execute other actions
+	Queue<SharedPtr<IExecAction> > dropped;
 	Synchronized<FastLock> _(lock);
 	//clear queue
-	queue.clear();
+	queue.swap(dropped);
 	//mark finished
 	finishFlag=true;
 	//wake up possible sleeping thread to receive finish flag status
-- 
2.43.0


From 69534e464a2105ca662463ca9a4e4928f9dfcbb1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:25:18 +0000
Subject: [PATCH 078/331] fix: ParallelExecutor counts its threads correctly
 when they are ordered to stop

---
 .../base/actions/parallelExecutor.cpp         | 32 +++++++++++++++++--
 1 file changed, 29 insertions(+), 3 deletions(-)

diff --git a/src/lightspeed/base/actions/parallelExecutor.cpp b/src/lightspeed/base/actions/parallelExecutor.cpp
index c5e5f1d..955f47a 100644
--- a/src/lightspeed/base/actions/parallelExecutor.cpp
+++ b/src/lightspeed/base/actions/parallelExecutor.cpp
@@ -219,6 +219,8 @@ void ParallelExecutor::Worker::runAction(const IExecAction *action) {
 
 void ParallelExecutor::Worker::run() {
 	bool cont = true;
+	//true while this thread is included in curThreadCount
+	bool counted = true;
 
 	//perform thread-init hook
 	owner.onThreadInit();
@@ -263,6 +265,7 @@ void ParallelExecutor::Worker::run() {
 						&& owner.waitPt.remove(slot)) {
 					//timeout - my thread will finish - decrease count of threads
 					lockDec(owner.curThreadCount);
+					counted = false;
 					//recheck whether there is action arrived meanwhile
 					action = lockExchangePtr<const IExecAction >(&owner.curAction,(IExecAction *)0);
 					//after leaving waiting point but before count of running threads is decreased
@@ -276,6 +279,7 @@ void ParallelExecutor::Worker::run() {
 					if (action) {
 						//increase thread count - I am alive again
 						lockInc(owner.curThreadCount);
+						counted = true;
 						//count idles - I am working
 						lockDec(owner.idleCount);
 						//run action
@@ -302,10 +306,23 @@ void ParallelExecutor::Worker::run() {
 		//if current thread count is above limit and we successfully set it one less lower
 		if (p > (integer)owner.maxThreads && lockCompareExchange(owner.curThreadCount,p,p-1) == p) {
 			//exit this thread uncoditionally
+			counted = false;
 			break;
 		}
 	}
 
+	//thread was ordered to finish
+	if (counted) {
+		lockDec(owner.curThreadCount);
+		//an action could be posted before the count was decreased, so nobody else would carry it out
+		const IExecAction * action = lockExchangePtr<const IExecAction >(&owner.curAction,(IExecAction *)0);
+		if (action != 0) {
+			lockInc(owner.curThreadCount);
+			runAction(action);
+			lockDec(owner.curThreadCount);
+		}
+	}
+
 	//perform thread-done hook
 	owner.onThreadDone();
 }
@@ -318,7 +335,7 @@ bool ParallelExecutor::stopAll(natural timeout) {
 	orderStop = true;
 	waitPt.notifyAll();
 	while (topWorker != nil) {
-		if (!topWorker->stop(timeout)) return false;
+		if (!topWorker->stop(tm)) return false;
 		cleanUp();
 	}
 	return true;
@@ -336,6 +353,9 @@ natural ParallelExecutor::getMaxThreadCount() {
 }
 
 void ParallelExecutor::spawnThreads(natural count) {
+	Synchronized<FastLock> _(executeLock);
+	orderStop = false;
+	cleanUp();
 	while ((natural)curThreadCount < maxThreads && count) {
 		startNewThread();
 		count--;
@@ -373,9 +393,15 @@ natural ParallelExecutor::getIdleTimeout() const {
 void ParallelExecutor::startNewThread() {
 	if ((natural)curThreadCount < maxThreads) {
 		AllocPointer<Worker> w ( new Worker(*this,topWorker));
-		w->start();
-		topWorker = w.detach();
+		//count the thread before it can finish
 		lockInc(curThreadCount);
+		try {
+			w->start();
+		} catch (...) {
+			lockDec(curThreadCount);
+			throw;
+		}
+		topWorker = w.detach();
 	}
 }
 
-- 
2.43.0


From 48b92759ecdd664d44c59a2c323deea78810b47e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:26:02 +0000
Subject: [PATCH 079/331] fix: ParallelExecutor withdraws the action when a
 thread cannot be started

---
 .../base/actions/parallelExecutor.cpp           | 17 +++++++++++++++--
 src/lightspeed/base/actions/parallelExecutor.h  |  1 +
 2 files changed, 16 insertions(+), 2 deletions(-)

diff --git a/src/lightspeed/base/actions/parallelExecutor.cpp b/src/lightspeed/base/actions/parallelExecutor.cpp
index 955f47a..7129747 100644
--- a/src/lightspeed/base/actions/parallelExecutor.cpp
+++ b/src/lightspeed/base/actions/parallelExecutor.cpp
@@ -147,7 +147,7 @@ void ParallelExecutor::execute(const IExecAction &action) {
 			//we still did not try to create new thread
 			if (ct) {
 				//start new one (function will limit to maximum threads)
-				startNewThread();
+				startThreadForAction();
 				//we tried, reset flag
 				ct = false;
 				//use maxWait as timeout
@@ -173,7 +173,7 @@ void ParallelExecutor::execute(const IExecAction &action) {
 		//if there is no thread
 		if (topWorker == 0 || curThreadCount == 0) {
 			//create one!
-			startNewThread();
+			startThreadForAction();
 			//thread created
 			ct = false;
 
@@ -405,6 +405,19 @@ void ParallelExecutor::startNewThread() {
 	}
 }
 
+void ParallelExecutor::startThreadForAction() {
+	try {
+		startNewThread();
+	} catch (...) {
+		//thread was not started, the caller must not leave the action there
+		if (lockExchangePtr<const IExecAction>(&curAction,0) != 0) {
+			writeReleasePtr<ISleepingObject>(&callerNtf,0);
+			throw;
+		}
+		//another thread already took the action, it will be carried out
+	}
+}
+
 bool ParallelExecutor::wakeThread() {
 	return waitPt.notifyOne();
 }
diff --git a/src/lightspeed/base/actions/parallelExecutor.h b/src/lightspeed/base/actions/parallelExecutor.h
index 3bf9df3..68e0822 100644
--- a/src/lightspeed/base/actions/parallelExecutor.h
+++ b/src/lightspeed/base/actions/parallelExecutor.h
@@ -194,6 +194,7 @@ protected:
 
 private:
 	void cleanUp();
+	void startThreadForAction();
 };
 
 } /* namespace LightSpeed */
-- 
2.43.0


From 5bad19edefedea110f84410c457c52b0a357f311 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:26:09 +0000
Subject: [PATCH 080/331] fix: InfParallelExecutor::isRunning reports whether
 an action is running

---
 src/lightspeed/base/actions/InfParallelExecutor.cpp | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/lightspeed/base/actions/InfParallelExecutor.cpp b/src/lightspeed/base/actions/InfParallelExecutor.cpp
index 4652faf..a89e3bd 100644
--- a/src/lightspeed/base/actions/InfParallelExecutor.cpp
+++ b/src/lightspeed/base/actions/InfParallelExecutor.cpp
@@ -56,7 +56,10 @@ void InfParallelExecutor::finish() {
 }
 
 bool InfParallelExecutor::isRunning() const {
-	return !threadPool.empty();
+	for (natural cnt = threadPool.length(), i = 0; i < cnt; i++) {
+		if (threadPool[i]->isRunning()) return true;
+	}
+	return false;
 }
 
 
-- 
2.43.0


From 5d9b29b81f4b3754d0077b8d98228a091a58e957 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:26:17 +0000
Subject: [PATCH 081/331] fix: Thread destroys its function before it is
 reported as finished

---
 src/lightspeed/mt/linux/thread.cpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/lightspeed/mt/linux/thread.cpp b/src/lightspeed/mt/linux/thread.cpp
index 9479463..d002658 100644
--- a/src/lightspeed/mt/linux/thread.cpp
+++ b/src/lightspeed/mt/linux/thread.cpp
@@ -228,9 +228,13 @@ void *ThreadContext::bootstrap(void * data) {
 
 			} catch (...) {
 				if (ctx->owner) AbstractThreadHook::callOnThreadExceptionHooks(*ctx->owner);
+				fn = Message<void>();
 				throw;
 			}
 
+			//destroy the function before the thread is reported as finished
+			fn = Message<void>();
+
 			//thread object can be already destroyed by the function
 			if (ctx->owner) AbstractThreadHook::callOnThreadExitHooks(*ctx->owner);
 
-- 
2.43.0


From 26ce3747545b6e6edd906e10ff9eaf863ab6567d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:40:16 +0000
Subject: [PATCH 082/331] fix: singletons initialized in parallel could be lost
 from the chain of singletons

---
 src/lightspeed/base/memory/singleton.h | 21 ++++++++++++++-------
 1 file changed, 14 insertions(+), 7 deletions(-)

diff --git a/src/lightspeed/base/memory/singleton.h b/src/lightspeed/base/memory/singleton.h
index d7d99ce..10bc11f 100644
--- a/src/lightspeed/base/memory/singleton.h
+++ b/src/lightspeed/base/memory/singleton.h
@@ -16,6 +16,9 @@
 
 namespace LightSpeed {
 
+    bool singletonInitLock( atomic &cnt);
+    void singletonRelease( atomic &cnt);
+
     ///Contains helper classes to implement Singleton class
     namespace _intr {
 
@@ -50,20 +53,24 @@ namespace LightSpeed {
 
                 static SingletonChunkBase *list = 0;
                 static bool atexitRegistered = false;
+                //the chain is shared by all singletons, which can be initialized in parallel
+                static atomic lock = 0;
 
+                singletonInitLock(lock);
+                SingletonChunkBase *res = list;
+                bool doRegister = false;
                 if (append) {
                     append->next = list;
                     list = append;
-                    if (!atexitRegistered) {
-                        atexit(&SingletonAtExit);
-                        atexitRegistered = true;
-                    }
-                    return list;
+                    res = append;
+                    doRegister = !atexitRegistered;
+                    atexitRegistered = true;
                 } else {
-                    SingletonChunkBase *res = list;
                     list = 0;
-                    return res;
                 }
+                singletonRelease(lock);
+                if (doRegister) atexit(&SingletonAtExit);
+                return res;
 
             }
 
-- 
2.43.0


From a9f66695ecb62f9f1a9eb8516d91b54b9582cd4f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:41:08 +0000
Subject: [PATCH 083/331] fix: AbstractResourcePool created more resources than
 its limit and handled limits wrongly

---
 .../base/containers/resourcePool.cpp          | 134 +++++++++---------
 src/lightspeed/base/containers/resourcePool.h |   3 +
 2 files changed, 72 insertions(+), 65 deletions(-)

diff --git a/src/lightspeed/base/containers/resourcePool.cpp b/src/lightspeed/base/containers/resourcePool.cpp
index 27dd54e..ea8f5e6 100644
--- a/src/lightspeed/base/containers/resourcePool.cpp
+++ b/src/lightspeed/base/containers/resourcePool.cpp
@@ -69,79 +69,82 @@ AbstractResource *AbstractResourcePool::acquire() {
 	Synchronized<FastLock> _(SyncPt::queueLock);
 	//reset out
 	AbstractResource *out = 0;
-	do {
-		//if no items in the pool
-		if (pool == 0) {
-			//if still space for new resource
-			if (readAcquire(&curLimit) > 0) {
-				//unlock queue - don't need it anymore
-				SyncReleased<FastLock> __(SyncPt::queueLock);
-				//create new resource
-				AbstractResource *a = createResource();
-				//set resource timeout
-				a->setTimeout(resTimeout);
-				//decrease limit
-				lockDec(curLimit);
-				//this is new resource
-				return a;
-			}
+	//if no items in the pool
+	if (pool == 0) {
+		//if still space for new resource
+		if (curLimit > 0) {
+			//decrease limit - under the lock, so nobody else can take the space
+			lockDec(curLimit);
+		} else {
 			//install slot
 			SyncPt::Slot s;
 			//add slot to queue
 			SyncPt::add_lk(s);
-			{
-				//unlock queue - we will wait
-				SyncReleased<FastLock> __(SyncPt::queueLock);
-				//install timeout
-				Timeout waitT(waitTimeout);
-				//wait for resource
-				SyncPt::wait(s,waitT,SyncPt::interruptOnExit);
-				//try to remove from queue, if successed, timeout
-				if (SyncPt::remove(s)) {
-					//report timeout
-					throw ResourceTimeoutException(THISLOCATION,getResourceName());
-				}
-				//retrieve resource from the slot
-				out = (AbstractResource *)s.payload;
+			//unlock queue - we will wait
+			SyncReleased<FastLock> __(SyncPt::queueLock);
+			//install timeout
+			Timeout waitT(waitTimeout);
+			//wait for resource
+			SyncPt::wait(s,waitT,SyncPt::interruptOnExit);
+			//try to remove from queue, if successed, timeout
+			if (SyncPt::remove(s)) {
+				//report timeout
+				throw ResourceTimeoutException(THISLOCATION,getResourceName());
 			}
-
-		} else {
-			//in case that pool is not empty
-			out = pool;
-			//retrieve from pool and set pool's new head
-			pool = pool->next;
+			//retrieve resource from the slot - null means space for new resource
+			out = (AbstractResource *)s.payload;
 		}
+	} else {
+		//in case that pool is not empty
+		out = pool;
+		//retrieve from pool and set pool's new head
+		pool = pool->next;
+	}
 
-		//check resource expired
-		if (out->expired()) {
-			//if expired, unlock queue
-			SyncReleased<FastLock> __(SyncPt::queueLock);
-			//delete resource
-			delete out;
-			//increase limit
-			lockInc(curLimit);
-			//reset out
-			out = 0;
-		} else  {
-			//set out's timeout
-			out->setTimeout(resTimeout);
+	//unlock queue - don't need it anymore
+	SyncReleased<FastLock> __(SyncPt::queueLock);
+	//check resource expired - its space is used for a new one
+	if (out && out->expired()) {
+		delete out;
+		out = 0;
+	}
+	if (out == 0) {
+		try {
+			//create new resource
+			out = createResource();
+		} catch (...) {
+			//return the space
+			Synchronized<FastLock> _(SyncPt::queueLock);
+			releaseSpace_lk();
+			throw;
 		}
-
-		//repeat if we hase no out
-
-	}while(out == 0);
-	//unlock queue a return out
+	}
+	//set out's timeout
+	out->setTimeout(resTimeout);
 	return out;
 
 }
 
+void AbstractResourcePool::releaseSpace_lk() {
+	//offer the space to a waiting thread, unless there are too many resources
+	SyncPt::Slot *s = curLimit < 0?0:SyncPt::popSlot_lk();
+	if (s == 0) {
+		lockInc(curLimit);
+	} else {
+		s->payload = 0;
+		SyncPt::notifySlot_lk(s);
+	}
+}
+
 void AbstractResourcePool::setLimit(natural newLimit) {
-	if (newLimit > limit) {
-		lockExchangeAdd(curLimit,newLimit - limit);
-		newLimit = limit;
-	} else if (newLimit < limit) {
-		lockExchangeSub(curLimit,limit - curLimit);
-		newLimit = limit;
+	Synchronized<FastLock> _(SyncPt::queueLock);
+	while (limit < newLimit) {
+		limit++;
+		releaseSpace_lk();
+	}
+	while (limit > newLimit) {
+		limit--;
+		lockDec(curLimit);
 	}
 }
 
@@ -154,15 +157,16 @@ natural AbstractResourcePool::getCurLimit() const {
 }
 
 void AbstractResourcePool::release(AbstractResource *a) {
+	//lock queue
+	Synchronized<FastLock> _(SyncPt::queueLock);
 	//check limit, if it is negative, do not store resource
-	if (readAcquire(&curLimit) < 0) {
-		//delete resource
-		delete a;
+	if (curLimit < 0) {
 		//increase limit
 		lockInc(curLimit);
+		SyncReleased<FastLock> __(SyncPt::queueLock);
+		//delete resource
+		delete a;
 	} else {
-		//lock queue
-		Synchronized<FastLock> _(SyncPt::queueLock);
 		//pop slot
 		SyncPt::Slot *s = SyncPt::popSlot_lk();
 		//we poped slot?
diff --git a/src/lightspeed/base/containers/resourcePool.h b/src/lightspeed/base/containers/resourcePool.h
index 05a51df..5d0bb4c 100644
--- a/src/lightspeed/base/containers/resourcePool.h
+++ b/src/lightspeed/base/containers/resourcePool.h
@@ -110,6 +110,9 @@ public:
 	void release(AbstractResource *a);
 	AbstractResource *acquire();
 
+private:
+	///releases the space for one resource - must be called under the lock of the queue
+	void releaseSpace_lk();
 
 };
 
-- 
2.43.0


From bbd8c69a9cb856951377bf9ab406994cd3fcd0de Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:42:24 +0000
Subject: [PATCH 084/331] fix: PoolAlloc freed a block while other thread could
 read it

---
 src/lightspeed/base/memory/poolalloc.h | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/src/lightspeed/base/memory/poolalloc.h b/src/lightspeed/base/memory/poolalloc.h
index d1ff4d2..c91ff2a 100644
--- a/src/lightspeed/base/memory/poolalloc.h
+++ b/src/lightspeed/base/memory/poolalloc.h
@@ -41,8 +41,9 @@ namespace LightSpeed {
 			while (x) {
 				//finally we safety isolate first block
 				if (x->size < objSize) {
-					//to small blocks discard
-					operator delete(x);					
+					//to small blocks discard - memory cannot be released now, because another
+					//thread can just read the block in blockList.pop()
+					discarded.push(x);
 				} else {
 					//block found, return it
 					return &x->next;
@@ -81,6 +82,9 @@ namespace LightSpeed {
 			while (Block *k = blockList.pop()) {
 				operator delete(k);
 			}
+			while (Block *k = discarded.pop()) {
+				operator delete(k);
+			}
 
 		}
 		~PoolAlloc() {
@@ -97,6 +101,8 @@ namespace LightSpeed {
 
 	protected:
 		SList<Block> blockList;
+		///blocks which are too small to be used again
+		SList<Block> discarded;
 		natural largestAlloc;
 		natural destroyed;
 		atomic refs;
-- 
2.43.0


From c581efb2b46252e29c05aff22e4a257bf3c17bee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:42:33 +0000
Subject: [PATCH 085/331] fix: PoolAlloc could allocate a smaller block than
 requested

---
 src/lightspeed/base/memory/poolalloc.h | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/src/lightspeed/base/memory/poolalloc.h b/src/lightspeed/base/memory/poolalloc.h
index c91ff2a..61f7e7d 100644
--- a/src/lightspeed/base/memory/poolalloc.h
+++ b/src/lightspeed/base/memory/poolalloc.h
@@ -51,8 +51,9 @@ namespace LightSpeed {
 				x = blockList.pop();
 			}
 			//no block isolated
-			if (objSize > largestAlloc) largestAlloc = objSize;
-			else if (objSize < largestAlloc) objSize = largestAlloc;
+			natural largest = largestAlloc;
+			if (objSize > largest) largestAlloc = objSize;
+			else objSize = largest;
 			//allocate new one
 
 			x = (Block *)operator new(sizeof(BlockBase) + objSize);
@@ -103,7 +104,7 @@ namespace LightSpeed {
 		SList<Block> blockList;
 		///blocks which are too small to be used again
 		SList<Block> discarded;
-		natural largestAlloc;
+		volatile natural largestAlloc;
 		natural destroyed;
 		atomic refs;
 	};
-- 
2.43.0


From 8d3935962cf4c83cac62cfc50ce5422eb3da4e32 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:43:36 +0000
Subject: [PATCH 086/331] fix: SList::pop threw exception when the popped item
 had been just taken and overwritten by another thread

---
 src/lightspeed/mt/slist.h | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/lightspeed/mt/slist.h b/src/lightspeed/mt/slist.h
index 14971a3..cc3b4b2 100644
--- a/src/lightspeed/mt/slist.h
+++ b/src/lightspeed/mt/slist.h
@@ -73,7 +73,9 @@ namespace LightSpeed {
 				ptop = cookieToPtr(ctop);
 				if (ptop == 0) return 0;
 				T *pnext = safeGetPointerValue(ptop->next);
-				atomic chtop = ptrToCookie(pnext,ctop+1);
+				//item can be already removed by another thread, then 'next' can contain anything
+				//don't check its alignment, lockCompareExchange fails in this case
+				atomic chtop = ((atomicValue)pnext & ~mask) | ((ctop+1) & mask);
 				ntop = lockCompareExchange(_top,ctop,chtop);
 				rep = ntop != ctop;
 			} while (rep);
-- 
2.43.0


From f4c6f9c2843a73afdb2e72c89bb8a2e05d4f47c1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:44:47 +0000
Subject: [PATCH 087/331] fix: TLSTable::setVar used a record of the table
 which the destructor of the previous value reallocated

---
 src/lightspeed/base/sync/threadVar.h | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/lightspeed/base/sync/threadVar.h b/src/lightspeed/base/sync/threadVar.h
index 7829709..71ed30f 100644
--- a/src/lightspeed/base/sync/threadVar.h
+++ b/src/lightspeed/base/sync/threadVar.h
@@ -144,6 +144,8 @@ namespace LightSpeed {
             //do nothing, if you unset the variable outside of range
             if (value == 0 && delFn == 0 && index >= dynamicTable.length())
                 return;
+            //destroy the previous value first - this can change the table
+            unsetVar(index);
             //allocate table, if this is necesery
             if (dynamicTable.length() <= index)
                 dynamicTable.resize(index+1);
-- 
2.43.0


From 8a15f8fb12d5487948fca6fad093871725dde3a0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:44:55 +0000
Subject: [PATCH 088/331] fix: TLSTable::moveTo destroyed the moved values

---
 src/lightspeed/base/sync/threadVar.h | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/src/lightspeed/base/sync/threadVar.h b/src/lightspeed/base/sync/threadVar.h
index 71ed30f..4a6f5f8 100644
--- a/src/lightspeed/base/sync/threadVar.h
+++ b/src/lightspeed/base/sync/threadVar.h
@@ -72,6 +72,12 @@ namespace LightSpeed {
         	return deleteFunct;
         }
 
+        ///forget the value without destroying it
+        void release() {
+        	varPtr = 0;
+        	deleteFunct = 0;
+        }
+
     protected:
 
         mutable void *varPtr;
@@ -166,8 +172,9 @@ namespace LightSpeed {
         virtual void moveTo(ITLSTable &newTable) {
 
         	for (natural i = 0; i < dynamicTable.length(); i++) {
-				const TLSRecord &rc = dynamicTable[i];
+				TLSRecord &rc = dynamicTable(i);
 				newTable.setVar(i,rc.get(),rc.getDestructor());
+				rc.release();
         	}
         	dynamicTable.clear();
         }
-- 
2.43.0


From ca8659cca0a13d184c85eb4e1d65c3ef370f17d8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:45:04 +0000
Subject: [PATCH 089/331] fix: ThreadVar::setValue leaked the value when the
 table could not accept it

---
 src/lightspeed/base/sync/threadVar.h | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/lightspeed/base/sync/threadVar.h b/src/lightspeed/base/sync/threadVar.h
index 4a6f5f8..085d890 100644
--- a/src/lightspeed/base/sync/threadVar.h
+++ b/src/lightspeed/base/sync/threadVar.h
@@ -280,7 +280,12 @@ namespace LightSpeed {
          */
         T * setValue(ITLSTable &table, const T &val) {
         	T * ret = new T(val);
-        	set(table,ret, &deleteFunction<T>);
+        	try {
+        		set(table,ret, &deleteFunction<T>);
+        	} catch (...) {
+        		delete ret;
+        		throw;
+        	}
         	return ret;
         }
 
-- 
2.43.0


From b474cca43d33db246d2898bd1d34248f4a66d371 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:47:01 +0000
Subject: [PATCH 090/331] fix: Scheduler resolved a promise of a removed queue
 item

---
 src/lightspeed/mt/scheduler.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/lightspeed/mt/scheduler.cpp b/src/lightspeed/mt/scheduler.cpp
index 462d170..02b431f 100644
--- a/src/lightspeed/mt/scheduler.cpp
+++ b/src/lightspeed/mt/scheduler.cpp
@@ -32,7 +32,8 @@ namespace LightSpeed {
 			pqheap.pop();
 			pqueue.trunc(1);
 			SyncReleased<FastLock> _(lock);
-			itm.promise.resolve();
+			//itm refers a removed item now
+			p.resolve();
 			return Timeout(0);
 		}
 		else {
-- 
2.43.0


From 9f9bf286afd966174a1b7e661ac9aaa4d6f55fe9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:47:10 +0000
Subject: [PATCH 091/331] fix: Scheduler destroyed its queue before the
 dispatching thread left

---
 src/lightspeed/mt/scheduler.cpp | 6 ++++++
 src/lightspeed/mt/scheduler.h   | 1 +
 2 files changed, 7 insertions(+)

diff --git a/src/lightspeed/mt/scheduler.cpp b/src/lightspeed/mt/scheduler.cpp
index 02b431f..4901b4f 100644
--- a/src/lightspeed/mt/scheduler.cpp
+++ b/src/lightspeed/mt/scheduler.cpp
@@ -12,6 +12,12 @@ namespace LightSpeed {
 
 	}
 
+	Scheduler::~Scheduler()
+	{
+		//the dispatching thread uses the queue of the scheduler
+		join();
+	}
+
 	void Scheduler::schedule(const Timeout &tm, const PromiseV &promise)
 	{
 		if (tm.isInfinite()) throw InvalidParamException(THISLOCATION, 0, "Cannot use infinity time");
diff --git a/src/lightspeed/mt/scheduler.h b/src/lightspeed/mt/scheduler.h
index 55e32c2..4ba9899 100644
--- a/src/lightspeed/mt/scheduler.h
+++ b/src/lightspeed/mt/scheduler.h
@@ -27,6 +27,7 @@ namespace LightSpeed {
 
 		///Create scheduler
 		Scheduler();
+		~Scheduler();
 		///scheduler an event
 		/**
 		  @param tm specifies time when the event will be scheduled. The Timeout object is used, so
-- 
2.43.0


From a14f76589f9354319d56af7dc800328b12ed2340 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:47:17 +0000
Subject: [PATCH 092/331] fix: SchedulerThread measured time by milliseconds
 within the current second

---
 src/lightspeed/mt/msgthread.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/lightspeed/mt/msgthread.cpp b/src/lightspeed/mt/msgthread.cpp
index 5fa8106..94e194a 100644
--- a/src/lightspeed/mt/msgthread.cpp
+++ b/src/lightspeed/mt/msgthread.cpp
@@ -105,7 +105,7 @@ void SchedulerThread::worker()
 
 natural SchedulerThread::getSystemTime() const
 {
-	return SysTime::now().msec();
+	return SysTime::now().msecs();
 }
 natural SchedulerThread::getCurTime() const {return getSystemTime();}
 
-- 
2.43.0


From 7044aed876b7261bfcd12cb864fd4aacc4b2ba98 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:05:35 +0000
Subject: [PATCH 093/331] fix: AllocCluster::dealloc used the size of the
 object instead of the size of the block, blocks were given out twice

---
 src/lightspeed/base/memory/clusterAlloc.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/lightspeed/base/memory/clusterAlloc.cpp b/src/lightspeed/base/memory/clusterAlloc.cpp
index c018337..beef146 100644
--- a/src/lightspeed/base/memory/clusterAlloc.cpp
+++ b/src/lightspeed/base/memory/clusterAlloc.cpp
@@ -59,7 +59,7 @@ void AllocCluster::dealloc( void *ptr, natural sz )
 	natural bksize = objSize2bksize(sz);
 	if (!isMyPtr(ptr,bksize)) throw InvalidPointerException(THISLOCATION,ptr);
 	bool wasFull = isFull();
-	makeDealloc(ptr,sz);
+	makeDealloc(ptr,bksize);
 	if (wasFull || isEmpty())
 		master->onDealloc(this,wasFull);
 }
-- 
2.43.0


From bf5ec914f683493b345f1abad1729b604da9bc3e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:05:42 +0000
Subject: [PATCH 094/331] fix: ClusterAlloc divided by zero when block of size
 zero was allocated

---
 src/lightspeed/base/memory/clusterAlloc.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/lightspeed/base/memory/clusterAlloc.cpp b/src/lightspeed/base/memory/clusterAlloc.cpp
index beef146..a91c5b5 100644
--- a/src/lightspeed/base/memory/clusterAlloc.cpp
+++ b/src/lightspeed/base/memory/clusterAlloc.cpp
@@ -33,6 +33,8 @@ AllocCluster * AllocCluster::create( IRuntimeAlloc &alloc, IMaster *cb, byte cou
 
 natural AllocCluster::objSize2bksize( natural objSize )
 {
+	//empty object needs a block too
+	if (objSize == 0) objSize = 1;
 	natural fs = sizeof(void *);
 	while (objSize < fs) fs>>=1;
 	fs--;
-- 
2.43.0


From c1e8b826bb62eb97635262c8ee3960155aee9768 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:06:42 +0000
Subject: [PATCH 095/331] fix: UTF-8 encoder used longer sequence than
 necessary for the last characters of each range

---
 src/lightspeed/base/streams/utf.cpp | 20 ++++++++++----------
 1 file changed, 10 insertions(+), 10 deletions(-)

diff --git a/src/lightspeed/base/streams/utf.cpp b/src/lightspeed/base/streams/utf.cpp
index 9984d42..fb51f12 100644
--- a/src/lightspeed/base/streams/utf.cpp
+++ b/src/lightspeed/base/streams/utf.cpp
@@ -89,19 +89,19 @@ namespace LightSpeed {
      if (c < 128) {
              fbyte = (char)c;
              parts = 0;
-     } else if (c < 0x7ff) { // xx011 1111 1111
+     } else if (c < 0x800) { // xx011 1111 1111
          fbyte = (char)(c >> 6) | 0xC0;
          parts = 1;
-     } else if (c < 0xffff) {
+     } else if (c < 0x10000) {
          fbyte  = (char)(c >> 12) | 0xE0;
          parts = 2;
-     } else if (c < 0x1fffff) {
+     } else if (c < 0x200000) {
          fbyte = (char)(c >> 18) | 0xF0;
          parts = 3;
-     } else if (c < 0x3ffffff) {
+     } else if (c < 0x4000000) {
          fbyte = (char)(c >> 24) | 0xF8;
          parts = 4;
-     } else if (c < 0x7ffffff) {
+     } else if (c < 0x80000000) {
          fbyte = (char)(c >> 30) | 0xFC;
          parts = 5;
      } else  {
@@ -200,19 +200,19 @@ void WideToUtf8Convert::write(const wchar_t& item) {
     if (c < 128) {
             fbyte = (char)c;
             parts = 0;
-    } else if (c < 0x7ff) { // xx011 1111 1111
+    } else if (c < 0x800) { // xx011 1111 1111
         fbyte = (char)(c >> 6) | 0xC0;
         parts = 1;
-    } else if (c < 0xffff) {
+    } else if (c < 0x10000) {
         fbyte  = (char)(c >> 12) | 0xE0;
         parts = 2;
-    } else if (c < 0x1fffff) {
+    } else if (c < 0x200000) {
         fbyte = (char)(c >> 18) | 0xF0;
         parts = 3;
-    } else if (c < 0x3ffffff) {
+    } else if (c < 0x4000000) {
         fbyte = (char)(c >> 24) | 0xF8;
         parts = 4;
-    } else if (c < 0x7ffffff) {
+    } else if (c < 0x80000000) {
         fbyte = (char)(c >> 30) | 0xFC;
         parts = 5;
     } else  {
-- 
2.43.0


From 67a99cd2a25af101cfefb7efe8d8e7339a5e2878 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:07:22 +0000
Subject: [PATCH 096/331] fix: ConverterBase::blockRead read the source beyond
 its end

---
 src/lightspeed/base/iter/iterConv.h | 11 ++++-------
 1 file changed, 4 insertions(+), 7 deletions(-)

diff --git a/src/lightspeed/base/iter/iterConv.h b/src/lightspeed/base/iter/iterConv.h
index 56103e4..a8436d5 100644
--- a/src/lightspeed/base/iter/iterConv.h
+++ b/src/lightspeed/base/iter/iterConv.h
@@ -409,14 +409,11 @@ inline natural ConverterBase<From, To, Impl>::blockRead(Iter& source, FlatArray&
 	for (natural i = 0; i < avail; i++) {
 		while (!this->hasItems) {
 			if (this->eolb) return i;
-			Super::write(source.getNext());
-			if (!source.hasItems()) {
+			if (source.hasItems()) {
+				Super::write(source.getNext());
+			} else {
 				Super::flush();
-				while (i < avail && this->hasItems) {
-					target[i] = Super::getNext();
-					i++;
-				}
-				return i;
+				if (!this->hasItems) return i;
 			}
 		}
 		target[i] = Super::getNext();
-- 
2.43.0


From 7beea3b9f1f1916d350be6f33b3c3cd2fd599b2c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:08:08 +0000
Subject: [PATCH 097/331] fix: UTF-8 decoder silently ignored byte 0xFF, it is
 invalid

---
 src/lightspeed/base/streams/utf.cpp | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/src/lightspeed/base/streams/utf.cpp b/src/lightspeed/base/streams/utf.cpp
index fb51f12..51c7783 100644
--- a/src/lightspeed/base/streams/utf.cpp
+++ b/src/lightspeed/base/streams/utf.cpp
@@ -55,6 +55,11 @@ namespace LightSpeed {
              accum = a & 0x01, state = 5;
          } else if (a >= 0xFE && a < 0xFF) {
              accum = 0, state = 6;
+         } else {
+			 if (!skipInvChars)
+				throw InvalidUTF8Character(THISLOCATION, a);
+			 accum = a;
+			 state = 0;
          }
      } else {
          if (a >= 0x80 && a < 0xc0) {
@@ -164,6 +169,11 @@ void Utf8ToWideConvert::write(const char& item) {
             outchar = a & 0x01, state = 5;
         } else if (a >= 0xFE && a < 0xFF) {
             outchar = 0, state = 6;
+        } else {
+			 if (!skipInvChars)
+				throw InvalidUTF8Character(THISLOCATION, a);
+			 outchar = a;
+			 state = 0;
         }
     } else {
         if (a >= 0x80 && a < 0xc0) {
-- 
2.43.0


From 77940a14adb84fe051957ffa8b4c481e93adfb60 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:10:53 +0000
Subject: [PATCH 098/331] fix: Base16ToByteConvert and Base32ToByteConvert had
 meaning of caseSensitive inverted, lower case was not decoded

---
 src/lightspeed/utils/base16.cpp | 2 +-
 src/lightspeed/utils/base32.cpp | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/lightspeed/utils/base16.cpp b/src/lightspeed/utils/base16.cpp
index 85e9b5b..d7a0e77 100644
--- a/src/lightspeed/utils/base16.cpp
+++ b/src/lightspeed/utils/base16.cpp
@@ -96,7 +96,7 @@ void Base16ToByteConvert::flush() {
 void Base16ToByteConvert::initTable(ConstStrA t, bool caseSensitive = false) {
 	//for performance reason, do not fill other items, it expects valid format if base64
 
-	if (caseSensitive) {
+	if (!caseSensitive) {
 		for (natural i = 0; i < t.length(); i++) {
 			table[(unsigned int)(toupper(t[i]))] = (byte)(i & 0xF);
 			table[(unsigned int)(tolower(t[i]))] = (byte)(i & 0xF);
diff --git a/src/lightspeed/utils/base32.cpp b/src/lightspeed/utils/base32.cpp
index 8aa8c2b..528d35b 100644
--- a/src/lightspeed/utils/base32.cpp
+++ b/src/lightspeed/utils/base32.cpp
@@ -203,7 +203,7 @@ void Base32ToByteConvert::flush() {
 void Base32ToByteConvert::initTable(ConstStrA t, bool caseSensitive = false) {
 	//for performance reason, do not fill other items, it expects valid format if base64
 
-	if (caseSensitive) {
+	if (!caseSensitive) {
 		for (natural i = 0; i < t.length(); i++) {
 			table[(unsigned int)(toupper(t[i]))] = (byte)(i & 31);
 			table[(unsigned int)(tolower(t[i]))] = (byte)(i & 31);
-- 
2.43.0


From e80c712d90593b09688da9c1bbcf0e56deea2b4d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:11:01 +0000
Subject: [PATCH 099/331] fix: decoders of base16, base32 and base64 returned
 content of uninitialized memory for characters outside of the table

---
 src/lightspeed/utils/base16.cpp | 3 ++-
 src/lightspeed/utils/base32.cpp | 3 ++-
 src/lightspeed/utils/base64.cpp | 3 ++-
 src/lightspeed/utils/base64.h   | 3 ++-
 4 files changed, 8 insertions(+), 4 deletions(-)

diff --git a/src/lightspeed/utils/base16.cpp b/src/lightspeed/utils/base16.cpp
index d7a0e77..0eae15c 100644
--- a/src/lightspeed/utils/base16.cpp
+++ b/src/lightspeed/utils/base16.cpp
@@ -94,7 +94,8 @@ void Base16ToByteConvert::flush() {
 	if (wrpos == 1) write(0);
 }
 void Base16ToByteConvert::initTable(ConstStrA t, bool caseSensitive = false) {
-	//for performance reason, do not fill other items, it expects valid format if base64
+	//other characters are decoded as zero
+	for (natural i = 0; i < 256; i++) this->table[i] = 0;
 
 	if (!caseSensitive) {
 		for (natural i = 0; i < t.length(); i++) {
diff --git a/src/lightspeed/utils/base32.cpp b/src/lightspeed/utils/base32.cpp
index 528d35b..7abf4d6 100644
--- a/src/lightspeed/utils/base32.cpp
+++ b/src/lightspeed/utils/base32.cpp
@@ -201,7 +201,8 @@ void Base32ToByteConvert::flush() {
 	this->eolb = true;
 }
 void Base32ToByteConvert::initTable(ConstStrA t, bool caseSensitive = false) {
-	//for performance reason, do not fill other items, it expects valid format if base64
+	//other characters are decoded as zero
+	for (natural i = 0; i < 256; i++) this->table[i] = 0;
 
 	if (!caseSensitive) {
 		for (natural i = 0; i < t.length(); i++) {
diff --git a/src/lightspeed/utils/base64.cpp b/src/lightspeed/utils/base64.cpp
index db15c56..e02c9e2 100644
--- a/src/lightspeed/utils/base64.cpp
+++ b/src/lightspeed/utils/base64.cpp
@@ -213,7 +213,8 @@ void Base64ToByteConvert::flush() {
 	this->eolb = true;
 }
 void Base64ToByteConvert::initTable(ConstStrA t) {
-	//for performance reason, do not fill other items, it expects valid format if base64
+	//other characters are decoded as zero
+	for (natural i = 0; i < 256; i++) this->table[i] = 0;
 	for (natural i = 0; i < t.length(); i++)
 		table[(unsigned int)(t[i])] = (byte)(i & 63);
 
diff --git a/src/lightspeed/utils/base64.h b/src/lightspeed/utils/base64.h
index c612e68..65d985a 100644
--- a/src/lightspeed/utils/base64.h
+++ b/src/lightspeed/utils/base64.h
@@ -299,8 +299,9 @@ inline void HexDecoder<In, Out>::flush() {
 
 template<typename In , typename Out >
 inline void LightSpeed::HexDecoder<In, Out>::loadHexChars(ConstStrA hexchars) {
+	for (natural i = 0; i < 256; i++) this->hexchars[i] = 0;
 	for (natural i = 0; i < hexchars.length(); i ++) {
-		this->hexchars[(byte)hexchars[i]] = i;
+		this->hexchars[(byte)hexchars[i]] = (byte)i;
 	}
 }
 
-- 
2.43.0


From 3550d6a22d8586e29cd69be391427f72b4535763 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:11:07 +0000
Subject: [PATCH 100/331] fix: ByteToBase32Convert lost the last character when
 padding is disabled

---
 src/lightspeed/utils/base32.cpp | 11 +++++++++--
 src/lightspeed/utils/base32.h   |  3 +++
 2 files changed, 12 insertions(+), 2 deletions(-)

diff --git a/src/lightspeed/utils/base32.cpp b/src/lightspeed/utils/base32.cpp
index 7abf4d6..20d9f43 100644
--- a/src/lightspeed/utils/base32.cpp
+++ b/src/lightspeed/utils/base32.cpp
@@ -32,6 +32,13 @@ ByteToBase32Convert::ByteToBase32Convert(ConstStrA table, char paddingChar)
 }
 
 
+int ByteToBase32Convert::avail() const {
+	int cnt = wrbyte * 8 / 5;
+	//when sequence is finished, there is also character with remaining bits
+	if (this->eolb && wrbyte > 0 && wrbyte < 5) cnt++;
+	return cnt;
+}
+
 const char &ByteToBase32Convert::getNext() {
 	const char &out = outchars[readpos];
 	readpos = readpos+1;
@@ -41,7 +48,7 @@ const char &ByteToBase32Convert::getNext() {
 		needItems = true;
 		hasItems = false;
 	} else {
-		hasItems = readpos < wrbyte*8/5;
+		hasItems = readpos < avail();
 	}
 	return out;
 }
@@ -120,7 +127,7 @@ void ByteToBase32Convert::flush() {
 	}
 
 	//unlock hasItems only if there are chars to read.
-	hasItems = readpos < wrbyte*8/5;
+	hasItems = readpos < avail();
 }
 
 Base32ToByteConvert::Base32ToByteConvert()
diff --git a/src/lightspeed/utils/base32.h b/src/lightspeed/utils/base32.h
index 4c1549c..ea2dda8 100644
--- a/src/lightspeed/utils/base32.h
+++ b/src/lightspeed/utils/base32.h
@@ -76,6 +76,9 @@ namespace LightSpeed {
 		///current read position
 		byte readpos;
 
+		///count of characters ready to read
+		int avail() const;
+
 
 	};
 
-- 
2.43.0


From 245a3a68dde39931e8c1455e30b5b9cbc6626bd7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:11:13 +0000
Subject: [PATCH 101/331] fix: Base32ToByteConvert and Base64ToByteConvert
 asked for items while they were not able to accept them

---
 src/lightspeed/utils/base32.cpp | 2 ++
 src/lightspeed/utils/base64.cpp | 2 ++
 2 files changed, 4 insertions(+)

diff --git a/src/lightspeed/utils/base32.cpp b/src/lightspeed/utils/base32.cpp
index 20d9f43..4b1d02a 100644
--- a/src/lightspeed/utils/base32.cpp
+++ b/src/lightspeed/utils/base32.cpp
@@ -202,6 +202,8 @@ void Base32ToByteConvert::write(const char &item) {
 					 break;
 		}
 		hasItems = readpos < wrpos * 5/8;
+		//no more characters can be written until the block is read
+		needItems = wrpos < 8;
 	}
 }
 void Base32ToByteConvert::flush() {
diff --git a/src/lightspeed/utils/base64.cpp b/src/lightspeed/utils/base64.cpp
index e02c9e2..9a064de 100644
--- a/src/lightspeed/utils/base64.cpp
+++ b/src/lightspeed/utils/base64.cpp
@@ -207,6 +207,8 @@ void Base64ToByteConvert::write(const char &item) {
 					 break;
 		}
 		hasItems = readpos+1 < wrpos;
+		//no more characters can be written until the block is read
+		needItems = wrpos < 4;
 	}
 }
 void Base64ToByteConvert::flush() {
-- 
2.43.0


From b55dd56be5082c6294251e56a2bf888c18fbf305 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:11:19 +0000
Subject: [PATCH 102/331] fix: ByteToBase85Convert::flush offered characters
 although nothing was pending

---
 src/lightspeed/utils/base85.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/lightspeed/utils/base85.cpp b/src/lightspeed/utils/base85.cpp
index 50f0006..b4f1797 100644
--- a/src/lightspeed/utils/base85.cpp
+++ b/src/lightspeed/utils/base85.cpp
@@ -102,10 +102,10 @@ void ByteToBase85Convert::flush() {
 
 		for (natural i = 0; i < remain; i++) write(0);
 		maxreadpos -= remain;
+		this->needItems = false;
+		this->hasItems = true;
 	}
 	this->eolb = true;
-	this->needItems = false;
-	this->hasItems = true;
 }
 
 Base85ToByteConvert::Base85ToByteConvert()
-- 
2.43.0


From 9caa45d41f3577f0851d97db401cef61dfa4636e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:11:25 +0000
Subject: [PATCH 103/331] fix: Base85ToByteConvert::flush read behind the
 buffer when single character remained

---
 src/lightspeed/utils/base85.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/lightspeed/utils/base85.cpp b/src/lightspeed/utils/base85.cpp
index b4f1797..0037bcb 100644
--- a/src/lightspeed/utils/base85.cpp
+++ b/src/lightspeed/utils/base85.cpp
@@ -159,6 +159,8 @@ void Base85ToByteConvert::flush() {
 		for (natural i = 0; i < remain; i++)
 			write(encoder[84]);
 		maxreadpos-=remain;
+		//single character doesn't carry whole byte
+		if (maxreadpos == 0) reset();
 	}
 	this->eolb = true;
 }
-- 
2.43.0


From af0636ba94da6c4d525fa49db055b700e73e3257 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:11:32 +0000
Subject: [PATCH 104/331] fix: Base64DecoderT::flush lost bytes when padding
 was missing

---
 src/lightspeed/utils/base64.tcc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/lightspeed/utils/base64.tcc b/src/lightspeed/utils/base64.tcc
index 8f43dd9..457a973 100644
--- a/src/lightspeed/utils/base64.tcc
+++ b/src/lightspeed/utils/base64.tcc
@@ -145,7 +145,7 @@ Base64DecoderT<Char,Bin>::Base64DecoderT():buffer(0),cycle(0),eos(7) {
 template<typename Char, typename Bin>
 void Base64DecoderT<Char,Bin>::flush() {
 	if (cycle < 4 && cycle > 0) {
-		eos = 7 - cycle;
+		eos = cycle + 3;
 		cycle = 4;
 	}
 }
-- 
2.43.0


From 00ad38fea2d641fe0d95548c5821cc5d9ea11bc1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:11:39 +0000
Subject: [PATCH 105/331] fix: HexDecoder with custom table returned a garbage
 byte first

---
 src/lightspeed/utils/base64.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/lightspeed/utils/base64.h b/src/lightspeed/utils/base64.h
index 65d985a..97e7f95 100644
--- a/src/lightspeed/utils/base64.h
+++ b/src/lightspeed/utils/base64.h
@@ -211,7 +211,7 @@ namespace LightSpeed {
 	class HexDecoder: public IteratorFilterBase<In,Out,HexDecoder<In,Out> > {
 	public:
 		HexDecoder():idx(0) {loadHexChars("0123456789abcdef");}
-		HexDecoder(ConstStrA hexchars):idx(2) {loadHexChars(hexchars);}
+		HexDecoder(ConstStrA hexchars):idx(0) {loadHexChars(hexchars);}
         bool needItems() const;
         void input(const In &x);
         bool hasItems() const;
-- 
2.43.0


From b01cf746677e66ea38b0ab5846217d22a5c16558 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:11:47 +0000
Subject: [PATCH 106/331] fix: HexDecoder::flush used uninitialized second half
 of the byte

---
 src/lightspeed/utils/base64.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/lightspeed/utils/base64.h b/src/lightspeed/utils/base64.h
index 97e7f95..933845b 100644
--- a/src/lightspeed/utils/base64.h
+++ b/src/lightspeed/utils/base64.h
@@ -293,7 +293,7 @@ inline natural HexDecoder<In, Out>::calcToRead(
 
 template<typename In, typename Out>
 inline void HexDecoder<In, Out>::flush() {
-	if (idx == 1) idx++;
+	if (idx == 1) buff[idx++] = 0;
 }
 
 
-- 
2.43.0


From ac3476b4b3b9fb460f7afbc4b5c0ed99320dc250 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:12:01 +0000
Subject: [PATCH 107/331] fix: FilterWrite::blockWrite of mutable array wrote
 only part of it when writeAll was requested

---
 src/lightspeed/base/iter/iteratorFilter.tcc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/lightspeed/base/iter/iteratorFilter.tcc b/src/lightspeed/base/iter/iteratorFilter.tcc
index 79809b1..6b6a4f9 100644
--- a/src/lightspeed/base/iter/iteratorFilter.tcc
+++ b/src/lightspeed/base/iter/iteratorFilter.tcc
@@ -163,7 +163,7 @@ namespace LightSpeed {
     		natural c = flt.blockInput(buffer.offset(pos));
     		pos+=c;
 
-    	} while (!writeAll && pos < buffer.length());
+    	} while (writeAll && pos < buffer.length());
     	//this is need to handle 1:1 filters correctly
         if (!flt.needItems()) flushCycle();
     	return pos;
-- 
2.43.0


From 898720d4d01a5588b06f78113f8d2104896f5147 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:13:28 +0000
Subject: [PATCH 108/331] fix: QueryParser returned an extra empty field, or
 repeated part of the query, when the query contained an empty item

---
 src/lightspeed/utils/queryParser.cpp | 13 ++++++-------
 1 file changed, 6 insertions(+), 7 deletions(-)

diff --git a/src/lightspeed/utils/queryParser.cpp b/src/lightspeed/utils/queryParser.cpp
index 4879e8b..2cb7bb2 100644
--- a/src/lightspeed/utils/queryParser.cpp
+++ b/src/lightspeed/utils/queryParser.cpp
@@ -55,19 +55,18 @@ bool QueryParser::hasItems() const {
 
 void QueryParser::preload() {
 	int ld = 1-_swp;
-	if (!_iter.hasItems()) {
+	ConstStrA itm;
+	//skip empty items
+	while (itm.empty() && _iter.hasItems()) itm = _iter.getNext();
+	if (itm.empty()) {
 		_hasNext = false;
 	} else {
-		ConstStrA itm = _iter.getNext();
 		natural q = itm.find('=');
 		ConstStrA field;
 		ConstStrA val;
 		if (q == naturalNull) {
-			if (itm.empty()) preload();
-			else {
-				field = itm;
-				val = ConstStrA("1");
-			}
+			field = itm;
+			val = ConstStrA("1");
 		} else {
 			field = itm.head(q);
 			val = itm.offset(q+1);
-- 
2.43.0


From edc87fa1b0d505f3bbee4fe811ae2a09efa47ad7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:13:36 +0000
Subject: [PATCH 109/331] fix: QueryParser did not decode names of the fields

---
 src/lightspeed/utils/queryParser.cpp | 5 ++++-
 src/lightspeed/utils/queryParser.h   | 1 +
 2 files changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/lightspeed/utils/queryParser.cpp b/src/lightspeed/utils/queryParser.cpp
index 2cb7bb2..064dbfd 100644
--- a/src/lightspeed/utils/queryParser.cpp
+++ b/src/lightspeed/utils/queryParser.cpp
@@ -75,7 +75,10 @@ void QueryParser::preload() {
 		Filter<UrlDecoder>::Read<ConstStrA::Iterator> rd(val.getFwIter());
 		_tempVal[ld].clear();
 		_tempVal[ld].copy(rd);
-		_tmpResult[ld].name = field;
+		Filter<UrlDecoder>::Read<ConstStrA::Iterator> rdname(field.getFwIter());
+		_tempName[ld].clear();
+		_tempName[ld].copy(rdname);
+		_tmpResult[ld].name = _tempName[ld].getArray();
 		_tmpResult[ld].value = _tempVal[ld].getArray();
 		_swp = ld;
 		_hasNext = true;
diff --git a/src/lightspeed/utils/queryParser.h b/src/lightspeed/utils/queryParser.h
index 363c5ed..0184264 100644
--- a/src/lightspeed/utils/queryParser.h
+++ b/src/lightspeed/utils/queryParser.h
@@ -37,6 +37,7 @@ namespace LightSpeed {
 		ConstStrA _path;
 		ConstStrA _query;
 		AutoArrayStream<char, SmallAlloc<100> > _tempVal[2];
+		AutoArrayStream<char, SmallAlloc<100> > _tempName[2];
 		QueryField _tmpResult[2];
 		ConstStrA::SplitIterator _iter;
 		bool _hasNext;
-- 
2.43.0


From f13eb8ea25f98bc837bc7e90594f42532291ac37 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:20:34 +0000
Subject: [PATCH 110/331] fix: ConstString operator<= with a literal compared
 as >=

---
 src/lightspeed/base/containers/constStr.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/lightspeed/base/containers/constStr.h b/src/lightspeed/base/containers/constStr.h
index 4802116..1139907 100644
--- a/src/lightspeed/base/containers/constStr.h
+++ b/src/lightspeed/base/containers/constStr.h
@@ -225,7 +225,7 @@ namespace LightSpeed {
 	template<typename T, int n>
 	inline bool operator>=(const ConstStringT<T> &c, const T (&str)[n]) {return c >= makeCStr(str); }
 	template<typename T, int n>
-	inline bool operator<=(const ConstStringT<T> &c, const T (&str)[n]) {return c >= makeCStr(str); }
+	inline bool operator<=(const ConstStringT<T> &c, const T (&str)[n]) {return c <= makeCStr(str); }
 	template<typename T, int n>
 	inline bool operator>>(const ConstStringT<T> &c, const T (&str)[n]) {return StrCmpCI<T>()(c,makeCStr(str)) == cmpResultGreater; }
 	template<typename T, int n>
-- 
2.43.0


From f702bbf929f9c93076432c5f9fbceb46e934f67b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:21:01 +0000
Subject: [PATCH 111/331] fix: ArrayT::forEach with a range computed a wrong
 count for a range reaching the end

---
 src/lightspeed/base/containers/arrayt.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/lightspeed/base/containers/arrayt.h b/src/lightspeed/base/containers/arrayt.h
index a9beae9..9891f9f 100644
--- a/src/lightspeed/base/containers/arrayt.h
+++ b/src/lightspeed/base/containers/arrayt.h
@@ -75,7 +75,7 @@ public:
 	bool forEach(Fn functor, natural from, natural count) const {
 		natural l = length();
 		if (from > l) return true;
-		if (from + count > l) count = l - count;
+		if (count > l - from) count = l - from;
 		if (count == 0) return true;
 		return this->_invoke().forEach(functor, from, count);
 	}
-- 
2.43.0


From 2b117c59ebb9f0b5b1379f7d00178475a76da4d7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:21:24 +0000
Subject: [PATCH 112/331] fix: ArrayT::mid overflowed for a huge count

---
 src/lightspeed/base/containers/arrayt.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/lightspeed/base/containers/arrayt.h b/src/lightspeed/base/containers/arrayt.h
index 9891f9f..08ed634 100644
--- a/src/lightspeed/base/containers/arrayt.h
+++ b/src/lightspeed/base/containers/arrayt.h
@@ -261,13 +261,13 @@ public:
 	Mid mid(natural pos, natural count)  {
 		natural l = this->_invoke().length();
 		if (pos >= l) {pos = 0;count = 0;}
-		else if (pos + count > l) count = l - pos;
+		else if (count > l - pos) count = l - pos;
 		return Mid(this->_invoke(),pos,count);
 	}
 	ConstMid mid(natural pos, natural count) const {
 		natural l = this->_invoke().length();
 		if (pos >= l) {pos = 0;count = 0;}
-		else if (pos + count > l) count = l - pos;
+		else if (count > l - pos) count = l - pos;
 		return ConstMid(this->_invoke(),pos,count);
 	}
 	Mid head(natural count) {
-- 
2.43.0


From 64209fff9f618e1ab4d7ee7ed7f4f25c90cc2cfb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:21:47 +0000
Subject: [PATCH 113/331] fix: ArrayT::crop overflowed for huge margins

---
 src/lightspeed/base/containers/arrayt.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/lightspeed/base/containers/arrayt.h b/src/lightspeed/base/containers/arrayt.h
index 08ed634..98a0fc1 100644
--- a/src/lightspeed/base/containers/arrayt.h
+++ b/src/lightspeed/base/containers/arrayt.h
@@ -304,12 +304,12 @@ public:
 	}
 	Mid crop(natural left, natural right) {
 		natural l = this->_invoke().length();
-		if (left+right >= l) return Mid(this->_invoke(),0,0);
+		if (left >= l || right >= l - left) return Mid(this->_invoke(),0,0);
 		else return Mid(this->_invoke(),left,l-right-left);
 	}
 	ConstMid crop(natural left, natural right) const {
 		natural l = this->_invoke().length();
-		if (left+right >= l) return ConstMid(this->_invoke(),0,0);
+		if (left >= l || right >= l - left) return ConstMid(this->_invoke(),0,0);
 		else return ConstMid(this->_invoke(),left,l-right-left);
 	}
 	template<typename Oth>
-- 
2.43.0


From c25f00de10c690ab240336387bf5b8a5e03116d5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:22:12 +0000
Subject: [PATCH 114/331] fix: ArrayT::findOneOf with a position called a
 function which does not exist

---
 src/lightspeed/base/containers/arrayt.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/lightspeed/base/containers/arrayt.h b/src/lightspeed/base/containers/arrayt.h
index 98a0fc1..b71a5e1 100644
--- a/src/lightspeed/base/containers/arrayt.h
+++ b/src/lightspeed/base/containers/arrayt.h
@@ -534,7 +534,7 @@ public:
 
     template<typename Oth>
     natural findOneOf(const ArrayT<T,Oth> &other, natural pos) const{
-    	natural r = offset(pos).findOneof(other);
+    	natural r = offset(pos).findOneOf(other);
     	return r == naturalNull?r:r+pos;
     }
 
-- 
2.43.0


From 29576b9ba40240f740823c2968990e53f9c43173 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:22:36 +0000
Subject: [PATCH 115/331] fix: ArrayT::findLast(item,pos) could not be called

---
 src/lightspeed/base/containers/arrayt.h | 1 -
 1 file changed, 1 deletion(-)

diff --git a/src/lightspeed/base/containers/arrayt.h b/src/lightspeed/base/containers/arrayt.h
index b71a5e1..a93af0b 100644
--- a/src/lightspeed/base/containers/arrayt.h
+++ b/src/lightspeed/base/containers/arrayt.h
@@ -545,7 +545,6 @@ public:
     	return length() - pos - 1;
     }
 
-    template<typename Oth>
     natural findLast(const ItemT &other, natural pos) const{
     	natural r = head(pos).findLast(other);
     	return r;
-- 
2.43.0


From 9377e02c3c0469a473e6ccf055e24c52b660fdeb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:22:55 +0000
Subject: [PATCH 116/331] fix: ArrayT::findLast of a sequence returned the
 position of its last item

---
 src/lightspeed/base/containers/arrayt.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/lightspeed/base/containers/arrayt.h b/src/lightspeed/base/containers/arrayt.h
index a93af0b..294d2e4 100644
--- a/src/lightspeed/base/containers/arrayt.h
+++ b/src/lightspeed/base/containers/arrayt.h
@@ -555,7 +555,7 @@ public:
     natural findLast(const ArrayT<T,Oth> &other) const{
     	natural p = offset(0).reverse().find(other.offset(0).reverse());
     	if (p == naturalNull) return p;
-    	return length() - p - 1;
+    	return length() - p - other.length();
     }
 
 
@@ -569,7 +569,7 @@ public:
     natural findLastArr(const ArrayT<T,Oth> &other) const{
     	natural p = offset(0).reverse().find(other.offset(0).reverse());
     	if (p == naturalNull) return p;
-    	return length() - p - 1;
+    	return length() - p - other.length();
     }
 
     template<typename Oth>
-- 
2.43.0


From 8a7577ea5b64bb6fd500a63b2d5afcc0c5496e03 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:23:24 +0000
Subject: [PATCH 117/331] fix: ArrayT::Iterator seeking beyond the ends

---
 src/lightspeed/base/containers/arrayt.h | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/lightspeed/base/containers/arrayt.h b/src/lightspeed/base/containers/arrayt.h
index 294d2e4..b653226 100644
--- a/src/lightspeed/base/containers/arrayt.h
+++ b/src/lightspeed/base/containers/arrayt.h
@@ -122,12 +122,12 @@ public:
 				case Direction::reversed: return seek(offset,Direction::reverse(dir));
 				case Direction::forward:
 					if (offset == 0) return 0;
-					if (pos + offset > sz) offset = sz - pos;
+					if (offset > sz - pos) offset = sz - pos;
 					pos+=offset;
 					return offset;
 				case Direction::backward:
 					if (offset == 0) return 0;
-					if (pos+1 > 0) offset = pos+1;
+					if (offset > pos+1) offset = pos+1;
 					pos-= offset;
 					return offset;
 				case Direction::absolute:
@@ -147,7 +147,7 @@ public:
 			switch(direction) {
 				case Direction::current:return canSeek(dir);
 				case Direction::reversed:return canSeek(Direction::reverse(dir));
-				case Direction::forward:return pos >= sz;
+				case Direction::forward:return pos != sz;
 				case Direction::backward:return pos != naturalNull;
 				case Direction::absolute:return true;
 				default: return false;
-- 
2.43.0


From 9c4aa3d17f1890a38dad1b935e73b9575e513e7d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:23:50 +0000
Subject: [PATCH 118/331] fix: ArrayT::render to an array skipped the first
 place and stopped after one item

---
 src/lightspeed/base/containers/arrayt.h | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/lightspeed/base/containers/arrayt.h b/src/lightspeed/base/containers/arrayt.h
index b653226..2132c3b 100644
--- a/src/lightspeed/base/containers/arrayt.h
+++ b/src/lightspeed/base/containers/arrayt.h
@@ -480,10 +480,10 @@ private:
     class RenderToArrFunctor {
     public:
     	RenderToArrFunctor(ArrayTRef<T,X> arr, natural &cnt):arr(arr),cnt(cnt),len(arr.length()) {}
-    	bool operator()(const ItemT &x) const {
-    		if (cnt + 1 >= len) return false;
-    		arr(++cnt) = x;
-    		return true;
+    	bool operator()(const ItemT &x) {
+    		if (cnt >= len) return true;
+    		arr.mutableAt(cnt++) = x;
+    		return false;
     	}
     protected:
     	ArrayTRef<T,X> arr;
-- 
2.43.0


From 53b61cc7c39ddcbaf78ecedd1f54362be531fe7f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:24:15 +0000
Subject: [PATCH 119/331] fix: copy of a SplitIterator kept pointing to the
 result of the original

---
 src/lightspeed/base/containers/arrayt.h | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/lightspeed/base/containers/arrayt.h b/src/lightspeed/base/containers/arrayt.h
index 2132c3b..a662338 100644
--- a/src/lightspeed/base/containers/arrayt.h
+++ b/src/lightspeed/base/containers/arrayt.h
@@ -610,6 +610,9 @@ public:
 
 		SplitIterator(ConstRef separator, const ArrayT &subj)
 			:separator(separator),subj(subj),tmpres(new(tmpresbuff) ConstMid(subj,0,0)),pos(0) {}
+		SplitIterator(const SplitIterator &other)
+			:IteratorBase<ConstMid, SplitIterator >(other),separator(other.separator),subj(other.subj)
+			,tmpres(new(tmpresbuff) ConstMid(*other.tmpres)),pos(other.pos) {}
 		~SplitIterator() {
 			tmpres->~ConstMid();
 		}
-- 
2.43.0


From e221765e09dfb57cf9f5320762c9a65d457d0f3c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:24:41 +0000
Subject: [PATCH 120/331] fix: SplitIterator::getRest after the last item
 referred outside of the array

---
 src/lightspeed/base/containers/arrayt.h | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/lightspeed/base/containers/arrayt.h b/src/lightspeed/base/containers/arrayt.h
index a662338..d11e214 100644
--- a/src/lightspeed/base/containers/arrayt.h
+++ b/src/lightspeed/base/containers/arrayt.h
@@ -641,7 +641,9 @@ public:
 
 		///Returns rest of the array
 		const ConstMid &getRest() const {
-			tmpres = new(tmpresbuff) ConstMid(subj, pos, subj.length() - pos);
+			natural from = hasItems()?pos:subj.length();
+			tmpres->~ConstMid();
+			tmpres = new(tmpresbuff) ConstMid(subj, from, subj.length() - from);
 			return *tmpres;
 		}
 
-- 
2.43.0


From c2b691a8577f60a392d6971a1da6c046d2c86fa6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:25:07 +0000
Subject: [PATCH 121/331] fix: ArrSum::forEach visited a wrong part of the
 second array

---
 src/lightspeed/base/containers/arrayExpr.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/lightspeed/base/containers/arrayExpr.h b/src/lightspeed/base/containers/arrayExpr.h
index 1507f65..f19a677 100644
--- a/src/lightspeed/base/containers/arrayExpr.h
+++ b/src/lightspeed/base/containers/arrayExpr.h
@@ -91,7 +91,7 @@ namespace LightSpeed {
 		
 		template<typename Fn>
 		bool forEach(Fn functor) const {
-			return foreach(functor,0,length());
+			return forEach(functor,0,length());
 		}
 
 		template<typename Fn>
@@ -101,7 +101,7 @@ namespace LightSpeed {
 			else if (from + count <= l) return a._invoke().forEach(functor,from,count);
 			else return (
 				a._invoke().forEach(functor,from,l-from) 
-								|| b._invoke().forEach(functor,0,count - l));
+								|| b._invoke().forEach(functor,0,count - (l - from)));
 
 		}
 		
-- 
2.43.0


From ce3a3a4ab5a89d6960058db1f30045ec91227b65 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:25:31 +0000
Subject: [PATCH 122/331] fix: ArrMid::empty returned the opposite

---
 src/lightspeed/base/containers/arrayExpr.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/lightspeed/base/containers/arrayExpr.h b/src/lightspeed/base/containers/arrayExpr.h
index f19a677..b46731a 100644
--- a/src/lightspeed/base/containers/arrayExpr.h
+++ b/src/lightspeed/base/containers/arrayExpr.h
@@ -153,7 +153,7 @@ namespace LightSpeed {
 		}
 	
 		bool empty() const {
-			return len > 0;
+			return len == 0;
 		}
 
 		ArrRef a;
-- 
2.43.0


From 965efe647004c84d87ca9afcecdf9717d139e2a0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:26:08 +0000
Subject: [PATCH 123/331] fix: ArrayT::repeat did not compile for a constant
 array and divided by zero for an empty one

---
 src/lightspeed/base/containers/arrayExpr.h | 1 +
 src/lightspeed/base/containers/arrayt.h    | 4 ++--
 2 files changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/lightspeed/base/containers/arrayExpr.h b/src/lightspeed/base/containers/arrayExpr.h
index b46731a..bf46abe 100644
--- a/src/lightspeed/base/containers/arrayExpr.h
+++ b/src/lightspeed/base/containers/arrayExpr.h
@@ -257,6 +257,7 @@ namespace LightSpeed {
 
 		template<typename Fn>
 		bool forEach(Fn functor, natural from, natural count) const {
+			if (count == 0) return false;
 			natural l = a.length(), k = from % l;
 			while (k + count > l) {
 				if (a.forEach(functor,k,l-k)) return true;
diff --git a/src/lightspeed/base/containers/arrayt.h b/src/lightspeed/base/containers/arrayt.h
index d11e214..746214d 100644
--- a/src/lightspeed/base/containers/arrayt.h
+++ b/src/lightspeed/base/containers/arrayt.h
@@ -388,11 +388,11 @@ public:
 
 
 	Rep repeat(natural count) {
-		return Rep(*this, count);
+		return Rep(this->_invoke(), count);
 	}
 
 	ConstRep repeat(natural count) const {
-		return Rep(*this, count);
+		return ConstRep(this->_invoke(), count);
 	}
 	ArrayTRef<T,Impl &> ref() {
 		return ArrayTRef<T,Impl &>(this->_invoke());
-- 
2.43.0


From 1f8cb905210ff18675ab7aba47a470373ef344cf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:28:21 +0000
Subject: [PATCH 124/331] fix: code page conversions had source and target
 encoding swapped

---
 src/lightspeed/base/linux/string.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/lightspeed/base/linux/string.cpp b/src/lightspeed/base/linux/string.cpp
index 4fedd7b..73633a6 100644
--- a/src/lightspeed/base/linux/string.cpp
+++ b/src/lightspeed/base/linux/string.cpp
@@ -54,7 +54,7 @@ CompareResult StrCmpCI<wchar_t>::operator()(const ConstStringT<wchar_t> &a, cons
 
 
 void  convertWideToCP(ConstStrW input, ICharConvertOutput<char> &output, CodePageDef cp) {
-	iconv_t iconvHndl = iconv_open("WCHAR_T", cp);
+	iconv_t iconvHndl = iconv_open(cp, "WCHAR_T");
 	if (iconvHndl == (iconv_t)-1)
 		throw UnknownCodePageException(THISLOCATION,cp,errno);
 
@@ -81,7 +81,7 @@ void  convertWideToCP(ConstStrW input, ICharConvertOutput<char> &output, CodePag
 }
 void convertCPToWide(ConstStrA input, ICharConvertOutput<wchar_t> &output, CodePageDef cp) {
 
-	iconv_t iconvHndl = iconv_open( cp, "WCHAR_T");
+	iconv_t iconvHndl = iconv_open("WCHAR_T", cp);
 	if (iconvHndl == (iconv_t)-1)
 		throw UnknownCodePageException(THISLOCATION,cp,errno);
 
-- 
2.43.0


From 741cac403c6bb717cb121ddc66d2bc394a099503 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:28:27 +0000
Subject: [PATCH 125/331] fix: code page conversion wrote unused space of its
 buffer

---
 src/lightspeed/base/linux/string.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/lightspeed/base/linux/string.cpp b/src/lightspeed/base/linux/string.cpp
index 73633a6..4d441d3 100644
--- a/src/lightspeed/base/linux/string.cpp
+++ b/src/lightspeed/base/linux/string.cpp
@@ -68,7 +68,7 @@ void  convertWideToCP(ConstStrW input, ICharConvertOutput<char> &output, CodePag
 	while (iconv(iconvHndl,&iconvin,&iconvinsz,&iconvout,&iconvoutsz) == (size_t)-1) {
 		int err = errno;
 		if (err == E2BIG) {
-			output(ConstStrA(buff,buffsz ));
+			output(ConstStrA(buff,buffsz - iconvoutsz));
 			iconvout = buff;
 			iconvoutsz = buffsz ;
 		} else  {
@@ -95,7 +95,7 @@ void convertCPToWide(ConstStrA input, ICharConvertOutput<wchar_t> &output, CodeP
 	while (iconv(iconvHndl,&iconvin,&iconvinsz,&iconvout,&iconvoutsz) == (size_t)-1) {
 		int err = errno;
 		if (err == E2BIG) {
-			output(ConstStrW(buff,buffsz ));
+			output(ConstStrW(buff,buffsz - (iconvoutsz/sizeof(wchar_t))));
 			iconvout = reinterpret_cast<char *>(buff);
 			iconvoutsz = buffsz * sizeof(wchar_t);
 		} else  {
-- 
2.43.0


From 5031db3a23b9339fe1b8e324bbd14a2b85510607 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:28:35 +0000
Subject: [PATCH 126/331] fix: cStr of a wide string tested only one byte of
 the following character

---
 src/lightspeed/base/linux/string.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/lightspeed/base/linux/string.cpp b/src/lightspeed/base/linux/string.cpp
index 4d441d3..10e9aab 100644
--- a/src/lightspeed/base/linux/string.cpp
+++ b/src/lightspeed/base/linux/string.cpp
@@ -141,7 +141,7 @@ const wchar_t * cStr( ConstStrW source, StringW &tmp )
 	if (source.empty()) return zeroStringW;
 	const wchar_t *p = source.data() + source.length();
 	wchar_t zero = 0;
-	if (safeCompareMemory(p,&zero,sizeof(char))) return source.data();
+	if (safeCompareMemory(p,&zero,sizeof(wchar_t))) return source.data();
 	else {
 		tmp = source;
 		return tmp.c_str();
-- 
2.43.0


From 0803be2afdb7efee122d8c6ba23da5c9e498d6be Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:28:45 +0000
Subject: [PATCH 127/331] fix: StringPool::add from an iterator counted the
 terminating zero as a character

---
 src/lightspeed/base/containers/stringpool.tcc | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/lightspeed/base/containers/stringpool.tcc b/src/lightspeed/base/containers/stringpool.tcc
index 9da64ce..77cf96a 100644
--- a/src/lightspeed/base/containers/stringpool.tcc
+++ b/src/lightspeed/base/containers/stringpool.tcc
@@ -73,6 +73,7 @@ template<typename X>
 inline typename StringPool<T, Alloc>::Str StringPool<T, Alloc>::add(IIterator<T, X>& iter) {
 	natural k = pool.length();
 	while (iter.hasItems()) pool.add(iter.getNext());
+	natural e = pool.length();
 	poolRef = pool.data();
 	if (StringBase<T>::needZeroChar) {
 		typename
@@ -80,7 +81,7 @@ inline typename StringPool<T, Alloc>::Str StringPool<T, Alloc>::add(IIterator<T,
 		StringBase<T>::writeZeroChar(iter);
 	}
 	poolRef = pool.data();
-	return Str(&poolRef,k,pool.length() - k);
+	return Str(&poolRef,k,e - k);
 }
 
 template<typename T, typename Alloc >
-- 
2.43.0


From b2abbb2a39ce5dfe3723b0c8f1ba2442a5019960 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:30:28 +0000
Subject: [PATCH 128/331] fix: StringCore::createBuffer returned a copy without
 the terminating zero

---
 src/lightspeed/base/containers/stringBase.h | 12 ++++++++----
 1 file changed, 8 insertions(+), 4 deletions(-)

diff --git a/src/lightspeed/base/containers/stringBase.h b/src/lightspeed/base/containers/stringBase.h
index f1b916a..b171718 100644
--- a/src/lightspeed/base/containers/stringBase.h
+++ b/src/lightspeed/base/containers/stringBase.h
@@ -299,14 +299,18 @@ namespace LightSpeed {
 		}
 
 		T *createBuffer(natural count) {
-			WriteIterator iter = createBufferIter(count);
-			strBuff->init(count);
+			{
+				WriteIterator iter = createBufferIter(count);
+				strBuff->init(count);
+			}
 			return data();
 		}
 
 		T *createBuffer(natural count, IRuntimeAlloc &alloc) {
-			WriteIterator iter = createBufferIter(count,alloc);
-			strBuff->init(count);
+			{
+				WriteIterator iter = createBufferIter(count,alloc);
+				strBuff->init(count);
+			}
 			return data();
 		}
 
-- 
2.43.0


From 1f2dbb8abdc7e2a6ed1ae2c3c405209cd4e0a2e3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:38:37 +0000
Subject: [PATCH 129/331] fix: LZW decoder kept the dictionary of the previous
 block after end of data

---
 src/lightspeed/utils/lzw.tcc | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/lightspeed/utils/lzw.tcc b/src/lightspeed/utils/lzw.tcc
index 6601601..7c27e7a 100644
--- a/src/lightspeed/utils/lzw.tcc
+++ b/src/lightspeed/utils/lzw.tcc
@@ -172,8 +172,8 @@ void LZWDecompressBase<Impl>::write(const byte& b) {
 			accum = 0;
 			//signal logical end
 			this->eolb = true;
-			//reset previous code, this allows to start new stream with same dictionary
-			prevCode=null;
+			//reset the dictionary, compressor starts each stream with an empty dictionary
+			clearDict();
 		} else {
 			ChainCode nextCode(dict.length()+firstChainCode);
 			if (code < 256) {
-- 
2.43.0


From ea0397ceb4e787cebf13765ed2d9f4e2781af821 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:38:38 +0000
Subject: [PATCH 130/331] fix: LZW compressor added a stray byte after a block
 which ends on a byte boundary

---
 src/lightspeed/utils/lzw.tcc | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/lightspeed/utils/lzw.tcc b/src/lightspeed/utils/lzw.tcc
index 7c27e7a..51e4f7e 100644
--- a/src/lightspeed/utils/lzw.tcc
+++ b/src/lightspeed/utils/lzw.tcc
@@ -287,6 +287,7 @@ bool LZWCompressBase<Impl>::OutBuff::hasItems() const {
 
 template<typename Impl>
 void LZWCompressBase<Impl>::OutBuff::padzeroes() {
+	if (wrbits == 8) return;
 	outbuff[wrpos] = accum ;
 	wrpos = (wrpos + 1) & 0xF;
 	wrbits = 8;
-- 
2.43.0


From a2410ca57d0b2d6f093881fe61b6c7d1d11adae1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:38:38 +0000
Subject: [PATCH 131/331] fix: LZWp decoder changed the code width too early
 when the dictionary was optimized

---
 src/lightspeed/utils/lzw.cpp | 2 +-
 src/lightspeed/utils/lzw.tcc | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/lightspeed/utils/lzw.cpp b/src/lightspeed/utils/lzw.cpp
index 9de3fb3..49d9462 100644
--- a/src/lightspeed/utils/lzw.cpp
+++ b/src/lightspeed/utils/lzw.cpp
@@ -139,7 +139,7 @@ void LZWpDecompress::optimizeDictionary() {
 			}
 			optTable(i) = nextCode;
 			newTable.add(CodeInfo(bout, prevCode));
-			if (nextCode+1 == (1 << codeBits)) {
+			if (nextCode == (1 << codeBits)) {
 				codeBits++;
 			}
 			nextCode++;
diff --git a/src/lightspeed/utils/lzw.tcc b/src/lightspeed/utils/lzw.tcc
index 51e4f7e..ea634d4 100644
--- a/src/lightspeed/utils/lzw.tcc
+++ b/src/lightspeed/utils/lzw.tcc
@@ -205,7 +205,7 @@ void LZWDecompressBase<Impl>::write(const byte& b) {
 				return;
 			}
 			prevCode = code;
-			if (nextCode+1 == (1 << codeBits)) {
+			if (dict.length()+firstChainCode == (natural(1) << codeBits)) {
 				codeBits++;
 			}
 			this->hasItems = true;
-- 
2.43.0


From 8eefa54e787b41e1d2c6478f262d39eaf4cc5f0c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:38:38 +0000
Subject: [PATCH 132/331] fix: LZWp decoder read outside of a short dictionary
 at the clear code

---
 src/lightspeed/utils/lzw.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/lightspeed/utils/lzw.cpp b/src/lightspeed/utils/lzw.cpp
index 49d9462..f991108 100644
--- a/src/lightspeed/utils/lzw.cpp
+++ b/src/lightspeed/utils/lzw.cpp
@@ -121,7 +121,7 @@ void LZWpDecompress::optimizeDictionary() {
 
 	this->codeBits = 9;
 	ChainCode curCode(this->dict.length()+firstChainCode);
-	natural maxDict = this->dict.length()-lzwpDictSpace;
+	natural maxDict = this->dict.length()>lzwpDictSpace?this->dict.length()-lzwpDictSpace:0;
 	optTable.resize(curCode,0);
 	ChainCode nextCode(firstChainCode);
 
-- 
2.43.0


From e7d23b552f4650ed1f6cfb29e021a70620bfe284 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:38:38 +0000
Subject: [PATCH 133/331] fix: LZW compressor with less than 9 bits never
 cleared its dictionary

---
 src/lightspeed/utils/lzw.tcc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/lightspeed/utils/lzw.tcc b/src/lightspeed/utils/lzw.tcc
index ea634d4..ea5b81f 100644
--- a/src/lightspeed/utils/lzw.tcc
+++ b/src/lightspeed/utils/lzw.tcc
@@ -21,7 +21,7 @@ LZWCompressBase<Impl>::LZWCompressBase(natural maxBits)
 	,curChainCode(nullChainCode)
 	,obits(0)
 	,codeBits(initialBits)
-	,maxChainCode((1 << ((maxBits>maxAllowedBits?maxAllowedBits:maxBits))) - 4) {
+	,maxChainCode((1 << (maxBits>maxAllowedBits?maxAllowedBits:maxBits<initialBits?initialBits:maxBits)) - 4) {
 }
 
 template<typename Impl>
-- 
2.43.0


From f438147c0999be248e900871f8a3aaa5cb129bb5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:50:38 +0000
Subject: [PATCH 134/331] fix: JSON parser refused a text which is a number of
 one digit

---
 src/lightspeed/utils/json/jsonparser.tcc | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/lightspeed/utils/json/jsonparser.tcc b/src/lightspeed/utils/json/jsonparser.tcc
index c7c3c09..cb5f3de 100644
--- a/src/lightspeed/utils/json/jsonparser.tcc
+++ b/src/lightspeed/utils/json/jsonparser.tcc
@@ -207,11 +207,11 @@ template<typename T>
 PNode Parser<T>::parseValue(char firstChar) {
 
 	strBuff.clear();
-	char c = iter.peek();
+	char c = iter.hasItems()?iter.peek():0;
 	if (isspace(firstChar)) {
 		while(isspace(c)) {
 			iter.skip();
-			c = iter.peek();
+			c = iter.hasItems()?iter.peek():0;
 		}
 	} else {
 		strBuff.add(firstChar);
-- 
2.43.0


From 73448a6b6634af6b887df920082983ec5bca5eb9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:50:46 +0000
Subject: [PATCH 135/331] fix: JSON parser returned a wrong value for an
 integer out of range

---
 src/lightspeed/utils/json/jsonparser.tcc | 37 ++++++++++++++----------
 1 file changed, 22 insertions(+), 15 deletions(-)

diff --git a/src/lightspeed/utils/json/jsonparser.tcc b/src/lightspeed/utils/json/jsonparser.tcc
index cb5f3de..f7722b4 100644
--- a/src/lightspeed/utils/json/jsonparser.tcc
+++ b/src/lightspeed/utils/json/jsonparser.tcc
@@ -228,23 +228,30 @@ PNode Parser<T>::parseValue(char firstChar) {
 	}
 
 	if (isFloat == false) {
-		AutoArray<char>::Iterator iter = strBuff.getFwIter();
-		if (strBuff.length() <= ((sizeof(integer)*10000+1818)/3636)) {
-			integer x;
-			if (!parseSignedNumber(iter,x,10) || iter.hasItems())
+		natural len = strBuff.length();
+		natural pos = 0;
+		bool neg = false;
+		bool overflow = false;
+		lnatural x = 0;
+		if (pos < len && (strBuff[pos] == '-' || strBuff[pos] == '+')) neg = strBuff[pos++] == '-';
+		if (pos >= len) throw ParseError_t(THISLOCATION,strBuff);
+		for (;pos < len; pos++) {
+			if (strBuff[pos] < '0' || strBuff[pos] > '9')
 				throw ParseError_t(THISLOCATION,strBuff);
-			if (x == 0) {
-				if (sharedZero == null) sharedZero = factory->newValue((natural)0);
-				return sharedZero;
-			} else {
-				return factory->newValue(x);
-			}
-		} else if (strBuff.length() <= ((sizeof(linteger)*10000+1818)/3636)) {
-			linteger x;
-			if (!parseSignedNumber(iter,x,10) || iter.hasItems())
-				throw ParseError_t(THISLOCATION,strBuff);
-			return factory->newValue(x);
+			lnatural digit = strBuff[pos] - '0';
+			if (x > (((lnatural)-1) - digit) / 10) overflow = true;
+			x = x * 10 + digit;
+		}
+		if (!overflow && x == 0) {
+			if (sharedZero == null) sharedZero = factory->newValue((natural)0);
+			return sharedZero;
+		}
+		linteger sx = (linteger)(neg?0-x:x);
+		if (!overflow && (sx < 0) == neg) {
+			if ((linteger)(integer)sx == sx) return factory->newValue((integer)sx);
+			else return factory->newValue(sx);
 		}
+		//number out of range is stored as floating-point
 	}
 
 	double v = ::LightSpeed::_intr::stringToFloatNumber<double>(strBuff);
-- 
2.43.0


From 4223f4d175f9204c03563a56049686186a9c463c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:50:53 +0000
Subject: [PATCH 136/331] fix: JSON parser did not combine an escaped surrogate
 pair to one character

---
 src/lightspeed/utils/json/jsonparser.tcc | 18 ++++++++++++++++--
 1 file changed, 16 insertions(+), 2 deletions(-)

diff --git a/src/lightspeed/utils/json/jsonparser.tcc b/src/lightspeed/utils/json/jsonparser.tcc
index f7722b4..25849d5 100644
--- a/src/lightspeed/utils/json/jsonparser.tcc
+++ b/src/lightspeed/utils/json/jsonparser.tcc
@@ -59,10 +59,13 @@ PNode Parser<T>::parseString() {
 
 template<typename T>
 void Parser<T>::parseRawString() {
-	char x = iter.getNext();
+		char x = iter.getNext();
+		natural surrogate = 0;
 		strBuff.clear();
 		while (x != '"') {
-			if (x != '\\') {
+			natural prevSurrogate = surrogate;
+			surrogate = 0;
+if (x != '\\') {
 				strBuff.add(x);
 			} else {
 				x = iter.getNext();
@@ -89,6 +92,17 @@ void Parser<T>::parseRawString() {
 								}
 							}
 							wchar_t wy = (wchar_t)::LightSpeed::_intr::stringToUnsignedNumber<natural>(buff,16);
+							if (wy >= 0xDC00 && wy <= 0xDFFF && prevSurrogate) {
+								natural cp = 0x10000 + ((prevSurrogate - 0xD800) << 10) + (wy - 0xDC00);
+								strBuff.resize(strBuff.length() - 3); //remove the first half
+								strBuff.add((char)(0xF0 | (cp >> 18)));
+								strBuff.add((char)(0x80 | ((cp >> 12) & 0x3F)));
+								strBuff.add((char)(0x80 | ((cp >> 6) & 0x3F)));
+								strBuff.add((char)(0x80 | (cp & 0x3F)));
+								x = iter.getNext();
+								continue;
+							}
+							if (wy >= 0xD800 && wy <= 0xDBFF) surrogate = wy;
 							WideToUtf8Filter flt;
 							flt.input(wy);
 							while (flt.hasItems()) strBuff.add(flt.output());
-- 
2.43.0


From 1d4e7d58ce15c09eca5c2fc00fe8ee66af664abb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:51:03 +0000
Subject: [PATCH 137/331] fix: JSON serializer escaped a character above U+FFFF
 to more than four digits

---
 src/lightspeed/utils/json/jsonserializer.h   |  1 +
 src/lightspeed/utils/json/jsonserializer.tcc | 24 +++++++++++++-------
 2 files changed, 17 insertions(+), 8 deletions(-)

diff --git a/src/lightspeed/utils/json/jsonserializer.h b/src/lightspeed/utils/json/jsonserializer.h
index 0a9f43f..aea9c3d 100644
--- a/src/lightspeed/utils/json/jsonserializer.h
+++ b/src/lightspeed/utils/json/jsonserializer.h
@@ -64,6 +64,7 @@ protected:
 	void serializeFloat(const INode *json);
 	void serializeInt(const INode *json);
 	void serializeCustom(const INode *json);
+	void writeEscaped(natural c);
 
 	IWriteIterator<char, T> &iter;
 	bool escapeUTF8;
diff --git a/src/lightspeed/utils/json/jsonserializer.tcc b/src/lightspeed/utils/json/jsonserializer.tcc
index fa2ec77..d611d05 100644
--- a/src/lightspeed/utils/json/jsonserializer.tcc
+++ b/src/lightspeed/utils/json/jsonserializer.tcc
@@ -85,16 +85,26 @@ void Serializer<T>::serializeString(ConstStrW str) {
 	for (ConstStrW::Iterator oiter = str.getFwIter(); oiter.hasItems();) {
 		wchar_t c = oiter.getNext();
 		if (c > 0x7F) {
-			TextOut<IWriteIterator<char, T> &, StaticAlloc<32> > fmt(iter);
-			fmt.setBase(16);
-			fmt("\\u%{04}1") << (unsigned int)c;
-		} else {
+				writeEscaped(c);
+			} else {
 			writeChar<char>((char)c,iter);
 		}
 	}
 	iter.write('"');
 }
 
+template<typename T>
+void Serializer<T>::writeEscaped(natural c) {
+	if (c > 0xFFFF) {
+		writeEscaped(0xD800 + ((c - 0x10000) >> 10));
+		writeEscaped(0xDC00 + ((c - 0x10000) & 0x3FF));
+	} else {
+		TextOut<IWriteIterator<char, T> &, StaticAlloc<32> > fmt(iter);
+		fmt.setBase(16);
+		fmt("\\u%{04}1") << (unsigned int)c;
+	}
+}
+
 template<typename T>
 void Serializer<T>::serializeStringEscUTF(ConstStrA str) {
 	iter.write('"');
@@ -108,10 +118,8 @@ void Serializer<T>::serializeStringEscUTF(ConstStrA str) {
 				flt.flush();
 				while (flt.hasItems()) {
 					wchar_t cu = flt.output();
-					TextOut<IWriteIterator<char, T> &, StaticAlloc<32> > fmt(iter);
-					fmt.setBase(16);
-					fmt("\\u%{04}1") << (unsigned int)cu;
-				}
+						writeEscaped(cu);
+}
 			} catch (Exception &e) {
 				throw SerializeError_t(THISLOCATION,str) << e;
 			}
-- 
2.43.0


From 1c08de1b9edd7248ff8a0d21b080077c779443bd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:51:28 +0000
Subject: [PATCH 138/331] fix: JSON serializer lost precision of small numbers,
 truncated large ones and wrote nan and inf

---
 src/lightspeed/utils/json/jsonserializer.tcc | 20 ++++++++++++++++++--
 1 file changed, 18 insertions(+), 2 deletions(-)

diff --git a/src/lightspeed/utils/json/jsonserializer.tcc b/src/lightspeed/utils/json/jsonserializer.tcc
index d611d05..02bc6d3 100644
--- a/src/lightspeed/utils/json/jsonserializer.tcc
+++ b/src/lightspeed/utils/json/jsonserializer.tcc
@@ -177,8 +177,24 @@ void Serializer<T>::serializeString(const INode *json) {
 template<typename T>
 void Serializer<T>::serializeFloat(const INode *json) {
 
-	TextOut<IWriteIterator<char, T> &, StaticAlloc<140> > fmt(iter);
-	fmt() << json->getFloat();
+	double v = json->getFloat();
+	if (!(v - v == 0)) {
+		//JSON has no infinity and no NaN
+		iter.blockWrite(ConstStrA(strNull));
+		return;
+	}
+	//decimal form is used unless the value would be changed by it
+	if (v > -1e60 && v < 1e60) {
+		ToString<double> txt(v,6);
+		if (::LightSpeed::_intr::stringToFloatNumber<double>(txt) == v) {
+			iter.blockWrite(ConstStrA(txt));
+			return;
+		}
+	}
+	ToString<double> txt(v,-17);
+	iter.blockWrite(ConstStrA(txt));
+	if (txt.find('.') == naturalNull && txt.find('e') == naturalNull)
+		iter.blockWrite(ConstStrA(".0"));
 }
 
 
-- 
2.43.0


From 189b8b34ba63345700ac07321b64a8c11ae44f13 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:51:35 +0000
Subject: [PATCH 139/331] fix: JSON empty string and zero were equal to values
 of other types

---
 src/lightspeed/utils/json/json.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/lightspeed/utils/json/json.cpp b/src/lightspeed/utils/json/json.cpp
index d5a6132..79a4d62 100644
--- a/src/lightspeed/utils/json/json.cpp
+++ b/src/lightspeed/utils/json/json.cpp
@@ -721,7 +721,7 @@ Value EmptyString::clone(PFactory f) const {
 }
 
 bool EmptyString::operator==(const INode &other)const {
-	return !other.getBool();
+	return other.getType() == ndString && (other.isUtf8()?other.getStringUtf8().empty():other.getString().empty());
 }
 
 
@@ -732,7 +732,7 @@ Value ZeroNumber::clone(PFactory f) const {
 
 bool ZeroNumber::operator==(const INode &other)const {
 	if (other.getType() == ndInt) return other.getLongInt() == 0;
-	else return other.getFloat() == 0;
+	else return other.getType() == ndFloat && other.getFloat() == 0;
 }
 
 
-- 
2.43.0


From 81af7686225738c1d878ecdb88c8820e576a0757 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:52:21 +0000
Subject: [PATCH 140/331] fix: JSON unsigned numbers above the signed range
 turned negative; equal integers of different width differed

---
 src/lightspeed/utils/json/json.cpp           | 20 +++++++++-------
 src/lightspeed/utils/json/jsonimpl.h         | 24 ++++++++++++++++++--
 src/lightspeed/utils/json/jsonparser.tcc     |  1 +
 src/lightspeed/utils/json/jsonserializer.tcc |  3 ++-
 4 files changed, 37 insertions(+), 11 deletions(-)

diff --git a/src/lightspeed/utils/json/json.cpp b/src/lightspeed/utils/json/json.cpp
index 79a4d62..2120f6d 100644
--- a/src/lightspeed/utils/json/json.cpp
+++ b/src/lightspeed/utils/json/json.cpp
@@ -374,15 +374,13 @@ Value IntField64::clone(PFactory factory) const {
 }
 
 bool IntField::operator==(const INode &other) const {
-	const IntField *t = dynamic_cast<const IntField *>(&other);
-	if (t == 0) return false;
-	else return x == t->x;
+	return other.getType() == ndInt && other.getLongInt() == x
+			&& (other.getFloat() < 0) == (getFloat() < 0);
 }
 
 bool IntField64::operator==(const INode &other) const {
-	const IntField64 *t = dynamic_cast<const IntField64 *>(&other);
-	if (t == 0) return false;
-	else return x == t->x;
+	return other.getType() == ndInt && other.getLongInt() == x
+			&& (other.getFloat() < 0) == (getFloat() < 0);
 }
 
 TextFieldA *FloatField::createTextNode() const {
@@ -475,10 +473,16 @@ INode * AbstractNode_t::add( ConstStrA name, PNode newNode )
 
 
 Value Factory::createObject() {return new Object;}
-Value Factory::createNumber(natural v) {return new IntField(v);}
+Value Factory::createNumber(natural v) {
+	if ((integer)v < 0) return new UIntField<IntField,natural>(v);
+	return new IntField(v);
+}
 Value Factory::createNumber(integer v) {return new IntField(v);}
 #ifdef LIGHTSPEED_HAS_LONG_TYPES
-PNode Factory::createNumber(lnatural v) {return new IntField64(v);}
+PNode Factory::createNumber(lnatural v) {
+	if ((linteger)v < 0) return new UIntField<IntField64,lnatural>(v);
+	return new IntField64(v);
+}
 PNode Factory::createNumber(linteger v) {return new IntField64(v);}
 #endif
 Value Factory::createNumber(float v) {return new FloatField(v);}
diff --git a/src/lightspeed/utils/json/jsonimpl.h b/src/lightspeed/utils/json/jsonimpl.h
index 24fd40c..8c11917 100644
--- a/src/lightspeed/utils/json/jsonimpl.h
+++ b/src/lightspeed/utils/json/jsonimpl.h
@@ -285,6 +285,20 @@ public:
 	mutable StringA strx;
 };
 
+///unsigned number which doesn't fit to the signed type
+template<typename Base, typename UInt>
+class UIntField: public Base {
+public:
+	UIntField(UInt v):Base(v) {}
+	virtual lnatural getLongUInt() const {return (UInt)this->x;}
+	virtual double getFloat() const {return double((UInt)this->x);}
+	virtual Value clone(PFactory factory) const {return factory->newValue((UInt)this->x);}
+	virtual TextFieldA *createTextNode() const {
+		char buff[100];
+		return new TextFieldA(::LightSpeed::_intr::numberToString((UInt)this->x,buff,100,10));
+	}
+};
+
 class FloatField : public LeafNodeConvToStr {
 public:
 	FloatField(double x):x(x) {}
@@ -367,10 +381,16 @@ public:
 	FactoryAlloc(IRuntimeAlloc  &alloc):alloc(alloc) {}
 
 	virtual PNode createObject() {return new(alloc) T<Object>;}
-	virtual PNode createNumber(natural v) {return new(alloc) T<IntField>(v);}
+	virtual PNode createNumber(natural v) {
+		if ((integer)v < 0) return new(alloc) T<UIntField<IntField,natural> >(v);
+		return new(alloc) T<IntField>(v);
+	}
 	virtual PNode createNumber(integer v) {return new(alloc) T<IntField>(v);}
 #ifdef LIGHTSPEED_HAS_LONG_TYPES
-	virtual PNode createNumber(lnatural v) {return new(alloc) T<IntField64>(v);}
+	virtual PNode createNumber(lnatural v) {
+		if ((linteger)v < 0) return new(alloc) T<UIntField<IntField64,lnatural> >(v);
+		return new(alloc) T<IntField64>(v);
+	}
 	virtual PNode createNumber(linteger v) {return new(alloc) T<IntField64>(v);}
 #endif
 	virtual PNode createNumber(float v) {return new(alloc) T<FloatField>(v);}
diff --git a/src/lightspeed/utils/json/jsonparser.tcc b/src/lightspeed/utils/json/jsonparser.tcc
index 25849d5..d50bf26 100644
--- a/src/lightspeed/utils/json/jsonparser.tcc
+++ b/src/lightspeed/utils/json/jsonparser.tcc
@@ -265,6 +265,7 @@ PNode Parser<T>::parseValue(char firstChar) {
 			if ((linteger)(integer)sx == sx) return factory->newValue((integer)sx);
 			else return factory->newValue(sx);
 		}
+		if (!overflow && !neg) return factory->newValue(x);
 		//number out of range is stored as floating-point
 	}
 
diff --git a/src/lightspeed/utils/json/jsonserializer.tcc b/src/lightspeed/utils/json/jsonserializer.tcc
index 02bc6d3..aab3696 100644
--- a/src/lightspeed/utils/json/jsonserializer.tcc
+++ b/src/lightspeed/utils/json/jsonserializer.tcc
@@ -202,7 +202,8 @@ template<typename T>
 void Serializer<T>::serializeInt(const INode *json) {
 
 	TextOut<IWriteIterator<char, T> &, StaticAlloc<140> > fmt(iter);
-	fmt() << json->getInt();
+	if (json->getFloat() > 0) fmt() << json->getLongUInt();
+	else fmt() << json->getLongInt();
 }
 
 template<typename T>
-- 
2.43.0


From eb2b2a0828ca051444b368deb58d96ab93b4526a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:54:20 +0000
Subject: [PATCH 141/331] fix: JSON objects were equal only when they shared
 their fields

---
 src/lightspeed/utils/json/json.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/lightspeed/utils/json/json.cpp b/src/lightspeed/utils/json/json.cpp
index 2120f6d..c62759d 100644
--- a/src/lightspeed/utils/json/json.cpp
+++ b/src/lightspeed/utils/json/json.cpp
@@ -89,7 +89,7 @@ bool Object::operator==(const INode &other) const {
 		iter.hasItems();) {
 		const FieldNode *e1 = iter.getNext();
 		const FieldNode *e2 = iter2.getNext();
-		if (e1->data.key != e2->data.key || (e1->data.value) != (e2->data.value)) return false;
+		if (e1->data.key != e2->data.key || *(e1->data.value) != *(e2->data.value)) return false;
 	}
 	return true;
 }
-- 
2.43.0


From 602a5a44106c91e4291d0426b501b1451034c7f9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:56:12 +0000
Subject: [PATCH 142/331] fix: the lowest negative number was formatted to an
 empty text

---
 src/lightspeed/base/text/textFormat.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/lightspeed/base/text/textFormat.cpp b/src/lightspeed/base/text/textFormat.cpp
index e5bb247..e43e0a5 100644
--- a/src/lightspeed/base/text/textFormat.cpp
+++ b/src/lightspeed/base/text/textFormat.cpp
@@ -64,7 +64,8 @@ ConstStrA numberToStringSigned(T num, char *string, natural size, natural base)
 	} else {
 		if (num < 0) {
 			*string='-';
-			ConstStrA z = numberToString(-num,string+1,size-1,base);
+			//negated as unsigned, the lowest number has no positive counterpart
+			ConstStrA z = numberToStringUnsigned((lnatural)0-(lnatural)num,string+1,size-1,base);
 			if (z == nil) return nil;
 			return ConstStrA(string,1+z.length());
 		}
-- 
2.43.0


From 7e2f7f950a297a1a6cfe77c8d61e8ebf82698eb2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:56:27 +0000
Subject: [PATCH 143/331] fix: number formatting wrote behind the end of a
 short buffer

---
 src/lightspeed/base/text/textFormat.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/lightspeed/base/text/textFormat.cpp b/src/lightspeed/base/text/textFormat.cpp
index e43e0a5..bcbffbc 100644
--- a/src/lightspeed/base/text/textFormat.cpp
+++ b/src/lightspeed/base/text/textFormat.cpp
@@ -26,7 +26,7 @@ template<typename UNum>
 char *formatUnsigned(UNum num, char *buffer, natural size, natural base) {
 	if (num == 0) return buffer;
 	if (size == 0) return 0;
-	char *c = formatUnsigned(num / base,buffer,size,base);
+	char *c = formatUnsigned(num / base,buffer,size-1,base);
 	if (c) {
 		*c = hexChars[num % base];
 		return c+1;
-- 
2.43.0


From 20da11f2c8c71b2712c28f60efbb46d809361ada Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:58:42 +0000
Subject: [PATCH 144/331] fix: floating-point number with leading zeros lost
 its digits when parsed

---
 src/lightspeed/base/text/strtodouble.cpp | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/src/lightspeed/base/text/strtodouble.cpp b/src/lightspeed/base/text/strtodouble.cpp
index 6e7509e..41bce7b 100644
--- a/src/lightspeed/base/text/strtodouble.cpp
+++ b/src/lightspeed/base/text/strtodouble.cpp
@@ -160,6 +160,14 @@ double strtod(ConstStrA string, natural *chrRead)
     } else {
 	mantSize -= 1;			/* One of the digits was the point. */
     }
+    /* Leading zeros are not significant */
+    while (mantSize > 1 && (*p == '0' || *p == '.')) {
+	if (*p == '0') {
+	    mantSize -= 1;
+	    decPt -= 1;
+	}
+	++p;
+    }
     if (mantSize > 18) {
 	fracExp = decPt - 18;
 	mantSize = 18;
-- 
2.43.0


From e36dab0f8ddb85d8243355717b9b0a0aba1ed736 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:58:49 +0000
Subject: [PATCH 145/331] fix: floating-point number below 1e-292 with many
 digits was parsed as zero, long exponent overflowed

---
 src/lightspeed/base/text/strtodouble.cpp | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/lightspeed/base/text/strtodouble.cpp b/src/lightspeed/base/text/strtodouble.cpp
index 41bce7b..296d82a 100644
--- a/src/lightspeed/base/text/strtodouble.cpp
+++ b/src/lightspeed/base/text/strtodouble.cpp
@@ -222,7 +222,7 @@ double strtod(ConstStrA string, natural *chrRead)
 	    expSign = false;
 	}
 	while (isdigit(*p)) {
-	    exp = exp * 10 + (*p - '0');
+	    if (exp < 100000) exp = exp * 10 + (*p - '0');
 	    ++p;
 	}
     }
@@ -249,6 +249,11 @@ double strtod(ConstStrA string, natural *chrRead)
     	exp = maxExponent;
 		throwRangeException_To(THISLOCATION, maxExponent, exp);
     }
+    if (expSign && exp > 256) {
+	/* The power could be out of range of the type while the result is not */
+	fraction /= 1.0e256;
+	exp -= 256;
+    }
     dblExp = 1.0;
     for (d = powersOf10; exp != 0; exp >>= 1, d += 1) {
 	if (exp & 01) {
-- 
2.43.0


From f831e8251d65c07a918b881ccbbc3a9bc688b316 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:02:41 +0000
Subject: [PATCH 146/331] fix: JSON stream parser stopped reporting behind a
 container which was not monitored

---
 src/lightspeed/utils/json/jsonparser.tcc | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/lightspeed/utils/json/jsonparser.tcc b/src/lightspeed/utils/json/jsonparser.tcc
index d50bf26..9f65981 100644
--- a/src/lightspeed/utils/json/jsonparser.tcc
+++ b/src/lightspeed/utils/json/jsonparser.tcc
@@ -299,7 +299,7 @@ JSON::Value StreamParser<T>::parseObject(INode *container) {
 	JSON::Value out = Parser<T>::parseObject(container);
 	if (curCB) curCB->onContainerCompleted(container, saveParent);
 	prevContainer = saveParent;
-	if (curCB) curCB = save;
+	curCB = save;
 	return out;
 }
 
@@ -312,7 +312,7 @@ JSON::Value StreamParser<T>::parseArray(INode *container) {
 	JSON::Value out = Parser<T>::parseArray(container);
 	if (curCB) curCB->onContainerCompleted(container, saveParent);
 	prevContainer = saveParent;
-	if (curCB) curCB = save;
+	curCB = save;
 	return out;
 }
 
-- 
2.43.0


From b28b1a5b23284aa63363a26df96efe3f8330086b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:02:49 +0000
Subject: [PATCH 147/331] fix: deleting a copy of a JSON path never ended

---
 src/lightspeed/utils/json/json.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/lightspeed/utils/json/json.cpp b/src/lightspeed/utils/json/json.cpp
index c62759d..08a69b5 100644
--- a/src/lightspeed/utils/json/json.cpp
+++ b/src/lightspeed/utils/json/json.cpp
@@ -1142,7 +1142,7 @@ void Path::operator delete(void *ptr) {
 	//calculate reqSize
 	natural reqSize = sizeof(IRuntimeAlloc *);
 
-	for (const Path *p = reinterpret_cast<Path *>(ptr); ptr != &root; p = &p->parent) {
+	for (const Path *p = reinterpret_cast<Path *>(ptr); p != &root; p = &p->parent) {
 		//reserve space for element
 		reqSize+=sizeof(Path);
 		//if it is key, then reserve space for name
-- 
2.43.0


From 26b2a99ce6dd3579ea700838c3ee478584e0f8b7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:05:39 +0000
Subject: [PATCH 148/331] fix: JSON::Path::copy copied the last element for
 ever instead of the whole path

---
 src/lightspeed/utils/json/json.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/lightspeed/utils/json/json.cpp b/src/lightspeed/utils/json/json.cpp
index 08a69b5..d16cb7b 100644
--- a/src/lightspeed/utils/json/json.cpp
+++ b/src/lightspeed/utils/json/json.cpp
@@ -1112,13 +1112,13 @@ Path *Path::copyRecurse(Path * trg, char  *strBuff) const {
 		//advence pointer in buffer
 		strBuff+=index;
 		//copy rest of path to retrieve new pointer
-		Path *out = copyRecurse(trg+1,strBuff);
+		Path *out = parent.copyRecurse(trg+1,strBuff);
 		//construct path item at give position, use returned pointer as parent
 		//and use text from string buffer as name
 		return new((void *)trg) Path(*out, ConstStrA(c, index));
 	} else {
 		//if it is index, just construct rest of path
-		Path *out = copyRecurse(trg+1,strBuff);
+		Path *out = parent.copyRecurse(trg+1,strBuff);
 		//copy rest of path to retrieve new pointer
 
 		return new((void *)trg) Path(*out, index);
-- 
2.43.0


From e44320af89479f16990b62890bb2f273abb52bdb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:06:29 +0000
Subject: [PATCH 149/331] fix: deleting a copied JSON::Path gave a wrong
 address to the allocator

---
 src/lightspeed/utils/json/json.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/lightspeed/utils/json/json.cpp b/src/lightspeed/utils/json/json.cpp
index d16cb7b..9cd301c 100644
--- a/src/lightspeed/utils/json/json.cpp
+++ b/src/lightspeed/utils/json/json.cpp
@@ -1149,7 +1149,7 @@ void Path::operator delete(void *ptr) {
 		if (p->isKey()) reqSize+=p->getKey().length();
 	}
 	//deallocate memory
-	alc->dealloc(a,reqSize);
+	alc->dealloc(a-1,reqSize);
 
 }
 void *Path::operator new(size_t , void *p) {
-- 
2.43.0


From 9b73acd0b53124aca7ea026497b406986fa34394 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:18:33 +0000
Subject: [PATCH 150/331] fix: BinaryToJson had no factory of values

---
 src/lightspeed/utils/json/binjson.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/lightspeed/utils/json/binjson.cpp b/src/lightspeed/utils/json/binjson.cpp
index 09cb6bc..ce040ad 100644
--- a/src/lightspeed/utils/json/binjson.cpp
+++ b/src/lightspeed/utils/json/binjson.cpp
@@ -156,7 +156,7 @@ void JsonToBinary::writeNumber(OpCode op, lnatural v, SeqFileOutput& output) {
 }
 
 
-BinaryToJson::BinaryToJson() {
+BinaryToJson::BinaryToJson():factory(JSON::create()) {
 }
 
 class EnumNode: public LeafNode, public DynObject {
-- 
2.43.0


From 39505a5455c003f6e861c195167974047026ca38 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:18:42 +0000
Subject: [PATCH 151/331] fix: JsonToBinary wrote positive integers with the
 opposite sign

---
 src/lightspeed/utils/json/binjson.cpp | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/src/lightspeed/utils/json/binjson.cpp b/src/lightspeed/utils/json/binjson.cpp
index ce040ad..4c8ee21 100644
--- a/src/lightspeed/utils/json/binjson.cpp
+++ b/src/lightspeed/utils/json/binjson.cpp
@@ -82,11 +82,12 @@ void JsonToBinary::serializeFloat(const JSON::INode& val,SeqFileOutput& output)
 
 void JsonToBinary::serializeInteger(const JSON::INode& val,SeqFileOutput& output) {
 	linteger v = val.getLongInt();
-	if (v < 0) {
-		lnatural n = (lnatural)(-v);
+	//numbers above the signed range are reported as negative, but their float value is not
+	if (v < 0 && val.getFloat() < 0) {
+		lnatural n = 0 - (lnatural)v;
 		writeNumber(opcNegInt1,n,output);
-	} else if (v > 0) {
-		lnatural n = (lnatural)(-v);
+	} else if (v != 0) {
+		lnatural n = (lnatural)v;
 		writeNumber(opcPosInt1,n,output);
 	} else {
 		output.write(opcZero);
-- 
2.43.0


From 3ff51a2839b6e2a27e94df8484b98136539db42e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:18:52 +0000
Subject: [PATCH 152/331] fix: BinaryToJson read negative numbers out of the
 range as positive

---
 src/lightspeed/utils/json/binjson.cpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/lightspeed/utils/json/binjson.cpp b/src/lightspeed/utils/json/binjson.cpp
index 4c8ee21..7ec4fa2 100644
--- a/src/lightspeed/utils/json/binjson.cpp
+++ b/src/lightspeed/utils/json/binjson.cpp
@@ -455,7 +455,9 @@ lnatural BinaryToJson::readNumber(natural opcode, SeqFileInput& input) {
 JSON::Value BinaryToJson::parseNumber(natural opcode, bool neg, SeqFileInput& input) {
 	lnatural n = readNumber(opcode, input);
 	if (neg) {
-		linteger out = -(linteger)n;
+		linteger out = (linteger)(0 - n);
+		if (out > 0)
+			throw ParseError_t(THISLOCATION,ConstStrA("<binary> - Negative number is out of range"));
 		return factory->newValue(out);
 	} else {
 		return factory->newValue(n);
-- 
2.43.0


From 2111c3da3902b5eec847d30ff01ab9ed1bde1428 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:19:02 +0000
Subject: [PATCH 153/331] fix: BinaryToJson didn't read the length of a string
 value

---
 src/lightspeed/utils/json/binjson.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/lightspeed/utils/json/binjson.cpp b/src/lightspeed/utils/json/binjson.cpp
index 7ec4fa2..0e1a877 100644
--- a/src/lightspeed/utils/json/binjson.cpp
+++ b/src/lightspeed/utils/json/binjson.cpp
@@ -267,7 +267,7 @@ JSON::Value BinaryToJson::parse(SeqFileInput& input) {
 	case opcString1:
 	case opcString2:
 	case opcString4:
-	case opcString8: return parseString(code, input);
+	case opcString8: return parseString(code-opcString1, input);
 	case opcTrue: return factory->newValue(true);
 	case opcZero: return factory->newValue((natural)0);
 	default: {
@@ -344,7 +344,7 @@ void BinaryToJson::convertToText(SeqFileInput& binIn, SeqTextOutA& textOut) {
 	case opcString2:
 	case opcString4:
 	case opcString8:
-			 convertStringToText(code, binIn, textOut);
+			 convertStringToText(code-opcString1, binIn, textOut);
 			 break;
 	case opcTrue:
 			textOut.blockWrite(ConstStrA("true"),true);break;
-- 
2.43.0


From c622199edddbbc9df65030ad9fe3d113f50b1f34 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:19:10 +0000
Subject: [PATCH 154/331] fix: BinaryToJson left the end mark of a container
 unread and converted objects for ever

---
 src/lightspeed/utils/json/binjson.cpp | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/src/lightspeed/utils/json/binjson.cpp b/src/lightspeed/utils/json/binjson.cpp
index 0e1a877..70c4445 100644
--- a/src/lightspeed/utils/json/binjson.cpp
+++ b/src/lightspeed/utils/json/binjson.cpp
@@ -385,6 +385,7 @@ Value BinaryToJson::parseArray(SeqFileInput& input) {
 		a->add(z);
 		b = input.peek();
 	}
+	input.skip();
 	return a;
 }
 
@@ -474,7 +475,7 @@ JSON::Value BinaryToJson::parseString(natural opcode, SeqFileInput& input) {
 }
 
 void BinaryToJson::convertArrayToText(SeqFileInput& binIn,SeqTextOutA& textOut) {
-	textOut.write('{');
+	textOut.write('[');
 	byte b = binIn.peek();
 	while (b != opcEnd) {
 		convertToText(binIn,textOut);
@@ -483,7 +484,8 @@ void BinaryToJson::convertArrayToText(SeqFileInput& binIn,SeqTextOutA& textOut)
 			textOut.write(',');
 		}
 	}
-	textOut.write('}');
+	binIn.skip();
+	textOut.write(']');
 }
 
 
@@ -495,10 +497,12 @@ void BinaryToJson::convertObjectToText(SeqFileInput& binIn, SeqTextOutA& textOut
 		convertToText(binIn,textOut);
 		textOut.write(':');
 		convertToText(binIn,textOut);
+		b = binIn.peek();
 		if (b != opcEnd) {
 			textOut.write(',');
 		}
 	}
+	binIn.skip();
 	textOut.write('}');
 }
 
-- 
2.43.0


From 25f0fb33e1a2675f6b2fc548011f38639f443168 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:19:20 +0000
Subject: [PATCH 155/331] fix: BinaryToJson::convertToText read another value
 after a positive number

---
 src/lightspeed/utils/json/binjson.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/lightspeed/utils/json/binjson.cpp b/src/lightspeed/utils/json/binjson.cpp
index 70c4445..b2d6ce1 100644
--- a/src/lightspeed/utils/json/binjson.cpp
+++ b/src/lightspeed/utils/json/binjson.cpp
@@ -332,6 +332,7 @@ void BinaryToJson::convertToText(SeqFileInput& binIn, SeqTextOutA& textOut) {
 	case opcPosInt4:
 	case opcPosInt8:
 		textOut.blockWrite(ToString<lnatural>(readNumber(code-opcPosInt1,binIn)),true);
+		break;
 	case opcPush: stack.add(parse(binIn));convertToText(binIn,textOut);
 		break;
 	case opcRemove1: {
-- 
2.43.0


From f1c0601cd2a58c2c4e3568562b46f27cdd0a821e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:19:29 +0000
Subject: [PATCH 156/331] fix: BinaryToJson::convertToText wrote unknown
 strings without quotes

---
 src/lightspeed/utils/json/binjson.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/lightspeed/utils/json/binjson.cpp b/src/lightspeed/utils/json/binjson.cpp
index b2d6ce1..0c529b5 100644
--- a/src/lightspeed/utils/json/binjson.cpp
+++ b/src/lightspeed/utils/json/binjson.cpp
@@ -357,7 +357,9 @@ void BinaryToJson::convertToText(SeqFileInput& binIn, SeqTextOutA& textOut) {
 		}
 		natural c = code-opcFirstCode;
 		if (c >= stringTable.length()) {
+			textOut.write('"');
 			textOut.blockWrite(StringA((ConstStrA("Undefined")+ToString<natural>(c))),true);
+			textOut.write('"');
 		} else {
 			textOut.write('"');
 			for (ConstStrA::Iterator iter = stringTable[c].getFwIter(); iter.hasItems();) {
-- 
2.43.0


From 1408280cfc3b0c5a532da728fb42542522985117 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:19:37 +0000
Subject: [PATCH 157/331] fix: BinaryToJson::convertToText lost precision of
 numbers

---
 src/lightspeed/utils/json/binjson.cpp | 11 ++++-------
 1 file changed, 4 insertions(+), 7 deletions(-)

diff --git a/src/lightspeed/utils/json/binjson.cpp b/src/lightspeed/utils/json/binjson.cpp
index 0c529b5..532e8aa 100644
--- a/src/lightspeed/utils/json/binjson.cpp
+++ b/src/lightspeed/utils/json/binjson.cpp
@@ -511,17 +511,14 @@ void BinaryToJson::convertObjectToText(SeqFileInput& binIn, SeqTextOutA& textOut
 
 void BinaryToJson::convertFloat32ToText(SeqFileInput& binIn,SeqTextOutA& textOut) {
 	float f;
-	binIn.blockRead(&f,sizeof(f));
-	PrintTextA print(textOut);
-	print("%1") << f;
+	binIn.blockRead(&f,sizeof(f),true);
+	serialize(factory->newValue(f),textOut,true);
 }
 
 void BinaryToJson::convertFloat64ToText(SeqFileInput& binIn,SeqTextOutA& textOut) {
 	double f;
-	binIn.blockRead(&f,sizeof(f));
-	PrintTextA print(textOut);
-	print("%1") << f;
-
+	binIn.blockRead(&f,sizeof(f),true);
+	serialize(factory->newValue(f),textOut,true);
 }
 
 void BinaryToJson::convertStringToText(natural code, SeqFileInput &binIn, SeqTextOutA &textOut) {
-- 
2.43.0


From c7d80a06c16b3c41384b79958049109a7d954cc1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:20:09 +0000
Subject: [PATCH 158/331] fix: BinaryToJson crashed on a missing value or stack
 item

---
 src/lightspeed/utils/json/binjson.cpp | 39 ++++++++++++++++++---------
 src/lightspeed/utils/json/binjson.h   |  2 ++
 2 files changed, 28 insertions(+), 13 deletions(-)

diff --git a/src/lightspeed/utils/json/binjson.cpp b/src/lightspeed/utils/json/binjson.cpp
index 532e8aa..b840413 100644
--- a/src/lightspeed/utils/json/binjson.cpp
+++ b/src/lightspeed/utils/json/binjson.cpp
@@ -222,6 +222,19 @@ protected:
 };
 
 
+JSON::Value BinaryToJson::stackItem(natural n) const {
+	if (n >= stack.length())
+		throw ParseError_t(THISLOCATION,ConstStrA("<binary> - The stack has no item:")+ToString<natural>(n));
+	return stack[stack.length()-1-n];
+}
+
+JSON::Value BinaryToJson::parseItem(SeqFileInput& input) {
+	JSON::Value v = parse(input);
+	if (v == nil)
+		throw ParseError_t(THISLOCATION,ConstStrA("<binary> - Missing value"));
+	return v;
+}
+
 JSON::Value BinaryToJson::parse(SeqFileInput& input) {
 
 	Utf8ToWideReader<SeqTextInA> w(input);
@@ -246,19 +259,19 @@ JSON::Value BinaryToJson::parse(SeqFileInput& input) {
 	case opcPick1:
 	case opcPick2:
 	case opcPick4: {
-				natural n = readNumber(code-opcPick1, input);
-				return stack[stack.length()-1-n];
+		natural n = readNumber(code-opcPick1, input);
+		return stackItem(n);
 			}
 	case opcPop: {
-			JSON::Value v = stack[stack.length()-1];
-			stack.trunc(1);
-			return v;
+		JSON::Value v = stackItem(0);
+		stack.trunc(1);
+		return v;
 		}
 	case opcPosInt1:
 	case opcPosInt2:
 	case opcPosInt4:
 	case opcPosInt8:return parseNumber(code-opcPosInt1, false, input);
-	case opcPush: stack.add(parse(input));return parse(input);
+	case opcPush: stack.add(parseItem(input));return parse(input);
 	case opcRemove1: {
 			natural n = readNumber(0,input);
 			stack.trunc(n);
@@ -318,14 +331,14 @@ void BinaryToJson::convertToText(SeqFileInput& binIn, SeqTextOutA& textOut) {
 	case opcPick1:
 	case opcPick2:
 	case opcPick4: {
-				natural n = readNumber(code-opcPick1, binIn);
-				JSON::Value v =  stack[stack.length()-1-n];
+		natural n = readNumber(code-opcPick1, binIn);
+		JSON::Value v = stackItem(n);
 				serialize(v,textOut,true);
 			}break;
 	case opcPop: {
-			JSON::Value v = stack[stack.length()-1];
-			stack.trunc(1);
-			serialize(v,textOut,true);
+		JSON::Value v = stackItem(0);
+		stack.trunc(1);
+		serialize(v,textOut,true);
 		}break;
 	case opcPosInt1:
 	case opcPosInt2:
@@ -333,7 +346,7 @@ void BinaryToJson::convertToText(SeqFileInput& binIn, SeqTextOutA& textOut) {
 	case opcPosInt8:
 		textOut.blockWrite(ToString<lnatural>(readNumber(code-opcPosInt1,binIn)),true);
 		break;
-	case opcPush: stack.add(parse(binIn));convertToText(binIn,textOut);
+	case opcPush: stack.add(parseItem(binIn));convertToText(binIn,textOut);
 		break;
 	case opcRemove1: {
 			natural n = readNumber(0,binIn);
@@ -384,7 +397,7 @@ Value BinaryToJson::parseArray(SeqFileInput& input) {
 	JSON::Value a = factory->array();
 	byte b = input.peek();
 	while (b != opcEnd) {
-		JSON::Value z = parse(input);
+		JSON::Value z = parseItem(input);
 		a->add(z);
 		b = input.peek();
 	}
diff --git a/src/lightspeed/utils/json/binjson.h b/src/lightspeed/utils/json/binjson.h
index ff761e8..f93a6ac 100644
--- a/src/lightspeed/utils/json/binjson.h
+++ b/src/lightspeed/utils/json/binjson.h
@@ -154,6 +154,8 @@ public:
 	AutoArray<ConstStrA, SmallAlloc<256> > stringTable;
 	AutoArray<JSON::Value, SmallAlloc<256> > stack;
 
+	JSON::Value stackItem(natural n) const;
+	JSON::Value parseItem(SeqFileInput &input);
 	JSON::Value parseArray(SeqFileInput &input);
 	JSON::Value parseObject(SeqFileInput &input);
 	JSON::Value parseFloat32(SeqFileInput &input);
-- 
2.43.0


From 9f9ce255935485ee04b674e50455db3b70733952 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:20:17 +0000
Subject: [PATCH 159/331] fix: BinaryToJson refused empty keys, took any code
 for a key and trusted the length of a text

---
 src/lightspeed/utils/json/binjson.cpp | 83 ++++++++++++++++++---------
 src/lightspeed/utils/json/binjson.h   |  3 +
 2 files changed, 60 insertions(+), 26 deletions(-)

diff --git a/src/lightspeed/utils/json/binjson.cpp b/src/lightspeed/utils/json/binjson.cpp
index b840413..5516441 100644
--- a/src/lightspeed/utils/json/binjson.cpp
+++ b/src/lightspeed/utils/json/binjson.cpp
@@ -409,21 +409,25 @@ Value BinaryToJson::parseObject(SeqFileInput& input) {
 	JSON::Value a = factory->object();
 	Utf8ToWideReader<SeqTextInA> w(input);
 	wchar_t code = w.getNext();
-	AutoArray<char, SmallAlloc<256> > buffer;
+	TextBuffer buffer;
 	while (code != opcEnd) {
 		if (code < opcFirstCode) {
-			natural n = readNumber(code-opcString1, input);
-			buffer.resize(n);
-			input.blockRead(buffer.data(), n, true);
-			a->add(buffer, parse(input));
+			if (code == opcEmptyString) {
+				buffer.clear();
+			} else if (code >= opcString1 && code <= opcString8) {
+				readText(code-opcString1, input, buffer);
+			} else {
+				throw ParseError_t(THISLOCATION,ConstStrA("<binary> - Invalid key:")+ToString<natural>(code));
+			}
+			a->add(buffer, parseItem(input));
 		} else {
 			natural c = code - opcFirstCode;
 			if (c >= stringTable.length()) {
 				buffer.clear();
 				buffer.append(ConstStrA("Key")+ToString<natural>(c));
-				a->add(buffer, parse(input));
+				a->add(buffer, parseItem(input));
 			} else {
-				a->add(stringTable[c], parse(input));
+				a->add(stringTable[c], parseItem(input));
 			}
 		}
 		code = w.getNext();
@@ -443,6 +447,19 @@ JSON::Value BinaryToJson::parseFloat64(SeqFileInput& input) {
 	return factory->newValue(f);
 }
 
+void BinaryToJson::readText(natural opcode, SeqFileInput& input, TextBuffer &buffer) {
+	lnatural len = readNumber(opcode, input);
+	buffer.clear();
+	//don't trust the length, allocate the memory as the text arrives
+	while (len) {
+		natural part = len > 4096?4096:(natural)len;
+		natural ofs = buffer.length();
+		buffer.resize(ofs + part);
+		input.blockRead(buffer.data() + ofs, part, true);
+		len -= part;
+	}
+}
+
 lnatural BinaryToJson::readNumber(natural opcode, SeqFileInput& input) {
 	lnatural out = 0;
 	byte b;
@@ -482,10 +499,8 @@ JSON::Value BinaryToJson::parseNumber(natural opcode, bool neg, SeqFileInput& in
 }
 
 JSON::Value BinaryToJson::parseString(natural opcode, SeqFileInput& input) {
-	lnatural len = readNumber(opcode, input);
-	AutoArray<char, SmallAlloc<256> > buffer;
-	buffer.resize(len);
-	input.blockRead(buffer.data(),len,true);
+	TextBuffer buffer;
+	readText(opcode, input, buffer);
 	return factory->newValue(buffer);
 
 }
@@ -506,11 +521,38 @@ void BinaryToJson::convertArrayToText(SeqFileInput& binIn,SeqTextOutA& textOut)
 
 
 
+void BinaryToJson::convertKeyToText(SeqFileInput& binIn, SeqTextOutA& textOut) {
+	Utf8ToWideReader<SeqTextInA> w(binIn);
+	wchar_t code = w.getNext();
+	if (code == opcEmptyString) {
+		textOut.blockWrite(ConstStrA("\"\""),true);
+	} else if (code >= opcString1 && code <= opcString8) {
+		convertStringToText(code-opcString1, binIn, textOut);
+	} else if (code < opcFirstCode) {
+		throw ParseError_t(THISLOCATION,ConstStrA("<binary> - Invalid key:")+ToString<natural>(code));
+	} else {
+		natural c = code - opcFirstCode;
+		StringA undef;
+		ConstStrA text;
+		if (c >= stringTable.length()) {
+			undef = StringA(ConstStrA("Key")+ToString<natural>(c));
+			text = undef;
+		} else {
+			text = stringTable[c];
+		}
+		textOut.write('"');
+		for (ConstStrA::Iterator iter = text.getFwIter(); iter.hasItems();) {
+			writeChar(iter.getNext(),textOut);
+		}
+		textOut.write('"');
+	}
+}
+
 void BinaryToJson::convertObjectToText(SeqFileInput& binIn, SeqTextOutA& textOut) {
 	textOut.write('{');
 	byte b = binIn.peek();
 	while (b != opcEnd) {
-		convertToText(binIn,textOut);
+		convertKeyToText(binIn,textOut);
 		textOut.write(':');
 		convertToText(binIn,textOut);
 		b = binIn.peek();
@@ -535,20 +577,9 @@ void BinaryToJson::convertFloat64ToText(SeqFileInput& binIn,SeqTextOutA& textOut
 }
 
 void BinaryToJson::convertStringToText(natural code, SeqFileInput &binIn, SeqTextOutA &textOut) {
-	AutoArray<char, SmallAlloc<256> > buffer;
-	ConstStrA toOut;
-	if (code < opcFirstCode) {
-		natural n = readNumber(code,binIn);
-		buffer.resize(n);
-		binIn.blockRead(buffer.data(),n,true);
-		toOut = buffer;
-	} else if (code >= stringTable.length()) {
-		buffer.append(ConstStrA("undefined"));
-		buffer.append(ToString<natural>(code));
-		toOut = buffer;
-	} else {
-		toOut = stringTable[code - opcFirstCode];
-	}
+	TextBuffer buffer;
+	readText(code,binIn,buffer);
+	ConstStrA toOut = buffer;
 	textOut.write('"');
 	for (ConstStrA::Iterator iter = toOut.getFwIter(); iter.hasItems();) {
 		writeChar(iter.getNext(),textOut);
diff --git a/src/lightspeed/utils/json/binjson.h b/src/lightspeed/utils/json/binjson.h
index f93a6ac..0a7fbe9 100644
--- a/src/lightspeed/utils/json/binjson.h
+++ b/src/lightspeed/utils/json/binjson.h
@@ -154,6 +154,9 @@ public:
 	AutoArray<ConstStrA, SmallAlloc<256> > stringTable;
 	AutoArray<JSON::Value, SmallAlloc<256> > stack;
 
+	typedef AutoArray<char, SmallAlloc<256> > TextBuffer;
+	void readText(natural opcode, SeqFileInput &input, TextBuffer &buffer);
+	void convertKeyToText(SeqFileInput &binIn, SeqTextOutA &textOut);
 	JSON::Value stackItem(natural n) const;
 	JSON::Value parseItem(SeqFileInput &input);
 	JSON::Value parseArray(SeqFileInput &input);
-- 
2.43.0


From 9c8b80f0db758aa155f5ca1ca4c6e1500951a8f7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:20:26 +0000
Subject: [PATCH 160/331] fix: strings of BinaryToJson were equal to values of
 other types

---
 src/lightspeed/utils/json/binjson.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/lightspeed/utils/json/binjson.cpp b/src/lightspeed/utils/json/binjson.cpp
index 5516441..e5b2981 100644
--- a/src/lightspeed/utils/json/binjson.cpp
+++ b/src/lightspeed/utils/json/binjson.cpp
@@ -210,7 +210,7 @@ public:
 		return false;
 	}
 	virtual bool operator==(const INode &other) const {
-		return getStringUtf8() == other.getStringUtf8();
+		return other.getType() == ndString && getStringUtf8() == other.getStringUtf8();
 	}
 	virtual Value clone(PFactory factory) const {return new(*factory->getAllocator()) EnumNode(text);}
 
-- 
2.43.0


From f5759276364c4b71dd830e465451c6bca56d97fc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:24:04 +0000
Subject: [PATCH 161/331] fix: strings of BinaryToJson never stored their wide
 form

---
 src/lightspeed/utils/json/binjson.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/lightspeed/utils/json/binjson.cpp b/src/lightspeed/utils/json/binjson.cpp
index e5b2981..b15ce3f 100644
--- a/src/lightspeed/utils/json/binjson.cpp
+++ b/src/lightspeed/utils/json/binjson.cpp
@@ -171,7 +171,7 @@ public:
 	virtual ConstStrW getString() const {
 		if (wide) return *wide;
 		String *z = new String(text);
-		if (lockCompareExchangePtr<String>(&wide,z,0) != 0) {
+		if (lockCompareExchangePtr<String>(&wide,0,z) != 0) {
 			delete z;
 		}
 		return *wide;
-- 
2.43.0


From 8055c2a615f32f4e0695f60c7bdd22713f4b4fd6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:30:56 +0000
Subject: [PATCH 162/331] fix: ToString of the lowest signed number

---
 src/lightspeed/base/text/toString.h | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/src/lightspeed/base/text/toString.h b/src/lightspeed/base/text/toString.h
index 4e4be41..bbe10bf 100644
--- a/src/lightspeed/base/text/toString.h
+++ b/src/lightspeed/base/text/toString.h
@@ -84,13 +84,21 @@ namespace LightSpeed {
 			else {
 				if (val < 0) {
 					this->buffer.write(ChT('-'));
-					this->extract(-val,base,up);
+					//the lowest number cannot be negated, so work with negative numbers
+					extractNegative(val,base,up);
 				} else {
 					this->extract(val,base,up);
 				}
 			}
 			this->commitBuffer();
 		}
+		void extractNegative(NumType val, natural base, bool up) {
+			NumType rest = val / (NumType)base;
+			if (rest != 0) extractNegative(rest, base, up);
+			natural x = (natural)(rest * (NumType)base - val);
+			if (x > 9) this->buffer.write(ChT((up ? 'A' : 'a') + x - 10));
+			else this->buffer.write(ChT('0' + x));
+		}
 		void extract(NumType val, natural base, bool up) {
 			if (val >= (NumType)base) extract(val / base, base, up);
 			natural x = val % base;
-- 
2.43.0


From 89f38ae4c05266a3f2f62697b2f228e00ccf3d00 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:30:56 +0000
Subject: [PATCH 163/331] fix: parseSignedNumber and parseUnsignedNumber
 accepted numbers out of the range

---
 src/lightspeed/base/text/textParser.tcc | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/src/lightspeed/base/text/textParser.tcc b/src/lightspeed/base/text/textParser.tcc
index 0587071..a151448 100644
--- a/src/lightspeed/base/text/textParser.tcc
+++ b/src/lightspeed/base/text/textParser.tcc
@@ -18,6 +18,7 @@
 #include "../streams/utf.h"
 #include "../memory/staticAlloc.h"
 #include "../iter/vtiterator.h"
+#include <limits>
 
 namespace LightSpeed {
 
@@ -562,7 +563,8 @@ bool parseUnsignedNumber(Iter &iter, NumT &number,natural base) {
 		else if (c >= 'a' && c<='z') a = (c - 'a') + 10;
 		else break;
 		if ((natural)a >= base) break;
-		number = number * base + a;
+		if (number > (std::numeric_limits<NumT>::max() - a) / (NumT)base) return false; //out of range
+		number = (NumT)(number * (NumT)base + a);
 		iter.skip();
 		okaj = true;
 	}
@@ -584,9 +586,10 @@ bool parseSignedNumber(Iter &iter, NumT &number,natural base) {
 			return parseUnsignedNumber(iter,number,base);
 		} else if (c == '-') {
 			iter.skip();
-			NumT tmp;
+			lnatural tmp;
 			if (!parseUnsignedNumber(iter,tmp,base)) return false;
-			number = -tmp;
+			if (tmp > (lnatural)0 - (lnatural)std::numeric_limits<NumT>::min()) return false; //out of range
+			number = (NumT)((lnatural)0 - tmp);
 			return true;
 		} else {
 			return parseUnsignedNumber(iter,number,base);
-- 
2.43.0


From 953a7711cc337e9914d2c71b7e911e2d7c3d8270 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:30:56 +0000
Subject: [PATCH 164/331] fix: numbers of TextParser: out of range values and
 repeated signs were accepted

---
 src/lightspeed/base/text/textParser.cpp | 40 +++++++++++++++----------
 1 file changed, 25 insertions(+), 15 deletions(-)

diff --git a/src/lightspeed/base/text/textParser.cpp b/src/lightspeed/base/text/textParser.cpp
index 5fc39d9..5672ecd 100644
--- a/src/lightspeed/base/text/textParser.cpp
+++ b/src/lightspeed/base/text/textParser.cpp
@@ -9,6 +9,7 @@
 #include "textParser.tcc"
 #include "../exceptions/invalidNumberFormat.h"
 #include <math.h>
+#include <limits>
 
 namespace LightSpeed {
 
@@ -17,31 +18,40 @@ double strtod(ConstStrA string, natural *chrRead);
 
 namespace _intr {
 
-template<typename T>
-T stringToUnsignedNumber(ConstStrA num, natural base) {
-	if (num.empty()) throw InvalidNumberFormatException(THISLOCATION,String(num));
-	if (num[0] == '+') return stringToUnsignedNumber<T>(num.offset(1),base);
-	T s = 0;
-	T tbase = (T)base;
-	for (ConstStrA::Iterator iter = num.getFwIter(); iter.hasItems();) {
-		const T &x = iter.getNext();
-		T q = 0;
-		if (x >= '0' && x <= '9') q = (T)(x - '0');
-		else if (x >= 'A' && x <= 'Z') q = (T)(x - 'A' + 10);
-		else if (x >= 'a' && x <= 'z') q = (T)(x - 'a' + 10);
+//converts digits (without a sign) to the number which is not above maxval
+static lnatural stringToMagnitude(ConstStrA digits, ConstStrA num, natural base, lnatural maxval) {
+	if (digits.empty()) throw InvalidNumberFormatException(THISLOCATION,String(num));
+	lnatural s = 0;
+	lnatural tbase = base;
+	for (ConstStrA::Iterator iter = digits.getFwIter(); iter.hasItems();) {
+		const char x = iter.getNext();
+		lnatural q = 0;
+		if (x >= '0' && x <= '9') q = (lnatural)(x - '0');
+		else if (x >= 'A' && x <= 'Z') q = (lnatural)(x - 'A' + 10);
+		else if (x >= 'a' && x <= 'z') q = (lnatural)(x - 'a' + 10);
 		else throw InvalidNumberFormatException(THISLOCATION,String(num));
 		if (q >= tbase)
 			throw InvalidNumberFormatException(THISLOCATION,String(num));
+		if (q > maxval || s > (maxval - q) / tbase) //out of range
+			throw InvalidNumberFormatException(THISLOCATION,String(num));
 		s = s * tbase + q;
 	}
 	return s;
 }
 template<typename T>
+T stringToUnsignedNumber(ConstStrA num, natural base) {
+	const lnatural maxval = (lnatural)std::numeric_limits<T>::max();
+	if (num.empty()) throw InvalidNumberFormatException(THISLOCATION,String(num));
+	if (num[0] == '+') return (T)stringToMagnitude(num.offset(1),num,base,maxval);
+	else return (T)stringToMagnitude(num,num,base,maxval);
+}
+template<typename T>
 T stringToSignedNumber(ConstStrA num, natural base) {
+	const lnatural maxval = (lnatural)std::numeric_limits<T>::max();
 	if (num.empty()) throw InvalidNumberFormatException(THISLOCATION,String(num));
-	if (num[0] == '+') return stringToUnsignedNumber<T>(num.offset(1),base);
-	else if (num[0] == '-') return -stringToUnsignedNumber<T>(num.offset(1),base);
-	else return stringToUnsignedNumber<T>(num,base);
+	if (num[0] == '+') return (T)stringToMagnitude(num.offset(1),num,base,maxval);
+	else if (num[0] == '-') return (T)((lnatural)0 - stringToMagnitude(num.offset(1),num,base,maxval+1));
+	else return (T)stringToMagnitude(num,num,base,maxval);
 }
 
 
-- 
2.43.0


From f19d692a7d504dc8bf657ddc6f0226158707ac0b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:30:57 +0000
Subject: [PATCH 165/331] fix: TextParser: ranges in negative character lists

---
 src/lightspeed/base/text/textParser.tcc | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/lightspeed/base/text/textParser.tcc b/src/lightspeed/base/text/textParser.tcc
index a151448..14528d2 100644
--- a/src/lightspeed/base/text/textParser.tcc
+++ b/src/lightspeed/base/text/textParser.tcc
@@ -349,11 +349,11 @@ bool TextParser<T,Alloc,Cmp>::parseCharList(PatternIter &patiter, SourceIter &sr
 				const T &_ = iter.getNext();
 				if (iter.hasItems()) {
 					const T &b = iter.getNext();
-					if (!cmp.less(p , a) && !cmp.less(b,p) == cond) {
+					if (!cmp.less(p , a) && !cmp.less(b,p)) {
 						okaj = true;
 					}
 				} else {
-					if ((cmp.equal(p, a) || cmp.equal(p, _)) == cond) {
+					if (cmp.equal(p, a) || cmp.equal(p, _)) {
 						okaj = true;
 					}
 				}
-- 
2.43.0


From d3a5fd78a540afe2a6f1f7077e3d82b07c6e05c8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:31:38 +0000
Subject: [PATCH 166/331] fix: TextParser: conversion of a longer field to the
 character terminated the program

---
 src/lightspeed/base/text/textParser.tcc | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/lightspeed/base/text/textParser.tcc b/src/lightspeed/base/text/textParser.tcc
index 14528d2..8cb8b03 100644
--- a/src/lightspeed/base/text/textParser.tcc
+++ b/src/lightspeed/base/text/textParser.tcc
@@ -505,7 +505,8 @@ TextParser<T,Alloc,Cmp>::Result::operator typename TextParser<T,Alloc,Cmp>::Str(
 }
 template<typename T, typename Alloc, typename Cmp>
 TextParser<T,Alloc,Cmp>::Result::operator T() const {
-	if (owner.fragments[index].length() != 1) throw;//TODO exception;
+	if (owner.fragments[index].length() != 1)
+		throwRangeException_FromTo<natural>(THISLOCATION,1,1,owner.fragments[index].length());
 	return owner.fragments[index][0];
 }
 template<typename T, typename Alloc, typename Cmp>
-- 
2.43.0


From 9ef83da524ae1dab5df98296010a3bf9d5da9621 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:31:38 +0000
Subject: [PATCH 167/331] fix: TextParser: escape character at the end of the
 quoted text threw an exception

---
 src/lightspeed/base/text/textParser.tcc | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/lightspeed/base/text/textParser.tcc b/src/lightspeed/base/text/textParser.tcc
index 8cb8b03..94804fa 100644
--- a/src/lightspeed/base/text/textParser.tcc
+++ b/src/lightspeed/base/text/textParser.tcc
@@ -302,8 +302,10 @@ bool TextParser<T,Alloc,Cmp>::parseQuoted(PatternIter &patiter, SourceIter &srci
 					data.add(srciter.getNext());
 				} else if (same) {
 					break;
-				} else {
+				} else if (srciter.hasItems()) {
 					data.add(srciter.getNext());
+				} else {
+					return false;
 				}
 			} else if (cmp.equal(a,qmark)) {
 				break;
-- 
2.43.0


From fd026a4016355da8f15a1aba65cc09ac2f9b62a9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:31:38 +0000
Subject: [PATCH 168/331] fix: TextParser: %u refused a number with the plus
 sign

---
 src/lightspeed/base/text/textParser.tcc | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/lightspeed/base/text/textParser.tcc b/src/lightspeed/base/text/textParser.tcc
index 94804fa..e1aefe6 100644
--- a/src/lightspeed/base/text/textParser.tcc
+++ b/src/lightspeed/base/text/textParser.tcc
@@ -727,7 +727,7 @@ bool TextParser<T,Alloc,Cmp>::parseNumber(SourceIter &srciter, natural rangeMax,
 	if (!srciter.hasItems()) return false;
 	const T &sign = srciter.peek();
 	if (sign == '+' || sign == '-') {
-		if (negativeSign == false) return false;
+		if (sign == '-' && negativeSign == false) return false;
 		data.add(sign);
 		srciter.skip();
 		rangeMax--;
@@ -758,6 +758,7 @@ bool TextParser<T,Alloc,Cmp>::parseFloat(SourceIter &srciter, natural rangeMax)
 		rangeMax --;
 		if (rangeMax == 0 || !srciter.hasItems()) return false;
 		dp = data.length();
+		if (srciter.peek() == '+') return false;
 		if (!parseNumber(srciter,rangeMax,false,10)) return false;
 		rangeMax -= data.length() - dp;
 		if (rangeMax == 0 || !srciter.hasItems()) return true;
-- 
2.43.0


From 1e2252491f00e2b24d5a2b8f97d4a0add4448924 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:31:38 +0000
Subject: [PATCH 169/331] fix: TextParser: asterix search over a character list
 miscounted characters of the field 0

---
 src/lightspeed/base/text/textParser.tcc | 11 +++++++----
 1 file changed, 7 insertions(+), 4 deletions(-)

diff --git a/src/lightspeed/base/text/textParser.tcc b/src/lightspeed/base/text/textParser.tcc
index e1aefe6..f486130 100644
--- a/src/lightspeed/base/text/textParser.tcc
+++ b/src/lightspeed/base/text/textParser.tcc
@@ -334,14 +334,16 @@ bool TextParser<T,Alloc,Cmp>::parseCharList(PatternIter &patiter, SourceIter &sr
 
  	if (patiter.hasItems()) patiter.skip();
 
-	natural dataPos = data.length();
+	//number of characters collected by the list. It cannot be calculated from the
+	//length of data, because they can be erased during the asterix search (field 0)
+	natural count = 0;
 
 	if (asterix && state.range.first == 0) {
 		if (parseAsterixEnter(patiter,srciter,state)) return true;
 	}
 
 
-	while (srciter.hasItems() && data.length() - dataPos < state.range.second) {
+	while (srciter.hasItems() && count < state.range.second) {
 		const T &p = srciter.peek();
 		bool okaj = false;
 		typename Str::Iterator iter = list.getFwIter();
@@ -368,7 +370,8 @@ bool TextParser<T,Alloc,Cmp>::parseCharList(PatternIter &patiter, SourceIter &sr
 		if (okaj == cond) {
 			data.add(p);
 			srciter.skip();
-			if (asterix && state.range.first <= data.length() - dataPos) {
+			count++;
+			if (asterix && state.range.first <= count) {
 				if (parseAsterixEnter(patiter,srciter,state)) return true;
 			}
 		} else {
@@ -376,7 +379,7 @@ bool TextParser<T,Alloc,Cmp>::parseCharList(PatternIter &patiter, SourceIter &sr
 		}
 	}
 
-	if (data.length() - dataPos < state.range.first) return false;
+	if (count < state.range.first) return false;
 	else return parseArg(patiter,srciter,state);
 }
 
-- 
2.43.0


From de6e77b5cf846f6ec7d7afc2aea9e41e535b51c4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:31:38 +0000
Subject: [PATCH 170/331] fix: TextParser: next alternative branch continued
 where the previous one failed

---
 src/lightspeed/base/text/textParser.tcc | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/lightspeed/base/text/textParser.tcc b/src/lightspeed/base/text/textParser.tcc
index f486130..5993981 100644
--- a/src/lightspeed/base/text/textParser.tcc
+++ b/src/lightspeed/base/text/textParser.tcc
@@ -639,8 +639,12 @@ template<typename T, typename Alloc, typename Cmp>
 template<typename SourceIter>
 bool  TextParser<T,Alloc,Cmp>::parseAlternateBranch(PatternIter &patiter,SourceIter &srciter) {
 	PatternIter savePat(patiter);
-	if (parse(patiter,srciter)) return true;
+	//the next branch starts at the same place, so this one reads from a copy
+	SourceIter branchSrc(srciter);
+	natural saveData = data.length();
+	if (parse(patiter,branchSrc)) return true;
 	else {
+		if (data.length() > saveData) data.erase(saveData,data.length() - saveData);
 		if (skipToNextBranch(savePat))
 			return parseAlternateBranch(savePat,srciter);
 		else
-- 
2.43.0


From 865305211a5e7b1bf36594a9ead69defcd17796e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:31:38 +0000
Subject: [PATCH 171/331] fix: TextParser: skipping of alternative branches

---
 src/lightspeed/base/text/textParser.tcc | 20 +++++++++++---------
 1 file changed, 11 insertions(+), 9 deletions(-)

diff --git a/src/lightspeed/base/text/textParser.tcc b/src/lightspeed/base/text/textParser.tcc
index 5993981..1d7d306 100644
--- a/src/lightspeed/base/text/textParser.tcc
+++ b/src/lightspeed/base/text/textParser.tcc
@@ -141,15 +141,14 @@ bool TextParser<T,Alloc,Cmp>::parseArg(PatternIter &patiter, SourceIter &srciter
 
 template<typename T, typename Alloc, typename Cmp>
 void TextParser<T,Alloc,Cmp>::skipCharlist(PatternIter &iter) {
-	const T &x = iter.getNext();
-	if (x == '*') return skipCharlist(iter);
-	if (x == '^') return skipCharlist(iter);
-	if (x == ']') return skipCharlist(iter);
+	//skips the same characters which are read by parseCharList
+	if (!iter.hasItems()) return;
+	T x = iter.getNext();
+	if (x == '*') x = iter.getNext();
+	if (x == '^') x = iter.getNext();
+	if (x == '\\') iter.skip();
 	while (iter.hasItems()) {
-		const T &x = iter.getNext();
-		if (x == ']') return;
-		const T &y = iter.peek();
-		if (y == '-') {iter.skip();iter.skip();		}
+		if (iter.getNext() == ']') return;
 	}
 }
 template<typename T, typename Alloc, typename Cmp>
@@ -186,7 +185,9 @@ void TextParser<T,Alloc,Cmp>::skipPattern(PatternIter &iter) {
 				} else if (p < '0' || p > '9') {
 					return;
 				}
+				iter.skip();
 			}
+			return;
 		}
 	}
 
@@ -615,7 +616,7 @@ bool TextParser<T,Alloc,Cmp>::skipToNextBranch(PatternIter &patiter) {
 		const T &c = patiter.getNext();
 		if (c == '%' && patiter.hasItems()) {
 			const T &d = patiter.peek();
-			if (d == c) {
+			if (d == c || d == '_' || d == ' ' || d == '\n' || d == '\t' || d == '\b') {
 				patiter.skip();
 			} else if (d == '|') {
 				patiter.skip();
@@ -624,6 +625,7 @@ bool TextParser<T,Alloc,Cmp>::skipToNextBranch(PatternIter &patiter) {
 				patiter.skip();
 				return false;
 			} else if (d == '<') {
+				patiter.skip();
 				bool x = skipToNextBranch(patiter);
 				while (x) x = skipToNextBranch(patiter);
 			} else {
-- 
2.43.0


From 7db66b7034f9caa7423bf3db321348fb7a976512 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:31:38 +0000
Subject: [PATCH 172/331] fix: TextFormat created with an allocator had
 undefined format of real numbers

---
 src/lightspeed/base/text/textFormat.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/lightspeed/base/text/textFormat.h b/src/lightspeed/base/text/textFormat.h
index d66de8b..ae3655f 100644
--- a/src/lightspeed/base/text/textFormat.h
+++ b/src/lightspeed/base/text/textFormat.h
@@ -118,7 +118,7 @@ enum SimpleManipulators {
 
 		TextFormat():base(10),decimals(6),sciFormat(false),newline(DefaultNLString<T>()) {}
 		TextFormat(const Alloc &alloc):buff(alloc),patternBuffer(alloc)
-				,base(10),decimals(6),newline(DefaultNLString<T>()) {}
+				,base(10),decimals(6),sciFormat(false),newline(DefaultNLString<T>()) {}
 
 		TextFormat &operator()(ConstStringT<T> pattern);
 		TextFormat &operator()(const T *pattern);
-- 
2.43.0


From 23140563074217d64b6ad0ad7e10739a0ff8e983 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:31:52 +0000
Subject: [PATCH 173/331] fix: text form of long real numbers was truncated

---
 src/lightspeed/base/text/toString.cpp | 47 ++++++++++-----------------
 1 file changed, 18 insertions(+), 29 deletions(-)

diff --git a/src/lightspeed/base/text/toString.cpp b/src/lightspeed/base/text/toString.cpp
index 6c09cd7..d6c71b1 100644
--- a/src/lightspeed/base/text/toString.cpp
+++ b/src/lightspeed/base/text/toString.cpp
@@ -17,55 +17,44 @@ namespace LightSpeed {
 #define snprintf sprintf_s
 #endif
 
-ToString<float, char>::ToString(float val, integer precision, bool sci)
+///Writes number formatted by snprintf of any length
+template<typename Stream>
+static void writeReal(Stream &out, double val, const char *format, int precision)
 {
 	char buff[256];
-	if (precision < 0) {
-		snprintf(buff,255,"%1.*g",int(-precision),double(val));
-	} else if (sci) {
-		snprintf(buff,255,"%1.*E",int(precision),double(val));
+	int len = snprintf(buff,256,format,precision,val);
+	if (len < 256) {
+		for (int i = 0; i < len; i++) out.write(buff[i]);
 	} else {
-		snprintf(buff,255,"%1.*f",int(precision),double(val));
+		AutoArray<char> longbuff;
+		longbuff.resize(len+1);
+		snprintf(longbuff.data(),len+1,format,precision,val);
+		for (int i = 0; i < len; i++) out.write(longbuff[i]);
 	}
-	char *c = buff;
-	while (*c) this->buffer.write(*c++);
-	commitBuffer();
+}
 
+ToString<float, char>::ToString(float val, integer precision, bool sci)
+{
+	writeReal(buffer,double(val),precision < 0?"%1.*g":sci?"%1.*E":"%1.*f",int(precision < 0?-precision:precision));
+	commitBuffer();
 }
 
 ToString<float, char>::ToString(float val)
 {
-	char buff[256];
-	snprintf(buff,255,"%g",double(val));
-	char *c = buff;
-	while (*c) this->buffer.write(*c++);
+	writeReal(buffer,double(val),"%1.*g",6);
 	commitBuffer();
-
 }
 
 ToString<double, char>::ToString(double val, integer precision, bool sci)
 {
-	char buff[256];
-	if (precision < 0) {
-		snprintf(buff,255,"%1.*g",int(-precision),double(val));
-	} else if (sci) {
-		snprintf(buff,255,"%1.*E",int(precision),double(val));
-	} else {
-		snprintf(buff,255,"%1.*f",int(precision),double(val));
-	}
-	char *c = buff;
-	while (*c) this->buffer.write(*c++);
+	writeReal(buffer,double(val),precision < 0?"%1.*g":sci?"%1.*E":"%1.*f",int(precision < 0?-precision:precision));
 	commitBuffer();
 }
 
 ToString<double, char>::ToString(double val)
 {
-	char buff[256];
-	snprintf(buff,255,"%g",double(val));
-	char *c = buff;
-	while (*c) this->buffer.write(*c++);
+	writeReal(buffer,double(val),"%1.*g",6);
 	commitBuffer();
-
 }
 
 
-- 
2.43.0


From 4819b6166e79250880b353f85a108d32dafb5aec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:41:05 +0000
Subject: [PATCH 174/331] fix: IOBuffer: writing overwrote unread data when
 they occupied the whole buffer

---
 src/lightspeed/base/streams/fileiobuff.h   | 3 +--
 src/lightspeed/base/streams/fileiobuff.tcc | 3 ++-
 2 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/lightspeed/base/streams/fileiobuff.h b/src/lightspeed/base/streams/fileiobuff.h
index 14281f6..1be0224 100644
--- a/src/lightspeed/base/streams/fileiobuff.h
+++ b/src/lightspeed/base/streams/fileiobuff.h
@@ -178,8 +178,7 @@ namespace LightSpeed {
 	virtual natural getOutputLength() const { return wrpos - wrbeg; }
 	virtual natural getOutputCapacity() const { return bufferSize;  }
 	virtual natural getOutputAvailable() const {
-		natural s = ((wrbeg < rdpos && rdpos < rdend) ? rdpos : bufferSize) - wrpos;
-		return s;
+		return getWriteSpace();
 	}
 	virtual void discardOutput(natural count) {
 		natural s = wrpos - wrbeg;
diff --git a/src/lightspeed/base/streams/fileiobuff.tcc b/src/lightspeed/base/streams/fileiobuff.tcc
index 34ceb51..e5e85fb 100644
--- a/src/lightspeed/base/streams/fileiobuff.tcc
+++ b/src/lightspeed/base/streams/fileiobuff.tcc
@@ -81,7 +81,8 @@ void IOBuffer<bufferSize>::intFetch() const {
 
 template<natural bufferSize>
 natural IOBuffer<bufferSize>::getWriteSpace() const {
-	return  ((wrbeg < rdpos && rdpos < rdend)?rdpos:bufferSize) - wrpos;
+	//wrbeg is equal to rdpos, when unread data occupy whole buffer
+	return  ((wrbeg <= rdpos && rdpos < rdend)?rdpos:bufferSize) - wrpos;
 }
 
 template<natural bufferSize>
-- 
2.43.0


From c2858b22cd63a153eea3c5ccbf81b02de153fade Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:41:06 +0000
Subject: [PATCH 175/331] fix: IOBuffer: putBack overwrote pending output and
 refused to return the whole read block

---
 src/lightspeed/base/streams/fileiobuff.tcc | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/lightspeed/base/streams/fileiobuff.tcc b/src/lightspeed/base/streams/fileiobuff.tcc
index e5e85fb..bd04f5f 100644
--- a/src/lightspeed/base/streams/fileiobuff.tcc
+++ b/src/lightspeed/base/streams/fileiobuff.tcc
@@ -293,9 +293,9 @@ void IOBuffer<bufferSize>::putBack(ConstBin seq) {
 	if (bufferSize - sz < seq.length()) throwWriteIteratorNoSpace(THISLOCATION, typeid(*this));
 
 	//there is space before the read buffer
-	if (rdpos > seq.length()) {
+	if (rdpos >= seq.length()) {
 		//if there is write buffer and no space to put seq
-		if (wrpos < rdpos && wrpos+seq.length() > rdpos) {
+		if (wrbeg < rdpos && wrpos+seq.length() > rdpos) {
 			//flush to output
 			intFlush();
 		}
-- 
2.43.0


From 80decf9ec7b014feed94480a1bbea9945983f2e1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:41:06 +0000
Subject: [PATCH 176/331] fix: IOBuffer: peek of zero bytes returned a negative
 count

---
 src/lightspeed/base/streams/fileiobuff.tcc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/lightspeed/base/streams/fileiobuff.tcc b/src/lightspeed/base/streams/fileiobuff.tcc
index bd04f5f..cd0711f 100644
--- a/src/lightspeed/base/streams/fileiobuff.tcc
+++ b/src/lightspeed/base/streams/fileiobuff.tcc
@@ -161,7 +161,7 @@ template<natural bufferSize>
 natural IOBuffer<bufferSize>::peek(void *buffer, natural size) const {
 	//we can now support peek buffer expansion
 	if (size == 0) {
-		if (canRead()) return rdpos - rdend;
+		if (canRead()) return rdend - rdpos;
 		else return 0;
 	}
 
-- 
2.43.0


From 1d6891b39c7e8a13928f2163ab98e72d428a4448 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:41:06 +0000
Subject: [PATCH 177/331] fix: IOBuffer: failed flush repeated bytes already
 written and did not report partial write

---
 src/lightspeed/base/streams/fileiobuff.tcc | 16 ++++++++++------
 1 file changed, 10 insertions(+), 6 deletions(-)

diff --git a/src/lightspeed/base/streams/fileiobuff.tcc b/src/lightspeed/base/streams/fileiobuff.tcc
index cd0711f..f9feb98 100644
--- a/src/lightspeed/base/streams/fileiobuff.tcc
+++ b/src/lightspeed/base/streams/fileiobuff.tcc
@@ -240,12 +240,16 @@ template<natural bufferSize>
 void IOBuffer<bufferSize>::intFlush() const {
 	//flush is only useful when there are bytes to flush
 	if (wrpos > wrbeg) {
-		//total to write
-		natural s = wrpos - wrbeg;
-		//write all
-		natural x = targetOut->writeAll(buff.data()+wrbeg, s);
-		//mark if output has been closed;
-		if (x == 0) outputClosed = true;
+		//write all, bytes already written must not be repeated after an exception
+		while (wrpos > wrbeg) {
+			natural x = targetOut->write(buff.data()+wrbeg, wrpos - wrbeg);
+			//mark if output has been closed;
+			if (x == 0) {
+				outputClosed = true;
+				break;
+			}
+			wrbeg += x;
+		}
 		//adjust write position
 		adjustWritePos();
 	}
-- 
2.43.0


From 04b32d1956388059eca820e833ae2b4bd608802f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:41:59 +0000
Subject: [PATCH 178/331] fix: SeqFileInBuff and SeqFileOutBuff: setAutoflush
 and getBuffer could not be compiled

---
 src/lightspeed/base/streams/fileiobuff.h | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/src/lightspeed/base/streams/fileiobuff.h b/src/lightspeed/base/streams/fileiobuff.h
index 1be0224..e9bbdd8 100644
--- a/src/lightspeed/base/streams/fileiobuff.h
+++ b/src/lightspeed/base/streams/fileiobuff.h
@@ -252,15 +252,15 @@ namespace LightSpeed {
 
         template<natural x>
         void setAutoflush( SeqFileOutBuff<x> &o) {
-        	getBuffer().setAutoflush(&o.buffr);
+        	getBuffer().setAutoflush(&o.getBuffer());
         }
 
         void setAutoflush(IBufferFlush *o) {
 			getBuffer().setAutoflush(o);
         }
 
-		const IOBuffer<bufferSize> &getBuffer() const { return static_cast<const IOBuffer<bufferSize> &>(*this->fhnd); }
-		IOBuffer<bufferSize> &getBuffer() { return static_cast<IOBuffer<bufferSize> &>(*this->fhnd); }
+		const IOBuffer<bufferSize> &getBuffer() const { return dynamic_cast<const IOBuffer<bufferSize> &>(*this->fhnd); }
+		IOBuffer<bufferSize> &getBuffer() { return dynamic_cast<IOBuffer<bufferSize> &>(*this->fhnd); }
     };
 
     template<natural bufferSize >
@@ -277,8 +277,8 @@ namespace LightSpeed {
 			: SeqFileOutput(new IOBuffer<bufferSize>(handle)) {}
 
 
-		const IOBuffer<bufferSize> &getBuffer() const { return static_cast<const IOBuffer<bufferSize> &>(*this->fhnd); }
-		IOBuffer<bufferSize> &getBuffer() { return static_cast<IOBuffer<bufferSize> &>(*this->fhnd); }
+		const IOBuffer<bufferSize> &getBuffer() const { return dynamic_cast<const IOBuffer<bufferSize> &>(*this->fhnd); }
+		IOBuffer<bufferSize> &getBuffer() { return dynamic_cast<IOBuffer<bufferSize> &>(*this->fhnd); }
 
 
 	};
-- 
2.43.0


From ad766f527619467e773572c64f1ab53f80cd6b54 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:06:36 +0000
Subject: [PATCH 179/331] fix: HttpRequest: Content-Length was sent along with
 the chunked body

---
 src/lightspeed/base/streams/httpc.tcc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/lightspeed/base/streams/httpc.tcc b/src/lightspeed/base/streams/httpc.tcc
index 55e5e09..4c6089e 100644
--- a/src/lightspeed/base/streams/httpc.tcc
+++ b/src/lightspeed/base/streams/httpc.tcc
@@ -137,7 +137,7 @@ namespace LightSpeed {
 	{
 		if (body) {
 			addHeader("Transfer-Encoding", "chunked");
-			hdrMap.erase(StrP(ConstStrA("Content-Length	")));
+			hdrMap.erase(StrP(ConstStrA("Content-Length")));
 		}
 
 		sendString(method);
-- 
2.43.0


From 6cfd596bca65cf5410aa3fdb10b33adb538aa635 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:06:36 +0000
Subject: [PATCH 180/331] fix: HttpRequest: body written without beginBody was
 not announced or was lost

---
 src/lightspeed/base/streams/httpc.tcc | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/lightspeed/base/streams/httpc.tcc b/src/lightspeed/base/streams/httpc.tcc
index 4c6089e..18f31f1 100644
--- a/src/lightspeed/base/streams/httpc.tcc
+++ b/src/lightspeed/base/streams/httpc.tcc
@@ -32,7 +32,7 @@ namespace LightSpeed {
 	template<typename FnOutput>
 	void HttpRequest<FnOutput>::reset()
 	{
-		if (headersSent) {
+		if (headersSent || !chunkBuff.empty()) {
 			flush();
 			sendChunk();
 		}
@@ -178,7 +178,7 @@ namespace LightSpeed {
 	template<typename FnOutput>
 	void HttpRequest<FnOutput>::flush()
 	{
-		if (!headersSent) sendHeaders();
+		if (!headersSent) sendHeaders(true);
 		if (!chunkBuff.empty()) {
 			sendChunk();
 			chunkBuff.clear();
-- 
2.43.0


From d2c509775edf657e126d3801486a0d50ea29fb08 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:06:36 +0000
Subject: [PATCH 181/331] fix: HttpRequest: reducing of the chunk size disabled
 flushing of chunks

---
 src/lightspeed/base/streams/httpc.tcc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/lightspeed/base/streams/httpc.tcc b/src/lightspeed/base/streams/httpc.tcc
index 18f31f1..c7e7e38 100644
--- a/src/lightspeed/base/streams/httpc.tcc
+++ b/src/lightspeed/base/streams/httpc.tcc
@@ -166,7 +166,7 @@ namespace LightSpeed {
 	void HttpRequest<FnOutput>::write(const byte & b)
 	{
 		chunkBuff.add(b);
-		if (chunkBuff.length() == maxChunkSize) flush();
+		if (chunkBuff.length() >= maxChunkSize) flush();
 	}
 
 	template<typename FnOutput>
-- 
2.43.0


From a72aa89f09f83ddc04e7bcbe8af853cf195bf632 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:06:36 +0000
Subject: [PATCH 182/331] fix: HttpRequest: query without a path and fragment
 of the url became a part of the host

---
 src/lightspeed/base/streams/httpc.tcc | 33 ++++++++++++---------------
 1 file changed, 15 insertions(+), 18 deletions(-)

diff --git a/src/lightspeed/base/streams/httpc.tcc b/src/lightspeed/base/streams/httpc.tcc
index c7e7e38..fedb693 100644
--- a/src/lightspeed/base/streams/httpc.tcc
+++ b/src/lightspeed/base/streams/httpc.tcc
@@ -67,25 +67,22 @@ namespace LightSpeed {
 			return false;
 		}
 		
-		if (proxy) {
-			setPath(url);
-			url = url.offset(protoSep + 3);
-			natural pathSep = url.find('/');
-			if (pathSep != naturalNull) {
-				url = url.head(pathSep);
-			}
-		}
-		else {
-			url = url.offset(protoSep + 3);
-			natural pathSep = url.find('/');
-			if (pathSep == naturalNull) {
-				setPath("/");
-			}
-			else {
-				setPath(url.offset(pathSep));
-				url = url.head(pathSep);
-			}
+		//fragment is never sent to the server
+		natural fragSep = url.find('#');
+		if (fragSep != naturalNull) url = url.head(fragSep);
+
+		if (proxy) setPath(url);
+		url = url.offset(protoSep + 3);
+		//authority ends by the path or by the query
+		natural pathSep = 0;
+		while (pathSep < url.length() && url[pathSep] != '/' && url[pathSep] != '?') pathSep++;
+		if (!proxy) {
+			ConstStrA p = url.offset(pathSep);
+			if (p.empty()) setPath("/");
+			else if (p[0] == '/') setPath(p);
+			else setPath(StringA(ConstStrA("/") + p));
 		}
+		url = url.head(pathSep);
 		natural authSep = url.find('@');
 		if (authSep != naturalNull) {
 			ConstStrA auth = url.head(authSep);
-- 
2.43.0


From 5591050f2436294cdff9a8df5054ac12da27128e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:12:04 +0000
Subject: [PATCH 183/331] fix: HttpResponse: broken or truncated headers and
 lengths were accepted or read for ever

---
 src/lightspeed/base/streams/httpc.h   |  1 +
 src/lightspeed/base/streams/httpc.tcc | 74 ++++++++++++++-------------
 2 files changed, 40 insertions(+), 35 deletions(-)

diff --git a/src/lightspeed/base/streams/httpc.h b/src/lightspeed/base/streams/httpc.h
index 9d75d7e..5214c7d 100644
--- a/src/lightspeed/base/streams/httpc.h
+++ b/src/lightspeed/base/streams/httpc.h
@@ -188,6 +188,7 @@ namespace LightSpeed {
 
 		static const byte eofByte = 0xFF;
 		StrP readLine() const;
+		natural openFailed();
 		static natural parseNumber(ConstStrA n, natural base);
 		static void trim(ConstStrA &str);
 		bool openChunk() const;
diff --git a/src/lightspeed/base/streams/httpc.tcc b/src/lightspeed/base/streams/httpc.tcc
index fedb693..c318e36 100644
--- a/src/lightspeed/base/streams/httpc.tcc
+++ b/src/lightspeed/base/streams/httpc.tcc
@@ -214,13 +214,15 @@ namespace LightSpeed {
 
 	template<typename FnInput>
 	inline HttpResponse<FnInput>::HttpResponse(const FnInput & input)
-		:reqOpened(false)
+		:statusCode(0)
+		, reqOpened(false)
 		, headerParsed(false)
 		, chunkedRead(false)
 		, eof(true)
 		, readLen(0)
 		, input(input)
 		, cloaded(false)
+		, readMode(rmLimited)
 	{
 	}
 	
@@ -237,6 +239,17 @@ namespace LightSpeed {
 	}
 
 
+	template<typename FnInput>
+	natural HttpResponse<FnInput>::openFailed()
+	{
+		//there is no body
+		statusCode = naturalNull;
+		readMode = rmLimited;
+		readLen = 0;
+		cloaded = false;
+		return naturalNull;
+	}
+
 	template<typename FnInput>
 	natural HttpResponse<FnInput>::open()
 	{
@@ -247,21 +260,24 @@ namespace LightSpeed {
 
 		StrP hdrline = readLine();
 		while (hdrline.empty()) {
+			if (eof) return openFailed();
 			strPool.clear();
 			hdrline = readLine();
 		}
 		StrP::SplitIterator iter = hdrline.split(' ');
 		httpVersion = strPool.add(ConstStrA(iter.getNext()));
+		if (httpVersion.empty() || !iter.hasItems()) return openFailed();
 		ConstStrA statusCodeStr = strPool.add(ConstStrA(iter.getNext()));
 		statusMessage = strPool.add(ConstStrA(iter.getRest()));
 		statusCode = parseNumber(statusCodeStr,10);
+		if (statusCode == naturalNull) return openFailed();
 
 		hdrline = readLine();
 
 		while (!hdrline.empty()) {
 			ConstStrA hdrl = hdrline;
 			natural sep = hdrline.find(':');
-			if (sep == naturalNull) { return naturalNull; }
+			if (sep == naturalNull) return openFailed();
 			ConstStrA field = hdrl.head(sep);
 			ConstStrA value = hdrl.offset(sep + 1);
 			trim(field);
@@ -269,6 +285,8 @@ namespace LightSpeed {
 			hdrMap.insert(strPool.add(field),strPool.add(value));
 			hdrline = readLine();
 		}
+		//header must be ended by an empty line
+		if (eof) return openFailed();
 
 		ConstStrA te = getHeader("Transfer-Encoding");
 		if (te == "chunked") {
@@ -281,6 +299,7 @@ namespace LightSpeed {
 			ConstStrA cl = getHeader("Content-Length");
 			if (!cl.empty()) {
 				readLen = parseNumber(cl,10);
+				if (readLen == naturalNull) return openFailed();
 				readMode = rmLimited;
 			}
 			else {
@@ -376,7 +395,15 @@ namespace LightSpeed {
 		while (ln.empty()) {
 			ln = readLine();
 		}
+		//size of the chunk can be followed by extensions
+		natural ext = ln.find(';');
+		if (ext != naturalNull) ln = ln.head(ext);
 		readLen = parseNumber(ln, 16);
+		if (readLen == naturalNull) {
+			readLen = 0;
+			eof = true;
+			return false;
+		}
 		if (readLen == 0) {
 			readLine();
 			eof = true;
@@ -490,43 +517,20 @@ namespace LightSpeed {
 	template<typename FnInput>
 	natural HttpResponse<FnInput>::parseNumber(ConstStrA nstr, natural base)
 	{
+		//returns naturalNull, if the text is not a number or if it is out of the range
 		natural n = 0;
+		trim(nstr);
+		if (nstr.empty()) return naturalNull;
 		ConstStrA::Iterator iter = nstr.getFwIter();
 		while (iter.hasItems()) {
 			byte c = iter.getNext();
-			if (c >= '0' && c<='9') {
-				n = c - '0';
-				break;
-			}
-			else if (c >= 'A' && c < ('A' + base - 10)) {
-				n = c - 'A' + 10;
-				break;
-			}
-			else if (c >= 'a' && c < ('a' + base - 10)) {
-				n = c - 'a' + 10;
-				break;
-			}
-
-			else if (c != ' ' && c != '\t') {
-				return 0;
-			}
-		}
-
-		while (iter.hasItems()) {
-			byte c = iter.getNext();
-			if (c >= '0' && c <= '9') {
-				n = n * base + c - '0';
-			}
-			else if (c >= 'A' && c < ('A' + base - 10)) {
-				n = n * base + c - 'A' + 10;
-			}
-			else if (c >= 'a' && c < ('a' + base - 10)) {
-				n = n * base + c - 'a' + 10;
-				break;
-			}
-			else {
-				break;
-			}
+			natural d;
+			if (c >= '0' && c <= '9') d = c - '0';
+			else if (base > 10 && c >= 'A' && c < ('A' + base - 10)) d = c - 'A' + 10;
+			else if (base > 10 && c >= 'a' && c < ('a' + base - 10)) d = c - 'a' + 10;
+			else return naturalNull;
+			if (n > (naturalNull - 1 - d) / base) return naturalNull;
+			n = n * base + d;
 		}
 		return n;
 	}
-- 
2.43.0


From bc464c17d87b106861d2c093c31c5d78264675bd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:16:00 +0000
Subject: [PATCH 184/331] fix: HttpResponse: reading at the end of the body
 took bytes of the next response or never ended

---
 src/lightspeed/base/streams/httpc.tcc | 80 +++++++++------------------
 1 file changed, 25 insertions(+), 55 deletions(-)

diff --git a/src/lightspeed/base/streams/httpc.tcc b/src/lightspeed/base/streams/httpc.tcc
index c318e36..e0831f5 100644
--- a/src/lightspeed/base/streams/httpc.tcc
+++ b/src/lightspeed/base/streams/httpc.tcc
@@ -319,7 +319,13 @@ namespace LightSpeed {
 		if (reqOpened) {
 			if (headerParsed) {
 				if (readLen != naturalNull) {
-					while (hasItems()) this->skip();
+					while (hasItems()) {
+						if (!cloaded && !fetchByte()) break;
+						cloaded = false;
+						readLen--;
+					}
+					//body is not complete
+					if (readLen != 0) return false;
 				}
 				else {
 					return false;
@@ -375,11 +381,14 @@ namespace LightSpeed {
 		switch (readMode) {
 		case rmDirect: 
 			if (cloaded) return true;
+			if (eof) return false;
 			return fetchByte();
 		case rmLimited:			
-			return cloaded || readLen > 0;
+			return cloaded || (readLen > 0 && !eof);
 		case rmChunked:
-			if (cloaded || readLen > 0) return true;
+			if (cloaded) return true;
+			if (eof) return false;
+			if (readLen > 0) return true;
 			return openChunk();
 		default:
 			return false;
@@ -393,6 +402,11 @@ namespace LightSpeed {
 		natural p = strPool.mark();
 		ConstStrA ln = readLine();
 		while (ln.empty()) {
+			if (eof) {
+				//mark broken body
+				readLen = naturalNull;
+				return false;
+			}
 			ln = readLine();
 		}
 		//size of the chunk can be followed by extensions
@@ -400,12 +414,12 @@ namespace LightSpeed {
 		if (ext != naturalNull) ln = ln.head(ext);
 		readLen = parseNumber(ln, 16);
 		if (readLen == naturalNull) {
-			readLen = 0;
 			eof = true;
 			return false;
 		}
 		if (readLen == 0) {
-			readLine();
+			//skip trailers
+			while (!readLine().empty()) {}
 			eof = true;
 			return false;
 		}
@@ -419,62 +433,18 @@ namespace LightSpeed {
 	template<typename FnInput>
 	const byte & HttpResponse<FnInput>::getNext() 
 	{
-		switch (readMode) {
-		case rmDirect:
-			if (!cloaded) {
-				if (!fetchByte()) throwIteratorNoMoreItems(THISLOCATION, typeid(*this));
-			}
-			cloaded = false;
-			return c;
-		case rmLimited:
-			if (!cloaded) {
-				if (!fetchByte()) throwIteratorNoMoreItems(THISLOCATION, typeid(*this));
-			}
-			readLen--;
-			cloaded = false;
-			return c;
-		case rmChunked:
-			if (!cloaded) {
-				if (readLen == 0) {
-					if (!openChunk())
-						throwIteratorNoMoreItems(THISLOCATION, typeid(*this));
-				}
-				if (!fetchByte()) throwIteratorNoMoreItems(THISLOCATION, typeid(*this));
-			}
-			readLen--;
-			cloaded = false;
-			return c;
-		}
-		throwIteratorNoMoreItems(THISLOCATION, typeid(*this));
+		if (!hasItems() || (!cloaded && !fetchByte()))
+			throwIteratorNoMoreItems(THISLOCATION, typeid(*this));
+		if (readMode != rmDirect) readLen--;
+		cloaded = false;
 		return c;
 	}
 
 	template<typename FnInput>
 	const byte & HttpResponse<FnInput>::peek() const
 	{
-		switch (readMode) {
-		case rmDirect:
-			if (!cloaded) {
-				if (!fetchByte()) throwIteratorNoMoreItems(THISLOCATION, typeid(*this));
-			}
-			return c;
-		case rmLimited:
-			if (!cloaded) {
-				if (!fetchByte()) throwIteratorNoMoreItems(THISLOCATION, typeid(*this));
-			}
-			return c;
-		case rmChunked:
-			if (!cloaded) {
-				if (readLen == 0) {
-					openChunk();
-					if (eof)
-						throwIteratorNoMoreItems(THISLOCATION, typeid(*this));
-				}
-				if (!fetchByte()) throwIteratorNoMoreItems(THISLOCATION, typeid(*this));
-			}
-			return c;
-		}
-		throwIteratorNoMoreItems(THISLOCATION, typeid(*this));
+		if (!hasItems() || (!cloaded && !fetchByte()))
+			throwIteratorNoMoreItems(THISLOCATION, typeid(*this));
 		return c;
 	}
 
-- 
2.43.0


From c3c3ed24772858841976314255fe95141fad9357 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:16:00 +0000
Subject: [PATCH 185/331] fix: HttpResponse: reading functions did not open the
 response

---
 src/lightspeed/base/streams/httpc.h   | 4 ++++
 src/lightspeed/base/streams/httpc.tcc | 2 ++
 2 files changed, 6 insertions(+)

diff --git a/src/lightspeed/base/streams/httpc.h b/src/lightspeed/base/streams/httpc.h
index 5214c7d..6a034d3 100644
--- a/src/lightspeed/base/streams/httpc.h
+++ b/src/lightspeed/base/streams/httpc.h
@@ -193,6 +193,10 @@ namespace LightSpeed {
 		static void trim(ConstStrA &str);
 		bool openChunk() const;
 		bool fetchByte() const;
+		///opens the response if it is not opened yet
+		void autoOpen() const {
+			if (!reqOpened) const_cast<HttpResponse *>(this)->open();
+		}
 	};
 
 	class HttpClientInstance {
diff --git a/src/lightspeed/base/streams/httpc.tcc b/src/lightspeed/base/streams/httpc.tcc
index e0831f5..8d53e4e 100644
--- a/src/lightspeed/base/streams/httpc.tcc
+++ b/src/lightspeed/base/streams/httpc.tcc
@@ -378,6 +378,7 @@ namespace LightSpeed {
 	template<typename FnInput>
 	bool HttpResponse<FnInput>::hasItems() const
 	{			
+		autoOpen();
 		switch (readMode) {
 		case rmDirect: 
 			if (cloaded) return true;
@@ -451,6 +452,7 @@ namespace LightSpeed {
 	template<typename FnInput>
 	natural HttpResponse<FnInput>::getRemain() const
 	{
+		autoOpen();
 		switch (readMode) {
 		case rmDirect: return hasItems() ? naturalNull : 0;
 		case rmLimited: return hasItems() ? readLen : 0;
-- 
2.43.0


From fe0c99a685880c6dcc5dd4e6b304485998d3bde6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:16:00 +0000
Subject: [PATCH 186/331] fix: HttpResponse: names of headers and of the
 transfer coding were case sensitive

---
 src/lightspeed/base/streams/httpc.h   | 11 +++++++++--
 src/lightspeed/base/streams/httpc.tcc |  2 +-
 2 files changed, 10 insertions(+), 3 deletions(-)

diff --git a/src/lightspeed/base/streams/httpc.h b/src/lightspeed/base/streams/httpc.h
index 6a034d3..c41d916 100644
--- a/src/lightspeed/base/streams/httpc.h
+++ b/src/lightspeed/base/streams/httpc.h
@@ -10,6 +10,13 @@ namespace LightSpeed {
 
 
 
+	///Orders names of headers, which are not case sensitive
+	struct HttpHeaderLess {
+		bool operator()(ConstStrA a, ConstStrA b) const {
+			return StrCmpCI<char>()(a, b) == cmpResultLess;
+		}
+	};
+
 	template<typename FnOutput>
 	class HttpRequest: public WriteIteratorBase<byte, HttpRequest<FnOutput> > {
 	public:
@@ -61,7 +68,7 @@ namespace LightSpeed {
 	protected:
 
 		typedef StringPoolA::Str StrP;
-		typedef Map<StrP, StrP> HdrMap;
+		typedef Map<StrP, StrP, HttpHeaderLess> HdrMap;
 
 		StringPoolA strPool;
 		StrP method;
@@ -160,7 +167,7 @@ namespace LightSpeed {
 
 	protected:
 		typedef StringPoolA::Str StrP;
-		typedef Map<StrP, StrP> HdrMap;
+		typedef Map<StrP, StrP, HttpHeaderLess> HdrMap;
 
 		mutable StringPoolA strPool;
 		StrP statusMessage;
diff --git a/src/lightspeed/base/streams/httpc.tcc b/src/lightspeed/base/streams/httpc.tcc
index 8d53e4e..55f7cf2 100644
--- a/src/lightspeed/base/streams/httpc.tcc
+++ b/src/lightspeed/base/streams/httpc.tcc
@@ -289,7 +289,7 @@ namespace LightSpeed {
 		if (eof) return openFailed();
 
 		ConstStrA te = getHeader("Transfer-Encoding");
-		if (te == "chunked") {
+		if (StrCmpCI<char>()(te, "chunked") == cmpResultEqual) {
 			chunkedRead = true;
 			readLen = 0;
 			readMode = rmChunked;
-- 
2.43.0


From 1de9c817935f1a5f42ea2d71350d72c36762742a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:16:00 +0000
Subject: [PATCH 187/331] fix: HttpResponse: responses 204 and 304 waited for a
 body

---
 src/lightspeed/base/streams/httpc.tcc | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/lightspeed/base/streams/httpc.tcc b/src/lightspeed/base/streams/httpc.tcc
index 55f7cf2..0598c79 100644
--- a/src/lightspeed/base/streams/httpc.tcc
+++ b/src/lightspeed/base/streams/httpc.tcc
@@ -297,7 +297,12 @@ namespace LightSpeed {
 		else {
 			chunkedRead = false;
 			ConstStrA cl = getHeader("Content-Length");
-			if (!cl.empty()) {
+			if (statusCode == 204 || statusCode == 304) {
+				//these responses never have a body
+				readLen = 0;
+				readMode = rmLimited;
+			}
+			else if (!cl.empty()) {
 				readLen = parseNumber(cl,10);
 				if (readLen == naturalNull) return openFailed();
 				readMode = rmLimited;
-- 
2.43.0


From 5f62ce355b5945204492089287643af1e4495273 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:28:32 +0000
Subject: [PATCH 188/331] fix: MemFile: append mode of a new file was undefined

---
 src/lightspeed/base/streams/memfile.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/lightspeed/base/streams/memfile.h b/src/lightspeed/base/streams/memfile.h
index 9e429ec..47a5249 100644
--- a/src/lightspeed/base/streams/memfile.h
+++ b/src/lightspeed/base/streams/memfile.h
@@ -35,7 +35,7 @@ namespace LightSpeed {
         virtual natural dataReady() const {return true;}
         virtual void closeOutput() {readOnly = true;}
 
-        MemFile():pos(0),readOnly(false) {}
+        MemFile():pos(0),appendMode(false),readOnly(false) {}
                 
 
         bool empty() const {return filebuffer.empty();}
-- 
2.43.0


From 8707149464037029352b7e14afffffa594541990 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:28:32 +0000
Subject: [PATCH 189/331] fix: MemFile: position after appending was not at the
 end of the file

---
 src/lightspeed/base/streams/memfile.tcc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/lightspeed/base/streams/memfile.tcc b/src/lightspeed/base/streams/memfile.tcc
index 172bfa8..7db3e6d 100644
--- a/src/lightspeed/base/streams/memfile.tcc
+++ b/src/lightspeed/base/streams/memfile.tcc
@@ -41,7 +41,7 @@ natural MemFile<Alloc>::write(const void *buffer, natural size)
 		filebuffer.resize(endrd);
 	}
 	memcpy(filebuffer.data()+wrpos,buffer,size);
-	pos += size;
+	pos = endrd;
 	return size;
 }
 
-- 
2.43.0


From c0763cc5fa9af2c4f055ef43b0424af754a87b07 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:28:32 +0000
Subject: [PATCH 190/331] fix: MemFile: overflow of the end position

---
 src/lightspeed/base/streams/memfile.tcc | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/lightspeed/base/streams/memfile.tcc b/src/lightspeed/base/streams/memfile.tcc
index 7db3e6d..40bda4e 100644
--- a/src/lightspeed/base/streams/memfile.tcc
+++ b/src/lightspeed/base/streams/memfile.tcc
@@ -21,8 +21,7 @@ natural MemFile<Alloc>::read(void *buffer, natural size)
 {
 	natural l = filebuffer.length();
 	if (pos >= l) return 0;
-	natural endrd = pos + size;
-	if (endrd >= l) endrd = l;
+	natural endrd = size >= l - pos ? l : pos + size;
 	natural rdl = endrd - pos;
 	memcpy(buffer,filebuffer.data()+pos,rdl);
 	pos += rdl;
@@ -36,6 +35,7 @@ natural MemFile<Alloc>::write(const void *buffer, natural size)
 {
 	natural wrpos = appendMode?filebuffer.length():pos;
 	natural l = filebuffer.length();
+	if (size > naturalNull - wrpos) throwWriteIteratorNoSpace(THISLOCATION, typeid(*this));
 	natural endrd = wrpos + size;
 	if (endrd >= l) {
 		filebuffer.resize(endrd);
@@ -75,8 +75,7 @@ template<typename Alloc> inline natural MemFile<Alloc>::read(void *buffer, natur
 	natural pos = (natural)offset;
 	natural l = filebuffer.length();
 	if (pos >= l) return 0;
-	natural endrd = pos + size;
-	if (endrd >= l) endrd = l;
+	natural endrd = size >= l - pos ? l : pos + size;
 	natural rdl = endrd - pos;
 	memcpy(buffer,filebuffer.data()+pos,rdl);
 	return rdl;
@@ -88,6 +87,7 @@ template<typename Alloc> inline natural MemFile<Alloc>::write(const void *buffer
 {
 	natural pos = (natural)offset;
 	natural l = filebuffer.length();
+	if (size > naturalNull - pos) throwWriteIteratorNoSpace(THISLOCATION, typeid(*this));
 	natural endrd = pos + size;
 	if (endrd >= l) {
 		filebuffer.resize(endrd);
-- 
2.43.0


From 4f23a16adfc32f140c978c70aaeb219e5154345f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:28:32 +0000
Subject: [PATCH 191/331] fix: MemFileStr: reading from a position behind the
 end

---
 src/lightspeed/base/streams/memfile.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/lightspeed/base/streams/memfile.cpp b/src/lightspeed/base/streams/memfile.cpp
index 7985dd7..7499774 100644
--- a/src/lightspeed/base/streams/memfile.cpp
+++ b/src/lightspeed/base/streams/memfile.cpp
@@ -15,6 +15,7 @@ template class MemFile<>;
 
 
 natural MemFileStr::read(void* buffer, natural size) {
+	if (pos >= text.length()) return 0;
 	natural remain = text.length() - pos;
 	if (remain < size) size = remain;
 	memcpy(buffer,text.data()+pos,size);
@@ -27,6 +28,7 @@ natural MemFileStr::write(const void* , natural ) {
 }
 
 natural MemFileStr::peek(void* buffer, natural size) const {
+	if (pos >= text.length()) return 0;
 	natural remain = text.length() - pos;
 	if (remain < size) size = remain;
 	memcpy(buffer,text.data()+pos,size);
-- 
2.43.0


From eca17780af59b2edf25f14312d00f2fc2e0ab98c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:28:32 +0000
Subject: [PATCH 192/331] fix: RndFileWriter: canWrite after the output has
 been closed

---
 src/lightspeed/base/streams/fileio.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/lightspeed/base/streams/fileio.h b/src/lightspeed/base/streams/fileio.h
index 93d2209..55f4159 100644
--- a/src/lightspeed/base/streams/fileio.h
+++ b/src/lightspeed/base/streams/fileio.h
@@ -66,7 +66,7 @@ public:
 
     }
 	virtual bool canWrite() const {
-		return true;
+		return canWr;
 	}
 	virtual void flush()  {rndFile->flush();}
 	IRndFileHandle::FileOffset getOffset() const {return offset;}
-- 
2.43.0


From 345db6d1c4de180606aeee8253075b1bd79c0a74 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:28:55 +0000
Subject: [PATCH 193/331] fix: MemFile: extended parts of the file were not
 filled with zeroes

---
 src/lightspeed/base/streams/memfile.tcc | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/lightspeed/base/streams/memfile.tcc b/src/lightspeed/base/streams/memfile.tcc
index 40bda4e..cd6ab13 100644
--- a/src/lightspeed/base/streams/memfile.tcc
+++ b/src/lightspeed/base/streams/memfile.tcc
@@ -37,6 +37,7 @@ natural MemFile<Alloc>::write(const void *buffer, natural size)
 	natural l = filebuffer.length();
 	if (size > naturalNull - wrpos) throwWriteIteratorNoSpace(THISLOCATION, typeid(*this));
 	natural endrd = wrpos + size;
+	if (wrpos > l) filebuffer.resize(wrpos,0);
 	if (endrd >= l) {
 		filebuffer.resize(endrd);
 	}
@@ -89,6 +90,7 @@ template<typename Alloc> inline natural MemFile<Alloc>::write(const void *buffer
 	natural l = filebuffer.length();
 	if (size > naturalNull - pos) throwWriteIteratorNoSpace(THISLOCATION, typeid(*this));
 	natural endrd = pos + size;
+	if (pos > l) filebuffer.resize(pos,0);
 	if (endrd >= l) {
 		filebuffer.resize(endrd);
 	}
@@ -100,7 +102,7 @@ template<typename Alloc> inline natural MemFile<Alloc>::write(const void *buffer
 
 template<typename Alloc> inline void MemFile<Alloc>::setSize(FileOffset size)
 {
-	filebuffer.resize((natural)size);
+	filebuffer.resize((natural)size,0);
 }
 
 
-- 
2.43.0


From 60e8a67911297682b634643d3931e40b9482cf79 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:28:55 +0000
Subject: [PATCH 194/331] fix: MemFile: closed output could be written

---
 src/lightspeed/base/streams/memfile.tcc | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/lightspeed/base/streams/memfile.tcc b/src/lightspeed/base/streams/memfile.tcc
index cd6ab13..925697d 100644
--- a/src/lightspeed/base/streams/memfile.tcc
+++ b/src/lightspeed/base/streams/memfile.tcc
@@ -33,6 +33,7 @@ natural MemFile<Alloc>::read(void *buffer, natural size)
 template<typename Alloc>
 natural MemFile<Alloc>::write(const void *buffer, natural size)
 {
+	if (readOnly) throwWriteIteratorNoSpace(THISLOCATION, typeid(*this));
 	natural wrpos = appendMode?filebuffer.length():pos;
 	natural l = filebuffer.length();
 	if (size > naturalNull - wrpos) throwWriteIteratorNoSpace(THISLOCATION, typeid(*this));
@@ -86,6 +87,7 @@ template<typename Alloc> inline natural MemFile<Alloc>::read(void *buffer, natur
 
 template<typename Alloc> inline natural MemFile<Alloc>::write(const void *buffer, natural size, FileOffset offset)
 {
+	if (readOnly) throwWriteIteratorNoSpace(THISLOCATION, typeid(*this));
 	natural pos = (natural)offset;
 	natural l = filebuffer.length();
 	if (size > naturalNull - pos) throwWriteIteratorNoSpace(THISLOCATION, typeid(*this));
-- 
2.43.0


From 488068467d2dd431b82cdcaf7aaa204a034122a3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:44:46 +0000
Subject: [PATCH 195/331] fix: file opened with deleteOnClose was never deleted

---
 src/lightspeed/base/linux/fileio.cpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/lightspeed/base/linux/fileio.cpp b/src/lightspeed/base/linux/fileio.cpp
index c5c1041..f412aa7 100644
--- a/src/lightspeed/base/linux/fileio.cpp
+++ b/src/lightspeed/base/linux/fileio.cpp
@@ -309,7 +309,7 @@ namespace LightSpeed {
     	using namespace OpenFlags;
 
 
-        bool deleteOnClose = false;
+        bool removeOnClose = false;
         StringA cname =String::getUtf8(ofn);
         if (cname.length() > 4 && cname.head(4) == ConstStrA("#fd:")) {
         	int fx;
@@ -337,7 +337,7 @@ namespace LightSpeed {
 
     	int createFlags =  S_IRUSR|S_IWUSR|S_IWGRP|S_IRGRP|S_IWOTH|S_IROTH;
         if (flags & writeThrough) openFlags|=O_SYNC;
-        if (flags & deleteOnClose) deleteOnClose = true;
+        if (flags & deleteOnClose) removeOnClose = true;
         if (flags & append) openFlags|=O_APPEND;
         if (flags & create) {
         	openFlags|=O_CREAT;
@@ -359,7 +359,7 @@ namespace LightSpeed {
         fcntl(fd, F_SETFD, FD_CLOEXEC);
 #endif
 #endif
-        return new FileDescriptor(fd,cname,deleteOnClose,
+        return new FileDescriptor(fd,cname,removeOnClose,
         		openFlags == O_WRONLY,openFlags == O_RDONLY);
         
     }
-- 
2.43.0


From 1a069042622233870788b371a72fe538752f42fd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:44:46 +0000
Subject: [PATCH 196/331] fix: canRead and canWrite did not respect the mode
 the file was opened in

---
 src/lightspeed/base/linux/fileio.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/lightspeed/base/linux/fileio.cpp b/src/lightspeed/base/linux/fileio.cpp
index f412aa7..8b51d1c 100644
--- a/src/lightspeed/base/linux/fileio.cpp
+++ b/src/lightspeed/base/linux/fileio.cpp
@@ -276,7 +276,7 @@ namespace LightSpeed {
     public:
     	FileDescriptorCommitOnClose(FileDescriptor *originDesc, String targetName)
     		:FileDescriptor(originDesc->fd, originDesc->name,false,
-    				originDesc->maskWrite,originDesc->maskRead)
+    				originDesc->maskRead,originDesc->maskWrite)
     		,targetFile(targetName)
     	{
     		originDesc->fd = -1;
@@ -360,7 +360,7 @@ namespace LightSpeed {
 #endif
 #endif
         return new FileDescriptor(fd,cname,removeOnClose,
-        		openFlags == O_WRONLY,openFlags == O_RDONLY);
+        		(openFlags & O_ACCMODE) == O_WRONLY,(openFlags & O_ACCMODE) == O_RDONLY);
         
     }
     
-- 
2.43.0


From dfc352f216dd19956a41be901d2ae31f1c274795 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:44:46 +0000
Subject: [PATCH 197/331] fix: file could be written after closeOutput and its
 size was wrong after positional write in append mode

---
 src/lightspeed/base/linux/fileio.cpp | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/src/lightspeed/base/linux/fileio.cpp b/src/lightspeed/base/linux/fileio.cpp
index 8b51d1c..03f1706 100644
--- a/src/lightspeed/base/linux/fileio.cpp
+++ b/src/lightspeed/base/linux/fileio.cpp
@@ -381,6 +381,7 @@ namespace LightSpeed {
     natural FileDescriptor::write(const void *buffer, 
                               natural size, 
                               FileOffset offset) {
+        if (maskWrite) throw FileIOError(THISLOCATION, EBADF, name);
         rep:;
         int wd = ::pwrite(fd,buffer,size, offset);
         if (wd == -1) {
@@ -389,9 +390,7 @@ namespace LightSpeed {
             else
                 throw FileIOError(THISLOCATION, errno, name);
         }
-        if (cachedSize != lnaturalNull && offset + size > cachedSize) {
-        	cachedSize = lnaturalNull;
-        }
+        cachedSize = lnaturalNull;
         return wd;
     }
 
@@ -423,11 +422,13 @@ namespace LightSpeed {
 
     natural FileDescriptor::write(const void *buffer,
                               natural size) {
+    	if (maskWrite) throw FileIOError(THISLOCATION, EBADF, name);
     	cachedSize = lnaturalNull;
     	return FileDescriptorSeq::write(buffer,size);
     }
 
     void FileDescriptor::setSize(FileOffset size) {
+        if (maskWrite) throw FileIOError(THISLOCATION, EBADF, name);
         rep:;
         int wd = ftruncate(fd,size);
         if (wd == -1) {
-- 
2.43.0


From 76673928e5134686aaaa491c1e3be84e18047f2e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:44:46 +0000
Subject: [PATCH 198/331] fix: commitOnClose: closed output could be written

---
 src/lightspeed/base/linux/fileio.cpp | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/src/lightspeed/base/linux/fileio.cpp b/src/lightspeed/base/linux/fileio.cpp
index 03f1706..962fbae 100644
--- a/src/lightspeed/base/linux/fileio.cpp
+++ b/src/lightspeed/base/linux/fileio.cpp
@@ -285,7 +285,14 @@ namespace LightSpeed {
 
     	void closeOutput() {
     		if (fd!=-1) {
-    			flush();
+    			maskWrite = true;
+    			try {
+    				flush();
+    			} catch (...) {
+    				close(fd);
+    				fd = -1;
+    				throw;
+    			}
     			IFileIOServices &svcs = IFileIOServices::getIOServices();
     			close(fd);
     			fd = -1;
-- 
2.43.0


From ecaed6ee5039ac635412b5c747a8eb3472fa4382 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:44:46 +0000
Subject: [PATCH 199/331] fix: commitOnClose: failure during destruction
 terminated the process, temporary file remained after discarding

---
 src/lightspeed/base/linux/fileio.cpp | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/src/lightspeed/base/linux/fileio.cpp b/src/lightspeed/base/linux/fileio.cpp
index 962fbae..4a2f86a 100644
--- a/src/lightspeed/base/linux/fileio.cpp
+++ b/src/lightspeed/base/linux/fileio.cpp
@@ -304,8 +304,15 @@ namespace LightSpeed {
     	}
 
     	~FileDescriptorCommitOnClose() {
-    		if (!std::uncaught_exception())
-    			closeOutput();
+    		if (!std::uncaught_exception()) {
+    			try {
+    				closeOutput();
+    			} catch (...) {
+    				//destructor cannot throw, the old file remains. Use closeOutput() to receive the error
+    			}
+    		} else if (fd != -1) {
+    			::remove(name.c_str());
+    		}
     	}
     protected:
     	String targetFile;
-- 
2.43.0


From e050d2a3b8b650df97d6029805c80d0a57a13543 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:44:46 +0000
Subject: [PATCH 200/331] fix: flush of the file did not report lost data,
 commitOnClose then replaced the old file

---
 src/lightspeed/base/linux/fileio.cpp | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/src/lightspeed/base/linux/fileio.cpp b/src/lightspeed/base/linux/fileio.cpp
index 4a2f86a..1ddadbe 100644
--- a/src/lightspeed/base/linux/fileio.cpp
+++ b/src/lightspeed/base/linux/fileio.cpp
@@ -677,8 +677,13 @@ namespace LightSpeed {
 
 
 	void FileDescriptorSeq::flush() {
-		::fdatasync(fd);
-	}
+    	//only errors reporting lost data are important, for example pipes and consoles cannot be synchronized
+    	if (fd != -1 && ::fdatasync(fd) == -1) {
+    		int err = errno;
+    		if (err == EIO || err == ENOSPC || err == EDQUOT)
+    			throw FileIOError(THISLOCATION,err,name);
+    	}
+}
 
 	class DirState: public IFolderIterator {
 
-- 
2.43.0


From 9ba0cdc3b7044572e7b644941b434f5ff023da1e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:45:17 +0000
Subject: [PATCH 201/331] fix: copy of the file could be incomplete without
 reporting an error

---
 src/lightspeed/base/linux/fileio.cpp | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/src/lightspeed/base/linux/fileio.cpp b/src/lightspeed/base/linux/fileio.cpp
index 1ddadbe..6463383 100644
--- a/src/lightspeed/base/linux/fileio.cpp
+++ b/src/lightspeed/base/linux/fileio.cpp
@@ -933,10 +933,14 @@ namespace LightSpeed {
     	if (ofd == -1) {int e = errno;close(ifd);throw FileIOError(THISLOCATION,e,to);}
 
     	int err = 0;
-    	ssize_t res = sendfile(ofd,ifd,0,st.st_size);
+    	ssize_t res;
+    	do {
+    		//function can transfer less bytes than requested
+    		res = sendfile(ofd,ifd,0,0x7FFFF000);
+    	} while (res > 0 || (res == -1 && errno == EINTR));
     	if (res == -1) err = errno;
     	close(ifd);
-    	close(ofd);
+    	if (close(ofd) == -1 && err == 0 && errno != EINTR) err = errno;
 
     	if (err) throw FileCopyException(THISLOCATION, err, from, to);
     }
-- 
2.43.0


From 00006b159e06f6f3f5c67837b404964a8bedf489 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:45:17 +0000
Subject: [PATCH 202/331] fix: copy of the file to itself destroyed the file,
 copy of a folder truncated the target

---
 src/lightspeed/base/linux/fileio.cpp | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/src/lightspeed/base/linux/fileio.cpp b/src/lightspeed/base/linux/fileio.cpp
index 6463383..786fd30 100644
--- a/src/lightspeed/base/linux/fileio.cpp
+++ b/src/lightspeed/base/linux/fileio.cpp
@@ -929,6 +929,13 @@ namespace LightSpeed {
     	if (ifd == -1) {int e = errno; throw FileIOError(THISLOCATION,e,from);}
     	struct stat st;
     	if (fstat(ifd,&st) == -1) {int e = errno;close(ifd);throw FileIOError(THISLOCATION,e,from);}
+    	if (S_ISDIR(st.st_mode)) {close(ifd);throw FileIOError(THISLOCATION,EISDIR,from);}
+    	struct stat tst;
+    	if (stat(t.cStr(),&tst) == 0 && tst.st_dev == st.st_dev && tst.st_ino == st.st_ino) {
+    		//opening of the target would truncate the source
+    		close(ifd);
+    		throw FileCopyException(THISLOCATION, EEXIST, from, to);
+    	}
     	int ofd = open(t.cStr(),O_WRONLY|O_LARGEFILE|O_CLOEXEC|O_CREAT|(overwrite?O_TRUNC:O_EXCL), st.st_mode);
     	if (ofd == -1) {int e = errno;close(ifd);throw FileIOError(THISLOCATION,e,to);}
 
-- 
2.43.0


From a5fab41fb940c882ef07d7ca3edfeaca211f8dc6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:45:17 +0000
Subject: [PATCH 203/331] fix: move replaced an existing link although
 overwriting was disabled

---
 src/lightspeed/base/linux/fileio.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/lightspeed/base/linux/fileio.cpp b/src/lightspeed/base/linux/fileio.cpp
index 786fd30..3a70781 100644
--- a/src/lightspeed/base/linux/fileio.cpp
+++ b/src/lightspeed/base/linux/fileio.cpp
@@ -959,7 +959,8 @@ namespace LightSpeed {
     	if (h1 != h2) throwUnsupportedFeature(THISLOCATION, this, "Cannot move files between various filesystems");
     	if (h1) return h1->move(from,to,overwrite);
 
-    	if (!overwrite && canOpenFile(to,fileAccessible)) {
+    	struct stat st;
+    	if (!overwrite && lstat(wideToUtf8(to).cStr(),&st) == 0) {
     		throw FileIOError(THISLOCATION, EEXIST,to);
     	}
 
-- 
2.43.0


From e87263222382037bd8174caaed2c1ac72346119d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:45:17 +0000
Subject: [PATCH 204/331] fix: createFolder with parents failed when the folder
 existed or the path contained double or trailing slash

---
 src/lightspeed/base/linux/fileio.cpp | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/lightspeed/base/linux/fileio.cpp b/src/lightspeed/base/linux/fileio.cpp
index 3a70781..7b36361 100644
--- a/src/lightspeed/base/linux/fileio.cpp
+++ b/src/lightspeed/base/linux/fileio.cpp
@@ -258,7 +258,8 @@ namespace LightSpeed {
     		throw FolderCreationException(THISLOCATION,e.getErrNo(),String(dirName))
     				<< e;
     	}
-    	if (mkdir(dirName.c_str(),0777) != 0)
+    	//the folder can be already created through other name (double slash) or by other process
+    	if (mkdir(dirName.c_str(),0777) != 0 && errno != EEXIST)
     		throw FolderCreationException(THISLOCATION,errno,String(dirName));
     }
 
@@ -879,6 +880,8 @@ namespace LightSpeed {
     	if (parents) createFolders(fn);
 		if (::mkdir(fn.c_str(),0777) == -1) {
 			int err = errno;
+			struct stat st;
+			if (parents && err == EEXIST && stat(fn.c_str(),&st) == 0 && S_ISDIR(st.st_mode)) return;
 			throw FolderCreationException(THISLOCATION,err,folderName);
 		}
     }
-- 
2.43.0


From 275e28bb9aad97db3ac13172ab9b636962ed54c6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:45:17 +0000
Subject: [PATCH 205/331] fix: OpenFlags::newFile without create opened an
 existing file

---
 src/lightspeed/base/linux/fileio.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/lightspeed/base/linux/fileio.cpp b/src/lightspeed/base/linux/fileio.cpp
index 7b36361..a39315b 100644
--- a/src/lightspeed/base/linux/fileio.cpp
+++ b/src/lightspeed/base/linux/fileio.cpp
@@ -363,7 +363,7 @@ namespace LightSpeed {
         	}
         }
         if (flags & truncate) openFlags|=O_TRUNC;
-        if (flags & newFile) openFlags|=O_EXCL;
+        if (flags & newFile) openFlags|=O_CREAT|O_EXCL;
         
         int fd = ::open(cname.c_str(), openFlags, createFlags);
         if (fd == -1) {
-- 
2.43.0


From e34cda3e010c7adf59d468ef045d613d467dae32 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:45:17 +0000
Subject: [PATCH 206/331] fix: setHandler: unregistering of unknown prefix
 registered empty handler, which was hiding shorter prefixes

---
 src/lightspeed/base/streams/abstractFileIOService.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/lightspeed/base/streams/abstractFileIOService.cpp b/src/lightspeed/base/streams/abstractFileIOService.cpp
index bd4ac03..7c15878 100644
--- a/src/lightspeed/base/streams/abstractFileIOService.cpp
+++ b/src/lightspeed/base/streams/abstractFileIOService.cpp
@@ -24,13 +24,13 @@ IFileIOHandler* LightSpeed::AbstractFileIOService::setHandler(ConstStrW prefix,
 			regList.erase(iter);
 			return prev;
 		} else if (r.prefix.length() < prefix.length() || (r.prefix.length() == prefix.length() && r.prefix < prefix))  {
-			regList.insertBefore(iter,Registration(prefix,handler));
+			if (handler != 0) regList.insertBefore(iter,Registration(prefix,handler));
 			return NULL;
 		} else  {
 			iter.skip();
 		}
 	}
-	regList.add(Registration(prefix,handler));
+	if (handler != 0) regList.add(Registration(prefix,handler));
 	return 0;
 
 }
-- 
2.43.0


From cd7d585b12ae059ea89bbfbea82588feebf17840 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:46:34 +0000
Subject: [PATCH 207/331] fix: DirState: names of entries in a folder with a
 non-ascii name were wrong, read before they were filled

---
 src/lightspeed/base/linux/fileio.cpp | 17 +++++++++++++----
 1 file changed, 13 insertions(+), 4 deletions(-)

diff --git a/src/lightspeed/base/linux/fileio.cpp b/src/lightspeed/base/linux/fileio.cpp
index a39315b..9f23a3f 100644
--- a/src/lightspeed/base/linux/fileio.cpp
+++ b/src/lightspeed/base/linux/fileio.cpp
@@ -711,14 +711,22 @@ namespace LightSpeed {
     			,entryInfo(reinterpret_cast<struct dirent *>(this+1))
     			,srcpath(reinterpret_cast<char *>(entryInfo) + offsetof(struct dirent, d_name) + maxpath)
     			,buffer(srcpath+name.length()+1)
-    			,wsrcpath(reinterpret_cast<wchar_t *>(buffer + maxpath+1))
-    			,wbuffer(wsrcpath+name.length()+1)
+    			,wsrcpath(alignWide(buffer + maxpath))
+    			,wbuffer(wsrcpath)
     			,statLoaded(false)
     			,svc(svc) {
     			if (dir == 0) throw FileOpenError(THISLOCATION, errno, name);
     			strcpy(srcpath,name.data());
     			srcpath[name.length()] = '/';
-    			this->source = ConstStrW(wsrcpath,name.length());
+    			srcpath[name.length()+1] = 0;
+    			//count of wide characters can be different to count of bytes
+    			wbuffer = convert(ConstStrA(srcpath),wsrcpath);
+    			this->source = ConstStrW(wsrcpath,(wbuffer - wsrcpath) - 1);
+    		}
+
+    		static wchar_t *alignWide(char *ptr) {
+    			size_t a = reinterpret_cast<size_t>(ptr) % sizeof(wchar_t);
+    			return reinterpret_cast<wchar_t *>(a?ptr + sizeof(wchar_t) - a:ptr);
     		}
 
     		void *operator new(size_t sz,size_t maxpath, size_t dirpathlen) {
@@ -788,13 +796,14 @@ namespace LightSpeed {
     			else type = unknown;
     		}
 
-    		void convert(ConstStrA src, wchar_t *wtrg) {
+    		wchar_t *convert(ConstStrA src, wchar_t *wtrg) {
 
     			Utf8ToWideReader<ConstStrA::Iterator> rd(src.getFwIter());
     			while (rd.hasItems()) {
     				*wtrg++=rd.getNext();
     			}
     			*wtrg = 0;
+    			return wtrg;
     		}
         	virtual void rewind() {
         		rewinddir(dir);
-- 
2.43.0


From 8160cad36ecfe0549674093d38c1aef302fb0369 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:46:34 +0000
Subject: [PATCH 208/331] fix: DirState: memory leak when the folder cannot be
 opened

---
 src/lightspeed/base/linux/fileio.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/lightspeed/base/linux/fileio.cpp b/src/lightspeed/base/linux/fileio.cpp
index 9f23a3f..5c55856 100644
--- a/src/lightspeed/base/linux/fileio.cpp
+++ b/src/lightspeed/base/linux/fileio.cpp
@@ -736,7 +736,7 @@ namespace LightSpeed {
     					+ sz + 20;
     			return malloc(entryLen);
     		}
-    		void operator delete(void *ptr,const char *) {
+    		void operator delete(void *ptr,size_t,size_t) {
     			free(ptr);
     		}
     		void operator delete(void *ptr) {
-- 
2.43.0


From 0250ecbdae3e1871c21cb1b4ad261a40e383d143 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:46:34 +0000
Subject: [PATCH 209/331] fix: DirState: flag hidden was not initialized

---
 src/lightspeed/base/linux/fileio.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/lightspeed/base/linux/fileio.cpp b/src/lightspeed/base/linux/fileio.cpp
index 5c55856..7a8cc96 100644
--- a/src/lightspeed/base/linux/fileio.cpp
+++ b/src/lightspeed/base/linux/fileio.cpp
@@ -757,6 +757,8 @@ namespace LightSpeed {
     			convert(ConstStrA(srcpath),wsrcpath);
     			this->entryName = ConstStrW(wbuffer);
     			link = false;
+    			hidden = res->d_name[0] == '.';
+    			extra = 0;
     			statLoaded = false;
     			switch (res->d_type) {
     			case DT_REG: type = file; break;
-- 
2.43.0


From a94f1e95d4ffb92a26ce6139b71d19c4efec1c3d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:46:34 +0000
Subject: [PATCH 210/331] fix: DirState: broken link had random type or stopped
 the iteration

---
 src/lightspeed/base/linux/fileio.cpp | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/src/lightspeed/base/linux/fileio.cpp b/src/lightspeed/base/linux/fileio.cpp
index 7a8cc96..34f8796 100644
--- a/src/lightspeed/base/linux/fileio.cpp
+++ b/src/lightspeed/base/linux/fileio.cpp
@@ -785,11 +785,14 @@ namespace LightSpeed {
     				if (S_ISLNK(statInfo.st_mode)) {
     					link = true;
     					i = stat64(srcpath,&statInfo);
-        				if (i != 0) throw FileOpenError(THISLOCATION,errno,wsrcpath);
     				}
     			} else {
 					i = stat64(srcpath,&statInfo);
-    				if (i != 0) FileOpenError(THISLOCATION,errno,wsrcpath);
+    			}
+    			if (i != 0) {
+    				//link refers to missing target
+    				type = unknown;
+    				return;
     			}
     			if (S_ISREG(statInfo.st_mode)) type = file;
     			else if (S_ISDIR(statInfo.st_mode)) type = directory;
-- 
2.43.0


From a9424dd664c7a14a4fded74a1444c03b69d14f69 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:46:34 +0000
Subject: [PATCH 211/331] fix: DirState: link to a folder could not be removed

---
 src/lightspeed/base/linux/fileio.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/lightspeed/base/linux/fileio.cpp b/src/lightspeed/base/linux/fileio.cpp
index 34f8796..17110c3 100644
--- a/src/lightspeed/base/linux/fileio.cpp
+++ b/src/lightspeed/base/linux/fileio.cpp
@@ -1303,7 +1303,7 @@ namespace LightSpeed {
 
     void DirState::remove(bool recursive /*= false*/)
     {
-    	if (type == directory) svc.removeFolder(getFullPath(),recursive);
+    	if (type == directory && !link) svc.removeFolder(getFullPath(),recursive);
     	else svc.remove(getFullPath());
     }
 
-- 
2.43.0


From 731c35b748fe46cddd322f1188df2d2bfe067e61 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:46:34 +0000
Subject: [PATCH 212/331] fix: getFileInfo: name and source of the entry
 referred to a destroyed string, wrong with trailing slash

---
 src/lightspeed/base/linux/fileio.cpp | 12 ++++++++----
 1 file changed, 8 insertions(+), 4 deletions(-)

diff --git a/src/lightspeed/base/linux/fileio.cpp b/src/lightspeed/base/linux/fileio.cpp
index 17110c3..4481b34 100644
--- a/src/lightspeed/base/linux/fileio.cpp
+++ b/src/lightspeed/base/linux/fileio.cpp
@@ -1200,10 +1200,13 @@ namespace LightSpeed {
 
     	class FileInfo: public IFolderIterator, public ILinuxFileInfo {
     	public:
-    		FileInfo(IFileIOServices &svc, ConstStrW pathname, const FileStat &statinfo)
-    			:svc(svc),statinfo(statinfo),fullname(pathname) {
-
+    		FileInfo(IFileIOServices &svc, String path, const FileStat &statinfo)
+    			:svc(svc),statinfo(statinfo),fullname(path) {
 
+    			//names must refer to the string owned by this object
+    			ConstStrW pathname = fullname;
+    			while (pathname.length() > 1 && pathname[pathname.length()-1] == '/')
+    				pathname = pathname.head(pathname.length()-1);
     			natural k = pathname.findLast('/');
     			if (k != naturalNull) {
     				source = pathname.head(k);
@@ -1227,7 +1230,8 @@ namespace LightSpeed {
     				type = unknown;
 
     			link = S_ISLNK(statinfo.st_mode) != 0;
-    			hidden = entryName[0] == '.';
+    			hidden = !entryName.empty() && entryName[0] == '.';
+    			extra = 0;
 
     		}
         	virtual bool getNext() {return false;}
-- 
2.43.0


From ec74c12a7e861e84e479711c01dc98413a80211c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:46:34 +0000
Subject: [PATCH 213/331] fix: getFileInfo: links were not recognized, link to
 a folder could not be removed

---
 src/lightspeed/base/linux/fileio.cpp | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/src/lightspeed/base/linux/fileio.cpp b/src/lightspeed/base/linux/fileio.cpp
index 4481b34..8a1388c 100644
--- a/src/lightspeed/base/linux/fileio.cpp
+++ b/src/lightspeed/base/linux/fileio.cpp
@@ -1200,7 +1200,7 @@ namespace LightSpeed {
 
     	class FileInfo: public IFolderIterator, public ILinuxFileInfo {
     	public:
-    		FileInfo(IFileIOServices &svc, String path, const FileStat &statinfo)
+    		FileInfo(IFileIOServices &svc, String path, const FileStat &statinfo, bool isLink)
     			:svc(svc),statinfo(statinfo),fullname(path) {
 
     			//names must refer to the string owned by this object
@@ -1229,7 +1229,7 @@ namespace LightSpeed {
     			else
     				type = unknown;
 
-    			link = S_ISLNK(statinfo.st_mode) != 0;
+    			link = isLink;
     			hidden = !entryName.empty() && entryName[0] == '.';
     			extra = 0;
 
@@ -1291,7 +1291,9 @@ namespace LightSpeed {
     		int en = errno;
     		throw FileIOError(THISLOCATION,en,cname);
     	}
-    	return new FileInfo(*const_cast<LinuxFileServices *>(this),extended?String(cname):String(pathname),fst);
+    	FileStat lst;
+    	bool isLink = lstat64(cname.c_str(),&lst) == 0 && S_ISLNK(lst.st_mode);
+    	return new FileInfo(*const_cast<LinuxFileServices *>(this),extended?String(cname):String(pathname),fst,isLink);
     }
 
 
@@ -1341,7 +1343,7 @@ namespace LightSpeed {
 
     void FileInfo::remove(bool recursive /*= false*/)
     {
-    	if (type == directory) svc.removeFolder(getFullPath(),recursive);
+    	if (type == directory && !link) svc.removeFolder(getFullPath(),recursive);
     	else svc.remove(getFullPath());
     }
 
-- 
2.43.0


From e913c3fb8abdf5be754b4e3730b9a3895c2500b7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:46:34 +0000
Subject: [PATCH 214/331] fix: getFileInfo: getAllowedOpenMode never reported
 that the file can be written

---
 src/lightspeed/base/linux/fileio.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/lightspeed/base/linux/fileio.cpp b/src/lightspeed/base/linux/fileio.cpp
index 8a1388c..2bc376f 100644
--- a/src/lightspeed/base/linux/fileio.cpp
+++ b/src/lightspeed/base/linux/fileio.cpp
@@ -1248,10 +1248,10 @@ namespace LightSpeed {
         		return TimeStamp::fromUnix(statinfo.st_mtim.tv_sec,statinfo.st_mtim.tv_nsec/1000000);
         	}
         	virtual IFileIOServices::FileOpenMode getAllowedOpenMode() const {
-        		if (svc.canOpenFile(fullname,IFileIOServices::fileOpenRead))
-        			return IFileIOServices::fileOpenRead;
         		if (svc.canOpenFile(fullname,IFileIOServices::fileOpenReadWrite))
         			return IFileIOServices::fileOpenReadWrite;
+        		if (svc.canOpenFile(fullname,IFileIOServices::fileOpenRead))
+        			return IFileIOServices::fileOpenRead;
         		if (svc.canOpenFile(fullname,IFileIOServices::fileOpenWrite))
         			return IFileIOServices::fileOpenWrite;
         		return IFileIOServices::fileAccessible;
-- 
2.43.0


From 9b7266ab3b1b26e8173f8443f22b45f7d0bd9f00 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:46:34 +0000
Subject: [PATCH 215/331] fix: createTempFile opened an existing file

---
 src/lightspeed/base/linux/fileio.cpp | 21 ++++++++++++++-------
 1 file changed, 14 insertions(+), 7 deletions(-)

diff --git a/src/lightspeed/base/linux/fileio.cpp b/src/lightspeed/base/linux/fileio.cpp
index 2bc376f..fa30a06 100644
--- a/src/lightspeed/base/linux/fileio.cpp
+++ b/src/lightspeed/base/linux/fileio.cpp
@@ -1156,19 +1156,26 @@ namespace LightSpeed {
 		TextFormatBuff<wchar_t, StaticAlloc<256> > fmt;
 		if (rndfile) {
 			static atomic counter = 0;
-			atomic lc = lockInc(counter);
-			fmt("/tmp/%1~%2~%3") << prefix << (natural)getpid() << (natural)lc;
-			String filename(fmt.write());
-			PInOutStream hnd = openSeqFile(filename,fileOpenWrite,
-					OpenFlags::create|OpenFlags::truncate|OpenFlags::temporary|OpenFlags::shareRead|OpenFlags::shareWrite|OpenFlags::shareDelete);
-			return new TemporaryFile(*this,hnd,filename);
+			//file of the generated name can exist, for example after crashed process with the same pid
+			for(;;) {
+				atomic lc = lockInc(counter);
+				fmt("/tmp/%1~%2~%3") << prefix << (natural)getpid() << (natural)lc;
+				String filename(fmt.write());
+				try {
+					PInOutStream hnd = openSeqFile(filename,fileOpenWrite,
+							OpenFlags::create|OpenFlags::newFile|OpenFlags::temporary|OpenFlags::shareRead|OpenFlags::shareWrite|OpenFlags::shareDelete);
+					return new TemporaryFile(*this,hnd,filename);
+				} catch (FileOpenError &e) {
+					if (e.getErrNo() != EEXIST) throw;
+				}
+			}
 		} else {
 			TextFormatBuff<wchar_t> fmt;
 			fmt("/tmp/%1") << prefix;
 			String filename(fmt.write());
 			try {
 				PInOutStream hnd = openSeqFile(filename,fileOpenWrite,
-					OpenFlags::create|OpenFlags::temporary|OpenFlags::shareRead|OpenFlags::shareWrite);
+					OpenFlags::create|OpenFlags::newFile|OpenFlags::temporary|OpenFlags::shareRead|OpenFlags::shareWrite);
 				return new TemporaryFile(*this,hnd,filename);
 			} catch (FileOpenError &e) {
 				if (e.getErrNo() == EEXIST)
-- 
2.43.0


From c78e8676c816ec50e6ced851208c0bf360d8dca4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:50:37 +0000
Subject: [PATCH 216/331] fix: String constructed from StringA did not decode
 utf-8

---
 src/lightspeed/base/containers/string.h | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/lightspeed/base/containers/string.h b/src/lightspeed/base/containers/string.h
index 7a3853f..a0ff366 100644
--- a/src/lightspeed/base/containers/string.h
+++ b/src/lightspeed/base/containers/string.h
@@ -227,6 +227,11 @@ namespace LightSpeed {
 		UniString(const ArrayT<const wchar_t,B> &arr, IRuntimeAlloc &alloc):Super(arr,alloc) {}
 		template<typename B>
 		UniString(const ArrayT<const wchar_t,B> &arr):Super(arr) {}
+		///narrow strings and expressions are in utf-8
+		template<typename B>
+		UniString(const ArrayT<char,B> &arr) {loadUtf8(StrA(arr));}
+		template<typename B>
+		UniString(const ArrayT<const char,B> &arr) {loadUtf8(StrA(arr));}
 		//@}
 		UniString(const StringCore<wchar_t> &str):Super(str) {}
 
-- 
2.43.0


From 9246529df6853483b8c4b5a54b4adeb9b8fa45b8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:50:37 +0000
Subject: [PATCH 217/331] fix: copy of the file to itself destroyed the file

---
 src/lightspeed/base/linux/fileio.cpp | 17 ++++++++++-------
 1 file changed, 10 insertions(+), 7 deletions(-)

diff --git a/src/lightspeed/base/linux/fileio.cpp b/src/lightspeed/base/linux/fileio.cpp
index fa30a06..512feba 100644
--- a/src/lightspeed/base/linux/fileio.cpp
+++ b/src/lightspeed/base/linux/fileio.cpp
@@ -947,16 +947,19 @@ namespace LightSpeed {
     	struct stat st;
     	if (fstat(ifd,&st) == -1) {int e = errno;close(ifd);throw FileIOError(THISLOCATION,e,from);}
     	if (S_ISDIR(st.st_mode)) {close(ifd);throw FileIOError(THISLOCATION,EISDIR,from);}
-    	struct stat tst;
-    	if (stat(t.cStr(),&tst) == 0 && tst.st_dev == st.st_dev && tst.st_ino == st.st_ino) {
-    		//opening of the target would truncate the source
-    		close(ifd);
-    		throw FileCopyException(THISLOCATION, EEXIST, from, to);
-    	}
-    	int ofd = open(t.cStr(),O_WRONLY|O_LARGEFILE|O_CLOEXEC|O_CREAT|(overwrite?O_TRUNC:O_EXCL), st.st_mode);
+    	int ofd = open(t.cStr(),O_WRONLY|O_LARGEFILE|O_CLOEXEC|O_CREAT|(overwrite?0:O_EXCL), st.st_mode);
     	if (ofd == -1) {int e = errno;close(ifd);throw FileIOError(THISLOCATION,e,to);}
 
     	int err = 0;
+    	struct stat tst;
+    	if (fstat(ofd,&tst) == -1) err = errno;
+    	//the target can be the source, it must not be truncated
+    	else if (tst.st_dev == st.st_dev && tst.st_ino == st.st_ino) err = EEXIST;
+    	else while (ftruncate(ofd,0) == -1) {
+    		if (errno != EINTR) {err = errno;break;}
+    	}
+    	if (err) {close(ifd);close(ofd);throw FileCopyException(THISLOCATION, err, from, to);}
+
     	ssize_t res;
     	do {
     		//function can transfer less bytes than requested
-- 
2.43.0


From a99079b89e6fbdcd9ea5845fcea1f4611b6add2c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:50:37 +0000
Subject: [PATCH 218/331] fix: move replaced an existing file when its presence
 could not be determined

---
 src/lightspeed/base/linux/fileio.cpp | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/lightspeed/base/linux/fileio.cpp b/src/lightspeed/base/linux/fileio.cpp
index 512feba..21f366c 100644
--- a/src/lightspeed/base/linux/fileio.cpp
+++ b/src/lightspeed/base/linux/fileio.cpp
@@ -980,8 +980,10 @@ namespace LightSpeed {
     	if (h1) return h1->move(from,to,overwrite);
 
     	struct stat st;
-    	if (!overwrite && lstat(wideToUtf8(to).cStr(),&st) == 0) {
-    		throw FileIOError(THISLOCATION, EEXIST,to);
+    	if (!overwrite) {
+    		if (lstat(wideToUtf8(to).cStr(),&st) == 0) throw FileIOError(THISLOCATION, EEXIST,to);
+    		int e = errno;
+    		if (e != ENOENT && e != ENOTDIR) throw FileIOError(THISLOCATION, e, to);
     	}
 
     	if (::rename(wideToUtf8(from).cStr(),wideToUtf8(to).cStr()) == -1) {
-- 
2.43.0


From 1867e5829a5a99ae7495927599cc343e1b25fcb6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:05:45 +0000
Subject: [PATCH 219/331] fix: Time::Parts had no default constructor

---
 src/lightspeed/base/datetime.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/lightspeed/base/datetime.h b/src/lightspeed/base/datetime.h
index 4442559..17b638d 100644
--- a/src/lightspeed/base/datetime.h
+++ b/src/lightspeed/base/datetime.h
@@ -123,8 +123,8 @@ namespace LightSpeed {
 			natural minute;
 			natural second;
 			natural mili;
-			Parts();
-			Parts(natural hour, natural mnt, natural sec, natural mili = 0)
+			Parts():hour(0),minute(0),second(0),mili(0) {}
+		Parts(natural hour, natural mnt, natural sec, natural mili = 0)
 				:hour(hour)
 				,minute(mnt)
 				,second(sec)
-- 
2.43.0


From 130f890b37316acd60c49d900fe82790dee0ba12 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:05:53 +0000
Subject: [PATCH 220/331] fix: year and day were swapped in date parts

---
 src/lightspeed/base/datetime.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/lightspeed/base/datetime.h b/src/lightspeed/base/datetime.h
index 17b638d..9b28d79 100644
--- a/src/lightspeed/base/datetime.h
+++ b/src/lightspeed/base/datetime.h
@@ -31,7 +31,7 @@ namespace LightSpeed {
 			PartsEx() {}
 			PartsEx(integer year, integer month, integer day,
 					integer dayOfWeek, integer dayOfYear)
-				:Parts(day,month,year),dayOfWeek(dayOfWeek),dayOfYear(dayOfYear) {}
+				:Parts(year,month,day),dayOfWeek(dayOfWeek),dayOfYear(dayOfYear) {}
 			PartsEx(const Parts &b,integer dayOfWeek, integer dayOfYear)
 				:Parts(b),dayOfWeek(dayOfWeek),dayOfYear(dayOfYear) {}
 		};
-- 
2.43.0


From 2b2ff7d2e23d1f27d4baac818abe13321ac41501 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:06:01 +0000
Subject: [PATCH 221/331] fix: division of negative years and months when
 counting dates

---
 src/lightspeed/base/datetime.cpp | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/lightspeed/base/datetime.cpp b/src/lightspeed/base/datetime.cpp
index 83e2849..e82239e 100644
--- a/src/lightspeed/base/datetime.cpp
+++ b/src/lightspeed/base/datetime.cpp
@@ -15,7 +15,10 @@ static const integer daysPerMonth[2][12] =
 	};
 
 static integer intDiv(integer val, natural d) {
-	return val / d - (val < 0?1:0);
+	integer div = (integer)d;
+	integer res = val / div;
+	if (res * div > val) res--;
+	return res;
 }
 
 static integer intMod(integer val, natural d) {
-- 
2.43.0


From d818d8afa29a9431cc7bddd5b83c2e2b6c6e1a81 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:06:09 +0000
Subject: [PATCH 222/331] fix: first day of a month was returned as a day of
 the previous month

---
 src/lightspeed/base/datetime.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/lightspeed/base/datetime.cpp b/src/lightspeed/base/datetime.cpp
index e82239e..78d1ce1 100644
--- a/src/lightspeed/base/datetime.cpp
+++ b/src/lightspeed/base/datetime.cpp
@@ -148,7 +148,7 @@ Date::PartsEx Date::dateFromDayNumber(integer dayNr) {
 	//prepare month
 	integer month = 0;
 	//find current month and day
-	while (day > daysPerMonth[leapRow][month]) {
+	while (day >= daysPerMonth[leapRow][month]) {
 		day -= daysPerMonth[leapRow][month];
 		month++;
 	}
-- 
2.43.0


From 23b02f9a67a372a651046fbbe6e99df223abfd8c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:06:16 +0000
Subject: [PATCH 223/331] fix: DateTime::getMiliseconds returned seconds of the
 time

---
 src/lightspeed/base/datetime.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/lightspeed/base/datetime.h b/src/lightspeed/base/datetime.h
index 9b28d79..8d37495 100644
--- a/src/lightspeed/base/datetime.h
+++ b/src/lightspeed/base/datetime.h
@@ -316,7 +316,7 @@ namespace LightSpeed {
 		natural getHours() const {return t.getHours() + 24*d.getDays();}
 		natural getMinutes() const {return t.getMinutes() + 24*60*d.getDays();}
 		natural getSeconds() const {return t.getSeconds() + 24*60*60*d.getDays();}
-		natural getMiliseconds() const {return t.getSeconds() + 24*60*60*1000*d.getDays();}
+		natural getMiliseconds() const {return t.getMiliseconds() + (integer)24*60*60*1000*d.getDays();}
 
 		DateTime operator+(const DateTime &dt) const {
 			Date dx = d + dt.d;
-- 
2.43.0


From 2cf31ee780fb03b1c898a80b192029653e0214c7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:06:23 +0000
Subject: [PATCH 224/331] fix: time of the day of a unix time was wrong

---
 src/lightspeed/base/datetime.h | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/lightspeed/base/datetime.h b/src/lightspeed/base/datetime.h
index 8d37495..f2a8b2a 100644
--- a/src/lightspeed/base/datetime.h
+++ b/src/lightspeed/base/datetime.h
@@ -238,7 +238,9 @@ namespace LightSpeed {
 		static Time now();
 
 		static Time fromUnixTime(time_t t) {
-			return Time(t % (24*60*60) + 1000);
+			time_t s = t % (24*60*60);
+		if (s < 0) s += 24*60*60;
+		return Time(Bin::natural32(s * 1000));
 		}
 
 	protected:
-- 
2.43.0


From d65ec0177f357b51df6a139c8d4f7f6d0d5360ae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:06:31 +0000
Subject: [PATCH 225/331] fix: sum of times of exactly one day was not carried
 to the next day

---
 src/lightspeed/base/datetime.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/lightspeed/base/datetime.h b/src/lightspeed/base/datetime.h
index f2a8b2a..0fbdd84 100644
--- a/src/lightspeed/base/datetime.h
+++ b/src/lightspeed/base/datetime.h
@@ -210,7 +210,7 @@ namespace LightSpeed {
 		 * @retval true value contains overflow.
 		 * @return false no overflow
 		 */
-		bool carry() const {return value > dayMilis;}
+		bool carry() const {return value >= dayMilis;}
 
 
 		///Clears carry, returns previous carry state
-- 
2.43.0


From bf03a1cffc223b18b8bb187a5ef6f26b6f1016f8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:06:39 +0000
Subject: [PATCH 226/331] fix: days out of the month were counted with a length
 of a wrong year

---
 src/lightspeed/base/datetime.cpp | 76 +++++---------------------------
 1 file changed, 10 insertions(+), 66 deletions(-)

diff --git a/src/lightspeed/base/datetime.cpp b/src/lightspeed/base/datetime.cpp
index 78d1ce1..4fa5626 100644
--- a/src/lightspeed/base/datetime.cpp
+++ b/src/lightspeed/base/datetime.cpp
@@ -44,76 +44,20 @@ static bool isLeapYear(integer year) {
 
 integer Date::dayNumber(integer year, integer month, integer day ) {
 
-	bool rep;
-
-
 	//month will be shifted to be in range 0 - 11 (instead 1 - 12)
 	if (month == 0) {year--;month+=12;} //decrease year, if month has been 0
 	month--;
-	int leapRow;
-
-
-	do {
-		rep = false;
-
-		//how many years to add depend on overflow of month
-		integer myears = intDiv(month,12);
-		year += myears;
-		//fix month to be in the range 0 - 11
-		month = intMod(month,12,myears);
-
-
-		//is current year leap?
-		bool isLeap = isLeapYear(year);
-
-		//choose row from table
-		leapRow = isLeap?1:0;
-
-		//every year has 365 days, leap year has 366
-		integer yearDays = 365 + leapRow;
-		//is  day outside year range?
-		if (day > yearDays) {
-			//decrease by yearDays
-			day-=yearDays;
-			//increase year
-			year++;
-			//force repeat
-			rep = true;
-			//is day below 1 - yearDays?
-		} else if (day < 1 - yearDays) {
-			//shift whole year
-			day+=yearDays;
-			//decrease year
-			year--;
-			rep = true;
-		} else {
-			//day is in the range of year, now fix to be range in current month
-			//md is count of days in current month
-			integer md = daysPerMonth[leapRow][month];
-			//day are above current day count
-			if (day > md) {
-				//increase month
-				month ++;
-				//decrease days
-				day-= md;
-				//repeat
-				rep = true;
-			//day is below 1
-			} else if (day < 1) {
-				//decrease month (will be fixed later)
-				month--;
-				//increase days for the month
-				//we should fix leapRow because there can be
-				//overflow on month. But it is not necessary,
-				//because count of days in December is the same in both types of year
-				day += daysPerMonth[leapRow][intMod(month,12)];
-				//force repeat
-				rep = true;
-			}
-		}
-		//repeat until values are not adjusted
-	} while (rep);
 
+	//how many years to add depend on overflow of month
+	integer myears = intDiv(month,12);
+	year += myears;
+	//fix month to be in the range 0 - 11
+	month = intMod(month,12,myears);
+
+	//choose row from table
+	int leapRow = isLeapYear(year)?1:0;
+
+	//day outside of the month needs no care, days are just counted from the first day of the month
 
 	//calculate day number until year/1/1
 	integer days = daysToYear(year);
-- 
2.43.0


From 3e5c793b403b98712898b25356af473f71d2ab94 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:06:47 +0000
Subject: [PATCH 227/331] fix: year of days far before the year 0

---
 src/lightspeed/base/datetime.cpp | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/lightspeed/base/datetime.cpp b/src/lightspeed/base/datetime.cpp
index 4fa5626..6455605 100644
--- a/src/lightspeed/base/datetime.cpp
+++ b/src/lightspeed/base/datetime.cpp
@@ -83,6 +83,11 @@ Date::PartsEx Date::dateFromDayNumber(integer dayNr) {
 		//get dayNumber againg
 		yearNr = daysToYear(year);
 	}
+	//for negative days, result can be too low
+	while (daysToYear(year + 1) <= dayNr) {
+		year++;
+		yearNr = daysToYear(year);
+	}
 	//dayOfYear is count of days from the first January
 	integer dayOfYear = dayNr - yearNr;
 	//get leapRow depend on if current year is leap
-- 
2.43.0


From fcc93b9fc1174c090cb85f4832e2996bb3003628 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:06:56 +0000
Subject: [PATCH 228/331] fix: unix time was converted to a date counted from
 the year 0

---
 src/lightspeed/base/datetime.cpp | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/lightspeed/base/datetime.cpp b/src/lightspeed/base/datetime.cpp
index 6455605..a23b76a 100644
--- a/src/lightspeed/base/datetime.cpp
+++ b/src/lightspeed/base/datetime.cpp
@@ -7,6 +7,8 @@
 namespace LightSpeed {
 
 static const lnatural daySeconds = 3600*24;
+//number of the day 1970-01-01 (0000-01-01 is day 0)
+static const integer unixEpochDay = 719528;
 
 static const integer daysPerMonth[2][12] =
 	{
@@ -199,12 +201,12 @@ Date & Date::operator +=(const Date & other)
 }
 
 integer Date::unixTimeToDays(time_t t) {
-	return (integer)(((lnatural)(t) / daySeconds));
+	return intDiv((integer)t, (natural)daySeconds) + unixEpochDay;
 }
 
 time_t Date::daysToUnixTime(integer d)
 {
-	return (time_t)(((lnatural)(d) * daySeconds));
+	return (time_t)((d - unixEpochDay) * (integer)daySeconds);
 }
 
 Date Date::operator +(const Parts & other) const
-- 
2.43.0


From 964346d8a3005edbca0dbe5019d5d7b4703a0ce3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:07:23 +0000
Subject: [PATCH 229/331] fix: unix times before 1970 were converted to a wrong
 day

---
 src/lightspeed/base/timestamp.h | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/src/lightspeed/base/timestamp.h b/src/lightspeed/base/timestamp.h
index 87db182..41c4fca 100644
--- a/src/lightspeed/base/timestamp.h
+++ b/src/lightspeed/base/timestamp.h
@@ -64,7 +64,7 @@ namespace LightSpeed {
 		 */
 	 
 		static TimeStamp fromUnix(const time_t &unixTime) {
-			return TimeStamp((integer)(unixTime/daySecs),unixTime%daySecs * timeResolution);
+			return fromUnix(unixTime,0);
 		}
 
 		static TimeStamp fromSeconds(natural sec) {
@@ -78,7 +78,13 @@ namespace LightSpeed {
 		 * @return timestamp 
 		 */
 		static TimeStamp fromUnix(const time_t &unixTime, natural millis) {
-			return TimeStamp((integer)(unixTime/daySecs),unixTime%daySecs * timeResolution + millis);
+			time_t day = unixTime / (time_t)daySecs;
+			time_t sec = unixTime % (time_t)daySecs;
+			if (sec < 0) {
+				sec += (time_t)daySecs;
+				day--;
+			}
+			return TimeStamp((integer)day,(natural)sec * timeResolution + millis);
 		}
 
 		///Converts Windows FILETIME to TimeStamp
-- 
2.43.0


From 7d6ae6a4fd810fd0dce6bc53f67bf62462932726 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:07:31 +0000
Subject: [PATCH 230/331] fix: times before 1970 were created on a wrong day

---
 src/lightspeed/base/linux/timestamp.cpp | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/lightspeed/base/linux/timestamp.cpp b/src/lightspeed/base/linux/timestamp.cpp
index 7f60157..382e2fe 100644
--- a/src/lightspeed/base/linux/timestamp.cpp
+++ b/src/lightspeed/base/linux/timestamp.cpp
@@ -61,10 +61,11 @@ namespace LightSpeed {
 			tminfo.tm_wday = 0;
 			tminfo.tm_yday = 0;
 
+			errno = 0;
 			time_t r = timegm(&tminfo);
-			if (r == -1) throw ErrNoWithDescException(THISLOCATION, errno, "Failed to create time");
+			if (r == -1 && errno != 0) throw ErrNoWithDescException(THISLOCATION, errno, "Failed to create time");
 //			r-=tminfo.tm_gmtoff;
-			return TimeStamp(r/daySecs,(r%daySecs)*1000);
+			return fromUnix(r);
 		}
 	}
 
-- 
2.43.0


From 48e7351618a0fb15e7880f4d9f74cc467ba6ee68 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:07:39 +0000
Subject: [PATCH 231/331] fix: time stamp from a negative number of days had an
 invalid time

---
 src/lightspeed/base/linux/timestamp.cpp | 6 ++----
 1 file changed, 2 insertions(+), 4 deletions(-)

diff --git a/src/lightspeed/base/linux/timestamp.cpp b/src/lightspeed/base/linux/timestamp.cpp
index 382e2fe..f4e0bb1 100644
--- a/src/lightspeed/base/linux/timestamp.cpp
+++ b/src/lightspeed/base/linux/timestamp.cpp
@@ -14,10 +14,8 @@ namespace LightSpeed {
 
 	TimeStamp::TimeStamp( double day )
 	{
-		double fr,intr;
-		fr = modf(day,&intr);
-		this->day = (integer)intr;
-		this->time = (integer)round(fr * dayMillis);
+		double intr = floor(day);
+		*this = TimeStamp((integer)intr,(natural)round((day - intr) * dayMillis));
 	}
 
 
-- 
2.43.0


From 57ac47878d9e68be5029f16ffa31518758f569e4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:08:01 +0000
Subject: [PATCH 232/331] fix: interval in minutes counted 144 minutes per day

---
 src/lightspeed/base/timestamp.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/lightspeed/base/timestamp.h b/src/lightspeed/base/timestamp.h
index 41c4fca..9a42ac4 100644
--- a/src/lightspeed/base/timestamp.h
+++ b/src/lightspeed/base/timestamp.h
@@ -230,7 +230,7 @@ namespace LightSpeed {
 			return TimeStamp(sec/daySecs,(sec % daySecs)*timeResolution);
 		}
 		static TimeStamp intervalMin(natural min)  {
-			return TimeStamp(min/144,(min%144)*timeResolution*60);
+			return TimeStamp(min/1440,(min%1440)*timeResolution*60);
 		}
 		static TimeStamp intervalHour(natural hour){
 			return TimeStamp(hour/24,(hour % 24)*timeResolution*60*60);
-- 
2.43.0


From d7fcbe340730d5faae89b74a41998b0817273653 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:09:45 +0000
Subject: [PATCH 233/331] fix: ISO 8601 times without separators were refused

---
 src/lightspeed/base/timestamp.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/lightspeed/base/timestamp.cpp b/src/lightspeed/base/timestamp.cpp
index 5f3fd15..e0bd9f3 100644
--- a/src/lightspeed/base/timestamp.cpp
+++ b/src/lightspeed/base/timestamp.cpp
@@ -118,7 +118,7 @@ namespace LightSpeed {
 			else
 				throw TimeStamp::InvalidDateTimeFormat(THISLOCATION, timePart);
 		} else if (timePart.length() == 4) {
-			if (parse("%u(2,2)u1%%(2,2)u2",timePart))
+			if (parse("%(2,2)u1%%(2,2)u2",timePart))
 				res = TimeStamp::fromYMDhms(0,0,0,parse[1],parse[2],0);
 			else
 				throw TimeStamp::InvalidDateTimeFormat(THISLOCATION, timePart);
@@ -129,7 +129,7 @@ namespace LightSpeed {
 			else
 				throw TimeStamp::InvalidDateTimeFormat(THISLOCATION, timePart);
 		} else if (timePart.length() == 6) {
-			if (parse("%u(2,2)u1%%(2,2)u2%%(2,2)u3",timePart))
+			if (parse("%(2,2)u1%%(2,2)u2%%(2,2)u3",timePart))
 				res = TimeStamp::fromYMDhms(0,0,0,parse[1],parse[2],parse[3]);
 			else
 				throw TimeStamp::InvalidDateTimeFormat(THISLOCATION, timePart);
-- 
2.43.0


From 6946e2e44fefd0f775b3b247a277310a0ea1b4b6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:09:45 +0000
Subject: [PATCH 234/331] fix: unknown form of an ISO 8601 time was taken as
 midnight

---
 src/lightspeed/base/timestamp.cpp | 646 +++++++++++++++---------------
 1 file changed, 324 insertions(+), 322 deletions(-)

diff --git a/src/lightspeed/base/timestamp.cpp b/src/lightspeed/base/timestamp.cpp
index e0bd9f3..3d75208 100644
--- a/src/lightspeed/base/timestamp.cpp
+++ b/src/lightspeed/base/timestamp.cpp
@@ -1,322 +1,324 @@
-#include "timestamp.h"
-#include "text/textParser.tcc"
-#include "exceptions/systemException.h"
-#include <math.h>
-
-namespace LightSpeed {
-
-
-
-	TimeStamp TimeStamp::fromDBTime(ConstStrA dbdate) {
-		using namespace LightSpeed;
-		TextParser<char, StaticAlloc<256> > parser;
-		if (parser(" %u1-%u2-%u3 %u4:%u5:%u6 ",dbdate)) {
-			natural yr = parser[1],
-				mh = parser[2],
-				dy = parser[3],
-				hh = parser[4],
-				mn = parser[5],
-				sc = parser[6];
-			return TimeStamp::fromYMDhms(yr,mh,dy,hh,mn,sc);
-		} else if (parser(" %u1-%u2-%u3 " ,dbdate)) {
-			natural yr = parser[1],
-				mh = parser[2],
-				dy = parser[3];
-			return TimeStamp::fromYMDhms(yr,mh,dy,0,0,0);
-		} else if (parser(" %u1:%u2:%u3 ",dbdate)) {
-			natural hh = parser[1],
-				mn = parser[2],
-				sc = parser[3];
-			return TimeStamp::fromYMDhms(0,0,0,hh,mn,sc);
-		} else {
-			throw InvalidDateTimeFormat(THISLOCATION, dbdate);
-		}
-
-	}
-
-	static natural fixShortYear(natural year) {
-		if (year <= 50) year+=2000;else year+=1900;
-		return year;
-	}
-
-	static TimeStamp parse8601date(ConstStrA datePart) {		
-		TextParser<char, StaticAlloc<50> > parse;
-		if (datePart.length() == 4) {
-			if (!parse("%u1",datePart)) throw TimeStamp::InvalidDateTimeFormat(THISLOCATION, datePart);
-			return TimeStamp::fromYMDhms(parse[1],1,1,0,0,0);
-		} else if (datePart.length() == 6) {
-			if (!parse("%(2,2)u1%%(2,2)u2%%(2,2)u3",datePart)) throw TimeStamp::InvalidDateTimeFormat(THISLOCATION, datePart);
-			return TimeStamp::fromYMDhms(fixShortYear(parse[1]),parse[2],parse[3],0,0,0);	
-		} else if (datePart.length() == 7) {
-			//YYYYWww
-			if (parse("%u1W%u2",datePart))  {
-				//TODO better implementation of week
-				return TimeStamp::fromYMDhms(parse[1],1,(natural)parse[2]*7-6,0,0,0);						
-			//YYYYDDD
-			} else if (parse("%(4,4)u1%%u2",datePart))  {
-				return TimeStamp::fromYMDhms(parse[1],1,parse[2],0,0,0);						
-			//YYYY-MM
-			} else if (parse("%u1-%u2",datePart))  {
-				return TimeStamp::fromYMDhms(parse[1],parse[2],1,0,0,0);						
-			} else {
-				throw TimeStamp::InvalidDateTimeFormat(THISLOCATION, datePart);
-			}			
-		} else if (datePart.length() == 8) {
-			//YY-MM-DD
-			if (parse("%u1-%u2-%u3",datePart))  {				
-				return TimeStamp::fromYMDhms(fixShortYear(parse[1]),parse[2],parse[3],0,0,0);	
-			//YYYY-Www
-			} else if (parse("%u1-W%u2",datePart))  {				
-				return TimeStamp::fromYMDhms(parse[1],1,(natural)parse[2]*7-6,0,0,0);	
-			//YYYY-DDD
-			} else if (parse("%u1-%u2",datePart))  {				
-				return TimeStamp::fromYMDhms(parse[1],1,parse[2],0,0,0);	
-			//YYYYMMDD
-			} else if (parse("%(4,4)u1%%(2,2)u2%%(2,2)u3",datePart))  {				
-				return TimeStamp::fromYMDhms(parse[1],parse[2],parse[3],0,0,0);	
-			} else {
-				throw TimeStamp::InvalidDateTimeFormat(THISLOCATION, datePart);
-			}
-		} else if (datePart.length() == 10) {
-			//YYYY-MM-DD
-			if (parse("%u1-%u2-%u3",datePart))  {				
-				return TimeStamp::fromYMDhms(parse[1],parse[2],parse[3],0,0,0);	
-			} else {
-				throw TimeStamp::InvalidDateTimeFormat(THISLOCATION, datePart);
-			}			
-		} else {
-			throw TimeStamp::InvalidDateTimeFormat(THISLOCATION, datePart);
-		}
-	}
-
-
-
-	static TimeStamp parse8601time(ConstStrA timePart) {		
-		TextParser<char, StaticAlloc<50> > parse;
-	
-		natural zonepos = timePart.findOneOf(ConstStrA("Z+-"));
-		ConstStrA zonespec;
-		if (zonepos != naturalNull) { 
-			zonespec  = timePart.offset(zonepos);
-			timePart = timePart.head(zonepos);
-		}
-
-		natural dot = timePart.find('.');
-		natural millis = 0;
-		if (dot != naturalNull) {
-			ConstStrA fract = timePart.offset(dot);
-			timePart = timePart.head(dot);
-			if (parse("%f1",fract)) {
-				float f = parse[1];
-				millis = (natural)floor(f*TimeStamp::timeResolution);				
-			}
-		}
-		TimeStamp res;
-		if (timePart.length() == 2) {
-			if (parse("%u1",timePart))
-				res = TimeStamp::fromYMDhms(0,0,0,parse[1],0,0);
-			else
-				throw TimeStamp::InvalidDateTimeFormat(THISLOCATION, timePart);
-		} else if (timePart.length() == 4) {
-			if (parse("%(2,2)u1%%(2,2)u2",timePart))
-				res = TimeStamp::fromYMDhms(0,0,0,parse[1],parse[2],0);
-			else
-				throw TimeStamp::InvalidDateTimeFormat(THISLOCATION, timePart);
-
-		} else if (timePart.length() == 5) {
-			if (parse("%u1:%u2",timePart))
-				res = TimeStamp::fromYMDhms(0,0,0,parse[1],parse[2],0);
-			else
-				throw TimeStamp::InvalidDateTimeFormat(THISLOCATION, timePart);
-		} else if (timePart.length() == 6) {
-			if (parse("%(2,2)u1%%(2,2)u2%%(2,2)u3",timePart))
-				res = TimeStamp::fromYMDhms(0,0,0,parse[1],parse[2],parse[3]);
-			else
-				throw TimeStamp::InvalidDateTimeFormat(THISLOCATION, timePart);
-
-		} else if (timePart.length() == 8) {
-			if (parse("%u1:%u2:%u3",timePart))
-				res = TimeStamp::fromYMDhms(0,0,0,parse[1],parse[2],parse[3]);
-			else
-				throw TimeStamp::InvalidDateTimeFormat(THISLOCATION, timePart);
-		}
-
-		res = res + TimeStamp::intervalMSec(millis);
-		if (!zonespec.empty()) {
-			if (zonespec != "Z") {
-				integer zoneofsmin;
-				char zonedir = zonespec[0];
-				zonespec = zonespec.offset(1);
-				if (parse("%u1",zonespec)) {
-					zoneofsmin = (natural)parse[1] * 60;
-				} else if (parse("%(2,2)u1%%(2,2)u2",zonespec)) {
-					zoneofsmin = (natural)parse[1] * 60+(natural)parse[2];
-				} else if (parse("%u1%:%u2",zonespec)) {
-					zoneofsmin = (natural)parse[1] * 60+(natural)parse[2];
-				} else  {
-					throw TimeStamp::InvalidDateTimeFormat(THISLOCATION, zonespec);				
-				}
-				TimeStamp ofs = TimeStamp::intervalMin(zoneofsmin);
-				if (zonedir == '-') {
-					res = res + ofs;
-				} else if (zonedir != '+') {
-					res = res - ofs;
-				} else {
-					throw TimeStamp::InvalidDateTimeFormat(THISLOCATION, zonespec);				
-				}
-			}
-		}
-		return res;
-		
-
-	}
-
-
-	LightSpeed::TimeStamp TimeStamp::fromISO8601Time( ConstStrA isotime )
-	{
-		natural sep = isotime.findOneOf(ConstStrA("T "));
-		if (sep == naturalNull) sep = isotime.length();
-		ConstStrA datePart = isotime.head(sep);
-		ConstStrA timePart = isotime.offset(sep+1);
-
-		try {
-		TimeStamp date = parse8601date(datePart);
-		TimeStamp time = parse8601time(timePart);
-		return date + time;
-		} catch (Exception &e) {
-			throw InvalidDateTimeFormat(THISLOCATION, isotime) << e;
-		}
-/*
-
-		ConstStrA::Iterator iter = isotime;
-		natural year = 0;
-		natural month = 0;
-		natural day = 0;
-		natural hour = 0;
-		natural minute = 0;
-		natural second = 0;
-		natural houroffset = 0;
-		natural minuteoffset = 0;
-		char sign;
-
-		char c;
-		for (natural i = 0; i < 4; i++) {
-			c = iter.getNext();
-			if (isdigit(c)) year = year*10 + (c - '0'); 
-			else throw InvalidDateTimeFormat(THISLOCATION,isotime);
-		}
-		c = iter.peek();
-		if (c == '-') iter.skip();
-		for (natural i = 0; i < 2; i++) {
-			c = iter.getNext();
-			if (isdigit(c)) month = month * 10 +(c - '0');
-			else throw InvalidDateTimeFormat(THISLOCATION,isotime);
-		}
-		c = iter.peek();
-		if (c == '-') iter.skip();
-		for (natural i = 0; i < 2; i++) {
-			c = iter.getNext();
-			if (isdigit(c)) day = day * 10 +(c - '0');
-			else throw InvalidDateTimeFormat(THISLOCATION,isotime);
-		}
-		if (iter.hasItems()) {
-			c = iter.getNext();
-			if (c != 'T') throw InvalidDateTimeFormat(THISLOCATION,isotime);
-			for (natural i = 0; i < 4; i++) {
-				c = iter.getNext();
-				if (isdigit(c)) hour = hour*10 + (c - '0'); 
-				else throw InvalidDateTimeFormat(THISLOCATION,isotime);
-			}			
-			c = iter.peek();
-			if (c == ':') iter.skip();
-			c = iter.peek();
-			if (isdigit(c)) {
-				for (natural i = 0; i < 2; i++) {
-					c = iter.getNext();
-					if (isdigit(c)) minute = minute * 10 +(c - '0');
-					else throw InvalidDateTimeFormat(THISLOCATION,isotime);
-				}
-				c = iter.peek();
-				if (c == ':') iter.skip();
-				c = iter.peek();
-				if (isdigit(c)) {
-					for (natural i = 0; i < 2; i++) {
-						c = iter.getNext();
-						if (isdigit(c)) second = second * 10 +(c - '0');
-						else throw InvalidDateTimeFormat(THISLOCATION,isotime);
-					}
-				}
-			}
-		}
-*/		
-	}
-
-	LightSpeed::StringA LightSpeed::TimeStamp::formatTime(ConstStrA format,natural hintBuffer) const {
-
-		if (hintBuffer == 0) hintBuffer = format.length() * 3;
-		AutoArray<char> buffer;
-		buffer.resize(hintBuffer);
-		ConstStrA res = formatTime(buffer,format);
-		if (res.empty()) {
-			buffer.resize(hintBuffer * 2);
-			res = formatTime(buffer,format);
-			if (res.empty()) {
-				buffer.resize(hintBuffer * 4);
-				res = formatTime(buffer,format);
-				if (res.empty()) {
-					throw ErrNoWithDescException(THISLOCATION,EFAULT,"Failed to create buffer for formatted date");
-				}
-			}
-		}
-		return res;
-
-	}
-
-
-	const char *TimeStamp::message_InvalidDateTimeFormat = "Invalid date/time: %1";
-
-
-	static const char *DAY_NAMES[] =
-	{ "Sun", "Mon", "Tue", "Wed", "Thu", "Fri", "Sat" };
-	static const char *MONTH_NAMES[] =
-	{ "Jan", "Feb", "Mar", "Apr", "May", "Jun",
-	"Jul", "Aug", "Sep", "Oct", "Nov", "Dec" };
-
-
-
-	TimeStamp::RFC1123Time TimeStamp::asRFC1123Time() const {
-
-		CArray<char,30> buf;
-		formatTime(buf, "%w--, %d %m- %Y %H:%M:%S GMT");
-		memcpy(buf.data(), DAY_NAMES[buf[0] - '0'], 3);
-		memcpy(buf.data()+8, MONTH_NAMES[(buf[8] - '0') * 10 + (buf[9] - '0') -1 ], 3);
-
-		return buf;
-
-	}
-
-
-	TimeStamp::DBTime TimeStamp::asDBTime() const {
-		CArray<char,20> buf;
-		return formatTime(buf,"%Y-%m-%d %H:%M:%S");
-	}
-
-	TimeStamp::JSONTime TimeStamp::asJSONTime() const {
-		return asISO8601Time();
-	}
-
-
-	TimeStamp::ISO8601Time TimeStamp::asISO8601Time() const
-	{
-		CArray<char,21> buf;
-		return formatTime(buf,"%Y-%m-%dT%H:%M:%SZ");		
-	}
-
-	TimeStamp TimeStamp::fromJSONTime(ConstStrA jsonTime) {
-		return fromISO8601Time(jsonTime);
-	}
-
-
-
-}
-
+#include "timestamp.h"
+#include "text/textParser.tcc"
+#include "exceptions/systemException.h"
+#include <math.h>
+
+namespace LightSpeed {
+
+
+
+	TimeStamp TimeStamp::fromDBTime(ConstStrA dbdate) {
+		using namespace LightSpeed;
+		TextParser<char, StaticAlloc<256> > parser;
+		if (parser(" %u1-%u2-%u3 %u4:%u5:%u6 ",dbdate)) {
+			natural yr = parser[1],
+				mh = parser[2],
+				dy = parser[3],
+				hh = parser[4],
+				mn = parser[5],
+				sc = parser[6];
+			return TimeStamp::fromYMDhms(yr,mh,dy,hh,mn,sc);
+		} else if (parser(" %u1-%u2-%u3 " ,dbdate)) {
+			natural yr = parser[1],
+				mh = parser[2],
+				dy = parser[3];
+			return TimeStamp::fromYMDhms(yr,mh,dy,0,0,0);
+		} else if (parser(" %u1:%u2:%u3 ",dbdate)) {
+			natural hh = parser[1],
+				mn = parser[2],
+				sc = parser[3];
+			return TimeStamp::fromYMDhms(0,0,0,hh,mn,sc);
+		} else {
+			throw InvalidDateTimeFormat(THISLOCATION, dbdate);
+		}
+
+	}
+
+	static natural fixShortYear(natural year) {
+		if (year <= 50) year+=2000;else year+=1900;
+		return year;
+	}
+
+	static TimeStamp parse8601date(ConstStrA datePart) {		
+		TextParser<char, StaticAlloc<50> > parse;
+		if (datePart.length() == 4) {
+			if (!parse("%u1",datePart)) throw TimeStamp::InvalidDateTimeFormat(THISLOCATION, datePart);
+			return TimeStamp::fromYMDhms(parse[1],1,1,0,0,0);
+		} else if (datePart.length() == 6) {
+			if (!parse("%(2,2)u1%%(2,2)u2%%(2,2)u3",datePart)) throw TimeStamp::InvalidDateTimeFormat(THISLOCATION, datePart);
+			return TimeStamp::fromYMDhms(fixShortYear(parse[1]),parse[2],parse[3],0,0,0);	
+		} else if (datePart.length() == 7) {
+			//YYYYWww
+			if (parse("%u1W%u2",datePart))  {
+				//TODO better implementation of week
+				return TimeStamp::fromYMDhms(parse[1],1,(natural)parse[2]*7-6,0,0,0);						
+			//YYYYDDD
+			} else if (parse("%(4,4)u1%%u2",datePart))  {
+				return TimeStamp::fromYMDhms(parse[1],1,parse[2],0,0,0);						
+			//YYYY-MM
+			} else if (parse("%u1-%u2",datePart))  {
+				return TimeStamp::fromYMDhms(parse[1],parse[2],1,0,0,0);						
+			} else {
+				throw TimeStamp::InvalidDateTimeFormat(THISLOCATION, datePart);
+			}			
+		} else if (datePart.length() == 8) {
+			//YY-MM-DD
+			if (parse("%u1-%u2-%u3",datePart))  {				
+				return TimeStamp::fromYMDhms(fixShortYear(parse[1]),parse[2],parse[3],0,0,0);	
+			//YYYY-Www
+			} else if (parse("%u1-W%u2",datePart))  {				
+				return TimeStamp::fromYMDhms(parse[1],1,(natural)parse[2]*7-6,0,0,0);	
+			//YYYY-DDD
+			} else if (parse("%u1-%u2",datePart))  {				
+				return TimeStamp::fromYMDhms(parse[1],1,parse[2],0,0,0);	
+			//YYYYMMDD
+			} else if (parse("%(4,4)u1%%(2,2)u2%%(2,2)u3",datePart))  {				
+				return TimeStamp::fromYMDhms(parse[1],parse[2],parse[3],0,0,0);	
+			} else {
+				throw TimeStamp::InvalidDateTimeFormat(THISLOCATION, datePart);
+			}
+		} else if (datePart.length() == 10) {
+			//YYYY-MM-DD
+			if (parse("%u1-%u2-%u3",datePart))  {				
+				return TimeStamp::fromYMDhms(parse[1],parse[2],parse[3],0,0,0);	
+			} else {
+				throw TimeStamp::InvalidDateTimeFormat(THISLOCATION, datePart);
+			}			
+		} else {
+			throw TimeStamp::InvalidDateTimeFormat(THISLOCATION, datePart);
+		}
+	}
+
+
+
+	static TimeStamp parse8601time(ConstStrA timePart) {		
+		TextParser<char, StaticAlloc<50> > parse;
+	
+		natural zonepos = timePart.findOneOf(ConstStrA("Z+-"));
+		ConstStrA zonespec;
+		if (zonepos != naturalNull) { 
+			zonespec  = timePart.offset(zonepos);
+			timePart = timePart.head(zonepos);
+		}
+
+		natural dot = timePart.find('.');
+		natural millis = 0;
+		if (dot != naturalNull) {
+			ConstStrA fract = timePart.offset(dot);
+			timePart = timePart.head(dot);
+			if (parse("%f1",fract)) {
+				float f = parse[1];
+				millis = (natural)floor(f*TimeStamp::timeResolution);				
+			}
+		}
+		TimeStamp res;
+		if (timePart.length() == 2) {
+			if (parse("%u1",timePart))
+				res = TimeStamp::fromYMDhms(0,0,0,parse[1],0,0);
+			else
+				throw TimeStamp::InvalidDateTimeFormat(THISLOCATION, timePart);
+		} else if (timePart.length() == 4) {
+			if (parse("%(2,2)u1%%(2,2)u2",timePart))
+				res = TimeStamp::fromYMDhms(0,0,0,parse[1],parse[2],0);
+			else
+				throw TimeStamp::InvalidDateTimeFormat(THISLOCATION, timePart);
+
+		} else if (timePart.length() == 5) {
+			if (parse("%u1:%u2",timePart))
+				res = TimeStamp::fromYMDhms(0,0,0,parse[1],parse[2],0);
+			else
+				throw TimeStamp::InvalidDateTimeFormat(THISLOCATION, timePart);
+		} else if (timePart.length() == 6) {
+			if (parse("%(2,2)u1%%(2,2)u2%%(2,2)u3",timePart))
+				res = TimeStamp::fromYMDhms(0,0,0,parse[1],parse[2],parse[3]);
+			else
+				throw TimeStamp::InvalidDateTimeFormat(THISLOCATION, timePart);
+
+		} else if (timePart.length() == 8) {
+			if (parse("%u1:%u2:%u3",timePart))
+				res = TimeStamp::fromYMDhms(0,0,0,parse[1],parse[2],parse[3]);
+			else
+				throw TimeStamp::InvalidDateTimeFormat(THISLOCATION, timePart);
+		} else if (!timePart.empty() || dot != naturalNull || !zonespec.empty()) {
+			throw TimeStamp::InvalidDateTimeFormat(THISLOCATION, timePart);
+		}
+
+		res = res + TimeStamp::intervalMSec(millis);
+		if (!zonespec.empty()) {
+			if (zonespec != "Z") {
+				integer zoneofsmin;
+				char zonedir = zonespec[0];
+				zonespec = zonespec.offset(1);
+				if (parse("%u1",zonespec)) {
+					zoneofsmin = (natural)parse[1] * 60;
+				} else if (parse("%(2,2)u1%%(2,2)u2",zonespec)) {
+					zoneofsmin = (natural)parse[1] * 60+(natural)parse[2];
+				} else if (parse("%u1%:%u2",zonespec)) {
+					zoneofsmin = (natural)parse[1] * 60+(natural)parse[2];
+				} else  {
+					throw TimeStamp::InvalidDateTimeFormat(THISLOCATION, zonespec);				
+				}
+				TimeStamp ofs = TimeStamp::intervalMin(zoneofsmin);
+				if (zonedir == '-') {
+					res = res + ofs;
+				} else if (zonedir != '+') {
+					res = res - ofs;
+				} else {
+					throw TimeStamp::InvalidDateTimeFormat(THISLOCATION, zonespec);				
+				}
+			}
+		}
+		return res;
+		
+
+	}
+
+
+	LightSpeed::TimeStamp TimeStamp::fromISO8601Time( ConstStrA isotime )
+	{
+		natural sep = isotime.findOneOf(ConstStrA("T "));
+		if (sep == naturalNull) sep = isotime.length();
+		ConstStrA datePart = isotime.head(sep);
+		ConstStrA timePart = isotime.offset(sep+1);
+
+		try {
+		TimeStamp date = parse8601date(datePart);
+		TimeStamp time = parse8601time(timePart);
+		return date + time;
+		} catch (Exception &e) {
+			throw InvalidDateTimeFormat(THISLOCATION, isotime) << e;
+		}
+/*
+
+		ConstStrA::Iterator iter = isotime;
+		natural year = 0;
+		natural month = 0;
+		natural day = 0;
+		natural hour = 0;
+		natural minute = 0;
+		natural second = 0;
+		natural houroffset = 0;
+		natural minuteoffset = 0;
+		char sign;
+
+		char c;
+		for (natural i = 0; i < 4; i++) {
+			c = iter.getNext();
+			if (isdigit(c)) year = year*10 + (c - '0'); 
+			else throw InvalidDateTimeFormat(THISLOCATION,isotime);
+		}
+		c = iter.peek();
+		if (c == '-') iter.skip();
+		for (natural i = 0; i < 2; i++) {
+			c = iter.getNext();
+			if (isdigit(c)) month = month * 10 +(c - '0');
+			else throw InvalidDateTimeFormat(THISLOCATION,isotime);
+		}
+		c = iter.peek();
+		if (c == '-') iter.skip();
+		for (natural i = 0; i < 2; i++) {
+			c = iter.getNext();
+			if (isdigit(c)) day = day * 10 +(c - '0');
+			else throw InvalidDateTimeFormat(THISLOCATION,isotime);
+		}
+		if (iter.hasItems()) {
+			c = iter.getNext();
+			if (c != 'T') throw InvalidDateTimeFormat(THISLOCATION,isotime);
+			for (natural i = 0; i < 4; i++) {
+				c = iter.getNext();
+				if (isdigit(c)) hour = hour*10 + (c - '0'); 
+				else throw InvalidDateTimeFormat(THISLOCATION,isotime);
+			}			
+			c = iter.peek();
+			if (c == ':') iter.skip();
+			c = iter.peek();
+			if (isdigit(c)) {
+				for (natural i = 0; i < 2; i++) {
+					c = iter.getNext();
+					if (isdigit(c)) minute = minute * 10 +(c - '0');
+					else throw InvalidDateTimeFormat(THISLOCATION,isotime);
+				}
+				c = iter.peek();
+				if (c == ':') iter.skip();
+				c = iter.peek();
+				if (isdigit(c)) {
+					for (natural i = 0; i < 2; i++) {
+						c = iter.getNext();
+						if (isdigit(c)) second = second * 10 +(c - '0');
+						else throw InvalidDateTimeFormat(THISLOCATION,isotime);
+					}
+				}
+			}
+		}
+*/		
+	}
+
+	LightSpeed::StringA LightSpeed::TimeStamp::formatTime(ConstStrA format,natural hintBuffer) const {
+
+		if (hintBuffer == 0) hintBuffer = format.length() * 3;
+		AutoArray<char> buffer;
+		buffer.resize(hintBuffer);
+		ConstStrA res = formatTime(buffer,format);
+		if (res.empty()) {
+			buffer.resize(hintBuffer * 2);
+			res = formatTime(buffer,format);
+			if (res.empty()) {
+				buffer.resize(hintBuffer * 4);
+				res = formatTime(buffer,format);
+				if (res.empty()) {
+					throw ErrNoWithDescException(THISLOCATION,EFAULT,"Failed to create buffer for formatted date");
+				}
+			}
+		}
+		return res;
+
+	}
+
+
+	const char *TimeStamp::message_InvalidDateTimeFormat = "Invalid date/time: %1";
+
+
+	static const char *DAY_NAMES[] =
+	{ "Sun", "Mon", "Tue", "Wed", "Thu", "Fri", "Sat" };
+	static const char *MONTH_NAMES[] =
+	{ "Jan", "Feb", "Mar", "Apr", "May", "Jun",
+	"Jul", "Aug", "Sep", "Oct", "Nov", "Dec" };
+
+
+
+	TimeStamp::RFC1123Time TimeStamp::asRFC1123Time() const {
+
+		CArray<char,30> buf;
+		formatTime(buf, "%w--, %d %m- %Y %H:%M:%S GMT");
+		memcpy(buf.data(), DAY_NAMES[buf[0] - '0'], 3);
+		memcpy(buf.data()+8, MONTH_NAMES[(buf[8] - '0') * 10 + (buf[9] - '0') -1 ], 3);
+
+		return buf;
+
+	}
+
+
+	TimeStamp::DBTime TimeStamp::asDBTime() const {
+		CArray<char,20> buf;
+		return formatTime(buf,"%Y-%m-%d %H:%M:%S");
+	}
+
+	TimeStamp::JSONTime TimeStamp::asJSONTime() const {
+		return asISO8601Time();
+	}
+
+
+	TimeStamp::ISO8601Time TimeStamp::asISO8601Time() const
+	{
+		CArray<char,21> buf;
+		return formatTime(buf,"%Y-%m-%dT%H:%M:%SZ");		
+	}
+
+	TimeStamp TimeStamp::fromJSONTime(ConstStrA jsonTime) {
+		return fromISO8601Time(jsonTime);
+	}
+
+
+
+}
+
-- 
2.43.0


From 37f3a34f71556ddac71659ba85de62797c600068 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:09:45 +0000
Subject: [PATCH 235/331] fix: ISO 8601 times with a zone east of Greenwich or
 with a zone given in minutes

---
 src/lightspeed/base/timestamp.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/lightspeed/base/timestamp.cpp b/src/lightspeed/base/timestamp.cpp
index 3d75208..dc50af1 100644
--- a/src/lightspeed/base/timestamp.cpp
+++ b/src/lightspeed/base/timestamp.cpp
@@ -149,7 +149,7 @@ namespace LightSpeed {
 				integer zoneofsmin;
 				char zonedir = zonespec[0];
 				zonespec = zonespec.offset(1);
-				if (parse("%u1",zonespec)) {
+				if (zonespec.length() == 2 && parse("%u1",zonespec)) {
 					zoneofsmin = (natural)parse[1] * 60;
 				} else if (parse("%(2,2)u1%%(2,2)u2",zonespec)) {
 					zoneofsmin = (natural)parse[1] * 60+(natural)parse[2];
@@ -161,7 +161,7 @@ namespace LightSpeed {
 				TimeStamp ofs = TimeStamp::intervalMin(zoneofsmin);
 				if (zonedir == '-') {
 					res = res + ofs;
-				} else if (zonedir != '+') {
+				} else if (zonedir == '+') {
 					res = res - ofs;
 				} else {
 					throw TimeStamp::InvalidDateTimeFormat(THISLOCATION, zonespec);				
-- 
2.43.0


From 3374bda8b1b70b776b4700a572e2d488b38cff0a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:10:10 +0000
Subject: [PATCH 236/331] fix: fraction of a second in an ISO 8601 time was
 ignored

---
 src/lightspeed/base/timestamp.cpp | 9 ++++-----
 1 file changed, 4 insertions(+), 5 deletions(-)

diff --git a/src/lightspeed/base/timestamp.cpp b/src/lightspeed/base/timestamp.cpp
index dc50af1..7aa38be 100644
--- a/src/lightspeed/base/timestamp.cpp
+++ b/src/lightspeed/base/timestamp.cpp
@@ -104,12 +104,11 @@ namespace LightSpeed {
 		natural dot = timePart.find('.');
 		natural millis = 0;
 		if (dot != naturalNull) {
-			ConstStrA fract = timePart.offset(dot);
+			ConstStrA fract = timePart.offset(dot+1);
 			timePart = timePart.head(dot);
-			if (parse("%f1",fract)) {
-				float f = parse[1];
-				millis = (natural)floor(f*TimeStamp::timeResolution);				
-			}
+			if (!parse("%u1",fract)) throw TimeStamp::InvalidDateTimeFormat(THISLOCATION, fract);
+			double f = (double)(natural)parse[1] / pow(10.0,(double)fract.length());
+			millis = (natural)floor(f*TimeStamp::timeResolution + 0.5);
 		}
 		TimeStamp res;
 		if (timePart.length() == 2) {
-- 
2.43.0


From 02df904ab774141f97fd116580d2d60eeccaa8cd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:10:10 +0000
Subject: [PATCH 237/331] fix: ISO 8601 week dates did not start on Monday of
 the week

---
 src/lightspeed/base/timestamp.cpp | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/src/lightspeed/base/timestamp.cpp b/src/lightspeed/base/timestamp.cpp
index 7aa38be..5ecef17 100644
--- a/src/lightspeed/base/timestamp.cpp
+++ b/src/lightspeed/base/timestamp.cpp
@@ -39,6 +39,14 @@ namespace LightSpeed {
 		return year;
 	}
 
+	static TimeStamp firstDayOfWeek(natural year, natural week) {
+		//week 1 is the week containing 4th January, weeks start on Monday (day 0 was Thursday)
+		integer day = TimeStamp::fromYMDhms(year,1,4,0,0,0).getDay();
+		integer weekDay = (day + 3) % 7;
+		if (weekDay < 0) weekDay += 7;
+		return TimeStamp(day - weekDay + ((integer)week - 1) * 7);
+	}
+
 	static TimeStamp parse8601date(ConstStrA datePart) {		
 		TextParser<char, StaticAlloc<50> > parse;
 		if (datePart.length() == 4) {
@@ -51,7 +59,7 @@ namespace LightSpeed {
 			//YYYYWww
 			if (parse("%u1W%u2",datePart))  {
 				//TODO better implementation of week
-				return TimeStamp::fromYMDhms(parse[1],1,(natural)parse[2]*7-6,0,0,0);						
+				return firstDayOfWeek(parse[1],parse[2]);						
 			//YYYYDDD
 			} else if (parse("%(4,4)u1%%u2",datePart))  {
 				return TimeStamp::fromYMDhms(parse[1],1,parse[2],0,0,0);						
@@ -67,7 +75,7 @@ namespace LightSpeed {
 				return TimeStamp::fromYMDhms(fixShortYear(parse[1]),parse[2],parse[3],0,0,0);	
 			//YYYY-Www
 			} else if (parse("%u1-W%u2",datePart))  {				
-				return TimeStamp::fromYMDhms(parse[1],1,(natural)parse[2]*7-6,0,0,0);	
+				return firstDayOfWeek(parse[1],parse[2]);	
 			//YYYY-DDD
 			} else if (parse("%u1-%u2",datePart))  {				
 				return TimeStamp::fromYMDhms(parse[1],1,parse[2],0,0,0);	
-- 
2.43.0


From d9d33a04fd9ed768bccac27b1ad1838ebb0863f8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:10:10 +0000
Subject: [PATCH 238/331] fix: short time formats such as %c failed because of
 a small buffer

---
 src/lightspeed/base/timestamp.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/lightspeed/base/timestamp.cpp b/src/lightspeed/base/timestamp.cpp
index 5ecef17..ec68d04 100644
--- a/src/lightspeed/base/timestamp.cpp
+++ b/src/lightspeed/base/timestamp.cpp
@@ -262,7 +262,8 @@ namespace LightSpeed {
 
 	LightSpeed::StringA LightSpeed::TimeStamp::formatTime(ConstStrA format,natural hintBuffer) const {
 
-		if (hintBuffer == 0) hintBuffer = format.length() * 3;
+		//some conversions of two characters produce longer text
+		if (hintBuffer == 0) hintBuffer = format.length() * 3 + 16;
 		AutoArray<char> buffer;
 		buffer.resize(hintBuffer);
 		ConstStrA res = formatTime(buffer,format);
-- 
2.43.0


From da3db32b570f2aff1c30faa882724d2143b31a9d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:26:37 +0000
Subject: [PATCH 239/331] fix: empty file path used an uninitialized position
 of the name

---
 src/lightspeed/utils/FilePath.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/lightspeed/utils/FilePath.h b/src/lightspeed/utils/FilePath.h
index 4cd8963..4568d72 100644
--- a/src/lightspeed/utils/FilePath.h
+++ b/src/lightspeed/utils/FilePath.h
@@ -234,7 +234,7 @@ template<const FilePathConfig *config>
 class FilePathT: public String {
 public:
 
-	FilePathT() {}
+	FilePathT():pathFileSep(naturalNull) {}
 	explicit FilePathT(String absolutePath);
 	explicit FilePathT(String absolutePath, bool isDirectory);
 
-- 
2.43.0


From 452f7d51367e9a5d0b4cfc097894387ee4a9b817 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:26:37 +0000
Subject: [PATCH 240/331] fix: file name ending with two dots was handled as
 the parent directory

---
 src/lightspeed/utils/FilePath.h | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/lightspeed/utils/FilePath.h b/src/lightspeed/utils/FilePath.h
index 4568d72..6cfebaa 100644
--- a/src/lightspeed/utils/FilePath.h
+++ b/src/lightspeed/utils/FilePath.h
@@ -349,7 +349,10 @@ FilePathT<config> &FilePathT<config>::operator=(const FilePathT& absolutePath) {
 
 template<const FilePathConfig* config>
 inline ConstStrW FilePathT<config>::getPath() const {
-	if (tail(config->parentDir.length()) == config->parentDir) return *this;
+	//only whole last component can be the parent directory
+	natural pdl = config->parentDir.length(), sepl = config->dirSeparator.length();
+	if (tail(pdl) == config->parentDir
+		&& (length() == pdl || tail(pdl + sepl).head(sepl) == config->dirSeparator)) return *this;
 	if (pathFileSep == naturalNull) {
 		pathFileSep = this->findLast(config->dirSeparator);
 		if (pathFileSep == naturalNull) return ConstStrW();
-- 
2.43.0


From f42ed694e35872f5950cd0dd5e6a8b5ad687bc6e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:26:55 +0000
Subject: [PATCH 241/331] fix: parent of a path ending with two dots was its
 child

---
 src/lightspeed/utils/FilePath.h | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/lightspeed/utils/FilePath.h b/src/lightspeed/utils/FilePath.h
index 6cfebaa..50fb148 100644
--- a/src/lightspeed/utils/FilePath.h
+++ b/src/lightspeed/utils/FilePath.h
@@ -289,9 +289,12 @@ public:
 				return z;
 			}
 			natural sep = z.findLast(config->dirSeparator) ;
+			ConstStrW last = sep == naturalNull?z:ConstStrW(z.offset(sep + config->dirSeparator.length()));
+			//removed link to the parent means that one more directory must be removed
+			if (last == config->parentDir) p++;
+			else p--;
 			if (sep == naturalNull) z = ConstStrW();
 			else z = z.head(sep);
-			p--;
 		}
 		return z;
 	}
-- 
2.43.0


From 80c4482f94a8b1184de0bd2b3ce0832a6ce94f18 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:26:55 +0000
Subject: [PATCH 242/331] fix: two separators after a path whose last part was
 removed by parent

---
 src/lightspeed/utils/FilePath.h | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/src/lightspeed/utils/FilePath.h b/src/lightspeed/utils/FilePath.h
index 50fb148..2fe88d3 100644
--- a/src/lightspeed/utils/FilePath.h
+++ b/src/lightspeed/utils/FilePath.h
@@ -75,6 +75,7 @@ struct FilePathChain<ConstStrW, T, config> {
 			wr.blockWrite(p);
 		} else {
 			t.writePath(wr,skipParents);
+			if (isRemoved(p)) return;
 			wr.blockWrite(config->dirSeparator);
 			wr.blockWrite(p);
 		}
@@ -83,6 +84,10 @@ struct FilePathChain<ConstStrW, T, config> {
 	ConstStrW calcParents(natural &p) const {
 		return FilePathT<config>::calcParents(h,p,abs||driveabs);
 	}
+	///true, when whole path has been removed by parents
+	bool isRemoved(ConstStrW p) const {
+		return p.empty() && !h.empty();
+	}
 
 	static const bool isFolder = false;
 
@@ -94,7 +99,9 @@ struct FilePathChain<ConstStrW, T, config> {
 			ConstStrW drive = t.getDrive();
 			return p.length() + config->rootSeparator.length() + drive.length();
 		} else {
-			return t.getPathLength(skipParents) + config->dirSeparator.length() + p.length();
+			natural base = t.getPathLength(skipParents);
+			if (isRemoved(p)) return base;
+			return base + config->dirSeparator.length() + p.length();
 		}
 	}
 	ConstStrW getDrive() const {
-- 
2.43.0


From a6a0b1a5ce01a7db796263caba967e36e782c9f2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:26:55 +0000
Subject: [PATCH 243/331] fix: value of one character with white spaces around
 was lost

---
 src/lightspeed/utils/configParser.tcc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/lightspeed/utils/configParser.tcc b/src/lightspeed/utils/configParser.tcc
index a00c6c6..757f065 100644
--- a/src/lightspeed/utils/configParser.tcc
+++ b/src/lightspeed/utils/configParser.tcc
@@ -259,7 +259,7 @@ typename ConfigParser<Iter>::Str ConfigParser<Iter>::trim(const Str &other) {
     for (unsigned int i = 0; i < other.length(); i++)
         if (!isspace((unsigned char)other.at(i))) {
             begin = i;
-            end = 0;
+            end = begin;
             for (i = i + 1; i < other.length(); i++)
                 if (!isspace((unsigned char)other.at(i))) end = i;
         }
-- 
2.43.0


From ec6247514a1fae423c19361a8e742a3fdcb181b8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:27:56 +0000
Subject: [PATCH 244/331] fix: last character of a configuration file without a
 final new line was lost

---
 src/lightspeed/utils/configParser.tcc | 11 +++++------
 1 file changed, 5 insertions(+), 6 deletions(-)

diff --git a/src/lightspeed/utils/configParser.tcc b/src/lightspeed/utils/configParser.tcc
index 757f065..94cf5d1 100644
--- a/src/lightspeed/utils/configParser.tcc
+++ b/src/lightspeed/utils/configParser.tcc
@@ -225,13 +225,12 @@ typename ConfigParser<Iter>::Str ConfigParser<Iter>::parseValue() {
         if (nx != '"') throw Error(THISLOCATION,
 						Error::exceptingEndOfQuotedValue,bufferGet());
 
-    } else while (input.hasItems()) {
-			if (nx == '\r' || nx == '\n') {
-				break;
-			} else {
-				bufferPut(nx);
-			}
+    } else {
+		while (nx != '\r' && nx != '\n') {
+			bufferPut(nx);
+			if (!input.hasItems()) break;
 			nx = input.getNext();
+		}
     }
     return trim(bufferGet());
 }
-- 
2.43.0


From 305075ef51091c4300c066d6abfd419bbfe96af0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:27:56 +0000
Subject: [PATCH 245/331] fix: backspace in a quoted configuration value was
 read as a carriage return

---
 src/lightspeed/utils/configParser.tcc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/lightspeed/utils/configParser.tcc b/src/lightspeed/utils/configParser.tcc
index 94cf5d1..1d0cd1c 100644
--- a/src/lightspeed/utils/configParser.tcc
+++ b/src/lightspeed/utils/configParser.tcc
@@ -195,7 +195,7 @@ char ConfigParser<Iter>::getNextEscaped() {
 		case 'r':return('\r');
 		case 't':return('\t');
 		case 'a':return('\a');
-		case 'b':return('\r');
+		case 'b':return('\b');
 		case '0':return('\0');
 		case '\r':
 		case '\n': while (input.hasItems() && isspace(input.peek()))
-- 
2.43.0


From 694d813919bd654951d520a5af81764975ef7ec7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:27:56 +0000
Subject: [PATCH 246/331] fix: escaped character out of ASCII was lost in a
 quoted configuration value

---
 src/lightspeed/utils/configParser.h   | 2 +-
 src/lightspeed/utils/configParser.tcc | 8 ++++----
 2 files changed, 5 insertions(+), 5 deletions(-)

diff --git a/src/lightspeed/utils/configParser.h b/src/lightspeed/utils/configParser.h
index e7b4d7b..f573250 100644
--- a/src/lightspeed/utils/configParser.h
+++ b/src/lightspeed/utils/configParser.h
@@ -50,7 +50,7 @@ protected:
 
     Str parseFieldName();
     bool parseSpecialCommand();
-    char getNextEscaped();
+    int getNextEscaped();
 
     Str parseValue();
     void bufferInit();
diff --git a/src/lightspeed/utils/configParser.tcc b/src/lightspeed/utils/configParser.tcc
index 1d0cd1c..1d75812 100644
--- a/src/lightspeed/utils/configParser.tcc
+++ b/src/lightspeed/utils/configParser.tcc
@@ -188,7 +188,7 @@ bool ConfigParser<Iter>::parseSpecialCommand() {
 }
 
 template<typename Iter>
-char ConfigParser<Iter>::getNextEscaped() {
+int ConfigParser<Iter>::getNextEscaped() {
 	char nx = input.getNext();
 	switch (nx) {
 		case 'n':return('\n');
@@ -201,7 +201,7 @@ char ConfigParser<Iter>::getNextEscaped() {
 		case '\n': while (input.hasItems() && isspace(input.peek()))
 						input.skip();
 				   return -1;
-		default: return(nx);
+		default: return((unsigned char)nx);
 	}
 }
 
@@ -214,8 +214,8 @@ typename ConfigParser<Iter>::Str ConfigParser<Iter>::parseValue() {
         while (input.hasItems()) {
         	nx = input.getNext();
 			if (nx == '\\' && input.hasItems()) {
-				nx = getNextEscaped();
-				if (nx>=0) bufferPut(nx);
+				int c = getNextEscaped();
+				if (c>=0) bufferPut((char)c);
 			} else if (nx == '"' || nx == '\r' || nx == '\n' ) {
 				break;
 			} else {
-- 
2.43.0


From 1f168408f8effd88493a479aef22acfc6668327e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:31:07 +0000
Subject: [PATCH 247/331] fix: enumeration of configuration fields ignored the
 prefix

---
 src/lightspeed/utils/configParser.cpp | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/src/lightspeed/utils/configParser.cpp b/src/lightspeed/utils/configParser.cpp
index 0ea3ec1..abd7aa0 100644
--- a/src/lightspeed/utils/configParser.cpp
+++ b/src/lightspeed/utils/configParser.cpp
@@ -48,13 +48,14 @@ void IniConfigT::RequiredFieldException::message(ExceptionMsg &msg) const {
 }
 
 IniConfigT::Iterator::Iterator(const FieldMap &container, ConstStrA section, ConstStrA prefix)
-    		:innerIter(container.seek(SectionField(section,ConstStrA()))) {
+    		:innerIter(container.seek(SectionField(section,prefix))) {
     		if (innerIter.hasItems()) {
     			const FieldMap::Entity &e = innerIter.peek();
     			if (e.key.section == section) {
-    				this->section = e.key.section;
+    				//nothing is enumerated, unless the first field has the prefix
     				if (e.key.field.head(prefix.length()) == prefix) {
-    					prefix = e.key.field.head(prefix.length());
+    					this->section = e.key.section;
+    					this->prefix = e.key.field.head(prefix.length());
     				}
     			}
     		}
-- 
2.43.0


From 2a790732ebdb29d56442fc4ad24da8604d9948d9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:31:07 +0000
Subject: [PATCH 248/331] fix: enumeration of configuration fields did not
 ignore case

---
 src/lightspeed/utils/configParser.cpp | 13 +++++++++----
 1 file changed, 9 insertions(+), 4 deletions(-)

diff --git a/src/lightspeed/utils/configParser.cpp b/src/lightspeed/utils/configParser.cpp
index abd7aa0..637173b 100644
--- a/src/lightspeed/utils/configParser.cpp
+++ b/src/lightspeed/utils/configParser.cpp
@@ -47,13 +47,18 @@ void IniConfigT::RequiredFieldException::message(ExceptionMsg &msg) const {
 	msg("Config parameter required: [%1]::%2(%3)") << section << field << index;
 }
 
+static bool equalCI(ConstStrA a, ConstStrA b) {
+	StrCmpCI<char> cmp;
+	return cmp(a,b) == cmpResultEqual;
+}
+
 IniConfigT::Iterator::Iterator(const FieldMap &container, ConstStrA section, ConstStrA prefix)
     		:innerIter(container.seek(SectionField(section,prefix))) {
     		if (innerIter.hasItems()) {
     			const FieldMap::Entity &e = innerIter.peek();
-    			if (e.key.section == section) {
+    			if (equalCI(e.key.section,section)) {
     				//nothing is enumerated, unless the first field has the prefix
-    				if (e.key.field.head(prefix.length()) == prefix) {
+    				if (equalCI(e.key.field.head(prefix.length()),prefix)) {
     					this->section = e.key.section;
     					this->prefix = e.key.field.head(prefix.length());
     				}
@@ -62,8 +67,8 @@ IniConfigT::Iterator::Iterator(const FieldMap &container, ConstStrA section, Con
     	}
 
 bool IniConfigT::Iterator::match(const FieldMap::Entity &e)const  {
-    		return e.key.section == section
-    				&& (prefix.empty() || e.key.field.head(prefix.length()) == prefix);
+    		return equalCI(e.key.section,section)
+    				&& (prefix.empty() || equalCI(e.key.field.head(prefix.length()),prefix));
     	}
 
 bool IniConfigT::Iterator::hasItems() const {
-- 
2.43.0


From cbe376ea1b554c75930eb104d9ebd1da03c78102 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:32:22 +0000
Subject: [PATCH 249/331] fix: errors before the first section of a
 configuration were not ignored

---
 src/lightspeed/utils/configParser.tcc | 11 ++++++++++-
 1 file changed, 10 insertions(+), 1 deletion(-)

diff --git a/src/lightspeed/utils/configParser.tcc b/src/lightspeed/utils/configParser.tcc
index 1d75812..db80055 100644
--- a/src/lightspeed/utils/configParser.tcc
+++ b/src/lightspeed/utils/configParser.tcc
@@ -292,7 +292,16 @@ int ConfigParser<Iter>::skipNotInteresting() {
 template<typename Iter, typename Fn>
 void IniConfigT::merge(Iter &iter, bool ignoreErrors, Fn fn) {
 	ConfigParser<Iter> parser(iter);
-	parser.skipSection();
+	bool skipped = false;
+	while (!skipped) {
+		try {
+			parser.skipSection();
+			skipped = true;
+		} catch (typename ConfigParser<Iter>::Error&) {
+			if (!ignoreErrors)
+				throw;
+		}
+	}
 	while (!parser.curSection.empty()) {
 		try {
 			while (parser.getNextLine()) {
-- 
2.43.0


From 4a1f9117c7fec93d9c167dd724248f3ddc93acce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:57:42 +0000
Subject: [PATCH 250/331] fix: listeners of the event log got a wrong offset of
 an event after a time synchronization

---
 src/lightspeed/utils/eventdb.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/lightspeed/utils/eventdb.cpp b/src/lightspeed/utils/eventdb.cpp
index df9edaf..8b06350 100644
--- a/src/lightspeed/utils/eventdb.cpp
+++ b/src/lightspeed/utils/eventdb.cpp
@@ -170,13 +170,13 @@ EventLog::FileOffset EventLog::sendUpdate_trn(natural recordType, ConstBin recor
 
 
 
-	FileOffset ofs = writePos + offset;
+	FileOffset ofs = writePos/blockSize + offset;
 
 
 	try {
 		for (natural i = 0; i < listeners.length(); i++) {
 			try {
-				listeners[i]->onUpdate(ofs/blockSize,writeState.lastTimestamp,recordType,recordData);
+				listeners[i]->onUpdate(ofs,writeState.lastTimestamp,recordType,recordData);
 			} catch (Exception &e) {
 				e.appendReason(ErrorMessageException(THISLOCATION, ConstStrA("Exception while processing handler") + ConstStrA(typeid(*listeners[i]).name())));
 				throw;
-- 
2.43.0


From 9906252e0d2fc32b42be22c97346023e0c1ac02d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:57:42 +0000
Subject: [PATCH 251/331] fix: readRecord read one byte instead of each block

---
 src/lightspeed/utils/eventdb.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/lightspeed/utils/eventdb.cpp b/src/lightspeed/utils/eventdb.cpp
index 8b06350..4b5610c 100644
--- a/src/lightspeed/utils/eventdb.cpp
+++ b/src/lightspeed/utils/eventdb.cpp
@@ -271,7 +271,7 @@ natural EventLog::readRecord(FileOffset offset, void* data, natural size, natura
 	Header hdr;
 	offset *= blockSize;
 	dbfile->read(&hdr,sizeof(hdr), offset);
-	natural sz = hdr.recordSize;
+	natural sz = hdr.recordSize * blockSize;
 	if (hdr.recordType != recordType)
 		throw ErrorMessageException(THISLOCATION, "Invalid offset - recordType doesn't match header");
 	if (sz < size) size = sz;
-- 
2.43.0


From 1fa065e1c1484554b59a4740d90020bb105a6f8f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:57:42 +0000
Subject: [PATCH 252/331] fix: replayed cells were delivered without their cell
 id

---
 src/lightspeed/utils/eventdb.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/lightspeed/utils/eventdb.cpp b/src/lightspeed/utils/eventdb.cpp
index 4b5610c..f88ce6c 100644
--- a/src/lightspeed/utils/eventdb.cpp
+++ b/src/lightspeed/utils/eventdb.cpp
@@ -582,7 +582,7 @@ void EventLog::loadStEvent(FileOffset offset, IUpdateListener* listener) const {
 			throw;
 		}
 	} else {
-		listener->onUpdate(offset,hdr.hdr.timestamp,hdr.hdr.recordType,recordData);
+		listener->onUpdateCell(hdr.hdr.cellId,offset,hdr.hdr.timestamp,hdr.hdr.recordType,recordData);
 	}
 }
 
-- 
2.43.0


From c1bd29106c86343da5decdd498fc6506b3549ee4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:57:42 +0000
Subject: [PATCH 253/331] fix: unused cells were replayed from the begin of the
 cell file

---
 src/lightspeed/utils/eventdb.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/lightspeed/utils/eventdb.cpp b/src/lightspeed/utils/eventdb.cpp
index f88ce6c..8aea36f 100644
--- a/src/lightspeed/utils/eventdb.cpp
+++ b/src/lightspeed/utils/eventdb.cpp
@@ -536,7 +536,7 @@ void EventLog::scanStEvents() {
 void EventLog::rescanStEvents(IUpdateListener* listener) const {
 	for (CellMap::Iterator iter = cellMap.getFwIter(); iter.hasItems();) {
 		const StFrameInfo &ofs = iter.getNext();
-		loadStEvent(ofs.offset, listener);
+		if (ofs.length) loadStEvent(ofs.offset, listener);
 	}
 }
 
-- 
2.43.0


From a7e3fdb067909cf51c9c02f1404f36744616542c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:57:42 +0000
Subject: [PATCH 254/331] fix: live events of fixed size were refused if their
 size is not a multiple of the block

---
 src/lightspeed/utils/eventdb.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/lightspeed/utils/eventdb.h b/src/lightspeed/utils/eventdb.h
index 19e53cf..2cb2b3d 100644
--- a/src/lightspeed/utils/eventdb.h
+++ b/src/lightspeed/utils/eventdb.h
@@ -812,7 +812,7 @@ template<natural align>
 template<typename T>
 inline RecDataT<align>::Fixed::operator const T & () const {
 	static const natural reqSize = ((sizeof(T) + align - 1)/align) * align;
-	if (owner.length() != reqSize)
+	if (owner.length() != reqSize && owner.length() != sizeof(T))
 		throw ErrorMessageException(THISLOCATION,ConstStrA("Unable to load record, size mistmatch: ")+ ConstStrA(typeid(T).name()));
 	return reinterpret_cast<const T &>(*owner.data());
 }
-- 
2.43.0


From c068a5ef016145704c436521edf7cf1af9fe8767 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:58:11 +0000
Subject: [PATCH 255/331] fix: times of events were undefined while a listener
 was synchronized

---
 src/lightspeed/utils/eventdb.cpp | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/src/lightspeed/utils/eventdb.cpp b/src/lightspeed/utils/eventdb.cpp
index 8aea36f..ae4d10e 100644
--- a/src/lightspeed/utils/eventdb.cpp
+++ b/src/lightspeed/utils/eventdb.cpp
@@ -36,13 +36,12 @@ void EventLog::addListener(IUpdateListener* listener) {
 }
 
 void EventLog::addListenerAndSync(IUpdateListener* listener) {
-	UpdateAdapter emptyListener;
 	if (dbfile == 0) throw ErrorMessageException(THISLOCATION, "Not initialized");
 
 
 	FileOffset fsend = 0, fsbeg = 0;
 	Bin::natural16 chk = initialChecksum;
-	time_t lastTimestamp;
+	time_t lastTimestamp = 0;
 
 	listener->onStartRescan();
 	fsend = fileSize();
-- 
2.43.0


From 888541e79be3e15ed15c411faeea278b3d0723f1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:58:11 +0000
Subject: [PATCH 256/331] fix: synchronized listener did not get cells and the
 end of the rescan

---
 src/lightspeed/utils/eventdb.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/lightspeed/utils/eventdb.cpp b/src/lightspeed/utils/eventdb.cpp
index ae4d10e..ade1d18 100644
--- a/src/lightspeed/utils/eventdb.cpp
+++ b/src/lightspeed/utils/eventdb.cpp
@@ -53,6 +53,8 @@ void EventLog::addListenerAndSync(IUpdateListener* listener) {
 	listeners.add(listener);
 	fsend = dbfile->size();
 	rescan(listener,fsbeg,fsend, chk, lastTimestamp, false);
+	rescanStEvents(listener);
+	listener->onEndRescan();
 }
 
 void EventLog::removeListener(IUpdateListener* listener) {
-- 
2.43.0


From 58d456aa95cdb8c0e66059b2c2c748c30c526757 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:58:11 +0000
Subject: [PATCH 257/331] fix: listener of the event log was removed without
 the lock

---
 src/lightspeed/utils/eventdb.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/lightspeed/utils/eventdb.cpp b/src/lightspeed/utils/eventdb.cpp
index ade1d18..447943f 100644
--- a/src/lightspeed/utils/eventdb.cpp
+++ b/src/lightspeed/utils/eventdb.cpp
@@ -58,6 +58,7 @@ void EventLog::addListenerAndSync(IUpdateListener* listener) {
 }
 
 void EventLog::removeListener(IUpdateListener* listener) {
+	Sync _(lock);
 	for (natural i = 0; i < listeners.length(); i++) {
 		if (listeners[i] == listener) {
 			listeners.erase(i);
-- 
2.43.0


From e0f35f7baad4f95e677784b907645b5737f941ae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:58:11 +0000
Subject: [PATCH 258/331] fix: time synchronizations of rotated logs were
 delivered as events

---
 src/lightspeed/utils/eventdb.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/lightspeed/utils/eventdb.cpp b/src/lightspeed/utils/eventdb.cpp
index 447943f..24c3ce7 100644
--- a/src/lightspeed/utils/eventdb.cpp
+++ b/src/lightspeed/utils/eventdb.cpp
@@ -551,6 +551,7 @@ void EventLog::rescanOtherLog(PInputStream input) {
 
 	while (infile.hasItems()) {
 		parseBlock(infile,hdr,checksum,tm,buffer,false);
+		if (hdr.recordType == 0xFFFF && hdr.recordSize == 0) continue;
 		for (natural i = 0; i < listeners.length(); i++) {
 			try {
 				listeners[i]->onUpdate(0,tm,hdr.recordType,RecData(buffer.head(hdr.recordSize*blockSize)));
-- 
2.43.0


From 937a16533a233372262e9b439e73b3d1de98ca7c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:58:11 +0000
Subject: [PATCH 259/331] fix: event log opened without rescan continued at the
 position of the previous file

---
 src/lightspeed/utils/eventdb.cpp | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/lightspeed/utils/eventdb.cpp b/src/lightspeed/utils/eventdb.cpp
index 24c3ce7..8fd6c29 100644
--- a/src/lightspeed/utils/eventdb.cpp
+++ b/src/lightspeed/utils/eventdb.cpp
@@ -233,6 +233,12 @@ void EventLog::open(PRndFileHandle file, PRndFileHandle fixed, bool rescan, ILog
 	this->discovery = discovery;
 	if (rescan) {
 		this->rescan();
+	} else {
+		//find the end of the log and the state of the last event without notifying the listeners
+		UpdateAdapter nobody;
+		writeState.currentCheckSum = initialChecksum;
+		writeState.lastTimestamp = 0;
+		writePos = this->rescan(&nobody,0,dbfile->size(),writeState.currentCheckSum,writeState.lastTimestamp);
 	}
 }
 
-- 
2.43.0


From 063475204d88a016798043e1eb13660c4935dd32 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:58:11 +0000
Subject: [PATCH 260/331] fix: speed limit of updates counted from the size of
 the previous log file

---
 src/lightspeed/utils/eventdb.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/lightspeed/utils/eventdb.cpp b/src/lightspeed/utils/eventdb.cpp
index 8fd6c29..b3c7942 100644
--- a/src/lightspeed/utils/eventdb.cpp
+++ b/src/lightspeed/utils/eventdb.cpp
@@ -240,6 +240,7 @@ void EventLog::open(PRndFileHandle file, PRndFileHandle fixed, bool rescan, ILog
 		writeState.lastTimestamp = 0;
 		writePos = this->rescan(&nobody,0,dbfile->size(),writeState.currentCheckSum,writeState.lastTimestamp);
 	}
+	watcher.startSize = writePos;
 }
 
 void EventLog::rescan() {
-- 
2.43.0


From 8ced42f1881d22e0c71c9f218718d952f03df890 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:58:11 +0000
Subject: [PATCH 261/331] fix: incomplete last frame of the cell file was read
 as garbage

---
 src/lightspeed/utils/eventdb.cpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/lightspeed/utils/eventdb.cpp b/src/lightspeed/utils/eventdb.cpp
index b3c7942..d4a782d 100644
--- a/src/lightspeed/utils/eventdb.cpp
+++ b/src/lightspeed/utils/eventdb.cpp
@@ -532,7 +532,9 @@ void EventLog::scanStEvents() {
 	FileOffset len = fixedfile->size();
 	while (position < len) {
 		StFrame hdr;
-		fixedfile->read(&hdr,sizeof(hdr), position);
+		if (fixedfile->read(&hdr,sizeof(hdr), position) != sizeof(hdr)
+			|| hdr.frameLen < sizeof(hdr) || hdr.frameLen > len - position)
+			throw ErrorMessageException(THISLOCATION,"Fatal: Unexpected end of the cell file found");
 		StFrameInfo nfo;
 		nfo.offset = position;
 		nfo.length = hdr.frameLen;
-- 
2.43.0


From 7b11a957c630bb4e7deaf244940c4a186a2a8442 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:58:11 +0000
Subject: [PATCH 262/331] fix: replication sent a pointer instead of the record

---
 src/lightspeed/utils/eventdb.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/lightspeed/utils/eventdb.cpp b/src/lightspeed/utils/eventdb.cpp
index d4a782d..305f5d4 100644
--- a/src/lightspeed/utils/eventdb.cpp
+++ b/src/lightspeed/utils/eventdb.cpp
@@ -463,7 +463,7 @@ void ReplicationListener::onUpdateCell(natural cellId, FileOffset,
 		rec->length = data.length();
 		rec->cellId = cellId;
 		memcpy(rec->data, data.data(),data.length());
-		out.write(&rec, recsize);
+		out.write(rec, recsize);
 		lastEventTime = timestamp;
 
 	} catch (std::exception &) {
-- 
2.43.0


From a044003bfac408fd4e2eb2973280ab7ca89f7b96 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:58:11 +0000
Subject: [PATCH 263/331] fix: replication did not send the last byte of a
 record

---
 src/lightspeed/utils/eventdb.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/lightspeed/utils/eventdb.cpp b/src/lightspeed/utils/eventdb.cpp
index 305f5d4..f8cfdbb 100644
--- a/src/lightspeed/utils/eventdb.cpp
+++ b/src/lightspeed/utils/eventdb.cpp
@@ -456,7 +456,7 @@ void ReplicationListener::onUpdateCell(natural cellId, FileOffset,
 		time_t timestamp, natural recordType, RecData data) {
 
 	try {
-		natural recsize = sizeof(Header) + data.length() - 1;
+		natural recsize = sizeof(Header) + data.length();
 		Record *rec = (Record *)alloca(recsize);
 		rec->timestamp = Bin::natural32 (timestamp - lastEventTime);
 		rec->recordType = recordType;
-- 
2.43.0


From d372f57846fb4f78f8e8251f296c39ff7ed4200e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:58:11 +0000
Subject: [PATCH 264/331] fix: replicated events had wrong times

---
 src/lightspeed/utils/eventdb.cpp | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/lightspeed/utils/eventdb.cpp b/src/lightspeed/utils/eventdb.cpp
index f8cfdbb..dd30f07 100644
--- a/src/lightspeed/utils/eventdb.cpp
+++ b/src/lightspeed/utils/eventdb.cpp
@@ -432,11 +432,11 @@ ReplicationListener::ReplicationListener(IReplicationOutput& out):out(out) {
 void ReplicationListener::bind(EventLog& db, EventLog::FileOffset scanFrom,
 		time_t timeBase) {
 
-	lastEventTime = 0;
+	lastEventTime = timeBase;
 	timeOffset = 0;
 	EventLog::FileOffset scanned = db.rescan(*this,scanFrom,0,timeBase);
 	Synchronized<FastLockR> _sync(db.lock);
-	db.rescan(*this,scanned,0,timeBase);
+	db.rescan(*this,scanned,0,lastEventTime);
 	db.addListener(this);
 	const EventLog::WriteState &wrState = db.getWriteState();
 	timeOffset = wrState.lastTimestamp - lastEventTime;
@@ -458,13 +458,13 @@ void ReplicationListener::onUpdateCell(natural cellId, FileOffset,
 	try {
 		natural recsize = sizeof(Header) + data.length();
 		Record *rec = (Record *)alloca(recsize);
-		rec->timestamp = Bin::natural32 (timestamp - lastEventTime);
+		rec->timestamp = Bin::natural32 (timestamp - timeOffset);
 		rec->recordType = recordType;
 		rec->length = data.length();
 		rec->cellId = cellId;
 		memcpy(rec->data, data.data(),data.length());
 		out.write(rec, recsize);
-		lastEventTime = timestamp;
+		if (cellId == 0) lastEventTime = timestamp;
 
 	} catch (std::exception &) {
 
-- 
2.43.0


From f1859a9a1f6f569952176c7140bfda66f59df3e0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:59:33 +0000
Subject: [PATCH 265/331] fix: error of an incomplete event log reported an
 uninitialized record type

---
 src/lightspeed/utils/eventdb.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/lightspeed/utils/eventdb.cpp b/src/lightspeed/utils/eventdb.cpp
index dd30f07..5484adc 100644
--- a/src/lightspeed/utils/eventdb.cpp
+++ b/src/lightspeed/utils/eventdb.cpp
@@ -334,7 +334,7 @@ EventLog::FileOffset EventLog::rescan(IUpdateListener* listener, FileOffset from
 	FileOffset ofs = from;
 	AutoArray<byte, SmallAlloc<1024> > buffer;
 	while (ofs < to) {
-		Header hdr;
+		Header hdr = {0,0,0,0};
 		try {
 			natural adv = parseBlock(rdbuff,hdr,checksum,curtime,buffer,noinitialchecksumcheck);
 			noinitialchecksumcheck = false;
-- 
2.43.0


From 06cd27a911c04bc5fb45d2332c3b8716cf482925 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:59:33 +0000
Subject: [PATCH 266/331] fix: refused replicated event broke checksums and
 times of the following events

---
 src/lightspeed/utils/eventdb.cpp | 23 ++++++++++-------------
 1 file changed, 10 insertions(+), 13 deletions(-)

diff --git a/src/lightspeed/utils/eventdb.cpp b/src/lightspeed/utils/eventdb.cpp
index 5484adc..63d1dcf 100644
--- a/src/lightspeed/utils/eventdb.cpp
+++ b/src/lightspeed/utils/eventdb.cpp
@@ -158,24 +158,20 @@ bool EventLog::isSlave() const {
 
 EventLog::FileOffset EventLog::sendUpdate_trn(natural recordType, ConstBin recordData, time_t time) {
 
-	SeqFileOutput outp(dbfile,writePos);
-	SeqFileOutBuff<> outb(outp);
-
 	natural offset = 0;
 	natural wrcount = 0;
+	WriteState prevState = writeState;
 
+	try {
+		{
+			SeqFileOutput outp(dbfile,writePos);
+			SeqFileOutBuff<> outb(outp);
+			wrcount = writeBlock(outb, recordType,recordData,time,writeState,offset);
+			outb.flush();
+		}
 
+		FileOffset ofs = writePos/blockSize + offset;
 
-	wrcount = writeBlock(outb, recordType,recordData,time,writeState,offset);
-	outb.flush();
-
-
-
-
-	FileOffset ofs = writePos/blockSize + offset;
-
-
-	try {
 		for (natural i = 0; i < listeners.length(); i++) {
 			try {
 				listeners[i]->onUpdate(ofs,writeState.lastTimestamp,recordType,recordData);
@@ -185,6 +181,7 @@ EventLog::FileOffset EventLog::sendUpdate_trn(natural recordType, ConstBin recor
 			}
 		}
 	} catch (std::exception &e) {
+		writeState = prevState;
 		dbfile->setSize(writePos);
 		LS_LOG.fatal("Error during update database: %1 - this is fatal - position: %2 [byte]") << e.what() << writePos;
 		throw;
-- 
2.43.0


From b2e2770c938feda7aaf064478eeb16145038941f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:59:33 +0000
Subject: [PATCH 267/331] fix: event older than the previous one shifted times
 of the following events by 136 years

---
 src/lightspeed/utils/eventdb.cpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/lightspeed/utils/eventdb.cpp b/src/lightspeed/utils/eventdb.cpp
index 63d1dcf..dcee4c5 100644
--- a/src/lightspeed/utils/eventdb.cpp
+++ b/src/lightspeed/utils/eventdb.cpp
@@ -79,6 +79,8 @@ natural EventLog::writeBlock(SeqFileOutput toStream,
 	byte padding[blockSize];
 	if (recordType > 0xFFFF) throw InvalidParamException(THISLOCATION,0,"Record type cannot be higher than 65535");
 	if (recordData.length() > (0xFFFF* blockSize)) throw InvalidParamException(THISLOCATION,1,"Record is limited up to 512KiB");
+	if (curTime < state.lastTimestamp) throw InvalidParamException(THISLOCATION,2,"Record cannot be older than the previous record");
+
 	Header hdr;
 	natural timediff = (natural)(curTime - state.lastTimestamp);
 
@@ -382,6 +384,8 @@ EventLog::Transaction::Transaction(EventLog& owner)
 	checkSlaveExcept(owner);
 	owner.lock.lock();
 	time(&curTime);
+	//the clock could be moved back
+	if (curTime < owner.writeState.lastTimestamp) curTime = owner.writeState.lastTimestamp;
 }
 
 EventLog::Transaction::~Transaction() {
-- 
2.43.0


From 1591da918d403305f6530bd85d5f9c0993120b68 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:59:33 +0000
Subject: [PATCH 268/331] fix: replication cut records over 64 KB

---
 src/lightspeed/utils/eventdb.cpp | 16 ++++++++++------
 1 file changed, 10 insertions(+), 6 deletions(-)

diff --git a/src/lightspeed/utils/eventdb.cpp b/src/lightspeed/utils/eventdb.cpp
index dcee4c5..c421d2c 100644
--- a/src/lightspeed/utils/eventdb.cpp
+++ b/src/lightspeed/utils/eventdb.cpp
@@ -134,13 +134,14 @@ bool EventLog::readReplicationData(IReplicationInput& input, time_t timeOffset)
 	if (!isSlave()) throw ErrorMessageException(THISLOCATION,"Slave mode is not initialized");
 	ReplicationListener::Header hdr;
 	if (!input.read(&hdr, sizeof(hdr))) return false;
-	byte *buffer = hdr.length?(byte *)alloca(hdr.length):0;
-	if (hdr.length) {
-		if (!input.read(buffer,hdr.length)) return false;
+	natural datasz = hdr.length * EventLog::blockSize;
+	byte *buffer = datasz?(byte *)alloca(datasz):0;
+	if (datasz) {
+		if (!input.read(buffer,datasz)) return false;
 	}
 
 	Synchronized<FastLockR> _(lock);
-	ConstBin binbuff(buffer,hdr.length);
+	ConstBin binbuff(buffer,datasz);
 	time_t realtime = hdr.timestamp+timeOffset;
 	if (hdr.cellId != 0)
 		updateStEvent_trn(hdr.cellId,hdr.recordType,binbuff,realtime);
@@ -457,13 +458,16 @@ void ReplicationListener::onUpdateCell(natural cellId, FileOffset,
 		time_t timestamp, natural recordType, RecData data) {
 
 	try {
-		natural recsize = sizeof(Header) + data.length();
+		//the length is in blocks, the same way as in the log
+		natural blocks = (data.length() + EventLog::blockSize - 1)/EventLog::blockSize;
+		natural recsize = sizeof(Header) + blocks*EventLog::blockSize;
 		Record *rec = (Record *)alloca(recsize);
 		rec->timestamp = Bin::natural32 (timestamp - timeOffset);
 		rec->recordType = recordType;
-		rec->length = data.length();
+		rec->length = (Bin::natural16)blocks;
 		rec->cellId = cellId;
 		memcpy(rec->data, data.data(),data.length());
+		memset(rec->data + data.length(), 0, blocks*EventLog::blockSize - data.length());
 		out.write(rec, recsize);
 		if (cellId == 0) lastEventTime = timestamp;
 
-- 
2.43.0


From 4545b23325739234acd08d1410af4f397b9e36f9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:00:41 +0000
Subject: [PATCH 269/331] fix: failed write of a new cell left an incomplete
 frame in the cell file

---
 src/lightspeed/utils/eventdb.cpp | 38 +++++++++++++++++++-------------
 1 file changed, 23 insertions(+), 15 deletions(-)

diff --git a/src/lightspeed/utils/eventdb.cpp b/src/lightspeed/utils/eventdb.cpp
index c421d2c..9f131e6 100644
--- a/src/lightspeed/utils/eventdb.cpp
+++ b/src/lightspeed/utils/eventdb.cpp
@@ -493,25 +493,33 @@ EventLog::FileOffset EventLog::updateStEvent_trn(natural cellId, natural recordT
 	if (fixedfile == nil) throwNullPointerException(THISLOCATION);
 	expandCellMap(cellId);
 	natural granSize = (recordData.length() + 7)/blockSize;
-	StFrameInfo &f = cellMap(cellId);
+	StFrameInfo f = cellMap(cellId);
 	natural needSz = sizeof(StFrame)+granSize*blockSize;
-	if (f.length < needSz) {
+	bool newFrame = f.length < needSz;
+	if (newFrame) {
 		f.offset = fixedfile->size();
 		f.length = needSz;
 	}
-	SeqFileOutput out(fixedfile, f.offset);
-	StFrame hdr;
-	hdr.frameLen = f.length;
-	hdr.hdr.cellId = cellId;
-	hdr.hdr.length = granSize;
-	hdr.hdr.recordType = recordType;
-	hdr.hdr.timestamp = (Bin::natural32)time;
-	out.blockWrite(&hdr, sizeof(hdr), true);
-	out.blockWrite(recordData, true);
-	natural remain = granSize*blockSize - recordData.length();
-	if (remain)
-		for (natural i = 0; i < remain; i++) out.write(0);
-	out.flush();
+	try {
+		SeqFileOutput out(fixedfile, f.offset);
+		StFrame hdr;
+		hdr.frameLen = f.length;
+		hdr.hdr.cellId = cellId;
+		hdr.hdr.length = granSize;
+		hdr.hdr.recordType = recordType;
+		hdr.hdr.timestamp = (Bin::natural32)time;
+		out.blockWrite(&hdr, sizeof(hdr), true);
+		out.blockWrite(recordData, true);
+		natural remain = granSize*blockSize - recordData.length();
+		if (remain)
+			for (natural i = 0; i < remain; i++) out.write(0);
+		out.flush();
+	} catch (...) {
+		//don't leave incomplete frame at the end of the file
+		if (newFrame) fixedfile->setSize(f.offset);
+		throw;
+	}
+	cellMap(cellId) = f;
 
 	try {
 		for (natural i = 0; i < listeners.length(); i++) {
-- 
2.43.0


From c6957f5580bdf4aad480f796988bdfd925274c7e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:09:16 +0000
Subject: [PATCH 270/331] fix: btree.h did not include what it uses

---
 src/lightspeed/base/containers/btree.h | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/lightspeed/base/containers/btree.h b/src/lightspeed/base/containers/btree.h
index 0890bfa..92e0fd3 100644
--- a/src/lightspeed/base/containers/btree.h
+++ b/src/lightspeed/base/containers/btree.h
@@ -7,6 +7,8 @@
 #include <assert.h>
 #include <functional>
 #include <algorithm>
+#include <new>
+#include "../objmanip.h"
 
 #ifndef LIBS_LIGHTSPEED_SRC_LIGHTSPEED_BASE_CONTAINERS_BTREE_H_
 #define LIBS_LIGHTSPEED_SRC_LIGHTSPEED_BASE_CONTAINERS_BTREE_H_
-- 
2.43.0


From f5bf838cbcb8f3bc01e9dc42419386a5b6fe8416 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:09:16 +0000
Subject: [PATCH 271/331] fix: removing from a B-tree crashed when a key was
 moved between leaves

---
 src/lightspeed/base/containers/btree.h | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/src/lightspeed/base/containers/btree.h b/src/lightspeed/base/containers/btree.h
index 92e0fd3..c018bc3 100644
--- a/src/lightspeed/base/containers/btree.h
+++ b/src/lightspeed/base/containers/btree.h
@@ -1199,12 +1199,12 @@ BTreeNode<T,Compare>* BTree<T,Compare>::_Adjust (BTreeNode<T,Compare>* node, sho
     c1->ShiftRightAt (0);
     //    c1->_item[0] = node->_item[index];
     move(node->_item+index, c1->_item);
-    c1->_subtree[0] = c0->_subtree[c0->_keyCount];
+    if (!c1->_isLeaf) c1->_subtree[0] = c0->_subtree[c0->_keyCount];
     //node->_item[index] = c0->_item[c0->_keyCount-1];
     move(c0->_item+(c0->_keyCount-1), node->_item);
     c0->_keyCount--;
     c1->_keyCount++;
-    BTreeNode<T,Compare>* p = c1->_subtree[0];
+    BTreeNode<T,Compare>* p = c1->_isLeaf?0:c1->_subtree[0];
     long xfr = (p) ? p->_subtreeSize+1 : 1;
     c1->_subtreeSize += xfr;
     c0->_subtreeSize -= xfr;
@@ -1215,11 +1215,11 @@ BTreeNode<T,Compare>* BTree<T,Compare>::_Adjust (BTreeNode<T,Compare>* node, sho
   else
   {
     // c1->keyCount >= order, so rotate left
-    c0->_item[_order-1] = node->_item[index];
-    c0->_subtree[_order] = c1->_subtree[0];
+    move(node->_item+index, c0->_item+_order-1);
+    if (!c0->_isLeaf) c0->_subtree[_order] = c1->_subtree[0];
     c0->_keyCount++;
-    node->_item[index] = c1->_item[0];
-    BTreeNode<T,Compare>* p = c0->_subtree[_order];
+    move(c1->_item, node->_item+index);
+    BTreeNode<T,Compare>* p = c0->_isLeaf?0:c0->_subtree[_order];
     long xfr = (p) ? p->_subtreeSize+1 : 1;
     c1->_subtreeSize -= xfr;
     c0->_subtreeSize += xfr;
-- 
2.43.0


From 18908392abcbac12b408521a98d0c9f26e0f438e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:09:16 +0000
Subject: [PATCH 272/331] fix: removing from a B-tree lost a key during a
 rotation to the right

---
 src/lightspeed/base/containers/btree.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/lightspeed/base/containers/btree.h b/src/lightspeed/base/containers/btree.h
index c018bc3..a0a55c8 100644
--- a/src/lightspeed/base/containers/btree.h
+++ b/src/lightspeed/base/containers/btree.h
@@ -1201,7 +1201,7 @@ BTreeNode<T,Compare>* BTree<T,Compare>::_Adjust (BTreeNode<T,Compare>* node, sho
     move(node->_item+index, c1->_item);
     if (!c1->_isLeaf) c1->_subtree[0] = c0->_subtree[c0->_keyCount];
     //node->_item[index] = c0->_item[c0->_keyCount-1];
-    move(c0->_item+(c0->_keyCount-1), node->_item);
+    move(c0->_item+(c0->_keyCount-1), node->_item+index);
     c0->_keyCount--;
     c1->_keyCount++;
     BTreeNode<T,Compare>* p = c1->_isLeaf?0:c1->_subtree[0];
-- 
2.43.0


From 6115541f1b020c5c141e2456325b713ea72cad25 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:09:16 +0000
Subject: [PATCH 273/331] fix: successor did not replace the key removed from
 an internal node of a B-tree

---
 src/lightspeed/base/containers/btree.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/lightspeed/base/containers/btree.h b/src/lightspeed/base/containers/btree.h
index a0a55c8..60b70aa 100644
--- a/src/lightspeed/base/containers/btree.h
+++ b/src/lightspeed/base/containers/btree.h
@@ -993,7 +993,7 @@ bool BTree<T,Compare>::Remove (const T &key)
       if (p->_isLeaf) break;
       p = _DescendInto (p, 0, action);
     }
-    move(p->_item, p->_item+index);
+    move(p->_item, node->_item+index);
 //    node->_item[index] = p->_item[0];
     p->ShiftLeftAt(1);
   }
-- 
2.43.0


From 9b2626178ad216232b4a30b019a414776ad32a41 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:10:35 +0000
Subject: [PATCH 274/331] fix: size of a B-tree stayed one after the last item
 was removed

---
 src/lightspeed/base/containers/btree.h | 7 +------
 1 file changed, 1 insertion(+), 6 deletions(-)

diff --git a/src/lightspeed/base/containers/btree.h b/src/lightspeed/base/containers/btree.h
index 60b70aa..3e07de5 100644
--- a/src/lightspeed/base/containers/btree.h
+++ b/src/lightspeed/base/containers/btree.h
@@ -1037,12 +1037,7 @@ T BTree<T,Compare>::ExtractMin ()
 template <class T, class Compare>
 void BTree<T,Compare>::updSubtree(BTreeNode<T,Compare>** stack, int sp)
 {
-  short i = 0;
-  if (stack[0]->_keyCount == 0)
-  {
-    i = 1;
-  }
-  for (; i < sp; i++)
+  for (short i = 0; i < sp; i++)
   {
     stack[i]->_subtreeSize--;
   }
-- 
2.43.0


From ce6092b221257949740b05f8d27f965d42a09a94 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:10:35 +0000
Subject: [PATCH 275/331] fix: items of a copied B-tree were constructed twice

---
 src/lightspeed/base/containers/btree.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/lightspeed/base/containers/btree.h b/src/lightspeed/base/containers/btree.h
index 3e07de5..3180c69 100644
--- a/src/lightspeed/base/containers/btree.h
+++ b/src/lightspeed/base/containers/btree.h
@@ -107,7 +107,7 @@ public:
     _isLeaf(other._isLeaf),
     _subtreeSize(other._subtreeSize),
     _order(other._order),
-    _item(new T[2 * other._order /*- 1*/]),
+    _item(reinterpret_cast<T *>(operator new(2 * other._order * sizeof(T) ))),
     _subtree(other._isLeaf?0:new BTreeNode<T,Compare>*[2 * other._order]),
     _owner(owner)
   {
-- 
2.43.0


From e97d1d6a83de08590c08c7ab1ccabc852d4b04f0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:10:35 +0000
Subject: [PATCH 276/331] fix: nodes of an assigned B-tree referred to a
 destroyed tree

---
 src/lightspeed/base/containers/btree.h | 12 +++++++-----
 1 file changed, 7 insertions(+), 5 deletions(-)

diff --git a/src/lightspeed/base/containers/btree.h b/src/lightspeed/base/containers/btree.h
index 3180c69..a08d5a0 100644
--- a/src/lightspeed/base/containers/btree.h
+++ b/src/lightspeed/base/containers/btree.h
@@ -197,11 +197,13 @@ public:
 
   BTree<T,Compare> &operator=(const BTree &other)
   {
-    delete _root;
-    BTree<T,Compare> copy(other);
-    _root=copy._root;
-    copy._root=0;
-    _order=copy._order;
+    if (this != &other) {
+      //nodes must refer to this tree
+      BTreeNode<T,Compare> *newRoot=other._root?new BTreeNode<T,Compare>(*this,*other._root):0;
+      delete _root;
+      _root=newRoot;
+      _order=other._order;
+    }
     return *this;
   }
 
-- 
2.43.0


From 103a91f5e427b4f03b1e8ef177d741e7b6ad7f72 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:10:35 +0000
Subject: [PATCH 277/331] fix: B-tree accepted a duplicate of the item moved up
 by a split

---
 src/lightspeed/base/containers/btree.h | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/lightspeed/base/containers/btree.h b/src/lightspeed/base/containers/btree.h
index a08d5a0..23ad729 100644
--- a/src/lightspeed/base/containers/btree.h
+++ b/src/lightspeed/base/containers/btree.h
@@ -1068,6 +1068,12 @@ bool BTree<T,Compare>::_InsertNonFull (BTreeNode<T,Compare>* x, const T &item)
       _SplitChild (z, pos, y);
       if (!less(item,z->_item[pos]))
       {
+        if (!less(z->_item[pos],item))
+        {
+          //the item was moved up by the split
+          found = true;
+          break;
+        }
         pos++;
         y = z->_subtree[pos];
       }
-- 
2.43.0


From e15d33007009821286ef933b867f35a9e81b0912 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:10:35 +0000
Subject: [PATCH 278/331] fix: B-tree iteration from an item of an internal
 node crashed

---
 src/lightspeed/base/containers/btree.h | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/lightspeed/base/containers/btree.h b/src/lightspeed/base/containers/btree.h
index 23ad729..36dce3c 100644
--- a/src/lightspeed/base/containers/btree.h
+++ b/src/lightspeed/base/containers/btree.h
@@ -426,13 +426,14 @@ public:
     {
       // We're in an internal node; so move down to the leaf
       p = tmp_ptr->_subtree[pos];
-      do
+      for(;;)
       {
         path[_length]._handle = p;
         path[_length]._indexInNode = p->_keyCount;
         _length++;
+        if (p->_isLeaf) break;
         p = p->_subtree[p->_keyCount]; // Rightmost subtree
-      } while (p);
+      }
     }
     path[_length-1]._indexInNode--;
     // So that the first call to Next gives
-- 
2.43.0


From a827e1f6f1d2341d9a3becaed0beea219c535aa9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:10:36 +0000
Subject: [PATCH 279/331] fix: backward iteration of a B-tree skipped items

---
 src/lightspeed/base/containers/btree.h | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/lightspeed/base/containers/btree.h b/src/lightspeed/base/containers/btree.h
index 36dce3c..450b1b3 100644
--- a/src/lightspeed/base/containers/btree.h
+++ b/src/lightspeed/base/containers/btree.h
@@ -524,7 +524,7 @@ public:
     if (_length==0)
     {
       _path[0]._handle=_tree._root;
-      _path[0]._indexInNode=_tree._root->_keyCount+1;
+      _path[0]._indexInNode=_tree._root->_keyCount;
       _length++;
     }
 
@@ -537,9 +537,8 @@ public:
     if (node==NULL) return 0;
     if (! node->_isLeaf)
     {
-      // Move to the next left subtree
-      path[_length-1]._indexInNode--;
-      BTreeNode<T,Compare> *handle = node->_subtree[ndx-1];
+      // Move to the subtree on the left of the current key
+      BTreeNode<T,Compare> *handle = node->_subtree[ndx];
       while (!node->_isLeaf)
       {
         path[_length]._handle = handle;
@@ -567,6 +566,7 @@ public:
       T *retVal;
       if (_length)
       {
+        path[_length-1]._indexInNode = ndx-1;
         retVal = node->_item + ndx-1;
       }
       else
-- 
2.43.0


From ea0e5da3d234274ee70538e57a15b9c9bb784bed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:10:36 +0000
Subject: [PATCH 280/331] fix: removing an item by a reference into the B-tree
 used a moved item

---
 src/lightspeed/base/containers/btree.h | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/lightspeed/base/containers/btree.h b/src/lightspeed/base/containers/btree.h
index 450b1b3..19e1ddb 100644
--- a/src/lightspeed/base/containers/btree.h
+++ b/src/lightspeed/base/containers/btree.h
@@ -899,8 +899,10 @@ It immediately coalesces any underflowing nodes along the path
 from the root to the deleted key.
 */
 template <class T, class Compare>
-bool BTree<T,Compare>::Remove (const T &key)
+bool BTree<T,Compare>::Remove (const T &itm)
 {
+  //the item can be a part of the tree, so it can be moved while the tree is searched
+  const T key(itm);
   BTreeNode<T,Compare>* root = _root;
   BTreeNode<T,Compare>* node = root;
   bool retVal = false;
-- 
2.43.0


From ee4e87012f8732c890b2227b561d38dae3c533c9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:39:58 +0000
Subject: [PATCH 281/331] fix: programs using fibers could not be linked

---
 src/lightspeed/mt/linux/fiber.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/lightspeed/mt/linux/fiber.cpp b/src/lightspeed/mt/linux/fiber.cpp
index 2031906..8e3c772 100644
--- a/src/lightspeed/mt/linux/fiber.cpp
+++ b/src/lightspeed/mt/linux/fiber.cpp
@@ -16,6 +16,7 @@
 #include "../exceptions/fiberException.h"
 #include "../../base/containers/constStr.h"
 #include "../../base/exceptions/stdexception.h"
+#include "../../base/exceptions/throws.tcc"
 
 
 namespace LightSpeed {
-- 
2.43.0


From 43e980062b1afc26396639f44a53ffa7ced5801a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:39:58 +0000
Subject: [PATCH 282/331] fix: function of a fiber was called through a wrong
 type

---
 src/lightspeed/mt/linux/fiber.cpp | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/lightspeed/mt/linux/fiber.cpp b/src/lightspeed/mt/linux/fiber.cpp
index 8e3c772..b36722b 100644
--- a/src/lightspeed/mt/linux/fiber.cpp
+++ b/src/lightspeed/mt/linux/fiber.cpp
@@ -51,7 +51,7 @@ namespace LightSpeed {
 		//space reserved for stack (continues outside of object)
 		natural stack[1];
 
-		static void fiberBootstrap(const FiberFunction *fn) throw();
+		static void fiberBootstrap(const IFiberFunction *fn) throw();
 		static void exitFiber();
 	};
 
@@ -80,13 +80,13 @@ namespace LightSpeed {
 	}
 
 	//bootstrap procedure - called to start the fiber
-	void FiberContext::fiberBootstrap(const FiberFunction *fn) throw() {
+	void FiberContext::fiberBootstrap(const IFiberFunction *fn) throw() {
 
 
-		natural sz = fn->ifc().getObjectSize();
+		natural sz = fn->getObjectSize();
 		void *buff = alloca(sz);
 		AllocInBuffer abuff(buff,sz);
-		AllocPointer<FiberFunction::Ifc> fnptr(fn->clone(abuff));
+		AllocPointer<IFiberFunction> fnptr(fn->clone(abuff));
 
 		try {
 
-- 
2.43.0


From 7d86c45cc246bfc80de40ed8fd6342d38bd32282 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:39:58 +0000
Subject: [PATCH 283/331] fix: context of the master fiber was not initialized

---
 src/lightspeed/mt/linux/fiber.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/lightspeed/mt/linux/fiber.cpp b/src/lightspeed/mt/linux/fiber.cpp
index b36722b..989e55e 100644
--- a/src/lightspeed/mt/linux/fiber.cpp
+++ b/src/lightspeed/mt/linux/fiber.cpp
@@ -269,6 +269,7 @@ namespace LightSpeed {
 		} else {
 			cur = new Fiber();
 			cur->ctx = (FiberContext *)malloc(sizeof(FiberContext));
+			memset(cur->ctx,0,sizeof(FiberContext));
 			currentFiber.set(tbl,cur);
 			masterFiber.set(tbl,cur,&fiberCleanup);
 			cur->master = cur;
-- 
2.43.0


From 1b6e2185637a2f25359a5fd667708b1a7fac6a58 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:39:58 +0000
Subject: [PATCH 284/331] fix: destroyed master fiber stayed registered

---
 src/lightspeed/mt/linux/fiber.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/lightspeed/mt/linux/fiber.cpp b/src/lightspeed/mt/linux/fiber.cpp
index 989e55e..e2d5905 100644
--- a/src/lightspeed/mt/linux/fiber.cpp
+++ b/src/lightspeed/mt/linux/fiber.cpp
@@ -288,6 +288,7 @@ namespace LightSpeed {
 			return false;
 		}
 		currentFiber.unset(tbl);
+		masterFiber.unset(tbl);
 		return true;
 	}
 
-- 
2.43.0


From a05cb04df036f8db9d0efcc978902893fe82c16b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:40:25 +0000
Subject: [PATCH 285/331] fix: wakeUp of a fiber which was not started
 terminated the program

---
 src/lightspeed/mt/linux/fiber.cpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/lightspeed/mt/linux/fiber.cpp b/src/lightspeed/mt/linux/fiber.cpp
index e2d5905..bd95568 100644
--- a/src/lightspeed/mt/linux/fiber.cpp
+++ b/src/lightspeed/mt/linux/fiber.cpp
@@ -176,10 +176,12 @@ namespace LightSpeed {
 	}
 
 	void Fiber::wakeUp(natural reason) throw() {
+		//passive fiber cannot be resumed
+		if (ctx == 0) return;
 		//retrieve current fiber
 		Fiber &cur = current();
 		//if resume to current fiber - do nothing
-		if (&cur == this || ctx == 0) return;
+		if (&cur == this) return;
 		//store caller
 		caller = &cur;
 		//set reason
-- 
2.43.0


From 6ce68e9cef2cbcd859243a8b0998745c804ec190 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:40:43 +0000
Subject: [PATCH 286/331] fix: stopping a fiber waiting in wakeUp terminated
 the program

---
 src/lightspeed/mt/linux/fiber.cpp | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/src/lightspeed/mt/linux/fiber.cpp b/src/lightspeed/mt/linux/fiber.cpp
index bd95568..fd51c8c 100644
--- a/src/lightspeed/mt/linux/fiber.cpp
+++ b/src/lightspeed/mt/linux/fiber.cpp
@@ -187,7 +187,11 @@ namespace LightSpeed {
 		//set reason
 		ctx->wakeUpReason = reason;
 		//make fiber active
-		switchFibers(&cur,this);
+		try {
+			switchFibers(&cur,this);
+		} catch (StopFiberException) {
+			//exception cannot leave this function - sleep() will throw it
+		}
 	}
 
 	Fiber* Fiber::currentPtr() {
@@ -252,6 +256,9 @@ namespace LightSpeed {
 
 	natural Fiber::sleep() {
 		Fiber &cur = current();
+		//stop was requested while the fiber was unable to process the exception
+		if (cur.ctx->stopSignal && !std::uncaught_exception())
+			throw stopFiberException;
 		if (cur.caller == 0 || cur.caller->ctx == 0) {
 			if (cur.master == 0 || cur.master->ctx == 0)
 				throw FiberNotRunningException(THISLOCATION,0);
-- 
2.43.0


From 4c0876c5eb12254641ff4f3f8d06d440f5900d01 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:40:56 +0000
Subject: [PATCH 287/331] fix: restarted fiber was not stopped by its
 destructor if an exception was pending

---
 src/lightspeed/mt/linux/fiber.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/lightspeed/mt/linux/fiber.cpp b/src/lightspeed/mt/linux/fiber.cpp
index fd51c8c..ef0e8db 100644
--- a/src/lightspeed/mt/linux/fiber.cpp
+++ b/src/lightspeed/mt/linux/fiber.cpp
@@ -69,7 +69,7 @@ namespace LightSpeed {
 				free(ctx);
 			else {
 				//stop fiber, when it running
-				while (checkState()) {
+				while (ctx) {
 					//stop should throw special exception
 					stop();
 				}
-- 
2.43.0


From 69c2c58367a82c534c0115bb19e9b91d1b0e6082 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:47:14 +0000
Subject: [PATCH 288/331] fix: writing to a connection closed by the peer
 killed the program

---
 src/lightspeed/base/linux/netStream.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/lightspeed/base/linux/netStream.cpp b/src/lightspeed/base/linux/netStream.cpp
index 2322b25..a8f9cb4 100644
--- a/src/lightspeed/base/linux/netStream.cpp
+++ b/src/lightspeed/base/linux/netStream.cpp
@@ -64,7 +64,7 @@ natural LinuxNetStream::write( const void *buffer, natural size )
 	if (!wait(INetworkResource::waitForOutput))
 		throw NetworkTimeoutException(THISLOCATION,getTimeout(),
 			NetworkTimeoutException::writing);
-	int res = send(sock,reinterpret_cast<const char *>(buffer),(int)size,0);
+	int res = send(sock,reinterpret_cast<const char *>(buffer),(int)size,MSG_NOSIGNAL);
 	if (res == -1)
 		throw NetworkIOError(THISLOCATION,errno,"send failed");
 	return (natural)res;
-- 
2.43.0


From 57b51c7aa2fae7e684a7fa093528d8e3c2e5144c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:47:37 +0000
Subject: [PATCH 289/331] fix: operations of network streams failed if a signal
 interrupted them

---
 src/lightspeed/base/linux/linuxFdSelect.cpp |  6 ++++++
 src/lightspeed/base/linux/netStream.cpp     | 15 ++++++++++++---
 2 files changed, 18 insertions(+), 3 deletions(-)

diff --git a/src/lightspeed/base/linux/linuxFdSelect.cpp b/src/lightspeed/base/linux/linuxFdSelect.cpp
index 0d4ec05..d80bdf9 100644
--- a/src/lightspeed/base/linux/linuxFdSelect.cpp
+++ b/src/lightspeed/base/linux/linuxFdSelect.cpp
@@ -42,8 +42,14 @@ natural safeSelect(integer socket, natural waitFor, natural timeout) {
 	fdinfo.fd = socket;
 	fdinfo.events = waitMaskToEvents(waitFor);
 	fdinfo.revents = 0;
+	Timeout endTm(timeout);
 	int tm = timeout==naturalNull?-1:(int)timeout;
 	int r=poll(&fdinfo,1,tm);
+	//interrupted by a signal - wait for the rest of the time
+	while (r == -1 && errno == EINTR) {
+		if (!endTm.isInfinite()) tm = (int)endTm.getRemain().msecs();
+		r=poll(&fdinfo,1,tm);
+	}
 	if (r == 1) {
 		return eventsToWaitMask(fdinfo.revents);
 	} else if (r == 0) {
diff --git a/src/lightspeed/base/linux/netStream.cpp b/src/lightspeed/base/linux/netStream.cpp
index a8f9cb4..27605c3 100644
--- a/src/lightspeed/base/linux/netStream.cpp
+++ b/src/lightspeed/base/linux/netStream.cpp
@@ -47,7 +47,10 @@ natural LinuxNetStream::read( void *buffer, natural size )
 	if (!wait(INetworkResource::waitForInput))
 		throw NetworkTimeoutException(THISLOCATION,getTimeout(),
 					NetworkTimeoutException::reading);
-	int res = recv(sock,reinterpret_cast<char *>(buffer),(int)size,0);
+	int res;
+	do {
+		res = recv(sock,reinterpret_cast<char *>(buffer),(int)size,0);
+	} while (res == -1 && errno == EINTR);
 	if (res == -1)
 		throw NetworkIOError(THISLOCATION,errno,"recv failed");
 	if (res == 0) foundEof = true;;
@@ -64,7 +67,10 @@ natural LinuxNetStream::write( const void *buffer, natural size )
 	if (!wait(INetworkResource::waitForOutput))
 		throw NetworkTimeoutException(THISLOCATION,getTimeout(),
 			NetworkTimeoutException::writing);
-	int res = send(sock,reinterpret_cast<const char *>(buffer),(int)size,MSG_NOSIGNAL);
+	int res;
+	do {
+		res = send(sock,reinterpret_cast<const char *>(buffer),(int)size,MSG_NOSIGNAL);
+	} while (res == -1 && errno == EINTR);
 	if (res == -1)
 		throw NetworkIOError(THISLOCATION,errno,"send failed");
 	return (natural)res;
@@ -78,7 +84,10 @@ natural LinuxNetStream::peek( void *buffer, natural size ) const
 	if (!wait(INetworkResource::waitForInput))
 		throw NetworkTimeoutException(THISLOCATION,getTimeout(),
 		NetworkTimeoutException::reading);
-	int res = recv(sock,reinterpret_cast<char *>(buffer),(int)size,MSG_PEEK);
+	int res;
+	do {
+		res = recv(sock,reinterpret_cast<char *>(buffer),(int)size,MSG_PEEK);
+	} while (res == -1 && errno == EINTR);
 	if (res == -1)
 		throw NetworkIOError(THISLOCATION,errno,"recv failed");
 	if (res == 0) foundEof = true;
-- 
2.43.0


From 9ced098619121296ee054b88b6e5684d01f292ff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:47:50 +0000
Subject: [PATCH 290/331] fix: reading of zero bytes from a network stream was
 taken as the end of the stream

---
 src/lightspeed/base/linux/netStream.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/lightspeed/base/linux/netStream.cpp b/src/lightspeed/base/linux/netStream.cpp
index 27605c3..ef98f42 100644
--- a/src/lightspeed/base/linux/netStream.cpp
+++ b/src/lightspeed/base/linux/netStream.cpp
@@ -43,7 +43,7 @@ LinuxNetStream::~LinuxNetStream() {
 
 natural LinuxNetStream::read( void *buffer, natural size )
 {
-	if (foundEof) return 0;
+	if (foundEof || size == 0) return 0;
 	if (!wait(INetworkResource::waitForInput))
 		throw NetworkTimeoutException(THISLOCATION,getTimeout(),
 					NetworkTimeoutException::reading);
@@ -79,7 +79,7 @@ natural LinuxNetStream::write( const void *buffer, natural size )
 
 natural LinuxNetStream::peek( void *buffer, natural size ) const
 {
-	if (foundEof) return 0;
+	if (foundEof || size == 0) return 0;
 
 	if (!wait(INetworkResource::waitForInput))
 		throw NetworkTimeoutException(THISLOCATION,getTimeout(),
-- 
2.43.0


From a764dfa76b32f407535a7ad099024a222f31f52a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:47:50 +0000
Subject: [PATCH 291/331] fix: default waiting of network resources did not
 wait for any event

---
 src/lightspeed/base/streams/netio_ifc.h | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/lightspeed/base/streams/netio_ifc.h b/src/lightspeed/base/streams/netio_ifc.h
index 3b3c2df..4732b10 100644
--- a/src/lightspeed/base/streams/netio_ifc.h
+++ b/src/lightspeed/base/streams/netio_ifc.h
@@ -831,6 +831,7 @@ namespace LightSpeed {
 			return defTimeout;
 		}
 		virtual natural wait(natural waitFor, natural timeout) const {
+			if (waitFor == INetworkResource::waitDefault) waitFor = this->getDefaultWait();
 			if (waitHandler == nil) return this->doWait(waitFor,timeout);
 			else return waitHandler->wait(this,waitFor,timeout);
 		}
-- 
2.43.0


From f6e2b5e29b65473c4e728b2e8f3991227d005956 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:49:22 +0000
Subject: [PATCH 292/331] fix: network stream reported data at its end after
 dataReady

---
 src/lightspeed/base/linux/netStream.cpp | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/lightspeed/base/linux/netStream.cpp b/src/lightspeed/base/linux/netStream.cpp
index ef98f42..754b376 100644
--- a/src/lightspeed/base/linux/netStream.cpp
+++ b/src/lightspeed/base/linux/netStream.cpp
@@ -133,8 +133,9 @@ natural LinuxNetStream::dataReady() const {
 	if (countReady > 0) return countReady;
 	if (wait(waitForInput,0) & waitForInput) {
 		ioctl(sock,FIONREAD,&r);
-		countReady = (natural)(r == 0?1:r);
-		return countReady;
+		countReady = (natural)r;
+		//end of the stream can be also read without waiting, but there are no data
+		return r == 0?1:countReady;
 	} else {
 		return 0;
 	}
-- 
2.43.0


From f2b408beda5cd19c693c8638200a9eea67f232d1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:56:26 +0000
Subject: [PATCH 293/331] fix: an address which fails at once prevented
 connecting to the other addresses

---
 src/lightspeed/base/linux/netStreamSource.cpp | 22 +++++++++----------
 1 file changed, 11 insertions(+), 11 deletions(-)

diff --git a/src/lightspeed/base/linux/netStreamSource.cpp b/src/lightspeed/base/linux/netStreamSource.cpp
index b35333e..879d4f8 100644
--- a/src/lightspeed/base/linux/netStreamSource.cpp
+++ b/src/lightspeed/base/linux/netStreamSource.cpp
@@ -227,14 +227,15 @@ void LinuxNetConnect::setupSocket() const {
 	if (a == 0) throw NetworkInvalidAddressException(THISLOCATION,remoteAddr);
 
 	struct addrinfo *aif = a->getAddrInfo();
-	while (aif && asyncSocket.length() < maxWatchSockets) {
+	int lastError = 0;
+	const char *lastErrorDesc = "connect failed";
+	for (;aif && asyncSocket.length() < maxWatchSockets; aif = aif->ai_next) {
 
 		int s = socket(aif->ai_family,SOCK_STREAM | SOCK_CLOEXEC, aif->ai_protocol);
 		if (s == -1) {
-			if (asyncSocket.empty())
-				throw NetworkIOError(THISLOCATION,errno,"socket creation failed");
-			else
-				break;
+			lastError = errno;
+			lastErrorDesc = "socket creation failed";
+			continue;
 		}
 
 		u_long nonblk =1;
@@ -245,18 +246,17 @@ void LinuxNetConnect::setupSocket() const {
 			int errnr = errno;
 			if (errnr != EWOULDBLOCK && errnr != EINPROGRESS) {
 				close(s);
-				if (asyncSocket.empty())
-					throw NetworkIOError(THISLOCATION,errno,"connect failed");
-				else
-					break;
+				lastError = errnr;
+				lastErrorDesc = "connect failed";
+				continue;
 			}
 
 		}
 
 		asyncSocket.add(s);
-		aif= aif->ai_next;
 	}
-
+	if (asyncSocket.empty())
+		throw NetworkIOError(THISLOCATION,lastError,lastErrorDesc);
 
 }
 
-- 
2.43.0


From 903e899fa22e0350cee7dac01bb958312b434f9c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:56:26 +0000
Subject: [PATCH 294/331] fix: a failed connection was reported as connected
 when it was waited for again

---
 src/lightspeed/base/linux/netStreamSource.cpp | 16 +++++++++++++---
 1 file changed, 13 insertions(+), 3 deletions(-)

diff --git a/src/lightspeed/base/linux/netStreamSource.cpp b/src/lightspeed/base/linux/netStreamSource.cpp
index 879d4f8..a62fe2e 100644
--- a/src/lightspeed/base/linux/netStreamSource.cpp
+++ b/src/lightspeed/base/linux/netStreamSource.cpp
@@ -196,9 +196,19 @@ natural LinuxNetConnect::doWait(natural , natural timeout) const {
 		const LinuxFdSelect::FdInfo &s = fdselect.getNext();
 		if (s.waitMask == 0) return 0;
 
-		if (probeSocket(s.fd))
-			readySocket = s.fd;
-		fdselect.unset(s.fd);
+		int fd = s.fd;
+		fdselect.unset(fd);
+		if (probeSocket(fd)) {
+			readySocket = fd;
+		} else {
+			for (natural i = 0; i < asyncSocket.length(); i++) {
+				if (asyncSocket[i] == fd) {
+					asyncSocket.erase(i);
+					break;
+				}
+			}
+			close(fd);
+		}
 	} while (readySocket == 0 && fdselect.hasItems());
 
 	return readySocket?waitForOutput:waitTimeout;
-- 
2.43.0


From d0af744e9c18b5732bad9101150c4c462c14d05c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:56:26 +0000
Subject: [PATCH 295/331] fix: waiting for a connection did not report the
 timeout, an aborted connection was reported as an error of accept

---
 src/lightspeed/base/linux/netStreamSource.cpp | 12 +++++++++---
 1 file changed, 9 insertions(+), 3 deletions(-)

diff --git a/src/lightspeed/base/linux/netStreamSource.cpp b/src/lightspeed/base/linux/netStreamSource.cpp
index a62fe2e..7acc017 100644
--- a/src/lightspeed/base/linux/netStreamSource.cpp
+++ b/src/lightspeed/base/linux/netStreamSource.cpp
@@ -77,11 +77,17 @@ PNetworkStream LinuxNetAccept::getNext()
 {
 	if (count == 0)
 		throwIteratorNoMoreItems(THISLOCATION,typeid(PNetworkStream));
-	wait();
 	char buff[256];
 	struct sockaddr *saddr = (struct sockaddr *) (buff);
-	socklen_t socklen = sizeof(buff);
-	int s = accept4(acceptSock, saddr, &socklen,SOCK_CLOEXEC);
+	socklen_t socklen;
+	int s;
+
+	do {
+		if (!wait())
+			throw NetworkTimeoutException(THISLOCATION,getTimeout(),NetworkTimeoutException::listening);
+		socklen = sizeof(buff);
+		s = accept4(acceptSock, saddr, &socklen,SOCK_CLOEXEC);
+	} while (s == -1 && (errno == EINTR || errno == EAGAIN || errno == ECONNABORTED));
 	if (s == -1)
 		throw NetworkIOError(THISLOCATION, errno, "accept has failed");
 
-- 
2.43.0


From 300a169ef196b9c2a6a6818f719dfc4a4129cb96 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:56:26 +0000
Subject: [PATCH 296/331] fix: writing to an accepted connection blocked
 regardless of its timeout

---
 src/lightspeed/base/linux/netStreamSource.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/lightspeed/base/linux/netStreamSource.cpp b/src/lightspeed/base/linux/netStreamSource.cpp
index 7acc017..ca9b919 100644
--- a/src/lightspeed/base/linux/netStreamSource.cpp
+++ b/src/lightspeed/base/linux/netStreamSource.cpp
@@ -86,7 +86,7 @@ PNetworkStream LinuxNetAccept::getNext()
 		if (!wait())
 			throw NetworkTimeoutException(THISLOCATION,getTimeout(),NetworkTimeoutException::listening);
 		socklen = sizeof(buff);
-		s = accept4(acceptSock, saddr, &socklen,SOCK_CLOEXEC);
+		s = accept4(acceptSock, saddr, &socklen,SOCK_CLOEXEC|SOCK_NONBLOCK);
 	} while (s == -1 && (errno == EINTR || errno == EAGAIN || errno == ECONNABORTED));
 	if (s == -1)
 		throw NetworkIOError(THISLOCATION, errno, "accept has failed");
-- 
2.43.0


From cc9831dd27e5d09257943e3c315ce3d77d6fe451 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:56:26 +0000
Subject: [PATCH 297/331] fix: a socket leaked when its port could not be
 opened

---
 src/lightspeed/base/linux/netStreamSource.cpp | 15 +++++++++++----
 1 file changed, 11 insertions(+), 4 deletions(-)

diff --git a/src/lightspeed/base/linux/netStreamSource.cpp b/src/lightspeed/base/linux/netStreamSource.cpp
index ca9b919..2cc6510 100644
--- a/src/lightspeed/base/linux/netStreamSource.cpp
+++ b/src/lightspeed/base/linux/netStreamSource.cpp
@@ -44,11 +44,18 @@ static int createListenSocket(PNetworkAddress addr) {
 	ioctl(s,FIONBIO,&nonblk);
 
 	int e = bind(s,ainfo->ai_addr,ainfo->ai_addrlen);
-	if (e != 0)
-		throw NetworkPortOpenException(THISLOCATION,errno,getPortNumber(ainfo));
+	if (e != 0) {
+		int err = errno;
+		close(s);
+		throw NetworkPortOpenException(THISLOCATION,err,getPortNumber(ainfo));
+	}
+
 	e = listen(s,SOMAXCONN);
-	if (e != 0)
-		throw NetworkIOError(THISLOCATION,errno,"Listen on socket failed");
+	if (e != 0) {
+		int err = errno;
+		close(s);
+		throw NetworkIOError(THISLOCATION,err,"Listen on socket failed");
+	}
 
 	return s;
 }
-- 
2.43.0


From 77d21ca9bb56fccef093c20cbdb0ae54342a576b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:57:57 +0000
Subject: [PATCH 298/331] fix: the timeout of a datagram source was not used

---
 src/lightspeed/base/linux/netDgramSource.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/lightspeed/base/linux/netDgramSource.cpp b/src/lightspeed/base/linux/netDgramSource.cpp
index def8f3f..6155714 100644
--- a/src/lightspeed/base/linux/netDgramSource.cpp
+++ b/src/lightspeed/base/linux/netDgramSource.cpp
@@ -27,8 +27,9 @@ ConstStringT<byte> LinuxNetDatagram::peekOutputBuffer() const {
 }
 
 LinuxNetDgamSource::LinuxNetDgamSource(natural port, natural timeout, natural startDID)
-	:LinuxSocketResource<INetworkDatagramSource>(createDatagramSocket(port),timeout),dgrId(startDID)
+	:LinuxSocketResource<INetworkDatagramSource>(createDatagramSocket(port),waitForInput),dgrId(startDID)
 {
+	setTimeout(timeout);
 
 }
 
-- 
2.43.0


From 76585f618b35b2ba46aae224ccb13be58cbf4000 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:57:57 +0000
Subject: [PATCH 299/331] fix: waiting for a datagram did not report the
 timeout

---
 src/lightspeed/base/linux/netDgramSource.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/lightspeed/base/linux/netDgramSource.cpp b/src/lightspeed/base/linux/netDgramSource.cpp
index 6155714..d8fb4e8 100644
--- a/src/lightspeed/base/linux/netDgramSource.cpp
+++ b/src/lightspeed/base/linux/netDgramSource.cpp
@@ -35,7 +35,8 @@ LinuxNetDgamSource::LinuxNetDgamSource(natural port, natural timeout, natural st
 
 PNetworkDatagram LinuxNetDgamSource::receive() {
 
-	wait();
+	if (!wait())
+		throw NetworkTimeoutException(THISLOCATION,getTimeout(),NetworkTimeoutException::reading);
 
 	RefCntPtr<LinuxNetDatagram> dgr = new(dgmpool) LinuxNetDatagram(this);
 
-- 
2.43.0


From 5c9cd3bd8fb6be0c17801482ef8427535adc08a8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:57:57 +0000
Subject: [PATCH 300/331] fix: receiving a datagram failed when a signal
 interrupted it

---
 src/lightspeed/base/linux/netDgramSource.cpp | 14 ++++++++------
 1 file changed, 8 insertions(+), 6 deletions(-)

diff --git a/src/lightspeed/base/linux/netDgramSource.cpp b/src/lightspeed/base/linux/netDgramSource.cpp
index d8fb4e8..7541441 100644
--- a/src/lightspeed/base/linux/netDgramSource.cpp
+++ b/src/lightspeed/base/linux/netDgramSource.cpp
@@ -43,12 +43,14 @@ PNetworkDatagram LinuxNetDgamSource::receive() {
 	struct sockaddr *saddr = reinterpret_cast<struct sockaddr *>(dgr->addrbuff);
 	socklen_t len = sizeof(dgr->addrbuff);
 
-	u_long res = 0;
-	ioctl(sock,FIONREAD,&res);
-	dgr->inputData.setSize(res);
-	void *buff = dgr->inputData.getBuffer().data();
-
-	int r = ::recvfrom(sock,buff,res,0,saddr,&len);
+	int r;
+	do {
+		int res = 0;
+		ioctl(sock,FIONREAD,&res);
+		dgr->inputData.setSize(res);
+		void *buff = dgr->inputData.getBuffer().data();
+		r = ::recvfrom(sock,buff,res,0,saddr,&len);
+	} while (r == -1 && errno == EINTR);
 	if (r == -1) {
 		int err = errno; throw NetworkIOError(THISLOCATION,err,"recvfrom failed");
 	}
-- 
2.43.0


From 674c2739f02b6c48d2706daaa6ffbcb296f193d1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:57:57 +0000
Subject: [PATCH 301/331] fix: a wake up request between events accessed a
 descriptor out of range

---
 src/lightspeed/base/linux/linuxFdSelect.cpp | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/src/lightspeed/base/linux/linuxFdSelect.cpp b/src/lightspeed/base/linux/linuxFdSelect.cpp
index d80bdf9..3096d73 100644
--- a/src/lightspeed/base/linux/linuxFdSelect.cpp
+++ b/src/lightspeed/base/linux/linuxFdSelect.cpp
@@ -113,9 +113,12 @@ bool LinuxFdSelect::hasItems() const {
 const LinuxFdSelect::FdInfo& LinuxFdSelect::getNext() {
 	const FdInfo& r = peek();
 	//FIXED: item is no longer signaled - this prevents some problems while curPos is unexpectly reset to zero.
-	fdList(curPos).revents = 0;
-	curPos++;
-	if (r.fd == cancelIn && r.waitMask != 0) {
+	if (r.fd != cancelIn || r.waitMask == 0) {
+		fdList(curPos).revents = 0;
+		curPos++;
+	} else {
+		const natural *pos = fdIndex.find(cancelIn);
+		if (pos) fdList(*pos).revents = 0;
 		writeRelease(&pendingWakeup,-1);
 		byte x;
 		int err = read(cancelIn,&x,1);
-- 
2.43.0


From 6a8fde057b149667cfcd6e883b51481c73510f29 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:57:57 +0000
Subject: [PATCH 302/331] fix: disabled wake up of a descriptor set closed its
 descriptors twice

---
 src/lightspeed/base/linux/linuxFdSelect.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/lightspeed/base/linux/linuxFdSelect.cpp b/src/lightspeed/base/linux/linuxFdSelect.cpp
index 3096d73..6fb5648 100644
--- a/src/lightspeed/base/linux/linuxFdSelect.cpp
+++ b/src/lightspeed/base/linux/linuxFdSelect.cpp
@@ -225,6 +225,7 @@ void LinuxFdSelect::enableWakeUp(bool enable) {
 			unset(cancelIn);
 			close(cancelIn);
 			close(cancelOut);
+			cancelIn = cancelOut = -1;
 		}
 	}
 }
-- 
2.43.0


From d35872ca949cb01d65a536cc9263ef7bfb6b02e1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:57:57 +0000
Subject: [PATCH 303/331] fix: waiting object did not return the reason of a
 wake up

---
 src/lightspeed/base/linux/linuxNetWaitingObj.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/lightspeed/base/linux/linuxNetWaitingObj.cpp b/src/lightspeed/base/linux/linuxNetWaitingObj.cpp
index 7a35183..7bfc4b4 100644
--- a/src/lightspeed/base/linux/linuxNetWaitingObj.cpp
+++ b/src/lightspeed/base/linux/linuxNetWaitingObj.cpp
@@ -53,7 +53,7 @@ const LinuxNetWaitingObj::EventInfo& LinuxNetWaitingObj::peek() const {
 			natural reason;
 			if (fdSelect.isWakeUpRequest(res,reason)) {
 				retValue.rsrc = 0;
-				retValue.event = res.waitMask;
+				retValue.event = reason;
 				break;
 			} else if (res.data != 0) {
 				retValue.event = res.waitMask;
-- 
2.43.0


From 33c7cbc8b83ffb4b97050563b2fea53b85a5862f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:57:57 +0000
Subject: [PATCH 304/331] fix: a resource whose event was taken stayed in the
 waiting object, which could not sleep any more

---
 src/lightspeed/base/linux/linuxFdSelect.cpp      | 2 +-
 src/lightspeed/base/linux/linuxNetWaitingObj.cpp | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/lightspeed/base/linux/linuxFdSelect.cpp b/src/lightspeed/base/linux/linuxFdSelect.cpp
index 6fb5648..f7a9b70 100644
--- a/src/lightspeed/base/linux/linuxFdSelect.cpp
+++ b/src/lightspeed/base/linux/linuxFdSelect.cpp
@@ -107,7 +107,7 @@ void LinuxFdSelect::set(const FdInfo& fdinfo) {
 }
 
 bool LinuxFdSelect::hasItems() const {
-	return !fdList.empty();
+	return fdList.length() > (cancelIn == -1?0:1);
 }
 
 const LinuxFdSelect::FdInfo& LinuxFdSelect::getNext() {
diff --git a/src/lightspeed/base/linux/linuxNetWaitingObj.cpp b/src/lightspeed/base/linux/linuxNetWaitingObj.cpp
index 7bfc4b4..ca63a6f 100644
--- a/src/lightspeed/base/linux/linuxNetWaitingObj.cpp
+++ b/src/lightspeed/base/linux/linuxNetWaitingObj.cpp
@@ -58,7 +58,7 @@ const LinuxNetWaitingObj::EventInfo& LinuxNetWaitingObj::peek() const {
 			} else if (res.data != 0) {
 				retValue.event = res.waitMask;
 				retValue.rsrc = reinterpret_cast<INetworkResource *>(res.data);
-				fdSelect.set(res.fd,0,0,nil);
+				const_cast<LinuxNetWaitingObj *>(this)->remove(retValue.rsrc);
 				break;
 			}
 		} while (true);
-- 
2.43.0


From f7ea58ed52270a3159b21a9f08a75f49205cdc38 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:57:57 +0000
Subject: [PATCH 305/331] fix: looking at the next event of a waiting object
 removed it or returned nothing

---
 .../base/linux/linuxNetWaitingObj.cpp         | 37 +++++++++----------
 .../base/linux/linuxNetWaitingObj.h           |  3 +-
 2 files changed, 19 insertions(+), 21 deletions(-)

diff --git a/src/lightspeed/base/linux/linuxNetWaitingObj.cpp b/src/lightspeed/base/linux/linuxNetWaitingObj.cpp
index ca63a6f..bc3bb1d 100644
--- a/src/lightspeed/base/linux/linuxNetWaitingObj.cpp
+++ b/src/lightspeed/base/linux/linuxNetWaitingObj.cpp
@@ -11,7 +11,7 @@
 
 namespace LightSpeed {
 
-LinuxNetWaitingObj::LinuxNetWaitingObj():loadNext(false) {
+LinuxNetWaitingObj::LinuxNetWaitingObj() {
 	fdSelect.enableWakeUp(true);
 }
 
@@ -42,28 +42,25 @@ void LinuxNetWaitingObj::remove(INetworkResource* rsrc) {
 }
 
 const LinuxNetWaitingObj::EventInfo& LinuxNetWaitingObj::getNext() {
-	loadNext = true;
-	return peek();
+	const LinuxFdSelect::FdInfo &res = fdSelect.getNext();
+	loadEvent(res);
+	if (retValue.rsrc != 0) remove(retValue.rsrc);
+	return retValue;
 }
 
-const LinuxNetWaitingObj::EventInfo& LinuxNetWaitingObj::peek() const {
-	if (loadNext) {
-		do {
-			const LinuxFdSelect::FdInfo &res = fdSelect.getNext();
-			natural reason;
-			if (fdSelect.isWakeUpRequest(res,reason)) {
-				retValue.rsrc = 0;
-				retValue.event = reason;
-				break;
-			} else if (res.data != 0) {
-				retValue.event = res.waitMask;
-				retValue.rsrc = reinterpret_cast<INetworkResource *>(res.data);
-				const_cast<LinuxNetWaitingObj *>(this)->remove(retValue.rsrc);
-				break;
-			}
-		} while (true);
-
+void LinuxNetWaitingObj::loadEvent(const LinuxFdSelect::FdInfo &res) const {
+	natural reason;
+	if (fdSelect.isWakeUpRequest(res,reason)) {
+		retValue.rsrc = 0;
+		retValue.event = reason;
+	} else {
+		retValue.rsrc = reinterpret_cast<INetworkResource *>(res.data);
+		retValue.event = res.waitMask;
 	}
+}
+
+const LinuxNetWaitingObj::EventInfo& LinuxNetWaitingObj::peek() const {
+	loadEvent(fdSelect.peek());
 	return retValue;
 }
 
diff --git a/src/lightspeed/base/linux/linuxNetWaitingObj.h b/src/lightspeed/base/linux/linuxNetWaitingObj.h
index 6f2230c..fd8b023 100644
--- a/src/lightspeed/base/linux/linuxNetWaitingObj.h
+++ b/src/lightspeed/base/linux/linuxNetWaitingObj.h
@@ -32,7 +32,8 @@ protected:
 
 	mutable EventInfo retValue;
 	mutable LinuxFdSelect fdSelect;
-	mutable bool loadNext;
+
+	void loadEvent(const LinuxFdSelect::FdInfo &res) const;
 };
 
 } /* namespace LightSpeed */
-- 
2.43.0


From 2f0114a3fb90dd3da828ff39048604827c6d9b97 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:57:57 +0000
Subject: [PATCH 306/331] fix: addresses of different lengths were ordered
 inconsistently

---
 src/lightspeed/base/linux/netAddress.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/lightspeed/base/linux/netAddress.cpp b/src/lightspeed/base/linux/netAddress.cpp
index 8563eda..a67a45c 100644
--- a/src/lightspeed/base/linux/netAddress.cpp
+++ b/src/lightspeed/base/linux/netAddress.cpp
@@ -78,7 +78,7 @@ bool LinuxNetAddress::lessThan(const INetworkAddress& other) const {
 		if (addrinfo->ai_family != x->addrinfo->ai_family)
 				return addrinfo->ai_family < x->addrinfo->ai_family;
 		if (addrinfo->ai_addrlen != x->addrinfo->ai_addrlen)
-			return addrinfo->ai_addrlen != x->addrinfo->ai_addrlen;
+			return addrinfo->ai_addrlen < x->addrinfo->ai_addrlen;
 		if (addrinfo->ai_family == AF_INET) {
 			struct sockaddr_in *sin = reinterpret_cast<struct sockaddr_in *>(addrinfo->ai_addr);
 			struct sockaddr_in *osin = reinterpret_cast<struct sockaddr_in *>(x->addrinfo->ai_addr);
-- 
2.43.0


From 06b03ba200bd2228da960e086281043b1f8141bf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:57:57 +0000
Subject: [PATCH 307/331] fix: comparing a network address with an empty or
 foreign one crashed

---
 src/lightspeed/base/linux/netAddress.cpp | 1 +
 src/lightspeed/base/streams/netio.cpp    | 2 +-
 2 files changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/lightspeed/base/linux/netAddress.cpp b/src/lightspeed/base/linux/netAddress.cpp
index a67a45c..450feba 100644
--- a/src/lightspeed/base/linux/netAddress.cpp
+++ b/src/lightspeed/base/linux/netAddress.cpp
@@ -47,6 +47,7 @@ StringA LinuxNetAddress::asString(bool resolve) {
 bool LinuxNetAddress::equalTo(const INetworkAddress &other) const {
 	const LinuxNetAddress *o = dynamic_cast<const LinuxNetAddress *>(&other);
 
+	if (o == 0) return false;
 	if (o->addrinfo == 0 && addrinfo == 0) return true;
 	if (o->addrinfo == 0 || addrinfo == 0) return false;
 	if (o->addrinfo == addrinfo) return true;
diff --git a/src/lightspeed/base/streams/netio.cpp b/src/lightspeed/base/streams/netio.cpp
index 0f52036..f56e7a1 100644
--- a/src/lightspeed/base/streams/netio.cpp
+++ b/src/lightspeed/base/streams/netio.cpp
@@ -41,7 +41,7 @@ namespace LightSpeed {
 
 	bool NetworkAddress::equalTo(const NetworkAddress &other) const
 	{
-		if (other.addr == nil) return addr == nil;
+		if (other.addr == nil || addr == nil) return addr == other.addr;
 		return other.addr->equalTo(*addr);
 	}
 
-- 
2.43.0


From 94932b4c3aeb68e3f359bf354ff81fbd4096dd91 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:05:13 +0000
Subject: [PATCH 308/331] fix: pollSelect.h had the include guard of
 epollSelect.h

---
 src/lightspeed/base/linux/pollSelect.h | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/lightspeed/base/linux/pollSelect.h b/src/lightspeed/base/linux/pollSelect.h
index c21a512..186f0b7 100644
--- a/src/lightspeed/base/linux/pollSelect.h
+++ b/src/lightspeed/base/linux/pollSelect.h
@@ -5,8 +5,8 @@
  *      Author: ondra
  */
 
-#ifndef LIGHTSPEED_BASE_LINUX_EPOLLSELECT_H_
-#define LIGHTSPEED_BASE_LINUX_EPOLLSELECT_H_
+#ifndef LIGHTSPEED_BASE_LINUX_POLLSELECT_H_
+#define LIGHTSPEED_BASE_LINUX_POLLSELECT_H_
 #include <poll.h>
 
 #include "../streams/netSocketPoll.h"
@@ -129,4 +129,4 @@ private:
 
 } /* namespace LightSpeed */
 
-#endif /* LIGHTSPEED_BASE_LINUX_EPOLLSELECT_H_ */
+#endif /* LIGHTSPEED_BASE_LINUX_POLLSELECT_H_ */
-- 
2.43.0


From 79013c443b8f648bbb696e3a250a58bc8b273148 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:05:13 +0000
Subject: [PATCH 309/331] fix: removing a timeout of a descriptor left a stale
 reference, timeout of another descriptor was lost

---
 src/lightspeed/base/linux/epollSelect.cpp | 8 +++++---
 src/lightspeed/base/linux/pollSelect.cpp  | 8 +++++---
 2 files changed, 10 insertions(+), 6 deletions(-)

diff --git a/src/lightspeed/base/linux/epollSelect.cpp b/src/lightspeed/base/linux/epollSelect.cpp
index 3feb7c4..e5713fb 100644
--- a/src/lightspeed/base/linux/epollSelect.cpp
+++ b/src/lightspeed/base/linux/epollSelect.cpp
@@ -208,10 +208,12 @@ void* EPollSelect::getUserData(int fd) const {
 void EPollSelect::removeOldTm(FdInfo* owner) {
 	if (owner->tmRef) {
 		natural pos = owner->tmRef - timeoutMap.data();
+		if (pos < timeoutMap.length()) {
+			timeoutHeap.pop(pos);
+			timeoutMap.trunc(1);
+		}
+		//must be last, moving items in the heap sets it again
 		owner->tmRef = 0;
-		if (pos >= timeoutMap.length()) return;
-		timeoutHeap.pop(pos);
-		timeoutMap.trunc(1);
 	}
 }
 
diff --git a/src/lightspeed/base/linux/pollSelect.cpp b/src/lightspeed/base/linux/pollSelect.cpp
index 6a11e48..be3b78d 100644
--- a/src/lightspeed/base/linux/pollSelect.cpp
+++ b/src/lightspeed/base/linux/pollSelect.cpp
@@ -227,10 +227,12 @@ void* PollSelect::getUserData(int fd) const {
 void PollSelect::removeOldTm(FdInfo* owner) {
 	if (owner->tmRef) {
 		natural pos = owner->tmRef - timeoutMap.data();
+		if (pos < timeoutMap.length()) {
+			timeoutHeap.pop(pos);
+			timeoutMap.trunc(1);
+		}
+		//must be last, moving items in the heap sets it again
 		owner->tmRef = 0;
-		if (pos >= timeoutMap.length()) return;
-		timeoutHeap.pop(pos);
-		timeoutMap.trunc(1);
 	}
 }
 
-- 
2.43.0


From 4a94b16a72083e000ceb5c22efa387342a9096ba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:06:20 +0000
Subject: [PATCH 310/331] fix: waiting for descriptors took the end of the wait
 for a timeout of a descriptor, even without any (crash)

---
 src/lightspeed/base/linux/epollSelect.cpp | 18 ++++++++----------
 src/lightspeed/base/linux/pollSelect.cpp  | 19 ++++++++-----------
 2 files changed, 16 insertions(+), 21 deletions(-)

diff --git a/src/lightspeed/base/linux/epollSelect.cpp b/src/lightspeed/base/linux/epollSelect.cpp
index e5713fb..4af45ea 100644
--- a/src/lightspeed/base/linux/epollSelect.cpp
+++ b/src/lightspeed/base/linux/epollSelect.cpp
@@ -108,6 +108,11 @@ int EPollSelect::getFd(const FdInfo* finfo) {
 	return (int)(finfo - socketMap.data());
 }
 
+//timeout is reached at its time, not after it as Timeout::expired tests
+static bool isReached(const Timeout &tm, const SysTime &now) {
+	return !tm.isInfinite() && tm.getRemain(now).msecs() == 0;
+}
+
 EPollSelect::WaitStatus EPollSelect::wait(const Timeout& tm, Result& result) {
 
 	do {
@@ -115,7 +120,7 @@ EPollSelect::WaitStatus EPollSelect::wait(const Timeout& tm, Result& result) {
 		if (!timeoutHeap.empty()) {
 			Timeout p = timeoutHeap.top().owner->timeout;
 			SysTime now = SysTime::now();
-			while (p.expired(now)) {
+			while (isReached(p,now)) {
 				FdInfo *owner = timeoutHeap.top().owner;
 				removeOldTm(owner);
 				if (owner->waitFor != 0) {
@@ -138,16 +143,9 @@ EPollSelect::WaitStatus EPollSelect::wait(const Timeout& tm, Result& result) {
 			if (errno != EINTR) throw ErrNoException(THISLOCATION,errno);
 		}
 		else if (res == 0) {
-			if (tm.expired()) {
+			//timeout of a descriptor is reported at the beginning of the next turn
+			if (!(finTm < tm) && isReached(tm,SysTime::now())) {
 				return waitTimeout;
-			} else {
-				FdInfo *finfo = timeoutHeap.top().owner;
-				removeOldTm(finfo);
-				result.fd = getFd(finfo);
-				result.flags = 0;
-				result.userData = finfo->userData;
-				finfo->waitFor = 0;
-				return waitEvent;
 			}
 		} else {
 			if (ev.data.fd == wakeOut) {
diff --git a/src/lightspeed/base/linux/pollSelect.cpp b/src/lightspeed/base/linux/pollSelect.cpp
index be3b78d..d00854c 100644
--- a/src/lightspeed/base/linux/pollSelect.cpp
+++ b/src/lightspeed/base/linux/pollSelect.cpp
@@ -119,6 +119,11 @@ void PollSelect::removeFromPool(natural poolindex) {
 	curpool.trunc(1);
 }
 
+//timeout is reached at its time, not after it as Timeout::expired tests
+static bool isReached(const Timeout &tm, const SysTime &now) {
+	return !tm.isInfinite() && tm.getRemain(now).msecs() == 0;
+}
+
 PollSelect::WaitStatus PollSelect::wait(const Timeout& tm, Result& result) {
 
 	do {
@@ -126,7 +131,7 @@ PollSelect::WaitStatus PollSelect::wait(const Timeout& tm, Result& result) {
 		if (!timeoutHeap.empty()) {
 			Timeout p = timeoutHeap.top().owner->timeout;
 			SysTime now = SysTime::now();
-			while (p.expired(now)) {
+			while (isReached(p,now)) {
 				FdInfo *owner = timeoutHeap.top().owner;
 				removeOldTm(owner);
 				if (owner->waitFor != 0) {
@@ -149,17 +154,9 @@ PollSelect::WaitStatus PollSelect::wait(const Timeout& tm, Result& result) {
 			if (errno != EINTR) throw ErrNoException(THISLOCATION,errno);
 		}
 		else if (res == 0) {
-			if (tm.expired()) {
+			//timeout of a descriptor is reported at the beginning of the next turn
+			if (!(finTm < tm) && isReached(tm,SysTime::now())) {
 				return waitTimeout;
-			} else {
-				FdInfo *finfo = timeoutHeap.top().owner;
-				removeOldTm(finfo);
-				result.fd = getFd(finfo);
-				result.flags = 0;
-				result.userData = finfo->userData;
-				finfo->waitFor = 0;
-				removeFromPool(finfo->poolpos);
-				return waitEvent;
 			}
 		} else {
 			for (natural i = 0; i < curpool.length(); i++) {
-- 
2.43.0


From 1b940ae8f49d67a08cc7fe970923bd87653a39b2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:06:20 +0000
Subject: [PATCH 311/331] fix: hang up of a descriptor was reported as its
 timeout

---
 src/lightspeed/base/linux/epollSelect.cpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/lightspeed/base/linux/epollSelect.cpp b/src/lightspeed/base/linux/epollSelect.cpp
index 4af45ea..7782d6e 100644
--- a/src/lightspeed/base/linux/epollSelect.cpp
+++ b/src/lightspeed/base/linux/epollSelect.cpp
@@ -163,9 +163,11 @@ EPollSelect::WaitStatus EPollSelect::wait(const Timeout& tm, Result& result) {
 
 				if (finfo->waitFor) {
 					result.fd = ev.data.fd;
-					result.flags = (((ev.events & EPOLLIN)!=0)?INetworkResource::waitForInput:0) |
+					result.flags = (((ev.events & (EPOLLIN|EPOLLHUP))!=0)?INetworkResource::waitForInput:0) |
 							(((ev.events & EPOLLOUT)!=0)?INetworkResource::waitForOutput:0) |
 							(((ev.events & (EPOLLPRI|EPOLLERR))!=0)?INetworkResource::waitForException:0);
+					//an error or a hang up ends any waiting
+					if ((result.flags & finfo->waitFor) == 0) result.flags |= finfo->waitFor;
 					result.userData = finfo->userData;
 					finfo->waitFor = 0;
 					return waitEvent;
-- 
2.43.0


From c6b7ad3ddf55810ce69691593783f023c78e21c8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:09:24 +0000
Subject: [PATCH 312/331] fix: PollSelect waited with codes of signals instead
 of events of poll

---
 src/lightspeed/base/linux/pollSelect.cpp | 14 +++++++-------
 1 file changed, 7 insertions(+), 7 deletions(-)

diff --git a/src/lightspeed/base/linux/pollSelect.cpp b/src/lightspeed/base/linux/pollSelect.cpp
index d00854c..0881a9c 100644
--- a/src/lightspeed/base/linux/pollSelect.cpp
+++ b/src/lightspeed/base/linux/pollSelect.cpp
@@ -33,7 +33,7 @@ PollSelect::PollSelect():timeoutHeap(timeoutMap) {
 	wakeOut = pipe[0];
 
 	POLLFD pfd;
-	pfd.events = POLL_IN;
+	pfd.events = POLLIN;
 	pfd.fd = wakeOut;
 	pfd.revents = 0;
 	curpool.add(pfd);
@@ -83,9 +83,9 @@ void PollSelect::set(int fd, natural waitFor, const Timeout &tm, void* userData)
 
 		POLLFD ev;
 		ev.fd = fd;
-		ev.events = (((waitFor & INetworkResource::waitForInput) != 0)?POLL_IN:0) |
-					(((waitFor & INetworkResource::waitForOutput) != 0)?POLL_OUT:0) |
-					(((waitFor & INetworkResource::waitForException) != 0)?POLL_PRI:0) ;
+		ev.events = (((waitFor & INetworkResource::waitForInput) != 0)?POLLIN:0) |
+					(((waitFor & INetworkResource::waitForOutput) != 0)?POLLOUT:0) |
+					(((waitFor & INetworkResource::waitForException) != 0)?POLLPRI:0) ;
 		ev.revents = 0;
 
 
@@ -179,9 +179,9 @@ PollSelect::WaitStatus PollSelect::wait(const Timeout& tm, Result& result) {
 						removeFromPool(i);
 						if (finfo->waitFor) {
 							result.fd = fd;
-							result.flags = (((revents & POLL_IN)!=0)?INetworkResource::waitForInput:0) |
-									(((revents & POLL_OUT)!=0)?INetworkResource::waitForOutput:0) |
-									(((revents & (POLL_PRI|POLL_ERR))!=0)?INetworkResource::waitForException:0);
+							result.flags = (((revents & POLLIN)!=0)?INetworkResource::waitForInput:0) |
+									(((revents & POLLOUT)!=0)?INetworkResource::waitForOutput:0) |
+									(((revents & (POLLPRI|POLLERR))!=0)?INetworkResource::waitForException:0);
 							result.userData = finfo->userData;
 							finfo->waitFor = 0;
 							return waitEvent;
-- 
2.43.0


From 0cff1cd94998b2b5f7f0524b97d22ba4dc484c60 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:09:24 +0000
Subject: [PATCH 313/331] fix: PollSelect reported hang up of a descriptor as
 its timeout

---
 src/lightspeed/base/linux/pollSelect.cpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/lightspeed/base/linux/pollSelect.cpp b/src/lightspeed/base/linux/pollSelect.cpp
index 0881a9c..84747f8 100644
--- a/src/lightspeed/base/linux/pollSelect.cpp
+++ b/src/lightspeed/base/linux/pollSelect.cpp
@@ -179,9 +179,11 @@ PollSelect::WaitStatus PollSelect::wait(const Timeout& tm, Result& result) {
 						removeFromPool(i);
 						if (finfo->waitFor) {
 							result.fd = fd;
-							result.flags = (((revents & POLLIN)!=0)?INetworkResource::waitForInput:0) |
+							result.flags = (((revents & (POLLIN|POLLHUP))!=0)?INetworkResource::waitForInput:0) |
 									(((revents & POLLOUT)!=0)?INetworkResource::waitForOutput:0) |
 									(((revents & (POLLPRI|POLLERR))!=0)?INetworkResource::waitForException:0);
+							//an error or a hang up ends any waiting
+							if ((result.flags & finfo->waitFor) == 0) result.flags |= finfo->waitFor;
 							result.userData = finfo->userData;
 							finfo->waitFor = 0;
 							return waitEvent;
-- 
2.43.0


From acee90cfffb1f589f794cf6a59588564d4b4d0da Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:09:24 +0000
Subject: [PATCH 314/331] fix: descriptor which cannot be monitored by epoll
 was left registered, with data of the failed request

---
 src/lightspeed/base/linux/epollSelect.cpp | 21 +++++++++++----------
 1 file changed, 11 insertions(+), 10 deletions(-)

diff --git a/src/lightspeed/base/linux/epollSelect.cpp b/src/lightspeed/base/linux/epollSelect.cpp
index 7782d6e..adb0564 100644
--- a/src/lightspeed/base/linux/epollSelect.cpp
+++ b/src/lightspeed/base/linux/epollSelect.cpp
@@ -70,14 +70,6 @@ void EPollSelect::set(int fd, natural waitFor, const Timeout &tm, void* userData
 
 
 
-	FdInfo &fdinfo = socketMap(fdindex);
-	removeOldTm(&fdinfo);
-	fdinfo.timeout = tm;
-	fdinfo.waitFor = waitFor;
-	fdinfo.userData = userData;
-
-	addNewTm(&fdinfo);
-
 	struct epoll_event ev;
 	static const EPOLL_EVENTS EPOLLNONE = (EPOLL_EVENTS)0;
 	ev.data.fd = fd;
@@ -91,12 +83,21 @@ void EPollSelect::set(int fd, natural waitFor, const Timeout &tm, void* userData
 		if (err == ENOENT) {
 			if (epoll_ctl(epollfd,EPOLL_CTL_ADD,fd,&ev)) {
 				err = errno;
-				throw ErrNoException(THISLOCATION, errno);
+				throw ErrNoException(THISLOCATION, err);
 			}
 		} else {
-			throw ErrNoException(THISLOCATION, errno);
+			throw ErrNoException(THISLOCATION, err);
 		}
 	}
+
+	//register it once it is really monitored
+	FdInfo &fdinfo = socketMap(fdindex);
+	removeOldTm(&fdinfo);
+	fdinfo.timeout = tm;
+	fdinfo.waitFor = waitFor;
+	fdinfo.userData = userData;
+
+	addNewTm(&fdinfo);
 }
 
 void EPollSelect::wakeUp(natural reason) throw () {
-- 
2.43.0


From 67d822b863e16c65c1c0d3a81acc8bbcc52b8596 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:09:47 +0000
Subject: [PATCH 315/331] fix: stopping of monitoring of a closed descriptor
 threw an exception and left it registered

---
 src/lightspeed/base/linux/epollSelect.cpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/lightspeed/base/linux/epollSelect.cpp b/src/lightspeed/base/linux/epollSelect.cpp
index adb0564..c4879ac 100644
--- a/src/lightspeed/base/linux/epollSelect.cpp
+++ b/src/lightspeed/base/linux/epollSelect.cpp
@@ -80,7 +80,9 @@ void EPollSelect::set(int fd, natural waitFor, const Timeout &tm, void* userData
 
 	if (epoll_ctl(epollfd,EPOLL_CTL_MOD,fd,&ev) == -1) {
 		int err = errno;
-		if (err == ENOENT) {
+		if (waitFor == 0 && (err == ENOENT || err == EBADF)) {
+			//nothing to stop, descriptor is not monitored or it is already closed
+		} else if (err == ENOENT) {
 			if (epoll_ctl(epollfd,EPOLL_CTL_ADD,fd,&ev)) {
 				err = errno;
 				throw ErrNoException(THISLOCATION, err);
-- 
2.43.0


From 26623552b788e8eed4167467c45e54477c765c12 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:21:22 +0000
Subject: [PATCH 316/331] fix: listener of network events was spinning at the
 time of a timeout

---
 src/lightspeed/base/linux/networkEventListener.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/lightspeed/base/linux/networkEventListener.cpp b/src/lightspeed/base/linux/networkEventListener.cpp
index 9e3aabb..64e644b 100644
--- a/src/lightspeed/base/linux/networkEventListener.cpp
+++ b/src/lightspeed/base/linux/networkEventListener.cpp
@@ -171,7 +171,7 @@ void LinuxNetworkEventListener::workerProc() {
 						tocall.add(std::make_pair(l.notify,res.flags & l.waitMask));
 						listeners->listeners.erase(iter);
 //						l.notify->wakeUp(con.waitMask & l.waitMask);
-					} else if (l.waitTimeout.expired(tm)) {
+					} else if (!l.waitTimeout.isInfinite() && l.waitTimeout.getRemain(tm).msecs() == 0) {
 						tocall.add(std::make_pair(l.notify,0));
 						listeners->listeners.erase(iter);
 	//					l.notify->wakeUp(0);
-- 
2.43.0


From 3af042fdb6386f06d7cfee8ef99ad62cdfcf37e5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:55:22 +0000
Subject: [PATCH 317/331] fix: process started from a program with its own main
 function had no environment, reading of the environment crashed

---
 src/lightspeed/base/linux/main.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/lightspeed/base/linux/main.cpp b/src/lightspeed/base/linux/main.cpp
index 94fb7b4..583b776 100644
--- a/src/lightspeed/base/linux/main.cpp
+++ b/src/lightspeed/base/linux/main.cpp
@@ -21,7 +21,8 @@ namespace LightSpeed {
 	static char  const *const *  envPtr;
 
 	char const * const *  getEnv() {
-		return envPtr;
+		//the program can have its own main function
+		return envPtr?envPtr:environ;
 	}
 
 	int entryPoint(int argc, char* argv[], const char* const env[]) {
-- 
2.43.0


From ba1591fd431f079ef25c1bdcf369f1dd6045846c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:55:22 +0000
Subject: [PATCH 318/331] fix: every operation of a process created without a
 name crashed

---
 src/lightspeed/mt/linux/process.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/lightspeed/mt/linux/process.cpp b/src/lightspeed/mt/linux/process.cpp
index c64a520..8ddf6ce 100644
--- a/src/lightspeed/mt/linux/process.cpp
+++ b/src/lightspeed/mt/linux/process.cpp
@@ -72,7 +72,7 @@ namespace LightSpeed {
 	};
 
 
-	Process::Process() {}
+	Process::Process():context(new LinuxProcessContext()) {}
 	Process::Process(String processName)
 		:processName(processName),context(new LinuxProcessContext()) {}
 	Process::Process(String processName, IRuntimeAlloc &alloc)
-- 
2.43.0


From b428da7be0c062b73f0d760365337b0d5096b85e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:55:22 +0000
Subject: [PATCH 319/331] fix: empty argument was lost in the command line of a
 process

---
 src/lightspeed/mt/linux/process.cpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/lightspeed/mt/linux/process.cpp b/src/lightspeed/mt/linux/process.cpp
index 8ddf6ce..e5981af 100644
--- a/src/lightspeed/mt/linux/process.cpp
+++ b/src/lightspeed/mt/linux/process.cpp
@@ -315,7 +315,9 @@ namespace LightSpeed {
 		for (natural k = 0; k < ctx.cmdLine.length(); k++) {
 			buff.write(' ');
 			const StringA &a = ctx.cmdLine[k];
-			escapeArg(buff,a);
+			//empty argument must be quoted, otherwise it disappears
+			if (a.empty()) buff.blockWrite(ConstStrA("\"\""),true);
+			else escapeArg(buff,a);
 		}
 		return String(ConstStrA(buff.getArray()));
 	}
-- 
2.43.0


From 48cacea4c67407e2e2fad870b75b32cc6d5fe87f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:55:22 +0000
Subject: [PATCH 320/331] fix: interrupted start of a process which failed left
 a zombie

---
 src/lightspeed/mt/linux/process.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/lightspeed/mt/linux/process.cpp b/src/lightspeed/mt/linux/process.cpp
index e5981af..7a61cd6 100644
--- a/src/lightspeed/mt/linux/process.cpp
+++ b/src/lightspeed/mt/linux/process.cpp
@@ -541,7 +541,7 @@ namespace LightSpeed {
 				//if status exists
 				//wait child
 				int exitStatus;
-				waitpid(fres,&exitStatus,0);
+				while (waitpid(fres,&exitStatus,0) == -1 && errno == EINTR) {}
 				int res;
 				//read status
 				statusRead.blockRead(&res,sizeof(res),true);
-- 
2.43.0


From c9a45b2a6d50f7e7a9c29e4373988dbabd75836c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:55:22 +0000
Subject: [PATCH 321/331] fix: redirections of a process were wrong when
 standard descriptors of this process were closed, failures were not reported

---
 src/lightspeed/mt/linux/process.cpp | 48 +++++++++++++----------------
 1 file changed, 21 insertions(+), 27 deletions(-)

diff --git a/src/lightspeed/mt/linux/process.cpp b/src/lightspeed/mt/linux/process.cpp
index 7a61cd6..fa80a1a 100644
--- a/src/lightspeed/mt/linux/process.cpp
+++ b/src/lightspeed/mt/linux/process.cpp
@@ -384,6 +384,12 @@ namespace LightSpeed {
 		return h;
 	}
 
+	///writes the reason why the process has not been started, exits the child process
+	static void exitWithStartError(int hStatus, int e) {
+		while (write(hStatus,&e,sizeof(e)) == -1 && errno == EINTR) {}
+		_exit(1);
+	}
+
 	void Process::start() {
 
 		LinuxProcessContext &ctx = LinuxProcessContext::getCtx(*context);
@@ -447,6 +453,7 @@ namespace LightSpeed {
 		SeqFileInput statusRead = ipcstatus.getReadEnd();
 		//get pipe to write status if exec fails
 		SeqFileOutput writeStatus = ipcstatus.getWriteEnd();
+		int hStatus = getHandle(writeStatus.getStream().get());
 		//detach pipe object;
 		ipcstatus.detach();
 
@@ -473,22 +480,17 @@ namespace LightSpeed {
 
 		//in the child process (fres = 0)
 		if (fres == 0) {
-			int chInput = -1, chOutput = -1, chError = -1;
-			//duplicate original fds, because they are marked O_CLOEXEC
-			//first duplicate to new set to handle collisions while descriptors are in 0-2 range
-			if (hInput >= 0) chInput = dup(hInput);
-			if (hOutput >= 0) chOutput = dup(hOutput);
-			if (hError >= 0) chError = dup(hError);
-
-			//set input output and error fds
-			if (chInput >= 0) {
-				dup2(chInput,0);close(chInput);
-			}
-			if (hOutput >= 0) {
-				dup2(chOutput,1);close(chOutput);
+			int hStd[3] = {hInput, hOutput, hError};
+			//move descriptors out of the range 0-2, which is going to be overwritten
+			//(any of them can be there, when standard descriptors of this process are closed)
+			for (int i = 0; i < 3; i++) if (hStd[i] >= 0 && hStd[i] < 3) {
+				hStd[i] = fcntl(hStd[i],F_DUPFD_CLOEXEC,3);
+				if (hStd[i] == -1) exitWithStartError(hStatus,errno);
 			}
-			if (hError >= 0) {
-				dup2(chError,2);close(chError);
+
+			//set input output and error fds, duplicates are not marked O_CLOEXEC
+			for (int i = 0; i < 3; i++) if (hStd[i] >= 0) {
+				if (dup2(hStd[i],i) == -1) exitWithStartError(hStatus,errno);
 			}
 
 			//disable O_CLOEXEC on streams exported to the child process
@@ -503,13 +505,8 @@ namespace LightSpeed {
 
 			if (*cwdchr != 0) {
 				res = chdir(cwdchr);
-				if (res) {
-					int e = errno;
-					//write error code into status pipe
-					writeStatus.blockWrite(&e,sizeof(e),true);
-
-					_exit(1);
-				}
+				//write error code into status pipe
+				if (res) exitWithStartError(hStatus,errno);
 			}
 
 			//perform exec
@@ -517,11 +514,8 @@ namespace LightSpeed {
 			 * otherwise, function returns with exit code */
 			res = execve(fname.cStr(),cmdLine,envTable);
 
-			if (res) {
-				int e = errno;
-				//write error code into status pipe
-				writeStatus.blockWrite(&e,sizeof(e),true);
-			}
+			//write error code into status pipe
+			if (res) exitWithStartError(hStatus,errno);
 			//terminate this process
 			_exit(1);
 		} else {
-- 
2.43.0


From 73afd51c6ca7a134bcd790ed7de74b7c872e28e8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:55:22 +0000
Subject: [PATCH 322/331] fix: timed join didn't notice the end of the process
 unless SIGCHLD was blocked, infinite timeout was invalid

---
 src/lightspeed/mt/linux/process.cpp | 14 +++++++-------
 1 file changed, 7 insertions(+), 7 deletions(-)

diff --git a/src/lightspeed/mt/linux/process.cpp b/src/lightspeed/mt/linux/process.cpp
index fa80a1a..62429ac 100644
--- a/src/lightspeed/mt/linux/process.cpp
+++ b/src/lightspeed/mt/linux/process.cpp
@@ -833,16 +833,16 @@ namespace LightSpeed {
 		//determine status of the process
 		integer res = processWaitPid(ctx,WNOHANG);
 		integer myEN = 0;
-		//if process is not running
+		//if process is still running
 		while (res == -256) {
+			if (tm.expired()) return false;
 			//acquire GlobalSigChildWait signleton object
 			GlobalSigChildWait &sigchldwt = Singleton<GlobalSigChildWait>::getInstance();
-			//perform waiting on signal
-			if (!sigchldwt.wait(tm,myEN)) {
-				//if timeouted, exit
-				return false;
-			}
-			//global event detected, but is this our event?
+			//perform waiting on signal - the signal doesn't need to arrive (it is ignored by default and
+			//other thread can take it), state of the process must be checked repeatedly
+			Timeout step(100);
+			if (tm < step) step = tm;
+			sigchldwt.wait(step,myEN);
 			//recheck the situation
 			res = processWaitPid(ctx,WNOHANG);
 
-- 
2.43.0


From e2f617c5eaf77213b330eb551ac264fc963c83bc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:59:53 +0000
Subject: [PATCH 323/331] fix: pipe created while standard descriptors are
 closed was never closed, start of a process didn't return

---
 src/lightspeed/base/linux/fileio.cpp | 12 ++++++++++++
 1 file changed, 12 insertions(+)

diff --git a/src/lightspeed/base/linux/fileio.cpp b/src/lightspeed/base/linux/fileio.cpp
index 21f366c..a97be7c 100644
--- a/src/lightspeed/base/linux/fileio.cpp
+++ b/src/lightspeed/base/linux/fileio.cpp
@@ -544,6 +544,18 @@ namespace LightSpeed {
         if (res != 0)
             throw PipeOpenError(THISLOCATION,errno);
 
+        //standard descriptors are never closed by the streams, so the pipe must not use them
+        //(they are free when the standard descriptors are closed)
+        for (int i = 0; i < 2; i++) if (fds[i] < 3) {
+        	int h = fcntl(fds[i],F_DUPFD_CLOEXEC,3);
+        	int e = errno;
+        	close(fds[i]);
+        	if (h == -1) {
+        		close(fds[1-i]);
+        		throw PipeOpenError(THISLOCATION,e);
+        	}
+        	fds[i] = h;
+        }
 
         char desc[100];
         
-- 
2.43.0


From 5d828c30044f1f1646ad48a96378a4a8818e44b8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:19:24 +0000
Subject: [PATCH 324/331] fix: messages of exceptions carrying errno had no
 description of the error with GNU strerror_r

---
 src/lightspeed/base/linux/systemException.cpp | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/src/lightspeed/base/linux/systemException.cpp b/src/lightspeed/base/linux/systemException.cpp
index f46a59a..f80704d 100644
--- a/src/lightspeed/base/linux/systemException.cpp
+++ b/src/lightspeed/base/linux/systemException.cpp
@@ -10,11 +10,14 @@
 
 namespace LightSpeed {
 
+//there are two versions of strerror_r: one always fills the buffer, the other can return different string
+static inline const char *getErrorText(int, const char *buff) {return buff;}
+static inline const char *getErrorText(const char *text, const char *) {return text;}
+
 void ErrNoException::getSystemErrorMessage(ExceptionMsg &msg, int error_nr) {
 
     char buff[2048] = "";
-    strerror_r(error_nr,buff,sizeof(buff));
-    msg(buff);
+    msg("%1") << getErrorText(strerror_r(error_nr,buff,sizeof(buff)),buff);
 }
 
 }
-- 
2.43.0


From ef87dd04a8dd6788f54309f8a0a02a7d00801715 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:19:24 +0000
Subject: [PATCH 325/331] fix: message of RangeException with both limits
 showed the value as the upper limit

---
 src/lightspeed/base/exceptions/messages.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/lightspeed/base/exceptions/messages.cpp b/src/lightspeed/base/exceptions/messages.cpp
index e07022e..0ddb7df 100644
--- a/src/lightspeed/base/exceptions/messages.cpp
+++ b/src/lightspeed/base/exceptions/messages.cpp
@@ -61,7 +61,7 @@ namespace LightSpeed {
  const char *IRangeException::msgTextNA = "%3 is not in unspecified range";
  const char *IRangeException::msgTextFrom="%3 cannot be below %1";
  const char *IRangeException::msgTextTo="%3 cannot be above %2";
- const char *IRangeException::msgTextFromTo="%3 cannot be outside of range < %2 ; %3 >";
+ const char *IRangeException::msgTextFromTo="%3 cannot be outside of range < %1 ; %2 >";
  const char *UnknownException::msgText = "Unknown exception (not std::exception)";
  const char *ErrNoException::msgText = "Error nr: %1 - ";
  const char *UnsupportedFeature::msgText = "Instance of class '%1' doesn't support the feature '%2'";
-- 
2.43.0


From 59408a68d8bd0978b6f4d0ce78688f18add1aabe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:19:24 +0000
Subject: [PATCH 326/331] fix: UnknownCodePageException and
 InvalidCharacterException became ErrNoException when cloned or thrown again

---
 src/lightspeed/base/exceptions/stringException.h | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/lightspeed/base/exceptions/stringException.h b/src/lightspeed/base/exceptions/stringException.h
index 84ad4ca..9611031 100644
--- a/src/lightspeed/base/exceptions/stringException.h
+++ b/src/lightspeed/base/exceptions/stringException.h
@@ -18,6 +18,8 @@ namespace LightSpeed {
 	class UnknownCodePageException: public ErrNoException {
 	public:
 
+		LIGHTSPEED_EXCEPTIONFINAL;
+
 		UnknownCodePageException(const ProgramLocation &loc, CodePageDef cp, int errnr)
 			:ErrNoException(loc,errnr),cp(cp) {}
 
@@ -38,6 +40,8 @@ namespace LightSpeed {
 	class InvalidCharacterException: public ErrNoException {
 	public:
 
+		LIGHTSPEED_EXCEPTIONFINAL;
+
 		InvalidCharacterException(const ProgramLocation &loc, char chr, int errnr)
 			:ErrNoException(loc,errnr),chr(chr) {}
 
-- 
2.43.0


From c35adadfb70b41c89e8e1e3e67052e870ffaad07 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:19:24 +0000
Subject: [PATCH 327/331] fix: reason appended to an exception changed its
 copies, could make a cycle and was missing in what()

---
 src/lightspeed/base/exceptions/exception.cpp | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/src/lightspeed/base/exceptions/exception.cpp b/src/lightspeed/base/exceptions/exception.cpp
index 729444d..eef7edd 100644
--- a/src/lightspeed/base/exceptions/exception.cpp
+++ b/src/lightspeed/base/exceptions/exception.cpp
@@ -105,10 +105,12 @@ void Exception::appendReason(const PException & rs)
 	if (this->reason == nil)
 		this->reason = rs;
 	else {
-		Exception *iter = this->reason;
-		while (iter->reason != 0) iter = iter->reason;
-		iter->reason = rs;
+		//the chain can be shared with other exceptions, they must not be changed
+		PException chain = this->reason->safeClone();
+		chain->appendReason(rs);
+		this->reason = chain;
 	}
+	whatMsg.free();
 }
 
 
-- 
2.43.0


From 5fed2ee6c4ec86b504840bfe70a606469eeb2950 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:19:24 +0000
Subject: [PATCH 328/331] fix: exception built with four or five values stored
 the fourth as the type of the third, had no fifth value

---
 src/lightspeed/base/exceptions/exceptionBuilder.h | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/src/lightspeed/base/exceptions/exceptionBuilder.h b/src/lightspeed/base/exceptions/exceptionBuilder.h
index b2f0e3c..3be6aaa 100644
--- a/src/lightspeed/base/exceptions/exceptionBuilder.h
+++ b/src/lightspeed/base/exceptions/exceptionBuilder.h
@@ -64,7 +64,7 @@
 			T1 val##P1; \
 			T2 val##P2; \
 			T3 val##P3; \
-			T3 val##P4;
+			T4 val##P4;
 
 #define LIGHTSPD_EXCEPTION_PAR_5(name,T1,P1,T2,P2,T3,P3,T4,P4,T5,P5) \
 			name (const ::LightSpeed::ProgramLocation &loc, const T1 &par##P1, const T2 &par##P2, const T3 &par##P3, const T4 &par##P4, const T5 &par##P5) \
@@ -73,12 +73,13 @@
 			const T2 &get##P2() const {return val##P2;} \
 			const T3 &get##P3() const {return val##P3;} \
 			const T4 &get##P4() const {return val##P4;} \
-			const T4 &get##P5() const {return val##P5;} \
+			const T5 &get##P5() const {return val##P5;} \
 		protected: \
 			T1 val##P1; \
 			T2 val##P2; \
 			T3 val##P3; \
-			T3 val##P4;
+			T4 val##P4; \
+			T5 val##P5;
 
 #define LIGHTSPD_EXCEPTION_MSG(object) virtual void message(::LightSpeed::ExceptionMsg &msg) const
 
-- 
2.43.0


From 93aaf2404bd47ff398d0fc6707a03b8d1d3966dd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:20:47 +0000
Subject: [PATCH 329/331] fix: exceptions with virtual base lost location and
 reason when cloned using an allocator

---
 src/lightspeed/base/exceptions/exception.h | 21 ++++++++++++++++++++-
 1 file changed, 20 insertions(+), 1 deletion(-)

diff --git a/src/lightspeed/base/exceptions/exception.h b/src/lightspeed/base/exceptions/exception.h
index 5f52b21..6be7f61 100644
--- a/src/lightspeed/base/exceptions/exception.h
+++ b/src/lightspeed/base/exceptions/exception.h
@@ -312,10 +312,29 @@ namespace LightSpeed {
             throw except;
         }
 
+        ///clones exception using the allocator
+        /**
+         * The clone is an object of a class derived from T, which doesn't copy
+         * virtual bases of T. Content of this class must be copied explicitly
+         */
+        template<class T>
+        static T *cloneSupport(const T *except, IRuntimeAlloc &alloc) {
+            T *res = ::LightSpeed::ICloneable::doCloneObject(except,alloc);
+            const Exception *src = except;
+            Exception *trg = res;
+            trg->location = src->location;
+            trg->reason = src->reason.getMT();
+            return res;
+        }
+
     };
 
     #define LIGHTSPEED_EXCEPTIONFINAL \
-        LIGHTSPEED_CLONEABLECLASS\
+        virtual ICloneableBase *clone(::LightSpeed::IRuntimeAlloc &alloc) const {\
+        	return ::LightSpeed::Exception::cloneSupport(this,alloc);}\
+        virtual ICloneableBase *clone() const {\
+        	return ::LightSpeed::ICloneable::doCloneObject(this);}\
+        virtual ::LightSpeed::natural getObjectSize() const {return ::LightSpeed::ICloneable::getObjectSize(this);}\
         virtual void throwAgain() const {::LightSpeed::Exception::rethrowSupport(*this);}
 
 	#define LIGHTSPEED_EXCEPTIONFINAL_SPEC(className) \
-- 
2.43.0


From f02de271b2ad4c7df64cbd1a3a3f4ea13cf06284 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:25:29 +0000
Subject: [PATCH 330/331] fix: message of UnsupportedFeatureOnClass was created
 from already destroyed strings

---
 src/lightspeed/base/exceptions/unsupportedFeature.h | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/lightspeed/base/exceptions/unsupportedFeature.h b/src/lightspeed/base/exceptions/unsupportedFeature.h
index 38e3f6e..0190c68 100644
--- a/src/lightspeed/base/exceptions/unsupportedFeature.h
+++ b/src/lightspeed/base/exceptions/unsupportedFeature.h
@@ -52,7 +52,9 @@ namespace LightSpeed
         String feature;
         
         virtual void message(ExceptionMsg &msg) const {
-        	msg(msgText) << getClassName() << getFeatureName();
+        	//arguments must exist until the message is formatted
+        	String className = getClassName(), featureName = getFeatureName();
+        	msg(msgText) << className << featureName;
         }
                 
     };
-- 
2.43.0


From a77dd50d3bd584bf9c9044c61d8062348b153615 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:26:28 +0000
Subject: [PATCH 331/331] fix: UnsupportedFeatureOnClass reported the name of
 the exception instead of the class without the feature

---
 src/lightspeed/base/exceptions/unsupportedFeature.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/lightspeed/base/exceptions/unsupportedFeature.h b/src/lightspeed/base/exceptions/unsupportedFeature.h
index 0190c68..140d50e 100644
--- a/src/lightspeed/base/exceptions/unsupportedFeature.h
+++ b/src/lightspeed/base/exceptions/unsupportedFeature.h
@@ -45,7 +45,7 @@ namespace LightSpeed
         
         virtual String getFeatureName() const {return feature;}
         virtual String getClassName() const {
-            return String(typeid(*this).name());
+            return String(typeid(T).name());
         }
         virtual ~UnsupportedFeatureOnClass() throw() {};
     public:
-- 
2.43.0

