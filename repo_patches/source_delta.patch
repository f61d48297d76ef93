From f6abbf9bfd441a1fab2d08ac0e78f815dd2cf0b6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:24:40 +0000
Subject: [PATCH 01/20] fix: n-ary heap compares every child of a node, not
 always four

---
 common/container/heap/heapn.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/common/container/heap/heapn.go b/common/container/heap/heapn.go
index 33c7c6b..18e2df3 100644
--- a/common/container/heap/heapn.go
+++ b/common/container/heap/heapn.go
@@ -88,7 +88,7 @@ func (h *HeapN[T]) down(i0, n int) bool {
 			break
 		}
 		j := k // first child
-		for j1 := k + 1; j1 < k+4 && j1 < n; j1++ {
+		for j1 := k + 1; j1-k < h.n && j1 < n; j1++ {
 			if h.less(j1, j) {
 				j = j1
 			}
-- 
2.43.0


From 4f9b6d1b7bd02ec53d44d033d10f53c9b2dd939c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:36:20 +0000
Subject: [PATCH 02/20] fix: elements of a cleared list no longer claim to
 belong to it

---
 common/container/list/list.go | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/common/container/list/list.go b/common/container/list/list.go
index ca335fe..d2c8f66 100644
--- a/common/container/list/list.go
+++ b/common/container/list/list.go
@@ -50,8 +50,13 @@ type List[T any] struct {
 	len  int        // current list length excluding (this) sentinel element
 }
 
-// Clear clears list l.
+// Clear clears list l. The removed elements no longer belong to l.
 func (l *List[T]) Clear() *List[T] {
+	for e := l.root.next; e != nil && e != &l.root; {
+		next := e.next
+		e.next, e.prev, e.list = nil, nil, nil
+		e = next
+	}
 	l.root.next = &l.root
 	l.root.prev = &l.root
 	l.len = 0
-- 
2.43.0


From 404aa3edef2018386a165a8c628452655a900eaa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:36:20 +0000
Subject: [PATCH 03/20] fix: the zero value of List is an empty list ready to
 use

---
 common/container/list/list.go | 11 +++++++++++
 1 file changed, 11 insertions(+)

diff --git a/common/container/list/list.go b/common/container/list/list.go
index d2c8f66..04042ad 100644
--- a/common/container/list/list.go
+++ b/common/container/list/list.go
@@ -66,6 +66,13 @@ func (l *List[T]) Clear() *List[T] {
 // New returns an initialized list.
 func New[T any]() *List[T] { return new(List[T]).Clear() }
 
+// lazyInit lazily initializes a zero List value.
+func (l *List[T]) lazyInit() {
+	if l.root.next == nil {
+		l.Clear()
+	}
+}
+
 // Len returns the number of elements of list l.
 // The complexity is O(1).
 func (l *List[T]) Len() int { return l.len }
@@ -150,11 +157,13 @@ func (l *List[T]) RemoveBack() T {
 
 // PushFront inserts a new element e with value v at the front of list l and returns e.
 func (l *List[T]) PushFront(v T) *Element[T] {
+	l.lazyInit()
 	return l.insertValue(v, &l.root)
 }
 
 // PushBack inserts a new element e with value v at the back of list l and returns e.
 func (l *List[T]) PushBack(v T) *Element[T] {
+	l.lazyInit()
 	return l.insertValue(v, l.root.prev)
 }
 
@@ -225,6 +234,7 @@ func (l *List[T]) MoveAfter(e, mark *Element[T]) {
 // PushBackList inserts a copy of another list at the back of list l.
 // The lists l and other may be the same. They must not be nil.
 func (l *List[T]) PushBackList(other *List[T]) {
+	l.lazyInit()
 	for i, e := other.Len(), other.Front(); i > 0; i, e = i-1, e.Next() {
 		l.insertValue(e.Value, l.root.prev)
 	}
@@ -233,6 +243,7 @@ func (l *List[T]) PushBackList(other *List[T]) {
 // PushFrontList inserts a copy of another list at the front of list l.
 // The lists l and other may be the same. They must not be nil.
 func (l *List[T]) PushFrontList(other *List[T]) {
+	l.lazyInit()
 	for i, e := other.Len(), other.Back(); i > 0; i, e = i-1, e.Prev() {
 		l.insertValue(e.Value, &l.root)
 	}
-- 
2.43.0


From 1edd80aa592de21be8d1587c0737224d97c5febf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:59:47 +0000
Subject: [PATCH 04/20] fix: Split handles a count of zero and counts whose sum
 with m overflows

---
 common/math/math.go | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/common/math/math.go b/common/math/math.go
index c7096b8..0530470 100644
--- a/common/math/math.go
+++ b/common/math/math.go
@@ -10,7 +10,10 @@ import (
 // Split 把数n分成m份
 // 返回每一份大小和最后一份的大小
 func Split(n, m uint) (uint, uint) {
-	per := (n + m - 1) / m
+	if n == 0 {
+		return 0, 0
+	}
+	per := (n-1)/m + 1
 	last := n % per
 	if last == 0 {
 		last = per
-- 
2.43.0


From 2bf949a8066dcb857e3a432b46086e918c7ab787 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:59:47 +0000
Subject: [PATCH 05/20] fix: MPopCopy of an unbounded ring without capacity
 divided by zero

---
 common/container/ringbuffer/unbounded/unbounded.go | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/common/container/ringbuffer/unbounded/unbounded.go b/common/container/ringbuffer/unbounded/unbounded.go
index 1a892c0..625746b 100644
--- a/common/container/ringbuffer/unbounded/unbounded.go
+++ b/common/container/ringbuffer/unbounded/unbounded.go
@@ -90,8 +90,11 @@ func (r *Ring[T]) MPop(size uint64) []T {
 
 // 从队头读取，填充到dst里
 func (r *Ring[T]) MPopCopy(dst []T) {
-	out := r.out % r.size
 	dst = dst[:mmath.Min(uint64(len(dst)), r.Len())]
+	if len(dst) == 0 {
+		return
+	}
+	out := r.out % r.size
 	copied := copy(dst, r.data[out:])
 	copied += copy(dst[copied:], r.data)
 	r.out += uint64(copied)
-- 
2.43.0


From 380060a2bda4c16879c252fb3acdcd4ec09f8dd0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:59:47 +0000
Subject: [PATCH 06/20] fix: a ring of more than 2^63 slots panics instead of
 silently having none

---
 common/container/ringbuffer/round/roud.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/common/container/ringbuffer/round/roud.go b/common/container/ringbuffer/round/roud.go
index 9512d70..ca30c23 100644
--- a/common/container/ringbuffer/round/roud.go
+++ b/common/container/ringbuffer/round/roud.go
@@ -19,10 +19,10 @@ func New[T any](size uint64) *Ring[T] {
 	if size == 0 {
 		panic("size must be greater than 0")
 	}
-	size = math.RoundUpPowOf2(size)
 	if size > MaxSize {
 		panic("size is too large")
 	}
+	size = math.RoundUpPowOf2(size)
 
 	return &Ring[T]{
 		size: size,
-- 
2.43.0


From 9d351f5dadf8dd4aafae28ccb4c7bfb4dd1abd39 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:56:42 +0000
Subject: [PATCH 07/20] fix: the sliding log limiter copies its strategies
 instead of sharing the caller's

---
 common/limiter/sliding_log/sliding_log.go | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/common/limiter/sliding_log/sliding_log.go b/common/limiter/sliding_log/sliding_log.go
index 671b10b..fe6705a 100644
--- a/common/limiter/sliding_log/sliding_log.go
+++ b/common/limiter/sliding_log/sliding_log.go
@@ -42,7 +42,12 @@ type SlidingLogLimiter struct {
 
 func NewSlidingLogLimiter(smallWindow time.Duration, strategies ...*SlidingLogLimiterStrategy) (*SlidingLogLimiter, error) {
 	// 复制策略避免被修改
-	strategies = append(make([]*SlidingLogLimiterStrategy, 0, len(strategies)), strategies...)
+	copied := make([]*SlidingLogLimiterStrategy, len(strategies))
+	for i, strategy := range strategies {
+		c := *strategy
+		copied[i] = &c
+	}
+	strategies = copied
 
 	// 不能不设置策略
 	if len(strategies) == 0 {
-- 
2.43.0


From 1b6477a810320a7333b1880760f8e03dbaebaa7c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:43:18 +0000
Subject: [PATCH 08/20] fix: a cancelled Take no longer leaves the delay
 queue's Push blocked with its mutex held

---
 common/timer/delayqueue/delayqueue.go  | 12 +++++++-----
 common/timer/timingwheel/delayqueue.go | 13 +++++++------
 2 files changed, 14 insertions(+), 11 deletions(-)

diff --git a/common/timer/delayqueue/delayqueue.go b/common/timer/delayqueue/delayqueue.go
index 5eae6c4..ca129a3 100644
--- a/common/timer/delayqueue/delayqueue.go
+++ b/common/timer/delayqueue/delayqueue.go
@@ -32,7 +32,8 @@ func New[T any]() *DelayQueue[T] {
 		h: heap.New(nil, func(e1, e2 *entry[T]) bool {
 			return e1.expiration.Before(e2.expiration)
 		}),
-		wakeup: make(chan struct{}),
+		// 缓冲一个信号，Push()永远不会因为take已经离开而阻塞
+		wakeup: make(chan struct{}, 1),
 	}
 }
 
@@ -60,7 +61,10 @@ func (q *DelayQueue[T]) Push(value T, delay time.Duration) {
 	if q.h.Peek() == entry {
 		// 把sleep 从1修改成0
 		if atomic.CompareAndSwapInt32(&q.sleeping, 1, 0) {
-			q.wakeup <- struct{}{}
+			select {
+			case q.wakeup <- struct{}{}:
+			default: // 已经有未处理的唤醒信号
+			}
 		}
 	}
 
@@ -100,9 +104,7 @@ func (q *DelayQueue[T]) Take(ctx context.Context) (T, bool) {
 			case <-q.wakeup:
 				timer.Stop()
 			case <-timer.C:
-				if atomic.SwapInt32(&q.sleeping, 0) == 0 {
-					<-q.wakeup
-				}
+				atomic.StoreInt32(&q.sleeping, 0)
 			case <-ctx.Done():
 				timer.Stop()
 				var t T
diff --git a/common/timer/timingwheel/delayqueue.go b/common/timer/timingwheel/delayqueue.go
index 7f72023..0e43a50 100644
--- a/common/timer/timingwheel/delayqueue.go
+++ b/common/timer/timingwheel/delayqueue.go
@@ -26,7 +26,8 @@ func newDelayQueue() *delayQueue {
 			return e1.getExpiration() < e2.getExpiration()
 		}),
 
-		wakeup: make(chan struct{}),
+		// 缓冲一个信号，push()永远不会因为take已经离开而阻塞
+		wakeup: make(chan struct{}, 1),
 	}
 }
 
@@ -44,7 +45,10 @@ func (q *delayQueue) push(b *bucket) {
 
 	if q.h.Peek() == b {
 		if atomic.CompareAndSwapInt32(&q.sleeping, 1, 0) {
-			q.wakeup <- struct{}{}
+			select {
+			case q.wakeup <- struct{}{}:
+			default: // 已经有未处理的唤醒信号
+			}
 		}
 	}
 }
@@ -85,10 +89,7 @@ func (q *delayQueue) take(ctx context.Context, nowF func() int64) *bucket {
 			case <-q.wakeup: // 新的更快到期元素
 				t.Stop()
 			case <-t.C: // 首元素到期
-				if atomic.SwapInt32(&q.sleeping, 0) == 0 {
-					// 避免Push()的协程被阻塞
-					<-q.wakeup
-				}
+				atomic.StoreInt32(&q.sleeping, 0)
 			case <-ctx.Done(): // 被关闭
 				t.Stop()
 				return nil
-- 
2.43.0


From 13f0e0ea22176533501bae82d423c3912a6fecf9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:43:18 +0000
Subject: [PATCH 09/20] fix: timing wheel waits for its next bucket instead of
 spinning, and survives shutdown

---
 common/timer/timingwheel/delayqueue.go   | 2 +-
 common/timer/timingwheel/timing_wheel.go | 5 ++++-
 2 files changed, 5 insertions(+), 2 deletions(-)

diff --git a/common/timer/timingwheel/delayqueue.go b/common/timer/timingwheel/delayqueue.go
index 0e43a50..22e74a9 100644
--- a/common/timer/timingwheel/delayqueue.go
+++ b/common/timer/timingwheel/delayqueue.go
@@ -77,7 +77,7 @@ func (q *delayQueue) take(ctx context.Context, nowF func() int64) *bucket {
 				return entry
 			}
 			// 到期时间，使用time.NewTimer()才能够调用Stop()，从而释放定时器
-			t = time.NewTimer(time.Duration(now-expiration) * time.Millisecond)
+			t = time.NewTimer(time.Duration(expiration-now) * time.Millisecond)
 		}
 		// 走到这里表示需要等待了，则需要告诉Push()在有新元素时要通知
 		atomic.StoreInt32(&q.sleeping, 1)
diff --git a/common/timer/timingwheel/timing_wheel.go b/common/timer/timingwheel/timing_wheel.go
index 59ca0ca..11c87c5 100644
--- a/common/timer/timingwheel/timing_wheel.go
+++ b/common/timer/timingwheel/timing_wheel.go
@@ -54,7 +54,10 @@ func (tw *TimingWheel) Run(ctx context.Context) {
 	})
 	for {
 		select {
-		case b := <-bucketChan: // 桶到期
+		case b, ok := <-bucketChan: // 桶到期
+			if !ok { // 通道在关闭时才会关闭
+				return
+			}
 			// 前进当前时间
 			tw.advance(b.expiration)
 			// 处理桶
-- 
2.43.0


From 928c781514c33fcd8ee4a8f1852727dcd1b4ca74 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:43:18 +0000
Subject: [PATCH 10/20] fix: AfterFunc runs a timer that is already due instead
 of dropping it

---
 common/timer/timingwheel/timing_wheel.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/common/timer/timingwheel/timing_wheel.go b/common/timer/timingwheel/timing_wheel.go
index 11c87c5..08ae9bb 100644
--- a/common/timer/timingwheel/timing_wheel.go
+++ b/common/timer/timingwheel/timing_wheel.go
@@ -81,7 +81,7 @@ func (tw *TimingWheel) AfterFunc(delay time.Duration, f func()) *Timer {
 		expiration: time.Now().Add(delay).UnixMilli(),
 		task:       f,
 	}
-	tw.add(t)
+	tw.addOrRun(t)
 	return t
 }
 
-- 
2.43.0


From a946c921a200144bb849de578c14208a77eb6626 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:19:28 +0000
Subject: [PATCH 11/20] fix: timing wheel reads a bucket's expiry atomically
 when it comes due

---
 common/timer/timingwheel/timing_wheel.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/common/timer/timingwheel/timing_wheel.go b/common/timer/timingwheel/timing_wheel.go
index 08ae9bb..bc6436e 100644
--- a/common/timer/timingwheel/timing_wheel.go
+++ b/common/timer/timingwheel/timing_wheel.go
@@ -59,7 +59,7 @@ func (tw *TimingWheel) Run(ctx context.Context) {
 				return
 			}
 			// 前进当前时间
-			tw.advance(b.expiration)
+			tw.advance(b.getExpiration())
 			// 处理桶
 			b.flush(tw.addOrRun)
 		case <-ctx.Done(): // 被关闭
-- 
2.43.0


From 5a0e9e794ccb005ba6c979e1be845d597c891b4a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:14:37 +0000
Subject: [PATCH 12/20] fix: SplitInsertTableRecords refuses records it cannot
 split instead of dropping them or looping for ever

---
 gorm_tools/gorm.go | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/gorm_tools/gorm.go b/gorm_tools/gorm.go
index 7e13ea2..baaeefa 100644
--- a/gorm_tools/gorm.go
+++ b/gorm_tools/gorm.go
@@ -109,10 +109,13 @@ func SplitInsertTableRecords(db *gorm.DB, table string, records ...interface{})
 		return err
 	}
 	if len(recordMap) == 0 {
-		return nil
+		return fmt.Errorf("SplitInsertTableRecords record of %s has no field", table)
 	}
 	// 由于数据库占位符长度限制,需要动态限制
 	maxInsertLen := 65000 / len(recordMap)
+	if maxInsertLen == 0 {
+		return fmt.Errorf("SplitInsertTableRecords record of %s has too many fields", table)
+	}
 
 	for len(records) != 0 {
 		insertLen := len(records)
-- 
2.43.0


From 9c515f1e5672f56ef55e01f7066da132ed5659d9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:14:37 +0000
Subject: [PATCH 13/20] fix: BatchInsertTableRecords refuses records with other
 fields than the first instead of dropping values

---
 gorm_tools/gorm.go | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/gorm_tools/gorm.go b/gorm_tools/gorm.go
index baaeefa..520bf23 100644
--- a/gorm_tools/gorm.go
+++ b/gorm_tools/gorm.go
@@ -158,9 +158,16 @@ func BatchInsertTableRecords(db *gorm.DB, table string, records ...interface{})
 	//按上面收集到的字段名字顺序，查找对应的value
 	values := make([]interface{}, 0, len(records))
 	for _, item := range recordMap {
+		if len(item) != len(fieldName) {
+			return fmt.Errorf("insert field must equal")
+		}
 		valueItem := make([]interface{}, 0, len(item))
 		for _, name := range fieldName {
-			valueItem = append(valueItem, item[name])
+			value, ok := item[name]
+			if !ok {
+				return fmt.Errorf("insert field must equal")
+			}
+			valueItem = append(valueItem, value)
 		}
 
 		values = append(values, valueItem)
-- 
2.43.0


From 21d9e0fe96db505e55f362d41d0ae643b063efd8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:14:37 +0000
Subject: [PATCH 14/20] fix: batch update refuses records with more fields than
 the others instead of dropping them

---
 gorm_tools/update.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/gorm_tools/update.go b/gorm_tools/update.go
index 2a9b664..271da74 100644
--- a/gorm_tools/update.go
+++ b/gorm_tools/update.go
@@ -60,7 +60,7 @@ func BatchUpdateTableFieldWithoutVersionByID(db *gorm.DB, tableName string, idUp
 		caseSQL += field + "= case "
 		for id, updateMap := range idUpdateMap {
 			value, ok := updateMap[field]
-			if !ok {
+			if !ok || len(updateMap) != len(updateField) {
 				return fmt.Errorf("update field must equal")
 			}
 			caseSQL += "when id = ? then ? "
-- 
2.43.0


From 0e5739c0c268c36153c74c6e2343b1ace62e94dc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:38:17 +0000
Subject: [PATCH 15/20] fix: SplitInsertTableRecords limits each batch by its
 own records' width, not by that of the very first record

---
 gorm_tools/gorm.go | 30 +++++++++++++++---------------
 1 file changed, 15 insertions(+), 15 deletions(-)

diff --git a/gorm_tools/gorm.go b/gorm_tools/gorm.go
index 520bf23..4862479 100644
--- a/gorm_tools/gorm.go
+++ b/gorm_tools/gorm.go
@@ -103,27 +103,27 @@ func SplitInsertTableRecords(db *gorm.DB, table string, records ...interface{})
 		return nil
 	}
 
-	// 获取record长度
-	recordMap, err := dumpStructToMapForInsert(records[0], table)
-	if err != nil {
-		return err
-	}
-	if len(recordMap) == 0 {
-		return fmt.Errorf("SplitInsertTableRecords record of %s has no field", table)
-	}
-	// 由于数据库占位符长度限制,需要动态限制
-	maxInsertLen := 65000 / len(recordMap)
-	if maxInsertLen == 0 {
-		return fmt.Errorf("SplitInsertTableRecords record of %s has too many fields", table)
-	}
-
 	for len(records) != 0 {
+		// 获取record长度
+		recordMap, err := dumpStructToMapForInsert(records[0], table)
+		if err != nil {
+			return err
+		}
+		if len(recordMap) == 0 {
+			return fmt.Errorf("SplitInsertTableRecords record of %s has no field", table)
+		}
+		// 由于数据库占位符长度限制,需要动态限制
+		maxInsertLen := 65000 / len(recordMap)
+		if maxInsertLen == 0 {
+			return fmt.Errorf("SplitInsertTableRecords record of %s has too many fields", table)
+		}
+
 		insertLen := len(records)
 		if len(records) > maxInsertLen {
 			insertLen = maxInsertLen
 		}
 
-		err := BatchInsertTableRecords(db, table, records[:insertLen]...)
+		err = BatchInsertTableRecords(db, table, records[:insertLen]...)
 		if err != nil {
 			return err
 		}
-- 
2.43.0


From 8aa2c037593e5451066a90284c54d86fa1095f0e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:35:34 +0000
Subject: [PATCH 16/20] fix: masking helpers count characters, not bytes

---
 help/utils/strings.go | 37 ++++++++++++++++++++-----------------
 1 file changed, 20 insertions(+), 17 deletions(-)

diff --git a/help/utils/strings.go b/help/utils/strings.go
index 811ef33..790644a 100644
--- a/help/utils/strings.go
+++ b/help/utils/strings.go
@@ -66,11 +66,11 @@ func HideStar(str string) (result string) {
 	if strings.Contains(str, "@") {
 		// 邮箱
 		res := strings.Split(str, "@")
-		if len(res[0]) < 3 {
+		if len([]rune(res[0])) < 3 {
 			resString := "***"
 			result = resString + "@" + res[1]
 		} else {
-			res2 := Substr2(str, 0, 3)
+			res2 := Substr2(res[0], 0, 3)
 			resString := res2 + "***"
 			result = resString + "@" + res[1]
 		}
@@ -106,16 +106,17 @@ func HideStar(str string) (result string) {
 // @Author ahKevinXy
 // @Date 2022-11-09 19:40:59
 func MaskMobile(mobile string, maskNumber int) string {
+	_mobile := []rune(mobile)
 	offset := 3
-	if len(mobile) > 11 {
+	if len(_mobile) > 11 {
 		offset += 2
 	}
 	maskNumber += offset
 
 	ret := mobile
-	if len(mobile) > maskNumber {
-		_cardNo := make([]rune, len(mobile))
-		for index, _c := range mobile {
+	if len(_mobile) > maskNumber {
+		_cardNo := make([]rune, len(_mobile))
+		for index, _c := range _mobile {
 			if index >= offset && index < maskNumber {
 				_cardNo[index] = '*'
 				continue
@@ -136,11 +137,11 @@ func MaskMobile(mobile string, maskNumber int) string {
 func MaskCustomerName(name string) string {
 
 	_name := []rune(name)
-	if len(name) > 4 {
+	if len(_name) > 4 {
 		name = string(_name[:2]) + "***" + string(_name[len(_name)-2:])
-	} else if len(name) < 1 {
+	} else if len(_name) < 1 {
 		name = ""
-	} else if len(name) <= 4 {
+	} else if len(_name) <= 4 {
 		name = string(_name[:1]) + "***"
 	}
 
@@ -152,13 +153,14 @@ func MaskCustomerName(name string) string {
 // @Author ahKevinXy
 // @Date 2022-11-09 19:41:18
 func MaskIDCard(idcard string, maskNumber int) string {
+	_idcard := []rune(idcard)
 	offset := 4
 	maskNumber += offset
 
 	ret := idcard
-	if len(idcard) > maskNumber {
-		_cardNo := make([]rune, len(idcard))
-		for index, _c := range idcard {
+	if len(_idcard) > maskNumber {
+		_cardNo := make([]rune, len(_idcard))
+		for index, _c := range _idcard {
 			if index >= offset && index < maskNumber {
 				_cardNo[index] = '*'
 				continue
@@ -177,16 +179,17 @@ func MaskIDCard(idcard string, maskNumber int) string {
 // @Author ahKevinXy
 // @Date 2022-11-09 19:41:25
 func MaskBackCard(bankcard string, maskNumber int) string {
+	_bankcard := []rune(bankcard)
 	offset := 4
 	maskNumber += offset
-	if len(bankcard) > 16 {
-		maskNumber += len(bankcard) - 16
+	if len(_bankcard) > 16 {
+		maskNumber += len(_bankcard) - 16
 	}
 
 	ret := bankcard
-	if len(bankcard) > maskNumber {
-		_cardNo := make([]rune, len(bankcard))
-		for index, _c := range bankcard {
+	if len(_bankcard) > maskNumber {
+		_cardNo := make([]rune, len(_bankcard))
+		for index, _c := range _bankcard {
 			if index >= offset && index < maskNumber {
 				_cardNo[index] = '*'
 				continue
-- 
2.43.0


From bdaa26bc6960266c2a6740dee67aeedd7a365ea4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:35:35 +0000
Subject: [PATCH 17/20] fix: UpperFirst returned its argument unchanged

---
 help/utils/strings.go | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/help/utils/strings.go b/help/utils/strings.go
index 790644a..4efc1bb 100644
--- a/help/utils/strings.go
+++ b/help/utils/strings.go
@@ -4,6 +4,8 @@ import (
 	"regexp"
 	"strconv"
 	"strings"
+	"unicode"
+	"unicode/utf8"
 )
 
 // StringToInt
@@ -48,11 +50,12 @@ func StringToInt64(s string) int64 {
 //  @Author  ahKevinXy
 //  @Date2023-04-04 14:32:18
 func UpperFirst(s string) string {
-	if len(s) > 0 {
-		strings.Replace(s, s[0:1], strings.ToUpper(s[0:1]), 1)
+	r, size := utf8.DecodeRuneInString(s)
+	if r == utf8.RuneError {
+		return s
 	}
 
-	return s
+	return string(unicode.ToUpper(r)) + s[size:]
 }
 
 // HideStar
-- 
2.43.0


From 22d0b74c4dc41eb070bc736f0a5397d80dcc1141 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:35:35 +0000
Subject: [PATCH 18/20] fix: FormatByte ignored the size and always printed
 bytes

---
 help/utils/files.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/help/utils/files.go b/help/utils/files.go
index 9c0d393..fcb5451 100644
--- a/help/utils/files.go
+++ b/help/utils/files.go
@@ -157,10 +157,10 @@ func GetSuffixName(str, seg string) string {
 
 //FormatByte 转换字节大小
 func FormatByte(size int) string {
-	fSize := float64(32)
+	fSize := float64(size)
 	units := [6]string{"B", "KB", "MB", "GB", "TB", "PB"}
 	var i int
-	for i := 0; fSize > 1024 && i < 5; i++ {
+	for i = 0; fSize > 1024 && i < 5; i++ {
 		fSize /= 1024
 	}
 	num := fmt.Sprintf("%.2f", fSize)
-- 
2.43.0


From 2537ea5dbc4f1e55368f021346351ee931746055 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:35:35 +0000
Subject: [PATCH 19/20] fix: AesEncrypt wrote its padding into the caller's
 spare capacity

---
 help/utils/md5.go | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/help/utils/md5.go b/help/utils/md5.go
index dad633a..47bf266 100644
--- a/help/utils/md5.go
+++ b/help/utils/md5.go
@@ -75,7 +75,10 @@ func AesDecrypt(data []byte, key []byte) ([]byte, error) {
 func pkcs7Padding(data []byte, blockSize int) []byte {
 	padding := blockSize - len(data)%blockSize
 	padText := bytes.Repeat([]byte{byte(padding)}, padding)
-	return append(data, padText...)
+	// 复制一份,不能写入调用方切片的剩余容量
+	padded := make([]byte, 0, len(data)+padding)
+	padded = append(padded, data...)
+	return append(padded, padText...)
 }
 
 func pkcs7UnPadding(data []byte) ([]byte, error) {
-- 
2.43.0


From 60833246b147cdac45a4bfb9de5d700e450a0ca7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:35:35 +0000
Subject: [PATCH 20/20] fix: AesDecrypt panicked on truncated or foreign
 ciphertext

---
 help/utils/md5.go | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/help/utils/md5.go b/help/utils/md5.go
index 47bf266..4f9aebf 100644
--- a/help/utils/md5.go
+++ b/help/utils/md5.go
@@ -62,6 +62,9 @@ func AesDecrypt(data []byte, key []byte) ([]byte, error) {
 		return nil, err
 	}
 	blockSize := block.BlockSize()
+	if len(data)%blockSize != 0 {
+		return nil, errors.New("encrypt error")
+	}
 	blockMode := cipher.NewCBCDecrypter(block, key[:blockSize])
 	crypted := make([]byte, len(data))
 	blockMode.CryptBlocks(crypted, data)
@@ -87,5 +90,8 @@ func pkcs7UnPadding(data []byte) ([]byte, error) {
 		return nil, errors.New("encrypt error")
 	}
 	unPadding := int(data[length-1])
+	if unPadding == 0 || unPadding > length {
+		return nil, errors.New("encrypt error")
+	}
 	return data[:(length - unPadding)], nil
 }
-- 
2.43.0

