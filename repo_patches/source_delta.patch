From 77febd8c1c7deafcadc540581d0d13b3dbac071e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:23:16 +0000
Subject: [PATCH 01/21] fix: keep scores legal when a request carries NaN

---
 internal/queue/score/score.go | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/internal/queue/score/score.go b/internal/queue/score/score.go
index 18f1242..329d021 100644
--- a/internal/queue/score/score.go
+++ b/internal/queue/score/score.go
@@ -26,7 +26,7 @@ func GetPullMaxScore(score float64) *float64 {
 		return &Max
 	}
 
-	if score < Min {
+	if !(score >= Min) { // also true for NaN
 		return &Min
 	}
 
@@ -47,7 +47,7 @@ func GetPullMinScore(score float64) *float64 {
 		return &Max
 	}
 
-	if score <= Min {
+	if !(score > Min) { // also true for NaN
 		return &Min
 	}
 
@@ -68,7 +68,7 @@ func GetAddScore(addRequestScore float64) float64 {
 		return GetScoreByDefaultAlgorithm()
 	}
 
-	if addRequestScore < Min {
+	if !(addRequestScore >= Min) { // also true for NaN
 		return Min
 	}
 
-- 
2.43.0


From e0add3dcdf33942b7487e75000bfca18694debb3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:24:30 +0000
Subject: [PATCH 02/21] fix: unlock only the queue asked for and every due
 message of it (memory cache)

---
 internal/queue/cache/memory_cache.go | 32 +++++++++++++++-------------
 1 file changed, 17 insertions(+), 15 deletions(-)

diff --git a/internal/queue/cache/memory_cache.go b/internal/queue/cache/memory_cache.go
index f9d0135..d52228c 100644
--- a/internal/queue/cache/memory_cache.go
+++ b/internal/queue/cache/memory_cache.go
@@ -220,27 +220,29 @@ func (cache *MemoryCache) UnlockMessages(ctx context.Context, queue string, lock
 	nowMs := dtime.NowMs()
 
 	unlockedMessages := make([]string, 0)
-	for queue := range data {
-		list := data[queue]
 
-		if list == nil {
-			continue
-		}
-
-		for e := list.Front(); e != nil; e = e.Next() {
-			value := e.Value.(*MemoryMessageEntry)
+	list := data[queue]
+	if list == nil {
+		return unlockedMessages, nil
+	}
 
-			if nowMs >= int64(value.lockUntil) {
-				list.Remove(e)
+	for next := list.Front(); next != nil; {
+		// an element loses its links when it is removed from the list
+		e := next
+		next = e.Next()
 
-				if score.IsUndefined(value.score) {
-					value.score = defaultScore
-				}
+		value := e.Value.(*MemoryMessageEntry)
 
-				cache.queues[queue], _ = insertEntry(value, cache.queues[queue])
+		if nowMs >= int64(value.lockUntil) {
+			list.Remove(e)
 
-				unlockedMessages = append(unlockedMessages, value.id)
+			if score.IsUndefined(value.score) {
+				value.score = defaultScore
 			}
+
+			cache.queues[queue], _ = insertEntry(value, cache.queues[queue])
+
+			unlockedMessages = append(unlockedMessages, value.id)
 		}
 	}
 
-- 
2.43.0


From b99078063e1b7f46a1a9d3ecba26e0b8db441a72 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:24:34 +0000
Subject: [PATCH 03/21] fix: time out every overdue message at once (memory
 cache)

---
 internal/queue/cache/memory_cache.go | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/internal/queue/cache/memory_cache.go b/internal/queue/cache/memory_cache.go
index d52228c..d9fea2b 100644
--- a/internal/queue/cache/memory_cache.go
+++ b/internal/queue/cache/memory_cache.go
@@ -309,7 +309,11 @@ func (cache *MemoryCache) TimeoutMessages(_ context.Context, queue string) (ids
 	count := int64(0)
 
 	result := make([]string, 0)
-	for e := cache.processingQueues[queue].Front(); e != nil; e = e.Next() {
+	for next := cache.processingQueues[queue].Front(); next != nil; {
+		// an element loses its links when it is removed from the list
+		e := next
+		next = e.Next()
+
 		value := e.Value.(*MemoryMessageEntry)
 
 		if value.score <= float64(timeoutTime) {
-- 
2.43.0


From 64424e943db15839cb06f4d46538a26adb518ae9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:27:36 +0000
Subject: [PATCH 04/21] fix: give pulled messages their deadline in
 milliseconds (memory cache)

---
 internal/queue/cache/memory_cache.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/internal/queue/cache/memory_cache.go b/internal/queue/cache/memory_cache.go
index d9fea2b..b0e3a88 100644
--- a/internal/queue/cache/memory_cache.go
+++ b/internal/queue/cache/memory_cache.go
@@ -281,7 +281,7 @@ func (cache *MemoryCache) PullMessages(ctx context.Context, queue string, n int6
 
 		processingEntry := &MemoryMessageEntry{
 			id:    entry.id,
-			score: float64(dtime.Now().Unix() + ackDeadlineMs),
+			score: float64(dtime.NowMs()) + float64(ackDeadlineMs),
 		}
 
 		cache.processingQueues[queue], _ = insertEntry(processingEntry, cache.processingQueues[queue])
@@ -304,7 +304,7 @@ func (cache *MemoryCache) TimeoutMessages(_ context.Context, queue string) (ids
 		return nil, nil
 	}
 
-	timeoutTime := dtime.Now().Unix()
+	timeoutTime := dtime.NowMs()
 
 	count := int64(0)
 
-- 
2.43.0


From d7cab62305271e6557e6a9bc7b85688832891016 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:27:49 +0000
Subject: [PATCH 05/21] fix: let a pull skip messages outside the score
 thresholds without counting them (memory cache)

---
 internal/queue/cache/memory_cache.go | 17 ++++++-----------
 1 file changed, 6 insertions(+), 11 deletions(-)

diff --git a/internal/queue/cache/memory_cache.go b/internal/queue/cache/memory_cache.go
index b0e3a88..922447b 100644
--- a/internal/queue/cache/memory_cache.go
+++ b/internal/queue/cache/memory_cache.go
@@ -265,20 +265,19 @@ func (cache *MemoryCache) PullMessages(ctx context.Context, queue string, n int6
 
 	result := make([]string, 0, utils.MinInt64(n, total))
 
-	filteredOut := make([]*MemoryMessageEntry, 0)
-	for i := int64(0); i < n && i < total && cache.queues[queue].Len() != 0; i++ {
-		element := cache.queues[queue].Front()
+	for next := cache.queues[queue].Front(); next != nil && int64(len(result)) < n; {
+		// an element loses its links when it is removed from the list
+		element := next
+		next = element.Next()
 
 		entry := element.Value.(*MemoryMessageEntry)
 
-		cache.queues[queue], _ = removeEntry(entry, cache.queues[queue])
-
 		if minScore != nil && entry.score < *minScore || maxScore != nil && entry.score > *maxScore {
-			filteredOut = append(filteredOut, entry)
-
 			continue
 		}
 
+		cache.queues[queue], _ = removeEntry(entry, cache.queues[queue])
+
 		processingEntry := &MemoryMessageEntry{
 			id:    entry.id,
 			score: float64(dtime.NowMs()) + float64(ackDeadlineMs),
@@ -289,10 +288,6 @@ func (cache *MemoryCache) PullMessages(ctx context.Context, queue string, n int6
 		result = append(result, entry.id)
 	}
 
-	for _, entry := range filteredOut {
-		cache.queues[queue], _ = insertEntry(entry, cache.queues[queue])
-	}
-
 	return result, nil
 }
 
-- 
2.43.0


From 6f75be7880ae7e69a5fc830a8e44411461eda5a4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:27:52 +0000
Subject: [PATCH 06/21] fix: keep a message locked for very long lock times
 (memory cache)

---
 internal/queue/cache/memory_cache.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/internal/queue/cache/memory_cache.go b/internal/queue/cache/memory_cache.go
index 922447b..f0443ca 100644
--- a/internal/queue/cache/memory_cache.go
+++ b/internal/queue/cache/memory_cache.go
@@ -189,7 +189,7 @@ func (cache *MemoryCache) LockMessage(_ context.Context, message *message.Messag
 	cache.processingQueues[message.Queue], result = removeEntry(entry, cache.processingQueues[message.Queue])
 
 	if result {
-		entry.lockUntil = float64(dtime.NowMs() + message.LockMs)
+		entry.lockUntil = float64(dtime.NowMs()) + float64(message.LockMs)
 
 		switch lockType {
 		case LOCK_ACK:
@@ -233,7 +233,7 @@ func (cache *MemoryCache) UnlockMessages(ctx context.Context, queue string, lock
 
 		value := e.Value.(*MemoryMessageEntry)
 
-		if nowMs >= int64(value.lockUntil) {
+		if float64(nowMs) >= value.lockUntil {
 			list.Remove(e)
 
 			if score.IsUndefined(value.score) {
-- 
2.43.0


From 57c3136cc3b0ed7be8d89c597088863ad4e8f98b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:28:43 +0000
Subject: [PATCH 07/21] fix: key stored messages by queue and id separately
 (memory storage)

---
 internal/queue/storage/memory_storage.go | 16 +++++++++++-----
 1 file changed, 11 insertions(+), 5 deletions(-)

diff --git a/internal/queue/storage/memory_storage.go b/internal/queue/storage/memory_storage.go
index d2b021e..1443fe2 100644
--- a/internal/queue/storage/memory_storage.go
+++ b/internal/queue/storage/memory_storage.go
@@ -18,7 +18,7 @@ import (
 // MemoryStorage is an implementation of the Storage Interface using memory.
 // Currently only insert and pull functions are implemented.
 type MemoryStorage struct {
-	docs            map[string]*message.Message
+	docs            map[messageKey]*message.Message
 	configurations  map[string]*configuration.QueueConfiguration
 	lock            *sync.RWMutex
 	internalCounter int64
@@ -28,7 +28,7 @@ var _ Storage = &MemoryStorage{}
 
 func NewMemoryStorage(ctx context.Context) *MemoryStorage {
 	storage := &MemoryStorage{
-		docs:           make(map[string]*message.Message),
+		docs:           make(map[messageKey]*message.Message),
 		configurations: make(map[string]*configuration.QueueConfiguration),
 
 		lock:            &sync.RWMutex{},
@@ -74,7 +74,7 @@ func (storage *MemoryStorage) Flush(_ context.Context) (deletedCount int64, err
 	count := int64(len(storage.docs))
 	count += int64(len(storage.configurations))
 
-	storage.docs = make(map[string]*message.Message)
+	storage.docs = make(map[messageKey]*message.Message)
 	storage.configurations = make(map[string]*configuration.QueueConfiguration)
 
 	storage.lock.Unlock()
@@ -134,8 +134,14 @@ func (storage *MemoryStorage) GetStringInternalId(_ context.Context, message *me
 	return strconv.FormatInt(message.InternalId.(int64), 10)
 }
 
-func getKey(message *message.Message) string {
-	return message.Queue + ":" + message.ID
+// messageKey identifies a message: ids are unique only within their queue
+type messageKey struct {
+	queue string
+	id    string
+}
+
+func getKey(message *message.Message) messageKey {
+	return messageKey{queue: message.Queue, id: message.ID}
 }
 
 func (storage *MemoryStorage) Count(_ context.Context, findOpts *FindOptions, _ *CountOptions) (int64, error) {
-- 
2.43.0


From 1399696fd87b18b2311ad716bfe081ad9990da1c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:28:43 +0000
Subject: [PATCH 08/21] fix: release the lock when a count fails (memory
 storage)

---
 internal/queue/storage/memory_storage.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/internal/queue/storage/memory_storage.go b/internal/queue/storage/memory_storage.go
index 1443fe2..5d21604 100644
--- a/internal/queue/storage/memory_storage.go
+++ b/internal/queue/storage/memory_storage.go
@@ -148,6 +148,8 @@ func (storage *MemoryStorage) Count(_ context.Context, findOpts *FindOptions, _
 	count := int64(0)
 
 	storage.lock.RLock()
+	defer storage.lock.RUnlock()
+
 	for _, value := range storage.docs {
 		matches, err := messageMatchesFilter(value, findOpts)
 
@@ -159,7 +161,6 @@ func (storage *MemoryStorage) Count(_ context.Context, findOpts *FindOptions, _
 			count++
 		}
 	}
-	storage.lock.RUnlock()
 
 	return count, nil
 }
-- 
2.43.0


From 8893290c8e6e4937b198c2a8ebe4dd6af161384c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:28:58 +0000
Subject: [PATCH 09/21] fix: check and act under one lock (memory storage)

---
 internal/queue/storage/memory_storage.go | 29 +++++++++++++-----------
 1 file changed, 16 insertions(+), 13 deletions(-)

diff --git a/internal/queue/storage/memory_storage.go b/internal/queue/storage/memory_storage.go
index 5d21604..106fef7 100644
--- a/internal/queue/storage/memory_storage.go
+++ b/internal/queue/storage/memory_storage.go
@@ -39,6 +39,9 @@ func NewMemoryStorage(ctx context.Context) *MemoryStorage {
 }
 
 func (storage *MemoryStorage) ListQueueConfigurations(ctx context.Context) ([]*configuration.QueueConfiguration, error) {
+	storage.lock.RLock()
+	defer storage.lock.RUnlock()
+
 	configurations := make([]*configuration.QueueConfiguration, len(storage.configurations))
 
 	configurationIndex := 0
@@ -60,12 +63,18 @@ func (storage *MemoryStorage) EditQueueConfiguration(_ context.Context, configur
 		configuration.MaxElements = 0
 	}
 
+	storage.lock.Lock()
+	defer storage.lock.Unlock()
+
 	storage.configurations[configuration.Queue] = configuration
 
 	return nil
 }
 
 func (storage *MemoryStorage) GetQueueConfiguration(_ context.Context, queue string) (*configuration.QueueConfiguration, error) {
+	storage.lock.RLock()
+	defer storage.lock.RUnlock()
+
 	return storage.configurations[queue], nil
 }
 
@@ -97,11 +106,8 @@ func (storage *MemoryStorage) Insert(_ context.Context, messages ...*message.Mes
 
 		key := getKey(messages[i])
 
-		storage.lock.RLock()
-		_, present := storage.docs[key]
-		storage.lock.RUnlock()
-
 		storage.lock.Lock()
+		_, present := storage.docs[key]
 		if present {
 			modified++
 
@@ -324,15 +330,15 @@ func (storage *MemoryStorage) Remove(_ context.Context, queue string, ids ...str
 }
 
 func (storage *MemoryStorage) Ack(_ context.Context, msg *message.Message) (modifiedCount int64, err error) {
-	storage.lock.RLock()
+	storage.lock.Lock()
+	defer storage.lock.Unlock()
+
 	value, contains := storage.docs[getKey(msg)]
-	storage.lock.RUnlock()
 
 	if !contains {
 		return 0, nil
 	}
 
-	storage.lock.Lock()
 	value.TotalScoreSubtract += msg.LastScoreSubtract
 	value.UsageCount += 1
 	value.LastUsage = msg.LastUsage
@@ -347,21 +353,19 @@ func (storage *MemoryStorage) Ack(_ context.Context, msg *message.Message) (modi
 	*value.Diagnostics.ConsecutiveAcks = *value.Diagnostics.ConsecutiveAcks + 1
 	*value.Diagnostics.ConsecutiveNacks = 0
 
-	storage.lock.Unlock()
-
 	return 1, nil
 }
 
 func (storage *MemoryStorage) Nack(_ context.Context, msg *message.Message) (modifiedCount int64, err error) {
-	storage.lock.RLock()
+	storage.lock.Lock()
+	defer storage.lock.Unlock()
+
 	value, contains := storage.docs[getKey(msg)]
-	storage.lock.RUnlock()
 
 	if !contains {
 		return 0, nil
 	}
 
-	storage.lock.Lock()
 	value.Score = msg.Score
 	value.LockMs = msg.LockMs
 
@@ -370,7 +374,6 @@ func (storage *MemoryStorage) Nack(_ context.Context, msg *message.Message) (mod
 	*value.Diagnostics.Nacks = *value.Diagnostics.Nacks + 1
 	*value.Diagnostics.ConsecutiveNacks = *value.Diagnostics.ConsecutiveNacks + 1
 	*value.Diagnostics.ConsecutiveAcks = 0
-	storage.lock.Unlock()
 
 	return 1, nil
 }
-- 
2.43.0


From 6e36871c82db978e2c5a3a202f16130d0a553fa2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:28:58 +0000
Subject: [PATCH 10/21] fix: count a removed message once when its id is given
 twice (memory storage)

---
 internal/queue/storage/memory_storage.go | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/internal/queue/storage/memory_storage.go b/internal/queue/storage/memory_storage.go
index 106fef7..ca8170e 100644
--- a/internal/queue/storage/memory_storage.go
+++ b/internal/queue/storage/memory_storage.go
@@ -321,6 +321,8 @@ func (storage *MemoryStorage) Remove(_ context.Context, queue string, ids ...str
 				delete(storage.docs, key)
 
 				count++
+
+				break
 			}
 		}
 	}
-- 
2.43.0


From 7a1c3c2308dec17cf62156ec14948f2903f9d6ca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:29:11 +0000
Subject: [PATCH 11/21] fix: keep the score requested by a nack without a lock

---
 internal/queue/queue.go | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/internal/queue/queue.go b/internal/queue/queue.go
index 9e54731..46be8cf 100644
--- a/internal/queue/queue.go
+++ b/internal/queue/queue.go
@@ -205,7 +205,9 @@ func (pool *Queue) Nack(ctx context.Context, msg *message.Message, timestamp tim
 		return result, nil
 	}
 
-	msg.Score = score.Min
+	if score.IsUndefined(msg.Score) {
+		msg.Score = score.Min
+	}
 
 	result, err := pool.cache.MakeAvailable(ctx, msg)
 
-- 
2.43.0


From 8f7ebc39cc84a44f1ae8af53c5940f0c4771c7ad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:29:29 +0000
Subject: [PATCH 12/21] fix: cap the score of an ack or nack request and treat
 a negative lock as none

---
 internal/service/deckard_service.go | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/internal/service/deckard_service.go b/internal/service/deckard_service.go
index 2b150dd..efda798 100644
--- a/internal/service/deckard_service.go
+++ b/internal/service/deckard_service.go
@@ -565,12 +565,12 @@ func (d *Deckard) Ack(ctx context.Context, request *deckard.AckRequest) (*deckar
 	// On unlock process the score is computed by the default algorithm if the score is not set
 	newScore := score.Undefined
 	if request.Score != 0 {
-		newScore = request.Score
+		newScore = score.GetAddScore(request.Score)
 
-	} else if request.LockMs == 0 {
+	} else if request.LockMs <= 0 {
 		newScore = score.GetScoreByDefaultAlgorithm() - request.ScoreSubtract
 
-		if newScore < score.Min {
+		if !(newScore >= score.Min) { // also true for NaN
 			newScore = score.Min
 		} else if newScore > score.Max {
 			newScore = score.Max
@@ -614,9 +614,9 @@ func (d *Deckard) Nack(ctx context.Context, request *deckard.AckRequest) (*decka
 	// On unlock process the minimum score will be used if the score is not set
 	newScore := score.Undefined
 	if request.Score != 0 {
-		newScore = request.Score
+		newScore = score.GetAddScore(request.Score)
 
-	} else if request.LockMs == 0 {
+	} else if request.LockMs <= 0 {
 		newScore = score.Min
 	}
 
-- 
2.43.0


From 008bb2cfe7627975142a831e6b76f91b11072421 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:29:41 +0000
Subject: [PATCH 13/21] fix: cap the time to live of an added message instead
 of overflowing

---
 internal/service/deckard_service.go | 16 +++++++++++++++-
 1 file changed, 15 insertions(+), 1 deletion(-)

diff --git a/internal/service/deckard_service.go b/internal/service/deckard_service.go
index efda798..709cdad 100644
--- a/internal/service/deckard_service.go
+++ b/internal/service/deckard_service.go
@@ -6,6 +6,7 @@ import (
 	"crypto/x509"
 	"fmt"
 	"io/ioutil"
+	"math"
 	"net"
 	"strings"
 	"time"
@@ -322,7 +323,7 @@ func (d *Deckard) Add(ctx context.Context, request *deckard.AddRequest) (*deckar
 		t := dtime.Now()
 
 		if m.TtlMinutes != 0 {
-			t = t.Add(time.Minute * time.Duration(m.TtlMinutes))
+			t = t.Add(ttlDuration(m.TtlMinutes))
 		}
 
 		if m.Timeless {
@@ -383,6 +384,19 @@ func (d *Deckard) Add(ctx context.Context, request *deckard.AddRequest) (*deckar
 	}, nil
 }
 
+// ttlDuration returns the given minutes as a duration, capped to the whole minutes a duration can hold
+func ttlDuration(minutes int64) time.Duration {
+	const max = int64(math.MaxInt64 / time.Minute)
+
+	if minutes > max {
+		minutes = max
+	} else if minutes < -max {
+		minutes = -max
+	}
+
+	return time.Minute * time.Duration(minutes)
+}
+
 func (d *Deckard) Pull(ctx context.Context, request *deckard.PullRequest) (*deckard.PullResponse, error) {
 	amount := int64(request.Amount)
 
-- 
2.43.0


From 21ad38dfc0f67e04cef4a6e1aa643283f8204791 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:30:07 +0000
Subject: [PATCH 14/21] fix: refuse to start without TLS when only a
 certificate or only a key is configured

---
 internal/service/deckard_service.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/internal/service/deckard_service.go b/internal/service/deckard_service.go
index 709cdad..5055706 100644
--- a/internal/service/deckard_service.go
+++ b/internal/service/deckard_service.go
@@ -134,7 +134,7 @@ func loadTLSCredentials() (credentials.TransportCredentials, error) {
 	certPath := config.TlsServerCertFilePaths.Get()
 	keyPath := config.TlsServerKeyFilePaths.Get()
 
-	if certPath == "" || keyPath == "" {
+	if certPath == "" && keyPath == "" {
 		return nil, nil
 	}
 
-- 
2.43.0


From 398fc5d63980fb44d2f12425f610b493e8e8fade Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:15:11 +0000
Subject: [PATCH 15/21] fix: start no housekeeping task once a shutdown is
 ongoing

The scheduler could pick its timer after the shutdown had started and already
waited for its wait group, and run a task nobody waits for.
---
 internal/cmd/deckard/main.go | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/internal/cmd/deckard/main.go b/internal/cmd/deckard/main.go
index dde6b5c..002fa44 100644
--- a/internal/cmd/deckard/main.go
+++ b/internal/cmd/deckard/main.go
@@ -204,6 +204,13 @@ func scheduleTask(taskName string, lock *sync.Mutex, taskWaitGroup *sync.WaitGro
 		select {
 		case <-time.After(duration):
 			taskWaitGroup.Add(1)
+			// The shutdown may have started in the meantime and may no longer wait for this task
+			if shutdown.Ongoing() {
+				taskWaitGroup.Done()
+
+				return
+			}
+
 			if lock != nil {
 				lock.Lock()
 			}
-- 
2.43.0


From 2b5712a8af19bb97ffa7247f3f6fe28129ddec37 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:16:20 +0000
Subject: [PATCH 16/21] fix: keep the audit channel open during shutdown and
 send what is buffered

Work that the shutdown still waits for stores audit entries; with the channel
closed that crashed the process, and buffered entries were dropped.
---
 internal/audit/audit.go | 15 ++++++++++++---
 1 file changed, 12 insertions(+), 3 deletions(-)

diff --git a/internal/audit/audit.go b/internal/audit/audit.go
index 1263d61..9d60928 100644
--- a/internal/audit/audit.go
+++ b/internal/audit/audit.go
@@ -132,11 +132,20 @@ func (a *AuditorImpl) StartSender(ctx context.Context) {
 		case <-ctx.Done():
 			zap.S().Info("Sending remaining audit data.")
 
-			close(a.entries)
+			// The channel stays open: work that is still finishing may store entries.
+			for {
+				select {
+				case entry := <-a.entries:
+					entriesToSend = append(entriesToSend, entry)
 
-			a.send(ctx, entriesToSend...)
+					continue
+				default:
+				}
 
-			return
+				a.send(ctx, entriesToSend...)
+
+				return
+			}
 		}
 	}
 }
-- 
2.43.0


From fc6c70750ee63807b75f9d9f440cd7f768b080fa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:42:02 +0000
Subject: [PATCH 17/21] fix: memory storage shared its messages and their
 counters with its callers, a data race with ack and nack

---
 internal/queue/storage/memory_storage.go | 31 ++++++++++++++++++++++--
 1 file changed, 29 insertions(+), 2 deletions(-)

diff --git a/internal/queue/storage/memory_storage.go b/internal/queue/storage/memory_storage.go
index ca8170e..9cb1e37 100644
--- a/internal/queue/storage/memory_storage.go
+++ b/internal/queue/storage/memory_storage.go
@@ -123,7 +123,9 @@ func (storage *MemoryStorage) Insert(_ context.Context, messages ...*message.Mes
 			messages[i].InternalId = storage.internalCounter
 			now := dtime.Now()
 			messages[i].LastUsage = &now
-			storage.docs[key] = messages[i]
+
+			stored := copyMessage(messages[i])
+			storage.docs[key] = &stored
 		}
 
 		storage.lock.Unlock()
@@ -259,7 +261,7 @@ func (storage *MemoryStorage) Find(_ context.Context, opt *FindOptions) ([]messa
 		}
 
 		if matches {
-			messages = append(messages, *storage.docs[k])
+			messages = append(messages, copyMessage(storage.docs[k]))
 		}
 	}
 
@@ -420,6 +422,31 @@ func (storage *MemoryStorage) Close(ctx context.Context) error {
 	return nil
 }
 
+// copyMessage copies a message with its counters, which Ack and Nack change in place:
+// a stored message is never shared with the callers of the storage.
+func copyMessage(value *message.Message) message.Message {
+	result := *value
+
+	if value.Diagnostics != nil {
+		result.Diagnostics = &message.MessageDiagnostics{
+			Acks:             copyCounter(value.Diagnostics.Acks),
+			Nacks:            copyCounter(value.Diagnostics.Nacks),
+			ConsecutiveAcks:  copyCounter(value.Diagnostics.ConsecutiveAcks),
+			ConsecutiveNacks: copyCounter(value.Diagnostics.ConsecutiveNacks),
+		}
+	}
+
+	return result
+}
+
+func copyCounter(value *int64) *int64 {
+	if value == nil {
+		return nil
+	}
+
+	return utils.Int64Ptr(*value)
+}
+
 func setDiagnosticsStruct(value *message.Message) {
 	if value.Diagnostics == nil {
 		value.Diagnostics = &message.MessageDiagnostics{
-- 
2.43.0


From e9452d7cd0ab3ceb5243bb3dc42acde70eaff6a3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:35:57 +0000
Subject: [PATCH 18/21] fix: a queue configuration read from storage before an
 edit could be remembered after it

---
 internal/queue/queue_configuration_service.go | 40 ++++++++++++++-----
 1 file changed, 30 insertions(+), 10 deletions(-)

diff --git a/internal/queue/queue_configuration_service.go b/internal/queue/queue_configuration_service.go
index fe02e30..a13751f 100644
--- a/internal/queue/queue_configuration_service.go
+++ b/internal/queue/queue_configuration_service.go
@@ -2,6 +2,7 @@ package queue
 
 import (
 	"context"
+	"sync"
 	"time"
 
 	"github.com/patrickmn/go-cache"
@@ -17,6 +18,12 @@ type QueueConfigurationService interface {
 type DefaultQueueConfigurationService struct {
 	storage    storage.Storage
 	localCache *cache.Cache
+
+	// edits counts the finished edits, so that a configuration read from the storage
+	// before the end of an edit is not remembered after it. Guarded by lock, as is
+	// filling the local cache.
+	edits int64
+	lock  sync.Mutex
 }
 
 func NewQueueConfigurationService(_ context.Context, storage storage.Storage) *DefaultQueueConfigurationService {
@@ -41,20 +48,23 @@ func (queueService *DefaultQueueConfigurationService) EditQueueConfiguration(ctx
 
 	config, found := queueService.localCache.Get(cfg.Queue)
 
-	if !found {
-		return queueService.storage.EditQueueConfiguration(ctx, cfg)
+	// Check if the new configuration is different
+	if found && config.(*configuration.QueueConfiguration).MaxElements == cfg.MaxElements {
+		return nil
 	}
 
-	cacheConfiguration := config.(*configuration.QueueConfiguration)
+	defer queueService.forget(cfg.Queue)
 
-	// Check if the new configuration is different
-	if cacheConfiguration.MaxElements != cfg.MaxElements {
-		defer queueService.localCache.Delete(cfg.Queue)
+	return queueService.storage.EditQueueConfiguration(ctx, cfg)
+}
 
-		return queueService.storage.EditQueueConfiguration(ctx, cfg)
-	}
+// forget drops the local configuration of an edited queue
+func (queueService *DefaultQueueConfigurationService) forget(queue string) {
+	queueService.lock.Lock()
+	defer queueService.lock.Unlock()
 
-	return nil
+	queueService.edits++
+	queueService.localCache.Delete(queue)
 }
 
 func (queueService *DefaultQueueConfigurationService) GetQueueConfiguration(ctx context.Context, queue string) (*configuration.QueueConfiguration, error) {
@@ -64,6 +74,10 @@ func (queueService *DefaultQueueConfigurationService) GetQueueConfiguration(ctx
 		return cacheConfig.(*configuration.QueueConfiguration), nil
 	}
 
+	queueService.lock.Lock()
+	edits := queueService.edits
+	queueService.lock.Unlock()
+
 	var err error
 	var config *configuration.QueueConfiguration
 
@@ -79,7 +93,13 @@ func (queueService *DefaultQueueConfigurationService) GetQueueConfiguration(ctx
 		}
 	}
 
-	queueService.localCache.Set(queue, config, cache.DefaultExpiration)
+	queueService.lock.Lock()
+	defer queueService.lock.Unlock()
+
+	// an edit may have changed the stored configuration since it was read
+	if queueService.edits == edits {
+		queueService.localCache.Set(queue, config, cache.DefaultExpiration)
+	}
 
 	return config, nil
 }
-- 
2.43.0


From 59c8486a444cdd518b5a25c179636869344d891f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:35:57 +0000
Subject: [PATCH 19/21] fix: memory storage ignored the later sort keys on ties
 and could not sort by last usage

---
 internal/queue/storage/memory_storage.go | 94 ++++++++++++++++--------
 1 file changed, 65 insertions(+), 29 deletions(-)

diff --git a/internal/queue/storage/memory_storage.go b/internal/queue/storage/memory_storage.go
index 9cb1e37..4c3a2a1 100644
--- a/internal/queue/storage/memory_storage.go
+++ b/internal/queue/storage/memory_storage.go
@@ -7,8 +7,8 @@ import (
 	"sort"
 	"strconv"
 	"sync"
-	"time"
 
+	"github.com/elliotchance/orderedmap/v2"
 	"github.com/takenet/deckard/internal/dtime"
 	"github.com/takenet/deckard/internal/queue/configuration"
 	"github.com/takenet/deckard/internal/queue/message"
@@ -267,34 +267,7 @@ func (storage *MemoryStorage) Find(_ context.Context, opt *FindOptions) ([]messa
 
 	if opt != nil && opt.Sort != nil {
 		sort.SliceStable(messages, func(i, j int) bool {
-			for _, key := range (*opt.Sort).Keys() {
-				value, _ := (*opt.Sort).Get(key)
-
-				switch key {
-				case "expiry_date":
-					if (messages[i].ExpiryDate != time.Time{} || messages[j].ExpiryDate != time.Time{}) {
-						if value == -1 {
-							return messages[i].ExpiryDate.After(messages[j].ExpiryDate)
-						}
-
-						return messages[i].ExpiryDate.Before(messages[j].ExpiryDate)
-					}
-				case "score":
-					if value == -1 {
-						return messages[i].Score > messages[j].Score
-					}
-
-					return messages[i].Score < messages[j].Score
-				case "_id":
-					if value == -1 {
-						return messages[i].InternalId.(int64) > messages[j].InternalId.(int64)
-					}
-
-					return messages[i].InternalId.(int64) < messages[j].InternalId.(int64)
-				}
-			}
-
-			return messages[i].InternalId.(int64) < messages[j].InternalId.(int64)
+			return comesBefore(opt.Sort, &messages[i], &messages[j])
 		})
 	}
 
@@ -305,6 +278,69 @@ func (storage *MemoryStorage) Find(_ context.Context, opt *FindOptions) ([]messa
 	return messages, nil
 }
 
+// comesBefore tells if first is ordered before second: messages that tie on a sort key are ordered
+// by the next one, and by their internal id when they tie on all.
+func comesBefore(order *orderedmap.OrderedMap[string, int], first *message.Message, second *message.Message) bool {
+	for _, key := range order.Keys() {
+		result := compareByKey(key, first, second)
+		if result == 0 {
+			continue
+		}
+
+		direction, _ := order.Get(key)
+		if direction == -1 {
+			return result > 0
+		}
+
+		return result < 0
+	}
+
+	return compareByKey("_id", first, second) < 0
+}
+
+// compareByKey compares two messages by a sort key: negative when first is lower, zero when they tie.
+// An absent last usage is lower than any other, as in the other storages.
+func compareByKey(key string, first *message.Message, second *message.Message) int {
+	switch key {
+	case "expiry_date":
+		return first.ExpiryDate.Compare(second.ExpiryDate)
+	case "last_usage":
+		if first.LastUsage == nil || second.LastUsage == nil {
+			if first.LastUsage == second.LastUsage {
+				return 0
+			}
+
+			if first.LastUsage == nil {
+				return -1
+			}
+
+			return 1
+		}
+
+		return first.LastUsage.Compare(*second.LastUsage)
+	case "score":
+		if first.Score < second.Score {
+			return -1
+		}
+
+		if first.Score > second.Score {
+			return 1
+		}
+	case "_id":
+		firstId, secondId := first.InternalId.(int64), second.InternalId.(int64)
+
+		if firstId < secondId {
+			return -1
+		}
+
+		if firstId > secondId {
+			return 1
+		}
+	}
+
+	return 0
+}
+
 func isExpired(message *message.Message) bool {
 	return !message.Timeless && (message.ExpiryDate.Before(dtime.Now()) || message.ExpiryDate.Equal(dtime.Now()))
 }
-- 
2.43.0


From 8f23bc0ca851612eaf447b6eb0d987027e98484d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:29:58 +0000
Subject: [PATCH 20/21] fix: queues whose name ends like a pool suffix were
 missing from the Redis queue listing

(cherry picked from commit bcaea21afbd7dd1fcbd8fd4597ddce72dd01579c)
---
 internal/queue/cache/redis_cache.go | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/internal/queue/cache/redis_cache.go b/internal/queue/cache/redis_cache.go
index ab6e66a..390eeb8 100644
--- a/internal/queue/cache/redis_cache.go
+++ b/internal/queue/cache/redis_cache.go
@@ -431,12 +431,13 @@ func (cache *RedisCache) ListQueues(ctx context.Context, pattern string, poolTyp
 		regex = LOCK_NACK_POOL_REGEX
 	}
 
-	for i, queue := range data {
-		data[i] = cache.parseQueueKey(queue, regex)
+	// A pool suffix can only be told apart in the raw key: the name of a queue may end like one.
+	if pool.PRIMARY_POOL == poolType {
+		data = filterQueueSuffix(data)
 	}
 
-	if pool.PRIMARY_POOL == poolType {
-		return filterQueueSuffix(uniqStrings(data)), nil
+	for i, queue := range data {
+		data[i] = cache.parseQueueKey(queue, regex)
 	}
 
 	return uniqStrings(data), nil
-- 
2.43.0


From 40ee6c7b67e7671f74c144cd73e3447863118506 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:29:58 +0000
Subject: [PATCH 21/21] fix: messages of queues the cache refuses were left in
 the storage

A queue name with braces is refused by the Redis cache, but only after its
messages were stored: they could never be delivered, and every recovery of the
cache failed on them.
---
 internal/queue/cache/cache.go       | 6 ++++++
 internal/queue/cache/redis_cache.go | 6 ++++++
 internal/queue/queue.go             | 9 +++++++++
 3 files changed, 21 insertions(+)

diff --git a/internal/queue/cache/cache.go b/internal/queue/cache/cache.go
index e28a3f7..2538213 100644
--- a/internal/queue/cache/cache.go
+++ b/internal/queue/cache/cache.go
@@ -61,6 +61,12 @@ type Cache interface {
 	Close(ctx context.Context) error
 }
 
+// QueueNameValidator is implemented by caches that cannot hold every queue name.
+type QueueNameValidator interface {
+	// Returns an error when messages of the queue would be refused by the cache.
+	ValidateQueueName(queue string) error
+}
+
 func CreateCache(ctx context.Context, cacheType Type) (Cache, error) {
 	switch cacheType {
 	case REDIS:
diff --git a/internal/queue/cache/redis_cache.go b/internal/queue/cache/redis_cache.go
index 390eeb8..b8ce719 100644
--- a/internal/queue/cache/redis_cache.go
+++ b/internal/queue/cache/redis_cache.go
@@ -43,6 +43,7 @@ type RedisCache struct {
 }
 
 var _ Cache = &RedisCache{}
+var _ QueueNameValidator = &RedisCache{}
 
 const (
 	pullElement          = "pull"
@@ -904,6 +905,11 @@ func (cache *RedisCache) validateQueueName(queue string) error {
 	return nil
 }
 
+// ValidateQueueName tells why messages of a queue cannot be cached, or nil when they can.
+func (cache *RedisCache) ValidateQueueName(queue string) error {
+	return cache.validateQueueName(queue)
+}
+
 // activePool returns the name of the active pool of messages.
 func (cache *RedisCache) activePool(queue string) string {
 	return cache.poolPrefix() + "{" + queue + "}"
diff --git a/internal/queue/queue.go b/internal/queue/queue.go
index 46be8cf..f620922 100644
--- a/internal/queue/queue.go
+++ b/internal/queue/queue.go
@@ -94,6 +94,9 @@ func (pool *Queue) GetStorageMessages(ctx context.Context, opt *storage.FindOpti
 func (pool *Queue) AddMessagesToStorage(ctx context.Context, messages ...*message.Message) (inserted int64, updated int64, err error) {
 	queues := make(map[string]bool)
 
+	// A message the cache would refuse must not be stored: it could never be delivered and would break the recovery.
+	validator, validates := pool.cache.(cache.QueueNameValidator)
+
 	for i := range messages {
 		message := messages[i]
 
@@ -104,6 +107,12 @@ func (pool *Queue) AddMessagesToStorage(ctx context.Context, messages ...*messag
 		}
 
 		queues[queueName] = true
+
+		if validates {
+			if err := validator.ValidateQueueName(queueName); err != nil {
+				return 0, 0, fmt.Errorf("error inserting storage data: %w", err)
+			}
+		}
 	}
 
 	insertions, updates, err := pool.storage.Insert(ctx, messages...)
-- 
2.43.0

