From 29973e4badf2b9d1f46edf40714251de7e79837e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:11:22 +0000
Subject: [PATCH 01/39] fix: count the memory cache's ack deadline in
 milliseconds

---
 internal/queue/cache/memory_cache.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/internal/queue/cache/memory_cache.go b/internal/queue/cache/memory_cache.go
index f9d0135..5bd3581 100644
--- a/internal/queue/cache/memory_cache.go
+++ b/internal/queue/cache/memory_cache.go
@@ -279,7 +279,7 @@ func (cache *MemoryCache) PullMessages(ctx context.Context, queue string, n int6
 
 		processingEntry := &MemoryMessageEntry{
 			id:    entry.id,
-			score: float64(dtime.Now().Unix() + ackDeadlineMs),
+			score: float64(dtime.NowMs() + ackDeadlineMs),
 		}
 
 		cache.processingQueues[queue], _ = insertEntry(processingEntry, cache.processingQueues[queue])
@@ -302,7 +302,7 @@ func (cache *MemoryCache) TimeoutMessages(_ context.Context, queue string) (ids
 		return nil, nil
 	}
 
-	timeoutTime := dtime.Now().Unix()
+	timeoutTime := dtime.NowMs()
 
 	count := int64(0)
 
-- 
2.43.0


From ab9ad8c5fe30b6dc74dbcd4e9a735d42ae766e99 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:11:34 +0000
Subject: [PATCH 02/39] fix: let the memory cache's timeout and unlock sweeps
 handle every due message

---
 internal/queue/cache/memory_cache.go | 14 +++++++++++---
 1 file changed, 11 insertions(+), 3 deletions(-)

diff --git a/internal/queue/cache/memory_cache.go b/internal/queue/cache/memory_cache.go
index 5bd3581..87d264f 100644
--- a/internal/queue/cache/memory_cache.go
+++ b/internal/queue/cache/memory_cache.go
@@ -227,11 +227,15 @@ func (cache *MemoryCache) UnlockMessages(ctx context.Context, queue string, lock
 			continue
 		}
 
-		for e := list.Front(); e != nil; e = e.Next() {
+		for e := list.Front(); e != nil; {
 			value := e.Value.(*MemoryMessageEntry)
 
+			// removing the element clears its next pointer
+			current := e
+			e = e.Next()
+
 			if nowMs >= int64(value.lockUntil) {
-				list.Remove(e)
+				list.Remove(current)
 
 				if score.IsUndefined(value.score) {
 					value.score = defaultScore
@@ -307,7 +311,11 @@ func (cache *MemoryCache) TimeoutMessages(_ context.Context, queue string) (ids
 	count := int64(0)
 
 	result := make([]string, 0)
-	for e := cache.processingQueues[queue].Front(); e != nil; e = e.Next() {
+	var next *list.Element
+	for e := cache.processingQueues[queue].Front(); e != nil; e = next {
+		// removing the element clears its next pointer
+		next = e.Next()
+
 		value := e.Value.(*MemoryMessageEntry)
 
 		if value.score <= float64(timeoutTime) {
-- 
2.43.0


From 33160fc3b4e213dbb0c1c557a03f412917f58a50 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:11:49 +0000
Subject: [PATCH 03/39] fix: unlock only the requested queue in the memory
 cache

---
 internal/queue/cache/memory_cache.go | 34 +++++++++++++---------------
 1 file changed, 16 insertions(+), 18 deletions(-)

diff --git a/internal/queue/cache/memory_cache.go b/internal/queue/cache/memory_cache.go
index 87d264f..9e6d7c2 100644
--- a/internal/queue/cache/memory_cache.go
+++ b/internal/queue/cache/memory_cache.go
@@ -220,31 +220,29 @@ func (cache *MemoryCache) UnlockMessages(ctx context.Context, queue string, lock
 	nowMs := dtime.NowMs()
 
 	unlockedMessages := make([]string, 0)
-	for queue := range data {
-		list := data[queue]
 
-		if list == nil {
-			continue
-		}
+	list := data[queue]
+	if list == nil {
+		return unlockedMessages, nil
+	}
 
-		for e := list.Front(); e != nil; {
-			value := e.Value.(*MemoryMessageEntry)
+	for e := list.Front(); e != nil; {
+		value := e.Value.(*MemoryMessageEntry)
 
-			// removing the element clears its next pointer
-			current := e
-			e = e.Next()
+		// removing the element clears its next pointer
+		current := e
+		e = e.Next()
 
-			if nowMs >= int64(value.lockUntil) {
-				list.Remove(current)
+		if nowMs >= int64(value.lockUntil) {
+			list.Remove(current)
 
-				if score.IsUndefined(value.score) {
-					value.score = defaultScore
-				}
+			if score.IsUndefined(value.score) {
+				value.score = defaultScore
+			}
 
-				cache.queues[queue], _ = insertEntry(value, cache.queues[queue])
+			cache.queues[queue], _ = insertEntry(value, cache.queues[queue])
 
-				unlockedMessages = append(unlockedMessages, value.id)
-			}
+			unlockedMessages = append(unlockedMessages, value.id)
 		}
 	}
 
-- 
2.43.0


From 4f4177d0c4e21493d71947f706322402e54036e0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:11:58 +0000
Subject: [PATCH 04/39] fix: do not count filtered out messages as pulled in
 the memory cache

---
 internal/queue/cache/memory_cache.go | 17 ++++++-----------
 1 file changed, 6 insertions(+), 11 deletions(-)

diff --git a/internal/queue/cache/memory_cache.go b/internal/queue/cache/memory_cache.go
index 9e6d7c2..539214d 100644
--- a/internal/queue/cache/memory_cache.go
+++ b/internal/queue/cache/memory_cache.go
@@ -265,20 +265,19 @@ func (cache *MemoryCache) PullMessages(ctx context.Context, queue string, n int6
 
 	result := make([]string, 0, utils.MinInt64(n, total))
 
-	filteredOut := make([]*MemoryMessageEntry, 0)
-	for i := int64(0); i < n && i < total && cache.queues[queue].Len() != 0; i++ {
-		element := cache.queues[queue].Front()
-
+	for element := cache.queues[queue].Front(); element != nil && int64(len(result)) < n; {
 		entry := element.Value.(*MemoryMessageEntry)
 
-		cache.queues[queue], _ = removeEntry(entry, cache.queues[queue])
+		// removing the element clears its next pointer
+		current := element
+		element = element.Next()
 
 		if minScore != nil && entry.score < *minScore || maxScore != nil && entry.score > *maxScore {
-			filteredOut = append(filteredOut, entry)
-
 			continue
 		}
 
+		cache.queues[queue].Remove(current)
+
 		processingEntry := &MemoryMessageEntry{
 			id:    entry.id,
 			score: float64(dtime.NowMs() + ackDeadlineMs),
@@ -289,10 +288,6 @@ func (cache *MemoryCache) PullMessages(ctx context.Context, queue string, n int6
 		result = append(result, entry.id)
 	}
 
-	for _, entry := range filteredOut {
-		cache.queues[queue], _ = insertEntry(entry, cache.queues[queue])
-	}
-
 	return result, nil
 }
 
-- 
2.43.0


From b6d56d62094bff127948b0d5d84e369719633cb3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:12:34 +0000
Subject: [PATCH 05/39] fix: cap the scores requested by ack and nack to the
 accepted range

---
 internal/queue/score/score.go       | 21 +++++++++++++++++++++
 internal/service/deckard_service.go | 14 ++++----------
 2 files changed, 25 insertions(+), 10 deletions(-)

diff --git a/internal/queue/score/score.go b/internal/queue/score/score.go
index 18f1242..4b4020c 100644
--- a/internal/queue/score/score.go
+++ b/internal/queue/score/score.go
@@ -79,6 +79,27 @@ func GetAddScore(addRequestScore float64) float64 {
 	return addRequestScore
 }
 
+// GetAckScore results in the score requested by an ack or nack request.
+//
+// If the requestScore is 0 the score was not provided and the result is Undefined.
+//
+// The maximum score accepted by Deckard is 9007199254740992 and the minimum is 0, so the requestScore will be capped to these values.
+func GetAckScore(requestScore float64) float64 {
+	if requestScore == 0 {
+		return Undefined
+	}
+
+	if requestScore < Min {
+		return Min
+	}
+
+	if requestScore > Max {
+		return Max
+	}
+
+	return requestScore
+}
+
 // GetScoreByDefaultAlgorithm returns the score using the default algorithm.
 // The default score is the current timestamp in milliseconds.
 func GetScoreByDefaultAlgorithm() float64 {
diff --git a/internal/service/deckard_service.go b/internal/service/deckard_service.go
index 2b150dd..c8f9185 100644
--- a/internal/service/deckard_service.go
+++ b/internal/service/deckard_service.go
@@ -563,11 +563,8 @@ func (d *Deckard) Ack(ctx context.Context, request *deckard.AckRequest) (*deckar
 
 	// Should set the new score only when not locking the message or if score is provided
 	// On unlock process the score is computed by the default algorithm if the score is not set
-	newScore := score.Undefined
-	if request.Score != 0 {
-		newScore = request.Score
-
-	} else if request.LockMs == 0 {
+	newScore := score.GetAckScore(request.Score)
+	if score.IsUndefined(newScore) && request.LockMs == 0 {
 		newScore = score.GetScoreByDefaultAlgorithm() - request.ScoreSubtract
 
 		if newScore < score.Min {
@@ -612,11 +609,8 @@ func (d *Deckard) Nack(ctx context.Context, request *deckard.AckRequest) (*decka
 
 	// Should set the new score only when not locking the message or if score is provided
 	// On unlock process the minimum score will be used if the score is not set
-	newScore := score.Undefined
-	if request.Score != 0 {
-		newScore = request.Score
-
-	} else if request.LockMs == 0 {
+	newScore := score.GetAckScore(request.Score)
+	if score.IsUndefined(newScore) && request.LockMs == 0 {
 		newScore = score.Min
 	}
 
-- 
2.43.0


From 0084eaca10ac6d29214935ff4f60d7d57023f084 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:12:48 +0000
Subject: [PATCH 06/39] fix: treat a negative lock time like no lock when
 choosing the score of an ack or nack

---
 internal/service/deckard_service.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/internal/service/deckard_service.go b/internal/service/deckard_service.go
index c8f9185..2545898 100644
--- a/internal/service/deckard_service.go
+++ b/internal/service/deckard_service.go
@@ -564,7 +564,7 @@ func (d *Deckard) Ack(ctx context.Context, request *deckard.AckRequest) (*deckar
 	// Should set the new score only when not locking the message or if score is provided
 	// On unlock process the score is computed by the default algorithm if the score is not set
 	newScore := score.GetAckScore(request.Score)
-	if score.IsUndefined(newScore) && request.LockMs == 0 {
+	if score.IsUndefined(newScore) && request.LockMs <= 0 {
 		newScore = score.GetScoreByDefaultAlgorithm() - request.ScoreSubtract
 
 		if newScore < score.Min {
@@ -610,7 +610,7 @@ func (d *Deckard) Nack(ctx context.Context, request *deckard.AckRequest) (*decka
 	// Should set the new score only when not locking the message or if score is provided
 	// On unlock process the minimum score will be used if the score is not set
 	newScore := score.GetAckScore(request.Score)
-	if score.IsUndefined(newScore) && request.LockMs == 0 {
+	if score.IsUndefined(newScore) && request.LockMs <= 0 {
 		newScore = score.Min
 	}
 
-- 
2.43.0


From a14aa879126101eb43d27757a3fce44eb7653fdc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:12:51 +0000
Subject: [PATCH 07/39] fix: honour the score requested by a nack without lock

---
 internal/queue/queue.go | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/internal/queue/queue.go b/internal/queue/queue.go
index 9e54731..46be8cf 100644
--- a/internal/queue/queue.go
+++ b/internal/queue/queue.go
@@ -205,7 +205,9 @@ func (pool *Queue) Nack(ctx context.Context, msg *message.Message, timestamp tim
 		return result, nil
 	}
 
-	msg.Score = score.Min
+	if score.IsUndefined(msg.Score) {
+		msg.Score = score.Min
+	}
 
 	result, err := pool.cache.MakeAvailable(ctx, msg)
 
-- 
2.43.0


From 257221e572396d8223b7e241d8c64483b0e7a6ef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:13:05 +0000
Subject: [PATCH 08/39] fix: ignore scores that are not a number

---
 internal/queue/score/score.go       | 17 +++++++++--------
 internal/service/deckard_service.go |  7 ++++++-
 2 files changed, 15 insertions(+), 9 deletions(-)

diff --git a/internal/queue/score/score.go b/internal/queue/score/score.go
index 4b4020c..f60cd0b 100644
--- a/internal/queue/score/score.go
+++ b/internal/queue/score/score.go
@@ -1,6 +1,7 @@
 package score
 
 import (
+	"math"
 	"time"
 
 	"github.com/takenet/deckard/internal/dtime"
@@ -13,12 +14,12 @@ var Min float64 = 0
 var Undefined float64 = -1
 
 // GetPullMaxScore returns the upper threshold priority filter for a pull request.
-// If the score is zero, it returns nil.
+// If the score is zero or not a number, it returns nil.
 // If the score is greater than Max, it returns Max.
 // If the score is less than Min, it returns Min.
 // Otherwise, it returns the score.
 func GetPullMaxScore(score float64) *float64 {
-	if score == 0 {
+	if score == 0 || math.IsNaN(score) {
 		return nil
 	}
 
@@ -34,12 +35,12 @@ func GetPullMaxScore(score float64) *float64 {
 }
 
 // GetPullMinScore returns the lower threshold priority filter for a pull request.
-// If the score is zero, it returns nil.
+// If the score is zero or not a number, it returns nil.
 // If the score is less than or equal to Min, it returns Min.
 // If the score is greater than Max, it returns Max.
 // Otherwise, it returns the score.
 func GetPullMinScore(score float64) *float64 {
-	if score == 0 {
+	if score == 0 || math.IsNaN(score) {
 		return nil
 	}
 
@@ -58,13 +59,13 @@ func GetPullMinScore(score float64) *float64 {
 //
 // requestScore: the requested score for the message
 //
-// If the requestScore is 0, the value will be set with the current timestamp in milliseconds.
+// If the requestScore is 0 or not a number, the value will be set with the current timestamp in milliseconds.
 //
 // The maximum score accepted by Deckard is 9007199254740992 and the minimum is 0, so the requestScore will be capped to these values.
 //
 // Negative scores are not allowed and will be converted to 0
 func GetAddScore(addRequestScore float64) float64 {
-	if addRequestScore == 0 {
+	if addRequestScore == 0 || math.IsNaN(addRequestScore) {
 		return GetScoreByDefaultAlgorithm()
 	}
 
@@ -81,11 +82,11 @@ func GetAddScore(addRequestScore float64) float64 {
 
 // GetAckScore results in the score requested by an ack or nack request.
 //
-// If the requestScore is 0 the score was not provided and the result is Undefined.
+// If the requestScore is 0 or not a number the score was not provided and the result is Undefined.
 //
 // The maximum score accepted by Deckard is 9007199254740992 and the minimum is 0, so the requestScore will be capped to these values.
 func GetAckScore(requestScore float64) float64 {
-	if requestScore == 0 {
+	if requestScore == 0 || math.IsNaN(requestScore) {
 		return Undefined
 	}
 
diff --git a/internal/service/deckard_service.go b/internal/service/deckard_service.go
index 2545898..ce3f35c 100644
--- a/internal/service/deckard_service.go
+++ b/internal/service/deckard_service.go
@@ -6,6 +6,7 @@ import (
 	"crypto/x509"
 	"fmt"
 	"io/ioutil"
+	"math"
 	"net"
 	"strings"
 	"time"
@@ -565,7 +566,11 @@ func (d *Deckard) Ack(ctx context.Context, request *deckard.AckRequest) (*deckar
 	// On unlock process the score is computed by the default algorithm if the score is not set
 	newScore := score.GetAckScore(request.Score)
 	if score.IsUndefined(newScore) && request.LockMs <= 0 {
-		newScore = score.GetScoreByDefaultAlgorithm() - request.ScoreSubtract
+		newScore = score.GetScoreByDefaultAlgorithm()
+
+		if !math.IsNaN(request.ScoreSubtract) {
+			newScore -= request.ScoreSubtract
+		}
 
 		if newScore < score.Min {
 			newScore = score.Min
-- 
2.43.0


From ef368a08cb33515b7448fedc2e78c2e7b2a5c84f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:13:08 +0000
Subject: [PATCH 09/39] fix: never report a score outside the accepted range

---
 internal/queue/score/score.go       | 14 ++++++++++++++
 internal/service/deckard_service.go |  4 ++--
 2 files changed, 16 insertions(+), 2 deletions(-)

diff --git a/internal/queue/score/score.go b/internal/queue/score/score.go
index f60cd0b..c772ea2 100644
--- a/internal/queue/score/score.go
+++ b/internal/queue/score/score.go
@@ -118,3 +118,17 @@ func GetScoreFromTime(time *time.Time) float64 {
 func IsUndefined(score float64) bool {
 	return score == Undefined
 }
+
+// GetReportedScore returns the score to report for a message with the given stored score.
+// A message locked without a requested score has an undefined score until it is unlocked.
+func GetReportedScore(storedScore float64) float64 {
+	if storedScore < Min {
+		return Min
+	}
+
+	if storedScore > Max {
+		return Max
+	}
+
+	return storedScore
+}
diff --git a/internal/service/deckard_service.go b/internal/service/deckard_service.go
index ce3f35c..8721b49 100644
--- a/internal/service/deckard_service.go
+++ b/internal/service/deckard_service.go
@@ -429,7 +429,7 @@ func (d *Deckard) Pull(ctx context.Context, request *deckard.PullRequest) (*deck
 		message := deckard.Message{
 			Id:            q.ID,
 			Queue:         q.Queue,
-			Score:         q.Score,
+			Score:         score.GetReportedScore(q.Score),
 			Breakpoint:    q.Breakpoint,
 			Payload:       q.Payload,
 			StringPayload: q.StringPayload,
@@ -529,7 +529,7 @@ func (d *Deckard) GetById(ctx context.Context, request *deckard.GetByIdRequest)
 		Id:            message.ID,
 		Description:   message.Description,
 		Queue:         message.Queue,
-		Score:         message.Score,
+		Score:         score.GetReportedScore(message.Score),
 		Breakpoint:    message.Breakpoint,
 		Payload:       message.Payload,
 		StringPayload: message.StringPayload,
-- 
2.43.0


From 51a5cdc1c900cbef36fb4f0cb9da69b8fd25a2eb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:13:30 +0000
Subject: [PATCH 10/39] fix: keep messages of different queues apart in the
 memory storage

---
 internal/queue/storage/memory_storage.go | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/internal/queue/storage/memory_storage.go b/internal/queue/storage/memory_storage.go
index d2b021e..24a9a0b 100644
--- a/internal/queue/storage/memory_storage.go
+++ b/internal/queue/storage/memory_storage.go
@@ -134,8 +134,10 @@ func (storage *MemoryStorage) GetStringInternalId(_ context.Context, message *me
 	return strconv.FormatInt(message.InternalId.(int64), 10)
 }
 
+// getKey identifies a message. The length of the queue name keeps keys of different queues apart
+// because queue names and ids can contain the separator.
 func getKey(message *message.Message) string {
-	return message.Queue + ":" + message.ID
+	return strconv.Itoa(len(message.Queue)) + ":" + message.Queue + ":" + message.ID
 }
 
 func (storage *MemoryStorage) Count(_ context.Context, findOpts *FindOptions, _ *CountOptions) (int64, error) {
-- 
2.43.0


From 9f243b87b6c6661eed3d5c591c5d1d5485e9c326 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:13:34 +0000
Subject: [PATCH 11/39] fix: store nothing of a request with an invalid message
 in the memory storage

---
 internal/queue/storage/memory_storage.go | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/internal/queue/storage/memory_storage.go b/internal/queue/storage/memory_storage.go
index 24a9a0b..eaa273c 100644
--- a/internal/queue/storage/memory_storage.go
+++ b/internal/queue/storage/memory_storage.go
@@ -94,7 +94,9 @@ func (storage *MemoryStorage) Insert(_ context.Context, messages ...*message.Mes
 		if messages[i].ID == "" {
 			return 0, 0, fmt.Errorf("message has a invalid ID")
 		}
+	}
 
+	for i := range messages {
 		key := getKey(messages[i])
 
 		storage.lock.RLock()
-- 
2.43.0


From 0bd6a20da0f1d707d13a9c329d452927fc32cde5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:14:13 +0000
Subject: [PATCH 12/39] fix: look up and change a message of the memory storage
 under one lock

---
 internal/queue/storage/memory_storage.go | 23 +++++++++--------------
 1 file changed, 9 insertions(+), 14 deletions(-)

diff --git a/internal/queue/storage/memory_storage.go b/internal/queue/storage/memory_storage.go
index eaa273c..5ff670a 100644
--- a/internal/queue/storage/memory_storage.go
+++ b/internal/queue/storage/memory_storage.go
@@ -96,14 +96,14 @@ func (storage *MemoryStorage) Insert(_ context.Context, messages ...*message.Mes
 		}
 	}
 
+	storage.lock.Lock()
+	defer storage.lock.Unlock()
+
 	for i := range messages {
 		key := getKey(messages[i])
 
-		storage.lock.RLock()
 		_, present := storage.docs[key]
-		storage.lock.RUnlock()
 
-		storage.lock.Lock()
 		if present {
 			modified++
 
@@ -121,8 +121,6 @@ func (storage *MemoryStorage) Insert(_ context.Context, messages ...*message.Mes
 			messages[i].LastUsage = &now
 			storage.docs[key] = messages[i]
 		}
-
-		storage.lock.Unlock()
 	}
 
 	return inserted, modified, nil
@@ -321,15 +319,15 @@ func (storage *MemoryStorage) Remove(_ context.Context, queue string, ids ...str
 }
 
 func (storage *MemoryStorage) Ack(_ context.Context, msg *message.Message) (modifiedCount int64, err error) {
-	storage.lock.RLock()
+	storage.lock.Lock()
+	defer storage.lock.Unlock()
+
 	value, contains := storage.docs[getKey(msg)]
-	storage.lock.RUnlock()
 
 	if !contains {
 		return 0, nil
 	}
 
-	storage.lock.Lock()
 	value.TotalScoreSubtract += msg.LastScoreSubtract
 	value.UsageCount += 1
 	value.LastUsage = msg.LastUsage
@@ -344,21 +342,19 @@ func (storage *MemoryStorage) Ack(_ context.Context, msg *message.Message) (modi
 	*value.Diagnostics.ConsecutiveAcks = *value.Diagnostics.ConsecutiveAcks + 1
 	*value.Diagnostics.ConsecutiveNacks = 0
 
-	storage.lock.Unlock()
-
 	return 1, nil
 }
 
 func (storage *MemoryStorage) Nack(_ context.Context, msg *message.Message) (modifiedCount int64, err error) {
-	storage.lock.RLock()
+	storage.lock.Lock()
+	defer storage.lock.Unlock()
+
 	value, contains := storage.docs[getKey(msg)]
-	storage.lock.RUnlock()
 
 	if !contains {
 		return 0, nil
 	}
 
-	storage.lock.Lock()
 	value.Score = msg.Score
 	value.LockMs = msg.LockMs
 
@@ -367,7 +363,6 @@ func (storage *MemoryStorage) Nack(_ context.Context, msg *message.Message) (mod
 	*value.Diagnostics.Nacks = *value.Diagnostics.Nacks + 1
 	*value.Diagnostics.ConsecutiveNacks = *value.Diagnostics.ConsecutiveNacks + 1
 	*value.Diagnostics.ConsecutiveAcks = 0
-	storage.lock.Unlock()
 
 	return 1, nil
 }
-- 
2.43.0


From 6aead3f6167d626e77f4b2802201e9376cbe2c45 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:14:16 +0000
Subject: [PATCH 13/39] fix: guard the queue configurations of the memory
 storage with its lock

---
 internal/queue/storage/memory_storage.go | 18 +++++++++++++++---
 1 file changed, 15 insertions(+), 3 deletions(-)

diff --git a/internal/queue/storage/memory_storage.go b/internal/queue/storage/memory_storage.go
index 5ff670a..723fba0 100644
--- a/internal/queue/storage/memory_storage.go
+++ b/internal/queue/storage/memory_storage.go
@@ -39,6 +39,9 @@ func NewMemoryStorage(ctx context.Context) *MemoryStorage {
 }
 
 func (storage *MemoryStorage) ListQueueConfigurations(ctx context.Context) ([]*configuration.QueueConfiguration, error) {
+	storage.lock.RLock()
+	defer storage.lock.RUnlock()
+
 	configurations := make([]*configuration.QueueConfiguration, len(storage.configurations))
 
 	configurationIndex := 0
@@ -56,16 +59,25 @@ func (storage *MemoryStorage) EditQueueConfiguration(_ context.Context, configur
 		return nil
 	}
 
-	if configuration.MaxElements < 0 {
-		configuration.MaxElements = 0
+	// the caller keeps its configuration
+	stored := *configuration
+
+	if stored.MaxElements < 0 {
+		stored.MaxElements = 0
 	}
 
-	storage.configurations[configuration.Queue] = configuration
+	storage.lock.Lock()
+	defer storage.lock.Unlock()
+
+	storage.configurations[stored.Queue] = &stored
 
 	return nil
 }
 
 func (storage *MemoryStorage) GetQueueConfiguration(_ context.Context, queue string) (*configuration.QueueConfiguration, error) {
+	storage.lock.RLock()
+	defer storage.lock.RUnlock()
+
 	return storage.configurations[queue], nil
 }
 
-- 
2.43.0


From dc6719950eeaa85bf6170bb190ef315bf60c5c10 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:14:19 +0000
Subject: [PATCH 14/39] fix: release the memory storage's lock when a count
 fails

---
 internal/queue/storage/memory_storage.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/internal/queue/storage/memory_storage.go b/internal/queue/storage/memory_storage.go
index 723fba0..272453d 100644
--- a/internal/queue/storage/memory_storage.go
+++ b/internal/queue/storage/memory_storage.go
@@ -156,6 +156,8 @@ func (storage *MemoryStorage) Count(_ context.Context, findOpts *FindOptions, _
 	count := int64(0)
 
 	storage.lock.RLock()
+	defer storage.lock.RUnlock()
+
 	for _, value := range storage.docs {
 		matches, err := messageMatchesFilter(value, findOpts)
 
@@ -167,7 +169,6 @@ func (storage *MemoryStorage) Count(_ context.Context, findOpts *FindOptions, _
 			count++
 		}
 	}
-	storage.lock.RUnlock()
 
 	return count, nil
 }
-- 
2.43.0


From 811ca839955ad42cc1ae156d2d7e31fce7c7c154 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:14:21 +0000
Subject: [PATCH 15/39] fix: do not share messages of the memory storage with
 its callers

---
 internal/queue/storage/memory_storage.go | 37 ++++++++++++++++++++++--
 1 file changed, 35 insertions(+), 2 deletions(-)

diff --git a/internal/queue/storage/memory_storage.go b/internal/queue/storage/memory_storage.go
index 272453d..0c4c2d8 100644
--- a/internal/queue/storage/memory_storage.go
+++ b/internal/queue/storage/memory_storage.go
@@ -131,7 +131,10 @@ func (storage *MemoryStorage) Insert(_ context.Context, messages ...*message.Mes
 			messages[i].InternalId = storage.internalCounter
 			now := dtime.Now()
 			messages[i].LastUsage = &now
-			storage.docs[key] = messages[i]
+
+			// the caller keeps using its message
+			stored := *messages[i]
+			storage.docs[key] = &stored
 		}
 	}
 
@@ -261,7 +264,10 @@ func (storage *MemoryStorage) Find(_ context.Context, opt *FindOptions) ([]messa
 		}
 
 		if matches {
-			messages = append(messages, *storage.docs[k])
+			message := *storage.docs[k]
+			message.Diagnostics = copyDiagnostics(message.Diagnostics)
+
+			messages = append(messages, message)
 		}
 	}
 
@@ -305,6 +311,33 @@ func (storage *MemoryStorage) Find(_ context.Context, opt *FindOptions) ([]messa
 	return messages, nil
 }
 
+// copyDiagnostics makes a copy that later acks and nacks do not change.
+func copyDiagnostics(value *message.MessageDiagnostics) *message.MessageDiagnostics {
+	if value == nil {
+		return nil
+	}
+
+	result := &message.MessageDiagnostics{}
+
+	if value.Acks != nil {
+		result.Acks = utils.Int64Ptr(*value.Acks)
+	}
+
+	if value.Nacks != nil {
+		result.Nacks = utils.Int64Ptr(*value.Nacks)
+	}
+
+	if value.ConsecutiveAcks != nil {
+		result.ConsecutiveAcks = utils.Int64Ptr(*value.ConsecutiveAcks)
+	}
+
+	if value.ConsecutiveNacks != nil {
+		result.ConsecutiveNacks = utils.Int64Ptr(*value.ConsecutiveNacks)
+	}
+
+	return result
+}
+
 func isExpired(message *message.Message) bool {
 	return !message.Timeless && (message.ExpiryDate.Before(dtime.Now()) || message.ExpiryDate.Equal(dtime.Now()))
 }
-- 
2.43.0


From 227be6fddcde5f42e56f84b1afc643747c72d297 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:14:45 +0000
Subject: [PATCH 16/39] fix: continue with the next sort key when messages tie
 in the memory storage

---
 internal/queue/storage/memory_storage.go | 17 +++++++++++------
 1 file changed, 11 insertions(+), 6 deletions(-)

diff --git a/internal/queue/storage/memory_storage.go b/internal/queue/storage/memory_storage.go
index 0c4c2d8..64b08d7 100644
--- a/internal/queue/storage/memory_storage.go
+++ b/internal/queue/storage/memory_storage.go
@@ -7,7 +7,6 @@ import (
 	"sort"
 	"strconv"
 	"sync"
-	"time"
 
 	"github.com/takenet/deckard/internal/dtime"
 	"github.com/takenet/deckard/internal/queue/configuration"
@@ -278,14 +277,20 @@ func (storage *MemoryStorage) Find(_ context.Context, opt *FindOptions) ([]messa
 
 				switch key {
 				case "expiry_date":
-					if (messages[i].ExpiryDate != time.Time{} || messages[j].ExpiryDate != time.Time{}) {
-						if value == -1 {
-							return messages[i].ExpiryDate.After(messages[j].ExpiryDate)
-						}
+					if messages[i].ExpiryDate.Equal(messages[j].ExpiryDate) {
+						continue
+					}
 
-						return messages[i].ExpiryDate.Before(messages[j].ExpiryDate)
+					if value == -1 {
+						return messages[i].ExpiryDate.After(messages[j].ExpiryDate)
 					}
+
+					return messages[i].ExpiryDate.Before(messages[j].ExpiryDate)
 				case "score":
+					if messages[i].Score == messages[j].Score {
+						continue
+					}
+
 					if value == -1 {
 						return messages[i].Score > messages[j].Score
 					}
-- 
2.43.0


From cd4b220fce9ac512fe3c35b9f3474df8bd215aef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:14:48 +0000
Subject: [PATCH 17/39] fix: sort by last usage in the memory storage

---
 internal/queue/storage/memory_storage.go | 21 +++++++++++++++++++++
 1 file changed, 21 insertions(+)

diff --git a/internal/queue/storage/memory_storage.go b/internal/queue/storage/memory_storage.go
index 64b08d7..f72f566 100644
--- a/internal/queue/storage/memory_storage.go
+++ b/internal/queue/storage/memory_storage.go
@@ -296,6 +296,27 @@ func (storage *MemoryStorage) Find(_ context.Context, opt *FindOptions) ([]messa
 					}
 
 					return messages[i].Score < messages[j].Score
+				case "last_usage":
+					first, second := messages[i].LastUsage, messages[j].LastUsage
+
+					if first == nil || second == nil {
+						// missing values come first
+						if (first == nil) == (second == nil) {
+							continue
+						}
+
+						return (first == nil) == (value != -1)
+					}
+
+					if first.Equal(*second) {
+						continue
+					}
+
+					if value == -1 {
+						return first.After(*second)
+					}
+
+					return first.Before(*second)
 				case "_id":
 					if value == -1 {
 						return messages[i].InternalId.(int64) > messages[j].InternalId.(int64)
-- 
2.43.0


From 2cfa4bec09254d4e6fd4ed866836f60aa976fd8b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:17:08 +0000
Subject: [PATCH 18/39] fix: do not count expired messages the memory storage
 hides

---
 internal/queue/storage/memory_storage.go | 16 +++++++++++++++-
 1 file changed, 15 insertions(+), 1 deletion(-)

diff --git a/internal/queue/storage/memory_storage.go b/internal/queue/storage/memory_storage.go
index f72f566..b592897 100644
--- a/internal/queue/storage/memory_storage.go
+++ b/internal/queue/storage/memory_storage.go
@@ -161,6 +161,10 @@ func (storage *MemoryStorage) Count(_ context.Context, findOpts *FindOptions, _
 	defer storage.lock.RUnlock()
 
 	for _, value := range storage.docs {
+		if hidesExpired(findOpts) && isExpired(value) {
+			continue
+		}
+
 		matches, err := messageMatchesFilter(value, findOpts)
 
 		if err != nil {
@@ -252,7 +256,7 @@ func (storage *MemoryStorage) Find(_ context.Context, opt *FindOptions) ([]messa
 	defer storage.lock.RUnlock()
 
 	for k := range storage.docs {
-		if (opt == nil || opt.InternalFilter == nil || opt.InternalFilter.ExpiryDate == nil) && isExpired(storage.docs[k]) {
+		if hidesExpired(opt) && isExpired(storage.docs[k]) {
 			continue
 		}
 
@@ -364,7 +368,17 @@ func copyDiagnostics(value *message.MessageDiagnostics) *message.MessageDiagnost
 	return result
 }
 
+// hidesExpired tells whether expired messages do not match, which is unless the filter asks for an expiry date.
+func hidesExpired(opt *FindOptions) bool {
+	return opt == nil || opt.InternalFilter == nil || opt.InternalFilter.ExpiryDate == nil
+}
+
+// isExpired tells whether the message has an expiry date and it has passed.
 func isExpired(message *message.Message) bool {
+	if message.ExpiryDate.IsZero() {
+		return false
+	}
+
 	return !message.Timeless && (message.ExpiryDate.Before(dtime.Now()) || message.ExpiryDate.Equal(dtime.Now()))
 }
 
-- 
2.43.0


From a437d2a91c3ff124206c7a80c7cf0e1fadc278b2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:17:50 +0000
Subject: [PATCH 19/39] fix: let a re-added message clear its content in
 MongoDB

---
 internal/queue/storage/mongo_storage.go | 20 +++++---------------
 1 file changed, 5 insertions(+), 15 deletions(-)

diff --git a/internal/queue/storage/mongo_storage.go b/internal/queue/storage/mongo_storage.go
index 6c06a87..95e0083 100644
--- a/internal/queue/storage/mongo_storage.go
+++ b/internal/queue/storage/mongo_storage.go
@@ -472,21 +472,11 @@ func (storage *MongoStorage) Insert(ctx context.Context, messages ...*message.Me
 
 		setFields["expiry_date"] = q.ExpiryDate
 
-		if q.Description != "" {
-			setFields["description"] = q.Description
-		}
-
-		if q.Metadata != nil {
-			setFields["metadata"] = q.Metadata
-		}
-
-		if q.Payload != nil {
-			setFields["payload"] = q.Payload
-		}
-
-		if q.StringPayload != "" {
-			setFields["string_payload"] = q.StringPayload
-		}
+		// empty fields are set as well, to not keep the content of a replaced message
+		setFields["description"] = q.Description
+		setFields["metadata"] = q.Metadata
+		setFields["payload"] = q.Payload
+		setFields["string_payload"] = q.StringPayload
 
 		setFields["queue_prefix"] = q.QueuePrefix
 
-- 
2.43.0


From 856cefc88b0a48ff50a92f5ba98cf2d525f465b3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:18:10 +0000
Subject: [PATCH 20/39] fix: count re-added messages without changes as updated
 in MongoDB

---
 internal/queue/storage/mongo_storage.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/internal/queue/storage/mongo_storage.go b/internal/queue/storage/mongo_storage.go
index 95e0083..f02196e 100644
--- a/internal/queue/storage/mongo_storage.go
+++ b/internal/queue/storage/mongo_storage.go
@@ -506,7 +506,7 @@ func (storage *MongoStorage) Insert(ctx context.Context, messages ...*message.Me
 		return 0, 0, fmt.Errorf("error writing to mongodb storage: %w", err)
 	}
 
-	return res.InsertedCount + res.UpsertedCount, res.ModifiedCount, nil
+	return res.InsertedCount + res.UpsertedCount, res.MatchedCount, nil
 }
 
 // Ack updates the messages on mongostorage with updated status, score and diagnostic information.
-- 
2.43.0


From 153ab736dc71cc698bc924b4778f4e578555bf55 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:18:40 +0000
Subject: [PATCH 21/39] fix: forget locally cached queue configurations on
 flush

---
 internal/queue/queue.go                       | 4 ++++
 internal/queue/queue_configuration_service.go | 7 +++++++
 2 files changed, 11 insertions(+)

diff --git a/internal/queue/queue.go b/internal/queue/queue.go
index 46be8cf..2903de9 100644
--- a/internal/queue/queue.go
+++ b/internal/queue/queue.go
@@ -444,6 +444,10 @@ func (pool *Queue) Flush(ctx context.Context) (bool, error) {
 		return false, err
 	}
 
+	if pool.QueueConfigurationService != nil {
+		pool.QueueConfigurationService.ClearLocalCache()
+	}
+
 	return true, err
 }
 
diff --git a/internal/queue/queue_configuration_service.go b/internal/queue/queue_configuration_service.go
index fe02e30..ad2beb1 100644
--- a/internal/queue/queue_configuration_service.go
+++ b/internal/queue/queue_configuration_service.go
@@ -12,6 +12,9 @@ import (
 type QueueConfigurationService interface {
 	EditQueueConfiguration(ctx context.Context, configuration *configuration.QueueConfiguration) error
 	GetQueueConfiguration(ctx context.Context, queue string) (*configuration.QueueConfiguration, error)
+
+	// ClearLocalCache forgets the configurations kept in this instance.
+	ClearLocalCache()
 }
 
 type DefaultQueueConfigurationService struct {
@@ -83,3 +86,7 @@ func (queueService *DefaultQueueConfigurationService) GetQueueConfiguration(ctx
 
 	return config, nil
 }
+
+func (queueService *DefaultQueueConfigurationService) ClearLocalCache() {
+	queueService.localCache.Flush()
+}
-- 
2.43.0


From 53ff9b698824b1224eefe6bb5b55946353e63265 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:26:42 +0000
Subject: [PATCH 22/39] fix: keep huge lock times and ack deadlines from
 overflowing

---
 internal/queue/cache/cache.go        | 17 +++++++++++++++++
 internal/queue/cache/memory_cache.go |  4 ++--
 internal/queue/cache/redis_cache.go  |  4 ++--
 3 files changed, 21 insertions(+), 4 deletions(-)

diff --git a/internal/queue/cache/cache.go b/internal/queue/cache/cache.go
index e28a3f7..b2ba3ac 100644
--- a/internal/queue/cache/cache.go
+++ b/internal/queue/cache/cache.go
@@ -72,3 +72,20 @@ func CreateCache(ctx context.Context, cacheType Type) (Cache, error) {
 
 	return nil, errors.New("invalid cache type")
 }
+
+// maxTimestamp is the latest timestamp, in milliseconds, every engine represents exactly.
+const maxTimestamp = int64(1) << 53
+
+// addMs adds an amount of milliseconds to a timestamp, also in milliseconds,
+// staying within the timestamps the engines are able to represent and compare.
+func addMs(timestamp int64, ms int64) int64 {
+	if ms > maxTimestamp-timestamp {
+		return maxTimestamp
+	}
+
+	if timestamp+ms < 0 {
+		return 0
+	}
+
+	return timestamp + ms
+}
diff --git a/internal/queue/cache/memory_cache.go b/internal/queue/cache/memory_cache.go
index 539214d..d02adad 100644
--- a/internal/queue/cache/memory_cache.go
+++ b/internal/queue/cache/memory_cache.go
@@ -189,7 +189,7 @@ func (cache *MemoryCache) LockMessage(_ context.Context, message *message.Messag
 	cache.processingQueues[message.Queue], result = removeEntry(entry, cache.processingQueues[message.Queue])
 
 	if result {
-		entry.lockUntil = float64(dtime.NowMs() + message.LockMs)
+		entry.lockUntil = float64(addMs(dtime.NowMs(), message.LockMs))
 
 		switch lockType {
 		case LOCK_ACK:
@@ -280,7 +280,7 @@ func (cache *MemoryCache) PullMessages(ctx context.Context, queue string, n int6
 
 		processingEntry := &MemoryMessageEntry{
 			id:    entry.id,
-			score: float64(dtime.NowMs() + ackDeadlineMs),
+			score: float64(addMs(dtime.NowMs(), ackDeadlineMs)),
 		}
 
 		cache.processingQueues[queue], _ = insertEntry(processingEntry, cache.processingQueues[queue])
diff --git a/internal/queue/cache/redis_cache.go b/internal/queue/cache/redis_cache.go
index ab6e66a..749e2af 100644
--- a/internal/queue/cache/redis_cache.go
+++ b/internal/queue/cache/redis_cache.go
@@ -622,7 +622,7 @@ func (cache *RedisCache) LockMessage(ctx context.Context, message *message.Messa
 		return false, errors.New("invalid lock time")
 	}
 
-	lockScore := dtime.NowMs() + message.LockMs
+	lockScore := addMs(dtime.NowMs(), message.LockMs)
 
 	execStart := dtime.Now()
 	defer func() {
@@ -687,7 +687,7 @@ func (cache *RedisCache) PullMessages(ctx context.Context, queue string, n int64
 		ackDeadlineMs = DefaultTimeoutMs
 	}
 
-	newScore := dtime.TimeToMs(&now) + ackDeadlineMs
+	newScore := addMs(dtime.TimeToMs(&now), ackDeadlineMs)
 
 	args := []any{
 		n, newScore,
-- 
2.43.0


From 106f09d05f82887c16f2c5b5c1a0ec3f7a078f53 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:37:13 +0000
Subject: [PATCH 23/39] fix: count a message removed once when its id is
 repeated in the memory storage

---
 internal/queue/storage/memory_storage.go | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/internal/queue/storage/memory_storage.go b/internal/queue/storage/memory_storage.go
index b592897..e335ba0 100644
--- a/internal/queue/storage/memory_storage.go
+++ b/internal/queue/storage/memory_storage.go
@@ -396,6 +396,8 @@ func (storage *MemoryStorage) Remove(_ context.Context, queue string, ids ...str
 				delete(storage.docs, key)
 
 				count++
+
+				break
 			}
 		}
 	}
-- 
2.43.0


From 162e04139ed46b2a8e713913401a100972f04fc9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:36:40 +0000
Subject: [PATCH 24/39] fix: mark the recovery as finished only after it is no
 longer marked as running

---
 internal/queue/queue_housekeeper.go | 20 ++++++++++++++++----
 1 file changed, 16 insertions(+), 4 deletions(-)

diff --git a/internal/queue/queue_housekeeper.go b/internal/queue/queue_housekeeper.go
index ca83a1c..280682e 100644
--- a/internal/queue/queue_housekeeper.go
+++ b/internal/queue/queue_housekeeper.go
@@ -225,8 +225,7 @@ func RecoveryMessagesPool(ctx context.Context, pool *Queue) (metrify bool) {
 	if len(messages) < 4000 {
 		logger.S(ctx).Info("Full recovery finished.")
 
-		_ = pool.cache.Set(ctx, cache.RECOVERY_RUNNING, "false")
-		_ = pool.cache.Set(ctx, cache.RECOVERY_STORAGE_BREAKPOINT_KEY, cache.RECOVERY_FINISHED)
+		finishRecovery(ctx, pool)
 	}
 
 	logger.S(ctx).Debugf("%d messages updated in %s with %s breakpoint.", len(messages), time.Since(t), breakpoint)
@@ -234,6 +233,20 @@ func RecoveryMessagesPool(ctx context.Context, pool *Queue) (metrify bool) {
 	return true
 }
 
+// finishRecovery marks the recovery as finished only after it is no longer marked as running. Otherwise, a failure
+// between both would leave the recovery running forever, and nothing would be removed by TTL or max elements anymore.
+func finishRecovery(ctx context.Context, pool *Queue) {
+	err := pool.cache.Set(ctx, cache.RECOVERY_RUNNING, "false")
+
+	if err != nil {
+		logger.S(ctx).Error("Error to set full recovery status: ", err)
+
+		return
+	}
+
+	_ = pool.cache.Set(ctx, cache.RECOVERY_STORAGE_BREAKPOINT_KEY, cache.RECOVERY_FINISHED)
+}
+
 func tryToStartRecovery(ctx context.Context, pool *Queue) bool {
 	logger.S(ctx).Info("Starting full cache recovery.")
 
@@ -265,8 +278,7 @@ func tryToStartRecovery(ctx context.Context, pool *Queue) bool {
 	if len(messages) == 0 {
 		logger.S(ctx).Info("Storage is empty. Finishing recovery.")
 
-		_ = pool.cache.Set(ctx, cache.RECOVERY_STORAGE_BREAKPOINT_KEY, cache.RECOVERY_FINISHED)
-		_ = pool.cache.Set(ctx, cache.RECOVERY_RUNNING, "false")
+		finishRecovery(ctx, pool)
 
 		return false
 	}
-- 
2.43.0


From 0a5f1707eaf80e60cacf9aece3a5f8cdf4685076 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:32:48 +0000
Subject: [PATCH 25/39] fix: guard the queue metrics against concurrent
 collection

---
 internal/metrics/metrics.go     |  6 ++++++
 internal/metrics/metrics_map.go | 11 +++++++++++
 2 files changed, 17 insertions(+)

diff --git a/internal/metrics/metrics.go b/internal/metrics/metrics.go
index ce719df..941fd63 100644
--- a/internal/metrics/metrics.go
+++ b/internal/metrics/metrics.go
@@ -314,10 +314,16 @@ func createMetrics() {
 }
 
 func metrifyOldestMessages(obs metric.Int64Observer) error {
+	MetricsMap.lock.RLock()
+	defer MetricsMap.lock.RUnlock()
+
 	return metrify(obs, &MetricsMap.OldestElement)
 }
 
 func metrifyTotalElements(obs metric.Int64Observer) error {
+	MetricsMap.lock.RLock()
+	defer MetricsMap.lock.RUnlock()
+
 	return metrify(obs, &MetricsMap.TotalElements)
 }
 
diff --git a/internal/metrics/metrics_map.go b/internal/metrics/metrics_map.go
index 381bb62..902f4a0 100644
--- a/internal/metrics/metrics_map.go
+++ b/internal/metrics/metrics_map.go
@@ -1,9 +1,14 @@
 package metrics
 
+import "sync"
+
 // Type to hold map of oldest queue elements
 type QueueMetricsMap struct {
 	OldestElement map[string]int64
 	TotalElements map[string]int64
+
+	// The maps are replaced by the metrics computation while they are being collected.
+	lock sync.RWMutex
 }
 
 func NewQueueMetricsMap() *QueueMetricsMap {
@@ -14,10 +19,16 @@ func NewQueueMetricsMap() *QueueMetricsMap {
 }
 
 func (oldestMap *QueueMetricsMap) UpdateOldestElementMap(data map[string]int64) {
+	oldestMap.lock.Lock()
+	defer oldestMap.lock.Unlock()
+
 	oldestMap.OldestElement = mergeData(oldestMap.OldestElement, data)
 }
 
 func (oldestMap *QueueMetricsMap) UpdateTotalElementsMap(data map[string]int64) {
+	oldestMap.lock.Lock()
+	defer oldestMap.lock.Unlock()
+
 	oldestMap.TotalElements = mergeData(oldestMap.TotalElements, data)
 }
 
-- 
2.43.0


From 3b94ae7e10a81afc133bc23e6bbeb7b9f2c3b5a5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:55:19 +0000
Subject: [PATCH 26/39] fix: refuse messages of queues the Redis cache rejects
 before storing them

---
 internal/queue/cache/cache.go       |  5 +++++
 internal/queue/cache/redis_cache.go |  6 ++++++
 internal/queue/queue.go             | 13 +++++++++++++
 3 files changed, 24 insertions(+)

diff --git a/internal/queue/cache/cache.go b/internal/queue/cache/cache.go
index b2ba3ac..e0ca440 100644
--- a/internal/queue/cache/cache.go
+++ b/internal/queue/cache/cache.go
@@ -61,6 +61,11 @@ type Cache interface {
 	Close(ctx context.Context) error
 }
 
+// QueueNameValidator is implemented by the caches that do not accept every queue name.
+type QueueNameValidator interface {
+	ValidateQueueName(queue string) error
+}
+
 func CreateCache(ctx context.Context, cacheType Type) (Cache, error) {
 	switch cacheType {
 	case REDIS:
diff --git a/internal/queue/cache/redis_cache.go b/internal/queue/cache/redis_cache.go
index 749e2af..a315505 100644
--- a/internal/queue/cache/redis_cache.go
+++ b/internal/queue/cache/redis_cache.go
@@ -43,6 +43,7 @@ type RedisCache struct {
 }
 
 var _ Cache = &RedisCache{}
+var _ QueueNameValidator = &RedisCache{}
 
 const (
 	pullElement          = "pull"
@@ -893,6 +894,11 @@ func (cache *RedisCache) generalCacheKey(key string) string {
 	return fmt.Sprint(cache.fullPrefix(), ":{", key, "}")
 }
 
+// ValidateQueueName returns an error if messages of the queue can not be cached.
+func (cache *RedisCache) ValidateQueueName(queue string) error {
+	return cache.validateQueueName(queue)
+}
+
 func (cache *RedisCache) validateQueueName(queue string) error {
 	// Braces are reserved even in standalone mode so existing queues remain
 	// migratable to Redis Cluster without ambiguous hash-tag parsing.
diff --git a/internal/queue/queue.go b/internal/queue/queue.go
index 2903de9..93f766b 100644
--- a/internal/queue/queue.go
+++ b/internal/queue/queue.go
@@ -94,6 +94,8 @@ func (pool *Queue) GetStorageMessages(ctx context.Context, opt *storage.FindOpti
 func (pool *Queue) AddMessagesToStorage(ctx context.Context, messages ...*message.Message) (inserted int64, updated int64, err error) {
 	queues := make(map[string]bool)
 
+	validator, validate := pool.cache.(cache.QueueNameValidator)
+
 	for i := range messages {
 		message := messages[i]
 
@@ -104,6 +106,17 @@ func (pool *Queue) AddMessagesToStorage(ctx context.Context, messages ...*messag
 		}
 
 		queues[queueName] = true
+
+		if !validate {
+			continue
+		}
+
+		// Never store messages the cache would not accept, they could not be pulled and would make the recovery fail.
+		if err := validator.ValidateQueueName(queueName); err != nil {
+			logger.S(ctx).Error("Error validating queue name: ", err)
+
+			return 0, 0, err
+		}
 	}
 
 	insertions, updates, err := pool.storage.Insert(ctx, messages...)
-- 
2.43.0


From c7f22862f161d1a79e752debfa01dd99c08ec7b5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:55:19 +0000
Subject: [PATCH 27/39] fix: do not treat the configured Redis prefix as a
 pattern

---
 internal/queue/cache/redis_cache.go | 12 +++++++++++-
 1 file changed, 11 insertions(+), 1 deletion(-)

diff --git a/internal/queue/cache/redis_cache.go b/internal/queue/cache/redis_cache.go
index a315505..4831206 100644
--- a/internal/queue/cache/redis_cache.go
+++ b/internal/queue/cache/redis_cache.go
@@ -68,6 +68,8 @@ var PROCESSING_POOL_REGEX = regexp.MustCompile("(.+)" + PROCESSING_POOL_SUFFIX +
 var LOCK_ACK_POOL_REGEX = regexp.MustCompile("(.+)" + LOCK_ACK_SUFFIX + "$")
 var LOCK_NACK_POOL_REGEX = regexp.MustCompile("(.+)" + LOCK_NACK_SUFFIX + "$")
 
+var globReplacer = strings.NewReplacer(`\`, `\\`, "*", `\*`, "?", `\?`, "[", `\[`, "]", `\]`)
+
 func NewRedisCache(ctx context.Context) (*RedisCache, error) {
 	clusterMode := config.RedisClusterMode.GetBool()
 
@@ -282,7 +284,7 @@ func (cache *RedisCache) Flush(ctx context.Context) {
 		metrics.CacheLatency.Record(ctx, dtime.ElapsedTime(now), metric.WithAttributes(attribute.String("op", "flush")))
 	}()
 
-	pattern := cache.fullPrefix() + ":*"
+	pattern := escapeGlob(cache.fullPrefix()) + ":*"
 
 	// Delete only this Deckard instance namespace. Never call FLUSHDB, since users may share
 	// the same Redis with other applications (or another Deckard with a different prefix).
@@ -379,6 +381,9 @@ func (cache *RedisCache) ListQueues(ctx context.Context, pattern string, poolTyp
 		searchPattern = cache.lockPool(pattern, LOCK_NACK)
 	}
 
+	// The configured prefix is not a pattern.
+	searchPattern = escapeGlob(cache.poolPrefix()) + strings.TrimPrefix(searchPattern, cache.poolPrefix())
+
 	// Use SCAN instead of KEYS to avoid blocking Redis.
 	//
 	// SCAN is a "keyless" command, so in cluster mode go-redis cannot route it by hash slot: it
@@ -526,6 +531,11 @@ func uniqStrings(values []string) []string {
 	return result
 }
 
+// escapeGlob escapes the characters that are special in Redis glob-style patterns.
+func escapeGlob(value string) string {
+	return globReplacer.Replace(value)
+}
+
 // parseQueueKey converts a raw Redis key (as returned by SCAN) back into a plain
 // queue name by removing the pool prefix, any pool-type suffix matched by regex,
 // The hash tag braces ("{" and "}") added by activePool/processingPool/lockPool/lockPoolScore
-- 
2.43.0


From 5c3bb35afa643492083e69e40895f79422356f3f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:05:28 +0000
Subject: [PATCH 28/39] fix: keep the reported queue metrics when computing
 them fails

---
 internal/queue/queue_housekeeper.go | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/internal/queue/queue_housekeeper.go b/internal/queue/queue_housekeeper.go
index 280682e..6940583 100644
--- a/internal/queue/queue_housekeeper.go
+++ b/internal/queue/queue_housekeeper.go
@@ -461,12 +461,13 @@ func ComputeMetrics(ctx context.Context, pool *Queue) {
 	sort.Set("last_usage", 1)
 
 	oldestElement := make(map[string]int64, 0)
+	// Nothing is updated unless every queue was computed, otherwise the missing queues would be reported as empty.
 	totalElements := make(map[string]int64, 0)
 	for _, queue := range queues {
 		if shutdown.Ongoing() {
 			logger.S(ctx).Info("Context canceled. Stopping metrics computation.")
 
-			break
+			return
 		}
 
 		message, err := pool.storage.Find(ctx, &storage.FindOptions{
@@ -481,7 +482,7 @@ func ComputeMetrics(ctx context.Context, pool *Queue) {
 		if err != nil {
 			logger.S(ctx).Errorf("Error getting queue %s oldest element: %v", queue, err)
 
-			continue
+			return
 		}
 
 		if len(message) == 1 && message[0].LastUsage != nil {
@@ -495,7 +496,7 @@ func ComputeMetrics(ctx context.Context, pool *Queue) {
 		if err != nil {
 			logger.S(ctx).Errorf("Error counting queue %s elements: %v", queue, err)
 
-			continue
+			return
 		}
 
 		totalElements[queue] = total
-- 
2.43.0


From 38fcb9d11d8b8ce2e1f0575217ffed429edb4c57 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:05:28 +0000
Subject: [PATCH 29/39] fix: do not report all messages for queues with an
 empty prefix

---
 internal/queue/queue_housekeeper.go      | 5 +++--
 internal/queue/storage/memory_storage.go | 4 ++++
 internal/queue/storage/mongo_storage.go  | 4 ++++
 internal/queue/storage/storage.go        | 3 +++
 4 files changed, 14 insertions(+), 2 deletions(-)

diff --git a/internal/queue/queue_housekeeper.go b/internal/queue/queue_housekeeper.go
index 6940583..6ea42b3 100644
--- a/internal/queue/queue_housekeeper.go
+++ b/internal/queue/queue_housekeeper.go
@@ -475,7 +475,8 @@ func ComputeMetrics(ctx context.Context, pool *Queue) {
 			Sort:       sort,
 			Limit:      1,
 			InternalFilter: &storage.InternalFilter{
-				QueuePrefix: queue,
+				QueuePrefix:      queue,
+				EmptyQueuePrefix: queue == "",
 			},
 		})
 
@@ -490,7 +491,7 @@ func ComputeMetrics(ctx context.Context, pool *Queue) {
 		}
 
 		total, err := pool.Count(ctx, &storage.FindOptions{
-			InternalFilter: &storage.InternalFilter{QueuePrefix: queue},
+			InternalFilter: &storage.InternalFilter{QueuePrefix: queue, EmptyQueuePrefix: queue == ""},
 		})
 
 		if err != nil {
diff --git a/internal/queue/storage/memory_storage.go b/internal/queue/storage/memory_storage.go
index e335ba0..2203889 100644
--- a/internal/queue/storage/memory_storage.go
+++ b/internal/queue/storage/memory_storage.go
@@ -202,6 +202,10 @@ func matchesInternalFilter(message *message.Message, filter *InternalFilter) (bo
 		return false, nil
 	}
 
+	if filter.EmptyQueuePrefix && message.QueuePrefix != "" {
+		return false, nil
+	}
+
 	if filter.Ids != nil && len(*filter.Ids) > 0 {
 		contains := false
 		for _, id := range *filter.Ids {
diff --git a/internal/queue/storage/mongo_storage.go b/internal/queue/storage/mongo_storage.go
index f02196e..bc28bc2 100644
--- a/internal/queue/storage/mongo_storage.go
+++ b/internal/queue/storage/mongo_storage.go
@@ -639,6 +639,10 @@ func getMongoMessage(opt *FindOptions) (bson.M, error) {
 		mongoFilter["queue_prefix"] = opt.InternalFilter.QueuePrefix
 	}
 
+	if opt.InternalFilter.EmptyQueuePrefix {
+		mongoFilter["queue_prefix"] = ""
+	}
+
 	idFilter := bson.M{}
 
 	if opt.InternalFilter.InternalIdBreakpointGt != "" {
diff --git a/internal/queue/storage/storage.go b/internal/queue/storage/storage.go
index b4a111b..535aa6b 100644
--- a/internal/queue/storage/storage.go
+++ b/internal/queue/storage/storage.go
@@ -54,6 +54,9 @@ type InternalFilter struct {
 	Queue                   string
 	QueuePrefix             string
 
+	// Matches only messages with an empty queue prefix, since an empty QueuePrefix does not filter anything.
+	EmptyQueuePrefix bool
+
 	// Used to manage TTL cleaner. It will always search for elements with expire date bigger than the value provided in this attribute.
 	ExpiryDate *time.Time
 }
-- 
2.43.0


From 7191ec49d9911ff67c049301196b3b613bbc3c46 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:06:08 +0000
Subject: [PATCH 30/39] fix: expose each configured metric label once

---
 internal/metrics/metrics.go | 31 ++++++++++++++++++-------------
 1 file changed, 18 insertions(+), 13 deletions(-)

diff --git a/internal/metrics/metrics.go b/internal/metrics/metrics.go
index 941fd63..ac5b815 100644
--- a/internal/metrics/metrics.go
+++ b/internal/metrics/metrics.go
@@ -137,12 +137,17 @@ func createDefaultMetrics() []*dto.LabelPair {
 
 	otelAttributes := os.Getenv("OTEL_RESOURCE_ATTRIBUTES")
 
-	if !strings.Contains(otelAttributes, "service.version") {
-		if otelAttributes != "" {
-			otelAttributes = otelAttributes + ","
+	// Each label can be exposed only once, the last value takes precedence.
+	indexes := make(map[string]int)
+	addLabel := func(name string, value string) {
+		if index, ok := indexes[name]; ok {
+			result[index].Value = strPtr(value)
+
+			return
 		}
 
-		otelAttributes = otelAttributes + "service.version=" + project.Version
+		indexes[name] = len(result)
+		result = append(result, &dto.LabelPair{Name: strPtr(name), Value: strPtr(value)})
 	}
 
 	attributes := strings.Split(otelAttributes, ",")
@@ -153,21 +158,21 @@ func createDefaultMetrics() []*dto.LabelPair {
 			continue
 		}
 
-		result = append(result, &dto.LabelPair{
-			Name:  strPtr(strings.Replace(parts[0], ".", "_", -1)),
-			Value: strPtr(parts[1]),
-		})
+		addLabel(strings.Replace(parts[0], ".", "_", -1), parts[1])
+	}
+
+	if _, versioned := indexes["service_version"]; !versioned {
+		addLabel("service_version", project.Version)
 	}
 
 	otelServiceName := os.Getenv("OTEL_SERVICE_NAME")
-	if otelServiceName == "" {
+	if _, named := indexes["service_name"]; otelServiceName == "" && !named {
 		otelServiceName = project.Name
 	}
 
-	result = append(result, &dto.LabelPair{
-		Name:  strPtr("service_name"),
-		Value: strPtr(otelServiceName),
-	})
+	if otelServiceName != "" {
+		addLabel("service_name", otelServiceName)
+	}
 
 	return result
 }
-- 
2.43.0


From 9d2e90766ca342735340196f2e67fd3f34e7d3fa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:18:38 +0000
Subject: [PATCH 31/39] fix: prefer a setting given explicitly over its aliases
 even if it is the default

---
 internal/config/config.go       |  5 ++-
 internal/config/viper_config.go | 71 ++++++++++++++++++---------------
 2 files changed, 42 insertions(+), 34 deletions(-)

diff --git a/internal/config/config.go b/internal/config/config.go
index deebba0..45f8791 100644
--- a/internal/config/config.go
+++ b/internal/config/config.go
@@ -33,6 +33,8 @@ var (
 	configured = false
 
 	configMutex = &sync.Mutex{}
+
+	envKeyReplacer = strings.NewReplacer(".", "_")
 )
 
 func Configure(reset ...bool) {
@@ -44,8 +46,7 @@ func Configure(reset ...bool) {
 	}
 
 	viper.Reset()
-	replacer := strings.NewReplacer(".", "_")
-	viper.SetEnvKeyReplacer(replacer)
+	viper.SetEnvKeyReplacer(envKeyReplacer)
 
 	viper.SetEnvPrefix(project.Name)
 	viper.AutomaticEnv()
diff --git a/internal/config/viper_config.go b/internal/config/viper_config.go
index 1721de7..921dc72 100644
--- a/internal/config/viper_config.go
+++ b/internal/config/viper_config.go
@@ -1,9 +1,12 @@
 package config
 
 import (
+	"os"
+	"strings"
 	"time"
 
 	"github.com/spf13/viper"
+	"github.com/takenet/deckard/internal/project"
 )
 
 type ViperConfigKey struct {
@@ -44,29 +47,37 @@ func (config *ViperConfigKey) Set(value any) {
 // alias is mongodb.database) were silently ignored.
 //
 // To fix this, we resolve the value for the main key and each alias and only treat
-// it as an override if it differs from the default - the first non-default value
-// found (main key first, then aliases in order) wins. If everything resolves to the
-// default, the default is returned.
-func getWithFallback[T comparable](config *ViperConfigKey, defaultVal T, keyGetter func(string) T) T {
-	if viper.IsSet(config.Key) {
-		keyVal := keyGetter(config.Key)
-		if keyVal != defaultVal {
-			return keyVal
+// it as an override if it differs from the default or if it was given through the
+// environment - the first override found (main key first, then aliases in order)
+// wins. If everything resolves to the default, the default is returned.
+func getWithFallback[T comparable](config *ViperConfigKey, defaultVal T, keyGetter func(string) (T, bool)) T {
+	for _, key := range append([]string{config.Key}, config.GetAliases()...) {
+		if !viper.IsSet(key) {
+			continue
 		}
-	}
 
-	for _, alias := range config.GetAliases() {
-		if viper.IsSet(alias) {
-			aliasVal := keyGetter(alias)
-			if aliasVal != defaultVal {
-				return aliasVal
-			}
+		val, valid := keyGetter(key)
+		if valid && (val != defaultVal || isEnvSet(key)) {
+			return val
 		}
 	}
 
 	return defaultVal
 }
 
+// isEnvSet tells whether a value was given for the key through the environment, since
+// it takes precedence over the aliases even if it is the same as the default.
+func isEnvSet(key string) bool {
+	return os.Getenv(envKeyReplacer.Replace(strings.ToUpper(project.Name+"_"+key))) != ""
+}
+
+// alwaysValid adapts a viper getter whose values are always overrides.
+func alwaysValid[T any](getter func(string) T) func(string) (T, bool) {
+	return func(key string) (T, bool) {
+		return getter(key), true
+	}
+}
+
 // Should never be called before config is initialized using config.Configure()
 func (config *ViperConfigKey) Get() string {
 	defaultVal := ""
@@ -74,7 +85,7 @@ func (config *ViperConfigKey) Get() string {
 		defaultVal = val
 	}
 
-	return getWithFallback(config, defaultVal, viper.GetString)
+	return getWithFallback(config, defaultVal, alwaysValid(viper.GetString))
 }
 
 // Should never be called before config is initialized using config.Configure()
@@ -90,26 +101,22 @@ func (config *ViperConfigKey) GetDuration() time.Duration {
 	// Custom getter so both the default and the resolved values go through the same
 	// parsing path (time.ParseDuration), keeping comparisons in getWithFallback consistent.
 	//
-	// The closure captures defaultVal so it can return defaultVal (rather than 0) when
-	// the env var is set to an invalid/unparseable string. Without this, getDuration
-	// would return 0 for a typo like DECKARD_HOUSEKEEPER_TASK_TIMEOUT_DELAY=bad, and
-	// getWithFallback would compare 0 != defaultVal (e.g. 1s) and return 0 - silently
-	// discarding the configured default. Returning defaultVal signals "no valid override"
-	// so getWithFallback falls through to check aliases and ultimately returns defaultVal.
-	getDuration := func(key string) time.Duration {
+	// An env var set to an invalid/unparseable string (e.g. a typo like
+	// DECKARD_HOUSEKEEPER_TASK_TIMEOUT_DELAY=bad) is reported as "no valid override"
+	// so getWithFallback falls through to check aliases and ultimately returns
+	// defaultVal instead of silently returning 0.
+	getDuration := func(key string) (time.Duration, bool) {
 		if duration := viper.GetDuration(key); duration != 0 {
-			return duration
+			return duration, true
 		}
 
 		if str := viper.GetString(key); str != "" {
-			if parsed, err := time.ParseDuration(str); err == nil {
-				return parsed
-			}
-			// Non-empty but unparseable: treat as "no valid override".
-			return defaultVal
+			parsed, err := time.ParseDuration(str)
+
+			return parsed, err == nil
 		}
 
-		return 0
+		return 0, true
 	}
 
 	return getWithFallback(config, defaultVal, getDuration)
@@ -122,7 +129,7 @@ func (config *ViperConfigKey) GetBool() bool {
 		defaultVal = val
 	}
 
-	return getWithFallback(config, defaultVal, viper.GetBool)
+	return getWithFallback(config, defaultVal, alwaysValid(viper.GetBool))
 }
 
 // Should never be called before config is initialized using config.Configure()
@@ -132,5 +139,5 @@ func (config *ViperConfigKey) GetInt() int {
 		defaultVal = val
 	}
 
-	return getWithFallback(config, defaultVal, viper.GetInt)
+	return getWithFallback(config, defaultVal, alwaysValid(viper.GetInt))
 }
-- 
2.43.0


From 49bfe7b707693b5539e039836690654c16393281 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:18:38 +0000
Subject: [PATCH 32/39] fix: convert times outside the range of nanosecond
 counts to milliseconds

---
 internal/dtime/deckard_time.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/internal/dtime/deckard_time.go b/internal/dtime/deckard_time.go
index 5f77a61..70a000d 100644
--- a/internal/dtime/deckard_time.go
+++ b/internal/dtime/deckard_time.go
@@ -68,7 +68,7 @@ func MsPrecision(t *time.Time) time.Time {
 }
 
 func TimeToMs(t *time.Time) int64 {
-	return t.UnixNano() / (int64(time.Millisecond) / int64(time.Nanosecond))
+	return t.UnixMilli()
 }
 
 func MsToTime(msInt int64) time.Time {
-- 
2.43.0


From 90680a28230c0df5250c2cc35faa82f9c69d36eb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:26:57 +0000
Subject: [PATCH 33/39] fix: do not wait after the last attempt to connect to
 Redis

---
 internal/queue/cache/redis_cache.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/internal/queue/cache/redis_cache.go b/internal/queue/cache/redis_cache.go
index 4831206..69cad7e 100644
--- a/internal/queue/cache/redis_cache.go
+++ b/internal/queue/cache/redis_cache.go
@@ -198,7 +198,7 @@ func waitForSingleNodeClient(ctx context.Context, options *redis.Options) (*redi
 		var pingResult string
 		pingResult, err = redisClient.Ping(ctx).Result()
 
-		if (err == nil && pingResult == "PONG") || !config.CacheConnectionRetryEnabled.GetBool() {
+		if (err == nil && pingResult == "PONG") || !config.CacheConnectionRetryEnabled.GetBool() || i == attempts {
 			break
 		}
 
@@ -243,7 +243,7 @@ func waitForClusterClient(ctx context.Context, options *redis.ClusterOptions) (*
 		var pingResult string
 		pingResult, err = clusterClient.Ping(ctx).Result()
 
-		if (err == nil && pingResult == "PONG") || !config.CacheConnectionRetryEnabled.GetBool() {
+		if (err == nil && pingResult == "PONG") || !config.CacheConnectionRetryEnabled.GetBool() || i == attempts {
 			break
 		}
 
-- 
2.43.0


From 85f839eeab2d5e068363699c4a3bf84a0d615182 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:28:42 +0000
Subject: [PATCH 34/39] fix: refuse to start with only one of the TLS
 certificate and key settings

---
 internal/service/deckard_service.go | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/internal/service/deckard_service.go b/internal/service/deckard_service.go
index 8721b49..7d79870 100644
--- a/internal/service/deckard_service.go
+++ b/internal/service/deckard_service.go
@@ -134,10 +134,14 @@ func loadTLSCredentials() (credentials.TransportCredentials, error) {
 	certPath := config.TlsServerCertFilePaths.Get()
 	keyPath := config.TlsServerKeyFilePaths.Get()
 
-	if certPath == "" || keyPath == "" {
+	if certPath == "" && keyPath == "" {
 		return nil, nil
 	}
 
+	if certPath == "" || keyPath == "" {
+		return nil, fmt.Errorf("certificate and key file paths must be configured together")
+	}
+
 	// Load server's certificates and private key
 	certPathList := strings.Split(certPath, ",")
 	keyPathList := strings.Split(keyPath, ",")
-- 
2.43.0


From 09e7976b055026f1f0119f795618a31d4e7834c5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:31:33 +0000
Subject: [PATCH 35/39] fix: disconnect the MongoDB clients of failed
 connection attempts

---
 internal/queue/storage/mongo_storage.go | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/internal/queue/storage/mongo_storage.go b/internal/queue/storage/mongo_storage.go
index bc28bc2..2d2b867 100644
--- a/internal/queue/storage/mongo_storage.go
+++ b/internal/queue/storage/mongo_storage.go
@@ -70,12 +70,16 @@ func NewMongoStorage(ctx context.Context) (*MongoStorage, error) {
 
 	mongoPrimaryOptions, err := createOptions()
 	if err != nil {
+		_ = clientSecondaryPreference.Disconnect(context.WithoutCancel(ctx))
+
 		return nil, err
 	}
 
 	mongoPrimaryOptions.SetReadPreference(readpref.PrimaryPreferred())
 	clientPrimaryPreference, err := waitForClient(ctx, mongoPrimaryOptions)
 	if err != nil {
+		_ = clientSecondaryPreference.Disconnect(context.WithoutCancel(ctx))
+
 		return nil, err
 	}
 
@@ -178,6 +182,9 @@ func createClient(ctx context.Context, opts *options.ClientOptions) (*mongo.Clie
 
 	err = client.Ping(ctx, readpref.SecondaryPreferred())
 	if err != nil {
+		// The client keeps monitoring the servers in background until it is disconnected.
+		_ = client.Disconnect(context.WithoutCancel(ctx))
+
 		return nil, fmt.Errorf("error pinging client: %w", err)
 	}
 
-- 
2.43.0


From 30b42ca540ca332b61a74111e158e3ccaca5e59c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:36:02 +0000
Subject: [PATCH 36/39] fix: audit entries stored around the shutdown were lost
 or made the program panic

---
 internal/audit/audit.go      | 53 ++++++++++++++++++++++++++++++++++--
 internal/cmd/deckard/main.go |  7 ++++-
 2 files changed, 57 insertions(+), 3 deletions(-)

diff --git a/internal/audit/audit.go b/internal/audit/audit.go
index 1263d61..f3ea68e 100644
--- a/internal/audit/audit.go
+++ b/internal/audit/audit.go
@@ -54,6 +54,12 @@ type AuditorImpl struct {
 	waitGroup     *sync.WaitGroup
 	enabled       bool
 	senderStarted bool
+
+	// stopping is closed when the sender stops receiving new entries and stopped after it sent the remaining ones
+	stopping chan struct{}
+	stopped  chan struct{}
+	// storing is held for reading while an entry is being added to the entries
+	storing sync.RWMutex
 }
 
 // NewAuditor returns a new auditor with a elastic search.
@@ -98,6 +104,8 @@ func NewAuditor(waitGroup *sync.WaitGroup) (*AuditorImpl, error) {
 		entries:   make(chan Entry, 10000),
 		waitGroup: waitGroup,
 		enabled:   true,
+		stopping:  make(chan struct{}),
+		stopped:   make(chan struct{}),
 	}, nil
 }
 
@@ -132,10 +140,25 @@ func (a *AuditorImpl) StartSender(ctx context.Context) {
 		case <-ctx.Done():
 			zap.S().Info("Sending remaining audit data.")
 
-			close(a.entries)
+			close(a.stopping)
+
+			// Wait for entries being added
+			a.storing.Lock()
+			defer a.storing.Unlock()
+
+			for len(a.entries) > 0 {
+				entriesToSend = append(entriesToSend, <-a.entries)
+				if len(entriesToSend) == maxEntriesSize {
+					a.send(ctx, entriesToSend...)
+
+					entriesToSend = make([]Entry, 0, maxEntriesSize)
+				}
+			}
 
 			a.send(ctx, entriesToSend...)
 
+			close(a.stopped)
+
 			return
 		}
 	}
@@ -206,5 +229,31 @@ func (a *AuditorImpl) Store(ctx context.Context, entry Entry) {
 		metrics.AuditorAddToStoreLatency.Record(ctx, dtime.ElapsedTime(entry.Timestamp))
 	}()
 
-	a.entries <- entry
+	if a.addEntry(entry) {
+		return
+	}
+
+	// The sender won't receive any other entry
+	<-a.stopped
+
+	a.send(ctx, entry)
+}
+
+// addEntry adds an entry to be sent by the sender. Returns false if the sender is stopping.
+func (a *AuditorImpl) addEntry(entry Entry) bool {
+	a.storing.RLock()
+	defer a.storing.RUnlock()
+
+	select {
+	case <-a.stopping:
+		return false
+	default:
+	}
+
+	select {
+	case a.entries <- entry:
+		return true
+	case <-a.stopping:
+		return false
+	}
 }
diff --git a/internal/cmd/deckard/main.go b/internal/cmd/deckard/main.go
index dde6b5c..cdabcdb 100644
--- a/internal/cmd/deckard/main.go
+++ b/internal/cmd/deckard/main.go
@@ -86,7 +86,12 @@ func main() {
 		zap.S().Error("Error to create auditor: ", err)
 		panic(err)
 	}
-	go auditor.StartSender(ctx)
+	shutdown.WaitGroup.Add(1)
+	go func() {
+		defer shutdown.WaitGroup.Done()
+
+		auditor.StartSender(ctx)
+	}()
 
 	configurationService := queue.NewQueueConfigurationService(ctx, dataStorage)
 
-- 
2.43.0


From 8e252f7366bdce0065af1355e671496471e65177 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:36:02 +0000
Subject: [PATCH 37/39] fix: audit entries with a score subtract JSON cannot
 represent were dropped

---
 internal/audit/audit.go | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/internal/audit/audit.go b/internal/audit/audit.go
index f3ea68e..a0c6dde 100644
--- a/internal/audit/audit.go
+++ b/internal/audit/audit.go
@@ -9,6 +9,7 @@ import (
 	"encoding/json"
 	"fmt"
 	"io/ioutil"
+	"math"
 	"strings"
 	"sync"
 	"time"
@@ -217,6 +218,11 @@ func (a *AuditorImpl) Store(ctx context.Context, entry Entry) {
 
 	entry.Timestamp = dtime.Now()
 
+	// JSON can't represent these values
+	if math.IsNaN(entry.LastScoreSubtract) || math.IsInf(entry.LastScoreSubtract, 0) {
+		entry.LastScoreSubtract = 0
+	}
+
 	queuePrefix, queueSuffix := message.GetQueueParts(entry.Queue)
 
 	entry.QueuePrefix = queuePrefix
-- 
2.43.0


From 6e7aade69d6d39a78545bdd8727181d263121657 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:36:02 +0000
Subject: [PATCH 38/39] fix: housekeeper tasks could start after the shutdown
 had finished

---
 internal/cmd/deckard/main.go | 33 +++++++++++++++++++++++----------
 1 file changed, 23 insertions(+), 10 deletions(-)

diff --git a/internal/cmd/deckard/main.go b/internal/cmd/deckard/main.go
index cdabcdb..97318d2 100644
--- a/internal/cmd/deckard/main.go
+++ b/internal/cmd/deckard/main.go
@@ -131,7 +131,7 @@ func startGrpcServer(queue *queue.Queue, queueService queue.QueueConfigurationSe
 }
 
 func startHouseKeeperJobs(pool *queue.Queue) {
-	go scheduleTask(
+	startTask(
 		UNLOCK,
 		nil,
 		shutdown.WaitGroup,
@@ -143,7 +143,7 @@ func startHouseKeeperJobs(pool *queue.Queue) {
 		},
 	)
 
-	go scheduleTask(
+	startTask(
 		TIMEOUT,
 		nil,
 		shutdown.WaitGroup,
@@ -155,7 +155,7 @@ func startHouseKeeperJobs(pool *queue.Queue) {
 		},
 	)
 
-	go scheduleTask(
+	startTask(
 		METRICS,
 		nil,
 		shutdown.WaitGroup,
@@ -167,7 +167,7 @@ func startHouseKeeperJobs(pool *queue.Queue) {
 		},
 	)
 
-	go scheduleTask(
+	startTask(
 		RECOVERY,
 		backgroundTaskLocker,
 		shutdown.CriticalWaitGroup,
@@ -177,7 +177,7 @@ func startHouseKeeperJobs(pool *queue.Queue) {
 		},
 	)
 
-	go scheduleTask(
+	startTask(
 		MAX_ELEMENTS,
 		backgroundTaskLocker,
 		shutdown.WaitGroup,
@@ -189,7 +189,7 @@ func startHouseKeeperJobs(pool *queue.Queue) {
 		},
 	)
 
-	go scheduleTask(
+	startTask(
 		TTL,
 		backgroundTaskLocker,
 		shutdown.WaitGroup,
@@ -204,21 +204,34 @@ func startHouseKeeperJobs(pool *queue.Queue) {
 	)
 }
 
-func scheduleTask(taskName string, lock *sync.Mutex, taskWaitGroup *sync.WaitGroup, duration time.Duration, fn func() bool) {
+// startTask schedules a task until shutdown starts.
+// The wait group is only done when the task can't be executed anymore.
+func startTask(taskName string, lock *sync.Mutex, taskWaitGroup *sync.WaitGroup, duration time.Duration, fn func() bool) {
+	taskWaitGroup.Add(1)
+
+	go func() {
+		defer taskWaitGroup.Done()
+
+		scheduleTask(taskName, lock, duration, fn)
+	}()
+}
+
+func scheduleTask(taskName string, lock *sync.Mutex, duration time.Duration, fn func() bool) {
 	for {
 		select {
 		case <-time.After(duration):
-			taskWaitGroup.Add(1)
 			if lock != nil {
 				lock.Lock()
 			}
 
-			executeTask(taskName, fn)
+			// Both channels may be ready and the lock may take long to be acquired
+			if !shutdown.Ongoing() {
+				executeTask(taskName, fn)
+			}
 
 			if lock != nil {
 				lock.Unlock()
 			}
-			taskWaitGroup.Done()
 		case <-shutdown.Started:
 			logger.S(ctx).Debug("Stopping ", taskName, " scheduler.")
 
-- 
2.43.0


From 44e5b2d698b3b72196d253b0eb97aa627604668f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:57:10 +0000
Subject: [PATCH 39/39] fix: discard pulled messages only when the primary does
 not have them, never by a secondary's answer

---
 internal/queue/storage/mongo_storage.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/internal/queue/storage/mongo_storage.go b/internal/queue/storage/mongo_storage.go
index 2d2b867..00f3e0e 100644
--- a/internal/queue/storage/mongo_storage.go
+++ b/internal/queue/storage/mongo_storage.go
@@ -75,7 +75,8 @@ func NewMongoStorage(ctx context.Context) (*MongoStorage, error) {
 		return nil, err
 	}
 
-	mongoPrimaryOptions.SetReadPreference(readpref.PrimaryPreferred())
+	// Messages this read does not find are discarded, so it must never fall back to a secondary that may be behind.
+	mongoPrimaryOptions.SetReadPreference(readpref.Primary())
 	clientPrimaryPreference, err := waitForClient(ctx, mongoPrimaryOptions)
 	if err != nil {
 		_ = clientSecondaryPreference.Disconnect(context.WithoutCancel(ctx))
-- 
2.43.0

