From 0432f873233d9691436c1a48317c03deb01d4c17 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:45:33 +0000
Subject: [PATCH 01/16] fix: do not poll tasks from other topics in MemDB

---
 internal/engine/memdb/queue.go | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/internal/engine/memdb/queue.go b/internal/engine/memdb/queue.go
index 795e2f2..2952a0b 100644
--- a/internal/engine/memdb/queue.go
+++ b/internal/engine/memdb/queue.go
@@ -83,8 +83,13 @@ func (g *Engine) Poll(ctx context.Context, topic string, p *ratus.Promise) (*rat
 		return nil, ratus.ErrNotFound
 	}
 
-	// Do not consume the task until the scheduled time.
+	// The iterator is not bounded by the topic, do not cross into the next one.
 	t := r.(*ratus.Task)
+	if t.Topic != topic {
+		return nil, ratus.ErrNotFound
+	}
+
+	// Do not consume the task until the scheduled time.
 	if t.Scheduled != nil && t.Scheduled.After(n) {
 		return nil, ratus.ErrNotFound
 	}
-- 
2.43.0


From fa33536a093fc395eb263b0f8ced033a76cb83dd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:45:52 +0000
Subject: [PATCH 02/16] fix: poll, recover and expire tasks with timestamps
 before 1970 in MemDB

---
 internal/engine/memdb/indexer.go | 5 +++++
 internal/engine/memdb/queue.go   | 6 +++---
 2 files changed, 8 insertions(+), 3 deletions(-)

diff --git a/internal/engine/memdb/indexer.go b/internal/engine/memdb/indexer.go
index 7707432..7f1b9ca 100644
--- a/internal/engine/memdb/indexer.go
+++ b/internal/engine/memdb/indexer.go
@@ -3,6 +3,7 @@ package memdb
 import (
 	"encoding/binary"
 	"fmt"
+	"math"
 	"reflect"
 	"time"
 
@@ -70,6 +71,10 @@ func (i *StateFieldIndex) FromArgs(args ...any) ([]byte, error) {
 	return []byte{uint8(s)}, nil
 }
 
+// minTime is the earliest instant distinguishable by TimeFieldIndex, used as
+// the lower bound when iterating over tasks in the order of time.
+var minTime = time.UnixMilli(math.MinInt64)
+
 // TimeFieldIndex encodes time fields for index building.
 type TimeFieldIndex struct {
 	Field string
diff --git a/internal/engine/memdb/queue.go b/internal/engine/memdb/queue.go
index 2952a0b..ecfbee2 100644
--- a/internal/engine/memdb/queue.go
+++ b/internal/engine/memdb/queue.go
@@ -14,7 +14,7 @@ func (g *Engine) Chore(ctx context.Context) error {
 
 	// Recover tasks that have timed out.
 	n := time.Now()
-	it, err := txn.LowerBound(tableTask, indexActiveDeadline, ratus.TaskStateActive, time.UnixMilli(0))
+	it, err := txn.LowerBound(tableTask, indexActiveDeadline, ratus.TaskStateActive, minTime)
 	if err != nil {
 		return err
 	}
@@ -30,7 +30,7 @@ func (g *Engine) Chore(ctx context.Context) error {
 	}
 
 	// Delete completed tasks that have exceeded their retention period.
-	it, err = txn.LowerBound(tableTask, indexCompletedConsumed, ratus.TaskStateCompleted, time.UnixMilli(0))
+	it, err = txn.LowerBound(tableTask, indexCompletedConsumed, ratus.TaskStateCompleted, minTime)
 	if err != nil {
 		return err
 	}
@@ -74,7 +74,7 @@ func (g *Engine) Poll(ctx context.Context, topic string, p *ratus.Promise) (*rat
 
 	// Peek into the topic to get the next candidate task.
 	n := time.Now()
-	it, err := txn.LowerBound(tableTask, indexPendingTopicScheduled, ratus.TaskStatePending, topic, time.UnixMilli(0))
+	it, err := txn.LowerBound(tableTask, indexPendingTopicScheduled, ratus.TaskStatePending, topic, minTime)
 	if err != nil {
 		return nil, err
 	}
-- 
2.43.0


From afcc06befccf090d8879bd348ef3c4ba6ae55189 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:45:53 +0000
Subject: [PATCH 03/16] fix: reject null elements in task lists instead of
 panicking

---
 internal/middleware/task.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/internal/middleware/task.go b/internal/middleware/task.go
index 217a4b8..d29f353 100644
--- a/internal/middleware/task.go
+++ b/internal/middleware/task.go
@@ -57,6 +57,10 @@ func Tasks() gin.HandlerFunc {
 		// Validate and normalize all tasks in the list.
 		p := c.Param(ParamTopic)
 		for _, t := range ts.Data {
+			if t == nil {
+				fail(c, fmt.Errorf("%w: task must not be null", ratus.ErrBadRequest))
+				return
+			}
 			if err := normalizeTask(t, "", p); err != nil {
 				fail(c, fmt.Errorf("%w: %v", ratus.ErrBadRequest, err))
 				return
-- 
2.43.0


From 04b0977f6487787f16411197e3ab91eb74e08238 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:48:19 +0000
Subject: [PATCH 04/16] fix: reject malformed commits and promises instead of
 applying defaults

---
 internal/middleware/commit.go  |  6 +++++-
 internal/middleware/promise.go | 11 +++++++++--
 2 files changed, 14 insertions(+), 3 deletions(-)

diff --git a/internal/middleware/commit.go b/internal/middleware/commit.go
index 77b203b..529b095 100644
--- a/internal/middleware/commit.go
+++ b/internal/middleware/commit.go
@@ -2,6 +2,7 @@ package middleware
 
 import (
 	"fmt"
+	"io"
 	"time"
 
 	"github.com/gin-gonic/gin"
@@ -16,7 +17,10 @@ func Commit() gin.HandlerFunc {
 		// All fields are optional in a commit.
 		// An empty commit sets the state of the task to "completed".
 		var m ratus.Commit
-		c.ShouldBindJSON(&m)
+		if err := c.ShouldBindJSON(&m); err != nil && err != io.EOF {
+			fail(c, fmt.Errorf("%w: %v", ratus.ErrBadRequest, err))
+			return
+		}
 
 		// Validate and normalize the commit.
 		if err := normalizeCommit(&m); err != nil {
diff --git a/internal/middleware/promise.go b/internal/middleware/promise.go
index b1d42ad..891f57f 100644
--- a/internal/middleware/promise.go
+++ b/internal/middleware/promise.go
@@ -3,6 +3,7 @@ package middleware
 import (
 	"errors"
 	"fmt"
+	"io"
 	"time"
 
 	"github.com/gin-gonic/gin"
@@ -17,8 +18,14 @@ func Promise() gin.HandlerFunc {
 		// Promise is a relatively simple data structure that can be submitted
 		// either through the request body or query parameters.
 		var p ratus.Promise
-		c.ShouldBindJSON(&p)
-		c.ShouldBindQuery(&p)
+		if err := c.ShouldBindJSON(&p); err != nil && err != io.EOF {
+			fail(c, fmt.Errorf("%w: %v", ratus.ErrBadRequest, err))
+			return
+		}
+		if err := c.ShouldBindQuery(&p); err != nil {
+			fail(c, fmt.Errorf("%w: %v", ratus.ErrBadRequest, err))
+			return
+		}
 
 		// Validate and normalize the promise.
 		if err := normalizePromise(&p, c.Param(ParamID)); err != nil {
-- 
2.43.0


From 69674419a5251f103b03309bb9377563c547776f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:48:37 +0000
Subject: [PATCH 05/16] fix: sanitize metric labels to avoid panics on invalid
 UTF-8

---
 internal/controller/promise.go    |  4 ++--
 internal/controller/task.go       | 12 ++++++------
 internal/metrics/metrics.go       |  8 ++++++++
 internal/middleware/prometheus.go |  2 +-
 4 files changed, 17 insertions(+), 9 deletions(-)

diff --git a/internal/controller/promise.go b/internal/controller/promise.go
index 867b680..ebf55ae 100644
--- a/internal/controller/promise.go
+++ b/internal/controller/promise.go
@@ -152,11 +152,11 @@ func (r *PromiseController) collectMetrics(t *ratus.Task) {
 	// Collect task schedule delay.
 	if t != nil && t.Scheduled != nil && t.Consumed != nil {
 		d := t.Consumed.Sub(*t.Scheduled).Seconds()
-		metrics.DelayGauge.WithLabelValues(t.Topic, t.Producer, t.Consumer).Set(d)
+		metrics.DelayGauge.WithLabelValues(metrics.Label(t.Topic), metrics.Label(t.Producer), metrics.Label(t.Consumer)).Set(d)
 	}
 
 	// Collect number of tasks consumed.
 	if t != nil {
-		metrics.ConsumedCounter.WithLabelValues(t.Topic, t.Producer, t.Consumer).Add(1)
+		metrics.ConsumedCounter.WithLabelValues(metrics.Label(t.Topic), metrics.Label(t.Producer), metrics.Label(t.Consumer)).Add(1)
 	}
 }
diff --git a/internal/controller/task.go b/internal/controller/task.go
index 6cde157..fabfead 100644
--- a/internal/controller/task.go
+++ b/internal/controller/task.go
@@ -57,7 +57,7 @@ func (r *TaskController) PostTasks(c *gin.Context) {
 
 	// Collect number of tasks produced.
 	if v != nil && v.Created > 0 && len(ts.Data) > 0 {
-		metrics.ProducedCounter.WithLabelValues(c.Param(middleware.ParamTopic), ts.Data[0].Producer).Add(float64(v.Created))
+		metrics.ProducedCounter.WithLabelValues(metrics.Label(c.Param(middleware.ParamTopic)), metrics.Label(ts.Data[0].Producer)).Add(float64(v.Created))
 	}
 }
 
@@ -80,7 +80,7 @@ func (r *TaskController) PutTasks(c *gin.Context) {
 
 	// Collect number of tasks produced.
 	if v != nil && v.Created+v.Updated > 0 && len(ts.Data) > 0 {
-		metrics.ProducedCounter.WithLabelValues(c.Param(middleware.ParamTopic), ts.Data[0].Producer).Add(float64(v.Created + v.Updated))
+		metrics.ProducedCounter.WithLabelValues(metrics.Label(c.Param(middleware.ParamTopic)), metrics.Label(ts.Data[0].Producer)).Add(float64(v.Created + v.Updated))
 	}
 }
 
@@ -135,7 +135,7 @@ func (r *TaskController) PostTask(c *gin.Context) {
 
 	// Collect number of tasks produced.
 	if v != nil && v.Created > 0 {
-		metrics.ProducedCounter.WithLabelValues(t.Topic, t.Producer).Add(float64(v.Created))
+		metrics.ProducedCounter.WithLabelValues(metrics.Label(t.Topic), metrics.Label(t.Producer)).Add(float64(v.Created))
 	}
 }
 
@@ -159,7 +159,7 @@ func (r *TaskController) PutTask(c *gin.Context) {
 
 	// Collect number of tasks produced.
 	if v != nil && v.Created+v.Updated > 0 {
-		metrics.ProducedCounter.WithLabelValues(t.Topic, t.Producer).Add(float64(v.Created + v.Updated))
+		metrics.ProducedCounter.WithLabelValues(metrics.Label(t.Topic), metrics.Label(t.Producer)).Add(float64(v.Created + v.Updated))
 	}
 }
 
@@ -202,11 +202,11 @@ func (r *TaskController) PatchTask(c *gin.Context) {
 	// Collect task execution time.
 	if v != nil && v.Consumed != nil {
 		d := time.Since(*v.Consumed).Seconds()
-		metrics.ExecutionGauge.WithLabelValues(v.Topic, v.Producer, v.Consumer).Set(d)
+		metrics.ExecutionGauge.WithLabelValues(metrics.Label(v.Topic), metrics.Label(v.Producer), metrics.Label(v.Consumer)).Set(d)
 	}
 
 	// Collect number of tasks committed.
 	if v != nil {
-		metrics.CommittedCounter.WithLabelValues(v.Topic, v.Producer, v.Consumer).Add(1)
+		metrics.CommittedCounter.WithLabelValues(metrics.Label(v.Topic), metrics.Label(v.Producer), metrics.Label(v.Consumer)).Add(1)
 	}
 }
diff --git a/internal/metrics/metrics.go b/internal/metrics/metrics.go
index 3c589f5..ea0d3c4 100644
--- a/internal/metrics/metrics.go
+++ b/internal/metrics/metrics.go
@@ -2,6 +2,8 @@
 package metrics
 
 import (
+	"strings"
+
 	"github.com/prometheus/client_golang/prometheus"
 	"github.com/prometheus/client_golang/prometheus/promauto"
 )
@@ -61,3 +63,9 @@ var (
 		Help: "Total number of tasks committed",
 	}, []string{labelTopic, labelProducer, labelConsumer})
 )
+
+// Label sanitizes a user-provided string for use as the value of a label.
+// Prometheus requires label values to be valid UTF-8 and panics otherwise.
+func Label(s string) string {
+	return strings.ToValidUTF8(s, "\uFFFD")
+}
diff --git a/internal/middleware/prometheus.go b/internal/middleware/prometheus.go
index 1d2eb0a..9c86b23 100644
--- a/internal/middleware/prometheus.go
+++ b/internal/middleware/prometheus.go
@@ -16,6 +16,6 @@ func Prometheus() gin.HandlerFunc {
 		c.Next()
 		d := time.Since(t).Seconds()
 		s := strconv.Itoa(c.Writer.Status())
-		metrics.RequestHistogram.WithLabelValues(c.Param(ParamTopic), c.Request.Method, c.FullPath(), s).Observe(d)
+		metrics.RequestHistogram.WithLabelValues(metrics.Label(c.Param(ParamTopic)), c.Request.Method, c.FullPath(), s).Observe(d)
 	}
 }
-- 
2.43.0


From e18cefc3f04b5cbcbdcd16d0f458b7277f15a427 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:48:39 +0000
Subject: [PATCH 06/16] fix: report failures to put the MemDB snapshot in place

---
 internal/engine/memdb/memdb.go | 15 ++++++++++-----
 1 file changed, 10 insertions(+), 5 deletions(-)

diff --git a/internal/engine/memdb/memdb.go b/internal/engine/memdb/memdb.go
index e70981e..2cbbf82 100644
--- a/internal/engine/memdb/memdb.go
+++ b/internal/engine/memdb/memdb.go
@@ -236,7 +236,7 @@ func clone[T any](v *T) *T {
 }
 
 // save writes a snapshot of the database to a file.
-func save(db *memdb.MemDB, path string) error {
+func save(db *memdb.MemDB, path string) (err error) {
 
 	// Create a temporary file for writing the snapshot.
 	p := fmt.Sprintf("%s.%s", path, nonce.Generate(8))
@@ -245,14 +245,19 @@ func save(db *memdb.MemDB, path string) error {
 		return err
 	}
 
-	// Rename or delete the temporary file before returning.
+	// Rename or delete the temporary file before returning. The snapshot is
+	// only in place after the file has been both closed and renamed.
 	var ok bool
 	defer func() {
-		f.Close()
+		if e := f.Close(); e != nil && ok {
+			ok, err = false, e
+		}
+		if ok {
+			err = os.Rename(p, path)
+			ok = err == nil
+		}
 		if !ok {
 			os.Remove(p)
-		} else {
-			os.Rename(p, path)
 		}
 	}()
 
-- 
2.43.0


From a5fabbcdaf0f1f0e53930a5080889cc4703a679d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:48:56 +0000
Subject: [PATCH 07/16] fix: accept empty task lists in the MongoDB engine

---
 internal/engine/mongodb/task.go | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/internal/engine/mongodb/task.go b/internal/engine/mongodb/task.go
index cb4d598..eff72a0 100644
--- a/internal/engine/mongodb/task.go
+++ b/internal/engine/mongodb/task.go
@@ -27,6 +27,10 @@ func (g *Engine) ListTasks(ctx context.Context, topic string, limit, offset int)
 
 // InsertTasks inserts a batch of tasks while ignoring existing ones.
 func (g *Engine) InsertTasks(ctx context.Context, ts []*ratus.Task) (*ratus.Updated, error) {
+	if len(ts) == 0 {
+		return &ratus.Updated{}, nil
+	}
+
 	w := make([]mongo.WriteModel, len(ts))
 	for i, t := range ts {
 		m := mongo.NewInsertOneModel()
@@ -51,6 +55,10 @@ func (g *Engine) InsertTasks(ctx context.Context, ts []*ratus.Task) (*ratus.Upda
 
 // UpsertTasks inserts or updates a batch of tasks.
 func (g *Engine) UpsertTasks(ctx context.Context, ts []*ratus.Task) (*ratus.Updated, error) {
+	if len(ts) == 0 {
+		return &ratus.Updated{}, nil
+	}
+
 	return branch(func() (*ratus.Updated, error) {
 		return g.upsertTasksReplace(ctx, ts)
 	}, func() (*ratus.Updated, error) {
-- 
2.43.0


From 0728762a5d42d2cac53d1b5f24321c8e3ab78dd9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:48:56 +0000
Subject: [PATCH 08/16] fix: finish requests in flight before closing the
 storage engine

---
 cmd/ratus/main.go | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/cmd/ratus/main.go b/cmd/ratus/main.go
index 238073e..eb8b896 100644
--- a/cmd/ratus/main.go
+++ b/cmd/ratus/main.go
@@ -150,7 +150,9 @@ func serve(ctx context.Context, h http.Handler, c *config.ServerConfig) error {
 	// Gracefully shut down the server when an interrupt or SIGTERM signal
 	// is received, or close the server immediately if the context has been
 	// canceled or another goroutine in the error group has return an error.
+	done := make(chan struct{})
 	go func() {
+		defer close(done)
 		select {
 		case <-ch:
 			log.Printf("stop listening on %s\n", a)
@@ -160,11 +162,13 @@ func serve(ctx context.Context, h http.Handler, c *config.ServerConfig) error {
 		}
 	}()
 
-	// Return errors other than those caused by closing the server.
+	// Return errors other than those caused by closing the server. Otherwise
+	// wait for requests in flight before the storage engine can be closed.
 	log.Printf("start listening on %s\n", a)
 	if err := s.ListenAndServe(); err != nil && err != http.ErrServerClosed {
 		return err
 	}
+	<-done
 
 	return nil
 }
-- 
2.43.0


From 02951aaa980390f7cbd6f7f8a52672ff236d3778 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:27:47 +0000
Subject: [PATCH 09/16] fix: report damaged snapshots that end decoding early

gob may report io.EOF for a damaged record, which was taken for the end of
the snapshot: the engine then opened with part of the tasks, or none.
---
 internal/engine/memdb/memdb.go | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/internal/engine/memdb/memdb.go b/internal/engine/memdb/memdb.go
index 2cbbf82..89b2bfe 100644
--- a/internal/engine/memdb/memdb.go
+++ b/internal/engine/memdb/memdb.go
@@ -2,6 +2,7 @@
 package memdb
 
 import (
+	"bufio"
 	"context"
 	"encoding/gob"
 	"errors"
@@ -296,13 +297,19 @@ func load(db *memdb.MemDB, path string) error {
 	defer f.Close()
 
 	// Decode records in the snapshot file and insert them into the database.
-	dec := gob.NewDecoder(f)
+	r := bufio.NewReader(f)
+	dec := gob.NewDecoder(r)
 	txn := db.Txn(true)
 	defer txn.Abort()
 	for {
 		var t ratus.Task
 		if err := dec.Decode(&t); err != nil {
 			if errors.Is(err, io.EOF) {
+				// Decoding a damaged record may also result in an EOF error, in
+				// which case the end of the file has not been reached yet.
+				if _, err := r.Peek(1); !errors.Is(err, io.EOF) {
+					return io.ErrUnexpectedEOF
+				}
 				break
 			}
 			return err
-- 
2.43.0


From db4aef549b46faa0a3cb0ecf63cda136fac835a9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:17:09 +0000
Subject: [PATCH 10/16] fix: escape plus signs in path segments of client
 requests

The API server matches routes against the escaped path and unescapes path
parameters with url.QueryUnescape if the path contains an escaped slash, so
that a task with the ID "a+b/c" was addressed as "a b/c".
---
 client.go | 40 ++++++++++++++++++++++++----------------
 1 file changed, 24 insertions(+), 16 deletions(-)

diff --git a/client.go b/client.go
index 5ccea86..6365eba 100644
--- a/client.go
+++ b/client.go
@@ -9,6 +9,7 @@ import (
 	"io"
 	"net/http"
 	"net/url"
+	"strings"
 	"time"
 
 	"golang.org/x/sync/errgroup"
@@ -257,6 +258,13 @@ func (c *Client) Request(ctx context.Context, method, endpoint string, body, res
 	return json.NewDecoder(res.Body).Decode(result)
 }
 
+// escapeSegment escapes a string so that it can be placed inside a URL path as
+// a single segment. Plus signs are escaped as well since the API server would
+// otherwise unescape them to spaces in segments that contain an escaped slash.
+func escapeSegment(s string) string {
+	return strings.ReplaceAll(url.PathEscape(s), "+", "%2B")
+}
+
 // ListTopics lists all topics.
 func (c *Client) ListTopics(ctx context.Context, limit, offset int) ([]*Topic, error) {
 	var v Topics
@@ -278,7 +286,7 @@ func (c *Client) DeleteTopics(ctx context.Context) (*Deleted, error) {
 // GetTopic gets information about a topic.
 func (c *Client) GetTopic(ctx context.Context, topic string) (*Topic, error) {
 	var v Topic
-	if err := c.Request(ctx, http.MethodGet, fmt.Sprintf("/v1/topics/%s", url.PathEscape(topic)), nil, &v); err != nil {
+	if err := c.Request(ctx, http.MethodGet, fmt.Sprintf("/v1/topics/%s", escapeSegment(topic)), nil, &v); err != nil {
 		return nil, err
 	}
 	return &v, nil
@@ -287,7 +295,7 @@ func (c *Client) GetTopic(ctx context.Context, topic string) (*Topic, error) {
 // DeleteTopic deletes a topic and its tasks.
 func (c *Client) DeleteTopic(ctx context.Context, topic string) (*Deleted, error) {
 	var v Deleted
-	if err := c.Request(ctx, http.MethodDelete, fmt.Sprintf("/v1/topics/%s", url.PathEscape(topic)), nil, &v); err != nil {
+	if err := c.Request(ctx, http.MethodDelete, fmt.Sprintf("/v1/topics/%s", escapeSegment(topic)), nil, &v); err != nil {
 		return nil, err
 	}
 	return &v, nil
@@ -296,7 +304,7 @@ func (c *Client) DeleteTopic(ctx context.Context, topic string) (*Deleted, error
 // ListTasks lists all tasks in a topic.
 func (c *Client) ListTasks(ctx context.Context, topic string, limit, offset int) ([]*Task, error) {
 	var v Tasks
-	if err := c.Request(ctx, http.MethodGet, fmt.Sprintf("/v1/topics/%s/tasks?limit=%d&offset=%d", url.PathEscape(topic), limit, offset), nil, &v); err != nil {
+	if err := c.Request(ctx, http.MethodGet, fmt.Sprintf("/v1/topics/%s/tasks?limit=%d&offset=%d", escapeSegment(topic), limit, offset), nil, &v); err != nil {
 		return nil, err
 	}
 	return v.Data, nil
@@ -323,7 +331,7 @@ func (c *Client) UpsertTasks(ctx context.Context, ts []*Task) (*Updated, error)
 // DeleteTasks deletes all tasks in a topic.
 func (c *Client) DeleteTasks(ctx context.Context, topic string) (*Deleted, error) {
 	var v Deleted
-	if err := c.Request(ctx, http.MethodDelete, fmt.Sprintf("/v1/topics/%s/tasks", url.PathEscape(topic)), nil, &v); err != nil {
+	if err := c.Request(ctx, http.MethodDelete, fmt.Sprintf("/v1/topics/%s/tasks", escapeSegment(topic)), nil, &v); err != nil {
 		return nil, err
 	}
 	return &v, nil
@@ -332,7 +340,7 @@ func (c *Client) DeleteTasks(ctx context.Context, topic string) (*Deleted, error
 // GetTask gets a task by its unique ID.
 func (c *Client) GetTask(ctx context.Context, id string) (*Task, error) {
 	var v Task
-	if err := c.Request(ctx, http.MethodGet, fmt.Sprintf("/v1/topics//tasks/%s", url.PathEscape(id)), nil, &v); err != nil {
+	if err := c.Request(ctx, http.MethodGet, fmt.Sprintf("/v1/topics//tasks/%s", escapeSegment(id)), nil, &v); err != nil {
 		return nil, err
 	}
 	return &v, nil
@@ -341,7 +349,7 @@ func (c *Client) GetTask(ctx context.Context, id string) (*Task, error) {
 // InsertTask inserts a new task.
 func (c *Client) InsertTask(ctx context.Context, t *Task) (*Updated, error) {
 	var v Updated
-	if err := c.Request(ctx, http.MethodPost, fmt.Sprintf("/v1/topics//tasks/%s", url.PathEscape(t.ID)), t, &v); err != nil {
+	if err := c.Request(ctx, http.MethodPost, fmt.Sprintf("/v1/topics//tasks/%s", escapeSegment(t.ID)), t, &v); err != nil {
 		return nil, err
 	}
 	return &v, nil
@@ -350,7 +358,7 @@ func (c *Client) InsertTask(ctx context.Context, t *Task) (*Updated, error) {
 // UpsertTask inserts or updates a task.
 func (c *Client) UpsertTask(ctx context.Context, t *Task) (*Updated, error) {
 	var v Updated
-	if err := c.Request(ctx, http.MethodPut, fmt.Sprintf("/v1/topics//tasks/%s", url.PathEscape(t.ID)), t, &v); err != nil {
+	if err := c.Request(ctx, http.MethodPut, fmt.Sprintf("/v1/topics//tasks/%s", escapeSegment(t.ID)), t, &v); err != nil {
 		return nil, err
 	}
 	return &v, nil
@@ -359,7 +367,7 @@ func (c *Client) UpsertTask(ctx context.Context, t *Task) (*Updated, error) {
 // DeleteTask deletes a task by its unique ID.
 func (c *Client) DeleteTask(ctx context.Context, id string) (*Deleted, error) {
 	var v Deleted
-	if err := c.Request(ctx, http.MethodDelete, fmt.Sprintf("/v1/topics//tasks/%s", url.PathEscape(id)), nil, &v); err != nil {
+	if err := c.Request(ctx, http.MethodDelete, fmt.Sprintf("/v1/topics//tasks/%s", escapeSegment(id)), nil, &v); err != nil {
 		return nil, err
 	}
 	return &v, nil
@@ -368,7 +376,7 @@ func (c *Client) DeleteTask(ctx context.Context, id string) (*Deleted, error) {
 // PatchTask applies a set of updates to a task and returns the updated task.
 func (c *Client) PatchTask(ctx context.Context, id string, m *Commit) (*Task, error) {
 	var v Task
-	if err := c.Request(ctx, http.MethodPatch, fmt.Sprintf("/v1/topics//tasks/%s", url.PathEscape(id)), m, &v); err != nil {
+	if err := c.Request(ctx, http.MethodPatch, fmt.Sprintf("/v1/topics//tasks/%s", escapeSegment(id)), m, &v); err != nil {
 		return nil, err
 	}
 	return &v, nil
@@ -377,7 +385,7 @@ func (c *Client) PatchTask(ctx context.Context, id string, m *Commit) (*Task, er
 // ListPromises lists all promises in a topic.
 func (c *Client) ListPromises(ctx context.Context, topic string, limit, offset int) ([]*Promise, error) {
 	var v Promises
-	if err := c.Request(ctx, http.MethodGet, fmt.Sprintf("/v1/topics/%s/promises?limit=%d&offset=%d", url.PathEscape(topic), limit, offset), nil, &v); err != nil {
+	if err := c.Request(ctx, http.MethodGet, fmt.Sprintf("/v1/topics/%s/promises?limit=%d&offset=%d", escapeSegment(topic), limit, offset), nil, &v); err != nil {
 		return nil, err
 	}
 	return v.Data, nil
@@ -386,7 +394,7 @@ func (c *Client) ListPromises(ctx context.Context, topic string, limit, offset i
 // PostPromises makes a promise to claim and execute the next available task in a topic.
 func (c *Client) PostPromises(ctx context.Context, topic string, p *Promise) (*Task, error) {
 	var v Task
-	if err := c.Request(ctx, http.MethodPost, fmt.Sprintf("/v1/topics/%s/promises", url.PathEscape(topic)), p, &v); err != nil {
+	if err := c.Request(ctx, http.MethodPost, fmt.Sprintf("/v1/topics/%s/promises", escapeSegment(topic)), p, &v); err != nil {
 		return nil, err
 	}
 	return &v, nil
@@ -395,7 +403,7 @@ func (c *Client) PostPromises(ctx context.Context, topic string, p *Promise) (*T
 // DeletePromises deletes all promises in a topic.
 func (c *Client) DeletePromises(ctx context.Context, topic string) (*Deleted, error) {
 	var v Deleted
-	if err := c.Request(ctx, http.MethodDelete, fmt.Sprintf("/v1/topics/%s/promises", url.PathEscape(topic)), nil, &v); err != nil {
+	if err := c.Request(ctx, http.MethodDelete, fmt.Sprintf("/v1/topics/%s/promises", escapeSegment(topic)), nil, &v); err != nil {
 		return nil, err
 	}
 	return &v, nil
@@ -404,7 +412,7 @@ func (c *Client) DeletePromises(ctx context.Context, topic string) (*Deleted, er
 // GetPromise gets a promise by the unique ID of its target task.
 func (c *Client) GetPromise(ctx context.Context, id string) (*Promise, error) {
 	var v Promise
-	if err := c.Request(ctx, http.MethodGet, fmt.Sprintf("/v1/topics//promises/%s", url.PathEscape(id)), nil, &v); err != nil {
+	if err := c.Request(ctx, http.MethodGet, fmt.Sprintf("/v1/topics//promises/%s", escapeSegment(id)), nil, &v); err != nil {
 		return nil, err
 	}
 	return &v, nil
@@ -413,7 +421,7 @@ func (c *Client) GetPromise(ctx context.Context, id string) (*Promise, error) {
 // InsertPromise makes a promise to claim and execute a task if it is in pending state.
 func (c *Client) InsertPromise(ctx context.Context, p *Promise) (*Task, error) {
 	var v Task
-	if err := c.Request(ctx, http.MethodPost, fmt.Sprintf("/v1/topics//promises/%s", url.PathEscape(p.ID)), p, &v); err != nil {
+	if err := c.Request(ctx, http.MethodPost, fmt.Sprintf("/v1/topics//promises/%s", escapeSegment(p.ID)), p, &v); err != nil {
 		return nil, err
 	}
 	return &v, nil
@@ -422,7 +430,7 @@ func (c *Client) InsertPromise(ctx context.Context, p *Promise) (*Task, error) {
 // UpsertPromise makes a promise to claim and execute a task regardless of its current state.
 func (c *Client) UpsertPromise(ctx context.Context, p *Promise) (*Task, error) {
 	var v Task
-	if err := c.Request(ctx, http.MethodPut, fmt.Sprintf("/v1/topics//promises/%s", url.PathEscape(p.ID)), p, &v); err != nil {
+	if err := c.Request(ctx, http.MethodPut, fmt.Sprintf("/v1/topics//promises/%s", escapeSegment(p.ID)), p, &v); err != nil {
 		return nil, err
 	}
 	return &v, nil
@@ -431,7 +439,7 @@ func (c *Client) UpsertPromise(ctx context.Context, p *Promise) (*Task, error) {
 // DeletePromise deletes a promise by the unique ID of its target task.
 func (c *Client) DeletePromise(ctx context.Context, id string) (*Deleted, error) {
 	var v Deleted
-	if err := c.Request(ctx, http.MethodDelete, fmt.Sprintf("/v1/topics//promises/%s", url.PathEscape(id)), nil, &v); err != nil {
+	if err := c.Request(ctx, http.MethodDelete, fmt.Sprintf("/v1/topics//promises/%s", escapeSegment(id)), nil, &v); err != nil {
 		return nil, err
 	}
 	return &v, nil
-- 
2.43.0


From 83efbb95fb811a8e2c83eed9974a4478b9ad0d1e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:17:12 +0000
Subject: [PATCH 11/16] fix: do not overwrite headers of a request configured
 in another case

The presence of a configured header was checked with the key as configured,
while keys in http.Header are in canonical form.
---
 transport.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/transport.go b/transport.go
index 607611c..6de7d0a 100644
--- a/transport.go
+++ b/transport.go
@@ -55,7 +55,7 @@ func (t *transport) RoundTrip(r *http.Request) (*http.Response, error) {
 
 	// Set common header fields.
 	for k, v := range t.headers {
-		if _, ok := r.Header[k]; !ok {
+		if _, ok := r.Header[http.CanonicalHeaderKey(k)]; !ok {
 			r.Header.Set(k, v)
 		}
 	}
-- 
2.43.0


From dbf548de565a72b8a0d827ee878f02a61de2573b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:38:21 +0000
Subject: [PATCH 12/16] fix: do not redirect requests with an empty path
 parameter to the collection

---
 internal/router/router.go | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/internal/router/router.go b/internal/router/router.go
index c44e8e4..f5b36e0 100644
--- a/internal/router/router.go
+++ b/internal/router/router.go
@@ -37,6 +37,11 @@ func New(groups ...Group) *gin.Engine {
 	r.UseRawPath = true
 	r.UnescapePathValues = true
 
+	// Do not redirect requests with an empty path parameter to the endpoint of
+	// the whole collection, otherwise deleting a topic with an empty name would
+	// delete all topics.
+	r.RedirectTrailingSlash = false
+
 	// Enable logging and profiling if not in release mode.
 	// Recommended to collect logs at load balancer level in production.
 	if gin.Mode() != gin.ReleaseMode {
-- 
2.43.0


From 737628fb535095814cdc23e9679838cf2d5377ee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:00:09 +0000
Subject: [PATCH 13/16] fix: do not run background jobs twice after the initial
 delay

---
 cmd/ratus/main.go | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/cmd/ratus/main.go b/cmd/ratus/main.go
index eb8b896..449e35a 100644
--- a/cmd/ratus/main.go
+++ b/cmd/ratus/main.go
@@ -208,11 +208,13 @@ func chore(ctx context.Context, g engine.Engine, c *config.ChoreConfig) error {
 			return ctx.Err()
 		case <-r.C:
 
-			// Reset the timer to use the normal interval after the initial delay.
+			// Use the normal interval after the initial delay. A new ticker is
+			// needed as further ticks of the old one may already be pending.
 			if !n {
 				log.Println("start running background jobs")
 				n = true
-				r.Reset(c.Interval)
+				r.Stop()
+				r = time.NewTicker(c.Interval)
 			}
 
 			// Run background jobs and collect the elapsed time.
-- 
2.43.0


From c7c713a4099e849a545be136b16b0bb561cc8285 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:38:22 +0000
Subject: [PATCH 14/16] fix: report failures to close the engine when
 terminating

With a snapshot path configured the final snapshot is written by Close. If
that failed, the process still exited with status 0 and the data was lost
without notice.
---
 cmd/ratus/main.go | 16 +++++++++-------
 1 file changed, 9 insertions(+), 7 deletions(-)

diff --git a/cmd/ratus/main.go b/cmd/ratus/main.go
index 449e35a..9c60a4e 100644
--- a/cmd/ratus/main.go
+++ b/cmd/ratus/main.go
@@ -73,7 +73,7 @@ func main() {
 	log.Println("shut down gracefully")
 }
 
-func run() error {
+func run() (err error) {
 
 	// Parse command line arguments.
 	var a args
@@ -83,10 +83,7 @@ func run() error {
 	ctx := context.Background()
 
 	// Create a storage engine instance of the specified type.
-	var (
-		g   engine.Engine
-		err error
-	)
+	var g engine.Engine
 	switch strings.ToLower(a.Engine) {
 	case "memdb":
 		g, err = memdb.New(&a.memdbConfig)
@@ -100,11 +97,16 @@ func run() error {
 	}
 
 	// Initialize the storage engine instance and defer the close method for
-	// graceful shutdown.
+	// graceful shutdown. Failures to close are reported as the data may not
+	// have been saved.
 	if err := g.Open(ctx); err != nil {
 		return err
 	}
-	defer g.Close(ctx)
+	defer func(ctx context.Context) {
+		if e := g.Close(ctx); err == nil {
+			err = e
+		}
+	}(ctx)
 
 	// Create router and mount API endpoints.
 	r := router.New(&controller.V1{
-- 
2.43.0


From 9a515abb523e9fbc08e512a78100a4f310664ae4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:47:50 +0000
Subject: [PATCH 15/16] fix: report bulk write errors of MongoDB that come
 along with duplicate keys

Inserting a batch of tasks ignored every error of the bulk write as soon
as one of the tasks existed, including write concern errors and errors of
other tasks, which were then silently not stored.
---
 internal/engine/mongodb/task.go | 17 ++++++++++++++++-
 1 file changed, 16 insertions(+), 1 deletion(-)

diff --git a/internal/engine/mongodb/task.go b/internal/engine/mongodb/task.go
index eff72a0..802b4fc 100644
--- a/internal/engine/mongodb/task.go
+++ b/internal/engine/mongodb/task.go
@@ -43,7 +43,7 @@ func (g *Engine) InsertTasks(ctx context.Context, ts []*ratus.Task) (*ratus.Upda
 	// MongoDB will continue to process remaining write operations in the list.
 	o := options.BulkWrite().SetOrdered(false)
 	r, err := g.collection.BulkWrite(ctx, w, o)
-	if err != nil && !mongo.IsDuplicateKeyError(err) {
+	if err != nil && !duplicatesOnly(err) {
 		return nil, err
 	}
 
@@ -53,6 +53,21 @@ func (g *Engine) InsertTasks(ctx context.Context, ts []*ratus.Task) (*ratus.Upda
 	}, nil
 }
 
+// duplicatesOnly returns whether a bulk write failed for no other reason than
+// documents that already exist.
+func duplicatesOnly(err error) bool {
+	e, ok := err.(mongo.BulkWriteException)
+	if !ok {
+		return mongo.IsDuplicateKeyError(err)
+	}
+	for _, w := range e.WriteErrors {
+		if !mongo.IsDuplicateKeyError(w) {
+			return false
+		}
+	}
+	return e.WriteConcernError == nil
+}
+
 // UpsertTasks inserts or updates a batch of tasks.
 func (g *Engine) UpsertTasks(ctx context.Context, ts []*ratus.Task) (*ratus.Updated, error) {
 	if len(ts) == 0 {
-- 
2.43.0


From d803755cc12feb793a883eaed011371819608fa0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:47:50 +0000
Subject: [PATCH 16/16] fix: report failures of the existence check on MongoDB

When the query that tells a conflict from a missing task failed, the task
was reported as not found.
---
 internal/engine/mongodb/mongodb.go |  7 +++++--
 internal/engine/mongodb/promise.go |  6 +++++-
 internal/engine/mongodb/queue.go   | 13 +++++++++----
 3 files changed, 19 insertions(+), 7 deletions(-)

diff --git a/internal/engine/mongodb/mongodb.go b/internal/engine/mongodb/mongodb.go
index f6a2ba1..a0099bd 100644
--- a/internal/engine/mongodb/mongodb.go
+++ b/internal/engine/mongodb/mongodb.go
@@ -265,9 +265,12 @@ func (g *Engine) peek(ctx context.Context, filter, sort any, hint string) (*ratu
 }
 
 // exists returns whether a document that matches the filter criteria exists.
-func (g *Engine) exists(ctx context.Context, filter any, hint string) bool {
+func (g *Engine) exists(ctx context.Context, filter any, hint string) (bool, error) {
 	_, err := g.peek(ctx, filter, nil, hint)
-	return err == nil
+	if err == mongo.ErrNoDocuments {
+		return false, nil
+	}
+	return err == nil, err
 }
 
 // queryOpsPoll returns a document containing query operators to peek into the
diff --git a/internal/engine/mongodb/promise.go b/internal/engine/mongodb/promise.go
index ab3070d..a2297ee 100644
--- a/internal/engine/mongodb/promise.go
+++ b/internal/engine/mongodb/promise.go
@@ -100,7 +100,11 @@ func (g *Engine) insertPromiseAtomic(ctx context.Context, p *ratus.Promise) (*ra
 		// Check if the failure is due to a mismatch of state or the target
 		// task does not exist.
 		if err == mongo.ErrNoDocuments {
-			if g.exists(ctx, bson.D{{Key: keyID, Value: p.ID}}, indexID) {
+			ok, e := g.exists(ctx, bson.D{{Key: keyID, Value: p.ID}}, indexID)
+			if e != nil {
+				return nil, e
+			}
+			if ok {
 				err = ratus.ErrConflict
 			} else {
 				err = ratus.ErrNotFound
diff --git a/internal/engine/mongodb/queue.go b/internal/engine/mongodb/queue.go
index f3cb35a..e5bdd0c 100644
--- a/internal/engine/mongodb/queue.go
+++ b/internal/engine/mongodb/queue.go
@@ -130,10 +130,15 @@ func (g *Engine) commitAtomic(ctx context.Context, id string, m *ratus.Commit) (
 		// Check if the failure is due to a mismatch of nonce or the target
 		// task does not exist.
 		if err == mongo.ErrNoDocuments {
-			if m.Nonce != "" && g.exists(ctx, bson.D{{Key: keyID, Value: id}}, indexID) {
-				err = ratus.ErrConflict
-			} else {
-				err = ratus.ErrNotFound
+			err = ratus.ErrNotFound
+			if m.Nonce != "" {
+				ok, e := g.exists(ctx, bson.D{{Key: keyID, Value: id}}, indexID)
+				if e != nil {
+					return nil, e
+				}
+				if ok {
+					err = ratus.ErrConflict
+				}
 			}
 		}
 		return nil, err
-- 
2.43.0

