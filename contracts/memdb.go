//go:build verif

// Contracts of internal/engine/memdb.
package contracts

//@ package github.com/hyperonym/ratus/internal/engine/memdb
//@ default panic-free C10
//@ default usable C10
//@ default private C10
//@ default frozen C10
//@ default atomic C10
//@
//@ define claimed(v, p, at, nc) = with(v, State, ratus.TaskStateActive, Nonce, nc, Consumer, p.Consumer, Consumed, at, Deadline, p.Deadline)
//@ define released(v) = with(v, State, ratus.TaskStatePending, Nonce, "")
//@ define unchanged(q) = row(db1, q) == row(db0, q)
//@ define isClaim(k, res, p) = has(db0, k) && res.ID == k && res.Consumed != nil && now0 <= res.Consumed && res.Consumed <= now1
//@    && ghost_generated(res.Nonce) && len(res.Nonce) == ratus.NonceLength && *res == claimed(row(db0, k), p, res.Consumed, res.Nonce) && row(db1, k) == res
//@ define due(t, topic, at) = t.State == ratus.TaskStatePending && t.Topic == topic && t.Scheduled != nil && t.Scheduled <= at
//@
//@ func (*Engine).Poll(g, ctx, topic, p) (res, err)
//@ ensures C18 C20 results-agree: (err == nil) <==> (res != nil)
//@ any q string
//@ requires g != nil && p != nil && g.database != nil
//@ ensures C01 claim: err == nil ==> res != nil && isClaim(res.ID, res, p)
//@ ensures C01 pending-before: err == nil ==> row(db0, res.ID).State == ratus.TaskStatePending
//@ ensures C01 frame: err == nil && q != res.ID ==> unchanged(q)
//@ ensures C01 failure-frame: err != nil ==> res == nil && unchanged(q)
//@ ensures C01 C02 not-found-only: err != nil ==> is(err, ratus.ErrNotFound)
//@ ensures C02 due: err == nil ==> due(row(db0, res.ID), topic, now1)
//@ ensures C02 earliest: err == nil && has(db0, q) && row(db0, q).Topic == topic && row(db0, q).State == ratus.TaskStatePending && row(db0, q).Scheduled != nil
//@    ==> ms(row(db0, res.ID).Scheduled) <= ms(row(db0, q).Scheduled)
//@ ensures C02 complete: err != nil && has(db0, q) && row(db0, q).Topic == topic && row(db0, q).State == ratus.TaskStatePending && row(db0, q).Scheduled != nil
//@    ==> ms(now0) <= ms(row(db0, q).Scheduled)
//@
//@ func (*Engine).Commit(g, ctx, id, m) (res, err)
//@ ensures C18 C20 results-agree: (err == nil) <==> (res != nil)
//@ any q string
//@ requires g != nil && m != nil && g.database != nil
//@ define committed1(v, m) = with(v, Nonce, "", Topic, ite(m.Topic != "", m.Topic, v.Topic), State, ite(m.State != nil, *m.State, v.State),
//@    Scheduled, ite(m.Scheduled != nil, m.Scheduled, v.Scheduled), Payload, ite(m.Payload != nil, m.Payload, v.Payload))
//@ ensures C03 applied: err == nil ==> has(db0, id) && res != nil && *res == committed1(row(db0, id), m) && row(db1, id) == res
//@ ensures C03 guarded: err == nil ==> m.Nonce == "" || m.Nonce == row(db0, id).Nonce
//@ ensures C03 nonce-cleared: err == nil ==> row(db1, id).Nonce == ""
//@ ensures C03 frame: err == nil && q != id ==> unchanged(q)
//@ ensures C03 failure-frame: err != nil ==> res == nil && unchanged(q)
//@ ensures C03 accepted: has(db0, id) && (m.Nonce == "" || m.Nonce == row(db0, id).Nonce) ==> err == nil
//@ ensures C03 conflict: err != nil && has(db0, id) ==> is(err, ratus.ErrConflict)
//@ ensures C03 missing: !has(db0, id) ==> is(err, ratus.ErrNotFound)
//@
//@ func (*Engine).Chore(g, ctx) (err)
//@ any q string
//@ requires g != nil && g.database != nil && g.config != nil
//@ opt mut g
//@ define timedout(t) = t.State == ratus.TaskStateActive && t.Deadline != nil
//@ define expirable(t) = t.State == ratus.TaskStateCompleted && t.Consumed != nil
//@ define recoveredQ(q) = has(db1, q) && *row(db1, q) == released(row(db0, q))
//@ hint row($W, q) == ite(visited($it, q, pos($it)-1), released(row($pre, q)), row($pre, q))
//@ hint row($W, q) == ite(visited($it, q, pos($it)), released(row($pre, q)), row($pre, q))
//@ hint row($W, q) == ite(visited($it, q, pos($it)-1), nil, row($pre, q))
//@ hint row($W, q) == ite(visited($it, q, pos($it)), nil, row($pre, q))
//@ ensures C04 recovered: txns > 0 && has(db0, q) && timedout(row(db0, q)) && ms(row(db0, q).Deadline) < ms(now0) ==> recoveredQ(q)
//@ ensures C04 only-timed-out: has(db0, q) && !expirable(row(db0, q)) && !(timedout(row(db0, q)) && row(db0, q).Deadline <= now1) ==> unchanged(q)
//@ ensures C04 active-kept: has(db0, q) && timedout(row(db0, q)) ==> unchanged(q) || recoveredQ(q)
//@ ensures C04 C06 none-created: !has(db0, q) ==> !has(db1, q)
//@ hint visited($it, q, pos($it)-1) ==> row($pre, q).Deadline <= now1
//@ hint visited($it, q, pos($it)) ==> row($pre, q).Deadline <= now1
//@ hint visited($it, q, pos($it)-1) ==> row($pre, q).Consumed + g.config.RetentionPeriod <= now1
//@ hint visited($it, q, pos($it)) ==> row($pre, q).Consumed + g.config.RetentionPeriod <= now1
//@ hint row($F, q) == ite(visited($it, q, pos($it)-1), row(snap, q), nil)
//@ hint row($F, q) == ite(visited($it, q, pos($it)), row(snap, q), nil)
//@ ensures C06 expired: has(db0, q) && expirable(row(db0, q)) && row(db0, q).Consumed + g.config.RetentionPeriod + 1000000 <= now0 ==> !has(db1, q)
//@ ensures C06 only-expired: has(db0, q) && !(expirable(row(db0, q)) && row(db0, q).Consumed + g.config.RetentionPeriod <= now1) ==> has(db1, q)
//@ ensures C06 deleted-or-kept: has(db1, q) && expirable(row(db0, q)) ==> unchanged(q)
//@ define path() = g.config.SnapshotPath
//@ define nofiles() = calls("Create") == 0 && calls("Rename") == 0 && calls("Remove") == 0
//@ ensures C11 no-path: path() == "" ==> nofiles() && err == nil
//@ ensures C11 complete: fs_replaced(path()) ==> fs_complete(path()) && row(fs_set(path()), q) == row(snap, q)
//@ ensures C11 intact: err != nil ==> !fs_replaced(path())
//@ ensures C11 untouched: !fs_touched(path())
//@ ensures C11 cleanup: !fs_leftover()
//@ ensures C11 not-too-often: calls("Create") > 0 ==> old(g.saved) + g.config.SnapshotInterval <= now1
//@ ensures C11 due: err == nil && path() != "" && old(g.saved) + g.config.SnapshotInterval <= now0 ==> fs_replaced(path())
//@ ensures C11 recorded: fs_replaced(path()) ==> now0 <= g.saved && g.saved <= now1
//@ ensures C11 not-recorded: !fs_replaced(path()) ==> g.saved == old(g.saved)
//@
//@ func (*Engine).Close(g, ctx) (err)
//@ any q string
//@ requires g != nil && g.database != nil && g.config != nil
//@ hint row($F, q) == ite(visited($it, q, pos($it)-1), row(snap, q), nil)
//@ hint row($F, q) == ite(visited($it, q, pos($it)), row(snap, q), nil)
//@ ensures C11 no-path: path() == "" ==> nofiles() && err == nil
//@ ensures C11 saved: err == nil && path() != "" ==> fs_replaced(path())
//@ ensures C11 complete: fs_replaced(path()) ==> fs_complete(path()) && row(fs_set(path()), q) == row(snap, q)
//@ ensures C11 intact: err != nil ==> !fs_replaced(path())
//@ ensures C11 untouched: !fs_touched(path())
//@ ensures C11 cleanup: !fs_leftover()
//@ ensures C11 frame: unchanged(q)
//@
//@ func New(c) (g, err)
//@ kind atomic -
//@ kind usable -
//@ requires c != nil
//@ ensures C32 created: err == nil && g != nil && g.config != nil && g.schema != nil
//@
//@ func (*Engine).Open(g, ctx) (err)
//@ any q string
//@ opt mut g
//@ requires g != nil && g.config != nil && g.schema != nil
//@ hint row($W, q) == row($F, q)
//@ hint opened() && call("Open").file.pos <= fs_records(call("Open").file)
//@ define opened() = calls("Open") == 1 && call("Open").ok
//@ ensures C11 no-path: path() == "" ==> calls("Open") == 0 && nofiles()
//@ ensures C11 starts-empty: err == nil && !opened() ==> g.database != nil && !has(g.database.cur, q)
//@ ensures C11 reads-snapshot: err == nil && path() != "" ==> calls("Open") == 1 && call("Open").path == path()
//@ ensures C11 restored: err == nil && opened() ==> g.database != nil && row(g.database.cur, q) == row(call("Open").file.set, q)
//@ ensures C11 restored-all: err == nil && opened() ==> call("Open").file.pos == fs_records(call("Open").file) && call("Open").file.clean
//@ ensures C11 missing-ok: calls("Open") == 1 && !call("Open").ok ==> (err == nil <==> is(call("Open").err, fs.ErrNotExist))
//@ ensures C11 C32 ready: err == nil ==> g.database != nil
//@ ensures C11 nothing-exposed: err != nil ==> g.database == old(g.database)
//@ ensures C11 reads-only: nofiles()
//@
//@ func (*Engine).Ready(g, ctx) (err)
//@ requires g != nil
//@ ensures C18 ready: g.database != nil ==> err == nil
//@ ensures C18 not-ready: g.database == nil ==> is(err, ratus.ErrServiceUnavailable)
//@
//@ func (*Engine).Destroy(g, ctx) (err)
//@ any q string
//@ requires g != nil && g.database != nil && g.config != nil
//@ hint row($F, q) == ite(visited($it, q, pos($it)-1), row(snap, q), nil)
//@ hint row($F, q) == ite(visited($it, q, pos($it)), row(snap, q), nil)
//@ ensures C08 cleared: err == nil ==> !has(db1, q)
//@ ensures C11 no-path: path() == "" ==> nofiles()
//@ ensures C11 removed: err == nil && path() != "" ==> calls("Remove") > 0 && call("Remove", calls("Remove")-1).path == path() && call("Remove", calls("Remove")-1).ok
//@
//@ func (*Engine).GetTask(g, ctx, id) (res, err)
//@ ensures C18 C20 results-agree: (err == nil) <==> (res != nil)
//@ any q string
//@ requires g != nil && g.database != nil
//@ ensures C09 found: has(snap, id) ==> err == nil && res != nil && *res == row(snap, id)
//@ ensures C09 missing: !has(snap, id) ==> res == nil && is(err, ratus.ErrNotFound)
//@ ensures C09 reads-only: unchanged(q)
//@
//@ func (*Engine).InsertTask(g, ctx, t) (res, err)
//@ ensures C18 C20 results-agree: (err == nil) <==> (res != nil)
//@ ensures C20 counts: res != nil ==> res.Created >= 0 && res.Updated >= 0
//@ any q string
//@ requires g != nil && g.database != nil && t != nil
//@ define valid(t) = t.ID != "" && t.Topic != ""
//@ ensures C07 stored: err == nil ==> !has(db0, t.ID) && has(db1, t.ID) && *row(db1, t.ID) == *t
//@ ensures C07 frame: err == nil && q != t.ID ==> unchanged(q)
//@ ensures C07 failure-frame: err != nil ==> res == nil && unchanged(q)
//@ ensures C07 conflict: has(db0, t.ID) ==> is(err, ratus.ErrConflict)
//@ ensures C07 accepted: !has(db0, t.ID) && valid(t) ==> err == nil
//@ ensures C07 counts: err == nil ==> res != nil && res.Created == 1 && res.Updated == 0
//@
//@ func (*Engine).UpsertTask(g, ctx, t) (res, err)
//@ ensures C18 C20 results-agree: (err == nil) <==> (res != nil)
//@ ensures C20 counts: res != nil ==> res.Created >= 0 && res.Updated >= 0
//@ any q string
//@ requires g != nil && g.database != nil && t != nil
//@ ensures C07 stored: err == nil ==> has(db1, t.ID) && *row(db1, t.ID) == *t
//@ ensures C07 frame: err == nil && q != t.ID ==> unchanged(q)
//@ ensures C07 failure-frame: err != nil ==> res == nil && unchanged(q)
//@ ensures C07 accepted: valid(t) ==> err == nil
//@ ensures C07 counts: err == nil ==> res != nil && res.Created == ite(has(db0, t.ID), 0, 1) && res.Updated == ite(has(db0, t.ID), 1, 0)
//@
//@ rec firstWith(ts, q, i) *ratus.Task : nil ; ite(prev != nil, prev, ite(ts[i].ID == q, ts[i], nil))
//@ rec lastWith(ts, q, i) *ratus.Task : nil ; ite(ts[i].ID == q, ts[i], prev)
//@ rec created(db, ts, i) int : 0 ; prev + ite(!has(db, ts[i].ID) && firstWith(ts, ts[i].ID, i) == nil, 1, 0)
//@ rec createdL(db, ts, i) int : 0 ; prev + ite(!has(db, ts[i].ID) && lastWith(ts, ts[i].ID, i) == nil, 1, 0)
//@
//@ func (*Engine).InsertTasks(g, ctx, ts) (res, err)
//@ ensures C18 C20 results-agree: (err == nil) <==> (res != nil)
//@ ensures C20 counts: res != nil ==> res.Created >= 0 && res.Updated >= 0
//@ any q string
//@ requires g != nil && g.database != nil && each(ts, t, t != nil)
//@ hint row($W, q) == ite(has($pre, q), row($pre, q), firstWith(ts, q, $n))
//@ hint $i == created($pre, ts, $n)
//@ ensures C07 stored: err == nil ==> row(db1, q) == ite(has(db0, q), row(db0, q), firstWith(ts, q, len(ts)))
//@ ensures C07 failure-frame: err != nil ==> res == nil && unchanged(q)
//@ ensures C07 accepted: each(ts, t, valid(t)) ==> err == nil
//@ ensures C07 counts: err == nil ==> res != nil && res.Created == created(db0, ts, len(ts)) && res.Updated == 0
//@
//@ func (*Engine).UpsertTasks(g, ctx, ts) (res, err)
//@ ensures C18 C20 results-agree: (err == nil) <==> (res != nil)
//@ ensures C20 counts: res != nil ==> res.Created >= 0 && res.Updated >= 0
//@ any q string
//@ requires g != nil && g.database != nil && each(ts, t, t != nil)
//@ hint row($W, q) == ite(lastWith(ts, q, $n) != nil, lastWith(ts, q, $n), row($pre, q))
//@ hint $i == createdL($pre, ts, $n)
//@ hint $i <= $n
//@ ensures C07 stored: err == nil ==> row(db1, q) == ite(lastWith(ts, q, len(ts)) != nil, lastWith(ts, q, len(ts)), row(db0, q))
//@ ensures C07 failure-frame: err != nil ==> res == nil && unchanged(q)
//@ ensures C07 accepted: each(ts, t, valid(t)) ==> err == nil
//@ ensures C07 counts: err == nil ==> res != nil && res.Created == createdL(db0, ts, len(ts)) && res.Updated == len(ts) - createdL(db0, ts, len(ts))
//@
//@ func (*Engine).DeleteTask(g, ctx, id) (res, err)
//@ ensures C18 C20 results-agree: (err == nil) <==> (res != nil)
//@ any q string
//@ requires g != nil && g.database != nil
//@ ensures C08 no-error: err == nil && res != nil
//@ ensures C08 removed: !has(db1, id)
//@ ensures C08 frame: q != id ==> unchanged(q)
//@ ensures C08 count: res.Deleted == ite(has(db0, id), 1, 0)
//@
//@ define inTopic(q, topic) = has(db0, q) && row(db0, q).Topic == topic
//@ func (*Engine).DeleteTasks(g, ctx, topic) (res, err)
//@ ensures C18 C20 results-agree: (err == nil) <==> (res != nil)
//@ any q string
//@ requires g != nil && g.database != nil
//@ ensures C08 no-error: err == nil && res != nil
//@ ensures C08 removed: row(db1, q) == ite(inTopic(q, topic), nil, row(db0, q))
//@ ensures C08 count: res.Deleted == count(enum(db0, "str.Topic", topic))
//@
//@ func (*Engine).DeleteTopic(g, ctx, topic) (res, err)
//@ ensures C18 C20 results-agree: (err == nil) <==> (res != nil)
//@ any q string
//@ requires g != nil && g.database != nil
//@ ensures C08 no-error: err == nil && res != nil
//@ ensures C08 removed: row(db1, q) == ite(inTopic(q, topic), nil, row(db0, q))
//@ ensures C08 count: res.Deleted == count(enum(db0, "str.Topic", topic))
//@
//@ func (*Engine).DeleteTopics(g, ctx) (res, err)
//@ ensures C18 C20 results-agree: (err == nil) <==> (res != nil)
//@ any q string
//@ requires g != nil && g.database != nil
//@ ensures C08 no-error: err == nil && res != nil
//@ ensures C08 removed: !has(db1, q)
//@ ensures C08 count: res.Deleted == count(enum(db0, "str.Topic"))
//@
//@ func (*Engine).ListTasks(g, ctx, topic, limit, offset) (res, err)
//@ any q string
//@ any k int
//@ requires g != nil && g.database != nil && limit >= 0 && offset >= 0
//@ define window(n, limit, offset) = max(0, min(limit, n - offset))
//@ hint len($s) == max(0, pos($it)-1-offset)
//@ hint len($s) == max(0, pos($it)-offset)
//@ hint 0 <= k && k < len($s) ==> $s[k] == elem($it, offset+k)
//@ hint pos($it)-1 <= offset + limit
//@ hint pos($it) <= offset + limit
//@ ensures C09 C16 no-error: err == nil
//@ ensures C09 length: len(res) == window(count(enum(snap, "str.Topic", topic)), limit, offset)
//@ ensures C09 items: 0 <= k && k < len(res) ==> res[k] == elem(enum(snap, "str.Topic", topic), offset+k)
//@ ensures C09 reads-only: unchanged(q)
//@
//@ func (*Engine).ListPromises(g, ctx, topic, limit, offset) (res, err)
//@ any q string
//@ any k int
//@ requires g != nil && g.database != nil && limit >= 0 && offset >= 0
//@ define promises(topic) = enum(snap, "state.State=1,str.Topic", ratus.TaskStateActive, topic)
//@ define shows(p, t) = p.ID == t.ID && p.Consumer == t.Consumer && p.Deadline == t.Deadline
//@ hint len($s) == max(0, pos($it)-1-offset)
//@ hint len($s) == max(0, pos($it)-offset)
//@ hint 0 <= k && k < len($s) ==> $s[k] != nil && shows($s[k], elem($it, offset+k))
//@ hint pos($it)-1 <= offset + limit
//@ hint pos($it) <= offset + limit
//@ ensures C05 C09 no-error: err == nil
//@ ensures C05 C09 length: len(res) == window(count(promises(topic)), limit, offset)
//@ ensures C05 C09 items: 0 <= k && k < len(res) ==> res[k] != nil && shows(res[k], elem(promises(topic), offset+k))
//@ ensures C05 C09 reads-only: unchanged(q)
//@
//@ func (*Engine).GetTopic(g, ctx, topic) (res, err)
//@ ensures C18 C20 results-agree: (err == nil) <==> (res != nil)
//@ any q string
//@ requires g != nil && g.database != nil
//@ hint $i == pos($it)-1
//@ hint $i == pos($it)
//@ ensures C09 found: count(enum(snap, "str.Topic", topic)) > 0 ==> err == nil && res != nil && res.Name == topic && res.Count == count(enum(snap, "str.Topic", topic))
//@ ensures C09 missing: count(enum(snap, "str.Topic", topic)) == 0 ==> res == nil && is(err, ratus.ErrNotFound)
//@ ensures C09 reads-only: unchanged(q)
//@
//@ rec topics(e, i) int : 0 ; prev + ite(i == 0 || elem(e, i).Topic != elem(e, i-1).Topic, 1, 0)
//@ mono topics
//@ define starts(e, i) = 0 <= i && i < count(e) && (i == 0 || elem(e, i).Topic != elem(e, i-1).Topic)
//@ func (*Engine).ListTopics(g, ctx, limit, offset) (res, err)
//@ any q string
//@ any k int
//@ requires g != nil && g.database != nil && limit >= 0 && offset >= 0
//@ define all() = enum(snap, "str.Topic")
//@ hint $i == topics(all(), pos($it)-1)
//@ hint $i == topics(all(), pos($it))
//@ hint $str == ite(pos($it) <= 1, "", elem(all(), pos($it)-2).Topic)
//@ hint $str == ite(pos($it) <= 0, "", elem(all(), pos($it)-1).Topic)
//@ hint len($s) == max(0, topics(all(), pos($it)-1) - offset)
//@ hint len($s) == max(0, topics(all(), pos($it)) - offset)
//@ hint len($s) <= limit
//@ hint starts(all(), k) && k < pos($it)-1 && offset <= topics(all(), k) ==> topics(all(), k) - offset < len($s) && $s[topics(all(), k) - offset] != nil && $s[topics(all(), k) - offset].Name == elem(all(), k).Topic
//@ hint starts(all(), k) && k < pos($it) && offset <= topics(all(), k) ==> topics(all(), k) - offset < len($s) && $s[topics(all(), k) - offset] != nil && $s[topics(all(), k) - offset].Name == elem(all(), k).Topic
//@ ensures C09 no-error: err == nil
//@ ensures C09 C16 limit: len(res) <= limit
//@ ensures C09 length: len(res) == limit || len(res) == max(0, topics(all(), count(all())) - offset)
//@ ensures C09 items: starts(all(), k) && offset <= topics(all(), k) && topics(all(), k) < offset + len(res) ==> res[topics(all(), k) - offset] != nil && res[topics(all(), k) - offset].Name == elem(all(), k).Topic
//@ ensures C09 reads-only: unchanged(q)
//@
//@ func (*Engine).GetPromise(g, ctx, id) (res, err)
//@ ensures C18 C20 results-agree: (err == nil) <==> (res != nil)
//@ any q string
//@ requires g != nil && g.database != nil
//@ define active(db, id) = has(db, id) && row(db, id).State == ratus.TaskStateActive
//@ ensures C05 found: active(snap, id) ==> err == nil && res != nil && shows(res, row(snap, id))
//@ ensures C05 missing: !active(snap, id) ==> res == nil && is(err, ratus.ErrNotFound)
//@ ensures C05 reads-only: unchanged(q)
//@
//@ func (*Engine).InsertPromise(g, ctx, p) (res, err)
//@ ensures C18 C20 results-agree: (err == nil) <==> (res != nil)
//@ any q string
//@ requires g != nil && g.database != nil && p != nil
//@ ensures C01 claim: err == nil ==> res != nil && res.ID == p.ID && isClaim(p.ID, res, p)
//@ ensures C01 pending-before: err == nil ==> row(db0, p.ID).State == ratus.TaskStatePending
//@ ensures C01 frame: err == nil && q != p.ID ==> unchanged(q)
//@ ensures C01 failure-frame: err != nil ==> res == nil && unchanged(q)
//@ ensures C01 missing: !has(db0, p.ID) ==> is(err, ratus.ErrNotFound)
//@ ensures C01 conflict: has(db0, p.ID) && row(db0, p.ID).State != ratus.TaskStatePending ==> is(err, ratus.ErrConflict)
//@ ensures C01 accepted: has(db0, p.ID) && row(db0, p.ID).State == ratus.TaskStatePending ==> err == nil
//@
//@ func (*Engine).UpsertPromise(g, ctx, p) (res, err)
//@ ensures C18 C20 results-agree: (err == nil) <==> (res != nil)
//@ any q string
//@ requires g != nil && g.database != nil && p != nil
//@ ensures C01 claim: err == nil ==> res != nil && res.ID == p.ID && isClaim(p.ID, res, p)
//@ ensures C01 frame: err == nil && q != p.ID ==> unchanged(q)
//@ ensures C01 failure-frame: err != nil ==> res == nil && unchanged(q)
//@ ensures C01 missing: !has(db0, p.ID) ==> is(err, ratus.ErrNotFound)
//@ ensures C01 accepted: has(db0, p.ID) ==> err == nil
//@
//@ func (*Engine).DeletePromise(g, ctx, id) (res, err)
//@ ensures C18 C20 results-agree: (err == nil) <==> (res != nil)
//@ any q string
//@ requires g != nil && g.database != nil
//@ ensures C05 no-error: err == nil && res != nil
//@ ensures C05 released: active(db0, id) ==> has(db1, id) && *row(db1, id) == released(row(db0, id))
//@ ensures C05 inactive-kept: !active(db0, id) ==> unchanged(id)
//@ ensures C05 frame: q != id ==> unchanged(q)
//@ ensures C05 count: res.Deleted == ite(active(db0, id), 1, 0)
//@
//@ func (*Engine).DeletePromises(g, ctx, topic) (res, err)
//@ ensures C18 C20 results-agree: (err == nil) <==> (res != nil)
//@ any q string
//@ requires g != nil && g.database != nil
//@ hint row($W, q) == ite(visited($it, q, pos($it)-1), released(row($pre, q)), row($pre, q))
//@ hint row($W, q) == ite(visited($it, q, pos($it)), released(row($pre, q)), row($pre, q))
//@ hint $i == pos($it)-1
//@ hint $i == pos($it)
//@ ensures C05 no-error: err == nil && res != nil
//@ ensures C05 released: active(db0, q) && row(db0, q).Topic == topic ==> has(db1, q) && *row(db1, q) == released(row(db0, q))
//@ ensures C05 frame: !(active(db0, q) && row(db0, q).Topic == topic) ==> unchanged(q)
//@ ensures C05 count: res.Deleted == count(enum(db0, "state.State=1,str.Topic", ratus.TaskStateActive, topic))
