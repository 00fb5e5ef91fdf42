//go:build verif

// Contracts of internal/engine/mongodb. db0 and db1 are the collection right
// before and after the command that changed it (or at the time of the last
// command, if none did), snap is the collection at the time of the last
// command; between two commands other clients may change it arbitrarily. stable
// says that it was the same at the time of every command of the operation,
// and dberr that the database reported a failure.
package contracts

//@ package github.com/hyperonym/ratus/internal/engine/mongodb
//@ default panic-free C29
//@ default usable -
//@ default private -
//@ default frozen C29
//@ default atomic C26 C27 C28 C29
//@
//@ define mclaimed(v, p, at, nc) = with(v, State, ratus.TaskStateActive, Nonce, nc, Consumer, p.Consumer, Consumed, at, Deadline, dbtime(p.Deadline))
//@ define misClaim(k, res, p) = has(db0, k) && res.ID == k && res.Consumed != nil && ms(now0) <= ms(res.Consumed) && ms(res.Consumed) <= ms(now1)
//@    && ghost_generated(res.Nonce) && len(res.Nonce) == ratus.NonceLength && *res == mclaimed(row(db0, k), p, res.Consumed, res.Nonce) && row(db1, k) == res
//@ define mlostClaim(q, p) = has(db0, q) && has(db1, q) && *row(db1, q) == mclaimed(row(db0, q), p, row(db1, q).Consumed, row(db1, q).Nonce) && ghost_generated(row(db1, q).Nonce)
//@ define reported(err) = is(err, ratus.ErrNotFound) || is(err, ratus.ErrConflict)
//@ define mdue(t, topic) = t.State == ratus.TaskStatePending && t.Topic == topic && t.Scheduled != nil
//@ define mcommitted(v, m) = with(v, Nonce, "", Topic, ite(m.Topic != "", m.Topic, v.Topic), State, ite(m.State != nil, *m.State, v.State),
//@    Scheduled, ite(m.Scheduled != nil, dbtime(m.Scheduled), v.Scheduled), Payload, ite(m.Payload != nil, stored(m.Payload), v.Payload))
//@ define nonceOk(v, m) = m.Nonce == "" || m.Nonce == v.Nonce
//@ define flagsSet(g) = g.fallbackPoll != nil && g.fallbackCommit != nil && g.fallbackUpsertTasks != nil && g.fallbackUpsertTask != nil && g.fallbackInsertPromise != nil && g.fallbackUpsertPromise != nil
//@ define ready(g) = g != nil && g.collection != nil
//@
//@ func (*Engine).Poll(g, ctx, topic, p) (res, err)
//@ any q string
//@ requires ready(g) && p != nil && flagsSet(g)
//@ ensures C26 results-agree: (err == nil) <==> (res != nil)
//@ ensures C26 claim: err == nil ==> misClaim(res.ID, res, p)
//@ ensures C26 due: err == nil ==> mdue(row(db0, res.ID), topic) && ms(row(db0, res.ID).Scheduled) <= ms(now1)
//@ ensures C26 frame: err == nil && q != res.ID ==> unchanged(q)
//@ ensures C26 failure-frame: err != nil && !unchanged(q) ==> dberr && mlostClaim(q, p) && mdue(row(db0, q), topic)
//@ ensures C26 reported: reported(err) ==> unchanged(q)
//@ ensures C26 earliest: err == nil && stable && has(db0, q) && mdue(row(db0, q), topic) ==> ms(row(db0, res.ID).Scheduled) <= ms(row(db0, q).Scheduled)
//@ ensures C26 complete: is(err, ratus.ErrNotFound) && has(snap, q) && mdue(row(snap, q), topic) ==> ms(now0) <= ms(row(snap, q).Scheduled)
//@ ensures C26 only-not-found: err != nil && !dberr ==> is(err, ratus.ErrNotFound)
//@ ghost local unsup bool = false
//@ ghost local pref int = 0
//@ ghost local alt int = 0
//@ ghost local lastok bool = false
//@ set FindOneAndUpdate unsup = unsup || !ev.pinned && unsupportedop(ev.err)
//@ set FindOneAndUpdate pref = ite(ev.pinned, pref, pref + 1)
//@ set FindOneAndUpdate lastok = ev.ok
//@ set FindOne alt = alt + 1
//@ set FindOne unsup = unsup || unsupportedop(ev.err)
//@ on FindOneAndUpdate C30 fallback-only-if-unsupported: ev.pinned ==> old(flag(g.fallbackPoll)) > 0 || old(flag(g.fallbackPoll)) == 0 && (unsup || flagenv)
//@ ensures C30 fallback-used-directly: old(flag(g.fallbackPoll)) > 0 ==> pref == 0
//@ ensures C30 preferred-first: old(flag(g.fallbackPoll)) <= 0 && !flagenv ==> pref == 1
//@ ensures C30 switches: old(flag(g.fallbackPoll)) == 0 && unsup ==> flag(g.fallbackPoll) > 0 && alt > 0
//@ ensures C30 mode-kept: flag(g.fallbackPoll) == old(flag(g.fallbackPoll)) || old(flag(g.fallbackPoll)) == 0 && (unsup || flagenv)
//@ ensures C30 result-of-last: lastok ==> err == nil
//@ ensures C30 other-modes-kept: flag(g.fallbackCommit) == old(flag(g.fallbackCommit)) && flag(g.fallbackUpsertTasks) == old(flag(g.fallbackUpsertTasks)) && flag(g.fallbackUpsertTask) == old(flag(g.fallbackUpsertTask)) && flag(g.fallbackInsertPromise) == old(flag(g.fallbackInsertPromise)) && flag(g.fallbackUpsertPromise) == old(flag(g.fallbackUpsertPromise))
//@
//@ func (*Engine).pollOptimistic(g, ctx, topic, p) (res, err)
//@ any q string
//@ requires ready(g) && p != nil
//@ ensures C26 results-agree: (err == nil) <==> (res != nil)
//@ ensures C26 claim: err == nil ==> misClaim(res.ID, res, p)
//@ ensures C26 due: err == nil ==> mdue(row(db0, res.ID), topic) && ms(row(db0, res.ID).Scheduled) <= ms(now1)
//@ ensures C26 frame: err == nil && q != res.ID ==> unchanged(q)
//@ ensures C26 failure-frame: err != nil && !unchanged(q) ==> dberr && mlostClaim(q, p) && mdue(row(db0, q), topic)
//@ ensures C26 reported: reported(err) ==> unchanged(q)
//@ ensures C26 earliest: err == nil && stable && has(db0, q) && mdue(row(db0, q), topic) ==> ms(row(db0, res.ID).Scheduled) <= ms(row(db0, q).Scheduled)
//@ ensures C26 complete: is(err, ratus.ErrNotFound) && has(snap, q) && mdue(row(snap, q), topic) ==> ms(now0) <= ms(row(snap, q).Scheduled)
//@ ensures C26 only-not-found: err != nil && !dberr ==> is(err, ratus.ErrNotFound)
//@
//@ func (*Engine).InsertPromise(g, ctx, p) (res, err)
//@ any q string
//@ requires ready(g) && p != nil && flagsSet(g)
//@ ensures C26 results-agree: (err == nil) <==> (res != nil)
//@ ensures C26 claim: err == nil ==> res.ID == p.ID && misClaim(p.ID, res, p)
//@ ensures C26 frame: q != p.ID ==> unchanged(q)
//@ ensures C26 failure-frame: err != nil && !unchanged(q) ==> dberr && mlostClaim(q, p) && row(db0, q).State == ratus.TaskStatePending
//@ ensures C26 reported: reported(err) ==> unchanged(q)
//@ ensures C26 only-reported: err != nil && !dberr ==> reported(err)
//@ ensures C26 missing: is(err, ratus.ErrNotFound) ==> !has(snap, p.ID)
//@ ensures C26 pending-before: err == nil ==> row(db0, p.ID).State == ratus.TaskStatePending
//@ ensures C26 conflict: is(err, ratus.ErrConflict) ==> everhad(p.ID)
//@ ensures C26 accepted: stable && !dberr && has(db0, p.ID) && row(db0, p.ID).State == ratus.TaskStatePending ==> err == nil
//@ ensures C26 rejected: stable && !dberr && has(db0, p.ID) && row(db0, p.ID).State != ratus.TaskStatePending ==> is(err, ratus.ErrConflict)
//@ ghost local unsup bool = false
//@ ghost local pref int = 0
//@ ghost local alt int = 0
//@ ghost local lastok bool = false
//@ set FindOneAndUpdate unsup = unsup || !ev.pinned && unsupportedop(ev.err)
//@ set FindOneAndUpdate pref = ite(ev.pinned, pref, pref + 1)
//@ set FindOneAndUpdate lastok = ev.ok
//@ set FindOne alt = alt + 1
//@ set FindOne unsup = unsup || unsupportedop(ev.err)
//@ on FindOneAndUpdate C30 fallback-only-if-unsupported: ev.pinned ==> old(flag(g.fallbackInsertPromise)) > 0 || old(flag(g.fallbackInsertPromise)) == 0 && (unsup || flagenv)
//@ ensures C30 fallback-used-directly: old(flag(g.fallbackInsertPromise)) > 0 ==> pref == 0
//@ ensures C30 preferred-first: old(flag(g.fallbackInsertPromise)) <= 0 && !flagenv ==> pref == 1
//@ ensures C30 switches: old(flag(g.fallbackInsertPromise)) == 0 && unsup ==> flag(g.fallbackInsertPromise) > 0 && alt > 0
//@ ensures C30 mode-kept: flag(g.fallbackInsertPromise) == old(flag(g.fallbackInsertPromise)) || old(flag(g.fallbackInsertPromise)) == 0 && (unsup || flagenv)
//@ ensures C30 result-of-last: lastok ==> err == nil
//@ ensures C30 other-modes-kept: flag(g.fallbackPoll) == old(flag(g.fallbackPoll)) && flag(g.fallbackCommit) == old(flag(g.fallbackCommit)) && flag(g.fallbackUpsertTasks) == old(flag(g.fallbackUpsertTasks)) && flag(g.fallbackUpsertTask) == old(flag(g.fallbackUpsertTask)) && flag(g.fallbackUpsertPromise) == old(flag(g.fallbackUpsertPromise))
//@
//@ func (*Engine).UpsertPromise(g, ctx, p) (res, err)
//@ any q string
//@ requires ready(g) && p != nil && flagsSet(g)
//@ ensures C26 results-agree: (err == nil) <==> (res != nil)
//@ ensures C26 claim: err == nil ==> res.ID == p.ID && misClaim(p.ID, res, p)
//@ ensures C26 frame: q != p.ID ==> unchanged(q)
//@ ensures C26 failure-frame: err != nil && !unchanged(q) ==> dberr && mlostClaim(q, p)
//@ ensures C26 reported: reported(err) ==> unchanged(q)
//@ ensures C26 only-reported: err != nil && !dberr ==> is(err, ratus.ErrNotFound)
//@ ensures C26 missing: is(err, ratus.ErrNotFound) ==> !has(snap, p.ID)
//@ ensures C26 accepted: stable && !dberr && has(db0, p.ID) ==> err == nil
//@ ghost local unsup bool = false
//@ ghost local pref int = 0
//@ ghost local alt int = 0
//@ ghost local lastok bool = false
//@ set FindOneAndUpdate unsup = unsup || !ev.pinned && unsupportedop(ev.err)
//@ set FindOneAndUpdate pref = ite(ev.pinned, pref, pref + 1)
//@ set FindOneAndUpdate lastok = ev.ok
//@ set FindOne alt = alt + 1
//@ set FindOne unsup = unsup || unsupportedop(ev.err)
//@ on FindOneAndUpdate C30 fallback-only-if-unsupported: ev.pinned ==> old(flag(g.fallbackUpsertPromise)) > 0 || old(flag(g.fallbackUpsertPromise)) == 0 && (unsup || flagenv)
//@ ensures C30 fallback-used-directly: old(flag(g.fallbackUpsertPromise)) > 0 ==> pref == 0
//@ ensures C30 preferred-first: old(flag(g.fallbackUpsertPromise)) <= 0 && !flagenv ==> pref == 1
//@ ensures C30 switches: old(flag(g.fallbackUpsertPromise)) == 0 && unsup ==> flag(g.fallbackUpsertPromise) > 0 && alt > 0
//@ ensures C30 mode-kept: flag(g.fallbackUpsertPromise) == old(flag(g.fallbackUpsertPromise)) || old(flag(g.fallbackUpsertPromise)) == 0 && (unsup || flagenv)
//@ ensures C30 result-of-last: lastok ==> err == nil
//@ ensures C30 other-modes-kept: flag(g.fallbackPoll) == old(flag(g.fallbackPoll)) && flag(g.fallbackCommit) == old(flag(g.fallbackCommit)) && flag(g.fallbackUpsertTasks) == old(flag(g.fallbackUpsertTasks)) && flag(g.fallbackUpsertTask) == old(flag(g.fallbackUpsertTask)) && flag(g.fallbackInsertPromise) == old(flag(g.fallbackInsertPromise))
//@
//@ func (*Engine).upsertPromiseOptimistic(g, ctx, p) (res, err)
//@ any q string
//@ requires ready(g) && p != nil
//@ ensures C26 results-agree: (err == nil) <==> (res != nil)
//@ ensures C26 claim: err == nil ==> res.ID == p.ID && misClaim(p.ID, res, p)
//@ ensures C26 frame: q != p.ID ==> unchanged(q)
//@ ensures C26 failure-frame: err != nil && !unchanged(q) ==> dberr && mlostClaim(q, p)
//@ ensures C26 reported: reported(err) ==> unchanged(q)
//@ ensures C26 only-reported: err != nil && !dberr ==> is(err, ratus.ErrNotFound)
//@ ensures C26 missing: is(err, ratus.ErrNotFound) ==> !has(snap, p.ID)
//@ ensures C26 accepted: stable && !dberr && has(db0, p.ID) ==> err == nil
//@
//@ func (*Engine).Commit(g, ctx, id, m) (res, err)
//@ any q string
//@ requires ready(g) && m != nil && flagsSet(g)
//@ ensures C27 results-agree: (err == nil) <==> (res != nil)
//@ ensures C27 applied: err == nil ==> has(db0, id) && *res == mcommitted(row(db0, id), m) && row(db1, id) == res
//@ ensures C27 guarded: !unchanged(id) ==> has(db0, id) && nonceOk(row(db0, id), m)
//@ ensures C27 nonce-cleared: err == nil ==> row(db1, id).Nonce == ""
//@ ensures C27 frame: q != id ==> unchanged(q)
//@ ensures C27 failure-frame: err != nil && !unchanged(id) ==> dberr && *row(db1, id) == mcommitted(row(db0, id), m)
//@ ensures C27 reported: reported(err) ==> unchanged(id)
//@ ensures C27 only-reported: err != nil && !dberr ==> reported(err)
//@ ensures C27 missing: is(err, ratus.ErrNotFound) ==> !has(snap, id)
//@ ensures C27 conflict: is(err, ratus.ErrConflict) ==> everhad(id)
//@ ensures C27 accepted: stable && !dberr && has(db0, id) && nonceOk(row(db0, id), m) ==> err == nil
//@ ensures C27 rejected: stable && !dberr && has(db0, id) && !nonceOk(row(db0, id), m) ==> is(err, ratus.ErrConflict)
//@ ghost local unsup bool = false
//@ ghost local pref int = 0
//@ ghost local alt int = 0
//@ ghost local lastok bool = false
//@ set FindOneAndUpdate unsup = unsup || !ev.pinned && unsupportedop(ev.err)
//@ set FindOneAndUpdate pref = ite(ev.pinned, pref, pref + 1)
//@ set FindOneAndUpdate lastok = ev.ok
//@ set FindOne alt = alt + 1
//@ set FindOne unsup = unsup || unsupportedop(ev.err)
//@ on FindOneAndUpdate C30 fallback-only-if-unsupported: ev.pinned ==> old(flag(g.fallbackCommit)) > 0 || old(flag(g.fallbackCommit)) == 0 && (unsup || flagenv)
//@ ensures C30 fallback-used-directly: old(flag(g.fallbackCommit)) > 0 ==> pref == 0
//@ ensures C30 preferred-first: old(flag(g.fallbackCommit)) <= 0 && !flagenv ==> pref == 1
//@ ensures C30 switches: old(flag(g.fallbackCommit)) == 0 && unsup ==> flag(g.fallbackCommit) > 0 && alt > 0
//@ ensures C30 mode-kept: flag(g.fallbackCommit) == old(flag(g.fallbackCommit)) || old(flag(g.fallbackCommit)) == 0 && (unsup || flagenv)
//@ ensures C30 result-of-last: lastok ==> err == nil
//@ ensures C30 other-modes-kept: flag(g.fallbackPoll) == old(flag(g.fallbackPoll)) && flag(g.fallbackUpsertTasks) == old(flag(g.fallbackUpsertTasks)) && flag(g.fallbackUpsertTask) == old(flag(g.fallbackUpsertTask)) && flag(g.fallbackInsertPromise) == old(flag(g.fallbackInsertPromise)) && flag(g.fallbackUpsertPromise) == old(flag(g.fallbackUpsertPromise))
//@
//@ define mtimedout(t) = t.State == ratus.TaskStateActive && t.Deadline != nil
//@ define mreleased(q) = has(db0, q) && has(db1, q) && *row(db1, q) == released(row(db0, q))
//@ func (*Engine).Chore(g, ctx) (err)
//@ any q string
//@ requires ready(g)
//@ ensures C28 recovered: err == nil && has(db0, q) && mtimedout(row(db0, q)) && ms(row(db0, q).Deadline) < ms(now0) ==> mreleased(q)
//@ ensures C28 only-timed-out: !unchanged(q) ==> mreleased(q) && mtimedout(row(db0, q)) && ms(row(db0, q).Deadline) < ms(now1)
//@ ensures C28 failures-reported: dberr ==> err != nil
//@ ensures C28 no-other-failure: err != nil ==> dberr
//@ ensures C28 one-command: txns == 1
//@
//@ func (*Engine).DeletePromises(g, ctx, topic) (res, err)
//@ any q string
//@ requires ready(g)
//@ define mine(db, q, topic) = active(db, q) && row(db, q).Topic == topic
//@ ensures C28 results-agree: (err == nil) <==> (res != nil)
//@ ensures C28 released: err == nil && mine(db0, q, topic) ==> mreleased(q)
//@ ensures C28 frame: !unchanged(q) ==> mine(db0, q, topic) && mreleased(q)
//@ ensures C28 count: err == nil ==> (dbcounted(res.Deleted, q) <==> mine(db0, q, topic))
//@ ensures C28 failures-reported: dberr <==> err != nil
//@
//@ func (*Engine).DeletePromise(g, ctx, id) (res, err)
//@ any q string
//@ requires ready(g)
//@ ensures C28 results-agree: (err == nil) <==> (res != nil)
//@ ensures C28 released: err == nil && active(db0, id) ==> mreleased(id)
//@ ensures C28 frame: !unchanged(q) ==> q == id && active(db0, id) && mreleased(q)
//@ ensures C28 count: err == nil ==> res.Deleted == ite(active(db0, id), 1, 0)
//@ ensures C28 failures-reported: dberr <==> err != nil
//@
//@ func (*Engine).GetPromise(g, ctx, id) (res, err)
//@ any q string
//@ requires ready(g)
//@ ensures C28 results-agree: (err == nil) <==> (res != nil)
//@ ensures C28 found: err == nil ==> active(snap, id) && shows(res, row(snap, id))
//@ ensures C28 missing: is(err, ratus.ErrNotFound) ==> !active(snap, id)
//@ ensures C28 failures-reported: err != nil && !dberr ==> is(err, ratus.ErrNotFound)
//@ ensures C28 failures-passed-on: dberr ==> err != nil && !reported(err)
//@ ensures C28 reads-only: unchanged(q)
//@
//@ func (*Engine).ListPromises(g, ctx, topic, limit, offset) (res, err)
//@ any q string
//@ any k int
//@ requires ready(g) && limit > 0 && offset >= 0
//@ define found() = call("Find").enum
//@ ensures C28 shown: err == nil && 0 <= k && k < len(res) ==> res[k] != nil && shows(res[k], elem(found(), offset+k)) && elem(found(), offset+k).State == ratus.TaskStateActive && elem(found(), offset+k).Topic == topic
//@ ensures C28 length: err == nil ==> len(res) == window(count(found()), limit, offset)
//@ ensures C28 all: err == nil && mine(snap, q, topic) ==> 0 <= indexof(found(), q) && indexof(found(), q) < count(found())
//@ ensures C28 not-null: err == nil ==> res != nil
//@ ensures C28 failures-reported: dberr <==> err != nil
//@ ensures C28 reads-only: unchanged(q)
//@
//@ func (*Engine).GetTask(g, ctx, id) (res, err)
//@ any q string
//@ requires ready(g)
//@ ensures C29 results-agree: (err == nil) <==> (res != nil)
//@ ensures C29 found: err == nil ==> has(snap, id) && *res == row(snap, id)
//@ ensures C29 missing: is(err, ratus.ErrNotFound) ==> !has(snap, id)
//@ ensures C29 failures-reported: err != nil && !dberr ==> is(err, ratus.ErrNotFound)
//@ ensures C29 failures-passed-on: dberr ==> err != nil && !reported(err)
//@ ensures C29 reads-only: unchanged(q)
//@
//@ func (*Engine).InsertTask(g, ctx, t) (res, err)
//@ any q string
//@ requires ready(g) && t != nil
//@ ensures C29 results-agree: (err == nil) <==> (res != nil)
//@ ensures C29 stored: err == nil ==> !has(db0, t.ID) && has(db1, t.ID) && *row(db1, t.ID) == stored(*t)
//@ ensures C29 frame: !unchanged(q) ==> q == t.ID && !has(db0, q) && *row(db1, q) == stored(*t) && (err == nil || dberr)
//@ ensures C29 conflict: is(err, ratus.ErrConflict) ==> has(snap, t.ID)
//@ ensures C29 failures-reported: err != nil && !dberr ==> is(err, ratus.ErrConflict)
//@ ensures C29 failures-passed-on: dberr ==> err != nil && !reported(err)
//@ ensures C29 counts: err == nil ==> res.Created == 1 && res.Updated == 0
//@
//@ func (*Engine).DeleteTask(g, ctx, id) (res, err)
//@ any q string
//@ requires ready(g)
//@ ensures C29 results-agree: (err == nil) <==> (res != nil)
//@ ensures C29 removed: err == nil ==> !has(db1, id)
//@ ensures C29 frame: !unchanged(q) ==> q == id && !has(db1, id)
//@ ensures C29 count: err == nil ==> res.Deleted == ite(has(db0, id), 1, 0)
//@ ensures C29 failures-reported: dberr <==> err != nil
//@ ensures C29 failures-passed-on: !reported(err)
//@
//@ func (*Engine).DeleteTasks(g, ctx, topic) (res, err)
//@ any q string
//@ requires ready(g)
//@ ensures C29 results-agree: (err == nil) <==> (res != nil)
//@ ensures C29 removed: err == nil && inTopic(q, topic) ==> !has(db1, q)
//@ ensures C29 frame: !unchanged(q) ==> inTopic(q, topic) && !has(db1, q)
//@ ensures C29 count: err == nil ==> (dbcounted(res.Deleted, q) <==> inTopic(q, topic))
//@ ensures C29 failures-reported: dberr <==> err != nil
//@ ensures C29 failures-passed-on: !reported(err)
//@
//@ func (*Engine).DeleteTopic(g, ctx, topic) (res, err)
//@ any q string
//@ requires ready(g)
//@ ensures C29 results-agree: (err == nil) <==> (res != nil)
//@ ensures C29 removed: err == nil && inTopic(q, topic) ==> !has(db1, q)
//@ ensures C29 frame: !unchanged(q) ==> inTopic(q, topic) && !has(db1, q)
//@ ensures C29 count: err == nil ==> (dbcounted(res.Deleted, q) <==> inTopic(q, topic))
//@ ensures C29 failures-reported: dberr <==> err != nil
//@ ensures C29 failures-passed-on: !reported(err)
//@
//@ func (*Engine).DeleteTopics(g, ctx) (res, err)
//@ any q string
//@ requires ready(g)
//@ ensures C29 results-agree: (err == nil) <==> (res != nil)
//@ ensures C29 removed: err == nil ==> !has(db1, q)
//@ ensures C29 frame: !unchanged(q) ==> !has(db1, q)
//@ ensures C29 count: err == nil ==> (dbcounted(res.Deleted, q) <==> has(db0, q))
//@ ensures C29 failures-reported: dberr <==> err != nil
//@ ensures C29 failures-passed-on: !reported(err)
//@
//@ func (*Engine).GetTopic(g, ctx, topic) (res, err)
//@ any q string
//@ requires ready(g)
//@ ensures C29 results-agree: (err == nil) <==> (res != nil)
//@ ensures C29 found: err == nil ==> res.Name == topic && res.Count > 0 && (dbcounted(res.Count, q) <==> has(snap, q) && row(snap, q).Topic == topic)
//@ ensures C29 missing: is(err, ratus.ErrNotFound) ==> !(has(snap, q) && row(snap, q).Topic == topic)
//@ ensures C29 failures-reported: err != nil && !dberr ==> is(err, ratus.ErrNotFound)
//@ ensures C29 failures-passed-on: dberr ==> err != nil && !reported(err)
//@ ensures C29 reads-only: unchanged(q)
//@
//@ func (*Engine).ListTasks(g, ctx, topic, limit, offset) (res, err)
//@ any q string
//@ any k int
//@ requires ready(g) && limit > 0 && offset >= 0
//@ ensures C29 items: err == nil && 0 <= k && k < len(res) ==> res[k] == elem(found(), offset+k) && elem(found(), offset+k).Topic == topic
//@ ensures C29 length: err == nil ==> len(res) == window(count(found()), limit, offset)
//@ ensures C29 all: err == nil && has(snap, q) && row(snap, q).Topic == topic ==> 0 <= indexof(found(), q) && indexof(found(), q) < count(found())
//@ ensures C29 not-null: err == nil ==> res != nil
//@ ensures C29 failures-reported: dberr <==> err != nil
//@ ensures C29 reads-only: unchanged(q)
//@
//@ func (*Engine).ListTopics(g, ctx, limit, offset) (res, err)
//@ any q string
//@ any k int
//@ requires ready(g) && limit > 0 && offset >= 0
//@ define topicsFound() = groups(snap, "topic")
//@ ensures C29 items: err == nil && 0 <= k && k < len(res) ==> res[k] != nil && res[k].Name == groupat(topicsFound(), offset+k)
//@ ensures C29 length: err == nil ==> len(res) == window(count(topicsFound()), limit, offset)
//@ ensures C29 not-null: err == nil ==> res != nil
//@ ensures C29 failures-reported: dberr <==> err != nil
//@ ensures C29 reads-only: unchanged(q)
//@
//@ func (*Engine).InsertTasks(g, ctx, ts) (res, err)
//@ any k int
//@ requires ready(g) && each(ts, t, t != nil)
//@ define bulks() = calls("BulkWrite")
//@ define bw(i) = call("BulkWrite", i)
//@ define isIns(e, ts, k) = !e.ordered && len(e.models) == len(ts) && (0 <= k && k < len(ts) ==> e.models[k] == winsert(*ts[k]))
//@ define isDel(e, ts, k) = !e.ordered && len(e.models) == len(ts) && (0 <= k && k < len(ts) ==> e.models[k] == wdelete(ts[k].ID))
//@ define isRep(e, ts, k) = !e.ordered && len(e.models) == len(ts) && (0 <= k && k < len(ts) ==> e.models[k] == wreplace(ts[k].ID, *ts[k]))
//@ define dupsOnly(e) = e.exc && e.wce == nil && forall(i, 0, len(e.errs), isdup(e.errs[i]))
//@ hint 0 <= k && k < $n ==> $s[k] == winsert(*ts[k])
//@ hint 0 <= k && k < $n ==> isdup(bw(0).errs[k])
//@ ensures C29 results-agree: (err == nil) <==> (res != nil)
//@ ensures C29 empty: len(ts) == 0 ==> err == nil && txns == 0 && res.Created == 0 && res.Updated == 0
//@ ensures C29 inserts: len(ts) > 0 ==> calls("BulkWrite") == 1 && txns == 1 && isIns(bw(0), ts, k)
//@ ensures C29 counts: bulks() > 0 && err == nil ==> res.Created == bw(0).inserted + bw(0).upserted && res.Updated == bw(0).modified
//@ ensures C29 accepted: bulks() > 0 && (bw(0).ok || dupsOnly(bw(0))) ==> err == nil
//@ ensures C29 only-duplicates-ignored: bulks() > 0 && err == nil && !bw(0).ok ==> bw(0).exc && bw(0).wce == nil && (0 <= k && k < len(bw(0).errs) ==> isdup(bw(0).errs[k]))
//@ ensures C29 failures-passed-on: err != nil ==> err == bw(0).err
//@
//@ func (*Engine).UpsertTasks(g, ctx, ts) (res, err)
//@ any k int
//@ kind atomic -
//@ requires ready(g) && flagsSet(g) && each(ts, t, t != nil)
//@ define mode() = old(flag(g.fallbackUpsertTasks))
//@ define delIns(i, ts, k) = isDel(bw(i), ts, k) && (!bw(i).ok && bulks() == i + 1 || bw(i).ok && bulks() == i + 2 && isIns(bw(i+1), ts, k))
//@ hint 0 <= k && k < $n ==> $s[k] == winsert(*ts[k])
//@ hint 0 <= k && k < $n ==> $s[k] == wdelete(ts[k].ID)
//@ hint 0 <= k && k < $n ==> $s[k] == wreplace(ts[k].ID, *ts[k])
//@ hint 0 <= k && k < $n ==> isdup(bw(bulks()-1).errs[k])
//@ ensures C29 results-agree: (err == nil) <==> (res != nil)
//@ ensures C29 empty: len(ts) == 0 ==> err == nil && txns == 0 && res.Created == 0 && res.Updated == 0
//@ ensures C29 replaces: len(ts) > 0 ==> txns == bulks() && bulks() > 0 && bulks() < 4 && (bulks() == 1 && isRep(bw(0), ts, k) || delIns(0, ts, k) || bulks() > 1 && isRep(bw(0), ts, k) && delIns(1, ts, k))
//@ ensures C29 counts: bulks() == 1 && err == nil ==> bw(0).ok && res.Created == bw(0).inserted + bw(0).upserted && res.Updated == bw(0).modified
//@ ensures C29 counts-of-fallback: bulks() > 1 && err == nil ==> bw(bulks()-2).ok && res.Created == len(ts) - bw(bulks()-2).deleted && res.Updated == bw(bulks()-2).deleted
//@ ensures C29 accepted: bulks() > 0 && bw(bulks()-1).ok ==> err == nil
//@ ensures C29 only-duplicates-ignored: bulks() > 0 && err == nil && !bw(bulks()-1).ok ==> bulks() > 1 && bw(bulks()-1).exc && bw(bulks()-1).wce == nil && (0 <= k && k < len(bw(bulks()-1).errs) ==> isdup(bw(bulks()-1).errs[k]))
//@ ensures C29 failures-passed-on: err != nil ==> err == bw(bulks()-1).err
//@ ensures C30 preferred-only: len(ts) > 0 && mode() < 0 ==> bulks() == 1 && isRep(bw(0), ts, k)
//@ ensures C30 fallback-used-directly: bulks() > 0 && mode() > 0 ==> delIns(0, ts, k)
//@ ensures C30 preferred-first: bulks() > 0 && mode() == 0 && !flagenv ==> isRep(bw(0), ts, k) && (unsupportedop(bw(0).err) || bulks() == 1)
//@ ensures C30 switches: bulks() > 0 && mode() == 0 && !flagenv && unsupportedop(bw(0).err) ==> bulks() > 1 && delIns(1, ts, k) && flag(g.fallbackUpsertTasks) > 0
//@ ensures C30 mode-kept: flag(g.fallbackUpsertTasks) == mode() || mode() == 0 && (flagenv || bulks() > 0 && unsupportedop(bw(0).err))
//@ ensures C30 other-modes-kept: flag(g.fallbackPoll) == old(flag(g.fallbackPoll)) && flag(g.fallbackCommit) == old(flag(g.fallbackCommit)) && flag(g.fallbackUpsertTask) == old(flag(g.fallbackUpsertTask)) && flag(g.fallbackInsertPromise) == old(flag(g.fallbackInsertPromise)) && flag(g.fallbackUpsertPromise) == old(flag(g.fallbackUpsertPromise))
//@
//@ func (*Engine).UpsertTask(g, ctx, t) (res, err)
//@ any k int
//@ any q string
//@ kind atomic -
//@ requires ready(g) && flagsSet(g) && t != nil
//@ define mode1() = old(flag(g.fallbackUpsertTask))
//@ define one(f) = !f.ordered && len(f.models) == 1
//@ define delIns1(t) = one(bw(0)) && bw(0).models[0] == wdelete(t.ID) && (!bw(0).ok && bulks() == 1 || bw(0).ok && bulks() == 2 && one(bw(1)) && bw(1).models[0] == winsert(*t))
//@ hint 0 <= k && k < $n ==> isdup(bw(bulks()-1).errs[k])
//@ ensures C29 results-agree: (err == nil) <==> (res != nil)
//@ ensures C29 stored: bulks() == 0 && err == nil ==> has(db1, t.ID) && *row(db1, t.ID) == stored(*t)
//@ ensures C29 frame: bulks() == 0 && !unchanged(q) ==> q == t.ID && *row(db1, q) == stored(*t) && (err == nil || dberr)
//@ ensures C29 counts: bulks() == 0 && err == nil ==> res.Created == ite(has(db0, t.ID), 0, 1) && res.Updated == ite(has(db0, t.ID) && *row(db0, t.ID) != stored(*t), 1, 0)
//@ ensures C29 replaces: calls("ReplaceOne") <= 1 && txns == calls("ReplaceOne") + bulks() && (bulks() == 0 || delIns1(t))
//@ ensures C29 counts-of-fallback: bulks() > 0 && err == nil ==> bulks() == 2 && res.Created == 1 - bw(0).deleted && res.Updated == bw(0).deleted
//@ ensures C29 accepted: bulks() > 0 && bw(bulks()-1).ok ==> err == nil
//@ ensures C29 only-duplicates-ignored: bulks() > 0 && err == nil && !bw(bulks()-1).ok ==> bw(bulks()-1).exc && bw(bulks()-1).wce == nil && (0 <= k && k < len(bw(bulks()-1).errs) ==> isdup(bw(bulks()-1).errs[k]))
//@ ensures C29 failures-passed-on: err != nil ==> err == ite(bulks() > 0, bw(bulks()-1).err, call("ReplaceOne").err)
//@ ensures C30 preferred-only: mode1() < 0 ==> bulks() == 0 && calls("ReplaceOne") == 1
//@ ensures C30 fallback-used-directly: mode1() > 0 ==> calls("ReplaceOne") == 0 && bulks() > 0
//@ ensures C30 preferred-first: mode1() == 0 && !flagenv ==> calls("ReplaceOne") == 1 && (unsupportedop(call("ReplaceOne").err) || bulks() == 0)
//@ ensures C30 switches: mode1() == 0 && !flagenv && calls("ReplaceOne") > 0 && unsupportedop(call("ReplaceOne").err) ==> bulks() > 0 && flag(g.fallbackUpsertTask) > 0
//@ ensures C30 mode-kept: flag(g.fallbackUpsertTask) == mode1() || mode1() == 0 && (flagenv || calls("ReplaceOne") > 0 && unsupportedop(call("ReplaceOne").err))
//@ ensures C30 other-modes-kept: flag(g.fallbackPoll) == old(flag(g.fallbackPoll)) && flag(g.fallbackCommit) == old(flag(g.fallbackCommit)) && flag(g.fallbackUpsertTasks) == old(flag(g.fallbackUpsertTasks)) && flag(g.fallbackInsertPromise) == old(flag(g.fallbackInsertPromise)) && flag(g.fallbackUpsertPromise) == old(flag(g.fallbackUpsertPromise))
//@
//@ func New(c) (res, err)
//@ kind atomic -
//@ requires c != nil
//@ define fmode(c) = ite(c.DisableAutoFallback, 0-1, 0)
//@ ensures C30 results-agree: (err == nil) <==> (res != nil)
//@ ensures C30 fallbacks-as-configured: res != nil ==> flag(res.fallbackCommit) == fmode(c) && flag(res.fallbackUpsertTasks) == fmode(c) && flag(res.fallbackUpsertTask) == fmode(c) && flag(res.fallbackInsertPromise) == fmode(c) && flag(res.fallbackUpsertPromise) == fmode(c)
//@ ensures C30 polling-as-configured: res != nil ==> flag(res.fallbackPoll) == ite(c.DisableAtomicPoll, 1, fmode(c))
//@ ensures C29 deployment: calls("NewClient") == 1 && call("NewClient").uri == c.URI && err == call("NewClient").err
//@ ensures C29 target: err == nil ==> calls("Database") == 1 && call("Database").name == c.Database && calls("Collection") == 1 && call("Collection").name == c.Collection
//@ ensures C29 usable-engine: res != nil ==> ready(res) && flagsSet(res) && res.client != nil && res.database != nil && res.config != nil
//@
//@ func (*Engine).Fallback(g, v) (res)
//@ kind atomic -
//@ requires g != nil && flagsSet(g)
//@ ensures C30 all-modes: flag(g.fallbackPoll) == v && flag(g.fallbackCommit) == v && flag(g.fallbackUpsertTasks) == v && flag(g.fallbackUpsertTask) == v && flag(g.fallbackInsertPromise) == v && flag(g.fallbackUpsertPromise) == v
//@ ensures C30 same-engine: res == g
//@
// The indexes. Queries of this engine name the index to use, so that they fail
// if it is missing; the one with an expiry makes the server delete documents.
//@ func (*Engine).Open(g, ctx) (err)
//@ kind atomic -
//@ requires g != nil && g.client != nil && g.database != nil && g.collection != nil && g.config != nil
//@ assume g.config.RetentionPeriod >= 0 && g.config.RetentionPeriod < 2147483647000000000
//@ define period(s, g) = g.config.RetentionPeriod - 1000000000 < s * 1000000000 && s * 1000000000 < g.config.RetentionPeriod + 1000000000
//@ define plain(ev, keys, name) = ev.keys == keys && ev.name == name && !ev.expires
//@ ghost local failed bool = false
//@ ghost local hashed bool = false
//@ ghost local scheduled bool = false
//@ ghost local deadline bool = false
//@ ghost local activetopic bool = false
//@ ghost local ttl bool = false
//@ ghost local ttlfailed bool = false
//@ ghost local changed bool = false
//@ set Index failed = failed || !ev.ok && !ev.expires
//@ set Index ttlfailed = ttlfailed || !ev.ok && ev.expires
//@ set Index hashed = hashed || ev.ok && plain(ev, "topic:hashed", "topic_hashed") && ev.partial < 0
//@ set Index scheduled = scheduled || ev.ok && plain(ev, "topic:1,scheduled:1", "topic_1_scheduled_1") && ev.partial == ratus.TaskStatePending
//@ set Index deadline = deadline || ev.ok && plain(ev, "deadline:1", "deadline_1") && ev.partial == ratus.TaskStateActive
//@ set Index activetopic = activetopic || ev.ok && plain(ev, "topic:1", "topic_1") && ev.partial == ratus.TaskStateActive
//@ set Index ttl = ttl || ev.ok && ev.expires
//@ set CollMod changed = changed || ev.ok
//@ on Index C35 expires-completed-only: ev.expires ==> ev.keys == "consumed:1" && ev.partial == ratus.TaskStateCompleted
//@ on Index C35 period: ev.expires ==> period(ev.expire, g)
//@ on CollMod C35 changes-that-index: ev.keys == "consumed:1" && ev.coll == collname(g.collection) && ttlfailed
//@ on CollMod C35 changed-period: period(ev.expire, g)
//@ ensures C35 expiry-requested: err == nil && !g.config.DisableIndexCreation ==> ttl || changed
//@ ensures C29 indexes-created: err == nil && !g.config.DisableIndexCreation ==> hashed && scheduled && deadline && activetopic
//@ ensures C29 no-indexes-if-disabled: g.config.DisableIndexCreation ==> calls("Index") == 0 && calls("CollMod") == 0
//@ ensures C29 connects: calls("Connect") == 1 && (!call("Connect").ok ==> err == call("Connect").err && calls("Index") == 0)
//@ ensures C29 opened: call("Connect").ok && (g.config.DisableIndexCreation || !failed && (ttl || changed)) ==> err == nil
//@
//@ func (*Engine).Close(g, ctx) (err)
//@ kind atomic -
//@ requires g != nil && g.client != nil
//@ ensures C29 disconnects: calls("Disconnect") == 1 && err == call("Disconnect").err
//@
//@ func (*Engine).Ready(g, ctx) (err)
//@ kind atomic -
//@ requires g != nil && g.client != nil
//@ ensures C29 probed: calls("Ping") == 1 && (call("Ping").ok ==> err == nil) && (!call("Ping").ok ==> is(err, ratus.ErrServiceUnavailable))
//@
//@ func (*Engine).Destroy(g, ctx) (err)
//@ kind atomic -
//@ requires g != nil && g.client != nil && g.collection != nil
//@ ensures C29 dropped: calls("Drop") == 1 && (err == nil ==> call("Drop").ok && calls("Disconnect") == 1 && call("Disconnect").ok)
//@ ensures C29 failures-passed-on: err != nil ==> !call("Drop").ok && err == call("Drop").err || calls("Disconnect") == 1 && err == call("Disconnect").err
