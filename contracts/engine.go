//go:build verif

// Contract of a storage engine, as the HTTP layer relies on it. The in-memory
// engine is verified against it (results-agree in memdb.go); for other engines
// it is assumed.
package contracts

//@ package github.com/hyperonym/ratus/internal/engine
//@
//@ func (Engine).Ready(g, ctx) (err)
//@ opaque
//@ opt assumed
//@ opt event engine.Ready
//@
//@ func (Engine).Poll(g, ctx, topic, p) (v, err)
//@ opaque
//@ opt assumed
//@ opt event engine.Poll
//@ ensures - agree: (err == nil) <==> (v != nil)
//@ requires p != nil
//@
//@ func (Engine).Commit(g, ctx, id, m) (v, err)
//@ opaque
//@ opt assumed
//@ opt event engine.Commit
//@ ensures - agree: (err == nil) <==> (v != nil)
//@ requires m != nil
//@
//@ func (Engine).ListTopics(g, ctx, limit, offset) (v, err)
//@ opaque
//@ opt assumed
//@ opt event engine.ListTopics
//@
//@ func (Engine).DeleteTopics(g, ctx) (v, err)
//@ opaque
//@ opt assumed
//@ opt event engine.DeleteTopics
//@ ensures - agree: (err == nil) <==> (v != nil)
//@
//@ func (Engine).GetTopic(g, ctx, topic) (v, err)
//@ opaque
//@ opt assumed
//@ opt event engine.GetTopic
//@ ensures - agree: (err == nil) <==> (v != nil)
//@
//@ func (Engine).DeleteTopic(g, ctx, topic) (v, err)
//@ opaque
//@ opt assumed
//@ opt event engine.DeleteTopic
//@ ensures - agree: (err == nil) <==> (v != nil)
//@
//@ func (Engine).ListTasks(g, ctx, topic, limit, offset) (v, err)
//@ opaque
//@ opt assumed
//@ opt event engine.ListTasks
//@
//@ func (Engine).InsertTasks(g, ctx, ts) (v, err)
//@ opaque
//@ opt assumed
//@ opt event engine.InsertTasks
//@ ensures - agree: (err == nil) <==> (v != nil)
//@ ensures - counts: v != nil ==> v.Created >= 0 && v.Updated >= 0
//@
//@ func (Engine).UpsertTasks(g, ctx, ts) (v, err)
//@ opaque
//@ opt assumed
//@ opt event engine.UpsertTasks
//@ ensures - agree: (err == nil) <==> (v != nil)
//@ ensures - counts: v != nil ==> v.Created >= 0 && v.Updated >= 0
//@
//@ func (Engine).DeleteTasks(g, ctx, topic) (v, err)
//@ opaque
//@ opt assumed
//@ opt event engine.DeleteTasks
//@ ensures - agree: (err == nil) <==> (v != nil)
//@
//@ func (Engine).GetTask(g, ctx, id) (v, err)
//@ opaque
//@ opt assumed
//@ opt event engine.GetTask
//@ ensures - agree: (err == nil) <==> (v != nil)
//@
//@ func (Engine).InsertTask(g, ctx, t) (v, err)
//@ opaque
//@ opt assumed
//@ opt event engine.InsertTask
//@ ensures - agree: (err == nil) <==> (v != nil)
//@ ensures - counts: v != nil ==> v.Created >= 0 && v.Updated >= 0
//@ requires t != nil
//@
//@ func (Engine).UpsertTask(g, ctx, t) (v, err)
//@ opaque
//@ opt assumed
//@ opt event engine.UpsertTask
//@ ensures - agree: (err == nil) <==> (v != nil)
//@ ensures - counts: v != nil ==> v.Created >= 0 && v.Updated >= 0
//@ requires t != nil
//@
//@ func (Engine).DeleteTask(g, ctx, id) (v, err)
//@ opaque
//@ opt assumed
//@ opt event engine.DeleteTask
//@ ensures - agree: (err == nil) <==> (v != nil)
//@
//@ func (Engine).ListPromises(g, ctx, topic, limit, offset) (v, err)
//@ opaque
//@ opt assumed
//@ opt event engine.ListPromises
//@
//@ func (Engine).DeletePromises(g, ctx, topic) (v, err)
//@ opaque
//@ opt assumed
//@ opt event engine.DeletePromises
//@ ensures - agree: (err == nil) <==> (v != nil)
//@
//@ func (Engine).GetPromise(g, ctx, id) (v, err)
//@ opaque
//@ opt assumed
//@ opt event engine.GetPromise
//@ ensures - agree: (err == nil) <==> (v != nil)
//@
//@ func (Engine).InsertPromise(g, ctx, p) (v, err)
//@ opaque
//@ opt assumed
//@ opt event engine.InsertPromise
//@ ensures - agree: (err == nil) <==> (v != nil)
//@ requires p != nil
//@
//@ func (Engine).UpsertPromise(g, ctx, p) (v, err)
//@ opaque
//@ opt assumed
//@ opt event engine.UpsertPromise
//@ ensures - agree: (err == nil) <==> (v != nil)
//@ requires p != nil
//@
//@ func (Engine).DeletePromise(g, ctx, id) (v, err)
//@ opaque
//@ opt assumed
//@ opt event engine.DeletePromise
//@ ensures - agree: (err == nil) <==> (v != nil)
//@
//@ func (Engine).Chore(g, ctx) (err)
//@ opaque
//@ opt assumed
//@ opt event engine.Chore
