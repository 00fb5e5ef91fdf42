//go:build verif

// Contracts of the Go client: requests, consumer contexts and the transport.
// Generated by tools/mkclient.py.
package contracts

//@ package github.com/hyperonym/ratus
//@ default panic-free C21
//@ default supported C21
//@
// A name is escaped as one path segment. The API server would read a plus sign
// in a segment with an escaped slash as a space.
//@ define seg(s) = replaceall(pathescape(s), "+", "%2B")
//@ define unsent() = calls("HTTP") == 0 && calls("unsendable") > 0
//@ define request(m, t) = calls("HTTP") == 1 && call("HTTP").method == m && call("HTTP").kept && call("HTTP").target == t
//@ define received() = calls("HTTP") == 1 && !call("HTTP").failed && respstatus() < 400
//@ define refused() = calls("HTTP") == 1 && !call("HTTP").failed && respstatus() >= 400
//@ define codeKind(c, e) = (c == 499 ==> is(e, ratus.ErrClientClosedRequest)) && (c == 400 ==> is(e, ratus.ErrBadRequest)) && (c == 404 ==> is(e, ratus.ErrNotFound))
//@    && (c == 409 ==> is(e, ratus.ErrConflict)) && (c == 500 ==> is(e, ratus.ErrInternalServerError)) && (c == 503 ==> is(e, ratus.ErrServiceUnavailable))

//@
//@ func (*Client).ListTopics(c, ctx, limit, offset) (v, err)
//@ requires c != nil && c.client != nil
//@ ensures C21 request: unsent() || request("GET", "/v1/topics" + "?limit=" + itoa(limit) + "&offset=" + itoa(offset))
//@ ensures C21 context: calls("HTTP") == 1 ==> call("HTTP").ctx == ctx
//@ ensures C21 body: calls("HTTP") == 1 ==> !call("HTTP").hasbody
//@ ensures C21 unsent: unsent() ==> err != nil && v == nil
//@ ensures C21 failed: calls("HTTP") == 1 && call("HTTP").failed ==> err != nil && v == nil
//@ ensures C21 refused: refused() ==> err != nil && v == nil
//@ ensures C21 kind: refused() && bodyok("ratus.Error") ==> codeKind(sent("ratus.Error").Error.Code, err)
//@ ensures C21 result: received() && bodyok("ratus.Topics") ==> err == nil && len(v) == len(sent("ratus.Topics").Data) && forall(i, 0, len(v), *v[i] == *sent("ratus.Topics").Data[i])
//@ ensures C21 garbled: received() && !bodyok("ratus.Topics") ==> err != nil && v == nil
//@
//@ func (*Client).DeleteTopics(c, ctx) (v, err)
//@ requires c != nil && c.client != nil
//@ ensures C21 request: unsent() || request("DELETE", "/v1/topics")
//@ ensures C21 context: calls("HTTP") == 1 ==> call("HTTP").ctx == ctx
//@ ensures C21 body: calls("HTTP") == 1 ==> !call("HTTP").hasbody
//@ ensures C21 unsent: unsent() ==> err != nil && v == nil
//@ ensures C21 failed: calls("HTTP") == 1 && call("HTTP").failed ==> err != nil && v == nil
//@ ensures C21 refused: refused() ==> err != nil && v == nil
//@ ensures C21 kind: refused() && bodyok("ratus.Error") ==> codeKind(sent("ratus.Error").Error.Code, err)
//@ ensures C21 result: received() && bodyok("ratus.Deleted") ==> err == nil && v != nil && *v == sent("ratus.Deleted")
//@ ensures C21 garbled: received() && !bodyok("ratus.Deleted") ==> err != nil && v == nil
//@
//@ func (*Client).GetTopic(c, ctx, topic) (v, err)
//@ requires c != nil && c.client != nil
//@ ensures C21 request: unsent() || request("GET", "/v1/topics/" + seg(topic))
//@ ensures C21 context: calls("HTTP") == 1 ==> call("HTTP").ctx == ctx
//@ ensures C21 body: calls("HTTP") == 1 ==> !call("HTTP").hasbody
//@ ensures C21 unsent: unsent() ==> err != nil && v == nil
//@ ensures C21 failed: calls("HTTP") == 1 && call("HTTP").failed ==> err != nil && v == nil
//@ ensures C21 refused: refused() ==> err != nil && v == nil
//@ ensures C21 kind: refused() && bodyok("ratus.Error") ==> codeKind(sent("ratus.Error").Error.Code, err)
//@ ensures C21 result: received() && bodyok("ratus.Topic") ==> err == nil && v != nil && *v == sent("ratus.Topic")
//@ ensures C21 garbled: received() && !bodyok("ratus.Topic") ==> err != nil && v == nil
//@
//@ func (*Client).DeleteTopic(c, ctx, topic) (v, err)
//@ requires c != nil && c.client != nil
//@ ensures C21 request: unsent() || request("DELETE", "/v1/topics/" + seg(topic))
//@ ensures C21 context: calls("HTTP") == 1 ==> call("HTTP").ctx == ctx
//@ ensures C21 body: calls("HTTP") == 1 ==> !call("HTTP").hasbody
//@ ensures C21 unsent: unsent() ==> err != nil && v == nil
//@ ensures C21 failed: calls("HTTP") == 1 && call("HTTP").failed ==> err != nil && v == nil
//@ ensures C21 refused: refused() ==> err != nil && v == nil
//@ ensures C21 kind: refused() && bodyok("ratus.Error") ==> codeKind(sent("ratus.Error").Error.Code, err)
//@ ensures C21 result: received() && bodyok("ratus.Deleted") ==> err == nil && v != nil && *v == sent("ratus.Deleted")
//@ ensures C21 garbled: received() && !bodyok("ratus.Deleted") ==> err != nil && v == nil
//@
//@ func (*Client).ListTasks(c, ctx, topic, limit, offset) (v, err)
//@ requires c != nil && c.client != nil
//@ ensures C21 request: unsent() || request("GET", "/v1/topics/" + seg(topic) + "/tasks" + "?limit=" + itoa(limit) + "&offset=" + itoa(offset))
//@ ensures C21 context: calls("HTTP") == 1 ==> call("HTTP").ctx == ctx
//@ ensures C21 body: calls("HTTP") == 1 ==> !call("HTTP").hasbody
//@ ensures C21 unsent: unsent() ==> err != nil && v == nil
//@ ensures C21 failed: calls("HTTP") == 1 && call("HTTP").failed ==> err != nil && v == nil
//@ ensures C21 refused: refused() ==> err != nil && v == nil
//@ ensures C21 kind: refused() && bodyok("ratus.Error") ==> codeKind(sent("ratus.Error").Error.Code, err)
//@ ensures C21 result: received() && bodyok("ratus.Tasks") ==> err == nil && len(v) == len(sent("ratus.Tasks").Data) && forall(i, 0, len(v), *v[i] == *sent("ratus.Tasks").Data[i])
//@ ensures C21 garbled: received() && !bodyok("ratus.Tasks") ==> err != nil && v == nil
//@
//@ func (*Client).InsertTasks(c, ctx, ts) (v, err)
//@ requires c != nil && c.client != nil && each(ts, t, t != nil)
//@ ensures C21 request: unsent() || request("POST", "/v1/topics//tasks")
//@ ensures C21 context: calls("HTTP") == 1 ==> call("HTTP").ctx == ctx
//@ ensures C21 body: calls("HTTP") == 1 ==> call("HTTP").hasbody && call("HTTP").bodytype == "ratus.Tasks" && len(call("HTTP").body.Data) == len(ts) && forall(i, 0, len(ts), *call("HTTP").body.Data[i] == old(*ts[i]))
//@ ensures C21 unsent: unsent() ==> err != nil && v == nil
//@ ensures C21 failed: calls("HTTP") == 1 && call("HTTP").failed ==> err != nil && v == nil
//@ ensures C21 refused: refused() ==> err != nil && v == nil
//@ ensures C21 kind: refused() && bodyok("ratus.Error") ==> codeKind(sent("ratus.Error").Error.Code, err)
//@ ensures C21 result: received() && bodyok("ratus.Updated") ==> err == nil && v != nil && *v == sent("ratus.Updated")
//@ ensures C21 garbled: received() && !bodyok("ratus.Updated") ==> err != nil && v == nil
//@
//@ func (*Client).UpsertTasks(c, ctx, ts) (v, err)
//@ requires c != nil && c.client != nil && each(ts, t, t != nil)
//@ ensures C21 request: unsent() || request("PUT", "/v1/topics//tasks")
//@ ensures C21 context: calls("HTTP") == 1 ==> call("HTTP").ctx == ctx
//@ ensures C21 body: calls("HTTP") == 1 ==> call("HTTP").hasbody && call("HTTP").bodytype == "ratus.Tasks" && len(call("HTTP").body.Data) == len(ts) && forall(i, 0, len(ts), *call("HTTP").body.Data[i] == old(*ts[i]))
//@ ensures C21 unsent: unsent() ==> err != nil && v == nil
//@ ensures C21 failed: calls("HTTP") == 1 && call("HTTP").failed ==> err != nil && v == nil
//@ ensures C21 refused: refused() ==> err != nil && v == nil
//@ ensures C21 kind: refused() && bodyok("ratus.Error") ==> codeKind(sent("ratus.Error").Error.Code, err)
//@ ensures C21 result: received() && bodyok("ratus.Updated") ==> err == nil && v != nil && *v == sent("ratus.Updated")
//@ ensures C21 garbled: received() && !bodyok("ratus.Updated") ==> err != nil && v == nil
//@
//@ func (*Client).DeleteTasks(c, ctx, topic) (v, err)
//@ requires c != nil && c.client != nil
//@ ensures C21 request: unsent() || request("DELETE", "/v1/topics/" + seg(topic) + "/tasks")
//@ ensures C21 context: calls("HTTP") == 1 ==> call("HTTP").ctx == ctx
//@ ensures C21 body: calls("HTTP") == 1 ==> !call("HTTP").hasbody
//@ ensures C21 unsent: unsent() ==> err != nil && v == nil
//@ ensures C21 failed: calls("HTTP") == 1 && call("HTTP").failed ==> err != nil && v == nil
//@ ensures C21 refused: refused() ==> err != nil && v == nil
//@ ensures C21 kind: refused() && bodyok("ratus.Error") ==> codeKind(sent("ratus.Error").Error.Code, err)
//@ ensures C21 result: received() && bodyok("ratus.Deleted") ==> err == nil && v != nil && *v == sent("ratus.Deleted")
//@ ensures C21 garbled: received() && !bodyok("ratus.Deleted") ==> err != nil && v == nil
//@
//@ func (*Client).GetTask(c, ctx, id) (v, err)
//@ requires c != nil && c.client != nil
//@ ensures C21 request: unsent() || request("GET", "/v1/topics//tasks/" + seg(id))
//@ ensures C21 context: calls("HTTP") == 1 ==> call("HTTP").ctx == ctx
//@ ensures C21 body: calls("HTTP") == 1 ==> !call("HTTP").hasbody
//@ ensures C21 unsent: unsent() ==> err != nil && v == nil
//@ ensures C21 failed: calls("HTTP") == 1 && call("HTTP").failed ==> err != nil && v == nil
//@ ensures C21 refused: refused() ==> err != nil && v == nil
//@ ensures C21 kind: refused() && bodyok("ratus.Error") ==> codeKind(sent("ratus.Error").Error.Code, err)
//@ ensures C21 result: received() && bodyok("ratus.Task") ==> err == nil && v != nil && *v == sent("ratus.Task")
//@ ensures C21 garbled: received() && !bodyok("ratus.Task") ==> err != nil && v == nil
//@
//@ func (*Client).InsertTask(c, ctx, t) (v, err)
//@ requires c != nil && c.client != nil && t != nil
//@ ensures C21 request: unsent() || request("POST", "/v1/topics//tasks/" + seg(old(t.ID)))
//@ ensures C21 context: calls("HTTP") == 1 ==> call("HTTP").ctx == ctx
//@ ensures C21 body: calls("HTTP") == 1 ==> call("HTTP").hasbody && call("HTTP").bodytype == "ratus.Task" && *call("HTTP").body == old(*t)
//@ ensures C21 unsent: unsent() ==> err != nil && v == nil
//@ ensures C21 failed: calls("HTTP") == 1 && call("HTTP").failed ==> err != nil && v == nil
//@ ensures C21 refused: refused() ==> err != nil && v == nil
//@ ensures C21 kind: refused() && bodyok("ratus.Error") ==> codeKind(sent("ratus.Error").Error.Code, err)
//@ ensures C21 result: received() && bodyok("ratus.Updated") ==> err == nil && v != nil && *v == sent("ratus.Updated")
//@ ensures C21 garbled: received() && !bodyok("ratus.Updated") ==> err != nil && v == nil
//@
//@ func (*Client).UpsertTask(c, ctx, t) (v, err)
//@ requires c != nil && c.client != nil && t != nil
//@ ensures C21 request: unsent() || request("PUT", "/v1/topics//tasks/" + seg(old(t.ID)))
//@ ensures C21 context: calls("HTTP") == 1 ==> call("HTTP").ctx == ctx
//@ ensures C21 body: calls("HTTP") == 1 ==> call("HTTP").hasbody && call("HTTP").bodytype == "ratus.Task" && *call("HTTP").body == old(*t)
//@ ensures C21 unsent: unsent() ==> err != nil && v == nil
//@ ensures C21 failed: calls("HTTP") == 1 && call("HTTP").failed ==> err != nil && v == nil
//@ ensures C21 refused: refused() ==> err != nil && v == nil
//@ ensures C21 kind: refused() && bodyok("ratus.Error") ==> codeKind(sent("ratus.Error").Error.Code, err)
//@ ensures C21 result: received() && bodyok("ratus.Updated") ==> err == nil && v != nil && *v == sent("ratus.Updated")
//@ ensures C21 garbled: received() && !bodyok("ratus.Updated") ==> err != nil && v == nil
//@
//@ func (*Client).DeleteTask(c, ctx, id) (v, err)
//@ requires c != nil && c.client != nil
//@ ensures C21 request: unsent() || request("DELETE", "/v1/topics//tasks/" + seg(id))
//@ ensures C21 context: calls("HTTP") == 1 ==> call("HTTP").ctx == ctx
//@ ensures C21 body: calls("HTTP") == 1 ==> !call("HTTP").hasbody
//@ ensures C21 unsent: unsent() ==> err != nil && v == nil
//@ ensures C21 failed: calls("HTTP") == 1 && call("HTTP").failed ==> err != nil && v == nil
//@ ensures C21 refused: refused() ==> err != nil && v == nil
//@ ensures C21 kind: refused() && bodyok("ratus.Error") ==> codeKind(sent("ratus.Error").Error.Code, err)
//@ ensures C21 result: received() && bodyok("ratus.Deleted") ==> err == nil && v != nil && *v == sent("ratus.Deleted")
//@ ensures C21 garbled: received() && !bodyok("ratus.Deleted") ==> err != nil && v == nil
//@
//@ func (*Client).PatchTask(c, ctx, id, m) (v, err)
//@ requires c != nil && c.client != nil && m != nil
//@ ensures C21 request: unsent() || request("PATCH", "/v1/topics//tasks/" + seg(id))
//@ ensures C21 context: calls("HTTP") == 1 ==> call("HTTP").ctx == ctx
//@ ensures C21 body: calls("HTTP") == 1 ==> call("HTTP").hasbody && call("HTTP").bodytype == "ratus.Commit" && *call("HTTP").body == old(*m)
//@ ensures C21 unsent: unsent() ==> err != nil && v == nil
//@ ensures C21 failed: calls("HTTP") == 1 && call("HTTP").failed ==> err != nil && v == nil
//@ ensures C21 refused: refused() ==> err != nil && v == nil
//@ ensures C21 kind: refused() && bodyok("ratus.Error") ==> codeKind(sent("ratus.Error").Error.Code, err)
//@ ensures C21 result: received() && bodyok("ratus.Task") ==> err == nil && v != nil && *v == sent("ratus.Task")
//@ ensures C21 garbled: received() && !bodyok("ratus.Task") ==> err != nil && v == nil
//@
//@ func (*Client).ListPromises(c, ctx, topic, limit, offset) (v, err)
//@ requires c != nil && c.client != nil
//@ ensures C21 request: unsent() || request("GET", "/v1/topics/" + seg(topic) + "/promises" + "?limit=" + itoa(limit) + "&offset=" + itoa(offset))
//@ ensures C21 context: calls("HTTP") == 1 ==> call("HTTP").ctx == ctx
//@ ensures C21 body: calls("HTTP") == 1 ==> !call("HTTP").hasbody
//@ ensures C21 unsent: unsent() ==> err != nil && v == nil
//@ ensures C21 failed: calls("HTTP") == 1 && call("HTTP").failed ==> err != nil && v == nil
//@ ensures C21 refused: refused() ==> err != nil && v == nil
//@ ensures C21 kind: refused() && bodyok("ratus.Error") ==> codeKind(sent("ratus.Error").Error.Code, err)
//@ ensures C21 result: received() && bodyok("ratus.Promises") ==> err == nil && len(v) == len(sent("ratus.Promises").Data) && forall(i, 0, len(v), *v[i] == *sent("ratus.Promises").Data[i])
//@ ensures C21 garbled: received() && !bodyok("ratus.Promises") ==> err != nil && v == nil
//@
//@ func (*Client).PostPromises(c, ctx, topic, p) (v, err)
//@ requires c != nil && c.client != nil && p != nil
//@ ensures C21 request: unsent() || request("POST", "/v1/topics/" + seg(topic) + "/promises")
//@ ensures C21 context: calls("HTTP") == 1 ==> call("HTTP").ctx == ctx
//@ ensures C21 body: calls("HTTP") == 1 ==> call("HTTP").hasbody && call("HTTP").bodytype == "ratus.Promise" && *call("HTTP").body == old(*p)
//@ ensures C21 unsent: unsent() ==> err != nil && v == nil
//@ ensures C21 failed: calls("HTTP") == 1 && call("HTTP").failed ==> err != nil && v == nil
//@ ensures C21 refused: refused() ==> err != nil && v == nil
//@ ensures C21 kind: refused() && bodyok("ratus.Error") ==> codeKind(sent("ratus.Error").Error.Code, err)
//@ ensures C21 result: received() && bodyok("ratus.Task") ==> err == nil && v != nil && *v == sent("ratus.Task")
//@ ensures C21 garbled: received() && !bodyok("ratus.Task") ==> err != nil && v == nil
//@
//@ func (*Client).DeletePromises(c, ctx, topic) (v, err)
//@ requires c != nil && c.client != nil
//@ ensures C21 request: unsent() || request("DELETE", "/v1/topics/" + seg(topic) + "/promises")
//@ ensures C21 context: calls("HTTP") == 1 ==> call("HTTP").ctx == ctx
//@ ensures C21 body: calls("HTTP") == 1 ==> !call("HTTP").hasbody
//@ ensures C21 unsent: unsent() ==> err != nil && v == nil
//@ ensures C21 failed: calls("HTTP") == 1 && call("HTTP").failed ==> err != nil && v == nil
//@ ensures C21 refused: refused() ==> err != nil && v == nil
//@ ensures C21 kind: refused() && bodyok("ratus.Error") ==> codeKind(sent("ratus.Error").Error.Code, err)
//@ ensures C21 result: received() && bodyok("ratus.Deleted") ==> err == nil && v != nil && *v == sent("ratus.Deleted")
//@ ensures C21 garbled: received() && !bodyok("ratus.Deleted") ==> err != nil && v == nil
//@
//@ func (*Client).GetPromise(c, ctx, id) (v, err)
//@ requires c != nil && c.client != nil
//@ ensures C21 request: unsent() || request("GET", "/v1/topics//promises/" + seg(id))
//@ ensures C21 context: calls("HTTP") == 1 ==> call("HTTP").ctx == ctx
//@ ensures C21 body: calls("HTTP") == 1 ==> !call("HTTP").hasbody
//@ ensures C21 unsent: unsent() ==> err != nil && v == nil
//@ ensures C21 failed: calls("HTTP") == 1 && call("HTTP").failed ==> err != nil && v == nil
//@ ensures C21 refused: refused() ==> err != nil && v == nil
//@ ensures C21 kind: refused() && bodyok("ratus.Error") ==> codeKind(sent("ratus.Error").Error.Code, err)
//@ ensures C21 result: received() && bodyok("ratus.Promise") ==> err == nil && v != nil && *v == sent("ratus.Promise")
//@ ensures C21 garbled: received() && !bodyok("ratus.Promise") ==> err != nil && v == nil
//@
//@ func (*Client).InsertPromise(c, ctx, p) (v, err)
//@ requires c != nil && c.client != nil && p != nil
//@ ensures C21 request: unsent() || request("POST", "/v1/topics//promises/" + seg(old(p.ID)))
//@ ensures C21 context: calls("HTTP") == 1 ==> call("HTTP").ctx == ctx
//@ ensures C21 body: calls("HTTP") == 1 ==> call("HTTP").hasbody && call("HTTP").bodytype == "ratus.Promise" && *call("HTTP").body == old(*p)
//@ ensures C21 unsent: unsent() ==> err != nil && v == nil
//@ ensures C21 failed: calls("HTTP") == 1 && call("HTTP").failed ==> err != nil && v == nil
//@ ensures C21 refused: refused() ==> err != nil && v == nil
//@ ensures C21 kind: refused() && bodyok("ratus.Error") ==> codeKind(sent("ratus.Error").Error.Code, err)
//@ ensures C21 result: received() && bodyok("ratus.Task") ==> err == nil && v != nil && *v == sent("ratus.Task")
//@ ensures C21 garbled: received() && !bodyok("ratus.Task") ==> err != nil && v == nil
//@
//@ func (*Client).UpsertPromise(c, ctx, p) (v, err)
//@ requires c != nil && c.client != nil && p != nil
//@ ensures C21 request: unsent() || request("PUT", "/v1/topics//promises/" + seg(old(p.ID)))
//@ ensures C21 context: calls("HTTP") == 1 ==> call("HTTP").ctx == ctx
//@ ensures C21 body: calls("HTTP") == 1 ==> call("HTTP").hasbody && call("HTTP").bodytype == "ratus.Promise" && *call("HTTP").body == old(*p)
//@ ensures C21 unsent: unsent() ==> err != nil && v == nil
//@ ensures C21 failed: calls("HTTP") == 1 && call("HTTP").failed ==> err != nil && v == nil
//@ ensures C21 refused: refused() ==> err != nil && v == nil
//@ ensures C21 kind: refused() && bodyok("ratus.Error") ==> codeKind(sent("ratus.Error").Error.Code, err)
//@ ensures C21 result: received() && bodyok("ratus.Task") ==> err == nil && v != nil && *v == sent("ratus.Task")
//@ ensures C21 garbled: received() && !bodyok("ratus.Task") ==> err != nil && v == nil
//@
//@ func (*Client).DeletePromise(c, ctx, id) (v, err)
//@ requires c != nil && c.client != nil
//@ ensures C21 request: unsent() || request("DELETE", "/v1/topics//promises/" + seg(id))
//@ ensures C21 context: calls("HTTP") == 1 ==> call("HTTP").ctx == ctx
//@ ensures C21 body: calls("HTTP") == 1 ==> !call("HTTP").hasbody
//@ ensures C21 unsent: unsent() ==> err != nil && v == nil
//@ ensures C21 failed: calls("HTTP") == 1 && call("HTTP").failed ==> err != nil && v == nil
//@ ensures C21 refused: refused() ==> err != nil && v == nil
//@ ensures C21 kind: refused() && bodyok("ratus.Error") ==> codeKind(sent("ratus.Error").Error.Code, err)
//@ ensures C21 result: received() && bodyok("ratus.Deleted") ==> err == nil && v != nil && *v == sent("ratus.Deleted")
//@ ensures C21 garbled: received() && !bodyok("ratus.Deleted") ==> err != nil && v == nil
//@
//@ func (*Client).GetLiveness(c, ctx) (err)
//@ requires c != nil && c.client != nil
//@ ensures C21 request: unsent() || request("GET", "/v1/livez")
//@ ensures C21 context: calls("HTTP") == 1 ==> call("HTTP").ctx == ctx
//@ ensures C21 body: calls("HTTP") == 1 ==> !call("HTTP").hasbody
//@ ensures C21 unsent: unsent() ==> err != nil
//@ ensures C21 failed: calls("HTTP") == 1 && call("HTTP").failed ==> err != nil
//@ ensures C21 refused: refused() ==> err != nil
//@ ensures C21 kind: refused() && bodyok("ratus.Error") ==> codeKind(sent("ratus.Error").Error.Code, err)
//@ ensures C21 result: received() ==> err == nil
//@
//@ func (*Client).GetReadiness(c, ctx) (err)
//@ requires c != nil && c.client != nil
//@ ensures C21 request: unsent() || request("GET", "/v1/readyz")
//@ ensures C21 context: calls("HTTP") == 1 ==> call("HTTP").ctx == ctx
//@ ensures C21 body: calls("HTTP") == 1 ==> !call("HTTP").hasbody
//@ ensures C21 unsent: unsent() ==> err != nil
//@ ensures C21 failed: calls("HTTP") == 1 && call("HTTP").failed ==> err != nil
//@ ensures C21 refused: refused() ==> err != nil
//@ ensures C21 kind: refused() && bodyok("ratus.Error") ==> codeKind(sent("ratus.Error").Error.Code, err)
//@ ensures C21 result: received() ==> err == nil

// Consumer contexts.

//@ func (*Client).Poll(c, ctx, topic, p) (x, err)
//@ kind panic-free C22
//@ kind supported C22
//@ requires c != nil && c.client != nil && p != nil
//@ ensures C22 request: unsent() || request("POST", "/v1/topics/" + seg(topic) + "/promises") && call("HTTP").bodytype == "ratus.Promise" && *call("HTTP").body == old(*p)
//@ ensures C22 failed: !(received() && bodyok("ratus.Task")) ==> err != nil && x == nil
//@ ensures C22 kind: refused() && bodyok("ratus.Error") ==> codeKind(sent("ratus.Error").Error.Code, err)
//@ ensures C22 task: received() && bodyok("ratus.Task") ==> err == nil && x != nil && x.Task != nil && *x.Task == sent("ratus.Task")
//@ ensures C22 C23 agree: err == nil ==> x != nil && x.Task != nil && x.client != nil && x.client.client != nil
//@ define fresh(x) = with(zero("ratus.Commit"), Nonce, sent("ratus.Task").Nonce, State, some(ratus.TaskStateCompleted))
//@ ensures C22 commit: received() && bodyok("ratus.Task") ==> !x.committed && x.client == c && x.commit == fresh(x)
//@ define timed() = sent("ratus.Task").Consumed != nil && sent("ratus.Task").Deadline != nil
//@ define promised() = *sent("ratus.Task").Deadline - *sent("ratus.Task").Consumed
//@ ensures C22 lifetime: received() && bodyok("ratus.Task") && timed() ==> calls("bounded") == 1 && call("bounded").parent == ctx && x.Context == call("bounded").ctx
//@    && now0 + promised() <= call("bounded").until && call("bounded").until <= now1 + promised()
//@ ensures C22 unlimited: received() && bodyok("ratus.Task") && !timed() ==> x.Context == ctx
//@ ensures C22 alive: calls("cancel") == 0 || err != nil
//@
//@ func (*Context).Commit(ctx) (err)
//@ kind panic-free C22
//@ kind supported C22
//@ requires ctx != nil && ctx.Task != nil && (ctx.client != nil ==> ctx.client.client != nil)
//@ define accepted() = received() && bodyok("ratus.Task")
//@ ensures C22 once: old(ctx.committed) ==> calls("HTTP") == 0 && err == nil && ctx.committed
//@ ensures C22 orphan: !old(ctx.committed) && old(ctx.client) == nil ==> calls("HTTP") == 0 && err != nil && !ctx.committed
//@ ensures C22 request: !old(ctx.committed) && old(ctx.client) != nil ==> unsent() || request("PATCH", "/v1/topics//tasks/" + seg(old(ctx.Task.ID)))
//@ ensures C22 updates: calls("HTTP") == 1 ==> call("HTTP").hasbody && call("HTTP").bodytype == "ratus.Commit" && *call("HTTP").body == old(ctx.commit)
//@ ensures C22 context: calls("HTTP") == 1 ==> call("HTTP").ctx == old(ctx.Context)
//@ ensures C22 done: calls("HTTP") == 1 && accepted() ==> err == nil && ctx.committed
//@ ensures C22 retry: !old(ctx.committed) && !(calls("HTTP") == 1 && accepted()) ==> err != nil && !ctx.committed && calls("cancel") == 0
//@ ensures C22 order: calls("HTTP") == 1 && calls("cancel") == 1 ==> before("HTTP", "cancel")
//@ ensures C22 kept: ctx.commit == old(ctx.commit) && ctx.Task == old(ctx.Task) && *ctx.Task == old(*ctx.Task) && ctx.client == old(ctx.client) && ctx.Context == old(ctx.Context)
//@
//@ define same(ctx) = ctx.committed == old(ctx.committed) && ctx.client == old(ctx.client) && ctx.Task == old(ctx.Task) && ctx.Context == old(ctx.Context) && calls("HTTP") == 0
//@
//@ func (*Context).Reset(ctx) (res)
//@ kind panic-free C22
//@ kind supported C22
//@ requires ctx != nil
//@ ensures C22 commit: res == ctx && ctx.commit == with(zero("ratus.Commit"), Nonce, ite(ctx.Task != nil, ctx.Task.Nonce, ""), State, some(ratus.TaskStateCompleted))
//@ ensures C22 rest: same(ctx)
//@
//@ func (*Context).SetNonce(ctx, nonce) (res)
//@ kind panic-free C22
//@ kind supported C22
//@ requires ctx != nil
//@ ensures C22 commit: res == ctx && ctx.commit == with(old(ctx.commit), Nonce, nonce)
//@ ensures C22 rest: same(ctx)
//@
//@ func (*Context).SetTopic(ctx, topic) (res)
//@ kind panic-free C22
//@ kind supported C22
//@ requires ctx != nil
//@ ensures C22 commit: res == ctx && ctx.commit == with(old(ctx.commit), Topic, topic)
//@ ensures C22 rest: same(ctx)
//@
//@ func (*Context).SetState(ctx, s) (res)
//@ kind panic-free C22
//@ kind supported C22
//@ requires ctx != nil
//@ ensures C22 commit: res == ctx && ctx.commit == with(old(ctx.commit), State, some(s))
//@ ensures C22 rest: same(ctx)
//@
//@ func (*Context).SetScheduled(ctx, t) (res)
//@ kind panic-free C22
//@ kind supported C22
//@ requires ctx != nil
//@ ensures C22 commit: res == ctx && ctx.commit == with(old(ctx.commit), Scheduled, some(t))
//@ ensures C22 rest: same(ctx)
//@
//@ func (*Context).SetPayload(ctx, v) (res)
//@ kind panic-free C22
//@ kind supported C22
//@ requires ctx != nil
//@ ensures C22 commit: res == ctx && ctx.commit == with(old(ctx.commit), Payload, v)
//@ ensures C22 rest: same(ctx)
//@
//@ func (*Context).SetDefer(ctx, d) (res)
//@ kind panic-free C22
//@ kind supported C22
//@ requires ctx != nil
//@ ensures C22 commit: res == ctx && ctx.commit == with(old(ctx.commit), Defer, d)
//@ ensures C22 rest: same(ctx)
//@
//@ func (*Context).Force(ctx) (res)
//@ kind panic-free C22
//@ kind supported C22
//@ requires ctx != nil
//@ ensures C22 commit: res == ctx && ctx.commit == with(old(ctx.commit), Nonce, "")
//@ ensures C22 rest: same(ctx)
//@
//@ func (*Context).Abstain(ctx) (res)
//@ kind panic-free C22
//@ kind supported C22
//@ requires ctx != nil
//@ ensures C22 commit: res == ctx && ctx.commit == with(old(ctx.commit), State, some(ratus.TaskStatePending))
//@ ensures C22 rest: same(ctx)
//@
//@ func (*Context).Archive(ctx) (res)
//@ kind panic-free C22
//@ kind supported C22
//@ requires ctx != nil
//@ ensures C22 commit: res == ctx && ctx.commit == with(old(ctx.commit), State, some(ratus.TaskStateArchived))
//@ ensures C22 rest: same(ctx)
//@
//@ func (*Context).Reschedule(ctx, t) (res)
//@ kind panic-free C22
//@ kind supported C22
//@ requires ctx != nil
//@ ensures C22 commit: res == ctx && ctx.commit == with(old(ctx.commit), State, some(ratus.TaskStatePending), Scheduled, some(t))
//@ ensures C22 rest: same(ctx)
//@
//@ func (*Context).Retry(ctx, d) (res)
//@ kind panic-free C22
//@ kind supported C22
//@ requires ctx != nil
//@ ensures C22 commit: res == ctx && ctx.commit == with(old(ctx.commit), State, some(ratus.TaskStatePending), Defer, d)
//@ ensures C22 rest: same(ctx)

// The transport. Header keys are configured once, whatever their case.

//@ func govcSend(o, r) (res, err)
//@ any k string
//@ any j int
//@ kind panic-free C24
//@ kind supported C24
//@ define ck(j) = canonheader(mapkey(o.Headers, j))
//@ define given(j) = haskey(old(r.Header), ck(j))
//@ define carries(h, j) = haskey(h, ck(j)) && values(h, ck(j)) == 1 && first(h, ck(j)) == at(o.Headers, mapkey(o.Headers, j))
//@ hint 0 <= j && j < pos($r) && !given(j) ==> carries($m, j)
//@ hint pos($r) <= j && j < mapsize(o.Headers) && haskey($m, ck(j)) ==> given(j)
//@ hint haskey(old(r.Header), k) ==> haskey($m, k) && at($m, k) == at(old(r.Header), k)
//@ hint haskey($m, "User-Agent") && !configures("User-Agent") ==> haskey(old(r.Header), "User-Agent")
//@ requires o != nil && r != nil && r.URL != nil && r.Header != nil
//@ requires 0 <= j && j < mapsize(o.Headers) ==> forall(a, 0, mapsize(o.Headers), ck(a) == ck(j) ==> a == j)
//@ ensures C24 origin-rejected: urlbad(o.Origin) ==> err != nil && calls("wire") == 0
//@ ensures C24 sent: !urlbad(o.Origin) ==> calls("wire") == 1
//@ ensures C24 scheme: calls("wire") == 1 && urlscheme(o.Origin) != "" ==> call("wire").scheme == urlscheme(o.Origin)
//@ ensures C24 host: calls("wire") == 1 && urlhost(o.Origin) != "" ==> call("wire").host == urlhost(o.Origin)
//@ ensures C24 method: calls("wire") == 1 ==> call("wire").method == old(r.Method)
//@ ensures C24 kept-present: calls("wire") == 1 && haskey(old(r.Header), k) ==> haskey(call("wire").header, k) && at(call("wire").header, k) == at(old(r.Header), k)
//@ ensures C24 path: calls("wire") == 1 ==> call("wire").path == old(r.URL.Path) && call("wire").rawpath == old(r.URL.RawPath) && call("wire").rawquery == old(r.URL.RawQuery)
//@ ensures C24 configured: calls("wire") == 1 && 0 <= j && j < mapsize(o.Headers) && !given(j) ==> carries(call("wire").header, j)
//@ define configures(k) = !forall(a, 0, mapsize(o.Headers), ck(a) != k)
//@ ensures C24 user-agent: calls("wire") == 1 ==> haskey(call("wire").header, "User-Agent")
//@ ensures C24 default-agent: calls("wire") == 1 && !haskey(old(r.Header), "User-Agent") && !configures("User-Agent") ==> first(call("wire").header, "User-Agent") == "Ratus-Client"
