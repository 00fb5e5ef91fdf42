//go:build verif

// Contracts of the HTTP API, written by tools/mkapi.py.
package contracts

//@ package github.com/hyperonym/ratus/cmd/ratus
//@ default panic-free C19
//@ default supported C13 C14 C15 C16 C18 C19 C20
//@ default precondition C18
//@ default route C18
//@
//@ define isError(code) = bodyis("ratus.Error") && body("ratus.Error").Error.Code == code && status() == code && responses() == 1
//@ define rejected() = calls("engine.*") == 0 && isError(400)
//@ define failedWith(e) = isError(status()) && codeFits(status(), e) && hasprefix(body("ratus.Error").Error.Message, errmsg(e))
//@ define topicLabel() = param("topic")
//@ define onlyOp(op) = calls("engine.*") == 1 && calls(op) == 1
//@ define noCounters() = counted(metrics.ProducedCounter) == real(0) && counted(metrics.ConsumedCounter) == real(0) && counted(metrics.CommittedCounter) == real(0)
//@ define noGauges() = gauges(metrics.DelayGauge) == 0 && gauges(metrics.ExecutionGauge) == 0
//@ define observedOnce() = observations(metrics.RequestHistogram) == 1 && observations(metrics.RequestHistogram, param("topic"), method(), fullpath(), itoa(status())) == 1
//@
//@ define reqLimit() = ite(hasquery("limit"), query("limit", "int"), 0)
//@ define pageLimit(pc) = ite(reqLimit() == 0, min(ratus.DefaultLimit, pc.MaxLimit), reqLimit())
//@ define pageOffset() = ite(hasquery("offset"), query("offset", "int"), 0)
//@ define pageOK(pc) = queryok() && 0 <= pageLimit(pc) && pageLimit(pc) <= pc.MaxLimit && 0 <= pageOffset() && pageOffset() <= pc.MaxOffset
//@
//@ define theID(s, id) = ite(s.ID != "", s.ID, id)
//@ define theTopic(s, topic) = ite(s.Topic != "", s.Topic, topic)
//@ define delayOK(at, d) = at != nil || d == "" || durok(d)
//@ define taskOK(s, id, topic) = theID(s, id) != "" && (id == "" || theID(s, id) == id) && theTopic(s, topic) != "" && ratus.TaskStatePending <= s.State && s.State <= ratus.TaskStateArchived && delayOK(s.Scheduled, s.Defer)
//@ define soon(t, d) = t != nil && now0 + d <= *t && *t <= now1 + d
//@ define scheduledAs(at, s) = ite(s.Scheduled != nil, at == s.Scheduled, ite(s.Defer != "", soon(at, dur(s.Defer)), soon(at, 0)))
//@ define producedAs(at, s) = ite(s.Produced != nil, at == s.Produced, soon(at, 0))
//@ define submitted(t, s, id, topic) = t != nil && *t == with(s, ID, theID(s, id), Topic, theTopic(s, topic), Produced, t.Produced, Scheduled, t.Scheduled, Defer, "") && producedAs(t.Produced, s) && scheduledAs(t.Scheduled, s)
//@
//@ define commitBody() = bodyempty() || bodyok("ratus.Commit")
//@ define commitOK(s) = commitBody() && (bodyempty() || (s.State == nil || ratus.TaskStatePending <= *s.State && *s.State <= ratus.TaskStateArchived) && delayOK(s.Scheduled, s.Defer))
//@ define commitAs(m, s) = m.State != nil && *m == with(s, State, m.State, Scheduled, m.Scheduled, Defer, "") && *m.State == ite(s.State != nil, *s.State, ratus.TaskStateCompleted) && ite(s.Scheduled != nil, m.Scheduled == s.Scheduled, ite(s.Defer != "", soon(m.Scheduled, dur(s.Defer)), m.Scheduled == nil))
//@ define commitDefault(m) = m.State != nil && *m.State == ratus.TaskStateCompleted && m.Scheduled == nil && m.Nonce == "" && m.Topic == "" && m.Payload == nil && m.Defer == ""
//@
//@ define pID() = ite(hasquery("_id"), query("_id"), ite(bodyempty(), "", sent("ratus.Promise").ID))
//@ define pConsumer() = ite(hasquery("consumer"), query("consumer"), ite(bodyempty(), "", sent("ratus.Promise").Consumer))
//@ define pTimeout() = ite(hasquery("timeout"), query("timeout"), ite(bodyempty(), "", sent("ratus.Promise").Timeout))
//@ define pHasDeadline() = hasquery("deadline") || !bodyempty() && sent("ratus.Promise").Deadline != nil
//@ define pDeadline() = ite(hasquery("deadline"), query("deadline", "time"), *sent("ratus.Promise").Deadline)
//@ define pTheID(id) = ite(pID() != "", pID(), id)
//@ define promiseOK(id) = (bodyempty() || bodyok("ratus.Promise")) && queryok() && (id == "" || pTheID(id) == id) && (pHasDeadline() || durok(ite(pTimeout() != "", pTimeout(), ratus.DefaultTimeout)))
//@ define promiseAs(p, id) = p != nil && p.ID == pTheID(id) && p.Consumer == pConsumer() && p.Timeout == "" && p.Deadline != nil && ite(pHasDeadline(), *p.Deadline == pDeadline(), soon(p.Deadline, dur(ite(pTimeout() != "", pTimeout(), ratus.DefaultTimeout))))
//@
//@ define claimedCounts(e) = counted(metrics.ConsumedCounter) == ite(e.err == nil, real(1), real(0)) && (e.err == nil ==> counted(metrics.ConsumedCounter, e.v.Topic, e.v.Producer, e.v.Consumer) == real(1)) && counted(metrics.ProducedCounter) == real(0) && counted(metrics.CommittedCounter) == real(0)
//@ define claimedGauges(e) = gauges(metrics.ExecutionGauge) == 0 && gauges(metrics.DelayGauge) == ite(e.err == nil && e.v.Scheduled != nil && e.v.Consumed != nil, 1, 0) && (e.err == nil && e.v.Scheduled != nil && e.v.Consumed != nil ==> gauge(metrics.DelayGauge, e.v.Topic, e.v.Producer, e.v.Consumer) == seconds(*e.v.Consumed - *e.v.Scheduled))
//@
//@ func govcAPI[GET topics](g, pc, c)
//@ opt method GET
//@ opt path /topics,/v1/topics
//@ requires g != nil && pc != nil && c != nil
//@ ensures C16 accepted: pageOK(pc) ==> onlyOp("engine.ListTopics")
//@ ensures C16 rejected: !(pageOK(pc)) ==> rejected()
//@ ensures C16 limit: calls("engine.ListTopics") == 1 ==> call("engine.ListTopics").limit == pageLimit(pc)
//@ ensures C16 offset: calls("engine.ListTopics") == 1 ==> call("engine.ListTopics").offset == pageOffset()
//@ ensures C18 success: calls("engine.ListTopics") == 1 && call("engine.ListTopics").err == nil ==> responses() == 1 && bodyis("ratus.Topics") && body("ratus.Topics").Data == call("engine.ListTopics").v && status() == 200
//@ ensures C17 C18 failure: calls("engine.ListTopics") == 1 && call("engine.ListTopics").err != nil ==> failedWith(call("engine.ListTopics").err)
//@ ensures C18 one-response: responses() == 1
//@ ensures C20 histogram: observedOnce()
//@ ensures C20 counters: noCounters() && noGauges()
//@
//@ func govcAPI[DELETE topics](g, pc, c)
//@ opt method DELETE
//@ opt path /topics,/v1/topics
//@ requires g != nil && pc != nil && c != nil
//@ ensures C18 operation: onlyOp("engine.DeleteTopics")
//@ ensures C18 success: calls("engine.DeleteTopics") == 1 && call("engine.DeleteTopics").err == nil ==> responses() == 1 && bodyis("ratus.Deleted") && *body("ratus.Deleted") == *call("engine.DeleteTopics").v && status() == 200
//@ ensures C17 C18 failure: calls("engine.DeleteTopics") == 1 && call("engine.DeleteTopics").err != nil ==> failedWith(call("engine.DeleteTopics").err)
//@ ensures C18 one-response: responses() == 1
//@ ensures C20 histogram: observedOnce()
//@ ensures C20 counters: noCounters() && noGauges()
//@
//@ func govcAPI[GET topic](g, pc, c)
//@ opt method GET
//@ opt path /topics/:topic,/v1/topics/:topic
//@ requires g != nil && pc != nil && c != nil
//@ ensures C18 operation: onlyOp("engine.GetTopic")
//@ ensures C18 argument-topic: calls("engine.GetTopic") == 1 ==> call("engine.GetTopic").topic == param("topic")
//@ ensures C18 success: calls("engine.GetTopic") == 1 && call("engine.GetTopic").err == nil ==> responses() == 1 && bodyis("ratus.Topic") && *body("ratus.Topic") == *call("engine.GetTopic").v && status() == 200
//@ ensures C17 C18 failure: calls("engine.GetTopic") == 1 && call("engine.GetTopic").err != nil ==> failedWith(call("engine.GetTopic").err)
//@ ensures C18 one-response: responses() == 1
//@ ensures C20 histogram: observedOnce()
//@ ensures C20 counters: noCounters() && noGauges()
//@
//@ func govcAPI[DELETE topic](g, pc, c)
//@ opt method DELETE
//@ opt path /topics/:topic,/v1/topics/:topic
//@ requires g != nil && pc != nil && c != nil
//@ ensures C18 operation: onlyOp("engine.DeleteTopic")
//@ ensures C18 argument-topic: calls("engine.DeleteTopic") == 1 ==> call("engine.DeleteTopic").topic == param("topic")
//@ ensures C18 success: calls("engine.DeleteTopic") == 1 && call("engine.DeleteTopic").err == nil ==> responses() == 1 && bodyis("ratus.Deleted") && *body("ratus.Deleted") == *call("engine.DeleteTopic").v && status() == 200
//@ ensures C17 C18 failure: calls("engine.DeleteTopic") == 1 && call("engine.DeleteTopic").err != nil ==> failedWith(call("engine.DeleteTopic").err)
//@ ensures C18 one-response: responses() == 1
//@ ensures C20 histogram: observedOnce()
//@ ensures C20 counters: noCounters() && noGauges()
//@
//@ func govcAPI[GET tasks](g, pc, c)
//@ opt method GET
//@ opt path /topics/:topic/tasks,/v1/topics/:topic/tasks
//@ requires g != nil && pc != nil && c != nil
//@ ensures C16 accepted: pageOK(pc) ==> onlyOp("engine.ListTasks")
//@ ensures C16 rejected: !(pageOK(pc)) ==> rejected()
//@ ensures C18 argument-topic: calls("engine.ListTasks") == 1 ==> call("engine.ListTasks").topic == param("topic")
//@ ensures C16 limit: calls("engine.ListTasks") == 1 ==> call("engine.ListTasks").limit == pageLimit(pc)
//@ ensures C16 offset: calls("engine.ListTasks") == 1 ==> call("engine.ListTasks").offset == pageOffset()
//@ ensures C18 success: calls("engine.ListTasks") == 1 && call("engine.ListTasks").err == nil ==> responses() == 1 && bodyis("ratus.Tasks") && body("ratus.Tasks").Data == call("engine.ListTasks").v && status() == 200
//@ ensures C17 C18 failure: calls("engine.ListTasks") == 1 && call("engine.ListTasks").err != nil ==> failedWith(call("engine.ListTasks").err)
//@ ensures C18 one-response: responses() == 1
//@ ensures C20 histogram: observedOnce()
//@ ensures C20 counters: noCounters() && noGauges()
//@
//@ func govcAPI[DELETE tasks](g, pc, c)
//@ opt method DELETE
//@ opt path /topics/:topic/tasks,/v1/topics/:topic/tasks
//@ requires g != nil && pc != nil && c != nil
//@ ensures C18 operation: onlyOp("engine.DeleteTasks")
//@ ensures C18 argument-topic: calls("engine.DeleteTasks") == 1 ==> call("engine.DeleteTasks").topic == param("topic")
//@ ensures C18 success: calls("engine.DeleteTasks") == 1 && call("engine.DeleteTasks").err == nil ==> responses() == 1 && bodyis("ratus.Deleted") && *body("ratus.Deleted") == *call("engine.DeleteTasks").v && status() == 200
//@ ensures C17 C18 failure: calls("engine.DeleteTasks") == 1 && call("engine.DeleteTasks").err != nil ==> failedWith(call("engine.DeleteTasks").err)
//@ ensures C18 one-response: responses() == 1
//@ ensures C20 histogram: observedOnce()
//@ ensures C20 counters: noCounters() && noGauges()
//@
//@ func govcAPI[GET task](g, pc, c)
//@ opt method GET
//@ opt path /topics/:topic/tasks/:id,/v1/topics/:topic/tasks/:id
//@ requires g != nil && pc != nil && c != nil
//@ ensures C18 operation: onlyOp("engine.GetTask")
//@ ensures C18 argument-id: calls("engine.GetTask") == 1 ==> call("engine.GetTask").id == param("id")
//@ ensures C18 success: calls("engine.GetTask") == 1 && call("engine.GetTask").err == nil ==> responses() == 1 && bodyis("ratus.Task") && *body("ratus.Task") == *call("engine.GetTask").v && status() == 200
//@ ensures C17 C18 failure: calls("engine.GetTask") == 1 && call("engine.GetTask").err != nil ==> failedWith(call("engine.GetTask").err)
//@ ensures C18 one-response: responses() == 1
//@ ensures C20 histogram: observedOnce()
//@ ensures C20 counters: noCounters() && noGauges()
//@
//@ func govcAPI[DELETE task](g, pc, c)
//@ opt method DELETE
//@ opt path /topics/:topic/tasks/:id,/v1/topics/:topic/tasks/:id
//@ requires g != nil && pc != nil && c != nil
//@ ensures C18 operation: onlyOp("engine.DeleteTask")
//@ ensures C18 argument-id: calls("engine.DeleteTask") == 1 ==> call("engine.DeleteTask").id == param("id")
//@ ensures C18 success: calls("engine.DeleteTask") == 1 && call("engine.DeleteTask").err == nil ==> responses() == 1 && bodyis("ratus.Deleted") && *body("ratus.Deleted") == *call("engine.DeleteTask").v && status() == 200
//@ ensures C17 C18 failure: calls("engine.DeleteTask") == 1 && call("engine.DeleteTask").err != nil ==> failedWith(call("engine.DeleteTask").err)
//@ ensures C18 one-response: responses() == 1
//@ ensures C20 histogram: observedOnce()
//@ ensures C20 counters: noCounters() && noGauges()
//@
//@ func govcAPI[GET promises](g, pc, c)
//@ opt method GET
//@ opt path /topics/:topic/promises,/v1/topics/:topic/promises
//@ requires g != nil && pc != nil && c != nil
//@ ensures C16 accepted: pageOK(pc) ==> onlyOp("engine.ListPromises")
//@ ensures C16 rejected: !(pageOK(pc)) ==> rejected()
//@ ensures C18 argument-topic: calls("engine.ListPromises") == 1 ==> call("engine.ListPromises").topic == param("topic")
//@ ensures C16 limit: calls("engine.ListPromises") == 1 ==> call("engine.ListPromises").limit == pageLimit(pc)
//@ ensures C16 offset: calls("engine.ListPromises") == 1 ==> call("engine.ListPromises").offset == pageOffset()
//@ ensures C18 success: calls("engine.ListPromises") == 1 && call("engine.ListPromises").err == nil ==> responses() == 1 && bodyis("ratus.Promises") && body("ratus.Promises").Data == call("engine.ListPromises").v && status() == 200
//@ ensures C17 C18 failure: calls("engine.ListPromises") == 1 && call("engine.ListPromises").err != nil ==> failedWith(call("engine.ListPromises").err)
//@ ensures C18 one-response: responses() == 1
//@ ensures C20 histogram: observedOnce()
//@ ensures C20 counters: noCounters() && noGauges()
//@
//@ func govcAPI[DELETE promises](g, pc, c)
//@ opt method DELETE
//@ opt path /topics/:topic/promises,/v1/topics/:topic/promises
//@ requires g != nil && pc != nil && c != nil
//@ ensures C18 operation: onlyOp("engine.DeletePromises")
//@ ensures C18 argument-topic: calls("engine.DeletePromises") == 1 ==> call("engine.DeletePromises").topic == param("topic")
//@ ensures C18 success: calls("engine.DeletePromises") == 1 && call("engine.DeletePromises").err == nil ==> responses() == 1 && bodyis("ratus.Deleted") && *body("ratus.Deleted") == *call("engine.DeletePromises").v && status() == 200
//@ ensures C17 C18 failure: calls("engine.DeletePromises") == 1 && call("engine.DeletePromises").err != nil ==> failedWith(call("engine.DeletePromises").err)
//@ ensures C18 one-response: responses() == 1
//@ ensures C20 histogram: observedOnce()
//@ ensures C20 counters: noCounters() && noGauges()
//@
//@ func govcAPI[GET promise](g, pc, c)
//@ opt method GET
//@ opt path /topics/:topic/promises/:id,/v1/topics/:topic/promises/:id
//@ requires g != nil && pc != nil && c != nil
//@ ensures C18 operation: onlyOp("engine.GetPromise")
//@ ensures C18 argument-id: calls("engine.GetPromise") == 1 ==> call("engine.GetPromise").id == param("id")
//@ ensures C18 success: calls("engine.GetPromise") == 1 && call("engine.GetPromise").err == nil ==> responses() == 1 && bodyis("ratus.Promise") && *body("ratus.Promise") == *call("engine.GetPromise").v && status() == 200
//@ ensures C17 C18 failure: calls("engine.GetPromise") == 1 && call("engine.GetPromise").err != nil ==> failedWith(call("engine.GetPromise").err)
//@ ensures C18 one-response: responses() == 1
//@ ensures C20 histogram: observedOnce()
//@ ensures C20 counters: noCounters() && noGauges()
//@
//@ func govcAPI[DELETE promise](g, pc, c)
//@ opt method DELETE
//@ opt path /topics/:topic/promises/:id,/v1/topics/:topic/promises/:id
//@ requires g != nil && pc != nil && c != nil
//@ ensures C18 operation: onlyOp("engine.DeletePromise")
//@ ensures C18 argument-id: calls("engine.DeletePromise") == 1 ==> call("engine.DeletePromise").id == param("id")
//@ ensures C18 success: calls("engine.DeletePromise") == 1 && call("engine.DeletePromise").err == nil ==> responses() == 1 && bodyis("ratus.Deleted") && *body("ratus.Deleted") == *call("engine.DeletePromise").v && status() == 200
//@ ensures C17 C18 failure: calls("engine.DeletePromise") == 1 && call("engine.DeletePromise").err != nil ==> failedWith(call("engine.DeletePromise").err)
//@ ensures C18 one-response: responses() == 1
//@ ensures C20 histogram: observedOnce()
//@ ensures C20 counters: noCounters() && noGauges()
//@
//@ func govcAPI[POST task](g, pc, c)
//@ opt method POST
//@ opt path /topics/:topic/tasks/:id,/v1/topics/:topic/tasks/:id
//@ requires g != nil && pc != nil && c != nil
//@ ensures C13 accepted: bodyok("ratus.Task") && taskOK(sent("ratus.Task"), param("id"), param("topic")) ==> onlyOp("engine.InsertTask")
//@ ensures C13 rejected: !(bodyok("ratus.Task") && taskOK(sent("ratus.Task"), param("id"), param("topic"))) ==> rejected()
//@ ensures C13 normalized: calls("engine.InsertTask") == 1 ==> submitted(call("engine.InsertTask").t, sent("ratus.Task"), param("id"), param("topic"))
//@ ensures C18 success: calls("engine.InsertTask") == 1 && call("engine.InsertTask").err == nil ==> responses() == 1 && bodyis("ratus.Updated") && *body("ratus.Updated") == *call("engine.InsertTask").v && status() == ite(call("engine.InsertTask").v.Created > 0, 201, 200)
//@ ensures C17 C18 failure: calls("engine.InsertTask") == 1 && call("engine.InsertTask").err != nil ==> failedWith(call("engine.InsertTask").err)
//@ ensures C18 one-response: responses() == 1
//@ ensures C20 histogram: observedOnce()
//@ ensures C20 counters: counted(metrics.ProducedCounter) == ite(calls("engine.InsertTask") == 1 && call("engine.InsertTask").v != nil, real(call("engine.InsertTask").v.Created), real(0)) && counted(metrics.ConsumedCounter) == real(0) && counted(metrics.CommittedCounter) == real(0) && noGauges()
//@ ensures C20 labels: calls("engine.InsertTask") == 1 && call("engine.InsertTask").v != nil && call("engine.InsertTask").v.Created > 0 ==> counted(metrics.ProducedCounter, call("engine.InsertTask").t.Topic, call("engine.InsertTask").t.Producer) == real(call("engine.InsertTask").v.Created)
//@
//@ func govcAPI[PUT task](g, pc, c)
//@ opt method PUT
//@ opt path /topics/:topic/tasks/:id,/v1/topics/:topic/tasks/:id
//@ requires g != nil && pc != nil && c != nil
//@ ensures C13 accepted: bodyok("ratus.Task") && taskOK(sent("ratus.Task"), param("id"), param("topic")) ==> onlyOp("engine.UpsertTask")
//@ ensures C13 rejected: !(bodyok("ratus.Task") && taskOK(sent("ratus.Task"), param("id"), param("topic"))) ==> rejected()
//@ ensures C13 normalized: calls("engine.UpsertTask") == 1 ==> submitted(call("engine.UpsertTask").t, sent("ratus.Task"), param("id"), param("topic"))
//@ ensures C18 success: calls("engine.UpsertTask") == 1 && call("engine.UpsertTask").err == nil ==> responses() == 1 && bodyis("ratus.Updated") && *body("ratus.Updated") == *call("engine.UpsertTask").v && status() == ite(call("engine.UpsertTask").v.Created > 0, 201, 200)
//@ ensures C17 C18 failure: calls("engine.UpsertTask") == 1 && call("engine.UpsertTask").err != nil ==> failedWith(call("engine.UpsertTask").err)
//@ ensures C18 one-response: responses() == 1
//@ ensures C20 histogram: observedOnce()
//@ ensures C20 counters: counted(metrics.ProducedCounter) == ite(calls("engine.UpsertTask") == 1 && call("engine.UpsertTask").v != nil, real((call("engine.UpsertTask").v.Created + call("engine.UpsertTask").v.Updated)), real(0)) && counted(metrics.ConsumedCounter) == real(0) && counted(metrics.CommittedCounter) == real(0) && noGauges()
//@ ensures C20 labels: calls("engine.UpsertTask") == 1 && call("engine.UpsertTask").v != nil && (call("engine.UpsertTask").v.Created + call("engine.UpsertTask").v.Updated) > 0 ==> counted(metrics.ProducedCounter, call("engine.UpsertTask").t.Topic, call("engine.UpsertTask").t.Producer) == real((call("engine.UpsertTask").v.Created + call("engine.UpsertTask").v.Updated))
//@
//@ func govcAPI[PATCH task](g, pc, c)
//@ opt method PATCH
//@ opt path /topics/:topic/tasks/:id,/v1/topics/:topic/tasks/:id
//@ requires g != nil && pc != nil && c != nil
//@ ensures C14 accepted: commitOK(sent("ratus.Commit")) ==> onlyOp("engine.Commit")
//@ ensures C14 rejected: !(commitOK(sent("ratus.Commit"))) ==> rejected()
//@ ensures C18 argument-id: calls("engine.Commit") == 1 ==> call("engine.Commit").id == param("id")
//@ ensures C14 normalized: calls("engine.Commit") == 1 && !bodyempty() ==> commitAs(call("engine.Commit").m, sent("ratus.Commit"))
//@ ensures C14 default: calls("engine.Commit") == 1 && bodyempty() ==> commitDefault(call("engine.Commit").m)
//@ ensures C18 success: calls("engine.Commit") == 1 && call("engine.Commit").err == nil ==> responses() == 1 && bodyis("ratus.Task") && *body("ratus.Task") == *call("engine.Commit").v && status() == 200
//@ ensures C17 C18 failure: calls("engine.Commit") == 1 && call("engine.Commit").err != nil ==> failedWith(call("engine.Commit").err)
//@ ensures C18 one-response: responses() == 1
//@ ensures C20 histogram: observedOnce()
//@ define co() = calls("engine.Commit") == 1 && call("engine.Commit").err == nil
//@ ensures C20 counters: counted(metrics.CommittedCounter) == ite(co(), real(1), real(0)) && counted(metrics.ConsumedCounter) == real(0) && counted(metrics.ProducedCounter) == real(0)
//@ ensures C20 labels: co() ==> counted(metrics.CommittedCounter, call("engine.Commit").v.Topic, call("engine.Commit").v.Producer, call("engine.Commit").v.Consumer) == real(1)
//@ ensures C20 gauges: gauges(metrics.DelayGauge) == 0 && gauges(metrics.ExecutionGauge) == ite(co() && call("engine.Commit").v.Consumed != nil, 1, 0)
//@ ensures C20 execution-time: co() && call("engine.Commit").v.Consumed != nil ==> seconds(now0 - *call("engine.Commit").v.Consumed) <= gauge(metrics.ExecutionGauge, call("engine.Commit").v.Topic, call("engine.Commit").v.Producer, call("engine.Commit").v.Consumer) && gauge(metrics.ExecutionGauge, call("engine.Commit").v.Topic, call("engine.Commit").v.Producer, call("engine.Commit").v.Consumer) <= seconds(now1 - *call("engine.Commit").v.Consumed)
//@
//@ func govcAPI[POST promise](g, pc, c)
//@ opt method POST
//@ opt path /topics/:topic/promises/:id,/v1/topics/:topic/promises/:id
//@ requires g != nil && pc != nil && c != nil
//@ ensures C15 accepted: promiseOK(param("id")) ==> onlyOp("engine.InsertPromise")
//@ ensures C15 rejected: !(promiseOK(param("id"))) ==> rejected()
//@ ensures C15 normalized: calls("engine.InsertPromise") == 1 ==> promiseAs(call("engine.InsertPromise").p, param("id"))
//@ ensures C18 success: calls("engine.InsertPromise") == 1 && call("engine.InsertPromise").err == nil ==> responses() == 1 && bodyis("ratus.Task") && *body("ratus.Task") == *call("engine.InsertPromise").v && status() == 200
//@ ensures C17 C18 failure: calls("engine.InsertPromise") == 1 && call("engine.InsertPromise").err != nil ==> failedWith(call("engine.InsertPromise").err)
//@ ensures C18 one-response: responses() == 1
//@ ensures C20 histogram: observedOnce()
//@ ensures C20 counters: ite(calls("engine.InsertPromise") == 1, claimedCounts(call("engine.InsertPromise")), noCounters())
//@ ensures C20 gauges: ite(calls("engine.InsertPromise") == 1, claimedGauges(call("engine.InsertPromise")), noGauges())
//@
//@ func govcAPI[PUT promise](g, pc, c)
//@ opt method PUT
//@ opt path /topics/:topic/promises/:id,/v1/topics/:topic/promises/:id
//@ requires g != nil && pc != nil && c != nil
//@ ensures C15 accepted: promiseOK(param("id")) ==> onlyOp("engine.UpsertPromise")
//@ ensures C15 rejected: !(promiseOK(param("id"))) ==> rejected()
//@ ensures C15 normalized: calls("engine.UpsertPromise") == 1 ==> promiseAs(call("engine.UpsertPromise").p, param("id"))
//@ ensures C18 success: calls("engine.UpsertPromise") == 1 && call("engine.UpsertPromise").err == nil ==> responses() == 1 && bodyis("ratus.Task") && *body("ratus.Task") == *call("engine.UpsertPromise").v && status() == 200
//@ ensures C17 C18 failure: calls("engine.UpsertPromise") == 1 && call("engine.UpsertPromise").err != nil ==> failedWith(call("engine.UpsertPromise").err)
//@ ensures C18 one-response: responses() == 1
//@ ensures C20 histogram: observedOnce()
//@ ensures C20 counters: ite(calls("engine.UpsertPromise") == 1, claimedCounts(call("engine.UpsertPromise")), noCounters())
//@ ensures C20 gauges: ite(calls("engine.UpsertPromise") == 1, claimedGauges(call("engine.UpsertPromise")), noGauges())
//@
//@ func govcAPI[POST promises](g, pc, c)
//@ opt method POST
//@ opt path /topics/:topic/promises,/v1/topics/:topic/promises
//@ requires g != nil && pc != nil && c != nil
//@ ensures C15 polled: promiseOK("") && pID() == "" ==> onlyOp("engine.Poll")
//@ ensures C15 claimed: promiseOK("") && pID() != "" ==> onlyOp("engine.InsertPromise")
//@ ensures C15 rejected: !promiseOK("") ==> rejected()
//@ ensures C15 C18 topic: calls("engine.Poll") == 1 ==> call("engine.Poll").topic == param("topic")
//@ ensures C15 normalized: calls("engine.Poll") == 1 ==> promiseAs(call("engine.Poll").p, "")
//@ ensures C15 normalized-claim: calls("engine.InsertPromise") == 1 ==> promiseAs(call("engine.InsertPromise").p, "")
//@ ensures C18 success-Poll: calls("engine.Poll") == 1 && call("engine.Poll").err == nil ==> responses() == 1 && bodyis("ratus.Task") && *body("ratus.Task") == *call("engine.Poll").v && status() == 200
//@ ensures C17 C18 failure-Poll: calls("engine.Poll") == 1 && call("engine.Poll").err != nil ==> failedWith(call("engine.Poll").err)
//@ ensures C20 counters-Poll: calls("engine.Poll") == 1 ==> claimedCounts(call("engine.Poll"))
//@ ensures C20 gauges-Poll: calls("engine.Poll") == 1 ==> claimedGauges(call("engine.Poll"))
//@ ensures C18 success-InsertPromise: calls("engine.InsertPromise") == 1 && call("engine.InsertPromise").err == nil ==> responses() == 1 && bodyis("ratus.Task") && *body("ratus.Task") == *call("engine.InsertPromise").v && status() == 200
//@ ensures C17 C18 failure-InsertPromise: calls("engine.InsertPromise") == 1 && call("engine.InsertPromise").err != nil ==> failedWith(call("engine.InsertPromise").err)
//@ ensures C20 counters-InsertPromise: calls("engine.InsertPromise") == 1 ==> claimedCounts(call("engine.InsertPromise"))
//@ ensures C20 gauges-InsertPromise: calls("engine.InsertPromise") == 1 ==> claimedGauges(call("engine.InsertPromise"))
//@ ensures C20 rejected-counters: calls("engine.*") == 0 ==> noCounters() && noGauges()
//@ ensures C18 one-response: responses() == 1
//@ ensures C20 histogram: observedOnce()
//@
//@ func govcAPI[POST tasks](g, pc, c)
//@ opt method POST
//@ opt path /topics/:topic/tasks,/v1/topics/:topic/tasks
//@ any k int
//@ requires g != nil && pc != nil && c != nil
//@ define sentAt(k) = sent("ratus.Tasks").Data[k]
//@ define listed(k) = 0 <= k && k < len(sent("ratus.Tasks").Data)
//@ ensures C13 body: !bodyok("ratus.Tasks") ==> rejected()
//@ ensures C13 complete: calls("engine.InsertTasks") == 1 && listed(k) ==> sentAt(k) != nil && taskOK(sentAt(k), "", param("topic"))
//@ ensures C13 rejected: calls("engine.InsertTasks") == 0 ==> rejected()
//@ ensures C13 accepted: bodyok("ratus.Tasks") && forall(i, 0, len(sent("ratus.Tasks").Data), sentAt(i) != nil && taskOK(sentAt(i), "", param("topic"))) ==> calls("engine.InsertTasks") == 1
//@ hint 0 <= k && k < $n && k < len($s) ==> sentAt(k) != nil && taskOK(sentAt(k), "", param("topic"))
//@ hint 0 <= k && k < $n && k < len($s) ==> submitted($s[k], sentAt(k), "", param("topic"))
//@ hint forall(i, $n, len($s), $s[i] == sentAt(i))
//@ hint forall(i, 0, $n, i < len($s) ==> $s[i] != nil)
//@ ensures C13 length: calls("engine.InsertTasks") == 1 ==> len(call("engine.InsertTasks").ts) == len(sent("ratus.Tasks").Data)
//@ ensures C13 normalized: calls("engine.InsertTasks") == 1 && listed(k) ==> submitted(call("engine.InsertTasks").ts[k], sentAt(k), "", param("topic"))
//@ ensures C18 operation: calls("engine.*") == calls("engine.InsertTasks") && calls("engine.InsertTasks") <= 1
//@ ensures C18 success: calls("engine.InsertTasks") == 1 && call("engine.InsertTasks").err == nil ==> responses() == 1 && bodyis("ratus.Updated") && *body("ratus.Updated") == *call("engine.InsertTasks").v && status() == ite(call("engine.InsertTasks").v.Created > 0, 201, 200)
//@ ensures C17 C18 failure: calls("engine.InsertTasks") == 1 && call("engine.InsertTasks").err != nil ==> failedWith(call("engine.InsertTasks").err)
//@ ensures C18 one-response: responses() == 1
//@ ensures C20 histogram: observedOnce()
//@ ensures C20 counters: counted(metrics.ProducedCounter) == ite(calls("engine.InsertTasks") == 1 && call("engine.InsertTasks").v != nil && len(call("engine.InsertTasks").ts) > 0, real(call("engine.InsertTasks").v.Created), real(0)) && counted(metrics.ConsumedCounter) == real(0) && counted(metrics.CommittedCounter) == real(0) && noGauges()
//@ ensures C20 labels: calls("engine.InsertTasks") == 1 && call("engine.InsertTasks").v != nil && len(call("engine.InsertTasks").ts) > 0 && call("engine.InsertTasks").v.Created > 0 ==> counted(metrics.ProducedCounter, param("topic"), call("engine.InsertTasks").ts[0].Producer) == real(call("engine.InsertTasks").v.Created)
//@
//@ func govcAPI[PUT tasks](g, pc, c)
//@ opt method PUT
//@ opt path /topics/:topic/tasks,/v1/topics/:topic/tasks
//@ any k int
//@ requires g != nil && pc != nil && c != nil
//@ define sentAt(k) = sent("ratus.Tasks").Data[k]
//@ define listed(k) = 0 <= k && k < len(sent("ratus.Tasks").Data)
//@ ensures C13 body: !bodyok("ratus.Tasks") ==> rejected()
//@ ensures C13 complete: calls("engine.UpsertTasks") == 1 && listed(k) ==> sentAt(k) != nil && taskOK(sentAt(k), "", param("topic"))
//@ ensures C13 rejected: calls("engine.UpsertTasks") == 0 ==> rejected()
//@ ensures C13 accepted: bodyok("ratus.Tasks") && forall(i, 0, len(sent("ratus.Tasks").Data), sentAt(i) != nil && taskOK(sentAt(i), "", param("topic"))) ==> calls("engine.UpsertTasks") == 1
//@ hint 0 <= k && k < $n && k < len($s) ==> sentAt(k) != nil && taskOK(sentAt(k), "", param("topic"))
//@ hint 0 <= k && k < $n && k < len($s) ==> submitted($s[k], sentAt(k), "", param("topic"))
//@ hint forall(i, $n, len($s), $s[i] == sentAt(i))
//@ hint forall(i, 0, $n, i < len($s) ==> $s[i] != nil)
//@ ensures C13 length: calls("engine.UpsertTasks") == 1 ==> len(call("engine.UpsertTasks").ts) == len(sent("ratus.Tasks").Data)
//@ ensures C13 normalized: calls("engine.UpsertTasks") == 1 && listed(k) ==> submitted(call("engine.UpsertTasks").ts[k], sentAt(k), "", param("topic"))
//@ ensures C18 operation: calls("engine.*") == calls("engine.UpsertTasks") && calls("engine.UpsertTasks") <= 1
//@ ensures C18 success: calls("engine.UpsertTasks") == 1 && call("engine.UpsertTasks").err == nil ==> responses() == 1 && bodyis("ratus.Updated") && *body("ratus.Updated") == *call("engine.UpsertTasks").v && status() == ite(call("engine.UpsertTasks").v.Created > 0, 201, 200)
//@ ensures C17 C18 failure: calls("engine.UpsertTasks") == 1 && call("engine.UpsertTasks").err != nil ==> failedWith(call("engine.UpsertTasks").err)
//@ ensures C18 one-response: responses() == 1
//@ ensures C20 histogram: observedOnce()
//@ ensures C20 counters: counted(metrics.ProducedCounter) == ite(calls("engine.UpsertTasks") == 1 && call("engine.UpsertTasks").v != nil && len(call("engine.UpsertTasks").ts) > 0, real((call("engine.UpsertTasks").v.Created + call("engine.UpsertTasks").v.Updated)), real(0)) && counted(metrics.ConsumedCounter) == real(0) && counted(metrics.CommittedCounter) == real(0) && noGauges()
//@ ensures C20 labels: calls("engine.UpsertTasks") == 1 && call("engine.UpsertTasks").v != nil && len(call("engine.UpsertTasks").ts) > 0 && (call("engine.UpsertTasks").v.Created + call("engine.UpsertTasks").v.Updated) > 0 ==> counted(metrics.ProducedCounter, param("topic"), call("engine.UpsertTasks").ts[0].Producer) == real((call("engine.UpsertTasks").v.Created + call("engine.UpsertTasks").v.Updated))
//@
//@ func govcAPI[GET healthz](g, pc, c)
//@ opt method GET
//@ opt path /healthz,/v1/healthz
//@ requires g != nil && pc != nil && c != nil
//@ ensures C18 alive: calls("engine.*") == 0 && status() == 200
//@ ensures C20 histogram: observedOnce()
//@ ensures C20 counters: noCounters() && noGauges()
//@
//@ func govcAPI[GET livez](g, pc, c)
//@ opt method GET
//@ opt path /livez,/v1/livez
//@ requires g != nil && pc != nil && c != nil
//@ ensures C18 alive: calls("engine.*") == 0 && status() == 200
//@ ensures C20 histogram: observedOnce()
//@ ensures C20 counters: noCounters() && noGauges()
//@
//@ func govcAPI[GET readyz](g, pc, c)
//@ opt method GET
//@ opt path /readyz,/v1/readyz
//@ requires g != nil && pc != nil && c != nil
//@ ensures C18 operation: onlyOp("engine.Ready")
//@ ensures C18 ready: call("engine.Ready").err == nil ==> status() == 200
//@ ensures C17 C18 not-ready: call("engine.Ready").err != nil ==> failedWith(call("engine.Ready").err)
//@ ensures C20 histogram: observedOnce()
//@ ensures C20 counters: noCounters() && noGauges()
//@
//@ func govcAPI[GET metrics](g, pc, c)
//@ opt method GET
//@ opt path /metrics,/v1/metrics
//@ requires g != nil && pc != nil && c != nil
//@ ensures C18 operation: calls("engine.*") == 0 && responses() == 1
//@ ensures C20 histogram: observedOnce()
//@ ensures C20 counters: noCounters() && noGauges()
//@
//@ func govcAPI[unknown path](g, pc, c)
//@ opt method GET
//@ opt path /unknown
//@ requires g != nil && pc != nil && c != nil
//@ ensures C18 not-found: calls("engine.*") == 0 && isError(404)
