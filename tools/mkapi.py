#!/usr/bin/env python3
"""Writes contracts/api.go: one contract per endpoint of the HTTP API."""
import os
out = []
def w(*ls): out.extend("//@ " + l if l else "//@" for l in ls)

w("package github.com/hyperonym/ratus/cmd/ratus",
  "default panic-free C19", "default supported C13 C14 C15 C16 C18 C19 C20", "default precondition C18", "default route C18", "",
  "define isError(code) = bodyis(\"ratus.Error\") && body(\"ratus.Error\").Error.Code == code && status() == code && responses() == 1",
  "define rejected() = calls(\"engine.*\") == 0 && isError(400)",
  "define failedWith(e) = isError(status()) && codeFits(status(), e) && hasprefix(body(\"ratus.Error\").Error.Message, errmsg(e))",
  "define topicLabel() = param(\"topic\")",
  "define onlyOp(op) = calls(\"engine.*\") == 1 && calls(op) == 1",
  "define noCounters() = counted(metrics.ProducedCounter) == real(0) && counted(metrics.ConsumedCounter) == real(0) && counted(metrics.CommittedCounter) == real(0)",
  "define noGauges() = gauges(metrics.DelayGauge) == 0 && gauges(metrics.ExecutionGauge) == 0",
  "define observedOnce() = observations(metrics.RequestHistogram) == 1 && observations(metrics.RequestHistogram, param(\"topic\"), method(), fullpath(), itoa(status())) == 1",
  "",
  "define reqLimit() = ite(hasquery(\"limit\"), query(\"limit\", \"int\"), 0)",
  "define pageLimit(pc) = ite(reqLimit() == 0, min(ratus.DefaultLimit, pc.MaxLimit), reqLimit())",
  "define pageOffset() = ite(hasquery(\"offset\"), query(\"offset\", \"int\"), 0)",
  "define pageOK(pc) = queryok() && 0 <= pageLimit(pc) && pageLimit(pc) <= pc.MaxLimit && 0 <= pageOffset() && pageOffset() <= pc.MaxOffset",
  "",
  "define theID(s, id) = ite(s.ID != \"\", s.ID, id)",
  "define theTopic(s, topic) = ite(s.Topic != \"\", s.Topic, topic)",
  "define delayOK(at, d) = at != nil || d == \"\" || durok(d)",
  "define taskOK(s, id, topic) = theID(s, id) != \"\" && (id == \"\" || theID(s, id) == id) && theTopic(s, topic) != \"\" && ratus.TaskStatePending <= s.State && s.State <= ratus.TaskStateArchived && delayOK(s.Scheduled, s.Defer)",
  "define soon(t, d) = t != nil && now0 + d <= *t && *t <= now1 + d",
  "define scheduledAs(at, s) = ite(s.Scheduled != nil, at == s.Scheduled, ite(s.Defer != \"\", soon(at, dur(s.Defer)), soon(at, 0)))",
  "define producedAs(at, s) = ite(s.Produced != nil, at == s.Produced, soon(at, 0))",
  "define submitted(t, s, id, topic) = t != nil && *t == with(s, ID, theID(s, id), Topic, theTopic(s, topic), Produced, t.Produced, Scheduled, t.Scheduled, Defer, \"\")"
  " && producedAs(t.Produced, s) && scheduledAs(t.Scheduled, s)",
  "",
  "define commitBody() = bodyempty() || bodyok(\"ratus.Commit\")",
  "define commitOK(s) = commitBody() && (bodyempty() || (s.State == nil || ratus.TaskStatePending <= *s.State && *s.State <= ratus.TaskStateArchived) && delayOK(s.Scheduled, s.Defer))",
  "define commitAs(m, s) = m.State != nil && *m == with(s, State, m.State, Scheduled, m.Scheduled, Defer, \"\") && *m.State == ite(s.State != nil, *s.State, ratus.TaskStateCompleted)"
  " && ite(s.Scheduled != nil, m.Scheduled == s.Scheduled, ite(s.Defer != \"\", soon(m.Scheduled, dur(s.Defer)), m.Scheduled == nil))",
  "define commitDefault(m) = m.State != nil && *m.State == ratus.TaskStateCompleted && m.Scheduled == nil && m.Nonce == \"\" && m.Topic == \"\" && m.Payload == nil && m.Defer == \"\"",
  "",
  "define pID() = ite(hasquery(\"_id\"), query(\"_id\"), ite(bodyempty(), \"\", sent(\"ratus.Promise\").ID))",
  "define pConsumer() = ite(hasquery(\"consumer\"), query(\"consumer\"), ite(bodyempty(), \"\", sent(\"ratus.Promise\").Consumer))",
  "define pTimeout() = ite(hasquery(\"timeout\"), query(\"timeout\"), ite(bodyempty(), \"\", sent(\"ratus.Promise\").Timeout))",
  "define pHasDeadline() = hasquery(\"deadline\") || !bodyempty() && sent(\"ratus.Promise\").Deadline != nil",
  "define pDeadline() = ite(hasquery(\"deadline\"), query(\"deadline\", \"time\"), *sent(\"ratus.Promise\").Deadline)",
  "define pTheID(id) = ite(pID() != \"\", pID(), id)",
  "define promiseOK(id) = (bodyempty() || bodyok(\"ratus.Promise\")) && queryok() && (id == \"\" || pTheID(id) == id) && (pHasDeadline() || durok(ite(pTimeout() != \"\", pTimeout(), ratus.DefaultTimeout)))",
  "define promiseAs(p, id) = p != nil && p.ID == pTheID(id) && p.Consumer == pConsumer() && p.Timeout == \"\" && p.Deadline != nil"
  " && ite(pHasDeadline(), *p.Deadline == pDeadline(), soon(p.Deadline, dur(ite(pTimeout() != \"\", pTimeout(), ratus.DefaultTimeout))))",
  "",
  "define claimedCounts(e) = counted(metrics.ConsumedCounter) == ite(e.err == nil, real(1), real(0))"
  " && (e.err == nil ==> counted(metrics.ConsumedCounter, e.v.Topic, e.v.Producer, e.v.Consumer) == real(1))"
  " && counted(metrics.ProducedCounter) == real(0) && counted(metrics.CommittedCounter) == real(0)",
  "define claimedGauges(e) = gauges(metrics.ExecutionGauge) == 0 && gauges(metrics.DelayGauge) == ite(e.err == nil && e.v.Scheduled != nil && e.v.Consumed != nil, 1, 0)"
  " && (e.err == nil && e.v.Scheduled != nil && e.v.Consumed != nil ==> gauge(metrics.DelayGauge, e.v.Topic, e.v.Producer, e.v.Consumer) == seconds(*e.v.Consumed - *e.v.Scheduled))",
  "")

def unit(name, method, path, op=None, args=(), ok=None, body=None, status=None, extra=(), prop=None, counters=None, valid="true", okargs=None):
    """valid: condition under which the request is accepted (prop names it)."""
    w(f"func govcAPI[{name}](g, pc, c)", f"opt method {method}", f"opt path {path},/v1{path}",
      "requires g != nil && pc != nil && c != nil")
    e = f'call("{op}")'
    one = f'calls("{op}") == 1'
    if valid == "true":
        w(f'ensures C18 operation: onlyOp("{op}")')
    else:
        w(f'ensures {prop} accepted: {valid} ==> onlyOp("{op}")',
          f'ensures {prop} rejected: !({valid}) ==> rejected()')
    for a, v in args:
        w(f'ensures {"C18" if not okargs else okargs} argument-{a}: {one} ==> {e}.{a} == {v}')
    for l in extra: w(l)
    if body:
        w(f'ensures C18 success: {one} && {e}.err == nil ==> responses() == 1 && bodyis("{body}") && {ok or "body("+chr(34)+body+chr(34)+") == "+e+".v"} && status() == {status or 200}')
    w(f'ensures C17 C18 failure: {one} && {e}.err != nil ==> failedWith({e}.err)',
      f'ensures C18 one-response: responses() == 1',
      f'ensures C20 histogram: observedOnce()')
    if counters is None:
        w('ensures C20 counters: noCounters() && noGauges()')
    else:
        for l in counters: w(l)
    w("")

PAGE = dict(prop="C16", valid="pageOK(pc)")
def lst(name, path, op, body, args=()):
    e = f'call("{op}")'
    unit(name, "GET", path, op, args, f'body("{body}").Data == {e}.v', body, extra=[
        f'ensures C16 limit: calls("{op}") == 1 ==> {e}.limit == pageLimit(pc)',
        f'ensures C16 offset: calls("{op}") == 1 ==> {e}.offset == pageOffset()'], **PAGE)
T, I = [("topic", 'param("topic")')], [("id", 'param("id")')]
val = lambda op, b: f'*body("{b}") == *call("{op}").v'
def simple(name, method, path, op, body, args):
    unit(name, method, path, op, args, val(op, body), body)

lst("GET topics", "/topics", "engine.ListTopics", "ratus.Topics")
simple("DELETE topics", "DELETE", "/topics", "engine.DeleteTopics", "ratus.Deleted", [])
simple("GET topic", "GET", "/topics/:topic", "engine.GetTopic", "ratus.Topic", T)
simple("DELETE topic", "DELETE", "/topics/:topic", "engine.DeleteTopic", "ratus.Deleted", T)
lst("GET tasks", "/topics/:topic/tasks", "engine.ListTasks", "ratus.Tasks", T)
simple("DELETE tasks", "DELETE", "/topics/:topic/tasks", "engine.DeleteTasks", "ratus.Deleted", T)
simple("GET task", "GET", "/topics/:topic/tasks/:id", "engine.GetTask", "ratus.Task", I)
simple("DELETE task", "DELETE", "/topics/:topic/tasks/:id", "engine.DeleteTask", "ratus.Deleted", I)
lst("GET promises", "/topics/:topic/promises", "engine.ListPromises", "ratus.Promises", T)
simple("DELETE promises", "DELETE", "/topics/:topic/promises", "engine.DeletePromises", "ratus.Deleted", T)
simple("GET promise", "GET", "/topics/:topic/promises/:id", "engine.GetPromise", "ratus.Promise", I)
simple("DELETE promise", "DELETE", "/topics/:topic/promises/:id", "engine.DeletePromise", "ratus.Deleted", I)

def produce(e, grown, topic, producer):
    return [
        f'ensures C20 counters: counted(metrics.ProducedCounter) == ite(calls("{e}") == 1 && call("{e}").v != nil, real({grown}), real(0)) && counted(metrics.ConsumedCounter) == real(0) && counted(metrics.CommittedCounter) == real(0) && noGauges()',
        f'ensures C20 labels: calls("{e}") == 1 && call("{e}").v != nil && {grown} > 0 ==> counted(metrics.ProducedCounter, {topic}, {producer}) == real({grown})']
def task(name, method, op, grown):
    e = f'call("{op}")'
    unit(name, method, "/topics/:topic/tasks/:id", op, [], val(op, "ratus.Updated"), "ratus.Updated", f"ite({e}.v.Created > 0, 201, 200)",
         [f'ensures C13 normalized: calls("{op}") == 1 ==> submitted({e}.t, sent("ratus.Task"), param("id"), param("topic"))'],
         "C13", [l.replace("GROWN", grown) for l in produce(op, grown, f"{e}.t.Topic", f"{e}.t.Producer")],
         'bodyok("ratus.Task") && taskOK(sent("ratus.Task"), param("id"), param("topic"))')
task("POST task", "POST", "engine.InsertTask", 'call("engine.InsertTask").v.Created')
task("PUT task", "PUT", "engine.UpsertTask", '(call("engine.UpsertTask").v.Created + call("engine.UpsertTask").v.Updated)')

unit("PATCH task", "PATCH", "/topics/:topic/tasks/:id", "engine.Commit", I, val("engine.Commit", "ratus.Task"), "ratus.Task", None,
     ['ensures C14 normalized: calls("engine.Commit") == 1 && !bodyempty() ==> commitAs(call("engine.Commit").m, sent("ratus.Commit"))',
      'ensures C14 default: calls("engine.Commit") == 1 && bodyempty() ==> commitDefault(call("engine.Commit").m)'],
     "C14", [
      'define co() = calls("engine.Commit") == 1 && call("engine.Commit").err == nil',
      'ensures C20 counters: counted(metrics.CommittedCounter) == ite(co(), real(1), real(0)) && counted(metrics.ConsumedCounter) == real(0) && counted(metrics.ProducedCounter) == real(0)',
      'ensures C20 labels: co() ==> counted(metrics.CommittedCounter, call("engine.Commit").v.Topic, call("engine.Commit").v.Producer, call("engine.Commit").v.Consumer) == real(1)',
      'ensures C20 gauges: gauges(metrics.DelayGauge) == 0 && gauges(metrics.ExecutionGauge) == ite(co() && call("engine.Commit").v.Consumed != nil, 1, 0)',
      'ensures C20 execution-time: co() && call("engine.Commit").v.Consumed != nil ==> '
      'seconds(now0 - *call("engine.Commit").v.Consumed) <= gauge(metrics.ExecutionGauge, call("engine.Commit").v.Topic, call("engine.Commit").v.Producer, call("engine.Commit").v.Consumer)'
      ' && gauge(metrics.ExecutionGauge, call("engine.Commit").v.Topic, call("engine.Commit").v.Producer, call("engine.Commit").v.Consumer) <= seconds(now1 - *call("engine.Commit").v.Consumed)'],
     "commitOK(sent(\"ratus.Commit\"))")

def promise(name, method, op):
    unit(name, method, "/topics/:topic/promises/:id", op, [], val(op, "ratus.Task"), "ratus.Task", None,
         [f'ensures C15 normalized: calls("{op}") == 1 ==> promiseAs(call("{op}").p, param("id"))'], "C15",
         [f'ensures C20 counters: ite(calls("{op}") == 1, claimedCounts(call("{op}")), noCounters())',
          f'ensures C20 gauges: ite(calls("{op}") == 1, claimedGauges(call("{op}")), noGauges())'],
         'promiseOK(param("id"))')
promise("POST promise", "POST", "engine.InsertPromise")
promise("PUT promise", "PUT", "engine.UpsertPromise")

# a promise on the topic endpoint: poll, or claim the task with the given ID
w("func govcAPI[POST promises](g, pc, c)", "opt method POST", "opt path /topics/:topic/promises,/v1/topics/:topic/promises",
  "requires g != nil && pc != nil && c != nil",
  'ensures C15 polled: promiseOK("") && pID() == "" ==> onlyOp("engine.Poll")',
  'ensures C15 claimed: promiseOK("") && pID() != "" ==> onlyOp("engine.InsertPromise")',
  'ensures C15 rejected: !promiseOK("") ==> rejected()',
  'ensures C15 C18 topic: calls("engine.Poll") == 1 ==> call("engine.Poll").topic == param("topic")',
  'ensures C15 normalized: calls("engine.Poll") == 1 ==> promiseAs(call("engine.Poll").p, "")',
  'ensures C15 normalized-claim: calls("engine.InsertPromise") == 1 ==> promiseAs(call("engine.InsertPromise").p, "")')
for op in ("engine.Poll", "engine.InsertPromise"):
    o = op.split(".")[1]
    w(f'ensures C18 success-{o}: calls("{op}") == 1 && call("{op}").err == nil ==> responses() == 1 && bodyis("ratus.Task") && *body("ratus.Task") == *call("{op}").v && status() == 200',
      f'ensures C17 C18 failure-{o}: calls("{op}") == 1 && call("{op}").err != nil ==> failedWith(call("{op}").err)',
      f'ensures C20 counters-{o}: calls("{op}") == 1 ==> claimedCounts(call("{op}"))',
      f'ensures C20 gauges-{o}: calls("{op}") == 1 ==> claimedGauges(call("{op}"))')
w('ensures C20 rejected-counters: calls("engine.*") == 0 ==> noCounters() && noGauges()',
  'ensures C18 one-response: responses() == 1', 'ensures C20 histogram: observedOnce()', "")

def tasks(name, method, op, grown):
    e = f'call("{op}")'
    w(f"func govcAPI[{name}](g, pc, c)", f"opt method {method}", "opt path /topics/:topic/tasks,/v1/topics/:topic/tasks", "any k int",
      "requires g != nil && pc != nil && c != nil",
      'define sentAt(k) = sent("ratus.Tasks").Data[k]',
      'define listed(k) = 0 <= k && k < len(sent("ratus.Tasks").Data)',
      f'ensures C13 body: !bodyok("ratus.Tasks") ==> rejected()',
      f'ensures C13 complete: calls("{op}") == 1 && listed(k) ==> sentAt(k) != nil && taskOK(sentAt(k), "", param("topic"))',
      f'ensures C13 rejected: calls("{op}") == 0 ==> rejected()',
      f'ensures C13 accepted: bodyok("ratus.Tasks") && forall(i, 0, len(sent("ratus.Tasks").Data), sentAt(i) != nil && taskOK(sentAt(i), "", param("topic"))) ==> calls("{op}") == 1',
      'hint 0 <= k && k < $n && k < len($s) ==> sentAt(k) != nil && taskOK(sentAt(k), "", param("topic"))',
      'hint 0 <= k && k < $n && k < len($s) ==> submitted($s[k], sentAt(k), "", param("topic"))',
      'hint forall(i, $n, len($s), $s[i] == sentAt(i))',
      'hint forall(i, 0, $n, i < len($s) ==> $s[i] != nil)',
      f'ensures C13 length: calls("{op}") == 1 ==> len({e}.ts) == len(sent("ratus.Tasks").Data)',
      f'ensures C13 normalized: calls("{op}") == 1 && listed(k) ==> submitted({e}.ts[k], sentAt(k), "", param("topic"))',
      f'ensures C18 operation: calls("engine.*") == calls("{op}") && calls("{op}") <= 1',
      f'ensures C18 success: calls("{op}") == 1 && {e}.err == nil ==> responses() == 1 && bodyis("ratus.Updated") && {val(op, "ratus.Updated")} && status() == ite({e}.v.Created > 0, 201, 200)',
      f'ensures C17 C18 failure: calls("{op}") == 1 && {e}.err != nil ==> failedWith({e}.err)',
      'ensures C18 one-response: responses() == 1', 'ensures C20 histogram: observedOnce()',
      f'ensures C20 counters: counted(metrics.ProducedCounter) == ite(calls("{op}") == 1 && {e}.v != nil && len({e}.ts) > 0, real({grown}), real(0)) && counted(metrics.ConsumedCounter) == real(0) && counted(metrics.CommittedCounter) == real(0) && noGauges()',
      f'ensures C20 labels: calls("{op}") == 1 && {e}.v != nil && len({e}.ts) > 0 && {grown} > 0 ==> counted(metrics.ProducedCounter, param("topic"), {e}.ts[0].Producer) == real({grown})', "")
tasks("POST tasks", "POST", "engine.InsertTasks", 'call("engine.InsertTasks").v.Created')
tasks("PUT tasks", "PUT", "engine.UpsertTasks", '(call("engine.UpsertTasks").v.Created + call("engine.UpsertTasks").v.Updated)')

for n in ("healthz", "livez"):
    w(f"func govcAPI[GET {n}](g, pc, c)", "opt method GET", f"opt path /{n},/v1/{n}", "requires g != nil && pc != nil && c != nil",
      'ensures C18 alive: calls("engine.*") == 0 && status() == 200', 'ensures C20 histogram: observedOnce()', 'ensures C20 counters: noCounters() && noGauges()', "")
w("func govcAPI[GET readyz](g, pc, c)", "opt method GET", "opt path /readyz,/v1/readyz", "requires g != nil && pc != nil && c != nil",
  'ensures C18 operation: onlyOp("engine.Ready")',
  'ensures C18 ready: call("engine.Ready").err == nil ==> status() == 200',
  'ensures C17 C18 not-ready: call("engine.Ready").err != nil ==> failedWith(call("engine.Ready").err)',
  'ensures C20 histogram: observedOnce()', 'ensures C20 counters: noCounters() && noGauges()', "")
w("func govcAPI[GET metrics](g, pc, c)", "opt method GET", "opt path /metrics,/v1/metrics", "requires g != nil && pc != nil && c != nil",
  'ensures C18 operation: calls("engine.*") == 0 && responses() == 1', 'ensures C20 histogram: observedOnce()', 'ensures C20 counters: noCounters() && noGauges()', "")
w("func govcAPI[unknown path](g, pc, c)", "opt method GET", "opt path /unknown", "requires g != nil && pc != nil && c != nil",
  'ensures C18 not-found: calls("engine.*") == 0 && isError(404)', "")
while out[-1] == "//@": out.pop()
f = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "contracts", "api.go")
open(f, "w").write("//go:build verif\n\n// Contracts of the HTTP API, written by tools/mkapi.py.\npackage contracts\n\n" + "\n".join(out) + "\n")
