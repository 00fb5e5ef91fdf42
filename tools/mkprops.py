#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (the property list is maintained here)."""
import json, os
P = []
M = 'internal/engine/memdb/'
G = 'internal/engine/mongodb/'
W = 'internal/middleware/'
K = 'internal/controller/'
def p(id, title, stmt, over, q, why, files, mech, state=(), obs=()):
    assert len(title) <= 80, (id, len(title))
    d = dict(id=id, title=title, statement=stmt, quantifier=dict(over=over, text=q), why_tests_cant=why,
             anchors=dict(files=files, mechanism=[dict(name=a, where=b) for a, b in mech]))
    if state: d['anchors']['state'] = [dict(name=a, meaning=b, where=c) for a, b, c in state]
    if obs: d['anchors']['observe_at'] = list(obs)
    P.append(d)

p('C01', 'A successful claim takes exclusive ownership of exactly one task',
  'With the in-memory engine, a successful poll or promise turns exactly one existing task into an active task carrying a freshly generated non-empty nonce, the claiming consumer, the promised deadline and the time of the claim, keeps its other fields, leaves every other task unchanged, and returns that very task. A poll or a plain promise only ever takes a task that is pending at that instant, so a task cannot be handed to a second consumer while it is active; only a forced promise may take a task in any other state. A failed claim reports not-found for a missing task (or nothing to poll), conflict for a task that is not pending, and changes nothing.',
  ['inputs', 'histories', 'schedules'], 'every database content, promise, topic and ID, at every point of every interleaving of operations',
  'The engine test suite claims a handful of tasks one after another in a few states; it cannot range over all database contents, promises and interleavings.',
  [M+'queue.go', M+'promise.go', M+'memdb.go', 'internal/nonce/nonce.go'],
  [('exclusive write transaction', M+'queue.go Poll'), ('pending check before claiming', M+'promise.go InsertPromise'), ('claim update', M+'memdb.go updateOpsConsume')],
  [('task table', 'map from task ID to task', M+'memdb.go')], ['Poll', 'InsertPromise', 'UpsertPromise'])
p('C02', 'Polling returns the earliest due pending task of the requested topic',
  'A poll on the in-memory engine only returns a task that belongs to the requested topic, is pending, and whose scheduled time is not in the future. Among the pending tasks of that topic it returns one with the earliest scheduled time (at millisecond resolution), whatever the instant, including instants before 1970. It reports not-found exactly when no pending task of that topic is due.',
  ['inputs', 'histories'], 'every set of tasks over all topics, states and scheduled times, and every clock value',
  'Tests poll topics one at a time with a few tasks scheduled around the current time; neither adjacent topics nor unusual timestamps nor arbitrary sets of tasks are covered.',
  [M+'queue.go', M+'indexer.go', M+'memdb.go'],
  [('ordered index over pending tasks by topic and schedule', M+'memdb.go New'), ('lower-bound scan and due check', M+'queue.go Poll')], (), ['Poll'])
p('C03', 'A commit applies only if its nonce matches, and updates exactly its fields',
  'A commit on the in-memory engine that carries a nonce is accepted only if the stored nonce of the task is the same at the instant of the commit; otherwise it reports a conflict, or not-found if the task does not exist, and nothing changes. An accepted commit sets exactly the topic, state, scheduled time and payload it specifies, clears the nonce so that the same nonce can never be committed twice, keeps every other field and every other task, and returns the task as stored.',
  ['inputs', 'histories', 'schedules'], 'every task, commit and interleaving with other operations',
  'Tests commit a few fixed combinations of fields; all combinations of absent and present fields, prior states and interleaved claims cannot be enumerated.',
  [M+'queue.go', M+'memdb.go'], [('nonce check inside the write transaction', M+'queue.go Commit'), ('commit update', M+'memdb.go updateOpsCommit')], (), ['Commit'])
p('C04', 'Timed-out tasks, and only those, return to pending with their nonce revoked',
  'When background jobs run on the in-memory engine, every active task whose deadline has passed (by at least the millisecond resolution of the engine) is set back to pending with its nonce cleared, keeping all its other fields. No task whose deadline is still in the future, that has no deadline, or that is not active is recovered. This holds for every deadline, including instants before 1970.',
  ['inputs', 'histories'], 'every set of tasks and every clock value',
  'Tests run background jobs on one or two expired tasks; they cannot cover all mixes of states, deadlines and numbers of tasks.',
  [M+'queue.go', M+'memdb.go', M+'indexer.go'], [('deadline-ordered scan', M+'queue.go Chore'), ('recover update', M+'memdb.go updateOpsRecover')], (), ['Chore'])
p('C05', 'Promises are exactly the active tasks, and releasing one reverts its task',
  'On the in-memory engine, looking up or listing promises shows exactly the active tasks (of the topic), each with its own ID, consumer and deadline; a task in any other state has no promise. Deleting a promise, or all promises of a topic, sets exactly the targeted active tasks back to pending with the nonce cleared and all other fields kept, touches nothing else, and reports the number of tasks released.',
  ['inputs', 'histories'], 'every database content, ID, topic and page',
  'Tests look at single promises in small fixed databases.',
  [M+'promise.go', M+'memdb.go'], [('active-by-topic index', M+'memdb.go New'), ('release', M+'promise.go DeletePromises')], (), ['ListPromises', 'GetPromise', 'DeletePromise', 'DeletePromises'])
p('C06', 'Only completed tasks past the retention period expire',
  'When background jobs run on the in-memory engine, every completed task that was claimed longer ago than the retention period (by at least the millisecond resolution) is deleted. No pending, active or archived task, no completed task within its retention period and no completed task that was never claimed is ever deleted by background jobs. This holds for every claim time and every configured retention period.',
  ['inputs', 'histories', 'configurations'], 'every set of tasks, retention period and clock value',
  'Tests expire one task with one retention period.',
  [M+'queue.go', M+'memdb.go', M+'indexer.go'], [('consumed-ordered scan', M+'queue.go Chore')], (), ['Chore'])
p('C07', 'Inserts never overwrite, upserts replace, and batches are all-or-nothing',
  'On the in-memory engine an insert stores the given task only if its ID is unused and otherwise reports a conflict without changing the stored task; an upsert stores the given task in any case. A batch insert stores for each unused ID the first task of the batch with that ID and skips existing ones; a batch upsert leaves for each ID the last task of the batch with that ID; both leave all other tasks unchanged, and if any element is invalid nothing at all is stored. The reported created and updated counts are the number of IDs that came into existence and the number of elements that replaced a stored task.',
  ['inputs', 'histories'], 'every batch (any length, duplicates included) and every database content',
  'Tests insert batches of two or three distinct tasks; arbitrary lengths, duplicates inside a batch and mixed existing tasks are not covered.',
  [M+'task.go'], [('existence check in the same transaction', M+'task.go InsertTasks')], (), ['InsertTask', 'InsertTasks', 'UpsertTask', 'UpsertTasks'])
p('C08', 'Deletes remove exactly the addressed tasks and report how many',
  'On the in-memory engine, deleting a task, the tasks of a topic, a topic or all topics removes exactly the task with that ID, the tasks currently in that topic, or all tasks, and nothing else. The reported count is the number of tasks removed, which is zero when nothing matched, without an error.',
  ['inputs', 'histories'], 'every database content, ID and topic',
  'Tests delete from databases with one or two topics and a few tasks.',
  [M+'task.go', M+'topic.go'], [('indexed deletion', M+'topic.go DeleteTopic')], (), ['DeleteTask', 'DeleteTasks', 'DeleteTopic', 'DeleteTopics'])
p('C09', 'Reads return exactly the stored data, and pages partition the listing',
  'On the in-memory engine, looking up a task returns the stored task, and not-found exactly if there is none; looking up a topic returns its name and the exact number of its tasks, and not-found exactly if it has none. Listing the tasks of a topic, the promises of a topic or the topics returns a window of a fixed enumeration that contains each matching item exactly once: at most the limit of items after skipping the offset, so that consecutive pages of an unchanged database neither repeat nor skip an item. Reads never modify anything.',
  ['inputs', 'histories'], 'every database content, limit, offset, topic and ID',
  'Tests list databases with a few items and a handful of limit and offset pairs.',
  [M+'task.go', M+'topic.go', M+'promise.go'], [('index iteration with skip and limit', M+'task.go ListTasks'), ('distinct topics from the topic index', M+'topic.go ListTopics')], (), ['ListTasks', 'ListPromises', 'ListTopics', 'GetTask', 'GetTopic'])
p('C10', 'Operations are atomic, isolated and leave the engine usable',
  'Every operation of the in-memory engine takes effect at a single instant, all of it or none: an operation that returns an error has changed nothing, and one that succeeds has published all of its changes. Whatever the outcome, the engine is left ready for the next operation (no lock is left held, no operation crashes), and tasks handed to or returned from the engine are private copies: changing a field of one does not change what is stored.',
  ['inputs', 'histories', 'schedules'], 'every operation with every argument on every database content, on every return path',
  'Tests do not exercise error paths inside transactions, do not mutate returned values, and cannot range over interleavings.',
  [M+'queue.go', M+'task.go', M+'promise.go', M+'topic.go', M+'memdb.go'], [('transaction per operation with deferred abort', M+'task.go'), ('shallow copies', M+'memdb.go clone')], (), ['all engine methods'])
p('C11', 'Snapshots are complete, replaced atomically, and restored exactly',
  'Closing the in-memory engine, or a background snapshot, writes every task of one consistent state to a file of its own and only puts it in place of the previous snapshot when it has been written completely; if any step fails the previous snapshot is left intact, the failure is reported and no temporary file is left in place of it. Opening the engine restores exactly the tasks in the snapshot, starts empty if there is none, and reports an error without exposing a partial database if the snapshot is damaged. Without a configured path no file is touched, and background snapshots are not written more often than the configured interval.',
  ['inputs', 'fault_sequences', 'crash_points', 'configurations'], 'every database content, every failing file operation and every snapshot file content',
  'Tests save and load a small database on a healthy file system; failures at individual file operations and damaged files are not covered.',
  [M+'memdb.go', M+'queue.go'], [('temporary file and rename', M+'memdb.go save'), ('single load transaction', M+'memdb.go load'), ('snapshot interval', M+'queue.go Chore')], (), ['Open', 'Close', 'Destroy', 'Chore'])
p('C12', 'Index keys order all instants and select exactly the intended states',
  'The index keys of the in-memory engine compare, byte by byte, in the same order as the instants they encode at millisecond resolution, for all instants before and after 1970, and equal keys mean the same millisecond. A state-filtered index contains a task exactly if its state is the filtered one, and looking up another state or a value of another kind is an error rather than a wrong result.',
  ['inputs'], 'all instants, all states and all argument types',
  'The indexer tests compare a few sample values.',
  [M+'indexer.go'], [('sign-flipped big-endian encoding', M+'indexer.go encodeInt64'), ('state filter', M+'indexer.go StateFieldIndex')], (), ['FromObject', 'FromArgs'])
p('C13', 'Accepted task submissions are complete and consistent with the path',
  'A task or task list submitted over HTTP reaches the storage engine only if every task in it has a non-empty ID that agrees with the ID in the path (if there is one), a non-empty topic (taken from the path if the body has none) and a valid state; it then has a production time and a scheduled time, which is the specified one, or else now plus the given delay, or else now, and no remaining delay field. Any other submission, including an empty or malformed body, an unparsable delay or a null list element, is answered with a bad-request error and never reaches the engine; all other fields are passed on unchanged.',
  ['inputs'], 'every request body and path',
  'Middleware tests send about a dozen fixed bodies.',
  [W+'task.go', K+'task.go'], [('normalization before storage', W+'task.go normalizeTask')], (), ['POST/PUT tasks'])
p('C14', 'Commits over HTTP default to completion and are otherwise passed through',
  'A commit submitted over HTTP reaches the storage engine with its target state valid (completed if none was given), with its scheduled time being the specified one or else now plus the given delay (or absent if neither was given), no remaining delay field, and nonce, topic and payload exactly as sent. An empty body is the default commit, while a malformed body, an invalid state or an unparsable delay is answered with a bad-request error and never reaches the engine.',
  ['inputs'], 'every request body',
  'Middleware tests send a few fixed bodies.',
  [W+'commit.go', K+'task.go'], [('normalization', W+'commit.go normalizeCommit')], (), ['PATCH task'])
p('C15', 'Accepted promises always carry a deadline and agree with the path',
  'A promise submitted over HTTP reaches the storage engine only with a deadline: the specified one, or else now plus the given timeout, or else now plus the default of ten minutes, and no remaining timeout field; its ID is the one in the path if there is one, and a promise without an ID on the topic endpoint polls that topic. A malformed body or query, an ID that contradicts the path or an unparsable timeout is answered with a bad-request error and never reaches the engine.',
  ['inputs'], 'every request body, query string and path',
  'Middleware tests send a few fixed promises.',
  [W+'promise.go', K+'promise.go'], [('normalization', W+'promise.go normalizePromise')], (), ['POST/PUT promises'])
p('C16', 'Listings never exceed the configured page limits',
  'A listing over HTTP reaches the storage engine only with a limit between zero and the configured maximum limit and an offset between zero and the configured maximum offset, which are those requested; without a requested limit (or with a requested limit of zero, which counts as none) it is the smaller of the default of ten and the maximum. Every other request for a listing is answered with a bad-request error and never reaches the engine.',
  ['inputs', 'configurations'], 'every query string and every configuration of the maxima',
  'Tests cover two configurations and six query strings.',
  [W+'pagination.go', K+'task.go', K+'topic.go', K+'promise.go'], [('range validation', W+'pagination.go')], (), ['GET listings'])
p('C17', 'Errors keep their kind across the HTTP API',
  'Every error is reported to API users with the status code of its kind: bad request 400, not found 404, conflict 409, client closed request (including a cancelled request or a truncated body) 499, service unavailable 503 and anything else 500, with the text of the error as message, even if it was wrapped. Converting such a response back yields an error that is recognized as the same kind and carries the same message without repeating the prefix; unknown codes yield an error with the message alone.',
  ['inputs'], 'every error value, wrapped any number of times, and every code and message',
  'Tests convert a list of sample errors.',
  ['ratus.go', 'client.go', K+'controller.go'], [('status mapping', 'ratus.go NewError'), ('inverse mapping', 'ratus.go Err')], (), ['error responses'])
p('C18', 'Each endpoint performs exactly its operation and reports its result',
  'Each documented endpoint, under both path prefixes, performs exactly one operation of its kind on the storage engine with the topic, ID, page, task or promise of the request, and answers with the result of that operation: 201 if resources were created and 200 otherwise, or the error response of the failed operation. Exactly one response is written per request, the metrics and health endpoints do not modify data, the readiness probe succeeds exactly if the engine is ready, and unknown paths are answered with not-found.',
  ['inputs', 'programs'], 'every request to every endpoint and every outcome of the engine',
  'Controller tests run each endpoint once or twice against stub engines.',
  [K+'controller.go', K+'task.go', K+'promise.go', K+'topic.go', K+'health.go', K+'metrics.go', 'internal/router/router.go'], [('routing table', K+'controller.go Mount'), ('response mapping', K+'controller.go send')], (), ['HTTP API'])
p('C19', 'No request can crash the request handling',
  'No request, whatever its path, query string or body, and whatever the storage engine answers, makes the handling of the request panic.',
  ['inputs'], 'every request and every engine result or error',
  'Tests send well-formed requests and a few malformed ones.',
  [W+'task.go', W+'promise.go', W+'commit.go', W+'pagination.go', W+'prometheus.go', K+'task.go', K+'promise.go', K+'topic.go'], [('validation of nil elements', W+'task.go'), ('label sanitation', 'internal/metrics/metrics.go')], (), ['HTTP API'])
p('C20', 'Task counters count exactly the successful operations',
  'After each request the produced counter has grown by the number of tasks that the request created (or replaced, for upserts), the consumed counter by one if a task was claimed, and the committed counter by one if a commit was accepted, with the labels of the task; failed requests change none of them. The schedule delay and execution time gauges are set from the times of the task concerned when these are known, and every request is observed exactly once in the request histogram with its final status.',
  ['inputs', 'histories'], 'every request and every engine result',
  'Tests only check that metrics are exposed.',
  [K+'task.go', K+'promise.go', W+'prometheus.go', 'internal/metrics/metrics.go'], [('metrics collection after each operation', K+'task.go')], (), ['/metrics'])
p('C21', 'Each client call sends exactly the matching API request',
  'Each method of the Go client sends one request with the method, path and body of the corresponding endpoint, with names and IDs escaped as single path segments whatever characters they contain, and the page in the query. It returns the decoded response on success, and an error of the reported kind for every error status, with no result.',
  ['inputs'], 'every topic name, ID, page, task, promise and commit, and every response',
  'Client tests call each method once with simple names against a live handler.',
  ['client.go'], [('request construction', 'client.go Request')], (), ['client methods'])
p('C22', 'A consumer context commits its task at most once, under the claim nonce',
  'Polling with the client yields a context whose commit, unless changed by the consumer, completes the polled task under the nonce of that claim, and whose lifetime is limited to the promised time. Each setter changes exactly the field it names, forcing removes the nonce, and resetting restores the default under the nonce of the task. Once a commit has succeeded, further commits send nothing; a failed commit can be retried.',
  ['inputs', 'histories'], 'every task and every sequence of setter and commit calls',
  'Tests exercise a few setter chains.',
  ['context.go', 'client.go'], [('committed flag', 'context.go Commit'), ('nonce captured at poll', 'client.go Poll')], (), ['Context'])
p('C23', 'Subscribers commit every handled task and pace their polling',
  'Each subscriber repeatedly polls its topic with the consumer and timeout it was given, passes each task to the handler exactly once and then commits it before anything else is polled, and polls again after the poll interval; after finding nothing to do it waits for the drain interval without calling the handler; after any other error it calls the handler with the error and waits for the error interval. Subscribers start staggered by the concurrency delay, as many as the concurrency asks for, and all stop when the context is done (a task that was polled just then may be left to its deadline); Subscribe returns once they have.',
  ['inputs', 'histories', 'schedules', 'configurations'], 'every sequence of poll, handler and commit outcomes and every option',
  'Tests run subscribers for a fraction of a second with a few outcomes.',
  ['client.go'], [('event loop', 'client.go Subscribe')], (), ['Subscribe'])
p('C24', 'Client requests go to the configured origin with the configured headers',
  'Every request of the client goes to the scheme and host of the configured origin with path and query kept, carries each configured header unless the request already has that header, and carries a user agent, which is the default only if none was given. An unparsable origin is rejected when the client is created.',
  ['inputs', 'configurations'], 'every origin, header set and request',
  'Tests use one origin and few headers.',
  ['transport.go', 'client.go'], [('request rewriting', 'transport.go RoundTrip')], (), ['HTTP requests'])
p('C25', 'Generated nonces have the requested length and are alphanumeric',
  'A generated nonce has exactly the requested number of characters, each of them an ASCII letter or digit, for every length and whatever random numbers are drawn; generation never fails.',
  ['inputs'], 'every length and every sequence of random numbers',
  'Tests generate samples.',
  ['internal/nonce/nonce.go'], [('rejection sampling', 'internal/nonce/nonce.go Generate')], (), ['nonce field'])
p('C26', 'Claims on MongoDB are exclusive in every operating mode',
  'With the MongoDB engine, in both the atomic and the optimistic mode, a successful poll or promise changes in one atomic step exactly one task that at that instant satisfies the conditions of the claim (for a poll: pending, in the topic and due; for a promise: pending; for a forced promise: existing) into an active task with a fresh non-empty nonce, the consumer, deadline and claim time, and returns it, whatever other instances do between the steps. A poll asks for the earliest scheduled task first, and failures are reported as not-found or conflict without any change.',
  ['inputs', 'schedules', 'histories'], 'every collection content, argument and concurrent modification between any two database calls',
  'The MongoDB tests need a live server, run sequentially, and are skipped where there is none.',
  [G+'queue.go', G+'promise.go', G+'mongodb.go'], [('conditional find-and-modify', G+'queue.go pollAtomic'), ('optimistic locking on the nonce', G+'queue.go pollOptimistic')], (), ['Poll', 'InsertPromise', 'UpsertPromise'])
p('C27', 'Commits on MongoDB apply only under a matching nonce',
  'With the MongoDB engine, in both the atomic and the optimistic mode, a commit that carries a nonce takes effect only if the stored nonce is the same at the instant of the update, whatever other instances do between the steps; it then sets exactly the fields the commit specifies, clears the nonce, and returns the updated task. Otherwise it changes nothing and reports a conflict if the task exists and not-found if it does not.',
  ['inputs', 'schedules', 'histories'], 'every collection content, commit and concurrent modification',
  'The MongoDB tests need a live server and run sequentially.',
  [G+'queue.go', G+'mongodb.go'], [('nonce in the update filter', G+'queue.go commitAtomic'), ('optimistic locking', G+'queue.go commitOptimistic')], (), ['Commit'])
p('C28', 'On MongoDB only timed-out or released promises return to pending',
  'With the MongoDB engine, background jobs set exactly the active tasks whose deadline has passed back to pending with the nonce cleared; deleting a promise or the promises of a topic does the same for exactly the addressed active tasks and reports their number; promises shown are exactly the active tasks. Nothing else is modified.',
  ['inputs', 'histories'], 'every collection content, ID, topic and clock value',
  'The MongoDB tests need a live server.',
  [G+'queue.go', G+'promise.go', G+'mongodb.go'], [('filters', G+'queue.go Chore'), ('recover update', G+'mongodb.go updateOpsRecover')], (), ['Chore', 'DeletePromise', 'DeletePromises', 'GetPromise', 'ListPromises'])
p('C29', 'Reads and writes of tasks and topics on MongoDB address exactly their target',
  'With the MongoDB engine, each read, insert, upsert and delete of tasks and topics addresses exactly the documents of the given ID, topic or page, never overwrites on insert, replaces the whole document on upsert, reports not-found, conflict and the counts that the database reports, and passes every other database error on.',
  ['inputs', 'histories'], 'every collection content, argument and database outcome',
  'The MongoDB tests need a live server.',
  [G+'task.go', G+'topic.go'], [('filters and bulk writes', G+'task.go')], (), ['task and topic operations'])
p('C30', 'MongoDB fallbacks engage only for unsupported operations, and stick',
  'With the MongoDB engine an operation switches to its fallback exactly when the preferred variant was rejected as unsupported by a sharded deployment and fallbacks are not disabled; the result is then that of the fallback, and later calls of the same operation use the fallback directly. Any other failure is reported as it is and leaves the mode unchanged; with fallbacks disabled the preferred variant is always used, and polling uses the optimistic mode from the start when atomic polling is disabled.',
  ['inputs', 'histories', 'configurations'], 'every configuration, mode and database outcome',
  'Needs a sharded deployment, which the tests do not have.',
  [G+'mongodb.go'], [('mode flags', G+'mongodb.go branch')], (), ['all operations with fallbacks'])
p('C31', 'Background jobs run at every tick and survive failures',
  'Unless disabled by a zero interval, background jobs first run after the configured initial delay (a random part of it if so configured) and then at the configured interval, once per tick; a failing run is logged and does not stop the following runs, each run is timed in the metrics, and the loop ends when the process is told to terminate or the server fails.',
  ['histories', 'configurations', 'schedules'], 'every sequence of ticks, failures and termination signals, and every configuration',
  'The program entry point has no tests.',
  ['cmd/ratus/main.go'], [('ticker loop', 'cmd/ratus/main.go chore')], (), ['background jobs'])
p('C32', 'Termination finishes requests in flight before the engine is closed',
  'When told to terminate, the server stops accepting requests, the requests in flight are completed, and only then is the storage engine closed, so that an acknowledged write is part of the final snapshot. The engine is opened before the first request is served and closed on every exit after that; failures to choose, open or close an engine and to listen are reported as failures of the process.',
  ['schedules', 'histories', 'fault_sequences'], 'every interleaving of termination with requests in flight and every failure',
  'The program entry point has no tests.',
  ['cmd/ratus/main.go'], [('graceful shutdown', 'cmd/ratus/main.go serve'), ('deferred close', 'cmd/ratus/main.go run')], (), ['process'])
p('C33', 'Every due task is eventually delivered',
  'If consumers keep polling a topic and the clock advances, every due pending task of the topic is eventually claimed, and every claimed task is eventually completed, released or recovered for another attempt.',
  ['histories', 'schedules'], 'every infinite fair history',
  'A liveness property over infinite histories; tests only see finite ones.',
  [M+'queue.go', 'client.go', 'cmd/ratus/main.go'], [('schedule order and timeouts', M+'queue.go')])
p('C34', 'Nonces of different claims are different and unpredictable',
  'The nonces of two claims are different, and a consumer cannot guess the nonce of another, except with negligible probability.',
  ['histories'], 'all pairs of claims',
  'A probabilistic property of the random source.',
  ['internal/nonce/nonce.go'], [('random source', 'internal/nonce/nonce.go')])
p('C35', 'Completed tasks on MongoDB expire after the retention period',
  'With the MongoDB engine, opening the engine has the database server delete exactly the completed tasks, and those only, once the configured retention period (in whole seconds) has passed since they were claimed: either the expiry is set up with that period, or an expiry that existed with another period is changed to it, or opening fails. The deletion itself is carried out by the server, and nothing is set up when index creation is disabled.',
  ['configurations', 'schedules', 'fault_sequences'], 'every configuration, every outcome of every database command, every order of the goroutines',
  'The tests open one database with one retention period, and need a running server for it.',
  [G+'mongodb.go'], [('TTL index', G+'mongodb.go createIndexes')], (), ['Open'])
out = os.path.join(os.path.dirname(__file__), '..', 'properties.jsonl')
with open(out, 'w') as f:
    for d in P: f.write(json.dumps(d, ensure_ascii=False) + '\n')
print(len(P))
