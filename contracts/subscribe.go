//go:build verif

// Contract of Subscribe. The polling goroutines share nothing that changes, so
// each is verified by itself from the state in which it is started.
package contracts

//@ package github.com/hyperonym/ratus

//@ func (*Client).Subscribe(c, ctx, o, f) (err)
//@ kind panic-free C23
//@ kind supported C23
//@ kind deadlock-free C23
//@ opt threads now
//@ requires c != nil && c.client != nil && ctx != nil && o != nil && o.Promise != nil && f != nil
//@ abstract (*github.com/hyperonym/ratus.Client).Poll poll agree
//@ abstract (*github.com/hyperonym/ratus.Context).Commit commit
//@ trust apply: ev.a0 != nil ==> ev.a0.Task != nil && (ev.a0.client != nil ==> ev.a0.client.client != nil)
//@ define drainpause() = ite(o.DrainInterval <= 0, ratus.DefaultDrainInterval, o.DrainInterval)
//@ define errorpause() = ite(o.ErrorInterval <= 0, ratus.DefaultErrorInterval, o.ErrorInterval)
//@ define stagger() = ite(o.ConcurrencyDelay <= 0, ratus.DefaultConcurrencyDelay, o.ConcurrencyDelay)
//@ define after(e) = ite(e == nil, o.PollInterval, ite(is(e, ratus.ErrNotFound), drainpause(), errorpause()))
//@ ghost started int = 0
//@ ghost joined bool = false
//@ ghost local ended bool = false
//@ ghost local ticks int = 0
//@ ghost local polls int = 0
//@ ghost local tasks int = 0
//@ ghost local task int = 0
//@ ghost local handled int = 0
//@ ghost local commits int = 0
//@ ghost local failures int = 0
//@ ghost local failure any = nil
//@ ghost local reported int = 0
//@ ghost local pause int = 0
//@ set go started = started + 1
//@ set wait joined = true
//@ set tick ticks = ticks + 1
//@ set ctxdone ended = ended || within(ev.ctx, ctx)
//@ set ctxerr ended = ended || ev.err != nil
//@ set poll polls = polls + 1
//@ set poll tasks = ite(ev.r1 == nil, tasks + 1, tasks)
//@ set poll task = ite(ev.r1 == nil, ident(ev.r0), task)
//@ set poll failures = ite(ev.r1 != nil && !is(ev.r1, ratus.ErrNotFound), failures + 1, failures)
//@ set poll failure = ev.r1
//@ set poll pause = after(ev.r1)
//@ set apply handled = ite(ev.a1 == nil, handled + 1, handled)
//@ set apply reported = ite(ev.a1 != nil, reported + 1, reported)
//@ set commit commits = commits + 1
//@ set commit failures = ite(ev.r0 != nil && !is(ev.r0, ratus.ErrNotFound), failures + 1, failures)
//@ set commit failure = ev.r0
//@ set commit pause = after(ev.r0)
//@ opt merge on
//@ opt infer hints
//@ hint started == $i
//@ hint polls == ticks
//@ hint ended || !ended && polls == ticks
//@ hint handled == commits
//@ hint queued("error") >= 0
//@ hint queued("*ratus.Context") >= 0
//@ hint !stale()
//@ hint polls >= 0
//@ hint queued("error") + queued("*ratus.Context") > 0 ==> polls > 0
//@ hint armed() + queued("error") + queued("*ratus.Context") <= 1
//@ hint ended || armed() + queued("error") + queued("*ratus.Context") == 1
//@ hint tasks == handled + queued("*ratus.Context")
//@ hint ended || failures == reported + ite(queued("error") > 0 && !is(failure, ratus.ErrNotFound), 1, 0)
//@ hint queued("error") > 0 ==> failure != nil && head("error") == failure && pause == after(failure)
//@ hint queued("*ratus.Context") > 0 ==> ident(head("*ratus.Context")) == task && head("*ratus.Context") != nil
//@ hint ended || armed() == 0 || wait() == ite(polls == 0, stagger() * started, pause)
//@ hint ended || $i == ite(polls == 0, stagger() * started, pause)
//@ on select C23 stops-with-context: within(ev.ctxs, ctx)
//@ on select C23 one-wake-up: !ended && ev.ready == 0 ==> ev.waits == 1 && !ev.stale
//@ on select C23 staggered-start: !ended && ev.ready == 0 && polls == 0 ==> ev.wait == stagger() * started
//@ on select C23 pauses: !ended && ev.ready == 0 && polls > 0 ==> ev.wait == pause
//@ on select C23 every-task-handled: !ended && ev.ready == 0 ==> handled == tasks
//@ on select C23 every-task-committed: !ended && ev.ready == 0 ==> commits == handled
//@ on select C23 failures-reported: !ended && ev.ready == 0 ==> reported == failures
//@ on poll C23 topic-and-promise: ev.topic == o.Topic && ev.p != nil && ev.p.Consumer == o.Promise.Consumer && ev.p.Timeout == o.Promise.Timeout && ev.p.ID == "" && ev.p.Deadline == nil
//@ on poll C23 context: within(ev.ctx, ctx)
//@ on poll C23 paced: polls < ticks
//@ on poll C23 one-at-a-time: handled == tasks && commits == handled && (ended || reported == failures)
//@ on apply C23 handler-gets-task: ev.a1 == nil ==> ident(ev.a0) == task && handled < tasks
//@ on apply C23 handler-gets-failure: ev.a1 != nil ==> ident(ev.a0) == 0 && ev.a1 == failure && !is(failure, ratus.ErrNotFound) && (ended || reported < failures)
//@ on commit C23 commits-task: ident(ev.a0) == task && commits < handled
//@ on exit C23 runs-until-done: ended
//@ on wait C23 concurrency: started == max(1, o.Concurrency)
//@ ensures C23 waits-for-all: joined
