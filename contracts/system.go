//go:build verif

// Contracts of cmd/ratus: background jobs, the server and the life cycle of
// the process.
package contracts

//@ package github.com/hyperonym/ratus/cmd/ratus

// Background jobs. The ghost variables follow the events of the loop: tick (a
// timer fired), run (Engine.Chore was called), observe (the duration was
// recorded), log.

//@ func chore(ctx, g, c) (err)
//@ kind panic-free C31
//@ kind supported C31
//@ kind deadlock-free C31
//@ requires ctx != nil && g != nil && c != nil
//@ assume c.InitialDelay >= 0
//@ opt mut c
//@ abstract (github.com/hyperonym/ratus/internal/engine.Engine).Chore run
//@ ghost ticks int = 0
//@ ghost runs int = 0
//@ ghost observed int = 0
//@ ghost pending bool = false
//@ ghost failure any = nil
//@ ghost ended bool = false
//@ ghost signalled bool = false
//@ ghost delay int = 0
//@ ghost ticked int = 0
//@ ghost runstart int = 0
//@ ghost runend int = 0
//@ set timer delay = ite(ticks == 0, ev.d, delay)
//@ set tick ticks = ticks + 1
//@ set tick ticked = ev.now
//@ set run runs = runs + 1
//@ set run runstart = ev.start
//@ set run runend = ev.end
//@ set run failure = ev.r0
//@ set run pending = ev.r0 != nil
//@ set log pending = pending && !among(ev.args, failure)
//@ set metric.Observe observed = ite(metricis(ev, metrics.ChoreHistogram), observed + 1, observed)
//@ set ctxdone ended = ended || within(ev.ctx, ctx)
//@ set ctxerr ended = ended || ev.err != nil
//@ set signal signalled = true
//@ on select C31 one-run-per-tick: runs == ticks
//@ on select C31 each-run-timed: observed == ticks
//@ on select C31 failures-logged: !pending
//@ on select C31 stops-on-signal: ev.terminable
//@ on select C31 stops-with-server: within(ev.ctxs, ctx)
//@ on select C31 armed: ev.waits == 1 && !ev.stale && ev.blocking
//@ on select C31 first-delay: ticks == 0 ==> ev.wait == delay
//@ on select C31 interval: ticks > 0 ==> ev.wait == old(c.Interval)
//@ on timer C31 initial-delay: ticks == 0 ==> 0 < ev.d && ev.d <= c.InitialDelay + 1000000
//@ on timer C31 exact-delay: ticks == 0 && !c.InitialRandom ==> c.InitialDelay <= ev.d
//@ on run C31 no-run-unless-enabled: old(c.Interval) > 0 && runs < ticks
//@ on run C31 context: within(ev.ctx, ctx)
//@ on metric.Observe C31 observed-duration: metricis(ev, metrics.ChoreHistogram) ==> seconds(runend - runstart) <= ev.value && ev.value <= seconds(now1 - ticked)
//@ hint $i == ite(ticks == 0, delay, old(c.Interval))
//@ hint $b == (ticks > 0)
//@ hint $b == (ticks == 0)
//@ hint 0 < delay && delay <= c.InitialDelay + 1000000
//@ hint !pending
//@ ensures C31 disabled: old(c.Interval) <= 0 ==> err == nil && runs == 0
//@ ensures C31 ends-normally: err == nil ==> old(c.Interval) <= 0 || signalled
//@ ensures C31 ends-with-server: err != nil ==> ended

// The server. It listens only once both termination signals are notified, and
// when one arrives it does not return before Shutdown has drained the requests
// in flight, of which there may be any number while it listens.

//@ func serve(ctx, h, c) (err)
//@ kind panic-free C32
//@ kind supported C32
//@ kind deadlock-free C32
//@ requires ctx != nil && h != nil && c != nil
//@ ghost sigint bool = false
//@ ghost sigterm bool = false
//@ ghost watched bool = false
//@ ghost signalled bool = false
//@ ghost ended bool = false
//@ ghost closing bool = false
//@ ghost drained bool = false
//@ ghost listened bool = false
//@ ghost failed bool = false
//@ set notify sigint = sigint || ev.int
//@ set notify sigterm = sigterm || ev.term
//@ set select watched = watched || ev.terminable
//@ set recv watched = watched || ev.terminable
//@ set signal signalled = true
//@ set ctxdone ended = ended || within(ev.ctx, ctx)
//@ set ctxerr ended = ended || ev.err != nil
//@ set shutdown closing = true
//@ set shutdown drained = drained || ev.drained
//@ set closed closing = true
//@ set listen listened = true
//@ set served failed = failed || !ev.ok && ev.err != http.ErrServerClosed
//@ on listen C32 signals-notified: sigint && sigterm
//@ on listen C32 only-with-port: c.Port > 0
//@ ensures C32 no-server: c.Port <= 0 ==> err == nil && !listened
//@ ensures C32 listens: err == nil && c.Port > 0 ==> watched
//@ ensures C32 requests-in-flight-finish: err == nil && signalled ==> drained
//@ ensures C32 stops-accepting: err == nil && c.Port > 0 ==> closing
//@ ensures C32 keeps-serving: err == nil && c.Port > 0 ==> signalled || ended
//@ ensures C32 listen-failures-reported: failed ==> err != nil || signalled || ended

// The life cycle: the engine is opened before the server and the background
// jobs start, and closed once both have ended.

//@ func run() (err)
//@ kind panic-free C32
//@ kind supported C32
//@ kind deadlock-free C32
//@ abstract github.com/hyperonym/ratus/internal/engine/memdb.New creatememdb created
//@ abstract github.com/hyperonym/ratus/internal/engine/mongodb.New createmongodb results-agree usable-engine
//@ abstract (*github.com/hyperonym/ratus/internal/engine/memdb.Engine).Open open ready
//@ abstract (*github.com/hyperonym/ratus/internal/engine/mongodb.Engine).Open open
//@ abstract (*github.com/hyperonym/ratus/internal/engine/memdb.Engine).Close close
//@ abstract (*github.com/hyperonym/ratus/internal/engine/mongodb.Engine).Close close
//@ abstract (github.com/hyperonym/ratus/internal/engine.Engine).Open open
//@ abstract (github.com/hyperonym/ratus/internal/engine.Engine).Close close
//@ abstract github.com/hyperonym/ratus/internal/router.New router
//@ abstract github.com/hyperonym/ratus/cmd/ratus.serve serve
//@ abstract github.com/hyperonym/ratus/cmd/ratus.chore chore
//@ ghost chosen bool = false
//@ ghost opened bool = false
//@ ghost closed int = 0
//@ ghost serving int = 0
//@ ghost working int = 0
//@ ghost failed bool = false
//@ ghost name string = ""
//@ set parsed name = ev.a0.Engine
//@ set creatememdb chosen = chosen || ev.r1 == nil
//@ set creatememdb failed = failed || ev.r1 != nil
//@ set createmongodb chosen = chosen || ev.r1 == nil
//@ set createmongodb failed = failed || ev.r1 != nil
//@ on creatememdb C32 engine-as-configured: lower(name) == "memdb"
//@ on createmongodb C32 engine-as-configured-2: lower(name) == "mongodb"
//@ set open opened = opened || ev.r0 == nil
//@ set open failed = failed || ev.r0 != nil
//@ set close closed = closed + 1
//@ set close failed = failed || ev.r0 != nil
//@ set serve serving = serving + 1
//@ set serve failed = failed || ev.r0 != nil
//@ set chore working = working + 1
//@ on open C32 opened-once: chosen && !opened
//@ on serve C32 opened-before-requests: opened && closed == 0
//@ on chore C32 opened-before-jobs: opened && closed == 0
//@ on close C32 closed-last: opened && closed == 0 && threads() == 0
//@ ensures C32 always-closed: opened ==> closed == 1
//@ ensures C32 failures-reported: failed ==> err != nil
//@ ensures C32 engine-required: !chosen ==> err != nil
//@ ensures C32 serves: err == nil ==> opened && serving == 1 && working == 1

//@ func main()
//@ kind panic-free C32
//@ kind supported C32
//@ abstract github.com/hyperonym/ratus/cmd/ratus.run run
//@ ghost failed bool = false
//@ set run failed = ev.r0 != nil
//@ on fatal C32 exit-status: (ev.code != 0) <==> failed
//@ ensures C32 failures-exit: !failed
