# Which concrete searches accompany which property, and what is trusted.
PACKAGES = {
    "memdb": ("internal/engine/memdb", "memdb_test"),
}
BULK = "TestVerifBulk"
SEQ, CON, SNAP, IDX = "TestVerifSequences", "TestVerifConcurrent", "TestVerifSnapshots|TestVerifSnapshotReaders", "TestVerifIndexers"
HARNESS = {
    "C01": [("memdb", SEQ + "|" + CON)],
    "C02": [("memdb", SEQ)],
    "C03": [("memdb", SEQ + "|" + CON)],
    "C04": [("memdb", SEQ + "|" + BULK)],
    "C05": [("memdb", SEQ + "|" + BULK)],
    "C06": [("memdb", SEQ + "|" + BULK)],
    "C07": [("memdb", SEQ + "|" + BULK + "|" + CON)],
    "C08": [("memdb", SEQ + "|" + BULK + "|" + CON + "|" + SNAP)],
    "C09": [("memdb", SEQ + "|" + BULK)],
    "C10": [("memdb", SEQ + "|" + CON)],
    "C11": [("memdb", SEQ + "|" + SNAP)],
    "C12": [("memdb", IDX)],
}
TRUST = {
    "all": [
        "govc (/verif/govc): translation of go/ssa to verification conditions, loop-invariant inference, specification evaluation",
        "golang.org/x/tools go/packages and go/ssa, the Go type checker (Go 1.23.12 sources of the standard library)",
        "SMT solvers z3 4.8.12, z3 5, cvc5 1.1.2",
    ],
    "assumptions": [
        "machine integers are treated as mathematical integers (fixed-width conversions and shifts are modelled; overflow of + - * is not)",
        "goroutine interference is modelled at the synchronisation points of the library contracts (transactions, mutexes, atomics), not at plain memory accesses: data races are out of scope",
        "stack exhaustion and memory exhaustion do not happen",
    ],
}
_MEM = " The go-memdb transactions, iterators and indexes, the clock and the file system are library contracts (assumed); the contracts hold for all states, arguments and interleavings at transaction boundaries."
CLAIMED = {
    "C01": "Every path of Poll, InsertPromise and UpsertPromise is verified against its contract for all databases and arguments." + _MEM,
    "C02": "Every path of Poll is verified, including the scan of the index." + _MEM,
    "C03": "Every path of Commit is verified for all databases, commits and nonces." + _MEM,
    "C04": "Chore and its loops are verified with inductive invariants for any number of tasks." + _MEM,
    "C05": "The promise operations and their loops are verified with inductive invariants." + _MEM,
    "C06": "Chore and its loops are verified with inductive invariants for any retention period." + _MEM,
    "C07": "The insert and upsert operations are verified, batches of any length by induction." + _MEM,
    "C08": "The delete operations are verified for all databases." + _MEM,
    "C09": "The read operations are verified, listings of any length by induction against the enumeration of the index." + _MEM,
    "C10": "For every operation: no panic, no lock left held, at most one changing transaction, no shared task objects; loops by induction." + _MEM,
    "C11": "Open, Close, Chore and Destroy are verified against the file-system contract with a ghost event log; every library call may fail. gob is assumed lossless for tasks without pointers to zero times (known finding)." + _MEM,
    "C12": "FromObject and FromArgs of both index builders are verified for all tasks, filters, instants (whose milliseconds since 1970 fit 64 bits) and arguments of any type, down to the bytes of the keys and their order; reflect and encoding/binary are library contracts (assumed).",
    "C25": "Generate is verified for every length, its loop by induction; the random source is arbitrary. Termination is not proved.",
}
_API = (" gin (routing, binding, rendering), JSON, the query decoder, gzip/CORS/pprof middlewares and Prometheus are library contracts (assumed); the storage engine is any engine that"
        " meets the engine contract (proved for memdb, assumed for MongoDB); the whole chain from the router through the middlewares to the response is executed symbolically for every route, batches of any length by induction.")
CLAIMED.update({
    "C13": "Every path of every task endpoint is verified against the promise that only valid, completed tasks reach the engine." + _API,
    "C14": "Every path of the commit endpoint is verified." + _API,
    "C15": "Every path of the promise endpoints is verified." + _API,
    "C16": "Every path of every listing endpoint is verified for all limits, offsets and configurations." + _API,
    "C17": "NewError and Err and their composition are verified for all errors, codes and messages; that every failing endpoint reports its error so is part of the endpoint contracts." + _API,
    "C18": "All 28 endpoint contracts, under both prefixes." + _API,
    "C19": "No nil dereference, out-of-range index, failed type assertion or explicit panic on any path of any endpoint." + _API,
    "C20": "All endpoint contracts with ghost counters and gauges." + _API,
})
NOT_APPLICABLE = {
    "C33": "liveness under a fairness assumption over unbounded histories: a contract of a function relates its pre- and post-state and cannot state that something eventually happens; the safety part is C02 and C04",
    "C34": "a probabilistic statement about the quality of the random source, which no contract over the program state expresses",
    "C35": "carried out by the MongoDB server's TTL monitor, not by code in /repo; creation of the index is part of C28",
}
HARNESS["C25"] = [("nonce", "TestVerifNonce")]
PACKAGES["nonce"] = ("internal/nonce", "nonce_test")

PACKAGES["api"] = ("internal/router", "router_test")
PACKAGES["root"] = (".", "ratus_test")
for _p in ("C13", "C14", "C15", "C16", "C17", "C18", "C19", "C20"):
    HARNESS[_p] = [("api", "TestVerifAPI")]
HARNESS["C17"].insert(0, ("root", "TestVerifErrors"))

_CLI = " net/http, net/url, encoding/json and context are library contracts (assumed): what is sent is the value that was encoded, a response carries any status and body."
CLAIMED.update({
    "C21": "Every path of all 22 request methods is verified for all arguments, responses and failures." + _CLI,
    "C22": "Poll, Commit and every setter are verified for all contexts, tasks and responses." + _CLI,
    "C24": "The chain from the creation of a client through its transport to the wire is verified for all origins, requests and header maps, the loop over the headers by induction." + _CLI,
})
HARNESS["C21"] = [("root", "TestVerifClient"), ("api", "TestVerifEndToEnd")]
HARNESS["C22"] = [("root", "TestVerifContext"), ("api", "TestVerifEndToEnd")]
HARNESS["C24"] = [("root", "TestVerifTransport")]
HARNESS["C18"].append(("api", "TestVerifEndToEnd"))

PACKAGES["cmd"] = ("cmd/ratus", "main")
_SYS = " Timers, contexts, signals, error groups and net/http are library contracts (assumed); the execution follows events, goroutines run while their parent blocks."
CLAIMED.update({
    "C31": "The loop of the background jobs is verified by induction for any number of ticks, any configuration with a non-negative initial delay and any outcome of the jobs; its ghost variables relate every tick to one run, one observation and one log entry." + _SYS,
    "C32": "serve, run and main are verified for all configurations and failures: signals are notified before listening, serve returns only once Shutdown has drained the requests, and the engine is closed once, after both goroutines have ended." + _SYS,
})
CLAIMED["C23"] = "Every pass of the polling loop is verified by induction, for every option, every outcome of Poll, Commit and the handler, and every moment at which the context ends; ghost variables relate polls, handler calls, commits and pauses." + _SYS
HARNESS["C23"] = [("root", "TestVerifSubscribe")]
HARNESS["C31"] = [("cmd", "TestVerifJobs")]
HARNESS["C32"] = [("cmd", "TestVerifServe|TestVerifLifecycle")]
_MGO = (" The MongoDB driver and server are library contracts (assumed, DESIGN.md 2.1): every command is atomic, may fail in any way, and between two commands of an operation other clients may change the collection arbitrarily;"
        " filters, updates, sorts and projections are interpreted from the documents the code builds. All states, arguments, operating modes and interleavings at command boundaries are covered.")
CLAIMED.update({
    "C26": "Every path of Poll, InsertPromise and UpsertPromise in the preferred and in the fallback variant is verified, the retry loop of the optimistic variant by its own contract." + _MGO,
    "C27": "Every path of Commit in the preferred and in the fallback variant is verified." + _MGO,
    "C28": "Chore and the promise operations are verified, listings of any length by induction." + _MGO,
    "C29": "Every operation on tasks and topics and the set-up of the engine are verified; batches of any length by induction up to the bulk write that is sent, whose effect on the collection is the server's." + _MGO,
    "C30": "The operating-mode flags, events and results of every operation with a fallback are verified, concurrent changes of the flags included." + _MGO,
    "C35": "Open and its goroutines are verified for all configurations, outcomes and orders: the index that makes the server expire documents covers exactly completed tasks, by claim time, with the configured period. The deletion itself is the server's." + _MGO,
})
NOT_APPLICABLE.pop("C35", None)
PACKAGES["mongodb"] = ("internal/engine/mongodb", "mongodb_test")
for _p in ("C26", "C27", "C28", "C29", "C30"):
    HARNESS[_p] = [("mongodb", "TestVerifMongo")]
HARNESS["C29"].append(("mongodb", "TestVerifMongoOpen"))
HARNESS["C35"] = [("mongodb", "TestVerifMongoOpen")]
