"""The checks: for each property, the harnesses (jobs), their bounds, and what is assumed."""
GRAPH = ["lib/tethys/tethys_graph.cpp", "lib/utils/logger.cpp"]
CHECKS = {}
NOT_APPLICABLE = {}


def check(pid, jobs, bounds, assumptions=(), **kw):
    CHECKS[pid] = dict(jobs=jobs, bounds=bounds, assumptions=list(assumptions), **kw)


check("G01", [
    dict(name="n1", harness="g01.cpp", srcs=GRAPH, params={"N": 1, "M": 2, "ext": 1, "capbits": 60}, fork_select=True),
    dict(name="n2-early", harness="g01.cpp", srcs=GRAPH, params={"N": 2, "M": 2, "ext": 1, "capbits": 60}, thorough={"M": 3}, fork_select=True, split={"quick": 1, "thorough": 8}),
    dict(name="n2-late", harness="g01.cpp", srcs=GRAPH, params={"N": 2, "M": 3, "late": 1, "capbits": 60}, thorough={"M": 4}, fork_select=True, split={"quick": 2, "thorough": 8}),
    dict(name="n3-early", harness="g01.cpp", srcs=GRAPH, params={"N": 3, "M": 2, "capbits": 60}, thorough={"M": 3}, fork_select=True, split=8),
    dict(name="n3-late", harness="g01.cpp", srcs=GRAPH, params={"N": 3, "M": 2, "late": 1, "capbits": 60}, thorough={"M": 3}, fork_select=True, split=8),
    dict(name="n4-roles", harness="g01.cpp", srcs=GRAPH, params={"N": 4, "M": 3, "roles": 1, "useful": 1, "halves": 1, "capbits": 16}, thorough={"halves": 0}, fork_select=True, split=32, max_steps=200000),
], bounds="graphs of 1-3 vertices with source and sink edges at every vertex plus 2-3 (thorough: 3-4) further edges of every placement incl. self loops and parallel edges, edges inserted before or after the source/sink edges; every capacity in [0, 2^60)")

check("G02", [
    dict(name="n2", harness="g02.cpp", srcs=GRAPH, params={"N": 2, "M": 2}, thorough={"M": 3}, fork_select=True, split=4),
    dict(name="n1", harness="g02.cpp", srcs=GRAPH, params={"N": 1, "M": 3, "compute": 1}, thorough={"M": 4}, fork_select=True, split=4),
], bounds="graphs of 1-2 vertices, up to 3 (thorough 4) insertions of every kind with arbitrary 64-bit endpoints, indices and capacities, in every state of the graph")

check("G03", [
    dict(name="par-sym", harness="g03.cpp", srcs=GRAPH, params={"N": 2, "M": 1, "workers": 1}, preempt=0, fork_select=True, split=4),
    dict(name="par-sym3", harness="g03.cpp", srcs=GRAPH, params={"N": 3, "M": 1, "workers": 1, "capbits": 16}, thorough={"M": 2}, preempt=0, fork_select=True, split=8),
    dict(name="par-sched3", harness="g03.cpp", srcs=GRAPH, params={"N": 3, "M": 1, "workers": 2, "fixed": 1}, preempt={"quick": 1, "thorough": 2}, split=8),
    dict(name="par-sched", harness="g03.cpp", srcs=GRAPH, params={"N": 4, "M": 2, "workers": 2, "fixed": 1}, preempt={"quick": 2, "thorough": 3}, split=8),
], bounds="graphs of 2 (60-bit capacities) and 3 (16-bit) vertices with source/sink edges everywhere and 1 (thorough, 3 vertices: 2) further edge, 1 worker, every non-preemptive schedule; graphs of 3 (one isolated vertex; 1, thorough 2 preemptions) and 4 vertices in two components with fixed capacities, 2 workers, every schedule with at most 2 (thorough 3) preemptions", assumptions=["sequentially consistent atomics; preemption only at synchronisation operations, data-race freedom being checked separately on every explored schedule"], tech="bounded-preemption schedule exploration")

ALLOC = GRAPH + ["lib/tethys/tethys_allocator.cpp"]
for _p, _w in (("A01", 1), ("A02", 2)):
    check(_p, [
        dict(name="n1", harness="a01.cpp", srcs=ALLOC, params={"N": 1, "M": 4, "which": _w, "bad": 1}, fork_select=True),
        dict(name="n2", harness="a01.cpp", srcs=ALLOC, params={"N": 2, "M": 3, "which": _w, "bad": 1}, thorough={"M": 4}, fork_select=True, split=8),
        dict(name="n3", harness="a01.cpp", srcs=ALLOC, params={"N": 3, "M": 3, "which": _w}, thorough={"M": 4}, fork_select=True, split={"quick": 8, "thorough": 32}),
        dict(name="n4", harness="a01.cpp", srcs=ALLOC, params={"N": 4, "M": 2, "which": _w}, thorough={"M": 3}, fork_select=True, split={"quick": 4, "thorough": 32}),
    ], bounds="tables of 1-4 buckets, up to 4, 3 (thorough 4), 3 (thorough 4), 2 (thorough 3) lists with every combination of candidate buckets (both orders, equal candidates included), every page capacity in [1, 2^58) and every list length in [0, page capacity]",
    assumptions=["table and page sizes below 2^58, so that sums of a few of them do not wrap"])

check("W01", [
    dict(name="one-caller", harness="w01.cpp", params={"mode": 0, "tasks": 2, "workers": 2}, preempt={"quick": 2, "thorough": 3}, split=8),
    dict(name="one-worker", harness="w01.cpp", params={"mode": 0, "tasks": 3, "workers": 1}, preempt={"quick": 2, "thorough": 4}, split=4),
    dict(name="spurious", harness="w01.cpp", params={"mode": 0, "tasks": 1, "workers": 2}, preempt={"quick": 1, "thorough": 2}, spurious=2, split=4),
    dict(name="two-callers", harness="w01.cpp", params={"mode": 1, "tasks": 2, "workers": 2}, preempt={"quick": 2, "thorough": 3}, split=8),
    dict(name="nested", harness="w01.cpp", params={"mode": 2, "workers": 2}, preempt={"quick": 2, "thorough": 3}, split=4),
    dict(name="parallel", harness="w01.cpp", params={"mode": 3, "workers": 2}, preempt={"quick": 2, "thorough": 3}, split=4),
], bounds="1-2 workers, 1-3 tasks that return or throw, one or two calling threads, nested enqueueing, explicit join or destruction, up to 2 spurious wake-ups, every schedule with at most 2 (thorough 3-4) preemptions, 1 with spurious wake-ups; every task argument",
    assumptions=["sequentially consistent atomics; preemption at synchronisation operations (data races are checked separately on every explored schedule)"], tech="bounded-preemption schedule exploration")

UTIL = ["lib/utils/utils.cpp", "lib/utils/logger.cpp"]
DB = UTIL + ["lib/utils/rocksdb_wrapper.cpp"]
DBMODEL = "RocksDB is replaced by a model: a map per path that survives reopening, atomic calls, any call may fail (where faults are enabled) without effect"
check("R01", [
    dict(name="ops", harness="r01.cpp", srcs=DB, params={"ops": 3}, thorough={"ops": 4}, split=8),
    dict(name="faults", harness="r01.cpp", srcs=DB, params={"ops": 2, "faults": 1}, thorough={"ops": 3}, split=8),
], bounds="histories of 3 (thorough 4) operations, 2 (thorough 3) with arbitrary storage failures, over two arbitrary distinct 4-byte keys and every 64-bit value", assumptions=[DBMODEL])
check("R02", [
    dict(name="ops", harness="r02.cpp", srcs=DB, params={"ops": 3}, thorough={"ops": 4}, split=8),
    dict(name="faults", harness="r02.cpp", srcs=DB, params={"ops": 2, "faults": 1}, thorough={"ops": 3}, split=8),
], bounds="histories of 3 (thorough 4) operations, 2 (thorough 3) with arbitrary storage failures, over two arbitrary distinct keywords of 1-3 bytes; every counter, default and set value", assumptions=[DBMODEL])
check("R03", [
    dict(name="fixed", harness="r03.cpp", srcs=DB, params={"ops": 3, "len": 2}, thorough={"ops": 4}, split=8),
    dict(name="variable", harness="r03.cpp", srcs=DB, params={"ops": 2, "len": 2, "var": 1}, thorough={"ops": 3}, split=8),
    dict(name="faults", harness="r03.cpp", srcs=DB, params={"ops": 3, "len": 1, "faults": 1}, split=8),
], bounds="histories of 2-3 (thorough 3-4) operations over two arbitrary distinct 3-byte keys, lists of 0-2 elements of every 64-bit value or every byte string of length 0-2", assumptions=[DBMODEL])
VEC = UTIL + ["lib/abstractio/scheduler.cpp", "lib/abstractio/thread_pool_aio_scheduler.cpp"]
FSMODEL = "the POSIX file calls are replaced by a model: positioned transfers over an in-memory tree, zero fill past the end, alignment enforced under O_DIRECT, failures where faults are enabled"
check("V01", [
    dict(name="mix", harness="v01.cpp", srcs=VEC, params={"ops": 4}, thorough={"ops": 5}, split=8),
    dict(name="direct", harness="v01.cpp", srcs=VEC, params={"ops": 3, "direct": 1}, thorough={"ops": 4}, split=8),
    dict(name="move", harness="v01.cpp", srcs=VEC, params={"ops": 3, "move": 1}, thorough={"ops": 4}, split=8),
    dict(name="no-scheduler", harness="v01.cpp", srcs=VEC, params={"ops": 2, "direct": 1, "null": 1}, thorough={"ops": 3}, split=8),
    dict(name="faults", harness="v01.cpp", srcs=VEC, params={"ops": 2, "faults": 1}, thorough={"ops": 3}, split=8),
], bounds="every sequence of 3-4 (thorough 4-5) appends (synchronous, asynchronous), reservations, access mode changes and moves, on vectors opened in either mode, with or without scheduler, with every 16-byte content; asynchronous operations completing in any order before the next wait; failed and short synchronous writes in sequences of 2 (thorough 3); every index beyond the end below 2^40",
    assumptions=[FSMODEL, "asynchronous writes that were accepted succeed (the vector ignores their result)", "the I/O scheduler is a model that completes accepted requests in any order (the real ones are checked by I01 and I02)"])
check("V02", [
    dict(name="reads", harness="v02.cpp", srcs=VEC, params={"ops": 2, "batch": 2}, thorough={"batch": 3}, split=8),
    dict(name="failed-reads", harness="v02.cpp", srcs=VEC, params={"ops": 2, "faults": 1, "batch": 2, "eager": 0}, thorough={"eager": 1}, split=8),
    dict(name="rejected", harness="v02.cpp", srcs=VEC, params={"ops": 2, "reject": 1, "batch": 2}, thorough={"batch": 3}, split=8),
    dict(name="writes", harness="v02.cpp", srcs=VEC, params={"ops": 1, "reject": 1, "writes": 1, "batch": 1}, split=8),
], bounds="2-element vectors of every 16-byte content, sequences of 2 single reads, batches of 1-2 (thorough 1-3) reads or mode changes with valid and out-of-range indices, and of asynchronous appends; reads that fail or are short, submissions that are rejected; completions in any order, as early as within the submission and as late as the destruction",
    assumptions=[FSMODEL, "the I/O scheduler is a model that accepts or rejects requests and completes accepted ones in any order (the real ones are checked by I01 and I02)"])
IO = UTIL
check("I02", [
    dict(name="one-request", harness="i02.cpp", srcs=UTIL, params={"mode": 0, "requests": 1, "workers": 1, "faults": 1}, preempt={"quick": 3, "thorough": 4}, split=4),
    dict(name="requests", harness="i02.cpp", srcs=UTIL, params={"mode": 0, "requests": 2, "workers": 2}, preempt={"quick": 1, "thorough": 2}, split=8),
    dict(name="two-users", harness="i02.cpp", srcs=UTIL, params={"mode": 1, "workers": 1, "writes": 0}, preempt={"quick": 2, "thorough": 3}, split=8),
    dict(name="chained", harness="i02.cpp", srcs=UTIL, params={"mode": 2, "workers": 2}, preempt={"quick": 1, "thorough": 2}, split=8),
], bounds="1-2 workers, 1-3 reads (any offset kind, at and beyond the end) and writes, failing or not, one or two schedulers used by one or two threads, chained submission from a callback; every schedule with at most 1-2 (thorough 2-3) preemptions",
    assumptions=[FSMODEL, "the shared pool has 1-2 threads instead of 50", "sequentially consistent atomics; preemption at synchronisation operations"], tech="bounded-preemption schedule exploration")
AIO = UTIL + ["lib/abstractio/linux_aio_scheduler.cpp", "lib/abstractio/scheduler.cpp", "lib/abstractio/thread_pool_aio_scheduler.cpp"]
def _aio(name, preempt, **kw):
    th = kw.pop("thorough", {})
    return dict(name=name, harness="i01.cpp", srcs=AIO, defs=["HAS_LIBAIO"], params=kw, thorough=th, preempt=preempt, split=8, max_steps=4000000)
check("I01", [
    _aio("requests", {"quick": 1, "thorough": 2}, requests=3, cap=2, writes=1),
    _aio("full-queue", {"quick": 2, "thorough": 3}, requests=2, cap=1),
    _aio("batch", {"quick": 1, "thorough": 2}, requests=3, cap=2, batch=1, partial=1),
    _aio("rejected", 0, requests=2, cap=2, batch=1, bad=1),
    _aio("bad-args", 0, requests=1, cap=2, bad=1, writes=1, dup=1),
    _aio("factory", 0, factory=1),
    _aio("io-errors", 0, requests=2, cap=2, ioerr=1),
    _aio("submit-errors", 0, requests=2, cap=2, submit_faults=1),
    _aio("batch-errors", 0, requests=2, cap=2, submit_faults=1, partial=1, batch=1),
    _aio("interrupted", {"quick": 1, "thorough": 2}, requests=1, cap=1, intr=1),
], bounds="1-3 reads and writes, single or batched, queue capacity 1-2, partial and refused submissions, interrupted waits, I/O errors, malformed arguments; completions in any order and grouping; the default, kernel and thread-pool factories and their duplicates; every schedule with at most 1-2 (thorough 2-3) preemptions",
    assumptions=[FSMODEL, "libaio is replaced by a model: bounded queue, any non-empty prefix accepted, -EAGAIN when full, completions in any order", "timers fire only when no thread can run, earliest first (a later one as a preemption)", "sequentially consistent atomics; preemption at synchronisation operations"], tech="bounded-preemption schedule exploration")
CUCKOO = VEC + ["lib/oceanus/cuckoo.cpp"]
check("C01", [
    dict(name="s1", harness="c01.cpp", srcs=CUCKOO, params={"S": 1}),
    dict(name="s1-deep", harness="c01.cpp", srcs=CUCKOO, params={"S": 1, "depth": 20}),
    dict(name="s2", harness="c01.cpp", srcs=CUCKOO, params={"S": 2}, split=8),
    dict(name="s2-deep", harness="c01.cpp", srcs=CUCKOO, params={"S": 2, "depth": 14}, split=4),
    dict(name="s3", harness="c01.cpp", srcs=CUCKOO, params={"S": 3, "depth": 3, "hbits": 8}, split=8),
    dict(name="s4", harness="c01.cpp", srcs=CUCKOO, params={"S": 4, "depth": 4}, split=32, tiers=["thorough"]),
], bounds="tables of 1-3 (thorough 4) slots each in every valid state, every hash value (8-bit ones for 3 slots) and index of the new element, search depths 0-5, and depths large enough for every eviction chain to end",
    assumptions=[])
CK = UTIL + ["lib/oceanus/cuckoo.cpp"]
_ck = [FSMODEL, "the I/O scheduler is a model that completes accepted requests in any order (the real ones are checked by I01 and I02)", "keys are distinct and different from the all-ones key"]
check("C02", [
    dict(name="small", harness="c02.cpp", srcs=CK, params={"n": 2}, split=8),
    dict(name="three", harness="c02.cpp", srcs=CK, defs=["KB=2"], params={"n": 3, "eps10": 0, "full": 1, "eager": 0}, thorough={"full": 0, "eager": 1}, split=8),
    dict(name="slack", harness="c02.cpp", srcs=CK, params={"n": 2, "eps10": 26, "direct": 1, "full": 1, "eager": 0}, thorough={"eager": 1, "full": 0}, split=8),
    dict(name="three-wide", harness="c02.cpp", srcs=CK, defs=["KB=2"], params={"n": 3, "full": 1, "eager": 0}, split=32, tiers=["thorough"]),
    dict(name="read-errors", harness="c02.cpp", srcs=CK, params={"n": 1, "faults": 1, "reads": 2}, thorough={"n": 2}, split=8),
    dict(name="threads", harness="c02.cpp", srcs=CK, defs=["KB=2"], params={"n": 2, "eps10": 0, "full": 1, "threads": 1}, preempt={"quick": 2, "thorough": 3}, race=1, split=8),
    dict(name="overfull", harness="c02.cpp", srcs=CK, params={"n": 3, "spill": 1, "eager": 0}, finding="C02-spill"),
], bounds="0-3 elements with every distinct key (2 or 4 bytes, the first two being the two hash values) and value in tables of two times 1-4 slots that can hold them, committed explicitly or by the destructor; lookups of every inserted and every other key, in both access modes; failing and short reads in 1-element (thorough 2) tables", assumptions=_ck, unreached_ok=["over-full"])
check("O01", [
    dict(name="pages", harness="c02.cpp", srcs=CK, defs=["OCEANUS"], params={"n": 2}, thorough={"n": 3, "full": 1}, split=8),
    dict(name="read-errors", harness="c02.cpp", srcs=CK, defs=["OCEANUS"], params={"n": 1, "faults": 1, "reads": 1}, thorough={"reads": 2}, split=8),
], bounds="0-2 (thorough 3) pages of 32 bytes with every distinct 16-byte key and content, in tables that can hold them; lookups of every stored and every other key; failing and short reads in a 1-page table", assumptions=_ck, unreached_ok=["over-full"])
_enc = ["key and value sizes are multiples of each other (16- and 8-byte keys, 8- and 4-byte values)", "the allocation is as the allocator leaves it: parts within the list's length and the buckets' capacity (A01)"]
check("E01", [
    dict(name="pairs", harness="e01.cpp", srcs=[], params={"lists": 2}, split=8),
    dict(name="short-key", harness="e01.cpp", srcs=[], defs=["KS=8"], params={"lists": 2, "samepair": 1}, split=8),
    dict(name="small-values", harness="e01.cpp", srcs=[], defs=["KS=8", "VT=uint32_t", "PAGE=48"], params={"lists": 2, "samepair": 1, "min": 2}, split=8),
    dict(name="three", harness="e01.cpp", srcs=[], defs=["PAGE=80"], params={"lists": 3, "samepair": 1, "rest": 0, "absent": 0}, thorough={"samepair": 0}, split=8),
    dict(name="page80", harness="e01.cpp", srcs=[], defs=["PAGE=80"], params={"lists": 2, "samepair": 1, "absent": 0}, thorough={"absent": 1}, split=8),
], bounds="2-3 lists of every length, distinct keys (16 or 8 bytes) and values (64 or 32 bits), buckets of 8-12 entries, every split of every list between its two buckets and the stash, candidate pairs the same or not; lookups of every list and of any other key", assumptions=_enc)
check("E02", [
    dict(name="single", harness="e01.cpp", srcs=[], defs=["ENCRYPTED"], params={"lists": 1, "positions": 1}, split=8),
    dict(name="pairs", harness="e01.cpp", srcs=[], defs=["ENCRYPTED"], params={"lists": 2, "samepair": 1, "positions": 1}, split=8),
], bounds="1-2 lists in buckets of 8 entries as for E01, at every four distinct 64-bit table positions, with every cipher key and keystream", assumptions=_enc)
check("K01", [
    dict(name="round-trip", harness="k01.cpp", srcs=[], params={"entries": 2, "maxlen": 2}, thorough={"entries": 3}, split=4),
    dict(name="values32", harness="k01.cpp", srcs=[], defs=["VT=uint32_t"], params={"entries": 2, "maxlen": 3}, split=4),
    dict(name="arbitrary", harness="k01.cpp", srcs=[], params={"mode": 1, "bytes": 58}, thorough={"bytes": 82}, split=4),
    dict(name="generic", harness="k01.cpp", srcs=[], params={"mode": 2}),
    dict(name="no-file", harness="k01.cpp", srcs=[], params={"mode": 3}),
], bounds="stash streams of 2 (thorough 3) lists of 0-2 64-bit (0-3 32-bit) values with distinct 16-byte keys, truncated after every byte; every input of up to 58 (thorough 82) bytes; both decoders; two entries of a plain serialiser through every overload", assumptions=["streams are in-memory models"])
TETHYS = UTIL + ["lib/tethys/tethys_graph.cpp", "lib/tethys/tethys_allocator.cpp"]
check("S01", [
    dict(name="one-pair", harness="s01.cpp", srcs=TETHYS, params={"lists": 3, "n": 8}, thorough={"lists": 4}, split=8),
    dict(name="two-pairs", harness="s01.cpp", srcs=TETHYS, params={"lists": 2, "n": 16}, split=8),
    dict(name="three", harness="s01.cpp", srcs=TETHYS, params={"lists": 3, "n": 16, "full": 1, "minlen": 1}, thorough={"minlen": 0}, split=8),
    dict(name="long", harness="s01.cpp", srcs=TETHYS, defs=["PAGE=128"], params={"lists": 2, "n": 16, "full": 1, "maxlen": 10}, thorough={"n": 32}, split=8),
    dict(name="faults", harness="s01.cpp", srcs=TETHYS, params={"lists": 1, "n": 8, "faults": 1}, thorough={"lists": 2}, split=8),
], bounds="0-3 (thorough 4) lists of length 0 to the maximum (2, or 10 with longer buckets), with every distinct key and content, in tables of one or two times two buckets, the candidate pairs chosen freely; over-long lists refused; lookups of every list and of any other key; one list with failing writes and reads", assumptions=[FSMODEL], unreached_ok=["async"])
check("S02", [
    dict(name="orders", harness="s01.cpp", srcs=TETHYS, params={"mode": 1, "lists": 3, "full": 1, "n": 8, "lookups": 1}, split=8),
    dict(name="failures", harness="s01.cpp", srcs=TETHYS, params={"mode": 1, "lists": 2, "full": 1, "n": 8, "lookups": 1, "faults": 1}, split=8),
    dict(name="two", harness="s01.cpp", srcs=TETHYS, params={"mode": 1, "lists": 2, "full": 2, "n": 8, "lookups": 2}, thorough={"full": 1}, split=8),
    dict(name="threads", harness="s01.cpp", srcs=TETHYS, params={"mode": 2, "lists": 2, "full": 2, "n": 8}, preempt={"quick": 2, "thorough": 3}, race=1, split=4),
], bounds="1-3 lists in one pair of buckets and the stash, 1-2 asynchronous lookups (list or buckets, own or given decoder) with the two reads completing in any order, as early as the submission, failing or short; or in two threads with every schedule of at most 2 (thorough 3) preemptions", assumptions=[FSMODEL, "the I/O scheduler is a model (the real ones are checked by I01 and I02)", "sequentially consistent atomics"], unreached_ok=["read", "read fault", "write fault"])
CRYPTO = "the cryptographic library is replaced by its ideal functionality (shim/sse/crypto): PRFs and hashes are injective on the inputs used, ciphers are keystreams per key and nonce"
TS = DB + ["lib/tethys/tethys_graph.cpp", "lib/tethys/tethys_allocator.cpp"]
check("S03", [
    dict(name="lengths", harness="s03.cpp", srcs=TS, params={"keywords": 1, "n": 16, "maxlen": 5}, thorough={"maxlen": 6}, split=8),
    dict(name="one-pair", harness="s03.cpp", srcs=TS, params={"keywords": 2, "n": 8, "maxlen": 4}, thorough={"maxlen": 6}, split=8),
    dict(name="three", harness="s03.cpp", srcs=TS, params={"keywords": 3, "n": 8, "maxlen": 3}, thorough={"maxlen": 4}, split=8),
    dict(name="two-pairs", harness="s03.cpp", srcs=TS, params={"keywords": 2, "n": 16, "minlen": 1, "maxlen": 3}, thorough={"minlen": 0}, split=8),
    dict(name="long", harness="s03.cpp", srcs=TS, defs=["PAGE=128"], params={"keywords": 2, "n": 32, "minlen": 8, "maxlen": 11}, thorough={"minlen": 0}, split=8),
    dict(name="many", harness="s03.cpp", srcs=TS, params={"keywords": 1, "n": 2100, "minlen": 515, "maxlen": 515, "many": 1}, preempt=-1),
    dict(name="load", harness="s03.cpp", srcs=TS, params={"keywords": 2, "n": 16, "maxlen": 2, "load": 1}, split=8),
], bounds="1-3 keywords with 0-6 documents each (0-3 blocks, including exactly full ones; 8-11 documents with blocks of 10; 515 documents in 258 blocks), every 64-bit document (32-bit when loaded from an index file), every candidate bucket pair for every block in tables of one or two times two buckets, three absent keywords", assumptions=[FSMODEL, DBMODEL, CRYPTO])
PL = TS + ["lib/oceanus/cuckoo.cpp", "lib/pluto/rocksdb_store.cpp"]
check("L01", [
    dict(name="lengths", harness="l01.cpp", srcs=PL, params={"keywords": 1, "n": 16, "maxlen": 9}, split=8),
    dict(name="two-keywords", harness="l01.cpp", srcs=PL, params={"keywords": 2, "n": 8, "maxlen": 5}, split=8),
    dict(name="collide", harness="l01.cpp", srcs=PL, params={"keywords": 3, "n": 8, "minlen": 1, "maxlen": 2}, split=8),
    dict(name="load", harness="l01.cpp", srcs=PL, params={"keywords": 1, "n": 8, "maxlen": 3, "load": 1}, split=8),
    dict(name="page128", harness="l01.cpp", srcs=PL, defs=["PAGE=128"], params={"keywords": 1, "n": 16, "minlen": 8, "maxlen": 25}, split=8),
    dict(name="rocksdb", harness="l01.cpp", srcs=PL, defs=["ROCKSDB_TABLE"], params={"keywords": 1, "n": 8, "maxlen": 9}, split=8),
    dict(name="rocksdb-two", harness="l01.cpp", srcs=PL, defs=["ROCKSDB_TABLE"], params={"keywords": 2, "n": 8, "maxlen": 5}, split=8),
    dict(name="rocksdb-many", harness="l01.cpp", srcs=PL, defs=["ROCKSDB_TABLE"], params={"keywords": 1, "n": 8, "minlen": 1030, "maxlen": 1030, "many": 1}, preempt=-1),
    dict(name="many", harness="l01.cpp", srcs=PL, params={"keywords": 1, "n": 8, "minlen": 1030, "maxlen": 1031, "many": 1}, preempt=-1, split=2),
    dict(name="rocksdb-load", harness="l01.cpp", srcs=PL, defs=["ROCKSDB_TABLE"], params={"keywords": 1, "n": 8, "maxlen": 4, "load": 1}, split=8),
    dict(name="rocksdb-faults", harness="l01.cpp", srcs=PL, defs=["ROCKSDB_TABLE"], params={"keywords": 1, "n": 8, "maxlen": 9, "faults": 1}, split=8),
], bounds="indexes of 1 keyword with 0..9 documents (page 64: two full blocks and more; 8..25 with page 128; 1030 in 257 full blocks), 2 keywords with 0..5 documents each, 3 with 1 or 2; document identifiers are arbitrary 64-bit values (32-bit when loaded from JSON); every placement of the incomplete blocks on the Tethys buckets, both slots shared or distinct in the cuckoo tables; both hash-table back ends; every pattern of failing table reads for RocksDB; searches for every keyword and two absent ones. Outside: a cuckoo table without any element (it cannot be opened), overfull tables (C02), failing files (S02)", assumptions=[FSMODEL, DBMODEL, CRYPTO])
check("U01", [
    dict(name="bytes", harness="u01.cpp", srcs=UTIL, params={}, thorough={"maxlen": 65}, split=4),
], bounds="every content of: strings of 0-16 (thorough 64) bytes, arrays of 16 bytes, 3x16, 3x32, 2x64 bits, characters and signed integers, streams of 1, 8 and 17 bytes, 64- and 32-bit integers; masks of 8 and 16 bytes, values of 1, 4, 5, 8 and 16 bytes; every 64-bit address and power-of-two alignment")
check("U02", [
    dict(name="tree", harness="u02.cpp", srcs=UTIL, params={"spellings": 4}, thorough={"entries": 3}, split=4),
    dict(name="faults", harness="u02.cpp", srcs=UTIL, params={"faults": 1, "spellings": 1, "mount": 1}, thorough={"faults": 2}, split=8),
    dict(name="late", harness="u02.cpp", srcs=UTIL, params={"late": 1, "spellings": 1, "mount": 1}, split=2),
    dict(name="helpers", harness="u02.cpp", srcs=UTIL, params={"helpers": 1}, split=2),
], bounds="removal of every tree of depth 3 with two entries at the top (directories, files, links to files, to directories and to nothing, others, mount points) or of a path that is any of these or missing, in both orders, in four spellings; at most one (thorough 2) failure of any call or traversal step, or an entry added by another process while the directory is being removed; the other helpers with every result of the system", assumptions=["the operating system calls, fts included, are replaced by a model after their documentation and the C library's behaviour"])
check("U03", [
    dict(name="walk", harness="u03.cpp", srcs=[], params={}, thorough={"max": 5}, split=4),
], bounds="two vectors, lists or adjacent arrays of 0-3 (thorough 5) elements each with every content, mutable and const; every pair of positions compared; iterators made at every position")
check("U04", [
    dict(name="histories", harness="u04.cpp", srcs=[], params={"mode": 0, "ops": 3}, thorough={"ops": 4}, split=8),
    dict(name="throwing", harness="u04.cpp", srcs=[], params={"mode": 1, "ops": 2, "throwing": 1}, thorough={"ops": 3}, split=8),
    dict(name="relations", harness="u04.cpp", srcs=[], params={"mode": 2}),
    dict(name="values", harness="u04.cpp", srcs=[], params={"mode": 3}),
    dict(name="references", harness="u04.cpp", srcs=[], params={"mode": 4, "ops": 3}, thorough={"ops": 4}, split=4),
], bounds="every history of 3 (thorough 4) operations (15 kinds) on two optionals of integers or of objects that count their instances and know their address, with every 64-bit value; of 2 (thorough 3) operations with every pattern of throwing copies; 3 (thorough 4) operations on two optional references; all comparisons of two optionals, with a value and with the absent value")
check("U05", [
    dict(name="index", harness="u05.cpp", srcs=UTIL, defs=["EXACT"], params={"max": 1, "hwc": 1}),
    dict(name="threads", harness="u05.cpp", srcs=UTIL, params={"max": 3, "hwc": 2}, preempt={"quick": 1, "thorough": 2}, race=1, split=4),
    *[dict(name="hosts-%d" % h, harness="u05.cpp", srcs=UTIL, params={"max": 7, "hwc": h}, preempt=-1) for h in (0, 1, 2, 3, 4)],
    dict(name="full-groups", harness="u05.cpp", srcs=UTIL, params={"min": 200, "max": 203, "hwc": 2}, preempt=-1, split=4),
    dict(name="random-groups", harness="u05.cpp", srcs=UTIL, params={"min": 134, "max": 140, "hwc": 1, "wide": 1, "symdocs": 2}, thorough={"symdocs": 3}, preempt=-1, split=4),
    dict(name="random-groups-2", harness="u05.cpp", srcs=UTIL, params={"min": 534, "max": 540, "hwc": 2, "wide": 1}, preempt=-1, split=4),
    dict(name="random-groups-1000", harness="u05.cpp", srcs=UTIL, params={"min": 1200, "max": 1200, "hwc": 1, "wide": 1}, thorough={"max": 1202}, preempt=-1, split=4),
], bounds="0-7 documents on hosts that report 0-4 hardware threads; 3 documents in two threads with every schedule of at most 1 (thorough 2) preemptions; 200-203 documents in two threads (full groups of 10 to 100); 134-140, 534-540 and 1200 documents (groups with random members); the index of the first document arbitrary: its six low decimal digits (keywords of the frequency classes), or any 64-bit value up to five fixed bits (random groups), the others fixed and distinct", assumptions=["indexes are drawn from a generator that returns distinct arbitrary values", "sequentially consistent atomics"])
SO = DB + ["lib/sophos/sophos_client.cpp", "lib/sophos/sophos_server.cpp", "lib/sophos/sophos_common.cpp"]
check("F01", [
    dict(name="histories", harness="f01.cpp", srcs=SO, params={"ops": 4, "keywords": 2}, thorough={"ops": 5}, split=8),
    dict(name="keywords", harness="f01.cpp", srcs=SO, params={"ops": 4, "keywords": 4, "restarts": 0}, thorough={"ops": 5}, split=8),
    dict(name="faults", harness="f01.cpp", srcs=SO, params={"ops": 3, "keywords": 2, "faults": 1, "restarts": 0}, thorough={"ops": 4}, split=8),
], bounds="histories of 4 (thorough 5) insertions, searches and client or server restarts over 2 keywords (one empty), of insertions and searches over 4 keywords (one a prefix of another, one with a NUL byte), of 3 (thorough 4) operations with every pattern of failing counter reads and writes; every 64-bit document; then a search for every keyword. Outside: a failed counter read during a search (treated as an absent keyword), failing server storage", assumptions=[DBMODEL, CRYPTO])

check("F02", [
    dict(name="counts", harness="f02.cpp", srcs=SO, params={"maxres": 9, "threads": 4, "hwc": 2, "more": 0}, preempt=-1, split=8),
    dict(name="counts-hw3", harness="f02.cpp", srcs=SO, params={"maxres": 9, "threads": 3, "hwc": 3, "only": 2}, preempt=-1, split=4),
    dict(name="many", harness="f02.cpp", srcs=SO, params={"minres": 256, "maxres": 257, "threads": 2, "hwc": 2, "more": 0, "other": 0, "symbolic": 1}, thorough={"maxres": 259}, preempt=-1, split=8),
    dict(name="hosts", harness="f02.cpp", srcs=SO, params={"minres": 2, "maxres": 2, "threads": 1, "hosts": 1}, preempt=-1, split=4),
    dict(name="sched-light", harness="f02.cpp", srcs=SO, params={"minres": 2, "maxres": 3, "threads": 2, "other": 0, "more": 0, "only": 3, "hwc": 2}, preempt={"quick": 2, "thorough": 3}, split=8),
    dict(name="sched-light3", harness="f02.cpp", srcs=SO, params={"minres": 2, "maxres": 3, "threads": 3, "other": 0, "more": 0, "only": 3, "hwc": 2}, preempt={"quick": 1, "thorough": 2}, split=8),
    dict(name="sched-light-cb", harness="f02.cpp", srcs=SO, params={"minres": 2, "maxres": 3, "threads": 2, "other": 0, "more": 0, "only": 5, "hwc": 2}, preempt={"quick": 2, "thorough": 3}, split=8),
    dict(name="sched-pool", harness="f02.cpp", srcs=SO, params={"minres": 2, "maxres": 2, "threads": 1, "other": 0, "more": 0, "only": 2, "hwc": 2}, preempt={"quick": 1, "thorough": 2}, split=8),
    dict(name="sched-pool2", harness="f02.cpp", srcs=SO, params={"minres": 2, "maxres": 2, "threads": 2, "other": 0, "more": 0, "only": 2, "hwc": 2}, preempt={"quick": 0, "thorough": 1}, split=8),
    dict(name="sched-pool-cb", harness="f02.cpp", srcs=SO, params={"minres": 2, "maxres": 2, "threads": 1, "other": 0, "more": 0, "only": 4, "hwc": 2}, preempt={"quick": 1, "thorough": 2}, split=8),
], bounds="0..9 results, 1..4 search threads and as many access threads, 2 or 3 hardware threads, and 256-257 results, under one schedule; 2-3 results with 1-3 threads under every schedule with at most 1-2 (thorough 2-3) preemptions (pool with two access threads: 0, thorough 1); hosts with 0, 1, 2, 127, 128, 129, 256 hardware threads for the serial and the single-threaded search; every 64-bit document. Thread counts above the order of the trapdoor pool (twice the hardware threads) are outside: the cryptographic library rejects them", assumptions=[DBMODEL, CRYPTO, "sequentially consistent atomics; preemption at synchronisation operations (data races are checked separately on every explored schedule)"], tech="bounded-preemption schedule exploration")

DI = DB + ["lib/diana/diana_common.cpp"]
check("D01", [
    dict(name="histories", harness="d01.cpp", srcs=DI, params={"ops": 3, "keywords": 2}, thorough={"ops": 4}, split=8),
    dict(name="keywords", harness="d01.cpp", srcs=DI, params={"ops": 2, "keywords": 3, "bulk": 2}, thorough={"keywords": 4, "bulk": 3}, split=8),
    dict(name="wide", harness="d01.cpp", srcs=DI, defs=["WIDE"], params={"ops": 3, "keywords": 1, "bulk": 3}, split=8),
    dict(name="faults", harness="d01.cpp", srcs=DI, params={"ops": 3, "keywords": 2, "faults": 1}, thorough={"ops": 4}, split=8),
], bounds="histories of 3 (thorough 4) operations (insertion, bulk insertion of 0-2 entries, searches with and without removal, forgetting an emptied keyword, restarts) over 2 keywords, one empty; 2 operations over 3 (thorough 4) keywords with bulks of up to 2 (thorough 3); 24-byte entries with 1 keyword; histories of 3 (thorough 4) operations with every pattern of failing counter accesses; every 64-bit entry (keywords with prefixes and NUL bytes); then a search for every keyword. Outside: a failed counter read during a search (treated as an absent keyword), failing server storage", assumptions=[DBMODEL, CRYPTO])
check("D02", [
    dict(name="counts", harness="d02.cpp", srcs=DI, params={"maxres": 9, "threads": 5}, preempt=-1, split=8),
    dict(name="many", harness="d02.cpp", srcs=DI, params={"minres": 256, "maxres": 256, "threads": 2, "other": 1, "symbolic": 1}, thorough={"maxres": 259}, preempt=-1, split=8),
    dict(name="removed", harness="d02.cpp", srcs=DI, params={"maxres": 3, "threads": 3, "old": 2}, preempt=-1, split=8),
    dict(name="sched2", harness="d02.cpp", srcs=DI, params={"minres": 2, "maxres": 3, "threads": 2, "other": 0}, preempt={"quick": 2, "thorough": 3}, split=8),
    dict(name="sched3", harness="d02.cpp", srcs=DI, params={"minres": 3, "maxres": 4, "threads": 3, "other": 0}, preempt={"quick": 1, "thorough": 2}, split=8),
], bounds="0..9 results, 1..5 threads, with and without removal, after 0..2 removed entries (not for the vector variant, whose positions of missing entries are left alone; the given vector no longer than the results), and 256-257 results, under one schedule; 2-3 results with up to 2 threads under every schedule with at most 2 (thorough 3) preemptions, 3-4 with up to 3 and 1 (thorough 2); every 64-bit entry", assumptions=[DBMODEL, CRYPTO, "sequentially consistent atomics; preemption at synchronisation operations (data races are checked separately on every explored schedule)"], tech="bounded-preemption schedule exploration")

JA = DI + ["lib/janus/janus_client.cpp", "lib/janus/janus_server.cpp"]
check("J01", [
    dict(name="histories", harness="j01.cpp", srcs=JA, params={"ops": 4, "keywords": 1, "threads": 1, "variants": 2}, thorough={"ops": 5}, preempt=-1, split=8),
    dict(name="variants", harness="j01.cpp", srcs=JA, params={"ops": 3, "keywords": 1, "threads": 2, "preinserted": 2, "restarts": 0}, preempt=-1, split=8),
    dict(name="periods", harness="j01.cpp", srcs=JA, params={"ops": 0, "keywords": 5, "threads": 1, "variants": 1, "periods": 1, "final": 0}, preempt=-1, split=8),
    dict(name="keywords", harness="j01.cpp", srcs=JA, params={"ops": 3, "keywords": 3, "threads": 1, "variants": 2, "restarts": 0}, preempt=-1, split=8),
], bounds="histories of 4 (thorough 5) insertions, deletions, searches and client or server restarts on one keyword, of 3 operations after 2 insertions with every search variant and 1-2 threads, and of 3 operations over 3 keywords (one empty, one spelled like an encoded counter, two with NUL bytes), and of insertions and searches starting at search counters 2-16, 99, 255, 256, 65535, 65536 and 0xfffffffe; then two searches per keyword; every 64-bit document identifier with every pattern of equal identifiers; parallel searches under one schedule (J01 is about their results; the threads are those of D02). Outside: inserting a document that is present or was deleted since the last search (unsupported by the scheme), failing storage", assumptions=[DBMODEL, CRYPTO])
check("J02", [
    dict(name="records", harness="j02.cpp", srcs=JA, params={"records": 4}, preempt=-1, split=4),
    dict(name="truncated", harness="j02.cpp", srcs=JA, params={"records": 2, "trunc": 1}, preempt=-1, split=8),
    dict(name="added", harness="j02.cpp", srcs=JA, params={"records": 2, "add": 2}, preempt=-1, split=4),
], bounds="cache entries of 0-4 records, of every length up to two records, and of 0-2 records followed by 2 insertions; every byte value; serial and parallel search, twice, with a restart in between", assumptions=[DBMODEL, CRYPTO])
RUN = ["lib/utils/utils.cpp", "lib/utils/logger.cpp"]
SOR = SO + ["lib/sophos/sophos_client_runner.cpp", "lib/sophos/sophos_server_runner.cpp"]
DIR = DI + ["lib/diana/client_runner.cpp", "lib/diana/server_runner.cpp"]
def _runner(srcs, defs):
    j = dict(harness="n01.cpp", srcs=srcs, defs=defs)
    return [
        dict(name="histories", params={"ops": 3, "keywords": 2}, thorough={"ops": 4}, preempt=-1, split=8, **j),
        dict(name="network", params={"ops": 3, "keywords": 1, "network": 1}, thorough={"ops": 4}, preempt=-1, split=8, **j),
        dict(name="load", params={"ops": 1, "keywords": 2, "mode": 2, "faults": 1}, thorough={"ops": 2}, preempt=-1, split=8, **j),
        dict(name="hosts", params={"ops": 2, "keywords": 1, "mode": 2, "hosts": 5 if "DIANA" in defs else 4}, thorough={"ops": 3}, preempt=-1, split=8, **j),
        dict(name="load-threads", params={"ops": 1, "keywords": 2, "mode": 3}, preempt={"quick": 1, "thorough": 2}, split=8, **j),
        dict(name="concurrent", params={"ops": 0, "keywords": 3, "mode": 1}, preempt={"quick": 1, "thorough": 2}, split=8, **j),
    ]
RUNB = ("histories of 3 (thorough 4) operations (insertion, search, insertion in a session, opening or closing a session, client or server restart, %s) over 2 keywords, one empty, with synchronous and asynchronous search; "
        "histories over one keyword in which any request, reply or tail of a reply stream may be lost; loading of a present, missing or malformed index file of up to 2 keywords with up to 2 documents each, with failing counters and on hosts with %s hardware threads; "
        "loading, and two concurrent calls of one client (inside or outside a session), on every schedule with at most 1 (thorough 2) preemptions; every 64-bit document (32-bit in index files); then a search for every keyword. "
        "Outside: a setup reply lost on the network, a failed counter read during a search, crashes of the server during its setup")
GRPC = "the gRPC model: each call runs the service method of the registered server on the calling thread (client-streaming calls on a thread of their own), delivers messages in order, exactly once, unless the model drops the request, the reply or the tail of a reply stream, in which case the caller gets a non-OK status; messages are generated from the .proto files of the repository"
check("N01", _runner(SOR, []), bounds=RUNB % ("index file loading", "0, 1, 2, 3"), assumptions=[DBMODEL, CRYPTO, GRPC])
check("N02", _runner(DIR, ["DIANA"]), bounds=RUNB % ("index file loading", "0, 1, 2, 3, 256"), assumptions=[DBMODEL, CRYPTO, GRPC])

SOS = SO + ["lib/sophos/sophos_server_runner.cpp"]
DIS = DI + ["lib/diana/server_runner.cpp"]
check("N03", [
    dict(name="sophos", harness="n03.cpp", srcs=SOS, params={"ops": 2}, thorough={"ops": 3}, preempt=-1, split=8),
    dict(name="sophos-setup", harness="n03.cpp", srcs=SOS, params={"ops": 2, "mode": 1}, thorough={"ops": 3}, preempt=-1, split=4),
    dict(name="diana", harness="n03.cpp", srcs=DIS, defs=["DIANA"], params={"ops": 2}, thorough={"ops": 3}, preempt=-1, split=8),
    dict(name="diana-setup", harness="n03.cpp", srcs=DIS, defs=["DIANA"], params={"ops": 2, "mode": 1}, thorough={"ops": 3}, preempt=-1, split=4),
], bounds="any sequence of 2 (thorough 3) of: insertions and bulk insertions of 3 entries (one malformed, or an arbitrary well-formed token last), searches with a changed field, second setups, restarts, on a server holding 2 entries, after a request before the setup; fields of length 0, half, one less, one more, or much more than expected, any content up to 100 bytes; altered, truncated, foreign constrained keys and wrong numbers of matches (Diana); up to 2 (thorough 3) failed setups (invalid key, and every combination of failing directory creation, database, key file opening and writing), with uses and restarts in between. Outside: failures while a failed setup is cleaned up, crashes during a setup, concurrent setups", assumptions=[DBMODEL, CRYPTO, GRPC, FSMODEL])
check("T01", [
    dict(name="histories", harness="t01.cpp", srcs=["lib/utils/logger.cpp"], params={"ops": 3}, thorough={"ops": 4}, preempt=-1, split=8),
    dict(name="benchmark", harness="t01.cpp", srcs=["lib/utils/logger.cpp"], params={"ops": 2, "mode": 2}, thorough={"ops": 4}, preempt=-1, split=8),
    dict(name="threads", harness="t01.cpp", srcs=["lib/utils/logger.cpp"], params={"mode": 1}, preempt={"quick": 2, "thorough": 4}, split=4),
], bounds="any sequence of 3 (thorough 4) of: setting one of two loggers, disabling logging, messages of any level at any level set, setting one of two benchmark files, benchmarks with a call of set_count or stop with any count; 2 (thorough 4) benchmarks with up to 2 such calls and up to 3 items; the application having loggers of the names used, or not; two threads logging, setting loggers or files, or benchmarking, 2 (thorough 4) preemptions. Outside: the text of the records, set_logging_level from several threads", assumptions=["the logging library is a model that registers names, filters by level and synchronises itself", "sequentially consistent atomics"])
