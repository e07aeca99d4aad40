#!/usr/bin/env python3
# Regenerates properties.jsonl (kept as a script so that the list stays readable).
import json, os
P = []
def p(id, title, statement, over, text, why, files, mech, observe=None, state=None):
    d = dict(id=id, title=title, statement=statement,
             quantifier=dict(over=over, text=text), why_tests_cant=why,
             anchors=dict(files=files, mechanism=[dict(name=n, where=w) for n, w in mech]))
    if observe: d["anchors"]["observe_at"] = observe
    if state: d["anchors"]["state"] = [dict(name=n, meaning=m, where=w) for n, m, w in state]
    assert len(title) <= 80, title
    P.append(d)
L = "lib/include/sse/schemes/"

p("G01", "Tethys graph: computed flow is valid and maximum",
  "After a max-flow computation on any Tethys graph, every edge carries between 0 and its capacity, flow is conserved at every vertex, and for every edge the reported flow plus residual capacity equals the capacity. The total flow leaving the source is the maximum possible: no source-to-sink augmenting path remains and the value equals the minimum cut.",
  ["inputs"], "every graph shape (vertices, edges incl. parallel edges, source/sink edges) and every capacity within the stated sizes",
  "tests run eleven fixed graphs with fixed capacities; a wrong residual update or a missed augmenting path shows only for particular capacities/topologies",
  ["lib/tethys/tethys_graph.cpp", L + "tethys/details/tethys_graph.hpp"],
  [("find_source_sink_path / augmenting DFS", "lib/tethys/tethys_graph.cpp"), ("compute_residual_maxflow, transform_residual_to_flow, update_flow", "lib/tethys/tethys_graph.cpp")],
  ["TethysGraph::get_flow", "TethysGraph::get_edge_flow", "TethysGraph::get_residual_flow", "get_edge_capacity"])

p("G02", "Tethys graph: misuse is rejected and leaves the graph unchanged",
  "Adding an edge with an out-of-range endpoint, adding edges after the computation, or reading flow values before it, is always rejected with an exception and never changes the graph. Edge indices returned on insertion always identify the inserted edge, with its exact capacity and endpoints, for the lifetime of the graph.",
  ["inputs", "histories"], "every vertex index / capacity value and every order of construction, computation and query calls up to the stated length",
  "tests never pass out-of-range indices or call operations in the wrong state",
  ["lib/tethys/tethys_graph.cpp", L + "tethys/details/tethys_graph.hpp"],
  [("bounds and state checks in add_edge*/get_*", "lib/tethys/tethys_graph.cpp"), ("EdgePtr / Edge construction", L + "tethys/details/tethys_graph.hpp")],
  ["TethysGraph::add_edge", "add_edge_from_source", "add_edge_to_sink", "get_flow"])

p("G03", "Parallel max-flow equals serial max-flow on every schedule",
  "Computing the maximum flow component by component on a pool of worker threads always terminates, is free of data races, and leaves exactly the flow value and a valid flow that the serial computation yields, whatever the interleaving of the workers.",
  ["schedules", "inputs"], "every interleaving of worker/caller threads at synchronisation points within the stated preemption bound, on every graph within the stated size",
  "the parallel tests observe one arbitrary schedule per run and always the same eleven graphs",
  ["lib/tethys/tethys_graph.cpp", L + "utils/thread_pool.hpp"],
  [("parallel_compute_residual_maxflow, component partition", "lib/tethys/tethys_graph.cpp"), ("ThreadPool", L + "utils/thread_pool.hpp")],
  ["TethysGraph::parallel_compute_residual_maxflow", "get_flow"])

p("A01", "Tethys allocation places every element once and never overfills a bucket",
  "For every set of lists and hash pairs, the allocator assigns each list a number of elements to each of its two candidate buckets and an overflow to the stash whose sum is exactly the list length. The elements assigned to any bucket never exceed the page capacity, and a list is in the stash exactly when it has overflow.",
  ["inputs"], "every assignment of list lengths and candidate buckets within the stated sizes, including colliding candidates, zero-length and page-sized lists",
  "no test in the build exercises the allocator; sampling random lists rarely fills the graph so that every boundary binds",
  ["lib/tethys/tethys_allocator.cpp", L + "tethys/details/tethys_allocator.hpp", "lib/tethys/tethys_graph.cpp"],
  [("insert: edge between the two candidate buckets", "lib/tethys/tethys_allocator.cpp"), ("allocate: overflow edges, stash extraction", "lib/tethys/tethys_allocator.cpp")],
  ["TethysAllocator::allocate", "get_allocation_graph", "stashed lists"])

p("A02", "Tethys allocation stashes as few elements as possible",
  "The total number of elements sent to the stash is the minimum over all ways to place the lists into their candidate buckets without overfilling one. In particular the stash is empty whenever any overflow-free placement exists.",
  ["inputs"], "every set of list lengths and candidate buckets within the stated sizes; minimum taken over all integral placements",
  "optimality needs comparison with every alternative placement; no test computes one",
  ["lib/tethys/tethys_allocator.cpp", "lib/tethys/tethys_graph.cpp"],
  [("max-flow formulation of the allocation", "lib/tethys/tethys_allocator.cpp")],
  ["TethysAllocator::allocate", "stashed lists"])

p("E01", "Tethys bucket encoding round-trips every list, including stashed overflow",
  "Encoding any allocation of lists into the two candidate buckets of each list plus the stash, and decoding both buckets and the stash entry for a key, yields exactly that list's elements, each once, and nothing from any other list. Encoding never writes outside the fixed-size bucket.",
  ["inputs"], "every key, list content, length and split between the two buckets and the stash within the stated sizes, incl. empty parts, several lists per bucket and full buckets",
  "the store tests are not part of the build and use a single random fill that never produces the boundary splits",
  [L + "tethys/encoders/encode_separate.hpp"],
  [("EncodeSeparateEncoder::encode / finish_block / start_block", L + "tethys/encoders/encode_separate.hpp"), ("EncodeSeparateDecoder::decode_buckets / decode_list", L + "tethys/encoders/encode_separate.hpp")],
  ["decode_buckets"])

p("E02", "Encrypted Tethys buckets decrypt to the encoded bucket at their own position",
  "A bucket produced by the encrypting encoder and read back at the same table position decodes to exactly the lists encoded in it, for every content and position. Two buckets at different positions are never encrypted under the same key and nonce.",
  ["inputs"], "every bucket content and every pair of bucket positions within the stated sizes, cipher modelled as an arbitrary keystream per (key, nonce)",
  "tests only see that a handful of buckets decrypt; nonce reuse is invisible to a round-trip test",
  [L + "tethys/encoders/encode_encrypt.hpp"],
  [("EncryptEncoder::start_block/encode/finish_block", L + "tethys/encoders/encode_encrypt.hpp"), ("DecryptDecoder::decode_buckets", L + "tethys/encoders/encode_encrypt.hpp")],
  ["decode_buckets"])

p("S01", "A built Tethys store returns exactly the content of every inserted list",
  "After a store has been built from any set of lists and reopened, looking up an inserted key returns exactly the list's elements, whether they are in either bucket or in the stash, and looking up a key that was not inserted returns nothing that belongs to another list.",
  ["inputs", "histories"], "every set of keys, contents and hash locations within the stated sizes, followed by build, reopen and lookups",
  "the store tests are not built here and check one random database",
  [L + "tethys/tethys_store_builder.hpp", L + "tethys/tethys_store.hpp"],
  [("TethysStoreBuilder::insert_list / build", L + "tethys/tethys_store_builder.hpp"), ("TethysStore::get_list / get_buckets", L + "tethys/tethys_store.hpp")],
  ["TethysStore::get_list"])

p("S02", "Asynchronous Tethys store lookups equal synchronous ones on every schedule",
  "An asynchronous lookup calls its callback exactly once, with the same buckets and list as the synchronous lookup, whatever the order in which the underlying reads complete and whichever threads complete them. A failed or short read is reported through the callback (a null bucket, or nothing but elements of the list) and never crashes or blocks the store.",
  ["schedules", "fault_sequences"], "every completion order/interleaving of the two bucket reads within the preemption bound, and every success/failure combination of them",
  "tests run with whatever completion order the kernel produces and never inject a failing read",
  [L + "tethys/tethys_store.hpp"],
  [("async_get_list / async_get_buckets completion counting", L + "tethys/tethys_store.hpp")],
  ["TethysStore::async_get_list", "async_get_buckets"])

p("S03", "Tethys keyword search returns exactly the indexed documents",
  "For every inverted index, the results decoded by a Tethys client for a keyword are exactly the documents indexed under that keyword, each once, for every list length including empty lists and lists spanning several blocks, and no document is returned for a keyword that is not in the index.",
  ["inputs", "histories"], "every index within the stated number of keywords and list lengths around block boundaries; PRF modelled as an arbitrary injective function",
  "needs every list length relative to the block size (0, 1, k-1, k, k+1, 2k) and every collision pattern of buckets",
  [L + "tethys/tethys_builder.hpp", L + "tethys/tethys_client.hpp", L + "tethys/tethys_server.hpp"],
  [("TethysBuilder::insert_list block splitting", L + "tethys/tethys_builder.hpp"), ("TethysClient::search_request / decode_search_results", L + "tethys/tethys_client.hpp")],
  ["TethysClient::decode_search_results"])

p("V01", "On-disk vector: every pushed element is read back, before and after reopening",
  "Every element appended to an on-disk vector is returned unchanged when read at the index reported at insertion, for any mix of append calls, after commit and after the file is closed and reopened in any access mode. Reads at or beyond the size, and appends to a committed vector, are rejected.",
  ["inputs", "histories"], "every sequence of appends/commit/reopen/reads with arbitrary indices and contents up to the stated length",
  "tests push one value pattern in one order and never read out of range or append after commit",
  [L + "abstractio/awonvm_vector.hpp"],
  [("push_back / async_push_back / get / commit", L + "abstractio/awonvm_vector.hpp"), ("size and commit state", L + "abstractio/awonvm_vector.hpp")],
  ["awonvm_vector::get", "awonvm_vector::push_back", "size"])

p("V02", "On-disk vector: async accesses complete once, with right data, leak-free",
  "An asynchronous read calls its callback exactly once with the element the synchronous read returns, or with no element if the underlying read failed or was short. Every buffer is released exactly once and never while an operation on it is still in flight, on success and on every failure.",
  ["fault_sequences", "schedules", "histories"], "every result (full, short, error) of each underlying I/O and every completion order, up to the stated number of operations",
  "tests never see a failing I/O, and leaks or double frees are not observed",
  [L + "abstractio/awonvm_vector.hpp"],
  [("async_get / async_gets / async_push_back callbacks and buffer ownership", L + "abstractio/awonvm_vector.hpp")],
  ["callback arguments", "buffer ownership"])

p("I01", "Kernel AIO scheduler: one completion per accepted request, no lost wait",
  "Every read or write accepted by the kernel-AIO scheduler has its callback called exactly once, with its own data pointer and the result of its own operation; a rejected request never does. Waiting for completions returns, and returns only when no accepted request is outstanding, and destroying the scheduler neither hangs, leaks nor touches freed memory.",
  ["schedules", "fault_sequences"], "every interleaving of submitters and the notifier, every partial submission/EAGAIN/EINTR/timeout result of the kernel interface, within the stated bounds",
  "tests exercise one undisturbed schedule; the kernel never returns EAGAIN, EINTR or a partial submission in them",
  ["lib/abstractio/linux_aio_scheduler.cpp", "lib/abstractio/linux_aio_scheduler.hpp"],
  [("submit_iocbs / EAGAIN wait", "lib/abstractio/linux_aio_scheduler.cpp"), ("notify_loop, wait_completions", "lib/abstractio/linux_aio_scheduler.cpp")],
  ["callback invocations", "wait_completions"])

p("I02", "Thread-pool I/O scheduler: one completion per request on every schedule",
  "Every read or write submitted to the thread-pool scheduler is executed once at the requested offset and length, and its callback is called exactly once with its data pointer and byte count. Waiting for completions returns exactly when all are done, and the scheduler can be destroyed right after without any thread touching freed memory.",
  ["schedules", "fault_sequences"], "every interleaving of submitter and pool threads at synchronisation points within the preemption bound; arbitrary I/O results",
  "one schedule per test run; a premature return of the wait shows only under a rare preemption",
  ["lib/abstractio/thread_pool_aio_scheduler.cpp", "lib/abstractio/thread_pool_aio_scheduler.hpp"],
  [("running-query counter and condition variable", "lib/abstractio/thread_pool_aio_scheduler.cpp")],
  ["callback invocations", "wait_completions"])

p("W01", "Thread pool runs every accepted task exactly once and shuts down cleanly",
  "Every task accepted by the thread pool runs exactly once and its future delivers the task's result or exception; no task accepted before shutdown is dropped and enqueueing afterwards is rejected. Shutdown and destruction always terminate, for every interleaving of callers and workers.",
  ["schedules"], "every interleaving at synchronisation points within the preemption bound, for every number of workers and tasks within the stated sizes",
  "the pool is only exercised indirectly under one schedule",
  [L + "utils/thread_pool.hpp"],
  [("enqueue / worker loop / join / destructor", L + "utils/thread_pool.hpp")],
  ["future results", "task run count"])

p("R01", "Key-value store wrapper: reads return the last write, failures are reported",
  "A read of any key returns exactly the value most recently written and not since removed, or reports absence; writes, removals and multi-writes affect only their own keys. Whenever the storage engine reports a failure the wrapper reports failure and never returns made-up data.",
  ["inputs", "histories", "fault_sequences"], "every sequence of operations over arbitrary keys/values up to the stated length, with any subset of the engine calls failing",
  "tests check a few fixed keys and never inject a storage failure",
  ["lib/utils/rocksdb_wrapper.cpp", L + "utils/rocksdb_wrapper.hpp"],
  [("RockDBWrapper get/put/remove/flush and templates", L + "utils/rocksdb_wrapper.hpp")],
  ["RockDBWrapper::get", "put", "remove"])

p("R02", "Persistent keyword counters count every increment exactly once",
  "Every increment of a keyword's counter raises the stored value by exactly one, never skipping or repeating a value, across set, removal and reopening; the first increment of an absent keyword stores its default (0 for get_and_increment), and get_and_increment returns the value it stored. Operations on one keyword never change another, and a failed storage operation is reported and leaves the counter unchanged.",
  ["histories", "inputs", "fault_sequences"], "every sequence of counter operations over arbitrary keywords and values up to the stated length with any engine call failing",
  "tests use a fixed list of keywords and a fixed operation order",
  ["lib/utils/rocksdb_wrapper.cpp", L + "utils/rocksdb_wrapper.hpp"],
  [("RocksDBCounter get/increment/get_and_increment/set/remove_key", "lib/utils/rocksdb_wrapper.cpp")],
  ["RocksDBCounter::get", "get_and_increment"])

p("R03", "Persistent lists return every stored element in order",
  "A list stored under a key is returned with exactly its elements in order, for all element values and lengths including empty, until another list replaces it. Lists under different keys never mix, a lookup returns nothing but the stored elements whatever the output list held before, and a failed storage operation is reported.",
  ["inputs", "histories"], "every list content/length and every sequence of put/add/get/remove up to the stated length",
  "tests store three fixed lists",
  [L + "utils/rocksdb_wrapper.hpp", "lib/utils/rocksdb_wrapper.cpp"],
  [("RockDBListStore put/get", L + "utils/rocksdb_wrapper.hpp")],
  ["RockDBListStore::get"])

p("K01", "Map serialisation round-trips and rejects truncated input",
  "Writing any key/list map to a stream and reading it back yields an equal map. Reading a truncated or malformed stream never yields entries that were not written and never reads outside the input.",
  ["inputs"], "every map within the stated sizes and every truncation point of its serialisation",
  "no built test covers it; truncation points are never exercised",
  [L + "abstractio/kv_serializer.hpp"],
  [("KVSerializer::serialize / deserialize_map", L + "abstractio/kv_serializer.hpp")],
  ["deserialize_map"])

p("C01", "Cuckoo insertion never loses, duplicates or misplaces an element",
  "Inserting an element into any valid cuckoo table state keeps every previously stored element stored exactly once, at a location allowed by its own hash, except for at most one element that is handed back as spilled when the search depth is exhausted. The inserted element is then either stored or is the one handed back.",
  ["inputs", "histories"], "one insertion from every valid table state within the stated size (inductive step), hence any insertion history",
  "tests insert one random set far below capacity; eviction chains and depth exhaustion are never reached",
  ["lib/oceanus/cuckoo.cpp", L + "oceanus/details/cuckoo.hpp"],
  [("CuckooAllocator::insert eviction loop", L + "oceanus/details/cuckoo.hpp")],
  ["CuckooAllocator::insert", "table content"])

p("C02", "Cuckoo table lookup returns exactly the inserted value or not-found",
  "After a cuckoo table has been built and committed, looking up an inserted key returns its value, and looking up any other key reports not-found, synchronously and asynchronously alike, even when elements share their hash locations. Empty slots and padding never match a real key's lookup (the all-ones key is reserved as the marker of an empty slot).",
  ["inputs", "histories"], "every set of keys, values and hash locations within the stated sizes",
  "tests look up a few random keys; collisions of both tables and matches with filler slots do not occur",
  [L + "oceanus/cuckoo.hpp", L + "oceanus/details/cuckoo.hpp"],
  [("CuckooBuilder::insert/commit, match_key", L + "oceanus/cuckoo.hpp"), ("CuckooHashTable::get/async_get", L + "oceanus/cuckoo.hpp")],
  ["CuckooHashTable::get", "async_get"])

p("O01", "Oceanus returns exactly the page stored under a key",
  "After an Oceanus database has been built (committed explicitly or by destroying the builder), looking up a key under which a page was stored returns that page's content unchanged, and looking up any other key reports not-found, synchronously (std::out_of_range) and asynchronously (an empty optional) alike; an asynchronous lookup calls its callback exactly once. A page that cannot be read is never reported as a different page. Keys are distinct, different from the all-ones key, and no more than the table can hold.",
  ["inputs", "histories"], "every set of keys and page contents within the stated sizes, for every placement by their hash values",
  "needs all hash placements and colliding keys; the Oceanus test looks up pseudo-random keys and is not built",
  [L + "oceanus/oceanus.hpp", L + "oceanus/cuckoo.hpp", L + "oceanus/types.hpp"],
  [("OceanusBuilder::insert / commit", L + "oceanus/oceanus.hpp"), ("Oceanus::get / async_get", L + "oceanus/oceanus.hpp")],
  ["Oceanus::get", "Oceanus::async_get"])

p("L01", "Pluto search returns exactly the documents of the keyword",
  "For every inverted index, the results decoded by a Pluto client are exactly the documents indexed under the keyword, each once, for every list length relative to the block size, with no filler values, and none for an absent keyword. Building terminates for every index, and a failed read of the table is reported, never a shortened result.",
  ["inputs", "histories"], "every index within the stated number of keywords and list lengths 0..2 blocks+1, for both hash-table back ends",
  "the Pluto test compares sets for one list that contains the filler value, so extra or duplicated entries are invisible",
  [L + "pluto/pluto_builder.hpp", L + "pluto/pluto_server.hpp", L + "pluto/pluto_client.hpp", L + "pluto/types.hpp", L + "pluto/rocksdb_store.hpp", "lib/pluto/rocksdb_store.cpp"],
  [("PlutoBuilder::insert_list full-block split", L + "pluto/pluto_builder.hpp"), ("PlutoServer::search", L + "pluto/pluto_server.hpp")],
  ["PlutoClient::decode_search_results"])

p("F01", "Sophos: a search returns exactly the inserted entries of the keyword",
  "After any sequence of insertions and searches, across client and server restarts, a search for a keyword returns exactly the documents inserted for it so far, each once, and nothing for other keywords. Searches never change later results, every update addresses a fresh server location that no earlier search reveals, and an insertion that could not be counted is reported.",
  ["histories", "inputs"], "every interleaving of insertions/searches/restarts over arbitrary keywords and documents up to the stated length; trapdoor permutation and PRF modelled as arbitrary bijections/injections",
  "the Sophos tests are not built here and run one fixed history",
  ["lib/sophos/sophos_client.cpp", "lib/sophos/sophos_server.cpp", "lib/sophos/sophos_common.cpp"],
  [("SophosClient::insertion_request / search_request", "lib/sophos/sophos_client.cpp"), ("SophosServer::search", "lib/sophos/sophos_server.cpp")],
  ["SophosServer::search"])

p("F02", "Sophos: all server search variants return the same results",
  "The serial, callback, parallel and light-parallel searches return, for the same request and database, the same multiset of documents, for every result count and thread count, without data races, and call a given callback exactly once per result, whatever the number of hardware threads of the host.",
  ["inputs", "schedules"], "every result count and thread count within the stated sizes (incl. fewer results than threads), interleavings within the preemption bound",
  "the partition of the results over threads is only tried for one count and thread number",
  ["lib/sophos/sophos_server.cpp"],
  [("search_callback / search_parallel / search_parallel_light*", "lib/sophos/sophos_server.cpp")],
  ["SophosServer::search*"])

p("D01", "Diana: a search returns exactly the inserted entries of the keyword",
  "After any sequence of insertions (single or bulk) and searches over any keywords, a search returns exactly the entries inserted for the keyword so far, each once, and nothing for other keywords. Searches do not change later results unless removal of results was requested, in which case exactly the returned entries are gone. Every update addresses a fresh location that no earlier search reveals, the reported number of matches is the number of insertions, and an insertion that could not be counted is reported.",
  ["histories", "inputs"], "every interleaving of insert/bulk-insert/search over arbitrary keywords and entries up to the stated length; constrained PRF modelled as an arbitrary injective function",
  "the Diana tests are not built here and run one fixed history",
  [L + "diana/diana_client.hpp", L + "diana/diana_server.hpp", "lib/diana/diana_common.cpp"],
  [("DianaClient::insertion_request / bulk_insertion_request / search_request", L + "diana/diana_client.hpp"), ("DianaServer::search", L + "diana/diana_server.hpp")],
  ["DianaServer::search"])

p("D02", "Diana: all server search variants return the same results",
  "The serial search, the callback search and the parallel searches (result list, result vector, callback, per-thread callback) return the same multiset of entries for the same request and database, for every result count and thread count, without data races.",
  ["inputs", "schedules"], "every result count and thread count within the stated sizes, interleavings within the preemption bound",
  "only one count/thread combination is tried, in a test that is not built here",
  [L + "diana/diana_server.hpp"],
  [("search / search_parallel range partition", L + "diana/diana_server.hpp")],
  ["DianaServer::search*"])

p("J01", "Janus: a search returns exactly the inserted and not deleted documents",
  "After any sequence of insertions, deletions and searches, a search for a keyword returns exactly the documents inserted for it and not deleted since, including those cached by an earlier search. Serial and parallel search agree.",
  ["histories", "inputs"], "every sequence of insert/delete/search over arbitrary keywords and documents (each inserted once) up to the stated length; puncturable encryption modelled by its ideal functionality",
  "the Janus tests are not built and delete at most one document per keyword between two searches",
  ["lib/janus/janus_client.cpp", "lib/janus/janus_server.cpp"],
  [("insertion_request / removal_request / search_request", "lib/janus/janus_client.cpp"), ("JanusServer::search / search_parallel and result cache", "lib/janus/janus_server.cpp")],
  ["JanusServer::search"])

p("J02", "Janus: cached results survive storage, and truncated data is rejected",
  "Every list of cached results is read back exactly as stored, for all contents and lengths. Decoding arbitrary or truncated cache bytes never reads outside the data.",
  ["inputs"], "every list content within the stated length and every truncation of its encoding",
  "no test decodes anything but an intact cache",
  ["lib/janus/janus_server.cpp"],
  [("serialization<cached_result_type>", "lib/janus/janus_server.cpp")],
  ["serialize/deserialize of cached results"])

p("U01", "Byte helpers: masking is an involution, hex rendering is exact and injective",
  "Masking a byte range with a key twice restores it and changes nothing outside the range; hexadecimal rendering yields exactly two digits per byte for every value and container; alignment tests hold exactly for multiples of the alignment.",
  ["inputs"], "every byte content and length within the stated sizes, every alignment and address",
  "only fixed samples are rendered; masking is never tested for all offsets/lengths",
  [L + "utils/utils.hpp", "lib/utils/utils.cpp"],
  [("xor_mask, hex_string, is_aligned", L + "utils/utils.hpp")],
  ["return values"])

p("U02", "File helpers act only on the given path and report every failure",
  "Removing a directory deletes exactly the entries below the given path, children before parents, without following links, entering other file systems or changing the working directory, and reports success only if all of them were removed; directory and file creation/opening helpers report success exactly when the operating system did, and never leak a handle.",
  ["fault_sequences", "inputs"], "every tree within the stated sizes, every order, every failing call with every reason, system calls modelled",
  "tests only create and remove a healthy directory",
  ["lib/utils/utils.cpp"],
  [("remove_directory FTS walk; create_directory, is_file, file_size, open_fd", "lib/utils/utils.cpp")],
  ["return values", "system calls issued"])

p("U03", "Concatenating iterator visits both ranges completely and in order",
  "Iterating over the concatenation of two containers visits every element of the first and then every element of the second exactly once, for all container sizes including empty ones, and compares equal to the end exactly afterwards.",
  ["inputs"], "every pair of container sizes and contents within the stated bounds",
  "the iterator is not covered by any built test; empty containers are never tried",
  [L + "utils/concat_iterator.hpp"],
  [("ConcatIterator increment and comparison", L + "utils/concat_iterator.hpp")],
  ["iteration sequence"])

p("U04", "Optional value wrapper: engaged state and value follow every operation",
  "Through every sequence of construction, assignment, reset, swap and move of optional values, the engaged flag and the contained value are those of a reference model, contained objects are constructed and destroyed exactly once, and reading a disengaged value is rejected.",
  ["histories", "inputs"], "every sequence of operations up to the stated length on trivially and non-trivially copyable payloads",
  "no built test touches the wrapper",
  [L + "utils/optional.hpp"],
  [("optional<T> storage base, assignment, reset, value()", L + "utils/optional.hpp")],
  ["has_value", "value", "payload lifetime counters"])

p("U05", "Synthetic database generator: every document gets its keyword of each class",
  "Generating a synthetic database of any size calls the callback, for every document, exactly once for each fixed-size keyword group and twice for each frequency class, with group keywords holding exactly the advertised number of documents, however many generator threads there are.",
  ["inputs", "schedules"], "every number of documents and generator threads within the stated sizes, every random document index",
  "the statistics test is not built and uses one size and the host's thread count",
  ["lib/utils/db_generator.cpp"],
  [("generation_job / gen_db", "lib/utils/db_generator.cpp")],
  ["callback invocations"])

for _id, _n, _cl, _sv in (("N01", "Sophos", "lib/sophos/sophos_client_runner.cpp", "lib/sophos/sophos_server_runner.cpp"),
                           ("N02", "Diana", "lib/diana/client_runner.cpp", "lib/diana/server_runner.cpp")):
    p(_id, "Remote %s sessions return what was inserted, and report what was not" % _n,
      "A search through the %s client and server runners returns exactly the entries inserted for the keyword, singly, in update sessions or from index files, after any sequence of calls and client or server restarts, with synchronous and asynchronous search, concurrent calls and any number of hardware threads. Insertions that could not be counted and index files that could not be loaded are reported to the caller; requests, replies or results lost on the network never make a later search return anything else than the inserted entries." % _n,
      ["histories", "schedules", "faults", "inputs"], "every sequence of runner calls up to the stated length, every pattern of lost messages and failing counters, every schedule within the preemption bound, every document",
      "runner tests are not built here, need a network, and use one client and fixed entries",
      [_cl, _sv],
      [("client runner: insertion, sessions, search, index loading", _cl), ("gRPC service implementation", _sv)],
      ["runner results, exceptions and return values"])

p("N03", "Servers survive malformed and untimely requests, and failed setups",
  "The Sophos and Diana services answer a request whose fields have any other size or content than expected, or that comes before the setup or repeats it, with an error status: without any memory error or termination, returning nothing, and without losing or changing stored entries. A setup that fails for any reason is reported, leaves nothing behind, and the server can be restarted or set up afterwards; one that succeeds survives a restart.",
  ["inputs", "histories", "faults"], "every size class and content of every message field, every sequence of requests up to the stated length, every combination of failures during a setup",
  "runner tests only send well-formed requests through the library's own client and never make a setup fail",
  ["lib/sophos/sophos_server_runner.cpp", "lib/diana/server_runner.cpp"],
  [("message_to_request and the service methods", "lib/sophos/sophos_server_runner.cpp"), ("message_to_request, setup", "lib/diana/server_runner.cpp")],
  ["status and replies of every request", "server directory after a failed setup"])

p("T01", "Log messages and benchmark records go where they were last directed",
  "The library always has a logger: the one last set, one that discards everything while logging is disabled, or a console logger of its own (or the application's of the same name) by default; it logs exactly the messages of the level last set. Each benchmark writes one record to the benchmark file last set, none if there is none, with its number of items and the time until it was first stopped, in total and per item. Setting loggers or files any number of times, or from several threads while others log, neither fails nor loses a message.",
  ["inputs", "histories", "schedules"], "every level, item count and sequence of settings, messages and benchmarks up to the stated length, every schedule of two threads",
  "the tests log to one logger and never read what was recorded",
  ["lib/utils/logger.cpp"],
  [("set_logger, logger, Benchmark", "lib/utils/logger.cpp")],
  ["messages received by the loggers", "records of benchmarks"])

out = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "properties.jsonl")
with open(out, "w") as f:
    for d in P: f.write(json.dumps(d) + "\n")
print(len(P), "properties")
