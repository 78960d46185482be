#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (source of truth for the property texts)."""
import json, os
P=[]
def prop(id,title,statement,over,text,why,files,mech,state=(),observe=("client responses on ASCII/binary connections",),hook=None):
    assert len(title)<=80,title
    P.append(dict(id=id,title=title,statement=statement,
      quantifier=dict(over=over,text=text),why_tests_cant=why,
      anchors=dict(files=files,
        state=[dict(name=a,meaning=b,where=c) for a,b,c in state],
        mechanism=[dict(name=a,where=b) for a,b in mech],
        observe_at=list(observe),hook_needed=hook)))

D="engines/default/"
prop("C01","Key-value commands are linearizable",
 "Every history of key-value commands (get, gets, multi-key get, set, add, replace, append, prepend, cas, delete, incr, decr), issued concurrently by any mix of ASCII and binary protocol clients, is linearizable per key against a plain map: each acknowledged command takes effect exactly once between its request and its response, and every read returns the complete value, flags and length written by the latest effective command. A command answered with an error leaves the stored data unchanged. In a multi-key get every requested key is answered as an individual read.",
 ["schedules","histories","inputs"],
 "all interleavings of worker threads, connection events and clients; all command mixes, value sizes and key sets on the two protocols",
 "t/*.t run one client at a time and check fixed scripts; no test controls the interleaving of worker threads or checks a concurrent history.",
 ["memcached.c","thread.c",D+"items.c",D+"item_base.c",D+"assoc.c",D+"default_engine.c"],
 [("one engine-wide lock around every item operation",D+"items.c"),("reference counts keep an item being sent alive",D+"item_base.c"),("connection state machine",'memcached.c')],
 [("hash table and item links","which item a key maps to",D+"assoc.c")])
prop("C02","CAS tokens and counters give atomic, exactly-once updates",
 "Of any number of clients racing to update a key with the same CAS token, exactly one succeeds; a token obtained by a read stays valid until, and only until, the key is next modified, deleted or replaced, and no two successive versions of a key ever carry the same token. Every acknowledged incr and decr is applied exactly once, with 64-bit wraparound on incr and clamping at zero on decr, so that the final counter equals the initial value plus all acknowledged deltas.",
 ["schedules","histories"],
 "all races between clients performing read-modify-write loops on shared keys, on both protocols",
 "t/cas.t and t/incrdecr.t are single-threaded scripts; lost updates appear only under interleavings.",
 ["memcached.c",D+"items.c",D+"item_base.c"],
 [("token comparison and store under one lock",D+"items.c"),("token generator",D+"item_base.c")])
prop("C03","List collections behave as bounded double-ended sequences",
 "List commands (create, insert by index, get and delete by index or range, in any direction, with and without drop) are linearizable against a sequence: elements keep their order, indices count from either end, ranges return exactly the elements between the two indices in the direction asked. Element count never exceeds the item's maximum: overflow is refused, or trims the head or tail, exactly as the item's overflow action says. A list emptied with drop disappears, otherwise it stays as an empty list.",
 ["schedules","histories","inputs"],
 "all command sequences over positive/negative indices, ranges, overflow actions and maximum counts, interleaved across clients",
 "t/coll_lop_*.t check a few dozen fixed sequences single-threaded.",
 [D+"coll_list.c","memcached.c"],[("linked elements with head/tail trimming",D+"coll_list.c")])
prop("C04","Set collections behave as bounded sets",
 "Set commands (create, insert, delete, exist, get with count, delete and drop options) are linearizable against a mathematical set of byte strings with a maximum cardinality: duplicates are refused, membership answers are exact, and a get returns distinct current members, all of them when count is zero or not smaller than the cardinality. A get with delete returns exactly the members it removes, each element being handed to one client only.",
 ["schedules","histories","inputs"],
 "all command sequences and interleavings, including random partial gets with delete racing each other",
 "t/coll_sop_*.t check fixed sequences single-threaded.",
 [D+"coll_set.c","memcached.c"],[("hash tree of elements",D+"coll_set.c")])
prop("C05","Map collections behave as bounded field-to-value maps",
 "Map commands (create, insert, upsert, update, delete, get of listed or all fields, with delete and drop options) are linearizable against a map from field name to value with a maximum size: a field has at most one value, an insert of an existing field is refused, an update of a missing field is refused, and get or delete of listed fields touches exactly those. A value is always the one last written for its field.",
 ["schedules","histories","inputs"],
 "all command sequences and interleavings over field sets, replaced values of other sizes and size limits",
 "t/coll_mop_*.t check fixed sequences single-threaded.",
 [D+"coll_map.c","memcached.c"],[("hash tree of fields",D+"coll_map.c")])
prop("C06","B+tree collections behave as bounded ordered maps",
 "B+tree commands (create, insert, upsert, update, delete, get, count, incr, decr, position, get-by-position, position-with-get) are linearizable against an ordered map with unique numeric or byte-array bkeys, element flags and a maximum count and key range: ranges in either direction, flag filters with bitwise and membership compares, offsets and counts return exactly the matching elements in bkey order. Overflow is refused or trims the smallest or largest element exactly as the overflow action says, and trimming is reported to range queries that reach the trimmed region.",
 ["schedules","histories","inputs"],
 "all command sequences, range shapes, filters, bkey types, tree sizes that split and merge nodes, and interleavings",
 "t/coll_bop_*.t check fixed, mostly small trees single-threaded; node splits, merges and trimming are reached at few points.",
 [D+"coll_btree.c","memcached.c"],[("balanced tree with per-node element counts",D+"coll_btree.c"),("element flag filter",D+"coll_btree.c")])
prop("C07","Multi-key b+tree queries equal the merge of the single trees",
 "A multi-get over several b+trees returns, for every listed key, exactly what the single-key query on that tree would return at some instant of the request, in request order. A sort-merge get returns the globally sorted merge of the matching elements of all listed trees, duplicates flagged or removed as asked, cut at offset and count, together with exactly the missed and trimmed keys.",
 ["schedules","histories","inputs"],
 "all key lists, ranges, filters, duplicates across trees, missing, trimmed and out-of-range trees, while other clients modify the trees",
 "t/coll_bop_mget*.t and smget*.t use fixed tree contents and no concurrent writer.",
 [D+"coll_btree.c",D+"items.c","memcached.c"],[("scan heap over the trees under one lock",D+"coll_btree.c")])
prop("C08","Each request gets its own complete response, in order",
 "For any byte stream of requests on a connection, the response stream depends only on the sequence of requests, not on how TCP segments, delays or pauses it in either direction: each request is answered by exactly one well-formed response in request order, noreply requests and quiet binary requests by none, and a command pipeline by one response listing each command's result. A malformed, oversized or refused request produces its error without shifting the boundary of any later request.",
 ["inputs","schedules","fault_sequences"],
 "all segmentations of the request stream, all short writes and stalls of the response stream, all mixes of good and bad requests, pipelines and noreply",
 "Tests write a request in one piece and read a response in one piece on an idle loopback socket.",
 ["memcached.c","thread.c","mc_util.c"],[("resumable connection state machine",'memcached.c'),("large-value memory blocks and token buffers",'mc_util.c')])
prop("C09","A failing client connection harms nobody else and leaks nothing",
 "Clients that disconnect abruptly, stall or are reset at any point of a request or response, and connection attempts beyond the limit or failing for lack of descriptors, never change the results seen by other clients or crash the server. Once they are gone, every resource they held is released: connection and descriptor counts return to their baseline, item references and memory blocks are returned, and new connections are accepted and served.",
 ["schedules","fault_sequences","histories"],
 "all points of disconnection, reset, stall and descriptor exhaustion, interleaved with other clients' work",
 "t/maxconns.t and t/issue_*.t cover a handful of points; none cuts a connection at an arbitrary byte while other clients run.",
 ["memcached.c","thread.c"],[("connection close path releases references and buffers",'memcached.c'),("listen socket disabling at the connection limit",'memcached.c')],
 observe=("responses of other clients","stats curr_connections","descriptors open in the simulated kernel","memory left allocated"))
prop("C10","Items expire at their time, and only then",
 "An item with an expiration time is served with unchanged content until that time and never from that time on (within the one-second clock granularity), whether the time was given as relative seconds, absolute time, at store or through attribute changes; an item without one, or marked sticky, does not expire. Expired items act as absent for every command and are counted and reclaimed as such, and the guarantee holds under any delay of threads and timers.",
 ["schedules","inputs","histories"],
 "all expiration encodings, all item types, all orders of clock ticks, accesses and attribute changes",
 "t/expirations.t sleeps a few real seconds for a few scripted items.",
 ["memcached.c",D+"item_base.c",D+"items.c"],[("validity test on every lookup",D+"item_base.c"),("one-second clock",'memcached.c')])
prop("C11","Flush removes exactly what it should, at the time it should",
 "After flush_all or flush_prefix is acknowledged, no item (of that prefix) stored before it is ever served again, while items stored after it, and items of other prefixes, are unaffected. With a delay the items stay readable until the delay elapses and everything stored before that instant disappears then.",
 ["schedules","histories","inputs"],
 "all interleavings of flushes with stores on all prefix depths, item types and delays",
 "t/flush-all.t and t/flush-prefix.t script single-client sequences with real sleeps.",
 [D+"items.c",D+"item_base.c",D+"prefix.c"],[("oldest-live stamps for the cache and for each prefix",D+"item_base.c")])
prop("C12","Memory pressure loses whole items, never integrity or the limit",
 "When the memory limit is reached the server evicts whole unreferenced items or refuses the store; it never returns a wrong, mixed or truncated value, never evicts sticky items, and a refused store leaves the prior item or removes it but never corrupts it. With eviction disabled nothing ever disappears and stores are refused with an out-of-memory error until memory is freed. Memory held for items never exceeds the configured limit, and space of deleted or expired items can be reused.",
 ["schedules","histories","configurations"],
 "all allocation patterns of item types and sizes, memory limits, sticky ratios, with and without eviction, under concurrency",
 "Tests fill a 64MB cache a few times with one item size.",
 [D+"slabs.c",D+"items.c",D+"item_base.c",D+"mem_pool.c"],[("LRU eviction and small-memory allocator",D+"slabs.c"),("background reclaim",D+"item_base.c")])
prop("C13","Statistics equal what actually happened",
 "At every quiescent point the counters reported by stats (per command hits, misses and errors, current items, total items, connections), by stats detail per prefix, and by prefix item counts equal exactly what the sequence of acknowledged commands implies. When everything has been deleted, item counts and sizes are zero and prefixes without items disappear.",
 ["schedules","histories"],
 "all command mixes over all item types and prefixes executed by racing threads",
 "t/stats*.t check a few counters after scripted single-client commands.",
 ["memcached.c","stats_prefix.c","thread.c",D+"prefix.c",D+"item_base.c"],[("per-thread counters summed on demand",'thread.c'),("prefix accounting",D+"prefix.c")],
 observe=("stats, stats prefixes, stats detail output",))
prop("C14","Scans visit every stable key and table growth loses none",
 "Every key present during the whole of a complete key scan (or prefix scan) is reported by it at least once with its right type, and every reported key existed and matched the pattern at some time during the scan, for any page size and with concurrent inserts, deletes and hash-table growth. Growth of the table, at any point of its incremental migration, makes no key unreachable, duplicated or resurrected.",
 ["schedules","histories"],
 "all interleavings of scan pages with mutations and with the table expansion thread",
 "t/scan*.t scan a table that nobody modifies; expansion is never raced.",
 [D+"assoc.c",D+"items.c",D+"prefix.c","memcached.c"],[("incremental bucket expansion with scan cursors",D+"assoc.c")])
prop("C15","Failing allocations and system calls never corrupt or kill the server",
 "If any memory allocation or non-disk system call fails at any point while requests are served, the request concerned gets an out-of-memory or server error or its connection is closed; the server neither crashes nor hangs nor leaks, and stored data, later requests and other connections behave as if that command had either not run or fully run.",
 ["fault_sequences","schedules"],
 "failure of any single allocation or of random bursts of them, at every point of request processing",
 "No test makes an allocation fail.",
 ["memcached.c","thread.c","mc_util.c","cache.c",D+"items.c"],[("NULL checks with error replies on each path",'memcached.c')])
prop("C16","Synchronously logged updates survive any crash",
 "With persistence in synchronous logging mode, after a crash at any instant (process kill or power loss that drops or tears unsynced disk writes) and restart, the store equals a state reachable by linearizing all acknowledged commands, in which each unacknowledged command took full effect or none. This covers all item types, attributes, flushes and expirations, several crashes in a row including during recovery, and writes made after a recovery.",
 ["crash_points","schedules","histories","fault_sequences"],
 "all crash instants, all subsets and tearings of unsynced writes, all histories, repeated crashes",
 "Persistence is not even compiled in the tested build; no test restarts a server.",
 [D+"cmdlogmgr.c",D+"cmdlogbuf.c",D+"cmdlogfile.c",D+"cmdlogrec.c",D+"item_clog.c"],[("log buffer, flush thread and group commit before the response",D+"cmdlogmgr.c"),("log replay",D+"cmdlogfile.c")],
 observe=("client responses before and after restart",))
prop("C17","Asynchronous logging loses at most a suffix",
 "With persistence in asynchronous logging mode, after a crash the recovered store equals the result of a prefix of the linearized history of updates: updates are never reordered, partly applied or dropped from the middle. An orderly shutdown loses nothing.",
 ["crash_points","schedules","histories"],
 "all crash instants and histories, orderly shutdown at any time",
 "Persistence is not compiled in the tested build.",
 [D+"cmdlogmgr.c",D+"cmdlogbuf.c",D+"cmdlogfile.c"],[("background flush and final flush",D+"cmdlogmgr.c")],
 observe=("client responses before and after restart",))
prop("C18","Checkpoints are atomic and disk errors lose nothing acknowledged",
 "Checkpoints taken while clients write, crashes at any instant of a checkpoint, and disk errors while one is taken never lose or resurrect data: the state recovered from the latest complete snapshot and its log equals the acknowledged history, an incomplete checkpoint is ignored, and a failed one leaves the previous files in use. Obsolete files are removed, the needed ones never.",
 ["crash_points","fault_sequences","schedules","histories"],
 "all interleavings of the checkpoint thread with writers, all crash instants, failures of open, write, fsync, rename and unlink during checkpoints",
 "Persistence is not compiled in the tested build.",
 [D+"checkpoint.c",D+"chkpt_snapshot.c",D+"cmdlogbuf.c",D+"cmdlogfile.c"],[("snapshot scan with double logging and file switch",D+"checkpoint.c")],
 observe=("client responses before and after restart","files on the simulated disk"))
prop("C19","A cluster node owns exactly the ring's keys and leaves when it must",
 "A node joined to a cluster registers itself, follows every membership change the coordination service reports, and its idea of which node owns a key equals the documented consistent-hash ring over the current membership, whatever the order and timing of notifications. When its session expires, or its registration is lost, it stops serving rather than continue outside the cluster; transient disconnections do not stop it.",
 ["fault_sequences","schedules","inputs"],
 "all membership lists and change sequences, lost and late notifications, session expiry, errors and timeouts of each coordination call",
 "The ZooKeeper integration is only syntax-checked here; no test runs it.",
 ["arcus_zk.c","cluster_config.c"],[("state machine thread driven by watches",'arcus_zk.c'),("sorted hash ring",'cluster_config.c')],
 observe=("znodes created at the simulated service","cluster key-ownership answers","process exit"))
prop("C20","Heartbeat detects a hung node and spares a slow one",
 "A node whose service stops answering its own heartbeat for longer than the configured failure limit withdraws from the cluster and stops, within a bounded time, and a node that answers within the limits is never stopped by its heartbeat, whatever the scheduling delays below them.",
 ["schedules","fault_sequences"],
 "all stall lengths and positions of worker threads and coordination calls relative to heartbeat settings",
 "No test runs the heartbeat.",
 ["arcus_hb.c","arcus_zk.c"],[("heartbeat thread with accumulated timeouts",'arcus_hb.c')],
 observe=("process exit","znodes at the simulated service"))
prop("C21","Unauthenticated clients get no service when authentication is on",
 "With authentication required, no data or administration command on a connection has any effect or returns any data before that connection has completed a successful authentication with valid credentials, and afterwards only commands within the granted authorities run. Failed, interleaved, repeated or abandoned authentication exchanges never grant access to this or another connection.",
 ["inputs","histories","schedules"],
 "all orders of authentication steps and commands over many connections, on both protocols, wrong credentials, wrong mechanisms, reused connections",
 "t/binary-sasl.t covers a few binary scripts on one connection.",
 ["memcached.c","sasl_defs.c","sasl_auxprop.c"],[("per-connection authenticated flag and authority checks",'memcached.c')])
prop("C22","Diagnostic recording is exact and does not disturb service",
 "Command logging and long-query detection, started, queried and stopped at any time by any client, record exactly the commands executed while they ran (within their stated size bounds), end by themselves at their limits, and never change, delay forever or lose a response of any command.",
 ["schedules","histories","fault_sequences"],
 "all interleavings of start, stop, status and stat requests with commands, including failing log files",
 "t/cmdlog*.t and t/lqdetect*.t start and stop once with one client.",
 ["cmdlog.c","lqdetect.c","memcached.c"],[("ring buffer with a flush thread",'cmdlog.c'),("bounded buffers per command type",'lqdetect.c')],
 observe=("client responses","the command log file on the simulated disk","lqdetect show output"))
prop("C23","Every request is answered and shutdown always completes",
 "Under any schedule of threads, once faults stop, every pending request on a live connection is answered within a bounded number of steps and idle background work (table growth, collection deletion, reclaim, scrubbing, log flushing) reaches completion. An orderly shutdown request terminates the process in bounded time from any state, without crash, deadlock or lost persistent data.",
 ["schedules","fault_sequences"],
 "all thread interleavings including stalled and unfair ones; shutdown at any instant",
 "Tests would notice only a hang that happens on the few schedules a loaded machine produces.",
 ["thread.c","memcached.c",D+"assoc.c",D+"item_base.c",D+"cmdlogmgr.c",D+"checkpoint.c"],[("worker notification pipes, condition variables and stop flags",'thread.c')],
 observe=("responses","process termination"))
prop("C24","Item attributes are reported and applied exactly",
 "Attribute reads return the type, flags, expiration, counts, limits, bkey range and trim state that the history of commands implies, for every item type, and attribute writes change exactly the named attributes, take effect for all later commands atomically, or are refused as a whole with nothing changed. An unreadable collection yields no elements until made readable.",
 ["histories","schedules","inputs"],
 "all attribute combinations, valid and invalid, on all item types, racing with other commands",
 "t/attr*.t check fixed sequences single-threaded.",
 [D+"items.c",D+"coll_btree.c","memcached.c"],[("attribute get and set under one lock",D+"items.c")])
json_path=os.path.join(os.path.dirname(os.path.abspath(__file__)),"..","properties.jsonl")
with open(json_path,"w") as f:
    for p in P: f.write(json.dumps(p)+"\n")
print(len(P))
