#!/usr/bin/env python3
"""writes DESIGN.md from tools/design.head.md, the table below, and the planted bugs' meta.json (seeded/CAUGHT lists the outcome of tools/seedtest.py)"""
import glob, json, os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
N = {
"Q01": ("Queue", "q_queue.cc, scheduled", "exhaustive model of producers/consumers/resize/close/interrupt; every 'blocked call / call that wakes it' pair of the graph run under the scheduler; random + DFS schedules, histories checked for linearizability"),
"T01": ("Pool, PoolMC", "t_pool.cc, scheduled", "PoolMC (action style, liveness as no-stuck) exhausted; scenarios push/wait/resize/destroy from several threads, recorded start/end of every task against Pool"),
"R01": ("ProdCons", "t_pipe.cc, scheduled", "slot protocol with failing producer/consumer; every run's produce/consume calls and the slot used"),
"A01": ("Async", "t_pipe.cc, scheduled", "buffered, over-size, failing and short writes, flush, close, seek"),
"A02": ("Transfer", "t_pipe.cc, scheduled", "saveInto/copyTo (plain, size-limited, double buffer, MoverTransfer-like restarts) with short reads/writes, restarts and errors"),
"F01": ("FPool", "t_fpool.cc, scheduled", "checkout/checkin/remove/resize by threads over fewer slots than paths"),
"K01": ("Lru, Exp", "s_cont.cc", "all transitions over 3 keys / capacity 2; virtual time for the expiring cache"),
"O01": ("DMap, DSet, TrieM, Circ, Recyc, Bloom", "s_cont.cc", "DenseMap, DenseSet, Trie, CircularBuffer, Recycler, BloomFilter, ..."),
"X01": ("Txn", "t_txn.cc + vproc.cc", "every crash point of every operation (N-th file-system call), recovery in a fresh process; concurrent processes for identifiers"),
"X02": ("CMgr", "t_cmgr.cc + vproc.cc", "concurrent processes and threads under the cross-process scheduler, crash points in creation and publication, eviction order"),
"L01": ("Locks", "t_locks.cc + vproc.cc", "Mutex, RWLock, Condition, Semaphore, FileLock, SharedMutex, Once/ThreadSingleton/Counted across threads and processes"),
"M01": ("FamList, FamListC", "s_fam.cc, t_fam.cc, scheduled on the FAM mock", "sequential histories; concurrent insertions and readers; concurrent removals one scenario each (known findings)"),
"M02": ("FamMap", "s_fam.cc, t_fam.cc, scheduled on the FAM mock", "the same for the hash map, keys colliding in buckets; two maps, merge, reopen, clear"),
"H01": ("ReadH", "s_io.cc", "a handle is a cursor over bytes, for every composition (file, memory, part, multi, buffered, peek, seekable, tee, ..., nested): read/seek/skip/position/size/rewind/reopen"),
"H02": ("WriteH", "s_io.cc", "writes through compositions to targets that accept only so many bytes"),
"H03": ("Cursor", "t_pooled.cc, scheduled", "pooled readers: each its own cursor"),
"B01": ("BTreeM", "s_btree.cc", "map semantics; process death (descriptors closed without flush) leaves one of the states since the last flush; three page/key sizes; locks held seen from another process"),
"S01": ("StreamM", "s_stream.cc", "every type over every carrier; cut at every byte; objects nested; streams refusing space; misread types"),
"P01": ("PathM, PathLex, FsM", "s_path.cc", "lexical functions against a definition by places; file-system operations in a scratch tree owned by the harness (destructive calls stay below it)"),
"V01": ("ValM, ValTree, CfgM", "s_value.cc", "several Values sharing subtrees: aliasing, order (total, antisymmetric), conversions; configurations by dotted names"),
"J01": ("JsonM, JsonText", "s_json.cc", "grammar of JSON as the specification: generated and mutated texts, values printed and re-read; YAML where it coincides"),
"D02": ("TimeM", "s_types.cc", "calendar defined by counting days; every boundary date, arithmetic, formats, second arithmetic"),
"N02": ("FracM", "s_types.cc", "rationals in lowest terms"),
"N03": ("LinM, TenM", "s_lin.cc", "matrices as sequences of rows; several matrices and buffers at once so that aliasing shows; products by both backends"),
"G01": ("KdM", "s_kd.cc", "the multiset of points; answers compared as multisets of squared distances; memory and mapped trees"),
"C02": ("RecM", "s_codec.cc", "writer as a map; files as sequences of records; damage (bit flips, overwritten bytes/sectors, cuts) and every prefix of the writes of a record, partial writes included"),
"Q02": ("SqlM", "s_sql.cc", "three-valued evaluation of expressions over the product of the tables; groups, DISTINCT, ORDER BY; each statement executed three times; columns that move and widen between rows"),
"E01": ("LogM", "s_log.cc", "targets as trees (stream, file, callback, tee, wrapper, shared ones); text run-length encoded so that long lines are cheap"),
"U01": ("EncM", "s_enc.cc", "bits and sequences by definition; the clock of the RLE deadline is virtual; buffers end at a guard page"),
"U02": ("DigestM", "s_enc.cc", "a digest stands for its bytes; the check maps them with the definitions of the algorithms (Python's hashlib and own MD4, xxh64)"),
}
def main():
    pr = {json.loads(l)["id"]: json.loads(l) for l in open(V + "/properties.jsonl")}
    ev = {}
    for p in pr:
        try:
            ev[p] = json.load(open(V + "/evidence/%s.json" % p))
        except Exception:
            ev[p] = {}
    t = ["| id | property | specification | harness | what is explored |", "|---|---|---|---|---|"]
    for p in pr:
        n = N.get(p, ("", "", ""))
        t.append("| %s | %s | %s | %s | %s |" % (p, pr[p]["title"], n[0], n[1], n[2]))
    s = ["| bug | check that catches it | what breaks | what it needs |", "|---|---|---|---|"]
    for d in sorted(glob.glob(V + "/seeded/*/meta.json")):
        m = json.load(open(d))
        i = os.path.basename(os.path.dirname(d))
        s.append("| %s | %s | %s | %s |" % (i, m["property"], m["what_it_breaks"].replace("|", "/"), m["needs"].replace("|", "/")))
    h = open(V + "/tools/design.head.md").read()
    open(V + "/DESIGN.md", "w").write(h.replace("@@TABLE@@", "\n".join(t)).replace("@@SEEDS@@", "\n".join(s)))
main()
