#!/usr/bin/env python3
# Writes MANIFEST.json from properties.jsonl.
import json, os
os.chdir(os.path.join(os.path.dirname(__file__), ".."))
NA = {
 "C20": "A pure function of its arguments: no schedule, clock, I/O, fault or second party can change what the hash, WOTS+, tree and encoding functions compute, so simulation has nothing to decide beyond what C06 already compares with the reference for the parameters its runs use.",
 "C21": "A fixed table and pure conversions without state, concurrency, I/O or faults: there is no schedule or fault for a simulator to choose.",
 "C22": "Encoding and decoding are pure functions of one value; the parts that depend on the environment (damage in transit, streams that fail) are C12 and C13.",
 "C23": "A cryptographic assumption about all adversaries; no search over schedules or faults can decide it.",
}
D = {
 "C01": "every signature any process ever got from a key is recorded with its index, across concurrent signers, crashes, restarts and I/O faults; an index seen with two messages is a violation",
 "C02": "process kills and power losses at arbitrary points (only what was synced survives, in the order the file system model allows); every index handed out before must be spent after",
 "C03": "failing, short and torn writes, failed syncs and renames, full disks during bookkeeping, followed by restarts; no index may be used twice, and a failed step must be reported",
 "C04": "crashes and faults while a key is made or replaced; an acknowledged key must load and be exactly that key, and no mixture may appear",
 "C05": "borrowing, closing and crashing in all orders against a model of the numbers used, borrowed and lost",
 "C06": "every signature returned in a run is compared byte by byte with an independent reference implementation",
 "C07": "the cache file is removed, truncated, damaged, made stale or swapped between and during sessions; keys must still load and sign correctly",
 "C08": "simulated processes open the same key concurrently, with stale locks, crashes and reused process numbers; at most one may have it",
 "C09": "runs with crashes, faults and slow tasks must finish within bounded steps without deadlock or panic, and work again once the faults stop",
 "C10": "the cache's contents are compared with the subtrees the key can still use after every quiet point",
 "C11": "concurrent calls under simulated schedules in a race detector build: only the library's own synchronisation orders accesses",
 "C12": "signatures and keys damaged as in transit or at rest in running systems are verified or loaded; they must be refused without a panic",
 "C13": "messages arrive through readers that deliver short, empty and failing reads; results must depend on the bytes only",
 "C14": "entropy sources that fail or come up short, and concurrent generation; keys must come from this call's entropy or not exist",
 "C15": "a caller's own key store, with its own faults and memory, records every call made to it and checks them against the contract",
 "C16": "keys driven to and past their last signature by concurrent clients, across restarts and borrowing",
 "C17": "sessions alternate between simulated machines with different page sizes and cache formats",
 "C18": "the recorded history of concurrent calls on a key is checked for linearizability against a small model",
 "C19": "every file the library makes is checked, at every step of every run, for its mode and for secrets in the wrong place",
 "C24": "the built-in store is driven directly by random call sequences with I/O errors, crashes, power losses and changing page sizes, and every result is compared with a model of its documented interface",
 "C25": "at the end of every simulated process that closed its keys, with faults on all paths before, the simulator's own tables of open files, mappings and goroutines must be empty",
 "C26": "two to four keys, some from one context, used at once by several clients and processes with faults confined to one of them; every other key must behave exactly as if alone",
 "C27": "at rest the bottom subtree after the current one, and those above it, must be in the cache once precomputation is enabled; background work is then stalled by the scheduler, and signing with all subtrees at hand must take no longer than usual",
}
TRUST = " Seeded search, not exhaustive. Trusts the simulated file system, scheduler and processes, the source rewriter that puts the seams in, and the reference implementation; interleavings are sequentially consistent, between statements."
props = [json.loads(l) for l in open("properties.jsonl")]
m = {"version": 1, "setup_cmd": "./setup.sh", "checks": [], "not_applicable": [],
 "notes": "No hooks in /repo: tools/vsim rewrites a copy of the current sources (imports of os, sync, time, mmap, rand become simulated ones; preemption points between statements) and builds the simulator from it on every run. replay.sh FILE repeats a violation. Known and repaired defects: KNOWN_FINDINGS."}
for p in props:
    i = p["id"]
    if i in NA:
        m["not_applicable"].append({"property": i, "reason": NA[i]})
        continue
    t = "deterministic simulation with fault injection: seeded search over schedules and faults"
    if i == "C11": t += ", judged by the race detector"
    if i == "C18": t += ", linearizability of the recorded history"
    m["checks"].append({"property": i, "quick_cmd": "./check.sh %s quick" % i, "thorough_cmd": "./check.sh %s thorough" % i,
      "technique": t, "level": "exploration", "level_note": D[i][0].upper() + D[i][1:] + "." + TRUST})
json.dump(m, open("MANIFEST.json", "w"), indent=1)
open("MANIFEST.json", "a").write("\n")
