#!/usr/bin/env python3
"""Writes checks.json (what check.py runs) and MANIFEST.json from one table."""
import json, os
HERE = os.path.dirname(os.path.abspath(__file__))
SEQ = ["seq-debug", "seq-release"]
A = ["bounded to the configurations, key counts, weights and operations listed under engines[].jobs",
     "states are merged by the canonical text of the complete internal state; hits/misses counters, slot numbers and hash table layout are abstracted"]
B = ["bounded to the thread programs and preemption bound listed under engines[].jobs",
     "sequentially consistent interleavings of lock operations, atomics, park/unpark and wakers; weak memory orderings are not modelled",
     "the crate's lock, atomic, park and clock primitives are replaced by scheduler-driven ones (cfg quick_cache_mc)"]
C = ["undefined behaviour is what the debug checks of the standard library and Miri detect; aliasing is judged undefined only if both stacked and tree borrows say so",
     "single-threaded histories; the crate has no unsafe code that is shared between threads without its lock"]
MC = set("C16 C17 C20 C21 C22 C23 C24 C25 C26 C27 C28".split()) if os.path.isdir(os.path.join(HERE, "harness", "mc")) else set()
SEQP = set("C%02d" % i for i in list(range(1, 21)) + [25, 28])
conf, checks = {}, []
for l in open(os.path.join(HERE, "properties.jsonl")):
    p = json.loads(l)["id"]
    eng, ass, tech = [], [], []
    if p in SEQP:
        eng += SEQ; ass += A
        tech.append("explicit-state search over operation histories of the real cache, to a fixpoint")
    if p in MC:
        eng += ["mc"]; ass += B
        tech.append("stateless model checking of all interleavings of the real code under a controlled scheduler")
    if p == "C29":
        eng = ["seq-debug", "miri"]; ass = A + C
        tech = ["explicit-state search over operation histories of the real cache with checked unsafe preconditions", "interpretation, under Miri, of walks through every transition of closed state graphs"]
    if not eng:
        continue
    if p == "C16":
        eng.remove("seq-release")  # no statistics in that build
    conf[p] = {"engines": eng, "quick": {"seq-debug": 150, "seq-release": 120, "mc": 150, "miri": 400},
               "thorough": {"seq-debug": 260 if "mc" in eng else 480, "seq-release": 100 if "mc" in eng else 240, "mc": 400 if len(eng) > 1 else 700, "miri": 1500}, "assumptions": ass}
    note = []
    if p in SEQP:
        note.append("Every transition executes the public API of the real crate and is judged by a reference model; states are merged on the full internal state, so a closed search covers histories of any length over its alphabet. Bounded by the small configurations (keys, weights, capacities) listed in the evidence.")
    if p in MC:
        note.append("Every schedule (up to the preemption bound) of small thread programs runs on the real code with its lock/atomic/park primitives driven by the checker. Sequential consistency is assumed.")
    if p == "C29":
        note.append("Every transition executes the public API of the real crate, natively with the standard library's checks of unsafe preconditions, and on smaller graphs under Miri. Only undefined behaviour counts here, not what is returned.")
    checks.append({"property": p, "quick_cmd": "python3 check.py %s quick" % p, "thorough_cmd": "python3 check.py %s thorough" % p,
                   "technique": "model checking: " + "; ".join(tech), "level": "model_checking", "level_note": " ".join(note)})
json.dump(conf, open(os.path.join(HERE, "checks.json"), "w"), indent=1)
claimed = {c["property"] for c in checks}
na = [{"property": json.loads(l)["id"], "reason": "check not built yet"} for l in open(os.path.join(HERE, "properties.jsonl")) if json.loads(l)["id"] not in claimed]
m = {"version": 1, "setup_cmd": "python3 check.py build",
     "hooks": {"guard": "cfg(quick_cache_mc), cfg(quick_cache_verif), cfg(quick_cache_verif_map)", "enable": "RUSTFLAGS=\"--cfg quick_cache_verif --cfg quick_cache_verif_map\" (state dump) and, for the interleaving engine, \"--cfg quick_cache_mc\"",
               "source_commits": ["8c28e96", "29985d7", "1fe6bba"]},
     "checks": checks, "not_applicable": na}
json.dump(m, open(os.path.join(HERE, "MANIFEST.json"), "w"), indent=1)
