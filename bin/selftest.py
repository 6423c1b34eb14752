#!/usr/bin/env python3
"""Is the binding able to see anything?  Records a few scenarios of each profile, changes one
observed value (or drops an event) in each, and counts how often TLC rejects the result.
Not a check of a property; prints a table.  usage: selftest.py [mutations per profile]"""
import collections
import copy
import json
import os
import random
import shutil
import sys
import concurrent.futures as cf
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import check

PROFILES = [  # profile, trace specification, private harness, observed fields by event
    ("fidelity:0", "AdhocTrace", False), ("fidelity:n", "AdhocTrace", False), ("reading", "AdhocTrace", False),
    ("counting", "AdhocTrace", False), ("saving", "AdhocTrace", False), ("seeking", "AdhocTrace", False),
    ("reuse", "AdhocTrace", False), ("setup", "AdhocTrace", False), ("sizes", "AdhocTrace", False),
    ("damage", "DamageTrace", False), ("written:1", "FormatTrace", False), ("foreign", "FormatTrace", False),
    ("written:2", "FormatTrace", False), ("wsaving", "WavTrace", False), ("warray", "WavTrace", False),
    ("wseeking", "WavTrace", False), ("wforeign", "WavTrace", False), ("transfer", "TransferTrace", False),
    ("replicas", "ReplicaTrace", False), ("transcode", "TranscodeTrace", False),
    ("coll:bits", "BitStreamTrace", True), ("rice", "RiceCodeTrace", True), ("coll:bitvec", "PackedListTrace", True),
    ("coll:nibble", "PackedListTrace", True), ("coll:list", "LinkedListTrace", True), ("coll:lru", "LruCacheTrace", True),
    ("coll:ring", "RingBufferTrace", True), ("coll:stack", "HistoryStackTrace", True), ("twin:all", "TwinTrace", True),
    ("noise", "NoiseTrace", True), ("signals", "SignalTrace", True),
]
# what the harness put in, not what it saw: changing it gives another scenario, which may be fine
INPUTS = {"op", "c", "a", "f", "w", "d", "x", "cap", "fill", "hi", "lo", "whence", "neg", "lvl", "k", "r", "n", "e", "seed", "to"}
# the same for single events (and results that aren't defined, such as the end of an empty list)
GIVEN = {"new.rate", "new.ch", "new.lvl", "like.b", "bytes.len", "wload.b", "took.b", "w.v", "w1.v", "rc.len",
         "wc.len", "wcap.len", "rcap.len", "set.v", "set.i", "rem.h", "conv.branchless"}


def leaves(v, path=()):
    if isinstance(v, dict):
        for k in v:
            yield from leaves(v[k], path + (k,))
    elif isinstance(v, list):
        for k in range(len(v)):
            yield from leaves(v[k], path + (k,))
    elif isinstance(v, int) and not isinstance(v, bool):
        yield path


def mutate(rng, scen):
    s = copy.deepcopy(scen)
    events = list(range(len(s["ev"])))
    rng.shuffle(events)
    for k in events:
        e = s["ev"][k]
        obs = [p for p in leaves(e) if p[0] not in INPUTS and "%s.%s" % (e["op"], p[0]) not in GIVEN]
        if not obs:
            continue
        p = rng.choice(obs)
        at = e
        for q in p[:-1]:
            at = at[q]
        v = at[p[-1]]
        at[p[-1]] = 1 - v if v in (0, 1) else v + rng.choice([1, -1])
        return s, "%s.%s" % (e["op"], p[0])
    return None, None


def main():
    count = int(sys.argv[1]) if len(sys.argv) > 1 else 24
    only = sys.argv[2].split(",") if len(sys.argv) > 2 else None
    work = os.path.join(check.BUILD, "run", "selftest-%d" % os.getpid())
    shutil.rmtree(work, ignore_errors=True)
    os.makedirs(work)
    vh = {False: check.build(), True: check.build(private=True)}
    rng = random.Random(int(os.environ.get("VERIF_SEED", "1")))
    total = collections.Counter()
    try:
        for profile, spec, private in PROFILES:
            if only and profile not in only:
                continue
            path = check.record(vh[private], work, profile.replace(":", "-"), "gen", profile, 0, count, 5)
            scens = [json.loads(l) for l in open(path)]
            jobs = []
            for i in range(count):
                s, what = mutate(rng, scens[i % len(scens)])
                if s:
                    f = os.path.join(work, "%s-%d.ndjson" % (profile.replace(":", "-"), i))
                    open(f, "w").write(json.dumps(s) + "\n")
                    jobs.append((f, what))

            def one(job):
                try:
                    check.check_traces(spec, job[0], work, timeout=100)
                    return job[1], False
                except check.ToolError as x:
                    print("   ", job[1], str(x)[:40], json.load(open(job[0]))["cfg"])
                    return job[1] + " (no answer)", False
                except check.Rejected:
                    return job[1], True
            seen, missed = 0, collections.Counter()
            with cf.ThreadPoolExecutor(check.CORES) as pool:
                for what, rejected in pool.map(one, jobs):
                    if rejected:
                        seen += 1
                    else:
                        missed[what] += 1
            total["rejected"] += seen
            total["all"] += len(jobs)
            print("%-12s %-18s %3d of %3d rejected  %s" % (profile, spec, seen, len(jobs), dict(missed) or ""), flush=True)
    finally:
        shutil.rmtree(work, ignore_errors=True)
    print("%d of %d" % (total["rejected"], total["all"]))


main()
