#!/usr/bin/env python3
"""Reduce harvested programs to those a monitor may run freely: no files, network, clock,
randomness, scheduler or unbounded work; each ran in a process of its own under a time limit.

    vet.py HARVEST.json BINARY OUT.json
"""
import json, re, subprocess, sys
from concurrent.futures import ThreadPoolExecutor

src, binary, out = sys.argv[1:4]
progs = json.load(open(src))
deny = re.compile(r"\b(file|Mount|mount|Connect|Listen|Sync|Sleep|sleep|args\(|env|Launch|Spawn|Pipe|Select|Agent|"
                  r"Send|Receive|Await|Stream|random|now|today|clock|read|Read|Write|write|time|uuid|Stop|Attempt|"
                  r"simultaneously|following|concurrently|parallel|Close|Persistent|Shared|Zone|zone|Escape|escape|PeerAgent)\b|"
                  # not whole programs, or rejected by some engines before they start (ill-typed)
                  r"\{\}|Give x to y|USD \+ 1\.00 EUR|Return b \+ 1|2 meters \+ 1 gram|To complex \(mode")
seen, keep = set(), []
for p in progs:
    s = p["src"]
    if deny.search(s) or s in seen or len(s) > 6000:
        continue
    seen.add(s)
    keep.append(p)
json.dump(keep, open(out + ".tmp", "w"))


def run(i):
    try:
        r = subprocess.run([binary, "one", out + ".tmp", str(i)], capture_output=True, timeout=10, cwd="/root/scratch/vet")
        if r.returncode != 0:
            return i, None
        a = r.stdout.split()
        return i, (int(a[-3]), int(a[-2]), a[-1])
    except Exception:
        return i, None


ok = []
with ThreadPoolExecutor(8) as ex:
    for i, r in ex.map(run, range(len(keep))):
        if r and r[0] < 60 and r[1] < 20000:
            ok.append(keep[i])
        elif not r:
            print("dropped", keep[i]["from"], repr(keep[i]["src"][:60]))
json.dump(ok, open(out, "w"), indent=0, ensure_ascii=False)
print(len(progs), len(keep), len(ok))
