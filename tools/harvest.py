#!/usr/bin/env python3
"""Collect the LOGOS programs quoted in the repository's own tests, guides and benchmark directory.

Output is one JSON array of {"src": …, "from": …}; it is a development aid, run once and committed,
so that the checks do not depend on the test files of the tree they judge.
"""
import json, re, sys, pathlib, hashlib

root = pathlib.Path(sys.argv[1])
out = []
seen = set()
raw = re.compile(r'r(#+)"(.*?)"\1|r"([^"]*)"', re.S)
plain = re.compile(r'"((?:[^"\\]|\\.)*)"', re.S)

def unescape(s):
    s = re.sub(r'\\\n\s*', '', s)
    return (s.replace('\\n', '\n').replace('\\t', '\t').replace('\\"', '"').replace('\\\\', '\\'))

def add(src, where):
    src = src.strip('\n') + '\n'
    if '## ' not in src or len(src) > 6000:
        return
    # uniform dedent
    lines = src.split('\n')
    ind = min((len(l) - len(l.lstrip()) for l in lines if l.strip()), default=0)
    src = '\n'.join(l[ind:] for l in lines)
    if not re.search(r'^## Main', src, re.M):
        return
    if re.search(r'\{\{|\{\}', src) and 'format!' in where:
        return
    h = hashlib.sha1(src.encode()).hexdigest()
    if h in seen:
        return
    seen.add(h)
    out.append({"src": src, "from": where})

for p in sorted((root / "crates").rglob("*.rs")):
    t = p.read_text(errors="replace")
    if '## Main' not in t:
        continue
    rel = str(p.relative_to(root))
    pos = 0
    while pos < len(t):
        m = raw.search(t, pos)
        m2 = plain.search(t, pos)
        if m and (not m2 or m.start() <= m2.start() + 0):
            pass
        elif m2:
            m = m2
        else:
            break
        pre = t[max(0, m.start() - 12):m.start()]
        if m.re is raw:
            s = m.group(2) if m.group(2) is not None else m.group(3)
        else:
            s = unescape(m.group(1))
        fmt = 'format!' in pre or 'push_str(' in pre
        if '## Main' in s and not fmt:
            add(s, rel)
        pos = m.end()
for p in sorted((root / "benchmarks").rglob("*.lg")) + sorted((root / "assets").rglob("*.lg")):
    add(p.read_text(errors="replace"), str(p.relative_to(root)))
json.dump(out, sys.stdout)
