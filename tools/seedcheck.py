#!/usr/bin/env python3
"""development aid: run checks against every planted bug on a scratch copy
usage: seedcheck.py [--own] [id...]"""
import json, os, shutil, subprocess, sys, tempfile
from concurrent.futures import ThreadPoolExecutor
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, HERE)
sys.dont_write_bytecode = True
from s2sa import rules
own = "--own" in sys.argv
ids = [a for a in sys.argv[1:] if not a.startswith("-")] or sorted(os.listdir(HERE + "/seeded"))


def one(a):
    sid, chk = a
    d = tempfile.mkdtemp(prefix="sc_")
    try:
        shutil.copytree("/repo/s2wav", d + "/s2wav", ignore=shutil.ignore_patterns("__pycache__"))
        subprocess.run(["git", "init", "-q"], cwd=d)
        subprocess.run(["git", "apply", f"{HERE}/seeded/{sid}/patch.diff"], cwd=d, check=True)
        r = subprocess.run([sys.executable, HERE + "/check.py", chk], capture_output=True, text=True, env=dict(os.environ, S2SA_ROOT=d, S2SA_SCRATCH=d))
        return sid, chk, r.returncode, r.stdout
    finally:
        shutil.rmtree(d)


jobs = []
prop = {}
for s in ids:
    if not os.path.exists(f"{HERE}/seeded/{s}/patch.diff"):
        continue
    prop[s] = json.load(open(f"{HERE}/seeded/{s}/meta.json"))["property"]
    for c in ([prop[s]] if own else sorted(rules.RULES)):
        jobs.append((s, c))
res = {}
with ThreadPoolExecutor(int(os.environ.get("W", "7"))) as ex:
    for s, c, rc, out in ex.map(one, jobs):
        res.setdefault(s, []).append((c, rc))
        if len(res[s]) == (1 if own else len(rules.RULES)):
            hit = [c for c, rc in res[s] if rc == 1]
            odd = [f"{c}:{rc}" for c, rc in res[s] if rc not in (0, 1)]
            print(f"{s:32} own={prop[s]} {'CAUGHT' if prop[s] in hit else 'MISSED'} by {' '.join(hit)} {odd or ''}", flush=True)
