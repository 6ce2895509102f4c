#!/usr/bin/env python3
"""development aid: apply textual mutations to a scratch copy of s2wav and run checks on it
usage: mut.py FILE.json [name...]   entries: {"n":name,"f":file,"o":old,"w":new,"k":occurrence(0),"c":[checks]}"""
import json, os, shutil, subprocess, sys, tempfile
from concurrent.futures import ThreadPoolExecutor
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))


def one(m):
    d = tempfile.mkdtemp(prefix="mut_")
    try:
        shutil.copytree("/repo/s2wav", d + "/s2wav", ignore=shutil.ignore_patterns("__pycache__"))
        eds = m.get("e") or [m]
        for e in eds:
            p = d + "/" + e["f"]
            s = open(p).read()
            parts = s.split(e["o"])
            if len(parts) < 2:
                return m["n"], "OLD TEXT NOT FOUND " + e["o"]
            k = e.get("k", 0)
            if k == -1:
                s = e["w"].join(parts)
            else:
                s = e["o"].join(parts[:k + 1]) + e["w"] + e["o"].join(parts[k + 1:])
            open(p, "w").write(s)
        out = []
        for c in m["c"]:
            r = subprocess.run([sys.executable, HERE + "/check.py", c, "--verbose"], capture_output=True, text=True, env=dict(os.environ, S2SA_ROOT=d, S2SA_SCRATCH=d))
            ls = [l for l in r.stdout.splitlines() if l.startswith("  ")]
            out.append(f"{c}: rc={r.returncode} " + (r.stdout.splitlines() or [r.stderr[-200:]])[0][:150] + "".join("\n        " + l[:260] for l in ls[:3]))
        return m["n"], "\n     ".join(out)
    finally:
        shutil.rmtree(d)


ms = json.load(open(sys.argv[1]))
if sys.argv[2:]:
    ms = [m for m in ms if m["n"] in sys.argv[2:]]
with ThreadPoolExecutor(7) as ex:
    for n, o in ex.map(one, ms):
        print("==", n, "\n    ", o)
