#!/usr/bin/env python3
"""development aid: build /verif/seeded/<id>/ from a spec and confirm it in a scratch copy
usage: seed.py SPEC.py [id...]     SPEC.py defines SEEDS = [dict(id, property, edits=[(file, old, new[, k])], demo, needs, breaks)]"""
import json, os, runpy, shutil, subprocess, sys, tempfile
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
ENV = dict(os.environ, PYTHONDONTWRITEBYTECODE="1", PYTHONHASHSEED="0", JAX_PLATFORMS="cpu", CUDA_VISIBLE_DEVICES="", OMP_NUM_THREADS="1", OPENBLAS_NUM_THREADS="1", MKL_NUM_THREADS="1")
PRE = '''import os, sys
sys.path.insert(0, os.getcwd())
import numpy as np
import jax
jax.config.update("jax_enable_x64", True)
import jax.numpy as jnp
import torch
import s2wav
from s2wav import filters, samples
from s2wav.transforms import base, wavelet, wavelet_c, wavelet_precompute, wavelet_precompute_torch, construct
rng = np.random.default_rng(0)


def signal(L, spin=0, reality=False, sampling="mw"):
    """a band-limited signal and its harmonic coefficients"""
    from s2fft.utils import signal_generator
    from s2fft import base_transforms
    flm = signal_generator.generate_flm(rng, L, 0, spin, reality)
    return base_transforms.spherical.inverse(flm, L, spin, sampling, None, reality), flm


'''
SH = '''#!/bin/bash
export PYTHONDONTWRITEBYTECODE=1 JAX_PLATFORMS=cpu CUDA_VISIBLE_DEVICES=
exec /opt/venv/bin/python "$(dirname "$0")/demo.py"
'''


def one(s):
    sd = os.path.join(HERE, "seeded", s["id"])
    os.makedirs(sd, exist_ok=True)
    open(sd + "/demo.py", "w").write(PRE + s["demo"].strip() + "\n")
    open(sd + "/demo.sh", "w").write(SH)
    os.chmod(sd + "/demo.sh", 0o755)
    json.dump(dict(property=s["property"], needs=s["needs"], what_it_breaks=s["breaks"]), open(sd + "/meta.json", "w"), indent=1)
    d = tempfile.mkdtemp(prefix="seed_")
    try:
        subprocess.run(["git", "clone", "-q", "/repo", d + "/r"], check=True)
        r = d + "/r"
        run = lambda: subprocess.run(["bash", sd + "/demo.sh"], cwd=r, env=ENV, capture_output=True, text=True, timeout=300)
        a = run()
        for e in s["edits"]:
            p = f"{r}/{e[0]}"
            t = open(p).read()
            parts = t.split(e[1])
            k = e[3] if len(e) > 3 else 0
            if len(parts) < k + 2:
                return s["id"], "OLD TEXT NOT FOUND " + e[1]
            t = e[1].join(parts[:k + 1]) + e[2] + e[1].join(parts[k + 1:])
            open(p, "w").write(t)
        diff = subprocess.run(["git", "diff"], cwd=r, capture_output=True, text=True).stdout
        open(sd + "/patch.diff", "w").write(diff)
        b = run()
        t = subprocess.run(["/opt/venv/bin/python", "-m", "pytest", "-q", "-x", "-p", "no:cacheprovider", "-n", "4", "--timeout=300", "tests"], cwd=r, env=ENV, capture_output=True, text=True) if not s.get("notest") else None
        ok = a.returncode == 0 and b.returncode != 0 and (t is None or t.returncode == 0)
        msg = f"{'OK ' if ok else 'BAD'} clean={a.returncode} patched={b.returncode} tests={t.returncode if t else '-'} {(t.stdout.strip().splitlines() or [''])[-1] if t else ''}"
        msg += "\n      patched: " + (b.stderr.strip().splitlines() or [""])[-1][:200]
        if a.returncode:
            msg += "\n      clean:   " + (a.stderr.strip().splitlines() or [""])[-1][:300]
        if t and t.returncode:
            msg += "\n      " + "\n      ".join(l for l in t.stdout.splitlines() if l.startswith(("FAILED", "ERROR")))[:600]
        return s["id"], msg
    finally:
        shutil.rmtree(d)


if __name__ == "__main__":
    from concurrent.futures import ThreadPoolExecutor
    S = runpy.run_path(sys.argv[1])["SEEDS"]
    if sys.argv[2:]:
        S = [s for s in S if s["id"] in sys.argv[2:]]
    with ThreadPoolExecutor(int(os.environ.get("W", "2"))) as ex:
        for i, m in ex.map(one, S):
            print("==", i, m, flush=True)
