#!/usr/bin/env python3
"""check.py PROPERTY [--tier quick|thorough]

Analyses the source in /repo (never runs it) and decides one property."""
import argparse, json, os, sys, time, traceback

HERE = os.path.dirname(os.path.abspath(__file__))
OUT = os.environ.get("S2SA_SCRATCH") or HERE   # development runs on scratch copies write elsewhere
sys.path.insert(0, HERE)
sys.dont_write_bytecode = True


def known():
    """entries of known_findings.jsonl: {"status": "known"|"fixed", "property", "where", "what", ...}"""
    out = []
    p = os.path.join(HERE, "known_findings.jsonl")
    if os.path.exists(p):
        for line in open(p):
            line = line.strip()
            if line:
                out.append(json.loads(line))
    return out


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument("property")
    ap.add_argument("--tier", default="quick", choices=["quick", "thorough"])
    ap.add_argument("--verbose", action="store_true")
    a = ap.parse_args()
    import threading
    threading.stack_size(512 * 1024 * 1024)
    rc = []
    t = threading.Thread(target=lambda: rc.append(go(a)))
    t.start()
    t.join()
    sys.stdout.flush()
    os._exit(rc[0] if rc else 2)


def go(a):
    t0 = time.time()
    from s2sa import rules
    from s2sa.decide import Report
    pid = a.property
    rep = Report(pid, a.tier)
    rule = rules.RULES[pid]
    try:
        rule.run(rep, a.tier)
    except SyntaxError as ex:
        rep.undec("parse", ex.filename or "?", f"source does not parse: {ex}")
    except Exception as ex:  # an analyser limitation is never a verdict about the code
        rep.undec("analyser", "check.py", f"{type(ex).__name__}: {ex}")
        if a.verbose:
            traceback.print_exc()
    kf = [k for k in known() if k.get("property") == pid and k.get("status") == "known"]
    viol, hits = [], []
    for v in rep.viol:
        m = next((k for k in kf if k["rule"] == v["rule"] and k["where"] in v["where"] and k["match"] in v["what"]), None)
        (hits if m else viol).append((v, m))
    for k in kf:
        print(f"KNOWN-FINDING: property={pid} {k['what']}")
    replay = None
    os.makedirs(os.path.join(OUT, "evidence"), exist_ok=True)
    if viol:
        d = os.path.join(OUT, "replay")
        os.makedirs(d, exist_ok=True)
        replay = os.path.join(d, f"{pid}.json")
        with open(replay, "w") as f:
            json.dump(dict(property=pid, tier=a.tier, command=f"python3 {os.path.join(HERE, 'check.py')} {pid} --tier {a.tier}",
                           violations=[v for v, _ in viol]), f, indent=1, default=str)
    cov = dict(
        explanation=rule.explanation,
        rule=rule.rule,
        functions_analysed=len(rep.functions),
        function_names=sorted(rep.functions),
        contexts=len(rep.contexts),
        sites=len(rep.sites),
        obligations=rep.obl + len(rep.viol),
        discharged=rep.obl,
        discharged_by_normal_form=rep.proved,
        discharged_by_random_interpretation=rep.evals,
        obligations_by_rule=rep.rule_counts,
        undecided=len(rep.undecided),
        undecided_items=rep.undecided[:20],
        valuations=len(rep.val_used),
        samples=(rep.samples + [dict(context=c) for c in rep.contexts[:4]])[:12],
        violations=[v for v, _ in viol][:20],
    )
    ev = dict(property=pid, tier=a.tier, seed=int(os.environ.get("VERIF_SEED", "1") or 1), level="other", coverage=cov,
              assumptions=rules.ASSUMPTIONS + list(rule.assumptions), wall_s=round(time.time() - t0, 3), violations=len(viol))
    with open(os.path.join(OUT, "evidence", f"{pid}.json"), "w") as f:
        json.dump(ev, f, indent=1, default=str)
    print(f"{pid}: {rep.obl} obligations hold ({rep.proved} by normal form), {len(rep.undecided)} undecided, {len(viol)} violated; "
          f"{len(rep.functions)} functions, {len(rep.contexts)} contexts, {time.time() - t0:.1f}s")
    if a.verbose:
        for u in rep.undecided:
            print("  undecided", u)
    for v, _ in viol:
        print(f"  {v['where']}: [{v['rule']}] {v['what']}")
    if viol:
        print(f"VIOLATION property={pid} replay={replay}")
        return 1
    return 0


if __name__ == "__main__":
    main()
