"""Driver: explore -> replay counterexamples in a fresh process on unpatched code -> evidence, exit status."""
from __future__ import annotations
import argparse
import hashlib
import importlib
import json
import os
import subprocess
import sys
import time

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
KNOWN = os.path.join(VERIF, "known_findings.json")


class Check:
    id = "C00"
    level = "exploration"
    seconds = {"quick": 70, "thorough": 3600}
    limit = 20           # per path, seconds
    replay_limit = 60
    maxviol = 60
    assumptions = []
    bounds = {}
    rule = "every feasible path of every harness family within the bounds; a path is non-trivial when it reaches the final assertion"

    def setup(self):
        """once, in the parent, before workers are forked"""

    def families(self, tier):
        raise NotImplementedError

    def replay(self, payload):
        """Run payload against the unpatched code.  -> description of the violation, or None when the property holds."""
        raise NotImplementedError

    def control(self):
        """Negative control: a deliberately wrong artefact must be refuted by the same query. -> (refuted, description)"""
        return None

    # like replay, in the exploring process (no own alarms); used to drop counterexamples early
    confirm = None

    def finding(self, payload, desc):
        """key of a known finding this violation belongs to, or None"""
        return None

    def extra(self, stats):
        return {}


def load(pid):
    return importlib.import_module("vf.checks." + pid.lower()).CHECK()


def known(pid):
    try:
        d = json.load(open(KNOWN))
    except FileNotFoundError:
        return []
    return [e for e in d.get("findings", []) if e["property"] == pid]


def do_replay(path):
    d = json.load(open(path))
    c = load(d["property"])
    r = c.replay(d["payload"])
    if r is None:
        print("NOT REPRODUCED")
        return 3
    print("REPRODUCED " + str(r))
    return 1


def sub_replay(path, limit):
    """-> (status, text) ; status in yes/no/hang/error"""
    env = dict(os.environ, PYTHONHASHSEED="0", PYTHONDONTWRITEBYTECODE="1")
    try:
        p = subprocess.run([sys.executable, os.path.join(VERIF, "check.py"), "--replay", path], capture_output=True, text=True,
                           timeout=limit, env=env)
    except subprocess.TimeoutExpired:
        return "hang", f"no answer within {limit} s"
    if p.returncode == 1 and "REPRODUCED" in p.stdout:
        return "yes", p.stdout.split("REPRODUCED", 1)[1].strip()
    if p.returncode == 3:
        return "no", ""
    if p.returncode < 0 or "MemoryError" in p.stderr:
        return "yes", "the process died: " + p.stderr[-300:]
    return "error", p.stdout[-500:] + p.stderr[-1500:]


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument("prop", nargs="?")
    ap.add_argument("--tier", default=os.environ.get("VERIF_TIER") or "quick")
    ap.add_argument("--replay")
    ap.add_argument("--seconds", type=float)
    ap.add_argument("--only")
    ap.add_argument("--nproc", type=int)
    ap.add_argument("--show", type=int, default=0)
    a = ap.parse_args()
    if a.replay:
        return do_replay(a.replay)
    from . import engine
    t0 = time.time()
    c = load(a.prop)
    os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
    rdir = os.path.join(VERIF, "evidence", "replay")
    os.makedirs(rdir, exist_ok=True)
    for f in os.listdir(rdir):
        if f.startswith(c.id + "-"):
            os.unlink(os.path.join(rdir, f))
    import multiprocessing as mp
    c.setup()
    ctlbad = False
    try:
        ctl = c.control()
    except Exception as e:
        ctl = (False, repr(e))
    if ctl is not None and not ctl[0]:
        print("ERROR: negative control was not refuted: " + str(ctl[1]))
        ctlbad = True
    engine.CONFIRM = c.confirm
    fams = c.families(a.tier)
    if a.only:
        fams = [f for f in fams if a.only in f[0]]
    secs = a.seconds or c.seconds[a.tier]
    r = engine.explore(fams, secs, nproc=a.nproc, maxviol=c.maxviol, limit=c.limit)
    st = r.stats
    for e in r.errors:
        print("ERROR in a worker:\n" + e)
    for e in sorted(st.get("crashes", ()))[:3]:
        print("note: the machinery failed on a path (counted as inconclusive):\n" + e)

    # ---- replay, shortest first, one per kind
    seen, reported, unrep, findings = {}, [], [], {}
    vs = sorted(r.viol, key=lambda v: len(json.dumps(v, default=repr)))
    kn = known(c.id)
    if a.show:
        for v in vs[:a.show]:
            print("CANDIDATE", json.dumps(v, default=repr, indent=1).replace("\\n", "\n"))
    attempts = 0
    for v in vs:
        kind = v.get("err", "")
        if len(reported) >= 3 or attempts >= 40:
            break
        if seen.get(kind, 0) >= 4 and attempts >= 12:
            continue
        seen[kind] = seen.get(kind, 0) + 1
        attempts += 1
        h = hashlib.sha1(json.dumps(v, default=repr, sort_keys=True).encode()).hexdigest()[:10]
        path = os.path.join(rdir, f"{c.id}-{h}.json")
        json.dump({"property": c.id, "payload": v}, open(path, "w"), default=repr, indent=1)
        status, text = sub_replay(path, c.replay_limit)
        if status in ("yes", "hang"):
            k = c.finding(v, text)
            if k is not None and any(e["key"] == k for e in kn):
                findings.setdefault(k, text)
                continue
            reported.append((path, text))
        elif status == "no":
            unrep.append((path, v))
        else:
            print("ERROR in replay: " + text)
            r.errors.append(text)
    for e in kn:
        # listed findings are re-demonstrated on every run
        path = os.path.join(rdir, f"{c.id}-known-{e['key']}.json")
        json.dump({"property": c.id, "payload": e["payload"]}, open(path, "w"))
        status, text = sub_replay(path, c.replay_limit)
        if status in ("yes", "hang"):
            print(f"KNOWN-FINDING: property={c.id} {e['what']}")
    for path, text in reported:
        print("  " + text[:2000].replace("\n", "\n  "))
        print(f"VIOLATION property={c.id} replay={path}")
    for path, v in unrep:
        print("note: a counterexample of the symbolic run did not reproduce (counted as inconclusive): " + path)

    wall = time.time() - t0
    import z3
    cov = {
        "evaluations": int(st.get("paths", 0)),
        "distinct_nontrivial": int(st.get("completed", 0)),
        "rule": c.rule,
        "samples": r.samples[:6],
        "exhaustive": not st.get("unexplored") and not st.get("inconclusive") and not r.errors,
        "unexplored_prefixes": int(st.get("unexplored", 0)),
        "infeasible_paths": int(st.get("abandoned", 0)),
        "inconclusive_paths": int(st.get("inconclusive", 0)) + len(unrep),
        "inconclusive_reasons": sorted(st.get("why", ()))[:10],
        "internal_errors": [e[:400] for e in r.errors[:5]],
        "internal_error_count": len(r.errors) + int(st.get("crashed", 0)),
        "paths_per_family": {k[6:]: v for k, v in st.items() if k.startswith("paths:")},
        "assertions": int(st.get("assertions", 0)),
        "queries_discharged": int(st.get("queries", 0)),
        "solver_unknown": int(st.get("unknown", 0)),
        "solver_s": round(st.get("solver_s", 0.0), 2),
        "solver": "z3 " + z3.get_version_string(),
        "branches_decided_by_solver": int(st.get("forks", 0)),
        "bounds": c.bounds.get(a.tier, c.bounds) if isinstance(c.bounds, dict) else c.bounds,
        "functions_executed_symbolically": sorted(st.get("functions", ())),
        "negative_control": ctl[1] if ctl else None,
    }
    cov.update(c.extra(st))
    if c.level == "translation_validation":
        cov.setdefault("programs", int(st.get("programs", 0)))
        cov.setdefault("disagreements_checked", int(st.get("assertions", 0)))
    ev = {"property": c.id, "tier": a.tier, "seed": int(os.environ.get("VERIF_SEED", "0") or 0), "level": c.level,
          "coverage": cov, "assumptions": list(c.assumptions), "wall_s": round(wall, 2), "violations": len(reported)}
    json.dump(ev, open(os.path.join(VERIF, "evidence", c.id + ".json"), "w"), indent=1, default=repr)
    print(f"{c.id} {a.tier}: {cov['evaluations']} paths, {cov['assertions']} assertions, {cov['queries_discharged']} queries, "
          f"solver {cov['solver_s']} s, unexplored {cov['unexplored_prefixes']}, inconclusive {cov['inconclusive_paths']}, "
          f"candidates {len(r.viol)}, violations {len(reported)}, wall {wall:.1f} s")
    if reported:
        return 1
    if ctlbad or not st.get("completed") or len(r.errors) > 4 or int(st.get("crashed", 0)) * 2 > st.get("completed"):
        return 2
    return 0        # paths that could not be finished are listed in the evidence, they are no verdict
