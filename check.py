#!/usr/bin/env python3
"""check.py Cxx [--tier quick|thorough]: decides one property of /repo's current tree.

1. proof: pyvc regenerates and discharges the contract obligations from the current source;
2. runtime: the same contract is evaluated on the real code (validates the assumed library contracts; replays and
   searches failing inputs when an obligation is not discharged).
Exit 0: the property held on everything explored.  Exit 1: VIOLATION line."""
import argparse
import json
import os
import resource
import shutil
import subprocess
import sys
import tempfile
import time

HERE = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get("VERIF_REPO", "/repo")
PROVER = "/usr/local/bin/python3-vt" if os.path.exists("/usr/local/bin/python3-vt") else shutil.which("python3-vt") or "/opt/veriftools/pyvenv/bin/python"
RUNNER = "/opt/venv/bin/python"


def env():
    e = dict(os.environ)
    e.update({"PYTHONPATH": REPO, "PYTHONDONTWRITEBYTECODE": "1", "MPLBACKEND": "Agg", "CUDA_VISIBLE_DEVICES": "-1", "TF_CPP_MIN_LOG_LEVEL": "3",
              "OMP_NUM_THREADS": "2", "OPENBLAS_NUM_THREADS": "2", "TF_ENABLE_ONEDNN_OPTS": "0", "VERIF_REPO": REPO, "PYTHONHASHSEED": "0"})
    e.pop("PYTHONHOME", None)
    return e


def limit():
    resource.setrlimit(resource.RLIMIT_AS, (24 << 30, 24 << 30))


def runtime(prop, scratch, seconds, deep, tag, timeout):
    out = os.path.join(scratch, f"rt_{tag}.json")
    log = open(os.path.join(scratch, f"rt_{tag}.log"), "w")
    cmd = [RUNNER, os.path.join(HERE, "conc", "run.py"), "--prop", prop, "--seconds", str(seconds), "--out", out] + (["--deep"] if deep else [])
    return subprocess.Popen(cmd, cwd=scratch, env=env(), stdout=log, stderr=subprocess.STDOUT, preexec_fn=limit), out, log.name, timeout


def finish(job):
    p, out, log, timeout = job
    try:
        p.wait(timeout)
    except subprocess.TimeoutExpired:
        p.kill()
        p.wait()
    try:
        return json.load(open(out))
    except Exception:
        tail = open(log, errors="replace").read()[-1500:]
        return {"evaluations": 0, "distinct": 0, "samples": [], "failure": None, "error": f"runtime evaluation did not finish (rc {p.returncode}): {tail}", "known": []}


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument("prop")
    ap.add_argument("--tier", default=os.environ.get("VERIF_TIER", "quick"))
    a = ap.parse_args()
    prop = a.prop
    tier = "thorough" if a.tier == "thorough" else "quick"
    seed = int(os.environ.get("VERIF_SEED", "1") or 1)
    t0 = time.time()
    meta = json.load(open(os.path.join(HERE, "checks.json"))).get(prop, {})
    scratch = tempfile.mkdtemp(prefix=f"verif_{prop}_")
    os.makedirs(os.path.join(HERE, "evidence"), exist_ok=True)
    try:
        rc = decide(prop, tier, seed, t0, meta, scratch)
    finally:
        shutil.rmtree(scratch, ignore_errors=True)
    sys.exit(rc)


def decide(prop, tier, seed, t0, meta, scratch):
    known = [l for l in json.load(open(os.path.join(HERE, "known_findings.json")))["findings"] if l["property"] == prop]
    # the runtime contract is evaluated while the prover runs
    rt_secs = meta.get("runtime_seconds", 25) if tier == "quick" else 240
    job = runtime(prop, scratch, rt_secs, tier == "thorough", "base", rt_secs + 200)
    pout = os.path.join(scratch, "proof.json")
    plog = os.path.join(scratch, "proof.log")
    cmd = [PROVER, os.path.join(HERE, "tools", "prove.py"), prop, "--out=" + pout] + (["--thorough"] if tier == "thorough" else [])
    with open(plog, "w") as lf:
        p = subprocess.Popen(cmd, cwd=scratch, env=dict(env(), PYTHONPATH=HERE), stdout=lf, stderr=subprocess.STDOUT, preexec_fn=limit)
        try:
            p.wait(400 if tier == "quick" else 800)
        except subprocess.TimeoutExpired:
            p.kill()
            p.wait()
    try:
        proof = json.load(open(pout))
    except Exception:
        proof = {"obligations": 1, "discharged": 0, "failed": [{"name": "prover", "function": "", "status": "error", "by": "", "detail": open(plog, errors="replace").read()[-1500:]}],
                 "by": {}, "functions": [], "trusted": [], "assumed": [], "solver": {}, "known": [], "seconds": 0}
    rt = finish(job)
    failed = proof["failed"]
    evals, distinct = rt["evaluations"], rt["distinct"]
    failure = rt["failure"]
    deep = None
    if failed and not failure:
        left = 780 - (time.time() - t0)
        secs = min(150 if tier == "quick" else 300, left - 120)
        if secs > 10:
            deep = finish(runtime(prop, scratch, secs, True, "deep", secs + 110))
            evals += deep["evaluations"]
            distinct += deep["distinct"]
            failure = deep["failure"]
    refuted = [o for o in failed if o["status"] == "refuted"]
    verdict = "held"
    line = None
    replay = os.path.join(HERE, "evidence", f"replay_{prop}.json")
    if failure:
        verdict = "violation"
        json.dump({"property": prop, "case": failure["case"], "failure": failure["failure"], "obligations": failed[:20], "how": f"{RUNNER} {HERE}/conc/run.py --replay {replay}"}, open(replay, "w"), indent=1, default=str)
        line = f"VIOLATION property={prop} replay={replay}"
    elif refuted and meta.get("trust_refuted", True):
        verdict = "violation"
        json.dump({"property": prop, "case": None, "obligations": refuted[:20], "verifier": "pyvc + z3/cvc5"}, open(replay, "w"), indent=1, default=str)
        line = f"VIOLATION property={prop} replay={replay} no-failing-input-found"
    elif os.path.exists(replay):
        os.remove(replay)
    unproved = len(failed)
    full = unproved == 0
    cov = {
        "obligations": proof["obligations"], "discharged": proof["discharged"],
        "checker_cmd": f"python3-vt {HERE}/tools/prove.py {prop} -v",
        "trusted_base": ["pyvc verification condition generator and simplifier (/verif/pyvc)", "z3 4.8/cvc5 1.1 as back ends",
                         "python floats treated as real numbers, machine integers as mathematical integers"]
                        + ["library contract: " + t for t in proof["trusted"]],
        "discharged_by": proof["by"], "functions_under_contract": proof["functions"], "solver": proof["solver"], "proof_seconds": proof["seconds"],
        "undischarged": [{k: o[k] for k in ("name", "function", "status")} | {"detail": o["detail"][:600]} for o in failed[:40]],
        "evaluations": evals, "distinct_nontrivial": distinct,
        "rule": meta.get("rule", "contract evaluated on the real code for generated inputs; sizes include every numeric literal of the source +-1; a case is distinct if its parameters differ"),
        "samples": rt["samples"],
        "explanation": "every obligation was discharged by the verifier; the runtime evaluations validate the assumed library contracts" if full else
                       "BOUNDED: some obligations were not discharged; for those the runtime evaluation of the contract stands in (not counted as proved)",
    }
    if rt.get("error"):
        cov["runtime_error"] = rt["error"]
    ev = {"property": prop, "tier": tier, "seed": seed, "level": "proof" if full or verdict == "violation" else "exploration",
          "coverage": cov, "assumptions": proof["assumed"] + meta.get("assumptions", []), "wall_s": round(time.time() - t0, 2), "violations": 1 if line else 0}
    json.dump(ev, open(os.path.join(HERE, "evidence", f"{prop}.json"), "w"), indent=1, default=str)
    for k in known:
        if k.get("status") == "known" and (rt.get("error") or k.get("key") in rt.get("known", [])):
            print(f"KNOWN-FINDING: property={prop} {k['what']}")
    print(f"{prop}: {proof['discharged']}/{proof['obligations']} obligations discharged in {proof['seconds']} s, {evals} runtime evaluations, {verdict}, {round(time.time() - t0, 1)} s")
    for o in failed[:8]:
        print(f"  not discharged [{o['status']}] {o['name']} {o['detail'][:200]}")
    if rt.get("error"):
        print("  " + rt["error"][-400:])
    if failure:
        print("  failing input: " + json.dumps(failure, default=str)[:800])
    if line:
        print(line)
        return 1
    return 0


if __name__ == "__main__":
    main()
