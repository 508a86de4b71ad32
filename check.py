#!/usr/bin/env python3
"""check.py PROP [--tier quick|thorough]

Decides one property on /repo's current tree:
 1. the deductive verifier (dv/, run under python3-vt) generates and discharges every
    obligation of the functions listed for the property in contracts/;
 2. the bounded harness (replay/, run on the real code) stands in for the parts out of the
    verifier's reach and replays a failing input when an obligation fails.
Exit 0, or exit 1 with one VIOLATION line."""
import argparse
import json
import os
import subprocess
import sys
import time

HERE = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get("HYPERREAL_REPO", "/repo")
VT = "/opt/veriftools/pyvenv/bin/python"
APP = "/opt/venv/bin/python"
RULE = ("cases are drawn from a seeded generator of the harness check named with each sample; a case is counted "
        "distinct and non-trivial when its input was accepted by the check and its printed form differs from every "
        "earlier case of the same check")


def env():
    e = dict(os.environ, PYTHONHASHSEED="0", PYTHONDONTWRITEBYTECODE="1", HYPERREAL_REPO=REPO)
    e.pop("PYTHONPATH", None)
    return e


def load(path):
    try:
        with open(path) as f:
            return json.load(f)
    except (OSError, ValueError):
        return None


def known_findings(prop):
    out = []
    try:
        for line in open(os.path.join(HERE, "known_findings.txt")):
            if line.startswith("finding: property=" + prop + " "):
                out.append(line.split(" ", 2)[2].strip())
    except OSError:
        pass
    return out


def run_harness(prop, seed, budget, out, limit):
    if os.path.exists(out):
        os.remove(out)
    cmd = [APP, "-m", "replay.run", prop, "--seed", str(seed), "--budget", str(budget), "--out", out]
    return subprocess.Popen(cmd, cwd=HERE, env=env(), stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True), cmd


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument("prop")
    ap.add_argument("--tier", default=os.environ.get("VERIF_TIER", "quick"))
    ap.add_argument("--seed", type=int, default=int(os.environ.get("VERIF_SEED", "1") or 1))
    a = ap.parse_args()
    t0 = time.time()
    thorough = a.tier == "thorough"
    evd = os.path.join(HERE, "evidence")
    work = os.path.join(evd, "replays")
    os.makedirs(work, exist_ok=True)
    hout = os.path.join(work, f"{a.prop}-harness.json")
    pout = os.path.join(work, f"{a.prop}-proof.json")
    replay_path = os.path.join(work, f"{a.prop}-violation.json")
    for f in (hout, pout, replay_path):
        if os.path.exists(f):
            os.remove(f)

    budget = 300 if thorough else 30
    hp, hcmd = run_harness(a.prop, a.seed, budget, hout, 0)
    pcmd = [VT, "-m", "dv.main", a.prop, "--out", pout, "--tier", a.tier]
    pp = subprocess.Popen(pcmd, cwd=HERE, env=env(), stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
    plimit = 2400 if thorough else 420
    try:
        ptxt, _ = pp.communicate(timeout=plimit)
    except subprocess.TimeoutExpired:
        pp.kill()
        ptxt, _ = pp.communicate()
        ptxt += "\n(stopped after %d s)" % plimit
    try:
        htxt, _ = hp.communicate(timeout=budget * 6 + 120)
    except subprocess.TimeoutExpired:
        hp.kill()
        htxt, _ = hp.communicate()
        htxt += "\n(stopped)"
    proof = load(pout)
    har = load(hout)

    failed = []          # obligations not discharged
    if proof is None:
        failed.append({"unit": "verifier", "obligation": "the verifier did not finish", "output": ptxt[-4000:]})
    else:
        failed = proof["failed"]
        if proof["units"] and not proof["obligations"]:
            failed.append({"unit": "verifier", "obligation": "no obligation was generated", "output": ptxt[-4000:]})
    viol = har["violation"] if har else None
    if har is None:
        viol = {"check": "harness", "seed": a.seed, "case": -1,
                "message": "the code under test stopped the harness\n" + htxt[-4000:]}
    extra = 0
    if failed and not viol:
        # look for a failing input with other seeds before giving up
        more = 150 if not thorough else 300
        procs = []
        for s in range(1, 5):
            o = os.path.join(work, f"{a.prop}-harness-{s}.json")
            procs.append((o, run_harness(a.prop, a.seed + 1000 * s, more, o, 0)[0]))
        for o, p in procs:
            try:
                p.communicate(timeout=more * 2 + 60)
            except subprocess.TimeoutExpired:
                p.kill()
                p.communicate()
            r = load(o)
            if r:
                extra += r["evaluations"]
                if r["violation"] and not viol:
                    viol = r["violation"]
            if os.path.exists(o):
                os.remove(o)

    for k in known_findings(a.prop):
        print(f"KNOWN-FINDING: property={a.prop} {k}")

    nob = proof["obligations"] if proof else 0
    ndis = proof["discharged"] if proof else 0
    cov = {}
    units = proof["units"] if proof else []
    level = "proof" if units else "exploration"
    if units:
        cov.update(obligations=nob, discharged=ndis,
                   checker_cmd=f"cd /verif && HYPERREAL_REPO={REPO} {VT} -m dv.main {a.prop}",
                   trusted_base=proof["trusted_base"])
        cov["functions_under_contract"] = units
        cov["backends"] = proof["backends"]
        cov["solver_seconds"] = proof["solver_s"]
        cov["reachability_checks"] = proof["covers"]
        cov["bounded_stand_ins"] = proof.get("bounded", [])
    if har:
        cov["evaluations"] = har["evaluations"] + extra
        cov["distinct_nontrivial"] = har["distinct"]
        cov["rule"] = RULE
        cov["samples"] = har["samples"]
        cov["harness_checks"] = har["checks"]
    else:
        cov.setdefault("evaluations", 0)
        cov.setdefault("samples", [])
    ev = {"property": a.prop, "tier": a.tier if a.tier in ("quick", "thorough") else "quick", "seed": a.seed,
          "level": level, "coverage": cov, "wall_s": round(time.time() - t0, 2),
          "assumptions": (proof or {}).get("assumptions", []), "violations": 1 if (failed or viol) else 0}
    with open(os.path.join(evd, a.prop + ".json"), "w") as f:
        json.dump(ev, f, indent=1)
        f.write("\n")

    for x in failed:
        print(f"failed obligation: {x['unit']}: {x['obligation']} [{x.get('status', '')}]")
    if not failed and not viol:
        print(f"{a.prop}: held; {ndis}/{nob} obligations discharged, "
              f"{har['evaluations']} bounded cases, {ev['wall_s']} s")
        return 0
    with open(replay_path, "w") as f:
        rec = {"property": a.prop, "failed_obligations": failed}
        if viol:
            rec.update(viol)
            rec["how"] = f"cd /verif && PYTHONHASHSEED=0 {APP} -m replay.run {a.prop} --replay {replay_path}"
        json.dump(rec, f, indent=1)
    if viol:
        print(viol["message"][:3000])
        print(f"VIOLATION property={a.prop} replay={replay_path}")
    else:
        print(f"VIOLATION property={a.prop} replay={replay_path} no-failing-input-found")
    return 1


if __name__ == "__main__":
    sys.exit(main())
