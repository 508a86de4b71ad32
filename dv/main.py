"""python -m dv.main PROP [--out FILE] [--tier T] [--unit QUAL] : verify every function of a property."""
import argparse
import importlib
import json
import multiprocessing as mp
import os
import pkgutil
import sys
import time

import contracts as CPKG
from notes.text import TEXT


def registry():
    from .contract import REG
    for m in sorted(x.name for x in pkgutil.iter_modules(CPKG.__path__)):
        importlib.import_module("contracts." + m)
    return REG


def gen(job, conn):
    """one unit, or one case of a unit, in its own process"""
    from . import unit
    reg = registry()
    name, case = job
    if name.startswith("lemma:"):
        r = reg.lemmas[name[6:]].verify()
    else:
        r = unit.verify(reg.contracts[name], reg.contracts, only=case)
    tasks = unit.tasks_of(r, name if case is None else f"{name}.case{case}")
    conn.send(dict(name=name, tasks=tasks, error=r.error, used=sorted(r.used), inlined=sorted(r.inlined),
                   assumptions=sorted(r.assumptions), axioms=sorted(r.axioms), covers=r.covers, returns=r.returns,
                   seconds=r.seconds, trace=getattr(r, "trace", "")))
    conn.close()


def failure(name, why):
    return dict(name=name, tasks=[], error=why, used=[], inlined=[], assumptions=[], axioms=[], covers=0, returns=0, seconds=0, trace="")


def merged(parts, con):
    """the cases of one unit"""
    g = parts[0]
    for h in parts[1:]:
        g = dict(g, tasks=g["tasks"] + h["tasks"], error=g["error"] or h["error"], trace=g["trace"] or h["trace"], covers=g["covers"] + h["covers"],
                 returns=g["returns"] + h["returns"], seconds=g["seconds"] + h["seconds"], **{k: sorted(set(g[k]) | set(h[k])) for k in ("used", "inlined", "assumptions", "axioms")})
    if g["error"] is None and g["returns"] == 0 and not con.never_returns:
        g["error"] = "no path of the function returns (contradictory contract?)"
    return g


def gen_all(names, workers, deadline, reg):
    ctx = mp.get_context("fork")
    parts, want, todo = {}, {}, []
    for n in names:
        cases = [] if n.startswith("lemma:") else reg.contracts[n].cases or []
        jobs = [(n, i) for i in range(len(cases))] if len(cases) > 1 else [(n, None)]
        want[n], parts[n] = len(jobs), {}
        todo += jobs
    live = []
    while todo or live:
        while todo and len(live) < workers:
            job = todo.pop(0)
            a, b = ctx.Pipe(False)
            p = ctx.Process(target=gen, args=(job, b))
            p.start()
            b.close()
            live.append((job, p, a))
        for item in list(live):
            job, p, a = item
            n = job[0]
            got = None
            if a.poll(0.02):
                try:
                    got = a.recv()
                except EOFError:
                    got = failure(n, "the verifier stopped on this function")
            elif time.time() > deadline:
                p.kill()
                got = failure(n, "out of time while generating obligations")
            if got is not None:
                p.join()
                live.remove(item)
                parts[n][job[1]] = got
                if len(parts[n]) == want[n]:
                    if want[n] == 1:
                        yield got
                    else:
                        yield merged([parts[n][i] for i in sorted(parts[n])], reg.contracts[n])


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument("prop")
    ap.add_argument("--out")
    ap.add_argument("--tier", default="quick")
    ap.add_argument("--unit")
    ap.add_argument("-v", action="store_true")
    ap.add_argument("--dump")
    ap.add_argument("--rounds", type=int, default=3)
    a = ap.parse_args()
    t0 = time.time()
    reg = registry()
    thorough = a.tier == "thorough"
    deadline = t0 + (2300 if thorough else 400)
    names = [a.unit] if a.unit else list(reg.props.get(a.prop, []))
    from .solve import Solver
    solver = Solver(20 if thorough else 6, deadline, rounds=a.rounds)
    if not a.unit:      # callees that take long to translate start right away
        names += [u for n in names if not n.startswith("lemma:") for u in getattr(reg.contracts[n], "early", ())]
    done, results, queue = set(), [], list(names)
    tasks, labels, failed = [], {}, []
    nob = ndis = 0
    while queue:
        batch = list(dict.fromkeys(n for n in queue if n not in done))
        queue = []
        done |= set(batch)
        for g in gen_all(batch, 8, t0 + (1200 if thorough else 250), reg):
            results.append(g)
            if not a.unit:
                queue += [u for u in g["used"] if u not in done and (u.startswith("lemma:") or not reg.contracts[u].trusted)]
            if g["error"]:
                nob += 1
                failed.append({"unit": g["name"], "obligation": "the function can be verified", "status": g["error"], "output": g["trace"]})
            for key, label, text in g["tasks"]:
                nob += 1
                labels[key] = (g["name"], label)
                if text is None:
                    ndis += 1
                else:
                    tasks.append(key)
                    solver.submit(key, text)
                    if a.dump:
                        os.makedirs(a.dump, exist_ok=True)
                        with open(os.path.join(a.dump, key.replace("/", "_") + ".smt2"), "w") as f:
                            f.write("; " + label.replace("\n", " ") + "\n" + text)
            g["tasks"] = [(key, label, None) for key, label, _ in g["tasks"]]
    tg = time.time() - t0
    res = solver.results()
    backends, secs = {}, 0.0
    per = {}
    for key, (status, b, s, log) in res.items():
        secs += s
        u, label = labels[key]
        p = per.setdefault(u, [0, 0])
        if status == "discharged":
            ndis += 1
            backends[b] = backends.get(b, 0) + 1
            if a.v and s > 3:
                print(f"  slow {s:.1f} {b} {u}: {label} [{key}]")
        else:
            failed.append({"unit": u, "obligation": label, "status": status, "output": "; ".join(log), "key": key})
    triv = nob - len(tasks) - sum(1 for g in results if g["error"])
    if triv:
        backends["simplifier"] = triv
    trusted, assumptions, axioms = set(), set(), set()
    units = []
    for g in results:
        n = sum(1 for k in labels if labels[k][0] == g["name"])
        units.append({"unit": g["name"], "obligations": n, "inlined": g["inlined"], "uses_contracts_of": g["used"],
                      "generation_s": round(g["seconds"], 1)})
        assumptions |= set(g["assumptions"])
        axioms |= set(g["axioms"])
        for u in g["used"]:
            if not u.startswith("lemma:") and reg.contracts[u].trusted:
                trusted.add(f"assumed contract of {u}: {reg.contracts[u].note}")
    out = {"units": units, "failed": failed, "obligations": nob, "discharged": ndis,
           "trusted_base": sorted(trusted) + ["dv/ (the verifier: translation of the Python subset, models of builtins and libraries)",
                                              "z3 5.x, cvc5 1.1.2"]
           + (["background axioms: " + "; ".join(sorted(axioms))] if axioms else []),
           "backends": backends, "solver_s": round(secs, 1), "covers": sum(g["covers"] for g in results),
           "assumptions": sorted(assumptions | set(reg.base_assumptions)) if units else [],
           "bounded": [list(b) for b in TEXT.get(a.prop, ("", "", []))[2]]}
    if a.out:
        with open(a.out, "w") as f:
            json.dump(out, f, indent=1)
    if a.v or not a.out:
        for g in results:
            print(f"{g['name']}: {len(g['tasks'])} obligations, {g['returns']} returning paths, {g['seconds']:.1f} s, used {g['used']}, inlined {g['inlined']}")
            if g["error"]:
                print("   ERROR", g["error"])
                if a.v:
                    print(g["trace"])
        for f in failed:
            print("FAILED", f["unit"], "|", f["obligation"], "|", f["status"], "|", f["output"][-300:] if "key" in f else "", f.get("key", ""))
        print(f"{ndis}/{nob} discharged; generation {tg:.1f} s, solver {secs:.1f} s, wall {time.time() - t0:.1f} s; {backends}")


if __name__ == "__main__":
    main()
