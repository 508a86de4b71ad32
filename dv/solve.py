"""Discharging obligations: SMT-LIB text, solved by z3 and then cvc5, each in its own process."""
import multiprocessing as mp
import os
import subprocess
import tempfile
import time
from concurrent.futures import ThreadPoolExecutor

import z3

from . import theory as T

BACKENDS = [
    ("z3", ["z3-new", "smt.auto_config=false", "smt.mbqi=false", "smt.random_seed=0"]),
    ("z3-4.8", ["z3", "smt.auto_config=false", "smt.mbqi=false", "smt.random_seed=0"]),
    ("z3-seed", ["z3-new", "smt.auto_config=false", "smt.mbqi=false", "smt.random_seed=7", "smt.qi.eager_threshold=30"]),
    ("cvc5", ["cvc5", "--lang=smt2", "--full-saturate-quant"]),
    ("z3-arith2", ["z3-new", "smt.auto_config=false", "smt.mbqi=false", "smt.arith.solver=2", "smt.random_seed=3"]),
    ("z3-mbqi", ["z3-new", "smt.random_seed=1"]),
]


def smt2(assumptions, goal):
    fs = list(assumptions) + ([z3.Not(goal)] if goal is not None else [])
    ax = T.relevant_axioms(fs)
    s = z3.Solver()
    for _, f, _ in ax:
        s.add(f)
    names = T.names_in(fs + [f for _, f, _ in ax])
    if any(n.startswith("str:") for n in names):
        for f in T.str_distinct(names):
            s.add(f)
    s.add(*fs)
    return f"; {len(s.assertions()) - len(fs)} background assertions\n(set-logic ALL)\n" + s.to_smt2(), {lab for _, _, lab in ax}


def lite(text):
    """the obligation without the background axioms: proving this proves the obligation"""
    n = int(text.split(None, 2)[1])
    parts = text.split("\n(assert")
    return "\n(assert".join(parts[:1] + parts[1 + n:])


def run(backend, path, timeout):
    name, cmd = backend
    if name == "cvc5":
        cmd = cmd + [f"--tlimit={int(timeout * 1000)}"]
    else:
        cmd = cmd + [f"-t:{int(timeout * 1000)}", "-memory:6000"]
    t = time.time()
    try:
        r = subprocess.run(cmd + [path], stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, timeout=timeout + 10)
        out = r.stdout
    except subprocess.TimeoutExpired:
        out = "timeout"
    first = ""
    for line in out.splitlines():
        if line.strip() in ("sat", "unsat", "unknown", "timeout"):
            first = line.strip()
            break
    return first or ("error: " + out[:200]), time.time() - t


def attempt(path, timeout, deadline, rounds=3):
    """-> (status, backend, seconds, log)"""
    log, total = [], 0.0
    with open(path) as f:
        text = f.read()
    if not text.startswith("; 0 "):
        with open(path + ".lite.smt2", "w") as f:
            f.write(lite(text))
        res, s = run(BACKENDS[0], path + ".lite.smt2", 1)
        os.unlink(path + ".lite.smt2")
        total += s
        if res == "unsat":
            return "discharged", "z3", total, ["without background axioms"]
    for r in range(rounds):
        for b in BACKENDS:
            if r < 2 and b[0] in ("z3-arith2", "z3-mbqi"):
                continue
            left = deadline - time.time()
            if left < 1:
                return "undecided", None, total, log + ["out of time"]
            t = (timeout / 3, timeout, timeout * 4)[r]
            res, s = run(b, path, max(1, min(t, left)))
            total += s
            log.append(f"{b[0]}: {res} ({s:.1f} s)")
            if res == "unsat":
                return "discharged", b[0], total, log
            if res == "sat" and b[0] in ("z3-mbqi",):
                return "refuted", b[0], total, log
    return "undecided", None, total, log


def serve(conn, timeout, deadline, workers, rounds):
    """the process that discharges what it is sent"""
    with tempfile.TemporaryDirectory(prefix="dv-") as d, ThreadPoolExecutor(workers) as pool:
        def one(p):
            try:
                return attempt(p, timeout, deadline, rounds)
            finally:
                os.unlink(p)
        futures = {}
        while (item := conn.recv()) is not None:
            p = os.path.join(d, f"{len(futures)}.smt2")
            with open(p, "w") as f:
                f.write(item[1])
            futures[item[0]] = pool.submit(one, p)
        conn.send({k: f.result() for k, f in futures.items()})


class Solver:
    """discharges obligations in the background, in the order they come (in a process of its own: this one may fork while it works)"""

    def __init__(self, timeout=6, deadline=None, workers=8, rounds=3):
        ctx = mp.get_context("fork")
        self.conn, other = ctx.Pipe()
        self.process = ctx.Process(target=serve, args=(other, timeout, deadline or time.time() + 3600, workers, rounds), daemon=True)
        self.process.start()
        other.close()

    def submit(self, key, text):
        self.conn.send((key, text))

    def results(self):
        """{key: (status, backend, seconds, log)}"""
        self.conn.send(None)
        out = self.conn.recv()
        self.process.join()
        return out


def solve_all(tasks, timeout=6, deadline=None, workers=8, rounds=3):
    """tasks: list of (key, smt text) -> {key: (status, backend, seconds, log)}"""
    s = Solver(timeout, deadline, workers, rounds)
    for key, text in tasks:
        s.submit(key, text)
    return s.results()
