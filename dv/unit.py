"""Verification of one function against its contract (or of one lemma): generates the obligations."""
import ast
import time

import z3

from . import theory as T
from .values import *
from .engine import Ex, Repo, Oblig, contains_yield
from .libs import Libs
from .contract import P, Spec, labelled, Contract
from .solve import smt2

_repo = []


def repo():
    if not _repo:
        _repo.append(Repo())
    return _repo[0]


class Result:
    def __init__(self, name):
        self.name = name
        self.obligs, self.used, self.inlined, self.assumptions = [], set(), set(), set()
        self.returns = 0
        self.covers = 0
        self.error = None
        self.seconds = 0.0
        self.loops = 0
        self.axioms = set()


def conjuncts(f):
    if z3.is_and(f):
        return [g for c in f.children() for g in conjuncts(c)]
    return [f]


def verify(con, contracts, exts=(), only=None):
    """only: the number of one case of the contract"""
    r = Result(con.qual)
    t0 = time.time()
    rp = repo()
    if con.qual not in rp.funcs and con.node is None:
        r.error = f"function {con.qual} is not in the source"
        return r
    try:
        cases = con.cases or [{}]
        for case in (cases if only is None else [cases[only]]):
            run_case(rp, con, contracts, exts, case, r)
    except Unsupported as e:
        r.error = f"outside the handled subset: {e}"
    except z3.Z3Exception as e:
        import traceback
        r.error = f"ill-sorted term: {str(e)[:300]}"
        r.trace = traceback.format_exc()
    except (KeyError, AttributeError, TypeError, IndexError, NotImplementedError, RecursionError) as e:
        import traceback
        tb = traceback.extract_tb(e.__traceback__)
        r.error = f"the verifier cannot process this text: {type(e).__name__}: {str(e)[:200]} ({'; '.join(f'{x.name}:{x.lineno}' for x in tb[-4:])})"
        r.trace = traceback.format_exc()
    if r.error is None and r.returns == 0 and only is None and not con.never_returns:
        r.error = "no path of the function returns (contradictory contract?)"
    r.seconds = time.time() - t0
    return r


def run_case(rp, con, contracts, exts, case, r):
    ext = [x(rp) for x in list(exts) + list(con.exts)]
    libs = Libs(rp, ext)
    ex = Ex(rp, contracts, con.qual, libs)
    for x in ext:
        x.ex = ex
    ex.used_contracts = set()
    st = State()
    node = (con.node(rp) if callable(con.node) else con.node) if con.node is not None else rp.funcs[con.qual]
    mod = con.qual.split(".")[0]
    st.tag = {"module": mod, "qual": con.qual}
    fid = st.new_frame(None)
    st.fid = fid
    for q, c in contracts.items():
        for v, ty in c.types.items():
            ex.types[(v[0], v[1]) if isinstance(v, tuple) else (q, v)] = ty
        for k, l in c.loops.items():
            ex.loop_specs[k if isinstance(k, tuple) and k[0] != "sql" else (q, k)] = l
    if con.setup is not None:
        con.setup(ex, st)
    binds = {}
    params = dict(con.params)
    params.update(case)
    a = node.args
    names = [x.arg for x in a.posonlyargs + a.args + a.kwonlyargs] + [x.arg for x in (a.vararg, a.kwarg) if x]
    for n in names:
        if n in params:
            binds[n] = params[n].make(ex, st, n)
        else:
            defaults = dict(zip([x.arg for x in a.args][len(a.args) - len(a.defaults):], a.defaults))
            defaults.update({x.arg: d for x, d in zip(a.kwonlyargs, a.kw_defaults) if d is not None})
            if n not in defaults:
                raise Unsupported(f"the contract does not describe parameter {n}")
            # an undescribed parameter with a default: the contract speaks about the default
            res = ex.ev(st, defaults[n])
            st, binds[n] = res[0]
    for n in params:
        if n not in names and n not in con.ghosts:
            raise Unsupported(f"parameter {n} of the contract is not a parameter of the function")
    for n in con.ghosts:
        binds[n] = params[n].make(ex, st, n)
    st.frames[fid].update(binds)
    old = (st.copy(), fid, dict(binds))
    ex.old_state = old
    c0 = Spec(ex, st, fid, old, None, None, binds)
    for _, f in labelled(con.requires(c0)):
        st.assume(f)
    for lem in con.uses:
        st.assume(lem.fact())
        r.used.add("lemma:" + lem.name)
    old[0].pc = list(st.pc)
    r.entry = list(st.pc)
    if ex.infeasible(st):
        raise Unsupported("the precondition is contradictory")
    r.covers += 1
    if con.lemmas is not None:
        for lab, f in labelled(con.lemmas(c0)):
            ex.oblige(st, f, f"lemma {lab}")
    gen = contains_yield(node)
    if gen:
        st.out = st.alloc(None, None, "list")
        hint = ex.types.get((con.qual, "yield"))
        if hint is not None:
            ex.set_ty(st, st.out, hint)
    if con.body is not None:
        body = con.body(node)
    else:
        body = node.body
    ex.number_loops(node, con.qual)
    ends = ex.block(st, body)
    desc = ", ".join(f"{k}={v.label or v.ty}" for k, v in case.items())
    tag = f" [{desc}]" if desc else ""
    for s, sig in ends:
        if s.fid != fid:
            s.fid = fid
        if sig is not None and sig[0] == "exc":
            check_raise(ex, con, s, sig[1], old, binds, tag)
            continue
        if sig is not None and sig[0] != "ret":
            raise Unsupported("break outside a loop")
        if ex.infeasible(s):
            continue
        if not refutable(s):
            r.covers += 1
            r.returns += 1
        else:
            continue
        v = NONE if sig is None else sig[1]
        if gen:
            v = ItV(ex.iter_of(s, s.out))
            c = Spec(ex, s, fid, old, None, None, binds, s.out)
        else:
            if con.result is not None:
                v = con.result(ex, s, v)
            if isinstance(v, OptV) and isinstance(con.returns, P) and con.returns.ty is not None and con.returns.ty == v.ty.ty:
                ex.oblige(s, z3.Not(v.ty.is_none(v.t)), f"the result is not None{tag}")
                v = ex.from_term(s, v.ty.ty, v.ty.val(v.t))
            c = Spec(ex, s, fid, old, None, None, binds, v)
        for cls, cond in con.raises:
            if cond is not None:
                ex.oblige(s, z3.Not(cond(c.old)), f"{cls} is raised when the contract says so{tag}")
        if con.hints is not None:
            for lab, f in labelled(con.hints(c)):
                ex.oblige(s, f, f"step {lab}{tag}")
        for lab, f in labelled(con.ensures(c)):
            ex.oblige(s, f, f"postcondition {lab}{tag}")
        frame(ex, con, s, old, binds, tag)
    r.obligs += ex.obligs
    r.used |= ex.used_contracts
    r.inlined |= ex.inlined
    r.assumptions |= ex.assumptions
    for f in con.axioms_used:
        r.assumptions.add(f)


def refutable(s):
    sol = z3.Solver()
    sol.set("timeout", 1500)
    sol.set("auto_config", False)
    sol.set("mbqi", False)
    for _, f, _ in T.relevant_axioms(s.pc):
        sol.add(f)
    for f in T.str_distinct():
        sol.add(f)
    sol.add(*s.pc)
    return sol.check() == z3.unsat


def frame(ex, con, s, old, binds, tag):
    ost = old[0]
    for n, v in binds.items():
        if n in con.modifies or not isinstance(v, Ref):
            continue
        if ost.ty(v) is None or v.cid not in s.heap:
            continue
        a, b = ost.term(v), s.term(v)
        if not z3.eq(a, b):
            ex.oblige(s, a == b, f"frame: argument {n} is unchanged{tag}")
    db0 = ost.tag.get("db")
    if db0:
        for t, ref in db0.items():
            if t in con.writes:
                continue
            a, b = ost.term(ref), s.term(ref)
            if not z3.eq(a, b):
                ex.oblige(s, a == b, f"frame: table {t} is unchanged{tag}")


def check_raise(ex, con, s, exc, old, binds, tag):
    if ex.infeasible(s):
        return
    c = Spec(ex, s, s.fid, old, None, None, binds, None, exc)
    oks = []
    for cls, cond in con.raises:
        if cls == exc.cls or cls == "any" or ex.libs.exc_match(exc, Bi("class:" + cls)) is True:
            oks.append(cond(c.old) if cond is not None else z3.BoolVal(True))
    goal = z3.Or(*oks) if oks else z3.BoolVal(False)
    ex.oblige(s, goal, f"no uncaught {exc.cls} ({exc.info}){tag}")
    if oks and con.on_raise is not None:
        for lab, f in labelled(con.on_raise(c)):
            ex.oblige(s, f, f"on {exc.cls}: {lab}{tag}")


def tasks_of(r, name):
    """SMT tasks of a result: list of (key, label, text)"""
    out = []
    k = 0
    trivial = 0
    for o in r.obligs:
        if z3.is_true(z3.simplify(o.goal)):
            out.append((f"{name}#{k}", o.label, None))
            k += 1
            continue
        for g in conjuncts(o.goal):
            text, axs = smt2(o.pc, g)
            r.axioms |= axs
            out.append((f"{name}#{k}", o.label, text))
            k += 1
    return out
