"""Symbolic execution of the repository's Python source against contracts.

Forward execution with path forking; loops are cut by invariants, contracted callees are used by contract,
other repository functions are inlined.  Everything outside the handled subset raises Unsupported, which is
reported as an undischarged obligation of the function."""
import ast
import os

import z3

from . import theory as T
from .values import *

REPO = os.environ.get("HYPERREAL_REPO", "/repo")
LOGGER_NAMES = {"logger", "logging"}


class Repo:
    def __init__(self):
        self.modules, self.funcs, self.classes, self.src = {}, {}, {}, {}
        for m in ("index", "utilities", "corpus", "db_utilities", "_index_schema", "server", "cli"):
            path = os.path.join(REPO, "hyperreal", m + ".py")
            with open(path) as f:
                src = f.read()
            tree = ast.parse(src)
            self.modules[m], self.src[m] = tree, src
            for n in tree.body:
                if isinstance(n, ast.FunctionDef):
                    self.funcs[f"{m}.{n.name}"] = n
                elif isinstance(n, ast.ClassDef):
                    self.classes[f"{m}.{n.name}"] = n
                    for k in n.body:
                        if isinstance(k, ast.FunctionDef):
                            if any(isinstance(d, ast.Attribute) and d.attr in ("setter", "getter") for d in k.decorator_list):
                                continue
                            self.funcs[f"{m}.{n.name}.{k.name}"] = k
                elif isinstance(n, ast.Assign) and len(n.targets) == 1 and isinstance(n.targets[0], ast.Name):
                    self.funcs.setdefault(f"{m}.{n.targets[0].id}=", n.value)


def is_property(node):
    return any(isinstance(d, ast.Name) and d.id == "property" for d in node.decorator_list)


def contains_yield(node):
    for n in ast.walk(node):
        if isinstance(n, (ast.Yield, ast.YieldFrom)):
            f = n
            return owner(node, n)
    return False


def owner(fn, target):
    """True when target belongs to fn itself, not to a nested function."""
    def walk(n):
        for c in ast.iter_child_nodes(n):
            if c is target:
                return True
            if isinstance(c, (ast.FunctionDef, ast.Lambda, ast.GeneratorExp, ast.ListComp, ast.SetComp, ast.DictComp)):
                continue
            if walk(c):
                return True
        return False
    for n in ast.walk(fn):
        if isinstance(n, (ast.Yield, ast.YieldFrom)) and walk(fn):
            return True
    return walk(fn)


# ----------------------------------------------------------------------------------- iterables
class Iter:
    """Abstract iteration. Ghost state g: dict name -> term."""
    raises_conc_mod = None

    def init(self, ex, st):
        raise NotImplementedError

    def havoc(self, ex, st):
        raise NotImplementedError

    def more(self, ex, st, g):
        raise NotImplementedError

    def next(self, ex, st, g):
        raise NotImplementedError

    def exhausted(self, ex, st, g):
        return [z3.Not(self.more(ex, st, g))]

    def length(self, ex, st):
        raise Unsupported("length of this iterable")

    def concrete(self, ex, st):
        return None

    def quant(self, ex, st):
        """(var, cond, thunk(st)->V, kind in 'seq'/'set', triggers, n)"""
        raise Unsupported(f"quantification over {type(self).__name__}")


class RangeIter(Iter):
    def __init__(self, lo, hi, step=1):
        self.lo, self.hi, self.step = lo, hi, step
        self.n = None
        if isinstance(step, int) and step in (1, -1):
            self.n = self.count_if_known(lo, hi, step)
        if self.n is not None:
            return
        self.n = z3.simplify(z3.If(hi > lo, hi - lo, 0)) if step == 1 else None
        if step == -1:      # lo, lo-1, ..., hi+1
            self.n = z3.simplify(z3.If(lo > hi, lo - hi, 0))
        if self.n is None:
            # ceil((hi-lo)/step), step positive
            self.n = z3.If(hi > lo, (hi - lo + step - 1) / step, 0)

    @staticmethod
    def count_if_known(lo, hi, step):
        """the number of iterations when one end is 0 and the other is the size of something"""
        a, b = (lo, hi) if step == 1 else (hi + 1, lo + 1)
        a, b = z3.simplify(a), z3.simplify(b)
        if z3.is_int_value(a) and a.as_long() == 0:
            if z3.is_int_value(b) and b.as_long() >= 0:
                return b
            if z3.is_app(b) and (b.decl().name().startswith(("len_", "card_"))):
                return b
        return None

    def init(self, ex, st):
        return {"i": z3.IntVal(0)}

    def havoc(self, ex, st):
        i = T.fresh("i", z3.IntSort())
        st.assume(0 <= i, i <= self.n)
        return {"i": i}

    def more(self, ex, st, g):
        return g["i"] < self.n

    def exhausted(self, ex, st, g):
        return [g["i"] == self.n]

    def at(self, i):
        return self.lo + i * self.step if not (isinstance(self.step, int) and self.step == 1) else self.lo + i

    def next(self, ex, st, g):
        return [(st, I(self.at(g["i"])), {"i": g["i"] + 1})]

    def length(self, ex, st):
        return self.n

    def quant(self, ex, st):
        i = T.fresh("q", z3.IntSort())
        return i, z3.And(0 <= i, i < self.n), (lambda s: [(s, I(self.at(i)))]), "seq", [], self.n


class SeqIter(Iter):
    def __init__(self, ref, rev=False, start=None):
        self.ref, self.rev, self.start = ref, rev, start

    def n(self, ex, st):
        n = st.ty(self.ref).len(st.term(self.ref))
        if self.start is not None:
            n = z3.If(n > self.start, n - self.start, 0)
        return n

    def init(self, ex, st):
        return {"i": z3.IntVal(0)}

    def havoc(self, ex, st):
        i = T.fresh("i", z3.IntSort())
        st.assume(0 <= i, i <= self.n(ex, st))
        return {"i": i}

    def more(self, ex, st, g):
        return g["i"] < self.n(ex, st)

    def exhausted(self, ex, st, g):
        return [g["i"] == self.n(ex, st)]

    def idx(self, ex, st, i):
        if self.start is not None:
            i = i + self.start
        return st.ty(self.ref).len(st.term(self.ref)) - 1 - i if self.rev else i

    def next(self, ex, st, g):
        ix = self.idx(ex, st, g["i"])
        return [(st, ex.seq_elem(st, self.ref, ix), {"i": g["i"] + 1})]

    def length(self, ex, st):
        return self.n(ex, st)

    def quant(self, ex, st):
        i = T.fresh("q", z3.IntSort())
        ty = st.ty(self.ref)
        n = self.n(ex, st)
        ix = self.idx(ex, st, i)
        trig = [ty.at(st.term(self.ref), ix)] if not self.rev and self.start is None else []
        return i, z3.And(0 <= i, i < n), (lambda s: [(s, ex.seq_elem(s, self.ref, ix))]), "seq", trig, n


class SetIter(Iter):
    """A set, in an arbitrary order (set) or in increasing order (inc)."""

    def __init__(self, term, ty, inc=False, elem=None, extra=None):
        self.term, self.ty, self.inc, self.elem, self.extra = term, ty, inc, elem, extra

    def init(self, ex, st):
        return {"done": self.ty.th.empty, "i": z3.IntVal(0)}

    def havoc(self, ex, st):
        d = T.fresh("done", self.ty.sort)
        y = T.fresh("y", self.ty.el.sort)
        i = T.fresh("i", z3.IntSort())
        st.assume(z3.ForAll([y], z3.Implies(d[y], self.term[y]), patterns=[d[y]]), i >= 0, i <= self.ty.th.card(self.term), i == self.ty.th.card(d))
        if self.inc:
            # the members visited are the ones below a frontier
            fr = T.fresh("frontier", z3.IntSort())
            st.assume(z3.ForAll([y], z3.Implies(self.term[y], d[y] == (y < fr)), patterns=[self.term[y]]))
            st.assume(z3.ForAll([y], z3.Implies(d[y], y < fr), patterns=[d[y]]))
            return {"done": d, "i": i, "frontier": fr}
        return {"done": d, "i": i}

    def more(self, ex, st, g):
        return g["done"] != self.term

    def exhausted(self, ex, st, g):
        return [g["done"] == self.term, g["i"] == self.ty.th.card(self.term)]

    def next(self, ex, st, g):
        x = T.fresh("x", self.ty.el.sort)
        st.assume(self.term[x], z3.Not(g["done"][x]), g["i"] < self.ty.th.card(self.term))
        if self.inc:
            y = T.fresh("y", z3.IntSort())
            st.assume(z3.ForAll([y], z3.Implies(z3.And(self.term[y], z3.Not(g["done"][y])), y >= x), patterns=[self.term[y]]))
            st.assume(z3.ForAll([y], z3.Implies(g["done"][y], y < x), patterns=[g["done"][y]]))
            if "i" in g:
                st.assume(x == T.bits().sel(self.term, g["i"]), T.bits().rank(self.term, x) == g["i"] + 1)
        g2 = {"done": z3.Store(g["done"], x, z3.BoolVal(True)), "i": g["i"] + 1}
        if self.inc:
            g2["frontier"] = x + 1
        v = ex.from_term(st, self.ty.el, x) if self.elem is None else self.elem(st, x)
        return [(st, v, g2)]

    def length(self, ex, st):
        return self.ty.th.card(self.term)

    def quant(self, ex, st):
        x = T.fresh("q", self.ty.el.sort)
        f = (lambda s: [(s, ex.from_term(s, self.ty.el, x))]) if self.elem is None else (lambda s: [(s, self.elem(s, x))])
        if self.inc:
            i = T.fresh("q", z3.IntSort())
            sel = T.bits().sel(self.term, i)
            return (i, z3.And(0 <= i, i < self.ty.th.card(self.term)),
                    (lambda s: [(s, ex.from_term(s, self.ty.el, sel) if self.elem is None else self.elem(s, sel))]),
                    "seq", [sel], self.ty.th.card(self.term))
        return x, self.term[x], f, "set", [self.term[x]], self.ty.th.card(self.term)


class MapIter(SetIter):
    def __init__(self, ex, st, ref, mode):
        ty = st.ty(ref)
        sty = T.TSet(ty.k)
        dom = ty.dom(st.term(ref))

        def elem(s, k):
            kv = ex.from_term(s, ty.k, k)
            if mode == "keys":
                return kv
            v = ex.map_elem(s, ref, k)
            return v if mode == "values" else Tup([kv, v])
        SetIter.__init__(self, dom, sty, False, elem)
        self.ref, self.mode = ref, mode


class ConcreteIter(Iter):
    def __init__(self, items):
        self.items = items

    def concrete(self, ex, st):
        return self.items

    def length(self, ex, st):
        return z3.IntVal(len(self.items))


class EnumIter(Iter):
    def __init__(self, base, start=0):
        self.base, self.start = base, start

    def init(self, ex, st):
        return dict(self.base.init(ex, st), e=z3.IntVal(0))

    def havoc(self, ex, st):
        g = self.base.havoc(ex, st)
        if "i" in g:
            g["e"] = g["i"]
        else:
            g["e"] = T.fresh("e", z3.IntSort())
            st.assume(g["e"] >= 0)
        return g

    def more(self, ex, st, g):
        return self.base.more(ex, st, g)

    def exhausted(self, ex, st, g):
        return self.base.exhausted(ex, st, g)

    def next(self, ex, st, g):
        out = []
        for s, v, g2 in self.base.next(ex, st, g):
            if v is SKIP:
                out.append((s, v, dict(g2, e=g["e"])))
            else:
                out.append((s, Tup([I(g["e"] + self.start), v]), dict(g2, e=g["e"] + 1)))
        return out

    def length(self, ex, st):
        return self.base.length(ex, st)

    def concrete(self, ex, st):
        c = self.base.concrete(ex, st)
        return None if c is None else [Tup([I(i + self.start), v]) for i, v in enumerate(c)]

    def quant(self, ex, st):
        i, c, f, kind, trig, n = self.base.quant(ex, st)
        if kind != "seq":
            raise Unsupported("enumerate of an unordered collection in a comprehension")
        return i, c, (lambda s: [(s2, Tup([I(i + self.start), v])) for s2, v in f(s)]), kind, trig, n


class ZipIter(Iter):
    def __init__(self, parts):
        self.parts = parts

    def _split(self, g, j):
        p = f"z{j}."
        return {k[len(p):]: v for k, v in g.items() if k.startswith(p)}

    def _join(self, gs):
        out = {}
        for j, g in enumerate(gs):
            for k, v in g.items():
                out[f"z{j}.{k}"] = v
        if "i" in gs[0]:
            out["i"] = gs[0]["i"]
        if "done" in gs[0]:
            out["done"] = gs[0]["done"]
        return out

    def init(self, ex, st):
        return self._join([p.init(ex, st) for p in self.parts])

    def havoc(self, ex, st):
        gs = [p.havoc(ex, st) for p in self.parts]
        for g in gs[1:]:
            if "i" in g and "i" in gs[0]:
                st.assume(g["i"] == gs[0]["i"])
        return self._join(gs)

    def more(self, ex, st, g):
        return z3.And(*[p.more(ex, st, self._split(g, j)) for j, p in enumerate(self.parts)])

    def exhausted(self, ex, st, g):
        return [z3.Or(*[z3.And(*p.exhausted(ex, st, self._split(g, j))) for j, p in enumerate(self.parts)])]

    def next(self, ex, st, g):
        res = [(st, [], [])]
        for j, p in enumerate(self.parts):
            new = []
            for s, vs, gs in res:
                for s2, v, g2 in p.next(ex, s, self._split(g, j)):
                    if v is SKIP:
                        raise Unsupported("zip of a filtered generator")
                    new.append((s2, vs + [v], gs + [g2]))
            res = new
        return [(s, Tup(vs), self._join(gs)) for s, vs, gs in res]

    def length(self, ex, st):
        n = self.parts[0].length(ex, st)
        for p in self.parts[1:]:
            m = p.length(ex, st)
            n = z3.If(n < m, n, m)
        return n

    def quant(self, ex, st):
        qs = [p.quant(ex, st) for p in self.parts]
        if any(q[3] != "seq" for q in qs):
            raise Unsupported("zip of an unordered collection in a comprehension")
        i = qs[0][0]
        conds = [z3.substitute(q[1], (q[0], i)) for q in qs]
        if len(qs) != 2:
            raise Unsupported("zip of several")

        def f(s):
            out = []
            for s2, a in qs[0][2](s):
                s2.assume(qs[1][0] == i)
                for s3, b in qs[1][2](s2):
                    out.append((s3, Tup([a, b])))
            return out
        return i, z3.And(*conds), f, "seq", qs[0][4], self.length(ex, st)


class GenIter(Iter):
    """A generator expression (lazy): element evaluated per iteration in its own frame."""

    def __init__(self, ex, st, base, target, elt, ifs, fid, module):
        self.base, self.target, self.elt, self.ifs, self.fid, self.module = base, target, elt, ifs, fid, module

    def init(self, ex, st):
        return self.base.init(ex, st)

    def havoc(self, ex, st):
        return self.base.havoc(ex, st)

    def more(self, ex, st, g):
        return self.base.more(ex, st, g)

    def exhausted(self, ex, st, g):
        return self.base.exhausted(ex, st, g)

    def _elem(self, ex, st, v):
        """-> list of (st, V or SKIP)"""
        saved = st.fid
        f = st.new_frame(self.fid)
        st.fid = f
        out = []
        for s in ex.bind(st, self.target, v):
            live = [s]
            for c in self.ifs:
                nxt = []
                for s1 in live:
                    for s2, b in ex.ev(s1, c):
                        for s3, t in ex.split(s2, ex.truth(s2, b)):
                            if t:
                                nxt.append(s3)
                            else:
                                s3.fid = saved
                                out.append((s3, SKIP))
                live = nxt
            for s1 in live:
                for s2, e in ex.ev(s1, self.elt):
                    s2.fid = saved
                    out.append((s2, e))
        return out

    def next(self, ex, st, g):
        out = []
        for s, v, g2 in self.base.next(ex, st, g):
            if v is SKIP:
                out.append((s, v, g2))
                continue
            out += [(s2, e, g2) for s2, e in self._elem(ex, s, v)]
        return out

    def length(self, ex, st):
        if self.ifs:
            raise Unsupported("length of a filtered generator")
        return self.base.length(ex, st)

    def concrete(self, ex, st):
        return None

    def quant(self, ex, st):
        x, c, f, kind, trig, n = self.base.quant(ex, st)

        def g(s):
            out = []
            for s2, v in f(s):
                out += [(s2, v)] if v is SKIP else self._elem(ex, s2, v)
            return out
        return x, c, g, kind, trig, n


class NestedIter(Iter):
    """(e for x in A for y in B(x)): only for quantification and effect loops through flatten()."""

    def __init__(self, outer, rest):
        self.outer, self.rest = outer, rest


# ----------------------------------------------------------------------------------- executor
class Oblig:
    def __init__(self, unit, label, pc, goal, line=None):
        self.unit, self.label, self.pc, self.goal, self.line = unit, label, pc, goal, line


class Loop:
    """inv: callable(c) -> list of facts; types: var -> Ty for variables first bound in the loop"""

    def __init__(self, inv=None, types=None, hints=None, modifies_extra=(), steps=None, keep=None):
        """keep: facts that follow from the invariant at the end of the loop and stand in its place afterwards"""
        self.inv, self.steps, self.keep = inv or (lambda c: []), steps, keep
        self.types = types or {}
        self.hints = hints


class Ex:
    def __init__(self, repo, contracts, unit, libs):
        self.repo, self.contracts, self.unit = repo, contracts, unit
        self.libs = libs
        self.obligs = []
        self.exc = []           # stack of raising paths (st, Exc)
        self.recording = True   # emit obligations
        self.assumptions = set()
        self.inlined = set()
        self.loop_specs = {}
        self.ghosts = []        # of the enclosing loops
        self.types = {}
        self.depth = 0
        self.callstack = []
        self.prune_ms = 150
        self.nprune = 0

    # --- obligations
    def oblige(self, st, goal, label):
        if not self.recording:
            st.assume(goal)
            return
        g = z3.simplify(goal) if z3.is_expr(goal) else z3.BoolVal(bool(goal))
        if not z3.is_true(g):
            self.obligs.append(Oblig(self.unit, label, list(st.pc), goal if z3.is_expr(goal) else z3.BoolVal(False)))
        else:
            self.obligs.append(Oblig(self.unit, label, [], z3.BoolVal(True)))
        st.assume(goal)

    def infeasible(self, st, extra=()):
        fs = st.pc + list(extra)
        if any(z3.is_false(f) for f in fs):
            return True
        s = z3.Solver()
        s.set("timeout", self.prune_ms)
        s.set("auto_config", False)
        s.set("mbqi", False)
        for _, f, _ in T.relevant_axioms(fs):
            s.add(f)
        for f in T.str_distinct():
            s.add(f)
        s.add(*fs)
        self.nprune += 1
        return s.check() == z3.unsat

    def split(self, st, cond):
        """Fork on a Bool term; infeasible branches are dropped."""
        c = z3.simplify(cond)
        if z3.is_true(c):
            return [(st, True)]
        if z3.is_false(c):
            return [(st, False)]
        if self.infeasible(st, [z3.Not(cond)]):
            st.assume(cond)
            return [(st, True)]
        if self.infeasible(st, [cond]):
            st.assume(z3.Not(cond))
            return [(st, False)]
        a, b = st.copy(), st
        a.assume(cond)
        b.assume(z3.Not(cond))
        return [(a, True), (b, False)]

    def raise_(self, st, cls, info=""):
        self.exc.append((st, Exc(cls, info)))

    def guard(self, st, cond, cls, info=""):
        """Continue where cond holds; raise cls elsewhere. Returns the continuing state or None."""
        out = None
        for s, ok in self.split(st, cond):
            if ok:
                out = s
            else:
                self.raise_(s, cls, info)
        return out

    # --- terms
    def ty_of(self, st, v):
        if isinstance(v, (Sc, OptV)):
            return v.ty
        if isinstance(v, Tup) or (isinstance(v, Lst) and v.items):
            # a displayed list inside a container is kept as a row of fixed length (changing it there is refused)
            return T.TTup(*[self.ty_of(st, x) for x in v.items])
        if isinstance(v, Obj) and v.cls == "constdict":
            v = self.freeze(st, v)
        if isinstance(v, Rec):
            return T.TRec(v.names, [self.ty_of(st, x) for x in v.items])
        if isinstance(v, Ref):
            t = st.ty(v)
            if t is None:
                raise Unsupported("element type of an empty container is not known (add a type hint)")
            return t
        if isinstance(v, Obj) and v.cls.startswith("future:"):
            return st.attrs[(v.oid, "ty")]
        raise Unsupported(f"type of {v!r}")

    def freeze(self, st, o):
        """a dict display that is stored: its contents, from now on unchangeable"""
        st.tag = dict(st.tag, frozen=st.tag.get("frozen", frozenset()) | {o.oid})
        ks = [k for (i, k) in st.attrs if i == o.oid]
        return Rec(ks, [st.attrs[(o.oid, k)] for k in ks])

    def coerce(self, v, ty):
        """term of scalar v at scalar type ty"""
        if v.ty == ty:
            return v.t
        if ty == T.TReal and v.ty == T.TInt:
            return z3.ToReal(v.t)
        if ty == T.TInt and v.ty == T.TBool:
            return z3.If(v.t, z3.IntVal(1), z3.IntVal(0))
        if ty == T.TReal and v.ty == T.TBool:
            return z3.If(v.t, z3.RealVal(1), z3.RealVal(0))
        if ty == T.TVal and v.ty == T.TInt:
            return box_int(v.t)
        if ty == T.TBool and v.ty == T.TInt:
            return v.t != 0
        raise Unsupported(f"conversion of {v.ty} to {ty}")

    def to_term(self, st, v, ty):
        if isinstance(ty, T.TOpt):
            if v is NONE:
                return ty.none
            if isinstance(v, OptV):
                return v.t
            return ty.some(self.to_term(st, v, ty.ty))
        if isinstance(v, Sc):
            return self.coerce(v, ty)
        if isinstance(v, OptV):
            raise Unsupported("possibly-None value where a value is needed")
        if isinstance(v, Obj) and v.cls == "constdict" and isinstance(ty, T.TRec):
            v = self.freeze(st, v)
        if isinstance(v, Rec) and isinstance(ty, T.TRec):
            if set(v.names) != set(ty.names):
                raise Unsupported("dicts with different keys in one container")
            return ty.mk(*[self.to_term(st, v.items[v.names.index(n)], t) for n, t in zip(ty.names, ty.tys)])
        if isinstance(v, Tup) and not isinstance(ty, T.TRec):
            if isinstance(ty, T.TTup):
                if len(ty.tys) != len(v.items):
                    raise Unsupported("tuple length")
                return ty.mk(*[self.to_term(st, x, t) for x, t in zip(v.items, ty.tys)])
            if isinstance(ty, T.TSeq):
                v = Lst(v.items)
        if isinstance(v, Lst):
            if isinstance(ty, T.TSeq):
                t = ty.empty()
                for x in v.items:
                    t = ty.push(t, self.to_term(st, x, ty.el))
                return t
            if isinstance(ty, T.TTup):
                return ty.mk(*[self.to_term(st, x, t) for x, t in zip(v.items, ty.tys)])
        if isinstance(v, Ref):
            c = st.cell(v)
            if c.ty is None:
                self.set_ty(st, v, ty)
                c = st.cell(v)
            if c.ty.sort == ty.sort:
                return st.term(v)
            raise Unsupported(f"container of type {c.ty} used as {ty}")
        if v is NONE and ty == T.TVal:
            return T.VNONE
        if isinstance(v, Obj) and isinstance(ty, T.TFut):
            return st.attrs[(v.oid, "term")]
        if ty == T.TVal and isinstance(v, Obj):
            if (v.oid, "val") not in st.attrs:
                st.attrs[(v.oid, "val")] = T.fresh("obj", T.Val)
            return st.attrs[(v.oid, "val")]
        raise Unsupported(f"value {v!r} as a term of type {ty}")

    def set_ty(self, st, ref, ty):
        c = st.cell(ref)
        if c.ty is not None:
            return
        if isinstance(ty, T.TSet):
            t = ty.th.empty
        else:
            t = ty.empty()
        st.heap[ref.cid] = c.clone(ty=ty, term=t)

    def from_term(self, st, ty, t):
        if isinstance(ty, T.TOpt):
            if z3.is_true(z3.simplify(ty.is_none(t))):
                return NONE
            if z3.is_false(z3.simplify(ty.is_none(t))):
                return self.from_term(st, ty.ty, ty.val(t))
            return OptV(ty, t)
        if isinstance(ty, T.TFut):
            o = Obj("future:" + ty.fname, newid())
            st.attrs[(o.oid, "term")] = t
            st.attrs[(o.oid, "ty")] = ty
            return o
        if isinstance(ty, T.Scalar):
            return Sc(ty, t)
        if isinstance(ty, T.TRec):
            return Rec(ty.names, [self.from_term(st, u, ty.get(t, i)) for i, u in enumerate(ty.tys)])
        if isinstance(ty, T.TTup):
            return Tup([self.from_term(st, u, ty.get(t, i)) for i, u in enumerate(ty.tys)])
        return st.alloc(ty, t)

    def view_of(self, st, ref, path, ty, default=None):
        """Value living inside a container: containers become views, tuples are taken apart."""
        t = path_get(st.ty(ref), st.term(ref), path)
        if isinstance(ty, T.TFut):
            return self.from_term(st, ty, t)
        if isinstance(ty, T.TRec):
            return Rec(ty.names, [self.view_of(st, ref, path + [("comp", i)], u) for i, u in enumerate(ty.tys)])
        if isinstance(ty, T.TTup):
            return Tup([self.view_of(st, ref, path + [("comp", i)], u) for i, u in enumerate(ty.tys)])
        if ty.mutable:
            return st.view(ref, path, ty, default)
        return self.from_term(st, ty, t)

    def seq_elem(self, st, ref, ix):
        ty = st.ty(ref)
        return self.view_of(st, ref, [("idx", ix)], ty.el)

    def map_elem(self, st, ref, k):
        ty = st.ty(ref)
        d = st.cell(ref).default
        inner = None
        if isinstance(d, tuple):
            inner = d[1]
        return self.view_of(st, ref, [("key", k)], ty.v, inner)

    def store_link(self, st, v, parent, path):
        """v (a Ref) now lives inside parent at path: later mutations through either name are seen by both."""
        if isinstance(v, Ref):
            c = st.cell(v)
            if c.redirect is not None or c.ro:
                # already lives elsewhere: from now on neither may be mutated through this name
                st.heap[v.cid] = c.clone(term=st.term(v), redirect=None, ro=True)
                return
            st.heap[v.cid] = c.clone(term=None, redirect=(parent, path))
        elif isinstance(v, (Tup, Rec)):
            for i, x in enumerate(v.items):
                self.store_link(st, x, parent, path + [("comp", i)])

    def truth(self, st, v):
        if v is NONE:
            return z3.BoolVal(False)
        if isinstance(v, Sc):
            if v.ty == T.TBool:
                return v.t
            if v.ty in (T.TInt, T.TReal):
                return v.t != 0
            if v.s is not None:
                return z3.BoolVal(bool(v.s))
            return T.truthy_val(v.t)
        if isinstance(v, Ref):
            ty = st.ty(v)
            if ty is None:
                return z3.BoolVal(False)
            t = st.term(v)
            if isinstance(ty, T.TSeq):
                return ty.len(t) != 0
            if isinstance(ty, T.TMap):
                return ty.dom(t) != T.set_theory(ty.k).empty
            return t != ty.th.empty
        if isinstance(v, (Tup, Lst)):
            return z3.BoolVal(bool(v.items))
        if isinstance(v, OptV):
            inner = self.from_term(st, v.ty.ty, v.ty.val(v.t))
            return z3.And(z3.Not(v.ty.is_none(v.t)), self.truth(st, inner))
        if isinstance(v, (Fn, Bi, Obj, ItV)):
            return z3.BoolVal(True)
        raise Unsupported(f"truth of {v!r}")

    def equal(self, st, a, b):
        if a is NONE or b is NONE:
            if isinstance(a, OptV):
                return a.ty.is_none(a.t)
            if isinstance(b, OptV):
                return b.ty.is_none(b.t)
            v = b if a is NONE else a
            if isinstance(v, Sc) and v.ty == T.TVal and v.s is None and any(x.null_values for x in self.libs.ext):
                return v.t == T.VNONE
            return z3.BoolVal(a is b)
        if isinstance(a, OptV) or isinstance(b, OptV):
            if isinstance(a, OptV) and isinstance(b, OptV):
                return a.t == b.t
            o, v = (a, b) if isinstance(a, OptV) else (b, a)
            return o.t == self.to_term(st, v, o.ty)
        if isinstance(a, Sc) and isinstance(b, Sc):
            if a.ty == b.ty:
                if a.s is not None and b.s is not None:
                    return z3.BoolVal(a.s == b.s)
                return a.t == b.t
            for ty in (T.TReal, T.TInt, T.TVal):
                try:
                    return self.coerce(a, ty) == self.coerce(b, ty)
                except Unsupported:
                    pass
        if isinstance(a, (Tup, Lst)) and isinstance(b, (Tup, Lst)):
            if len(a.items) != len(b.items):
                return z3.BoolVal(False)
            return z3.And(*[self.equal(st, x, y) for x, y in zip(a.items, b.items)]) if a.items else z3.BoolVal(True)
        if isinstance(a, Ref) and isinstance(b, Ref):
            ta, tb = st.ty(a), st.ty(b)
            if ta is None and tb is None:
                return z3.BoolVal(True)
            if ta is None:
                return z3.Not(self.truth(st, b))
            if tb is None:
                return z3.Not(self.truth(st, a))
            if isinstance(ta, T.TSet) and ta.sort == tb.sort:
                return st.term(a) == st.term(b)
        raise Unsupported(f"equality of {a!r} and {b!r}")

    # --- evaluation: list of (state, V); raising paths go to self.exc
    def ev(self, st, e):
        m = getattr(self, "e_" + type(e).__name__, None)
        if m is None:
            raise Unsupported(f"expression {type(e).__name__}: {ast.unparse(e)[:80]}")
        return m(st, e)

    def evs(self, st, es):
        res = [(st, [])]
        for e in es:
            new = []
            for s, vs in res:
                if isinstance(e, ast.Starred):
                    for s2, v in self.ev(s, e.value):
                        new.append((s2, vs + self.unpack_star(s2, v)))
                else:
                    for s2, v in self.ev(s, e):
                        new.append((s2, vs + [v]))
            res = new
        return res

    def unpack_star(self, st, v):
        if isinstance(v, (Tup, Lst)):
            return v.items
        if isinstance(v, Ref) or isinstance(v, ItV):
            return [Star(v)]
        raise Unsupported("star of a symbolic sequence")

    def e_Constant(self, st, e):
        v = e.value
        if v is None:
            return [(st, NONE)]
        if isinstance(v, bool):
            return [(st, B(v))]
        if isinstance(v, int):
            return [(st, I(v))]
        if isinstance(v, float):
            return [(st, R(v))]
        if isinstance(v, str):
            return [(st, S(v))]
        raise Unsupported(f"constant {v!r}")

    def e_JoinedStr(self, st, e):
        # formatted text: evaluate the parts (they may raise), the text itself is an arbitrary value
        parts = [p.value for p in e.values if isinstance(p, ast.FormattedValue)]
        out = []
        for s, vs in self.evs(st, parts):
            if not parts:
                out.append((s, S("".join(p.value for p in e.values))))
                continue
            if all(isinstance(v, Sc) and v.s is not None for v in vs):
                it = iter(vs)
                txt = "".join(p.value if isinstance(p, ast.Constant) else next(it).s for p in e.values)
                out.append((s, S(txt)))
                continue
            out.append((s, self.libs.fstring(self, s, e, vs)))
        return out

    def e_Name(self, st, e):
        v = st.lookup(st.fid, e.id)
        if v is None:
            v = self.libs.global_name(self, st, self.module(st), e.id)
        if isinstance(v, Maybe):
            s = self.guard(st, v.cond, "UnboundLocalError", e.id)
            return [] if s is None else [(s, v.v)]
        return [(st, v)]

    def module(self, st):
        return st.tag["module"]

    def e_Attribute(self, st, e):
        out = []
        for s, v in self.ev(st, e.value):
            out += self.libs.attribute(self, s, v, e.attr)
        return out

    def e_Tuple(self, st, e):
        return [(s, Tup(vs)) for s, vs in self.evs(st, e.elts)]

    def e_List(self, st, e):
        out = []
        for s, vs in self.evs(st, e.elts):
            if not vs:
                out.append((s, s.alloc(None, None, "list")))
            elif any(isinstance(v, Star) for v in vs):
                raise Unsupported("star in a list display")
            else:
                out.append((s, Lst(vs)))
        return out

    def e_Set(self, st, e):
        out = []
        for s, vs in self.evs(st, e.elts):
            ty = T.TSet(self.ty_of(s, vs[0]))
            t = ty.th.empty
            for v in vs:
                t = z3.Store(t, self.to_term(s, v, ty.el), z3.BoolVal(True))
            out.append((s, s.alloc(ty, t, "set")))
        return out

    def e_Dict(self, st, e):
        if not e.keys:
            return [(st, st.alloc(None, None, "dict"))]
        out = []
        if any(k is None for k in e.keys):
            raise Unsupported("dict unpacking")
        for s, ks in self.evs(st, e.keys):
            for s2, vs in self.evs(s, e.values):
                if all(isinstance(k, Sc) and k.s is not None for k in ks):
                    o = Obj("constdict", newid())
                    for k, v in zip(ks, vs):
                        s2.attrs[(o.oid, k.s)] = v
                    out.append((s2, o))
                else:
                    raise Unsupported("dict display")
        return out

    def e_Lambda(self, st, e):
        return [(st, Fn(e, st.fid, self.module(st), "lambda"))]

    def e_IfExp(self, st, e):
        out = []
        for s, v in self.ev(st, e.test):
            for s2, b in self.split(s, self.truth(s, v)):
                out += self.ev(s2, e.body if b else e.orelse)
        return out

    def e_NamedExpr(self, st, e):
        out = []
        for s, v in self.ev(st, e.value):
            for s2 in self.bind(s, e.target, v):
                out.append((s2, v))
        return out

    def e_BoolOp(self, st, e):
        is_and = isinstance(e.op, ast.And)
        live, out = [(st, None)], []
        for k, sub in enumerate(e.values):
            nxt = []
            for s, _ in live:
                for s2, v in self.ev(s, sub):
                    if k == len(e.values) - 1:
                        out.append((s2, v))
                        continue
                    for s3, b in self.split(s2, self.truth(s2, v)):
                        if b == is_and:
                            nxt.append((s3, v))
                        else:
                            out.append((s3, self.refine_opt(s3, v, b)))
            live = nxt
        return out

    def refine_opt(self, st, v, truth):
        if isinstance(v, OptV) and truth:
            return self.from_term(st, v.ty.ty, v.ty.val(v.t))
        return v

    def e_UnaryOp(self, st, e):
        out = []
        for s, v in self.ev(st, e.operand):
            if isinstance(e.op, ast.Not):
                out.append((s, B(z3.Not(self.truth(s, v)))))
            elif isinstance(e.op, ast.USub) and isinstance(v, Sc):
                out.append((s, Sc(v.ty, -v.t)))
            else:
                raise Unsupported("unary operator")
        return out

    def e_BinOp(self, st, e):
        out = []
        for s, (a, b) in self.evs(st, [e.left, e.right]):
            out += self.libs.binop(self, s, type(e.op).__name__, a, b)
        return out

    def e_Compare(self, st, e):
        out = []
        for s, vs in self.evs(st, [e.left] + e.comparators):
            conds = []
            live = [s]
            for op, a, b in zip(e.ops, vs, vs[1:]):
                nxt = []
                for s1 in live:
                    for s2, c in self.libs.compare(self, s1, type(op).__name__, a, b):
                        conds.append(c)
                        nxt.append(s2)
                live = nxt
            if len(live) != 1:
                raise Unsupported("comparison that forks")
            out.append((live[0], B(z3.And(*conds) if len(conds) > 1 else conds[0])))
        return out

    def e_Subscript(self, st, e):
        out = []
        for s, v in self.ev(st, e.value):
            if isinstance(e.slice, ast.Slice):
                parts = [x if x is not None else ast.Constant(None) for x in (e.slice.lower, e.slice.upper, e.slice.step)]
                for s2, p in self.evs(s, parts):
                    out += self.libs.getslice(self, s2, v, *p)
            else:
                for s2, k in self.ev(s, e.slice):
                    out += self.libs.getitem(self, s2, v, k)
        return out

    def e_Call(self, st, e):
        out = []
        skip = self.libs.skip_call(self, st, e)
        if skip is not None:
            return skip
        for s, f in self.ev(st, e.func):
            if isinstance(f, Bi) and f.name == "opaque.call":
                pass
            for s2, args in self.evs(s, e.args):
                for s3, kvs in self.evs(s2, [k.value for k in e.keywords]):
                    kw = {}
                    for k, v in zip(e.keywords, kvs):
                        if k.arg is None:
                            if not (isinstance(v, Obj) and v.cls == "constdict"):
                                raise Unsupported("** argument")
                            kw.update({n: x for (oid, n), x in s3.attrs.items() if oid == v.oid})
                        else:
                            kw[k.arg] = v
                    out += self.call(s3, f, args, kw, e)
        return out

    def e_GeneratorExp(self, st, e):
        return self.comp(st, e, "gen")

    def e_ListComp(self, st, e):
        return self.comp(st, e, "list")

    def e_SetComp(self, st, e):
        return self.comp(st, e, "set")

    def e_DictComp(self, st, e):
        return self.comp(st, e, "dict")

    def comp(self, st, e, kind):
        from . import comps
        return comps.comp(self, st, e, kind)

    def e_Yield(self, st, e):
        raise Unsupported("yield used as an expression")

    # --- calls
    def call(self, st, f, args, kw, node=None):
        if isinstance(f, Fn):
            return self.call_fn(st, f, args, kw)
        if isinstance(f, Bi):
            return self.libs.call(self, st, f, args, kw, node)
        if isinstance(f, Obj):
            return self.libs.call_obj(self, st, f, args, kw, node)
        raise Unsupported(f"call of {f!r}")

    def bind_args(self, st, f, args, kw):
        """-> dict of parameter values (defaults evaluated), or raises Unsupported"""
        a = f.node.args
        names = [x.arg for x in a.posonlyargs + a.args]
        vals = {}
        pos = ([f.selfv] if f.selfv is not None else []) + list(args)
        rest = []
        if any(isinstance(x, Star) for x in pos):
            raise Unsupported("star argument")
        for n, v in zip(names, pos):
            vals[n] = v
        if len(pos) > len(names):
            if a.vararg is None:
                raise Unsupported(f"too many arguments for {f.qual}")
            rest = pos[len(names):]
        if a.vararg is not None:
            vals[a.vararg.arg] = Tup(rest)
        konly = [x.arg for x in a.kwonlyargs]
        extra = {}
        for k, v in kw.items():
            if k in names or k in konly:
                vals[k] = v
            elif a.kwarg is not None:
                extra[k] = v
            else:
                raise Unsupported(f"unexpected keyword {k} for {f.qual}")
        if a.kwarg is not None:
            o = Obj("constdict", newid())
            for k, v in extra.items():
                st.attrs[(o.oid, k)] = v
            vals[a.kwarg.arg] = o
        for n, d in list(zip(names[len(names) - len(a.defaults):], a.defaults)) + [(x, d) for x, d in zip(konly, a.kw_defaults) if d is not None]:
            if n not in vals:
                saved, st.fid = st.fid, f.frame
                tagm = st.tag.get("module")
                st.tag = dict(st.tag, module=f.module)
                r = self.ev(st, d)
                st.fid = saved
                st.tag = dict(st.tag, module=tagm)
                if len(r) != 1:
                    raise Unsupported("default value forks")
                vals[n] = r[0][1]
        for n in names + konly:
            if n not in vals:
                raise Unsupported(f"missing argument {n} of {f.qual}")
        return vals

    def call_fn(self, st, f, args, kw):
        from . import contract as C
        if f.qual in self.contracts and not self.contracts[f.qual].inline:
            vals = self.bind_args(st, f, args, kw)
            return C.call_contract(self, st, self.contracts[f.qual], vals)
        return self.inline(st, f, args, kw)

    def inline(self, st, f, args, kw):
        if self.depth > 12 or self.callstack.count(f.qual) > 1 and f.qual != "lambda":
            raise Unsupported(f"recursion through {f.qual}")
        vals = self.bind_args(st, f, args, kw)
        if f.qual and f.qual != "lambda":
            self.inlined.add(f.qual)
        saved_fid, saved_tag, saved_out = st.fid, st.tag, st.out
        fid = st.new_frame(f.frame)
        st.frames[fid].update(vals)
        st.fid = fid
        st.tag = dict(st.tag, module=f.module, qual=f.qual)
        self.depth += 1
        self.callstack.append(f.qual)
        out = []
        try:
            if isinstance(f.node, ast.Lambda):
                for s, v in self.ev(st, f.node.body):
                    s.fid, s.tag, s.out = saved_fid, self.back(saved_tag, s.tag), saved_out
                    out.append((s, v))
                # raising paths
            else:
                gen = contains_yield(f.node)
                if gen:
                    st.out = st.alloc(None, None, "list")
                    hint = self.types.get((f.qual, "yield"))
                    if hint is not None:
                        self.set_ty(st, st.out, hint)
                self.number_loops(f.node, f.qual)
                for s, sig in self.block(st, f.node.body):
                    o = s.out
                    s.fid, s.tag, s.out = saved_fid, self.back(saved_tag, s.tag), saved_out
                    if sig is None:
                        out.append((s, ItV(self.iter_of(s, o)) if gen else NONE))
                    elif sig[0] == "ret":
                        out.append((s, ItV(self.iter_of(s, o)) if gen else sig[1]))
                    elif sig[0] == "exc":
                        self.exc.append((s, sig[1]))
                    else:
                        raise Unsupported("break outside a loop")
        finally:
            self.depth -= 1
            self.callstack.pop()
        return out

    def back(self, mine, theirs):
        """the tags after an inlined call: what the call did to the database stays"""
        return dict(mine, **{k: theirs[k] for k in ("db", "savepoints", "committed", "ghost", "log", "meta", "stored", "stepped") if k in theirs})

    def number_loops(self, node, qual):
        if getattr(node, "_numbered", None):
            return
        i = 0
        for n in walk_order(node):
            if isinstance(n, (ast.For, ast.While)):
                n._loop_key = (qual, i)
                i += 1
        node._numbered = True

    # --- statements: list of (state, None | ('ret', V) | ('exc', Exc) | ('brk',) | ('cont',))
    def block(self, st, stmts):
        live, out = [st], []
        for s in stmts:
            nxt = []
            for x in live:
                for s2, sig in self.stmt(x, s):
                    if sig is None:
                        nxt.append(s2)
                    else:
                        out.append((s2, sig))
            live = nxt
            if not live:
                break
        return [(s, None) for s in live] + out

    def stmt(self, st, n):
        mark = self.exc
        self.exc = []
        try:
            m = getattr(self, "s_" + type(n).__name__, None)
            if m is None:
                raise Unsupported(f"statement {type(n).__name__} at line {n.lineno}")
            res = m(st, n)
            res = list(res) + [(s, ("exc", x)) for s, x in self.exc]
        finally:
            self.exc = mark
        for s, sig in res:
            if sig is not None and sig[0] == "exc" and s.fid != st.fid:
                s.fid, s.tag, s.out = st.fid, self.back(st.tag, s.tag), st.out
        return res

    def s_Pass(self, st, n):
        return [(st, None)]

    def s_Global(self, st, n):
        return [(st, None)]

    def s_Import(self, st, n):
        return [(st, None)]

    s_ImportFrom = s_Import

    def s_Expr(self, st, n):
        v = n.value
        if isinstance(v, ast.Constant):
            return [(st, None)]
        if isinstance(v, ast.Yield):
            out = []
            for s, x in (self.ev(st, v.value) if v.value is not None else [(st, NONE)]):
                self.libs.list_append(self, s, s.out, x)
                out.append((s, None))
            return out
        if isinstance(v, ast.YieldFrom):
            raise Unsupported("yield from")
        return [(s, None) for s, _ in self.ev(st, v)]

    def s_Assign(self, st, n):
        out = []
        for s, v in self.ev(st, n.value):
            live = [s]
            for t in n.targets:
                live = [s2 for x in live for s2 in self.bind(x, t, v)]
            out += [(x, None) for x in live]
        return out

    def s_AnnAssign(self, st, n):
        if n.value is None:
            return [(st, None)]
        out = []
        for s, v in self.ev(st, n.value):
            out += [(x, None) for x in self.bind(s, n.target, v)]
        return out

    def s_AugAssign(self, st, n):
        out = []
        load = _as_load(n.target)
        op = type(n.op).__name__
        for s, v in self.ev(st, load):
            for s2, w in self.ev(s, n.value):
                for s3, r in self.libs.augop(self, s2, op, v, w):
                    if r is v:      # in-place on a mutable object: the binding is unchanged
                        out.append((s3, None))
                    else:
                        out += [(x, None) for x in self.bind(s3, n.target, r)]
        return out

    def s_Delete(self, st, n):
        out = [st]
        for t in n.targets:
            nxt = []
            for s in out:
                if isinstance(t, ast.Name):
                    s.frames[s.fid].pop(t.id, None)
                    nxt.append(s)
                elif isinstance(t, ast.Subscript):
                    for s2, v in self.ev(s, t.value):
                        for s3, k in self.ev(s2, t.slice):
                            nxt += self.libs.delitem(self, s3, v, k)
                else:
                    raise Unsupported("del")
            out = nxt
        return [(s, None) for s in out]

    def bind(self, st, t, v):
        if isinstance(t, ast.Name):
            fid = st.fid
            key = (st.tag.get("qual"), t.id)
            if isinstance(v, Ref) and st.ty(v) is None and key in self.types:
                self.set_ty(st, v, self.types[key])
            elif isinstance(v, Lst) and key in self.types:
                v = st.alloc(self.types[key], self.to_term(st, v, self.types[key]), "list")
            st.frames[fid][t.id] = v
            if st.rebinds is not None:
                st.rebinds.setdefault((fid, t.id), []).append(v)
            return [st]
        if isinstance(t, (ast.Tuple, ast.List)):
            return self.unpack(st, t, v)
        if isinstance(t, ast.Attribute):
            out = []
            for s, o in self.ev(st, t.value):
                self.libs.setattr(self, s, o, t.attr, v)
                out.append(s)
            return out
        if isinstance(t, ast.Subscript):
            out = []
            for s, o in self.ev(st, t.value):
                for s2, k in self.ev(s, t.slice):
                    out += self.libs.setitem(self, s2, o, k, v)
            return out
        raise Unsupported("assignment target")

    def unpack(self, st, t, v):
        if isinstance(v, OptV):
            raise Unsupported("unpacking a possibly-None value")
        if isinstance(v, (Tup, Lst)):
            items = v.items
            star = [i for i, x in enumerate(t.elts) if isinstance(x, ast.Starred)]
            if star:
                i = star[0]
                k = len(t.elts) - i - 1
                items = items[:i] + [Tup(items[i:len(items) - k])] + items[len(items) - k:]
                elts = [x.value if isinstance(x, ast.Starred) else x for x in t.elts]
            else:
                elts = t.elts
            if len(items) != len(elts):
                self.raise_(st, "ValueError", "unpack")
                return []
            live = [st]
            for x, y in zip(elts, items):
                live = [s2 for s in live for s2 in self.bind(s, x, y)]
            return live
        if isinstance(v, Ref) and isinstance(st.ty(v), T.TSeq):
            ty = st.ty(v)
            s = self.guard(st, ty.len(st.term(v)) == len(t.elts), "ValueError", "unpack")
            if s is None:
                return []
            return self.unpack(s, t, Tup([self.seq_elem(s, v, z3.IntVal(i)) for i in range(len(t.elts))]))
        raise Unsupported(f"unpacking {v!r}")

    def s_Return(self, st, n):
        if n.value is None:
            return [(st, ("ret", NONE))]
        return [(s, ("ret", v)) for s, v in self.ev(st, n.value)]

    def s_If(self, st, n):
        out = []
        for s, v in self.ev(st, n.test):
            for s2, b in self.split(s, self.truth(s, v)):
                self.narrow(s2, n.test, b)
                out += self.block(s2, n.body if b else n.orelse)
        return out

    def narrow(self, st, test, b):
        """After a test on a plain name, a possibly-None local becomes a plain value."""
        neg = False
        while isinstance(test, ast.UnaryOp) and isinstance(test.op, ast.Not):
            test, b = test.operand, not b
        if isinstance(test, ast.Compare) and len(test.ops) == 1 and isinstance(test.comparators[0], ast.Constant) \
                and test.comparators[0].value is None and isinstance(test.left, ast.Name):
            b = b == isinstance(test.ops[0], (ast.IsNot, ast.NotEq))
            test = test.left
        if isinstance(test, ast.Name) and b:
            v = st.lookup(st.fid, test.id)
            if isinstance(v, OptV) and test.id in st.frames[st.fid]:
                st.frames[st.fid][test.id] = self.from_term(st, v.ty.ty, v.ty.val(v.t))

    def s_Raise(self, st, n):
        if n.exc is None:
            cur = st.tag.get("handling")
            if cur is None:
                raise Unsupported("bare raise")
            return [(st, ("exc", cur))]
        e = n.exc
        out = []
        if isinstance(e, ast.Call):
            for s, f in self.ev(st, e.func):
                out.append((s, ("exc", Exc(self.libs.exc_name(f), ast.unparse(e)[:80]))))
        else:
            for s, f in self.ev(st, e):
                out.append((s, ("exc", f if isinstance(f, Exc) else Exc(self.libs.exc_name(f)))))
        return out

    def s_Assert(self, st, n):
        out = []
        for s, v in self.ev(st, n.test):
            for s2, b in self.split(s, self.truth(s, v)):
                out.append((s2, None if b else ("exc", Exc("AssertionError"))))
        return out

    def s_Break(self, st, n):
        return [(st, ("brk",))]

    def s_Continue(self, st, n):
        return [(st, ("cont",))]

    def s_FunctionDef(self, st, n):
        v = Fn(n, st.fid, self.module(st), f"{st.tag.get('qual')}.{n.name}")
        for d in reversed(n.decorator_list):
            for s, f in self.ev(st, d):
                r = self.call(s, f, [v], {})
                if len(r) != 1:
                    raise Unsupported("decorator forks")
                st, v = r[0]
        st.frames[st.fid][n.name] = v
        return [(st, None)]

    def s_With(self, st, n):
        live = [(st, [])]
        sts = [(st, [])]
        for item in n.items:
            nxt = []
            for s, mgrs in sts:
                for s2, v in self.ev(s, item.context_expr):
                    for s3, ev, mgr in self.libs.enter(self, s2, v):
                        if item.optional_vars is not None:
                            for s4 in self.bind(s3, item.optional_vars, ev):
                                nxt.append((s4, mgrs + [mgr]))
                        else:
                            nxt.append((s3, mgrs + [mgr]))
            sts = nxt
        out = []
        for s, mgrs in sts:
            for s2, sig in self.block(s, n.body):
                res = [(s2, sig)]
                for m in reversed(mgrs):
                    new = []
                    for s3, sg in res:
                        new += self.libs.exit(self, s3, m, sg)
                    res = new
                out += res
        return out

    def s_Try(self, st, n):
        out = []
        pending = []
        for s, sig in self.block(st, n.body):
            if sig is None and n.orelse:
                pending += self.block(s, n.orelse)
            elif sig is not None and sig[0] == "exc":
                pending += self.handle(s, sig[1], n.handlers)
            else:
                pending.append((s, sig))
        if not n.finalbody:
            return pending
        for s, sig in pending:
            for s2, sig2 in self.block(s, n.finalbody):
                out.append((s2, sig if sig2 is None else sig2))
        return out

    def handle(self, st, exc, handlers):
        for j, h in enumerate(handlers):
            if h.type is None:
                m = True
            else:
                r = self.ev(st, h.type)
                m = self.libs.exc_match(exc, r[0][1])
            if m == "maybe" and exc.cls not in ("any", "anyException"):
                raise Unsupported(f"cannot tell whether {exc} is caught")
            if m:
                out = self.handle(st.copy(), exc, handlers[j + 1:]) if m == "maybe" else []
                if h.name:
                    st.frames[st.fid][h.name] = exc
                old = st.tag.get("handling")
                st.tag = dict(st.tag, handling=exc)
                res = self.block(st, h.body)
                for s, _ in res:
                    s.tag = dict(s.tag, handling=old)
                return res + out
        return [(st, ("exc", exc))]

    # --- loops
    def iter_of(self, st, v):
        if isinstance(v, ItV):
            return v.it
        if isinstance(v, (Tup, Lst)):
            return ConcreteIter(v.items)
        if isinstance(v, Ref):
            ty = st.ty(v)
            if ty is None:
                return ConcreteIter([])
            if isinstance(ty, T.TSeq):
                return SeqIter(v)
            if isinstance(ty, T.TMap):
                return MapIter(self, st, v, "keys")
            if isinstance(ty, T.TBits):
                return SetIter(st.term(v), ty, inc=True)
            return SetIter(st.term(v), ty)
        if isinstance(v, Obj):
            return self.libs.obj_iter(self, st, v)
        raise Unsupported(f"iteration over {v!r}")

    def s_For(self, st, n):
        out = []
        for s, v in self.ev(st, n.iter):
            out += self.for_loop(s, n, self.iter_of(s, v), n.iter)
        return out

    def for_loop(self, st, n, it, src):
        items = it.concrete(self, st)
        if items is not None:
            return self.unroll(st, n, items)

        def step(s, g):
            """one iteration: list of (state, g2, sig)"""
            res = []
            for s2, v, g2 in it.next(self, s, g):
                if v is SKIP:
                    res.append((s2, g2, None))
                    continue
                for s3 in self.bind(s2, n.target, v):
                    for s4, sig in self.block(s3, n.body):
                        res.append((s4, g2, sig))
            return res
        return self.cut_loop(st, n, getattr(n, "_loop_key", None), it, step, n.orelse)

    def unroll(self, st, n, items):
        live, out = [st], []
        for v in items:
            nxt = []
            for s in live:
                for s2 in self.bind(s, n.target, v):
                    for s3, sig in self.block(s2, n.body):
                        if sig is None or sig == ("cont",):
                            nxt.append(s3)
                        elif sig == ("brk",):
                            out.append((s3, None))
                        else:
                            out.append((s3, sig))
            live = nxt
        for s in live:
            out += self.block(s, n.orelse) if n.orelse else [(s, None)]
        return out

    def s_While(self, st, n):
        class W(Iter):
            def init(self, ex, s):
                return {}

            def havoc(self, ex, s):
                return {}
        res = []

        def step(s, g):
            out = []
            for s2, v in self.ev(s, n.test):
                for s3, b in self.split(s2, self.truth(s2, v)):
                    if not b:
                        out.append((s3, g, ("exit",)))
                        continue
                    for s4, sig in self.block(s3, n.body):
                        out.append((s4, g, sig))
            return out
        return self.cut_loop(st, n, n._loop_key, W(), step, n.orelse, is_while=True)

    def spec(self, st, extra=None):
        from .contract import Spec
        return Spec(self, st, st.fid, self.old_state, extra)

    def cut_loop(self, st, n, key, it, step, orelse, is_while=False):
        spec = self.loop_specs.get(key) or Loop()
        body = step

        def step(s, g):
            self.ghosts.append(g)
            try:
                return body(s, g)
            finally:
                self.ghosts.pop()
        label = f"loop {key[1]} of {key[0]} (line {getattr(n, 'lineno', '?')})"
        pre = st

        def inv_facts(s, g):
            return [f[1] if isinstance(f, tuple) else f for f in spec.inv(self.loop_spec_env(s, g, pre, it))]

        g0 = it.init(self, st)
        for k, f in enumerate(inv_facts(st, g0)):
            self.oblige(st, f, f"{label}: invariant {k} holds initially")
        fid = st.fid
        pre_ids = set(st.heap)
        # find what the loop changes
        mod_vars, mod_cells, mod_attrs = {}, set(), set()
        for _ in range(8):
            h = st.copy()
            self.havoc(h, mod_vars, mod_cells, mod_attrs, spec, key)
            h.writes, h.rebinds = set(), {}
            saved = self.recording, self.exc, self.obligs
            self.recording, self.exc, self.obligs = False, [], []
            try:
                g = it.havoc(self, h)
                if not is_while:
                    h.assume(it.more(self, h, g))
                for f in inv_facts(h, g):
                    h.assume(f)
                    pass
                snap = {k: (h.term(Ref(k)) if h.heap[k].ty is not None else None) for k in pre_ids if k in h.heap and h.heap[k].redirect is None}
                w, rb = h.writes, h.rebinds
                ends = step(h, g)
                exc_ends = self.exc
            finally:
                self.recording, self.exc, self.obligs = saved
            new_cells = {c for c in w if c in pre_ids and c not in mod_cells}
            ends2 = [e for e in ends if e[2] is None or e[2][0] in ("cont", "exit")]
            new_vars = {}
            for (f_, name), vs in rb.items():
                if f_ in st.frames and (f_, name) not in mod_vars:
                    new_vars[(f_, name)] = None
            new_attrs = {a for a in w if isinstance(a, tuple) and a not in mod_attrs}
            # sample values for typing
            for k in list(new_vars) + list(mod_vars):
                samples = [e[0].frames[k[0]].get(k[1]) for e in ends2 if k[0] in e[0].frames]
                samples = [(e[0], v) for e, v in zip(ends2, samples) if v is not None]
                mod_vars[k] = self.sample_type(samples, st, k, spec, mod_vars.get(k))
                mod_vars[k]["owned"] = mod_vars[k].get("owned", True) and self.owned(st, st.lookup(k[0], k[1]), k, it, g0) \
                    and all(self.owned(s, v, k, it, g) for s, v in samples)
            # cells whose type became known in the body
            retype = {}
            for c in pre_ids:
                if c in st.heap and st.heap[c].ty is None:
                    for e in ends2:
                        if c in e[0].heap and e[0].heap[c].ty is not None and e[0].heap[c].redirect is None:
                            retype[c] = e[0].heap[c].ty
            for c, ty in retype.items():
                self.set_ty(st, Ref(c), ty)
            mod_attrs |= new_attrs
            mod_cells |= new_cells
            if not new_cells and not new_vars and not retype and not new_attrs:
                break
        else:
            raise Unsupported(f"{label}: cannot determine what the loop changes")
        # names that may refer to objects the loop changes
        for k, info in mod_vars.items():
            if info and info.get("roots") and info["roots"] & mod_cells and not info.get("owned"):
                info["ro"] = True
                info["unreadable"] = True
        out = []
        # arbitrary iteration
        h = st.copy()
        self.havoc(h, mod_vars, mod_cells, mod_attrs, spec, key)
        exit_state = h.copy()
        g = it.havoc(self, h)
        before = len(h.pc)
        for f in inv_facts(h, g):
            h.assume(f)
        invariants = range(before, len(h.pc))
        if not is_while:
            exit_state = h.copy()
            h.assume(it.more(self, h, g))
        self.cover(h, label)
        begun = h.copy()
        for s, g2, sig in step(h, g):
            if sig is None or sig[0] == "cont":
                for f in (spec.steps(self.loop_spec_env(s, g2, pre, it, begun)) if spec.steps else []):
                    self.oblige(s, f, f"{label}: step fact")
                for k, f in enumerate(inv_facts(s, g2)):
                    self.oblige(s, f, f"{label}: invariant {k} is preserved")
            elif sig[0] == "brk":
                out.append((s, None))
            elif sig[0] == "exit":
                out += self.block(s, orelse) if orelse else [(s, None)]
            else:
                out.append((s, sig))
        if not is_while:
            exhausted_at = len(exit_state.pc)
            exit_state.assume(*it.exhausted(self, exit_state, g))
            if spec.hints is not None:
                for f in spec.hints(self.loop_spec_env(exit_state, g, pre, it)):
                    self.oblige(exit_state, f, f"{label}: fact after the loop")
            if spec.keep is not None:
                proved, kept = exit_state.copy(), spec.keep(self.loop_spec_env(exit_state, g, pre, it))
                for f in kept:
                    self.oblige(proved, f, f"{label}: fact kept after the loop")
                for i in [*invariants, *range(exhausted_at, len(exit_state.pc))]:
                    exit_state.pc[i] = z3.BoolVal(True)
                exit_state.assume(*it.exhausted(self, exit_state, g), *kept)
            if not self.infeasible(exit_state):
                out += self.block(exit_state, orelse) if orelse else [(exit_state, None)]
        return out

    def loop_spec_env(self, s, g, pre, it=None, begun=None):
        from .contract import Spec
        c = Spec(self, s, s.fid, self.old_state, g, pre)
        c.__dict__["_begun"] = begun
        c.__dict__["iterated"] = it
        c.__dict__["_outer"] = self.ghosts[-1] if self.ghosts else None
        return c

    def cover(self, st, label):
        pass

    def owned(self, st, v, k, *more):
        """v is an object that nothing but the variable k refers to"""
        if not isinstance(v, Ref) or v.cid not in st.heap or st.heap[v.cid].ro or st.heap[v.cid].redirect is not None:
            return False
        seen = set()

        def reaches(x):
            if isinstance(x, Ref):
                return x.cid in st.heap and st.root(x).cid == v.cid
            if isinstance(x, (str, int, float, bool, type(None), z3.AstRef, T.Ty, ast.AST)) or id(x) in seen:
                return False
            seen.add(id(x))
            if isinstance(x, dict):
                return any(reaches(y) for y in x.values()) or any(reaches(y) for y in x)
            if isinstance(x, (list, tuple, set, frozenset)):
                return any(reaches(y) for y in x)
            return hasattr(x, "__dict__") and any(reaches(y) for y in vars(x).values())
        held = [x for fid, fr in st.frames.items() for name, x in fr.items() if (fid, name) != k]
        held += list(st.attrs.values()) + list(st.tag.values() if isinstance(st.tag, dict) else [st.tag]) + list(more) + list(self.ghosts)
        held += [c.redirect for cid, c in st.heap.items() if cid != v.cid and c.redirect is not None]
        return not any(reaches(x) for x in held)

    def sample_type(self, samples, st, k, spec, prev):
        info = prev or {"kind": None, "roots": set()}
        for s, v in samples:
            if isinstance(v, Maybe):
                v = v.v
            d = self.describe(s, v)
            for c in self.refs_in(v):
                r = s.root(Ref(c)).cid
                if r in st.heap:
                    info["roots"].add(r)
            if info["kind"] is None:
                info["kind"] = d
            else:
                info["kind"] = join_desc(info["kind"], d)
        before = st.lookup(k[0], k[1])
        if before is not None and not isinstance(before, Maybe):
            for c in self.refs_in(before):
                info["roots"].add(st.root(Ref(c)).cid)
            info["kind"] = join_desc(info["kind"], self.describe(st, before)) if info["kind"] else self.describe(st, before)
            info["bound"] = True
        return info

    def refs_in(self, v):
        if isinstance(v, Ref):
            return [v.cid]
        if isinstance(v, (Tup, Lst)):
            return [c for x in v.items for c in self.refs_in(x)]
        if isinstance(v, Maybe):
            return self.refs_in(v.v)
        return []

    def describe(self, st, v):
        if isinstance(v, Sc):
            return ("sc", v.ty)
        if v is NONE:
            return ("none",)
        if isinstance(v, Tup):
            return ("tup", [self.describe(st, x) for x in v.items])
        if isinstance(v, Rec):
            return ("rec", v.names, [self.describe(st, x) for x in v.items])
        if isinstance(v, Ref):
            c = st.cell(v)
            return ("ref", c.ty, c.kind, c.default)
        if isinstance(v, OptV):
            return ("opt", v.ty)
        if isinstance(v, Maybe):
            return self.describe(st, v.v)
        if isinstance(v, Stale):
            return ("stale",)
        if isinstance(v, Obj) and v.cls.startswith("future:"):
            return ("fut", v.cls, st.attrs[(v.oid, "ty")])
        return ("other", v)

    def fresh_of(self, st, d, name, ro=False):
        if d[0] == "sc":
            return Sc(d[1], T.fresh(name, d[1].sort))
        if d[0] == "none":
            return NONE
        if d[0] == "tup":
            return Tup([self.fresh_of(st, x, name, ro) for x in d[1]])
        if d[0] == "rec":
            return Rec(d[1], [self.fresh_of(st, x, name, ro) for x in d[2]])
        if d[0] == "ref":
            if d[1] is None:
                return st.alloc(None, None, d[2], d[3])
            t = T.fresh(name, d[1].sort)
            st.assume(*T.type_inv(t, d[1]))
            r = st.alloc(d[1], t, d[2], d[3])
            if ro:
                st.heap[r.cid] = st.heap[r.cid].clone(ro=True)
            return r
        if d[0] == "opt":
            t = T.fresh(name, d[1].sort)
            st.assume(*T.type_inv(t, d[1]))
            return OptV(d[1], t)
        if d[0] == "fut":
            return self.from_term(st, d[2], T.fresh(name, d[2].sort))
        if d[0] == "other":
            return d[1]
        raise Unsupported(f"a variable changed by a loop has changing kinds ({name}: {d})")

    def havoc(self, st, mod_vars, mod_cells, mod_attrs, spec, key):
        for c in mod_cells:
            if isinstance(c, tuple):
                continue
            cell = st.heap[c]
            if cell.ty is None:
                continue
            t = T.fresh("h", cell.ty.sort)
            st.assume(*T.type_inv(t, cell.ty))
            st.heap[c] = cell.clone(term=t)
            # views into this container that are keyed by position stay views
        for a in mod_attrs:
            v = st.attrs[a]
            st.attrs[a] = self.fresh_of(st, self.describe(st, v), a[1] if isinstance(a[1], str) else "attr")
        for (fid, name), info in mod_vars.items():
            if info is None or info["kind"] is None:
                continue
            if info.get("unreadable") or info["kind"][0] in ("stale", "mixed"):
                st.frames[fid][name] = Maybe(z3.BoolVal(False), NONE) if False else Stale(name)
                continue
            old = st.frames[fid].get(name)
            roots = info.get("roots") or set()
            v = self.fresh_of(st, info["kind"], name, ro=bool(roots) and not info.get("owned"))
            if old is None or isinstance(old, Maybe):
                b = T.fresh("bound_" + name, z3.BoolSort())
                st.frames[fid][name] = Maybe(b, v)
            else:
                st.frames[fid][name] = v


class Stale(V):
    def __init__(self, name):
        self.name = name


class Star(V):
    def __init__(self, v):
        self.v = v


def join_desc(a, b):
    if a == b or a is b:
        return a
    if a[0] == "stale":
        return b
    if b[0] == "stale":
        return a
    if a[0] == b[0] == "sc":
        for x, y in ((a, b), (b, a)):
            if x[1] == T.TReal and y[1] in (T.TInt, T.TBool):
                return ("sc", T.TReal)
        if a[1] == b[1]:
            return a
    if a[0] == b[0] == "tup" and len(a[1]) == len(b[1]):
        return ("tup", [join_desc(x, y) for x, y in zip(a[1], b[1])])
    if a[0] == b[0] == "ref":
        if a[2] != b[2]:
            return ("mixed",)
        if a[1] is None:
            return ("ref", b[1], b[2], b[3] or a[3])
        if b[1] is None or a[1] == b[1] or a[1].sort == b[1].sort:
            return a
    if a[0] == b[0] == "fut" and a[1] == b[1] and a[2].sort == b[2].sort:
        return a
    if a[0] == "other" and b[0] == "other":
        return a if a[1] is b[1] else ("mixed",)
    return ("mixed",)


def walk_order(node):
    """pre-order, source order, not into nested functions"""
    for c in ast.iter_child_nodes(node):
        yield c
        if not isinstance(c, (ast.FunctionDef, ast.Lambda)):
            yield from walk_order(c)


def _as_load(t):
    t2 = ast.copy_location(ast.parse(ast.unparse(t), mode="eval").body, t)
    return t2


box_int = z3.Function("box_int", z3.IntSort(), T.Val)
unbox_int = z3.Function("unbox_int", T.Val, z3.IntSort())
_i = z3.Int("i")
T.axiom([box_int], z3.ForAll([_i], unbox_int(box_int(_i)) == _i, patterns=[box_int(_i)]), "boxing is injective")
