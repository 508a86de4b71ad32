"""Process pools, futures and random numbers.

A submitted call is seen through the contract of the function it runs.  Results arrive in an arbitrary order where
the code does not wait for a particular one.  Workers read the database as it was when the call was submitted."""
import ast

import z3

from . import theory as T
from . import comps
from .values import *
from .engine import Iter, SeqIter, SetIter, ConcreteIter, RangeIter
from .libs import Ext


class Mapped(Iter):
    """pool.map(fn, args): the results in order"""

    def __init__(self, par, fn, base, db):
        self.par, self.fn, self.base, self.db = par, fn, base, db

    def init(self, ex, st):
        return self.base.init(ex, st)

    def havoc(self, ex, st):
        return self.base.havoc(ex, st)

    def more(self, ex, st, g):
        return self.base.more(ex, st, g)

    def exhausted(self, ex, st, g):
        return self.base.exhausted(ex, st, g)

    def next(self, ex, st, g):
        out = []
        for s, v, g2 in self.base.next(ex, st, g):
            for s2, r in self.par.run(ex, s, self.fn, [v], self.db):
                out.append((s2, r, g2))
        return out

    def length(self, ex, st):
        return self.base.length(ex, st)


class Eager(Iter):
    """A generator that pool.map consumes at once: its elements, in the database as it was then"""

    def __init__(self, par, base, db):
        self.par, self.base, self.db = par, base, db

    def init(self, ex, st):
        return self.base.init(ex, st)

    def havoc(self, ex, st):
        return self.base.havoc(ex, st)

    def more(self, ex, st, g):
        return self.base.more(ex, st, g)

    def exhausted(self, ex, st, g):
        return self.base.exhausted(ex, st, g)

    def length(self, ex, st):
        return self.base.length(ex, st)

    def next(self, ex, st, g):
        now = self.par.snapshot(st)
        put(st, self.db)
        before, exc, ex.exc, writes, st.writes = set(st.heap), ex.exc, [], st.writes, set()
        out = []
        for s, v, g2 in self.base.next(ex, st, g):
            if s.writes & before or any(not z3.eq(t, self.db[n]) for n, t in self.par.snapshot(s).items()):
                raise Unsupported("the arguments of a background call change existing objects")
            s.writes = writes
            put(s, now)
            out.append((s, v, g2))
        if ex.exc:
            raise Unsupported("the arguments of a background call may raise")
        ex.exc = exc
        return out


def put(st, db):
    for n, t in db.items():
        r = st.tag["db"][n]
        st.heap[r.cid] = st.heap[r.cid].clone(term=t)


class Par(Ext):
    def __init__(self, repo):
        self.repo = repo
        self.fixed = {}

    def attribute(self, ex, st, v, name):
        if isinstance(v, Obj) and v.cls == "index.Index":
            if name in ("pool", "random") and (v.oid, name) not in st.attrs:
                o = Obj(name, newid())
                st.attrs[(v.oid, name)] = o
                if name == "pool":
                    n = T.fresh("workers", z3.IntSort())
                    st.assume(n >= 1)
                    st.attrs[(o.oid, "_max_workers")] = I(n)
                return [(st, o)]
        if isinstance(v, Obj) and v.cls in ("pool", "random") and (v.oid, name) not in st.attrs:
            return [(st, Bi(f"{v.cls}.{name}", v))]
        if isinstance(v, Obj) and v.cls.startswith("future:") and name == "result":
            return [(st, Bi("future.result", v))]
        return None

    def holds_objects(self, ex, st, it):
        """whether the elements hold objects that have no logical value (the index)"""
        s, mark, exc = st.copy(), T._n[0], ex.exc
        ex.exc = []
        rec, ex.recording = ex.recording, False
        try:
            for s2, v, _ in it.next(ex, s, it.init(ex, s)):
                if isinstance(v, Tup) and any(isinstance(x, Obj) for x in v.items):
                    return True
        except Unsupported:
            pass
        finally:
            ex.exc, ex.recording = exc, rec
        return False

    def snapshot(self, st):
        return {n: st.term(r) for n, r in st.tag.get("db", {}).items()}

    def run(self, ex, st, fn, args, db):
        """call the contract of fn in the database db"""
        from .contract import call_contract
        con = ex.contracts.get(fn.qual)
        if con is None or con.inline:
            raise Unsupported(f"a background call of {fn.qual}, which has no contract")
        if con.writes:
            raise Unsupported(f"a background call of {fn.qual}, which writes")
        ex.assumptions.add("background workers see the tables they read as they are in the calling process when the call is submitted")
        now = self.snapshot(st)
        for n, t in db.items():
            r = st.tag["db"].get(n)
            if r is not None and not z3.eq(now[n], t):
                st.heap[r.cid] = st.heap[r.cid].clone(term=t)
        vals = ex.bind_args(st, fn, args, {})
        out = []
        for s, r in call_contract(ex, st, con, vals):
            for n, t in now.items():
                rr = s.tag["db"][n]
                s.heap[rr.cid] = s.heap[rr.cid].clone(term=t)
            out.append((s, r))
        return out

    def call(self, ex, st, f, args, kw, node):
        n = f.name
        if n == "pool.map":
            if len(args) != 2:
                raise Unsupported("pool.map")
            it = ex.iter_of(st, args[1])
            if self.holds_objects(ex, st, it):
                return [(st, ItV(Mapped(self, args[0], Eager(self, it, self.snapshot(st)), self.snapshot(st))))]
            out = []
            for s, lst in comps.to_list(ex, st, it):
                out.append((s, ItV(Mapped(self, args[0], SeqIter(lst), self.snapshot(s)))))
            return out
        if n == "pool.submit":
            fn, rest = args[0], args[1:]
            if not isinstance(fn, Fn):
                raise Unsupported("submit")
            shape, terms, tys = [], [], []
            for a in rest:
                if isinstance(a, (Obj, Fn)) or a is NONE or (isinstance(a, Bi)):
                    shape.append(a)
                else:
                    p = ex.contracts[fn.qual].params if fn.qual in ex.contracts else {}
                    name = [x.arg for x in fn.node.args.args][len(shape)]
                    ty = p[name].ty if name in p and p[name].ty is not None else ex.ty_of(st, a)
                    shape.append(None)
                    tys.append(ty)
                    terms.append(ex.to_term(st, a, ty))
            uid = T.fresh("future", z3.IntSort())
            ty = T.TFut(fn.qual, tys + [T.TInt])
            key = fn.qual
            old = self.fixed.get(key)
            db = self.snapshot(st)
            if old is not None and ([type(x) for x in old[1]] != [type(x) for x in shape] or any(not z3.eq(db[k], old[2][k]) for k in db if k in old[2])):
                self.fixed[key] = (fn, shape, None)
            else:
                self.fixed[key] = (fn, shape, db)
            o = Obj("future:" + fn.qual, newid())
            st.attrs[(o.oid, "ty")] = ty
            st.attrs[(o.oid, "term")] = ty.mk(*terms, uid)
            return [(st, o)]
        if n == "future.result":
            fn, shape, db = self.fixed[f.recv.cls[7:]]
            if db is None:
                raise Unsupported("the database changes between submissions")
            ty, t = st.attrs[(f.recv.oid, "ty")], st.attrs[(f.recv.oid, "term")]
            j, vals = 0, []
            for x in shape:
                if x is None:
                    vals.append(ex.from_term(st, ty.tys[j], ty.get(t, j)))
                    j += 1
                else:
                    vals.append(x)
            return self.run(ex, st, fn, vals, db)
        if n == "cf.as_completed":
            v = args[0]
            if isinstance(v, Ref) and isinstance(st.ty(v), T.TSeq):
                ln = st.ty(v).len(st.term(v))
                idx = T.setof(T.TInt, lambda k: z3.And(0 <= k, k < ln))
                st.assume(T.set_theory(T.TInt).card(idx) == ln)
                return [(st, ItV(SetIter(idx, T.TSet(T.TInt), False, lambda s, k: ex.seq_elem(s, v, k))))]
            return [(st, ItV(ex.iter_of(st, v)))]
        if n == "random.random":
            r = T.fresh("rnd", z3.RealSort())
            st.assume(r >= 0, r < 1)
            return [(st, R(r))]
        if n == "random.choice":
            v = args[0]
            ty = st.ty(v) if isinstance(v, Ref) else None
            if ty is None or not isinstance(ty, T.TSeq):
                raise Unsupported("random.choice")
            t = st.term(v)
            s = ex.guard(st, ty.len(t) > 0, "IndexError", "choice from an empty sequence")
            if s is None:
                return []
            i = T.fresh("pick", z3.IntSort())
            s.assume(0 <= i, i < ty.len(t))
            return [(s, ex.seq_elem(s, v, i))]
        if n == "random.shuffle":
            v = args[0]
            ty = st.ty(v)
            if ty is None:
                return [(st, NONE)]
            t = st.term(v)
            st.set_term(v, permuted(st, ty, t))
            return [(st, NONE)]
        if n == "random.sample":
            if isinstance(args[0], (Lst, Tup)):
                raise Unsupported("sample of a display")
            v, k = args[0], ex.coerce(args[1], T.TInt)
            if isinstance(v, ItV) and isinstance(v.it, RangeIter):
                rg, size = v.it, v.it.n
                s = ex.guard(st, z3.And(k >= 0, k <= size), "ValueError", "sample larger than population")
                if s is None:
                    return []
                sty = T.TSeq(T.TInt)
                r = T.fresh("sample", sty.sort)
                src, dst = T.fresh_fn("src", z3.IntSort(), z3.IntSort()), T.fresh_fn("dst", z3.IntSort(), z3.IntSort())
                i = T.fresh("i", z3.IntSort())
                s.assume(sty.len(r) == k)
                s.assume(z3.ForAll([i], z3.Implies(z3.And(0 <= i, i < k), z3.And(0 <= src(i), src(i) < size, dst(src(i)) == i, sty.at(r, i) == rg.at(src(i)))), patterns=[sty.at(r, i)]))
                s.tag = dict(s.tag, lastsample=r)
                return [(s, s.alloc(sty, r, "list"))]
            ty = st.ty(v) if isinstance(v, Ref) else None
            if not isinstance(v, Ref) or not isinstance(ty, (T.TSeq, T.TBits)):
                raise Unsupported("random.sample")
            t = st.term(v)
            bits = isinstance(ty, T.TBits)
            size = ty.th.card(t) if bits else ty.len(t)
            s = ex.guard(st, z3.And(k >= 0, k <= size), "ValueError", "sample larger than population")
            if s is None:
                return []
            sty = T.TSeq(T.TInt if bits else ty.el)
            r = T.fresh("sample", sty.sort)
            src = T.fresh_fn("src", z3.IntSort(), z3.IntSort())
            dst = T.fresh_fn("dst", z3.IntSort(), z3.IntSort())
            i = T.fresh("i", z3.IntSort())
            s.assume(sty.len(r) == k)
            at = T.bits().sel(t, src(i)) if bits else ty.at(t, src(i))
            s.assume(z3.ForAll([i], z3.Implies(z3.And(0 <= i, i < k), z3.And(0 <= src(i), src(i) < size, dst(src(i)) == i, sty.at(r, i) == at)), patterns=[sty.at(r, i)]))
            return [(s, s.alloc(sty, r, "list"))]
        return None


def permuted(st, ty, t):
    r = T.fresh("shuffled", ty.sort)
    src, dst = T.fresh_fn("src", z3.IntSort(), z3.IntSort()), T.fresh_fn("dst", z3.IntSort(), z3.IntSort())
    i = T.fresh("i", z3.IntSort())
    n = ty.len(t)
    inr = lambda a: z3.And(0 <= a, a < n)
    st.assume(ty.len(r) == n)
    body = z3.Implies(inr(i), z3.And(inr(src(i)), dst(src(i)) == i, ty.at(r, i) == ty.at(t, src(i))))
    st.assume(z3.ForAll([i], body, patterns=[ty.at(r, i)]), z3.ForAll([i], body, patterns=[src(i)]))
    back = z3.Implies(inr(i), z3.And(inr(dst(i)), src(dst(i)) == i, ty.at(r, dst(i)) == ty.at(t, i)))
    st.assume(z3.ForAll([i], back, patterns=[ty.at(t, i)]), z3.ForAll([i], back, patterns=[dst(i)]))
    return r
