"""Comprehensions and generator expressions, and lifting an element expression over a whole collection."""
import ast

import z3

from . import theory as T
from .values import *
from .engine import GenIter, SKIP, RangeIter, SetIter


def comp(ex, st, e, kind):
    gens = e.generators
    out = []
    for s, v in ex.ev(st, gens[0].iter):
        base = ex.iter_of(s, v)
        if kind == "dict":
            elt = ast.copy_location(ast.Tuple([e.key, e.value], ast.Load()), e)
        else:
            elt = e.elt
        if len(gens) > 1:
            out += nested(ex, s, e, base, gens, elt, kind)
            continue
        it = GenIter(ex, s, base, gens[0].target, elt, gens[0].ifs, s.fid, ex.module(s))
        out += finish(ex, s, it, kind)
    return out


def finish(ex, st, it, kind):
    if kind == "gen":
        return [(st, ItV(it))]
    if kind == "list":
        return to_list(ex, st, it)
    if kind == "set":
        return to_set(ex, st, it)
    if kind == "dict":
        return to_dict(ex, st, it)


class Flat(GenIter):
    """(elt for a in A for b in B(a)): quantified over a pair of variables; only set-like uses."""

    def __init__(self, ex, st, base, gens, elt, fid):
        self.base, self.gens, self.elt, self.fid = base, gens, elt, fid

    def quants(self, ex, st):
        """-> (vars, cond, [(st', V)]) evaluated in st (already a scratch state)"""
        raise NotImplementedError


def nested(ex, st, e, base, gens, elt, kind):
    if kind not in ("set", "dict", "gen"):
        raise Unsupported("nested list comprehension")
    it = Nested(ex, st, base, gens, elt)
    if kind == "gen":
        return [(st, ItV(it))]
    return finish(ex, st, it, kind)


from .engine import Iter


class Nested(Iter):
    def __init__(self, ex, st, base, gens, elt):
        self.base, self.gens, self.elt, self.fid = base, gens, elt, st.fid

    def concrete(self, ex, st):
        return None

    def collect(self, ex, st):
        """scratch evaluation: list of (vars, cond, st, V)"""
        res = []
        x, c, f, k, trig, n = self.base.quant(ex, st)
        saved = st.fid
        st.fid = st.new_frame(self.fid)

        def level(s, j, vs, conds, trigs):
            if j == len(self.gens):
                for s2, v in ex.ev(s, self.elt):
                    s2.fid = saved
                    res.append((vs, z3.And(*conds), s2, v, trigs))
                return
            g = self.gens[j]
            for s1, itv in ex.ev(s, g.iter):
                x2, c2, f2, k2, trig2, n2 = ex.iter_of(s1, itv).quant(ex, s1)
                s1.assume(c2)
                for s2, v in f2(s1):
                    for s3 in ex.bind(s2, g.target, v):
                        filt(s3, j, g, vs + [x2], conds + [c2], trigs + trig2)

        def filt(s, j, g, vs, conds, trigs):
            live = [s]
            for cnd in g.ifs:
                nxt = []
                for s1 in live:
                    for s2, b in ex.ev(s1, cnd):
                        s2.assume(ex.truth(s2, b))
                        nxt.append(s2)
                live = nxt
            for s1 in live:
                level(s1, j + 1, vs, conds, trigs)
        st.assume(c)
        for s, v in f(st):
            for s2 in ex.bind(s, self.gens[0].target, v):
                filt(s2, 0, self.gens[0], [x], [c], list(trig))
        return res


def generalise(fs, vs, mark):
    """Replace constants created after mark (other than vs) by functions of vs."""
    consts, funcs = {}, {}
    seen = set()
    stack = list(fs)
    vnames = {v.decl().name() for v in vs}
    while stack:
        t = stack.pop()
        if t.get_id() in seen:
            continue
        seen.add(t.get_id())
        if z3.is_quantifier(t):
            stack.append(t.body())
            for p in range(t.num_patterns()):
                stack.append(t.pattern(p))
            continue
        if z3.is_app(t):
            d = t.decl()
            if d.kind() == z3.Z3_OP_UNINTERPRETED and "!" in d.name():
                tail = d.name().rsplit("!", 1)[1]
                if tail.isdigit() and int(tail) > mark and d.name() not in vnames:
                    if d.arity() == 0:
                        consts[d.name()] = t
                    else:
                        funcs[d.name()] = d
            stack.extend(t.children())
    sub = []
    for n, c in consts.items():
        f = T.fresh_fn(n.rsplit("!", 1)[0] + "_f", *[v.sort() for v in vs], c.sort())
        sub.append((c, f(*vs)))
    fsub = []
    for n, d in funcs.items():
        dom = [d.domain(i) for i in range(d.arity())]
        f = T.fresh_fn(n.rsplit("!", 1)[0] + "_f", *[v.sort() for v in vs], *dom, d.range())
        fsub.append((d, f(*vs, *[z3.Var(i, dom[i]) for i in range(len(dom))])))

    def app(t):
        t = z3.substitute(t, *sub) if sub else t
        return z3.substitute_funs(t, *fsub) if fsub else t
    return app


def pick_patterns(vs, cands, fs):
    """the candidate trigger terms that mention all bound variables"""
    out = []
    for c in cands:
        names = T.decls_of([c])
        if all(v.decl().name() in names for v in vs) and z3.is_app(c) and c.decl().kind() != z3.Z3_OP_ITE \
                and not has_interp(c):
            out.append(c)
    return out


def has_interp(t):
    stack = [t]
    while stack:
        x = stack.pop()
        if z3.is_app(x):
            k = x.decl().kind()
            if k in (z3.Z3_OP_ITE, z3.Z3_OP_AND, z3.Z3_OP_OR, z3.Z3_OP_NOT, z3.Z3_OP_LE, z3.Z3_OP_GE, z3.Z3_OP_LT,
                     z3.Z3_OP_GT, z3.Z3_OP_EQ):
                return True
            stack.extend(x.children())
        elif z3.is_quantifier(x):
            return True
    return False


class Lifted:
    """The element expression of a collection, for an arbitrary element (bound variables vs)."""

    def __init__(self, vs, cond, cases, facts, trig, kind, n, skips):
        self.vs, self.cond, self.cases, self.facts, self.trig, self.kind, self.n, self.skips = vs, cond, cases, facts, trig, kind, n, skips
        self.hyps = [c for c, _ in cases]      # the branch conditions alone, without what contracts guarantee on the way


def lift(ex, st, it, ty=None):
    """-> (Lifted, ty) ; raising elements fork a raising path on ex.exc.
    cases: list of (branch condition, term); an element is skipped when no case holds."""
    mark = T._n[0]
    scratch = st.copy()
    pre_heap = set(st.heap)
    scratch.writes = set()
    saved = ex.exc
    ex.exc = []
    base_len = len(scratch.pc)
    try:
        if isinstance(it, Nested):
            got = it.collect(ex, scratch)
            if not got:
                raise Unsupported("empty nested comprehension")
            vs, cond, trig, kind, n = got[0][0], got[0][1], got[0][4], "set", None
            res = [(s, v) for _, _, s, v, _ in got]
        else:
            x, cond, f, kind, trig, n = it.quant(ex, scratch)
            vs = [x]
            scratch.assume(cond)
            res = f(scratch)
        raised = ex.exc
    finally:
        ex.exc = saved
    changed = {c for c in scratch.writes if c in pre_heap}
    if changed:
        raise Unsupported("an element expression changes existing objects")
    cases, facts, skips, hyps = [], [], [], []

    def branch(s, upto=None):
        fs = [f for k, f in enumerate(s.pc[:upto]) if k >= base_len and k not in s.facts]
        return z3.And(*fs) if fs else z3.BoolVal(True)
    for s, v in res:
        for k in sorted(s.facts):
            if k >= base_len:
                facts.append(z3.Implies(z3.And(cond, branch(s, k)), s.pc[k]))
        if v is not SKIP:
            hyps.append(branch(s))
    for s, v in res:
        new = s.pc[base_len:]
        if v is SKIP:
            skips.append(z3.And(*new))
            continue
        if ty is None:
            ty = ex.ty_of(s, v)
        else:
            try:
                ty = ty if ty == ex.ty_of(s, v) else join_ty(ty, ex.ty_of(s, v))
            except Unsupported:
                pass
    for s, v in res:
        if v is SKIP:
            continue
        cases.append((z3.And(*s.pc[base_len:]) if len(s.pc) > base_len else z3.BoolVal(True), ex.to_term(s, v, ty)))
    for s, x in raised:
        r = st.copy()
        r.pc = list(s.pc)
        ex.exc.append((r, x))
    alls = [c for c, _ in cases] + [t for _, t in cases] + skips + [cond] + list(trig) + facts + hyps
    app = generalise(alls, vs, mark)
    cases = [(app(c), app(t)) for c, t in cases]
    skips = [app(c) for c in skips]
    cond = app(cond)
    trig = [app(t) for t in trig]
    pats = pick_patterns(vs, trig, None)
    said = []
    for f in facts:
        f = app(f)
        if pats and not any(z3.eq(f, g) for g in said):
            said.append(f)
            st.assume(z3.ForAll(vs, f, patterns=pats))
    L = Lifted(vs, cond, cases, facts, trig, kind, n, skips)
    L.hyps = [app(c) for c in hyps]
    return L, ty


def join_ty(a, b):
    if a == b or a.sort == b.sort:
        return a
    if {a.key, b.key} <= {"Int", "Real", "Bool"}:
        return T.TReal if "Real" in (a.key, b.key) else T.TInt
    if isinstance(a, T.TTup) and isinstance(b, T.TTup) and len(a.tys) == len(b.tys):
        return T.TTup(*[join_ty(x, y) for x, y in zip(a.tys, b.tys)])
    raise Unsupported(f"elements of types {a} and {b}")


def fa(vs, body, pats):
    pats = [p for p in pats]
    if pats:
        return z3.ForAll(vs, body, patterns=pats)
    return z3.ForAll(vs, body)


def to_list(ex, st, it, ty=None, kind="list"):
    L, ty = lift(ex, st, it, ty)
    if ty is None:
        raise Unsupported("element type of a comprehension")
    sty = T.TSeq(ty)
    r = T.fresh("lst", sty.sort)
    st.assume(sty.len(r) >= 0)
    x = L.vs[0]
    filtered = bool(L.skips)
    if L.kind == "seq" and not filtered:
        body = z3.Implies(L.cond, z3.Or(*[z3.And(c, sty.at(r, x) == t) for c, t in L.cases]))
        st.assume(sty.len(r) == L.n)
        st.assume(fa(L.vs, body, [sty.at(r, x)] + pick_patterns(L.vs, L.trig, None)))
    elif L.kind == "seq":
        # increasing selection of the source positions
        kf = T.fresh_fn("src", z3.IntSort(), z3.IntSort())
        ix = T.fresh_fn("dst", z3.IntSort(), z3.IntSort())
        i, j = T.fresh("i", z3.IntSort()), T.fresh("j", z3.IntSort())
        rng = lambda a: z3.And(0 <= a, a < sty.len(r))
        sel = z3.Or(*[z3.And(c, sty.at(r, i) == t) for c, t in L.cases])
        st.assume(fa([i], z3.Implies(rng(i), z3.And(z3.substitute(L.cond, (x, kf(i))), z3.substitute(sel, (x, kf(i))), ix(kf(i)) == i)), [sty.at(r, i)]))
        st.assume(fa([i], z3.Implies(rng(i), z3.And(z3.substitute(L.cond, (x, kf(i))), z3.substitute(sel, (x, kf(i))), ix(kf(i)) == i)), [kf(i)]))
        st.assume(z3.ForAll([i, j], z3.Implies(z3.And(rng(i), rng(j), i < j), kf(i) < kf(j)), patterns=[z3.MultiPattern(kf(i), kf(j))]))
        keep = z3.And(L.cond, z3.Not(z3.Or(*L.skips)))
        st.assume(fa(L.vs, z3.Implies(keep, z3.And(rng(ix(x)), kf(ix(x)) == x)), [ix(x)] + pick_patterns(L.vs, L.trig, None)))
        st.assume(sty.len(r) <= L.n)
    else:
        kf = T.fresh_fn("src", z3.IntSort(), x.sort())
        ix = T.fresh_fn("dst", x.sort(), z3.IntSort())
        i = T.fresh("i", z3.IntSort())
        rng = lambda a: z3.And(0 <= a, a < sty.len(r))
        sel = z3.Or(*[z3.And(c, sty.at(r, i) == t) for c, t in L.cases])
        body = z3.Implies(rng(i), z3.And(z3.substitute(L.cond, (x, kf(i))), z3.substitute(sel, (x, kf(i))), ix(kf(i)) == i))
        st.assume(fa([i], body, [sty.at(r, i)]))
        st.assume(fa([i], body, [kf(i)]))
        keep = z3.And(L.cond, z3.Not(z3.Or(*L.skips))) if filtered else L.cond
        st.assume(fa(L.vs, z3.Implies(keep, z3.And(rng(ix(x)), kf(ix(x)) == x)), [ix(x)] + pick_patterns(L.vs, L.trig, None)))
        if not filtered:
            st.assume(sty.len(r) == L.n)
        elif L.n is not None:
            st.assume(sty.len(r) <= L.n)
    return [(st, st.alloc(sty, r, kind))]


def to_set(ex, st, it, ty=None, kind=None):
    L, ty = lift(ex, st, it, ty)
    sty = T.Bits if kind == "BitMap" else T.TSet(ty)
    r = T.fresh("set", sty.sort)
    keep = lambda f: z3.And(L.cond, z3.Or(*[z3.And(c, f(t)) for c, t in L.cases]))
    x = L.vs[0]
    y = T.fresh("y", sty.el.sort)
    if len(L.vs) == 1 and len(L.cases) == 1 and z3.eq(L.cases[0][1], x):
        st.assume(z3.ForAll([x], r[x] == z3.And(L.cond, L.cases[0][0]), patterns=[r[x]]))
        pats = pick_patterns(L.vs, L.trig, None)
        if pats:
            st.assume(fa([x], r[x] == z3.And(L.cond, L.cases[0][0]), pats))
        if L.n is not None:
            st.assume(sty.th.card(r) <= L.n)
    else:
        for c, (_, t) in zip(L.hyps, L.cases):
            st.assume(fa(L.vs, z3.Implies(z3.And(L.cond, c), r[t]), pick_patterns(L.vs, L.trig, None) or
                         ([z3.MultiPattern(*L.trig)] if len(L.vs) > 1 and len(L.trig) == len(L.vs) else pick_patterns(L.vs, [r[t]], None))))
        ws = [T.fresh_fn("w", sty.el.sort, v.sort()) for v in L.vs]
        body = keep(lambda t: t == y)
        st.assume(z3.ForAll([y], z3.Implies(r[y], z3.substitute(body, *[(v, w(y)) for v, w in zip(L.vs, ws)])), patterns=[r[y]]))
        if L.n is not None:
            st.assume(sty.th.card(r) <= L.n)
    return [(st, st.alloc(sty, r, kind or "set"))]


def to_dict(ex, st, it, ty=None):
    L, ty = lift(ex, st, it, ty)
    if not isinstance(ty, T.TTup):
        raise Unsupported("dict from non pairs")
    mty = T.TMap(*ty.tys)
    m = T.fresh("map", mty.sort)
    st.assume(*T.type_inv(m, mty))
    # the last element with a key wins; single-valuedness is needed for an order-free description
    y = T.fresh("y", mty.k.sort)
    ws = [T.fresh_fn("w", mty.k.sort, v.sort()) for v in L.vs]
    x = L.vs[0]
    if len(L.vs) == 1 and all(z3.eq(ty.get(t, 0), x) for _, t in L.cases):
        # keys are the elements themselves
        body = [z3.And(c, mty.has(m, x), mty.at(m, x) == ty.get(t, 1)) for c, t in L.cases]
        other = [z3.And(s, z3.Not(mty.has(m, x))) for s in L.skips]
        pats = [mty.has(m, x), mty.at(m, x)] + pick_patterns(L.vs, L.trig, None)
        st.assume(fa([x], z3.If(L.cond, z3.Or(*(body + other)), z3.Not(mty.has(m, x))), pats))
        return [(st, st.alloc(mty, m, "dict"))]
    body = z3.And(L.cond, z3.Or(*[z3.And(c, t == ty.mk(y, mty.at(m, y))) for c, t in L.cases]))
    inst = z3.substitute(body, *[(v, w(y)) for v, w in zip(L.vs, ws)])
    st.assume(z3.ForAll([y], z3.Implies(mty.has(m, y), inst), patterns=[mty.has(m, y)]))
    trig = pick_patterns(L.vs, L.trig, None) or ([z3.MultiPattern(*L.trig)] if len(L.trig) > 1 else [])
    for c, (_, t) in zip(L.hyps, L.cases):
        st.assume(fa(L.vs, z3.Implies(z3.And(L.cond, c), mty.has(m, ty.get(t, 0))), trig))
    # last one wins
    if len(L.vs) == 1 and L.kind == "seq":
        i = L.vs[0]
        for c, (_, t) in zip(L.hyps, L.cases):
            st.assume(fa(L.vs, z3.Implies(z3.And(L.cond, c), ws[0](ty.get(t, 0)) >= i), trig))
    return [(st, st.alloc(mty, m, "dict"))]


def summed(ex, st, it, start=None):
    """sum(iterable)"""
    L, ty = lift(ex, st, it)
    if ty == T.TBool:
        ty = T.TInt
    if ty not in (T.TInt, T.TReal):
        raise Unsupported("sum of non numbers")
    zero = z3.IntVal(0) if ty == T.TInt else z3.RealVal(0)
    x = L.vs[0]
    if len(L.vs) != 1:
        raise Unsupported("sum of a nested generator")
    arr = T.fresh("summand", z3.ArraySort(x.sort(), ty.sort))
    body = [z3.And(c, arr[x] == _num(t, ty)) for c, t in L.cases] + [z3.And(s, arr[x] == zero) for s in L.skips]
    st.assume(fa(L.vs, z3.Implies(L.cond, z3.Or(*body)), [arr[x]]))
    if L.kind == "seq":
        return [(st, Sc(ty, T.seq_sum(ty)(arr, L.n)))]
    # L.cond is membership in a set term
    setterm = L.cond.arg(0) if z3.is_select(L.cond) else None
    if setterm is None:
        raise Unsupported("sum over this collection")
    el = [k for k in (T.TInt, T.TVal) if k.sort == x.sort()]
    return [(st, Sc(ty, T.sum_theory(el[0], ty)(setterm, arr)))]


def _num(t, ty):
    if t.sort() == z3.BoolSort():
        t = z3.If(t, z3.IntVal(1), z3.IntVal(0))
    if ty == T.TReal and t.sort() == z3.IntSort():
        t = z3.ToReal(t)
    return t
