"""Cluster unions and move scores (M01, M07)."""
from contracts.b_db import *
from contracts.b_sets import *
from contracts.b_sets import _S, _G, _x, _y, _d, _n, _a
from dv.par import Par


def docs_family(c, name="inverted_index"):
    """feature id -> its documents"""
    t = c.table(name)
    return T.setof(T.TInt, lambda k: If(t.has(k), t.col(k, "doc_ids").t, th.empty))


UQ_ARGS = P(None, make=lambda ex, st, name: Tup([Obj("index.Index", newid()), INT.make(ex, st, "query_key"), LIST(T.TInt).make(ex, st, "feature_ids")]))


def _uq(c):
    lst = c._st.term(c.raw_var("args").items[2]) if isinstance(c.raw_var("args"), Tup) else None
    ty = T.TSeq(T.TInt)
    return ty.arr(lst), ty.len(lst)


def _uq_requires(c):
    a, n = _uq(c)
    return [("no feature is repeated", distinct(a, n))]


def _uq_ensures(c):
    a, n = _uq(c)
    E, G = elems(a, n), docs_family(c)
    key, query, weight = c.result
    return [("the key is passed on", key == c._ex.coerce(c.raw_var("args").items[1], T.TInt)),
            ("the union of the features", query.t == bigunion(E, G)), ("the sum of their sizes", weight == hits(E, G))]


def _uq_inv(c):
    a, n = _uq(c)
    i = c.g.i
    E, G = elems(a, i), docs_family(c)
    return [c.query.t == bigunion(E, G), c.weight == hits(E, G)]


UQ_RET = P(None, make=lambda ex, st, name: Tup([INT.make(ex, st, "key"), BITMAP.make(ex, st, "query"), INT.make(ex, st, "weight")]))
REG.add(DBContract("index._union_query", {"args": UQ_ARGS}, db=["inverted_index"], requires=_uq_requires, ensures=_uq_ensures, returns=UQ_RET,
                   loops={0: Loop(_uq_inv)}, uses=[elem_lemma]), "M01")

# ------------------------------------------------------------------ move scores
real = z3.ToReal


def eff_family(c):
    """feature id -> the documents that count: restricted to the probe query when there is one"""
    t = c.table("inverted_index")
    p = c.raw_var("probe_query")
    if p is NONE:
        return docs_family(c)
    pt = c.probe_query.t
    docs = lambda k: If(t.has(k), t.col(k, "doc_ids").t, th.empty)
    return T.setof(T.TInt, lambda k: If(pt == th.empty, docs(k), th.inter(docs(k), pt)))


def objective(h, c, n):
    """the score of a cluster with n features, h hits and c covered documents"""
    return T.rdiv(real(h), real(c + n)) - T.rdiv(real(h), real(h + n))


def terms(c):
    S, G = c.feature_group.t, eff_family(c)
    return S, G, bigunion(S, G), hits(S, G), card(S)


def _removal(S, G, f):
    rest = Store(S, f, False)
    un, others, h, n = bigunion(S, G), bigunion(rest, G), hits(S, G), card(S)
    oc, oh = card(others), h - card(G[f])
    shared = th.inter(G[f], others) != th.empty
    return If(And(oc != 0, shared), objective(h, card(un), n) - objective(oh, oc, n - 1), If(oc != 0, z3.RealVal(-1), z3.RealVal(0)))


def _addition(S, G, f):
    un, h, n = bigunion(S, G), hits(S, G), card(S)
    both = th.union(G[f], un)
    return If(th.inter(G[f], un) != th.empty, objective(h + card(G[f]), card(both), n + 1) - objective(h, card(un), n), z3.RealVal(-1))


removal_score = T.opaque("removal_score", [_S, _G, _x], _removal(_S, _G, _x))
addition_score = T.opaque("addition_score", [_S, _G, _x], _addition(_S, _G, _x))


def removal(c, f):
    return removal_score(c.feature_group.t, eff_family(c), f)


def addition(c, f):
    return addition_score(c.feature_group.t, eff_family(c), f)


def _measure_ensures(c):
    S, G, un, h, n = terms(c)
    key, obj, rf, rd, af, ad = c.result
    j, f = T.fresh("j", I_), T.fresh("f", I_)
    obj = obj if obj.sort() == z3.RealSort() else real(obj)
    A = c.add_features.t
    some = S != th.empty
    new = And(A[f], Not(S[f]))
    inn = lambda s: And(0 <= j, j < s.len)
    E = lambda s: elems(s.arr, s.len)
    dst = lambda s: elemw(s.arr, s.len, f)
    return [("an empty cluster scores 0", Implies(Not(some), obj == 0)),
            ("the objective", Implies(some, obj == objective(h, card(un), n))),
            ("one removal score per listed feature", rd.len == rf.len),
            ("listed removals are members", ForAll([j], Implies(inn(rf), S[rf[j]]), patterns=[rf[j]])),
            ("every member is listed", ForAll([f], Implies(And(some, S[f]), And(0 <= dst(rf), dst(rf) < rf.len, rf[dst(rf)] == f)), patterns=[S[f]])),
            ("removal scores", ForAll([j], Implies(inn(rf), rd[j] == removal(c, rf[j])), patterns=[rd[j]])),
            ("one addition score per listed feature", ad.len == af.len),
            ("listed additions are new features", ForAll([j], Implies(inn(af), And(A[af[j]], Not(S[af[j]]))), patterns=[af[j]])),
            ("every new feature is listed", ForAll([f], Implies(And(some, new), And(0 <= dst(af), dst(af) < af.len, af[dst(af)] == f)), patterns=[A[f]])),
            ("addition scores", ForAll([j], Implies(inn(af), ad[j] == addition(c, af[j])), patterns=[ad[j]]))]


def _m_inv0(c):
    S, G, un, h, n = terms(c)
    D = c.g.done
    return [c.n_features == n, c.hits == hits(D, G), c.cluster_union.t == bigunion(D, G), c.covered_twice.t == twice(D, G)]


def _m_common(c):
    S, G, un, h, n = terms(c)
    return [c.n_features == n, n > 0, c.hits == h, c.cluster_union.t == un, c.c == card(un), c.objective == objective(h, card(un), n)]


def _m_inv1(c):
    S, G, un, h, n = terms(c)
    j = T.fresh("j", I_)
    rf, rd = c.remove_feature, c.remove_delta
    k = T.fresh("k", I_)
    rest = bigunion(Store(S, rf[k], False), G)
    return _m_common(c) + [ForAll([k], Implies(And(0 <= k, k < rf.len, rest != th.empty), And(n > 1, hits(Store(S, rf[k], False), G) >= 0)), patterns=[rf[k]]), c.only_once.t == th.diff(un, twice(S, G)), rd.len == rf.len,
                           ForAll([j], Implies(And(0 <= j, j < c.g.i), rd[j] == removal(c, rf[j])), patterns=[rd[j]])]


def _m_inv2(c):
    j = T.fresh("j", I_)
    af, ad = c.add_feature, c.add_delta
    return _m_common(c) + [ad.len == af.len, ForAll([j], Implies(And(0 <= j, j < c.g.i), ad[j] == addition(c, af[j])), patterns=[ad[j]])]


def local(c, name, f):
    """a step about a local variable, when the function has one of that name"""
    return [f(c.var(name))] if c.has(name) else []


def _m_step1(c):
    S, G, un, h, n = terms(c)
    rf, rd, i = c.remove_feature, c.remove_delta, c.g.i - 1
    x = rf[i]
    rest = Store(S, x, False)
    oth, oh = bigunion(rest, G), h - card(G[x])
    own = th.inter(G[x], th.diff(un, twice(S, G)))
    oc = card(oth)
    return local(c, "docs", lambda d: d.t == G[x]) + local(c, "old_c", lambda v: v == oc) + local(c, "old_hits", lambda v: v == oh) + [S[x], hits(rest, G) == oh, card(rest) == n - 1, card(own) == card(un) - oc, (card(own) < card(G[x])) == (th.inter(G[x], oth) != th.empty),
            Implies(oc == 0, rd[i] == 0), Implies(And(oc != 0, th.inter(G[x], oth) == th.empty), rd[i] == -1),
            Implies(And(oc != 0, th.inter(G[x], oth) != th.empty), rd[i] == objective(h, card(un), n) - objective(oh, oc, n - 1)),
            T.unfold(removal(c, x)), rd[i] == removal(c, x)]


def _m_step2(c):
    S, G, un, h, n = terms(c)
    af, ad, i = c.add_feature, c.add_delta, c.g.i - 1
    x = af[i]
    both = th.union(G[x], un)
    return local(c, "docs", lambda d: d.t == G[x]) + [Implies(th.inter(G[x], un) == th.empty, ad[i] == -1),
            Implies(th.inter(G[x], un) != th.empty, ad[i] == objective(h + card(G[x]), card(both), n + 1) - objective(h, card(un), n)),
            T.unfold(addition(c, x)), ad[i] == addition(c, x)]


def _rest_lemma():
    """what only one member covers, and what the others cover"""
    G, S, i = _G, _S, Int("i")
    rest = Store(S, i, False)
    oth, un = bigunion(rest, G), bigunion(S, G)
    only = th.diff(un, twice(S, G))
    own = th.inter(G[i], only)

    def fact():
        return ForAll([S, G, i], Implies(S[i], And(oth == th.diff(un, own), card(own) == card(un) - card(oth), card(own) <= card(G[i]), Implies(oth != th.empty, card(S) > 1),
                                                   (card(own) < card(G[i])) == (th.inter(G[i], oth) != th.empty))), patterns=[oth])

    def obligations():
        d = _d
        yield "others cover something", [oth[d]], rest[bigw(rest, G, d)]
        yield "so there are others", [S[i], rest[_x], card(rest) == card(S) - 1, card(rest) > 0], card(S) > 1
        yield "others are counted", [S[i], rest[_x]], And(card(rest) == card(S) - 1, card(rest) > 0)
        yield "others exist", [oth != th.empty, card(oth) >= 0], oth[th.nonempty_wit(oth)]
        yield "others are not exclusive", [S[i], oth[d]], And(un[d], Not(own[d]))
        yield "the rest is covered by others", [S[i], un[d], Not(own[d])], oth[d]
        same = ForAll([d], oth[d] == And(un[d], Not(own[d])), patterns=[oth[d]])
        yield "as sets", [same, th.diff(un, own)[z3.Int("q")] == th.diff(un, own)[z3.Int("q")]], oth == th.diff(un, own)
        eq = oth == th.diff(un, own)
        yield "the exclusive part is covered", [S[i], own[d]], un[d]
        sub = ForAll([d], Implies(own[d], un[d]), patterns=[own[d]])
        yield "intersection", [sub], th.inter(un, own) == own
        yield "sizes", [eq, th.inter(un, own) == own], card(own) == card(un) - card(oth)
        yield "bounded", [], card(own) <= card(G[i])
        yield "shared 1", [S[i], card(own) < card(G[i]), eq, th.inter(G[i], oth) == th.empty, th.diff(G[i], own)[d], th.inter(G[i], oth)[d] == False], BoolVal(False)
        yield "shared 1b", [S[i], card(own) < card(G[i])], th.diff(G[i], own)[th.nonempty_wit(th.diff(G[i], own))]
        yield "own is part", [], th.inter(G[i], own) == own
        yield "shared 1c", [S[i], card(own) < card(G[i]), th.inter(G[i], own) == own], card(th.diff(G[i], own)) > 0
        yield "shared 2", [S[i], eq, th.inter(G[i], oth)[d]], And(G[i][d], Not(own[d]))
        yield "shared 2b", [th.inter(G[i], oth) != th.empty, card(th.inter(G[i], oth)) == card(th.inter(G[i], oth))], th.inter(G[i], oth)[th.nonempty_wit(th.inter(G[i], oth))]
        yield "shared 2c", [G[i][d], Not(own[d]), th.inter(G[i], own) == own, th.diff(G[i], own)[d]], card(own) < card(G[i])
    return REG.lemma(Lemma("members covered by the rest of a family", fact, obligations))


rest_lemma = _rest_lemma()
MARGS = {"idx": IDX, "group_key": VAL, "feature_group": SETI, "add_features": SETI, "probe_query": BITMAP}


def _mret(ex, st, c):
    q, d = LIST(T.TInt), LIST(T.TReal)
    return Tup([c.raw_var("group_key"), REAL.make(ex, st, "objective"), q.make(ex, st, "rf"), d.make(ex, st, "rd"), q.make(ex, st, "af"), d.make(ex, st, "ad")])


REG.add(DBContract("index.measure_feature_contribution_to_cluster", MARGS, db=["inverted_index"], ensures=_measure_ensures,
                   cases=[{"probe_query": P(None, const=NONE, label="None")}, {"probe_query": P(T.Bits, label="bitmap")}],
                   returns=_mret, uses=[rest_lemma, elem_lemma], loops={0: Loop(_m_inv0), 1: Loop(_m_inv1, steps=_m_step1), 2: Loop(_m_inv2, steps=_m_step2)}), "M07")
