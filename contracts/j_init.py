"""Initialising a model (M03)."""
from contracts.i_atomic import *
from contracts.b_sets import _S, _G, _x, _y, _d, _n, _a

stride = T.stride
scol, srow = z3.Function("stride_column", I_, I_, I_), z3.Function("stride_row", I_, I_, I_)
scount = z3.Function("stride_count", I_, I_, I_, I_)       # how many of 0 .. b-1 are in column k
_p, _q, _i, _j, _b = z3.Ints("p q i j b")


def _stripes():
    """striping: position p belongs to column p mod n, as its element number p div n"""
    at, at2 = stride(_n, _i, _j), stride(_n, _p, _q)
    col, row, size = scol(_n, _p), srow(_n, _p), scount(_n, _i, _b)

    def fact():
        return And(ForAll([_n, _i, _j], Implies(And(_n >= 1, 0 <= _i, _i < _n, _j >= 0), And(scol(_n, at) == _i, srow(_n, at) == _j, at >= 0)), patterns=[at]),
                   ForAll([_n, _p], Implies(And(_n >= 1, _p >= 0), And(0 <= col, col < _n, col <= _p, row >= 0, stride(_n, col, row) == _p)), patterns=[col]),
                   ForAll([_n, _i, _j, _b], Implies(And(_n >= 1, 0 <= _i, _j >= 0), (_j < size) == (at < _b)), patterns=[MultiPattern(size, at)]),
                   ForAll([_n, _i, _b], size >= 0, patterns=[size]),
                   ForAll([_n, _i, _j, _b], Implies(And(_n >= 1, 0 <= _i, _i < _n, 0 <= _j, _j < _n), size <= scount(_n, _j, _b) + 1), patterns=[MultiPattern(size, scount(_n, _j, _b))]))

    def obligations():
        """with stride(n, i, j) = i + j n, column p mod n, row p div n, size (b - i - 1) div n + 1 when b > i, else 0"""
        u, q, r, s = z3.Ints("u q r s")
        inside = [_n >= 1, 0 <= _i, _i < _n]
        grow = lambda d: Implies(d >= 1, d * _n >= _n)
        yield "growth", [_n >= 1, u >= 1], u * _n >= _n
        yield "division", [_n >= 1], And(u == (u % _n) + (u / _n) * _n, 0 <= u % _n, u % _n < _n, Implies(u >= 0, u / _n >= 0))
        div = lambda u: And(u == (u % _n) + (u / _n) * _n, 0 <= u % _n, u % _n < _n, Implies(u >= 0, u / _n >= 0))
        yield "quotients are unique", inside + [0 <= r, r < _n, _i + _j * _n == r + q * _n, grow(q - _j), grow(_j - q)], And(_i == r, _j == q)
        yield "columns", inside + [_j >= 0, u == _i + _j * _n, div(u), r == u % _n, q == u / _n, Implies(And(0 <= r, r < _n, _i + _j * _n == r + q * _n), And(_i == r, _j == q))], And(u % _n == _i, u / _n == _j)
        yield "positions are not negative", inside + [_j >= 0], _i + _j * _n >= 0
        yield "every position is in a column", [_n >= 1, _p >= 0, div(_p), Implies(_p / _n >= 1, (_p / _n) * _n >= _n)], And(0 <= _p % _n, _p % _n < _n, _p % _n <= _p, _p / _n >= 0, (_p % _n) + (_p / _n) * _n == _p)
        sized = lambda i, s: s == If(_b > i, (_b - i - 1) / _n + 1, 0)
        yield "sizes are not negative", [_n >= 1, sized(_i, s), div(_b - _i - 1)], s >= 0
        mono = lambda a, b: Implies(a <= b, a * _n <= b * _n)
        yield "products grow", [_n >= 1, u <= q], u * _n <= q * _n
        yield "sizes", [_n >= 1, 0 <= _i, _j >= 0, sized(_i, s), u == _b - _i - 1, div(u), q == u / _n, r == u % _n, u == r + q * _n, 0 <= r, r < _n, mono(_j, q), mono(q + 1, _j), _j * _n >= 0], (_j < s) == (_i + _j * _n < _b)
        s2 = Int("s2")
        ends = lambda i, s: [s >= 0, Implies(s >= 1, i + (s - 1) * _n < _b), i + s * _n >= _b]
        yield "sizes differ by at most one", inside + [0 <= _j, _j < _n] + ends(_i, s) + ends(_j, s2) + [mono(s2 + 1, s - 1)], s <= s2 + 1
    return REG.lemma(Lemma("striping", fact, obligations))


stripes = _stripes()


def _distinct_count():
    """a list without repetition has as many elements as positions"""
    E = elems(_a, _n)

    def fact():
        return ForAll([_a, _n], Implies(And(distinct(_a, _n), _n >= 0), card(E) == _n), patterns=[E])

    def obligations():
        x = _a[_n - 1]
        P = elems(_a, _n - 1)
        yield "base", [_n == 0], card(E) == 0
        yield "the last one is new", [_n > 0, distinct(_a, _n), elemw(_a, _n - 1, x) >= elemw(_a, _n - 1, x)], Not(P[x])
        yield "step", [_n > 0, distinct(_a, _n), Not(P[x]), card(P) == _n - 1, P == elemslim(_a, _n - 1)], card(E) == _n
        yield "distinct prefix", [_n > 0, distinct(_a, _n)], distinct(_a, _n - 1)
    return REG.lemma(Lemma("size of a list without repetition", fact, obligations, uses=[elem_lemma]))


distinct_count = _distinct_count()
OPTIONS = [{"include_fields": NONEP}, {"include_fields": LIST(T.TVal)}]


def included(c, x):
    """the field is selected"""
    v = c.old.raw_var("include_fields")
    fs = c.old.table("field_summary")
    if v is NONE:
        return fs.has(x)
    seq, j = c.old.var("include_fields"), T.fresh("j", I_)
    return If(seq.len > 0, Exists([j], And(0 <= j, j < seq.len, seq[j] == x)), fs.has(x))


def eligible(c, f):
    ii = c.old.table("inverted_index")
    return And(ii.has(f), ii.col(f, "docs_count") >= c.old.min_docs, included(c, ii.col(f, "field")))


def _fields(c):
    """include_field has one row for each field handled so far"""
    t, seq, i = c.table("include_field"), c.items, c.g.i
    r, r2, j = T.fresh("r", I_), T.fresh("r", I_), T.fresh("j", I_)
    el = lambda j: raw(seq[j][0])
    return [ForAll([r], Implies(t.has(r), Exists([j], And(0 <= j, j < i, el(j) == t.col(r, "field")))), patterns=[t.has(r)]),
            ForAll([j], Implies(And(0 <= j, j < i), Exists([r], And(t.has(r), t.col(r, "field") == el(j)))), patterns=[el(j)]),
            ForAll([r, r2], Implies(And(t.has(r), t.has(r2), t.col(r, "field") == t.col(r2, "field")), r == r2), patterns=[MultiPattern(t.has(r), t.has(r2))])]


def ids(c):
    F = c.feature_ids
    j = T.fresh("j", I_)
    return T.lam(j, F[j][0]), F.len


def listed_features(c):
    """the shuffled list: exactly the eligible features, each once"""
    F, (A, L) = c.feature_ids, ids(c)
    ii = c.table("inverted_index")
    j, f = T.fresh("j", I_), T.fresh("f", I_)
    E = elems(A, L)
    return [ForAll([j], Implies(And(0 <= j, j < L), And(ii.has(F[j][0]), eligible(c, F[j][0]), F[j][1] == ii.col(F[j][0], "docs_count"))), patterns=[raw_at(F, j)]),
            ForAll([j], Implies(And(0 <= j, j < L), E[F[j][0]]), patterns=[raw_at(F, j)])] + in_selection(c, E) + \
           [ForAll([f], Implies(eligible(c, f), E[f]), patterns=[ii.has(f)]), distinct(A, L),
            ForAll([j], Implies(And(0 <= j, j < L), elemw(A, L, F[j][0]) == j), patterns=[raw_at(F, j)])]


def in_selection(c, E):
    """every row of the join is on the list"""
    _, _, keys = c._st.tag["lastselect"]
    pair = T.TTup(T.TInt, T.TInt)
    ii, t = c.table("inverted_index"), c.table("include_field")
    f, r = T.fresh("f", I_), T.fresh("r", I_)
    k = pair.mk(f, r)
    mp = lambda: [MultiPattern(ii.has(f), t.has(r))]
    joined = And(ii.has(f), t.has(r), ii.col(f, "field") == t.col(r, "field"), ii.col(f, "docs_count") >= c.min_docs)
    return [ForAll([f, r], Implies(joined, keys[k]), patterns=mp()), ForAll([f, r], Implies(joined, E[f]), patterns=mp())]


def raw_at(F, j):
    return F.ty.arr(F.t)[j]


def placed(c, when):
    t, (A, L), n = fcl(c), ids(c), c.n_clusters
    ii, f, k = c.table("inverted_index"), T.fresh("f", I_), T.fresh("k", I_)
    w = lambda f: elemw(A, L, f)
    cl, ch = c.table("cluster"), c.table("changed_cluster")
    return [ForAll([f], t.has(f) == And(elems(A, L)[f], when(w(f))), patterns=[t.has(f)]),
            ForAll([f], Implies(t.has(f), t.col(f, "cluster_id") == scol(n, w(f))), patterns=[t.has(f)]),
            ForAll([f], Implies(t.has(f), Not(t.col(f, "pinned"))), patterns=[t.has(f)]),
            ForAll([k], Implies(cl.has(k), And(0 <= k, k < n, ch.has(k), Not(cl.col(k, "pinned")))), patterns=[cl.has(k)])] + facts(links(c))


def _outer(c):
    return listed_features(c) + placed(c, lambda p: scol(c.n_clusters, p) < c.g.i)


def _inner(c):
    n, i = c.n_clusters, c.cluster_id
    return listed_features(c) + placed(c, lambda p: Or(scol(n, p) < i, And(scol(n, p) == i, srow(n, p) < c.g.i)))


def initialised(c):
    t0, t, ii, cl = c.old.table("feature_cluster"), fcl(c), c.table("inverted_index"), c.table("cluster")
    f, k, k2, n = T.fresh("f", I_), T.fresh("k", I_), T.fresh("k", I_), c.n_clusters
    inn = lambda k: And(0 <= k, k < n)
    return [("only eligible features are assigned", ForAll([f], Implies(t.has(f), eligible(c, f)), patterns=[t.has(f)])),
            ("every eligible feature is assigned", ForAll([f], Implies(eligible(c, f), t.has(f)), patterns=[t.has(f)])),
            ("to one of the requested clusters", ForAll([f], Implies(t.has(f), inn(t.col(f, "cluster_id"))), patterns=[t.has(f)])),
            ("only the requested clusters", ForAll([k], Implies(cl.has(k), inn(k)), patterns=[cl.has(k)])),
            ("nothing is pinned", ForAll([f], Implies(t.has(f), Not(t.col(f, "pinned"))), patterns=[t.has(f)])),
            ("no cluster is pinned", ForAll([k], Implies(cl.has(k), Not(cl.col(k, "pinned"))), patterns=[cl.has(k)])),
            ("cluster sizes differ by at most one", ForAll([k, k2], Implies(And(inn(k), inn(k2)), card(asg(c, k)) <= card(asg(c, k2)) + 1), patterns=[MultiPattern(asg(c, k), asg(c, k2))]))]


def _init_hints(c):
    t, n, F, (A, L) = fcl(c), c.n_clusters, c.feature_ids, ids(c)
    k, f, j = T.fresh("k", I_), T.fresh("f", I_), T.fresh("j", I_)
    stripe = lambda k: T.lam(j, F[stride(n, k, j)][0])
    column = lambda k: elems(stripe(k), scount(n, k, L))
    inn = And(0 <= k, k < n)
    return [ForAll([k, j], Implies(And(inn, 0 <= j, j < scount(n, k, L)), column(k)[stripe(k)[j]]), patterns=[stride(n, k, j)]),
            ForAll([k, f], Implies(And(inn, asg(c, k)[f]), column(k)[f]), patterns=[asg(c, k)[f]]),
            ForAll([k, f], Implies(And(inn, column(k)[f]), asg(c, k)[f]), patterns=[column(k)[f]]),
            ForAll([k], Implies(inn, asg(c, k) == column(k)), patterns=[asg(c, k)]),
            ForAll([k], Implies(inn, distinct(stripe(k), scount(n, k, L))), patterns=[asg(c, k)]),
            ForAll([k], Implies(inn, card(asg(c, k)) == scount(n, k, L)), patterns=[asg(c, k)])] + [g for _, g in tracked_hints_new(c)]


def tracked_hints_new(c):
    return [("summaries", tracked_open(c)), ("after", T.unfold(tracked_term(c)))]


INIT_DB = MODEL + ["field_summary"]
REG.add(DBContract("index.Index.initialise_clusters", {"self": IDX, "n_clusters": INT, "min_docs": INT, "include_fields": NONEP}, db=INIT_DB, cases=OPTIONS, exts=(Par,),
                   writes=["cluster", "feature_cluster", "changed_cluster"], requires=lambda c: inv(c) + [("some clusters are asked for", c.n_clusters >= 1)],
                   ensures=lambda c: initialised(c) + links(c) + tracked(c), hints=_init_hints,
                   loops={("sql", 0): Loop(_fields), ("sql", 1): Loop(_outer), ("sql", 1, 1): Loop(_inner)}, uses=[elem_lemma, stripes, distinct_count]), "M03", "M01")
as_called("index.Index.initialise_clusters", {"n_clusters": INT, "min_docs": INT, "include_fields": NONEP}, initialised, "M03", "M04", pins=False, tables=INIT_DB, cases=OPTIONS,
          requires=lambda c: settled(c) + [("some clusters are asked for", c.n_clusters >= 1)])
