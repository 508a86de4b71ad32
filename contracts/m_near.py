"""Collocations (P01)."""
from contracts.l_tables import *
from contracts.b_sets import _S, _G, _x, _y, _d, _n, _a
from contracts.c_text import in_documents, near, window, window_wit

POS = ["position_index", "position_doc_map"]
HIT = T.TTup(T.TInt, T.TInt, T.TInt)


def query_positions(c, p):
    return bigunion(c.features.t, pos_family(c, p))


def window_at(c, field, p):
    return window(query_positions(c, p), header(c, field, p)[3], c.window_size)


def placed_in_documents(c, p, field):
    """stored positions lie inside the documents of the partition"""
    x = T.fresh("x", I_)
    A, B = query_positions(c, p), header(c, field, p)[3]
    return ForAll([x], Implies(A[x], And(rank(B, x) >= 1, rank(B, x) < card(B))), patterns=[A[x]])


from contracts.c_text import rank


def wanted(c, p, done=None):
    t = c.table("position_index")
    return T.setof(T.TInt, lambda k: And((t.has if done is None else lambda q: done[q])(PI_KEY.mk(k, p)), Not(c.features.t[k]), positions_of(c, p, k) != th.empty))


def hit_list(c, r, field, p, done=None):
    t = c.table("position_index")
    j, k = T.fresh("j", I_), T.fresh("k", I_)
    pos = lambda k: positions_of(c, p, k)
    want = wanted(c, p, done)
    ids = first_of(r)
    inn = And(0 <= j, j < r.len)
    W_ = window_at(c, field, p)
    return [("exactly the other features with positions", elems(ids, r.len) == want), ("each once", distinct(ids, r.len)),
            ("the number of positions inside the window", ForAll([j], Implies(inn, r[j][1] == card(th.inter(W_, pos(r[j][0])))), patterns=[r.arr[j]])),
            ("the number of positions", ForAll([j], Implies(inn, r[j][2] == card(pos(r[j][0]))), patterns=[r.arr[j]]))]


def _cc_ensures(c):
    r, n, m = c.result
    p, f = c.first_doc_id, c.field
    return hit_list(c, r, f, p) + [("the number of query positions", n == card(query_positions(c, p))), ("the size of the window", m == card(window_at(c, f, p)))]


def _cc_inv(c):
    p, f = c.first_doc_id, c.field
    if c.counts is EMPTY:
        return [c.g.done == T.set_theory(PI_KEY).empty]
    return [c.valid_window.t == window_at(c, f, p)] + [x for _, x in hit_list(c, c.counts, f, p, c.g.done)]


def _cc_steps(c):
    if c.counts is EMPTY:
        return []
    k, ids = T.fresh("k", I_), first_of(c.counts)
    E, want = elems(ids, c.counts.len), wanted(c, c.first_doc_id, c.g.done)
    return [ForAll([k], Implies(E[k], want[k]), patterns=[E[k]]), ForAll([k], Implies(want[k], E[k]), patterns=[want[k]])]


def _cc_requires(c):
    p, f = c.first_doc_id, c.field
    return [("stored positions are not null", positions_set(c)), ("the partition exists", header(c, f, p)[0]), ("positions lie in documents", placed_in_documents(c, p, f)),
            ("the window size is not negative", c.window_size >= 0)]


def _cc_hints(c):
    p, f, d = c.first_doc_id, c.field, T.fresh("d", I_)
    W_, v = window_at(c, f, p), c.valid_window.t
    return [ForAll([d], Implies(v[d], W_[d]), patterns=[v[d]]), ForAll([d], Implies(W_[d], v[d]), patterns=[W_[d]]), v == W_]


REG.add(DBContract("index._count_collocations", {"idx": IDX, "field": VAL, "first_doc_id": INT, "features": SETI, "window_size": INT}, db=POS, requires=_cc_requires,
                   returns=lambda ex, st, c: Tup([LIST(HIT).make(ex, st, "counts"), INT.make(ex, st, "query_hits"), INT.make(ex, st, "window_hits")]),
                   ensures=_cc_ensures, types={"counts": T.TSeq(HIT)}, loops={0: Loop(_cc_inv, hints=_cc_hints, steps=_cc_steps)}, uses=[elem_lemma, elems_ext]), "P01")


# ------------------------------------------------------------------ over all partitions
def jobs_of(fut, i):
    """the keys (argument i) of a set of background calls"""
    fs = z3.ArraySort(fut.sort, z3.BoolSort())
    n = f"{fut.sort}_{i}"
    keys, who = z3.Function("keys_" + n, fs, SET), z3.Function("job_" + n, fs, I_, fut.sort)
    F, f, k = z3.Const("F", fs), z3.Const("fut", fut.sort), Int("key")
    none = z3.K(fut.sort, BoolVal(False))
    T.axiom([keys], ForAll([F, f], Implies(F[f], keys(F)[fut.get(f, i)]), patterns=[MultiPattern(keys(F), F[f])]), "definition of the keys of background calls")
    T.axiom([keys], ForAll([F, k], Implies(keys(F)[k], And(F[who(F, k)], fut.get(who(F, k), i) == k)), patterns=[keys(F)[k]]), "definition of the keys of background calls")
    T.axiom([keys], keys(none) == th.empty, "definition of the keys of background calls")
    S = keys(Store(F, f, True))
    T.axiom([keys], ForAll([F, f], S == Store(keys(F), fut.get(f, i), True), patterns=[S]), "definition of the keys of background calls")
    return fs, keys


NEARFUT = T.TFut("index._count_collocations", [T.TVal, T.TInt, T.TSet(T.TInt), T.TInt, T.TInt])
NFS, near_jobs = jobs_of(NEARFUT, 1)
COLLOC = T.TMap(T.TInt, T.TSeq(T.TInt))


def each_partition(c, F, want):
    """the background calls: one for each partition wanted"""
    f, g = T.fresh("f", NEARFUT.sort), T.fresh("g", NEARFUT.sort)
    a = lambda f, i: NEARFUT.get(f, i)
    return [ForAll([f], Implies(F[f], And(a(f, 0) == c.field, a(f, 2) == c.features.t, a(f, 3) == c.window_size)), patterns=[F[f]]),
            near_jobs(F) == want,
            ForAll([f, g], Implies(And(F[f], F[g], a(f, 1) == a(g, 1)), f == g), patterns=[MultiPattern(F[f], F[g])])]


def partition_set(c):
    return T.setof(T.TInt, in_partition(c, c.field))


def _ccs_submit(c):
    F = c.futures.t if c.futures is not EMPTY else z3.K(NEARFUT.sort, BoolVal(False))
    p, E = c.items, elems(c.items.arr, c.g.i)
    return each_partition(c, F, E)


def families(c):
    p, f = T.fresh("p", I_), T.fresh("f", I_)
    field = c.field
    win = lambda p: window_at(c, field, p)
    return {"query": T.lam(p, query_positions(c, p)), "window": T.lam(p, win(p)),
            "inside": lambda f: T.lam(p, th.inter(win(p), positions_of(c, p, f))), "all": lambda f: T.lam(p, positions_of(c, p, f))}


def sums(c, r, total, size, D):
    """the totals over the partitions in D"""
    G, f, p = families(c), T.fresh("f", I_), T.fresh("p", I_)
    return [("the number of query positions", total == hits(D, G["query"])), ("the size of the windows", size == hits(D, G["window"])),
            ("features of the query are not counted", ForAll([f], Implies(r.has(f), Not(c.features.t[f])), patterns=[r.has(f)])),
            ("every other feature with positions is counted", ForAll([f, p], Implies(And(D[p], Not(c.features.t[f]), positions_of(c, p, f) != th.empty), r.has(f)), patterns=[MultiPattern(D[p], r.has(f))])),
            ("two numbers per feature", ForAll([f], Implies(r.has(f), r[f].len == 2), patterns=[r.has(f)])),
            ("positions inside the windows", ForAll([f], Implies(r.has(f), r[f][0] == hits(D, G["inside"](f))), patterns=[r.has(f)])),
            ("positions", ForAll([f], Implies(r.has(f), r[f][1] == hits(D, G["all"](f))), patterns=[r.has(f)])),
            ("nothing where a feature is not counted", ForAll([f], Implies(And(Not(r.has(f)), Not(c.features.t[f])), And(hits(D, G["inside"](f)) == 0, hits(D, G["all"](f)) == 0)), patterns=[r.has(f)]))]


def _ccs_collect(c):
    if c.collocations is EMPTY:
        return [c.g.done == z3.K(NEARFUT.sort, BoolVal(False)), c.total_query == 0, c.total_window == 0]
    return [g for _, g in sums(c, c.collocations, c.total_query, c.total_window, near_jobs(c.g.done))]


def _ccs_add(c):
    r, p = c.collocations, c.pre.collocations
    f, i = T.fresh("f", I_), c.g.i
    cs = c.counts
    E, w = elems(first_of(cs), i), lambda f: elemw(first_of(cs), cs.len, f)
    had = lambda f, n: If(p.has(f), p[f][n], 0)
    return [ForAll([f], r.has(f) == Or(p.has(f), E[f]), patterns=[r.has(f)]),
            ForAll([f], Implies(r.has(f), r[f].len == 2), patterns=[r.has(f)]),
            ForAll([f], Implies(And(r.has(f), E[f]), And(r[f][0] == had(f, 0) + cs[w(f)][1], r[f][1] == had(f, 1) + cs[w(f)][2])), patterns=[r.has(f)]),
            ForAll([f], Implies(And(r.has(f), Not(E[f])), And(r[f][0] == p[f][0], r[f][1] == p[f][1])), patterns=[r.has(f)])]


def _ccs_requires(c):
    p, f, k = T.fresh("p", I_), c.field, T.fresh("x", I_)
    h = header(c, f, p)
    A, B = query_positions(c, p), h[3]
    return [("stored positions are not null", positions_set(c)), ("the window size is not negative", c.window_size >= 0),
            ("positions lie in documents", ForAll([p, k], Implies(And(h[0], A[k]), And(rank(B, k) >= 1, rank(B, k) < card(B))), patterns=[MultiPattern(h[0], A[k])]))]


REG.add(DBContract("index.Index.count_collocations", {"self": IDX, "field": VAL, "features": SETI, "window_size": INT}, db=POS, exts=(Par,), requires=_ccs_requires,
                   ensures=lambda c: sums(c, c.result[0], c.result[1], c.result[2], partition_set(c)), types={"collocations": COLLOC},
                   loops={0: Loop(_ccs_submit), 1: Loop(_ccs_collect), 2: Loop(_ccs_add)}, uses=[elem_lemma, elems_ext]), "P01")
