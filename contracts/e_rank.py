"""Unions with match counts, cluster overlap, samples (Q01, Q03, Q05, Q06)."""
from contracts.d_query import *
from contracts.b_sets import _S, _G, _x, _y, _d, _n, _a
from contracts.a_bits import bitslice_of

# ------------------------------------------------------------------ counts depend only on the sets counted
_l = Int("l")
_A, _B = z3.Const("A", ARR), z3.Const("B", ARR)


def _same(a, b, n):
    return ForAll([_l], Implies(And(0 <= _l, _l < n), a[_l] == b[_l]), patterns=[a[_l]])


def _count_ext():
    def fact():
        return ForAll([_A, _B, _n, _d], Implies(_same(_A, _B, _n), count(_A, _n, _d) == count(_B, _n, _d)), patterns=[MultiPattern(count(_A, _n, _d), count(_B, _n, _d))])

    def obligations():
        yield "base", [_n <= 0], count(_A, _n, _d) == count(_B, _n, _d)
        yield "step", [_n > 0, count(_A, _n - 1, _d) == count(_B, _n - 1, _d), _A[_n - 1] == _B[_n - 1]], count(_A, _n, _d) == count(_B, _n, _d)
    return REG.lemma(Lemma("equal sets give equal counts", fact, obligations))


count_ext = _count_ext()


def _elems_ext():
    b = z3.Const("b", _a.sort())

    def fact():
        return ForAll([_a, b, _n], Implies(_same(_a, b, _n), elems(_a, _n) == elems(b, _n)), patterns=[MultiPattern(elems(_a, _n), elems(b, _n)), MultiPattern(elems(_a, _n), elemslim(b, _n))])

    def obligations():
        yield "base", [_n <= 0], elems(_a, _n) == elems(b, _n)
        yield "step", [_n > 0, elems(_a, _n - 1) == elems(b, _n - 1), _a[_n - 1] == b[_n - 1]], elems(_a, _n) == elems(b, _n)
    return REG.lemma(Lemma("equal lists have equal elements", fact, obligations))


elems_ext = _elems_ext()


def listed_family(c, seq):
    """position in the list -> documents of the feature there"""
    return T.setof(T.TInt, lambda k: docs_of(c, seq.arr[k]))


def union_of(c, seq, M, bs):
    return bitslice_of(listed_family(c, seq), seq.len, M, bs)


REG.add(DBContract("index.Index.union_bitslice", {"self": IDX, "features": LIST(T.TInt)}, db=["inverted_index"],
                   returns=lambda ex, st, c: Tup([BITMAP.make(ex, st, "matching"), LIST(T.Bits).make(ex, st, "bitslice")]),
                   ensures=lambda c: union_of(c, c.features, c.result[0].t, c.result[1]), uses=[count_ext]), "Q01")

# ------------------------------------------------------------------ matches per document among a set of features
having = z3.Function("having", SET, FAM, I_, SET)          # the members of S whose set contains d
H = having(_S, _G, _d)
T.axiom([having], ForAll([_S, _G, _d, _x], H[_x] == And(_S[_x], _G[_x][_d]), patterns=[H[_x]]), "definition of having")
T.axiom([having], ForAll([_G, _d], having(th.empty, _G, _d) == th.empty, patterns=[having(th.empty, _G, _d)]), "definition of having")
_SX = having(Store(_S, _x, True), _G, _d)
T.axiom([having], ForAll([_S, _G, _d, _x], And(Implies(_G[_x][_d], _SX == Store(H, _x, True)), Implies(Not(_G[_x][_d]), Or(_S[_x], _SX == H))), patterns=[_SX]), "having after adding a member")
along = z3.Function("along", FAM, _a.sort(), ARR)          # the family in the order of a list
T.axiom([along], ForAll([_G, _a, _n], along(_G, _a)[_n] == _G[_a[_n]], patterns=[along(_G, _a)[_n]]), "definition of along")


def _count_lemma():
    n_having = lambda n: card(having(elems(_a, n), _G, _d))
    cnt = lambda n: count(along(_G, _a), n, _d)

    def fact():
        return ForAll([_a, _G, _n, _d], Implies(distinct(_a, _n), cnt(_n) == n_having(_n)), patterns=[MultiPattern(cnt(_n), n_having(_n))])

    def obligations():
        E = elems(_a, _n - 1)
        x = _a[_n - 1]
        yield "base", [_n <= 0], cnt(_n) == n_having(_n)
        yield "the last one is new", [_n > 0, distinct(_a, _n), E[x] == E[x], elemw(_a, _n - 1, x) >= elemw(_a, _n - 1, x)], Not(E[x])
        yield "step", [_n > 0, Not(E[x]), cnt(_n - 1) == n_having(_n - 1), Not(having(E, _G, _d)[x]), along(_G, _a)[_n - 1] == _G[x]], cnt(_n) == n_having(_n)
        yield "step helper", [Not(E[x])], Not(having(E, _G, _d)[x])
    return REG.lemma(Lemma("matches of distinct features", fact, obligations, uses=[elem_lemma]))


count_lemma = _count_lemma()


def few_features(c):
    """a cluster holds at most 2**62 features"""
    return card(feats(c, c.cluster_id)) <= 2 ** 62


def _cq_ensures(c):
    M, bs = c.result[0].t, c.result[1]
    F, G = feats(c, c.cluster_id), docs_family(c)
    d = T.fresh("d", I_)
    return [("the documents of any feature of the cluster", M == bigunion(F, G)),
            ("the slices give the number of features of every document", ForAll([d], high(bs.arr, bs.len, 0, d) == card(having(F, G, d)), patterns=[high(bs.arr, bs.len, 0, d)])),
            ("there is a slice", bs.len >= 1)]


def _cq_hints(c):
    if not c.has("feature_ids"):
        return []
    M, bs = c.result[0].t, c.result[1]
    F, G = feats(c, c.cluster_id), docs_family(c)
    ids = c.feature_ids
    E = elems(ids.arr, ids.len)
    d, k = T.fresh("d", I_), T.fresh("k", I_)
    L = listed_family(c, ids)
    wit = lambda d: th.nonempty_wit(having(F, G, d))
    return [("all features are listed", ForAll([k], E[k] == F[k], patterns=[E[k]])), ("as a set", E == F), ("each once", distinct(ids.arr, ids.len)),
            ("the same sets", ForAll([k], L[k] == along(G, ids.arr)[k], patterns=[L[k]])),
            ("the same counts", ForAll([d], count(L, ids.len, d) == count(along(G, ids.arr), ids.len, d), patterns=[count(L, ids.len, d)])),
            ("counts", ForAll([d], count(L, ids.len, d) == card(having(F, G, d)), patterns=[count(L, ids.len, d)])),
            ("members", ForAll([d], M[d] == (card(having(F, G, d)) > 0), patterns=[M[d]])),
            ("members 1", ForAll([d], Implies(bigunion(F, G)[d], having(F, G, d)[bigw(F, G, d)]), patterns=[bigunion(F, G)[d]])),
            ("members 3", ForAll([d], Implies(card(having(F, G, d)) > 0, And(F[wit(d)], G[wit(d)][d])), patterns=[having(F, G, d)])),
            ("members 2", ForAll([d], M[d] == bigunion(F, G)[d], patterns=[M[d]]))]


REG.add(DBContract("index.Index.cluster_query", {"self": IDX, "cluster_id": INT}, db=["feature_cluster", "inverted_index"],
                   requires=lambda c: [("assigned features are indexed", fc_in_ii(c)), ("a cluster has at most 2**62 features", few_features(c))],
                   returns=lambda ex, st, c: Tup([BITMAP.make(ex, st, "matching"), LIST(T.Bits).make(ex, st, "bitslice")]),
                   ensures=_cq_ensures, hints=_cq_hints, uses=[count_ext, count_lemma, elem_lemma]), "Q01")

# ------------------------------------------------------------------ overlap of a query with clusters
OVER = T.TTup(T.TInt, T.TReal, T.TInt)


def jaccard(a, b):
    return T.rdiv(real(card(th.inter(a, b))), real(card(th.union(a, b))))


from contracts.c_measure import real


def overlap_facts(c, W, E):
    """W lists exactly the clusters of E that share a document with the query, with similarity and overlap"""
    j = T.fresh("j", I_)
    q = c.query.t
    ids = T.lam(j, W[j][0])
    want = T.setof(T.TInt, lambda k: And(E[k], card(th.inter(q, cdocs(c, k))) != 0))
    r = W[j]
    return [("exactly the clusters that share a document", elems(ids, W.len) == want),
            ("the overlap", ForAll([j], Implies(And(0 <= j, j < W.len), r[2] == card(th.inter(q, cdocs(c, r[0])))), patterns=[W.arr[j]])),
            ("the similarity", ForAll([j], Implies(And(0 <= j, j < W.len), r[1] == jaccard(q, cdocs(c, r[0]))), patterns=[W.arr[j]]))]


def clusters_exist(c, seq):
    j, t = T.fresh("j", I_), c.table("cluster")
    return ForAll([j], Implies(And(0 <= j, j < seq.len), t.has(seq[j])), patterns=[seq[j]])


COOC = DBContract("index._calculate_query_cluster_cooccurrence", {"idx": IDX, "key": INT, "query": BITMAP, "cluster_ids": LIST(T.TInt)}, db=["cluster"],
                  requires=lambda c: [("clusters have summaries", summarised(c)), ("the clusters exist", clusters_exist(c, c.cluster_ids))],
                  returns=lambda ex, st, c: Tup([c.raw_var("key"), LIST(OVER).make(ex, st, "weights")]),
                  ensures=lambda c: [("the key", c.result[0] == c.key)] + overlap_facts(c, c.result[1], elems(c.cluster_ids.arr, c.cluster_ids.len)),
                  types={"weights": T.TSeq(OVER)},
                  loops={0: Loop(lambda c: [f for _, f in overlap_facts(c, c.weights, elems(c.cluster_ids.arr, c.g.i))])}, uses=[elem_lemma, elems_ext])
REG.add(COOC, "Q05", "Q03")
