"""The cluster graph (Q05)."""
from contracts.e_rank import *
from contracts.b_sets import _S, _G, _x, _y, _d, _n, _a
from dv.graph import Graph, PAIR as NPAIR

TOP = T.TTup(T.TInt, T.TInt, T.TSeq(ROW))
MODEL_READ = ["cluster", "feature_cluster", "inverted_index"]


def first_of(seq):
    j = T.fresh("j", I_)
    return T.lam(j, seq[j][0])


def top_facts(c, r):
    t = c.table("cluster")
    i, j, k = T.fresh("i", I_), T.fresh("j", I_), T.fresh("k", I_)
    ids = first_of(r)
    w = elemw(ids, r.len, k)
    rng = lambda x: And(0 <= x, x < r.len)
    return [("only clusters, with their document counts", ForAll([i], Implies(rng(i), And(t.has(r[i][0]), r[i][1] == t.col(r[i][0], "docs_count"))), patterns=[r.arr[i]])),
            ("every cluster", ForAll([k], Implies(t.has(k), And(rng(w), r[w][0] == k)), patterns=[t.has(k)])),
            ("each once", distinct(ids, r.len)),
            ("largest first", ForAll([i, j], Implies(And(0 <= i, i < j, j < r.len), r[i][1] >= r[j][1]), patterns=[MultiPattern(r.arr[i], r.arr[j])]))]


REG.add(DBContract("index.Index.top_cluster_features", {"self": IDX, "top_k": INT}, db=MODEL_READ, returns=LIST(TOP),
                   requires=lambda c: [("assigned features are indexed", fc_in_ii(c))],
                   ensures=lambda c: top_facts(c, c.result), uses=[elem_lemma]), "Q05", "Q06")

# ------------------------------------------------------------------ the graph
FUT = T.TFut("index._calculate_query_cluster_cooccurrence", [T.TInt, T.Bits, T.TSeq(T.TInt), T.TInt])
FSET = z3.ArraySort(FUT.sort, z3.BoolSort())
has_job = z3.Function("has_job", FSET, I_, z3.BoolSort())
jobw = z3.Function("job_of", FSET, I_, FUT.sort)
_F, _f, _k2 = z3.Const("F", FSET), z3.Const("fut", FUT.sort), Int("key")
T.axiom([has_job], ForAll([_F, _f], Implies(_F[_f], has_job(_F, FUT.get(_f, 0))), patterns=[MultiPattern(has_job(_F, FUT.get(_f, 0)), _F[_f])]), "definition of has_job")
T.axiom([has_job], ForAll([_F, _k2], Implies(has_job(_F, _k2), And(_F[jobw(_F, _k2)], FUT.get(jobw(_F, _k2), 0) == _k2)), patterns=[has_job(_F, _k2)]), "definition of has_job")
T.axiom([has_job], ForAll([_k2], Not(has_job(z3.K(FUT.sort, BoolVal(False)), _k2)), patterns=[has_job(z3.K(FUT.sort, BoolVal(False)), _k2)]), "definition of has_job")
_FS = has_job(Store(_F, _f, True), _k2)
T.axiom([has_job], ForAll([_F, _f, _k2], _FS == Or(has_job(_F, _k2), FUT.get(_f, 0) == _k2), patterns=[_FS]), "has_job after adding")


def graph_parts(c, o):
    return c._st.attrs[(o.oid, "nodes")], c._st.attrs[(o.oid, "edges")]


def gnodes(c, o):
    return c.value(graph_parts(c, o)[0])


def gedges(c, o):
    return c.value(graph_parts(c, o)[1])


def share(c, a, b):
    return card(th.inter(cdocs(c, a), cdocs(c, b))) != 0


def edge_weights(c, e):
    a, b = T.fresh("a", I_), T.fresh("b", I_)
    k = NPAIR.mk(a, b)
    return ForAll([a, b], Implies(e.has(k), e[k] == jaccard(cdocs(c, a), cdocs(c, b))), patterns=[e.has(k)])


def _graph_ensures(c):
    n, e, t = gnodes(c, c.rv), gedges(c, c.rv), c.table("cluster")
    k, a, b = T.fresh("k", I_), T.fresh("a", I_), T.fresh("b", I_)
    key = NPAIR.mk(a, b)
    return [("one node per cluster", ForAll([k], n.has(k) == t.has(k), patterns=[n.has(k)])),
            ("nodes carry their document count", ForAll([k], Implies(n.has(k), n[k][0] == t.col(k, "docs_count")), patterns=[n.has(k)])),
            ("an edge exactly between different clusters that share a document", ForAll([a, b], e.has(key) == And(t.has(a), t.has(b), a != b, share(c, a, b)), patterns=[e.has(key)])),
            ("weighted by their similarity", edge_weights(c, e))]


def same_or_new(c, name):
    return c.var(name)


def pos(c, k):
    cl = c.clusters
    return elemw(first_of(cl), cl.len, k)


def in_list(c, k, upto=None):
    p, cl = pos(c, k), c.clusters
    return And(0 <= p, p < (cl.len if upto is None else upto), cl[p][0] == k)


def _g_inv0(c):
    n, e, cl = gnodes(c, c.graph), gedges(c, c.graph), c.clusters
    k, ky = T.fresh("k", I_), T.fresh("kk", NPAIR.sort)
    return [ForAll([k], n.has(k) == And(c.table("cluster").has(k), pos(c, k) < c.g.i), patterns=[n.has(k)]),
            ForAll([k], Implies(n.has(k), n[k][0] == c.table("cluster").col(k, "docs_count")), patterns=[n.has(k)]),
            e.dom == T.set_theory(NPAIR).empty]


def job_facts(c, F, i):
    """the jobs of the first i clusters"""
    f, k = T.fresh("f", FUT.sort), T.fresh("k", I_)
    key = FUT.get(f, 0)
    lst = W(T.TSeq(T.TInt), FUT.get(f, 2))
    j = T.fresh("j", I_)
    cl = c.clusters
    E = elems(lst.arr, lst.len)
    return [ForAll([f], Implies(F[f], And(in_list(c, key, i), c.table("cluster").has(key))), patterns=[F[f]]),
            ForAll([f], Implies(F[f], FUT.get(f, 1) == cdocs(c, key)), patterns=[F[f]]),
            ForAll([f, k], Implies(F[f], E[k] == And(c.table("cluster").has(k), pos(c, k) > pos(c, key))), patterns=[MultiPattern(F[f], E[k])]),
            ForAll([f, j], Implies(And(F[f], 0 <= j, j < lst.len), c.table("cluster").has(lst[j])), patterns=[MultiPattern(F[f], lst[j])]),
            ForAll([k], has_job(F, k) == And(c.table("cluster").has(k), pos(c, k) < i), patterns=[has_job(F, k)])]


def _g_inv1(c):
    return job_facts(c, c.futures.t if c.futures is not EMPTY else z3.K(FUT.sort, BoolVal(False)), c.g.i)


def edges_of_jobs(c, e, D):
    a, b = T.fresh("a", I_), T.fresh("b", I_)
    key = NPAIR.mk(a, b)
    t = c.table("cluster")
    return ForAll([a, b], e.has(key) == And(t.has(a), t.has(b), share(c, a, b), Or(And(pos(c, a) < pos(c, b), has_job(D, a)), And(pos(c, b) < pos(c, a), has_job(D, b)))), patterns=[e.has(key)])


def nodes_done(c, n):
    k, t = T.fresh("k", I_), c.table("cluster")
    return [ForAll([k], n.has(k) == t.has(k), patterns=[n.has(k)]),
            ForAll([k], Implies(n.has(k), n[k][0] == t.col(k, "docs_count")), patterns=[n.has(k)])]


def _g_inv2(c):
    n, e = gnodes(c, c.graph), gedges(c, c.graph)
    return nodes_done(c, n) + [edges_of_jobs(c, e, c.g.done), edge_weights(c, e)]


def _g_inv3(c):
    n, e, e0 = gnodes(c, c.graph), gedges(c, c.graph), gedges(c.pre, c.pre.raw_var("graph"))
    a, b = T.fresh("a", I_), T.fresh("b", I_)
    key = NPAIR.mk(a, b)
    me = c.cluster_id
    E = elems(first_of(c.weights), c.g.i)
    return nodes_done(c, n) + [ForAll([a, b], e.has(key) == Or(e0.has(key), And(a == me, E[b]), And(b == me, E[a])), patterns=[e.has(key)]), edge_weights(c, e)]


REG.add(DBContract("index.Index.create_cluster_cooccurrence_graph", {"self": IDX, "top_k": INT, "include_field_in_label": BOOL}, db=MODEL_READ,
                   exts=(Par, Graph), requires=lambda c: [("clusters have summaries", summarised(c)), ("assigned features are indexed", fc_in_ii(c))],
                   ensures=_graph_ensures, loops={0: Loop(_g_inv0), 1: Loop(_g_inv1), 2: Loop(_g_inv2), 3: Loop(_g_inv3)}, uses=[elem_lemma, elems_ext]), "Q05")
