"""Refining a model (M05, M06)."""
from contracts.j_init import *
from contracts.b_sets import _S, _G, _x, _y, _d, _n, _a

SETS = T.TMap(T.TInt, T.TSet(T.TInt))


def disjoint(cf):
    """no feature is in two clusters"""
    f, k, m = T.fresh("f", I_), T.fresh("k", I_), T.fresh("m", I_)
    return ForAll([f, k, m], Implies(And(cf.has(k), cf.has(m), cf[k].t[f], cf[m].t[f]), k == m), patterns=[MultiPattern(cf[k].t[f], cf[m].t[f])])


def stored(c, at):
    """the features of the clusters handled so far are where they should be; at(k, f): f of cluster k is handled"""
    t0, t = c.old.table("feature_cluster"), fcl(c)
    f, k = T.fresh("f", I_), T.fresh("k", I_)
    cf = c.cluster_feature
    new = t.col(f, "cluster_id")
    return [("the same features are assigned", ForAll([f], t.has(f) == t0.has(f), patterns=[t.has(f)])),
            ("listed features go to their cluster", ForAll([f, k], Implies(And(t.has(f), at(k, f)), new == k), patterns=[MultiPattern(t.has(f), cf[k].t[f])])),
            ("other features stay", ForAll([f], Implies(t.has(f), Or(new == t0.col(f, "cluster_id"), at(new, f))), patterns=[t.has(f)])),
            ("pins and counts are unchanged", ForAll([f], Implies(t.has(f), And(t.col(f, "pinned") == t0.col(f, "pinned"), t.col(f, "docs_count") == t0.col(f, "docs_count"))), patterns=[t.has(f)]))]


def updated(c, at):
    cf = c.cluster_feature
    return stored(c, at) + rows_kept(c) + new_rows(c, lambda k: cf.has(k))


def _up(at):
    return Loop(lambda c: facts(updated(c, lambda k, f: at(c, k, f)) + links(c) + untouched(c)))


REG.add(DBContract("index.Index._update_cluster_feature", {"self": IDX, "cluster_feature": P(SETS, "dict")},
                   ensures=lambda c: updated(c, lambda k, f: And(c.cluster_feature.has(k), c.cluster_feature[k].t[f])) + links(c) + untouched(c) + tracked(c),
                   loops={("sql", 0): _up(lambda c, k, f: And(c.g.done[k], c.cluster_feature[k].t[f])),
                          ("sql", 0, 1): _up(lambda c, k, f: Or(And(c.outer.done[k], c.cluster_feature[k].t[f]), And(k == c.cluster_id, c.g.done[f])))},
                   **dict(EDIT, requires=lambda c: inv(c) + [("no feature is in two clusters", disjoint(c.cluster_feature))])), "M05", "M02")
