"""Refreshing the summaries of marked clusters (M01, M02)."""
from contracts.g_model import *
from contracts.c_measure import _uq
from contracts.b_sets import _S, _G, _x, _y, _d, _n, _a


SUMMARY = [n for n, _ in CL.cols if n != "pinned"]


def _marked(c):
    return c.old.table("changed_cluster")


def _counts(c):
    """after the first statement: the marked clusters have their feature counts, nothing else changed"""
    a, b, ch, k = c.old.table("cluster"), c.table("cluster"), _marked(c), T.fresh("k", I_)
    return [ForAll([k], b.has(k) == a.has(k), patterns=[b.has(k)]),
            ForAll([k], Implies(b.has(k), b.col(k, "pinned") == a.col(k, "pinned")), patterns=[b.has(k)]),
            ForAll([k], Implies(And(b.has(k), Not(ch.has(k))), b[k].t == a[k].t), patterns=[b.has(k)]),
            ForAll([k], Implies(And(b.has(k), ch.has(k)), b.col(k, "feature_count") == card(asg(c, k))), patterns=[b.has(k)])]


def _done(c):
    b, D, k = c.table("cluster"), c.g.done, T.fresh("k", I_)
    G = family(c.table("inverted_index").t)
    S = asg(c, k)
    return [ForAll([k], Implies(D[k], b.col(k, "docs_count") == card(bigunion(S, G))), patterns=[D[k]]),
            ForAll([k], Implies(D[k], b.col(k, "weight") == hits(S, G)), patterns=[D[k]]),
            ForAll([k], Implies(D[k], b.col(k, "doc_ids").t == Ob.some(bigunion(S, G))), patterns=[D[k]])]


def _steps(c):
    G = family(c.table("inverted_index").t)
    S = asg(c, c.cluster_id)
    a, n = _uq(c.call("index._union_query"))
    x = T.fresh("x", I_)
    return [ForAll([x], Implies(S[x], elems(a, n)[x]), patterns=[S[x]]), ForAll([x], Implies(elems(a, n)[x], S[x]), patterns=[elems(a, n)[x]]),
            elems(a, n) == S, c.query.t == bigunion(S, G), c.weight == hits(S, G)]


def exact_row(c, k):
    return all_exact(c.table("inverted_index").t, fcl(c).t, c.table("cluster").t, k)


def unfold_old(c):
    """open what is known of the unmarked clusters at the start"""
    cl0, k = c.old.table("cluster"), T.fresh("k", I_)
    return [T.unfold(tracked_term(c.old)), ForAll([k], T.unfold(exact_row(c.old, k)), patterns=[cl0.has(k)]),
            ForAll([k], Implies(And(cl0.has(k), Not(_marked(c).has(k))), cl0.col(k, "feature_count") == card(asg(c.old, k))), patterns=[cl0.has(k)])]


def _after(c):
    t, b, f, k = fcl(c), c.table("cluster"), T.fresh("f", I_), T.fresh("k", I_)
    A = lambda f: asg(c, t.col(f, "cluster_id"))
    return [ForAll([f], Implies(t.has(f), A(f)[f]), patterns=[t.has(f)]), ForAll([f], Implies(t.has(f), card(A(f)) > 0), patterns=[t.has(f)])] + unfold_old(c) + \
           [ForAll([k], Implies(b.has(k), b.col(k, "feature_count") == card(asg(c, k))), patterns=[b.has(k)]),
            ForAll([f], Implies(t.has(f), b.col(t.col(f, "cluster_id"), "feature_count") > 0), patterns=[t.has(f)])]


def _return_hints(c):
    b, a, k = c.table("cluster"), c.old.table("cluster"), T.fresh("k", I_)
    G = family(c.table("inverted_index").t)
    S = asg(c, k)
    row = [b.col(k, n) for n in SUMMARY]
    parts = exact_parts(S, G, *[x.t if isinstance(x, W) else x for x in row])
    return [ForAll([k], Implies(b.has(k), asg(c, k) != th.empty), patterns=[b.has(k)])] + \
           [ForAll([k], Implies(And(b.has(k), Not(_marked(c).has(k))), x), patterns=[b.has(k)]) for x in parts] + \
           [ForAll([k], Implies(And(b.has(k), _marked(c).has(k)), x), patterns=[b.has(k)]) for x in parts] + \
           [ForAll([k], T.unfold(exact_row(c, k)), patterns=[b.has(k)]), ForAll([k], Implies(b.has(k), exact_row(c, k)), patterns=[b.has(k)]), T.unfold(tracked_term(c))]


def _refreshed(c):
    a, b, ch, k = c.old.table("cluster"), c.table("cluster"), c.table("changed_cluster"), T.fresh("k", I_)
    return [("no cluster is marked", ForAll([k], Not(ch.has(k)), patterns=[ch.has(k)])),
            ("exactly the clusters with features remain", ForAll([k], b.has(k) == And(a.has(k), asg(c, k) != th.empty), patterns=[b.has(k)])),
            ("pins stay", ForAll([k], Implies(b.has(k), b.col(k, "pinned") == a.col(k, "pinned")), patterns=[b.has(k)])),
            ("unmarked clusters are unchanged", ForAll([k], Implies(And(b.has(k), Not(_marked(c).has(k))), b[k].t == a[k].t), patterns=[b.has(k)]))]


REG.add(DBContract("index.Index._update_changed_clusters", {"self": IDX}, db=MODEL, exts=(Par,), requires=inv, writes=["cluster", "changed_cluster"], raises=[("any", None)],
                   ensures=lambda c: _refreshed(c) + links(c) + tracked(c), loops={0: Loop(lambda c: _counts(c) + _done(c), steps=_steps, hints=_after)}, hints=_return_hints, uses=[elem_lemma]), "M01", "M02")
