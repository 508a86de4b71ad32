"""Edits of the model and its summaries (M01, M02, M03)."""
from contracts.f_graph import *
from contracts.b_sets import _S, _G, _x, _y, _d, _n, _a

FC, CL, CH = TABLES["feature_cluster"], TABLES["cluster"], TABLES["changed_cluster"]
MODEL = ["inverted_index", "cluster", "feature_cluster", "changed_cluster"]
assigned = z3.Function("assigned", FC.ty.sort, I_, SET)      # the features of a cluster
_t, _k = z3.Const("t", FC.ty.sort), Int("k")
_A1 = assigned(_t, _k)
T.axiom([assigned], ForAll([_t, _k, _x], _A1[_x] == And(FC.ty.has(_t, _x), FC.rty.col(FC.ty.at(_t, _x), "cluster_id") == _k), patterns=[_A1[_x]]), "definition of the features of a cluster")


def fcl(c):
    return c.table("feature_cluster")


def asg(c, k):
    return assigned(fcl(c).t, k)


_p = [z3.Const("c_" + n, t.sort) for n, t in CL.cols if n != "pinned"]


def exact_parts(S, G, feature_count, docs_count, weight, doc_ids):
    """this is the summary of the features S with document sets G"""
    U = bigunion(S, G)
    return [feature_count == card(S), docs_count == card(U), weight == hits(S, G), doc_ids == Ob.some(U), card(S) > 0]


exact = T.opaque("exact_summary", [_S, _G] + _p, And(*exact_parts(_S, _G, *_p)))


def family(ii):
    return T.setof(T.TInt, lambda k: If(II.ty.has(ii, k), II.rty.col(II.ty.at(ii, k), "doc_ids"), th.empty))


def links(c):
    """references and copied counts"""
    fc, ii, cl, ch = fcl(c), c.table("inverted_index"), c.table("cluster"), c.table("changed_cluster")
    f, k = T.fresh("f", I_), T.fresh("k", I_)
    return [("assigned features are indexed", ForAll([f], Implies(fc.has(f), ii.has(f)), patterns=[fc.has(f)])),
            ("with their document counts", ForAll([f], Implies(fc.has(f), fc.col(f, "docs_count") == ii.col(f, "docs_count")), patterns=[fc.has(f)])),
            ("clusters with features are listed", ForAll([f], Implies(fc.has(f), cl.has(fc.col(f, "cluster_id"))), patterns=[fc.has(f)])),
            ("marked clusters are listed", ForAll([k], Implies(ch.has(k), cl.has(k)), patterns=[ch.has(k)]))]


_ti, _tl, _th = z3.Const("ti", II.ty.sort), z3.Const("tl", CL.ty.sort), z3.Const("th", CH.ty.sort)


def all_exact(ii, fc, cl, k):
    return exact(assigned(fc, k), family(ii), *[CL.rty.col(CL.ty.at(cl, k), n) for n, _ in CL.cols if n != "pinned"])


def _tracked(ii, fc, cl, ch):
    live = And(CL.ty.has(cl, _k), Not(CH.ty.has(ch, _k)))
    return ForAll([_k], Implies(live, all_exact(ii, fc, cl, _k)), patterns=[CL.ty.has(cl, _k)])


tracked_p = T.opaque("tracked", [_ti, _t, _tl, _th], _tracked(_ti, _t, _tl, _th))


def tracked_term(c):
    return tracked_p(*[c.table(n).t for n in ("inverted_index", "feature_cluster", "cluster", "changed_cluster")])


def tracked(c):
    return [("unmarked clusters have exact summaries", tracked_term(c))]


def tracked_open(c):
    return _tracked(*[c.table(n).t for n in ("inverted_index", "feature_cluster", "cluster", "changed_cluster")])


def tracked_hints(c):
    """from untouched(c) to tracked(c)"""
    k, cl, ch = T.fresh("k", I_), c.table("cluster"), c.table("changed_cluster")
    live = And(cl.has(k), Not(ch.has(k)))
    return [("unmarked clusters keep their features", ForAll([k], Implies(live, asg(c, k) == asg(c.old, k)), patterns=[cl.has(k)])),
            ("before", T.unfold(tracked_term(c.old))), ("summaries", tracked_open(c)), ("after", T.unfold(tracked_term(c)))]


def inv(c):
    return links(c) + tracked(c)


def facts(xs):
    return [f for _, f in xs]


EDIT = dict(hints=tracked_hints, db=MODEL, writes=["cluster", "feature_cluster", "changed_cluster"], requires=inv)


def edited(c, gone, cluster_of, label):
    """which features stay, and where"""
    t0, t = c.old.table("feature_cluster"), fcl(c)
    f = T.fresh("f", I_)
    return [("exactly the right features are assigned", ForAll([f], t.has(f) == And(t0.has(f), Not(gone(f))), patterns=[t.has(f)])),
            ("to the right clusters", ForAll([f], Implies(t.has(f), t.col(f, "cluster_id") == cluster_of(f)), patterns=[t.has(f)])),
            ("pins and counts are unchanged", ForAll([f], Implies(t.has(f), And(t.col(f, "pinned") == t0.col(f, "pinned"), t.col(f, "docs_count") == t0.col(f, "docs_count"))), patterns=[t.has(f)]))]


def rows_kept(c):
    """no cluster row disappears or changes"""
    a, b = c.old.table("cluster"), c.table("cluster")
    k = T.fresh("k", I_)
    return [("no cluster row disappears", ForAll([k], Implies(a.has(k), b.has(k)), patterns=[b.has(k)])),
            ("no cluster row changes", ForAll([k], Implies(a.has(k), b[k].t == a[k].t), patterns=[b.has(k)])),
            ("marks stay", ForAll([k], Implies(c.old.table("changed_cluster").has(k), c.table("changed_cluster").has(k)), patterns=[c.old.table("changed_cluster").has(k)]))]


def new_rows(c, which):
    a, b = c.old.table("cluster"), c.table("cluster")
    k = T.fresh("k", I_)
    return [("only these cluster rows are new", ForAll([k], Implies(b.has(k), Or(a.has(k), which(k))), patterns=[b.has(k)])),
            ("new rows are not pinned", ForAll([k], Implies(And(b.has(k), Not(a.has(k))), Not(b.col(k, "pinned"))), patterns=[b.has(k)]))]


def old_cluster(c):
    t0 = c.old.table("feature_cluster")
    return lambda f: t0.col(f, "cluster_id")


none = lambda f: BoolVal(False)


def untouched(c):
    """clusters that are not marked are as they were"""
    cl0, cl, ch, t0, t = c.old.table("cluster"), c.table("cluster"), c.table("changed_cluster"), c.old.table("feature_cluster"), fcl(c)
    k, f = T.fresh("k", I_), T.fresh("f", I_)
    live = lambda k: And(cl.has(k), Not(ch.has(k)))
    return [("unmarked clusters were there", ForAll([k], Implies(live(k), cl0.has(k)), patterns=[cl.has(k)])),
            ("unmarked clusters lose no features", ForAll([f], Implies(And(t0.has(f), live(t0.col(f, "cluster_id"))), And(t.has(f), t.col(f, "cluster_id") == t0.col(f, "cluster_id"))), patterns=[t0.has(f)])),
            ("unmarked clusters get no features", ForAll([f], Implies(And(t.has(f), live(t.col(f, "cluster_id"))), And(t0.has(f), t.col(f, "cluster_id") == t0.col(f, "cluster_id"))), patterns=[t.has(f)]))]


def edit(qual, params, post, n_loops, of_loop, **kw):
    """A contract of an editing method: post(c, arg) for the whole argument, and for the part already processed."""
    def whole(c):
        return post(c, of_loop(c, None)) + links(c) + untouched(c) + tracked(c)

    def inv_(c):
        return facts(post(c, of_loop(c, c.g.i)) + links(c) + untouched(c))
    return REG.add(DBContract(qual, dict({"self": IDX}, **params), ensures=whole, loops={("sql", j): Loop(inv_) for j in range(n_loops)}, **dict(EDIT, **kw)), "M01", "M02")


def prefix(name):
    def f(c, i):
        seq = c.var(name)
        return elems(seq.arr, seq.len if i is None else i)
    return f


def deleted_clusters(c, S):
    t0 = c.old.table("feature_cluster")
    return edited(c, lambda f: S[t0.col(f, "cluster_id")], old_cluster(c), "") + rows_kept(c) + new_rows(c, none)


def deleted_features(c, S):
    return edited(c, lambda f: S[f], old_cluster(c), "") + rows_kept(c) + new_rows(c, none)


edit("index.Index.delete_clusters", {"cluster_ids": LIST(T.TInt)}, deleted_clusters, 1, prefix("cluster_ids"))
edit("index.Index.delete_features", {"feature_ids": LIST(T.TInt)}, deleted_features, 1, prefix("feature_ids"))


# ------------------------------------------------------------------ merge_clusters
def merged(c, n):
    seq = c.cluster_ids
    S, first = elems(seq.arr, n), seq[0]
    old = old_cluster(c)
    return edited(c, none, lambda f: If(S[old(f)], first, old(f)), "") + rows_kept(c) + new_rows(c, lambda k: k == first)


REG.add(DBContract("index.Index.merge_clusters", {"self": IDX, "cluster_ids": LIST(T.TInt)}, returns=INT, raises=[("IndexError", lambda c: c.cluster_ids.len == 0)],
                   ensures=lambda c: [("the first cluster", c.result == c.cluster_ids[0])] + merged(c, c.cluster_ids.len) + links(c) + untouched(c) + tracked(c),
                   loops={0: Loop(lambda c: [c.merge_cluster_id == c.cluster_ids[0]] + facts(merged(c, c.g.i + 1) + links(c) + untouched(c)))}, **EDIT), "M01", "M02")


# ------------------------------------------------------------------ create_cluster_from_features
def indexed(c, seq, n):
    j, ii = T.fresh("j", I_), c.table("inverted_index")
    return ForAll([j], Implies(And(0 <= j, j < n), ii.has(seq[j])), patterns=[seq[j]])


def created(c, S, new, moved):
    t0, t = c.old.table("feature_cluster"), fcl(c)
    f, cl0, k = T.fresh("f", I_), c.old.table("cluster"), T.fresh("k", I_)
    old = lambda f: If(t0.has(f), t0.col(f, "cluster_id"), new)
    return [("above every id in use", ForAll([k], Implies(cl0.has(k), k < new), patterns=[cl0.has(k)])),
            ("exactly the right features are assigned", ForAll([f], t.has(f) == Or(t0.has(f), S[f]), patterns=[t.has(f)])),
            ("to the right clusters", ForAll([f], Implies(t.has(f), t.col(f, "cluster_id") == If(moved[f], new, old(f))), patterns=[t.has(f)])),
            ("pins are unchanged", ForAll([f], Implies(t.has(f), t.col(f, "pinned") == And(t0.has(f), t0.col(f, "pinned"))), patterns=[t.has(f)]))] + rows_kept(c) + new_rows(c, lambda k: k == new)


def _cr_inv(step):
    def f(c):
        seq, i = c.feature_ids, c.g.i
        S, M = (elems(seq.arr, i), th.empty) if step == 0 else (elems(seq.arr, seq.len), elems(seq.arr, i))
        return facts(created(c, S, c.next_cluster_id, M) + links(c) + untouched(c)) + [indexed(c, seq, i if step == 0 else seq.len)]
    return Loop(f)


REG.add(DBContract("index.Index.create_cluster_from_features", {"self": IDX, "feature_ids": LIST(T.TInt)}, returns=INT,
                   raises=[("sqlite3.IntegrityError", lambda c: Not(indexed(c, c.feature_ids, c.feature_ids.len)))],
                   ensures=lambda c: created(c, elems(c.feature_ids.arr, c.feature_ids.len), c.result, elems(c.feature_ids.arr, c.feature_ids.len)) + links(c) + untouched(c) + tracked(c),
                   loops={("sql", 0): _cr_inv(0), ("sql", 1): _cr_inv(1)}, uses=[elem_lemma], **EDIT), "M01", "M02")


# ------------------------------------------------------------------ pins
def same_but(c, table, col, value):
    """only this column changed, to these values"""
    a, b, k = c.old.table(table), c.table(table), T.fresh("k", I_)
    return [("the same rows", ForAll([k], b.has(k) == a.has(k), patterns=[b.has(k)])),
            ("pins", ForAll([k], Implies(b.has(k), b.col(k, col) == value(k)), patterns=[b.has(k)]))] + \
           [(f"{n} is unchanged", ForAll([k], Implies(b.has(k), raw(b.col(k, n)) == raw(a.col(k, n))), patterns=[b.has(k)])) for n, _ in TABLES[table].cols if n != col]


def pinned_features(c, S):
    t0 = c.old.table("feature_cluster")
    return same_but(c, "feature_cluster", "pinned", lambda f: If(S[f], c.pinned, t0.col(f, "pinned")))


def pinned_clusters(c, S):
    t0 = c.old.table("cluster")
    return same_but(c, "cluster", "pinned", lambda f: If(S[f], c.pinned, t0.col(f, "pinned")))


edit("index.Index.pin_features", {"feature_ids": LIST(T.TInt), "pinned": BOOL}, pinned_features, 1, prefix("feature_ids"), writes=["feature_cluster"])
edit("index.Index.pin_clusters", {"cluster_ids": LIST(T.TInt), "pinned": BOOL}, pinned_clusters, 1, prefix("cluster_ids"), writes=["cluster"])
