"""The transaction decorator, and the public model edits as they are called (M04, M01)."""
import ast
from contracts.h_refresh import *
from contracts.b_sets import _S, _G, _x, _y, _d, _n, _a
from dv.libs import Ext
from dv.values import *


def settled(c):
    """what holds between public operations: references, no marks, exact summaries of non-empty clusters"""
    ch, k = c.table("changed_cluster"), T.fresh("k", I_)
    return links(c) + [("no cluster is marked", ForAll([k], Not(ch.has(k)), patterns=[ch.has(k)]))] + tracked(c)


def transaction(ex, st):
    """an index at an arbitrary nesting depth; what is committed is arbitrary inside a transaction"""
    uses_tables(*MODEL)(ex, st)
    outer = T.fresh("inside_transaction", z3.BoolSort())
    com = {}
    for n, r in st.tag["db"].items():
        com[n] = T.fresh("committed_" + n, st.ty(r).sort)
        st.assume(Implies(Not(outer), com[n] == st.term(r)))
    st.tag = dict(st.tag, outer=outer, committed=com)


def _nested_index(ex, st, name):
    o = Obj("index.Index", newid())
    level, changed = T.fresh("level", I_), T.fresh("changed", z3.BoolSort())
    st.attrs[(o.oid, "_transaction_level")], st.attrs[(o.oid, "_changed")] = Sc(T.TInt, level), Sc(T.TBool, changed)
    st.assume(level >= 0, (level > 0) == st.tag["outer"], Implies(level == 0, Not(changed)))
    return o


def level(c):
    return c.attr(c.raw_var("self").oid, "_transaction_level")


def changed(c):
    return c.attr(c.raw_var("self").oid, "_changed")


class Wrapped(Ext):
    """The decorated method: it may do anything to the tables it is allowed to write, nest, or raise anything."""

    def __init__(self, repo):
        pass

    def attribute(self, ex, st, v, name):
        if isinstance(v, Obj) and v.cls == "wrapped" and name == "__name__":
            return [(st, S("wrapped"))]

    def call_obj(self, ex, st, f, args, kw, node):
        if f.cls != "wrapped":
            return None
        idx = args[0]
        writes = ex.old_state[2]["writes"].t
        lv = st.attrs[(idx.oid, "_transaction_level")]
        ex.oblige(st, lv.t >= 1, "the method runs inside the transaction")
        for cls in (None, "any"):
            s = st.copy()
            was = ex.coerce(s.attrs[(idx.oid, "_changed")], T.TBool)
            now = T.fresh("changed", z3.BoolSort())
            s.assume(Implies(was, now))
            s.attrs[(idx.oid, "_changed")] = Sc(T.TBool, now)
            for n, r in s.tag["db"].items():
                t = T.fresh(n, s.ty(r).sort)
                s.assume(*T.type_inv(t, s.ty(r)))
                if cls is None:
                    s.assume(Implies(Not(Or(writes, now)), t == s.term(r)))
                s.set_term(r, t)
            c = Spec(ex, s, s.fid, (s, s.fid, {"self": idx}), None, None, {"self": idx})
            if cls is None:
                for _, g in inv(c):
                    s.assume(g)
                s.tag = dict(s.tag, ghost={n: s.term(r) for n, r in s.tag["db"].items()})
                out = [(s, Sc(T.TVal, T.fresh("result", T.Val)))]
            else:
                ex.exc.append((s, Exc(cls, "raised by the method")))
        return out


def committed(c):
    return c._st.tag["committed"]


def _left(c):
    """what holds however the operation ends"""
    return [("the nesting level is restored", level(c) == level(c.old)),
            ("the savepoint is released", BoolVal(c._st.tag.get("savepoints", ()) == ())),
            ("outside a transaction no change is pending", Implies(level(c) == 0, Not(changed(c))))]


def _same_db(c, names=MODEL):
    return [(f"{n} is as it was", c.table(n).t == c.old.table(n).t) for n in names]


def _committed(c, names=MODEL):
    return [(f"outside a transaction, {n} is committed", Implies(level(c) == 0, committed(c)[n] == c.table(n).t)) for n in names] + \
           [(f"inside a transaction, {n} is not committed", Implies(level(c) > 0, committed(c)[n] == c.old._st.tag["committed"][n])) for n in names]


def _returned(c):
    aft = c._st.tag["ghost"]
    ch, k = c.table("changed_cluster"), T.fresh("k", I_)
    touched = Or(c.writes, changed(c))
    return _left(c) + _committed(c) + \
        [("the outermost operation leaves exact summaries", Implies(level(c) == 0, And(*[g for _, g in links(c) + tracked(c)]))),
         ("the outermost writing operation leaves no marks", Implies(And(level(c) == 0, c.writes), ForAll([k], Not(ch.has(k)), patterns=[ch.has(k)]))),
         ("a nested writing operation records that there are changes", Implies(And(level(c) > 0, c.writes), changed(c))),
         ("the assignments are the method's", c.table("feature_cluster").t == aft["feature_cluster"]),
         ("the index is the method's", c.table("inverted_index").t == aft["inverted_index"])] + \
        [(f"inside a transaction, {n} is the method's", Implies(level(c) > 0, c.table(n).t == aft[n])) for n in MODEL]


REG.add(DBContract("index.atomic:method", {"self": P(None, make=_nested_index), "writes": BOOL, "func": P(None, make=lambda ex, st, n: Obj("wrapped", newid()))},
                   node=ast.parse("def use(self, writes, func):\n    return atomic(writes)(func)(self)").body[0],
                   db=MODEL, exts=(Wrapped, Par), writes=MODEL, requires=inv, ensures=_returned, raises=[("any", None)],
                   on_raise=lambda c: _left(c) + _same_db(c) + _committed(c)), "M04", "M01")
REG.contracts["index.atomic:method"].setup = transaction


# ------------------------------------------------------------------ public operations as they are called
def _top_index(ex, st, name):
    o = Obj("index.Index", newid())
    st.attrs[(o.oid, "_transaction_level")], st.attrs[(o.oid, "_changed")] = I(0), B(False)
    return o


def top(ex, st, tables=MODEL):
    uses_tables(*tables)(ex, st)
    st.tag = dict(st.tag, outer=BoolVal(False), committed={n: st.term(r) for n, r in st.tag["db"].items()})


def applied(qual, params):
    """def use(self, method, ...): return <the decorators of the method, as in the source>(method)(self, ...)"""
    def node(rp):
        fn = rp.funcs[qual]
        use = ast.parse(f"def use({', '.join(['self', 'method'] + list(params))}):\n    return method").body[0]
        e = use.body[0].value
        for d in reversed(fn.decorator_list):
            e = ast.Call(d, [e], [])
        use.body[0].value = ast.Call(e, [ast.Name(x, ast.Load()) for x in ["self"] + list(params)], [])
        return ast.fix_missing_locations(use)
    return node


def the_method(qual):
    return P(None, make=lambda ex, st, n: Fn(ex.repo.funcs[qual], None, qual.split(".")[0], qual))


def listed(c):
    """clusters: exactly those with features, with the pins they had"""
    a, b, k = c.old.table("cluster"), c.table("cluster"), T.fresh("k", I_)
    return [("listed clusters have features", ForAll([k], Implies(b.has(k), asg(c, k) != th.empty), patterns=[b.has(k)])),
            ("clusters keep their pins", ForAll([k], Implies(And(b.has(k), a.has(k)), b.col(k, "pinned") == a.col(k, "pinned")), patterns=[b.has(k)]))]


def as_called(qual, params, post, *props, pins=True, tables=MODEL, requires=settled, **kw):
    REG.add(DBContract(qual + ":called", dict({"self": P(None, make=_top_index), "method": the_method(qual)}, **params), node=applied(qual, params), db=tables, exts=(Par,),
                       writes=MODEL, requires=requires, ensures=lambda c: post(c) + (listed(c) if pins else listed(c)[:1]) + settled(c) + _left(c) + _committed(c),
                       raises=[("any", None)], on_raise=lambda c: _left(c) + _same_db(c) + _committed(c), **kw), *(props or ("M01", "M02", "M04")))
    REG.contracts[qual + ":called"].setup = lambda ex, st: top(ex, st, tables)


def rows_had_features(c):
    a, k = c.old.table("cluster"), T.fresh("k", I_)
    return unfold_old(c) + [ForAll([k], Implies(a.has(k), asg(c.old, k) != th.empty), patterns=[a.has(k)])]


def listof(name):
    return lambda c: elems(c.var(name).arr, c.var(name).len)


as_called("index.Index.delete_clusters", {"cluster_ids": LIST(T.TInt)},
          lambda c: edited(c, lambda f: listof("cluster_ids")(c)[c.old.table("feature_cluster").col(f, "cluster_id")], old_cluster(c), ""))
as_called("index.Index.delete_features", {"feature_ids": LIST(T.TInt)},
          lambda c: edited(c, lambda f: listof("feature_ids")(c)[f], old_cluster(c), ""))
as_called("index.Index.merge_clusters", {"cluster_ids": LIST(T.TInt)},
          lambda c: edited(c, none, lambda f: If(listof("cluster_ids")(c)[old_cluster(c)(f)], c.cluster_ids[0], old_cluster(c)(f)), ""))
as_called("index.Index.create_cluster_from_features", {"feature_ids": LIST(T.TInt)},
          lambda c: created(c, listof("feature_ids")(c), c._ex.coerce(c.rv, T.TInt), listof("feature_ids")(c))[:4])
as_called("index.Index.pin_features", {"feature_ids": LIST(T.TInt), "pinned": BOOL}, lambda c: pinned_features(c, listof("feature_ids")(c)))
as_called("index.Index.pin_clusters", {"cluster_ids": LIST(T.TInt), "pinned": BOOL}, lambda c: pinned_clusters(c, listof("cluster_ids")(c)), pins=False, hints=rows_had_features)
