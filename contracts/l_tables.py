"""Cross tabulation of a field with queries (Q04)."""
from contracts.k_refine import *
from contracts.b_sets import _S, _G, _x, _y, _d, _n, _a
from dv.libs import vlt

ITEM = T.TTup(T.TVal, T.TInt, T.Bits)
COUNTS = T.TSeq(T.TInt)


def counted(c):
    """the count stored with a feature is the number of its documents"""
    t, k = c.table("inverted_index"), T.fresh("k", I_)
    return ForAll([k], Implies(t.has(k), t.col(k, "docs_count") == card(t.col(k, "doc_ids").t)), patterns=[t.has(k)])


def of_field(c, k, least):
    t = c.table("inverted_index")
    return And(t.has(k), t.col(k, "field") == c.field, t.col(k, "docs_count") >= least)


def sorted_values(at, n, trig):
    i, j = T.fresh("i", I_), T.fresh("j", I_)
    return ForAll([i, j], Implies(And(0 <= i, i < j, j < n), vlt(at(i), at(j))), patterns=[MultiPattern(trig(i), trig(j))])


def _ifd_ensures(c):
    t, r = c.table("inverted_index"), c.result
    i, k, j = T.fresh("i", I_), T.fresh("k", I_), T.fresh("j", I_)
    row = lambda k, i: And(r[i][0] == t.col(k, "value"), r[i][1] == t.col(k, "docs_count"), r[i][2].t == t.col(k, "doc_ids").t)
    return [("only values of the field", ForAll([i], Implies(And(0 <= i, i < r.len), Exists([k], And(of_field(c, k, c.min_docs), row(k, i)))), patterns=[r.arr[i]])),
            ("every value of the field", ForAll([k], Implies(of_field(c, k, c.min_docs), Exists([j], And(0 <= j, j < r.len, row(k, j)))), patterns=[t.has(k)])),
            ("in sorted order", sorted_values(lambda i: r[i][0], r.len, lambda i: r.arr[i]))]


def _ifd_hints(c):
    t, r, k = c.table("inverted_index"), c.result, T.fresh("k", I_)
    src, dst, keys = c._st.tag["lastselect"]
    w = dst(k)
    return [ForAll([k], Implies(of_field(c, k, c.min_docs), keys[k]), patterns=[t.has(k)]),
            ForAll([k], Implies(of_field(c, k, c.min_docs), And(0 <= w, w < r.len, r[w][0] == t.col(k, "value"), r[w][1] == t.col(k, "docs_count"), r[w][2].t == t.col(k, "doc_ids").t)), patterns=[t.has(k)])]


def passed_on(c):
    """a loop that yields its items"""
    y, s, j = c.yielded, c.items, T.fresh("j", I_)
    return [y.len == c.g.i, ForAll([j], Implies(And(0 <= j, j < c.g.i), y.arr[j] == s.arr[j]), patterns=[y.arr[j]])]


REG.add(DBContract("index.Index.iter_field_docs", {"self": IDX, "field": VAL, "min_docs": INT}, db=["inverted_index"], returns=LIST(ITEM), ensures=_ifd_ensures,
                   types={"yield": T.TSeq(ITEM)}, hints=_ifd_hints, loops={0: Loop(passed_on)}), "Q04")


QUERIES, TABLE = T.TMap(T.TVal, T.Bits), T.TMap(T.TVal, COUNTS)


def _iq_outer(c):
    q, r, it, i = c.queries, c.intersections, c.items, c.g.i
    j, x = T.fresh("j", I_), T.fresh("x", T.Val)
    inn = And(0 <= j, j < i)
    return [c.values.len == i, c.totals.len == i, ForAll([j], Implies(inn, c.values[j] == it[j][0]), patterns=[c.values[j], it.arr[j]]),
            ForAll([j], Implies(inn, c.totals[j] == it[j][1]), patterns=[c.totals[j]]),
            ForAll([x], Implies(r.has(x), q.has(x)), patterns=[r.has(x)]),
            ForAll([x], Implies(r.has(x), r[x].len == i), patterns=[r[x].t]),
            ForAll([x], Implies(And(q.has(x), i > 0), r.has(x)), patterns=[q.has(x)]),
            ForAll([x, j], Implies(And(inn, r.has(x)), r[x][j] == card(th.inter(q[x].t, it[j][2].t))), patterns=[r[x][j]])]


def _iq_inner(c):
    q, r, p = c.queries, c.intersections, c.pre.intersections
    j, x = T.fresh("j", I_), T.fresh("x", T.Val)
    had = lambda x: If(p.has(x), p[x].len, 0)
    return [ForAll([x], r.has(x) == Or(p.has(x), c.g.done[x]), patterns=[r.has(x)]),
            ForAll([x], Implies(Not(c.g.done[x]), r[x].t == p[x].t), patterns=[r[x].t]),
            ForAll([x], Implies(c.g.done[x], r[x].len == had(x) + 1), patterns=[r[x].t]),
            ForAll([x, j], Implies(And(c.g.done[x], 0 <= j, j < had(x)), r[x][j] == p[x][j]), patterns=[r[x][j]]),
            ForAll([x], Implies(c.g.done[x], r[x][had(x)] == card(th.inter(q[x].t, c.doc_ids.t))), patterns=[r[x].t])]


def _iq_ensures(c):
    t, q = c.table("inverted_index"), c.queries
    v, n, r = c.result
    k, i, j, x = T.fresh("k", I_), T.fresh("i", I_), T.fresh("j", I_), T.fresh("x", T.Val)
    at = lambda k, i: And(of_field(c, k, 1), v[i] == t.col(k, "value"))
    inn = And(0 <= i, i < v.len)
    return [("as many totals as values", n.len == v.len), ("in sorted order", sorted_values(lambda i: v[i], v.len, lambda i: v[i])),
            ("only values that occur in the field", ForAll([i], Implies(inn, Exists([k], at(k, i))), patterns=[v[i]])),
            ("every value that occurs in the field", ForAll([k], Implies(of_field(c, k, 1), Exists([j], And(0 <= j, j < v.len, v[j] == t.col(k, "value")))), patterns=[t.has(k)])),
            ("the number of documents of each value", ForAll([k, i], Implies(And(inn, at(k, i)), n[i] == card(t.col(k, "doc_ids").t)), patterns=[MultiPattern(v[i], t.has(k))])),
            ("a row for every query", ForAll([x], Implies(v.len > 0, r.has(x) == q.has(x)), patterns=[r.has(x)])),
            ("no other row", ForAll([x], Implies(r.has(x), q.has(x)), patterns=[r.has(x)])),
            ("one count per value", ForAll([x], Implies(r.has(x), r[x].len == v.len), patterns=[r[x].t])),
            ("the number of documents of the query with the value", ForAll([x, k, i], Implies(And(inn, r.has(x), at(k, i)), r[x][i] == card(th.inter(q[x].t, t.col(k, "doc_ids").t))),
                                                                          patterns=[MultiPattern(r[x][i], t.has(k))]))]


REG.add(DBContract("index.Index.intersect_queries_with_field", {"self": IDX, "queries": P(QUERIES, "dict"), "field": VAL}, db=["inverted_index"],
                   requires=lambda c: [("counts are the sizes of the document sets", counted(c))], ensures=_iq_ensures,
                   types={"values": T.TSeq(T.TVal), "totals": COUNTS, "intersections": TABLE}, loops={0: Loop(_iq_outer), 1: Loop(_iq_inner)}), "Q04")
