"""The database as the contracts see it, and the lookup functions (C01, C03)."""
import z3
from z3 import And, Or, Not, Implies, ForAll, Exists, If, Int, IntVal, BoolVal

from dv import theory as T
from dv.contract import *
from dv.engine import Loop
from dv.sql import SQL, TABLES, FKS, MODEL_TABLES, POSITION_TABLES
from dv.values import Obj, newid, Tup, Sc, NONE

th = T.Bits.th
card = th.card
I_ = z3.IntSort()
k_, f_, c_, d_ = z3.Ints("k f c d")
x_, y_ = z3.Const("x", T.Val), z3.Const("y", T.Val)

IDX = P(None, make=lambda ex, st, name: Obj("index.Index", newid()), label="an index")


def unique_facts(name, m):
    """unique columns, as SQLite enforces them"""
    t = TABLES[name]
    out = []
    for n, cols in enumerate(t.unique):
        # two rows with equal values are one row: the values determine the key
        a = T.fresh("ua", t.kty.sort)
        vals = [t.rty.col(t.ty.at(m, a), c) for c in cols]
        inv = z3.Function(f"row_of_{name}_{n}_{T.fresh('u', I_)}", *[v.sort() for v in vals], t.kty.sort)
        out.append(ForAll([a], Implies(t.ty.has(m, a), inv(*vals) == a), patterns=[t.ty.has(m, a)]))
    return out


def uses_tables(*names):
    def setup(ex, st):
        db = {}
        for n in names:
            t = TABLES[n]
            term = T.fresh(n, t.ty.sort)
            db[n] = st.alloc(t.ty, term, "dict")
            st.assume(*T.type_inv(term, t.ty))
            st.assume(*unique_facts(n, term))
        st.tag = dict(st.tag, db=db)
    return setup


class DBContract(Contract):
    """A contract of a function that reads or writes the database."""

    def __init__(self, qual, params, db=MODEL_TABLES, exts=(), **kw):
        Contract.__init__(self, qual, params, exts=(SQL,) + tuple(exts), setup=uses_tables(*db), **kw)
        self.db = tuple(db)


II = TABLES["inverted_index"]


def docs_of(c, k):
    """the documents of feature id k (none when there is no such feature)"""
    t = c.table("inverted_index")
    return If(t.has(k), t.col(k, "doc_ids").t, th.empty)


def is_key(c, k, field, value):
    t = c.table("inverted_index")
    return And(t.has(k), t.col(k, "field") == field, t.col(k, "value") == value)


def _getitem_ensures(c):
    key = c.raw_var("key")
    r = c.result.t
    if isinstance(key, Tup):
        a, b = c._ex.to_term(c._st, key.items[0], T.TVal), c._ex.to_term(c._st, key.items[1], T.TVal)
        t = c.table("inverted_index")
        k = T.fresh("k", I_)
        w = T.fresh("feature", I_)
        return [("a stored pair gives exactly its documents", ForAll([k], Implies(is_key(c, k, a, b), r == t.col(k, "doc_ids").t), patterns=[t.has(k)])),
                ("an unknown pair gives no documents", Implies(ForAll([k], Not(is_key(c, k, a, b)), patterns=[t.has(k)]), r == th.empty))]
    return [("exactly the documents of the feature", r == docs_of(c, c._ex.coerce(key, T.TInt)))]


PAIR = P(None, make=lambda ex, st, name: Tup([VAL.make(ex, st, name + "_field"), VAL.make(ex, st, name + "_value")]), label="(field, value)")
GET = DBContract("index.Index.__getitem__", {"self": IDX, "key": INT}, db=["inverted_index"], returns=BITMAP, ensures=_getitem_ensures,
                 cases=[{"key": P(T.TInt, label="feature id")}, {"key": PAIR}])
REG.add(GET, "C01", "Q01", "M07")


def _lookup_feature(c):
    t, k = c.table("inverted_index"), c.feature_id
    return [("the stored field and value", And(t.has(k), c.result[0] == t.col(k, "field"), c.result[1] == t.col(k, "value")))]


REG.add(DBContract("index.Index.lookup_feature", {"self": IDX, "feature_id": INT}, db=["inverted_index"],
                   returns=PAIR, ensures=_lookup_feature, raises=[("KeyError", lambda c: Not(c.table("inverted_index").has(c.feature_id)))]), "C01")


def _lookup_id(c):
    k = T.fresh("k", I_)
    a, b = [x.t for x in c.raw_var("key").items]
    return [("the id of the stored pair", And(is_key(c, c.result, a, b), ForAll([k], Implies(is_key(c, k, a, b), k == c.result), patterns=[c.table("inverted_index").has(k)])))]


def _no_such_pair(c):
    k = T.fresh("k", I_)
    a, b = [x.t for x in c.raw_var("key").items]
    return ForAll([k], Not(is_key(c, k, a, b)), patterns=[c.table("inverted_index").has(k)])


REG.add(DBContract("index.Index.lookup_feature_id", {"self": IDX, "key": PAIR}, db=["inverted_index"],
                   returns=INT, ensures=_lookup_id, raises=[("KeyError", _no_such_pair)]), "C01", "C02")

# ------------------------------------------------------------------ documents and their keys
DK = TABLES["doc_key"]


def _convert_ensures(c):
    t, r, q = c.table("doc_key"), c.result, c.query.t
    d, x = T.fresh("d", I_), T.fresh("x", T.Val)
    return [("every document of the query is there under its own key",
             ForAll([d], Implies(q[d], And(r.has(t.col(d, "doc_key")), r[t.col(d, "doc_key")] == d)), patterns=[q[d]])),
            ("nothing else is there", ForAll([x], Implies(r.has(x), And(q[r[x]], t.has(r[x]), t.col(r[x], "doc_key") == x)), patterns=[r.has(x)])),
            ("as many keys as documents", T.set_theory(T.TVal).card(r.dom) == card(q))]


def _convert_inv(c):
    t, r, done = c.table("doc_key"), c.key_docs, c.g.done
    d, x = T.fresh("d", I_), T.fresh("x", T.Val)
    if r is EMPTY:
        return [done == th.empty]
    return [ForAll([d], Implies(done[d], And(r.has(t.col(d, "doc_key")), r[t.col(d, "doc_key")] == d)), patterns=[done[d]]),
            ForAll([x], Implies(r.has(x), And(done[r[x]], t.has(r[x]), t.col(r[x], "doc_key") == x)), patterns=[r.has(x)]),
            T.set_theory(T.TVal).card(r.dom) == card(done)]


def _stored(c):
    d = T.fresh("d", I_)
    return [("the documents exist", ForAll([d], Implies(c.query.t[d], c.table("doc_key").has(d)), patterns=[c.query.t[d]]))]


KD = T.TMap(T.TVal, T.TInt)
REG.add(DBContract("index.Index.convert_query_to_keys", {"self": IDX, "query": BITMAP}, db=["doc_key"], requires=_stored,
                   returns=P(KD, "dict"), ensures=_convert_ensures, types={"key_docs": KD}, loops={0: Loop(_convert_inv)}), "C03")
