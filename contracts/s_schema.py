"""Opening a database and migrating it (S01)."""
import ast

from contracts.r_server import *
from contracts.b_sets import _S, _G, _x, _y, _d, _n, _a
from dv.migrate import Opening
from dv.unit import repo
from dv.values import *

# What the versions of the schema had (its history).
SINCE = {("cluster", "docs_count"): 5, ("cluster", "weight"): 5, ("cluster", "doc_ids"): 5, ("cluster", "pinned"): 8, ("feature_cluster", "pinned"): 8,
         ("field_summary", "position_count"): 10}
ALWAYS = ["doc_key", "inverted_index", "field_summary", "cluster", "feature_cluster"]
LATER = ["settings", "position_doc_map", "position_index", "changed_cluster"]      # tables that came with some later version
OLD_TRIGGERS = {"mark_cluster_changed", "ensure_cluster", "delete_feature_cluster", "ensure_cluster_update", "update_cluster_feature_counts"}
TRIGGERS = {"insert_feature_checks", "update_feature_checks", "delete_feature_checks"}
OLD, VERSION, APPLICATION = (4, 5, 6, 7, 8, 9), 10, 715973853
ALL = ALWAYS + LATER


def start(kind):
    """the file before it is opened: kind is a version, "empty", "other" or "unknown" """
    def setup(ex, st):
        old = kind in OLD
        names = ALL if old or kind == VERSION else []
        uses_tables(*names)(ex, st)
        cols = {n: frozenset(c for c in TABLES[n].decl if not (old and SINCE.get((n, c), 0) > kind)) for n in names}
        maybe = frozenset(LATER if old else ()) - (frozenset(["changed_cluster"]) if kind == 4 else frozenset())
        if kind == 4:
            d = dict(st.tag["db"])
            d.pop("changed_cluster")
            st.tag = dict(st.tag, db=d)
        had = {n: T.fresh("had_" + n, z3.BoolSort()) for n in maybe}
        v = T.fresh("version", I_)
        if kind == "unknown":
            st.assume(*[v != k for k in (0, VERSION) + OLD])
        else:
            st.assume(v == (kind if isinstance(kind, int) else 0))
        n = T.fresh("objects", I_)
        st.assume(n >= 0, n == 0 if kind == "empty" else n > 0)
        version = v if kind == "unknown" else IntVal(kind if isinstance(kind, int) else 0)
        meta = dict(version=version, appid=T.fresh("appid", I_), columns=cols, maybe=maybe, had=had, triggers=frozenset(OLD_TRIGGERS if old else TRIGGERS if kind == VERSION else ()),
                    open=False, writes=0)
        st.tag = dict(st.tag, meta=meta, objects=n)
        st.tag = dict(st.tag, stored=({n: st.term(r) for n, r in st.tag["db"].items()}, meta))
    return setup


def meta(c):
    return c._st.tag["meta"]


def untouched_file(c):
    """what is stored is what was stored"""
    (d0, m0), (d, m) = c.old._st.tag["stored"], c._st.tag["stored"]
    same = set(d0) == set(d) and all(z3.eq(d0[n], d[n]) for n in d0) and m is m0
    return [("the stored tables are as they were", BoolVal(same))]


def kept_tables(c, kind):
    out = []
    a0, m0 = c.old._st.tag["db"], c.old._st.tag["meta"]
    for n in ("doc_key", "inverted_index"):
        out.append((f"{n} is as it was", c.table(n).t == c.old.table(n).t))
    for n in ("position_doc_map", "position_index"):
        t = TABLES[n]
        out.append((f"{n} is as it was", Implies(m0["had"][n], c.table(n).t == c.old.table(n).t)))
        out.append((f"{n} is empty when it is new", Implies(Not(m0["had"][n]), c.table(n).dom == T.set_theory(t.kty).empty)))
    for n in ("cluster", "feature_cluster"):
        t, k = TABLES[n], T.fresh("k", I_)
        a, b = c.old.table(n), c.table(n)
        out.append((f"{n}: the same rows", ForAll([k], b.has(k) == a.has(k), patterns=[b.has(k)])))
        for col, _ in t.cols:
            x, y = b.col(k, col), a.col(k, col)
            x, y = (x.t, y.t) if isinstance(x, W) else (x, y)
            if col in m0["columns"][n]:
                out.append((f"{n}.{col} is as it was", ForAll([k], Implies(b.has(k), x == y), patterns=[b.has(k)])))
            elif col == "pinned":
                out.append((f"nothing in {n} is pinned", ForAll([k], Implies(b.has(k), Not(x)), patterns=[b.has(k)])))
    return out


def marks(c, kind):
    ch, cl, k = c.table("changed_cluster"), c.table("cluster"), T.fresh("k", I_)
    if kind == 4:
        return [("every cluster is marked", ForAll([k], ch.has(k) == cl.has(k), patterns=[ch.has(k)])), ("every cluster is marked", ForAll([k], ch.has(k) == cl.has(k), patterns=[cl.has(k)]))]
    had = c.old._st.tag["meta"]["had"]["changed_cluster"]
    return [("the marks stay", Implies(had, ch.t == c.old.table("changed_cluster").t)), ("no mark is new", Implies(Not(had), ForAll([k], Not(ch.has(k)), patterns=[ch.has(k)])))]


def current(c):
    """the schema is the current one, and it is stored"""
    m, st = meta(c), c._st
    d, sm = st.tag["stored"]
    out = [("the version is the current one", m["version"] == VERSION), ("it is marked as an index", m["appid"] == APPLICATION),
           ("no transaction is open", BoolVal(not m["open"])), ("the old triggers are gone, the new ones are there", BoolVal(m["triggers"] == TRIGGERS)),
           ("everything is stored", BoolVal(sm["writes"] == m["writes"] and set(d) == set(st.tag["db"]) and all(z3.eq(d[n], st.term(r)) for n, r in st.tag["db"].items())))]
    for n in ALL:
        out.append((f"the table {n} is there", BoolVal(n in st.tag["db"] and n not in m["maybe"])))
        out.append((f"{n} has all its columns", BoolVal(m["columns"].get(n) == frozenset(TABLES[n].decl))))
    return out


def returned(v):
    return lambda c: [("the result says whether there was a migration", (c._ex.coerce(c.rv, T.TBool) if isinstance(c.rv, Sc) else BoolVal(False)) == BoolVal(v))]


def post(kind):
    def f(c):
        if kind == "empty":
            out = returned(False)(c) + current(c)
            return out + [(f"{n} is empty", c.table(n).dom == T.set_theory(TABLES[n].kty).empty) for n in ALL if n != "settings" and n in c._st.tag["db"]]
        if kind == VERSION:
            return returned(False)(c) + untouched_file(c)
        if kind in OLD:
            return returned(True)(c) + current(c) + kept_tables(c, kind) + marks(c, kind)
        return [("the database is refused", BoolVal(False))]
    return f


def stopped(kind):
    def f(c):
        out = untouched_file(c)
        if c.exc.cls == "MigrationError":
            out = out + [("only a database that is not an index of a known version is refused", BoolVal(kind in ("other", "unknown")))]
        elif c.exc.cls != "any":
            out = out + [(f"the error is the migration error, not {c.exc.cls} ({c.exc.info})", BoolVal(False))]
        return out
    return f


for _kind in OLD + ("empty", VERSION, "other", "unknown"):
    _con = Contract(f"_index_schema.migrate:{_kind}", {"db": P(None, make=lambda ex, st, n: Obj("sqlite", newid()))}, node=lambda rp: rp.funcs["_index_schema.migrate"], exts=(Opening,),
                    ensures=post(_kind), writes=ALL, raises=[("any", None)], on_raise=stopped(_kind), never_returns=_kind in ("other", "unknown"))
    _con.setup = start(_kind)
    REG.add(_con, "S01")


# ------------------------------------------------------------------ opening
def old_inv(kind):
    """an index as its version left it between operations: references hold, summaries (if the version has them) are exact"""
    def f(c):
        if kind not in OLD:
            return []
        fc, ii, cl = fcl(c), c.table("inverted_index"), c.table("cluster")
        f, k = T.fresh("f", I_), T.fresh("k", I_)
        out = [ForAll([f], Implies(fc.has(f), And(ii.has(f), fc.col(f, "docs_count") == ii.col(f, "docs_count"), cl.has(fc.col(f, "cluster_id")))), patterns=[fc.has(f)])]
        if kind == 4:
            return out
        ch, had = c.table("changed_cluster"), c._st.tag["meta"]["had"]["changed_cluster"]
        return out + [Implies(had, ForAll([k], Implies(ch.has(k), cl.has(k)), patterns=[ch.has(k)])),
                      ForAll([k], Implies(And(cl.has(k), Not(And(had, ch.has(k)))), all_exact(ii.t, fc.t, cl.t, k)), patterns=[cl.has(k)])]
    return f


def opening(kind):
    def setup(ex, st):
        start(kind)(ex, st)
        if kind not in OLD:
            return
        first = {n: st.term(r) for n, r in st.tag["db"].items()}

        def steps(s):
            if s.tag.get("stepped"):
                return []
            s.tag = dict(s.tag, stepped=True)
            c = Spec(ex, s, s.fid)
            k, cl, ch = T.fresh("k", I_), c.table("cluster"), c.table("changed_cluster")
            live = And(cl.has(k), Not(ch.has(k)))
            return [("clusters keep their features", ForAll([k], Implies(cl.has(k), asg(c, k) == assigned(first["feature_cluster"], k)), patterns=[cl.has(k)])),
                    ("summaries", tracked_open(c)), ("unmarked clusters have exact summaries", T.unfold(tracked_term(c)))]
        st.tag = dict(st.tag, on_commit=steps)
    return setup


def opened(kind):
    def f(c):
        o = c.raw_var("self").oid
        out = [("no operation is open", And(c.attr(o, "_transaction_level") == 0, Not(c.attr(o, "_changed")))),
               ("no transaction is open", BoolVal(not meta(c)["open"]))]
        if kind == VERSION:
            return out + untouched_file(c)
        out += current(c)
        if kind == "empty":
            return out + [(f"{n} is empty", c.table(n).dom == T.set_theory(TABLES[n].kty).empty) for n in ALL if n != "settings" and n in c._st.tag["db"]]
        if kind not in OLD:
            return [("the database is refused", BoolVal(False))]
        out += [(l, g) for l, g in kept_tables(c, kind) if not l.startswith(("cluster", "nothing in cluster"))]
        cl, cl0, ch, k = c.table("cluster"), c.old.table("cluster"), c.table("changed_cluster"), T.fresh("k", I_)
        out += [("clusters with features are listed, no others", ForAll([k], cl.has(k) == And(cl0.has(k), asg(c.old, k) != th.empty), patterns=[cl.has(k)])),
                ("every summary is there", ForAll([k], Not(ch.has(k)), patterns=[ch.has(k)]))]
        if kind >= 8:
            out.append(("pins stay", ForAll([k], Implies(cl.has(k), cl.col(k, "pinned") == cl0.col(k, "pinned")), patterns=[cl.has(k)])))
        return out + tracked(c) + links(c)
    return f


def interrupted(kind):
    """a failure leaves the file as it was, or migrated as a whole"""
    def f(c):
        m = c._st.tag["stored"][1]
        if c.exc.cls == "any" and (kind in OLD and c._st.tag.get("stepped") or kind == "empty" and m["writes"] > 0):
            return [("all of the migration is stored", m["version"] == VERSION)]
        return stopped(kind)(c)
    return f


ANY = P(None, make=lambda ex, st, n: Sc(T.TVal, T.fresh(n, T.Val)))
for _kind in OLD + ("empty", VERSION, "other", "unknown"):
    _con = Contract(f"index.Index.__init__:{_kind}", {"self": IDX, "db_path": ANY, "corpus": P(None, make=lambda ex, st, n: Obj("any corpus", newid())), "pool": NONEP, "random_seed": ANY},
                    node=lambda rp: rp.funcs["index.Index.__init__"], exts=(Opening, Par), requires=old_inv(_kind), ensures=opened(_kind), writes=ALL, raises=[("any", None)],
                    on_raise=interrupted(_kind), never_returns=_kind in ("other", "unknown"))
    _con.setup = opening(_kind)
    REG.add(_con, "S01")
