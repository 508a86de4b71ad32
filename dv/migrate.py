"""The database while it is opened: schema version, tables and their columns, triggers, and what is committed.

The statements of the schema script and of the migrations are taken from the source.  A table of an older version has
the columns it had then; reading or writing one that is not there fails as in SQLite.  Any statement may also fail."""
import ast
import re

import z3

from . import theory as T
from .values import *
from .engine import ConcreteIter
from .libs import Ext, EXC_PARENT
from .sql import SQL, TABLES, Parser, tokens

READ = ("select",)
OPENING = ("synchronous", "foreign_keys", "journal_mode")


class Literal:
    def __init__(self, v):
        self.v = v


def to_value(v):
    if isinstance(v, bool) or v is None:
        return NONE if v is None else B(v)
    if isinstance(v, int):
        return I(v)
    if isinstance(v, str):
        return S(v)
    if isinstance(v, tuple):
        return Tup([to_value(x) for x in v])
    if isinstance(v, list):
        return Lst([to_value(x) for x in v])
    raise Unsupported("constant")


class Opening(SQL):
    """st.tag: db (the tables that are there), meta (see start), objects (how many tables etc. an unversioned database has)"""

    def __init__(self, repo):
        SQL.__init__(self, repo)
        self.literals = {}

    # ------------------------------------------------------------- constants of the schema module
    def global_name(self, ex, st, mod, name):
        node = self.repo.funcs.get(f"{mod}.{name}=")
        if isinstance(node, ast.Dict):
            o = Obj("literal dict", newid())
            try:
                self.literals[o.oid] = ast.literal_eval(node)
            except ValueError:
                raise Unsupported(f"the constant {name}")
            return o
        return SQL.global_name(self, ex, st, mod, name)

    def literal(self, v):
        return self.literals[v.oid] if isinstance(v, Obj) and v.cls == "literal dict" else None

    def contains(self, ex, st, a, b):
        d = self.literal(b)
        if d is not None and isinstance(a, Sc) and a.ty == T.TInt:
            return z3.Or(*[a.t == k for k in d]) if d else z3.BoolVal(False)
        return SQL.contains(self, ex, st, a, b)

    def getitem(self, ex, st, v, k):
        d = self.literal(v)
        if d is not None and isinstance(k, Sc) and k.ty == T.TInt:
            n = z3.simplify(k.t)
            if not z3.is_int_value(n):
                raise Unsupported("a constant looked up by an unknown key")
            if n.as_long() not in d:
                ex.raise_(st, "KeyError", str(n))
                return []
            return [(st, to_value(d[n.as_long()]))]
        return SQL.getitem(self, ex, st, v, k)

    def obj_iter(self, ex, st, v):
        d = self.literal(v)
        if d is not None:
            return ConcreteIter([to_value(k) for k in d])
        return SQL.obj_iter(self, ex, st, v)

    def attribute(self, ex, st, v, name):
        d = self.literal(v)
        if d is not None and name in ("items", "keys", "values"):
            return [(st, Bi("literal." + name, v))]
        return SQL.attribute(self, ex, st, v, name)

    # ------------------------------------------------------------- calls
    def call(self, ex, st, f, args, kw, node):
        if f.name.startswith("literal."):
            d = self.literal(f.recv)
            return [(st, ItV(ConcreteIter([Tup([to_value(k), to_value(x)]) if f.name == "literal.items" else to_value(k if f.name == "literal.keys" else x) for k, x in d.items()])))]
        if f.name == "sorted" and len(args) == 1 and not kw:
            v = args[0]
            if isinstance(v, ItV):
                items = v.it.concrete(ex, st)
            elif self.literal(v) is not None:
                items = [to_value(k) for k in self.literal(v)]
            else:
                items = v.items if isinstance(v, (Lst, Tup)) else None
            if items is not None:
                keys = []
                for x in items:
                    k = x.items[0] if isinstance(x, Tup) else x
                    if not isinstance(k, Sc) or k.ty != T.TInt or not z3.is_int_value(k.t):
                        return None
                    keys.append(k.t.as_long())
                if len(set(keys)) == len(keys):
                    return [(st, Lst([x for _, x in sorted(zip(keys, items), key=lambda p: p[0])]))]
        if f.name == "sqlite3.connect":
            none = kw.get("isolation_level")
            if none is not NONE:
                raise Unsupported("a connection that manages transactions")
            return [(st, Obj("sqlite", newid()))]
        if f.name == "sql.create_aggregate":
            return [(st, NONE)]
        if f.name in ("random.Random", "logging.LoggerAdapter"):
            return [(st, Obj(f.name, newid()))]
        if f.name == "sql.execute" and isinstance(args[0], Sc) and args[0].s is not None:
            text = args[0].s
            words = " ".join(x[1] for x in tokens(text)).rstrip(" ;")
            if not words:
                return [(st, ItV(ConcreteIter([])))]
            ex.exc.append((st.copy(), Exc("any", "the statement fails")))
            r = self.statement(ex, st, text, words, args, kw)
            if r is not None:
                return r
            raise Unsupported(f"SQL statement {words[:60]!r}")
        return SQL.call(self, ex, st, f, args, kw, node)

    def meta(self, st, **kw):
        """a change of the file"""
        m = dict(st.tag["meta"], **kw)
        m["writes"] = st.tag["meta"]["writes"] + 1
        st.tag = dict(st.tag, meta=m)
        if not m["open"]:
            self.commit(st)
        return [(st, ItV(ConcreteIter([])))]

    def commit(self, st):
        m = st.tag["meta"]
        for lab, f in (st.tag["on_commit"](st) if st.tag.get("on_commit") else []):
            self.ex.oblige(st, f, f"step {lab}")
        st.tag = dict(st.tag, stored=(dict({n: st.term(r) for n, r in st.tag["db"].items()}), m))

    def no_table(self, ex, st, n):
        ex.raise_(st, "sqlite3.OperationalError", f"no such table {n}")
        return []

    def certain(self, st, n):
        if n in st.tag["meta"]["maybe"]:
            raise Unsupported(f"a statement on {n}, which an older version may not have")

    def statement(self, ex, st, text, w, args, kw):
        m = st.tag["meta"]
        low = w.lower()
        g = re.match(r"pragma (\w+)$", low)
        if g:
            v = {"user_version": m["version"], "application_id": m["appid"]}.get(g.group(1))
            if v is None:
                raise Unsupported(f"pragma {g.group(1)}")
            return [(st, ItV(ConcreteIter([Tup([I(v)])])))]
        g = re.match(r"pragma (\w+) = (\w+)$", low)
        if g and g.group(1) in ("user_version", "application_id") and g.group(2).isdigit():
            key = "version" if g.group(1) == "user_version" else "appid"
            return self.meta(st, **{key: z3.IntVal(int(g.group(2)))})
        if g and g.group(1) in OPENING:
            return [(st, ItV(ConcreteIter([])))]
        if low == "select count ( * ) from sqlite_master":
            return [(st, ItV(ConcreteIter([Tup([I(st.tag["objects"])])])))]
        if low in ("begin", "begin transaction", "begin immediate"):
            if m["open"]:
                ex.raise_(st, "sqlite3.OperationalError", "a transaction within a transaction")
                return []
            st.tag = dict(st.tag, meta=dict(m, open=True))
            return [(st, ItV(ConcreteIter([])))]
        if low in ("commit", "end", "commit transaction"):
            if not m["open"]:
                ex.raise_(st, "sqlite3.OperationalError", "no transaction is active")
                return []
            st.tag = dict(st.tag, meta=dict(m, open=False))
            self.commit(st)
            return [(st, ItV(ConcreteIter([])))]
        g = re.match(r"create table (if not exists )?(\w+) \( (.*) \)$", w, re.I)
        if g:
            return self.create(ex, st, g.group(2), bool(g.group(1)), g.group(3))
        g = re.match(r"drop table (if exists )?(\w+)$", low)
        if g:
            n = g.group(2)
            if n in TABLES:
                if n in st.tag["db"]:
                    self.certain(st, n)
                    d = dict(st.tag["db"])
                    d.pop(n)
                    st.tag = dict(st.tag, db=d)
                elif not g.group(1):
                    return self.no_table(ex, st, n)
            elif not g.group(1):
                raise Unsupported(f"drop table {n}")
            return self.meta(st)
        g = re.match(r"create (unique )?index (if not exists )?(\w+) on (\w+) \( (.*) \)$", low)
        if g:
            if g.group(1) or not g.group(2):
                raise Unsupported("this index")
            return self.meta(st) if g.group(4) in st.tag["db"] else self.no_table(ex, st, g.group(4))
        g = re.match(r"drop trigger (if exists )?(\w+)$", low)
        if g:
            if not g.group(1) and g.group(2) not in m["triggers"]:
                raise Unsupported("a trigger that may not be there")
            return self.meta(st, triggers=m["triggers"] - {g.group(2)})
        g = re.match(r"create trigger if not exists (\w+) before (insert|update|delete) on (\w+) (.*) end$", low)
        if g:
            if g.group(1) in m["triggers"]:      # the older one of this name would stay
                raise Unsupported("a trigger of this name may be there")
            return self.meta(st, triggers=m["triggers"] | {g.group(1)})
        g = re.match(r"alter table (\w+) add (?:column )?(\w+)( .*)?$", w, re.I)
        if g:
            return self.add_column(ex, st, g.group(1), g.group(2), (g.group(3) or "").split())
        g = re.match(r"insert into field_summary select (.*)$", low)
        if g:
            # recomputed from the index: arbitrary here
            if "field_summary" not in st.tag["db"]:
                return self.no_table(ex, st, "field_summary")
            r = st.tag["db"]["field_summary"]
            t = T.fresh("field_summary", st.ty(r).sort)
            st.assume(*T.type_inv(t, st.ty(r)))
            st.set_term(r, t)
            ex.assumptions.add("the field summary a migration recomputes is not specified")
            return self.meta(st)
        stmt = Parser(text).finish()
        names = {"insert": lambda: [stmt[2]], "delete": lambda: [stmt[1]], "update": lambda: [stmt[1]], "select": lambda: [x[0][0] for x in stmt[1]["from"]],
                 "insert-select": lambda: [stmt[2]] + [x[0][0] for x in stmt[4]["from"]]}.get(stmt[0])
        if names is None:
            raise Unsupported(f"SQL statement {w[:60]!r}")
        for n in names():
            if isinstance(n, str):
                if n not in st.tag["db"]:
                    return self.no_table(ex, st, n)
                self.certain(st, n)
                cols = m["columns"][n]
                if stmt[0] in ("insert", "insert-select", "update") and set(TABLES[n].decl) - cols and n != "cluster":
                    raise Unsupported(f"a change of {n} while it lacks columns")
        out = []
        if stmt[0] == "insert-select":
            res = self.copy_keys(ex, st, stmt)
        else:
            res = self.execute(ex, st, stmt, self.params(ex, st, args[1] if len(args) > 1 else None))
        for s, v in res:
            if stmt[0] == "select":
                out.append((s, v))
            else:
                out += self.meta(s)
        return out

    def copy_keys(self, ex, st, stmt):
        """insert [or ignore] into T select KEY from S, for integer keys"""
        _, mode, tn, cols, q = stmt
        t = TABLES[tn]
        src = q["from"][0][0][0] if len(q["from"]) == 1 else None
        if q.get("where") is None and mode in ("abort", "ignore") and isinstance(src, str) and src in st.tag["db"] and src in TABLES and not t.cols and t.kty == T.TInt and len(q["cols"]) == 1 \
                and TABLES[src].kty == T.TInt and q["cols"][0][0][0] == "col" and q["cols"][0][0][-1] == TABLES[src].pk[0][0]:
            ref, sref = st.tag["db"][tn], st.tag["db"][src]
            a, b = st.term(ref), st.term(sref)
            k = T.fresh("k", z3.IntSort())
            if mode == "abort":
                free = z3.ForAll([k], z3.Not(z3.And(t.ty.has(a, k), TABLES[src].ty.has(b, k))), patterns=[t.ty.has(a, k)])
                s = ex.guard(st, free, "sqlite3.IntegrityError", f"unique key of {tn}")
                if s is None:
                    return []
                st = s
            new = T.fresh(tn, t.ty.sort)
            st.assume(z3.ForAll([k], t.ty.has(new, k) == z3.Or(t.ty.has(a, k), TABLES[src].ty.has(b, k)), patterns=[t.ty.has(new, k)]))
            st.set_term(ref, new)
            return [(st, NONE)]
        return self.execute(ex, st, stmt, [])

    def create(self, ex, st, n, quiet, body):
        m = st.tag["meta"]
        if n not in TABLES:
            raise Unsupported(f"create table {n}")
        self.schema.check_table(n, body)
        db = st.tag["db"]
        if n in db and n not in m["maybe"]:
            if not quiet:
                ex.raise_(st, "sqlite3.OperationalError", f"the table {n} exists")
                return []
            return self.meta(st)
        ty = TABLES[n].ty
        t = T.fresh(n, ty.sort)
        empty = ty.dom(t) == T.set_theory(ty.k).empty
        if n in db:
            if not quiet:
                raise Unsupported(f"create table {n}, which may be there")
            had = m["had"][n]
            st.assume(z3.Implies(had, t == st.term(db[n])), z3.Implies(z3.Not(had), empty))
            st.assume(*T.type_inv(t, ty))
            st.set_term(db[n], t)
        else:
            st.assume(empty)
            st.assume(*T.type_inv(t, ty))
            st.tag = dict(st.tag, db=dict(db, **{n: st.alloc(ty, t, "dict")}))
        return self.meta(st, maybe=m["maybe"] - {n}, columns=dict(m["columns"], **{n: frozenset(TABLES[n].decl)}))

    def add_column(self, ex, st, n, c, rest):
        m = st.tag["meta"]
        if n not in TABLES or c not in TABLES[n].decl:
            raise Unsupported(f"the column {n}.{c}")
        if n not in st.tag["db"]:
            return self.no_table(ex, st, n)
        self.certain(st, n)
        if c in m["columns"][n]:
            ex.raise_(st, "sqlite3.OperationalError", f"duplicate column {c}")
            return []
        if "not" in rest or "primary" in rest or "unique" in rest or "references" in rest:
            raise Unsupported("a column with constraints")
        t = TABLES[n]
        ref = st.tag["db"][n]
        a, new, k = st.term(ref), T.fresh(n, t.ty.sort), T.fresh("k", t.kty.sort)
        i = [x for x, _ in t.cols].index(c)
        ty = t.cols[i][1]
        default = rest[rest.index("default") + 1] if "default" in rest else None
        facts = []
        for j in range(len(t.cols)):
            x, y = t.rty.get(t.ty.at(new, k), j), t.rty.get(t.ty.at(a, k), j)
            if j != i:
                facts.append(x == y)
            elif ty == T.TInt and default is not None and default.isdigit():
                facts.append(x == int(default))
            elif ty == T.TBool and default is not None and default.isdigit():
                facts.append(x == z3.BoolVal(int(default) != 0))
            elif isinstance(ty, T.TOpt) and default is None:
                facts.append(x == ty.none)
        st.assume(t.ty.dom(new) == t.ty.dom(a), z3.ForAll([k], z3.Implies(t.ty.has(a, k), z3.And(*facts)), patterns=[t.ty.has(new, k)]),
                  z3.ForAll([k], z3.Implies(t.ty.has(a, k), z3.And(*facts)), patterns=[t.ty.at(new, k)]))
        st.assume(*T.type_inv(new, t.ty))
        st.set_term(ref, new)
        return self.meta(st, columns=dict(m["columns"], **{n: m["columns"][n] | {c}}))


EXC_PARENT.setdefault("MigrationError", "ValueError")
