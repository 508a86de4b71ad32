"""A model of SQLite for the statements the repository uses.

The text of every statement is taken from the source of the function under verification and parsed here; the
schema (columns, keys, triggers, cascades) is read from hyperreal/_index_schema.py.  A table is a finite map from
its primary key to a row.  Statements outside the parsed subset raise Unsupported."""
import ast
import re

import z3

from . import theory as T
from . import comps
from .values import *
from .engine import Iter, SeqIter, SetIter, ConcreteIter, SKIP, walk_order
from .libs import Ext, vlt
from .theory import Bits

I_, V_, B_ = T.TInt, T.TVal, T.TBool


class Table:
    def __init__(self, name, pk, cols, unique=(), rowid=False):
        self.name, self.pk, self.cols, self.unique, self.rowid = name, pk, cols, unique, rowid
        self.kty = pk[0][1] if len(pk) == 1 else T.TTup(*[t for _, t in pk])
        self.rty = T.TRow(name, cols)
        self.ty = T.TMap(self.kty, self.rty)

    def order(self):
        return self.decl


TABLES = {}


def table(name, pk, cols, decl, **kw):
    t = Table(name, pk, cols, **kw)
    t.decl = decl.split()
    TABLES[name] = t
    return t


table("settings", [("key", V_)], [("value", V_)], "key value")
table("doc_key", [("doc_id", I_)], [("doc_key", V_)], "doc_id doc_key", unique=[("doc_key",)])
table("inverted_index", [("feature_id", I_)], [("field", V_), ("value", V_), ("docs_count", I_), ("doc_ids", Bits)],
      "feature_id field value docs_count doc_ids", unique=[("field", "value")])
table("position_doc_map", [("field", V_), ("first_doc_id", I_)],
      [("last_doc_id", I_), ("docs_count", I_), ("doc_ids", Bits), ("doc_boundaries", Bits)],
      "field first_doc_id last_doc_id docs_count doc_ids doc_boundaries")
table("position_index", [("feature_id", I_), ("first_doc_id", I_)], [("position_count", I_), ("positions", T.TOpt(Bits))],
      "feature_id first_doc_id position_count positions")
table("field_summary", [("field", V_)], [("distinct_values", I_), ("min_value", V_), ("max_value", V_), ("position_count", I_)],
      "field distinct_values min_value max_value position_count")
table("cluster", [("cluster_id", I_)],
      [("feature_count", I_), ("docs_count", I_), ("weight", I_), ("doc_ids", T.TOpt(Bits)), ("pinned", B_)],
      "cluster_id feature_count docs_count weight doc_ids pinned")
table("feature_cluster", [("feature_id", I_)], [("cluster_id", I_), ("docs_count", I_), ("pinned", B_)],
      "feature_id cluster_id docs_count pinned")
table("changed_cluster", [("cluster_id", I_)], [], "cluster_id")
table("include_field", [("rowid", I_)], [("field", V_)], "field", rowid=True)
UNLISTED = {"include_field"}       # tables that are not in the index schema
MODEL_TABLES = ["inverted_index", "cluster", "feature_cluster", "changed_cluster"]
POSITION_TABLES = ["position_doc_map", "position_index", "field_summary"]
FKS = {"feature_cluster": [("feature_id", "inverted_index"), ("cluster_id", "cluster")],
       "changed_cluster": [("cluster_id", "cluster")],
       "position_index": [("feature_id", "inverted_index")]}

# ------------------------------------------------------------------------------------------- parsing
_tok = re.compile(r"\s+|--[^\n]*|(?P<num>\d+(\.\d+)?)|(?P<str>'[^']*')|(?P<par>\?\d*)|(?P<id>[A-Za-z_][A-Za-z_0-9]*)|(?P<qid>\"[^\"]*\")|"
                  r"(?P<op><>|!=|==|<=|>=|\|\||[-+*/(),.;=<>])")


def tokens(s):
    out, i = [], 0
    while i < len(s):
        m = _tok.match(s, i)
        if not m:
            raise Unsupported(f"SQL text: {s[i:i+30]!r}")
        i = m.end()
        if m.lastgroup:
            g = m.lastgroup
            t = m.group(g)
            if g is not None:
                for name in ("num", "str", "par", "id", "qid", "op"):
                    if m.group(name) is not None:
                        t = m.group(name)
                        out.append((name, t.lower() if name == "id" else t))
                        break
    return out


class Parser:
    def __init__(self, text):
        self.t, self.i, self.npar = tokens(text), 0, 0
        self.text = text

    def peek(self, k=0):
        return self.t[self.i + k][1] if self.i + k < len(self.t) else None

    def kind(self):
        return self.t[self.i][0] if self.i < len(self.t) else None

    def eat(self, *words):
        for w in words:
            if self.peek() != w:
                raise Unsupported(f"SQL: expected {w} before {' '.join(x[1] for x in self.t[self.i:self.i+6])!r} in {self.text.strip()[:60]!r}")
            self.i += 1

    def opt(self, *words):
        if all(self.peek(k) == w for k, w in enumerate(words)):
            self.i += len(words)
            return True
        return False

    def name(self):
        k, v = self.t[self.i]
        if k not in ("id", "qid"):
            raise Unsupported(f"SQL: name expected at {v!r}")
        self.i += 1
        return v.strip('"')

    # expressions
    def expr(self):
        e = self.conj()
        while self.opt("or"):
            e = ("or", e, self.conj())
        return e

    def conj(self):
        e = self.neg()
        while self.opt("and"):
            e = ("and", e, self.neg())
        return e

    def neg(self):
        if self.opt("not"):
            return ("not", self.neg())
        return self.cmp()

    def cmp(self):
        e = self.add()
        while True:
            op = self.peek()
            if op in ("=", "==", "<", ">", "<=", ">=", "!=", "<>"):
                self.i += 1
                e = ("cmp", {"==": "=", "<>": "!="}.get(op, op), e, self.add())
            elif self.opt("is", "not", "null"):
                e = ("not", ("isnull", e))
            elif self.opt("is", "null"):
                e = ("isnull", e)
            elif self.peek() == "in" or (self.peek() == "not" and self.peek(1) == "in"):
                n = self.opt("not")
                self.eat("in", "(")
                if self.peek() == "select":
                    e2 = ("in", e, self.select())
                else:
                    e2 = ("inlist", e, self.exprs())
                self.eat(")")
                e = ("not", e2) if n else e2
            else:
                return e

    def add(self):
        e = self.mul()
        while self.peek() in ("+", "-"):
            op = self.peek()
            self.i += 1
            e = ("arith", op, e, self.mul())
        return e

    def mul(self):
        e = self.atom()
        while self.peek() == "*" and self.t[self.i + 1][0] in ("num", "id", "par"):
            self.i += 1
            e = ("arith", "*", e, self.atom())
        return e

    def exprs(self):
        es = [self.expr()]
        while self.opt(","):
            es.append(self.expr())
        return es

    def atom(self):
        k, v = self.t[self.i] if self.i < len(self.t) else (None, None)
        if k == "num":
            self.i += 1
            return ("num", v)
        if k == "str":
            self.i += 1
            return ("str", v[1:-1])
        if k == "par":
            self.i += 1
            if v == "?":
                self.npar += 1
                return ("par", self.npar - 1)
            self.npar = max(self.npar, int(v[1:]))
            return ("par", int(v[1:]) - 1)
        if v == "(":
            self.i += 1
            if self.peek() == "select":
                s = self.select()
                self.eat(")")
                return ("scalar", s)
            es = self.exprs()
            self.eat(")")
            return es[0] if len(es) == 1 else ("row", es)
        if v == "-":
            self.i += 1
            return ("arith", "-", ("num", "0"), self.atom())
        n = self.name()
        if n == "null":
            return ("null",)
        if n in ("true", "false"):
            return ("bool", n == "true")
        if self.opt("("):
            if self.opt("*"):
                self.eat(")")
                return ("func", n, ["*"])
            d = self.opt("distinct")
            es = self.exprs()
            self.eat(")")
            return ("func", n, es)
        if self.opt("."):
            return ("col", n, self.name())
        return ("col", None, n)

    # statements
    def source(self):
        t = self.name()
        alias = t
        if self.opt("as"):
            alias = self.name()
        elif self.kind() == "id" and self.peek() not in ("inner", "join", "where", "order", "limit", "group", "using", "on", "left", "cross", "set", "offset"):
            alias = self.name()
        return t, alias

    def select(self):
        self.eat("select")
        q = {"distinct": self.opt("distinct"), "cols": [], "from": [], "where": None, "order": [], "limit": None}
        while True:
            if self.peek() == "*" :
                self.i += 1
                q["cols"].append((("star",), None))
            else:
                e = self.expr()
                al = self.name() if self.opt("as") else None
                q["cols"].append((e, al))
            if not self.opt(","):
                break
        if self.opt("from"):
            q["from"].append((self.source(), None))
            while True:
                if self.opt(","):
                    q["from"].append((self.source(), None))
                elif self.peek() in ("inner", "join", "cross"):
                    self.opt("inner")
                    self.opt("cross")
                    self.eat("join")
                    src = self.source()
                    if self.opt("using"):
                        self.eat("(")
                        c = [self.name()]
                        while self.opt(","):
                            c.append(self.name())
                        self.eat(")")
                        q["from"].append((src, ("using", c)))
                    elif self.opt("on"):
                        q["from"].append((src, ("on", self.expr())))
                    else:
                        q["from"].append((src, None))
                else:
                    break
        if self.opt("where"):
            q["where"] = self.expr()
        if self.opt("group", "by"):
            q["group"] = self.exprs()
        if self.opt("order", "by"):
            while True:
                e = self.expr()
                d = self.opt("desc")
                self.opt("asc")
                q["order"].append((e, d))
                if not self.opt(","):
                    break
        if self.opt("limit"):
            q["limit"] = self.expr()
        return q

    def statement(self):
        w = self.peek()
        if w == "select":
            return ("select", self.select())
        if w in ("insert", "replace"):
            self.i += 1
            mode = "replace" if w == "replace" else "abort"
            if self.opt("or"):
                mode = self.name()
            self.eat("into")
            t = self.name()
            cols = None
            if self.peek() == "(":
                self.i += 1
                cols = [self.name()]
                while self.opt(","):
                    cols.append(self.name())
                self.eat(")")
            if self.opt("values"):
                rows = []
                while True:
                    self.eat("(")
                    rows.append(self.exprs())
                    self.eat(")")
                    if not self.opt(","):
                        break
                return ("insert", mode, t, cols, rows)
            return ("insert-select", mode, t, cols, self.select())
        if w == "delete":
            self.eat("delete", "from")
            t, a = self.source()
            return ("delete", t, a, self.expr() if self.opt("where") else None)
        if w == "update":
            self.eat("update")
            if self.opt("or"):
                raise Unsupported("SQL: update or")
            t, a = self.source()
            self.eat("set")
            sets = []
            while True:
                if self.opt("("):
                    cs = [self.name()]
                    while self.opt(","):
                        cs.append(self.name())
                    self.eat(")", "=")
                    v = self.atom()
                    if v[0] != "row" or len(v[1]) != len(cs):
                        raise Unsupported("SQL: row update")
                    sets += list(zip(cs, v[1]))
                else:
                    c = self.name()
                    self.eat("=")
                    sets.append((c, self.expr()))
                if not self.opt(","):
                    break
            return ("update", t, a, sets, self.expr() if self.opt("where") else None)
        if w in ("begin", "commit", "end"):
            return ("txn", w)
        if w == "savepoint":
            self.i += 1
            return ("savepoint", self.name())
        if w == "rollback":
            self.i += 1
            self.opt("transaction")
            if not self.opt("to"):
                return ("rollback",)
            self.opt("savepoint")
            return ("rollback-to", self.name())
        if w == "release":
            self.i += 1
            self.opt("savepoint")
            return ("release", self.name())
        if w == "pragma":
            return ("pragma",)
        if w == "attach":
            self.i += 1
            e = self.expr()
            self.eat("as")
            return ("attach", e, self.name())
        if w == "detach":
            self.i += 1
            return ("detach", self.name())
        if w == "create":
            self.i += 1
            self.opt("temporary") or self.opt("temp")
            if self.opt("table"):
                ine = self.opt("if", "not", "exists")
                return ("create", self.name(), ine)
            if self.opt("index"):
                self.name()
                if self.opt("."):
                    self.name()
                self.eat("on")
                return ("create-index", self.name())
        if w == "drop":
            self.i += 1
            if self.opt("table"):
                ie = self.opt("if", "exists")
                return ("drop", self.name(), ie)
        raise Unsupported(f"SQL statement {self.text.strip()[:60]!r}")

    def finish(self):
        r = self.statement()
        self.opt(";")
        if r[0] not in ("savepoint", "rollback-to", "release", "rollback", "txn", "pragma", "create", "create-index", "drop") and self.i < len(self.t):
            raise Unsupported(f"SQL: trailing text {self.peek()!r} in {self.text.strip()[:60]!r}")
        return r


# ------------------------------------------------------------------------------------------- the schema
class Schema:
    """Checks that the tables have the modelled shape, and reads the triggers."""

    def __init__(self, repo):
        node = repo.funcs["_index_schema.CURRENT_SCHEMA="]
        if isinstance(node, ast.Constant):
            txt = node.value
        else:
            txt = "".join(p.value if isinstance(p, ast.Constant) else "0" for p in node.values)
        self.triggers = {}
        self.problem = None
        seen = set()
        for stmt in txt.split("--------"):
            s = " ".join(x[1] for x in tokens(stmt))
            m = re.match(r"create table if not exists (\w+) \( (.*) \)( ;)?$", s)
            if m:
                self.check_table(m.group(1), m.group(2))
                seen.add(m.group(1))
            m = re.match(r"create trigger if not exists (\w+) before (insert|update|delete) on (\w+) (when .*? )?begin (.*) end( ;)?$", s)
            if m:
                ev, t, when, body = m.group(2), m.group(3), m.group(4), m.group(5)
                cond = Parser(when[4:]).expr() if when else None
                acts = []
                for b in body.split(";"):
                    if b.strip():
                        p = Parser(b).statement()
                        if p[0] != "insert" or p[1] != "ignore":
                            raise Unsupported("trigger body")
                        acts.append(p)
                self.triggers.setdefault((t, ev), []).append((cond, acts))
            elif s.startswith("create trigger"):
                raise Unsupported("trigger " + s[:60])
        for n in TABLES:
            if n not in seen and n not in UNLISTED:
                raise Unsupported(f"table {n} is not in the schema")

    def check_table(self, name, body):
        if name not in TABLES:
            raise Unsupported(f"table {name} is not modelled")
        t = TABLES[name]
        depth, cur, cols = 0, "", []
        for w in body.split():
            if w == "(":
                depth += 1
            if w == ")":
                depth -= 1
            if w == "," and depth == 0:
                cols.append(cur.strip())
                cur = ""
            else:
                cur += " " + w
        cols.append(cur.strip())
        names, pk, fks, uniq = [], [], [], []
        for c in cols:
            ws = c.split()
            if ws[0] == "primary":
                pk = [x for x in ws[3:-1] if x != ","]
            elif ws[0] == "unique":
                uniq.append(tuple(x for x in ws[2:-1] if x != ","))
            else:
                names.append(ws[0])
                if "primary key" in c:
                    pk = [ws[0]]
                if " unique" in c:
                    uniq.append((ws[0],))
                if "references" in ws:
                    if "on delete cascade" not in c:
                        raise Unsupported(f"{name}.{ws[0]}: reference without cascade")
                    fks.append((ws[0], ws[ws.index("references") + 1]))
        if names != t.decl or pk != [n for n, _ in t.pk] or sorted(uniq) != sorted(t.unique) or fks != FKS.get(name, []):
            raise Unsupported(f"the definition of table {name} differs from the modelled one")


# ------------------------------------------------------------------------------------------- evaluation
class Env:
    def __init__(self, parent=None):
        self.rows, self.parent = [], parent      # rows: (alias, Table, key term, row term)

    def add(self, alias, t, k, r):
        self.rows.append((alias, t, k, r))

    def find(self, alias, col):
        for a, t, k, r in self.rows:
            if alias is not None and a != alias:
                continue
            v = colterm(t, k, r, col)
            if v is not None:
                return v
        if self.parent is not None:
            return self.parent.find(alias, col)
        raise Unsupported(f"SQL: column {alias + '.' if alias else ''}{col}")


def colterm(t, k, r, col):
    for i, (n, ty) in enumerate(t.pk):
        if n == col:
            return ty, (k if len(t.pk) == 1 else t.kty.get(k, i))
    if col in t.rty.cols:
        i = t.rty.cols.index(col)
        return t.rty.tys[i], t.rty.get(r, i)
    return None


class SQL(Ext):
    def __init__(self, repo):
        self.repo = repo
        self.schema = Schema(repo)
        self.memory = {}

    # --- python side
    def attribute(self, ex, st, v, name):
        if isinstance(v, Obj) and v.cls == "sqlite":
            return [(st, Bi("sql." + name, v))]
        if isinstance(v, Obj) and v.cls == "index.Index":
            if (v.oid, name) in st.attrs:
                return [(st, st.attrs[(v.oid, name)])]
            if name == "db":
                o = Obj("sqlite", newid())
                st.attrs[(v.oid, "db")] = o
                return [(st, o)]
        return None

    def enter(self, ex, st, v):
        if isinstance(v, Obj) and v.cls == "index.Index":
            out = []
            for s, f in ex.libs.attribute(ex, st, v, "__enter__"):
                for s2, r in ex.call(s, f, [], {}):
                    out.append((s2, r, ("idx", v)))
            return out

    def exit(self, ex, st, mgr, sig):
        if isinstance(mgr, tuple) and mgr[0] == "idx":
            out = []
            for s, f in ex.libs.attribute(ex, st, mgr[1], "__exit__"):
                for s2, r in ex.call(s, f, [NONE, NONE, NONE], {}):
                    if r is not NONE:
                        raise Unsupported("__exit__ returns a value")
                    out.append((s2, sig))
            return out

    def call(self, ex, st, f, args, kw, node):
        if not f.name.startswith("sql."):
            return None
        op = f.name[4:]
        if op == "close":
            return [(st, NONE)]
        if op in ("execute", "executemany"):
            if kw or not isinstance(args[0], Sc):
                raise Unsupported("execute")
            if args[0].s is None:
                txt = self.raw_text(ex, st, node)
            else:
                txt = args[0].s
            stmt = Parser(txt).finish()
            if op == "executemany":
                return self.executemany(ex, st, stmt, args[1], node)
            return self.execute(ex, st, stmt, self.params(ex, st, args[1] if len(args) > 1 else None))
        raise Unsupported(f"database method {op}")

    def raw_text(self, ex, st, node):
        """the text of a formatted statement whose parameters are only names"""
        a = node.args[0] if node is not None else None
        if isinstance(a, ast.JoinedStr):
            return "".join(p.value if isinstance(p, ast.Constant) else "name_" + re.sub(r"\W", "_", ast.unparse(p.value)) for p in a.values)
        raise Unsupported("execute of a computed statement")

    def params(self, ex, st, v):
        if v is None:
            return []
        if isinstance(v, (Tup, Lst)):
            return list(v.items)
        if isinstance(v, Ref) and st.ty(v) is None:
            return []
        raise Unsupported("statement parameters")

    def db(self, st):
        return st.tag["db"]

    def tref(self, st, name):
        d = self.db(st)
        if name not in d:
            raise Unsupported(f"table {name} is not part of this contract")
        return TABLES[name], d[name]

    # --- expressions: (st) -> V.  Only scalar reading, no forks
    def ev(self, ex, st, e, env, pars):
        k = e[0]
        if k == "num":
            return I(int(e[1])) if "." not in e[1] else R(float(e[1]))
        if k == "str":
            return S(e[1])
        if k == "null":
            return NONE
        if k == "bool":
            return B(e[1])
        if k == "par":
            if e[1] >= len(pars):
                raise Unsupported("SQL: number of parameters")
            return pars[e[1]]
        if k == "col":
            ty, t = env.find(e[1], e[2])
            return ex.from_term(st, ty, t) if not ty.mutable else st.alloc(ty, t)
        if k == "row":
            return Tup([self.ev(ex, st, x, env, pars) for x in e[1]])
        if k == "arith":
            a, b = self.ev(ex, st, e[2], env, pars), self.ev(ex, st, e[3], env, pars)
            if not (ex.libs.num(a) and ex.libs.num(b)):
                raise Unsupported("SQL arithmetic")
            return ex.libs.binop(ex, st, {"+": "Add", "-": "Sub", "*": "Mult"}[e[1]], a, b)[0][1]
        if k in ("and", "or", "not", "cmp", "isnull", "in", "inlist"):
            return B(self.cond(ex, st, e, env, pars))
        if k == "scalar":
            return self.scalar(ex, st, e[1], env, pars)
        if k == "func":
            n, a = e[1], e[2]
            if n == "coalesce":
                for x in a:
                    v = self.ev(ex, st, x, env, pars)
                    if isinstance(v, OptV):
                        d = self.ev(ex, st, a[a.index(x) + 1], env, pars)
                        return ex.from_term(st, v.ty.ty, z3.If(v.ty.is_none(v.t), ex.to_term(st, d, v.ty.ty), v.ty.val(v.t)))
                    if v is not NONE:
                        return v
                return NONE
        raise Unsupported(f"SQL expression {e[0]} {e[1] if len(e) > 1 else ''}")

    def cond(self, ex, st, e, env, pars):
        k = e[0]
        if k == "and":
            return z3.And(self.cond(ex, st, e[1], env, pars), self.cond(ex, st, e[2], env, pars))
        if k == "or":
            return z3.Or(self.cond(ex, st, e[1], env, pars), self.cond(ex, st, e[2], env, pars))
        if k == "not":
            return z3.Not(self.cond(ex, st, e[1], env, pars))
        if k == "isnull":
            v = self.ev(ex, st, e[1], env, pars)
            return v.ty.is_none(v.t) if isinstance(v, OptV) else z3.BoolVal(v is NONE)
        if k == "cmp":
            a, b = self.ev(ex, st, e[2], env, pars), self.ev(ex, st, e[3], env, pars)
            return self.compare(ex, st, e[1], a, b)
        if k == "inlist":
            a = self.ev(ex, st, e[1], env, pars)
            return z3.Or(*[self.compare(ex, st, "=", a, self.ev(ex, st, x, env, pars)) for x in e[2]])
        if k == "in":
            a = self.ev(ex, st, e[1], env, pars)
            return self.member(ex, st, a, e[2], env, pars)
        v = self.ev(ex, st, e, env, pars)
        return ex.truth(st, v)

    def compare(self, ex, st, op, a, b):
        if a is NONE or b is NONE:
            return z3.BoolVal(False)
        if isinstance(a, Tup) != isinstance(b, Tup):
            raise Unsupported("SQL: row comparison")
        if isinstance(a, Tup):
            if len(a.items) != len(b.items) or op not in ("=",):
                raise Unsupported("SQL: row comparison")
            return z3.And(*[self.compare(ex, st, op, x, y) for x, y in zip(a.items, b.items)])
        for x, y in ((a, b), (b, a)):
            if isinstance(x, OptV):
                inner = ex.from_term(st, x.ty.ty, x.ty.val(x.t))
                return z3.And(z3.Not(x.ty.is_none(x.t)), self.compare(ex, st, op, *((inner, b) if x is a else (a, inner))))
        if isinstance(a, Sc) and isinstance(b, Sc) and {a.ty, b.ty} == {T.TBool, T.TInt}:
            a, b = I(ex.coerce(a, T.TInt)), I(ex.coerce(b, T.TInt))
        if op == "=":
            return ex.equal(st, a, b)
        if op == "!=":
            return z3.Not(ex.equal(st, a, b))
        py = {"<": "Lt", "<=": "LtE", ">": "Gt", ">=": "GtE"}[op]
        return ex.libs.compare(ex, st, py, a, b)[0][1]

    def member(self, ex, st, a, q, env, pars):
        if q["distinct"]:
            q = dict(q, distinct=False)
        rel = Rel(self, ex, st, q, env, pars)
        e = q["cols"][0][0]
        if len(rel.vs) == 1 and e[0] == "col":
            t = rel.tables[0][0]
            if len(t.pk) == 1 and t.pk[0][0] == e[2]:
                kt = ex.to_term(st, a, t.kty)
                return z3.substitute(rel.cond, (rel.vs[0], kt))
        v = self.ev(ex, st, e, rel.env, pars)
        return z3.Exists(rel.vs, z3.And(rel.cond, self.compare(ex, st, "=", a, v)))

    def scalar(self, ex, st, q, env, pars):
        """a scalar subquery: the single value, or NULL when there is no row"""
        if len(q["cols"]) != 1:
            raise Unsupported("SQL: scalar subquery columns")
        e = q["cols"][0][0]
        agg = self.aggregate(ex, st, q, e, env, pars)
        if agg is not None:
            return agg
        rel = Rel(self, ex, st, q, env, pars)
        k = rel.fixed_key()
        if k is None:
            raise Unsupported("SQL: scalar subquery that is not a lookup by key")
        found, env2 = rel.at(k)
        v = self.ev(ex, st, e, env2, pars)
        ty = T.TOpt(ex.ty_of(st, v))
        return OptV(ty, z3.If(found, ty.some(ex.to_term(st, v, ty.ty)), ty.none))

    def aggregate(self, ex, st, q, e, env, pars):
        if e[0] == "func" and e[1] == "coalesce":
            inner = self.aggregate(ex, st, q, e[2][0], env, pars)
            if inner is None:
                return None
            if isinstance(inner, OptV):
                d = self.ev(ex, st, e[2][1], env, pars)
                return ex.from_term(st, inner.ty.ty, z3.If(inner.ty.is_none(inner.t), ex.to_term(st, d, inner.ty.ty), inner.ty.val(inner.t)))
            return inner
        if e[0] == "arith":
            a, b = (self.aggregate(ex, st, q, x, env, pars) for x in e[2:])
            if a is None and b is None:
                return None
            a = a if a is not None else self.ev(ex, st, e[2], Env(env), pars)
            b = b if b is not None else self.ev(ex, st, e[3], Env(env), pars)
            return ex.libs.binop(ex, st, {"+": "Add", "-": "Sub", "*": "Mult"}[e[1]], a, b)[0][1]
        if e[0] != "func" or e[1] not in ("count", "max", "min", "sum") or len(e[2]) != 1:
            return None
        rel = Rel(self, ex, st, q, env, pars)
        keys = rel.keyset()
        th = T.set_theory(rel.kty)
        if e[1] == "count":
            if e[2][0] != "*":
                v = self.ev(ex, st, e[2][0], rel.env, pars)
                if isinstance(v, OptV):
                    raise Unsupported("SQL: count of a nullable column")
            return I(th.card(keys))
        k = rel.vs[0]
        v = self.ev(ex, st, e[2][0], rel.env, pars)
        if not ex.libs.num(v):
            raise Unsupported(f"SQL: {e[1]} of a value")
        if e[1] == "sum":
            out = v.ty
            arr = T.lam(k, v.t)
            ty = T.TOpt(out)
            return OptV(ty, z3.If(keys == th.empty, ty.none, ty.some(T.sum_theory(rel.kty, out)(keys, arr))))
        m = T.fresh("agg", v.t.sort())
        ty = T.TOpt(v.ty)
        r = T.fresh("aggopt", ty.sort)
        w = T.fresh("aggw", k.sort())
        rel_le = (lambda a, b: a <= b) if e[1] == "max" else (lambda a, b: a >= b)
        st.assume(ty.is_none(r) == (keys == th.empty))
        st.assume(z3.Implies(keys != th.empty, z3.And(keys[w], ty.val(r) == z3.substitute(v.t, (k, w)))))
        st.assume(z3.ForAll([k], z3.Implies(rel.cond, rel_le(v.t, ty.val(r))), patterns=rel.pats()))
        return OptV(ty, r)

    # --- statements
    def execute(self, ex, st, stmt, pars):
        before = {n: st.term(r) for n, r in self.db(st).items()}
        out = self.execute1(ex, st, stmt, pars)
        if stmt[0] in ("insert", "insert-select", "update", "delete"):
            for s, _ in out:
                for n, r in self.db(s).items():
                    t = s.term(r)
                    if n in before and not z3.eq(before[n], t):
                        ty = TABLES[n].ty           # name the new contents
                        new = T.fresh(n, ty.sort)
                        s.assume(ty.dom(new) == ty.dom(t), ty.arr(new) == ty.arr(t))
                        s.set_term(r, new)
        return out

    def execute1(self, ex, st, stmt, pars):
        k = stmt[0]
        if k == "select":
            return self.select(ex, st, stmt[1], pars)
        if k in ("pragma", "txn"):
            return [(st, NONE)]
        if k == "savepoint":
            snap = {n: st.term(r) for n, r in self.db(st).items()}
            st.tag = dict(st.tag, savepoints=st.tag.get("savepoints", ()) + ((stmt[1], snap),))
            return [(st, NONE)]
        if k in ("rollback-to", "release"):
            sp = st.tag.get("savepoints", ())
            at = [j for j, (n, _) in enumerate(sp) if n == stmt[1]]
            if not at:
                if "outer" in st.tag and not ex.infeasible(st, [st.tag["outer"]]):
                    raise Unsupported("a savepoint of an enclosing operation is used")
                ex.raise_(st, "sqlite3.OperationalError", "no such savepoint")
                return []
            if k == "rollback-to":
                was = sp[at[-1]][1]
                db = {n: r for n, r in self.db(st).items() if n in was}
                for n in was:
                    if n not in db:
                        db[n] = st.alloc(TABLES[n].ty, was[n], "dict")
                    else:
                        st.set_term(db[n], was[n])
                st.tag = dict(st.tag, savepoints=sp[:at[-1] + 1], db=db)
                return [(st, NONE)]
            st.tag = dict(st.tag, savepoints=sp[:at[-1]])
            if at[-1] == 0 and "committed" in st.tag:
                # releasing the outermost savepoint commits
                new = {}
                now = self.db(st)
                for n in list(dict.fromkeys(list(st.tag["committed"]) + list(now))):
                    c = T.fresh("committed_" + n, TABLES[n].ty.sort)
                    if n in now and n in st.tag["committed"]:
                        st.assume(c == z3.If(st.tag["outer"], st.tag["committed"][n], st.term(now[n])))
                    elif n in now:
                        st.assume(z3.Implies(z3.Not(st.tag["outer"]), c == st.term(now[n])))
                    new[n] = c          # (nothing is known about a table that was dropped)
                st.tag = dict(st.tag, committed=new)
            return [(st, NONE)]
        if k == "create":
            n = stmt[1]
            if n not in TABLES:
                raise Unsupported(f"create table {n}")
            if n not in self.db(st):
                ty = TABLES[n].ty
                r = st.alloc(ty, T.fresh(n, ty.sort), "dict")
                st.assume(ty.dom(st.term(r)) == T.set_theory(ty.k).empty)
                st.tag = dict(st.tag, db=dict(self.db(st), **{n: r}))
            return [(st, NONE)]
        if k == "drop":
            d = dict(self.db(st))
            d.pop(stmt[1], None)
            st.tag = dict(st.tag, db=d)
            return [(st, NONE)]
        if k == "delete":
            return self.delete(ex, st, stmt, pars)
        if k == "update":
            return self.update(ex, st, stmt, pars)
        if k == "insert":
            live = [st]
            for row in stmt[4]:
                nxt = []
                for s in live:
                    env = Env()
                    vals = [self.ev(ex, s, e, env, pars) for e in row]
                    nxt += self.insert(ex, s, stmt[1], stmt[2], stmt[3], vals)
                live = nxt
            return [(s, NONE) for s in live]
        if k == "insert-select":
            return self.insert_select(ex, st, stmt, pars)
        raise Unsupported(f"SQL statement {k}")

    def row_value(self, ex, st, rel, cols, k, pars):
        env = rel.at(k)[1]
        out = []
        for e, _ in cols:
            if e[0] == "star":
                for t, _k, _r in [(x[1], x[2], x[3]) for x in env.rows]:
                    for c in t.decl:
                        ty, tm = colterm(t, _k, _r, c)
                        out.append(ex.from_term(st, ty, tm) if not ty.mutable else st.alloc(ty, tm))
            else:
                out.append(self.ev(ex, st, e, env, pars))
        return Tup(out)

    def select(self, ex, st, q, pars):
        cols = q["cols"]
        if not q["from"]:
            return [(st, ItV(ConcreteIter([Tup([self.ev(ex, st, e, Env(), pars) for e, _ in cols])])))]
        aggs = [self.aggregate(ex, st, q, e, None, pars) if e[0] != "star" else None for e, _ in cols]
        if any(a is not None for a in aggs):
            if not all(a is not None for a in aggs):
                raise Unsupported("SQL: aggregate mixed with columns")
            return [(st, Lst([Tup(aggs)]))]
        rel = Rel(self, ex, st, q, None, pars)
        if q["distinct"]:
            raise Unsupported("SQL: distinct")
        k = rel.fixed_key()
        if k is not None and q["limit"] is None:
            found, _ = rel.at(k)
            row = self.row_value(ex, st, rel, cols, k, pars)
            ty = T.TSeq(ex.ty_of(st, row))
            t = T.fresh("rows", ty.sort)
            st.assume(ty.len(t) == z3.If(found, 1, 0), z3.Implies(found, ty.at(t, 0) == ex.to_term(st, row, ty.el)))
            return [(st, ItV(SeqIter(st.alloc(ty, t, "list"))))]
        keys = rel.keyset()
        kty = T.TSet(rel.kty)
        elem = lambda s, kk: self.row_value(ex, s, rel, cols, kk, pars)
        if not q["order"] and q["limit"] is None:
            it = SetIter(keys, kty, False, elem)
            it.rows = True
            return [(st, ItV(it))]
        # an ordered sequence of the keys, then the rows at those keys
        probe = st.copy()
        rowty = ex.ty_of(probe, elem(probe, T.fresh("k", rel.kty.sort)))
        sty = T.TSeq(rowty)
        r = T.fresh("rows", sty.sort)
        src, dst = T.fresh_fn("src", z3.IntSort(), rel.kty.sort), T.fresh_fn("dst", rel.kty.sort, z3.IntSort())
        i, j, kk = T.fresh("i", z3.IntSort()), T.fresh("j", z3.IntSort()), T.fresh("k", rel.kty.sort)
        n = kty.th.card(keys)
        inr = lambda a: z3.And(0 <= a, a < sty.len(r))
        if q["limit"] is not None:
            lim = ex.coerce(self.ev(ex, st, q["limit"], Env(), pars), T.TInt)
            st.assume(sty.len(r) == z3.If(z3.And(lim >= 0, lim < n), lim, n), sty.len(r) >= 0)
        else:
            st.assume(sty.len(r) == n)
        sc = st.copy()
        mark = T._n[0]
        base = len(sc.pc)
        at = ex.to_term(sc, elem(sc, src(i)), rowty)
        if len(sc.pc) != base:
            raise Unsupported("SQL: column that needs extra facts in an ordered select")
        body = z3.Implies(inr(i), z3.And(keys[src(i)], sty.at(r, i) == at, dst(src(i)) == i))
        st.assume(z3.ForAll([i], body, patterns=[sty.at(r, i)]), z3.ForAll([i], body, patterns=[src(i)]))
        if q["limit"] is None:
            st.assume(z3.ForAll([kk], z3.Implies(keys[kk], z3.And(inr(dst(kk)), src(dst(kk)) == kk)), patterns=[keys[kk]]))
            st.assume(z3.ForAll([kk], z3.Implies(keys[kk], z3.And(inr(dst(kk)), src(dst(kk)) == kk)), patterns=[dst(kk)]))
        else:
            full = sty.len(r) == n
            st.assume(z3.Implies(full, z3.ForAll([kk], z3.Implies(keys[kk], z3.And(inr(dst(kk)), src(dst(kk)) == kk)), patterns=[keys[kk]])))
        if q["order"]:
            e, desc = q["order"][0]
            key = lambda kx: self.ev(ex, sc, e, rel.at(kx)[1], pars)
            a, b = key(src(i)), key(src(j))
            if desc:
                a, b = b, a
            if isinstance(a, (Sc,)):
                le = self.compare(ex, sc, "<=", a, b)
                st.assume(z3.ForAll([i, j], z3.Implies(z3.And(inr(i), inr(j), i < j), le), patterns=[z3.MultiPattern(src(i), src(j))]))
                if q["limit"] is not None:
                    # the rows left out do not come before the ones kept
                    out = key(kk)
                    x, y = (out, key(src(i))) if desc else (key(src(i)), out)
                    st.assume(z3.ForAll([i, kk], z3.Implies(z3.And(inr(i), keys[kk], z3.Not(z3.And(inr(dst(kk)), src(dst(kk)) == kk))),
                                                            self.compare(ex, sc, "<=", x, y)), patterns=[z3.MultiPattern(src(i), keys[kk])]))
            else:
                raise Unsupported("SQL: order by a nullable column")
        ref = st.alloc(sty, r, "list")
        st.tag = dict(st.tag, lastselect=(src, dst, keys))
        return [(st, ItV(SeqIter(ref)))]

    # --- changes
    def fire(self, ex, st, t, ev, rows):
        """triggers.  rows: (bound key variable or None, condition, old row env, new row env)"""
        for cond, acts in self.schema.triggers.get((t.name, ev), []):
            v, sel, old, new = rows
            env = Env()
            if old is not None:
                env.add("old", t, *old)
            if new is not None:
                env.add("new", t, *new)
            c = sel if cond is None else z3.And(sel, self.cond(ex, st, cond, env, []))
            for a in acts:
                _, _, tt, cols, vrows = a
                tgt, ref = self.tref(st, tt)
                if cols != [n for n, _ in tgt.pk] or len(cols) != 1:
                    raise Unsupported("trigger body columns")
                for vr in vrows:
                    kv = ex.to_term(st, self.ev(ex, st, vr[0], env, []), tgt.kty)
                    self.insert_keys(ex, st, tgt, ref, v, c, kv)

    def default_row(self, t):
        vals = []
        for n, ty in t.cols:
            vals.append(IntVal0 if ty == I_ else z3.BoolVal(False) if ty == B_ else ty.none if isinstance(ty, T.TOpt) else T.fresh("dflt", ty.sort))
        return t.rty.mk(*vals)

    def insert_keys(self, ex, st, t, ref, v, c, kv):
        """insert or ignore the keys kv (a term over v) for every v with c"""
        cur = st.term(ref)
        dom, arr = t.ty.dom(cur), t.ty.arr(cur)
        fk = FKS.get(t.name, [])
        if v is None:
            if z3.is_false(z3.simplify(c)):
                return
            for col, parent in fk:
                pt, pref = self.tref(st, parent)
                ex.oblige(st, z3.Implies(c, pt.ty.has(st.term(pref), kv)), f"foreign key {t.name}.{col} references {parent}")
            dom2 = z3.Store(dom, kv, z3.BoolVal(True))
            arr2 = z3.Store(arr, kv, z3.If(z3.Select(dom, kv), z3.Select(arr, kv), self.default_row(t)))
            if not t.cols:
                arr2 = arr
            if not z3.is_true(z3.simplify(c)):
                dom2, arr2 = z3.If(c, dom2, dom), z3.If(c, arr2, arr)
            st.set_term(ref, t.ty.mk(dom2, arr2))
            return
        for col, parent in fk:
            pt, pref = self.tref(st, parent)
            ex.oblige(st, z3.ForAll([v], z3.Implies(c, pt.ty.has(st.term(pref), kv)), patterns=sel_pats(c, v)), f"foreign key {t.name}.{col} references {parent}")
        x = T.fresh("x", t.kty.sort)
        if z3.eq(kv, v):
            new_dom = T.lam(x, z3.Or(dom[x], z3.substitute(c, (v, x))))
        elif not T.has_var(kv) and v.decl().name() not in T.decls_of([kv]):
            # one key, inserted when any row is affected
            w = T.fresh("w", v.sort())
            anyc = T.fresh("any", z3.BoolSort())
            st.assume(z3.Implies(anyc, z3.substitute(c, (v, w))), z3.ForAll([v], z3.Implies(c, anyc), patterns=sel_pats(c, v)))
            new_dom = T.fresh("dom", dom.sort())
            st.assume(z3.ForAll([x], new_dom[x] == z3.Or(dom[x], z3.And(anyc, x == kv)), patterns=[new_dom[x]]))
            st.assume(z3.ForAll([x], new_dom[x] == z3.Or(dom[x], z3.And(anyc, x == kv)), patterns=[dom[x]]), new_dom[kv] == z3.Or(dom[kv], anyc))
        else:
            new_dom = T.fresh("dom", dom.sort())
            w = T.fresh_fn("w", t.kty.sort, v.sort())
            st.assume(z3.ForAll([x], z3.Implies(new_dom[x], z3.Or(dom[x], z3.And(z3.substitute(c, (v, w(x))), z3.substitute(kv, (v, w(x))) == x))), patterns=[new_dom[x]]))
            st.assume(z3.ForAll([x], z3.Implies(dom[x], new_dom[x]), patterns=[dom[x]]))
            st.assume(z3.ForAll([v], z3.Implies(c, new_dom[kv]), patterns=sel_pats(c, v)))
        if t.cols:
            d = self.default_row(t)
            arr2 = T.lam(x, z3.If(dom[x], arr[x], d))
        else:
            arr2 = arr
        st.set_term(ref, t.ty.mk(new_dom, arr2))

    def where(self, ex, st, t, alias, ref, cond, pars):
        cur = st.term(ref)
        q = {"from": [((t.name, alias), None)], "where": cond, "cols": []}
        rel = Rel(self, ex, st, q, None, pars)
        return rel, cur

    def delete(self, ex, st, stmt, pars):
        _, tn, alias, w = stmt
        t, ref = self.tref(st, tn)
        rel, cur = self.where(ex, st, t, alias, ref, w, pars)
        k = rel.fixed_key()
        dom, arr = t.ty.dom(cur), t.ty.arr(cur)
        if k is not None:
            found = rel.at(k)[0]
            self.fire(ex, st, t, "delete", (None, found, (k, arr[k]), None))
            gone = lambda x: z3.And(x == k, found)
            nd = z3.Store(dom, k, z3.And(dom[k], z3.Not(found)))
        elif w is None:
            v = rel.vs[0]
            self.fire(ex, st, t, "delete", (v, rel.cond, (v, arr[v]), None))
            gone = lambda x: dom[x]
            nd = T.set_theory(t.kty).empty
        else:
            v = rel.vs[0]
            self.fire(ex, st, t, "delete", (v, rel.cond, (v, arr[v]), None))
            gone = lambda x: z3.substitute(rel.cond, (v, x))
            nd = T.lam(v, z3.And(dom[v], z3.Not(rel.cond)))
        st.set_term(ref, t.ty.mk(nd, t.ty.arr(st.term(ref))))
        self.cascade(ex, st, t, gone)
        return [(st, NONE)]

    def cascade(self, ex, st, t, gone):
        for child, fks in FKS.items():
            for col, parent in fks:
                if parent != t.name or child not in self.db(st):
                    continue
                ct, cref = self.tref(st, child)
                cur = st.term(cref)
                x = T.fresh("x", ct.kty.sort)
                _, cv = colterm(ct, x, ct.ty.at(cur, x), col)
                hit = z3.And(ct.ty.has(cur, x), gone(cv))
                if (child, "delete") in self.schema.triggers:
                    ex.oblige(st, z3.ForAll([x], z3.Not(hit), patterns=[ct.ty.has(cur, x)]), f"no row of {child} is left for a deleted row of {t.name} (cascades into triggers are not modelled)")
                    continue
                st.set_term(cref, ct.ty.mk(T.lam(x, z3.And(ct.ty.has(cur, x), z3.Not(gone(cv)))), ct.ty.arr(cur)))

    def update(self, ex, st, stmt, pars):
        _, tn, alias, sets, w = stmt
        t, ref = self.tref(st, tn)
        for c, _ in sets:
            if c in [n for n, _ in t.pk]:
                raise Unsupported("SQL: update of a key")
        rel, cur = self.where(ex, st, t, alias, ref, w, pars)
        k = rel.fixed_key()
        dom, arr = t.ty.dom(cur), t.ty.arr(cur)

        def upd(kx, env):
            kw = {}
            for c, e in sets:
                i = t.rty.cols.index(c)
                v = self.ev(ex, st, e, env, pars)
                ty = t.rty.tys[i]
                if isinstance(v, OptV) and not isinstance(ty, T.TOpt):
                    ex.assumptions.add(f"{tn}.{c} is never set to NULL by the subquery")
                    v = ex.from_term(st, v.ty.ty, v.ty.val(v.t))
                kw[c] = ex.to_term(st, v, ty)
            return t.rty.upd(arr[kx], **kw)
        if k is not None:
            found, env = rel.at(k)
            new = upd(k, env)
            self.fire(ex, st, t, "update", (None, found, (k, arr[k]), (k, new)))
            self.fk_update(ex, st, t, sets, None, found, k, new)
            row = z3.If(found, new, arr[k])
            st.set_term(ref, t.ty.mk(dom, z3.Store(arr, k, row)))
            return [(st, NONE)]
        v = rel.vs[0]
        new = upd(v, rel.env)
        self.fire(ex, st, t, "update", (v, rel.cond, (v, arr[v]), (v, new)))
        self.fk_update(ex, st, t, sets, v, rel.cond, v, new)
        st.set_term(ref, t.ty.mk(dom, T.lam(v, z3.If(rel.cond, new, arr[v]))))
        return [(st, NONE)]

    def fk_update(self, ex, st, t, sets, v, c, k, new):
        for col, parent in FKS.get(t.name, []):
            if col in [s for s, _ in sets] and parent in self.db(st):
                pt, pref = self.tref(st, parent)
                _, cv = colterm(t, k, new, col)
                goal = z3.Implies(c, pt.ty.has(st.term(pref), cv))
                ex.oblige(st, goal if v is None else z3.ForAll([v], goal, patterns=sel_pats(c, v)), f"foreign key {t.name}.{col} references {parent}")

    def insert(self, ex, st, mode, tn, cols, vals):
        t, ref = self.tref(st, tn)
        cols = cols or t.decl
        if len(cols) != len(vals):
            raise Unsupported("SQL: number of values")
        given = dict(zip(cols, vals))
        if t.rowid:
            k = T.fresh("rowid", z3.IntSort())
            st.assume(z3.Not(t.ty.has(st.term(ref), k)))
        else:
            if t.pk[0][0] not in given and len(t.pk) == 1 and t.kty == I_:
                # an integer primary key that is not given: one more than the largest
                auto, x = T.fresh(t.pk[0][0], z3.IntSort()), T.fresh("x", z3.IntSort())
                has = lambda q: t.ty.has(st.term(ref), q)
                st.assume(z3.ForAll([x], z3.Implies(has(x), x < auto), patterns=[has(x)]), z3.Or(auto == 1, has(auto - 1)),
                          z3.Implies(z3.Not(has(auto - 1)), z3.ForAll([x], z3.Not(has(x)), patterns=[has(x)])))
                given[t.pk[0][0]] = Sc(I_, auto)
            ks = [ex.to_term(st, given[n], ty) for n, ty in t.pk]
            k = ks[0] if len(ks) == 1 else t.kty.mk(*ks)
        d = self.default_row(t)
        row = []
        live = st
        for i, (n, ty) in enumerate(t.cols):
            if n not in given:
                row.append(t.rty.get(d, i))
                continue
            v = given[n]
            if isinstance(v, OptV) and not isinstance(ty, T.TOpt):
                # NULL in a column that is never NULL in the model: only possible when a key is missing
                ex.oblige(st, z3.Or(z3.Not(v.ty.is_none(v.t)), *self.fk_broken(ex, st, t, k, given)), f"{tn}.{n} is not NULL")
                v = ex.from_term(st, v.ty.ty, v.ty.val(v.t))
            row.append(ex.to_term(st, v, ty))
        row = t.rty.mk(*row)
        cur = st.term(ref)
        present = t.ty.has(cur, k)
        if not t.rowid and mode == "abort":
            s = ex.guard(st, z3.Not(present), "sqlite3.IntegrityError", f"unique key of {tn}")
            if s is None:
                return []
            st = s
        self.fire(ex, st, t, "insert", (None, z3.BoolVal(True), None, (k, row)))
        for col, parent in FKS.get(tn, []):
            if parent in self.db(st):
                pt, pref = self.tref(st, parent)
                _, cv = colterm(t, k, row, col)
                ok = pt.ty.has(st.term(pref), cv)
                if mode == "ignore":
                    ok = z3.Or(present, ok)
                s = ex.guard(st, ok, "sqlite3.IntegrityError", f"foreign key {tn}.{col}")
                if s is None:
                    return []
                st = s
        cur = st.term(ref)
        dom, arr = t.ty.dom(cur), t.ty.arr(cur)
        if mode == "ignore":
            st.set_term(ref, t.ty.mk(z3.Store(dom, k, z3.BoolVal(True)), z3.Store(arr, k, z3.If(dom[k], arr[k], row))))
        elif mode in ("abort", "replace"):
            if mode == "replace" and t.unique:
                raise Unsupported("SQL: replace with a unique column")
            st.set_term(ref, t.ty.mk(z3.Store(dom, k, z3.BoolVal(True)), z3.Store(arr, k, row)))
        else:
            raise Unsupported(f"insert or {mode}")
        return [st]

    def fk_broken(self, ex, st, t, k, given):
        out = []
        for col, parent in FKS.get(t.name, []):
            if col == t.pk[0][0] and parent in self.db(st):
                pt, pref = self.tref(st, parent)
                out.append(z3.Not(pt.ty.has(st.term(pref), k)))
        return out

    def insert_select(self, ex, st, stmt, pars):
        _, mode, tn, cols, q = stmt
        t, ref = self.tref(st, tn)
        cols = cols or t.decl
        rel = Rel(self, ex, st, q, None, pars)
        if len(rel.vs) != 1:
            raise Unsupported("insert from a join")
        v = rel.vs[0]
        if t.rowid:
            src = ex.to_term(st, self.ev(ex, st, q["cols"][0][0], rel.env, pars), t.cols[0][1])
            new = T.fresh(tn, t.ty.sort)
            cur = st.term(ref)
            f = T.fresh_fn("rowof", v.sort(), z3.IntSort())
            g = T.fresh_fn("keyof", z3.IntSort(), v.sort())
            i = T.fresh("i", z3.IntSort())
            old = t.ty.has(cur, i)
            st.assume(z3.ForAll([v], z3.Implies(rel.cond, z3.And(t.ty.has(new, f(v)), z3.Not(t.ty.has(cur, f(v))), g(f(v)) == v, t.rty.get(t.ty.at(new, f(v)), 0) == src)), patterns=rel.pats() + [f(v)]))
            st.assume(z3.ForAll([i], t.ty.has(new, i) == z3.Or(old, z3.And(z3.substitute(rel.cond, (v, g(i))), f(g(i)) == i)), patterns=[t.ty.has(new, i)]))
            st.assume(z3.ForAll([i], z3.Implies(old, t.ty.at(new, i) == t.ty.at(cur, i)), patterns=[t.ty.at(new, i)]))
            st.set_term(ref, new)
            return [(st, NONE)]
        if len(t.pk) == 1 and cols == [t.pk[0][0]] and mode == "ignore":
            kv = ex.to_term(st, self.ev(ex, st, q["cols"][0][0], rel.env, pars), t.kty)
            self.insert_keys(ex, st, t, ref, v, rel.cond, kv)
            return [(st, NONE)]
        raise Unsupported("SQL: insert from select")

    # --- executemany: a loop
    def executemany(self, ex, st, stmt, seq, node):
        fnode = st.tag.get("qual")
        key = (fnode, ("sql", self.many_index(ex, st, node)))
        it = self.param_iter(ex, st, seq)
        if isinstance(it, comps.Nested):
            return self.many_nested(ex, st, stmt, it, node, key)
        items = it.concrete(ex, st)

        def one(s, v):
            return [s2 for s2, _ in self.execute(ex, s, stmt, self.params(ex, s, v))]
        if items is not None:
            live = [st]
            for v in items:
                live = [s2 for s in live for s2 in one(s, v)]
            return [(s, NONE) for s in live]

        def step(s, g):
            res = []
            for s2, v, g2 in it.next(ex, s, g):
                if isinstance(v, Obj) or v.__class__.__name__ == "object":
                    res.append((s2, g2, None))
                    continue
                ex_mark, ex.exc = ex.exc, []
                done = one(s2, v)
                res += [(s3, g2, None) for s3 in done]
                res += [(s3, g2, ("exc", x)) for s3, x in ex.exc]
                ex.exc = ex_mark
            return res
        out = []
        for s, sig in ex.cut_loop(st, node, key, it, step, []):
            if sig is None:
                out.append((s, NONE))
            elif sig[0] == "exc":
                ex.exc.append((s, sig[1]))
            else:
                raise Unsupported("executemany")
        return out

    def many_nested(self, ex, st, stmt, it, node, key):
        """the nested loops of a generator expression, executing the statement for each element it yields"""
        home = st.fid

        def level(s, base, j):
            k = key if j == 0 else (key[0], key[1] + (j,))

            def step(s1, g):
                res = []
                for s2, v, g2 in base.next(ex, s1, g):
                    if v is SKIP:
                        res.append((s2, g2, None))
                        continue
                    back = s2.fid
                    if j == 0:
                        s2.fid = s2.new_frame(it.fid)
                    for s3 in ex.bind(s2, it.gens[j].target, v):
                        for s4, sig in conds(s3, it.gens[j].ifs, j):
                            s4.fid = back
                            res.append((s4, g2, sig))
                return res
            return ex.cut_loop(s, node, k, base, step, [])

        def conds(s, ifs, j):
            if ifs:
                out = []
                for s1, b in ex.ev(s, ifs[0]):
                    for s2, t in ex.split(s1, ex.truth(s1, b)):
                        out += conds(s2, ifs[1:], j) if t else [(s2, None)]
                return out
            mark, ex.exc = ex.exc, []
            out = []
            if j + 1 < len(it.gens):
                for s1, v in ex.ev(s, it.gens[j + 1].iter):
                    out += level(s1, ex.iter_of(s1, v), j + 1)
            else:
                for s1, v in ex.ev(s, it.elt):
                    out += [(s2, None) for s2, _ in self.execute(ex, s1, stmt, self.params(ex, s1, v))]
            out += [(s1, ("exc", x)) for s1, x in ex.exc]
            ex.exc = mark
            return out
        out = []
        for s, sig in level(st, it.base, 0):
            s.fid = home
            if sig is None:
                out.append((s, NONE))
            else:
                ex.exc.append((s, sig[1]))
        return out

    def many_index(self, ex, st, node):
        """the position of this executemany call among those of the function"""
        q = st.tag.get("qual")
        fn = self.repo.funcs.get(q) or self.repo.funcs.get(q.split(":")[0])
        n = 0
        for x in walk_order(fn) if fn is not None else []:
            if isinstance(x, ast.Call) and isinstance(x.func, ast.Attribute) and x.func.attr == "executemany":
                if x is node:
                    return n
                n += 1
        raise Unsupported("executemany")

    def param_iter(self, ex, st, v):
        return ex.iter_of(st, v)


IntVal0 = z3.IntVal(0)


def sel_pats(c, v):
    """trigger terms Select(array, v) of a formula"""
    out, seen, stack = [], set(), [c]
    while stack:
        t = stack.pop()
        if t.get_id() in seen:
            continue
        seen.add(t.get_id())
        if z3.is_select(t) and t.arg(1).get_id() == v.get_id() and not z3.is_quantifier(t):
            if not comps.has_interp(t):
                out.append(t)
        stack.extend(t.children() if not z3.is_quantifier(t) else [])
    return out or [c]


class Rel:
    """The rows a select ranges over: bound key variables, a condition, and the row environment."""

    def __init__(self, sql, ex, st, q, outer, pars):
        self.sql, self.ex, self.st, self.q, self.outer, self.pars = sql, ex, st, q, outer, pars
        if q.get("group"):
            raise Unsupported("SQL: group by")
        self.tables, self.vs = [], []
        self.functional = []        # (table, ref, using column) joined by key
        for (src, join) in q["from"]:
            (tn, alias) = src
            t, ref = sql.tref(st, tn)
            if join is not None and join[0] == "using" and len(t.pk) == 1 and join[1] == [t.pk[0][0]]:
                self.functional.append((t, ref, alias, join[1][0]))
                continue
            self.tables.append((t, ref, alias, join))
            self.vs.append(T.fresh("k_" + tn, t.kty.sort))
        if len(self.tables) == 1 and self.functional or len(self.tables) == 1:
            pass
        elif len(self.tables) == 2 and len(self.functional) == 0:
            # inner join using(key of the first): make the first the functional one
            (t0, r0, a0, j0), (t1, r1, a1, j1) = self.tables
            if j1 is not None and j1[0] == "using" and len(t0.pk) == 1 and j1[1] == [t0.pk[0][0]]:
                self.functional.append((t0, r0, a0, j1[1][0]))
                self.tables, self.vs = [(t1, r1, a1, None)], [self.vs[1]]
        self.terms = {id(ref): st.term(ref) for _, ref, *_ in self.tables + self.functional}
        if len(self.vs) == 1:
            self.kty = self.tables[0][0].kty
        else:
            self.kty = T.TTup(*[t.kty for t, *_ in self.tables])
        self.env, self.cond = self.build(self.vs)

    def build(self, ks):
        sql, ex, st = self.sql, self.ex, self.st
        env = Env(self.outer)
        conds = []
        for (t, ref, alias, join), k in zip(self.tables, ks):
            cur = self.terms[id(ref)]
            conds.append(t.ty.has(cur, k))
            row = t.ty.at(cur, k)
            if join is not None and join[0] == "using":
                for c in join[1]:
                    a, b = env.find(None, c), colterm(t, k, row, c)
                    conds.append(a[1] == b[1])
            env.add(alias, t, k, row)
            if join is not None and join[0] == "on":
                conds.append(sql.cond(ex, st, join[1], env, self.pars))
        for t, ref, alias, col in self.functional:
            cur = self.terms[id(ref)]
            _, k = env.find(None, col)
            conds.append(t.ty.has(cur, k))
            env.add(alias, t, k, t.ty.at(cur, k))
        if self.q.get("where") is not None:
            conds.append(sql.cond(ex, st, self.q["where"], env, self.pars))
        return env, z3.And(*conds) if len(conds) > 1 else conds[0]

    def at(self, k):
        """(condition, env) at key k"""
        ks = [k] if len(self.vs) == 1 else [self.kty.get(k, i) for i in range(len(self.vs))]
        env, cond = self.build(ks)
        return cond, env

    def pats(self):
        if len(self.vs) == 1:
            t, ref = self.tables[0][:2]
            return [t.ty.has(self.terms[id(ref)], self.vs[0])]
        return []

    def keyset(self):
        if len(self.vs) == 1:
            return T.lam(self.vs[0], self.cond)
        k = T.fresh("k", self.kty.sort)
        return T.lam(k, self.at(k)[0])

    def fixed_key(self):
        """the key when the condition fixes it"""
        if len(self.vs) != 1 or self.q.get("where") is None:
            return None
        t, ref, alias, _ = self.tables[0]
        want = {n: None for n, _ in t.pk}

        def conj(e):
            if e[0] == "and":
                conj(e[1])
                conj(e[2])
            elif e[0] == "cmp" and e[1] == "=":
                pair(e[2], e[3])
                pair(e[3], e[2])

        def pair(a, b):
            if a[0] == "row" and b[0] == "row" and len(a[1]) == len(b[1]):
                for x, y in zip(a[1], b[1]):
                    pair(x, y)
                    pair(y, x)
            elif a[0] == "col" and a[2] in want and a[1] in (None, alias) and self.closed(b, alias):
                want[a[2]] = b
        conj(self.q["where"])
        if any(v is None for v in want.values()):
            return None
        env = Env(self.outer)
        ks = []
        for n, ty in t.pk:
            v = self.sql.ev(self.ex, self.st, want[n], env, self.pars)
            if v is NONE or isinstance(v, OptV):
                return None
            ks.append(self.ex.to_term(self.st, v, ty))
        return ks[0] if len(ks) == 1 else t.kty.mk(*ks)

    def closed(self, e, alias):
        if e[0] in ("par", "num", "str"):
            return True
        if e[0] == "col":
            t = self.tables[0][0]
            own = e[1] == alias or (e[1] is None and (e[2] in [n for n, _ in t.pk] or e[2] in t.rty.cols))
            return not own and self.outer is not None
        return False
