"""The database of a plain text corpus: its one table, rows as dicts, and statements any of which may fail."""
import re

import z3

from . import theory as T
from .values import *
from .engine import SeqIter
from .sql import SQL, TABLES, UNLISTED, table, tokens

table("doc", [("doc_id", T.TInt)], [("text", T.TVal)], "doc_id text")
UNLISTED.add("doc")
CORPUS = "corpus.PlainTextSqliteCorpus"


class CorpusDB(SQL):
    def attribute(self, ex, st, v, name):
        if isinstance(v, Obj) and v.cls == CORPUS and name == "db":
            if (v.oid, "db") not in st.attrs:
                st.attrs[(v.oid, "db")] = Obj("sqlite", newid())
            return [(st, st.attrs[(v.oid, "db")])]
        return SQL.attribute(self, ex, st, v, name)

    def call(self, ex, st, f, args, kw, node):
        if f.name == "sql.execute" and isinstance(args[0], Sc) and args[0].s is not None:
            txt = " ".join(x[1] for x in tokens(args[0].s))
            m = re.match(r"create table (if not exists )?(\w+) \( (.*) \)( ;)?$", txt)
            if m and m.group(2) in TABLES:
                if m.group(2) in self.db(st) and not m.group(1):
                    ex.raise_(st, "sqlite3.OperationalError", "the table exists")
                    return []
                self.schema.check_table(m.group(2), m.group(3))
        return SQL.call(self, ex, st, f, args, kw, node)

    def execute(self, ex, st, stmt, pars):
        if stmt[0] not in ("rollback-to", "release"):
            ex.exc.append((st.copy(), Exc("any", "the statement fails")))
        names = {"select": lambda: [x[0][0] for x in stmt[1]["from"]], "delete": lambda: [stmt[1]], "insert": lambda: [stmt[2]],
                 "update": lambda: [stmt[1]], "drop": lambda: [] if stmt[2] else [stmt[1]]}.get(stmt[0], lambda: [])()
        for n in names:
            if isinstance(n, str) and n in TABLES and n not in self.db(st):
                ex.raise_(st, "sqlite3.OperationalError", f"no such table {n}")
                return []
        return SQL.execute(self, ex, st, stmt, pars)

    def row_value(self, ex, st, rel, cols, k, pars):
        names = []
        for e, alias in cols:
            if e[0] == "star":
                raise Unsupported("select * from a corpus")
            names.append(alias or e[-1])
        t = SQL.row_value(self, ex, st, rel, cols, k, pars)
        return Rec(names, t.items)


class Feed(SeqIter):
    """Texts from anywhere: the source may fail before any of them."""

    def next(self, ex, st, g):
        ex.exc.append((st.copy(), Exc("any", "the source of the texts fails")))
        return SeqIter.next(self, ex, st, g)
