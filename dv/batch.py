"""One batch of an indexing run: the background function that writes the batch into the temporary database.

The two tables of that database have no other writer for the same batch; a table without a key is kept as a map from
the columns that tell its rows apart, and that no two rows agree on them is an obligation at every insert."""
import ast
import re

import z3

from . import theory as T
from .values import *
from .engine import SetIter
from .sql import SQL, TABLES, UNLISTED, table, tokens, I_, V_
from .theory import Bits
from .corpusapi import CorpusAPI, in_doc, is_seq, seq_of, set_of, SEQ, VSET

table("inverted_index_segment", [("field", V_), ("value", V_), ("first_doc_id", I_)],
      [("docs_count", I_), ("doc_ids", Bits), ("position_count", I_), ("positions", T.TOpt(Bits))],
      "field value docs_count doc_ids position_count positions first_doc_id")
table("batch_position", [("field", V_), ("first_doc_id", I_)],
      [("last_doc_id", I_), ("docs_count", I_), ("doc_ids", Bits), ("doc_position_starts", Bits)],
      "field first_doc_id last_doc_id docs_count doc_ids doc_position_starts")
KEYLESS = {"inverted_index_segment"}
UNLISTED |= {"inverted_index_segment", "batch_position"}


class BatchDB(SQL):
    def call(self, ex, st, f, args, kw, node):
        if f.name == "sqlite3.connect":
            if kw.get("isolation_level") is not NONE:
                raise Unsupported("a connection that manages transactions")
            return [(st, Obj("sqlite", newid()))]
        if f.name == "sql.create_aggregate":
            return [(st, NONE)]
        if f.name == "sql.execute" and isinstance(args[0], Sc) and args[0].s is not None:
            txt = " ".join(x[1] for x in tokens(args[0].s))
            m = re.match(r"create table (if not exists )?(\w+) \( (.*) \)( ;)?$", txt)
            if m and m.group(2) in TABLES:
                if not m.group(1):
                    raise Unsupported("the table of another batch may exist")
                self.same_columns(m.group(2), m.group(3))
        return SQL.call(self, ex, st, f, args, kw, node)

    def same_columns(self, name, body):
        if name not in KEYLESS:
            return self.schema.check_table(name, body)
        cols = [c.split()[0] for c in body.split(",")]
        if cols != TABLES[name].decl or "unique" in body or "primary" in body:
            raise Unsupported(f"the definition of table {name} differs from the modelled one")

    def insert(self, ex, st, mode, tn, cols, vals):
        if tn in KEYLESS and mode == "abort":
            t, ref = self.tref(st, tn)
            given = dict(zip(cols or t.decl, vals))
            k = t.kty.mk(*[ex.to_term(st, given[n], ty) for n, ty in t.pk])
            ex.oblige(st, z3.Not(t.ty.has(st.term(ref), k)), f"no two rows of {tn} for the same {', '.join(n for n, _ in t.pk)}")
            st.assume(z3.Not(t.ty.has(st.term(ref), k)))
        return SQL.insert(self, ex, st, mode, tn, cols, vals)

    def enter(self, ex, st, v):
        if isinstance(v, Obj) and v.cls == "lock":
            return [(st, v, ("lock", v))]
        return SQL.enter(self, ex, st, v)

    def exit(self, ex, st, mgr, sig):
        if isinstance(mgr, tuple) and mgr[0] == "lock":
            return [(st, sig)]
        return SQL.exit(self, ex, st, mgr, sig)


class Fields(SetIter):
    """the fields of an indexed document with their values: a sequence or a set"""

    def __init__(self, doc):
        f = T.fresh("f", T.Val)
        SetIter.__init__(self, T.lam(f, in_doc(doc, f)), VSET)
        self.doc = doc

    def next(self, ex, st, g):
        out = []
        for s, f, g2 in SetIter.next(self, ex, st, g):
            s.assume(in_doc(self.doc, f.t))
            for s2, seq in ex.split(s, is_seq(self.doc, f.t)):
                ty, t, kind = (SEQ, seq_of(self.doc, f.t), "list") if seq else (VSET, set_of(self.doc, f.t), "set")
                s2.assume(*T.type_inv(t, ty))
                out.append((s2, Tup([f, s2.alloc(ty, t, kind)]), g2))
        return out


class Indexing(CorpusAPI):
    def attribute(self, ex, st, v, name):
        if isinstance(v, Obj) and v.cls == "indexed document" and name == "items":
            return [(st, Bi("indexed.items", v))]
        return CorpusAPI.attribute(self, ex, st, v, name)

    def call(self, ex, st, f, args, kw, node):
        if f.name == "indexed.items" and not args and not kw:
            return [(st, ItV(Fields(st.attrs[(f.recv.oid, "of")].t)))]
        return CorpusAPI.call(self, ex, st, f, args, kw, node)
