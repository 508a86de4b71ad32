"""A corpus as the index uses it: documents are retrieved by key, in the order of the keys given (what K01 proves of
the plain text corpus and any corpus has to provide); what a document contains is a function of its key."""
import z3

from . import comps
from . import theory as T
from .values import *
from .engine import SeqIter
from .libs import Ext

content, html, row = (z3.Function(n, T.Val, T.Val) for n in ("content_of", "html_of", "row_of"))
ITEM = T.TTup(T.TVal, T.TVal)
in_doc = z3.Function("field_in_document", T.Val, T.Val, z3.BoolSort())       # does the document have the field
is_seq = z3.Function("field_is_sequence", T.Val, T.Val, z3.BoolSort())       # and are its values a sequence (or a set)
SEQ, VSET = T.TSeq(T.TVal), T.TSet(T.TVal)
seq_of = z3.Function("sequence_of", T.Val, T.Val, SEQ.sort)
set_of = z3.Function("set_of", T.Val, T.Val, VSET.sort)
METHODS = {"docs": content, "render_docs_html": html, "render_docs_table": row}


joined = z3.Function("joined_values", T.Val, SEQ.sort, T.Val)       # the values of the list that are not None, joined by the text


class CorpusAPI(Ext):
    null_values = True

    def __init__(self, repo):
        pass

    def attribute(self, ex, st, v, name):
        if isinstance(v, Obj) and v.cls == "index.Index" and name == "corpus":
            if (v.oid, "corpus") not in st.attrs:
                st.attrs[(v.oid, "corpus")] = Obj("any corpus", newid())
            return [(st, st.attrs[(v.oid, "corpus")])]
        if isinstance(v, Sc) and v.ty == T.TVal and name == "join":
            return [(st, Bi("value.join", v))]
        if isinstance(v, Obj) and v.cls == "indexed document" and name == "get":
            return [(st, Bi("indexed.get", v))]
        if isinstance(v, Obj) and v.cls == "any corpus" and (name in METHODS or name == "index"):
            return [(st, Bi("corpus." + name, v))]
        return None

    def call(self, ex, st, f, args, kw, node):
        if f.name == "corpus.index" and len(args) == 1 and not kw:
            ex.assumptions.add("a corpus turns a document into fields of values (a sequence or a set), the same each time")
            o = Obj("indexed document", newid())
            st.attrs[(o.oid, "of")] = Sc(T.TVal, ex.to_term(st, args[0], T.TVal))
            return [(st, o)]
        if f.name == "value.join" and len(args) == 1 and isinstance(args[0], ItV):
            return self.join(ex, st, f.recv, args[0].it)
        if f.name == "indexed.get" and len(args) == 2 and not kw:
            doc, field = st.attrs[(f.recv.oid, "of")].t, ex.to_term(st, args[0], T.TVal)
            out = []
            for s, there in ex.split(st, in_doc(doc, field)):
                if not there:
                    out.append((s, args[1]))
                    continue
                for s2, seq in ex.split(s, is_seq(doc, field)):
                    ty, t, kind = (SEQ, seq_of(doc, field), "list") if seq else (VSET, set_of(doc, field), "set")
                    s2.assume(*T.type_inv(t, ty))
                    out.append((s2, s2.alloc(ty, t, kind)))
            return out
        if not f.name.startswith("corpus.") or f.name[7:] not in METHODS:
            return None
        keys = args[0] if args else kw.get("doc_keys")
        if len(args) + len(kw) != 1 or keys is None or keys is NONE:
            raise Unsupported("retrieval of other than given keys")
        ex.assumptions.add("a corpus returns the documents of the keys given, in their order (proved for the plain text corpus under K01)")
        of = METHODS[f.name[7:]]
        out = []
        for s, lst in ex.libs.b_list(ex, st, [keys], {}):
            if isinstance(lst, Lst):
                raise Unsupported("retrieval of a display")
            if s.ty(lst) is None:
                raise Unsupported("retrieval of nothing")
            kty, ks = s.ty(lst), s.term(lst)
            if kty.el != T.TVal:
                raise Unsupported("keys that are not keys")
            ty = T.TSeq(ITEM)
            r = T.fresh("retrieved", ty.sort)
            i = T.fresh("i", z3.IntSort())
            k = kty.at(ks, i)
            s.assume(ty.len(r) == kty.len(ks), ty.len(r) >= 0)
            s.assume(z3.ForAll([i], z3.Implies(z3.And(0 <= i, i < ty.len(r)), ty.at(r, i) == ITEM.mk(k, of(k))), patterns=[ty.at(r, i)]))
            s.assume(z3.ForAll([i], z3.Implies(z3.And(0 <= i, i < ty.len(r)), ty.at(r, i) == ITEM.mk(k, of(k))), patterns=[k]))
            s.tag = dict(s.tag, retrieved=(lst, r))
            ref = s.alloc(ty, r, "list")
            out.append((s, ItV(SeqIter(ref)) if f.name == "corpus.docs" else ref))
        return out

    def join(self, ex, st, sep, it):
        """the joining of exactly the values of a list that are not None"""
        base = getattr(it, "base", None)
        if not isinstance(base, SeqIter) or base.rev or base.start is not None or st.ty(base.ref) != SEQ:
            raise Unsupported("text joined from other than a list of values")
        seq = st.term(base.ref)
        L, ty = comps.lift(ex, st, it)
        if len(L.vs) != 1 or len(L.cases) != 1 or ty != T.TVal:
            raise Unsupported("text joined from other than values")
        v, (c, t) = SEQ.at(seq, L.vs[0]), L.cases[0]
        good = z3.And((L.hyps[0] == (v != T.VNONE)), z3.Implies(c, t == v))
        if not ex.infeasible(st, [L.cond, z3.Not(good)]):
            raise Unsupported("text joined from other than the values that are not None")
        ex.assumptions.add("the joined values are text")
        return [(st, Sc(T.TVal, joined(sep.t, seq)))]
