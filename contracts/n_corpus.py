"""The plain text corpus (K01)."""
import ast

from contracts.m_near import *
from contracts.b_sets import _S, _G, _x, _y, _d, _n, _a
from dv.corpusdb import CorpusDB, Feed, CORPUS
from dv.values import *

def _corpus(ex, st, name):
    o = Obj(CORPUS, newid())
    st.attrs[(o.oid, "db")] = Obj("sqlite", newid())
    st.attrs[(o.oid, "tokeniser")] = Obj("tokeniser", newid())
    return o


SELF = P(None, make=_corpus, label="a corpus")


def _feed(ex, st, name):
    ty = T.TSeq(T.TVal)
    t = T.fresh(name, ty.sort)
    st.assume(*T.type_inv(t, ty))
    return ItV(Feed(st.alloc(ty, t, "list")))


class CorpusContract(Contract):
    def __init__(self, qual, params, db=("doc",), **kw):
        Contract.__init__(self, qual, params, exts=(CorpusDB,), **kw)
        self.setup = lambda ex, st: top(ex, st, db)


def released(c):
    return [("the savepoint is released", BoolVal(c._st.tag.get("savepoints", ()) == ()))]


def stored(c, n, texts):
    t, k = c.table("doc"), T.fresh("k", I_)
    return [("the documents are numbered from one", ForAll([k], t.has(k) == And(1 <= k, k <= n), patterns=[t.has(k)])),
            ("each is the text at its place", ForAll([k], Implies(And(1 <= k, k <= n), t.col(k, "text") == texts[k - 1]), patterns=[t.col(k, "text")]))]


def replaced(c):
    t = c.table("doc")
    return stored(c, c.texts.len, c.texts) + released(c) + [("the replacement is committed", c._st.tag["committed"]["doc"] == t.t)]


def kept(c):
    tabs = c._st.tag["db"]
    if "doc" not in c.old._st.tag["db"]:
        return [("there is still no table", BoolVal("doc" not in tabs))] + released(c)
    return [("the table is there", BoolVal("doc" in tabs)), ("the old documents are there", c.table("doc").t == c.old.table("doc").t if "doc" in tabs else BoolVal(False)),
            ("nothing else was committed", c._st.tag["committed"]["doc"] == c.old.table("doc").t)] + released(c)


def _replace_inv(c):
    return [g for _, g in stored(c, c.g.i, c.texts)]


for q, db in (("", ("doc",)), (":first", ())):
    REG.add(CorpusContract(CORPUS + ".replace_docs" + q, {"self": SELF, "texts": P(None, make=_feed, label="texts")}, db=db, ensures=replaced, writes=db,
                           raises=[("any", None)], on_raise=kept, loops={("sql", 0): Loop(_replace_inv)},
                           node=lambda rp: rp.funcs[CORPUS + ".replace_docs"]), "K01")

# ------------------------------------------------------------------ retrieval
DOC = T.TRec(("doc_id", "text"), (T.TInt, T.TVal))
PAIRS = T.TSeq(T.TTup(T.TInt, DOC))


def missing(t, keys):
    """some key is not in the table"""
    j = T.fresh("j", I_)
    return Exists([j], And(0 <= j, j < keys.len, Not(t.has(keys[j]))))


def keys_of(r):
    j = T.fresh("j", I_)
    return T.lam(j, r[j][0])


def paired(c, r, upto):
    """every document comes with its key and its own text"""
    t, j = c.table("doc"), T.fresh("j", I_)
    inr = And(0 <= j, j < upto)
    pat = [r.arr[j]]
    return [("the document has the key", ForAll([j], Implies(inr, r[j][1]["doc_id"] == r[j][0]), patterns=pat)),
            ("the key is stored", ForAll([j], Implies(inr, t.has(r[j][0])), patterns=pat)),
            ("the document has the text stored under the key", ForAll([j], Implies(inr, r[j][1]["text"] == t.col(r[j][0], "text")), patterns=pat))]


def retrieved(c):
    r, keys = c.result, c.raw_var("doc_keys")
    out = paired(c, r, r.len) + released(c)
    if keys is NONE:
        dom = c.table("doc").dom
        return out + [("as many as there are documents", r.len == ith.card(dom)), ("every document is there", elems(keys_of(r), r.len) == dom)]
    j = T.fresh("j", I_)
    return out + [("as many as there are keys", r.len == c.doc_keys.len),
                  ("in the order of the keys", ForAll([j], Implies(And(0 <= j, j < r.len), r[j][0] == c.doc_keys[j]), patterns=[r.arr[j]]))]


def _docs_inv(c):
    r = c.yielded
    n = 0 if r is EMPTY else r.len
    out = [n == c.g.i] if r is not EMPTY else [c.g.i == 0]
    if r is EMPTY:
        return out
    out += [g for _, g in paired(c, r, r.len)]
    keys = c.raw_var("doc_keys")
    if "done" in c.g._g:
        return out + [elems(keys_of(r), r.len) == c.g.done]
    j = T.fresh("j", I_)
    return out + [ForAll([j], Implies(And(0 <= j, j < r.len), r[j][0] == c.doc_keys[j]), patterns=[r.arr[j]])]


def _docs_steps(c):
    r = c.yielded
    if r is EMPTY or "done" not in c.g._g:
        return []
    k, E = T.fresh("k", I_), elems(keys_of(r), r.len)
    return [ForAll([k], Implies(E[k], c.g.done[k]), patterns=[E[k]]), ForAll([k], Implies(c.g.done[k], E[k]), patterns=[c.g.done[k]])]


def failed_retrieval(c):
    out = released(c)
    if c.exc.cls == "IndexError":
        out.append(("only for a key that is not stored", BoolVal(False) if c.raw_var("doc_keys") is NONE else missing(c.table("doc"), c.doc_keys)))
    return out


REG.add(CorpusContract(CORPUS + ".docs", {"self": SELF, "doc_keys": LIST(T.TInt)}, cases=[{"doc_keys": LIST(T.TInt)}, {"doc_keys": NONEP}],
                       ensures=retrieved, types={"yield": PAIRS}, raises=[("any", None)], on_raise=failed_retrieval,
                       returns=P(PAIRS), loops={0: Loop(_docs_inv, steps=_docs_steps)}, uses=[elem_lemma, elems_ext]), "K01")


def listing(c):
    """the keys: every document once"""
    r, dom = c.result, c.table("doc").dom
    k, E = T.fresh("k", I_), elems(r.arr, r.len)
    return [("as many keys as documents", r.len == ith.card(dom)), ("only stored keys", ForAll([k], Implies(E[k], dom[k]), patterns=[E[k]])),
            ("every stored key", ForAll([k], Implies(dom[k], E[k]), patterns=[dom[k]]))]


REG.add(CorpusContract(CORPUS + ".keys:listed", {"self": SELF}, node=ast.parse("def use(self):\n    return list(self.keys())").body[0], returns=LIST(T.TInt),
                       ensures=listing, raises=[("any", None)], uses=[elem_lemma, elems_ext]), "K01")


def rendered(content):
    def post(c):
        """what docs() returns, with the content alone"""
        r, d = c.result, c.call(CORPUS + ".docs")
        t, j = c.table("doc"), T.fresh("j", I_)
        inr = And(0 <= j, j < r.len)
        out = [("the key is stored", ForAll([j], Implies(inr, t.has(r[j][0])), patterns=[r.arr[j]])),
               ("the text stored under the key", ForAll([j], Implies(inr, content(r[j][1]) == t.col(r[j][0], "text")), patterns=[r.arr[j]]))] + released(c)
        if c.raw_var("doc_keys") is NONE:
            return out + [("as many as there are documents", r.len == ith.card(t.dom))]
        return out + [("one for each key", r.len == c.doc_keys.len),
                      ("in the order of the keys", ForAll([j], Implies(inr, r[j][0] == c.doc_keys[j]), patterns=[r.arr[j]]))]
    return post


CELL = T.TRec(("text",), (T.TVal,))
for q, ty, content in (("render_docs_html", T.TVal, lambda w: w), ("render_docs_table", CELL, lambda w: w["text"])):
    REG.add(CorpusContract(CORPUS + "." + q, {"self": SELF, "doc_keys": LIST(T.TInt)}, cases=[{"doc_keys": LIST(T.TInt)}, {"doc_keys": NONEP}],
                           returns=LIST(T.TTup(T.TInt, ty)), ensures=rendered(content), raises=[("any", None)], on_raise=released), "K01")
