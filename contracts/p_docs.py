"""Documents of a query (C03) and the windows around their features (P03)."""
from contracts.o_samples import *
from contracts.b_sets import _S, _G, _x, _y, _d, _n, _a
from contracts.b_db import _stored
from dv.corpusapi import CorpusAPI, content, html, row

FOUND = T.TTup(T.TInt, T.TVal, T.TVal)
ROWS = T.TTup(T.TVal, T.TVal)


def ids_of(r, col=0):
    j = T.fresh("j", I_)
    return T.lam(j, r[j][col])


def _each_once(c, r, q, of, n):
    """every document of the query once, with its own key and content"""
    t, j, d = c.table("doc_key"), T.fresh("j", I_), T.fresh("d", I_)
    inr = And(0 <= j, j < n)
    E = elems(ids_of(r), n)
    return [("only documents of the query", ForAll([j], Implies(inr, And(q[r[j][0]], t.has(r[j][0]))), patterns=[r.arr[j]])),
            ("each with its key", ForAll([j], Implies(inr, r[j][1] == t.col(r[j][0], "doc_key")), patterns=[r.arr[j]])),
            ("each with its content", ForAll([j], Implies(inr, r[j][2] == of(r[j][1])), patterns=[r.arr[j]]))]


def _docs_post(of):
    def post(c):
        r, q, d = c.result, wanted_docs(c), T.fresh("d", I_)
        E = elems(ids_of(r), r.len)
        return _each_once(c, r, q, of, r.len) + [("as many as there are documents in the query", r.len == card(q)),
                                                 ("every document of the query", ForAll([d], Implies(q[d], E[d]), patterns=[q[d]]))]
    return post


def wanted_docs(c):
    return c.query.t


def _id_inv(c):
    r, ks, j = c.yielded, c.keys, T.fresh("j", I_)
    it = c.items
    if r is EMPTY:
        return [c.g.i == 0]
    inr = And(0 <= j, j < r.len)
    return [r.len == c.g.i,
            ForAll([j], Implies(inr, And(r[j][1] == it[j][0], r[j][2] == it[j][1], r[j][0] == ks[it[j][0]])), patterns=[r.arr[j], it.arr[j]])]


REG.add(DBContract("index.Index.docs", {"self": IDX, "query": BITMAP}, db=["doc_key"], exts=(CorpusAPI,), requires=_stored, ensures=_docs_post(content),
                   types={"yield": T.TSeq(FOUND)}, returns=LIST(FOUND), loops={0: Loop(_id_inv)}, uses=[elem_lemma, elems_ext]), "C03")


# ------------------------------------------------------------------ rendering, of all documents of a query or of a sample
def _sample_facts(c, ids, n):
    q, size = c.query.t, c.raw_var("random_sample_size")
    d = T.fresh("d", I_)
    E = elems(ids, n)
    out = [("only documents of the query", ForAll([d], Implies(E[d], q[d]), patterns=[E[d]])), ("each once", card(E) == n)]
    if size is NONE:
        return out + [("every document of the query", ForAll([d], Implies(q[d], E[d]), patterns=[q[d]]))]
    k = c.random_sample_size
    return out + [("every document of a small query", Implies(card(q) <= k, ForAll([d], Implies(q[d], E[d]), patterns=[q[d]]))),
                  ("as many as asked for of a large one", Implies(card(q) > k, n == k))]


def _html_post(c):
    r, t, j = c.result, c.table("doc_key"), T.fresh("j", I_)
    inr = And(0 <= j, j < r.len)
    return [("each with its key", ForAll([j], Implies(inr, And(t.has(r[j][0]), r[j][1] == t.col(r[j][0], "doc_key"))), patterns=[r.arr[j]])),
            ("each with its content", ForAll([j], Implies(inr, r[j][2] == html(r[j][1])), patterns=[r.arr[j]]))] + _sample_facts(c, ids_of(r), r.len)


def _html_hints(c):
    r = c.result
    j, d = T.fresh("j", I_), T.fresh("d", I_)
    n, ks = r.len, c.doc_keys
    q = c.value(c._st.lookup(c._fid, "query")).t
    A = ids_of(r)
    E = elems(A, n)
    inr = And(0 <= j, j < n)
    return [n == card(q),
            ForAll([j], Implies(inr, And(A[j] == ks[r[j][1]], q[A[j]])), patterns=[A[j]]),
            ForAll([d], Implies(E[d], q[d]), patterns=[E[d]]), ForAll([d], Implies(q[d], E[d]), patterns=[q[d]]), E == q]


SAMPLING = [{"random_sample_size": NONEP}, {"random_sample_size": INT}]


def _sampling_requires(c):
    size = c.raw_var("random_sample_size")
    return _stored(c) + ([] if size is NONE else [("the sample size is not negative", c.random_sample_size >= 0)])


REG.add(DBContract("index.Index.render_docs_html", {"self": IDX, "query": BITMAP, "random_sample_size": NONEP}, db=["doc_key"], exts=(CorpusAPI, Par), cases=SAMPLING,
                   requires=_sampling_requires, ensures=_html_post, hints=_html_hints, returns=LIST(FOUND), uses=[elem_lemma, elems_ext]), "C03")

id_of = z3.Function("id_of_key", z3.ArraySort(I_, T.Val), SET, T.Val, I_)      # a document of the set with this key
_K, _kv = z3.Const("K", z3.ArraySort(I_, T.Val)), z3.Const("kv", T.Val)
_io = id_of(_K, _S, _kv)
T.axiom([id_of], ForAll([_K, _S, _d], Implies(_S[_d], And(_S[id_of(_K, _S, _K[_d])], _K[id_of(_K, _S, _K[_d])] == _K[_d])), patterns=[MultiPattern(id_of(_K, _S, _K[_d]), _S[_d])]),
        "choice of the document of a key")


def row_ids(c, r):
    """the documents whose keys the rows carry"""
    t, j, d = c.table("doc_key"), T.fresh("j", I_), T.fresh("d", I_)
    return T.lam(j, id_of(T.lam(d, t.col(d, "doc_key")), c.query.t, r[j][0]))


def _table_post(c):
    r, t, j = c.result, c.table("doc_key"), T.fresh("j", I_)
    A = row_ids(c, r)
    inr = And(0 <= j, j < r.len)
    return [("each key is that of its document", ForAll([j], Implies(inr, And(t.has(A[j]), r[j][0] == t.col(A[j], "doc_key"))), patterns=[r.arr[j]])),
            ("each with its content", ForAll([j], Implies(inr, r[j][1] == row(r[j][0])), patterns=[r.arr[j]]))] + _sample_facts(c, A, r.len)


def _table_hints(c):
    r, t = c.result, c.table("doc_key")
    j, d = T.fresh("j", I_), T.fresh("d", I_)
    n, ks = r.len, c.doc_keys
    q, q0 = c.value(c._st.lookup(c._fid, "query")).t, c.query.t
    A = row_ids(c, r)
    K = T.lam(d, t.col(d, "doc_key"))
    E = elems(A, n)
    inr = And(0 <= j, j < n)
    return [n == card(q),
            ForAll([d], K[d] == t.col(d, "doc_key"), patterns=[K[d]]),
            ForAll([j], Implies(inr, And(q[ks[r[j][0]]], t.has(ks[r[j][0]]), q0[ks[r[j][0]]], K[ks[r[j][0]]] == r[j][0])), patterns=[r.arr[j]]),
            ForAll([j], Implies(inr, And(q0[A[j]], K[A[j]] == r[j][0])), patterns=[A[j]]),
            ForAll([j], Implies(inr, A[j] == ks[r[j][0]]), patterns=[A[j]]),
            ForAll([d], Implies(E[d], q[d]), patterns=[E[d]]), ForAll([d], Implies(q[d], E[d]), patterns=[q[d]]), E == q]


REG.add(DBContract("index.Index.render_docs_table", {"self": IDX, "query": BITMAP, "random_sample_size": NONEP}, db=["doc_key"], exts=(CorpusAPI, Par), cases=SAMPLING,
                   requires=_sampling_requires, ensures=_table_post, hints=_table_hints, returns=LIST(ROWS), uses=[elem_lemma, elems_ext]), "C03")
