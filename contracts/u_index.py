"""A whole indexing run (C01, C02, C03, C04): the index says what the corpus says, and a failed run changes nothing."""
from contracts.t_batch import *
from contracts.g_model import *
from contracts.b_sets import _S, _G, _x, _y, _d, _n, _a
from dv.indexer import Indexer, DISPATCHED, OWNER, DONE, FUT, TEMP, family_union

MAIN = ["doc_key", "inverted_index", "position_doc_map", "position_index", "cluster", "feature_cluster", "changed_cluster"]
PDM, PI = TABLES["position_doc_map"], TABLES["position_index"]
DKT = TABLES["doc_key"]
KEYS = T.TSeq(T.TVal)


def the_run(ex, st):
    uses_tables(*MAIN)(ex, st)
    keys = T.fresh("keys", KEYS.sort)
    i = T.fresh("i", I_)
    at = KEYS.at(keys, i)
    st.assume(KEYS.len(keys) >= 0, distinct(KEYS.arr(keys), KEYS.len(keys)), ForAll([i], Implies(And(0 <= i, i < KEYS.len(keys)), keyof(i) == at), patterns=[at]))
    st.assume(ForAll([i], Implies(And(0 <= i, i < KEYS.len(keys)), keyof(i) == at), patterns=[keyof(i)]))
    ghost = {}
    for n, ty in (("dispatched", DISPATCHED), ("owner", OWNER), ("done", DONE)):
        t = T.fresh(n, ty.sort)
        st.assume((ty.dom(t) if ty is not DONE else t) == vth0(ty))
        ghost[n] = st.alloc(ty, t)
    st.tag = dict(st.tag, keys=keys, inside=T.fresh("inside_transaction", z3.BoolSort()), txn=False, fk=True, apart={"field_summary"}, guarantee=guarantee, witness={"inverted_index": _merged_features, "changed_cluster": _all_marked, "position_index": _placed_features},
                  committed={n: st.term(r) for n, r in st.tag["db"].items()}, **ghost)


def vth0(ty):
    return T.set_theory(T.TInt).empty


def index_of(ex, st, name):
    o = Obj("index.Index", newid())
    c = Obj("any corpus", newid())
    st.attrs[(o.oid, "corpus")] = c
    st.tag = dict(st.tag, corpus=c)
    return o


def ghost(c, name):
    r = c._st.tag[name]
    return W(c._st.ty(r), c._st.term(r))


def keys_of(c):
    return W(KEYS, c._st.tag["keys"])


def merge(c, facts, lo):
    """facts of one batch, of every batch that was dispatched"""
    d = ghost(c, "dispatched")
    out = []
    for lab, vs, g, pat in facts:
        has_lo = any(z3.eq(x, lo) for x in subterms(pat))
        out.append(ForAll([lo] + vs, Implies(d.has(lo), g), patterns=[pat if has_lo else MultiPattern(d.has(lo), pat)]))
    return out


def subterms(t):
    yield t
    for x in t.children():
        yield from subterms(x)


def guarantee(c):
    """what the contract of a batch says of the rows of every batch"""
    lo = T.fresh("lo", I_)
    hi = ghost(c, "dispatched")[lo]
    seg, bp = c.table("inverted_index_segment"), c.table("batch_position")
    pos = z3.is_true(z3.simplify(c._st.tag["positional"]))
    return merge(c, postings(seg, lo, hi) + placed(seg, lo, hi, pos) + delimited(bp, lo, hi, pos), lo)


def partition(c, upto):
    """the documents before upto are in exactly one dispatched batch each"""
    d, o = ghost(c, "dispatched"), ghost(c, "owner")
    x, lo = T.fresh("x", I_), T.fresh("lo", I_)
    return [ForAll([x], o.has(x) == And(0 <= x, x < upto), patterns=[o.has(x)]),
            ForAll([x], Implies(o.has(x), And(d.has(o[x]), o[x] <= x, x < d[o[x]])), patterns=[o.has(x)]),
            ForAll([lo], Implies(d.has(lo), And(0 <= lo, lo < d[lo], d[lo] <= upto)), patterns=[d.has(lo)]),
            ForAll([lo, x], Implies(And(d.has(lo), lo <= x, x < d[lo]), o[x] == lo), patterns=[MultiPattern(d.has(lo), o[x])])]


def waited(c, extra=None):
    """every batch is waited for, or has succeeded"""
    d, done, fut = ghost(c, "dispatched"), ghost(c, "done").t, c.futures
    lo = T.fresh("lo", I_)
    here = fut.t[FUT.mk(lo)] if fut is not EMPTY else BoolVal(False)
    x = T.fresh("x", FUT.sort)
    return [ForAll([lo], Implies(d.has(lo), Or(here, done[lo], extra(lo) if extra else False)), patterns=[d.has(lo)])]


def keyed(c, upto):
    """the documents so far are listed under their ids"""
    t, keys = c.table("doc_key"), keys_of(c)
    i = T.fresh("i", I_)
    return [ForAll([i], t.has(i) == And(0 <= i, i < upto), patterns=[t.has(i)]),
            ForAll([i], Implies(t.has(i), t.col(i, "doc_key") == keys[i]), patterns=[t.has(i)])]


def _dispatch_inv(c):
    n, keys = c.g.i, keys_of(c)
    ids, ks, j = c.batch_doc_ids, c.batch_doc_keys, T.fresh("j", I_)
    if ids is EMPTY or ks is EMPTY:
        return [n == 0, c.batch_size == 0] + partition(c, n) + waited(c) + keyed(c, n)
    lo = n - ids.len
    return [c.batch_size == ids.len, ks.len == ids.len, lo >= 0, ForAll([j], Implies(And(0 <= j, j < ids.len), ids[j] == lo + j), patterns=[ids[j]]),
            ForAll([j], Implies(And(0 <= j, j < ks.len), ks[j] == keyof(lo + j)), patterns=[ks[j]])] + partition(c, lo) + waited(c) + keyed(c, n)


def _results_inv(c):
    """in the course of collecting results"""
    done, was, got = ghost(c, "done").t, ghost(c.pre, "done").t, c.g.done
    lo = T.fresh("lo", I_)
    return [ForAll([lo], done[lo] == Or(was[lo], got[FUT.mk(lo)]), patterns=[done[lo]]), ForAll([lo], Implies(got[FUT.mk(lo)], done[lo]), patterns=[got[FUT.mk(lo)]]),
            ForAll([lo], Implies(was[lo], done[lo]), patterns=[was[lo]])]


# ------------------------------------------------------------------ the merge
SEGK = TABLES["inverted_index_segment"].kty
united, _ = family_union(SEGK)
total = T.sum_theory(SEGK, T.TInt)
_A, _GG, _N, _k1, _k2 = z3.Const("A", T.TSet(SEGK).sort), z3.Const("GG", z3.ArraySort(SEGK.sort, T.Bits.sort)), z3.Const("N", z3.ArraySort(SEGK.sort, z3.IntSort())), z3.Const("k1", SEGK.sort), z3.Const("k2", SEGK.sort)


def _disjoint_lemma():
    """sizes of sets that have nothing in common add up"""
    def premise(A, extra=True):
        return And(ForAll([_k1], Implies(A[_k1], _N[_k1] == card(_GG[_k1])), patterns=[A[_k1]]),
                   ForAll([_k1, _k2, _x], Implies(And(A[_k1], A[_k2], _GG[_k1][_x], _GG[_k2][_x]), _k1 == _k2), patterns=[MultiPattern(_GG[_k1][_x], _GG[_k2][_x])]))

    def result(A):
        return total(A, _N) == card(united(A, _GG))

    def fact():
        return ForAll([_A, _GG, _N], Implies(premise(_A), result(_A)), patterns=[MultiPattern(total(_A, _N), united(_A, _GG))])

    def obligations():
        e = T.set_theory(SEGK).empty
        k = z3.Const("new", SEGK.sort)
        A1 = z3.Store(_A, k, BoolVal(True))
        u = united(_A, _GG)
        yield "base", [], result(e)
        yield "step: nothing in common", [Not(_A[k]), premise(A1)], th.inter(u, _GG[k]) == th.empty
        yield "step: the rest is as required", [Not(_A[k]), premise(A1)], premise(_A)
        yield "step", [Not(_A[k]), premise(A1), A1[k], result(_A), th.inter(u, _GG[k]) == th.empty], result(A1)
    return REG.lemma(Lemma("sizes of disjoint sets add up", fact, obligations), "C01")


disjoint_lemma = _disjoint_lemma()


def _merged_features(c):
    """every value of every document has found its way into its feature"""
    seg, t, d, o = c.table("inverted_index_segment"), c.table("inverted_index"), ghost(c, "dispatched"), ghost(c, "owner")
    gty, grp, mem, _ = c._st.tag["groups"]
    src, key_at, of, row = c._st.tag["inserted:inverted_index"]
    x, fld, val, f = T.fresh("x", I_), T.fresh("fld", T.Val), T.fresh("val", T.Val), T.fresh("f", I_)
    g, k = gty.mk(fld, val), SEGK.mk(fld, val, o[x])
    here = inside(x, fld, val)
    held = And(0 <= x, x < keys_of(c).len, here)
    every = lambda body: ForAll([x, fld, val], Implies(held, body), patterns=[here])
    cov = o.has(x)
    k1, k2 = T.fresh("k1", SEGK.sort), T.fresh("k2", SEGK.sort)
    G, D = seg.col(k1, "doc_ids").t, seg.col(k2, "doc_ids").t
    g0 = T.fresh("g", gty.sort)
    kk = key_at(g)
    return [("every document is in a batch", every(And(cov, d.has(o[x]), o[x] <= x, x < d[o[x]]))),
            ("its batch has its values", every(And(seg.has(k), seg.col(k, "doc_ids").t[x]))),
            ("they belong to a group", every(And(mem(g)[k], grp[g]))),
            ("which has a feature", every(And(t.has(kk), t.col(kk, "field") == fld, t.col(kk, "value") == val))),
            ("that lists the document", every(t.col(kk, "doc_ids").t[x])),
            ("no two batches share a document", ForAll([g0, k1, k2, x], Implies(And(mem(g0)[k1], mem(g0)[k2], G[x], D[x]), k1 == k2), patterns=[MultiPattern(mem(g0)[k1], mem(g0)[k2], G[x], D[x])])),
            ("groups add up", ForAll([g0], Implies(grp[g0], t.col(key_at(g0), "docs_count") == card(t.col(key_at(g0), "doc_ids").t)), patterns=[key_at(g0)]))] + documents(c)


def _all_marked(c):
    cl, ch, k = c.table("cluster"), c.table("changed_cluster"), T.fresh("k", I_)
    return [("every cluster is marked", ForAll([k], Implies(cl.has(k), ch.has(k)), patterns=[cl.has(k)])), ("definition", T.unfold(tracked_term(c)))] + tracked(c)


# ------------------------------------------------------------------ what a run guarantees
def ii_unique(c):
    t, a, b = c.table("inverted_index"), T.fresh("a", I_), T.fresh("b", I_)
    same = And(t.has(a), t.has(b), t.col(a, "field") == t.col(b, "field"), t.col(a, "value") == t.col(b, "value"))
    return ForAll([a, b], Implies(same, a == b), patterns=[MultiPattern(t.has(a), t.has(b))])


def documents(c):
    t, n = c.table("inverted_index"), keys_of(c).len
    f, x, fld, val = T.fresh("f", I_), T.fresh("x", I_), T.fresh("fld", T.Val), T.fresh("val", T.Val)
    D = t.col(f, "doc_ids").t
    here = inside(x, t.col(f, "field"), t.col(f, "value"))
    return [("a feature lists only documents that have the value", ForAll([f, x], Implies(And(t.has(f), D[x]), And(0 <= x, x < n, here)), patterns=[D[x]])),
            ("a feature lists every document that has the value", ForAll([f, x], Implies(And(t.has(f), 0 <= x, x < n, here), D[x]), patterns=[MultiPattern(t.has(f), here)])),
            ("every value of a document is a feature", ForAll([x, fld, val], Implies(And(0 <= x, x < n, inside(x, fld, val)), Exists([f], And(t.has(f), t.col(f, "field") == fld, t.col(f, "value") == val), patterns=[t.has(f)])),
                                                              patterns=[inside(x, fld, val)])),
            ("the counts are the numbers of documents", ForAll([f], Implies(t.has(f), t.col(f, "docs_count") == card(D)), patterns=[t.has(f)])),
            ("no two features for one value", ii_unique(c))]


def positions(c):
    """the positions and the boundaries of documents that are stored are those of the batches, for features instead of pairs"""
    t, pi, bd = c.table("inverted_index"), c.table("position_index"), c.table("position_doc_map")
    pos = z3.is_true(z3.simplify(c._st.tag["positional"]))
    d = ghost(c, "dispatched")
    f, lo, p, fld = T.fresh("f", I_), T.fresh("lo", I_), T.fresh("p", I_), T.fresh("fld", T.Val)
    k, kb = PI.kty.mk(f, lo), PDM.kty.mk(fld, lo)
    if not pos:
        return [("no positions", ForAll([f, lo], Not(pi.has(k)), patterns=[pi.has(k)])), ("no boundaries", ForAll([fld, lo], Not(bd.has(kb)), patterns=[bd.has(kb)]))]
    o = pi.col(k, "positions")
    P_ = o.ty.val(o.t)
    fl, vl = t.col(f, "field"), t.col(f, "value")
    val = valueat(lo, fl, p)
    fv = valueat(lo, fld, p)
    rows = [("positions belong to a batch and a feature", And(t.has(f), d.has(lo), Not(o.ty.is_none(o.t)), pi.col(k, "position_count") == card(P_), card(P_) > 0))]
    out = [(lab, ForAll([f, lo], Implies(pi.has(k), g), patterns=[pi.has(k)])) for lab, g in rows]
    out += [("a position stands for one place of one document, with the feature's value", ForAll([f, lo, p], Implies(And(pi.has(k), P_[p]), And(0 <= p, p < start(lo, d[lo], fl), val == vl)), patterns=[P_[p]])),
            ("every place has its position", ForAll([f, lo, p], Implies(And(d.has(lo), 0 <= p, p < start(lo, d[lo], fl), t.has(f), vl == val), And(pi.has(k), P_[p])), patterns=[MultiPattern(d.has(lo), t.has(f), val)])),
            ("every value at a place is a feature", ForAll([lo, fld, p], Implies(And(d.has(lo), 0 <= p, p < start(lo, d[lo], fld)), Exists([f], And(t.has(f), fl == fld, vl == fv), patterns=[t.has(f)])), patterns=[MultiPattern(d.has(lo), fv)])),
            ("boundaries belong to a batch", ForAll([fld, lo], Implies(bd.has(kb), d.has(lo)), patterns=[bd.has(kb)]))]
    hi = d[lo]
    out += [(f"boundaries: {lab}", g) for (lab, _, _, _), g in zip(delimited(bd, lo, hi, pos, "doc_boundaries", PDM), merge(c, delimited(bd, lo, hi, pos, "doc_boundaries", PDM), lo))]
    return out + [(f"batches: {k}", g) for k, g in enumerate(partition(c, keys_of(c).len))]


def _placed_features(c):
    """every place of every batch has found its way into its feature"""
    t, pi, seg = c.table("inverted_index"), c.table("position_index"), c.table("inverted_index_segment")
    if not z3.is_true(z3.simplify(c._st.tag["positional"])):
        return []
    d = ghost(c, "dispatched")
    gty, grp, mem, _ = c._st.tag["groups"]
    src, key_at, of, row = c._st.tag["inserted:inverted_index"]
    lo, p, fld = T.fresh("lo", I_), T.fresh("p", I_), T.fresh("fld", T.Val)
    val = valueat(lo, fld, p)
    k, g = SEGK.mk(fld, val, lo), gty.mk(fld, val)
    f = key_at(g)
    o, oo = seg.col(k, "positions"), pi.col(PI.kty.mk(f, lo), "positions")
    every = lambda body: ForAll([lo, fld, p], Implies(And(d.has(lo), 0 <= p, p < start(lo, d[lo], fld)), body), patterns=[MultiPattern(d.has(lo), val)])
    return [("its batch has the place", every(And(seg.has(k), Not(o.ty.is_none(o.t)), o.ty.val(o.t)[p]))),
            ("the value is a feature", every(And(mem(g)[k], grp[g], t.has(f), t.col(f, "field") == fld, t.col(f, "value") == val))),
            ("which has the place", every(And(pi.has(PI.kty.mk(f, lo)), oo.ty.val(oo.t)[p])))]


def numbered(c):
    t, keys, i = c.table("doc_key"), keys_of(c), T.fresh("i", I_)
    return [("the documents are numbered in the order of the corpus", ForAll([i], t.has(i) == And(0 <= i, i < keys.len), patterns=[t.has(i)])),
            ("each id has its key", ForAll([i], Implies(t.has(i), t.col(i, "doc_key") == keys[i]), patterns=[t.has(i)]))]


def preserved(c):
    a, b, f = c.old.table("inverted_index"), c.table("inverted_index"), T.fresh("f", I_)
    fa, fb = c.old.table("feature_cluster"), c.table("feature_cluster")
    return [("features keep their ids", ForAll([f], Implies(a.has(f), And(b.has(f), b.col(f, "field") == a.col(f, "field"), b.col(f, "value") == a.col(f, "value"))), patterns=[a.has(f)])),
            ("the same features are assigned", ForAll([f], fb.has(f) == fa.has(f), patterns=[fb.has(f)])),
            ("to the same clusters, with the same pins", ForAll([f], Implies(fb.has(f), And(fb.col(f, "cluster_id") == fa.col(f, "cluster_id"), fb.col(f, "pinned") == fa.col(f, "pinned"))), patterns=[fb.has(f)]))]


def settled_here(c):
    ch, k = c.table("changed_cluster"), T.fresh("k", I_)
    return links(c) + [("no cluster is marked", ForAll([k], Not(ch.has(k)), patterns=[ch.has(k)]))] + tracked(c)


def ended(c):
    return [("the foreign keys are enforced again", BoolVal(c._st.tag["fk"])), ("no transaction is left open", BoolVal(not c._st.tag["txn"])),
            ("the temporary files are removed", BoolVal(c._st.tag.get("tempdirs", 0) == 0)), ("the temporary database is detached", BoolVal(not c._st.tag.get("attached")))]


def all_committed(c):
    return [(f"{n} is committed", c._st.tag["committed"][n] == c.table(n).t) for n in MAIN]


def replaced(c):
    return documents(c) + numbered(c) + preserved(c) + positions(c)


def _index_requires(c):
    fc, ii, cl, ch = fcl(c), c.table("inverted_index"), c.table("cluster"), c.table("changed_cluster")
    f, k = T.fresh("f", I_), T.fresh("k", I_)
    return [("assigned features are indexed", ForAll([f], Implies(fc.has(f), ii.has(f)), patterns=[fc.has(f)])),
            ("clusters with features are listed", ForAll([f], Implies(fc.has(f), cl.has(fc.col(f, "cluster_id"))), patterns=[fc.has(f)])),
            ("marked clusters are listed", ForAll([k], Implies(ch.has(k), cl.has(k)), patterns=[ch.has(k)])), ("no two features for one value", ii_unique(c))]


def _failed(c):
    """a failed run leaves everything as it was, or (when only the summaries were left to do) a complete index with every cluster marked"""
    ch, cl, k = c.table("changed_cluster"), c.table("cluster"), T.fresh("k", I_)
    if c._st.tag.get("commits", 0) == 0:
        return ended(c) + all_committed_or(c) + [(f"{n} is as it was", c.table(n).t == c.old.table(n).t) for n in MAIN]
    return ended(c) + all_committed(c) + replaced(c) + [("every cluster is marked", ForAll([k], Implies(cl.has(k), ch.has(k)), patterns=[cl.has(k)]))]


def all_committed_or(c):
    return [(f"what is committed of {n} is as it was", c._st.tag["committed"][n] == c.old._st.tag["committed"][n]) for n in MAIN]


GIVEN = lambda b: {"index_positions": P(None, make=lambda ex, st, n: _asked(st, b), label="with positions" if b else "without positions")}


def _asked(st, b):
    st.tag = dict(st.tag, positional=BoolVal(b))
    return B(b)


REG.add(DBContract("index.Index.index", {"self": P(None, make=index_of), "doc_batch_size": INT, "working_dir": VAL, "workers": INT, "index_positions": BOOL},
                   db=MAIN, exts=(), cases=[GIVEN(True), GIVEN(False)], requires=_index_requires, writes=tuple(MAIN),
                   ensures=lambda c: replaced(c) + settled_here(c) + ended(c) + all_committed(c), raises=[("any", None), ("sqlite3.OperationalError", None), ("IndexingError", None)], on_raise=_failed,
                   types={"futures": T.TSet(FUT), "batch_doc_ids": T.TSeq(T.TInt), "batch_doc_keys": T.TSeq(T.TVal)}, uses=[start_lemma, disjoint_lemma],
                   loops={0: Loop(_dispatch_inv), 1: Loop(_results_inv), 2: Loop(_results_inv)}), "C01", "C02", "C03", "C04", "M01", "M04")
REG.contracts["index.Index.index"].exts = (Indexer, Indexing, Par)
REG.contracts["index.Index.index"].setup = the_run
REG.contracts["index.Index.index"].early = ("index._index_docs", "index.Index._update_changed_clusters")
