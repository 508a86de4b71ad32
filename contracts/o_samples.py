"""Samples of documents (Q06)."""
from contracts.n_corpus import *
from contracts.b_sets import _S, _G, _x, _y, _d, _n, _a


def _sb_ensures(c):
    b, r, n = c.bitmap.t, c.result.t, c.random_sample_size
    return [("only members of the set", ForAll([_d], Implies(r[_d], b[_d]), patterns=[r[_d]])),
            ("all of a small set", Implies(card(b) <= n, r == b)),
            ("exactly as many as asked for", Implies(card(b) > n, card(r) == n))]


def _sb_hints(c):
    s = c._st.tag.get("lastsample")
    if s is None:
        return []
    ty, b, r = T.TSeq(T.TInt), c.bitmap.t, c.result.t
    j = T.fresh("j", I_)
    a, n = T.lam(j, T.bits().sel(b, ty.at(s, j))), ty.len(s)
    i, k = T.fresh("i", I_), T.fresh("k", I_)
    E = elems(a, n)
    inn = And(0 <= i, i < n)
    return [ForAll([i], Implies(inn, b[a[i]]), patterns=[a[i]]), ForAll([i], Implies(inn, T.bits().rank(b, a[i]) == ty.at(s, i) + 1), patterns=[a[i]]), distinct(a, n),
            card(E) == n,
            ForAll([k], Implies(E[k], r[k]), patterns=[E[k]]), ForAll([k], Implies(r[k], E[k]), patterns=[r[k]]), E == r]


REG.add(DBContract("index.Index.sample_bitmap", {"self": IDX, "bitmap": BITMAP, "random_sample_size": INT}, db=[], exts=(Par,), returns=BITMAP,
                   requires=lambda c: [("the sample size is not negative", c.random_sample_size >= 0)], ensures=_sb_ensures, hints=_sb_hints,
                   uses=[elem_lemma, distinct_count]), "Q06")


# ------------------------------------------------------------------ one sample per cluster
SAMPLES = T.TMap(T.TInt, T.Bits)
owner = z3.Function("sample_owner", SAMPLES.sort, I_, I_)    # a key under which d stands
_M = z3.Const("M", SAMPLES.sort)
_o = owner(_M, _d)
T.axiom([owner], ForAll([_M, _d, _x], Implies(And(SAMPLES.has(_M, _x), SAMPLES.at(_M, _x)[_d]), And(SAMPLES.has(_M, _o), SAMPLES.at(_M, _o)[_d])),
                        patterns=[MultiPattern(_o, SAMPLES.at(_M, _x)[_d])]), "choice of an owner")


def wanted(c):
    if c.cluster_ids is NONE or c.cluster_ids is None or not isinstance(c.cluster_ids, W):
        return lambda k: BoolVal(True)
    s = c.cluster_ids
    return lambda k: Or(s.len == 0, elems(s.arr, s.len)[k])


def place(c, k):
    a = c.all_clusters
    return elemw(first_of(a), a.len, k)


def unlimited(c, m, k):
    return Or(c.docs_per_cluster <= 0, card(m[k].t) < c.docs_per_cluster)


def _sds_facts(c, m, seen, done):
    t, n = c.table("cluster"), c.docs_per_cluster
    want = wanted(c.old)
    k, x, y, d = (T.fresh(v, I_) for v in "kxyd")
    cd = lambda q: cdocs(c, q)
    return [("samples of the wanted clusters", ForAll([k], m.has(k) == And(want(k), t.has(k), done(k)), patterns=[m.has(k)])),
            ("from the documents of the cluster", ForAll([k, d], Implies(And(m.has(k), m[k].t[d]), cd(k)[d]), patterns=[m[k].t[d]])),
            ("no larger than asked for", ForAll([k], Implies(And(m.has(k), n > 0), card(m[k].t) <= n), patterns=[m[k].t])),
            ("without replacement", ForAll([x, y, d], Implies(And(m.has(x), m.has(y), x != y), Not(And(m[x].t[d], m[y].t[d]))), patterns=[MultiPattern(m[x].t[d], m[y].t[d])]))]


def _sds_inv(c):
    i, a = c.g.i, c.all_clusters
    m, seen = c.cluster_samples, c.already_sampled.t
    if m is EMPTY:
        return [("nothing yet", And(i == 0, seen == th.empty))]
    k, y, d = (T.fresh(v, I_) for v in "kyd")
    cd = lambda q: cdocs(c, q)
    done = lambda q: place(c, q) >= a.len - i
    return [] + _sds_facts(c, m, seen, done) + [
        ("sampled documents are remembered", ForAll([k, d], Implies(And(m.has(k), m[k].t[d]), seen[d]), patterns=[m[k].t[d]])),
        ("only sampled documents are", ForAll([d], Implies(seen[d], And(m.has(owner(m.t, d)), m[owner(m.t, d)].t[d])), patterns=[seen[d]])),
        ("a small sample leaves nothing behind", ForAll([k, d], Implies(And(m.has(k), unlimited(c, m, k), cd(k)[d]), seen[d]), patterns=[MultiPattern(m[k].t, cd(k)[d])])),
        ("what it leaves was taken before", ForAll([k, y, d], Implies(And(m.has(k), unlimited(c, m, k), cd(k)[d], m.has(y), m[y].t[d]), place(c, y) >= place(c, k)),
                                                   patterns=[MultiPattern(m[k].t, cd(k)[d], m[y].t[d])]))]


def _sds_steps(c):
    m, old, d, k = c.cluster_samples, c.begun, T.fresh("d", I_), c.cluster_id
    p, was = old.cluster_samples, old.already_sampled.t
    o = owner(p.t, d)
    x, now = T.fresh("x", I_), c.already_sampled.t
    return [place(c, k) == c.all_clusters.len - c.g.i,
            Not(p.has(k)),
            ForAll([d], Implies(And(m.has(k), m[k].t[d]), Not(was[d])), patterns=[m[k].t[d]]),
            ForAll([d], now[d] == Or(was[d], And(m.has(k), m[k].t[d])), patterns=[now[d]]),
            ForAll([x], Implies(x != k, And(m.has(x) == p.has(x), Implies(p.has(x), m[x].t == p[x].t))), patterns=[m.has(x)]),
            ForAll([x], Implies(m.has(x), Or(x == k, p.has(x))), patterns=[m.has(x)]),
            ForAll([x, d], Implies(And(p.has(x), unlimited(c, p, x), cdocs(c, x)[d], m.has(k)), Not(m[k].t[d])), patterns=[MultiPattern(p[x].t, cdocs(c, x)[d])]),
            ForAll([d], Implies(was[d], And(m.has(o), m[o].t[d])), patterns=[was[d]]),
            ForAll([d], Implies(And(m.has(k), m[k].t[d]), And(m.has(owner(m.t, d)), m[owner(m.t, d)].t[d])), patterns=[m[k].t[d]]),
            ForAll([d], Implies(was[d], And(m.has(owner(m.t, d)), m[owner(m.t, d)].t[d])), patterns=[was[d]])]


def _sds_ensures(c):
    m, lab = c.result[0], c.result[1]
    t = c.table("cluster")
    k, d = T.fresh("k", I_), T.fresh("d", I_)
    cd = lambda q: cdocs(c, q)
    o = owner(m.t, d)
    cnt = lambda q: t.col(q, "docs_count")
    sampled = And(m.has(o), m[o].t[d])
    return _sds_facts(c, m, None, lambda q: BoolVal(True)) + [
        ("a document left out went to a cluster that is no larger", ForAll([k, d], Implies(And(m.has(k), unlimited(c, m, k), cd(k)[d]), And(sampled, cnt(o) <= cnt(k))), patterns=[MultiPattern(m[k].t, cd(k)[d])])),
        ("labels: only clusters", ForAll([k], Implies(lab.has(k), t.has(k)), patterns=[lab.has(k)])),
        ("labels: sampled documents of the cluster", ForAll([k, d], Implies(lab.has(k), lab[k].t[d] == And(cd(k)[d], sampled)), patterns=[lab[k].t[d]])),
        ("labels: every cluster of a sampled document", ForAll([k, d], Implies(And(t.has(k), cd(k)[d], sampled), lab.has(k)), patterns=[MultiPattern(lab.has(k), cd(k)[d])]))]


def _sds_hints(c):
    lab, t, a, k = c.result[1], c.table("cluster"), c.all_clusters, T.fresh("k", I_)
    p, seen = place(c, k), c.already_sampled.t
    e = th.inter(seen, cdocs(c, k))
    return [ForAll([k], Implies(t.has(k), And(0 <= p, p < a.len, a[p][0] == k)), patterns=[t.has(k)]),
            ForAll([k], Implies(And(t.has(k), card(e) != 0), lab.has(k)), patterns=[t.has(k)])]


REG.add(DBContract("index.Index.structured_doc_sample", {"self": IDX, "docs_per_cluster": INT, "cluster_ids": NONEP}, db=MODEL_READ,
                   returns=P(T.TTup(SAMPLES, SAMPLES)), cases=[{}, {"cluster_ids": LIST(T.TInt)}],
                   requires=lambda c: [("assigned features are indexed", fc_in_ii(c)), ("every cluster has a summary", summarised(c))],
                   types={"cluster_samples": SAMPLES},
                   ensures=_sds_ensures, hints=_sds_hints, uses=[elem_lemma], loops={0: Loop(_sds_inv, steps=_sds_steps)}), "Q06")
