"""M07 and Q01, Q03-Q06: scores and queries over a model."""
import csv
from collections import Counter

from .common import BitMap, FrozenBitMap, InlinePool, ListCorpus, ShufflePool, check, ensure, fmt, gen_docs, hindex, rows, scratch
from .h_model import State, make_index, base_index, do_edit, some, start
from .h_util import top_k_ok


def close(a, b):
    return abs(a - b) <= 1e-9 * max(1, abs(a), abs(b))


def random_query(rng, s, docs):
    n = len(docs)
    k = rng.randrange(6)
    if k == 0 and s.sets:
        q = set(s.sets[rng.choice(sorted(s.sets))])
    elif k == 1 and s.csum:
        q = set(rng.choice([x[3] for x in s.csum.values()]))
    elif k == 2:
        q = {rng.randrange(n)} if n else set()
    elif k == 3:
        q = set(range(n))
    else:
        q = {d for d in range(n) if rng.random() < 0.4}
    if rng.random() < 0.1:
        q |= {n + 5, 10**6}
    return (FrozenBitMap if rng.random() < 0.2 else BitMap)(q), q


# --------------------------------------------------------------------- M07
def objective(sets, group):
    hits = sum(len(sets[f]) for f in group)
    c = len(set().union(*(sets[f] for f in group)))
    n = len(group)
    if hits == 0:
        return 0.0
    return hits / (c + n) - hits / (hits + n)


def remove_score(sets, group, f):
    rest = group - {f}
    cov = set().union(*(sets[g] for g in rest)) if rest else set()
    if not cov:
        return 0.0
    if not cov & sets[f]:
        return -1.0
    return objective(sets, group) - objective(sets, rest)


def add_score(sets, group, f):
    cov = set().union(*(sets[g] for g in group))
    if not cov & sets[f]:
        return -1.0
    return objective(sets, group | {f}) - objective(sets, group)


def gen_probe(rng, n):
    q = {d for d in range(n) if rng.random() < rng.choice([0.3, 0.8])}
    return (BitMap(q), q) if q and rng.random() < 0.5 else (None, set(range(n)))


@check("M07", 3)
def measure(rng, i):
    idx, docs = base_index(rng)
    try:
        s = State(idx.db_path)
        fids = sorted(s.sets)
        if not fids:
            return None
        probe, pset = gen_probe(rng, len(docs))
        sets = {f: s.sets[f] & pset for f in fids}
        for _ in range(4):
            group = set(rng.sample(fids, rng.randint(1, min(len(fids), rng.choice([1, 2, 3, 8])))))
            add = set(rng.sample(fids, rng.randint(0, len(fids))))
            what = f"documents {({f: sorted(sets[f]) for f in sorted(group | add)})}, group {sorted(group)}, add {sorted(add)}, probe {probe and sorted(probe)}"
            g2, a2 = set(group), set(add)
            key, obj, rf, rd, af, ad = idx.pool.submit(
                hindex.measure_feature_contribution_to_cluster, idx, "key", group, add, probe).result()
            ensure(key == "key" and group == g2 and add == a2, "%s: key or arguments changed", what)
            ensure(close(obj, objective(sets, group)), "%s: objective %s instead of %s", what, obj, objective(sets, group))
            ensure(sorted(rf) == sorted(group) and len(rd) == len(rf), "%s: members scored %s", what, list(rf))
            ensure(sorted(af) == sorted(add - group) and len(ad) == len(af), "%s: candidates scored %s", what, list(af))
            for f, d in zip(rf, rd):
                ensure(close(d, remove_score(sets, group, f)), "%s: removing %s scores %s instead of %s", what, f, d,
                       remove_score(sets, group, f))
            for f, d in zip(af, ad):
                ensure(close(d, add_score(sets, group, f)), "%s: adding %s scores %s instead of %s", what, f, d,
                       add_score(sets, group, f))
        r = idx.pool.submit(hindex.measure_feature_contribution_to_cluster, idx, 5, set(), set(fids[:2]), probe).result()
        ensure(r[0] == 5 and r[1] == 0 and len(r[2]) == 0, "empty group gives %s", r)
    finally:
        idx.close()
    return what


@check("M07", 2)
def proposed_moves(rng, i):
    idx, docs = base_index(rng)
    try:
        s = State(idx.db_path)
        fids = sorted(s.sets)
        if not fids:
            return None
        probe, pset = gen_probe(rng, len(docs))
        sets = {f: s.sets[f] & pset for f in fids}
        n = rng.choice([1, 2, 3, 5])
        rng.shuffle(fids)
        cf = {c: set(fids[c::n]) for c in range(n) if fids[c::n]}
        chk = {c: set(some(rng, fids)) for c in cf if rng.random() < 0.9}
        k = rng.choice([1, 1, 2, 3])
        what = f"documents {({f: sorted(x) for f, x in sets.items()})} clusters {cf} candidates {chk} top_k {k}"
        given = {c: set(x) for c, x in cf.items()}, {c: set(x) for c, x in chk.items()}
        obj, best = idx._score_proposed_moves(cf, chk, probe_query=probe, top_k=k)
        ensure(given == (cf, chk), "%s: arguments changed", what)
        ensure(set(obj) == set(chk) and all(close(o, objective(sets, cf[c])) for c, o in obj.items()), "%s: objectives %s", what, obj)
        want = {}
        for c in chk:
            for f in cf[c]:
                want.setdefault(f, {})[c] = remove_score(sets, cf[c], f)
            for f in chk[c] - cf[c]:
                want.setdefault(f, {})[c] = add_score(sets, cf[c], f)
        ensure(set(best) == set(want), "%s: features scored %s", what, sorted(best))
        for f, lst in best.items():
            ensure(len(lst) == min(k, len(want[f])) and len({c for _, c in lst}) == len(lst), "%s: feature %s gets %s", what, f, lst)
            ensure(all(close(d, want[f][c]) for d, c in lst), "%s: feature %s scored %s instead of %s", what, f, lst, want[f])
            top = sorted(want[f].values(), reverse=True)[:k]
            ensure(all(close(d, t) for (d, _), t in zip(lst, top)), "%s: best scores of feature %s are %s, reported %s", what, f, top, lst)
    finally:
        idx.close()
    return what


# --------------------------------------------------------------------- Q01
@check("Q01", 1)
def cluster_query(rng, i):
    idx, docs, log = start(rng)
    try:
        s = State(idx.db_path)
        names = {f: (a, b) for f, a, b in rows(idx.db_path, "select feature_id, field, value from inverted_index")}

        def same(m, bs, fs, what):
            want = Counter(d for f in fs for d in s.sets[f])
            got = Counter()
            for layer, b in enumerate(bs):
                for d in b:
                    got[d] += 2**layer
            ensure(set(m) == set(want) and got == want, "%s: features %s give %s and counts %s instead of %s", what, fs,
                   sorted(m), dict(got), dict(want))

        for c, fs in s.members().items():
            m, bs = idx.cluster_query(c)
            same(m, bs, sorted(fs), f"{log} cluster_query({c})")
            if m:
                k = rng.randint(1, len(m) + 1)
        for _ in range(3):
            if not names:
                break
            fs = [rng.choice(sorted(names)) for _ in range(rng.choice([1, 1, 2, 3, 9, 20]))]
            mixed = [names[f] if rng.random() < 0.4 else f for f in fs]
            m, bs = idx.union_bitslice(mixed)
            same(m, bs, fs, f"{log} union_bitslice({mixed})")
            mixed2 = mixed + [10**9, ("text", "no such value")]
            m, bs = idx.union_bitslice(mixed2)
            same(m, bs, fs, f"{log} union_bitslice({mixed2})")
    finally:
        idx.close()
    return log, len(docs)


@check("Q02", 1)
def rank_cluster(rng, i):
    idx, docs, log = start(rng)
    try:
        s = State(idx.db_path)
        for c, fs in s.members().items():
            want = Counter(d for f in fs for d in s.sets[f])
            m, bs = idx.cluster_query(c)
            k = rng.randint(1, len(want) + 2)
            top_k_ok(dict(want), hindex.utilities.bstm(m, bs, k), k, f"{log} cluster {c} counts {dict(want)} k={k}")
    finally:
        idx.close()
    return log, len(docs)


# ---------------------------------------------------------------- Q03, Q05
def jac(a, b):
    return len(a & b) / len(a | b) if a | b else 0.0


def edited(rng, kinds=6):
    idx, docs, log = start(rng, kinds)
    for _ in range(rng.choice([0, 0, 1, 3])):
        log = do_edit(rng, idx, State(idx.db_path), log[-300:])
    if rng.random() < 0.25:
        # overlapping clusters of very different size
        s = State(idx.db_path)
        idx.create_cluster_from_features(sorted(s.sets)[:: rng.randint(2, 4)])
        log += " create"
    return idx, docs, log


@check("Q03", 1)
def pivot(rng, i):
    idx, docs, log = large(rng) if i % 50 == 9 else edited(rng)
    pool = None
    if i % 5 == 4:
        pool = idx._pool = ShufflePool(rng.random())
    try:
        s = State(idx.db_path)
        m = s.members()
        for _ in range(3):
            Q, q = random_query(rng, s, docs)
            ids = None
            if rng.random() < 0.4 and m:
                ids = rng.sample(sorted(m), rng.randint(1, len(m)))
            k = rng.choice([1, 1, 2, 3, 5, 20, 100])
            what = fmt(f"{log} clusters {m} docs {({f: sorted(x) for f, x in s.sets.items()})}; pivot query {sorted(q)} clusters {ids} top_k {k}", 3000)
            out = list(idx.pivot_clusters_by_query(Q, cluster_ids=ids, top_k=k))
            cl = {c: s.csum[c][3] for c in (ids or m)}
            want = {c for c, d in cl.items() if d & q}
            ensure(len(out) == len(want) and {o[0] for o in out} == want, "%s: lists clusters %s instead of %s", what, [o[0] for o in out], want)
            for c, sim, feats in out:
                ensure(close(sim, jac(cl[c], q)), "%s: similarity of cluster %s is %s instead of %s", what, c, sim, jac(cl[c], q))
                sims = {f: jac(s.sets[f], q) for f in m[c] if s.sets[f] & q}
                top = sorted(sims.values(), reverse=True)[:k]
                ensure(len(feats) == len(top) and len({r[0] for r in feats}) == len(feats), "%s: cluster %s lists %s of %s", what, c, feats, sims)
                for r, t in zip(feats, top):
                    ensure(r[0] in sims and close(r[3], sims[r[0]]) and close(r[3], t), "%s: cluster %s lists %s, best are %s of %s", what, c, feats, top, sims)
            got = [o[1] for o in out]
            ensure(all(a >= b - 1e-12 for a, b in zip(got, got[1:])), "%s: cluster order %s", what, got)
            ensure(set(Q) == q, "%s: query changed", what)
    finally:
        idx.close()
        if pool:
            pool.shutdown()
    return log, sorted(q), ids, k


def large(rng):
    """Clusters of many documents that overlap in few of them."""
    n = rng.choice([300, 700, 1500])
    cuts = [(rng.randrange(n), rng.randint(1, n)) for _ in range(rng.randint(2, 5))]
    cuts += [(cuts[0][0] + cuts[0][1] - 1, n), (0, n)][: rng.randint(1, 2)]
    docs = [(k, {"text": {f"v{j}" for j, (a, m) in enumerate(cuts) if a <= k < a + m} or {"none"}}) for k in range(n)]
    idx = make_index(docs, seed=rng.randrange(1000))
    idx.initialise_clusters(rng.choice([len(cuts) + 1, 2]))
    return idx, docs, f"{n} documents, values on {cuts}"


@check("Q05", 1)
def graph(rng, i):
    idx, docs, log = large(rng) if i % 40 == 7 else edited(rng)
    pool = None
    if i % 4 == 3:
        pool = idx._pool = ShufflePool(rng.random())
    try:
        s = State(idx.db_path)
        g = idx.create_cluster_cooccurrence_graph(top_k=rng.choice([1, 3, 5]))
        sets = {c: x[3] for c, x in s.csum.items()}
        ensure(set(g.nodes) == set(sets), "%s: nodes %s, clusters %s", log, sorted(g.nodes), sorted(sets))
        for c in sets:
            ensure(g.nodes[c]["document_count"] == len(sets[c]), "%s: node %s has count %s", log, c, g.nodes[c])
        want = {frozenset((a, b)): jac(sets[a], sets[b]) for a in sets for b in sets if a < b and sets[a] & sets[b]}
        got = {frozenset((a, b)): d["weight"] for a, b, d in g.edges(data=True)}
        ensure(set(got) == set(want), "%s: edges %s instead of %s", log, list(got), list(want))
        for e in want:
            ensure(close(got[e], want[e]), "%s: edge %s weighs %s instead of %s", log, set(e), got[e], want[e])
    finally:
        idx.close()
        if pool:
            pool.shutdown()
    return log, len(docs)


# --------------------------------------------------------------------- Q04
def sql_key(v):
    return (0, v, "") if isinstance(v, (int, float)) else (1, 0, v)


@check("Q04", 1)
def crosstab(rng, i):
    idx, docs = base_index(rng)
    try:
        log = f"{len(docs)} docs"
        if rng.random() < 0.4:
            docs = gen_docs(rng, n=rng.choice([2, 6, 15]))
            idx.corpus = ListCorpus(docs)
            idx.index(doc_batch_size=4)
            log += f" re-indexed {docs}"
        for _ in range(3):
            field = rng.choice(["text", "tag", "title", "opt", "nosuch"])
            s = State(idx.db_path)
            qs = {rng.choice(["a", "b", 3, ("x", 1)]): random_query(rng, s, docs) for _ in range(rng.randint(0, 4))}
            what = fmt(f"{log}; field {field} queries { {k: sorted(v[1]) for k, v in qs.items()} }", 2500)
            values, totals, inter = idx.intersect_queries_with_field({k: v[0] for k, v in qs.items()}, field)
            true = {}
            for d, (_, f) in enumerate(docs):
                for v in set(f.get(field, ())):
                    if v is not None:
                        true.setdefault(v, set()).add(d)
            ensure(list(values) == sorted(true, key=sql_key), "%s: values %s instead of %s", what, values, sorted(true, key=sql_key))
            ensure(list(totals) == [len(true[v]) for v in values], "%s: totals %s", what, totals)
            for k, (_, q) in qs.items():
                if values:
                    ensure(list(inter[k]) == [len(true[v] & q) for v in values], "%s: counts of %r are %s", what, k, inter[k])
            ensure(set(inter) <= set(qs), "%s: results for %s", what, list(inter))
            got = [(v, c, set(b)) for v, c, b in idx.iter_field_docs(field, min_docs=1)]
            ensure(got == [(v, len(true[v]), true[v]) for v in values], "%s: iter_field_docs gives %s", what, fmt(got))
            md = rng.choice([2, 3])
            got = [v for v, c, b in idx.iter_field_docs(field, min_docs=md)]
            ensure(got == [v for v in values if len(true[v]) >= md], "%s: iter_field_docs(min %s) gives %s", what, md, got)
    finally:
        idx.close()
    return what


# --------------------------------------------------------------------- Q06
@check("Q06", 1)
def samples(rng, i):
    idx, docs, log = edited(rng)
    try:
        s = State(idx.db_path)
        sets = {c: x[3] for c, x in s.csum.items()}
        for _ in range(3):
            k = rng.choice([0, 1, 1, 2, 3, 10, 1000])
            ids = None
            if rng.random() < 0.5 and sets:
                ids = rng.sample(sorted(sets), rng.randint(1, len(sets)))
                ids = rng.choice([list, tuple, set])(ids)
            what = fmt(f"{log} clusters {({c: sorted(x) for c, x in sets.items()})}; structured_doc_sample({k}, {ids})", 2500)
            smp, lab = idx.structured_doc_sample(docs_per_cluster=k, cluster_ids=ids)
            ensure(set(smp) == set(ids or sets), "%s: samples of clusters %s", what, set(smp))
            taken = set()
            for c, b in smp.items():
                b = set(b)
                ensure(b <= sets[c], "%s: sample of %s has documents %s not in the cluster", what, c, b - sets[c])
                ensure(not b & taken, "%s: documents %s sampled twice", what, b & taken)
                left = len(sets[c] - taken)
                ensure(len(b) == (left if k == 0 else min(k, left)), "%s: sample of %s has %s of %s documents", what, c, len(b), left)
                taken |= b
            for c in sets:
                ensure(set(lab.get(c, ())) == taken & sets[c], "%s: labels of cluster %s are %s", what, c, lab.get(c))
            ensure(set(lab) <= set(sets), "%s: labels of %s", what, set(lab))
            for c in sets:
                ensure(set(idx.cluster_docs(c)) == sets[c], "%s: changed cluster %s", what, c)
            if rng.random() < 0.3:
                path = scratch(".csv")
                idx.export_document_sample(smp, lab, path)
                want = []
                for c, b in smp.items():
                    for d in b:
                        want.append((str(docs[d][0]), str(c), f"text of {docs[d][0]}", tuple(sorted(f"cluster_{o}" for o in lab if d in lab[o]))))
                with open(path, newline="", encoding="utf-8") as f:
                    got = [(r["doc_key"], r["sampled_cluster"], r["text"], tuple(sorted(k2 for k2, v in r.items() if k2.startswith("cluster_") and v == "1"))) for r in csv.DictReader(f)]
                ensure(sorted(got) == sorted(want), "%s: exported rows %s instead of %s", what, fmt(got), fmt(want))
        b = {d for d in range(40) if rng.random() < 0.4}
        n = rng.choice([0, 1, 3, len(b), len(b) + 1, max(0, len(b) - 1)])
        B = BitMap(b)
        r = idx.sample_bitmap(B, n)
        ensure(set(r) <= b and len(r) == min(n, len(b)) and set(B) == b, "sample_bitmap(%s, %s) = %s", sorted(b), n, r)
        r.add(10**6)
        ensure(set(B) == b, "sample_bitmap returns its argument")
    finally:
        idx.close()
    return what
