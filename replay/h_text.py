"""P01 collocations, P02 passages, P03 concordances."""
from .common import (BitMap, ListCorpus, ShufflePool, check, ensure, fmt, gen_docs, hindex, make_index, rows)


def pos_index(rng, fields=("text",)):
    n = rng.choice([1, 2, 3, 5, 8])
    words = ["a", "b", "c", "d", "e"][: rng.randint(2, 5)]
    docs = []
    for j in range(n):
        d = {}
        for f in fields:
            if rng.random() < 0.9:
                d[f] = [rng.choice(words) for _ in range(rng.choice([0, 1, 1, 2, 3, 5, 8, 14, 20]))]
        if rng.random() < 0.5:
            d["tag"] = {rng.choice(words)}
        docs.append((j, d))
    bs = rng.choice([1, 2, 3, n, 100])
    idx = make_index(docs, doc_batch_size=bs, index_positions=True)
    return idx, docs, bs, words


def ids_of(idx, field):
    return {v: f for f, v in rows(idx.db_path, "select feature_id, value from inverted_index where field=?", (field,))}


@check("P01", 2)
def collocations(rng, i):
    idx, docs, bs, words = pos_index(rng, ("text", "title"))
    pool = None
    if i % 6 == 5:
        pool = idx._pool = ShufflePool(rng.random())
    try:
        for _ in range(3):
            field = "text"
            ids = ids_of(idx, field)
            ws = [w for w in words if rng.random() < 0.4 and w in ids] or [w for w in words[:1] if w in ids]
            if not ws:
                continue
            w = rng.choice([0, 1, 1, 2, 3, 50])
            what = fmt(f"docs {docs} batches of {bs}; count_collocations({field}, {ws}, {w})", 2500)
            fs = [ids[x] for x in ws]
            counts, hits, size = idx.count_collocations(field, rng.choice([list, set, tuple])(fs), w)
            want, total, whits, wsize = {}, {}, 0, 0
            for _, d in docs:
                seq = d.get(field, [])
                hit = {p for p, x in enumerate(seq) if x in ws}
                win = {p for p in range(len(seq)) if any(abs(p - h) <= w for h in hit)}
                whits += len(hit)
                wsize += len(win)
                for p, x in enumerate(seq):
                    if x not in ws:
                        total[x] = total.get(x, 0) + 1
                        want[x] = want.get(x, 0) + (p in win)
            ensure((hits, size) == (whits, wsize), "%s: %s hits and %s window positions instead of %s and %s", what, hits, size, whits, wsize)
            got = {f: tuple(c) for f, c in counts.items()}
            for x in want:
                g = got.pop(ids[x], (0, 0))
                ensure(g[0] == want[x], "%s: %r counted %s instead of %s", what, x, g, (want[x], total[x]))
                ensure(g[1] == total[x] or (want[x] == 0 and g[1] == 0), "%s: total of %r is %s", what, x, g)
            other = set(ids.values())
            for f, c in got.items():
                ensure(c[0] == 0 or f not in other, "%s: feature %s counted %s", what, f, c)
    finally:
        idx.close()
        if pool:
            pool.shutdown()
    return docs, bs


# --------------------------------------------------------------------- P02
def near(seq, p, clause, w):
    return any(abs(p - j) <= w for j, x in enumerate(seq) if x in clause)


@check("P02", 1)
def passages(rng, i):
    idx, docs, bs, words = pos_index(rng, ("text", "title") if i % 3 == 2 else ("text",))
    pool = None
    if i % 6 == 5:
        pool = idx._pool = ShufflePool(rng.random())
    try:
        for _ in range(4):
            ids = {f: ids_of(idx, f) for f in ("text", "title")}
            field = "text"
            clauses = []
            for _ in range(rng.choice([1, 1, 2, 2, 2, 3])):
                c = [x for x in words if rng.random() < 0.45 and x in ids[field]]
                if not c and ids[field]:
                    c = [rng.choice(sorted(ids[field]))]
                if c:
                    clauses.append(c)
            if not clauses:
                continue
            w = rng.choice([0, 1, 1, 2, 3, 5, 50])
            query = [[(field, x) if rng.random() < 0.5 else ids[field][x] for x in c] for c in clauses]
            what = fmt(f"docs {docs} batches of {bs}; score_passages_dnf({query} = {clauses}, {w})", 3000)
            out = idx.score_passages_dnf(query, w)
            hits = {}
            for d, (_, doc) in enumerate(docs):
                seq = doc.get(field, [])
                hits[d] = [p for p, x in enumerate(seq) if any(x in c for c in clauses) and all(near(seq, p, c, w) for c in clauses)]
            for d, ps in out.items():
                ensure(d in hits, "%s: passage in unknown document %s", what, d)
                seq = docs[d][1].get(field, [])
                last = None
                for f, a, b, n in sorted(ps, key=lambda x: x[1]):
                    ensure(f == field, "%s: passage in field %r", what, f)
                    ensure(0 <= a <= b < len(seq), "%s: passage %s..%s outside document %s of length %s", what, a, b, d, len(seq))
                    inside = [p for p in hits[d] if a <= p <= b]
                    if len(clauses) <= 2:
                        ensure(inside and inside[0] == a and inside[-1] == b, "%s: document %s passage %s..%s does not start and end on hits %s", what, d, a, b, hits[d])
                        ensure(n == len(inside), "%s: document %s passage %s..%s reports %s hits instead of %s", what, d, a, b, n, len(inside))
                        ensure(all(y - x <= w for x, y in zip(inside, inside[1:])), "%s: document %s passage %s..%s has a gap, hits %s", what, d, a, b, inside)
                    else:
                        ensure(a in hits[d] and b in hits[d], "%s: document %s passage %s..%s does not start and end on hits %s", what, d, a, b, hits[d])
                        ensure(2 - (a == b) <= n <= len(inside), "%s: document %s passage %s..%s reports %s hits of %s", what, d, a, b, n, inside)
                    if last is not None:
                        ensure(a - last > w, "%s: passages of document %s overlap or touch: %s", what, d, ps)
                    last = b
            if len(clauses) <= 2:
                for d, hs in hits.items():
                    for p in hs:
                        ensure(any(a <= p <= b for _, a, b, _ in out.get(d, ())), "%s: position %s of document %s matches all clauses but is in no passage %s", what, p, d, out.get(d))
    finally:
        idx.close()
        if pool:
            pool.shutdown()
    return docs, bs, clauses if docs else None


@check("P02", 1)
def passages_two_fields(rng, i):
    """Clauses over several fields are separate queries per field."""
    idx, docs, bs, words = pos_index(rng, ("text", "title"))
    try:
        ids = {f: ids_of(idx, f) for f in ("text", "title")}
        if not all(ids.values()):
            return None
        w = rng.choice([0, 1, 2, 5])
        clause = {f: [rng.choice(sorted(ids[f])) for _ in range(rng.randint(1, 2))] for f in ids}
        query = [[(f, x) for f in clause for x in clause[f]]]
        what = fmt(f"docs {docs} batches of {bs}; score_passages_dnf({query}, {w})", 3000)
        out = idx.score_passages_dnf(query, w)
        want = {}
        for d, (_, doc) in enumerate(docs):
            for f in clause:
                hs = [p for p, x in enumerate(doc.get(f, [])) if x in clause[f]]
                cur = []
                for p in hs:
                    if cur and p - cur[-1] > w:
                        want.setdefault(d, []).append((f, cur[0], cur[-1], len(cur)))
                        cur = []
                    cur.append(p)
                if cur:
                    want.setdefault(d, []).append((f, cur[0], cur[-1], len(cur)))
        ensure({d: sorted(map(tuple, p)) for d, p in out.items() if p} == {d: sorted(p) for d, p in want.items()},
               "%s: passages %s instead of %s", what, dict(out), want)
    finally:
        idx.close()
    return what


# --------------------------------------------------------------------- P03
@check("P03", 1)
def windows(rng, i):
    words = ["a", "b", "c", "d", "it's", ""][: rng.randint(2, 6)]
    docs = gen_docs(rng, n=rng.choice([1, 2, 4, 8]), words=words, maxlen=rng.choice([3, 12]))
    idx = make_index(docs, doc_batch_size=3, index_positions=rng.random() < 0.5)
    try:
        names = {f: (a, b) for f, a, b in rows(idx.db_path, "select feature_id, field, value from inverted_index")}
        if not names:
            return None
        for _ in range(3):
            feats = [rng.choice(sorted(names)) for _ in range(rng.choice([1, 1, 2, 4]))]
            feats = [names[f] if rng.random() < 0.5 else f for f in feats]
            if rng.random() < 0.2:
                feats.append(("text", "no such value"))
            if rng.random() < 0.15:
                feats.append(("nosuchfield", "a"))
            q = {d for d in range(len(docs)) if rng.random() < 0.7}
            w = rng.choice([0, 1, 1, 2, 5, 100])
            what = fmt(f"docs {docs}; windows of {feats} in {sorted(q)}, size {w}", 2500)
            wanted = {}
            for x in feats:
                f, v = names[x] if isinstance(x, int) else x
                wanted.setdefault(f, set()).add(v)
            seen = set()
            for key, d, occ in idx.extract_matching_feature_windows(BitMap(q), feats, w):
                ensure(d in q and docs[d][0] == key and d not in seen, "%s: reports document %s/%r", what, d, key)
                seen.add(d)
                for f in wanted:
                    vals = docs[d][1].get(f, set())
                    got = dict(occ.get(f, {}))
                    if isinstance(vals, list):
                        exp = {}
                        for p, v in enumerate(vals):
                            if v in wanted[f]:
                                exp.setdefault(v, []).append(vals[max(0, p - w): p + w + 1])
                        ensure({v: [list(y) for y in ws] for v, ws in got.items() if ws} == exp, "%s: document %s field %r gives %s instead of %s", what, d, f, got, exp)
                        ensure(set(got) == set(exp), "%s: document %s field %r reports %s", what, d, f, set(got))
                    else:
                        ensure(set(got) == wanted[f] & vals and not any(got.values()), "%s: document %s set field %r gives %s", what, d, f, got)
                ensure(set(occ) <= set(wanted), "%s: fields %s", what, set(occ))
            ensure(seen == q, "%s: documents %s missing", what, q - seen)
            textfeats = [x for x in feats if (names[x] if isinstance(x, int) else x)[0] in ("text", "title")]
            if textfeats:
                seen = set()
                for key, d, occ in idx.concordances(BitMap(q), textfeats, w):
                    seen.add(d)
                    for f in {(names[x] if isinstance(x, int) else x)[0] for x in textfeats}:
                        vals = docs[d][1].get(f, [])
                        exp = {}
                        tw = {(names[x] if isinstance(x, int) else x)[1] for x in textfeats if (names[x] if isinstance(x, int) else x)[0] == f}
                        for p, v in enumerate(vals):
                            if v in tw:
                                exp.setdefault(v, []).append(" ".join(vals[max(0, p - w): p + w + 1]))
                        ensure({v: list(x) for v, x in occ.get(f, {}).items()} == exp, "%s: concordances of document %s field %r are %s instead of %s", what, d, f, occ, exp)
                ensure(seen == q, "%s: concordances miss documents %s", what, q - seen)
            n = rng.randint(0, len(docs))
            got = [d for _, d, _ in idx.extract_matching_feature_windows(BitMap(q), feats, w, random_sample_size=n)]
            ensure(len(got) == len(set(got)) == min(n, len(q)) and set(got) <= q, "%s: sample of %s reports %s", what, n, got)
    finally:
        idx.close()
    return what
