"""C01-C04: indexing, lookups, document ids, positions."""
import datetime

from .common import (BitMap, FaultDB, InlinePool, ListCorpus, ShufflePool, check, dump, ensure, gen_docs, hindex,
                     make_index, rows, scratch, true_postings, fmt)


def gen_index_args(rng, n):
    bs = rng.choice([1, 2, 3, max(1, n - 1), max(1, n), n + 1, max(1, n // 2), 1000])
    a = {"doc_batch_size": bs}
    if rng.random() < 0.4:
        a["workers"] = rng.choice([1, 2, 3])
    if rng.random() < 0.6:
        a["index_positions"] = True
    return a


def positional_ok(docs, args):
    return not args.get("index_positions") or all(None not in v for _, d in docs for v in d.values()
                                                  if isinstance(v, list))


def check_postings(idx, docs, what, lookups=True):
    want = true_postings(docs)
    stored = {}
    for fid, f, v, c, b in rows(idx.db_path, "select feature_id, field, value, docs_count, doc_ids from inverted_index"):
        b = set(BitMap.deserialize(b))
        ensure(c == len(b), "%s: stored count of (%r, %r) is %s, its documents %s", what, f, v, c, sorted(b))
        ensure((f, v) not in stored, "%s: (%r, %r) stored twice", what, f, v)
        stored[(f, v)] = fid, b
    for key, docs_ in want.items():
        ensure(key in stored, "%s: %r is not in the index, it occurs in %s", what, key, sorted(docs_))
    for key, (fid, b) in stored.items():
        ensure(b == want.get(key, set()), "%s: %r has documents %s, should be %s", what, key, sorted(b),
               sorted(want.get(key, set())))
    if lookups:
        for key, (fid, b) in stored.items():
            ensure(set(idx[key]) == b, "%s: idx[%r] is %s, should be %s", what, key, idx[key], sorted(b))
            ensure(set(idx[fid]) == b, "%s: idx[%r] is %s, should be %s", what, fid, idx[fid], sorted(b))
            ensure(idx.lookup_feature_id(key) == fid, "%s: lookup_feature_id(%r)", what, key)
            got = idx.lookup_feature(fid)
            ensure(tuple(got) == key, "%s: lookup_feature(%r) = %r", what, fid, got)
        fields = {f for f, _ in stored} | {"text", "nofield"}
        for f in fields:
            for v in ("no such value", "", 77, "a"):
                if (f, v) not in stored:
                    ensure(len(idx[(f, v)]) == 0, "%s: idx[%r] of an unknown pair is %s", what, (f, v), idx[(f, v)])
        for fid in (-1, 0, max([x for x, _ in stored.values()] or [0]) + 1):
            if fid not in {x for x, _ in stored.values()}:
                ensure(len(idx[fid]) == 0, "%s: idx[%r] of an unknown id", what, fid)
    return {k: v[0] for k, v in stored.items()}


def pool_for(rng, i):
    if i % 4 == 3:
        return ShufflePool(rng.random(), workers=rng.choice([1, 2, 3]))
    return InlinePool(rng.choice([1, 2, 4]))


@check("C01", 3)
def postings(rng, i):
    docs = gen_docs(rng, maxlen=rng.choice([3, 9]))
    args = gen_index_args(rng, len(docs))
    if not docs:
        args["doc_batch_size"] = rng.choice([1, 5])
    pool = pool_for(rng, i)
    what = f"corpus {docs} indexed with {args}"
    try:
        idx = make_index(docs, pool=pool, **args) if docs else None
        if idx is None:
            return None
        check_postings(idx, docs, fmt(what, 1500))
        idx.close()
    finally:
        pool.shutdown()
    return docs, args


@check("C01", 1)
def postings_wide(rng, i):
    """More batches, and counts that differ between batches."""
    n = rng.randint(40, 120)
    words = [f"w{j}" for j in range(rng.choice([3, 30, 200]))]
    docs = gen_docs(rng, n=n, words=words, maxlen=12)
    args = gen_index_args(rng, n)
    args["doc_batch_size"] = rng.choice([1, 3, 7, 39, 40, 41, n])
    pool = pool_for(rng, i)
    try:
        idx = make_index(docs, pool=pool, **args)
        check_postings(idx, docs, f"generated corpus of {n} docs, {args}", lookups=i % 2 == 0)
        idx.close()
    finally:
        pool.shutdown()
    return n, args


@check("C01", 1)
def postings_failing(rng, i):
    """A run in which reading a document or a batch fails either raises or is complete."""
    docs = gen_docs(rng, n=rng.choice([3, 8, 14, 25]))
    args = gen_index_args(rng, len(docs))
    if rng.random() < 0.6:
        args["doc_batch_size"] = rng.choice([1, 2])
    pool = InlinePool(rng.choice([1, 2]))
    idx = hindex.Index(scratch(".db"), corpus=ListCorpus(docs), pool=pool)
    what = fmt(f"corpus {docs} indexed with {args}", 1500)
    try:
        if rng.random() < 0.5:
            idx.corpus.fail_doc = rng.choice(docs)[0]
            what += f", document {idx.corpus.fail_doc} cannot be read"
        else:
            pool.fail_at = rng.randint(1, 1 + len(docs) // args["doc_batch_size"])
            what += f", job {pool.fail_at} fails"
        try:
            idx.index(**args)
        except RuntimeError:
            return what
        check_postings(idx, docs, what, lookups=False)
    finally:
        idx.close()
    return what


def check_positions(idx, docs, batch, what):
    part = {}
    for field, first, last, count, ids, bounds in rows(
        idx.db_path, "select field, first_doc_id, last_doc_id, docs_count, doc_ids, doc_boundaries from position_doc_map"
    ):
        ids, bounds = list(BitMap.deserialize(ids)), list(BitMap.deserialize(bounds))
        ensure(count == len(ids), "%s: %r/%s stores docs_count %s for %s", what, field, first, count, ids)
        ensure(bounds[:1] == [0] and len(bounds) == len(ids) + 1, "%s: %r/%s boundaries %s for docs %s", what, field,
               first, bounds, ids)
        part[(field, first)] = ids, bounds, {}
    names = {fid: (f, v) for fid, f, v in rows(idx.db_path, "select feature_id, field, value from inverted_index")}
    for fid, first, count, pos in rows(
        idx.db_path, "select feature_id, first_doc_id, position_count, positions from position_index"
    ):
        f, v = names[fid]
        pos = list(BitMap.deserialize(pos))
        ensure(count == len(pos), "%s: position count of %r in batch %s is %s for %s", what, (f, v), first, count, pos)
        ensure((f, first) in part, "%s: positions of %r in batch %s without a document map", what, (f, v), first)
        for p in pos:
            ensure(p not in part[(f, first)][2], "%s: position %s of %r/%s has two values", what, p, f, first)
            part[(f, first)][2][p] = v
    got = {}
    for (f, first), (ids, bounds, at) in part.items():
        ensure(set(at) == set(range(bounds[-1])), "%s: positions of %r/%s are %s, boundaries %s", what, f, first,
               sorted(at), bounds)
        for d, lo, hi in zip(ids, bounds, bounds[1:]):
            ensure((f, d) not in got, "%s: document %s of %r in two batches", what, d, f)
            got[(f, d)] = [at[p] for p in range(lo, hi)]
            ensure(first == d - d % batch, "%s: document %s stored in batch %s", what, d, first)
    want = {(f, d): v for d, (_, doc) in enumerate(docs) for f, v in doc.items() if isinstance(v, list) and v}
    for k in want:
        ensure(k in got, "%s: sequence %r is not stored", what, k)
        ensure(got[k] == want[k], "%s: sequence %r decodes to %s instead of %s", what, k, got[k], want[k])
    for k in got:
        ensure(k in want, "%s: positions stored for %r, which has no sequence", what, k)


@check("C04", 3)
def positions(rng, i):
    docs = gen_docs(rng, n=rng.choice([1, 2, 3, 5, 8, 13, 30]), maxlen=rng.choice([2, 9]))
    args = gen_index_args(rng, len(docs))
    args["index_positions"] = True
    pool = pool_for(rng, i)
    what = fmt(f"corpus {docs} indexed with {args}", 1500)
    try:
        idx = make_index(docs, pool=pool, **args)
        check_positions(idx, docs, args["doc_batch_size"], what)
        if rng.random() < 0.4:  # again, with other content
            docs2 = gen_docs(rng, n=rng.choice([1, 3, 8]))
            idx.corpus = ListCorpus(docs2)
            idx.index(**args)
            check_positions(idx, docs2, args["doc_batch_size"], fmt(f"{what}, then re-indexed with {docs2}", 2500))
        # the accessors agree with the stored tables
        for field in ("text", "title"):
            for first in idx._field_partitions(field):
                c, ids, b = idx._get_partition_header(field, first)
                st = rows(idx.db_path, "select docs_count, doc_ids, doc_boundaries from position_doc_map where field=?"
                          " and first_doc_id=?", (field, first))
                ensure([(c, set(ids), set(b))] == [(x, set(BitMap.deserialize(y)), set(BitMap.deserialize(z)))
                                                   for x, y, z in st], "%s: header of %r/%s", what, field, first)
        for fid, first, pos in rows(idx.db_path, "select feature_id, first_doc_id, positions from position_index"):
            ensure(set(idx._get_partition_positions(first, fid)) == set(BitMap.deserialize(pos)),
                   "%s: positions of feature %s in %s", what, fid, first)
        ensure(len(idx._get_partition_positions(0, 10**9)) == 0, "positions of an unknown feature")
        idx.close()
    finally:
        pool.shutdown()
    return docs, args


# --------------------------------------------------------------------- C02
def model_rows(path):
    return rows(path, "select feature_id, cluster_id, pinned from feature_cluster order by 1")


def check_reindexed(idx, docs, old_ids, old_model, what):
    ids = check_postings(idx, docs, what)
    for k, fid in old_ids.items():
        ensure(k in ids and ids[k] == fid, "%s: %r had feature id %s, now %s", what, k, fid, ids.get(k))
    keys = rows(idx.db_path, "select doc_id, doc_key from doc_key order by doc_id")
    ensure(keys == [(j, k) for j, (k, _) in enumerate(docs)], "%s: document keys %s", what, keys)
    ensure(model_rows(idx.db_path) == old_model, "%s: model changed from %s to %s", what, old_model,
           model_rows(idx.db_path))
    counts = dict(rows(idx.db_path, "select feature_id, docs_count from inverted_index"))
    for f, c in rows(idx.db_path, "select feature_id, docs_count from feature_cluster"):
        ensure(c == counts[f], "%s: model count of feature %s is %s instead of %s", what, f, c, counts[f])
    sets = {f: set(BitMap.deserialize(b)) for f, b in rows(idx.db_path, "select feature_id, doc_ids from inverted_index")}
    members = {}
    for f, c, _ in old_model:
        members.setdefault(c, []).append(f)
    got = rows(idx.db_path, "select cluster_id, feature_count, docs_count, weight, doc_ids from cluster order by 1")
    ensure([g[0] for g in got] == sorted(members), "%s: clusters %s", what, [g[0] for g in got])
    for c, fc, dc, w, b in got:
        u = set().union(*(sets[f] for f in members[c]))
        ensure((fc, dc, w, set(BitMap.deserialize(b))) == (len(members[c]), len(u), sum(len(sets[f]) for f in members[c]), u),
               "%s: summary of cluster %s not refreshed", what, c)


def add_model(rng, idx):
    if rng.random() < 0.8:
        idx.initialise_clusters(rng.randint(1, 4), min_docs=1)
        if rng.random() < 0.4 and idx.cluster_ids:
            idx.pin_clusters([rng.choice(idx.cluster_ids)])


@check("C02", 2)
def reindex(rng, i):
    docs = gen_docs(rng, n=rng.choice([1, 3, 8, 15]))
    idx = make_index(docs, **gen_index_args(rng, len(docs)))
    what = f"corpus {docs}"
    try:
        for _ in range(rng.randint(1, 2)):
            add_model(rng, idx)
            old_ids = {(f, v): k for k, f, v in rows(idx.db_path, "select feature_id, field, value from inverted_index")}
            old_model = model_rows(idx.db_path)
            docs = gen_docs(rng, n=rng.choice([1, 2, 6, 15]), tag="z")
            args = gen_index_args(rng, len(docs))
            idx.corpus = ListCorpus(docs)
            idx.index(**args)
            what += f" re-indexed {args} with {docs}"
            check_reindexed(idx, docs, old_ids, old_model, fmt(what, 2500))
            # searchable positional content is that of a fresh index
            if args.get("index_positions"):
                check_positions(idx, docs, args["doc_batch_size"], fmt(what, 2500))
            else:
                ensure(not rows(idx.db_path, "select 1 from position_index")
                       and not rows(idx.db_path, "select 1 from position_doc_map"), "%s: stale positions", fmt(what))
    finally:
        idx.close()
    return what


@check("C02", 3)
def reindex_fails(rng, i):
    docs = gen_docs(rng, n=rng.choice([1, 3, 8]))
    idx = make_index(docs, **gen_index_args(rng, len(docs)))
    try:
        add_model(rng, idx)
        before = dump(idx.db_path)
        old_rows = rows(idx.db_path, "select feature_id, field, value from inverted_index")
        old_model = model_rows(idx.db_path)
        docs2 = gen_docs(rng, n=rng.choice([2, 5, 9]), tag="z")
        args = gen_index_args(rng, len(docs2))
        kind = rng.choice(["doc", "keys", "worker", "db", "db", "interrupt"])
        exc = RuntimeError("injected") if kind == "db" else KeyboardInterrupt()
        idx.corpus = ListCorpus(docs2)
        real = idx.db
        if kind == "doc":
            idx.corpus.fail_doc = rng.choice(docs2)[0]
        elif kind == "keys":
            idx.corpus.fail_keys = rng.randrange(len(docs2))
        elif kind == "worker":
            idx.pool.calls = 0
            idx.pool.fail_at = rng.randint(1, 3)
        else:
            pass
        at = rng.randint(1, len(docs2) + 14) if kind in ("db", "interrupt") else -1
        idx.db = FaultDB(real, at, exc, after=rng.random() < 0.5)
        what = fmt(f"corpus {docs}, re-index with {docs2} {args} failing at {kind}", 2000)
        if kind in ("db", "interrupt"):
            what += f" (statement {idx.db._at})"
        failed = committed = False
        try:
            idx.index(**args)
        except BaseException as e:
            failed = True
        committed = idx.db._commits > 0
        idx.pool.fail_at = None
        idx.db = real
        if not failed:
            ensure(kind not in ("doc", "keys"), "%s: the failure was not reported", what)
        else:
            after = dump(idx.db_path)
            same = {t: before[t] == after.get(t) for t in before}
            content = [t for t in ("doc_key", "inverted_index", "position_index", "position_doc_map", "field_summary",
                                   "feature_cluster") if t in before]
            if committed and not all(same[t] for t in content):
                # the failure came after the new content was stored: it is all there
                names = {(f, v): k for k, f, v in old_rows}
                ids = check_postings(idx, docs2, what, lookups=False)
                ensure(all(ids.get(k) == fid for k, fid in names.items()), "%s: feature ids changed", what)
                keys = rows(idx.db_path, "select doc_id, doc_key from doc_key order by doc_id")
                ensure(keys == [(j, k) for j, (k, _) in enumerate(docs2)], "%s: document keys %s", what, keys)
                ensure(model_rows(idx.db_path) == old_model, "%s: the model changed", what)
                if args.get("index_positions"):
                    check_positions(idx, docs2, args["doc_batch_size"], what)
            else:
                for t in before:
                    ensure(same[t], "%s: table %s changed from %s to %s", what, t, fmt(before[t], 500),
                           fmt(after.get(t), 500))
            ensure(not real.in_transaction, "%s: a transaction is left open", what)
            # the failed index is still usable, also through this object
            docs3 = gen_docs(rng, n=3)
            idx.corpus = ListCorpus(docs3)
            ids = {(f, v): k for k, f, v in rows(idx.db_path, "select feature_id, field, value from inverted_index")}
            model = model_rows(idx.db_path)
            idx.index(doc_batch_size=2)
            check_reindexed(idx, docs3, ids, model, what + " then re-indexed")
            if idx.cluster_ids:
                idx.delete_clusters([idx.cluster_ids[0]])
    finally:
        idx.close()
    return what


# --------------------------------------------------------------------- C03
@check("C03", 3)
def doc_ids(rng, i):
    docs = gen_docs(rng, n=rng.choice([1, 2, 5, 12, 30]))
    args = gen_index_args(rng, len(docs))
    idx = make_index(docs, **args)
    what = fmt(f"corpus keys {[k for k, _ in docs]}, {args}")
    try:
        keys = rows(idx.db_path, "select doc_id, doc_key from doc_key order by doc_id")
        ensure(keys == [(j, k) for j, (k, _) in enumerate(docs)], "%s: ids stored %s", what, keys)
        for _ in range(4):
            q = {j for j in range(len(docs)) if rng.random() < rng.choice([0, 0.2, 0.6, 1])}
            Q = BitMap(q)
            want = {(j, docs[j][0]) for j in q}
            got = idx.convert_query_to_keys(Q)
            ensure({(v, k) for k, v in got.items()} == want and len(got) == len(want),
                   "%s: convert_query_to_keys(%s) = %s", what, sorted(q), got)
            out = list(idx.docs(Q))
            ensure(len(out) == len(q), "%s: docs(%s) returns %s documents", what, sorted(q), len(out))
            ensure({(a, b) for a, b, _ in out} == want, "%s: docs(%s) pairs %s", what, sorted(q),
                   [(a, b) for a, b, _ in out])
            for a, b, d in out:
                ensure(d["key"] == b, "%s: docs(%s): key %r comes with the content of %r", what, sorted(q), b, d["key"])
            html = idx.render_docs_html(Q)
            ensure(sorted(map(repr, html)) == sorted(repr((j, k, f"<p>{k}</p>")) for j, k in want),
                   "%s: render_docs_html(%s) = %s", what, sorted(q), html)
            tab = list(idx.render_docs_table(Q))
            ensure(sorted(map(repr, tab)) == sorted(repr((k, {"text": f"text of {k}"})) for j, k in want),
                   "%s: render_docs_table(%s) = %s", what, sorted(q), tab)
            for size in (0, 1, max(1, len(q) - 1), len(q), len(q) + 1):
                h = idx.render_docs_html(Q, random_sample_size=size)
                t = list(idx.render_docs_table(Q, random_sample_size=size))
                n = min(size, len(q))
                ensure(len(h) == n and len({x[0] for x in h}) == n and all((x[0], x[1]) in want and x[2] == f"<p>{x[1]}</p>" for x in h),
                       "%s: render_docs_html(%s, sample %s) = %s", what, sorted(q), size, h)
                ensure(len(t) == n and len({x[0] for x in t}) == n and all(x[0] in {k for _, k in want} and x[1] == {"text": f"text of {x[0]}"} for x in t),
                       "%s: render_docs_table(%s, sample %s) = %s", what, sorted(q), size, t)
            ensure(set(Q) == q, "%s: the query %s was changed", what, sorted(q))
    finally:
        idx.close()
    return [k for k, _ in docs], args
