"""M01-M06: the feature model, edits, refinement, transactions."""
import gc
import shutil
import sqlite3

from .common import (BitMap, FaultDB, InlinePool, ListCorpus, Violation, check, dump, ensure, fmt, gen_docs, hindex,
                     make_index, rows, scratch)

_base = {}


def base_index(rng, kinds=6, positions=False):
    """One of a few prepared indexes, opened on a private copy."""
    k = (rng.randrange(kinds), positions)
    if k not in _base:
        import random

        r = random.Random(f"base{k}")
        n = [1, 3, 6, 12, 25, 40][k[0]]
        docs = gen_docs(r, n=n, words=[f"w{j}" for j in range([2, 4, 8, 12, 20, 30][k[0]])])
        idx = make_index(docs, doc_batch_size=7, index_positions=positions)
        idx.close()
        _base[k] = idx.db_path, docs
    path, docs = _base[k]
    new = scratch(".db")
    shutil.copy(path, new)
    return hindex.Index(new, corpus=ListCorpus(docs), pool=InlinePool(), random_seed=rng.randrange(10**6)), docs


class State:
    def __init__(self, path):
        self.fields = {}
        self.sets = {}
        for f, fld, b in rows(path, "select feature_id, field, doc_ids from inverted_index"):
            self.fields[f] = fld
            self.sets[f] = frozenset(BitMap.deserialize(b))
        self.assign, self.fpin, self.fcount = {}, {}, {}
        for f, c, p, n in rows(path, "select feature_id, cluster_id, pinned, docs_count from feature_cluster"):
            self.assign[f], self.fpin[f], self.fcount[f] = c, bool(p), n
        self.cpin, self.csum = {}, {}
        for c, p, fc, dc, w, b in rows(path, "select cluster_id, pinned, feature_count, docs_count, weight, doc_ids from cluster"):
            self.cpin[c] = bool(p)
            self.csum[c] = fc, dc, w, None if b is None else frozenset(BitMap.deserialize(b))

    def members(self):
        m = {}
        for f, c in self.assign.items():
            m.setdefault(c, set()).add(f)
        return m


def consistent(idx, what):
    s = State(idx.db_path)
    m = s.members()
    ensure(set(m) == set(s.cpin), "%s: clusters listed %s, clusters with features %s", what, sorted(s.cpin), sorted(m))
    for c, fs in m.items():
        u = frozenset().union(*(s.sets[f] for f in fs))
        want = len(fs), len(u), sum(len(s.sets[f]) for f in fs), u
        ensure(s.csum[c] == want, "%s: cluster %s with features %s stores (features, docs, weight, doc set) %s"
               " instead of %s", what, c, sorted(fs), fmt(s.csum[c]), fmt(want))
    for f, n in s.fcount.items():
        ensure(n == len(s.sets[f]), "%s: feature %s stores count %s, matches %s", what, f, n, len(s.sets[f]))
    ensure(not idx.db.in_transaction, "%s: left inside a transaction", what)
    return s


def api_agrees(idx, s, what):
    m = s.members()
    ensure(list(idx.cluster_ids) == sorted(m), "%s: cluster_ids %s", what, idx.cluster_ids)
    ensure(set(idx.pinned_cluster_ids) == {c for c, p in s.cpin.items() if p}, "%s: pinned_cluster_ids", what)
    for c, fs in m.items():
        cf = idx.cluster_features(c)
        ensure(sorted(r[0] for r in cf) == sorted(fs), "%s: cluster_features(%s) = %s", what, c, cf)
        ensure(all(r[3] == len(s.sets[r[0]]) for r in cf), "%s: counts in cluster_features(%s) = %s", what, c, cf)
        ensure([r[3] for r in cf] == sorted((r[3] for r in cf), reverse=True), "%s: order of cluster_features", what)
        ensure(frozenset(idx.cluster_docs(c)) == s.csum[c][3], "%s: cluster_docs(%s)", what, c)
    top = idx.top_cluster_features(top_k=2)
    ensure(sorted((c, n) for c, n, _ in top) == sorted((c, s.csum[c][1]) for c in m), "%s: top_cluster_features", what)
    ensure([n for _, n, _ in top] == sorted((n for _, n, _ in top), reverse=True), "%s: cluster order", what)


def some(rng, xs, extra=()):
    xs = sorted(xs)
    out = [rng.choice(xs) for _ in range(rng.choice([0, 1, 1, 2, 3, len(xs)]))] if xs else []
    if rng.random() < 0.3:
        out = list(dict.fromkeys(out))
    if rng.random() < 0.2:
        out += list(extra)
    if rng.random() < 0.15:
        out = list(xs)
    return out


def container(rng, xs, ordered=False):
    """The same arguments as different kinds of collections."""
    k = rng.randrange(4)
    if ordered or k < 2:
        return list(xs)
    return tuple(xs) if k == 2 else (set(xs) if rng.random() < 0.5 else list(xs))


def unchanged(what, before, after, named=(), named_clusters=()):
    for f in set(before.assign) | set(after.assign):
        if f not in named:
            ensure(before.assign.get(f) == after.assign.get(f), "%s: feature %s not named moved from %s to %s", what, f,
                   before.assign.get(f), after.assign.get(f))
            ensure(before.fpin.get(f) == after.fpin.get(f), "%s: pin of feature %s changed", what, f)
            ensure(before.fcount.get(f) == after.fcount.get(f), "%s: count of feature %s changed", what, f)
    for c in set(before.cpin) & set(after.cpin):
        if c not in named_clusters:
            ensure(before.cpin[c] == after.cpin[c], "%s: pin of cluster %s changed", what, c)


def do_edit(rng, idx, s, log, kinds=None):
    """One random edit; checks its exact effect. Returns a description."""
    op = rng.choice(kinds or ["delc", "merge", "delf", "create", "create", "pinf", "pinc", "init"])
    m = s.members()
    if op == "delc":
        a = some(rng, m, extra=[999, -3])
        what = f"{log} delete_clusters({a})"
        idx.delete_clusters(container(rng, a))
        t = State(idx.db_path)
        gone = {f for f, c in s.assign.items() if c in a}
        ensure(t.assign == {f: c for f, c in s.assign.items() if f not in gone}, "%s: assignments %s -> %s", what,
               s.assign, t.assign)
        unchanged(what, s, t, gone)
    elif op == "merge":
        a = some(rng, m, extra=[998]) or ([rng.choice(sorted(m))] if m else [998])
        if rng.random() < 0.1:
            a = [997] + a
        what = f"{log} merge_clusters({a})"
        r = idx.merge_clusters(list(a))
        t = State(idx.db_path)
        ensure(r == a[0], "%s returned %s", what, r)
        moved = {f for f, c in s.assign.items() if c in a}
        ensure(t.assign == {f: (a[0] if c in a else c) for f, c in s.assign.items()}, "%s: assignments %s -> %s", what,
               s.assign, t.assign)
        ensure(t.fpin == s.fpin and t.fcount == s.fcount, "%s: pins or counts changed", what)
        unchanged(what, s, t, moved)
    elif op == "delf":
        a = some(rng, s.assign if rng.random() < 0.7 else s.fields, extra=[99999])
        what = f"{log} delete_features({a})"
        idx.delete_features(container(rng, a))
        t = State(idx.db_path)
        ensure(t.assign == {f: c for f, c in s.assign.items() if f not in a}, "%s: assignments %s -> %s", what, s.assign,
               t.assign)
        unchanged(what, s, t, a)
    elif op == "create":
        a = some(rng, s.fields if rng.random() < 0.6 else (s.assign or s.fields))
        what = f"{log} create_cluster_from_features({a})"
        c = idx.create_cluster_from_features(container(rng, a))
        t = State(idx.db_path)
        ensure(c not in m, "%s: id %s was in use by %s", what, c, m)
        want = dict(s.assign)
        want.update({f: c for f in a})
        ensure(t.assign == want, "%s: assignments %s -> %s, new id %s", what, s.assign, t.assign, c)
        unchanged(what, s, t, a, [c])
        ensure(all(t.fcount[f] == len(t.sets[f]) for f in a), "%s: counts of the new cluster", what)
    elif op == "pinf":
        a, v = some(rng, s.assign, extra=[99999]), rng.random() < 0.6
        what = f"{log} pin_features({a}, {v})"
        idx.pin_features(container(rng, a), v) if rng.random() < 0.5 or not v else idx.pin_features(container(rng, a))
        t = State(idx.db_path)
        ensure(t.assign == s.assign, "%s: assignments changed", what)
        ensure(t.fpin == {f: (v if f in a else p) for f, p in s.fpin.items()}, "%s: pins %s -> %s", what, s.fpin, t.fpin)
        unchanged(what, s, t, a)
    elif op == "pinc":
        a, v = some(rng, m, extra=[998]), rng.random() < 0.6
        what = f"{log} pin_clusters({a}, {v})"
        idx.pin_clusters(container(rng, a), pinned=v)
        t = State(idx.db_path)
        ensure(t.assign == s.assign and t.fpin == s.fpin, "%s: assignments or feature pins changed", what)
        ensure(t.cpin == {c: (v if c in a else p) for c, p in s.cpin.items()}, "%s: pins %s -> %s", what, s.cpin, t.cpin)
        unchanged(what, s, t, (), a)
    else:
        n = rng.choice([1, 2, 3, 7])
        mind = rng.choice([0, 1, 1, 2, 5])
        fields = None
        if rng.random() < 0.5:
            fields = some(rng, sorted(set(s.fields.values())) + ["nosuch"]) or None
        what = f"{log} initialise_clusters({n}, {mind}, {fields})"
        idx.initialise_clusters(n, min_docs=mind, include_fields=fields)
        t = State(idx.db_path)
        elig = {f for f in s.fields if len(s.sets[f]) >= mind and (not fields or s.fields[f] in fields)}
        ensure(set(t.assign) == elig, "%s: features assigned %s, eligible %s", what, sorted(t.assign), sorted(elig))
        tm = t.members()
        ensure(len(tm) == min(n, len(elig)), "%s: %s clusters for %s features", what, len(tm), len(elig))
        sizes = [len(x) for x in tm.values()] or [0]
        ensure(max(sizes) - min(sizes) <= 1, "%s: sizes %s", what, sizes)
        ensure(all(t.fcount[f] == len(t.sets[f]) for f in elig), "%s: counts differ from the index", what)
        ensure(not any(t.fpin.values()) and not any(t.cpin.values()), "%s: pins of the old model remain", what)
    return what


def start(rng, kinds=6, init=True):
    idx, docs = base_index(rng, kinds)
    log = f"index of {len(docs)} docs;"
    if init and rng.random() < 0.85:
        n = rng.choice([1, 2, 3, 5, 8])
        idx.initialise_clusters(n)
        log += f" initialise_clusters({n});"
    return idx, docs, log


REFINE_KINDS = ["plain", "plain", "target", "subset"]


def refine_args(rng, s, docs):
    m = sorted(s.members())
    a = {"iterations": rng.choice([1, 1, 2, 3, 4])}
    if rng.random() < 0.55 and m:
        a["cluster_ids"] = rng.sample(m, rng.randint(1, len(m)))
        if rng.random() < 0.2:
            a["cluster_ids"].append(rng.choice(m + [12345]))
    sel = len(set(a.get("cluster_ids", m)) & set(m))
    if rng.random() < 0.6:
        a["target_clusters"] = rng.choice([1, 1, max(1, sel - 1), max(1, sel // 2), sel + 1, sel + 2, sel + 4, sel or 1])
    if rng.random() < 0.35:
        a["probe_query"] = BitMap(d for d in range(len(docs)) if rng.random() < 0.5)
    if rng.random() < 0.5:
        a["group_test_batches"] = rng.choice([0, 1, 2, 3, 5])
    if rng.random() < 0.3:
        a["group_test_top_k"] = rng.choice([1, 2, 3])
    if rng.random() < 0.5:
        a["tolerance"] = rng.choice([0, 0.0001, 0.3, 1])
    if rng.random() < 0.6:
        a["move_acceptance_probability"] = rng.choice([0.0, 0.2, 0.9, 1.0])
    if rng.random() < 0.25:
        a["minimum_cluster_features"] = rng.choice([0, 1, 2, 3])
    return a


def do_refine(rng, idx, s, docs, log, which=("M05", "M06")):
    a = refine_args(rng, s, docs)
    what = (f"{log} state {s.assign} pinned features {[f for f, p in s.fpin.items() if p]} pinned clusters "
            f"{[c for c, p in s.cpin.items() if p]}; refine_clusters({a})")
    idx.refine_clusters(**a)
    t = State(idx.db_path)
    if "M05" in which:
        ensure(set(t.assign) == set(s.assign), "%s: features lost %s, added %s", what, set(s.assign) - set(t.assign),
               set(t.assign) - set(s.assign))
        m = s.members()
        sel = set(a["cluster_ids"]) & set(m) if a.get("cluster_ids") else set(m)
        for f, c in s.assign.items():
            if c not in sel:
                ensure(t.assign[f] == c, "%s: feature %s of unselected cluster %s is now in %s", what, f, c, t.assign[f])
            else:
                ensure(t.assign[f] in sel or t.assign[f] not in m,
                       "%s: feature %s of cluster %s moved to the unselected cluster %s", what, f, c, t.assign[f])
        after = {t.assign[f] for f, c in s.assign.items() if c in sel}
        limit = max(len(sel), a.get("target_clusters") or 0)
        ensure(len(after) <= limit, "%s: %s clusters afterwards, at most %s expected", what, len(after), limit)
        if not a.get("target_clusters") or a["target_clusters"] <= len(sel):
            ensure(after <= sel, "%s: new cluster ids %s without a larger target", what, after - sel)
        ensure(t.fpin == s.fpin, "%s: pins changed", what)
        ensure({c: p for c, p in t.cpin.items() if c not in sel} .items() >= {c: p for c, p in s.cpin.items() if c not in sel}.items(),
               "%s: pin status of unselected clusters changed", what)
    if "M06" in which:
        for f, p in s.fpin.items():
            if p:
                ensure(t.assign.get(f) == s.assign[f], "%s: pinned feature %s moved from %s to %s", what, f, s.assign[f],
                       t.assign.get(f))
        m, tm = s.members(), t.members()
        for c, p in s.cpin.items():
            if p:
                ensure(tm.get(c) == m[c], "%s: pinned cluster %s changed from %s to %s", what, c, m[c], tm.get(c))
                ensure(t.cpin.get(c), "%s: cluster %s lost its pin", what, c)
    return what


@check("M01", 2)
def histories(rng, i):
    idx, docs, log = start(rng)
    try:
        s = consistent(idx, log)
        for step in range(rng.randint(1, 7)):
            r = rng.random()
            if r < 0.22:
                log = do_refine(rng, idx, s, docs, log[-600:], ())
            elif r < 0.3:
                docs = gen_docs(rng, n=rng.choice([2, 6, 15]), words=[f"w{j}" for j in range(10)])
                idx.corpus = ListCorpus(docs)
                idx.index(doc_batch_size=5)
                log = f"{log} re-index {len(docs)} docs;"
            else:
                log = do_edit(rng, idx, s, log[-900:])
            s = consistent(idx, log)
            api_agrees(idx, s, log)
    finally:
        idx.close()
    return log


@check("M02", 2)
def edits(rng, i):
    idx, docs, log = start(rng)
    try:
        for step in range(rng.randint(1, 6)):
            s = State(idx.db_path)
            log = do_edit(rng, idx, s, log[-900:], ["delc", "merge", "delf", "create", "create", "pinf", "pinc"])
    finally:
        idx.close()
    return log


@check("M03", 2)
def initialise(rng, i):
    idx, docs, log = start(rng)
    try:
        for step in range(rng.randint(1, 3)):
            if rng.random() < 0.4:
                log = do_edit(rng, idx, State(idx.db_path), log[-600:])
            if rng.random() < 0.2:
                docs = gen_docs(rng, n=rng.choice([2, 6, 15]), words=[f"w{j}" for j in range(10)])
                idx.corpus = ListCorpus(docs)
                idx.index(doc_batch_size=5)
            s = State(idx.db_path)
            log = do_edit(rng, idx, s, log[-600:], ["init"])
            consistent(idx, log)
    finally:
        idx.close()
    return log


@check("M05", 2)
def refine(rng, i):
    idx, docs, log = start(rng)
    try:
        for step in range(rng.randint(1, 3)):
            s = State(idx.db_path)
            if rng.random() < 0.4:
                log = do_edit(rng, idx, s, log[-500:], ["delc", "merge", "delf", "create", "pinf", "pinc"])
                s = State(idx.db_path)
            log = do_refine(rng, idx, s, docs, log[-500:], ("M05",))
    finally:
        idx.close()
    return log


@check("M05", 1)
def refine_groups_direct(rng, i):
    """_refine_feature_groups on explicit clusterings."""
    idx, docs = base_index(rng)
    try:
        fids = [r[0] for r in rows(idx.db_path, "select feature_id from inverted_index")]
        rng.shuffle(fids)
        n = rng.choice([1, 2, 3, 5])
        ids = rng.sample(range(1, 30), n)
        cf = {c: set(fids[j::n]) for j, c in enumerate(ids) if fids[j::n]}
        given = {c: set(f) for c, f in cf.items()}
        pins = set(some(rng, fids)) if rng.random() < 0.5 else None
        a = {"iterations": rng.choice([1, 2, 3]), "pinned_features": pins}
        if rng.random() < 0.6:
            a["target_clusters"] = rng.randint(1, n + 3)
        if rng.random() < 0.4:
            a["group_test_batches"] = rng.choice([1, 2])
        a["move_acceptance_probability"] = rng.choice([0.0, 0.5, 1.0])
        a["tolerance"] = rng.choice([0, 0.05])
        what = fmt(f"_refine_feature_groups({cf}, {a})", 1500)
        out, new = idx._refine_feature_groups(cf, **a)
        ensure(cf == given, "%s: changed its argument to %s", what, cf)
        flat = [f for fs in out.values() for f in fs]
        ensure(sorted(flat) == sorted(f for fs in given.values() for f in fs), "%s: features are not conserved: %s", what, out)
        ensure(not set(new) & set(given), "%s: new ids %s reuse existing ones", what, new)
        ensure(set(out) <= set(given) | set(new), "%s: unexpected ids %s", what, set(out))
        ensure(len([c for c in out if out[c]]) <= max(len(given), a.get("target_clusters") or 0), "%s: too many clusters", what)
        for c, fs in given.items():
            for f in fs & (pins or set()):
                ensure(f in out.get(c, ()), "%s: pinned feature %s left cluster %s", what, f, c)
    finally:
        idx.close()
    return what


@check("M06", 2)
def pins(rng, i):
    idx, docs, log = start(rng)
    try:
        for step in range(rng.randint(1, 2)):
            for _ in range(rng.randint(1, 3)):
                s = State(idx.db_path)
                log = do_edit(rng, idx, s, log[-500:], ["pinf", "pinc", "pinf", "create", "delf"])
            s = State(idx.db_path)
            if rng.random() < 0.15 and s.assign:
                idx.pin_features(list(s.assign))
            if rng.random() < 0.1 and s.cpin:
                idx.pin_clusters(list(s.cpin))
            s = State(idx.db_path)
            log = do_refine(rng, idx, s, docs, log[-500:], ("M06",))
    finally:
        idx.close()
    return log


# --------------------------------------------------------------------- M04
class Nested(hindex.Index):
    """Operations made of other operations."""

    @hindex.atomic(writes=True)
    def combo(self, steps, peek):
        for st in steps:
            self.step(st)
            peek()

    @hindex.atomic()
    def combo_quiet(self, steps, peek):
        for st in steps:
            self.step(st)
            peek()

    @hindex.atomic()
    def look(self, exc):
        self.cluster_ids, self.top_cluster_features(2)
        raise exc

    def step(self, st):
        kind = st[0]
        if kind == "look":
            try:
                self.look(st[1])
            except (RuntimeError, KeyboardInterrupt):
                pass
        if kind == "call":
            getattr(self, st[1])(*st[2])
        elif kind == "raise":
            raise st[1]
        elif kind == "nest":
            self.combo(st[1], st[2])
        elif kind == "try":
            try:
                (self.combo if st[3] else self.combo_quiet)(st[1], st[2])
            except (RuntimeError, KeyboardInterrupt, sqlite3.Error):
                pass


def core(d):
    return {t: d[t] for t in d if t not in ("#user_version",)}


def gen_step(rng, s):
    op = rng.choice(["delete_clusters", "delete_features", "merge_clusters", "create_cluster_from_features",
                     "pin_features", "initialise_clusters", "refine_clusters"])
    m = sorted(s.members()) or [1]
    if op == "delete_clusters":
        args = (some(rng, m),)
    elif op == "merge_clusters":
        args = (some(rng, m) or m[:1],)
    elif op in ("delete_features", "pin_features"):
        args = (some(rng, s.assign),)
    elif op == "create_cluster_from_features":
        args = (some(rng, s.fields),)
    elif op == "initialise_clusters":
        args = (rng.randint(1, 3),)
    else:
        args = (1,)
    return ("call", op, args)


@check("M04", 2)
def single_op_fails(rng, i):
    idx, docs, log = start(rng, kinds=5)
    try:
        for _ in range(rng.randint(0, 2)):
            log = do_edit(rng, idx, State(idx.db_path), log[-400:])
        s = State(idx.db_path)
        before = core(dump(idx.db_path))
        st = gen_step(rng, s)
        exc = rng.choice([RuntimeError("injected"), KeyboardInterrupt(), sqlite3.OperationalError("injected")])
        real = idx.db
        at = rng.randint(1, 12)
        idx.db = FaultDB(real, at, exc, after=rng.random() < 0.6)
        if rng.random() < 0.2:
            idx.db._at = -1
            idx.pool.calls = 0
            idx.pool.fail_at = rng.randint(1, 3)
        what = f"{log[-500:]} {fmt(st)} failing with {exc!r} at statement {idx.db._at}"
        failed = False
        try:
            getattr(idx, st[1])(*st[2])
        except (RuntimeError, KeyboardInterrupt, sqlite3.OperationalError):
            failed = True
        idx.pool.fail_at = None
        idx.db = real
        exc = exc.with_traceback(None)  # the frames in it keep cursors open
        gc.collect()
        if failed:
            after = core(dump(idx.db_path))
            for t in before:
                ensure(before[t] == after[t], "%s: table %s changed from %s to %s", what, t, fmt(before[t], 600),
                       fmt(after[t], 600))
        ensure(not real.in_transaction, "%s: a transaction is left open", what)
        if not failed:
            consistent(idx, what)
        # usable: the next operation has its full effect
        s = State(idx.db_path)
        do_edit(rng, idx, s, what + "; then")
        consistent(idx, what + "; then another edit")
    finally:
        idx.close()
    return what


@check("M04", 2)
def nested_ops(rng, i):
    idx0, docs, log = start(rng, kinds=5)
    path = idx0.db_path
    idx0.close()
    idx = Nested(path, corpus=ListCorpus(docs), pool=InlinePool(), random_seed=rng.randrange(1000))
    try:
        before = core(dump(path))
        s = State(path)
        seen = []

        def peek():
            now = core(dump(path))
            ensure(now == before, "%s: another connection sees the changes of an unfinished operation", log)

        exc = rng.choice([RuntimeError("injected"), KeyboardInterrupt()])
        steps = [gen_step(rng, s) for _ in range(rng.randint(1, 3))]
        if rng.random() < 0.4:
            steps = [("nest", steps, peek)]
        mode = rng.choice(["ok", "fail", "caught", "caught"])
        if mode == "fail":
            steps.insert(rng.randint(0, len(steps)), ("raise", exc))
        expect = None
        if mode == "caught":
            inner = [gen_step(rng, s) for _ in range(rng.randint(1, 2))] + [("raise", exc)]
            steps.insert(rng.randint(0, len(steps)), ("try", inner, peek, rng.random() < 0.5))
        looks = rng.random() < 0.4
        if looks:
            steps.insert(rng.randint(0, len(steps)), ("look", rng.choice([RuntimeError("injected"), KeyboardInterrupt()])))
        log += f" nested {mode}: {fmt([x[:2] for x in steps], 400)} {exc!r}"
        failed = False
        try:
            (idx.combo if rng.random() < 0.6 else idx.combo_quiet)(steps, peek)
        except (RuntimeError, KeyboardInterrupt):
            failed = True
        exc = exc.with_traceback(None)
        gc.collect()
        ensure(failed == (mode == "fail"), "%s: failed is %s", log, failed)
        ensure(not idx.db.in_transaction, "%s: a transaction is left open", log)
        if failed:
            after = core(dump(path))
            ensure(after == before, "%s: stored data changed by a failed operation", log)
        t = consistent(idx, log)
        if mode == "caught" and len(steps) == 1 + looks:
            ensure(t.assign == s.assign and t.fpin == s.fpin, "%s: a failed inner operation left changes", log)
        do_edit(rng, idx, t, log + "; then")
        consistent(idx, log + "; then another edit")
    finally:
        idx.close()
    return log
