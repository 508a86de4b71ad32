"""Shared machinery of the concrete replay harness.

The harness runs the real code of /repo (imported from the working tree) on
generated inputs and compares it with executable versions of the contracts.
It is used (a) to search for and replay a failing input when an obligation of
the deductive verifier is not discharged and (b) as the bounded stand-in for
the parts of a property that are outside the verifier's reach.
"""
import atexit
import concurrent.futures as cf
import hashlib
import logging
import os
import pickle
import random
import shutil
import sqlite3
import sys
import tempfile
import threading
import time
import types
import warnings
import zlib

REPO = os.environ.get("HYPERREAL_REPO", "/repo")
sys.path.insert(0, REPO)
sys.dont_write_bytecode = True
warnings.simplefilter("ignore")
logging.disable(logging.CRITICAL)

import multiprocessing as _mp  # noqa: E402

import hyperreal  # noqa: E402
from hyperreal import _index_schema, corpus, db_utilities, utilities  # noqa: E402
from hyperreal import index as hindex  # noqa: E402
from pyroaring import BitMap, FrozenBitMap, AbstractBitMap  # noqa: E402

assert os.path.realpath(hyperreal.__file__).startswith(os.path.realpath(REPO) + os.sep), hyperreal.__file__

SCRATCH = tempfile.mkdtemp(prefix="hyperreal-replay-")
atexit.register(shutil.rmtree, SCRATCH, True)
_n = [0]


def scratch(suffix=""):
    _n[0] += 1
    return os.path.join(SCRATCH, f"f{_n[0]}{suffix}")


class Violation(AssertionError):
    pass


def ensure(cond, msg, *args):
    if not cond:
        raise Violation(msg % args if args else msg)


# ------------------------------------------------------------ worker pools
class InlinePool:
    """Executes submitted work immediately; arguments and results are pickled
    as a process pool would do, so nothing is shared with the caller."""

    def __init__(self, workers=2):
        self._max_workers = workers
        self.fail_at = None
        self.calls = 0

    def submit(self, fn, *a, **k):
        self.calls += 1
        f = cf.Future()
        if self.fail_at is not None and self.calls >= self.fail_at:
            self.fail_at = None
            f.set_exception(RuntimeError("injected worker failure"))
            return f
        try:
            fn2, a2, k2 = pickle.loads(pickle.dumps((fn, a, k)))
            f.set_result(pickle.loads(pickle.dumps(fn2(*a2, **k2))))
        except Exception as e:
            f.set_exception(e)
        return f

    def map(self, fn, *its, timeout=None, chunksize=1):
        fs = [self.submit(fn, *a) for a in zip(*its)]
        return (f.result() for f in fs)

    def shutdown(self, *a, **k):
        pass


class ShufflePool(InlinePool):
    """Runs pending work in a seeded random order on one background thread."""

    def __init__(self, seed, workers=3):
        super().__init__(workers)
        self.rng = random.Random(seed)
        self.pending = []
        self.cv = threading.Condition()
        self.stop = False
        self.t = threading.Thread(target=self._run, daemon=True)
        self.t.start()

    def submit(self, fn, *a, **k):
        f = cf.Future()
        with self.cv:
            self.pending.append((f, pickle.dumps((fn, a, k))))
            self.cv.notify()
        return f

    def _run(self):
        while True:
            with self.cv:
                while not self.pending and not self.stop:
                    self.cv.wait()
                if self.stop:
                    return
            time.sleep(0.001)
            with self.cv:
                f, data = self.pending.pop(self.rng.randrange(len(self.pending)))
            try:
                fn, a, k = pickle.loads(data)
                f.set_result(pickle.loads(pickle.dumps(fn(*a, **k))))
            except BaseException as e:
                f.set_exception(e)

    def shutdown(self, *a, **k):
        with self.cv:
            self.stop = True
            self.cv.notify()


class FakeLock:
    _locks = {}

    def __init__(self, n):
        self.n = n
        FakeLock._locks.setdefault(n, threading.RLock())

    def __enter__(self):
        FakeLock._locks.setdefault(self.n, threading.RLock()).acquire()

    def __exit__(self, *a):
        FakeLock._locks[self.n].release()

    def acquire(self, *a, **k):
        return FakeLock._locks.setdefault(self.n, threading.RLock()).acquire()

    def release(self):
        FakeLock._locks[self.n].release()


class FakeManager:
    count = 0

    def Lock(self):
        FakeManager.count += 1
        return FakeLock(FakeManager.count)

    RLock = Lock

    def shutdown(self):
        pass

    def __enter__(self):
        return self

    def __exit__(self, *a):
        pass


# indexing starts a manager process only to obtain a lock; an in-process lock
# has the same meaning for the in-process pools used here.
if getattr(hindex, "mp", None) is not None:
    hindex.mp = types.SimpleNamespace(**{n: getattr(_mp, n) for n in dir(_mp) if not n.startswith("__")})
    hindex.mp.Manager = FakeManager


# ------------------------------------------------------------------ corpora
class ListCorpus(corpus.WebRenderableCorpus, corpus.TableRenderableCorpus):
    """docs: list of (key, {field: list | set}) pairs."""

    CORPUS_TYPE = "replay list corpus"
    table_fields = ["text"]

    def __init__(self, docs, fail_doc=None, fail_keys=None):
        self._docs = list(docs)
        self._map = dict(self._docs)
        self.fail_doc = fail_doc
        self.fail_keys = fail_keys

    def __getstate__(self):
        return self._docs, self.fail_doc, self.fail_keys

    def __setstate__(self, s):
        self.__init__(*s)

    def keys(self):
        for i, (k, _) in enumerate(self._docs):
            if self.fail_keys is not None and i == self.fail_keys:
                raise RuntimeError("injected key failure")
            yield k

    def docs(self, doc_keys=None):
        if doc_keys is None:
            doc_keys = [k for k, _ in self._docs]
        for k in doc_keys:
            if self.fail_doc is not None and k == self.fail_doc:
                raise RuntimeError("injected document failure")
            yield k, {"key": k, "features": self._map[k]}

    def index(self, doc):
        return {f: (list(v) if isinstance(v, (list, tuple)) else set(v)) for f, v in doc["features"].items()}

    def render_docs_html(self, doc_keys):
        return [(k, f"<p>{k}</p>") for k, _ in self.docs(doc_keys)]

    def render_docs_table(self, doc_keys):
        return [(k, {"text": f"text of {k}"}) for k, _ in self.docs(doc_keys)]

    def close(self):
        pass


WORDS = ["a", "b", "c", "d", "e", "f", "it's", "", "A", " x", "0", "10", "caf\u00e9", "a,b", "\u4e2d"]


def gen_docs(rng, n=None, set_only=False, words=None, maxlen=9, tag="k"):
    """A random corpus with a sequence field, a set field and a sparse field."""
    n = rng.choice([0, 1, 2, 3, 5, 8, 12, 20, 33]) if n is None else n
    words = words or WORDS[: rng.randint(2, len(WORDS))]
    docs = []
    style = rng.randrange(4)
    keys = list(range(n))
    if style == 0:
        keys = [f"{tag}{i}" for i in keys]
    elif style == 1:
        keys = [f"{tag}{(i * 7919) % 1000003}" for i in keys]  # not in sorted order
    elif style == 2:
        keys = [1000 - 3 * i for i in keys]
    rng2 = rng.random()
    for k in keys:
        d = {}
        if rng.random() < 0.9:
            seq = [rng.choice(words) for _ in range(0 if rng.random() < 0.15 else rng.randint(1, maxlen))]
            d["text"] = set(seq) if set_only else seq
        if rng.random() < 0.7:
            d["tag"] = {rng.choice([1, 2, 3, 4, "x", "y", 2.5]) for _ in range(rng.randint(0, 3))}
        if rng.random() < 0.2 + rng2 / 2:
            d["title"] = [rng.choice(words) for _ in range(rng.randint(0, 3))]
        if rng.random() < 0.2:
            d["opt"] = {None, rng.choice(words)}
        docs.append((k, d))
    return docs


def true_postings(docs):
    out = {}
    for i, (_, d) in enumerate(docs):
        for f, vs in d.items():
            for v in set(vs):
                if v is not None:
                    out.setdefault((f, v), set()).add(i)
    return out


def make_index(docs, path=None, pool=None, seed=0, **kw):
    """An index of the documents; for some documents the object has indexed and read other content before."""
    path = path or scratch(".db")
    idx = hindex.Index(path, corpus=ListCorpus(docs), pool=pool or InlinePool(), random_seed=seed)
    if docs and pool is None and zlib.crc32(repr(docs).encode()) % 4 == 0:
        idx.corpus = ListCorpus(earlier(docs))
        idx.index(**kw)
        used(idx)
        idx.corpus = ListCorpus(docs)
    idx.index(**kw)
    return idx


def earlier(docs):
    """Another corpus with the same values: other keys, more documents, in another order."""
    keys = [k for k, _ in docs]
    feats = [d for _, d in docs]
    k2 = [f"old{k}" if isinstance(k, str) else k + 100003 for k in keys]
    return list(zip(keys[::-1], feats)) + list(zip(k2, feats[len(feats) // 2:] + feats))[: len(docs) // 2 + 1]


def used(idx):
    """Reads from an index, as earlier use of the object would."""
    feats = list(idx.db.execute("select feature_id, field, value from inverted_index"))
    n = len(list(idx.db.execute("select 1 from doc_key")))
    for f, fld, v in feats:
        idx[f], idx[fld, v], idx.lookup_feature(f), idx.lookup_feature_id((fld, v))
    everything = BitMap(range(n))
    list(idx.docs(everything))
    idx.render_docs_html(everything)
    idx.render_docs_table(everything)
    for fld in sorted({f[1] for f in feats}):
        idx.intersect_queries_with_field({"all": everything}, fld)
    list(idx.extract_matching_feature_windows(everything, [f[0] for f in feats[:3]], 2))
    for fld in sorted(idx.positional_fields):
        ids = [f[0] for f in feats if f[1] == fld][:2]
        idx.score_passages_dnf([ids], 2)
        idx.count_collocations(fld, ids, 2)
    idx.indexed_field_summary()
    if feats:
        idx.initialise_clusters(3)
        for c in idx.cluster_ids:
            idx.cluster_query(c), idx.cluster_docs(c), idx.cluster_features(c)
        list(idx.pivot_clusters_by_query(everything))
        idx.create_cluster_cooccurrence_graph()
        idx.structured_doc_sample(1)
        idx.top_cluster_features()
        idx.delete_clusters(idx.cluster_ids)


# ------------------------------------------------------- independent reader
def _bm(b):
    return None if b is None else frozenset(BitMap.deserialize(b))


def dump(path, tables=None):
    """Committed content of an index database, read on an own connection."""
    con = sqlite3.connect(path, isolation_level=None)
    try:
        out = {}
        names = tables or [
            r[0] for r in con.execute("select name from sqlite_master where type='table' and name not like 'sqlite_%'")
        ]
        con.execute("begin")
        for t in names:
            cur = con.execute(f'select * from "{t}"')
            cols = [c[0] for c in cur.description]
            rows = []
            for r in cur:
                rows.append(
                    tuple(
                        _bm(v) if c in ("doc_ids", "positions", "doc_boundaries") and isinstance(v, bytes) else v
                        for c, v in zip(cols, r)
                    )
                )
            out[t] = (tuple(cols), sorted(rows, key=repr))
        con.execute("commit")
        out["#user_version"] = con.execute("pragma user_version").fetchall()
        return out
    finally:
        con.close()


def rows(path, sql, args=()):
    con = sqlite3.connect(path, isolation_level=None)
    try:
        return con.execute(sql, args).fetchall()
    finally:
        con.close()


class FaultDB:
    """Connection stand-in that raises at the n-th statement (before or after
    executing it). Statements that end or undo a transaction never fail."""

    def __init__(self, db, at, exc, after=False):
        self.__dict__.update(_db=db, _at=at, _exc=exc, _after=after, _c=0, _fired=False, _commits=0)

    def _step(self, sql, run):
        word = sql.strip().split(None, 1)[0].lower() if sql.strip() else ""
        if word == "commit":
            self._commits += 1
        if word in ("rollback", "release", "commit", "pragma", "detach", "end", "begin", "savepoint"):
            return run()
        self._c += 1
        if self._c == self._at and not self._fired:
            self._fired = True
            if self._after and word != "attach":
                run()
            raise self._exc
        return run()

    def __setattr__(self, k, v):
        if k.startswith("_"):
            self.__dict__[k] = v
        else:
            setattr(self._db, k, v)

    def execute(self, sql, *a):
        return self._step(sql, lambda: self._db.execute(sql, *a))

    def executemany(self, sql, *a):
        return self._step(sql, lambda: self._db.executemany(sql, *a))

    def __getattr__(self, k):
        return getattr(self._db, k)


# ------------------------------------------------------------- registration
CHECKS = {}


def check(prop, weight=1, thorough_only=False):
    """Register `fn(rng, i)`; it must raise Violation when the property fails."""

    def deco(fn):
        CHECKS.setdefault(prop, []).append((fn, weight))
        return fn

    return deco


def fmt(x, n=900):
    s = repr(x)
    return s if len(s) <= n else s[:n] + "..."
