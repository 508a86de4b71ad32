"""K01 plain text corpus, S01 opening and migration, W01 web interface."""
import io
import shutil
import sqlite3
from urllib.parse import urlencode

from .common import (BitMap, FaultDB, FrozenBitMap, InlinePool, ListCorpus, _index_schema, check, corpus, dump, ensure,
                     fmt, gen_docs, hindex, make_index, rows, scratch, utilities)
from .h_model import State, api_agrees, base_index, consistent, do_edit, some

# --------------------------------------------------------------------- K01
TEXTS = ["", " ", "hello", "Hello", "a,b", '"q"', "it's", "caf\u00e9 \u4e2d\u6587", "line\nbreak", "x" * 3000, "0", "1.5", "NULL"]


def plain(path):
    return corpus.PlainTextSqliteCorpus(path)


def check_plain(rng, c, path, texts, what):
    con = sqlite3.connect(path)
    got = [r[0] for r in con.execute("select text from doc order by doc_id")]
    con.close()
    ensure(got == texts, "%s: stored %s instead of %s", what, fmt(got), fmt(texts))
    keys = list(c.keys())
    ensure(len(keys) == len(set(keys)) == len(texts), "%s: keys %s", what, keys)
    by = {}
    for k, d in c.docs():
        ensure(k not in by, "%s: docs() repeats %s", what, k)
        by[k] = d["text"]
    ensure([by[k] for k in sorted(by)] == texts and set(by) == set(keys), "%s: docs() gives %s", what, fmt(by))
    if keys:
        ask = [rng.choice(keys) for _ in range(rng.randint(0, 5))]
        if rng.random() < 0.5:
            ask = list(dict.fromkeys(ask))
        for src in (ask, tuple(ask), iter(ask)):
            got = [(k, d["text"]) for k, d in c.docs(doc_keys=src)]
            ensure(got == [(k, by[k]) for k in ask], "%s: docs(%s) gives %s", what, ask, fmt(got))
        for k, d in c.docs(doc_keys=ask):
            ensure(d["doc_id"] == k, "%s: document %s has id %s", what, k, d["doc_id"])
        ensure([(k, t) for k, t in c.render_docs_html(ask)] == [(k, by[k]) for k in ask], "%s: render_docs_html(%s)", what, ask)
        ensure([(k, t) for k, t in c.render_docs_table(ask)] == [(k, {"text": by[k]}) for k in ask], "%s: render_docs_table(%s)", what, ask)
        k = rng.choice(keys)
        ensure(c.index({"text": by[k]}) == {"text": utilities.tokens(by[k])}, "%s: index", what)
    ensure(list(c.docs(doc_keys=[])) == [], "%s: docs([])", what)
    ensure(not c.db.in_transaction, "%s: a transaction is left open", what)


@check("K01", 1)
def plain_text(rng, i):
    path = scratch(".db")
    c = plain(path)
    what = ""
    try:
        old = None
        for step in range(rng.randint(1, 4)):
            texts = [rng.choice(TEXTS) if rng.random() < 0.5 else f"t{rng.randrange(5)}" for _ in range(rng.choice([0, 1, 2, 3, 7, 20]))]
            mode = rng.choice(["ok", "ok", "gen", "fail", "db"]) if old is not None else "ok"
            what += f" replace_docs({fmt(texts, 300)}) {mode}"
            if mode in ("ok", "gen"):
                c.replace_docs(list(texts) if mode == "ok" else (t for t in texts))
                old = texts
            else:
                exc = rng.choice([RuntimeError("injected"), KeyboardInterrupt()])
                at = rng.randint(0, len(texts))

                def feed():
                    for j, t in enumerate(texts):
                        if j == at:
                            raise exc
                        yield t
                    raise exc

                real = c.db
                if mode == "db":
                    n = rng.randint(1, 5)
                    c.__dict__["_db"] = FaultDB(real, n, exc, after=rng.random() < 0.5) if "_db" in c.__dict__ else real
                failed = False
                try:
                    c.replace_docs(feed() if mode == "fail" else list(texts))
                except (RuntimeError, KeyboardInterrupt, sqlite3.Error):
                    failed = True
                if mode == "db" and "_db" in c.__dict__:
                    fired = getattr(c.__dict__["_db"], "_fired", False)
                    c.__dict__["_db"] = real
                else:
                    fired = mode == "fail"
                if fired:
                    ensure(failed, "%s: the failure is not reported", what)
                if not failed:
                    old = texts
            check_plain(rng, c, path, old, what)
            if rng.random() < 0.3:
                c.close()
                c = plain(path)
                check_plain(rng, c, path, old, what + " reopened")
    finally:
        c.close()
    return what


# --------------------------------------------------------------------- S01
V4 = """
CREATE TABLE doc_key (doc_id integer primary key, doc_key unique);
CREATE TABLE inverted_index (feature_id integer primary key, field text not null, value not null,
    docs_count integer not null, doc_ids roaring_bitmap not null, unique (field, value));
CREATE TABLE field_summary (field text primary key, distinct_values integer, min_value, max_value);
CREATE INDEX docs_counts on inverted_index(docs_count);
CREATE TABLE cluster (cluster_id integer primary key, feature_count integer default 0 {stats} {cpin});
CREATE TABLE feature_cluster (feature_id integer primary key references inverted_index(feature_id) on delete cascade,
    cluster_id integer references cluster(cluster_id) on delete cascade, docs_count integer {fpin});
CREATE INDEX cluster_features on feature_cluster(cluster_id, docs_count)
"""
V4_TRIGGERS = [
    """CREATE TRIGGER ensure_cluster before insert on feature_cluster begin
        insert or ignore into cluster(cluster_id) values (new.cluster_id);
        update cluster set feature_count = feature_count + 1 where cluster_id = new.cluster_id; end""",
    """CREATE TRIGGER delete_feature_cluster after delete on feature_cluster begin
        update cluster set feature_count = feature_count - 1 where cluster_id = old.cluster_id;
        delete from cluster where cluster_id = old.cluster_id and feature_count = 0; end""",
    """CREATE TRIGGER ensure_cluster_update before update on feature_cluster when old.cluster_id != new.cluster_id begin
        insert or ignore into cluster(cluster_id) values (new.cluster_id); end""",
    """CREATE TRIGGER update_cluster_feature_counts after update on feature_cluster when old.cluster_id != new.cluster_id begin
        update cluster set feature_count = feature_count + 1 where cluster_id = new.cluster_id;
        update cluster set feature_count = feature_count - 1 where cluster_id = old.cluster_id;
        delete from cluster where cluster_id = old.cluster_id and feature_count = 0; end""",
]
V4_9 = (4, 5, 6, 7, 8, 9)


def old_index(rng, version, src, path):
    """A database as that version stored it, with the content of index `src`."""
    con = sqlite3.connect(path, isolation_level=None)
    stats = ", docs_count integer default 0, weight integer default 0, doc_ids roaring_bitmap" if version > 4 else ""
    pin = ", pinned bool default 0" if version > 7 else ""
    for st in V4.format(stats=stats, cpin=pin, fpin=pin).split(";"):
        con.execute(st)
    con.execute("attach ? as src", (src,))
    for t in ("doc_key", "inverted_index"):
        con.execute(f"insert into main.{t} select * from src.{t}")
    con.execute("insert into field_summary select field, distinct_values, min_value, max_value from src.field_summary")
    cols = ["cluster_id", "feature_count"] + (["docs_count", "weight", "doc_ids"] if stats else []) + (["pinned"] if pin else [])
    con.execute(f"insert into main.cluster({','.join(cols)}) select {','.join(cols)} from src.cluster")
    cols = ["feature_id", "cluster_id", "docs_count"] + (["pinned"] if pin else [])
    con.execute(f"insert into main.feature_cluster({','.join(cols)}) select {','.join(cols)} from src.feature_cluster")
    con.execute("detach src")
    if version <= 6:
        for t in V4_TRIGGERS:
            con.execute(t)
    if version >= 6 and rng.random() < 0.5:
        con.execute("create table skipgram_count(a, b, c)")
    con.execute(f"pragma user_version={version}")
    con.execute(f"pragma application_id={_index_schema.MAGIC_APPLICATION_ID}")
    con.close()


@check("S01", 3)
def migrations(rng, i):
    idx, docs = base_index(rng)
    if rng.random() < 0.85:
        idx.initialise_clusters(rng.choice([1, 2, 5]))
        for _ in range(rng.randint(0, 2)):
            do_edit(rng, idx, State(idx.db_path), "", ["delf", "create", "merge", "pinf", "pinc"])
    src = idx.db_path
    s = State(src)
    idx.close()
    con = sqlite3.connect(src)
    con.execute("pragma wal_checkpoint(truncate)")
    con.close()
    version = rng.choice(V4_9)
    path = scratch(".db")
    old_index(rng, version, src, path)
    what = f"index of {len(docs)} docs, clusters {s.members()}, stored as version {version}"
    corp = ListCorpus(docs) if rng.random() < 0.6 else None
    what += " and opened " + ("with" if corp else "without") + " its corpus"
    new = hindex.Index(path, corpus=corp, pool=InlinePool())
    try:
        a, b = dump(src), dump(path)
        ensure(b["#user_version"] == a["#user_version"], "%s: version afterwards %s", what, b["#user_version"])
        for t in ("doc_key", "inverted_index"):
            ensure(a[t] == b[t], "%s: table %s changed", what, t)
        q = "select field, distinct_values, min_value, max_value, 0 from field_summary order by 1"
        q2 = "select field, distinct_values, min_value, max_value, coalesce(position_count, 0) from field_summary order by 1"
        ensure(rows(src, q) == rows(path, q2), "%s: field summary %s", what, rows(path, q2))
        t = consistent(new, what)
        ensure(t.assign == s.assign, "%s: assignments %s", what, t.assign)
        if version > 7:
            ensure(t.fpin == s.fpin and t.cpin == s.cpin, "%s: pins changed", what)
        api_agrees(new, t, what)
        # and works like a current index from now on
        do_edit(rng, new, t, what + "; then")
        consistent(new, what + "; then an edit")
        if rng.random() < 0.3 and corp:
            new.index(doc_batch_size=3, index_positions=True)
            consistent(new, what + "; then re-indexed")
        do_edit(rng, new, State(path), what + "; then", ["create"])
        consistent(new, what + "; then another edit")
    finally:
        new.close()
    before = dump(path)
    again = hindex.Index(path)
    again.close()
    ensure(dump(path) == before, "%s: opening it again changed it", what)
    return what


@check("S01", 1)
def opening(rng, i):
    kind = rng.choice(["new", "current", "unrelated", "unknown", "unknown"])
    path = scratch(".db")
    if kind == "new":
        idx = hindex.Index(path, pool=InlinePool())
        ensure(hindex.Index.is_index_db(path), "new index is not recognised")
        ensure(idx.cluster_ids == [] and len(idx[0]) == 0, "a new index is not empty")
        idx.close()
        cols = {t: c for t, (c, r) in ((k, v) for k, v in dump(path).items() if k[0] != "#")}
        ensure({"doc_key", "inverted_index", "cluster", "feature_cluster", "position_index"} <= set(cols), "tables %s", cols)
        return kind
    if kind == "current":
        idx, docs = base_index(rng)
        idx.initialise_clusters(2)
        if rng.random() < 0.5:
            idx.pin_features([1, 2])
        idx.close()
        before = dump(idx.db_path)
        for _ in range(2):
            hindex.Index(idx.db_path).close()
            ensure(dump(idx.db_path) == before, "opening a current index changed it")
        return kind, len(docs)
    version = 0 if kind == "unrelated" else rng.choice([1, 2, 3, 11, 12, 99, -1, 2**31 - 1])
    con = sqlite3.connect(path)
    tables = rng.sample(["mine", "cluster", "doc_key", "settings", "inverted_index", "field_summary"], rng.randint(1, 3))
    for t in tables:
        con.execute(f"create table {t}(key, value)")
        con.execute(f"insert into {t} values('k', 'v')")
    if kind == "unrelated" and rng.random() < 0.3:
        con.execute(f"create view vw as select * from {tables[0]}")
    con.execute(f"pragma user_version={version}")
    con.commit()
    con.close()
    schema = rows(path, "select type, name, sql from sqlite_master")
    before = dump(path)
    what = f"{kind} database with tables {tables} and version {version}"
    try:
        hindex.Index(path, pool=InlinePool())
    except _index_schema.MigrationError:
        pass
    except Exception as e:
        ensure(False, "%s: refused with %r", what, e)
    else:
        ensure(False, "%s: was opened as an index", what)
    ensure(rows(path, "select type, name, sql from sqlite_master") == schema and dump(path) == before, "%s: was changed", what)
    return what


# --------------------------------------------------------------------- W01
class Web:
    def __init__(self, path, docs):
        import cherrypy
        from hyperreal import server

        self.server = server
        self.cherrypy = cherrypy
        cherrypy.config.update({"environment": "embedded", "log.screen": False})
        cherrypy.log.screen = False
        self.sis = server.SingleIndexServer(path, corpus_class=ListCorpus, corpus_args=[docs], pool=InlinePool())
        self.app = cherrypy.Application(server.IndexOverview(), "/index", {"/": {"index_server": self.sis}})

    def request(self, method, url, params=()):
        q = urlencode(params, doseq=True)
        body = b""
        env = {"REQUEST_METHOD": method, "SCRIPT_NAME": "/index", "PATH_INFO": url, "SERVER_NAME": "x", "SERVER_PORT": "80",
               "SERVER_PROTOCOL": "HTTP/1.1", "wsgi.version": (1, 0), "wsgi.url_scheme": "http", "wsgi.multithread": False,
               "wsgi.multiprocess": False, "wsgi.run_once": False, "wsgi.errors": io.StringIO(), "QUERY_STRING": "",
               "REMOTE_ADDR": "127.0.0.1", "HTTP_HOST": "x"}
        if method == "POST":
            body = q.encode()
            env["CONTENT_TYPE"] = "application/x-www-form-urlencoded"
            env["CONTENT_LENGTH"] = str(len(body))
        else:
            env["QUERY_STRING"] = q
        env["wsgi.input"] = io.BytesIO(body)
        out = {}

        def start_response(status, headers, exc_info=None):
            out["status"], out["headers"] = int(status.split()[0]), dict(headers)

        it = self.app(env, start_response)
        data = b"".join(it)
        if hasattr(it, "close"):
            it.close()
        return out["status"], out["headers"], data


def handlers(obj, prefix, seen):
    """All exposed handlers below a CherryPy node, by walking the objects."""
    out = []
    for name in dir(type(obj)):
        if name.startswith("__"):
            continue
        a = getattr(obj, name)
        if callable(a) and getattr(a, "exposed", False):
            out.append((prefix if name == "index" else f"{prefix}{name}", a))
        elif type(a).__module__ == type(obj).__module__ and id(a) not in seen:
            seen.add(id(a))
            out += handlers(a, f"{prefix}{name}/", seen)
    return out


_pages = []


def pages():
    if not _pages:
        from hyperreal import server

        seen = set()
        found = handlers(server.Index(), "/0/", seen) + handlers(server.Cluster(), "/0/cluster/{c}/", seen) + handlers(server.IndexOverview(), "/", seen)
        _pages.extend(sorted({u for u, _ in found} | {"/0/cluster/{c}/", "/0/"}))
    return _pages


MUTATORS = {"/0/cluster/delete", "/0/cluster/create", "/0/cluster/merge", "/0/cluster/refine", "/0/cluster/pin",
            "/0/feature/remove_from_model", "/0/feature/pin", "/0/recreate_model", "/0/refine_model"}


def web(rng):
    idx, docs = base_index(rng, kinds=5)
    if rng.random() < 0.9:
        idx.initialise_clusters(rng.choice([1, 2, 4]))
    if rng.random() < 0.3:
        do_edit(rng, idx, State(idx.db_path), "", ["pinf", "pinc", "create"])
    idx.close()
    return Web(idx.db_path, docs), idx.db_path, docs


@check("W01", 1)
def get_pages(rng, i):
    w, path, docs = web(rng)
    before = dump(path)
    s = State(path)
    log = []
    for _ in range(12):
        url = rng.choice(pages())
        c = rng.choice(sorted(s.cpin) or [0])
        f = rng.choice(sorted(s.sets) or [1])
        params = []
        if rng.random() < 0.6:
            params.append(("feature_id", f))
        if rng.random() < 0.6 and "{c}" not in url:
            params.append(("cluster_id", c))
        if rng.random() < 0.3:
            params.append(("filter_cluster_id", c))
        if rng.random() < 0.4:
            params.append(("result_type", rng.choice(["document", "concordance", "passage"])))
        if url.endswith("search"):
            params = [("field", "text"), ("value", "w0")]
        for k in ("pinned", "return_cluster_id", "target_clusters", "iterations", "clusters", "min_docs", "include_fields"):
            if rng.random() < 0.1:
                params.append((k, "text" if k == "include_fields" else 1))
        method = rng.choice(["GET", "GET", "GET", "HEAD", "PUT", "DELETE", "PATCH"])
        u = url.replace("{c}", str(c))
        if url in MUTATORS:
            params = [p for p in params if p[0] in {"/0/cluster/delete": ("cluster_id",), "/0/cluster/create": ("feature_id",), "/0/cluster/merge": ("cluster_id",),
                      "/0/cluster/refine": ("cluster_id", "target_clusters"), "/0/cluster/pin": ("cluster_id", "pinned"),
                      "/0/feature/remove_from_model": ("feature_id",), "/0/feature/pin": ("feature_id", "pinned"),
                      "/0/recreate_model": ("clusters", "min_docs"), "/0/refine_model": ("iterations",)}[url]]
        elif method != "GET":
            method = "GET"
        st, _, _ = w.request(method, u, params)
        log.append((method, u, params, st))
        ensure(dump(path) == before, "%s changed the stored index (status %s); pages before: %s", (method, u, params), st, log[:-1])
        if url in MUTATORS:
            ensure(st == 405, "%s is accepted with status %s", (method, u, params), st)
    return log


@check("W01", 2)
def post_actions(rng, i):
    w, path, docs = web(rng)
    log = ""
    for _ in range(2):
        s = State(path)
        m = s.members()
        url = rng.choice(sorted(MUTATORS))
        if not m and url not in ("/0/cluster/create", "/0/recreate_model"):
            continue
        clusters = some(rng, m) or sorted(m)[:1]
        feats = some(rng, s.assign if "feature" in url else s.fields) or sorted(s.fields)[:1]
        pin = rng.choice([0, 1])
        p = []
        if url == "/0/cluster/delete":
            p = [("cluster_id", c) for c in clusters]
            if rng.random() < 0.5:
                p.append(("return_cluster_id", clusters[0]))
            want = {f: c for f, c in s.assign.items() if c not in clusters}, s.fpin, s.cpin
        elif url == "/0/cluster/merge":
            p = [("cluster_id", c) for c in clusters]
            want = {f: clusters[0] if c in clusters else c for f, c in s.assign.items()}, s.fpin, s.cpin
        elif url == "/0/cluster/create":
            p = [("feature_id", f) for f in feats]
            want = None
        elif url == "/0/cluster/pin":
            p = [("cluster_id", c) for c in clusters] + [("pinned", pin)]
            want = s.assign, s.fpin, {c: bool(pin) if c in clusters else x for c, x in s.cpin.items()}
        elif url == "/0/feature/remove_from_model":
            p = [("feature_id", f) for f in feats]
            want = {f: c for f, c in s.assign.items() if f not in feats}, s.fpin, s.cpin
        elif url == "/0/feature/pin":
            p = [("feature_id", f) for f in feats] + [("pinned", pin)]
            want = s.assign, {f: bool(pin) if f in feats else x for f, x in s.fpin.items()}, s.cpin
        elif url == "/0/recreate_model":
            n, mind = rng.choice([1, 2, 3]), rng.choice([1, 2])
            flds = rng.choice([[], [], ["text"], ["text", "tag"]])
            p = [("clusters", n), ("min_docs", mind), ("iterations", 1)] + [("include_fields", x) for x in flds]
            want = None
        elif url == "/0/cluster/refine":
            tgt = rng.choice([None, 1, len(clusters) + 1])
            p = [("cluster_id", c) for c in clusters] + [("iterations", 1)] + ([("target_clusters", tgt)] if tgt else [])
            want = None
        else:
            p = [("iterations", 1)] + ([("target_clusters", rng.choice([0, 1, len(m) + 1]))] if rng.random() < 0.5 else [])
            want = None
        what = f"{log} model {s.assign} pins {s.fpin} {s.cpin}: POST {url} {p}"
        st, h, body = w.request("POST", url, p)
        ensure(st in (302, 303), "%s: status %s", what, st)
        t = State(path)
        if want:
            a, fp, cp = want
            ensure(t.assign == a, "%s: assignments are %s instead of %s", what, t.assign, a)
            ensure(t.fpin == {f: fp[f] for f in a}, "%s: feature pins %s", what, t.fpin)
            ensure(t.cpin == {c: cp[c] for c in set(a.values())}, "%s: cluster pins %s", what, t.cpin)
        elif url == "/0/cluster/create":
            new = set(t.assign[f] for f in feats)
            ensure(len(new) == 1 and not new & set(m), "%s: features now in %s", what, new)
            c = new.pop()
            ensure(t.assign == {**s.assign, **{f: c for f in feats}}, "%s: assignments %s", what, t.assign)
            ensure(h.get("Location", "").endswith(f"/cluster/{c}"), "%s: redirects to %s", what, h.get("Location"))
        elif url == "/0/recreate_model":
            elig = {f for f in s.fields if len(s.sets[f]) >= mind and (not flds or s.fields[f] in flds)}
            ensure(set(t.assign) == elig and len(t.members()) <= n, "%s: assigned %s, eligible %s", what, sorted(t.assign), sorted(elig))
        else:
            sel = set(clusters) if url == "/0/cluster/refine" else set(m)
            ensure(set(t.assign) == set(s.assign), "%s: features lost or added", what)
            for f, c in s.assign.items():
                if c not in sel:
                    ensure(t.assign[f] == c, "%s: feature %s of cluster %s moved to %s", what, f, c, t.assign[f])
            tgt = dict(p).get("target_clusters")
            n = len({t.assign[f] for f, c in s.assign.items() if c in sel})
            ensure(n <= max(len(sel), tgt or 0), "%s: %s clusters", what, n)
        log += f" POST {url} {p};"
    return log
