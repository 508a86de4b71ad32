"""Frame conditions, function by function: a function under the reading frame sends the index database only statements
that read, and calls only functions that are under the reading frame themselves.

The rules work on the source of the function.  Index objects are tracked by kind: `self` in Index, `cherrypy.request.index`,
the locals and parameters they are given to.  An index (or its connection) that is used in a way the rules do not know -
stored, handed to unknown code, read through getattr - fails the frame of that function."""
import ast

READING = {"select", "values", "savepoint", "release", "rollback", "begin", "commit", "end"}
PLAIN_DECORATORS = {"property", "classmethod", "staticmethod", "wraps"}
STATE = {"_changed", "_transaction_level", "db"}
INDEX = "index.Index"
IMPORTS = {"hyperreal.index": "index", "db_utilities": "db_utilities", "corpus": "corpus", "_index_schema": "_index_schema", "utilities": "utilities",
           "hyperreal.utilities": "utilities", "hyperreal.corpus": "corpus", "hyperreal.db_utilities": "db_utilities"}


class Frame:
    def __init__(self, repo, qual, kinds=()):
        self.repo, self.qual, self.kinds = repo, qual, dict(kinds)
        self.obl, self.calls = [], set()
        self.mod = qual.split(".")[0]
        self.node = repo.funcs[qual]
        cls = qual.rsplit(".", 1)[0]
        a = self.node.args
        self.params = [x.arg for x in a.posonlyargs + a.args + a.kwonlyargs]
        self.env = dict(self.kinds)
        if cls == INDEX and self.params and not any(isinstance(d, ast.Name) and d.id in ("classmethod", "staticmethod") for d in self.node.decorator_list):
            self.env[self.params[0]] = "index"
        self.attrs = {t.attr for f, n in repo.funcs.items() if f.startswith(INDEX + ".") and isinstance(n, ast.FunctionDef)
                      for s in ast.walk(n) if isinstance(s, (ast.Attribute,)) and isinstance(s.ctx, ast.Store) and isinstance(s.value, ast.Name) and s.value.id == "self" for t in [s]}
        self.texts = {}

    def oblige(self, label, ok):
        if (label, ok) not in self.obl:
            self.obl.append((label, ok))

    def run(self):
        for d in self.node.decorator_list:
            self.decorator(d)
        # kinds of the locals, whatever the order of the statements
        for _ in range(4):
            for n in ast.walk(self.node):
                if isinstance(n, ast.Assign) and len(n.targets) == 1 and isinstance(n.targets[0], ast.Name):
                    k = self.kind(n.value)
                    if k in ("index", "db", "pool"):
                        self.env[n.targets[0].id] = k
                    if isinstance(n.value, (ast.Constant, ast.JoinedStr)):
                        self.texts.setdefault(n.targets[0].id, []).append(n.value)
                    else:
                        self.texts.setdefault(n.targets[0].id, []).append(None)
                elif isinstance(n, ast.NamedExpr) and self.kind(n.value) in ("index", "db", "pool"):
                    self.env[n.target.id] = self.kind(n.value)
                elif isinstance(n, ast.With):
                    for i in n.items:
                        if i.optional_vars is not None and self.kind(i.context_expr) == "index" and isinstance(i.optional_vars, ast.Name):
                            self.env[i.optional_vars.id] = "index"
        for s in self.node.body:
            self.stmt(s)
        return self

    # ---------------------------------------------------------------- decorators
    def decorator(self, d):
        while isinstance(d, ast.Name) and d.id not in PLAIN_DECORATORS and isinstance(self.repo.funcs.get(f"{self.mod}.{d.id}="), ast.AST):
            d = self.repo.funcs[f"{self.mod}.{d.id}="]
        f = d.func if isinstance(d, ast.Call) else d
        name = ast.unparse(f)
        if name in PLAIN_DECORATORS or name == "requires_corpus" or name.startswith("cherrypy."):
            return
        if name == "atomic":
            w = [k.value for k in d.keywords if k.arg == "writes"] + list(d.args) if isinstance(d, ast.Call) else []
            ok = all(isinstance(x, ast.Constant) and not x.value for x in w)
            return self.oblige("it is not declared a writing operation", ok)
        self.oblige(f"decorator {name} keeps the frame", False)

    # ---------------------------------------------------------------- kinds
    def kind(self, e):
        if isinstance(e, ast.Name):
            if e.id in self.env:
                return self.env[e.id]
            q = f"{self.mod}.{e.id}"
            if q in self.repo.funcs and isinstance(self.repo.funcs[q], ast.FunctionDef):
                return ("fn", q)
            if q in self.repo.classes:
                return ("class", q)
            return None
        if isinstance(e, ast.Attribute):
            t = ast.unparse(e)
            if t == "cherrypy.request.index":
                return "index"
            m = IMPORTS.get(ast.unparse(e.value))
            if m and f"{m}.{e.attr}" in self.repo.funcs and isinstance(self.repo.funcs[f"{m}.{e.attr}"], ast.FunctionDef):
                return ("fn", f"{m}.{e.attr}")
            if m and f"{m}.{e.attr}" in self.repo.classes:
                return ("class", f"{m}.{e.attr}")
            k = self.kind(e.value)
            if k == "index":
                if e.attr in ("db", "pool"):
                    return e.attr
                q = f"{INDEX}.{e.attr}"
                if isinstance(self.repo.funcs.get(q), ast.FunctionDef):
                    from .engine import is_property
                    return ("prop", q) if is_property(self.repo.funcs[q]) else ("method", q)
                return None
            if k == "db":
                return ("sql", e.attr)
            if k == "pool":
                return ("pool", e.attr)
            return None
        if isinstance(e, ast.BoolOp):
            ks = [self.kind(x) for x in e.values]
            return next((k for k in ks if k), None)
        if isinstance(e, ast.IfExp):
            return self.kind(e.body) or self.kind(e.orelse)
        if isinstance(e, ast.NamedExpr):
            return self.kind(e.value)
        if isinstance(e, ast.Call):
            k = self.kind(e.func)
            if k == ("class", INDEX):
                return "index"
        return None

    # ---------------------------------------------------------------- walking
    def stmt(self, s):
        if isinstance(s, (ast.FunctionDef, ast.ClassDef)):
            for d in s.decorator_list:
                self.use(d)
            for x in s.body:
                self.stmt(x)
            return
        if isinstance(s, ast.Assign):
            self.use(s.value, store=all(isinstance(t, ast.Name) or ast.unparse(t) == "cherrypy.request.index" for t in s.targets))
            for t in s.targets:
                self.target(t)
            return
        if isinstance(s, (ast.AugAssign, ast.AnnAssign)):
            if s.value is not None:
                self.use(s.value)
            self.target(s.target)
            return
        if isinstance(s, ast.Delete):
            for t in s.targets:
                self.target(t)
            return
        if isinstance(s, (ast.For, ast.AsyncFor)):
            self.loop_texts(s)
            self.use(s.iter)
            self.target(s.target)
        elif isinstance(s, ast.With):
            for i in s.items:
                if self.kind(i.context_expr) == "index":
                    self.use(i.context_expr, store=True)
                    self.call(INDEX + ".__enter__", {})
                    self.call(INDEX + ".__exit__", {})
                else:
                    self.use(i.context_expr)
        elif isinstance(s, (ast.If, ast.While)):
            self.use(s.test, store=True)
        elif isinstance(s, ast.Try):
            pass
        elif isinstance(s, ast.Match):
            self.use(s.subject)
        else:
            for c in ast.iter_child_nodes(s):
                if isinstance(c, ast.expr):
                    self.use(c)
        for f in ("body", "orelse", "finalbody"):
            for x in getattr(s, f, []):
                self.stmt(x)
        for h in getattr(s, "handlers", []):
            for x in h.body:
                self.stmt(x)
        for h in getattr(s, "cases", []):
            for x in h.body:
                self.stmt(x)

    def target(self, t):
        if isinstance(t, (ast.Tuple, ast.List)):
            for x in t.elts:
                self.target(x)
        elif isinstance(t, ast.Starred):
            self.target(t.value)
        elif isinstance(t, ast.Attribute):
            k = self.kind(t.value)
            if k == "index":
                self.oblige(f"the attribute {t.attr} of the index may be set", t.attr not in STATE)
            elif k in ("db", "pool"):
                self.oblige(f"nothing is set on the {k} of the index", False)
            self.use(t.value, store=True)
        elif isinstance(t, ast.Subscript):
            if self.kind(t.value) in ("index", "db", "pool"):
                self.oblige("nothing is stored in the index", False)
            self.use(t.value, store=True)
            self.use(t.slice)

    def use(self, e, store=False):
        """store: the value may be an index (it is bound to a local name, or only tested)"""
        if e is None:
            return
        k = self.kind(e)
        if isinstance(e, ast.Call):
            return self.use_call(e, store)
        if k in ("index", "db", "pool") and not store:
            self.oblige(f"the {k} stays in the function: {ast.unparse(e)[:60]}", False)
        if isinstance(k, tuple) and k[0] == "prop":
            self.call(k[1], {})
        elif isinstance(k, tuple) and k[0] in ("method", "sql"):
            self.oblige(f"{ast.unparse(e)[:60]} is called where it is named", False)
        elif isinstance(k, tuple) and k[0] == "fn" and isinstance(e, (ast.Name, ast.Attribute)):
            self.call(k[1], {})
        if isinstance(e, ast.Attribute):
            kv = self.kind(e.value)
            if kv == "index" and k is None:
                self.oblige(f"the attribute {e.attr} of an index is known", e.attr in self.attrs)
            return self.use(e.value, store=True)
        if isinstance(e, ast.Subscript):
            if self.kind(e.value) == "index":
                self.call(INDEX + ".__getitem__", {})
            elif self.kind(e.value) in ("db", "pool"):
                self.oblige("the connection is not subscripted", False)
            self.use(e.value, store=True)
            return self.use(e.slice)
        if isinstance(e, ast.Compare):
            for x in [e.left] + e.comparators:
                self.use(x, store=all(isinstance(o, (ast.Is, ast.IsNot)) for o in e.ops))
            return
        if isinstance(e, (ast.BoolOp,)):
            for x in e.values:
                self.use(x, store=store)
            return
        if isinstance(e, ast.NamedExpr):
            return self.use(e.value, store=True)
        if isinstance(e, ast.Lambda):
            return self.use(e.body)
        if isinstance(e, (ast.ListComp, ast.SetComp, ast.GeneratorExp, ast.DictComp)):
            for g in e.generators:
                self.use(g.iter)
                for x in g.ifs:
                    self.use(x, store=True)
            for x in ([e.key, e.value] if isinstance(e, ast.DictComp) else [e.elt]):
                self.use(x)
            return
        for c in ast.iter_child_nodes(e):
            if isinstance(c, ast.expr):
                self.use(c)
            elif isinstance(c, (ast.keyword, ast.FormattedValue)):
                self.use(c.value)

    def use_call(self, e, store):
        k = self.kind(e.func)
        args = [a.value if isinstance(a, ast.Starred) else a for a in e.args]
        kws = {x.arg: x.value for x in e.keywords}
        if isinstance(k, tuple) and k[0] == "method":
            self.use(e.func.value, store=True)
            return self.pass_on(k[1], args, kws, e, 1)
        if isinstance(k, tuple) and k[0] == "fn":
            return self.pass_on(k[1], args, kws, e, 0)
        if isinstance(k, tuple) and k[0] == "class":
            q = k[1] + ".__init__"
            if k[1] == INDEX:
                self.oblige("no index is opened", False)
            elif q in self.repo.funcs:
                return self.pass_on(q, args, kws, e, 1)
        if isinstance(k, tuple) and k[0] == "sql":
            self.use(e.func.value.value if isinstance(e.func.value, ast.Attribute) else e.func.value, store=True)
            if k[1] in ("execute", "executemany", "executescript"):
                self.statement(e)
            else:
                self.oblige(f"{k[1]} of the connection changes nothing", k[1] in ("close", "commit", "rollback"))
            for a in args[1:] + list(kws.values()):
                self.use(a)
            return
        if isinstance(k, tuple) and k[0] == "pool":
            if k[1] == "submit" and args:
                kf = self.kind(args[0])
                if isinstance(kf, tuple) and kf[0] == "fn":
                    return self.pass_on(kf[1], args[1:], kws, e, 0)
                self.oblige(f"the function handed to the pool is known: {ast.unparse(args[0])[:40]}", False)
            elif k[1] != "submit":
                self.oblige(f"work is handed to the pool by submit, not {k[1]}", False)
            for a in args + list(kws.values()):
                self.use(a)
            return
        name = ast.unparse(e.func)
        loose = name in ("isinstance", "id", "type", "len", "repr", "str", "bool")
        if not isinstance(e.func, (ast.Name, ast.Attribute)):
            self.use(e.func)
        elif isinstance(e.func, ast.Attribute):
            self.use(e.func.value, store=self.kind(e.func.value) == "index")
            if self.kind(e.func.value) == "index" and k is None:
                self.oblige(f"the attribute {e.func.attr} of an index is known", e.func.attr in self.attrs)
        for a in args + list(kws.values()):
            self.use(a, store=loose)

    def pass_on(self, qual, args, kws, e, skip):
        node = self.repo.funcs[qual]
        names = [x.arg for x in node.args.posonlyargs + node.args.args][skip:]
        kinds = {}
        for i, a in enumerate(args):
            k = self.kind(a)
            if k in ("index", "db", "pool"):
                if i < len(names) and not any(isinstance(x, ast.Starred) for x in e.args[: i + 1]):
                    kinds[names[i]] = k
                else:
                    self.oblige(f"the {k} is passed to a named parameter of {qual}", False)
            else:
                self.use(a)
        for n, a in kws.items():
            k = self.kind(a)
            if k in ("index", "db", "pool"):
                kinds[n] = k
            else:
                self.use(a)
        self.call(qual, kinds)

    def call(self, qual, kinds):
        self.calls.add((qual, tuple(sorted(kinds.items()))))

    # ---------------------------------------------------------------- statements
    def loop_texts(self, s):
        """for statement in TEXT.split(sep)"""
        if isinstance(s.target, ast.Name) and isinstance(s.iter, ast.Call) and isinstance(s.iter.func, ast.Attribute) and s.iter.func.attr == "split" \
                and isinstance(s.iter.func.value, ast.Constant) and len(s.iter.args) == 1 and isinstance(s.iter.args[0], ast.Constant):
            self.texts[s.target.id] = [ast.Constant(x) for x in s.iter.func.value.value.split(s.iter.args[0].value)]

    def statement(self, e):
        t = e.args[0] if e.args else None
        options = [t]
        if isinstance(t, ast.Name):
            options = self.texts.get(t.id) or [self.repo.funcs.get(f"{self.mod}.{t.id}=")]
        for o in options:
            text = self.text(o)
            if text is None:
                self.oblige(f"the statement {ast.unparse(t)[:50] if t is not None else ''} is known", False)
                continue
            script = isinstance(e.func, ast.Attribute) and e.func.attr == "executescript"
            for part in (text.split(";") if script else [text]):
                w = [x for x in strip(part).split(None, 1) if x]
                if not w:
                    continue
                verb = w[0].lower()
                ok = verb in READING or (verb == "pragma" and "=" not in part and "(" not in part) or \
                    (verb == "with" and not any(x in part.lower().split() for x in ("insert", "update", "delete", "replace")))
                self.oblige(f"a reading statement: {' '.join(strip(part).split())[:70]}", ok)

    def text(self, o):
        if isinstance(o, ast.Constant) and isinstance(o.value, str):
            return o.value
        if isinstance(o, ast.JoinedStr) and o.values and isinstance(o.values[0], ast.Constant):
            return "".join(v.value if isinstance(v, ast.Constant) else " _ " for v in o.values)
        return None


def strip(sql):
    import re
    return re.sub(r"--[^\n]*", " ", sql).strip()


def name_of(qual, kinds):
    return "frame of " + qual + (f" ({', '.join(n + ': ' + k for n, k in kinds)})" if kinds else "")


class Unit:
    """the reading frame of one function"""
    uses = ()

    def __init__(self, repo, reg, qual, kinds):
        self.repo, self.reg, self.qual, self.kinds = repo, reg, qual, kinds
        self.name = name_of(qual, kinds)

    def verify(self):
        import z3
        from .unit import Result
        from .engine import Oblig
        r = Result("lemma:" + self.name)
        f = Frame(self.repo, self.qual, self.kinds).run()
        for q, k in sorted(f.calls):
            r.used.add("lemma:" + name_of(q, k))
            f.oblige(f"calls {q}, which is under the reading frame", True)
        for lab, ok in f.obl or [("no statement and no call", True)]:
            r.obligs.append(Oblig(r.name, f"{self.qual}: {lab}", [], z3.BoolVal(ok)))
        r.returns = 1
        r.assumptions.add("frame rules: index objects reach a function only as self, cherrypy.request.index, a parameter or a local; documents of a corpus are not stored in the index database")
        return r


def closure(repo, reg, roots, props):
    """registers the frames of the roots, and of everything they call"""
    todo, seen = [(q, ()) for q in roots], set()
    while todo:
        q, k = todo.pop()
        if (q, k) in seen:
            continue
        seen.add((q, k))
        u = Unit(repo, reg, q, k)
        reg.lemma(u, *(props if (q in roots and not k) else ()))
        todo += list(Frame(repo, q, k).run().calls)
    return seen


# -------------------------------------------------------------------------------- pages
def decorators(repo, mod, node):
    """decorators, with module level names replaced by what they stand for"""
    out = []
    for d in node.decorator_list:
        while isinstance(d, ast.Name) and isinstance(repo.funcs.get(f"{mod}.{d.id}="), ast.AST):
            d = repo.funcs[f"{mod}.{d.id}="]
        out.append(d)
    return out


def exposed(repo):
    """(qual, methods) of the functions of the server that can be requested; methods is None when any method is allowed"""
    out = []
    for q, n in repo.funcs.items():
        if not q.startswith("server.") or not isinstance(n, ast.FunctionDef):
            continue
        ds = decorators(repo, "server", n)
        names = [ast.unparse(d.func if isinstance(d, ast.Call) else d) for d in ds]
        if "cherrypy.expose" not in names:
            continue
        methods = None
        for d, name in zip(ds, names):
            if name == "cherrypy.tools.allow" and isinstance(d, ast.Call):
                v = [k.value for k in d.keywords if k.arg == "methods"] + list(d.args)
                try:
                    methods = {str(x).upper() for x in ast.literal_eval(v[0])}
                except (ValueError, IndexError, TypeError):
                    methods = None
        out.append((q, methods))
    return out
