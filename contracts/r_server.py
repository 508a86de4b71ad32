"""The web interface (W01): pages that can be fetched read, and the actions apply what was submitted."""
import ast

from contracts.q_windows import *
from dv import frames
from dv.libs import EXC_PARENT, Ext, as_int
from dv.unit import repo
from dv.values import *

ACTIONS = ["ClusterOverview.delete", "ClusterOverview.create", "ClusterOverview.merge", "ClusterOverview.refine", "ClusterOverview.pin",
           "FeatureOverview.remove_from_model", "FeatureOverview.pin", "Index.recreate_model", "Index.refine_model"]


# ------------------------------------------------------------------ reading
def _frames():
    rp = repo()
    posted = {q for q, m in frames.exposed(rp) if m == {"POST"}}
    roots = [q for q, m in frames.exposed(rp) if q not in posted] + [q for q in ("server.cleanup_index",) if q in rp.funcs]
    frames.closure(rp, REG, roots, ("W01",))


class Broken(Lemma):
    def __init__(self, why):
        Lemma.__init__(self, "frames of the pages", None, lambda: [(why, [], z3.BoolVal(False))])


try:
    _frames()
except Exception as e:      # a text the frame rules cannot read
    REG.lemma(Broken(f"the pages can be read: {type(e).__name__}: {e}"), "W01")


# ------------------------------------------------------------------ actions
EXC_PARENT.setdefault("HTTPRedirect", "Exception")
EXC_PARENT.setdefault("HTTPError", "Exception")


class Web(Ext):
    """a request: the submitted parameters, and an index whose operations are recorded"""
    null_values = True

    def __init__(self, repo):
        self.repo = repo

    def attribute(self, ex, st, v, name):
        if isinstance(v, Bi) and v.name == "mod:cherrypy" and name in ("HTTPRedirect", "HTTPError"):
            return [(st, Bi("class:" + name))]
        if isinstance(v, Bi) and v.name == "mod:cherrypy" and name == "request":
            return [(st, st.tag["request"])]
        if isinstance(v, Obj) and v.cls == "request" and name in ("params", "index"):
            return [(st, st.attrs[(v.oid, name)])]
        if isinstance(v, Obj) and v.cls == "submitted to":
            fn = self.repo.funcs.get("index.Index." + name)
            if isinstance(fn, ast.FunctionDef):
                return [(st, Bi("operation." + name, v))]
        return None

    def call(self, ex, st, f, args, kw, node):
        if f.name == "str" and len(args) == 1 and isinstance(args[0], Sc) and args[0].ty == T.TVal:
            return [(st, args[0])]
        if not f.name.startswith("operation."):
            return None
        op = f.name[len("operation."):]
        fn = self.repo.funcs["index.Index." + op]
        vals = ex.bind_args(st, Fn(fn, None, "index", "index.Index." + op, f.recv), args, kw)
        snap = {}
        for n, v in vals.items():
            if isinstance(v, Obj):
                continue
            if isinstance(v, ItV):
                raise Unsupported("a lazy argument of an operation")
            snap[n] = (v, st.ty(v), st.term(v)) if isinstance(v, Ref) else (v, None, None)
        st.tag = dict(st.tag, log=st.tag["log"] + ((op, snap),))
        bad = st.copy()
        ex.exc.append((bad, Exc("any", "raised by the operation")))
        return [(st, Sc(T.TVal, T.fresh("result", T.Val)))]

    def setitem(self, ex, st, o, k, v):
        return None

    def isinstance(self, ex, st, v, n):
        if isinstance(v, Sc) and v.ty == T.TVal:
            if n == "str":
                return B(True)
            if n in ("list", "tuple", "set", "dict", "int"):
                return B(False)
        return None


def request(named):
    """the request object: its parameters are those of the handler (those that were submitted)"""
    def setup(ex, st):
        o, p, i = Obj("request", newid()), Obj("constdict", newid()), Obj("submitted to", newid())
        st.attrs[(o.oid, "params")], st.attrs[(o.oid, "index")] = p, i
        st.tag = dict(st.tag, request=o, log=())
    return setup


def handler(qual):
    """(names of the parameters without self, {name: default}, [the ensure_list(...) calls that run first])"""
    rp = repo()
    node = rp.funcs[qual]
    a = node.args
    names = [x.arg for x in a.args][1:]
    defaults = dict(zip(names[len(names) - len(a.defaults):], a.defaults))
    first = []
    for d in frames.decorators(rp, "server", node):
        if isinstance(d, ast.Call) and ast.unparse(d.func) == "cherrypy.tools.ensure_list":
            first.append(ast.Call(ast.Name("ensure_list", ast.Load()), d.args, d.keywords))
    return names, defaults, first


def served(qual):
    """what runs for one request: the parameters are put in the request, the tools of the handler run, the handler gets the parameters"""
    def node(rp):
        h = rp.funcs[qual]
        names, defaults, first = handler(qual)
        for d in frames.decorators(rp, "server", h):
            name = ast.unparse(d.func if isinstance(d, ast.Call) else d)
            if name not in ("cherrypy.expose", "cherrypy.tools.allow", "cherrypy.tools.ensure_list"):
                raise Unsupported(f"the tool {name}")
        fn = ast.parse(f"def served(self, {', '.join('submitted_' + n for n in names)}):\n    pass").body[0]
        body = []
        for n in names:
            body += ast.parse(f"if submitted_{n} is not None:\n    cherrypy.request.params['{n}'] = submitted_{n}").body
        body += [ast.Expr(f) for f in first]
        for n in names:
            d = ast.unparse(defaults[n]) if n in defaults else "cherrypy.request.params[%r]" % n
            body += ast.parse(f"if {n!r} in cherrypy.request.params:\n    {n} = cherrypy.request.params[{n!r}]\nelse:\n    {n} = {d}").body
        if h.args.kwarg is not None:
            body += ast.parse(f"{h.args.kwarg.arg} = {{}}").body
        fn.body = body + h.body
        return ast.fix_missing_locations(fn)
    return node


SELF = P(None, make=lambda ex, st, n: Obj("handler", newid()))
TEXT, TEXTS, ABSENT = P(T.TVal, label="given", inv=lambda t: [t != T.VNONE]), P(T.TSeq(T.TVal), label="several"), P(None, const=NONE, label="absent")
PERHAPS = T.TOpt(T.TVal)
MAYBE = P(PERHAPS, inv=lambda t: [PERHAPS.val(t) != T.VNONE])


def ids(c, name, conv=as_int):
    """the submitted list: (length, element)"""
    v = c.raw_var("submitted_" + name)
    if v is NONE:
        return z3.IntVal(0), lambda i: None
    if isinstance(v, Sc):
        return z3.IntVal(1), lambda i: conv(v.t)
    w = c.value(v)
    return w.len, lambda i: conv(w[i])


def is_list(c, name, conv=as_int):
    def holds(v, ty, t):
        n, at = ids(c, name, conv)
        if isinstance(v, Ref):
            if ty is None:
                return n == 0
            i = T.fresh("i", I_)
            e = at(i)
            if e is None:
                return ty.len(t) == 0
            if ty.el != (T.TInt if conv is as_int else T.TVal):
                return z3.BoolVal(False)
            return And(ty.len(t) == n, ForAll([i], Implies(And(0 <= i, i < n), ty.at(t, i) == e), patterns=[ty.at(t, i)]))
        if isinstance(v, (Lst, Tup)):
            return And(n == len(v.items), *[x.t == at(z3.IntVal(k)) for k, x in enumerate(v.items) if at(z3.IntVal(k)) is not None])
        return z3.BoolVal(False)
    return holds


def none_if_empty(holds, c, name):
    return lambda v, ty, t: ids(c, name)[0] == 0 if v is NONE else And(ids(c, name)[0] > 0, holds(v, ty, t))


def number(c, name, default):
    """the submitted number, or the number the page documents when there is none"""
    v = c.raw_var("submitted_" + name)
    want = If(PERHAPS.is_none(v.t), z3.IntVal(default), as_int(PERHAPS.val(v.t)))
    return lambda g, ty, t: g.t == want if isinstance(g, Sc) and g.ty == T.TInt else z3.BoolVal(False)


def flag(c, name, default):
    """pinned or not: what counts is whether the number is zero"""
    v = c.raw_var("submitted_" + name)
    want = If(PERHAPS.is_none(v.t), z3.BoolVal(default), as_int(PERHAPS.val(v.t)) != 0)
    return lambda g, ty, t: c._ex.truth(c._st, g) == want if isinstance(g, Sc) and g.ty in (T.TInt, T.TBool) else z3.BoolVal(False)


def target(c, name):
    """no target when none is given; a target of 0 is the same as none"""
    v = c.raw_var("submitted_" + name)

    def holds(g, ty, t):
        some, want = And(Not(PERHAPS.is_none(v.t)), T.truthy_val(PERHAPS.val(v.t))), as_int(PERHAPS.val(v.t))
        if g is NONE:
            return Or(Not(some), want == 0)
        if not isinstance(g, Sc) or g.ty != T.TInt:
            return z3.BoolVal(False)
        return Or(And(some, g.t == want), And(Not(some), g.t == 0))
    return holds


def literal(node):
    want = ast.literal_eval(node)

    def holds(v, ty, t):
        if want is None:
            return z3.BoolVal(v is NONE)
        if isinstance(v, Sc) and isinstance(want, (bool, int, float)):
            return v.t == want
        return z3.BoolVal(False)
    return holds


ASKED = {
    "ClusterOverview.delete": lambda c: [("delete_clusters", {"cluster_ids": is_list(c, "cluster_id")})],
    "ClusterOverview.create": lambda c: [("create_cluster_from_features", {"feature_ids": is_list(c, "feature_id")})],
    "ClusterOverview.merge": lambda c: [("merge_clusters", {"cluster_ids": is_list(c, "cluster_id")})],
    "ClusterOverview.refine": lambda c: [("refine_clusters", {"cluster_ids": is_list(c, "cluster_id"), "target_clusters": target(c, "target_clusters"),
                                                              "minimum_cluster_features": number(c, "minimum_cluster_features", 1), "iterations": number(c, "iterations", 10)})],
    "ClusterOverview.pin": lambda c: [("pin_clusters", {"cluster_ids": is_list(c, "cluster_id"), "pinned": flag(c, "pinned", True)})],
    "FeatureOverview.remove_from_model": lambda c: [("delete_features", {"feature_ids": is_list(c, "feature_id")})],
    "FeatureOverview.pin": lambda c: [("pin_features", {"feature_ids": is_list(c, "feature_id"), "pinned": flag(c, "pinned", True)})],
    "Index.recreate_model": lambda c: [("initialise_clusters", {"n_clusters": number(c, "clusters", 64), "min_docs": number(c, "min_docs", 10),
                                                                "include_fields": none_if_empty(is_list(c, "include_fields", lambda t: t), c, "include_fields")}),
                                       ("refine_clusters", {"iterations": number(c, "iterations", 10), "minimum_cluster_features": number(c, "minimum_cluster_features", 1)})],
    "Index.refine_model": lambda c: [("refine_clusters", {"iterations": number(c, "iterations", 10), "target_clusters": target(c, "target_clusters"),
                                                          "minimum_cluster_features": number(c, "minimum_cluster_features", 1)})],
}
LISTED = {"ClusterOverview.delete": "cluster_id", "ClusterOverview.create": "feature_id", "ClusterOverview.merge": "cluster_id", "ClusterOverview.refine": "cluster_id",
          "ClusterOverview.pin": "cluster_id", "FeatureOverview.remove_from_model": "feature_id", "FeatureOverview.pin": "feature_id", "Index.recreate_model": "include_fields"}


def applied_operations(qual, whole):
    def post(c):
        log, want = c._st.tag["log"], ASKED[qual](c)
        out = []
        if whole:
            out.append(("exactly the operation asked for, once", z3.BoolVal([n for n, _ in log] == [n for n, _ in want])))
        else:
            out.append(("no operation but the one asked for", z3.BoolVal([n for n, _ in log] == [n for n, _ in want][:len(log)])))
        for (op, got), (name, args) in zip(log, want):
            if op != name:
                continue
            fn = repo().funcs["index.Index." + op]
            a = fn.args
            names = [x.arg for x in a.args][1:] + [x.arg for x in a.kwonlyargs]
            dfl = dict(zip([x.arg for x in a.args][len(a.args) - len(a.defaults):], a.defaults))
            dfl.update({x.arg: d for x, d in zip(a.kwonlyargs, a.kw_defaults) if d is not None})
            for n in names:
                if n in args:
                    holds = args[n]
                    out.append((f"{op}: {n} is what was submitted", holds(*got[n])))
                elif n in dfl:
                    out.append((f"{op}: {n} is left at its default", literal(dfl[n])(*got[n])))
            out += [(f"{op}: the operation takes {n}", z3.BoolVal(n in names)) for n in args]
        return out
    return post


def _ends(qual):
    """only a number that is not one, or the operation itself, may stop a request before everything asked for is done"""
    return lambda c: applied_operations(qual, not (c.exc.info == "raised by the operation" or (c.exc.cls == "ValueError" and c.exc.info == "int()")))(c)


def _allowed(qual):
    def goals():
        found = dict(frames.exposed(repo()))
        return [(f"{qual} can be requested, with POST only", [], z3.BoolVal(found.get("server." + qual) == {"POST"}))]
    return Lemma(f"methods of {qual}", None, goals)


def _action(h):
    qual = "server." + h
    try:
        names = handler(qual)[0]
    except Exception:
        names = []
    listed_ = LISTED.get(h)
    params = {"self": SELF, "submitted_index_id": TEXT}
    params.update({"submitted_" + n: MAYBE for n in names if n not in ("index_id", listed_)})
    if listed_:
        params["submitted_" + listed_] = TEXT
    cases = [{"submitted_" + listed_: k} for k in (ABSENT, TEXT, TEXTS)] if listed_ else None
    con = Contract(qual + ":served", params, node=served(qual), exts=(Web,), cases=cases, never_returns=True,
                   ensures=lambda c: applied_operations(h, True)(c), raises=[("any", None)], on_raise=_ends(h))
    con.setup = request(names)
    REG.add(con, "W01")
    REG.lemma(_allowed(h), "W01")


for _h in ACTIONS:
    _action(_h)
