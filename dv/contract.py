"""Contracts: the specification side of the verifier."""
import z3

from . import theory as T
from .values import *
from .engine import Loop, Stale


class P:
    """A parameter kind: how to build an arbitrary value of it."""

    def __init__(self, ty, kind=None, inv=None, const=None, make=None, label=None):
        self.ty, self.kind, self.inv, self.const, self.makefn = ty, kind, inv, const, make
        self.label = label

    def make(self, ex, st, name):
        if self.makefn is not None:
            return self.makefn(ex, st, name)
        if self.const is not None:
            return self.const
        t = T.fresh(name, self.ty.sort)
        st.assume(*T.type_inv(t, self.ty))
        if self.inv is not None:
            st.assume(*self.inv(t))
        v = ex.from_term(st, self.ty, t)
        if isinstance(v, Ref) and self.kind:
            st.heap[v.cid] = st.heap[v.cid].clone(kind=self.kind)
        return v


INT, REAL, BOOL, VAL = P(T.TInt), P(T.TReal), P(T.TBool), P(T.TVal)
NONEP = P(None, const=NONE)
BITMAP = P(T.Bits)
SETI = P(T.TSet(T.TInt))


def LIST(el):
    return P(T.TSeq(el))


def DICT(k, v, kind="dict"):
    return P(T.TMap(k, v), kind)


def CONST(v):
    return P(None, const=v)


class W:
    """A typed term in a specification."""

    def __init__(self, ty, t):
        self.ty, self.t = ty, t

    def __getitem__(self, k):
        ty = self.ty
        if isinstance(ty, T.TSeq):
            return wrap(ty.el, ty.at(self.t, k))
        if isinstance(ty, T.TRec):
            k = ty.names.index(k)
        if isinstance(ty, T.TMap):
            return wrap(ty.v, ty.at(self.t, k))
        if isinstance(ty, T.TTup):
            return wrap(ty.tys[k], ty.get(self.t, k))
        return self.t[k]

    @property
    def len(self):
        if isinstance(self.ty, T.TSeq):
            return self.ty.len(self.t)
        if isinstance(self.ty, T.TMap):
            return T.set_theory(self.ty.k).card(self.dom)
        return self.ty.th.card(self.t)

    @property
    def dom(self):
        return self.ty.dom(self.t)

    @property
    def arr(self):
        return self.ty.arr(self.t)

    def has(self, k):
        if isinstance(self.ty, T.TMap):
            return self.ty.has(self.t, k)
        return self.t[k]

    def col(self, k, name):
        """table: column of the row with key k"""
        row = self.ty.at(self.t, k)
        return wrap(self.ty.v.tys[self.ty.v.cols.index(name)], self.ty.v.col(row, name))

    def __getattr__(self, name):
        ty = object.__getattribute__(self, "ty")
        if isinstance(ty, T.TRow) and name in ty.cols:
            i = ty.cols.index(name)
            return wrap(ty.tys[i], ty.get(self.t, i))
        raise AttributeError(name)


def wrap(ty, t):
    return t if isinstance(ty, T.Scalar) else W(ty, t)


def raw(x):
    return x.t if isinstance(x, (W,)) else x


class Spec:
    """What a specification sees: c.x is the value of variable x; c.old the entry state; c.g loop ghosts."""

    def __init__(self, ex, st, fid, old=None, ghost=None, pre=None, binds=None, result=None, exc=None):
        d = self.__dict__
        d["_ex"], d["_st"], d["_fid"], d["_old"], d["_g"], d["_pre"] = ex, st, fid, old, ghost, pre
        d["_binds"], d["_result"], d["exc"] = binds, result, exc

    @property
    def old(self):
        st, fid, binds = self._old
        return Spec(self._ex, st, fid, self._old, None, None, binds)

    @property
    def pre(self):
        return Spec(self._ex, self._pre, self._fid, self._old, None, None, self._binds)

    @property
    def begun(self):
        """the start of this iteration"""
        return Spec(self._ex, self.__dict__["_begun"], self._fid, self._old, None, None, self._binds)

    @property
    def g(self):
        return G(self._g)

    @property
    def result(self):
        return self.value(self._result)

    @property
    def rv(self):
        return self._result

    def value(self, v):
        st = self._st
        if isinstance(v, Maybe):
            v = v.v
        if isinstance(v, Sc):
            return v.t
        if isinstance(v, OptV):
            return W(v.ty, v.t)
        if isinstance(v, Ref):
            if st.ty(v) is None:
                return EMPTY
            return W(st.ty(v), st.term(v))
        if isinstance(v, (Tup, Lst)):
            return tuple(self.value(x) for x in v.items)
        if isinstance(v, ItV):
            it = v.it
            if hasattr(it, "ref") and it.ref is not None:
                return W(st.ty(it.ref), st.term(it.ref))
            return v
        return v

    def raw_var(self, name):
        if self._binds is not None and name in self._binds:
            return self._binds[name]
        return self._st.lookup(self._fid, name)

    def bound(self, name):
        v = self.raw_var(name)
        if v is None:
            return z3.BoolVal(False)
        return v.cond if isinstance(v, Maybe) else z3.BoolVal(True)

    def var(self, name):
        return self.__getattr__(name)

    def has(self, name):
        v = self.raw_var(name)
        return v is not None and not isinstance(v, Stale)

    def __getattr__(self, name):
        v = self.raw_var(name)
        if v is None:
            raise Unsupported(f"the contract mentions '{name}', which is not a variable of the function here")
        if isinstance(v, Stale):
            raise Unsupported(f"the contract mentions '{name}', which may alias a changed object")
        return self.value(v)

    def table(self, name):
        ref = self._st.tag["db"][name]
        return W(self._st.ty(ref), self._st.term(ref))

    def call(self, qual):
        """the last call of this function: its arguments, and the state it started in"""
        old = self._st.tag["call:" + qual]
        return Spec(self._ex, old[0], old[1], old, None, None, old[2])

    def got(self, qual):
        """what that call returned"""
        return self._st.tag["got:" + qual]

    @property
    def outer(self):
        """the ghosts of the enclosing loop"""
        return G(self.__dict__["_outer"])

    @property
    def yielded(self):
        """what the generator has yielded so far"""
        return self.value(self._st.out)

    @property
    def items(self):
        """the sequence a loop runs over"""
        it = self.__dict__["iterated"]
        if not hasattr(it, "ref"):
            raise Unsupported(f"the items of a loop over {type(it).__name__}")
        r = it.ref
        return W(self._st.ty(r), self._st.term(r))

    def attr(self, oid, name):
        return self.value(self._st.attrs[(oid, name)])


class _Empty:
    pass


EMPTY = _Empty()


class G:
    def __init__(self, g):
        self.__dict__["_g"] = g or {}

    def __getattr__(self, n):
        return self._g[n]

    def __getitem__(self, n):
        return self._g[n]

    def has(self, n):
        return n in self._g


class Contract:
    def __init__(self, qual, params, ensures=None, requires=None, returns=None, modifies=(), raises=(), loops=None,
                 types=None, inline=False, cases=None, tables=(), writes=(), lemmas=None, note=None, props=(), trusted=False,
                 setup=None, on_raise=None, node=None, exts=(), uses=(), ghosts=(), never_returns=False, body=None,
                 result=None, axioms_used=(), hints=None):
        self.hints = hints
        self.qual, self.params = qual, params
        self.ensures = ensures or (lambda c: [])
        self.requires = requires or (lambda c: [])
        self.returns = returns          # P, or callable(ex, st, c) -> V
        self.modifies = tuple(modifies)
        self.raises = raises            # list of (class, cond(c))
        self.loops = loops or {}
        self.types = types or {}
        self.inline = inline
        self.cases = cases              # list of dict param -> P overriding params
        self.tables, self.writes = tuple(tables), tuple(writes)
        self.lemmas = lemmas
        self.note, self.trusted, self.setup = note, trusted, setup
        self.on_raise = on_raise
        self.node, self.exts, self.uses, self.ghosts, self.never_returns, self.body = node, tuple(exts), tuple(uses), tuple(ghosts), never_returns, body
        self.result, self.axioms_used = result, axioms_used


class Registry:
    def __init__(self):
        self.contracts, self.props, self.lemmas, self.bounded = {}, {}, {}, {}
        self.base_assumptions = [
            "Python integers are mathematical integers; floats are real numbers with exact arithmetic",
            "builtins, the standard library, pyroaring and SQLite behave as modelled in dv/",
        ]

    def add(self, con, *props):
        self.contracts[con.qual] = con
        for p in props:
            self.props.setdefault(p, []).append(con.qual)
        return con

    def lemma(self, lem, *props):
        self.lemmas[lem.name] = lem
        for p in props:
            self.props.setdefault(p, []).append("lemma:" + lem.name)
        return lem


REG = Registry()


class Lemma:
    """A fact proved once, by cases or by induction.  obligations(): list of (label, assumptions, goal)."""

    def __init__(self, name, fact, obligations, uses=()):
        self.name, self.fact_, self.obligations, self.uses = name, fact, obligations, tuple(uses)

    def fact(self):
        return self.fact_()

    def verify(self):
        from .unit import Result
        from .engine import Oblig
        r = Result("lemma:" + self.name)
        extra = [u.fact() for u in self.uses]
        r.used = {"lemma:" + u.name for u in self.uses}
        for lab, ass, goal in self.obligations():
            r.obligs.append(Oblig(r.name, lab, list(ass) + extra, goal))
        r.returns = 1
        return r


def labelled(facts):
    """facts may be a list of formulas or of (label, formula)"""
    out = []
    for k, f in enumerate(facts):
        if isinstance(f, tuple):
            out.append(f)
        else:
            out.append((str(k), f))
    return out


def spoil(ex, st, con, binds):
    """what the callee may change becomes arbitrary"""
    for m in con.modifies:
        v = binds[m]
        if isinstance(v, Ref):
            ty = st.ty(v)
            t = T.fresh(m, ty.sort)
            st.assume(*T.type_inv(t, ty))
            st.set_term(v, t)
    for tname in con.writes:
        ref = st.tag["db"][tname]
        t = T.fresh(tname, st.ty(ref).sort)
        st.assume(*T.type_inv(t, st.ty(ref)))
        st.set_term(ref, t)


def call_contract(ex, st, con, vals):
    """A call seen only through the contract of the callee."""
    ex.used_contracts.add(con.qual)
    binds = {}
    for n, v in vals.items():
        p = con.params.get(n)
        for case in con.cases or []:
            q = case.get(n)
            if isinstance(q, P) and q.ty is not None and isinstance(v, Ref) and st.ty(v) == q.ty:
                p = q
        if isinstance(p, P) and p.ty is not None:
            v = adapt(ex, st, v, p)
        binds[n] = v
    old_st = st.copy()
    old = (old_st, st.fid, binds)
    c = Spec(ex, st, st.fid, old, None, None, binds)
    checked = len(st.pc)
    for lab, f in labelled(con.requires(c)):
        ex.oblige(st, f, f"precondition of {con.qual}: {lab}")
    st.facts_from(checked)
    for cls, cond in con.raises:
        k = cond(c) if cond is not None else None
        if k is None:
            r = st.copy()
            spoil(ex, r, con, binds)
            ex.exc.append((r, Exc(cls, f"raised by {con.qual}")))
        else:
            live = None
            for s, b in ex.split(st, k):
                if b:
                    spoil(ex, s, con, binds)
                    ex.raise_(s, cls, f"raised by {con.qual}")
                else:
                    live = s
            if live is None:
                return []
            st = live
    made = len(st.pc)
    spoil(ex, st, con, binds)
    c = Spec(ex, st, st.fid, old, None, None, binds)
    if con.returns is None:
        r = NONE
    elif isinstance(con.returns, P):
        r = con.returns.make(ex, st, "r_" + con.qual.split(".")[-1])
    else:
        r = con.returns(ex, st, c)
    c = Spec(ex, st, st.fid, old, None, None, binds, r)
    for _, f in labelled(con.ensures(c)):
        st.assume(f)
    st.facts_from(made)
    st.tag = dict(st.tag, **{"call:" + con.qual: old, "got:" + con.qual: Spec(ex, st.copy(), st.fid).value(r)})
    return [(st, r)]


def adapt(ex, st, v, p):
    """make an argument available at the declared type"""
    if isinstance(v, Ref):
        if st.ty(v) is None:
            ex.set_ty(st, v, p.ty)
        elif st.ty(v) != p.ty and st.ty(v).sort != p.ty.sort:
            raise Unsupported(f"argument of type {st.ty(v)} where the contract says {p.ty}")
        return v
    if isinstance(v, (Lst,)) and isinstance(p.ty, T.TSeq):
        return st.alloc(p.ty, ex.to_term(st, v, p.ty))
    if isinstance(v, ItV) and isinstance(p.ty, T.TSeq):
        from .comps import to_list
        r = to_list(ex, st, v.it, p.ty.el)
        if len(r) != 1:
            raise Unsupported("generator argument forks")
        return r[0][1]
    if isinstance(v, Sc) and isinstance(p.ty, T.Scalar) and v.ty != p.ty:
        return Sc(p.ty, ex.coerce(v, p.ty))
    return v
