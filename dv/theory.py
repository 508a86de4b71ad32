"""Sorts, function symbols and background theory used by the verifier.

Every axiom in this file is about mathematical finite sets, sequences, maps and sums; nothing here
mentions hyperreal.  Axioms are tagged with the symbols that trigger them, and a query only receives
the axioms whose symbols it mentions (transitively).
"""
import z3
from z3 import (And, ArraySort, BoolSort, BoolVal, Const, Exists, ForAll, Function, If, Implies, Int, IntSort,
                IntVal, K, MultiPattern, Not, Or, RealSort, Select, Store)

Val = z3.DeclareSort("Val")
_n = [0]


def fresh(prefix, sort):
    _n[0] += 1
    return Const(f"{prefix}!{_n[0]}", sort)


def fresh_fn(prefix, *sorts):
    _n[0] += 1
    return Function(f"{prefix}!{_n[0]}", *sorts)


# ------------------------------------------------------------------ types
class Ty:
    mutable = False

    def __eq__(self, o):
        return isinstance(o, Ty) and self.key == o.key

    def __ne__(self, o):
        return not self == o

    def __hash__(self):
        return hash(self.key)

    def __repr__(self):
        return self.key


class Scalar(Ty):
    def __init__(self, key, sort):
        self.key, self.sort = key, sort


TInt, TReal, TBool, TVal = (Scalar("Int", IntSort()), Scalar("Real", RealSort()), Scalar("Bool", BoolSort()),
                            Scalar("Val", Val))
VNONE = Const("val_none", Val)      # None among values, where an extension says that values may be None
_dts = {}


def _dt(key, fields):
    if key not in _dts:
        d = z3.Datatype(key)
        d.declare("mk_" + key, *[(f"{n}_{key}", s) for n, s in fields])
        _dts[key] = d.create()
    return _dts[key]


class TTup(Ty):
    def __init__(self, *tys):
        self.tys = tys
        self.key = "T" + str(len(tys)) + "_" + "_".join(t.key for t in tys) + "_"
        self.sort = _dt(self.key, [(f"f{i}", t.sort) for i, t in enumerate(tys)])

    def mk(self, *a):
        return self.sort.constructor(0)(*a)

    def get(self, t, i):
        if z3.is_app(t) and t.decl().eq(self.sort.constructor(0)):
            return t.arg(i)
        return self.sort.accessor(0, i)(t)


class TRow(TTup):
    """A database row: a tuple with column names."""

    def __init__(self, name, cols):
        self.cols = [c for c, _ in cols]
        TTup.__init__(self, *[t for _, t in cols])

    def col(self, t, name):
        return self.get(t, self.cols.index(name))

    def upd(self, t, **kw):
        return self.mk(*[kw[c] if c in kw else self.get(t, i) for i, c in enumerate(self.cols)])


class TRec(TTup):
    """A dict with these constant keys, kept as a value."""

    def __init__(self, names, tys):
        self.names, self.tys = tuple(names), tuple(tys)
        self.key = "D" + "_".join(self.names) + "_" + "_".join(t.key for t in tys) + "_"
        self.sort = _dt(self.key, [(f"f{i}", t.sort) for i, t in enumerate(tys)])


class TOpt(Ty):
    def __init__(self, ty):
        self.ty = ty
        self.key = "O_" + ty.key + "_"
        if self.key not in _dts:
            d = z3.Datatype(self.key)
            d.declare("none_" + self.key)
            d.declare("some_" + self.key, ("val_" + self.key, ty.sort))
            _dts[self.key] = d.create()
        self.sort = _dts[self.key]
        self.none = self.sort.constructor(0)()

    def some(self, t):
        return self.sort.constructor(1)(t)

    def is_none(self, t):
        if z3.is_app(t) and t.decl().eq(self.sort.constructor(0)):
            return BoolVal(True)
        if z3.is_app(t) and t.decl().eq(self.sort.constructor(1)):
            return BoolVal(False)
        return self.sort.recognizer(0)(t)

    def val(self, t):
        if z3.is_app(t) and t.decl().eq(self.sort.constructor(1)):
            return t.arg(0)
        return self.sort.accessor(1, 0)(t)


class TSet(Ty):
    mutable = True

    def __init__(self, el):
        self.el = el
        self.key = "S_" + el.key + "_"
        self.sort = ArraySort(el.sort, BoolSort())

    @property
    def th(self):
        return set_theory(self.el)


class TSeq(Ty):
    mutable = True

    def __init__(self, el):
        self.el = el
        self.key = "Q_" + el.key + "_"
        self.sort = _dt(self.key, [("len", IntSort()), ("at", ArraySort(IntSort(), el.sort))])

    def mk(self, n, a):
        return self.sort.constructor(0)(n, a)

    def len(self, t):
        if z3.is_app(t) and t.decl().eq(self.sort.constructor(0)):
            return t.arg(0)
        return self.sort.accessor(0, 0)(t)

    def arr(self, t):
        if z3.is_app(t) and t.decl().eq(self.sort.constructor(0)):
            return t.arg(1)
        return self.sort.accessor(0, 1)(t)

    def at(self, t, i):
        return Select(self.arr(t), i)

    def empty(self):
        return self.mk(IntVal(0), Const("nil_" + self.key, ArraySort(IntSort(), self.el.sort)))

    def push(self, t, x):
        return self.mk(self.len(t) + 1, Store(self.arr(t), self.len(t), x))

    def setat(self, t, i, x):
        return self.mk(self.len(t), Store(self.arr(t), i, x))


class TMap(Ty):
    mutable = True

    def __init__(self, k, v):
        self.k, self.v = k, v
        self.key = "M_" + k.key + "_" + v.key + "_"
        self.sort = _dt(self.key, [("dom", ArraySort(k.sort, BoolSort())), ("map", ArraySort(k.sort, v.sort))])

    def mk(self, d, a):
        return self.sort.constructor(0)(d, a)

    def dom(self, t):
        if z3.is_app(t) and t.decl().eq(self.sort.constructor(0)):
            return t.arg(0)
        return self.sort.accessor(0, 0)(t)

    def arr(self, t):
        if z3.is_app(t) and t.decl().eq(self.sort.constructor(0)):
            return t.arg(1)
        return self.sort.accessor(0, 1)(t)

    def has(self, t, k):
        return Select(self.dom(t), k)

    def at(self, t, k):
        return Select(self.arr(t), k)

    def empty(self):
        return self.mk(set_theory(self.k).empty, Const("nil_" + self.key, ArraySort(self.k.sort, self.v.sort)))

    def put(self, t, k, v):
        return self.mk(Store(self.dom(t), k, BoolVal(True)), Store(self.arr(t), k, v))

    def rem(self, t, k):
        return self.mk(Store(self.dom(t), k, BoolVal(False)), self.arr(t))


class TFut(TTup):
    """A future: the arguments of the call it stands for."""

    def __init__(self, fname, tys):
        self.fname = fname
        TTup.__init__(self, *tys)
        self.base = TTup(*tys)
        self.key = "F_" + fname.replace(".", "_") + "_" + self.base.key


class TBits(TSet):
    """A pyroaring BitMap: a finite set of integers with its own methods."""

    def __init__(self):
        TSet.__init__(self, TInt)
        self.key = "BM"


Bits = TBits()

# ------------------------------------------------------------------ axioms
AXIOMS = []      # (tags: set of decl names, formula, label)


def axiom(tags, f, label):
    AXIOMS.append((frozenset(t if isinstance(t, str) else t.name() for t in tags), f, label))


class SetTheory:
    def __init__(self, el):
        s, S = el.sort, ArraySort(el.sort, BoolSort())
        nm = el.key
        self.el, self.S = el, S
        f = lambda n, *a: Function(f"{n}_{nm}", *a)
        self.empty = K(s, BoolVal(False))
        self.union, self.inter, self.diff, self.sym = (f(n, S, S, S) for n in ("union", "inter", "diff", "symdiff"))
        self.card = f("card", S, IntSort())
        self.sub = f("subset", S, S, BoolSort())
        self.subw = f("subset_wit", S, S, s)
        self.nonempty_wit = f("wit", S, s)
        A, B, x, y = Const("A", S), Const("B", S), Const("x", s), Const("y", s)
        for op, body in ((self.union, lambda a, b: Or(a, b)), (self.inter, lambda a, b: And(a, b)),
                         (self.diff, lambda a, b: And(a, Not(b))), (self.sym, lambda a, b: a != b)):
            t = op(A, B)
            d = f"definition of {op.name()}"
            axiom([op], ForAll([A, B, x], Select(t, x) == body(A[x], B[x]), patterns=[Select(t, x)]), d)
            axiom([op], ForAll([A, B, x], Select(t, x) == body(A[x], B[x]), patterns=[MultiPattern(t, A[x])]), d)
            axiom([op], ForAll([A, B, x], Select(t, x) == body(A[x], B[x]), patterns=[MultiPattern(t, B[x])]), d)
        c = self.card
        axiom([c], ForAll([A], c(A) >= 0, patterns=[c(A)]), "card >= 0")
        axiom([c], c(self.empty) == 0, "card of the empty set")
        axiom([c], ForAll([A, x], Implies(A[x], c(A) > 0), patterns=[MultiPattern(c(A), A[x])]), "a member makes the card positive")
        axiom([c], ForAll([A], Implies(c(A) != 0, A[self.nonempty_wit(A)]), patterns=[c(A)]), "a set of positive card has a member")
        axiom([c], ForAll([A, x], c(Store(A, x, BoolVal(True))) == c(A) + If(A[x], 0, 1),
                          patterns=[c(Store(A, x, BoolVal(True)))]), "card after adding")
        axiom([c], ForAll([A, x], c(Store(A, x, BoolVal(False))) == c(A) - If(A[x], 1, 0),
                          patterns=[c(Store(A, x, BoolVal(False)))]), "card after removing")
        axiom([c, self.union], ForAll([A, B], c(self.union(A, B)) == c(A) + c(B) - c(self.inter(A, B)),
                                      patterns=[c(self.union(A, B))]), "inclusion exclusion")
        axiom([c, self.diff], ForAll([A, B], c(self.diff(A, B)) == c(A) - c(self.inter(A, B)),
                                     patterns=[c(self.diff(A, B))]), "card of a difference")
        axiom([c, self.inter], ForAll([A, B], And(c(self.inter(A, B)) <= c(A), c(self.inter(A, B)) <= c(B)),
                                      patterns=[c(self.inter(A, B))]), "card of an intersection")
        axiom([self.inter], ForAll([A, B], self.inter(A, B) == self.inter(B, A), patterns=[self.inter(A, B)]), "intersection commutes")
        sub, w = self.sub, self.subw(A, B)
        axiom([sub], ForAll([A, B, x], Implies(And(sub(A, B), A[x]), B[x]), patterns=[MultiPattern(sub(A, B), A[x])]), "subset elim")
        axiom([sub], ForAll([A, B, x], Implies(And(sub(A, B), Not(B[x])), Not(A[x])), patterns=[MultiPattern(sub(A, B), B[x])]), "subset elim")
        axiom([sub], ForAll([A, B], Or(sub(A, B), And(A[w], Not(B[w]))), patterns=[sub(A, B)]), "subset intro")
        axiom([sub], ForAll([A, B], Implies(sub(A, B), And(c(A) <= c(B), Implies(c(A) == c(B), A == B))),
                            patterns=[sub(A, B)]), "card is monotone on finite sets")


class BitsTheory:
    """rank/select of finite sets of integers."""

    def __init__(self):
        S, I = Bits.sort, IntSort()
        st = set_theory(TInt)
        self.rank = Function("rank", S, I, I)        # number of elements <= x
        self.sel = Function("sel", S, I, I)          # i-th smallest element
        A, x, y, i, j = Const("A", S), Int("x"), Int("y"), Int("i"), Int("j")
        r, s, c = self.rank, self.sel, st.card
        g = [r, s]
        rl = Function("ranklim", S, I, I)                 # the same: stops the enumeration of all elements
        axiom([r, rl], ForAll([A, x], r(A, x) == rl(A, x), patterns=[r(A, x)]), "rank")
        axiom([r], ForAll([A, x], And(0 <= r(A, x), r(A, x) <= c(A)), patterns=[r(A, x)]), "rank range")
        axiom([s], ForAll([A, i], Implies(And(0 <= i, i < c(A)), And(A[s(A, i)], rl(A, s(A, i)) == i + 1)), patterns=[s(A, i)]), "select is a member")
        axiom([r, s], ForAll([A, x], Implies(r(A, x) >= 1, s(A, r(A, x) - 1) <= x), patterns=[r(A, x)]), "rank brackets x")
        axiom([r, s], ForAll([A, x], Implies(r(A, x) < c(A), s(A, r(A, x)) > x), patterns=[MultiPattern(r(A, x), s(A, r(A, x)))]), "rank brackets x")
        axiom([r, s], ForAll([A, x], Implies(A[x], And(r(A, x) >= 1, s(A, r(A, x) - 1) == x)), patterns=[MultiPattern(r(A, x), A[x])]), "select of rank")
        axiom([s], ForAll([A, i, j], Implies(And(0 <= i, i < j, j < c(A)), s(A, i) < s(A, j)), patterns=[MultiPattern(s(A, i), s(A, j))]), "select increases")
        axiom([r], ForAll([A, x, y], Implies(x <= y, r(A, x) <= r(A, y)), patterns=[MultiPattern(r(A, x), r(A, y))]), "rank is monotone")
        axiom([r], ForAll([A, x, y], Implies(And(x < y, A[y]), r(A, x) < r(A, y)), patterns=[MultiPattern(r(A, x), r(A, y), A[y])]), "rank is strict at members")
        added = r(Store(A, x, BoolVal(True)), y)
        axiom([r], ForAll([A, x, y], added == r(A, y) + If(And(Not(A[x]), x <= y), 1, 0), patterns=[added]), "rank after adding")
        # number of members in [a, b)
        self.rangecard = Function("rangecard", S, I, I, I)
        rc = self.rangecard
        axiom([rc], ForAll([A, x, y], Implies(x <= y, rc(A, x, y) == r(A, y - 1) - r(A, x - 1)), patterns=[rc(A, x, y)]), "range cardinality")


_set_th = {}


def set_theory(el):
    if el.key not in _set_th:
        _set_th[el.key] = SetTheory(el)
    return _set_th[el.key]


_bits = []


def bits():
    if not _bits:
        _bits.append(BitsTheory())
    return _bits[0]


class SumTheory:
    """sum over a finite set of a function given as an array."""

    def __init__(self, el, out):
        S, F = ArraySort(el.sort, BoolSort()), ArraySort(el.sort, out.sort)
        st = set_theory(el)
        self.sum = Function(f"sum_{el.key}_{out.key}", S, F, out.sort)
        A, f, x = Const("A", S), Const("f", F), Const("x", el.sort)
        s = self.sum
        axiom([s], ForAll([f], s(st.empty, f) == 0, patterns=[s(st.empty, f)]), "empty sum")
        axiom([s], ForAll([A, f, x], s(Store(A, x, BoolVal(True)), f) == s(A, f) + If(A[x], 0, f[x]),
                          patterns=[s(Store(A, x, BoolVal(True)), f)]), "sum after adding")
        axiom([s], ForAll([A, f, x], s(Store(A, x, BoolVal(False)), f) == s(A, f) - If(A[x], f[x], 0),
                          patterns=[s(Store(A, x, BoolVal(False)), f)]), "sum after removing")


_sum = {}


def sum_theory(el, out):
    k = (el.key, out.key)
    if k not in _sum:
        _sum[k] = SumTheory(el, out)
    return _sum[k].sum


class SeqSum:
    """psum(a, n) = a[0] + ... + a[n-1]"""

    def __init__(self, out):
        F = ArraySort(IntSort(), out.sort)
        self.f = Function(f"psum_{out.key}", F, IntSort(), out.sort)
        lim = Function(f"psumlim_{out.key}", F, IntSort(), out.sort)   # stops repeated unfolding
        a, n = Const("a", F), Int("n")
        axiom([self.f], ForAll([a, n], Implies(n <= 0, self.f(a, n) == 0), patterns=[self.f(a, n)]), "empty prefix sum")
        axiom([self.f], ForAll([a, n], self.f(a, n) == lim(a, n), patterns=[self.f(a, n)]), "prefix sum")
        axiom([self.f], ForAll([a, n], Implies(n > 0, self.f(a, n) == lim(a, n - 1) + a[n - 1]), patterns=[self.f(a, n)]), "prefix sum")


_ssum = {}


def seq_sum(out):
    if out.key not in _ssum:
        _ssum[out.key] = SeqSum(out)
    return _ssum[out.key].f


# positions a, a + n, a + 2n, ...: an uninterpreted function where only its order matters (see the striping lemma)
stride = Function("stride", IntSort(), IntSort(), IntSort(), IntSort())


# real division as an uninterpreted function with the defining property where it matters
rdiv = Function("rdiv", RealSort(), RealSort(), RealSort())
_a, _b = z3.Reals("a b")
axiom([rdiv], ForAll([_a, _b], Implies(_b > 0, And(Implies(_a > 0, rdiv(_a, _b) > 0), Implies(_a == 0, rdiv(_a, _b) == 0),
                                                    Implies(_a < 0, rdiv(_a, _b) < 0), (rdiv(_a, _b) < 1) == (_a < _b),
                                                    (rdiv(_a, _b) > 1) == (_a > _b))), patterns=[rdiv(_a, _b)]), "sign of a quotient")

_unf = {}


def unfold(t):
    """a trivially true fact whose presence makes the definition of an opaque ghost available at t"""
    return _unf[t.decl().name()](*t.children())


def opaque(name, params, body):
    """a ghost function with a definition that is used only where a specification unfolds it"""
    f = Function(name, *[p.sort() for p in params], body.sort())
    u = _unf[name] = Function("unfold:" + name, *[p.sort() for p in params], BoolSort())
    t, m = f(*params), u(*params)
    axiom([u], ForAll(list(params), m, patterns=[m]), "unfold marks are true")
    axiom([f, u], ForAll(list(params), t == body, patterns=[m]), f"definition of {name}")
    return f


truthy_val = Function("truthy_val", Val, BoolSort())
_strs = {}


def strconst(s):
    if s not in _strs:
        _strs[s] = Const("str:" + s, Val)
    return _strs[s]


def str_distinct(names=None):
    out = []
    use = {s: c for s, c in _strs.items() if names is None or c.decl().name() in names}
    if len(use) > 1:
        out.append(z3.Distinct(*use.values()))
    for s, c in use.items():
        out.append(truthy_val(c) == BoolVal(bool(s)))
    return out


def type_inv(t, ty, depth=0):
    """Facts every value of a type satisfies (sequence lengths are not negative)."""
    out = []
    if isinstance(ty, TSeq):
        out.append(ty.len(t) >= 0)
        i = Int(f"ti{depth}")
        for g in type_inv(ty.at(t, i), ty.el, depth + 1):
            out.append(ForAll([i], g, patterns=[ty.at(t, i)]))
    elif isinstance(ty, TBits):
        x = Int(f"tb{depth}")       # pyroaring bitmaps hold unsigned integers
        out.append(ForAll([x], Implies(t[x], x >= 0), patterns=[t[x]]))
    elif isinstance(ty, TMap):
        k = Const(f"tk{depth}_{ty.k.key}", ty.k.sort)
        for g in type_inv(ty.at(t, k), ty.v, depth + 1):
            out.append(ForAll([k], g, patterns=[ty.at(t, k)]))
    elif isinstance(ty, TTup):
        for i, u in enumerate(ty.tys):
            out += type_inv(ty.get(t, i), u, depth + 1)
    elif isinstance(ty, TOpt):
        for g in type_inv(ty.val(t), ty.ty, depth + 1):
            out.append(g)
    return out


def decls_of(fs, seen=None, names=None):
    seen = set() if seen is None else seen
    names = set() if names is None else names
    stack = list(fs)
    while stack:
        t = stack.pop()
        i = t.get_id()
        if i in seen:
            continue
        seen.add(i)
        if z3.is_quantifier(t):
            stack.append(t.body())
            for p in range(t.num_patterns()):
                stack.append(t.pattern(p))
        elif z3.is_app(t):
            if t.decl().kind() == z3.Z3_OP_UNINTERPRETED:
                names.add(t.decl().name())
            stack.extend(t.children())
    return names


def relevant_axioms(fs):
    names = set(names_in(fs))
    chosen, left, changed = [], list(AXIOMS), True
    while changed:
        changed = False
        rest = []
        for a in left:
            if a[0] <= names:
                chosen.append(a)
                names |= _axdecls(a[1])
                changed = True
            else:
                rest.append(a)
        left = rest
    return chosen


_axd = {}


def _axdecls(f):
    i = f.get_id()          # the formula is kept, so its id is not used again
    if i not in _axd:
        if len(_axd) > 20000:
            _axd.clear()
        _axd[i] = (f, frozenset(decls_of([f])))
    return _axd[i][1]


def names_in(fs):
    return frozenset().union(*map(_axdecls, fs))


# ------------------------------------------------------------------ arrays given by a formula
_lams = {}


def _maximal_free(body, kid):
    """maximal subterms of body that do not mention the variable; returns list (in order, without repeats)"""
    memo = {}

    def mentions(t):
        i = t.get_id()
        if i not in memo:
            memo[i] = t.get_id() == kid or (z3.is_quantifier(t) and mentions(t.body())) or any(mentions(c) for c in t.children())
        return memo[i]
    out, seen = [], set()

    def walk(t):
        if not mentions(t):
            if z3.is_const(t) and t.decl().kind() != z3.Z3_OP_UNINTERPRETED:
                return
            if z3.is_int_value(t) or z3.is_rational_value(t):
                return
            if has_var(t):
                return
            if t.get_id() not in seen:
                seen.add(t.get_id())
                out.append(t)
            return
        if z3.is_quantifier(t):
            walk(t.body())
            return
        for c in t.children():
            walk(c)
    walk(body)
    return out


def has_var(t):
    return z3.is_var(t) or any(has_var(c) for c in t.children())


def lam(k, body):
    """The array x -> body[k := x].  Alpha-equivalent bodies give the same function symbol."""
    body = z3.simplify(body, elim_and=False) if False else body
    ps = _maximal_free(body, k.get_id())
    canon = [Const(f"lp{j}_{p.sort().sexpr()}", p.sort()) for j, p in enumerate(ps)]
    kk = Const(f"lk_{k.sort().sexpr()}", k.sort())
    b2 = z3.substitute(body, *(list(zip(ps, canon)) + [(k, kk)]))
    key = (b2.sexpr(), k.sort().sexpr())
    if key not in _lams:
        arr = ArraySort(k.sort(), body.sort())
        f = Function(f"lam{len(_lams)}", *[c.sort() for c in canon], arr) if canon else Function(f"lam{len(_lams)}", IntSort(), arr)
        app = f(*canon) if canon else f(IntVal(0))
        vs = canon + [kk]
        axiom([f], ForAll(vs, app[kk] == b2, patterns=[app[kk]]), f"definition of {f.name()}")
        pats = []
        stack, seen = [b2], set()
        while stack:
            t = stack.pop()
            if t.get_id() in seen:
                continue
            seen.add(t.get_id())
            if z3.is_quantifier(t):
                continue
            if z3.is_select(t) and t.arg(1).get_id() == kk.get_id():
                pats.append(t)
            stack.extend(t.children())
        if canon:
            for p in pats:
                axiom([f], ForAll(vs, app[kk] == b2, patterns=[MultiPattern(app, p)]), f"definition of {f.name()}")
        _lams[key] = f
    f = _lams[key]
    return f(*ps) if ps else f(IntVal(0))


def setof(el, body):
    """{k | body(k)} as a term; body: callable"""
    k = fresh("k", el.sort)
    return lam(k, body(k))
