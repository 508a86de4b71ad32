"""Symbolic values and the symbolic state."""
import z3

from . import theory as T


class Unsupported(Exception):
    pass


class V:
    pass


class Sc(V):
    """int, float, bool or an opaque value"""

    def __init__(self, ty, t, s=None):
        self.ty, self.t, self.s = ty, t, s

    def __repr__(self):
        return f"Sc({self.ty},{self.t})"


class NoneV(V):
    def __repr__(self):
        return "NONE"


NONE = NoneV()


class OptV(V):
    """A value that may be None (read from a nullable column)."""

    def __init__(self, ty, t):
        self.ty, self.t = ty, t


class Tup(V):
    def __init__(self, items):
        self.items = list(items)

    def __repr__(self):
        return f"Tup{self.items}"


class Rec(V):
    """A dict with constant keys that is not changed any more."""

    def __init__(self, names, items):
        self.names, self.items = tuple(names), list(items)

    def __repr__(self):
        return f"Rec({dict(zip(self.names, self.items))})"


class Ref(V):
    def __init__(self, cid):
        self.cid = cid

    def __repr__(self):
        return f"Ref({self.cid})"


class Lst(V):
    """A list of known length (immutable use only, e.g. a display that is iterated or unpacked)."""

    def __init__(self, items):
        self.items = list(items)


class Fn(V):
    def __init__(self, node, frame, module, qual=None, selfv=None, defaults=None):
        self.node, self.frame, self.module, self.qual, self.selfv = node, frame, module, qual, selfv
        self.defaults = defaults


class Bi(V):
    """A builtin, library function, module or class, by dotted name; recv for bound methods."""

    def __init__(self, name, recv=None):
        self.name, self.recv = name, recv

    def __repr__(self):
        return f"Bi({self.name})"


class Obj(V):
    def __init__(self, cls, oid):
        self.cls, self.oid = cls, oid

    def __repr__(self):
        return f"Obj({self.cls},{self.oid})"


class Exc(V):
    def __init__(self, cls, info=""):
        self.cls, self.info = cls, info

    def __repr__(self):
        return f"Exc({self.cls}: {self.info})"


class ItV(V):
    def __init__(self, it):
        self.it = it


class Maybe(V):
    """A local variable that is bound only when cond holds."""

    def __init__(self, cond, v):
        self.cond, self.v = cond, v


class Slice(V):
    def __init__(self, lo, hi, step):
        self.lo, self.hi, self.step = lo, hi, step


SKIP = object()


def I(t):
    return Sc(T.TInt, z3.IntVal(t) if isinstance(t, int) else t)


def B(t):
    return Sc(T.TBool, z3.BoolVal(t) if isinstance(t, bool) else t)


def R(t):
    return Sc(T.TReal, z3.RealVal(t) if isinstance(t, (int, float)) else t)


def S(s):
    return Sc(T.TVal, T.strconst(s), s)


class Cell:
    __slots__ = ("ty", "term", "kind", "default", "redirect", "ro", "elkind")

    def __init__(self, ty, term, kind, default=None, redirect=None, ro=False):
        self.ty, self.term, self.kind, self.default, self.redirect, self.ro = ty, term, kind, default, redirect, ro

    def clone(self, **kw):
        c = Cell(self.ty, self.term, self.kind, self.default, self.redirect, self.ro)
        for k, v in kw.items():
            setattr(c, k, v)
        return c


_ids = [0]


def newid():
    _ids[0] += 1
    return _ids[0]


def default_kind(ty):
    if isinstance(ty, T.TBits):
        return "BitMap"
    if isinstance(ty, T.TSet):
        return "set"
    if isinstance(ty, T.TSeq):
        return "list"
    if isinstance(ty, T.TMap):
        return "dict"
    raise Unsupported(f"no container kind for {ty}")


class State:
    def __init__(self):
        self.frames = {}      # fid -> {name: V}
        self.parents = {}     # fid -> parent fid or None
        self.heap = {}
        self.attrs = {}       # (oid, name) -> V
        self.pc = []
        self.writes = None    # set of root cell ids written / attrs, when recording
        self.rebinds = None
        self.out = None       # generator output cell
        self.tag = {}
        self.fid = None
        self.facts = frozenset()   # positions in pc of what a contract guarantees (not a case distinction)

    def copy(self):
        s = State()
        s.frames = {k: dict(v) for k, v in self.frames.items()}
        s.parents = dict(self.parents)
        s.heap = dict(self.heap)
        s.attrs = dict(self.attrs)
        s.pc = list(self.pc)
        s.writes, s.rebinds = self.writes, self.rebinds
        s.out = self.out
        s.tag = dict(self.tag)
        s.fid = self.fid
        s.facts = self.facts
        return s

    def facts_from(self, n):
        self.facts = self.facts | frozenset(range(n, len(self.pc)))

    def assume(self, *fs):
        for f in fs:
            if f is True or (z3.is_expr(f) and z3.is_true(f)):
                continue
            if f is False:
                f = z3.BoolVal(False)
            self.pc.append(f)

    # --- frames
    def new_frame(self, parent=None):
        fid = newid()
        self.frames[fid] = {}
        self.parents[fid] = parent
        return fid

    def lookup(self, fid, name):
        while fid is not None:
            fr = self.frames[fid]
            if name in fr:
                return fr[name]
            fid = self.parents[fid]
        return None

    # --- heap
    def alloc(self, ty, term, kind=None, default=None):
        cid = newid()
        self.heap[cid] = Cell(ty, term, kind or (default_kind(ty) if ty is not None else None), default)
        return Ref(cid)

    def cell(self, ref):
        return self.heap[ref.cid]

    def ty(self, ref):
        return self.heap[ref.cid].ty

    def term(self, ref):
        c = self.heap[ref.cid]
        if c.ty is None:
            return None
        if c.redirect is None:
            if c.term is None:
                raise Unsupported("use of an object whose container entry may have been overwritten")
            return c.term
        parent, path = c.redirect
        return path_get(self.ty(parent), self.term(parent), path)

    def root(self, ref):
        c = self.heap[ref.cid]
        while c.redirect is not None:
            ref = c.redirect[0]
            c = self.heap[ref.cid]
        return ref

    def set_term(self, ref, term):
        c = self.heap[ref.cid]
        if c.ro:
            raise Unsupported("mutation through a name that may alias another object")
        if c.redirect is None:
            if self.writes is not None:
                self.writes.add(ref.cid)
            self.heap[ref.cid] = c.clone(term=term)
        else:
            parent, path = c.redirect
            self.set_term(parent, path_set(self.ty(parent), self.term(parent), path, term))

    def view(self, ref, path, ty, default=None, kind=None):
        cid = newid()
        c = Cell(ty, None, kind or default_kind(ty), default)
        c.redirect = (ref, path)
        self.heap[cid] = c
        return Ref(cid)

    def detach(self, ref, key):
        """An entry of container ref is about to be overwritten or removed: objects that live there move out."""
        root = ref.cid
        for cid, c in list(self.heap.items()):
            if c.redirect is not None and c.redirect[0].cid == root:
                k = c.redirect[1][0]
                if key is not None and k[0] == key[0] and z3.is_expr(k[1]) and z3.is_expr(key[1]):
                    same = z3.simplify(k[1] == key[1])
                    if z3.is_false(same):
                        continue
                    if z3.is_true(same):
                        self.heap[cid] = c.clone(term=self.term(Ref(cid)), redirect=None)
                        continue
                self.heap[cid] = c.clone(term=None, redirect=None, ro=True)


def path_get(ty, t, path):
    for kind, k in path:
        if kind == "key":
            t, ty = ty.at(t, k), ty.v
        elif kind == "idx":
            t, ty = ty.at(t, k), ty.el
        elif kind == "comp":
            t, ty = ty.get(t, k), ty.tys[k]
        elif kind == "some":
            t, ty = ty.val(t), ty.ty
    return t


def path_set(ty, t, path, new):
    (kind, k), rest = path[0], path[1:]
    if kind == "key":
        sub = new if not rest else path_set(ty.v, ty.at(t, k), rest, new)
        return ty.mk(ty.dom(t), z3.Store(ty.arr(t), k, sub))
    if kind == "idx":
        sub = new if not rest else path_set(ty.el, ty.at(t, k), rest, new)
        return ty.setat(t, k, sub)
    if kind == "comp":
        sub = new if not rest else path_set(ty.tys[k], ty.get(t, k), rest, new)
        return ty.mk(*[sub if i == k else ty.get(t, i) for i in range(len(ty.tys))])
    if kind == "some":
        sub = new if not rest else path_set(ty.ty, ty.val(t), rest, new)
        return ty.some(sub)
