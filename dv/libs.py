"""Models of Python builtins, the standard library and pyroaring used by the repository."""
import ast

import z3

from . import theory as T
from . import comps
from .values import *
from .engine import (ConcreteIter, EnumIter, GenIter, Iter, MapIter, RangeIter, SeqIter, SetIter, SKIP, Star, ZipIter,
                     is_property, Stale)
from .theory import Bits

EXC_PARENT = {
    "BaseException": None, "Exception": "BaseException", "KeyboardInterrupt": "BaseException", "SystemExit": "BaseException",
    "GeneratorExit": "BaseException",
    "ValueError": "Exception", "TypeError": "Exception", "LookupError": "Exception", "KeyError": "LookupError",
    "IndexError": "LookupError", "AttributeError": "Exception", "NameError": "Exception", "UnboundLocalError": "NameError",
    "ZeroDivisionError": "Exception", "OverflowError": "Exception", "StopIteration": "Exception", "AssertionError": "Exception",
    "NotImplementedError": "Exception", "OSError": "Exception", "RuntimeError": "Exception",
    "sqlite3.Error": "Exception", "sqlite3.DatabaseError": "sqlite3.Error", "sqlite3.OperationalError": "sqlite3.DatabaseError",
    "sqlite3.IntegrityError": "sqlite3.DatabaseError",
}
MODULES = {"math", "heapq", "itertools", "collections", "cf", "mp", "os", "tempfile", "logging", "utilities", "db_utilities",
           "corpus", "_index_schema", "array", "sqlite3", "csv", "random", "nx", "operator", "atexit", "regex", "pyroaring", "hyperreal",
           "cherrypy", "ET", "io", "urllib"}
BUILTINS = {"len", "set", "list", "dict", "tuple", "range", "enumerate", "zip", "reversed", "sorted", "sum", "min", "max", "any",
            "all", "isinstance", "iter", "next", "int", "float", "str", "bool", "frozenset", "abs", "map", "filter", "open", "print",
            "hasattr", "getattr", "round", "super", "property", "type", "repr", "issubclass", "divmod", "object"}
LOG_METHODS = {"info", "debug", "warning", "exception", "error"}

pow2 = z3.Function("pow2", z3.IntSort(), z3.IntSort())
_i = z3.Int("i")
T.axiom([pow2], pow2(0) == 1, "pow2 0")
T.axiom([pow2], z3.ForAll([_i], z3.Implies(_i >= 0, pow2(_i) >= 1), patterns=[pow2(_i)]), "pow2 positive")
ceil_ = z3.Function("ceil", z3.RealSort(), z3.IntSort())
_r = z3.Real("r")
T.axiom([ceil_], z3.ForAll([_r], z3.And(z3.ToReal(ceil_(_r)) >= _r, z3.ToReal(ceil_(_r)) < _r + 1), patterns=[ceil_(_r)]), "ceil")
vlt = z3.Function("val_lt", T.Val, T.Val, z3.BoolSort())
_a, _b, _c = z3.Consts("a b c", T.Val)
T.axiom([vlt], z3.ForAll([_a, _b], z3.And(z3.Not(z3.And(vlt(_a, _b), vlt(_b, _a))), z3.Or(vlt(_a, _b), vlt(_b, _a), _a == _b)), patterns=[vlt(_a, _b)]), "order of values is total")
T.axiom([vlt], z3.ForAll([_a, _b, _c], z3.Implies(z3.And(vlt(_a, _b), vlt(_b, _c)), vlt(_a, _c)), patterns=[z3.MultiPattern(vlt(_a, _b), vlt(_b, _c))]), "order of values is transitive")
concat = z3.Function("concat", T.Val, T.Val, T.Val)
as_int = z3.Function("as_int", T.Val, z3.IntSort())        # the number a text stands for


class Libs:
    def __init__(self, repo, ext=None):
        self.repo = repo
        self.ext = ext or []          # extension modules (db, futures, ...) tried first
        for q, node in repo.classes.items():
            for b in node.bases:
                EXC_PARENT.setdefault(q.split(".")[-1], ast.unparse(b).split(".")[-1])

    # ---------------------------------------------------------------- names
    def global_name(self, ex, st, mod, name):
        r = self.repo
        for x in self.ext:
            v = x.global_name(ex, st, mod, name)
            if v is not None:
                return v
        if f"{mod}.{name}" in r.funcs:
            node = r.funcs[f"{mod}.{name}"]
            return self.fn(ex, st, node, mod, f"{mod}.{name}")
        if f"{mod}.{name}" in r.classes:
            return Bi(f"class:{mod}.{name}")
        if f"{mod}.{name}=" in r.funcs:
            node = r.funcs[f"{mod}.{name}="]
            if isinstance(node, ast.Constant):
                return ex.e_Constant(st, node)[0][1]
            if isinstance(node, ast.JoinedStr):
                return self.const_fstring(ex, st, mod, node)
            return Bi(f"global:{mod}.{name}")
        if name in EXC_PARENT:
            return Bi("class:" + name)
        if name in ("BitMap", "FrozenBitMap", "AbstractBitMap"):
            return Bi(name)
        if name in MODULES:
            return Bi("mod:" + name)
        if name in BUILTINS:
            return Bi(name)
        if name in ("wraps", "Sequence", "Iterable", "Any", "Hashable", "Optional", "Union"):
            return Bi(name)
        raise Unsupported(f"name {name}")

    def const_fstring(self, ex, st, mod, node):
        txt = ""
        for p in node.values:
            if isinstance(p, ast.Constant):
                txt += p.value
            else:
                v = self.global_name(ex, st, mod, p.value.id)
                txt += v.s if v.s is not None else str(v.t)
        return S(txt)

    def fn(self, ex, st, node, mod, qual, selfv=None):
        key = ("fn", qual)
        if isinstance(node, ast.FunctionDef):
            return Fn(node, None, mod, qual, selfv)
        raise Unsupported(f"global {qual}")

    def exc_name(self, f):
        if isinstance(f, Bi) and f.name.startswith("class:"):
            return f.name[6:].split(".")[-1] if not f.name.startswith("class:sqlite3") else f.name[6:]
        if isinstance(f, Exc):
            return f.cls
        raise Unsupported(f"exception class {f!r}")

    def exc_match(self, exc, cls):
        if isinstance(cls, (Tup, Lst)):
            rs = [self.exc_match(exc, c) for c in cls.items]
            return True if True in rs else ("maybe" if "maybe" in rs else False)
        want = self.exc_name(cls)
        c = exc.cls
        if c == "any":        # an arbitrary exception
            return True if want == "BaseException" else "maybe"
        if c == "anyException":
            return True if want in ("BaseException", "Exception") else "maybe"
        while c is not None:
            if c == want:
                return True
            if c not in EXC_PARENT:
                return "maybe" if want not in ("Exception", "BaseException") else True
            c = EXC_PARENT[c]
        return False

    # ---------------------------------------------------------------- attributes
    def attribute(self, ex, st, v, name):
        for x in self.ext:
            r = x.attribute(ex, st, v, name)
            if r is not None:
                return r
        if isinstance(v, Bi):
            if v.name.startswith("mod:"):
                m = v.name[4:]
                if m in self.repo.modules:
                    return [(st, self.global_name(ex, st, m, name))]
                if m == "sqlite3":
                    return [(st, Bi("class:sqlite3." + name))] if name.endswith("Error") else [(st, Bi("sqlite3." + name))]
                return [(st, Bi(f"{m}.{name}"))]
            return [(st, Bi(f"{v.name}.{name}", v.recv))]
        if isinstance(v, (Ref, ItV, Tup, Lst)) or isinstance(v, Sc):
            return [(st, Bi("method:" + name, v))]
        if isinstance(v, Obj):
            if (v.oid, name) in st.attrs:
                return [(st, st.attrs[(v.oid, name)])]
            cls = v.cls
            seen = set()
            while cls in self.repo.classes and cls not in seen:
                seen.add(cls)
                q = f"{cls}.{name}"
                if q in self.repo.funcs:
                    node = self.repo.funcs[q]
                    mod = cls.split(".")[0]
                    f = Fn(node, None, mod, q, v)
                    if is_property(node):
                        return ex.call_fn(st, f, [], {})
                    if any(isinstance(d, ast.Name) and d.id == "staticmethod" for d in node.decorator_list):
                        f.selfv = None
                    return [(st, f)]
                bases = self.repo.classes[cls].bases
                nxt = None
                for b in bases:
                    q = f"{cls.split('.')[0]}.{ast.unparse(b)}"
                    if q in self.repo.classes:
                        nxt = q
                        break
                cls = nxt
            return [(st, Bi(f"objmethod:{name}", v))]
        if isinstance(v, Exc):
            return [(st, Bi("excattr", v))]
        if isinstance(v, Fn) and name == "__name__":
            return [(st, S(v.node.name))]
        if v is NONE:
            ex.raise_(st, "AttributeError", f"None.{name}")
            return []
        raise Unsupported(f"attribute {name} of {v!r}")

    def setattr(self, ex, st, o, name, v):
        if isinstance(o, Obj):
            if st.writes is not None:
                st.writes.add((o.oid, name))
            st.attrs[(o.oid, name)] = v
            return
        raise Unsupported("attribute assignment")

    def skip_call(self, ex, st, e):
        """logging calls have no effect on the data; their arguments are not evaluated"""
        f = e.func
        if isinstance(f, ast.Attribute) and f.attr in LOG_METHODS:
            base = f.value
            if (isinstance(base, ast.Attribute) and base.attr == "logger") or (isinstance(base, ast.Name) and base.id in ("logger", "logging")):
                ex.assumptions.add("logging calls have no effect and do not raise; their arguments are not evaluated")
                return [(st, NONE)]
        return None

    def fstring(self, ex, st, e, vs):
        return Sc(T.TVal, T.fresh("text", T.Val))

    def obj_iter(self, ex, st, v):
        for x in self.ext:
            r = x.obj_iter(ex, st, v)
            if r is not None:
                return r
        raise Unsupported(f"iteration over {v!r}")

    def enter(self, ex, st, v):
        for x in self.ext:
            r = x.enter(ex, st, v)
            if r is not None:
                return r
        raise Unsupported(f"with {v!r}")

    def exit(self, ex, st, mgr, sig):
        for x in self.ext:
            r = x.exit(ex, st, mgr, sig)
            if r is not None:
                return r
        raise Unsupported("leaving a context manager")

    # ---------------------------------------------------------------- operators
    def num(self, v):
        return isinstance(v, Sc) and v.ty in (T.TInt, T.TReal, T.TBool)

    def arith(self, ex, v, ty):
        return ex.coerce(v, ty)

    def set_term(self, ex, st, v):
        """(set term, type) of a set-like value"""
        if isinstance(v, Ref):
            ty = st.ty(v)
            if ty is None:
                return None, None
            if isinstance(ty, T.TSet):
                return st.term(v), ty
        if isinstance(v, ItV) and isinstance(v.it, SetIter) and v.it.elem is not None and getattr(v.it, "mode", "") == "keys":
            return v.it.term, v.it.ty
        if isinstance(v, Obj) and v.cls == "dictkeys":
            return None, None
        return None, None

    def binop(self, ex, st, op, a, b):
        if self.num(a) and self.num(b):
            ty = T.TReal if T.TReal in (a.ty, b.ty) else T.TInt
            if op == "Div":
                x, y = ex.coerce(a, T.TReal), ex.coerce(b, T.TReal)
                s = ex.guard(st, y != 0, "ZeroDivisionError")
                if s is None:
                    return []
                if z3.is_rational_value(z3.simplify(y)) or z3.is_int_value(z3.simplify(y)):
                    return [(s, Sc(T.TReal, x / y))]
                return [(s, Sc(T.TReal, T.rdiv(x, y)))]
            x, y = ex.coerce(a, ty), ex.coerce(b, ty)
            if op == "Add":
                return [(st, Sc(ty, x + y))]
            if op == "Sub":
                return [(st, Sc(ty, x - y))]
            if op == "Mult":
                return [(st, Sc(ty, x * y))]
            if op in ("FloorDiv", "Mod") and ty == T.TInt:
                s = ex.guard(st, y != 0, "ZeroDivisionError")
                if s is None:
                    return []
                ex.oblige(s, y > 0, "divisor is positive (only this case is modelled)")
                return [(s, Sc(ty, x / y if op == "FloorDiv" else x % y))]
            if op == "Pow" and ty == T.TInt and z3.is_int_value(z3.simplify(x)):
                if z3.simplify(x).as_long() == 2:
                    if z3.is_int_value(z3.simplify(y)):
                        return [(st, I(2 ** z3.simplify(y).as_long()))]
                    return [(st, Sc(T.TInt, pow2(y)))]
            raise Unsupported(f"operator {op}")
        ta, tya = self.set_term(ex, st, a)
        tb, tyb = self.set_term(ex, st, b)
        a_set = tya is not None or (isinstance(a, Ref) and st.cell(a).kind in ("set", "BitMap"))
        b_set = tyb is not None or (isinstance(b, Ref) and st.cell(b).kind in ("set", "BitMap"))
        if a_set and b_set and op in ("BitOr", "BitAnd", "Sub", "BitXor"):
            ty = tya or tyb
            if ty is None:
                return [(st, st.alloc(None, None, st.cell(a).kind))]
            th = ty.th
            ta = ta if ta is not None else th.empty
            tb = tb if tb is not None else th.empty
            f = {"BitOr": th.union, "BitAnd": th.inter, "Sub": th.diff, "BitXor": th.sym}[op]
            kind = st.cell(a).kind if isinstance(a, Ref) else "set"
            rty = tya or tyb
            if kind == "set" and isinstance(rty, T.TBits):
                raise Unsupported("set and bitmap mixed")
            return [(st, st.alloc(rty, f(ta, tb), kind))]
        if op == "Add" and isinstance(a, (Tup,)) and isinstance(b, (Tup,)):
            return [(st, Tup(a.items + b.items))]
        if op == "Add" and isinstance(a, Sc) and isinstance(b, Sc) and a.ty == b.ty == T.TVal:
            if a.s is not None and b.s is not None:
                return [(st, S(a.s + b.s))]
            return [(st, Sc(T.TVal, concat(a.t, b.t)))]
        if op == "Add" and self.is_seq(st, a) and self.is_seq(st, b):
            return [(st, self.seq_concat(ex, st, a, b))]
        if op == "Mult" and isinstance(a, (Lst, Tup)) and self.num(b) and len(a.items) == 1:
            ty = T.TSeq(self.elem_hint(ex, st, a.items[0]))
            t = T.fresh("rep", ty.sort)
            i = T.fresh("i", z3.IntSort())
            x = ex.to_term(st, a.items[0], ty.el)
            st.assume(ty.len(t) == z3.If(b.t > 0, b.t, 0))
            st.assume(z3.ForAll([i], z3.Implies(z3.And(0 <= i, i < b.t), ty.at(t, i) == x), patterns=[ty.at(t, i)]))
            return [(st, st.alloc(ty, t, "list"))]
        for x in self.ext:
            r = x.binop(ex, st, op, a, b)
            if r is not None:
                return r
        raise Unsupported(f"operator {op} on {a!r}, {b!r}")

    def elem_hint(self, ex, st, v):
        return ex.ty_of(st, v)

    def is_seq(self, st, v):
        return isinstance(v, (Lst, Tup)) or (isinstance(v, Ref) and (isinstance(st.ty(v), T.TSeq) or (st.ty(v) is None and st.cell(v).kind == "list")))

    def seq_concat(self, ex, st, a, b):
        if isinstance(a, (Lst, Tup)) and isinstance(b, (Lst, Tup)):
            return Lst(a.items + b.items)
        ty = None
        for x in (a, b):
            if isinstance(x, Ref) and st.ty(x) is not None:
                ty = st.ty(x)
        if ty is None:
            for x in (a, b):
                if isinstance(x, (Lst, Tup)) and x.items:
                    ty = T.TSeq(ex.ty_of(st, x.items[0]))
        if ty is None:
            return st.alloc(None, None, "list")
        x, y = ex.to_term(st, a, ty), ex.to_term(st, b, ty)
        return st.alloc(ty, self.concat_terms(st, ty, x, y), "list")

    def concat_terms(self, st, ty, x, y):
        t = T.fresh("cat", ty.sort)
        i = T.fresh("i", z3.IntSort())
        n, m = ty.len(x), ty.len(y)
        st.assume(ty.len(t) == n + m)
        st.assume(z3.ForAll([i], z3.And(z3.Implies(z3.And(0 <= i, i < n), ty.at(t, i) == ty.at(x, i)),
                                        z3.Implies(z3.And(n <= i, i < n + m), ty.at(t, i) == ty.at(y, i - n))), patterns=[ty.at(t, i)]))
        st.assume(z3.ForAll([i], z3.Implies(z3.And(0 <= i, i < n), ty.at(t, i) == ty.at(x, i)), patterns=[ty.at(x, i)]))
        st.assume(z3.ForAll([i], z3.Implies(z3.And(0 <= i, i < m), ty.at(t, n + i) == ty.at(y, i)), patterns=[ty.at(y, i)]))
        return t

    def augop(self, ex, st, op, a, b):
        if isinstance(a, Ref) and st.cell(a).kind in ("set", "BitMap"):
            tb, tyb = self.set_term(ex, st, b)
            if tyb is None and not (isinstance(b, Ref) and st.ty(b) is None):
                raise Unsupported(f"in-place {op} with {b!r}")
            if st.ty(a) is None:
                if tyb is None:
                    return [(st, a)]
                ex.set_ty(st, a, tyb)
            ty = st.ty(a)
            tb = tb if tb is not None else ty.th.empty
            f = {"BitOr": ty.th.union, "BitAnd": ty.th.inter, "Sub": ty.th.diff, "BitXor": ty.th.sym}[op]
            st.set_term(a, f(st.term(a), tb))
            return [(st, a)]
        if isinstance(a, Ref) and st.cell(a).kind == "list" and op == "Add":
            return [(s, a) for s, _ in self.call_method(ex, st, a, "extend", [b], {}, None)]
        return self.binop(ex, st, op, a, b)

    def compare(self, ex, st, op, a, b):
        if op in ("Is", "IsNot"):
            if a is NONE or b is NONE or isinstance(a, OptV) or isinstance(b, OptV):
                c = ex.equal(st, a, b)
            elif isinstance(a, Sc) and isinstance(b, Sc) and a.ty == b.ty == T.TBool:
                c = a.t == b.t
            elif isinstance(a, Obj) and isinstance(b, Obj):
                c = z3.BoolVal(a.oid == b.oid)
            else:
                raise Unsupported("is")
            return [(st, c if op == "Is" else z3.Not(c))]
        if op in ("Eq", "NotEq"):
            c = ex.equal(st, a, b)
            return [(st, c if op == "Eq" else z3.Not(c))]
        if op in ("In", "NotIn"):
            c = self.contains(ex, st, a, b)
            return [(st, c if op == "In" else z3.Not(c))]
        if self.num(a) and self.num(b):
            ty = T.TReal if T.TReal in (a.ty, b.ty) else T.TInt
            x, y = ex.coerce(a, ty), ex.coerce(b, ty)
            return [(st, {"Lt": x < y, "LtE": x <= y, "Gt": x > y, "GtE": x >= y}[op])]
        if isinstance(a, Sc) and isinstance(b, Sc) and a.ty == b.ty == T.TVal:
            return [(st, {"Lt": vlt(a.t, b.t), "LtE": z3.Not(vlt(b.t, a.t)), "Gt": vlt(b.t, a.t), "GtE": z3.Not(vlt(a.t, b.t))}[op])]
        ta, tya = self.set_term(ex, st, a)
        tb, tyb = self.set_term(ex, st, b)
        if tya is not None and tyb is not None and op in ("LtE", "GtE"):
            return [(st, tya.th.sub(ta, tb) if op == "LtE" else tya.th.sub(tb, ta))]
        raise Unsupported(f"comparison {op} of {a!r}, {b!r}")

    def contains(self, ex, st, a, b):
        if isinstance(b, (Tup, Lst)):
            return z3.Or(*[ex.equal(st, a, x) for x in b.items]) if b.items else z3.BoolVal(False)
        if isinstance(b, Ref):
            ty = st.ty(b)
            if ty is None:
                return z3.BoolVal(False)
            if isinstance(ty, T.TSet):
                return st.term(b)[ex.to_term(st, a, ty.el)]
            if isinstance(ty, T.TMap):
                return ty.has(st.term(b), ex.to_term(st, a, ty.k))
            i = T.fresh("i", z3.IntSort())
            x = ex.to_term(st, a, ty.el)
            t = st.term(b)
            w = T.fresh_fn("at", ty.el.sort, z3.IntSort())(x)
            m = T.fresh("isin", z3.BoolSort())
            st.assume(z3.Implies(m, z3.And(0 <= w, w < ty.len(t), ty.at(t, w) == x)))
            st.assume(z3.ForAll([i], z3.Implies(z3.And(z3.Not(m), 0 <= i, i < ty.len(t)), ty.at(t, i) != x), patterns=[ty.at(t, i)]))
            return m
        ts, tys = self.set_term(ex, st, b)
        if tys is not None:
            return ts[ex.to_term(st, a, tys.el)]
        if isinstance(b, Obj) and b.cls == "constdict" and isinstance(a, Sc) and a.s is not None:
            return z3.BoolVal((b.oid, a.s) in st.attrs)
        for x in self.ext:
            r = x.contains(ex, st, a, b)
            if r is not None:
                return r
        raise Unsupported(f"membership in {b!r}")

    # ---------------------------------------------------------------- subscripts
    def getitem(self, ex, st, v, k):
        if isinstance(v, OptV):
            raise Unsupported("subscript of a possibly-None value")
        if isinstance(v, (Tup, Lst)):
            if isinstance(k, Sc) and z3.is_int_value(z3.simplify(k.t)):
                i = z3.simplify(k.t).as_long()
                if -len(v.items) <= i < len(v.items):
                    return [(st, v.items[i])]
                ex.raise_(st, "IndexError")
                return []
            raise Unsupported("symbolic index into a tuple")
        if isinstance(v, Ref):
            c = st.cell(v)
            ty = c.ty
            if ty is None:
                if c.kind in ("dict",):
                    ex.raise_(st, "KeyError")
                    return []
                if c.kind in ("list",):
                    ex.raise_(st, "IndexError")
                    return []
                if c.kind == "defaultdict":
                    raise Unsupported("type of a defaultdict is not known (add a type hint)")
            if isinstance(ty, T.TSeq):
                t = st.term(v)
                i = ex.coerce(k, T.TInt)
                ii = self.norm_index(ex, st, i, ty.len(t))
                s = ex.guard(st, z3.And(0 <= ii, ii < ty.len(t)), "IndexError")
                return [] if s is None else [(s, ex.seq_elem(s, v, ii))]
            if isinstance(ty, T.TMap):
                return self.map_get(ex, st, v, k)
            if isinstance(ty, T.TBits):
                t = st.term(v)
                n = ty.th.card(t)
                ii = self.norm_index(ex, st, ex.coerce(k, T.TInt), n)
                s = ex.guard(st, z3.And(0 <= ii, ii < n), "IndexError")
                return [] if s is None else [(s, I(T.bits().sel(t, ii)))]
        if isinstance(v, Rec) and isinstance(k, Sc) and k.s is not None:
            if k.s in v.names:
                return [(st, v.items[v.names.index(k.s)])]
            ex.raise_(st, "KeyError", k.s)
            return []
        if isinstance(v, Obj) and v.cls == "constdict":
            if isinstance(k, Sc) and k.s is not None:
                if (v.oid, k.s) in st.attrs:
                    return [(st, st.attrs[(v.oid, k.s)])]
                ex.raise_(st, "KeyError", k.s)
                return []
        for x in self.ext:
            r = x.getitem(ex, st, v, k)
            if r is not None:
                return r
        if isinstance(v, Obj):
            out = []
            for s, f in self.attribute(ex, st, v, "__getitem__"):
                if isinstance(f, Fn):
                    out += ex.call(s, f, [k], {})
                else:
                    raise Unsupported(f"subscript of {v!r}")
            return out
        raise Unsupported(f"subscript of {v!r}")

    def norm_index(self, ex, st, i, n):
        i0, i = i, z3.simplify(i)
        if z3.is_int_value(i):
            return i if i.as_long() >= 0 else n + i
        if ex.infeasible(st, [i0 < 0]):
            return i0
        if ex.infeasible(st, [i0 >= 0]):
            return n + i0
        return self.named(st, z3.If(i0 < 0, n + i0, i0), "index")

    def named(self, st, t, name):
        """a name for a term (conditional terms cannot be used in triggers)"""
        c = T.fresh(name, t.sort())
        st.assume(c == t)
        return c

    def map_get(self, ex, st, v, k):
        c = st.cell(v)
        ty = c.ty
        kt = ex.to_term(st, k, ty.k)
        if c.kind == "defaultdict":
            out = []
            dflt = c.default[0] if isinstance(c.default, tuple) else c.default
            for s, d in ex.call(st, dflt, [], {}):
                inner = s.cell(d).default if isinstance(d, Ref) else None
                dt = ex.to_term(s, d, ty.v)
                t = s.term(v)
                cur = ty.has(t, kt)
                if ex.infeasible(s, [z3.Not(cur)]):
                    pass
                elif ex.infeasible(s, [cur]):
                    s.set_term(v, ty.mk(z3.Store(ty.dom(t), kt, z3.BoolVal(True)), z3.Store(ty.arr(t), kt, dt)))
                else:
                    ev_ = self.named(s, z3.If(cur, ty.at(t, kt), dt), "entry")
                    s.set_term(v, ty.mk(z3.Store(ty.dom(t), kt, z3.BoolVal(True)), z3.Store(ty.arr(t), kt, ev_)))
                if inner is not None:
                    r = s.cell(v)
                    s.heap[v.cid] = s.heap[v.cid].clone(default=(dflt, inner))
                w = ex.map_elem(s, v, kt)
                if isinstance(w, Ref) and isinstance(d, Ref):
                    s.heap[w.cid] = s.heap[w.cid].clone(kind=s.cell(d).kind, default=inner)
                out.append((s, w))
            return out
        s = ex.guard(st, ty.has(st.term(v), kt), "KeyError")
        return [] if s is None else [(s, ex.map_elem(s, v, kt))]

    def getslice(self, ex, st, v, lo, hi, step):
        if isinstance(v, OptV):
            raise Unsupported("slice of a possibly-None value")
        if isinstance(v, (Tup, Lst)):
            def c(x):
                return None if x is NONE else z3.simplify(x.t).as_long()
            return [(st, type(v)(v.items[slice(c(lo), c(hi), c(step))]))]
        if isinstance(v, Ref) and isinstance(st.ty(v), T.TSeq):
            ty, t = st.ty(v), st.term(v)
            n = ty.len(t)
            cl = lambda x: z3.If(x < 0, z3.If(x + n < 0, 0, x + n), z3.If(x > n, n, x))
            a = z3.IntVal(0) if lo is NONE else self.named(st, cl(lo.t), "lo")
            b = n if hi is NONE else self.named(st, cl(hi.t), "hi")
            r = T.fresh("slice", ty.sort)
            i = T.fresh("i", z3.IntSort())
            if step is NONE:
                st.assume(ty.len(r) == z3.If(b > a, b - a, 0))
                st.assume(z3.ForAll([i], z3.Implies(z3.And(0 <= i, i < ty.len(r)), ty.at(r, i) == ty.at(t, a + i)), patterns=[ty.at(r, i)]))
                st.assume(z3.ForAll([i], z3.Implies(z3.And(a <= i, i < b), ty.at(r, i - a) == ty.at(t, i)), patterns=[ty.at(t, i)]))
            else:
                k = step.t
                s = ex.guard(st, k != 0, "ValueError", "slice step")
                if s is None:
                    return []
                st = s
                ex.oblige(st, k > 0, "slice step is positive (only this case is modelled)")
                m, p = ty.len(r), T.stride(k, a, i)
                st.assume(m >= 0)
                st.assume(z3.ForAll([i], z3.Implies(i >= 0, z3.And((i < m) == (p < b), z3.Implies(i < m, ty.at(r, i) == ty.at(t, p)))), patterns=[ty.at(r, i)]))
                st.assume(z3.ForAll([i], z3.Implies(i >= 0, z3.And((i < m) == (p < b), z3.Implies(i < m, ty.at(r, i) == ty.at(t, p)))), patterns=[p]))
            return [(st, st.alloc(ty, r, st.cell(v).kind))]
        if isinstance(v, Ref) and isinstance(st.ty(v), T.TBits) and hi is NONE and step is NONE:
            ty, t = st.ty(v), st.term(v)
            r = T.fresh("slice", ty.sort)
            x = T.fresh("x", z3.IntSort())
            a = lo.t
            s = ex.guard(st, a >= 0, "Unmodelled", "negative slice of a bitmap")
            body = r[x] == z3.And(t[x], T.bits().rank(t, x) > a)
            st.assume(z3.ForAll([x], body, patterns=[r[x]]), z3.ForAll([x], body, patterns=[t[x]]))
            st.assume(ty.th.card(r) == z3.If(ty.th.card(t) > a, ty.th.card(t) - a, 0))
            return [(st, st.alloc(ty, r, "BitMap"))]
        if isinstance(v, Ref) and st.ty(v) is None:
            return [(st, st.alloc(None, None, "list"))]
        for x in self.ext:
            r = x.getslice(ex, st, v, lo, hi, step)
            if r is not None:
                return r
        raise Unsupported(f"slice of {v!r}")

    def setitem(self, ex, st, o, k, v):
        if isinstance(o, Ref):
            c = st.cell(o)
            if c.ty is None:
                if c.kind in ("dict", "defaultdict"):
                    ex.set_ty(st, o, T.TMap(ex.ty_of(st, k), ex.ty_of(st, v)))
                else:
                    ex.raise_(st, "IndexError")
                    return []
            ty = st.ty(o)
            if isinstance(ty, T.TMap):
                kt = ex.to_term(st, k, ty.k)
                vt = ex.to_term(st, v, ty.v)
                st.detach(o, ("key", kt))
                st.set_term(o, ty.put(st.term(o), kt, vt))
                ex.store_link(st, v, o, [("key", kt)])
                return [st]
            if isinstance(ty, T.TSeq):
                t = st.term(o)
                ii = self.norm_index(ex, st, ex.coerce(k, T.TInt), ty.len(t))
                s = ex.guard(st, z3.And(0 <= ii, ii < ty.len(t)), "IndexError")
                if s is None:
                    return []
                vt = ex.to_term(s, v, ty.el)
                s.detach(o, ("idx", ii))
                s.set_term(o, ty.setat(s.term(o), ii, vt))
                ex.store_link(s, v, o, [("idx", ii)])
                return [s]
        if isinstance(o, Obj) and o.cls == "constdict" and isinstance(k, Sc) and k.s is not None:
            if o.oid in st.tag.get("frozen", ()):
                raise Unsupported("change of a dict that was stored elsewhere")
            st.attrs[(o.oid, k.s)] = v
            return [st]
        for x in self.ext:
            r = x.setitem(ex, st, o, k, v)
            if r is not None:
                return r
        raise Unsupported(f"item assignment on {o!r}")

    def delitem(self, ex, st, o, k):
        if isinstance(o, Ref) and isinstance(st.ty(o), T.TMap):
            ty = st.ty(o)
            kt = ex.to_term(st, k, ty.k)
            s = ex.guard(st, ty.has(st.term(o), kt), "KeyError")
            if s is None:
                return []
            s.detach(o, ("key", kt))
            s.set_term(o, ty.rem(s.term(o), kt))
            return [s]
        raise Unsupported("del of an item")

    def list_append(self, ex, st, ref, v):
        if st.ty(ref) is None:
            ex.set_ty(st, ref, T.TSeq(ex.ty_of(st, v)))
        ty = st.ty(ref)
        vt = ex.to_term(st, v, ty.el)
        n = ty.len(st.term(ref))
        st.set_term(ref, ty.push(st.term(ref), vt))
        ex.store_link(st, v, ref, [("idx", n)])

    # ---------------------------------------------------------------- calls
    def call_obj(self, ex, st, f, args, kw, node):
        for x in self.ext:
            r = x.call_obj(ex, st, f, args, kw, node)
            if r is not None:
                return r
        raise Unsupported(f"call of {f!r}")

    def call(self, ex, st, f, args, kw, node):
        for x in self.ext:
            r = x.call(ex, st, f, args, kw, node)
            if r is not None:
                return r
        n = f.name
        if n == "wraps":
            return [(st, Bi("wraps:", args[0]))]
        if n == "wraps:":
            return [(st, args[0])]
        if n.startswith("method:"):
            return self.call_method(ex, st, f.recv, n[7:], args, kw, node)
        if n.startswith("objmethod:") and isinstance(f.recv, Obj) and f.recv.cls == "constdict" and not kw:
            has = {k: v for (oid, k), v in st.attrs.items() if oid == f.recv.oid}
            m = n[10:]
            if m in ("items", "keys", "values") and not args:
                return [(st, ItV(ConcreteIter([Tup([S(k), v]) if m == "items" else S(k) if m == "keys" else v for k, v in has.items()])))]
            if m == "get" and args and isinstance(args[0], Sc) and args[0].s is not None:
                return [(st, has.get(args[0].s, args[1] if len(args) > 1 else NONE))]
        if n.startswith("class:"):
            if self.is_exc(n[6:]):
                return [(st, Exc(self.exc_name(f)))]
            raise Unsupported(f"construction of {n}")
        h = getattr(self, "b_" + n.replace(".", "_"), None)
        if h is None:
            raise Unsupported(f"call of {n}")
        return h(ex, st, args, kw)

    def is_exc(self, name):
        name = name.split(".")[-1] if not name.startswith("sqlite3") else name
        seen = set()
        while name in EXC_PARENT and name not in seen:
            seen.add(name)
            if name in ("Exception", "BaseException"):
                return True
            name = EXC_PARENT[name]
        return False

    def b_len(self, ex, st, args, kw):
        v = args[0]
        if isinstance(v, (Tup, Lst)):
            return [(st, I(len(v.items)))]
        if isinstance(v, Ref):
            ty = st.ty(v)
            if ty is None:
                return [(st, I(0))]
            t = st.term(v)
            if isinstance(ty, T.TSeq):
                return [(st, I(ty.len(t)))]
            if isinstance(ty, T.TMap):
                return [(st, I(T.set_theory(ty.k).card(ty.dom(t))))]
            return [(st, I(ty.th.card(t)))]
        ts, tys = self.set_term(ex, st, v)
        if tys is not None:
            return [(st, I(tys.th.card(ts)))]
        for x in self.ext:
            r = x.length(ex, st, v)
            if r is not None:
                return r
        if isinstance(v, Sc) and v.ty == T.TVal:
            n = T.fresh("len", z3.IntSort())
            st.assume(n >= 0)
            return [(st, I(n))]
        raise Unsupported(f"len of {v!r}")

    def b_range(self, ex, st, args, kw):
        a = [ex.coerce(x, T.TInt) for x in args]
        if len(a) == 1:
            lo, hi, step = z3.IntVal(0), a[0], 1
        elif len(a) == 2:
            lo, hi, step = a[0], a[1], 1
        else:
            lo, hi = a[0], a[1]
            k = z3.simplify(a[2])
            if z3.is_int_value(k):
                step = k.as_long()
                if step == 0:
                    ex.raise_(st, "ValueError")
                    return []
                if step not in (1, -1) and step < 0:
                    raise Unsupported("range step")
            else:
                s = ex.guard(st, k != 0, "ValueError", "range step")
                if s is None:
                    return []
                st = s
                ex.oblige(st, k > 0, "range step is positive (only this case is modelled)")
                step = k
        return [(st, ItV(RangeIter(lo, hi, step)))]

    def b_enumerate(self, ex, st, args, kw):
        start = args[1] if len(args) > 1 else kw.get("start")
        return [(st, ItV(EnumIter(ex.iter_of(st, args[0]), 0 if start is None else start.t)))]

    def b_zip(self, ex, st, args, kw):
        its = [ex.iter_of(st, a) for a in args]
        cs = [i.concrete(ex, st) for i in its]
        if all(c is not None for c in cs):
            return [(st, Lst([Tup(list(x)) for x in zip(*cs)]))]
        return [(st, ItV(ZipIter(its)))]

    def b_iter(self, ex, st, args, kw):
        return [(st, ItV(ex.iter_of(st, args[0])))]

    def b_reversed(self, ex, st, args, kw):
        v = args[0]
        if isinstance(v, (Tup, Lst)):
            return [(st, Lst(v.items[::-1]))]
        if isinstance(v, Ref) and isinstance(st.ty(v), T.TSeq):
            return [(st, ItV(SeqIter(v, rev=True)))]
        if isinstance(v, Ref) and st.ty(v) is None:
            return [(st, Lst([]))]
        if isinstance(v, ItV) and isinstance(v.it, RangeIter) and v.it.step == 1:
            return [(st, ItV(RangeIter(v.it.hi - 1, v.it.lo - 1, -1)))]
        raise Unsupported("reversed")

    def b_set(self, ex, st, args, kw):
        if not args:
            return [(st, st.alloc(None, None, "set"))]
        return self.make_set(ex, st, args[0], "set")

    b_frozenset = b_set

    def make_set(self, ex, st, v, kind):
        if isinstance(v, Ref):
            ty = st.ty(v)
            if ty is None:
                return [(st, st.alloc(Bits if kind == "BitMap" else None, Bits.th.empty if kind == "BitMap" else None, kind))]
            if isinstance(ty, T.TSet):
                nty = Bits if kind == "BitMap" else T.TSet(ty.el)
                return [(st, st.alloc(nty, st.term(v), kind))]
        ts, tys = self.set_term(ex, st, v)
        if tys is not None:
            return [(st, st.alloc(Bits if kind == "BitMap" else tys, ts, kind))]
        if isinstance(v, (Tup, Lst)):
            if not v.items:
                return [(st, st.alloc(None, None, kind))]
            ty = Bits if kind == "BitMap" else T.TSet(ex.ty_of(st, v.items[0]))
            t = ty.th.empty
            for x in v.items:
                t = z3.Store(t, ex.to_term(st, x, ty.el), z3.BoolVal(True))
            return [(st, st.alloc(ty, t, kind))]
        for x in self.ext:
            r = x.make_set(ex, st, v, kind)
            if r is not None:
                return r
        return comps.to_set(ex, st, ex.iter_of(st, v), None, kind)

    def b_list(self, ex, st, args, kw):
        if not args:
            return [(st, st.alloc(None, None, "list"))]
        v = args[0]
        for x in self.ext:
            r = x.make_list(ex, st, v)
            if r is not None:
                return r
        if isinstance(v, (Tup, Lst)):
            return [(st, Lst(v.items))] if v.items else [(st, st.alloc(None, None, "list"))]
        if isinstance(v, Ref) and isinstance(st.ty(v), T.TSeq):
            return [(st, st.alloc(st.ty(v), st.term(v), "list"))]
        if isinstance(v, ItV) and isinstance(v.it, SeqIter) and not v.it.rev and v.it.start is None:
            return [(st, st.alloc(st.ty(v.it.ref), st.term(v.it.ref), "list"))]
        if isinstance(v, Ref) and st.ty(v) is None:
            return [(st, st.alloc(None, None, "list"))]
        if isinstance(v, ItV) and isinstance(v.it, ConcreteIter):
            return [(st, Lst(v.it.items))] if v.it.items else [(st, st.alloc(None, None, "list"))]
        return comps.to_list(ex, st, ex.iter_of(st, v))

    def b_tuple(self, ex, st, args, kw):
        if isinstance(args[0], (Tup, Lst)):
            return [(st, Tup(args[0].items))]
        return self.b_list(ex, st, args, kw)

    def b_dict(self, ex, st, args, kw):
        if args:
            v = args[0]
            if isinstance(v, Ref) and isinstance(st.ty(v), T.TMap):
                return [(st, st.alloc(st.ty(v), st.term(v), "dict"))]
            return comps.to_dict(ex, st, ex.iter_of(st, v))
        if kw:
            raise Unsupported("dict with keywords")
        return [(st, st.alloc(None, None, "dict"))]

    def b_collections_defaultdict(self, ex, st, args, kw):
        return [(st, st.alloc(None, None, "defaultdict", args[0]))]

    def b_BitMap(self, ex, st, args, kw):
        if not args:
            return [(st, st.alloc(Bits, Bits.th.empty, "BitMap"))]
        return self.make_set(ex, st, args[0], "BitMap")

    b_FrozenBitMap = b_BitMap

    def b_pyroaring_BitMap(self, ex, st, args, kw):
        return self.b_BitMap(ex, st, args, kw)

    def b_sum(self, ex, st, args, kw):
        it = ex.iter_of(st, args[0])
        c = it.concrete(ex, st)
        if c is not None:
            r = [(st, I(0))]
            for x in c:
                r = [y for s, v in r for y in self.binop(ex, s, "Add", v, x)]
            return r
        return comps.summed(ex, st, it)

    def minmax(self, ex, st, args, kw, is_max):
        if "key" in kw:
            raise Unsupported("min/max with a key")
        if len(args) > 1:
            if all(self.num(a) for a in args):
                ty = T.TReal if any(a.ty == T.TReal for a in args) else T.TInt
                t = ex.coerce(args[0], ty)
                for a in args[1:]:
                    u = ex.coerce(a, ty)
                    t = z3.If(u > t, u, t) if is_max else z3.If(u < t, u, t)
                return [(st, Sc(ty, t))]
            raise Unsupported("min/max of these")
        v = args[0]
        it = ex.iter_of(st, v)
        # an arbitrary element that no other element beats
        g = it.havoc(ex, st)
        n = None
        out = []
        try:
            n = it.length(ex, st)
        except Unsupported:
            raise
        s = ex.guard(st, n > 0, "ValueError", "min/max of an empty collection")
        if s is None:
            return []
        st = s
        st.assume(it.more(ex, st, g))
        for s, e, _ in it.next(ex, st, g):
            if isinstance(e, Sc) and self.num(e):
                s2 = s.copy()
                L, ty = comps.lift(ex, s2, it)
                s.pc = s2.pc
                for c, t in L.cases:
                    cmp = (e.t >= t) if is_max else (e.t <= t)
                    s.assume(comps.fa(L.vs, z3.Implies(z3.And(L.cond, c), cmp), comps.pick_patterns(L.vs, L.trig, None)))
            out.append((s, e))
        return out

    def b_min(self, ex, st, args, kw):
        return self.minmax(ex, st, args, kw, False)

    def b_max(self, ex, st, args, kw):
        return self.minmax(ex, st, args, kw, True)

    def b_abs(self, ex, st, args, kw):
        t = args[0].t
        return [(st, Sc(args[0].ty, z3.If(t < 0, -t, t)))]

    def b_int(self, ex, st, args, kw):
        v = args[0]
        if isinstance(v, Sc) and v.ty in (T.TInt, T.TBool):
            return [(st, I(ex.coerce(v, T.TInt)))]
        if isinstance(v, Sc) and v.ty == T.TVal:
            s = st.copy()
            if v.s is not None and v.s.strip().lstrip("+-").isdigit() and v.s.isascii():
                return [(st, I(int(v.s)))]
            ex.raise_(s, "ValueError", "int()")
            return [(st, I(as_int(v.t)))]
        if isinstance(v, (Ref, Lst, Tup)) or v is NONE:
            ex.raise_(st, "TypeError", "int()")
            return []
        raise Unsupported("int()")

    def b_bool(self, ex, st, args, kw):
        return [(st, B(ex.truth(st, args[0])))]

    def b_str(self, ex, st, args, kw):
        return [(st, Sc(T.TVal, T.fresh("text", T.Val)))]

    b_repr = b_str

    def b_math_ceil(self, ex, st, args, kw):
        v = args[0]
        if v.ty == T.TInt:
            return [(st, v)]
        return [(st, I(ceil_(v.t)))]

    def b_isinstance(self, ex, st, args, kw):
        v, cls = args
        if isinstance(cls, (Tup, Lst)):
            rs = [self.b_isinstance(ex, st, [v, c], {})[0][1].t for c in cls.items]
            return [(st, B(z3.Or(*rs)))]
        n = cls.name if isinstance(cls, Bi) else None
        for x in self.ext:
            r = x.isinstance(ex, st, v, n)
            if r is not None:
                return [(st, r)]
        if isinstance(v, Sc):
            k = {"Int": {"int"}, "Real": {"float"}, "Bool": {"bool", "int"}}.get(v.ty.key)
            if k is not None:
                return [(st, B(n in k))]
            if v.s is not None:
                return [(st, B(n == "str" or n in ("collections.abc.Sequence", "Sequence")))]
            f = z3.Function("isinstance_" + n.replace(".", "_"), T.Val, z3.BoolSort())
            return [(st, B(f(v.t)))]
        if isinstance(v, Tup):
            return [(st, B(n in ("tuple", "collections.abc.Sequence", "Sequence")))]
        if isinstance(v, Ref):
            kind = st.cell(v).kind
            ok = {"list": {"list", "collections.abc.Sequence", "Sequence"}, "set": {"set"}, "dict": {"dict"}, "BitMap": {"BitMap", "AbstractBitMap"},
                  "defaultdict": {"dict"}}.get(kind)
            if ok is not None:
                return [(st, B(n in ok))]
        if v is NONE:
            return [(st, B(False))]
        raise Unsupported(f"isinstance({v!r}, {n})")

    def b_itertools_islice(self, ex, st, args, kw):
        raise Unsupported("islice")

    def b_array_array(self, ex, st, args, kw):
        if len(args) == 1:
            tc = args[0].s
            ty = T.TSeq(T.TReal if tc == "d" else T.TInt)
            return [(st, st.alloc(ty, ty.empty(), "array"))]
        el = T.TReal if args[0].s == "d" else T.TInt
        v = args[1]
        it = ex.iter_of(st, v)
        if it.concrete(ex, st) == []:
            ty = T.TSeq(el)
            return [(st, st.alloc(ty, ty.empty(), "array"))]
        if isinstance(v, Ref) and isinstance(st.ty(v), T.TSeq) and st.ty(v).el == el:
            return [(st, st.alloc(st.ty(v), st.term(v), "array"))]
        out = []
        for s, r in comps.to_list(ex, st, it, el):
            if s.ty(r).el != el:
                raise Unsupported("array of another type")
            s.heap[r.cid] = s.heap[r.cid].clone(kind="array")
            out.append((s, r))
        return out

    def b_sorted(self, ex, st, args, kw):
        return self.do_sorted(ex, st, args[0], kw.get("key"), kw.get("reverse"))

    def do_sorted(self, ex, st, v, key, rev):
        revb = rev is not None and z3.is_true(z3.simplify(ex.truth(st, rev)))
        if rev is not None and not revb and not z3.is_false(z3.simplify(ex.truth(st, rev))):
            raise Unsupported("symbolic reverse flag")
        # as a list in some order first
        it = ex.iter_of(st, v)
        c = it.concrete(ex, st)
        if c is not None and len(c) <= 1:
            return [(st, Lst(c) if c else st.alloc(None, None, "list"))]
        if key is None and not revb:
            ts, tys = self.set_term(ex, st, v)
            if tys is None and isinstance(v, Ref) and isinstance(st.ty(v), T.TMap):
                tys, ts = T.TSet(st.ty(v).k), st.ty(v).dom(st.term(v))
            if tys is not None and tys.el == T.TInt:
                sty = T.TSeq(T.TInt)
                r = T.fresh("sorted", sty.sort)
                i = T.fresh("i", z3.IntSort())
                x = T.fresh("x", z3.IntSort())
                n = tys.th.card(ts)
                b = T.bits()
                st.assume(sty.len(r) == n)
                st.assume(z3.ForAll([i], z3.Implies(z3.And(0 <= i, i < n), sty.at(r, i) == b.sel(ts, i)), patterns=[sty.at(r, i)]))
                st.assume(z3.ForAll([x], z3.Implies(ts[x], z3.And(b.rank(ts, x) >= 1, b.rank(ts, x) <= n, sty.at(r, b.rank(ts, x) - 1) == x)), patterns=[ts[x]]))
                return [(st, st.alloc(sty, r, "list"))]
        out = []
        for s, src in self.b_list(ex, st, [v], {}):
            if isinstance(src, Lst):
                raise Unsupported("sorting a display")
            sty = s.ty(src)
            if sty is None:
                out.append((s, s.alloc(None, None, "list")))
                continue
            r, p, q = self.permute(s, sty, s.term(src))
            ref = s.alloc(sty, r, "list")
            i, j = T.fresh("i", z3.IntSort()), T.fresh("j", z3.IntSort())
            n = sty.len(r)
            # ordering
            ki = self.sort_key(ex, s, sty, r, i, key)
            kj = self.sort_key(ex, s, sty, r, j, key)
            if ki is not None:
                le = self.key_le(ki, kj) if not revb else self.key_le(kj, ki)
                if le is not None:
                    s.assume(z3.ForAll([i, j], z3.Implies(z3.And(0 <= i, i <= j, j < n), le), patterns=[z3.MultiPattern(sty.at(r, i), sty.at(r, j))]))
            out.append((s, ref))
        return out

    def permute(self, st, sty, src):
        r = T.fresh("perm", sty.sort)
        p, q = T.fresh_fn("p", z3.IntSort(), z3.IntSort()), T.fresh_fn("q", z3.IntSort(), z3.IntSort())
        i = T.fresh("i", z3.IntSort())
        n = sty.len(src)
        rng = lambda a: z3.And(0 <= a, a < n)
        st.assume(sty.len(r) == n, n >= 0)
        st.assume(z3.ForAll([i], z3.Implies(rng(i), z3.And(rng(p(i)), sty.at(r, i) == sty.at(src, p(i)), q(p(i)) == i)), patterns=[sty.at(r, i)]))
        st.assume(z3.ForAll([i], z3.Implies(rng(i), z3.And(rng(q(i)), sty.at(r, q(i)) == sty.at(src, i), p(q(i)) == i)), patterns=[sty.at(src, i)]))
        return r, p, q

    def sort_key(self, ex, st, sty, r, i, key):
        v = ex.from_term(st.copy(), sty.el, sty.at(r, i)) if not sty.el.mutable else None
        if v is None:
            return None
        if key is not None:
            s2 = st.copy()
            n0 = len(s2.pc)
            m0 = len(ex.exc)
            res = ex.call(s2, key, [v], {})
            if len(res) != 1 or len(ex.exc) != m0 or len(res[0][0].pc) != n0:
                del ex.exc[m0:]
                return None
            v = res[0][1]
        return v

    def key_le(self, a, b):
        if isinstance(a, Tup):
            a, b = a.items[0], b.items[0]
            if not (isinstance(a, Sc) and isinstance(b, Sc)):
                return None
        if isinstance(a, Sc) and isinstance(b, Sc):
            if a.ty in (T.TInt, T.TReal):
                return a.t <= b.t
            if a.ty == T.TVal:
                return z3.Not(vlt(b.t, a.t))
        return None

    def b_set_union(self, ex, st, args, kw):
        if len(args) == 1 and isinstance(args[0], Star):
            v = args[0].v
            it = ex.iter_of(st, v)
            n = it.length(ex, st) if not isinstance(it, GenIter) or not it.ifs else None
            if n is not None:
                s = ex.guard(st, n > 0, "TypeError", "set.union of nothing")
                if s is None:
                    return []
                st = s
            L, ty = comps.lift(ex, st, it)
            if not isinstance(ty, T.TSet):
                raise Unsupported("union of non sets")
            r = T.fresh("unionall", ty.sort)
            y = T.fresh("y", ty.el.sort)
            ws = [T.fresh_fn("w", ty.el.sort, x.sort()) for x in L.vs]
            for c, t in L.cases:
                st.assume(z3.ForAll(L.vs + [y], z3.Implies(z3.And(L.cond, c, t[y]), r[y]), patterns=[z3.MultiPattern(t[y])]
                                    if all(v_.decl().name() in T.decls_of([t]) for v_ in L.vs) else []))
            body = z3.And(L.cond, z3.Or(*[z3.And(c, t[y]) for c, t in L.cases]))
            st.assume(z3.ForAll([y], z3.Implies(r[y], z3.substitute(body, *[(v_, w(y)) for v_, w in zip(L.vs, ws)])), patterns=[r[y]]))
            return [(st, st.alloc(ty, r, "set"))]
        if args and all(isinstance(a, Ref) for a in args):
            r = [(st, args[0])]
            out = st
            v = args[0]
            ty = st.ty(v)
            t = st.term(v)
            for a in args[1:]:
                t = ty.th.union(t, st.term(a))
            return [(st, st.alloc(ty, t, "set"))]
        raise Unsupported("set.union")

    # --- heapq on plain lists: the multiset view
    def b_any(self, ex, st, args, kw):
        return self.anyall(ex, st, args[0], True)

    def b_all(self, ex, st, args, kw):
        return self.anyall(ex, st, args[0], False)

    def anyall(self, ex, st, v, is_any):
        it = ex.iter_of(st, v)
        c = it.concrete(ex, st)
        if c is not None:
            ts = [ex.truth(st, x) for x in c]
            return [(st, B(z3.Or(*ts) if is_any else z3.And(*ts)))] if ts else [(st, B(not is_any))]
        L, ty = comps.lift(ex, st, it, T.TBool)
        r = T.fresh("any", z3.BoolSort())
        hold = z3.And(L.cond, z3.Or(*[z3.And(c, t if is_any else z3.Not(t)) for c, t in L.cases]))
        ws = [T.fresh("w", x.sort()) for x in L.vs]
        pos = r if is_any else z3.Not(r)
        st.assume(z3.Implies(pos, z3.substitute(hold, *zip(L.vs, ws))))
        st.assume(comps.fa(L.vs, z3.Implies(hold, pos), comps.pick_patterns(L.vs, L.trig, None)))
        return [(st, B(r))]

    # ---------------------------------------------------------------- methods
    def call_method(self, ex, st, v, name, args, kw, node):
        for x in self.ext:
            r = x.method(ex, st, v, name, args, kw)
            if r is not None:
                return r
        if isinstance(v, Ref):
            kind = st.cell(v).kind
            fam = {"BitMap": "bm", "set": "set", "list": "list", "array": "list", "dict": "dict", "defaultdict": "dict"}[kind]
            h = getattr(self, f"m_{fam}_{name}", None) or (getattr(self, f"m_set_{name}", None) if fam == "bm" else None)
            if h is None:
                raise Unsupported(f"method {name} of {kind}")
            return h(ex, st, v, args, kw)
        if isinstance(v, Sc) and v.ty == T.TVal:
            h = getattr(self, f"m_str_{name}", None)
            if h is not None:
                return h(ex, st, v, args, kw)
        raise Unsupported(f"method {name} of {v!r}")

    def m_set_copy(self, ex, st, v, a, kw):
        c = st.cell(v)
        return [(st, st.alloc(c.ty, st.term(v), c.kind))]

    def _el(self, ex, st, v, x):
        if st.ty(v) is None:
            ex.set_ty(st, v, T.TSet(ex.ty_of(st, x)))
        return ex.to_term(st, x, st.ty(v).el)

    def m_set_add(self, ex, st, v, a, kw):
        x = self._el(ex, st, v, a[0])
        if st.cell(v).kind == "BitMap":
            s = ex.guard(st, x >= 0, "OverflowError", "negative value in a bitmap")
            if s is None:
                return []
            st = s
        st.set_term(v, z3.Store(st.term(v), x, z3.BoolVal(True)))
        return [(st, NONE)]

    def m_set_discard(self, ex, st, v, a, kw):
        if st.ty(v) is None:
            return [(st, NONE)]
        x = self._el(ex, st, v, a[0]) if a[0] is not NONE else T.VNONE
        if x.sort() != st.ty(v).el.sort:
            return [(st, NONE)]
        st.set_term(v, z3.Store(st.term(v), x, z3.BoolVal(False)))
        return [(st, NONE)]

    def m_set_remove(self, ex, st, v, a, kw):
        x = self._el(ex, st, v, a[0])
        s = ex.guard(st, st.term(v)[x], "KeyError")
        if s is None:
            return []
        s.set_term(v, z3.Store(s.term(v), x, z3.BoolVal(False)))
        return [(s, NONE)]

    def m_set_clear(self, ex, st, v, a, kw):
        if st.ty(v) is not None:
            st.set_term(v, st.ty(v).th.empty)
        return [(st, NONE)]

    def m_set_update(self, ex, st, v, a, kw):
        for x in a:
            r = self.make_set(ex, st, x, st.cell(v).kind)
            if len(r) != 1:
                raise Unsupported("update forks")
            st, w = r[0]
            st = self.augop(ex, st, "BitOr", v, w)[0][0]
        return [(st, NONE)]

    def _setop(op):
        def f(self, ex, st, v, a, kw):
            r = [(st, v)]
            for x in a:
                nxt = []
                for s, w in r:
                    for s2, y in self.make_set(ex, s, x, s.cell(v).kind):
                        nxt += self.binop(ex, s2, op, w, y)
                r = nxt
            return r
        return f
    m_set_union = _setop("BitOr")
    m_set_intersection = _setop("BitAnd")
    m_set_difference = _setop("Sub")
    m_set_symmetric_difference = _setop("BitXor")

    def m_set_issubset(self, ex, st, v, a, kw):
        return [(st, B(st.ty(v).th.sub(st.term(v), st.term(a[0]))))]

    def m_set_isdisjoint(self, ex, st, v, a, kw):
        return [(st, B(st.ty(v).th.inter(st.term(v), st.term(a[0])) == st.ty(v).th.empty))]

    def _b(self, st, v):
        return st.term(v), st.ty(v).th

    def m_bm_rank(self, ex, st, v, a, kw):
        return [(st, I(T.bits().rank(st.term(v), a[0].t)))]

    def m_bm_add_range(self, ex, st, v, a, kw):
        lo, hi = a[0].t, a[1].t
        s = ex.guard(st, z3.Or(lo >= 0, lo >= hi), "OverflowError", "negative range in a bitmap")
        if s is None:
            return []
        st = s
        old = st.term(v)
        r = T.fresh("range", Bits.sort)
        x = T.fresh("x", z3.IntSort())
        body = r[x] == z3.Or(old[x], z3.And(lo <= x, x < hi))
        st.assume(z3.ForAll([x], body, patterns=[r[x]]), z3.ForAll([x], body, patterns=[old[x]]))
        st.set_term(v, r)
        return [(st, NONE)]

    def m_bm_remove_range(self, ex, st, v, a, kw):
        lo, hi = a[0].t, a[1].t
        old = st.term(v)
        r = T.fresh("range", Bits.sort)
        x = T.fresh("x", z3.IntSort())
        body = r[x] == z3.And(old[x], z3.Not(z3.And(lo <= x, x < hi)))
        st.assume(z3.ForAll([x], body, patterns=[r[x]]), z3.ForAll([x], body, patterns=[old[x]]))
        st.set_term(v, r)
        return [(st, NONE)]

    def m_bm_intersection_cardinality(self, ex, st, v, a, kw):
        t, th = self._b(st, v)
        return [(st, I(th.card(th.inter(t, st.term(a[0])))))]

    def m_bm_union_cardinality(self, ex, st, v, a, kw):
        t, th = self._b(st, v)
        return [(st, I(th.card(th.union(t, st.term(a[0])))))]

    def m_bm_difference_cardinality(self, ex, st, v, a, kw):
        t, th = self._b(st, v)
        return [(st, I(th.card(th.diff(t, st.term(a[0])))))]

    def m_bm_intersect(self, ex, st, v, a, kw):
        t, th = self._b(st, v)
        return [(st, B(th.inter(t, st.term(a[0])) != th.empty))]

    def m_bm_jaccard_index(self, ex, st, v, a, kw):
        t, th = self._b(st, v)
        u = st.term(a[0])
        return [(st, Sc(T.TReal, jaccard(t, u)))]

    def m_bm_range_cardinality(self, ex, st, v, a, kw):
        return [(st, I(T.bits().rangecard(st.term(v), a[0].t, a[1].t)))]

    def m_bm_run_optimize(self, ex, st, v, a, kw):
        return [(st, B(T.fresh("optimised", z3.BoolSort())))]

    def m_bm_shrink_to_fit(self, ex, st, v, a, kw):
        return [(st, I(T.fresh("saved", z3.IntSort())))]

    def m_bm_serialize(self, ex, st, v, a, kw):
        return [(st, Sc(T.TVal, serial(st.term(v))))]

    def m_bm_min(self, ex, st, v, a, kw):
        t, th = self._b(st, v)
        s = ex.guard(st, t != th.empty, "ValueError")
        return [] if s is None else [(s, I(T.bits().sel(t, z3.IntVal(0))))]

    def m_bm_max(self, ex, st, v, a, kw):
        t, th = self._b(st, v)
        s = ex.guard(st, t != th.empty, "ValueError")
        return [] if s is None else [(s, I(T.bits().sel(t, th.card(t) - 1)))]

    def b_pyroaring_BitMap_deserialize(self, ex, st, args, kw):
        return [(st, st.alloc(Bits, deserial(args[0].t), "BitMap"))]

    # lists
    def m_list_append(self, ex, st, v, a, kw):
        self.list_append(ex, st, v, a[0])
        return [(st, NONE)]

    def m_list_extend(self, ex, st, v, a, kw):
        r = self.b_list(ex, st, [a[0]], {})
        out = []
        for s, w in r:
            if isinstance(w, Lst):
                for x in w.items:
                    self.list_append(ex, s, v, x)
                out.append((s, NONE))
                continue
            ty = s.ty(w)
            if ty is None:
                out.append((s, NONE))
                continue
            if s.ty(v) is None:
                ex.set_ty(s, v, ty)
            if s.ty(v).sort != ty.sort:
                raise Unsupported("extend with another type")
            s.set_term(v, self.concat_terms(s, ty, s.term(v), s.term(w)))
            out.append((s, NONE))
        return out

    def m_list_sort(self, ex, st, v, a, kw):
        out = []
        for s, w in self.do_sorted(ex, st, v, kw.get("key"), kw.get("reverse")):
            if s.ty(w) is not None:
                s.set_term(v, s.term(w))
            out.append((s, NONE))
        return out

    def m_list_copy(self, ex, st, v, a, kw):
        return [(st, st.alloc(st.ty(v), st.term(v) if st.ty(v) is not None else None, st.cell(v).kind))]

    # dicts
    def m_dict_items(self, ex, st, v, a, kw):
        return [(st, self.dict_view(ex, st, v, "items"))]

    def m_dict_keys(self, ex, st, v, a, kw):
        return [(st, self.dict_view(ex, st, v, "keys"))]

    def m_dict_values(self, ex, st, v, a, kw):
        return [(st, self.dict_view(ex, st, v, "values"))]

    def dict_view(self, ex, st, v, mode):
        if st.ty(v) is None:
            return Lst([])
        return ItV(MapIter(ex, st, v, mode))

    def m_dict_get(self, ex, st, v, a, kw):
        d = a[1] if len(a) > 1 else NONE
        ty = st.ty(v)
        if ty is None:
            return [(st, d)]
        kt = ex.to_term(st, a[0], ty.k)
        out = []
        for s, b in ex.split(st, ty.has(st.term(v), kt)):
            out.append((s, ex.map_elem(s, v, kt) if b else d))
        return out

    def m_dict_copy(self, ex, st, v, a, kw):
        c = st.cell(v)
        return [(st, st.alloc(c.ty, st.term(v) if c.ty is not None else None, c.kind, c.default))]

    def m_str_join(self, ex, st, v, a, kw):
        return [(st, Sc(T.TVal, T.fresh("joined", T.Val)))]

    def m_str_format(self, ex, st, v, a, kw):
        return [(st, Sc(T.TVal, T.fresh("text", T.Val)))]

    def m_str_split(self, ex, st, v, a, kw):
        if v.s is not None and len(a) == 1 and a[0].s is not None:
            return [(st, Lst([S(x) for x in v.s.split(a[0].s)]))]
        raise Unsupported("split")


serial = z3.Function("serialize", Bits.sort, T.Val)
deserial = z3.Function("deserialize", T.Val, Bits.sort)
_A = z3.Const("A", Bits.sort)
T.axiom([serial], z3.ForAll([_A], deserial(serial(_A)) == _A, patterns=[serial(_A)]), "pyroaring deserialize inverts serialize")


def jaccard(a, b):
    th = Bits.th
    return T.rdiv(z3.ToReal(th.card(th.inter(a, b))), z3.ToReal(th.card(th.union(a, b))))


class Ext:
    """Hooks of an extension module; every hook may return None to pass."""
    null_values = False

    def global_name(self, ex, st, mod, name): return None
    def attribute(self, ex, st, v, name): return None
    def obj_iter(self, ex, st, v): return None
    def enter(self, ex, st, v): return None
    def exit(self, ex, st, mgr, sig): return None
    def binop(self, ex, st, op, a, b): return None
    def contains(self, ex, st, a, b): return None
    def getitem(self, ex, st, v, k): return None
    def getslice(self, ex, st, v, lo, hi, step): return None
    def setitem(self, ex, st, o, k, v): return None
    def call_obj(self, ex, st, f, args, kw, node): return None
    def call(self, ex, st, f, args, kw, node): return None
    def length(self, ex, st, v): return None
    def make_set(self, ex, st, v, kind): return None
    def make_list(self, ex, st, v): return None
    def isinstance(self, ex, st, v, n): return None
    def method(self, ex, st, v, name, args, kw): return None
