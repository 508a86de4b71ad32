"""networkx.Graph as two finite maps, and the joining of text."""
import z3

from . import theory as T
from . import comps
from .values import *
from .libs import Ext

NODES = T.TMap(T.TInt, T.TTup(T.TInt, T.TVal))
PAIR = T.TTup(T.TInt, T.TInt)
EDGES = T.TMap(PAIR, T.TReal)


class Graph(Ext):
    def __init__(self, repo):
        pass

    def attribute(self, ex, st, v, name):
        if isinstance(v, Bi) and v.name == "mod:nx" and name == "Graph":
            return [(st, Bi("nx.Graph"))]
        if isinstance(v, Obj) and v.cls == "nx.Graph" and name in ("add_node", "add_edge"):
            return [(st, Bi("graph." + name, v))]
        if isinstance(v, Sc) and v.s is not None and name == "join":
            return [(st, Bi("text.join", v))]
        return None

    def call(self, ex, st, f, args, kw, node):
        n = f.name
        if n == "nx.Graph":
            o = Obj("nx.Graph", newid())
            for a, ty in (("nodes", NODES), ("edges", EDGES)):
                t = T.fresh(a, ty.sort)
                st.assume(ty.dom(t) == T.set_theory(ty.k).empty)
                st.attrs[(o.oid, a)] = st.alloc(ty, t, "dict")
            return [(st, o)]
        if n == "graph.add_node":
            ref = st.attrs[(f.recv.oid, "nodes")]
            if set(kw) != {"document_count", "label"} or len(args) != 1:
                raise Unsupported("node attributes")
            k = ex.coerce(args[0], T.TInt)
            row = NODES.v.mk(ex.coerce(kw["document_count"], T.TInt), ex.to_term(st, kw["label"], T.TVal))
            m = st.term(ref)
            st.set_term(ref, NODES.mk(z3.Store(NODES.dom(m), k, z3.BoolVal(True)), z3.Store(NODES.arr(m), k, row)))
            return [(st, NONE)]
        if n == "graph.add_edge":
            if set(kw) != {"weight"} or len(args) != 2:
                raise Unsupported("edge attributes")
            a, b, w = ex.coerce(args[0], T.TInt), ex.coerce(args[1], T.TInt), ex.coerce(kw["weight"], T.TReal)
            ref = st.attrs[(f.recv.oid, "edges")]
            m = st.term(ref)
            dom, arr = EDGES.dom(m), EDGES.arr(m)
            for x, y in ((a, b), (b, a)):
                dom, arr = z3.Store(dom, PAIR.mk(x, y), z3.BoolVal(True)), z3.Store(arr, PAIR.mk(x, y), w)
            st.set_term(ref, EDGES.mk(dom, arr))
            ref = st.attrs[(f.recv.oid, "nodes")]        # unknown ends become nodes without attributes
            m = st.term(ref)
            d = NODES.dom(m)
            st.set_term(ref, NODES.mk(z3.Store(z3.Store(d, a, z3.BoolVal(True)), b, z3.BoolVal(True)), NODES.arr(m)))
            return [(st, NONE)]
        if n == "text.join":
            ex.assumptions.add("joined values are text")
            out = []
            for s, _ in comps.to_list(ex, st, ex.iter_of(st, args[0])):
                out.append((s, Sc(T.TVal, T.fresh("joined", T.Val))))
            return out
        return None
