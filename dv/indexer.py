"""A whole indexing run: batches dispatched to the background, their rows merged into the index in one transaction.

A background batch is seen through the contract of the function that writes it: what it requires is an obligation where
it is submitted, and what it guarantees is known of its rows once the future has returned.  Batches run in any order
and interleaving: the contract says that a batch changes no rows but its own.  Statements over groups are read from
their text: one row for every group, with the aggregates over its members."""
import re

import z3

from . import theory as T
from .values import *
from .engine import SeqIter
from .sql import SQL, TABLES, Env, Rel, colterm, sel_pats, table, tokens, FKS, I_
from .batch import BatchDB
from .contract import Spec, labelled
from .theory import Bits

TEMP = ("inverted_index_segment", "batch_position")
FUT = T.TFut("index._index_docs", [I_])
DISPATCHED, OWNER = T.TMap(I_, I_), T.TMap(I_, I_)      # first document -> end of the batch; document -> its batch
DONE = T.TSet(I_)
path_join = z3.Function("path_join", T.Val, T.Val, T.Val)

_unions = {}


def family_union(el):
    """the union of G[k], k in A, for keys of any type: (function, witness)"""
    if el.key not in _unions:
        S, Fm = z3.ArraySort(el.sort, z3.BoolSort()), z3.ArraySort(el.sort, Bits.sort)
        u, w = z3.Function("union_over_" + el.key, S, Fm, Bits.sort), z3.Function("union_over_wit_" + el.key, S, Fm, z3.IntSort(), el.sort)
        A, G, k, x = z3.Const("A", S), z3.Const("G", Fm), z3.Const("k", el.sort), z3.Int("x")
        t, wit = u(A, G), w(A, G, x)
        lab = "definition of the union of a family"
        T.axiom([u], z3.ForAll([A, G, x], z3.Implies(t[x], z3.And(A[wit], G[wit][x])), patterns=[t[x]]), lab)
        T.axiom([u], z3.ForAll([A, G, k, x], z3.Implies(z3.And(A[k], G[k][x]), t[x]), patterns=[z3.MultiPattern(t, G[k][x])]), lab)
        T.axiom([u], z3.ForAll([A, G, k], u(z3.Store(A, k, z3.BoolVal(True)), G) == T.Bits.th.union(t, G[k]), patterns=[u(z3.Store(A, k, z3.BoolVal(True)), G)]), "union of a family after adding a member")
        T.axiom([u], z3.ForAll([G], u(T.set_theory(el).empty, G) == T.Bits.th.empty, patterns=[u(T.set_theory(el).empty, G)]), "union of the empty family")
        _unions[el.key] = u, w
    return _unions[el.key]


class Keys(SeqIter):
    """the keys of a corpus; listing them may fail"""

    def next(self, ex, st, g):
        bad = st.copy()
        ex.exc.append((bad, Exc("any", "listing the keys of the corpus")))
        return SeqIter.next(self, ex, st, g)


class GroupEnv(Env):
    """the columns of a group"""

    def __init__(self, rel, cols, g, gty, members):
        Env.__init__(self, rel.outer)
        self.rel, self.cols, self.g, self.gty, self.members = rel, cols, g, gty, members

    def find(self, alias, col):
        for i, (a, c, ty) in enumerate(self.cols):
            if c == col and alias in (None, a):
                return ty, (self.g if len(self.cols) == 1 else self.gty.get(self.g, i))
        raise Unsupported(f"SQL: column {col} of a group")


class Source:
    """rows to insert: a variable, a condition on it, and the environment of the row"""

    def __init__(self, v, cond, env, pat):
        self.v, self.cond, self.env, self.pat = v, cond, env, pat


class Indexer(BatchDB):
    # ------------------------------------------------------------------ python side
    def attribute(self, ex, st, v, name):
        if isinstance(v, Obj) and v.cls == "tempdir":
            if name == "name":
                return [(st, Sc(T.TVal, T.strconst(f"temporary directory")))]
            if name == "cleanup":
                return [(st, Bi("tempdir.cleanup", v))]
        if isinstance(v, Obj) and v.cls == "manager" and name in ("Lock", "shutdown"):
            return [(st, Bi("manager." + name, v))]
        if isinstance(v, Obj) and v.cls == "any corpus" and name == "keys":
            return [(st, Bi("corpus.keys", v))]
        if isinstance(v, Obj) and v.cls == "future:index._index_docs" and name == "result":
            return [(st, Bi("batch.result", v))]
        return BatchDB.attribute(self, ex, st, v, name)

    def call(self, ex, st, f, args, kw, node):
        n = f.name
        if n == "mp.Manager":
            return [(st, Obj("manager", newid()))]
        if n == "manager.Lock":
            o = Obj("lock", newid())
            st.tag = dict(st.tag, lock=o.oid)
            return [(st, o)]
        if n == "manager.shutdown":
            return [(st, NONE)]
        if n == "tempfile.TemporaryDirectory":
            o = Obj("tempdir", newid())
            st.tag = dict(st.tag, tempdirs=st.tag.get("tempdirs", 0) + 1)
            return [(st, o)]
        if n == "tempdir.cleanup":
            st.tag = dict(st.tag, tempdirs=st.tag["tempdirs"] - 1)
            return [(st, NONE)]
        if n == "os.path.join":
            t = ex.to_term(st, args[0], T.TVal)
            for a in args[1:]:
                t = path_join(t, ex.to_term(st, a, T.TVal))
            st.tag = {"path": t, **st.tag}
            return [(st, Sc(T.TVal, t))]
        if n == "corpus.keys":
            ty = T.TSeq(T.TVal)
            t = st.tag["keys"]
            ex.assumptions.add("a corpus lists each of its keys once")
            return [(st, ItV(Keys(st.alloc(ty, t, "list"))))]
        if n == "pool.submit" and isinstance(args[0], Fn) and args[0].qual == "index._index_docs":
            return self.submit(ex, st, args[0], args[1:], kw)
        if n == "batch.result":
            bad = st.copy()
            ex.exc.append((bad, Exc("any", "a batch failed")))
            ref = st.tag["done"]
            lo = FUT.get(st.attrs[(f.recv.oid, "term")], 0)
            st.set_term(ref, z3.Store(st.term(ref), lo, z3.BoolVal(True)))
            return [(st, Sc(T.TVal, T.fresh("path", T.Val)))]
        if n == "cf.wait":
            v = args[0]
            if st.ty(v) is None:
                ex.set_ty(st, v, T.TSet(FUT))
            ty, t = st.ty(v), st.term(v)
            d, nd, x = T.fresh("finished", ty.sort), T.fresh("unfinished", ty.sort), T.fresh("x", FUT.sort)
            st.assume(z3.ForAll([x], d[x] == z3.And(t[x], z3.Not(nd[x])), patterns=[d[x]]), z3.ForAll([x], z3.Implies(nd[x], t[x]), patterns=[nd[x]]),
                      z3.ForAll([x], z3.Implies(t[x], z3.Or(d[x], nd[x])), patterns=[t[x]]))
            return [(st, Tup([st.alloc(ty, d, "set"), st.alloc(ty, nd, "set")]))]
        if n == "sql.execute" and isinstance(args[0], Sc) and args[0].s is not None:
            m = re.match(r"\s*pragma\s+foreign_keys\s*=\s*(\d)\s*;?\s*$", args[0].s, re.I)
            if m:
                return self.enforce(ex, st, m.group(1) == "1")
        return BatchDB.call(self, ex, st, f, args, kw, node)

    def batch_tables(self, st, only):
        """unknown contents of the temporary database, with rows of the batches in `only`"""
        db = dict(st.tag["db"])
        for name in TEMP:
            t = TABLES[name]
            cur = T.fresh(name, t.ty.sort)
            k = T.fresh("k", t.kty.sort)
            st.assume(*T.type_inv(cur, t.ty))
            st.assume(z3.ForAll([k], z3.Implies(t.ty.has(cur, k), only(t.kty.get(k, len(t.pk) - 1))), patterns=[t.ty.has(cur, k)]))
            db[name] = st.alloc(t.ty, cur, "dict")
        st.tag = dict(st.tag, db=db)

    def submit(self, ex, st, fn, rest, kw):
        con = ex.contracts[fn.qual]
        ex.used_contracts.add(con.qual)
        bad = st.copy()
        ex.exc.append((bad, Exc("any", "submitting a batch")))
        vals = ex.bind_args(st, fn, rest, kw)
        if vals["corpus"] is not st.tag["corpus"] or not isinstance(vals["write_lock"], Obj) or vals["write_lock"].oid != st.tag.get("lock"):
            raise Unsupported("a batch of another corpus, or under another lock")
        path = ex.to_term(st, vals["temp_db_path"], T.TVal)
        if "path" not in st.tag or not z3.eq(st.tag["path"], path):
            raise Unsupported("batches written to different places")
        ex.oblige(st, ex.coerce(vals["index_positions"], T.TBool) == st.tag["positional"], "batches record positions exactly when that was asked for")
        disp, owner = st.tag["dispatched"], st.tag["owner"]
        for name, ty in (("doc_ids", T.TSeq(T.TInt)), ("doc_keys", T.TSeq(T.TVal))):
            if st.ty(vals[name]) is None:
                ex.set_ty(st, vals[name], ty)
        at = st.copy()
        self.batch_tables(at, lambda lo: DISPATCHED.has(at.term(disp), lo))
        c = Spec(ex, at, at.fid, (at, at.fid, vals), None, None, vals)
        for lab, g in labelled(con.requires(c)):
            ex.oblige(at, g, f"precondition of {con.qual}: {lab}")
        ids = vals["doc_ids"]
        ex.oblige(at, st.ty(ids).len(st.term(ids)) == st.ty(vals["doc_keys"]).len(st.term(vals["doc_keys"])), f"precondition of {con.qual}: as many keys as ids")
        lo = st.ty(ids).at(st.term(ids), 0)
        hi = lo + st.ty(ids).len(st.term(ids))
        old, was = st.term(disp), st.term(owner)
        st.set_term(disp, DISPATCHED.mk(z3.Store(DISPATCHED.dom(old), lo, z3.BoolVal(True)), z3.Store(DISPATCHED.arr(old), lo, hi)))
        x = T.fresh("x", z3.IntSort())
        mine = z3.And(lo <= x, x < hi)
        st.set_term(owner, OWNER.mk(T.lam(x, z3.Or(mine, OWNER.has(was, x))), T.lam(x, z3.If(mine, lo, OWNER.at(was, x)))))
        for name in ("doc_ids", "doc_keys"):
            r = st.root(vals[name])
            st.heap[r.cid] = st.heap[r.cid].clone(ro=True)         # (sent to the worker at an unknown time: not to be changed any more)
        o = Obj("future:" + fn.qual, newid())
        st.attrs[(o.oid, "ty")], st.attrs[(o.oid, "term")] = FUT, FUT.mk(lo)
        ex.assumptions.add("the background batches do what the contract of _index_docs says, each in its own transaction of the temporary database, under one lock")
        return [(st, o)]

    # ------------------------------------------------------------------ transactions
    def enforce(self, ex, st, on):
        if st.tag["txn"]:
            return [(st, NONE)]             # (no effect inside a transaction)
        out = []
        for s, inside in ex.split(st, st.tag["inside"]):
            if not inside:
                s.tag = dict(s.tag, fk=on)
            out.append((s, NONE))
        return out

    def any_failure(self, ex, st):
        """something in the transaction fails, whatever it has written by then"""
        bad = st.copy()
        for n, r in self.db(bad).items():
            ty = TABLES[n].ty
            new = T.fresh(n, ty.sort)
            bad.assume(*T.type_inv(new, ty))
            bad.set_term(r, new)
        ex.exc.append((bad, Exc("any", "a statement of the transaction fails")))

    def main_tables(self, st):
        return {n: st.term(r) for n, r in self.db(st).items() if n not in TEMP}

    def transaction(self, ex, st, w):
        if w == "begin":
            out = []
            for s, inside in ex.split(st, z3.Or(st.tag["inside"], z3.BoolVal(st.tag["txn"]))):
                if inside:
                    ex.raise_(s, "sqlite3.OperationalError", "cannot start a transaction within a transaction")
                else:
                    s.tag = dict(s.tag, txn=True)
                    if s.tag.get("commits", 0):
                        self.any_failure(ex, s)
                    out.append((s, NONE))
            return out
        ex.oblige(st, z3.Or(z3.Not(st.tag["inside"]), z3.BoolVal(st.tag["txn"])), "an enclosing transaction is not ended")
        if not st.tag["txn"]:
            ex.raise_(st, "sqlite3.OperationalError", "no transaction is active")
            return []
        if w == "rollback":
            for n, t in st.tag["committed"].items():
                st.set_term(self.db(st)[n], t)
            st.tag = dict(st.tag, txn=False)
        else:
            st.tag = dict(st.tag, txn=False, committed=self.main_tables(st), commits=st.tag.get("commits", 0) + 1)
        return [(st, NONE)]

    def execute(self, ex, st, stmt, pars):
        if stmt[0] not in ("rollback", "detach", "pragma") and st.tag["txn"]:
            ex.exc.append((st.copy(), Exc("any", "the statement fails")))
        return BatchDB.execute(self, ex, st, stmt, pars)

    def execute1(self, ex, st, stmt, pars):
        k = stmt[0]
        if k == "txn":
            return self.transaction(ex, st, "begin" if stmt[1] == "begin" else "commit")
        if k == "rollback":
            return self.transaction(ex, st, "rollback")
        if k == "attach":
            return self.attach(ex, st, pars)
        if k == "detach":
            if any(n not in self.db(st) for n in TEMP):
                ex.raise_(st, "sqlite3.OperationalError", "no such database")
                return []
            if st.tag["txn"]:
                ex.raise_(st, "sqlite3.OperationalError", "database is locked")
                return []
            st.tag = dict(st.tag, db={n: r for n, r in self.db(st).items() if n not in TEMP}, attached=False)
            return [(st, NONE)]
        if k == "create-index":
            return self.exists(ex, st, stmt[1])
        if k in ("insert", "insert-select", "update", "delete") and stmt[1 if k in ("update", "delete") else 2] not in self.db(st):
            tn = stmt[1 if k in ("update", "delete") else 2]
            if tn not in st.tag["apart"]:
                raise Unsupported(f"table {tn} is not part of this contract")
            ex.assumptions.add(f"what is written to {tn} is not followed")
            return [(st, NONE)]
        if k == "insert-select":
            src = [s[0] for s, _ in stmt[4]["from"]]
            live = [st]
            for tn in src:
                if tn in TEMP:
                    live = [s for x in live for s, _ in self.exists(ex, x, tn)]
            return [r for s in live for r in BatchDB.execute1(self, ex, s, stmt, pars)]
        return BatchDB.execute1(self, ex, st, stmt, pars)

    def attach(self, ex, st, pars):
        if len(pars) != 1 or not z3.eq(ex.to_term(st, pars[0], T.TVal), st.tag["path"]):
            raise Unsupported("another database is attached")
        x = T.fresh("x", z3.IntSort())
        disp, done = st.term(st.tag["dispatched"]), st.term(st.tag["done"])
        ex.oblige(st, z3.ForAll([x], z3.Implies(DISPATCHED.has(disp, x), done[x]), patterns=[DISPATCHED.has(disp, x)]), "every batch has succeeded before the batches are merged")
        self.batch_tables(st, lambda lo: DISPATCHED.has(disp, lo))
        st.tag = dict(st.tag, attached=True)
        made = len(st.pc)
        for g in st.tag["guarantee"](Spec(ex, st, st.fid, ex.old_state)):
            st.assume(g)
        return [(st, NONE)]

    def exists(self, ex, st, name):
        """the tables of the temporary database are made by the first batch"""
        if name not in self.db(st):
            ex.raise_(st, "sqlite3.OperationalError", "no such table")
            return []
        if name not in TEMP:
            return [(st, NONE)]
        dom = DISPATCHED.dom(st.term(st.tag["dispatched"]))
        s = ex.guard(st, T.set_theory(I_).card(dom) > 0, "sqlite3.OperationalError", "no such table")
        return [(s, NONE)] if s is not None else []

    def insert(self, ex, st, mode, tn, cols, vals):
        if tn in TABLES and TABLES[tn].unique and tn in self.db(st) and mode == "abort":
            t, ref = self.tref(st, tn)
            given, cur = dict(zip(cols or t.decl, vals)), st.term(ref)
            k = T.fresh("k", t.kty.sort)
            for u in t.unique:
                same = z3.And(*[t.rty.col(t.ty.at(cur, k), n) == ex.to_term(st, given[n], t.rty.tys[t.rty.cols.index(n)]) for n in u])
                ex.oblige(st, z3.ForAll([k], z3.Not(z3.And(t.ty.has(cur, k), same)), patterns=[t.ty.has(cur, k)]), f"no other row of {tn} with this {', '.join(u)}")
        return BatchDB.insert(self, ex, st, mode, tn, cols, vals)

    # ------------------------------------------------------------------ expressions
    def ev(self, ex, st, e, env, pars):
        if e[0] == "func" and isinstance(env, GroupEnv) and e[1] in ("sum", "count", "min", "max", "roaring_union"):
            return self.over_members(ex, st, e, env, pars)
        if e[0] == "col" and e[1] is None and e[2] == "rowid":
            raise Unsupported("SQL: rowid")
        return BatchDB.ev(self, ex, st, e, env, pars)

    def over_members(self, ex, st, e, env, pars):
        rel, A = env.rel, env.members(env.g)
        k = rel.vs[0]
        if e[1] == "count":
            if e[2] != ["*"]:
                raise Unsupported("SQL: count of a column")
            return I(T.set_theory(rel.kty).card(A))
        v = BatchDB.ev(self, ex, st, e[2][0], rel.env, pars)
        if e[1] == "sum":
            if not (isinstance(v, Sc) and v.ty == T.TInt):
                raise Unsupported("SQL: sum of a column")
            return I(T.sum_theory(rel.kty, T.TInt)(A, T.lam(k, v.t)))
        if e[1] == "roaring_union":
            if not isinstance(v, Ref) or st.ty(v) != Bits:
                raise Unsupported("SQL: union of a column")
            return st.alloc(Bits, family_union(rel.kty)[0](A, T.lam(k, st.term(v))))
        raise Unsupported(f"SQL: {e[1]} over a group")

    def unique_row(self, ex, st, rel):
        """a lookup by unique columns: (key term, found)"""
        t, ref, alias, _ = rel.tables[0]
        if len(rel.tables) != 1 or rel.functional or len(rel.q["from"]) != 1:
            return None
        cur = st.term(ref)
        for cols in t.unique:
            fake = Rel.__new__(Rel)
            fake.__dict__.update(rel.__dict__)
            terms = self.equated(ex, st, rel, cols)
            if terms is None:
                continue
            a, b = T.fresh("a", t.kty.sort), T.fresh("b", t.kty.sort)
            vals = lambda k: [t.rty.col(t.ty.at(cur, k), c) for c in cols]
            name = ("by_" + "_".join(cols), cur.get_id())
            known = st.tag.get("by_unique", {})
            if name not in known:
                by = T.fresh_fn("row_by_" + "_".join(cols), *[v.sort() for v in vals(a)], t.kty.sort)
                ex.oblige(st, z3.ForAll([a, b], z3.Implies(z3.And(t.ty.has(cur, a), t.ty.has(cur, b), *[x == y for x, y in zip(vals(a), vals(b))]), a == b),
                                        patterns=[z3.MultiPattern(t.ty.has(cur, a), t.ty.has(cur, b))]), f"{', '.join(cols)} tell the rows of {t.name} apart")
                st.assume(z3.ForAll([a], z3.Implies(t.ty.has(cur, a), by(*vals(a)) == a), patterns=[t.ty.has(cur, a)]))
                known = {**known, name: (by, cur)}
                st.tag = dict(st.tag, by_unique=known)
            by = known[name][0]
            k = by(*terms)
            return k, z3.And(t.ty.has(cur, k), *[x == y for x, y in zip(vals(k), terms)])
        return None

    def equated(self, ex, st, rel, cols):
        """the terms the condition (only equations) gives to exactly these columns"""
        alias, want = rel.tables[0][2], {n: None for n in cols}
        ok = []

        def conj(e):
            if e[0] == "and":
                conj(e[1])
                conj(e[2])
            elif e[0] == "cmp" and e[1] == "=":
                pair(e[2], e[3])
            else:
                ok.append(False)

        def pair(a, b):
            if a[0] == "row" and b[0] == "row" and len(a[1]) == len(b[1]):
                for x, y in zip(a[1], b[1]):
                    pair(x, y)
                return
            for x, y in ((a, b), (b, a)):
                if x[0] == "col" and x[2] in want and x[1] in (None, alias) and want[x[2]] is None and rel.closed(y, alias):
                    want[x[2]] = y
                    return
            ok.append(False)
        if rel.q.get("where") is None:
            return None
        conj(rel.q["where"])
        if ok or any(v is None for v in want.values()):
            return None
        t = rel.tables[0][0]
        env = Env(rel.outer)
        out = []
        for n in cols:
            v = self.ev(ex, st, want[n], env, rel.pars)
            if v is NONE or isinstance(v, OptV):
                return None
            out.append(ex.to_term(st, v, t.rty.tys[t.rty.cols.index(n)]))
        return out

    def scalar(self, ex, st, q, env, pars):
        e = q["cols"][0][0]
        if len(q["cols"]) == 1 and self.aggregate(ex, st, q, e, env, pars) is None:
            rel = Rel(self, ex, st, q, env, pars)
            if rel.fixed_key() is None:
                hit = self.unique_row(ex, st, rel)
                if hit is None:
                    raise Unsupported("SQL: scalar subquery that is not a lookup by key")
                k, found = hit
                v = self.ev(ex, st, e, rel.at(k)[1], pars)
                ty = T.TOpt(ex.ty_of(st, v))
                return OptV(ty, z3.If(found, ty.some(ex.to_term(st, v, ty.ty)), ty.none))
        return BatchDB.scalar(self, ex, st, q, env, pars)

    # ------------------------------------------------------------------ insert from a select
    def grouped(self, ex, st, q, pars):
        rel = Rel(self, ex, st, dict(q, group=None), None, pars)
        if len(rel.vs) != 1:
            raise Unsupported("SQL: groups of a join")
        cols = []
        for e in q["group"]:
            if e[0] != "col":
                raise Unsupported("SQL: group by an expression")
            ty, t = rel.env.find(e[1], e[2])
            cols.append((rel.tables[0][2], e[2], ty, t))
        cols.sort(key=lambda c: rel.tables[0][0].decl.index(c[1]))
        if len({c[1] for c in cols}) != len(cols):
            raise Unsupported("SQL: groups by one column twice")
        gty = cols[0][2] if len(cols) == 1 else T.TTup(*[c[2] for c in cols])
        key = cols[0][3] if len(cols) == 1 else gty.mk(*[c[3] for c in cols])
        k, g = rel.vs[0], T.fresh("g", gty.sort)
        S = T.TSet(rel.kty).sort
        mem, grp, wit = T.fresh_fn("members", gty.sort, S), T.fresh("groups", T.TSet(gty).sort), T.fresh_fn("member_of", gty.sort, rel.kty.sort)
        st.assume(z3.ForAll([g, k], mem(g)[k] == z3.And(rel.cond, key == g), patterns=[mem(g)[k]]),
                  z3.ForAll([k], z3.Implies(rel.cond, z3.And(mem(key)[k], grp[key])), patterns=rel.pats()),
                  z3.ForAll([g], z3.Implies(grp[g], mem(g)[wit(g)]), patterns=[grp[g]]))
        env = GroupEnv(rel, [c[:3] for c in cols], g, gty, mem)
        st.tag = dict(st.tag, groups=(gty, grp, mem, rel.kty))
        return Source(g, grp[g], env, grp[g])

    def rows_of(self, ex, st, q, pars):
        if q["distinct"] or q["limit"] is not None:
            raise Unsupported("SQL: insert from this select")
        if q.get("group"):
            return self.grouped(ex, st, q, pars)
        rel = Rel(self, ex, st, q, None, pars)
        if len(rel.vs) != 1:
            raise Unsupported("insert from a join")
        return Source(rel.vs[0], rel.cond, rel.env, rel.pats()[0])

    def witness(self, ex, st, tn):
        """facts the contract asserts once rows have been inserted into a table"""
        if tn in st.tag.get("witness", {}):
            for lab, f in labelled(st.tag["witness"][tn](Spec(ex, st, st.fid, ex.old_state))):
                ex.oblige(st, f, f"after inserting into {tn}: {lab}")

    def insert_select(self, ex, st, stmt, pars):
        _, mode, tn, cols, q = stmt
        t, ref = self.tref(st, tn)
        if t.rowid or (mode == "ignore" and not q.get("group")):
            out = BatchDB.insert_select(self, ex, st, stmt, pars)
            for s, _ in out:
                self.witness(ex, s, tn)
            return out
        if mode not in ("abort", "replace"):
            raise Unsupported(f"SQL: insert or {mode} from a select")
        cols = cols or t.decl
        src = self.rows_of(ex, st, q, pars)
        vals = []
        for e, _ in q["cols"]:
            if e[0] == "star":
                for _, t0, k0, r0 in src.env.rows:
                    for n in t0.decl:
                        ty, tm = colterm(t0, k0, r0, n)
                        vals.append(ex.from_term(st, ty, tm) if not ty.mutable else st.alloc(ty, tm))
            else:
                vals.append(self.ev(ex, st, e, src.env, pars))
        if len(vals) != len(cols):
            raise Unsupported("SQL: number of columns")
        given = dict(zip(cols, vals))
        v, cond = src.v, src.cond
        cur = st.term(ref)
        has = lambda k: t.ty.has(cur, k)
        lab = f"rows inserted into {tn}"

        def always(goal, text, pat=None):
            ex.oblige(st, z3.ForAll([v], z3.Implies(cond, goal), patterns=[pat if pat is not None else src.pat]), text)

        def column(n, ty):
            x = given[n]
            if isinstance(x, OptV) and not isinstance(ty, T.TOpt):
                always(z3.Not(x.ty.is_none(x.t)), f"{lab}: {n} is not NULL")
                return x.ty.val(x.t)
            return ex.to_term(st, x, ty)
        auto = len(t.pk) == 1 and t.kty == I_ and (t.pk[0][0] not in given or isinstance(given[t.pk[0][0]], OptV))
        fresh_key = z3.BoolVal(False)
        if auto:
            x = given.get(t.pk[0][0])
            new = T.fresh_fn("new_" + t.pk[0][0], v.sort(), z3.IntSort())
            none = x.ty.is_none(x.t) if x is not None else z3.BoolVal(True)
            fresh_key, kt = none, T.fresh_fn("key_for", v.sort(), z3.IntSort())
            back = T.fresh_fn("new_for", z3.IntSort(), v.sort())
            kv = kt(v)
            st.assume(z3.ForAll([v], z3.Implies(z3.And(cond, none), z3.And(z3.Not(has(kv)), back(kv) == v)), patterns=[kv]))
            if x is not None:
                st.assume(z3.ForAll([v], z3.Implies(z3.And(cond, z3.Not(none)), kv == x.ty.val(x.t)), patterns=[kv]))
                st.assume(z3.ForAll([v], z3.Implies(z3.And(cond, z3.Not(none)), kv == x.ty.val(x.t)), patterns=[src.pat]))
            key_at = kt
        else:
            ks = [column(n, ty) for n, ty in t.pk]
            kterm = ks[0] if len(ks) == 1 else t.kty.mk(*ks)
            key_at = lambda y: z3.substitute(kterm, (v, y))
            kv = kterm
        row = t.rty.mk(*[column(n, ty) if n in given else t.rty.get(self.default_row(t), i) for i, (n, ty) in enumerate(t.cols)])
        w = T.fresh("w", v.sort())
        other = lambda f: z3.substitute(f, (v, w))
        two = z3.MultiPattern(src.pat, other(src.pat))
        if auto:
            # new keys are new: what is given must name rows that are there, and not one row twice
            always(z3.Or(fresh_key, has(kv)), f"{lab}: a given key is the key of a row")
        ex.oblige(st, z3.ForAll([v, w], z3.Implies(z3.And(cond, other(cond), kv == other(kv)), v == w), patterns=[two]), f"{lab}: no key is inserted twice")
        if mode == "abort":
            always(z3.Not(has(kv)), f"{lab}: no key is there already")
        for u in t.unique:
            at = lambda r: [t.rty.col(r, n) for n in u]
            same = lambda r1, r2: z3.And(*[a == b for a, b in zip(at(r1), at(r2))])
            k = T.fresh("k", t.kty.sort)
            ex.oblige(st, z3.ForAll([v, w], z3.Implies(z3.And(cond, other(cond), same(row, other(row))), v == w), patterns=[two]), f"{lab}: no two with the same {', '.join(u)}")
            ex.oblige(st, z3.ForAll([v, k], z3.Implies(z3.And(cond, has(k), same(row, t.ty.at(cur, k))), k == kv), patterns=[z3.MultiPattern(src.pat, has(k))]),
                      f"{lab}: only the row that is replaced has the same {', '.join(u)}")
        if mode == "replace" and st.tag.get("fk", True):
            for child, fks in FKS.items():
                for col, parent in fks:
                    if parent == tn and child in self.db(st):
                        ct, cref = self.tref(st, child)
                        c0, x = st.term(cref), T.fresh("x", ct.kty.sort)
                        ref_to = colterm(ct, x, ct.ty.at(c0, x), col)[1]
                        ex.oblige(st, z3.ForAll([v, x], z3.Not(z3.And(cond, has(kv), ct.ty.has(c0, x), ref_to == kv)), patterns=[z3.MultiPattern(src.pat, ct.ty.has(c0, x))]),
                                  f"no row of {child} is lost when rows of {tn} are replaced")
        if (tn, "insert") in self.schema.triggers or (mode == "replace" and (tn, "delete") in self.schema.triggers):
            raise Unsupported("SQL: triggers of an insert from a select")
        for col, parent in FKS.get(tn, []):
            if parent in self.db(st):
                pt, pref = self.tref(st, parent)
                cv = colterm(t, kv, row, col)[1]
                always(pt.ty.has(st.term(pref), cv), f"{lab}: {col} references {parent}")
        # the new contents
        new, of = T.fresh(tn, t.ty.sort), T.fresh_fn("row_source", t.kty.sort, v.sort())
        x = T.fresh("x", t.kty.sort)
        sub = lambda f, y: z3.substitute(f, (v, y))
        mine = z3.And(sub(cond, of(x)), key_at(of(x)) == x)
        nh, na = t.ty.has(new, x), t.ty.at(new, x)
        st.assume(z3.ForAll([v], z3.Implies(cond, z3.And(of(kv) == v, t.ty.has(new, kv), t.ty.at(new, kv) == row)), patterns=[src.pat]))
        st.assume(z3.ForAll([x], nh == z3.Or(has(x), mine), patterns=[nh]), z3.ForAll([x], z3.Implies(has(x), nh), patterns=[has(x)]),
                  z3.ForAll([x], z3.Implies(nh, na == z3.If(mine, sub(row, of(x)), t.ty.at(cur, x))), patterns=[nh]))
        st.set_term(ref, new)
        st.tag = dict(st.tag, **{"inserted:" + tn: (src, key_at, of, row)})
        self.witness(ex, st, tn)
        return [(st, NONE)]
