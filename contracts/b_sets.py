"""Ghost functions over families of document sets: union, total size, documents covered twice, elements of a list."""
import z3
from z3 import And, Or, Not, Implies, ForAll, Exists, If, Int, IntVal, BoolVal, Store, MultiPattern

from dv import theory as T
from dv.contract import *

I_ = z3.IntSort()
th = T.Bits.th
card = th.card
SET, FAM = th.S, z3.ArraySort(I_, th.S)
ith = T.set_theory(T.TInt)

bigunion = z3.Function("bigunion", SET, FAM, SET)          # the union of G[x], x in S
bigw = z3.Function("bigunion_wit", SET, FAM, I_, I_)
twice = z3.Function("twice", SET, FAM, SET)                # what at least two members of the family contain
tw1, tw2 = z3.Function("twice_wit1", SET, FAM, I_, I_), z3.Function("twice_wit2", SET, FAM, I_, I_)
hits = z3.Function("total_size", SET, FAM, I_)             # the sum of the sizes of G[x], x in S
elems, elemslim = z3.Function("elems", z3.ArraySort(I_, I_), I_, SET), z3.Function("elems_lim", z3.ArraySort(I_, I_), I_, SET)
elemw = z3.Function("elems_wit", z3.ArraySort(I_, I_), I_, I_, I_)
_S, _G = z3.Const("S", SET), z3.Const("G", FAM)
_x, _y, _d, _n = z3.Ints("x y d n")
_a = z3.Const("a", z3.ArraySort(I_, I_))
_ax = T.axiom
U = bigunion(_S, _G)
w = bigw(_S, _G, _d)
_ax([bigunion], ForAll([_S, _G, _d], Implies(U[_d], And(_S[w], _G[w][_d])), patterns=[U[_d]]), "definition of the union of a family")
_ax([bigunion], ForAll([_S, _G, _d, _x], Implies(And(_S[_x], _G[_x][_d]), U[_d]), patterns=[MultiPattern(U, _G[_x][_d])]), "definition of the union of a family")
_ax([bigunion], ForAll([_S, _G, _x], bigunion(Store(_S, _x, True), _G) == th.union(U, _G[_x]), patterns=[bigunion(Store(_S, _x, True), _G)]), "union of a family after adding a member")
_ax([bigunion], ForAll([_G], bigunion(th.empty, _G) == th.empty, patterns=[bigunion(th.empty, _G)]), "union of the empty family")
W2 = twice(_S, _G)
a1, a2 = tw1(_S, _G, _d), tw2(_S, _G, _d)
_ax([twice], ForAll([_S, _G, _d], Implies(W2[_d], And(_S[a1], _S[a2], a1 != a2, _G[a1][_d], _G[a2][_d])), patterns=[W2[_d]]), "definition of covered twice")
_ax([twice], ForAll([_S, _G, _d, _x, _y], Implies(And(_S[_x], _S[_y], _x != _y, _G[_x][_d], _G[_y][_d]), W2[_d]),
                    patterns=[MultiPattern(W2, _G[_x][_d], _G[_y][_d])]), "definition of covered twice")
h = hits(_S, _G)
_ax([hits], ForAll([_S, _G], h >= 0, patterns=[h]), "a total size is not negative")
_ax([hits], ForAll([_G], hits(th.empty, _G) == 0, patterns=[hits(th.empty, _G)]), "definition of the total size")
_ax([hits], ForAll([_S, _G, _x], hits(Store(_S, _x, True), _G) == h + If(_S[_x], 0, card(_G[_x])), patterns=[hits(Store(_S, _x, True), _G)]), "definition of the total size")
_ax([hits], ForAll([_S, _G, _x], hits(Store(_S, _x, False), _G) == h - If(_S[_x], card(_G[_x]), 0), patterns=[hits(Store(_S, _x, False), _G)]), "definition of the total size")
_ax([elems], ForAll([_a, _n], elems(_a, _n) == elemslim(_a, _n), patterns=[elems(_a, _n)]), "definition of the elements of a list")
_ax([elems], ForAll([_a, _n], Implies(_n <= 0, elems(_a, _n) == th.empty), patterns=[elems(_a, _n)]), "definition of the elements of a list")
_ax([elems], ForAll([_a, _n], Implies(_n > 0, elems(_a, _n) == Store(elemslim(_a, _n - 1), _a[_n - 1], True)), patterns=[elems(_a, _n)]), "definition of the elements of a list")
_j = Int("j")


def _elem_lemma():
    """x is an element of a[0..n-1] exactly when it stands at some position"""
    E = elems(_a, _n)
    wit = elemw(_a, _n, _x)
    _ax([elemw], ForAll([_a, _n, _x], Implies(Exists([_j], And(0 <= _j, _j < _n, _a[_j] == _x)), And(0 <= wit, wit < _n, _a[wit] == _x)), patterns=[wit]),
        "choice of a position")

    def fact():
        return And(ForAll([_a, _n, _x], Implies(E[_x], And(0 <= wit, wit < _n, _a[wit] == _x)), patterns=[E[_x]]),
                   ForAll([_a, _n, _j], Implies(And(0 <= _j, _j < _n), E[_a[_j]]), patterns=[MultiPattern(E, _a[_j])]))

    def obligations():
        P = elems(_a, _n - 1)
        k = Int("kk")
        pos = lambda n, e: Exists([_j], And(0 <= _j, _j < n, _a[_j] == e))
        yield "base", [_n <= 0], Not(E[_x])
        hyp = ForAll([_x], Implies(P[_x], pos(_n - 1, _x)), patterns=[P[_x]])
        yield "step: members stand somewhere", [_n > 0, hyp, E[_x], P == elemslim(_a, _n - 1)], pos(_n, _x)
        yield "positions give members, base", [0 <= k, k < _n, k == _n - 1], E[_a[k]]
        yield "positions give members, step", [0 <= k, k < _n - 1, P[_a[k]]], E[_a[k]]
        yield "choice", [E[_x], Implies(E[_x], pos(_n, _x)), wit == wit], And(0 <= wit, wit < _n, _a[wit] == _x)
    return REG.lemma(Lemma("elements of a list", fact, obligations))


elem_lemma = _elem_lemma()


def distinct(a, n):
    i, j = T.fresh("i", I_), T.fresh("j", I_)
    return ForAll([i, j], Implies(And(0 <= i, i < j, j < n), a[i] != a[j]), patterns=[MultiPattern(a[i], a[j])])
