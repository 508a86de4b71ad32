"""Proximity windows, collocations, passages, concordances."""
import z3
from z3 import And, Or, Not, Implies, ForAll, Exists, If, Int

from dv import theory as T
from dv.contract import *
from dv.engine import Loop

rank, sel = T.bits().rank, T.bits().sel
th = T.Bits.th


def same_doc(B, x, y):
    """x and y lie between the same two boundaries"""
    return rank(B, x) == rank(B, y)


def near(B, w, x, p):
    return And(x - p <= w, p - x <= w, same_doc(B, x, p))


SET, I_ = T.Bits.sort, z3.IntSort()
window = z3.Function("window", SET, SET, I_, SET)          # the positions within w of A in the documents bounded by B
window_wit = z3.Function("window_wit", SET, SET, I_, I_, I_)
_A2, _B2, _w, _x, _y = z3.Const("A", SET), z3.Const("B", SET), Int("w"), Int("x"), Int("y")
_WN = window(_A2, _B2, _w)
_WW = window_wit(_A2, _B2, _w, _x)
T.axiom([window], ForAll([_A2, _B2, _w, _x], Implies(_WN[_x], And(_A2[_WW], near(_B2, _w, _x, _WW))), patterns=[_WN[_x]]), "definition of the window")
T.axiom([window], ForAll([_A2, _B2, _w, _x, _y], Implies(And(_A2[_y], near(_B2, _w, _x, _y)), _WN[_x]), patterns=[z3.MultiPattern(_WN[_x], _A2[_y])]), "definition of the window")


def in_documents(A, B):
    p = Int("p")
    return ForAll([p], Implies(A[p], And(rank(B, p) >= 1, rank(B, p) < th.card(B))), patterns=[A[p]])


def is_window(r, A, B, w):
    x, p = Int("x"), Int("p")
    return [("only positions of the same document within the window",
             ForAll([x], Implies(r[x], Exists([p], And(A[p], near(B, w, x, p)))))),
            ("every position of the same document within the window",
             ForAll([x, p], Implies(And(A[p], near(B, w, x, p)), r[x]), patterns=[z3.MultiPattern(A[p], r[x])])),
            ("the result lies in the window", ForAll([x], Implies(r[x], window(A, B, w)[x]), patterns=[r[x]])),
            ("the window lies in the result", ForAll([x], Implies(window(A, B, w)[x], r[x]), patterns=[window(A, B, w)[x]]))]


def window_inv(c):
    A, B, w, W_ = c.positions.t, c.doc_boundaries.t, c.window_size, c.windowed.t
    done, ns = c.g.done, c.next_start
    x, p = Int("x"), Int("p")
    out = [
        ForAll([x], Implies(W_[x], window(A, B, w)[x]), patterns=[W_[x]]),
        ForAll([x, p], Implies(And(done[p], near(B, w, x, p)), W_[x]), patterns=[z3.MultiPattern(done[p], W_[x])]),
        ForAll([x], Implies(A[x], W_[x]), patterns=[A[x]]),
        Or(ns == -1, ns >= 0),
    ]
    if c.has("doc_start") and c.has("rank") and c.has("position"):
        k, pos = c.rank, c.position
        out.append(Implies(ns != -1, And(c.bound("doc_start"), c.bound("rank"), c.bound("position"), done[pos], c.doc_start <= pos,
                                         pos < ns, 1 <= k, k < th.card(B), c.doc_start == sel(B, k - 1), ns == sel(B, k))))
    else:
        out.append(ns == -1)
    return out


REG.add(Contract(
    "utilities.expand_positions_window",
    dict(positions=BITMAP, doc_boundaries=BITMAP, window_size=INT),
    requires=lambda c: [c.window_size >= 0, in_documents(c.positions.t, c.doc_boundaries.t)],
    returns=BITMAP,
    hints=lambda c: is_window(c.result.t, c.positions.t, c.doc_boundaries.t, c.window_size),
    ensures=lambda c: [("the result is every position of a document within the window of a position given for it", c.result.t == window(c.positions.t, c.doc_boundaries.t, c.window_size))],
    loops={0: Loop(window_inv)},
), "P01")
