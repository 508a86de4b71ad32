"""Bit-sliced counting: ghost functions, lemmas, and the contracts of the slicing functions."""
import z3
from z3 import And, Or, Not, Implies, ForAll, Exists, If, Int, IntVal, BoolVal

from dv import theory as T
from dv.contract import *
from dv.engine import Loop
from dv.libs import pow2

Seqs = T.TSeq(T.Bits)
ARR = z3.ArraySort(z3.IntSort(), T.Bits.sort)
I_ = z3.IntSort()
th = T.Bits.th
card = th.card

# low(a, e, d): value of the bits of slices 0 .. e-1 of document d
low, lowlim = z3.Function("lowbits", ARR, I_, I_, I_), z3.Function("lowbits_lim", ARR, I_, I_, I_)
# high(a, n, i, d): value of the bits of slices i .. n-1, as a number starting at slice i
high, highlim = z3.Function("highbits", ARR, I_, I_, I_, I_), z3.Function("highbits_lim", ARR, I_, I_, I_, I_)
# count(a, n, d): number of sets among a[0..n-1] that contain d
count, countlim = z3.Function("count_in", ARR, I_, I_, I_), z3.Function("count_in_lim", ARR, I_, I_, I_)

_a, _b = z3.Const("a", ARR), z3.Const("b", ARR)
_n, _i, _d, _e, _l = z3.Ints("n i d e l")
_ax = T.axiom
for f, lim, one in ((low, lowlim, lambda e: pow2(e)), (count, countlim, lambda e: IntVal(1))):
    _ax([f], ForAll([_a, _e, _d], f(_a, _e, _d) == lim(_a, _e, _d), patterns=[f(_a, _e, _d)]), f"definition of {f.name()}")
    _ax([f], ForAll([_a, _e, _d], Implies(_e <= 0, f(_a, _e, _d) == 0), patterns=[f(_a, _e, _d)]), f"definition of {f.name()}")
    _ax([f], ForAll([_a, _e, _d], Implies(_e > 0, f(_a, _e, _d) == lim(_a, _e - 1, _d) + If(_a[_e - 1][_d], one(_e - 1), 0)),
                    patterns=[f(_a, _e, _d)]), f"definition of {f.name()}")
_ax([high], ForAll([_a, _n, _i, _d], high(_a, _n, _i, _d) == highlim(_a, _n, _i, _d), patterns=[high(_a, _n, _i, _d)]), "definition of highbits")
_ax([high], ForAll([_a, _n, _i, _d], Implies(_i >= _n, high(_a, _n, _i, _d) == 0), patterns=[high(_a, _n, _i, _d)]), "definition of highbits")
_ax([high], ForAll([_a, _n, _i, _d], Implies(_i < _n, high(_a, _n, _i, _d) == 2 * highlim(_a, _n, _i + 1, _d) + If(_a[_i][_d], 1, 0)),
                   patterns=[high(_a, _n, _i, _d)]), "definition of highbits")
_ax([pow2], ForAll([_i], Implies(_i > 0, pow2(_i) == 2 * pow2(_i - 1)), patterns=[pow2(_i)]), "pow2 step")


def agree(a, b, e, n):
    return ForAll([_l], Implies(And(e <= _l, _l < n), a[_l] == b[_l]), patterns=[a[_l], b[_l]])


def _store_lemma():
    """what replacing one slice does to the value of the bits"""
    v, k = z3.Const("v", T.Bits.sort), Int("k")
    st = z3.Store(_a, k, v)

    def stmt(n):
        return low(st, n, _d) == low(_a, n, _d) + If(And(0 <= k, k < n), If(v[_d], pow2(k), 0) - If(_a[k][_d], pow2(k), 0), 0)

    def fact():
        return ForAll([_a, k, v, _n, _d], stmt(_n), patterns=[low(st, _n, _d), lowlim(st, _n, _d)])

    def obligations():
        yield "base", [_n <= 0], stmt(_n)
        yield "step", [_n > 0, stmt(_n - 1)], stmt(_n)
    return REG.lemma(Lemma("replacing a slice", fact, obligations))


low_store = _store_lemma()


def _count_pos():
    def fact():
        return ForAll([_a, _n, _d], count(_a, _n, _d) >= 0, patterns=[count(_a, _n, _d), countlim(_a, _n, _d)])

    def obligations():
        yield "base", [_n <= 0], count(_a, _n, _d) >= 0
        yield "step", [_n > 0, count(_a, _n - 1, _d) >= 0], count(_a, _n, _d) >= 0
    return REG.lemma(Lemma("counts are not negative", fact, obligations))


count_pos = _count_pos()


def _order():
    x, y = z3.Ints("x y")

    def stmt(i):
        return Implies(high(_a, _n, i, x) > high(_a, _n, i, y), high(_a, _n, 0, x) > high(_a, _n, 0, y))

    def fact():
        return ForAll([_a, _n, _i, x, y], Implies(And(0 <= _i, _i <= _n), stmt(_i)),
                      patterns=[z3.MultiPattern(high(_a, _n, _i, x), high(_a, _n, _i, y))])

    def obligations():
        yield "base", [_i == 0], stmt(_i)
        yield "step", [0 < _i, _i <= _n, stmt(_i - 1)], stmt(_i)
    return REG.lemma(Lemma("higher bits decide", fact, obligations))


order = _order()


def _weight():
    """the two ways of reading the slices give the same number"""
    def stmt(i):
        return low(_a, _n, _d) == low(_a, i, _d) + pow2(i) * high(_a, _n, i, _d)

    def fact():
        return ForAll([_a, _n, _d], Implies(_n >= 0, low(_a, _n, _d) == high(_a, _n, 0, _d)), patterns=[high(_a, _n, 0, _d)])

    def obligations():
        yield "base", [_i == _n, _n >= 0], stmt(_i)
        yield "step", [0 <= _i, _i < _n, stmt(_i + 1)], stmt(_i)
        yield "at zero", [_n >= 0, stmt(IntVal(0))], low(_a, _n, _d) == high(_a, _n, 0, _d)
    return REG.lemma(Lemma("weights read from either end", fact, obligations))


weight_lemma = _weight()


# ------------------------------------------------------------------ bstm
def split_at(c, v, g, e, j):
    M, a, n = c.matching.t, c.bitslice.arr, c.bitslice.len
    d = Int("d")
    h = high(a, n, j, d)
    return [ForAll([d], Implies(g[d], And(M[d], Not(e[d]))), patterns=[g[d]]),
            ForAll([d], Implies(e[d], And(M[d], Not(g[d]))), patterns=[e[d]]),
            ForAll([d], Implies(And(M[d], h == v), e[d]), patterns=[M[d]]),
            ForAll([d], Implies(And(M[d], h > v), g[d]), patterns=[M[d]]),
            ForAll([d], Implies(e[d], h == v), patterns=[e[d]]),
            ForAll([d], Implies(g[d], h > v), patterns=[g[d]])]


def bstm_loop(c):
    M, k = c.matching.t, c.top_k
    n = c.bitslice.len
    j = n - c.g.i
    g, e = c.var("g").t, c.e.t
    v = high(c.bitslice.arr, n, j, th.nonempty_wit(e))
    return [Implies(c.g.i > 0, c.i == j) if c.has("i") else BoolVal(True),
            th.inter(g, e) == th.empty, card(g) < k, card(g) + card(e) > k, e[th.nonempty_wit(e)]] + split_at(c, v, g, e, j)


def top_k_set(r, M, W, k):
    """r is a set of the k heaviest members of M, with every tie of the lightest one"""
    d, x, y = z3.Ints("d x y")
    S = z3.Const("S", T.Bits.sort)
    return [
        ("only matching documents are kept", ForAll([d], Implies(r[d], M[d]))),
        ("at least k documents, or all", Or(card(r) >= k, r == M)),
        ("everything left out is strictly lighter", ForAll([x, y], Implies(And(r[x], M[y], Not(r[y])), W(x) > W(y)))),
        ("fewer than k are heavier than the lightest kept",
         ForAll([S, x], Implies(And(r[x], ForAll([y], Implies(r[y], W(y) >= W(x)), patterns=[r[y]]), th.sub(S, r),
                                    ForAll([y], Implies(S[y], W(y) > W(x)), patterns=[S[y]])), card(S) < k))),
    ]


def bstm_hints(c):
    if not c.has("e"):
        return []
    a, n = c.bitslice.arr, c.bitslice.len
    g, e = c.var("g").t, c.e.t
    j = If(n > 0, c.i, 0) if c.has("i") else IntVal(0)
    S, y = z3.Const("S", T.Bits.sort), Int("y")
    return [("the boundary is not empty", And(e[th.nonempty_wit(e)], card(g) < c.top_k))] + [
            ("the kept and the boundary documents by their high bits", f) for f in split_at(c, high(a, n, j, th.nonempty_wit(e)), g, e, j)] + [
            ("subsets of the strictly heavier", ForAll([S], Implies(ForAll([y], Implies(S[y], g[y]), patterns=[S[y]]), th.sub(S, g)), patterns=[card(S)]))]


REG.add(Contract(
    "utilities.bstm",
    dict(matching=BITMAP, bitslice=LIST(T.Bits), top_k=INT),
    requires=lambda c: [c.top_k >= 1],
    returns=BITMAP,
    ensures=lambda c: top_k_set(c.result.t, c.matching.t, lambda d: high(c.bitslice.arr, c.bitslice.len, 0, d), c.top_k),
    loops={0: Loop(bstm_loop)},
    uses=[order], hints=bstm_hints,
), "Q02")


# ------------------------------------------------------------------ compute_bitslice
def outer_inv(c):
    i, d = c.g.i, Int("d")
    src, bs, M = c.bitmaps.arr, c.bitslice, c.matching.t
    return [bs.len >= 1,
            ForAll([d], low(bs.arr, bs.len, d) == count(src, i, d), patterns=[low(bs.arr, bs.len, d), countlim(src, i, d)]),
            ForAll([d], M[d] == (count(src, i, d) > 0), patterns=[M[d], countlim(src, i, d)])]


def inner_inv(c):
    e, d = c.g.e, Int("d")
    cur, old, carry_in = c.bitslice, c.pre.bitslice, c.doc_ids.t
    out = [cur.len == old.len,
           ForAll([d], low(cur.arr, cur.len, d) + If(carry_in[d], pow2(e), 0) == low(old.arr, old.len, d) + If(c.pre.doc_ids.t[d], 1, 0),
                  patterns=[low(cur.arr, cur.len, d)])]
    if c.has("carry"):
        out.append(Implies(e >= 1, And(c.bound("carry"), c.carry.t == carry_in)))
    else:
        out.append(e == 0)
    return out


def bitslice_of(src, n, M, bs):
    d = Int("d")
    return [("the matching documents are those in at least one set", ForAll([d], M[d] == (count(src, n, d) > 0))),
            ("the slices give the number of sets of every document", ForAll([d], low(bs.arr, bs.len, d) == count(src, n, d), patterns=[low(bs.arr, bs.len, d)])),
            ("the slices read from the top give the same number", ForAll([d], high(bs.arr, bs.len, 0, d) == count(src, n, d), patterns=[high(bs.arr, bs.len, 0, d)])),
            ("there is a slice", bs.len >= 1)]


REG.add(Contract(
    "utilities.compute_bitslice",
    dict(bitmaps=LIST(T.Bits)),
    returns=lambda ex, st, c: Tup([BITMAP.make(ex, st, "matching"), LIST(T.Bits).make(ex, st, "bitslice")]),
    ensures=lambda c: bitslice_of(c.bitmaps.arr, c.bitmaps.len, c.result[0].t, c.result[1]),
    loops={0: Loop(outer_inv), 1: Loop(inner_inv)},
    types={"bitslice": Seqs},
    uses=[low_store, count_pos, weight_lemma],
), "Q01")
