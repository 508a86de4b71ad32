"""The windows around the features of a document (P03)."""
from contracts.p_docs import *
from contracts.b_sets import _S, _G, _x, _y, _d, _n, _a
from contracts.b_db import _stored
from dv.corpusapi import in_doc, is_seq, seq_of, set_of, SEQ, VSET

VARR = z3.ArraySort(I_, T.Val)
VS = VSET.sort
COOC, DOCC, ASKED = T.TMap(T.TVal, T.TSeq(SEQ)), T.TMap(T.TVal, T.TMap(T.TVal, T.TSeq(SEQ))), T.TMap(T.TVal, VSET)
_A, _B, _v, _w, _f = z3.Const("A", VARR), z3.Const("B", VARR), z3.Const("v", T.Val), z3.Const("w", T.Val), z3.Const("f", T.Val)

# how often v stands in a[0..n-1]
occ, occlim = z3.Function("occurrences", VARR, T.Val, I_, I_), z3.Function("occurrences_lim", VARR, T.Val, I_, I_)
_o = occ(_A, _v, _n)
T.axiom([occ], ForAll([_A, _v, _n], _o == occlim(_A, _v, _n), patterns=[_o]), "definition of the number of occurrences")
T.axiom([occ], ForAll([_A, _v, _n], Implies(_n <= 0, _o == 0), patterns=[_o]), "definition of the number of occurrences")
T.axiom([occ], ForAll([_A, _v, _n], Implies(_n > 0, _o == occlim(_A, _v, _n - 1) + If(_A[_n - 1] == _v, 1, 0)), patterns=[_o]), "definition of the number of occurrences")

# the values asked for in field f by the first n of the pairs (F[j], V[j])
asked, askedlim = z3.Function("asked", VARR, VARR, I_, T.Val, VS), z3.Function("asked_lim", VARR, VARR, I_, T.Val, VS)
_q = asked(_A, _B, _n, _f)
vth = T.set_theory(T.TVal)
T.axiom([asked], ForAll([_A, _B, _n, _f], _q == askedlim(_A, _B, _n, _f), patterns=[_q]), "definition of the values asked for")
T.axiom([asked], ForAll([_A, _B, _n, _f], Implies(_n <= 0, _q == vth.empty), patterns=[_q]), "definition of the values asked for")
T.axiom([asked], ForAll([_A, _B, _n, _f], Implies(_n > 0, _q == If(_A[_n - 1] == _f, Store(askedlim(_A, _B, _n - 1, _f), _B[_n - 1], True), askedlim(_A, _B, _n - 1, _f))), patterns=[_q]),
        "definition of the values asked for")


def _occ_lemma():
    """there are no more occurrences among fewer elements, and fewer before an occurrence"""
    j = Int("j")

    def fact():
        return And(ForAll([_A, _v, _n], _o >= 0, patterns=[_o]),
                   ForAll([_A, _v, j, _n], Implies(And(0 <= j, j < _n), And(occ(_A, _v, j) <= _o, Implies(_A[j] == _v, occ(_A, _v, j) < _o))), patterns=[MultiPattern(occ(_A, _v, j), _o)]))

    def obligations():
        m = occ(_A, _v, _n - 1)
        yield "not negative, base", [_n <= 0], _o >= 0
        yield "not negative, step", [_n > 0, m >= 0, m == occlim(_A, _v, _n - 1)], _o >= 0
        c = lambda big: And(occ(_A, _v, j) <= big, Implies(_A[j] == _v, occ(_A, _v, j) < big))
        yield "order, base", [0 <= j, j == _n - 1, m == occlim(_A, _v, _n - 1)], c(_o)
        yield "order, step", [0 <= j, j < _n - 1, c(m), m == occlim(_A, _v, _n - 1)], c(_o)
    return REG.lemma(Lemma("occurrences before a position", fact, obligations))


occ_lemma = _occ_lemma()

_s, _p, _sz, _t = z3.Const("s", SEQ.sort), Int("p"), Int("size"), z3.Const("t", SEQ.sort)


def _window(t, s, p, size):
    """t is the slice of s reaching size to either side of p, clipped at the ends"""
    lo, hi = If(p - size < 0, 0, p - size), If(p + size + 1 > SEQ.len(s), SEQ.len(s), p + size + 1)
    i = Int("wi")
    return And(SEQ.len(t) == hi - lo, ForAll([i], Implies(And(0 <= i, i < hi - lo), SEQ.at(t, i) == SEQ.at(s, lo + i)), patterns=[SEQ.at(t, i)]))


slice_at = T.opaque("slice_at", [_t, _s, _p, _sz], _window(_t, _s, _p, _sz))


def windows_parts(m, s, want, size, upto):
    """m holds, for each value of want that occurs in s[0..upto-1], the windows around its occurrences in order"""
    arr, v, p = SEQ.arr(s), T.fresh("v", T.Val), T.fresh("p", I_)
    at = lambda p: m[arr[p]].arr[occ(arr, arr[p], p)]
    return [("values that occur", ForAll([v], m.has(v) == And(want[v], occ(arr, v, upto) > 0), patterns=[m.has(v)])),
            ("one window for each occurrence", ForAll([v], Implies(m.has(v), m[v].len == occ(arr, v, upto)), patterns=[m.has(v)])),
            ("the windows in order", ForAll([p], Implies(And(0 <= p, p < upto, want[arr[p]]), slice_at(at(p), s, p, size)), patterns=[arr[p]]))]


def reported_parts(m, there, want):
    """m holds the values alone"""
    v = T.fresh("v", T.Val)
    return [("matching values", ForAll([v], m.has(v) == And(want[v], there[v]), patterns=[m.has(v)])),
            ("without windows", ForAll([v], Implies(m.has(v), m[v].len == 0), patterns=[m.has(v)]))]


def _right(m, doc, f, want, size):
    m = W(COOC, m)
    s = seq_of(doc, f)
    both = lambda ps: And(*[g for _, g in ps])
    return If(in_doc(doc, f), If(is_seq(doc, f), both(windows_parts(m, s, want, size, SEQ.len(s))), both(reported_parts(m, set_of(doc, f), want))),
              m.dom == vth.empty)


_m, _dc, _wt = z3.Const("m", COOC.sort), z3.Const("doc", T.Val), z3.Const("want", VS)
right = T.opaque("right_windows", [_m, _dc, _f, _wt, _sz], _right(_m, _dc, _f, _wt, _sz))

YIELD = T.TTup(T.TVal, T.TInt, DOCC)


def requested(c):
    """the fields and the values of the features"""
    fs, j = c.features, T.fresh("j", I_)
    if isinstance(fs.ty.el, T.TTup):
        return T.lam(j, fs[j][0]), T.lam(j, fs[j][1])
    t = c.table("inverted_index")
    return T.lam(j, t.col(fs[j], "field")), T.lam(j, t.col(fs[j], "value"))


def _emf_ask(c):
    ff, i = c.field_features, c.g.i
    F, V = requested(c)
    f, fs = T.fresh("f", T.Val), c.features
    out = []
    if not isinstance(fs.ty.el, T.TTup):
        j = T.fresh("j", I_)
        out = [ForAll([j], Implies(And(0 <= j, j < i), c.table("inverted_index").has(fs[j])), patterns=[fs[j]])]
    if ff is EMPTY:
        return out + [i == 0]
    return out + [ForAll([f], asked(F, V, i, f) == If(ff.has(f), ff[f].t, vth.empty), patterns=[ff.has(f)]),
                  ForAll([f], Implies(ff.has(f), asked(F, V, i, f) != vth.empty), patterns=[ff.has(f)])]


def _per_doc(c, y, n, docs):
    F, V = requested(c)
    N = c.features.len
    j, f = T.fresh("j", I_), T.fresh("f", T.Val)
    inr = And(0 <= j, j < n)
    m = lambda j: y[j][2]
    return [("the documents in order", ForAll([j], Implies(inr, And(y[j][0] == docs[j][1], y[j][1] == docs[j][0])), patterns=[y.arr[j]])),
            ("each field asked for", ForAll([j, f], Implies(inr, m(j).has(f) == (asked(F, V, N, f) != vth.empty)), patterns=[m(j).has(f)])),
            ("the windows of each field", ForAll([j, f], Implies(And(inr, m(j).has(f)), right(m(j)[f].t, docs[j][2], f, asked(F, V, N, f), c.window_size)), patterns=[m(j).has(f)]))]


def _emf_docs(c):
    y = c.yielded
    if y is EMPTY:
        return [c.g.i == 0]
    return [y.len == c.g.i] + [g for _, g in _per_doc(c, y, y.len, c.items)]


def _emf_fields(c):
    dc, ff, f = c.doc_cooccurrence, c.field_features, T.fresh("f", T.Val)
    done = c.g.done
    if dc is EMPTY:
        return [done == vth.empty]
    return [ForAll([f], dc.has(f) == done[f], patterns=[dc.has(f)]),
            ForAll([f], Implies(dc.has(f), right(dc[f].t, c.doc, f, ff[f].t, c.window_size)), patterns=[dc.has(f)])]


def _emf_values(c):
    m, s = c.cooccurrence, c.values
    return [g for _, g in windows_parts(m, s.t, c.to_match.t, c.window_size, c.g.i)]


def _emf_one(c):
    m, s, i, v, p = c.cooccurrence, c.values, c.g.i - 1, c.var("value"), T.fresh("p", I_)
    old, arr, size, want = c.begun.cooccurrence, c.values.arr, c.window_size, c.to_match.t
    k = occ(arr, v, i)
    mine = slice_at(m[v].arr[k], s.t, i, size)
    at = lambda w, p: w[arr[p]].arr[occ(arr, arr[p], p)]
    out = [arr[i] == v, T.unfold(mine), Implies(want[v], mine),
           ForAll([p], Implies(And(0 <= p, p < i, arr[p] == v), occ(arr, arr[p], p) < k), patterns=[arr[p]])]
    if old is EMPTY:
        return out + [i == 0]
    return out + [ForAll([p], Implies(And(0 <= p, p < i, want[arr[p]]), at(m, p) == at(old, p)), patterns=[arr[p]])]


def _emf_field(c):
    dc = c.doc_cooccurrence
    r = right(dc[c.field].t, c.doc, c.field, c.to_match.t, c.window_size)
    return [T.unfold(r), r]


def _emf_set(c):
    m, v, done = c.cooccurrence, T.fresh("v", T.Val), c.g.done
    return [ForAll([v], m.has(v) == done[v], patterns=[m.has(v)]), ForAll([v], Implies(m.has(v), m[v].len == 0), patterns=[m.has(v)])]


def _emf_requires(c):
    out = _sampling_requires(c) + [("the window size is not negative", c.window_size >= 0)]
    return out


def _emf_post(c):
    return _emf_facts(c, c.result)


def _emf_facts(c, y):
    F, V = requested(c)
    q, t, d, j = c.query.t, c.table("doc_key"), T.fresh("d", I_), T.fresh("j", I_)
    f, N = T.fresh("f", T.Val), c.features.len
    inr = And(0 <= j, j < y.len)
    m = lambda j: y[j][2]
    return [("each with its key", ForAll([j], Implies(inr, And(t.has(y[j][1]), y[j][0] == t.col(y[j][1], "doc_key"))), patterns=[y.arr[j]])),
            ("each field asked for", ForAll([j, f], Implies(inr, m(j).has(f) == (asked(F, V, N, f) != vth.empty)), patterns=[m(j).has(f)])),
            ("the windows of each field", ForAll([j, f], Implies(And(inr, m(j).has(f)), right(m(j)[f].t, content(y[j][0]), f, asked(F, V, N, f), c.window_size)), patterns=[m(j).has(f)]))] + \
        _sample_facts(c, ids_of(y, 1), y.len)


from contracts.p_docs import _sampling_requires, _sample_facts

PAIRL = LIST(T.TTup(T.TVal, T.TVal))
REG.add(DBContract("index.Index.extract_matching_feature_windows", {"self": IDX, "query": BITMAP, "features": PAIRL, "window_size": INT, "random_sample_size": NONEP},
                   db=["doc_key", "inverted_index"], exts=(CorpusAPI, Par),
                   cases=[{"features": f, "random_sample_size": n} for f in (PAIRL, LIST(T.TInt)) for n in (NONEP, INT)],
                   requires=_emf_requires, ensures=_emf_post, raises=[("KeyError", None)], returns=LIST(YIELD),
                   types={"cooccurrence": COOC, "doc_cooccurrence": DOCC, "field_features": ASKED, "yield": T.TSeq(YIELD)},
                   loops={0: Loop(_emf_ask), 1: Loop(_emf_docs), 2: Loop(_emf_fields, steps=_emf_field), 3: Loop(_emf_values, steps=_emf_one), 4: Loop(_emf_set)},
                   uses=[elem_lemma, elems_ext, occ_lemma]), "P03")

# ------------------------------------------------------------------ the windows as text
from dv.corpusapi import joined

TEXTS = T.TMap(T.TVal, T.TSeq(T.TVal))
DOCT = T.TMap(T.TVal, TEXTS)
TEXTROW = T.TTup(T.TVal, T.TInt, DOCT)


def texts_of(tx, wins, sep):
    """one text for each window"""
    i = T.fresh("i", I_)
    return [tx.len == wins.len, ForAll([i], Implies(And(0 <= i, i < wins.len), tx[i] == joined(sep, wins[i].t)), patterns=[tx[i]])]


def _same_texts(m, ws, sep, want):
    """one list of texts for each match"""
    v, i = T.fresh("v", T.Val), T.fresh("i", I_)
    return [ForAll([v], m.has(v) == want(v), patterns=[m.has(v)]),
            ForAll([v], Implies(m.has(v), m[v].len == ws[v].len), patterns=[m.has(v)]),
            ForAll([v, i], Implies(And(m.has(v), 0 <= i, i < ws[v].len), m[v][i] == joined(sep, ws[v][i].t)), patterns=[m[v][i]])]


_mt, _mw, _sep = z3.Const("mt", TEXTS.sort), z3.Const("mw", COOC.sort), z3.Const("sep", T.Val)
as_text = T.opaque("windows_as_text", [_mt, _mw, _sep], And(*_same_texts(W(TEXTS, _mt), W(COOC, _mw), _sep, lambda v: W(COOC, _mw).has(v))))


def _con_docs(c):
    r, y = c.yielded, c.items
    if r is EMPTY:
        return [c.g.i == 0]
    return [r.len == c.g.i] + _con_rows(c, r, y, r.len)


def _con_rows(c, r, y, n):
    j, f = T.fresh("j", I_), T.fresh("f", T.Val)
    inr = And(0 <= j, j < n)
    m = lambda j: r[j][2]
    return [ForAll([j], Implies(inr, And(r[j][0] == y[j][0], r[j][1] == y[j][1])), patterns=[r.arr[j]]),
            ForAll([j, f], Implies(inr, m(j).has(f) == y[j][2].has(f)), patterns=[m(j).has(f)]),
            ForAll([j, f], Implies(And(inr, m(j).has(f)), as_text(m(j)[f].t, y[j][2][f].t, c.join_character)), patterns=[m(j).has(f)])]


def _con_fields(c):
    m, y, done, f = c.match_concordances, c.cooccurrence_windows, c.g.done, T.fresh("f", T.Val)
    return [ForAll([f], m.has(f) == done[f], patterns=[m.has(f)]),
            ForAll([f], Implies(m.has(f), as_text(m[f].t, y[f].t, c.join_character)), patterns=[m.has(f)])]


def _con_matches(c):
    done = c.g.done
    return _same_texts(c.field_matches, c.match_windows, c.join_character, lambda v: done[v])


def _con_windows(c):
    m, p, v, i = c.field_matches, c.pre.field_matches, T.fresh("v", T.Val), T.fresh("i", I_)
    k, ws, sep = c.match, c.windows, c.join_character
    return [ForAll([v], m.has(v) == p.has(v), patterns=[m.has(v)]), m.has(k),
            ForAll([v], Implies(v != k, m[v].t == p[v].t), patterns=[m[v].t]),
            m[k].len == c.g.i, ForAll([i], Implies(And(0 <= i, i < c.g.i), m[k][i] == joined(sep, ws[i].t)), patterns=[m[k][i]])]


def _con_field(c):
    r = as_text(c.field_matches.t, c.match_windows.t, c.join_character)
    return [T.unfold(r), r]


def _con_post(c):
    r, y = c.result, c.got("index.Index.extract_matching_feature_windows")
    names = ("each document with its key", "every field", "one text for every window")
    return _emf_facts(c, y) + [("as many documents", r.len == y.len)] + list(zip(names, _con_rows(c, r, y, r.len)))


REG.add(DBContract("index.Index.concordances", {"self": IDX, "query": BITMAP, "features": PAIRL, "window_size": INT, "random_sample_size": NONEP, "join_character": VAL},
                   db=["doc_key", "inverted_index"], exts=(CorpusAPI, Par),
                   cases=[{"features": f, "random_sample_size": n} for f in (PAIRL, LIST(T.TInt)) for n in (NONEP, INT)],
                   requires=_emf_requires, ensures=_con_post, raises=[("KeyError", None)], returns=LIST(TEXTROW),
                   types={"match_concordances": DOCT, "field_matches": TEXTS, "yield": T.TSeq(TEXTROW)},
                   loops={0: Loop(_con_docs), 1: Loop(_con_fields, steps=_con_field), 2: Loop(_con_matches), 3: Loop(_con_windows)},
                   uses=[elem_lemma, elems_ext]), "P03")
