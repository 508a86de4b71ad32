"""One batch of an indexing run (C01, C04): postings, counts, positions and the boundaries of documents."""
from contracts.q_windows import *
from contracts.b_sets import _S, _G, _x, _y, _d, _n, _a
from dv.batch import BatchDB, Indexing
from dv.corpusapi import content
from dv.values import B

ENTRY = T.TTup(T.Bits, T.Bits)
BATCH, STARTS = T.TMap(T.TVal, T.TMap(T.TVal, ENTRY)), T.TMap(T.TVal, ENTRY)
SEGMENT, BOUNDARY = TABLES["inverted_index_segment"], TABLES["batch_position"]
rank, sel = T.bits().rank, T.bits().sel

keyof = z3.Function("key_of_document", I_, T.Val)           # the corpus key with this internal id
_fld, _val, _k, _q, _i, _j, _lo, _hi, _pos = z3.Const("fld", T.Val), z3.Const("val", T.Val), Int("k"), Int("q"), Int("i"), Int("j"), Int("lo"), Int("hi"), Int("pos")
_sq = z3.Const("sq", SEQ.sort)

# the values of a sequence
velems, velemw = z3.Function("values_of", SEQ.sort, VS), z3.Function("values_of_wit", SEQ.sort, T.Val, I_)
T.axiom([velems], ForAll([_sq, _val], Implies(velems(_sq)[_val], And(0 <= velemw(_sq, _val), velemw(_sq, _val) < SEQ.len(_sq), SEQ.at(_sq, velemw(_sq, _val)) == _val)),
                         patterns=[velems(_sq)[_val]]), "definition of the values of a sequence")
T.axiom([velems], ForAll([_sq, _j], Implies(And(0 <= _j, _j < SEQ.len(_sq)), velems(_sq)[SEQ.at(_sq, _j)]), patterns=[MultiPattern(velems(_sq), SEQ.at(_sq, _j))]),
        "definition of the values of a sequence")


def doc(x):
    return content(keyof(x))


# document x has value v in field f
inside = z3.Function("document_has_value", I_, T.Val, T.Val, z3.BoolSort())
_in = inside(_x, _fld, _val)
T.axiom([inside], ForAll([_x, _fld, _val], _in == And(in_doc(doc(_x), _fld), _val != T.VNONE,
                                                       If(is_seq(doc(_x), _fld), velems(seq_of(doc(_x), _fld))[_val], set_of(doc(_x), _fld)[_val])), patterns=[_in]),
        "definition of a document having a value")
# the number of values of its sequence in field f
plen = z3.Function("sequence_length", I_, T.Val, I_)
_pl = plen(_x, _fld)
T.axiom([plen], ForAll([_x, _fld], _pl == If(And(in_doc(doc(_x), _fld), is_seq(doc(_x), _fld)), SEQ.len(seq_of(doc(_x), _fld)), 0), patterns=[_pl]), "definition of the length of a sequence")
T.axiom([plen], ForAll([_x, _fld], _pl >= 0, patterns=[_pl]), "lengths are not negative")
# where document x starts in field f, when the batch starts with document lo
start, startlim = z3.Function("start_of_document", I_, I_, T.Val, I_), z3.Function("start_of_document_lim", I_, I_, T.Val, I_)
_st = start(_lo, _x, _fld)
T.axiom([start], ForAll([_lo, _x, _fld], _st == startlim(_lo, _x, _fld), patterns=[_st]), "definition of the start of a document")
T.axiom([start], ForAll([_lo, _x, _fld], Implies(_x <= _lo, _st == 0), patterns=[_st]), "definition of the start of a document")
T.axiom([start], ForAll([_lo, _x, _fld], Implies(_x > _lo, _st == startlim(_lo, _x - 1, _fld) + plen(_x - 1, _fld)), patterns=[_st]), "definition of the start of a document")
# the document that position p of field f belongs to, and the value there
docat = z3.Function("document_at", I_, T.Val, I_, I_)
valueat = z3.Function("value_at", I_, T.Val, I_, T.Val)
T.axiom([docat], ForAll([_lo, _fld, _pos, _x], Implies(And(_lo <= _x, _st <= _pos, _pos < _st + _pl), docat(_lo, _fld, _pos) == _x),
                        patterns=[MultiPattern(docat(_lo, _fld, _pos), _st)]), "choice of the document at a position (unique by the starts of documents)")
_da = docat(_lo, _fld, _pos)
T.axiom([valueat], ForAll([_lo, _fld, _pos], valueat(_lo, _fld, _pos) == SEQ.at(seq_of(doc(_da), _fld), _pos - start(_lo, _da, _fld)), patterns=[valueat(_lo, _fld, _pos)]),
        "definition of the value at a position")


def _start_lemma():
    """starts grow, and no position is in two documents"""
    y = Int("y")
    at = lambda y: start(_lo, y, _fld)

    def fact():
        return And(ForAll([_lo, _x, _fld], _st >= 0, patterns=[_st]),
                   ForAll([_lo, _x, y, _fld], Implies(And(_lo <= _x, _x < y), _st + _pl <= at(y)), patterns=[MultiPattern(_st, at(y))]))

    def obligations():
        prev = at(y - 1)
        yield "not negative, base", [_x <= _lo], _st >= 0
        yield "not negative, step", [_x > _lo, start(_lo, _x - 1, _fld) >= 0, start(_lo, _x - 1, _fld) == startlim(_lo, _x - 1, _fld), plen(_x - 1, _fld) >= 0], _st >= 0
        yield "order, base", [_lo <= _x, y == _x + 1, _st == startlim(_lo, _x, _fld)], _st + _pl <= at(y)
        yield "order, step", [_lo <= _x, _x < y - 1, _st + _pl <= prev, prev == startlim(_lo, y - 1, _fld), plen(y - 1, _fld) >= 0], _st + _pl <= at(y)
        z = Int("z")
        yield "one document for a position", [_lo <= _x, _lo <= z, _st <= _pos, _pos < _st + _pl, start(_lo, z, _fld) <= _pos, _pos < start(_lo, z, _fld) + plen(z, _fld),
                                              Implies(_x < z, _st + _pl <= start(_lo, z, _fld)), Implies(z < _x, start(_lo, z, _fld) + plen(z, _fld) <= _st)], _x == z
    return REG.lemma(Lemma("starts of documents", fact, obligations), "C04")


start_lemma = _start_lemma()


def first(c):
    return c.old.doc_ids[0]


def entries(m, lo, has, where, pending=None):
    """m: postings of the documents with has(x, f, v), positions of the first where(f) places of field f"""
    f, v, x, p = T.fresh("f", T.Val), T.fresh("v", T.Val), T.fresh("x", I_), T.fresh("p", I_)
    there = And(m.has(f), m[f].has(v))
    e = m[f][v]
    docs, pos = e[0].t, e[1].t
    val = valueat(lo, f, p)
    return [ForAll([f, v, x], Implies(And(there, docs[x]), has(x, f, v)), patterns=[docs[x]]),
            ForAll([f, v, x], Implies(has(x, f, v), And(m.has(f), m[f].has(v), docs[x])), patterns=[inside(x, f, v)]),
            ForAll([f, v, p], Implies(And(there, pos[p]), And(0 <= p, p < where(f), val == v)), patterns=[pos[p]]),
            ForAll([f, p], Implies(And(0 <= p, p < where(f)), And(m.has(f), m[f].has(val), m[f][val][1].t[p])), patterns=[val]),
            ForAll([f, v], Implies(there, Or(card(docs) > 0, pending(f, v) if pending else False)), patterns=[m[f].has(v)])]


def boundaries(s, lo, covered, where):
    """s: the documents and the boundaries of each field; covered(x, f): x is one of the documents so far, with the length of its sequence"""
    f, x, y, p = T.fresh("f", T.Val), T.fresh("x", I_), T.fresh("y", I_), T.fresh("p", I_)
    D, Bd = s[f][0].t, s[f][1].t
    has = s.has(f)
    st = start(lo, x, f)
    return [ForAll([f, x], Implies(And(has, D[x]), And(covered(x, f), plen(x, f) > 0)), patterns=[D[x]]),
            ForAll([f, x], Implies(And(covered(x, f), plen(x, f) > 0), And(has, D[x])), patterns=[plen(x, f)]),
            ForAll([f], Implies(has, card(Bd) == card(D) + 1), patterns=[has]),
            ForAll([f], Implies(has, Bd[where(f)]), patterns=[has]),
            ForAll([f, p], Implies(And(has, Bd[p]), And(0 <= p, p <= where(f))), patterns=[Bd[p]]),
            ForAll([f, x], Implies(And(has, D[x]), And(Bd[st], rank(Bd, st) == rank(D, x))), patterns=[D[x]]),
            ForAll([f, x], Implies(And(has, D[x]), And(Bd[st + plen(x, f)], rank(Bd, st + plen(x, f)) == rank(D, x) + 1)), patterns=[D[x]]),
            ForAll([f], Implies(Not(has), where(f) == 0), patterns=[has])]


def positional(c):
    return z3.is_true(z3.simplify(c.old.index_positions))


def filled(c, covered):
    """no sequence so far has a missing value"""
    x, f, j = T.fresh("x", I_), T.fresh("f", T.Val), T.fresh("j", I_)
    at = SEQ.at(seq_of(doc(x), f), j)
    return ForAll([x, f, j], Implies(And(covered(x, f), 0 <= j, j < plen(x, f)), at != T.VNONE), patterns=[at])


def _docs_inv(c):
    lo, i = first(c), c.g.i
    hi = lo + i
    pos = positional(c)
    where = lambda f: start(lo, hi, f) if pos else IntVal(0)
    covered = lambda x, f: And(lo <= x, x < hi)
    out = entries(c.batch, lo, lambda x, f, v: And(lo <= x, x < hi, inside(x, f, v)), where)
    if not pos:
        return out + [c.field_doc_positions_starts.dom == vth.empty]
    return out + boundaries(c.field_doc_positions_starts, lo, covered, where) + [filled(c, covered)]


def _now(c, done):
    """(covered, where) while the fields of document doc_id are recorded"""
    lo, hi = first(c), c.doc_id
    covered = lambda x, f: Or(And(lo <= x, x < hi), And(x == hi, done(f)))
    where = lambda f: If(done(f), start(lo, hi + 1, f), start(lo, hi, f)) if positional(c) else IntVal(0)
    return lo, hi, covered, where


def _fields_inv(c):
    lo, hi, covered, where = _now(c, lambda f: c.g.done[f])
    out = entries(c.batch, lo, lambda x, f, v: And(covered(x, f), inside(x, f, v)), where)
    if not positional(c):
        return out + [c.field_doc_positions_starts.dom == vth.empty]
    return out + boundaries(c.field_doc_positions_starts, lo, covered, where) + [filled(c, covered)]


def _positions_inv(c):
    done = c.outer.done
    lo, hi, covered, _ = _now(c, lambda f: done[f])
    fld, s, i = c.field, c.var("values"), c.g.i
    j = T.fresh("j", I_)
    where = lambda f: If(f == fld, start(lo, hi, fld) + i, If(done[f], start(lo, hi + 1, f), start(lo, hi, f)))
    out = [c.batch_position == start(lo, hi, fld), ForAll([j], Implies(And(0 <= j, j < i), s[j] != T.VNONE), patterns=[s[j]]),
           Implies(i > 0, And(c.bound("position"), c.position == i - 1)) if c.has("position") and c.raw_var("position") is not None else i == 0]
    return out + entries(c.batch, lo, lambda x, f, v: And(covered(x, f), inside(x, f, v)), where, lambda f, v: And(f == fld, velems(s.t)[v]))


def _placed_here(c):
    """the position just recorded stands for this document and this value"""
    lo, hi, fld, i, s = first(c), c.doc_id, c.field, c.g.i - 1, c.var("values")
    p = start(lo, hi, fld) + i
    val = valueat(lo, fld, p)
    return [seq_of(doc(hi), fld) == s.t, plen(hi, fld) == s.len, docat(lo, fld, p) == hi, val == s[i], c.batch.has(fld), c.batch[fld].has(val), c.batch[fld][val][1].t[p]]


def _values_inv(c):
    done, now, s = c.outer.done, c.g.done, c.set_values
    fld, v = c.field, T.fresh("v", T.Val)
    lo, hi, covered, where = _now(c, lambda f: Or(done[f], f == fld))
    had = lambda x, f: Or(And(lo <= x, x < hi), And(x == hi, done[f]))
    out = [ForAll([v], s.t[v] == inside(hi, fld, v), patterns=[s.t[v]]), ForAll([v], s.t[v] == inside(hi, fld, v), patterns=[inside(hi, fld, v)])]
    return out + entries(c.batch, lo, lambda x, f, v: And(inside(x, f, v), Or(had(x, f), And(x == hi, f == fld, now[v]))), where, lambda f, v: And(f == fld, s.t[v], Not(now[v])))


# ------------------------------------------------------------------ what is written
def others(c, name, before, mine):
    """the rows of other batches are as they were"""
    t, tab = c.table(name), TABLES[name]
    k = T.fresh("k", tab.kty.sort)
    return [ForAll([k], Implies(Not(mine(k)), t.has(k) == before.has(k)), patterns=[t.has(k)]),
            ForAll([k], Implies(Not(mine(k)), t[k].t == before[k].t), patterns=[t[k].t])]


def of_batch(name, lo):
    return lambda k: TABLES[name].kty.get(k, len(TABLES[name].pk) - 1) == lo


def boundary_row(t, f, lo, hi, D, Bd):
    k = BOUNDARY.kty.mk(f, lo)
    return [t.col(k, "last_doc_id") == hi - 1, t.col(k, "docs_count") == card(D), t.col(k, "doc_ids").t == D, t.col(k, "doc_position_starts").t == Bd]


def segment_row(t, f, v, lo, docs, pos):
    k = SEGMENT.kty.mk(f, v, lo)
    o = t.col(k, "positions")
    return [t.col(k, "docs_count") == card(docs), t.col(k, "doc_ids").t == docs, t.col(k, "position_count") == card(pos),
            o.ty.is_none(o.t) == (pos == th.empty), Implies(pos != th.empty, o.ty.val(o.t) == pos)]


def _boundary_inv(c):
    lo, t, s = first(c), c.table("batch_position"), c.field_doc_positions_starts
    hi = lo + c.doc_ids.len
    f = T.fresh("f", T.Val)
    k = BOUNDARY.kty.mk(f, lo)
    if s is EMPTY:
        return []
    return [ForAll([f], t.has(k) == c.g.done[f], patterns=[t.has(k)])] + \
        [ForAll([f], Implies(c.g.done[f], g), patterns=[t[k].t, s.has(f)]) for g in boundary_row(t, f, lo, hi, s[f][0].t, s[f][1].t)] + \
        others(c, "batch_position", c.old.table("batch_position"), of_batch("batch_position", lo))


def _segment_inv(c):
    lo, t, m, order, i = first(c), c.table("inverted_index_segment"), c.batch, c.field_order, c.g.i
    f, v, j = T.fresh("f", T.Val), T.fresh("v", T.Val), T.fresh("j", I_)
    k, kj = SEGMENT.kty.mk(f, v, lo), SEGMENT.kty.mk(order[j], v, lo)
    e = m[order[j]][v]
    return [distinct(order.arr, order.len),
            ForAll([f, v], Implies(t.has(k), And(m.has(f), m[f].has(v))), patterns=[t.has(k)]),
            ForAll([j, v], Implies(And(i <= j, j < order.len), Not(t.has(kj))), patterns=[t.has(kj)]),
            ForAll([j, v], Implies(And(0 <= j, j < i, m[order[j]].has(v)), t.has(kj)), patterns=[m[order[j]].has(v)])] + \
        [ForAll([j, v], Implies(And(0 <= j, j < i, t.has(kj)), g), patterns=[t.has(kj)]) for g in segment_row(t, order[j], v, lo, e[0].t, e[1].t)] + \
        others(c, "inverted_index_segment", c.old.table("inverted_index_segment"), of_batch("inverted_index_segment", lo))


def _rows_inv(c):
    lo, t, m, fld = first(c), c.table("inverted_index_segment"), c.var("values"), c.field
    before = c.pre.table("inverted_index_segment")
    v = T.fresh("v", T.Val)
    k = SEGMENT.kty.mk(fld, v, lo)
    mine = lambda k: And(SEGMENT.kty.get(k, 0) == fld, SEGMENT.kty.get(k, 2) == lo)
    return [ForAll([v], t.has(k) == c.g.done[v], patterns=[t.has(k)])] + \
        [ForAll([v], Implies(c.g.done[v], g), patterns=[t[k].t, m[v].t]) for g in segment_row(t, fld, v, lo, m[v][0].t, m[v][1].t)] + \
        others(c, "inverted_index_segment", before, mine)


# ------------------------------------------------------------------ contract
def span(c):
    lo = c.old.doc_ids[0]
    return lo, lo + c.old.doc_ids.len


def _requires(c):
    i, f, v = T.fresh("i", I_), T.fresh("f", T.Val), T.fresh("v", T.Val)
    ids, keys = c.doc_ids, c.doc_keys
    lo = ids[0]
    seg, bp = c.table("inverted_index_segment"), c.table("batch_position")
    return [("there are documents", ids.len > 0), ("ids are not negative", lo >= 0), ("the ids are consecutive", ForAll([i], Implies(And(0 <= i, i < ids.len), ids[i] == lo + i), patterns=[ids[i]])),
            ("every id comes with its key", ForAll([i], Implies(And(0 <= i, i < keys.len), keyof(lo + i) == keys[i]), patterns=[keys[i]])),
            ("no postings of the batch are stored yet", ForAll([f, v], Not(seg.has(SEGMENT.kty.mk(f, v, lo))), patterns=[seg.has(SEGMENT.kty.mk(f, v, lo))])),
            ("no boundaries of the batch are stored yet", ForAll([f], Not(bp.has(BOUNDARY.kty.mk(f, lo))), patterns=[bp.has(BOUNDARY.kty.mk(f, lo))]))]


def batch_vars():
    return T.fresh("f", T.Val), T.fresh("v", T.Val), T.fresh("x", I_), T.fresh("p", I_)


def postings(t, lo, hi):
    """what the rows of the batch with the documents lo <= x < hi say: (label, variables, fact, trigger)"""
    f, v, x, p = batch_vars()
    k = SEGMENT.kty.mk(f, v, lo)
    docs = t.col(k, "doc_ids").t
    return [("only documents that have the value", [f, v, x], Implies(And(t.has(k), docs[x]), And(lo <= x, x < hi, inside(x, f, v))), docs[x]),
            ("every document that has the value", [f, v, x], Implies(And(lo <= x, x < hi, inside(x, f, v)), And(t.has(k), docs[x])), inside(x, f, v)),
            ("the count is the number of documents", [f, v], Implies(t.has(k), t.col(k, "docs_count") == card(docs)), t.has(k)),
            ("no pair without documents", [f, v], Implies(t.has(k), card(docs) > 0), t.has(k))]


def placed(t, lo, hi, positional):
    f, v, x, p = batch_vars()
    k = SEGMENT.kty.mk(f, v, lo)
    o = t.col(k, "positions")
    none, pos = o.ty.is_none(o.t), o.ty.val(o.t)
    val = valueat(lo, f, p)
    kv = SEGMENT.kty.mk(f, val, lo)
    ov = t.col(kv, "positions")
    if not positional:
        return [("no positions", [f, v], Implies(t.has(k), And(none, t.col(k, "position_count") == 0)), t.has(k))]
    return [("a position stands for one place of one document, with this value", [f, v, p], Implies(And(t.has(k), Not(none), pos[p]), And(0 <= p, p < start(lo, hi, f), val == v)), pos[p]),
            ("every place has its position", [f, p], Implies(And(0 <= p, p < start(lo, hi, f)), And(t.has(kv), Not(ov.ty.is_none(ov.t)), ov.ty.val(ov.t)[p])), val),
            ("the count is the number of positions", [f, v], Implies(t.has(k), t.col(k, "position_count") == If(none, 0, card(pos))), t.has(k)),
            ("no positions are kept as none", [f, v], Implies(And(t.has(k), Not(none)), card(pos) > 0), t.has(k))]


def delimited(t, lo, hi, positional, bounds="doc_position_starts", tab=None):
    f, v, x, p = batch_vars()
    k = (tab or BOUNDARY).kty.mk(f, lo)
    if not positional:
        return [("no boundaries", [f], Not(t.has(k)), t.has(k))]
    D, Bd, st = t.col(k, "doc_ids").t, t.col(k, bounds).t, start(lo, x, f)
    r = rank(D, x)
    return [("only documents with a sequence that is not empty", [f, x], Implies(And(t.has(k), D[x]), And(lo <= x, x < hi, plen(x, f) > 0)), D[x]),
            ("every document with a sequence that is not empty", [f, x], Implies(And(lo <= x, x < hi, plen(x, f) > 0), And(t.has(k), D[x])), plen(x, f)),
            ("counts and range", [f], Implies(t.has(k), And(t.col(k, "docs_count") == card(D), t.col(k, "last_doc_id") == hi - 1)), t.has(k)),
            ("one boundary more than documents", [f], Implies(t.has(k), card(Bd) == card(D) + 1), t.has(k)),
            ("each document starts at its boundary", [f, x], Implies(And(t.has(k), D[x]), sel(Bd, r - 1) == st), D[x]),
            ("each document ends at the next boundary", [f, x], Implies(And(t.has(k), D[x]), sel(Bd, r) == st + plen(x, f)), D[x])]


def written(c):
    lo, hi = span(c)
    seg, bp = c.table("inverted_index_segment"), c.table("batch_position")
    return [(lab, ForAll(vs, g, patterns=[pat])) for lab, vs, g, pat in postings(seg, lo, hi) + placed(seg, lo, hi, positional(c)) + delimited(bp, lo, hi, positional(c))]


def kept_others(c):
    out = []
    lo, _ = span(c)
    for n in ("inverted_index_segment", "batch_position"):
        out += [(f"the rows of other batches stay ({n})", g) for g in others(c, n, c.old.table(n), of_batch(n, lo))]
    return out


def _unusable(c):
    i, f, j = T.fresh("i", I_), T.fresh("f", T.Val), T.fresh("j", I_)
    at = SEQ.at(seq_of(doc(i), f), j)
    bad = Exists([i, f, j], And(c.doc_ids[0] <= i, i < c.doc_ids[0] + c.doc_ids.len, 0 <= j, j < plen(i, f), at == T.VNONE), patterns=[at]) if positional(c) else BoolVal(False)
    return Or(c.doc_ids.len != c.doc_keys.len, bad)


def _temp(ex, st):
    uses_tables("inverted_index_segment", "batch_position")(ex, st)


REG.add(Contract("index._index_docs", {"corpus": P(None, make=lambda ex, st, n: Obj("any corpus", newid())), "doc_ids": LIST(T.TInt), "doc_keys": LIST(T.TVal), "temp_db_path": VAL,
                                       "index_positions": BOOL, "write_lock": P(None, make=lambda ex, st, n: Obj("lock", newid()))},
                 cases=[{"index_positions": P(None, const=B(True), label="with positions")}, {"index_positions": P(None, const=B(False), label="without positions")}],
                 exts=(BatchDB, Indexing), setup=_temp, writes=("inverted_index_segment", "batch_position"), requires=_requires, returns=VAL,
                 ensures=lambda c: written(c) + kept_others(c), raises=[("ValueError", _unusable)],
                 types={"batch": BATCH, "field_doc_positions_starts": STARTS}, uses=[start_lemma],
                 loops={0: Loop(_docs_inv), 1: Loop(_fields_inv), 2: Loop(_positions_inv, steps=_placed_here), 3: Loop(_values_inv), 4: Loop(_boundary_inv), 5: Loop(_segment_inv), ("sql", 0): Loop(_rows_inv)}), "C01", "C04")
