"""Q01 (bit slices), Q02 (ranking), P01 (window expansion): pure functions."""
from collections import Counter

from .common import BitMap, FrozenBitMap, check, ensure, fmt, utilities


def rand_set(rng, hi, p=None, base=0):
    p = rng.choice([0.0, 0.1, 0.3, 0.6, 0.95, 1.0]) if p is None else p
    return {base + i for i in range(hi) if rng.random() < p}


@check("Q01", 3)
def bitslice(rng, i):
    n = rng.choice([0, 1, 2, 3, 4, 5, 7, 8, 9, 15, 16, 17, 33, 40]) if i % 9 else rng.choice([63, 64, 65, 130, 257])
    hi = rng.choice([1, 2, 5, 9, 30])
    base = rng.choice([0, 0, 65530, 131070, 2**31 - 4])
    lists = [rand_set(rng, hi, base=base) for _ in range(n)]
    if rng.random() < 0.3 and lists:
        lists = lists + [lists[0]] * rng.randint(1, 5)
    if rng.random() < 0.3:
        lists = [lists[0]] * len(lists) if lists else lists
    bms = [(FrozenBitMap if rng.random() < 0.2 else BitMap)(s) for s in lists]
    src = iter(bms) if rng.random() < 0.5 else bms
    if not lists:
        # combining nothing: at least no wrong document may appear
        try:
            m, bs = utilities.compute_bitslice(src)
        except Exception:
            return None
    else:
        m, bs = utilities.compute_bitslice(src)
    want = Counter(d for s in lists for d in s)
    ensure(set(m) == set(want), "compute_bitslice(%s): matching is %s", lists, m)
    got = Counter()
    for layer, b in enumerate(bs):
        for d in b:
            got[d] += 2**layer
    ensure(got == want, "compute_bitslice(%s): encoded counts %s", lists, dict(got))
    ensure([set(b) for b in bms] == lists, "compute_bitslice changed its arguments %s -> %s", lists, bms)
    w = list(utilities.weight_bitslice(bs))
    ensure(dict(w) == dict(want) and len(w) == len(want), "weight_bitslice of %s gives %s", lists, w)
    ensure([set(b) for b in bms] == lists, "weight_bitslice changed the document sets")
    return lists


def top_k_ok(counts, kept, k, what):
    matching = set(counts)
    kept = set(kept)
    ensure(kept <= matching, "%s: kept documents that do not match: %s", what, kept - matching)
    left = matching - kept
    if left:
        ensure(kept, "%s: nothing kept of %s", what, counts)
        weakest = min(counts[d] for d in kept)
        ensure(max(counts[d] for d in left) < weakest, "%s: a dropped document matches as many features as a kept one"
               " (kept %s)", what, sorted(kept))
        ensure(len(kept) >= k, "%s: only %s documents kept", what, len(kept))
    if kept and len(kept) > 0:
        weakest = min(counts[d] for d in kept)
        if left or len(matching) > k:
            ensure(sum(1 for d in kept if counts[d] > weakest) < k,
                   "%s: %s or more kept documents beat the weakest", what, k)


@check("Q02", 4)
def bstm_direct(rng, i):
    n = rng.choice([0, 1, 2, 3, 5, 8, 13, 40])
    base = rng.choice([0, 0, 65530, 2**31])
    top = rng.choice([1, 1, 2, 3, 7, 8, 30])
    counts = {base + d * rng.choice([1, 1, 3]): rng.randint(1, top) for d in range(n)}
    layers = max([c.bit_length() for c in counts.values()] or [1]) + rng.choice([0, 0, 1])
    bs = [BitMap(d for d, c in counts.items() if c >> l & 1) for l in range(layers)]
    k = rng.choice([1, 1, 2, 3, max(1, n - 1), max(1, n), n + 1, rng.randint(1, n + 2)])
    m = BitMap(counts)
    kept = utilities.bstm(m, bs, k)
    top_k_ok(counts, kept, k, f"bstm on counts {counts}, k={k}")
    ensure(set(m) == set(counts), "bstm changed the matching set of %s", counts)
    for l in range(layers):
        ensure(set(bs[l]) == {d for d, c in counts.items() if c >> l & 1}, "bstm changed the bit slice of %s", counts)
    return counts, k


@check("Q02", 2)
def bstm_of_bitslice(rng, i):
    n = rng.randint(1, 12)
    lists = [rand_set(rng, 14) for _ in range(n)]
    counts = Counter(d for s in lists for d in s)
    m, bs = utilities.compute_bitslice([BitMap(s) for s in lists])
    k = rng.randint(1, 15)
    top_k_ok(dict(counts), utilities.bstm(m, bs, k), k, f"ranking of {lists}, k={k}")
    return lists, k


def window_spec(positions, starts, w):
    """starts: sorted document starts followed by the end of the last document"""
    out = set()
    for p in positions:
        d = max(x for x in range(len(starts) - 1) if starts[x] <= p)
        lo, hi = starts[d], starts[d + 1]
        out |= set(range(max(lo, p - w), min(hi, p + w + 1)))
    return out


def gen_layout(rng):
    starts = [0]
    for _ in range(rng.choice([1, 1, 2, 3, 4, 6])):
        starts.append(starts[-1] + rng.choice([1, 1, 2, 3, 4, 6, 11]))
    if rng.random() < 0.05:
        starts = [s * 30000 for s in starts]
    return starts


@check("P01", 3)
def window(rng, i):
    starts = gen_layout(rng)
    end = starts[-1]
    if end > 10000:
        pos = {rng.randrange(end) for _ in range(rng.randint(0, 5))}
    else:
        pos = {p for p in range(end) if rng.random() < rng.choice([0.1, 0.3, 0.7])}
        if rng.random() < 0.4:
            pos |= set(rng.sample(starts[:-1], 1)) | {rng.choice(starts[1:]) - 1}
    w = rng.choice([0, 1, 1, 2, 3, 5, 50])
    P, B = BitMap(pos), BitMap(starts)
    got = set(utilities.expand_positions_window(P, B, w))
    want = window_spec(pos, starts, w)
    ensure(got == want, "expand_positions_window(%s, %s, %s): missing %s, extra %s", sorted(pos), starts, w,
           sorted(want - got)[:20], sorted(got - want)[:20])
    ensure(set(P) == pos and set(B) == set(starts), "expand_positions_window changed its arguments")
    return sorted(pos), starts, w
