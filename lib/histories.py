"""Item histories: every sequence of HID items within a bound, as lists of (kind, tag, value).

Two complementary enumerations:
  segments(n, k)     n data items in one collection, all combinations of at most k deviations from
                     the default history (each deviation: one parameter of one data item set, one
                     structural event inserted)
  words(alphabet, d) all sequences of at most d events of a small alphabet (every order)
"""
import itertools
from hidref import *

G = lambda t, v: (GLOBAL, t, v)
L = lambda t, v: (LOCAL, t, v)
M = lambda t, v: (MAIN, t, v)


def urange(a, b):
    return [L(UMIN, a), L(UMAX, b)]


OPT_GLOBALS = [
    ("lmin", [G(LMIN, -1)]), ("lmin", [G(LMIN, 1)]),
    ("lmax", [G(LMAX, 0)]), ("lmax", [G(LMAX, 1)]), ("lmax", [G(LMAX, 5)]), ("lmax", [G(LMAX, 65535)]),
    ("pmin", [G(PMIN, 0)]), ("pmin", [G(PMIN, 1)]), ("pmin", [G(PMIN, -1)]),
    ("pmax", [G(PMAX, 0)]), ("pmax", [G(PMAX, 1)]), ("pmax", [G(PMAX, 5)]), ("pmax", [G(PMAX, 100)]),
    ("unit", [G(UNIT, 0x14)]), ("unit", [G(UNIT, 0)]),
    ("uexp", [G(UEXP, -2)]), ("uexp", [G(UEXP, 0)]),
    ("rsize", [G(RSIZE, 1)]), ("rsize", [G(RSIZE, 16)]), ("rsize", [G(RSIZE, 8)]),
    ("rcount", [G(RCOUNT, 0)]), ("rcount", [G(RCOUNT, 1)]), ("rcount", [G(RCOUNT, 2)]), ("rcount", [G(RCOUNT, 5)]),
    ("rid", [G(RID, 1)]), ("rid", [G(RID, 2)]),
    ("upage", [G(UPAGE, 9)]), ("upage", [G(UPAGE, 1)]), ("upage", [G(UPAGE, 0xff00)]),
]
OPT_USAGES = [
    ("usage", []), ("usage", [L(USAGE, 0x30)]), ("usage", [L(USAGE, 0x38)]),
    ("usage", [L(USAGE, 0x40), L(USAGE, 0x41)]),
    ("usage", [L(USAGE, 0x40), L(USAGE, 0x41), L(USAGE, 0x42)]),
    ("usage", [L(USAGE, 0x42), L(USAGE, 0x40)]),
    ("usage", urange(0x33, 0x35)), ("usage", urange(0x31, 0x31)),
    ("usage", [L(USAGE, 0x36)] + urange(0x37, 0x38)), ("usage", urange(0x1, 0x2) + urange(0x10, 0x12)),
    ("usage", urange(0x1, 0x2) + [L(USAGE, 0x3)]),
    ("usage", [L(USAGE, 0x90001)]), ("usage", [L(USAGE, 0x10031)]), ("usage", urange(0x90001, 0x90003)),
    ("usage", [L(USAGE, 0xffff)]), ("usage", [L(USAGE, 0x1ffff), L(USAGE, 0x20000)]),
    ("usage", [L(USAGE, 0x30), G(UPAGE, 9), L(USAGE, 0x31)]), ("usage", [L(USAGE, 0x30), G(UPAGE, 9)]),
]
OPT_DELIM = [
    ("usage", [L(DELIM, 1), L(USAGE, 0x30), L(USAGE, 0x31), L(DELIM, 0)]),
    ("usage", [L(DELIM, 1), L(USAGE, 0x30), L(DELIM, 0), L(USAGE, 0x31)]),
]
OPT_LOCALS = [
    ("string", [L(SIDX, 1)]), ("string", [L(SIDX, 2)]), ("string", [L(SIDX, 0)]),
    ("string", [L(SIDX, 1), L(SIDX, 2)]), ("string", [L(SMIN, 1), L(SMAX, 3)]),
    ("string", [L(SIDX, 1), L(SIDX, 2), L(SIDX, 3)]),
    ("desig", [L(DIDX, 0)]), ("desig", [L(DIDX, 1)]), ("desig", [L(DIDX, 2)]),
    ("desig", [L(DIDX, 0), L(DIDX, 1)]), ("desig", [L(DMIN, 1), L(DMAX, 2)]),
    ("desig", [L(DIDX, 4), L(DIDX, 5), L(DIDX, 6)]),
]
OPT_MAIN = [("main", [M(w, f)]) for w, f in (
    (OUTPUT, 2), (FEATURE, 2), (INPUT, 6), (INPUT, 0), (INPUT, 1), (INPUT, 3), (INPUT, 0x102), (INPUT, 0x82),
    (FEATURE, 0x100), (OUTPUT, 0))]
COLL = [L(USAGE, 0x10001), M(COLLECTION, 2)]
OPT_STRUCT = [("struct", COLL), ("struct", [M(COLLECTION, 0)]), ("struct", [M(ENDCOLL, 0)]),
              ("struct", [M(ENDCOLL, 0)] + [L(USAGE, 0x10005), M(COLLECTION, 1)])]
OPT_STACK = [("stack", [G(PUSH, 0)]), ("stack", [G(POP, 0)]), ("stack", [G(POP, 0), G(PUSH, 0)])]

ORDER = ["stack", "struct", "rid", "lmin", "lmax", "pmin", "pmax", "unit", "uexp", "rsize", "rcount", "upage",
         "usage", "string", "desig", "main"]


def all_options(delim=True, stack=True):
    return OPT_GLOBALS + OPT_USAGES + (OPT_DELIM if delim else []) + OPT_LOCALS + OPT_MAIN + OPT_STRUCT + \
        (OPT_STACK if stack else [])


PROLOGUE = [G(UPAGE, 1), L(USAGE, 2), M(COLLECTION, 1), G(LMIN, 0), G(LMAX, 1), G(RSIZE, 8), G(RCOUNT, 1)]


def finish(items):
    """Close what is open; None if the history pops or closes something never opened."""
    depth = push = 0
    for k, t, v in items:
        if k == MAIN and t == COLLECTION:
            depth += 1
        elif k == MAIN and t == ENDCOLL:
            depth -= 1
            if depth < 0:
                return None
        elif k == MAIN and depth < 1:
            return None
        elif k == GLOBAL and t == PUSH:
            push += 1
        elif k == GLOBAL and t == POP:
            push -= 1
            if push < 0:
                return None
    return items + [G(POP, 0)] * push + [M(ENDCOLL, 0)] * depth


BARE = [G(UPAGE, 1), G(LMIN, 0), G(LMAX, 1), G(RSIZE, 8), G(RCOUNT, 1)]


def bare(depth):
    """Fragments: data items outside any collection, so that nothing closes after them."""
    for name, alpha in WORDS.items():
        for d in range(1, depth + 1):
            for w in itertools.product(alpha, repeat=d):
                items = sum(w, [])
                n = push = 0
                for k, t, v in items:
                    n += (k == MAIN and t == COLLECTION) - (k == MAIN and t == ENDCOLL)
                    push += (k == GLOBAL and t == PUSH) - (k == GLOBAL and t == POP)
                    if n < 0 or push < 0:
                        break
                else:
                    yield BARE + items + [M(ENDCOLL, 0)] * n
                    if not n and any(k == MAIN for k, _, _ in items):
                        yield BARE + U_IN + items + U_IN


def segment(i, devs):
    slots = {"usage": [L(USAGE, 0x30 + i)], "main": [M(INPUT, 2)]}
    slots.update(devs)
    out = []
    for s in ORDER:
        out += slots.get(s, [])
    return out


def segments(n, k, options=None):
    """All histories of n data items with exactly k deviations."""
    options = options if options is not None else all_options()
    choices = [(i, s, ev) for i in range(n) for s, ev in options]
    for combo in itertools.combinations(choices, k):
        if len({(i, s) for i, s, _ in combo}) < k:
            continue
        items = list(PROLOGUE)
        for i in range(n):
            items += segment(i, {s: ev for j, s, ev in combo if j == i})
        items = finish(items)
        if items is not None:
            yield items


def up_to(n, k, options=None):
    for kk in range(k + 1):
        yield from segments(n, kk, options)


U_IN = [L(USAGE, 0x30), M(INPUT, 2)]
WORDS = {
    "ranges": [[G(LMIN, 0)], [G(LMIN, 1)], [G(LMAX, 1)], [G(LMAX, 5)], [G(PMIN, 0)], [G(PMIN, 1)], [G(PMAX, 1)],
               [G(PMAX, 5)], [G(PMAX, 0)], [M(INPUT, 2)]],
    "pages": [[G(UPAGE, 1)], [G(UPAGE, 9)], [L(USAGE, 1)], [L(USAGE, 2)], [L(USAGE, 0x10003)], urange(3, 5),
              [M(INPUT, 2)], [M(INPUT, 0)], [M(COLLECTION, 2)], [M(ENDCOLL, 0)], [G(RCOUNT, 2)]],
    "stack": [[G(PUSH, 0)], [G(POP, 0)], [G(LMAX, 5)], [G(LMAX, 1)], [G(RCOUNT, 2)], [G(UPAGE, 9)], [G(PMAX, 5)],
              [G(RID, 2)], U_IN, [M(INPUT, 3)]],
    "locals": [[L(SIDX, 1)], [L(SIDX, 2)], [L(DIDX, 0)], [L(DIDX, 1)], [L(USAGE, 0x30)], [L(USAGE, 0x31)],
               [G(RCOUNT, 1)], [G(RCOUNT, 2)], [M(INPUT, 2)], [M(INPUT, 0)]],
    "mains": [U_IN, [L(USAGE, 0x31), M(INPUT, 2)], [M(OUTPUT, 2)], [M(INPUT, 1)], [L(USAGE, 0x30), L(USAGE, 0x31), M(INPUT, 0)],
              [M(COLLECTION, 2)], [M(ENDCOLL, 0)], [G(RID, 1)], [G(RID, 2)], [G(RSIZE, 1)], [G(RCOUNT, 3)],
              [M(FEATURE, 0x102)]],
}


def words(name, depth):
    alpha = WORDS[name]
    for d in range(depth + 1):
        for w in itertools.product(alpha, repeat=d):
            items = list(PROLOGUE)
            for ev in w:
                items += ev
            items = finish(items)
            if items is not None:
                yield items


def blob(items):
    return b"".join(encode(*i) for i in items)


def sweeps(big=300):
    """Long and wide histories: one parameter swept over its whole range."""
    P = PROLOGUE
    E = [M(ENDCOLL, 0)]
    for n in range(1, big + 1):                    # n buttons, one by one
        yield P + [G(UPAGE, 9), G(RSIZE, 1)] + sum([[L(USAGE, i + 1), M(INPUT, 2)] for i in range(n)], []) + E
    for n in list(range(0, 130)) + [255, 256, 257, 1000]:                     # n elements in one item
        yield P + [G(UPAGE, 9), G(RCOUNT, n), G(RSIZE, 1)] + urange(1, max(n, 1)) + [M(INPUT, 2)] + \
            [L(USAGE, 5), M(INPUT, 2)] + E
    for f in range(512):                            # flags, next to plain neighbours
        yield P + [L(USAGE, 0x30), M(INPUT, 2), L(USAGE, 0x31), M(INPUT, f), L(USAGE, 0x32), M(INPUT, f),
                   L(USAGE, 0x33), M(INPUT, 2)] + E
    for r in range(1, 256):                         # report ids
        yield P + [G(RID, r), L(USAGE, 0x30), M(INPUT, 2), G(RID, 256 - r), L(USAGE, 0x31), M(INPUT, 2),
                   G(RID, r), L(USAGE, 0x32), M(INPUT, 2)] + E
    vals = sorted({s * ((1 << b) + d) for b in range(0, 31) for d in (-1, 0, 1) for s in (1, -1)} | {-(1 << 31), (1 << 31) - 1})
    for t in (LMIN, LMAX, PMIN, PMAX, UEXP):        # signed globals
        for v in vals:
            if -(1 << 31) <= v < (1 << 31):
                yield P + U_IN + [G(t, v), L(USAGE, 0x31), M(INPUT, 2), L(USAGE, 0x32), M(INPUT, 2),
                                  G(t, 0), L(USAGE, 0x33), M(INPUT, 2)] + E
    for b in range(32):                             # unit, page, usage, string, designator bits
        for d in (0, 1):
            v = (1 << b) + d
            yield P + [G(UNIT, v)] + U_IN + [L(USAGE, 0x31), M(INPUT, 2)] + E
            yield P + [L(USAGE, v), M(INPUT, 2), L(USAGE, v + 1), M(INPUT, 2)] + E
            if b < 16:
                yield P + U_IN + [G(UPAGE, v), L(USAGE, 0x31), M(INPUT, 2), L(USAGE, v), M(INPUT, 2)] + E
                yield P + [L(SIDX, v)] + U_IN + [L(SIDX, v + 1), L(USAGE, 0x31), M(INPUT, 2)] + E
                yield P + [L(DIDX, v)] + U_IN + [L(DIDX, v + 1), L(USAGE, 0x31), M(INPUT, 2)] + E
    for s in range(1, 65):                          # sizes
        yield P + [G(RSIZE, s)] + U_IN + [L(USAGE, 0x31), M(INPUT, 2)] + [G(RSIZE, 65 - s), L(USAGE, 0x32), M(INPUT, 2)] + E
    for k in range(256):                            # collection kinds
        yield P + [L(USAGE, 1), M(COLLECTION, k)] + U_IN + E + U_IN + E
    for d in range(1, 40):                          # depth
        yield P + [L(USAGE, 1), M(COLLECTION, 2)] * d + U_IN + E * d + [L(USAGE, 0x31), M(INPUT, 2)] + E


VALUES = {UPAGE: (1, 9, 0xff00, 0xff01), LMIN: (0, 1, -1, -128), LMAX: (1, 5, 255, 65535), PMIN: (0, 1, -5, 200), PMAX: (0, 1, 5, 300),
          UEXP: (0, 1, -2, 14), UNIT: (0, 0x11, 0xf011, 0x1000011), RSIZE: (8, 1, 16, 3), RID: (1, 2, 255, 3), RCOUNT: (1, 2, 0, 5)}


def value_words(depth):
    """Every word of values of each global (and of each pair of physical/logical bounds), a field after each."""
    def run(settings):
        items = list(PROLOGUE)
        for i, s in enumerate(settings):
            items += s + [L(USAGE, 0x30 + i), M(INPUT, 2)]
        return items + [M(ENDCOLL, 0)]
    for t, vals in VALUES.items():
        for w in itertools.product(vals + (None,), repeat=depth):
            if t == RID and w[0] is None:
                continue
            yield run([[] if v is None else [G(t, v)] for v in w])
    for a, b in ((PMIN, PMAX), (LMIN, LMAX), (UNIT, UEXP), (RSIZE, RCOUNT), (PMAX, LMAX), (PMIN, LMIN)):
        both = [(x, y) for x in VALUES[a][:3] + (None,) for y in VALUES[b][:3] + (None,)]
        for w in itertools.product(both, repeat=min(depth, 3) if depth > 4 else 2):
            yield run([[G(t, v) for t, v in zip((a, b), p) if v is not None] for p in w])


LOCALS = {"usage": (USAGE, UMIN, UMAX), "string": (SIDX, SMIN, SMAX), "desig": (DIDX, DMIN, DMAX)}


def local_patterns(depth):
    """Every list of up to depth indices out of five, for each kind of local item: in one field, and one per field."""
    for what, (one, lo, hi) in LOCALS.items():
        own = [] if what == "usage" else None
        for n in range(1, depth + 1):
            for idx in itertools.product(range(5), repeat=n):
                for base in ((0x10030, 0x1fffd) if what == "usage" else (0, 1)):
                    loc = [L(one, base + i) for i in idx]
                    us = own if own is not None else [L(USAGE, 0x30)]
                    yield PROLOGUE + [G(RCOUNT, n)] + us + loc + [M(INPUT, 2)] + [M(ENDCOLL, 0)]
                    if n > 1:
                        items = list(PROLOGUE)
                        for j, x in enumerate(loc):
                            items += ([] if own is not None else [L(USAGE, 0x30 + j)]) + [x, M(INPUT, 2)]
                        yield items + [M(ENDCOLL, 0)]
    for what, (one, lo, hi) in LOCALS.items():               # long runs, with and without a break, from every kind of start
        for start in (1, 2, 3, 0x7e, 0xfd, 0xfe, 0xff, 0x100, 0xfffb) if what != "usage" else (0x10001, 0x90001, 0x900fe, 0xff000001, 0x1fff8, 0x7ffff):
            for n in list(range(1, 8)) + [20, 40]:
                for brk in (None, 0, n // 2, n - 1):
                    seq = [start + i + (1 if brk is not None and i > brk else 0) for i in range(n)]
                    loc = [L(one, v) for v in seq]
                    us = [] if what == "usage" else [L(USAGE, 0x30)]
                    yield PROLOGUE + [G(RCOUNT, n)] + us + loc + [M(INPUT, 2)] + [M(ENDCOLL, 0)]
                    items = list(PROLOGUE)
                    for j, x in enumerate(loc):
                        items += ([] if what == "usage" else [L(USAGE, 0x30 + j)]) + [x, M(INPUT, 2)]
                    yield items + [M(ENDCOLL, 0)]
                    if what == "usage":
                        yield PROLOGUE + [G(LMIN, 1), G(LMAX, n)] + loc + [M(INPUT, 0), M(ENDCOLL, 0)]


def stacks(depth):
    """Every balanced word of push, pop and two settings of one global, a field after each event: nested Push/Pop."""
    for t, vals in VALUES.items():
        a, b = [v for v in vals if v][:2]
        evs = [[G(PUSH, 0)], [G(POP, 0)], [G(t, a)], [G(t, b)]]
        for n in range(3, depth + 1):
            for w in itertools.product(range(4), repeat=n):
                if 0 not in w or 1 not in w:
                    continue
                items = list(PROLOGUE) + ([G(RID, 7)] if t == RID else [])
                for i, e in enumerate(w):
                    items += evs[e] + [L(USAGE, 0x30 + i), M(INPUT, 2)]
                items = finish(items)
                if items is not None:
                    yield items


def loose(depth):
    """Local items and stack or page events in every order around the main item they belong to."""
    alpha = [[G(PUSH, 0)], [G(POP, 0)], [G(UPAGE, 9)], [G(RCOUNT, 2)], [L(USAGE, 0x90031)], [L(USAGE, 0x30)], [L(SIDX, 1)], [L(DIDX, 2)], [G(PMAX, 5)], [M(INPUT, 2)]]
    for w in itertools.product(alpha, repeat=depth):
        if [M(INPUT, 2)] not in w:
            continue
        items = finish(list(PROLOGUE) + sum(w, []) + U_IN)
        if items is not None:
            yield items


def bounds(depth):
    """Range bounds in every order: up to depth different local items out of eleven in every order (maximum before minimum,
    ranges of one kind interleaved with those of another), over one or several elements, and an array."""
    alpha = [L(UMIN, 0x33), L(UMAX, 0x35), L(USAGE, 0x39), L(SMIN, 1), L(SMAX, 3), L(SIDX, 7), L(SIDX, 0), L(DMIN, 1), L(DMAX, 2), L(DIDX, 5), L(DIDX, 0)]
    pair = {UMIN: UMAX, SMIN: SMAX, DMIN: DMAX}
    for n in range(2, depth + 1):
        for c in itertools.combinations(alpha, n):
          tags = {t for _, t, _ in c}
          if any((a in tags) != (b in tags) for a, b in pair.items()) or not tags & set(pair):
              continue
          for w in itertools.permutations(c):
            for count, flags in ((4, 2), (1, 2), (2, 0)):
                yield PROLOGUE + [G(LMAX, 2), G(RCOUNT, count)] + list(w) + [M(INPUT, flags)] + [G(LMAX, 1), G(RCOUNT, 1)] + U_IN + [M(ENDCOLL, 0)]
            yield PROLOGUE + list(w) + [M(COLLECTION, 2)] + U_IN + [M(ENDCOLL, 0)] * 2


def missing():
    """Every subset of the globals a field takes, never stated (a host takes them as 0), before each of several bodies."""
    state = [G(UPAGE, 1), G(LMIN, 0), G(LMAX, 1), G(RSIZE, 8), G(RCOUNT, 1), G(PMIN, 0), G(PMAX, 0), G(UNIT, 0), G(UEXP, 0)]
    bodies = [[L(USAGE, 0x10030), M(INPUT, 2)], [L(USAGE, 0x10030), M(INPUT, 2), L(USAGE, 0x10031), M(INPUT, 2)], [M(INPUT, 3)], [M(INPUT, 1), L(USAGE, 0x10030), M(OUTPUT, 2)],
              [G(PUSH, 0), L(USAGE, 0x10030), M(INPUT, 2), G(POP, 0), L(USAGE, 0x10031), M(INPUT, 2)], [L(USAGE, 0x10030), L(USAGE, 0x10031), M(INPUT, 0)],
              [L(USAGE, 0x10030), M(INPUT, 2), G(LMAX, 5), L(USAGE, 0x10031), M(INPUT, 2)], [L(USAGE, 0x10030), M(INPUT, 2), G(RCOUNT, 2), L(USAGE, 0x10031), M(INPUT, 2)],
              [L(USAGE, 0x10030), M(INPUT, 2), G(PMAX, 5), L(USAGE, 0x10031), M(FEATURE, 2)], [L(USAGE, 0x30), M(INPUT, 2)], []]
    for k in range(len(state) + 1):
        for given in itertools.combinations(state, k):
            for body in bodies:
                for coll in (True, False) if body else (True,):
                    yield ([L(USAGE, 0x10002), M(COLLECTION, 1)] if coll else []) + list(given) + body + ([M(ENDCOLL, 0)] if coll else [])


def physical(full=False):
    """Two fields, each with any logical bounds next to any physical bounds, stated or not."""
    if full:
        log = phy = list(itertools.product((None, -1, 0, 1), repeat=2))
    else:
        log = [(None, None), (0, 1), (-1, 0), (-1, 1), (0, 0), (None, 1), (-1, None)]
        phy = list(itertools.product((None, -1, 0, 1), repeat=2))
    def state(l, p):
        return [G(t, v) for t, v in ((LMIN, l[0]), (LMAX, l[1]), (PMIN, p[0]), (PMAX, p[1])) if v is not None]
    for l1, p1, l2, p2 in itertools.product(log, phy, log, phy):
        yield ([L(USAGE, 0x10002), M(COLLECTION, 1), G(RSIZE, 8), G(RCOUNT, 1)] + state(l1, p1) + [L(USAGE, 0x10030), M(INPUT, 2)]
               + state(l2, p2) + [L(USAGE, 0x10031), M(INPUT, 2), M(ENDCOLL, 0)])


def many_reports():
    """All 255 report IDs in one descriptor, each with its own length, visited twice (and in three orders)."""
    for way in WAYS:
        for order in (range(1, 256), range(255, 0, -1), [1 + (i * 7) % 255 for i in range(255)]):
            items = list(PROLOGUE)
            for k, r in enumerate(order):
                items += [G(RID, r), G(RSIZE, 1 + (r * 5 + k) % 13), L(USAGE, 0x30), M(way, 2)]
            for r in order:
                items += [G(RID, r), G(RSIZE, 8), L(USAGE, 0x31), M(way, 2), L(USAGE, 0x32), M(way, 2 if r % 2 else 6)]
            yield items + [M(ENDCOLL, 0)]


def long_ones(n):
    """Long descriptors: thousands of different items"""
    for kind in range(4):
        items = list(PROLOGUE)
        for i in range(n):
            if kind == 0:
                items += [G(LMAX, i + 1), L(USAGE, 1 + i % 60000), M(INPUT, 2)]
            elif kind == 1:
                items += [L(USAGE, 0x10030 + i % 7 if i % 3 else 0x90001 + i), M(INPUT, 2 if i % 11 else 6)]
            elif kind == 2:
                items += [L(USAGE, 1), M(COLLECTION, 2), L(USAGE, 0x30 + i % 5), L(SIDX, 1 + i), M(FEATURE, 2), M(ENDCOLL, 0)]
            else:
                items += [G(PUSH, 0), G(LMAX, i), G(UPAGE, 1 + i % 9), L(USAGE, 1), M(OUTPUT, 2), G(POP, 0), L(USAGE, 0x31), M(OUTPUT, 2)]
        yield items + [M(ENDCOLL, 0)]
    for d in (100, 300):                              # deep
        yield PROLOGUE + [L(USAGE, 1), M(COLLECTION, 2)] * d + U_IN + [M(ENDCOLL, 0)] * d + U_IN + [M(ENDCOLL, 0)]
        yield PROLOGUE + sum([[G(PUSH, 0), G(LMAX, 2 + i), L(USAGE, 0x30), M(INPUT, 2)] for i in range(d)], []) + \
            sum([[G(POP, 0), L(USAGE, 0x31), M(INPUT, 2)] for i in range(d)], []) + [M(ENDCOLL, 0)]


def runs(small=False):
    """Long runs of one kind of local item (one field, or one field each), whole, with one odd one out at any of several places,
    ascending and descending."""
    for what, (one, lo, hi) in LOCALS.items():
        base = 0x10001 if what == "usage" else 1
        us = [] if what == "usage" else [L(USAGE, 0x30)]
        for n in (3, 129, 257, 513) if small else (3, 100, 127, 128, 129, 255, 256, 257, 511, 512, 513, 514, 600, 1023, 1025, 1500):
            for odd in (None, 0, 1, n // 2, n - 2, n - 1):
                for by in ((1, -3) if small else (1, 7, -3)) if odd is not None else (0,):
                    seq = [base + 10 + i for i in range(n)]
                    if odd is not None:
                        seq[odd] += by
                    for s in (seq, seq[::-1]):
                        yield PROLOGUE + [G(RCOUNT, n)] + us + [L(one, v) for v in s] + [M(INPUT, 2)] + U_IN + [M(ENDCOLL, 0)]
                    if n < 600:
                        yield PROLOGUE + sum([us + [L(one, v), M(INPUT, 2)] for v in seq], []) + [M(ENDCOLL, 0)]
            for extra in ([L(one, base)], [L(one, base + n + 40)], [L(lo, base), L(hi, base + 2)]):
                rng = [L(lo, base + 10), L(hi, base + 10 + n - 1)]
                for s in (extra + rng, rng + extra, rng + extra + rng, extra + rng + extra):
                    c = sum(1 for x in s if x[1] == one) + sum(b[2] - a[2] + 1 for a, b in zip(s, s[1:]) if a[1] == lo)
                    yield PROLOGUE + [G(RCOUNT, c)] + us + s + [M(INPUT, 2)] + U_IN + [M(ENDCOLL, 0)]


WIDE = {RCOUNT: (127, 128, 255, 256, 257, 300, 1000), RSIZE: (31, 32, 33, 63, 64, 127, 128, 255, 256, 1024), LMIN: (-129, -128, 127, 128, -32769, 32768),
        LMAX: (127, 128, 255, 256, 32767, 32768, 65535, 65536, 0x7fffffff), PMIN: (-129, -128, 127, 128, -32769, 32768),
        PMAX: (127, 128, 255, 256, 32767, 32768, 65535, 65536), UEXP: (7, 8, 15, -8, -9, 127, 128), UNIT: (0x7f, 0x80, 0xff, 0x100, 0xffff, 0x10000, 0x7fffffff, 0x80000000),
        RID: (127, 128, 254, 255), UPAGE: (0x7f, 0x80, 0xff, 0x100, 0x7fff, 0x8000, 0xffff)}


def wide(small=False):
    """Every wide value of each global next to every deviation: in the same field, in the field before and in the field after."""
    slot = {RCOUNT: "rcount", RSIZE: "rsize", LMIN: "lmin", LMAX: "lmax", PMIN: "pmin", PMAX: "pmax", UEXP: "uexp", UNIT: "unit", RID: "rid", UPAGE: "upage"}
    for t, vals in WIDE.items():
        for v in vals:
            for s, ev in all_options():
                for where in range(3):
                    if where == 1 and s == slot[t] or small and where == 0:
                        continue
                    d = [{}, {}, {}]
                    d[1][slot[t]] = [G(t, v)]
                    d[where][s] = ev
                    items = list(PROLOGUE) + ([G(RID, 9)] if t == RID else [])
                    for j in range(3):
                        items += segment(j, d[j])
                    items = finish(items)
                    if items is not None:
                        yield items


def merging(n=65540):
    """one field after another, merging to more than 16 bits of them"""
    yield PROLOGUE + [L(USAGE, 0x30), M(INPUT, 2)] * n + [M(ENDCOLL, 0)]
    yield PROLOGUE + [G(RCOUNT, 256)] + [L(USAGE, 0x30), M(INPUT, 2)] * 257 + [M(ENDCOLL, 0)]


def flips(v, bits, signed=False):
    """v with each of its bits flipped, where that is still representable"""
    for b in range(bits):
        w = v ^ (1 << b)
        if signed and b == 31:
            w = v - (1 << 31) if v >= 0 else v + (1 << 31)
        if (-(1 << 31) <= w < (1 << 31)) if signed else (0 <= w < (1 << 32)):
            yield w


def aliases():
    """Values that differ in a single bit (whichever of the 32), in successive fields, collections or list elements."""
    P, E = PROLOGUE, [M(ENDCOLL, 0)]
    F = lambda i, f=2: [L(USAGE, 0x10030 + i), M(INPUT, f)]
    for t, vals, bits in ((UPAGE, (1, 9), 16), (LMIN, (0, -1, 5), 32), (LMAX, (1, 100), 32), (PMIN, (0, 3, -4), 32), (PMAX, (0, 7), 32), (UEXP, (0, -3), 32),
                          (UNIT, (0, 0x11), 32), (RSIZE, (8, 1), 16), (RID, (1, 2), 8), (RCOUNT, (1, 2), 9)):
        for v in vals:
            for w in flips(v, bits, (GLOBAL, t) in SIGNED):
                if t in (RID,) and not w:
                    continue
                f = [[L(USAGE, 0x30 + i), M(INPUT, 2)] for i in range(3)] if t == UPAGE else [F(i) for i in range(3)]
                yield P + [G(t, v)] + f[0] + [G(t, w)] + f[1] + [G(t, v)] + f[2] + E
                yield P + [G(t, v)] + [G(PUSH, 0)] + f[0] + [G(t, w)] + f[1] + [G(POP, 0)] + f[2] + E
    for v in (2, 0):
        for w in flips(v, 32):
            yield P + F(0, v) + F(1, w) + F(2, v) + F(3, w) + F(4, w) + E
    for v in (0, 1, 2):
        for w in flips(v, 8):
            yield P + [L(USAGE, 1), M(COLLECTION, v)] + F(0) + E + [L(USAGE, 1), M(COLLECTION, w)] + F(1) + E + E
    for what, (one, lo, hi) in LOCALS.items():
        own = what == "usage"
        for v in (0x10030, 0x90001) if own else (1, 4):
            for k in range(1, 4):                          # one odd element at position k of a run of 4
                for w in flips(v + k, 32):
                    seq = [v + i if i != k else w for i in range(4)]
                    loc = [L(one, x) for x in seq]
                    us = [] if own else [L(USAGE, 0x30)]
                    yield P + [G(RCOUNT, 4)] + us + loc + [M(INPUT, 2)] + E
                    yield P + sum([([] if own else [L(USAGE, 0x30 + i)]) + [x, M(INPUT, 2)] for i, x in enumerate(loc)], []) + E
                    if own:
                        yield P + [G(LMAX, 3)] + loc + [M(INPUT, 0)] + E
            for w in flips(v, 32):
                yield P + [L(one, v), M(COLLECTION, 2)] + F(0) + E + [L(one, w), M(COLLECTION, 2)] + F(1) + E + E
                if not own and w < v + 600 or own and w >> 16 == v >> 16 and w > v:
                    a, b = sorted((v, w))
                    yield P + [G(RCOUNT, 3)] + [L(lo, a), L(hi, b)] + ([] if own else [L(USAGE, 0x30)]) + [M(INPUT, 2)] + F(0) + E if b - a < 600 else P + F(0) + E


def _devices():
    """Descriptors of whole devices, in the way their makers write them."""
    up, us, sz, n, lo, hi, rid = (lambda v: G(UPAGE, v)), (lambda v: L(USAGE, v)), (lambda v: G(RSIZE, v)), (lambda v: G(RCOUNT, v)), \
        (lambda v: G(LMIN, v)), (lambda v: G(LMAX, v)), (lambda v: G(RID, v))
    col, end = (lambda v: M(COLLECTION, v)), M(ENDCOLL, 0)
    i, o, f = (lambda v: M(INPUT, v)), (lambda v: M(OUTPUT, v)), (lambda v: M(FEATURE, v))
    d = {}
    d["keyboard"] = [up(1), us(6), col(1), up(7)] + urange(0xe0, 0xe7) + [lo(0), hi(1), sz(1), n(8), i(2), n(1), sz(8), i(1), n(5), sz(1), up(8)] \
        + urange(1, 5) + [o(2), n(1), sz(3), o(1), n(6), sz(8), lo(0), hi(101), up(7)] + urange(0, 101) + [i(0), end]
    d["mouse"] = [up(1), us(2), col(1), us(1), col(0), up(9)] + urange(1, 3) + [lo(0), hi(1), n(3), sz(1), i(2), n(1), sz(5), i(1), up(1), us(0x30), us(0x31), us(0x38),
        lo(-127), hi(127), sz(8), n(3), i(6), up(12), us(0x238), n(1), i(6), end, end]
    d["gamepad"] = [up(1), us(5), col(1), rid(1), us(1), col(0), us(0x30), us(0x31), us(0x32), us(0x35), lo(0), hi(255), G(PMIN, 0), G(PMAX, 255), sz(8), n(4), i(2), end,
        us(0x39), lo(0), hi(7), G(PMAX, 315), G(UNIT, 0x14), sz(4), n(1), i(0x42), G(UNIT, 0), G(PMAX, 0), up(9)] + urange(1, 12) + [hi(1), sz(1), n(12), i(2),
        up(0xff00), us(0x20), rid(2), hi(255), sz(8), n(4), f(2), us(0x21), rid(3), n(7), o(2), end]
    finger = [up(13), us(0x22), col(2), us(0x42), lo(0), hi(1), sz(1), n(1), i(2), us(0x32), i(2), n(6), i(3), us(0x51), hi(63), sz(8), n(1), i(2), up(1), hi(4095), sz(16),
              G(UEXP, -2), G(UNIT, 0x13), us(0x30), G(PMIN, 0), G(PMAX, 1205), i(2), us(0x31), G(PMAX, 745), hi(2047), i(2), end]
    d["touch"] = [up(13), us(4), col(1), rid(1)] + finger + finger + [up(13), us(0x54), hi(10), sz(8), G(PMAX, 0), G(UNIT, 0), G(UEXP, 0), i(2), rid(2), us(0x55), f(2), end]
    d["consumer"] = [up(12), us(1), col(1), rid(3), lo(0), hi(1), sz(1), n(7), us(0xb5), us(0xb6), us(0xb7), us(0xcd), us(0xe2), us(0xe9), us(0xea), i(0x22), n(1), i(1),
                     sz(16), lo(1), hi(0x3ff)] + urange(1, 0x3ff) + [i(0), us(0xe0), L(SIDX, 4), lo(-10), hi(10), sz(8), i(6), end]
    d["sensor"] = [up(0x20), us(0x73), col(0), rid(1), us(0x30e), G(UNIT, 0), lo(0), hi(0x7fffffff), sz(32), n(1), f(2),
                   us(0x316), col(2), lo(1), hi(4), sz(8), us(0x840), us(0x841), us(0x842), us(0x843), f(0), end,
                   us(0x453), lo(-32768), hi(32767), sz(16), G(UNIT, 0xe011), G(UEXP, -2), i(2), us(0x454), us(0x455), n(2), i(2),
                   us(0x201), col(2), lo(1), hi(3), sz(8), n(1), G(UNIT, 0), G(UEXP, 0), us(0x800), us(0x801), us(0x802), i(0), end, end]
    d["battery"] = [up(0x84), us(4), col(1), us(0x24), col(2), rid(6), up(0x85), us(0x66), lo(0), hi(100), sz(8), n(1), f(0x82), us(0x66), i(0x82), G(UNIT, 0x1001), us(0x68),
                    hi(65535), sz(16), f(0x82), us(0x68), i(0x82), up(0x84), rid(7), us(0x30), G(UNIT, 0xf0d121), G(UEXP, 5), hi(1000), f(2), G(UNIT, 0), G(UEXP, 0),
                    us(0xfd), L(SIDX, 1), sz(8), hi(255), f(0xa2), us(0xfe), L(SIDX, 2), f(0xa2), end, end]
    d["force"] = [up(15), us(0x21), col(1), rid(1), us(0x22), sz(8), n(1), lo(1), hi(40), o(2), G(PUSH, 0), us(0x25), col(2), us(0x26), us(0x27), us(0x30), lo(1), hi(3), o(0), end,
                  G(UNIT, 0x1003), G(UEXP, -3), us(0x50), us(0x54), lo(0), hi(32767), G(PMAX, 32767), sz(16), n(2), o(2), G(POP, 0), us(0x52), lo(0), hi(255), o(2), G(PUSH, 0),
                  G(UPAGE, 1), us(0x30), us(0x31), hi(1), sz(1), n(2), o(2), G(POP, 0), sz(6), o(3), end]
    d["vendor"] = [L(USAGE, 0xff000001), col(1), L(USAGE, 0xff000002), lo(0), hi(255), sz(8), n(64), i(0x102), L(USAGE, 0xff000003), o(0x102), up(0xff01)] + urange(1, 4) + \
        [L(DIDX, 1), L(DIDX, 2), L(DMIN, 3), L(DMAX, 4), n(4), f(2), L(DIDX, 0), us(9), lo(-5), hi(5), n(3), f(0x102), end]
    return d


DEVICES = _devices()
DEVICE_EXTRA = [[x] for x in (G(RID, 9), G(LMIN, -1), G(LMAX, 3), G(PMIN, 2), G(PMAX, 7), G(UNIT, 0x11), G(UEXP, -1), G(RSIZE, 3), G(RCOUNT, 2), G(UPAGE, 9), L(USAGE, 0x90005),
                                L(SIDX, 4), L(DIDX, 0), L(DIDX, 3), M(INPUT, 1), M(OUTPUT, 2), M(ENDCOLL, 0), G(PUSH, 0), G(POP, 0))] + \
    [urange(0x90011, 0x90014), [L(USAGE, 0x10001), M(COLLECTION, 2)], [L(USAGE, 0x90012), M(INPUT, 2)]]


def devices(full=False):
    """Whole devices, two in one, and every one-edit neighbour: an item removed, doubled, put off by one, changed by one, inserted"""
    names = sorted(DEVICES)
    for a in names:
        yield list(DEVICES[a])
    for a, b in itertools.product(names, repeat=2):
        ids = any(t == (GLOBAL, RID) for t in (x[:2] for x in DEVICES[a])), any(t == (GLOBAL, RID) for t in (x[:2] for x in DEVICES[b]))
        shift = [(k, t, v + 16) if (k, t) == (GLOBAL, RID) else (k, t, v) for k, t, v in DEVICES[b]]
        yield ([] if ids[0] or not ids[1] else [G(RID, 7)]) + DEVICES[a] + ([G(RID, 8)] if ids[0] and not ids[1] else []) + (shift if ids[0] and ids[1] else DEVICES[b])
    for a in names:
        d = DEVICES[a]
        for n in range(len(d)):
            k, t, v = d[n]
            yield d[:n] + d[n + 1:]
            yield d[:n + 1] + d[n:]
            if n + 1 < len(d):
                yield d[:n] + [d[n + 1], d[n]] + d[n + 2:]
            if (k, t) not in ((MAIN, ENDCOLL), (GLOBAL, PUSH), (GLOBAL, POP)):
                for w in (v + 1, v - 1, v ^ 2, -v) if full else (v + 1, v - 1):
                    if w < 1 << 31 and (w >= 0 or k == GLOBAL and t in (LMIN, LMAX, PMIN, PMAX, UEXP)):
                        yield d[:n] + [(k, t, w)] + d[n + 1:]
            for x in DEVICE_EXTRA if full else DEVICE_EXTRA[n % 2::2]:
                tail = [M(ENDCOLL, 0)] if x[-1] == M(COLLECTION, 2) else []
                yield d[:n] + x + d[n:] + tail
        if full:
            for n, m in itertools.combinations(range(len(d)), 2):
                yield d[:n] + d[n + 1:m] + d[m + 1:]
