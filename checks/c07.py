"""C07: bit layout of compiled trees against the reference layout rule (treespec.Declared.place)."""
from explore import Family
from hidref import *
import hidref, itertools, sut, treespec, trees as T

ASSUMPTIONS = ["only positions, sizes and report lengths are compared here (C06 compares the rest)",
               "sizes, counts and boundaries outside the listed alphabets and sweeps are not covered"]


def layout(m):
    out = []

    def walk(ns):
        for n in ns:
            if n[0] == "C":
                walk(n[5])
            else:
                out.append(n[1:5])
    walk(m[0])
    return tuple(out), m[1]


def check(tree, rec):
    want = layout(treespec.declared(tree))
    rec.state(want)
    for opt in (False, True):
        rec.step()
        b = sut.compile_tree(sut.build(tree), opt)
        try:
            got = layout(hidref.meaning(b))
        except hidref.IllFormed as e:
            return "ill-formed output: %s: %s" % (e, b.hex(" "))
        if got != want:
            return "layout (optimize=%s): %s (%s)" % (opt, hidref.diff(want, got), b.hex(" ")[:500])
    return None


def V(size, way=8, count=1, align=None, **kw):
    d = dict(way=way, usage=0x10030, size=size, lmin=0, lmax=1, count=count, **kw)
    if align is not None:
        d["align"] = align
    if "named" in d:
        d.pop("lmax")
    return ("val", d)


FULL = [V(s, w, c, a) for s in (1, 3, 8, 12, 16, 32) for c in (1, 3) for a in (None, 1, 2, 8, 16, 32) for w in (8, 9)] + \
    [("pad", w, n) for w in (8, 9) for n in (1, 4, 7, 8, 12)] + [("align", w, n) for w in (8, 9) for n in (1, 2, 8, 16, 32, 3)] + \
    [V(s, flags=f) for s in (1, 5, 8) for f in (0, 1, 3, 0x102)] + [V(s, w, 0) for s in (3, 8, 16) for w in (8, 9)] + [V(8, count=0, flags=f) for f in (0, 1, 0x102)] + [V(8, 11), V(1, 11)] + \
    [V(s, named=(0x70004, 0x70005), count=c) for s in (1, 4, 8) for c in (1, 3)] + \
    [("val", dict(way=8, usage=None, size=s, lmin=0, named=(0x70004, 0x70005))) for s in (3, 16)]
SMALL = [V(1), V(3), V(8), V(16), V(12, align=1), V(3, count=5), V(8, count=2), V(1, align=8), V(8, align=16), V(8, align=3), V(32, align=32),
         V(1, 9), V(8, 9), V(1, 11), ("pad", 8, 3), ("pad", 8, 8), ("pad", 9, 5), ("align", 8, 8), ("align", 8, 16), ("align", 9, 8),
         V(5, flags=1), V(8, flags=3), V(1, named=(0x70004, 0x70005), count=3), V(8, flags=0), V(4, flags=0x102, count=3)]
TINY = [V(1), V(8), V(3, count=3), V(8, 9), ("pad", 8, 5), ("align", 8, 16), V(4, align=1), V(1, 9)]
A = 0x10005
SHAPES = {
    "flat": lambda ops: ("top", (("coll", 1, A, ops),)),
    "one": lambda ops: ("coll", 1, A, (("rep", 1, ops),)),
    "split": lambda ops: ("top", (("coll", 1, A, tuple(("rep", 1 + i % 2, (o,)) for i, o in enumerate(ops))),)),
    "nest": lambda ops: ("coll", 1, A, (("rep", 1, ops[:1] + (("rep", 2, ops[1:2]),) + ops[2:]),)),
    "same": lambda ops: ("coll", 1, A, tuple(("rep", 3, (o,)) for o in ops)),
    "colls": lambda ops: ("top", tuple(("coll", 1, A, (o,)) for o in ops)),
    "deep": lambda ops: ("coll", 1, A, ops[:1] + (("coll", 2, 0x10001, ops[1:]),)),
    "rcolls": lambda ops: ("top", tuple(("rep", 200 + i % 2, (("coll", 1, A, (o,)),)) for i, o in enumerate(ops))),
}


def seqs(alpha, depth, shapes):
    for ops in itertools.product(alpha, repeat=depth):
        for s in shapes:
            yield SHAPES[s](ops)


def sweeps():
    f = SHAPES["flat"]
    for k in range(0, 34):
        for s in range(1, 66):
            yield f((("pad", 8, k), V(s), V(1)))
        for n in range(0, 66):
            yield f((("pad", 8, k), ("align", 8, n), V(8, align=1), V(3)))
            yield f((("pad", 8, k), V(5, align=n), V(1)))
        for c in range(0, 34):
            yield f((("pad", 8, k), V(3, count=c, align=1), V(8)))
            yield f((("pad", 8, k), V(8, count=c), V(1)))
            yield f((("pad", 8, k), V(5, count=c), V(1)))
    for b in (64, 127, 128, 129, 255, 256, 257, 1000, 1024, 4096, 65535, 65536, 65537, 1 << 20):
        for k in (0, 1, 7, 8, 9, 63, 64, 65, 127, 128, 255, 256, 257, 1023, 65535, 65536, 70000):
            for w in (8, 9, 11):
                yield f((("pad", w, k), ("align", w, b), V(8, w, align=1), V(3, w)))
                yield f((("pad", w, k), V(5, w, align=b), V(1, w), V(8, w)))
                yield f((V(k + 1, w, align=1), V(b if b < 5000 else 9, w), V(1, w)))
    for r in range(1, 256):
        yield ("coll", 1, A, (("rep", r, (V(3), V(8))), ("rep", 256 - r, (V(1), V(8))), ("rep", r, (V(1), V(8)))))
        for w in (9, 11):
            yield ("coll", 1, A, (("rep", r, (V(3), V(5, w), V(8), V(8, w))),))
    for c in (100, 255, 256, 1000, 4096, 65535):
        yield f((V(1, count=c), V(8), V(1)))
        yield f((V(7, count=c), V(8), V(1)))
    for n in range(1, 80):
        yield f(tuple(V(1 + i % 9) for i in range(n)))
    for k in (0, 1, 3):                                    # alignment counted in the report of the value, not elsewhere
        for w1 in (8, 9, 11):
            for w2 in (8, 9, 11):
                for r1 in (1, 2):
                    for r2 in (1, 2):
                        yield ("coll", 1, A, (("rep", r1, (("pad", w1, k), V(3, w1))), ("rep", r2, (V(8, w2), ("align", w1, 8), V(1, w2))), ("rep", r1, (V(8, w1),))))


def families(tier):
    q = tier == "quick"
    f = [Family("sweeps", sweeps, check, "offset 0..33 x size 1..65, boundary 0..65, count 0..33; boundaries up to 2^20 x offsets up to 70000 x report types; 255 report ids; long reports"),
         Family("nestings-%d" % (7 if tier == "quick" else 9), lambda: T.nestings(7 if tier == "quick" else 9), check, "every nesting of reports, collections and values up to %d events" % (7 if tier == "quick" else 9)),
         Family("many-reports", T.many_reports, check, "255 reports of different lengths in one tree"),
         Family("long", lambda: T.long_ones(1000), check, "a thousand values"),
         Family("pairs", lambda: seqs(FULL, 2, ["flat"]), check, "all pairs of %d operations" % len(FULL)),
         Family("pairs-shapes", lambda: seqs(SMALL, 2, list(SHAPES)), check, "all pairs of %d operations x 8 structures" % len(SMALL)),
         Family("triples", lambda: seqs(SMALL, 3, ["flat", "split", "nest"]), check, "all triples of %d operations x 3 structures" % len(SMALL)),
         Family("tiny-4", lambda: seqs(TINY, 4, ["flat", "split"] if q else list(SHAPES)), check, "all sequences of 4 of %d operations" % len(TINY))]
    if not q:
        f.append(Family("triples-shapes", lambda: seqs(SMALL, 3, list(SHAPES)), check, "all triples x 8 structures"))
        f.append(Family("tiny-6", lambda: seqs(TINY, 6, ["flat", "split"]), check, "all sequences of 6 of %d operations" % len(TINY)))
    return f
