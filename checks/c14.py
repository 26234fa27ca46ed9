"""C14: the descriptor test helper against byte equality, for every edit of the expected text."""
import itertools, unittest
from explore import Family
import sut, trees as T
from c03 import DECO
from hrdc.descriptor.test import descriptor_expected

ASSUMPTIONS = ["failing means raising; the bytes of the descriptor are the library's own optimized bytes",
               "edits: one edit anywhere (every value), two edits for the smallest descriptor"]
V = T.V
TREES = {
    "min": ("coll", 1, 0x10005, ()),
    "one": ("coll", 1, 0x10005, (V(),)),
    "mouse": T.top(*[V(usage=0x90001 + i, size=1) for i in range(3)] + [("pad", 8, 5), V(lmin=-127, lmax=127, flags=6), V(usage=0x10031, lmin=-127, lmax=127, flags=6)]),
    "wide": T.top(V(usage=0xff000123, lmin=-2147483648, lmax=2147483647, size=32, unit=0xf0d121, exp=-2, pmin=-70000, pmax=70000, string=300)),
    "reps": ("coll", 1, 0x10005, (("rep", 1, (V(), V(way=9))), ("rep", 2, (V(usage=None, named=("range", 0x70000, 0x70065), count=6, lmin=0),)))),
    "same": T.top(("coll", 2, 0x10001, (V(),)), ("coll", 2, 0x10001, (V(),)), ("coll", 2, 0x10001, (V(),))),
    "zero": T.top(V(usage=0x70000, lmin=0, lmax=0, flags=0, size=1)),
}
BIG = {
    "b300": T.top(*[V(usage=0x90001 + 3 * i, size=1 + i % 5, lmax=1 + i) for i in range(30)]),
    "b1000": T.top(*[V(usage=0x90001 + 3 * i, size=1 + i % 5, lmax=1 + i) for i in range(100)]),
    "b70000": T.top(*[V(usage=0x90001 + 3 * i, size=1 + i % 5, lmax=1 + i) for i in range(6200)]),
}
TREES_ALL = {**TREES, **BIG}
_cache = {}


def desc(name):
    if name not in _cache:
        d = sut.build(TREES_ALL[name])
        _cache[name] = (d, sut.compile_tree(d, True))
    return _cache[name]


def passes(d, text):
    try:
        descriptor_expected(unittest.TestCase(), d, text)
    except Exception:
        return False
    return True


def show(blob):
    return ", ".join("0x%02x" % b for b in blob)


def judge(name, blob, text, rec):
    d, real = desc(name)
    rec.step()
    p = passes(d, text)
    if p != (blob == real):
        return "helper %s on %r for descriptor bytes %s" % ("passes" if p else "fails", text[:400], real.hex(" "))
    return None


def edited(real, edit):
    op, i = edit[0], edit[1]
    if op == "set":
        return real[:i] + bytes([edit[2]]) + real[i + 1:]
    if op == "del":
        return real[:i] + real[i + edit[2]:]
    if op == "ins":
        return real[:i] + bytes([edit[2]]) + real[i:]
    if op == "cut":
        return real[:i]
    if op == "swap":
        j = edit[2]
        b = bytearray(real)
        b[i], b[j] = b[j], b[i]
        return bytes(b)
    if op == "app":
        return real + bytes(edit[2])
    if op == "more":
        return (real * (edit[2] // len(real) + 2))[:len(real) + edit[2]]
    if op == "dup":
        return real[:i] + real[i:i + edit[2]] + real[i:]
    if op == "tail":
        return real[i:]


def edits(n):
    for i in range(n):
        for v in range(256):
            yield ("set", i, v)
        for k in (1, 2, 3, 4, 5):
            yield ("del", i, k)
            yield ("dup", i, k)
        yield ("cut", i)
        yield ("tail", i)
        for j in range(i + 1, n):
            yield ("swap", i, j)
    for i in range(n + 1):
        for v in (0, 1, 5, 9, 0x81, 0xc0, 0xff):
            yield ("ins", i, v)
    for k in list(range(1, 300)) + [511, 512, 513, 768, 1024, 4096, 65535, 65536, 65537]:
        yield ("more", 0, k)
    for t in [(b,) for b in range(256)] + [(0xc0, 0xc0), (9, 1), (0x81, 2), (0,) * 9]:
        yield ("app", 0, t)


def check_edit(case, rec):
    name, edit = case
    rec.state(case)
    b = edited(desc(name)[1], edit)
    return judge(name, b, show(b), rec)


def cases(names):
    for n in names:
        for e in edits(len(desc(n)[1])):
            yield (n, e)


def big_edits():
    """one edit at every position (of the largest one: around powers of two and at the end)"""
    for name in BIG:
        n = len(desc(name)[1])
        at = range(n) if n < 5000 else sorted({p for b in range(8, 17) for d in (-1, 0) for p in ((1 << b) + d, n - (1 << b) + d) if 0 <= p < n} | {n - 1, n - 2})
        yield (name, ("more", 0, 0))
        for i in at:
            b = desc(name)[1][i]
            for e in (("set", i, b ^ 1), ("set", i, b ^ 0x80), ("del", i, 1), ("ins", i, b ^ 2), ("cut", i)):
                yield (name, e)


def check_two(case, rec):
    name, e1, e2 = case
    rec.state(case)
    b = edited(edited(desc(name)[1], e1), e2)
    return judge(name, b, show(b), rec)


def two(name, vals):
    n = len(desc(name)[1])
    small = [("set", i, v) for i in range(n) for v in vals] + [("del", i, 1) for i in range(n)] + [("ins", i, v) for i in range(n) for v in vals]
    for a in small:
        for b in small:
            yield (name, a, b)


def check_layout(case, rec):
    """right and wrong bytes in every layout"""
    name, pos, deco, style, wrong = case
    rec.state(case)
    real = desc(name)[1]
    b = edited(real, wrong) if wrong else real
    toks = [style % x for x in b]
    i = min(pos, 2 * len(toks))
    s = DECO[deco] if i == 0 else ""
    for k, t in enumerate(toks):
        s += t + (DECO[deco] if i == 2 * k + 1 else "") + "," + (DECO[deco] if i == 2 * k + 2 else "")
    return judge(name, b, s, rec)


def layouts(q):
    for name in ("one", "reps"):
        n = len(desc(name)[1])
        for pos in range(2 * n + 1):
            for d in range(len(DECO)):
                for style in ("0x%02x", "0x%02X", "0x%x"):
                    for wrong in (None, ("set", n - 1, 0xc1), ("cut", n - 1)) if style == "0x%02x" or not q else (None,):
                        yield (name, pos, d, style, wrong)


def check_trees(tree, rec):
    """the helper accepts the bytes of any tree and no other tree's unless they are equal"""
    rec.state(tree)
    d = sut.build(tree)
    real = sut.compile_tree(d, True)
    rec.step(4)
    if not passes(d, show(real)):
        return "helper fails on the right bytes %s" % real.hex(" ")
    for b in (real[:-1], real + b"\xc0", b"", real[:-1] + b"\xc1"):
        if passes(d, show(b)):
            return "helper passes on %s for bytes %s" % (b.hex(" "), real.hex(" "))
    return None


def families(tier):
    q = tier == "quick"
    return [Family("edits", lambda: cases(TREES), check_edit, "%d descriptors x every replaced byte (256 values), removal, insertion, swap, duplication, truncation, extension" % len(TREES)),
            Family("big", big_edits, check_edit, "descriptors of 0.3, 1 and 70 kB x one edit at every position (of the last: around powers of two)"),
            Family("two-edits", lambda: two("min", (0, 1, 0xc0) if q else (0, 1, 5, 9, 0xa1, 0xc0, 0xff)), check_two, "all pairs of edits of the smallest descriptor"),
            Family("layouts", lambda: layouts(q), check_layout, "one decoration anywhere x right and wrong bytes"),
            Family("trees", lambda: T.up_to(2, 1 if q else 2), check_trees, "trees with <=%d deviations" % (1 if q else 2))]
