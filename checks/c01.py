"""C01: every item kind x every value of the explored ranges, encoded by the library and decoded by the
reference codec (and back by the library)."""
from explore import Family
import hidref, sut
from itemspace import *
from hrdc.util import NamedConstant

ASSUMPTIONS = ["values beyond the contiguous block explored are covered around every power of two and for every pattern of "
               "at most two set (or cleared) bits",
               "a zero value may be written with no data byte or with one"]


def one(kt, v, arg):
    it = sut.item.Item.itemclass(*kt)(arg)
    b = it.bytes()
    if not isinstance(b, (bytes, bytearray)) or not b:
        return "bytes() gave %r" % (b,)
    h = b[0]
    if ((h >> 2) & 3, h >> 4) != kt:
        return "wrong type/tag: %s" % b.hex(" ")
    n = hidref.data_len(h)
    if len(b) != 1 + n:
        return "size field does not match the data: %s" % b.hex(" ")
    got = int.from_bytes(b[1:], "little", signed=signed(kt))
    if got != v:
        return "value %d encoded as %s, which decodes to %d" % (v, b.hex(" "), got)
    if n != hidref.shortest(kt[0], kt[1], v) and not (v == 0 and n == 0):
        return "value %d not encoded in the shortest form: %s" % (v, b.hex(" "))
    back = sut.item.Item.parse(b)
    if (int(back.kind), int(back.tag), int(back.value)) != (kt[0], kt[1], v):
        return "%s parsed back as %s/%s/%s" % (b.hex(" "), back.kind, back.tag, back.value)
    if not (back == it) or not (it == back):
        return "%s: parsed item is not equal to the original" % b.hex(" ")
    if back.bytes() != b:
        return "%s: encoded again as %s" % (b.hex(" "), back.bytes().hex(" "))
    return None


def check_values(case, rec):
    k, t, vals = case
    kt = (k, t)
    if vals[0] == "range":
        vals = range(vals[1], vals[2])
    for v in vals:
        e = one(kt, v, v)
        rec.step()
        if e:
            return "%s %s: %s" % (kt, v, e)
    rec.state((kt, vals[0], hidref.shortest(k, t, vals[0])))
    return None


def check_named(case, rec):
    """the same through a named constant, and every non-minimal encoding of the value read back"""
    k, t, v = case
    e = one((k, t), v, NamedConstant("n", v))
    if e:
        return "named constant: " + e
    rec.state(case)
    if v and t in (hidref.USAGE, hidref.UMIN, hidref.UMAX) and k == LOCAL:
        e = one((k, t), v, sut.Usage.lookup(v))
        if e:
            return "usage: " + e
    for n in (1, 2, 4):
        try:
            b = hidref.encode(k, t, v, n)
        except OverflowError:
            continue
        rec.step()
        it = sut.item.Item.parse(b)
        if (int(it.kind), int(it.tag), int(it.value)) != (k, t, v):
            return "%s parsed as %s/%s/%s" % (b.hex(" "), it.kind, it.tag, it.value)
    return None


def check_refused(case, rec):
    k, t, v, named = case
    rec.state(case)
    rec.step()
    try:
        b = sut.item.Item.itemclass(k, t)(NamedConstant("n", v) if named else v).bytes()
    except Exception:
        return None
    return "value %s is not representable but was encoded as %s" % (v, b.hex(" "))


def check_equal(case, rec):
    """two items are equal exactly when kind, tag and value are"""
    a, b = case
    rec.step()
    x, y = sut.make_item(*a), sut.make_item(*b)
    rec.state(case)
    if (x == y) != (a == b):
        return "equality of %r and %r" % (a, b)
    return None


def blocks(lo, hi, step=1024):
    for kt in KINDS:
        if kt in FIXED:
            continue
        a = lo if signed(kt) else 0
        while a < hi:
            yield (kt[0], kt[1], ("range", a, min(a + step, hi)))
            a += step


def patterns():
    for kt in KINDS:
        if kt in FIXED:
            yield (kt[0], kt[1], (0,))
            continue
        vals = set(edges(kt))
        for i in range(32):
            for j in range(32):
                p = (1 << i) | (1 << j)
                for q in (p, 0xffffffff ^ p):
                    vals.add(q - (1 << 32) if signed(kt) and q >> 31 else q)
        vals = sorted(v for v in vals if in_range(kt, v))
        for i in range(0, len(vals), 64):
            yield (kt[0], kt[1], tuple(vals[i:i + 64]))


def families(tier):
    n = 1 << (18 if tier == "quick" else 22)
    m = n + 1024
    return [
        Family("patterns", patterns, check_values, "every kind x values around powers of two and values with <=2 bits set or cleared"),
        Family("block", lambda: blocks(-m, m), check_values, "every kind x every value of magnitude <= %d" % m),
        Family("named", lambda: ((k, t, v) for k, t in KINDS for v in edges((k, t))), check_named,
               "every kind x power-of-two edges, as named constants and in every data size"),
        Family("refused", lambda: ((k, t, v, n) for k, t in KINDS if (k, t) not in FIXED for n in (0, 1)
                                   for b in range(0, 41) for d in (-1, 0, 1) for s in (1, -1)
                                   for v in [s * ((1 << b) + d)] if not in_range((k, t), v)), check_refused,
               "every kind x unrepresentable values around powers of two"),
        Family("fractions", lambda: ((k, t, s * (v + f), 0) for k, t in KINDS if (k, t) not in FIXED and k != hidref.MAIN and (k, t) not in ((LOCAL, hidref.USAGE), (LOCAL, hidref.UMIN), (LOCAL, hidref.UMAX))
                                     for v in [(1 << b) + d for b in range(31) for d in (-1, 0)] for f in (0.5, 0.25, 0.875) for s in (1, -1)), check_refused,
               "every kind that carries a number x fractions"),
        Family("equality", lambda: ((a, b) for a in ITEMS for b in ITEMS), check_equal, "all pairs of %d items" % len(ITEMS)),
    ]


ITEMS = [(k, t, v) for k, t in KINDS for v in ([0] if (k, t) in FIXED else [0, 1, 2, 255])]
