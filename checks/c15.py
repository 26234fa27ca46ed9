"""C15: unit building blocks against nibble packing."""
import itertools
from explore import Family
import hidref, histories as H, sut
from hidref import *

ASSUMPTIONS = ["well-known units are the combinations of WELL_KNOWN below (Second, Ampere and Candela carry no system of their own)"]
D = sut.D
SYS = {"SILinear": 1, "SIRotation": 2, "EnglishLinear": 3, "EnglishRotation": 4}
DIM = ["length", "mass", "time", "temperature", "current", "luminousintensity"]
WELL_KNOWN = {
    "Centimeter": (1, dict(length=1)), "Radian": (2, dict(length=1)), "Inch": (3, dict(length=1)), "Degree": (4, dict(length=1)),
    "Gram": (1, dict(mass=1)), "Slug": (3, dict(mass=1)), "Second": (0, dict(time=1)), "Kelvin": (1, dict(temperature=1)),
    "Fahrenheit": (3, dict(temperature=1)), "Ampere": (0, dict(current=1)), "Candela": (0, dict(luminousintensity=1)),
    "CmPerSec": (1, dict(length=1, time=-1)), "Momentum": (1, dict(mass=1, length=1, time=-1)), "G": (1, dict(length=1, time=-2)),
    "Newton": (1, dict(mass=1, length=1, time=-2)), "Joule": (1, dict(mass=1, length=2, time=-2)), "Volt": (1, dict(mass=1, length=2, time=-3, current=-1)),
}


def code(system, dims):
    c = system
    for d, e in dims.items():
        c |= (e & 0xf) << (4 * (DIM.index(d) + 1))
    return c


def check_single(case, rec):
    d, e = case
    rec.state(case)
    rec.step()
    f = getattr(D.Unit, d)
    if -8 <= e <= 7:
        if int(f(e)) != code(0, {d: e}):
            return "%s(%d) is %#x" % (d, e, int(f(e)))
        return None
    try:
        r = f(e)
    except Exception:
        return None
    return "%s(%d) accepted as %#x" % (d, e, int(r))


def check_block(case, rec):
    """every combination of the six exponents with the first two and the system fixed"""
    s, a, b = case
    U = D.Unit
    system = getattr(U, s) if s else 0
    base = (SYS[s] if s else 0) | (a & 0xf) << 4 | (b & 0xf) << 8
    head = U.length(a) | U.mass(b)
    head = system | head
    R = range(-8, 8)
    L = [U.luminousintensity(x) for x in R]
    for t in R:
        for k in R:
            for c in R:
                x = head | U.time(t) | U.temperature(k) | U.current(c)
                want = base | (t & 0xf) << 12 | (k & 0xf) << 16 | (c & 0xf) << 20
                for l, v in zip(R, L):
                    if int(x | v) != want | (l & 0xf) << 24:
                        return "%s length %d mass %d time %d temperature %d current %d luminous %d is %#x" % (s, a, b, t, k, c, l, int(x | v))
    rec.step(65536)
    rec.state(case)
    return None


def tree(u):
    return D.Collection(D.Collection.Application, sut.U(0x10005), D.Value(D.Value.Input, sut.U(0x10030), 8, logicalMin=0, logicalMax=1, unit=u),
                        D.Value(D.Value.Input, sut.U(0x10031), 8, logicalMin=0, logicalMax=1))


def eval_unit(name):
    """the printed name, the way a script would write it"""
    try:
        return int(str(name), 0)
    except ValueError:
        return int(getattr(D.Unit, str(name)))


def check_item(c, rec):
    """a code as item, in a descriptor, and its text"""
    rec.state(c)
    rec.step(4)
    i = sut.item.Unit(c)
    want = hidref.encode(GLOBAL, UNIT, c)
    if i.bytes() != want:
        return "unit %#x encoded as %s" % (c, i.bytes().hex(" "))
    if eval_unit(i.value) != c:
        return "unit %#x prints as %s, which is %#x" % (c, i.value, eval_unit(i.value))
    if str(i) != "Unit (%s)" % i.value:
        return "unit %#x is listed as %s" % (c, i)
    named = i.value
    if sut.item.Unit(named).bytes() != want:
        return "unit %s encoded as %s" % (named, sut.item.Unit(named).bytes().hex(" "))
    for o in (False, True):
        a, b = sut.compile_tree(tree(c), o), sut.compile_tree(tree(named), o)
        if a != b:
            return "unit %#x compiles to %s, its name to %s" % (c, a.hex(" "), b.hex(" "))
    m = hidref.meaning(a)[0][0][5]
    if [f[10] for f in m] != [c, 0]:
        return "unit %#x compiled as %s" % (c, [hex(f[10]) for f in m])
    return None


def check_known(name, rec):
    s, dims = WELL_KNOWN[name]
    c = code(s, dims)
    rec.state(name)
    u = getattr(D.Unit, name)
    if int(u) != c:
        return "%s is %#x, not %#x" % (name, int(u), c)
    if str(u) != name:
        return "%s prints as %s" % (name, u)
    parts = [getattr(D.Unit, d)(e) for d, e in dims.items()]
    for perm in itertools.permutations(parts):
        rec.step()
        x = [k for k, v in SYS.items() if v == s]
        x = getattr(D.Unit, x[0]) if x else 0
        for p in perm:
            x = x | p
        if not (x == u) or int(x) != c:
            return "%s differs from its definition" % name
        for o in (False, True):
            if sut.compile_tree(tree(x), o) != sut.compile_tree(tree(u), o):
                return "%s compiles differently from its definition" % name
    if str(sut.item.Unit(c).value) != name:
        return "%#x prints as %s, not %s" % (c, sut.item.Unit(c).value, name)
    return check_item(c, rec)


def check_system(name, rec):
    rec.state(name)
    rec.step()
    if int(getattr(D.Unit, name)) != SYS[name]:
        return "%s is %d" % (name, int(getattr(D.Unit, name)))
    return check_item(SYS[name], rec)


def items(q):
    seen = set()
    for s in range(16):
        for n in (0, 1, 2):
            for ds in itertools.combinations(range(1, 7), n):
                for es in itertools.product(range(16) if n < 2 or not q else (1, 2, 3, 7, 8, 13, 14, 15), repeat=n):
                    c = s
                    for d, e in zip(ds, es):
                        c |= e << (4 * d)
                    if c not in seen:
                        seen.add(c)
                        yield c
    for b in range(32):
        for d in (-1, 0, 1):
            c = (1 << b) + d
            if c not in seen:
                seen.add(c)
                yield c


def families(tier):
    q = tier == "quick"
    return [Family("systems", lambda: sorted(SYS), check_system, "4 systems"),
            Family("exponents", lambda: ((d, e) for d in DIM for e in list(range(-300, 301)) + [1 << 16, -(1 << 16), 1 << 40]), check_single, "6 dimensions x exponents -300..300"),
            Family("well-known", lambda: sorted(WELL_KNOWN), check_known, "17 units x every order of their parts"),
            Family("combinations", lambda: itertools.product(("SILinear",) if q else (None, "SILinear", "SIRotation", "EnglishLinear", "EnglishRotation"), range(-8, 8), range(-8, 8)),
                   check_block, "all 16^6 combinations of exponents" + (" (SI linear)" if q else " x 5 systems")),
            Family("systems-pairs", lambda: ((s, a, b) for s in (None, "SIRotation", "EnglishLinear", "EnglishRotation") for a in (-8, -1, 0, 1, 7) for b in (-8, 0, 7)), check_block,
                   "other systems: 15 pairs of length and mass x all other exponents"),
            Family("items", lambda: items(q), check_item, "16 system codes x <=2 dimensions, as items and in descriptors")]
