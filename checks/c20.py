"""C20: named constants compute like their codes."""
import itertools, operator
from explore import Family
import sut
from usages import STANDARD, namespace

ASSUMPTIONS = ["operations the constants support: int, ==, !=, < between constants or with an integer on the right, sorting, hashing, ~, |, & on either side, "
               "+, *, << and >> with the constant on the left"]
D = sut.D
NS = namespace()
NS.update(Value=D.Value, Collection=D.Collection, Unit=D.Unit)
FLAGS = ["Value." + n for n in ("Input Output Feature Data Constant Array Variable Absolute Relative NoWrap Wrap Linear NonLinear PreferredState NoPreferred NoNullPosition "
                                "NullState NonVolatile Volatile BitField BufferedBytes").split()]
VALUE = dict(zip(FLAGS, (8, 9, 11, 0, 1, 0, 2, 0, 4, 0, 8, 0, 16, 0, 32, 0, 64, 0, 128, 0, 256)))
VALUE.update(("Collection." + n, i) for i, n in enumerate("Physical Application Logical Report NamedArray UsageSwitch UsageModifier".split()))
VALUE.update(("Unit." + n, i + 1) for i, n in enumerate("SILinear SIRotation EnglishLinear EnglishRotation".split()))
USAGES = [n for i, n in enumerate(sorted(STANDARD)) if i % 31 == 0]
VALUE.update((n, STANDARD[n]) for n in STANDARD)
CORE = [n for n in VALUE if n not in STANDARD] + USAGES
BOTH = [("|", operator.or_), ("&", operator.and_)]
LEFT = [("+", operator.add), ("*", operator.mul)]


def num(x):
    return int(x)


def check_unary(name, rec):
    x, v = eval(name, NS), VALUE[name]
    rec.state(name)
    rec.step(6)
    if int(x) != v:
        return "%s is %d, not %d" % (name, int(x), v)
    if num(~x) != ~v:
        return "~%s is %s" % (name, ~x)
    if hash(x) != hash(v) or {v: 1}.get(x) != 1 or {x: 1}.get(v) != 1:
        return "%s and %d are different keys" % (name, v)
    if not x == v or not v == x or x != v or v != x or x == v + 1 or v + 1 == x or not x != v + 1:
        return "%s compares wrongly with its code" % name
    if "%d" % x != str(v):
        return "%s formats as %d" % (name, x)
    for n in range(0, 33):
        if num(x << n) != v << n or num(x >> n) != v >> n:
            return "%s shifted by %d" % (name, n)
    return None


def check_pair(case, rec):
    a, b = case
    x, y, v, w = eval(a, NS), eval(b, NS), VALUE[a], VALUE[b]
    rec.state(case)
    rec.step(12)
    for n, op in BOTH + LEFT:
        if num(op(x, y)) != op(v, w) or num(op(x, w)) != op(v, w):
            return "%s %s %s gives %s and %s" % (a, n, b, op(x, y), op(x, w))
    for n, op in BOTH:
        if num(op(v, y)) != op(v, w):
            return "%d %s %s gives %s" % (v, n, b, op(v, y))
    if (x == y) != (v == w) or (x != y) != (v != w) or (x < y) != (v < w) or (x < w) != (v < w) or (x > y) != (v > w):
        return "%s and %s compare unlike their codes" % (a, b)
    if [num(i) for i in sorted([x, y])] != sorted([v, w]) or num(max(x, y)) != max(v, w) or num(min(x, y)) != min(v, w):
        return "%s and %s sort unlike their codes" % (a, b)
    return None


OTHERS = ("'1'", "''", "None", "1.5", "2.0", "0.0", "1j", "[1]", "(1,)", "{}", "set()", "range(2)", "b'a'", "object()", "int")
REFUSED = [("|", operator.or_), ("&", operator.and_), ("+", operator.add), ("*", operator.mul), ("<<", operator.lshift), (">>", operator.rshift)]


def check_refused(case, rec):
    """anything that is neither a constant nor an integer"""
    name, other = case
    rec.state(case)
    x, y = eval(name, NS), eval(other)
    for n, op, a, b in [(n, op, x, y) for n, op in REFUSED] + [(n, op, y, x) for n, op in BOTH]:
        rec.step()
        try:
            r = op(a, b)
        except Exception:
            continue
        return "%s of %s and %s gives %r" % (n, name, other, r)
    return None


def check_mask(case, rec):
    """flag sets: built, and taken from"""
    rec.state(case)
    rec.step(2)
    acc = want = 0
    for n in case:
        acc, want = acc | eval(n, NS), want | VALUE[n]
    for n in case + ("Value.Variable", "Value.Wrap"):
        if bool(acc & eval(n, NS)) != bool(want & VALUE[n]):
            return "%s & %s" % ("|".join(case), n)
        if num(acc & ~eval(n, NS)) != want & ~VALUE[n]:
            return "%s without %s is %d" % ("|".join(case), n, num(acc & ~eval(n, NS)))
    return None if num(acc) == want else "%s is %d" % ("|".join(case), num(acc))


EDGES = (0, 1, -1, 2, -2, 3, -3, 5, 127, 128, -128, -129, 255, 256, -256, 65535, 65536, -65536, (1 << 31) - 1, 1 << 31, -(1 << 31), -(1 << 31) - 1, (1 << 32) - 1, 1 << 32, -(1 << 32), 1 << 63, 1 << 70, -(1 << 70))


def check_own(case, rec):
    """a constant (of one's own, or of the library) and any integer, negative ones included"""
    a, w = case
    x, v = (eval(a, NS), VALUE[a]) if isinstance(a, str) else (sut.item.NamedConstant("Own", a), a)
    y = sut.item.NamedConstant("Other", w)
    rec.state(case)
    for n, op in BOTH + LEFT:
        rec.step(2)
        if num(op(x, y)) != op(v, w) or num(op(x, w)) != op(v, w):
            return "%s %s %s gives %s and %s" % (a, n, w, op(x, y), op(x, w))
    for n, op in BOTH:
        rec.step(2)
        if num(op(v, y)) != op(v, w) or num(op(w, x)) != op(w, v):
            return "%s %s %s with the constant on the right gives %s and %s" % (a, n, w, op(v, y), op(w, x))
    if num(~x) != ~v or (x == w) != (v == w) or (w == x) != (v == w) or (x != y) != (v != w) or (x < y) != (v < w) or (x < w) != (v < w) or (x > y) != (v > w):
        return "%s and %s compare unlike their codes" % (a, w)
    if hash(x) != hash(v) or [num(i) for i in sorted([x, y])] != sorted([v, w]):
        return "%s and %s sort or hash unlike their codes" % (a, w)
    if 0 <= w <= 256:
        if num(x << w) != v << w or num(x >> w) != v >> w or num(x << y) != v << w or num(x >> y) != v >> w:
            return "%s shifted by %s" % (a, w)
    return None


def families(tier):
    q = tier == "quick"
    bits = [n for n in FLAGS if VALUE[n] and n not in ("Value.Input", "Value.Output", "Value.Feature")]
    return [Family("unary", lambda: sorted(VALUE), check_unary, "all %d constants" % len(VALUE)),
            Family("pairs", lambda: itertools.product(sorted(VALUE), CORE if q else sorted(VALUE)), check_pair, "pairs of constants x operators x sides"),
            Family("integers", lambda: itertools.product(EDGES + tuple(CORE if q else sorted(VALUE)), EDGES), check_own, "own and other constants x %d integers, negative and beyond 32 bits" % len(EDGES)),
            Family("others", lambda: itertools.product(CORE if q else sorted(VALUE), OTHERS), check_refused, "constants x operators x operands that are no numbers"),
            Family("flags", lambda: (c for k in range(1, 10) for c in itertools.combinations(bits, k)), check_mask, "every set of flags")]
