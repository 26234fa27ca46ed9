"""C11: usage ranges against plain lists."""
from explore import Family
import itertools, sut

ASSUMPTIONS = ["a list of fewer than two usages may be refused or converted; refused means any exception",
               "indices are integers (slices are not offered)"]
D = sut.D
R = sut.UsageRange


def lists(lo, hi):
    return [sut.Usage.lookup(c) for c in range(lo, hi + 1)]


def same_elements(got, want):
    return [int(g) for g in got] == [int(w) for w in want] and [str(g) for g in got] == [str(w) for w in want]


def bounds(lo, hi, style):
    return (lo, hi) if style == "code" else (sut.U(lo), sut.U(hi))


def check_range(case, rec):
    lo, hi, style = case
    r = R(*bounds(lo, hi, style))
    want = lists(lo, hi)
    rec.state(case)
    n = len(want)
    rec.step(n)
    if len(r) != n:
        return "len is %d, not %d" % (len(r), n)
    for _ in range(2):
        if not same_elements(list(r), want):
            return "iteration gives %s" % [str(x) for x in r][:10]
    a, b = iter(r), iter(r)
    if n > 1 and (int(next(a)), int(next(b)), int(next(a))) != (lo, lo, lo + 1):
        return "two iterations are not independent"
    for i in range(-n - 3, n + 4):
        try:
            w = want[i]
        except IndexError:
            w = None
        try:
            g = r[i]
        except IndexError:
            g = None
        if (g is None) != (w is None) or (g is not None and not same_elements([g], [w])):
            return "[%d] is %s, list has %s" % (i, g, w)
    if not same_elements(list(reversed(r)), want[::-1]):
        return "reversed"
    for w in (want[0], want[-1]):
        if w not in r:
            return "%s not in range" % w
    for c in (lo - 1, hi + 1):
        if sut.U(c) in r:
            return "%#x in range" % c
    return None


def check_compile(case, rec):
    lo, hi, usage, lmin, count, style = case
    rec.state(case)
    res = []
    for na in (R(*bounds(lo, hi, style)), lists(lo, hi), list(range(lo, hi + 1))):
        t = D.Collection(D.Collection.Application, sut.U(0x10005),
                         D.Value(D.Value.Input, sut.U(0x90001), 1, logicalMin=0, logicalMax=1),
                         D.Value(D.Value.Input, sut.U(usage), 8, logicalMin=lmin, namedArray=na, count=count),
                         D.Value(D.Value.Input, sut.U(0x90002), 1, logicalMin=0, logicalMax=1))
        res.append([sut.compile_tree(t, o) for o in (False, True, False)])
        rec.step(3)
    if res[0] != res[1]:
        return "range compiles to %s, list to %s" % (res[0][1].hex(" "), res[1][1].hex(" "))
    if res[1] != res[2]:
        return "list of usages compiles to %s, list of their codes to %s" % (res[1][1].hex(" "), res[2][1].hex(" "))
    return None


def check_from(case, rec):
    codes, style = case
    rec.state(case)
    rec.step()
    arr = [sut.U(c) for c in codes] if style == "usage" else list(codes)
    if style == "tuple":
        arr = tuple(sut.U(c) for c in codes)
    consecutive = all(b == a + 1 for a, b in zip(codes, codes[1:]))
    try:
        r = R.from_array(arr)
    except Exception as e:
        if consecutive and len(codes) >= 2:
            return "%s refused: %s" % ([hex(c) for c in codes], e)
        return None
    if not consecutive or len(codes) < 2:
        return "%s accepted as %s" % ([hex(c) for c in codes], r)
    if [int(x) for x in r] != list(codes) or len(r) != len(codes):
        return "%s became %s" % ([hex(c) for c in codes], r)
    return None


BASES = [0x10001, 0x1002e, 0x1003d, 0x70000, 0x700a0, 0x700dc, 0x90000, 0x9007e, 0x900fe, 0xc0080, 0xd0022, 0x1fffd, 0x8fffe, 0xff000000, 0x1234fff0, 1, 0xfffffff0]


def ranges(n):
    for b in BASES:
        for k in list(range(1, n)) + [128, 255, 256, 257, 300]:
            if b + k - 1 <= 0xffffffff - 4:
                for s in ("usage", "code"):
                    yield (b, b + k - 1, s)


def long_ranges():
    for lo, hi in ((0x90001, 0x903e8), (0x70000, 0x70fff), (0x90001, 0x9ffff), (0x90000, 0x9ffff), (0x1fff0, 0x3000f), (0xff000000, 0xff00ffff)):
        for s in ("usage", "code"):
            yield (lo, hi, s)


def compiles(n):
    for b in BASES:
        for k in n:
            if b + k - 1 > 0xffffffff - 4:
                continue
            for u in (None, 0xc0080, 0x10030):
                for lmin in (0, 1, -1):
                    for c in (1, 6):
                        for s in ("usage", "code"):
                            yield (b, b + k - 1, u, lmin, c, s)


def arrays(n):
    alpha = [0x90001, 0x90002, 0x90003, 0x90004, 0x90006, 0x10030, 0x10031]
    for d in range(0, n + 1):
        for t in itertools.product(alpha, repeat=d):
            for s in ("usage", "code", "tuple"):
                yield (t, s)
    for k in list(range(2, 60)) + [255, 256, 300]:                 # one flaw, anywhere in a long run
        run = tuple(range(0x90001, 0x90001 + k))
        yield (run, "usage")
        for i in range(k) if k < 40 else (0, 1, k // 2, k - 2, k - 1):
            for f in (run[:i] + run[i + 1:], run[:i] + (run[i] + 1,) + run[i + 1:], run[:i] + (run[i],) + run[i:], run[:i] + (run[i] + 0x10000,) + run[i + 1:]):
                yield (f, "usage")
        yield (run[::-1], "usage")
        yield (tuple(0x90001 + 2 * i for i in range(k)), "usage")
    for b in (0x1fffe, 0xffffffff - 5, 0):
        yield (tuple(range(b, b + 4)), "code")


def families(tier):
    q = tier == "quick"
    return [Family("api", lambda: ranges(48 if q else 256), check_range, "%d bases x lengths 1..%d and up to 300 x all indices" % (len(BASES), 47 if q else 255)),
            Family("long", long_ranges, check_range, "ranges of up to 131104 usages x all indices"),
            Family("compiled", lambda: compiles((1, 2, 3, 4, 7, 40, 256, 300) if q else tuple(range(1, 20)) + (255, 256, 257, 300)), check_compile,
                   "bases x lengths x usage x minimum x count"),
            Family("from-array", lambda: arrays(4 if q else 6), check_from, "all lists of length <=%d over 7 codes; long runs with one flaw" % (4 if q else 6))]
