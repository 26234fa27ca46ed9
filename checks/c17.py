"""C17: declarations that HID items cannot carry are refused, the last ones that fit are not."""
import itertools
from explore import Family
from hidref import *
import hidref, sut

ASSUMPTIONS = ["refused: building or compiling the tree raises, whatever the exception",
               "only parameters that reach an item are judged: bounds of constant values, physical bounds of named arrays and the like are not",
               "alignments and Align boundaries are no item values and not judged"]
D, U = sut.D, sut.U
S = (-(1 << 31), (1 << 31) - 1)
N = (0, (1 << 32) - 1)
# parameter -> (range, item it is carried by)
PARAM = {
    "logicalMin": (S, (GLOBAL, LMIN)), "logicalMax": (S, (GLOBAL, LMAX)), "physicalMin": (S, (GLOBAL, PMIN)), "physicalMax": (S, (GLOBAL, PMAX)),
    "unitExponent": (S, (GLOBAL, UEXP)), "unit": (N, (GLOBAL, UNIT)), "size": (N, (GLOBAL, RSIZE)), "count": (N, (GLOBAL, RCOUNT)),
    "designator": (N, (LOCAL, DIDX)), "string": (N, (LOCAL, SIDX)), "usage": (N, (LOCAL, USAGE)), "named-first": (N, (LOCAL, USAGE)),
    "named-last": (N, (LOCAL, USAGE)), "range-end": (N, (LOCAL, USAGE)), "flags": (N, (MAIN, INPUT)), "collection-usage": (N, (LOCAL, USAGE)),
    "kind": (N, (MAIN, COLLECTION)), "padding": (N, (GLOBAL, RSIZE)), "report": ((0, 255), (GLOBAL, RID)), "named-minimum": (S, (GLOBAL, LMIN)),
    "root-kind": (N, (MAIN, COLLECTION)), "array-usage": (N, (LOCAL, USAGE)),
}
NATURAL = ("unit", "usage", "named-first", "named-last", "array-usage", "flags", "collection-usage", "kind", "root-kind")


def styles(p):
    """numbers, and named constants where authors use them"""
    return ("int", "named") if p in NATURAL else ("int",)


def wrap(v, style):
    return v if style == "int" else sut.item.NamedConstant("AuthorsOwn", v)


def plain(i, way=None):
    return D.Value(way or D.Value.Input, U(0x10030 + i), 8, logicalMin=0, logicalMax=1)


def descriptor(param, v, pos, way, style, shape):
    w = sut.WAY[way]
    x = wrap(v, style)
    kw = dict(logicalMin=0, logicalMax=1)
    usage, size = U(0x10033), 16
    if param in ("logicalMin", "logicalMax", "physicalMin", "physicalMax", "unit", "unitExponent", "designator", "string", "count", "flags"):
        kw[param] = x
        if param == "flags" and style == "int":
            kw["flags"] = v
    elif param == "size":
        size = v
    elif param == "usage":
        usage = x
    elif param in ("named-first", "named-last", "array-usage"):
        kw.pop("logicalMax")
        kw["namedArray"] = {"named-first": [x, U(0x70004)], "named-last": [U(0x70004), U(0x70005), x], "array-usage": [U(0x70004), U(0x70005)]}[param]
        if param == "array-usage":
            usage = x
    elif param == "range-end":
        kw.pop("logicalMax")
        kw["namedArray"] = sut.UsageRange(v - 2, v)
    elif param == "named-minimum":
        kw = dict(logicalMin=v, namedArray=[U(0x70004)])
    odd = D.Padding(w, v) if param == "padding" else D.Value(w, usage, size, **kw)
    vals = [plain(i, w) for i in range(2)]
    vals.insert(pos, odd)
    if param == "collection-usage":
        return D.TopLevel(D.Collection(D.Collection.Application, U(0x10005), D.Collection(D.Collection.Logical, x, *vals)))
    if param == "kind":
        return D.TopLevel(D.Collection(D.Collection.Application, U(0x10005), D.Collection(x, U(0x10001), *vals)))
    if param == "root-kind":
        return D.Collection(x, U(0x10001), *vals)
    if param == "report":
        inner = D.Report(v, *vals)
        return D.TopLevel(D.Collection(D.Collection.Application, U(0x10005), D.Report(1, plain(5), inner) if shape == "report" else inner))
    c = D.Collection(D.Collection.Logical, U(0x10001), *vals) if shape == "deep" else None
    if shape == "report":
        return D.Collection(D.Collection.Application, U(0x10005), D.Report(3, *vals))
    return D.TopLevel(D.Collection(D.Collection.Application, U(0x10005), *([c] if c else vals)))


def check_refused(case, rec):
    rec.state(case)
    for opt in (False, True):
        rec.step()
        try:
            b = sut.compile_tree(descriptor(*case), opt)
        except Exception:
            continue
        return "%s = %s compiles (optimize=%s) to %s" % (case[0], case[1], opt, b.hex(" "))
    return None


def check_accepted(case, rec):
    rec.state(case)
    param, v, way = case[0], case[1], case[3]
    b = sut.compile_tree(descriptor(*case), False)
    rec.step()
    kind, tag = PARAM[param][1]
    if (kind, tag) == (MAIN, INPUT):
        tag = way
    if param in ("report", "count", "size", "padding", "designator", "string", "usage", "array-usage") and not v:
        return None                   # zero: none
    if param in ("physicalMin", "physicalMax") and v in (0, 1):
        return None                   # the logical bounds
    if (kind, tag, v) not in [i[:3] for i in hidref.decode(b)]:
        return "%s = %d is not in %s" % (param, v, b.hex(" "))
    if param != "count":              # a neighbour may share its item, with a sum that does not fit
        sut.compile_tree(descriptor(*case), True)
        rec.step()
    return None


ARRAY = dict(namedArray=[0x70004, 0x70005])
CONTEXT = {
    "named": ARRAY, "named-usage": dict(ARRAY, usage=0x10030), "named-range": dict(namedArray=("range", 0x70004, 0x70010)), "array": dict(flags=0), "relative": dict(flags=6),
    "buffered": dict(flags=0x102), "null": dict(flags=0x42), "constant": dict(flags=3), "physical": dict(physicalMin=-5, physicalMax=5), "counted": dict(count=3), "unaligned": dict(alignment=1),
    "rich": dict(unit=0x11, unitExponent=-2, string=4, designator=5), "no-usage": dict(usage=None), "negative": dict(logicalMin=-1), "vendor": dict(usage=0xff000001), "wide": dict(size=32),
}


def reaches(param, ctx):
    """the parameter gets into an item there"""
    if ctx == "constant":
        return param in ("size", "count", "flags")
    if ctx.startswith("named"):
        return param in ("size", "count", "flags", "logicalMin", "unit", "unitExponent", "string", "designator") + (("usage",) if ctx == "named-usage" else ())
    return param in ("size", "count", "flags", "logicalMin", "logicalMax", "physicalMin", "physicalMax", "unit", "unitExponent", "string", "designator", "usage")


def check_context(case, rec):
    """a bad parameter next to each other kind of parameter"""
    param, v, ctx, where = case
    rec.state(case)
    kw = dict(logicalMin=0, logicalMax=1, usage=0x10033, size=8)
    kw.update(CONTEXT[ctx])
    if "namedArray" in kw:
        kw.pop("logicalMax")
        if ctx != "named-usage":
            kw["usage"] = None
        a = kw["namedArray"]
        kw["namedArray"] = sut.UsageRange(a[1], a[2]) if a[0] == "range" else [U(i) for i in a]
    kw[param] = v
    for opt in (False, True):
        rec.step()
        try:
            odd = D.Value(D.Value.Input, kw["usage"], kw["size"], **{k: x for k, x in kw.items() if k not in ("usage", "size")})
            vals = {"alone": [odd], "first": [odd, plain(0)], "last": [plain(0), odd], "report": [D.Report(3, plain(0), odd)], "deep": [D.Collection(D.Collection.Logical, U(0x10001), odd), plain(1)]}[where]
            b = sut.compile_tree(D.Collection(D.Collection.Application, U(0x10005), *vals), opt)
        except Exception:
            continue
        return "%s = %s with %s compiles (optimize=%s) to %s" % (param, v, ctx, opt, b.hex(" "))
    return None


def contexts(q):
    fractions = ("logicalMin", "logicalMax", "physicalMin", "physicalMax", "unitExponent", "size", "count", "string", "designator")
    for ctx in CONTEXT:
        for param in PARAM:
            if not reaches(param, ctx):
                continue
            lo, hi = PARAM[param][0]
            vals = [lo - 1, lo - 2, lo - 255, hi + 1, hi + 2, hi + 256, -(1 << 33), -(1 << 40) + 1, 1 << 33, 1 << 40, 1 << 64] + ([1.5, 2.5, 254.25] if param in fractions else [])
            for v in vals if q else vals + outside(lo, hi, True)[::3]:
                for where in ("alone", "first", "last", "report", "deep"):
                    if not q or where in ("alone", "last"):
                        yield (param, v, ctx, where)


def outside(lo, hi, q):
    vals = set()
    for d in range(1, 4 if q else 40):
        vals |= {lo - d, hi + d}
    for b in range(7, 70):
        for d in (-1, 0, 1, 0x10030):
            vals |= {(1 << b) + d, -(1 << b) + d, -(1 << b) - d}
    for n in (1, 2, 255, 256, 257):
        vals |= {n * (hi - lo + 1) + hi, lo - n * (hi - lo + 1), n << 32, (n << 32) + 1}
    return sorted((v for v in vals if not lo <= v <= hi), key=abs)


def refused(q):
    for p, ((lo, hi), _) in PARAM.items():
        for v in outside(lo, hi, q):
            for pos in (0, 1, 2):
                for way in (8, 9, 11):
                    for shape in ("flat", "deep", "report"):
                        for style in styles(p):
                            if q and (pos + way + len(shape)) % 3:
                                continue
                            yield (p, v, pos, way, style, shape)


def reports(top):
    for r in list(range(-top, 0)) + list(range(256, top)):
        for way in (8, 9, 11):
            yield ("report", r, r % 3, way, "int", ("flat", "report")[r % 2])


def accepted(q):
    for p, ((lo, hi), _) in PARAM.items():
        for v in sorted({lo, lo + 1, hi - 1, hi, 0, 1, 127, 128, 255, (lo + hi) // 2}):
            if not lo <= v <= hi or p == "report" and v == 0 or p == "range-end" and v < 2 or p in ("flags",) and v & 1:
                continue
            if p in ("named-first", "named-last", "collection-usage", "range-end") and v < 0x10002:
                v += 0x10002          # a short code is no usage of its own
            for pos in (0, 1, 2):
                for way in (8, 9, 11):
                    for style in styles(p):
                        yield (p, v, pos, way, style, "flat")


def fractions():
    """numbers that are no integers, inside the range"""
    for p, ((lo, hi), _) in PARAM.items():
        if p in NATURAL or p == "range-end":
            continue                  # constants: codes and names
        for v in (0.5, 1.5, 2.5, 7.25, 8.5, 100.75, 254.5, -0.5, -1.5, -127.5, 32767.5, 65535.5):
            if lo <= v <= hi and (v > 1 or p not in ("designator", "string")):
                for pos in (0, 1, 2):
                    for way in (8, 9, 11):
                        for shape in ("flat", "deep", "report"):
                            yield (p, v, pos, way, "int", shape)


def check_bounds(case, rec):
    """a value with no logical bounds and no named array, unless constant"""
    way, flags, lo, hi, named, size = case
    rec.state(case)
    rec.step()
    kw = dict(flags=flags)
    if lo != "default":
        kw["logicalMin"] = lo
    if hi != "default":
        kw["logicalMax"] = hi
    if named != "default":
        kw["namedArray"] = named and [U(0x70004), U(0x70005)]
    for opt in (False, True):
        try:
            b = sut.compile_tree(D.Collection(D.Collection.Application, U(0x10005), plain(0), D.Value(sut.WAY[way], U(0x10030), size, **kw)), opt)
        except Exception:
            b = None
        if flags & 1 and b is None:
            return "a constant value needs no bounds"
        if not flags & 1 and b is not None:
            return "no logical range and no named array, but compiles (optimize=%s) to %s" % (opt, b.hex(" "))
    return None


def bounds():
    for way in (8, 9, 11):
        for flags in range(512):
            for lo in ("default", None, 0, 1, -5):
                for hi in ("default", None, 1):
                    if hi == 1 and lo is not None:
                        continue
                    for named in ("default", None, ()):
                        for size in (1, 8):
                            if flags & 1 and lo is None:
                                continue
                            yield (way, flags, lo, hi, named, size)


def families(tier):
    q = tier == "quick"
    return [Family("contexts", lambda: contexts(q), check_context, "parameters out of range x other kinds of parameters of the same value"),
            Family("refused", lambda: refused(q), check_refused, "%d parameters x values just and far outside their range x positions x report types x structures" % len(PARAM)),
            Family("report-ids", lambda: reports(1100 if q else 5000), check_refused, "report IDs -%d..-1 and 256..%d" % ((1100, 1099) if q else (5000, 4999))),
            Family("accepted", lambda: accepted(q), check_accepted, "the same parameters at both ends of their range"),
            Family("fractions", fractions, check_refused, "the parameters that are numbers x fractions inside their range"),
            Family("bounds", bounds, check_bounds, "values without logical bounds: 3 report types x 512 flags x ways to leave them out")]
