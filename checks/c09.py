"""C09: dump a tree as text, execute the text, compare compiled bytes."""
from explore import Family
from hidref import *
import histories as H, hidref, itertools, sut, trees as T
from usages import STANDARD
from c08 import arrays, unaligned, reports

ASSUMPTIONS = ["flag bits HID reserves (9 and up) and empty named arrays are outside the explored space",
               "the script is executed with the library of the working tree, as a module (running it as a program is C13's)"]


def same(desc, rec, what):
    a = [sut.compile_tree(desc, o) for o in (False, True)]
    text = sut.dump(desc)
    rec.step(3)
    rec.outcome(text)
    try:
        back = sut.run_script(text)
    except Exception as e:
        return "%s: script does not run: %s: %s\n%s" % (what, type(e).__name__, e, text[:1500])
    b = [sut.compile_tree(back, o) for o in (False, True)]
    for o, x, y in zip((False, True), a, b):
        if x != y:
            return "%s: script compiles (optimize=%s) to %s instead of %s\n%s" % (what, o, y.hex(" ")[:600], x.hex(" ")[:600], text[:1500])
    return None


def check_tree(tree, rec):
    rec.state(tree)
    return same(sut.build(tree), rec, "authored")


def check_codes(tree, rec):
    rec.state(tree)
    return same(sut.build(tree, True), rec, "authored with plain codes") or same(sut.build(tree, "mixed"), rec, "authored with some plain codes")


def check_extracted(items, rec):
    items = [tuple(i) for i in items]
    try:
        hidref.meaning_items(items)
    except hidref.IllFormed:
        rec.skip()
        return None
    rec.state(tuple(items))
    try:
        root = sut.extract(H.blob(items))
    except Exception:
        rec.skip()                      # extraction itself is C08's
        return None
    return same(root, rec, "decompiled")


D = sut.D


def registered():
    r = getattr(sut.Usage, 'reverse', None)
    return sorted(r) if isinstance(r, dict) else sorted(set(STANDARD.values()))


def check_usage(code, rec):
    """a constant in every role"""
    u = sut.Usage.lookup(code)
    rec.state(code)
    t = D.TopLevel(D.Collection(D.Collection.Application, u,
                                D.Value(D.Value.Input, u, 8, logicalMin=0, logicalMax=1),
                                D.Value(D.Value.Input, u, 8, logicalMin=0, namedArray=[u, sut.Usage.lookup(0x10030)]),
                                D.Value(D.Value.Input, None, 8, logicalMin=0, namedArray=sut.UsageRange(u, sut.Usage.lookup((code & ~0xffff) | min(0xffff, (code & 0xffff) + 3))))),
                   D.Collection(D.Collection.Application, code, D.Value(D.Value.Output, code, 8, logicalMin=0, logicalMax=1),
                                D.Value(D.Value.Output, code, 8, namedArray=[code, code ^ 2 or 5])))
    e = same(t, rec, "usage %#x" % code)
    if e:
        return e
    # the same through the decompiler, short and extended
    for us in ([(GLOBAL, UPAGE, code >> 16), (LOCAL, USAGE, code & 0xffff)], [(LOCAL, USAGE, code)]):
        items = us + [(MAIN, COLLECTION, 1), (GLOBAL, RSIZE, 8), (GLOBAL, RCOUNT, 1), (GLOBAL, LMAX, 1)] + us + [(MAIN, INPUT, 2)] + us + [(MAIN, INPUT, 0)] + [(MAIN, ENDCOLL, 0)]
        e = same(sut.extract(H.blob(items)), rec, "decompiled usage %#x" % code)
        if e:
            return e
    return None


def check_unit(case, rec):
    """a unit given by code, by name and read from a stream"""
    code, exp = case
    rec.state(case)
    named = sut.item.Unit(code).value
    for u in (code, named):
        e = same(T_unit(u, exp), rec, "unit %r" % (u,))
        if e:
            return e
    items = [(LOCAL, USAGE, 0x10005), (MAIN, COLLECTION, 1), (GLOBAL, UNIT, code), (GLOBAL, UEXP, exp), (GLOBAL, RSIZE, 8), (GLOBAL, RCOUNT, 1),
             (GLOBAL, LMAX, 1), (LOCAL, USAGE, 0x10030), (MAIN, INPUT, 2), (MAIN, ENDCOLL, 0)]
    return same(sut.extract(H.blob(items)), rec, "decompiled unit %#x" % code)


def T_unit(u, exp):
    return D.Collection(D.Collection.Application, sut.U(0x10005), D.Value(D.Value.Input, sut.U(0x10030), 8, logicalMin=0, logicalMax=1, unit=u, unitExponent=exp))


def unit_cases(thorough):
    dims = range(1, 7)
    codes = set()
    for s in range(16):
        for d in dims:
            for x in range(16):
                codes.add(s | (x << (4 * d)))
    for s in range(5):
        for a, b in itertools.combinations(dims, 2):
            for x in range(16) if thorough else (1, 2, 7, 8, 14, 15):
                for y in range(16) if thorough else (1, 2, 8, 15):
                    codes.add(s | x << (4 * a) | y << (4 * b))
    codes |= {0xf011, 0xf111, 0xe011, 0xe111, 0xe121, 0xf0d121, 0xffffffff, 0xd121}
    for c in sorted(codes):
        for e in (0, -3, 7):
            yield (c, e)


def check_flags(case, rec):
    way, flags, style = case
    rec.state(case)
    w = sut.WAY[way]
    if style == "int":
        f = flags
    elif style == "named":
        f = sut.item.Item.itemclass(0, way)(flags).value
    elif style == "or":
        f = 0
        for b in range(9):
            if flags >> b & 1:
                c = NAMES[b]
                f = c if isinstance(f, int) and f == 0 else f | c
        if isinstance(f, int) and f == 0:
            f = D.Value.Array
    mk = lambda **kw: D.Value(w, sut.U(0x10030), 8, flags=f, **kw)
    return same(D.Collection(D.Collection.Application, sut.U(0x10005), mk(logicalMin=0, logicalMax=1), mk(namedArray=[sut.U(0x70004), sut.U(0x70005)]),
                             mk(logicalMin=0, logicalMax=1, count=3, alignment=16)), rec, "flags %#x" % flags)


NAMES = [D.Value.Constant, D.Value.Variable, D.Value.Relative, D.Value.Wrap, D.Value.NonLinear, D.Value.NoPreferred, D.Value.NullState,
         D.Value.Volatile, D.Value.BufferedBytes]


def reserved(t):
    """flag bits HID does not define"""
    if t[0] == "val":
        return t[1].get("flags", 2) > 511
    return any(reserved(c) for c in t[-1]) if t[0] in ("top", "coll", "rep") else False


def families(tier):
    q = tier == "quick"
    f = [Family("usages", registered, check_usage, "every registered usage in 5 roles, authored and decompiled"),
         Family("other-usages", lambda: [p << 16 | u for p in list(range(0, 0x30)) + [0x59, 0x8c, 0x90, 0xf1d0, 0xff00, 0xff01, 0xffff]
                                          for u in (0, 1, 2, 0x7f, 0x80, 0xff, 0x100, 0xfffd, 0xfffe, 0xffff) if p << 16 | u], check_usage, "codes around page ends"),
         Family("units", lambda: unit_cases(not q), check_unit, "systems x dimensions x exponents, singly and in pairs"),
         Family("flags", lambda: ((w, x, s) for w in (8, 9, 11) for x in range(512) for s in ("int", "named", "or")), check_flags, "512 flags x 3 report types x 3 ways to write"),
         Family("sweeps", lambda: T.sweeps(150 if q else 300), check_tree, "one parameter over its range"),
         Family("nestings-%d" % (6 if q else 8), lambda: T.nestings(6 if q else 8), check_tree, "every nesting of reports, collections and values up to %d events" % (6 if q else 8)),
         Family("many-reports", T.many_reports, check_tree, "255 reports of different lengths in one tree"),
         Family("long", lambda: T.long_ones(300), check_tree, "a thousand values"),
         Family("physical", T.physical, check_tree, "two values with any logical next to any physical bounds, given or not"),
         Family("codes", lambda: itertools.chain(T.up_to(2, 1), T.up_to(1, 2), T.nestings(5), T.param_words(2, 1)), check_codes,
                "trees written with plain codes instead of constants: <=2 values, <=2 deviations; nestings; parameter words"),
         Family("wide", lambda: T.wide(q), check_tree, "wide values of each parameter next to every deviation"),
         Family("aliases", lambda: (t for t in T.aliases() if not reserved(t)), check_tree, "values that differ in any single bit, next to each other"),
         Family("devices", lambda: H.devices(not q), check_extracted, "whole devices, pairs of them, and every one-item edit of them"),
         Family("decompiled-aliases", lambda: (h for h in H.aliases() if all(k != MAIN or v < 512 for k, t, v in h)), check_extracted, "decompiled, values that differ in any single bit"),
         Family("decompiled-bounds", lambda: H.bounds(4 if q else 5), check_extracted, "decompiled, range bounds and indices in every order"),
         Family("param-words", lambda: T.param_words(2 if q else 3, 1 if q else 2), check_tree, "every word of values of each parameter, every pair"),
         Family("trees-3x2", lambda: T.up_to(3, 2), check_tree, "3 values, 14 structures, <=2 deviations"),
         Family("trees-1x3", lambda: T.up_to(1, 3, options=T.CORE if q else T.VALUE_OPTIONS), check_tree, "1 value, <=3 deviations"),
         Family("trees-2x2", lambda: T.trees(2, 2), check_tree, "2 values, 2 deviations"),
         Family("decompiled-2x2", lambda: H.up_to(2, 2), check_extracted, "decompiled, 2 data items, <=2 deviations"),
         Family("decompiled-arrays", lambda: arrays(q), check_extracted, "decompiled arrays: collections x flags x counts x usage lists x minima x ranges x neighbours x extras"),
         Family("decompiled-reports", lambda: reports(3 if q else 4), check_extracted, "decompiled report structures"),
         Family("decompiled-unaligned", unaligned, check_extracted, "decompiled unaligned fields"),
         Family("decompiled-sweeps", lambda: H.sweeps(60), check_extracted, "decompiled, one parameter over its range")]
    if not q:
        f.append(Family("trees-2x3-core", lambda: T.trees(2, 3, options=T.CORE), check_tree, "2 values, 3 deviations, core options"))
        f.append(Family("decompiled-3x2", lambda: H.segments(3, 2), check_extracted, "decompiled, 3 data items, 2 deviations"))
    return f
