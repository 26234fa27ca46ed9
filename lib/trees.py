"""Descriptor trees (see treespec): every tree within a number of deviations from a plain one,
plus one-parameter sweeps."""
import itertools

A = 0x10005
PLAIN = ("plain",)


def default(i):
    return dict(way=8, usage=0x10030 + i, size=8, lmin=0, lmax=1)


VALUE_OPTIONS = [("way", w) for w in (9, 11)] + \
    [("usage", u) for u in (None, 0x90001, 0x90002, 0x10030, 0x10033, 0x70000, 0xff000001, 0xc0223, 0x2000e1, 0x1ffff, 0x20000)] + \
    [("size", s) for s in (1, 4, 12, 16, 32)] + \
    [("flags", f) for f in (6, 0, 4, 0x102, 0x100, 0x82, 1, 3, 0x42, 0x5a)] + \
    [("log", r) for r in ((-127, 127), (0, 255), (1, 1), (0, 65535), (-1, 1), (0, 0), (-2147483648, 2147483647))] + \
    [("phys", r) for r in ((0, 100), (0, 1), (-5, 5), (None, 100), (3, None), (1, 1), (0, 0))] + \
    [("named", n) for n in ((0x70004, 0x70005, 0x70006), ("range", 0x70000, 0x70003), (0x90001,), (0x70010, 0x70004),
                            (0x70004, 0x70005), (0x90001, 0x10030), (0x1ffff, 0x20000, 0x20001))] + \
    [("unit", u) for u in (0x11, 0xf011)] + [("exp", e) for e in (-2, 3)] + \
    [("desig", d) for d in (1, 2)] + [("string", s) for s in (1, 2)] + \
    [("count", c) for c in (0, 2, 5)] + [("align", a) for a in (1, 4, 16, 32, 3)] + \
    [("pre", p) for p in (("pad", 8, 8), ("pad", 8, 3), ("align", 8, 16), ("pad", 9, 8), ("align", 8, 8),
                          ("coll", 2, 0x10001, ()), ("coll", 0, None, ()))]

# one or two of each: for deeper combinations
CORE = [o for o in VALUE_OPTIONS if o in (
    ("way", 9), ("usage", None), ("usage", 0x90001), ("usage", 0x10033), ("usage", 0xff000001), ("size", 1), ("size", 12), ("flags", 6),
    ("flags", 0), ("flags", 0x102), ("flags", 1), ("log", (-127, 127)), ("log", (0, 255)), ("phys", (0, 100)), ("phys", (-5, 5)),
    ("named", (0x70004, 0x70005, 0x70006)), ("named", ("range", 0x70000, 0x70003)), ("named", (0x90001,)), ("unit", 0x11), ("exp", -2),
    ("desig", 1), ("desig", 2), ("string", 1), ("string", 2), ("count", 2), ("align", 1), ("align", 16), ("pre", ("pad", 8, 3)),
    ("pre", ("align", 8, 16)), ("pre", ("coll", 2, 0x10001, ())))]


def value(i, devs):
    d = default(i)
    pre = []
    for k, x in devs:
        if k == "log":
            d["lmin"], d["lmax"] = x
        elif k == "phys":
            for kk, vv in zip(("pmin", "pmax"), x):
                if vv is not None:
                    d[kk] = vv
        elif k == "named":
            d["named"] = x
            del d["lmax"]
        elif k == "pre":
            pre.append(x)
        else:
            d[k] = x
    if "named" in d:
        d.pop("lmax", None)
    return tuple(pre) + (("val", d),)


C = lambda kind, usage, *kids: ("coll", kind, usage, tuple(itertools.chain(*[k if isinstance(k[0], tuple) else (k,) for k in kids if k])))
R = lambda rid, *kids: ("rep", rid, tuple(itertools.chain(*[k if isinstance(k[0], tuple) else (k,) for k in kids if k])))

TEMPLATES = {
    "flat": lambda a, b, c: ("top", (C(1, A, a, b, c),)),
    "root": lambda a, b, c: C(1, A, a, b, c),
    "phys": lambda a, b, c: ("top", (C(1, A, C(0, 0x10001, a, b), c),)),
    "nest": lambda a, b, c: ("top", (C(1, A, a, C(2, 0x90001, b, C(2, 0x10030, c))),)),
    "nousage": lambda a, b, c: ("top", (C(1, None, a, C(2, None, b), c),)),
    "tops": lambda a, b, c: ("top", (C(1, A, a), C(1, 0xc0001, b), C(1, A, c))),
    "r112": lambda a, b, c: ("top", (C(1, A, R(1, a, b), R(2, c)),)),
    "r121": lambda a, b, c: ("top", (C(1, A, R(1, a), R(2, b), R(1, c)),)),
    "rnest": lambda a, b, c: ("top", (C(1, A, R(1, a, R(2, b), c)),)),
    "rnest3": lambda a, b, c: ("top", (C(1, A, R(7, a, C(2, 0x10001, R(255, b)), c)),)),
    "rout": lambda a, b, c: ("top", (R(1, C(1, A, a, C(2, 0x10001, b))), R(2, C(1, A, c)))),
    "rcoll": lambda a, b, c: C(1, A, R(1, C(2, 0x10001, a, b)), R(2, C(2, 0x10001, c))),
    "r11": lambda a, b, c: C(1, A, R(3, a), R(3, b), R(3, c)),
    "vendor": lambda a, b, c: C(0x80, 0xff000001, a, C(0xff, 0xff000002, b), C(6, 0xff010003, c)),
}


def trees(n, k, options=VALUE_OPTIONS, templates=TEMPLATES):
    """Every tree of n values (n <= 3) with exactly k deviations."""
    names = list(templates)
    choices = [(-1, "template", t) for t in names[1:]] + [(i, s, x) for i in range(n) for s, x in options]
    for combo in itertools.combinations(choices, k):
        if len({(i, s) for i, s, _ in combo}) < k:
            continue
        t = names[0]
        for i, s, x in combo:
            if i < 0:
                t = x
        vals = [value(i, [(s, x) for j, s, x in combo if j == i]) for i in range(n)] + [()] * (3 - n)
        yield templates[t](*vals)


def up_to(n, k, **kw):
    for kk in range(k + 1):
        yield from trees(n, kk, **kw)


def V(**kw):
    d = dict(way=8, usage=0x10030, size=8, lmin=0, lmax=1)
    d.update(kw)
    if "named" in d:
        d.pop("lmax")
    return ("val", d)


def top(*kids):
    return ("top", (("coll", 1, A, tuple(kids)),))


def sweeps(big=300, wide=65536):
    for n in range(0, big + 1):
        yield top(*[V(usage=0x90001 + i, size=1) for i in range(n)])
    for n in range(1, 40):
        yield top(*[V(usage=0x10030 + 2 * i, size=1, way=(8, 9, 11)[i % 3]) for i in range(n)])
    for n in list(range(0, 130)) + [n for n in (255, 256, 257, 1000, 65535, 65536) if n <= wide]:
        yield top(V(count=n), V(usage=0x10031))
    for r in range(1, 256):
        yield ("top", (("coll", 1, A, (("rep", r, (V(),)), ("rep", 256 - r, (V(usage=0x10031),)), ("rep", r, (V(usage=0x10032),)))),))
    for f in range(512):
        yield top(V(), V(usage=0x10031, flags=f), V(usage=0x10032, flags=f), V(usage=0x10033))
        yield top(V(flags=f, named=(0x70004, 0x70005)), V(usage=None, flags=f, named=("range", 0x70004, 0x70009)), V())
    edges = sorted({s * ((1 << b) + d) for b in range(31) for d in (-1, 0, 1) for s in (1, -1)} | {-(1 << 31), (1 << 31) - 1})
    for v in edges:
        if -(1 << 31) <= v < (1 << 31):
            yield top(V(), V(usage=0x10031, lmin=v, size=32), V(usage=0x10032, size=32))
            yield top(V(), V(usage=0x10031, lmax=v, size=32), V(usage=0x10032, size=32))
            yield top(V(), V(usage=0x10031, pmin=v), V(usage=0x10032), V(usage=0x10033, pmax=v))
            yield top(V(), V(usage=0x10031, exp=v), V(usage=0x10032))
    for b in range(32):
        for d in (0, 1):
            v = (1 << b) + d
            yield top(V(unit=v), V(usage=0x10031))
            yield top(V(string=v), V(usage=0x10031), V(desig=v), V(usage=0x10032, string=v, desig=1))
            yield top(V(usage=v), V(usage=v + 1), V(usage=0x10030))
    for k in range(256):
        yield top(("coll", k, 0x10001, (V(),)), V(usage=0x10031))
    for d in range(1, 40):
        t = V()
        for i in range(d):
            t = ("coll", 2, 0x10001 + i, (t, V(usage=0x10031)))
        yield top(t)
    for s in range(1, 65):
        yield top(V(size=s), V(usage=0x10031, size=65 - s), V(usage=0x10032))
    for n in list(range(1, 40)) + [255, 256, 257, 300]:
        for lo in (0, 1, 5, -1):
            yield top(V(usage=None, lmin=lo, named=("range", 0x70000, 0x70000 + n - 1), size=16),
                      V(lmin=lo, usage=0x50032, named=tuple(0x90001 + 2 * i for i in range(n))), V(usage=0x10031))
    for n in range(1, 7):                                   # runs of usages with one break, all positions
        for brk in range(n + 1):
            us = [0x90001 + i + (3 if i >= brk else 0) for i in range(n)]
            yield top(*[V(usage=u, size=1) for u in us])
            yield top(V(usage=None, named=tuple(us)))
    for n in range(1, 5):                                   # strings and designators next to each other
        for ss in itertools.product((0, 1, 2), repeat=n):
            for what in ("string", "desig"):
                yield top(*[V(usage=0x10030 + i, **({what: s} if s else {})) for i, s in enumerate(ss)])
    for run in (1, 2, 3, 4, 5):
        for start in (1, 2, 254, 255, 256, 65533):
            yield top(*[V(usage=0x10030 + i, string=start + i) for i in range(run)])
            yield top(*[V(usage=0x10030 + i, desig=start + i) for i in range(run)])


PARAM = {
    "way": (8, 9, 11), "usage": (0x10030, 0x90001, None, 0xff000001), "size": (8, 1, 3, 16), "flags": (2, 6, 0, 0x102, 0x82),
    "lmin": (0, 1, -1, -200), "lmax": (1, 5, 255, 65535), "pmin": (None, 0, 1, -5), "pmax": (None, 0, 1, 5, 300),
    "unit": (0, 0x11, 0xf011, 0x1000011), "exp": (0, 1, -2, 14), "desig": (0, 1, 2, 3), "string": (0, 1, 2, 3), "count": (1, 2, 0, 5),
    "align": (None, 1, 3, 16), "named": (None, (0x70004, 0x70005, 0x70006), ("range", 0x70000, 0x70003), (0x90001,), (0x70004, 0x70006)),
}


def make(own, **kw):
    d = dict(way=8, usage=own, size=8, lmin=0, lmax=1)
    d.update({k: v for k, v in kw.items() if v is not None or k == "usage"})
    if d.get("named"):
        d.pop("lmax")
    return ("val", d)


def param_words(depth, pairs=2):
    """Every word of values of each parameter over successive values; every pair of parameters over two successive values."""
    for p, vals in PARAM.items():
        for w in itertools.product(vals, repeat=depth):
            yield top(*[make(0x10030 + i, **{p: v}) for i, v in enumerate(w)])
    names = sorted(PARAM)
    for a, b in itertools.combinations(names, 2):
        both = list(itertools.product(PARAM[a], PARAM[b]))
        for w in itertools.product(both, repeat=pairs):
            yield top(*[make(0x10030 + i, **{a: x, b: y}) for i, (x, y) in enumerate(w)])


def arrays():
    """named arrays: length x count x first logical value x usage x flags x form"""
    for n in (1, 2, 3, 4, 16, 127, 128, 129, 255, 256, 257, 300, 1024):
        for count in (1, 2, 6, 255, 256):
            for lo in (0, 1, -1, 100):
                for u in (None, 0x50032):
                    for f in (0, 2, 0x40):
                        for form in (("range", 0x70000, 0x70000 + n - 1), tuple(0x70000 + 2 * i for i in range(n))):
                            yield top(V(usage=u, lmin=lo, named=form, size=16, count=count, flags=f), V(usage=0x10031))


def physical():
    """Two values, each with any logical bounds next to any physical bounds, given or not."""
    both = [(l, p) for l in ((-1, 1), (0, 1), (-1, 0), (0, 0)) for p in itertools.product((None, -1, 0, 1), repeat=2)]
    for w in itertools.product(both, repeat=2):
        yield top(*[make(0x10030 + i, lmin=l[0], lmax=l[1], pmin=p[0], pmax=p[1]) for i, (l, p) in enumerate(w)])


def nestings(depth):
    """Every nesting of reports, collections and values, up to depth events (values all inside a report or none)."""
    for reports in (True, False):
        alpha = ["v", "C", ")"] + (["1", "2"] if reports else ["c"])
        for n in range(1, depth + 1):
            for w in itertools.product(alpha, repeat=n):
                stack, k, inrep, bad = [[]], 0, [False], False
                heads = []
                for e in w:
                    if e == "v":
                        if reports and not inrep[-1]:
                            bad = True
                            break
                        stack[-1].append(V(usage=0x10030 + k, size=(3, 8, 1)[k % 3]))
                        k += 1
                    elif e == ")":
                        if not heads:
                            bad = True
                            break
                        kids = tuple(stack.pop())
                        inrep.pop()
                        stack[-1].append(heads.pop() + (kids,))
                    else:
                        heads.append(("rep", int(e)) if e in "12" else ("coll", 2, 0x10001 if e == "C" else None))
                        inrep.append(inrep[-1] or e in "12")
                        stack.append([])
                if bad or not k:
                    continue
                while heads:
                    kids = tuple(stack.pop())
                    stack[-1].append(heads.pop() + (kids,))
                yield top(*stack[0])


def many_reports():
    """All 255 report IDs in one tree, each with its own length, visited twice, in three orders."""
    for way in (8, 9, 11):
        for order in (range(1, 256), range(255, 0, -1), [1 + (i * 7) % 255 for i in range(255)]):
            yield top(*[("rep", r, (V(way=way, size=1 + (r * 5 + k) % 13),)) for k, r in enumerate(order)] +
                      [("rep", r, (V(way=way, usage=0x10031), V(way=way, usage=0x10032, size=3), ("align", way, 16), V(way=way))) for r in order])


def long_ones(n):
    yield top(*[V(usage=0x90001 + i, size=1 + i % 9, lmax=1 + i) for i in range(n)])
    yield top(*[("coll", 2, 0x10001, (V(usage=0x10030 + i % 9, string=1 + i, desig=1 + i % 3),)) for i in range(n)])
    yield top(*[V(usage=None, named=("range", 0x70000 + i, 0x70003 + i), count=1 + i % 3) for i in range(n)])
    yield top(*[V(way=(8, 9, 11)[i % 3], flags=(2, 6, 0x102, 0)[i % 4], pmin=-i, pmax=i, unit=(0, 0x11)[i % 2]) for i in range(n)])


WIDE = [("count", c) for c in (127, 128, 255, 256, 257, 300, 65535, 65536)] + [("size", c) for c in (31, 33, 63, 64, 127, 128, 255, 256, 257, 1000)] + \
    [("log", r) for r in ((-129, 128), (-128, 127), (0, 256), (0, 32768), (-32769, 0), (0, 65536), (255, 255))] + \
    [("phys", r) for r in ((-129, 128), (-128, 127), (0, 255), (0, 256), (0, 32768), (-32769, 65536))] + \
    [("unit", u) for u in (0x7f, 0x80, 0xff, 0x100, 0xffff, 0x10000, 0x80000000)] + [("exp", e) for e in (7, 8, -8, -9, 127, 128)] + \
    [("desig", d) for d in (127, 128, 255, 256, 65535)] + [("string", d) for d in (127, 128, 255, 256, 65535)] + \
    [("align", a) for a in (64, 127, 128, 256, 257, 1024)] + [("usage", u) for u in (0x10000, 0x9007f, 0x900ff, 0x90100, 0x9ffff, 0xff00ffff, 0xffff0001)] + \
    [("flags", f) for f in (0x1ff, 0xfe, 0xff, 0x101, 0x103)] + \
    [("named", n) for n in (("range", 0x70000, 0x700ff), ("range", 0x70000, 0x70100), tuple(0x70000 + 3 * i for i in range(257)))]


def wide(small=False):
    """Every wide value of each parameter next to every deviation: in the same value, in the value before and in the value after."""
    for w in WIDE:
        for o in VALUE_OPTIONS + WIDE:
            for where in (1,) if small else range(3):
                if where == 1 and o[0] == w[0] or (w[0] == "count" and w[1] > 5000 or o[0] == "count" and o[1] > 5000) and (where != 1 or o in WIDE):
                    continue
                yield TEMPLATES["flat"](*[value(i, [w] * (i == 1) + [o] * (i == where)) for i in range(3)])
        for t in list(TEMPLATES)[1:]:
            yield TEMPLATES[t](*[value(i, [w] * (i == 1)) for i in range(3)])


def aliases():
    """Values that differ in a single bit (whichever of the 32) in successive values, reports, collections or named arrays."""
    from histories import flips
    for p, vals, bits, signed in (("usage", (0x10030, 0x90001), 32, 0), ("unit", (0, 0x11), 32, 0), ("exp", (0, -3), 32, 1), ("lmin", (0, -1), 32, 1), ("lmax", (1, 100), 32, 1),
                                  ("pmin", (0, -4), 32, 1), ("pmax", (0, 7), 32, 1), ("string", (0, 1), 32, 0), ("desig", (0, 1), 32, 0), ("flags", (2, 0), 32, 0),
                                  ("size", (8, 1), 12, 0), ("count", (1, 2), 9, 0), ("align", (1, 8), 12, 0)):
        for v in vals:
            for w in flips(v, bits, signed):
                if p in ("size", "align") and not w or p == "usage" and not w >> 16:
                    continue
                yield top(*[make(0x10030 + i, **{p: x}) for i, x in enumerate((v, w, v))])
                yield top(*[make(0x10030 + i, **{p: x}) for i, x in enumerate((v, w, w, v, v))])
    for what in ("usage", "string", "desig"):
        v = 0x90001 if what == "usage" else 1
        for k in range(1, 4):
            for w in flips(v + k, 32):
                if what != "usage" or w >> 16:
                    yield top(*[make(0x10030 + i, **{what: v + i if i != k else w}) for i in range(4)])
    for k in range(1, 4):
        for w in flips(0x70004 + k, 32):
            if w >> 16:
                for u in (None, 0x50032):
                    yield top(V(usage=u, named=tuple(0x70004 + i if i != k else w for i in range(4))), V(usage=0x10031))
    for v in (1, 2):
        for w in flips(v, 8):
            if w:
                yield top(("rep", v, (V(size=3),)), ("rep", w, (V(usage=0x10031, size=3),)), ("rep", v, (V(usage=0x10032),)), ("rep", w, (V(usage=0x10033),)))
                yield top(("rep", v, (V(size=3), ("rep", w, (V(usage=0x10031, size=3),)), V(usage=0x10032))))
        for w in flips(v, 32):
            yield top(("coll", v, 0x10001, (V(),)), ("coll", w, 0x10001, (V(usage=0x10031),)), V(usage=0x10032))
    for v in (0x10001, 0xff000002):
        for w in flips(v, 32):
            if w >> 16:
                yield top(("coll", 2, v, (V(),)), ("coll", 2, w, (V(usage=0x10031),)), V(usage=0x10032))
