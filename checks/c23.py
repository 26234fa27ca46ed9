"""C23: the optimized form depends on what is described, not on how it was written."""
import itertools
from explore import Family
from hidref import *
import histories as H, hidref, sut, trees as T, treespec

ASSUMPTIONS = ["restated globals: histories without Push and Pop, restated just before a data item, or just after the statement",
               "rewritings are those listed in the families; two of them are never combined",
               "usages are never widened to 4 bytes (HID takes those as extended, of page 0, which is undefined)"]


def rewrite(tree, f):
    """bottom up, on every node"""
    k = tree[0]
    if k == "top":
        tree = ("top", tuple(rewrite(c, f) for c in tree[1]))
    elif k == "coll":
        tree = tree[:3] + (tuple(rewrite(c, f) for c in tree[3]),)
    elif k == "rep":
        tree = tree[:2] + (tuple(rewrite(c, f) for c in tree[2]),)
    return f(tree)


def defaults(t):
    """what is not given, written out"""
    if t[0] != "val":
        return t
    v = dict(treespec.DEFAULTS, **t[1])
    if v["align"] is None:
        v["align"] = min(8, v["size"])
    if v["named"]:
        v.pop("lmax", None)
    elif v["pmin"] is None and v["pmax"] is None:
        v["pmin"], v["pmax"] = v["lmin"], v["lmax"]
    elif v["pmin"] is None or v["pmax"] is None:
        v["pmin"], v["pmax"] = v["pmin"] or 0, v["pmax"] or 0
    return ("val", {k: x for k, x in v.items() if x is not None})


def listed(t):
    if t[0] == "val" and t[1].get("named") and t[1]["named"][0] == "range":
        n = t[1]["named"]
        return ("val", dict(t[1], named=tuple(range(n[1], n[2] + 1))))
    return t


def ranged(t):
    if t[0] == "val" and t[1].get("named") and t[1]["named"][0] != "range":
        n = t[1]["named"]
        if all(b == a + 1 for a, b in zip(n, n[1:])):
            return ("val", dict(t[1], named=("range", n[0], n[-1])))
    return t


def split(t):
    """a report (not inside another) in two"""
    if t[0] not in ("top", "coll"):
        return t
    out = []
    for c in t[-1]:
        if c[0] == "rep" and len(c[2]) > 1:
            out += [("rep", c[1], c[2][:1]), ("rep", c[1], c[2][1:])]
        else:
            out.append(split(c))
    return t[:-1] + (tuple(out),)


def doubled(t):
    """a report in a report of the same ID, a top level in a top level"""
    if t[0] == "rep":
        return ("rep", t[1], (t,))
    return ("top", (t,)) if t[0] == "top" else t



def everywhere(f):
    return lambda t: rewrite(t, f)


REWRITES = {"defaults written out": everywhere(defaults), "range as a list": everywhere(listed), "list as a range": everywhere(ranged),
            "report in two": split, "report or top level doubled": everywhere(doubled)}


def check_tree(tree, rec):
    rec.state(tree)
    want = sut.compile_tree(sut.build(tree), True)
    plain = sut.compile_tree(sut.build(tree), False)
    rec.outcome(want)
    for fmt in ("binary", "hex", "code"):
        rec.step()
        text = plain if fmt == "binary" else sut.convert("binary", plain, fmt)
        got = sut.convert(fmt, text, "binary", True)
        if got != want:
            return "optimized while compiling: %s; compiled, written as %s, read and optimized: %s" % (want.hex(" "), fmt, got.hex(" "))
    for name, f in REWRITES.items():
        t = f(tree)
        if t == tree:
            continue
        rec.step()
        got = sut.compile_tree(sut.build(t), True)
        if got != want:
            return "%s: %s instead of %s" % (name, got.hex(" "), want.hex(" "))
    for codes in (True, "mixed"):
        rec.step()
        got = sut.compile_tree(sut.build(tree, codes), True)
        if got != want:
            return "written with plain codes: %s instead of %s" % (got.hex(" "), want.hex(" "))
    return None


USAGES = (USAGE, UMIN, UMAX)


def extended(items):
    """every usage with its page"""
    page, stack, out = 0, [], []
    for k, t, v in items:
        if k == GLOBAL and t == UPAGE:
            page = v
        elif k == GLOBAL and t == PUSH:
            stack.append(page)
        elif k == GLOBAL and t == POP and stack:
            page = stack.pop()
        elif k == LOCAL and t in USAGES and not v >> 16:
            v |= page << 16
        out.append((k, t, v))
    return out


def unpaged(items):
    return [i for i in extended(items) if i[:2] != (GLOBAL, UPAGE)]


def shortened(items):
    """every usage short, under a page of its own (outside Push and Pop)"""
    out = []
    for k, t, v in extended(items):
        if k == LOCAL and t in USAGES:
            out.append((GLOBAL, UPAGE, v >> 16))
            v &= 0xffff
        if (k, t) != (GLOBAL, UPAGE):
            out.append((k, t, v))
    return out


def wide(items, size):
    def width(k, t, v):
        if not size:
            return None if v else 0
        n = hidref.shortest(k, t, v)
        if (k, t) in ((MAIN, ENDCOLL), (GLOBAL, PUSH), (GLOBAL, POP)) or n >= size:
            return None
        if k == LOCAL and t in USAGES and size == 4 and not v >> 16:
            return None                     # would be a usage of page 0
        return size
    return b"".join(hidref.encode(k, t, v, width(k, t, v)) for k, t, v in items)


def restated(items, every):
    """globals in force stated again before each data item, or (every) each at once after its statement"""
    g, out = {}, []
    for k, t, v in items:
        if k == MAIN and t in WAYS and not every:
            out += [(GLOBAL, a, b) for a, b in sorted(g.items())]
        out.append((k, t, v))
        if k == GLOBAL:
            g[t] = v
            if every:
                out.append((k, t, v))
    return out


def check_stream(items, rec):
    items = list(items)
    try:
        hidref.meaning_items(items, True)
    except hidref.IllFormed:
        rec.skip()
        return None
    blob = H.blob(items)
    rec.state(blob)
    want = sut.optimize_bytes(blob)
    rec.outcome(want)
    forms = {"usages with their page": lambda: H.blob(extended(items)), "usages with their page, no page item": lambda: H.blob(unpaged(items)),
             "zeros without data": lambda: wide(items, 0), "data fields of 2 bytes": lambda: wide(items, 2), "data fields of 4 bytes": lambda: wide(items, 4)}
    if not any(k == GLOBAL and t in (PUSH, POP) for k, t, v in items):
        forms["globals in force restated before data items"] = lambda: H.blob(restated(items, False))
        forms["globals stated twice"] = lambda: H.blob(restated(items, True))
        forms["a page before every usage"] = lambda: H.blob(shortened(items))
    for name, form in forms.items():
        other = form()
        if other == blob:
            continue
        rec.step()
        got = sut.optimize_bytes(other)
        if got != want:
            return "%s (%s): optimized to %s instead of %s" % (name, other.hex(" "), got.hex(" "), want.hex(" "))
    tape = sut.Tape()
    sut.feed(sut.Optimizer.new(tape), items)
    rec.step()
    if tape.bytes() != want:
        return "items given to the optimizer directly: %s instead of %s" % (tape.bytes().hex(" "), want.hex(" "))
    for fmt in ("hex", "code"):
        rec.step()
        text = sut.convert("binary", blob, fmt)
        if sut.convert(fmt, text, "binary", True) != want:
            return "read as %s, optimized to other bytes than %s" % (fmt, want.hex(" "))
        if hidref.decode(sut.convert(fmt, sut.convert("binary", blob, fmt, True), "binary")) != hidref.decode(want):
            return "optimized and written as %s: not the bytes %s" % (fmt, want.hex(" "))
    return None


def families(tier):
    q = tier == "quick"
    n = 0 if q else 1
    f = [Family("trees-2", lambda: T.up_to(2, 2, options=T.CORE) if q else T.up_to(2, 2), check_tree, "trees: 2 values, <=2 deviations%s" % (", core options" if q else "")),
         Family("trees-3", lambda: T.up_to(3, 1), check_tree, "trees: 3 values, <=1 deviation"),
         Family("nestings", lambda: T.nestings(5 + n), check_tree, "trees: every nesting of reports, collections and values up to %d events" % (5 + n)),
         Family("tree-words", lambda: T.param_words(2 + n, 1 + n), check_tree, "trees: every word of values of each parameter, every pair"),
         Family("arrays", lambda: itertools.islice(T.arrays(), 0, None, 3 if q else 1), check_tree, "trees: named arrays"),
         Family("physical", lambda: T.physical(), check_tree, "trees: two values with any logical next to any physical bounds"),
         Family("streams-3", lambda: H.up_to(3, 1), check_stream, "3 data items, <=1 deviation"),
         Family("streams-2", lambda: H.segments(2, 2), check_stream, "2 data items, 2 deviations"),
         Family("aliases", H.aliases, check_stream, "values that differ in any single bit, next to each other"),
         Family("devices", lambda: itertools.islice(H.devices(not q), 0, None, 2 if q else 1), check_stream, "whole devices, pairs of them, and every one-item edit of them (quick: every second)"),
         Family("missing", H.missing, check_stream, "every subset of the globals never stated"),
         Family("bounds", lambda: H.bounds(4 + n), check_stream, "range bounds and indices of all kinds in every order"),
         Family("local-patterns", lambda: H.local_patterns(3 + n), check_stream, "every list of indices of each kind of local item"),
         Family("value-words", lambda: H.value_words(3 + n), check_stream, "every word of values of each global"),
         Family("stacks", lambda: H.stacks(5 + n), check_stream, "every balanced word of push, pop and two settings of each global"),
         Family("loose", lambda: H.loose(4 + n), check_stream, "local items, stack and page events in every order before their main item"),
         Family("bare", lambda: H.bare(2 + n), check_stream, "fragments without collections, ending on any item")]
    for w in H.WORDS:
        f.append(Family("words-%s" % w, lambda w=w: H.words(w, 4 + n), check_stream, "all words of length <=%d" % (4 + n)))
    if not q:
        f.append(Family("streams-3x2", lambda: H.up_to(3, 2), check_stream, "3 data items, <=2 deviations"))
    return f
