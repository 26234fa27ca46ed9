"""C16: the C code listing, line by line, against the bytes it shows."""
import itertools, re
from explore import Family
import hidref, histories as H, sut, treespec, trees as T
from itemspace import *
from usages import STANDARD, ARCADE, BY_CODE
import c15

ASSUMPTIONS = ["numbers may be written in any Python base; item names are compared without spaces and case",
               "a usage that follows a page change made inside the same field may be named in either page (hosts disagree)",
               "a page may be shown by its number, its HID name or the name of its table module; reserved flag bits (9 and up) are not named"]

NAMES = {(MAIN, INPUT): "Input", (MAIN, OUTPUT): "Output", (MAIN, FEATURE): "Feature", (MAIN, COLLECTION): "Collection",
         (MAIN, ENDCOLL): "EndCollection"}
NAMES.update({(GLOBAL, i): n for i, n in enumerate("UsagePage LogicalMinimum LogicalMaximum PhysicalMinimum PhysicalMaximum "
                                                   "UnitExponent Unit ReportSize ReportID ReportCount Push Pop".split())})
NAMES.update({(LOCAL, i): n for i, n in zip((0, 1, 2, 3, 4, 5, 7, 8, 9, 10),
              "Usage UsageMinimum UsageMaximum DesignatorIndex DesignatorMinimum DesignatorMaximum "
              "StringIndex StringMinimum StringMaximum Delimiter".split())})
FLAGS = [("Data", "Constant"), ("Array", "Variable"), ("Absolute", "Relative"), ("NoWrap", "Wrap"), ("Linear", "NonLinear"),
         ("PreferredState", "NoPreferred"), ("NoNullPosition", "NullState"), ("NonVolatile", "Volatile"), ("BitField", "BufferedBytes")]
KINDNAMES = ["Physical", "Application", "Logical", "Report", "NamedArray", "UsageSwitch", "UsageModifier"]
PAGES = {1: "GenericDesktop", 2: "Simulation", 3: "VR", 5: "Game", 6: "Device", 7: "Keyboard", 8: "Led", 9: "Button", 10: "Ordinal",
         11: "TelephonyDevice", 12: "Consumer", 13: "Digitizers", 15: "PID", 0x20: "Sensors", 0x59: "Lighting", 0x90: "Camera",
         0xff00: "Arcade"}
MODULE = {}
for n, c in list(STANDARD.items()) + list(ARCADE.items()):
    MODULE.setdefault(c >> 16, set()).add(n.split(".")[0])
MODULE.setdefault(9, set()).add("button")
MODULE.setdefault(10, set()).add("ordinal")
UNITS = {c15.code(s, d): n for n, (s, d) in c15.WELL_KNOWN.items()}

LINE = re.compile(r"^\s*((?:0x[0-9a-fA-F]{2}\s*,\s*)+)//( *)(\S.*?)\s*$")
COMMENT = re.compile(r"^([A-Za-z][A-Za-z ]*?)\s*(?:\((.*)\))?$")


def number(text):
    try:
        return int(text, 0)
    except ValueError:
        return None


def usage_names(code):
    """accepted full names; empty: no name"""
    if code >> 16 == 9:
        return {"button.Button(%d)" % (code & 0xffff), BY_CODE.get(code)} - {None}, True
    if code >> 16 == 10:
        return {"ordinal.Ordinal(%d)" % (code & 0xffff), BY_CODE.get(code)} - {None}, True
    if code in BY_CODE:
        return {BY_CODE[code]}, False
    return {n for n, c in ARCADE.items() if c == code}, True


def usage_ok(text, value, pages):
    n = number(text)
    for page in pages:
        if value >> 16:
            names, plain = usage_names(value)
            if text in names or plain and n == value:
                return True
        else:
            names, plain = usage_names(page << 16 | value)
            if text in names or text in {x.split(".", 1)[1] for x in names} or plain and n == value:
                return True
    return False


def value_ok(kind, tag, value, text, pages):
    n = None if text is None else number(text)
    if (kind, tag) in FIXED:
        return n in (None, 0)
    if (kind, tag) in DATA:
        if text is None:
            return value == 0
        got = set(text.replace(" ", "").split("|"))
        need = {FLAGS[b][1] for b in range(9) if value >> b & 1}
        may = {FLAGS[b][0] for b in range(9) if not value >> b & 1}
        return need <= got and got - need <= may
    if text is None:
        return False
    if (kind, tag) == (MAIN, COLLECTION) and value < 7:
        return text == KINDNAMES[value]
    if (kind, tag) == (GLOBAL, UPAGE):
        return n == value or text == PAGES.get(value) or text in MODULE.get(value, ())
    if (kind, tag) == (GLOBAL, UNIT) and value in UNITS:
        return text.split(".")[-1] == UNITS[value]
    if kind == LOCAL and tag in (USAGE, UMIN, UMAX):
        return usage_ok(text, value, pages)
    return n == value


def audit(text, rec):
    """Judge a listing on its own; returns (items shown, error)."""
    page, stack, depth = 0, [], 0
    lines = text.split("\n")
    if lines and lines[-1] == "":
        lines.pop()
    items = []
    rows = []
    for no, line in enumerate(lines):
        m = LINE.match(line)
        if not m:
            return items, "line %d is not bytes and a comment: %r" % (no + 1, line)
        blob = bytes(int(x, 16) for x in re.findall("0x([0-9a-fA-F]{2})", m.group(1)))
        try:
            here = hidref.decode(blob)
        except hidref.IllFormed as e:
            return items, "line %d: %s: %r" % (no + 1, e, line)
        if len(here) != 1:
            return items, "line %d shows %d items: %r" % (no + 1, len(here), line)
        items.append(here[0][:3])
        rows.append((line, m.group(2), m.group(3), here[0][:3]))
    # page of each usage: in force where it is written, or at its main item
    at_main = [0] * len(rows)
    p, st, pend = 0, [], []
    before = [0] * len(rows)
    for i, r in enumerate(rows):
        k, t, v = r[3]
        before[i] = p
        if (k, t) == (GLOBAL, UPAGE):
            p = v
        elif (k, t) == (GLOBAL, PUSH):
            st.append(p)
        elif (k, t) == (GLOBAL, POP) and st:
            p = st.pop()
        elif k == LOCAL:
            pend.append(i)
        elif k == MAIN:
            for j in pend:
                at_main[j] = p
            pend = []
    for j in pend:
        at_main[j] = before[j]
    for i, (line, indent, comment, (k, t, v)) in enumerate(rows):
        rec.step()
        if (k, t) == (MAIN, ENDCOLL):
            depth -= 1
        if len(indent) != 1 + 4 * max(depth, 0):
            return items, "line %d: %d spaces of indentation inside %d collections: %r" % (i + 1, len(indent) - 1, depth, line)
        if (k, t) == (MAIN, COLLECTION):
            depth += 1
        m = COMMENT.match(comment)
        if not m:
            return items, "line %d: comment %r names nothing" % (i + 1, comment)
        if m.group(1).replace(" ", "").lower() != NAMES[k, t].lower():
            return items, "line %d calls %s %r: %r" % (i + 1, NAMES[k, t], m.group(1), line)
        if not value_ok(k, t, v, m.group(2), (before[i], at_main[i])):
            return items, "line %d: the bytes say %s %d (%#x), page %s, the comment says %r" % (
                i + 1, NAMES[k, t], v, v & 0xffffffff, before[i], comment)
    return items, None


def expect(text, items, rec):
    got, e = audit(text, rec)
    if e:
        return e
    if items is not None and got != items:
        return "listing shows %r for %r" % (got, items)
    return None


def well_formed(items):
    try:
        hidref.meaning_items(items)
        return True
    except hidref.IllFormed:
        return False


def check_items(items, rec):
    """plain conversion of an item sequence, from each encoding"""
    items = [tuple(i) for i in items]
    rec.state(tuple(items))
    blob = H.blob(items)
    for fmt, src in (("binary", blob), ("hex", blob.hex(" ")), ("code", ", ".join("0x%02x" % b for b in blob))):
        e = expect(sut.convert(fmt, src, "code"), items, rec)
        if e:
            return "%s -> code: %s" % (fmt, e)
    return None


def check_opt(items, rec):
    items = [tuple(i) for i in items]
    if not well_formed(items):
        rec.skip()
        return None
    rec.state(tuple(items))
    e = expect(sut.convert("binary", H.blob(items), "code"), items, rec)
    if e:
        return e
    e = expect(sut.convert("binary", H.blob(items), "code", True), None, rec)
    return e and "optimized: " + e


def check_hist(case, rec):
    return check_opt(case, rec)


def check_tree(case, rec):
    """a compiled tree, as the compile script prints it"""
    import io
    rec.state(case)
    for opt in (False, True):
        desc = sut.build(case)
        buf = io.StringIO()
        out = sut.Formatter.get("code")(buf)
        if opt:
            out = sut.Optimizer.new(out)
        desc.accept(sut.Streamer(out))
        out.close()
        e = expect(buf.getvalue(), None, rec)
        if e:
            return ("optimized: " if opt else "unoptimized: ") + e
    return None


def singles():
    for kt in KINDS:
        if kt == (MAIN, ENDCOLL):
            yield [(MAIN, COLLECTION, 0), kt + (0,)]
            continue
        for v in sorted(edges(kt), key=abs):
            yield [kt + (v,)] + ([(MAIN, ENDCOLL, 0)] if kt == (MAIN, COLLECTION) else [])
    for w in WAYS:
        for f in range(512):
            yield [(MAIN, w, f)]
    for c in range(256):
        yield [(MAIN, COLLECTION, c), (MAIN, ENDCOLL, 0)]
    for v in sorted(UNITS) + [0x10000 + u for u in sorted(UNITS)]:
        yield [(GLOBAL, UNIT, v)]
    for v in range(-129, 300):
        for t in (LMIN, LMAX, PMIN, PMAX, UEXP, RSIZE, RID, RCOUNT):
            if in_range((GLOBAL, t), v):
                yield [(GLOBAL, t, v)]


def usages_short():
    """every named usage, short and extended, under its own page and after another page"""
    for c in sorted(set(STANDARD.values())):
        p, u = c >> 16, c & 0xffff
        other = 1 if p != 1 else 12
        G, L, M = H.G, H.L, H.M
        for t in (USAGE, UMIN, UMAX):
            yield [G(UPAGE, p), L(t, u)]
        yield [G(UPAGE, other), L(USAGE, u), M(INPUT, 2), G(UPAGE, p), L(USAGE, u), M(INPUT, 2), L(USAGE, c), M(INPUT, 2),
               G(UPAGE, other), L(USAGE, u), M(INPUT, 2), L(USAGE, c), M(INPUT, 2)]
    for p in list(range(256)) + [0xff00, 0xff01, 0x8000, 0xffff]:
        for u in (0, 1, 2, 0x30, 0xff, 0x100, 0xffff):
            yield [H.G(UPAGE, p), H.L(USAGE, u), H.M(INPUT, 2)]


def nestings(depth):
    """every well-bracketed word"""
    alpha = [[H.M(COLLECTION, 1)], [H.M(ENDCOLL, 0)], [H.L(USAGE, 0x30), H.M(INPUT, 2)], [H.M(COLLECTION, 0)], [H.G(RID, 3)]]
    for n in range(depth + 1):
        for w in itertools.product(alpha, repeat=n):
            d = 0
            items = []
            for ev in w:
                items += ev
                d += (ev[0][1] == COLLECTION and ev[0][0] == MAIN) - (ev[0][:2] == (MAIN, ENDCOLL))
                if d < 0:
                    break
            else:
                yield items + [H.M(ENDCOLL, 0)] * d


def page_words(depth):
    G, L, M = H.G, H.L, H.M
    alpha = [[G(UPAGE, 1)], [G(UPAGE, 12)], [G(PUSH, 0)], [G(POP, 0)], [L(USAGE, 0x40)], [L(USAGE, 0x10031)],
             [L(UMIN, 0x40), L(UMAX, 0x41)], [M(INPUT, 2)]]
    for n in range(depth + 1):
        for w in itertools.product(alpha, repeat=n):
            push = 0
            items = []
            for ev in w:
                items += ev
                push += (ev[0] == G(PUSH, 0)) - (ev[0] == G(POP, 0))
                if push < 0:
                    break
            else:
                yield items


def pairs():
    few_ = [kt + (v,) for kt in KINDS for v in few(kt)[:6] if kt != (MAIN, ENDCOLL)]
    for a in few_:
        for b in few_:
            n = (a[:2] == (MAIN, COLLECTION)) + (b[:2] == (MAIN, COLLECTION))
            yield [a, b] + [(MAIN, ENDCOLL, 0)] * n


def tree_usages():
    for c in sorted(set(STANDARD.values())) + [0x90001, 0x90005, 0xa0003, 0x10fff, 0xff120007]:
        yield ("top", (("coll", 1, c, (("val", dict(way=8, usage=c, size=8, flags=2, lmin=0, lmax=5)),
                                       ("coll", 2, None, (("val", dict(way=11, usage=c, size=8, flags=2, lmin=0, lmax=5)),)))),))


def created():
    """buttons and ordinals, once created, are named by their function wherever they are listed"""
    for page in (9, 10):
        for n in list(range(1, 300)) + [511, 512, 513, 1000, 0x7fff, 0x8000, 0xfffe, 0xffff]:
            yield page, n


def check_created(case, rec):
    from hrdc.usage import button, ordinal
    page, n = case
    rec.state(case)
    u = (button.Button if page == 9 else ordinal.Ordinal)(n)
    name = "%s(%d)" % ("button.Button" if page == 9 else "ordinal.Ordinal", n)
    items = [H.G(UPAGE, page), H.L(USAGE, n), H.M(INPUT, 2), H.L(UMIN, n), H.L(UMAX, n), H.M(INPUT, 0), H.G(UPAGE, 1), H.L(USAGE, page << 16 | n), H.M(OUTPUT, 2)]
    for src in ("binary", "hex"):
        text = sut.convert(src, H.blob(items) if src == "binary" else H.blob(items).hex(" "), "code")
        e = expect(text, items, rec)
        if e:
            return e
        for line in text.split("\n"):
            m = COMMENT.match(line.split("//")[-1].strip()) if "Usage" in line and "Page" not in line else None
            if m and m.group(2) not in (name, name.split(".")[1]):
                return "created usage %s is listed as %r" % (name, line)
    return None


def families(tier):
    q = tier == "quick"
    return [Family("single-items", singles, check_items, "27 item kinds x edge values, all flags, collection kinds, units"),
            Family("usages", usages_short, check_opt2, "every named usage short/extended x pages; 260 pages x 7 usages"),
            Family("item-pairs", pairs, check_items, "ordered pairs of items"),
            Family("nesting", lambda: nestings(6 if q else 8), check_opt2, "all well-bracketed words of up to %d events" % (6 if q else 8)),
            Family("pages", lambda: page_words(5 if q else 7), check_opt2, "all words of up to %d page/stack/usage events" % (5 if q else 7)),
            Family("histories", lambda: H.up_to(2, 2 if q else 3), check_hist, "2 data items, deviations"),
            Family("sweeps", lambda: H.sweeps(20), check_hist, "long histories"),
            Family("devices", lambda: H.devices(not q), check_hist, "whole devices, pairs of them, and every one-item edit of them"),
            Family("aliases", H.aliases, check_hist, "values that differ in any single bit, next to each other"),
            Family("bounds", lambda: H.bounds(4), check_hist, "range bounds and indices of all kinds in every order"),
            Family("long", lambda: H.long_ones(300), check_hist, "long and deep descriptors"),
            Family("created", created, check_created, "buttons and ordinals made by the author"),
            Family("trees-usages", tree_usages, check_tree, "every named usage in a compiled tree"),
            Family("trees", lambda: T.up_to(2, 2), check_tree, "2 slots, deviations")]


def check_opt2(items, rec):
    items = [tuple(i) for i in items]
    rec.state(tuple(items))
    blob = H.blob(items)
    e = expect(sut.convert("binary", blob, "code"), items, rec)
    if e or not well_formed(items):
        return e
    e = expect(sut.convert("binary", blob, "code", True), None, rec)
    return e and "optimized: " + e
