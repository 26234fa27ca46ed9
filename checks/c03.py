"""C03: conversions between the three encodings, and text layouts."""
from explore import Family
import histories as H, hidref, itertools, sut
from itemspace import *

ASSUMPTIONS = ["hex text is made of separate two-digit tokens, with or without a lower-case 0x prefix; "
               "code text is a comma-separated list of hexadecimal C constants",
               "layouts: two decorated positions at a time (three in the thorough tier)"]
FMTS = ("binary", "hex", "code")


def source(fmt, blob):
    if fmt == "binary":
        return blob
    if fmt == "hex":
        return " ".join("%02x" % b for b in blob)
    return ", ".join("0x%02x" % b for b in blob)


def check_convert(items, rec):
    items = [tuple(i) for i in items]
    blob = H.blob(items)
    rec.state(tuple(items))
    for a in FMTS:
        for b in FMTS:
            rec.step()
            out = sut.convert(a, source(a, blob), b)
            if b == "binary":
                if [i[:3] for i in hidref.decode(out)] != items:
                    return "%s -> %s: %s became %s" % (a, b, blob.hex(" "), out.hex(" "))
            back = sut.parse(b, out)
            if back.triples() != items:
                return "%s -> %s -> items: %r became %r (%r)" % (a, b, items, back.triples(), out)
            if back.closed != 1:
                return "%s: output closed %d times" % (b, back.closed)
    return None


def read_layout(fmt, text, blob, rec):
    rec.step()
    want = [i[:3] for i in hidref.decode(blob)]
    got = sut.parse(fmt, text).triples()
    if got != want:
        return "%s text %r: read %r instead of %r" % (fmt, text, got, want)
    return None


BLOB = bytes.fromhex("05 01 ff c0".replace("ff", "a1 01"))      # UsagePage, Collection, EndCollection
TOK = {"low": "%02x", "up": "%02X", "x": "0x%02x", "xup": "0x%02X"}
PREFIX = ("", "0x")


def spellings(b, code=False):
    """every way to write one byte: prefix x case of each digit"""
    hi, lo = "%02x" % b
    for p in (("0x", "0X", "0x0", "0x00") if code else PREFIX):
        for a in {hi, hi.upper()}:
            for c in {lo, lo.upper()}:
                yield p + a + c
        if code and b < 16:
            for c in {lo, lo.upper()}:
                yield p + c


def byte_styles():
    for fmt in ("hex", "code"):
        for b in range(256):
            for s in sorted(set(spellings(b, fmt == "code"))):
                for where in range(3):
                    yield (fmt, b, s, where)


def check_byte(case, rec):
    """one oddly written data byte, first, in the middle or last"""
    fmt, b, s, where = case
    rec.state(case)
    blob = bytes([0x27, 0x12, 0x34, 0x56, 0x78])
    plain = ["%s%02x" % ("0x" if fmt == "code" else "", x) for x in blob]
    if where == 0:                                   # an item on its own, if this byte can start one
        try:
            hidref.decode(bytes([b]))
        except hidref.IllFormed:
            where = 1
    if where == 0:
        toks, blob = [s] + plain, bytes([b]) + blob
    else:
        at = {1: 2, 2: 4}[where]
        toks = plain[:at] + [s] + plain[at + 1:]
        blob = blob[:at] + bytes([b]) + blob[at + 1:]
    return read_layout(fmt, (", " if fmt == "code" else " ").join(toks), blob, rec)


WS = [" ", "\n", "\t", "\r\n", "  \n\n", "\n    ", "\f", "\v", "\r"]


def hex_layouts():
    for style in TOK:
        for gaps in itertools.product(range(len(WS)), repeat=3):
            for ends in (("", ""), ("\n", "\n"), (" ", "  "), ("\t", "\r\n")):
                yield ("uniform", style, gaps, ends)
    for styles in itertools.product(sorted(TOK), repeat=5):
        yield ("mixed", styles)


def check_hex(case, rec):
    rec.state(case)
    if case[0] == "uniform":
        _, style, gaps, ends = case
        t = [TOK[style] % b for b in BLOB]
        s = ends[0] + t[0]
        for i, x in enumerate(t[1:]):
            s += WS[gaps[i % 3]] + x
        return read_layout("hex", s + ends[1], BLOB, rec)
    s = " ".join(TOK[k] % b for k, b in zip(case[1], BLOB))
    return read_layout("hex", s, BLOB, rec)


CTOK = ["0x%02x", "0x%02X", "0x%x", "0X%02X", "0x00%x"]
DECO = [" ", "\n", "\t\r\n", "//\n", "// x\n", "// 0x09, 0x01,\n", "// /* \n", "// */\n", "// /* , */ 0x5\n", "/**/", "/***/",
        "/* */", "/* 0x09, 0x02, */", "/* a\n b */", "/* // */", "/*//*/", "/* /* */", "/* * / */", "// \"\n", "/* ' */", "////\n",
        "/* x */ // y\n", "// a\n// b\n", "/* a *//* b */", "// Usage (button.Button(1))\n", "/*\n * 0xff,\n */", "// trailing \\ here\n",
        "/* , */", "//,\n", "// é\n", "/* 05 01 */", "/*/ */", "// *\n", "/* **/", "/* a */ \n /* b */", "\f", "/* ; { } */"]


def code_cases(k, base=DECO):
    # positions: 0..: before token i (even), before comma i (odd); last: end of text
    n = 2 * len(BLOB) + 1
    for trailing in (0, 1):
        for pos in itertools.combinations(range(n), k):
            for d in itertools.product(range(len(base)), repeat=k):
                yield (trailing, pos, d)


def code_styles():
    for styles in itertools.product(range(len(CTOK)), repeat=5):
        yield styles


def render(trailing, at, tokens):
    s = ""
    n = len(tokens)
    for i, t in enumerate(tokens):
        s += at.get(2 * i, "") + t + at.get(2 * i + 1, "")
        if i < n - 1 or trailing:
            s += ","
    return s + at.get(2 * n, "")


def check_code(case, rec):
    rec.state(case)
    trailing, pos, d = case
    return read_layout("code", render(trailing, {p: DECO[x] for p, x in zip(pos, d)}, ["0x%02x" % b for b in BLOB]), BLOB, rec)


def check_styles(case, rec):
    rec.state(case)
    return read_layout("code", ", ".join(CTOK[s] % b for s, b in zip(case, BLOB)), BLOB, rec)


def check_endless(case, rec):
    """comment running to the end of the text without a line break"""
    d, = case
    rec.state(case)
    return read_layout("code", ", ".join("0x%02x" % b for b in BLOB) + "," + DECO[d].rstrip("\n"), BLOB, rec)


NOT_BYTES = ["0x100", "0x1ff", "0xfff", "0x0100", "0xffff", "0x10000", "0xffffffff", "0x100000005", "-0x1", "-0x80", "-0xff", "0xg5", "0x", "xx", "x05", "USAGE_PAGE", "usage", "0x05 0x01", "0x05\n0x01", "05 01",
             "0x5.", "0x05;0x01", "0x01/0x02", "(", "{", "'a'", "\"05\""]


def not_bytes():
    for i in range(len(BLOB) + 1):
        for t in NOT_BYTES:
            for replace in (0, 1):
                if not (replace and i == len(BLOB)):
                    for trailing in (0, 1):
                        yield (i, t, replace, trailing)


def check_not_byte(case, rec):
    """a constant that is not a byte, in place of a byte or besides"""
    i, t, replace, trailing = case
    rec.state(case)
    toks = ["0x%02x" % b for b in BLOB]
    toks[i:i + replace] = [t]
    try:
        got = sut.parse("code", ", ".join(toks) + "," * trailing)
    except Exception as e:
        rec.outcome(type(e).__name__)
        rec.step()
        return None
    return "code %r is read as %s" % (", ".join(toks), got.bytes().hex(" "))


def singles():
    for k, t in KINDS:
        for v in edges((k, t)):
            yield [(k, t, v)]


def pairs():
    its = [(k, t, v) for k, t in KINDS for v in few((k, t))]
    for a in its:
        for b in its:
            yield [a, b]


def usages():
    for p in (1, 7, 9, 0xc, 0xd, 0x20, 0xff00, 0x1234):
        for u in range(0, 256):
            yield [(GLOBAL, UPAGE, p), (LOCAL, USAGE, u), (LOCAL, UMIN, (p << 16) | u), (LOCAL, UMAX, u)]
    for f in range(1024):
        yield [(MAIN, w, f) for w in WAYS]
    for k in range(256):
        yield [(MAIN, COLLECTION, k), (MAIN, ENDCOLL, 0)]


def families(tier):
    q = tier == "quick"
    return [Family("single-items", singles, check_convert, "every kind x power-of-two edges x 9 conversions"),
            Family("names", usages, check_convert, "pages, usages, flags, collection kinds x 9 conversions"),
            Family("pairs", pairs, check_convert, "pairs of items x 9 conversions"),
            Family("descriptors", lambda: H.up_to(2, 2 if q else 3), check_convert, "2 data items, <=%d deviations" % (2 if q else 3)),
            Family("sweeps", lambda: H.sweeps(120 if q else 300), check_convert, "one parameter over its range, long descriptors"),
            Family("devices", lambda: H.devices(not q), check_convert, "whole devices, pairs of them, and every one-item edit of them"),
            Family("long", lambda: itertools.chain(*(H.long_ones(n) for n in ((3000, 12000) if q else (1000, 3000, 12000, 40000)))), check_convert, "descriptors of up to %d items" % (72000 if q else 240000)),
            Family("byte-styles", byte_styles, check_byte, "256 bytes x every spelling x 3 positions, hex and code"),
            Family("hex-layouts", hex_layouts, check_hex, "token styles x white space at every gap"),
            Family("code-layouts-1", lambda: code_cases(1), check_code, "1 decoration at every position"),
            Family("code-layouts-2", lambda: code_cases(2), check_code, "all pairs of decorations at all pairs of positions"),
            ] + ([] if q else [Family("code-layouts-3", lambda: code_cases(3), check_code, "all triples")]) + [
            Family("code-styles", code_styles, check_styles, "constant styles"),
            Family("code-refused", not_bytes, check_not_byte, "constants that are no byte (too large, negative, not hexadecimal, comma missing) at every position"),
            Family("code-unterminated", lambda: ((i,) for i in range(len(DECO))), check_endless, "last comment without line break")]
