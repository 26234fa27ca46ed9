"""C02: parsers against the reference short-item grammar, on every byte string of the bound."""
from explore import Family
import histories as H, hidref, itertools, sut
from itemspace import *

ASSUMPTIONS = ["End Collection, Push and Pop items carrying a non-zero value may be refused or accepted",
               "text encodings are fed as whitespace-separated two-digit tokens (hex) and 0x.., tokens (code); layouts are C03's"]


def text(fmt, blob):
    if fmt == "binary":
        return blob
    return (" " if fmt == "hex" else ", ").join(("%02x" if fmt == "hex" else "0x%02x") % b for b in blob)


def one(fmt, blob, rec, src=None):
    try:
        want = [i[:3] for i in hidref.decode(blob)]
    except hidref.IllFormed:
        want = None
    lax = want is not None and any((k, t) in FIXED and v for k, t, v in want)
    tape = sut.Tape()
    rec.step()
    try:
        sut.parse(fmt, text(fmt, blob) if src is None else src, tape)
    except Exception as e:
        if want is None or lax:
            return None
        return "%s input %s refused: %s: %s" % (fmt, blob.hex(" "), type(e).__name__, e)
    got = tape.triples()
    if want is None:
        return "%s input %s is not a sequence of HID items but was read as %r" % (fmt, blob.hex(" "), got)
    if got != want:
        return "%s input %s: read %r instead of %r" % (fmt, blob.hex(" "), got, want)
    if tape.closed != 1:
        return "%s input %s: output closed %d times" % (fmt, blob.hex(" "), tape.closed)
    return None


def check(blob, rec):
    try:
        rec.state(tuple(i[:2] + i[3:] for i in hidref.decode(blob)))
    except hidref.IllFormed as e:
        rec.state(str(e)[:20])
    for fmt in ("binary", "hex", "code"):
        e = one(fmt, blob, rec)
        if e:
            return e
    return None


def check_binary_block(prefix, rec):
    for last in range(256):
        b = prefix + bytes([last])
        e = one("binary", b, rec)
        if e:
            return e
    rec.state(prefix)
    return None


PAT = [b"\0\0\0\0", b"\1\2\3\4", b"\xff\xff\xff\xff", b"\x80\0\0\0", b"\0\x80\0\0", b"\0\0\0\x80", b"\x7f\xff\xff\xff", b"\xc0\xc0\xc0\xc0"]
FOLLOW = [b"", b"\xc0", b"\x09\x01", b"\x00", b"\x27\1\2\3\4", b"\xff"]


def headers():
    """each header byte x data pattern x every truncation x what follows"""
    for h in range(256):
        for p in PAT:
            for n in range(5):
                for f in FOLLOW:
                    yield bytes([h]) + p[:n] + f


def pairs():
    its = [hidref.encode(k, t, v) for k, t in KINDS for v in few((k, t))[::3]]
    for a in its:
        for b in its:
            yield a + b


def truncated(depth):
    for w in ("mains", "pages"):
        for items in H.words(w, depth):
            b = H.blob(items)
            for n in range(len(b) + 1):
                yield b[:n]


def long():
    for n in range(1, 300):                       # many items, odd one at the end
        for tail in (b"\xc0", b"\x09", b"\x0b\1\2\3", b"\x0e\1", b"\x0f\0\0\0\0", b"\xfe\0\0"):
            yield b"\x09\x01" * n + tail
    yield b"\x0b\1\2\3\4" * 20000


def bytes_upto(n):
    for d in range(n + 1):
        for t in itertools.product(range(256), repeat=d):
            yield bytes(t)


def families(tier):
    q = tier == "quick"
    f = [Family("strings-2", lambda: bytes_upto(2), check, "all byte strings of length <=2, three encodings"),
         Family("headers", headers, check, "256 headers x 8 data patterns x 0..4 data bytes x 6 continuations, three encodings"),
         Family("pairs", pairs, check, "all pairs of items of every kind and size class, three encodings"),
         Family("truncations", lambda: truncated(2 if q else 3), check, "descriptors of <=%d events cut at every byte" % (2 if q else 3)),
         Family("long", long, check, "up to 300 items and one 100 kB descriptor")]
    f.append(Family("strings-3", lambda: (bytes(t) for t in itertools.product(range(256), repeat=2)), check_binary_block,
                    "all byte strings of length 3, binary"))
    if not q:
        f.append(Family("strings-4", lambda: (bytes([a, b, c]) for a in range(256) for b in range(256) for c in PROBE), check_binary_block,
                        "all byte strings of length 4 with third byte in %s, binary" % (PROBE,)))
    return f


PROBE = (0x00, 0x01, 0x05, 0x06, 0x07, 0x0a, 0x2b, 0x7f, 0x80, 0xa1, 0xa4, 0xc0, 0xc1, 0xfe, 0xff)
