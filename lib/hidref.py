"""Reference model of HID report descriptors (USB HID 1.11, section 6.2.2).

Independent of hrdc: a short-item codec and a host-side interpreter that turns a
report descriptor into its meaning.  Kept deliberately plain.

meaning(bytes) -> (nodes, totals)
  nodes : tuple of nodes in document order
     ("C", kind, usage, string, designator, (child nodes...))
     ("F", way, report_id, bit_offset, bits, flags, lmin, lmax, pmin, pmax,
           unit, exponent, usage(s), string(s), designator(s))
     (bits is (element size, count) for a buffered-bytes field, which is one value)
  totals: sorted tuple of ((way, report_id), length in bits)
"""

MAIN, GLOBAL, LOCAL = 0, 1, 2
INPUT, OUTPUT, COLLECTION, FEATURE, ENDCOLL = 8, 9, 10, 11, 12
(UPAGE, LMIN, LMAX, PMIN, PMAX, UEXP, UNIT, RSIZE, RID, RCOUNT, PUSH, POP) = range(12)
USAGE, UMIN, UMAX, DIDX, DMIN, DMAX = range(6)
SIDX, SMIN, SMAX, DELIM = 7, 8, 9, 10

DEFINED = {MAIN: {8, 9, 10, 11, 12}, GLOBAL: set(range(12)), LOCAL: {0, 1, 2, 3, 4, 5, 7, 8, 9, 10}}
SIGNED = {(GLOBAL, t) for t in (LMIN, LMAX, PMIN, PMAX, UEXP)}
WAYS = (INPUT, OUTPUT, FEATURE)
CONSTANT, VARIABLE, RELATIVE, BUFFERED = 1, 2, 4, 256


class IllFormed(Exception):
    pass


def data_len(header):
    return (0, 1, 2, 4)[header & 3]


def encode(kind, tag, value, size=None):
    """One short item; size in bytes (None: shortest, never 0)."""
    signed = (kind, tag) in SIGNED
    if size is None:
        size = shortest(kind, tag, value)
    code = {0: 0, 1: 1, 2: 2, 4: 3}[size]
    return bytes([(tag << 4) | (kind << 2) | code]) + (
        int(value).to_bytes(size, "little", signed=signed) if size else b"")


def shortest(kind, tag, value):
    if kind == MAIN and tag == ENDCOLL:
        return 0
    for n in (1, 2, 4):
        if (kind, tag) in SIGNED:
            if -(1 << (8 * n - 1)) <= value < (1 << (8 * n - 1)):
                return n
        elif 0 <= value < (1 << (8 * n)):
            return n
    raise IllFormed("unrepresentable %d" % value)


def decode(blob):
    """List of (kind, tag, value, size); IllFormed when not a sequence of defined short items."""
    out = []
    pos = 0
    while pos < len(blob):
        h = blob[pos]
        kind, tag, n = (h >> 2) & 3, h >> 4, data_len(h)
        if kind not in DEFINED or tag not in DEFINED[kind]:
            raise IllFormed("undefined item header %#x at %d" % (h, pos))
        d = blob[pos + 1:pos + 1 + n]
        if len(d) != n:
            raise IllFormed("truncated item at %d" % pos)
        out.append((kind, tag, int.from_bytes(d, "little", signed=(kind, tag) in SIGNED), n))
        pos += 1 + n
    return out


_IDX = {LMIN: 0, LMAX: 1, PMIN: 2, PMAX: 3, UEXP: 4, UNIT: 5, RSIZE: 6, RID: 7, RCOUNT: 8, UPAGE: 9}


def nz(seq):
    """strings / designators: index 0 means none"""
    t = tuple(seq)
    return t if any(t) else ()


def pick(seq, n):
    return seq[min(n, len(seq) - 1)] if seq else None


class Host:
    """Host-side item state machine.  feed() items, then result().

    constants: keep constant fields as nodes (otherwise they are padding: visible only
    through bit offsets and report lengths)."""

    def __init__(self, constants=False):
        self.constants = constants
        self.g = [0] * 10
        self.stack = []
        self.totals = {}
        self.levels = [[]]
        self.heads = []
        self.clear()

    def clear(self):
        self.usages, self.strings, self.desigs = [], [], []
        self.mins = {}
        self.group = None
        self.short_page = None       # page of the last short usage of this main item

    def _use(self, u):
        return u if u > 0xffff else (self.g[9] << 16) | u

    def feed(self, kind, tag, value):
        if kind == GLOBAL:
            if tag == PUSH:
                self.stack.append(list(self.g))
            elif tag == POP:
                if not self.stack:
                    raise IllFormed("pop on empty stack")
                self.g = self.stack.pop()
            else:
                self.g[_IDX[tag]] = value
        elif kind == LOCAL:
            self._local(tag, value)
        else:
            if self.mins:
                raise IllFormed("unfinished range")
            if self.short_page not in (None, self.g[9]):
                # hosts disagree on such a usage (page in force at the usage, or at the main item)
                raise IllFormed("usage page changed after the last short usage")
            if self.group is not None:
                raise IllFormed("open delimiter")
            if tag == COLLECTION:
                self.heads.append((value, pick(self.usages, 0), pick(nz(self.strings), 0) or 0,
                                   pick(nz(self.desigs), 0) or 0))
                self.levels.append([])
            elif tag == ENDCOLL:
                if len(self.levels) < 2:
                    raise IllFormed("unbalanced end collection")
                kids = tuple(self.levels.pop())
                self.levels[-1].append(("C",) + self.heads.pop() + (kids,))
            else:
                self._data(tag, value)
            self.clear()

    def _local(self, tag, value):
        if tag in (USAGE, UMIN, UMAX):
            if value <= 0xffff:
                self.short_page = self.g[9]
            value = self._use(value)
        if tag == DELIM:
            if value == 1 and self.group is None:
                self.group = []
            elif value == 0 and self.group is not None:
                self.usages.append(("alt",) + tuple(self.group))
                self.group = None
            else:
                raise IllFormed("delimiter nesting")
            return
        for one, lo, hi, target in ((USAGE, UMIN, UMAX, self.usages), (DIDX, DMIN, DMAX, self.desigs),
                                    (SIDX, SMIN, SMAX, self.strings)):
            if target is self.usages and self.group is not None:
                target = self.group
            if tag == one:
                target.append(value)
            elif tag in (lo, hi):
                other = hi if tag == lo else lo
                if tag in self.mins:
                    raise IllFormed("repeated range bound")
                if other in self.mins:
                    o = self.mins.pop(other)
                    a, b = (value, o) if tag == lo else (o, value)
                    if a > b or (one == USAGE and a >> 16 != b >> 16):
                        raise IllFormed("bad range %x..%x" % (a, b))
                    target.extend(range(a, b + 1))
                else:
                    self.mins[tag] = value

    def _data(self, way, flags):
        lmin, lmax, pmin, pmax, uexp, unit, size, rid, count, _ = self.g
        if pmin == 0 and pmax == 0:
            pmin, pmax = lmin, lmax
        key = (way, rid)
        off = self.totals.get(key, 0)
        self.totals[key] = off + size * count
        if size * count == 0:
            return
        if flags & CONSTANT and not self.constants:
            return
        head = (flags, lmin, lmax, pmin, pmax, unit, uexp)
        add = self.levels[-1].append
        if flags & VARIABLE == 0:
            # array: every element selects one of the same usages
            us = self.usages[:lmax - lmin + 1] if lmax >= lmin else self.usages
            tail = (tuple(us), nz(self.strings), nz(self.desigs))
            if flags & BUFFERED:
                add(("F", way, rid, off, (size, count)) + head + tail)
                return
            for i in range(count):
                add(("F", way, rid, off + i * size, size) + head + tail)
        elif flags & BUFFERED:
            add(("F", way, rid, off, (size, count)) + head + (pick(self.usages, 0),
                pick(self.strings, 0) or 0, pick(self.desigs, 0) or 0))
        else:
            for i in range(count):
                add(("F", way, rid, off + i * size, size) + head +
                    (pick(self.usages, i), pick(self.strings, i) or 0, pick(self.desigs, i) or 0))

    def result(self):
        if len(self.levels) != 1:
            raise IllFormed("unbalanced collections")
        if self.stack:
            raise IllFormed("unbalanced push")
        return tuple(self.levels[0]), tuple(sorted((k, v) for k, v in self.totals.items() if v))


def meaning_items(items, constants=False):
    h = Host(constants)
    for it in items:
        h.feed(it[0], it[1], it[2])
    return h.result()


def meaning(blob, constants=False):
    return meaning_items(decode(blob), constants)


def diff(a, b, path=""):
    """First difference between two meanings, as text."""
    if type(a) != type(b) or not isinstance(a, tuple):
        return None if a == b else "%s: %r != %r" % (path, a, b)
    if len(a) != len(b):
        return "%s: %d != %d entries: %s / %s" % (path, len(a), len(b), repr(a)[:300], repr(b)[:300])
    for i, (x, y) in enumerate(zip(a, b)):
        d = diff(x, y, "%s[%d]" % (path, i))
        if d:
            return d
    return None
