"""Descriptor trees as plain data, and what they declare.

A tree is nested tuples, independent of hrdc:
  ("top", children) ("coll", kind, usage, children) ("rep", id, children)
  ("val", {way, usage, size, flags, lmin, lmax, pmin, pmax, named, unit, exp, desig, string,
           count, align})         (missing keys: the documented defaults)
  ("pad", way, bits) ("align", way, boundary)
way is 8/9/11; usage an int code or None; named a tuple of codes or ("range", lo, hi).

declared(tree) gives the meaning (see hidref) the author asked for.
"""
from hidref import CONSTANT, VARIABLE, BUFFERED

DEFAULTS = dict(usage=None, flags=VARIABLE, lmin=1, lmax=None, pmin=None, pmax=None, named=None,
                unit=0, exp=0, desig=0, string=0, count=1, align=None)


def named_list(named):
    if named and named[0] == "range":
        return tuple(range(named[1], named[2] + 1))
    return tuple(named or ())


class Declared:
    def __init__(self):
        self.totals = {}
        self.rid = 0

    def place(self, way, align):
        key = (way, self.rid)
        off = self.totals.get(key, 0)
        if align and align > 1 and off % align:
            off += align - off % align
        self.totals[key] = off
        return key, off

    def walk(self, t, out):
        k = t[0]
        if k == "top":
            for c in t[1]:
                self.walk(c, out)
        elif k == "rep":
            saved, self.rid = self.rid, t[1]
            for c in t[2]:
                self.walk(c, out)
            self.rid = saved
        elif k == "coll":
            kids = []
            for c in t[3]:
                self.walk(c, kids)
            out.append(("C", t[1], t[2], 0, 0, tuple(kids)))
        elif k == "pad":
            key, off = self.place(t[1], 0)
            self.totals[key] = off + t[2]
        elif k == "align":
            self.place(t[1], t[2])
        else:
            self.value(t[1], out)

    def value(self, given, out):
        v = dict(DEFAULTS, **given)
        way, size, count = v["way"], v["size"], v["count"]
        key, off = self.place(way, min(8, size) if v["align"] is None else v["align"])
        self.totals[key] = off + size * count
        flags, lmin, lmax = v["flags"], v["lmin"], v["lmax"]
        pmin, pmax = v["pmin"] or 0, v["pmax"] or 0
        named = named_list(v["named"])
        if flags & CONSTANT:
            return
        if named:
            # a named array: an array field, ranges fixed by the list
            flags, lmax, pmin, pmax = flags & ~VARIABLE, lmin + len(named) - 1, 0, 0
        if pmin == 0 and pmax == 0:
            pmin, pmax = lmin, lmax
        head = (flags, lmin, lmax, pmin, pmax, v["unit"], v["exp"])
        if flags & VARIABLE:
            tail = (v["usage"], v["string"], v["desig"])
        else:
            us = named if named else (() if v["usage"] is None else (v["usage"],))
            us = us[:lmax - lmin + 1] if lmax >= lmin else us
            tail = (us, (v["string"],) if v["string"] else (), (v["desig"],) if v["desig"] else ())
        if size * count == 0:
            fields = []
        elif flags & BUFFERED:
            fields = [("F", way, self.rid, off, (size, count)) + head + tail]
        else:
            fields = [("F", way, self.rid, off + i * size, size) + head + tail for i in range(count)]
        if named and v["usage"] is not None:
            out.append(("C", 2, v["usage"], 0, 0, tuple(fields)))
        else:
            out.extend(fields)


def declared(tree):
    d = Declared()
    out = []
    d.walk(tree, out)
    return tuple(out), tuple(sorted((k, n) for k, n in d.totals.items() if n))
