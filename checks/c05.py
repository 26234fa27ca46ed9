"""C05: redundancy predicates on optimizer output, for compiled trees and parsed item streams."""
from explore import Family
from hidref import *
import histories as H, hidref, itertools, sut, trees as T, treespec

ASSUMPTIONS = ["globals in force before the first statement: unit, exponent and physical bounds are 0, the others unknown",
               "merging, length and stability are claimed for compiled descriptors; the length comparison for usage pages 1..0xff "
               "(a page beyond takes more bytes than it can save)",
               "delimited usages are left alone; range merging is claimed for a field whose whole usage, string or designator list is one run "
               "(strings and designators from 1 up)"]
DEF = {UNIT: 0, UEXP: 0, PMIN: 0, PMAX: 0}


def redundancy(items):
    """None or the first restated global / unmerged run in a list of (kind, tag, value)."""
    g, stack = dict(DEF), []
    page = None
    lists = {USAGE: [], SIDX: [], DIDX: []}
    rng = {UMIN: USAGE, UMAX: USAGE, SMIN: SIDX, SMAX: SIDX, DMIN: DIDX, DMAX: DIDX}
    blocked = set()
    for n, (k, t, v) in enumerate(items):
        if k == GLOBAL:
            if t == PUSH:
                stack.append(dict(g))
            elif t == POP:
                g = stack.pop() if stack else {}
            else:
                if t in g and g[t] == v:
                    return "item %d restates global %d = %d" % (n, t, v)
                g[t] = v
        elif k == LOCAL:
            if t in lists:
                lists[t].append(v if t != USAGE or v > 0xffff else (g.get(UPAGE, 0) << 16) | v)
            elif t in rng:
                blocked.add(rng[t])
            else:
                blocked.add(USAGE)
                blocked.add(SIDX)
                blocked.add(DIDX)
        else:
            for t2, vs in lists.items():
                if t2 not in blocked and len(vs) >= 3 and vs[0] >= 1 and vs[0] >> 16 == vs[-1] >> 16 and all(b == a + 1 for a, b in zip(vs, vs[1:])):
                    return "item %d: local %d lists %d consecutive values one by one (%d..%d)" % (n, t2, len(vs), vs[0], vs[-1])
            if lists[DIDX] == [0] and DIDX not in blocked:
                return "item %d: lone null designator" % n
            lists = {USAGE: [], SIDX: [], DIDX: []}
            blocked = set()
    return None


class Mains(Host):
    """Which data item each (non constant) field comes from."""
    def __init__(self):
        Host.__init__(self)
        self.n = 0
        self.of = []

    def _data(self, way, flags):
        before = len(self.levels[-1])
        Host._data(self, way, flags)
        self.of += [self.n] * (len(self.levels[-1]) - before)
        self.n += 1

    def feed(self, kind, tag, value):
        if kind == MAIN and tag not in WAYS:
            self.n += 1
        Host.feed(self, kind, tag, value)


class Runs(treespec.Declared):
    """Flat list of declared fields: equal, non-None neighbours have to share one data item."""
    def __init__(self):
        treespec.Declared.__init__(self)
        self.keys = []
        self.serial = 0

    def walk(self, t, out):
        if t[0] in ("coll", "pad", "align"):
            self.serial += 1
        before = sum(self.totals.values())
        treespec.Declared.walk(self, t, out)
        if t[0] == "align" and sum(self.totals.values()) == before:
            self.serial -= 1
        if t[0] == "coll":
            self.serial += 1

    def value(self, given, out):
        v = dict(treespec.DEFAULTS, **given)
        before = len(out)
        start = self.totals.get((v["way"], self.rid), 0)
        treespec.Declared.value(self, given, out)
        new = out[before:]
        fields = new[0][5] if new and new[0][0] == "C" else new
        if fields and fields[0][3] != start:
            self.serial += 1              # alignment padding in between
        single = v["count"] == 1 and v["flags"] & VARIABLE and not v["flags"] & (CONSTANT | BUFFERED) and not v["named"] and v["size"]
        if single:
            f = fields[0]
            self.keys.append((self.serial, f[1], f[2], f[4:12], v["usage"] is None, bool(v["string"]), bool(v["desig"])))
        else:
            self.serial += 1
            self.keys += [None] * len(fields)


def usage_codes(t):
    if t[0] == "val":
        v = t[1]
        return [v.get("usage")] + list(treespec.named_list(v.get("named")))
    kids = t[1] if t[0] == "top" else t[2] if t[0] == "rep" else t[3] if t[0] == "coll" else ()
    return ([t[2]] if t[0] == "coll" else []) + [u for c in kids for u in usage_codes(c)]


def check_tree(tree, rec):
    rec.state(tree)
    plain = sut.compile_tree(sut.build(tree), False)
    opt = sut.compile_tree(sut.build(tree), True)
    rec.outcome(opt)
    rec.step(3)
    items = [i[:3] for i in hidref.decode(opt)]
    e = redundancy(items)
    if e:
        return "%s in %s" % (e, opt.hex(" "))
    if hidref.meaning(opt) != treespec.declared(tree):
        return "ranges or merged items do not stand for what they replace: %s (%s)" % (
            hidref.diff(treespec.declared(tree), hidref.meaning(opt)), opt.hex(" "))
    m = Mains()
    for i in items:
        m.feed(*i)
    r = Runs()
    r.walk(tree, [])
    if len(m.of) != len(r.keys):
        return "%d fields compiled, %d declared (%s)" % (len(m.of), len(r.keys), opt.hex(" "))
    for a in range(len(r.keys) - 1):
        if r.keys[a] is not None and r.keys[a] == r.keys[a + 1] and m.of[a] != m.of[a + 1]:
            return "fields %d and %d share all their parameters but are not merged: %s" % (a, a + 1, opt.hex(" "))
    if all(1 <= u >> 16 <= 0xff for u in usage_codes(tree) if u is not None) and len(opt) > len(plain):
        return "optimized is longer (%d) than unoptimized (%d): %s" % (len(opt), len(plain), opt.hex(" "))
    again = sut.optimize_bytes(opt)
    if len(again) != len(opt):
        return "optimizing again changes the length: %s -> %s" % (opt.hex(" "), again.hex(" "))
    if hidref.meaning(again, True) != hidref.meaning(opt, True):
        return "optimizing again changes the meaning: %s -> %s" % (opt.hex(" "), again.hex(" "))
    return None


def check_stream(items, rec):
    blob = H.blob(items)
    try:
        want = hidref.meaning_items(items)
    except hidref.IllFormed:
        rec.skip()
        return None
    rec.state(blob)
    rec.step(len(items))
    out = sut.optimize_bytes(blob)
    rec.outcome(out)
    e = redundancy([i[:3] for i in hidref.decode(out)])
    if e:
        return "%s in %s (from %s)" % (e, out.hex(" "), blob.hex(" "))
    if hidref.meaning(out) != want:
        return "ranges or merged items do not stand for what they replace: %s (%s -> %s)" % (
            hidref.diff(want, hidref.meaning(out)), blob.hex(" "), out.hex(" "))
    return None


def families(tier):
    q = tier == "quick"
    f = [Family("tree-sweeps", lambda: T.sweeps(), check_tree, "one parameter over its range"),
         Family("trees-3x2", lambda: T.up_to(3, 2), check_tree, "3 values, 14 structures, <=2 deviations"),
         Family("param-words", lambda: T.param_words(3 if q else 4), check_tree, "every word of values of each parameter, every pair over two values"),
         Family("local-patterns", lambda: H.local_patterns(4 if q else 5), check_stream, "every list of indices of each kind of local item"),
         Family("value-words", lambda: H.value_words(4 if q else 5), check_stream, "every word of values of each global"),
         Family("stacks-%d" % (6 if q else 8), lambda: H.stacks(6 if q else 8), check_stream, "every balanced word of push, pop and two settings of each global, up to %d events" % (6 if q else 8)),
         Family("loose-%d" % (4 if q else 5), lambda: H.loose(4 if q else 5), check_stream, "local items, stack and page events in every order before their main item"),
         Family("aliases", H.aliases, check_stream, "values that differ in any single bit, next to each other"),
         Family("physical", lambda: H.physical(not q), check_stream, "two fields with any logical next to any physical bounds, stated or not"),
         Family("devices", lambda: H.devices(not q), check_stream, "whole devices, pairs of them, and every one-item edit of them"),
         Family("missing", H.missing, check_stream, "every subset of the globals never stated"),
         Family("bounds", lambda: H.bounds(5 if q else 6), check_stream, "range bounds and indices of all kinds in every order"),
         Family("bare", lambda: H.bare(3 if q else 4), check_stream, "fragments without collections, ending on any item"),
         Family("runs", H.runs, check_stream, "long runs of usages, strings, designators, whole or with one odd one out"),
         Family("wide", H.wide, check_stream, "wide values of each global next to every deviation"),
         Family("alias-trees", T.aliases, check_tree, "values that differ in any single bit, next to each other"),
         Family("wide-trees", T.wide, check_tree, "wide values of each parameter next to every deviation"),
         Family("long-streams", lambda: itertools.chain(H.many_reports(), H.long_ones(2000)), check_stream, "255 reports of different lengths; thousands of items, hundreds of levels"),
         Family("nestings-%d" % (6 if q else 8), lambda: T.nestings(6 if q else 8), check_tree, "every nesting of reports, collections and values up to %d events" % (6 if q else 8)),
         Family("long-trees", lambda: itertools.chain(T.many_reports(), T.long_ones(500)), check_tree, "255 reports of different lengths; hundreds of values"),
         Family("streams-3x2", lambda: H.up_to(3, 2), check_stream, "3 data items, <=2 deviations")]
    for w in H.WORDS:
        d = 4 if q else 5
        f.append(Family("words-%s-%d" % (w, d), lambda w=w, d=d: H.words(w, d), check_stream, "all words of length <=%d" % d))
    if q:
        f.append(Family("trees-2x3-core", lambda: T.trees(2, 3, options=T.CORE), check_tree, "2 values, 3 deviations, core options"))
    else:
        f.append(Family("trees-2x3", lambda: T.trees(2, 3), check_tree, "2 values, 3 deviations"))
        f.append(Family("stream-sweeps", lambda: H.sweeps(), check_stream, "one parameter over its range"))
    return f
