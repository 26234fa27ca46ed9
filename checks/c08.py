"""C08: decompile, recompile, and compare meanings on the reference host."""
from explore import Family
from hidref import *
import histories as H, hidref, itertools, sut
from usages import TABLE, TYPED

NARIES = {TABLE[n] for n in TYPED["NAry"]}

ASSUMPTIONS = [
    "well-formed: balanced collections and Push/Pop, data items inside collections, report IDs used for all reports or for none",
    "constant fields are padding (compared through positions and report lengths)",
    "known findings (known_findings.json), each re-checked on its recorded witness and otherwise outside the explored space: delimited usages, "
    "strings or designators on collections, arrays with several strings or designators, arrays with several usages whose number differs "
    "from the logical range, physical ranges on such arrays",
    "a Variable item of count 1 with several usages inside a named-array collection is the old compiler's form of a named array and read as one"]


class Outside(Exception):
    pass


class Domain(Host):
    def _local(self, tag, value):
        if tag == DELIM:
            raise Outside("delimiter")
        Host._local(self, tag, value)

    def feed(self, kind, tag, value):
        if kind == MAIN and tag == COLLECTION and (self.strings or self.desigs):
            raise Outside("string or designator on a collection")
        Host.feed(self, kind, tag, value)

    def _data(self, way, flags):
        if not self.heads:
            raise IllFormed("data outside collections")
        lmin, lmax, pmin, pmax = self.g[:4]
        named = self.usages and len(self.usages) == lmax - lmin + 1
        if not flags & CONSTANT:
            if not flags & VARIABLE:
                if len(self.strings) > 1 or len(self.desigs) > 1:
                    raise Outside("array with several strings or designators")
                if len(self.usages) > 1 and not named:
                    raise Outside("array with usages and logical range of different lengths")
                if named and (pmin or pmax) and (pmin, pmax) != (lmin, lmax):
                    raise Outside("array with a physical range")
            elif flags == VARIABLE and named and len(self.usages) > 1 and self.g[8] == 1:
                kind, usage = self.heads[-1][:2]
                if usage is not None and (kind == 4 or kind == 2 and usage in NARIES):
                    raise Outside("old form of named arrays")
        Host._data(self, way, flags)

    def result(self):
        rids = {r for (_, r), _ in self.totals.items()}
        if 0 in rids and len(rids) > 1:
            raise IllFormed("report id on some reports only")
        return Host.result(self)


def check(items, rec):
    items = [tuple(i) for i in items]
    d = Domain()
    try:
        for i in items:
            d.feed(*i)
        want = d.result()
    except (Outside, hidref.IllFormed):
        rec.skip()
        return None
    return compare(items, want, rec)


def compare(items, want, rec):
    blob = H.blob(items)
    rec.state(want)
    for opt in (False, True):
        rec.step(len(items))
        out = sut.compile_tree(sut.extract(blob), opt)
        rec.outcome((opt, out))
        try:
            got = hidref.meaning(out)
        except hidref.IllFormed as e:
            return "recompiled (optimize=%s) is ill-formed: %s (%s -> %s)" % (opt, e, blob.hex(" "), out.hex(" "))
        if got != want:
            return "meaning changed (optimize=%s): %s (%s -> %s)" % (opt, hidref.diff(want, got), blob.hex(" "), out.hex(" "))
    return None


G, L, M = H.G, H.L, H.M
NARY = 0xc0080                # a usage of named-array type


def arrays(small=False):
    """arrays and named arrays: enclosing collection x flags x count x usages x logical minimum x neighbours"""
    U3 = [L(USAGE, 0x70004), L(USAGE, 0x70005), L(USAGE, 0x70006)]
    US = [[], U3[:1], U3[:2], U3, [L(UMIN, 0x70004), L(UMAX, 0x70007)], [L(USAGE, 0x70010), L(USAGE, 0x70004)],
          [L(USAGE, 0x70010)] + [L(UMIN, 0x70004), L(UMAX, 0x70005)], [L(USAGE, 0x70004), L(USAGE, 0x90005)]]
    for kind, usage in ((1, 0x10005), (2, 0x10005), (2, NARY), (4, NARY), (4, 0x10005), (0, NARY), (2, None)):
        for flags in (0, 2, 6, 0x100) if small else (0, 2, 4, 6, 0x100, 0x42):
            for count in (1, 2) if small else (1, 2, 3):
                for us in US:
                    for lmin in (0, -1) if small else (0, 1, -1):
                        for span in {0, max(0, n_usages(us) - 1), n_usages(us)}:
                            for nb in (0, 3) if small else (0, 1, 2, 3):
                                for extra in ([], [L(SIDX, 3)], [G(UNIT, 0x11), G(UEXP, 2)]):
                                    head = ([L(USAGE, usage)] if usage is not None else []) + [M(COLLECTION, kind)]
                                    body = us + extra + [G(LMIN, lmin), G(LMAX, lmin + span), G(RCOUNT, count), M(INPUT, flags)]
                                    nbr = [G(LMIN, 0), G(LMAX, 1), G(UNIT, 0), G(UEXP, 0), G(RCOUNT, 1), L(USAGE, 0x90001), M(INPUT, 2)]
                                    yield [L(USAGE, 0x10005), M(COLLECTION, 1), G(RSIZE, 8)] + head + \
                                        (nbr if nb & 1 else []) + body + (nbr if nb & 2 else []) + [M(ENDCOLL, 0)] + nbr + [M(ENDCOLL, 0)]
                                    if not extra and nb in (0, 3):        # after another field, another collection, another array
                                        for first in (nbr, [M(COLLECTION, 2)] + nbr + [M(ENDCOLL, 0)], head + body + [M(ENDCOLL, 0)]):
                                            yield [L(USAGE, 0x10005), M(COLLECTION, 1), G(RSIZE, 8)] + first + head + \
                                                (nbr if nb & 1 else []) + body + (nbr if nb & 2 else []) + [M(ENDCOLL, 0)] + nbr + [M(ENDCOLL, 0)]


def n_usages(us):
    n = 0
    for k, t, v in us:
        n += 1 if t == USAGE else 0
        if t == UMIN:
            lo = v
        if t == UMAX:
            n += v - lo + 1
    return n


def unaligned():
    """sizes after each other, no padding unless written, over two reports"""
    for sizes in itertools.product((1, 3, 8, 12, 16), repeat=3):
        for counts in itertools.product((1, 3), repeat=3):
            for mode in range(6):
                it = [L(USAGE, 0x10005), M(COLLECTION, 1), G(LMIN, 0), G(LMAX, 1)]
                for i, (s, c) in enumerate(zip(sizes, counts)):
                    if mode == 1:
                        it.append(G(RID, 1 + i % 2))
                    w = (INPUT, OUTPUT)[i % 2] if mode == 2 else INPUT
                    fl = 3 if mode == 3 and i == 1 else 0x102 if mode == 4 else 0 if mode == 5 and i == 0 else 2
                    it += [G(RSIZE, s), G(RCOUNT, c), L(USAGE, 0x10030 + i), M(w, fl)]
                yield it + [M(ENDCOLL, 0)]


def reports(n):
    """report ids along a word of fields and collections"""
    ev = [[G(RID, 1)], [G(RID, 2)], [L(USAGE, 0x31), M(INPUT, 2)], [L(USAGE, 0x32), M(OUTPUT, 2)], [M(COLLECTION, 2)], [M(ENDCOLL, 0)],
          [L(USAGE, 5), M(COLLECTION, 0)], [M(INPUT, 3)], [G(PUSH, 0)], [G(POP, 0)]]
    for d in range(n + 1):
        for w in itertools.product(ev, repeat=d):
            it = H.finish(list(H.PROLOGUE) + [G(RID, 1)] + sum(w, []))
            if it is not None:
                yield it


def report_trees(n):
    """every nesting of collections around fields of two reports, and of one report type or two"""
    ev = ["1", "2", "(", ")"]
    for d in range(n + 1):
        for w in itertools.product(ev, repeat=d):
            for ways in ((INPUT,), (INPUT, FEATURE)):
                it, depth, k = list(H.PROLOGUE), 1, 0
                for e in w:
                    if e == "(":
                        it += [L(USAGE, 1), M(COLLECTION, 2)]
                        depth += 1
                    elif e == ")":
                        it.append(M(ENDCOLL, 0))
                        depth -= 1
                        if depth < 1:
                            break
                    else:
                        it += [G(RID, int(e)), L(USAGE, 0x30 + k), M(ways[k % len(ways)], 2)]
                        k += 1
                else:
                    yield it + [M(ENDCOLL, 0)] * depth


def counts():
    """count x size x flags x number of usages, strings, designators"""
    for c in (0, 1, 2, 3, 127, 128, 255, 256, 257, 1000):
        for s in (1, 8, 12, 32):
            for f in (2, 0, 1, 3, 0x102, 0x100, 6, 0x42):
                for loc in ([], [L(USAGE, 0x30)], [L(USAGE, 0x30), L(USAGE, 0x31)], H.urange(1, 300), [L(SMIN, 1), L(SMAX, 3)], [L(DIDX, 1), L(DIDX, 0), L(DIDX, 2)]):
                    yield H.PROLOGUE + [G(RSIZE, s), G(RCOUNT, c)] + loc + [M(INPUT, f), L(USAGE, 0x38), G(RCOUNT, 1), M(INPUT, 2), M(ENDCOLL, 0)]


# Specific descriptors that the decompiler is known not to carry over (known_findings.json); reported, not hidden.
P, E = [L(USAGE, 0x10005), M(COLLECTION, 1), G(RSIZE, 8), G(RCOUNT, 1), G(LMIN, 0), G(LMAX, 1)], [M(ENDCOLL, 0)]
WITNESSES = {
    "C08-K1": P + [G(LMAX, 255), L(UMIN, 0x70000), L(UMAX, 0x70065), G(RCOUNT, 6), M(INPUT, 0)] + E,
    "C08-K2": P + [L(DELIM, 1), L(USAGE, 0x10030), L(USAGE, 0x10031), L(DELIM, 0), M(INPUT, 2)] + E,
    "C08-K3": [L(SIDX, 4)] + P + [L(USAGE, 0x10030), M(INPUT, 2)] + E,
    "C08-K4": P + [L(UMIN, 0x70000), L(UMAX, 0x70001), L(SMIN, 1), L(SMAX, 2), M(INPUT, 0)] + E,
    "C08-K5": P + [L(UMIN, 0x70000), L(UMAX, 0x70001), G(PMIN, 5), G(PMAX, 6), M(INPUT, 0)] + E,
}


def check_witness(case, rec):
    return compare(case[1], hidref.meaning_items(case[1]), rec)


def known(fid):
    return lambda family, case, err: family.name == "known-witnesses" and case[0] == fid and case[1] == WITNESSES[fid] \
        and err.startswith("meaning changed")


KNOWN = {fid: known(fid) for fid in WITNESSES}


def families(tier):
    q = tier == "quick"
    f = [Family("sweeps", lambda: H.sweeps(), check, "one parameter over its range"),
         Family("arrays", arrays, check, "arrays: 7 collections x 6 flags x 3 counts x 8 usage lists x 3 minima x ranges x neighbours inside and before x extras"),
         Family("unaligned", unaligned, check, "3 fields: 5 sizes x 2 counts each x 6 modes"),
         Family("reports-%d" % (4 if q else 6), lambda: reports(4 if q else 6), check, "all words of report, field, collection, stack events"),
         Family("report-trees", lambda: report_trees(7 if q else 9), check, "all nestings of collections and fields of two reports, up to %d events" % (7 if q else 9)),
         Family("counts", counts, check, "10 counts x 4 sizes x 8 flags x 6 lists of local items"),
         Family("value-words", lambda: H.value_words(4 if q else 5), check, "every word of values of each global and of pairs of globals"),
         Family("local-patterns", lambda: H.local_patterns(4 if q else 5), check, "every list of indices of each kind of local item"),
         Family("stacks-%d" % (6 if q else 8), lambda: H.stacks(6 if q else 8), check, "every balanced word of push, pop and two settings of each global, up to %d events" % (6 if q else 8)),
         Family("loose-%d" % (5 if q else 6), lambda: H.loose(5 if q else 6), check, "local items, stack and page events in every order before their main item"),
         Family("aliases", H.aliases, check, "values that differ in any single bit, next to each other"),
         Family("devices", lambda: H.devices(not q), check, "whole devices, pairs of them, and every one-item edit of them"),
         Family("missing", H.missing, check, "every subset of the globals never stated"),
         Family("bounds", lambda: H.bounds(5 if q else 6), check, "range bounds and indices of all kinds in every order"),
         Family("many-reports", H.many_reports, check, "255 reports of different lengths in one descriptor"),
         Family("runs", lambda: H.runs(q), check, "long runs of usages, strings, designators, whole or with one odd one out"),
         Family("wide", lambda: H.wide(q), check, "wide values of each global next to every deviation"),
         Family("long", lambda: H.long_ones(2000), check, "thousands of items, hundreds of levels"),
         Family("segments-3x2", lambda: H.up_to(3, 2), check, "3 data items, <=2 deviations")]
    for w in H.WORDS:
        d = 4 if q else 5
        f.append(Family("words-%s-%d" % (w, d), lambda w=w, d=d: H.words(w, d), check, "all words of length <=%d" % d))
    f.append(Family("known-witnesses", lambda: sorted(WITNESSES.items()), check_witness, "recorded findings"))
    if not q:
        f.append(Family("segments-2x3", lambda: H.segments(2, 3), check, "2 data items, 3 deviations"))
        f.append(Family("segments-3x3", lambda: H.segments(3, 3), check, "3 data items, 3 deviations"))
    return f
