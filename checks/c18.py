"""C18: decompile/compile cycles settle."""
from explore import Family
from hidref import *
import itertools
import c08, histories as H, hidref, sut, trees as T

ASSUMPTIONS = ["descriptors as in C08 (well-formed, outside its known findings), and what trees of C06 compile to",
               "a cycle: decompile, compile with optimization"]


def cycle(b):
    return sut.compile_tree(sut.extract(b), True)


def divided(b):
    """constant fields in several elements: the decompiler makes one padding of them"""
    count, stack = 0, []
    for k, t, v in (i[:3] for i in hidref.decode(b)):
        if k == GLOBAL:
            if t == RCOUNT:
                count = v
            elif t == PUSH:
                stack.append(count)
            elif t == POP:
                count = stack.pop()
        elif k == MAIN and t in (INPUT, OUTPUT, FEATURE) and v & CONSTANT and count != 1:
            return True
    return False


def settle(b, rec):
    rec.state(b)
    rec.step(3)
    b1 = cycle(b)
    seen = [b, b1]
    while True:
        b2 = cycle(seen[-1])
        rec.step()
        if b2 == seen[-1]:
            break
        if not divided(seen[-1]):
            return "cycle %d changes the bytes: %s" % (len(seen), " -> ".join(x.hex(" ") for x in seen + [b2]))
        if len(seen) > 2 + paddings_in(b1):
            return "cycles do not settle: %s" % " -> ".join(x.hex(" ") for x in seen + [b2])
        seen.append(b2)
    rec.outcome(seen[-1])
    return None


def paddings_in(b):
    return sum(1 for k, t, v in (i[:3] for i in hidref.decode(b)) if k == MAIN and t in WAYS and v & CONSTANT)


def check_items(items, rec):
    items = [tuple(i) for i in items]
    d = c08.Domain()
    try:
        for i in items:
            d.feed(*i)
        d.result()
    except (c08.Outside, hidref.IllFormed):
        rec.skip()
        return None
    return settle(H.blob(items), rec)


def paddings(depth):
    sizes = [(s, c) for s in (1, 3, 4, 5, 8, 10, 16) for c in (1, 2)]
    alpha = [[H.G(RSIZE, s), H.G(RCOUNT, c), H.M(w, 1)] for s, c in sizes for w in (INPUT, OUTPUT)] + [[H.G(RSIZE, 8), H.G(RCOUNT, 1)] + H.U_IN]
    for d in range(1, depth + 1):
        for w in itertools.product(alpha, repeat=d):
            yield H.PROLOGUE + sum(w, []) + [H.M(ENDCOLL, 0)]


def tree_paddings(depth):
    alpha = [("pad", w, s) for w in (8, 9) for s in (1, 2, 4, 7, 8, 10, 16)] + [("align", 8, 16), ("align", 8, 8), T.V(size=3), T.V(usage=0x10031, count=2)]
    for d in range(1, depth + 1):
        for w in itertools.product(alpha, repeat=d):
            yield T.top(*w)


def check_tree(t, rec):
    for opt in (True, False):
        e = settle(sut.compile_tree(sut.build(t), opt), rec)
        if e:
            return e
    return None


def families(tier):
    q = tier == "quick"
    n = 0 if q else 1
    f = [Family("sweeps", lambda: H.sweeps(), check_items, "one parameter over its range"),
         Family("arrays", lambda: c08.arrays(q), check_items, "arrays in named array and other collections"),
         Family("unaligned", c08.unaligned, check_items, "3 fields: 5 sizes x 2 counts each x 6 modes"),
         Family("reports-%d" % (4 + n), lambda: c08.reports(4 + n), check_items, "all words of report, field, collection, stack events"),
         Family("report-trees", lambda: c08.report_trees(6 + 2 * n), check_items, "all nestings of collections and fields of two reports, up to %d events" % (6 + 2 * n)),
         Family("counts", c08.counts, check_items, "10 counts x 4 sizes x 8 flags x 6 lists of local items"),
         Family("value-words", lambda: H.value_words(3 + 2 * n), check_items, "every word of values of each global and of pairs of globals"),
         Family("local-patterns", lambda: H.local_patterns(3 + 2 * n), check_items, "every list of indices of each kind of local item"),
         Family("stacks", lambda: H.stacks(5 + 2 * n), check_items, "every balanced word of push, pop and two settings of each global, up to %d events" % (5 + 2 * n)),
         Family("loose", lambda: H.loose(4 + 2 * n), check_items, "local items, stack and page events in every order before their main item"),
         Family("aliases", H.aliases, check_items, "values that differ in any single bit, next to each other"),
         Family("devices", lambda: H.devices(not q), check_items, "whole devices, pairs of them, and every one-item edit of them"),
         Family("missing", H.missing, check_items, "every subset of the globals never stated"),
         Family("bounds", lambda: H.bounds(5 if q else 6), check_items, "range bounds and indices of all kinds in every order"),
         Family("segments", lambda: H.up_to(3, 2), check_items, "3 data items, <=2 deviations"),
         Family("paddings", lambda: paddings(3 + n), check_items, "every sequence of up to %d constant fields and values: 7 sizes x 2 counts x 2 report types" % (3 + n)),
         Family("tree-paddings", lambda: tree_paddings(3 + n), check_tree, "every sequence of up to %d paddings, alignments and values" % (3 + n)),
         Family("tree-sweeps", lambda: T.sweeps(*((100, 300) if q else ())), check_tree, "trees: one parameter over its range"),
         Family("tree-arrays", T.arrays, check_tree, "trees: named arrays: length x count x logical minimum x usage x flags x form"),
         Family("tree-words", lambda: T.param_words(2 + n), check_tree, "trees: every word of values of each parameter"),
         Family("tree-nestings", lambda: T.nestings(5 + 2 * n), check_tree, "trees: every nesting of reports, collections and values up to %d events" % (5 + 2 * n)),
         Family("trees", lambda: T.up_to(2, 2) if q else T.up_to(3, 2), check_tree, "trees: %d values, <=2 deviations" % (2 + n))]
    for w in H.WORDS:
        d = 3 + 2 * n
        f.append(Family("words-%s-%d" % (w, d), lambda w=w, d=d: H.words(w, d), check_items, "all words of length <=%d" % d))
    return f
