"""C22: any selection of optimization passes keeps the meaning; the chain can be cut anywhere."""
import itertools
from explore import Family
import histories as H, hidref, sut, trees as T, treespec

CUTS = (0, 15, 25, 32, 37, 45, 55, 65, 75, 100)
FINE = (-1, 9.5, 10.25, 19.99, 20.5, 29.5, 34.75, 35.5, 39.5, 40.5, 49.5, 50.25, 59.5, 60.5, 69.5, 70.01, 79.5, 80.5, 1000)     # bounds close to a pass
WINDOWS = [(a, b) for i, a in enumerate(CUTS) for b in CUTS[i:]]
ASSUMPTIONS = ["selections are Optimizer.new(stream, min, max) with bounds between the precedences of the passes (%s): %d of them" % (", ".join(map(str, CUTS)), len(WINDOWS)),
               "descriptors written with full usages (what the compiler writes) for any selection; with short usages, under a usage page, for the "
               "selections that reach the top, which is where pages are read",
               "HID 1.11 host semantics as written in lib/hidref.py"]


def through(feed, *windows, how=sut.Optimizer.new):
    tape = out = sut.Tape()
    for a, b in windows:
        out = how(out, a, b)
    feed(out)
    if tape.closed != 1:
        raise AssertionError("closed %d times" % tape.closed)
    return tape.bytes()


def compare(feed, want, windows, rec, constants):
    plain, whole = through(feed), through(feed, (0, 100))
    for w in windows:
        out = through(feed, w)
        rec.step()
        rec.outcome((w, out))
        if w[0] == w[1]:
            if out != plain:
                return "no pass is selected by %s, but %s becomes %s" % (w, plain.hex(" "), out.hex(" "))
            continue
        try:
            got = hidref.meaning(out, constants)
        except hidref.IllFormed as e:
            return "passes %s: ill-formed: %s (%s -> %s)" % (w, e, plain.hex(" "), out.hex(" "))
        if got != want:
            return "passes %s: meaning changed: %s (%s -> %s)" % (w, hidref.diff(want, got), plain.hex(" "), out.hex(" "))
    for c in CUTS[1:-1]:
        out = through(feed, (0, c), (c, 100))
        rec.step()
        if out != whole:
            return "chain cut at %d gives %s, not %s" % (c, out.hex(" "), whole.hex(" "))
    return None


SPELLED = [(0, 100, lambda o, a, b: sut.Optimizer.new(o)), (0, 45, lambda o, a, b: sut.Optimizer.new(o, max=b)), (45, 100, lambda o, a, b: sut.Optimizer.new(o, a)),
           (45, 100, lambda o, a, b: sut.Optimizer.new(o, min=a)), (25, 55, lambda o, a, b: sut.Optimizer.new(max=b, min=a, stream=o))]


def check_bounds(case, rec):
    """bounds of any value, the lower above the upper included; arguments left out or by name"""
    name, a, b = case
    blob = H.blob(H.DEVICES[name])
    feed = lambda out: sut.parse("binary", blob, out)
    rec.state(case)
    rec.step()
    plain, whole = through(feed), through(feed, (0, 100))
    if a == b:                                  # cut there
        got = through(feed, (0, a), (a, 100)) if 0 < a < 100 else whole
        if got != whole:
            return "chain cut at %s gives %s, not %s" % (a, got.hex(" "), whole.hex(" "))
    out = through(feed, (a, b))
    if a >= b and out != plain:
        return "no pass is selected by %s, but %s becomes %s" % ((a, b), plain.hex(" "), out.hex(" "))
    if a <= 9.5 and b >= 80.5 and out != whole:
        return "all passes are selected by %s, but the result is %s, not %s" % ((a, b), out.hex(" "), whole.hex(" "))
    if a < b and b >= 80.5:
        if hidref.meaning(out, True) != hidref.meaning(plain, True):
            return "passes %s: meaning changed (%s -> %s)" % ((a, b), plain.hex(" "), out.hex(" "))
    for x, y, how in SPELLED:
        rec.step()
        if through(feed, (x, y), how=how) != through(feed, (x, y)):
            return "selection %s differs with its arguments left out or by name" % ((x, y),)
    return None


def check_tree(tree, rec):
    rec.state(tree)
    want = treespec.declared(tree)

    def feed(out):
        sut.build(tree).accept(sut.Streamer(out))
        out.close()
    return compare(feed, want, WINDOWS, rec, False)


TOP = [w for w in WINDOWS if w[1] == 100] + [(0, 0)]


def check_stream(items, rec):
    blob = H.blob(items)
    try:
        want = hidref.meaning_items(items, True)
    except hidref.IllFormed:
        rec.skip()
        return None
    rec.state(blob)
    return compare(lambda out: sut.parse("binary", blob, out), want, TOP, rec, True)


def families(tier):
    q = tier == "quick"
    n = 0 if q else 1
    f = [Family("bounds-of-selections", lambda: itertools.product(sorted(H.DEVICES) if not q else ("battery", "gamepad", "touch"), FINE + CUTS, FINE + CUTS), check_bounds,
                "whole devices x every pair of %d bounds, crossed ones included" % len(FINE + CUTS)),
         Family("nestings", lambda: T.nestings(5 + n), check_tree, "trees: every nesting of reports, collections and values up to %d events" % (5 + n)),
         Family("trees", lambda: T.up_to(2, 2, options=T.CORE) if q else T.up_to(2, 2), check_tree, "trees: 2 values, <=2 deviations%s" % (", core options" if q else "")),
         Family("trees-3", lambda: T.up_to(3, 1), check_tree, "trees: 3 values, <=1 deviation"),
         Family("tree-arrays", lambda: itertools.islice(T.arrays(), 0, None, 7 if q else 1), check_tree, "trees: named arrays"),
         Family("streams", lambda: H.up_to(3, 1) if q else H.up_to(3, 2), check_stream, "3 data items, <=%d deviations" % (1 + n)),
         Family("streams-2", lambda: H.segments(2, 2), check_stream, "2 data items, 2 deviations"),
         Family("devices", lambda: itertools.islice(H.devices(not q), 0, None, 5 if q else 1), check_stream, "whole devices, pairs of them, and every one-item edit of them (quick: every fifth)"),
         Family("missing", H.missing, check_stream, "every subset of the globals never stated"),
         Family("bounds", lambda: H.bounds(4 + n), check_stream, "range bounds and indices of all kinds in every order"),
         Family("local-patterns", lambda: H.local_patterns(3 + n), check_stream, "every list of indices of each kind of local item"),
         Family("stacks", lambda: H.stacks(5 + n), check_stream, "every balanced word of push, pop and two settings of each global"),
         Family("loose", lambda: H.loose(4 + n), check_stream, "local items, stack and page events in every order before their main item"),
         Family("bare", lambda: H.bare(2 + n), check_stream, "fragments without collections, ending on any item")]
    if not q:
        f.append(Family("tree-words", lambda: T.param_words(2), check_tree, "trees: every pair of values of each parameter in two values"))
    for w in H.WORDS:
        f.append(Family("words-%s" % w, lambda w=w: H.words(w, 3 + n), check_stream, "all words of length <=%d" % (3 + n)))
    return f
