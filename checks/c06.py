from explore import Family
import itertools, trees as T, hidref, sut, treespec

ASSUMPTIONS = ["HID 1.11 host semantics as written in lib/hidref.py; meaning of a declared tree as written in lib/treespec.py",
               "trees: data values are all inside Reports or none is (HID forbids the mix); values outside the listed alphabets "
               "and sweeps are not covered"]


def check(tree, rec, codes=False):
    want = treespec.declared(tree)
    rec.state(want)
    for opt in (False, True):
        out = sut.compile_tree(sut.build(tree, codes), opt)
        rec.step()
        rec.outcome((opt, out))
        try:
            got = hidref.meaning(out)
        except hidref.IllFormed as e:
            return "compiled stream (optimize=%s) is ill-formed: %s: %s" % (opt, e, out.hex(" "))
        if got != want:
            return "compiled (optimize=%s) differs from declared: %s (%s)" % (opt, hidref.diff(want, got), out.hex(" ")[:600])
    return None


def check_codes(tree, rec):
    e = check(tree, rec, True) or check(tree, rec, "mixed")
    return e and "written with plain codes: " + e


def families(tier):
    f = [Family("sweeps", lambda: T.sweeps(), check, "one parameter over its range"),
         Family("param-words", lambda: T.param_words(3 if tier == "quick" else 4), check, "every word of values of each parameter, every pair over two values"),
         Family("arrays", T.arrays, check, "named arrays: length x count x logical minimum x usage x flags x form"),
         Family("nestings-%d" % (7 if tier == "quick" else 9), lambda: T.nestings(7 if tier == "quick" else 9), check, "every nesting of reports, collections and values up to %d events" % (7 if tier == "quick" else 9)),
         Family("aliases", T.aliases, check, "values that differ in any single bit, next to each other"),
         Family("physical", T.physical, check, "two values with any logical next to any physical bounds, given or not"),
         Family("codes", lambda: itertools.chain(T.up_to(2, 1 if tier == "quick" else 2), T.up_to(1, 2), T.nestings(5), T.param_words(2, 1)), check_codes,
                "trees written with plain codes instead of constants, in all or every other member: <=2 values, <=2 deviations; nestings; parameter words"),
         Family("wide", T.wide, check, "wide values of each parameter next to every deviation"),
         Family("many-reports", T.many_reports, check, "255 reports of different lengths in one tree"),
         Family("long", lambda: T.long_ones(1000), check, "a thousand values"),
         Family("trees-3x2", lambda: T.up_to(3, 2), check, "3 values, 14 structures, <=2 deviations"),
         Family("trees-2x3-core", lambda: T.trees(2, 3, options=T.CORE), check, "2 values, 3 deviations, core options")]
    if tier != "quick":
        f.append(Family("trees-2x3", lambda: T.trees(2, 3), check, "2 values, 3 deviations"))
        f.append(Family("trees-3x3", lambda: T.trees(3, 3), check, "3 values, 3 deviations"))
    return f
