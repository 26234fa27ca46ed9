from explore import Family
import histories as H, hidref, sut

ASSUMPTIONS = ["HID 1.11 host semantics as written in lib/hidref.py (short usages bind to the page in force at the usage item; "
               "missing local items repeat the last one; physical 0/0 means logical)",
               "data values outside the alphabets and sweeps are not covered"]


def check(items, rec):
    blob = H.blob(items)
    try:
        want = hidref.meaning_items(items, True)
    except hidref.IllFormed:
        rec.skip()
        return None
    rec.state(want)
    rec.step(len(items))
    out = sut.optimize_bytes(blob)
    rec.outcome(out)
    try:
        got = hidref.meaning(out, True)
    except hidref.IllFormed as e:
        return "optimized stream is ill-formed: %s (%s -> %s)" % (e, blob.hex(" "), out.hex(" "))
    if got != want:
        return "meaning changed: %s (%s -> %s)" % (hidref.diff(want, got), blob.hex(" "), out.hex(" "))
    return None


def families(tier):
    q = tier == "quick"
    f = [Family("sweeps", lambda: H.sweeps(), check, "one parameter over its range"),
         Family("value-words", lambda: H.value_words(4 if q else 5), check, "every word of values of each global and of pairs of globals"),
         Family("local-patterns", lambda: H.local_patterns(4 if q else 5), check, "every list of indices of each kind of local item"),
         Family("stacks-%d" % (6 if q else 8), lambda: H.stacks(6 if q else 8), check, "every balanced word of push, pop and two settings of each global, up to %d events" % (6 if q else 8)),
         Family("loose-%d" % (5 if q else 6), lambda: H.loose(5 if q else 6), check, "local items, stack and page events in every order before their main item"),
         Family("aliases", H.aliases, check, "values that differ in any single bit, next to each other"),
         Family("physical", lambda: H.physical(not q), check, "two fields with any logical next to any physical bounds, stated or not"),
         Family("devices", lambda: H.devices(not q), check, "whole devices, pairs of them, and every one-item edit of them"),
         Family("missing", H.missing, check, "every subset of the globals never stated"),
         Family("bounds", lambda: H.bounds(5 if q else 6), check, "range bounds and indices of all kinds in every order"),
         Family("bare", lambda: H.bare(3 if q else 4), check, "fragments without collections, ending on any item"),
         Family("merging", H.merging, check, "65540 fields one by one, 257 of 256 elements"),
         Family("many-reports", H.many_reports, check, "255 reports of different lengths in one descriptor"),
         Family("runs", H.runs, check, "long runs of usages, strings, designators, whole or with one odd one out"),
         Family("wide", H.wide, check, "wide values of each global next to every deviation"),
         Family("long", lambda: H.long_ones(2000), check, "thousands of items, hundreds of levels"),
         Family("segments-3x2", lambda: H.up_to(3, 2), check, "3 data items, <=2 deviations"),
         Family("segments-2x3", lambda: H.segments(2, 3), check, "2 data items, 3 deviations")]
    for w in H.WORDS:
        d = 4 if q else 6
        f.append(Family("words-%s-%d" % (w, d), lambda w=w, d=d: H.words(w, d), check, "all words of length <=%d over %d events" % (d, len(H.WORDS[w]))))
    if not q:
        f.append(Family("segments-4x2", lambda: H.segments(4, 2), check, "4 data items, 2 deviations"))
        f.append(Family("segments-3x3", lambda: H.segments(3, 3), check, "3 data items, 3 deviations"))
    return f
