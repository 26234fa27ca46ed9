"""C10: usage constants, names and codes."""
from explore import Family
import hidref, sut
from usages import STANDARD, ARCADE, BY_CODE, TYPED, namespace

ASSUMPTIONS = ["the codes HID assigns are those of data/usages.json (reviewed against the HID usage tables, HUTRRs included); constants added "
               "later are checked for consistency only; their types are those of data/types.json",
               "arcade constants are vendor-page constants that exist only after importing hrdc.usage.arcade"]
U = sut.Usage
FRESH = {page << 16 | n: str(U.lookup(page << 16 | n)) for page in (9, 10) for n in range(128)}
TYPES = [(n, getattr(sut.usage_pkg.usage, n)) for n in sorted(TYPED)]


def split_ok(u, code, what):
    p, low = u.split()
    if (int(p), int(low)) != (code >> 16, code & 0xffff):
        return "%s: split into %s, %s" % (what, hex(int(p)), hex(int(low)))
    return None


def consistent(name, code, ns):
    u = eval(name, ns)
    if int(u) != code:
        return "%s is %#x, not %#x" % (name, int(u), code)
    if str(u) != name:
        return "%s prints as %s" % (name, u)
    for how, l in (("lookup", U.lookup(code)), ("lookup of itself", U.lookup(u)), ("lookup of evaluated name", U.lookup(int(eval(str(u), ns))))):
        if int(l) != code or str(l) != name or not isinstance(l, U):
            return "%s of %s gives %s (%#x)" % (how, name, l, int(l))
        e = split_ok(l, code, "%s of %s" % (how, name))
        if e:
            return e
    p, low = u.split()
    if "%s.%s" % (p, low) != name:
        return "%s split into names %s and %s" % (name, p, low)
    i = U.inpage(code >> 16, code & 0xffff)
    if int(i) != code & 0xffff or str(i) != str(low):
        return "%s in its page is %s (%#x)" % (name, i, int(i))
    if int(U.page(code >> 16)) != code >> 16:
        return "page of %s" % name
    if not (u == code) or hash(u) != hash(code):
        return "%s is not equal to its code" % name
    return None


def check_std(case, rec):
    rec.state(case)
    rec.step()
    ns = namespace()
    e = consistent(case[0], case[1], ns)
    if e:
        return e
    for n, t in TYPES:
        if bool(t.test(eval(case[0], ns))) != bool(t.test(case[1])):
            return "%s test differs for %s and for its code" % (n, case[0])
    return None


def check_types(case, rec):
    """each type is the type of the constants listed, and of no code without a name"""
    n, t = TYPES[case]
    rec.state(n)
    ns = namespace()
    yes = [c for c in STANDARD if t.test(eval(c, ns))]
    rec.step(len(STANDARD))
    if set(yes) != set(TYPED[n]):
        return "%s: type of %s" % (n, sorted(set(yes) ^ set(TYPED[n]))[:5])
    for page in sorted({c >> 16 for c in STANDARD.values()} - {9, 10}) + [0x55, 0xff77]:
        for code in range(page << 16, (page << 16) + 0x300):
            rec.step()
            if code not in BY_CODE and t.test(code):
                return "%s: type of %#x" % (n, code)
    return None


def check_arcade(case, rec):
    rec.state(case)
    rec.step()
    return consistent(case[0], case[1], namespace(True))


def registered():
    r = getattr(U, "reverse", None)
    return {c: u for c, u in r.items() if isinstance(c, int) and isinstance(u, U)} if isinstance(r, dict) else {}


def check_registered(code, rec):
    """anything the registry knows, in the table or not"""
    u = registered()[code]
    rec.state(code)
    rec.step()
    if int(u) != code:
        return "registered under %#x but is %#x" % (code, int(u))
    return consistent(str(u), code, namespace())


def module_constants():
    import types
    return sorted((m, a) for m, mod in vars(sut.usage_pkg).items() if isinstance(mod, types.ModuleType) and m != "usage"
                  for a, v in vars(mod).items() if isinstance(v, U))


def check_module(case, rec):
    m, a = case
    u = getattr(getattr(sut.usage_pkg, m), a)
    rec.state(case)
    rec.step()
    e = consistent(str(u), int(u), namespace())
    if e:
        return "%s.%s: %s" % (m, a, e)
    if U.lookup(int(u)) != u or str(U.lookup(int(u))) != str(u):
        return "%s.%s is not what its code looks up to" % case
    return None


def check_numbered(case, rec):
    """Button(n), Ordinal(n)"""
    what, n = case
    rec.state(case)
    rec.step(2)
    ns = namespace()
    page = {"button.Button": 9, "ordinal.Ordinal": 10}[what]
    code = page << 16 | n
    if n < 128 and FRESH[code] != "%s(%d)" % (what, n):
        return "%#x is known as %s before anyone names it" % (code, FRESH[code])
    before = U.lookup(code)
    if int(before) != code:
        return "lookup(%#x) is %#x" % (code, int(before))
    e = split_ok(before, code, "code %#x" % code)
    if e:
        return e
    name = "%s(%d)" % (what, n)
    return consistent(name, code, ns)


def check_unnamed(case, rec):
    page, lo, hi = case
    for low in range(lo, hi):
        code = page << 16 | low
        rec.step()
        u = U.lookup(code)
        if int(u) != code:
            return "lookup(%#x) is %#x" % (code, int(u))
        e = split_ok(u, code, "lookup(%#x)" % code)
        if e:
            return e
        if code not in BY_CODE and page not in (9, 10):
            # its text is an expression for the same code
            if int(eval(str(u), {"__builtins__": {}}, namespace_cached())) != code:
                return "%#x prints as %s" % (code, u)
        i = U.inpage(page, low)
        if int(i) != low:
            return "inpage(%#x, %#x) is %#x" % (page, low, int(i))
    if int(U.page(page)) != page:
        return "page(%#x) is %#x" % (page, int(U.page(page)))
    rec.state(case)
    return None


def check_foreign(code, rec):
    """Named constants of one's own, looked up, do not displace those of the tables (nor name a code that has no name)."""
    rec.state(code)
    name = str(U.lookup(code))
    for own in ("mine", "mine.Own", "mine.too.Much", hex(code)):
        c = sut.item.NamedConstant(own, code)
        rec.step(3)
        u = U.lookup(c)
        if int(u) != code:
            return "lookup of a constant %s = %#x is %#x" % (own, code, int(u))
        e = split_ok(u, code, "lookup of a constant %s = %#x" % (own, code))
        if e:
            return e
        if sut.item.Usage(c).bytes() != hidref.encode(hidref.LOCAL, hidref.USAGE, code):
            return "usage item of a constant %s = %#x is %s" % (own, code, sut.item.Usage(c).bytes().hex(" "))
        if str(U.lookup(code)) != name:
            return "after a constant %s = %#x was looked up, its code is known as %s instead of %s" % (own, code, U.lookup(code), name)
    return None


_ns = []


def namespace_cached():
    if not _ns:
        _ns.append(namespace())
    return _ns[0]


def blocks(pages, n):
    for p in pages:
        for a in range(0, n, 256):
            yield (p, a, a + 256)


def families(tier):
    q = tier == "quick"
    ends = lambda: ((p, lo, lo + 2) for p in range(0x10000) for lo in (0, 0xfffe))
    pages = list(range(256)) + [0xff00, 0xff01] if not q else [0, 1, 2, 3, 5, 6, 7, 8, 9, 10, 11, 12, 13, 15, 0x20, 0x59, 0x8c, 0x90, 0xff00]
    return [Family("table", lambda: sorted(STANDARD.items()), check_std, "all %d constants" % len(STANDARD)),
            Family("modules", module_constants, check_module, "every usage constant of every table module"),
            Family("registry", lambda: sorted(registered()), check_registered, "every registered code"),
            Family("numbered", lambda: ((w, n) for n in (list(range(0, 2048)) + [1 << b for b in range(11, 16)] + [65535] if q else range(65536))
                                        for w in ("button.Button", "ordinal.Ordinal")), check_numbered, "button and ordinal numbers"),
            Family("codes", lambda: blocks(pages, 0x10000), check_unnamed, "codes of %d pages, named or not" % len(pages)),
            Family("page-ends", ends, check_unnamed, "all 65536 pages x first and last codes"),
            Family("types", lambda: range(len(TYPES)), check_types, "%d usage types x all constants and codes without a name" % len(TYPES)),
            Family("foreign", lambda: sorted(BY_CODE) + [p << 16 | n for p in (0, 9, 10, 0x55, 0xff00, 0xffff) for n in (0, 1, 2, 127, 128, 0x7fff, 0xffff)], check_foreign,
                   "constants of one's own for every code of the tables and for codes without a name"),
            Family("arcade", lambda: sorted(ARCADE.items()), check_arcade, "vendor page constants")]
