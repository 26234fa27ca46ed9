"""C19: hierarchical elements are the list of what was put in them, however they were built."""
import itertools
from explore import Family
import sut

ASSUMPTIONS = ["taking the last element of an empty one, or an index out of range, raises",
               "members are compared by identity, and through the compiled bytes"]
D, U = sut.D, sut.U
KINDS = ("coll", "rep", "top")


def node(i):
    if i < 3:
        return D.Value(D.Value.Input, U(0x10030 + i), 8, logicalMin=0, logicalMax=1 + i)
    if i == 3:
        return D.Padding(D.Value.Input, 4)
    if i == 5:
        return D.Collection(D.Collection.Logical, U(0x10001))
    if i == 6:
        return D.Report(7)
    return D.Collection(D.Collection.Logical, U(0x10001), D.Value(D.Value.Input, U(0x10038), 8, logicalMin=0, logicalMax=9))


def make(kind, members):
    if kind == "coll":
        return D.Collection(D.Collection.Application, U(0x10005), *members)
    if kind == "rep":
        return D.Report(7, *members)
    return D.TopLevel(*members)


def bytes_of(kind, h):
    t = h if kind != "rep" else D.Collection(D.Collection.Application, U(0x10005), h)
    return sut.compile_tree(t, False) + b"--" + sut.compile_tree(t, True)


def same(a, b):
    return len(a) == len(b) and all(x is y for x, y in zip(a, b))


def audit(h, model):
    if len(h) != len(model):
        return "length %d, not %d" % (len(h), len(model))
    if not same(list(h), model) or not same([x for x in h], model):
        return "iterates over other members"
    for i in range(-len(model), len(model)):
        if h[i] is not model[i]:
            return "member %d is another one" % i
    for i in (len(model), -len(model) - 1, len(model) + 5):
        try:
            h[i]
        except Exception:
            continue
        return "index %d of %d members" % (i, len(model))
    for s in (slice(None), slice(1, None), slice(None, -1), slice(None, None, -1)):
        if not same(list(h[s]), model[s]):
            return "slice %s" % s
    return None


OPS = ["a0", "a1", "a3", "a4", "a5", "pop", "compile"]


AT_ONCE = {}


def check_history(case, rec):
    kind, start, word = case
    nodes = [node(i) for i in range(7)]
    given = [nodes[i] for i in start]
    h, model = make(kind, given), list(given)
    other = make(kind, given)              # built from the same list, to stay as it is
    for op in word:
        rec.step()
        if op == "pop":
            try:
                h.pop()
            except Exception:
                if model:
                    return "cannot pop one of %d members" % len(model)
            else:
                if not model:
                    return "popped from an empty one"
                model.pop()
        elif op == "compile":
            bytes_of(kind, h)
        else:
            h.append(nodes[int(op[1])])
            model.append(nodes[int(op[1])])
        e = audit(h, model)
        if e:
            return "after %s: %s" % (op, e)
    rec.state((kind, [nodes.index(m) for m in model]))
    key = kind, tuple(nodes.index(m) for m in model)
    if key not in AT_ONCE:
        AT_ONCE[key] = bytes_of(kind, make(kind, model))
    if bytes_of(kind, h) != AT_ONCE[key]:
        return "compiles differently from the same members given at once"
    if not same(given, [nodes[i] for i in start]):
        return "the list given was changed"
    return audit(other, given) and "a second one built from the same members changed too"


def histories(depth):
    for kind in KINDS:
        for start in ((), (0,), (1, 4), (2, 2, 0), (5, 5, 6, 6, 3, 3)):
            for d in range(depth + 1):
                for w in itertools.product(OPS, repeat=d):
                    yield (kind, start, w)


def check_big(case, rec):
    kind, n, k = case
    rec.state(case)
    nodes = [D.Value(D.Value.Input, U(0x90001 + i * 7 % n), 1 + i % 5, logicalMin=0, logicalMax=i) for i in range(n)]
    h = make(kind, nodes[:k])
    for x in nodes[k:]:
        h.append(x)
    rec.step(n)
    e = audit(h, nodes)
    if e:
        return e
    if bytes_of(kind, h) != bytes_of(kind, make(kind, nodes)) or audit(h, nodes):
        return "compiles differently from the same members given at once"
    model = list(nodes)
    for i in range(min(n, 300)):
        h.pop()
        model.pop()
    return audit(h, model)


def check_slices(case, rec):
    kind, n, a, b = case
    nodes = [node(i % 7) for i in range(n)]
    h = make(kind, nodes)
    rec.state(case)
    for c in (None, 1, 2, 3, -1, -2, 7):
        rec.step()
        if not same(list(h[a:b:c]), nodes[a:b:c]):
            return "slice %s:%s:%s of %d members" % (a, b, c, n)
    return None


def slices(n):
    for kind in KINDS:
        for k in range(n + 1):
            ends = [None] + list(range(-k - 2, k + 3))
            yield from ((kind, k, a, b) for a in ends for b in ends)


def check_shared(case, rec):
    """one element several times in a tree, or in several trees: as good as copies"""
    shape, i, opt = case
    def tree(n):
        e = [n() for _ in range(4)]
        c = lambda *k: D.Collection(D.Collection.Logical, U(0x10001), *k)
        kids = {"twice": [e[0], e[1]], "levels": [e[0], c(e[1]), e[2]], "reports": [D.Report(1, e[0]), D.Report(2, e[1])], "nested": [c(c(e[0]), e[1]), e[2], c(e[3])],
                "same-report": [D.Report(1, e[0], e[1]), D.Report(2, e[2]), D.Report(1, e[3])]}[shape]
        return D.TopLevel(D.Collection(D.Collection.Application, U(0x10005), *kids))
    rec.state(case)
    rec.step(2)
    one = node(i)
    shared, copies = tree(lambda: one), tree(lambda: node(i))
    a, b = sut.compile_tree(shared, opt), sut.compile_tree(copies, opt)
    if a != b or sut.compile_tree(shared, opt) != b:
        return "compiles to %s with one element used again, to %s with copies" % (a.hex(" "), b.hex(" "))
    return None


GROW = ["r+x", "r+y", "x+y", "r+0", "x+1", "y+2", "r-", "x-", "y-"]


def check_grow(case, rec):
    """elements put into each other before, between and after they get their own members"""
    kx, ky, word = case
    names = "rxy"
    objs = {"r": make("coll", []), "x": make(kx, []), "y": make(ky, [])}
    model = {n: [] for n in names}
    nodes = {str(i): node(i) for i in range(3)}
    def at_once(n):
        if n in nodes:
            return nodes[n]
        return make({"r": "coll", "x": kx, "y": ky}[n], [at_once(m) for m in model[n]])
    for op in word:
        rec.step()
        if op[1] == "+":
            objs[op[0]].append(objs.get(op[2], nodes.get(op[2])))
            model[op[0]].append(op[2])
        elif model[op[0]]:
            objs[op[0]].pop()
            model[op[0]].pop()
        for n in names:
            if not same(list(objs[n]), [objs.get(m, nodes.get(m)) for m in model[n]]) or len(objs[n]) != len(model[n]):
                return "%s after %s: other members than given" % (n, op)
    rec.state((kx, ky, model))
    for opt in (False, True):
        a, b = sut.compile_tree(objs["r"], opt), sut.compile_tree(at_once("r"), opt)
        if a != b:
            return "compiles to %s, not to %s as the same tree given at once (optimize=%s)" % (a.hex(" "), b.hex(" "), opt)
    return None


def grown(depth):
    for kx, ky in itertools.product(KINDS, repeat=2):
        for d in range(1, depth + 1):
            for w in itertools.product(GROW, repeat=d):
                if any(o[1] == "+" and o[2] in "xy" for o in w):
                    yield (kx, ky, w)


def families(tier):
    d = 4 if tier == "quick" else 6
    return [Family("histories-%d" % d, lambda: histories(d), check_history, "every sequence of up to %d appends, pops and compilations on 3 kinds x 5 initial contents" % d),
            Family("big", lambda: ((k, n, m) for k in KINDS for n in (16, 64, 127, 128, 129, 255, 256, 257, 300, 512, 513, 1000, 2000) for m in (0, 1, n // 2, n)), check_big, "16 to 2000 members, given and appended, then taken away"),
            Family("slices", lambda: slices(6 if tier == "quick" else 12), check_slices, "every slice of up to %d members" % (6 if tier == "quick" else 12)),
            Family("grown", lambda: grown(4 if tier == "quick" else 5), check_grow, "every order of putting 3 elements into each other, appending to and popping from them"),
            Family("shared", lambda: itertools.product(("twice", "levels", "reports", "nested", "same-report"), range(7), (False, True)), check_shared, "5 shapes x 7 elements used several times")]
