"""C12: independence from history, repetition and interleaving.

Reference result of each operation: a fresh interpreter that runs only this operation.
  sequences    every sequence of operations up to a depth, each in its own forked process
  interleave   every interleaving of the steps (construct / append item / visit element / close) of two or three pipelines
  preempt      operation B run to completion at every source line of operation A (one preemption, every point)
"""
import io, itertools, os, pickle, subprocess, sys
from explore import Family, HERE
from hidref import *
import histories as H, sut, trees as T

ASSUMPTIONS = ["creating new usage constants is not one of the operations (it gives codes a name, as documented)",
               "interleavings: pipelines are stepped at item granularity, and at source-line granularity with one preemption",
               "parsers read their input in one step"]
G, L, M = H.G, H.L, H.M
D = sut.D

P = [G(UPAGE, 1), L(USAGE, 5), M(COLLECTION, 1)]
E = [M(ENDCOLL, 0)]
STREAMS = {
    "a": P + [G(LMAX, 1), G(RSIZE, 1), G(RCOUNT, 1), L(USAGE, 0x30), M(INPUT, 2), L(USAGE, 0x31), M(INPUT, 2)] + E,
    "b": [G(UPAGE, 9), L(USAGE, 1), M(COLLECTION, 0), G(PMIN, 1), G(PMAX, 9), G(LMIN, -1), G(LMAX, 7), G(UNIT, 0x11), G(UEXP, 2), G(RSIZE, 4), G(RCOUNT, 2),
          L(DIDX, 3), L(SIDX, 2), L(UMIN, 1), L(UMAX, 2), M(FEATURE, 6)] + E,
    "c": P + [G(RID, 1), G(PUSH, 0), G(RSIZE, 8), G(RCOUNT, 3), L(UMIN, 1), L(UMAX, 3), M(INPUT, 0), G(POP, 0), G(RSIZE, 3), G(RCOUNT, 1), G(LMAX, 1), L(USAGE, 2), M(OUTPUT, 2)] + E,
    "e": [L(USAGE, 1), M(COLLECTION, 1), G(PMAX, 4), G(RSIZE, 3), G(RCOUNT, 1), L(DIDX, 1), G(UPAGE, 9), L(USAGE, 2), M(OUTPUT, 2)] + E,
    "d": [L(USAGE, 0xc0080), M(COLLECTION, 2), G(LMAX, 1), G(RSIZE, 3), G(RCOUNT, 1), L(USAGE, 0x70004), L(USAGE, 0x70005), M(INPUT, 0)] + E,
}
SHORT = {
    "x": [L(USAGE, 0x10030), G(LMAX, 1), G(RSIZE, 1), G(RCOUNT, 1), M(INPUT, 2)],
    "y": [L(USAGE, 0x90001), L(DIDX, 1), G(PMAX, 5), G(RCOUNT, 2), M(INPUT, 6)],
    "z": [M(COLLECTION, 2), L(SIDX, 1), G(UNIT, 0x11), M(OUTPUT, 0), M(ENDCOLL, 0)],
    "w": [G(PUSH, 0), G(UPAGE, 9), L(USAGE, 1), M(INPUT, 2), G(POP, 0)],
}
V = T.V
TREES = {
    "t": T.top(V(usage=0x90001, size=1), V(usage=0x90002, size=1), ("pad", 8, 3), V(lmin=-127, lmax=127, pmin=0, pmax=100, unit=0x11, exp=-2)),
    "u": ("coll", 1, 0x10005, (("rep", 1, (V(size=3, string=2), V(size=12, align=1, desig=1, way=9))), ("rep", 2, (V(count=3), ("align", 8, 16), V())))),
    "v": T.top(("coll", 2, 0x90001, (V(usage=None, named=("range", 0x70000, 0x70003), count=2), V(usage=0xc0080, lmin=0, named=(0x70004, 0x70007)))), V(flags=6)),
}
STREE = {"p": T.top(V(size=1), V(usage=0x10031, size=1)), "q": ("coll", 1, 0x90001, (("rep", 2, (V(size=3, lmin=-1, unit=0x11), V(pmax=9, string=1))),))}
ALL = {**TREES, **STREE}
_objects = {}


def tree(name):
    if name not in _objects:
        _objects[name] = sut.build(ALL[name])
    return _objects[name]


PUBLIC = ("id", "kind", "usage", "way", "flags", "size", "alignment", "logicalMin", "logicalMax", "physicalMin", "physicalMax",
          "namedArray", "unit", "unitExponent", "designator", "string", "count", "boundary")


def snap(x):
    if isinstance(x, (list, tuple)):
        return tuple(snap(i) for i in x)
    if isinstance(x, sut.UsageRange):
        return ("range", tuple(int(i) for i in x))
    if hasattr(x, "accept"):
        return (type(x).__name__,) + tuple((a, snap(getattr(x, a))) for a in PUBLIC if hasattr(x, a)) + \
            ((tuple(snap(m) for m in x),) if hasattr(x, "__iter__") else ())
    return None if x is None else int(x)


def run_op(op):
    """Perform one operation on the shared inputs; a plain comparable result."""
    kind, arg = op[0], op[1]
    try:
        if kind == "compile":
            return sut.compile_tree(tree(arg), op[2])
        if kind == "optimize":
            return sut.optimize_bytes(H.blob(STREAMS[arg]))
        if kind == "convert":
            return sut.convert("hex", " ".join("%02x" % b for b in H.blob(STREAMS[arg])), op[2], op[3])
        if kind == "extract":
            r = sut.extract(H.blob(STREAMS[arg]))
            return sut.dump(r), sut.compile_tree(r, True)
        if kind == "dump":
            return sut.dump(tree(arg))
        if kind == "broken":                # input cut in the middle: an error, after some items went through
            return sut.optimize_bytes(H.blob(STREAMS[arg])[:-2] + b"\x0b\1")
        if kind == "unclosed":              # a pipeline abandoned half way
            s = sut.Optimizer.new(sut.Tape())
            for i in STREAMS[arg][:-3]:
                s.append(sut.make_item(*i))
            return None
        if kind == "badextract":
            return sut.dump(sut.extract(H.blob(STREAMS[arg][:-1] + [G(POP, 0), G(POP, 0)])))
        if kind == "expect":
            import unittest
            from hrdc.descriptor.test import descriptor_expected
            descriptor_expected(unittest.TestCase(), tree(arg), "0x05, 0x01, // nothing like it\n 0x00,")
            return "ok"
    except Exception as e:
        return "raised " + type(e).__name__
    raise ValueError(op)


OPS = [("compile", "t", True), ("compile", "t", False), ("compile", "u", True), ("compile", "u", False), ("compile", "v", True), ("compile", "v", False),
       ("optimize", "a"), ("optimize", "b"), ("optimize", "c"), ("convert", "b", "code", False), ("convert", "c", "code", True), ("convert", "a", "hex", True),
       ("extract", "a"), ("extract", "b"), ("extract", "c"), ("extract", "d"), ("dump", "v"), ("dump", "u"),
       ("broken", "b"), ("broken", "c"), ("unclosed", "b"), ("unclosed", "c"), ("badextract", "c"), ("expect", "t")]

_fresh = {}


def _fresh_all(jobs):
    """each (function name, argument) in its own new interpreter"""
    code = ("import sys, pickle; sys.path[:0] = [%r, %r]; import c12; f, a = pickle.loads(bytes.fromhex(sys.argv[1])); "
            "sys.stdout.write('RESULT' + pickle.dumps(getattr(c12, f)(a)).hex())" % (os.path.join(HERE, "lib"), os.path.join(HERE, "checks")))
    todo = [j for j in jobs if j not in _fresh]
    for i in range(0, len(todo), 8):
        ps = [(j, subprocess.Popen([sys.executable, "-B", "-W", "ignore", "-c", code, pickle.dumps(j).hex()], stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True))
              for j in todo[i:i + 8]]
        for j, p in ps:
            out, err = p.communicate(timeout=120)
            if "RESULT" not in out:
                raise RuntimeError("fresh run of %r failed: %s" % (j, err))
            _fresh[j] = pickle.loads(bytes.fromhex(out.split("RESULT")[1]))
    return _fresh


def forked(fn):
    """run fn in a child process; its return value (None or text)"""
    r, w = os.pipe()
    pid = os.fork()
    if pid == 0:
        code = 1
        try:
            os.close(r)
            try:
                res = fn()
            except BaseException as e:
                res = "%s: %s" % (type(e).__name__, e)
            with os.fdopen(w, "wb") as o:
                pickle.dump(res, o)
            code = 0
        finally:
            os._exit(code)
    os.close(w)
    with os.fdopen(r, "rb") as i:
        data = i.read()
    os.waitpid(pid, 0)
    return pickle.loads(data) if data else "child process died"


# ---- sequences -------------------------------------------------------------------------------------------------

def check_sequence(ops, rec):
    rec.state(ops)
    rec.step(len(ops))

    def go():
        for n in ALL:
            tree(n)
        before = {n: snap(tree(n)) for n in ALL}
        for i, op in enumerate(ops):
            got = run_op(op)
            if got != _fresh[("run_op", op)]:
                return "after %r: %r gives %r, a fresh process %r" % (ops[:i], op, got, _fresh[("run_op", op)])
            for n in ALL:
                if snap(tree(n)) != before[n]:
                    return "%r changed the descriptor %s" % (op, n)
        return None
    return forked(go)


def sequences(depth, ops=OPS):
    for d in range(1, depth + 1):
        yield from itertools.product(ops, repeat=d)


def repeats(n):
    for op in OPS:
        yield (op,) * n


# ---- interleavings at item granularity ---------------------------------------------------------------------------

class Pipe:
    """One pipeline, one step at a time."""
    def __init__(self, spec):
        self.kind, self.src = spec
        self.steps = []
        if self.kind in ("optimize", "format", "extract", "both"):
            self.steps = [("new",)] + [("item", i) for i in SHORT[self.src]] + [("close",)]
        else:
            self.steps = [("new",)] + self.visits(tree(self.src)) + [("close",)]

    def visits(self, e):
        """what accept() tells a visitor"""
        class Record:
            pass
        steps = []
        for n in ("enter", "leave", "element"):
            setattr(Record, n, lambda self, x, n=n: steps.append((n, x)))
        e.accept(Record())
        return steps

    def step(self, s):
        op = s[0]
        if op == "new":
            self.buf = io.StringIO()
            if self.kind == "optimize":
                self.out = sut.Tape()
                self.s = sut.Optimizer.new(self.out)
            elif self.kind == "format":
                self.s = sut.Formatter.get("code")(self.buf)
            elif self.kind == "both":
                self.s = sut.Optimizer.new(sut.Formatter.get("code")(self.buf))
            elif self.kind == "extract":
                self.s = sut.Extractor()
                self.s.append(sut.make_item(LOCAL, USAGE, 0x10005))
                self.s.append(sut.make_item(MAIN, COLLECTION, 1))
            elif self.kind == "dump":
                self.v = sut.Dumper(self.buf)
            else:
                self.out = sut.Tape()
                self.s = sut.Optimizer.new(self.out) if self.kind == "compile" else self.out
                self.v = sut.Streamer(self.s)
        elif op == "item":
            self.s.append(sut.make_item(*s[1]))
        elif op in ("enter", "leave", "element"):
            getattr(self.v, op)(s[1])
        else:
            if self.kind == "extract":
                self.s.append(sut.make_item(MAIN, ENDCOLL, 0))
            if self.kind != "dump":
                self.s.close()

    def result(self):
        if self.kind == "extract":
            return sut.dump(self.s.root)
        if self.kind in ("format", "both", "dump"):
            return self.buf.getvalue()
        return self.out.bytes()


def run_alone(spec):
    p = Pipe(spec)
    for s in p.steps:
        p.step(s)
    return p.result()


SPECS = [("optimize", "x"), ("optimize", "y"), ("optimize", "w"), ("both", "z"), ("format", "z"), ("extract", "y"), ("extract", "w"),
         ("compile", "p"), ("compile", "q"), ("stream", "p"), ("dump", "q")]
GROUPS2 = list(itertools.combinations_with_replacement(SPECS, 2))
PREFIX = 4


def completions(counts, prefix):
    """all schedules (sequences of pipeline numbers) with the given number of steps each, starting with prefix"""
    left = list(counts)
    for p in prefix:
        left[p] -= 1
        if left[p] < 0:
            return
    seq = list(prefix)

    def rec():
        if not any(left):
            yield list(seq)
            return
        for i in range(len(left)):
            if left[i]:
                left[i] -= 1
                seq.append(i)
                yield from rec()
                seq.pop()
                left[i] += 1
    yield from rec()


def check_interleave(case, rec):
    specs, prefix, stride, at = case
    pipes = [Pipe(s) for s in specs]
    counts = [len(p.steps) for p in pipes]
    stat = {"n": 0}
    seen = set()
    scheds = [s for n, s in enumerate(completions(counts, prefix)) if n % stride == at]

    def go():
        before = [snap(tree(n)) for n in STREE]
        for sched in scheds:
            ps = [Pipe(s) for s in specs]
            pos = [0] * len(ps)
            for i in sched:
                ps[i].step(ps[i].steps[pos[i]])
                pos[i] += 1
            for p, s in zip(ps, specs):
                if p.result() != _fresh[("run_alone", s)]:
                    return "schedule %r of %r: %r gives %r, alone %r" % (sched, specs, s, p.result(), _fresh[("run_alone", s)])
        if [snap(tree(n)) for n in STREE] != before:
            return "descriptor changed"
        return None
    for n in STREE:
        tree(n)
    for s in scheds:
        pos = [0] * len(specs)
        for i in s:
            pos[i] += 1
            seen.add((specs, tuple(pos)))
        rec.step(len(s))
    for x in seen:
        rec.state(x)
    return forked(go)


def interleavings(groups, prefix_len, stride=1):
    for specs in groups:
        for prefix in itertools.product(range(len(specs)), repeat=prefix_len):
            for at in range(stride):
                yield (specs, prefix, stride, at)


# ---- one preemption at every source line -------------------------------------------------------------------------

PRE_OPS = [("compile", "t", True), ("compile", "u", True), ("compile", "v", False), ("optimize", "b"), ("optimize", "c"), ("extract", "c"), ("extract", "d"),
           ("convert", "a", "code", False), ("dump", "v")]
PRE_SMALL = [("compile", "p", True), ("compile", "q", True), ("compile", "q", False), ("optimize", "d"), ("extract", "d"), ("convert", "d", "code", True),
             ("convert", "e", "hex", True), ("dump", "q")]
ROOT = os.path.join(sut.REPO, "hrdc") + os.sep


def traced(op, at, inside):
    """run op, calling inside() at its at-th line event; result and number of line events"""
    n = [0]

    def local(frame, event, arg):
        if event == "line":
            if n[0] == at:
                sys.settrace(None)
                inside()
                sys.settrace(glob)
            n[0] += 1
        return local

    def glob(frame, event, arg):
        return local if frame.f_code.co_filename.startswith(ROOT) else None
    sys.settrace(glob)
    try:
        r = run_op(op)
    finally:
        sys.settrace(None)
    return r, n[0]


def line_count(op):
    for n in ALL:
        tree(n)
    run_op(op)
    return traced(op, -1, None)[1]


def check_preempt(case, rec):
    a, b, lo, hi = case

    def go():
        for n in ALL:
            tree(n)
        before = {n: snap(tree(n)) for n in ALL}
        for k in range(lo, hi):
            res = []
            ra, _ = traced(a, k, lambda: res.append(run_op(b)))
            if ra != _fresh[("run_op", a)]:
                return "%r with %r run inside at line event %d gives %r instead of %r" % (a, b, k, ra, _fresh[("run_op", a)])
            if res and res[0] != _fresh[("run_op", b)]:
                return "%r run inside %r at line event %d gives %r instead of %r" % (b, a, k, res[0], _fresh[("run_op", b)])
        for n in ALL:
            if snap(tree(n)) != before[n]:
                return "descriptor %s changed" % n
        return None
    for k in range(lo, hi):
        rec.state((a, b, k))
        rec.step(2)
    return forked(go)


def preempts(pairs, block=50, stride=1):
    counts = {}
    for a, b in pairs:
        if a not in counts:
            counts[a] = _fresh[("line_count", a)]
        for lo in range(0, counts[a], block * stride):
            yield (a, b, lo, min(lo + block, counts[a]))


# ---- battery: every small operation first, then all of them ---------------------------------------------------------

_bat = {}


def battery():
    """several hundred different small operations"""
    if not _bat:
        import itemspace as I
        ops = [("item",) + kt + (v,) for kt in I.KINDS for v in I.few(kt)[1::3]]
        ops += [("usage", c) for c in (0x10030, 0x10000, 0x90001, 0x90001 + 200, 0xa0005, 0xc0080, 0x70004, 0xff000001, 0xff010002, 0x30, 5, 0x2000e1, 0x1ffff)]
        ops += [("bat_tree", i) for i in range(len(list(T.up_to(2, 1))))]
        ops += [("bat_hist", i) for i in range(len(list(H.up_to(2, 1))))]
        ops += [("named", w) for w in ("unit", "usage", "flags", "kind", "page", "coll", "value", "range", "subclass")]
        ops += [("text", f, t) for f, t in (("hex", "05 01 09 30"), ("code", "0x05, 0x0c, // x\n 0x09, /* y */ 0x30,"), ("hex", "zz 05"), ("code", "0x05"))]
        _bat["ops"] = ops
        _bat["tree"] = list(T.up_to(2, 1))
        _bat["hist"] = list(H.up_to(2, 1))
    return _bat["ops"]


_bobj = {}


def run_bat(op):
    try:
        return _run_bat(op)
    except Exception as e:
        return "raised " + type(e).__name__


def show(i):
    return i.bytes(), str(i), int(i.kind), int(i.tag), int(i.value)


def _run_bat(op):
    from hrdc.util import NamedConstant as N
    k = op[0]
    I = sut.item
    if k == "item":
        i = sut.make_item(*op[1:])
        return show(i), show(I.Item.parse(i.bytes()))
    if k == "usage":
        u = sut.U(op[1])
        return str(u), int(u), [str(x) for x in u.split()], str(sut.Usage.page(op[1] >> 16)), str(sut.Usage.inpage(op[1] >> 16, op[1] & 0xffff)), show(I.Usage(op[1]))
    if k == "bat_tree":
        if op not in _bobj:
            _bobj[op] = sut.build(_bat["tree"][op[1]])
            _bobj[op].before = snap(_bobj[op])
        t = _bobj[op]
        r = sut.compile_tree(t, True), sut.compile_tree(t, False), sut.dump(t)
        return r + (snap(t) == t.before,)
    if k == "bat_hist":
        b = H.blob(_bat["hist"][op[1]])
        r = sut.extract(b)
        return sut.optimize_bytes(b), sut.convert("binary", b, "code", True), sut.convert("binary", b, "code"), sut.dump(r), sut.compile_tree(r)
    if k == "text":
        return sut.convert(op[1], op[2], "code")
    # constants of the author's own making, which may name what they like
    if op[1] == "unit":
        return [show(I.Unit(N("Furlong", c))) for c in (0x11, 0x1234, 0)], [str(I.Unit(c)) for c in (0x11, 0x1234, 0)]
    if op[1] == "usage":
        u = sut.Usage.lookup(N("mine.Thing", 0xff010002))
        return str(u), int(u), show(I.Usage(N("mine.X", 0x10030))), str(sut.Usage.lookup(0x10030)), str(sut.Usage.lookup(0xff010002))
    if op[1] == "flags":
        return [show(I.Input(N("Mine", f))) for f in (2, 6, 0x102)], [show(I.Input(f)) for f in (2, 6, 0x102)]
    if op[1] == "kind":
        return [show(I.Collection(N("Mine", f))) for f in (0, 1, 0x80)], [show(I.Collection(f)) for f in (0, 1, 0x80)]
    if op[1] == "page":
        return show(I.UsagePage(N("Mine", 9))), str(sut.Usage.page(9)), show(I.UsagePage(9))
    if op[1] == "coll":
        d = D.TopLevel(D.Collection(N("Mine", 1), sut.U(0x10002), D.Value(D.Value.Input, N("mine.X", 0x10030), 8, logicalMin=0, logicalMax=1)))
        return sut.compile_tree(d), sut.compile_tree(d, False)
    if op[1] == "value":
        d = D.Collection(1, sut.U(0x10002), D.Value(D.Value.Input, sut.U(0x10030), 8, flags=N("Mine", 2), unit=N("Furlong", 0x1234), logicalMin=N("lo", 0),
                                                    logicalMax=N("hi", 5)))
        return sut.compile_tree(d), sut.compile_tree(d, False)
    if op[1] == "range":
        r = sut.UsageRange(N("mine.A", 0x90001), N("mine.C", 0x90003))
        return [str(u) for u in r], str(r), len(r), str(r[1])
    if op[1] == "subclass":
        class Mine(D.TopLevel):
            pass
        return sut.compile_tree(Mine(D.Collection(1, sut.U(0x10002), D.Padding(D.Value.Input, 3))))


def check_battery(op, rec):
    """op, then every operation forwards (or backwards), each as in a process of its own"""
    op, direction = op
    ops = battery()[::direction]
    rec.state(op)
    rec.step(1 + len(ops))

    def go():
        done = []
        for o in [op] + ops:
            got = run_bat(o)
            if got != _fresh[("run_bat", o)]:
                return "%r run after %r and %d others gives %r, on its own %r" % (o, op, len(done), got, _fresh[("run_bat", o)])
            done.append(o)
        return None
    return forked(go)


# ---- big descriptors: unchanged, and compiled alike every time ------------------------------------------------------------

def big_trees(q):
    rid = lambda r: ("rep", r, (V(size=3, string=r % 7), V(usage=0x10031, lmin=-r, size=16, pmax=r)))
    for n in (3, 16, 64, 100, 127, 128, 129, 200, 255):
        for order in (range(1, n + 1), range(n, 0, -1), [1 + i * 7 % 255 for i in range(n)]):
            yield T.top(*[rid(r) for r in order])
            yield T.top(*[rid(r) for r in order] + [rid(r) for r in order])
            yield T.top(("coll", 2, 0x10001, tuple(("coll", 2, 0x10001 + r, (rid(r),)) for r in order)))
    for n in (3, 16, 64, 127, 128, 255, 256, 257, 258, 300, 511, 513, 1000):
        for step in (1, -1, 7):
            us = [0x90001 + (i * step) % n for i in range(n)]
            yield T.top(*[V(usage=u, size=1) for u in us])
            yield T.top(V(usage=None, named=tuple(us), count=2), V())
            yield T.top(*[("coll", 2, u, (V(usage=u, size=1 + u % 7, way=(8, 9, 11)[u % 3], align=1),)) for u in us])
            yield T.top(*[x for u in us for x in (V(usage=u, size=3), ("pad", 8, 1 + u % 3), ("align", 8, 4), ("pad", 9, 2))])
            yield ("top", tuple(("coll", 1, u, (V(flags=(2, 6)[u % 2]),)) for u in us))
    yield from T.many_reports()
    yield from T.long_ones(400)
    yield from T.sweeps(5 if q else 300)
    yield from T.nestings(5 if q else 6)
    yield from T.up_to(2, 1 if q else 2)


def check_unchanged(t, rec):
    rec.state(t)
    rec.step(9)
    d = sut.build(t)
    before = snap(d)
    first = sut.compile_tree(d, True), sut.compile_tree(d, False), sut.dump(d)
    if snap(d) != before:
        return "compiling or dumping changed the descriptor"
    again = sut.compile_tree(d, True), sut.compile_tree(d, False), sut.dump(d)
    if again != first:
        return "second run differs: %r then %r" % (first, again)
    twin = sut.build(t)
    other = sut.dump(twin), sut.compile_tree(twin, False), sut.compile_tree(twin, True)
    if other != first[::-1]:
        return "an equal descriptor gives something else: %r, %r" % (first, other)
    r1 = sut.dump(sut.extract(first[0]))
    if snap(d) != before or snap(twin) != before:
        return "compiling or dumping changed the descriptor"
    if r1 != sut.dump(sut.extract(first[0])):
        return "decompiling twice differs: %s" % r1
    return None


def fresh_battery():
    """each operation alone, in a child of this process, which itself ran none"""
    for o in battery():
        _fresh[("run_bat", o)] = forked(lambda: (run_bat(o),))[0]


def run_each(names):
    battery()
    return [forked(lambda: (run_bat(o) if n == "run_bat" else run_op(o),))[0] for n, o in names]


def processes(seeds):
    ops = [("run_op", o) for o in OPS] + [("run_bat", o) for o in battery()]
    for seed in range(1, seeds + 1):
        for i in range(0, len(ops), 60):
            yield (seed, tuple(ops[i:i + 60]))


def check_process(case, rec):
    """the same operations in an interpreter with another hash seed"""
    seed, names = case
    rec.state(case)
    rec.step(len(names))
    code = ("import sys, pickle; sys.path[:0] = [%r, %r]; import c12; a = pickle.loads(bytes.fromhex(sys.stdin.read())); "
            "sys.stdout.write('RESULT' + pickle.dumps(c12.run_each(a)).hex())" % (os.path.join(HERE, "lib"), os.path.join(HERE, "checks")))
    p = subprocess.run([sys.executable, "-B", "-W", "ignore", "-c", code], input=pickle.dumps(names).hex(), env=dict(os.environ, PYTHONHASHSEED=str(seed)),
                       capture_output=True, text=True, timeout=600)
    if "RESULT" not in p.stdout:
        return "interpreter with hash seed %d: %s" % (seed, p.stderr[-600:])
    for (n, o), got in zip(names, pickle.loads(bytes.fromhex(p.stdout.split("RESULT")[-1]))):
        if got != _fresh[(n, o)]:
            return "with hash seed %d %r gives %r, with another %r" % (seed, o, got, _fresh[(n, o)])
    return None


def families(tier):
    q = tier == "quick"
    specs = sorted({s for g in GROUPS2 for s in g})
    pre = PRE_SMALL[1:2] + PRE_SMALL[3:5] + PRE_SMALL[6:] if q else PRE_SMALL + PRE_OPS
    _fresh_all([("run_op", o) for o in OPS + pre] + [("run_alone", s) for s in specs] + [("line_count", o) for o in pre])
    fresh_battery()
    g2 = [(a, b) for a, b in GROUPS2 if not q or SPECS.index(b) - SPECS.index(a) in (0, 1, 6)]
    pairs = [(a, b) for i, a in enumerate(pre) for j, b in enumerate(pre) if not q or j in (i, (i + 1) % len(pre))]
    f = [Family("sequences-2", lambda: sequences(2), check_sequence, "all sequences of <=2 of %d operations, fresh process each" % len(OPS)),
         Family("battery", lambda: ((o, d) for o in battery() for d in ((1,) if q else (1, -1))), check_battery,
                "each of %d small operations first, then all of them in one process" % len(battery())),
         Family("processes", lambda: processes(8 if q else 64), check_process, "every operation in fresh interpreters with %d other hash seeds" % (8 if q else 64)),
         Family("repeats", lambda: repeats(300 if q else 3000), check_sequence, "each operation %d times" % (300 if q else 3000)),
         Family("big-trees", lambda: big_trees(q), check_unchanged, "big descriptors unchanged and compiled alike every time"),
         Family("sequences-3", lambda: sequences(3, OPS[::2] if q else OPS), check_sequence, "all sequences of <=3 of %d operations" % len(OPS[::2] if q else OPS)),
         Family("interleave-2", lambda: interleavings(g2, PREFIX), check_interleave, "all interleavings of %d pairs of pipelines" % len(g2)),
         Family("preempt-1", lambda: preempts(pairs, 50), check_preempt, "one preemption at every line event, %d pairs of operations" % len(pairs))]
    if not q:
        f.append(Family("sequences-4", lambda: itertools.product(OPS[::3], repeat=4), check_sequence, "all sequences of 4 of %d operations" % len(OPS[::3])))
    return f
