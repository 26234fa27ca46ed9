"""C13: every configuration of the three command-line tools, run as processes in a scratch directory."""
import atexit, itertools, os, shutil, subprocess, sys, tempfile
from explore import Family
from hidref import *
import histories as H, sut, trees as T

ASSUMPTIONS = ["expected results come from the library pipeline of the same working tree (whose own correctness is C01-C12's)",
               "descriptors: 4 inputs chosen to contain bytes that text handling would damage (line breaks, invalid UTF-8, NUL, control characters) "
               "and one of about 80 kB"]
G, L, M = H.G, H.L, H.M
E = [M(ENDCOLL, 0)]
INPUTS = {
    "plain": [G(UPAGE, 1), L(USAGE, 2), M(COLLECTION, 1), G(LMIN, -127), G(LMAX, 127), G(RSIZE, 8), G(RCOUNT, 1), L(USAGE, 0x30), M(INPUT, 6), L(USAGE, 0x31), M(INPUT, 6)] + E,
    "bytes": [G(UPAGE, 0xff00), L(USAGE, 0x0d), M(COLLECTION, 1), G(LMIN, 0), G(LMAX, 0x0d0a), G(RSIZE, 0x0a), G(RCOUNT, 0x0d), L(USAGE, 0x0a), M(INPUT, 2),
              G(LMAX, 0x1a00), L(USAGE, 0x80), G(RCOUNT, 1), M(FEATURE, 0x82), G(RID, 0xff), L(USAGE, 0x7f), M(OUTPUT, 2)] + E,
    "ids": [G(UPAGE, 1), L(USAGE, 6), M(COLLECTION, 1), G(RID, 1), G(LMAX, 1), G(RSIZE, 1), G(RCOUNT, 8), G(UPAGE, 7), L(UMIN, 0xe0), L(UMAX, 0xe7), M(INPUT, 2),
            G(RID, 2), G(RSIZE, 3), G(RCOUNT, 1), L(USAGE, 0x0d), M(OUTPUT, 2), M(OUTPUT, 3)] + E,
    "nothing": [],
    "empty": [L(USAGE, 0x10005), M(COLLECTION, 1)] + E,
    "big": [L(USAGE, 0x10005), M(COLLECTION, 1), G(LMAX, 1), G(RSIZE, 1), G(RCOUNT, 1)] + sum([[L(USAGE, 0x90001 + (i * 7) % 250), M((INPUT, OUTPUT)[i % 2], 2)] for i in range(12000)], []) + E,
}
ENV = {k: v for k, v in os.environ.items() if k != "PYTHONUNBUFFERED"}
FMT = ("binary", "hex", "code", None)
MODES = ("file-file", "file-none", "file-dash", "dash-file", "none-none", "dash-dash")


_cache = []


def precompile():
    """byte code of the working tree in a scratch directory of this run, so that thousands of processes start faster"""
    if not _cache:
        d = tempfile.mkdtemp(prefix="c13-pyc-")
        _cache.append(d)
        pid = os.getpid()
        atexit.register(lambda: os.getpid() == pid and shutil.rmtree(d, ignore_errors=True))
        env = {k: v for k, v in ENV.items() if k != "PYTHONDONTWRITEBYTECODE"}
        subprocess.run([sys.executable, "-c", "import argparse, hrdc.converter, hrdc.descriptor.extractor, hrdc.descriptor.compiler, hrdc.descriptor.dumper"],
                       env=dict(env, PYTHONPATH=sut.REPO, PYTHONPYCACHEPREFIX=d), cwd=d, capture_output=True, timeout=300)
        ENV["PYTHONPYCACHEPREFIX"] = d


def text(fmt, blob):
    if fmt in (None, "binary"):
        return blob
    if fmt == "hex":
        return " ".join("%02x" % b for b in blob).encode()
    return ("/* d\u00e9 */ " + ", ".join("0x%02x" % b for b in blob) + ", // end").encode()


def raw(x):
    return x.encode() if isinstance(x, str) else x


def fmtname(f):
    return f or "binary"


def run(argv, stdin, out, expected):
    """run in a scratch directory; out: name of the output file or None"""
    d = tempfile.mkdtemp(prefix="c13-")
    try:
        env = dict(ENV, PYTHONPATH=sut.REPO, PYTHONDONTWRITEBYTECODE="1", PYTHONWARNINGS="ignore", LC_ALL="C.UTF-8", COLUMNS="80")
        for name, data in stdin[1].items():
            with open(os.path.join(d, name), "wb") as o:
                o.write(data)
        if out:
            with open(os.path.join(d, out), "wb") as o:
                o.write(b"left over from before\n" * 10)
        p = subprocess.run([sys.executable, "-B"] + argv, input=stdin[0], cwd=d, env=env, capture_output=True, timeout=300)
        if p.returncode != 0:
            return "%s exits with %d: %s" % (argv, p.returncode, p.stderr.decode(errors="replace")[-600:])
        got = open(os.path.join(d, out), "rb").read() if out else p.stdout
        if got != expected:
            return "%s writes %r instead of %r" % (argv, got[:300], expected[:300])
        if out and p.stdout:
            return "%s also writes %r to standard output" % (argv, p.stdout[:300])
        extra = set(os.listdir(d)) - set(stdin[1]) - {out}
        if extra:
            return "%s leaves files %s" % (argv, sorted(extra))
        return None
    finally:
        shutil.rmtree(d, ignore_errors=True)


def opt(style, short, long, value):
    if value is None:
        return []
    return {"short": [short, value], "long": [long, value], "glued": [long + "=" + value]}[style]


def io_args(mode, data):
    i, o = mode.split("-")
    args = {"file": ["in.dat"], "dash": ["-"], "none": []}[i] + {"file": ["out.dat"], "dash": ["-"], "none": []}[o]
    files = {"in.dat": data} if i == "file" else {}
    return args, (b"" if i == "file" else data, files), "out.dat" if o == "file" else None


def check_converter(case, rec):
    name, ifmt, ofmt, optimize, mode, style, order = case
    blob = H.blob(INPUTS[name])
    data = text(ifmt, blob)
    expected = raw(sut.convert(fmtname(ifmt), data if fmtname(ifmt) == "binary" else data.decode(), fmtname(ofmt), optimize))
    pos, stdin, out = io_args(mode, data)
    opts = opt(style, "-i", "--input-format", ifmt) + opt(style, "-o", "--output-format", ofmt) + ([{"short": "-O"}.get(style, "--optimize")] if optimize else [])
    rec.state(case)
    rec.step()
    return run(["-m", "hrdc.converter"] + (opts + pos if order == "first" else pos + opts), stdin, out, expected)


def converters(q):
    for name in ("plain", "bytes") if q else ("plain", "bytes", "ids", "empty"):
        for ifmt, ofmt, optimize, mode in itertools.product(FMT, FMT, (False, True), MODES):
            for style, order in (("short", "first"),) if q else itertools.product(("short", "long", "glued"), ("first", "last")):
                yield (name, ifmt, ofmt, optimize, mode, style, order)
    for mode in MODES:                              # spelling of options
        for style, order in itertools.product(("short", "long", "glued"), ("first", "last")):
            yield ("ids", "hex", "code", True, mode, style, order)
            yield ("empty", "code", "binary", False, mode, style, order)
    for ifmt, ofmt, optimize, mode in itertools.product(FMT, FMT, (False, True), MODES):
        if not (ifmt or ofmt) or (ifmt and ofmt and mode in ("file-file", "none-none")):
            yield ("nothing", ifmt, ofmt, optimize, mode, "short", "first")
    for ofmt in FMT:
        for mode in MODES:
            yield ("big", "binary", ofmt, False, mode, "short", "first")
            yield ("big", "code", ofmt, True, mode, "long", "first")


def check_extractor(case, rec):
    name, ifmt, mode, style, order = case
    blob = H.blob(INPUTS[name])
    data = text(ifmt, blob)
    expected = raw(sut.dump(sut.extract(blob)))
    pos, stdin, out = io_args(mode, data)
    opts = opt(style, "-i", "--input-format", ifmt)
    rec.state(case)
    rec.step()
    return run(["-m", "hrdc.descriptor.extractor"] + (opts + pos if order == "first" else pos + opts), stdin, out, expected)


def extractors():
    for name in ("plain", "bytes", "ids", "empty"):
        for ifmt, mode in itertools.product(FMT, MODES):
            yield (name, ifmt, mode, "short", "first")
    for mode in MODES:
        for style, order in itertools.product(("short", "long", "glued"), ("first", "last")):
            yield ("ids", "hex", mode, style, order)
    yield ("big", "binary", "none-none", "short", "first")


SCRIPTS = {
    "tree": T.top(T.V(usage=0x90001, size=1), T.V(usage=0x90002, size=1), ("pad", 8, 6), T.V(lmin=-127, lmax=127, flags=6, count=3), T.V(usage=0xff00000d, way=11, size=13, lmax=2573, unit=0x11)),
    "reports": ("coll", 1, 0x10005, (("rep", 10, (T.V(), T.V(usage=None, named=("range", 0x70000, 0x70065), count=6, lmin=0))), ("rep", 13, (T.V(way=9, count=2),)))),
}


def check_compile(case, rec):
    name, ofmt, noopt, mode, style, order = case
    desc = sut.build(SCRIPTS[name])
    script = sut.dump(desc).encode()
    buf = sut.fmt_buffer(fmtname(ofmt))
    s = sut.Formatter.get(fmtname(ofmt))(buf)
    if not noopt:
        s = sut.Optimizer.new(s)
    desc.accept(sut.Streamer(s))
    s.close()
    pos = {"file": ["out.dat"], "dash": ["-"], "none": []}[mode]
    opts = opt(style, "-o", "--output-format", ofmt) + ([{"short": "-N"}.get(style, "--no-optimize")] if noopt else [])
    rec.state(case)
    rec.step()
    return run(["script.py"] + (opts + pos if order == "first" else pos + opts), (b"", {"script.py": script}), "out.dat" if mode == "file" else None, raw(buf.getvalue()))


def compiles():
    return itertools.product(SCRIPTS, FMT, (False, True), ("file", "dash", "none"), ("short", "long", "glued"), ("first", "last"))


def check_chain(case, rec):
    """decompile, then run what was written as a program: same meaning as the input"""
    import hidref
    name, ofmt = case
    blob = H.blob(INPUTS[name])
    rec.state(case)
    rec.step(2)
    d = tempfile.mkdtemp(prefix="c13-")
    try:
        env = dict(ENV, PYTHONPATH=sut.REPO, PYTHONDONTWRITEBYTECODE="1", PYTHONWARNINGS="ignore", LC_ALL="C.UTF-8")
        open(os.path.join(d, "in.bin"), "wb").write(blob)
        for argv in (["-m", "hrdc.descriptor.extractor", "in.bin", "s.py"], ["s.py", "-o", ofmt, "o.dat"], ["-m", "hrdc.converter", "-i", ofmt, "o.dat", "o.bin"]):
            p = subprocess.run([sys.executable, "-B"] + argv, cwd=d, env=env, capture_output=True, timeout=300)
            if p.returncode:
                return "%s exits with %d: %s" % (argv, p.returncode, p.stderr.decode(errors="replace")[-600:])
        got = open(os.path.join(d, "o.bin"), "rb").read()
        if hidref.meaning(got) != hidref.meaning(blob):
            return "meaning changed: %s -> %s" % (blob.hex(" "), got.hex(" "))
        return None
    finally:
        shutil.rmtree(d, ignore_errors=True)


REFUSED = {"cut": "05 01 09", "cut2": "05 01 a1 01 26 ff", "cut4": "27 01 02 03", "tag": "05 01 fd 09 02", "main": "05 01 a1 01 0c c0", "local": "09 01 68 a1 01 c0",
           "long": "fe 02 01 00 00 a1 01 c0"}


def refusals():
    for what in REFUSED:
        for tool in ("converter", "descriptor.extractor"):
            for fmt in ("binary", "hex", "code"):
                for mode in MODES:
                    for o in (False, True) if tool == "converter" else (False,):
                        yield (tool, what, fmt, mode, o)
    for tool in ("converter", "descriptor.extractor"):
        for mode in MODES:
            yield (tool, "plain", "nosuchformat", mode, False)
    for noopt in (False, True):
        for ofmt in FMT:
            for bad in ("lmin", "usage", "rid"):
                yield ("script", bad, ofmt, "none", noopt)


def check_refused(case, rec):
    """what the library refuses makes the tool fail"""
    tool, what, fmt, mode, o = case
    rec.state(case)
    rec.step()
    d = tempfile.mkdtemp(prefix="c13-")
    try:
        env = dict(ENV, PYTHONPATH=sut.REPO, PYTHONDONTWRITEBYTECODE="1", PYTHONWARNINGS="ignore", LC_ALL="C.UTF-8")
        stdin = b""
        if tool == "script":
            v = dict(lmin="D.Value(D.Value.Input, 0x10030, 8, logicalMin = 1 << 40, logicalMax = 1)", usage="D.Value(D.Value.Input, 1 << 40, 8, logicalMin = 0, logicalMax = 1)",
                     rid="D.Report(256, D.Padding(D.Value.Input, 8))")[what]
            with open(os.path.join(d, "script.py"), "w") as f:
                f.write("from hrdc import descriptor as D\nif __name__ == '__main__':\n    D.compile_main(D.Collection(1, 0x10005, %s))\n" % v)
            argv = ["script.py"] + (["-o", fmt] if fmt else []) + (["-N"] if o else [])
        else:
            data = text(fmt if fmt != "nosuchformat" else "hex", H.blob(INPUTS[what]) if what in INPUTS else bytes.fromhex(REFUSED[what]))
            pos, stdin, out = io_args(mode, data)
            for n, x in stdin[1].items():
                with open(os.path.join(d, n), "wb") as f:
                    f.write(x)
            stdin = stdin[0]
            argv = ["-m", "hrdc." + tool, "-i", fmt] + (["-O"] if o else []) + pos
        p = subprocess.run([sys.executable, "-B"] + argv, input=stdin, cwd=d, env=env, capture_output=True, timeout=300)
        return "%s (%s) exits with 0 and %r" % (argv, what, p.stdout[:200]) if p.returncode == 0 else None
    finally:
        shutil.rmtree(d, ignore_errors=True)


NAMES = ["x" + e for e in ("", ".h", ".c", ".H", ".hpp", ".inc", ".bin", ".hex", ".HEX", ".txt", ".dat", ".py", ".rdesc", ".code", ".json", ".md", ".gz", ".bak", ".o", ".h.bin", ".")] + \
    [".h", "binary", "hex", "code", "stdin", "stdout", "a b.h", "caf\u00e9.c", "d/x.h", "./x.c", "d/../x.hex", "--", "~", "x=1", "%s", "{0}", "@x", "0"]


def check_names(case, rec):
    """what a file is called decides nothing"""
    tool, name, side, ifmt, ofmt, optimize = case
    rec.state(case)
    rec.step()
    blob = H.blob(INPUTS["plain"])
    data = text(ifmt, blob)
    if tool == "converter":
        expected = raw(sut.convert(ifmt, data if ifmt == "binary" else data.decode(), ofmt, optimize))
        opts = ["-i", ifmt, "-o", ofmt] + (["-O"] if optimize else [])
    elif tool == "descriptor.extractor":
        expected = raw(sut.dump(sut.extract(blob)))
        opts = ["-i", ifmt]
    else:
        desc = sut.build(SCRIPTS["tree"])
        data = sut.dump(desc).encode()
        buf = sut.fmt_buffer(ofmt)
        s = sut.Formatter.get(ofmt)(buf)
        s = sut.Optimizer.new(s) if optimize else s
        desc.accept(sut.Streamer(s))
        s.close()
        expected = raw(buf.getvalue())
        opts = ["-o", ofmt] + ([] if optimize else ["-N"])
    i, o = (name if side in ("in", "both") else "in.dat"), (name if side in ("out", "both") else "out.dat")
    i, o = os.path.join("i", i), os.path.join("o", o)
    d = tempfile.mkdtemp(prefix="c13-")
    try:
        for sub in ("i", "i/d", "o", "o/d"):
            os.mkdir(os.path.join(d, sub))
        if tool == "script":
            i = "script.py"
        with open(os.path.join(d, i), "wb") as f:
            f.write(data)
        env = dict(ENV, PYTHONPATH=sut.REPO, PYTHONDONTWRITEBYTECODE="1", PYTHONWARNINGS="ignore", LC_ALL="C.UTF-8")
        argv = ["script.py"] + opts + [o] if tool == "script" else ["-m", "hrdc." + tool] + opts + [i, o]
        p = subprocess.run([sys.executable, "-B"] + argv, cwd=d, env=env, capture_output=True, timeout=300)
        if p.returncode:
            return "%s exits with %d: %s" % (argv, p.returncode, p.stderr.decode(errors="replace")[-600:])
        got = open(os.path.join(d, o), "rb").read()
        if got != expected or p.stdout:
            return "%s writes %r instead of %r, and %r to standard output" % (argv, got[:300], expected[:300], p.stdout[:200])
        here = sorted(os.path.relpath(os.path.join(r, f), d) for r, _, fs in os.walk(d) for f in fs)
        if here != sorted({os.path.normpath(i), os.path.normpath(o)}):
            return "%s leaves files %s" % (argv, here)
        return None
    finally:
        shutil.rmtree(d, ignore_errors=True)


def names(q):
    fmts = ("binary", "hex", "code")
    for name in NAMES:
        for side in ("in", "out") if q else ("in", "out", "both"):
            for ifmt, ofmt in itertools.product(fmts, fmts):
                for o in (False, True) if not q or side == "out" and ifmt == "binary" else (False,):
                    if q and side == "in" and ofmt != "hex" or q and side == "out" and ifmt != "binary":
                        continue
                    yield ("converter", name, side, ifmt, ofmt, o)
        for ifmt in fmts:
            yield ("descriptor.extractor", name, "in", ifmt, None, False)
        yield ("descriptor.extractor", name, "out", "binary", None, False)
        for ofmt in fmts:
            for o in (False, True):
                yield ("script", name, "out", None, ofmt, o)


def families(tier):
    q = tier == "quick"
    precompile()
    return [Family("converter", lambda: converters(q), check_converter, "formats x formats x optimization x stream modes x option spellings x inputs"),
            Family("decompiler", extractors, check_extractor, "formats x stream modes x option spellings x inputs"),
            Family("compile-script", compiles, check_compile, "formats x optimization x stream modes x option spellings x scripts"),
            Family("refused", refusals, check_refused, "refused inputs x tools x formats x stream modes"),
            Family("names", lambda: names(q), check_names, "file names x side x tools x formats x optimization"),
            Family("chain", lambda: itertools.product([n for n in INPUTS if n not in ("big", "nothing")], ("binary", "hex", "code")), check_chain, "decompile, compile and convert as processes")]
