"""C21: every point at which writing the output of a tool can fail, on the real tools run as processes."""
import functools, itertools, os, resource, shutil, subprocess, sys, tempfile
from explore import Family
import histories as H, sut
import c13

ASSUMPTIONS = ["write faults are made with RLIMIT_FSIZE, which cuts the output at any chosen byte (EFBIG, standing for ENOSPC or EDQUOT), with /dev/full, and with a pipe that has no reader (EPIPE)",
               "standard output is buffered as usual: with PYTHONUNBUFFERED, CPython itself ignores a short write to standard output",
               "faults of close() and of the storage after a successful write are out of reach of the tools' exit status and not explored",
               "the complete output is the library pipeline's (C13)"]


@functools.lru_cache(None)
def expected(tool, name, fmt, optimize):
    if tool == "script":
        desc = sut.build(c13.SCRIPTS[name])
        buf = sut.fmt_buffer(fmt)
        s = sut.Formatter.get(fmt)(buf)
        if optimize:
            s = sut.Optimizer.new(s)
        desc.accept(sut.Streamer(s))
        s.close()
        return c13.raw(buf.getvalue())
    blob = H.blob(c13.INPUTS[name])
    if tool == "extractor":
        return c13.raw(sut.dump(sut.extract(blob)))
    return c13.raw(sut.convert("binary", blob, fmt, optimize))


def command(tool, name, fmt, optimize, d):
    if tool == "script":
        with open(os.path.join(d, "script.py"), "wb") as o:
            o.write(sut.dump(sut.build(c13.SCRIPTS[name])).encode())
        return ["script.py", "-o", fmt] + ([] if optimize else ["-N"])
    with open(os.path.join(d, "in.dat"), "wb") as o:
        o.write(H.blob(c13.INPUTS[name]))
    if tool == "extractor":
        return ["-m", "hrdc.descriptor.extractor", "in.dat"]
    return ["-m", "hrdc.converter", "-o", fmt] + (["-O"] if optimize else []) + ["in.dat"]


def check(case, rec):
    tool, name, fmt, optimize, mode, limit = case
    want = expected(tool, name, fmt, optimize)
    d = tempfile.mkdtemp(prefix="c21-")
    try:
        argv = command(tool, name, fmt, optimize, d)
        env = dict(c13.ENV, PYTHONPATH=sut.REPO, PYTHONDONTWRITEBYTECODE="1", PYTHONWARNINGS="ignore", LC_ALL="C.UTF-8")
        path = os.path.join(d, "out.dat")
        pre, fd = None, subprocess.DEVNULL
        if mode in ("file", "stdout"):
            def pre():
                resource.setrlimit(resource.RLIMIT_FSIZE, (limit, limit))
        elif mode == "full":
            path = "/dev/full"
        if mode in ("file", "full"):
            argv = argv + [path]
        elif mode == "pipe":
            r, fd = os.pipe()
            os.close(r)
        else:
            fd = os.open(path if mode == "stdout" else "/dev/full", os.O_WRONLY | (os.O_CREAT | os.O_TRUNC if mode == "stdout" else 0), 0o600)
        try:
            p = subprocess.run([sys.executable, "-B"] + argv, stdin=subprocess.DEVNULL, stdout=fd, stderr=subprocess.PIPE, cwd=d, env=env, preexec_fn=pre, timeout=300)
        finally:
            if fd != subprocess.DEVNULL:
                os.close(fd)
        got = b"" if path == "/dev/full" or mode in ("pipe", "stdout-full") else open(path, "rb").read()
        rec.state((tool, name, fmt, optimize, mode, len(got)))
        rec.outcome(p.returncode)
        rec.step()
        if p.returncode == 0 and got != want:
            return "%s exits with 0 having written %d of the %d bytes of its output (%s)" % (argv, len(got), len(want), mode)
        if p.returncode != 0 and limit is not None and limit >= len(want):
            return "%s exits with %d although its output fits: %s" % (argv, p.returncode, p.stderr.decode(errors="replace")[-400:])
        return None
    finally:
        shutil.rmtree(d, ignore_errors=True)


def configs():
    for fmt, optimize in itertools.product(("binary", "hex", "code"), (False, True)):
        for name in ("empty", "plain", "bytes"):
            yield "converter", name, fmt, optimize
        for name in ("tree", "reports"):
            yield "script", name, fmt, optimize
    for name in ("empty", "plain", "ids"):
        yield "extractor", name, "python", False


SMALL = [c for c in itertools.product(("converter",), ("empty",), ("binary", "hex", "code"), (False, True))] + \
        [c for c in itertools.product(("script",), ("tree",), ("binary", "hex"), (False, True))]


def limits(q):
    for c in SMALL if q else configs():
        for mode in ("file", "stdout"):
            for n in range(len(expected(*c)) + 2):
                yield c + (mode, n)


def lines(q):
    """last byte of every line of the text, one before and one after"""
    if not q:
        return
    for c in [("script", "tree", "code", False), ("script", "reports", "code", True), ("extractor", "empty", "python", False), ("extractor", "ids", "python", False)]:
        text = expected(*c)
        ends = [i + 1 for i, b in enumerate(text) if b == 10]
        points = sorted({e + k for e in [0] + ends for k in (-1, 0, 1)} - {-1})
        for mode in ("file", "stdout"):
            for k in points:
                yield c + (mode, k)


def big(q):
    for c in [("converter", "big", f, o) for f in ("binary", "hex", "code") for o in (False, True)] + [("extractor", "big", "python", False)]:
        n = len(expected(*c))
        if c[0] == "extractor" and q:
            points = {0, 1, n // 2, n - 1, n}
        else:
            unit = 65536 if q and n > 200000 else 8192
            points = {p + e for p in range(0, n, unit) for e in ((-1, 0, 1) if unit == 8192 else (0,))} | {n - 1, n, n + 1}
        for mode in ("file", "stdout"):
            for k in sorted(points):
                if k >= 0:
                    yield c + (mode, k)


def devices(q):
    for c in list(configs()) + [("converter", "big", f, o) for f in ("binary", "hex", "code") for o in (False, True)]:
        for mode in ("full", "stdout-full", "pipe"):
            yield c + (mode, None)


def families(tier):
    q = tier == "quick"
    c13.precompile()
    return [Family("cut", lambda: limits(q), check, "tools x formats x optimization x named file or standard output x every byte at which writing stops"),
            Family("cut-lines", lambda: lines(q), check, "longer texts cut around the end of every line (thorough: at every byte, in family cut)"),
            Family("cut-big", lambda: big(q), check, "outputs larger than any buffer cut at every boundary of a buffer size, one before and one after"),
            Family("devices", lambda: devices(q), check, "full device and pipe without reader, all configurations")]
