"""The system under test: hrdc imported from the working tree, and thin drivers around
its public API.  Nothing here looks at how hrdc is written."""
import io, os, sys, contextlib

REPO = os.environ.get("HRDC_REPO", "/repo")
sys.dont_write_bytecode = True
if REPO not in sys.path:
    sys.path.insert(0, REPO)

import hrdc
if os.path.dirname(os.path.abspath(hrdc.__file__)) != os.path.join(os.path.abspath(REPO), "hrdc"):
    raise RuntimeError("hrdc comes from %s" % hrdc.__file__)

import hrdc.usage as usage_pkg
from hrdc.usage import Usage, UsageRange
from hrdc.stream import item, Optimizer, Stream
from hrdc.stream.formatter import Formatter
from hrdc.stream.parser import Parser
from hrdc import descriptor as D
from hrdc.descriptor.streamer import Streamer
from hrdc.descriptor.extractor import Extractor
from hrdc.descriptor.dumper import Dumper
import hidref


class Tape(Stream):
    """Output stream recording items and close()."""
    def __init__(self):
        self.items = []
        self.closed = 0

    def append(self, i):
        if self.closed:
            raise AssertionError("item after close")
        self.items.append(i)

    def close(self):
        self.closed += 1

    def bytes(self):
        return b"".join(i.bytes() for i in self.items)

    def triples(self):
        return [(int(i.kind), int(i.tag), int(i.value)) for i in self.items]


def make_item(kind, tag, value):
    return item.Item.itemclass(kind, tag)(value)


def feed(stream, triples):
    for k, t, v in triples:
        stream.append(make_item(k, t, v))
    stream.close()


def parse(fmt, data, output=None):
    """Run a parser over str/bytes into a Tape (or the given stream)."""
    out = Tape() if output is None else output
    src = io.BytesIO(data) if isinstance(data, (bytes, bytearray)) else io.StringIO(data)
    Parser.get(fmt)(src, out).read()
    return out


def fmt_buffer(fmt):
    return io.BytesIO() if fmt == "binary" else io.StringIO()


def convert(ifmt, data, ofmt, optimize=False):
    """The converter's library pipeline."""
    buf = fmt_buffer(ofmt)
    stream = Formatter.get(ofmt)(buf)
    if optimize:
        stream = Optimizer.new(stream)
    parse(ifmt, data, stream)
    return buf.getvalue()


def optimize_bytes(blob):
    """bytes -> parse -> optimizer chain -> bytes"""
    return convert("binary", blob, "binary", True)


def compile_tree(desc, optimize=True):
    tape = Tape()
    out = Optimizer.new(tape) if optimize else tape
    desc.accept(Streamer(out))
    out.close()
    return tape.bytes()


def extract(blob, fmt="binary"):
    ex = Extractor()
    with contextlib.redirect_stdout(io.StringIO()):
        parse(fmt, blob, ex)
        return ex.root


def dump(desc):
    buf = io.StringIO()
    desc.accept(Dumper(buf))
    return buf.getvalue()


def run_script(text):
    """Execute a dumped script as an importable module and return its descriptor."""
    ns = {"__name__": "dumped"}
    exec(compile(text, "<dumped>", "exec"), ns)
    return ns["descriptor"]


WAY = {8: D.Value.Input, 9: D.Value.Output, 11: D.Value.Feature}
KIND = [D.Collection.Physical, D.Collection.Application, D.Collection.Logical, D.Collection.Report,
        D.Collection.NamedArray, D.Collection.UsageSwitch, D.Collection.UsageModifier]


def U(code):
    return None if code is None else Usage.lookup(code)


def build(t, codes=False):
    """treespec tuple -> hrdc descriptor objects (codes: plain integers instead of named constants, everywhere or in every other member)"""
    k = t[0]
    U = (lambda x: x) if codes else globals()["U"]
    kids = lambda cs: [build(c, codes if codes != "mixed" or c[0] in ("coll", "rep") else i % 2 == 1) for i, c in enumerate(cs)]
    W = int if codes else WAY.__getitem__
    if k == "top":
        return D.TopLevel(*kids(t[1]))
    if k == "coll":
        return D.Collection(KIND[t[1]] if t[1] < 7 and not codes else t[1], U(t[2]), *kids(t[3]))
    if k == "rep":
        return D.Report(t[1], *kids(t[2]))
    if k == "pad":
        return D.Padding(W(t[1]), t[2])
    if k == "align":
        return D.Align(W(t[1]), t[2])
    v = t[1]
    kw = {}
    for a, b in (("flags", "flags"), ("lmin", "logicalMin"), ("lmax", "logicalMax"), ("pmin", "physicalMin"),
                 ("pmax", "physicalMax"), ("unit", "unit"), ("exp", "unitExponent"), ("desig", "designator"),
                 ("string", "string"), ("count", "count"), ("align", "alignment")):
        if a in v:
            kw[b] = v[a]
    if v.get("named"):
        n = v["named"]
        kw["namedArray"] = UsageRange(U(n[1]), U(n[2])) if n[0] == "range" else [U(x) for x in n]
    return D.Value(W(v["way"]), U(v.get("usage")), v["size"], **kw)
