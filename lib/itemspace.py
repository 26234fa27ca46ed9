"""Item kinds and value sets shared by the item-level checks."""
from hidref import *

KINDS = sorted((k, t) for k in DEFINED for t in DEFINED[k])
FIXED = {(MAIN, ENDCOLL), (GLOBAL, PUSH), (GLOBAL, POP)}      # carry no value
DATA = {(MAIN, w) for w in WAYS}


def signed(kt):
    return kt in SIGNED


def in_range(kt, v):
    return -(1 << 31) <= v < (1 << 31) if signed(kt) else 0 <= v < (1 << 32)


def edges(kt):
    """Values around every power of two, representable ones only."""
    if kt in FIXED:
        return [0]
    vals = {s * ((1 << b) + d) for b in range(33) for d in (-2, -1, 0, 1, 2) for s in (1, -1)}
    return sorted(v for v in vals if in_range(kt, v))


def few(kt):
    """A handful: each size class, both signs."""
    if kt in FIXED:
        return [0]
    if signed(kt):
        return [0, 1, -1, 127, -128, 128, -129, 32767, 32768, -32768, -32769, -(1 << 31), (1 << 31) - 1]
    return [0, 1, 2, 0x7f, 0x80, 0xff, 0x100, 0xffff, 0x10000, 0x10030, 0x90001, (1 << 31), (1 << 32) - 1]
