"""Frames whose structural bytes (header, function codes, counts, length) are known and whose data bytes are symbols."""
from __future__ import annotations

import ast
import re
import struct

from . import wire
from .core import K, NONE, Term, is_k, kval
from .evalterm import calls_in, value
from .events import callee_of
from .interp import H, Policy, tup
from .lin import parse

DATA = Term("param", "data")


def is_log(node):
    f = node.func
    return isinstance(f, ast.Attribute) and f.attr in ("debug", "info", "warning", "error", "exception", "critical", "log") and isinstance(f.value, ast.Name) and "log" in f.value.id.lower()


class FramePolicy(Policy):
    """Reads of the frame give its bytes: constants where they are pinned, Term('field', data, offset, size) elsewhere."""

    max_depth = 24

    def __init__(self, I, length=None, pins=None, data=DATA):
        self.I, self.L, self.pins, self.D = I, length, dict(pins or {}), data
        self.calls = []

    def inline(self, fn, interp, st):
        return True

    def skip_call(self, interp, node, st):
        return is_log(node)

    # ---------------------------------------------------------------- frame bytes
    def span(self, t):
        """(start, end) of the part of the frame a term is; end None when the frame's length is unknown."""
        if t == self.D:
            return 0, self.L
        if is_k(t) or t.op != "slice" or t.args[0] != self.D:
            return None
        lo, hi = t.args[1], t.args[2]
        lo = 0 if lo == NONE else kval(lo) if is_k(lo) else None
        hi = self.L if hi == NONE else kval(hi) if is_k(hi) else None
        return None if lo is None else (lo, hi)

    def field(self, lo, size):
        bs = [self.pins.get(lo + i) for i in range(size)]
        if None not in bs:
            return K(int.from_bytes(bytes(bs), "big"))
        t = Term("field", self.D, lo, size)
        self.I.types.setdefault(t, ("ext", "int"))
        return t

    def cut(self, lo, hi):
        if hi is not None and hi <= lo:
            return K(b"")
        if hi is not None and all(i in self.pins for i in range(lo, hi)):
            return K(bytes(self.pins[i] for i in range(lo, hi)))
        if lo == 0 and hi == self.L:
            return self.D
        t = Term("slice", self.D, K(lo), NONE if hi is None else K(hi), NONE)
        self.I.types.setdefault(t, ("ext", "bytes"))
        return t

    def on_load_item(self, interp, base, key, st, node):
        sp = self.span(base)
        if sp is None:
            return None
        lo, hi = sp
        if key.op == "sl":
            a, b, s = key.args
            if s not in (NONE, K(1)) or not all(x == NONE or is_k(x) and isinstance(kval(x), int) for x in (a, b)):
                return None
            a = 0 if a == NONE else kval(a)
            b = None if b == NONE else kval(b)
            if hi is None:
                if a < 0 or b is not None and b < 0:
                    return None
                return [(st, self.cut(lo + a, None if b is None else lo + b))]
            n = hi - lo
            a, b, _ = slice(a, b).indices(n)
            return [(st, self.cut(lo + a, lo + b))]
        if is_k(key) and isinstance(kval(key), int):
            i = kval(key)
            if hi is None:
                return None if i < 0 else [(st, self.field(lo + i, 1))]
            if i < 0:
                i += hi - lo
            if not 0 <= i < hi - lo:
                interp.raise_(st, interp.exc_term("IndexError"), node)
                return []
            return [(st, self.field(lo + i, 1))]
        return None

    def on_call(self, interp, callee, args, kwargs, st, node):
        name, base, _ = callee_of(callee)
        if base is not None:
            sp = self.span(base)
            if sp is not None and name in ("decode",):
                return None
            if sp is not None and name == "startswith" and len(args) == 1 and is_k(args[0]):
                p = kval(args[0])
                got = [self.pins.get(sp[0] + i) for i in range(len(p))]
                if None not in got:
                    return [(st, K(bytes(got) == p))]
            return None
        if callee.op != "ext":
            return None
        if name == "len" and len(args) == 1:
            sp = self.span(args[0])
            if sp is not None and sp[1] is not None:
                return [(st, K(sp[1] - sp[0]))]
        if name in ("any", "all") and len(args) == 1:
            sp = self.span(args[0])
            if sp is not None and sp[1] is not None:
                bs = [self.pins.get(i) for i in range(*sp)]
                if name == "any" and any(bs):
                    return [(st, K(True))]
                if None not in bs:
                    return [(st, K((any if name == "any" else all)(bs)))]
                return [(st, Term("call", callee, tuple(args), (), None))]
        if name in ("struct.unpack", "struct.unpack_from", "struct.iter_unpack") and len(args) >= 2 and is_k(args[0]):
            return self.unpack(interp, name, args, st, node)
        if name == "int.from_bytes" and args:
            order = args[1] if len(args) > 1 else kwargs.get("byteorder", K("big"))
            sp = self.span(args[0])
            if sp is not None and sp[1] is not None and order == K("big") and kwargs.get("signed", K(False)) == K(False):
                return [(st, self.field(sp[0], sp[1] - sp[0]))]
        if name in ("bytes", "bytearray", "memoryview") and len(args) == 1 and self.span(args[0]) is not None:
            return [(st, args[0])]
        return None

    def unpack(self, interp, name, args, st, node):
        fmt = kval(args[0])
        fmt = fmt.decode() if isinstance(fmt, bytes) else fmt
        if not isinstance(fmt, str) or fmt[:1] not in (">", "!"):
            return None
        items = list(parse(fmt[1:]))
        if None in items:
            return None
        need = sum(n for _, n in items)
        if is_k(args[1]) and isinstance(kval(args[1]), bytes):
            try:
                v = struct.unpack(fmt, kval(args[1])) if name == "struct.unpack" else struct.unpack_from(fmt, kval(args[1]), *(kval(a) for a in args[2:]))
                return [(st, tup(*[K(x) for x in v]))]
            except struct.error:
                interp.raise_(st, interp.exc_term("struct.error"), node)
                return []
        sp = self.span(args[1])
        if sp is None:
            return None
        lo, hi = sp
        if name == "struct.unpack_from":
            off = args[2] if len(args) > 2 else K(0)
            if not is_k(off):
                return None
            lo += kval(off)
        elif name == "struct.iter_unpack":
            return None
        if hi is None and name == "struct.unpack":
            return None
        short = hi is not None and (hi - lo < need or name == "struct.unpack" and hi - lo != need)
        if short:
            interp.raise_(st, interp.exc_term("struct.error"), node)
            return []
        out = []
        for kind, n in items:
            if kind == "x":
                pass
            elif kind == "s":
                out.append(self.cut(lo, lo + n))
            elif kind in "BHILQ":
                out.append(self.field(lo, n))
            else:
                out.append(Term("signed", self.D, lo, n))
            lo += n
        return [(st, tup(*out))]


def pin(pins, off, size, value):
    for i, b in enumerate(int(value).to_bytes(size, "big")):
        pins[off + i] = b
    return pins


def text(lo, size, data=DATA):
    """The frame's bytes as a latin-1 string, in the form decoding them gives."""
    return lo, size


def is_text(t, lo, size, pol):
    """Is this data[lo:lo+size] decoded one character per byte?"""
    if t.op != "call":
        return False
    n, base, _ = callee_of(t.args[0])
    a = list(t.args[1]) + [v for k, v in t.args[2] if k == "encoding"]
    if n == "str" and base is None and len(a) == 2:
        base, a = a[0], a[1:]
    elif n != "decode" or base is None:
        return False
    if not a or not is_k(a[0]) or not latin1(kval(a[0])):
        return False
    return pol.span(base) == (lo, lo + size)


def latin1(name):
    return isinstance(name, str) and name.lower().replace("_", "-") in ("latin1", "latin-1", "iso-8859-1", "iso8859-1", "l1", "8859")


# -------------------------------------------------------------------- encoding
CRCS = ("crccheck.crc.CrcModbus", "crccheck.crc.Crc16Modbus")


class CodecPolicy(FramePolicy):
    """Also follows text fields of known width into the encoder, and knows the size of what is being built."""

    def __init__(self, I, length=None, pins=None, data=DATA, texts=()):
        super().__init__(I, length, pins, data)
        self.texts = dict(texts)  # term -> characters

    def width(self, t):
        if t in self.texts:
            return self.texts[t]
        if t.op == "call" and callee_of(t.args[0])[0] in ("decode", "str"):
            _, base, _ = callee_of(t.args[0])
            base = base if base is not None else t.args[1][0] if t.args[1] else None
            sp = self.span(base) if base is not None else None
            if sp is not None and sp[1] is not None and is_text(t, sp[0], sp[1] - sp[0], self):
                return sp[1] - sp[0]
        return None

    def on_load_item(self, interp, base, key, st, node):
        if key.op == "sl":
            w = self.width(base)
            if w is not None and key.args[2] in (NONE, K(1)) and all(x == NONE or is_k(x) for x in key.args[:2]):
                a, b, _ = slice(*(None if x == NONE else kval(x) for x in key.args[:2])).indices(w)
                if (a, b) == (0, w):
                    return [(st, base)]
        return super().on_load_item(interp, base, key, st, node)

    def on_call(self, interp, callee, args, kwargs, st, node):
        name, base, _ = callee_of(callee)
        if base is None and name in CRCS and not args and not kwargs:
            st = st.copy()
            return [(st, Term("crcobj", interp.alloc(st, H("list", None, (), True))))]
        if base is not None and base.op == "crcobj":
            o = interp.hget(st, base.args[0])
            if name == "process" and len(args) == 1:
                st = st.copy()
                interp.hset(st, base.args[0], o.but(data=o.data + (args[0],)))
                return [(st, base)]
            if name == "final" and not args and o.data:
                x = o.data[0]
                for y in o.data[1:]:
                    x = Term("bin", "+", x, y)
                p = Term("call", Term("attr", Term("call", Term("ext", CRCS[0]), (), (), None), "process", 0), (x,), (), None)
                return [(st, Term("call", Term("attr", p, "final", 0), (), (), None))]
        if callee == Term("ext", "len") and len(args) == 1:
            w = self.width(args[0])
            if w is None and args[0].op in ("bin", "call", "slice"):
                w = self.size(args[0])
            if w is not None:
                return [(st, K(w))]
        return super().on_call(interp, callee, args, kwargs, st, node)

    def size(self, t):
        n = 0
        for f in wire.fields(t) or [None]:
            if f is None:
                return None
            if f.size is None:
                sp = self.span(f.term)
                if sp is None or sp[1] is None:
                    return None
                n += sp[1] - sp[0]
            else:
                n += f.size
        return n

    def encoded(self, t, size):
        """(the text term, codec name) a byte field of this size is made from, or None."""
        n, base, _ = callee_of(t.args[0]) if t.op == "call" else (None, None, None)
        a = list(t.args[1]) if t.op == "call" else []
        kw = dict(t.args[2]) if t.op == "call" else {}
        if n == "encode" and base is not None:
            enc = a[0] if a else kw.get("encoding", K("utf-8"))
        elif n in ("bytes", "bytearray") and base is None and len(a) == 2:
            base, enc = a
        else:
            return None
        x = self.plain(base, size)
        return (x, kval(enc)) if x is not None and is_k(enc) else None

    def plain(self, t, size):
        """The text itself, looking through padding and cuts that leave a text of this width alone."""
        for _ in range(8):
            if self.width(t) == size:
                return t
            if t.op == "fstr" and len(t.args) == 1:
                p = t.args[0]
                if p.op == "fmt":
                    if p.args[1] not in (-1, K(-1), 115, K(115)) or not plain_spec(p.args[2], size):
                        return None
                    t = p.args[0]
                    continue
                t = p
                continue
            if t.op == "fmt" and plain_spec(t.args[2], size):
                t = t.args[0]
                continue
            if t.op == "slice" and self.width(t.args[0]) == size:
                a, b, s = (None if x == NONE else kval(x) if is_k(x) else "?" for x in t.args[1:4])
                if "?" in (a, b, s) or slice(a, b, s).indices(size) != (0, size, 1):
                    return None
                t = t.args[0]
                continue
            if t.op == "call":
                n, base, _ = callee_of(t.args[0])
                if n in ("rjust", "ljust", "center", "zfill") and base is not None and t.args[1] and is_k(t.args[1][0]) and kval(t.args[1][0]) <= size:
                    t = base
                    continue
                if n in ("str", "format") and base is None and len(t.args[1]) >= 1:
                    if n == "format" and len(t.args[1]) > 1 and not plain_spec(t.args[1][1], size):
                        return None
                    t = t.args[1][0]
                    continue
            return None
        return None


def plain_spec(spec, size):
    """A format spec that changes nothing in a string of this many characters."""
    if spec in (NONE, None):
        return True
    s = spec if isinstance(spec, str) else kval(spec) if is_k(spec) else None
    if s is None:
        return False
    m = re.fullmatch(r"(?:.?[<>^])?(\d*)(?:\.(\d+))?s?", s)
    return bool(m) and int(m[1] or 0) <= size and (m[2] is None or int(m[2]) >= size)


def crc_of(t):
    """[(term, bytes it is computed over)] for every Modbus CRC in an expression."""
    out = []
    for c in calls_in(t, lambda x: x.op == "call"):
        n, base, _ = callee_of(c.args[0])
        if n == "final" and base is not None and base.op == "call":
            m, obj, _ = callee_of(base.args[0])
            if m == "process" and obj is not None and len(base.args[1]) == 1 and modbus(obj):
                out.append((c, base.args[1][0]))
        elif n == "calc" and base is not None and c.args[1] and modbus(base, True):
            out.append((c, c.args[1][0]))
        elif n in ("crccheck.crc.CrcModbus.calc", "crccheck.crc.CrcModbus().calc") and base is None and c.args[1]:
            out.append((c, c.args[1][0]))
    return list(dict.fromkeys(out))


def modbus(t, klass=False):
    if t.op == "call":
        return callee_of(t.args[0])[0] in CRCS and not t.args[1] and not t.args[2]
    return klass and t.op == "ext" and t.args[0] in CRCS


def swapped(t, raw):
    """'swap' when the expression is the two bytes of raw exchanged, 'same' when it is raw, else None: decided for every 16-bit value."""
    t = subst(t, raw, RAW)
    if t not in _SWAPPED:
        _SWAPPED[t] = None
        try:
            got = [value(t, {RAW: v}) for v in range(0x10000)]
            if got == list(range(0x10000)):
                _SWAPPED[t] = "same"
            elif got == [(v & 255) << 8 | v >> 8 for v in range(0x10000)]:
                _SWAPPED[t] = "swap"
        except Exception:
            pass
    return _SWAPPED[t]


RAW = Term("param", "raw-crc")
_SWAPPED = {}


def subst(t, a, b):
    if t == a:
        return b
    if isinstance(t, Term):
        return Term(t.op, *(subst(x, a, b) for x in t.args))
    if isinstance(t, tuple):
        return tuple(subst(x, a, b) for x in t)
    return t
