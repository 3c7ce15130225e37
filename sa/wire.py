"""A byte string built on a path, seen as the sequence of fields it is made of."""
from __future__ import annotations

import re

from .core import K, NONE, Term, is_k, kval, show

PACK = Term("ext", "struct.pack")
SIZES = {"B": 1, "b": 1, "H": 2, "h": 2, "I": 4, "i": 4, "L": 4, "l": 4, "Q": 8, "q": 8}


class Field:
    __slots__ = ("code", "size", "term", "order")

    def __init__(self, code, size, term, order):
        self.code, self.size, self.term, self.order = code, size, term, order

    def __repr__(self):
        return f"{self.code}:{show(self.term)}"


def chunks(t):
    """Left-to-right parts of a concatenation."""
    if t.op == "bin" and t.args[0] == "+":
        return chunks(t.args[1]) + chunks(t.args[2])
    if is_k(t) and kval(t) == b"":
        return []
    if t.op == "call" and t.args[0] in (Term("ext", "bytes"), Term("ext", "bytearray")) and not t.args[2]:
        if not t.args[1]:
            return []
        if len(t.args[1]) == 1 and chunks(t.args[1][0]) != [t.args[1][0]]:
            return chunks(t.args[1][0])
    # b"".join((a, b, …))
    if t.op == "call" and t.args[0].op in ("attr", "meth") and t.args[0].args[1] == "join" and is_k(t.args[0].args[0]):
        if kval(t.args[0].args[0]) == b"" and len(t.args[1]) == 1 and t.args[1][0].op == "tup":
            return [c for x in t.args[1][0].args for c in chunks(x)]
    return [t]


def fields(t, I=None, st=None):
    """[Field] for the byte string, or None when a part is not understood."""
    out = []
    for c in chunks(t):
        if is_k(c) and isinstance(kval(c), bytes):
            out += [Field("B", 1, K(b), ">") for b in kval(c)]
            continue
        if c.op == "slice" and chunks(c.args[0]) != [c.args[0]] or c.op == "slice" and c.args[0].op == "call" and c.args[0].args[0] == PACK:
            cut = cut_fields(fields(c.args[0]), c.args[1], c.args[2], c.args[3])
            if cut is not None:
                out += cut
                continue
        if c.op == "call" and c.args[0] == PACK and c.args[1] and is_k(c.args[1][0]):
            fmt = kval(c.args[1][0])
            order = fmt[0] if fmt[:1] in "<>!=@" else "@"
            vals = list(c.args[1][1:])
            for n, code in re.findall(r"(\d*)([a-zA-Z?])", fmt):
                if code == "s":
                    out.append(Field("s", int(n or 1), vals.pop(0), order))
                elif code == "x":
                    out += [Field("B", 1, K(0), order)] * int(n or 1)
                else:
                    if code not in SIZES:
                        return None
                    for _ in range(int(n or 1)):
                        out.append(Field(code, SIZES[code], vals.pop(0), ">" if order == "!" else order))
            continue
        # x.to_bytes(n, "big")
        if c.op == "call" and c.args[0].op in ("attr", "meth") and c.args[0].args[1] == "to_bytes":
            kw = dict(c.args[2])
            n = c.args[1][0] if c.args[1] else kw.get("length", K(1))
            bo = c.args[1][1] if len(c.args[1]) > 1 else kw.get("byteorder", K("big"))
            if not (is_k(n) and is_k(bo)):
                return None
            code = {1: "B", 2: "H", 4: "I", 8: "Q"}.get(kval(n))
            if code is None or kw.get("signed", K(False)) != K(False):
                return None
            out.append(Field(code, kval(n), c.args[0].args[0], ">" if kval(bo) == "big" else "<"))
            continue
        # bytes([a, b])
        if c.op == "call" and c.args[0] == Term("ext", "bytes") and len(c.args[1]) == 1 and c.args[1][0].op == "tup":
            out += [Field("B", 1, x, ">") for x in c.args[1][0].args]
            continue
        out.append(Field("?", None, c, None))
    return out


def cut_fields(fs, lo, hi, step):
    """The fields between two constant byte offsets, when both fall between fields."""
    if step not in (NONE, K(1)) or fs is None or any(f.size is None for f in fs):
        return None
    if not all(x == NONE or is_k(x) and isinstance(kval(x), int) for x in (lo, hi)):
        return None
    total = sum(f.size for f in fs)
    a, b, _ = slice(None if lo == NONE else kval(lo), None if hi == NONE else kval(hi)).indices(total)
    out, off = [], 0
    for f in fs:
        if a <= off and off + f.size <= b:
            out.append(f)
        elif off < b and off + f.size > a and a < b:
            return None
        off += f.size
    return out


def size(t):
    """Bytes in a built string, or None."""
    fs = fields(t)
    return None if fs is None or any(f.size is None for f in fs) else sum(f.size for f in fs)
