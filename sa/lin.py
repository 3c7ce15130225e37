"""Linear facts over byte buffers: canonical fields, and bounds that follow from one known comparison plus ranges."""
from __future__ import annotations

import struct

from .core import K, NONE, Term, is_k, kval
from .events import callee_of

WIDTH = {"B": 1, "b": 1, "H": 2, "h": 2, "I": 4, "i": 4, "L": 4, "l": 4, "Q": 8, "q": 8}


def canon(t):
    """Header fields read in any way become Term('field', buffer, offset, size): big-endian, unsigned."""
    if not isinstance(t, Term):
        return t
    if t.op == "idx" and is_k(t.args[1]) and isinstance(kval(t.args[1]), int):
        i = kval(t.args[1])
        b = t.args[0]
        if b.op == "call":
            f = unpacked(b, i)
            if f is not None:
                return f
        elif i >= 0:
            x, lo = base_of(b)
            if x is not None and (x != b or True):
                return Term("field", x, lo + i, 1)
    if t.op == "call":
        n = callee_of(t.args[0])[0]
        if n == "int.from_bytes" and t.args[1]:
            order = list(t.args[1][1:]) + [v for k, v in t.args[2] if k == "byteorder"]
            sl = t.args[1][0]
            if (not order or order[0] == K("big")) and sl.op == "slice" and is_k(sl.args[2]) and isinstance(kval(sl.args[2]), int):
                x, lo = base_of(Term("slice", sl.args[0], sl.args[1], NONE, NONE))
                y, skip = base_of(sl.args[0])
                if x is not None and y == x and 0 < kval(sl.args[2]) + skip - lo <= 8:
                    return Term("field", x, lo, kval(sl.args[2]) + skip - lo)
        if n == "len" and len(t.args[1]) == 1:
            return Term("len", t.args[1][0])
    return t


def base_of(b):
    """(buffer, offset) of a suffix cut at a constant, a whole buffer, or a cut x[a:c] read inside."""
    if b.op == "slice" and b.args[3] in (NONE, K(1)):
        lo = b.args[1]
        if lo == NONE:
            lo = K(0)
        if is_k(lo) and isinstance(kval(lo), int) and kval(lo) >= 0:
            x, o = base_of(b.args[0])
            return (x, o + kval(lo)) if x is not None else (None, None)
        return None, None
    return b, 0


def unpacked(call, i):
    n, _, _ = callee_of(call.args[0])
    a = call.args[1]
    if n not in ("struct.unpack", "struct.unpack_from", "unpack", "unpack_from") or not a or not is_k(a[0]) or not isinstance(kval(a[0]), str):
        return None
    fmt = kval(a[0])
    if len(a) < 2:
        return None
    off = 0
    if n.endswith("_from") and len(a) > 2:
        if not is_k(a[2]) or not isinstance(kval(a[2]), int):
            return None
        off = kval(a[2])
    x, lo = base_of(a[1])
    if x is None or not fmt or fmt[0] not in ">!":
        return None
    fields = []
    pos = 0
    for item in parse(fmt[1:]):
        if item is None:
            return None
        kind, size = item
        if kind != "x":
            fields.append((pos, size, kind))
        pos += size
    if not 0 <= i < len(fields):
        return None
    pos, size, kind = fields[i]
    return Term("field", x, lo + off + pos, size) if kind in "BHILQ" else None


def parse(fmt):
    num = ""
    for c in fmt:
        if c.isdigit():
            num += c
            continue
        n = int(num) if num else 1
        num = ""
        if c == "s":
            yield ("s", n)
        elif c == "x":
            yield ("x", n)
        elif c in WIDTH:
            for _ in range(n):
                yield (c, WIDTH[c])
        else:
            yield None


def form(t):
    """(coefficients of atoms, constant) of a sum."""
    if is_k(t) and isinstance(kval(t), int):
        return {}, int(kval(t))
    if t.op == "bin" and t.args[0] in ("+", "-"):
        (a, c), (b, d) = form(t.args[1]), form(t.args[2])
        s = 1 if t.args[0] == "+" else -1
        out = dict(a)
        for k, v in b.items():
            out[k] = out.get(k, 0) + s * v
        return {k: v for k, v in out.items() if v}, c + s * d
    if t.op == "bin" and t.args[0] == "*":
        for x, y in ((t.args[1], t.args[2]), (t.args[2], t.args[1])):
            if is_k(x) and isinstance(kval(x), int):
                a, c = form(y)
                return {k: v * kval(x) for k, v in a.items() if kval(x)}, c * kval(x)
    if t.op == "un" and t.args[0] == "-":
        a, c = form(t.args[1])
        return {k: -v for k, v in a.items()}, -c
    return {canon(t): 1}, 0


def integral(t):
    if t.op in ("field", "len"):
        return True
    return t.op == "call" and callee_of(t.args[0])[0] in ("find", "rfind", "index", "len", "int", "int.from_bytes", "max", "min")


def constraints(st):
    """Known linear facts: (coefficients, least value of the sum)."""
    out = []
    for f, b in st.facts.items():
        if f.op == "call" and b is not None:
            n, base, _ = callee_of(f.args[0])
            if n == "startswith" and base is not None and len(f.args[1]) == 1:
                pos = ("find", base, f.args[1][0])
                for t in finds(st, *pos):
                    if b:
                        out += [({t: 1}, 0), ({t: -1}, 0)]
                    elif nonneg(st, t):
                        out.append(({t: 1}, 1))
            continue
        if f.op != "cmp":
            continue
        op, x, y = f.args
        if op == "in" and b:
            vals = members(y)
            if vals and all(isinstance(v, int) for v in vals):
                a, c = form(x)
                out += [(a, min(vals) - c), ({k: -v for k, v in a.items()}, c - max(vals))]
            continue
        if op not in ("lt", "le", "eq"):
            continue
        a, c = form(Term("bin", "-", y, x))
        whole = all(integral(t) for t in a)
        step = 1 if whole else 0
        neg = {k: -v for k, v in a.items()}
        if op == "eq":
            if b:
                out += [(a, -c), (neg, c)]
        elif op == "lt":
            out.append((a, step - c) if b else (neg, c))
        else:
            out.append((a, -c) if b else (neg, c + step))
    return out


def finds(st, name, base, arg):
    for f in st.facts:
        stack = [f]
        while stack:
            t = stack.pop()
            if not isinstance(t, Term):
                if isinstance(t, tuple):
                    stack += list(t)
                continue
            if t.op == "call":
                n, b, _ = callee_of(t.args[0])
                if n in ("find", "index") and b == base and t.args[1] == (arg,):
                    yield t
            stack += [x for x in t.args if isinstance(x, (Term, tuple))]


def nonneg(st, t):
    for f, b in st.facts.items():
        if f.op == "cmp" and f.args[0] == "lt" and f.args[1] == t and f.args[2] == K(0) and b is False:
            return True
        if f.op == "cmp" and f.args[0] == "le" and f.args[1] == K(0) and f.args[2] == t and b is True:
            return True
        if f.op == "cmp" and f.args[0] == "eq" and {f.args[1], f.args[2]} == {t, K(-1)} and b is False:
            return True
    return callee_of(t.args[0])[0] == "index"


def members(c):
    if c.op == "kset":
        return {kval(x) for x in c.args[0] if is_k(x)}
    if c.op == "tup":
        return {kval(x) for x in c.args if is_k(x)} if all(is_k(x) for x in c.args) else None
    if is_k(c) and isinstance(kval(c), (bytes, tuple, frozenset, list)):
        return set(kval(c))
    return None


def natural(t):
    """Range an atom has by what it is."""
    if t.op == "field":
        return 0, 256 ** t.args[2] - 1
    if t.op == "len":
        return 0, None
    if t.op == "call" and callee_of(t.args[0])[0] in ("find", "rfind"):
        return -1, None
    return None, None


def least(I, st, t):
    """The greatest lower bound found for a term (None: unbounded)."""
    q, qc = form(t)
    best = I.iv(st, t)[0]
    cons = constraints(st)
    known = [best] if best is not None else []
    for a, c in cons + [({}, 0)]:
        rest = {k: q.get(k, 0) - a.get(k, 0) for k in set(q) | set(a)}
        lo = c
        for k, v in rest.items():
            if not v:
                continue
            r = bound(I, st, k, v, cons)
            if r is None:
                lo = None
                break
            lo += r
        if lo is not None:
            known.append(lo + qc)
    return max(known) if known else None


def bound(I, st, k, v, cons):
    """Least value of v * k."""
    l, h = natural(k)
    for a, c in cons:
        if set(a) == {k}:
            if a[k] == 1:
                l = c if l is None else max(l, c)
            elif a[k] == -1:
                h = -c if h is None else min(h, -c)
    e = l if v > 0 else h
    return None if e is None else v * e


def most(I, st, t):
    r = least(I, st, Term("un", "-", t))
    return None if r is None else -r


def length(x):
    return Term("call", Term("ext", "len"), (x,), (), None)
