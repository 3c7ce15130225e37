"""Reassembly buffers: what a loop over a byte buffer does with the bytes, as concatenations of slices."""
from __future__ import annotations

from .clientmodel import ClientPolicy, Ev, events, segment
from .core import K, NONE, Term, is_k, kval, show, subterms
from .events import callee_of, loops
from .lin import form, length, most

BYTES = ("bytes", "bytearray", "memoryview")


class StreamPolicy(ClientPolicy):
    """Everything of one module is inlined but the named functions; appends to lists are recorded."""

    def __init__(self, I, module, opaque=(), **kw):
        super().__init__(I, opaque=opaque, **kw)
        self.module = module

    def inline(self, fn, interp, st):
        return fn.name not in self.opaque and fn.module.name == self.module

    def on_call(self, interp, callee, args, kwargs, st, node):
        name, base, _ = callee_of(callee)
        if base is not None and base.op == "ref" and name in ("append", "extend", "insert") and interp.hget(st, base).kind == "list":
            o = interp.hget(st, base)
            if not (o.exact and not st_in_loop(interp)):
                st = st.emit(Ev("list." + name, base, list(args), {}, node, loops(interp.ctx)))
                return interp.call_default(callee, args, kwargs, st, node)
        return super().on_call(interp, callee, args, kwargs, st, node)


def st_in_loop(I):
    return bool(loops(I.ctx))


class Bytes:
    """Concatenation algebra under the facts of one state."""

    def __init__(self, I, st, through=(), lists=None):
        self.I, self.st, self.through = I, st, set(through)
        self.lists = lists or {}

    def split(self, t):
        if t.op == "bin" and t.args[0] == "+":
            return self.split(t.args[1]) + self.split(t.args[2])
        if is_k(t) and kval(t) in (b"", ""):
            return []
        if t.op == "tup":
            return [p for a in t.args for p in self.split(a)]
        if t.op == "ref":
            o = self.I.hget(self.st, t)
            if o.kind == "list" and t.args[0] in self.lists:
                return [Term("acc", t.args[0])] + [p for a in self.lists[t.args[0]] for p in self.split(a)]
            if o.kind == "list" and o.exact:
                return [p for a in o.data for p in self.split(a)]
            return [Term("acc", t.args[0])]
        if t.op == "call":
            n, base, fn = callee_of(t.args[0])
            args = list(t.args[1])
            if n in BYTES and base is None:
                return self.split(args[0]) if args else []
            if n == "join" and base is not None and base == K(b"") and len(args) == 1:
                return self.split(args[0])
            if n in self.through and args:
                return self.split(args[0])
        return [t]

    def norm(self, t):
        ps = list(t) if isinstance(t, list) else self.split(t)
        again = True
        while again:
            again = False
            for i in range(len(ps) - 1):
                m = self.merge(ps[i], ps[i + 1])
                if m is not None:
                    ps[i : i + 2] = m
                    again = True
                    break
        return ps

    def merge(self, p, q):
        if p.op != "slice" or q.op != "slice" or p.args[0] != q.args[0] or p.args[3] != NONE or q.args[3] != NONE:
            return None
        x, a, k, b = p.args[0], p.args[1], p.args[2], q.args[2]
        if k == NONE or k != q.args[1]:
            return None
        if a == NONE and b == NONE:
            return [x]  # x[:k] + x[k:] is x for every integer k
        if b == NONE and self.le(a, k):
            return [Term("slice", x, a, NONE, NONE)]
        if a == NONE and self.le(k, b):
            return [Term("slice", x, NONE, b, NONE)]
        if a != NONE and b != NONE and self.le(a, k) and self.le(k, b):
            return [Term("slice", x, a, b, NONE)]
        return None

    def le(self, a, b):
        lo = self.I.iv(self.st, a)[0]
        if lo is None or lo < 0:
            return False
        if self.I.known(self.st, Term("cmp", "le", a, b)) is True or self.I.known(self.st, Term("cmp", "lt", b, a)) is False:
            return True
        d = self.I.iv(self.st, Term("bin", "-", b, a))[0]
        return d is not None and d >= 0


def appended(evs):
    out = {}
    for e in evs:
        if e.name in ("list.append", "list.extend"):
            out.setdefault(e.base.args[0], []).append(e.args[0])
    return out


def cell_of(head, sym):
    for k, o in head.h.items():
        if isinstance(o.data, dict):
            for f, v in o.data.items():
                if v == sym:
                    return k, f
    return None


def cell_value(I, st, cell):
    k, f = cell
    o = st.h.get(k)
    if o is not None and isinstance(o.data, dict) and f in o.data:
        return o.data[f]
    if isinstance(k, Term):
        return Term("attr", k, f, 0)
    return None


def head_symbols(head):
    out = set()
    for o in head.h.values():
        if isinstance(o.data, dict):
            out |= {v for v in o.data.values() if isinstance(v, Term) and v.op == "havoc"}
    return out


def upper(I, st, t):
    """An upper bound of the length of a byte string, or None."""
    hi = most(I, st, length(t))
    if t.op == "slice" and t.args[2] == NONE:
        a, c = form(t.args[1])
        if a == {Term("len", t.args[0]): 1}:
            return -c if hi is None else min(hi, -c)
    if t.op == "slice" and t.args[1].op == "k" and isinstance(kval(t.args[1]), int) and kval(t.args[1]) < 0 and t.args[2] == NONE:
        c = -kval(t.args[1])
        return c if hi is None else min(hi, c)
    if t.op == "slice" and t.args[2].op == "k" and isinstance(kval(t.args[2]), int) and kval(t.args[2]) >= 0:
        c = kval(t.args[2])
        return c if hi is None else min(hi, c)
    if is_k(t) and isinstance(kval(t), (bytes, str)):
        return len(kval(t))
    if I.known(st, t) is False:
        return 0
    best = hi
    for f, b in st.facts.items():
        if f.op == "cmp" and f.args[0] in ("lt", "le"):
            x, y = f.args[1], f.args[2]
            lim = y if b else x
            ln = x if b else y
            if is_len(ln, t):
                h = I.iv(st, lim)[1]
                if h is not None:
                    best = h if best is None else min(best, h)
    return best


def is_len(t, of):
    return t.op == "call" and t.args[0] == Term("ext", "len") and t.args[1][:1] == (of,)


def explore_gen(chk, I, fn, args):
    """Drive a generator function to its end; what it yields is recorded as Ev('yield')."""
    from .check import Path, params_of
    from .interp import Out, State

    vals = [args.get(p) or Term("param", p) for p in params_of(fn)[0]]
    I.sinks, I.stack, I.ctx, I.yield_cb = [[]], [], (), []
    paths = []
    for st, g in I.call_fn(fn, vals, {}, State(), fn.node):
        if not (g.op == "ref" and I.hget(st, g).kind == "gen"):
            chk.require(False, f"{fn.qual} as a generator")

        def body(v, x):
            return [Out("next", x.emit(Ev("yield", None, [v], {}, fn.node, loops(I.ctx))))]

        for o in I.run_gen(g, st, body, None):
            paths.append(Path("return", o.st, NONE))
    paths += [Path("raise", s, e, n) for s, e, n in I.sinks[0]]
    I.sinks = [[]]
    chk.functions.add(fn.qual)
    chk.functions |= I.stats["functions"]
    chk.count("paths", len(paths))
    return paths
