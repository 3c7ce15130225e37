"""Texts with unknown hexadecimal numbers in them: joined, split, cut, matched and read back."""
from __future__ import annotations

import re

from .core import FALSE, K, NONE, TRUE, Term, is_k, kval
from .events import receiver_and_args
from .interp import H
from .plantworld import WorldPolicy

DIGITS = "0179afcd"


class Unknown(Exception):
    pass


def cells(t):
    """The characters of a text; ('hex', v, i, width) is digit i of v written with that many digits."""
    if is_k(t) and isinstance(kval(t), str):
        return list(kval(t))
    if t.op == "fmt" and isinstance(t.args[2], str) and re.fullmatch(r"0\d+x", t.args[2]) and t.args[1] in (-1, None):
        width = int(t.args[2][1:-1])
        return [("hex", t.args[0], i, width) for i in range(width)]
    if t.op == "hexdigit":
        return [t.args]
    if t.op == "fstr":
        return [c for p in t.args for c in cells(p)]
    raise Unknown(str(t)[:80])


def text(cs):
    """The text of these characters."""
    parts, i = [], 0
    while i < len(cs):
        c = cs[i]
        if isinstance(c, str):
            if parts and is_k(parts[-1]):
                parts[-1] = K(kval(parts[-1]) + c)
            else:
                parts.append(K(c))
            i += 1
            continue
        _, v, at, width = c
        if at == 0 and cs[i : i + width] == [("hex", v, k, width) for k in range(width)]:
            parts.append(Term("fmt", v, -1, f"0{width}x"))
            i += width
            continue
        parts.append(Term("hexdigit", *c))
        i += 1
    if not parts:
        return K("")
    return parts[0] if len(parts) == 1 and is_k(parts[0]) else Term("fstr", *parts)


def sample(cs, digit):
    return "".join(c if isinstance(c, str) else digit for c in cs)


def alike(cs, f):
    """f of the text with its unknown digits filled in; it may not depend on which digits they are."""
    seen = {repr(f(sample(cs, d))) for d in DIGITS}
    if len(seen) != 1:
        raise Unknown("depends on a digit")
    return f(sample(cs, "0"))


def is_text(t):
    return t.op == "fstr" or is_k(t) and isinstance(kval(t), str)


class TextPolicy(WorldPolicy):
    """A plant world whose texts are followed character by character."""

    unroll_while = 2000

    def may_fit(self, interp, st, v, width):
        lo, hi = interp.iv(st, v)
        return lo is not None and hi is not None and lo >= 0 and hi < 16**width

    def cells(self, interp, st, t):
        out = cells(t)
        for c in out:
            if not isinstance(c, str) and not self.may_fit(interp, st, c[1], c[3]):
                raise Unknown("a number too long for its field")
        return out

    def on_call(self, interp, callee, args, kwargs, st, node):
        name, base, rest = receiver_and_args(callee, args)
        short = name.split(".")[-1] if name else name
        try:
            r = self.text_call(interp, callee, short, base, rest, kwargs, st)
        except Unknown:
            r = None
        return r if r is not None else super().on_call(interp, callee, args, kwargs, st, node)

    def bin_value(self, interp, op, a, b, st):
        for x, m in ((a, b), (b, a)):
            if op == "&" and is_k(m) and type(kval(m)) is int and kval(m) >= 0 and (kval(m) + 1) & kval(m) == 0:
                lo, hi = interp.iv(st, x)
                if lo is not None and hi is not None and lo >= 0 and hi <= kval(m):
                    return x
        return super().bin_value(interp, op, a, b, st)

    def text_call(self, interp, callee, short, base, rest, kwargs, st):
        if base is not None and base.op == "match":
            return self.match_call(interp, base, short, rest, st)
        if base is not None and base.op == "call" and base.args[0] == Term("ext", "re.compile") and short in ("match", "fullmatch", "search") and len(rest) == 1 and is_text(rest[0]):
            flags = [kval(a) for a in base.args[1][1:] if is_k(a)]
            return self.match(interp, base.args[1][0], flags, short, rest[0], st)
        if callee.op == "ext" and callee.args[0] in ("re.match", "re.fullmatch", "re.search") and len(rest) == 2 and is_text(rest[1]):
            return self.match(interp, rest[0], [], short, rest[1], st)
        if callee.op == "ext" and callee.args[0] == "len" and len(rest) == 1 and rest[0].op == "fstr":
            return [(st, K(len(self.cells(interp, st, rest[0]))))]
        if callee.op == "ext" and callee.args[0] == "int" and rest and rest[0].op == "fstr" and not kwargs:
            cs = self.cells(interp, st, rest[0])
            b = kval(rest[1]) if len(rest) == 2 and is_k(rest[1]) else None
            if b == 16 and cs and all(not isinstance(c, str) for c in cs) and cs == [("hex", cs[0][1], k, cs[0][3]) for k in range(cs[0][3])]:
                return [(st, cs[0][1])]
            # digits of several numbers, or part of one: some other number
            t = Term("call", Term("ext", "int"), (text(cs), *rest[1:]), (), None)
            interp.types[t] = ("ext", "int")
            return [(st, t)]
        if base is None or not is_text(base):
            return None
        if short == "join" and len(rest) == 1:
            items = interp.items_of(rest[0], st)
            if items is None or not all(is_text(x) for x in items):
                return None
            sep, out = self.cells(interp, st, base), []
            for i, x in enumerate(items):
                out += (sep if i else []) + self.cells(interp, st, x)
            return [(st, text(out))]
        if base.op != "fstr":
            return None
        cs = self.cells(interp, st, base)
        if short in ("splitlines", "split") and all(is_k(a) for a in rest) and not kwargs:
            def spans(s):
                out, at = [], 0
                for piece in getattr(s, short)(*[kval(a) for a in rest]):
                    at = s.index(piece, at) if piece else at
                    out.append((at, at + len(piece)))
                    at += len(piece)
                return out

            st = st.copy()
            return [(st, interp.alloc(st, H("list", None, tuple(text(cs[a:b]) for a, b in alike(cs, spans)), True)))]
        if short in ("strip", "lstrip", "rstrip") and all(is_k(a) for a in rest):
            def span(s):
                left = len(s) - len(s.lstrip(*[kval(a) for a in rest])) if short != "rstrip" else 0
                right = len(s.rstrip(*[kval(a) for a in rest])) if short != "lstrip" else len(s)
                return left, max(left, right)

            a, b = alike(cs, span)
            return [(st, text(cs[a:b]))]
        if short in ("startswith", "endswith", "isalnum", "isspace") and all(is_k(a) for a in rest):
            return [(st, K(alike(cs, lambda s: getattr(s, short)(*[kval(a) for a in rest]))))]
        if short in ("lower", "casefold") and not rest:
            return [(st, text([c.lower() if isinstance(c, str) else c for c in cs]))]
        if short in ("partition", "rpartition") and len(rest) == 1 and is_k(rest[0]):
            a, b, c = alike(cs, lambda s: tuple(len(x) for x in getattr(s, short)(kval(rest[0]))))
            return [(st, Term("tup", text(cs[:a]), text(cs[a : a + b]), text(cs[a + b :])))]
        if short == "find" and rest and all(is_k(a) for a in rest):
            return [(st, K(alike(cs, lambda s: s.find(*[kval(a) for a in rest]))))]
        return None

    def match(self, interp, pattern, flags, how, subject, st):
        if not is_k(pattern):
            raise Unknown("pattern")
        rx = re.compile(kval(pattern), *flags)
        cs = self.cells(interp, st, subject)

        def spans(s):
            m = getattr(rx, how)(s)
            return None if m is None else (m.span(), [m.span(i + 1) for i in range(rx.groups)], dict(rx.groupindex))

        r = alike(cs, spans)
        if r is None:
            return [(st, NONE)]
        groups = [None if a < 0 else text(cs[a:b]) for a, b in [r[0], *r[1]]]
        t = Term("match", tuple(NONE if g is None else g for g in groups), tuple(sorted(r[2].items())))
        st = st.copy()
        st.facts = {**st.facts, t: True, Term("cmp", "is", t, NONE): False}
        return [(st, t)]

    def match_call(self, interp, m, short, rest, st):
        groups, names = m.args[0], dict(m.args[1])

        def one(k):
            if not is_k(k):
                raise Unknown("group")
            return groups[names[kval(k)] if isinstance(kval(k), str) else kval(k)]

        if short == "group":
            return [(st, one(rest[0]) if len(rest) == 1 else groups[0] if not rest else Term("tup", *[one(k) for k in rest]))]
        if short == "groups" and not rest:
            return [(st, Term("tup", *groups[1:]))]
        if short == "groupdict" and not rest:
            st = st.copy()
            return [(st, interp.alloc(st, H("dict", None, tuple((K(n), groups[i]) for n, i in names.items()), True)))]
        return None

    def on_load_item(self, interp, base, key, st, node):
        if base.op == "match" and is_k(key):
            names = dict(base.args[1])
            return [(st, base.args[0][names[kval(key)] if isinstance(kval(key), str) else kval(key)])]
        if base.op == "fstr" and key.op == "sl" and all(is_k(a) for a in key.args):
            try:
                cs = self.cells(interp, st, base)
            except Unknown:
                return None
            return [(st, text(cs[slice(*[kval(a) for a in key.args])]))]
        return super().on_load_item(interp, base, key, st, node)


class JsonPolicy(TextPolicy):
    """json.dumps() and json.loads() of what the package hands them, as values."""

    def text_call(self, interp, callee, short, base, rest, kwargs, st):
        if callee.op == "ext" and callee.args[0] == "json.dumps" and rest:
            return self.dumps(interp, rest[0], st)
        if callee.op == "ext" and callee.args[0] == "json.loads" and len(rest) == 1 and rest[0].op == "jsontext":
            return self.loads(interp, rest[0].args[0], kwargs, st)
        return super().text_call(interp, callee, short, base, rest, kwargs, st)

    def dumps(self, interp, v, st):
        def enc(x):
            if x.op == "ref":
                o = interp.hget(st, x)
                if o.kind == "dict":
                    for k, _ in o.data:
                        if not (is_k(k) and isinstance(kval(k), (str, int, float, bool, type(None)))):
                            raise TypeError
                    return ("dict", tuple((str(kval(k)), enc(y)) for k, y in o.data))
                if o.kind == "list":
                    return ("list", tuple(enc(y) for y in o.data))
                raise TypeError
            if x.op == "tup":
                return ("list", tuple(enc(y) for y in x.args))
            return x

        try:
            return [(st, Term("jsontext", enc(v)))]
        except TypeError:
            interp.raise_(st.copy(), interp.exc_term("TypeError"), None)
            return []

    def loads(self, interp, v, kwargs, st):
        hook, pairs = kwargs.get("object_hook"), kwargs.get("object_pairs_hook")

        def dec(x, s):
            if isinstance(x, tuple) and x[0] == "list":
                states = [(s, ())]
                for y in x[1]:
                    states = [(s2, got + (v2,)) for s1, got in states for s2, v2 in dec(y, s1)]
                return [(s2, interp.alloc(s2, H("list", None, got, True))) for s2, got in ((a.copy(), b) for a, b in states)]
            if isinstance(x, tuple):
                states = [(s, ())]
                for k, y in x[1]:
                    states = [(s2, got + ((K(k), v2),)) for s1, got in states for s2, v2 in dec(y, s1)]
                out = []
                for s2, got in states:
                    s2 = s2.copy()
                    if pairs is not None:
                        arg = interp.alloc(s2, H("list", None, tuple(Term("tup", a, b) for a, b in got), True))
                        out += interp.call(pairs, [arg], {}, s2, None)
                    else:
                        arg = interp.alloc(s2, H("dict", None, tuple(dict(got).items()), True))
                        out += interp.call(hook, [arg], {}, s2, None) if hook is not None else [(s2, arg)]
                return out
            return [(s, x)]

        return dec(v, st)
