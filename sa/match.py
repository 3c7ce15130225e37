"""Compare what a command path writes with its specification."""
from __future__ import annotations

from .cmds import atoms, pairs_of, subst_eval, values_of
from .core import K, NONE, Term, is_k, kval, show, subterms

INT = Term("ext", "int")
ROUND = Term("ext", "round")
BOOL = Term("ext", "bool")


def path_of(t):
    """Dotted name of a parameter or a field of one."""
    if t.op == "param":
        return t.args[0]
    if t.op == "attr":
        b = path_of(t.args[0])
        return f"{b}.{t.args[1]}" if b else None
    return None


def eq(a, b):
    return Term("cmp", "eq", a, b)


def integral(I, st, x):
    if I.num_kind(st, x) == "int":
        return True
    c = Term("call", INT, (x,), (), None)
    if I.known(st, eq(c, x)) is True or I.known(st, eq(x, c)) is True:
        return True
    return False


class Lin:
    """coefficient per field + constant, with what was lost on the way."""

    def __init__(self, co, k, flags=()):
        self.co, self.k, self.flags = {p: c for p, c in co.items() if c != 0}, k, set(flags)

    def __repr__(self):
        return " + ".join([f"{c}*{p}" for p, c in self.co.items()] + [str(self.k)]) + (f" {sorted(self.flags)}" if self.flags else "")


def lin(I, st, t, d=0):
    if d > 20:
        return None
    if t.op == "k" and isinstance(kval(t), (int, float)) and not isinstance(kval(t), bool):
        return Lin({}, kval(t))
    if t.op == "enum":
        v = I.enum_value(t)
        return lin(I, st, v, d + 1) if v is not None and v.op == "k" else None
    p = path_of(t)
    if p:
        return Lin({p: 1}, 0)
    if t.op == "bin":
        o, a, b = t.args
        if o in ("+", "-", "*"):
            x, y = lin(I, st, a, d + 1), lin(I, st, b, d + 1)
            if x is None or y is None:
                return None
            f = x.flags | y.flags
            if o == "*":
                if x.co and y.co:
                    return None
                if not x.co:
                    x, y = y, x
                return Lin({q: c * y.k for q, c in x.co.items()}, x.k * y.k, f)
            s = 1 if o == "+" else -1
            co = dict(x.co)
            for q, c in y.co.items():
                co[q] = co.get(q, 0) + s * c
            return Lin(co, x.k + s * y.k, f)
        return None
    if t.op == "call" and t.args[0] == INT and len(t.args[1]) == 1:
        x = t.args[1][0]
        h = hhmm(I, st, x)
        if h is not None:
            return h
        r = lin(I, st, x, d + 1)
        if r is None:
            return None
        if not integral(I, st, x):
            r = Lin(r.co, r.k, r.flags | {"truncated"})
        return r
    if t.op == "call" and t.args[0] == ROUND and t.args[1]:
        r = lin(I, st, t.args[1][0], d + 1)
        if r is None:
            return None
        nd = t.args[1][1] if len(t.args[1]) > 1 else None
        if nd is not None and nd.op == "k" and isinstance(kval(nd), int) and kval(nd) >= 3:
            return r  # strips binary representation residue only
        return Lin(r.co, r.k, r.flags | {"rounded"})
    if t.op == "call" and t.args[0].op == "cls" and t.args[0].args[0].is_enum and len(t.args[1]) == 1:
        ci = t.args[0].args[0]
        r = lin(I, st, t.args[1][0], d + 1)
        if r is not None and any("_missing_" in c.attrs for c in ci.repo_mro()):
            r = Lin(r.co, r.k, r.flags | {f"defaulted by {ci.name}"})
        return r
    return None


def hhmm(I, st, x):
    if x.op == "call" and x.args[0].op in ("attr", "meth") and x.args[0].args[1] == "strftime" and len(x.args[1]) == 1 and x.args[1][0].op == "k":
        p = path_of(x.args[0].args[0])
        f = kval(x.args[1][0])
        if p and f == "%H%M":
            return Lin({p + ".hour": 100, p + ".minute": 1}, 0)
        if p:
            return Lin({p + f".strftime({f!r})": 1}, 0)
    return None


def param_terms(st, t, path):
    """Every term for the field named by `path` met in `t` or in the path's facts."""
    out = set()
    for f in list(st.facts) + [t]:
        for s in subterms(f):
            if path_of(s) == path:
                out.add(s)
    return out


def truth(I, st, path, extra=None):
    """Is the field known true/false on this path?  None when undecided."""
    roots = param_terms(st, extra if extra is not None else NONE, path)
    if not roots:
        r = Term("param", path.split(".")[0])
        for a in path.split(".")[1:]:
            r = Term("attr", r, a, 0)
        roots = {r}
    for r in roots:
        k = I.known(st, r)
        if k is None and I.known(st, Term("cmp", "is", r, NONE)) is True:
            k = False
        if k is not None:
            return k
    return None


def absent(I, st, path):
    """Known to be missing: the field or something it is read from is None/false."""
    parts = path.split(".")
    for n in range(1, len(parts) + 1):
        if truth(I, st, ".".join(parts[:n])) is False:
            return True
    return False


def present(I, st, path):
    parts = path.split(".")
    r = truth(I, st, path)
    if r is True:
        return True
    roots = param_terms(st, NONE, path)
    return any(I.known(st, Term("cmp", "is", x, NONE)) is False for x in roots)


def int_of(I, st, t, path):
    """Terms that denote the argument's integer value on this path."""
    out = []
    for p in param_terms(st, t, path):
        out.append(Term("call", INT, (p,), (), None))
        out.append(p)
    return out


def point(I, st, terms):
    for t in terms:
        lo, hi = I.iv(st, t)
        if lo is not None and lo == hi:
            return lo
    return None


def match_value(I, st, t, spec):
    """(problem or None, information for the coverage of the accepted range)."""
    kind = spec[0]
    if kind == "const":
        if is_k(t) or t.op == "enum":
            v = values_of(I, st, t)
            if v == [spec[1]]:
                return None, None
        return f"writes {show(t)} instead of {spec[1]}", None
    if kind == "bool":
        on, off = (spec[2], spec[3]) if len(spec) > 2 else (1, 0)
        if is_k(t) and kval(t) in (on, off) and not isinstance(kval(t), bool):
            tr = truth(I, st, spec[1], t)
            if tr is None:
                return f"writes {kval(t)} whatever {spec[1]} is", None
            if (kval(t) == on) != tr:
                return f"writes {kval(t)} when {spec[1]} is {tr}", None
            return None, kval(t)
        # int(bool(x)), int(not x), …
        if t.op == "call" and t.args[0] == INT and len(t.args[1]) == 1:
            b, pol = I.norm(t.args[1][0])
            bi = b.args[1][0] if b.op == "call" and b.args[0] == BOOL else b
            boolish = t.args[1][0].op in ("not", "cmp") or (t.args[1][0].op == "call" and t.args[1][0].args[0] == BOOL)
            if path_of(bi) == spec[1] and boolish and ((on, off) == ((1, 0) if pol else (0, 1))):
                return None, "both"
        return f"writes {show(t)} instead of {on}/{off} for {spec[1]} true/false", None
    if kind == "hhmm":
        p = spec[1]
        L = lin(I, st, t)
        if L is None:
            return f"writes {show(t)} instead of the HHMM encoding of {p}", None
        if not L.co and L.k == 0:
            if absent(I, st, p):
                return None, 0
            return f"writes 0 although {p} may be given", None
        if L.co == {p + ".hour": 100, p + ".minute": 1} and L.k == 0:
            return None, 1
        return f"writes {L} instead of the HHMM encoding of {p}", None
    if kind == "attr":
        p, off, lo, hi = spec[1:]
        L = lin(I, st, t)
        if L is None or L.co != {p: 1} or L.k != off or L.flags:
            return f"writes {L if L is not None else show(t)} instead of {p}{off:+d}", None
        vlo, vhi = I.iv(st, t)
        if vlo is None or vlo < lo or vhi is None or vhi > hi:
            return f"{p}{off:+d} can be [{vlo}, {vhi}], outside [{lo}, {hi}]", None
        return None, (vlo, vhi)
    if kind == "lin":
        p, scale, lo, hi = spec[1:5]
        ok_flags = set(spec[5:])
        vlo, vhi = I.iv(st, t)
        L = lin(I, st, t)
        if L is not None and not L.co:
            v = point(I, st, int_of(I, st, t, p))
            if v is not None and v * scale == L.k:
                return bool_gap(I, st, t, p), (vlo, vhi)
            return f"writes the constant {L.k} instead of {p}", None
        if L is None or L.co != {p: scale} or L.k != 0:
            return f"writes {L if L is not None else show(t)} instead of {p}{f' × {scale}' if scale != 1 else ''}", None
        if L.flags - ok_flags:
            return f"{p} is silently {' and '.join(sorted(L.flags - ok_flags))} before it is written", None
        if lo is not None and (vlo is None or vlo < lo):
            return f"the value written can be below {lo} (lower bound found: {vlo})", None
        if hi is not None and (vhi is None or vhi > hi):
            return f"the value written can be above {hi} (upper bound found: {vhi})", None
        return bool_gap(I, st, t, p), (vlo, vhi)
    if kind == "enum":
        p, allowed = spec[1:]
        vs = values_of(I, st, t)
        if vs is None:
            return f"writes {show(t)}, not limited to {sorted(allowed)}", None
        if not set(vs) <= allowed:
            return f"can write {sorted(set(vs) - allowed)}, not one of {sorted(allowed)}", None
        L = lin(I, st, t)
        if L is not None and L.co:
            if L.co != {p: 1} or L.k != 0:
                return f"writes {L} instead of {p}", None
            if L.flags:
                return f"{p} is silently {' and '.join(sorted(L.flags))}", None
        elif L is not None:
            v = point(I, st, int_of(I, st, t, p))
            if v is not None and v != L.k:
                return f"writes {L.k} when {p} is {v}", None
        return None, tuple(vs)
    if kind == "when":
        p, v, a, b = spec[1:]
        roots = int_of(I, st, t, p)
        for r in roots:
            pr = pairs_of(I, st, r, t) if not is_k(t) else None
            if pr is not None:
                bad = [(x, y) for x, y in pr if y != (a if x == v else b)]
                return (f"writes {bad[0][1]} when {p} is {bad[0][0]}" if bad else None), None
        if is_k(t):
            for r in roots:
                k = I.known(st, eq(r, K(v)))
                if k is not None:
                    want = a if k else b
                    return (None if kval(t) == want else f"writes {kval(t)} instead of {want} when {p} {'is' if k else 'is not'} {v}"), None
            return f"writes {kval(t)} whatever {p} is", None
        if t.op == "call" and t.args[0] == INT and len(t.args[1]) == 1 and {a, b} == {0, 1}:
            c, pol = I.norm(t.args[1][0])
            if c.op == "cmp" and c.args[0] == "eq" and c.args[1] in roots and c.args[2] == K(v):
                if (1 if pol else 0) == a:
                    return None, None
        return f"writes {show(t)} instead of {a} when {p} is {v} and {b} otherwise", None
    raise AssertionError(kind)


def bool_gap(I, st, t, p):
    """A boolean or a non-number must not be taken for a number."""
    for r in param_terms(st, t, p):
        if I.known(st, Term("isinstance", r, BOOL)) is False:
            break
        if I.num_kind(st, r) == "int":
            break
    else:
        return f"{p} may be a bool (True would be written as a number)"
    return None


def match_reg(I, st, regterm, spec, where="idx"):
    """(problem or None, index values covered)."""
    if isinstance(spec, int):
        vs = values_of(I, st, regterm)
        if vs == [spec]:
            return None, None
        return f"writes register {vs if vs else show(regterm)} instead of {spec}", None
    table = spec[1]
    for r in int_of(I, st, regterm, where):
        pr = pairs_of(I, st, r, regterm) if not is_k(regterm) else None
        if pr is None and is_k(regterm):
            fs = I.finite(st, r)
            pr = [(kval(f), kval(regterm)) for f in fs] if fs is not None else None
        if pr is not None:
            bad = [(x, y) for x, y in pr if table.get(x) != y]
            if bad:
                x, y = bad[0]
                return f"index {x} writes register {y} instead of {table.get(x, 'being rejected')}", None
            g = bool_gap(I, st, regterm, where)
            return g, {x for x, _ in pr}
    return f"the register {show(regterm)} is not tied to the slot index", None
