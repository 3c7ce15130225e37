"""Models of the Python builtins and container methods the package uses."""
from __future__ import annotations

import struct

from .core import FALSE, NONE, TRUE, K, Term, is_k, kval
from .interp import H, tup

PURE = {
    "len", "int", "float", "str", "repr", "abs", "round", "bool", "min", "max", "sum", "bytes", "ord", "chr", "hex",
    "hash", "id", "format", "callable", "divmod", "pow", "bytearray", "bin", "oct",
}  # fmt: skip



def _whole(I, st, t):
    """t is known to be a plain integer."""
    return t.op in ("u16", "urange") or I.types.get(t) == ("ext", "int") or I._known(st, Term("isinstance", t, Term("ext", "int"))) is True


def int_of(I, args, st):
    """int(n) of an integer, and int(text) of a text which formats an integer in that base."""
    x = args[0]
    known = st.facts.get(Term("isinstance", x, Term("ext", "int"))) is True and st.facts.get(Term("isinstance", x, Term("ext", "bool"))) is False
    if len(args) == 1 and (known or I.num_kind(st, x) == "int" or x.op not in ("param", "attr") and _whole(I, st, x)):
        return x
    base = kval(args[1]) if len(args) == 2 and is_k(args[1]) else 10 if len(args) == 1 else None
    if x.op != "fstr" or base not in (0, 10, 16):
        return None
    parts = list(x.args)
    prefix = ""
    while len(parts) > 1 and is_k(parts[0]):
        prefix += str(kval(parts.pop(0)))
    if len(parts) != 1 or parts[0].op != "fmt":
        return None
    v, conv, spec = parts[0].args
    if conv not in (-1, None) and not (isinstance(conv, Term) and is_k(conv) and kval(conv) in (-1, None)):
        return None
    spec = kval(spec) if isinstance(spec, Term) and is_k(spec) else "" if spec is None else spec
    if not isinstance(spec, str) or not _whole(I, st, v):
        return None
    lo, _ = I.iv(st, v)
    if lo is None or lo < 0:
        return None
    alt = spec.startswith("#")
    body = spec.lstrip("#").lstrip("0123456789")
    padded = spec.lstrip("#")[:-1] if body else spec.lstrip("#")
    if padded and not padded.startswith("0"):
        return None                       # space padding: strip() would be needed, leave it
    hexa = body in ("x", "X")
    if hexa and not alt and prefix.lower() == "0x" and base in (0, 16):
        return v
    if hexa and alt and prefix == "" and base in (0, 16):
        return v
    if hexa and not alt and prefix == "" and base == 16:
        return v
    if body in ("", "d") and not alt and prefix == "" and (base == 10 or base == 0 and not padded):
        return v
    return None


def text_of(I, n, args, st):
    """hex(n) and format(n, spec) of an integer as the f-string they equal."""
    if n == "hex" and len(args) == 1 and _whole(I, st, args[0]):
        lo, _ = I.iv(st, args[0])
        if lo is not None and lo >= 0:
            return Term("fstr", K("0x"), Term("fmt", args[0], -1, "x"))
    if n == "format" and len(args) == 2 and is_k(args[1]) and _whole(I, st, args[0]):
        return Term("fstr", Term("fmt", args[0], -1, kval(args[1])))
    return None


def func(I, name, args, kwargs, st, node):
    n = name.split(".")[-1] if name.startswith("builtins.") else name
    if n in ("int.from_bytes", "struct.pack", "struct.unpack", "struct.calcsize") and args and all(is_k(a) for a in args) and all(is_k(v) for v in kwargs.values()):
        try:
            v = {"int.from_bytes": int.from_bytes, "struct.pack": struct.pack, "struct.unpack": struct.unpack, "struct.calcsize": struct.calcsize}[n](
                *map(kval, args), **{k: kval(v) for k, v in kwargs.items()}
            )
            return [(st, tup(*map(K, v)) if isinstance(v, tuple) else K(v))]
        except Exception:
            pass
    if n == "divmod" and len(args) == 2:
        out = []
        for s1, q in I.binop("FloorDiv", args[0], args[1], st, node):
            for s2, r in I.binop("Mod", args[0], args[1], s1, node):
                out.append((s2, tup(q, r)))
        return out
    if n == "isinstance" and len(args) == 2:
        c = args[1]
        if c.op == "tup":
            c = Term("or", *c.args)
        t = Term("isinstance", args[0], c)
        k = I.known(st, t)
        return [(st, K(k) if k is not None else t)]
    if n == "issubclass" and len(args) == 2:
        a, c = args
        if a.op in ("cls", "ext") and c.op in ("cls", "ext"):
            return [(st, K(bool(I.sub(a, c))))]
        if a.op not in ("cls",):
            return [(st, Term("call", Term("ext", "issubclass"), tuple(args), (), None))]
    if n == "len" and len(args) == 1:
        items = I.items_of(args[0], st)
        if items is not None:
            return [(st, K(len(items)))]
        if is_k(args[0]) and isinstance(kval(args[0]), (str, bytes)):
            return [(st, K(len(kval(args[0]))))]
        if args[0].op == "cls" and args[0].args[0].is_enum:
            return [(st, K(len(args[0].args[0].enum_members)))]
        return [(st, Term("call", Term("ext", "len"), (args[0],), (), None))]
    if n == "range":
        a = list(args)
        if len(a) == 1:
            a = [K(0)] + a
        if len(a) == 2:
            a.append(K(1))
        return [(st, Term("range", *a))]
    if n in ("list", "tuple", "sorted", "reversed", "iter", "aiter"):
        if not args:
            st = st.copy()
            return [(st, tup() if n == "tuple" else I.alloc(st, H("list", None, ())))]
        v = args[0]
        if n in ("iter", "aiter"):
            return [(st, v)]
        if v.op == "ref" and I.hget(st, v).kind == "gen":
            return drain(I, v, st, node)
        if v.op == "ref" and I.hget(st, v).kind in ("list", "set", "dict"):
            o = I.hget(st, v)
            data = tuple(k for k, _ in o.data) if o.kind == "dict" else o.data
            if n == "sorted":
                data = sort_items(I, st, data, kwargs)
            elif n == "reversed":
                data = tuple(reversed(data))
            st = st.copy()
            if n == "tuple" and o.exact:
                return [(st, tup(*data))]
            return [(st, I.alloc(st, H("list", None, data, o.exact)))]
        if v.op in ("view", "zip", "enumerate"):
            kind, items = I.iter_kind(v, st)
            if kind == "exact":
                data = tuple(items)
                if n == "sorted":
                    data = sort_items(I, st, data, kwargs)
                st = st.copy()
                return [(st, tup(*data) if n == "tuple" else I.alloc(st, H("list", None, data)))]
            return [(st, Term("chain", v) if v.op != "chain" else v)]
        items = I.items_of(v, st)
        if items is not None and len(items) <= 5000:
            data = tuple(items)
            if n == "sorted":
                data = sort_items(I, st, data, kwargs)
            elif n == "reversed":
                data = tuple(reversed(data))
            st = st.copy()
            return [(st, tup(*data) if n == "tuple" else I.alloc(st, H("list", None, data)))]
        t = Term("chain", v)
        ty = I.typeof(st, v)
        if ty is not None:
            I.types.setdefault(t, ty)
        return [(st, t)]
    if n in ("set", "frozenset"):
        extra = "frozen" if n == "frozenset" else None
        if not args:
            st = st.copy()
            return [(st, I.alloc(st, H("set", None, (), True, extra)))]
        kind, items = I.iter_kind(args[0], st)
        if kind in ("exact", "some"):
            st = st.copy()
            return [(st, I.alloc(st, H("set", None, I.dedupe(st, items), kind == "exact", extra)))]
        if kind == "opaque":
            t = Term("chain", args[0])
            ty = I.typeof(st, args[0])
            if ty is not None:
                I.types.setdefault(t, ty)
            return [(st, t)]
    if n == "dict":
        st = st.copy()
        if not args:
            return [(st, I.alloc(st, H("dict", None, tuple((K(k), v) for k, v in kwargs.items() if k != "**"), "**" not in kwargs)))]
        a = args[0]
        if a.op == "ref" and I.hget(st, a).kind == "dict":
            o = I.hget(st, a)
            acc = H("dict", None, o.data, o.exact)
            for k, v in kwargs.items():
                acc = I.dict_set(st, acc, K(k), v)
            return [(st, I.alloc(st, acc))]
        kind, items = I.iter_kind(a, st)
        if kind == "exact" and all(I.items_of(x, st) is not None and len(I.items_of(x, st)) == 2 for x in items):
            acc = H("dict", None, (), True)
            for x in items:
                k, v = I.items_of(x, st)
                acc = I.dict_set(st, acc, k, v)
            return [(st, I.alloc(st, acc))]
        return [(st, I.alloc(st, H("dict", None, ((Term("spread", a), a),), False)))]
    if n == "zip":
        return [(st, Term("zip", *args))]
    if n == "enumerate":
        start = args[1] if len(args) > 1 else kwargs.get("start", K(0))
        return [(st, Term("enumerate", args[0], start))]
    if n in ("map", "filter") and len(args) == 2:
        kind, items = I.iter_kind(args[1], st)
        if kind == "exact":
            cur = [(st, ())]
            for it in items:
                nx = []
                for x, acc in cur:
                    for y, v in I.call(args[0], [it], {}, x, node) if args[0] != NONE else [(x, it)]:
                        if n == "map":
                            nx.append((y, acc + (v,)))
                        else:
                            nx += [(z, acc + (it,)) for z in I.assume(y, v, True)]
                            nx += [(z, acc) for z in I.assume(y, v, False)]
                cur = nx
            out = []
            for x, acc in cur:
                x = x.copy()
                out.append((x, I.alloc(x, H("list", None, acc))))
            return out
        # abstract: one element
        el = items if kind == "opaque" else (items[0] if items else Term("elem", args[1]))
        out = []
        for y, v in I.call(args[0], [el], {}, st, node):
            y = y.copy()
            out.append((y, I.alloc(y, H("list", None, (v if n == "map" else el,), False))))
        return out
    if n in ("any", "all") and len(args) == 1:
        kind, items = I.iter_kind(args[0], st)
        if kind == "exact":
            out, cur = [], [st]
            want = n == "any"
            for it in items:
                nx = []
                for x in cur:
                    out += [(y, K(want)) for y in I.assume(x, it, want)]
                    nx += I.assume(x, it, not want)
                cur = nx
            return out + [(x, K(not want)) for x in cur]
        return [(st, Term("call", Term("ext", n), tuple(args), (), None))]
    if n == "getattr" and len(args) >= 2 and args[1].op == "fstr" and not st.glob:
        outs = [(st, ())]
        for part in args[1].args:
            nx = []
            for x, acc in outs:
                if acc is None:
                    nx.append((x, None))
                elif part.op == "k":
                    nx.append((x, acc + (kval(part),)))
                else:
                    ks = I.finite(x, part.args[0]) if part.op == "fmt" and part.args[2] is not None else None
                    if ks is None:
                        nx.append((x, None))
                        continue
                    for kk in ks:
                        for y in I.assume(x, Term("cmp", "eq", part.args[0], kk), True, node):
                            nx.append((y, acc + (format(kval(kk), part.args[2]),)))
            outs = nx
        if all(acc is not None for _, acc in outs):
            res = []
            for x, acc in outs:
                res += func(I, name, [args[0], K("".join(acc))] + list(args[2:]), kwargs, x, node)
            return res
    if n == "getattr" and len(args) >= 2:
        if is_k(args[1]) and isinstance(kval(args[1]), str):
            if len(args) == 3:
                a = kval(args[1])
                base = args[0]
                ty = I.typeof(st, base)
                has = has_attr(I, st, base, a)
                if has is False:
                    return [(st, args[2])]
                if has is None:
                    t = Term("hasattr", base, K(a))
                    out = []
                    for x in I.assume(st, t, True):
                        out += I.load_attr(base, a, x, node)
                    for x in I.assume(st, t, False):
                        out.append((x, args[2]))
                    return out
            return I.load_attr(args[0], kval(args[1]), st, node)
        for exc in I.policy.may_raise(I, Term("ext", "getattr"), args, kwargs, st, node):
            I.raise_(st.copy(), I.exc_term(exc), node)
        return [(st, Term("getattr", *args))]
    if n == "hasattr" and len(args) == 2 and is_k(args[1]):
        has = has_attr(I, st, args[0], kval(args[1]))
        if has is not None:
            return [(st, K(has))]
        return [(st, Term("hasattr", args[0], args[1]))]
    if n == "setattr" and len(args) == 3 and is_k(args[1]):
        return [(x, NONE) for x in I.store_attr(args[0], kval(args[1]), args[2], st, node)]
    if n == "setattr":
        st = I.policy.on_store_attr(I, args[0], "*", args[2], st, node)
        return [(st, NONE)]
    if n == "type" and len(args) == 1:
        ty = I.typeof(st, args[0])
        v = args[0]
        if v.op == "ref" and ty is not None:
            return [(st, Term(ty[0], ty[1]))]
        if v.op == "exc" and v.args[1]:
            return [(st, v.args[0])]
        if v.op == "k":
            return [(st, Term("ext", v.args[0]))]
        return [(st, Term("call", Term("ext", "type"), (v,), (), None))]
    if n == "bool" and len(args) == 1:
        k = I.known(st, args[0])
        if k is not None:
            return [(st, K(k))]
        return [(st, Term("call", Term("ext", "bool"), (args[0],), (), None))]
    if n in ("min", "max") and args:
        vals = args
        if len(args) == 1:
            items = I.items_of(args[0], st)
            vals = items if items else args
        if all(is_k(v) for v in vals) and not kwargs and len(vals) >= 1:
            try:
                f = min if n == "min" else max
                return [(st, K(f([kval(v) for v in vals]) if len(vals) > 1 or len(args) == 1 and vals is not args else kval(vals[0])))]
            except Exception:
                pass
        for exc in I.policy.may_raise(I, Term("ext", n), args, kwargs, st, node):
            I.raise_(st.copy(), I.exc_term(exc), node)
        return [(st, Term("call", Term("ext", n), tuple(vals), tuple(sorted(kwargs.items())), None))]
    if n == "sum" and args:
        items = I.items_of(args[0], st)
        if items is not None and all(is_k(x) for x in items):
            try:
                return [(st, K(sum(kval(x) for x in items)))]
            except Exception:
                pass
        return [(st, Term("call", Term("ext", "sum"), tuple(args), (), None))]
    if n in ("int", "float", "str", "abs", "round", "bytes", "ord", "chr", "hex", "repr", "bin", "format"):
        if all(is_k(a) for a in args) and not kwargs:
            try:
                fn = {"int": int, "float": float, "str": str, "abs": abs, "round": round, "bytes": bytes, "ord": ord, "chr": chr, "hex": hex, "repr": repr, "bin": bin, "format": format}[n]
                v = fn(*[kval(a) for a in args])
                if not (isinstance(v, (bytes, str)) and len(v) > 4096):
                    return [(st, K(v))]
            except (ValueError, TypeError, OverflowError) as e:
                I.raise_(st.copy(), I.exc_term(type(e).__name__ if type(e) in (ValueError, TypeError, OverflowError) else "ValueError", note=I.where(node)), node)
                return []
            except Exception:
                pass
        if n in ("int", "float") and len(args) == 1 and args[0].op == "ref" and I.hget(st, args[0]).kind in ("list", "dict", "set"):
            I.raise_(st.copy(), I.exc_term("TypeError", note=I.where(node)), node)
            return []
        if n == "int" and not kwargs:
            v = int_of(I, args, st)
            if v is not None:
                return [(st, v)]
        if n in ("hex", "format") and not kwargs:
            v = text_of(I, n, args, st)
            if v is not None:
                return [(st, v)]
        if n == "str" and len(args) == 1 and args[0].op == "enum":
            return [(st, Term("call", Term("ext", "str"), tuple(args), (), None))]
        for exc in I.policy.may_raise(I, Term("ext", n), args, kwargs, st, node):
            I.raise_(st.copy(), exc if isinstance(exc, Term) else I.exc_term(exc, note=I.where(node)), node)
        t = Term("call", Term("ext", n), tuple(args), tuple(sorted(kwargs.items())), None)
        if n in ("int", "float", "str", "bytes"):
            I.types.setdefault(t, ("ext", n))
        return [(st, t)]
    if n in PURE:
        for exc in I.policy.may_raise(I, Term("ext", n), args, kwargs, st, node):
            I.raise_(st.copy(), exc if isinstance(exc, Term) else I.exc_term(exc, note=I.where(node)), node)
        return [(st, Term("call", Term("ext", n), tuple(args), tuple(sorted(kwargs.items())), None))]
    if n == "object":
        st = st.copy()
        return [(st, I.alloc(st, H("inst", None, {})))]
    if n in ("types.MappingProxyType", "copy.copy", "copy.deepcopy", "dataclasses.field", "pydantic.Field"):
        if n == "types.MappingProxyType":
            return [(st, args[0])]
        if n.startswith("copy.") and args and args[0].op == "ref":
            o = I.hget(st, args[0])
            if o.kind in ("list", "dict", "set"):
                st = st.copy()
                return [(st, I.alloc(st, H(o.kind, None, o.data, o.exact)))]
            if o.kind == "inst" and o.cls is not None and (n == "copy.copy" or o.exact):
                st = st.copy()
                return [(st, I.alloc(st, H("inst", o.cls, dict(o.data), o.exact)))]
        return None
    if n in ("itertools.chain", "itertools.chain.from_iterable"):
        srcs = args
        if n.endswith("from_iterable"):
            k, srcs = I.iter_kind(args[0], st)
            if k != "exact":
                return None
        data, exact = [], True
        for a in srcs:
            k, items = I.iter_kind(a, st)
            if k in ("exact", "some"):
                data += items
                exact = exact and k == "exact"
            else:
                data.append(items)
                exact = False
        st = st.copy()
        return [(st, I.alloc(st, H("list", None, tuple(data), exact)))]
    if n in ("functools.partial",) and args:
        st = st.copy()
        return [(st, I.alloc(st, H("partial", None, {"fn": args[0], "args": tup(*args[1:]).args, "kw": dict(kwargs)})))]
    if n in ("collections.defaultdict",):
        st = st.copy()
        return [(st, I.alloc(st, H("dict", None, (), True, "defaultdict")))]
    if n in ("collections.deque",):
        st = st.copy()
        if args:
            k, items = I.iter_kind(args[0], st)
            if k in ("exact", "some"):
                return [(st, I.alloc(st, H("list", None, tuple(items), k == "exact")))]
        return [(st, I.alloc(st, H("list", None, ())))]
    if n in ("typing.cast",) and len(args) == 2:
        return [(st, args[1])]
    if n == "int.from_bytes" or n == "bytes.fromhex" or n.endswith("bytes.fromhex"):
        if n.endswith("fromhex") and is_k(args[0]):
            try:
                return [(st, K(bytes.fromhex(kval(args[0]))))]
            except Exception:
                return None
        for exc in I.policy.may_raise(I, Term("ext", n), args, kwargs, st, node):
            I.raise_(st.copy(), I.exc_term(exc), node)
        return [(st, Term("call", Term("ext", n), tuple(args), tuple(sorted(kwargs.items())), None))]
    if n == "next" and args and args[0].op == "ref":
        o = I.hget(st, args[0])
        if o.kind == "list" and o.exact and o.data:
            return [(st, o.data[0])]
    if n == "re.compile":
        return [(st, Term("call", Term("ext", n), tuple(args), tuple(sorted(kwargs.items())), None))]
    if n == "dict.fromkeys" and args:
        k, items = I.iter_kind(args[0], st)
        if k == "exact":
            v = args[1] if len(args) > 1 else NONE
            st = st.copy()
            return [(st, I.alloc(st, H("dict", None, tuple((i, v) for i in I.dedupe(st, items)))))]
    return None


def sort_items(I, st, data, kwargs):
    if not kwargs and all(is_k(x) for x in data):
        try:
            return tuple(K(v) for v in sorted(kval(x) for x in data))
        except Exception:
            return data
    return data


def drain(I, gen, st, node):
    """list(generator): collect the yields of an inlined generator."""
    from .interp import Out

    x = st.copy()
    ref = I.alloc(x, H("list", None, ()))

    def body(val, y):
        y = y.copy()
        o = I.hget(y, ref)
        I.hset(y, ref, o.but(data=o.data + (val,)))
        return [Out("next", y)]

    return [(o.st, ref) for o in I.run_gen(gen, x, body)]


def has_attr(I, st, base, name):
    if base.op == "ref":
        o = I.hget(st, base)
        if o.kind == "inst" and o.cls is not None:
            if name in o.data:
                return True
            if o.cls.lookup(name)[1] is not None or any(name in c.props for c in o.cls.repo_mro()):
                return True
            return None if o.cls.ext_bases() or not o.exact else None
        return None
    ov = st.h.get(base)
    if ov is not None and name in ov.data:
        return True
    ty = I.typeof(st, base)
    if ty and ty[0] == "cls":
        if ty[1].lookup(name)[1] is not None or any(name in c.props for c in ty[1].repo_mro()):
            return True
        if st.facts.get(Term("hasattr", base, K(name))) is not None:
            return st.facts[Term("hasattr", base, K(name))]
        return None
    if base.op == "cls":
        return base.args[0].lookup(name)[1] is not None or None
    return None


STR_METHODS = {
    "upper", "lower", "strip", "lstrip", "rstrip", "replace", "startswith", "endswith", "split", "join", "format",
    "encode", "decode", "hex", "zfill", "ljust", "rjust", "title", "isalnum", "isdigit", "find", "index", "count",
    "removeprefix", "removesuffix", "partition", "rpartition", "capitalize", "bit_length", "to_bytes",
    "rsplit", "splitlines", "casefold", "isalpha", "isspace", "isupper", "islower", "isdecimal", "isnumeric", "isascii", "rfind", "rindex", "is_integer",
}  # fmt: skip


def method(I, base, name, args, kwargs, st, node):
    # ---- constants
    if base.op == "k":
        v = kval(base)
        if name == "to_bytes" and all(is_k(a) for a in args) and all(is_k(a) for a in kwargs.values()):
            try:
                return [(st, K(v.to_bytes(*map(kval, args), **{k: kval(x) for k, x in kwargs.items()})))]
            except Exception:
                pass
        if name in STR_METHODS and all(is_k(x) for x in kwargs.values()) and (not kwargs or name != "format"):
            real = []
            ok = True
            for a in args:
                if is_k(a):
                    real.append(kval(a))
                else:
                    items = I.items_of(a, st)
                    if items is not None and all(is_k(x) for x in items):
                        real.append((tuple if a.op == "tup" else list)(kval(x) for x in items))
                    else:
                        ok = False
            if ok:
                try:
                    r = getattr(v, name)(*real, **{k: kval(x) for k, x in kwargs.items()})
                    if isinstance(r, (str, bytes, int, bool, float)) or r is None:
                        return [(st, K(r))]
                    if isinstance(r, (list, tuple)):
                        st = st.copy()
                        ks = [K(x) for x in r]
                        return [(st, tup(*ks) if isinstance(r, tuple) else I.alloc(st, H("list", None, tuple(ks), True)))]
                except Exception:
                    pass
        if name == "join" and len(args) == 1:
            return [(st, Term("call", Term("attr", base, "join", 0), tuple(args), (), None))]
        if name == "format":
            return [(st, Term("fstr", base, *args))]
        for exc in I.policy.may_raise(I, Term("meth", base, name), args, kwargs, st, node):
            I.raise_(st.copy(), I.exc_term(exc), node)
        return [(st, Term("call", Term("attr", base, name, 0), tuple(args), tuple(sorted(kwargs.items())), None))]
    if base.op == "range" or base.op == "tup":
        if name == "count" and base.op == "tup" and len(args) == 1 and is_k(args[0]):
            # members that are booleans the path knows are their value
            vals = [x if is_k(x) else K(b) if (b := I.known(st, x)) is not None and x.op in ("cmp", "not", "and", "or") else None for x in base.args]
            hits = [kval(v) for v in vals if v is not None].count(kval(args[0]))
            if None not in vals:
                return [(st, K(hits))]
            t = Term("call", Term("attr", base, name, 0), tuple(args), (), None)
            st = st.copy()
            st.facts = {**st.facts, Term("cmp", "le", K(hits), t): True, Term("cmp", "le", t, K(hits + vals.count(None))): True}
            I.types.setdefault(t, ("ext", "int"))
            return [(st, t)]
        if name in ("index", "count"):
            return [(st, Term("call", Term("attr", base, name, 0), tuple(args), (), None))]
        return None
    if base.op == "view":
        return None
    if base.op != "ref":
        # opaque receivers: iteration views keep their structure
        if name in ("items", "keys", "values") and not args:
            return [(st, Term("view", base, name))]
        if name == "copy" and not args:
            t = Term("chain", base)
            ty = I.typeof(st, base)
            if ty is not None:
                I.types.setdefault(t, ty)
            return None if ty and ty[0] == "cls" else [(st, t)]
        if name in ("union", "intersection", "difference") and len(args) == 1:
            op = {"union": "BitOr", "intersection": "BitAnd", "difference": "Sub"}[name]
            return I.binop(op, base, args[0], st, node)
        return None
    o = I.hget(st, base)
    if o.kind == "inst":
        return None
    if o.kind == "gen":
        return [(st, base)] if name == "__aiter__" else None
    if o.kind == "list":
        if name == "append":
            st = st.copy()
            I.hset(st, base, o.but(data=o.data + (args[0],)))
            st = I.policy.after_call(I, Term("meth", base, name), args, kwargs, st, NONE, node)
            return [(st, NONE)]
        if name == "insert":
            st = st.copy()
            if o.exact and is_k(args[0]):
                d = list(o.data)
                d.insert(kval(args[0]), args[1])
                I.hset(st, base, o.but(data=tuple(d)))
            else:
                I.hset(st, base, o.but(data=o.data + (args[1],), exact=False))
            return [(st, NONE)]
        if name == "extend":
            if args[0].op == "ref" and I.hget(st, args[0]).kind == "gen":
                return [(I.list_extend(y, base, got), NONE) for y, got in drain(I, args[0], st, node)]
            return [(I.list_extend(st, base, args[0]), NONE)]
        if name in ("pop", "popleft"):
            if o.exact and o.data:
                i = kval(args[0]) if args and is_k(args[0]) else (-1 if name == "pop" else 0)
                st = st.copy()
                d = list(o.data)
                try:
                    v = d.pop(i)
                except Exception:
                    return None
                I.hset(st, base, o.but(data=tuple(d)))
                return [(st, v)]
            return None
        if name == "clear":
            st = st.copy()
            I.hset(st, base, o.but(data=(), exact=True))
            return [(st, NONE)]
        if name == "copy":
            st = st.copy()
            return [(st, I.alloc(st, H("list", None, o.data, o.exact)))]
        if name in ("sort", "reverse"):
            st = st.copy()
            I.hset(st, base, o.but(data=sort_items(I, st, o.data, kwargs) if name == "sort" else tuple(reversed(o.data))))
            return [(st, NONE)]
        if name == "remove":
            st = st.copy()
            I.hset(st, base, o.but(exact=False))
            return [(st, NONE)]
        if name == "appendleft":
            st = st.copy()
            I.hset(st, base, o.but(data=(args[0],) + o.data))
            return [(st, NONE)]
        return None
    if o.kind == "dict":
        if name == "get":
            return I.dict_get(st, base, o, args[0], args[1] if len(args) > 1 else NONE, node)
        if name in ("items", "keys", "values"):
            if o.exact:
                if name == "items":
                    data = tuple(tup(k, v) for k, v in o.data)
                elif name == "keys":
                    return [(st, Term("view", base, "keys"))] if False else _mk(I, st, tuple(k for k, _ in o.data), "set")
                else:
                    data = tuple(v for _, v in o.data)
                return _mk(I, st, data, "list")
            if name == "items":
                return _mk(I, st, tuple(tup(k, v) for k, v in o.data), "list", False)
            if name == "values":
                return _mk(I, st, tuple(v for _, v in o.data), "list", False)
            return _mk(I, st, tuple(k for k, _ in o.data), "set", False)
        if name == "pop":
            k = I.ckey(st, args[0])
            st = I.policy.on_del(I, base, args[0], st, node)
            if k is not None and o.exact:
                for a, b in o.data:
                    if I.ckey(st, a) == k:
                        st = st.copy()
                        I.hset(st, base, o.but(data=tuple(x for x in o.data if I.ckey(st, x[0]) != k)))
                        return [(st, b)]
                if len(args) > 1:
                    return [(st, args[1])]
            st = st.copy()
            I.hset(st, base, o.but(exact=False))
            return [(st, Term("call", Term("attr", base, "pop", 0), tuple(args), (), I.uid(node)))]
        if name == "setdefault":
            k = I.ckey(st, args[0])
            if k is not None and o.exact:
                for a, b in o.data:
                    if I.ckey(st, a) == k:
                        return [(st, b)]
                st = st.copy()
                I.hset(st, base, I.dict_set(st, o, args[0], args[1] if len(args) > 1 else NONE))
                return [(st, args[1] if len(args) > 1 else NONE)]
            return None
        if name == "update":
            st = st.copy()
            if args:
                a = args[0]
                if a.op == "ref" and I.hget(st, a).kind == "dict":
                    acc = o
                    for k, v in I.hget(st, a).data:
                        acc = I.dict_set(st, acc, k, v) if I.ckey(st, k) is not None else acc.but(data=acc.data + ((k, v),))
                    I.hset(st, base, acc.but(exact=o.exact and I.hget(st, a).exact))
                else:
                    kind, items = I.iter_kind(a, st)
                    if kind == "exact" and all(x.op == "tup" and len(x.args) == 2 for x in items):
                        acc = o
                        for x in items:
                            acc = I.dict_set(st, acc, x.args[0], x.args[1])
                        I.hset(st, base, acc)
                    else:
                        I.hset(st, base, o.but(data=o.data + ((Term("spread", a), a),), exact=False))
            acc = I.hget(st, base)
            for k, v in kwargs.items():
                acc = I.dict_set(st, acc, K(k), v)
            I.hset(st, base, acc)
            return [(st, NONE)]
        if name == "copy":
            st = st.copy()
            return [(st, I.alloc(st, H("dict", None, o.data, o.exact)))]
        if name == "clear":
            st = st.copy()
            I.hset(st, base, o.but(data=(), exact=True))
            return [(st, NONE)]
        return None
    if o.kind == "set":
        if name in ("add",):
            st = st.copy()
            I.hset(st, base, o.but(data=I.dedupe(st, o.data + (args[0],))))
            return [(st, NONE)]
        if name in ("discard", "remove"):
            st = st.copy()
            k = I.ckey(st, args[0])
            if k is not None and o.exact:
                I.hset(st, base, o.but(data=tuple(x for x in o.data if I.ckey(st, x) != k)))
            else:
                I.hset(st, base, o.but(exact=False))
            return [(st, NONE)]
        if name in ("union", "intersection", "difference", "symmetric_difference"):
            op = {"union": "BitOr", "intersection": "BitAnd", "difference": "Sub", "symmetric_difference": "BitXor"}[name]
            cur = [(st, base)]
            for a in args:
                b = a
                nx = []
                for x, acc in cur:
                    kind, items = I.iter_kind(b, x)
                    if kind in ("exact", "some"):
                        x = x.copy()
                        b2 = I.alloc(x, H("set", None, I.dedupe(x, items), kind == "exact"))
                    else:
                        b2 = b
                    nx += I.binop(op, acc, b2, x, node)
                cur = nx
            return cur
        if name == "update":
            cur = st
            for a in args:
                cur = I.set_update(cur, base, a)
            return [(cur, NONE)]
        if name == "issubset" and len(args) == 1:
            a, b = I.kset_of(base, st), I.kset_of(args[0], st)
            if a is not None and b is not None:
                return [(st, K(a <= b))]
        if name == "copy":
            st = st.copy()
            return [(st, I.alloc(st, H("set", None, o.data, o.exact)))]
        return None
    return None


def _mk(I, st, data, kind, exact=True):
    st = st.copy()
    return [(st, I.alloc(st, H(kind, None, data, exact)))]
