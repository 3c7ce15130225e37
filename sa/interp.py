"""Path-sensitive abstract interpreter over the package's syntax trees.

Domain: Herbrand terms for unknown values, constants folded where the source fixes
them, a small abstract heap (objects created on the path and attribute overlays on
unknown objects), and a set of branch facts.  There is no solver: a branch is decided
only by the fact set, by constant folding and by an interval derived from the facts;
otherwise both sides are kept.  Loops are abstracted by forgetting everything the body
changes and analysing one arbitrary iteration; loops over tables the source spells out
are unrolled.  Calls to functions of the package are inlined up to a depth bound.
"""
from __future__ import annotations

import ast
import re

from .core import (
    FALSE,
    NONE,
    PKG,
    TRUE,
    AnalysisError,
    ClassInfo,
    FuncInfo,
    K,
    Program,
    Term,
    _builtin_exc,
    ext_subclass,
    is_k,
    kval,
    show,
    closures,
    subterms,
)

BUILTIN_FUNCS = {
    "len", "isinstance", "issubclass", "range", "int", "min", "max", "abs", "set", "frozenset", "list", "dict",
    "tuple", "sorted", "zip", "enumerate", "any", "all", "getattr", "hasattr", "setattr", "bool", "str", "bytes",
    "sum", "float", "repr", "type", "round", "reversed", "map", "filter", "iter", "next", "callable", "id", "hash",
    "print", "ord", "chr", "hex", "format", "divmod", "pow", "vars", "super", "object", "property", "bytearray",
    "memoryview", "delattr", "slice", "input", "open", "bin", "oct", "aiter", "anext", "dir", "globals", "locals",
    "NotImplemented", "__name__", "__file__", "__doc__", "staticmethod", "classmethod", "complex", "__import__",
}  # fmt: skip

PURE_EXT_PREFIX = ("typing.", "collections.abc.")


class H:
    __slots__ = ("kind", "cls", "data", "exact", "extra", "envs", "ck")

    def __init__(self, kind, cls, data, exact=True, extra=None):
        self.envs = self.ck = None
        self.kind = kind
        self.cls = cls
        self.data = data
        self.exact = exact
        self.extra = extra

    def but(self, **kw):
        h = H(self.kind, self.cls, self.data, self.exact, self.extra)
        for k, v in kw.items():
            setattr(h, k, v)
        return h

    def sig(self):
        d = self.data
        if isinstance(d, dict):
            d = tuple(sorted(((k, v) for k, v in d.items() if v is not None), key=lambda kv: str(kv[0])))
        return (self.kind, d, self.exact, self.extra if isinstance(self.extra, (int, str, Term)) else None)


class State:
    __slots__ = ("h", "facts", "trace", "env", "epoch", "exc", "glob", "noret", "aux")

    def __init__(self):
        self.h = {}
        self.facts = {}
        self.trace = ()
        self.env = None
        self.epoch = 0
        self.exc = None
        self.glob = False
        self.aux = ()

    def copy(self):
        if self.glob:
            return self
        s = State()
        s.h = dict(self.h)
        s.facts = self.facts
        s.trace = self.trace
        s.env = self.env
        s.epoch = self.epoch
        s.exc = self.exc
        s.aux = self.aux
        return s

    def emit(self, *ev):
        s = self.copy()
        s.trace = s.trace + (ev,)
        return s

    def sig(self):
        return (self.env, self.epoch, self.trace, self.exc, self.aux, frozenset((k, v.sig()) for k, v in self.h.items()))


class Out:
    __slots__ = ("kind", "st", "val", "node")

    def __init__(self, kind, st, val=None, node=None):
        self.kind, self.st, self.val, self.node = kind, st, val, node


class Limit(AnalysisError):
    pass


def tup(*xs):
    return Term("tup", *xs)


class Policy:
    """What a check customises.  All methods may be overridden."""

    max_depth = 12
    max_states = 4000
    unroll = 400
    unroll_while = 0  # rounds of a while loop to follow one by one (0: loops stand for any number of rounds)
    # the element a loop visits is one arbitrary element, the same in every loop over the same
    # collection: what one loop establishes of it holds in the next
    one_element = True

    def inline(self, fn: FuncInfo, interp, st) -> bool:
        return True

    def on_call(self, interp, callee, args, kwargs, st, node):
        """Return None (default handling) or a list of (state, value)."""
        return None

    def after_call(self, interp, callee, args, kwargs, st, val, node):
        return st

    def skip_call(self, interp, node, st):
        """A call (e.g. pure logging) not worth evaluating."""
        return False

    def may_raise(self, interp, callee, args, kwargs, st, node):
        """Exception classes (names or ClassInfo) an opaque call may raise."""
        return ()

    def on_store_attr(self, interp, base, name, val, st, node):
        return st

    def on_store_item(self, interp, base, key, val, st, node):
        return st

    def on_del(self, interp, base, key, st, node):
        return st

    def on_loop_end(self, interp, node, head, end, kind):
        """Called for each path that reaches the end of an arbitrary loop iteration."""

    def on_loop_enter(self, interp, node, st):
        """Called with the state before a loop that is abstracted."""

    def on_loop_out(self, interp, node, head, end, kind):
        """Called for each path that leaves a loop from inside an iteration (break, return)."""

    def on_loop_head(self, interp, node, head):
        """Called with the state at the start of an arbitrary iteration."""

    def on_await(self, interp, val, st, node):
        return st

    def on_raise(self, interp, exc, st, node):
        return st

    def on_assume(self, interp, term, b, st, node):
        return st

    def on_enter(self, interp, fn, args, st, node):
        return st

    def on_load_item(self, interp, base, key, st, node):
        return None

    def on_binop(self, interp, op, a, b, st, node):
        return ()

    def bin_value(self, interp, op, a, b, st):
        """The value of a binary operation, when the policy knows better."""
        return None

    def poly(self, interp, cls, name, impls, st):
        """Which implementations to consider for a method on an inexactly typed receiver.
        Return list of FuncInfo to fork over, or None for opaque."""
        return impls if len(impls) == 1 else None


class Interp:
    def __init__(self, prog: Program | None = None, policy: Policy | None = None):
        self.prog = prog or Program()
        self.policy = policy or Policy()
        self.G = {}
        self.nid = 0
        self.sinks = [[]]
        self.ctx = ()
        self.depth = 0
        self.stack = []  # FuncInfo stack
        self.types = {}
        self.item_facts = {}
        self.yield_cb = []
        self.escapes = []
        self.stats = {"functions": set(), "calls": 0, "paths": 0, "steps": 0}
        self.classes = {}
        self.gstate = State()
        self.gstate.glob = True
        self.gstate.h = self.G
        self._funcs_by_qual = {}
        self.fn_by_node = {}
        self._attr_ty_cache = {}
        self.deadline_steps = 6_000_000
        self.global_mode = 0

    # ------------------------------------------------------------------ heap
    def new_id(self):
        self.nid += 1
        return self.nid

    def alloc(self, st, hobj):
        i = self.new_id()
        st.h[i] = hobj
        return Term("ref", i)

    def hget(self, st, ref):
        i = ref.args[0]
        o = st.h.get(i)
        if o is None:
            o = self.G.get(i)
        return o

    def hset(self, st, ref, hobj):
        if hobj.kind in ("list", "set") and not st.glob:
            self.note_items(st, ref, hobj)
        st.h[ref.args[0]] = hobj
        if hobj.kind in ("list", "set", "dict") and st.facts:
            # what was known of its size no longer holds
            gone = [f for f in st.facts if ref in (f._z if f._z is not None else self._sized(f))]
            if gone:
                st.facts = {f: b for f, b in st.facts.items() if f not in gone}

    def note_items(self, st, ref, hobj):
        """What is known of an arbitrary element when it is put into a list holds for that item of the list."""
        old = st.h.get(ref.args[0])
        n = len(old.data) if old is not None else 0
        for item in hobj.data[n:]:
            el = {u for u in subterms(item) if u.op == "elem"}
            if not el:
                continue
            fs = frozenset(
                (f, b) for f, b in st.facts.items() if any(u in el for u in subterms(f)) and not any(u.op == "ref" and self.hget(st, u) is not None and self.hget(st, u).kind != "inst" for u in subterms(f))
            )
            k = (ref.args[0], item)
            was = self.item_facts.get(k)
            self.item_facts[k] = fs if was is None else was & fs

    @staticmethod
    def _sized(f):
        """The objects whose size this fact is about."""
        if f.op == "ref":
            f._z = (f,)
        elif f.op == "cmp":
            f._z = tuple(x for a in f.args if isinstance(a, Term) for x in Interp._len_args(a) if isinstance(x, Term) and x.op == "ref")
        else:
            f._z = ()
        return f._z

    @staticmethod
    def _len_args(t):
        if t.op == "len":
            return t.args
        if t.op == "call" and isinstance(t.args[1], tuple):
            return t.args[1]
        if t.op == "bin":
            return tuple(x for a in t.args[1:] for x in Interp._len_args(a))
        return ()

    def envget(self, st, eid):
        o = st.h.get(eid)
        return o if o is not None else self.G[eid]

    def new_env(self, st, parent):
        i = self.new_id()
        st.h[i] = H("env", None, {}, True, parent)
        return i

    def setvar(self, st, name, val):
        """Return state with local `name` bound (copy-on-write)."""
        st = st.copy()
        e = self.envget(st, st.env)
        tgt = st.env
        # nonlocal / global declarations
        decl = e.data.get(("decl", name))
        if decl is not None:
            tgt = decl
            e = self.envget(st, tgt)
        d = dict(e.data) if not st.glob else e.data
        d[name] = val
        st.h[tgt] = e.but(data=d) if not st.glob else e
        return st

    def getvar(self, st, name):
        eid = st.env
        first = True
        while eid is not None:
            e = self.envget(st, eid)
            if name in e.data and not (e.cls is not None and not first):
                return e.data[name]
            eid = e.extra
            first = False
        return None

    # --------------------------------------------------------------- modules
    def module_env(self, name):
        m = self.prog.modules.get(name)
        if m is None:
            return None
        if m.state == "new" or m.env is None:
            self.load(m)
        return m

    def load(self, m):
        m.state = "loading"
        i = self.new_id()
        m.env = i
        self.G[i] = H("env", None, {"__name__": K(m.name)}, True, None)
        # parents first, like the import system
        if "." in m.name:
            par = m.name.rsplit(".", 1)[0]
            pm = self.prog.modules.get(par)
            if pm is not None and pm.state == "new":
                self.load(pm)
        save = (self.gstate.env, self.sinks, self.depth, self.stack, self.yield_cb, self.policy, self.ctx)
        self.gstate.env = i
        self.sinks = [[]]
        self.stack = []
        self.depth = 0
        self.yield_cb = []
        self.ctx = ()
        pol = Policy()
        self.policy = pol
        self.global_mode += 1
        self._mod_stack = getattr(self, "_mod_stack", []) + [m]
        try:
            self.exec_block(m.tree.body, self.gstate)
        finally:
            self._mod_stack = self._mod_stack[:-1]
            self.global_mode -= 1
            self.gstate.env, self.sinks, self.depth, self.stack, self.yield_cb, self.policy, self.ctx = save
        m.state = "done"
        if "." in m.name:
            par, short = m.name.rsplit(".", 1)
            pm = self.prog.modules.get(par)
            if pm is not None and pm.env is not None:
                self.G[pm.env].data.setdefault(short, Term("mod", m.name))

    def load_all(self):
        for m in list(self.prog.modules.values()):
            if m.state == "new":
                self.load(m)

    def modattr(self, modname, attr):
        m = self.module_env(modname)
        if m is not None:
            v = self.G[m.env].data.get(attr)
            if v is not None:
                return v
            if f"{modname}.{attr}" in self.prog.modules:
                self.module_env(f"{modname}.{attr}")
                return Term("mod", f"{modname}.{attr}")
            # a name only bound in an `if TYPE_CHECKING` block, or a cycle
            v = self._static_lookup(m, attr)
            if v is not None:
                return v
            return Term("ext", f"{modname}.{attr}")
        return Term("ext", f"{modname}.{attr}")

    def _static_lookup(self, m, name):
        for n in ast.walk(m.tree):
            if isinstance(n, ast.ImportFrom):
                for a in n.names:
                    if (a.asname or a.name) == name:
                        mod = self._abs_mod(m, n)
                        if (mod, a.name) != (m.name, name):
                            if mod.startswith(PKG):
                                tm = self.prog.modules.get(mod)
                                if tm is not None and tm.state == "loading":
                                    return None
                            return self.modattr(mod, a.name)
            elif isinstance(n, ast.Import):
                for a in n.names:
                    if (a.asname or a.name.split(".")[0]) == name:
                        return self._modterm(a.name if a.asname else a.name.split(".")[0])
        return None

    def _abs_mod(self, m, n):
        mod = n.module or ""
        if n.level:
            base = m.name if m.is_pkg else m.name.rsplit(".", 1)[0]
            for _ in range(n.level - 1):
                base = base.rsplit(".", 1)[0]
            mod = f"{base}.{mod}" if mod else base
        return mod

    def _modterm(self, name):
        if name in self.prog.modules:
            self.module_env(name)
            return Term("mod", name)
        return Term("ext", name)

    def cls(self, qual):
        """ClassInfo for 'module:Class' (module relative to the package)."""
        mod, name = qual.split(":")
        full = PKG + ("." + mod if mod else "")
        m = self.module_env(full)
        if m is None:
            raise AnalysisError(f"anchor module {full} is missing")
        v = self.modattr(full, name)
        if v.op != "cls":
            raise AnalysisError(f"anchor class {full}.{name} is missing")
        return v.args[0]

    def glob(self, qual, required=True):
        mod, name = qual.split(":")
        full = PKG + ("." + mod if mod else "")
        m = self.module_env(full)
        if m is None:
            raise AnalysisError(f"anchor module {full} is missing")
        v = self.G[m.env].data.get(name)
        if v is None and required:
            raise AnalysisError(f"anchor {full}.{name} is missing")
        return v

    def func(self, qual):
        """FuncInfo for 'module:func' or 'module:Class.method'."""
        mod, name = qual.split(":")
        if "." in name:
            c, meth = name.split(".", 1)
            ci = self.cls(f"{mod}:{c}")
            f = self.method(ci, meth)
            if f is None:
                raise AnalysisError(f"anchor {qual} is missing")
            return f
        v = self.glob(qual)
        if v.op != "fn":
            raise AnalysisError(f"anchor {qual} is not a function")
        return v.args[0]

    def method(self, ci, name):
        for c in ci.repo_mro():
            if name in c.props:
                return c.props[name].get("get")
            if name in c.attrs:
                v = c.attrs[name]
                if v.op == "fn":
                    return v.args[0]
                return None
        return None

    # ----------------------------------------------------------------- facts
    def iv(self, st, t, d=0):
        """Interval of a numeric term under the facts: (lo, hi), None = unbounded."""
        if t.op == "k":
            v = t.args[1]
            if isinstance(v, (int, float)):
                return (v, v)
            return (None, None)
        lo = hi = None
        if d > 8:
            return (None, None)
        if t.op == "bin":
            o, a, b = t.args
            (al, ah), (bl, bh) = self.iv(st, a, d + 1), self.iv(st, b, d + 1)
            if o == "+":
                lo = None if al is None or bl is None else al + bl
                hi = None if ah is None or bh is None else ah + bh
            elif o == "-":
                lo = None if al is None or bh is None else al - bh
                hi = None if ah is None or bl is None else ah - bl
            elif o == "*" and None not in (al, ah, bl, bh):
                c = [al * bl, al * bh, ah * bl, ah * bh]
                lo, hi = min(c), max(c)
            elif o == "*" and al is not None and bl is not None and al >= 0 and bl >= 0:
                lo = al * bl
            elif o == "*" and bl == bh and bl is not None and bl >= 0:
                lo = None if al is None else al * bl
                hi = None if ah is None else ah * bl
            elif o == "*" and al == ah and al is not None and al >= 0:
                lo = None if bl is None else bl * al
                hi = None if bh is None else bh * al
            elif o in ("//", "/") and bl is not None and bl == bh and bl > 0:
                f = (lambda x: x // bl) if o == "//" else (lambda x: x / bl)
                lo = None if al is None else f(al)
                hi = None if ah is None else f(ah)
            elif o == "%" and bl is not None and bl == bh and bl > 0:
                lo, hi = 0, bl - 1
            elif o == "&":
                if bl is not None and bl == bh and bl >= 0:
                    lo, hi = 0, bl
                elif al is not None and al == ah and al >= 0:
                    lo, hi = 0, al
            elif o == ">>" and bl is not None and bl == bh and 0 <= bl < 64:
                lo = None if al is None else int(al) >> int(bl)
                hi = None if ah is None else int(ah) >> int(bl)
            elif o == "<<" and None not in (al, ah, bl, bh) and 0 <= bl <= bh < 64 and al >= 0:
                lo, hi = int(al) << int(bl), int(ah) << int(bh)
            elif o == "|" and None not in (al, ah, bl, bh) and al >= 0 and bl >= 0:
                m = max(int(ah), int(bh))
                lo, hi = 0, (1 << m.bit_length()) - 1
        elif t.op == "field":
            lo, hi = 0, 256 ** t.args[2] - 1
        elif t.op == "un" and t.args[0] == "-":
            l, h = self.iv(st, t.args[1], d + 1)
            lo = None if h is None else -h
            hi = None if l is None else -l
        elif t.op == "call" and t.args[0].op == "ext":
            n = t.args[0].args[0]
            sr = self.strftime_range(t.args[1][0]) if n == "int" and len(t.args[1]) == 1 else None
            if sr is not None:
                lo, hi = sr
            elif n in ("int", "float", "round", "math.floor", "math.ceil", "math.trunc") and len(t.args[1]) >= 1:
                lo, hi = self.iv(st, t.args[1][0], d + 1)
                if n == "round" and lo is not None and len(t.args[1]) == 1:
                    lo = round(lo)
                if n == "round" and hi is not None and len(t.args[1]) == 1:
                    hi = round(hi)
                if n == "int":
                    lo = None if lo is None else int(lo) if lo >= 0 else lo
                    hi = None if hi is None else int(hi) if hi >= 0 else hi
            elif n == "len":
                lo = 0
                a0 = t.args[1][0]
                if self.known(st, a0) is True:
                    lo = 1
            elif n == "abs":
                lo = 0
                l, h = self.iv(st, t.args[1][0], d + 1)
                if l is not None and h is not None:
                    hi = max(abs(l), abs(h))
                    lo = 0 if l <= 0 <= h else min(abs(l), abs(h))
            elif n == "min" and len(t.args[1]) > 1:
                ivs = [self.iv(st, a, d + 1) for a in t.args[1]]
                his = [h for _, h in ivs if h is not None]
                hi = min(his) if his else None
                lo = None if any(l is None for l, _ in ivs) else min(l for l, _ in ivs)
            elif n == "max" and len(t.args[1]) > 1:
                ivs = [self.iv(st, a, d + 1) for a in t.args[1]]
                los = [l for l, _ in ivs if l is not None]
                lo = max(los) if los else None
                hi = None if any(h is None for _, h in ivs) else max(h for _, h in ivs)
            elif n == "bool":
                lo, hi = 0, 1
            elif n == "int.from_bytes" and not any(k == "signed" and v != K(False) for k, v in t.args[2]):
                lo = 0
                a0 = t.args[1][0]
                if a0.op == "slice" and all(is_k(x) and isinstance(kval(x), int) and kval(x) >= 0 for x in a0.args[1:3]):
                    hi = 256 ** max(0, kval(a0.args[2]) - kval(a0.args[1])) - 1
            elif n == "ord":
                lo, hi = 0, 0x10FFFF
        elif t.op in ("cmp", "not", "isinstance"):
            return (0, 1)
        elif t.op == "attr":
            r = self.dt_range(st, t)
            if r is not None:
                lo, hi = r
        elif t.op == "call" and t.args[0].op == "cls" and t.args[0].args[0].is_enum:
            vs = [self.enum_value(Term("enum", t.args[0].args[0], n)) for n in t.args[0].args[0].enum_members]
            vs = [kval(v) for v in vs if v is not None and v.op == "k" and isinstance(kval(v), int)]
            if vs and len(vs) == len(t.args[0].args[0].enum_members):
                lo, hi = min(vs), max(vs)
        if t.op == "u16":
            lo, hi = 0, 0xFFFF
        if t.op == "urange":
            lo, hi = t.args[1], t.args[2]
        r = self.policy_range(st, t)
        if r is not None:
            if r[0] is not None:
                lo = r[0] if lo is None else max(lo, r[0])
            if r[1] is not None:
                hi = r[1] if hi is None else min(hi, r[1])
        for f, b in st.facts.items():
            if f.op != "cmp":
                continue
            o, x, y = f.args
            if o == "eq" and b:
                if x == t and y.op == "k" and isinstance(kval(y), (int, float)):
                    return (kval(y), kval(y))
            elif o == "in" and b and x == t and y.op == "kset":
                vs = [kval(v) for v in y.args[0] if v.op == "k" and isinstance(kval(v), (int, float))]
                if vs and len(vs) == len(y.args[0]):
                    lo = min(vs) if lo is None else max(lo, min(vs))
                    hi = max(vs) if hi is None else min(hi, max(vs))
            elif o in ("lt", "le"):
                if x == t and y != t:
                    yl, yh = self.iv(st, y, d + 3) if y.op != "k" else (
                        (kval(y), kval(y)) if isinstance(kval(y), (int, float)) else (None, None))
                    if b and yh is not None:
                        v = yh - 1 if o == "lt" and isinstance(yh, int) and not self._floaty(t) else yh
                        hi = v if hi is None else min(hi, v)
                    elif not b and yl is not None:
                        v = yl + 1 if o == "le" and isinstance(yl, int) and not self._floaty(t) else yl
                        lo = v if lo is None else max(lo, v)
                elif y == t and x != t:
                    xl, xh = self.iv(st, x, d + 3) if x.op != "k" else (
                        (kval(x), kval(x)) if isinstance(kval(x), (int, float)) else (None, None))
                    if b and xl is not None:
                        v = xl + 1 if o == "lt" and isinstance(xl, int) and not self._floaty(t) else xl
                        lo = v if lo is None else max(lo, v)
                    elif not b and xh is not None:
                        v = xh - 1 if o == "le" and isinstance(xh, int) and not self._floaty(t) else xh
                        hi = v if hi is None else min(hi, v)
        if lo is not None:
            for f, b in st.facts.items():
                if not b and f.op == "cmp" and f.args[0] == "eq" and f.args[1] == t and f.args[2] == K(lo):
                    if isinstance(lo, int):
                        lo += 1
        return (lo, hi)

    def policy_range(self, st, t):
        f = getattr(self.policy, "range_of", None)
        return f(self, st, t) if f else None

    def _floaty(self, t):
        if t.op == "bin" and t.args[0] == "/":
            return True
        if t.op == "call" and t.args[0].op == "ext" and t.args[0].args[0] == "float":
            return True
        ty = self.types.get(t)
        if ty is not None and ("float" in str(ty) or "Any" in str(ty)):
            return True
        if t.op == "bin":
            return any(self._floaty(x) for x in t.args[1:])
        return False

    def norm(self, t):
        """Normalise a boolean term: returns (term, polarity)."""
        pol = True
        while True:
            if t.op == "not":
                t = t.args[0]
                pol = not pol
                continue
            if t.op == "call" and t.args[0] == Term("ext", "bool") and len(t.args[1]) == 1:
                t = t.args[1][0]
                continue
            if t.op == "call" and t.args[0] == Term("ext", "len") and len(t.args[1]) == 1:
                t = t.args[1][0]
                continue
            if t.op == "cmp":
                o, a, b = t.args
                LEN = Term("ext", "len")
                if a.op == "call" and a.args[0] == LEN and b == K(0):
                    if o == "eq":
                        t, pol = a.args[1][0], not pol
                        continue
                    if o == "le":
                        t, pol = a.args[1][0], not pol
                        continue
                if b.op == "call" and b.args[0] == LEN and a == K(0):
                    if o == "lt":
                        t = b.args[1][0]
                        continue
                    if o == "eq":
                        t, pol = b.args[1][0], not pol
                        continue
                if a.op == "call" and a.args[0] == LEN and b == K(1) and o == "lt":
                    t, pol = a.args[1][0], not pol
                    continue
                if b.op == "call" and b.args[0] == LEN and a == K(1) and o == "le":
                    t = b.args[1][0]
                    continue
                if o == "eq" and b == NONE:
                    t = Term("cmp", "is", a, b)
                    continue
                if o == "eq" and a == NONE:
                    t = Term("cmp", "is", b, a)
                    continue
                if o in ("eq", "is") and a.op in ("k", "enum") and b.op not in ("k", "enum"):
                    t = Term("cmp", o, b, a)
                    continue
                if o == "is" and b.op == "enum":
                    t = Term("cmp", "eq", a, b)
                    continue
                if o in ("eq", "lt", "le"):
                    mv = self._move_const(o, a, b)
                    if mv is not None:
                        t = mv
                        continue
                if o == "in" and b.op == "kset" and len(b.args[0]) == 1:
                    t = Term("cmp", "eq", a, next(iter(b.args[0])))
                    continue
                if o == "is" and b in (TRUE, FALSE) and self._boolish(a):
                    pol = pol if b == TRUE else not pol
                    t = a
                    continue
                if o == "eq" and b in (TRUE, FALSE) and self._boolish(a):
                    pol = pol if b == TRUE else not pol
                    t = a
                    continue
            return t, pol

    @staticmethod
    def _int_k(t):
        return t.op == "k" and t.args[0] == "int"

    def _move_const(self, o, a, b):
        """x + c <= k  ==>  x <= k - c, and the mirror images (integers only)."""
        for x, y, flip in ((a, b, False), (b, a, True)):
            if x.op == "bin" and x.args[0] in ("+", "-") and self._int_k(y):
                p, q = x.args[1], x.args[2]
                n = None
                if self._int_k(q):
                    n, r = kval(y) - kval(q) if x.args[0] == "+" else kval(y) + kval(q), p
                elif self._int_k(p) and x.args[0] == "+":
                    n, r = kval(y) - kval(p), q
                if n is not None:
                    return Term("cmp", o, K(n), r) if flip else Term("cmp", o, r, K(n))
        return None

    def _boolish(self, t):
        if t.op in ("cmp", "not", "isinstance"):
            return True
        ty = self.types.get(t)
        return ty == ("ext", "bool")

    def known(self, st, t):
        """Truth of a boolean term under constants and facts: True / False / None."""
        t, pol = self.norm(t)
        r = self._known(st, t)
        if r is None:
            return None
        return r if pol else (not r)

    def _known(self, st, t):
        op = t.op
        if op == "k":
            try:
                return bool(t.args[1])
            except Exception:
                return None
        if op in ("fn", "cls", "mod", "bm", "exc", "super"):
            return True
        if op == "ext":
            return True
        if op == "tup":
            return len(t.args) > 0
        if op == "kset":
            return len(t.args[0]) > 0
        if op == "ref":
            o = self.hget(st, t)
            if o.kind in ("list", "set", "dict"):
                if o.data:
                    if o.exact or o.extra == "nonempty":
                        return True
                elif o.exact:
                    return False
                return st.facts.get(t)
            if o.kind == "inst":
                if o.cls is not None and (o.cls.lookup("__bool__")[1] or o.cls.lookup("__len__")[1]):
                    return st.facts.get(t)
                if o.cls is not None and any(b in ("dict", "list", "set", "collections.UserDict", "collections.defaultdict", "builtins.dict") for b in o.cls.ext_bases()):
                    return st.facts.get(t)
                return True
            return True
        if op == "enum":
            ci = t.args[0]
            if any(e.split(".")[-1] in ("IntEnum", "IntFlag", "int", "str", "StrEnum") for e in ci.ext_bases()):
                v = ci.attrs.get(t.args[1])
                v = self.enum_value(t)
                if v is not None and v.op == "k":
                    return bool(kval(v))
                return None
            return True
        f = st.facts.get(t)
        if f is not None:
            return f
        if op == "isinstance":
            return self._known_isinstance(st, t)
        if op == "and":
            rs = [self.known(st, x) for x in t.args]
            if any(r is False for r in rs):
                return False
            if all(r is True for r in rs):
                return True
            return None
        if op == "or":
            rs = [self.known(st, x) for x in t.args]
            if any(r is True for r in rs):
                return True
            if all(r is False for r in rs):
                return False
            return None
        if op == "cmp":
            return self._known_cmp(st, t)
        # truthiness of an opaque term
        if st.facts.get(Term("cmp", "is", t, NONE)) is True:
            return False
        for fct, b in st.facts.items():
            if b and fct.op == "cmp" and fct.args[1] == t:
                if fct.args[0] == "eq" and fct.args[2].op == "k":
                    return bool(kval(fct.args[2]))
                if fct.args[0] == "eq" and fct.args[2].op == "enum":
                    return self._known(st, fct.args[2])
        ty = self.typeof(st, t)
        if ty is not None and ty[0] == "cls" and not self._falsy_possible(ty[1]) and \
                st.facts.get(Term("cmp", "is", t, NONE)) is False:
            return True
        if op in ("bin", "call", "attr", "param", "u16", "urange"):
            lo, hi = self.iv(st, t)
            if lo is not None and lo > 0:
                return True
            if hi is not None and hi < 0:
                return True
        return None

    def _falsy_possible(self, ci):
        if ci.lookup("__bool__")[1] or ci.lookup("__len__")[1] or ci.is_enum:
            return True
        return any(b.split(".")[-1] in ("dict", "list", "set", "tuple", "UserDict", "int", "str", "defaultdict", "NamedTuple") for b in ci.ext_bases())

    def _known_isinstance(self, st, t):
        x, c = t.args
        if c.op == "or":
            rs = [self._known(st, Term("isinstance", x, k)) for k in c.args]
            if any(r is True for r in rs):
                return True
            if all(r is False for r in rs):
                return False
            return None
        if x.op == "k":
            tyname = x.args[0]
            if c.op == "ext":
                n = c.args[0]
                if n == "int" and tyname == "bool":
                    return True
                if n in ("int", "float", "str", "bytes", "bool", "complex"):
                    return n == tyname
                if n in ("list", "dict", "tuple", "set", "type") or n.endswith(("Exception", "Error", "CancelledError")):
                    return False
                return None
            return False
        if x.op == "ref":
            o = self.hget(st, x)
            if o.kind == "inst" and o.cls is not None:
                if c.op == "cls":
                    return o.cls.is_subclass(c.args[0])
                if c.op == "ext":
                    return o.cls.is_subclass(c.args[0])
            if c.op == "ext" and o.kind in ("list", "dict", "set"):
                n = c.args[0]
                if n in ("list", "dict", "set", "tuple", "frozenset", "int", "str", "float", "bool", "bytes"):
                    return n == o.kind or (n == "frozenset" and o.kind == "set" and o.extra == "frozen")
            if c.op == "cls":
                return False if o.kind in ("list", "dict", "set") else None
            return None
        if x.op == "fstr":
            if c.op == "ext":
                return True if c.args[0] == "str" else False if c.args[0] in ("int", "float", "bytes", "bool", "list", "dict", "tuple", "set") else None
            return False
        if x.op == "tup":
            if c.op == "ext":
                return c.args[0] in ("tuple", "collections.abc.Sequence")
            return False
        if x.op == "enum":
            if c.op == "cls":
                return x.args[0].is_subclass(c.args[0])
            if c.op == "ext":
                return x.args[0].is_subclass(c.args[0])
        if x.op == "exc":
            r = self.exc_is(x, c)
            return r
        if c.op == "ext" and c.args[0] in ("int", "bool", "float", "str", "bytes"):
            nk = self.num_kind(st, x)
            if nk == "int":
                return c.args[0] == "int"
            if nk == "num":
                return False if c.args[0] in ("bool", "str", "bytes") else None
        if x.op in ("cls",):
            if c.op == "ext" and c.args[0] == "type":
                return True
            return False if c.op == "ext" and c.args[0] in ("int", "str", "tuple", "list", "dict") else None
        if x.op in ("fn", "bm"):
            if c.op == "ext" and c.args[0] in ("type", "int", "str", "tuple", "list", "dict", "staticmethod"):
                return False
        # facts about other classes
        for f, b in st.facts.items():
            if f.op == "isinstance" and f.args[0] == x:
                c2 = f.args[1]
                if b:
                    cands = c2.args if c2.op == "or" else (c2,)
                    if all(self.sub(k, c) is True for k in cands):
                        return True
                    if all(self.disjoint(k, c) for k in cands):
                        return False
                else:
                    cands = c2.args if c2.op == "or" else (c2,)
                    if any(self.sub(c, k) is True for k in cands):
                        return False
        ty = self.typeof(st, x, facts=False)
        if ty is not None and ty[0] == "cls" and c.op == "cls" and x.op != "elem":
            if ty[1].is_subclass(c.args[0]) and st.facts.get(Term("cmp", "is", x, NONE)) is False:
                return True
        return None

    def num_kind(self, st, t, d=0):
        """'int' (an int that is not a bool), 'num' (number, not bool, perhaps float), or None."""
        if d > 10:
            return None
        if t.op == "k":
            return "int" if t.args[0] == "int" else "num" if t.args[0] == "float" else None
        if t.op in ("u16", "urange", "field"):
            return "int"
        if t.op == "call" and t.args[0].op == "ext":
            n = t.args[0].args[0]
            if n in ("int", "len", "ord", "math.floor", "math.ceil", "math.trunc"):
                return "int"
            if n == "round":
                return "int" if len(t.args[1]) == 1 else "num"
            if n == "float":
                return "num"
            if n in ("min", "max", "abs", "sum") and t.args[1]:
                ks = {self.num_kind(st, a, d + 1) for a in t.args[1]}
                return ks.pop() if len(ks) == 1 else None
        if t.op == "call" and t.args[0].op == "cls" and t.args[0].args[0].is_enum:
            if any(e.split(".")[-1] in ("IntEnum", "IntFlag", "int") for e in t.args[0].args[0].ext_bases()):
                return "int"
        if t.op == "enum" and any(e.split(".")[-1] in ("IntEnum", "IntFlag", "int") for e in t.args[0].ext_bases()):
            return "int"
        if t.op == "attr" and self.dt_range(st, t) is not None:
            return "int"
        if t.op == "bin" and t.args[0] in ("+", "-", "*", "//", "%", "/", "**"):
            a, b = self.num_kind(st, t.args[1], d + 1), self.num_kind(st, t.args[2], d + 1)
            if a == b == "int":
                return "num" if t.args[0] in ("/", "**") else "int"
            for x, k in ((t.args[1], a), (t.args[2], b)):
                if k is None and not (
                    st.facts.get(Term("isinstance", x, Term("ext", "int"))) or self._known_isinstance_num(st, x)
                ):
                    return None
            return "num"
        if t.op == "un" and t.args[0] in ("-", "+", "~"):
            return self.num_kind(st, t.args[1], d + 1)
        return None

    def _known_isinstance_num(self, st, x):
        for f, b in st.facts.items():
            if b and f.op == "isinstance" and f.args[0] == x:
                cs = f.args[1].args if f.args[1].op == "or" else (f.args[1],)
                if all(c.op == "ext" and c.args[0] in ("int", "float") for c in cs):
                    return True
        return False

    DT = {"year": (1, 9999), "month": (1, 12), "day": (1, 31), "hour": (0, 23), "minute": (0, 59), "second": (0, 59),
          "microsecond": (0, 999999)}  # fmt: skip

    def dt_range(self, st, t):
        if t.op == "attr" and t.args[1] in self.DT:
            ty = self.typeof(st, t.args[0])
            if ty is not None and ty[0] == "ext" and ty[1] in ("datetime.datetime", "datetime.time", "datetime.date"):
                return self.DT[t.args[1]]
        return None

    @staticmethod
    def strftime_range(t):
        """int(x.strftime(fmt)) for fixed-width numeric formats."""
        if t.op == "call" and t.args[0].op in ("attr", "meth") and t.args[0].args[1] == "strftime" and len(t.args[1]) == 1 \
                and t.args[1][0].op == "k":
            w = {"%H": "23", "%M": "59", "%S": "59"}
            f = kval(t.args[1][0])
            hi = ""
            while f:
                if f[:2] in w:
                    hi += w[f[:2]]
                    f = f[2:]
                elif f[0].isdigit():
                    hi += f[0]
                    f = f[1:]
                else:
                    return None
            return (0, int(hi)) if hi else None
        return None

    def finite(self, st, t, limit=64):
        """The values an integral term can take under the facts, when few."""
        if self._floaty(t):
            return None
        for f, b in st.facts.items():
            if b and f.op == "cmp" and f.args[1] == t and f.args[0] == "in" and f.args[2].op == "kset":
                ks = [x for x in f.args[2].args[0] if self.known(st, Term("cmp", "eq", t, x)) is not False]
                ks = [self.int_enum(x) for x in ks]
                if len(ks) <= limit and all(x.op == "k" for x in ks):
                    return sorted(ks, key=lambda k: (str(type(kval(k))), kval(k)))
        lo, hi = self.iv(st, t)
        if lo is None or hi is None or hi - lo >= limit:
            return None
        if not (isinstance(lo, int) and isinstance(hi, int)):
            return None
        return [K(v) for v in range(lo, hi + 1) if self.known(st, Term("cmp", "eq", t, K(v))) is not False]

    def int_enum(self, t):
        """An integer enumeration member as its number."""
        if t.op == "enum" and any(e.split(".")[-1] in ("IntEnum", "IntFlag", "int") for e in t.args[0].ext_bases()):
            v = self.enum_value(t)
            if v is not None and v.op == "k":
                return v
        return t

    def sub(self, a, b):
        if a == b:
            return True
        if a.op == "cls" and b.op == "cls":
            return a.args[0].is_subclass(b.args[0])
        if a.op == "cls" and b.op == "ext":
            return a.args[0].is_subclass(b.args[0])
        if a.op == "ext" and b.op == "ext":
            return ext_subclass(a.args[0], b.args[0])
        return False

    def disjoint(self, a, b):
        """No common instances (single inheritance assumption over concrete repo classes)."""
        if a.op == "cls" and b.op == "cls":
            x, y = a.args[0], b.args[0]
            if x.is_subclass(y) or y.is_subclass(x):
                return False
            # any class deriving from both?
            for ci in self.classes.values():
                if ci.is_subclass(x) and ci.is_subclass(y):
                    return False
            return True
        if a.op == "ext" and b.op == "ext":
            prim = {"int", "str", "bytes", "float", "list", "dict", "tuple", "set", "NoneType"}
            x, y = a.args[0], b.args[0]
            if {x, y} == {"int", "bool"}:
                return False
            return x in prim | {"bool"} and y in prim | {"bool"} and x != y
        if a.op == "ext" and b.op == "cls":
            return a.args[0] in {"int", "str", "bytes", "float", "list", "tuple", "bool"} and not b.args[0].is_subclass(a.args[0])
        if a.op == "cls" and b.op == "ext":
            return self.disjoint(b, a)
        return False

    def _kcmp(self, o, a, b):
        try:
            if o == "eq":
                return a == b
            if o == "lt":
                return a < b
            if o == "le":
                return a <= b
            if o == "in":
                return a in b
            if o == "is":
                if a is None or b is None or isinstance(a, bool) or isinstance(b, bool):
                    return a is b
                return None
        except Exception:
            return None
        return None

    def _known_cmp(self, st, t):
        o, a, b = t.args
        if a.op == "k" and b.op == "k":
            return self._kcmp(o, kval(a), kval(b))
        if o == "is" and b == NONE:
            if a.op in ("ref", "tup", "fn", "cls", "bm", "mod", "enum", "ext", "exc", "kset", "fstr", "bin", "cmp", "field", "u16", "urange", "gap"):
                return False
            if a.op == "call" and a.args[0].op == "ext" and a.args[0].args[0] in ("len", "int", "str", "bytes", "abs", "float", "sorted", "sum", "bool"):
                return False
            if self.known(st, a) is True:
                return False
            for f, bb in st.facts.items():
                if f.op == "isinstance" and f.args[0] == a and bb:
                    return False
                if bb and f.op == "cmp" and f.args[1] == a and f.args[0] == "eq" and f.args[2] != NONE and f.args[2].op in ("k", "enum"):
                    return False
                if bb and f.op == "cmp" and f.args[1] == a and f.args[0] == "in" and f.args[2].op == "kset" and NONE not in f.args[2].args[0]:
                    return False
            return None
        if o == "eq":
            if a == b:
                return True
            if (c := self.difference(a, b)) is not None:
                return c == 0
            if a.op == "tup" and b.op == "tup" and not any(x.op == "star" for x in a.args + b.args):
                if len(a.args) != len(b.args):
                    return False
                parts = [self.known(st, Term("cmp", "eq", x, y)) for x, y in zip(a.args, b.args)]
                if False in parts or None not in parts:
                    return False not in parts
            if a.op in ("enum", "cls", "fn", "tup", "k") and b.op in ("enum", "cls", "fn", "tup", "k"):
                r = self.const_eq(st, a, b)
                if r is not None:
                    return r
            if a.op == "ref" and b.op == "ref":
                ka, kb = self.ckey(st, a), self.ckey(st, b)
                if ka is not None and kb is not None:
                    return ka == kb
            rev = st.facts.get(Term("cmp", "eq", b, a))
            if rev is not None:
                return rev
            if b.op in ("k", "enum"):
                for f, bb in st.facts.items():
                    if f.op != "cmp" or f.args[1] != a:
                        continue
                    if bb and f.args[0] == "eq" and f.args[2].op in ("k", "enum") and f.args[2] != b:
                        r = self.const_eq(st, f.args[2], b)
                        if r is False:
                            return False
                        if r is True:
                            return True
                    if f.args[0] == "in" and f.args[2].op == "kset":
                        if bb and b not in f.args[2].args[0]:
                            return False
                        if not bb and b in f.args[2].args[0]:
                            return False
                if b.op == "k" and isinstance(kval(b), (int, float)) and not isinstance(kval(b), bool):
                    lo, hi = self.iv(st, a)
                    if lo is not None and kval(b) < lo or hi is not None and kval(b) > hi:
                        return False
            return None
        if o in ("lt", "le"):
            rev = st.facts.get(Term("cmp", "le" if o == "lt" else "lt", b, a))
            if rev is not None:
                return not rev
            if o == "le" and st.facts.get(Term("cmp", "lt", a, b)) is True:
                return True
            if o == "lt" and st.facts.get(Term("cmp", "lt", b, a)) is True:
                return False
            al, ah = self.iv(st, a)
            bl, bh = self.iv(st, b)
            if o == "lt":
                if ah is not None and bl is not None and ah < bl:
                    return True
                if al is not None and bh is not None and al >= bh:
                    return False
            else:
                if ah is not None and bl is not None and ah <= bl:
                    return True
                if al is not None and bh is not None and al > bh:
                    return False
            return None
        if o == "in":
            if b.op == "kset":
                key = self.ckey(st, a)
                if key is not None:
                    return any(self.const_eq(st, a, x) is True for x in b.args[0])
                for f, bb in st.facts.items():
                    if f.op != "cmp" or f.args[1] != a:
                        continue
                    if f.args[0] == "eq" and bb and f.args[2].op in ("k", "enum"):
                        return f.args[2] in b.args[0]
                    if f.args[0] == "in" and f.args[2].op == "kset":
                        if bb and f.args[2].args[0] <= b.args[0]:
                            return True
                        if bb and not (f.args[2].args[0] & b.args[0]):
                            return False
                        if not bb and b.args[0] <= f.args[2].args[0]:
                            return False
                if len(b.args[0]) <= 8:
                    each = [self.known(st, Term("cmp", "eq", a, x)) for x in b.args[0]]
                    if any(r is True for r in each):
                        return True
                    if all(r is False for r in each):
                        return False
                lo, hi = self.iv(st, a)
                vals = [kval(x) for x in b.args[0] if x.op == "k"]
                if vals and len(vals) == len(b.args[0]) and all(isinstance(v, int) for v in vals):
                    if lo is not None and max(vals) < lo or hi is not None and min(vals) > hi:
                        return False
                    if lo is not None and hi is not None and isinstance(lo, int) and isinstance(hi, int) and hi - lo < 70000 \
                            and set(range(lo, hi + 1)) <= set(vals) and not self._floaty(a):
                        return True
            if b.op == "bin" and b.args[0] == "|":
                return self._known(st, Term("or", Term("cmp", "in", a, b.args[1]), Term("cmp", "in", a, b.args[2])))
            return None
        return None

    def const_eq(self, st, a, b):
        ka, kb = self.ckey(st, a), self.ckey(st, b)
        if ka is None or kb is None:
            return None
        if ka == kb:
            return True
        if ka[0] == "k" and kb[0] == "k":
            try:
                return ka[2] == kb[2]
            except Exception:
                return None
        # int/str enums compare to their values
        for x, y in ((a, kb), (b, ka)):
            if x.op == "enum" and y[0] == "k":
                ci = x.args[0]
                if any(e.split(".")[-1] in ("IntEnum", "IntFlag", "int", "str", "StrEnum") for e in ci.ext_bases()):
                    v = self.enum_value(x)
                    if v is not None and v.op == "k":
                        return kval(v) == y[2]
                    return None
        return False

    def enum_value(self, t):
        ci, name = t.args
        return ci.keywords.get(("member", name))

    def ckey(self, st, t, d=0):
        """Structural key of a fully known value, or None."""
        if t.op == "k":
            return ("k", t.args[0], t.args[1])
        if t.op == "enum":
            return ("enum", t.args[0].qual, t.args[1])
        if t.op in ("cls", "fn"):
            return (t.op, t.args[0].qual)
        if t.op == "bm":
            return ("bm", t.args[0].args[0].qual)
        if t.op in ("ext", "mod"):
            return (t.op, t.args[0])
        if t.op == "tup":
            ks = tuple(self.ckey(st, x, d + 1) for x in t.args)
            return None if None in ks else ("tup", ks)
        if t.op == "ref":
            o = self.hget(st, t)
            if o.ck is not None:
                return o.ck
            if o.kind == "inst" and o.cls is not None and o.exact and (
                o.cls.lookup("__eq__")[1] is not None or o.cls.is_dataclass or o.cls.is_namedtuple
            ):
                ks = []
                for f in sorted(o.data):
                    k = self.ckey(st, o.data[f], d + 1)
                    if k is None:
                        return None
                    ks.append((f, k))
                res = ("inst", o.cls.qual, tuple(ks))
                if all(v.op in ("k", "enum") for v in o.data.values()):
                    o.ck = res
                return res
            if o.kind in ("list", "set") and o.exact and d < 6:
                ks = tuple(self.ckey(st, x, d + 1) for x in o.data)
                if None in ks:
                    return None
                return ("set", frozenset(ks)) if o.kind == "set" else ("list", ks)
            if o.kind == "dict" and o.exact and d < 6:
                ks = tuple((self.ckey(st, k, d + 1), self.ckey(st, v, d + 1)) if k.op != "spread" else None for k, v in o.data)
                if any(k is None or None in k for k in ks) or len({k for k, _ in ks}) != len(ks):
                    return None
                return ("dict", frozenset(ks))
            if o.kind == "inst":
                return ("id", t.args[0])
            return None
        if t.op == "kset":
            return ("set", frozenset(self.ckey(st, x, d + 1) for x in t.args[0]))
        return None

    def assume(self, st, t, b, node=None):
        """States in which boolean term t has truth b."""
        t, pol = self.norm(t)
        if not pol:
            b = not b
        if t.op == "and":
            if b:
                sts = [st]
                for x in t.args:
                    sts = [s2 for s in sts for s2 in self.assume(s, x, True, node)]
                return sts
            out, cur = [], [st]
            for x in t.args:
                nxt = []
                for s in cur:
                    out += self.assume(s, x, False, node)
                    nxt += self.assume(s, x, True, node)
                cur = nxt
            return out
        if t.op == "or":
            if not b:
                sts = [st]
                for x in t.args:
                    sts = [s2 for s in sts for s2 in self.assume(s, x, False, node)]
                return sts
            out, cur = [], [st]
            for x in t.args:
                nxt = []
                for s in cur:
                    out += self.assume(s, x, True, node)
                    nxt += self.assume(s, x, False, node)
                cur = nxt
            return out
        if t.op == "cmp" and t.args[0] == "in" and t.args[2].op == "bin" and t.args[2].args[0] == "|":
            u = t.args[2]
            return self.assume(st, Term("or", Term("cmp", "in", t.args[1], u.args[1]), Term("cmp", "in", t.args[1], u.args[2])), b, node)
        if t.op == "cmp" and t.args[0] == "in" and t.args[2].op == "bin" and t.args[2].args[0] == "&":
            u = t.args[2]
            return self.assume(st, Term("and", Term("cmp", "in", t.args[1], u.args[1]), Term("cmp", "in", t.args[1], u.args[2])), b, node)
        if t.op == "cmp" and t.args[0] == "in" and t.args[2].op == "bin" and t.args[2].args[0] == "-":
            u = t.args[2]
            return self.assume(st, Term("and", Term("cmp", "in", t.args[1], u.args[1]), Term("not", Term("cmp", "in", t.args[1], u.args[2]))), b, node)
        r = self._known(st, t)
        if r is not None:
            return [st] if r == b else []
        if st.glob:
            # module level: an undecidable test; keep the branch taken on this platform
            return [st] if b else []
        s = st.copy()
        s.facts = dict(st.facts)
        s.facts[t] = b
        s = self.policy.on_assume(self, t, b, s, node)
        if s is None:
            return []
        # contradiction via intervals
        if t.op == "cmp" and t.args[0] in ("lt", "le", "eq", "in"):
            for x in t.args[1:]:
                if x.op not in ("k", "kset"):
                    lo, hi = self.iv(s, x)
                    if lo is not None and hi is not None and lo > hi:
                        return []
        return [s]

    # ---------------------------------------------------------------- raising
    def raise_(self, st, exc, node):
        st = self.policy.on_raise(self, exc, st, node)
        if st is None:
            return
        self.sinks[-1].append((st, exc, node))

    def exc_term(self, c, exact=True, args=(), note=None):
        if isinstance(c, str):
            c = Term("ext", c)
        elif isinstance(c, ClassInfo):
            c = Term("cls", c)
        return Term("exc", c, exact, args, note)

    def exc_is(self, exc, h):
        """Is exception value `exc` an instance of class term h: True/False/None(maybe)."""
        c, exact = exc.args[0], exc.args[1]
        if h.op == "or":
            rs = [self.exc_is(exc, x) for x in h.args]
            if any(r is True for r in rs):
                return True
            if all(r is False for r in rs):
                return False
            return None
        if self.exc_sub(c, h):
            return True
        if not exact and self.exc_sub(h, c):
            return None
        return False

    def exc_sub(self, c, h):
        if c == h:
            return True
        if c.op == "cls":
            if h.op == "cls":
                return c.args[0].is_subclass(h.args[0])
            if h.op == "ext":
                return c.args[0].is_subclass(h.args[0])
        if c.op == "ext" and h.op == "ext":
            return ext_subclass(c.args[0], h.args[0])
        return False

    # --------------------------------------------------------------- statements
    def tick(self):
        self.stats["steps"] += 1
        if self.stats["steps"] > self.deadline_steps:
            raise Limit("analysis step limit reached")

    def merge(self, sts):
        """Exact merge: drop subsumed states and resolve complementary facts."""
        if len(sts) <= 1:
            return sts
        groups = {}
        for s in sts:
            groups.setdefault(s.sig(), []).append(s)
        out = []
        for g in groups.values():
            if len(g) == 1:
                out += g
                continue
            changed = True
            while changed and len(g) > 1:
                changed = False
                for i in range(len(g)):
                    for j in range(i + 1, len(g)):
                        fi, fj = g[i].facts, g[j].facts
                        if fi == fj:
                            del g[j]
                            changed = True
                            break
                        ki, kj = fi.keys(), fj.keys()
                        if ki == kj:
                            diff = [k for k in fi if fi[k] != fj[k]]
                            if len(diff) == 1:
                                n = g[i].copy()
                                n.facts = {k: v for k, v in fi.items() if k != diff[0]}
                                g[i] = n
                                del g[j]
                                changed = True
                                break
                        if len(fi) < len(fj) and all(fj.get(k) == v for k, v in fi.items()):
                            del g[j]
                            changed = True
                            break
                        if len(fj) < len(fi) and all(fi.get(k) == v for k, v in fj.items()):
                            del g[i]
                            changed = True
                            break
                    if changed:
                        break
            out += g
        return out

    def exec_block(self, stmts, st):
        sts = [st]
        outs = []
        for s in stmts:
            nxt = []
            for x in sts:
                for o in self.exec_stmt(s, x):
                    if o.kind == "next":
                        nxt.append(o.st)
                    else:
                        outs.append(o)
            if len(nxt) > 1:
                nxt = self.merge(nxt)
            if len(nxt) > self.policy.max_states:
                raise Limit(f"too many paths at {self.where(s)}")
            sts = nxt
            if not sts:
                break
        return outs + [Out("next", x) for x in sts]

    def where(self, node):
        m = self.cur_module()
        return f"{m.path if m else '?'}:{getattr(node, 'lineno', 0)}"

    def cur_module(self):
        if self.stack:
            return self.stack[-1].module
        ms = getattr(self, "_mod_stack", [])
        return ms[-1] if ms else None

    def exec_stmt(self, s, st):
        self.tick()
        m = getattr(self, "s_" + type(s).__name__, None)
        if m is None:
            return [Out("next", st)]
        return m(s, st)

    def s_Pass(self, s, st):
        return [Out("next", st)]

    s_Global = None

    def s_Expr(self, s, st):
        if isinstance(s.value, ast.Constant):
            return [Out("next", st)]
        return [Out("next", x) for x, _ in self.ev(s.value, st)]

    def s_Assign(self, s, st):
        out = []
        for x, v in self.ev(s.value, st):
            sts = [x]
            for t in s.targets:
                sts = [y for z in sts for y in self.assign(t, v, z)]
            out += [Out("next", y) for y in sts]
        return out

    def s_AnnAssign(self, s, st):
        if isinstance(s.target, ast.Name):
            e = self.envget(st, st.env)
            if e.cls is not None:
                e.cls.annotations[s.target.id] = s.annotation
        if s.value is None:
            return [Out("next", st)]
        out = []
        for x, v in self.ev(s.value, st):
            self.note_type(v, s.annotation, x)
            out += [Out("next", y) for y in self.assign(s.target, v, x)]
        return out

    def note_type(self, v, ann, st):
        if v.op in ("call", "attr", "idx", "param", "elem", "havoc") and v not in self.types:
            ty = self.resolve_ann(ann, self.cur_module())
            if ty is not None:
                self.types[v] = ty

    def s_AugAssign(self, s, st):
        op = type(s.op).__name__
        load = ast.copy_location(self._as_load(s.target), s.target)
        out = []
        for x, cur in self.ev(load, st):
            for y, v in self.ev(s.value, x):
                # in-place list/set mutation
                if cur.op == "ref":
                    o = self.hget(y, cur)
                    if o.kind == "list" and op == "Add":
                        y2 = self.list_extend(y, cur, v)
                        out += [Out("next", z) for z in self.assign(s.target, cur, y2)]
                        continue
                    if o.kind == "set" and op == "BitOr" and o.extra != "frozen":
                        y2 = self.set_update(y, cur, v)
                        out += [Out("next", z) for z in self.assign(s.target, cur, y2)]
                        continue
                for z, r in self.binop(op, cur, v, y, s):
                    out += [Out("next", w) for w in self.assign(s.target, r, z)]
        return out

    def _as_load(self, t):
        if isinstance(t, ast.Name):
            return ast.Name(id=t.id, ctx=ast.Load())
        if isinstance(t, ast.Attribute):
            return ast.Attribute(value=t.value, attr=t.attr, ctx=ast.Load(), lineno=t.lineno, col_offset=t.col_offset)
        return ast.Subscript(value=t.value, slice=t.slice, ctx=ast.Load(), lineno=t.lineno, col_offset=t.col_offset)

    def assign(self, t, v, st):
        if isinstance(t, ast.Name):
            return [self.setvar(st, t.id, v)]
        if isinstance(t, (ast.Tuple, ast.List)):
            return self.assign_unpack(t, v, st)
        if isinstance(t, ast.Attribute):
            out = []
            for x, base in self.ev(t.value, st):
                out += self.store_attr(base, t.attr, v, x, t)
            return out
        if isinstance(t, ast.Subscript):
            out = []
            for x, base in self.ev(t.value, st):
                for y, key in self.ev_slice(t.slice, x):
                    out.append(self.store_item(base, key, v, y, t))
            return out
        if isinstance(t, ast.Starred):
            return self.assign(t.value, v, st)
        return [st]

    def assign_unpack(self, t, v, st):
        n = len(t.elts)
        star = [i for i, e in enumerate(t.elts) if isinstance(e, ast.Starred)]
        items = self.items_of(v, st)
        vals = None
        if items is not None:
            if not star and len(items) == n:
                vals = list(items)
            elif star and len(items) >= n - 1:
                i = star[0]
                k = len(items) - (n - 1)
                mid = self.alloc(st if st.glob else st, H("list", None, tuple(items[i : i + k])))
                vals = list(items[:i]) + [mid] + list(items[i + k :])
        if vals is None:
            vals = [Term("idx", v, K(i)) for i in range(n)]
            vt = self.typeof(st, v)
            if vt and vt[0] == "tuple" and len(vt[1]) == n:
                for x, ty in zip(vals, vt[1]):
                    if ty is not None:
                        self.types.setdefault(x, ty)
        sts = [st]
        for e, x in zip(t.elts, vals):
            sts = [b for a in sts for b in self.assign(e, x, a)]
        return sts

    def items_of(self, v, st):
        if v.op == "tup":
            return list(v.args)
        if v.op == "ref":
            o = self.hget(st, v)
            if o.kind in ("list",) and o.exact:
                return list(o.data)
            if o.kind == "set" and o.exact:
                return list(o.data)
            if o.kind == "dict" and o.exact:
                return [k for k, _ in o.data]
            if o.kind == "inst" and o.cls is not None and o.cls.is_namedtuple:
                return [o.data[f] for f in self.fields_of(o.cls) if f in o.data]
        if v.op == "k" and isinstance(kval(v), (str, bytes)) and len(kval(v)) < 64:
            return [K(c) for c in kval(v)]
        if v.op == "cls" and v.args[0].is_enum:
            return [Term("enum", v.args[0], n) for n in v.args[0].enum_members]
        if v.op == "kset":
            return sorted(v.args[0], key=repr)
        if v.op == "range":
            a = v.args
            if all(x.op == "k" for x in a):
                r = range(*[kval(x) for x in a])
                if len(r) <= 70000:
                    return [K(i) for i in r]
        return None

    def store_attr(self, base, name, v, st, node):
        st = self.policy.on_store_attr(self, base, name, v, st, node)
        if st is None:
            return []
        if base.op == "ref":
            o = self.hget(st, base)
            if o.kind == "inst":
                # property setter
                if o.cls is not None:
                    for c in o.cls.repo_mro():
                        if name in c.props and c.props[name].get("set"):
                            return [x for x, _ in self.call_fn(c.props[name]["set"], [base, v], {}, st, node)]
                st = st.copy()
                d = dict(o.data)
                d[name] = v
                self.hset(st, base, o.but(data=d))
            return [st]
        if base.op == "cls":
            if st.glob:
                base.args[0].attrs[name] = v
            return [st]
        if base.op == "mod" or base.op == "ext":
            return [st]
        ty = self.typeof(st, base)
        if ty and ty[0] == "cls":
            for c in ty[1].repo_mro():
                if name in c.props and c.props[name].get("set"):
                    return [x for x, _ in self.call_fn(c.props[name]["set"], [base, v], {}, st, node)]
        st = st.copy()
        ov = st.h.get(base)
        d = dict(ov.data) if ov is not None else {}
        d[name] = v
        st.h[base] = H("af", None, d, False)
        return [st]

    def store_item(self, base, key, v, st, node):
        st = self.policy.on_store_item(self, base, key, v, st, node)
        if base.op == "ref":
            o = self.hget(st, base)
            if o.kind == "dict":
                st = st.copy()
                self.hset(st, base, self.dict_set(st, o, key, v))
            elif o.kind == "list":
                st = st.copy()
                if o.exact and key.op == "k" and isinstance(kval(key), int) and -len(o.data) <= kval(key) < len(o.data):
                    d = list(o.data)
                    d[kval(key)] = v
                    self.hset(st, base, o.but(data=tuple(d)))
                elif (new := self.splice_list(st, o, key, v)) is not None:
                    self.hset(st, base, o.but(data=new))
                else:
                    self.hset(st, base, o.but(data=o.data + (v,), exact=False))
            elif o.kind == "inst":
                st = st.copy()
                d = dict(o.data)
                items = d.get("$items", ())
                d["$items"] = items + ((key, v),)
                self.hset(st, base, o.but(data=d))
            return st
        st = st.copy()
        ov = st.h.get(base)
        d = dict(ov.data) if ov is not None else {}
        for k in [k for k in d if isinstance(k, tuple) and k[0] == "item" and k[1] != key]:
            del d[k]
        d[("item", key)] = v
        st.h[base] = H("af", None, d, False)
        return st

    def splice_list(self, st, o, key, v):
        """Result of `list[a:b] = items` when everything is exact."""
        if not (o.exact and key.op == "sl" and all(is_k(x) for x in key.args)):
            return None
        if v.op == "tup":
            items = v.args
        elif v.op == "ref" and self.hget(st, v).kind == "list" and self.hget(st, v).exact:
            items = self.hget(st, v).data
        else:
            return None
        d = list(o.data)
        try:
            d[slice(*(kval(x) for x in key.args))] = list(items)
        except (TypeError, ValueError):
            return None
        return tuple(d)

    def dict_set(self, st, o, key, v):
        k = self.ckey(st, key)
        if k is None:
            new = tuple((a, b) for a, b in o.data if a != key) + ((key, v),)
            return o.but(data=new, exact=o.exact and False, extra="nonempty")
        if st.glob or o.extra == "idx":
            pass
        new = []
        hit = False
        for a, b in o.data:
            if self.ckey(st, a) == k:
                new.append((a, v))
                hit = True
            else:
                new.append((a, b))
        if not hit:
            new.append((key, v))
        return o.but(data=tuple(new))

    def s_Delete(self, s, st):
        sts = [st]
        for t in s.targets:
            nxt = []
            for x in sts:
                if isinstance(t, ast.Subscript):
                    for y, base in self.ev(t.value, x):
                        for z, key in self.ev_slice(t.slice, y):
                            z = self.policy.on_del(self, base, key, z, t)
                            if z is None:
                                continue
                            if base.op == "ref":
                                o = self.hget(z, base)
                                z = z.copy()
                                if o.kind == "dict":
                                    kk = self.ckey(z, key)
                                    if kk is not None and o.exact:
                                        self.hset(z, base, o.but(data=tuple((a, b) for a, b in o.data if self.ckey(z, a) != kk)))
                                    else:
                                        self.hset(z, base, o.but(exact=False))
                                elif o.kind == "list":
                                    self.hset(z, base, o.but(exact=False))
                            nxt.append(z)
                elif isinstance(t, ast.Attribute):
                    for y, base in self.ev(t.value, x):
                        y = self.policy.on_del(self, base, K("." + t.attr), y, t)
                        if y is not None:
                            nxt.append(y)
                elif isinstance(t, ast.Name):
                    nxt.append(x)
                else:
                    nxt.append(x)
            sts = nxt
        return [Out("next", x) for x in sts]

    def s_Return(self, s, st):
        if s.value is None:
            return [Out("return", st, NONE, s)]
        return [Out("return", x, v, s) for x, v in self.ev(s.value, st)]

    def s_Break(self, s, st):
        return [Out("break", st, None, s)]

    def s_Continue(self, s, st):
        return [Out("continue", st, None, s)]

    def s_Global(self, s, st):  # noqa: F811
        st = st.copy()
        e = self.envget(st, st.env)
        d = dict(e.data)
        m = self.cur_module()
        for n in s.names:
            d[("decl", n)] = m.env
        st.h[st.env] = e.but(data=d)
        return [Out("next", st)]

    def s_Nonlocal(self, s, st):
        st = st.copy()
        e = self.envget(st, st.env)
        d = dict(e.data)
        for n in s.names:
            eid = e.extra
            while eid is not None:
                pe = self.envget(st, eid)
                if n in pe.data:
                    d[("decl", n)] = eid
                    break
                eid = pe.extra
        st.h[st.env] = e.but(data=d)
        return [Out("next", st)]

    def branch(self, expr, st):
        """(true_states, false_states) of evaluating expr as a condition."""
        if isinstance(expr, ast.BoolOp):
            if isinstance(expr.op, ast.And):
                cur, fs = [st], []
                for e in expr.values:
                    nx = []
                    for x in cur:
                        t, f = self.branch(e, x)
                        nx += t
                        fs += f
                    cur = nx
                return cur, fs
            cur, ts = [st], []
            for e in expr.values:
                nx = []
                for x in cur:
                    t, f = self.branch(e, x)
                    ts += t
                    nx += f
                cur = nx
            return ts, cur
        if isinstance(expr, ast.UnaryOp) and isinstance(expr.op, ast.Not):
            t, f = self.branch(expr.operand, st)
            return f, t
        if isinstance(expr, ast.Compare) and len(expr.ops) > 1:
            left = expr.left
            parts = []
            for op, right in zip(expr.ops, expr.comparators):
                parts.append(ast.copy_location(ast.Compare(left=left, ops=[op], comparators=[right]), expr))
                left = right
            return self.branch(ast.copy_location(ast.BoolOp(op=ast.And(), values=parts), expr), st)
        ts, fs = [], []
        for x, v in self.ev(expr, st):
            ts += self.assume(x, v, True, expr)
            fs += self.assume(x, v, False, expr)
        return ts, fs

    def s_If(self, s, st):
        ts, fs = self.branch(s.test, st)
        if len(ts) > 1:
            ts = self.merge(ts)
        if len(fs) > 1:
            fs = self.merge(fs)
        out = []
        for x in ts:
            out += self.exec_block(s.body, x)
        for x in fs:
            out += self.exec_block(s.orelse, x) if s.orelse else [Out("next", x)]
        return out

    def s_Assert(self, s, st):
        ts, fs = self.branch(s.test, st)
        for f in fs:
            self.raise_(f, self.exc_term("AssertionError"), s)
        return [Out("next", x) for x in ts]

    def s_Raise(self, s, st):
        if s.exc is None:
            self.raise_(st, st.exc or self.exc_term("Exception", exact=False), s)
            return []
        for x, v in self.ev(s.exc, st):
            if s.cause is not None:
                for y, c in self.ev(s.cause, x):
                    self.raise_(y, self.to_exc(v, y), s)
                    break
            else:
                self.raise_(x, self.to_exc(v, x), s)
        return []

    def to_exc(self, v, st):
        if v.op == "exc":
            return v
        if v.op in ("cls", "ext"):
            return Term("exc", v, True, (), None)
        ty = self.typeof(st, v)
        if ty and ty[0] in ("cls", "ext"):
            c = Term(ty[0], ty[1])
            return Term("exc", c, False, (), v)
        return Term("exc", Term("ext", "BaseException"), False, (), v)

    def s_Try(self, s, st):
        self.sinks.append([])
        try:
            outs = self.exec_block(s.body, st)
        finally:
            raised = self.sinks.pop()
        fin = bool(s.finalbody)
        if fin:
            self.sinks.append([])
        try:
            res = []
            for o in outs:
                if o.kind == "next" and s.orelse:
                    res += self.exec_block(s.orelse, o.st)
                else:
                    res.append(o)
            for rst, exc, rnode in self.merge_raises(raised):
                res += self.handle(s.handlers, rst, exc, rnode)
        finally:
            if fin:
                fraised = self.sinks.pop()
        if fin:
            fo = []
            nexts = [o for o in res if o.kind == "next"]
            merged = [Out("next", x) for x in self.merge([o.st for o in nexts])] if len(nexts) > 1 else nexts
            for o in merged + [o for o in res if o.kind != "next"]:
                for f in self.exec_block(s.finalbody, o.st):
                    if f.kind == "next":
                        fo.append(Out(o.kind, f.st, o.val, o.node))
                    else:
                        fo.append(f)
            for rst, exc, rnode in fraised:
                for f in self.exec_block(s.finalbody, rst):
                    if f.kind == "next":
                        self.sinks[-1].append((f.st, exc, rnode))
                    else:
                        fo.append(f)
            res = fo
        return res

    s_TryStar = s_Try

    def merge_raises(self, raised):
        if len(raised) <= 1:
            return raised
        groups = {}
        for st, exc, n in raised:
            groups.setdefault((exc, id(n)), []).append((st, exc, n))
        out = []
        for g in groups.values():
            for st in self.merge([x[0] for x in g]):
                out.append((st, g[0][1], g[0][2]))
        return out

    def handle(self, handlers, st, exc, rnode):
        res = []
        cur = [(st, exc)]
        for h in handlers:
            nxt = []
            for x, e in cur:
                if h.type is None:
                    hc = Term("ext", "BaseException")
                    evs = [(x, hc)]
                else:
                    evs = self.ev(h.type, x)
                for y, hc in evs:
                    if hc.op == "tup":
                        hc = Term("or", *hc.args)
                    elif hc.op == "ref":
                        it = self.items_of(hc, y)
                        if it is not None:
                            hc = Term("or", *it)
                    r = self.exc_is(e, hc)
                    if r is None:
                        # may be caught: narrow, and also continue
                        for c in hc.args if hc.op == "or" else (hc,):
                            rr = self.exc_is(e, c)
                            if rr is not False:
                                ne = Term("exc", c if rr is None else e.args[0], False, e.args[2], e.args[3]) if rr is None else e
                                res += self.run_handler(h, y, ne)
                        nxt.append((y, e))
                    elif r:
                        res += self.run_handler(h, y, e)
                    else:
                        nxt.append((y, e))
            cur = nxt
        for x, e in cur:
            self.sinks[-1].append((x, e, rnode))
        return res

    def run_handler(self, h, st, exc):
        prev = st.exc
        st = st.copy()
        st.exc = exc
        if h.name:
            st = self.setvar(st, h.name, exc)
        outs = self.exec_block(h.body, st)
        for o in outs:
            if o.kind == "next" and not o.st.glob:
                o.st = o.st.copy()
                o.st.exc = prev
        return outs

    def s_With(self, s, st):
        return self.with_items(list(s.items), s.body, st, s)

    s_AsyncWith = s_With

    def with_items(self, items, body, st, node):
        if not items:
            return self.exec_block(body, st)
        it = items[0]
        res = []
        for x, v in self.ev(it.context_expr, st):
            if v.op == "call" and v.args[0].op == "ext" and v.args[0].args[0].endswith("suppress"):
                self.sinks.append([])
                try:
                    outs = self.with_items(items[1:], body, x, node)
                finally:
                    raised = self.sinks.pop()
                res += outs
                hc = Term("or", *v.args[1])
                for rst, exc, rn in raised:
                    r = self.exc_is(exc, hc)
                    if r is not False:
                        res.append(Out("next", rst))
                    if r is not True:
                        self.sinks[-1].append((rst, exc, rn))
                continue
            if v.op == "ref" and self.hget(x, v).kind == "gen":
                res += self.run_gen(v, x, lambda val, y, it=it: self._with_body(it, val, items, body, y, node), once=True)
                continue
            if v.op == "ref" and self.hget(x, v).kind == "inst" and self.hget(x, v).cls is not None:
                ci = self.hget(x, v).cls
                ent = self.method(ci, "__enter__") or self.method(ci, "__aenter__")
                ext = self.method(ci, "__exit__") or self.method(ci, "__aexit__")
                if ent and ext:
                    for y, r in self.call_fn(ent, [v], {}, x, node):
                        ys = self.assign(it.optional_vars, r, y) if it.optional_vars else [y]
                        for z in ys:
                            self.sinks.append([])
                            try:
                                outs = self.with_items(items[1:], body, z, node)
                            finally:
                                raised = self.sinks.pop()
                            for o in outs:
                                for w, _ in self.call_fn(ext, [v, NONE, NONE, NONE], {}, o.st, node):
                                    res.append(Out(o.kind, w, o.val, o.node))
                            for rst, exc, rn in raised:
                                for w, rv in self.call_fn(ext, [v, exc.args[0], exc, Term("param", "tb")], {}, rst, node):
                                    for q in self.assume(w, rv, False):
                                        self.sinks[-1].append((q, exc, rn))
                                    for q in self.assume(w, rv, True):
                                        res.append(Out("next", q))
                    continue
            x = self.policy.on_await(self, v, x, node) if isinstance(node, ast.AsyncWith) else x
            ys = self.assign(it.optional_vars, Term("enter", v), x) if it.optional_vars else [x]
            for y in ys:
                res += self.with_items(items[1:], body, y, node)
        return res

    def _with_body(self, it, val, items, body, st, node):
        sts = self.assign(it.optional_vars, val, st) if it.optional_vars else [st]
        out = []
        for x in sts:
            out += self.with_items(items[1:], body, x, node)
        return out

    def s_FunctionDef(self, s, st):
        fn = self.make_fn(s, st)
        e = self.envget(st, st.env)
        decos = []
        sts = [st]
        for d in s.decorator_list:
            decos.append(self.deco_name(d, st))
        fn.decorators = decos
        names = [d.split(".")[-1] for d in decos]
        if "staticmethod" in names:
            fn.kind = "static"
        elif "classmethod" in names or s.name in ("__init_subclass__", "__class_getitem__"):
            fn.kind = "class"
        elif s.name == "__new__":
            fn.kind = "static"
        if e.cls is not None:
            fn.cls = e.cls
            if any(n in ("property", "cached_property", "computed_field") for n in names):
                fn.kind = "property"
                e.cls.props.setdefault(s.name, {})["get"] = fn
                e.cls.attrs[s.name] = Term("prop", fn)
                return [Out("next", self.setvar(st, s.name, Term("prop", fn)))]
            for d in s.decorator_list:
                if isinstance(d, ast.Attribute) and d.attr == "setter" and isinstance(d.value, ast.Name):
                    e.cls.props.setdefault(d.value.id, {})["set"] = fn
                    return [Out("next", st)]
        val = Term("fn", fn, st.env)
        # contextmanager: calling yields a generator object, used by with
        x, val = self.decorate(s, fn, val, st)
        return [Out("next", self.setvar(x, s.name, val))]

    def decorate(self, s, fn, val, st):
        """Apply the decorators that are functions of the package; the others keep the function."""
        for d in reversed(s.decorator_list):
            tgt = d.func if isinstance(d, ast.Call) else d
            if isinstance(tgt, ast.Name):
                f = self.getvar(st, tgt.id)
            elif isinstance(tgt, ast.Attribute):
                r = self.ev(tgt, st)
                f = r[0][1] if len(r) == 1 else None
            else:
                f = None
            if f is None:
                continue
            if f.op == "ext" and f.args[0].split(".")[-1] == "wraps" and isinstance(d, ast.Call) and d.args:
                r = self.ev(d.args[0], st)
                if len(r) == 1 and r[0][1].op == "fn":
                    fn.wrapped = r[0][1].args[0]
                continue
            if f.op != "fn":
                continue
            if isinstance(d, ast.Call):
                r = self.ev(d, st)
                if len(r) != 1 or r[0][1].op != "fn":
                    continue
                st, f = r[0]
            r = self.call(f, [val], {}, st, s)
            if len(r) == 1 and r[0][1].op in ("fn", "cls", "prop"):
                st, val = r[0]
                if val.op == "fn" and val.args[0] is not fn and val.args[0].cls is None and fn.cls is not None:
                    val.args[0].cls = fn.cls
                    val.args[0].kind = fn.kind
        return st, val

    s_AsyncFunctionDef = s_FunctionDef

    def deco_name(self, d, st):
        if isinstance(d, ast.Call):
            d = d.func
        if isinstance(d, ast.Name):
            v = self.getvar(st, d.id)
            if v is not None and v.op in ("ext",):
                return v.args[0]
            if v is not None and v.op in ("fn", "cls"):
                return v.args[0].qual
            return d.id
        if isinstance(d, ast.Attribute):
            return ast.unparse(d)
        return "?"

    def make_fn(self, s, st):
        m = self.cur_module()
        e = self.envget(st, st.env)
        name = getattr(s, "name", "<lambda>")
        if e.cls is not None:
            qual = f"{e.cls.qual}.{name}"
        elif self.stack:
            qual = f"{self.stack[-1].qual}.<locals>.{name}"
        else:
            qual = f"{m.name}:{name}"
        fn = FuncInfo(s, m, qual, e.cls)
        a = s.args
        pos = list(a.posonlyargs) + list(a.args)
        for p, d in zip(pos[len(pos) - len(a.defaults):], a.defaults):
            fn.defaults[p.arg] = self.ev1(d, st)
        for p, d in zip(a.kwonlyargs, a.kw_defaults):
            if d is not None:
                fn.defaults[p.arg] = self.ev1(d, st)
        if self.stack or e.kind == "env" and st.env != m.env and e.cls is None:
            fn.env = st.env
        if st.glob:
            self._funcs_by_qual[qual] = fn
            self.fn_by_node[id(s)] = fn
        return fn

    def ev1(self, e, st):
        r = self.ev(e, st)
        return r[0][1] if r else Term("opaque", "default")

    def s_ClassDef(self, s, st):
        m = self.cur_module()
        e = self.envget(st, st.env)
        qual = f"{e.cls.qual}.{s.name}" if e.cls is not None else f"{m.name}:{s.name}"
        ci = ClassInfo(s, m, qual)
        for b in s.bases:
            v = self.ev1(b, st)
            if v.op == "call" and v.args[0].op == "ext" and v.args[0].args[0].endswith("create_model"):
                # pydantic create_model(..., __base__=X): fields are dynamic
                kws = dict(v.args[2])
                ci.keywords["create_model"] = v
                base = kws.get("__base__")
                ci.bases.append(Term("ext", "pydantic.BaseModel") if base is None or base.op not in ("cls", "ext") else base)
                continue
            if v.op == "tup":
                v = v.args[0] if v.args else Term("ext", "object")
            if v.op in ("cls", "ext"):
                ci.bases.append(v)
            elif v.op == "idx":
                vv = v.args[0]
                ci.bases.append(vv if vv.op in ("cls", "ext") else Term("ext", show(vv)))
            else:
                ci.bases.append(Term("ext", show(v)))
        for kw in s.keywords:
            if kw.arg:
                ci.keywords[kw.arg] = self.ev1(kw.value, st)
        ci.decorators = [self.deco_name(d, st) for d in s.decorator_list]
        for d in s.decorator_list:
            if isinstance(d, ast.Call):
                for kw in d.keywords:
                    if kw.arg:
                        ci.keywords["deco." + kw.arg] = self.ev1(kw.value, st)
        if ci.is_enum:
            ci.keywords["is_enum"] = TRUE
        i = self.new_id()
        tgt = self.G if st.glob else st.h
        tgt[i] = H("env", ci, {}, True, st.env)
        save = st.env
        if st.glob:
            st.env = i
            self.exec_block(s.body, st)
            st.env = save
            data = self.G[i].data
        else:
            x = st.copy()
            x.env = i
            outs = self.exec_block(s.body, x)
            data = self.envget(outs[0].st, i).data if outs else {}
        enum = ci.is_enum
        auto = 0
        for k, v in data.items():
            if not isinstance(k, str):
                continue
            if enum and not k.startswith("_") and v.op not in ("fn", "prop") and k not in ci.props:
                if v.op == "call" and v.args[0].op == "ext" and v.args[0].args[0].endswith("auto"):
                    auto += 1
                    v = K(auto)
                elif v.op == "k" and isinstance(kval(v), int):
                    auto = kval(v)
                # aliases share value
                alias = None
                for n in ci.enum_members:
                    if ci.keywords.get(("member", n)) == v:
                        alias = n
                ci.keywords[("member", k)] = v
                if alias is None:
                    ci.enum_members.append(k)
                    ci.attrs[k] = Term("enum", ci, k)
                else:
                    ci.attrs[k] = Term("enum", ci, alias)
            else:
                ci.attrs[k] = v
        t = Term("cls", ci)
        if st.glob:
            self.classes[qual] = ci
        return [Out("next", self.setvar(st, s.name, t))]

    def s_Import(self, s, st):
        for a in s.names:
            if a.asname:
                st = self.setvar(st, a.asname, self._modterm(a.name))
            else:
                self._modterm(a.name)
                st = self.setvar(st, a.name.split(".")[0], self._modterm(a.name.split(".")[0]))
        return [Out("next", st)]

    def s_ImportFrom(self, s, st):
        m = self.cur_module()
        mod = self._abs_mod(m, s)
        for a in s.names:
            if a.name == "*":
                tm = self.module_env(mod)
                if tm is not None:
                    for k, v in list(self.G[tm.env].data.items()):
                        if isinstance(k, str) and not k.startswith("_"):
                            st = self.setvar(st, k, v)
                continue
            if mod in self.prog.modules:
                v = self.modattr(mod, a.name)
            elif f"{mod}.{a.name}" in self.prog.modules:
                v = self._modterm(f"{mod}.{a.name}")
            else:
                v = Term("ext", f"{mod}.{a.name}" if mod != "builtins" else a.name)
                if a.name == "TYPE_CHECKING":
                    v = FALSE
            st = self.setvar(st, a.asname or a.name, v)
        return [Out("next", st)]

    # ------------------------------------------------------------------- match
    def s_Match(self, s, st):
        out = []
        for x, subj in self.ev(s.subject, st):
            cur = [x]
            for case in s.cases:
                nxt = []
                for y in cur:
                    ms, ns = self.match_pat(case.pattern, subj, y)
                    for z in ms:
                        if case.guard is not None:
                            ts, fs = self.branch(case.guard, z)
                        else:
                            ts, fs = [z], []
                        for w in ts:
                            out += self.exec_block(case.body, w)
                        nxt += fs
                    nxt += ns
                cur = nxt
            out += [Out("next", y) for y in cur]
        return out

    def match_pat(self, p, v, st):
        if isinstance(p, ast.MatchValue):
            ms, ns = [], []
            for x, pv in self.ev(p.value, st):
                t = self.cmp("Eq", v, pv, x)
                ms += self.assume(x, t, True, p)
                ns += self.assume(x, t, False, p)
            return ms, ns
        if isinstance(p, ast.MatchSingleton):
            t = Term("cmp", "is", v, K(p.value))
            return self.assume(st, t, True, p), self.assume(st, t, False, p)
        if isinstance(p, ast.MatchAs):
            if p.pattern is None:
                return [self.setvar(st, p.name, v) if p.name else st], []
            ms, ns = self.match_pat(p.pattern, v, st)
            if p.name:
                ms = [self.setvar(x, p.name, v) for x in ms]
            return ms, ns
        if isinstance(p, ast.MatchOr):
            ms, cur = [], [st]
            for q in p.patterns:
                nx = []
                for x in cur:
                    a, b = self.match_pat(q, v, x)
                    ms += a
                    nx += b
                cur = nx
            return ms, cur
        if isinstance(p, ast.MatchClass):
            ms, ns = [], []
            for x, c in self.ev(p.cls, st):
                t = Term("isinstance", v, c)
                ms += self.assume(x, t, True, p)
                ns += self.assume(x, t, False, p)
            if p.patterns or p.kwd_patterns:
                final = []
                for x in ms:
                    cur = [x]
                    for attr, q in zip(p.kwd_attrs, p.kwd_patterns):
                        nx = []
                        for y in cur:
                            for z, av in self.load_attr(v, attr, y, p):
                                a, b = self.match_pat(q, av, z)
                                nx += a
                                ns += b
                        cur = nx
                    final += cur
                ms = final
            return ms, ns
        if isinstance(p, ast.MatchSequence):
            items = self.items_of(v, st)
            if items is not None and not any(isinstance(q, ast.MatchStar) for q in p.patterns):
                if len(items) != len(p.patterns):
                    return [], [st]
                ms, ns, cur = [], [], [st]
                for q, it in zip(p.patterns, items):
                    nx = []
                    for x in cur:
                        a, b = self.match_pat(q, it, x)
                        nx += a
                        ns += b
                    cur = nx
                return cur, ns
            return [st], [st]
        return [st], [st]

    # ------------------------------------------------------------------- loops
    def s_For(self, s, st):
        out = []
        for x, it in self.ev(s.iter, st):
            out += self.loop_over(it, x, s, lambda item, y: self.assign(s.target, item, y), s.body, s.orelse)
        return out

    s_AsyncFor = s_For

    def iter_kind(self, it, st):
        if it.op == "ref":
            o = self.hget(st, it)
            if o.kind == "gen":
                return "gen", it
            if o.kind in ("list", "set"):
                if o.exact:
                    return "exact", list(o.data)
                return "some", list(o.data)
            if o.kind == "dict":
                ks = [k for k, _ in o.data]
                return ("exact" if o.exact else "some"), ks
        items = self.items_of(it, st)
        if items is not None:
            return "exact", items
        if it.op == "chain":  # sorted()/list()/reversed() of something opaque
            return "opaque", Term("elem", it.args[0])
        if it.op == "view":
            base, what = it.args
            el = Term("elem", base)
            if what == "items":
                return "opaque", tup(el, Term("val", base, el))
            if what == "values":
                return "opaque", Term("val", base, el)
            return "opaque", el
        if it.op == "zip":
            kinds = [self.iter_kind(a, st) for a in it.args]
            if all(k[0] == "exact" for k in kinds):
                n = min(len(k[1]) for k in kinds)
                return "exact", [tup(*[k[1][i] for k in kinds]) for i in range(n)]
            return "opaque", tup(*[k[1] if k[0] == "opaque" else Term("elem", a) for k, a in zip(kinds, it.args)])
        if it.op == "enumerate":
            k, v = self.iter_kind(it.args[0], st)
            start = kval(it.args[1]) if it.args[1].op == "k" else 0
            if k == "exact":
                return "exact", [tup(K(i + start), x) for i, x in enumerate(v)]
            if k == "opaque":
                ix = Term("pos", it.args[0])
                return "opaque", tup(ix, v)
            if k == "some":
                return "some", [tup(Term("pos", it.args[0]), x) for x in v]
        if it.op == "range":
            return "opaque", Term("elem", it)
        return "opaque", Term("elem", it)

    def iter_base(self, it):
        while it.op in ("chain", "view", "enumerate"):
            it = it.args[0]
        return it

    def loop_over(self, it, st, node, bind, body, orelse):
        if it == NONE:
            self.raise_(st.copy(), self.exc_term("TypeError", note=self.where(node)), node)
            return []
        kind, items = self.iter_kind(it, st)
        body_fn = body if callable(body) else (lambda y: self.exec_block(body, y))
        if kind == "gen":
            return self.run_gen(it, st, lambda val, y: self._gen_body(bind, val, body_fn, y), orelse=orelse)
        limit = 5000 if st.glob or self.global_mode else self.policy.unroll
        if kind == "exact" and len(items) <= limit:
            sts, out, broke = [st], [], []
            save = self.ctx
            for n, item in enumerate(items):
                self.ctx = save + (("u", n),)
                nxt = []
                for x in sts:
                    for y in bind(item, x):
                        for o in body_fn(y):
                            if o.kind in ("next", "continue"):
                                nxt.append(o.st)
                            elif o.kind == "break":
                                broke.append(o.st)
                            else:
                                out.append(o)
                sts = self.merge(nxt)
                if len(sts) > self.policy.max_states:
                    if st.glob or self.global_mode:
                        raise Limit(f"too many paths in unrolled loop at {self.where(node)}")
                    sts = None  # too many cases to tell apart: one arbitrary iteration stands for all
                    break
                if not sts:
                    break
            self.ctx = save
        if kind == "exact" and len(items) <= limit and sts is not None:
            for x in sts:
                out += self.exec_block(orelse, x) if orelse else [Out("next", x)]
            out += [Out("next", x) for x in broke]
            return out
        if st.glob:
            return [Out("next", st)]
        if kind == "exact" and len(items) > 16 and all(is_k(x) for x in items):
            kind, items = "opaque", Term("elem", it)
        elif kind == "exact":
            kind = "some"
        # abstract loop
        base = self.iter_base(it)
        nonempty = base

        def head_items(x):
            if kind == "some":
                return items
            return [items]

        fresh = {u for i in head_items(None) for u in subterms(i) if u.op == "elem"}

        def enter(x):
            r = []
            if fresh and not self.policy.one_element:
                # another arbitrary element: nothing learnt about one met earlier holds for it
                gone = {f for f in x.facts if any(u in fresh for u in subterms(f))}
                if gone:
                    x = x.copy()
                    x.facts = {f: b for f, b in x.facts.items() if f not in gone}
            if kind == "opaque" and base.op not in ("range", "zip", "ref") or kind == "some" and base.op == "ref":
                xs = self.assume(x, nonempty, True, node)
            else:
                xs = [x]
            for y0 in xs:
                for item in head_items(y0):
                    y = y0
                    known = self.item_facts.get((base.args[0], item)) if kind == "some" and base.op == "ref" and it.op != "enumerate" else None
                    if known:
                        y = y.copy()
                        y.facts = {**y.facts, **dict(known)}
                    ty = self.elem_type(y, it)
                    if ty is not None and item.op == "elem":
                        self.types.setdefault(item, ty)
                    if item.op == "tup" and it.op == "view":
                        vt = self.typeof(y, base)
                        if vt and vt[0] == "dict":
                            if vt[1] is not None:
                                self.types.setdefault(item.args[0], vt[1])
                            if vt[2] is not None:
                                self.types.setdefault(item.args[1], vt[2])
                    if item.op == "val":
                        vt = self.typeof(y, base)
                        if vt and vt[0] == "dict" and vt[2] is not None:
                            self.types.setdefault(item, vt[2])
                    if item.op == "tup" and it.op == "zip":
                        for a, sub in zip(it.args, item.args):
                            et = self.elem_type(y, a)
                            if et is not None:
                                self.types.setdefault(sub, et)
                    if kind == "opaque" and item.op == "elem" and item.args[0].op == "range":
                        pass
                    r += bind(item, y)
            return r

        def zero(x):
            if kind == "opaque" and base.op not in ("range", "zip", "ref") or kind == "some" and base.op == "ref":
                return self.assume(x, nonempty, False, node)
            return [x]

        return self.abstract_loop(st, node, enter, body_fn, zero, orelse)

    def _gen_body(self, bind, val, body_fn, st):
        out = []
        for y in bind(val, st):
            out += body_fn(y)
        return out

    def changed_cells(self, head, ends):
        cells = set()
        for e in ends:
            for k, v in e.h.items():
                hv = head.h.get(k)
                if hv is None:
                    if k in self.G and self.G[k] is not v:
                        hv = self.G[k]
                    elif isinstance(k, Term):
                        for f in v.data:
                            cells.add((k, f))
                        continue
                    else:
                        continue
                if hv is v or hv.sig() == v.sig():
                    continue
                if v.kind in ("env", "inst", "af"):
                    for f in set(v.data) | set(hv.data):
                        if v.data.get(f) != hv.data.get(f):
                            cells.add((k, f))
                else:
                    cells.add((k, None))
        return cells

    def _alike(self, st, cells):
        """Changed cells that hold one and the same non-constant value: candidates to stay equal through a loop."""
        by = {}
        for k, f in cells:
            if f is None or isinstance(f, tuple):
                continue
            v = self._cell(st, k, f)
            if isinstance(v, Term) and v.op not in ("k", "ref"):
                by.setdefault(v, []).append((k, f))
        # an attribute names the group before a local does
        return [sorted(g, key=lambda c: (isinstance(c[0], int), str(c))) for g in by.values() if len(g) > 1]

    def _cell(self, st, k, f):
        o = st.h.get(k) or (self.G.get(k) if isinstance(k, int) else None)
        return o.data.get(f) if o is not None and isinstance(o.data, dict) else None

    def _split(self, groups, ends):
        out = []
        for g in groups:
            by = {}
            for c in g:
                by.setdefault(tuple(self._cell(e, *c) for e in ends), []).append(c)
            out += [x for key, x in by.items() if len(x) > 1 and None not in key]
        return out

    def havoc(self, st, cells, node, tag="", groups=()):
        st = self._havoc(st, cells, node, tag)
        for g in groups:
            rep = self._cell(st, *g[0])
            if rep is None:
                continue
            for k, f in g[1:]:
                o = st.h.get(k) or (self.G.get(k) if isinstance(k, int) else None)
                if o is not None and isinstance(o.data, dict) and f in o.data:
                    st.h[k] = o.but(data={**o.data, f: rep})
        return st

    def _havoc(self, st, cells, node, tag=""):
        st = st.copy()
        uid = (getattr(node, "lineno", 0), getattr(node, "col_offset", 0), self.ctx, tag)
        for k, f in sorted(cells, key=lambda c: (str(c[0]), str(c[1]))):
            o = st.h.get(k)
            if o is None:
                o = self.G.get(k) if isinstance(k, int) else None
            if o is None:
                if isinstance(k, Term):
                    st.h[k] = H("af", None, {f: Term("havoc", uid, str(f) if not isinstance(f, tuple) else f"item")}, False)
                continue
            if f is None:
                st.h[k] = o.but(exact=False, extra=None if o.extra != "frozen" else o.extra)
            else:
                d = dict(o.data)
                old = d.get(f)
                if o.kind == "env" and old is None:
                    continue  # first bound inside the loop
                if isinstance(f, tuple) and f[0] == "item":
                    d.pop(f, None)
                else:
                    nv = Term("havoc", uid, f if o.kind == "env" else f"{show(k) if isinstance(k, Term) else 'obj'}.{f}")
                    if old is not None:
                        ty = self.typeof(st, old)
                        if ty is not None:
                            self.types.setdefault(nv, ty)
                    elif isinstance(k, Term):
                        ty = self.typeof(st, Term("attr", k, f, 0))
                        if ty is not None:
                            self.types.setdefault(nv, ty)
                    d[f] = nv
                st.h[k] = o.but(data=d)
        return st

    def _kcells(self, st, cells):
        r = []
        for k, f in sorted(cells, key=lambda c: (str(c[0]), str(c[1]))):
            o = st.h.get(k) or (self.G.get(k) if isinstance(k, int) else None)
            if o is None or f is None:
                return None
            v = o.data.get(f)
            r.append(v)
        return tuple(r)

    def abstract_loop(self, st, node, enter, body_fn, zero, orelse, is_while=False):
        """One arbitrary iteration from a state that forgets what the body changes."""
        self.policy.on_loop_enter(self, node, st)
        save = self.ctx
        self.ctx = save + (("l", getattr(node, "lineno", 0)),)
        try:
            # --- discover the changed cells (dry runs)
            cells = set()
            saved_hook = self.policy
            groups = None
            for _ in range(8):
                head = self.havoc(st, cells, node, groups=groups or ())
                self.sinks.append([])
                self.policy = _Quiet(saved_hook)
                saved_esc = self.escapes
                self.escapes = []
                try:
                    ends = []
                    for x in enter(head):
                        for o in body_fn(x):
                            if o.kind in ("next", "continue"):
                                ends.append(o.st)
                finally:
                    self.policy = saved_hook
                    self.sinks.pop()
                    self.escapes = saved_esc
                new = self.changed_cells(head, ends)
                new = {c for c in new if not (isinstance(c[0], int) and c[0] not in st.h and c[0] not in self.G)}
                if new <= cells:
                    was = groups
                    groups = self._alike(st, cells) if groups is None else self._split(groups, ends)
                    if groups == was or not groups:
                        break
                else:
                    groups = None
                cells |= new
            else:
                groups = ()
            groups = groups or ()
            # constant-valued cells are kept apart by value (bounded)
            const_cells = set()
            for c in cells:
                k, f = c
                if f is None or isinstance(f, tuple):
                    continue
                vals = set()
                ok = True
                for e in [st] + ends:
                    o = e.h.get(k) or (self.G.get(k) if isinstance(k, int) else None)
                    v = o.data.get(f) if o is not None else None
                    if v is None:
                        if e is st and isinstance(k, int):
                            continue
                        ok = False
                        break
                    if v.op == "havoc":
                        continue
                    if v.op not in ("k",) or not isinstance(kval(v), (bool, type(None), str)):
                        ok = False
                        break
                    vals.add(v)
                if ok and vals and len(vals) <= 4:
                    const_cells.add(c)
            hv = cells - const_cells
            heads = [self.havoc(st, hv, node, groups=groups)]
            seen = set()
            res = []
            ends_all = []
            rounds = 0
            while heads and rounds < 5:
                rounds += 1
                nh = []
                for hd in heads:
                    key = self._kcells(hd, const_cells) if const_cells else ()
                    if key in seen:
                        continue
                    seen.add(key)
                    self.policy.on_loop_head(self, node, hd)
                    for x in enter(hd):
                        for o in body_fn(x):
                            if o.kind in ("next", "continue"):
                                self.policy.on_loop_end(self, node, hd, o.st, o.kind)
                                ends_all.append(o.st)
                                if const_cells:
                                    nxt = self.havoc(o.st, hv, node, tag=f"r{rounds}", groups=groups)
                                    nh.append(nxt)
                            elif o.kind == "break":
                                self.policy.on_loop_out(self, node, hd, o.st, o.kind)
                                b = o.st
                                res.append(Out("next", self._note_broken(b, node)))
                            else:
                                self.policy.on_loop_out(self, node, hd, o.st, o.kind)
                                res.append(o)
                heads = nh
            # exits
            exits = []
            if is_while:
                z0 = self.havoc(st, hv, node, groups=groups)
                exits += zero(z0)
                for e in self.merge(ends_all):
                    exits += zero(self.havoc(e, set(), node))
            else:
                exits += zero(st)
                exits += ends_all
            exits = self.merge(exits)
        finally:
            self.ctx = save
        for x in exits:
            res += self.exec_block(orelse, x) if orelse else [Out("next", x)]
        return res

    def _note_broken(self, st, node):
        st = st.copy()
        st.aux = st.aux + (("broke", getattr(node, "lineno", 0)),) if ("broke", getattr(node, "lineno", 0)) not in st.aux else st.aux
        return st

    def s_While(self, s, st):
        if st.glob:
            return [Out("next", st)]

        if self.policy.unroll_while:
            return self.follow_while(s, st)

        # constant-true loops have no normal exit
        def enter(x):
            return self.branch(s.test, x)[0]

        def zero(x):
            return self.branch(s.test, x)[1]

        return self.abstract_loop(st, s, enter, lambda y: self.exec_block(s.body, y), zero, s.orelse, is_while=True)

    def follow_while(self, s, st):
        """Iteration by iteration, for loops whose course is determined."""
        sts, out, save = [st], [], self.ctx
        for n in range(self.policy.unroll_while):
            self.ctx = save + (("u", n),)
            nxt = []
            for x in sts:
                ts, fs = self.branch(s.test, x)
                for y in fs:
                    self.ctx = save
                    out += self.exec_block(s.orelse, y) if s.orelse else [Out("next", y)]
                    self.ctx = save + (("u", n),)
                for y in ts:
                    for o in self.exec_block(s.body, y):
                        if o.kind in ("next", "continue"):
                            nxt.append(o.st)
                        else:
                            out.append(Out("next", o.st) if o.kind == "break" else o)
            sts = self.merge(nxt)
            if not sts:
                self.ctx = save
                return out
            if len(sts) > self.policy.max_states:
                break
        self.ctx = save
        raise Limit(f"a loop that does not end within {self.policy.unroll_while} rounds at {self.where(s)}")

    # -------------------------------------------------------------- generators
    def run_gen(self, gen, st, body, orelse=None, once=False):
        """Run a generator object's body, executing `body(value, state)` at each yield."""
        o = self.hget(st, gen)
        fn, env = o.data["fn"], o.data["env"]
        consumer_env = st.env
        esc = []

        def cb(val, x):
            genv = x.env
            x = x.copy()
            x.env = consumer_env
            # the consumer body runs in the consumer's frame
            save_stack, save_cb = self.stack, self.yield_cb
            self.stack = caller_stack
            self.yield_cb = caller_cb
            try:
                outs = body(val, x)
            finally:
                self.stack, self.yield_cb = save_stack, save_cb
            back = []
            for q in outs:
                if q.kind in ("next", "continue"):
                    y = q.st.copy()
                    y.env = genv
                    back.append((y, NONE))
                else:
                    esc.append(q)
            return back

        caller_stack, caller_cb = self.stack, self.yield_cb
        x = st.copy()
        x.env = env
        if fn.args[0] in self.stack or len(self.stack) > self.policy.max_depth + 4:
            return [Out("next", st)]
        self.stack = self.stack + [fn.args[0]]
        self.yield_cb = self.yield_cb + [cb]
        self.stats["functions"].add(fn.args[0].qual)
        try:
            outs = self.exec_block(fn.args[0].node.body, x)
        finally:
            self.stack = caller_stack
            self.yield_cb = caller_cb
        res = []
        for q in outs:
            y = q.st.copy()
            y.env = consumer_env
            res += self.exec_block(orelse, y) if orelse else [Out("next", y)]
        for q in esc:
            if q.kind == "break":
                res.append(Out("next", q.st))
            else:
                res.append(q)
        return res

    # ------------------------------------------------------------- expressions
    def ev(self, e, st):
        self.tick()
        m = getattr(self, "e_" + type(e).__name__, None)
        if m is None:
            return [(st, Term("opaque", type(e).__name__, getattr(e, "lineno", 0)))]
        return m(e, st)

    def evs(self, exprs, st):
        """Evaluate a list of expressions left to right → [(state, [vals])]."""
        cur = [(st, [])]
        for e in exprs:
            nx = []
            for x, vs in cur:
                if isinstance(e, ast.Starred):
                    for y, v in self.ev(e.value, x):
                        items = self.items_of(v, y)
                        if items is None:
                            nx.append((y, vs + [Term("star", v)]))
                        else:
                            nx.append((y, vs + items))
                else:
                    for y, v in self.ev(e, x):
                        nx.append((y, vs + [v]))
            cur = nx
        return cur

    def e_Constant(self, e, st):
        return [(st, K(e.value))]

    def e_Name(self, e, st):
        v = self.getvar(st, e.id)
        if v is not None:
            return [(st, v)]
        # module globals of the defining module are the root of the env chain
        if e.id in BUILTIN_FUNCS or _builtin_exc(e.id) is not None:
            if e.id == "__name__":
                return [(st, K(self.cur_module().name))]
            return [(st, Term("ext", e.id))]
        m = self.cur_module()
        if m is not None:
            v = self._static_lookup(m, e.id) if not self._mod_loading(m) else None
            if v is not None:
                return [(st, v)]
        return [(st, Term("unbound", e.id))]

    def _mod_loading(self, m):
        return m.state == "loading"

    def e_JoinedStr(self, e, st):
        cur = [(st, [])]
        for p in e.values:
            nx = []
            for x, vs in cur:
                if isinstance(p, ast.Constant):
                    nx.append((x, vs + [K(p.value)]))
                else:
                    for y, v in self.ev(p.value, x):
                        spec = ""
                        if p.format_spec is not None:
                            for z, sp in self.ev(p.format_spec, y):
                                y = z
                                spec = kval(sp) if is_k(sp) else None
                        if v.op == "k" and spec is not None:
                            try:
                                val = kval(v)
                                if p.conversion == 114:
                                    val = repr(val)
                                elif p.conversion == 115:
                                    val = str(val)
                                nx.append((y, vs + [K(format(val, spec))]))
                                continue
                            except Exception:
                                pass
                        if v.op == "fstr" and spec == "" and p.conversion in (-1, 115):
                            nx.append((y, vs + list(v.args)))
                        else:
                            nx.append((y, vs + [Term("fmt", v, p.conversion, spec)]))
            cur = nx
        out = []
        for x, vs in cur:
            if all(is_k(v) for v in vs):
                out.append((x, K("".join(kval(v) for v in vs))))
            else:
                out.append((x, Term("fstr", *vs)))
        return out

    def e_FormattedValue(self, e, st):
        return self.ev(e.value, st)

    def e_Tuple(self, e, st):
        return [(x, tup(*vs)) for x, vs in self.evs(e.elts, st)]

    def e_List(self, e, st):
        out = []
        for x, vs in self.evs(e.elts, st):
            x = x.copy()
            exact = not any(v.op == "star" for v in vs)
            out.append((x, self.alloc(x, H("list", None, tuple(vs), exact))))
        return out

    def e_Set(self, e, st):
        out = []
        for x, vs in self.evs(e.elts, st):
            x = x.copy()
            exact = not any(v.op == "star" for v in vs)
            out.append((x, self.alloc(x, H("set", None, self.dedupe(x, vs), exact))))
        return out

    def dedupe(self, st, vs):
        seen, out = set(), []
        for v in vs:
            k = self.ckey(st, v)
            key = k if k is not None else v
            if key in seen:
                continue
            seen.add(key)
            out.append(v)
        return tuple(out)

    def e_Dict(self, e, st):
        cur = [(st, (), True, [])]
        for k, v in zip(e.keys, e.values):
            nx = []
            for x, items, exact, spreads in cur:
                if k is None:
                    for y, dv in self.ev(v, x):
                        if dv.op == "ref" and self.hget(y, dv).kind == "dict":
                            o = self.hget(y, dv)
                            acc = H("dict", None, items, True)
                            for kk, vv in o.data:
                                acc = self.dict_set(y, acc, kk, vv)
                            nx.append((y, acc.data, exact and o.exact, spreads))
                        elif dv.op == "ref" and self.hget(y, dv).kind == "inst":
                            nx.append((y, items + ((Term("spread", dv), dv),), False, spreads + [dv]))
                        else:
                            nx.append((y, items + ((Term("spread", dv), dv),), False, spreads + [dv]))
                else:
                    for y, kv in self.ev(k, x):
                        for z, vv in self.ev(v, y):
                            if self.ckey(z, kv) is None:
                                nx.append((z, items + ((kv, vv),), exact, spreads))
                            else:
                                nx.append((z, self.dict_set(z, H("dict", None, items, True), kv, vv).data if len(items) < 600 or self._haskey(z, items, kv) else items + ((kv, vv),), exact, spreads))
            cur = nx
        out = []
        for x, items, exact, spreads in cur:
            x = x.copy()
            out.append((x, self.alloc(x, H("dict", None, tuple(items), exact))))
        return out

    def _haskey(self, st, items, k):
        kk = self.ckey(st, k)
        return any(self.ckey(st, a) == kk for a, _ in items)

    def e_Lambda(self, e, st):
        fn = self.make_fn(e, st)
        return [(st, Term("fn", fn, st.env))]

    def e_IfExp(self, e, st):
        ts, fs = self.branch(e.test, st)
        out = []
        for x in ts:
            out += self.ev(e.body, x)
        for x in fs:
            out += self.ev(e.orelse, x)
        return out

    def e_BoolOp(self, e, st):
        is_and = isinstance(e.op, ast.And)
        cur, out = [st], []
        n = len(e.values)
        for i, sub in enumerate(e.values):
            nx = []
            for x in cur:
                for y, v in self.ev(sub, x):
                    if i == n - 1:
                        out.append((y, v))
                        continue
                    # short-circuit with this value
                    for z in self.assume(y, v, not is_and, sub):
                        tv, pol = self.norm(v)
                        if self._pure_bool(v):
                            out.append((z, FALSE if is_and else TRUE))
                        else:
                            out.append((z, v))
                    nx += self.assume(y, v, is_and, sub)
            cur = nx
        return out

    def _pure_bool(self, v):
        return v.op in ("cmp", "not", "isinstance") or v in (TRUE, FALSE)

    def e_UnaryOp(self, e, st):
        out = []
        for x, v in self.ev(e.operand, st):
            if isinstance(e.op, ast.Not):
                k = self.known(x, v)
                out.append((x, K(not k) if k is not None else Term("not", v)))
            elif v.op == "k":
                try:
                    val = kval(v)
                    val = -val if isinstance(e.op, ast.USub) else (+val if isinstance(e.op, ast.UAdd) else ~val)
                    out.append((x, K(val)))
                except Exception:
                    out.append((x, Term("un", type(e.op).__name__, v)))
            else:
                sym = {"USub": "-", "UAdd": "+", "Invert": "~"}[type(e.op).__name__]
                out.append((x, Term("un", sym, v)))
        return out

    def e_BinOp(self, e, st):
        out = []
        op = type(e.op).__name__
        for x, a in self.ev(e.left, st):
            for y, b in self.ev(e.right, x):
                out += self.binop(op, a, b, y, e)
        return out

    SYM = {
        "Add": "+", "Sub": "-", "Mult": "*", "Div": "/", "FloorDiv": "//", "Mod": "%", "Pow": "**", "LShift": "<<",
        "RShift": ">>", "BitOr": "|", "BitAnd": "&", "BitXor": "^", "MatMult": "@",
    }  # fmt: skip

    @staticmethod
    def percent(form, vals):
        """'...' % values, as the f-string it equals."""
        pieces = re.split(r"(%(?:%|[-#0 +]*\d*(?:\.\d+)?[sdxXrfi]))", form)
        if sum(p.startswith("%") and p != "%%" for p in pieces[1::2]) != len(vals) or any("%" in p for p in pieces[::2]):
            return None
        parts, vals = [], list(vals)
        for i, p in enumerate(pieces):
            if i % 2 == 0 or p == "%%":
                if p:
                    parts.append(K(p.replace("%%", "%")))
                continue
            v, kind, flags = vals.pop(0), p[-1], p[1:-1]
            if v.op == "k":
                try:
                    parts.append(K(p % (kval(v),)))
                    continue
                except Exception:
                    return None
            if v.op == "fstr" and kind == "s" and not flags:
                parts += v.args
            elif kind in "dxXi" and "-" not in flags:
                parts.append(Term("fmt", v, -1, flags + {"i": "d"}.get(kind, kind)))
            else:
                parts.append(Term("fmt", v, 114 if kind == "r" else 115 if kind == "s" else -1, flags + ("f" if kind == "f" else "")))
        if all(is_k(x) for x in parts):
            return K("".join(kval(x) for x in parts))
        return Term("fstr", *parts)

    def binop(self, op, a, b, st, node):
        for exc in self.policy.on_binop(self, self.SYM[op], a, b, st, node):
            self.raise_(st.copy(), self.exc_term(exc, args=(), note=self.where(node)), node)
        if a.op == "k" and b.op == "k":
            x, y = kval(a), kval(b)
            try:
                r = {
                    "Add": lambda: x + y, "Sub": lambda: x - y, "Mult": lambda: x * y, "Div": lambda: x / y,
                    "FloorDiv": lambda: x // y, "Mod": lambda: x % y, "LShift": lambda: x << y if y < 128 else None,
                    "Pow": lambda: x**y if isinstance(y, int) and abs(y) < 64 else None,
                    "RShift": lambda: x >> y, "BitOr": lambda: x | y, "BitAnd": lambda: x & y, "BitXor": lambda: x ^ y,
                }[op]()  # fmt: skip
                if isinstance(r, (int, float, str, bytes, bool)):
                    if not (isinstance(r, (str, bytes)) and len(r) > 4096):
                        return [(st, K(r))]
            except Exception:
                pass
        if op == "Mod" and a.op == "k" and isinstance(kval(a), str):
            r = self.percent(kval(a), list(b.args) if b.op == "tup" else [b])
            if r is not None:
                return [(st, r)]
        if op == "Add":
            ia = self._seq_items(a, st)
            ib = self._seq_items(b, st)
            if ia is not None and ib is not None:
                if a.op == "tup" and b.op == "tup":
                    return [(st, tup(*(ia[0] + ib[0])))]
                if a.op == "ref" and b.op in ("ref", "chain"):
                    st = st.copy()
                    return [(st, self.alloc(st, H("list", None, tuple(ia[0] + ib[0]), ia[1] and ib[1])))]
            if "fstr" in (a.op, b.op) and all(x.op == "fstr" or is_k(x) and isinstance(kval(x), str) for x in (a, b)):
                return [(st, Term("fstr", *(y for x in (a, b) for y in (x.args if x.op == "fstr" else (x,)))))]
        r = self.policy.bin_value(self, self.SYM[op], a, b, st)
        if r is not None:
            return [(st, r)]
        if op == "Mult":
            for x, n in ((a, b), (b, a)):
                if n.op == "k" and type(kval(n)) is int and 0 <= kval(n) <= 1024:
                    if x.op == "tup":
                        return [(st, tup(*(x.args * kval(n))))]
                    if x.op == "ref" and self.hget(st, x).kind == "list" and self.hget(st, x).exact:
                        st = st.copy()
                        return [(st, self.alloc(st, H("list", None, tuple(self.hget(st, x).data) * kval(n))))]
        if op in ("BitOr", "BitAnd", "Sub", "BitXor"):
            sa, sb = self._set_items(a, st), self._set_items(b, st)
            if sa is not None and sb is not None:
                ka = {self.ckey(st, x): x for x in sa}
                kb = {self.ckey(st, x): x for x in sb}
                if None not in ka and None not in kb:
                    if op == "BitOr":
                        ks = {**ka, **kb}
                    elif op == "BitAnd":
                        ks = {k: v for k, v in ka.items() if k in kb}
                    elif op == "Sub":
                        ks = {k: v for k, v in ka.items() if k not in kb}
                    else:
                        ks = {k: v for k, v in {**ka, **kb}.items() if (k in ka) != (k in kb)}
                    st = st.copy()
                    return [(st, self.alloc(st, H("set", None, tuple(ks.values()), True, "frozen")))]
            if op == "BitOr" and a.op == "ref" and b.op == "ref":
                oa, ob = self.hget(st, a), self.hget(st, b)
                if oa.kind == "dict" and ob.kind == "dict":
                    acc = oa
                    for k, v in ob.data:
                        acc = self.dict_set(st, acc, k, v)
                    st = st.copy()
                    return [(st, self.alloc(st, H("dict", None, acc.data, oa.exact and ob.exact)))]
            ka, kb = self.kset_of(a, st), self.kset_of(b, st)
            if ka is not None:
                a = Term("kset", ka)
            if kb is not None:
                b = Term("kset", kb)
        if op == "BitOr" and all(x.op in ("cls", "ext", "or") or x == NONE for x in (a, b)):
            parts = []
            for x in (a, b):
                parts += list(x.args) if x.op == "or" else [x]
            return [(st, Term("or", *parts))]
        # arithmetic simplification
        if op == "Add" and b == K(0):
            return [(st, a)]
        if op == "Add" and a == K(0):
            return [(st, b)]
        if op == "Sub" and b == K(0):
            return [(st, a)]
        if op == "Sub" and (c := self.difference(a, b)) is not None:
            return [(st, K(c))]
        if op == "Mult" and b == K(1):
            return [(st, a)]
        # (x + c1) + c2
        if op in ("Add", "Sub") and b.op == "k" and isinstance(kval(b), int) and a.op == "bin" and a.args[0] in ("+", "-") \
                and a.args[2].op == "k" and isinstance(kval(a.args[2]), int):
            c = (kval(a.args[2]) if a.args[0] == "+" else -kval(a.args[2])) + (kval(b) if op == "Add" else -kval(b))
            if c == 0:
                return [(st, a.args[1])]
            return [(st, Term("bin", "+" if c > 0 else "-", a.args[1], K(abs(c))))]
        if op == "Add" and a.op == "k" and isinstance(kval(a), int) and b.op != "k":
            a, b = b, a
            return self.binop("Add", a, b, st, node) if not isinstance(kval(b), str) else [(st, Term("bin", "+", a, b))]
        if op == "Mult" and a.op == "k" and b.op != "k" and isinstance(kval(a), (int, float)):
            a, b = b, a
        return [(st, Term("bin", self.SYM[op], a, b))]

    def number(self, t, d=0):
        """Is this value certainly a number?"""
        if t.op == "k":
            return isinstance(kval(t), (int, float))
        if t.op == "bin" and t.args[0] in ("+", "-", "*", "//", "<<", ">>", "|", "&") and d < 6:
            return all(self.number(x, d + 1) for x in t.args[1:])
        return self.types.get(t) in (("ext", "int"), ("ext", "float"))

    def difference(self, a, b):
        """a - b when it is a known integer whatever the unknowns are."""
        def split(t):
            if t.op == "bin" and t.args[0] in ("+", "-") and t.args[2].op == "k" and isinstance(kval(t.args[2]), int):
                x, c = split(t.args[1])
                return x, c + (kval(t.args[2]) if t.args[0] == "+" else -kval(t.args[2]))
            return t, 0

        (x, c), (y, e) = split(a), split(b)
        return c - e if x == y and x.op != "k" and self.number(x) else None

    def _seq_items(self, v, st):
        if v.op == "tup":
            return list(v.args), True
        if v.op == "ref":
            o = self.hget(st, v)
            if o.kind == "list":
                return list(o.data), o.exact
        if v.op == "chain":
            return [Term("star", v)], False
        return None

    def _set_items(self, v, st):
        if v.op == "ref":
            o = self.hget(st, v)
            if o.kind == "set" and o.exact:
                return list(o.data)
        if v.op == "kset":
            return sorted(v.args[0], key=repr)
        if v.op == "view" and v.args[1] == "keys":
            return self._set_items(v.args[0], st) if v.args[0].op == "ref" and self.hget(st, v.args[0]).kind == "set" else (
                [k for k, _ in self.hget(st, v.args[0]).data]
                if v.args[0].op == "ref" and self.hget(st, v.args[0]).kind == "dict" and self.hget(st, v.args[0]).exact
                else None
            )
        return None

    def kset_of(self, v, st):
        if v.op == "kset":
            return v.args[0]
        items = None
        if v.op == "ref":
            o = self.hget(st, v)
            if o.kind in ("set", "list", "dict") and o.exact:
                items = [k for k, _ in o.data] if o.kind == "dict" else list(o.data)
        elif v.op in ("tup", "range"):
            items = self.items_of(v, st)
        elif v.op == "view" and v.args[1] == "keys":
            return self.kset_of(v.args[0], st)
        elif v.op == "chain":
            return self.kset_of(v.args[0], st)
        elif v.op == "cls" and v.args[0].is_enum:
            items = self.items_of(v, st)
        if items is None:
            return None
        if all(x.op in ("k", "enum") for x in items):
            return frozenset(items)
        # structural (e.g. register objects): only when all keys are known
        if all(self.ckey(st, x) is not None for x in items):
            return frozenset(items)
        return None

    def e_Compare(self, e, st):
        left = e.left
        out = []
        if len(e.ops) == 1:
            for x, a in self.ev(left, st):
                for y, b in self.ev(e.comparators[0], x):
                    t = self.cmp(type(e.ops[0]).__name__, a, b, y)
                    k = self.known(y, t)
                    out.append((y, K(k) if k is not None else t))
            return out
        ts, fs = self.branch(e, st)
        return [(x, TRUE) for x in ts] + [(x, FALSE) for x in fs]

    def cmp(self, op, a, b, st):
        if op in ("In", "NotIn"):
            ks = self.kset_of(b, st)
            if ks is not None:
                b = Term("kset", ks)
            elif b.op == "view" and b.args[1] == "keys":
                b = b.args[0]
            elif b.op == "tup" or (b.op == "ref" and self.hget(st, b).kind in ("list", "set") and self.hget(st, b).exact):
                items = self.items_of(b, st)
                parts = [self.cmp("Is" if i in (NONE,) else "Eq", i, a, st) for i in items]
                t = Term("or", *parts) if parts else FALSE
                return t if op == "In" else Term("not", t)
            t = Term("cmp", "in", a, b)
            if b.op == "kset" and a.op == "ref":
                k = self.ckey(st, a)
                if k is not None:
                    t = K(any(self.ckey(st, x) == k for x in b.args[0]))
            elif b.op == "k" and a.op == "k":
                r = self._kcmp("in", kval(a), kval(b))
                if r is not None:
                    t = K(r)
            return t if op == "In" else Term("not", t)
        neg = op in ("NotEq", "IsNot")
        if op in ("Eq", "NotEq"):
            # equality on repo classes with __eq__ is structural
            t = Term("cmp", "eq", a, b)
            for p, q in ((a, b), (b, a)):
                if q.op == "ref" and self.hget(st, q).kind in ("list", "dict", "set") and not self.hget(st, q).data and self.hget(st, q).exact:
                    t = Term("not", p)
        elif op in ("Is", "IsNot"):
            t = Term("cmp", "is", a, b)
            if a == b:
                t = TRUE
            elif a.op in ("ref", "cls", "fn", "enum") and b.op in ("ref", "cls", "fn", "enum"):
                t = FALSE
        elif op == "Lt":
            t = Term("cmp", "lt", a, b)
        elif op == "Gt":
            t = Term("cmp", "lt", b, a)
        elif op == "LtE":
            t = Term("cmp", "le", a, b)
        else:
            t = Term("cmp", "le", b, a)
        return Term("not", t) if neg else t

    def e_NamedExpr(self, e, st):
        out = []
        for x, v in self.ev(e.value, st):
            # comprehension scopes share our env, which is what we want
            out.append((self.setvar(x, e.target.id, v), v))
        return out

    def e_Await(self, e, st):
        out = []
        for x, v in self.ev(e.value, st):
            if v.op == "awaited":
                out.append((x, v.args[0]))
                continue
            if v.op == "ref" and self.hget(x, v).kind == "coro":
                out += self.run_coro(v, x, e)
                continue
            if v.op not in ("call",):
                # value of an inlined coroutine: no suspension of our own modelled
                y = self.policy.on_await(self, v, x, e)
                if y is not None:
                    out.append((y, v if v.op in ("k", "ref", "tup") else Term("await", v)))
                continue
            y = x.copy()
            y.epoch += 1
            y = self.policy.on_await(self, v, y, e)
            if y is not None:
                out.append((y, v))
        return out

    def run_coro(self, v, st, node):
        o = self.hget(st, v)
        return self.call_fn(o.data["fn"], o.data["args"], o.data["kw"], st, node, env=o.extra, await_now=True)

    def e_Yield(self, e, st):
        out = []
        vals = self.ev(e.value, st) if e.value is not None else [(st, NONE)]
        for x, v in vals:
            if self.yield_cb:
                out += self.yield_cb[-1](v, x)
            else:
                x = x.emit("yield", v, self.where(e)) if not x.glob else x
                out.append((x, Term("sent", self.uid(e))))
        return out

    def e_YieldFrom(self, e, st):
        out = []
        for x, v in self.ev(e.value, st):
            kind, items = self.iter_kind(v, x)
            if kind == "gen":
                outs = self.run_gen(v, x, lambda val, y: [Out("next", z) for z, _ in (self.yield_cb[-1](val, y) if self.yield_cb else [(y, NONE)])])
                out += [(o.st, NONE) for o in outs]
            elif kind in ("exact", "some"):
                cur = [x]
                for it in items:
                    if self.yield_cb:
                        cur = [z for y in cur for z, _ in self.yield_cb[-1](it, y)]
                out += [(y, NONE) for y in cur]
            else:
                if self.yield_cb:
                    out += self.yield_cb[-1](items, x)
                else:
                    out.append((x, NONE))
        return out

    def e_Starred(self, e, st):
        return self.ev(e.value, st)

    def e_Slice(self, e, st):
        return self.ev_slice(e, st)

    def ev_slice(self, s, st):
        if isinstance(s, ast.Slice):
            parts = [s.lower, s.upper, s.step]
            cur = [(st, [])]
            for p in parts:
                nx = []
                for x, vs in cur:
                    if p is None:
                        nx.append((x, vs + [NONE]))
                    else:
                        for y, v in self.ev(p, x):
                            nx.append((y, vs + [v]))
                cur = nx
            return [(x, Term("sl", *vs)) for x, vs in cur]
        return self.ev(s, st)

    def e_Subscript(self, e, st):
        out = []
        for x, base in self.ev(e.value, st):
            for y, key in self.ev_slice(e.slice, x):
                out += self.load_item(base, key, y, e)
        return out

    def load_item(self, base, key, st, node):
        r = self.policy.on_load_item(self, base, key, st, node)
        if r is not None:
            return r
        if base.op in ("ext", "cls") and key.op != "sl":
            if base.op == "cls" and base.args[0].is_enum and key.op == "k":
                if kval(key) in base.args[0].attrs:
                    return [(st, base.args[0].attrs[kval(key)])]
                if base.args[0].enum_members:
                    self.raise_(st.copy(), self.exc_term("KeyError", note=self.where(node)), node)
                    return []
            return [(st, Term("idx", base, key) if base.op == "cls" and base.args[0].is_enum else base)]
        if base.op == "view" and base.args[1] == "members" and key.op == "k" and base.args[0].op == "cls":
            return self.load_item(base.args[0], key, st, node)
        if key.op == "sl":
            lo, hi, step = key.args
            items = None
            if base.op == "tup" or (base.op == "ref" and self.hget(st, base).kind == "list" and self.hget(st, base).exact):
                items = self.items_of(base, st)
            if items is not None and all(is_k(x) for x in key.args):
                sl = items[kval(lo):kval(hi):kval(step)]
                if base.op == "tup":
                    return [(st, tup(*sl))]
                st = st.copy()
                return [(st, self.alloc(st, H("list", None, tuple(sl))))]
            if base.op == "k" and isinstance(kval(base), (str, bytes)) and all(is_k(x) for x in key.args):
                try:
                    return [(st, K(kval(base)[kval(lo):kval(hi):kval(step)]))]
                except Exception:
                    pass
            if lo == K(0):
                lo = NONE
            if lo == NONE and hi == NONE and step == NONE:
                return [(st, base)]
            t = Term("slice", base, lo, hi, step)
            ty = self.typeof(st, base)
            if ty is not None:
                self.types.setdefault(t, ty)
            return [(st, t)]
        if base.op == "tup" and key.op == "k" and isinstance(kval(key), int):
            try:
                return [(st, base.args[kval(key)])]
            except IndexError:
                self.raise_(st, self.exc_term("IndexError"), node)
                return []
        if base.op == "k" and key.op == "k":
            try:
                return [(st, K(kval(base)[kval(key)]))]
            except Exception:
                pass
        if key.op != "k" and not st.glob and (
            base.op == "tup" or (base.op == "ref" and self.hget(st, base).kind == "list" and self.hget(st, base).exact)
        ):
            ks = self.finite(st, key)
            if ks is not None:
                out = []
                for kk in ks:
                    for x in self.assume(st, Term("cmp", "eq", key, kk), True, node):
                        out += self.load_item(base, kk, x, node)
                return out
        if base.op == "ref":
            o = self.hget(st, base)
            if o.kind == "list" and key.op == "k" and isinstance(kval(key), int) and o.exact:
                try:
                    return [(st, o.data[kval(key)])]
                except IndexError:
                    self.raise_(st, self.exc_term("IndexError"), node)
                    return []
            if o.kind == "dict":
                return self.dict_get(st, base, o, key, None, node, strict=True)
            if o.kind == "inst":
                for k, v in reversed(o.data.get("$items", ())):
                    if k == key:
                        return [(st, v)]
                    if self.ckey(st, k) is None or self.ckey(st, key) is None:
                        break
        ov = st.h.get(base)
        if ov is not None and ("item", key) in ov.data:
            return [(st, ov.data[("item", key)])]
        ty = self.typeof(st, base)
        if ty and ty[0] == "cls":
            gi = self.method(ty[1], "__getitem__")
            if gi is not None:
                return self.call_fn(gi, [base, key], {}, st, node)
        t = Term("idx", base, key)
        if ty is not None:
            if ty[0] == "list" and ty[1] is not None:
                self.types.setdefault(t, ty[1])
            elif ty[0] == "dict" and ty[2] is not None:
                self.types.setdefault(t, ty[2])
            elif ty[0] == "tuple" and key.op == "k" and isinstance(kval(key), int) and -len(ty[1]) <= kval(key) < len(ty[1]) and ty[1][kval(key)] is not None:
                self.types.setdefault(t, ty[1][kval(key)])
        for exc in self.policy.may_raise(self, Term("getitem"), [base, key], {}, st, node):
            self.raise_(st.copy(), self.exc_term(exc, note=self.where(node)), node)
        return [(st, t)]

    def dict_get(self, st, ref, o, key, default, node, strict=False):
        k = self.ckey(st, key)
        if k is not None:
            hit = None
            unknown = False
            for a, b in o.data:
                if a.op == "spread":
                    unknown = True
                    hit = None
                    continue
                ka = self.ckey(st, a)
                if ka is None:
                    if a == key:
                        hit = b
                    else:
                        unknown = True
                elif ka == k or (ka[0] == "k" and k[0] == "k" and ka[2] == k[2]):
                    hit = b
            if hit is not None and not unknown:
                return [(st, hit)]
            if hit is None and o.exact and not unknown:
                if strict:
                    if o.extra == "defaultdict":
                        return [(st, Term("idx", ref, key))]
                    if o.extra == "zeros":
                        st = st.copy()
                        self.hset(st, ref, self.dict_set(st, o, key, K(0)))
                        return [(st, K(0))]
                    self.raise_(st, self.exc_term("KeyError"), node)
                    return []
                return [(st, default if default is not None else NONE)]
            if hit is not None:
                return [(st, hit)]
            t = Term("idx", ref, key) if strict else Term("dget", ref, key, default or NONE)
            return [(st, t)]
        for a, b in o.data:
            if a == key:
                return [(st, b)]
        # unknown key over a known table: fork over the entries when small
        ks = self.kset_of(ref, st)
        if ks is not None and o.exact and 0 < len(o.data) <= 40:
            out = []
            for a, b in o.data:
                for x in self.assume(st, Term("cmp", "eq", key, a), True, node):
                    out.append((x, b))
            for x in self.assume(st, Term("cmp", "in", key, Term("kset", ks)), False, node):
                if strict:
                    self.raise_(x, self.exc_term("KeyError"), node)
                else:
                    out.append((x, default if default is not None else NONE))
            return out
        if strict:
            if self.policy_dict_keyerror(o):
                self.raise_(st.copy(), self.exc_term("KeyError"), node)
            return [(st, Term("idx", ref, key))]
        return [(st, Term("dget", ref, key, default if default is not None else NONE))]

    def policy_dict_keyerror(self, o):
        return getattr(self.policy, "dict_keyerror", False)

    # comprehension ---------------------------------------------------------
    def comp(self, e, st, kind):
        """Evaluate a comprehension into a new container."""
        x = st.copy()
        outer_env = x.env
        ref = self.alloc(x, H("list" if kind != "dict" else "dict", None, (), True))

        def gen(i, y):
            if i == len(e.generators):
                if kind == "dict":
                    outs = []
                    for z, k in self.ev(e.key, y):
                        for w, v in self.ev(e.value, z):
                            w = w.copy()
                            o = self.hget(w, ref)
                            if self.ckey(w, k) is None:
                                self.hset(w, ref, o.but(data=o.data + ((k, v),), exact=o.exact))
                            elif len(o.data) > 600:
                                self.hset(w, ref, o.but(data=o.data + ((k, v),)))
                            else:
                                self.hset(w, ref, self.dict_set(w, o, k, v))
                            outs.append(Out("next", w))
                    return outs
                outs = []
                for z, v in self.ev(e.elt, y):
                    z = z.copy()
                    o = self.hget(z, ref)
                    self.hset(z, ref, o.but(data=o.data + (v,)))
                    outs.append(Out("next", z))
                return outs
            g = e.generators[i]
            outs = []
            for z, it in self.ev(g.iter, y):
                def body(w):
                    cur = [w]
                    skip = []
                    for cond in g.ifs:
                        nx = []
                        for q in cur:
                            t, f = self.branch(cond, q)
                            nx += t
                            skip += f
                        cur = nx
                    r = [Out("next", q) for q in skip]
                    for q in cur:
                        r += gen(i + 1, q)
                    return r
                outs += self.loop_over(it, z, e, lambda item, w: self.assign(g.target, item, w), body, None)
            return outs

        res = []
        finals = gen(0, x)
        for o in finals:
            s2 = o.st
            s2 = s2.copy()
            h = self.hget(s2, ref)
            if kind == "set":
                self.hset(s2, ref, H("set", None, self.dedupe(s2, h.data), h.exact))
            res.append((s2, ref))
        return res

    def e_ListComp(self, e, st):
        return self.comp(e, st, "list")

    def e_SetComp(self, e, st):
        return self.comp(e, st, "set")

    def e_DictComp(self, e, st):
        return self.comp(e, st, "dict")

    def e_GeneratorExp(self, e, st):
        return self.comp(e, st, "list")

    # attributes --------------------------------------------------------------
    def e_Attribute(self, e, st):
        out = []
        for x, base in self.ev(e.value, st):
            out += self.load_attr(base, e.attr, x, e)
        return out

    def load_attr(self, base, name, st, node):
        op = base.op
        if op == "mod":
            return [(st, self.modattr(base.args[0], name))]
        if op == "ext":
            n = f"{base.args[0]}.{name}"
            if n.startswith("typing.TYPE_CHECKING"):
                return [(st, FALSE)]
            return [(st, Term("ext", n))]
        if op == "cls":
            return [(st, self.class_attr(base.args[0], name, st))]
        if op == "enum":
            if name == "name":
                return [(st, K(base.args[1]))]
            if name == "value":
                v = self.enum_value(base)
                return [(st, v if v is not None else Term("attr", base, "value", 0))]
            ci = base.args[0]
            return self.inst_attr(base, ci, name, st, node, exact=True)
        if op == "super":
            ci, selfv, start = base.args
            mro = ci.mro()
            i = mro.index(start) + 1 if start in mro else 0
            for c in mro[i:]:
                if isinstance(c, str):
                    continue
                if name in c.props and c.props[name].get("get"):
                    return self.call_fn(c.props[name]["get"], [selfv], {}, st, node)
                if name in c.attrs:
                    v = c.attrs[name]
                    return [(st, self.bind(v, selfv, ci))]
            return [(st, Term("extsuper", base, name))]
        if op == "ref":
            o = self.hget(st, base)
            if o.kind == "inst":
                if name in o.data:
                    return [(st, o.data[name])]
                if o.cls is not None:
                    return self.inst_attr(base, o.cls, name, st, node, exact=True)
                return [(st, Term("attr", base, name, 0))]
            return [(st, Term("meth", base, name))]
        if op == "exc":
            # attributes of a known exception object
            for k, v in base.args[2] if base.args[2] and isinstance(base.args[2][0], tuple) else ():
                if k == name:
                    return [(st, v)]
            return [(st, Term("attr", base, name, 0))]
        if op == "prop":
            return [(st, Term("attr", base, name, 0))]
        ov = st.h.get(base)
        if ov is not None and name in ov.data:
            return [(st, ov.data[name])]
        ty = self.typeof(st, base)
        if ty is not None and ty[0] == "cls":
            return self.inst_attr(base, ty[1], name, st, node, exact=False)
        if op == "k" and isinstance(kval(base), (str, bytes, int)):
            return [(st, Term("meth", base, name))]
        if op in ("tup", "kset", "range", "view", "chain"):
            return [(st, Term("meth", base, name))]
        t = Term("attr", base, name, 0)
        return [(st, t)]

    def class_attr(self, ci, name, st):
        if name == "__name__":
            return K(ci.name)
        if name == "__mro__":
            return tup(*[Term("cls", c) if isinstance(c, ClassInfo) else Term("ext", c) for c in ci.mro()])
        if name == "__members__" and ci.is_enum:
            x = st
            return Term("view", Term("cls", ci), "members")
        c, v = ci.lookup(name)
        if v is not None:
            if v.op == "fn" and v.args[0].kind == "class":
                return Term("bm", v, Term("cls", ci))
            return v
        return Term("attr", Term("cls", ci), name, 0)

    def bind(self, v, selfv, ci):
        if v.op == "fn":
            k = v.args[0].kind
            if k == "static":
                return v
            if k == "class":
                return Term("bm", v, Term("cls", ci))
            return Term("bm", v, selfv)
        return v

    def subclasses(self, ci):
        return [c for c in self.classes.values() if ci in c.mro()]

    def inst_attr(self, base, ci, name, st, node, exact):
        impls = []
        classes = [ci] if exact else ([ci] + [c for c in self.subclasses(ci) if c is not ci])
        if not exact:
            # narrow by negative isinstance facts? keep simple
            pass
        seen = []
        for c in classes:
            for k in c.repo_mro():
                if name in k.props:
                    p = k.props[name].get("get")
                    if p is not None and ("prop", p) not in seen:
                        seen.append(("prop", p))
                    break
                if name in k.attrs:
                    v = k.attrs[name]
                    if v.op == "fn":
                        if ("fn", v) not in seen:
                            seen.append(("fn", v))
                    elif ("val", v) not in seen:
                        seen.append(("val", v))
                    break
        if not exact and len(seen) > 1 and seen:
            # class itself abstract: prefer the declared class's implementation if it is the only repo one
            kinds = {k for k, _ in seen}
            if kinds == {"fn"}:
                fns = [v.args[0] for _, v in seen]
                chosen = self.policy.poly(self, ci, name, fns, st)
                if chosen is not None and len(chosen) == 1:
                    v = next(v for _, v in seen if v.args[0] is chosen[0])
                    return [(st, self.bind(v, base, ci))]
                if chosen is not None:
                    return [(st, Term("poly", base, name, tuple(Term("fn", f, None) for f in chosen)))]
                return [(st, Term("meth", base, name))]
            if kinds == {"prop"}:
                fns = [p for _, p in seen]
                chosen = self.policy.poly(self, ci, name, fns, st)
                if chosen is not None and len(chosen) >= 1:
                    out = []
                    for f in chosen:
                        out += self.call_fn(f, [base], {}, st, node)
                    return out
            return self.plain_attr(base, ci, name, st)
        if seen:
            kind, v = seen[0]
            if kind == "prop":
                fn = v
                if self.policy.inline(fn, self, st) and fn not in self.stack and len(self.stack) < self.policy.max_depth + 4:
                    return self.call_fn(fn, [base], {}, st, node)
                t = Term("attr", base, name, 0)
                self.note_ret_type(t, fn)
                return [(st, t)]
            if kind == "fn":
                return [(st, self.bind(v, base, ci))]
            # class-level value
            mutable, init_only = self.prog.assigned_attr_names()
            decl_cls, _ = ci.lookup(name)
            is_field = (
                (decl_cls is not None and name in decl_cls.annotations and not self._classvar(decl_cls.annotations[name]))
                and (ci.is_pydantic or ci.is_dataclass or ci.is_namedtuple)
            )
            if exact and base.op == "ref" and not is_field:
                return [(st, v)]
            if name in mutable or name in init_only or is_field:
                return self.plain_attr(base, ci, name, st)
            return [(st, v)]
        if name == "__class__":
            return [(st, Term("cls", ci) if exact else Term("attr", base, "__class__", 0))]
        if name == "__dict__":
            return [(st, Term("attr", base, "__dict__", st.epoch))]
        ga = self.method(ci, "__getattr__")
        if ga is not None and not self.declared_attr(ci, name) and self.policy.inline(ga, self, st):
            return self.call_fn(ga, [base, K(name)], {}, st, node)
        return self.plain_attr(base, ci, name, st)

    def declared_attr(self, ci, name):
        if ci.annotation(name)[1] is not None:
            return True
        return self.attr_type(ci, name) is not None

    def _classvar(self, ann):
        return "ClassVar" in ast.dump(ann)

    def plain_attr(self, base, ci, name, st):
        mutable, _ = self.prog.assigned_attr_names()
        t = Term("attr", base, name, st.epoch if name in mutable and getattr(self.policy, "epochs", True) else 0)
        if t not in self.types:
            ty = self.attr_type(ci, name)
            if ty is not None:
                self.types[t] = ty
        return [(st, t)]

    # types ---------------------------------------------------------------------
    def typeof(self, st, t, facts=True):
        if facts:
            best = None
            for f, b in st.facts.items():
                if b and f.op == "isinstance" and f.args[0] == t and f.args[1].op in ("cls", "ext"):
                    ty = (f.args[1].op, f.args[1].args[0])
                    if best is None or (ty[0] == "cls" and best[0] == "cls" and ty[1].is_subclass(best[1])):
                        best = ty
            if best is not None:
                return best
        if t.op == "ref":
            o = self.hget(st, t)
            if o is not None and o.kind == "inst" and o.cls is not None:
                return ("cls", o.cls)
            if o is not None and o.kind in ("list", "dict", "set"):
                return None
        if t.op == "enum":
            return ("cls", t.args[0])
        ty = self.types.get(t)
        if ty is not None:
            return ty
        if t.op == "attr":
            bt = self.typeof(st, t.args[0])
            if bt and bt[0] == "cls":
                return self.attr_type(bt[1], t.args[1])
        if t.op == "elem":
            return self.elem_type(st, t.args[0])
        if t.op in ("chain",):
            return self.typeof(st, t.args[0])
        if t.op == "await":
            return self.typeof(st, t.args[0])
        if t.op == "fstr":
            return ("ext", "str")
        return None

    def elem_type(self, st, it):
        it = self.iter_base(it)
        ty = self.typeof(st, it)
        if ty is None:
            return None
        if ty[0] in ("list", "set"):
            return ty[1]
        if ty[0] == "dict":
            return ty[1]
        if ty[0] == "tuple" and ty[1]:
            return ty[1][0]
        return None

    def attr_type(self, ci, name):
        key = (ci.qual, name)
        if key in self._attr_ty_cache:
            return self._attr_ty_cache[key]
        self._attr_ty_cache[key] = None
        r = None
        c, ann = ci.annotation(name)
        if ann is not None:
            r = self.resolve_ann(ann, c.module)
        if r is None:
            for c in ci.repo_mro():
                for fn in c.node.body:
                    if not isinstance(fn, (ast.FunctionDef, ast.AsyncFunctionDef)):
                        continue
                    pann = {a.arg: a.annotation for a in fn.args.args + fn.args.kwonlyargs}
                    for n in ast.walk(fn):
                        if isinstance(n, ast.AnnAssign) and isinstance(n.target, ast.Attribute) and n.target.attr == name \
                                and isinstance(n.target.value, ast.Name) and n.target.value.id == "self":
                            r = self.resolve_ann(n.annotation, c.module)
                        elif isinstance(n, ast.Assign) and r is None:
                            for t in n.targets:
                                if isinstance(t, ast.Attribute) and t.attr == name and isinstance(t.value, ast.Name) and t.value.id == "self":
                                    v = n.value
                                    if isinstance(v, ast.IfExp):
                                        v = v.body
                                    if isinstance(v, ast.Name) and pann.get(v.id) is not None:
                                        r = self.resolve_ann(pann[v.id], c.module)
                                    elif isinstance(v, ast.Call) and isinstance(v.func, ast.Name):
                                        m = c.module
                                        vv = self.G[m.env].data.get(v.func.id) if m.env else None
                                        if vv is not None and vv.op == "cls":
                                            r = ("cls", vv.args[0])
                                        elif vv is not None and vv.op == "ext":
                                            r = ("ext", vv.args[0])
                        if r is not None:
                            break
                    if r is not None:
                        break
                if r is not None:
                    break
        self._attr_ty_cache[key] = r
        return r

    def resolve_ann(self, ann, module):
        if ann is None:
            return None
        if isinstance(ann, ast.Constant):
            if isinstance(ann.value, str):
                try:
                    return self.resolve_ann(ast.parse(ann.value, mode="eval").body, module)
                except SyntaxError:
                    return None
            return None
        if isinstance(ann, ast.BinOp) and isinstance(ann.op, ast.BitOr):
            parts = [ann.left, ann.right]
            tys = []
            for p in parts:
                if isinstance(p, ast.Constant) and p.value is None:
                    continue
                tys.append(self.resolve_ann(p, module))
            if len(tys) == 1:
                return tys[0]
            if tys and all(t == tys[0] for t in tys):
                return tys[0]
            return ("union", tuple(tys))
        if isinstance(ann, ast.Subscript):
            head = ann.value
            hn = head.attr if isinstance(head, ast.Attribute) else getattr(head, "id", "")
            sl = ann.slice
            args = sl.elts if isinstance(sl, ast.Tuple) else [sl]
            if hn in ("Optional",):
                return self.resolve_ann(args[0], module)
            if hn == "Union":
                tys = [self.resolve_ann(a, module) for a in args if not (isinstance(a, ast.Constant) and a.value is None)]
                return tys[0] if len(tys) == 1 else ("union", tuple(tys))
            if hn in ("list", "List", "Sequence", "Iterable", "Iterator", "AsyncIterator", "Generator", "AsyncGenerator", "Collection", "deque"):
                return ("list", self.resolve_ann(args[0], module))
            if hn in ("set", "Set", "frozenset", "FrozenSet"):
                return ("set", self.resolve_ann(args[0], module))
            if hn in ("dict", "Dict", "defaultdict", "Mapping", "DefaultDict", "MutableMapping"):
                return ("dict", self.resolve_ann(args[0], module), self.resolve_ann(args[1], module) if len(args) > 1 else None)
            if hn in ("tuple", "Tuple"):
                return ("tuple", tuple(self.resolve_ann(a, module) for a in args))
            if hn in ("type", "Type"):
                return ("type", self.resolve_ann(args[0], module))
            if hn in ("ClassVar", "Final", "Annotated"):
                return self.resolve_ann(args[0], module)
            return self.resolve_ann(head, module)
        v = None
        if isinstance(ann, ast.Name):
            if module.env is not None:
                v = self.G[module.env].data.get(ann.id)
            if v is None:
                if ann.id in BUILTIN_FUNCS or _builtin_exc(ann.id) is not None:
                    return ("ext", ann.id)
                v = self._static_lookup(module, ann.id)
        elif isinstance(ann, ast.Attribute):
            base = None
            if isinstance(ann.value, ast.Name) and module.env is not None:
                base = self.G[module.env].data.get(ann.value.id)
                if base is None:
                    base = self._static_lookup(module, ann.value.id)
            if base is not None:
                if base.op == "mod":
                    v = self.modattr(base.args[0], ann.attr)
                elif base.op == "ext":
                    v = Term("ext", f"{base.args[0]}.{ann.attr}")
                elif base.op == "cls":
                    v = base.args[0].attrs.get(ann.attr)
        if v is None:
            return None
        if v.op in ("cls", "ext"):
            return (v.op, v.args[0])
        if v.op == "or":
            pass
        return None

    def note_ret_type(self, t, fn):
        if t not in self.types and not isinstance(fn.node, ast.Lambda) and fn.node.returns is not None:
            ty = self.resolve_ann(fn.node.returns, fn.module)
            if ty is not None:
                self.types[t] = ty

    # calls ------------------------------------------------------------------------
    def uid(self, node):
        return (getattr(node, "lineno", 0), getattr(node, "col_offset", 0), self.ctx)

    def e_Call(self, e, st):
        if self.policy.skip_call(self, e, st):
            return [(st, NONE)]
        # super()
        if isinstance(e.func, ast.Name) and e.func.id == "super" and self.getvar(st, "super") is None:
            return [(st, self.make_super(e, st))]
        if isinstance(e.func, ast.Name) and e.func.id in ("any", "all") and len(e.args) == 1 and isinstance(
            e.args[0], (ast.GeneratorExp, ast.ListComp)
        ) and self.getvar(st, e.func.id) is None:
            return self.any_all(e, st)
        if isinstance(e.func, ast.Name) and e.func.id == "next" and e.args and isinstance(e.args[0], ast.GeneratorExp) \
                and self.getvar(st, "next") is None:
            return self.next_gen(e, st)
        out = []
        for x, f in self.ev(e.func, st):
            for y, args in self.evs(e.args, x):
                cur = [(y, {})]
                for kw in e.keywords:
                    nx = []
                    for z, d in cur:
                        for w, v in self.ev(kw.value, z):
                            if kw.arg is None:
                                d2 = dict(d)
                                if v.op == "ref" and self.hget(w, v).kind == "dict":
                                    o = self.hget(w, v)
                                    for a, b in o.data:
                                        if a.op == "k":
                                            d2[kval(a)] = b
                                    if not o.exact:
                                        d2["**"] = v
                                else:
                                    d2["**"] = v
                                nx.append((w, d2))
                            else:
                                nx.append((w, {**d, kw.arg: v}))
                    cur = nx
                for z, kwargs in cur:
                    out += self.call(f, args, kwargs, z, e)
        return out

    def make_super(self, e, st):
        fn = None
        for f in reversed(self.stack):
            if f.cls is not None:
                fn = f
                break
        if fn is None:
            return Term("opaque", "super")
        # first parameter of the frame
        a = fn.node.args
        ps = a.posonlyargs + a.args
        if not ps:
            return Term("opaque", "super")
        sv = self.getvar(st, ps[0].arg)
        ci = fn.cls
        if sv is not None:
            if sv.op == "ref":
                o = self.hget(st, sv)
                if o.kind == "inst" and o.cls is not None:
                    ci = o.cls
            elif sv.op == "cls":
                ci = sv.args[0]
            else:
                ty = self.typeof(st, sv)
                if ty and ty[0] == "cls" and ty[1].is_subclass(fn.cls):
                    ci = ty[1]
        return Term("super", ci, sv if sv is not None else Term("opaque", "self"), fn.cls)

    def any_all(self, e, st):
        is_any = e.func.id == "any"
        comp = e.args[0]
        elt = comp.elt
        res = []

        def gen(i, y):
            """Outcomes: ('return', st, K) when decided, ('next') otherwise."""
            if i == len(comp.generators):
                outs = []
                t, f = self.branch(elt, y)
                hit, miss = (t, f) if is_any else (f, t)
                outs += [Out("return", z, TRUE if is_any else FALSE) for z in hit]
                outs += [Out("next", z) for z in miss]
                return outs
            g = comp.generators[i]
            outs = []
            for z, it in self.ev(g.iter, y):
                def body(w):
                    cur, skip = [w], []
                    for cond in g.ifs:
                        nx = []
                        for q in cur:
                            t, f = self.branch(cond, q)
                            nx += t
                            skip += f
                        cur = nx
                    r = [Out("next", q) for q in skip]
                    for q in cur:
                        r += gen(i + 1, q)
                    return r
                outs += self.loop_over(it, z, e, lambda item, w: self.assign(g.target, item, w), body, None)
            return outs

        for o in gen(0, st):
            if o.kind == "return":
                res.append((o.st, o.val))
            else:
                res.append((o.st, FALSE if is_any else TRUE))
        return self.merge_vals(res)

    def next_gen(self, e, st):
        comp = e.args[0]
        out = []
        for x, lst in self.comp(comp, st, "list"):
            o = self.hget(x, lst)
            if o.exact:
                if o.data:
                    out.append((x, o.data[0]))
                elif len(e.args) > 1:
                    out += self.ev(e.args[1], x)
                else:
                    self.raise_(x, self.exc_term("StopIteration"), e)
            else:
                for v in o.data[:1]:
                    out.append((x, v))
                if len(e.args) > 1:
                    out += self.ev(e.args[1], x)
        return out

    def merge_vals(self, res):
        groups = {}
        for x, v in res:
            groups.setdefault(v, []).append(x)
        out = []
        for v, xs in groups.items():
            out += [(x, v) for x in self.merge(xs)]
        return out

    def call(self, f, args, kwargs, st, node):
        self.stats["calls"] += 1
        if f.op == "ext" and f.args[0].startswith("str.") and args and (args[0].op == "fstr" or args[0].op == "k" and isinstance(kval(args[0]), str)):
            f, args = Term("meth", args[0], f.args[0][4:]), list(args[1:])
        r = self.policy.on_call(self, f, args, kwargs, st, node)
        if r is not None:
            return r
        return self.call_default(f, args, kwargs, st, node)

    def call_default(self, f, args, kwargs, st, node):
        op = f.op
        if op == "fn":
            return self.call_fn_term(f, args, kwargs, st, node)
        if op == "bm":
            return self.call_fn_term(f.args[0], [f.args[1]] + list(args), kwargs, st, node)
        if op == "poly":
            base, name, fns = f.args
            out = []
            for fn in fns:
                xs = [st]
                ci = fn.args[0].cls
                out += self.call_fn_term(fn, [base] + list(args), kwargs, st, node)
            return out
        if op == "cls":
            return self.construct(f.args[0], args, kwargs, st, node)
        if op == "ext":
            return self.call_ext(f, args, kwargs, st, node)
        if op == "meth":
            return self.call_method(f.args[0], f.args[1], args, kwargs, st, node)
        if op == "extsuper":
            sup, name = f.args
            ci, selfv, _ = sup.args
            if name == "__init__":
                if selfv.op == "ref":
                    o = self.hget(st, selfv)
                    st = st.copy()
                    d = dict(o.data)
                    for k, v in self.field_defaults(o.cls, st).items():
                        d.setdefault(k, v)
                    for k, v in kwargs.items():
                        d[k] = v
                    if args:
                        d["$args"] = tup(*args)
                    self.hset(st, selfv, o.but(data=d))
                else:
                    x = st
                    for k, v in kwargs.items():
                        xs = self.store_attr(selfv, k, v, x, node)
                        x = xs[0]
                    st = x
                return [(st, NONE)]
            if name == "__new__":
                ci0 = args[0].args[0] if args and args[0].op == "cls" else ci
                return self.new_inst(ci0, st)
            return self.opaque_call(f, args, kwargs, st, node)
        if op == "attr":
            return self.call_method(f.args[0], f.args[1], args, kwargs, st, node, fterm=f)
        if op == "prop":
            return self.call_fn_term(Term("fn", f.args[0], None), args, kwargs, st, node)
        if op == "ref":
            o = self.hget(st, f)
            if o.kind == "inst" and o.cls is not None:
                c = self.method(o.cls, "__call__")
                if c is not None:
                    return self.call_fn(c, [f] + list(args), kwargs, st, node)
            if o.kind == "partial":
                return self.call(o.data["fn"], list(o.data["args"]) + list(args), {**o.data["kw"], **kwargs}, st, node)
        return self.opaque_call(f, args, kwargs, st, node)

    def opaque_call(self, f, args, kwargs, st, node, pure=False, uid=None):
        t = Term("call", f, tuple(args), tuple(sorted(kwargs.items(), key=lambda kv: kv[0])), None if pure else (uid or self.uid(node)))
        for exc in self.policy.may_raise(self, f, args, kwargs, st, node):
            nt = exc if isinstance(exc, Term) else self.exc_term(exc, exact=False, note=self.where(node))
            self.raise_(st.copy(), nt, node)
        if not pure and not st.glob:
            st = self.invalidate(st, f, args)
        st = self.policy.after_call(self, f, args, kwargs, st, t, node)
        return [(st, t)]

    def invalidate(self, st, f, args):
        """An opaque call may mutate heap containers it is handed."""
        hit = [a for a in args if a.op == "ref" and self.hget(st, a).kind in ("list", "dict", "set") and self.hget(st, a).exact and self.hget(st, a).extra != "frozen"]
        if not hit or getattr(self.policy, "trust_args", True):
            return st
        st = st.copy()
        for a in hit:
            self.hset(st, a, self.hget(st, a).but(exact=False))
        return st

    def call_fn_term(self, f, args, kwargs, st, node):
        return self.call_fn(f.args[0], args, kwargs, st, node, env=f.args[1] if len(f.args) > 1 else None)

    def call_fn(self, fn, args, kwargs, st, node, env=None, await_now=False):
        """Call a package function: inline when allowed, else an opaque call term."""
        if env is None:
            env = fn.env if fn.env is not None else fn.module.env
        fterm = Term("fn", fn, env)
        if fn in self.stack or len(self.stack) >= self.policy.max_depth or not self.policy.inline(fn, self, st) or (
            "**" in kwargs and not (fn.node.args.kwarg if not isinstance(fn.node, ast.Lambda) else None)
        ) or (any(a.op == "star" for a in args) and not fn.node.args.vararg):
            r = self.opaque_call(fterm, args, kwargs, st, node)
            for x, t in r:
                self.note_ret_type(t, fn)
            return r
        x = st.copy()
        e = self.new_env(x, env)
        x = self.bind_params(fn, args, kwargs, x, e, node)
        if x is None:
            return []
        self.stats["functions"].add(fn.qual)
        if fn.is_gen:
            caller = x.env
            g = self.alloc(x, H("gen", None, {"fn": fterm, "env": e}))
            return [(x, g)]
        caller = x.env
        x.env = e
        x = self.policy.on_enter(self, fn, args, x, node)
        save_ctx, save_cb = self.ctx, self.yield_cb
        self.ctx = save_ctx + ((getattr(node, "lineno", 0), getattr(node, "col_offset", 0)),)
        self.stack = self.stack + [fn]
        self.yield_cb = []
        try:
            if isinstance(fn.node, ast.Lambda):
                outs = [Out("return", y, v) for y, v in self.ev(fn.node.body, x)]
            else:
                outs = self.exec_block(fn.node.body, x)
        finally:
            self.ctx, self.yield_cb = save_ctx, save_cb
            self.stack = self.stack[:-1]
        # raises recorded inside keep their state; restore caller env lazily at handlers
        res = {}
        for o in outs:
            y = o.st.copy()
            y.env = caller
            v = o.val if o.kind == "return" else NONE
            if y.glob:
                y.h.pop(e, None) if False else None
                return [(y, v)]
            res.setdefault(v, []).append(y)
        final = []
        for v, ys in res.items():
            ys = [self._drop_env(y, e, v) for y in ys]
            for y in self.merge(ys):
                final.append((y, v))
        self._restore_raises(caller)
        return final

    def _drop_env(self, st, e, v):
        # keep if a closure over it may survive
        o = st.h.get(e)
        if o is None:
            return st
        if e in closures(v):
            return st
        for h in st.h.values():
            if h.kind in ("inst", "list", "dict", "af"):
                if e in self._closures_of(h):
                    return st
            elif h.kind == "env":
                if h.extra == e:
                    return st
            elif h.kind == "gen" and h.data.get("env") == e:
                return st
        st = st.copy()
        del st.h[e]
        return st

    def _closures_of(self, h):
        if h.envs is None:
            h.envs = frozenset().union(*(closures(x) for x in self._terms_of(h)))
        return h.envs

    def _terms_of(self, h):
        if isinstance(h.data, dict):
            return [x for x in h.data.values() if isinstance(x, Term)]
        out = []
        for x in h.data:
            if isinstance(x, Term):
                out.append(x)
            elif isinstance(x, tuple):
                out += [y for y in x if isinstance(y, Term)]
        return out

    def _restore_raises(self, caller):
        sink = self.sinks[-1]
        for i, (s, e, n) in enumerate(sink):
            if s.env != caller and not s.glob:
                s2 = s.copy()
                s2.env = caller
                sink[i] = (s2, e, n)

    def bind_params(self, fn, args, kwargs, st, eid, node):
        a = fn.node.args
        pos = [p.arg for p in a.posonlyargs + a.args]
        anns = {p.arg: p.annotation for p in a.posonlyargs + a.args + a.kwonlyargs}
        d = {}
        args = list(args)
        kw = dict(kwargs)
        for i, p in enumerate(pos):
            if i < len(args):
                d[p] = args[i]
            elif p in kw:
                d[p] = kw.pop(p)
            elif p in fn.defaults:
                d[p] = fn.defaults[p]
            else:
                d[p] = Term("missing", p, fn.qual)
        extra = args[len(pos):]
        if a.vararg:
            if any(x.op == "star" for x in extra):
                d[a.vararg.arg] = Term("chain", *extra) if len(extra) == 1 else Term("opaque", "varargs", *extra)
                if len(extra) == 1:
                    d[a.vararg.arg] = extra[0].args[0]
            else:
                d[a.vararg.arg] = tup(*extra)
        for p in a.kwonlyargs:
            if p.arg in kw:
                d[p.arg] = kw.pop(p.arg)
            elif p.arg in fn.defaults:
                d[p.arg] = fn.defaults[p.arg]
            else:
                d[p.arg] = Term("missing", p.arg, fn.qual)
        if a.kwarg:
            star = kw.pop("**", None)
            items = tuple((K(k), v) for k, v in kw.items())
            if star is not None:
                if not items:
                    d[a.kwarg.arg] = star
                else:
                    d[a.kwarg.arg] = self.alloc(st, H("dict", None, ((Term("spread", star), star),) + items, False))
            else:
                d[a.kwarg.arg] = self.alloc(st, H("dict", None, items))
        for p, ann in anns.items():
            v = d.get(p)
            if v is not None and ann is not None and v.op in ("param", "call", "attr", "idx", "elem", "havoc", "missing", "val", "opaque", "await") and v not in self.types:
                ty = self.resolve_ann(ann, fn.module)
                if ty is not None:
                    self.types[v] = ty
        st.h[eid] = st.h[eid].but(data=d)
        return st

    # constructing -------------------------------------------------------------------
    def fields_of(self, ci):
        out = []
        for c in reversed(ci.repo_mro()):
            for n in c.node.body:
                if isinstance(n, ast.AnnAssign) and isinstance(n.target, ast.Name) and not self._classvar(n.annotation):
                    if n.target.id not in out:
                        out.append(n.target.id)
        return out

    def field_defaults(self, ci, st):
        d = {}
        if ci is None:
            return d
        for f in self.fields_of(ci):
            c, v = ci.lookup(f)
            if v is None:
                continue
            if v.op == "call" and v.args[0].op == "ext" and v.args[0].args[0].split(".")[-1] in ("field", "Field", "PrivateAttr"):
                kws = dict(v.args[2])
                if "default_factory" in kws:
                    r = self.call(kws["default_factory"], [], {}, st, ci.node)
                    d[f] = r[0][1] if r else Term("opaque", "factory")
                    if r and d[f].op == "ref" and d[f].args[0] not in st.h:
                        for k, o in r[0][0].h.items():
                            st.h.setdefault(k, o)
                elif "default" in kws:
                    d[f] = kws["default"]
                elif v.args[1]:
                    d[f] = v.args[1][0]
            elif v.op == "ref" and not st.glob:
                o = self.hget(st, v)
                if o.kind in ("list", "dict", "set") and ci.is_pydantic:
                    d[f] = self.alloc(st, H(o.kind, None, o.data, o.exact, o.extra))
                else:
                    d[f] = v
            else:
                d[f] = v
        return d

    def new_inst(self, ci, st):
        st = st.copy()
        return [(st, self.alloc(st, H("inst", ci, {}, True)))]

    def construct(self, ci, args, kwargs, st, node):
        if ci.is_exception:
            fields = []
            init = self.method(ci, "__init__")
            if init is not None:
                a = init.node.args
                ps = [p.arg for p in a.posonlyargs + a.args][1:]
                for p, v in zip(ps, args):
                    fields.append((p, v))
                for k, v in kwargs.items():
                    fields.append((k, v))
                for p in ps + [q.arg for q in a.kwonlyargs]:
                    if p not in dict(fields) and p in init.defaults:
                        fields.append((p, init.defaults[p]))
            return [(st, Term("exc", Term("cls", ci), True, tuple(fields), None))]
        if ci.is_enum:
            if args:
                for n in ci.enum_members:
                    if self.const_eq(st, args[0], ci.keywords[("member", n)]) is True or args[0] == Term("enum", ci, n):
                        return [(st, Term("enum", ci, n))]
            t = Term("call", Term("cls", ci), tuple(args), (), None)
            self.types.setdefault(t, ("cls", ci))
            for exc in self.policy.may_raise(self, Term("cls", ci), args, kwargs, st, node):
                self.raise_(st.copy(), self.exc_term(exc, note=self.where(node)), node)
            return [(st, t)]
        if any(b.split(".")[-1] in ("str", "int", "float") for b in ci.ext_bases()):
            return self.opaque_call(Term("cls", ci), args, kwargs, st, node)
        if not self.policy_construct(ci):
            return self.opaque_call(Term("cls", ci), args, kwargs, st, node)
        st = st.copy()
        ref = self.alloc(st, H("inst", ci, {}, True))
        init = self.method(ci, "__init__")
        if init is not None:
            out = []
            for x, _ in self.call_fn(init, [ref] + list(args), kwargs, st, node):
                out.append((x, ref))
            return out
        if ci.is_dataclass or ci.is_namedtuple or ci.is_pydantic:
            d = self.field_defaults(ci, st)
            fs = self.fields_of(ci)
            for f, v in zip(fs, args):
                d[f] = v
            for k, v in kwargs.items():
                d[k] = v
            o = self.hget(st, ref)
            self.hset(st, ref, o.but(data=d))
            pi = self.method(ci, "__post_init__") or self.method(ci, "model_post_init")
            if pi is not None:
                return [(x, ref) for x, _ in self.call_fn(pi, [ref] + ([NONE] if pi.name == "model_post_init" else []), {}, st, node)]
            return [(st, ref)]
        o = self.hget(st, ref)
        d = {"$args": tup(*args)} if args else {}
        d.update(kwargs)
        self.hset(st, ref, o.but(data=d, exact=True))
        return [(st, ref)]

    def policy_construct(self, ci):
        f = getattr(self.policy, "construct_inline", None)
        return True if f is None else f(ci)

    # container helpers ----------------------------------------------------------------
    def list_extend(self, st, ref, v):
        st = st.copy()
        o = self.hget(st, ref)
        kind, items = self.iter_kind(v, st)
        if kind == "exact":
            self.hset(st, ref, o.but(data=o.data + tuple(items)))
        elif kind == "some":
            self.hset(st, ref, o.but(data=o.data + tuple(items), exact=False))
        else:
            self.hset(st, ref, o.but(data=o.data + (Term("star", v),), exact=False))
        return st

    def set_update(self, st, ref, v):
        st = st.copy()
        o = self.hget(st, ref)
        kind, items = self.iter_kind(v, st)
        if kind in ("exact", "some"):
            self.hset(st, ref, o.but(data=self.dedupe(st, o.data + tuple(items)), exact=o.exact and kind == "exact"))
        else:
            self.hset(st, ref, o.but(data=o.data + (Term("star", v),), exact=False))
        return st

    def call_method(self, base, name, args, kwargs, st, node, fterm=None):
        from . import builtins_model

        r = builtins_model.method(self, base, name, args, kwargs, st, node)
        if r is not None:
            return r
        return self.opaque_call(fterm if fterm is not None else Term("attr", base, name, 0), args, kwargs, st, node)

    def call_ext(self, f, args, kwargs, st, node):
        from . import builtins_model

        r = builtins_model.func(self, f.args[0], args, kwargs, st, node)
        if r is not None:
            return r
        if _builtin_exc(f.args[0]) is not None:
            return [(st, Term("exc", f, True, tuple(("arg%d" % i, a) for i, a in enumerate(args)), None))]
        return self.opaque_call(f, args, kwargs, st, node)


class _Quiet(Policy):
    """Used while discovering what a loop body changes: inlining as the check's policy, no events."""

    def __init__(self, inner):
        while isinstance(inner, _Quiet):
            inner = inner.inner
        self.inner = inner
        self.one_element = inner.one_element

    def __getattr__(self, n):
        return getattr(self.inner, n)

    def inline(self, fn, interp, st):
        return self.inner.inline(fn, interp, st)

    def on_call(self, interp, callee, args, kwargs, st, node):
        return self.inner.on_call(interp, callee, args, kwargs, st, node)

    def may_raise(self, interp, callee, args, kwargs, st, node):
        return self.inner.may_raise(interp, callee, args, kwargs, st, node)

    def poly(self, interp, cls, name, impls, st):
        return self.inner.poly(interp, cls, name, impls, st)

    def skip_call(self, interp, node, st):
        return self.inner.skip_call(interp, node, st)

    def on_await(self, interp, val, st, node):
        return self.inner.on_await(interp, val, st, node)

    def on_load_item(self, interp, base, key, st, node):
        return self.inner.on_load_item(interp, base, key, st, node)

    def on_store_attr(self, interp, base, name, val, st, node):
        return self.inner.on_store_attr(interp, base, name, val, st, node)

    def on_assume(self, interp, term, b, st, node):
        return self.inner.on_assume(interp, term, b, st, node)

    @property
    def max_depth(self):
        return self.inner.max_depth

    @property
    def max_states(self):
        return self.inner.max_states

    @property
    def unroll(self):
        return self.inner.unroll
