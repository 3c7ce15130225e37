"""Program model: terms, modules, classes and functions of the analysed package.

Nothing here imports or runs the analysed package: every fact comes from the
syntax tree of the files under /repo/givenergy_modbus.
"""
from __future__ import annotations

import ast
import builtins
import os

REPO = os.environ.get("VERIF_REPO", "/repo")
PKG = "givenergy_modbus"


class AnalysisError(Exception):
    """The analysis could not give an answer (vanished anchor, limit reached)."""


class Term:
    __slots__ = ("op", "args", "_h", "_c", "_z")

    def __init__(self, op, *args):
        self.op = op
        self.args = args
        self._h = hash((op, args))
        self._c = None
        self._z = None

    def __hash__(self):
        return self._h

    def __eq__(self, o):
        if self is o:
            return True
        return isinstance(o, Term) and self._h == o._h and self.op == o.op and self.args == o.args

    def __repr__(self):
        return show(self)


def K(v):
    return Term("k", type(v).__name__, v)


NONE = K(None)
TRUE = K(True)
FALSE = K(False)


def is_k(t):
    return t.op == "k"


def kval(t):
    return t.args[1]


def show(t, depth=0):
    if not isinstance(t, Term):
        return repr(t)
    if depth > 6:
        return "…"
    d = depth + 1
    op, a = t.op, t.args
    if op == "k":
        return repr(a[1])
    if op == "param":
        return str(a[0])
    if op == "attr":
        return f"{show(a[0], d)}.{a[1]}"
    if op == "elem":
        return f"each({show(a[0], d)})"
    if op == "idx":
        return f"{show(a[0], d)}[{show(a[1], d)}]"
    if op == "slice":
        return f"{show(a[0], d)}[{'' if a[1] == NONE else show(a[1], d)}:{'' if a[2] == NONE else show(a[2], d)}]"
    if op == "call":
        return f"{show(a[0], d)}({', '.join([show(x, d) for x in a[1]] + [f'{k}={show(v, d)}' for k, v in a[2]])})"
    if op == "cmp":
        sym = {"eq": "==", "lt": "<", "le": "<=", "in": "in", "is": "is"}[a[0]]
        return f"({show(a[1], d)} {sym} {show(a[2], d)})"
    if op == "not":
        return f"not {show(a[0], d)}"
    if op == "bin":
        return f"({show(a[1], d)} {a[0]} {show(a[2], d)})"
    if op == "un":
        return f"{a[0]}{show(a[1], d)}"
    if op == "tup":
        return "(" + ", ".join(show(x, d) for x in a) + ")"
    if op == "ref":
        return f"#{a[0]}"
    if op == "fn":
        return a[0].qual
    if op == "bm":
        return f"{show(a[1], d)}.{a[0].args[0].name}"
    if op == "cls":
        return a[0].name
    if op == "mod":
        return a[0]
    if op == "ext":
        return a[0]
    if op == "enum":
        return f"{a[0].name}.{a[1]}"
    if op == "isinstance":
        return f"isinstance({show(a[0], d)}, {show(a[1], d)})"
    if op == "kset":
        s = sorted((show(x, d) for x in a[0]))
        return "{" + ", ".join(s[:8]) + (", …" if len(s) > 8 else "") + "}"
    if op == "havoc":
        return f"{a[1]}'"
    if op == "exc":
        return f"{show(a[0], d)}(…)"
    return f"{op}({', '.join(show(x, d) if isinstance(x, Term) else str(x) for x in a)})"


def subterms(t):
    stack = [t]
    while stack:
        x = stack.pop()
        if isinstance(x, Term):
            yield x
            stack.extend(x.args)
        elif isinstance(x, (tuple, frozenset)):
            stack.extend(x)


_NO_ENVS = frozenset()


def closures(t):
    """Environments that function values inside this term close over."""
    if not isinstance(t, Term):
        if isinstance(t, (tuple, frozenset)):
            return frozenset().union(*(closures(x) for x in t)) if t else _NO_ENVS
        return _NO_ENVS
    if t._c is None:
        if t.op == "k":
            t._c = _NO_ENVS
        else:
            own = {t.args[1]} if t.op == "fn" and len(t.args) > 1 else ()
            t._c = _NO_ENVS.union(own, *(c for x in t.args if (c := closures(x)))) if t.args else _NO_ENVS
    return t._c


class FuncInfo:
    def __init__(self, node, module, qual, cls=None):
        self.node = node
        self.module = module
        self.qual = qual
        self.cls = cls
        self.name = getattr(node, "name", "<lambda>")
        self.is_async = isinstance(node, ast.AsyncFunctionDef)
        self.is_gen = (not isinstance(node, ast.Lambda)) and _has_yield(node)
        self.defaults = {}  # param -> Term
        self.decorators = []  # names, innermost last
        self.kind = "plain"  # plain | static | class | property
        self.env = None  # environment a closure was made in
        self.wrapped = None  # the function a functools.wraps wrapper stands for

    def __repr__(self):
        return f"<fn {self.qual}>"

    @property
    def where(self):
        return f"{self.module.path}:{self.node.lineno}"


def _has_yield(fn):
    stack = list(fn.body)
    while stack:
        n = stack.pop()
        if isinstance(n, (ast.Yield, ast.YieldFrom)):
            return True
        if isinstance(n, (ast.FunctionDef, ast.AsyncFunctionDef, ast.Lambda, ast.ClassDef)):
            continue
        stack.extend(ast.iter_child_nodes(n))
    return False


class ClassInfo:
    def __init__(self, node, module, qual):
        self.node = node
        self.module = module
        self.qual = qual
        self.name = node.name
        self.bases = []  # Terms ('cls' or 'ext')
        self.attrs = {}  # name -> Term (class body bindings)
        self.props = {}  # name -> {'get': FuncInfo, 'set': FuncInfo}
        self.annotations = {}  # name -> ast annotation
        self.decorators = []
        self.keywords = {}
        self.enum_members = []  # ordered names
        self._mro = None

    def __repr__(self):
        return f"<class {self.qual}>"

    def mro(self):
        """C3 linearisation over repo classes; external bases are kept as strings."""
        if self._mro is None:
            self._mro = _c3(self)
        return self._mro

    def repo_mro(self):
        return [c for c in self.mro() if isinstance(c, ClassInfo)]

    def ext_bases(self):
        return [c for c in self.mro() if isinstance(c, str)]

    def lookup(self, name):
        for c in self.repo_mro():
            if name in c.attrs:
                return c, c.attrs[name]
        return None, None

    def annotation(self, name):
        for c in self.repo_mro():
            if name in c.annotations:
                return c, c.annotations[name]
        return None, None

    def is_subclass(self, other):
        """other: ClassInfo or dotted external name."""
        if isinstance(other, str):
            for e in self.ext_bases():
                if ext_subclass(e, other):
                    return True
            return False
        return other in self.mro()

    @property
    def is_enum(self):
        return any(e.split(".")[-1] in ("Enum", "IntEnum", "IntFlag", "Flag", "StrEnum") for e in self.ext_bases())

    @property
    def is_exception(self):
        return any(_builtin_exc(e) is not None for e in self.ext_bases())

    @property
    def is_pydantic(self):
        return any(e.split(".")[-1] == "BaseModel" for e in self.ext_bases())

    @property
    def is_dataclass(self):
        return any(d.split(".")[-1] == "dataclass" for c in self.repo_mro() for d in c.decorators)

    @property
    def is_namedtuple(self):
        return any(e.split(".")[-1] == "NamedTuple" for e in self.ext_bases())


def _c3(ci):
    seqs = []
    for b in ci.bases:
        if b.op == "cls":
            seqs.append(list(b.args[0].mro()))
        elif b.op == "ext":
            seqs.append([b.args[0]])
    direct = [b.args[0] for b in ci.bases if b.op in ("cls", "ext")]
    seqs.append(list(direct))
    out = [ci]
    seqs = [s for s in seqs if s]
    while seqs:
        for s in seqs:
            cand = s[0]
            if not any(cand in t[1:] for t in seqs):
                break
        else:  # inconsistent; fall back to declaration order
            cand = seqs[0][0]
        out.append(cand)
        seqs = [[x for x in s if x != cand] for s in seqs]
        seqs = [s for s in seqs if s]
    return out


_EXT_ALIASES = {
    "asyncio.TimeoutError": "TimeoutError",
    "builtins.TimeoutError": "TimeoutError",
    "socket.error": "OSError",
    "IOError": "OSError",
    "EnvironmentError": "OSError",
}
_EXT_EXC_PARENTS = {
    "asyncio.CancelledError": "BaseException",
    "asyncio.exceptions.CancelledError": "BaseException",
    "asyncio.QueueFull": "Exception",
    "asyncio.QueueEmpty": "Exception",
    "asyncio.IncompleteReadError": "EOFError",
    "asyncio.InvalidStateError": "Exception",
    "struct.error": "Exception",
    "pydantic.ValidationError": "ValueError",
    "json.JSONDecodeError": "ValueError",
    "builtins.Any": "Exception",
}


def _builtin_exc(name):
    name = _EXT_ALIASES.get(name, name)
    short = name[9:] if name.startswith("builtins.") else name
    o = getattr(builtins, short, None)
    if isinstance(o, type) and issubclass(o, BaseException):
        return o
    if name in _EXT_EXC_PARENTS:
        return name
    return None


_ENUM_PARENTS = {"enum.IntEnum": ("enum.Enum", "int"), "enum.StrEnum": ("enum.Enum", "str"), "enum.Flag": ("enum.Enum",), "enum.IntFlag": ("enum.Flag", "int")}


def ext_subclass(a, b):
    """Subclass relation between two external (dotted) class names."""
    a = _EXT_ALIASES.get(a, a)
    b = _EXT_ALIASES.get(b, b)
    if a == b:
        return True
    if a in _ENUM_PARENTS:
        return any(ext_subclass(p, b) for p in _ENUM_PARENTS[a])
    if a in _EXT_EXC_PARENTS:
        return ext_subclass(_EXT_EXC_PARENTS[a], b)
    sa, sb = (x[9:] if x.startswith("builtins.") else x for x in (a, b))
    oa, ob = getattr(builtins, sa, None), getattr(builtins, sb, None)
    if isinstance(oa, type) and isinstance(ob, type):
        return issubclass(oa, ob)
    return sa == sb


class Module:
    def __init__(self, name, path, tree, src):
        self.name = name
        self.path = path  # repo-relative
        self.tree = tree
        self.src = src
        self.is_pkg = path.endswith("__init__.py")
        self.env = None  # heap id of module env
        self.state = "new"


class Program:
    def __init__(self, repo=None):
        self.repo = repo or REPO
        self.modules = {}
        root = os.path.join(self.repo, PKG)
        if not os.path.isdir(root):
            raise AnalysisError(f"package directory {root} is missing")
        for dp, dns, fns in os.walk(root):
            dns.sort()
            dns[:] = [d for d in dns if d != "__pycache__"]
            for fn in sorted(fns):
                if not fn.endswith(".py"):
                    continue
                p = os.path.join(dp, fn)
                rel = os.path.relpath(p, self.repo)
                name = rel[:-3].replace(os.sep, ".")
                if name.endswith(".__init__"):
                    name = name[: -len(".__init__")]
                with open(p, encoding="utf-8") as fh:
                    src = fh.read()
                try:
                    tree = ast.parse(src)
                except SyntaxError as e:
                    raise AnalysisError(f"{rel}: does not parse: {e}") from None
                self.modules[name] = Module(name, rel, tree, src)

    def assigned_attr_names(self):
        """Attribute names stored to outside of __init__ / class bodies, anywhere."""
        if not hasattr(self, "_aan"):
            out, init_only = set(), set()
            for m in self.modules.values():
                self._scan_attr_stores(m.tree, None, out, init_only)
            self._aan = (out, init_only)
        return self._aan

    def _scan_attr_stores(self, node, fn, out, init_only):
        for ch in ast.iter_child_nodes(node):
            if isinstance(ch, (ast.FunctionDef, ast.AsyncFunctionDef)):
                self._scan_attr_stores(ch, ch.name, out, init_only)
                continue
            if isinstance(ch, ast.Attribute) and isinstance(ch.ctx, (ast.Store, ast.Del)):
                if fn == "__init__" and isinstance(ch.value, ast.Name) and ch.value.id == "self":
                    init_only.add(ch.attr)
                else:
                    out.add(ch.attr)
            self._scan_attr_stores(ch, fn, out, init_only)
