"""Effects of the network client's coroutines: what each call site does to queues, futures, sockets and caches."""
from __future__ import annotations

from .core import NONE, Term, is_k, kval, show
from .events import attr_path, loops, receiver_and_args
from .interp import Policy

CLIENT = "givenergy_modbus.client.client"
# library calls whose effect matters
LIB = {
    "put", "put_nowait", "get", "get_nowait", "task_done", "write", "writelines", "drain", "read", "readexactly",
    "set_result", "set_exception", "cancel", "feed_eof", "close", "wait_closed", "create_future", "feed", "flush",
    "asyncio.wait_for", "asyncio.sleep", "asyncio.gather", "asyncio.create_task", "asyncio.open_connection",
    "asyncio.shield", "asyncio.wait", "asyncio.ensure_future", "asyncio.timeout",
}  # fmt: skip


class Ev:
    """One recorded call: name, receiver, arguments, where."""

    __slots__ = ("name", "base", "args", "kw", "node", "ctx", "fn", "res")

    def __init__(self, name, base, args, kw, node, ctx, fn=None, res=None):
        self.name, self.base, self.args, self.kw, self.node, self.ctx, self.fn, self.res = name, base, tuple(args), tuple(sorted(kw.items())), node, ctx, fn, res

    def key(self):
        return (self.name, self.base, self.args, self.kw, id(self.node), self.res)

    def __eq__(self, o):
        return isinstance(o, Ev) and self.key() == o.key()

    def __hash__(self):
        return hash((self.name, self.base, self.args))

    def path(self):
        return attr_path(self.base) if self.base is not None else None

    def arg(self, i, name=None):
        if i < len(self.args):
            return self.args[i]
        return dict(self.kw).get(name)

    def line(self):
        return getattr(self.node, "lineno", 0)

    def __repr__(self):
        b = f"{show(self.base)}." if self.base is not None else ""
        return f"{b}{self.name}({', '.join(show(a) for a in self.args)})"


class ClientPolicy(Policy):
    """Client methods are inlined, everything else is an effect."""

    max_depth = 10

    def __init__(self, I, opaque=(), watch=(), extra_inline=(), raises=None, stores=(), items=()):
        self.I = I
        self.stores = set(stores)
        self.items = set(items)
        self.opaque = set(opaque)
        self.watch = set(watch) | LIB | self.opaque
        self.extra = set(extra_inline)
        self.raises = raises
        self.ends = []  # (loop node, head state, end state, kind)
        self.heads = []
        self.enters = []  # (loop node, state before the loop)
        self.outs = []  # the same for break and return

    def inline(self, fn, interp, st):
        if fn.name in self.opaque:
            return False
        if fn.name in self.extra or fn.qual in self.extra:
            return True
        return fn.module.name == CLIENT and (fn.cls is None or fn.cls.name == "Client")

    def on_call(self, interp, callee, args, kwargs, st, node):
        name, base, rest = receiver_and_args(callee, args)
        if name not in self.watch or base is not None and base.op == "ref":
            return None
        fn = callee.args[0] if callee.op == "fn" else (callee.args[0].args[0] if callee.op == "bm" else None)
        if fn is not None and fn.module.name == CLIENT and name not in self.opaque and name not in self.watch - LIB:
            return None
        res = Term("call", callee, tuple(args), tuple(sorted(kwargs.items(), key=lambda kv: kv[0])), interp.uid(node))
        ev = Ev(name, base, rest, kwargs, node, loops(interp.ctx), fn, res)
        excs = self.raised_by(interp, ev, st) or ()
        pre = st
        st = st.emit(ev)
        for e in excs:
            bad = st.copy().emit(Ev("raises:" + name, base, rest, {"exc": Term("str", str(e))}, node, loops(interp.ctx), fn, res))
            interp.raise_(bad, e if isinstance(e, Term) else interp.exc_term(e, exact=False, note=name), node)
        if fn is not None and self.inline(fn, interp, st):
            return interp.call_default(callee, args, kwargs, st, node)
        return self.result(interp, ev, st, res, node, fn)

    def skip_call(self, interp, node, st):
        """Logging whose arguments only format values."""
        import ast

        f = node.func
        if not (isinstance(f, ast.Attribute) and f.attr in ("debug", "info", "warning", "error", "exception", "critical") and isinstance(f.value, ast.Name) and "log" in f.value.id.lower()):
            return False
        for a in ast.walk(node):
            if isinstance(a, (ast.Await, ast.NamedExpr, ast.Yield)):
                return False
            if isinstance(a, ast.Call) and a is not node and not (isinstance(a.func, ast.Name) and a.func.id in ("len", "repr", "str", "sorted", "hex", "list", "type", "int", "round") or isinstance(a.func, ast.Attribute) and a.func.attr in ("join", "hex", "format", "isoformat", "total_seconds")):
                return False
        return True

    def result(self, interp, ev, st, res, node, fn):
        if fn is not None:
            interp.note_ret_type(res, fn)
        return [(st, res)]

    def raised_by(self, interp, ev, st):
        return self.raises(interp, ev, st) if self.raises else ()

    def on_store_attr(self, interp, base, name, val, st, node):
        if name in self.stores:
            return st.emit(Ev("store:" + name, base, [val], {}, node, loops(interp.ctx)))
        return st

    def on_loop_head(self, interp, node, head):
        self.heads.append((node, head))

    def on_store_item(self, interp, base, key, val, st, node):
        if base.op == "attr" and base.args[1] in self.items:
            return st.emit(Ev("setitem:" + base.args[1], base, [key, val], {}, node, loops(interp.ctx)))
        return st

    def on_del(self, interp, base, key, st, node):
        if base.op == "attr" and base.args[1] in self.items:
            return st.emit(Ev("delitem:" + base.args[1], base, [key], {}, node, loops(interp.ctx)))
        return st

    def on_loop_enter(self, interp, node, st):
        self.enters.append((node, st))

    def on_loop_out(self, interp, node, head, end, kind):
        self.outs.append((node, head, end, kind))

    def on_loop_end(self, interp, node, head, end, kind):
        self.ends.append((node, head, end, kind))


def events(trace):
    return [e[0] for e in trace if len(e) == 1 and isinstance(e[0], Ev)]


def segment(head, end):
    """Events of one arbitrary iteration."""
    return events(end.trace[len(head.trace) :])


def client_class(I):
    return I.cls("client.client:Client")


def self_term(I):
    t = Term("param", "self")
    I.types[t] = ("cls", client_class(I))
    return t


def call_target(t):
    """FuncInfo of a call term to a package function."""
    if t is None or t.op != "call":
        return None
    f = t.args[0]
    if f.op == "fn":
        return f.args[0]
    if f.op == "bm":
        return f.args[0].args[0]
    return None


def async_methods(I):
    import ast

    out = set()
    for c in client_class(I).repo_mro():
        for n, v in c.attrs.items():
            if isinstance(v, Term) and v.op == "fn" and isinstance(v.args[0].node, ast.AsyncFunctionDef):
                out.add(n)
    return out


def connect_paths(chk, I):
    fn = I.func("client.client:Client.connect")
    chk.require(fn is not None, "Client.connect")
    pol = ClientPolicy(I, opaque=async_methods(I) - {"connect"})
    I.policy = pol
    return fn, chk.explore(I, fn)


def background_tasks(chk, I):
    """The coroutines connect() starts, found from what it hands to create_task."""
    fn, paths = connect_paths(chk, I)
    out = []
    for p in paths:
        for e in events(p.st.trace):
            if e.name in ("asyncio.create_task", "asyncio.ensure_future", "create_task"):
                t = call_target(e.arg(0))
                if t is not None and t not in out:
                    out.append(t)
    chk.require(out, "a background task started by connect()")
    return fn, paths, out


def attr_is(t, name):
    return t.op == "attr" and t.args[1] == name


def module_calls(I, prefixes):
    """Every call node of the named modules, with the function it lies in (None: module level)."""
    import ast

    for mname, m in I.prog.modules.items():
        if not mname.startswith(tuple(prefixes)):
            continue
        tree = getattr(m, "tree", None)
        stack = [(tree, None)]
        while stack:
            n, fn = stack.pop()
            for c in ast.iter_child_nodes(n):
                f = fn
                if isinstance(c, (ast.FunctionDef, ast.AsyncFunctionDef)):
                    f = I.fn_by_node.get(id(c), fn)
                if isinstance(c, ast.Call):
                    yield f, c
                stack.append((c, f))


def sites(I, prefixes, names):
    """Functions holding a call of a method with one of these names: qual -> FuncInfo."""
    import ast

    out = {}
    for fn, call in module_calls(I, prefixes):
        if isinstance(call.func, ast.Attribute) and call.func.attr in names:
            out[fn.qual if fn else "module"] = fn
    return out


def teardown(I):
    """The method that tears the connection's shared state down after an unexpected loss."""
    import ast

    fn = I.method(client_class(I), "_abort_connection")
    if fn is not None:
        return fn
    for c in client_class(I).repo_mro():
        for v in c.attrs.values():
            if isinstance(v, Term) and v.op == "fn" and v.args[0].name != "connect":
                for n in ast.walk(v.args[0].node):
                    if isinstance(n, ast.Assign) and any(isinstance(t, ast.Attribute) and t.attr == "_connection_lost" for t in n.targets) and isinstance(n.value, ast.Constant) and n.value.value is True:
                        return v.args[0]
    return None


def resolved(I, st, evs, fut, by=("set_exception", "set_result", "cancel")):
    """Is this optional future known to be absent, finished or finished by one of these events?"""
    if I.known(st, Term("cmp", "is", fut, NONE)) is True or I.known(st, fut) is False:
        return True
    for e in evs:
        if e.base == fut and (e.name in by or e.name == "done" and I.known(st, e.res) is True):
            return True
    return False
