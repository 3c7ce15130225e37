"""The declarative register tables, as the program would hold them after import."""
from __future__ import annotations

from .core import AnalysisError, K, NONE, Term, is_k, kval, show


class FieldDef:
    __slots__ = ("cls", "name", "pre", "pre_args", "post", "post_args", "regs", "min", "max", "identifier", "deprecated")

    def __repr__(self):
        return f"{self.cls}.{self.name}{self.regs}"


def classes(I):
    out = []
    for m in I.prog.modules.values():
        if m.env is None:
            continue
        for v in I.G[m.env].data.values():
            if isinstance(v, Term) and v.op == "cls" and v.args[0].module is m and v.args[0] not in out:
                out.append(v.args[0])
    return out


def conv_of(I, t):
    """(callable term, extra args) of a converter slot, or (None, ())."""
    st = I.gstate
    if t is None or t == NONE:
        return None, ()
    if t.op == "tup":
        return t.args[0], t.args[1:]
    if t.op == "ref" and I.hget(st, t).kind == "list":
        d = I.hget(st, t).data
        return d[0], tuple(d[1:])
    return t, ()


def conv_name(I, t):
    if t is None:
        return None
    if t.op == "fn":
        return t.args[0].qual.split(":")[-1]
    if t.op == "cls":
        return t.args[0].name
    if t.op == "bm":
        return conv_name(I, t.args[0])
    return show(t)


def reg_of(I, r):
    """("HR", 5) of a register instance."""
    st = I.gstate
    if r.op == "ref":
        o = I.hget(st, r)
        if o.kind == "inst" and o.cls is not None:
            ty = I.load_attr(r, "_type", st, None)
            ix = I.load_attr(r, "_idx", st, None)
            if len(ty) == 1 and len(ix) == 1 and is_k(ty[0][1]) and is_k(ix[0][1]):
                return (kval(ty[0][1]), kval(ix[0][1]))
    raise AnalysisError(f"a register of a table entry is not constant: {show(r)}")


def tables(I):
    """{class name: (ClassInfo, {field: FieldDef})} for every class that declares a register table."""
    base = I.cls("model.register:RegisterGetter")
    if base is None:
        raise AnalysisError("anchor not found: RegisterGetter")
    st = I.gstate
    out = {}
    for ci in classes(I):
        if ci is base or not ci.is_subclass(base):
            continue
        c, v = ci.lookup("REGISTER_LUT")
        if v is None or v.op != "ref" or I.hget(st, v).kind != "dict":
            raise AnalysisError(f"{ci.name}.REGISTER_LUT does not resolve to a constant table")
        o = I.hget(st, v)
        if not o.exact:
            raise AnalysisError(f"{ci.name}.REGISTER_LUT is not an exact table")
        fields = {}
        for k, d in o.data:
            if not is_k(k):
                raise AnalysisError(f"{ci.name}.REGISTER_LUT has a computed key {show(k)}")
            fields[kval(k)] = field(I, ci, kval(k), d)
        out[ci.name] = (ci, fields)
    return out


def field(I, ci, name, d):
    st = I.gstate

    def at(n):
        r = I.load_attr(d, n, st, None)
        return r[0][1] if len(r) == 1 else None

    f = FieldDef()
    f.cls, f.name = ci.name, name
    f.pre, f.pre_args = conv_of(I, at("pre_conv"))
    f.post, f.post_args = conv_of(I, at("post_conv"))
    rs = at("registers")
    if rs is None:
        raise AnalysisError(f"{ci.name}.{name}: registers do not resolve")
    if rs.op == "tup":
        items = rs.args
    elif rs.op == "ref" and I.hget(st, rs).kind == "list":
        items = I.hget(st, rs).data
    else:
        raise AnalysisError(f"{ci.name}.{name}: registers do not resolve: {show(rs)}")
    f.regs = tuple(reg_of(I, r) for r in items)
    f.min, f.max = [(kval(x) if x is not None and is_k(x) else x) for x in (at("min_value"), at("max_value"))]
    f.identifier, f.deprecated = at("identifier"), at("deprecated")
    return f
