"""Which device models a path may be taken for."""
from __future__ import annotations

from .core import AnalysisError, K, NONE, Term
from . import spec_registers as SR


def model_class(I):
    ci = I.cls("model.inverter:Model")
    if ci is None:
        raise AnalysisError("anchor not found: Model")
    return ci


def members(I):
    """{name: enum term} of every model the program knows."""
    ci = model_class(I)
    v = Term("view", Term("cls", ci), "members")
    out = {}
    for n, x in ci.attrs.items():
        if isinstance(x, Term) and x.op == "enum":
            out[x.args[1]] = x
    return out


def possible(I, st, t, with_none=True):
    """Names of the models (None for 'unknown') the term may denote on this path."""
    out = []
    for n, e in members(I).items():
        if I.known(st, Term("cmp", "eq", t, e)) is not False:
            out.append(n)
    if with_none and I.known(st, Term("cmp", "is", t, NONE)) is not False and I.known(st, t) is not True:
        if not pos_enum(I, st, t):
            out.append(None)
    return out


def pos_enum(I, st, t):
    """A positive fact pins the term to model members."""
    for f, b in st.facts.items():
        if b and f.op == "cmp" and f.args[1] == t and (f.args[0] == "eq" and f.args[2].op == "enum" or f.args[0] == "in" and f.args[2].op == "kset" and NONE not in f.args[2].args[0]):
            return True
    return False
