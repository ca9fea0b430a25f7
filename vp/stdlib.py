"""Contracts assumed for the C++ standard library (the trusted base), written against symbolic values."""
import z3
from .ast import T, type_of, qual_of, parse_type
from .sym import *
from . import engine as E


def install(ex):
    M, F, C = ex.methods, ex.funcs, ex.ctors
    for n in E.STRING_RECS | {"std::vector", "std::deque", "std::list", "std::__cxx11::list"}:
        C[n] = ctor_seq
    for n in ("push_back", "emplace_back"):
        M[("*", n)] = m_push_back
    for n, f in (("size", m_size), ("length", m_size), ("empty", m_empty), ("reserve", m_nop), ("c_str", m_data),
                 ("data", m_data), ("clear", m_clear)):
        M[("*", n)] = f
    F["move"] = F["forward"] = F["as_const"] = f_identity
    F["addressof"] = f_addressof


# ---- helpers -----------------------------------------------------------------------------------------------------------
def seq_of(ex, st, x):
    v = ex.rv(st, x)
    if isinstance(v, SeqV):
        return v
    raise Unsupported("sequence expected, got %r" % (v,))


def f_identity(ex, st, vs, e):
    yield st, vs[0]


def f_addressof(ex, st, vs, e):
    v = vs[0]
    if not isinstance(v, LV):
        raise Unsupported("addressof")
    if v.path and not isinstance(v.path[-1], str):
        yield st, PtrV(z3.BoolVal(False), LV(v.cell, v.path[:-1]), v.path[-1][1])
    else:
        yield st, PtrV(z3.BoolVal(False), v, None)


def empty_seq(ex, t):
    return SeqV(z3.Empty(ex.sort_of(t)), t.args[0], t.name)


def seq_base(t):
    """strips allocator/traits arguments"""
    return t


def ctor_seq(ex, st, t, vs, e):
    vs = [v for v in vs if not (isinstance(v, Obj) and v.tname in ("defaultarg", "allocator"))]
    if not vs:
        yield st, empty_seq(ex, t)
        return
    if len(vs) == 1:
        v = ex.rv(st, vs[0])
        if isinstance(v, (SeqV, ArrV)):
            yield st, v
            return
    raise Unsupported("sequence constructor with %d arguments" % len(vs))


def m_push_back(ex, st, obj, vs, e, ot):
    s = seq_of(ex, st, obj)
    x = ex.unwrap(ex.rv(st, vs[0]))
    ex.store(st, obj, SeqV(z3.Concat(s.t, z3.Unit(x)), s.et, s.kind))
    yield st, obj.at(z3.Length(s.t)) if isinstance(obj, LV) else VOID


def m_size(ex, st, obj, vs, e, ot):
    yield st, ex.length(ex.rv(st, obj))


def m_empty(ex, st, obj, vs, e, ot):
    v = ex.rv(st, obj)
    yield st, ex.length(v) == ex.num(0)


def m_nop(ex, st, obj, vs, e, ot):
    yield st, VOID


def m_clear(ex, st, obj, vs, e, ot):
    s = seq_of(ex, st, obj)
    ex.store(st, obj, SeqV(z3.Empty(s.t.sort()), s.et, s.kind))
    yield st, VOID


def m_data(ex, st, obj, vs, e, ot):
    if not isinstance(obj, LV):
        obj = st.new(obj, "tmp")
    yield st, PtrV(z3.BoolVal(False), obj, ex.num(0))
