"""Symbolic values, path states and the verification-condition generator (path-splitting symbolic execution with
contracts, loop invariants found by Houdini over contract-supplied templates, and ghost state)."""
import itertools, time
import z3
from .ast import T, type_of, qual_of, parse_type, body_of, params_of, ExtractionError

z3.set_param("smt.random_seed", 1)


class Unsupported(Exception):
    """The construct is outside the subset the generator understands (an extraction break, never a violation)."""


class Budget(Exception):
    pass


_n = itertools.count()


def fresh_name(p="t"):
    return "%s!%d" % (p, next(_n))


# ---- values ----------------------------------------------------------------------------------------------------------
class LV:
    """An lvalue: a cell plus a path of field names and ('at', index) steps."""
    __slots__ = ("cell", "path")

    def __init__(self, cell, path=()):
        self.cell, self.path = cell, path

    def f(self, name):
        return LV(self.cell, self.path + (name,))

    def at(self, i):
        return LV(self.cell, self.path + (("at", i),))

    def same(self, o):
        return isinstance(o, LV) and self.cell == o.cell and len(self.path) == len(o.path) and all(
            (a == b) if isinstance(a, str) or isinstance(b, str) else (a[1] is b[1] or z3.eq(a[1], b[1]))
            for a, b in zip(self.path, o.path))

    def __repr__(self):
        return "LV(%s%s)" % (self.cell, "".join("." + str(p) for p in self.path))


class SV:
    """Struct value (immutable)."""
    __slots__ = ("name", "fields", "targs")

    def __init__(self, name, fields, targs=()):
        self.name, self.fields, self.targs = name, fields, targs

    def with_(self, k, v):
        d = dict(self.fields)
        d[k] = v
        return SV(self.name, d, self.targs)

    def __repr__(self):
        return "SV(%s,%s)" % (self.name, list(self.fields))


class PtrV:
    """Pointer: null flag (z3 Bool), base lvalue (None if unknown) and, for pointers into arrays/containers, offset."""
    __slots__ = ("null", "base", "off")

    def __init__(self, null, base=None, off=None):
        self.null, self.base, self.off = null, base, off


class ItV:
    __slots__ = ("cont", "idx", "rev")

    def __init__(self, cont, idx, rev=False):
        self.cont, self.idx, self.rev = cont, idx, rev


class SeqV:
    """Sequence container / string value backed by an SMT sequence."""
    __slots__ = ("t", "et", "kind")

    def __init__(self, t, et, kind="seq"):
        self.t, self.et, self.kind = t, et, kind


class ArrV:
    """Read-only input sequence backed by an SMT array plus a length (bit-vector mode)."""
    __slots__ = ("arr", "n", "et")

    def __init__(self, arr, n, et):
        self.arr, self.n, self.et = arr, n, et


class Clo:
    __slots__ = ("node", "caps", "this", "name")

    def __init__(self, node, caps, this=None, name="lambda"):
        self.node, self.caps, self.this, self.name = node, caps, this, name


class UFn:
    """Opaque callable (declared-only functor or std::function), identified by a term."""
    __slots__ = ("term", "tname")

    def __init__(self, term, tname):
        self.term, self.tname = term, tname


class Obj:
    """Opaque object with identity term and arbitrary model attributes."""
    __slots__ = ("tname", "attr")

    def __init__(self, tname, **attr):
        self.tname, self.attr = tname, attr

    def with_(self, **kw):
        d = dict(self.attr)
        d.update(kw)
        return Obj(self.tname, **d)

    def __getattr__(self, k):
        try:
            return object.__getattribute__(self, "attr")[k]
        except KeyError:
            raise AttributeError(k)


class _U:
    def __repr__(self):
        return "UNINIT"


UNINIT = _U()


class _D:
    def __repr__(self):
        return "DEAD"


DEAD = _D()
VOID = None


class FnRef:
    __slots__ = ("decl",)

    def __init__(self, decl):
        self.decl = decl


class BoundM:
    """Result of a MemberExpr naming a method."""
    __slots__ = ("obj", "decl_id", "name", "objtype")

    def __init__(self, obj, decl_id, name, objtype):
        self.obj, self.decl_id, self.name, self.objtype = obj, decl_id, name, objtype


# ---- states ----------------------------------------------------------------------------------------------------------
class St:
    __slots__ = ("pc", "mem", "frames", "ghost", "thrown", "this", "trace", "retslot")

    def __init__(self):
        self.pc = []
        self.mem = {}
        self.frames = [{}]
        self.ghost = {}
        self.thrown = None
        self.this = None
        self.trace = ()

    def fork(self):
        s = St.__new__(St)
        s.pc = list(self.pc)
        s.mem = dict(self.mem)
        s.frames = [dict(f) for f in self.frames]
        s.ghost = dict(self.ghost)
        s.thrown = self.thrown
        s.this = self.this
        s.trace = self.trace
        return s

    @property
    def env(self):
        return self.frames[-1]

    def assume(self, f):
        if z3.is_true(f):
            return
        self.pc.append(f)

    def new(self, v, hint="c"):
        c = fresh_name(hint)
        self.mem[c] = v
        return LV(c)


class Obligation:
    __slots__ = ("name", "status", "time", "model", "backend", "kind", "loc", "path", "note", "assertion")

    def __init__(self, name, status, t, model=None, backend="z3", kind="post", loc="", note=""):
        self.name, self.status, self.time, self.model, self.backend = name, status, t, model, backend
        self.kind, self.loc, self.note = kind, loc, note


def same_value(a, b):
    if a is b:
        return True
    if isinstance(a, z3.ExprRef) and isinstance(b, z3.ExprRef):
        return z3.eq(a, b)
    if isinstance(a, SV) and isinstance(b, SV):
        return a.fields.keys() == b.fields.keys() and all(same_value(a.fields[k], b.fields[k]) for k in a.fields)
    if isinstance(a, ItV) and isinstance(b, ItV):
        return a.rev == b.rev and a.cont.same(b.cont) and z3.eq(a.idx, b.idx)
    if isinstance(a, PtrV) and isinstance(b, PtrV):
        return (z3.eq(a.null, b.null) and (a.base is b.base or (a.base is not None and a.base.same(b.base))) and
                (a.off is b.off or (a.off is not None and b.off is not None and z3.eq(a.off, b.off))))
    if isinstance(a, SeqV) and isinstance(b, SeqV):
        return z3.eq(a.t, b.t)
    if isinstance(a, ArrV) and isinstance(b, ArrV):
        return z3.eq(a.arr, b.arr) and (a.n is b.n or z3.eq(a.n, b.n))
    if isinstance(a, UFn) and isinstance(b, UFn):
        return z3.eq(a.term, b.term)
    if isinstance(a, Obj) and isinstance(b, Obj):
        return a.attr.keys() == b.attr.keys() and all(same_value(a.attr[k], b.attr[k]) for k in a.attr)
    if isinstance(a, LV) and isinstance(b, LV):
        return a.same(b)
    if isinstance(a, (bool, int, str, tuple, frozenset, type(None))) and type(a) == type(b):
        if isinstance(a, tuple):
            return len(a) == len(b) and all(same_value(x, y) for x, y in zip(a, b))
        return a == b
    return False
