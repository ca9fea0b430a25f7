"""A01-A05: iterator.hpp and container.hpp."""
import z3
from ..ast import Ast, parse_type, type_of
from ..engine import opaque_sort, repr_type
from ..sym import *
from ..contract import Contract
from ..iters import IterEx, INT
from ..strs import CaseEx
from .. import solve

PRE = r'''
#include <pluto/container.hpp>
#include <pluto/string.hpp>
#include <vector>
#include <list>
#include <deque>
#include <forward_list>
#include <set>
#include <string>
namespace pluto_vp {
struct L { L(const L&); L& operator=(const L&); };
struct R { R(const R&); };
struct E { E(const E&); E& operator=(const E&); explicit operator bool() const; };
bool operator==(const L&, const R&);
bool operator==(const E&, const E&);
bool operator<(const E&, const E&);
struct P { P(const P&); bool operator()(const L&, const R&) const; bool operator()(const R&, const L&) const; };
struct Q { Q(const Q&); bool operator()(const E&) const; };
struct O { O(const O&); bool operator()(const E&, const E&) const; };
struct D { D(); D(const D&); D& operator=(const D&); bool operator<(const D&) const; };
struct FN { FN(const FN&); D operator()(const E&) const; };
struct G { G(const G&); void operator()(E&) const; };
struct A { A(); A(const A&); A& operator+=(const E&); };
A operator+(const A&, const E&);
%s
}
'''
VEC = ["std::vector<%s>", "std::list<%s>", "std::forward_list<%s>", "std::deque<%s>"]
PAIRS = [(0, 0), (1, 1), (2, 2), (0, 1), (1, 0), (3, 3), ("p", "p"), ("g", "p")]
SORT = {n: opaque_sort("pluto_vp::" + n) for n in "LREPQODGA"}
SORT["FN"] = opaque_sort("pluto_vp::FN")


def ctype(k, el):
    return VEC[k] % el


def itype(k, el):
    return "const %s*" % el if k == "p" else VEC[k] % el + "::const_iterator"


def arr(name, el):
    return z3.Const(name, z3.ArraySort(INT, SORT[el]))


class Loops(Contract):
    """Loop-invariant templates: quantified prefixes and suffixes, folds, best-so-far pointers."""

    def __init__(self, name):
        Contract.__init__(self, name)
        self.pairs = []       # (term(k)) element-wise facts over positions
        self.folds = []       # (value -> term(i))
        self.best = []        # (lt, array): best-so-far pointers
        self.extra = []

    def invariants(self, ex, st, mod, idx):
        out = []
        for n, f, m in idx:
            if not m:
                continue
            e = f(st)
            for pn, p in self.pairs:
                out.append(("forall k in [entry,%s): %s" % (n, pn), lambda s, f=f, e=e, p=p: ex.forall(e, f(s), p)))
                out.append(("forall k in [%s,entry): %s" % (n, pn), lambda s, f=f, e=e, p=p: ex.forall(f(s), e, p)))
            for fn, fo in self.folds:
                for c in ex.scope_cells(st):
                    v = st.mem[c]
                    t = fo(e)
                    if c in mod and isinstance(v, z3.ExprRef) and v.sort() == t.sort():
                        out.append(("%s==%s(%s)" % (c.split("!")[0], fn, n), lambda s, c=c, f=f, fo=fo: s.mem[c] == fo(f(s))))
            for bn, lt, a, cont in self.best:
                for c in ex.scope_cells(st):
                    nv = mod.get(c)
                    if not isinstance(nv, PtrV) or nv.base is None or not nv.base.same(cont):
                        continue

                    def off(s, c=c):
                        v = s.mem[c]
                        if not isinstance(v, PtrV):
                            raise Unsupported("pointer expected")
                        return v.off if v.off is not None else z3.IntVal(0)
                    nm = c.split("!")[0]
                    out.append(("%s null iff nothing seen" % nm, lambda s, c=c, f=f, e=e: s.mem[c].null == (f(s) == e)))
                    out.append(("%s seen" % nm, lambda s, c=c, f=f, off=off: z3.Or(s.mem[c].null, z3.And(0 <= off(s), off(s) < f(s)))))
                    out.append(("%s best (%s)" % (nm, bn), lambda s, c=c, f=f, e=e, off=off, lt=lt, a=a: z3.Or(s.mem[c].null, ex.forall(
                        e, f(s), lambda k: z3.Not(lt(z3.Select(a, k), z3.Select(a, off(s))))))))
                    out.append(("%s first (%s)" % (nm, bn), lambda s, c=c, f=f, e=e, off=off, lt=lt, a=a: z3.Or(s.mem[c].null, ex.forall(
                        e, off(s), lambda k: lt(z3.Select(a, off(s)), z3.Select(a, k))))))
        return out


def mk(txt, c, std):
    ast = Ast.load(PRE % txt, std)
    ex = IterEx(ast, c, 300)
    return ex


def put(st, name, a, n, el):
    st.assume(z3.And(0 <= n, n <= (1 << 62)))
    st.mem[name] = ArrV(a, n, parse_type("pluto_vp::" + el))
    return LV(name)


def call(ex, st, fn, args):
    k = 0
    for s, v in ex.inline(st, ex.ast.driver_fn(fn), args):
        k += 1
        if s.thrown:
            ex.oblige(s, "post:no-exception(%s)" % fn, z3.BoolVal(False))
            continue
        yield s, v
    if not k:
        ex.oblige(st, "reachable:" + fn, z3.BoolVal(False))


def frame(ex, s, st, names, fn):
    ok = all(same_value(s.mem[n], st.mem[n]) for n in names)
    ex.oblige(s, "frame:%s leaves its arguments unchanged" % fn, z3.BoolVal(ok))


def eqq(ex, x, y):
    return ex.uf("op==:" + x.sort().name(), x.sort(), y.sort(), z3.BoolSort())(x, y)


def papply(ex, p, *xs):
    rec = p.sort().name().split("::")[-1]
    return ex.uf("uf:%s::operator()" % rec, p.sort(), *[x.sort() for x in xs], z3.BoolSort())(p, *xs)


# ---- A01 ------------------------------------------------------------------------------------------------------------
def a01(r, pi, std):
    kl, kr = PAIRS[pi]
    guard = kl == "g"
    if guard:
        kl = 0
    LI, RI = itype(kl, "L"), itype(kr, "R")
    txt = ""
    bidir = 2 not in (kl, kr)
    fns = ["equals", "starts_with"] + (["ends_with"] if bidir else [])
    for f in fns:
        txt += "bool i_%s(%s a, %s b, %s c, %s d, P p) { return pluto::%s(a, b, c, d, p); }\n" % (f, LI, LI, RI, RI, f)
        txt += "bool d_%s(%s a, %s b, %s c, %s d) { return pluto::%s(a, b, c, d); }\n" % (f, LI, LI, RI, RI, f)
        if "p" not in (kl, kr):
            txt += "bool c_%s(const %s& a, const %s& b, P p) { return pluto::%s(a, b, p); }\n" % (f, ctype(kl, "L"), ctype(kr, "R"), f)
            txt += "bool e_%s(const %s& a, const %s& b) { return pluto::%s(a, b); }\n" % (f, ctype(kl, "L"), ctype(kr, "R"), f)
    txt += "bool i_same(%s a, %s b, %s c, P p) { return pluto::equals_same_size(a, b, c, p); }\n" % (LI, LI, RI)
    if kl == "p":
        txt += "struct PE { PE(const PE&); bool operator()(const E&, const E&) const; };\n"
        for f in fns:
            txt += "bool z_%s(const E* a, std::size_t n, const E* b, std::size_t m, O p) { return pluto::%s(a, n, b, m, p); }\n" % (f, f)
    c = Loops("%s/%s" % (LI.split("::const")[0], RI.split("::const")[0]))
    ex = mk(txt, c, std)
    st = St()
    A, B = arr("a", "L"), arr("b", "R")
    n, m = z3.Ints("n m")
    la, lb = put(st, "l", A, n, "L"), put(st, "r", B, m, "R")
    p = z3.Const("p", SORT["P"])
    st.mem["p"] = p
    Z = z3.IntVal(0)

    def pos(lv, i, k):
        return PtrV(z3.BoolVal(False), lv, i) if k == "p" else ItV(lv, i)
    its = [pos(la, Z, kl), pos(la, n, kl), pos(lb, Z, kr), pos(lb, m, kr)]

    def want(f, rel, n, m):
        if f == "equals":
            return z3.And(n == m, ex.forall(Z, m, lambda k: rel(k, k)))
        if f == "starts_with":
            return z3.And(m <= n, ex.forall(Z, m, lambda k: rel(k, k)))
        return z3.And(m <= n, ex.forall(Z, m, lambda k: rel(k + n - m, k)))
    relp = lambda i, j: papply(ex, p, z3.Select(A, i), z3.Select(B, j))
    reld = lambda i, j: eqq(ex, z3.Select(A, i), z3.Select(B, j))
    for f in fns:
        todo = [("i_", its + [LV("p")], relp), ("d_", its, reld)]
        if "p" not in (kl, kr):
            todo += [("c_", [la, lb, LV("p")], relp), ("e_", [la, lb], reld)]
        for pre, args, rel in todo:
            c.pairs = [("pair(k,k)", lambda k, rel=rel: rel(k, k)), ("pair(k+n-m,k)", lambda k, rel=rel: rel(k + n - m, k)),
                       ("pair(k,k+m-n)", lambda k, rel=rel: rel(k, k + m - n))]
            for s, v in call(ex, st.fork(), pre + f, args):
                ex.oblige(s, "post:%s%s iff the element-wise relation holds" % (pre, f), ex.boolv(v) == want(f, rel, n, m))
                frame(ex, s, st, ["l", "r"], pre + f)
    s0 = st.fork()
    s0.assume(n <= m)
    for s, v in call(ex, s0, "i_same", its[:3] + [LV("p")]):
        ex.oblige(s, "post:equals_same_size iff every pair is related", ex.boolv(v) == ex.forall(Z, n, lambda k: relp(k, k)))
    if kl == "p":
        E1, E2 = arr("x", "E"), arr("y", "E")
        s1 = St()
        put(s1, "l", E1, n, "E"), put(s1, "r", E2, m, "E")
        o = z3.Const("o", SORT["O"])
        s1.mem["p"] = o
        rel = lambda i, j: papply(ex, o, z3.Select(E1, i), z3.Select(E2, j))
        for f in fns:
            c.pairs = [("pair(k,k)", lambda k: rel(k, k)), ("pair(k+n-m,k)", lambda k: rel(k + n - m, k))]
            for s, v in call(ex, s1.fork(), "z_" + f, [its[0], n, its[2], m, LV("p")]):
                ex.oblige(s, "post:%s(pointer,size) iff the element-wise relation holds" % f, ex.boolv(v) == want(f, rel, n, m))
    ex.covers = 1
    r.absorb(ex)


# ---- A01/A02 over strings: the overloads of string.hpp --------------------------------------------------------------
STRS = [("std::string", "char"), ("std::wstring", "wchar_t"), ("std::u16string", "char16_t"), ("std::u32string", "char32_t"), ("std::u8string", "char8_t")]


def astr(pid, r, si, std):
    S, C = STRS[si]
    fns = ["equals", "starts_with", "ends_with"] if pid == "A01" else ["find", "rfind", "contains"]
    txt = "struct PC { PC(const PC&); bool operator()(const %s&, const %s&) const; };\n" % (C, C)
    for f in fns:
        txt += "auto p_%(f)s(const %(S)s& s, const %(S)s& t, PC p) { return pluto::%(f)s(s, t, p); }\n" % {"f": f, "S": S}
        txt += "auto d_%(f)s(const %(S)s& s, const %(S)s& t) { return pluto::%(f)s(s, t); }\n" % {"f": f, "S": S}
        txt += "auto z_%(f)s(const %(C)s* a, std::size_t n, const %(C)s* b, std::size_t m, PC p) { return pluto::%(f)s(a, n, b, m, p); }\n" % {"f": f, "C": C}
        txt += "auto y_%(f)s(const %(C)s* a, std::size_t n, const %(C)s* b, std::size_t m) { return pluto::%(f)s(a, n, b, m); }\n" % {"f": f, "C": C}
        if pid == "A02":
            txt += "auto g_%(f)s(const %(S)s& s, const %(S)s& t) { return pluto::%(f)s<>(s, t); }\n" % {"f": f, "S": S}
    c = Loops(S)
    # the Unicode overloads are behind a documented macro, off by default here
    ex = CaseEx(Ast.load(("#define PLUTO_STRING_OVERLOAD_FOR_UNICODE 1\n" if si > 1 else "") + PRE % txt, std), c, 300)
    st = St()
    T = parse_type(C)
    es = ex.sort_of(T)
    A, B = z3.Const("a", z3.ArraySort(INT, es)), z3.Const("b", z3.ArraySort(INT, es))
    n, m = z3.Ints("n m")
    st.assume(z3.And(0 <= n, n <= (1 << 62), 0 <= m, m <= (1 << 62)))
    st.mem["s"], st.mem["t"] = ArrV(A, n, T), ArrV(B, m, T)
    p = z3.Const("p", opaque_sort("pluto_vp::PC"))
    st.mem["p"] = p
    Z = z3.IntVal(0)
    P = lambda lv, i: PtrV(z3.BoolVal(False), LV(lv), i)
    relp = lambda i, j: papply(ex, p, z3.Select(A, i), z3.Select(B, j))
    reld = lambda i, j: z3.Select(A, i) == z3.Select(B, j)
    for f in fns:
        for pre in "pdzy" + ("g" if pid == "A02" else ""):
            fn = pre + "_" + f
            rel = relp if pre in "pz" else reld
            args = ([P("s", Z), n, P("t", Z), m] if pre in "zy" else [LV("s"), LV("t")]) + ([LV("p")] if pre in "pz" else [])
            c.pairs = [("pair(k,k)", lambda k, rel=rel: rel(k, k)), ("pair(k+n-m,k)", lambda k, rel=rel: rel(k + n - m, k)),
                       ("pair(k,k+m-n)", lambda k, rel=rel: rel(k, k + m - n))]
            pred = Obj("functor", pure=(lambda s, u, v: papply(ex, p, u, v)) if pre in "pz" else (lambda s, u, v: u == v))
            M = lambda j: ex.matchat(st, P("s", Z), j, P("t", Z), m, pred)
            no = lambda j: z3.Implies(j + m <= n, z3.Not(M(j)))
            for s, v in call(ex, st.fork(), fn, args):
                frame(ex, s, st, ["s", "t"], fn)
                if pid == "A01":
                    w = z3.And(n == m if f == "equals" else m <= n, ex.forall(Z, m, lambda k: rel(k + n - m if f == "ends_with" else k, k)))
                    ex.oblige(s, "post:%s over strings iff the element-wise relation holds" % fn, ex.boolv(v) == w)
                    continue
                if f == "contains":
                    ex.oblige(s, "post:%s over strings iff empty or somewhere" % fn, ex.boolv(v) == z3.Or(m == 0, z3.Not(ex.forall(Z, n, no))))
                    continue
                it = ex.it(ex.rv(s, v))
                i = it.idx
                ex.oblige(s, "post:%s returns a forward position of the left string" % fn, z3.And(z3.BoolVal(it.cont.same(LV("s")) and not it.rev), 0 <= i, i <= n))
                ex.oblige(s, "post:%s returns a match or the end" % fn, z3.Implies(i < n, z3.And(i + m <= n, M(i))))
                if f == "find":
                    ex.oblige(s, "post:%s finds an empty string at the begin" % fn, z3.Implies(m == 0, i == 0))
                    ex.oblige(s, "post:%s returns the first match" % fn, ex.forall(Z, i, no))
                else:
                    ex.oblige(s, "post:%s returns the last match" % fn, z3.Implies(m > 0, ex.forall(Z, n, lambda j: z3.Implies(
                        z3.And(j + m <= n, z3.Or(i == n, j > i)), z3.Not(M(j))))))
    r.absorb(ex)


# ---- A02 ------------------------------------------------------------------------------------------------------------
A02K = [0, 1, 2, 3, "p"]


def a02(r, ki, std):
    k = A02K[ki]
    bid = k not in (2, "p")       # over raw pointers the single-element backward searches do not compile
    IT = itype(k, "E")
    LI, RI = itype(k, "L"), itype(k, "R")
    cont = k != "p"
    C = ctype(k, "E") if cont else ""
    txt = ""
    one = ["find", "contains"] + (["rfind"] if bid else [])
    for f in one:
        txt += "auto i_%s(%s a, %s b, const E& x) { return pluto::%s(a, b, x); }\n" % (f, IT, IT, f)
        if cont:
            txt += "auto c_%s(const %s& c, const E& x) { return pluto::%s_elem(c, x); }\n" % (f, C, f)
    ifs = ["find_if", "find_if_not"] + (["rfind_if", "rfind_if_not"] if bid else [])
    for f in ifs:
        txt += "auto i_%s(%s a, %s b, Q q) { return pluto::%s(a, b, q); }\n" % (f, IT, IT, f)
        if cont:
            txt += "auto c_%s(const %s& c, Q q) { return pluto::%s(c, q); }\n" % (f, C, f)
    seqs = ["find", "contains", "rfind"]
    for f in seqs:
        txt += "auto s_%s(%s a, %s b, %s c, %s d, P p) { return pluto::%s(a, b, c, d, p); }\n" % (f, LI, LI, RI, RI, f)
        txt += "auto t_%s(%s a, %s b, %s c, %s d) { return pluto::%s(a, b, c, d); }\n" % (f, LI, LI, RI, RI, f)
        if cont:
            txt += "auto u_%s(const %s& l, const %s& r, P p) { return pluto::%s_sequence(l, r, p); }\n" % (f, ctype(k, "L"), ctype(k, "R"), f)
            txt += "auto v_%s(const %s& l, const %s& r) { return pluto::%s_sequence(l, r); }\n" % (f, ctype(k, "L"), ctype(k, "R"), f)
    c = Loops(IT.split("::const")[0])
    ex = mk(txt, c, std)
    x1, y1 = z3.Consts("x1 y1", SORT["E"])
    eq = lambda a, b: eqq(ex, a, b)
    ex.axioms.append(z3.ForAll([x1, y1], eq(x1, y1) == eq(y1, x1)))
    st = St()
    X, A, B = arr("c", "E"), arr("a", "L"), arr("b", "R")
    n, m, w = z3.Ints("n m w")
    lc = put(st, "c", X, w, "E")
    la, lb = put(st, "l", A, n, "L"), put(st, "r", B, m, "R")
    st.mem["x"] = z3.Const("x", SORT["E"])
    st.mem["q"] = z3.Const("q", SORT["Q"])
    st.mem["p"] = z3.Const("p", SORT["P"])
    Z = z3.IntVal(0)

    def pos(lv, i):
        return PtrV(z3.BoolVal(False), lv, i) if k == "p" else ItV(lv, i)
    cit = [pos(lc, Z), pos(lc, w)]
    sit = [pos(la, Z), pos(la, n), pos(lb, Z), pos(lb, m)]

    def result(s, f, v, lv, n, p, last):
        """p(k): a match at position k; v must be the first/last match in [0, n) or n"""
        v = ex.rv(s, v)
        if not isinstance(v, (ItV, PtrV)):
            ex.oblige(s, "post:%s returns an iterator" % f, z3.BoolVal(False))
            return
        it = ex.it(v)
        ex.oblige(s, "post:%s returns a forward iterator of the container" % f, z3.BoolVal(it.cont.same(lv) and not it.rev))
        i = it.idx
        ex.oblige(s, "post:%s returns a position in the range" % f, z3.And(0 <= i, i <= n))
        ex.oblige(s, "post:%s returns a match or the end" % f, z3.Implies(i < n, p(i)))
        if last:
            ex.oblige(s, "post:%s returns the last match" % f, ex.forall(Z, n, lambda j: z3.Implies(z3.Or(i == n, j > i), z3.Not(p(j)))))
        else:
            ex.oblige(s, "post:%s returns the first match" % f, ex.forall(Z, i, lambda j: z3.Not(p(j))))
    E_ = lambda j: eq(z3.Select(X, j), st.mem["x"])
    for f in one:
        for pre, args in (("i_", cit + [LV("x")]),) + ((("c_", [lc, LV("x")]),) if cont else ()):
            c.pairs = [("match", E_), ("no match", lambda j: z3.Not(E_(j)))]
            for s, v in call(ex, st.fork(), pre + f, args):
                if f == "contains":
                    ex.oblige(s, "post:%s iff some element equals" % f, ex.boolv(v) == z3.Not(ex.forall(Z, w, lambda j: z3.Not(E_(j)))))
                else:
                    result(s, pre + f, v, lc, w, E_, f == "rfind")
                frame(ex, s, st, ["c", "x"], pre + f)
    for f in ifs:
        neg = f.endswith("_not")
        P_ = lambda j, neg=neg: papply(ex, st.mem["q"], z3.Select(X, j)) != z3.BoolVal(neg)
        for pre, args in (("i_", cit + [LV("q")]),) + ((("c_", [lc, LV("q")]),) if cont else ()):
            c.pairs = [("match", P_), ("no match", lambda j: z3.Not(P_(j)))]
            for s, v in call(ex, st.fork(), pre + f, args):
                result(s, pre + f, v, lc, w, P_, f[0] == "r")
                frame(ex, s, st, ["c"], pre + f)
    for f in seqs:
        for pre in ("s_", "t_") + (("u_", "v_") if cont else ()):
            pr = LV("p") if pre in ("s_", "u_") else None
            pred = st.mem["p"] if pr is not None else ex.functor("==")
            args = (sit if pre in ("s_", "t_") else [la, lb]) + ([pr] if pr is not None else [])
            M = lambda j: ex.matchat(st, pos(la, Z), j, pos(lb, Z), m, pred)
            for s, v in call(ex, st.fork(), pre + f, args):
                some = z3.Not(ex.forall(Z, n, lambda j: z3.Implies(j + m <= n, z3.Not(M(j)))))
                if f == "contains":
                    ex.oblige(s, "post:%s%s iff empty or somewhere" % (pre, f), ex.boolv(v) == z3.Or(m == 0, some))
                else:
                    v = ex.rv(s, v)
                    it = ex.it(v)
                    i = it.idx
                    ex.oblige(s, "post:%s%s returns a forward iterator of the left range" % (pre, f), z3.BoolVal(it.cont.same(la) and not it.rev))
                    ex.oblige(s, "post:%s%s position" % (pre, f), z3.And(0 <= i, i <= n))
                    ex.oblige(s, "post:%s%s match or end" % (pre, f), z3.Implies(i < n, z3.And(i + m <= n, M(i))))
                    if f == "find":
                        ex.oblige(s, "post:%s%s empty sequence is found at the begin" % (pre, f), z3.Implies(m == 0, i == 0))
                        ex.oblige(s, "post:%s%s first match" % (pre, f), ex.forall(Z, i, lambda j: z3.Implies(j + m <= n, z3.Not(M(j)))))
                    else:
                        ex.oblige(s, "post:%s%s last match" % (pre, f), z3.Implies(m > 0, ex.forall(Z, n, lambda j: z3.Implies(
                            z3.And(j + m <= n, z3.Or(i == n, j > i)), z3.Not(M(j))))))
                frame(ex, s, st, ["l", "r"], pre + f)
    r.absorb(ex)


# ---- A03 ------------------------------------------------------------------------------------------------------------
A03K = [0, 1, 3]


def a03(r, ki, std):
    C = ctype(A03K[ki], "E")
    txt = "%s sl(const %s& c, long long a, long long b) { return pluto::slice(c, a, b); }\n" % (C, C)
    txt += "%s sl1(const %s& c, long long b) { return pluto::slice(c, b); }\n" % (C, C)
    txt += "auto le(const %s& c) { return pluto::len(c); }\n" % C
    ex = mk(txt, Loops(C), std)
    st = St()
    X = arr("c", "E")
    n, a, b = z3.Ints("n start stop")
    lc = put(st, "c", X, n, "E")
    LLm = 1 << 63
    for v in (a, b):
        st.assume(z3.And(-LLm <= v, v < LLm))
    Z = z3.IntVal(0)

    def norm(i):
        j = z3.If(i < 0, i + n, i)
        return z3.If(j < 0, 0, z3.If(j > n, n, j))

    def post(fn, args, a, b):
        for s, v in call(ex, st.fork(), fn, args):
            v = ex.rv(s, v)
            lo, hi = norm(a), norm(b)
            cnt = z3.If(lo < hi, hi - lo, 0)
            ex.oblige(s, "post:%s has max(0, stop-start) elements after normalisation" % fn, v.n == cnt)
            ex.oblige(s, "post:%s elements are c[start..stop) in order" % fn, ex.forall(Z, cnt, lambda k: z3.Select(v.arr, k) == z3.Select(X, lo + k)))
            frame(ex, s, st, ["c"], fn)
    post("sl", [lc, a, b], a, b)
    post("sl1", [lc, b], Z, b)
    for s, v in call(ex, st.fork(), "le", [lc]):
        ex.oblige(s, "post:len is the number of elements", v == n)
    r.absorb(ex)


# ---- A04 ------------------------------------------------------------------------------------------------------------
A04K = [0, 1, 2, 3]


def a04(r, ki, std):
    if ki >= len(A04K):
        return a04n(r, ki - len(A04K), std)
    C = ctype(A04K[ki], "E")
    d = {"C": C}
    txt = '''
bool any_(const %(C)s& c, Q q) { return pluto::any(c, q); }
bool all_(const %(C)s& c, Q q) { return pluto::all(c, q); }
bool anyd(const %(C)s& c) { return pluto::any(c); }
bool alld(const %(C)s& c) { return pluto::all(c); }
std::size_t cnt(const %(C)s& c, const E& x) { return pluto::count(c, x); }
std::size_t cntif(const %(C)s& c, Q q) { return pluto::count_if(c, q); }
A sum_(const %(C)s& c, A a) { return pluto::sum(c, a); }
const E& mn(const %(C)s& c) { return (pluto::min)(c); }
const E& mx(const %(C)s& c) { return (pluto::max)(c); }
const E& mnp(const %(C)s& c, O o) { return (pluto::min)(c, o); }
const E& mxp(const %(C)s& c, O o) { return (pluto::max)(c, o); }
''' % d
    c = Loops(C)
    ex = mk(txt, c, std)
    st = St()
    X = arr("c", "E")
    n = z3.Int("n")
    lc = put(st, "c", X, n, "E")
    st.mem["x"] = z3.Const("x", SORT["E"])
    st.mem["q"] = z3.Const("q", SORT["Q"])
    st.mem["o"] = z3.Const("o", SORT["O"])
    st.mem["a"] = z3.Const("a0", SORT["A"])
    x1, y1 = z3.Consts("x1 y1", SORT["E"])
    ex.axioms.append(z3.ForAll([x1, y1], eqq(ex, x1, y1) == eqq(ex, y1, x1)))
    Z = z3.IntVal(0)
    qf = lambda y: papply(ex, st.mem["q"], y)
    tf = lambda y: ex.uf("uf:E::operator bool", SORT["E"], z3.BoolSort())(y)
    P_ = lambda j: qf(z3.Select(X, j))
    T_ = lambda j: tf(z3.Select(X, j))

    for fn, p, args in (("any_", P_, [lc, LV("q")]), ("all_", P_, [lc, LV("q")]), ("anyd", T_, [lc]), ("alld", T_, [lc])):
        c.pairs = [("p", p), ("not p", lambda k, p=p: z3.Not(p(k)))]
        for s, v in call(ex, st.fork(), fn, args):
            if fn.startswith("any"):
                ex.oblige(s, "post:any iff some element satisfies the predicate", ex.boolv(v) == z3.Not(ex.forall(Z, n, lambda k: z3.Not(p(k)))))
            else:
                ex.oblige(s, "post:all iff every element satisfies the predicate", ex.boolv(v) == ex.forall(Z, n, p))
            frame(ex, s, st, ["c"], fn)
    c.pairs = []
    ef = lambda y: eqq(ex, y, st.mem["x"])
    for fn, pf, args in (("cnt", ef, [lc, LV("x")]), ("cntif", qf, [lc, LV("q")])):
        fo = lambda i, pf=pf: ex.cnt("p", pf, X, Z, i)
        c.folds = [("CNT", fo)]
        for s, v in call(ex, st.fork(), fn, args):
            ex.oblige(s, "post:%s is the number of matching elements" % fn, v == fo(n))
            frame(ex, s, st, ["c"], fn)
    plus = lambda a, y: ex.uf("op+:pluto_vp::A", SORT["A"], SORT["E"], SORT["A"])(a, y)
    fo = lambda i: ex.accum(plus, X, Z, st.mem["a"], i)
    c.folds = [("SUM", fo)]
    for s, v in call(ex, st.fork(), "sum_", [lc, LV("a")]):
        ex.oblige(s, "post:sum adds every element in order to the initial value", ex.rv(s, v) == fo(n))
        frame(ex, s, st, ["c"], "sum")
    c.folds = []
    # min/max: the order is given by a rank (every strict weak order on the finitely many elements has one)
    rk = z3.Function("rank", SORT["E"], INT)
    lt0 = lambda a, b: ex.uf("op<:pluto_vp::E", SORT["E"], SORT["E"], z3.BoolSort())(a, b)
    rko = z3.Function("ranko", SORT["E"], INT)
    lt1 = lambda a, b: papply(ex, st.mem["o"], a, b)
    ex.axioms.append(z3.ForAll([x1, y1], lt0(x1, y1) == (rk(x1) < rk(y1)), patterns=[lt0(x1, y1)]))
    ex.axioms.append(z3.ForAll([x1, y1], lt1(x1, y1) == (rko(x1) < rko(y1)), patterns=[lt1(x1, y1)]))
    for fn, lt, args in (("mn", lt0, [lc]), ("mx", lambda a, b: lt0(b, a), [lc]), ("mnp", lt1, [lc, LV("o")]), ("mxp", lambda a, b: lt1(b, a), [lc, LV("o")])):
        c.best = [("rank", lt, X, lc)]
        s0 = st.fork()
        s0.assume(n > 0)
        for s, v in call(ex, s0, fn, args):
            ok = isinstance(v, LV) and v.path and not isinstance(v.path[-1], str) and LV(v.cell, v.path[:-1]).same(lc)
            ex.oblige(s, "post:%s returns a reference to an element of the container" % fn, z3.BoolVal(bool(ok)))
            if not ok:
                continue
            i = v.path[-1][1]
            ex.oblige(s, "post:%s position" % fn, z3.And(0 <= i, i < n))
            ex.oblige(s, "post:%s no element precedes the result" % fn, ex.forall(Z, n, lambda k: z3.Not(lt(z3.Select(X, k), z3.Select(X, i)))))
            ex.oblige(s, "post:%s is the first such element" % fn, ex.forall(Z, i, lambda k: lt(z3.Select(X, i), z3.Select(X, k))))
            frame(ex, s, st, ["c"], fn)
    r.absorb(ex)


def a04n(r, ki, std):
    """sums of numbers: narrow elements in a wider type or in their own"""
    C = ctype(A04K[ki], "unsigned char")
    c = Loops(C)
    ex = mk('''
unsigned long long sumw(const %(B)s& c, unsigned long long a) { return pluto::sum(c, a); }
unsigned char sumb(const %(B)s& c) { return pluto::sum(c); }
unsigned char sumc(const %(B)s& c, unsigned char a) { return pluto::sum(c, a); }
''' % {"B": C}, c, std)
    st = St()
    X = z3.Const("c", z3.ArraySort(INT, INT))
    n, k, w, b = z3.Ints("n k w b")
    st.assume(z3.And(0 <= n, n <= (1 << 62), 0 <= w, w < (1 << 64), 0 <= b, b < 256))
    st.assume(z3.ForAll([k], z3.And(0 <= z3.Select(X, k), z3.Select(X, k) < 256), patterns=[z3.Select(X, k)]))
    st.mem.update(c=ArrV(X, n, parse_type("unsigned char")), w=w, b=b)
    Z = z3.IntVal(0)
    for fn, args, init, mod in (("sumw", [LV("c"), LV("w")], w, 1 << 64), ("sumb", [LV("c")], Z, 256), ("sumc", [LV("c"), LV("b")], b, 256)):
        fo = lambda i, init=init, mod=mod: ex.accum(lambda a, y: (a + y) % mod, X, Z, init, i)
        c.folds = [("SUM", fo)]
        for s, v in call(ex, st.fork(), fn, args):
            ex.oblige(s, "post:%s adds every number in order to the initial value" % fn, v == fo(n))
            frame(ex, s, st, ["c"], fn)
    r.absorb(ex)


# ---- A05 ------------------------------------------------------------------------------------------------------------
A05K = [0, 1, 3]


def a05(r, ki, std):
    k = A05K[ki]
    C, CD = ctype(k, "E"), ctype(k, "D")
    I, ID = C + "::iterator", CD + "::iterator"
    d = dict(C=C, CD=CD, I=I, ID=ID)
    txt = '''
%(C)s& fil(%(C)s& c, Q q) { return pluto::filter(c, q); }
%(I)s fili(%(I)s a, %(I)s b, Q q) { return pluto::filter(a, b, q); }
%(C)s& rev(%(C)s& c) { return pluto::reverse(c); }
void revi(%(I)s a, %(I)s b) { pluto::reverse(a, b); }
%(C)s& fe(%(C)s& c, G g) { return pluto::for_each(c, g); }
void fei(%(I)s a, %(I)s b, G g) { pluto::for_each(a, b, g); }
%(CD)s& mp(const %(C)s& c, %(CD)s& d, FN f) { return pluto::map(c, d, f); }
%(CD)s mpv(const %(C)s& c, FN f) { return pluto::map<%(CD)s>(c, f); }
%(CD)s mpt(const %(C)s& c, FN f) { return pluto::map(c, f); }
std::set<D>& mps(const %(C)s& c, std::set<D>& d, FN f) { return pluto::map(c, d, f); }
void mpi(%(C)s::const_iterator a, %(C)s::const_iterator b, %(ID)s d, FN f) { pluto::map(a, b, d, f); }
''' % d
    ra = k != 1
    if ra:
        txt += '''
%(C)s& so(%(C)s& c) { return pluto::sort(c); }
%(C)s& sop(%(C)s& c, O o) { return pluto::sort(c, o); }
void soi(%(I)s a, %(I)s b, O o) { pluto::sort(a, b, o); }
void soid(%(I)s a, %(I)s b) { pluto::sort(a, b); }
''' % d
    c = Loops(C)
    ex = mk(txt, c, std)
    st = St()
    X, Y = arr("c", "E"), arr("d", "D")
    n, m, p0 = z3.Ints("n m p0")
    lc, ld = put(st, "c", X, n, "E"), put(st, "d", Y, m, "D")
    st.mem["q"] = z3.Const("q", SORT["Q"])
    st.mem["o"] = z3.Const("o", SORT["O"])
    st.mem["f"] = z3.Const("f", SORT["FN"])
    st.mem["g"] = z3.Const("g", SORT["G"])
    Z = z3.IntVal(0)
    its = [ItV(lc, Z), ItV(lc, n)]
    qf = lambda y: papply(ex, st.mem["q"], y)
    fn_ = lambda y: ex.uf("uf:FN::operator()", SORT["FN"], SORT["E"], SORT["D"])(st.mem["f"], y)

    def isref(s, v, lv, fn):
        ex.oblige(s, "post:%s returns the container" % fn, z3.BoolVal(isinstance(v, LV) and v.same(lv)))
    cn = ex.cnt("p", qf, X, Z, n)
    for s, v in call(ex, st.fork(), "fil", [lc, LV("q")]):
        isref(s, v, lc, "filter")
        w = s.mem["c"]
        ex.oblige(s, "post:filter keeps as many elements as satisfy the predicate", w.n == cn)
        ex.oblige(s, "post:filter keeps exactly the satisfying elements in order", ex.is_filtered(qf, X, Z, n, w.arr, Z))
    for s, v in call(ex, st.fork(), "fili", its + [LV("q")]):
        it = ex.it(ex.rv(s, v))
        ex.oblige(s, "post:filter(iterators) returns the new end", z3.And(z3.BoolVal(it.cont.same(lc)), it.idx == cn))
        ex.oblige(s, "post:filter(iterators) keeps exactly the satisfying elements in order", ex.is_filtered(qf, X, Z, n, s.mem["c"].arr, Z))
    for fn, args in (("rev", [lc]), ("revi", its)):
        for s, v in call(ex, st.fork(), fn, args):
            if fn == "rev":
                isref(s, v, lc, "reverse")
            w = s.mem["c"]
            ex.oblige(s, "post:%s keeps the size" % fn, w.n == n)
            ex.oblige(s, "post:%s reverses" % fn, ex.forall(Z, n, lambda k: z3.Select(w.arr, k) == z3.Select(X, n - 1 - k)))
    for fn, args in (("fe", [lc, LV("g")]), ("fei", its + [LV("g")])):
        for s, v in call(ex, st.fork(), fn, args):
            if fn == "fe":
                isref(s, v, lc, "for_each")
            tr = s.ghost.get("calls", ())
            ok = len(tr) == 1 and tr[0][0] == "for_each" and tr[0][1].cont.same(lc) and not tr[0][1].rev
            ex.oblige(s, "post:%s calls the function over the container once" % fn, z3.BoolVal(ok))
            if ok:
                ex.oblige(s, "post:%s covers every element in order with the given function" % fn,
                          z3.And(tr[0][1].idx == 0, tr[0][2].idx == n, ex.unwrap(ex.rv(s, tr[0][3])) == st.mem["g"]))
    for fn, args, base in (("mp", [lc, ld, LV("f")], m), ("mpv", [lc, LV("f")], Z), ("mpt", [lc, LV("f")], Z)):
        for s, v in call(ex, st.fork(), fn, args):
            if fn == "mp":
                isref(s, v, ld, "map")
            w = ex.rv(s, v)
            ex.oblige(s, "post:%s appends one result per element" % fn, w.n == base + n)
            ex.oblige(s, "post:%s results in order" % fn, ex.forall(Z, n, lambda k: z3.Select(w.arr, base + k) == fn_(z3.Select(X, k))))
            if fn == "mp":
                ex.oblige(s, "post:map keeps the existing content", ex.forall(Z, m, lambda k: z3.Select(w.arr, k) == z3.Select(Y, k)))
            ex.oblige(s, "frame:%s leaves the source unchanged" % fn, z3.BoolVal(same_value(s.mem["c"], st.mem["c"])))
    # associative destination
    s0 = st.fork()
    S0 = z3.Const("s0", z3.ArraySort(SORT["D"], z3.BoolSort()))
    s0.mem["d"] = Obj("set", arr=S0)
    for s, v in call(ex, s0, "mps", [lc, ld, LV("f")]):
        isref(s, v, ld, "map(set)")
        S1 = s.mem["d"].attr["arr"]
        y = z3.Const("y", SORT["D"])
        k = z3.Int("kk")
        ex.oblige(s, "post:map inserts exactly the results into a set", z3.ForAll([y], z3.Select(S1, y) == z3.Or(
            z3.Select(S0, y), z3.Exists([k], z3.And(0 <= k, k < n, fn_(z3.Select(X, k)) == y)))))
    s0 = st.fork()
    s0.assume(n <= m)
    for s, v in call(ex, s0, "mpi", its + [ItV(ld, Z), LV("f")]):
        w = s.mem["d"]
        ex.oblige(s, "post:map(iterators) writes every result in order", ex.forall(Z, n, lambda k: z3.Select(w.arr, k) == fn_(z3.Select(X, k))))
        ex.oblige(s, "post:map(iterators) writes nothing else", ex.forall(n, m, lambda k: z3.Select(w.arr, k) == z3.Select(Y, k)))
    if ra:
        lt0 = lambda a, b: ex.uf("op<:pluto_vp::E", SORT["E"], SORT["E"], z3.BoolSort())(a, b)
        lt1 = lambda a, b: papply(ex, st.mem["o"], a, b)
        for fn, args, lt in (("so", [lc], lt0), ("sop", [lc, LV("o")], lt1), ("soi", its + [LV("o")], lt1), ("soid", its, lt0)):
            for s, v in call(ex, st.fork(), fn, args):
                if fn in ("so", "sop"):
                    isref(s, v, lc, "sort")
                w = s.mem["c"]
                kk = ex.pkey("lt", lt, SORT["E"], SORT["E"])
                ex.oblige(s, "post:%s yields a permutation" % fn, z3.And(w.n == n, ex.rel("permutation", X, w.arr, Z, n)))
                ex.oblige(s, "post:%s yields the order of the predicate" % fn, ex.rel("ordered%d" % kk, w.arr, Z, n))
    r.absorb(ex)


TAB = {"A01": (a01, len(PAIRS) - 1), "A02": (a02, len(A02K)), "A03": (a03, len(A03K)), "A04": (a04, 2 * len(A04K)), "A05": (a05, len(A05K))}


def tasks(pid, tier):
    out = ["%s:%d:%s" % (pid, i, std) for i in range(TAB[pid][1]) for std in ("c++20", "c++17")]
    if pid in ("A01", "A02"):
        out += ["%s:s%d:%s" % (pid, i, std) for i, (S, C) in enumerate(STRS) for std in ("c++20", "c++17") if not (C == "char8_t" and std == "c++17")]
    return out


def prove(tid, r, tier):
    pid, i, std = tid.split(":")
    if i[0] == "s":
        r.name = "%s/%s/%s" % (pid, STRS[int(i[1:])][0], std)
        astr(pid, r, int(i[1:]), std)
        return
    r.name = "%s/%s/%s" % (pid, i, std)
    TAB[pid][0](r, int(i), std)


def natives(pid, tier):
    return [dict(name="algo-%s-%s" % (pid, std), src="algo.cpp", args=[pid], std=std, secs={"quick": 12, "thorough": 150})
            for std in ("c++20", "c++17")] + ([dict(
                name="algo-%s-unicode" % pid, src="algo.cpp", args=[pid], secs={"quick": 6, "thorough": 60},
                flags=["-O1", "-g", "-fsanitize=address", "-DPLUTO_STRING_OVERLOAD_FOR_UNICODE=1"])] if pid in ("A01", "A02") else [])


_std = "the contracts assumed for the std algorithms and iterators called (vp/iters.py)"
ASSUME = {
    "A01": [_std, "element types and predicate: arbitrary types and an arbitrary pure predicate (uninterpreted)"],
    "A02": [_std, "== between elements is symmetric"],
    "A03": [_std, "container size at most 2^62"],
    "A04": [_std, "the order used by min and max is a strict weak order (given by a rank)"],
    "A05": [_std, "callables are pure apart from the elements for_each passes to them; erase, inserter and transform as specified"],
}
