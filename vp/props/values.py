"""R01, R02 (range.hpp), V01 (value.hpp), P01 (file_name)."""
import z3
from ..ast import Ast, parse_type
from ..engine import Ex, opaque_sort, SORTS
from ..sym import *
from ..contract import Contract
from .. import solve

INTT = ["int", "unsigned int", "long", "unsigned long", "short", "unsigned char", "char"]

PRE = r'''
#include <pluto/range.hpp>
#include <pluto/value.hpp>
#include <pluto/platform.hpp>
namespace pluto_vp {
struct V { V(const V&); bool operator==(const V&) const; bool operator<(const V&) const; bool operator<=(const V&) const; bool operator>(const V&) const; bool operator>=(const V&) const; };
struct D { };
D operator-(const V&, const V&);
struct P { bool operator()(const V&, const V&) const; P(const P&); };
struct PI { bool operator()(int, int) const; PI(const PI&); };
%s
}
'''
RNG = r'''
bool eq%(i)s(const pluto::range<%(t)s>& a, const pluto::range<%(t)s>& b) { return a == b; }
bool ne%(i)s(const pluto::range<%(t)s>& a, const pluto::range<%(t)s>& b) { return a != b; }
bool lt%(i)s(const pluto::range<%(t)s>& a, const pluto::range<%(t)s>& b) { return a < b; }
bool gt%(i)s(const pluto::range<%(t)s>& a, const pluto::range<%(t)s>& b) { return a > b; }
bool le%(i)s(const pluto::range<%(t)s>& a, const pluto::range<%(t)s>& b) { return a <= b; }
bool ge%(i)s(const pluto::range<%(t)s>& a, const pluto::range<%(t)s>& b) { return a >= b; }
bool is_equal%(i)s(const pluto::range<%(t)s>& a, const pluto::range<%(t)s>& b) { return a.is_equal(b); }
bool is_less%(i)s(const pluto::range<%(t)s>& a, const pluto::range<%(t)s>& b) { return a.is_less(b); }
bool ov%(i)s(const pluto::range<%(t)s>& a, const pluto::range<%(t)s>& b) { return a.is_overlapping(b); }
bool no%(i)s(const pluto::range<%(t)s>& a, const pluto::range<%(t)s>& b) { return a.is_less_no_overlap(b); }
auto sz%(i)s(const pluto::range<%(t)s>& a) { return a.size(); }
pluto::range<%(t)s> mk%(i)s(const %(t)s& a, const %(t)s& b) { return pluto::range<%(t)s>(a, b); }
'''
VAL = r'''
const %(t)s& mn%(i)s(const %(t)s& a, const %(t)s& b) { return (pluto::min)(a, b); }
const %(t)s& mx%(i)s(const %(t)s& a, const %(t)s& b) { return (pluto::max)(a, b); }
'''
VALP = r'''
const %(t)s& mnp%(i)s(const %(t)s& a, const %(t)s& b, %(p)s p) { return (pluto::min)(a, b, p); }
const %(t)s& mxp%(i)s(const %(t)s& a, const %(t)s& b, %(p)s p) { return (pluto::max)(a, b, p); }
'''
ABS = r'''
%(t)s ab%(i)s(%(t)s a) { return pluto::abs(a); }
'''


def run(ex, st, fn, args):
    for s, v in ex.inline(st, ex.ast.driver_fn(fn), args):
        ex.oblige(s, "post:no-exception(%s)" % fn, z3.BoolVal(s.thrown is None))
        yield s, v


class Ord:
    """the order on the bound type: machine order or an axiomatised strict total order on an opaque type"""

    def __init__(self, ex, t):
        self.ex, self.t = ex, t
        if t == "V":
            s = opaque_sort("pluto_vp::V")
            self.sort = s
            lt = ex.uf("op<:pluto_vp::V", s, s, z3.BoolSort())
            eq = ex.uf("op==:pluto_vp::V", s, s, z3.BoolSort())
            self.lt, self.eq = lt, eq
            self.others = [ex.uf("op%s:pluto_vp::V" % n, s, s, z3.BoolSort()) for n in ("<=", ">", ">=")]
        else:
            T = parse_type(t)
            self.sort = z3.BitVecSort(T.w)
            self.lt = (lambda a, b: a < b) if T.signed else z3.ULT
            self.eq = lambda a, b: a == b

    def total(self, vs):
        """the order axioms instantiated on the given values"""
        if self.t != "V":
            return []
        out = []
        lt, eq = self.lt, self.eq
        for a in vs:
            out += [z3.Not(lt(a, a)), eq(a, a)]
            for b in vs:
                out += [self.others[0](a, b) == z3.Not(lt(b, a)), self.others[1](a, b) == lt(b, a),
                        self.others[2](a, b) == z3.Not(lt(a, b))]
                out += [z3.Or(lt(a, b), eq(a, b), lt(b, a)), z3.Implies(lt(a, b), z3.Not(eq(a, b))),
                        eq(a, b) == eq(b, a), z3.Not(z3.And(lt(a, b), lt(b, a))), eq(a, b) == (a == b)]
                for c in vs:
                    out += [z3.Implies(z3.And(lt(a, b), lt(b, c)), lt(a, c))]
        return out


def prove_range(r, pid, t, i):
    ast = Ast.load(PRE % (RNG % {"t": t, "i": i}))
    c = Contract("range<%s>" % t)
    ex = Ex(ast, "int" if t == "V" else "bv", c, 200)
    o = Ord(ex, t)
    n = [z3.Const(x, o.sort) for x in ("b1", "e1", "b2", "e2")]
    b1, e1, b2, e2 = n
    st = St()
    st.mem["a"] = SV("pluto::range", {"begin": b1, "end": e1})
    st.mem["b"] = SV("pluto::range", {"begin": b2, "end": e2})
    for f in o.total(n):
        st.assume(f)
    A, B = LV("a"), LV("b")
    EQ = z3.And(o.eq(b1, b2), o.eq(e1, e2))
    LT = z3.Or(o.lt(b1, b2), z3.And(o.eq(b1, b2), o.lt(e1, e2)))
    GT = z3.Or(o.lt(b2, b1), z3.And(o.eq(b1, b2), o.lt(e2, e1)))

    def post(fn, want, what, st=st, args=(A, B)):
        k = 0
        for s, v in run(ex, st.fork(), fn + str(i), list(args)):
            k += 1
            ex.oblige(s, "post:%s" % what, ex.boolv(v) == want)
            ex.oblige(s, "frame:%s-changes-nothing" % fn, z3.BoolVal(
                same_value(s.mem["a"], st.mem["a"]) and same_value(s.mem["b"], st.mem["b"])))
        if not k:
            ex.oblige(st, "reachable:" + fn, z3.BoolVal(False))
    if pid == "R01":
        post("eq", EQ, "(a==b) iff both bounds equal")
        post("ne", z3.Not(EQ), "(a!=b) iff not equal")
        post("lt", LT, "(a<b) iff lexicographically less")
        post("gt", GT, "(a>b) iff lexicographically greater")
        post("le", z3.Not(GT), "(a<=b) iff not greater")
        post("ge", z3.Not(LT), "(a>=b) iff not less")
        post("is_equal", EQ, "is_equal iff both bounds equal")
        post("is_less", LT, "is_less iff lexicographically less")
        # size
        s0 = st.fork()
        if t != "V":
            T = parse_type(t)
            W = max(T.w, 32)
            sg = T.signed
            ext = (lambda x: z3.SignExt(W - T.w, x) if sg else z3.ZeroExt(W - T.w, x)) if W > T.w else (lambda x: x)
            if T.signed and T.w >= 32:
                s0.assume(z3.And(z3.BVSubNoOverflow(e1, b1), z3.BVSubNoUnderflow(e1, b1, True)))
            for s, v in run(ex, s0, "sz" + str(i), [A]):
                ex.oblige(s, "post:size==end-begin", v == ext(e1) - ext(b1))
        else:
            for s, v in run(ex, s0, "sz" + str(i), [A]):
                us = [f for k, f in ex.ufs.items() if k[0] == "uf:operator-"]
                ex.oblige(s, "post:size==end-begin", z3.BoolVal(len(us) == 1) if not us else (v == us[0](e1, b1)))
        # construction
        s1 = st.fork()
        s1.mem["x"], s1.mem["y"] = b1, e2
        for s, v in run(ex, s1, "mk" + str(i), [LV("x"), LV("y")]):
            v = ex.rv(s, v)
            ex.oblige(s, "post:constructor-keeps-both-bounds", z3.And(v.fields["begin"] == b1, v.fields["end"] == e2))
    else:
        pre = st.fork()
        pre.assume(z3.Not(o.lt(e1, b1)))
        pre.assume(z3.Not(o.lt(e2, b2)))
        before = z3.And(z3.Not(o.eq(b1, b2)), z3.Not(o.lt(b2, e1)))
        after = z3.And(z3.Not(o.eq(b1, b2)), z3.Not(o.lt(b1, e2)))
        # trichotomy of the specification itself (lemma), then each operation against it
        ex.oblige(pre.fork(), "lemma:not-both-before-and-after", z3.Not(z3.And(before, after)))
        post("no", before, "before-relation", pre)
        post("ov", z3.Not(z3.Or(before, after)), "overlap iff neither is wholly before the other", pre)
        post("ov", z3.Not(z3.Or(before, after)), "overlap is symmetric", pre, (B, A))
        x = z3.Const("x", o.sort)
        s3 = pre.fork()
        for f in o.total(n + [x]):
            s3.assume(f)
        for f in (o.lt(b1, x), o.lt(x, e1), o.lt(b2, x), o.lt(x, e2)):
            s3.assume(f)
        post("ov", z3.BoolVal(True), "ranges sharing an interior point overlap", s3)
        s4 = pre.fork()
        s4.assume(o.eq(b1, b2))
        post("ov", z3.BoolVal(True), "ranges with the same begin overlap", s4)
    ex.covers = 1 if ex.stats.feasible(st.pc + [z3.BoolVal(True)]) else 0
    r.absorb(ex)


def prove_val(r, t, i):
    p = {"V": "P", "int": "PI"}.get(t)
    txt = VAL % {"t": t, "i": i} + (VALP % {"t": t, "i": i, "p": p} if p else "")
    if t != "V":
        txt += ABS % {"t": t, "i": i}
    ast = Ast.load(PRE % txt)
    ex = Ex(ast, "int" if t == "V" else "bv", Contract("value<%s>" % t), 200)
    o = Ord(ex, t)
    a, b = z3.Const("l", o.sort), z3.Const("r", o.sort)
    st = St()
    st.mem["a"], st.mem["b"] = a, b
    A, B = LV("a"), LV("b")

    def post(fn, args, right, what):
        k = 0
        for s, v in run(ex, st.fork(), fn + str(i), args):
            k += 1
            isr, isl = isinstance(v, LV) and v.same(B), isinstance(v, LV) and v.same(A)
            ex.oblige(s, "post:" + what, z3.And(z3.Implies(right, z3.BoolVal(isr)),
                                               z3.Implies(z3.Not(right), z3.BoolVal(isl))))
            ex.oblige(s, "frame:operands unchanged", z3.And(s.mem["a"] == a, s.mem["b"] == b))
        if not k:
            ex.oblige(st, "reachable:" + fn, z3.BoolVal(False))
    post("mn", [A, B], o.lt(b, a), "min returns right iff right < left")
    post("mx", [A, B], o.lt(a, b), "max returns right iff left < right")
    if p:
        ps = opaque_sort("pluto_vp::" + p)
        pv = z3.Const("p", ps)
        st.mem["p"] = pv
        ap = ex.uf("uf:%s::operator()" % p, ps, o.sort, o.sort, z3.BoolSort())
        post("mnp", [A, B, LV("p")], ap(pv, b, a), "min returns right iff predicate(right, left)")
        post("mxp", [A, B, LV("p")], ap(pv, a, b), "max returns right iff predicate(left, right)")
    if t != "V":
        T = parse_type(t)
        s0 = st.fork()
        if T.signed:
            s0.assume(a != z3.BitVecVal(1 << (T.w - 1), T.w))
        for s, v in run(ex, s0, "ab" + str(i), [A]):
            want = z3.If(a < 0, -a, a) if T.signed else a
            ex.oblige(s, "post:abs", v == want)
    r.absorb(ex)


class FileName(Contract):
    def __init__(self):
        Contract.__init__(self, "file_name")
        self.arr = z3.Array("s", z3.BitVecSort(64), z3.BitVecSort(8))
        self.n = z3.BitVec("n", 64)
        B = z3.BitVecSort(64)
        self.R = z3.Function("LASTSEP", B, B, B)        # LASTSEP(best, i)
        self.spec = solve.RecSpec("LASTSEP", self.R, self.unfold)

    def sep(self, i):
        c = z3.Select(self.arr, i)
        return z3.Or(c == ord("/"), c == ord("\\"))

    def unfold(self, f, i):
        return [self.R(f, i) == z3.If(z3.UGE(i, self.n), f, self.R(z3.If(self.sep(i), i + 1, f), z3.simplify(i + 1))),
                z3.Implies(z3.ULT(i, self.n), z3.Select(self.arr, i) != 0)]

    def invariants(self, ex, st, mod, idx):
        z = z3.BitVecVal(0, 64)
        g = self.R(z, z)
        out = []
        for n1, f1, m1 in idx:
            for n2, f2, m2 in idx:
                if n1 != n2 and (m1 or m2):
                    out.append(("LASTSEP(%s,%s)==LASTSEP(0,0)" % (n1, n2),
                                lambda s, f1=f1, f2=f2: self.R(f1(s), f2(s)) == g))
        return out

    def bounds(self, ex, st):
        return [("n", self.n)]


def prove_file(r):
    ast = Ast.load(PRE % "const char* fname(const char* p) { return pluto::file_name(p); }")
    c = FileName()
    ex = Ex(ast, "bv", c, 200)
    ex.specs.append(c.spec)
    st = St()
    st.assume(z3.ULT(c.n, z3.BitVecVal(1 << 62, 64)))
    st.assume(z3.Select(c.arr, c.n) == 0)
    st.mem["in"] = ArrV(c.arr, c.n + 1, parse_type("char"))
    k = 0
    for s, v in run(ex, st, "fname", [PtrV(z3.BoolVal(False), LV("in"), z3.BitVecVal(0, 64))]):
        k += 1
        v = ex.rv(s, v)
        z = z3.BitVecVal(0, 64)
        ok = isinstance(v, PtrV) and v.base is not None and v.base.same(LV("in")) and v.off is not None
        ex.oblige(s, "post:points into the argument", z3.BoolVal(ok))
        if ok:
            ex.oblige(s, "post:result==position after the last separator", v.off == c.R(z, z))
    if not k:
        ex.oblige(st, "reachable", z3.BoolVal(False))
    r.absorb(ex)


def tasks(pid, tier):
    if pid in ("R01", "R02"):
        return ["%s:%d" % (pid, i) for i in range(len(INTT) + 1)]
    if pid == "V01":
        return ["V01:%d" % i for i in range(len(INTT) + 1)]
    return ["P01"]


def prove(tid, r, tier):
    p = tid.split(":")
    if p[0] == "P01":
        r.name = "file_name"
        prove_file(r)
        return
    t = (INTT + ["V"])[int(p[1])]
    if p[0] == "V01":
        r.name = "min/max/abs<%s>" % t
        prove_val(r, t, int(p[1]))
    else:
        r.name = "range<%s>" % t
        prove_range(r, p[0], t, int(p[1]))


def natives(pid, tier):
    return [dict(name="values-" + pid, src="values.cpp", args=[pid], secs={"quick": 5, "thorough": 60})]


ASSUME = {
    "R01": ["bound types: the machine integer types listed and an arbitrary type whose == and < form a strict total order (axioms instantiated on the operands)", "end - begin representable (as in the language) for signed machine integers"],
    "R02": ["bound types as for R01; begin not after end"],
    "V01": ["min/max need no assumption on the order; abs: value not the minimum of its signed type; floating-point abs only in the bounded pass"],
    "P01": ["the argument is NUL-terminated and shorter than 2^62"],
}
