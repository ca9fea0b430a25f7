"""S01-S06: string.hpp."""
import z3
from ..ast import Ast, parse_type, type_of
from ..engine import Ex, opaque_sort, repr_type, STRING_RECS
from ..sym import *
from ..contract import Contract
from ..iters import IterEx, INT
from ..strs import StrEx, DigitEx, CaseEx, locale_support, NPOS, LIST, LOC, NIL
from .. import solve
from .algo import Loops, call, frame

PRE0 = r'''
#include <pluto/string.hpp>
#include <vector>
#include <list>
#include <string>
namespace pluto_vp {
struct E { E(const E&); };
%s
}
'''
STR = ["std::string", "std::wstring", "std::u16string", "std::u32string", "std::u8string"]
UNI = "#define PLUTO_STRING_OVERLOAD_FOR_UNICODE 1\n"       # documented, off by default on this platform
SEQ = z3.SeqSort(INT)
EMPTY = z3.Empty(SEQ)


def hdr(S):
    return (UNI if STR.index(S) > 1 else "") + PRE0


def elem(S):
    return parse_type(S).args[0]


class StrContract(Contract):
    """Invariant templates of the tail-recursive specifications RUN(state...)."""

    def __init__(self, name):
        Contract.__init__(self, name)
        self.runs = []        # fn(ex, st, mod, idx) -> [(name, state -> formula)]
        self.limits = []

    def invariants(self, ex, st, mod, idx):
        out = []
        for f in self.runs:
            out += f(ex, st, mod, idx)
        return out

    def bounds(self, ex, st):
        return self.limits


def lists(ex, st, mod):
    return [c for c in ex.scope_cells(st) if c in mod and isinstance(st.mem[c], Obj) and st.mem[c].tname == "list"]


def seqs(ex, st, mod):
    return [c for c in ex.scope_cells(st) if c in mod and isinstance(st.mem[c], SeqV)]


def list_run(R, g):
    """RUN(list, i) == RUN(nil, 0) for every modified list and index"""
    def f(ex, st, mod, idx):
        out = []
        for c in lists(ex, st, mod):
            for n, fi, m in idx:
                if m:
                    out.append(("RUN(%s,%s)" % (c.split("!")[0], n), lambda s, c=c, fi=fi: R(s.mem[c].attr["term"], fi(s)) == g))
        return out
    return f


def end_eq(E, S):
    """END(i) == END(j) for pairs of indices"""
    def f(ex, st, mod, idx):
        out = []
        for n1, f1, m1 in idx:
            for n2, f2, m2 in idx:
                if n1 != n2 and (m1 and (not m2 or n1 < n2)):
                    out.append(("END(%s)==END(%s)" % (n1, n2), lambda s, f1=f1, f2=f2: E(S, f1(s)) == E(S, f2(s))))
                if n1 != n2 and m1:
                    out.append(("END(%s)==END(%s+1)" % (n1, n2), lambda s, f1=f1, f2=f2: E(S, f1(s)) == E(S, f2(s) + 1)))
        return out
    return f


def strs(st, **kw):
    for n, (t, S) in kw.items():
        st.mem[n] = SeqV(t, elem(S), "std::basic_string")
        st.assume(z3.Length(t) <= (1 << 62))


# ---- S01 ------------------------------------------------------------------------------------------------------------
def s01(r, S, std):
    lo = ", std::locale" if False else ""
    txt = '''
std::vector<%(S)s> bysep(const %(S)s& s, const %(S)s& p) { return pluto::split(s, p); }
std::vector<%(S)s> bysp(const %(S)s& s, const std::locale& l) { return pluto::split(s, l); }
std::vector<%(S)s> byspd(const %(S)s& s) { return pluto::split(s); }
std::vector<%(S)s> byany(const %(S)s& s, const %(S)s& p) { return pluto::split_any_of(s, p); }
''' % {"S": S}
    c = StrContract(S)
    ex = StrEx(Ast.load(hdr(S) % txt, std), c, 250)
    ex.rounds = 4
    st = St()
    s_, p_ = z3.Const("s", SEQ), z3.Const("p", SEQ)
    strs(st, s=(s_, S), p=(p_, S))
    n, m = z3.Length(s_), z3.Length(p_)
    # pieces between successive leftmost occurrences
    R1 = z3.Function("SPLIT", LIST, INT, LIST)

    def u1(l, i):
        suf = ex.suffix(s_, i)
        f = ex.FIND(suf, p_)
        return [R1(l, i) == z3.If(f < 0, ex.snoc(l, z3.SubSeq(s_, i, n - i)), R1(ex.snoc(l, z3.SubSeq(s_, i, z3.simplify(i + f) - i)), z3.simplify(i + f + m)))]
    R2 = z3.Function("CHARS", LIST, INT, LIST)

    def u2(l, i):
        return [R2(l, i) == z3.If(i >= n, l, R2(ex.snoc(l, z3.SubSeq(s_, i, 1)), z3.simplify(i + 1)))]
    ex.specs += [solve.RecSpec("SPLIT", R1, u1), solve.RecSpec("CHARS", R2, u2)]
    Z = z3.IntVal(0)
    for cond, R, what in ((m > 0, R1, "pieces between successive leftmost occurrences of the separator"), (m == 0, R2, "every single character")):
        s0 = st.fork()
        s0.assume(cond)
        c.runs = [list_run(R, R(NIL, Z))]
        c.limits = [("n", n)]
        for s, v in call(ex, s0, "bysep", [LV("s"), LV("p")]):
            ex.oblige(s, "post:split(separator) returns the %s" % what, ex.unwrap(ex.rv(s, v)) == R(NIL, Z))
            frame(ex, s, st, ["s", "p"], "split")
    # maximal runs outside a class of characters

    def runs(p):
        E = ex.runend(None, p)                                   # end of the run of characters not in the class
        K = ex.runend(None, lambda ch: z3.Not(p(ch)))            # next character not in the class
        R = z3.Function(fresh_name("RUNS"), LIST, INT, LIST)

        def u(l, i):
            a = K(s_, i)
            b = E(s_, a)
            return [R(l, i) == z3.If(a >= n, l, R(ex.snoc(l, z3.SubSeq(s_, a, b - a)), b))]
        ex.specs.append(solve.RecSpec("RUNS", R, u))
        return R, E, K
    st.mem["l"] = z3.Const("l", LOC)
    for fn, args, loc in (("bysp", [LV("s"), LV("l")], st.mem["l"]), ("byspd", [LV("s")], z3.Const("locale:default_locale", LOC))):
        isp = lambda ch, loc=loc: ex.isf(loc, z3.IntVal(1), ch)
        R, E, K = runs(isp)
        c.runs = [list_run(R, R(NIL, Z)), end_eq(E, s_)]
        for s, v in call(ex, st.fork(), fn, args):
            ex.oblige(s, "post:split(whitespace) returns the maximal runs of non-space characters", ex.unwrap(ex.rv(s, v)) == R(NIL, Z))
            frame(ex, s, st, ["s"], fn)
    R, E, K = runs(lambda ch: ex.isin(p_, ch))
    c.runs = [list_run(R, R(NIL, Z))]
    for s, v in call(ex, st.fork(), "byany", [LV("s"), LV("p")]):
        ex.oblige(s, "post:split_any_of returns the maximal runs of characters outside the set", ex.unwrap(ex.rv(s, v)) == R(NIL, Z))
        frame(ex, s, st, ["s", "p"], "split_any_of")
    r.absorb(ex)


# ---- S02 ------------------------------------------------------------------------------------------------------------
def s02(r, S, std):
    txt = '''
struct F { F(const F&); %(S)s operator()(const E&) const; };
struct C1 { const %(S)s* begin() const; const %(S)s* end() const; };
struct C2 { const E* begin() const; const E* end() const; };
%(S)s ji(const %(S)s* b, const %(S)s* e, const %(S)s& p) { return pluto::join(b, e, p); }
%(S)s jl(std::list<%(S)s>::const_iterator b, std::list<%(S)s>::const_iterator e, const %(S)s& p) { return pluto::join(b, e, p); }
%(S)s jc(const std::list<%(S)s>& c, const %(S)s& p) { return pluto::join(c, p); }
%(S)s mi(const E* b, const E* e, const %(S)s& p, F f) { return pluto::map_join(b, e, p, f); }
%(S)s ml(std::list<E>::const_iterator b, std::list<E>::const_iterator e, const %(S)s& p, F f) { return pluto::map_join(b, e, p, f); }
%(S)s mc(const std::list<E>& c, const %(S)s& p, F f) { return pluto::map_join(c, p, f); }
''' % {"S": S}
    c = StrContract(S)
    ex = StrEx(Ast.load(hdr(S) % txt, std), c, 250)
    st = St()
    p_ = z3.Const("p", SEQ)
    strs(st, p=(p_, S))
    n = z3.Int("n")
    st.assume(z3.And(0 <= n, n <= (1 << 62)))
    A = z3.Const("parts", z3.ArraySort(INT, SEQ))
    es = opaque_sort("pluto_vp::E")
    B = z3.Const("elems", z3.ArraySort(INT, es))
    st.mem["c"] = ArrV(A, n, parse_type(S))
    st.mem["e"] = ArrV(B, n, parse_type("pluto_vp::E"))
    fs = opaque_sort("pluto_vp::F")
    st.mem["f"] = z3.Const("f", fs)
    ap = lambda x: ex.uf("uf:F::operator()", fs, es, SEQ)(st.mem["f"], x)
    Z = z3.IntVal(0)

    def joined(nm, at):
        J = z3.Function(nm, INT, SEQ)

        def u(i):
            im = z3.simplify(i - 1)
            return [z3.If(i <= 0, J(i) == EMPTY, z3.If(i == 1, J(i) == at(Z), J(i) == z3.Concat(J(im), p_, at(im))))]
        ex.specs.append(solve.RecSpec(nm, J, u))
        return J
    J1 = joined("JOIN", lambda i: z3.Select(A, i))
    J2 = joined("MAPJOIN", lambda i: ap(z3.Select(B, i)))

    def inv(J):
        def f(ex, st, mod, idx):
            out = []
            for cc in seqs(ex, st, mod):
                for nm, fi, m in idx:
                    if m:
                        out.append(("%s==JOIN(%s)" % (cc.split("!")[0], nm), lambda s, cc=cc, fi=fi: s.mem[cc].t == J(fi(s))))
            return out
        return f
    P = lambda c, i: PtrV(z3.BoolVal(False), LV(c), i)
    for fn, args, J in (("ji", [P("c", Z), P("c", n), LV("p")], J1), ("jl", [ItV(LV("c"), Z), ItV(LV("c"), n), LV("p")], J1), ("jc", [LV("c"), LV("p")], J1),
                        ("mi", [P("e", Z), P("e", n), LV("p"), LV("f")], J2), ("ml", [ItV(LV("e"), Z), ItV(LV("e"), n), LV("p"), LV("f")], J2),
                        ("mc", [LV("e"), LV("p"), LV("f")], J2)):
        c.runs = [inv(J)]
        for s, v in call(ex, st.fork(), fn, args):
            ex.oblige(s, "post:%s returns the elements with one separator between neighbours" % ("join" if J is J1 else "map_join"), ex.rv(s, v).t == J(n))
            frame(ex, s, st, ["c", "e", "p"], fn)
    # lemma: joining the pieces of SPLIT gives the string back (induction over SPLIT, on the contracts of S01)
    s_ = z3.Const("s", SEQ)
    l = z3.Const("l", LIST)
    i = z3.Int("i")
    JL = z3.Function("JL", LIST, SEQ)
    acc = lambda l, x: z3.If(l == NIL, x, z3.Concat(JL(l), p_, x))       # JL(snoc(l, x))
    suf = z3.SubSeq(s_, i, z3.Length(s_) - i)
    f = ex.FIND(suf, p_)
    sl = st.fork()
    sl.assume(z3.And(z3.Length(p_) > 0, 0 <= i, i <= z3.Length(s_)))
    for g in ex.u_find(suf, p_):
        sl.assume(g)
    s1 = sl.fork()
    s1.assume(f < 0)
    ex.oblige(s1, "lemma:join undoes split, last piece", acc(l, suf) == z3.If(l == NIL, suf, z3.Concat(JL(l), p_, suf)))
    s2 = sl.fork()
    s2.assume(f >= 0)
    piece = z3.SubSeq(s_, i, f)
    rest = z3.SubSeq(s_, i + f + z3.Length(p_), z3.Length(s_) - (i + f + z3.Length(p_)))
    # induction hypothesis at (snoc(l, piece), i+f+m): JL(result) = JL(snoc(l,piece)) + p + rest
    ex.oblige(s2, "lemma:the suffix is piece, separator, rest", suf == z3.Concat(piece, p_, rest), timeout=30000)
    ex.oblige(s2, "lemma:join undoes split, inner piece", z3.Concat(acc(l, piece), p_, rest) == z3.If(l == NIL, suf, z3.Concat(JL(l), p_, suf)), timeout=30000)
    r.absorb(ex)


# ---- S03 ------------------------------------------------------------------------------------------------------------
def s03(r, S, std):
    txt = '''
void rep(%(S)s& s, const %(S)s& f, const %(S)s& r) { pluto::replace(s, f, r); }
void rany(%(S)s& s, const %(S)s& f, const %(S)s& r) { pluto::replace_any_of(s, f, r); }
''' % {"S": S}
    c = StrContract(S)
    ex = StrEx(Ast.load(hdr(S) % txt, std), c, 250)
    ex.suffix_find = True
    st = St()
    s_, f_, r_ = z3.Consts("s f r", SEQ)
    strs(st, s=(s_, S), f=(f_, S), r=(r_, S))
    m = z3.Length(f_)
    Z = z3.IntVal(0)
    R1 = z3.Function("REPLACE", SEQ, SEQ, SEQ)      # (done, rest)
    R2 = z3.Function("INSERT", SEQ, SEQ, SEQ)
    R3 = z3.Function("REPANY", SEQ, SEQ, SEQ)
    END = ex.runend(None, lambda ch: ex.isin(f_, ch))

    def tail(x, i):
        return z3.SubSeq(x, i, z3.Length(x) - i)

    def u1(d, x):
        f = ex.FIND(x, f_)
        return [R1(d, x) == z3.If(f < 0, z3.Concat(d, x), R1(z3.Concat(d, z3.SubSeq(x, 0, f), r_), tail(x, f + m)))]

    def u2(d, x):
        return [R2(d, x) == z3.If(z3.Length(x) == 0, z3.Concat(d, r_), R2(z3.Concat(d, r_, z3.SubSeq(x, 0, 1)), tail(x, z3.IntVal(1))))]

    def u3(d, x):
        e = END(x, Z)
        return [R3(d, x) == z3.If(e >= z3.Length(x), z3.Concat(d, x), R3(z3.Concat(d, z3.SubSeq(x, 0, e), r_), tail(x, e + 1)))]
    ex.specs += [solve.RecSpec("REPLACE", R1, u1), solve.RecSpec("INSERT", R2, u2), solve.RecSpec("REPANY", R3, u3)]

    def reshape(ex, st, h, mod):
        """x = D R with |D| = min(i, |x|), for the modified string x and the first modified index i"""
        idx = [fi for nm, fi, mm in ex.index_exprs(st, mod) if mm]
        cs = seqs(ex, h, mod)
        if len(cs) == 1 and idx:
            x = h.mem[cs[0]]
            D, R = z3.Const(fresh_name("D"), SEQ), z3.Const(fresh_name("R"), SEQ)
            i = idx[0](h)
            h.assume(z3.Length(D) == z3.If(z3.And(0 <= i, i <= z3.Length(D) + z3.Length(R)), i, z3.Length(D) + z3.Length(R)))
            h.assume(z3.Length(D) + z3.Length(R) <= (1 << 62))
            h.mem[cs[0]] = SeqV(z3.Concat(D, R), x.et, x.kind)
    c.reshape = reshape

    def inv(R, g):
        def f(ex, st, mod, idx):
            out = []
            for cc in seqs(ex, st, mod):
                for nm, fi, mm in idx:
                    if not mm:
                        continue

                    def phi(s, cc=cc, fi=fi):
                        x, i = s.mem[cc].t, fi(s)
                        n = z3.Length(x)
                        s1 = s.fork()
                        s1.assume(i <= n)
                        dt = ex.cut(s1, x, i)
                        if dt is None:
                            dt = z3.SubSeq(x, 0, i), tail(x, i)
                        return z3.And(0 <= i, z3.If(i <= n, R(*dt) == g, x == g))
                    out.append(("RUN(%s[0,%s), rest)" % (cc.split("!")[0], nm), phi))
                    for c2 in ex.scope_cells(st):
                        if c2 not in mod and isinstance(st.mem[c2], SeqV):
                            out.append(("RUN(%s, %s[%s..))" % (cc.split("!")[0], c2.split("!")[0], nm),
                                        lambda s, cc=cc, c2=c2, fi=fi: z3.And(0 <= fi(s), z3.If(fi(s) <= z3.Length(s.mem[c2].t),
                                            R(s.mem[cc].t, ex.suffix(s.mem[c2].t, fi(s))) == g, s.mem[cc].t == g))))
            return out
        return f
    for fn, cond, R, what in (("rep", m > 0, R1, "replace substitutes successive leftmost occurrences"),
                              ("rep", m == 0, R2, "replace with empty search text inserts before every character and at the end"),
                              ("rany", z3.BoolVal(True), R3, "replace_any_of substitutes each character of the set")):
        s0 = st.fork()
        s0.assume(cond)
        c.runs = [inv(R, R(EMPTY, s_))]
        for s, v in call(ex, s0, fn, [LV("s"), LV("f"), LV("r")]):
            ex.oblige(s, "post:" + what, s.mem["s"].t == R(EMPTY, s_), timeout=20000)
            frame(ex, s, st, ["f", "r"], fn)
    r.absorb(ex)


# ---- S04 ------------------------------------------------------------------------------------------------------------
def s04(r, S, std):
    txt = '''
void lst(%(S)s& s, const std::locale& l) { pluto::lstrip(s, l); }
void rst(%(S)s& s, const std::locale& l) { pluto::rstrip(s, l); }
void bst(%(S)s& s, const std::locale& l) { pluto::strip(s, l); }
void ld(%(S)s& s) { pluto::lstrip(s); }
void rd(%(S)s& s) { pluto::rstrip(s); }
void bd(%(S)s& s) { pluto::strip(s); }
''' % {"S": S}
    c = StrContract(S)
    ex = StrEx(Ast.load(hdr(S) % txt, std), c, 250)
    ex.rounds = 3
    st = St()
    s_ = z3.Const("s", SEQ)
    strs(st, s=(s_, S))
    n = z3.Length(s_)
    Z = z3.IntVal(0)
    st.mem["l"] = z3.Const("l", LOC)
    t = z3.Const("t", SEQ)
    j, m = z3.Ints("j m")
    for loc, fns, args in ((st.mem["l"], ("lst", "rst", "bst"), [LV("s"), LV("l")]),
                           (z3.Const("locale:default_locale", LOC), ("ld", "rd", "bd"), [LV("s")])):
        isp = lambda ch, loc=loc: ex.isf(loc, z3.IntVal(1), ch)
        K = ex.runend(None, lambda ch: z3.Not(isp(ch)))         # first character that is not a space
        B = ex.backrun(isp)                                     # end without the trailing spaces
        a, b = K(s_, Z), B(s_, n)
        # lemmas (by induction): a prefix keeps its leading run, a suffix its trailing run
        pre = z3.SubSeq(t, 0, m)
        s0 = St()
        s0.assume(z3.And(0 <= m, m <= z3.Length(t), 0 <= j, j <= m))
        lm = lambda j: K(pre, j) == z3.If(K(t, j) < m, K(t, j), m)
        ex.oblige(s0, "lemma:leading run of a prefix", z3.Implies(z3.Or(j == m, lm(j + 1)), lm(j)), timeout=20000)
        suf = z3.SubSeq(t, m, z3.Length(t) - m)
        s0 = St()
        s0.assume(z3.And(0 <= m, m <= z3.Length(t), 0 <= j, j <= z3.Length(t) - m))
        lm2 = lambda j: B(suf, j) == z3.If(B(t, m + j) > m, B(t, m + j) - m, 0)
        ex.oblige(s0, "lemma:trailing run of a suffix", z3.Implies(z3.Or(j == 0, lm2(j - 1)), lm2(j)), timeout=20000)
        s1 = st.fork()
        p1, q1 = z3.SubSeq(s_, 0, b), z3.SubSeq(s_, a, z3.simplify(n - a))
        for g in (z3.And(0 <= a, a <= n, 0 <= b, b <= n), K(p1, Z) == z3.If(a < b, a, b), B(q1, z3.simplify(n - a)) == z3.If(b > a, b - a, 0),
                  B(q1, z3.Length(q1)) == z3.If(b > a, b - a, 0)):
            s1.assume(g)

        def inv(ex, st, mod, idx):
            out = []
            for cc in ex.scope_cells(st):
                if isinstance(st.mem[cc], SeqV) and cc not in mod:
                    for nm, fi, mm in idx:
                        if mm:
                            for f, w, at in ((K, "leading", lambda s, cc: Z), (B, "trailing", lambda s, cc: z3.Length(s.mem[cc].t))):
                                for d in (0, 1):
                                    if w == "leading" and d:
                                        continue
                                    out.append(("%s run from %s+%d" % (w, nm, d), lambda s, cc=cc, fi=fi, f=f, at=at, d=d:
                                                z3.And(fi(s) + d <= z3.Length(s.mem[cc].t), f(s.mem[cc].t, z3.simplify(fi(s) + d)) == f(s.mem[cc].t, at(s, cc)))))
                                    out.append(("lower %s" % nm, lambda s, cc=cc, fi=fi, f=f, at=at, d=d: f(s.mem[cc].t, z3.simplify(fi(s) + d)) == f(s.mem[cc].t, at(s, cc))))
            return out
        c.runs = [inv]
        want = (z3.SubSeq(s_, a, n - a), z3.SubSeq(s_, 0, b), z3.If(a >= b, EMPTY, z3.SubSeq(s_, a, b - a)))
        what = ("lstrip removes exactly the leading spaces", "rstrip removes exactly the trailing spaces", "strip removes exactly the outer spaces")
        for fn, w, nm in zip(fns, want, what):
            for s, v in call(ex, s1.fork(), fn, args):
                ex.oblige(s, "post:" + nm, s.mem["s"].t == w, timeout=20000)
    r.absorb(ex)


# ---- S05 ------------------------------------------------------------------------------------------------------------
NUMS = ["signed char", "unsigned char", "char", "short", "unsigned short", "int", "unsigned int", "long", "unsigned long",
        "long long", "unsigned long long", "wchar_t", "char16_t", "char32_t", "bool"]


def s05(r, t, std):
    txt = "".join("std::string %s_(const %s& v) { return pluto::%s(v); }\n" % (f, t, f) for f in ("bin", "oct", "hex"))
    c = StrContract(t)
    ex = DigitEx(Ast.load(PRE0 % txt, std), c, 400)
    T = parse_type(t)
    w = 8 if t == "bool" else T.w
    st = St()
    v = z3.Bool("v") if t == "bool" else z3.BitVec("v", w)
    st.mem["v"] = v
    bits = z3.If(v, z3.BitVecVal(1, 8), z3.BitVecVal(0, 8)) if t == "bool" else v
    for fn, k, px in (("bin_", 1, b"0b"), ("oct_", 3, b"0o"), ("hex_", 4, b"0x")):
        x = z3.ZeroExt(8, bits)                     # the two's-complement bit pattern
        n = 0
        for s, res in call(ex, st.fork(), fn, [LV("v")]):
            n += 1
            out = ex.chars(s, res)
            nd = len(out) - 2
            conj = [z3.BoolVal(nd >= 1)] + [o == b for o, b in zip(out, px)]
            if nd >= 1:
                if nd > 1:
                    conj.append(z3.BoolVal((nd - 1) * k < w) if (nd - 1) * k >= w else z3.LShR(x, (nd - 1) * k) != 0)
                if nd * k < w:
                    conj.append(z3.LShR(x, nd * k) == 0)
                for j in range(nd):
                    d = z3.Extract(7, 0, z3.LShR(x, min((nd - 1 - j) * k, w + 7))) & ((1 << k) - 1)
                    ch = z3.If(z3.ULT(d, 10), d + 48, d + 87)
                    conj.append(out[2 + j] == ch)
            ex.oblige(s, "post:%s prints the bits of the value, without leading zeros" % fn[:-1], z3.And(*conj), timeout=20000)
            frame(ex, s, st, ["v"], fn)
        ex.oblige(st, "reachable:" + fn, z3.BoolVal(n > 0))
    r.absorb(ex)


# ---- S06 ------------------------------------------------------------------------------------------------------------
QUERIES = ["iequals", "istarts_with", "iends_with", "ifind", "irfind", "icontains"]
FUNCTORS = [("is_iequal", lambda x, y: x == y), ("is_not_iequal", lambda x, y: x != y), ("is_iless", lambda x, y: x < y),
            ("is_igreater", lambda x, y: x > y), ("is_iless_equal", lambda x, y: x <= y), ("is_igreater_equal", lambda x, y: x >= y)]


def s06(r, S, std):
    E = repr_type(elem(S))
    E = {"std::string": "char", "std::wstring": "wchar_t", "std::u16string": "char16_t", "std::u32string": "char32_t", "std::u8string": "char8_t"}[S]
    k = {"S": S, "E": E}
    txt = ""
    for loc, a in (("", ""), (", const std::locale& l", ", l")):
        d = "d" if not a else "l"
        k.update(loc=loc, a=a, d=d)
        for f in ("lower", "upper"):
            k["f"] = f
            txt += '''%(E)s %(f)s_c%(d)s(%(E)s c%(loc)s) { return pluto::%(f)s(c%(a)s); }
void %(f)s_p%(d)s(%(E)s* p, std::size_t n%(loc)s) { pluto::%(f)s(p, n%(a)s); }
void %(f)s_s%(d)s(%(S)s& s%(loc)s) { pluto::%(f)s(s%(a)s); }
bool is_%(f)s_c%(d)s(%(E)s c%(loc)s) { return pluto::is_%(f)s(c%(a)s); }
bool is_%(f)s_p%(d)s(const %(E)s* p, std::size_t n%(loc)s) { return pluto::is_%(f)s(p, n%(a)s); }
bool is_%(f)s_s%(d)s(const %(S)s& s%(loc)s) { return pluto::is_%(f)s(s%(a)s); }
''' % k
        for f in QUERIES:
            k["f"] = f
            txt += '''auto %(f)s_p%(d)s(const %(E)s* p, std::size_t n, const %(E)s* q, std::size_t m%(loc)s) { return pluto::%(f)s(p, n, q, m%(a)s); }
auto %(f)s_s%(d)s(const %(S)s& s, const %(S)s& t%(loc)s) { return pluto::%(f)s(s, t%(a)s); }
auto %(f)s_g%(d)s(const %(S)s& s, const %(S)s& t%(loc)s) { return pluto::%(f)s<>(s, t%(a)s); }
''' % k
        for f, _ in FUNCTORS:
            k["f"] = f
            k["b"] = "l" if a else ""
            txt += "bool %(f)s_%(d)s(const %(E)s& x, const %(E)s& y%(loc)s) { return pluto::%(f)s<%(E)s>(%(b)s)(x, y); }\n" % k
    c = Loops(S)
    ex = CaseEx(Ast.load(hdr(S) % txt, std), c, 300)
    st = St()
    es = ex.sort_of(elem(S))
    A, B = z3.Const("a", z3.ArraySort(INT, es)), z3.Const("b", z3.ArraySort(INT, es))
    n, m, off, n2 = z3.Ints("n m off n2")
    st.mem["l"] = z3.Const("l", LOC)
    st.assume(z3.And(0 <= n, n <= (1 << 62), 0 <= m, m <= (1 << 62), 0 <= off, 0 <= n2, off + n2 <= n))
    st.mem["s"] = ArrV(A, n, elem(S))
    st.mem["t"] = ArrV(B, m, elem(S))
    x, y = z3.Ints("x y")
    st.mem["x"], st.mem["y"] = x, y
    Z = z3.IntVal(0)
    P = lambda lv, i: PtrV(z3.BoolVal(False), LV(lv), i)
    for d, loc in (("d", z3.Const("locale:default_locale", LOC)), ("l", st.mem["l"])):
        la = [LV("l")] if d == "l" else []
        for f in ("lower", "upper"):
            cs = lambda c: ex.case("to" + f, loc, c)
            other = 2 if f == "lower" else 3
            nm = "%s(%s)" % (f, "default locale" if d == "d" else "locale")
            for s, v in call(ex, st.fork(), f + "_c" + d, [x] + la):
                ex.oblige(s, "post:%s of a character" % nm, ex.rv(s, v) == cs(x))
            for fn, args, lo, hi in ((f + "_p" + d, [P("s", off), n2], off, off + n2), (f + "_s" + d, [LV("s")], Z, n)):
                c.pairs = [("converted", None)]
                c.pairs = []
                for s, v in call(ex, st.fork(), fn, args + la):
                    out = s.mem["s"]
                    j = z3.Int(fresh_name("j"))
                    ex.oblige(s, "post:%s changes exactly the given characters" % nm, z3.ForAll([j], z3.Implies(z3.And(0 <= j, j < n),
                              z3.Select(out.arr, j) == z3.If(z3.And(lo <= j, j < hi), cs(z3.Select(A, j)), z3.Select(A, j)))))
                    ex.oblige(s, "post:%s keeps the length" % nm, out.n == n)
            bad = lambda j: ex.isf(loc, z3.IntVal(other), z3.Select(A, j))
            for s, v in call(ex, st.fork(), "is_" + f + "_c" + d, [x] + la):
                ex.oblige(s, "post:is_%s of a character" % nm, ex.boolv(v) == z3.Not(ex.isf(loc, z3.IntVal(other), x)))
            c.pairs = [("fine", lambda j: z3.Not(bad(j))), ("bad", bad)]
            for fn, args, lo, hi in (("is_" + f + "_p" + d, [P("s", off), n2], off, off + n2), ("is_" + f + "_s" + d, [LV("s")], Z, n)):
                for s, v in call(ex, st.fork(), fn, args + la):
                    ex.oblige(s, "post:is_%s iff no character is %s case" % (nm, "upper" if f == "lower" else "lower"),
                              ex.boolv(v) == ex.forall(lo, hi, lambda j: z3.Not(bad(j))))
                    frame(ex, s, st, ["s"], fn)
        up = lambda ch: ex.case("toupper", loc, ch)
        for f, op in FUNCTORS:
            for s, v in call(ex, st.fork(), f + "_" + d, [LV("x"), LV("y")] + la):
                ex.oblige(s, "post:%s compares the upper-cased characters" % f, ex.boolv(v) == op(up(x), up(y)))
        eq = lambda u, v: up(u) == up(v)
        rel = lambda i, j: eq(z3.Select(A, i), z3.Select(B, j))
        pred = Obj("functor", pure=lambda st, u, v: eq(u, v))
        M = lambda j: ex.matchat(st, P("s", Z), j, P("t", Z), m, pred)
        c.pairs = [("pair(k,k)", lambda q: rel(q, q)), ("pair(k+n-m,k)", lambda q: rel(q + n - m, q)), ("pair(k,k+m-n)", lambda q: rel(q, q + m - n))]
        for f in QUERIES:
            for pre in "psg":
                args = [P("s", Z), n, P("t", Z), m] if pre == "p" else [LV("s"), LV("t")]
                fn = f + "_" + pre + d
                for s, v in call(ex, st.fork(), fn, args + la):
                    frame(ex, s, st, ["s", "t"], fn)
                    if f in ("iequals", "istarts_with", "iends_with"):
                        w = z3.And(n == m if f == "iequals" else m <= n, ex.forall(Z, m, lambda q: rel(q + n - m if f == "iends_with" else q, q)))
                        ex.oblige(s, "post:%s iff the upper-cased characters match" % f, ex.boolv(v) == w)
                        continue
                    no = lambda j: z3.Implies(j + m <= n, z3.Not(M(j)))
                    if f == "icontains":
                        ex.oblige(s, "post:icontains iff empty or somewhere", ex.boolv(v) == z3.Or(m == 0, z3.Not(ex.forall(Z, n, no))))
                        continue
                    it = ex.it(ex.rv(s, v))
                    i = it.idx
                    ex.oblige(s, "post:%s returns a forward position of the left string" % f, z3.And(z3.BoolVal(it.cont.same(LV("s")) and not it.rev), 0 <= i, i <= n))
                    ex.oblige(s, "post:%s returns a match or the end" % f, z3.Implies(i < n, z3.And(i + m <= n, M(i))))
                    if f == "ifind":
                        ex.oblige(s, "post:ifind finds an empty string at the begin", z3.Implies(m == 0, i == 0))
                        ex.oblige(s, "post:ifind returns the first match", ex.forall(Z, i, no))
                    else:
                        ex.oblige(s, "post:irfind returns the last match", z3.Implies(m > 0, ex.forall(Z, n, lambda j: z3.Implies(
                            z3.And(j + m <= n, z3.Or(i == n, j > i)), z3.Not(M(j))))))
    r.absorb(ex)


TAB = {"S01": s01, "S02": s02, "S03": s03, "S04": s04, "S05": s05, "S06": s06}


def tasks(pid, tier):
    if pid == "S05":
        return ["%s:%d:%s" % (pid, i, std) for i in range(len(NUMS)) for std in ("c++20", "c++17")]
    return ["%s:%d:%s" % (pid, i, std) for i in range(len(STR)) for std in ("c++20", "c++17") if not (STR[i] == "std::u8string" and std == "c++17")]


def prove(tid, r, tier):
    pid, i, std = tid.split(":")
    S = (NUMS if pid == "S05" else STR)[int(i)]
    r.name = "%s/%s/%s" % (pid, S, std)
    TAB[pid](r, S, std)


def natives(pid, tier):
    return [dict(name="strings-%s-%s" % (pid, std), src="strings.cpp", args=[pid], std=std, secs={"quick": 12, "thorough": 150})
            for std in ("c++20", "c++17")] + ([dict(
                name="strings-%s-unicode" % pid, src="strings.cpp", args=[pid], secs={"quick": 6, "thorough": 60},
                flags=["-O1", "-g", "-fsanitize=address", "-DPLUTO_STRING_OVERLOAD_FOR_UNICODE=1"])] if pid in ("S01", "S02", "S03") else [])

TRUSTED = {"*": ["assumed contracts of std::basic_string members, vector<string>::emplace_back and std::ctype (vp/strs.py)"]}
_len = "strings shorter than 2^62 characters; no allocation failure; arguments of one call do not alias"
ASSUME = {
    "S01": [_len, "std::ctype::is depends on locale, mask and character only", "FIND is std::basic_string::find: the leftmost occurrence"],
    "S02": [_len, "the mapping function of map_join is pure", "that split undoes join needs elements free of the separator; join undoes split is the lemma proved here"],
    "S03": [_len],
    "S04": [_len, "std::ctype::is depends on locale, mask and character only"],
    "S05": ["the loops end after a number of iterations the type fixes: every path is followed to its exit (no bound)"],
    "S06": [_len, "toupper, tolower and is of std::ctype are functions of locale and character; the range overloads apply them element by element"],
}
