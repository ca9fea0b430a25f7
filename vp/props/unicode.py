"""U01-U05: contracts of pluto/unicode.hpp, written from the Unicode Standard (Table 3-7, D90-D92), not from the code."""
import z3
from ..ast import Ast, parse_type, params_of, type_of
from ..engine import Ex
from ..sym import *
from ..contract import Contract
from .. import solve

DRIVER = r'''
#include <pluto/unicode.hpp>
#include <string>
namespace pluto_vp {
%s
}
'''

CONV = []     # (name, from-width, to-width, from elem, to elem)
for fe in ("char", "char8_t", "unsigned char"):
    for te, w in (("char16_t", 16), ("char32_t", 32), ("wchar_t", 32)):
        CONV.append(("utf8_to_utf%d" % w, 8, w, fe, te))
for fe, w in (("char16_t", 16), ("unsigned short", 16), ("char32_t", 32), ("wchar_t", 32), ("unsigned int", 32)):
    for te in ("char", "char8_t"):
        CONV.append(("utf%d_to_utf8" % w, w, 8, fe, te))
for te in ("char32_t", "wchar_t"):
    CONV.append(("utf16_to_utf32", 16, 32, "char16_t", te))
for fe in ("char32_t", "wchar_t"):
    CONV.append(("utf32_to_utf16", 32, 16, fe, "char16_t"))


def encode(cp, w):
    """list of (condition, [units]) for a scalar value cp (32-bit term)"""
    def b(t, n=8):
        return z3.Extract(n - 1, 0, t)
    K = lambda v: z3.BitVecVal(v, 32)
    if w == 32:
        return [(z3.BoolVal(True), [cp])]
    if w == 16:
        c2 = cp - 0x10000
        return [(z3.ULT(cp, K(0x10000)), [b(cp, 16)]),
                (z3.BoolVal(True), [b(z3.LShR(c2, 10) + 0xD800, 16), b((c2 & 0x3FF) + 0xDC00, 16)])]
    return [(z3.ULT(cp, K(0x80)), [b(cp)]),
            (z3.ULT(cp, K(0x800)), [b(z3.LShR(cp, 6) | 0xC0), b((cp & 0x3F) | 0x80)]),
            (z3.ULT(cp, K(0x10000)), [b(z3.LShR(cp, 12) | 0xE0), b((z3.LShR(cp, 6) & 0x3F) | 0x80),
                                      b((cp & 0x3F) | 0x80)]),
            (z3.BoolVal(True), [b(z3.LShR(cp, 18) | 0xF0), b((z3.LShR(cp, 12) & 0x3F) | 0x80),
                                b((z3.LShR(cp, 6) & 0x3F) | 0x80), b((cp & 0x3F) | 0x80)])]


def decode(arr, n, i, w):
    """list of (condition, scalar value, units consumed), first match wins; None value means replacement"""
    def at(k):
        return z3.Select(arr, i + k)

    def has(k):
        return z3.ULT(i + k, n) if k else z3.BoolVal(True)

    def rng(x, lo, hi):
        s = x.size()
        return z3.And(z3.UGE(x, z3.BitVecVal(lo, s)), z3.ULE(x, z3.BitVecVal(hi, s)))

    def z(x, m, sh):
        return (z3.ZeroExt(32 - x.size(), x) & m) << sh
    if w == 32:
        c = at(0)
        return [(z3.Or(rng(c, 0, 0xD7FF), rng(c, 0xE000, 0x10FFFF)), c, 1), (z3.BoolVal(True), None, 1)]
    if w == 16:
        a, b = at(0), at(1)
        cp = ((z3.ZeroExt(16, a) & 0x3FF) << 10) + (z3.ZeroExt(16, b) & 0x3FF) + 0x10000
        return [(z3.Or(rng(a, 0, 0xD7FF), rng(a, 0xE000, 0xFFFF)), z3.ZeroExt(16, a), 1),
                (z3.And(has(1), rng(a, 0xD800, 0xDBFF), rng(b, 0xDC00, 0xDFFF)), cp, 2),
                (z3.BoolVal(True), None, 1)]
    a, b, c, d = at(0), at(1), at(2), at(3)
    tail = lambda x: rng(x, 0x80, 0xBF)
    two = z(a, 0x1F, 6) | z(b, 0x3F, 0)
    three = z(a, 0xF, 12) | z(b, 0x3F, 6) | z(c, 0x3F, 0)
    four = z(a, 7, 18) | z(b, 0x3F, 12) | z(c, 0x3F, 6) | z(d, 0x3F, 0)
    return [(rng(a, 0, 0x7F), z3.ZeroExt(24, a), 1),
            (z3.And(has(1), rng(a, 0xC2, 0xDF), tail(b)), two, 2),
            (z3.And(has(2), tail(c), z3.Or(z3.And(rng(a, 0xE0, 0xE0), rng(b, 0xA0, 0xBF)),
                                           z3.And(rng(a, 0xE1, 0xEC), rng(b, 0x80, 0xBF)),
                                           z3.And(rng(a, 0xED, 0xED), rng(b, 0x80, 0x9F)),
                                           z3.And(rng(a, 0xEE, 0xEF), rng(b, 0x80, 0xBF)))), three, 3),
            (z3.And(has(3), tail(c), tail(d), z3.Or(z3.And(rng(a, 0xF0, 0xF0), rng(b, 0x90, 0xBF)),
                                                    z3.And(rng(a, 0xF1, 0xF3), rng(b, 0x80, 0xBF)),
                                                    z3.And(rng(a, 0xF4, 0xF4), rng(b, 0x80, 0x8F)))), four, 4),
            (z3.BoolVal(True), None, 1)]


class ConvContract(Contract):
    """ensures utf == old(utf) ++ CONV(input, 0), stated as RUN(utf, i) with RUN(o, i) = o when i >= n."""

    def __init__(self, name, fw, tw, arr, n, out0, outcell):
        Contract.__init__(self, name)
        self.fw, self.tw, self.arr, self.n, self.out0, self.outcell = fw, tw, arr, n, out0, outcell
        S = z3.SeqSort(z3.BitVecSort(tw))
        self.R = z3.Function("RUN:%d->%d" % (fw, tw), S, z3.BitVecSort(64), S)
        self.spec = solve.RecSpec("RUN", self.R, self.unfold)

    def unfold(self, o, i):
        R = self.R
        r = None
        out = []
        alts = []
        for c, cp, k in decode(self.arr, self.n, i, self.fw):
            if cp is None:
                cp = z3.BitVecVal(0xFFFD, 32)
            for ec, us in encode(z3.simplify(cp), self.tw):
                ec = z3.simplify(ec)
                t = R(z3.Concat(o, *[z3.Unit(z3.simplify(u)) for u in us]), z3.simplify(i + k))
                if z3.is_false(ec):
                    continue
                alts.append((z3.And(c, ec), t))
        r = alts[-1][1]
        for c, t in reversed(alts[:-1]):
            r = z3.If(c, t, r)
        return [R(o, i) == z3.If(z3.UGE(i, self.n), o, r)]

    def invariants(self, ex, st, mod, idx):
        out = []
        goal = self.R(self.out0, z3.BitVecVal(0, 64))
        for nm, f, m in idx:
            if m:
                out.append(("RUN(out,%s)==RUN(old,0)" % nm,
                            lambda s, f=f: self.R(ex.load(s, self.outcell).t, f(s)) == goal))
        return out

    def bounds(self, ex, st):
        return [("n", self.n)]


def driver(convs):
    ls = []
    for i, (fn, fw, tw, fe, te) in enumerate(convs):
        ls.append("void c%d(const %s* p, std::size_t n, std::basic_string<%s>& o) { pluto::%s(p, n, o); }" %
                  (i, fe, te, fn))
    return DRIVER % "\n".join(ls)


def prove_conv(ast, i, conv, budget=120):
    fn, fw, tw, fe, te = conv
    arr = z3.Array("in", z3.BitVecSort(64), z3.BitVecSort(fw))
    n = z3.BitVec("n", 64)
    out0 = z3.Const("out0", z3.SeqSort(z3.BitVecSort(tw)))
    c = ConvContract("%s<%s,%s>" % (fn, fe, te), fw, tw, arr, n, out0, LV("out"))
    ex = Ex(ast, "bv", c, budget)
    ex.specs.append(c.spec)
    st = St()
    st.mem["in"] = ArrV(arr, n, parse_type(fe))
    st.mem["out"] = SeqV(out0, parse_type(te), "std::basic_string")
    st.assume(z3.ULT(n, z3.BitVecVal(1 << 62, 64)))
    d = ast.driver_fn("c%d" % i)
    for s, v in ex.inline(st, d, [PtrV(z3.BoolVal(False), LV("in"), z3.BitVecVal(0, 64)), n, LV("out")]):
        ex.oblige(s, "post:no-exception", z3.BoolVal(s.thrown is None))
        ex.oblige(s, "post:out==RUN(old,0)", ex.load(s, LV("out")).t == c.R(out0, z3.BitVecVal(0, 64)))
    return ex


# ---- U04 -----------------------------------------------------------------------------------------------------------
NAMED = []      # (function, from elem, to elem)
for _fn, _te, _fes in (("str", "char", ("wchar_t", "char8_t", "char16_t", "char32_t")),
                       ("wstr", "wchar_t", ("char", "char8_t", "char16_t", "char32_t")),
                       ("u8str", "char8_t", ("char", "wchar_t", "char16_t", "char32_t")),
                       ("u16str", "char16_t", ("char", "wchar_t", "char8_t", "char32_t")),
                       ("u32str", "char32_t", ("char", "wchar_t", "char8_t", "char16_t"))):
    for _fe in _fes:
        NAMED.append((_fn, _fe, _te))
WIDTH = {"char": 8, "char8_t": 8, "unsigned char": 8, "char16_t": 16, "char32_t": 32, "wchar_t": 32}


def driver_named():
    ls = []
    for i, (fn, fe, te) in enumerate(NAMED):
        ls.append("std::basic_string<%s> np%d(const %s* p, std::size_t n) { return pluto::%s(p, n); }" % (te, i, fe, fn))
        ls.append("std::basic_string<%s> ns%d(const std::basic_string<%s>& s) { return pluto::%s(s); }" % (te, i, fe, fn))
    for i, (fn, fw, tw, fe, te) in enumerate(CONV):
        ls.append("void cs%d(const std::basic_string<%s>& s, std::basic_string<%s>& o) { pluto::%s(s, o); }" %
                  (i, fe, te, fn) if fe not in ("unsigned char", "unsigned short", "unsigned int") else "")
    return DRIVER % "\n".join(ls)


class CopyContract(ConvContract):
    """ensures result == the input units, one for one"""

    def unfold(self, o, i):
        return [self.R(o, i) == z3.If(z3.UGE(i, self.n), o,
                                      self.R(z3.Concat(o, z3.Unit(z3.Select(self.arr, i))), z3.simplify(i + 1)))]

    def invariants(self, ex, st, mod, idx):
        goal = self.R(self.out0, z3.BitVecVal(0, 64))
        out = []
        cells = [c for c in mod if isinstance(st.mem.get(c), SeqV)]
        for oc in cells:
            for nm, f, m in idx:
                if m:
                    out.append(("COPY(%s,%s)==COPY(old,0)" % (oc.split("!")[0], nm),
                                lambda s, f=f, oc=oc: self.R(s.mem[oc].t, f(s)) == goal))
        return out


def conv_hook(contract):
    """A call of a converter is replaced by its contract (proved by U01-U03): out := RUN(out, 0) over its whole input."""
    def hook(ex, st, d, vs, this, e):
        if len(vs) != 3:
            return None                   # the std::string overload: inlined
        p, n, o = vs[0], ex.rv(st, vs[1]), vs[2]
        p = ex.rv(st, p)
        if not (isinstance(p, PtrV) and p.base is not None and p.off is not None and isinstance(o, LV)):
            return None
        a = ex.rv(st, p.base)
        s = ex.rv(st, o)
        fw, tw = {"utf8_to_utf16": (8, 16), "utf8_to_utf32": (8, 32), "utf16_to_utf8": (16, 8),
                  "utf32_to_utf8": (32, 8), "utf16_to_utf32": (16, 32), "utf32_to_utf16": (32, 16)}[d["name"]]
        if not isinstance(a, ArrV) or not isinstance(s, SeqV):
            return None
        ex.oblige(st, "pre:input-range-is-readable", z3.And(p.off == 0, z3.ULE(n, a.n)), "pre")

        def run():
            G = ex.uf("CONV:%d->%d" % (fw, tw), s.t.sort(), a.arr.sort(), z3.BitVecSort(64), s.t.sort())
            ex.store(st, o, SeqV(G(s.t, a.arr, n), s.et, s.kind))
            yield st, VOID
        return run()
    return hook


def prove_named(ast, i, bystr, budget=100):
    fn, fe, te = NAMED[i]
    fw, tw = WIDTH[fe], WIDTH[te]
    arr = z3.Array("in", z3.BitVecSort(64), z3.BitVecSort(fw))
    n = z3.BitVec("n", 64)
    S = z3.SeqSort(z3.BitVecSort(tw))
    same = fw == tw
    c = (CopyContract if same else Contract)(*(["%s(%s %s)" % (fn, fe, "string" if bystr else "pointer")] + (
        [fw, tw, arr, n, z3.Empty(S), None] if same else [])))
    ex = Ex(ast, "bv", c, budget)
    if same:
        ex.specs.append(c.spec)
    for h in ("utf8_to_utf16", "utf8_to_utf32", "utf16_to_utf8", "utf32_to_utf8", "utf16_to_utf32", "utf32_to_utf16"):
        ex.hooks["fn:" + h] = conv_hook(c)
    def c_length(ex, st, vs, e):
        """char_traits::length of the string's own characters: up to the first NUL (a string has one behind its end)"""
        p = ex.rv(st, vs[0])
        if not (bystr and isinstance(p, PtrV) and isinstance(p.base, LV) and p.base.cell == "in" and not p.base.path and z3.is_bv(p.off) and z3.is_true(z3.simplify(p.off == 0))):
            raise Unsupported("length of a C string")
        k, m = z3.BitVec("k", 64), z3.BitVec(fresh_name("strlen"), 64)
        st.assume(z3.And(z3.ULE(m, n), z3.Implies(z3.ULT(m, n), z3.Select(arr, m) == 0)))
        st.assume(z3.ForAll([k], z3.Implies(z3.ULT(k, m), z3.Select(arr, k) != 0)))
        yield st, m
    ex.funcs["length"] = ex.funcs["strlen"] = ex.funcs["wcslen"] = c_length
    st = St()
    st.mem["in"] = ArrV(arr, n, parse_type(fe))
    st.assume(z3.ULT(n, z3.BitVecVal(1 << 62, 64)))
    d = ast.driver_fn("%s%d" % ("ns" if bystr else "np", i))
    args = [LV("in")] if bystr else [PtrV(z3.BoolVal(False), LV("in"), z3.BitVecVal(0, 64)), n]
    npost = 0
    for s, v in ex.inline(st, d, args):
        npost += 1
        ex.oblige(s, "post:no-exception", z3.BoolVal(s.thrown is None))
        v = ex.rv(s, v)
        if same:
            want = c.R(z3.Empty(S), z3.BitVecVal(0, 64))
            t = v.t if isinstance(v, SeqV) else None
            if t is None:
                raise Unsupported("result is not a string built by the function")
            ex.oblige(s, "post:result==input-units", t == want)
        else:
            G = ex.uf("CONV:%d->%d" % (fw, tw), S, arr.sort(), z3.BitVecSort(64), S)
            if not isinstance(v, SeqV) or v.t.sort() != S:
                raise Unsupported("result shape")
            ex.oblige(s, "post:result==CONV(empty,input,n)", v.t == G(z3.Empty(S), arr, n))
        ex.oblige(s, "post:input-unchanged", z3.BoolVal(same_value(s.mem["in"], st.mem["in"])))
    return ex


def prove_convstr(ast, i, budget=60):
    """the std::basic_string overloads of the converters pass the whole string on"""
    fn, fw, tw, fe, te = CONV[i]
    c = Contract("%s<%s,%s>(string)" % (fn, fe, te))
    ex = Ex(ast, "bv", c, budget)
    for h in ("utf8_to_utf16", "utf8_to_utf32", "utf16_to_utf8", "utf32_to_utf8", "utf16_to_utf32", "utf32_to_utf16"):
        ex.hooks["fn:" + h] = conv_hook(c)
    arr = z3.Array("in", z3.BitVecSort(64), z3.BitVecSort(fw))
    n = z3.BitVec("n", 64)
    S = z3.SeqSort(z3.BitVecSort(tw))
    out0 = z3.Const("out0", S)
    st = St()
    st.mem["in"] = ArrV(arr, n, parse_type(fe))
    st.mem["out"] = SeqV(out0, parse_type(te), "std::basic_string")
    st.assume(z3.ULT(n, z3.BitVecVal(1 << 62, 64)))
    for s, v in ex.inline(st, ast.driver_fn("cs%d" % i), [LV("in"), LV("out")]):
        ex.oblige(s, "post:no-exception", z3.BoolVal(s.thrown is None))
        G = ex.uf("CONV:%d->%d" % (fw, tw), S, arr.sort(), z3.BitVecSort(64), S)
        ex.oblige(s, "post:out==CONV(old,input,n)", ex.load(s, LV("out")).t == G(out0, arr, n))
    return ex


# ---- U05: lemmas over the contracts -----------------------------------------------------------------------------------
def lemmas(r):
    """decode(encode(c)) == c with all units consumed, whatever follows; every decoded value is a scalar value."""
    ex = Ex.__new__(Ex)
    ex.axioms, ex.specs, ex.stats, ex.obligations = [], [], solve.Stats(), []
    import time as _t
    ex.deadline = _t.time() + 120
    names = []
    for w in (8, 16, 32):
        arr = z3.Array("in", z3.BitVecSort(64), z3.BitVecSort(w))
        n, i = z3.BitVec("n", 64), z3.BitVec("i", 64)
        cp = z3.BitVec("cp", 32)
        sc = z3.Or(z3.ULE(cp, 0xD7FF), z3.And(z3.UGE(cp, 0xE000), z3.ULE(cp, 0x10FFFF)))
        prior = []
        for ec, us in encode(cp, w):
            pc = [sc, ec] + [z3.Not(p) for p in prior]
            prior.append(ec)
            pc += [z3.Select(arr, i + k) == u for k, u in enumerate(us)]
            pc += [z3.ULT(n, z3.BitVecVal(1 << 62, 64)), z3.ULE(i, n), z3.ULE(i + len(us), n)]
            got = z3.BitVecVal(0, 32)
            used = z3.BitVecVal(0, 64)
            for c, v, k in reversed(decode(arr, n, i, w)):
                got = z3.If(c, v if v is not None else z3.BitVecVal(0xFFFFFFFF, 32), got)
                used = z3.If(c, z3.BitVecVal(k, 64), used)
            names.append(("lemma:decode%d(encode%d(c)++rest)==(c,%d)" % (w, w, len(us)),
                          pc, z3.And(got == cp, used == len(us))))
        prior = []
        for c, v, k in decode(arr, n, i, w):
            pc = [c] + [z3.Not(p) for p in prior]
            prior.append(c)
            if v is not None:
                names.append(("lemma:decode%d-yields-scalar-values(%d units)" % (w, k), pc,
                              z3.Or(z3.ULE(v, 0xD7FF), z3.And(z3.UGE(v, 0xE000), z3.ULE(v, 0x10FFFF)))))
                # canonical: the units consumed are exactly the encoding of the value
                eprior = []
                for ec, us in encode(v, w):
                    names.append(("lemma:encode%d(decode%d)==units(%d,%d)" % (w, w, k, len(us)),
                                  pc + [ec] + [z3.Not(p) for p in eprior],
                                  z3.And(z3.BoolVal(len(us) == k), *[z3.Select(arr, i + j) == u for j, u in
                                                                    enumerate(us)])))
                    eprior.append(ec)
    for nm, pc, f in names:
        status, model, secs, be = solve.prove(ex, pc, f, 20000)
        ex.obligations.append(Obligation("unicode/" + nm, status, secs, model, be, "lemma"))
    ex.calls_inlined = ex.calls_contract = ex.std_used = ex.assumed = set()
    ex.loops = []
    r.absorb(ex)


# ---- interface to the runner --------------------------------------------------------------------------------------------
def tasks(pid, tier):
    if pid == "U01":
        return ["U01:%d" % i for i, c in enumerate(CONV) if c[1] == 8] + ["U01s:0"]
    if pid == "U02":
        return ["U02:%d" % i for i, c in enumerate(CONV) if c[2] == 8] + ["U02s:0"]
    if pid == "U03":
        return ["U03:%d" % i for i, c in enumerate(CONV) if 8 not in c[1:3]] + ["U03s:0"]
    if pid == "U04":
        return ["U04:%d:%d" % (i, b) for i in range(len(NAMED)) for b in (0, 1)]
    want = {("utf8_to_utf16", "char", "char16_t"), ("utf8_to_utf32", "char", "char32_t"),
            ("utf16_to_utf8", "char16_t", "char"), ("utf32_to_utf8", "char32_t", "char"),
            ("utf16_to_utf32", "char16_t", "char32_t"), ("utf32_to_utf16", "char32_t", "char16_t")}
    return ["U05L"] + ["U05:%d" % i for i, c in enumerate(CONV) if (c[0], c[3], c[4]) in want]


def prove(tid, r, tier):
    r.name = tid
    p = tid.split(":")
    if p[0] == "U05L":
        r.name = "lemmas over the Unicode contracts"
        lemmas(r)
        return
    if p[0] in ("U01", "U02", "U03", "U05"):
        i = int(p[1])
        fn, fw, tw, fe, te = CONV[i]
        r.name = "%s<%s,%s>" % (fn, fe, te)
        ast = Ast.load(driver([CONV[i]]))
        r.absorb(prove_conv(ast, 0, CONV[i], 400))
        return
    if p[0] in ("U01s", "U02s", "U03s"):
        r.name = "string overloads of the converters"
        ast = Ast.load(driver_named())
        for i, c in enumerate(CONV):
            if c[3] in ("unsigned char", "unsigned short", "unsigned int"):
                continue
            g = "U01s" if c[1] == 8 else "U02s" if c[2] == 8 else "U03s"
            if g == p[0]:
                r.absorb(prove_convstr(ast, i))
        return
    i, b = int(p[1]), int(p[2])
    r.name = "%s(%s %s)" % (NAMED[i][0], NAMED[i][1], "string" if b else "pointer,size")
    r.absorb(prove_named(Ast.load(driver_named()), i, b))


def natives(pid, tier):
    return [dict(name="unicode-" + pid, src="unicode.cpp", args=[pid], secs={"quick": 10, "thorough": 240})]


TRUSTED = {"*": ["Unicode 15 Table 3-7 (well-formed UTF-8), D90-D92, as written in vp/props/unicode.py"]}
ASSUME = {p: ["input lengths below 2^62 units", "std::basic_string::push_back appends one unit (allocation failure is not "
              "modelled)", "32-bit wchar_t (this platform); the 16-bit branch is not compiled here"]
          for p in ("U01", "U02", "U03", "U04", "U05")}
