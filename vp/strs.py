"""Strings as SMT sequences (S01-S03, S05): assumed contracts of std::basic_string and of vectors of strings."""
import z3
from .ast import T, type_of, qual_of, parse_type
from .sym import *
from .engine import Ex, opaque_sort, repr_type, STRING_RECS
from .iters import IterEx, INT
from . import solve

NPOS = (1 << 64) - 1
LIST = opaque_sort("StrList")
LOC = opaque_sort("locale")
NIL = z3.Const("nil", LIST)


def locale_support(ex):
    """std::locale and its ctype facet: uninterpreted classification and case maps per locale"""
    ex.locs = {}

    def loc(name):
        return z3.Const("locale:" + name, LOC)
    for n in ("default_locale", "system_locale", "c_locale"):
        ex.hooks["fn:" + n] = lambda e, st, d, vs, this, x, n=n: iter([(st, st.new(loc(n), "loc"))])
    ex.funcs["use_facet"] = lambda e, st, vs, x: iter([(st, st.new(Obj("facet", loc=ex.rv(st, vs[0])), "facet"))])
    ex.ctors["std::locale"] = lambda e, st, t, vs, x: iter([(st, ex.rv(st, vs[0]))])
    for n, k in (("space", 1), ("upper", 2), ("lower", 3), ("alpha", 4), ("digit", 5), ("punct", 6), ("blank", 7), ("print", 8),
                 ("cntrl", 9), ("xdigit", 10), ("alnum", 11), ("graph", 12)):
        ex.hooks["global:" + n] = lambda e, st, k=k: st.new(ex.num(k, parse_type("unsigned short")), "mask")

    def is_(e, st, o, vs, x, ot):
        f = ex.rv(st, o)
        m, c = [ex.rv(st, v) for v in vs][:2]
        if len(vs) != 2:
            raise Unsupported("ctype::is over a range")
        yield st, ex.isf(f.attr["loc"], m, c)

    def isf(l, m, c):
        mm = z3.simplify(m)
        if not (z3.is_int_value(mm) or z3.is_bv_value(mm)):
            raise Unsupported("symbolic ctype mask")
        return ex.uf("IS%d" % mm.as_long(), l.sort(), c.sort(), z3.BoolSort())(l, c)
    ex.isf = isf
    ex.methods[("*", "is")] = is_


class CaseEx(IterEx):
    """Strings as arrays with a length; the ctype facet's case maps are uninterpreted functions of locale and character."""

    def __init__(self, ast, contract=None, budget=250.0):
        IterEx.__init__(self, ast, contract, budget)
        locale_support(self)
        for n in ("tolower", "toupper"):
            self.methods[("*", n)] = lambda ex, st, o, vs, e, ot, n=n: self.cased(st, o, vs, n)
        for n in STRING_RECS:
            self.methods[(n, "operator[]")] = self.str_index

    def str_index(self, ex, st, o, vs, e, ot):
        c = self.cell(st, o)
        i = self.rv(st, vs[0])
        # operator[](size()) names the terminator
        self.oblige(st, "string-index-in-bounds", z3.And(0 <= i, i <= self.load(st, c).n), "safety")
        yield st, c.at(i)

    def case(self, n, loc, c):
        return self.uf(n.upper(), loc.sort(), INT, INT)(loc, c)

    def cased(self, st, o, vs, n):
        f = self.load(st, self.cell(st, o))
        v = [self.rv(st, x) for x in vs]
        if not (isinstance(f, Obj) and f.tname == "facet"):
            raise Unsupported("case map of %r" % (f,))
        loc = f.attr["loc"]
        if len(v) == 1:
            yield st, self.case(n, loc, v[0])
            return
        b, e = self.it(v[0]), self.it(v[1])
        self.range_n(st, v[0], v[1])
        a = self.load(st, b.cont)
        k = z3.Int(fresh_name("k"))
        new = z3.Const(fresh_name(n), a.arr.sort())
        x = z3.Select(a.arr, k)
        st.assume(z3.ForAll([k], z3.Select(new, k) == z3.If(z3.And(b.idx <= k, k < e.idx), self.case(n, loc, x), x)))
        self.store(st, b.cont, ArrV(new, a.n, a.et))
        yield st, v[1]


class StrEx(IterEx):
    def __init__(self, ast, contract=None, budget=200.0):
        IterEx.__init__(self, ast, contract, budget)
        locale_support(self)
        M, C, F = self.methods, self.ctors, self.funcs
        for n in STRING_RECS:
            C[n] = self.c_string
            for m in ("size", "length"):
                M[(n, m)] = lambda ex, st, o, vs, e, ot: self.one(st, z3.Length(self.s(st, o)))
            for m in ("find", "find_first_of", "find_first_not_of", "append", "replace", "substr", "erase", "assign",
                      "push_back", "reserve", "clear", "compare"):
                M[(n, m)] = getattr(self, "x_" + m)
            M[(n, "shrink_to_fit")] = self.x_reserve
            M[(n, "empty")] = lambda ex, st, o, vs, e, ot: self.one(st, z3.Length(self.s(st, o)) == 0)
            M[(n, "operator[]")] = M[(n, "at")] = self.x_index
            M[(n, "operator=")] = self.o_assign
            M[(n, "operator+=")] = lambda ex, st, o, vs, e, ot: self.x_append(ex, st, o, vs, e, ot)
            M[(n, "operator+")] = self.x_plus
            M[(n, "operator+/r")] = self.x_plus
            M[(n, "operator==")] = lambda ex, st, o, vs, e, ot: self.one(st, self.s(st, o) == self.s(st, vs[0]))
        self.hooks["global:npos"] = lambda ex, st: st.new(z3.IntVal(NPOS), "npos")
        C["std::vector"] = self.c_list
        V = "std::vector"
        for m in ("emplace_back", "push_back"):
            M[(V, m)] = self.v_emplace
        M[(V, "reserve")] = M[(V, "shrink_to_fit")] = self.x_reserve
        M[(V, "empty")] = lambda ex, st, o, vs, e, ot: self.one(st, self.rv(st, o).attr["term"] == NIL)
        self.snoc = self.uf("snoc", LIST, z3.SeqSort(INT), LIST)
        self.FIND = z3.Function("FIND", z3.SeqSort(INT), z3.SeqSort(INT), INT)
        self.specs.append(solve.RecSpec("FIND", self.FIND, self.u_find))
        self.ISIN = z3.Function("ISIN", z3.SeqSort(INT), INT, z3.BoolSort())

    def sort_of(self, t):
        if t.kind == "rec" and t.name in STRING_RECS:
            return z3.SeqSort(INT)
        if t.kind == "rec" and t.name == "std::vector":
            return LIST
        return IterEx.sort_of(self, t)

    def wrap(self, t, term):
        if t.kind == "rec" and t.name in STRING_RECS:
            return SeqV(term, t.args[0], t.name)
        return Ex.wrap(self, t, term)

    def unwrap(self, v):
        if isinstance(v, Obj) and v.tname == "list":
            return v.attr["term"]
        return Ex.unwrap(self, v)

    def length(self, v):
        if isinstance(v, SeqV):
            return z3.Length(v.t)
        return IterEx.length(self, v)

    def default_value(self, st, t):
        if t.kind == "rec" and t.name in STRING_RECS:
            return SeqV(z3.Empty(z3.SeqSort(INT)), t.args[0], t.name)
        return IterEx.default_value(self, st, t)

    def s(self, st, x):
        """the sequence term of a string argument (string, character, literal)"""
        v = self.rv(st, x)
        if isinstance(v, SeqV):
            return v.t
        if isinstance(v, z3.ArithRef):
            return z3.Unit(v)
        if isinstance(v, PtrV) and v.base is not None:
            a = self.load(st, v.base)
            if isinstance(a, SV) and a.name == "array" and z3.is_int_value(z3.simplify(v.off)):
                o = z3.simplify(v.off).as_long()
                out = []
                for i in range(o, len(a.fields)):
                    c = z3.simplify(a.fields[i])
                    if z3.is_int_value(c) and c.as_long() == 0:
                        return z3.Concat(*[z3.Unit(x) for x in out]) if len(out) > 1 else z3.Unit(out[0]) if out else z3.Empty(z3.SeqSort(INT))
                    out.append(c)
        raise Unsupported("string argument %r" % (v,))

    def put(self, st, o, t):
        v = self.rv(st, o)
        self.store(st, o, SeqV(t, v.et, v.kind))

    def clip(self, st, n, pos, ln):
        """length of the substring [pos, pos+ln) of a string of length n, for pos <= n"""
        r = n - pos
        if ln is None or self.entails(st, ln >= r):
            return z3.simplify(r)
        if self.entails(st, ln <= r):
            return ln
        return z3.If(ln < r, ln, r)

    def sub(self, st, t, pos, ln, what):
        n = z3.Length(t)
        self.oblige(st, "position-within-string(%s)" % what, z3.And(0 <= pos, pos <= n), "pre")
        return self.slice(st, t, pos, self.clip(st, n, pos, ln))

    def c_string(self, ex, st, t, vs, e):
        vs = [v for v in vs if not (isinstance(v, Obj) and v.tname in ("defaultarg", "allocator"))]
        et = t.args[0]
        if not vs:
            r = z3.Empty(z3.SeqSort(INT))
        else:
            v = self.rvs(st, vs)
            if len(v) == 1:
                r = self.s(st, v[0])
            elif isinstance(v[0], SeqV):
                r = self.sub(st, v[0].t, v[1], v[2] if len(v) > 2 else None, "substring")
            elif isinstance(v[0], (ItV, PtrV)) and isinstance(v[1], (ItV, PtrV)):
                b, en = self.it(v[0]), self.it(v[1])
                if b.rev or not b.cont.same(en.cont):
                    raise Unsupported("string from iterators")
                x = self.load(st, b.cont)
                self.oblige(st, "valid-range-passed-to-std", z3.And(0 <= b.idx, b.idx <= en.idx, en.idx <= z3.Length(x.t)), "pre")
                r = z3.SubSeq(x.t, b.idx, z3.simplify(en.idx - b.idx))
            elif isinstance(v[0], z3.ArithRef) and z3.is_int_value(z3.simplify(v[0])) and z3.simplify(v[0]).as_long() <= 4:
                k = z3.simplify(v[0]).as_long()
                r = z3.Concat(*[z3.Unit(v[1])] * k) if k > 1 else z3.Unit(v[1]) if k else z3.Empty(z3.SeqSort(INT))
            else:
                raise Unsupported("string constructor")
        yield st, SeqV(r, et, t.name)

    def cont_or_set(self, st, c):
        v = self.load(st, c)
        if isinstance(v, SeqV):
            return v
        return IterEx.cont_or_set(self, st, c)

    def end(self, st, c):
        c = self.cell(st, c)
        v = self.cont_or_set(st, c)
        return ItV(c, self.length(v))

    # vectors of strings: a list term
    def c_list(self, ex, st, t, vs, e):
        if not vs:
            yield st, Obj("list", term=NIL)
            return
        v = self.rv(st, vs[0])
        if len(vs) == 1 and isinstance(v, Obj) and v.tname == "list":
            yield st, v
            return
        raise Unsupported("vector constructor")

    def v_emplace(self, ex, st, o, vs, e, ot):
        t = ot.args[0] if ot.args else parse_type("std::string")
        for s, x in self.c_string(self, st, t, vs, e):
            l = self.rv(s, o)
            self.store(s, o, Obj("list", term=self.snoc(l.attr["term"], x.t)))
            yield s, VOID

    def x_reserve(self, ex, st, o, vs, e, ot):
        yield st, VOID

    def x_index(self, ex, st, o, vs, e, ot):
        c = self.cell(st, o)
        v = self.load(st, c)
        i = self.rv(st, vs[0])
        self.oblige(st, "string-index-in-bounds", z3.And(0 <= i, i < z3.Length(v.t)), "safety")
        yield st, c.at(i)

    # slices of concatenations are taken part by part where the boundaries are known, so that the solver only sees slices
    # of variables
    def parts(self, t):
        if z3.is_app(t) and t.decl().kind() == z3.Z3_OP_SEQ_CONCAT:
            return [q for c in t.children() for q in self.parts(c)]
        if z3.is_app(t) and t.decl().kind() == z3.Z3_OP_SEQ_EMPTY:
            return []
        return [t]

    def cat(self, l):
        l = [q for c in l for q in self.parts(c)]
        return z3.Empty(z3.SeqSort(INT)) if not l else l[0] if len(l) == 1 else z3.Concat(*l)

    def plen(self, q):
        if z3.is_app(q) and q.decl().kind() == z3.Z3_OP_SEQ_UNIT:
            return z3.IntVal(1)
        return z3.Length(q)

    def cut(self, st, t, i):
        """(prefix, suffix) of t at i (0 <= i <= |t| in st), or None where no part boundary can be placed"""
        ps = self.parts(t)
        pos = z3.IntVal(0)
        for k in range(len(ps) + 1):
            if self.entails(st, pos == i, 2000):
                return self.cat(ps[:k]), self.cat(ps[k:])
            if k == len(ps):
                break
            nx = z3.simplify(pos + self.plen(ps[k]))
            if self.entails(st, z3.And(pos <= i, i <= nx), 2000):
                q, o = ps[k], z3.simplify(i - pos)
                if q.decl().kind() == z3.Z3_OP_SEQ_EXTRACT:
                    b, f, l = q.children()
                    if self.entails(st, z3.And(0 <= f, 0 <= l, f + l <= z3.Length(b)), 2000):
                        l1, l2 = o, z3.simplify(l - o)
                        return (self.cat(ps[:k] + [z3.SubSeq(b, f, l1)]), self.cat([z3.SubSeq(b, z3.simplify(f + o), l2)] + ps[k + 1:]))
                return (self.cat(ps[:k] + [z3.SubSeq(q, z3.IntVal(0), o)]),
                        self.cat([z3.SubSeq(q, o, z3.simplify(z3.Length(q) - o))] + ps[k + 1:]))
            pos = nx
        return None

    def slice(self, st, t, pos, ln):
        ln = z3.simplify(ln)
        if z3.is_int_value(ln) and ln.as_long() == 0:
            return z3.Empty(z3.SeqSort(INT))
        if len(self.parts(t)) > 1:
            c = self.cut(st, t, pos)
            if c is not None:
                c2 = self.cut(st, c[1], ln)
                if c2 is not None:
                    return c2[0]
        if z3.is_int_value(z3.simplify(pos)) and z3.simplify(pos).as_long() == 0 and self.entails(st, ln == z3.Length(t), 1000):
            return t
        return z3.SubSeq(t, pos, z3.simplify(ln))

    def suffix(self, t, pos, st=None):
        if st is not None and len(self.parts(t)) > 1:
            c = self.cut(st, t, pos)
            if c is not None:
                return c[1]
        if z3.is_int_value(z3.simplify(pos)) and z3.simplify(pos).as_long() == 0:
            return t
        return z3.SubSeq(t, pos, z3.Length(t) - pos)

    def u_find(self, h, nd):
        """FIND(h, n): position of the leftmost occurrence of n in h, or -1"""
        f = self.FIND(h, nd)
        L, m = z3.Length(h), z3.Length(nd)
        return [z3.Or(f == -1, z3.And(0 <= f, f <= L - m, z3.SubSeq(h, f, m) == nd)), z3.Implies(m == 0, f == 0)]

    def x_find(self, ex, st, o, vs, e, ot):
        t, nd = self.s(st, o), self.s(st, vs[0])
        pos = self.rv(st, vs[1]) if len(vs) > 1 else z3.IntVal(0)
        if len(vs) > 2:
            raise Unsupported("find with count")
        # positions are relative to the suffix searched
        for s, b in self.branch(st, pos <= z3.Length(t)):
            if not b:
                yield s, z3.IntVal(NPOS)
                continue
            f = self.FIND(self.suffix(t, pos, s), nd)
            for s2, hit in self.branch(s, f >= 0):
                if hit:
                    for g in self.u_find(self.suffix(t, pos, s), nd):
                        s2.assume(g)
                yield s2, (z3.simplify(pos + f) if hit else z3.IntVal(NPOS))

    def isin(self, nd, c):
        return self.ISIN(nd, c)

    def runend(self, key, p):
        """END[p](t, j): the first position >= j at which p holds, or the length (j itself when beyond it)"""
        k = ("END", self.keys.key("end", [INT], p, self))
        if k not in self.fold:
            f = z3.Function("END%d" % k[1], z3.SeqSort(INT), INT, INT)

            def unfold(t, j):
                n = z3.Length(t)
                return [f(t, j) == z3.If(z3.Or(j >= n, p(t[j])), j, f(t, z3.simplify(j + 1))), f(t, j) >= j,
                        z3.Implies(j <= n, f(t, j) <= n), z3.Implies(z3.And(0 <= j, f(t, j) < n), p(t[f(t, j)]))]
            self.specs.append(solve.RecSpec("END", f, unfold))
            self.fold[k] = f
        return self.fold[k]

    def backrun(self, p):
        """BACK[p](t, j): the least k <= j with p on all of t[k, j)"""
        k = ("BACK", self.keys.key("back", [INT], p, self))
        if k not in self.fold:
            f = z3.Function("BACK%d" % k[1], z3.SeqSort(INT), INT, INT)

            def unfold(t, j):
                jm = z3.simplify(j - 1)
                return [f(t, j) == z3.If(j <= 0, 0, z3.If(p(t[jm]), f(t, jm), j)), z3.Implies(j >= 0, z3.And(0 <= f(t, j), f(t, j) <= j))]
            self.specs.append(solve.RecSpec("BACK", f, unfold))
            self.fold[k] = f
        return self.fold[k]

    def scan(self, st, o, vs, neg):
        t, nd = self.s(st, o), self.s(st, vs[0])
        pos = self.rv(st, vs[1]) if len(vs) > 1 else z3.IntVal(0)
        p = (lambda c: z3.Not(self.isin(nd, c))) if neg else (lambda c: self.isin(nd, c))
        f = self.runend(None, p)
        if getattr(self, "suffix_find", False):
            for s, b in self.branch(st, pos <= z3.Length(t)):
                if not b:
                    yield s, z3.IntVal(NPOS)
                    continue
                t2 = self.suffix(t, pos, s)
                r = f(t2, z3.IntVal(0))
                for s2, hit in self.branch(s, r < z3.Length(t2)):
                    for g in (r >= 0, r <= z3.Length(t2)):
                        s2.assume(g)
                    yield s2, (z3.simplify(pos + r) if hit else z3.IntVal(NPOS))
            return
        r = f(t, pos)
        st.assume(r >= pos)
        for s, hit in self.branch(st, r < z3.Length(t)):
            yield s, (r if hit else z3.IntVal(NPOS))

    def x_find_first_of(self, ex, st, o, vs, e, ot):
        yield from self.scan(st, o, vs, False)

    def x_find_first_not_of(self, ex, st, o, vs, e, ot):
        yield from self.scan(st, o, vs, True)

    def x_append(self, ex, st, o, vs, e, ot):
        t = self.s(st, o)
        if len(vs) == 1:
            a = self.s(st, vs[0])
        else:
            v = self.rvs(st, vs)
            if not isinstance(v[0], SeqV):
                raise Unsupported("append")
            a = self.sub(st, v[0].t, v[1], v[2] if len(v) > 2 else None, "append")
        self.put(st, o, self.cat([t, a]))
        yield st, o

    x_push_back = x_append

    def x_plus(self, ex, st, o, vs, e, ot):
        a = self.rv(st, o)
        b = self.rv(st, vs[0])
        if not isinstance(a, SeqV) and not isinstance(b, SeqV):
            yield from self.o_plus(st, o, vs, 1)
            return
        et = a.et if isinstance(a, SeqV) else b.et
        yield st, SeqV(z3.Concat(self.s(st, a), self.s(st, b)), et, "std::basic_string")

    def std_plus(self, st, a, b, sg):
        if sg > 0 and (isinstance(a, SeqV) or isinstance(b, SeqV)):
            et = a.et if isinstance(a, SeqV) else b.et
            yield st, SeqV(z3.Concat(self.s(st, a), self.s(st, b)), et, "std::basic_string")
            return
        raise Unsupported("operator+ on %r" % (a,))

    def x_replace(self, ex, st, o, vs, e, ot):
        t = self.s(st, o)
        v = self.rvs(st, vs)
        if len(v) != 3 or not isinstance(v[0], z3.ArithRef):
            raise Unsupported("string::replace overload")
        n = z3.Length(t)
        pos = v[0]
        self.oblige(st, "position-within-string(replace)", z3.And(0 <= pos, pos <= n), "pre")
        ln = self.clip(st, n, pos, v[1])
        r = self.s(st, v[2])
        self.put(st, o, self.cat([self.slice(st, t, z3.IntVal(0), pos), r, self.slice(st, t, z3.simplify(pos + ln), z3.simplify(n - pos - ln))]))
        yield st, o

    def x_substr(self, ex, st, o, vs, e, ot):
        t = self.s(st, o)
        v = self.rvs(st, vs)
        sv = self.rv(st, o)
        yield st, SeqV(self.sub(st, t, v[0] if v else z3.IntVal(0), v[1] if len(v) > 1 else None, "substr"), sv.et, sv.kind)

    def x_erase(self, ex, st, o, vs, e, ot):
        t = self.s(st, o)
        v = self.rvs(st, vs)
        if any(not isinstance(x, z3.ArithRef) for x in v):
            raise Unsupported("erase with iterators")
        n = z3.Length(t)
        pos = v[0] if v else z3.IntVal(0)
        self.oblige(st, "position-within-string(erase)", z3.And(0 <= pos, pos <= n), "pre")
        ln = self.clip(st, n, pos, v[1] if len(v) > 1 else None)
        self.put(st, o, self.cat([self.slice(st, t, z3.IntVal(0), pos), self.slice(st, t, z3.simplify(pos + ln), z3.simplify(n - pos - ln))]))
        yield st, o

    def x_assign(self, ex, st, o, vs, e, ot):
        if len(vs) != 1:
            raise Unsupported("assign")
        self.put(st, o, self.s(st, vs[0]))
        yield st, o

    def x_clear(self, ex, st, o, vs, e, ot):
        self.put(st, o, z3.Empty(z3.SeqSort(INT)))
        yield st, VOID

    def x_compare(self, ex, st, o, vs, e, ot):
        v = self.rvs(st, vs)
        t = self.s(st, o)
        if len(v) == 3 and isinstance(v[2], SeqV):
            t = self.sub(st, t, v[0], v[1], "compare")
            v = v[2:]
        if len(v) != 1:
            raise Unsupported("compare")
        r = z3.Int(fresh_name("cmp"))
        st.assume((r == 0) == (t == self.s(st, v[0])))
        yield st, r

    def havoc_value(self, st, old, new, name):
        if isinstance(old, Obj) and old.tname == "list":
            return Obj("list", term=z3.Const(fresh_name("h_list"), LIST))
        return IterEx.havoc_value(self, st, old, new, name)


class DigitEx(Ex):
    """Bit-exact machine integers; a string is the list of its characters (its length is known on every path)."""
    merge_cond = True

    def __init__(self, ast, contract=None, budget=250.0):
        Ex.__init__(self, ast, "bv", contract, budget)
        self.exact = 130
        M, C, F = self.methods, self.ctors, self.funcs
        for n in STRING_RECS:
            C[n] = self.c_str
            for m in ("push_back", "append", "assign", "clear", "insert", "reserve", "size", "empty", "back", "front"):
                M[(n, m)] = getattr(self, "d_" + m)
            M[(n, "length")] = self.d_size
            M[(n, "shrink_to_fit")] = self.d_reserve
            M[(n, "operator=")] = lambda ex, st, o, vs, e, ot: self.d_assign(ex, st, o, vs, e, ot)
            M[(n, "operator+=")] = lambda ex, st, o, vs, e, ot: self.d_append(ex, st, o, vs, e, ot)
            M[(n, "operator[]")] = M[(n, "at")] = self.d_index
        M[("*", "operator+")] = self.d_plus

    def chars(self, st, x):
        v = self.rv(st, x)
        if isinstance(v, Obj) and v.tname == "digits":
            return v.attr["items"]
        if z3.is_bv(v) and v.size() == 8:
            return (v,)
        if isinstance(v, PtrV) and v.base is not None:
            a = self.load(st, v.base)
            if isinstance(a, SV) and a.name == "array" and (v.off is None or z3.is_bv_value(z3.simplify(v.off))):
                out = []
                for i in range(0 if v.off is None else z3.simplify(v.off).as_long(), len(a.fields)):
                    c = z3.simplify(a.fields[i])
                    if z3.is_bv_value(c) and c.as_long() == 0:
                        return tuple(out)
                    out.append(c)
        raise Unsupported("string argument %r" % (v,))

    def default_value(self, st, t):
        if t.kind == "rec" and t.name in STRING_RECS:
            return Obj("digits", items=())
        return Ex.default_value(self, st, t)

    def const(self, v):
        v = z3.simplify(v)
        if not z3.is_bv_value(v):
            raise Unsupported("symbolic string size")
        return v.as_long()

    def c_str(self, ex, st, t, vs, e):
        vs = [self.rv(st, v) for v in vs]
        vs = [v for v in vs if not (isinstance(v, Obj) and v.tname in ("defaultarg", "allocator"))]
        if len(vs) == 2 and z3.is_bv(vs[0]):
            yield st, Obj("digits", items=(vs[1],) * self.const(vs[0]))
        elif len(vs) > 1:
            raise Unsupported("string constructor")
        else:
            yield st, Obj("digits", items=self.chars(st, vs[0]) if vs else ())

    def up(self, st, o, items):
        self.store(st, o, Obj("digits", items=tuple(items)))

    def d_push_back(self, ex, st, o, vs, e, ot):
        self.up(st, o, self.chars(st, o) + self.chars(st, vs[0]))
        yield st, o

    def d_append(self, ex, st, o, vs, e, ot):
        if len(vs) == 2 and z3.is_bv(self.rv(st, vs[0])):
            a = (self.rv(st, vs[1]),) * self.const(self.rv(st, vs[0]))
        elif len(vs) == 1:
            a = self.chars(st, vs[0])
        else:
            raise Unsupported("append")
        self.up(st, o, self.chars(st, o) + a)
        yield st, o

    def d_assign(self, ex, st, o, vs, e, ot):
        if len(vs) != 1:
            raise Unsupported("assign")
        self.up(st, o, self.chars(st, vs[0]))
        yield st, o

    def d_insert(self, ex, st, o, vs, e, ot):
        p = self.const(self.rv(st, vs[0]))
        x = self.chars(st, o)
        if len(vs) == 2:
            a = self.chars(st, vs[1])
        elif len(vs) == 3 and z3.is_bv(self.rv(st, vs[1])):
            a = (self.rv(st, vs[2]),) * self.const(self.rv(st, vs[1]))
        else:
            raise Unsupported("insert")
        self.oblige(st, "position-within-string(insert)", z3.BoolVal(p <= len(x)), "pre")
        self.up(st, o, x[:p] + a + x[p:])
        yield st, o

    def d_clear(self, ex, st, o, vs, e, ot):
        self.up(st, o, ())
        yield st, VOID

    def d_reserve(self, ex, st, o, vs, e, ot):
        yield st, VOID

    def d_size(self, ex, st, o, vs, e, ot):
        yield st, z3.BitVecVal(len(self.chars(st, o)), 64)

    def d_empty(self, ex, st, o, vs, e, ot):
        yield st, z3.BoolVal(not self.chars(st, o))

    def d_back(self, ex, st, o, vs, e, ot):
        yield st, self.chars(st, o)[-1]

    def d_front(self, ex, st, o, vs, e, ot):
        yield st, self.chars(st, o)[0]

    def d_index(self, ex, st, o, vs, e, ot):
        i = self.const(self.rv(st, vs[0]))
        x = self.chars(st, o)
        if i >= len(x):
            self.oblige(st, "string-index-in-bounds", z3.BoolVal(False), "safety")
            raise Unsupported("index")
        yield st, x[i]

    def d_plus(self, ex, st, o, vs, e, ot):
        yield st, Obj("digits", items=self.chars(st, o) + self.chars(st, vs[0]))
