"""Iterators, containers and the assumed contracts of the <algorithm>/<iterator> functions, over mathematical integers.

A container is a cell holding ArrV(array, length): every access or move outside [0, length] is an obligation, so a function
given exactly this range as its argument can be shown not to touch anything outside it. An iterator is a position."""
import z3
from .ast import T, type_of, qual_of, parse_type, body_of, params_of
from .sym import *
from .engine import Ex, opaque_sort, BOOL, repr_type, SEQ_RECS, STRING_RECS, type_of_return
from . import solve

INT = z3.IntSort()
SEQS = ("std::vector", "std::list", "std::__cxx11::list", "std::deque", "std::forward_list", "std::basic_string",
        "std::__cxx11::basic_string", "std::basic_string_view")
SETS = ("std::set", "std::multiset", "std::unordered_set", "std::unordered_multiset")


class Keys:
    """Names for the predicates and functions occurring in specifications: equivalent formulas share one symbol."""

    def __init__(self):
        self.tab = []

    def key(self, kind, sorts, fn, ex):
        cs = [z3.Const("key!%d!%s" % (i, s.name()), s) for i, s in enumerate(sorts)]
        g = z3.simplify(fn(*cs))
        for k, ss, g2, n in self.tab:
            if k != kind or ss != [s.name() for s in sorts] or g2.sort() != g.sort():
                continue
            if z3.eq(g, g2):
                return n
            s = z3.Solver()
            s.set("timeout", 500)
            s.add(*ex.axioms)
            s.add(g != g2)
            if s.check() == z3.unsat:
                return n
        n = len(self.tab)
        self.tab.append((kind, [s.name() for s in sorts], g, n))
        return n


class IterEx(Ex):
    callables = {"std::equal_to", "std::not_equal_to", "std::less", "std::greater", "std::less_equal",
                 "std::greater_equal"}

    def __init__(self, ast, contract=None, budget=200.0):
        Ex.__init__(self, ast, "int", contract, budget)
        self.keys = Keys()
        self.fold = {}
        M, F, C = self.methods, self.funcs, self.ctors
        for n, op in (("equal_to", "=="), ("not_equal_to", "!="), ("less", "<"), ("greater", ">"),
                      ("less_equal", "<="), ("greater_equal", ">=")):
            C["std::" + n] = lambda ex, st, t, vs, e, op=op: iter([(st, self.functor(op))])
        for n in ("begin", "cbegin"):
            F[n] = lambda ex, st, vs, e: self.one(st, self.begin(st, vs[0]))
            M[("*", n)] = lambda ex, st, o, vs, e, ot: self.one(st, self.begin(st, o))
        for n in ("end", "cend"):
            F[n] = lambda ex, st, vs, e: self.one(st, self.end(st, vs[0]))
            M[("*", n)] = lambda ex, st, o, vs, e, ot: self.one(st, self.end(st, o))
        for n in ("rbegin", "crbegin"):
            F[n] = lambda ex, st, vs, e: self.one(st, self.rev(self.end(st, vs[0])))
            M[("*", n)] = lambda ex, st, o, vs, e, ot: self.one(st, self.rev(self.end(st, o)))
        for n in ("rend", "crend"):
            F[n] = lambda ex, st, vs, e: self.one(st, self.rev(self.begin(st, vs[0])))
            M[("*", n)] = lambda ex, st, o, vs, e, ot: self.one(st, self.rev(self.begin(st, o)))
        F["make_reverse_iterator"] = lambda ex, st, vs, e: self.one(st, self.rev(self.rv(st, vs[0])))
        C["std::reverse_iterator"] = self.c_reverse
        for n in ("__gnu_cxx::__normal_iterator", "std::_List_const_iterator", "std::_List_iterator",
                  "std::_Deque_iterator", "std::_Fwd_list_iterator", "std::_Fwd_list_const_iterator"):
            C[n] = lambda ex, st, t, vs, e: self.one(st, self.rv(st, vs[0]))
        M[("*", "base")] = lambda ex, st, o, vs, e, ot: self.one(st, self.unrev(self.rv(st, o)))
        F["size"] = lambda ex, st, vs, e: self.one(st, self.length(self.rv(st, vs[0])))
        F["ssize"] = F["size"]
        F["empty"] = lambda ex, st, vs, e: self.one(st, self.length(self.rv(st, vs[0])) == 0)
        M[("*", "empty")] = lambda ex, st, o, vs, e, ot: self.one(st, self.length(self.rv(st, o)) == 0)
        F["data"] = lambda ex, st, vs, e: self.one(st, PtrV(z3.BoolVal(False), self.cell(st, vs[0]), z3.IntVal(0)))
        M[("*", "operator*")] = lambda ex, st, o, vs, e, ot: self.one(st, self.deref(st, self.rv(st, o)))
        M[("*", "operator->")] = lambda ex, st, o, vs, e, ot: self.one(st, self.rv(st, o))
        M[("*", "operator[]")] = self.o_index
        M[("*", "at")] = M[("*", "operator[]")]
        M[("*", "operator++")] = lambda ex, st, o, vs, e, ot: self.o_step(st, o, vs, 1)
        M[("*", "operator--")] = lambda ex, st, o, vs, e, ot: self.o_step(st, o, vs, -1)
        M[("*", "operator+")] = lambda ex, st, o, vs, e, ot: self.o_plus(st, o, vs, 1)
        M[("*", "operator-")] = lambda ex, st, o, vs, e, ot: self.o_plus(st, o, vs, -1)
        M[("*", "operator+=")] = lambda ex, st, o, vs, e, ot: self.o_pluseq(st, o, vs, 1)
        M[("*", "operator-=")] = lambda ex, st, o, vs, e, ot: self.o_pluseq(st, o, vs, -1)
        M[("*", "operator=")] = self.o_assign
        for op in ("==", "!=", "<", "<=", ">", ">="):
            M[("*", "operator" + op)] = lambda ex, st, o, vs, e, ot, op=op: self.one(st, self.compare(st, op, o, vs[0]))
        F["advance"] = self.f_advance
        F["next"] = lambda ex, st, vs, e: self.one(st, self.moved(st, self.rv(st, vs[0]), self.rv(st, vs[1]) if len(vs) > 1 else z3.IntVal(1)))
        F["prev"] = lambda ex, st, vs, e: self.one(st, self.moved(st, self.rv(st, vs[0]), -self.rv(st, vs[1]) if len(vs) > 1 else z3.IntVal(-1)))
        F["distance"] = lambda ex, st, vs, e: self.one(st, self.dist(st, self.rv(st, vs[0]), self.rv(st, vs[1])))
        F["inserter"] = lambda ex, st, vs, e: self.one(st, Obj("inserter", cont=vs[0], it=self.rv(st, vs[1])))
        F["back_inserter"] = lambda ex, st, vs, e: self.one(st, Obj("inserter", cont=vs[0], it=None))
        F["__assert_fail"] = self.f_assert
        for n in ("equal", "search", "find_end", "find", "find_if", "find_if_not", "remove_if", "copy_if", "transform",
                  "for_each", "sort", "stable_sort", "reverse", "count", "count_if", "any_of", "all_of", "none_of",
                  "accumulate", "min_element", "max_element", "mismatch"):
            F[n] = lambda ex, st, vs, e, n=n: getattr(self, "a_" + n)(st, vs, e)
        for n in SEQS:
            C[n] = self.c_seq
            M[(n, "erase")] = self.m_erase
            M[(n, "operator=")] = self.o_assign
        for n in SETS:
            C[n] = self.c_set
        M[("*", "push_back")] = M[("*", "emplace_back")] = self.m_push
        M[("*", "front")] = lambda ex, st, o, vs, e, ot: self.one(st, self.deref(st, self.begin(st, o)))

    def one(self, st, v):
        yield st, v

    # ---- values -----------------------------------------------------------------------------------------------------
    def sort_of(self, t):
        if t.kind == "rec" and t.name in SEQS:
            return opaque_sort(repr_type(t))
        return Ex.sort_of(self, t)

    def cell(self, st, c):
        if isinstance(c, LV):
            v = self.load(st, c)
            if isinstance(v, LV):
                return self.cell(st, v)
            return c
        return st.new(c, "tmpc")

    def cont(self, st, lv):
        v = self.load(st, lv)
        if not isinstance(v, (ArrV,)):
            raise Unsupported("container expected: %r" % (v,))
        return v

    def begin(self, st, c):
        c = self.cell(st, c)
        self.cont_or_set(st, c)
        return ItV(c, z3.IntVal(0))

    def end(self, st, c):
        c = self.cell(st, c)
        v = self.cont_or_set(st, c)
        return ItV(c, v.n if isinstance(v, ArrV) else z3.IntVal(0))

    def cont_or_set(self, st, c):
        v = self.load(st, c)
        if isinstance(v, ArrV) or (isinstance(v, Obj) and v.tname == "set"):
            return v
        raise Unsupported("container expected: %r" % (v,))

    def rev(self, it):
        it = self.it(it)
        return ItV(it.cont, it.idx, not it.rev)

    def unrev(self, it):
        it = self.it(it)
        if not it.rev:
            return it
        return ItV(it.cont, it.idx, False)

    def it(self, v):
        if isinstance(v, ItV):
            return v
        if isinstance(v, PtrV) and v.base is not None and v.off is not None:
            return ItV(v.base, v.off)
        if isinstance(v, PtrV) and v.base is not None and v.base.path and not isinstance(v.base.path[-1], str):
            return ItV(LV(v.base.cell, v.base.path[:-1]), v.base.path[-1][1])
        raise Unsupported("iterator expected: %r" % (v,))

    def like(self, st, old, idx):
        idx = z3.simplify(idx)
        if isinstance(old, PtrV):
            r = PtrV(old.null, old.base, idx)
        else:
            r = ItV(old.cont, idx, old.rev)
        return r

    def in_range(self, st, it):
        it = self.it(it)
        n = self.length(self.cont_or_set(st, it.cont))
        self.oblige(st, "iterator-stays-in-range", z3.And(0 <= it.idx, it.idx <= n), "safety")

    def check_ptr(self, st, p):
        if p.base is not None and isinstance(self.load(st, p.base), ArrV):
            self.in_range(st, p)

    def moved(self, st, v, n):
        it = self.it(v)
        r = self.like(st, v, it.idx - n if it.rev else it.idx + n)
        self.in_range(st, r)
        return r

    def dist(self, st, a, b):
        a, b = self.it(a), self.it(b)
        if not a.cont.same(b.cont) or a.rev != b.rev:
            raise Unsupported("distance between different containers")
        return z3.simplify(a.idx - b.idx if a.rev else b.idx - a.idx)

    def deref(self, st, p, what="pointer"):
        if isinstance(p, ItV):
            return self.iter_deref(st, p)
        return Ex.deref(self, st, p, what)

    def length(self, v):
        if isinstance(v, Obj) and v.tname == "set":
            return z3.IntVal(0)
        return Ex.length(self, v)

    def eqv(self, st, a, b, t):
        a, b = self.rv(st, a), self.rv(st, b)
        if isinstance(a, (ItV, PtrV)) and isinstance(b, (ItV, PtrV)) and (isinstance(a, ItV) or isinstance(b, ItV)):
            x, y = self.it(a), self.it(b)
            if not x.cont.same(y.cont) or x.rev != y.rev:
                raise Unsupported("comparing iterators of different containers")
            return x.idx == y.idx
        return Ex.eqv(self, st, a, b, t)

    def o_index(self, ex, st, o, vs, e, ot):
        v = self.rv(st, o)
        i = self.rv(st, vs[0])
        if isinstance(v, (ItV, PtrV)):
            yield st, self.deref(st, self.moved(st, v, i))
            return
        c = self.cell(st, o)
        self.in_bounds(st, self.load(st, c), i)
        yield st, c.at(i)

    def o_step(self, st, o, vs, d):
        old = self.rv(st, o)
        new = self.moved(st, old, z3.IntVal(d))
        if not isinstance(o, LV):
            o = st.new(o, "it")
        self.store(st, o, new)
        yield st, (old if vs else o)

    def o_plus(self, st, o, vs, sg):
        a = self.rv(st, o)
        if not vs:
            raise Unsupported("unary operator on iterator")
        b = self.rv(st, vs[0])
        if isinstance(a, (ItV, PtrV)) and isinstance(b, (ItV, PtrV)):
            yield st, self.dist(st, b, a)
            return
        if isinstance(a, (ItV, PtrV)) and z3.is_int(b):
            yield st, self.moved(st, a, b if sg > 0 else -b)
            return
        if isinstance(b, (ItV, PtrV)) and z3.is_int(a) and sg > 0:
            yield st, self.moved(st, b, a)
            return
        yield from self.std_plus(st, a, b, sg)

    def std_plus(self, st, a, b, sg):
        raise Unsupported("operator+ on %r" % (a,))

    def o_pluseq(self, st, o, vs, sg):
        a, b = self.rv(st, o), self.rv(st, vs[0])
        if isinstance(a, (ItV, PtrV)):
            self.store(st, o, self.moved(st, a, b if sg > 0 else -b))
            yield st, o
            return
        raise Unsupported("operator+= on %r" % (a,))

    def o_assign(self, ex, st, o, vs, e, ot):
        self.store(st, o, self.rv(st, vs[0]))
        yield st, o

    def compare(self, st, op, a, b):
        a, b = self.rv(st, a), self.rv(st, b)
        if isinstance(a, (ItV, PtrV)) and isinstance(b, (ItV, PtrV)) and op not in ("==", "!="):
            d = self.dist(st, a, b)         # b - a
            return {"<": d > 0, "<=": d >= 0, ">": d < 0, ">=": d <= 0}[op]
        if op == "==":
            return self.eqv(st, a, b, None)
        if op == "!=":
            return z3.Not(self.boolv(self.eqv(st, a, b, None)))
        raise Unsupported("comparison %s of %r" % (op, a))

    def c_reverse(self, ex, st, t, vs, e):
        v = self.rv(st, vs[0])
        if isinstance(v, ItV) and v.rev:
            yield st, v
        else:
            yield st, self.rev(v)

    def f_advance(self, ex, st, vs, e):
        self.store(st, vs[0], self.moved(st, self.rv(st, vs[0]), self.rv(st, vs[1])))
        yield st, VOID

    def f_assert(self, ex, st, vs, e):
        self.oblige(st, "assertion-holds", z3.BoolVal(False), "safety")
        return
        yield

    # ---- callables --------------------------------------------------------------------------------------------------
    def functor(self, op):
        def call(ex, st, vs, e):
            yield st, pure(st, *[self.rv(st, v) for v in vs])

        def pure(st, a, b):
            if op == "==":
                return self.boolv(self.eqv(st, a, b, None))
            if op == "!=":
                return z3.Not(self.boolv(self.eqv(st, a, b, None)))
            if op == "<":
                return self.ltv(st, a, b, parse_type("long"))
            if op == ">":
                return self.ltv(st, b, a, parse_type("long"))
            if op == "<=":
                return z3.Not(self.ltv(st, b, a, parse_type("long")))
            return z3.Not(self.ltv(st, a, b, parse_type("long")))
        return Obj("functor", call=call, pure=pure, op=op)

    def pcall(self, st, f, args, rt=BOOL, sort=None):
        """The value of callable f on element terms (a pure formula)."""
        f = self.rv(st, f)
        if isinstance(f, Obj) and f.tname == "functor":
            return f.attr["pure"](st, *args)
        if isinstance(f, z3.ExprRef) and f.sort().kind() == z3.Z3_UNINTERPRETED_SORT:
            rec = f.sort().name().split("::")[-1]
            rs = sort if sort is not None else (z3.BoolSort() if rt.kind == "bool" else self.sort_of(rt))
            return self.uf("uf:%s::operator()" % rec, f.sort(), *[a.sort() for a in args], rs)(f, *args)
        if isinstance(f, Clo):
            return self.apply_pure(st, self.pick(f, args), None, list(args), rt=rt)
        if isinstance(f, SV):
            s = st.fork()
            m = self.pick_op(f, args)
            return self.pure_decl(s, m, f, args, rt)
        raise Unsupported("predicate %r" % (f,))

    def pure_decl(self, st, m, f, args, rt):
        base = len(st.pc)
        old, self.recording = self.recording, False
        out = []
        try:
            lv = st.new(f, "functor")
            for s2, v in self.call_decl(st, m, [st.new(a, "arg") for a in args], lv, None):
                v = self.rv(s2, v)
                out.append((s2.pc[base:], self.boolv(v) if rt.kind == "bool" else self.unwrap(v)))
        finally:
            self.recording = old
        if not out:
            raise Unsupported("predicate has no path")
        r = out[-1][1]
        for pcs, v in reversed(out[:-1]):
            r = z3.If(z3.And(*pcs) if pcs else z3.BoolVal(True), v, r)
        return z3.simplify(r)

    def matches(self, m, args):
        ps = params_of(m)
        if len(ps) != len(args):
            return False
        for p, a in zip(ps, args):
            try:
                if isinstance(a, z3.ExprRef) and self.sort_of(type_of(p)) != a.sort():
                    return False
            except Unsupported:
                return False
        return True

    def pick(self, clo, args):
        call = clo.node["call"]
        if call.get("kind") != "FunctionTemplateDecl":
            return clo
        specs = [c for c in call.get("inner", ()) if c.get("kind") == "CXXMethodDecl" and body_of(c) is not None and
                 any(x.get("kind") == "TemplateArgument" for x in c.get("inner", ()))]
        ok = [c for c in specs if self.matches(c, args)]
        if not ok:
            raise Unsupported("generic lambda without matching instantiation")
        n = dict(clo.node)
        n["call"] = ok[0]
        return Clo(n, clo.caps, clo.this, clo.name)

    def pick_op(self, f, args):
        rec = self.find_record(T("rec", f.name, f.targs), "") or self.any_record(f.name)
        cands = []
        for c in (rec or {}).get("inner", ()):
            if c.get("kind") == "CXXMethodDecl" and c.get("name") == "operator()":
                cands.append(c)
            if c.get("kind") == "FunctionTemplateDecl" and c.get("name") == "operator()":
                cands += [x for x in c.get("inner", ()) if x.get("kind") == "CXXMethodDecl" and body_of(x) is not None
                          and any(y.get("kind") == "TemplateArgument" for y in x.get("inner", ()))]
        ok = [c for c in cands if self.matches(c, args)]
        if not ok:
            raise Unsupported("no matching operator() in %s" % f.name)
        return ok[0]

    def any_record(self, name):
        ds = [d for d in self.records().get(name.split("::")[-1], ()) if d.get("completeDefinition")]
        return ds[0] if ds else None

    # ---- specification vocabulary -----------------------------------------------------------------------------------
    def at(self, st, it, k):
        """term of the element k steps after iterator it"""
        it = self.it(it)
        v = self.load(st, it.cont)
        i = z3.simplify(it.idx - 1 - k if it.rev else it.idx + k)
        return z3.Select(v.arr, i)

    def range_n(self, st, b, e, what="range"):
        n = self.dist(st, b, e)
        self.oblige(st, "valid-%s-passed-to-std" % what, n >= 0, "pre")
        return n

    def forall(self, lo, hi, f, hint="k"):
        k = z3.Int(fresh_name(hint))
        body = f(k)
        return z3.ForAll([k], z3.Implies(z3.And(lo <= k, k < hi), body))

    def cnt(self, kind, pfn, arr, lo, i):
        """number of positions in [lo, i) whose element satisfies the predicate"""
        es = arr.sort().range()
        n = self.keys.key("p", [es], pfn, self)
        k = ("cnt", n)
        if k not in self.fold:
            f = z3.Function("CNT%d" % n, arr.sort(), INT, INT, INT)

            def unfold(a, l, j):
                jm = z3.simplify(j - 1)
                return [z3.If(j <= l, f(a, l, j) == 0, f(a, l, j) == f(a, l, jm) + z3.If(pfn(z3.Select(a, jm)), 1, 0)),
                        f(a, l, j) >= 0, z3.Implies(j >= l, f(a, l, j) <= j - l)]
            r = solve.RecSpec("CNT%d" % n, f, unfold)
            self.specs.append(r)
            self.fold[k] = f
        return self.fold[k](arr, lo, z3.simplify(i))

    def accum(self, gfn, arr, lo, init, i):
        """left fold: acc(lo) = init, acc(j) = g(acc(j-1), arr[j-1])"""
        es, vs = arr.sort().range(), init.sort()
        n = self.keys.key("g", [vs, es], gfn, self)
        k = ("acc", n)
        if k not in self.fold:
            f = z3.Function("ACC%d" % n, arr.sort(), INT, vs, INT, vs)

            def unfold(a, l, z, j):
                jm = z3.simplify(j - 1)
                return [z3.If(j <= l, f(a, l, z, j) == z, f(a, l, z, j) == gfn(f(a, l, z, jm), z3.Select(a, jm)))]
            self.specs.append(solve.RecSpec("ACC%d" % n, f, unfold))
            self.fold[k] = f
        return self.fold[k](arr, lo, init, z3.simplify(i))

    def pkey(self, kind, pfn, *sorts):
        return self.keys.key(kind, list(sorts), pfn, self)

    def rel(self, name, *args):
        """an uninterpreted specification relation"""
        f = self.uf("SPEC:" + name, *[a.sort() for a in args], z3.BoolSort())
        return f(*args)

    def first(self, st, b, e, p, kind="first"):
        """fresh position r in [b, e]: the first element satisfying p, or e (assumed contract of the find family)"""
        n = self.range_n(st, b, e)
        r = z3.Int(fresh_name("pos"))
        st.assume(z3.And(0 <= r, r <= n))
        st.assume(z3.Implies(r < n, p(self.at(st, b, r))))
        st.assume(self.forall(z3.IntVal(0), r, lambda k: z3.Not(p(self.at(st, b, k)))))
        it = self.it(b)
        return self.like(st, b, it.idx - r if it.rev else it.idx + r)

    def rvs(self, st, vs):
        return [self.rv(st, v) for v in vs]

    # ---- assumed contracts ------------------------------------------------------------------------------------------
    def eq_or(self, st, vs, i):
        return vs[i] if len(vs) > i else self.functor("==")

    def a_equal(self, st, vs, e):
        vs = self.rvs(st, vs)
        b1, e1, b2 = vs[:3]
        n1 = self.range_n(st, b1, e1)
        if len(vs) > 3 and isinstance(vs[3], (ItV, PtrV)):
            n2 = self.range_n(st, b2, vs[3])
            p = self.eq_or(st, vs, 4)
            q = z3.And(n1 == n2, self.forall(z3.IntVal(0), n1, lambda k: self.pcall(st, p, [self.at(st, b1, k), self.at(st, b2, k)])))
        else:
            p = self.eq_or(st, vs, 3)
            i2 = self.it(b2)
            c2 = self.length(self.load(st, i2.cont))
            self.oblige(st, "second-range-long-enough", n1 <= (i2.idx if i2.rev else c2 - i2.idx), "pre")
            q = self.forall(z3.IntVal(0), n1, lambda k: self.pcall(st, p, [self.at(st, b1, k), self.at(st, b2, k)]))
        r = z3.Bool(fresh_name("equal"))
        st.assume(r == q)
        yield st, r

    def matchat(self, st, b1, i, b2, n2, p):
        """the whole right range matches the left one at offset i"""
        x, y = self.it(b1), self.it(b2)
        a1, a2 = self.load(st, x.cont).arr, self.load(st, y.cont).arr
        pf = lambda u, v: self.pcall(st, p, [u, v])
        n = self.pkey("rel", pf, a1.sort().range(), a2.sort().range())
        k = ("match", n, x.rev, y.rev)
        if k not in self.fold:
            f = z3.Function("MATCH%d%s%s" % (n, "r" if x.rev else "", "r" if y.rev else ""), a1.sort(), INT, a2.sort(), INT, INT, z3.BoolSort())

            def unfold(l, o, r, m, cnt):
                j = z3.Int(fresh_name("j"))
                el = z3.Select(l, o - 1 - j if x.rev else o + j)
                er = z3.Select(r, m - 1 - j if y.rev else m + j)
                w = z3.Int(fresh_name("w"))
                el2 = z3.Select(l, o - 1 - w if x.rev else o + w)
                er2 = z3.Select(r, m - 1 - w if y.rev else m + w)
                return [z3.Implies(f(l, o, r, m, cnt), z3.ForAll([j], z3.Implies(z3.And(0 <= j, j < cnt), pf(el, er)))),
                        z3.Implies(z3.Not(f(l, o, r, m, cnt)), z3.And(0 <= w, w < cnt, z3.Not(pf(el2, er2))))]
            self.specs.append(solve.RecSpec("MATCH%d" % n, f, unfold))
            self.fold[k] = f
        pos = z3.simplify(x.idx - i if x.rev else x.idx + i)
        return self.fold[k](a1, pos, a2, y.idx, n2)

    def a_search(self, st, vs, e, last=False):
        vs = self.rvs(st, vs)
        b1, e1, b2, e2 = vs[:4]
        p = self.eq_or(st, vs, 4)
        n1, n2 = self.range_n(st, b1, e1), self.range_n(st, b2, e2)
        r = z3.Int(fresh_name("found"))
        hit = z3.Bool(fresh_name("hit"))
        st.assume(z3.And(0 <= r, r <= n1))
        st.assume(z3.Implies(hit, z3.And(r + n2 <= n1, self.matchat(st, b1, r, b2, n2, p))))
        st.assume(z3.Implies(z3.Not(hit), r == n1))
        if last:
            st.assume(z3.Implies(n2 == 0, z3.Not(hit)))
            other = lambda k: z3.Implies(z3.And(k + n2 <= n1, n2 > 0, z3.Or(z3.Not(hit), k > r)), z3.Not(self.matchat(st, b1, k, b2, n2, p)))
        else:
            st.assume(z3.Implies(n2 == 0, z3.And(hit, r == 0)))
            other = lambda k: z3.Implies(z3.And(k + n2 <= n1, z3.Or(z3.Not(hit), k < r)), z3.Not(self.matchat(st, b1, k, b2, n2, p)))
        st.assume(self.forall(z3.IntVal(0), n1 + 1, other))
        it = self.it(b1)
        yield st, self.like(st, b1, it.idx - r if it.rev else it.idx + r)

    def a_find_end(self, st, vs, e):
        yield from self.a_search(st, vs, e, True)

    def a_find(self, st, vs, e):
        vs = self.rvs(st, vs)
        yield st, self.first(st, vs[0], vs[1], lambda x: self.boolv(self.eqv(st, x, vs[2], None)))

    def a_find_if(self, st, vs, e):
        vs = self.rvs(st, vs)
        yield st, self.first(st, vs[0], vs[1], lambda x: self.pcall(st, vs[2], [x]))

    def a_find_if_not(self, st, vs, e):
        vs = self.rvs(st, vs)
        yield st, self.first(st, vs[0], vs[1], lambda x: z3.Not(self.pcall(st, vs[2], [x])))

    def quantified(self, st, vs, every, want):
        vs = self.rvs(st, vs)
        n = self.range_n(st, vs[0], vs[1])
        r = z3.Bool(fresh_name("q"))
        q = self.forall(z3.IntVal(0), n, lambda k: self.pcall(st, vs[2], [self.at(st, vs[0], k)]) == every)
        st.assume(r == (q if want else z3.Not(q)))
        return r

    def a_any_of(self, st, vs, e):
        yield st, self.quantified(st, vs, False, False)

    def a_none_of(self, st, vs, e):
        yield st, self.quantified(st, vs, False, True)

    def a_all_of(self, st, vs, e):
        yield st, self.quantified(st, vs, True, True)

    def fwd(self, it):
        it = self.it(it)
        if it.rev:
            raise Unsupported("fold over a reversed range")
        return it

    def a_count_if(self, st, vs, e):
        vs = self.rvs(st, vs)
        b, en = self.fwd(vs[0]), self.fwd(vs[1])
        self.range_n(st, b, en)
        yield st, self.cnt("p", lambda x: self.pcall(st, vs[2], [x]), self.load(st, b.cont).arr, b.idx, en.idx)

    def a_count(self, st, vs, e):
        vs = self.rvs(st, vs)
        b, en = self.fwd(vs[0]), self.fwd(vs[1])
        self.range_n(st, b, en)
        yield st, self.cnt("p", lambda x: self.boolv(self.eqv(st, x, vs[2], None)), self.load(st, b.cont).arr, b.idx, en.idx)

    def a_accumulate(self, st, vs, e):
        vs = self.rvs(st, vs)
        b, en = self.fwd(vs[0]), self.fwd(vs[1])
        self.range_n(st, b, en)
        if len(vs) > 3:
            g = lambda a, x: self.pcall(st, vs[3], [a, x], rt=None, sort=a.sort())
        else:
            g = lambda a, x: self.uf("op+:" + a.sort().name(), a.sort(), x.sort(), a.sort())(a, x)
        yield st, self.accum(g, self.load(st, b.cont).arr, b.idx, vs[2], en.idx)

    def extreme(self, st, vs, lt):
        """first position whose element no other one precedes (lt(x, y): x before y in the sense asked for)"""
        b, en = self.it(vs[0]), self.it(vs[1])
        n = self.range_n(st, vs[0], vs[1])
        r = z3.Int(fresh_name("ext"))
        st.assume(z3.If(n == 0, r == 0, z3.And(0 <= r, r < n)))
        st.assume(self.forall(z3.IntVal(0), n, lambda k: z3.Not(lt(self.at(st, b, k), self.at(st, b, r)))))
        st.assume(self.forall(z3.IntVal(0), r, lambda k: lt(self.at(st, b, r), self.at(st, b, k))))
        return self.like(st, vs[0], b.idx - r if b.rev else b.idx + r)

    def lessf(self, st, vs, i):
        if len(vs) > i:
            return lambda x, y: self.pcall(st, vs[i], [x, y])
        return lambda x, y: self.ltv(st, x, y, parse_type("long"))

    def a_min_element(self, st, vs, e):
        vs = self.rvs(st, vs)
        yield st, self.extreme(st, vs, self.lessf(st, vs, 2))

    def a_max_element(self, st, vs, e):
        vs = self.rvs(st, vs)
        f = self.lessf(st, vs, 2)
        yield st, self.extreme(st, vs, lambda x, y: f(y, x))

    # modifying algorithms: the container's array is replaced
    def set_arr(self, st, cont, arr, n=None):
        v = self.cont(st, cont)
        self.store(st, cont, ArrV(arr, v.n if n is None else n, v.et))

    def a_remove_if(self, st, vs, e):
        vs = self.rvs(st, vs)
        b, en = self.fwd(vs[0]), self.fwd(vs[1])
        self.range_n(st, b, en)
        a = self.cont(st, b.cont).arr
        keep = lambda x: z3.Not(self.pcall(st, vs[2], [x]))
        out = self.filtered(st, keep, a, b.idx, en.idx)
        m = z3.simplify(b.idx + self.cnt("p", keep, a, b.idx, en.idx))
        self.set_arr(st, b.cont, out)
        yield st, self.like(st, vs[0], m)

    def filtered(self, st, keep, a, lo, hi):
        """fresh array: the kept elements of a[lo, hi) moved to the front of that range, the rest of the range arbitrary"""
        out = z3.Const(fresh_name("filtered"), a.sort())
        st.assume(self.is_filtered(keep, a, lo, hi, out, lo))
        j = z3.Int(fresh_name("j"))
        st.assume(z3.ForAll([j], z3.Implies(z3.Or(j < lo, j >= hi), z3.Select(out, j) == z3.Select(a, j))))
        return out

    def is_filtered(self, keep, a, lo, hi, out, olo):
        k = z3.Int(fresh_name("k"))
        c = self.cnt("p", keep, a, lo, k)
        return z3.ForAll([k], z3.Implies(z3.And(lo <= k, k < hi, keep(z3.Select(a, k))),
                                         z3.Select(out, olo + c) == z3.Select(a, k)), patterns=[z3.Select(a, k)])

    def a_copy_if(self, st, vs, e):
        vs = self.rvs(st, vs)
        b, en, o = self.fwd(vs[0]), self.fwd(vs[1]), vs[2]
        self.range_n(st, b, en)
        a = self.cont(st, b.cont).arr
        keep = lambda x: self.pcall(st, vs[3], [x])
        cn = self.cnt("p", keep, a, b.idx, en.idx)
        if not (isinstance(o, Obj) and o.tname == "inserter"):
            raise Unsupported("copy_if into a raw iterator")
        d = self.cell(st, o.attr["cont"])
        dv = self.cont(st, d)
        p = dv.n if o.attr["it"] is None else self.it(o.attr["it"]).idx
        if not self.entails(st, p == dv.n):
            raise Unsupported("copy_if not at the end")
        out = z3.Const(fresh_name("copied"), dv.arr.sort())
        st.assume(self.is_filtered(keep, a, b.idx, en.idx, out, dv.n))
        st.assume(self.forall(z3.IntVal(0), dv.n, lambda k: z3.Select(out, k) == z3.Select(dv.arr, k)))
        self.set_arr(st, d, out, dv.n + cn)
        yield st, o

    def a_transform(self, st, vs, e):
        vs = self.rvs(st, vs)
        if len(vs) != 4:
            raise Unsupported("binary transform")
        b, o, f = vs[0], vs[2], vs[3]
        n = self.range_n(st, vs[0], vs[1])
        if isinstance(o, Obj) and o.tname == "inserter":
            d = self.cell(st, o.attr["cont"])
            dv = self.load(st, d)
            if isinstance(dv, Obj) and dv.tname == "set":
                self.set_insert_all(st, d, dv, n, lambda k: self.fcall(st, f, self.at(st, b, k), dv.attr["arr"].sort().domain()))
                yield st, o
                return
            dv = self.cont(st, d)
            p = dv.n if o.attr["it"] is None else self.it(o.attr["it"]).idx
            if o.attr["it"] is not None and not self.it(o.attr["it"]).cont.same(d):
                raise Unsupported("insert position of another container")
            src = self.it(b).cont
            self.oblige(st, "source-and-destination-distinct", z3.BoolVal(not src.same(d)), "pre")
            self.oblige(st, "valid-insert-position", z3.And(0 <= p, p <= dv.n), "pre")
            es = dv.arr.sort().range()
            out = z3.Const(fresh_name("mapped"), dv.arr.sort())
            j = z3.Int(fresh_name("j"))
            st.assume(self.forall(z3.IntVal(0), p, lambda k: z3.Select(out, k) == z3.Select(dv.arr, k)))
            st.assume(self.forall(p, p + n, lambda k: z3.Select(out, k) == self.fcall(st, f, self.at(st, b, k - p), es)))
            st.assume(self.forall(p + n, dv.n + n, lambda k: z3.Select(out, k) == z3.Select(dv.arr, k - n)))
            self.set_arr(st, d, out, z3.simplify(dv.n + n))
            yield st, o
            return
        o = self.fwd(o)
        dv = self.cont(st, o.cont)
        es = dv.arr.sort().range()
        self.oblige(st, "output-range-long-enough", n <= dv.n - o.idx, "pre")
        out = z3.Const(fresh_name("mapped"), dv.arr.sort())
        k = z3.Int(fresh_name("k"))
        st.assume(z3.ForAll([k], z3.Select(out, k) == z3.If(z3.And(o.idx <= k, k < o.idx + n), self.fcall(st, f, self.at(st, b, k - o.idx), es), z3.Select(dv.arr, k))))
        self.set_arr(st, o.cont, out)
        yield st, self.like(st, vs[2], o.idx + n)

    def fcall(self, st, f, x, es):
        return self.pcall(st, f, [x], rt=T("rec", "?"), sort=es)

    def set_insert_all(self, st, d, dv, n, g):
        new = z3.Const(fresh_name("set"), dv.attr["arr"].sort())
        y = z3.Const(fresh_name("y"), dv.attr["arr"].sort().domain())
        k = z3.Int(fresh_name("k"))
        st.assume(z3.ForAll([y], z3.Select(new, y) == z3.Or(z3.Select(dv.attr["arr"], y), z3.Exists([k], z3.And(0 <= k, k < n, g(k) == y)))))
        self.store(st, d, dv.with_(arr=new))

    def a_for_each(self, st, vs, e):
        vs = self.rvs(st, vs)
        b, en = self.it(vs[0]), self.it(vs[1])
        self.range_n(st, b, en)
        st.ghost["calls"] = st.ghost.get("calls", ()) + (("for_each", b, en, vs[2]),)
        yield st, vs[2]

    def a_sort(self, st, vs, e, name="sort"):
        vs = self.rvs(st, vs)
        b, en = self.fwd(vs[0]), self.fwd(vs[1])
        self.range_n(st, b, en)
        v = self.cont(st, b.cont)
        lt = self.lessf(st, vs, 2)
        k = self.pkey("lt", lt, v.arr.sort().range(), v.arr.sort().range())
        out = z3.Const(fresh_name("sorted"), v.arr.sort())
        st.assume(self.rel("permutation", v.arr, out, b.idx, en.idx))
        st.assume(self.rel("ordered%d" % k, out, b.idx, en.idx))
        self.set_arr(st, b.cont, out)
        yield st, VOID

    def a_stable_sort(self, st, vs, e):
        yield from self.a_sort(st, vs, e)

    def a_reverse(self, st, vs, e):
        vs = self.rvs(st, vs)
        b, en = self.fwd(vs[0]), self.fwd(vs[1])
        self.range_n(st, b, en)
        v = self.cont(st, b.cont)
        out = z3.Const(fresh_name("reversed"), v.arr.sort())
        k = z3.Int(fresh_name("k"))
        st.assume(z3.ForAll([k], z3.Select(out, k) == z3.Select(v.arr, z3.If(z3.And(b.idx <= k, k < en.idx), b.idx + en.idx - 1 - k, k))))
        self.set_arr(st, b.cont, out)
        yield st, VOID

    def m_erase(self, ex, st, o, vs, e, ot):
        vs = self.rvs(st, vs)
        c = self.cell(st, o)
        v = self.cont(st, c)
        b = self.it(vs[0])
        if len(vs) == 1:
            lo, hi = b.idx, b.idx + 1
        else:
            en = self.it(vs[1])
            if not en.cont.same(c):
                raise Unsupported("erase")
            lo, hi = b.idx, en.idx
        self.oblige(st, "valid-range-passed-to-erase", z3.And(0 <= lo, lo <= hi, hi <= v.n), "pre")
        out = z3.Const(fresh_name("erased"), v.arr.sort())
        k = z3.Int(fresh_name("k"))
        if self.entails(st, hi == v.n):
            out = v.arr
        else:
            st.assume(z3.ForAll([k], z3.Select(out, k) == z3.Select(v.arr, z3.If(k < lo, k, k + (hi - lo)))))
        self.store(st, c, ArrV(out, z3.simplify(v.n - (hi - lo)), v.et))
        yield st, ItV(c, lo)

    def m_push(self, ex, st, o, vs, e, ot):
        c = self.cell(st, o)
        v = self.cont(st, c)
        x = self.unwrap(self.rv(st, vs[0]))
        self.store(st, c, ArrV(z3.Store(v.arr, v.n, x), z3.simplify(v.n + 1), v.et))
        yield st, c.at(v.n)

    def c_seq(self, ex, st, t, vs, e):
        vs = [v for v in vs if not (isinstance(v, Obj) and v.tname in ("defaultarg", "allocator"))]
        es = self.sort_of(t.args[0])
        if not vs:
            yield st, ArrV(z3.Const("empty:" + repr_type(t), z3.ArraySort(INT, es)), z3.IntVal(0), t.args[0])
            return
        vals = self.rvs(st, vs)
        if len(vals) == 1 and isinstance(vals[0], ArrV):
            yield st, vals[0]
            return
        if len(vals) == 2 and isinstance(vals[0], PtrV) and z3.is_int(vals[1]):
            b = self.it(vals[0])
            v = self.cont(st, b.cont)
            self.oblige(st, "valid-range-passed-to-constructor", z3.And(0 <= vals[1], b.idx + vals[1] <= v.n), "pre")
            n, src = vals[1], vals[0]
        elif len(vals) == 2 and isinstance(vals[0], (ItV, PtrV)) and isinstance(vals[1], (ItV, PtrV)):
            n, src = self.range_n(st, vals[0], vals[1]), vals[0]
        else:
            raise Unsupported("sequence constructor")
        out = z3.Const(fresh_name("built"), z3.ArraySort(INT, es))
        st.assume(self.forall(z3.IntVal(0), n, lambda k: z3.Select(out, k) == self.at(st, src, k)))
        yield st, ArrV(out, z3.simplify(n), t.args[0])

    def c_set(self, ex, st, t, vs, e):
        vs = [v for v in vs if not (isinstance(v, Obj) and v.tname in ("defaultarg", "allocator"))]
        es = self.sort_of(t.args[0])
        if vs:
            v = self.rv(st, vs[0])
            if isinstance(v, Obj) and v.tname == "set":
                yield st, v
                return
            raise Unsupported("set constructor")
        yield st, Obj("set", arr=z3.K(es, z3.BoolVal(False)))

    def default_value(self, st, t):
        if t.kind == "rec" and t.name in SEQS:
            for s, v in self.c_seq(self, st, t, [], None):
                return v
        if t.kind == "rec" and t.name in self.ctors:
            for s, v in self.ctors[t.name](self, st, t, [], None):
                return v
        return Ex.default_value(self, st, t)

    def ev_InitListExpr(self, st, e):
        t = type_of(e)
        if t.kind == "rec" and t.name in SEQS + SETS:
            inner = self.inner(e)
            for s, vs in self.evs(st, inner):
                if s.thrown:
                    yield s, None
                    continue
                yield from self.ctors[t.name](self, s, t, vs, e)
            return
        yield from Ex.ev_InitListExpr(self, st, e)

    def havoc_value(self, st, old, new, name):
        ref = old if old is not UNINIT else new
        if isinstance(ref, ArrV):
            return ArrV(z3.Const(fresh_name("h_arr"), ref.arr.sort()), z3.Const(fresh_name("h_n"), INT), ref.et)
        if isinstance(ref, PtrV) and isinstance(new, PtrV):
            # a pointer to an element: base cell plus position
            a, b = ref, new
            base = a.base if a.base is not None else b.base
            if a.base is not None and b.base is not None and not a.base.same(b.base):
                raise Unsupported("pointer changes object in loop")
        return Ex.havoc_value(self, st, old, new, name)


def same_arr(a, b):
    return isinstance(a, ArrV) and isinstance(b, ArrV) and z3.eq(a.arr, b.arr) and z3.eq(z3.simplify(a.n), z3.simplify(b.n))
