"""The verification-condition generator: path-splitting symbolic execution of Clang AST with contracts."""
import time
import z3
from .ast import T, type_of, qual_of, parse_type, body_of, params_of, ExtractionError
from .sym import *
from . import solve

INT64 = T("int", "unsigned long", w=64)
LL = T("int", "long long", w=64, signed=True)
I32 = T("int", "int", w=32, signed=True)
BOOL = T("bool", "bool", w=1)

SORTS = {}


def opaque_sort(name):
    if name not in SORTS:
        SORTS[name] = z3.DeclareSort(name)
    return SORTS[name]


TRANSPARENT = {"ExprWithCleanups", "ParenExpr", "CXXBindTemporaryExpr", "ConstantExpr", "SubstNonTypeTemplateParmExpr",
               "CXXDefaultInitExpr", "FullExpr", "CXXStdInitializerListExpr"}
STRING_RECS = {"std::basic_string", "std::__cxx11::basic_string"}
SEQ_RECS = STRING_RECS | {"std::vector", "std::deque", "std::list", "std::__cxx11::list", "std::basic_string_view"}
ITER_RECS = {"__gnu_cxx::__normal_iterator", "std::_List_iterator", "std::_List_const_iterator",
             "std::_Deque_iterator", "std::reverse_iterator", "std::move_iterator"}


LIVE = []                                # every generator of this process (what it decided counts even if it stops early)


class Ex:
    MAXPATHS = 20000

    def __init__(self, ast, mode="int", contract=None, budget=300.0):
        LIVE.append(self)
        self.ast = ast
        self.bv = mode == "bv"
        self.contract = contract
        self.obligations = []
        self.inconclusive = []
        self.recording = True
        self.discover = 0
        self.specs = []              # recursive spec functions (unfolded automatically)
        self.axioms = []             # global ground axioms
        self.calls_inlined = set()
        self.calls_contract = set()
        self.std_used = set()
        self.assumed = set()
        self.deadline = time.time() + budget
        self.npaths = 0
        self.depth = 0
        self.stats = solve.Stats()
        self.loops = []              # report: loop -> invariants kept
        self.unrefuted = []
        self.methods = {}
        self.funcs = {}
        self.ctors = {}
        self.dtors = {}
        self.hooks = {}              # pluto function name -> contract handler
        self.fn_stack = []
        self.ufs = {}
        from . import stdlib
        stdlib.install(self)

    # ------------------------------------------------------------------------------------------------ utilities ----
    def check_budget(self):
        if time.time() > self.deadline:
            raise Budget("time budget exhausted")

    def uf(self, name, *sorts):
        k = (name,) + tuple(str(s) for s in sorts)
        if k not in self.ufs:
            self.ufs[k] = z3.Function(name, *sorts)
        return self.ufs[k]

    def sort_of(self, t):
        if t.kind == "bool":
            return z3.BoolSort()
        if t.kind == "int":
            return z3.BitVecSort(t.w) if self.bv else z3.IntSort()
        if t.kind == "rec":
            if t.name in SEQ_RECS and t.args:
                return z3.SeqSort(self.sort_of(t.args[0]))
            if t.name in self.ENUMS:
                return z3.BitVecSort(self.ENUMS[t.name].w) if self.bv else z3.IntSort()
            return opaque_sort(repr_type(t))
        if t.kind == "ptr":
            return opaque_sort("ptr")
        raise Unsupported("no sort for type %r" % t)

    ENUMS = {}

    def wrap(self, t, term):
        """Element term -> value."""
        if t.kind == "rec" and t.name in SEQ_RECS and t.args:
            return SeqV(term, t.args[0])
        if t.kind == "rec" and (t.name in ("std::function",) or t.name in self.callables):
            return UFn(term, t.name)
        return term

    callables = set()

    def unwrap(self, v):
        if isinstance(v, SeqV):
            return v.t
        if isinstance(v, UFn):
            return v.term
        if isinstance(v, z3.ExprRef):
            return v
        if isinstance(v, ArrV):
            raise Unsupported("array value used as element")
        raise Unsupported("value %r cannot be an element term" % (v,))

    def num(self, v, t=INT64):
        return z3.BitVecVal(v, t.w) if self.bv else z3.IntVal(v)

    def fresh(self, t, hint="v", st=None):
        """A fresh arbitrary value of a type."""
        if t.kind == "bool":
            return z3.Bool(fresh_name(hint))
        if t.kind == "int" or (t.kind == "rec" and t.name in self.ENUMS):
            tt = t if t.kind == "int" else self.ENUMS[t.name]
            if self.bv:
                return z3.BitVec(fresh_name(hint), tt.w)
            v = z3.Int(fresh_name(hint))
            if st is not None:
                st.assume(self.range_of(v, tt))
            return v
        if t.kind == "rec" and t.name in SEQ_RECS and t.args:
            return SeqV(z3.Const(fresh_name(hint), self.sort_of(t)), t.args[0], t.name)
        if t.kind == "rec":
            if t.name in self.callables or t.name == "std::function":
                return UFn(z3.Const(fresh_name(hint), opaque_sort(repr_type(t))), t.name)
            return z3.Const(fresh_name(hint), opaque_sort(repr_type(t)))
        raise Unsupported("fresh value of %r" % t)

    def range_of(self, v, t):
        if t.kind == "bool":
            return z3.BoolVal(True)
        if t.signed:
            return z3.And(v >= -(1 << (t.w - 1)), v <= (1 << (t.w - 1)) - 1)
        return z3.And(v >= 0, v <= (1 << t.w) - 1)

    # solver access ---------------------------------------------------------------------------------------------------
    def feasible(self, st, f=None):
        self.check_budget()
        if f is not None:
            f = z3.simplify(f)
            if z3.is_false(f):
                return False
        pc = st.pc if f is None else st.pc + [f]
        return self.stats.feasible(self.axioms + pc)

    def entails(self, st, f, timeout=1000):
        self.check_budget()
        f = z3.simplify(f)
        if z3.is_true(f):
            return True
        if z3.is_false(f):
            return False
        return self.stats.entails(self.axioms + st.pc, f, timeout)

    def oblige(self, st, name, f, kind="post", timeout=10000):
        """Records (and tries to discharge) an obligation; afterwards it may be assumed on this path."""
        if not self.recording:
            st.assume(f)
            return True
        self.check_budget()
        full = "/".join(([self.contract.name] if self.contract else []) + [name])
        status, model, secs, backend = solve.prove(self, st.pc, f, timeout)
        self.obligations.append(Obligation(full, status, secs, model, backend, kind))
        if status != "valid":
            self.unrefuted.append((full, status, model, st.trace))
            if self.contract is not None and hasattr(self.contract, "on_refuted") and model is not None:
                self.contract.on_refuted(self, st, name, model)
        st.assume(f)
        return status == "valid"

    # memory ----------------------------------------------------------------------------------------------------------
    def load(self, st, lv):
        if not isinstance(lv, LV):
            return lv
        if lv.cell not in st.mem:
            raise Unsupported("load from dead cell %s" % lv.cell)
        v = st.mem[lv.cell]
        for p in lv.path:
            if isinstance(p, str):
                if isinstance(v, SV):
                    if p not in v.fields:
                        raise Unsupported("no field %s" % p)
                    v = v.fields[p]
                elif isinstance(v, Obj) and p in v.attr:
                    v = v.attr[p]
                else:
                    raise Unsupported("field %s of %r" % (p, v))
            else:
                v = self.elem(st, v, p[1])
        if v is UNINIT:
            self.oblige(st, "no-uninitialised-read", z3.BoolVal(False), "safety")
            raise Unsupported("read of an uninitialised variable")
        if v is DEAD:
            self.oblige(st, "no-use-of-a-destroyed-temporary", z3.BoolVal(False), "safety")
            raise Unsupported("use of a destroyed temporary")
        return v

    def store(self, st, lv, val):
        if not isinstance(lv, LV):
            raise Unsupported("store to non-lvalue")
        st.mem[lv.cell] = self._upd(st, st.mem.get(lv.cell), lv.path, val)
        h = self.hooks.get("on_store")
        if h:
            h(self, st, lv, val)

    def _upd(self, st, v, path, val):
        if not path:
            return val
        p = path[0]
        if isinstance(p, str):
            if isinstance(v, SV):
                return v.with_(p, self._upd(st, v.fields.get(p), path[1:], val))
            if isinstance(v, Obj):
                return v.with_(**{p: self._upd(st, v.attr.get(p), path[1:], val)})
            raise Unsupported("store to field of %r" % (v,))
        i = p[1]
        old = self.elem(st, v, i)
        nv = self._upd(st, old, path[1:], val)
        if isinstance(v, SeqV):
            n = z3.Length(v.t)
            t = z3.Concat(z3.SubSeq(v.t, 0, i), z3.Unit(self.unwrap(nv)), z3.SubSeq(v.t, i + 1, n - i - 1))
            return SeqV(t, v.et, v.kind)
        raise Unsupported("store to element of %r" % (v,))

    def elem(self, st, v, i):
        if isinstance(v, SeqV):
            if self.bv and not z3.is_int(i):
                i = z3.BV2Int(i)
            x = v.t[i]
            if v.et.kind == "int" and not self.bv:
                st.assume(self.range_of(x, v.et))
            return self.wrap(v.et, x)
        if isinstance(v, ArrV):
            return self.wrap(v.et, z3.Select(v.arr, i))
        if isinstance(v, SV) and v.name == "array":
            j = z3.simplify(i)
            if (z3.is_int_value(j) or z3.is_bv_value(j)) and j.as_long() in v.fields:
                return v.fields[j.as_long()]
            keys = sorted(k for k in v.fields)
            r = v.fields[keys[-1]]
            for k in reversed(keys[:-1]):
                r = z3.If(i == k, v.fields[k], r)
            return r
        raise Unsupported("element of %r" % (v,))

    def length(self, v):
        if isinstance(v, SeqV):
            return z3.Int2BV(z3.Length(v.t), 64) if self.bv else z3.Length(v.t)
        if isinstance(v, ArrV):
            return v.n
        if isinstance(v, SV) and v.name == "array":
            return self.num(len(v.fields))
        raise Unsupported("length of %r" % (v,))

    def in_bounds(self, st, v, i, what="index-in-bounds"):
        n = self.length(v)
        f = z3.ULT(i, n) if self.bv else z3.And(0 <= i, i < n)
        self.oblige(st, what, f, "safety")

    def rv(self, st, x):
        """lvalue-to-rvalue if needed"""
        return self.load(st, x) if isinstance(x, LV) else x

    # arithmetic ------------------------------------------------------------------------------------------------------
    def boolv(self, v):
        if isinstance(v, bool):
            return z3.BoolVal(v)
        if z3.is_bool(v):
            return v
        if isinstance(v, PtrV):
            return z3.Not(v.null)
        if z3.is_bv(v) or z3.is_int(v):
            return v != 0
        raise Unsupported("not a boolean: %r" % (v,))

    def cast_int(self, st, v, ft, tt):
        if ft.kind == "rec" and ft.name in self.ENUMS:
            ft = self.ENUMS[ft.name]
        if tt.kind == "rec" and tt.name in self.ENUMS:
            tt = self.ENUMS[tt.name]
        if tt.kind == "bool":
            return self.boolv(v)
        if z3.is_bool(v):
            return z3.If(v, self.num(1, tt), self.num(0, tt))
        if tt.kind != "int" or ft.kind not in ("int", "bool"):
            raise Unsupported("integral cast %r -> %r" % (ft, tt))
        if self.bv:
            if not z3.is_bv(v):
                raise Unsupported("bv expected")
            w = v.size()
            if tt.w > w:
                return z3.SignExt(tt.w - w, v) if ft.signed else z3.ZeroExt(tt.w - w, v)
            if tt.w < w:
                return z3.Extract(tt.w - 1, 0, v)
            return v
        if z3.is_int_value(v):
            x = v.as_long() % (1 << tt.w)
            if tt.signed and x >= 1 << (tt.w - 1):
                x -= 1 << tt.w
            return z3.IntVal(x)
        if (tt.signed == ft.signed and tt.w >= ft.w) or (tt.signed and tt.w > ft.w):
            return v
        if self.entails(st, self.range_of(v, tt)):
            return v
        m = v % (1 << tt.w)
        if tt.signed:
            m = z3.If(m >= (1 << (tt.w - 1)), m - (1 << tt.w), m)
        return z3.If(self.range_of(v, tt), v, m)

    def arith(self, st, op, a, b, t, t2=None):
        """a op b where both have been converted to type t (t2: type of the right operand of a shift)."""
        if t.kind == "rec" and t.name in self.ENUMS:
            t = self.ENUMS[t.name]
        if t.kind == "bool" or z3.is_bool(a):
            if op == "==":
                return self.boolv(a) == self.boolv(b)
            if op == "!=":
                return self.boolv(a) != self.boolv(b)
            if op in ("&",):
                return z3.And(a, b)
            if op in ("|",):
                return z3.Or(a, b)
            raise Unsupported("bool arithmetic " + op)
        if self.bv:
            sg = t.signed
            if op == "+":
                r = a + b
            elif op == "-":
                r = a - b
            elif op == "*":
                r = a * b
            elif op == "/":
                self.oblige(st, "no-division-by-zero", b != 0, "safety")
                r = a / b if sg else z3.UDiv(a, b)
            elif op == "%":
                self.oblige(st, "no-division-by-zero", b != 0, "safety")
                r = z3.SRem(a, b) if sg else z3.URem(a, b)
            elif op in ("<<", ">>"):
                b2 = b
                if b2.size() > a.size():
                    self.oblige(st, "shift-in-range", z3.ULT(b2, a.size()), "safety")
                    b2 = z3.Extract(a.size() - 1, 0, b2)
                else:
                    if b2.size() < a.size():
                        b2 = z3.ZeroExt(a.size() - b2.size(), b2)
                    self.oblige(st, "shift-in-range", z3.ULT(b2, a.size()), "safety")
                r = (a << b2) if op == "<<" else ((a >> b2) if sg else z3.LShR(a, b2))
            elif op == "&":
                r = a & b
            elif op == "|":
                r = a | b
            elif op == "^":
                r = a ^ b
            elif op == "==":
                r = a == b
            elif op == "!=":
                r = a != b
            elif op == "<":
                r = a < b if sg else z3.ULT(a, b)
            elif op == "<=":
                r = a <= b if sg else z3.ULE(a, b)
            elif op == ">":
                r = a > b if sg else z3.UGT(a, b)
            elif op == ">=":
                r = a >= b if sg else z3.UGE(a, b)
            else:
                raise Unsupported("operator " + op)
            return z3.simplify(r)
        # mathematical integers with explicit machine ranges
        if op in ("==", "!=", "<", "<=", ">", ">="):
            return {"==": lambda: a == b, "!=": lambda: a != b, "<": lambda: a < b, "<=": lambda: a <= b,
                    ">": lambda: a > b, ">=": lambda: a >= b}[op]()
        if op in ("+", "-", "*"):
            r = z3.simplify(a + b if op == "+" else a - b if op == "-" else a * b)
            if t.signed:
                self.oblige(st, "no-signed-overflow", self.range_of(r, t), "safety")
                return r
            if self.entails(st, self.range_of(r, t)):
                return r
            if op == "+":
                return z3.If(r >= (1 << t.w), r - (1 << t.w), r)
            if op == "-":
                return z3.If(r < 0, r + (1 << t.w), r)
            return r % (1 << t.w)
        if op in ("/", "%"):
            self.oblige(st, "no-division-by-zero", b != 0, "safety")
            if self.entails(st, z3.And(a >= 0, b > 0)):
                return a / b if op == "/" else a % b
            q = z3.If(a >= 0, z3.If(b > 0, a / b, -(a / -b)), z3.If(b > 0, -((-a) / b), (-a) / (-b)))
            return q if op == "/" else a - b * q
        if op in ("<<", ">>", "&", "|", "^"):
            bb = z3.simplify(b)
            if z3.is_int_value(bb):
                k = bb.as_long()
                if op == ">>":
                    return a / (1 << k)
                if op == "<<":
                    return self.arith(st, "*", a, z3.IntVal(1 << k), t)
                if op == "&" and k >= 0 and (k & (k + 1)) == 0:
                    return a % (k + 1)
        raise Unsupported("operator %s in integer mode" % op)

    def eqv(self, st, a, b, t):
        """C++ == on two values of the same (class or scalar) type."""
        a, b = self.rv(st, a), self.rv(st, b)
        if isinstance(a, SeqV) and isinstance(b, SeqV):
            return a.t == b.t
        if isinstance(a, ItV) and isinstance(b, ItV):
            if not a.cont.same(b.cont):
                raise Unsupported("comparing iterators of different containers")
            return a.idx == b.idx
        if isinstance(a, PtrV) or isinstance(b, PtrV):
            return self.ptr_eq(st, a, b)
        if isinstance(a, z3.ExprRef) and isinstance(b, z3.ExprRef):
            s = a.sort()
            if s.kind() == z3.Z3_UNINTERPRETED_SORT:
                return self.uf("op==:" + s.name(), s, b.sort(), z3.BoolSort())(a, b)
            return a == b
        if isinstance(a, Obj) and isinstance(b, Obj) and hasattr(self.contract, "obj_eq"):
            return self.contract.obj_eq(self, st, a, b)
        raise Unsupported("== on %r, %r" % (a, b))

    def ltv(self, st, a, b, t):
        a, b = self.rv(st, a), self.rv(st, b)
        if isinstance(a, ItV) and isinstance(b, ItV):
            return (a.idx > b.idx) if a.rev else (z3.ULT(a.idx, b.idx) if self.bv else a.idx < b.idx)
        if isinstance(a, z3.ExprRef) and isinstance(b, z3.ExprRef):
            s = a.sort()
            if s.kind() == z3.Z3_UNINTERPRETED_SORT:
                return self.uf("op<:" + s.name(), s, b.sort(), z3.BoolSort())(a, b)
            if self.bv:
                return (a < b) if t.signed else z3.ULT(a, b)
            return a < b
        raise Unsupported("< on %r" % (a,))

    def ptr_eq(self, st, a, b):
        if not isinstance(a, PtrV) or not isinstance(b, PtrV):
            raise Unsupported("pointer comparison")
        both = z3.And(a.null, b.null)
        if a.base is None or b.base is None:
            return both
        same = a.base.same(b.base)
        if not same:
            return both
        if a.off is None and b.off is None:
            e = z3.BoolVal(True)
        elif a.off is None or b.off is None:
            raise Unsupported("pointer comparison")
        else:
            e = a.off == b.off
        return z3.Or(both, z3.And(z3.Not(a.null), z3.Not(b.null), e))

    # branching -------------------------------------------------------------------------------------------------------
    def branch(self, st, c):
        """yields (state, truth) for the feasible truth values of c"""
        c = z3.simplify(self.boolv(c))
        if z3.is_true(c):
            yield st, True
            return
        if z3.is_false(c):
            yield st, False
            return
        self.npaths += 1
        if self.npaths > self.MAXPATHS:
            raise Budget("too many paths")
        nc = z3.simplify(z3.Not(c))
        ft = self.feasible(st, c)
        ff = self.feasible(st, nc)
        if ft and ff:
            s2 = st.fork()
            st.assume(c)
            s2.assume(nc)
            yield st, True
            yield s2, False
        elif ft:
            st.assume(c)
            yield st, True
        elif ff:
            st.assume(nc)
            yield st, False
        # neither: the path is dead

    # expressions -----------------------------------------------------------------------------------------------------
    def evs(self, st, nodes):
        """evaluates a list of expressions left to right; yields (st, [values]) (or st.thrown)"""
        if not nodes:
            yield st, []
            return
        for s, v in self.ev(st, nodes[0]):
            if s.thrown:
                yield s, None
                continue
            for s2, vs in self.evs(s, nodes[1:]):
                yield s2, (None if s2.thrown else [v] + vs)

    def ev(self, st, e):
        k = e.get("kind")
        m = getattr(self, "ev_" + k, None)
        if m is None:
            if k in TRANSPARENT:
                inner = [c for c in e.get("inner", ()) if c.get("kind")]
                if k == "ConstantExpr" and "value" in e and type_of(e).kind == "bool":
                    yield st, z3.BoolVal(e["value"] in ("true", "1"))
                    return
                if k == "CXXDefaultInitExpr" and not inner:
                    raise Unsupported("default init without expression")
                yield from self.ev(st, inner[0])
                return
            raise Unsupported("expression " + str(k))
        yield from m(st, e)

    def ev1(self, st, e):
        """evaluate to an rvalue"""
        for s, v in self.ev(st, e):
            yield s, (None if s.thrown else self.rv(s, v))

    def inner(self, e):
        return [c for c in e.get("inner", ()) if c.get("kind")]

    def ev_IntegerLiteral(self, st, e):
        yield st, self.num(int(e["value"]), type_of(e))

    def ev_CharacterLiteral(self, st, e):
        t = type_of(e)
        v = int(e["value"])
        if not self.bv and t.signed and v >= 1 << (t.w - 1):
            v -= 1 << t.w
        yield st, self.num(v, t)

    def ev_CXXBoolLiteralExpr(self, st, e):
        yield st, z3.BoolVal(str(e["value"]).lower() == "true")

    def ev_CXXNullPtrLiteralExpr(self, st, e):
        yield st, PtrV(z3.BoolVal(True))

    def ev_GNUNullExpr(self, st, e):
        yield st, PtrV(z3.BoolVal(True))

    def ev_StringLiteral(self, st, e):
        import ast as pyast
        t = type_of(e)
        et = t.elem if t.kind == "arr" else parse_type("char")
        s = e["value"]
        if not s.startswith('"'):
            s = s[s.index('"'):]
        try:
            txt = pyast.literal_eval("b" + s) if s.isascii() else s[1:-1].encode()
        except Exception:
            raise Unsupported("string literal " + s)
        lv = st.new(SV("array", {i: self.num(c, et) for i, c in enumerate(txt + b"\0")}), "strlit")
        yield st, lv

    def ev_PredefinedExpr(self, st, e):
        yield st, st.new(SV("array", {0: self.num(0, T("int", "char", w=8, signed=True))}), "strlit")

    def ev_SourceLocExpr(self, st, e):
        yield st, z3.Const(fresh_name("srcloc"), opaque_sort("srcloc"))

    def ev_CXXThisExpr(self, st, e):
        if st.this is None:
            raise Unsupported("this outside method")
        yield st, PtrV(z3.BoolVal(False), st.this, None)

    def ev_MaterializeTemporaryExpr(self, st, e):
        for s, v in self.ev(st, self.inner(e)[0]):
            if s.thrown or isinstance(v, LV):
                yield s, v
            else:
                yield s, s.new(v, "tmp")

    def ev_UnaryExprOrTypeTraitExpr(self, st, e):
        if e.get("name") != "sizeof":
            raise Unsupported(e.get("name"))
        at = e.get("argType")
        if at:
            t = parse_type(at.get("desugaredQualType") or at["qualType"])
        else:
            t = type_of(self.inner(e)[0])
        if t.kind == "int":
            n = t.w // 8
        elif t.kind == "bool":
            n = 1
        elif t.kind == "arr" and t.elem.kind == "int":
            n = t.w * t.elem.w // 8
        else:
            raise Unsupported("sizeof %r" % t)
        yield st, self.num(n, type_of(e))

    def ev_ImplicitValueInitExpr(self, st, e):
        yield st, self.default_value(st, type_of(e))

    ev_CXXScalarValueInitExpr = ev_ImplicitValueInitExpr

    def default_value(self, st, t):
        if t.kind == "bool":
            return z3.BoolVal(False)
        if t.kind == "int" or (t.kind == "rec" and t.name in self.ENUMS):
            return self.num(0, t if t.kind == "int" else self.ENUMS[t.name])
        if t.kind in ("ptr", "null"):
            return PtrV(z3.BoolVal(True))
        if t.kind == "rec" and t.name in SEQ_RECS and t.args:
            return SeqV(z3.Empty(self.sort_of(t)), t.args[0], t.name)
        if t.kind == "rec":
            h = self.ctors.get(t.name)
            if h:
                for s, v in h(self, st, t, [], None):
                    return v
            if t.name in self.callables:
                return UFn(z3.Const("default:" + t.name, opaque_sort(repr_type(t))), t.name)
            if not t.args and t.name.startswith("pluto_vp::"):
                return z3.Const("default:" + repr_type(t), opaque_sort(repr_type(t)))
        raise Unsupported("default value of %r" % t)

    # -- declarations references ---------------------------------------------------------------------------------------
    def lookup(self, st, i):
        for f in reversed(st.frames):
            if i in f:
                return f[i]
        return None

    def ev_DeclRefExpr(self, st, e):
        rd = e.get("referencedDecl") or {}
        k, i = rd.get("kind"), rd.get("id")
        if k in ("VarDecl", "ParmVarDecl", "BindingDecl"):
            if i in st.env:
                yield st, st.env[i]
                return
            d = self.ast.decl(i)
            if d is not None and (d.get("constexpr") or d.get("storageClass") == "static" or d.get("inline")):
                # namespace-scope / static constant
                init = self.inner(d)
                if init:
                    for s, v in self.ev(st, init[0]):
                        lv = s.new(self.rv(s, v), "g")
                        yield s, lv
                    return
            h = self.hooks.get("global:" + str(rd.get("name")))
            if h:
                yield st, h(self, st)
                return
            raise Unsupported("unknown variable %s" % rd.get("name"))
        if k in ("FunctionDecl", "CXXMethodDecl"):
            yield st, FnRef(rd)
            return
        if k == "EnumConstantDecl":
            yield st, self.enum_const(rd, type_of(e))
            return
        if k == "NonTypeTemplateParmDecl":
            raise Unsupported("template parameter")
        raise Unsupported("reference to %s %s" % (k, rd.get("name")))

    def enum_const(self, rd, t):
        d = self.ast.decl(rd["id"])
        key = t.name + "::" + rd["name"]
        if d is None:
            # std enumerators: opaque distinct constants by name
            if t.kind == "rec" and t.name not in self.ENUMS:
                return z3.Const("enum:" + key, opaque_sort(repr_type(t)))
            raise Unsupported("enumerator " + key)
        p = self.ast.record_of(rd["id"])
        val = self._enum_value(d)
        return self.num(val, self.ENUMS.get(t.name, t if t.kind == "int" else I32))

    def _enum_value(self, d):
        def find(n):
            if n.get("kind") == "ConstantExpr" and "value" in n:
                return int(n["value"])
            for c in n.get("inner", ()):
                r = find(c)
                if r is not None:
                    return r
            return None
        r = find(d)
        if r is not None:
            return r
        # implicit value: previous sibling + 1
        en = self.ast_enum_parent(d)
        prev = -1
        for c in en.get("inner", ()):
            if c.get("kind") != "EnumConstantDecl":
                continue
            r = find(c)
            prev = r if r is not None else prev + 1
            if c["id"] == d["id"]:
                return prev
        raise Unsupported("enumerator value")

    def ast_enum_parent(self, d):
        if not hasattr(self.ast, "_enumpar"):
            m = {}
            for n in list(self.ast.by_id.values()):
                if n.get("kind") == "EnumDecl":
                    for c in n.get("inner", ()):
                        if c.get("kind") == "EnumConstantDecl":
                            m[c["id"]] = n
            self.ast._enumpar = m
        return self.ast._enumpar[d["id"]]

    def deref(self, st, p, what="pointer"):
        if isinstance(p, PtrV):
            self.oblige(st, "no-null-dereference", z3.Not(p.null), "safety")
            if p.base is None:
                raise Unsupported("dereference of unknown pointer")
            if p.off is None:
                return p.base
            v = self.load(st, p.base)
            self.in_bounds(st, v, p.off, "pointer-read-in-bounds")
            return p.base.at(p.off)
        if isinstance(p, ItV):
            return self.iter_deref(st, p)
        raise Unsupported("dereference of %r" % (p,))

    def iter_deref(self, st, it):
        i = (it.idx - 1) if it.rev else it.idx
        c = self.load(st, it.cont)
        self.in_bounds(st, c, i, "iterator-dereference-in-range")
        return it.cont.at(z3.simplify(i))

    def ev_MemberExpr(self, st, e):
        base = self.inner(e)[0]
        bt = type_of(base)
        if bt.kind == "ptr":
            bt = bt.elem
        for s, b in self.ev(st, base):
            if s.thrown:
                yield s, None
                continue
            if e.get("isArrow"):
                b = self.rv(s, b)
                if isinstance(b, (PtrV, ItV)):
                    obj = self.deref(s, b)
                else:
                    h = self.methods.get(("*", "operator->"))
                    raise Unsupported("arrow on %r" % (b,))
            else:
                obj = b
            mid = e.get("referencedMemberDecl")
            d = self.ast.decl(mid)
            name = e.get("name")
            if qual_of(e).startswith("<bound member"):
                yield s, BoundM(obj, mid, name, bt)
                continue
            if d is not None and d.get("kind") in ("CXXMethodDecl", "CXXConversionDecl"):
                yield s, BoundM(obj, mid, name, bt)
                continue
            if d is not None and d.get("kind") == "VarDecl":      # static data member
                init = self.inner(d)
                if init:
                    for s2, v in self.ev(s, init[0]):
                        yield s2, v
                    continue
            if name == "npos":
                yield s, self.num((1 << 64) - 1)
                continue
            isref = d is not None and d.get("kind") == "FieldDecl" and qual_of(d).rstrip().endswith("&")
            if isinstance(obj, LV):
                lv = obj.f(name)
                if isref:                                          # a reference member stands for what it is bound to
                    v = self.load(s, lv)
                    if isinstance(v, LV):
                        lv = v
                yield s, lv
            elif isinstance(obj, SV):
                yield s, obj.fields[name]
            elif isinstance(obj, Obj):
                yield s, obj.attr[name]
            else:
                raise Unsupported("member %s of %r" % (name, obj))

    # -- casts -----------------------------------------------------------------------------------------------------------
    def cast(self, st, e):
        ck = e.get("castKind")
        sub = self.inner(e)[0]
        if ck in ("NoOp", "ConstructorConversion", "UserDefinedConversion", "DerivedToBase", "UncheckedDerivedToBase",
                  "FunctionToPointerDecay", "BuiltinFnToFnPtr", "LValueBitCast", "BaseToDerived"):
            yield from self.ev(st, sub)
            return
        if ck == "LValueToRValue":
            for s, v in self.ev(st, sub):
                yield s, (None if s.thrown else self.rv(s, v))
            return
        if ck == "ToVoid":
            for s, v in self.ev(st, sub):
                yield s, VOID
            return
        if ck == "ArrayToPointerDecay":
            for s, v in self.ev(st, sub):
                yield s, PtrV(z3.BoolVal(False), v, self.num(0))
            return
        if ck == "NullToPointer":
            for s, v in self.ev(st, sub):
                yield s, PtrV(z3.BoolVal(True))
            return
        ft, tt = type_of(sub), type_of(e)
        if ck in ("IntegralCast", "BooleanToSignedIntegral"):
            for s, v in self.ev1(st, sub):
                yield s, (None if s.thrown else self.cast_int(s, v, ft, tt))
            return
        if ck in ("IntegralToBoolean", "PointerToBoolean"):
            for s, v in self.ev1(st, sub):
                yield s, (None if s.thrown else self.boolv(v))
            return
        if ck == "BitCast":
            yield from self.ev(st, sub)
            return
        raise Unsupported("cast kind " + str(ck))

    ev_ImplicitCastExpr = ev_CXXStaticCastExpr = ev_CStyleCastExpr = ev_CXXFunctionalCastExpr = cast
    ev_CXXConstCastExpr = ev_CXXReinterpretCastExpr = cast

    # -- operators -------------------------------------------------------------------------------------------------------
    def ev_UnaryOperator(self, st, e):
        op = e["opcode"]
        sub = self.inner(e)[0]
        if op == "__extension__":
            yield from self.ev(st, sub)
            return
        if op == "&":
            for s, v in self.ev(st, sub):
                if s.thrown:
                    yield s, None
                    continue
                if isinstance(v, FnRef):
                    yield s, v
                    continue
                if isinstance(v, BoundM):
                    yield s, v
                    continue
                if not isinstance(v, LV):
                    raise Unsupported("address of %r" % (v,))
                if v.path and not isinstance(v.path[-1], str):
                    yield s, PtrV(z3.BoolVal(False), LV(v.cell, v.path[:-1]), v.path[-1][1])
                else:
                    yield s, PtrV(z3.BoolVal(False), v, None)
            return
        if op == "*":
            for s, v in self.ev1(st, sub):
                if s.thrown:
                    yield s, None
                    continue
                if isinstance(v, FnRef):
                    yield s, v
                    continue
                yield s, self.deref(s, v)
            return
        if op in ("++", "--"):
            post = e.get("isPostfix")
            t = type_of(sub)
            for s, lv in self.ev(st, sub):
                if s.thrown:
                    yield s, None
                    continue
                old = self.load(s, lv)
                if isinstance(old, PtrV):
                    if old.off is None:
                        raise Unsupported("arithmetic on object pointer")
                    nv = PtrV(old.null, old.base, z3.simplify(old.off + (1 if op == "++" else -1)))
                    self.check_ptr(s, nv)
                elif z3.is_bool(old):
                    raise Unsupported("++ on bool")
                else:
                    tt = t if t.kind == "int" else self.ENUMS.get(t.name, t)
                    nv = self.arith(s, "+" if op == "++" else "-", old, self.num(1, tt), tt)
                self.store(s, lv, nv)
                yield s, (old if post else lv)
            return
        if op == "!":
            for s, v in self.ev1(st, sub):
                yield s, (None if s.thrown else z3.simplify(z3.Not(self.boolv(v))))
            return
        if op in ("-", "+", "~"):
            t = type_of(e)
            for s, v in self.ev1(st, sub):
                if s.thrown:
                    yield s, None
                elif op == "+":
                    yield s, v
                elif op == "-":
                    if isinstance(v, z3.ExprRef) and v.sort().kind() == z3.Z3_UNINTERPRETED_SORT:
                        yield s, self.uf("op-:" + v.sort().name(), v.sort(), v.sort())(v)
                    elif self.bv:
                        yield s, -v
                    else:
                        yield s, self.arith(s, "-", z3.IntVal(0), v, t)
                else:
                    if self.bv:
                        yield s, ~v
                    else:
                        r = -v - 1
                        yield s, (r if t.signed else r + (1 << t.w))
            return
        raise Unsupported("unary " + op)

    def ptr_add(self, st, p, n, nt):
        if p.off is None:
            raise Unsupported("arithmetic on object pointer")
        if self.bv and n.size() != 64:
            n = z3.SignExt(64 - n.size(), n) if nt.signed else z3.ZeroExt(64 - n.size(), n)
        r = PtrV(p.null, p.base, z3.simplify(p.off + n))
        self.check_ptr(st, r)
        return r

    def check_ptr(self, st, p):
        """pointer arithmetic stays inside the array (overridden where contracts demand it)"""

    def ev_BinaryOperator(self, st, e):
        op = e["opcode"]
        l, r = self.inner(e)
        if op in ("&&", "||"):
            for s, v in self.ev1(st, l):
                if s.thrown:
                    yield s, None
                    continue
                for s2, b in self.branch(s, v):
                    if b == (op == "||"):
                        yield s2, z3.BoolVal(b)
                    else:
                        for s3, w in self.ev1(s2, r):
                            yield s3, (None if s3.thrown else self.boolv(w))
            return
        if op == ",":
            for s, _ in self.ev(st, l):
                if s.thrown:
                    yield s, None
                else:
                    yield from self.ev(s, r)
            return
        if op == "=":
            # C++17: right operand is sequenced first
            for s, v in self.ev1(st, r):
                if s.thrown:
                    yield s, None
                    continue
                for s2, lv in self.ev(s, l):
                    if not s2.thrown:
                        self.store(s2, lv, v)
                    yield s2, lv
            return
        lt, rt = type_of(l), type_of(r)
        for s, vs in self.evs(st, [l, r]):
            if s.thrown:
                yield s, None
                continue
            a, b = self.rv(s, vs[0]), self.rv(s, vs[1])
            yield s, self.binop(s, op, a, b, lt, rt, type_of(e))

    def binop(self, s, op, a, b, lt, rt, et):
        if isinstance(a, PtrV) and isinstance(b, PtrV):
            if op == "==":
                return self.ptr_eq(s, a, b)
            if op == "!=":
                return z3.Not(self.ptr_eq(s, a, b))
            if a.base is None or b.base is None or not a.base.same(b.base) or a.off is None or b.off is None:
                raise Unsupported("pointer relation")
            if op == "-":
                return a.off - b.off
            if self.bv:
                return {"<": lambda: z3.ULT(a.off, b.off), "<=": lambda: z3.ULE(a.off, b.off),
                        ">": lambda: z3.UGT(a.off, b.off), ">=": lambda: z3.UGE(a.off, b.off)}[op]()
            return {"<": lambda: a.off < b.off, "<=": lambda: a.off <= b.off,
                    ">": lambda: a.off > b.off, ">=": lambda: a.off >= b.off}[op]()
        if isinstance(a, PtrV) and op in ("+", "-"):
            n = b
            if op == "-":
                n = -b
            return self.ptr_add(s, a, n, rt)
        if isinstance(b, PtrV) and op == "+":
            return self.ptr_add(s, b, a, lt)
        return self.arith(s, op, a, b, lt, rt)

    def ev_CompoundAssignOperator(self, st, e):
        op = e["opcode"][:-1]
        l, r = self.inner(e)
        ct = e.get("computeLHSType")
        ct = parse_type(ct.get("desugaredQualType") or ct["qualType"]) if ct else type_of(l)
        lt, rt = type_of(l), type_of(r)
        for s, v in self.ev1(st, r):
            if s.thrown:
                yield s, None
                continue
            for s2, lv in self.ev(s, l):
                if s2.thrown:
                    yield s2, None
                    continue
                old = self.load(s2, lv)
                if isinstance(old, PtrV):
                    nv = self.ptr_add(s2, old, v if op == "+" else -v, rt)
                else:
                    a = self.cast_int(s2, old, lt, ct)
                    b = v
                    nv = self.cast_int(s2, self.arith(s2, op, a, b, ct, rt), ct, lt)
                self.store(s2, lv, nv)
                yield s2, lv

    def ev_ConditionalOperator(self, st, e):
        c, a, b = self.inner(e)
        for s, v in self.ev1(st, c):
            if s.thrown:
                yield s, None
                continue
            if getattr(self, "merge_cond", False):
                m = self.merged(s, v, a, b)
                if m is not None:
                    yield s, m
                    continue
            for s2, t in self.branch(s, v):
                yield from self.ev(s2, a if t else b)

    def merged(self, st, c, a, b):
        """c ? a : b as one term, when both sides are scalars without effects or obligations"""
        c = z3.simplify(self.boolv(c))
        if z3.is_true(c) or z3.is_false(c):
            return None
        out = []
        n0 = len(self.obligations)
        for x, k in ((a, c), (b, z3.Not(c))):
            s = st.fork()
            n = len(s.pc)
            r = list(self.ev1(s, x))
            if len(r) != 1 or r[0][0].thrown or len(r[0][0].pc) != n or len(self.obligations) != n0:
                del self.obligations[n0:]
                return None
            s1, v = r[0]
            if any(k not in s1.mem or not same_value(s1.mem[k], st.mem[k]) for k in st.mem) or not isinstance(v, z3.ExprRef):
                return None
            out.append(v)
        if out[0].sort() != out[1].sort():
            return None
        return z3.If(c, out[0], out[1])

    def ev_ArraySubscriptExpr(self, st, e):
        a, b = self.inner(e)
        it = type_of(b)
        for s, vs in self.evs(st, [a, b]):
            if s.thrown:
                yield s, None
                continue
            p, i = self.rv(s, vs[0]), self.rv(s, vs[1])
            if not isinstance(p, PtrV):
                raise Unsupported("subscript of %r" % (p,))
            q = self.ptr_add(s, p, i, it)
            yield s, self.deref(s, q)

    def ev_CXXRewrittenBinaryOperator(self, st, e):
        yield from self.ev(st, self.inner(e)[0])

    def ev_CXXNewExpr(self, st, e):
        inner = self.inner(e)
        if e.get("isArray") or len(inner) != 1:
            raise Unsupported("new expression")
        for s, v in self.ev1(st, inner[0]):
            if s.thrown:
                yield s, None
                continue
            yield s, PtrV(z3.BoolVal(False), s.new(self.rv(s, v), "heap"), None)

    def ev_CXXThrowExpr(self, st, e):
        inner = self.inner(e)
        t = repr_type(type_of(inner[0])) if inner else "rethrow"
        st.thrown = t
        yield st, None

    # -- construction ----------------------------------------------------------------------------------------------------
    def ev_InitListExpr(self, st, e):
        t = type_of(e)
        inner = self.inner(e)
        if len(inner) == 1 and (t.ref or e.get("valueCategory") == "lvalue"):
            yield from self.ev(st, inner[0])                # a reference bound through braces
            return
        if t.kind in ("int", "bool", "ptr") or (t.kind == "rec" and t.name in self.ENUMS):
            if not inner:
                yield st, self.default_value(st, t)
            else:
                yield from self.ev1(st, inner[0])
            return
        if t.kind == "arr":
            if "array_filler" in e and not inner:
                inner = []
            for s, vs in self.evs(st, inner):
                if s.thrown:
                    yield s, None
                    continue
                vs = [self.rv(s, v) for v in vs]
                if len(inner) == 1 and isinstance(vs[0], SV) and vs[0].name == "array":
                    yield s, vs[0]
                    continue
                f = {i: v for i, v in enumerate(vs)}
                for i in range(len(vs), t.w):
                    f[i] = self.default_value(s, t.elem)
                yield s, SV("array", f)
            return
        if len(inner) == 1 and t.kind == "rec" and (t.name in SEQ_RECS or t.name in ITER_RECS):
            yield from self.ev1(st, inner[0])
            return
        if len(inner) == 1 and (t.ref or t.name in ("std::ctype", "std::locale")):
            yield from self.ev(st, inner[0])                # a reference bound through braces
            return
        if t.kind == "rec":
            rec = self.find_record(t, qual_of(e))
            if rec is not None:
                fields = [c for c in rec.get("inner", ()) if c.get("kind") == "FieldDecl"]

                def initialiser(x, fd):                     # a member left to its own initialiser
                    if x.get("kind") == "CXXDefaultInitExpr" and not self.inner(x):
                        own = [c for c in self.inner(fd) if c.get("kind") != "FullComment"]
                        return own[0] if own else x
                    return x
                inner = [initialiser(x, fields[i]) if i < len(fields) else x for i, x in enumerate(inner)]
                for s, vs in self.evs(st, inner):
                    if s.thrown:
                        yield s, None
                        continue
                    f = {}
                    for i, fd in enumerate(fields):
                        f[fd["name"]] = self.rv(s, vs[i]) if i < len(vs) and not type_of(fd).ref else (
                            vs[i] if i < len(vs) else self.default_value(s, type_of(fd)))
                    yield s, SV(t.name, f)
                return
            h = self.ctors.get(t.name)
            if h:
                for s, vs in self.evs(st, inner):
                    if s.thrown:
                        yield s, None
                        continue
                    yield from h(self, s, t, vs, e)
                return
            if not inner and (t.name in self.callables or t.name.startswith("pluto_vp::") or t.name.startswith("std::")):
                yield st, self.default_value(st, t)
                return
        raise Unsupported("init list for %r" % t)

    def find_record(self, t, qual):
        name = t.name.split("::")[-1]
        best = None
        for d in self.records().get(name, ()):
            if not d.get("completeDefinition"):
                continue
            if d.get("kind") == "ClassTemplateSpecializationDecl":
                targs = []
                for c in d.get("inner", ()):
                    if c.get("kind") == "TemplateArgument":
                        tt = c.get("type")
                        targs.append(repr(parse_type(tt.get("desugaredQualType") or tt["qualType"])) if tt else
                                     str(c.get("value")))
                if targs != [repr(a) for a in t.args]:
                    continue
                best = d
            elif d.get("kind") == "CXXRecordDecl" and not t.args:
                best = d
        return best

    def records(self):
        if not hasattr(self.ast, "_records"):
            m = {}
            for n in self.ast.by_id.values():
                if n.get("kind") in ("CXXRecordDecl", "ClassTemplateSpecializationDecl") and n.get("name"):
                    m.setdefault(n["name"], []).append(n)
            self.ast._records = m
        return self.ast._records

    def ev_CXXConstructExpr(self, st, e):
        t = type_of(e)
        args = [c for c in self.inner(e) if c.get("kind") != "CXXDefaultArgExpr"]
        yield from self.construct(st, t, args, e)

    ev_CXXTemporaryObjectExpr = ev_CXXConstructExpr

    def construct(self, st, t, args, e):
        if t.kind == "rec":
            h = self.ctors.get(t.name)
            if h:
                for s, vs in self.evs(st, args):
                    if s.thrown:
                        yield s, None
                        continue
                    yield from h(self, s, t, vs, e)
                return
            rec = self.find_record(t, qual_of(e))
            if rec is not None:
                yield from self.construct_record(st, t, rec, args, e)
                return
            if len(args) == 0:
                yield st, self.default_value(st, t)
                return
            if len(args) == 1:
                at = type_of(args[0])
                if at.kind == "rec" and (repr_type(at) == repr_type(t)):
                    yield from self.ev1(st, args[0])       # copy / move
                    return
                if at.kind == "rec" and t.name == "std::function" and True:
                    yield from self.ev1(st, args[0])
                    return
        raise Unsupported("construction of %r from %d args" % (t, len(args)))

    def construct_record(self, st, t, rec, args, e):
        """Runs a user-written constructor of a class whose definition is in the AST."""
        ctype = (e.get("ctorType") or {}).get("qualType") if e is not None else None
        ctor = None
        cands = [c for c in rec.get("inner", ()) if c.get("kind") == "CXXConstructorDecl"]
        for c in rec.get("inner", ()):
            if c.get("kind") == "FunctionTemplateDecl":
                cands += [x for x in c.get("inner", ()) if x.get("kind") == "CXXConstructorDecl"]
        for c in cands:
            if ctype is not None and (c.get("type", {}).get("qualType") == ctype or
                                      c.get("type", {}).get("desugaredQualType") == ctype):
                ctor = c
        name = t.name
        hk = self.hooks.get("ctor:" + name)
        if hk:
            for s, vs in self.evs(st, args):
                if s.thrown:
                    yield s, None
                    continue
                yield from hk(self, s, t, vs, e)
            return
        is_copyish = len(args) == 1 and type_of(args[0]).kind == "rec" and repr_type(type_of(args[0])) == repr_type(t)
        if ctor is None or ctor.get("isImplicit") or ctor.get("explicitlyDefaulted") or (
                body_of(ctor) is None and not any(c.get("kind") == "CXXCtorInitializer" for c in ctor.get("inner", ()))):
            if is_copyish:
                for s, v in self.ev1(st, args[0]):
                    if s.thrown:
                        yield s, None
                    else:
                        yield from self.default_copy(s, t, v)
                return
            if not args and (ctor is None or ctor.get("isImplicit") or ctor.get("explicitlyDefaulted")):
                if name.startswith("pluto_vp::") :
                    yield st, self.default_value(st, t)
                    return
                yield from self.default_fields(st, t, rec)
                return
            if name.startswith("pluto_vp::"):
                for s, vs in self.evs(st, args):
                    if s.thrown:
                        yield s, None
                        continue
                    us = [self.unwrap(self.rv(s, v)) for v in vs]
                    f = self.uf("ctor:" + name, *[u.sort() for u in us], opaque_sort(repr_type(t)))
                    yield s, f(*us)
                return
            raise Unsupported("constructor of %s" % name)
        for s, vs in self.evs(st, args):
            if s.thrown:
                yield s, None
                continue
            yield from self.run_ctor(s, t, rec, ctor, vs)

    def default_copy(self, st, t, v):
        yield st, v

    def default_fields(self, st, t, rec):
        fields = [c for c in rec.get("inner", ()) if c.get("kind") == "FieldDecl"]
        lv = st.new(SV(t.name, {}, t.args), "obj")
        yield from self._init_fields(st, t, fields, {}, lv, 0, True)

    def _init_fields(self, st, t, fields, inits, lv, i, asvalue):
        if i == len(fields):
            if asvalue:
                v = st.mem[lv.cell]
                yield st, v
            else:
                yield st, lv
            return
        fd = fields[i]
        ft = type_of(fd)
        expr = inits.get(fd["id"])
        if expr is None:
            inn = [c for c in self.inner(fd) if c.get("kind") not in ("FullComment",)]
            expr = inn[0] if inn else None
        if expr is None:
            if ft.kind == "rec" and ft.name not in self.ENUMS:
                try:
                    vals = [(st, self.default_value(st, ft))]
                except Unsupported:
                    rec = self.find_record(ft, "")
                    if rec is None:
                        raise
                    vals = self.default_fields(st, ft, rec)
            else:
                vals = [(st, UNINIT)]
        else:
            vals = self.ev(st, expr)
        for s, v in vals:
            if s.thrown:
                yield s, None
                continue
            if not ft.ref:
                v = self.rv(s, v)
            s.mem[lv.cell] = s.mem[lv.cell].with_(fd["name"], v)
            yield from self._init_fields(s, t, fields, inits, lv, i + 1, asvalue)

    def run_ctor(self, st, t, rec, ctor, vs, lv=None):
        fields = [c for c in rec.get("inner", ()) if c.get("kind") == "FieldDecl"]
        inits = {}
        for c in ctor.get("inner", ()):
            if c.get("kind") == "CXXCtorInitializer":
                a = c.get("anyInit") or {}
                if a.get("id"):
                    inn = self.inner(c)
                    if inn and inn[0].get("kind") != "CXXDefaultInitExpr":
                        inits[a["id"]] = inn[0]
                elif "delegatingInit" in c or "baseInit" in c:
                    raise Unsupported("delegating/base initialiser")
        lv = lv or st.new(SV(t.name, {}, t.args), "obj")
        self.bind_frame(st, ctor, vs)
        oldthis = st.this
        st.this = lv
        self.calls_inlined.add(t.name + "::" + t.name.split("::")[-1])
        for s, _ in self._init_fields(st, t, fields, inits, lv, 0, False):
            if s.thrown:
                s.frames.pop()
                s.this = oldthis
                yield s, None
                continue
            b = body_of(ctor)
            outs = self.ex(s, b) if b is not None else [(s, None)]
            for s2, o in outs:
                s2.frames.pop()
                s2.this = oldthis
                if s2.thrown:
                    yield s2, None
                else:
                    yield s2, s2.mem[lv.cell]

    def ev_LambdaExpr(self, st, e):
        inner = self.inner(e)
        rec = next(c for c in inner if c.get("kind") == "CXXRecordDecl")
        caps = {}
        fields = [c for c in rec.get("inner", ()) if c.get("kind") == "FieldDecl"]
        call = None
        for c in rec.get("inner", ()):
            if c.get("kind") in ("CXXMethodDecl", "FunctionTemplateDecl") and c.get("name") == "operator()":
                call = c
        # captured variables are visible by name through the enclosing frame: by-copy captures snapshot the value
        exprs = [c for c in inner if c.get("kind") not in ("CXXRecordDecl", "CompoundStmt")]
        node = {"call": call, "lambda": e, "rec": rec}
        snap = {}
        pend = [(st, {})]
        for fd, ce in zip(fields, exprs):
            nxt = []
            for s, m in pend:
                for s2, v in self.ev(s, ce):
                    m2 = dict(m)
                    rid = self._captured_id(ce)
                    byref = type_of(fd).ref or qual_of(fd).rstrip().endswith("&")
                    if rid is None:
                        if ce.get("kind") == "CXXThisExpr":
                            m2["this"] = v
                        elif ce.get("kind") == "ParenListExpr":
                            pass
                    elif byref:
                        m2[rid] = v
                    else:
                        m2[rid] = s2.new(self.rv(s2, v), "cap")
                    nxt.append((s2, m2))
            pend = nxt
        for s, m in pend:
            yield s, Clo(node, m, s.this if "this" in m or True else None)

    def _captured_id(self, e):
        if e.get("kind") == "DeclRefExpr":
            return (e.get("referencedDecl") or {}).get("id")
        for c in e.get("inner", ()):
            r = self._captured_id(c)
            if r:
                return r
        return None

    def call_closure(self, st, clo, args, argtypes=None):
        call = clo.node["call"]
        if call.get("kind") == "FunctionTemplateDecl":
            specs = [c for c in call.get("inner", ()) if c.get("kind") == "CXXMethodDecl" and c.get("inner") and
                     body_of(c) is not None]
            inst = [c for c in specs if any(x.get("kind") == "TemplateArgument" for x in c.get("inner", ()))]
            if not inst:
                raise Unsupported("generic lambda without instantiation")
            call = inst[0]
        body = body_of(call)
        if body is None:
            raise Unsupported("lambda without body")
        yield from self.inline(st, call, args, this=clo.this, caps=clo.caps)

    # -- calls -----------------------------------------------------------------------------------------------------------
    def callee(self, e):
        c = self.inner(e)[0]
        while c.get("kind") in ("ImplicitCastExpr", "ParenExpr"):
            c = self.inner(c)[0]
        return c

    def default_args(self, st, decl, args):
        """argument expressions with defaults filled in from the callee's declaration"""
        out = []
        ps = params_of(decl) if decl is not None else []
        for i, a in enumerate(args):
            if a.get("kind") == "CXXDefaultArgExpr":
                sub = self.inner(a)
                if sub:
                    out.append(sub[0])
                    continue
                if i < len(ps):
                    d = [c for c in self.inner(ps[i])]
                    if d:
                        out.append(d[0])
                        continue
                out.append(a)
            else:
                out.append(a)
        return out

    def ev_CXXDefaultArgExpr(self, st, e):
        t = type_of(e)
        h = self.hooks.get("defaultarg:" + t.name)
        if h:
            yield st, h(self, st, t)
            return
        yield st, Obj("defaultarg", qual=qual_of(e))

    def ev_CallExpr(self, st, e):
        cal = self.callee(e)
        args = self.inner(e)[1:]
        if cal.get("kind") == "DeclRefExpr":
            rd = cal["referencedDecl"]
            if rd.get("kind") in ("FunctionDecl", "CXXMethodDecl"):
                yield from self.call_function(st, rd, args, e)
                return
        for s, f in self.ev1(st, cal):
            for s2, vs in self.evs(s, args):
                if s2.thrown:
                    yield s2, None
                    continue
                yield from self.call_value(s2, f, vs, e)

    def is_pluto(self, d):
        return d is not None

    def call_function(self, st, rd, args, e):
        d = self.ast.decl(rd["id"])
        name = rd.get("name")
        if d is not None:
            args = self.default_args(st, d, args)
            for s, vs in self.evs(st, args):
                if s.thrown:
                    yield s, None
                    continue
                yield from self.call_decl(s, d, vs, None, e)
            return
        h = self.funcs.get(name)
        if h is None:
            raise Unsupported("call to std function %s" % name)
        args = [a for a in args if a.get("kind") != "CXXDefaultArgExpr"]
        for s, vs in self.evs(st, args):
            if s.thrown:
                yield s, None
                continue
            self.std_used.add(name)
            yield from h(self, s, vs, e)

    def qualname(self, d):
        p = self.ast.record_of(d.get("id"))
        return (p["name"] + "::" if p is not None and p.get("kind") in ("CXXRecordDecl",
                "ClassTemplateSpecializationDecl") and p.get("name") else "") + d.get("name", "")

    def call_decl(self, st, d, vs, this, e):
        qn = self.qualname(d)
        h = self.hooks.get("fn:" + qn)
        if h is not None and (self.fn_stack and qn != self.fn_stack[0] or not self.fn_stack):
            r = h(self, st, d, vs, this, e)
            if r is not None:
                self.calls_contract.add(qn)
                yield from r
                return
        if body_of(d) is None:
            yield from self.call_undefined(st, d, vs, this, e)
            return
        self.calls_inlined.add(qn)
        yield from self.inline(st, d, vs, this)

    def call_undefined(self, st, d, vs, this, e):
        """A declared-only function of the driver: uninterpreted (parametric in user-supplied behaviour)."""
        p = self.ast.record_of(d["id"])
        qn = self.qualname(d)
        h = self.hooks.get("opaque")
        if h is not None:
            r = h(self, st, qn, d, vs, this, e)
            if r is not None:
                yield from r
                return
        if d.get("explicitlyDefaulted") or d.get("isImplicit"):
            if d.get("name") == "operator=" and this is not None:
                self.store(st, this, self.rv(st, vs[0]))
                yield st, this
                return
        if d.get("name") == "operator=" and this is not None and p is not None and len(vs) == 1:
            # a declared-only class of the driver: assignment copies the value
            self.store(st, this, self.rv(st, vs[0]))
            yield st, this
            return
        us = []
        if this is not None:
            us.append(self.unwrap(self.rv(st, this)))
        for v in vs:
            us.append(self.unwrap(self.rv(st, v)))
        rt = type_of_return(d)
        nm = d["name"]
        if nm == "operator+=" and this is not None:
            s0 = us[0].sort()
            f = self.uf("op+:" + s0.name(), *[u.sort() for u in us], s0)
            self.store(st, this, f(*us))
            yield st, this
            return
        if nm in ("operator==", "operator<", "operator<=", "operator>", "operator>=", "operator!=") and len(us) == 2:
            f = self.uf("op" + nm[8:] + ":" + us[0].sort().name(), us[0].sort(), us[1].sort(), z3.BoolSort())
            yield st, f(*us)
            return
        f = self.uf("uf:" + qn, *[u.sort() for u in us], self.sort_of(rt))
        r = f(*us)
        if rt.kind == "int" and not self.bv:
            st.assume(self.range_of(r, rt))
        yield st, self.wrap(rt, r)

    def bind_frame(self, st, d, vs, caps=None):
        fr = dict(caps) if caps else {}
        ps = params_of(d)
        for p, v in zip(ps, vs):
            pt = type_of(p)
            isref = pt.ref or qual_of(p).rstrip().endswith("&")
            if isref:
                if not isinstance(v, LV):
                    v = st.new(v, "tmp")
                fr[p["id"]] = v
            else:
                fr[p["id"]] = st.new(self.rv(st, v), p.get("name", "p"))
        for p in ps[len(vs):]:
            inn = self.inner(p)
            if inn:
                st.frames.append(fr)
                for s, v in self.ev(st, inn[0]):
                    v = v if (type_of(p).ref and isinstance(v, LV)) else s.new(self.rv(s, v), "tmp")
                    fr[p["id"]] = v
                    break
                st.frames.pop()
        st.frames.append(fr)

    def inline(self, st, d, vs, this=None, caps=None):
        self.depth += 1
        if self.depth > 40:
            raise Unsupported("recursion too deep")
        qn = self.qualname(d)
        self.fn_stack.append(qn)
        try:
            self.bind_frame(st, d, vs, caps)
            oldthis = st.this
            st.this = this if this is not None else (st.this if caps is not None else None)
            body = body_of(d)
            rt = type_of_return(d)
            rq = ret_qual(d)
            outs = []
            for s, o in self.ex(st, body):
                s.frames.pop()
                s.this = oldthis
                if s.thrown:
                    outs.append((s, None))
                    continue
                v = o[1] if o else VOID
                if isinstance(v, LV) and not (rq.endswith("&")):
                    v = self.load(s, v)
                outs.append((s, v))
        finally:
            self.fn_stack.pop()
            self.depth -= 1
        for x in outs:
            yield x

    def ev_CXXMemberCallExpr(self, st, e):
        inner = self.inner(e)
        mem, args = inner[0], inner[1:]
        while mem.get("kind") in ("ParenExpr", "ImplicitCastExpr"):
            mem = self.inner(mem)[0]
        for s, b in self.ev(st, mem):
            if s.thrown:
                yield s, None
                continue
            if not isinstance(b, BoundM):
                raise Unsupported("member call on %r" % (b,))
            d = self.ast.decl(b.decl_id)
            a2 = self.default_args(s, d, args) if d is not None else \
                [a for a in args if a.get("kind") != "CXXDefaultArgExpr"]
            for s2, vs in self.evs(s, a2):
                if s2.thrown:
                    yield s2, None
                    continue
                yield from self.call_method(s2, b.obj, b.name, b.objtype, d, vs, e)

    def call_method(self, st, obj, name, ot, d, vs, e):
        if d is not None:
            if not isinstance(obj, LV):
                obj = st.new(obj, "tmpobj")
            yield from self.call_decl(st, d, vs, obj, e)
            return
        rn = ot.name if ot.kind == "rec" else ot.kind
        h = self.methods.get((rn, name)) or self.methods.get((rn.split("::")[-1], name)) or self.methods.get(("*", name))
        if h is None:
            raise Unsupported("method %s::%s" % (rn, name))
        self.std_used.add(rn + "::" + name)
        yield from h(self, st, obj, vs, e, ot)

    def ev_CXXOperatorCallExpr(self, st, e):
        cal = self.callee(e)
        args = self.inner(e)[1:]
        rd = cal.get("referencedDecl", {})
        name = rd.get("name")
        d = self.ast.decl(rd.get("id"))
        if d is not None:
            if d.get("kind") in ("CXXMethodDecl", "CXXConversionDecl"):
                lam = self.ast.record_of(d["id"])
                a2 = [args[0]] + self.default_args(st, d, args[1:])
                for s, vs in self.evs(st, a2):
                    if s.thrown:
                        yield s, None
                        continue
                    o = self.rv(s, vs[0]) if isinstance(vs[0], LV) else vs[0]
                    if isinstance(o, Clo):
                        yield from self.inline(s, d, vs[1:], this=o.this, caps=o.caps)
                        continue
                    obj = vs[0] if isinstance(vs[0], LV) else s.new(vs[0], "tmpobj")
                    yield from self.call_decl(s, d, vs[1:], obj, e)
                return
            for s, vs in self.evs(st, self.default_args(st, d, args)):
                if s.thrown:
                    yield s, None
                    continue
                yield from self.call_decl(s, d, vs, None, e)
            return
        # std operator
        order = args
        if name == "operator=" and len(args) == 2:
            for s, v in self.ev(st, args[1]):
                if s.thrown:
                    yield s, None
                    continue
                for s2, o in self.ev(s, args[0]):
                    if s2.thrown:
                        yield s2, None
                        continue
                    yield from self.std_operator(s2, name, [o, v], [type_of(a) for a in args], e)
            return
        for s, vs in self.evs(st, args):
            if s.thrown:
                yield s, None
                continue
            yield from self.std_operator(s, name, vs, [type_of(a) for a in args], e)

    def std_operator(self, st, name, vs, ts, e):
        rn = ts[0].name if ts[0].kind == "rec" else ts[0].kind
        h = self.methods.get((rn, name)) or self.methods.get((rn.split("::")[-1], name))
        if h is None and len(ts) > 1 and ts[1].kind == "rec":
            h = self.methods.get((ts[1].name, name + "/r"))
        if h is None:
            h = self.methods.get(("*", name))
        if h is None:
            if name == "operator()" :
                yield from self.call_value(st, self.rv(st, vs[0]), vs[1:], e)
                return
            raise Unsupported("operator %s on %r" % (name, ts[0]))
        yield from h(self, st, vs[0], vs[1:], e, ts[0])

    def call_value(self, st, f, vs, e):
        """calls a callable value"""
        f = self.rv(st, f)
        if isinstance(f, Clo):
            yield from self.call_closure(st, f, vs)
            return
        if isinstance(f, FnRef):
            d = self.ast.decl(f.decl["id"])
            if d is not None:
                yield from self.call_decl(st, d, vs, None, e)
                return
            h = self.funcs.get(f.decl.get("name"))
            if h:
                yield from h(self, st, vs, e)
                return
        if isinstance(f, UFn):
            h = self.hooks.get("call:" + f.tname) or self.hooks.get("call")
            if h:
                r = h(self, st, f, vs, e)
                if r is not None:
                    yield from r
                    return
            us = [self.unwrap(self.rv(st, v)) for v in vs]
            rt = type_of(e) if e is not None else BOOL
            if rt.kind == "void":
                yield st, VOID
                return
            g = self.uf("apply:" + f.tname, f.term.sort(), *[u.sort() for u in us], self.sort_of(rt))
            yield st, self.wrap(rt, g(f.term, *us))
            return
        if isinstance(f, SV):
            # functor struct with a known class definition
            rec = self.find_record(T("rec", f.name), "")
            raise Unsupported("functor value %s" % f.name)
        if isinstance(f, Obj) and f.tname == "functor":
            yield from f.attr["call"](self, st, vs, e)
            return
        raise Unsupported("call of %r" % (f,))

    # apply a predicate/function value to element terms as a pure formula -------------------------------------------------
    def apply_pure(self, st, f, ftype, args, e=None, rt=BOOL):
        """Evaluates callable f on element values; returns one term (paths merged). No side effects allowed."""
        s = st.fork()
        base = len(s.pc)
        out = []
        vs = [a if isinstance(a, LV) else s.new(a, "arg") for a in args]
        old = self.recording
        self.recording = False
        try:
            if isinstance(f, SV):
                rec = self.find_record(T("rec", f.name) if ftype is None else ftype, "")
                m = self.find_callop(rec)
                objlv = s.new(f, "functor")
                gen = self.call_decl(s, m, vs, objlv, e)
            else:
                gen = self.call_value(s, f, vs, e if e is not None else {"type": {"qualType": "bool"}, "kind": "x"})
            for s2, v in gen:
                if s2.thrown:
                    raise Unsupported("throwing predicate")
                v = self.rv(s2, v)
                if rt.kind == "bool":
                    v = self.boolv(v)
                out.append((s2.pc[base:], v))
        finally:
            self.recording = old
        if not out:
            raise Unsupported("predicate has no path")
        r = out[-1][1]
        isseq = isinstance(r, (SeqV,))
        r = self.unwrap(r)
        for pcs, v in reversed(out[:-1]):
            r = z3.If(z3.And(*pcs) if pcs else z3.BoolVal(True), self.unwrap(v), r)
        return z3.simplify(r)

    def find_callop(self, rec):
        if rec is None:
            raise Unsupported("functor class unknown")
        for c in rec.get("inner", ()):
            if c.get("kind") == "CXXMethodDecl" and c.get("name") == "operator()":
                return c
        for c in rec.get("inner", ()):
            if c.get("kind") == "FunctionTemplateDecl" and c.get("name") == "operator()":
                for x in c.get("inner", ()):
                    if x.get("kind") == "CXXMethodDecl" and body_of(x) is not None and any(
                            y.get("kind") == "TemplateArgument" for y in x.get("inner", ())):
                        return x
        raise Unsupported("no operator()")

    # statements ---------------------------------------------------------------------------------------------------------
    def ex(self, st, n):
        """yields (state, outcome): None | ('ret', v) | ('brk',) | ('cont',); st.thrown for exceptions"""
        self.check_budget()
        k = n.get("kind")
        m = getattr(self, "ex_" + k, None)
        if m is not None:
            yield from m(st, n)
            return
        if k is None:
            yield st, None
            return
        if k.endswith("Stmt"):
            raise Unsupported("statement " + k)
        if k in ("StaticAssertDecl", "TypedefDecl", "TypeAliasDecl", "UsingDecl", "CXXRecordDecl"):
            yield st, None
            return
        for s, v in self.ev(st, n):
            if not s.thrown:
                self.drop_temp(s, v)
            yield s, None

    def drop_temp(self, st, v):
        if isinstance(v, Obj) and v.tname in self.dtors:
            lv = st.new(v, "dtmp")
            for s, _ in self.dtors[v.tname](self, st, lv):
                break

    def ex_NullStmt(self, st, n):
        yield st, None

    def ex_CompoundStmt(self, st, n):
        kids = [c for c in n.get("inner", ()) if c.get("kind")]
        yield from self.scope(st, lambda s: self.ex_seq(s, kids, 0))

    def scope(self, st, run):
        """Runs statements in a scope; objects with destructors declared in it are destroyed in reverse order."""
        mark = st.ghost.get("dtors", ())
        st.ghost["dtors"] = mark + (("mark",),)
        for s, o in run(st):
            d = s.ghost["dtors"]
            idx = len(mark)
            todo = d[idx + 1:]
            s.ghost["dtors"] = mark
            yield from self.unwind(s, list(todo), o)

    def unwind(self, st, todo, o):
        if not todo:
            yield st, o
            return
        h, lv = todo[-1]
        for s, _ in h(self, st, lv):
            yield from self.unwind(s, todo[:-1], o)

    def register_dtor(self, st, lv, v):
        h = None
        if isinstance(v, Obj):
            h = self.dtors.get(v.tname)
        elif isinstance(v, SV):
            h = self.dtors.get(v.name)
        if h is not None:
            st.ghost["dtors"] = st.ghost.get("dtors", ()) + ((h, lv),)

    def ex_seq(self, st, kids, i):
        if i == len(kids):
            yield st, None
            return
        for s, o in self.ex(st, kids[i]):
            if s.thrown or o is not None:
                yield s, o
            else:
                yield from self.ex_seq(s, kids, i + 1)

    def ex_DeclStmt(self, st, n):
        kids = [c for c in n.get("inner", ()) if c.get("kind")]
        yield from self.ex_decls(st, kids, 0)

    def ex_decls(self, st, kids, i):
        if i == len(kids):
            yield st, None
            return
        d = kids[i]
        if d["kind"] != "VarDecl":
            if d["kind"] == "DecompositionDecl":
                raise Unsupported("structured binding")
            yield from self.ex_decls(st, kids, i + 1)
            return
        for s in self.declare(st, d):
            if s.thrown:
                yield s, None
            else:
                yield from self.ex_decls(s, kids, i + 1)

    def declare(self, st, d):
        t = type_of(d)
        isref = t.ref or qual_of(d).rstrip().endswith("&")
        init = [c for c in self.inner(d) if not c["kind"].endswith("Attr") and not c["kind"].endswith("Comment")]
        if not init:
            st.env[d["id"]] = st.new(UNINIT, d.get("name", "v"))
            yield st
            return
        if d.get("storageClass") == "static":
            h = self.hooks.get("static")
            if h:
                r = h(self, st, d)
                if r is not None:
                    st.env[d["id"]] = r
                    yield st
                    return
        for s, v in self.ev(st, init[0]):
            if s.thrown:
                yield s
                continue
            if d.get("storageClass") == "static" and not d.get("constexpr"):
                v = self.static_value(s, d, t, self.rv(s, v), isref)
            if isref:
                if not isinstance(v, LV):
                    v = s.new(v, d.get("name", "r"))
                    self.register_dtor(s, v, s.mem[v.cell])
                s.env[d["id"]] = v
            else:
                val = self.rv(s, v)
                val = self.conv_init(s, val, t)
                lv = s.new(val, d.get("name", "v"))
                s.env[d["id"]] = lv
                self.register_dtor(s, lv, val)
            yield s

    def conv_init(self, st, v, t):
        return v

    def static_value(self, st, d, t, v, isref):
        """a static local: its initial value if it is a constant with a constant initialiser, otherwise any value an earlier call left"""
        if isref or not (z3.is_expr(v) and t.kind in ("int", "bool", "rec")):
            raise Unsupported("static local variable")
        closed = all(n.startswith("lit:") for n in self.stats.consts(v)) and not any(
            x.decl().kind() == z3.Z3_OP_UNINTERPRETED and x.num_args() for x in subterms(v))
        if closed and t.const:
            return v
        return self.fresh(t, "static_" + d.get("name", "v"), st)

    def ex_ReturnStmt(self, st, n):
        inner = self.inner(n)
        if not inner:
            yield st, ("ret", VOID)
            return
        for s, v in self.ev(st, inner[0]):
            # a local object is copied out before destructors run
            if isinstance(v, LV) and not self.returns_ref():
                v = self.load(s, v)
            yield s, ("ret", v)

    def returns_ref(self):
        return self.ret_ref_stack[-1] if self.ret_ref_stack else True

    ret_ref_stack = []

    def ex_IfStmt(self, st, n):
        kids = self.inner(n)
        i = 0
        pre = []
        if n.get("hasInit"):
            pre.append(kids[i]); i += 1
        if n.get("hasVar"):
            pre.append(kids[i]); i += 1
        cond = kids[i]; i += 1
        then = kids[i] if i < len(kids) else None; i += 1
        els = kids[i] if (n.get("hasElse") and i < len(kids)) else None

        def run(s0):
            for s, o in (self.ex_seq(s0, pre, 0) if pre else [(s0, None)]):
                if s.thrown:
                    yield s, None
                    continue
                if n.get("isConstexpr"):
                    c = cond
                    if c.get("kind") == "ConstantExpr" and "value" in c:
                        val = c["value"] in ("true", "1")
                        br = then if val else els
                        if br is None:
                            yield s, None
                        else:
                            yield from self.ex(s, br)
                        continue
                for s2, v in self.ev1(s, cond):
                    if s2.thrown:
                        yield s2, None
                        continue
                    for s3, b in self.branch(s2, v):
                        br = then if b else els
                        if br is None:
                            yield s3, None
                        else:
                            yield from self.ex(s3, br)
        yield from self.scope(st, run)

    def ex_BreakStmt(self, st, n):
        yield st, ("brk",)

    def ex_ContinueStmt(self, st, n):
        yield st, ("cont",)

    def ex_SwitchStmt(self, st, n):
        kids = self.inner(n)
        body = kids[-1]
        cond = kids[-2]
        # flatten case labels
        items = []      # (labels, stmt)
        default = None
        flat = []

        def flatten(x):
            labels = []
            while x.get("kind") in ("CaseStmt", "DefaultStmt"):
                inn = self.inner(x)
                if x["kind"] == "CaseStmt":
                    labels.append(inn[0])
                    x = inn[-1]
                else:
                    labels.append(None)
                    x = inn[-1]
            return labels, x
        for c in self.inner(body):
            flat.append(flatten(c))
        for s, v in self.ev1(st, cond):
            def go(s, start):
                for s2, o in self.ex_seq(s, [x for _, x in flat[start:]], 0):
                    if o == ("brk",):
                        yield s2, None
                    else:
                        yield s2, o
            rest = s
            done = False
            cases = []
            dflt = None
            for i, (labels, _) in enumerate(flat):
                for l in labels:
                    if l is None:
                        dflt = i
                    else:
                        cases.append((l, i))
            cur = [s]
            for l, i in cases:
                nxt = []
                for s1 in cur:
                    for s2, lv in self.ev1(s1, l):
                        for s3, b in self.branch(s2, v == lv):
                            if b:
                                yield from go(s3, i)
                            else:
                                nxt.append(s3)
                cur = nxt
            for s1 in cur:
                if dflt is None:
                    yield s1, None
                else:
                    yield from go(s1, dflt)

    def ex_CXXTryStmt(self, st, n):
        kids = self.inner(n)
        block, handlers = kids[0], kids[1:]
        for s, o in self.ex(st, block):
            if not s.thrown:
                yield s, o
                continue
            done = False
            for h in handlers:
                hk = self.inner(h)
                catches_all = not any(c.get("kind") == "VarDecl" for c in hk) and not (
                    hk and hk[0].get("kind") == "VarDecl")
                body = hk[-1]
                if catches_all:
                    s.thrown = None
                    yield from self.ex(s, body)
                    done = True
                    break
                var = next(c for c in hk if c.get("kind") == "VarDecl")
                ct = repr_type(type_of(var))
                m = self.catch_match(s, s.thrown, ct)
                if m is True:
                    s.env[var["id"]] = s.new(Obj("exception", kind=s.thrown), "exc")
                    s.thrown = None
                    yield from self.ex(s, body)
                    done = True
                    break
                if m is None:
                    s2 = s.fork()
                    s2.env[var["id"]] = s2.new(Obj("exception", kind=s2.thrown), "exc")
                    s2.thrown = None
                    yield from self.ex(s2, body)
            if not done:
                yield s, None

    def catch_match(self, st, thrown, ct):
        """True/False/None(maybe)"""
        if thrown == ct:
            return True
        if thrown == "any":
            return None
        bases = {"std::filesystem::filesystem_error": ("std::system_error", "std::runtime_error", "std::exception"),
                 "std::filesystem::__cxx11::filesystem_error": ("std::filesystem::filesystem_error",
                                                                "std::system_error", "std::runtime_error",
                                                                "std::exception")}
        n1, n2 = thrown.replace("__cxx11::", ""), ct.replace("__cxx11::", "")
        if n1 == n2:
            return True
        for b in bases.get(n1, ()):
            if b == n2:
                return True
        return False

    # -- loops -------------------------------------------------------------------------------------------------------------
    def ex_ForStmt(self, st, n):
        raw = n.get("inner", [])
        init, var, cond, inc, body = (list(raw) + [{}] * 5)[:5]

        def run(s0):
            for s, _ in (self.ex(s0, init) if init.get("kind") else [(s0, None)]):
                if s.thrown:
                    yield s, None
                    continue
                yield from self.loop(s, cond if cond.get("kind") else None, inc if inc.get("kind") else None, body, n)
        yield from self.scope(st, run)

    def ex_WhileStmt(self, st, n):
        kids = self.inner(n)
        if n.get("hasVar"):
            raise Unsupported("while with declaration")
        cond, body = kids[0], kids[1] if len(kids) > 1 else {"kind": "NullStmt"}
        yield from self.loop(st, cond, None, body, n)

    def ex_DoStmt(self, st, n):
        kids = self.inner(n)
        body, cond = kids[0], kids[1]
        yield from self.loop(st, cond, None, body, n, dowhile=True)

    def ex_CXXForRangeStmt(self, st, n):
        raw = n.get("inner", [])
        init, rng, beg, end, cond, inc, var, body = raw[:8]

        def run(s0):
            pre = [x for x in (init, rng, beg, end) if x.get("kind")]
            for s, _ in self.ex_seq(s0, pre, 0):
                if s.thrown:
                    yield s, None
                    continue
                b = {"kind": "CompoundStmt", "inner": [var, body]}
                yield from self.loop(s, cond, inc, b, n)
        yield from self.scope(st, run)

    def iterate(self, h, cond, inc, body, dowhile):
        """One iteration from loop head h. yields (kind, state, outcome): 'exit','back','brk','ret','thr'"""
        def do_body(s):
            for s2, o in self.ex(s, body):
                if s2.thrown:
                    yield "thr", s2, None
                elif o is None or o == ("cont",):
                    if inc is not None:
                        for s3, _ in self.ev(s2, inc):
                            yield ("thr" if s3.thrown else "back"), s3, None
                    else:
                        yield "back", s2, None
                elif o == ("brk",):
                    yield "brk", s2, None
                else:
                    yield "ret", s2, o
        if dowhile:
            for k, s, o in do_body(h):
                if k != "back":
                    yield k, s, o
                    continue
                for s2, v in self.ev1(s, cond):
                    if s2.thrown:
                        yield "thr", s2, None
                        continue
                    for s3, b in self.branch(s2, v):
                        yield ("back" if b else "exit"), s3, None
            return
        if cond is None:
            yield from do_body(h)
            return
        for s, v in self.ev1(h, cond):
            if s.thrown:
                yield "thr", s, None
                continue
            for s2, b in self.branch(s, v):
                if b:
                    yield from do_body(s2)
                else:
                    yield "exit", s2, None

    def havoc_value(self, st, old, new, name):
        """fresh value covering both old and new"""
        ref = old if old is not UNINIT else new
        if ref is UNINIT:
            return UNINIT
        if old is UNINIT and new is not UNINIT:
            # assigned before use inside the loop: stays uninitialised at the head
            return UNINIT
        if isinstance(ref, z3.ExprRef):
            c = z3.Const(fresh_name("h_" + str(name).split("!")[0]), ref.sort())
            return c
        if isinstance(ref, SeqV):
            return SeqV(z3.Const(fresh_name("h_seq"), ref.t.sort()), ref.et, ref.kind)
        if isinstance(ref, ItV):
            if not isinstance(new, ItV) or not new.cont.same(ref.cont) or new.rev != ref.rev:
                raise Unsupported("iterator changes container in loop")
            return ItV(ref.cont, z3.Const(fresh_name("h_it"), ref.idx.sort()), ref.rev)
        if isinstance(ref, PtrV):
            if not isinstance(new, PtrV):
                raise Unsupported("pointer havoc")
            base = ref.base if ref.base is not None else new.base
            if ref.base is not None and new.base is not None and not ref.base.same(new.base):
                raise Unsupported("pointer changes object in loop")
            off = ref.off if ref.off is not None else new.off
            if off is not None:
                off = z3.Const(fresh_name("h_off"), off.sort())
            if z3.is_false(z3.simplify(ref.null)) and z3.is_false(z3.simplify(new.null)):
                null = z3.BoolVal(False)
            else:
                null = z3.Bool(fresh_name("h_null"))
            return PtrV(null, base, off)
        if isinstance(ref, SV):
            f = {}
            for k in ref.fields:
                a, b = ref.fields[k], new.fields.get(k) if isinstance(new, SV) else None
                f[k] = a if same_value(a, b) else self.havoc_value(st, a, b, k)
            return SV(ref.name, f)
        if isinstance(ref, UFn):
            return UFn(z3.Const(fresh_name("h_fn"), ref.term.sort()), ref.tname)
        if isinstance(ref, Obj):
            h = self.hooks.get("havoc:" + ref.tname)
            if h:
                return h(self, st, ref, new)
            f = {}
            for k in ref.attr:
                a, b = ref.attr[k], new.attr.get(k)
                f[k] = a if same_value(a, b) else self.havoc_value(st, a, b, k)
            return Obj(ref.tname, **f)
        raise Unsupported("havoc of %r" % (ref,))

    def int_facts(self, st, lv_val, t):
        pass

    def loop(self, st, cond, inc, body, node, dowhile=False):
        self.check_budget()
        key = (tuple(self.fn_stack), node.get("id"))
        unroll = getattr(self, "unroll", 0)
        if getattr(self, "exact", 0):
            yield from self.loop_exact(st, cond, inc, body, dowhile)
            return
        if unroll:
            yield from self.loop_unrolled(st, cond, inc, body, dowhile, unroll)
            return
        # 1. which cells does an iteration change?
        mod = {}
        oldrec, self.recording = self.recording, False
        self.discover += 1
        try:
            for rnd in range(8):
                h = st.fork()
                for c, nv in mod.items():
                    h.mem[c] = self.havoc_value(h, st.mem[c], nv, c)
                self.havoc_facts(h, st, mod)
                head = dict(h.mem)
                ghead = h.ghost
                grew = False
                for k, s, o in self.iterate(h, cond, inc, body, dowhile):
                    if k != "back":
                        continue
                    for c in list(head):
                        if c in s.mem and not same_value(head[c], s.mem[c]):
                            if c not in mod:
                                mod[c] = s.mem[c]
                                grew = True
                            else:
                                mod[c] = self.merge_hint(mod[c], s.mem[c])
                if not grew:
                    break
            else:
                raise Unsupported("loop frame did not stabilise")
        finally:
            self.discover -= 1
            self.recording = oldrec

        def mkhead(invs):
            h = st.fork()
            for c, nv in mod.items():
                h.mem[c] = self.havoc_value(h, st.mem[c], nv, c)
            self.havoc_facts(h, st, mod)
            if self.contract is not None and hasattr(self.contract, "reshape"):
                self.contract.reshape(self, st, h, mod)     # adds only definitions of fresh names
            for nm, f in invs:
                h.assume(f(h))
            return h
        invs = []
        if not self.discover:
            invs = self.houdini(st, mod, mkhead, cond, inc, body, dowhile, key)
        # 3. final pass with invariants assumed; obligations are recorded here
        h = mkhead(invs)
        locks0 = h.ghost.get("locks")
        for k, s, o in self.iterate(h, cond, inc, body, dowhile):
            if k == "back":
                if (s.ghost.get("locks") or ()) != (locks0 or ()):
                    self.oblige(s, "lock-state-stable-in-loop", z3.BoolVal(False), "lock")
                if self.contract is not None and not self.discover and hasattr(self.contract, "at_backedge"):
                    self.contract.at_backedge(self, st, h, s, key)
                continue
            if k == "exit" or k == "brk":
                yield s, None
            elif k == "thr":
                yield s, None
            else:
                yield s, o

    def loop_exact(self, st, cond, inc, body, dowhile):
        """a loop whose iteration count the types fix: every path is followed to its exit"""
        work = [(st, 0)]
        while work:
            s, n = work.pop()
            self.check_budget()
            if n > self.exact:
                raise Unsupported("loop does not end within %d iterations" % self.exact)
            for k, s2, o in self.iterate(s, cond, inc, body, dowhile):
                if k == "back":
                    work.append((s2, n + 1))
                elif k in ("exit", "brk", "thr"):
                    yield s2, None
                else:
                    yield s2, o

    def loop_unrolled(self, st, cond, inc, body, dowhile, bound):
        work = [(st, 0)]
        while work:
            s, n = work.pop()
            if n > bound:
                continue       # bounded: deeper paths are dropped (only used to look for counterexamples)
            for k, s2, o in self.iterate(s, cond, inc, body, dowhile):
                if k == "back":
                    work.append((s2, n + 1))
                elif k in ("exit", "brk", "thr"):
                    yield s2, None
                else:
                    yield s2, o

    def merge_hint(self, a, b):
        if isinstance(a, PtrV) and isinstance(b, PtrV):
            return PtrV(a.null if not z3.is_false(z3.simplify(a.null)) else b.null, a.base or b.base,
                        a.off if a.off is not None else b.off)
        return b

    def havoc_facts(self, h, st, mod):
        """type-range facts of havocked machine integers"""
        if self.bv:
            return
        types = self.cell_types(h)
        for c in mod:
            v = h.mem[c]
            t = types.get(c)
            if t is not None and t.kind == "int" and isinstance(v, z3.ArithRef):
                h.assume(self.range_of(v, t))
            if isinstance(v, SeqV):
                h.assume(z3.Length(v.t) <= (1 << 62))

    def cell_types(self, st):
        m = {}
        for fr in st.frames:
            for i, lv in fr.items():
                if isinstance(lv, LV) and not lv.path:
                    d = self.ast.decl(i)
                    if d is not None:
                        m[lv.cell] = type_of(d)
        return m

    def houdini(self, st, mod, mkhead, cond, inc, body, dowhile, key):
        cands = self.generic_invariants(st, mod)
        if self.contract is not None:
            cands += list(self.contract.invariants(self, st, mod, self.index_exprs(st, mod)))
        # entry
        keep = []
        for nm, f in cands:
            try:
                g = f(st)
            except Unsupported:
                continue
            if g is None:
                continue
            v = solve.prove(self, st.pc, g, 3000, light=True)[0]
            if v == "valid":
                keep.append((nm, f))
            elif v == "unknown" and solve.finite_model(self, self.axioms + list(st.pc) + [z3.Not(g)], 3000) is None:
                self.inconclusive.append("loop invariant %s undecided on entry" % nm)
        oldrec, self.recording = self.recording, False
        try:
            for rnd in range(12):
                h = mkhead(keep)
                bad = set()
                for k, s, o in self.iterate(h, cond, inc, body, dowhile):
                    if k != "back":
                        continue
                    todo = [j for j in range(len(keep)) if j not in bad]
                    if not todo:
                        continue
                    fs = {}
                    for j in todo:
                        try:
                            fs[j] = keep[j][1](s)
                        except Unsupported:
                            bad.add(j)
                    todo = [j for j in todo if j not in bad]
                    failed = solve.prove_many(self, s.pc, [fs[j] for j in todo], 4000)
                    for j, ok in zip(todo, failed):
                        if not ok:
                            bad.add(j)
                if not bad:
                    break
                keep = [x for j, x in enumerate(keep) if j not in bad]
            else:
                keep = []
        finally:
            self.recording = oldrec
        self.loops.append((key[0][-1] if key[0] else "?", [nm for nm, _ in keep]))
        return keep

    def scope_cells(self, st):
        """cells reachable as variables of the active frames"""
        seen = []
        for fr in st.frames:
            for i, lv in fr.items():
                if isinstance(lv, LV) and lv.cell in st.mem and lv.cell not in seen:
                    seen.append(lv.cell)
        return seen

    def index_exprs(self, st, mod):
        """Index-like quantities at a loop head: (name, fn(state)->term, modified?)"""
        out = []
        types = self.cell_types(st)

        def add(nm, f, m):
            out.append((nm, f, m))
        for c in self.scope_cells(st):
            v = st.mem[c]
            m = c in mod
            self._idx_of(c, (), v, m, types.get(c), add)
        return out

    def _idx_of(self, c, path, v, m, t, add):
        lv = LV(c, path)
        nm = c.split("!")[0] + "".join("." + p for p in path)
        if isinstance(v, ItV):
            add(nm, lambda s, lv=lv: self.load(s, lv).idx, m)
        elif isinstance(v, PtrV) and v.off is not None:
            add(nm, lambda s, lv=lv: self.load(s, lv).off, m)
        elif isinstance(v, z3.ArithRef) and not self.bv:
            add(nm, lambda s, lv=lv: self.load(s, lv), m)
        elif self.bv and z3.is_bv(v) and v.size() == 64:
            add(nm, lambda s, lv=lv: self.load(s, lv), m)
        elif isinstance(v, SV) and v.name != "array":
            for k, x in v.fields.items():
                if isinstance(k, str) and isinstance(x, (ItV, PtrV, z3.ExprRef)):
                    self._idx_of(c, path + (k,), x, m, None, add)

    def generic_invariants(self, st, mod):
        """Range and equality templates over index-like variables; nothing depends on names in the code."""
        out = []
        idx = self.index_exprs(st, mod)
        ms = [(n, f) for n, f, m in idx if m]
        us = [(n, f(st)) for n, f, m in idx if not m]
        bounds = [("0", self.num(0))] + us
        if self.contract is not None:
            bounds += [(n, t) for n, t in self.contract.bounds(self, st)]
        le = z3.ULE if self.bv else (lambda a, b: a <= b)
        for n, f in ms:
            e = f(st)
            out.append(("%s>=entry" % n, lambda s, f=f, e=e: le(e, f(s))))
            out.append(("%s<=entry" % n, lambda s, f=f, e=e: le(f(s), e)))
            for bn, b in bounds:
                if b.sort() != e.sort():
                    continue
                out.append(("%s<=%s" % (n, bn), lambda s, f=f, b=b: le(f(s), b)))
                out.append(("%s>=%s" % (n, bn), lambda s, f=f, b=b: le(b, f(s))))
        for i in range(len(ms)):
            for j in range(i + 1, len(ms)):
                (n1, f1), (n2, f2) = ms[i], ms[j]
                e1, e2 = f1(st), f2(st)
                if e1.sort() != e2.sort():
                    continue
                out.append(("%s-%s const" % (n1, n2), lambda s, f1=f1, f2=f2, e1=e1, e2=e2: f1(s) - e1 == f2(s) - e2))
                out.append(("%s+%s const" % (n1, n2), lambda s, f1=f1, f2=f2, e1=e1, e2=e2: f1(s) + f2(s) == e1 + e2))
                out.append(("%s<=%s" % (n1, n2), lambda s, f1=f1, f2=f2: le(f1(s), f2(s))))
                out.append(("%s<=%s" % (n2, n1), lambda s, f1=f1, f2=f2: le(f2(s), f1(s))))
        return out


def subterms(f):
    seen, stack, out = set(), [f], []
    while stack:
        x = stack.pop()
        if x.get_id() not in seen:
            seen.add(x.get_id())
            out.append(x)
            stack += x.children()
    return out


def repr_type(t):
    r = repr(t).rstrip("&")
    return r


def ret_qual(d):
    q = d.get("type", {}).get("desugaredQualType") or d.get("type", {}).get("qualType", "")
    if ") -> " in q:
        return q.rsplit(") -> ", 1)[1].strip()
    # return type is everything before the top-level '('
    depth = 0
    for i, ch in enumerate(q):
        if ch in "<[":
            depth += 1
        elif ch in ">]":
            depth -= 1
        elif ch == "(" and depth == 0:
            return q[:i].strip()
    return q.strip()


def type_of_return(d):
    return parse_type(ret_qual(d))
