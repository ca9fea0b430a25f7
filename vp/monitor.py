"""Monitor-style contracts for lock-protected classes: every acquisition havocs the protected fields (other threads ran) and
assumes the monitor invariant, every release proves it; ghost flags record wake-ups still owed to waiting threads.

Containers of the class (std::map, std::multimap) are sets of nodes: dom, key and a sequence number (order of insertion) per
node, plus the mapped value per leaf, and its original value (as inserted), which moving from the node does not change."""
import itertools
import z3
from .ast import parse_type, type_of, qual_of, body_of, params_of, T
from .engine import Ex, opaque_sort, repr_type
from .sym import *
from . import locks

I, B = z3.IntSort(), z3.BoolSort()
FN = opaque_sort("task")
END = z3.IntVal(0)
TRUE, FALSE = z3.BoolVal(True), z3.BoolVal(False)
MAPS = ("std::map", "std::multimap")
MITS = ("std::_Rb_tree_iterator", "std::_Rb_tree_const_iterator")
GHOST = "$g"


def forall(vs, body, patterns=()):
    """quantifier with the given patterns where the solver accepts them"""
    try:
        return z3.ForAll(vs, body, patterns=list(patterns))
    except z3.Z3Exception:
        return z3.ForAll(vs, body)


def has_var(x):
    if z3.is_var(x):
        return True
    return any(has_var(c) for c in x.children())


def arr(s):
    return z3.ArraySort(I, s)


class MonitorEx(Ex):
    CLASS = ""            # qualified name of the monitor class
    pid = None            # only obligations of this property are proved; the others are assumed here and proved by their own check

    def __init__(self, ast, contract, budget=200.0):
        Ex.__init__(self, ast, "int", contract, budget)
        locks.install(self)
        self.info = {}        # map field -> dict(shape, lt, multi, keyshape)
        self.me = z3.Int("me")
        self.hooks["acquire"], self.hooks["release"] = self.on_acquire, self.on_release
        M, C, F = self.methods, self.ctors, self.funcs
        for n in MAPS:
            for m in ("size", "empty", "begin", "end", "find", "emplace", "emplace_hint", "insert", "erase", "count", "contains", "clear"):
                M[(n, m)] = getattr(self, "n_" + m)
            M[(n, "cbegin")], M[(n, "cend")] = self.n_begin, self.n_end
            M[(n, "operator[]")] = self.n_index
            M[(n, "at")] = self.n_at
            C[n] = self.c_map
        for n in MITS:
            C[n] = self.c_value
            M[(n, "operator*")] = self.i_deref
            M[(n, "operator->")] = self.i_arrow
            M[(n, "operator++")] = self.i_next
            M[(n, "operator--")] = self.i_prev
            M[(n, "operator==")] = lambda ex, st, o, vs, e, ot: self.one(st, self.itn(st, o) == self.itn(st, vs[0]))
            M[(n, "operator!=")] = lambda ex, st, o, vs, e, ot: self.one(st, self.itn(st, o) != self.itn(st, vs[0]))
            M[(n, "operator=")] = self.v_assign
        C["std::pair"] = self.c_pair
        F["next"] = lambda ex, st, vs, e: self.i_far(st, vs, False)
        F["prev"] = lambda ex, st, vs, e: self.i_far(st, vs, True)
        F["make_pair"] = lambda ex, st, vs, e: self.one(st, self.pair(self.rv(st, vs[0]), self.take(st, vs[1])))
        C["std::condition_variable"] = C["std::condition_variable_any"] = lambda ex, st, t, vs, e: self.one(st, Obj("cv"))
        for n in ("std::condition_variable", "std::condition_variable_any"):
            M[(n, "notify_one")] = lambda ex, st, o, vs, e, ot: self.cv_notify(st, o, False)
            M[(n, "notify_all")] = lambda ex, st, o, vs, e, ot: self.cv_notify(st, o, True)
            M[(n, "wait")] = self.cv_wait
            M[(n, "wait_until")] = self.cv_wait_until
            M[(n, "wait_for")] = self.cv_wait_for
        C["std::function"] = self.c_function
        M[("std::function", "operator=")] = self.fn_assign
        M[("std::function", "operator bool")] = lambda ex, st, o, vs, e, ot: self.one(st, TRUE)
        self.hooks["call"] = self.run_task
        for n in ("std::chrono::duration", "std::chrono::time_point"):
            C[n] = self.c_dur
            M[(n, "count")] = M[(n, "time_since_epoch")] = lambda ex, st, o, vs, e, ot: self.one(st, self.dur(st, o))
            M[(n, "operator=")] = self.v_assign
        for op in ("<", "<=", ">", ">=", "==", "!="):
            f = {"<": lambda a, b: a < b, "<=": lambda a, b: a <= b, ">": lambda a, b: a > b, ">=": lambda a, b: a >= b,
                 "==": lambda a, b: a == b, "!=": lambda a, b: a != b}[op]
            for n in ("std::chrono::duration", "std::chrono::time_point", "std::thread::id", "std::strong_ordering", "std::weak_ordering", "std::partial_ordering"):
                M[(n, "operator" + op)] = lambda ex, st, o, vs, e, ot, f=f: self.one(st, f(self.dur(st, o), self.dur(st, vs[0])))
            F["operator" + op] = lambda ex, st, vs, e, f=f: self.one(st, f(self.rv(st, vs[0]), self.rv(st, vs[1])))
        for n, sg in (("+", 1), ("-", -1)):
            F["operator" + n] = lambda ex, st, vs, e, sg=sg: self.one(st, self.dur(st, vs[0]) + sg * self.dur(st, vs[1]))
            for c in ("std::chrono::duration", "std::chrono::time_point"):
                M[(c, "operator" + n)] = lambda ex, st, o, vs, e, ot, sg=sg: self.one(st, self.dur(st, o) + sg * self.dur(st, vs[0]))
                M[(c, "operator" + n + "=")] = lambda ex, st, o, vs, e, ot, sg=sg: self.aug(st, o, vs, sg)
        for n in ("std::chrono::duration", "std::chrono::time_point", "std::thread::id"):
            M[(n, "operator<=>")] = lambda ex, st, o, vs, e, ot: self.one(st, self.dur(st, o) - self.dur(st, vs[0]))
        C["std::__cmp_cat::__unspec"] = lambda ex, st, t, vs, e: self.one(st, z3.IntVal(0))
        F["now"] = self.f_now
        F["get_id"] = lambda ex, st, vs, e: self.one(st, self.me)
        F["yield"] = lambda ex, st, vs, e: self.one(st, VOID)
        F["min"] = lambda ex, st, vs, e: self.one(st, (lambda a, b: z3.If(b < a, b, a))(self.rv(st, vs[0]), self.rv(st, vs[1])))
        F["max"] = lambda ex, st, vs, e: self.one(st, (lambda a, b: z3.If(a < b, b, a))(self.rv(st, vs[0]), self.rv(st, vs[1])))

    def one(self, st, v):
        yield st, v

    def finite(self, fs, n=3):
        """fs with every set of nodes restricted to 1..n (plus nodes added explicitly) and the quantifiers over members written out;
        every quantifier of these contracts is guarded by membership, so a model of the result is a model of fs"""
        consts, idx, seen = {}, {}, set()

        def scan(x):
            stack = [(x, False)]
            while stack:
                y, bound = stack.pop()
                if (y.get_id(), bound) in seen:
                    continue
                seen.add((y.get_id(), bound))
                if z3.is_quantifier(y):
                    stack.append((y.body(), True))
                    continue
                if z3.is_app(y):
                    if y.num_args() == 0 and y.decl().kind() == z3.Z3_OP_UNINTERPRETED and y.sort() == arr(B):
                        consts[y.get_id()] = y
                    if y.decl().kind() in (z3.Z3_OP_SELECT, z3.Z3_OP_STORE) and y.arg(1).sort() == I and not has_var(y.arg(1)):
                        idx[y.arg(1).get_id()] = y.arg(1)
                    stack += [(c, bound) for c in y.children()]
        for f in fs:
            scan(f)
        terms = [z3.IntVal(i) for i in range(1, n + 1)]
        terms += [t for t in idx.values() if not (z3.is_int_value(t) and 1 <= t.as_long() <= n)][:12]
        memo = {}

        def go(x):
            k = x.get_id()
            if k in memo:
                return memo[k][1]
            if z3.is_quantifier(x):
                body, m, out = x.body(), x.num_vars(), []
                for ts in itertools.product(terms if m == 1 else terms[:8], repeat=m):
                    out.append(go(z3.substitute_vars(body, *ts)))
                r = z3.And(*out) if x.is_forall() else z3.Or(*out)
            elif z3.is_app(x) and x.num_args():
                cs = [go(c) for c in x.children()]
                r = x if all(a.eq(b) for a, b in zip(cs, x.children())) else (z3.And(*cs) if z3.is_and(x) else z3.Or(*cs) if z3.is_or(x) else x.decl()(*cs))
            else:
                r = x
            memo[k] = (x, r)
            return r
        out = [go(f) for f in fs]
        for c in consts.values():
            a = z3.K(I, FALSE)
            for i in range(1, n + 1):
                a = z3.Store(a, i, z3.Bool(fresh_name("in")))
            out.append(c == a)
        return out

    # ---- obligations per property ------------------------------------------------------------------------------------
    def oblige(self, st, name, f, kind="post", timeout=10000, props=None):
        if props is not None and self.pid not in props:
            st.assume(f)
            return True
        if self.pid is not None and props is None and kind == "lock" and self.pid not in self.LOCKPROPS:
            st.assume(f)
            return True
        return Ex.oblige(self, st, name, f, kind, timeout)

    LOCKPROPS = ()

    # ---- sorts and values --------------------------------------------------------------------------------------------
    def sort_of(self, t):
        if t.kind == "rec":
            if t.name == "std::function":
                return FN
            if t.name.startswith("std::chrono::") or t.name in ("std::thread::id",):
                return I
        return Ex.sort_of(self, t)

    def wrap(self, t, term):
        if t.kind == "rec" and t.name == "std::function":
            return UFn(term, "std::function")
        return Ex.wrap(self, t, term)

    def fresh(self, t, hint="v", st=None):
        if t.kind == "rec" and t.name == "std::function":
            return UFn(z3.Const(fresh_name(hint), FN), t.name)
        if t.kind == "rec" and (t.name.startswith("std::chrono::") or t.name == "std::thread::id"):
            return z3.Int(fresh_name(hint))
        if t.kind == "rec" and t.name == "std::thread":
            return SV("std::thread", {"id": z3.Int(fresh_name(hint))})
        return Ex.fresh(self, t, hint, st)

    def default_value(self, st, t):
        if t.kind == "rec":
            if t.name.startswith("std::chrono::"):
                return z3.IntVal(0)
            if t.name == "std::thread":
                return SV("std::thread", {"id": END})
            if t.name in MAPS:
                return self.empty_map(st, None, t)
            if t.name in locks.MUTEXES:
                return Obj("mutex", id=(fresh_name("mutex"),))
            if t.name.startswith("std::condition_variable"):
                return Obj("cv")
            if t.name in MITS:
                return END
        return Ex.default_value(self, st, t)

    def take(self, st, v):
        return self.rv(st, v)

    def dur(self, st, x):
        v = self.rv(st, x)
        if not isinstance(v, z3.ArithRef):
            raise Unsupported("time value expected: %r" % (v,))
        return v

    def c_dur(self, ex, st, t, vs, e):
        yield st, (self.dur(st, vs[0]) if vs else z3.IntVal(0))

    def c_value(self, ex, st, t, vs, e):
        yield st, (self.rv(st, vs[0]) if vs else END)

    def v_assign(self, ex, st, o, vs, e, ot):
        self.store(st, o, self.rv(st, vs[0]))
        yield st, o

    def aug(self, st, o, vs, sg):
        self.store(st, o, self.dur(st, o) + sg * self.dur(st, vs[0]))
        yield st, o

    def c_pair(self, ex, st, t, vs, e):
        if len(vs) == 1:
            yield st, self.rv(st, vs[0])
            return
        yield st, self.pair(self.rv(st, vs[0]), self.rv(st, vs[1]))

    def pair(self, a, b):
        return SV("pair", {"first": a, "second": b})

    # a callable object becomes a term; a lambda is remembered under its term so that it can be run where it is called
    def fterm(self, st, v):
        v = self.rv(st, v)
        while isinstance(v, LV):
            v = self.load(st, v)
        if isinstance(v, UFn):
            return v.term
        if isinstance(v, Clo):
            t = z3.Const(fresh_name("closure"), FN)
            st.ghost["closures"] = st.ghost.get("closures", ()) + ((t, v),)
            return t
        if z3.is_expr(v) and v.sort() == FN:
            return v
        raise Unsupported("callable expected: %r" % (v,))

    def c_function(self, ex, st, t, vs, e):
        if not vs:
            raise Unsupported("empty std::function")
        v = UFn(self.fterm(st, vs[0]), "std::function")
        if isinstance(vs[0], LV) and "&&" in ((e or {}).get("ctorType") or {}).get("qualType", "") and isinstance(self.rv(st, vs[0]), UFn):
            self.store(st, vs[0], self.fresh(t, "moved_from"))
        yield st, v

    def fn_assign(self, ex, st, o, vs, e, ot):
        self.store(st, o, UFn(self.fterm(st, vs[0]), "std::function"))
        yield st, o

    def run_task(self, ex, st, f, vs, e):
        return None

    # ---- clock -------------------------------------------------------------------------------------------------------
    def f_now(self, ex, st, vs, e):
        t = z3.Int(fresh_name("now"))
        st.assume(t >= self.G(st, "clock"))
        self.setG(st, clock=t)
        st.ghost["readings"] = st.ghost.get("readings", ()) + (t,)
        yield st, t

    # ---- ghost -------------------------------------------------------------------------------------------------------
    def G(self, st, k):
        return st.mem[GHOST].fields[k]

    def setG(self, st, **kw):
        g = st.mem[GHOST]
        for k, v in kw.items():
            g = g.with_(k, z3.simplify(v) if z3.is_expr(v) else v)
        st.mem[GHOST] = g

    # ---- the monitor object ------------------------------------------------------------------------------------------
    def record(self):
        rs = [r for r in self.ast.by_id.values() if r.get("kind") == "CXXRecordDecl" and r.get("name") == self.CLASS.split("::")[-1]
              and any(c.get("kind") == "FieldDecl" for c in r.get("inner", ()))]
        if not rs:
            raise Unsupported("class %s not found" % self.CLASS)
        return rs[0]

    def fields(self):
        if not hasattr(self, "_fields"):
            self._fields = [(c["name"], type_of(c)) for c in self.record()["inner"] if c.get("kind") == "FieldDecl"]
        return self._fields

    def method(self, name, npar=None, kind=None, sig=None):
        out = []
        for c in self.record()["inner"]:
            if kind and c.get("kind") != kind:
                continue
            if not kind and c.get("name") != name:
                continue
            if npar is not None and len(params_of(c)) != npar:
                continue
            if sig and sig not in c.get("type", {}).get("qualType", ""):
                continue
            d = self.ast.decl(c["id"])
            b = c if body_of(c) is not None else d
            if body_of(b) is None:
                continue
            out.append(b)
        if not out:
            raise Unsupported("no body for %s::%s" % (self.CLASS, name))
        return out

    def scope_cells(self, st):
        return [c for c in Ex.scope_cells(self, st) if not self.is_obj(st, c)]

    def is_obj(self, st, cell):
        v = st.mem.get(cell)
        return isinstance(v, SV) and v.name == self.CLASS

    def protected(self, name):
        t = dict(self.fields()).get(name)
        return t is not None and t.name not in locks.MUTEXES and not t.name.startswith("std::condition_variable") and not t.name.startswith("std::atomic")

    def leafs(self, t):
        """flattens a mapped type: list of (path, type)"""
        if t.kind in ("int", "bool") or (t.kind == "rec" and (t.name == "std::function" or t.name in self.ENUMS or t.name.startswith("std::chrono::"))):
            return [((), t)]
        if t.kind == "rec" and t.name == "std::thread":
            return [(("id",), parse_type("long"))]
        if t.kind == "rec" and t.name == "std::pair":
            return [(("first",) + p, x) for p, x in self.leafs(t.args[0])] + [(("second",) + p, x) for p, x in self.leafs(t.args[1])]
        r = self.find_record(t, "")
        if r is None:
            raise Unsupported("mapped type %r" % (t,))
        out = []
        for c in r.get("inner", ()):
            if c.get("kind") == "FieldDecl":
                out += [((c["name"],) + p, x) for p, x in self.leafs(type_of(c))]
        return out

    def map_info(self, name, t):
        name = repr_type(t)
        if name in self.info:
            return self.info[name]
        kt = t.args[0]
        ls = self.leafs(t.args[1])
        i = {"type": t, "multi": t.name == "std::multimap", "leafs": ls, "key": kt, "name": name}
        cmp_ = t.args[2] if len(t.args) > 2 else parse_type("std::less<%s>" % "x")
        a, b = z3.Ints("cmp_a cmp_b")
        if cmp_.name == "std::less":
            i["lt"] = lambda x, y: x < y
        elif cmp_.name == "std::greater":
            i["lt"] = lambda x, y: x > y
        elif self.find_record(cmp_, "") is not None:
            s = St()
            s.mem[GHOST] = SV("$ghost", {"clock": z3.IntVal(0)})
            # the comparator's own code decides the order
            s.assume(z3.And(self.range_of(a, kt) if kt.kind == "int" else TRUE, self.range_of(b, kt) if kt.kind == "int" else TRUE))
            term = self.apply_pure(s, SV(cmp_.name, {}), cmp_, [a, b])
            i["lt"] = lambda x, y: z3.substitute(term, (a, x), (b, y))
        else:
            raise Unsupported("comparator %r" % (cmp_,))
        self.info[name] = i
        return i

    def new_map(self, st, name, t):
        i = self.map_info(name, t)
        f = {"dom": z3.Const(fresh_name("dom_" + name), arr(B)), "key": z3.Const(fresh_name("key_" + name), arr(I)),
             "seq": z3.Const(fresh_name("seq_" + name), arr(I)), "size": z3.Int(fresh_name("size_" + name))}
        for p, x in i["leafs"]:
            f["v:" + ".".join(p)] = f["o:" + ".".join(p)] = z3.Const(fresh_name("val_" + name), arr(self.sort_of(x)))
        v = SV("nmap:" + i["name"], f)
        self.map_facts(st, v)
        return v

    def empty_map(self, st, name, t):
        v = self.new_map(st, name or "map", t)
        f = dict(v.fields)
        f["dom"], f["size"] = z3.K(I, FALSE), z3.IntVal(0)
        return SV(v.name, f)

    def inf(self, v):
        if not (isinstance(v, SV) and v.name.startswith("nmap:")):
            raise Unsupported("map expected, got %r" % (v,))
        return self.info[v.name[5:]]

    def map_facts(self, st, v):
        """what holds of every map (finite, sized, no duplicate keys in a plain map)"""
        i, f = self.inf(v), v.fields
        d, k, n = f["dom"], f["key"], f["size"]
        x, y = z3.Ints("x y")
        w = z3.Int(fresh_name("w"))
        st.assume(z3.And(n >= 0, n < (1 << 62), z3.Not(d[END])))
        st.assume(forall([x], z3.Implies(d[x], z3.And(x > 0, n >= 1)), patterns=[d[x]]))
        st.assume(z3.Implies(n > 0, d[w]))
        st.assume(forall([x, y], z3.Implies(z3.And(d[x], d[y], x != y), z3.And(f["seq"][x] != f["seq"][y], n >= 2)), patterns=[z3.MultiPattern(d[x], d[y])]))
        if i["key"].kind == "int":
            st.assume(forall([x], self.range_of(k[x], i["key"]), patterns=[k[x]]))
        if not i["multi"]:       # a node is named by its key
            st.assume(forall([x], z3.Implies(d[x], k[x] == x), patterns=[d[x]]))

    def build(self, i, f, n, pre="v:"):
        ls = i["leafs"]
        if len(ls) == 1 and ls[0][0] == ():
            return self.wrap(ls[0][1], f[pre][n])
        root = {}
        for p, x in ls:
            d = root
            for q in p[:-1]:
                d = d.setdefault(q, {})
            d[p[-1]] = self.wrap(x, f[pre + ".".join(p)][n])

        def mk(d, nm):
            return SV(nm, {k: (mk(v, "pair") if isinstance(v, dict) else v) for k, v in d.items()})
        nm = i["type"].args[1].name
        return mk(root, "pair" if nm == "std::pair" else nm)

    def leaf_terms(self, st, i, v):
        out = {}
        for p, x in i["leafs"]:
            y = v
            for q in p:
                if not isinstance(y, SV):
                    raise Unsupported("mapped value %r" % (y,))
                y = y.fields[q]
            out["v:" + ".".join(p)] = self.fterm(st, y) if x.name == "std::function" else self.rv(st, y)
        return out

    def elem(self, st, v, n):
        if isinstance(v, SV) and v.name.startswith("nmap:"):
            i = self.inf(v)
            return self.pair(v.fields["key"][n], self.build(i, v.fields, n))
        return Ex.elem(self, st, v, n)

    def _upd(self, st, v, path, val):
        if path and not isinstance(path[0], str) and isinstance(v, SV) and v.name.startswith("nmap:"):
            n, i = path[0][1], self.inf(v)
            nv = Ex._upd(self, st, self.elem(st, v, n), path[1:], val)
            f = dict(v.fields)
            for k, t in self.leaf_terms(st, i, nv.fields["second"]).items():
                if not z3.eq(z3.simplify(t), z3.simplify(f[k][n])):
                    f[k] = z3.Store(f[k], n, t)
            return SV(v.name, f)
        return Ex._upd(self, st, v, path, val)

    # ---- containers --------------------------------------------------------------------------------------------------
    def c_map(self, ex, st, t, vs, e):
        if vs:
            raise Unsupported("map constructor")
        yield st, self.empty_map(st, None, t)

    def mapv(self, st, o):
        v = self.rv(st, o)
        self.inf(v)
        return v

    def itn(self, st, o):
        v = self.rv(st, o)
        if isinstance(v, SV) and v.name == "mapit":
            return v.fields["n"]
        if isinstance(v, z3.ArithRef):
            return v
        raise Unsupported("map iterator expected: %r" % (v,))

    def mkit(self, o, n):
        if not isinstance(o, LV):
            raise Unsupported("iterator into a temporary")
        return SV("mapit", {"n": n, "c": o})

    def n_size(self, ex, st, o, vs, e, ot):
        yield st, self.mapv(st, o).fields["size"]

    def n_empty(self, ex, st, o, vs, e, ot):
        yield st, self.mapv(st, o).fields["size"] == 0

    def n_end(self, ex, st, o, vs, e, ot):
        self.mapv(st, o)
        yield st, self.mkit(o, END)

    def before(self, i, f, x, y):
        """x stands before y in the map"""
        kx, ky = f["key"][x], f["key"][y]
        if not i["multi"]:
            return x < y if i["type"].args[0].name == "std::thread::id" else i["lt"](kx, ky)
        return z3.Or(i["lt"](kx, ky), z3.And(z3.Not(i["lt"](ky, kx)), f["seq"][x] < f["seq"][y]))

    def first(self, st, v):
        i, f = self.inf(v), v.fields
        x = z3.Int("x")
        b = z3.Int(fresh_name("first"))
        st.assume(z3.If(f["size"] == 0, b == END, f["dom"][b]))
        st.assume(forall([x], z3.Implies(z3.And(f["dom"][x], x != b), self.before(i, f, b, x)), patterns=[f["dom"][x]]))
        return b

    def n_begin(self, ex, st, o, vs, e, ot):
        yield st, self.mkit(o, self.first(st, self.mapv(st, o)))

    def n_find(self, ex, st, o, vs, e, ot):
        v = self.mapv(st, o)
        if self.inf(v)["multi"]:
            raise Unsupported("multimap::find")
        k = self.rv(st, vs[0])
        yield st, self.mkit(o, z3.If(v.fields["dom"][k], k, END))

    def n_count(self, ex, st, o, vs, e, ot):
        v = self.mapv(st, o)
        if self.inf(v)["multi"]:
            raise Unsupported("multimap::count")
        yield st, z3.If(v.fields["dom"][self.rv(st, vs[0])], z3.IntVal(1), z3.IntVal(0))

    def n_contains(self, ex, st, o, vs, e, ot):
        v = self.mapv(st, o)
        if self.inf(v)["multi"]:
            raise Unsupported("multimap::contains")
        yield st, v.fields["dom"][self.rv(st, vs[0])]

    def n_clear(self, ex, st, o, vs, e, ot):
        raise Unsupported("map::clear")

    def n_at(self, ex, st, o, vs, e, ot):
        raise Unsupported("map::at")

    def add(self, st, o, k, val, hint=None):
        """adds a node; yields (state, node). In a multimap it goes behind the nodes with its key, or as close as possible before the hint"""
        v = self.mapv(st, o)
        i, f = self.inf(v), dict(v.fields)
        x = z3.Int("x")
        if i["multi"]:
            n = z3.Int(fresh_name("node"))
            st.assume(z3.And(n > 0, z3.Not(f["dom"][n])))
        else:
            n = k
            if self.entails(st, f["dom"][k]):
                yield st, n, False
                return
            if not self.entails(st, z3.Not(f["dom"][k])):
                s2 = st.fork()
                s2.assume(f["dom"][k])
                yield s2, n, False
                st.assume(z3.Not(f["dom"][k]))
        q = z3.Int(fresh_name("seq"))
        if i["multi"] and hint is not None and not z3.is_true(z3.simplify(hint == END)):
            same = z3.And(z3.Not(i["lt"](f["key"][x], k)), z3.Not(i["lt"](k, f["key"][x])))
            ahead = z3.Or(hint == END, self.before(i, f, x, hint))
            st.assume(forall([x], z3.Implies(f["dom"][x], z3.And(f["seq"][x] != q, z3.Implies(same, ahead == (f["seq"][x] < q)))), patterns=[f["dom"][x]]))
        else:
            st.assume(forall([x], z3.Implies(f["dom"][x], f["seq"][x] < q), patterns=[f["dom"][x]]))
        terms = self.leaf_terms(st, i, val(st))
        f["dom"], f["key"], f["seq"] = z3.Store(f["dom"], n, TRUE), z3.Store(f["key"], n, k), z3.Store(f["seq"], n, q)
        f["size"] = z3.simplify(f["size"] + 1)
        for kk, t in terms.items():
            f[kk], f["o" + kk[1:]] = z3.Store(f[kk], n, t), z3.Store(f["o" + kk[1:]], n, t)
        nv = SV(v.name, f)
        self.adding = (n, k, terms)
        self.store(st, o, nv)
        self.adding = None
        yield st, n, True

    adding = erasing = None

    def moved(self, st, v, t):
        """the value an element constructed from v takes over (moving empties a thread)"""
        x = self.rv(st, v)
        if isinstance(x, SV) and x.name == "std::thread" and isinstance(v, LV):
            self.store(st, v, SV("std::thread", {"id": END}))
        return x

    def n_emplace_hint(self, ex, st, o, vs, e, ot):
        if not vs:
            raise Unsupported("emplace_hint")
        h = self.itn(st, vs[0])
        for s, it in self.n_emplace(ex, st, o, vs[1:], e, ot, hint=h):
            yield s, (it.fields["first"] if isinstance(it, SV) and it.name == "pair" else it)

    def n_emplace(self, ex, st, o, vs, e, ot, hint=None):
        t = self.inf(self.mapv(st, o))["type"].args[1]
        if len(vs) == 2:
            k = self.rv(st, vs[0])
            for s, n, new in self.add(st, o, k, lambda s: self.moved(s, vs[1], t), hint):
                it = self.mkit(o, n)
                yield s, (it if self.inf(self.mapv(s, o))["multi"] else self.pair(it, z3.BoolVal(new)))
            return
        if len(vs) == 1:
            p = self.rv(st, vs[0])
            if isinstance(p, SV) and p.name == "pair":
                for s, n, new in self.add(st, o, p.fields["first"], lambda s: p.fields["second"], hint):
                    it = self.mkit(o, n)
                    yield s, (it if self.inf(self.mapv(s, o))["multi"] else self.pair(it, z3.BoolVal(new)))
                return
        raise Unsupported("map::emplace")

    def n_insert(self, ex, st, o, vs, e, ot):
        if len(vs) == 2:
            yield from self.n_emplace_hint(ex, st, o, vs, e, ot)
            return
        if len(vs) != 1:
            raise Unsupported("map::insert")
        yield from self.n_emplace(ex, st, o, vs, e, ot)

    def n_index(self, ex, st, o, vs, e, ot):
        v = self.mapv(st, o)
        k = self.rv(st, vs[0])
        for s, n, new in self.add(st, o, k, lambda s: self.default_value(s, self.inf(v)["type"].args[1])):
            yield s, LV(o.cell, o.path + (("at", n), "second"))

    def n_erase(self, ex, st, o, vs, e, ot):
        v = self.mapv(st, o)
        i, f = self.inf(v), dict(v.fields)
        a = self.rv(st, vs[0])
        if len(vs) != 1:
            raise Unsupported("map::erase of a range")
        if not (isinstance(a, SV) and a.name == "mapit"):
            if i["multi"] or not self.entails(st, f["dom"][a]):
                raise Unsupported("map::erase by key")
            n = a
        else:
            n = a.fields["n"]
        self.oblige(st, "erased-node-is-in-the-map", f["dom"][n], "safety")
        nx = self.following(st, v, n)
        f["dom"], f["size"] = z3.Store(f["dom"], n, FALSE), z3.simplify(f["size"] - 1)
        nv = SV(v.name, f)
        w = z3.Int(fresh_name("w"))
        st.assume(z3.Implies(f["size"] > 0, f["dom"][w]))
        self.erasing = n
        self.store(st, o, nv)
        self.erasing = None
        yield st, (self.mkit(o, nx) if isinstance(a, SV) else z3.IntVal(1))

    def following(self, st, v, n):
        i, f = self.inf(v), v.fields
        x = z3.Int("x")
        p = z3.Int(fresh_name("next"))
        st.assume(z3.Or(p == END, z3.And(f["dom"][p], self.before(i, f, n, p))))
        st.assume(forall([x], z3.Implies(z3.And(f["dom"][x], self.before(i, f, n, x), x != p), z3.And(p != END, self.before(i, f, p, x))), patterns=[f["dom"][x]]))
        return p

    def i_deref(self, ex, st, o, vs, e, ot):
        it = self.rv(st, o)
        if not (isinstance(it, SV) and it.name == "mapit"):
            raise Unsupported("map iterator expected")
        lv, n = it.fields["c"], it.fields["n"]           # only the node is touched, when what it holds is read or written
        self.oblige(st, "map-iterator-dereferenceable", self.peek(st, lv).fields["dom"][n], "safety")
        yield st, lv.at(n)

    def i_arrow(self, ex, st, o, vs, e, ot):
        for s, lv in self.i_deref(ex, st, o, vs, e, ot):
            yield s, PtrV(FALSE, lv, None)

    def i_next(self, ex, st, o, vs, e, ot):
        it = self.rv(st, o)
        lv, n = it.fields["c"], it.fields["n"]
        self.access(st, lv, False)
        v = self.peek(st, lv)
        self.oblige(st, "incremented-iterator-is-dereferenceable", v.fields["dom"][n], "safety")
        new = self.mkit(lv, self.following(st, v, n))
        self.store(st, o, new)
        yield st, (it if vs else o)

    def preceding(self, st, v, n):
        """the node before n (END: the last one)"""
        i, f = self.inf(v), v.fields
        x = z3.Int("x")
        p = z3.Int(fresh_name("prev"))
        self.oblige(st, "decremented-iterator-has-a-predecessor", z3.If(n == END, f["size"] > 0, z3.Exists([x], z3.And(f["dom"][x], self.before(i, f, x, n)))), "safety")
        st.assume(z3.And(f["dom"][p], z3.Or(n == END, self.before(i, f, p, n))))
        st.assume(forall([x], z3.Implies(z3.And(f["dom"][x], x != p, z3.Or(n == END, self.before(i, f, x, n))), self.before(i, f, x, p)), patterns=[f["dom"][x]]))
        return p

    def i_prev(self, ex, st, o, vs, e, ot):
        it = self.rv(st, o)
        lv, n = it.fields["c"], it.fields["n"]
        self.access(st, lv, False)
        self.store(st, o, self.mkit(lv, self.preceding(st, self.peek(st, lv), n)))
        yield st, (it if vs else o)

    def i_far(self, st, vs, back):
        it = self.rv(st, vs[0])
        if not (isinstance(it, SV) and it.name == "mapit") or (len(vs) > 1 and not (z3.is_int_value(z3.simplify(self.rv(st, vs[1]))) and z3.simplify(self.rv(st, vs[1])).as_long() == 1)):
            raise Unsupported("std::next/prev")
        lv, n = it.fields["c"], it.fields["n"]
        self.access(st, lv, False)
        v = self.peek(st, lv)
        if not back:
            self.oblige(st, "incremented-iterator-is-dereferenceable", v.fields["dom"][n], "safety")
        yield st, self.mkit(lv, self.preceding(st, v, n) if back else self.following(st, v, n))

    def havoc_value(self, st, old, new, name):
        ref = old if old is not UNINIT else new
        if isinstance(ref, SV) and ref.name == "mapit":
            if isinstance(new, SV) and new.name == "mapit" and not new.fields["c"].same(ref.fields["c"]):
                raise Unsupported("iterator changes container in loop")
            return SV("mapit", {"n": z3.Int(fresh_name("h_it")), "c": ref.fields["c"]})
        v = Ex.havoc_value(self, st, old, new, name)
        if isinstance(v, SV) and v.name.startswith("nmap:") and v.fields["dom"] is not ref.fields["dom"]:
            self.map_facts(st, v)
        return v

    # ---- access control ----------------------------------------------------------------------------------------------
    def peek(self, st, lv):
        """reads without the access being the code's own"""
        return Ex.load(self, st, lv)

    def load(self, st, lv):
        if isinstance(lv, LV) and lv.path and self.is_obj(st, lv.cell):
            self.access(st, lv, False)
        return Ex.load(self, st, lv)

    def store(self, st, lv, val):
        if isinstance(lv, LV) and lv.path and self.is_obj(st, lv.cell):
            self.access(st, lv, True)
            old = st.mem[lv.cell]
            Ex.store(self, st, lv, val)
            self.changed(st, lv, old, st.mem[lv.cell])
            return
        Ex.store(self, st, lv, val)

    def access(self, st, lv, write):
        pass

    def changed(self, st, lv, old, new):
        pass

    def on_acquire(self, ex, st, k, mode):
        pass

    def on_release(self, ex, st, k, mode):
        pass

    # ---- condition variables -----------------------------------------------------------------------------------------
    def cv_name(self, o):
        if not (isinstance(o, LV) and o.path and isinstance(o.path[-1], str)):
            raise Unsupported("condition variable")
        return o.path[-1]

    def cv_notify(self, st, o, all_):
        self.notified(st, self.cv_name(o), all_)
        yield st, VOID

    def notified(self, st, name, all_):
        pass

    def lock_of(self, st, l):
        o = self.rv(st, l)
        if not (isinstance(o, Obj) and o.tname == "lockobj"):
            raise Unsupported("wait without a lock object")
        self.oblige(st, "wait-with-its-lock-held", z3.BoolVal(bool(o.owned) and len(o.ks) == 1), "lock")
        if not o.owned or len(o.ks) != 1:
            raise Unsupported("wait with a lock not owned")
        return o

    def sleep(self, st, o, l, timed=None):
        """one wait: release, let the others run, acquire again"""
        lo = self.lock_of(st, l)
        self.waiting(st, self.cv_name(o), timed)
        for k in lo.ks:
            locks.release(self, st, k)
        for k in lo.ks:
            locks.acquire(self, st, k, lo.mode)
        self.woken(st, self.cv_name(o), timed)

    def waiting(self, st, name, timed):
        pass

    def woken(self, st, name, timed):
        pass

    def pred(self, st, p, want):
        """states in which the predicate has the wanted value"""
        for s, v in self.call_value(st, self.rv(st, p), [], {"type": {"qualType": "bool"}, "kind": "x"}):
            if s.thrown:
                raise Unsupported("throwing predicate")
            for s2, b in self.branch(s, v):
                if b == want:
                    yield s2

    def cv_wait(self, ex, st, o, vs, e, ot):
        if len(vs) == 1:
            self.sleep(st, o, vs[0])
            yield st, VOID
            return
        for s in self.pred(st.fork(), vs[1], True):
            yield s, VOID
        for s in self.pred(st, vs[1], False):
            self.sleep(s, o, vs[0])
            for s2 in self.pred(s, vs[1], True):
                yield s2, VOID

    TIMEOUT = "enum:std::cv_status::timeout"

    def status(self, t):
        s = opaque_sort(t)
        return z3.Const("enum:std::cv_status::timeout", s), z3.Const("enum:std::cv_status::no_timeout", s)

    def cv_wait_until(self, ex, st, o, vs, e, ot):
        dl = self.dur(st, vs[1])
        if len(vs) == 2:
            self.sleep(st, o, vs[0], dl)
            to, no = self.status("std::cv_status")
            st.assume(to != no)
            s2 = st.fork()
            s2.assume(self.G(s2, "clock") >= dl)
            yield s2, to
            yield st, no
            return
        for s in self.pred(st.fork(), vs[2], True):
            yield s, TRUE
        for s in self.pred(st, vs[2], False):
            self.sleep(s, o, vs[0], dl)
            s3 = s.fork()
            for s2 in self.pred(s, vs[2], True):
                yield s2, TRUE
            s3.assume(self.G(s3, "clock") >= dl)
            for s2 in self.pred(s3, vs[2], False):
                yield s2, FALSE

    def cv_wait_for(self, ex, st, o, vs, e, ot):
        for s, t in self.f_now(ex, st, [], e):
            v = s.new(t + self.dur(s, vs[1]), "deadline")
            yield from self.cv_wait_until(ex, s, o, [vs[0], v] + list(vs[2:]), e, ot)
