"""K01 (scope.hpp) and W01 (stopwatch.hpp)."""
import z3
from ..ast import Ast, parse_type, type_of
from ..engine import Ex, opaque_sort, repr_type
from ..sym import *
from ..contract import Contract
from ..iters import IterEx, INT
from .. import solve
from .algo import call

FN = opaque_sort("task")
SEQF = z3.SeqSort(FN)
STDS = ["c++20", "c++17", "c++14"]


# ---- K01 ------------------------------------------------------------------------------------------------------------
class TaskEx(IterEx):
    """std::stack<std::function<void()>> as an array with a height; calling a task appends it to a ghost trace and may throw"""

    def __init__(self, ast, contract=None, budget=200.0):
        IterEx.__init__(self, ast, contract, budget)
        M, C, F = self.methods, self.ctors, self.funcs
        self.filled = z3.Function("filled", FN, z3.BoolSort())
        C["std::stack"] = C["std::vector"] = C["std::deque"] = self.c_stack
        C["std::function"] = lambda ex, st, t, vs, e: self.one(st, self.rv(st, vs[0]) if vs else z3.Const("empty_task", FN))
        for n in ("std::stack", "std::vector", "std::deque"):
            for m in ("push", "push_back", "emplace", "emplace_back"):
                M[(n, m)] = self.m_push
            for m in ("pop", "pop_back"):
                M[(n, m)] = self.k_pop
            for m in ("top", "back"):
                M[(n, m)] = self.k_top
            M[(n, "size")] = lambda ex, st, o, vs, e, ot: self.one(st, self.rv(st, o).n)
        M[("std::function", "operator bool")] = lambda ex, st, o, vs, e, ot: self.one(st, self.filled(self.fn(st, o)))
        M[("std::function", "operator()")] = self.k_call
        M[("std::function", "operator=")] = self.o_assign
        F["uncaught_exceptions"] = lambda ex, st, vs, e: self.one(st, st.mem["inflight"])
        F["uncaught_exception"] = lambda ex, st, vs, e: self.one(st, st.mem["inflight"] != 0)
        F["move"] = F["forward"] = lambda ex, st, vs, e: self.one(st, vs[0])

    def sort_of(self, t):
        if t.kind == "rec" and t.name == "std::function":
            return FN
        return IterEx.sort_of(self, t)

    def default_value(self, st, t):
        if t.kind == "rec" and t.name in ("std::stack", "std::vector", "std::deque"):
            return ArrV(z3.Const("nothing", z3.ArraySort(INT, FN)), z3.IntVal(0), parse_type("std::function"))
        if t.kind == "rec" and t.name == "std::function":
            return z3.Const("empty_task", FN)
        return IterEx.default_value(self, st, t)

    def fn(self, st, o):
        """the task behind a (possibly nested) reference"""
        v = self.rv(st, o)
        for _ in range(4):
            if isinstance(v, LV):
                v = self.load(st, v)
        if isinstance(v, UFn):
            v = v.term
        if not z3.is_expr(v) or v.sort() != FN:
            raise Unsupported("task expected: %r" % (v,))
        return v

    def c_stack(self, ex, st, t, vs, e):
        if vs and not isinstance(self.rv(st, vs[0]), ArrV):
            raise Unsupported("stack constructor")
        yield st, (self.rv(st, vs[0]) if vs else self.default_value(st, t))

    def k_pop(self, ex, st, o, vs, e, ot):
        c = self.cell(st, o)
        v = self.load(st, c)
        self.oblige(st, "pop-of-a-non-empty-stack", v.n > 0, "safety")
        self.store(st, c, ArrV(v.arr, z3.simplify(v.n - 1), v.et))
        yield st, VOID

    def k_top(self, ex, st, o, vs, e, ot):
        c = self.cell(st, o)
        v = self.load(st, c)
        self.oblige(st, "top-of-a-non-empty-stack", v.n > 0, "safety")
        yield st, c.at(z3.simplify(v.n - 1))

    def k_call(self, ex, st, o, vs, e, ot):
        f = self.fn(st, o)
        self.oblige(st, "only-filled-tasks-are-called", self.filled(f), "pre")
        st.mem["trace"] = self.RAN(st.mem["trace"], f)
        s2 = st.fork()
        s2.thrown = "anything"
        yield st, VOID
        yield s2, None


class Trace(Contract):
    runs = ()

    def invariants(self, ex, st, mod, idx):
        out = []
        for f in self.runs:
            out += f(ex, st, mod, idx)
        return out


KTXT = r'''
#include <pluto/scope.hpp>
#include <type_traits>
namespace pluto_vp {
void dtor(pluto::%(C)s& g) { g.~%(C)s(); }
void add(pluto::%(C)s& g, const std::function<void()>& f) { g.add(f); }
void c0() { pluto::%(C)s g; }
pluto::%(C)s* cn() { return new pluto::%(C)s(); }
pluto::%(C)s* c1(const std::function<void()>& f) { return new pluto::%(C)s(f); }
char dup_cc[1 + std::is_copy_constructible<pluto::%(C)s>::value];
char dup_as[1 + (std::is_copy_assignable<pluto::%(C)s>::value || std::is_move_assignable<pluto::%(C)s>::value)];
}
'''
GUARDS = {"on_scope_exit": lambda u: z3.BoolVal(True), "on_scope_success": lambda u: u == 0, "on_scope_fail": lambda u: u > 0}


def k01(r, C, std):
    c = Trace(C)
    ex = TaskEx(Ast.load(KTXT % {"C": C}, std), c)
    TR = opaque_sort("Trace")
    ex.RAN = ex.uf("ran", TR, FN, TR)
    A = z3.Const("tasks", z3.ArraySort(INT, FN))
    n, u = z3.Int("n"), z3.Int("inflight")
    st = St()
    st.assume(z3.And(0 <= n, n <= (1 << 62), 0 <= u, u <= 1000))
    t0 = z3.Const("before", TR)
    st.mem["trace"] = t0
    st.mem["inflight"] = u
    st.mem["g"] = SV("pluto::" + C, {"m_tasks": ArrV(A, n, parse_type("std::function"))})
    st.mem["f"] = z3.Const("f", FN)
    ex.axioms.append(z3.Not(ex.filled(z3.Const("empty_task", FN))))
    # DOWN(t, i): the trace t followed by the filled tasks i-1, ..., 0
    DOWN = z3.Function("DOWN", TR, INT, TR)

    def unf(t, i):
        im = z3.simplify(i - 1)
        x = z3.Select(A, im)
        return [DOWN(t, i) == z3.If(i <= 0, t, DOWN(z3.If(ex.filled(x), ex.RAN(t, x), t), im))]
    ex.specs.append(solve.RecSpec("DOWN", DOWN, unf))
    goal = DOWN(t0, n)

    def inv(ex, st, mod, idx):
        out = [("remaining tasks", lambda s: z3.And(0 <= s.mem["g"].fields["m_tasks"].n, s.mem["g"].fields["m_tasks"].n <= n)),
               ("the stack is a prefix of the tasks", lambda s: s.mem["g"].fields["m_tasks"].arr == A),
               ("trace so far", lambda s: DOWN(s.mem["trace"], s.mem["g"].fields["m_tasks"].n) == goal)]
        for nm, fi, m in idx:
            if m:
                out.append(("trace so far (%s)" % nm, lambda s, fi=fi: DOWN(s.mem["trace"], fi(s)) == goal))
        return out
    # once each: a task held by two guards runs twice, one that is assigned over never
    traits = {d["name"]: d["type"]["qualType"] for d in ex.ast.by_id.values() if d.get("kind") == "VarDecl" and d.get("name") in ("dup_cc", "dup_as")}
    own = any(d.get("kind") in ("CXXConstructorDecl", "CXXMethodDecl") and ex.ast.parent.get(i, {}).get("name") == C and
              (d.get("kind") == "CXXConstructorDecl" or d.get("name") == "operator=") and not d.get("explicitlyDefaulted") and not d.get("isImplicit")
              and any(q.get("kind") == "ParmVarDecl" and C in str(q.get("type")) for q in d.get("inner", ()))
              and any(q.get("kind") == "CompoundStmt" for q in d.get("inner", ())) for i, d in ex.ast.by_id.items())
    for nm, what in (("dup_cc", "copying"), ("dup_as", "assigning")):
        no = traits.get(nm) == "char[1]"
        if not no and own:
            raise Unsupported("%s can be copied or assigned by functions of its own" % C)
        ex.oblige(st, "no task is duplicated or lost by %s a %s" % (what, C), z3.BoolVal(no))
    c.runs = [inv]
    cond = GUARDS[C](u)
    for s, v in call(ex, st.fork(), "dtor", [LV("g")]):
        ex.oblige(s, "post:destroying %s runs the filled tasks once each in reverse order, exactly on the right exit" % C,
                  s.mem["trace"] == z3.If(cond, goal, t0))
    c.runs = []
    for s, v in call(ex, st.fork(), "add", [LV("g"), LV("f")]):
        k = s.mem["g"].fields["m_tasks"]
        ex.oblige(s, "post:add appends the task", z3.And(k.n == n + 1, z3.Select(k.arr, n) == st.mem["f"]))
        j = z3.Int("j")
        ex.oblige(s, "post:add keeps the earlier tasks", z3.ForAll([j], z3.Implies(z3.And(0 <= j, j < n), z3.Select(k.arr, j) == z3.Select(A, j))))
        ex.oblige(s, "post:add runs nothing", s.mem["trace"] == t0)
    for fn, args, want in (("cn", [], 0), ("c1", [LV("f")], 1)):
        for s, v in call(ex, st.fork(), fn, args):
            p = ex.rv(s, v)
            k = ex.load(s, p.base).fields["m_tasks"]
            ex.oblige(s, "post:a new guard holds exactly the given task", k.n == want)
            if want:
                ex.oblige(s, "post:a new guard holds the given task", z3.Select(k.arr, 0) == st.mem["f"])
            ex.oblige(s, "post:constructing runs nothing", s.mem["trace"] == t0)
    r.absorb(ex)


# ---- W01 ------------------------------------------------------------------------------------------------------------
UNITS = {"nanoseconds": 1, "microseconds": 10 ** 3, "milliseconds": 10 ** 6, "seconds": 10 ** 9, "minutes": 60 * 10 ** 9, "hours": 3600 * 10 ** 9}
PARTS = {"nanoseconds": 1000, "microseconds": 1000, "milliseconds": 1000, "seconds": 60, "minutes": 60, "hours": None}
WTXT = r'''
#include <pluto/stopwatch.hpp>
namespace pluto_vp {
typedef pluto::stopwatch W;
W* c0() { return new W(); }
W* c1(bool b) { return new W(b); }
void start(W& w) { w.start(); }
void stop(W& w) { w.stop(); }
void reset(W& w) { w.reset(); }
void restart(W& w) { w.restart(); }
auto time(const W& w) { return w.time(); }
auto sat(W& w) { return w.stop_and_time(); }
bool running(const W& w) { return w.is_running(); }
%s
}
''' % "".join("auto in_%s(const W& w) { return w.in_%s(); }\nauto part_%s(const W& w) { return w.%s_part(); }\nauto cnt_%s(const W& w) { return w.count<std::chrono::%s>(); }\n"
              "auto roll_%s(const W& w, long long k) { return w.count<std::chrono::%s>(k); }\n" % ((u,) * 8) for u in UNITS)


class ClockEx(Ex):
    """std::chrono over nanosecond counts (mathematical integers); now() never goes back"""

    def __init__(self, ast, contract=None, budget=200.0):
        Ex.__init__(self, ast, "int", contract, budget)
        M, C, F = self.methods, self.ctors, self.funcs
        for n in ("std::chrono::duration", "std::chrono::time_point"):
            C[n] = self.c_dur
            M[(n, "count")] = lambda ex, st, o, vs, e, ot: iter([(st, self.ns(st, o))])
            M[(n, "time_since_epoch")] = M[(n, "count")]
            M[(n, "operator=")] = self.k_set
            M[(n, "operator+=")] = lambda ex, st, o, vs, e, ot: self.k_add(st, o, vs, 1)
            M[(n, "operator-=")] = lambda ex, st, o, vs, e, ot: self.k_add(st, o, vs, -1)
            for op in ("<", "<=", ">", ">=", "==", "!="):
                M[(n, "operator" + op)] = lambda ex, st, o, vs, e, ot, op=op: iter([(st, {
                    "<": lambda a, b: a < b, "<=": lambda a, b: a <= b, ">": lambda a, b: a > b, ">=": lambda a, b: a >= b,
                    "==": lambda a, b: a == b, "!=": lambda a, b: a != b}[op](self.ns(st, o), self.ns(st, vs[0])))])
        for n, sg in (("+", 1), ("-", -1)):
            M[("*", "operator" + n)] = lambda ex, st, o, vs, e, ot, sg=sg: iter([(st, self.ns(st, o) + sg * self.ns(st, vs[0]))])
        F["now"] = self.k_now
        F["zero"] = lambda ex, st, vs, e: iter([(st, z3.IntVal(0))])
        F["duration_cast"] = self.k_cast
        for n in ("operator+", "operator-"):
            F[n] = lambda ex, st, vs, e, sg=(1 if n[-1] == "+" else -1): iter([(st, self.ns(st, vs[0]) + sg * self.ns(st, vs[1]))])

    def sort_of(self, t):
        if t.kind == "rec" and t.name.startswith("std::chrono::"):
            return INT
        return Ex.sort_of(self, t)

    def default_value(self, st, t):
        if t.kind == "rec" and t.name.startswith("std::chrono::"):
            return z3.IntVal(0)
        return Ex.default_value(self, st, t)

    def ns(self, st, x):
        v = self.rv(st, x)
        if not (isinstance(v, z3.ArithRef)):
            raise Unsupported("duration expected: %r" % (v,))
        return v

    def c_dur(self, ex, st, t, vs, e):
        yield st, (self.ns(st, vs[0]) if vs else z3.IntVal(0))

    def k_set(self, ex, st, o, vs, e, ot):
        self.store(st, o, self.ns(st, vs[0]))
        yield st, o

    def k_add(self, st, o, vs, sg):
        self.store(st, o, self.ns(st, o) + sg * self.ns(st, vs[0]))
        yield st, o

    def k_now(self, ex, st, vs, e):
        t = z3.Int(fresh_name("now"))
        st.assume(z3.And(t >= st.mem["clock"], t <= (1 << 61)))
        st.mem["clock"] = t
        st.ghost["readings"] = st.ghost.get("readings", ()) + (t,)
        yield st, t

    def unit(self, t):
        q = t.args
        if t.name != "std::chrono::duration":
            raise Unsupported("duration_cast to %r" % (t,))
        num = den = 1
        if len(q) > 1:
            a = [int(str(x).rstrip("LlUu")) if str(x).lstrip("-").rstrip("LlUu").isdigit() else None for x in self.ratio(q[1])]
            if None in a or not a:
                raise Unsupported("ratio %r" % (q[1],))
            num, den = a[0], a[1] if len(a) > 1 else 1
        k = 10 ** 9 * num
        if k % den:
            raise Unsupported("unit below a nanosecond")
        return k // den

    def ratio(self, r):
        return [x.name if hasattr(x, "name") and x.name else repr(x) for x in r.args]

    def k_cast(self, ex, st, vs, e):
        v = self.ns(st, vs[0])
        k = self.unit(type_of(e))
        yield st, (v if k == 1 else z3.If(v >= 0, v / k, -((-v) / k)))


def w01(r, std):
    c = Contract("stopwatch")
    ex = ClockEx(Ast.load(WTXT, std), c)
    T0, S0, now = z3.Ints("time start now")
    run = z3.Bool("running")
    k = z3.Int("k")
    st = St()
    # invariant of the class: a running watch was started in the past
    st.assume(z3.And(0 <= T0, T0 <= (1 << 60), 0 <= now, now <= (1 << 60), 0 <= S0, S0 <= now, 1 <= k, k <= (1 << 62)))
    st.mem["clock"] = now
    st.mem["w"] = SV("pluto::stopwatch", {"m_time": T0, "m_start": S0, "m_isRunning": run})
    W = LV("w")
    t = z3.Int("t")

    def rep(w, t):
        """the time a watch in state w reports at clock reading t"""
        return z3.If(w.fields["m_isRunning"], w.fields["m_time"] + (t - w.fields["m_start"]), w.fields["m_time"])

    def post(s, what, f, need=True):
        """f(t0) for some clock reading t0 taken by the call"""
        rd = s.ghost.get("readings", ())
        g = z3.Or(*[f(x) for x in rd]) if rd else (z3.BoolVal(False) if need else None)
        if g is not None:
            ex.oblige(s, "post:" + what, g)

    def inv(s, w):
        f = w.fields
        ex.oblige(s, "invariant:a running watch was started in the past", z3.Implies(f["m_isRunning"], z3.And(f["m_start"] <= s.mem["clock"], 0 <= f["m_time"])))
    s0 = st.mem["w"]
    R0 = lambda t: rep(s0, t)
    for fn in ("start", "stop", "reset", "restart"):
        for s, v in call(ex, st.fork(), fn, [W]):
            w = s.mem["w"]
            inv(s, w)
            after = z3.ForAll([t], z3.Implies(t >= s.mem["clock"], z3.BoolVal(True)))
            rd = s.ghost.get("readings", ())
            if fn == "start":
                ex.oblige(s, "post:start leaves the watch running", w.fields["m_isRunning"])
                ex.oblige(s, "post:starting a running watch changes nothing", z3.Implies(run, rep(w, t) == R0(t)))
                ex.oblige(s, "post:start counts from the call on", z3.Or(run, z3.Or(*[rep(w, t) == T0 + (t - x) for x in rd]) if rd else z3.BoolVal(False)))
            elif fn == "stop":
                ex.oblige(s, "post:stop leaves the watch stopped", z3.Not(w.fields["m_isRunning"]))
                ex.oblige(s, "post:stopping a stopped watch changes nothing", z3.Implies(z3.Not(run), rep(w, t) == R0(t)))
                ex.oblige(s, "post:stop adds the running period", z3.Or(z3.Not(run), z3.Or(*[rep(w, t) == R0(x) for x in rd]) if rd else z3.BoolVal(False)))
            elif fn == "reset":
                ex.oblige(s, "post:reset stops at zero", z3.And(z3.Not(w.fields["m_isRunning"]), rep(w, t) == 0))
            else:
                ex.oblige(s, "post:restart leaves the watch running", w.fields["m_isRunning"])
                ex.oblige(s, "post:restart counts from zero", z3.Or(*[rep(w, t) == t - x for x in rd]) if rd else z3.BoolVal(False))
    for fn, args, started in (("c0", [], z3.BoolVal(False)), ("c1", [z3.Bool("b")], z3.Bool("b"))):
        for s, v in call(ex, st.fork(), fn, args):
            w = ex.load(s, ex.rv(s, v).base)
            rd = s.ghost.get("readings", ())
            ex.oblige(s, "post:a new watch runs iff asked to", w.fields["m_isRunning"] == started)
            ex.oblige(s, "post:a new watch has accumulated nothing", w.fields["m_time"] == 0)
            ex.oblige(s, "post:a started watch counts from construction", z3.Or(z3.Not(started), z3.Or(*[rep(w, t) == t - x for x in rd]) if rd else z3.BoolVal(False)))

    def pure(fn, args, want, what):
        for s, v in call(ex, st.fork(), fn, args):
            x = ex.rv(s, v)
            rd = s.ghost.get("readings", ())
            g = want(x, None if not rd else rd)
            ex.oblige(s, "post:" + what, g)
            ex.oblige(s, "frame:%s leaves the watch unchanged" % fn, z3.BoolVal(same_value(s.mem["w"], s0)))

    def at(f):
        """f(reported time) holds for a reading of the call, or for the stored time when stopped"""
        return lambda x, rd: z3.If(run, z3.Or(*[f(x, R0(q)) for q in rd]) if rd else z3.BoolVal(False), f(x, T0))
    pure("time", [W], at(lambda x, v: x == v), "time is the accumulated running time")
    pure("running", [W], lambda x, rd: ex.boolv(x) == run, "is_running")
    for s, v in call(ex, st.fork(), "sat", [W]):
        rd = s.ghost.get("readings", ())
        x = ex.rv(s, v)
        w = s.mem["w"]
        ex.oblige(s, "post:stop_and_time stops and returns the total", z3.And(z3.Not(w.fields["m_isRunning"]), rep(w, t) == x, z3.If(
            run, z3.Or(*[x == R0(q) for q in rd]) if rd else z3.BoolVal(False), x == T0)))
    for u, q in UNITS.items():
        pure("in_" + u, [W], at(lambda x, v, q=q: x == v / q), "in_%s truncates to the unit" % u)
        pure("cnt_" + u, [W], at(lambda x, v, q=q: x == v / q), "count<%s> truncates to the unit" % u)
        pure("roll_" + u, [W, k], at(lambda x, v, q=q: x == (v / q) % k), "count<%s>(rollover) is the count modulo the rollover" % u)
        m = PARTS[u]
        pure("part_" + u, [W], at(lambda x, v, q=q, m=m: x == ((v / q) % m if m else v / q)), "%s_part reduces modulo the next unit" % u)
    r.absorb(ex)


def tasks(pid, tier):
    if pid == "K01":
        return ["K01:%s:%s" % (c, s) for c in GUARDS for s in STDS]
    return ["W01::" + s for s in STDS]


def prove(tid, r, tier):
    pid, c, std = tid.split(":")
    r.name = "%s/%s/%s" % (pid, c, std)
    k01(r, c, std) if pid == "K01" else w01(r, std)


def natives(pid, tier):
    out = [dict(name="scopes-%s-%s" % (pid, std), src="scopes.cpp", args=[pid], std=std, secs={"quick": 8, "thorough": 60})
           for std in ("c++20", "c++14")]
    if pid == "W01":
        out.append(dict(name="scopes-W01-micro", src="scopes.cpp", args=[pid], std="c++17", flags=["-DPV_UNIT=std::chrono::microseconds"],
                        secs={"quick": 8, "thorough": 60}))
    return out


TRUSTED = {"*": ["contracts of std::stack, std::function, std::uncaught_exceptions and std::chrono (vp/props/scopes.py)"]}
ASSUME = {
    "K01": ["a task does not touch the guard that runs it", "no allocation failure when a task is added",
            "std::uncaught_exceptions() is the number of exceptions in flight"],
    "W01": ["the clock is steady (never goes back) and counts nanoseconds; tick counts stay below 2^61",
            "std::chrono arithmetic is integer arithmetic, duration_cast truncates"],
}
