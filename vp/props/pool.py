"""T01-T06 (thread_pool.hpp): monitor contracts (see vp/monitor.py)."""
import z3
from ..ast import Ast, parse_type, type_of, qual_of, body_of, params_of
from ..engine import opaque_sort, repr_type
from ..sym import *
from ..contract import Contract
from ..monitor import MonitorEx, forall, I, B, FN, END, TRUE, FALSE, GHOST
from .. import locks, solve

TXT = "#include <pluto/thread_pool.hpp>\n"
STDS = ["c++20", "c++14"]
CV = {"m_workersCondition": "W", "m_schedulerCondition": "S", "m_tasksWorkingCondition": "E", "m_tasksCompleteCondition": "I"}
NEED = {"m_workers", "m_scheduler", "m_waitingTasks", "m_scheduledTasks", "m_onStop", "m_isStopping", "m_targetWorkersSize", "m_activeWorkersSize", "m_mutex"} | set(CV)
OBJ = "pool"


class PoolContract(Contract):
    def invariants(self, ex, st, mod, idx):
        if OBJ not in st.mem and ex.role != "ctor":
            return []
        cell = ex.objcell(st)
        if cell is None:
            return []
        P = lambda s: s.mem[cell].fields
        g = ex.G
        out = []
        for k in ("p_empty", "p_idle", "p_shrink", "p_sched"):
            out.append(("nothing owed:" + k, lambda s, k=k: z3.Not(g(s, k))))
        for k in ("p_tasks", "cur", "myact", "unreg", "mv"):
            out.append(("clear:" + k, lambda s, k=k: g(s, k) == 0))
        for nm, f, props in ex.INV(st, cell):
            if ex.role != "ctor" or "target" not in nm:
                out.append(("INV:" + nm, lambda s, nm=nm: dict((a, b) for a, b, c in ex.INV(s, cell))[nm]))
        out.append(("nothing changed since the lock was taken", lambda s: valeq(s.mem["$at"], s.mem[cell])))
        if ex.role == "worker":
            out.append(("an idle worker is not counted", lambda s: P(s)["m_activeWorkersSize"] < P(s)["m_workers"].fields["size"]))
            out.append(("registered", lambda s: P(s)["m_workers"].fields["dom"][ex.me]))
        if ex.role == "scheduler":
            out.append(("scheduler registered", lambda s: P(s)["m_scheduler"].fields["id"] == ex.me))
        if ex.role in ("client", "ctor"):
            w0 = P(st)["m_workers"].fields
            t = z3.Int("t")
            for nm, f, m in idx:
                if m and isinstance(f(st), z3.ArithRef):
                    e0 = f(st)
                    out.append(("workers minus %s const" % nm, lambda s, f=f, e0=e0: P(s)["m_workers"].fields["size"] - f(s) == w0["size"] - e0))
                    out.append(("workers plus %s const" % nm, lambda s, f=f, e0=e0: P(s)["m_workers"].fields["size"] + f(s) == w0["size"] + e0))
            out.append(("stop flag unchanged", lambda s, b=P(st)["m_isStopping"]: b == P(s)["m_isStopping"]))
            out.append(("no more workers than needed", lambda s: P(s)["m_workers"].fields["size"] <= z3.If(
                w0["size"] > P(s)["m_targetWorkersSize"], w0["size"], P(s)["m_targetWorkersSize"])))
            out.append(("workers only grow", lambda s: z3.And(w0["size"] <= P(s)["m_workers"].fields["size"], forall(
                [t], z3.Implies(w0["dom"][t], P(s)["m_workers"].fields["dom"][t]), patterns=[P(s)["m_workers"].fields["dom"][t], w0["dom"][t]]))))
        t = z3.Int("t")
        if ex.role == "ctor":
            for nm, f in ex.fresh_pool(st, cell):
                out.append(("ctor:" + nm, lambda s, nm=nm: dict(ex.fresh_pool(s, cell))[nm]))
        if ex.role == "dtor":
            for c2 in ex.scope_cells(st):
                iv = st.mem.get(c2)
                if isinstance(iv, SV) and iv.name == "mapit" and c2 in mod:
                    it = lambda s, c2=c2: s.mem[c2].fields["n"]
                    W = lambda s: P(s)["m_workers"].fields
                    out.append(("visited workers are joined", lambda s, it=it: forall([t], z3.Implies(
                        z3.And(W(s)["dom"][t], z3.Or(it(s) == END, t < it(s))), z3.And(W(s)["v:id"][t] == 0, ex.G(s, "joined")[t])), patterns=[W(s)["dom"][t]])))
                    out.append(("unvisited workers are joinable", lambda s, it=it: forall([t], z3.Implies(
                        z3.And(W(s)["dom"][t], it(s) != END, t >= it(s)), W(s)["v:id"][t] == t), patterns=[W(s)["dom"][t]])))
                    out.append(("at a worker", lambda s, it=it: z3.Or(it(s) == END, W(s)["dom"][it(s)])))
            out.append(("published", lambda s: ex.G(s, "published")))
        return out


class PoolEx(MonitorEx):
    CLASS = "pluto::thread_pool"
    LOCKPROPS = ("T01",)

    def __init__(self, ast, pid, role, budget=200.0):
        self.role, self.pid = role, pid
        MonitorEx.__init__(self, ast, PoolContract(role), budget)
        ty = {n: t for n, t in self.fields()}
        if not NEED <= set(ty):
            raise Unsupported("members missing: %s" % sorted(NEED - set(ty)))
        self.ENUMS = {"pluto::thread_pool::action": parse_type("unsigned char"), "pluto::thread_pool::priority": parse_type("signed char"),
                      "thread_pool::action": parse_type("unsigned char"), "thread_pool::priority": parse_type("signed char")}
        M, C, F = self.methods, self.ctors, self.funcs
        C["std::thread"] = self.c_thread
        C["std::thread::id"] = self.c_value
        M[("std::thread", "joinable")] = lambda ex, st, o, vs, e, ot: self.one(st, self.tid(st, o) != 0)
        M[("std::thread", "get_id")] = lambda ex, st, o, vs, e, ot: self.one(st, self.tid(st, o))
        M[("std::thread", "join")] = self.t_join
        M[("std::thread", "detach")] = self.t_detach
        M[("std::thread", "operator=")] = self.t_assign
        self.dtors["std::thread"] = self.t_dtor
        C["std::promise"] = lambda ex, st, t, vs, e: self.one(st, Obj("promise", id=(fresh_name("promise"),)))
        M[("std::promise", "set_value")] = self.p_set
        M[("std::promise", "get_future")] = lambda ex, st, o, vs, e, ot: self.one(st, Obj("future", id=self.rv(st, o).id))
        C["std::future"] = self.c_any
        for m in ("wait", "get"):
            M[("std::future", m)] = M[("std::__basic_future", m)] = self.f_wait
        self.actions = self.enum_values("action")

    # ---- enum values of the code under verification
    def enum_values(self, name):
        for d in list(self.ast.by_id.values()):
            if d.get("kind") == "EnumDecl" and d.get("name") == name:
                return {c["name"]: self._enum_value(c) for c in d["inner"] if c.get("kind") == "EnumConstantDecl"}
        raise Unsupported("enum " + name)

    def c_any(self, ex, st, t, vs, e):
        yield st, self.rv(st, vs[0])

    # ---- the object --------------------------------------------------------------------------------------------------
    def objcell(self, st):
        if OBJ in st.mem:
            return OBJ
        for c, v in st.mem.items():
            if isinstance(v, SV) and v.name == self.CLASS:
                return c
        return None

    def init(self, st):
        st.mem[GHOST] = SV("$ghost", {
            "clock": z3.Int("clock0"), "cur": z3.IntVal(0), "curtask": z3.Const("notask", FN), "myact": z3.IntVal(0), "unreg": z3.IntVal(0),
            "unregk": z3.IntVal(0), "p_empty": FALSE, "p_idle": FALSE, "p_shrink": FALSE, "p_sched": FALSE, "p_tasks": z3.IntVal(0),
            "cE": FALSE, "cI": FALSE, "cW": FALSE, "cS": FALSE, "mv": z3.IntVal(0), "mvp": z3.IntVal(0), "mvt": z3.Const("notask", FN),
            "gone": FALSE, "left_ok": FALSE, "joined": z3.K(I, FALSE), "published": FALSE, "shared": z3.BoolVal(self.role != "ctor")})
        st.assume(self.me > 0)

    def havoc_pool(self, st, old):
        """any state of the protected fields"""
        f = {}
        for n, t in self.fields():
            if not self.protected(n):
                f[n] = old.fields[n] if old is not None else (Obj("mutex", id=("pool", n)) if t.name in locks.MUTEXES else Obj("cv"))
            elif t.kind == "rec" and t.name in ("std::map", "std::multimap"):
                f[n] = self.new_map(st, n, t)
            elif t.kind == "rec" and t.name == "std::thread":
                f[n] = SV("std::thread", {"id": z3.Int(fresh_name(n))})
                st.assume(f[n].fields["id"] >= 0)
            else:
                f[n] = self.fresh(t, n, st)
        return SV(self.CLASS, f)

    def INV(self, st, cell):
        p = st.mem[cell].fields
        w = p["m_workers"].fields
        t = z3.Int("t")
        return [("no more active workers than workers", z3.And(0 <= p["m_activeWorkersSize"], p["m_activeWorkersSize"] <= w["size"]), ("T03",)),
                ("as many workers as the target unless stopping", z3.Or(p["m_isStopping"], w["size"] >= p["m_targetWorkersSize"]), ("T03",)),
                ("every registered worker is joinable", forall([t], z3.Implies(w["dom"][t], w["v:id"][t] == t), patterns=[w["dom"][t]]), ("T06",)),
                ("queued tasks are as they were queued", forall([t], z3.Implies(p["m_waitingTasks"].fields["dom"][t], self.asgiven(p["m_waitingTasks"], t)), patterns=[p["m_waitingTasks"].fields["dom"][t]]), ("T02",)),
                ("scheduled tasks are as they were scheduled", forall([t], z3.Implies(p["m_scheduledTasks"].fields["dom"][t], self.asgiven(p["m_scheduledTasks"], t)), patterns=[p["m_scheduledTasks"].fields["dom"][t]]), ("T05",)),
                ("scheduled tasks have a scheduler", z3.Or(p["m_isStopping"], p["m_scheduledTasks"].fields["size"] == 0, p["m_scheduler"].fields["id"] != 0), ("T05",))]

    def asgiven(self, m, t):
        """the mapped value at a node is the one it was inserted with (not moved from)"""
        return z3.And(*[m.fields[k][t] == m.fields["o:" + k[2:]][t] for k in m.fields if k.startswith("v:")])

    def rely(self, st, old, new):
        """what the other threads leave alone (each point is proved where that thread's code is verified)"""
        p, q = new.fields, old.fields
        w = p["m_workers"].fields
        g = self.G
        st.assume(z3.Implies(q["m_isStopping"], p["m_isStopping"]))
        if self.role == "worker":
            st.assume(w["dom"][self.me])
            st.assume(z3.If(g(st, "myact") == 0, p["m_activeWorkersSize"] < w["size"], p["m_activeWorkersSize"] >= 1))
        if self.role == "dtor":          # assumed: a pool is not destroyed by one of its own threads
            st.assume(z3.And(z3.Not(w["dom"][self.me]), p["m_scheduler"].fields["id"] != self.me))
        if self.role == "scheduler":
            x = z3.Int("x")
            st.assume(p["m_scheduler"].fields["id"] == self.me)
            a, b = q["m_scheduledTasks"].fields, p["m_scheduledTasks"].fields
            fs = [b["dom"][x], b["key"][x] == a["key"][x]] + [b[k][x] == a[k][x] for k in a if k[:2] in ("o:", "v:")]
            st.assume(forall([x], z3.Implies(a["dom"][x], z3.And(*fs)), patterns=[a["dom"][x]]))

    def key(self, st):
        c = self.objcell(st)
        m = st.mem[c].fields.get("m_mutex") if c is not None else None
        return m.id if m is not None else None

    def locked(self, st):
        return any(k == self.key(st) for k, m in locks.held(st))

    # ---- locking -----------------------------------------------------------------------------------------------------
    def access(self, st, lv, write):
        n = lv.path[0]
        if not isinstance(n, str) or not self.protected(n):
            return
        if self.locked(st):
            ok = TRUE
        else:
            ok = z3.Not(self.G(st, "shared"))
            if self.role == "dtor":
                p = st.mem[lv.cell].fields
                t = z3.Int("t")
                w = p["m_workers"].fields
                pub = self.G(st, "published")
                if n == "m_workers":
                    ok = z3.Or(ok, pub)
                elif n == "m_scheduler":
                    ok = z3.Or(ok, z3.And(pub, forall([t], z3.Implies(w["dom"][t], w["v:id"][t] == 0))))
        self.oblige(st, "%s of %s under the pool's lock" % ("write" if write else "read", n), ok, "lock", props=("T01",))

    def on_acquire(self, ex, st, k, mode):
        if k != self.key(st):
            return
        cell = self.objcell(st)
        old = st.mem[cell]
        c = z3.Int(fresh_name("clock"))
        st.assume(c >= self.G(st, "clock"))
        self.setG(st, clock=c, cE=FALSE, cI=FALSE, cW=FALSE, cS=FALSE)
        if not z3.is_false(self.G(st, "shared")):
            new = self.havoc_pool(st, old)
            st.mem[cell] = new
            for nm, f, props in self.INV(st, cell):
                st.assume(f)
            self.rely(st, old, new)
        st.mem["$at"] = SV("$snap", dict(st.mem[cell].fields))

    def on_release(self, ex, st, k, mode):
        if k != self.key(st):
            return
        cell = self.objcell(st)
        p = st.mem[cell].fields
        for nm, f, props in self.INV(st, cell):
            self.oblige(st, "INV:" + nm, f, "invariant", props=props)
        g = self.G
        self.oblige(st, "every started thread is registered when the lock is released", g(st, "unreg") == 0, "invariant", props=("T03", "T06"))
        self.oblige(st, "a scheduled task is removed and queued in one step", g(st, "mv") == 0, "invariant", props=("T05",))
        self.oblige(st, "the active count includes this thread exactly while it has a task", g(st, "myact") == g(st, "cur"), "invariant", props=("T03",))
        self.setG(st, p_tasks=z3.If(p["m_activeWorkersSize"] == p["m_workers"].fields["size"], 0, g(st, "p_tasks")),
                  published=z3.Or(g(st, "published"), z3.And(z3.BoolVal(self.role == "dtor"), p["m_isStopping"])))
        st.ghost["rels"] = st.ghost.get("rels", ()) + ((st.mem["$at"], st.mem[cell]),)
        if self.role == "dtor":          # a task may still start a scheduler until all workers are joined
            n = z3.Int(fresh_name("sched"))
            st.assume(z3.And(n >= 0, n != self.me, z3.Implies(p["m_scheduler"].fields["id"] != 0, n == p["m_scheduler"].fields["id"])))
            st.mem[cell] = st.mem[cell].with_("m_scheduler", SV("std::thread", {"id": n}))
            st.ghost["sched0"] = n

    # ---- ghost updates -----------------------------------------------------------------------------------------------
    def changed(self, st, lv, old, new):
        n = lv.path[0]
        o, p = old.fields, new.fields
        g = self.G
        if not isinstance(n, str):
            return
        if n == "m_waitingTasks":
            if self.adding:
                node, k, terms = self.adding
                t = terms.get("v:")
                if t is None:
                    raise Unsupported("shape of the task queue")
                q0, q1, x = o["m_waitingTasks"].fields, p["m_waitingTasks"].fields, z3.Int("x")
                self.oblige(st, "a task is queued behind those of its priority", forall([x], z3.Implies(
                    z3.And(q0["dom"][x], q0["key"][x] == k), q1["seq"][x] < q1["seq"][node])), props=("T02",))
                self.setG(st, p_tasks=z3.If(g(st, "cW"), g(st, "p_tasks"), g(st, "p_tasks") + 1))
                if self.role == "scheduler":
                    self.pairing(st, 1, k, t)
                else:
                    self.oblige(st, "tasks are queued by callers and the scheduler only", z3.BoolVal(self.role == "client"), props=("T02",))
                    st.ghost["queued"] = st.ghost.get("queued", ()) + ((k, t),)
            elif self.erasing is not None:
                self.take_task(st, old, self.erasing)
            sz = p["m_waitingTasks"].fields["size"]
            self.setG(st, p_tasks=z3.If(g(st, "p_tasks") > sz, sz, g(st, "p_tasks")))
        if n in ("m_waitingTasks", "m_activeWorkersSize"):
            q0, q1 = o["m_waitingTasks"].fields["size"] == 0, p["m_waitingTasks"].fields["size"] == 0
            i0, i1 = z3.And(q0, o["m_activeWorkersSize"] == 0), z3.And(q1, p["m_activeWorkersSize"] == 0)
            self.setG(st, p_empty=z3.And(q1, z3.Or(g(st, "p_empty"), z3.And(z3.Not(q0), z3.Not(g(st, "cE"))))),
                      p_idle=z3.And(i1, z3.Or(g(st, "p_idle"), z3.And(z3.Not(i0), z3.Not(g(st, "cI"))))))
        if n == "m_activeWorkersSize":
            self.setG(st, myact=g(st, "myact") + p[n] - o[n])
        if n == "m_scheduledTasks":
            if self.adding:
                node, k, terms = self.adding
                st.ghost["scheduled"] = st.ghost.get("scheduled", ()) + ((k, terms),)
                self.oblige(st, "only callers schedule tasks", z3.BoolVal(self.role == "client"), props=("T05",))
                a = o["m_scheduledTasks"].fields
                x = z3.Int("x")
                earliest = z3.Bool(fresh_name("earliest"))
                st.assume(earliest == forall([x], z3.Implies(a["dom"][x], k < a["key"][x])))
                self.setG(st, p_sched=z3.Or(g(st, "p_sched"), z3.And(earliest, p["m_scheduler"].fields["id"] != 0, z3.Not(g(st, "cS")))))
            elif self.erasing is not None:
                self.due(st, old, self.erasing)
        if n == "m_workers":
            if self.adding:
                node, k, terms = self.adding
                self.oblige(st, "a worker is registered under its own id", z3.And(k == g(st, "unreg"), g(st, "unregk") == 1), props=("T03",))
                self.oblige(st, "no worker is added once stopping", z3.Not(o["m_isStopping"]), props=("T06",))
                self.register(st, terms["v:id"])
            elif self.erasing is not None:
                w = o["m_workers"].fields
                self.oblige(st, "a worker only removes itself", z3.And(z3.BoolVal(self.role == "worker"), self.erasing == self.me), props=("T03",))
                self.oblige(st, "a worker leaves only when there are too many", z3.And(w["size"] > o["m_targetWorkersSize"], z3.Not(o["m_isStopping"])), props=("T03",))
                self.oblige(st, "workers are not removed once stopping", z3.Not(o["m_isStopping"]), props=("T06",))
                self.oblige(st, "a removed worker was detached", w["v:id"][self.erasing] == 0, props=("T06",))
                self.setG(st, gone=TRUE)
            else:
                self.register(st, self.load_id(new, lv))
        if n == "m_scheduler":
            x, y = p[n].fields["id"], o[n].fields["id"]
            self.oblige(st, "no second scheduler is started", z3.Or(x == 0, y == 0), props=("T05",))
            self.register(st, x, sched=True)
        if n == "m_isStopping":
            self.oblige(st, "stopping is only begun, and only by the destructor", z3.BoolVal(self.role in ("dtor", "ctor")) if self.role == "ctor" else
                        z3.And(z3.BoolVal(self.role == "dtor"), p[n]), props=("T06",))
            on = z3.And(p[n], z3.Not(o[n]))
            self.setG(st, p_shrink=z3.Or(g(st, "p_shrink"), z3.And(on, z3.Not(g(st, "cW")))), p_sched=z3.Or(g(st, "p_sched"), z3.And(on, z3.Not(g(st, "cS")))))
        if n == "m_targetWorkersSize":
            self.setG(st, p_shrink=z3.Or(g(st, "p_shrink"), z3.And(p[n] < o[n], p["m_workers"].fields["size"] > p[n], z3.Not(g(st, "cW")))))

    def load_id(self, new, lv):
        """thread id now stored at an element of the worker map"""
        for q in lv.path:
            if not isinstance(q, str):
                return new.fields["m_workers"].fields["v:id"][q[1]]
        raise Unsupported("whole worker map assigned")

    def register(self, st, x, sched=False):
        g = self.G
        k = z3.IntVal(2 if sched else 1)
        self.oblige(st, "only a thread just started is stored", z3.Or(x == 0, z3.And(x == g(st, "unreg"), g(st, "unregk") == k)), props=("T03", "T05"))
        u = {"unreg": z3.If(x != 0, 0, g(st, "unreg"))}
        if sched:
            u["p_sched"] = z3.And(x == 0, g(st, "p_sched"))
        self.setG(st, **u)

    def take_task(self, st, old, n):
        g = self.G
        p = old.fields
        q = p["m_waitingTasks"].fields
        x = z3.Int("x")
        self.oblige(st, "only a worker removes a task", z3.BoolVal(self.role == "worker"), props=("T02",))
        self.oblige(st, "no task is taken while another one is held", g(st, "cur") == 0, props=("T02",))
        self.oblige(st, "the task taken has the highest priority", forall([x], z3.Implies(q["dom"][x], q["key"][x] <= q["key"][n])), props=("T02",))
        self.oblige(st, "the task taken was queued first within its priority", forall([x], z3.Implies(
            z3.And(q["dom"][x], q["key"][x] == q["key"][n], x != n), q["seq"][n] < q["seq"][x])), props=("T02",))
        self.oblige(st, "no task is started after stopping with join-all", z3.Not(z3.And(p["m_isStopping"], p["m_onStop"] == self.actions["join_all"])), props=("T06",))
        self.setG(st, cur=z3.IntVal(1), curtask=q["o:"][n])

    def due(self, st, old, n):
        g = self.G
        s = old.fields["m_scheduledTasks"].fields
        x = z3.Int("x")
        self.oblige(st, "only the scheduler removes a scheduled task", z3.BoolVal(self.role == "scheduler"), props=("T05",))
        self.oblige(st, "a scheduled task is not moved before its time", s["key"][n] <= g(st, "clock"), props=("T05",))
        self.oblige(st, "scheduled tasks are moved in order of time", forall([x], z3.Implies(s["dom"][x], s["key"][n] <= s["key"][x])), props=("T05",))
        pr, t = self.sched_value(s, n)
        self.pairing(st, 2, pr, t)

    def sched_value(self, s, n):
        pr = [k for k in s if k.startswith("o:") and s[k].sort().range() == I]
        tk = [k for k in s if k.startswith("o:") and s[k].sort().range() == FN]
        if len(pr) != 1 or len(tk) != 1:
            raise Unsupported("shape of a scheduled task")
        return s[pr[0]][n], s[tk[0]][n]

    def pairing(self, st, what, pr, t):
        """queueing (1) and removing (2) a scheduled task come in pairs with the same priority and task"""
        g = self.G
        mv = g(st, "mv")
        other = z3.IntVal(3 - what)
        self.oblige(st, "a scheduled task is moved once, with its priority and task", z3.Or(mv == 0, z3.And(mv == other, g(st, "mvp") == pr, g(st, "mvt") == t)), props=("T05",))
        self.setG(st, mv=z3.If(mv == 0, z3.IntVal(what), 0), mvp=pr, mvt=t)

    # ---- wake-ups ----------------------------------------------------------------------------------------------------
    def notified(self, st, name, all_):
        c = CV.get(name)
        if c is None:
            raise Unsupported("condition variable " + name)
        g = self.G
        held = bool(locks.held(st))
        if c == "E" and all_:
            self.setG(st, p_empty=FALSE, **({"cE": TRUE} if held else {}))
        if c == "I" and all_:
            self.setG(st, p_idle=FALSE, **({"cI": TRUE} if held else {}))
        if c == "W":
            if all_:
                self.setG(st, p_tasks=z3.IntVal(0), p_shrink=FALSE, **({"cW": TRUE} if held else {}))
            else:
                self.setG(st, p_tasks=z3.If(g(st, "p_tasks") > 0, g(st, "p_tasks") - 1, 0))
        if c == "S":
            self.setG(st, p_sched=FALSE, **({"cS": TRUE} if held else {}))

    def settled(self, st, where):
        g = self.G
        p = st.mem[self.objcell(st)].fields
        for k, what in (("p_empty", "threads waiting for an empty queue are notified"), ("p_idle", "threads waiting for completion are notified"),
                        ("p_shrink", "all workers are notified of a smaller target or of stopping"), ("p_sched", "the scheduler is notified")):
            self.oblige(st, "%s before %s" % (what, where), z3.Not(g(st, k)), "wakeup", props=("T04",) + (("T05",) if k == "p_sched" else ()))
        ok = g(st, "p_tasks") == 0
        if locks.held(st):
            ok = z3.Or(ok, p["m_activeWorkersSize"] == p["m_workers"].fields["size"])
        self.oblige(st, "a worker is notified of every queued task before " + where, ok, "wakeup", props=("T04",))

    def waiting(self, st, name, timed):
        c = CV.get(name)
        p = st.mem[self.objcell(st)].fields
        q, s = p["m_waitingTasks"].fields["size"], p["m_scheduledTasks"].fields
        self.settled(st, "waiting")
        x = z3.Int("x")
        f = {"W": z3.And(q == 0, z3.Not(p["m_isStopping"]), p["m_workers"].fields["size"] <= p["m_targetWorkersSize"]),
             "E": q != 0, "I": z3.Or(q != 0, p["m_activeWorkersSize"] != 0),
             "S": z3.And(z3.Not(p["m_isStopping"]), forall([x], z3.Not(s["dom"][x])) if timed is None else
                         forall([x], z3.Implies(s["dom"][x], timed <= s["key"][x])))}.get(c)
        if f is None:
            raise Unsupported("wait on " + name)
        if timed is not None and c != "S":
            raise Unsupported("timed wait on " + name)
        if c in ("W", "S"):
            self.oblige(st, "no worker or scheduler of a stopping pool goes to sleep", z3.Not(p["m_isStopping"]), "wakeup", props=("T06",))
        self.oblige(st, "a wait on %s is entered only while its condition is false" % name, f, "wakeup", props=("T04",) + (("T05",) if c == "S" else ()))
        self.oblige(st, "no worker sleeps holding a task", self.G(st, "cur") == 0, "wakeup", props=("T02",))

    # ---- threads -----------------------------------------------------------------------------------------------------
    def tid(self, st, o):
        v = self.rv(st, o)
        if not (isinstance(v, SV) and v.name == "std::thread"):
            raise Unsupported("thread expected")
        return v.fields["id"]

    ENTRY = {"start_working": 1, "start_scheduling": 2}

    def entry(self, v):
        if isinstance(v, FnRef):
            return self.ENTRY.get(v.decl.get("name"))
        if isinstance(v, Clo):
            found = set()

            def go(n):
                if isinstance(n, dict):
                    if n.get("kind") == "MemberExpr" and n.get("name") in self.ENTRY:
                        found.add(self.ENTRY[n["name"]])
                    for c in n.get("inner", ()):
                        go(c)
            go(v.node["call"])
            return found.pop() if len(found) == 1 else None
        return None

    def c_thread(self, ex, st, t, vs, e):
        if not vs:
            yield st, SV("std::thread", {"id": END})
            return
        v = self.rv(st, vs[0])
        if isinstance(v, SV) and v.name == "std::thread":
            if isinstance(vs[0], LV):
                self.store(st, vs[0], SV("std::thread", {"id": END}))
            yield st, v
            return
        k = self.entry(v)
        if k is None:
            raise Unsupported("thread entry")
        g = self.G
        n = z3.Int(fresh_name("thread"))
        p = st.mem[self.objcell(st)].fields
        x = z3.Int("x")
        w = p["m_workers"].fields
        st.assume(z3.And(n > 0, n != self.me, z3.Not(w["dom"][n]), p["m_scheduler"].fields["id"] != n))
        self.oblige(st, "threads are started while holding the lock", z3.BoolVal(self.locked(st)), props=("T01", "T03", "T05"))
        self.oblige(st, "a started thread is registered before the next one is started", g(st, "unreg") == 0, props=("T03",))
        self.setG(st, unreg=n, unregk=z3.IntVal(k), shared=TRUE)
        yield st, SV("std::thread", {"id": n})

    def t_assign(self, ex, st, o, vs, e, ot):
        v = self.rv(st, vs[0])
        self.oblige(st, "no joinable thread is overwritten", self.tid(st, o) == 0, "safety")
        if isinstance(vs[0], LV):
            self.store(st, vs[0], SV("std::thread", {"id": END}))
        self.store(st, o, v)
        yield st, o

    def t_dtor(self, ex, st, lv):
        self.oblige(st, "no joinable thread is destroyed", st.mem[lv.cell].fields["id"] == 0, "safety")
        yield st, None

    def t_join(self, ex, st, o, vs, e, ot):
        n = self.tid(st, o)
        self.oblige(st, "only another, joinable thread is joined", z3.And(n != 0, n != self.me), "safety")
        self.oblige(st, "no lock is held while joining", z3.BoolVal(not locks.held(st)), props=("T01", "T06"))
        self.settled(st, "joining")
        self.setG(st, joined=z3.Store(self.G(st, "joined"), n, TRUE))
        self.store(st, o, SV("std::thread", {"id": END}))
        yield st, VOID

    def t_detach(self, ex, st, o, vs, e, ot):
        n = self.tid(st, o)
        p = st.mem[self.objcell(st)].fields
        self.oblige(st, "only a joinable thread is detached", n != 0, "safety")
        self.oblige(st, "a thread detaches only itself, and never once stopping", z3.And(n == self.me, z3.Not(p["m_isStopping"])), props=("T06",))
        self.store(st, o, SV("std::thread", {"id": END}))
        yield st, VOID

    # ---- tasks -------------------------------------------------------------------------------------------------------
    def run_task(self, ex, st, f, vs, e):
        if self.role == "task":
            st.ghost["ran"] = st.ghost.get("ran", ()) + (("run", f.term),)
            return iter([(st, VOID)])
        g = self.G
        self.oblige(st, "tasks run with no lock held", z3.BoolVal(not locks.held(st)), "lock", props=("T01",))
        self.oblige(st, "the task run is the one taken from the queue, once", z3.And(z3.BoolVal(self.role == "worker"), g(st, "cur") == 1, f.term == g(st, "curtask")), props=("T02",))
        self.settled(st, "running a task")
        self.setG(st, cur=z3.IntVal(0))
        return iter([(st, VOID)])

    def p_set(self, ex, st, o, vs, e, ot):
        st.ghost["ran"] = st.ghost.get("ran", ()) + (("set", self.rv(st, o).id),)
        yield st, VOID

    def f_wait(self, ex, st, o, vs, e, ot):
        fid = self.rv(st, o).id
        self.oblige(st, "no lock is held while waiting for a task", z3.BoolVal(not locks.held(st)), props=("T01", "T04"))
        self.settled(st, "waiting for a task")
        clos = [c for t, c in st.ghost.get("closures", ()) if any(z3.eq(t, q[1]) for q in st.ghost.get("queued", ()))]
        ok, why = len(clos) == 1, []
        if ok:
            role, self.role = self.role, "task"
            try:
                s0 = st.fork()
                s0.ghost["ran"] = ()
                for s, v in self.call_closure(s0, clos[0], []):
                    tr = s.ghost["ran"]
                    fine = not s.thrown and [x[0] for x in tr] == ["run", "set"] and tr[1][1] == fid
                    self.oblige(s, "the promise waited for is kept by the queued task after running the given task once",
                                z3.And(z3.BoolVal(bool(fine)), tr[0][1] == st.ghost["task"]) if fine else FALSE, props=("T02",))
            finally:
                self.role = role
        self.oblige(st, "a synchronous run waits for the task it queued", z3.BoolVal(ok), props=("T02",))
        st.ghost["waited"] = True
        yield st, VOID

    def fresh_pool(self, st, cell):
        p = st.mem[cell].fields
        return [("no task is active", p["m_activeWorkersSize"] == 0), ("no task waits", p["m_waitingTasks"].fields["size"] == 0),
                ("nothing is scheduled", p["m_scheduledTasks"].fields["size"] == 0), ("no scheduler", p["m_scheduler"].fields["id"] == 0),
                ("not stopping", z3.Not(p["m_isStopping"])), ("join-all by default", p["m_onStop"] == self.actions["join_all"])]


# ---- one function at a time ------------------------------------------------------------------------------------------
def valeq(a, b):
    if isinstance(a, SV):
        return z3.And(*[valeq(a.fields[k], b.fields[k]) for k in a.fields]) if a.fields else TRUE
    if isinstance(a, z3.ExprRef):
        return a == b
    return z3.BoolVal(same_value(a, b))


def finish(ex, s, fn):
    ex.oblige(s, "no exception escapes", z3.BoolVal(s.thrown is None), "safety")
    ex.oblige(s, "%s returns with no lock held" % fn, z3.BoolVal(not locks.held(s)), "lock", props=("T01",))
    ex.settled(s, "returning")
    ex.oblige(s, "%s returns with every taken task run" % fn, ex.G(s, "cur") == 0, props=("T02",))


def setup(ex):
    st = St()
    ex.init(st)
    st.mem[OBJ] = ex.havoc_pool(st, None)
    st.mem["$at"] = SV("$snap", dict(st.mem[OBJ].fields))
    st.this = LV(OBJ)
    return st


def run(ex, st, d, args):
    k = 0
    for s, v in ex.inline(st.fork(), d, args, this=LV(OBJ)):
        k += 1
        yield s, v
    if not k:
        ex.oblige(st, "reachable", FALSE)


def last(s):
    r = s.ghost.get("rels", ())
    return r[-1] if r else None


def frame(ex, s, keep_out, props, fn):
    """all sections of the call leave every field but those unchanged"""
    for a, b in s.ghost.get("rels", ()):
        for n, t in ex.fields():
            if ex.protected(n) and n not in keep_out:
                ex.oblige(s, "frame:%s leaves %s unchanged" % (fn, n), valeq(a.fields[n], b.fields[n]), "frame", props=props)


GETTERS = {"workers_size": lambda p: p["m_workers"].fields["size"], "target_workers_size": lambda p: p["m_targetWorkersSize"],
           "active_workers_size": lambda p: p["m_activeWorkersSize"], "waiting_workers_size": lambda p: p["m_workers"].fields["size"] - p["m_activeWorkersSize"],
           "tasks_size": lambda p: p["m_waitingTasks"].fields["size"] + p["m_activeWorkersSize"], "active_tasks_size": lambda p: p["m_activeWorkersSize"],
           "waiting_tasks_size": lambda p: p["m_waitingTasks"].fields["size"], "scheduled_tasks_size": lambda p: p["m_scheduledTasks"].fields["size"],
           "on_stop": lambda p: p["m_onStop"]}
FUNCS = ["ctor", "dtor", "getters", "set_target", "set_on_stop", "run_async", "run_sync", "run_at", "run_after", "wait_empty", "wait_complete", "scheduler", "worker"]


def prove_fn(ex, what):
    if what == "ctor":
        return prove_ctor(ex)
    st = setup(ex)
    if what == "getters":
        for g, f in GETTERS.items():
            for s, v in run(ex, st, ex.method(g, 0)[0], []):
                finish(ex, s, g)
                x = ex.rv(s, v)
                rs = s.ghost.get("rels", ())
                P = ("T03",) if g != "on_stop" else ("T06",)
                ex.oblige(s, "post:%s reports the number at one moment" % g, z3.Or(*[x == f(b.fields) for a, b in rs]) if rs else FALSE, props=P)
                frame(ex, s, (), P, g)
    elif what == "set_target":
        n = z3.Int("n")
        st.assume(z3.And(0 <= n, n < (1 << 62)))
        for s, v in run(ex, st, ex.method("target_workers_size", 1)[0], [n]):
            finish(ex, s, "target_workers_size")
            a, b = last(s) or (None, None)
            if a is None:
                ex.oblige(s, "the target is set in a critical section", FALSE, props=("T03",))
                continue
            p, q = a.fields, b.fields
            w, u = p["m_workers"].fields, q["m_workers"].fields
            stop = p["m_isStopping"]
            t = z3.Int("t")
            ex.oblige(s, "post:the target is the given one unless stopping", q["m_targetWorkersSize"] == z3.If(stop, p["m_targetWorkersSize"], n), props=("T03",))
            ex.oblige(s, "post:exactly the missing workers are started", u["size"] == z3.If(z3.And(z3.Not(stop), w["size"] < n), n, w["size"]), props=("T03",))
            ex.oblige(s, "post:no worker is dropped", forall([t], z3.Implies(w["dom"][t], u["dom"][t])), props=("T03",))
            frame(ex, s, ("m_targetWorkersSize", "m_workers"), ("T03",), "target_workers_size")
    elif what == "set_on_stop":
        a_ = z3.Int("a")
        st.assume(z3.And(0 <= a_, a_ < 256))
        for s, v in run(ex, st, ex.method("on_stop", 1)[0], [a_]):
            finish(ex, s, "on_stop")
            r = last(s)
            ex.oblige(s, "post:the stop action is the given one", (r[1].fields["m_onStop"] == a_) if r else FALSE, props=("T06",))
            frame(ex, s, ("m_onStop",), ("T06",), "on_stop")
    elif what in ("run_async", "run_sync", "run_at", "run_after"):
        prove_run(ex, st, what)
    elif what in ("wait_empty", "wait_complete"):
        nm = {"wait_empty": "wait_until_no_tasks_waiting", "wait_complete": "wait_until_all_tasks_complete"}[what]
        for s, v in run(ex, st, ex.method(nm, 0)[0], []):
            finish(ex, s, nm)
            r = last(s)
            if not r:
                ex.oblige(s, "post:%s looks at the queue" % nm, FALSE, props=("T04",))
                continue
            q = r[1].fields
            c = q["m_waitingTasks"].fields["size"] == 0
            if what == "wait_complete":
                c = z3.And(c, q["m_activeWorkersSize"] == 0)
            ex.oblige(s, "post:%s returns only when its condition holds" % nm, c, props=("T04",))
            frame(ex, s, (), ("T04",), nm)
    elif what == "scheduler":
        for s, v in run(ex, st, ex.method("start_scheduling", 0)[0], []):
            finish(ex, s, "start_scheduling")
            q = last(s)[1].fields
            ex.oblige(s, "post:the scheduler is gone for good or joinable for the destructor", z3.If(
                q["m_isStopping"], q["m_scheduler"].fields["id"] == ex.me, q["m_scheduler"].fields["id"] == 0), props=("T05", "T06"))
    elif what == "worker":
        for s, v in run(ex, st, ex.method("start_working", 0)[0], []):
            finish(ex, s, "start_working")
            q = last(s)[1].fields
            ex.oblige(s, "post:a worker leaves only as surplus or when stopping", z3.Or(ex.G(s, "gone"), q["m_isStopping"]), props=("T03", "T06"))
            ex.oblige(s, "post:with complete-tasks a worker leaves a stopping pool only when no task is queued", z3.Implies(z3.And(
                q["m_isStopping"], q["m_onStop"] == ex.actions["complete_tasks"]), q["m_waitingTasks"].fields["size"] == 0), props=("T06",))
            ex.oblige(s, "post:a worker leaving a stopping pool stays joinable", z3.Implies(q["m_isStopping"], z3.And(
                q["m_workers"].fields["dom"][ex.me], q["m_workers"].fields["v:id"][ex.me] == ex.me)), props=("T06",))
    elif what == "dtor":
        d = ex.method(None, 0, kind="CXXDestructorDecl")[0]
        for s, v in run(ex, st, d, []):
            finish(ex, s, "~thread_pool")
            r = s.ghost.get("rels", ())
            if not r:
                ex.oblige(s, "post:stopping is published under the lock", FALSE, props=("T06",))
                continue
            q = r[-1][1].fields
            t = z3.Int("t")
            w = q["m_workers"].fields
            ex.oblige(s, "post:stopping is published", ex.G(s, "published"), props=("T06",))
            ex.oblige(s, "post:every worker is joined", forall([t], z3.Implies(w["dom"][t], ex.G(s, "joined")[t])), props=("T06",))
            ex.oblige(s, "post:the scheduler is joined", z3.Implies(s.ghost["sched0"] != 0, ex.G(s, "joined")[s.ghost["sched0"]]), props=("T06",))
            now = s.mem[OBJ].fields
            ex.oblige(s, "post:no joinable thread is left behind", z3.And(now["m_scheduler"].fields["id"] == 0, forall([t], z3.Implies(
                now["m_workers"].fields["dom"][t], now["m_workers"].fields["v:id"][t] == 0))), props=("T06",))
    else:
        raise Unsupported(what)


def prove_ctor(ex):
    st = St()
    ex.init(st)
    n = z3.Int("n")
    st.assume(z3.And(0 <= n, n < (1 << 62)))
    cs = [c for c in ex.method(None, 1, kind="CXXConstructorDecl") if "thread_pool" not in c.get("type", {}).get("qualType", "")]
    t = parse_type("pluto::thread_pool")
    lv = LV(OBJ)
    st.mem[OBJ] = SV(ex.CLASS, {})
    st.mem["$at"] = SV("$snap", {})
    k = 0
    for s, v in ex.run_ctor(st, t, ex.record(), cs[0], [n], lv=lv):
        k += 1
        finish(ex, s, "thread_pool()")
        r = last(s)
        if not r:
            ex.oblige(s, "post:workers are started under the lock", FALSE, props=("T03",))
            continue
        s2 = s.fork()
        s2.mem[OBJ] = r[1]
        for nm, f in ex.fresh_pool(s2, OBJ):
            ex.oblige(s, "post:a new pool: " + nm, f, props=("T03",) if nm != "join-all by default" else ("T06",))
        q = r[1].fields
        ex.oblige(s, "post:a new pool has the given number of workers and target", z3.And(q["m_workers"].fields["size"] == n, q["m_targetWorkersSize"] == n), props=("T03",))
    if not k:
        ex.oblige(st, "reachable", FALSE)


def prove_run(ex, st, what):
    f = z3.Const("task", FN)
    pr = z3.Int("priority")
    st.assume(z3.And(-128 <= pr, pr <= 127))
    st.ghost["task"] = f
    tm = z3.Int("time")
    st.mem["a_task"], st.mem["a_time"] = UFn(f, "std::function"), tm
    timed = what in ("run_at", "run_after")
    overs = ex.method(what, 3 if timed else 2)
    if len(overs) != 2:
        raise Unsupported("overloads of " + what)
    for d in overs:
        for s, v in run(ex, st, d, ([LV("a_time")] if timed else []) + [LV("a_task"), pr]):
            finish(ex, s, what)
            P = ("T05",) if timed else ("T02",)
            qd, sd = s.ghost.get("queued", ()), s.ghost.get("scheduled", ())
            if not timed:
                ex.oblige(s, "post:%s queues one task with the given priority" % what, z3.And(z3.BoolVal(len(qd) == 1 and not sd), qd[0][0] == pr) if qd else FALSE, props=P)
                if what == "run_async":
                    ex.oblige(s, "post:run_async queues the given task", (qd[0][1] == f) if qd else FALSE, props=P)
                else:
                    ex.oblige(s, "post:run_sync waits", z3.BoolVal(bool(s.ghost.get("waited"))), props=P)
                frame(ex, s, ("m_waitingTasks",), P, what)
                continue
            ok = len(sd) == 1 and not qd
            ex.oblige(s, "post:%s schedules exactly one task" % what, z3.BoolVal(ok), props=P)
            if not ok:
                continue
            k, terms = sd[0]
            vs = list(terms.values())
            ints, fns = [x for x in vs if x.sort() == I], [x for x in vs if x.sort() == FN]
            ex.oblige(s, "post:%s keeps priority and task" % what, z3.And(ints[0] == pr, fns[0] == f) if len(ints) == 1 and len(fns) == 1 else FALSE, props=P)
            if what == "run_at":
                ex.oblige(s, "post:run_at schedules for the given time", k == tm, props=P)
            else:
                rd = s.ghost.get("readings", ())
                ex.oblige(s, "post:run_after schedules relative to the time of the call", z3.Or(*[k == x + tm for x in rd]) if rd else FALSE, props=P)
            frame(ex, s, ("m_scheduledTasks", "m_scheduler"), P, what)


ROLE = {"ctor": "ctor", "dtor": "dtor", "scheduler": "scheduler", "worker": "worker"}


def tasks(pid, tier):
    return ["%s:%s:%s" % (pid, f, s) for f in FUNCS for s in STDS]


def prove(tid, r, tier):
    pid, what, std = tid.split(":")
    r.name = "%s/%s/%s" % (pid, what, std)
    ex = PoolEx(Ast.load(TXT, std), pid, ROLE.get(what, "client"))
    prove_fn(ex, what)
    r.absorb(ex)


def natives(pid, tier):
    out = [dict(name="pool-%s-schedules" % pid, src="pool.cpp", args=[pid], secs={"quick": 25, "thorough": 300}, flags=["-O1", "-g", "-DVP_SCHED"])]
    if pid == "T01":
        out.append(dict(name="pool-T01-races", src="pool.cpp", args=[pid], secs={"quick": 10, "thorough": 90}, flags=["-O1", "-g", "-fsanitize=thread"]))
    return out


TRUSTED = {"*": ["assumed contracts of std::mutex/unique_lock/lock_guard (vp/locks.py), std::condition_variable, std::map, std::multimap, std::function, std::promise/future, std::thread and the clock (vp/monitor.py, vp/props/pool.py)",
                 "rely/guarantee composition: each role's assumptions about the other threads are obligations of the functions those threads run",
                 "counting lemma: 'an idle worker is not counted' (each worker contributes to the active count exactly while it has a task, which is proved per worker) gives active < workers for an idle worker"]}
_A = ["tasks are non-empty callables that do not throw; starting a thread, allocating and copying a task do not fail",
      "the pool is not destroyed by one of its own threads, nor while a client thread other than its own tasks still uses it",
      "thread ids of live threads are distinct; the order of thread ids is arbitrary", "machine sizes treated as mathematical integers below 2^62"]
ASSUME = {p: _A for p in ("T01", "T02", "T03", "T04", "T05", "T06")}
ASSUME["T05"] = _A + ["the clock does not go back while the scheduler waits (a wait_until that reports timeout means the deadline has passed)"]
