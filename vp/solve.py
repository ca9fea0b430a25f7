"""Solver back ends: z3 (Python API) first, cvc5 (SMT-LIB text) as a second opinion; automatic unfolding of recursive
specification functions; statistics for the evidence files."""
import os, subprocess, tempfile, time
import z3


class RecSpec:
    """A recursive specification function: an uninterpreted symbol plus its defining equations.

    unfold(*args) returns a list of formulas that are instances of the definition (true facts about the function)."""

    def __init__(self, name, decl, unfold):
        self.name, self.decl, self.unfold = name, decl, unfold
        self.done = {}

    def __call__(self, *args):
        return self.decl(*args)


class Stats:
    def __init__(self):
        self.queries = 0
        self.time = 0.0
        self.by = {}
        self._fc = {}
        self.vars = {}

    def note(self, backend, secs):
        self.queries += 1
        self.time += secs
        b = self.by.setdefault(backend, [0, 0.0])
        b[0] += 1
        b[1] += secs

    def consts(self, f):
        k = f.get_id()
        r = self.vars.get(k)
        if r is not None and r[0].eq(f):
            return r[1]
        out = set()
        seen = set()
        stack = [f]
        while stack:
            x = stack.pop()
            i = x.get_id()
            if i in seen:
                continue
            seen.add(i)
            if z3.is_quantifier(x):
                stack.append(x.body())
                continue
            if z3.is_app(x):
                if x.num_args() == 0:
                    if x.decl().kind() == z3.Z3_OP_UNINTERPRETED:
                        out.add(x.decl().name())
                else:
                    if x.decl().kind() == z3.Z3_OP_UNINTERPRETED:
                        pass
                    stack.extend(x.children())
        out = frozenset(out)
        self.vars[k] = (f, out)
        return out

    def slice(self, pc, f):
        want = set(self.consts(f))
        rest = [(g, self.consts(g)) for g in pc]
        out = []
        grew = True
        while grew:
            grew = False
            nr = []
            for g, v in rest:
                if not v or v & want:
                    out.append(g)
                    if not v <= want:
                        want |= v
                        grew = True
                else:
                    nr.append((g, v))
            rest = nr
        return out

    def feasible(self, fs, timeout=400):
        """satisfiable (or unknown)? the last formula is the new condition; only its cone is considered"""
        if not fs:
            return True
        f = fs[-1]
        sl = self.slice(fs[:-1], f)
        key = tuple(sorted(x.get_id() for x in sl)) + (f.get_id(),)
        if key in self._fc:
            return self._fc[key][0]
        t = time.time()
        s = z3.Solver()
        s.set("timeout", timeout)
        s.add(*sl)
        s.add(f)
        r = s.check() != z3.unsat
        self.note("z3", time.time() - t)
        self._fc[key] = (r, sl, f)
        return r

    def entails(self, pc, f, timeout=1000):
        return not self.feasible(pc + [z3.Not(f)], timeout)


def apps_of(fs, decls):
    """all applications of the given declarations (by ast id of the declaration)"""
    out = []
    seen = set()
    stack = list(fs)
    while stack:
        x = stack.pop()
        i = x.get_id()
        if i in seen:
            continue
        seen.add(i)
        if z3.is_quantifier(x):
            continue
        if z3.is_app(x):
            if x.num_args() and x.decl().kind() == z3.Z3_OP_UNINTERPRETED:
                r = decls.get(x.decl().get_id())
                if r is not None:
                    out.append((r, x))
            stack.extend(x.children())
    return out


def expand(ex, fs, rounds=2, cap=400):
    if not ex.specs:
        return list(fs)
    decls = {s.decl.get_id(): s for s in ex.specs}
    done = set()
    fs = list(fs)
    new = fs
    n = 0
    for r in range(rounds):
        add = []
        for s, x in apps_of(new, decls):
            if x.get_id() in done:
                continue
            done.add(x.get_id())
            n += 1
            if n > cap:
                return fs
            k = x.get_id()
            if k not in s.done:
                s.done[k] = (x, list(s.unfold(*x.children())))
            add += s.done[k][1]
        if not add:
            break
        fs += add
        new = add
    return fs


def cvc5_check(fs, timeout):
    s = z3.Solver()
    s.add(*fs)
    txt = s.to_smt2()
    txt = txt.replace("(check-sat)", "")
    # z3 spells a few sequence operations differently
    head = "(set-logic ALL)\n(set-option :tlimit %d)\n" % timeout
    txt = "\n".join(l for l in txt.splitlines() if not l.startswith("(set-info") and not l.startswith("; "))
    p = subprocess.run(["cvc5", "--lang=smt2", "--strings-exp", "--tlimit=%d" % timeout, "-"],
                       input=(head + txt + "\n(check-sat)\n").encode(), stdout=subprocess.PIPE,
                       stderr=subprocess.PIPE, timeout=timeout / 1000 + 10)
    out = p.stdout.decode().strip().splitlines()
    return out[-1] if out else "unknown"


def prove(ex, pc, f, timeout=10000, light=False):
    """(status, model, seconds, back end); status: 'valid', 'refuted' (model of the VC) or 'unknown'"""
    t0 = time.time()
    f = z3.simplify(f)
    if z3.is_true(f):
        return "valid", None, 0.0, "simplify"
    timeout = min(timeout, max(200, int((ex.deadline - t0) * 1000)))
    nf = z3.Not(f)
    base = ex.axioms + list(pc)
    model = None
    verdict = "unknown"
    if not light and getattr(ex, "finite", None) is not None and not ex.specs:
        t = time.time()
        s = z3.Solver()
        s.set("timeout", 1000)
        s.add(*(base + [nf]))
        r = s.check()
        ex.stats.note("z3", time.time() - t)
        if r == z3.unsat:
            return "valid", None, time.time() - t0, "z3"
        m = s.model() if r == z3.sat else finite_model(ex, base + [nf], timeout)
        if m is not None:
            return "refuted", m, time.time() - t0, "z3"
    for rounds in ((1, getattr(ex, "rounds", 2)) if not light else (1,)):
        fs = expand(ex, base + [nf], rounds)
        t = time.time()
        s = z3.Solver()
        s.set("timeout", timeout)
        s.add(*fs)
        r = s.check()
        ex.stats.note("z3", time.time() - t)
        if r == z3.unsat:
            return "valid", None, time.time() - t0, "z3"
        if r == z3.sat:
            verdict = "refuted"
            model = s.model()
            if not ex.specs:
                break
        else:
            if verdict == "refuted":
                break
            verdict = "unknown"
    if not light and verdict == "unknown":
        m = finite_model(ex, base + [nf], timeout)
        if m is not None:
            return "refuted", m, time.time() - t0, "z3"
    if not light and verdict == "unknown":
        # quantifier-heavy goals: pattern instantiation only, then other seeds
        for opts in (dict(mbqi=False, auto_config=False), dict(random_seed=7), dict(mbqi=False, auto_config=False, random_seed=3)):
            t = time.time()
            s = z3.SimpleSolver()
            s.set("timeout", timeout)
            for k, v in opts.items():
                s.set(k, v)
            s.add(*expand(ex, base + [nf], 1))
            r = s.check()
            ex.stats.note("z3", time.time() - t)
            if r == z3.unsat:
                return "valid", None, time.time() - t0, "z3"
    if not light and verdict == "unknown":
        t = time.time()
        try:
            r = cvc5_check(expand(ex, base + [nf], 1), timeout)
        except Exception:
            r = "unknown"
        ex.stats.note("cvc5", time.time() - t)
        if r == "unsat":
            return "valid", None, time.time() - t0, "cvc5"
    return verdict, model, time.time() - t0, "z3"


def finite_model(ex, fs, timeout):
    """a model of fs in which the engine's finite sets stay small (quantifiers over their members are written out)"""
    fin = getattr(ex, "finite", None)
    if fin is None:
        return None
    t = time.time()
    gs = fin(fs)
    s = z3.Solver()
    s.set("timeout", timeout)
    s.add(*gs)
    r = s.check()
    ex.stats.note("z3", time.time() - t)
    return s.model() if r == z3.sat else None


def prove_many(ex, pc, fs, timeout=4000):
    """[bool] for several goals under the same path condition"""
    out = []
    base = ex.axioms + list(pc)
    for f in fs:
        ex.check_budget()
        f = z3.simplify(f)
        if z3.is_true(f):
            out.append(True)
            continue
        if z3.is_false(f):
            # only provable if the path is infeasible
            pass
        t = time.time()
        if getattr(ex, "finite", None) is not None and not ex.specs:
            s = z3.Solver()
            s.set("timeout", min(timeout, 400))
            s.add(*(base + [z3.Not(f)]))
            r = s.check()
            if r == z3.unknown and finite_model(ex, base + [z3.Not(f)], timeout) is not None:
                r = z3.sat
            if r != z3.unknown:
                ex.stats.note("z3", time.time() - t)
                out.append(r == z3.unsat)
                continue
        s = z3.Solver()
        s.set("timeout", timeout)
        s.add(*expand(ex, base + [z3.Not(f)], 1))
        r = s.check()
        if r == z3.unknown or (r == z3.sat and ex.specs):
            s2 = z3.Solver()
            s2.set("timeout", timeout)
            s2.add(*expand(ex, base + [z3.Not(f)], getattr(ex, "rounds", 2)))
            r = s2.check()
        ex.stats.note("z3", time.time() - t)
        if r == z3.unknown and finite_model(ex, base + [z3.Not(f)], timeout) is None:
            ex.inconclusive.append("loop invariant candidate undecided")
        out.append(r == z3.unsat)
    return out
