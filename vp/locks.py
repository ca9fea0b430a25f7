"""Contracts of std mutexes and lock objects: a ghost set of held locks; acquiring a lock runs the 'acquire' hook (which
havocs the state the lock protects and assumes its invariant), releasing it runs the 'release' hook (which proves it)."""
import z3
from .sym import *

MUTEXES = ("std::mutex", "std::shared_mutex", "std::shared_timed_mutex", "std::timed_mutex", "std::recursive_mutex")


def key(ex, st, m):
    if isinstance(m, PtrV):
        m = m.base
    if not isinstance(m, LV):
        raise Unsupported("lock of a temporary")
    v = ex.load(st, m)
    return v.attr["id"] if isinstance(v, Obj) and "id" in v.attr else (m.cell,) + tuple(p for p in m.path if isinstance(p, str))


def held(st):
    return st.ghost.get("locks", ())


def acquire(ex, st, k, mode):
    ex.oblige(st, "lock:not-already-held(%s)" % (k[-1],), z3.BoolVal(not any(x[0] == k for x in held(st))), "lock")
    st.ghost["locks"] = held(st) + ((k, mode),)
    h = ex.hooks.get("acquire")
    if h:
        h(ex, st, k, mode)


def release(ex, st, k):
    ok = any(x[0] == k for x in held(st))
    ex.oblige(st, "lock:held-when-released(%s)" % (k[-1],), z3.BoolVal(ok), "lock")
    h = ex.hooks.get("release")
    if h and ok:
        h(ex, st, k, [x[1] for x in held(st) if x[0] == k][0])
    st.ghost["locks"] = tuple(x for x in held(st) if x[0] != k)


def install(ex):
    def ctor(mode):
        def c(ex, st, t, vs, e):
            vs = [v for v in vs if not (isinstance(v, Obj) and v.tname == "defaultarg")]
            if not vs:
                yield st, Obj("lockobj", ks=(), mode=mode, owned=False)
                return
            if len(vs) == 1 and isinstance(ex.rv(st, vs[0]) if isinstance(vs[0], LV) else vs[0], Obj):
                o = ex.rv(st, vs[0])
                if o.tname == "lockobj":          # move construction
                    if isinstance(vs[0], LV):
                        ex.store(st, vs[0], o.with_(ks=(), owned=False))
                    yield st, o
                    return
            tags = [v for v in vs if is_tag(v)]
            ms = [v for v in vs if not is_tag(v)]
            ks = tuple(key(ex, st, m) for m in ms)
            owned = True
            if tags:
                n = tag_name(tags[0])
                if "defer" in n:
                    owned = False
                elif "adopt" not in n:
                    raise Unsupported("lock tag " + n)
            else:
                for k in ks:
                    acquire(ex, st, k, mode)
            yield st, Obj("lockobj", ks=ks, mode=mode, owned=owned)
        return c

    def is_tag(v):
        return isinstance(v, Obj) and v.tname == "locktag"

    def tag_name(v):
        return v.attr["name"]
    for n, m in (("std::unique_lock", "X"), ("std::lock_guard", "X"), ("std::scoped_lock", "X"), ("std::shared_lock", "S")):
        ex.ctors[n] = ctor(m)
    for n in ("defer_lock", "adopt_lock", "try_to_lock"):
        ex.hooks["global:" + n] = (lambda n: lambda ex, st: Obj("locktag", name=n))(n)

    def dtor(ex, st, lv):
        o = ex.load(st, lv)
        if o.owned:
            for k in reversed(o.ks):
                release(ex, st, k)
            ex.store(st, lv, o.with_(owned=False))
        yield st, None
    ex.dtors["lockobj"] = dtor

    def m_lock(ex, st, obj, vs, e, ot):
        o = ex.load(st, obj)
        if isinstance(o, Obj) and o.tname == "lockobj":
            ex.oblige(st, "lock:object-not-yet-owning", z3.BoolVal(not o.owned), "lock")
            for k in o.ks:
                acquire(ex, st, k, o.mode)
            ex.store(st, obj, o.with_(owned=True))
        else:
            acquire(ex, st, key(ex, st, obj), "X")
        yield st, VOID

    def m_unlock(ex, st, obj, vs, e, ot):
        o = ex.load(st, obj)
        if isinstance(o, Obj) and o.tname == "lockobj":
            ex.oblige(st, "lock:object-owns-when-unlocked", z3.BoolVal(o.owned), "lock")
            for k in o.ks:
                release(ex, st, k)
            ex.store(st, obj, o.with_(owned=False))
        else:
            release(ex, st, key(ex, st, obj))
        yield st, VOID

    def m_lock_shared(ex, st, obj, vs, e, ot):
        acquire(ex, st, key(ex, st, obj), "S")
        yield st, VOID
    for r in ("std::unique_lock", "std::shared_lock") + MUTEXES:
        ex.methods[(r, "lock")] = m_lock
        ex.methods[(r, "unlock")] = m_unlock
        ex.methods[(r, "lock_shared")] = m_lock_shared
        ex.methods[(r, "unlock_shared")] = m_unlock
        ex.methods[(r, "owns_lock")] = lambda ex, st, obj, vs, e, ot: iter([(st, z3.BoolVal(ex.load(st, obj).owned))])

    def ctor_mutex(ex, st, t, vs, e):
        yield st, Obj("mutex", id=(fresh_name("mutex"),))
    for n in MUTEXES:
        ex.ctors[n] = ctor_mutex
