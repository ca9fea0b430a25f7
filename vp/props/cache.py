"""C01, C02, C03 (lru_cache.hpp, safe_lru_cache.hpp)."""
import z3
from ..ast import Ast, parse_type, type_of, qual_of, T
from ..engine import Ex, opaque_sort, SORTS, BOOL
from ..sym import *
from ..contract import Contract
from .. import solve, locks

LISTS = ("std::list", "std::__cxx11::list")
LITS = ("std::_List_iterator", "std::_List_const_iterator")
MITS = ("std::_Rb_tree_iterator", "std::_Rb_tree_const_iterator")
MAPS = ("std::map",)
HEAP = LV("$heap")
I, B = z3.IntSort(), z3.BoolSort()


class CacheEx(Ex):
    """Ex plus the assumed contracts of std::list and std::map over a heap of list nodes.

    Heap: own[node] = list the node belongs to (0: none), key[node], rank[node] (position; smaller is nearer the front).
    The past-the-end node of list L is -L. A map is dom/val/it arrays plus its size."""

    def __init__(self, *a, **k):
        super().__init__(*a, **k)
        self.K, self.V = opaque_sort("pluto_vp::K"), opaque_sort("pluto_vp::V")
        M, C, F = self.methods, self.ctors, self.funcs
        for n in LISTS:
            C[n] = self.c_list
            for m in ("begin", "end", "cbegin", "cend", "front", "back", "push_front", "push_back", "emplace_front",
                      "emplace_back", "pop_front", "pop_back", "erase", "clear", "size", "empty", "splice", "insert",
                      "emplace"):
                M[(n, m)] = getattr(self, "l_" + {"cbegin": "begin", "cend": "end", "emplace_front": "push_front",
                                                  "emplace_back": "push_back", "emplace": "insert"}.get(m, m))
            M[(n, "operator=")] = self.l_assign
        for n in LITS:
            C[n] = self.c_same
            M[(n, "operator*")] = M[(n, "operator->")] = self.li_deref
            M[(n, "operator++")] = lambda ex, st, o, vs, e, ot: ex.li_step(st, o, vs, 1)
            M[(n, "operator--")] = lambda ex, st, o, vs, e, ot: ex.li_step(st, o, vs, -1)
            M[(n, "operator==")] = self.li_eq
            M[(n, "operator!=")] = self.li_ne
            M[(n, "operator=")] = self.assign
        for n in MAPS:
            C[n] = self.c_map
            for m in ("find", "count", "contains", "begin", "end", "cend", "erase", "emplace", "insert", "try_emplace", "at",
                      "size", "empty", "clear"):
                M[(n, m)] = getattr(self, "m_" + {"cend": "end"}.get(m, m))
            M[(n, "operator=")] = self.m_assign
        for n in MITS:
            C[n] = self.c_same
            M[(n, "operator*")] = self.mi_deref
            M[(n, "operator->")] = self.mi_arrow
            M[(n, "operator==")] = self.mi_eq
            M[(n, "operator!=")] = self.mi_ne
            M[(n, "operator=")] = self.assign
        C["std::pair"] = self.c_pair
        M[("std::pair", "operator=")] = self.assign
        F["make_pair"] = lambda ex, st, vs, e: iter([(st, ex.pair(ex.rv(st, vs[0]), ex.rv(st, vs[1])))])
        F["prev"] = lambda ex, st, vs, e: ex.f_prevnext(st, vs, -1)
        F["next"] = lambda ex, st, vs, e: ex.f_prevnext(st, vs, 1)

    # ---- heap ------------------------------------------------------------------------------------------------------
    def H(self, st):
        return st.mem["$heap"].fields

    def setH(self, st, **kw):
        h = st.mem["$heap"]
        for k, v in kw.items():
            h = h.with_(k, v)
        st.mem["$heap"] = h

    def fresh_heap(self, st):
        st.mem["$heap"] = SV("$heap", {"own": z3.Const(fresh_name("own"), z3.ArraySort(I, I)),
                                       "key": z3.Const(fresh_name("key"), z3.ArraySort(I, self.K)),
                                       "rank": z3.Const(fresh_name("rank"), z3.ArraySort(I, I))})
        self.heap_facts(st)

    def heap_facts(self, st):
        n = z3.Int("n")
        h = self.H(st)
        st.assume(z3.ForAll([n], z3.Implies(n <= 0, h["own"][n] == 0), patterns=[h["own"][n]]))

    def list_facts(self, st, l):
        """facts true of every std::list"""
        h, L, sz = self.H(st), l.fields["id"], l.fields["size"]
        n, m = z3.Ints("n m")
        own, rank = h["own"], h["rank"]
        w = z3.Int(fresh_name("w"))
        st.assume(z3.And(L > 0, sz >= 0, sz < (1 << 62)))
        st.assume(z3.ForAll([n], z3.Implies(own[n] == L, z3.And(n > 0, rank[n] < rank[-L], sz >= 1)), patterns=[own[n]]))
        st.assume(z3.ForAll([n, m], z3.Implies(z3.And(own[n] == L, own[m] == L, n != m), rank[n] != rank[m]),
                            patterns=[z3.MultiPattern(own[n], own[m])]))
        st.assume(z3.Implies(sz > 0, own[w] == L))
        st.assume(z3.Implies(sz > 1, z3.Exists([n], z3.And(own[n] == L, n != w))))

    def map_facts(self, st, m):
        d, sz = m.fields["dom"], m.fields["size"]
        k = z3.Const("k", self.K)
        w = z3.Const(fresh_name("wk"), self.K)
        st.assume(z3.And(sz >= 0, sz < (1 << 62)))
        st.assume(z3.ForAll([k], z3.Implies(d[k], sz >= 1), patterns=[d[k]]))
        st.assume(z3.Implies(sz > 0, d[w]))

    def new_list(self, st, size=0):
        L = z3.Int(fresh_name("L"))
        n = z3.Int("n")
        h = self.H(st)
        st.assume(L > 0)
        for o in st.ghost.get("lists", ()):
            st.assume(L != o)
        st.assume(z3.ForAll([n], h["own"][n] != L, patterns=[h["own"][n]]))
        st.ghost["lists"] = st.ghost.get("lists", ()) + (L,)
        l = SV("vlist", {"id": L, "size": z3.IntVal(0)})
        self.list_facts(st, l)
        return l

    def new_map(self, st):
        f = z3.K(self.K, z3.BoolVal(False))
        return SV("vmap", {"dom": f, "val": z3.Const(fresh_name("val"), z3.ArraySort(self.K, self.V)),
                           "it": z3.Const(fresh_name("it"), z3.ArraySort(self.K, I)), "size": z3.IntVal(0)})

    def pair(self, a, b):
        return SV("pair", {"first": a, "second": b})

    # ---- element access through ('at', key) paths --------------------------------------------------------------------
    def elem(self, st, v, i):
        if isinstance(v, SV) and v.name == "vmap":
            return self.pair(i, self.pair(v.fields["val"][i], v.fields["it"][i]))
        if z3.is_array(v) if isinstance(v, z3.ExprRef) else False:
            return v[i]
        return super().elem(st, v, i)

    def _upd(self, st, v, path, val):
        if path and not isinstance(path[0], str):
            i = path[0][1]
            if isinstance(v, SV) and v.name == "vmap":
                nv = super()._upd(st, self.elem(st, v, i), path[1:], val)
                x = nv.fields["second"].fields
                return v.with_("val", z3.Store(v.fields["val"], i, x["first"])).with_(
                    "it", z3.Store(v.fields["it"], i, x["second"]))
            if isinstance(v, z3.ExprRef) and z3.is_array(v):
                return z3.Store(v, i, val)
        return super()._upd(st, v, path, val)

    def L(self, st, obj):
        v = self.rv(st, obj)
        if not (isinstance(v, SV) and v.name == "vlist"):
            raise Unsupported("list expected, got %r" % (v,))
        return v

    def M_(self, st, obj):
        v = self.rv(st, obj)
        if not (isinstance(v, SV) and v.name == "vmap"):
            raise Unsupported("map expected, got %r" % (v,))
        return v

    # ---- list ----------------------------------------------------------------------------------------------------------
    def c_same(self, ex, st, t, vs, e):
        if not vs:
            yield st, z3.Int(fresh_name("singular"))
            return
        yield st, self.rv(st, vs[0])

    def assign(self, ex, st, obj, vs, e, ot):
        self.store(st, obj, self.rv(st, vs[0]))
        yield st, obj

    def c_list(self, ex, st, t, vs, e):
        vs = [v for v in vs if not (isinstance(v, Obj) and v.tname in ("defaultarg", "allocator"))]
        if not vs:
            yield st, self.new_list(st)
            return
        if len(vs) != 1:
            raise Unsupported("list constructor")
        src = self.L(st, vs[0])
        ct = ((e or {}).get("ctorType") or {}).get("qualType", "")
        if "&&" in ct:
            if isinstance(vs[0], LV):
                self.store(st, vs[0], self.new_list(st))
            yield st, src
            return
        yield st, self.copy_list(st, src)

    def copy_list(self, st, src):
        """a list with equal elements in equal order in nodes of its own; nothing else changes"""
        h = self.H(st)
        own, key, rank = h["own"], h["key"], h["rank"]
        L = src.fields["id"]
        N = self.new_list(st).fields["id"]
        self.fresh_heap_raw(st)
        g = self.H(st)
        o2, k2, r2 = g["own"], g["key"], g["rank"]
        f = z3.Function(fresh_name("cp"), I, I)
        b = z3.Function(fresh_name("cpinv"), I, I)
        n, m = z3.Ints("n m")
        st.assume(z3.ForAll([n], z3.Implies(own[n] != 0, z3.And(o2[n] == own[n], k2[n] == key[n], r2[n] == rank[n])),
                            patterns=[own[n], o2[n]]))
        st.assume(z3.ForAll([n], z3.Implies(z3.And(n <= 0, n != -N), z3.And(o2[n] == 0, r2[n] == rank[n]))))
        st.assume(z3.ForAll([n], z3.Implies(own[n] == 0, z3.Or(o2[n] == 0, o2[n] == N)), patterns=[o2[n]]))
        st.assume(z3.ForAll([n], z3.Implies(own[n] == L, z3.And(o2[f(n)] == N, k2[f(n)] == key[n], b(f(n)) == n)),
                            patterns=[own[n], f(n)]))
        st.assume(z3.ForAll([m], z3.Implies(o2[m] == N, z3.And(own[b(m)] == L, f(b(m)) == m, k2[m] == key[b(m)])),
                            patterns=[o2[m]]))
        st.assume(z3.ForAll([n, m], z3.Implies(z3.And(own[n] == L, own[m] == L),
                                               (rank[n] < rank[m]) == (r2[f(n)] < r2[f(m)])),
                            patterns=[z3.MultiPattern(f(n), f(m))]))
        # the same fact, read from the copy's side
        st.assume(z3.ForAll([n, m], z3.Implies(z3.And(o2[n] == N, o2[m] == N),
                                               (r2[n] < r2[m]) == (rank[b(n)] < rank[b(m)])),
                            patterns=[z3.MultiPattern(o2[n], o2[m])]))
        self.heap_facts(st)
        r = SV("vlist", {"id": N, "size": src.fields["size"]})
        self.list_facts(st, r)
        self.list_facts(st, src)
        return r

    def fresh_heap_raw(self, st):
        st.mem["$heap"] = SV("$heap", {"own": z3.Const(fresh_name("own"), z3.ArraySort(I, I)),
                                       "key": z3.Const(fresh_name("key"), z3.ArraySort(I, self.K)),
                                       "rank": z3.Const(fresh_name("rank"), z3.ArraySort(I, I))})

    def l_assign(self, ex, st, obj, vs, e, ot):
        src = self.L(st, vs[0])
        self.l_clear_(st, obj)
        if isinstance(vs[0], LV) and not self.is_move(e):
            self.store(st, obj, self.copy_list(st, src))
        else:
            self.store(st, obj, src)
            if isinstance(vs[0], LV):
                self.store(st, vs[0], self.new_list(st))
        yield st, obj

    def is_move(self, e):
        c = self.callee(e) if e else {}
        rd = c.get("referencedDecl") or self.ast.decl(c.get("referencedMemberDecl")) or {}
        if not rd and e:
            return self.inner(e)[-1].get("valueCategory") in ("xvalue", "prvalue")
        return "&&" in (rd.get("type", {}).get("qualType", ""))

    def l_begin(self, ex, st, obj, vs, e, ot):
        l = self.L(st, obj)
        self.list_facts(st, l)
        h, L = self.H(st), l.fields["id"]
        n = z3.Int("n")
        b = z3.Int(fresh_name("begin"))
        st.assume(z3.Implies(l.fields["size"] == 0, b == -L))
        st.assume(z3.Implies(l.fields["size"] > 0, h["own"][b] == L))
        st.assume(z3.ForAll([n], z3.Implies(z3.And(h["own"][n] == L, n != b), h["rank"][b] < h["rank"][n]),
                            patterns=[h["own"][n]]))
        yield st, b

    def l_end(self, ex, st, obj, vs, e, ot):
        l = self.L(st, obj)
        self.list_facts(st, l)
        yield st, -l.fields["id"]

    def li_step_term(self, st, x, d):
        h = self.H(st)
        own, rank = h["own"], h["rank"]
        n = z3.Int("n")
        L = z3.If(x < 0, -x, own[x])
        p = z3.Int(fresh_name("step"))
        if d < 0:
            self.oblige(st, "decremented-iterator-is-not-begin",
                        z3.And(L > 0, z3.Exists([n], z3.And(own[n] == L, rank[n] < rank[x]))), "safety")
            st.assume(z3.And(own[p] == L, rank[p] < rank[x]))
            st.assume(z3.ForAll([n], z3.Implies(z3.And(own[n] == L, rank[n] < rank[x], n != p), rank[n] < rank[p]),
                                patterns=[own[n]]))
        else:
            self.oblige(st, "incremented-iterator-is-dereferenceable", z3.And(x > 0, own[x] > 0), "safety")
            st.assume(z3.And(rank[p] > rank[x], z3.Or(p == -L, own[p] == L)))
            st.assume(z3.ForAll([n], z3.Implies(z3.And(own[n] == L, rank[n] > rank[x], n != p),
                                                z3.And(p != -L, rank[p] < rank[n])), patterns=[own[n]]))
        return p

    def li_step(self, st, o, vs, d):
        x = self.rv(st, o)
        p = self.li_step_term(st, x, d)
        if vs:                       # postfix
            self.store(st, o, p)
            yield st, x
        else:
            if isinstance(o, LV):
                self.store(st, o, p)
                yield st, o
            else:
                yield st, p

    def f_prevnext(self, st, vs, d):
        x = self.rv(st, vs[0])
        if len(vs) > 1 and not (isinstance(vs[1], Obj)):
            n = z3.simplify(self.rv(st, vs[1]))
            if not (z3.is_int_value(n) and n.as_long() == 1):
                raise Unsupported("std::prev/next by other than 1")
        yield st, self.li_step_term(st, x, d)

    def li_deref(self, ex, st, o, vs, e, ot):
        x = self.rv(st, o)
        self.oblige(st, "list-iterator-dereferenceable", z3.And(x > 0, self.H(st)["own"][x] > 0), "safety")
        lv = LV("$heap", ("key", ("at", x)))
        if (self.callee(e).get("referencedDecl") or {}).get("name") == "operator->":
            yield st, PtrV(z3.BoolVal(False), lv, None)
        else:
            yield st, lv

    def li_eq(self, ex, st, o, vs, e, ot):
        yield st, self.rv(st, o) == self.rv(st, vs[0])

    def li_ne(self, ex, st, o, vs, e, ot):
        yield st, self.rv(st, o) != self.rv(st, vs[0])

    def l_front(self, ex, st, obj, vs, e, ot):
        for s, b in self.l_begin(ex, st, obj, [], e, ot):
            self.oblige(s, "front-of-a-nonempty-list", self.L(s, obj).fields["size"] > 0, "safety")
            yield s, LV("$heap", ("key", ("at", b)))

    def l_back(self, ex, st, obj, vs, e, ot):
        l = self.L(st, obj)
        self.list_facts(st, l)
        self.oblige(st, "back-of-a-nonempty-list", l.fields["size"] > 0, "safety")
        yield st, LV("$heap", ("key", ("at", self.li_step_term(st, -l.fields["id"], -1))))

    def place(self, st, obj, k, rank_conds):
        """links a fresh node with the given key into the list"""
        l = self.L(st, obj)
        self.list_facts(st, l)
        h, L = self.H(st), l.fields["id"]
        x = z3.Int(fresh_name("node"))
        r = z3.Int(fresh_name("rank"))
        st.assume(z3.And(x > 0, h["own"][x] == 0))
        end = z3.Int(fresh_name("rend"))
        st.assume(z3.And(end >= h["rank"][-L], r < end))
        rank_conds(r, h, L)
        self.setH(st, own=z3.Store(h["own"], x, L), key=z3.Store(h["key"], x, k),
                  rank=z3.Store(z3.Store(h["rank"], -L, end), x, r))
        nl = l.with_("size", l.fields["size"] + 1)
        self.store(st, obj, nl)
        self.heap_facts(st)
        self.list_facts(st, nl)
        return x

    def l_push_front(self, ex, st, obj, vs, e, ot):
        k = self.rv(st, vs[0])
        n = z3.Int("n")
        x = self.place(st, obj, k, lambda r, h, L: st.assume(
            z3.ForAll([n], z3.Implies(h["own"][n] == L, r < h["rank"][n]), patterns=[h["own"][n]])))
        yield st, LV("$heap", ("key", ("at", x)))

    def l_push_back(self, ex, st, obj, vs, e, ot):
        k = self.rv(st, vs[0])
        n = z3.Int("n")
        x = self.place(st, obj, k, lambda r, h, L: st.assume(
            z3.ForAll([n], z3.Implies(h["own"][n] == L, r > h["rank"][n]), patterns=[h["own"][n]])))
        yield st, LV("$heap", ("key", ("at", x)))

    def l_insert(self, ex, st, obj, vs, e, ot):
        if len(vs) != 2:
            raise Unsupported("list::insert with %d arguments" % len(vs))
        pos, k = self.rv(st, vs[0]), self.rv(st, vs[1])
        h0 = self.H(st)
        L0 = self.L(st, obj).fields["id"]
        self.oblige(st, "insert-position-in-this-list", z3.Or(pos == -L0, h0["own"][pos] == L0), "safety")
        p0 = h0["rank"][pos]
        if not z3.eq(z3.simplify(pos), z3.simplify(-L0)):
            # only insertion at the front or the end is modelled
            st2 = st.fork()
            n = z3.Int("n")
            if not self.entails(st, z3.ForAll([n], z3.Implies(h0["own"][n] == L0, p0 <= h0["rank"][n]))):
                raise Unsupported("list::insert in the middle")
            yield from self.l_push_front_it(st, obj, k)
            return
        for s, lv in self.l_push_back(ex, st, obj, [k], e, ot):
            yield s, lv.path[-1][1]

    def l_push_front_it(self, st, obj, k):
        for s, lv in self.l_push_front(self, st, obj, [k], None, None):
            yield s, lv.path[-1][1]

    def unlink(self, st, obj, x, what):
        l = self.L(st, obj)
        self.list_facts(st, l)
        h, L = self.H(st), l.fields["id"]
        self.oblige(st, what, h["own"][x] == L, "safety")
        self.setH(st, own=z3.Store(h["own"], x, z3.IntVal(0)))
        nl = l.with_("size", l.fields["size"] - 1)
        self.store(st, obj, nl)
        self.heap_facts(st)
        self.list_facts(st, nl)

    def l_erase(self, ex, st, obj, vs, e, ot):
        if len(vs) != 1:
            raise Unsupported("list::erase of a range")
        x = self.rv(st, vs[0])
        h = self.H(st)
        s0 = st.fork()
        self.unlink(st, obj, x, "erased-iterator-belongs-to-this-list")
        p = z3.Int(fresh_name("after"))
        yield st, p

    def l_pop_front(self, ex, st, obj, vs, e, ot):
        for s, b in self.l_begin(ex, st, obj, [], e, ot):
            self.unlink(s, obj, b, "pop-from-a-nonempty-list")
            yield s, VOID

    def l_pop_back(self, ex, st, obj, vs, e, ot):
        l = self.L(st, obj)
        self.list_facts(st, l)
        b = self.li_step_term(st, -l.fields["id"], -1)
        self.unlink(st, obj, b, "pop-from-a-nonempty-list")
        yield st, VOID

    def l_clear_(self, st, obj):
        l = self.L(st, obj)
        h, L = self.H(st), l.fields["id"]
        o2 = z3.Const(fresh_name("own"), z3.ArraySort(I, I))
        n = z3.Int("n")
        st.assume(z3.ForAll([n], o2[n] == z3.If(h["own"][n] == L, 0, h["own"][n]), patterns=[o2[n], h["own"][n]]))
        self.setH(st, own=o2)
        nl = l.with_("size", z3.IntVal(0))
        self.store(st, obj, nl)
        self.list_facts(st, nl)

    def l_clear(self, ex, st, obj, vs, e, ot):
        self.l_clear_(st, obj)
        yield st, VOID

    def l_size(self, ex, st, obj, vs, e, ot):
        l = self.L(st, obj)
        self.list_facts(st, l)
        yield st, l.fields["size"]

    def l_empty(self, ex, st, obj, vs, e, ot):
        l = self.L(st, obj)
        self.list_facts(st, l)
        yield st, l.fields["size"] == 0

    def l_splice(self, ex, st, obj, vs, e, ot):
        """splice(pos, list, it): moves one node in front of pos (pos must be the front or the end of the same list)"""
        if len(vs) != 3:
            raise Unsupported("list::splice with %d arguments" % len(vs))
        l, l2 = self.L(st, obj), self.L(st, vs[1])
        if not z3.eq(l.fields["id"], l2.fields["id"]):
            raise Unsupported("splice between lists")
        self.list_facts(st, l)
        pos, x = self.rv(st, vs[0]), self.rv(st, vs[2])
        h, L = self.H(st), l.fields["id"]
        own, rank = h["own"], h["rank"]
        n = z3.Int("n")
        self.oblige(st, "spliced-iterator-belongs-to-this-list", own[x] == L, "safety")
        self.oblige(st, "splice-position-in-this-list", z3.Or(pos == -L, own[pos] == L), "safety")
        r = z3.Int(fresh_name("rank"))
        end = z3.Int(fresh_name("rend"))
        st.assume(z3.And(end >= rank[-L], r < end))
        if z3.eq(z3.simplify(pos), z3.simplify(-L)):
            st.assume(z3.ForAll([n], z3.Implies(z3.And(own[n] == L, n != x), r > rank[n]), patterns=[own[n]]))
        elif self.entails(st, z3.ForAll([n], z3.Implies(own[n] == L, rank[pos] <= rank[n]))):
            st.assume(z3.Implies(pos == x, r == rank[x]))
            st.assume(z3.Implies(pos != x, z3.ForAll([n], z3.Implies(z3.And(own[n] == L, n != x), r < rank[n]),
                                                     patterns=[own[n]])))
        else:
            raise Unsupported("splice to the middle")
        self.setH(st, rank=z3.Store(z3.Store(rank, -L, end), x, r))
        self.list_facts(st, l)
        yield st, VOID

    # ---- map -------------------------------------------------------------------------------------------------------------
    def c_map(self, ex, st, t, vs, e):
        vs = [v for v in vs if not (isinstance(v, Obj) and v.tname in ("defaultarg", "allocator"))]
        if not vs:
            yield st, self.new_map(st)
            return
        if len(vs) != 1:
            raise Unsupported("map constructor")
        v = self.M_(st, vs[0])
        ct = ((e or {}).get("ctorType") or {}).get("qualType", "")
        if "&&" in ct and isinstance(vs[0], LV):
            self.store(st, vs[0], self.new_map(st))
        yield st, v

    def m_assign(self, ex, st, obj, vs, e, ot):
        v = self.M_(st, vs[0])
        self.store(st, obj, v)
        if self.is_move(e) and isinstance(vs[0], LV):
            self.store(st, vs[0], self.new_map(st))
        yield st, obj

    def mit(self, obj, k, end):
        if not isinstance(obj, LV):
            raise Unsupported("map temporary")
        return Obj("vmapit", map=obj, key=k, end=end)

    def m_find(self, ex, st, obj, vs, e, ot):
        m = self.M_(st, obj)
        self.map_facts(st, m)
        k = self.rv(st, vs[0])
        yield st, self.mit(obj, k, z3.simplify(z3.Not(m.fields["dom"][k])))

    def m_end(self, ex, st, obj, vs, e, ot):
        yield st, self.mit(obj, z3.Const("nokey", self.K), z3.BoolVal(True))

    def m_begin(self, ex, st, obj, vs, e, ot):
        m = self.M_(st, obj)
        self.map_facts(st, m)
        k = z3.Const(fresh_name("mbegin"), self.K)
        st.assume(z3.Implies(m.fields["size"] > 0, m.fields["dom"][k]))
        yield st, self.mit(obj, k, m.fields["size"] == 0)

    def m_count(self, ex, st, obj, vs, e, ot):
        yield st, z3.If(self.M_(st, obj).fields["dom"][self.rv(st, vs[0])], z3.IntVal(1), z3.IntVal(0))

    def m_contains(self, ex, st, obj, vs, e, ot):
        yield st, self.M_(st, obj).fields["dom"][self.rv(st, vs[0])]

    def m_size(self, ex, st, obj, vs, e, ot):
        m = self.M_(st, obj)
        self.map_facts(st, m)
        yield st, m.fields["size"]

    def m_empty(self, ex, st, obj, vs, e, ot):
        m = self.M_(st, obj)
        self.map_facts(st, m)
        yield st, m.fields["size"] == 0

    def m_clear(self, ex, st, obj, vs, e, ot):
        self.store(st, obj, self.new_map(st))
        yield st, VOID

    def m_erase(self, ex, st, obj, vs, e, ot):
        m = self.M_(st, obj)
        self.map_facts(st, m)
        x = self.rv(st, vs[0])
        if len(vs) != 1:
            raise Unsupported("map::erase of a range")
        f = m.fields
        if isinstance(x, Obj) and x.tname == "vmapit":
            k = x.key
            self.oblige(st, "erased-map-iterator-valid", z3.And(z3.BoolVal(x.map.same(obj)), z3.Not(x.end), f["dom"][k]),
                        "safety")
            res = None
        else:
            k = x
            res = z3.If(f["dom"][k], z3.IntVal(1), z3.IntVal(0))
        nm = m.with_("dom", z3.Store(f["dom"], k, z3.BoolVal(False))).with_(
            "size", z3.If(f["dom"][k], f["size"] - 1, f["size"]))
        self.store(st, obj, nm)
        self.map_facts(st, nm)
        if res is None:
            kk = z3.Const(fresh_name("mafter"), self.K)
            res = self.mit(obj, kk, z3.Bool(fresh_name("mafterend")))
        yield st, res

    def m_put(self, st, obj, k, val, it):
        m = self.M_(st, obj)
        self.map_facts(st, m)
        f = m.fields
        had = f["dom"][k]
        nm = m.with_("dom", z3.Store(f["dom"], k, z3.BoolVal(True))).with_(
            "val", z3.Store(f["val"], k, z3.If(had, f["val"][k], val))).with_(
            "it", z3.Store(f["it"], k, z3.If(had, f["it"][k], it))).with_(
            "size", z3.If(had, f["size"], f["size"] + 1))
        self.store(st, obj, nm)
        self.map_facts(st, nm)
        return self.pair(self.mit(obj, k, z3.BoolVal(False)), z3.Not(had))

    def m_emplace(self, ex, st, obj, vs, e, ot):
        if len(vs) != 2:
            return (yield from self.m_insert(ex, st, obj, vs, e, ot))
        k, p = self.rv(st, vs[0]), self.rv(st, vs[1])
        if not (isinstance(p, SV) and p.name == "pair"):
            raise Unsupported("map::emplace arguments")
        yield st, self.m_put(st, obj, k, p.fields["first"], p.fields["second"])

    def m_try_emplace(self, ex, st, obj, vs, e, ot):
        k = self.rv(st, vs[0])
        if len(vs) == 3:
            yield st, self.m_put(st, obj, k, self.rv(st, vs[1]), self.rv(st, vs[2]))
        else:
            yield from self.m_emplace(ex, st, obj, vs, e, ot)

    def m_insert(self, ex, st, obj, vs, e, ot):
        if len(vs) != 1:
            raise Unsupported("map::insert")
        p = self.rv(st, vs[0])
        if not (isinstance(p, SV) and p.name == "pair" and isinstance(p.fields["second"], SV)):
            raise Unsupported("map::insert argument")
        yield st, self.m_put(st, obj, p.fields["first"], p.fields["second"].fields["first"],
                             p.fields["second"].fields["second"])

    def m_at(self, ex, st, obj, vs, e, ot):
        m = self.M_(st, obj)
        k = self.rv(st, vs[0])
        for s, b in self.branch(st, m.fields["dom"][k]):
            if b:
                yield s, LV(obj.cell, obj.path + (("at", k), "second"))
            else:
                s.thrown = ("std::out_of_range", None)
                yield s, None

    def mi_deref(self, ex, st, o, vs, e, ot):
        x = self.rv(st, o)
        m = self.M_(st, x.map)
        self.oblige(st, "map-iterator-dereferenceable", z3.And(z3.Not(x.end), m.fields["dom"][x.key]), "safety")
        yield st, x.map.at(x.key)

    def mi_arrow(self, ex, st, o, vs, e, ot):
        for s, lv in self.mi_deref(ex, st, o, vs, e, ot):
            yield s, PtrV(z3.BoolVal(False), lv, None)

    def mi_eq(self, ex, st, o, vs, e, ot):
        a, b = self.rv(st, o), self.rv(st, vs[0])
        if not a.map.same(b.map):
            self.oblige(st, "map-iterators-of-one-map", z3.BoolVal(False), "safety")
        yield st, z3.simplify(z3.Or(z3.And(a.end, b.end), z3.And(z3.Not(a.end), z3.Not(b.end), a.key == b.key)))

    def mi_ne(self, ex, st, o, vs, e, ot):
        for s, v in self.mi_eq(ex, st, o, vs, e, ot):
            yield s, z3.simplify(z3.Not(v))

    def c_pair(self, ex, st, t, vs, e):
        if len(vs) == 2:
            yield st, self.pair(self.rv(st, vs[0]), self.rv(st, vs[1]))
        elif len(vs) == 1:
            yield st, self.rv(st, vs[0])
        else:
            raise Unsupported("std::pair constructor")

    # ---- implicit copy and move of the cache itself: memberwise ---------------------------------------------------------
    def memberwise(self, st, v, move, src_lv):
        f = {}
        for k, x in v.fields.items():
            if isinstance(x, SV) and x.name == "vlist":
                if move:
                    f[k] = x
                    if src_lv is not None:
                        self.store(st, src_lv.f(k), self.new_list(st))
                else:
                    f[k] = self.copy_list(st, x)
            elif isinstance(x, SV) and x.name == "vmap" and move and src_lv is not None:
                f[k] = x
                self.store(st, src_lv.f(k), self.new_map(st))
            else:
                f[k] = x
        return SV(v.name, f)

    def construct_record(self, st, t, rec, args, e):
        if t.name.endswith("lru_cache") and len(args) == 1 and repr(type_of(args[0])).rstrip("&") == repr(t).rstrip("&"):
            ct = (e.get("ctorType") or {}).get("qualType", "")
            user = [c for c in rec.get("inner", ()) if c.get("kind") == "CXXConstructorDecl" and
                    c.get("type", {}).get("qualType") == ct and not c.get("isImplicit") and not c.get("explicitlyDefaulted")]
            if not user:
                for s, v in self.ev(st, args[0]):
                    lv = v if isinstance(v, LV) else None
                    yield s, self.memberwise(s, self.rv(s, v), "&&" in ct, lv)
                return
        yield from super().construct_record(st, t, rec, args, e)

    def call_undefined(self, st, d, vs, this, e):
        if d.get("name") == "operator=" and this is not None and isinstance(self.rv(st, vs[0]), SV) and \
                "vmap" in [getattr(x, "name", "") for x in self.rv(st, vs[0]).fields.values()]:
            move = "&&" in d.get("type", {}).get("qualType", "")
            lv = vs[0] if isinstance(vs[0], LV) else None
            self.store(st, this, self.memberwise(st, self.rv(st, vs[0]), move, lv))
            yield st, this
            return
        yield from super().call_undefined(st, d, vs, this, e)


PRE = r'''
#include <pluto/lru_cache.hpp>
#include <pluto/safe_lru_cache.hpp>
namespace pluto_vp {
struct K { K(const K&); K& operator=(const K&); bool operator<(const K&) const; };
struct V { V(const V&); V& operator=(const V&); };
typedef pluto::lru_cache<K,V> C;
typedef pluto::safe_lru_cache<K,V> S;
'''
OPS = r'''
bool %(p)sinsert(%(C)s& c, const K& k, const V& v) { return c.insert(k, v); }
bool %(p)sassign(%(C)s& c, const K& k, const V& v) { return c.insert_or_assign(k, v); }
bool %(p)sget(%(C)s& c, const K& k, V& v) { return c.get(k, v); }
bool %(p)sremove(%(C)s& c, const K& k) { return c.remove(k); }
void %(p)sclear(%(C)s& c) { c.clear(); }
void %(p)ssetcap(%(C)s& c, std::size_t n) { c.capacity(n); }
bool %(p)scontains(const %(C)s& c, const K& k) { return c.contains(k); }
std::size_t %(p)ssize(const %(C)s& c) { return c.size(); }
bool %(p)sempty(const %(C)s& c) { return c.empty(); }
std::size_t %(p)scap(const %(C)s& c) { return c.capacity(); }
'''
COPY = r'''
C make(std::size_t n) { return C(n); }
C copy(const C& o) { return C(o); }
void cassign(C& a, const C& b) { a = b; }
'''
OPNAMES = ("insert", "assign", "get", "remove", "clear", "setcap", "contains", "size", "empty", "cap")


class View:
    def __init__(self, ex, st, lv, F):
        v = ex.load(st, lv)
        l, m = v.fields[F["list"]].fields, v.fields[F["map"]].fields
        h = ex.H(st)
        self.L, self.lsize = l["id"], l["size"]
        self.dom, self.val, self.it, self.size = m["dom"], m["val"], m["it"], m["size"]
        self.cap = v.fields[F["cap"]]
        self.own, self.key, self.rank = h["own"], h["key"], h["rank"]
        self.K = ex.K

    def before(self, x, y):
        return self.rank[self.it[x]] < self.rank[self.it[y]]

    def inv(self):
        """representation invariant, one named formula per conjunct"""
        k = z3.Const("k", self.K)
        n = z3.Int("n")
        return [
            ("every-entry-has-its-list-node", z3.ForAll([k], z3.Implies(self.dom[k], z3.And(
                self.own[self.it[k]] == self.L, self.key[self.it[k]] == k)), patterns=[self.dom[k]])),
            ("every-list-node-is-an-entry's", z3.ForAll([n], z3.Implies(self.own[n] == self.L, z3.And(
                self.dom[self.key[n]], self.it[self.key[n]] == n)), patterns=[self.own[n]])),
            ("list-and-index-have-equal-sizes", self.lsize == self.size),
            ("size<=capacity", z3.And(self.size >= 0, self.size <= self.cap)),
        ]


def fields_of(ex):
    """the cache's list, index and capacity members, found by type"""
    rec = None
    for r in ex.records().get("lru_cache", ()):
        if r.get("name") == "lru_cache" and r.get("kind") == "ClassTemplateSpecializationDecl" and any(
                c.get("kind") == "FieldDecl" for c in r.get("inner", ())):
            rec = r
    if rec is None:
        raise Unsupported("lru_cache specialisation not found")
    F = {}
    for c in rec.get("inner", ()):
        if c.get("kind") == "FieldDecl":
            t = type_of(c)
            k = "list" if t.name in LISTS else "map" if t.name in MAPS else "cap" if t.kind == "int" else None
            if k is None or k in F:
                raise Unsupported("lru_cache member %s" % c.get("name"))
            F[k] = c["name"]
    if set(F) != {"list", "map", "cap"}:
        raise Unsupported("lru_cache members %s" % F)
    return F


class CacheContract(Contract):
    """capacity(): what every iteration of the eviction loop keeps; copy: what the rebinding loop has done so far"""

    def __init__(self, name, F):
        super().__init__(name)
        self.F = F
        self.entry = None
        self.lv = None
        self.copying = None

    def invariants(self, ex, st, mod, idx):
        out = []
        if self.lv is not None and self.lv.cell in st.mem and self.entry is not None:
            p = self.entry
            V = lambda s: View(ex, s, self.lv, self.F)
            x, y = z3.Consts("x y", ex.K)
            n = z3.Int("n")
            for i in range(3):
                out.append(("INV." + V(st).inv()[i][0], lambda s, i=i: V(s).inv()[i][1]))
            out.append(("kept-entries-subset", lambda s: z3.ForAll([x], z3.Implies(V(s).dom[x], p.dom[x]),
                                                                   patterns=[V(s).dom[x]])))
            out.append(("kept-values-and-nodes", lambda s: z3.ForAll([x], z3.Implies(V(s).dom[x], z3.And(
                V(s).val[x] == p.val[x], V(s).it[x] == p.it[x], V(s).rank[V(s).it[x]] == p.rank[p.it[x]])),
                patterns=[V(s).dom[x]])))
            out.append(("removed-are-older-than-kept", lambda s: z3.ForAll([x, y], z3.Implies(z3.And(
                p.dom[x], z3.Not(V(s).dom[x]), V(s).dom[y]), p.before(y, x)),
                patterns=[z3.MultiPattern(p.dom[x], V(s).dom[y])])))
            out.append(("size<=old-size", lambda s: V(s).size <= p.size))
            out.append(("size>=min(old,new)", lambda s: z3.Or(V(s).size >= V(s).cap, V(s).size == p.size)))
            out.append(("evicts-only-when-over-the-capacity", lambda s: z3.Or(p.size > V(s).cap, z3.ForAll(
                [x], z3.Implies(p.dom[x], V(s).dom[x])))))
            out.append(("capacity-kept", lambda s: V(s).cap == ex.load(st, self.lv).fields[self.F["cap"]]))
            out.append(("frame:other-nodes", lambda s: frame(ex, p, V(s))))
        if self.copying is not None:
            out += self.copying(ex, st, mod)
        return out


def frame(ex, p, q):
    """nodes of other lists are untouched"""
    n = z3.Int("n")
    return z3.And(z3.ForAll([n], z3.Implies(z3.And(p.own[n] != 0, p.own[n] != p.L), z3.And(
        q.own[n] == p.own[n], q.key[n] == p.key[n], q.rank[n] == p.rank[n])), patterns=[p.own[n]]),
        z3.ForAll([n], z3.Implies(z3.And(q.own[n] != 0, q.own[n] != p.L), p.own[n] == q.own[n]), patterns=[q.own[n]]))


def setup(ex, F, name="c"):
    st = St()
    ex.fresh_heap(st)
    lv = new_cache(ex, st, F, name)
    return st, lv


def new_cache(ex, st, F, name):
    L = z3.Int(fresh_name("L_" + name))
    l = SV("vlist", {"id": L, "size": z3.Int(fresh_name("lsize"))})
    K = ex.K
    m = SV("vmap", {"dom": z3.Const(fresh_name("dom"), z3.ArraySort(K, B)), "val": z3.Const(fresh_name("val"), z3.ArraySort(K, ex.V)),
                    "it": z3.Const(fresh_name("it"), z3.ArraySort(K, I)), "size": z3.Int(fresh_name("msize"))})
    cap = z3.Int(fresh_name("cap"))
    st.assume(z3.And(cap >= 0, cap < (1 << 64)))
    for o in st.ghost.get("lists", ()):
        st.assume(o != L)
    st.ghost["lists"] = st.ghost.get("lists", ()) + (L,)
    st.mem[name] = SV("pluto::lru_cache", {F["list"]: l, F["map"]: m, F["cap"]: cap})
    ex.list_facts(st, l)
    ex.map_facts(st, m)
    lv = LV(name)
    for nm, f in View(ex, st, lv, F).inv():
        st.assume(f)
    return lv


def same_entries(p, q, but=None, K=None):
    x = z3.Const("x", K)
    c = (x != but) if but is not None else z3.BoolVal(True)
    return z3.ForAll([x], z3.Implies(c, q.dom[x] == p.dom[x]))


def same_vals(p, q, but=None, K=None):
    x = z3.Const("x", K)
    c = (x != but) if but is not None else z3.BoolVal(True)
    return z3.ForAll([x], z3.Implies(z3.And(c, q.dom[x]), q.val[x] == p.val[x]))


def same_order(p, q, but=None, K=None):
    x, y = z3.Consts("x y", K)
    c = z3.And(x != but, y != but) if but is not None else z3.BoolVal(True)
    return z3.ForAll([x, y], z3.Implies(z3.And(c, p.dom[x], p.dom[y], q.dom[x], q.dom[y]), q.before(x, y) == p.before(x, y)))


def is_first(q, k, K):
    x = z3.Const("x", K)
    return z3.And(q.dom[k], z3.ForAll([x], z3.Implies(z3.And(q.dom[x], x != k), q.before(k, x))))


def posts(ex, op, p, q, res, k, v, vout0, vout1, n):
    """(name, formula) list: the effect of the operation on the abstract cache (entries, values, recency order, capacity)"""
    K = ex.K
    x, y = z3.Consts("x y", K)
    same = [("entries-unchanged", same_entries(p, q, None, K)), ("values-unchanged", same_vals(p, q, None, K)),
            ("recency-unchanged", same_order(p, q, None, K)), ("size-unchanged", q.size == p.size)]
    others = [("other-values-unchanged", same_vals(p, q, k, K)), ("other-recency-unchanged", same_order(p, q, k, K))]
    capk = [("capacity-unchanged", q.cap == p.cap)]

    def under(c, fs):
        return [(a, z3.Implies(c, f)) for a, f in fs]
    out = []
    if op in ("insert", "assign"):
        out += capk + [("returns-true-iff-absent", res == z3.Not(p.dom[k]))]
        out += under(z3.And(z3.Not(p.dom[k]), p.cap == 0), [("zero-capacity:" + a, f) for a, f in same])
        ins = z3.And(z3.Not(p.dom[k]), p.cap != 0)
        full = p.size >= p.cap
        out += under(ins, [("absent:" + a, f) for a, f in [
            ("stored-with-its-value", z3.And(q.dom[k], q.val[k] == v)), ("becomes-most-recent", is_first(q, k, K)),
            ("no-other-entry-appears", z3.ForAll([x], z3.Implies(z3.And(x != k, q.dom[x]), p.dom[x]))),
            ("nothing-evicted-unless-full", z3.Implies(z3.Not(full), z3.ForAll([x], z3.Implies(p.dom[x], q.dom[x])))),
            ("only-the-least-recent-is-evicted", z3.ForAll([x, y], z3.Implies(
                z3.And(p.dom[x], z3.Not(q.dom[x]), p.dom[y], x != y), p.before(y, x)))),
            ("the-least-recent-is-evicted-when-full", z3.Implies(full, z3.ForAll([x], z3.Implies(
                z3.And(p.dom[x], z3.ForAll([y], z3.Implies(z3.And(p.dom[y], x != y), p.before(y, x)))), z3.Not(q.dom[x]))))),
            ("size", q.size == z3.If(full, p.cap, p.size + 1))] + others])
        if op == "insert":
            out += under(p.dom[k], [("present:" + a, f) for a, f in same])
        else:
            out += under(p.dom[k], [("present:" + a, f) for a, f in [
                ("entries-unchanged", same_entries(p, q, None, K)), ("value-replaced", q.val[k] == v),
                ("becomes-most-recent", is_first(q, k, K)), ("size-unchanged", q.size == p.size)] + others])
    elif op == "get":
        out += capk + [("returns-whether-present", res == p.dom[k])]
        out += under(p.dom[k], [("found:" + a, f) for a, f in [
            ("value-delivered", vout1 == p.val[k]), ("entries-unchanged", same_entries(p, q, None, K)),
            ("values-unchanged", same_vals(p, q, None, K)), ("becomes-most-recent", is_first(q, k, K)),
            ("size-unchanged", q.size == p.size), others[1]]])
        out += under(z3.Not(p.dom[k]), [("missing:" + a, f) for a, f in same + [("value-untouched", vout1 == vout0)]])
    elif op == "remove":
        out += capk + [("returns-whether-present", res == p.dom[k]), ("entry-gone", z3.Not(q.dom[k])),
                       ("other-entries-kept", same_entries(p, q, k, K)),
                       ("size", q.size == z3.If(p.dom[k], p.size - 1, p.size))] + others
    elif op == "clear":
        out += capk + [("no-entry-left", z3.ForAll([x], z3.Not(q.dom[x]))), ("size-zero", q.size == 0)]
    elif op == "setcap":
        out += [("capacity-set", q.cap == n), ("no-entry-appears", z3.ForAll([x], z3.Implies(q.dom[x], p.dom[x]))),
                ("values-unchanged", same_vals(p, q, None, K)), ("recency-unchanged", same_order(p, q, None, K)),
                ("evicts-least-recent-only", z3.ForAll([x, y], z3.Implies(
                    z3.And(p.dom[x], z3.Not(q.dom[x]), q.dom[y]), p.before(y, x)))),
                ("evicts-only-as-far-as-needed", q.size == z3.If(p.size <= n, p.size, n)),
                ("nothing-evicted-if-it-fits", z3.Implies(p.size <= n, z3.ForAll([x], z3.Implies(p.dom[x], q.dom[x]))))]
    else:
        out += capk + same
        want = {"contains": p.dom[k], "size": p.size, "empty": p.size == 0, "cap": p.cap}[op]
        out += [("result", res == want)]
    return out


def args_of(op, st, ex):
    k, v, w = z3.Const("key", ex.K), z3.Const("value", ex.V), z3.Const("out0", ex.V)
    n = z3.Int("newcap")
    st.assume(z3.And(n >= 0, n < (1 << 64)))
    st.mem["k"], st.mem["v"], st.mem["out"] = k, v, w
    vs = {"insert": [LV("k"), LV("v")], "assign": [LV("k"), LV("v")], "get": [LV("k"), LV("out")], "remove": [LV("k")],
          "contains": [LV("k")], "setcap": [n]}.get(op, [])
    return vs, k, v, w, n


def prove_op(r, op, pid):
    r.name = "lru_cache::" + {"assign": "insert_or_assign", "setcap": "capacity(n)", "cap": "capacity()"}.get(op, op)
    ast = Ast.load(PRE + OPS % {"C": "C", "p": ""} + "}")
    c = CacheContract(r.name, None)
    ex = CacheEx(ast, "int", c, 420)
    F = fields_of(ex)
    c.F = F
    st, lv = setup(ex, F)
    if pid == "C03":
        new_cache(ex, st, F, "other")
    vs, k, v, w, n = args_of(op, st, ex)
    p = View(ex, st, lv, F)
    c.lv, c.entry = lv, p
    cnt = 0
    for s, res in ex.inline(st.fork(), ast.driver_fn(op), [lv] + vs):
        ex.oblige(s, "no-exception-escapes", z3.BoolVal(s.thrown is None))
        if s.thrown is not None:
            continue
        cnt += 1
        cv = ex.load(s, lv)
        ex.list_facts(s, cv.fields[F["list"]])
        ex.map_facts(s, cv.fields[F["map"]])
        q = View(ex, s, lv, F)
        if res is not None and op not in ("size", "cap"):
            res = ex.boolv(res)
        if pid == "C01":
            for nm, f in q.inv():
                ex.oblige(s, "INV:" + nm, f, "invariant")
            for nm, f in posts(ex, op, p, q, res, k, v, w, s.mem["out"], n):
                ex.oblige(s, "post:" + nm, f)
        else:
            ex.oblige(s, "same-list-object", q.L == p.L)
            ex.oblige(s, "frame:nodes-of-other-caches-untouched", frame(ex, p, q))
            ex.oblige(s, "frame:other-cache-members-untouched", z3.BoolVal(same_value(s.mem["other"], st.mem["other"])))
            for nm, f in View(ex, s, LV("other"), F).inv():
                ex.oblige(s, "INV(other):" + nm, f, "invariant")
    if not cnt:
        ex.oblige(st, "reachable", z3.BoolVal(False))
    ex.covers = cnt
    r.absorb(ex)


def prove_make(r):
    r.name = "lru_cache::lru_cache(capacity)"
    ast = Ast.load(PRE + OPS % {"C": "C", "p": ""} + COPY + "}")
    c = CacheContract(r.name, None)
    ex = CacheEx(ast, "int", c, 200)
    F = fields_of(ex)
    st = St()
    ex.fresh_heap(st)
    n = z3.Int("n0")
    st.assume(z3.And(n >= 0, n < (1 << 64)))
    for s, v in ex.inline(st, ast.driver_fn("make"), [n]):
        s.mem["c"] = ex.rv(s, v)
        q = View(ex, s, LV("c"), F)
        for nm, f in q.inv():
            ex.oblige(s, "INV:" + nm, f, "invariant")
        x = z3.Const("x", ex.K)
        ex.oblige(s, "post:starts-empty", z3.And(z3.ForAll([x], z3.Not(q.dom[x])), q.size == 0))
        ex.oblige(s, "post:capacity-as-given", q.cap == n)
    r.absorb(ex)


def prove_copy(r, how):
    r.name = "lru_cache " + {"copy": "copy construction", "cassign": "copy assignment", "self": "self-assignment"}[how]
    ast = Ast.load(PRE + OPS % {"C": "C", "p": ""} + COPY + "}")
    c = CacheContract(r.name, None)
    ex = CacheEx(ast, "int", c, 420)
    F = fields_of(ex)
    st, lo = setup(ex, F, "o")
    args = [lo]
    if how == "cassign":
        args = [new_cache(ex, st, F, "a"), lo]
    elif how == "self":
        args = [lo, lo]
    p = View(ex, st, lo, F)

    def copying(ex, s0, mod):
        # cells holding a cache under construction (any cache-shaped value other than the source)
        out = []
        x = z3.Const("x", ex.K)
        n = z3.Int("n")
        for cell, v in s0.mem.items():
            if cell in ("o", "a", "$heap") or not (isinstance(v, SV) and F["list"] in v.fields and F["map"] in v.fields):
                continue
            lv = LV(cell)
            w = View(ex, s0, lv, F)
            V = lambda s, lv=lv: View(ex, s, lv, F)
            out.append(("members-kept", lambda s, w=w, V=V: z3.And(V(s).L == w.L, V(s).lsize == w.lsize, V(s).cap == w.cap,
                                                                  V(s).size == w.size)))
            out.append(("entries-kept", lambda s, w=w, V=V: z3.And(
                z3.ForAll([x], V(s).dom[x] == w.dom[x]), z3.ForAll([x], z3.Implies(w.dom[x], V(s).val[x] == w.val[x])))))
            for c2 in ex.scope_cells(s0):
                iv = s0.mem.get(c2)
                if isinstance(iv, z3.ArithRef) and c2 in mod:
                    it = lambda s, c2=c2: s.mem[c2]
                    out.append(("iterator-in-own-list(%s)" % c2.split("!")[0], lambda s, it=it, V=V: z3.Or(
                        it(s) == -V(s).L, V(s).own[it(s)] == V(s).L)))
                    out.append(("visited-entries-are-rebound(%s)" % c2.split("!")[0], lambda s, it=it, V=V: z3.ForAll(
                        [n], z3.Implies(z3.And(V(s).own[n] == V(s).L, V(s).rank[n] < V(s).rank[it(s)]),
                                        V(s).it[V(s).key[n]] == n), patterns=[V(s).own[n]])))
                    # the source's coupling carries over to the copied list: each node's key is an entry, one node per key
        return out
    c.copying = copying
    cnt = 0
    for s, v in ex.inline(st.fork(), ast.driver_fn("copy" if how == "copy" else "cassign"), args):
        ex.oblige(s, "no-exception-escapes", z3.BoolVal(s.thrown is None))
        if s.thrown is not None:
            continue
        cnt += 1
        if how == "copy":
            s.mem["a"] = ex.rv(s, v)
        la = LV("a") if how != "self" else lo
        av = ex.load(s, la)
        ex.list_facts(s, av.fields[F["list"]])
        ex.map_facts(s, av.fields[F["map"]])
        q = View(ex, s, la, F)
        o2 = View(ex, s, lo, F)
        K = ex.K
        kk, nn = z3.Const("kk", K), z3.Int("nn")
        for nm, f in (("every-entry-of-the-original-is-in-the-copied-list", z3.ForAll([kk], z3.Implies(
                p.dom[kk], z3.Exists([nn], z3.And(q.own[nn] == q.L, q.key[nn] == kk))), patterns=[p.dom[kk]])),
                ("every-copied-node-is-bound-to-its-key", z3.ForAll([nn], z3.Implies(
                    q.own[nn] == q.L, q.it[q.key[nn]] == nn), patterns=[q.own[nn]])),
                ("same-keys", z3.ForAll([kk], q.dom[kk] == p.dom[kk], patterns=[q.dom[kk]]))):
            ex.oblige(s, "lemma:" + nm, f)
            s.assume(f)
        for nm, f in q.inv():
            ex.oblige(s, "INV(copy):" + nm, f, "invariant")
        for nm, f in (("same-capacity", q.cap == p.cap), ("same-entries", same_entries(p, q, None, K)),
                      ("same-values", same_vals(p, q, None, K)), ("same-recency", same_order(p, q, None, K)),
                      ("same-size", q.size == p.size)):
            ex.oblige(s, "post:" + nm, f)
        if how != "self":
            ex.oblige(s, "post:list-nodes-of-its-own", q.L != o2.L)
            for nm, f in o2.inv():
                ex.oblige(s, "INV(original):" + nm, f, "invariant")
            for nm, f in (("same-capacity", o2.cap == p.cap), ("same-entries", same_entries(p, o2, None, K)),
                          ("same-values", same_vals(p, o2, None, K)), ("same-recency", same_order(p, o2, None, K)),
                          ("same-size", o2.size == p.size)):
                ex.oblige(s, "original:" + nm, f)
    if not cnt:
        ex.oblige(st, "reachable", z3.BoolVal(False))
    ex.covers = cnt
    r.absorb(ex)


# ---- C02 -----------------------------------------------------------------------------------------------------------------
PURE = ("contains", "size", "empty", "cap")


def prove_safe(r, op):
    r.name = "safe_lru_cache::" + {"assign": "insert_or_assign", "setcap": "capacity(n)", "cap": "capacity()"}.get(op, op)
    ast = Ast.load(PRE + OPS % {"C": "C", "p": "p_"} + OPS % {"C": "S", "p": ""} + "}")
    ex = Ex(ast, "int", Contract(r.name), 200)
    locks.install(ex)
    SIG = opaque_sort("CacheState")
    KS, VS = opaque_sort("pluto_vp::K"), opaque_sort("pluto_vp::V")
    R = {o: ex.uf("res:" + o, SIG, *{"insert": [KS, VS], "assign": [KS, VS], "get": [KS], "remove": [KS], "contains": [KS],
                                     "setcap": [I]}.get(o, []), {"size": I, "cap": I}.get(o, B)) for o in OPNAMES}
    E_ = {o: ex.uf("eff:" + o, SIG, *{"insert": [KS, VS], "assign": [KS, VS], "get": [KS], "remove": [KS],
                                      "setcap": [I]}.get(o, []), SIG) for o in OPNAMES if o not in PURE}
    GV = ex.uf("val:get", SIG, KS, VS)
    rec = None
    for x in ex.records().get("safe_lru_cache", ()):
        if x.get("name") == "safe_lru_cache" and x.get("kind") == "ClassTemplateSpecializationDecl" and any(
                c.get("kind") == "FieldDecl" for c in x.get("inner", ())):
            rec = x
    if rec is None:
        raise Unsupported("safe_lru_cache specialisation not found")
    fs = {}
    cache = None
    for c in rec["inner"]:
        if c.get("kind") == "FieldDecl":
            t = type_of(c)
            if t.name in locks.MUTEXES:
                fs[c["name"]] = Obj("mutex", id=("m", c["name"]))
            elif t.name.endswith("lru_cache"):
                cache = c["name"]
                fs[cache] = z3.Const("sigma0", SIG)
            else:
                raise Unsupported("safe_lru_cache member %s" % c["name"])
    st = St()
    st.mem["c"] = SV("pluto::safe_lru_cache", fs)
    st.ghost["sections"] = ()
    st.ghost["nops"] = ()

    def acquire(ex, st, k, mode):
        sig = z3.Const(fresh_name("sigma"), SIG)       # other threads ran: any state
        v = st.mem["c"]
        st.mem["c"] = v.with_(cache, sig)
        st.ghost["sections"] = st.ghost["sections"] + ((sig, None, mode, 0),)

    def release(ex, st, k, mode):
        a, _, m, n = st.ghost["sections"][-1]
        st.ghost["sections"] = st.ghost["sections"][:-1] + ((a, st.mem["c"].fields[cache], m, n),)
    ex.hooks["acquire"], ex.hooks["release"] = acquire, release

    def handler(ex, st, d, vs, this, e):
        nm = d["name"]
        o = {"insert_or_assign": "assign"}.get(nm, nm)
        if nm == "capacity":
            o = "setcap" if vs else "cap"
        if o not in R:
            return None
        if not isinstance(this, LV) or this.cell != "c":
            return None

        def go():
            sig = ex.load(st, this)
            hl = locks.held(st)
            if o in PURE:
                ex.oblige(st, "cache-read-under-a-lock(%s)" % nm, z3.BoolVal(bool(hl)), "lock")
            else:
                ex.oblige(st, "cache-changed-under-the-exclusive-lock(%s)" % nm,
                          z3.BoolVal(any(m == "X" for _, m in hl)), "lock")
            if hl and st.ghost["sections"]:
                a, b, m, n = st.ghost["sections"][-1]
                st.ghost["sections"] = st.ghost["sections"][:-1] + ((a, b, m, n + 1),)
            us = [ex.rv(st, v) for v in vs]
            if o == "get":
                k = us[0]
                ok = R["get"](sig, k)
                ex.store(st, vs[1], z3.If(ok, GV(sig, k), us[1]))
                ex.store(st, this, E_["get"](sig, k))
                yield st, ok
                return
            if o not in PURE:
                ex.store(st, this, E_[o](sig, *us))
            yield st, (VOID if o in ("clear", "setcap") else R[o](sig, *us))
        return go()
    for nm in ("insert", "insert_or_assign", "get", "remove", "clear", "capacity", "contains", "size", "empty"):
        ex.hooks["fn:lru_cache::" + nm] = handler
    k, v, w, n = z3.Const("key", KS), z3.Const("value", VS), z3.Const("out0", VS), z3.Int("newcap")
    st.assume(z3.And(n >= 0, n < (1 << 64)))
    st.mem["k"], st.mem["v"], st.mem["out"] = k, v, w
    vs = {"insert": [LV("k"), LV("v")], "assign": [LV("k"), LV("v")], "get": [LV("k"), LV("out")], "remove": [LV("k")],
          "contains": [LV("k")], "setcap": [n]}.get(op, [])
    us = {"insert": [k, v], "assign": [k, v], "get": [k], "remove": [k], "contains": [k], "setcap": [n]}.get(op, [])
    cnt = 0
    for s, res in ex.inline(st.fork(), ast.driver_fn(op), [LV("c")] + vs):
        ex.oblige(s, "no-exception-escapes", z3.BoolVal(s.thrown is None))
        if s.thrown is not None:
            continue
        cnt += 1
        ex.oblige(s, "returns-with-no-lock-held", z3.BoolVal(not locks.held(s)), "lock")
        secs = [x for x in s.ghost["sections"] if x[1] is not None]
        ex.oblige(s, "runs-in-a-critical-section", z3.BoolVal(len(secs) >= 1), "lock")
        if any(x[3] > 1 for x in secs):
            ex.inconclusive.append("several cache operations in one critical section")
        alts = []
        for i, (a, b, m, _) in enumerate(secs):
            fsx = [y[1] == y[0] for j, y in enumerate(secs) if j != i]
            fsx.append(b == (a if op in PURE else E_[op](a, *us)))
            if op not in ("clear", "setcap"):
                rr = res if op in ("size", "cap") else ex.boolv(res)
                fsx.append(rr == R[op](a, *us))
            if op == "get":
                fsx.append(s.mem["out"] == z3.If(R["get"](a, k), GV(a, k), w))
            elif not z3.eq(s.mem["out"], w):
                fsx.append(z3.BoolVal(False))
            alts.append(z3.And(*fsx))
        ex.oblige(s, "post:equals-the-plain-operation-at-one-atomic-point", z3.Or(*alts) if alts else z3.BoolVal(False))
        if op not in PURE:
            ex.oblige(s, "changing-operation-ran-exclusively", z3.BoolVal(any(x[2] == "X" for x in secs)), "lock")
    if not cnt:
        ex.oblige(st, "reachable", z3.BoolVal(False))
    ex.covers = cnt
    r.absorb(ex)


def tasks(pid, tier):
    if pid == "C01":
        return ["C01:" + o for o in OPNAMES] + ["C01:make"]
    if pid == "C02":
        return ["C02:" + o for o in OPNAMES]
    return ["C03:copy", "C03:cassign", "C03:self"] + ["C03:" + o for o in OPNAMES]


def prove(tid, r, tier):
    pid, o = tid.split(":")
    if pid == "C02":
        prove_safe(r, o)
    elif o == "make":
        prove_make(r)
    elif o in ("copy", "cassign", "self"):
        prove_copy(r, o)
    else:
        prove_op(r, o, pid)


def natives(pid, tier):
    if pid == "C02":
        return [dict(name="cache-C02-schedules", src="cache.cpp", args=["C02"], secs={"quick": 15, "thorough": 150},
                     flags=["-O1", "-g", "-DVP_SCHED"]),
                dict(name="cache-C02-races", src="cache.cpp", args=["C02"], secs={"quick": 6, "thorough": 60},
                     flags=["-O1", "-g", "-fsanitize=thread"])]
    return [dict(name="cache-" + pid, src="cache.cpp", args=[pid], secs={"quick": 15, "thorough": 150})]


TRUSTED = {"*": ["assumed contracts of std::list and std::map (vp/props/cache.py, class CacheEx) over a heap of list nodes"]}
ASSUME = {
    "C01": ["Key's operator< is a strict weak order whose equivalence is equality; copying keys and values does not throw",
            "arbitrary Key and Value types (uninterpreted sorts)"],
    "C02": ["std::shared_mutex/unique_lock/shared_lock behave as specified (vp/locks.py)",
            "the plain cache's operations are functions of its state (what C01 establishes)"],
    "C03": ["as C01; move construction of std::list and std::map keeps nodes and iterators valid"],
}
