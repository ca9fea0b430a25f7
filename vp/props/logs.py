"""L01-L05 (logger.hpp): monitor contracts (see vp/monitor.py).

A buffer is a pair of positions: lo (oldest entry kept) and hi (next free); the list's front is hi-1 and its back lo. Entries never
change once added, so an entry is the pair (file, position) and its contents are functions of that pair. The ghost w[file] is the
position of the next entry to be handed to the writer. Strings and paths are terms built from the operations the code applies."""
import itertools
import z3
from ..ast import Ast, parse_type, type_of, qual_of, body_of, params_of, T
from ..engine import Ex, opaque_sort, repr_type, STRING_RECS
from ..sym import *
from ..contract import Contract
from ..monitor import MonitorEx, forall, arr, I, B, FN, END, TRUE, FALSE, GHOST
from .. import locks, solve

TXT = """#include <pluto/logger.hpp>
void pluto_vp_mark();
void pluto_vp_drop(pluto::logger& l, const std::string& f, const pluto::log_level v, const pluto::source_info s, int a, int b) { auto&& x = l.stream(f, v, s); x << a << b; }
void pluto_vp_temp(pluto::logger& l, const std::string& f, const pluto::log_level v, const pluto::source_info s, int a, int b) { l.stream(f, v, s) << a << b; }
void pluto_vp_tname(pluto::logger& l, const std::string& f, const pluto::log_level v, const pluto::source_info s, int a, int b) { auto&& x = l.stream(std::string(f), v, s); x << a << b; }
void pluto_vp_ended(pluto::logger& l, const std::string& f, const pluto::log_level v, const pluto::source_info s, int a, int b) { auto&& x = l.stream(f, v, s); x << a << b; x.end(); pluto_vp_mark(); x << b; x.end(); }
void pluto_vp_write(pluto::logger& l, const std::string& f, const std::string& m) { PLUTO_LOG_WRITE_WITH(l, f, info, m); }
void pluto_vp_writef(pluto::logger& l, const std::string& f) { PLUTO_LOG_WRITEF_WITH(l, f, info, "%d", 1); }
void pluto_vp_stream(pluto::logger& l, const std::string& f, int a, int b) { PLUTO_LOG_STREAM_WITH(l, f, info, a << b); }
bool pluto_vp_levels() { using v = pluto::log_level; return v::off > v::fatal && v::fatal > v::critical && v::critical > v::error && v::error > v::warning && v::warning > v::notice && v::notice > v::info && v::info > v::debug && v::debug > v::trace && v::trace > v::verbose && v::crit == v::critical && v::warn == v::warning && v::note == v::notice && v::verb == v::verbose; }
#if PLUTO_UTILS_HAS_FORMAT
void pluto_vp_format(pluto::logger& l, const std::string& f, const pluto::log_level v, const pluto::source_info s, int a, int b) { l.format(f, v, s, "{} {}", a, b); }
void pluto_vp_formatm(pluto::logger& l, const std::string& f, int a, int b) { PLUTO_LOG_FORMAT_WITH(l, f, info, "{} {}", a, b); }
#endif
"""
# with the source information hidden the calls have overloads of their own
HTXT = "#define PLUTO_LOGGER_HIDE_SOURCE_INFO 1\n" + TXT + """
void pluto_vp_hwrite(pluto::logger& l, const std::string& f, const pluto::log_level v, const std::string& m) { l.write(f, v, m); }
void pluto_vp_hwritef(pluto::logger& l, const std::string& f, const pluto::log_level v, int a, int b) { l.writef(f, v, "%d %d", a, b); }
void pluto_vp_hstream(pluto::logger& l, const std::string& f, const pluto::log_level v, int a, int b) { auto&& x = l.stream(f, v); x << a << b; }
#if PLUTO_UTILS_HAS_FORMAT
void pluto_vp_hformat(pluto::logger& l, const std::string& f, const pluto::log_level v, int a, int b) { l.format(f, v, "{} {}", a, b); }
#endif
"""
STDS = ["c++20", "c++17", "c++14"]
OBJ = "log"
PTR = opaque_sort("cptr")
PATHS = ("std::filesystem::path", "std::filesystem::__cxx11::path")
ATOMS = ("std::atomic", "std::__atomic_base")
OSTREAMS = ("std::basic_ofstream", "std::basic_ostream", "std::basic_ostringstream", "std::basic_ios", "std::ios_base", "std::basic_fstream")
FSERR = "std::filesystem::filesystem_error"
STABLE = ("m_isLogging", "m_bufferFlushSize")          # written under m_loggingMutex only
MODES = {"app": 1, "binary": 4, "in": 8, "out": 16, "trunc": 32, "ate": 2}
SETTINGS = {"level": ("m_level", ("L01",)), "create_dirs": ("m_createDirs", ("L02",)), "write_header": ("m_writeHeader", ("L02",)),
            "buffer_max_size": ("m_bufferMaxSize", ("L03",)), "buffer_flush_size": ("m_bufferFlushSize", ("L03",)),
            "file_rotation_size": ("m_fileRotationSize", ("L04",)), "file_rotation_limit": ("m_fileRotationLimit", ("L04",))}
ALL = ("L01", "L02", "L03", "L04", "L05")


def LO(m):
    return m.fields["v:buffer.lo"]


def HI(m):
    return m.fields["v:buffer.hi"]


class LogContract(Contract):
    def invariants(self, ex, st, mod, idx):
        cell = ex.objcell(st)
        if cell is None:
            return []
        g = ex.G
        M = lambda s: s.mem[cell].fields["m_logFiles"]
        out = [("nothing owed", lambda s: z3.Not(g(s, "p_wake")))]
        x = z3.Int("x")
        j = z3.Int("j")
        if ex.role in ("logger", "dtor", "flush"):
            for nm, f, p in ex.INV(st, cell):
                out.append(("INV:" + nm, lambda s, nm=nm: {a: b for a, b, c in ex.INV(s, cell)}[nm]))
            out.append(("written is what was erased", lambda s: forall([x], z3.Implies(M(s).fields["dom"][x], g(s, "w")[x] == LO(M(s))[x]), patterns=[M(s).fields["dom"][x]])))
            m0, w0 = M(st), g(st, "w")
            out.append(("files stay", lambda s: forall([x], z3.Implies(m0.fields["dom"][x], M(s).fields["dom"][x]), patterns=[m0.fields["dom"][x]])))
            if ex.role == "logger":
                A = lambda s: s.mem["$at"].fields["m_logFiles"]
                out.append(("files and newest entries as when the lock was taken", lambda s: forall([x], z3.And(A(s).fields["dom"][x] == M(s).fields["dom"][x], z3.Implies(
                    A(s).fields["dom"][x], HI(A(s))[x] == HI(M(s))[x])), patterns=[M(s).fields["dom"][x]])))
            bools = [c for c in ex.scope_cells(st) if isinstance(st.mem[c], z3.BoolRef)]
            its = [c for c in ex.scope_cells(st) if isinstance(st.mem.get(c), SV) and st.mem[c].name == "mapit"]
            lits = [c for c in ex.scope_cells(st) if isinstance(st.mem.get(c), SV) and st.mem[c].name == "lit"]
            below = lambda s: lambda y: z3.Or(HI(M(s))[y] == LO(M(s))[y], HI(M(s))[y] - LO(M(s))[y] < ex.atom(s, "m_bufferFlushSize"))
            for c in its:
                it = lambda s, c=c: s.mem[c].fields["n"]
                if c in mod:
                    out.append(("at a file or past the end", lambda s, it=it: z3.Or(it(s) == END, M(s).fields["dom"][it(s)])))
                    out.append(("visited buffers are written", lambda s, it=it: forall([x], z3.Implies(
                        z3.And(M(s).fields["dom"][x], z3.Or(it(s) == END, x < it(s))), z3.Or(g(s, "w")[x] == HI(M(s))[x], g(s, "failed")[x])), patterns=[M(s).fields["dom"][x]])))
                    out.append(("unvisited buffers are untouched", lambda s, it=it: forall([x], z3.Implies(
                        z3.And(M(s).fields["dom"][x], it(s) != END, x >= it(s)), g(s, "w")[x] == LO(M(s))[x]), patterns=[M(s).fields["dom"][x]])))
            for c in bools:
                for sg in (True, False):
                    b = lambda s, c=c, sg=sg: s.mem[c] if sg else z3.Not(s.mem[c])
                    nm = c.split("!")[0] if sg else "not " + c.split("!")[0]
                    out.append(("all below when " + nm, lambda s, b=b: z3.Implies(b(s), forall([x], z3.Implies(M(s).fields["dom"][x], below(s)(x)), patterns=[M(s).fields["dom"][x]]))))
                    for c2 in its:
                        it = lambda s, c2=c2: s.mem[c2].fields["n"]
                        out.append(("visited below when " + nm, lambda s, b=b, it=it: z3.Implies(b(s), forall([x], z3.Implies(
                            z3.And(M(s).fields["dom"][x], z3.Or(it(s) == END, x < it(s))), below(s)(x)), patterns=[M(s).fields["dom"][x]]))))
            for c in lits:
                if c in mod:
                    n = ex.node(st.mem[c].fields["c"])
                    e = lambda s, c=c: ex.eff(s, s.mem[c])
                    out.append(("the next entry stands before the iterator", lambda s, e=e, n=n: g(s, "w")[n] == e(s) + 1))
                    out.append(("other files untouched", lambda s, n=n: forall([x], z3.Implies(x != n, g(s, "w")[x] == w0[x]), patterns=[g(s, "w")[x]])))
                    out.append(("written from the oldest on", lambda s, n=n: g(s, "w")[n] >= w0[n]))
                    for c2 in lits:
                        if c2 != c:
                            e2 = lambda s, c2=c2: ex.eff(s, s.mem[c2])
                            out.append(("iterators in order 1", lambda s, e=e, e2=e2: e(s) <= e2(s)))
                            out.append(("iterators in order 2", lambda s, e=e, e2=e2: e2(s) <= e(s)))
            out.append(("no fault so far", lambda s: z3.Not(g(s, "fault"))))
            for c in ex.scope_cells(st):
                v = st.mem.get(c)
                if isinstance(v, SV) and v.name == "ofs":
                    F = lambda s, c=c: s.mem[c].fields
                    out += [("stream open", lambda s, F=F: F(s)["open"]), ("stream good", lambda s, F=F: F(s)["good"]), ("no line pending", lambda s, F=F: z3.Not(F(s)["nl"])),
                            ("stream positioned", lambda s, F=F: F(s)["pos"]), ("size", lambda s, F=F: z3.And(F(s)["size"] >= 0, F(s)["bsz"] == F(s)["size"])),
                            ("same file", lambda s, F=F, p0=F(st)["path"]: F(s)["path"] == p0), ("size only grows from the rotation", lambda s, F=F: F(s)["size"] >= 0)]
        if ex.role == "rotate":
            # series templates over the integers in scope
            e0 = z3.Const("ex0", arr(B))
            e1, c1 = g(st, "ex"), g(st, "ct")
            ints = [(n, f, m) for n, f, m in idx]
            lim = [("limit%d" % k, (lambda s, t=t: t), False) for k, t in enumerate(st.ghost.get("rd:m_fileRotationLimit", ()))]
            ms = [q for q in ints if q[2]]
            allv = ints + [l for l in lim if not any(not m and z3.eq(f(st), l[1](st)) for n, f, m in ints)] + [("0", lambda s: z3.IntVal(0), False)]
            for n, f, m in ms:                                     # what a counter was when the loop began
                v0 = f(st)
                if not z3.is_int_value(v0) and not any(z3.eq(v0, q[1](st)) for q in allv if not q[2]):
                    allv.append((n + " at entry", lambda s, v0=v0: v0, False))
            ex_, ct_ = lambda s: g(s, "ex"), lambda s: g(s, "ct")
            for n, f, m in ms:
                out.append(("not negative:" + n, lambda s, f=f: f(s) >= 0))
                out.append(("series below %s" % n, lambda s, f=f: forall([j], z3.Implies(z3.And(0 <= j, j < f(s)), e0[j]), patterns=[e0[j]])))
                out.append(("free at %s" % n, lambda s, f=f: z3.Not(ex_(s)[f(s)])))
                out.append(("below %s as at entry" % n, lambda s, f=f: forall([j], z3.Implies(z3.And(0 <= j, j < f(s)), z3.And(ex_(s)[j] == e1[j], ct_(s)[j] == c1[j])), patterns=[ex_(s)[j]])))
                out.append(("above %s as at entry" % n, lambda s, f=f: forall([j], z3.Implies(j >= f(s), z3.And(ex_(s)[j] == e1[j], ct_(s)[j] == c1[j])), patterns=[ex_(s)[j]])))
                for n2, f2, m2 in allv:
                    if n2 == n:
                        continue
                    out.append(("nothing left in [%s,%s)" % (n2, n), lambda s, f=f, f2=f2: forall([j], z3.Implies(z3.And(f2(s) <= j, j < f(s)), z3.Not(ex_(s)[j])), patterns=[ex_(s)[j]])))
                    out.append(("untouched below %s" % n2, lambda s, f2=f2: forall([j], z3.Implies(z3.And(0 <= j, j < f2(s)), z3.And(ex_(s)[j] == e0[j], ct_(s)[j] == j)), patterns=[ex_(s)[j]])))
                    out.append(("shifted in (%s,%s]" % (n, n2), lambda s, f=f, f2=f2: forall([j], z3.Implies(z3.And(f(s) < j, j <= f2(s)), z3.And(ex_(s)[j], ct_(s)[j] == j - 1)), patterns=[ex_(s)[j]])))
                    out.append(("above %s as at entry " % n2, lambda s, f2=f2: forall([j], z3.Implies(j > f2(s), z3.And(ex_(s)[j] == e1[j], ct_(s)[j] == c1[j])), patterns=[ex_(s)[j]])))
                    for n3, f3, m3 in allv:
                        if n3 not in (n, n2):
                            out.append(("%s=min(%s,%s)" % (n, n2, n3), lambda s, f=f, f2=f2, f3=f3: f(s) == z3.If(f2(s) < f3(s), f2(s), f3(s))))
        return out


class LogsEx(MonitorEx):
    CLASS = "pluto::logger"
    LOCKPROPS = ("L05",)

    def __init__(self, ast, pid, role, budget=200.0):
        self.role, self.pid = role, pid
        MonitorEx.__init__(self, ast, LogContract(role), budget)
        self.ENUMS = {"pluto::log_level": parse_type("signed char"), "log_level": parse_type("signed char")}
        self.strs = {}
        ty = dict(self.fields())
        need = {"m_loggingMutex", "m_loggingThread", "m_loggingCondition", "m_logFiles", "m_configMutex", "m_logWriter", "m_headerWriter", "m_isLogging", "m_numDiscardedLogs"} | {v[0] for v in SETTINGS.values()}
        if not need <= set(ty):
            raise Unsupported("members missing: %s" % sorted(need - set(ty)))
        M, C, F = self.methods, self.ctors, self.funcs
        one = self.one
        # strings
        for n in STRING_RECS:
            C[n] = self.c_str
            M[(n, "operator+")] = lambda ex, st, o, vs, e, ot: one(st, self.cat(st, o, vs[0]))
            M[(n, "operator+/r")] = lambda ex, st, o, vs, e, ot: one(st, self.cat(st, o, vs[0]))
            M[(n, "operator+=")] = M[(n, "append")] = self.s_append
            M[(n, "operator=")] = M[(n, "assign")] = self.s_assign
            M[(n, "resize")] = self.s_resize
            for m in ("size", "length"):
                M[(n, m)] = lambda ex, st, o, vs, e, ot: one(st, self.slen(st, self.str(st, o)))
            M[(n, "empty")] = lambda ex, st, o, vs, e, ot: one(st, self.slen(st, self.str(st, o)) == 0)
            M[(n, "operator[]")] = M[(n, "front")] = lambda ex, st, o, vs, e, ot: one(st, o.at(self.rv(st, vs[0]) if vs else z3.IntVal(0)))
            M[(n, "data")] = lambda ex, st, o, vs, e, ot: one(st, PtrV(FALSE, o, z3.IntVal(0)) if isinstance(o, LV) else PtrV(FALSE, st.new(o), z3.IntVal(0)))
            M[(n, "c_str")] = M[(n, "data")]
        F["to_string"] = lambda ex, st, vs, e: one(st, self.mkstr([("num", self.rv(st, vs[0]))]))
        # paths
        for n in PATHS:
            C[n] = self.c_path
            M[(n, "empty")] = lambda ex, st, o, vs, e, ot: one(st, self.rv(st, o) == 0)
            M[(n, "string")] = M[(n, "native")] = M[(n, "generic_string")] = lambda ex, st, o, vs, e, ot: one(st, self.rv(st, o))
            for m in ("stem", "extension", "parent_path", "filename"):
                M[(n, m)] = lambda ex, st, o, vs, e, ot, m=m: one(st, self.uf(m, I, I)(self.rv(st, o)))
            M[(n, "operator/")] = lambda ex, st, o, vs, e, ot: one(st, self.uf("join", I, I, I)(self.rv(st, o), self.str(st, vs[0])))
            M[(n, "operator=")] = M[(n, "assign")] = self.p_assign
            M[(n, "operator/=")] = self.p_join
            M[(n, "operator+=")] = M[(n, "concat")] = self.p_concat
        for n in ("absolute", "exists", "remove", "rename", "create_directories", "file_size"):
            F[n] = getattr(self, "fs_" + n)
        C["std::error_code"] = lambda ex, st, t, vs, e: one(st, Obj("errc"))
        F["make_error_code"] = lambda ex, st, vs, e: one(st, Obj("errc"))
        # atomics
        for n in ATOMS:
            C[n] = lambda ex, st, t, vs, e: one(st, SV("std::atomic", {"v": self.rv(st, vs[0]) if vs else self.default_value(st, t.args[0]), "t": t.args[0].name or t.args[0].kind}))
            M[(n, "load")] = self.a_load
            M[(n, "store")] = M[(n, "operator=")] = self.a_store
            M[(n, "operator++")] = M[(n, "fetch_add")] = M[(n, "operator+=")] = self.a_inc
        # lists
        for n in ("std::list", "std::__cxx11::list"):
            C[n] = lambda ex, st, t, vs, e: one(st, SV("blist", {"lo": z3.IntVal(0), "hi": z3.IntVal(0)}))
            for m in ("size", "empty", "begin", "end", "emplace_front", "push_front", "emplace_back", "push_back", "erase", "pop_back", "pop_front", "clear", "front", "back", "cbegin", "cend"):
                M[(n, m)] = getattr(self, "l_" + m.replace("cbegin", "begin").replace("cend", "end"))
        for n in ("std::_List_iterator", "std::_List_const_iterator"):
            C[n] = lambda ex, st, t, vs, e: one(st, self.rv(st, vs[0]))
            M[(n, "operator*")] = self.li_deref
            M[(n, "operator->")] = self.li_arrow
            M[(n, "operator--")] = lambda ex, st, o, vs, e, ot: self.li_step(st, o, vs, 1)
            M[(n, "operator++")] = lambda ex, st, o, vs, e, ot: self.li_step(st, o, vs, -1)
            M[(n, "operator==")] = lambda ex, st, o, vs, e, ot: one(st, self.li_eq(st, o, vs[0]))
            M[(n, "operator!=")] = lambda ex, st, o, vs, e, ot: one(st, z3.Not(self.li_eq(st, o, vs[0])))
            M[(n, "operator=")] = self.v_assign
            F["operator=="] = lambda ex, st, vs, e: one(st, self.li_eq(st, vs[0], vs[1]))
        old_next, old_prev = F["next"], F["prev"]
        F["next"] = lambda ex, st, vs, e: self.l_far(st, vs, -1) if self.is_lit(st, vs[0]) else old_next(ex, st, vs, e)
        F["prev"] = lambda ex, st, vs, e: self.l_far(st, vs, 1) if self.is_lit(st, vs[0]) else old_prev(ex, st, vs, e)
        # streams
        C["std::basic_ofstream"] = self.o_ctor
        C["std::basic_ostringstream"] = lambda ex, st, t, vs, e: one(st, Obj("oss", parts=()))
        for n in OSTREAMS:
            M[(n, "open")] = self.o_open
            M[(n, "close")] = self.o_close
            M[(n, "is_open")] = lambda ex, st, o, vs, e, ot: one(st, self.ofs(st, o).fields["open"])
            M[(n, "good")] = lambda ex, st, o, vs, e, ot: one(st, self.ofs(st, o).fields["good"])
            M[(n, "fail")] = M[(n, "bad")] = M[(n, "operator!")] = lambda ex, st, o, vs, e, ot: one(st, z3.Not(self.ofs(st, o).fields["good"]))
            M[(n, "operator bool")] = lambda ex, st, o, vs, e, ot: one(st, self.ofs(st, o).fields["good"])
            M[(n, "tellp")] = self.o_tellp
            M[(n, "operator<<")] = self.o_put
            M[(n, "put")] = self.o_put
            M[(n, "flush")] = lambda ex, st, o, vs, e, ot: one(st, o)
            M[(n, "str")] = lambda ex, st, o, vs, e, ot: one(st, self.mkstr(self.rv(st, o).parts))
        self.dtors["ofs"] = self.o_dtor
        C["std::fpos"] = lambda ex, st, t, vs, e: one(st, self.rv(st, vs[0]))
        for m, f in (("==", lambda a, b: a == b), ("!=", lambda a, b: a != b)):
            M[("std::fpos", "operator" + m)] = lambda ex, st, o, vs, e, ot, f=f: one(st, f(self.rv(st, o), self.rv(st, vs[0])))
        for n, v in MODES.items():
            self.hooks["global:" + n] = (lambda v: lambda ex, st: z3.IntVal(v))(v)
        F["operator|"] = lambda ex, st, vs, e: one(st, self.modes(st, vs[0], vs[1]))
        for k in ("std::_Ios_Openmode", "std::ios_base::openmode"):
            M[(k, "operator|")] = lambda ex, st, o, vs, e, ot: one(st, self.modes(st, o, vs[0]))
        # formatting
        for n in ("va_start", "va_copy", "va_end"):
            F["__builtin_" + n] = getattr(self, n)
        F["vsnprintf"] = self.vsnprintf
        C["std::basic_format_string"] = lambda ex, st, t, vs, e: one(st, z3.Const("fmtscheme", PTR))
        M[("std::basic_format_string", "get")] = lambda ex, st, o, vs, e, ot: one(st, self.rv(st, o))
        for n in ("std::basic_format_args", "std::__format::_Arg_store", "std::_Arg_store"):
            C[n] = lambda ex, st, t, vs, e: one(st, self.rv(st, vs[0]))
        F["make_format_args"] = lambda ex, st, vs, e: one(st, Obj("fmtargs", vals=tuple(self.rv(st, v) for v in vs)))
        F["vformat"] = self.vformat
        F["format"] = lambda ex, st, vs, e: self.vformat(ex, st, [vs[0], Obj("fmtargs", vals=tuple(self.rv(st, v) for v in vs[1:]))], e)
        # threads
        C["std::thread"] = self.c_thread
        M[("std::thread", "joinable")] = lambda ex, st, o, vs, e, ot: one(st, self.tid(st, o) != 0)
        M[("std::thread", "join")] = self.t_join
        M[("std::thread", "operator=")] = self.t_assign
        self.hooks["fn:thread_id"] = lambda ex, st, d, vs, this, e: one(st, z3.Int("caller_tid"))
        self.hooks["fn:pluto_vp_mark"] = self.mark
        if role != "rotate":
            self.hooks["fn:logger::rotate_file"] = self.rotate_contract
        if role != "flush":
            self.hooks["fn:logger::write_buffer_to_file"] = self.flush_contract

    def finite(self, fs, n=3):
        """for rotation: a series of at most n files with every number in the formulas at most n. Beyond n+1 the files of a model are
        completed with 'absent' and 'its own content', which satisfies every formula these contracts build (their quantifiers range over
        numbers between two of the bounded ones, or equate the state with the one at entry)"""
        if self.role != "rotate":
            return MonitorEx.finite(self, fs)
        consts, seen, memo = {}, set(), {}
        stack = list(fs)
        while stack:
            x = stack.pop()
            if x.get_id() in seen:
                continue
            seen.add(x.get_id())
            if z3.is_quantifier(x):
                stack.append(x.body())
            elif z3.is_app(x):
                if x.num_args() == 0 and x.decl().kind() == z3.Z3_OP_UNINTERPRETED and x.sort() == I:
                    consts[x.get_id()] = x
                stack += x.children()

        def go(x):
            k = x.get_id()
            if k not in memo:
                if z3.is_quantifier(x):
                    ts = [go(z3.substitute_vars(x.body(), *[z3.IntVal(i) for i in c])) for c in itertools.product(range(-1, n + 3), repeat=x.num_vars())]
                    r = z3.And(*ts) if x.is_forall() else z3.Or(*ts)
                elif z3.is_app(x) and x.num_args():
                    cs = [go(c) for c in x.children()]
                    r = x if all(a.eq(b) for a, b in zip(cs, x.children())) else (z3.And(*cs) if z3.is_and(x) else z3.Or(*cs) if z3.is_or(x) else x.decl()(*cs))
                else:
                    r = x
                memo[k] = (x, r)
            return memo[k][1]
        return [go(f) for f in fs] + [z3.And(-1 <= c, c <= n) for c in consts.values()]

    # ---- values ------------------------------------------------------------------------------------------------------
    def sort_of(self, t):
        if t.kind == "rec" and (t.name in STRING_RECS or t.name in PATHS):
            return I
        if t.kind == "ptr":
            return PTR
        return MonitorEx.sort_of(self, t)

    def wrap(self, t, term):
        if t.kind == "rec" and (t.name in STRING_RECS or t.name in PATHS):
            return term
        return MonitorEx.wrap(self, t, term)

    def fresh(self, t, hint="v", st=None):
        if t.kind == "rec" and (t.name in STRING_RECS or t.name in PATHS):
            return z3.Int(fresh_name(hint))
        return MonitorEx.fresh(self, t, hint, st)

    def default_value(self, st, t):
        if t.kind == "rec":
            if t.name in STRING_RECS:
                return self.mkstr([])
            if t.name in PATHS:
                return z3.IntVal(0)
            if t.name == "std::list":
                return SV("blist", {"lo": z3.IntVal(0), "hi": z3.IntVal(0)})
        return MonitorEx.default_value(self, st, t)

    def leafs(self, t):
        if t.kind == "rec" and t.name == "std::list":
            return [(("lo",), parse_type("long")), (("hi",), parse_type("long"))]
        if t.kind == "rec" and (t.name in PATHS or t.name in STRING_RECS):
            return [((), t)]
        return MonitorEx.leafs(self, t)

    def build(self, i, f, n, pre="v:"):
        v = MonitorEx.build(self, i, f, n, pre)

        def fix(x):
            if isinstance(x, SV):
                if set(x.fields) == {"lo", "hi"}:
                    return SV("blist", x.fields)
                return SV(x.name, {k: fix(y) for k, y in x.fields.items()})
            return x
        return fix(v)

    # ---- strings -----------------------------------------------------------------------------------------------------
    def mkstr(self, parts):
        ps = []
        for p in parts:
            if p[0] == "t":
                k = self.strs.get(p[1].get_id())
                sub = list(k[1]) if k is not None else [p]
            else:
                sub = [p]
            for q in sub:
                if q[0] == "lit":
                    if not q[1]:
                        continue
                    if ps and ps[-1][0] == "lit":
                        ps[-1] = ("lit", ps[-1][1] + q[1])
                        continue
                ps.append(q)
        if len(ps) == 1 and ps[0][0] == "t":
            return ps[0][1]
        ts = [self.pterm(p) for p in ps] or [z3.Int("lit:''")]
        r = ts[-1]
        cat = self.uf("cat", I, I, I)
        for x in reversed(ts[:-1]):
            r = cat(x, r)
        self.strs[r.get_id()] = (r, tuple(ps))
        return r

    def pterm(self, p):
        if p[0] == "lit":
            return z3.Int("lit:%r" % (p[1],))
        if p[0] == "num":
            return self.uf("decimal", I, I)(p[1])
        if p[0] == "val":
            return self.uf("shown:" + p[1].sort().name(), p[1].sort(), I)(p[1])
        return p[1]

    def parts(self, t):
        k = self.strs.get(t.get_id())
        return list(k[1]) if k is not None else [("t", t)]

    def pstr(self, st, v):
        """term of a path: a file name the system accepts has no NUL"""
        x = self.str(st, v)
        return x.arg(0) if z3.is_app(x) and x.decl().name() == "upto_nul" else x

    def str(self, st, v):
        """term of a string, a path or a C string"""
        x = self.rv(st, v)
        if isinstance(x, z3.ArithRef):
            return x
        if isinstance(x, SV) and x.name == "array":
            return self.lit(x)
        if isinstance(x, PtrV):
            if x.base is None:
                raise Unsupported("C string")
            y = st.mem.get(x.base.cell)
            if isinstance(y, SV) and y.name == "array" and not x.base.path:
                return self.lit(y)
            y = self.load(st, x.base)
            if isinstance(y, z3.ArithRef):
                return self.uf("upto_nul", I, I)(y)          # the characters of a string read through a pointer end at the first NUL
            if z3.is_expr(y) and y.sort() == PTR:
                return self.uf("cstr", PTR, I)(y)
        if z3.is_expr(x) and x.sort() == PTR:
            return self.uf("cstr", PTR, I)(x)
        raise Unsupported("string expected: %r" % (x,))

    def lit(self, v):
        b = bytes(int(z3.simplify(v.fields[i]).as_long()) & 255 for i in sorted(v.fields))
        return self.mkstr([("lit", b.split(b"\0")[0].decode("latin1"))])

    def cat(self, st, a, b):
        def part(v):
            x = self.rv(st, v)
            if z3.is_int_value(x):
                return ("lit", chr(x.as_long()))
            return ("t", self.str(st, v))
        return self.mkstr([part(a), part(b)])

    def slen(self, st, t):
        n = self.uf("slen", I, I)(t)
        st.assume(z3.And(n >= 0, n < (1 << 62)))
        return n

    def c_str(self, ex, st, t, vs, e):
        if len(vs) > 1:
            raise Unsupported("string constructor")
        if not vs:
            yield st, self.mkstr([])
            return
        yield st, self.str(st, vs[0])

    def s_append(self, ex, st, o, vs, e, ot):
        self.store(st, o, self.cat(st, o, vs[0]))
        yield st, o

    def s_assign(self, ex, st, o, vs, e, ot):
        if len(vs) != 1:
            raise Unsupported("string assignment")
        self.store(st, o, self.str(st, vs[0]))
        yield st, o

    def s_resize(self, ex, st, o, vs, e, ot):
        old, m = self.str(st, o), self.rv(st, vs[0])
        pre = self.uf("pre", I, I, I)
        n = self.slen(st, old)
        t = z3.Int(fresh_name("resized"))
        st.assume(z3.And(self.slen(st, t) == m, z3.Implies(m <= n, t == pre(old, m)), z3.Implies(m == n, t == old)))
        self.store(st, o, t)
        yield st, VOID

    def construct(self, st, t, args, e):
        if t.kind == "arr" and not args:
            yield st, UNINIT
            return
        yield from MonitorEx.construct(self, st, t, args, e)

    # ---- printf and format -------------------------------------------------------------------------------------------
    def va(self, st, v):
        while isinstance(v, PtrV):
            v = v.base
        if not isinstance(v, LV):
            raise Unsupported("va_list")
        return v

    def va_start(self, ex, st, vs, e):
        st.mem[self.va(st, vs[0]).cell] = Obj("va", state="fresh")
        st.ghost["vas"] = st.ghost.get("vas", ()) + (self.va(st, vs[0]).cell,)
        yield st, VOID

    def va_copy(self, ex, st, vs, e):
        src = st.mem.get(self.va(st, vs[1]).cell)
        self.oblige(st, "a started, unused argument list is copied", z3.BoolVal(isinstance(src, Obj) and src.tname == "va" and src.state == "fresh"), "safety", props=("L01",))
        yield from self.va_start(ex, st, vs, e)

    def va_end(self, ex, st, vs, e):
        v = st.mem.get(self.va(st, vs[0]).cell)
        self.oblige(st, "only a started argument list is ended", z3.BoolVal(isinstance(v, Obj) and v.tname == "va" and v.state != "ended"), "safety", props=("L01",))
        st.mem[self.va(st, vs[0]).cell] = Obj("va", state="ended")
        yield st, VOID

    def vsnprintf(self, ex, st, vs, e):
        dst, n, sch = self.rv(st, vs[0]), self.rv(st, vs[1]), self.rv(st, vs[2])
        lv = self.va(st, vs[3])
        v = st.mem.get(lv.cell)
        self.oblige(st, "an argument list is used once", z3.BoolVal(isinstance(v, Obj) and v.tname == "va" and v.state == "fresh"), "safety", props=("L01",))
        st.mem[lv.cell] = Obj("va", state="used")
        L, FMT = z3.Int("fmtlen"), z3.Int("fmt")
        st.assume(z3.And(L >= -1, L < (1 << 31)))
        given = st.ghost.get("scheme")
        if given is not None:
            self.oblige(st, "the given format is used", self.str(st, sch) == self.str(st, given), props=("L01",))
        st.assume(z3.Implies(L >= 0, self.slen(st, FMT) == L))
        if not isinstance(dst, PtrV):
            raise Unsupported("vsnprintf destination")
        if z3.is_true(z3.simplify(dst.null)):
            self.oblige(st, "nothing is written through a null pointer", n == 0, "safety", props=("L01",))
            yield st, L
            return
        old = self.load(st, dst.base)
        if not isinstance(old, z3.ArithRef) or dst.off is None:
            raise Unsupported("vsnprintf destination")
        self.oblige(st, "the formatted text fits the buffer", z3.And(dst.off == 0, n <= self.slen(st, old)), "safety", props=("L01",))
        t = z3.Int(fresh_name("formatted"))
        st.assume(self.slen(st, t) == self.slen(st, old))
        st.assume(z3.Implies(z3.And(L >= 0, L < n), self.uf("pre", I, I, I)(t, L) == FMT))
        self.store(st, dst.base, t)
        yield st, L

    def vformat(self, ex, st, vs, e):
        s, a = self.rv(st, vs[0]), self.rv(st, vs[1])
        if not (isinstance(a, Obj) and a.tname == "fmtargs") or not z3.is_expr(s):
            raise Unsupported("format arguments")
        f = self.uf("vformat%d" % len(a.vals), s.sort(), *[v.sort() for v in a.vals], I)
        s2 = st.fork()
        s2.thrown = "std::format_error"
        yield s2, None
        yield st, f(s, *a.vals)

    # ---- paths and the file system -----------------------------------------------------------------------------------
    def c_path(self, ex, st, t, vs, e):
        yield st, (self.pstr(st, vs[0]) if vs else z3.IntVal(0))

    def p_assign(self, ex, st, o, vs, e, ot):
        self.store(st, o, self.pstr(st, vs[0]))
        yield st, o

    def p_join(self, ex, st, o, vs, e, ot):
        self.store(st, o, self.uf("join", I, I, I)(self.rv(st, o), self.pstr(st, vs[0])))
        yield st, o

    def p_concat(self, ex, st, o, vs, e, ot):
        p = self.rv(st, o)
        if not (z3.is_app(p) and p.decl().name() == "join"):
            raise Unsupported("path concatenation")
        self.store(st, o, self.uf("join", I, I, I)(p.arg(0), self.mkstr([("t", p.arg(1)), ("t", self.str(st, vs[0]))])))
        yield st, o

    def index(self, p):
        """number of a path in the series of the file being rotated: base is 0, base_i is i"""
        P = z3.Int("rotated")
        if z3.eq(p, P):
            return z3.IntVal(0)
        u = lambda n: self.uf(n, I, I)(P)
        if z3.is_app(p) and p.decl().name() == "join" and z3.eq(p.arg(0), u("parent_path")):
            q = self.parts(p.arg(1))
            isu = lambda x, n: x[0] == "t" and z3.eq(x[1], u(n))
            if len(q) == 2 and isu(q[0], "stem") and isu(q[1], "extension"):
                return z3.IntVal(0)
            if len(q) == 4 and isu(q[0], "stem") and q[1] == ("lit", "_") and q[2][0] == "num" and isu(q[3], "extension"):
                return q[2][1]
        return None

    def series(self, st, p):
        i = self.index(self.rv(st, p))
        if i is None:
            self.oblige(st, "only files of the rotated series are touched", FALSE, props=("L04",))
            raise Unsupported("path outside the series")
        if not z3.is_int_value(i):
            self.oblige(st, "numbered files of the series are numbered from one", i >= 1, props=("L04",))
        return i

    def fail(self, st, vs, n):
        """the state in which a file-system call fails: throws, or reports through an error code"""
        s = st.fork()
        self.setG(s, fault=TRUE)
        if len(vs) <= n:
            s.thrown = FSERR
        return s

    def unlocked(self, st, what):
        self.oblige(st, "no lock is held while " + what, z3.BoolVal(not locks.held(st)), "lock", props=("L05",))

    def fs_absolute(self, ex, st, vs, e):
        yield self.fail(st, vs, 1), z3.Int(fresh_name("nopath"))
        t = self.uf("absolute", I, I)(self.pstr(st, vs[0]))
        st.assume(t > 0)
        yield st, t

    def fs_create_directories(self, ex, st, vs, e):
        self.unlocked(st, "creating directories")
        yield self.fail(st, vs, 1), FALSE
        yield st, z3.Bool(fresh_name("created"))

    def fs_exists(self, ex, st, vs, e):
        yield self.fail(st, vs, 1), FALSE
        if self.role != "rotate":
            yield st, z3.Bool(fresh_name("exists"))
            return
        yield st, self.G(st, "ex")[self.series(st, vs[0])]

    def fs_file_size(self, ex, st, vs, e):
        yield self.fail(st, vs, 1), z3.IntVal((1 << 64) - 1)
        n = z3.Int(fresh_name("fsize"))
        st.assume(z3.And(n >= 0, n < (1 << 62)))
        yield st, n

    def fs_remove(self, ex, st, vs, e):
        if self.role != "rotate":
            self.oblige(st, "files are removed by rotation only", FALSE, props=("L02", "L04"))
            raise Unsupported("remove")
        i = self.series(st, vs[0])
        yield self.fail(st, vs, 1), FALSE
        lim = st.ghost.get("rd:m_fileRotationLimit", ())
        e0 = z3.Const("ex0", arr(B))
        j = z3.Int("j")
        self.oblige(st, "only files at or beyond the limit are removed", z3.Or(*[i >= l for l in lim]) if lim else FALSE, props=("L04",))
        self.oblige(st, "only files of the contiguous series are removed", forall([j], z3.Implies(z3.And(0 <= j, j < i), e0[j]), patterns=[e0[j]]), props=("L04",))
        was = self.G(st, "ex")[i]
        self.setG(st, ex=z3.Store(self.G(st, "ex"), i, FALSE))
        yield st, was

    def fs_rename(self, ex, st, vs, e):
        if self.role != "rotate":
            self.oblige(st, "files are renamed by rotation only", FALSE, props=("L02", "L04"))
            raise Unsupported("rename")
        a, b = self.series(st, vs[0]), self.series(st, vs[1])
        yield self.fail(st, vs, 2), VOID
        X, C = self.G(st, "ex"), self.G(st, "ct")
        self.oblige(st, "only an existing file is renamed", X[a], props=("L04",))
        self.oblige(st, "no file's content is overwritten by another", z3.Not(X[b]), props=("L04",))
        self.setG(st, ex=z3.Store(z3.Store(X, a, FALSE), b, TRUE), ct=z3.Store(C, b, C[a]))
        yield st, VOID

    # ---- atomics -----------------------------------------------------------------------------------------------------
    def atom(self, st, name):
        return st.mem[self.objcell(st)].fields[name].fields["v"]

    def aname(self, st, o):
        if not (isinstance(o, LV) and o.path and self.is_obj(st, o.cell)):
            raise Unsupported("atomic outside the logger")
        return o.path[-1]

    def a_load(self, ex, st, o, vs, e, ot):
        n = self.aname(st, o)
        if n in STABLE and self.locked(st, "m_loggingMutex"):
            v = self.atom(st, n)
        else:
            v = self.fresh(dict(self.fields())[n].args[0], "rd_" + n, st)
        st.ghost["rd:" + n] = st.ghost.get("rd:" + n, ()) + (v,)
        yield st, v

    def call_method(self, st, obj, name, ot, d, vs, e):
        if d is None and ot.kind == "rec" and name.startswith("operator "):
            if ot.name in ATOMS:
                yield from self.a_load(self, st, obj, vs, e, ot)
                return
            if ot.name == "std::fpos":
                yield st, self.rv(st, obj)
                return
            if ot.name in STRING_RECS or ot.name in PATHS:
                yield st, obj
                return
        yield from MonitorEx.call_method(self, st, obj, name, ot, d, vs, e)

    def a_store(self, ex, st, o, vs, e, ot):
        n, v = self.aname(st, o), self.rv(st, vs[0])
        st.ghost["stores"] = st.ghost.get("stores", ()) + ((n, v),)
        if n in STABLE:
            self.oblige(st, "%s is changed under the lock its reader waits with" % n, z3.BoolVal(self.locked(st, "m_loggingMutex")), "lock", props=("L05", "L03") if n == "m_bufferFlushSize" else ("L05",))
            old = self.atom(st, n)
            c = self.objcell(st)
            st.mem[c] = st.mem[c].with_(n, st.mem[c].fields[n].with_("v", v))
            if n == "m_isLogging":
                self.oblige(st, "logging is only stopped, and only by the destructor", z3.And(z3.BoolVal(self.role == "dtor"), z3.Not(v)), props=("L05",))
                self.owe(st, TRUE)
            else:
                self.owe(st, v < old)
        yield st, v

    def a_inc(self, ex, st, o, vs, e, ot):
        n = self.aname(st, o)
        k = self.rv(st, vs[0]) if vs and (e or {}).get("kind") != "CXXOperatorCallExpr" else z3.IntVal(1)
        if n != "m_numDiscardedLogs":
            raise Unsupported("increment of " + n)
        self.oblige(st, "a discarded log is neither buffered nor counted again", z3.BoolVal(not st.ghost.get("added") and not st.ghost.get("incs")), props=("L01", "L03"))
        st.ghost["incs"] = st.ghost.get("incs", ()) + (k,)
        yield st, z3.Int(fresh_name("count"))

    # ---- buffers -----------------------------------------------------------------------------------------------------
    def node(self, lv):
        p = lv.path
        if len(p) < 2 or isinstance(p[1], str) or p[0] != "m_logFiles":
            raise Unsupported("buffer outside the map: %r" % (lv,))
        return p[1][1]

    def blist(self, st, o):
        v = self.rv(st, o)
        if not (isinstance(v, SV) and v.name == "blist" and isinstance(o, LV)):
            raise Unsupported("log buffer expected: %r" % (v,))
        return v.fields["lo"], v.fields["hi"]

    def l_size(self, ex, st, o, vs, e, ot):
        lo, hi = self.blist(st, o)
        yield st, hi - lo

    def l_empty(self, ex, st, o, vs, e, ot):
        lo, hi = self.blist(st, o)
        yield st, hi == lo

    def l_begin(self, ex, st, o, vs, e, ot):
        lo, hi = self.blist(st, o)
        yield st, SV("lit", {"c": o, "pos": z3.simplify(hi - 1), "end": False})

    def l_end(self, ex, st, o, vs, e, ot):
        lo, hi = self.blist(st, o)
        yield st, SV("lit", {"c": o, "pos": z3.simplify(lo - 1), "end": True})

    def is_lit(self, st, v):
        x = self.rv(st, v)
        return isinstance(x, SV) and x.name == "lit"

    def eff(self, st, it):
        if it.fields["end"] is True:
            return self.peek(st, it.fields["c"]).fields["lo"] - 1
        return it.fields["pos"]

    def lit_of(self, st, v):
        x = self.rv(st, v)
        if not (isinstance(x, SV) and x.name == "lit"):
            raise Unsupported("list iterator expected: %r" % (x,))
        return x

    def li_eq(self, st, a, b):
        x, y = self.lit_of(st, a), self.lit_of(st, b)
        if not x.fields["c"].same(y.fields["c"]):
            raise Unsupported("iterators of different lists")
        return self.eff(st, x) == self.eff(st, y)

    def li_step(self, st, o, vs, d):
        it = self.lit_of(st, o)
        q = self.peek(st, it.fields["c"]).fields
        p = z3.simplify(self.eff(st, it) + d)
        if d > 0:
            self.oblige(st, "decremented list iterator has a predecessor", p <= q["hi"] - 1, "safety", props=("L02",))
        else:
            self.oblige(st, "incremented list iterator is dereferenceable", z3.And(q["lo"] <= p + 1, p + 1 < q["hi"]), "safety", props=("L02",))
        self.store(st, o, SV("lit", {"c": it.fields["c"], "pos": p, "end": False}))
        yield st, (it if vs else o)

    def l_far(self, st, vs, d):
        if len(vs) > 1:
            raise Unsupported("std::next/prev distance")
        lv = st.new(self.lit_of(st, vs[0]), "far")
        for s, _ in self.li_step(st, lv, [], d):
            yield s, s.mem[lv.cell]

    def entry(self, n, p):
        u = lambda k, r=I: self.uf("entry." + k, I, I, r)(n, p)
        return SV("pluto::log_entry", {"time": u("time"), "thread_id": u("thread_id"), "level": u("level"), "message": u("message"),
                                       "source": SV("pluto::source_info", {"file": u("file", PTR), "line": u("line"), "function": u("function", PTR)})})

    def li_deref(self, ex, st, o, vs, e, ot):
        it = self.lit_of(st, o)
        p = self.eff(st, it)
        q = self.peek(st, it.fields["c"]).fields
        n = self.node(it.fields["c"])
        self.oblige(st, "dereferenced list iterator is at an entry", z3.And(q["lo"] <= p, p < q["hi"]), "safety", props=("L02", "L05"))
        if self.role == "logger" and not self.locked(st, "m_loggingMutex"):
            self.oblige(st, "only entries seen under the lock are read without it", TRUE, "lock", props=("L05",))
        yield st, st.new(self.entry(n, p).with_("$pos", SV("pos", {"n": n, "p": p})), "entry")

    def li_arrow(self, ex, st, o, vs, e, ot):
        for s, lv in self.li_deref(ex, st, o, vs, e, ot):
            yield s, PtrV(FALSE, lv, None)

    def l_front(self, ex, st, o, vs, e, ot):
        lo, hi = self.blist(st, o)
        self.oblige(st, "front of a non-empty buffer", hi > lo, "safety")
        yield st, st.new(self.entry(self.node(o), hi - 1).with_("$pos", SV("pos", {"n": self.node(o), "p": hi - 1})), "entry")

    def l_back(self, ex, st, o, vs, e, ot):
        lo, hi = self.blist(st, o)
        self.oblige(st, "back of a non-empty buffer", hi > lo, "safety")
        yield st, st.new(self.entry(self.node(o), lo).with_("$pos", SV("pos", {"n": self.node(o), "p": lo})), "entry")

    def add_entry(self, st, o, ev, front=True):
        lo, hi = self.blist(st, o)
        n = self.node(o)
        self.oblige(st, "entries are added by log calls only", z3.BoolVal(self.role == "client"), props=("L01", "L02"))
        self.oblige(st, "entries are added behind those not yet written", z3.BoolVal(front), props=("L02",))
        self.oblige(st, "a log is buffered once", z3.BoolVal(not st.ghost.get("added") and not st.ghost.get("incs")), props=("L01", "L03"))
        st.ghost["added"] = st.ghost.get("added", ()) + ((n, ev, bool(st.ghost.get("marked"))),)
        size, flush = hi - lo, self.atom(st, "m_bufferFlushSize")
        self.store(st, o.f("hi"), z3.simplify(hi + 1))
        self.owe(st, z3.And(size + 1 >= flush, z3.Not(z3.And(size >= 1, size >= flush))))

    def owe(self, st, f):
        self.setG(st, p_wake=z3.Or(self.G(st, "p_wake"), z3.And(f, z3.Not(self.G(st, "cN")))))

    def l_emplace_front(self, ex, st, o, vs, e, ot, front=True):
        t = parse_type("pluto::log_entry")
        rec = self.find_record(t, "")
        if len(vs) == 1 and isinstance(self.rv(st, vs[0]), SV) and self.rv(st, vs[0]).name == "pluto::log_entry":
            self.add_entry(st, o, self.rv(st, vs[0]), front)
            yield st, VOID
            return
        cs = [c for c in rec.get("inner", ()) if c.get("kind") == "CXXConstructorDecl" and len(params_of(c)) == len(vs) and body_of(c) is not None]
        if len(cs) != 1:
            raise Unsupported("log_entry constructor")
        for s, v in self.run_ctor(st, t, rec, cs[0], vs):
            if s.thrown:
                yield s, None
                continue
            self.add_entry(s, o, self.rv(s, v), front)
            yield s, VOID

    def l_push_front(self, ex, st, o, vs, e, ot):
        yield from self.l_emplace_front(ex, st, o, vs, e, ot)

    def l_emplace_back(self, ex, st, o, vs, e, ot):
        yield from self.l_emplace_front(ex, st, o, vs, e, ot, front=False)

    l_push_back = l_emplace_back

    def drop_to(self, st, o, nlo):
        lo, hi = self.blist(st, o)
        n = self.node(o)
        self.oblige(st, "entries are removed by the writing thread only", z3.BoolVal(self.role in ("logger", "dtor")), props=("L02", "L03"))
        self.oblige(st, "only written entries are removed", z3.And(lo <= nlo, nlo <= self.G(st, "w")[n]), props=("L02",))
        self.store(st, o.f("lo"), z3.simplify(nlo))

    def l_erase(self, ex, st, o, vs, e, ot):
        its = [self.lit_of(st, v) for v in vs]
        for it in its:
            if not it.fields["c"].same(o):
                raise Unsupported("iterator of another list erased")
        lo, hi = self.blist(st, o)
        p = self.eff(st, its[0])
        if len(its) == 2:
            self.oblige(st, "entries are removed from the oldest on", self.eff(st, its[1]) == lo - 1, props=("L02",))
            self.oblige(st, "erased range is in the buffer", z3.And(lo - 1 <= p, p < hi), "safety", props=("L02",))
        else:
            self.oblige(st, "entries are removed from the oldest on", z3.And(p == lo, lo < hi), props=("L02",))
        self.drop_to(st, o, p + 1)
        yield st, SV("lit", {"c": o, "pos": z3.simplify(p), "end": True})

    def l_pop_back(self, ex, st, o, vs, e, ot):
        lo, hi = self.blist(st, o)
        self.oblige(st, "pop from a non-empty buffer", lo < hi, "safety", props=("L02",))
        self.drop_to(st, o, lo + 1)
        yield st, VOID

    def l_pop_front(self, ex, st, o, vs, e, ot):
        self.oblige(st, "entries are removed from the oldest on", FALSE, props=("L02", "L03"))
        raise Unsupported("pop_front")
        yield

    def l_clear(self, ex, st, o, vs, e, ot):
        lo, hi = self.blist(st, o)
        self.drop_to(st, o, hi)
        yield st, VOID

    # ---- streams -----------------------------------------------------------------------------------------------------
    def ofs(self, st, o):
        v = self.rv(st, o)
        if not (isinstance(v, SV) and v.name == "ofs"):
            raise Unsupported("file stream expected: %r" % (v,))
        return v

    def new_ofs(self):
        return SV("ofs", {"open": FALSE, "good": TRUE, "path": z3.IntVal(0), "size": z3.IntVal(0), "bsz": z3.IntVal(0), "nl": FALSE, "pos": FALSE})

    def modes(self, st, a, b):
        x, y = z3.simplify(self.rv(st, a)), z3.simplify(self.rv(st, b))
        if not (z3.is_int_value(x) and z3.is_int_value(y)):
            raise Unsupported("open mode")
        return z3.IntVal(x.as_long() | y.as_long())

    def o_ctor(self, ex, st, t, vs, e):
        if not vs:
            yield st, self.new_ofs()
            return
        lv = st.new(self.new_ofs(), "ofs")
        for s, _ in self.o_open(ex, st, lv, vs, e, t):
            yield s, s.mem[lv.cell]

    def o_open(self, ex, st, o, vs, e, ot):
        v = self.ofs(st, o)
        m = z3.simplify(self.rv(st, vs[1])).as_long() if len(vs) > 1 else 16
        p = self.pstr(st, vs[0])
        self.unlocked(st, "opening a file")
        self.oblige(st, "a log file is opened for appending", z3.BoolVal(bool(m & 1) and not m & 32), props=("L02",))
        self.oblige(st, "a stream is closed before it is opened again", z3.Not(v.fields["open"]), props=("L02",))
        s2 = st.fork()
        self.setG(s2, fault=TRUE)
        self.store(s2, o, SV("ofs", dict(v.fields, open=z3.BoolVal(False), good=FALSE)))
        yield s2, VOID
        n = z3.Int(fresh_name("size"))
        st.assume(z3.And(n >= 0, n < (1 << 62), z3.Implies(self.G(st, "rotated"), n == 0)))
        self.setG(st, rotated=FALSE)
        self.store(st, o, SV("ofs", dict(v.fields, open=TRUE, path=p, size=n, bsz=n, pos=z3.BoolVal(bool(m & 2)))))
        yield st, VOID

    def closed(self, st, v):
        self.oblige(st, "every entry is followed by a newline", z3.Not(v.fields["nl"]), props=("L02",))

    def o_close(self, ex, st, o, vs, e, ot):
        v = self.ofs(st, o)
        self.closed(st, v)
        self.store(st, o, SV("ofs", dict(v.fields, open=FALSE)))
        yield st, VOID

    def o_dtor(self, ex, st, lv):
        self.closed(st, self.ofs(st, lv))
        yield st, None

    def o_tellp(self, ex, st, o, vs, e, ot):
        v = self.ofs(st, o)
        s2 = st.fork()
        self.setG(s2, fault=TRUE)
        yield s2, z3.IntVal(-1)
        st.assume(z3.And(v.fields["open"], v.fields["good"]))
        yield st, z3.If(v.fields["pos"], v.fields["size"], 0)

    def o_put(self, ex, st, o, vs, e, ot):
        v = self.rv(st, o)
        if isinstance(v, Obj) and v.tname == "oss":
            x = self.rv(st, vs[0])
            if isinstance(x, z3.ArithRef):
                part = ("val", x)
            else:
                part = ("t", self.str(st, vs[0]))
            self.store(st, o, v.with_(parts=v.parts + (part,)))
            yield st, o
            return
        v = self.ofs(st, o)
        x = self.rv(st, vs[0])
        self.unlocked(st, "writing a file")
        f = dict(v.fields)
        nl = z3.is_int_value(x) and x.as_long() == 10
        if isinstance(x, PtrV) and x.base is not None and isinstance(st.mem.get(x.base.cell), SV):
            nl = self.parts(self.lit(st.mem[x.base.cell])) == [("lit", "\n")]
        if isinstance(x, FnRef):
            nl = x.decl.get("name") == "endl"
            if x.decl.get("name") == "flush":
                yield st, o
                return
        n = z3.Int(fresh_name("size"))
        st.assume(z3.And(n > f["size"] if nl else n >= f["size"], n < (1 << 62)))
        pend = f["nl"]
        f["size"], f["pos"] = n, TRUE
        self.oblige(st, "only newlines are added to what the writers write", z3.BoolVal(nl), props=("L02",))
        self.oblige(st, "a newline follows each entry or header once", z3.Or(pend, self.G(st, "hdr")), props=("L02",))
        f["nl"] = FALSE
        f["bsz"] = z3.If(pend, n, f["bsz"])
        self.setG(st, hdr=FALSE)
        self.store(st, o, SV("ofs", f))
        yield st, o

    def readings(self, st, n):
        return st.ghost.get("rd:" + n, ())

    def run_task(self, ex, st, f, vs, e):
        """a writer is called"""
        self.unlocked(st, "calling a writer")
        if not vs or not isinstance(vs[0], LV):
            raise Unsupported("writer call")
        v = self.ofs(st, vs[0])
        fl = dict(v.fields)
        n = z3.Int(fresh_name("size"))
        st.assume(z3.And(n >= fl["size"], n < (1 << 62)))
        has = lambda k: z3.Or(*[f.term == t for t in st.ghost.get("fn:" + k, ())]) if st.ghost.get("fn:" + k) else FALSE
        if len(vs) == 1:
            self.oblige(st, "the header is written by the header writer", has("m_headerWriter"), props=("L02",))
            en = self.readings(st, "m_writeHeader")
            self.oblige(st, "a header is written only when enabled and the file is empty", z3.And(z3.Or(*en) if en else FALSE, fl["size"] == 0), props=("L02",))
            self.oblige(st, "no entry waits for its newline when a header is written", z3.Not(fl["nl"]), props=("L02",))
            self.oblige(st, "the header goes to the open log file", z3.And(fl["open"], fl["good"]), props=("L02",))
            fl["size"], fl["pos"] = n, TRUE
            self.setG(st, hdr=TRUE)
        elif len(vs) == 2:
            x = self.rv(st, vs[1])
            if not (isinstance(x, SV) and "$pos" in x.fields):
                raise Unsupported("entry handed to the writer")
            node, p = x.fields["$pos"].fields["n"], x.fields["$pos"].fields["p"]
            w = self.G(st, "w")
            P2 = ("L02",)
            self.oblige(st, "entries are written by the log writer", has("m_logWriter"), props=P2)
            self.oblige(st, "entries are written once each, oldest first", w[node] == p, props=P2)
            self.oblige(st, "entries are written unaltered", valeq(self.entry(node, p), SV(x.name, {k: y for k, y in x.fields.items() if k != "$pos"})), props=P2)
            self.oblige(st, "entries go to their own file", z3.And(fl["open"], fl["good"], fl["path"] == self.uf("absolute", I, I)(node)), props=P2)
            self.oblige(st, "every entry is followed by a newline", z3.And(z3.Not(fl["nl"]), z3.Not(self.G(st, "hdr"))), props=P2)
            en = self.readings(st, "m_writeHeader")
            self.oblige(st, "an empty file gets its header before an entry when enabled", z3.Or(*[z3.Implies(h, fl["size"] > 0) for h in en]) if en else FALSE, props=P2)
            rs = self.readings(st, "m_fileRotationSize")
            self.oblige(st, "a file that reached the rotation size is rotated before an entry is written", z3.Or(*[z3.Or(r == 0, fl["bsz"] < r) for r in rs]) if rs else FALSE, props=("L04",))
            fl["size"], fl["pos"], fl["nl"] = n, TRUE, TRUE
            self.setG(st, w=z3.Store(w, node, p + 1))
        else:
            raise Unsupported("writer call")
        self.store(st, vs[0], SV("ofs", fl))
        return iter([(st, VOID)])

    def fterm(self, st, v):
        x = self.rv(st, v)
        if isinstance(x, FnRef):
            return z3.Const("fn:" + str(x.decl.get("name")), FN)
        return MonitorEx.fterm(self, st, v)

    # ---- contracts of the logger's own functions ----------------------------------------------------------------------
    def rotate_contract(self, ex, st, d, vs, this, e):
        if len(vs) != 1:
            return None
        return self.rotated(st, vs)

    def rotated(self, st, vs):
        rs = self.readings(st, "m_fileRotationSize")
        cells = [c for c in st.mem if isinstance(st.mem[c], SV) and st.mem[c].name == "ofs"]
        P4 = ("L04",)
        p = self.rv(st, vs[0])
        self.unlocked(st, "rotating a file")
        if len(cells) != 1:
            raise Unsupported("streams when rotating")
        f = st.mem[cells[0]].fields
        self.oblige(st, "a file is rotated only when it has reached a non-zero rotation size", z3.Or(*[z3.And(r != 0, r <= f["bsz"]) for r in rs]) if rs else FALSE, props=P4)
        self.oblige(st, "a file is closed when it is rotated", z3.Not(f["open"]), props=P4)
        self.oblige(st, "the file rotated is the one about to be written", p == f["path"], props=P4)
        s2 = st.fork()
        self.setG(s2, fault=TRUE)
        s2.thrown = FSERR
        yield s2, None
        self.setG(st, rotated=TRUE)
        yield st, VOID

    def flush_contract(self, ex, st, d, vs, this, e):
        if len(vs) != 5 or not all(self.is_lit(st, v) for v in vs[:2]) or not all(isinstance(v, LV) for v in vs[3:]):
            return None
        return self.flushed(st, vs)

    def flushed(self, st, vs):
        b, en = self.lit_of(st, vs[0]), self.lit_of(st, vs[1])
        n = self.node(b.fields["c"])
        q = self.peek(st, b.fields["c"]).fields
        P = ("L02",)
        self.unlocked(st, "writing a file")
        pre = [z3.BoolVal(b.fields["c"].same(en.fields["c"])), self.eff(st, en) == q["lo"] - 1, self.G(st, "w")[n] == q["lo"],
               q["lo"] - 1 <= self.eff(st, b), self.eff(st, b) < q["hi"], self.str(st, vs[2]) == n,
               z3.BoolVal(all(z3.eq(self.node(v), n) for v in vs[3:])), z3.BoolVal(vs[3].path[-1] == "filePath" and vs[4].path[-1] == "dirsCreated")]
        self.oblige(st, "the unwritten part of one buffer is written to its own file", z3.And(*pre), props=P)
        r = z3.Int(fresh_name("written"))
        fl = z3.Bool(fresh_name("failed"))
        st.assume(z3.And(q["lo"] - 1 <= r, r <= self.eff(st, b), z3.Or(fl, r == self.eff(st, b))))
        self.setG(st, w=z3.Store(self.G(st, "w"), n, r + 1), failed=z3.Store(self.G(st, "failed"), n, fl))
        p = z3.Int(fresh_name("path"))
        st.assume(z3.Or(p == 0, p == self.uf("absolute", I, I)(n)))
        self.store(st, vs[3], p)
        self.store(st, vs[4], z3.Bool(fresh_name("dirs")))
        yield st, SV("lit", {"c": b.fields["c"], "pos": r, "end": False})

    def mark(self, ex, st, d, vs, this, e):
        st.ghost["marked"] = True
        yield st, VOID

    # ---- the object --------------------------------------------------------------------------------------------------
    def objcell(self, st):
        if OBJ in st.mem:
            return OBJ
        return None

    def init(self, st):
        st.mem[GHOST] = SV("$ghost", {"clock": z3.Int("clock0"), "p_wake": FALSE, "cN": FALSE, "w": z3.Const("w0", arr(I)), "failed": z3.K(I, FALSE), "fault": FALSE,
                                      "hdr": FALSE, "rotated": FALSE, "ex": z3.Const("ex0", arr(B)), "ct": z3.Const("ct0", arr(I)), "exclusive": z3.BoolVal(self.role == "ctor")})
        st.assume(self.me > 0)

    def guard(self, n):
        t = dict(self.fields()).get(n)
        if t is None or t.name in locks.MUTEXES or t.name.startswith(("std::condition_variable", "std::atomic")) or t.name == "std::thread":
            return None
        return "m_configMutex" if t.name == "std::function" else "m_loggingMutex"

    def protected(self, n):
        return self.guard(n) is not None

    def havoc_field(self, st, n, t, old):
        if t.name in MAPS1:
            return self.new_map(st, n, t)
        if t.name == "std::thread":
            return old.fields[n] if old is not None else SV("std::thread", {"id": z3.Int(fresh_name(n))})
        if t.name in locks.MUTEXES:
            return Obj("mutex", id=("log", n))
        if t.name.startswith("std::condition_variable"):
            return Obj("cv")
        if t.name == "std::atomic":
            return SV("std::atomic", {"v": self.fresh(t.args[0], n, st), "t": t.args[0].name or t.args[0].kind})
        return self.fresh(t, n, st)

    def new_obj(self, st):
        return SV(self.CLASS, {n: self.havoc_field(st, n, t, None) for n, t in self.fields()})

    def INV(self, st, cell):
        m = st.mem[cell].fields["m_logFiles"]
        x = z3.Int("x")
        d = m.fields["dom"]
        ab = self.uf("absolute", I, I)
        return [("buffers are well formed", forall([x], z3.Implies(d[x], LO(m)[x] <= HI(m)[x]), patterns=[d[x]]), ("L02",)),
                ("a file's path is that of its name", forall([x], z3.Implies(d[x], z3.Or(m.fields["v:filePath"][x] == 0, z3.And(ab(x) > 0, m.fields["v:filePath"][x] == ab(x)))), patterns=[d[x]]), ("L02",))]

    def locked(self, st, which):
        c = self.objcell(st)
        m = st.mem[c].fields.get(which) if c is not None else None
        return m is not None and any(k == m.id for k, md in locks.held(st))

    def which(self, st, k):
        c = self.objcell(st)
        if c is None:
            return None
        for n in ("m_loggingMutex", "m_configMutex"):
            m = st.mem[c].fields.get(n)
            if m is not None and m.id == k:
                return n
        return None

    def access(self, st, lv, write):
        n = lv.path[0]
        if not isinstance(n, str):
            return
        g = self.guard(n)
        if g is None:
            return
        ok = TRUE
        if not self.locked(st, g):
            ok = self.G(st, "exclusive")
            if n == "m_logFiles" and self.role in ("logger", "flush") and len(lv.path) >= 3 and not isinstance(lv.path[1], str):
                if lv.path[2:] in (("second", "filePath"), ("second", "dirsCreated"), ("first",)):
                    ok = TRUE if self.role == "flush" else st.mem[lv.cell].fields[n].fields["dom"][lv.path[1][1]]
        self.oblige(st, "%s of %s under its lock" % ("write" if write else "read", n), ok, "lock", props=("L05",))
        if g == "m_configMutex" and not write and len(lv.path) == 1:
            t = st.mem[lv.cell].fields[n]
            if isinstance(t, UFn):
                st.ghost["fn:" + n] = st.ghost.get("fn:" + n, ()) + (t.term,)

    def on_acquire(self, ex, st, k, mode):
        w = self.which(st, k)
        if w is None:
            return
        cell = self.objcell(st)
        old = st.mem[cell]
        if w == "m_configMutex":
            for n, t in self.fields():
                if self.guard(n) == w and not z3.is_true(self.G(st, "exclusive")):
                    st.mem[cell] = st.mem[cell].with_(n, self.havoc_field(st, n, t, old))
            return
        c = z3.Int(fresh_name("clock"))
        st.assume(c >= self.G(st, "clock"))
        self.setG(st, clock=c, cN=FALSE)
        if not z3.is_true(self.G(st, "exclusive")):
            f = dict(old.fields)
            for n, t in self.fields():
                if self.guard(n) == w or n in STABLE:
                    f[n] = self.havoc_field(st, n, t, old)
            st.mem[cell] = SV(self.CLASS, f)
            self.rely(st, old, st.mem[cell])
            for nm, q, props in self.INV(st, cell):
                st.assume(q)
        st.mem["$at"] = SV("$snap", dict(st.mem[cell].fields))
        st.ghost["acqs"] = st.ghost.get("acqs", ()) + (st.mem["$at"],)

    def rely(self, st, old, new):
        a, b = old.fields["m_logFiles"].fields, new.fields["m_logFiles"].fields
        x = z3.Int("x")
        st.assume(z3.Implies(z3.Not(old.fields["m_isLogging"].fields["v"]), z3.Not(new.fields["m_isLogging"].fields["v"])))
        st.assume(forall([x], z3.Implies(a["dom"][x], b["dom"][x]), patterns=[a["dom"][x]]))
        if self.role == "logger":
            same = [k for k in b if k[:2] in ("v:", "o:") and k not in ("v:buffer.hi", "o:buffer.hi", "o:buffer.lo", "o:filePath", "o:dirsCreated")]
            st.assume(forall([x], z3.Implies(a["dom"][x], z3.And(b["v:buffer.hi"][x] >= a["v:buffer.hi"][x], *[b[k][x] == a[k][x] for k in same])), patterns=[b["dom"][x]]))
            st.assume(forall([x], z3.Implies(z3.And(b["dom"][x], z3.Not(a["dom"][x])), self.G(st, "w")[x] == b["v:buffer.lo"][x]), patterns=[b["dom"][x]]))

    def guarantee(self, st, at, now):
        a, b = at.fields["m_logFiles"].fields, now.fields["m_logFiles"].fields
        x = z3.Int("x")
        keep = [k for k in b if k[:2] == "v:" and k != "v:buffer.hi"]
        P = ("L02", "L05")
        if self.role == "client":
            self.oblige(st, "log calls only add entries and files", forall([x], z3.Implies(a["dom"][x], z3.And(
                b["dom"][x], b["v:buffer.hi"][x] >= a["v:buffer.hi"][x], *[b[k][x] == a[k][x] for k in keep])), patterns=[b["dom"][x]]), "invariant", props=P)
        elif self.role == "logger":
            self.oblige(st, "the logging thread adds neither entries nor files", forall([x], z3.And(a["dom"][x] == b["dom"][x], z3.Implies(
                a["dom"][x], a["v:buffer.hi"][x] == b["v:buffer.hi"][x])), patterns=[b["dom"][x]]), "invariant", props=P)
            self.oblige(st, "written entries are removed before the lock is released", forall([x], z3.Implies(b["dom"][x], self.G(st, "w")[x] == b["v:buffer.lo"][x]), patterns=[b["dom"][x]]), "invariant", props=("L02",))
        elif self.role == "dtor":
            self.oblige(st, "the destructor changes no buffer before the logging thread has stopped", forall([x], z3.And(a["dom"][x] == b["dom"][x], z3.Implies(
                a["dom"][x], z3.And(*[b[k][x] == a[k][x] for k in keep + ["v:buffer.hi"]]))), patterns=[b["dom"][x]]), "invariant", props=P)

    def on_release(self, ex, st, k, mode):
        w = self.which(st, k)
        if w != "m_loggingMutex":
            return
        cell = self.objcell(st)
        for nm, f, props in self.INV(st, cell):
            self.oblige(st, "INV:" + nm, f, "invariant", props=props)
        self.guarantee(st, st.mem["$at"], st.mem[cell])
        st.ghost["rels"] = st.ghost.get("rels", ()) + ((st.mem["$at"], st.mem[cell]),)

    # ---- wake-ups ----------------------------------------------------------------------------------------------------
    def notified(self, st, name, all_):
        if name != "m_loggingCondition":
            raise Unsupported("condition variable " + name)
        held = self.locked(st, "m_loggingMutex")
        self.setG(st, p_wake=FALSE, **({"cN": TRUE} if held else {}))

    def settled(self, st, where):
        self.oblige(st, "the logging thread is notified of a due buffer, a lower flush size or stopping before " + where, z3.Not(self.G(st, "p_wake")), "wakeup", props=("L05", "L03"))

    def waiting(self, st, name, timed):
        if name != "m_loggingCondition" or timed is not None:
            raise Unsupported("wait on " + name)
        m = st.mem[self.objcell(st)].fields["m_logFiles"]
        x = z3.Int("x")
        self.settled(st, "waiting")
        self.oblige(st, "only the logging thread waits", z3.BoolVal(self.role == "logger"), "wakeup", props=("L05",))
        self.oblige(st, "the logging thread waits only while it is not told to stop", self.atom(st, "m_isLogging"), "wakeup", props=("L05",))
        self.oblige(st, "the logging thread waits only while no buffer is due", forall([x], z3.Implies(m.fields["dom"][x], z3.Or(
            HI(m)[x] == LO(m)[x], HI(m)[x] - LO(m)[x] < self.atom(st, "m_bufferFlushSize"))), patterns=[m.fields["dom"][x]]), "wakeup", props=("L05", "L03"))

    # ---- threads -----------------------------------------------------------------------------------------------------
    def tid(self, st, o):
        v = self.rv(st, o)
        if not (isinstance(v, SV) and v.name == "std::thread"):
            raise Unsupported("thread expected")
        return v.fields["id"]

    def c_thread(self, ex, st, t, vs, e):
        if not vs:
            yield st, SV("std::thread", {"id": END})
            return
        v = self.rv(st, vs[0])
        if isinstance(v, SV) and v.name == "std::thread":
            if isinstance(vs[0], LV):
                self.store(st, vs[0], SV("std::thread", {"id": END}))
            yield st, v
            return
        if entry_name(self.ast) is None:
            raise Unsupported("thread entry")
        self.oblige(st, "only the constructor starts the logging thread", z3.BoolVal(self.role == "ctor"), props=("L05",))
        have = set(st.mem[OBJ].fields)
        self.oblige(st, "every member is initialised before the logging thread starts", z3.BoolVal({n for n, t in self.fields()} <= have), props=("L05",))
        n = z3.Int(fresh_name("thread"))
        st.assume(n > 0)
        self.setG(st, exclusive=FALSE)
        st.ghost["started"] = st.ghost.get("started", ()) + (n,)
        yield st, SV("std::thread", {"id": n})

    def t_assign(self, ex, st, o, vs, e, ot):
        v = self.rv(st, vs[0])
        self.oblige(st, "no joinable thread is overwritten", self.tid(st, o) == 0, "safety", props=("L05",))
        if isinstance(vs[0], LV):
            self.store(st, vs[0], SV("std::thread", {"id": END}))
        self.store(st, o, v)
        yield st, o

    def t_join(self, ex, st, o, vs, e, ot):
        n = self.tid(st, o)
        self.oblige(st, "only a joinable thread is joined", n != 0, "safety", props=("L05",))
        self.oblige(st, "no lock is held while joining", z3.BoolVal(not locks.held(st)), props=("L05",))
        self.settled(st, "joining")
        self.oblige(st, "the logging thread is told to stop before it is joined", z3.BoolVal(bool(st.ghost.get("rels"))) if self.role == "dtor" else FALSE, props=("L05",))
        if st.ghost.get("rels"):
            self.oblige(st, "the stop request is published under the lock", z3.Not(st.ghost["rels"][-1][1].fields["m_isLogging"].fields["v"]), props=("L05",))
        self.store(st, o, SV("std::thread", {"id": END}))
        cell = self.objcell(st)
        old = st.mem[cell]
        st.mem[cell] = old.with_("m_logFiles", self.havoc_field(st, "m_logFiles", dict(self.fields())["m_logFiles"], old))
        for nm, f, props in self.INV(st, cell):
            st.assume(f)
        m = st.mem[cell].fields["m_logFiles"]
        x = z3.Int("x")
        w = z3.Const(fresh_name("w"), arr(I))
        st.assume(forall([x], z3.Implies(m.fields["dom"][x], w[x] == LO(m)[x]), patterns=[m.fields["dom"][x]]))
        self.setG(st, exclusive=TRUE, w=w)
        st.ghost["joined"] = st.mem[cell]
        yield st, VOID

    # ---- loops -------------------------------------------------------------------------------------------------------
    def index_exprs(self, st, mod):
        out = []
        types = self.cell_types(st)
        for c in self.scope_cells(st):
            v, t = st.mem[c], types.get(c)
            if isinstance(v, z3.ArithRef) and t is not None and t.kind == "int":
                out.append((c.split("!")[0], (lambda s, c=c: s.mem[c]), c in mod))
        return out

    def havoc_value(self, st, old, new, name):
        ref = old if old is not UNINIT else new
        if isinstance(ref, SV) and ref.name == "lit":
            if isinstance(new, SV) and not new.fields["c"].same(ref.fields["c"]):
                raise Unsupported("iterator changes list in loop")
            return SV("lit", {"c": ref.fields["c"], "pos": z3.Int(fresh_name("h_pos")), "end": False})
        return MonitorEx.havoc_value(self, st, old, new, name)

    # ---- objects with destructors written in the code ------------------------------------------------------------------
    def user_dtor(self, v):
        if not (isinstance(v, SV) and v.name.startswith(("pluto::", "streamer"))):
            return None
        rec = self.find_record(T("rec", v.name), "")
        if rec is None:
            return None
        for c in rec.get("inner", ()):
            if c.get("kind") == "CXXDestructorDecl" and not c.get("isImplicit"):
                d = self.ast.decl(c["id"])
                b = c if body_of(c) is not None else d
                if body_of(b) is not None:
                    return b
        return None

    def destroy(self, d):
        def h(ex, st, lv):
            if st.thrown:
                yield st, None
                return
            for s, v in self.inline(st, d, [], this=lv):
                yield s, None
        return h

    def register_dtor(self, st, lv, v):
        d = self.user_dtor(v)
        if d is not None:
            st.ghost["dtors"] = st.ghost.get("dtors", ()) + ((self.destroy(d), lv),)
            return
        MonitorEx.register_dtor(self, st, lv, v)

    def ev_CXXBindTemporaryExpr(self, st, e):
        for s, v in self.ev(st, self.inner(e)[0]):
            d = None if s.thrown or isinstance(v, LV) else self.user_dtor(v)
            if d is not None:
                v = s.new(v, "tmp")
                s.ghost["temps"] = s.ghost.get("temps", ()) + ((self.destroy(d), v),)
            yield s, v

    def ev_MaterializeTemporaryExpr(self, st, e):
        for s, v in Ex.ev_MaterializeTemporaryExpr(self, st, e):
            if not s.thrown and e.get("extendingDecl"):
                ts = s.ghost.get("temps", ())
                mine = [t for t in ts if isinstance(v, LV) and t[1].same(v)]
                if mine:
                    s.ghost["temps"] = tuple(t for t in ts if t not in mine)
                    s.ghost["dtors"] = s.ghost.get("dtors", ()) + tuple(mine)
            elif not s.thrown and isinstance(v, LV) and v.cell.startswith("tmp") and not v.path and type_of(e).name in STRING_RECS:
                s.ghost["temps"] = s.ghost.get("temps", ()) + ((kill, v),)
            yield s, v

    def ev_ExprWithCleanups(self, st, e):
        n0 = len(st.ghost.get("temps", ()))
        for s, v in self.ev(st, self.inner(e)[0]):
            ts = s.ghost.get("temps", ())
            todo = list(ts[n0:])
            if not s.thrown and e.get("valueCategory", "prvalue") == "prvalue" and isinstance(v, LV) and any(h is kill and l.cell == v.cell for h, l in todo):
                v = self.rv(s, v)
            s.ghost["temps"] = ts[:n0]
            for s2, _ in self.unwind(s, todo, None):
                yield s2, v


def kill(ex, st, lv):
    """the end of a temporary string"""
    st.mem[lv.cell] = DEAD
    yield st, None


MAPS1 = ("std::map", "std::multimap", "std::unordered_map")


def entry_name(ast):
    """the member function the logging thread runs: the one whose address (or call in a lambda) the constructor hands to it"""
    recs = [r for r in ast.by_id.values() if r.get("kind") == "CXXRecordDecl" and r.get("name") == "logger" and r.get("completeDefinition")]
    names = set()
    for r in recs:
        for c in r.get("inner", ()):
            if c.get("kind") == "CXXMethodDecl" and body_of(c) is not None:
                names.add(c.get("name"))
    found = set()

    def go(n):
        if isinstance(n, dict):
            if n.get("kind") == "MemberExpr" and n.get("name") in names:
                found.add(n["name"])
            rd = n.get("referencedDecl") or {}
            if rd.get("kind") == "CXXMethodDecl" and rd.get("name") in names:
                found.add(rd["name"])
            for c in n.get("inner", ()):
                go(c)
    for r in recs:
        for c in r.get("inner", ()):
            if c.get("kind") == "CXXConstructorDecl" and not c.get("isImplicit"):
                go(c)
            if c.get("kind") == "FieldDecl" and type_of(c).name == "std::thread":
                go(c)
    return found.pop() if len(found) == 1 else None


def valeq(a, b):
    if isinstance(a, SV) and isinstance(b, SV):
        return z3.And(*[valeq(a.fields[k], b.fields[k]) for k in a.fields]) if a.fields else TRUE
    if isinstance(a, z3.ExprRef) and isinstance(b, z3.ExprRef) and a.sort() == b.sort():
        return a == b
    return z3.BoolVal(same_value(a, b))


# ---- one function at a time ------------------------------------------------------------------------------------------
def setup(ex):
    st = St()
    ex.init(st)
    st.mem[OBJ] = ex.new_obj(st)
    st.mem["$at"] = SV("$snap", dict(st.mem[OBJ].fields))
    st.this = LV(OBJ)
    return st


def finish(ex, s, fn, throws=False):
    if not throws:
        ex.oblige(s, "no exception escapes" + (": " + s.thrown if s.thrown else ""), z3.BoolVal(s.thrown is None), "safety", props=ALL)
    ex.oblige(s, "%s returns with no lock held" % fn, z3.BoolVal(not locks.held(s)), "lock", props=("L05",))
    ex.settled(s, "returning")


def run(ex, st, d, args, this=True):
    k = 0
    for s, v in ex.inline(st.fork(), d, args, this=LV(OBJ) if this else None):
        k += 1
        yield s, v
    if not k:
        ex.oblige(st, "reachable", FALSE)


def rd(s, n):
    return s.ghost.get("rd:" + n, ())


def any_(fs):
    fs = list(fs)
    return z3.Or(*fs) if fs else FALSE


def log_post(ex, s, fn, f, lv, src, msg):
    """one log call: exactly one entry buffered or discarded when accepted, nothing otherwise"""
    added, incs = s.ghost.get("added", ()), s.ghost.get("incs", ())
    il, le = rd(s, "m_isLogging"), rd(s, "m_level")
    yes = z3.And(any_(il), any_(l <= lv for l in le))
    no = z3.Or(any_(z3.Not(x) for x in il), any_(l > lv for l in le))
    n = len(added) + len(incs)
    if n == 0:
        ex.oblige(s, "post:%s drops a log only below the level or when not logging" % fn, no, props=("L01",))
        return
    ex.oblige(s, "post:%s accepts a log only at or above the level" % fn, yes, props=("L01",))
    ex.oblige(s, "post:%s adds one entry or discards one" % fn, z3.BoolVal(n == 1), props=("L01", "L03"))
    if n != 1:
        return
    ex.oblige(s, "post:%s logs nothing once the stream has ended" % fn, z3.BoolVal(not any(a[2] for a in added)), props=("L01",))
    acq = s.ghost.get("acqs", ())
    caps = rd(s, "m_bufferMaxSize")
    if len(acq) < 1:
        ex.oblige(s, "post:%s buffers under the lock" % fn, FALSE, props=("L03",))
        return
    m = acq[-1].fields["m_logFiles"]
    size0 = z3.If(m.fields["dom"][f], HI(m)[f] - LO(m)[f], 0)
    if added:
        nd, ev, late = added[0]
        ex.oblige(s, "post:%s buffers the entry for the named file" % fn, nd == f, props=("L01",))
        ex.oblige(s, "post:%s keeps the level" % fn, ev.fields["level"] == lv, props=("L01",))
        if src is not None:
            ex.oblige(s, "post:%s keeps the source information" % fn, valeq(src, ev.fields["source"]), props=("L01",))
        if msg is not None:
            ex.oblige(s, "post:%s keeps the complete message" % fn, ev.fields["message"] == msg, props=("L01",))
        ex.oblige(s, "post:%s stamps the calling thread" % fn, ev.fields["thread_id"] == z3.Int("caller_tid"), props=("L01",))
        ex.oblige(s, "post:%s stamps the time of the call" % fn, any_(ev.fields["time"] == t for t in s.ghost.get("readings", ())), props=("L01",))
        ex.oblige(s, "post:%s buffers only below the maximum buffer size" % fn, any_(z3.Or(c == 0, size0 < c) for c in caps), props=("L03",))
        now = s.ghost["rels"][-1][1].fields["m_logFiles"]
        ex.oblige(s, "post:%s adds exactly one entry to its buffer" % fn, HI(now)[f] - LO(now)[f] == size0 + 1, props=("L01", "L03"))
    else:
        ex.oblige(s, "post:%s discards only at the maximum buffer size, counting one" % fn, z3.And(any_(z3.And(c != 0, size0 >= c) for c in caps), incs[0] == 1), props=("L03",))


def args(ex, st):
    f, lv = z3.Int("file"), z3.Int("level")
    st.assume(z3.And(f > 0, lv >= -128, lv <= 127))
    src = SV("pluto::source_info", {"file": z3.Const("sfile", PTR), "line": z3.Int("sline"), "function": z3.Const("sfunc", PTR)})
    st.mem["a_file"], st.mem["a_src"], st.mem["a_msg"] = f, src, z3.Int("msg")
    return f, lv, src


def prove_fn(ex, what, std="c++20"):
    if what == "ctor":
        return prove_ctor(ex)
    st = setup(ex)
    if what == "getters":
        for g, (a, P) in list(SETTINGS.items()) + [("is_logging", ("m_isLogging", ("L01", "L05"))), ("num_discarded_logs", ("m_numDiscardedLogs", ("L03",)))]:
            for s, v in run(ex, st, ex.method(g, 0)[0], []):
                finish(ex, s, g)
                x = ex.rv(s, v)
                ex.oblige(s, "post:%s reports the setting" % g, any_(x == r for r in rd(s, a)), props=P)
        lv = z3.Int("level")
        st.assume(z3.And(lv >= -128, lv <= 127))
        for s, v in run(ex, st, ex.method("should_log", 1)[0], [lv]):
            finish(ex, s, "should_log")
            x = ex.boolv(ex.rv(s, v))
            il, le = rd(s, "m_isLogging"), rd(s, "m_level")
            ex.oblige(s, "post:should_log is whether a running logger's level admits the log", z3.If(
                x, z3.And(any_(il), any_(l <= lv for l in le)), z3.Or(any_(z3.Not(y) for y in il), any_(l > lv for l in le))), props=("L01",))
        for s, v in run(ex, st, ex.ast.driver_fn("pluto_vp_levels"), [], this=False):
            ex.oblige(s, "post:the named levels are ordered from off down to verbose", ex.boolv(ex.rv(s, v)), props=("L01",))
    elif what == "setters":
        for g, (a, P) in SETTINGS.items():
            t = dict(ex.fields())[a].args[0]
            x = ex.fresh(t, "given", st)
            for s, v in run(ex, st, ex.method(g, 1)[0], [x]):
                finish(ex, s, g)
                ss = s.ghost.get("stores", ())
                ex.oblige(s, "post:%s sets its setting and no other" % g, z3.And(z3.BoolVal(len(ss) == 1 and ss[0][0] == a), ss[0][1] == x) if ss else FALSE, props=P)
        for s, v in run(ex, st, ex.method("reset_num_discarded_logs", 0)[0], []):
            finish(ex, s, "reset_num_discarded_logs")
            ss = s.ghost.get("stores", ())
            ex.oblige(s, "post:reset_num_discarded_logs resets the counter only", z3.And(z3.BoolVal(len(ss) == 1 and ss[0][0] == "m_numDiscardedLogs"), ss[0][1] == 0) if ss else FALSE, props=("L03",))
    elif what == "writers":
        for g, a in (("log_writer", "m_logWriter"), ("header_writer", "m_headerWriter")):
            for s, v in run(ex, st, ex.method(g, 0)[0], []):
                finish(ex, s, g)
                ex.oblige(s, "post:%s reports the writer" % g, any_(ex.fterm(s, v) == t for t in s.ghost.get("fn:" + a, ())), props=("L02",))
            x = z3.Const("given", FN)
            st.mem["a_fn"] = UFn(x, "std::function")
            for s, v in run(ex, st, ex.method(g, 1)[0], [LV("a_fn")]):
                finish(ex, s, g)
                ex.oblige(s, "post:%s sets the writer" % g, s.mem[OBJ].fields[a].term == x, props=("L02",))
    elif what == "write":
        f, lv, src = args(ex, st)
        ds = [d for d in ex.method("write", 4)]
        for s, v in run(ex, st, ds[0], [LV("a_file"), lv, src, LV("a_msg")]):
            finish(ex, s, "write")
            log_post(ex, s, "write", f, lv, src, z3.Int("msg"))
        driver(ex, st, "pluto_vp_write", [LV("a_file"), LV("a_msg")], f, z3.IntVal(3), None, z3.Int("msg"))
    elif what == "writef":
        f, lv, src = args(ex, st)
        sc = z3.Const("scheme", PTR)
        st2 = st.fork()
        st2.ghost["scheme"] = sc
        msg = z3.If(z3.Int("fmtlen") >= 0, z3.Int("fmt"), ex.uf("cstr", PTR, I)(sc))
        for s, v in run(ex, st2, ex.method("writef", 4)[0], [LV("a_file"), lv, src, sc]):
            finish(ex, s, "writef")
            log_post(ex, s, "writef", f, lv, src, msg)
            ex.oblige(s, "post:writef ends every argument list it started", z3.BoolVal(all(s.mem[c].state == "ended" for c in s.ghost.get("vas", ()))), props=("L01",))
        driver(ex, st, "pluto_vp_writef", [LV("a_file")], f, z3.IntVal(3), None, None)
    elif what == "format":
        f, lv, src = args(ex, st)
        a, b = z3.Int("a"), z3.Int("b")
        msg = ex.uf("vformat2", PTR, I, I, I)(z3.Const("fmtscheme", PTR), a, b)
        driver(ex, st, "pluto_vp_format", [LV("a_file"), lv, src, a, b], f, lv, src, msg, throws=True)
        driver(ex, st, "pluto_vp_formatm", [LV("a_file"), a, b], f, z3.IntVal(3), None, msg, throws=True)
    elif what == "stream":
        f, lv, src = args(ex, st)
        a, b = z3.Int("a"), z3.Int("b")
        msg = ex.mkstr([("val", a), ("val", b)])
        for n in ("pluto_vp_drop", "pluto_vp_temp", "pluto_vp_tname", "pluto_vp_ended"):
            driver(ex, st, n, [LV("a_file"), lv, src, a, b], f, lv, src, msg)
        driver(ex, st, "pluto_vp_stream", [LV("a_file"), a, b], f, z3.IntVal(3), None, msg)
    elif what == "hidden":
        f, lv, src = args(ex, st)
        a, b = z3.Int("a"), z3.Int("b")
        driver(ex, st, "pluto_vp_hwrite", [LV("a_file"), lv, LV("a_msg")], f, lv, None, z3.Int("msg"))
        driver(ex, st, "pluto_vp_hwritef", [LV("a_file"), lv, a, b], f, lv, None, None)
        driver(ex, st, "pluto_vp_hstream", [LV("a_file"), lv, a, b], f, lv, None, ex.mkstr([("val", a), ("val", b)]))
        driver(ex, st, "pluto_vp_write", [LV("a_file"), LV("a_msg")], f, z3.IntVal(3), None, z3.Int("msg"))
        driver(ex, st, "pluto_vp_writef", [LV("a_file")], f, z3.IntVal(3), None, None)
        if std == "c++20":
            msg = ex.uf("vformat2", PTR, I, I, I)(z3.Const("fmtscheme", PTR), a, b)
            driver(ex, st, "pluto_vp_hformat", [LV("a_file"), lv, a, b], f, lv, None, msg, throws=True)
    elif what == "rotate":
        prove_rotate(ex, st)
    elif what == "flush":
        prove_flush(ex, st)
    elif what == "logging":
        m = st.mem[OBJ].fields["m_logFiles"]
        x = z3.Int("x")
        nm = entry_name(ex.ast)
        if nm is None:
            raise Unsupported("thread entry")
        st.assume(forall([x], z3.Implies(m.fields["dom"][x], ex.G(st, "w")[x] == LO(m)[x]), patterns=[m.fields["dom"][x]]))
        for nm2, f, props in ex.INV(st, OBJ):
            st.assume(f)
        for s, v in run(ex, st, ex.method(nm, 0)[0], []):
            finish(ex, s, nm)
            r = s.ghost.get("rels", ())
            ex.oblige(s, "post:the logging thread ends only when told to stop", z3.Not(r[-1][1].fields["m_isLogging"].fields["v"]) if r else FALSE, props=("L02", "L05"))
    elif what == "dtor":
        st.assume(st.mem[OBJ].fields["m_loggingThread"].fields["id"] > 0)      # established by the constructor; no other function changes it
        for s, v in run(ex, st, ex.method(None, 0, kind="CXXDestructorDecl")[0], []):
            finish(ex, s, "~logger")
            x = z3.Int("x")
            j = s.ghost.get("joined")
            ex.oblige(s, "post:the logging thread has stopped when the destructor ends", z3.Or(z3.BoolVal(j is not None), st.mem[OBJ].fields["m_loggingThread"].fields["id"] == 0), props=("L05",))
            ex.oblige(s, "post:no joinable thread is left behind", s.mem[OBJ].fields["m_loggingThread"].fields["id"] == 0, props=("L05",))
            if j is not None:
                m = j.fields["m_logFiles"]
                ex.oblige(s, "post:every accepted entry is written when the logger is destroyed", forall([x], z3.Implies(m.fields["dom"][x], z3.Or(
                    ex.G(s, "w")[x] == HI(m)[x], ex.G(s, "failed")[x])), patterns=[m.fields["dom"][x]]), props=("L02",))
    else:
        raise Unsupported(what)


def driver(ex, st, name, args_, f, lv, src, msg, throws=False):
    d = ex.ast.driver_fn(name)
    k = 0
    for s, v in ex.inline(st.fork(), d, [LV(OBJ)] + list(args_)):
        k += 1
        finish(ex, s, name[9:], throws)
        if s.thrown:
            ex.oblige(s, "post:%s logs nothing when formatting fails" % name[9:], z3.BoolVal(not s.ghost.get("added") and not s.ghost.get("incs")), props=("L01",))
            continue
        log_post(ex, s, {"pluto_vp_drop": "stream", "pluto_vp_temp": "stream (temporary)", "pluto_vp_tname": "stream (file named by a temporary)", "pluto_vp_ended": "stream (ended)", "pluto_vp_write": "PLUTO_LOG_WRITE", "pluto_vp_writef": "PLUTO_LOG_WRITEF",
                         "pluto_vp_stream": "PLUTO_LOG_STREAM", "pluto_vp_format": "format", "pluto_vp_formatm": "PLUTO_LOG_FORMAT",
                         "pluto_vp_hwrite": "write (no source info)", "pluto_vp_hwritef": "writef (no source info)", "pluto_vp_hstream": "stream (no source info)", "pluto_vp_hformat": "format (no source info)"}[name], f, lv, src, msg)
    if not k:
        ex.oblige(st, "reachable", FALSE)


def prove_ctor(ex):
    st = St()
    ex.init(st)
    cs = [c for c in ex.method(None, 0, kind="CXXConstructorDecl")]
    st.mem[OBJ] = SV(ex.CLASS, {})
    st.mem["$at"] = SV("$snap", {})
    st.this = LV(OBJ)
    k = 0
    for s, v in ex.run_ctor(st, parse_type(ex.CLASS), ex.record(), cs[0], [], lv=LV(OBJ)):
        k += 1
        finish(ex, s, "logger()")
        p = s.mem[OBJ].fields
        ex.oblige(s, "post:a new logger is logging", p["m_isLogging"].fields["v"], props=("L01", "L05"))
        ex.oblige(s, "post:a new logger has no files", p["m_logFiles"].fields["size"] == 0, props=("L02",))
        ex.oblige(s, "post:nothing is discarded yet", p["m_numDiscardedLogs"].fields["v"] == 0, props=("L03",))
        t = s.ghost.get("started", ())
        ex.oblige(s, "post:one logging thread is started and kept", z3.And(z3.BoolVal(len(t) == 1), p["m_loggingThread"].fields["id"] == t[0]) if t else FALSE, props=("L02", "L05"))
    if not k:
        ex.oblige(st, "reachable", FALSE)


def prove_rotate(ex, st):
    P = z3.Int("rotated")
    st.assume(P > 0)
    st.mem["a_path"] = P
    j, K = z3.Ints("j K")
    e0, c0 = z3.Const("ex0", arr(B)), z3.Const("ct0", arr(I))
    st.assume(forall([j], c0[j] == j, patterns=[c0[j]]))     # contents are named by the number of the file that has them
    st.assume(z3.And(K >= 1, K < (1 << 62), z3.Not(e0[K])))
    st.assume(forall([j], z3.Implies(z3.And(0 <= j, j < K), e0[j]), patterns=[e0[j]]))
    P4 = ("L04",)
    for s, v in run(ex, st, ex.method("rotate_file", 1)[0], [LV("a_path")]):
        ex.oblige(s, "rotate_file returns with no lock held", z3.BoolVal(not locks.held(s)), "lock", props=("L05",))
        if s.thrown:
            ex.oblige(s, "only file-system errors escape from rotate_file", z3.BoolVal(s.thrown == FSERR), "safety", props=("L02", "L04"))
            continue
        lim = rd(s, "m_fileRotationLimit")
        X, C = ex.G(s, "ex"), ex.G(s, "ct")
        ok = ex.G(s, "fault")
        ex.oblige(s, "post:a failed file operation does not go unnoticed", z3.Not(ok), props=("L02", "L04"))
        ex.oblige(s, "post:rotate_file reads the limit", z3.BoolVal(len(lim) >= 1), props=P4)
        if not lim:
            continue
        n = lim[0]
        for l in lim[1:]:
            s.assume(l == n)
        N = z3.If(K < n, K, n)
        ex.oblige(s, "post:the base file is free after rotation", z3.Not(X[0]), props=P4)
        ex.oblige(s, "post:the newest files are kept, shifted up by one", forall([j], z3.Implies(z3.And(1 <= j, j <= N), z3.And(X[j], C[j] == j - 1)), patterns=[X[j]]), props=P4)
        ex.oblige(s, "post:older files of the series are removed", forall([j], z3.Implies(z3.And(N < j, j < K), z3.Not(X[j])), patterns=[X[j]]), props=P4)
        ex.oblige(s, "post:files beyond the series are left alone", forall([j], z3.Implies(z3.And(j > K), z3.And(X[j] == e0[j], C[j] == j)), patterns=[X[j]]), props=P4)


def prove_flush(ex, st):
    n = z3.Int("file")
    m = st.mem[OBJ].fields["m_logFiles"]
    st.assume(z3.And(n > 0, m.fields["dom"][n]))
    for nm, f, props in ex.INV(st, OBJ):
        st.assume(f)
    base = LV(OBJ, ("m_logFiles", ("at", n), "second"))
    b = z3.Int("b")
    lo, hi = LO(m)[n], HI(m)[n]
    st.assume(z3.And(lo - 1 <= b, b < hi, ex.G(st, "w")[n] == lo))
    st.mem["a_file"] = n
    bl = base.f("buffer")
    w0 = ex.G(st, "w")
    a = [SV("lit", {"c": bl, "pos": b, "end": False}), SV("lit", {"c": bl, "pos": z3.simplify(lo - 1), "end": True}), LV("a_file"), base.f("filePath"), base.f("dirsCreated")]
    x = z3.Int("x")
    for s, v in run(ex, st, ex.method("write_buffer_to_file", 5)[0], a):
        finish(ex, s, "write_buffer_to_file")
        r = ex.rv(s, v)
        P = ("L02",)
        if not (isinstance(r, SV) and r.name == "lit"):
            ex.oblige(s, "post:the position written so far is returned", FALSE, props=P)
            continue
        w = ex.G(s, "w")
        ex.oblige(s, "post:the position written so far is returned", z3.And(ex.eff(s, r) + 1 == w[n], lo <= w[n], w[n] <= b + 1), props=P)
        ex.oblige(s, "post:all entries given are written unless the file system fails", z3.Or(w[n] == b + 1, ex.G(s, "fault")), props=P)
        ex.oblige(s, "post:no other file's entries are written", forall([x], z3.Implies(x != n, w[x] == w0[x]), patterns=[w[x]]), props=P)
        p = s.mem[OBJ].fields["m_logFiles"].fields["v:filePath"][n]
        ex.oblige(s, "post:the file's path is that of its name", z3.Or(p == 0, p == ex.uf("absolute", I, I)(n)), props=P)


FUNCS = ["ctor", "dtor", "getters", "setters", "writers", "write", "writef", "format", "stream", "hidden", "rotate", "flush", "logging"]
ROLE = {"ctor": "ctor", "dtor": "dtor", "rotate": "rotate", "flush": "flush", "logging": "logger"}
USED = {"L01": ("ctor", "getters", "setters", "write", "writef", "format", "stream", "hidden"),
        "L02": ("ctor", "dtor", "setters", "writers", "write", "writef", "format", "stream", "hidden", "rotate", "flush", "logging"),
        "L03": ("ctor", "getters", "setters", "write", "writef", "format", "stream", "hidden", "logging"),
        "L04": ("setters", "rotate", "flush"),
        "L05": tuple(FUNCS)}


def tasks(pid, tier):
    return ["%s:%s:%s" % (pid, f, s) for f in USED[pid] for s in STDS if f != "format" or s == "c++20"]


def prove(tid, r, tier):
    pid, what, std = tid.split(":")
    r.name = "%s/%s/%s" % (pid, what, std)
    ex = LogsEx(Ast.load(HTXT if what == "hidden" else TXT, std), pid, ROLE.get(what, "client"))
    prove_fn(ex, what, std)
    r.absorb(ex)


def natives(pid, tier):
    out = [dict(name="logs-%s-schedules" % pid, src="logs.cpp", args=[pid], secs={"quick": 25, "thorough": 300}, flags=["-O1", "-g", "-DVP_SCHED"])]
    if pid == "L05":
        out.append(dict(name="logs-L05-threads", src="logs.cpp", args=[pid], secs={"quick": 8, "thorough": 60}, flags=["-O1", "-g", "-fsanitize=thread"]))
    if pid == "L01":
        out.append(dict(name="logs-L01-asan", src="logs.cpp", args=[pid], secs={"quick": 6, "thorough": 60}, flags=["-O1", "-g", "-fsanitize=address,undefined"]))
        out.append(dict(name="logs-L01-hidden", src="logs.cpp", args=[pid], secs={"quick": 5, "thorough": 60}, flags=["-O1", "-g", "-DPLUTO_LOGGER_HIDE_SOURCE_INFO=1"]))
    return out


TRUSTED = {"*": ["assumed contracts of std::mutex/unique_lock, std::condition_variable, std::map, std::list, std::function, std::thread, std::atomic, std::string, std::filesystem and file streams (vp/locks.py, vp/monitor.py, vp/props/logs.py)",
                 "rely/guarantee composition: each role's assumptions about the other threads are obligations of the functions those threads run"]}
_A = ["the configured writers do not throw and write to the given stream only; allocation and starting a thread do not fail",
      "no log call or setter runs concurrently with the logger's destruction", "writing to an open file stream does not fail silently (a full disk is not modelled)",
      "no other process changes the log files' directory while a file is rotated", "machine sizes treated as mathematical integers below 2^62"]
ASSUME = {p: _A for p in ALL}
