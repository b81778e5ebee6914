"""Models of the C++ standard library / protobuf accessors used by the sources (trusted)."""
from interp import *

_cardf, _enumf, _posf = {}, {}, {}


def card(mem):
    so = mem.sort()
    k = str(so)
    if k not in _cardf:
        _cardf[k] = z3.Function("CARD!" + k, so, INT)
    return _cardf[k](mem)


def enum(mem, i):
    so = mem.sort()
    k = str(so)
    if k not in _enumf:
        _enumf[k] = z3.Function("ENUM!" + k, so, INT, so.domain())
    return _enumf[k](mem, i)


def posn(mem, x):
    so = mem.sort()
    k = str(so)
    if k not in _posf:
        _posf[k] = z3.Function("POS!" + k, so, so.domain(), INT)
    return _posf[k](mem, x)


class Lib(Interp):
    # ------------------------------------------------------------ finite sets
    def card_facts(self, mem):
        c = card(mem)
        self.fact(z3.And(c >= 0, c < 2 ** 30))
        if z3.is_app(mem) and mem.decl().kind() == z3.Z3_OP_STORE:
            a, x, b = mem.children()
            ca = self.card_facts(a)
            self.fact(c == ca + z3.If(z3.Select(a, x), z3.If(b, 0, -1), z3.If(b, 1, 0)))
        elif z3.is_app(mem) and mem.decl().kind() == z3.Z3_OP_CONST_ARRAY:
            self.fact(c == 0)
        x = z3.Const("x!c", mem.domain())
        self.fact(z3.ForAll([x], Implies(z3.Select(mem, x), z3.And(posn(mem, x) >= 0, posn(mem, x) < c, enum(mem, posn(mem, x)) == x)), patterns=[z3.Select(mem, x)]))
        w = enum(mem, z3.IntVal(0))
        self.fact(Implies(c > 0, z3.And(z3.Select(mem, w), posn(mem, w) == 0)))
        return c

    def enum_facts(self, mem):
        c = self.card_facts(mem)
        i, j = z3.Ints("i!e j!e")
        self.fact(z3.ForAll([i], Implies(z3.And(i >= 0, i < c), z3.And(z3.Select(mem, enum(mem, i)), posn(mem, enum(mem, i)) == i)), patterns=[enum(mem, i)]))
        if mem.domain() == INT:
            self.fact(z3.ForAll([i, j], Implies(z3.And(i >= 0, i < j, j < c), enum(mem, i) < enum(mem, j)), patterns=[z3.MultiPattern(enum(mem, i), enum(mem, j))]))
        return c

    # ------------------------------------------------------------ iterators
    def it_add(self, it, d):
        if it.kind in ("seq", "enum"):
            return ItV(it.loc, simp(it.pos + d), it.kind, it.key, it.rev)
        if it.kind == "key" and it.key is not None:
            unsup("advancing a find() iterator")
        unsup("iterator arithmetic")

    def it_index(self, it):
        v = self.load(it.loc)
        self.lenfact(v)
        return simp(v.len - 1 - it.pos) if it.rev else it.pos

    def it_deref(self, it):
        if it.kind == "seq":
            i = self.it_index(it)
            return self.elem(it.loc, i)
        v = self.load(it.loc)
        if it.kind == "enum":
            self.enum_facts(v.mem)
            self.safety("iterator dereference in range", z3.And(it.pos >= 0, it.pos < card(v.mem)))
            key = enum(v.mem, it.pos)
        else:
            self.safety("iterator dereference not end", Not(it.pos))
            key = it.key
        if isinstance(v, MapV):
            return PairRef(key, it.loc.key(key))
        return key

    def seq_slice(self, f, l):
        """values of [f,l) as (len, fn)"""
        v = self.load(f.loc)
        self.lenfact(v)
        if f.kind != "seq" or l.kind != "seq" or f.rev or l.rev:
            unsup("iterator range kind")
        self.safety("iterator range valid", z3.And(f.pos >= 0, f.pos <= l.pos, l.pos <= v.len))
        off = f.pos
        return simp(l.pos - f.pos), (lambda i: v.get(simp(off + i)))

    # ------------------------------------------------------------ method dispatch
    def method(self, n, m, base, args):
        nm = m["name"]
        bt = self.T(base)
        if m.get("isArrow"):
            loc = self.deref(self.ev(base))
            t = self.typeof(loc) if isinstance(loc, Loc) else (bt[1] if len(bt) > 1 else bt)
            x = loc
        else:
            x = self.ev(base)
            t = bt
            if isinstance(x, Loc):
                try:
                    t = self.typeof(x)
                except Exception:
                    t = bt
        if isinstance(x, CStr):
            x = strconst(x.s)
            t = TSTR
        if nm.startswith("operator ") and t[0] in ("ptr", "uniq", "opt", "fn"):
            v = self.rv(x)
            if t[0] == "fn":
                return v != 0 if z3.is_expr(v) else z3.BoolVal(True)
            return self.nonnull(v)
        if t[0] == "struct" and isinstance(t[1], str) and t[1].startswith("raftpb::"):
            return self.proto_method(n, nm, x, t, args)
        k = t[0]
        if k == "opaque" or isinstance(x, OpaqueV):
            f = getattr(self, "m_opaque_" + nm, None)
            if f:
                return f(n, x, args)
            unsup("method %s on opaque %r" % (nm, t))
        f = getattr(self, "m_%s_%s" % (k, nm), None)
        if f is None:
            unsup("method %s on %r" % (nm, t))
        return f(n, x, t, args)

    # opaque streams
    def m_opaque_str(self, n, x, args):
        return self.fresh("str", STR)

    def m_opaque_what(self, n, x, args):
        return CStr("")

    # ---- string
    def m_str_size(self, n, x, t, a):
        v = self.rv(x)
        self.rangefact(v, TSTR)
        return STRLEN(v)
    m_str_length = m_str_size

    def m_str_empty(self, n, x, t, a):
        v = self.rv(x)
        self.rangefact(v, TSTR)
        return v == strconst("")

    def m_str_c_str(self, n, x, t, a):
        return OpaqueV("c_str")
    m_str_data = m_str_c_str

    def m_str_substr(self, n, x, t, a):
        return self.fresh("substr", STR)

    def m_str_find(self, n, x, t, a):
        v = self.freshint("find")
        self.rangefact(v, TU64)
        return v
    m_str_find_first_not_of = m_str_find_last_not_of = m_str_find

    def m_str_clear(self, n, x, t, a):
        self.store(x, strconst(""))

    # ---- sequences
    def m_seq_size(self, n, x, t, a):
        v = self.rv(x)
        self.lenfact(v)
        return v.len

    def m_seq_empty(self, n, x, t, a):
        v = self.rv(x)
        self.lenfact(v)
        return v.len == 0

    def m_seq_begin(self, n, x, t, a):
        return ItV(self.as_loc(x, t), z3.IntVal(0))
    m_seq_cbegin = m_seq_begin

    def m_seq_end(self, n, x, t, a):
        x = self.as_loc(x, t)
        v = self.load(x)
        self.lenfact(v)
        return ItV(x, v.len)
    m_seq_cend = m_seq_end

    def m_seq_rbegin(self, n, x, t, a):
        return ItV(self.as_loc(x, t), z3.IntVal(0), rev=True)

    def m_seq_rend(self, n, x, t, a):
        x = self.as_loc(x, t)
        v = self.load(x)
        return ItV(x, v.len, rev=True)

    def m_seq_front(self, n, x, t, a):
        return self.elem(self.as_loc(x, t), z3.IntVal(0))

    def m_seq_back(self, n, x, t, a):
        x = self.as_loc(x, t)
        return self.elem(x, simp(self.load(x).len - 1))

    def m_seq_at(self, n, x, t, a):
        i = self.rv(self.ev(a[0]))
        return self.elem(self.as_loc(x, t), i)

    def seq_append(self, x, t, v):
        s = self.reify_seq(self.load(x))
        self.lenfact(s)
        self.fact(s.len < 2 ** 48 - 1)
        v = self.reify(self.coerce(v, t[1]), t[1])
        self.store(x, SeqV(s.t, simp(s.len + 1), s.lift.store(s.len, v)))
        return x.idx(s.len)

    def m_seq_push_back(self, n, x, t, a):
        v = self.take(a[0])
        self.seq_append(x, t, self.init_value(v, t[1]))

    def m_seq_emplace_back(self, n, x, t, a):
        if len(a) == 1:
            v = self.take(a[0])
            v = self.init_value(v, t[1])
        elif t[1][0] == "tuple":
            v = TupleObj([self.take(y) for y in a])
        elif not a:
            v = default(self.ty, t[1])
        elif t[1][0] == "struct" and t[1][1] in self.eng.prog.records:
            f = self.find_ctor(t[1][1], None, a)
            v = self.run_ctor(f, t[1][1], self.eval_args(f, a))
        else:
            unsup("emplace_back")
        return self.seq_append(x, t, v)

    def m_seq_pop_back(self, n, x, t, a):
        s = self.load(x)
        self.safety("pop on non-empty", s.len > 0)
        self.store(x, SeqV(s.t, simp(s.len - 1), s.lift))

    def m_seq_pop_front(self, n, x, t, a):
        s = self.load(x)
        self.safety("pop on non-empty", s.len > 0)
        self.store(x, SeqV(s.t, simp(s.len - 1), LFn(lambda i: s.get(simp(i + 1)))))

    def m_seq_clear(self, n, x, t, a):
        self.store(x, default(self.ty, ("seq", t[1], None)))
    m_seq_Clear = m_seq_clear

    def m_seq_shrink_to_fit(self, n, x, t, a):
        return None
    m_seq_reserve = m_seq_Reserve = m_seq_shrink_to_fit

    def m_seq_resize(self, n, x, t, a):
        s = self.load(x)
        self.lenfact(s)
        ln = self.rv(self.ev(a[0]))
        d = self.reify(self.rv(self.ev(a[1])), t[1]) if len(a) > 1 and a[1]["kind"] != "CXXDefaultArgExpr" else default(self.ty, t[1])
        self.store(x, SeqV(s.t, ln, LFn(lambda i: ite(i < s.len, s.get(i), d))))

    def iters(self, a):
        vs = [self.rv(self.ev(y)) for y in a]
        return vs

    def m_seq_insert(self, n, x, t, a):
        it = self.rv(self.ev(a[0]))
        s = self.load(x)
        self.lenfact(s)
        if len(a) == 3:
            f, l = self.rv(self.ev(a[1])), self.rv(self.ev(a[2]))
            if isinstance(f, ItV):
                m, g = self.seq_slice(f, l)
                if any(self.is_move_iter(y) for y in a[1:]):
                    unsup("move iterator")
            else:
                unsup("insert(n, value)")
        else:
            v = self.take(a[1])
            m, g = z3.IntVal(1), (lambda i: v)
        p = it.pos
        self.safety("insert position valid", z3.And(p >= 0, p <= s.len))
        self.store(x, SeqV(s.t, simp(s.len + m), LFn(lambda i: ite(i < p, s.get(i), ite(i < p + m, g(simp(i - p)), s.get(simp(i - m)))))))
        return ItV(x, p)

    def is_move_iter(self, a):
        return "move_iterator" in nstr(a)

    def m_seq_erase(self, n, x, t, a):
        s = self.load(x)
        self.lenfact(s)
        f = self.rv(self.ev(a[0]))
        if len(a) == 2:
            l = self.rv(self.ev(a[1]))
            self.safety("erase range valid", z3.And(f.pos >= 0, f.pos <= l.pos, l.pos <= s.len))
            m = simp(l.pos - f.pos)
        else:
            self.safety("erase position valid", z3.And(f.pos >= 0, f.pos < s.len))
            m = z3.IntVal(1)
        p = f.pos
        if z3.is_int_value(m) and m.as_long() == 0:
            return ItV(x, p)
        if simp(p + m == s.len).eq(z3.BoolVal(True)) and isinstance(s.lift, LArr):
            self.store(x, SeqV(s.t, p, s.lift))
        else:
            self.store(x, SeqV(s.t, simp(s.len - m), LFn(lambda i: ite(i < p, s.get(i), s.get(simp(i + m))))))
        return ItV(x, p)

    def m_seq_assign(self, n, x, t, a):
        f, l = self.rv(self.ev(a[0])), self.rv(self.ev(a[1]))
        if not isinstance(f, ItV):
            unsup("assign(n, v)")
        m, g = self.seq_slice(f, l)
        self.store(x, SeqV(t[1], m, LFn(g)))

    def m_seq_CopyFrom(self, n, x, t, a):
        self.store(x, self.rv(self.ev(a[0])))

    def m_seq_swap(self, n, x, t, a):
        y = self.ev(a[0])
        u, v = self.load(x), self.load(y)
        self.store(x, v)
        self.store(y, u)
    m_map_swap = m_set_swap = m_seq_swap

    # ---- sets / maps
    def key_of(self, a):
        v = self.rv(self.ev(a))
        if isinstance(v, CStr):
            v = strconst(v.s)
        return v

    def m_set_insert(self, n, x, t, a):
        if len(a) == 2:
            f, l = self.rv(self.ev(a[0])), self.rv(self.ev(a[1]))
            v, w = self.load(x), self.load(f.loc)
            if f.kind == "enum" and isinstance(w, SetV) and l.kind == "key":
                k = z3.Const(self.name_of("k"), v.mem.domain())
                nm = self.fresh("union", v.mem.sort())
                self.assume(z3.ForAll([k], z3.Select(nm, k) == z3.Or(z3.Select(v.mem, k), z3.Select(w.mem, k)), patterns=[z3.Select(nm, k), z3.Select(v.mem, k), z3.Select(w.mem, k)]))
                self.store(x, SetV(v.kt, nm))
                return None
            m, g = self.seq_slice(f, l)
            nm = self.fresh("union", v.mem.sort())
            k = z3.Const(self.name_of("k"), v.mem.domain())
            wit = z3.Function(self.name_of("wit"), v.mem.domain(), INT)
            self.assume(z3.ForAll([k], z3.Select(nm, k) == z3.Or(z3.Select(v.mem, k), z3.And(wit(k) >= 0, wit(k) < m, g(wit(k)) == k)), patterns=[z3.Select(nm, k)]))
            i = z3.Int(self.name_of("i"))
            self.assume(z3.ForAll([i], Implies(z3.And(i >= 0, i < m), z3.Select(nm, g(i)))))
            self.store(x, SetV(v.kt, nm))
            return None
        k = self.key_of(a[0])
        v = self.load(x)
        self.store(x, SetV(v.kt, z3.Store(v.mem, k, z3.BoolVal(True))))
        return TupleObj([ItV(x, z3.BoolVal(False), "key", k), Not(sel(v.mem, k))])
    m_set_emplace = m_set_insert

    def m_set_erase(self, n, x, t, a):
        k = self.rv(self.ev(a[0]))
        v = self.load(x)
        if isinstance(k, ItV):
            if k.kind != "key":
                unsup("erase(iterator)")
            self.safety("erase iterator not end", Not(k.pos))
            k = k.key
        had = sel(v.mem, k)
        self.store(x, SetV(v.kt, z3.Store(v.mem, k, z3.BoolVal(False))))
        return z3.If(had, z3.IntVal(1), z3.IntVal(0))

    def m_set_count(self, n, x, t, a):
        v = self.rv(x)
        return z3.If(sel(v.mem, self.key_of(a[0])), z3.IntVal(1), z3.IntVal(0))

    def m_set_contains(self, n, x, t, a):
        v = self.rv(x)
        return sel(v.mem, self.key_of(a[0]))

    def m_set_empty(self, n, x, t, a):
        v = self.rv(x)
        self.card_facts(v.mem)
        return card(v.mem) == 0

    def m_set_size(self, n, x, t, a):
        v = self.rv(x)
        return self.card_facts(v.mem)

    def m_set_clear(self, n, x, t, a):
        self.store(x, default(self.ty, t))

    def m_set_find(self, n, x, t, a):
        x = self.as_loc(x, t)
        k = self.key_of(a[0])
        v = self.load(x)
        return ItV(x, simp(Not(sel(v.mem, k))), "key", k)

    def m_set_begin(self, n, x, t, a):
        return ItV(self.as_loc(x, t), z3.IntVal(0), "enum")
    m_set_cbegin = m_set_begin

    def m_set_end(self, n, x, t, a):
        return ItV(self.as_loc(x, t), z3.BoolVal(True), "key")
    m_set_cend = m_set_end

    m_map_count, m_map_empty, m_map_size, m_map_clear, m_map_find = m_set_count, m_set_empty, m_set_size, m_set_clear, m_set_find
    m_map_begin, m_map_end, m_map_contains, m_map_cbegin, m_map_cend = m_set_begin, m_set_end, m_set_contains, m_set_cbegin, m_set_cend

    def m_map_erase(self, n, x, t, a):
        k = self.rv(self.ev(a[0]))
        v = self.load(x)
        if isinstance(k, ItV):
            if k.kind != "key":
                unsup("erase(iterator)")
            self.safety("erase iterator not end", Not(k.pos))
            k = k.key
        had = sel(v.mem, k)
        self.store(x, MapV(v.kt, v.vt, z3.Store(v.mem, k, z3.BoolVal(False)), v.lift))
        return z3.If(had, z3.IntVal(1), z3.IntVal(0))

    def map_put(self, x, k, val, only_new):
        v = self.load(x)
        had = sel(v.mem, k)
        val = self.reify(self.coerce(val, v.vt), v.vt)
        nv = ite(simp(had), v.lift.get(k), val) if only_new else val
        self.store(x, MapV(v.kt, v.vt, z3.Store(v.mem, k, z3.BoolVal(True)), v.lift.store(k, nv)))
        return TupleObj([ItV(x, z3.BoolVal(False), "key", k), Not(had)])

    def m_map_emplace(self, n, x, t, a):
        if len(a) == 1:
            return self.m_map_insert(n, x, t, a)
        k = self.key_of(a[0])
        return self.map_put(x, k, self.init_value(self.take(a[1]), t[2]), True)
    m_map_try_emplace = m_map_emplace

    def m_map_insert_or_assign(self, n, x, t, a):
        k = self.key_of(a[0])
        return self.map_put(x, k, self.init_value(self.take(a[1]), t[2]), False)

    def m_map_insert(self, n, x, t, a):
        p = self.take(a[0])
        if isinstance(p, TupleObj):
            k, v = self.rv(p.vs[0]), self.rv(p.vs[1])
        elif isinstance(p, PairRef):
            k, v = self.rv(p.first), self.rv(p.second)
        elif isinstance(p, StructV):
            k, v = p.f["f0"], p.f["f1"]
        else:
            unsup("map insert")
        return self.map_put(x, k, v, True)

    def m_map_at(self, n, x, t, a):
        k = self.key_of(a[0])
        x = self.as_loc(x, t)
        self.safety("map::at key present", sel(self.load(x).mem, k))
        return x.key(k)

    def map_index(self, x, t, k):
        v = self.load(x)
        had = simp(sel(v.mem, k))
        if z3.is_true(had) or self.proved_qf(had):
            return x.key(k)
        d = default(self.ty, t[2])
        nv = ite(had, v.lift.get(k), d)
        self.store(x, MapV(v.kt, v.vt, z3.Store(v.mem, k, z3.BoolVal(True)), v.lift.store(k, nv)))
        return x.key(k)

    # ---- optional / pointers
    def m_opt_has_value(self, n, x, t, a):
        return self.rv(x).has

    def m_opt_value(self, n, x, t, a):
        self.safety("optional has value", self.rv(x).has)
        return x.deref() if isinstance(x, Loc) else x.val

    def m_opt_reset(self, n, x, t, a):
        self.store(x, default(self.ty, t))
    m_uniq_release = m_opt_reset

    def m_opt_emplace(self, n, x, t, a):
        self.store(x, OptV(t[1], z3.BoolVal(True), self.coerce(self.init_value(self.take(a[0]), t[1]), t[1])))

    def m_uniq_get(self, n, x, t, a):
        v = self.rv(x)
        if self.decide(v.has):
            return RawV(x.deref())
        return RawV(None)

    def m_uniq_reset(self, n, x, t, a):
        if not a or a[0]["kind"] == "CXXDefaultArgExpr":
            self.store(x, default(self.ty, t))
            return None
        p = self.rv(self.ev(a[0]))
        if p.loc is None:
            self.store(x, default(self.ty, t))
        else:
            self.store(x, OptV(t[1], z3.BoolVal(True), self.load(p.loc)))

    def m_uniqarr_reset(self, n, x, t, a):
        return None

    def m_ptr_get(self, n, x, t, a):
        v = self.rv(x)
        if self.decide(v == 0):
            return RawV(None)
        return RawV(Loc(("h", t[1][1], v)))

    def m_ptr_reset(self, n, x, t, a):
        if a and a[0]["kind"] != "CXXDefaultArgExpr":
            unsup("shared_ptr::reset(p)")
        self.store(x, z3.IntVal(0))

    # ---- Status
    def m_status_IsOK(self, n, x, t, a):
        return self.rv(x) == 0

    def m_status_Str(self, n, x, t, a):
        return StatusStr(self.rv(x))

    # ------------------------------------------------------------ protobuf messages
    def proto_method(self, n, nm, x, t, args):
        q = t[1]
        fs = dict(self.ty.fields(q))
        loc = self.as_loc(x, t)
        if nm in fs:
            ft = fs[nm]
            if args:
                i = self.rv(self.ev(args[0]))
                return self.elem(loc.f(nm), i)
            return loc.f(nm)
        if nm.startswith("set_") and nm[4:] in fs:
            ft = fs[nm[4:]]
            if ft[0] == "seq":
                i = self.rv(self.ev(args[0]))
                e = self.elem(loc.f(nm[4:]), i)
                self.store(e, self.take(args[1]))
                return None
            v = self.take(args[0])
            self.store(loc.f(nm[4:]), self.init_value(v, ft))
            return None
        if nm.startswith("mutable_") and nm[8:] in fs:
            if args:
                i = self.rv(self.ev(args[0]))
                return RawV(self.elem(loc.f(nm[8:]), i))
            return RawV(loc.f(nm[8:]))
        if nm.endswith("_size") and nm[:-5] in fs and fs[nm[:-5]][0] == "seq":
            v = self.load(loc.f(nm[:-5]))
            self.lenfact(v)
            self.fact(v.len < 2 ** 31)
            return v.len
        if nm.startswith("add_") and nm[4:] in fs and fs[nm[4:]][0] == "seq":
            ft = fs[nm[4:]]
            if args:
                self.seq_append(loc.f(nm[4:]), ft, self.take(args[0]))
                return None
            return RawV(self.seq_append(loc.f(nm[4:]), ft, default(self.ty, ft[1])))
        if nm.startswith("clear_") and nm[6:] in fs:
            self.store(loc.f(nm[6:]), default(self.ty, fs[nm[6:]]))
            return None
        if nm.startswith("has_") and nm[4:] in fs:
            unsup("proto has_ accessor " + nm)
        if nm == "Clear":
            self.store(loc, default(self.ty, t))
            return None
        if nm == "CopyFrom":
            self.store(loc, self.rv(self.ev(args[0])))
            return None
        if nm in ("ByteSizeLong", "ByteSize"):
            if "$bs" in fs:
                v = self.load(loc.f("$bs"))
                self.fact(z3.And(v >= 0, v < 2 ** 31))
                return v
            v = self.freshint("bytesize")
            self.fact(z3.And(v >= 0, v < 2 ** 31))
            return v
        if nm in ("SerializeAsString", "DebugString", "ShortDebugString"):
            return self.serialize(self.load(loc), t)
        if nm in ("AppendToString", "SerializeToString"):
            p = self.rv(self.ev(args[0]))
            self.store(p.loc, self.serialize(self.load(loc), t))
            return z3.BoolVal(True)
        if nm in ("ParseFromString",):
            s = self.rv(self.ev(args[0]))
            ok = self.fresh("parse_ok", BOOL)
            self.store(loc, self.parsed(s, t))
            return ok
        if nm == "Swap":
            p = self.rv(self.ev(args[0]))
            u, v = self.load(loc), self.load(p.loc)
            self.store(loc, v)
            self.store(p.loc, u)
            return None
        unsup("protobuf method %s::%s" % (q, nm))

    def serialize(self, v, t):
        return self.fresh("ser", STR)

    def parsed(self, s, t):
        """ParseFromString: a deterministic function of the bytes"""
        b = "PARSE~" + t[1]

        def leaf(suf):
            so = self.leafsort(t, suf)
            return z3.Function(b + suf, STR, so)(s)
        return build(self.ty, t, leaf)

    # ------------------------------------------------------------ std constructors
    def construct_std(self, t, n, args, ct):
        k = t[0]
        if not args:
            return default(self.ty, t)
        if k == "status":
            return self.rv(self.ev(args[0]))
        if k in ("ptr", "uniq"):
            x = self.ev(args[0])
            v = self.rv(x)
            if isinstance(v, RawV):
                if v.loc is None:
                    return default(self.ty, t)
                if k == "uniq":
                    return OptV(t[1], z3.BoolVal(True), self.load(v.loc))
                unsup("shared_ptr from raw pointer")
            if isinstance(x, Loc) and (self.is_move(args[0]) or "&&" in ct):
                self.moved_from(x)
            return v
        if k == "uniqarr":
            return OpaqueV("uniqarr")
        if k == "str":
            v = self.rv(self.ev(args[0]))
            if isinstance(v, CStr) and len(args) == 1:
                return strconst(v.s)
            if z3.is_expr(v) and v.sort() == STR and len(args) == 1:
                return v
            return self.fresh("str", STR)
        if k == "opt":
            x = self.take(args[0])
            if isinstance(x, OpaqueV):
                return default(self.ty, t)
            if isinstance(x, OptV):
                return x
            return OptV(t[1], z3.BoolVal(True), self.coerce(self.init_value(x, t[1]), t[1]))
        if k == "tuple":
            if len(args) == 1:
                v = self.take(args[0])
                if isinstance(v, (StructV, PairRef, TupleObj)):
                    return self.coerce_tuple(v, t)
                args_v = [v]
            else:
                args_v = [self.take(a) for a in args]
            return StructV(t[1], {"f%d" % i: self.coerce(self.init_value(a, ft), ft) for i, (a, ft) in enumerate(zip(args_v, t[1]))})
        if k == "seq":
            vs = [self.rv(self.ev(a)) for a in args]
            if isinstance(vs[0], InitList):
                return self.from_initlist(vs[0], t)
            if isinstance(vs[0], SeqV):
                return vs[0]
            if isinstance(vs[0], ItV):
                if vs[0].kind != "seq":
                    return self.seq_from_set(vs[0], vs[1], t)
                m, g = self.seq_slice(vs[0], vs[1])
                return SeqV(t[1], m, LFn(g))
            if z3.is_expr(vs[0]):
                d = vs[1] if len(vs) > 1 else default(self.ty, t[1])
                return SeqV(t[1], vs[0], LFn(lambda i: d))
        if k == "set":
            vs = [self.rv(self.ev(a)) for a in args]
            if isinstance(vs[0], InitList):
                return self.from_initlist(vs[0], t)
            if isinstance(vs[0], SetV):
                return vs[0]
            if isinstance(vs[0], ItV):
                if vs[0].kind == "enum":
                    return self.load(vs[0].loc)
                loc = self.cell(default(self.ty, t), t)
                m, g = self.seq_slice(vs[0], vs[1])
                nm = self.fresh("setof", loc and self.load(loc).mem.sort())
                kk = z3.Const(self.name_of("k"), nm.domain())
                wit = z3.Function(self.name_of("wit"), nm.domain(), INT)
                self.assume(z3.ForAll([kk], Implies(z3.Select(nm, kk), z3.And(wit(kk) >= 0, wit(kk) < m, g(wit(kk)) == kk)), patterns=[z3.Select(nm, kk)]))
                i = z3.Int(self.name_of("i"))
                self.assume(z3.ForAll([i], Implies(z3.And(i >= 0, i < m), z3.Select(nm, g(i)))))
                return SetV(t[1], nm)
        if k == "map":
            vs = [self.rv(self.ev(a)) for a in args]
            if isinstance(vs[0], MapV):
                return vs[0]
        if k in ("iter", "raw"):
            return self.rv(self.ev(args[0]))
        if k == "opaque":
            return OpaqueV(t[1])
        unsup("constructor of %r with %d args" % (t, len(args)))

    def seq_from_set(self, f, l, t):
        v = self.load(f.loc)
        c = self.enum_facts(v.mem)
        return SeqV(t[1], c, LFn(lambda i: enum(v.mem, i)))

    def coerce_tuple(self, v, t):
        if isinstance(v, StructV):
            src = [v.f["f%d" % i] for i in range(len(t[1]))]
        elif isinstance(v, TupleObj):
            src = [self.rv(a) for a in v.vs]
        else:
            src = [self.rv(v.first), self.rv(v.second)]
        return StructV(t[1], {"f%d" % i: self.coerce(self.init_value(a, ft), ft) for i, (a, ft) in enumerate(zip(src, t[1]))})

    # ------------------------------------------------------------ std functions
    def f_move(self, n, args):
        return self.ev(args[0])

    f_forward = f_ref = f_cref = f_as_const = f_move

    def new_object(self, q, v):
        ref = self.st.alloc
        loc = Loc(("h", q, ref))
        self.store(loc, v, log=True)
        self.st.alloc = simp(ref + 1)
        self.fact(ref >= 1)
        return ref

    def make_value(self, t, args):
        if t[0] == "struct" and t[1].startswith("raftpb::"):
            if not args:
                return default(self.ty, t)
            v = self.take(args[0])
            return v
        if t[0] == "struct" and t[1] in self.eng.prog.records:
            if len(args) == 1 and self.T(args[0]) == t:
                return self.take(args[0])
            f = self.find_ctor(t[1], None, args)
            if f is None:
                if args:
                    unsup("make_shared args for " + t[1])
                return self.default_struct(t[1])
            return self.run_ctor(f, t[1], self.eval_args(f, args))
        if not args:
            return default(self.ty, t)
        return self.take(args[0])

    def f_make_shared(self, n, args):
        t = self.T(n)
        if t[0] != "ptr":
            unsup("make_shared type")
        v = self.make_value(t[1], args)
        if t[1][0] != "struct":
            unsup("make_shared of %r" % (t[1],))
        return self.new_object(t[1][1], v)

    def f_make_unique(self, n, args):
        t = self.T(n)
        if t[0] == "uniqarr":
            return OpaqueV("uniqarr")
        return OptV(t[1], z3.BoolVal(True), self.make_value(t[1], args))

    def f_make_tuple(self, n, args):
        t = self.T(n)
        vs = [self.take(a) for a in args]
        vs = [CStr(v.s) if isinstance(v, CStr) else v for v in vs]
        return TupleObj(vs)

    f_make_pair = f_make_tuple
    f_tie = None

    def f_get(self, n, args):
        unsup("std::get")

    def minmax(self, n, args, lt):
        if not args:
            t = self.T(n)
            lo, hi = irange(t)
            return z3.IntVal(lo if lt else hi)
        if len(args) == 1:
            l = self.rv(self.ev(args[0]))
            vs = l.vs
        else:
            vs = [self.evr(a) for a in args[:2]]
        r = vs[0]
        for v in vs[1:]:
            r = z3.If((v < r) if lt else (v > r), v, r)
        return simp(r)

    def f_min(self, n, args):
        return self.minmax(n, args, True)

    def f_max(self, n, args):
        return self.minmax(n, args, False)

    def f_swap(self, n, args):
        a, b = self.ev(args[0]), self.ev(args[1])
        u, v = self.load(a), self.load(b)
        self.store(a, v)
        self.store(b, u)

    def f_sort(self, n, args):
        f, l = self.rv(self.ev(args[0])), self.rv(self.ev(args[1]))
        if isinstance(f, RawV):
            loc, lo, hi = f.loc, f.off, l.off
        else:
            loc, lo, hi = f.loc, f.pos, l.pos
        v = self.reify_seq(self.load(loc))
        if v.t[0] != "int":
            unsup("sort of %r" % (v.t,))
        self.lenfact(v)
        self.safety("sort range valid", z3.And(lo >= 0, lo <= hi, hi <= v.len))
        old = v.lift.arrs[""]
        if len(args) > 2:
            unsup("sort with comparator")
        new = self.sorted_range(old, lo, hi)
        self.store(loc, SeqV(v.t, v.len, LArr(self.ty, v.t, {"": new})))

    def sorted_range(self, old, lo, hi):
        new = self.fresh("sorted", old.sort())
        i, j = z3.Int(self.name_of("i")), z3.Int(self.name_of("j"))
        p = z3.Function(self.name_of("perm"), INT, INT)
        q = z3.Function(self.name_of("perminv"), INT, INT)
        inr = lambda x: z3.And(x >= lo, x < hi)
        self.assume(z3.ForAll([i], Implies(z3.Not(inr(i)), z3.Select(new, i) == z3.Select(old, i)), patterns=[z3.Select(new, i)]))
        self.assume(z3.ForAll([i, j], Implies(z3.And(inr(i), inr(j), i <= j), z3.Select(new, i) <= z3.Select(new, j)), patterns=[z3.MultiPattern(z3.Select(new, i), z3.Select(new, j))]))
        self.assume(z3.ForAll([i], Implies(inr(i), z3.And(inr(p(i)), q(p(i)) == i, z3.Select(new, i) == z3.Select(old, p(i)))), patterns=[z3.Select(new, i)]))
        self.assume(z3.ForAll([i], Implies(inr(i), z3.And(inr(q(i)), p(q(i)) == i, z3.Select(new, q(i)) == z3.Select(old, i))), patterns=[z3.Select(old, i)]))
        for h in self.eng.sort_hooks:
            h(self, old, new, lo, hi)
        return new

    def f_equal(self, n, args):
        vs = [self.rv(self.ev(a)) for a in args]
        m, g = self.seq_slice(vs[0], vs[1])
        if len(vs) == 4:
            m2, g2 = self.seq_slice(vs[2], vs[3])
            i = z3.Int(self.name_of("i"))
            return And(m == m2, z3.ForAll([i], Implies(z3.And(i >= 0, i < m), g(i) == g2(i))))
        w = self.load(vs[2].loc)
        self.safety("std::equal second range long enough", vs[2].pos + m <= w.len)
        off = vs[2].pos
        i = z3.Int(self.name_of("i"))
        return z3.ForAll([i], Implies(z3.And(i >= 0, i < m), g(i) == w.get(simp(off + i))))

    def f_bind(self, n, args):
        x = self.ev(args[0])
        if isinstance(x, FuncRef):
            f = self.callee_func(x.decl["id"])
            b = BoundFn(f.qname if f else x.decl["name"])
            b.this = self.fr.this
            return b
        unsup("std::bind")

    def f___assert_fail(self, n, args):
        self.fatal("assert")

    def f_abort(self, n, args):
        self.fatal("abort")

    def f_strstr(self, n, args):
        a, b = self.rv(self.ev(args[0])), self.rv(self.ev(args[1]))
        if isinstance(a, StatusStr) and isinstance(b, CStr):
            return BoolPtr(a.code == self.eng.status_code(b.s))
        return BoolPtr(self.fresh("strstr", BOOL))

    def f_to_string(self, n, args):
        return self.fresh("str", STR)

    f_MessageType_Name = f_EntryType_Name = f_ConfChangeType_Name = f_to_string

    def f_addressof(self, n, args):
        return RawV(self.ev(args[0]))

    # Status::OK / Status::Error
    def status_call(self, f, args):
        if f.name == "OK":
            return z3.IntVal(0)
        if f.name == "Error":
            v = self.rv(args[0])
            if isinstance(v, CStr):
                if v.s == "%s" and len(args) > 1 and isinstance(self.rv(args[1]), CStr):
                    v = self.rv(args[1])
                return z3.IntVal(self.eng.status_code(v.s))
            c = self.freshint("status")
            self.fact(c >= 1)
            return c
        unsup("Status::" + f.name)

    def call(self, f, this, args, node=None):
        if f.scope == "craft::Status":
            return self.status_call(f, args)
        return Interp.call(self, f, this, args, node)

    # ------------------------------------------------------------ operators
    def x_CXXOperatorCallExpr(self, n):
        callee = strip_expr(n["inner"][0])
        args = n["inner"][1:]
        d = callee["referencedDecl"]
        nm = d["name"]
        f = self.callee_func(d["id"])
        if f is not None and not f.decls[0][2].get("isImplicit") and f.node is not None and f.scope != "craft::Status" and not f.node.get("explicitlyDefaulted"):
            if d["kind"] == "CXXMethodDecl":
                this = self.ev(args[0])
                this = self.as_loc(this, self.T(args[0]))
                return self.call(f, this, self.eval_args(f, args[1:]))
            return self.call(f, None, self.eval_args(f, args))
        t = self.T(args[0])
        if nm == "operator->" or (nm == "operator*" and len(args) == 1):
            x = self.ev(args[0])
            if isinstance(x, Loc):
                try:
                    t = self.typeof(x)
                except Exception:
                    pass
            loc = self.smart_deref(x, t)
            if nm == "operator->":
                return RawV(loc) if isinstance(loc, Loc) else PtrTo(loc)
            return loc
        if nm == "operator[]":
            x = self.ev(args[0])
            i = self.rv(self.ev(args[1]))
            if t[0] == "map":
                if isinstance(i, CStr):
                    i = strconst(i.s)
                return self.map_index(x, t, i)
            if t[0] == "seq":
                return self.elem(self.as_loc(x, t), i)
            v = self.rv(x)
            if isinstance(v, RawV):
                return self.elem(v.loc, simp(v.off + i))
            unsup("operator[] on %r" % (t,))
        if nm == "operator=":
            v = self.take(args[1])
            loc = self.ev(args[0])
            lt = self.typeof(loc)
            if isinstance(v, RawV) and v.loc is None and lt[0] in ("ptr", "uniq", "fn"):
                v = default(self.ty, lt)
            elif isinstance(v, OpaqueV) and lt[0] == "opt":
                v = default(self.ty, lt)
            elif isinstance(v, CStr):
                v = strconst(v.s)
            elif isinstance(v, InitList):
                v = self.from_initlist(v, lt)
            elif isinstance(v, (LamV, BoundFn, FuncRef)):
                v = self.fncode(v)
            self.store(loc, v)
            return loc
        if nm in ("operator==", "operator!="):
            x, y = self.rv(self.ev(args[0])), self.rv(self.ev(args[1]))
            if isinstance(x, ItV) and isinstance(y, ItV) and ("enum" in (x.kind, y.kind)) and ("key" in (x.kind, y.kind)):
                e, o = (x, y) if x.kind == "enum" else (y, x)
                r = And(o.pos, e.pos == self.enum_facts(self.load(e.loc).mem))
            elif isinstance(x, OptV) and not isinstance(y, OptV):
                r = And(x.has, self.equal(x.val, y)) if not isinstance(y, OpaqueV) and not (isinstance(y, RawV) and y.loc is None) else Not(x.has)
            else:
                r = self.equal(x, y)
            return r if nm == "operator==" else Not(r)
        if nm in ("operator<", "operator>", "operator<=", "operator>="):
            x, y = self.rv(self.ev(args[0])), self.rv(self.ev(args[1]))
            if isinstance(x, ItV) and x.kind == y.kind:
                x, y = x.pos, y.pos
            return self.binop(nm[8:], x, y, None, None, None)
        if nm in ("operator++", "operator--"):
            loc = self.ev(args[0])
            old = self.load(loc)
            self.store(loc, self.it_add(old, z3.IntVal(1 if nm == "operator++" else -1)))
            return old if len(args) == 2 else loc
        if nm in ("operator+", "operator-"):
            x, y = self.rv(self.ev(args[0])), self.rv(self.ev(args[1]))
            if isinstance(x, ItV) and isinstance(y, ItV):
                return x.pos - y.pos if not x.rev else y.pos - x.pos
            if isinstance(x, ItV):
                return self.it_plus(x, y, 1 if nm == "operator+" else -1, self.T(args[1]))
            if self.T(n) == TSTR:
                return self.fresh("concat", STR)
            unsup(nm)
        if nm in ("operator+=", "operator-="):
            loc = self.ev(args[0])
            x, y = self.load(loc), self.rv(self.ev(args[1]))
            if isinstance(x, ItV):
                self.store(loc, self.it_plus(x, y, 1 if nm == "operator+=" else -1, self.T(args[1])))
                return loc
            if self.typeof(loc) == TSTR:
                self.store(loc, self.fresh("concat", STR))
                return loc
            unsup(nm)
        if nm == "operator<<" or nm == "operator>>":
            return OpaqueV("stream")
        if nm == "operator()":
            x = self.ev(args[0])
            av = [self.ev(a) for a in args[1:]]
            if isinstance(x, Loc):
                v = self.load(x)
            else:
                v = x
            return self.call_lambda(v, av)
        if nm == "operator!":
            return Not(self.nonnull(self.rv(self.ev(args[0]))))
        unsup(nm)

    def it_plus(self, it, d, sign, dt):
        if it.kind != "seq":
            unsup("iterator arithmetic")
        return ItV(it.loc, simp(it.pos + d if sign > 0 else it.pos - d), it.kind, it.key, it.rev)

    def smart_deref(self, x, t):
        v = self.rv(x)
        if isinstance(v, ItV):
            return self.it_deref(v)
        if isinstance(v, RawV):
            return self.deref(v)
        if isinstance(v, OptV):
            self.safety("dereference of empty %s" % ("unique_ptr" if t[0] == "uniq" else "optional"), v.has)
            if isinstance(x, Loc):
                return x.deref()
            return self.cell(v.val, v.t)
        if z3.is_expr(v) and t[0] == "ptr":
            self.rangefact(v, t)
            self.safety("null dereference", v != 0)
            return Loc(("h", t[1][1], v))
        unsup("dereference of %r (%r)" % (v, t))

    def deref(self, p):
        if isinstance(p, PtrTo):
            return p.v
        if isinstance(p, Loc):
            p = self.load(p)
            if isinstance(p, PtrTo):
                return p.v
        return Interp.deref(self, p)

    def x_CXXRewrittenBinaryOperator(self, n):
        return self.ev(n["inner"][0])


class PtrTo:
    """operator-> on an iterator yielding a non-location (map pair, set key)"""
    def __init__(self, v):
        self.v = v
