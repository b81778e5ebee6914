"""Symbolic state, path exploration, obligations."""
import time
import z3
from values import *

z3.set_param("model.compact", False)

QF_TIMEOUT = 400


class PathEnd(Exception):
    pass


class State:
    __slots__ = ("cells", "heap", "alloc")

    def __init__(self):
        self.cells, self.heap, self.alloc = {}, {}, z3.Int("alloc0")

    def copy(self):
        s = State()
        s.cells, s.heap, s.alloc = dict(self.cells), dict(self.heap), self.alloc
        return s


class Hyp:
    __slots__ = ("f", "kind", "q")

    def __init__(self, f, kind):
        self.f, self.kind = f, kind
        self.q = has_quant(f)


class Obl:
    def __init__(self, name, tags, hyps, goal, kind, where):
        self.name, self.tags, self.hyps, self.goal, self.kind, self.where = name, tags, hyps, goal, kind, where


class Out:
    __slots__ = ("val", "hyps", "st", "facts", "lh")


_hq = {}


def has_quant(f):
    k = f.get_id()
    r = _hq.get(k)
    if r is not None and r[0].eq(f):
        return r[1]
    res = False
    seen, stack = set(), [f]
    while stack:
        x = stack.pop()
        if x.get_id() in seen:
            continue
        seen.add(x.get_id())
        if z3.is_quantifier(x):
            if not x.is_lambda():
                res = True
                break
            stack.append(x.body())
            continue
        stack.extend(x.children())
    _hq[k] = (f, res)
    return res


_FA = z3.ForAll


def _has_ite(t):
    st = [t]
    while st:
        x = st.pop()
        if z3.is_app(x):
            if x.decl().kind() in (z3.Z3_OP_ITE, z3.Z3_OP_AND, z3.Z3_OP_OR, z3.Z3_OP_NOT, z3.Z3_OP_EQ):
                return True
            st.extend(x.children())
    return False


def safe_forall(vs, body, weight=1, qid="", skid="", patterns=[], no_patterns=[]):
    """ForAll that leaves the choice of patterns to the solver where the given ones are not allowed as patterns"""
    ps = [p for p in patterns if not (z3.is_expr(p) and _has_ite(p))]
    try:
        if len(ps) == len(patterns):
            return _FA(vs, body, weight, qid, skid, ps, no_patterns)
        return _FA(vs, body, weight, qid, skid, ps, no_patterns) if ps else _FA(vs, body)
    except z3.Z3Exception:
        return _FA(vs, body)


z3.ForAll = safe_forall


def simp(f):
    return z3.simplify(f)


def And(*xs):
    xs = [x for x in xs if not z3.is_true(x)]
    return z3.BoolVal(True) if not xs else (xs[0] if len(xs) == 1 else z3.And(*xs))


def Or(*xs):
    xs = [x for x in xs if not z3.is_false(x)]
    return z3.BoolVal(False) if not xs else (xs[0] if len(xs) == 1 else z3.Or(*xs))


def Not(x):
    if z3.is_true(x):
        return z3.BoolVal(False)
    if z3.is_false(x):
        return z3.BoolVal(True)
    if z3.is_not(x):
        return x.arg(0)
    return z3.Not(x)


Implies = z3.Implies


class CoreCtx:
    """one function verification; explores paths by replaying decision prefixes"""

    def __init__(self, eng, name):
        self.eng, self.name = eng, name
        self.ty = eng.ty
        self.obls = []
        self.expl_cache = {}
        self.houdini_cache = {}
        self.loopmem = {}
        self.merge_ok = {}
        self.stats = {"paths": 0, "feas": 0, "feas_t": 0.0, "houdini": 0, "houdini_ok": 0, "houdini_t": 0.0}
        self.ctype = {}
        self.quiet = 0
        self.deadline = None
        self.lammemo = {}

    # ---------------- path machinery
    def start_path(self, prefix, work):
        self.prefix, self.pos, self.dec, self.work = prefix, 0, [], work
        self.hyps, self.facts, self.kb, self.nexp = [], {}, (), 0
        self.counter = 0
        self.solver, self.sol_n = None, 0
        self.st = State()
        self.wlog = []
        self.frames = []
        self.frame = None
        self.cur_contract = None
        self.stats["paths"] += 1

    def run_all(self, fn, maxpaths=6000):
        work = [[]]
        n = 0
        while work:
            n += 1
            if n > maxpaths:
                unsup("path limit exceeded in " + self.name)
            if self.deadline and time.time() > self.deadline:
                unsup("time limit exceeded exploring " + self.name)
            self.start_path(work.pop(), work)
            try:
                fn()
            except PathEnd:
                pass

    @property
    def replaying(self):
        return self.pos < len(self.prefix)

    def name_of(self, base):
        self.counter += 1
        return "%s!%d" % (base, self.counter)

    def fresh(self, base, sort):
        return z3.Const(self.name_of(base), sort)

    def freshint(self, base="v"):
        return z3.Int(self.name_of(base))

    def assume(self, f, kind="fact"):
        if z3.is_true(f):
            return
        if z3.is_and(f) and kind == "fact":
            for c in f.children():
                self.assume(c, kind)
            return
        self.hyps.append(Hyp(f, kind))

    def fact(self, f):
        k = f.get_id()
        if k in self.facts:
            return
        self.facts[k] = f
        self.assume(f)

    def sync(self):
        if self.solver is None:
            self.solver, self.sol_n = z3.Solver(), 0
            self.solver.set("timeout", 20000)
            self.solver.set("rlimit", 1_500_000)
        for h in self.hyps[self.sol_n:]:
            if not h.q:
                self.solver.add(h.f)
        self.sol_n = len(self.hyps)

    def feasible(self, c):
        t = time.time()
        self.sync()
        self.stats["feas"] += 1
        r = self.solver.check(c)
        self.stats["feas_t"] += time.time() - t
        return r != z3.unsat

    def record(self, compute, kind=bool):
        if self.pos < len(self.prefix):
            d = self.prefix[self.pos]
            if type(d) is not kind:
                unsup("internal: replay diverged in " + self.name)
        else:
            d = compute()
        self.dec.append(d)
        self.pos += 1
        return d

    def decide(self, c, why=None):
        c = simp(c)
        if z3.is_true(c):
            return True
        if z3.is_false(c):
            return False

        def comp():
            t, f = self.feasible(c), self.feasible(Not(c))
            if t and f:
                self.work.append(self.dec + [False])
                return True
            if t:
                return True
            if f:
                return False
            raise PathEnd()
        d = self.record(comp)
        self.assume(c if d else Not(c), "dec")
        return d

    def choice(self, n):
        if n == 0:
            raise PathEnd()
        if n == 1:
            return 0

        def comp():
            for i in range(n - 1, 0, -1):
                self.work.append(self.dec + [i])
            return 0
        return self.record(comp, int)

    def proved_qf(self, c):
        """True when the quantifier-free hypotheses imply c (recorded for replay)"""
        c = simp(c)
        if z3.is_true(c):
            return True
        if z3.is_false(c):
            return False
        return self.record(lambda: not self.feasible(Not(c)))

    def explore(self, fn):
        key = (self.kb, tuple(self.dec), self.nexp)
        self.nexp += 1
        hit = self.expl_cache.get(key)
        if hit is not None:
            outs, self.counter = hit
            return outs
        saved = (self.prefix, self.pos, self.dec, self.work, self.kb, self.nexp, self.st, self.facts, self.solver, self.sol_n, self.wlog, self.frames)
        nh = len(self.hyps)
        rep_outer = self.replaying
        if rep_outer:
            self.quiet += 1
        outs, work = [], [[]]
        self.sync()
        base_counter = maxc = self.counter
        shared = self.solver
        try:
            while work:
                if self.deadline and time.time() > self.deadline:
                    unsup("time limit exceeded exploring " + self.name)
                self.prefix, self.pos, self.dec, self.work = work.pop(), 0, [], work
                self.kb, self.nexp = key, 0
                self.counter = base_counter
                self.st, self.facts = saved[6].copy(), dict(saved[7])
                self.wlog = list(saved[10])
                self.frames = list(saved[11])
                self.solver, self.sol_n = shared, nh
                shared.push()
                try:
                    v = fn()
                    o = Out()
                    o.val, o.hyps, o.st, o.facts, o.lh = v, self.hyps[nh:], self.st, self.facts, self.wlog[len(saved[10]):]
                    outs.append(o)
                except PathEnd:
                    pass
                finally:
                    maxc = max(maxc, self.counter)
                    shared.pop()
                    del self.hyps[nh:]
        finally:
            (self.prefix, self.pos, self.dec, self.work, self.kb, self.nexp, self.st, self.facts, self.solver, self.sol_n, self.wlog, self.frames) = saved
            if rep_outer:
                self.quiet -= 1
        self.counter = maxc
        self.expl_cache[key] = (outs, self.counter)
        return outs

    def adopt(self, o):
        self.hyps.extend(o.hyps)
        self.st = o.st.copy()
        self.facts = dict(o.facts)
        self.wlog = self.wlog + o.lh
        return o.val

    def merged(self, fn):
        """evaluate fn over all its paths; join into one value when the state is unchanged"""
        outs = self.explore(fn)
        if not outs:
            raise PathEnd()
        if len(outs) == 1:
            return self.adopt(outs[0])
        base = self.st
        known = self.merge_ok.get(id(outs))
        ok = known[0] if known else all(z3.is_expr(o.val) or o.val is None or isinstance(o.val, bool) for o in outs)
        if ok and not known:
            for o in outs:
                if not o.st.alloc.eq(base.alloc) or any(k not in base.heap or not base.heap[k].eq(a) for k, a in o.st.heap.items()):
                    ok = False
                    break
                if any(o.st.cells.get(k) is not v for k, v in base.cells.items()):
                    ok = False
                    break
        if not known:
            # decided once: a replayed path must take the same way
            self.merge_ok[id(outs)] = (ok, outs)
        if ok and all(z3.is_expr(o.val) for o in outs):
            res = None
            for o in reversed(outs):
                d = And(*[h.f for h in o.hyps if h.kind == "dec"])
                for h in o.hyps:
                    if h.kind != "dec":
                        self.assume(Implies(d, h.f) if not z3.is_true(d) else h.f)
                res = o.val if res is None else ite(d, o.val, res)
            self.assume(simp(Or(*[And(*[h.f for h in o.hyps if h.kind == "dec"]) for o in outs])))
            return simp(res) if res.sort() == BOOL else res
        i = self.choice(len(outs))
        return self.adopt(outs[i])

    # ---------------- obligations
    def oblige(self, name, goal, tags=(), kind="safety", assume_after=True, where=None):
        g = simp(goal) if not has_quant(goal) else goal
        if not z3.is_true(g):
            if not self.quiet and not self.replaying:
                self.obls.append(Obl(name, tuple(tags), [h.f for h in self.hyps], goal, kind, where or self.where()))
        elif not self.quiet and not self.replaying:
            self.obls.append(Obl(name, tuple(tags), [], z3.BoolVal(True), kind, where or self.where()))
        if z3.is_false(g):
            if assume_after:
                raise PathEnd()
            return
        if assume_after:
            self.assume(goal)

    def where(self):
        return ""

    # ---------------- heap
    def hget(self, st, q, s):
        k = (q, s)
        a = st.heap.get(k)
        if a is None:
            so = None
            for suf, srt, lt in self.ty.leaves(("struct", q) if not isinstance(q, tuple) else q):
                if suf == s:
                    so = srt
            if so is None:
                unsup("no leaf %s in %s" % (s, q))
            nm = "H0~%s~%s" % (q if isinstance(q, str) else "_", s)
            a = st.heap[k] = z3.Const(nm, z3.ArraySort(INT, so))
        return a

    def cell(self, v, t):
        self.counter += 1
        i = self.counter
        self.st.cells[i] = v
        self.ctype[i] = t
        return Loc(("c", i))

    def typeof(self, loc):
        if loc.root[0] == "c":
            t = self.ctype[loc.root[1]]
        else:
            t = ("struct", loc.root[1])
        return self.path_type(t, loc.path)

    def path_type(self, t, path):
        for e in path:
            if e[0] == "f":
                if t[0] not in ("struct", "tuple"):
                    unsup("field %s of %r" % (e[1], t))
                t = self.ty.ftype(t[1], e[1])
            elif e[0] == "i":
                t = t[1]
            elif e[0] == "k":
                t = t[2]
            elif e[0] == "*":
                t = t[1]
        return t

    def load(self, loc, st=None):
        st = st or self.st
        if loc.root[0] == "c":
            v = st.cells[loc.root[1]]
            return self.nav(v, loc.path)
        q, ref = loc.root[1], loc.root[2]
        pre, t, i = "", ("struct", q), 0
        while i < len(loc.path) and loc.path[i][0] == "f" and t[0] in ("struct", "tuple"):
            pre += "." + loc.path[i][1]
            t = self.ty.ftype(t[1], loc.path[i][1])
            i += 1
        if t[0] in ("struct", "tuple") and st is self.st:
            # fields are read lazily: pin the heap of this moment
            st0, st = st, State()
            st.heap = dict(st0.heap)
        v = build(self.ty, t, lambda s: sel(self.hget(st, q, s), ref), pre)
        return self.nav(v, loc.path[i:])

    def nav(self, v, path):
        for e in path:
            if e[0] == "f":
                if isinstance(v, PairRef):
                    v = v.first if e[1] in ("f0", "first") else v.second
                    if isinstance(v, Loc):
                        v = self.load(v)
                    continue
                if isinstance(v, TupleObj):
                    v = v.vs[int(e[1][1:])]
                    if isinstance(v, Loc):
                        v = self.load(v)
                    continue
                if not isinstance(v, StructV):
                    unsup("nav field %s of %r" % (e[1], v))
                v = v.f[e[1]]
            elif e[0] == "i":
                v = v.get(e[1])
            elif e[0] == "k":
                v = v.lift.get(e[1])
            elif e[0] == "*":
                v = v.val
        return v

    def upd(self, cur, path, v, t):
        if not path:
            return self.coerce(v, t)
        e = path[0]
        if e[0] == "f":
            ft = self.ty.ftype(t[1], e[1])
            return cur.set(e[1], self.upd(cur.f[e[1]], path[1:], v, ft))
        if e[0] == "i":
            cur = self.reify_seq(cur)
            old = cur.get(e[1]) if len(path) > 1 else None
            nv = self.reify(self.upd(old, path[1:], v, t[1]), t[1])
            return SeqV(cur.t, cur.len, cur.lift.store(e[1], nv))
        if e[0] == "k":
            old = cur.lift.get(e[1]) if len(path) > 1 else None
            nv = self.reify(self.upd(old, path[1:], v, t[2]), t[2])
            return MapV(cur.kt, cur.vt, cur.mem, cur.lift.store(e[1], nv))
        if e[0] == "*":
            return OptV(cur.t, cur.has, self.upd(cur.val, path[1:], v, t[1]))
        unsup("upd path")

    def coerce(self, v, t):
        """adapt a value to the declared storage type"""
        if t[0] == "tuple" and isinstance(v, TupleObj):
            return StructV(t[1], {"f%d" % i: self.coerce(self.rv(x), ft) for i, (x, ft) in enumerate(zip(v.vs, t[1]))})
        if t[0] == "tuple" and isinstance(v, PairRef):
            return StructV(t[1], {"f0": self.rv(v.first), "f1": self.rv(v.second)})
        if t[0] == "opt" and not isinstance(v, OptV):
            return OptV(t[1], z3.BoolVal(True), self.coerce(v, t[1]))
        if t[0] == "fn" and not z3.is_expr(v):
            return self.fncode(v)
        if t[0] == "struct" and isinstance(v, StructV) and v.q != t[1] and isinstance(t[1], str) and isinstance(v.q, str):
            names = [f for f, _ in self.ty.fields(t[1])]
            return StructV(t[1], FDict(lambda f: v.f[f]))
        return v

    def store(self, loc, v, st=None, log=True):
        st = st or self.st
        if log:
            self.wlog.append((loc.root, loc.path))
            if self.frame is not None and not self.quiet:
                self.frame.check(self, loc)
        if loc.root[0] == "c":
            i = loc.root[1]
            st.cells[i] = self.upd(st.cells.get(i), loc.path, v, self.ctype[i])
        else:
            q, ref = loc.root[1], loc.root[2]
            pre, t, i = "", ("struct", q), 0
            while i < len(loc.path) and loc.path[i][0] == "f" and t[0] in ("struct", "tuple"):
                pre += "." + loc.path[i][1]
                t = self.ty.ftype(t[1], loc.path[i][1])
                i += 1
            rest = loc.path[i:]
            if rest:
                cur = build(self.ty, t, lambda s: sel(self.hget(st, q, s), ref), pre)
                v = self.upd(cur, rest, v, t)
            v = self.reify(self.coerce(v, t), t)
            for s, term in unbuild(self.ty, v, t, pre):
                st.heap[(q, s)] = z3.Store(self.hget(st, q, s), ref, term)
        # ghost: any write to a field of an Entry changes its serialized size
        if log and loc.path and loc.path[-1][0] == "f" and loc.path[-1][1] != "$bs":
            par = Loc(loc.root, loc.path[:-1])
            if self.typeof(par) == ("struct", "raftpb::Entry"):
                self.store(par.f("$bs"), self.freshint("bs"), st)

    def reify_seq(self, v):
        if isinstance(v.lift, LArr):
            return v
        t = v.t
        i = z3.Int(self.name_of("i"))
        el = self.reify(v.lift.get(i), t)
        arrs = {}
        for s, term in unbuild(self.ty, el, t):
            so = [x[1] for x in self.ty.leaves(t) if x[0] == s][0]
            a = self.fresh("seq" + s, z3.ArraySort(INT, so))
            arrs[s] = a
            pats = [z3.Select(a, i)]
            for sub in same_index_selects(term, i):
                pats.append(sub)
            self.assume(z3.ForAll([i], z3.Select(a, i) == term, patterns=pats))
        return SeqV(t, v.len, LArr(self.ty, t, arrs))

    def reify(self, v, t):
        """replace lazily defined sequences inside v by array-backed ones"""
        k = t[0]
        if k == "seq" and isinstance(v, SeqV):
            return self.reify_seq(v)
        if k in ("struct", "tuple") and isinstance(v, (TupleObj, PairRef)):
            v = self.coerce(v, t)
        if k in ("struct", "tuple") and isinstance(v, StructV):
            need = [(f, ft) for f, ft in self.ty.fields(t[1]) if ft[0] in ("seq", "struct", "tuple", "opt", "uniq")]
            for f, ft in need:
                if isinstance(v.f, FDict) and f not in v.f and v.f.fn is not None and ft[0] == "struct" and not self.hasseq(ft):
                    continue
                o = v.f[f]
                n = self.reify(o, ft)
                if n is not o:
                    v = v.set(f, n)
            return v
        if k in ("opt", "uniq") and isinstance(v, OptV):
            n = self.reify(v.val, t[1])
            return v if n is v.val else OptV(v.t, v.has, n)
        return v

    def hasseq(self, t):
        return any("[]" in s for s, _, _ in self.ty.leaves(t))

    def freshval(self, t, base):
        # one number per value: lazily created leaves get the same names when a path is replayed
        self.counter += 1
        n = self.counter
        return build(self.ty, t, lambda s: z3.Const("%s%s!%d" % (base, s, n), self.leafsort(t, s)))

    def leafsort(self, t, s):
        for a, so, lt in self.ty.leaves(t):
            if a == s:
                return so
        unsup("leaf %s of %r" % (s, t))

    # ---------------- typing facts
    def rangefact(self, v, t, st=None):
        if not z3.is_expr(v) or z3.is_int_value(v):
            return
        if t[0] == "int":
            lo, hi = irange(t)
            self.fact(z3.And(v >= lo, v <= hi))
        elif t[0] == "enum":
            self.fact(z3.And(v >= 0, v <= t[2]))
        elif t[0] == "ptr":
            self.fact(z3.And(v >= 0, v < (st or self.st).alloc))
        elif t[0] == "status":
            self.fact(v >= 0)
        elif t[0] == "str":
            self.fact(z3.And(STRLEN(v) >= 0, STRLEN(v) < 2 ** 31, (STRLEN(v) == 0) == (v == strconst(""))))

    def lenfact(self, v):
        if isinstance(v, SeqV) and not z3.is_int_value(v.len):
            self.fact(z3.And(v.len >= 0, v.len < 2 ** 32))


def irange(t):
    if t[2]:
        return -(2 ** (t[1] - 1)), 2 ** (t[1] - 1) - 1
    return 0, 2 ** t[1] - 1


def same_index_selects(term, i):
    out, seen, stack = [], set(), [term]
    while stack:
        x = stack.pop()
        if x.get_id() in seen:
            continue
        seen.add(x.get_id())
        if z3.is_quantifier(x):
            continue
        if z3.is_select(x) and x.num_args() == 2 and x.arg(1).eq(i) and not uses(x.arg(0), i):
            out.append(x)
        stack.extend(x.children())
    return out[:3]


def uses(t, i):
    seen, stack = set(), [t]
    while stack:
        x = stack.pop()
        if x.get_id() in seen:
            continue
        seen.add(x.get_id())
        if x.eq(i):
            return True
        stack.extend(x.children())
    return False
