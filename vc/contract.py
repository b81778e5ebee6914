"""Contracts: written as Python generators over views of the real program state."""
from loops import *


class V:
    """read-only view of a program location/value in a given state"""
    __slots__ = ("_c", "_st", "_x", "_t")

    def __init__(self, c, st, x, t):
        object.__setattr__(self, "_c", c)
        object.__setattr__(self, "_st", st)
        object.__setattr__(self, "_x", x)
        object.__setattr__(self, "_t", t)

    def __getattr__(self, name):
        t, x, c = self._t, self._x, self._c
        if t[0] == "ptr":
            x, t = Loc(("h", t[1][1], self.val)), t[1]
        elif t[0] in ("uniq", "opt"):
            if name == "has":
                return self.val.has
            x = x.deref() if isinstance(x, Loc) else x.val
            t = t[1]
        if t[0] in ("struct", "tuple"):
            ft = c.ty.ftype(t[1], name)
            y = x.f(name) if isinstance(x, Loc) else x.f[name]
            return wrap(c, self._st, y, ft)
        raise AttributeError("%s of %r" % (name, t))

    @property
    def val(self):
        return self._c.load(self._x, self._st) if isinstance(self._x, Loc) else self._x

    @property
    def loc(self):
        return self._x

    def at(self, st):
        return V(self._c, st, self._x, self._t)

    @property
    def star(self):
        t, x = self._t, self._x
        if t[0] == "ptr":
            return V(self._c, self._st, Loc(("h", t[1][1], self.val)), t[1])
        return V(self._c, self._st, x.deref() if isinstance(x, Loc) else x.val, t[1])

    # sequences
    @property
    def len(self):
        v = self.val
        self._c.lenfact(v)
        return v.len

    def __getitem__(self, i):
        t = self._t
        if isinstance(i, int):
            i = z3.IntVal(i)
        if t[0] == "seq":
            y = self._x.idx(i) if isinstance(self._x, Loc) else self._x.get(i)
            return wrap(self._c, self._st, y, t[1], False)
        if t[0] == "map":
            y = self._x.key(i) if isinstance(self._x, Loc) else self._x.lift.get(i)
            return wrap(self._c, self._st, y, t[2], False)
        raise TypeError("index of %r" % (t,))

    # sets and maps
    def hask(self, k):
        return sel(self.val.mem, k)

    @property
    def mem(self):
        return self.val.mem

    @property
    def arr(self):
        v = self.val
        return (v if isinstance(v.lift, LArr) else self._c.reify_seq(v)).lift.arrs[""]

    @property
    def size(self):
        return self._c.card_facts(self.val.mem)


def wrap(c, st, x, t, facts=True):
    if t[0] in ("int", "bool", "enum", "str", "status", "fn"):
        v = c.load(x, st) if isinstance(x, Loc) else x
        if facts and z3.is_expr(v) and t[0] != "bool":
            c.rangefact(v, t, st)
        return v
    if t[0] == "ptr" and facts:
        v = c.load(x, st) if isinstance(x, Loc) else x
        c.rangefact(v, t, st)
    return V(c, st, x, t)


class FrameSpec:
    def __init__(self, pre_cells, mods, alloc):
        self.cells, self.mods, self.alloc = pre_cells, mods, alloc

    def check(self, ctx, loc):
        if loc.root[0] == "c":
            if loc.root[1] not in self.cells:
                return
            for m in self.mods:
                if isinstance(m, Loc) and m.root == loc.root and tuple(loc.path[:len(m.path)]) == tuple(m.path):
                    return
            t0 = self.cells[loc.root[1]]
            ctx.oblige("frame: write to %s%s" % (t0, "".join("." + str(e[1]) if len(e) > 1 and e[0] == "f" else "[]" for e in loc.path)), z3.BoolVal(False), ("frame",), "frame", assume_after=False)
            return
        q, ref = loc.root[1], loc.root[2]
        alts = []
        pre = sfx(loc.path)
        for m in self.mods:
            if isinstance(m, tuple) and m[0] == "above" and m[1] == q:
                alts.append(ref >= m[2])
            if isinstance(m, tuple) and m[0] == "heap" and m[1] == q and (len(m) < 3 or under(pre, m[2])):
                return
            if isinstance(m, Loc) and m.root[0] == "h" and m.root[1] == q and tuple(loc.path[:len(m.path)]) == tuple(m.path):
                alts.append(ref == m.root[2])
        ctx.oblige("frame: write to object %s%s" % (q, pre), Or(ref >= self.alloc, *alts), ("frame",), "frame")


class CCtx:
    """contract context handed to a specification"""

    def __init__(self, ctx, con, f, this, args, mode):
        self.ctx, self.con, self.f, self._this, self._args, self.mode = ctx, con, f, this, args, mode
        self.prop = ctx.eng.prop
        self.loop_templates, self.loop_hints = [], []
        self.nofatal = z3.BoolVal(True) if con.total else None
        self.pre = None
        self._result = None
        self.result_t = None
        self.ret_given = None
        self.depth0 = len(ctx.frames)

    # views
    def view(self, x, t, st=None):
        return wrap(self.ctx, st or self.cur, x, t)

    _snap = None

    @property
    def cur(self):
        """current state: a snapshot while the precondition is being stated, the final state afterwards"""
        if self.pre is None:
            if self._snap is None:
                self._snap = self.ctx.st.copy()
            return self._snap
        return self.ctx.st

    @property
    def this(self):
        return V(self.ctx, self.cur, self._this, ("struct", self.f.scope))

    @property
    def old(self):
        return V(self.ctx, self.pre, self._this, ("struct", self.f.scope))

    def arg(self, i, st=None):
        p = self.f.params[i]
        t = self.ctx.ty.parse(nstr(p))
        return wrap(self.ctx, st or self.cur, self._args[i], t)

    def oldarg(self, i):
        return self.arg(i, self.pre)

    def pointee(self, i, st=None):
        """what the raw pointer parameter i points to; None when it is null"""
        a = self._args[i]
        v = self.ctx.load(a, self.pre or self.cur) if isinstance(a, Loc) else a
        t = self.ctx.ty.parse(nstr(self.f.params[i]))
        return None if v.loc is None else V(self.ctx, st or self.cur, v.loc, t[1])

    @property
    def result(self):
        return wrap(self.ctx, self.ctx.st, self._result, self.result_t)

    def relevant(self, tags):
        return not tags or "*" in tags or self.prop is None or self.prop in tags

    def requires(self, name, f):
        if self.mode == "verify":
            self.ctx.assume(f)
        else:
            self.ctx.oblige("pre of %s: %s" % (self.f.qname.replace("craft::", ""), name), f, ("*",), "pre")

    def ensures(self, tags, name, f):
        if isinstance(tags, str):
            tags = tuple(tags.split())
        if not self.relevant(tags):
            return
        if self.mode == "verify":
            self.ctx.oblige("%s: %s" % (self.f.qname.replace("craft::", ""), name), f, tags, "post", assume_after=False)
        else:
            self.ctx.assume(f)

    def define(self, f):
        """definitional fact about ghost functions (both modes)"""
        self.ctx.assume(f)

    def fact(self, f):
        self.ctx.fact(f)

    def loops(self, t):
        if self.mode == "verify":
            self.loop_templates.append(t)

    def hints(self, h):
        if self.mode == "verify":
            self.loop_hints.append(h)


class Contract:
    def __init__(self, qname, fn, nparams=None, props=None, level=None, trusted=None, typ=None, optional=False, lemma=False, total=False, cases=None, ncases=0):
        # cases(c) -> formulas over the pre-state: the contract is proved once per formula and once for none of them
        self.cases, self.ncases, self.case = cases, ncases, None
        self.total = total  # never stops the process when its preconditions hold
        self.qname, self.fn, self.nparams, self.props, self.level, self.trusted, self.typ = qname, fn, nparams, props, level, trusted, typ
        self.optional, self.lemma = optional, lemma

    @property
    def key(self):
        return self.qname + ("/%d" % self.nparams if self.nparams is not None else "") + ("(%s)" % self.typ if self.typ else "") + ("@" + self.level if self.level else "")

    def matches(self, f):
        return f.qname == self.qname and (self.nparams is None or len(f.params) == self.nparams) and (self.typ is None or self.typ in f.type)

    # -------------------------------------------------- caller side
    def use(self, ctx, f, this, args):
        av = []
        for p, a in zip(f.params, args):
            t = ctx.ty.parse(nstr(p))
            b = ctx.bind_value(p, a)
            if t[0] == "seq" and isinstance(b, Loc):
                sv = ctx.load(b)
                if isinstance(sv, SeqV) and not isinstance(sv.lift, LArr):
                    ctx.store(b, ctx.reify_seq(sv), log=False)
            av.append(b)
        if this is not None and not isinstance(this, Loc):
            this = ctx.as_loc(this, ("struct", f.scope))
        ctx.eng.used.add(self.key)
        c = CCtx(ctx, self, f, this, av, "use")
        gen = self.fn(c)
        try:
            mods = next(gen) or []
        except StopIteration:
            unsup("contract of %s did not yield its frame" % self.qname)
        cc = ctx.cur_contract
        if cc is not None and cc.nofatal is not None and not self.trusted:
            # the caller promises not to stop the process: the callee's own promise must cover this call
            ctx.oblige("no abort in %s" % self.qname.replace("craft::", ""), Not(cc.nofatal) if c.nofatal is None else Implies(cc.nofatal, c.nofatal), ("nofatal",), "safety")
        c.pre = ctx.st.copy()
        havoc(ctx, mods, c.pre)
        rt = ret_type(f)
        t = ctx.ty.parse(rt)
        res = None
        if t[0] != "void":
            if Types.isref(rt) and c.ret_given is None and t[0] not in ("int", "bool", "enum", "ptr"):
                unsup("contract for reference-returning " + self.qname)
            c.result_t = t
            if c.ret_given is not None:
                res = c.ret_given
            else:
                res = ctx.freshval(t, "r~" + f.name)
                if z3.is_expr(res):
                    ctx.rangefact(res, t)
                elif isinstance(res, StructV):
                    for fn_, ft in ctx.ty.fields(res.q):
                        if ft[0] in ("int", "ptr", "status", "enum"):
                            ctx.rangefact(res.f[fn_], ft)
            c._result = res
        try:
            next(gen)
        except StopIteration:
            pass
        if isinstance(res, StructV) or isinstance(res, SeqV):
            res = ctx.cell(res, t)
        return res

    # -------------------------------------------------- callee side
    def verify(self, ctx, f):
        def path():
            this = None
            fr = Frame(f, None, f.tu)
            ctx.frames.append(fr)
            isctor = f.kind == "CXXConstructorDecl"
            if not f.static and not isctor:
                t = ("struct", f.scope)
                this = ctx.cell(ctx.freshval(t, "this"), t)
                for fn_, ft in ctx.ty.fields(f.scope):
                    if ft[0] == "raw" and ft[1][0] in ("map", "struct", "set", "seq"):
                        tv = ctx.load(this)
                        ctx.st.cells[this.root[1]] = tv.set(fn_, RawV(ctx.cell(ctx.freshval(ft[1], fn_), ft[1])))
            av = []
            for p in f.params:
                t = ctx.T(p)
                if t[0] in ("fn", "lambda"):
                    av.append(ctx.cell(ctx.freshint("fn"), ("fn",)))
                elif t[0] == "raw" and t[1][0] == "struct":
                    # pointer to one object: null or not
                    nn = ctx.choice(2)
                    av.append(ctx.cell(RawV(ctx.cell(ctx.freshval(t[1], p.get("name") or "p"), t[1])) if nn == 0 else RawV(None), t))
                elif t[0] == "raw":
                    av.append(ctx.cell(RawV(ctx.cell(ctx.freshval(("seq", t[1], None), p.get("name") or "p"), ("seq", t[1], None)), z3.IntVal(0)), t))
                else:
                    av.append(ctx.cell(ctx.freshval(t, p.get("name") or "p"), t))
            ctx.assume(ctx.st.alloc >= 1)
            for p, a in zip(f.params, av):
                t = ctx.T(p)
                v = ctx.load(a)
                if z3.is_expr(v):
                    ctx.rangefact(v, t)
                elif isinstance(v, SeqV):
                    ctx.lenfact(v)
            c = CCtx(ctx, self, f, this, av, "verify")
            ctx.cur_contract = c
            gen = self.fn(c)
            try:
                mods = next(gen) or []
            except StopIteration:
                unsup("contract of %s did not yield its frame" % self.qname)
            ml = norm_mods(mods)
            if self.case is not None:
                cs = list(self.cases(c))
                assert len(cs) == self.ncases
                ctx.assume(cs[self.case] if self.case < len(cs) else And(*[Not(x) for x in cs]))
            c.pre = ctx.st.copy()
            pre_cells = {}
            if this is not None:
                pre_cells[this.root[1]] = f.scope
            for p, a in zip(f.params, av):
                if Types.isref(p.get("type", {}).get("qualType", "")) or Types.isref(nstr(p)):
                    pre_cells[a.root[1]] = p.get("name")
                v = ctx.load(a)
                if isinstance(v, RawV) and v.loc is not None:
                    # what a pointer parameter points to belongs to the caller
                    pre_cells[v.loc.root[1]] = "*" + (p.get("name") or "")
            ctx.frame = FrameSpec(pre_cells, ml, ctx.st.alloc)
            ctx.frames.pop()
            if not ctx.replaying and not ctx.quiet and not ctx.dec:
                ctx.precond = [h.f for h in ctx.hyps]
            if isctor:
                r = ctx.run_ctor(f, f.scope, av)
                c._this = ctx.cell(r, ("struct", f.scope))
                r = None
            else:
                r = ctx.inline(f, this, av)
            ctx.frame = None
            ctx.frames.append(fr)
            rt = ret_type(f)
            t = ctx.ty.parse(rt)
            if isctor:
                t = ("void",)
            if t[0] != "void":
                c.result_t = t
                if r is None:
                    unsup("missing return value in " + f.qname)
                if not isinstance(r, Loc):
                    r = ctx.coerce(ctx.init_value(r, t) if isinstance(r, (CStr, InitList)) else r, t)
                c._result = r
            try:
                next(gen)
            except StopIteration:
                pass
            ctx.reached_end = True
        ctx.reached_end = False
        ctx.run_all(path)


def ret_type(f):
    return f.type.split("(")[0].strip() if not f.type.startswith("auto") else f.type.split("->")[-1].strip()


def same(c, a, b):
    """equality of two program values (views), leaf by leaf"""
    t = a._t
    x, y = dict(unbuild(c.ctx.ty, a.val, t)), dict(unbuild(c.ctx.ty, b.val, t))
    return And(*[x[k] == y[k] for k in x])


def norm_mods(mods):
    out = []
    for m in mods:
        if isinstance(m, V):
            out.append(m._x)
        else:
            out.append(m)
    return out


def havoc(ctx, mods, pre):
    ml = norm_mods(mods)
    newalloc = False
    for m in ml:
        if isinstance(m, Loc):
            if ctx.frame is not None and not ctx.quiet:
                ctx.frame.check(ctx, m)
            t = ctx.typeof(m)
            sv, ctx.frame = ctx.frame, None
            ctx.store(m, ctx.freshval(t, "hv"))
            ctx.frame = sv
            v = ctx.load(m)
            if z3.is_expr(v):
                ctx.rangefact(v, t)
        elif m[0] == "heap":
            q = m[1]
            pre_s = m[2] if len(m) > 2 else ""
            if ctx.frame is not None and not ctx.quiet:
                if not any(isinstance(x, tuple) and x[0] == "heap" and x[1] == q and (len(x) < 3 or under(pre_s, x[2])) for x in ctx.frame.mods):
                    ctx.oblige("frame: callee may write any %s" % q, z3.BoolVal(False), ("frame",), "frame", assume_after=False)
            for s, so, lt in ctx.ty.leaves(("struct", q)):
                if under(s, pre_s):
                    ctx.hget(pre, q, s)
                    ctx.st.heap[(q, s)] = ctx.fresh("hv~" + s, z3.ArraySort(INT, so))
            ctx.wlog.append((("hl", q), pre_s))
            if not pre_s:
                newalloc = True
        elif m[0] in ("fresh", "above"):
            # only objects allocated later (or at lb and above) change
            q = m[1]
            lb = pre.alloc if m[0] == "fresh" else m[2]
            if m[0] == "above" and ctx.frame is not None and not ctx.quiet:
                ctx.oblige("frame: callee writes objects %s" % q, Or(lb >= ctx.frame.alloc, *[lb >= x[2] for x in ctx.frame.mods if isinstance(x, tuple) and x[0] == "above" and x[1] == q]), ("frame",), "frame", assume_after=False)
            r = z3.Int("r!h")
            for s, so, lt in ctx.ty.leaves(("struct", q)):
                a = ctx.hget(pre, q, s)
                b = ctx.fresh("fr~" + s, z3.ArraySort(INT, so))
                ctx.st.heap[(q, s)] = b
                ctx.assume(z3.ForAll([r], Implies(r < lb, z3.Select(b, r) == z3.Select(a, r)), patterns=[z3.Select(b, r), z3.Select(a, r)]))
            ctx.wlog.append((("hl", q), ""))
            newalloc = True
        else:
            unsup("modifies item %r" % (m,))
    if newalloc:
        a = ctx.freshint("alloc")
        ctx.assume(a >= pre.alloc)
        ctx.st.alloc = a


class Lemma:
    """proof-only obligations about ghost functions: fn(add) with add(name, hyps, goal)"""

    def __init__(self, name, fn, props):
        self.qname, self.fn, self.props = name, fn, props
        self.key, self.trusted, self.lemma, self.optional, self.nparams = "lemma:" + name, None, True, False, None
        self.ncases, self.case = 0, None


class Engine:
    def __init__(self, prog, contracts, prop=None, abstract=None, trace=False):
        self.prog, self.prop, self.trace = prog, prop, trace
        EXTRA_STRUCTS.clear()
        for k, v in (abstract or {}).items():
            EXTRA_STRUCTS[k] = v
        self.ty = Types(prog)
        self.contracts = {}
        for c in contracts:
            if c.lemma:
                continue
            self.contracts.setdefault(c.qname, []).append(c)
        self.builtins, self.sort_hooks = {}, []
        self.fncodes, self.statuscodes = {}, {}
        self.used = set()
        self.nomerge = False
        self.inlines = set()

    def contract_of(self, f, ctx):
        for c in self.contracts.get(f.qname, ()):
            if c.matches(f) and f.qname not in self.inlines:
                return c
        return None

    def fn_code(self, name):
        if name not in self.fncodes:
            self.fncodes[name] = len(self.fncodes) + 1
        return self.fncodes[name]

    def status_code(self, s):
        if s not in self.statuscodes:
            self.statuscodes[s] = 1 + len(self.statuscodes)
        return self.statuscodes[s]


class Ctx(Loops):
    pass
