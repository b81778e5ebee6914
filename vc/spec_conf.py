"""C08 and the configuration part of C09: configuration changes over sets of members and the progress map."""
from contract import *
import spec_quorum as Q
import spec_tracker as T

CONTRACTS = []
ABSTRACT = {}
PR = "craft::Progress"
C08 = ["C08"]


def contract(q, **kw):
    def deco(fn):
        CONTRACTS.append(Contract(q, fn, **dict(dict(total=True), **kw)))
        return fn
    return deco


def lrn(c, st):
    return c.ctx.hget(st, PR, ".is_learner_")


class CF:
    """a configuration and its progress map in one state"""

    def __init__(self, c, cfg, prs, st=None):
        self.c, self.cfg, self.prs = c, cfg, prs
        self.st = st or cfg._st
        self.I, self.O = Q.half(c, cfg.voters, 0), Q.half(c, cfg.voters, 1)
        self.L, self.LN, self.auto = cfg.learners.mem, cfg.learners_next.mem, cfg.auto_leave
        self.P, self.ref = prs.mem, prs.val.lift.arrs[""]
        self.lrn = lrn(c, self.st)

    def islrn(self, x):
        return z3.Select(self.lrn, z3.Select(self.ref, x))

    def joint(self):
        return self.c.ctx.card_facts(self.O) > 0

    def pm_ok(self, lb=None):
        return pm_ok(self.c, self.P, self.ref, self.st, lb)

    def inv(self):
        """what CheckInvariants checks"""
        x = z3.Int("x!ci")
        I, O, L, LN, P = [z3.Select(s, x) for s in (self.I, self.O, self.L, self.LN, self.P)]
        return z3.And(z3.ForAll([x], z3.And(Implies(Or(I, O, L, LN), P),
                                            Implies(LN, z3.And(O, Not(self.islrn(x)))),
                                            Implies(L, z3.And(Not(O), Not(I), self.islrn(x)))), patterns=[I, O, L, LN]),
                      Implies(Not(self.joint()), z3.And(self.empty(self.LN), Not(self.auto))))

    def empty(self, s):
        return self.c.ctx.card_facts(s) == 0

    def exact(self):
        """exactly the members are tracked, with the right role"""
        x = z3.Int("x!ce")
        I, O, L, LN, P = [z3.Select(s, x) for s in (self.I, self.O, self.L, self.LN, self.P)]
        return z3.ForAll([x], z3.And(P == Or(I, O, L, LN), Implies(LN, z3.And(O, Not(I))), Implies(L, z3.And(Not(O), Not(I))), Implies(P, self.islrn(x) == L)), patterns=[P, I, O, L, LN])

    def same_cfg(self, o):
        return z3.And(self.I == o.I, self.O == o.O, self.L == o.L, self.LN == o.LN, self.auto == o.auto)


def pm_ok(c, P, ref, st, lb=None):
    x, y = z3.Ints("x!pm y!pm")
    r = z3.Select(ref, x)
    hi = c.ctx.hget(st, PR, ".inflights_!")
    return z3.And(z3.ForAll([x], Implies(z3.Select(P, x), z3.And(r >= (1 if lb is None else lb), r > 0, r < st.alloc, z3.Select(hi, r))), patterns=[r]),
                  z3.ForAll([x, y], Implies(z3.And(z3.Select(P, x), z3.Select(P, y), r == z3.Select(ref, y)), x == y), patterns=[z3.MultiPattern(r, z3.Select(ref, y))]))


KEPT = (".match_", ".next_", ".state_", ".pending_snapshot_", ".recent_active_", ".probe_sent_", ".is_learner_", ".inflights_*.count_", ".inflights_*.size_", ".inflights_*.start_", ".inflights_*.buffer_#")
SAME = tuple(f for f in KEPT if f != ".is_learner_")


def starts(c, n, x, chg):
    """the progress of x in n is that of a member just added by the changer"""
    h = lambda f: z3.Select(c.ctx.hget(n.st, PR, f), z3.Select(n.ref, x))
    return z3.And(h(".match_") == 0, h(".next_") == chg.last_index_, h(".pending_snapshot_") == 0, Not(h(".probe_sent_")), h(".state_") == T.st(c, T.PROBE), h(".recent_active_"),
                  h(".inflights_*.start_") == 0, h(".inflights_*.count_") == 0, h(".inflights_*.buffer_#") == 0, h(".inflights_*.size_") == chg.tracker_.max_inflight_)


def prog(c, a, n, chg):
    """every progress tracked in n is the one tracked in a, or that of a new member"""
    x = z3.Int("x!pg")
    same = [z3.Select(c.ctx.hget(n.st, PR, f), z3.Select(n.ref, x)) == z3.Select(c.ctx.hget(a.st, PR, f), z3.Select(a.ref, x)) for f in SAME]
    return z3.ForAll([x], Implies(z3.Select(n.P, x), Or(z3.And(z3.Select(a.P, x), *same), starts(c, n, x, chg))), patterns=[z3.Select(n.ref, x)])


def others_same(c, a, b, r0=None):
    """objects existing before keep their fields (r0: except the learner flag of r0)"""
    r = z3.Int("r!os")
    x, y = lrn(c, a), lrn(c, b)
    g = r < a.alloc if r0 is None else z3.And(r < a.alloc, r != r0)
    return z3.ForAll([r], Implies(g, z3.Select(x, r) == z3.Select(y, r)), patterns=[z3.Select(y, r)])


# ---------------------------------------------------------------- set helpers
@contract("craft::MajorityConfig::IDs", nparams=1, props=C08)
def major_ids(c):
    cfg = c.this.config_.mem
    x = z3.Int("x!mi")

    def tmpl(L):
        for nm, a, b in mod_sets(L):
            yield nm + " grows by the enumerated part", z3.ForAll([x], z3.Select(b, x) == Or(z3.Select(a, x), z3.And(z3.Select(cfg, x), posn(cfg, x) < L.k)), patterns=[z3.Select(b, x), z3.Select(cfg, x)])
    c.loops(tmpl)
    yield [c.arg(0)]
    o, n = c.oldarg(0).mem, c.arg(0).mem
    c.ensures("*", "union", z3.ForAll([x], z3.Select(n, x) == Or(z3.Select(o, x), z3.Select(cfg, x)), patterns=[z3.Select(n, x), z3.Select(cfg, x)]))


@contract("craft::JointConfig::IDs", props=C08)
def joint_ids(c):
    c0, c1 = Q.half(c, c.this, 0), Q.half(c, c.this, 1)
    x = z3.Int("x!ji")
    yield []
    n = c.result.mem
    c.ensures("*", "voters of both halves", z3.ForAll([x], z3.Select(n, x) == Or(z3.Select(c0, x), z3.Select(c1, x)), patterns=[z3.Select(n, x), z3.Select(c0, x), z3.Select(c1, x)]))


def scan(L):
    """(name, type, location) of the variables of the loop's function"""
    seen = set()
    for nm, x in L.frame.names.items():
        if isinstance(x, Loc) and x.root[0] == "c" and repr(x) not in seen:
            seen.add(repr(x))
            try:
                yield nm, L.ctx.typeof(x), x
            except (KeyError, Unsupported):
                continue


def mod_sets(L):
    for nm, t, x in scan(L):
        if t[0] == "set":
            try:
                yield nm, L.ctx.load(x, L.pre).mem, L.ctx.load(x, L.cur).mem
            except (KeyError, Unsupported):
                continue


def cfg_prs(L, c):
    """configurations and progress maps in scope: (CF at loop entry, CF now)"""
    cs = [x for nm, t, x in scan(L) if t == ("struct", "craft::ProgressTracker::Config")]
    ps = [(x, t) for nm, t, x in scan(L) if t[0] == "map" and t[2] == ("ptr", ("struct", PR))]
    for x in cs:
        for p, pt in ps:
            try:
                yield tuple(CF(c, V(L.ctx, s, x, ("struct", "craft::ProgressTracker::Config")), V(L.ctx, s, p, pt), s) for s in (L.pre, L.cur))
            except (KeyError, Unsupported):
                continue


@contract("craft::Changer::Symdiff", props=C08)
def symdiff(c):
    l, r = c.arg(0).mem, c.arg(1).mem
    nl, nr = c.ctx.enum_facts(l), c.ctx.enum_facts(r)
    i, j = z3.Ints("i!sd j!sd")

    def only(a, b, i):
        return Not(z3.Select(b, enum(a, i)))

    def tmpl(L):
        for nm, x, y in Q.int_locals(L):
            for t, a, b in (("l", l, r), ("r", r, l)):
                yield "%s counts one %s" % (nm, t), z3.ForAll([i], Implies(z3.And(i >= 0, i < L.k, only(a, b, i)), y >= x + 1), patterns=[enum(a, i)])
                yield "%s counts two %s" % (nm, t), z3.ForAll([i, j], Implies(z3.And(i >= 0, i < j, j < L.k, only(a, b, i), only(a, b, j)), y >= x + 2), patterns=[z3.MultiPattern(enum(a, i), enum(a, j))])
                yield "%s none %s" % (nm, t), Implies(z3.ForAll([i], Implies(z3.And(i >= 0, i < L.k), Not(only(a, b, i))), patterns=[enum(a, i)]), y == x)
    c.loops(tmpl)
    yield []
    x, y = z3.Ints("x!sy y!sy")
    d = lambda v: z3.Select(l, v) != z3.Select(r, v)
    res = c.result
    c.ensures("*", "not negative", res >= 0)
    c.ensures("*", "counts differing members", z3.ForAll([x], Implies(d(x), res >= 1), patterns=[z3.Select(l, x), z3.Select(r, x)]))
    c.ensures("*", "at most one means at most one differing member", Implies(res <= 1, z3.ForAll([x, y], Implies(z3.And(d(x), d(y)), x == y), patterns=[z3.MultiPattern(p, q) for p in (z3.Select(l, x), z3.Select(r, x)) for q in (z3.Select(l, y), z3.Select(r, y))])))


# ---------------------------------------------------------------- elementary changes
def cp(c, st=None):
    return CF(c, c.arg(0, st), c.arg(1, st), st)


def elem_mods(c, o, i):
    r = z3.If(z3.Select(o.P, i), z3.Select(o.ref, i), c.cur.alloc)
    a = c.arg(0)
    return r, [("fresh", PR), a.voters, a.learners, a.learners_next, c.arg(1), Loc(("h", PR, r), (("f", "is_learner_"),))]


def elem_common(c, o, n, i, r):
    c.ensures("*", "outgoing half and auto-leave unchanged", z3.And(n.O == o.O, n.auto == o.auto))
    c.ensures("*", "other progress objects unchanged", others_same(c, c.pre, c.cur, r))
    c.ensures("*", "progress map stays well-formed", n.pm_ok())
    x = z3.Int("x!el")
    c.ensures("*", "other members keep their progress", z3.ForAll([x], Implies(x != i, z3.And(z3.Select(n.P, x) == z3.Select(o.P, x), z3.Select(n.ref, x) == z3.Select(o.ref, x))), patterns=[z3.Select(n.P, x), z3.Select(n.ref, x)]))
    c.ensures("*", "a new member gets a new progress object", Implies(z3.And(z3.Select(n.P, i), Not(z3.Select(o.P, i))), z3.Select(n.ref, i) >= c.pre.alloc))
    c.ensures("*", "a new member starts from nothing", Implies(z3.And(z3.Select(n.P, i), Not(z3.Select(o.P, i))), starts(c, n, i, c.this)))
    c.ensures("*", "kept members keep their progress object", Implies(z3.And(z3.Select(o.P, i), z3.Select(n.P, i)), z3.Select(n.ref, i) == z3.Select(o.ref, i)))


def elem_req(c):
    o = cp(c)
    c.requires("progress map is well-formed", o.pm_ok())
    c.requires("tracker capacity", c.this.tracker_.max_inflight_ >= 0)
    return o, c.arg(2)


def add(s, i):
    return z3.Store(s, i, z3.BoolVal(True))


def rem(s, i):
    return z3.Store(s, i, z3.BoolVal(False))


def upd(c, o, n, i, I, L, LN, P, flag):
    c.ensures("*", "incoming voters", n.I == I)
    c.ensures("*", "learners", n.L == L)
    c.ensures("*", "staged learners", n.LN == LN)
    c.ensures("*", "tracked members", n.P == P)
    c.ensures("*", "learner flag", Implies(z3.Select(n.P, i), n.islrn(i) == flag))


@contract("craft::Changer::InitProgress", props=C08)
def init_progress(c):
    o, i = elem_req(c)
    il = c.arg(3)
    r, mods = elem_mods(c, o, i)
    yield mods
    o, n = cp(c, c.pre), cp(c)
    upd(c, o, n, i, z3.If(il, o.I, add(o.I, i)), z3.If(il, add(o.L, i), o.L), o.LN, add(o.P, i), il)
    c.ensures("*", "other progress objects unchanged", others_same(c, c.pre, c.cur))
    c.ensures("*", "new progress object", z3.Select(n.ref, i) >= c.pre.alloc)
    c.ensures("*", "a new member starts from nothing", starts(c, n, i, c.this))
    c.ensures("*", "outgoing half and auto-leave unchanged", z3.And(n.O == o.O, n.auto == o.auto))
    c.ensures("*", "progress map stays well-formed", n.pm_ok())
    x = z3.Int("x!el")
    c.ensures("*", "other members keep their progress", z3.ForAll([x], Implies(x != i, z3.And(z3.Select(n.P, x) == z3.Select(o.P, x), z3.Select(n.ref, x) == z3.Select(o.ref, x))), patterns=[z3.Select(n.P, x), z3.Select(n.ref, x)]))


@contract("craft::Changer::MakeVoter", props=C08)
def make_voter(c):
    o, i = elem_req(c)
    r, mods = elem_mods(c, o, i)
    yield mods
    o, n = cp(c, c.pre), cp(c)
    known = z3.Select(o.P, i)
    upd(c, o, n, i, add(o.I, i), z3.If(known, rem(o.L, i), o.L), z3.If(known, rem(o.LN, i), o.LN), add(o.P, i), z3.BoolVal(False))
    elem_common(c, o, n, i, r)


@contract("craft::Changer::MakeLearner", props=C08)
def make_learner(c):
    o, i = elem_req(c)
    r, mods = elem_mods(c, o, i)
    yield mods
    o, n = cp(c, c.pre), cp(c)
    known = z3.Select(o.P, i)
    noop = z3.And(known, o.islrn(i))
    stage = z3.And(known, z3.Select(o.O, i))
    upd(c, o, n, i, z3.If(Or(noop, Not(known)), o.I, rem(o.I, i)),
        z3.If(noop, o.L, z3.If(stage, rem(o.L, i), add(o.L, i))),
        z3.If(Or(noop, Not(known)), o.LN, z3.If(stage, add(o.LN, i), rem(o.LN, i))),
        add(o.P, i), Or(noop, Not(stage)))
    elem_common(c, o, n, i, r)


@contract("craft::Changer::Remove", props=C08)
def remove(c):
    o, i = elem_req(c)
    a = c.arg(0)
    yield [a.voters, a.learners, a.learners_next, c.arg(1)]
    o, n = cp(c, c.pre), cp(c)
    known = z3.Select(o.P, i)
    f = lambda s: z3.If(known, rem(s, i), s)
    upd(c, o, n, i, f(o.I), f(o.L), f(o.LN), z3.If(z3.And(known, Not(z3.Select(o.O, i))), rem(o.P, i), o.P), o.islrn(i))
    elem_common(c, o, n, i, z3.IntVal(-1))


def getlb(c):
    if c.mode == "verify":
        return z3.Int("lb!above")
    return c.ctx.frame.alloc if c.ctx.frame is not None else z3.IntVal(1)


@contract("craft::Changer::Apply", props=C08)
def apply(c):
    o = cp(c)
    lb = getlb(c)
    c.requires("progress map is well-formed", z3.And(o.pm_ok(lb), lb >= 1, lb <= c.cur.alloc))
    c.requires("tracker capacity", c.this.tracker_.max_inflight_ >= 0)

    def tmpl(L):
        for a, b in cfg_prs(L, c):
            yield "map ok", b.pm_ok(lb)
            yield "outgoing", z3.And(b.O == a.O, b.auto == a.auto)
            yield "exact", Implies(a.exact(), b.exact())
            yield "progress", prog(c, a, b, c.this)
            r = z3.Int("r!ap")
            yield "below", z3.ForAll([r], Implies(r < lb, z3.Select(a.lrn, r) == z3.Select(b.lrn, r)), patterns=[z3.Select(b.lrn, r)])
    c.loops(tmpl)
    a = c.arg(0)
    yield [("above", PR, lb), a.voters, a.learners, a.learners_next, c.arg(1)]
    o, n = cp(c, c.pre), cp(c)
    c.ensures("*", "outgoing half and auto-leave unchanged", z3.And(n.O == o.O, n.auto == o.auto))
    c.ensures("*", "progress map stays well-formed", n.pm_ok(lb))
    c.ensures("*", "some voter remains", Implies(c.result == 0, c.ctx.card_facts(n.I) > 0))
    c.ensures("*", "exactly the members stay tracked", Implies(o.exact(), n.exact()))
    c.ensures("*", "members keep their progress, new ones start from nothing", prog(c, o, n, c.this))


# ---------------------------------------------------------------- checks
@contract("craft::Changer::CheckInvariants", props=C08)
def check_invariants(c):
    o = cp(c)
    c.requires("progress map is well-formed", o.pm_ok())

    def tmpl(L):
        if L.key is None:
            return
        i = z3.Int("i!ck")
        e = L.key(i)
        for nm, f in (("tracked", z3.Select(o.P, e)),
                      ("staged", z3.And(z3.Select(o.O, e), Not(o.islrn(e)))),
                      ("learner", z3.And(Not(z3.Select(o.O, e)), Not(z3.Select(o.I, e)), o.islrn(e)))):
            yield nm, z3.ForAll([i], Implies(z3.And(i >= 0, i < L.k), f), patterns=[e])
    c.loops(tmpl)
    yield []
    c.ensures("*", "accepts exactly the well-formed configurations", (c.result == 0) == o.inv())


def tracker(c):
    t = c.this.tracker_
    return CF(c, t.config_, t.progress_)


def res(c):
    return CF(c, c.result.f0, c.result.f1, c.cur)


def copies(c, a, P, ref, st, n=None):
    """members of a tracked in (P, ref) with equal progress fields, in fresh objects"""
    x = z3.Int("x!cp")
    return z3.ForAll([x], Implies(z3.Select(P, x), z3.And(*[z3.Select(c.ctx.hget(st, PR, f), z3.Select(ref, x)) == z3.Select(c.ctx.hget(a.st, PR, f), z3.Select(a.ref, x)) for f in KEPT])), patterns=[z3.Select(ref, x)])


@contract("craft::Progress::Clone", props=C08)
def clone(c):
    o = c.this
    c.requires("in-flight window exists", o.inflights_.has)
    yield [("fresh", PR)]
    r = c.result.val
    h = lambda s, f, p: z3.Select(c.ctx.hget(s, PR, f), p)
    flat = dict(unbuild(c.ctx.ty, c.old.val, ("struct", PR)))
    c.ensures("*", "a new object", z3.And(r >= c.pre.alloc, r < c.cur.alloc, r != 0))
    c.ensures("*", "equal fields", z3.And(h(c.cur, ".inflights_!", r), *[h(c.cur, f, r) == flat[f] for f in KEPT]))
    # window contents
    a, b = c.old.inflights_.star.buffer_, c.result.star.inflights_.star.buffer_
    j = z3.Int("j!cl")
    c.ensures("*", "equal window contents", z3.And(a.len == b.len, z3.ForAll([j], Implies(z3.And(j >= 0, j < a.len), z3.Select(a.arr, j) == z3.Select(b.arr, j)))))


@contract("craft::Changer::CheckAndReturn", props=C08)
def check_and_return(c):
    o = cp(c)
    c.requires("progress map is well-formed", o.pm_ok())
    yield [c._args[0], c._args[1]]
    o, n = cp(c, c.pre), res(c)
    ok = c.result.f2 == 0
    c.ensures("*", "accepts exactly the well-formed configurations", ok == o.inv())
    c.ensures("*", "returned as given", Implies(ok, z3.And(n.same_cfg(o), n.P == o.P, n.ref == o.ref)))


@contract("craft::Changer::CheckAndCopy", props=C08)
def check_and_copy(c):
    o = tracker(c)
    c.requires("progress map is well-formed", o.pm_ok())
    x, y = z3.Ints("x!cc y!cc")

    def tmpl(L):
        for nm, t, loc in scan(L):
            if t[0] == "map" and t[2] == ("ptr", ("struct", PR)) and ("c", loc.root[1]) in {m[:2] for m in L.mods}:
                v = L.ctx.load(loc, L.cur)
                ref = v.lift.arrs[""]
                yield nm + " has the enumerated members", z3.ForAll([x], z3.Select(v.mem, x) == z3.And(z3.Select(o.P, x), posn(o.P, x) < L.k), patterns=[z3.Select(v.mem, x), z3.Select(o.P, x)])
                yield nm + " fresh", pm_ok(c, v.mem, ref, L.cur, L.pre.alloc)
                yield nm + " copies", copies(c, o, v.mem, ref, L.cur)
    c.loops(tmpl)
    yield [("fresh", PR)]
    o, n = CF(c, c.old.tracker_.config_, c.old.tracker_.progress_), res(c)
    ok = c.result.f2 == 0
    c.ensures("*", "accepts exactly the well-formed configurations", ok == o.inv())
    c.ensures("*", "same configuration", Implies(ok, z3.And(n.same_cfg(o), z3.ForAll([x], z3.Select(n.P, x) == z3.Select(o.P, x), patterns=[z3.Select(n.P, x), z3.Select(o.P, x)]))))
    c.ensures("*", "fresh copies of every progress", Implies(ok, z3.And(n.pm_ok(c.pre.alloc), copies(c, o, n.P, n.ref, c.cur))))


# ---------------------------------------------------------------- the three changes
def change_req(c):
    o = tracker(c)
    c.requires("progress map is well-formed", o.pm_ok())
    c.requires("tracker capacity", c.this.tracker_.max_inflight_ >= 0)


def change_post(c):
    n = res(c)
    o = CF(c, c.old.tracker_.config_, c.old.tracker_.progress_)
    ok = c.result.f2 == 0
    c.ensures("*", "the resulting configuration is well-formed", Implies(ok, n.inv()))
    c.ensures("*", "progress objects are new", Implies(ok, n.pm_ok(c.pre.alloc)))
    c.ensures("*", "exactly the members are tracked", Implies(z3.And(ok, o.exact()), n.exact()))
    c.ensures("*", "members keep their progress, new ones start from nothing", Implies(ok, prog(c, o, n, c.old)))
    return o, n, ok


@contract("craft::Changer::EnterJoint", props=C08)
def enter_joint(c):
    change_req(c)
    yield [("fresh", PR)]
    o, n, ok = change_post(c)
    c.ensures("*", "refused when already joint or without voters", Implies(ok, z3.And(Not(o.joint()), c.ctx.card_facts(o.I) > 0)))
    c.ensures("*", "old voters become the outgoing half", Implies(ok, n.O == o.I))
    c.ensures("*", "some incoming voter", Implies(ok, c.ctx.card_facts(n.I) > 0))
    c.ensures("*", "auto-leave as requested", Implies(ok, n.auto == c.oldarg(0)))


@contract("craft::Changer::LeaveJoint", props=C08)
def leave_joint(c):
    change_req(c)
    x = z3.Int("x!lj")

    def tmpl(L):
        for a, b in cfg_prs(L, c):
            LN, O = a.LN, a.O
            done = lambda s: z3.And(z3.Select(s, x), posn(s, x) < L.k)
            yield "learners", z3.ForAll([x], z3.Select(b.L, x) == Or(z3.Select(a.L, x), done(LN)), patterns=[z3.Select(b.L, x), z3.Select(LN, x)])
            yield "flags", z3.ForAll([x], Implies(z3.Select(a.P, x), z3.Select(b.lrn, z3.Select(a.ref, x)) == Or(z3.Select(a.lrn, z3.Select(a.ref, x)), done(LN))), patterns=[z3.Select(a.ref, x)])
            r = z3.Int("r!lj")
            yield "older objects", z3.ForAll([r], Implies(r < c.ctx.frame.alloc, z3.Select(b.lrn, r) == z3.Select(a.lrn, r)), patterns=[z3.Select(b.lrn, r)])
            yield "tracked", z3.ForAll([x], z3.Select(b.P, x) == z3.And(z3.Select(a.P, x), Not(z3.And(done(O), Not(z3.Select(a.I, x)), Not(z3.Select(a.L, x))))), patterns=[z3.Select(b.P, x), z3.Select(a.P, x)])
            yield "map ok", b.pm_ok(c.ctx.frame.alloc)
    c.loops(tmpl)
    yield [("fresh", PR)]
    o, n, ok = change_post(c)
    c.ensures("*", "refused when not joint", Implies(ok, o.joint()))
    c.ensures("*", "the outgoing half is dropped, incoming voters stay", Implies(ok, z3.And(n.empty(n.O), n.I == o.I)))
    c.ensures("*", "staged learners become learners", Implies(ok, z3.And(n.empty(n.LN), z3.ForAll([x], z3.Select(n.L, x) == Or(z3.Select(o.L, x), z3.Select(o.LN, x)), patterns=[z3.Select(n.L, x), z3.Select(o.L, x), z3.Select(o.LN, x)]))))
    c.ensures("*", "auto-leave reset", Implies(ok, Not(n.auto)))


@contract("craft::Changer::Simple", props=C08)
def simple(c):
    change_req(c)
    yield [("fresh", PR)]
    o, n, ok = change_post(c)
    x, y = z3.Ints("x!si y!si")
    d = lambda v: z3.Select(o.I, v) != z3.Select(n.I, v)
    c.ensures("*", "refused in a joint configuration", Implies(ok, z3.And(Not(o.joint()), n.O == o.O)))
    c.ensures("*", "at most one voter changes", Implies(ok, z3.ForAll([x, y], Implies(z3.And(d(x), d(y)), x == y))))
    c.ensures("*", "some voter remains", Implies(ok, c.ctx.card_facts(n.I) > 0))
