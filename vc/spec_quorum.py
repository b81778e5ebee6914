"""C01, C02: quorum arithmetic."""
from contract import *

CONTRACTS = []


def contract(q, **kw):
    def deco(fn):
        CONTRACTS.append(Contract(q, fn, **dict(dict(total=True), **kw)))
        return fn
    return deco


AMEM = z3.ArraySort(INT, BOOL)
CY = z3.Function("CNT_YES", AMEM, AMEM, AMEM, INT, INT)       # (config, voted, votes, k): yes votes among the first k members
CM = z3.Function("CNT_MISS", AMEM, AMEM, INT, INT)


def b2i(c):
    return z3.If(c, z3.IntVal(1), z3.IntVal(0))


def cy_unfold(cfg, vm, vv, k):
    e = enum(cfg, k)
    return [CY(cfg, vm, vv, z3.IntVal(0)) == 0, CM(cfg, vm, z3.IntVal(0)) == 0,
            Implies(k >= 0, CY(cfg, vm, vv, k + 1) == CY(cfg, vm, vv, k) + b2i(z3.And(z3.Select(vm, e), z3.Select(vv, e)))),
            Implies(k >= 0, CM(cfg, vm, k + 1) == CM(cfg, vm, k) + b2i(z3.Not(z3.Select(vm, e))))]


WON, LOST, PENDING = "kVoteWon", "kVoteLost", "kVotePending"


def int_locals(L):
    """(name, value at loop entry, value now) of integer locals of the loop's frame"""
    for nm, x in L.frame.names.items():
        if isinstance(x, Loc) and x.root[0] == "c":
            try:
                a, b = L.ctx.load(x, L.pre), L.ctx.load(x, L.cur)
            except (KeyError, Unsupported):
                continue
            if z3.is_expr(a) and z3.is_expr(b) and a.sort() == INT and b.sort() == INT:
                yield nm, a, b


@contract("craft::MajorityConfig::VoteResult", props=["C01"])
def vote_result(c):
    cfg = c.this.config_.mem
    vm, vv = c.arg(0).val.mem, c.arg(0).val.lift.arrs[""]
    K = c.ctx.eng.prog.enumconst
    n = c.ctx.card_facts(cfg)

    def tmpl(L):
        for nm, a, b in int_locals(L):
            yield nm + "=yes", b == a + CY(cfg, vm, vv, L.k)
            yield nm + "=miss", b == a + CM(cfg, vm, L.k)
            yield nm + "=no", b == a + L.k - CM(cfg, vm, L.k) - CY(cfg, vm, vv, L.k)
        yield "cnt", z3.And(CY(cfg, vm, vv, L.k) >= 0, CM(cfg, vm, L.k) >= 0, CY(cfg, vm, vv, L.k) + CM(cfg, vm, L.k) <= L.k)
    c.loops(tmpl)
    c.hints(lambda L, k, ex: cy_unfold(cfg, vm, vv, k))
    yield []
    yes, miss = CY(cfg, vm, vv, n), CM(cfg, vm, n)
    q = n / 2 + 1
    for h in cy_unfold(cfg, vm, vv, z3.IntVal(0)):
        c.define(h)
    r = c.result
    c.ensures("*", "Won iff empty config or yes >= quorum", (r == K[WON]) == z3.Or(n == 0, yes >= q))
    c.ensures("*", "Pending iff not won and yes+missing >= quorum", (r == K[PENDING]) == z3.And(n != 0, yes < q, yes + miss >= q))
    c.ensures("*", "Lost iff yes can no longer reach a quorum", (r == K[LOST]) == z3.And(n != 0, yes + miss < q))


# ---------------------------------------------------------------- C02
AI = z3.ArraySort(INT, INT)
CNTA = z3.Function("CNT_GE", AI, INT, INT, INT)                     # (A, v, n): #{ j < n : A[j] >= v }
CA = z3.Function("CNT_ACK", AMEM, AMEM, AI, INT, INT, INT)          # (config, acked, index, v, k): members among the first k acking >= v
CK = z3.Function("CNT_OK", AMEM, AMEM, INT, INT)                    # (config, acked, k)
ABSTRACT = {"craft::AckedIndexer": [("ack", ("map", TU64, TU64))]}


def lemma(name, props):
    def deco(fn):
        CONTRACTS.append(Lemma(name, fn, props))
        return fn
    return deco


def cnta_def(A, v, n):
    return [CNTA(A, v, z3.IntVal(0)) == 0, Implies(n >= 0, CNTA(A, v, n + 1) == CNTA(A, v, n) + b2i(z3.Select(A, n) >= v))]


def ind(add, name, P, n, unfold):
    """induction over n >= 0: P(0) and P(n) => P(n+1)"""
    add(name + " (base)", unfold(z3.IntVal(0)), P(z3.IntVal(0)))
    add(name + " (step)", unfold(n) + [n >= 0, P(n)], P(n + 1))


def L_frame(A, B, v, n):
    i = z3.Int("i!l")
    return Implies(z3.And(n >= 0, z3.ForAll([i], Implies(z3.And(i >= 0, i < n), z3.Select(A, i) == z3.Select(B, i)))), CNTA(A, v, n) == CNTA(B, v, n))


def L_store(A, j, x, v, n):
    return Implies(z3.And(j >= 0, j < n), CNTA(z3.Store(A, j, x), v, n) == CNTA(A, v, n) - b2i(z3.Select(A, j) >= v) + b2i(x >= v))


def L_ge(A, v, p, n):
    i = z3.Int("i!l")
    return Implies(z3.And(p >= 0, p <= n, z3.ForAll([i], Implies(z3.And(i >= p, i < n), z3.Select(A, i) >= v))), CNTA(A, v, n) >= n - p)


def L_lt(A, v, p, n):
    i = z3.Int("i!l")
    return Implies(z3.And(p >= 0, p <= n, z3.ForAll([i], Implies(z3.And(i >= 0, i < p), z3.Select(A, i) < v))), z3.And(CNTA(A, v, n) <= n - p))


def L_zero(A, v, n):
    return L_lt(A, v, n, n)


@lemma("counting over arrays", ["C02"])
def cnt_lemmas(add):
    A, B = z3.Consts("A B", AI)
    v, n, j, x, p = z3.Ints("v n j x p")
    ind(add, "bounds of the count", lambda m: z3.And(CNTA(A, v, m) >= 0, CNTA(A, v, m) <= m), n, lambda m: cnta_def(A, v, m))
    ind(add, "count depends only on the prefix", lambda m: L_frame(A, B, v, m), n, lambda m: cnta_def(A, v, m) + cnta_def(B, v, m))
    S = z3.Store(A, j, x)
    add("count after a store (base)", cnta_def(A, v, z3.IntVal(0)), L_store(A, j, x, v, z3.IntVal(0)))
    add("count after a store (step)", cnta_def(A, v, n) + cnta_def(S, v, n) + [n >= 0, L_store(A, j, x, v, n), L_frame(S, A, v, n)], L_store(A, j, x, v, n + 1))
    add("upper part >= v (p = n)", [n >= 0, CNTA(A, v, n) >= 0], L_ge(A, v, n, n))
    add("upper part >= v (step)", cnta_def(A, v, n) + [n >= 0, L_ge(A, v, p, n), p <= n], L_ge(A, v, p, n + 1))
    b = [CNTA(A, v, n) >= 0, CNTA(A, v, n) <= n, CNTA(A, v, n + 1) <= n + 1, CNTA(A, v, n + 1) >= 0]
    add("lower part < v (base)", cnta_def(A, v, z3.IntVal(0)), L_lt(A, v, p, z3.IntVal(0)))
    add("lower part < v (step, p<=n)", cnta_def(A, v, n) + [n >= 0, L_lt(A, v, p, n), p <= n], L_lt(A, v, p, n + 1))
    add("lower part < v (step, p=n+1)", cnta_def(A, v, n) + [n >= 0, L_lt(A, v, n, n)], L_lt(A, v, n + 1, n + 1))


    i, q = z3.Ints("i!l q!l")
    sorted_ = z3.ForAll([i, q], Implies(z3.And(i >= 0, i <= q, q < n), z3.Select(A, i) <= z3.Select(A, q)), patterns=[z3.MultiPattern(z3.Select(A, i), z3.Select(A, q))])
    add("count in a sorted array", [n >= 0, sorted_, L_ge(A, v, p, n), L_lt(A, v, p + 1, n)], Implies(z3.And(p >= 0, p < n), (v <= z3.Select(A, p)) == (CNTA(A, v, n) >= n - p)))


def sorted_count(A, n, p):
    """proved lemma "count in a sorted array", for one array and position"""
    i, q, v = z3.Ints("i!sc q!sc v!sc")
    srt = z3.ForAll([i, q], Implies(z3.And(i >= 0, i <= q, q < n), z3.Select(A, i) <= z3.Select(A, q)), patterns=[z3.MultiPattern(z3.Select(A, i), z3.Select(A, q))])
    return Implies(z3.And(srt, p >= 0, p < n), z3.ForAll([v], (v <= z3.Select(A, p)) == (CNTA(A, v, n) >= n - p), patterns=[CNTA(A, v, n)]))


def ca_unfold(cfg, has, idx, k):
    e = enum(cfg, k)
    v = z3.Int("v!a")
    return [z3.ForAll([v], CA(cfg, has, idx, v, z3.IntVal(0)) == 0, patterns=[CA(cfg, has, idx, v, z3.IntVal(0))]),
            CK(cfg, has, z3.IntVal(0)) == 0,
            Implies(k >= 0, CK(cfg, has, k + 1) == CK(cfg, has, k) + b2i(z3.Select(has, e))),
            Implies(k >= 0, z3.ForAll([v], CA(cfg, has, idx, v, k + 1) == CA(cfg, has, idx, v, k) + b2i(z3.And(z3.Select(has, e), z3.Select(idx, e) >= v)), patterns=[CA(cfg, has, idx, v, k + 1)]))]


CYDIFF = z3.Function("VOTE_DIFF", AMEM, AMEM, AMEM, AMEM, INT)       # a node whose vote differs in two vote records, if there is one


@lemma("vote counts depend only on the yes votes", ["C29"])
def cy_ext_lemma(add):
    cfg, m1, v1, m2, v2 = z3.Consts("cfg m1 v1 m2 v2", AMEM)
    k, x = z3.Ints("k x")
    eq = z3.ForAll([x], z3.And(z3.Select(m1, x), z3.Select(v1, x)) == z3.And(z3.Select(m2, x), z3.Select(v2, x)))
    ind(add, "equal yes votes, equal counts", lambda m: Implies(eq, CY(cfg, m1, v1, m) == CY(cfg, m2, v2, m)), k, lambda m: cy_unfold(cfg, m1, v1, m) + cy_unfold(cfg, m2, v2, m))


def cy_ext_fact():
    """the proved lemma, with CYDIFF a witness of a difference"""
    cfg, m1, v1, m2, v2 = z3.Consts("cfg!y m1!y v1!y m2!y v2!y", AMEM)
    k = z3.Int("k!y")
    d = CYDIFF(m1, v1, m2, v2)
    p, q = CY(cfg, m1, v1, k), CY(cfg, m2, v2, k)
    return z3.ForAll([cfg, m1, v1, m2, v2, k], Or(k < 0, z3.And(z3.Select(m1, d), z3.Select(v1, d)) != z3.And(z3.Select(m2, d), z3.Select(v2, d)), p == q), patterns=[z3.MultiPattern(p, q)])


CADIFF = z3.Function("ACK_DIFF", AI, AI, AMEM, INT)                  # a member on which two index arrays differ, if there is one


@lemma("acknowledgement counts depend only on the acked members", ["C02", "C07"])
def ca_ext_lemma(add):
    cfg, has = z3.Consts("cfg has", AMEM)
    A, B = z3.Consts("A B", AI)
    v, k, x = z3.Ints("v k x")
    eq = z3.ForAll([x], Implies(z3.Select(has, x), z3.Select(A, x) == z3.Select(B, x)))
    ind(add, "equal on the acked members, equal counts", lambda m: Implies(eq, CA(cfg, has, A, v, m) == CA(cfg, has, B, v, m)), k, lambda m: ca_unfold(cfg, has, A, m) + ca_unfold(cfg, has, B, m))


def ca_ext_fact():
    """the proved lemma, with CADIFF a witness of a difference"""
    cfg, has = z3.Consts("cfg!x has!x", AMEM)
    A, B = z3.Consts("A!x B!x", AI)
    v, k = z3.Ints("v!x k!x")
    d = CADIFF(A, B, has)
    p, q = CA(cfg, has, A, v, k), CA(cfg, has, B, v, k)
    return z3.ForAll([cfg, has, A, B, v, k], Or(k < 0, z3.And(z3.Select(has, d), z3.Select(A, d) != z3.Select(B, d)), p == q), patterns=[z3.MultiPattern(p, q)])


def cnta_lemma_facts():
    A = z3.Const("A!q", AI)
    v, n, j, x = z3.Ints("v!q n!q j!q x!q")
    return [z3.ForAll([A, j, x, v, n], L_store(A, j, x, v, n), patterns=[CNTA(z3.Store(A, j, x), v, n)]),
            z3.ForAll([A, v, n], Implies(n >= 0, z3.And(CNTA(A, v, n) >= 0, CNTA(A, v, n) <= n)), patterns=[CNTA(A, v, n)])]


def match_array(ctx, h, ref):
    """match index by id: the composition of the match fields h with the progress map ref"""
    a = z3.Const("MATCH~%d~%d" % (h.get_id(), ref.get_id()), AI)
    ctx.lammemo.setdefault(a.get_id(), (a, h, ref))
    i = z3.Int("id!m")
    ctx.fact(z3.ForAll([i], z3.Select(a, i) == z3.Select(h, z3.Select(ref, i)), patterns=[z3.Select(a, i)]))
    return a


def acker(c, x):
    """(has, idx) arrays of an AckedIndexer argument"""
    ctx = c.ctx
    loc = x._x
    v = ctx.load(loc, x._st)
    if v.q == "craft::MatchAckIndexer":
        raw = [v.f[f] for f, ft in ctx.ty.fields(v.q) if ft[0] == "raw"][0]
        m = ctx.load(raw.loc, x._st)
        h = ctx.hget(x._st, "craft::Progress", ".match_")
        ref = m.lift.arrs[""]
        return m.mem, match_array(ctx, h, ref)
    m = v.f["ack"]
    return m.mem, m.lift.arrs[""]


@contract("craft::AckedIndexer::AckedIndex", props=["C02"], trusted="abstract interface: AckedIndex(id) is a fixed partial function of the id during one call")
def acked_index(c):
    has, idx = acker(c, c.this)
    i = c.arg(0)
    yield []
    c.ensures("*", "value", z3.And(c.result.f0 == z3.Select(idx, i), c.result.f1 == z3.Select(has, i)))


@contract("craft::MatchAckIndexer::AckedIndex", props=["C02"])
def match_acked(c):
    v = c.ctx.load(c._this)
    raw = [v.f[f] for f, ft in c.ctx.ty.fields(v.q) if ft[0] == "raw"][0]
    m = c.ctx.load(raw.loc)
    i = c.arg(0)
    h = c.ctx.hget(c.ctx.st, "craft::Progress", ".match_")
    k = z3.Int("k!n")
    c.requires("progress pointers are non-null", z3.ForAll([k], Implies(z3.Select(m.mem, k), z3.Select(m.lift.arrs[""], k) != 0), patterns=[z3.Select(m.lift.arrs[""], k)]))
    yield []
    c.ensures("C02 C07", "acked iff progress exists", c.result.f1 == z3.Select(m.mem, i))
    c.ensures("C02 C07", "index is the progress match", Implies(c.result.f1, c.result.f0 == z3.Select(h, z3.Select(m.lift.arrs[""], i))))


def raw_seq(c, i):
    """(loc, array, offset) behind raw pointer parameter i"""
    r = c.ctx.load(c._args[i]) if isinstance(c._args[i], Loc) else c._args[i]
    return r


@contract("craft::insertionSort", props=["C02"], optional=True)
def insertion_sort(c):
    r = raw_seq(c, 0)
    n = c.arg(1)
    s0 = c.ctx.load(r.loc)
    A0 = s0.lift.arrs[""]
    c.requires("range within the buffer", z3.And(n <= s0.len, r.off == 0))
    for f in cnta_lemma_facts():
        c.define(f)
    c.loops(lambda L: sort_templates(L, n))
    yield [r.loc]
    s1 = c.ctx.load(r.loc)
    A1 = s1.lift.arrs[""]
    i, j, v = z3.Ints("i!s j!s v!s")
    c.ensures("*", "length kept", s1.len == s0.len)
    c.ensures("C02 C07", "sorted", z3.ForAll([i, j], Implies(z3.And(i >= 0, i <= j, j < n), z3.Select(A1, i) <= z3.Select(A1, j)), patterns=[z3.MultiPattern(z3.Select(A1, i), z3.Select(A1, j))]))
    c.ensures("C02 C07", "counts preserved", z3.ForAll([v], CNTA(A1, v, n) == CNTA(A0, v, n), patterns=[CNTA(A1, v, n), CNTA(A0, v, n)]))


def raw_arrays(L):
    seen = set()
    for nm, x in L.frame.names.items():
        try:
            if isinstance(x, Loc):
                v = L.ctx.load(x, L.cur)
                if isinstance(v, RawV) and v.loc is not None and v.off is not None:
                    x = v.loc
                    v = L.ctx.load(x, L.cur)
                if isinstance(v, SeqV) and v.t[0] == "int" and isinstance(v.lift, LArr) and repr(x) not in seen and any(m[0] == "c" and m[1] == x.root[1] for m in L.mods):
                    seen.add(repr(x))
                    a = L.ctx.load(x, L.pre)
                    if isinstance(a.lift, LArr):
                        yield nm, a.lift.arrs[""], v.lift.arrs[""], a.len, v.len
        except (KeyError, Unsupported):
            continue


def sort_templates(L, n):
    v, p, q = z3.Ints("v!t p!t q!t")
    ints = [(nm, b) for nm, a, b in int_locals(L)]
    for an, A0, A1, l0, l1 in raw_arrays(L):
        yield an + ":counts", z3.ForAll([v], CNTA(A1, v, n) == CNTA(A0, v, n), patterns=[CNTA(A1, v, n), CNTA(A0, v, n)])
        for xn, x in ints:
            yield an + ":sorted<" + xn, z3.ForAll([p, q], Implies(z3.And(p >= 0, p < q, q < x), z3.Select(A1, p) <= z3.Select(A1, q)), patterns=[z3.MultiPattern(z3.Select(A1, p), z3.Select(A1, q))])
            for yn, y in ints:
                if xn != yn:
                    yield an + ":sorted<=" + xn + " except " + yn, z3.ForAll([p, q], Implies(z3.And(p >= 0, p < q, q <= x, q != y), z3.Select(A1, p) <= z3.Select(A1, q)), patterns=[z3.MultiPattern(z3.Select(A1, p), z3.Select(A1, q))])
    for xn, x in ints:
        for yn, y in ints:
            if xn != yn:
                yield xn + "<=" + yn, x <= y


@contract("craft::MajorityConfig::CommittedIndex", props=["C02"])
def committed_index(c):
    cfg = c.this.config_.mem
    n = c.ctx.card_facts(cfg)
    has, idx = acker(c, c.arg(0))
    for f in cnta_lemma_facts():
        c.define(f)
    id_ = z3.Int("id!r")
    c.define(z3.ForAll([id_], z3.And(z3.Select(idx, id_) >= 0, z3.Select(idx, id_) < U64), patterns=[z3.Select(idx, id_)]))
    c.hints(lambda L, k, ex: ca_unfold(cfg, has, idx, k))
    if c.mode == "verify":
        A = z3.Const("A!z", AI)
        v, p, q, m = z3.Ints("v!z p!z q!z m!z")
        # all-zero array: proved lemma L_lt with p = n
        c.define(z3.ForAll([v, m], Implies(z3.And(v >= 1, m >= 0), CNTA(z3.K(INT, z3.IntVal(0)), v, m) == 0), patterns=[CNTA(z3.K(INT, z3.IntVal(0)), v, m)]))

        def tmpl(L):
            yield "ck", z3.And(CK(cfg, has, L.k) >= 0, CK(cfg, has, L.k) <= L.k)
            for an, A0, A1, l0, l1 in raw_arrays(L):
                if True:
                    yield an + ":count", z3.ForAll([v], Implies(v >= 1, CNTA(A1, v, n) == CA(cfg, has, idx, v, L.k)), patterns=[CNTA(A1, v, n), CA(cfg, has, idx, v, L.k)])
                    yield an + ":zeros", z3.ForAll([p], Implies(z3.And(p >= 0, p < n - CK(cfg, has, L.k)), z3.Select(A1, p) == 0), patterns=[z3.Select(A1, p)])
                    yield an + ":zeros-front", z3.ForAll([p], Implies(z3.And(p >= CK(cfg, has, L.k), p < n), z3.Select(A1, p) == 0), patterns=[z3.Select(A1, p)])
                    yield an + ":range", z3.ForAll([p], z3.And(z3.Select(A1, p) >= 0, z3.Select(A1, p) < U64), patterns=[z3.Select(A1, p)])
            for nm, a, b in int_locals(L):
                yield nm + "=wrap-ok", z3.And(Implies(CK(cfg, has, L.k) <= a, b == a - CK(cfg, has, L.k)), Implies(CK(cfg, has, L.k) > a, b == a - CK(cfg, has, L.k) + U64))
                yield nm + "=+ok", b == a + CK(cfg, has, L.k)
            yield from sort_templates(L, n)
        c.loops(tmpl)
    yield []
    v = z3.Int("v!p")
    r = c.result
    for f in ca_unfold(cfg, has, idx, z3.IntVal(0)):
        c.define(f)
    if c.mode == "verify":
        # instances of the proved lemmas for the final sorted array(s)
        ctx = c.ctx
        pos = simp(n - (n / 2 + 1))
        vv, i = z3.Ints("v!y i!y")
        for A, ln in seq_arrays(ctx):
            ctx.assume(sorted_count(A, n, pos))
    c.ensures("C02 C07", "empty half constrains nothing", Implies(n == 0, r == U64 - 1))
    c.ensures("C02 C07", "result is the largest index acked by a quorum", Implies(n > 0, z3.ForAll([v], Implies(z3.And(v >= 1, v < U64), (v <= r) == (CA(cfg, has, idx, v, n) >= n / 2 + 1)), patterns=[CA(cfg, has, idx, v, n)])))


def seq_arrays(ctx):
    out = []
    for k, v in ctx.st.cells.items():
        if isinstance(v, SeqV) and v.t[0] == "int" and isinstance(v.lift, LArr):
            out.append((v.lift.arrs[""], v.len))
    return out


def half(c, this, i):
    v = this.configs_[i].config_
    return v.mem


@contract("craft::JointConfig::CommittedIndex", props=["C02"], typ="const AckedIndexer")
def joint_committed(c):
    c0, c1 = half(c, c.this, 0), half(c, c.this, 1)
    n0, n1 = c.ctx.card_facts(c0), c.ctx.card_facts(c1)
    has, idx = acker(c, c.arg(0))
    yield []
    v = z3.Int("v!p")
    r = c.result
    c.ensures("C02 C07", "joint: quorum in both non-empty halves", z3.ForAll([v], Implies(z3.And(v >= 1, v < U64), (v <= r) == z3.And(z3.Or(n0 == 0, CA(c0, has, idx, v, n0) >= n0 / 2 + 1), z3.Or(n1 == 0, CA(c1, has, idx, v, n1) >= n1 / 2 + 1)))))


@contract("craft::JointConfig::VoteResult", props=["C01"])
def joint_vote(c):
    c0, c1 = half(c, c.this, 0), half(c, c.this, 1)
    vm, vv = c.arg(0).val.mem, c.arg(0).val.lift.arrs[""]
    K = c.ctx.eng.prog.enumconst
    n0, n1 = c.ctx.card_facts(c0), c.ctx.card_facts(c1)
    yield []
    r = c.result

    def won(cfg, n):
        return z3.Or(n == 0, CY(cfg, vm, vv, n) >= n / 2 + 1)

    def lost(cfg, n):
        return z3.And(n != 0, CY(cfg, vm, vv, n) + CM(cfg, vm, n) < n / 2 + 1)
    for cfg, n in ((c0, n0), (c1, n1)):
        c.define(z3.And(CM(cfg, vm, n) >= 0))
    c.ensures("*", "joint won iff both halves won", (r == K[WON]) == z3.And(won(c0, n0), won(c1, n1)))
    c.ensures("*", "joint lost iff a half is lost", (r == K[LOST]) == z3.Or(lost(c0, n0), lost(c1, n1)))
    c.ensures("*", "joint result is one of three", z3.Or(r == K[WON], r == K[LOST], r == K[PENDING]))


def prog_nonnull(c, m):
    k = z3.Int("k!n")
    return z3.ForAll([k], Implies(z3.Select(m.mem, k), z3.And(z3.Select(m.lift.arrs[""], k) != 0)), patterns=[z3.Select(m.lift.arrs[""], k)])


@contract("craft::ProgressTracker::Committed", props=["C02"])
def tracker_committed(c):
    J = c.this.config_.voters
    c0, c1 = half(c, J, 0), half(c, J, 1)
    n0, n1 = c.ctx.card_facts(c0), c.ctx.card_facts(c1)
    m = c.this.progress_.val
    h = c.ctx.hget(c.cur, "craft::Progress", ".match_")
    ref = m.lift.arrs[""]
    a = match_array(c.ctx, h, ref)
    yield []
    v = z3.Int("v!p")
    r = c.result
    c.ensures("C02 C07", "largest index matched by a quorum of each half", z3.ForAll([v], Implies(z3.And(v >= 1, v < U64), (v <= r) == z3.And(z3.Or(n0 == 0, CA(c0, m.mem, a, v, n0) >= n0 / 2 + 1), z3.Or(n1 == 0, CA(c1, m.mem, a, v, n1) >= n1 / 2 + 1)))))
