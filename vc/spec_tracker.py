"""C15, C26 (progress tracking) and the vote bookkeeping part of C01."""
from contract import *
import spec_quorum as Q

CONTRACTS = []


def contract(q, **kw):
    def deco(fn):
        CONTRACTS.append(Contract(q, fn, **dict(dict(total=True), **kw)))
        return fn
    return deco


# ---------------------------------------------------------------- C15
def slot(st, j, size):
    return z3.If(st + j >= size, st + j - size, st + j)


def infl_inv(v):
    """representation invariant of the ring buffer"""
    s, n, cap, ln = v.start_, v.count_, v.size_, v.buffer_.len
    return z3.And(s >= 0, n >= 0, cap >= 0, n <= cap, ln <= cap, z3.Implies(cap > 0, s < cap), z3.Implies(cap == 0, s == 0), z3.Or(s + n <= ln, ln == cap))


def infl_at(v, j):
    return z3.Select(v.buffer_.arr, slot(v.start_, j, v.size_))


def same_queue(a, b, shift, n, j):
    """queue b[0..n) == queue a[shift..shift+n)"""
    return z3.ForAll([j], Implies(z3.And(j >= 0, j < n), infl_at(b, j) == infl_at(a, j + shift)))


J = z3.Int("j!q")


@contract("craft::Inflights::Add", props=["C15"])
def add(c):
    c.requires("ring buffer invariant", infl_inv(c.this))
    o = c.this
    cnt, cap = o.count_, o.size_
    c.nofatal = cnt != cap
    yield [o.buffer_, V_loc(o, "count_")]
    n = c.this
    o = c.old
    c.ensures("C15", "room was available (a full window stops the process)", o.count_ < o.size_)
    c.ensures("*", "invariant kept", infl_inv(n))
    c.ensures("*", "one more element", n.count_ == o.count_ + 1)
    c.ensures("C15 C16", "queue extended at the end", z3.And(infl_at(n, o.count_) == c.oldarg(0), same_queue(o, n, 0, o.count_, J)))


def V_loc(v, f):
    return v._x.f(f)


@contract("craft::Inflights::Grow", props=["C15"], optional=True)
def grow(c):
    o = c.this
    c.requires("ring buffer invariant", z3.And(infl_inv(o), o.buffer_.len < o.size_))
    yield [o.buffer_]
    o, n = c.old, c.this
    c.ensures("*", "buffer grew within capacity", z3.And(n.buffer_.len > o.buffer_.len, n.buffer_.len <= n.size_))
    c.ensures("C15 C16", "contents kept", z3.ForAll([J], Implies(z3.And(J >= 0, J < o.buffer_.len), z3.Select(n.buffer_.arr, J) == z3.Select(o.buffer_.arr, J)), patterns=[z3.Select(n.buffer_.arr, J)]))


def free_post(c, o, n, to, i):
    c.ensures("*", "invariant kept", infl_inv(n))
    c.ensures("*", "freed at most everything", z3.And(n.count_ <= o.count_, n.count_ >= 0))
    c.ensures("C15 C16", "freed ones are <= to", z3.ForAll([J], Implies(z3.And(J >= 0, J < i), infl_at(o, J) <= to)))
    c.ensures("C15 C16", "the first kept one is > to", Implies(n.count_ > 0, infl_at(n, z3.IntVal(0)) > to))
    c.ensures("C15 C16", "kept ones unchanged and in order", same_queue(o, n, i, n.count_, J))


@contract("craft::Inflights::FreeLE", props=["C15"])
def free_le(c):
    o = c.this
    c.requires("ring buffer invariant", infl_inv(o))
    to = c.arg(0)

    def tmpl(L):
        for nm, a, b in Q.int_locals(L):
            yield nm + " slot", b == slot(o.start_, L.k, o.size_)
        yield "freed", z3.ForAll([J], Implies(z3.And(J >= 0, J < L.k), infl_at(o, J) <= to))
        yield "bound", L.k <= o.count_
    c.loops(tmpl)
    yield [V_loc(o, "count_"), V_loc(o, "start_")]
    n, o = c.this, c.old
    free_post(c, o, n, to, o.count_ - n.count_)


@contract("craft::Inflights::FreeFirstOne", props=["C15"])
def free_first(c):
    o = c.this
    c.requires("ring buffer invariant", infl_inv(o))
    yield [V_loc(o, "count_"), V_loc(o, "start_")]
    n, o = c.this, c.old
    i = o.count_ - n.count_
    c.ensures("C15", "nothing to free when empty", Implies(o.count_ == 0, z3.And(n.count_ == 0, n.start_ == o.start_)))
    f = infl_at(o, z3.IntVal(0))
    c.ensures("C15", "the first batch is freed", Implies(o.count_ > 0, i >= 1))
    c.ensures("C15", "exactly one when strictly increasing", Implies(z3.And(o.count_ > 1, infl_at(o, z3.IntVal(1)) > f), i == 1))
    free_post(c, o, n, f, i)


@contract("craft::Inflights::Full", props=["C15"])
def full(c):
    yield []
    c.ensures("*", "full iff count == capacity", c.result == (c.this.count_ == c.this.size_))


@contract("craft::Inflights::Count", props=["C15"])
def count(c):
    yield []
    c.ensures("*", "count", c.result == c.this.count_)


@contract("craft::Inflights::Reset", props=["C15"])
def reset(c):
    o = c.this
    yield [V_loc(o, "count_"), V_loc(o, "start_")]
    c.ensures("*", "empty", z3.And(c.this.count_ == 0, c.this.start_ == 0))
    c.ensures("*", "invariant kept", Implies(infl_inv(c.old), infl_inv(c.this)))


@contract("craft::Inflights::Inflights", nparams=2, props=["C15"])
def ctor(c):
    c.requires("capacity is not negative", c.arg(1) >= 0)
    yield []
    c.ensures("*", "starts empty with the given capacity", z3.And(c.this.count_ == 0, c.this.size_ == c.arg(1)))
    c.ensures("*", "invariant established", infl_inv(c.this))


# ---------------------------------------------------------------- C26
def pr_valid(p):
    return z3.And(p.next_ > p.match_, p.inflights_.has)


def pr_same(c, o, n, *but):
    for f in ("match_", "next_", "state_", "pending_snapshot_", "recent_active_", "probe_sent_", "is_learner_"):
        if f not in but:
            c.ensures("*", f + " unchanged", getattr(o, f) == getattr(n, f))


def infl_same(o, n):
    a, b = o.inflights_.star, n.inflights_.star
    return z3.And(a.count_ == b.count_, a.start_ == b.start_, a.size_ == b.size_)


def cleared(n):
    return z3.And(z3.Not(n.probe_sent_), n.inflights_.star.count_ == 0)


def st(c, x):
    return c.ctx.eng.prog.enumconst[x]


PROBE, REPL, SNAP = "kProbe", "kReplicate", "kSnapshot"


def flds(o, *fs):
    return [o._x.f(f) for f in fs]


def infl_state(o):
    x = o._x.f("inflights_").deref()
    return [x.f("count_"), x.f("start_")]


@contract("craft::Progress::ResetState", props=["C26"])
def reset_state(c):
    o = c.this
    c.requires("in-flight window exists", o.inflights_.has)
    yield flds(o, "probe_sent_", "pending_snapshot_", "state_") + infl_state(o)
    n = c.this
    c.ensures("*", "flag, pending snapshot and window cleared", z3.And(cleared(n), n.inflights_.star.start_ == 0, n.pending_snapshot_ == 0, n.state_ == c.arg(0)))


@contract("craft::Progress::BecomeProbe", props=["C26"])
def become_probe(c):
    o = c.this
    c.requires("in-flight window exists", o.inflights_.has)
    c.requires("match below the largest index", z3.And(o.match_ < U64 - 1, o.pending_snapshot_ < U64 - 1))
    yield flds(o, "probe_sent_", "pending_snapshot_", "state_", "next_") + infl_state(o)
    n, o = c.this, c.old
    snap = o.state_ == st(c, SNAP)
    c.ensures("*", "cleared", z3.And(cleared(n), n.inflights_.star.start_ == 0, n.pending_snapshot_ == 0, n.state_ == st(c, PROBE)))
    c.ensures("*", "next follows match (or the snapshot)", n.next_ == z3.If(z3.And(snap, o.pending_snapshot_ > o.match_), o.pending_snapshot_ + 1, o.match_ + 1))


@contract("craft::Progress::BecomeReplicate", props=["C26"])
def become_replicate(c):
    o = c.this
    c.requires("in-flight window exists", o.inflights_.has)
    c.requires("match below the largest index", o.match_ < U64 - 1)
    yield flds(o, "probe_sent_", "pending_snapshot_", "state_", "next_") + infl_state(o)
    n, o = c.this, c.old
    c.ensures("*", "cleared", z3.And(cleared(n), n.inflights_.star.start_ == 0, n.pending_snapshot_ == 0, n.state_ == st(c, REPL)))
    c.ensures("*", "next follows match", n.next_ == o.match_ + 1)


@contract("craft::Progress::BecomeSnapshot", props=["C26"])
def become_snapshot(c):
    o = c.this
    c.requires("in-flight window exists", o.inflights_.has)
    yield flds(o, "probe_sent_", "pending_snapshot_", "state_") + infl_state(o)
    n, o = c.this, c.old
    c.ensures("*", "cleared, pending at the given index", z3.And(cleared(n), n.inflights_.star.start_ == 0, n.pending_snapshot_ == c.arg(0), n.state_ == st(c, SNAP)))


@contract("craft::Progress::MaybeUpdate", props=["C26"])
def maybe_update(c):
    o = c.this
    i = c.arg(0)
    c.requires("index below the largest", i < U64 - 1)
    yield flds(o, "match_", "next_", "probe_sent_")
    n, o = c.this, c.old
    c.ensures("*", "match is the maximum", n.match_ == z3.If(i > o.match_, i, o.match_))
    c.ensures("*", "next is at least the acknowledged index + 1", n.next_ == z3.If(o.next_ > i + 1, o.next_, i + 1))
    c.ensures("*", "probe flag cleared only by news", n.probe_sent_ == z3.And(o.probe_sent_, i <= o.match_))
    c.ensures("*", "returns whether match advanced", c.result == (i > o.match_))
    c.ensures("C26", "next stays above match", Implies(o.next_ > o.match_, n.next_ > n.match_))


@contract("craft::Progress::MaybeDecrTo", props=["C26"])
def maybe_decr(c):
    o = c.this
    rej, hint = c.arg(0), c.arg(1)
    c.requires("match below next", z3.And(o.next_ > o.match_))
    yield flds(o, "next_", "probe_sent_")
    n, o = c.this, c.old
    repl = o.state_ == st(c, REPL)
    stale = z3.If(repl, rej <= o.match_, o.next_ - 1 != rej)
    c.ensures("*", "stale rejection reported", c.result == z3.Not(stale))
    c.ensures("*", "stale rejection ignored", Implies(stale, z3.And(n.next_ == o.next_, n.probe_sent_ == o.probe_sent_)))
    c.ensures("*", "replicating peer goes back to match + 1", Implies(z3.And(repl, z3.Not(stale)), z3.And(n.next_ == o.match_ + 1, n.probe_sent_ == o.probe_sent_)))
    h1 = z3.If(hint == U64 - 1, 0, hint + 1)
    low = z3.If(rej < h1, rej, h1)
    c.ensures("*", "probing peer goes to min(rejected, hint + 1) but stays above match",
              Implies(z3.And(z3.Not(repl), z3.Not(stale)), z3.And(n.next_ == z3.If(low > o.match_, low, o.match_ + 1), z3.Not(n.probe_sent_))))
    c.ensures("C26", "next stays above match", n.next_ > n.match_)
    c.ensures("C26", "next never rises", n.next_ <= o.next_)


@contract("craft::Progress::OptimisticUpdate", props=["C26"])
def optimistic(c):
    o = c.this
    c.requires("index below the largest", c.arg(0) < U64 - 1)
    yield flds(o, "next_")
    c.ensures("*", "next follows the sent entry", c.this.next_ == c.arg(0) + 1)


@contract("craft::Progress::ProbeAcked", props=["C26"])
def probe_acked(c):
    yield flds(c.this, "probe_sent_")
    c.ensures("*", "probe flag cleared", z3.Not(c.this.probe_sent_))


@contract("craft::Progress::IsPaused", props=["C16", "C26"])
def is_paused(c):
    o = c.this
    c.requires("in-flight window exists", o.inflights_.has)
    yield []
    n = c.this
    w = n.inflights_.star
    c.ensures("*", "paused", c.result == z3.If(n.state_ == st(c, PROBE), n.probe_sent_, z3.If(n.state_ == st(c, REPL), w.count_ == w.size_, z3.BoolVal(True))))


@contract("craft::Progress::Progress", nparams=6, props=["C26"])
def pr_ctor(c):
    c.requires("capacity is not negative", c.arg(3) >= 0)
    yield []
    n = c.this
    c.ensures("*", "fields", z3.And(n.match_ == c.arg(2), n.next_ == c.arg(1), n.state_ == st(c, PROBE), n.pending_snapshot_ == 0, n.recent_active_ == c.arg(5), z3.Not(n.probe_sent_), n.is_learner_ == c.arg(4), n.inflights_.has))
    c.ensures("*", "window empty", z3.And(n.inflights_.star.count_ == 0, n.inflights_.star.size_ == c.arg(3)))


# ---------------------------------------------------------------- C01: votes
@contract("craft::ProgressTracker::RecordVote", props=["C01"])
def record_vote(c):
    o = c.this
    i = c.arg(0)
    yield flds(o, "votes_")
    n, o = c.this, c.old
    x = z3.Int("x!v")
    om, nm = o.votes_, n.votes_
    c.ensures("C01", "voter recorded, others untouched", z3.ForAll([x], z3.And(nm.hask(x) == z3.Or(om.hask(x), x == i), Implies(om.hask(x), z3.Select(nm.val.lift.arrs[""], x) == z3.Select(om.val.lift.arrs[""], x)))))
    c.ensures("C01", "first vote counts", z3.Select(nm.val.lift.arrs[""], i) == z3.If(om.hask(i), z3.Select(om.val.lift.arrs[""], i), c.arg(1)))
    ov = om.val.lift.arrs[""]
    c.ensures("*", "exactly the first vote of each voter is recorded", z3.And(nm.mem == z3.Store(om.mem, i, z3.BoolVal(True)), nm.val.lift.arrs[""] == z3.If(om.hask(i), ov, z3.Store(ov, i, c.arg(1)))))


def joint_facts(c, J, vm, vv):
    """definition of the joint vote outcome over (voted, votes)"""
    c0, c1 = Q.half(c, J, 0), Q.half(c, J, 1)
    n0, n1 = c.ctx.card_facts(c0), c.ctx.card_facts(c1)

    def won(cfg, n):
        return z3.Or(n == 0, Q.CY(cfg, vm, vv, n) >= n / 2 + 1)

    def lost(cfg, n):
        return z3.And(n != 0, Q.CY(cfg, vm, vv, n) + Q.CM(cfg, vm, n) < n / 2 + 1)
    return z3.And(won(c0, n0), won(c1, n1)), z3.Or(lost(c0, n0), lost(c1, n1))


@contract("craft::ProgressTracker::TallyVotes", props=["C01"])
def tally(c):
    o = c.this
    c.requires("progress pointers are non-null", Q.prog_nonnull(c, o.progress_.val))
    vm, vv = o.votes_.mem, o.votes_.val.lift.arrs[""]
    won, lost = joint_facts(c, o.config_.voters, vm, vv)
    yield []
    r = c.result.f2
    K = c.ctx.eng.prog.enumconst
    c.ensures("*", "outcome of the recorded votes", z3.And((r == K[Q.WON]) == won, (r == K[Q.LOST]) == lost, z3.Or(r == K[Q.WON], r == K[Q.LOST], r == K[Q.PENDING])))


CONTRACTS += [x for x in Q.CONTRACTS if "VoteResult" in x.qname]
ABSTRACT = dict(Q.ABSTRACT)
