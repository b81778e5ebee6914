"""C05-C07, C10, C14, C16-C22, C25, C29: the Raft state machine over the contracts of its log, tracker and quorums."""
from contract import *
import spec_quorum as Q
import spec_tracker as T
import spec_util as U
import spec_log as L_
import spec_conf as K
import spec_readonly as RO_
from spec_readonly import RQ, RIS
from values import STR
from spec_log import BIG, ENTRY, SNAP, Log, eh

CONTRACTS = []
DEPS = L_.CONTRACTS + U.CONTRACTS + T.CONTRACTS + Q.CONTRACTS + K.CONTRACTS + RO_.CONTRACTS
PR, MSG = "craft::Progress", "raftpb::Message"
STEPS = ("craft::Raft::StepFollower", "craft::Raft::StepCandidate", "craft::Raft::StepLeader")
TICKS = ("craft::Raft::TickElection", "craft::Raft::TickHeartbeat")
ABSTRACT = dict(L_.ABSTRACT)


def setup(eng):
    for f in STEPS + TICKS:
        eng.fn_code(f)


def contract(q, **kw):
    def deco(fn):
        CONTRACTS.append(Contract(q, fn, **kw))
        return fn
    return deco


def ec(c, n):
    return c.ctx.eng.prog.enumconst[n]


def mh(c, f, st):
    return c.ctx.hget(st, MSG, "." + f)


def ph(c, f, st):
    return c.ctx.hget(st, PR, "." + f)


FOLLOWER, CANDIDATE, LEADER, PRECAND = "kFollower", "kCandidate", "kLeader", "kPreCandidate"


class R:
    """view of a Raft node in one state"""

    def __init__(self, c, v):
        self.c, self.v, self.st = c, v, v._st
        self._log = None

    def __getattr__(self, n):
        return getattr(self.v, n + "_")

    @property
    def log(self):
        if self._log is None:
            self._log = Log(self.c, self.v.raft_log_.star)
        return self._log

    @property
    def P(self):
        return self.v.trk_.progress_.mem

    @property
    def ref(self):
        return self.v.trk_.progress_.val.lift.arrs[""]

    def tracked(self, x):
        return z3.Select(self.P, x)

    def pr(self, x):
        return z3.Select(self.ref, x)

    def pf(self, f, x):
        return z3.Select(ph(self.c, f, self.st), self.pr(x))

    # outbox
    @property
    def M(self):
        return self.v.msgs_.arr

    @property
    def nm(self):
        return self.v.msgs_.len

    def mf(self, f, j):
        return z3.Select(mh(self.c, f, self.st), z3.Select(self.M, j))

    def leader(self):
        return self.v.state_ == ec(self.c, LEADER)

    def box_inv(self):
        j = z3.Int("j!bx")
        e = z3.Select(self.M, j)
        return z3.ForAll([j], Implies(z3.And(j >= 0, j < self.nm), z3.And(e > 0, e < self.st.alloc)), patterns=[e])

    def pm_inv(self, P=None, ref=None, lb=None):
        """the tracked peers: distinct objects, next above match, sound in-flight windows"""
        x = z3.Int("x!pi")
        P, ref = (self.P, self.ref) if P is None else (P, ref)
        r = z3.Select(ref, x)
        g = lambda f: z3.Select(ph(self.c, f, self.st), r)
        w = ".inflights_*."
        s, n, cap, ln = g("inflights_*.start_"), g("inflights_*.count_"), g("inflights_*.size_"), g("inflights_*.buffer_#")
        win = z3.And(s >= 0, n >= 0, cap >= 0, n <= cap, ln <= cap, ln >= 0, Implies(cap > 0, s < cap), Implies(cap == 0, s == 0), Or(s + n <= ln, ln == cap))
        return z3.And(K.pm_ok(self.c, P, ref, self.st, lb),
                      z3.ForAll([x], Implies(z3.Select(P, x), z3.And(g("next_") > g("match_"), g("match_") < BIG, g("next_") <= BIG, g("pending_snapshot_") < BIG, g("match_") >= 0, g("pending_snapshot_") >= 0, win)), patterns=[r]))

    def base(self):
        """everything but the progress map"""
        c, v = self.c, self.v
        S = V(c.ctx, self.st, self.log.S.snap, ("ptr", ("struct", SNAP)))
        return z3.And(v.id_ != 0, v.raft_log_.has, v.read_only_.has, self.log.inv(), self.box_inv(), v.trk_.max_inflight_ >= 0, v.term_ < BIG,
                      Implies(self.log.S.snap != 0, S.metadata.index < BIG - 1))

    def roles(self):
        c, v = self.c, self.v
        s = v.state_
        return z3.And(Or(*[s == ec(c, q) for q in (LEADER, CANDIDATE, PRECAND, FOLLOWER)]), Implies(Or(s == ec(c, LEADER), s == ec(c, CANDIDATE)), v.term_ > 0),
                      Implies(s != ec(c, LEADER), v.lead_transferee_ == 0),
                      Implies(Or(s == ec(c, CANDIDATE), s == ec(c, PRECAND)), self.tracked(v.id_)))

    def inv(self):
        return z3.And(self.base(), self.pm_inv(), self.roles())

    @property
    def rq(self):
        return RQ(self.c, self.v.read_only_.star)

    @property
    def postponed(self):
        return self.v.pending_read_index_messages_

    def ro_inv(self):
        """pending and postponed reads are well-formed requests"""
        j = z3.Int("j!pp")
        p = self.postponed
        e = z3.Select(p.arr, j)
        return z3.And(self.rq.inv(), p.len >= 0, z3.ForAll([j], Implies(z3.And(j >= 0, j < p.len), RO_.request_ok(self.rq, e)), patterns=[e]))

    def not_requested(self, m):
        """the message m is not a pending or postponed read"""
        j = z3.Int("j!nq")
        x = z3.Const("s!nq", STR)
        p, q = self.postponed, self.rq
        e = z3.Select(p.arr, j)
        return z3.And(z3.ForAll([j], Implies(z3.And(j >= 0, j < p.len), e != m), patterns=[e]), z3.ForAll([x], Implies(z3.Select(q.P, x), q.req(x) != m), patterns=[q.status(x)]))

    def wired(self):
        """the step and tick functions match the role"""
        c, v, s = self.c, self.v, self.v.state_
        fc = c.ctx.eng.fn_code
        cand = Or(s == ec(c, CANDIDATE), s == ec(c, PRECAND))
        return z3.And(v.step_ == z3.If(s == ec(c, LEADER), fc(STEPS[2]), z3.If(cand, fc(STEPS[1]), fc(STEPS[0]))),
                      v.tick_ == z3.If(s == ec(c, LEADER), fc(TICKS[1]), fc(TICKS[0])))


def rn(c):
    return R(c, c.this)


def ro(c):
    return R(c, c.old)


def fl(c, *fs):
    return [c.this._x.f(f) for f in fs]


# ---------------------------------------------------------------- sending
VOTES = ("MsgVote", "MsgVoteResp", "MsgPreVote", "MsgPreVoteResp")


def is_type(c, t, *names):
    return Or(*[t == ec(c, n) for n in names])


def stamped(c, r, j, term=None):
    """message j of the outbox carries a sender and the right term"""
    t, tm = r.mf("type", j), r.mf("term", j)
    return z3.And(r.mf("from", j) != 0, z3.If(is_type(c, t, *VOTES), tm != 0, z3.If(is_type(c, t, "MsgProp", "MsgReadIndex"), tm == 0, tm == (term if term is not None else r.v.term_))))


# jobs that take longest start first
COST = {"craft::Raft::StepLeader": 100, "craft::Raft::Step": 60, "craft::Raft::StepCandidate": 50, "craft::Raft::StepFollower": 40, "craft::Raft::HandleSnapshot": 30, "craft::Raft::BecomeLeader": 30, "craft::Raft::Campaign": 30, "craft::Raft::AppendEntry(EntryPtrs)": 20}

@contract("craft::Raft::Send", props=["C22"])
def send(c):
    r = rn(c)
    m = c.arg(0)
    t = m.type
    vote = is_type(c, t, *VOTES)
    c.requires("a message", m.val != 0)
    c.requires("own id is set", r.id != 0)
    c.nofatal = z3.If(vote, m.term != 0, m.term == 0)
    yield fl(c, "msgs_") + [m.star._x.f("from"), m.star._x.f("term")]
    n, o = rn(c), ro(c)
    om, m = c.oldarg(0), c.arg(0)
    j = z3.Int("j!sd")
    c.ensures("*", "the outbox grows by the message", z3.And(n.nm == o.nm + 1, z3.Select(n.M, o.nm) == m.val, z3.ForAll([j], Implies(z3.And(j >= 0, j < o.nm), z3.Select(n.M, j) == z3.Select(o.M, j)), patterns=[z3.Select(n.M, j)])))
    c.ensures("*", "sender is the own id unless set", m.__getattr__("from") == z3.If(om.__getattr__("from") == 0, o.id, om.__getattr__("from")))
    c.ensures("*", "votes carry their own non-zero term, proposals and read requests none, everything else the current term",
              z3.If(vote, z3.And(om.term != 0, m.term == om.term), z3.And(om.term == 0, m.term == z3.If(is_type(c, t, "MsgProp", "MsgReadIndex"), 0, o.term))))


def frm(m):
    return m.__getattr__("from")


# ---------------------------------------------------------------- small helpers
@contract("craft::GetProgress", nparams=2, props=["C16", "C20", "C07"], total=True)
def get_progress0(c):
    yield []
    p, x = c.arg(0), c.arg(1)
    c.ensures("*", "the tracked object or null", c.result.val == z3.If(p.hask(x), z3.Select(p.val.lift.arrs[""], x), 0))


@contract("craft::ProgressTracker::GetProgress", props=["C16", "C20"], total=True)
def get_progress(c):
    yield []
    p, x = c.this.progress_, c.arg(0)
    c.ensures("*", "the tracked object or null", c.result.val == z3.If(p.hask(x), z3.Select(p.val.lift.arrs[""], x), 0))


@contract("craft::Raft::PastElectionTimeout", props=["C29"], total=True)
def past_timeout(c):
    yield []
    c.ensures("*", "elapsed ticks reach the randomised timeout", c.result == (rn(c).election_elapsed >= rn(c).randomized_election_timeout))


def timeouts_ok(r):
    return z3.And(r.election_timeout >= 1, r.election_timeout < 2 ** 31, r.heartbeat_timeout >= 1, r.heartbeat_timeout < 2 ** 31)


def randomised(r):
    return z3.And(r.randomized_election_timeout >= r.election_timeout, r.randomized_election_timeout <= 2 * r.election_timeout - 1)


@contract("craft::Raft::ResetRandomizedElectionTimeout", props=["C29"], total=True)
def reset_timeout(c):
    c.requires("sane timeouts", timeouts_ok(rn(c)))
    yield fl(c, "randomized_election_timeout_")
    c.ensures("*", "between one and two election timeouts", randomised(rn(c)))


def promotable(r):
    u = r.log.U
    return z3.And(r.tracked(r.id), Not(r.pf("is_learner_", r.id)), Not(z3.And(u.snap != 0, u.sidx != 0)))


@contract("craft::Raft::Promotable", props=["C29"], total=True)
def c_promotable(c):
    r = rn(c)
    c.requires("a log and well-formed progress", z3.And(r.raft_log.has, K.pm_ok(c, r.P, r.ref, r.st)))
    yield []
    c.ensures("*", "a tracked voter without pending snapshot", c.result == promotable(rn(c)))


@contract("craft::Raft::LoadState", props=["C05"])
def load_state(c):
    r = rn(c)
    c.requires("a log", r.raft_log.has)
    c.requires("the log is well-formed", r.log.inv())
    s = c.arg(0)
    c.nofatal = z3.And(s.commit >= r.log.committed, s.commit <= r.log.last)
    yield fl(c, "term_", "vote_") + [r.v.raft_log_.star._x.f("committed_")]
    n, o = rn(c), ro(c)
    c.ensures("*", "term, vote and commit are the stored ones", z3.And(n.term == s.term, n.vote == s.vote, n.log.committed == s.commit))
    c.ensures("*", "the log stays well-formed", n.log.inv())


@contract("craft::Raft::NumOfPendingConf", props=["C29"], total=True)
def num_pending(c):
    E, m = L_.refs(c, 0)
    j = z3.Int("j!np")
    ty = eh(c, "type", c.cur)
    conf = lambda i: Or(z3.Select(ty, z3.Select(E, i)) == ec(c, "EntryConfChange"), z3.Select(ty, z3.Select(E, i)) == ec(c, "EntryConfChangeV2"))
    c.requires("entries are non-null", z3.ForAll([j], Implies(z3.And(j >= 0, j < m), z3.Select(E, j) != 0), patterns=[z3.Select(E, j)]))

    def tmpl(L):
        for nm, a, b in Q.int_locals(L):
            yield nm + " counts", z3.And(b >= 0, b <= L.k, (b == 0) == z3.ForAll([j], Implies(z3.And(j >= 0, j < L.k), Not(conf(j))), patterns=[z3.Select(E, j)]))
    c.loops(tmpl)
    yield []
    c.ensures("*", "zero iff there is no configuration change", z3.And(c.result >= 0, (c.result == 0) == z3.ForAll([j], Implies(z3.And(j >= 0, j < m), Not(conf(j))), patterns=[z3.Select(E, j)])))


PSUM = z3.Function("SUM_PAYLOAD", U.AI, z3.ArraySort(INT, STR), INT, INT)     # (entry refs, payloads, n): total payload of the first n


def psum_unfold(A, D, n):
    return [PSUM(A, D, z3.IntVal(0)) == 0, Implies(n >= 0, z3.And(PSUM(A, D, n + 1) == PSUM(A, D, n) + STRLEN(z3.Select(D, z3.Select(A, n))))),
            z3.And(STRLEN(z3.Select(D, z3.Select(A, n))) >= 0, STRLEN(z3.Select(D, z3.Select(A, n))) < 2 ** 31)]


def payload_loop(c, E, m, D):
    def tmpl(L):
        S = PSUM(E, D, L.k)
        for nm, a, b in Q.int_locals(L):
            yield nm + "=payload", b == a + S
        yield "payload bound", z3.And(S >= 0, S <= L.k * 2 ** 31, L.k <= m)
    c.loops(tmpl)
    c.hints(lambda L, k, ex: psum_unfold(E, D, k))


def nonnull_entries(c, E, m, below=None):
    j = z3.Int("j!nn")
    e = z3.Select(E, j)
    return z3.ForAll([j], Implies(z3.And(j >= 0, j < m), e > 0 if below is None else z3.And(e > 0, e < below)), patterns=[e])


@contract("craft::Raft::IncreaseUncommittedSize", props=["C21"], total=True)
def increase(c):
    r = rn(c)
    E, m = L_.refs(c, 0)
    D = eh(c, "data", c.cur)
    c.requires("entries are non-null", nonnull_entries(c, E, m))
    c.requires("less than 2^63 bytes are uncommitted", r.uncommitted_size < 2 ** 63)
    payload_loop(c, E, m, D)
    yield fl(c, "uncommitted_size_")
    n, o = rn(c), ro(c)
    for h in psum_unfold(E, D, z3.IntVal(0)):
        c.define(h)
    s = PSUM(E, D, m)
    refuse = z3.And(o.uncommitted_size > 0, s > 0, o.uncommitted_size + s > o.max_uncommitted_size)
    c.ensures("*", "total payload is not negative", z3.And(s >= 0, s <= m * 2 ** 31))
    c.ensures("*", "refused exactly when the quota is in use and would be exceeded", c.result == Not(refuse))
    c.ensures("*", "the tracked size grows by the payload of an accepted proposal", n.uncommitted_size == z3.If(refuse, o.uncommitted_size, o.uncommitted_size + s))


@contract("craft::Raft::ReduceUncommittedSize", props=["C21"], total=True)
def reduce(c):
    r = rn(c)
    E, m = L_.refs(c, 0)
    D = eh(c, "data", c.cur)
    c.requires("entries are non-null", nonnull_entries(c, E, m))
    payload_loop(c, E, m, D)
    yield fl(c, "uncommitted_size_")
    n, o = rn(c), ro(c)
    for h in psum_unfold(E, D, z3.IntVal(0)):
        c.define(h)
    s = PSUM(E, D, m)
    c.ensures("*", "never below zero and never raised", z3.And(n.uncommitted_size >= 0, n.uncommitted_size <= o.uncommitted_size))
    c.ensures("*", "lowered by the payload, never below zero", Implies(s >= 0, n.uncommitted_size == z3.If(s > o.uncommitted_size, 0, o.uncommitted_size - s)))


@contract("craft::Util::MakeEntries", props=["C21", "C03"], total=True)
def make_entries(c):
    m = c.arg(0)
    c.requires("a message", m.val != 0)
    N = m.entries.len
    o_ = {f: c.ctx.hget(c.cur, MSG, ".entries[]." + f) for f in ("term", "index", "type", "data")}
    ref = m.val
    j = z3.Int("j!me")

    def same(st, A, k):
        e = z3.Select(A, j)
        return z3.ForAll([j], Implies(z3.And(j >= 0, j < k), z3.And(e >= c.ctx.frame.alloc if c.mode == "verify" else True, *[z3.Select(eh(c, f, st), e) == z3.Select(z3.Select(o_[f], ref), j) for f in o_])), patterns=[e])

    def grow(A, k, lb, al):
        i = z3.Int("i!me")
        return z3.And(z3.ForAll([j], Implies(z3.And(j >= 0, j < k), z3.And(z3.Select(A, j) >= lb, z3.Select(A, j) < al, z3.Select(A, j) > 0)), patterns=[z3.Select(A, j)]),
                      z3.ForAll([i, j], Implies(z3.And(i >= 0, i < j, j < k), z3.Select(A, i) < z3.Select(A, j)), patterns=[z3.MultiPattern(z3.Select(A, i), z3.Select(A, j))]))

    def tmpl(L):
        for nm, t, loc in K.scan(L):
            if t[0] == "seq" and t[1] == ("ptr", ("struct", ENTRY)):
                v = L.ctx.load(loc, L.cur)
                if isinstance(v.lift, LArr):
                    A = v.lift.arrs[""]
                    yield nm + " length", v.len == L.k
                    yield nm + " copies", same(L.cur, A, L.k)
                    yield nm + " fresh", grow(A, L.k, c.ctx.frame.alloc, L.cur.alloc)
        mm = V(L.ctx, L.cur, c._args[0], ("ptr", ("struct", MSG)))
        yield "message length", mm.entries.len == N
        yield "not past the end", L.k <= N
        yield "rest of the message", z3.And(*[z3.ForAll([j], Implies(z3.And(j >= L.k), z3.Select(z3.Select(c.ctx.hget(L.cur, MSG, ".entries[]." + f), ref), j) == z3.Select(z3.Select(o_[f], ref), j)), patterns=[z3.Select(z3.Select(c.ctx.hget(L.cur, MSG, ".entries[]." + f), ref), j)]) for f in o_])
    c.loops(tmpl)
    yield [m.star._x.f("entries"), ("fresh", ENTRY)]
    Rs = c.result
    A = Rs.arr
    c.ensures("*", "as many entries as the message has", z3.And(Rs.len == N, c.arg(0).entries.len == N))
    e = z3.Select(A, j)
    c.ensures("*", "equal to the message's entries", z3.ForAll([j], Implies(z3.And(j >= 0, j < N), z3.And(*[z3.Select(eh(c, f, c.cur), e) == z3.Select(z3.Select(o_[f], ref), j) for f in o_])), patterns=[e, z3.Select(z3.Select(o_["type"], ref), j)]))
    c.ensures("*", "new distinct objects", grow(A, N, c.pre.alloc, c.cur.alloc))


# ---------------------------------------------------------------- outbox
SENT = [("fresh", MSG)]


def grown(o, n, k=None):
    """the outbox of n is that of o plus messages at its end (k: exactly k)"""
    j = z3.Int("j!gr")
    return z3.And(n.nm >= o.nm if k is None else n.nm == o.nm + k,
                  z3.ForAll([j], Implies(z3.And(j >= 0, j < o.nm), z3.Select(n.M, j) == z3.Select(o.M, j)), patterns=[z3.Select(n.M, j)]))


def fresh_new(c, o, n):
    """every new message is an object created since"""
    j = z3.Int("j!fn")
    return z3.ForAll([j], Implies(z3.And(j >= o.nm, j < n.nm), z3.And(z3.Select(n.M, j) >= o.st.alloc, z3.Select(n.M, j) < n.st.alloc)), patterns=[z3.Select(n.M, j)])


def new_stamped(c, o, n, term=None):
    j = z3.Int("j!ns")
    return z3.ForAll([j], Implies(z3.And(j >= o.nm, j < n.nm), stamped(c, n, j, term)), patterns=[z3.Select(n.M, j)])


def new_types(c, o, n, *names):
    """every new message is of one of these types"""
    j = z3.Int("j!nt")
    return z3.ForAll([j], Implies(z3.And(j >= o.nm, j < n.nm), is_type(c, n.mf("type", j), *names)), patterns=[z3.Select(n.M, j)])


STATE = ("term_", "vote_", "state_", "is_learner_", "lead_", "lead_transferee_", "pending_conf_index_", "uncommitted_size_", "election_elapsed_", "heartbeat_elapsed_", "randomized_election_timeout_",
         "tick_", "step_", "read_states_", "msgs_", "pending_read_index_messages_", "read_only_")


def leaves_equal(c, a, b):
    """two views of the same place in two states are equal"""
    x, y = a._c.load(a._x, a._st), b._c.load(b._x, b._st)
    t = a._c.typeof(a._x)
    if z3.is_expr(x):
        return x == y
    return z3.And(*[p == q for (_, p, _), (_, q, _) in zip(a._c.flat(x, t), a._c.flat(y, t))])


def heap_same(c, o, n, q=PR):
    return z3.And(*[c.ctx.hget(n.st, q, f) == c.ctx.hget(o.st, q, f) for f, so, lt in c.ctx.ty.leaves(("struct", q))])


def same_fields(c, o, n, fields):
    L = lambda r, f: V(c.ctx, r.st, r.v._x.f(f), c.ctx.ty.ftype("craft::Raft", f))
    return z3.And(*[leaves_equal(c, L(o, f), L(n, f)) for f in fields])


def same_tracker(c, o, n):
    L = lambda r, f: V(c.ctx, r.st, r.v._x.f("trk_").f(f), c.ctx.ty.ftype("craft::ProgressTracker", f))
    return z3.And(heap_same(c, o, n), *[leaves_equal(c, L(o, f), L(n, f)) for f in ("config_", "progress_", "votes_")])


def same_log(c, o, n):
    u, w = o.log.U, n.log.U
    return z3.And(o.log.committed == n.log.committed, u.off == w.off, u.n == w.n, u.A == w.A, u.snap == w.snap)


def same(c, o, n, but=()):
    """nothing but the given fields changes ("log" and "trk" stand for the log and the tracker)"""
    fs = [same_fields(c, o, n, [f for f in STATE if f not in but])]
    if "log" not in but:
        fs.append(same_log(c, o, n))
    if "trk" not in but:
        fs.append(same_tracker(c, o, n))
    return z3.And(*fs)


def tracked_pr(c, r, x):
    """the progress object of x as a view"""
    return V(c.ctx, r.st, Loc(("h", PR, r.pr(x))), ("struct", PR))


def pr_loc(r, x):
    return Loc(("h", PR, r.pr(x)))


def infl_last(c, p):
    w = p.inflights_.star
    return T.infl_at(w, w.count_ - 1)


def paused(c, p):
    w = p.inflights_.star
    return z3.If(p.state_ == ec(c, T.PROBE), p.probe_sent_, z3.If(p.state_ == ec(c, T.REPL), w.count_ == w.size_, z3.BoolVal(True)))


@contract("craft::Raft::SendTimeoutNow", props=["C20", "C22"], total=True)
def send_timeout_now(c):
    r = rn(c)
    c.requires("well-formed node", r.base())
    yield fl(c, "msgs_") + SENT
    n, o = rn(c), ro(c)
    c.ensures("*", "node stays well-formed", n.base())
    c.ensures("*", "one new message", z3.And(grown(o, n, 1), fresh_new(c, o, n), n.nm == o.nm + 1))
    c.ensures("C22 C20", "stamped", stamped(c, n, o.nm))
    c.ensures("*", "the signal to campaign now", n.mf("type", o.nm) == ec(c, "MsgTimeoutNow"))
    c.ensures("C20", "to the given node", n.mf("to", o.nm) == c.arg(0))


@contract("craft::Raft::SendHeartbeat", props=["C18", "C22", "C17"], total=True)
def send_heartbeat(c):
    r = rn(c)
    x = c.arg(0)
    c.requires("well-formed node", r.base())
    c.requires("a tracked peer", z3.And(r.tracked(x), r.pr(x) != 0))
    yield fl(c, "msgs_") + SENT
    n, o = rn(c), ro(c)
    c.ensures("*", "node stays well-formed", n.base())
    j = o.nm
    c.ensures("*", "one new message", z3.And(grown(o, n, 1), fresh_new(c, o, n), n.nm == o.nm + 1))
    c.ensures("C22", "stamped", stamped(c, n, j))
    c.ensures("*", "a heartbeat", n.mf("type", j) == ec(c, "MsgHeartbeat"))
    c.ensures("C18 C17", "to the peer with the context", z3.And(n.mf("to", j) == x, n.mf("context", j) == c.arg(1)))
    mt = o.pf("match_", x)
    c.ensures("C18 C17", "commit is the smaller of the peer's match and the own commit index", n.mf("commit", j) == z3.If(mt < o.log.committed, mt, o.log.committed))


def msg_entries(c, st, ref, f):
    return z3.Select(mh(c, "entries[]." + f, st), ref)


def msg_nents(c, st, ref):
    return z3.Select(mh(c, "entries#", st), ref)


def moved(c, p, q):
    """what sending may do to a peer's progress (p before, q after: field name -> value)"""
    repl, snap = ec(c, T.REPL), ec(c, T.SNAP)
    return z3.And(q("next_") >= p("next_"), Or(q("state_") == p("state_"), q("state_") == snap), Implies(p("state_") != repl, q("next_") == p("next_")), Implies(q("state_") == p("state_"), q("pending_snapshot_") == p("pending_snapshot_")))


def all_moved(c, o, n):
    x = z3.Int("x!am")
    return z3.ForAll([x], Implies(o.tracked(x), moved(c, lambda f: o.pf(f, x), lambda f: n.pf(f, x))), patterns=[o.pr(x)])


@contract("craft::Raft::MaybeSendAppend", props=["C16", "C22", "C26"])
def maybe_send_append(c):
    r = rn(c)
    x = c.arg(0)
    c.requires("well-formed node", r.base())
    c.requires("well-formed progress", r.pm_inv())
    c.requires("a tracked peer", r.tracked(x))

    def tmpl(L):
        for nm, t, loc in K.scan(L):
            if t == ("ptr", ("struct", MSG)):
                ref = L.ctx.load(loc, L.cur)
                for nm2, t2, loc2 in K.scan(L):
                    if t2[0] == "seq" and t2[1] == ("ptr", ("struct", ENTRY)):
                        A = L.ctx.load(loc2, L.cur).lift.arrs[""]
                        yield nm + " entries so far", msg_nents(c, L.cur, ref) == L.k
                        i = z3.Int("i!sa")
                        for f in ("index", "term", "type", "data"):
                            e = z3.Select(msg_entries(c, L.cur, ref, f), i)
                            yield nm + " copies " + f, z3.ForAll([i], Implies(z3.And(i >= 0, i < L.k), e == z3.Select(eh(c, f, L.cur), z3.Select(A, i))), patterns=[e, z3.Select(A, i)])
    c.loops(tmpl)
    yield fl(c, "msgs_") + SENT + [pr_loc(r, x)]
    n, o = rn(c), ro(c)
    p, q = tracked_pr(c, o, x), tracked_pr(c, n, x)
    q = V(c.ctx, n.st, Loc(("h", PR, o.pr(x))), ("struct", PR))
    res, j = c.result, o.nm
    ref = z3.Select(n.M, j)
    l = o.log
    nx = p.next_
    ne = msg_nents(c, c.cur, ref)
    app, snap = n.mf("type", j) == ec(c, "MsgApp"), n.mf("type", j) == ec(c, "MsgSnap")
    st_ = lambda k: p.state_ == ec(c, k)
    pz = paused(c, p)
    c.ensures("*", "node stays well-formed", n.base())
    c.ensures("*", "sends at most one message", z3.And(grown(o, n, z3.If(res, 1, 0)), fresh_new(c, o, n)))
    c.ensures("C22", "stamped", new_stamped(c, o, n))
    c.ensures("*", "progress stays well-formed", n.pm_inv())
    c.ensures("*", "match, role and activity unchanged", z3.And(p.match_ == q.match_, p.is_learner_ == q.is_learner_, p.recent_active_ == q.recent_active_))
    c.ensures("C26", "sending never moves next back and leaves the state or waits for a snapshot", moved(c, lambda f: getattr(p, f), lambda f: getattr(q, f)))
    same = z3.And(q.next_ == p.next_, q.state_ == p.state_, q.probe_sent_ == p.probe_sent_, q.pending_snapshot_ == p.pending_snapshot_, q.inflights_.star.count_ == p.inflights_.star.count_, q.inflights_.star.start_ == p.inflights_.star.start_)
    c.ensures("C16", "nothing is sent to a paused peer", Implies(pz, Not(res)))
    c.ensures("C16", "nothing sent, nothing changes", Implies(Not(res), same))
    c.ensures("C16", "an unpaused peer is sent what it lacks", Implies(z3.And(Not(pz), Or(c.arg(1), nx <= l.last), nx >= l.first), res))
    c.ensures("*", "appends and snapshots", new_types(c, o, n, "MsgApp", "MsgSnap"))
    c.ensures("C16", "an append or a snapshot to the peer", Implies(res, z3.And(Or(app, snap), n.mf("to", j) == x)))
    c.ensures("C16", "a snapshot only for compacted entries and an active peer", Implies(z3.And(res, snap), z3.And(nx < l.first, p.recent_active_)))
    c.ensures("C16", "an append only within the log", Implies(z3.And(res, app), nx >= l.first))
    c.ensures("C16", "the previous entry", Implies(z3.And(res, app), z3.And(n.mf("index", j) == nx - 1, n.mf("logterm", j) == l.term0(nx - 1))))
    c.ensures("C16", "the own commit index", Implies(z3.And(res, app), n.mf("commit", j) == l.committed))
    i = z3.Int("i!sa")
    c.ensures("C16", "number of entries", Implies(z3.And(res, app), z3.And(ne >= 0, ne <= z3.If(nx <= l.last, l.last + 1 - nx, 0), (ne == 0) == (nx > l.last))))
    for f in ("index", "term", "type", "data"):
        e = z3.Select(msg_entries(c, c.cur, ref, f), i)
        c.ensures("C16", "the log's entries from next on (%s)" % f, Implies(z3.And(res, app), z3.ForAll([i], Implies(z3.And(i >= 0, i < ne), e == z3.Select(eh(c, f, c.pre), l.ent(nx + i))), patterns=[e])))
    c.ensures("C16", "an empty append changes no progress", Implies(z3.And(res, app, ne == 0), same))
    w, v = p.inflights_.star, q.inflights_.star
    c.ensures("C16", "replicating: next moves past the entries, which are in flight", Implies(z3.And(res, app, ne > 0, st_(T.REPL)), z3.And(q.next_ == nx + ne, q.state_ == p.state_, v.count_ == w.count_ + 1, infl_last(c, q) == nx + ne - 1)))
    c.ensures("C16", "probing: paused until an answer", Implies(z3.And(res, app, ne > 0, st_(T.PROBE)), z3.And(q.probe_sent_, q.next_ == nx, q.state_ == p.state_)))
    sn = V(c.ctx, c.pre, z3.If(l.hassnap, l.U.snap, l.S.snap), ("ptr", ("struct", SNAP)))
    sm = sn.metadata
    c.ensures("C16", "the log's snapshot, not empty", Implies(z3.And(res, snap), z3.And(sn.val != 0, sm.index != 0, n.mf("snapshot.metadata.index", j) == sm.index, n.mf("snapshot.metadata.term", j) == sm.term, n.mf("snapshot.data", j) == sn.data)))
    c.ensures("C16", "the peer waits for the snapshot", Implies(z3.And(res, snap), z3.And(q.state_ == ec(c, T.SNAP), q.pending_snapshot_ == sm.index, q.next_ == p.next_)))


@contract("craft::Raft::SendAppend", props=["C16", "C22", "C26"])
def send_append(c):
    r = rn(c)
    x = c.arg(0)
    c.requires("well-formed node", r.base())
    c.requires("well-formed progress", r.pm_inv())
    c.requires("a tracked peer", r.tracked(x))
    yield fl(c, "msgs_") + SENT + [pr_loc(r, x)]
    n, o = rn(c), ro(c)
    p = tracked_pr(c, o, x)
    q = V(c.ctx, n.st, Loc(("h", PR, o.pr(x))), ("struct", PR))
    l = o.log
    c.ensures("*", "node stays well-formed", n.base())
    c.ensures("*", "sends at most one message", z3.And(grown(o, n), n.nm <= o.nm + 1, fresh_new(c, o, n)))
    c.ensures("C22", "stamped", new_stamped(c, o, n))
    c.ensures("*", "progress stays well-formed", n.pm_inv())
    c.ensures("*", "match, role and activity unchanged", z3.And(p.match_ == q.match_, p.is_learner_ == q.is_learner_, p.recent_active_ == q.recent_active_))
    c.ensures("C26", "sending never moves next back and leaves the state or waits for a snapshot", moved(c, lambda f: getattr(p, f), lambda f: getattr(q, f)))
    c.ensures("*", "appends and snapshots", new_types(c, o, n, "MsgApp", "MsgSnap"))
    c.ensures("C16", "an unpaused peer is sent an append even without entries", Implies(z3.And(Not(paused(c, p)), p.next_ >= l.first), n.nm == o.nm + 1))
    c.ensures("C16", "nothing to a paused peer", Implies(paused(c, p), n.nm == o.nm))


# ---------------------------------------------------------------- broadcasting
def loop_states(c, L):
    this = ("struct", "craft::Raft")
    return R(c, V(L.ctx, L.pre, c._this, this)), R(c, V(L.ctx, L.cur, c._this, this))


def pr_kept(c, o, n, *fields):
    """every tracked peer keeps its object and these fields"""
    x = z3.Int("x!pk")
    return z3.ForAll([x], Implies(o.tracked(x), z3.And(*[z3.Select(ph(c, f, n.st), o.pr(x)) == z3.Select(ph(c, f, o.st), o.pr(x)) for f in fields])), patterns=[o.pr(x)])


KEEP = ("match_", "is_learner_", "recent_active_")


def send_rel(c, o, n):
    """what sending to peers may do"""
    yield "*", "node stays well-formed", n.base()
    yield "*", "progress stays well-formed", n.pm_inv()
    yield "*", "the outbox only grows", grown(o, n)
    yield "*", "new messages are new objects", fresh_new(c, o, n)
    yield "*", "match, role and activity unchanged", pr_kept(c, o, n, *KEEP)
    yield "*", "appends and snapshots", new_types(c, o, n, "MsgApp", "MsgSnap")
    yield "C26", "sending never moves next back and leaves the state or waits for a snapshot", all_moved(c, o, n)
    yield "C22", "stamped", new_stamped(c, o, n)


def send_loops(c, extra=None):
    def tmpl(L):
        o, n = loop_states(c, L)
        for t, nm, f in send_rel(c, o, n):
            if c.relevant(t.split()):
                yield nm, f
        if extra:
            yield from extra(L, o, n)
    c.loops(tmpl)


def ens(c, rels):
    for t, nm, f in rels:
        c.ensures(t, nm, f)


SEND_MODS = SENT + [("heap", PR)]


@contract("craft::Raft::BcastAppend", props=["C16", "C22", "C26"])
def bcast_append(c):
    r = rn(c)
    c.requires("well-formed node", z3.And(r.base(), r.pm_inv()))
    send_loops(c)
    yield fl(c, "msgs_") + SEND_MODS
    n, o = rn(c), ro(c)
    ens(c, send_rel(c, o, n))


def beats(c, o, n, ctx, upto=None):
    """every new message is a heartbeat with the right commit index to a tracked peer other than the node itself"""
    j = z3.Int("j!bt")
    to = n.mf("to", j)
    mt = o.pf("match_", to)
    return z3.ForAll([j], Implies(z3.And(j >= o.nm, j < n.nm), z3.And(n.mf("type", j) == ec(c, "MsgHeartbeat"), o.tracked(to), to != o.id, n.mf("context", j) == ctx,
                                  n.mf("commit", j) == z3.If(mt < o.log.committed, mt, o.log.committed))), patterns=[z3.Select(n.M, j)])


def beat_rel(c, o, n, ctx):
    yield "*", "node stays well-formed", n.base()
    yield "*", "the outbox only grows", grown(o, n)
    yield "*", "new messages are new objects", fresh_new(c, o, n)
    yield "*", "heartbeats", new_types(c, o, n, "MsgHeartbeat")
    yield "C22", "stamped", new_stamped(c, o, n)
    yield "C18 C17", "heartbeats to the other tracked peers", beats(c, o, n, ctx)


@contract("craft::Raft::BcastHeartbeatWithCtx", props=["C18", "C22", "C17"], total=True)
def bcast_heartbeat_ctx(c):
    r = rn(c)
    c.requires("well-formed node", z3.And(r.base(), K.pm_ok(c, r.P, r.ref, r.st)))
    x = c.arg(0)

    def tmpl(L):
        o, n = loop_states(c, L)
        for t, nm, f in beat_rel(c, o, n, x):
            yield nm, f
        if L.node and L.key is not None:
            # every peer enumerated so far, except the node itself, got one
            g, j = z3.Ints("g!bh j!bh")
            yield "one each", n.nm == o.nm + L.k - z3.If(z3.And(o.tracked(o.id), posn(o.P, o.id) < L.k), 1, 0)
    c.loops(tmpl)
    yield fl(c, "msgs_") + SENT
    n, o = rn(c), ro(c)
    ens(c, beat_rel(c, o, n, x))
    c.ensures("C17 C18 C29", "one to each of them", n.nm == o.nm + c.ctx.card_facts(o.P) - z3.If(o.tracked(o.id), 1, 0))


@contract("craft::Raft::BcastHeartbeat", props=["C18", "C22", "C17"], total=True)
def bcast_heartbeat(c):
    r = rn(c)
    c.requires("well-formed node", z3.And(r.base(), K.pm_ok(c, r.P, r.ref, r.st)))
    q = r.read_only.star.read_index_queue_
    x = z3.If(q.len == 0, strconst(""), z3.Select(q.arr, q.len - 1))
    yield fl(c, "msgs_") + SENT
    n, o = rn(c), ro(c)
    ens(c, beat_rel(c, o, n, x))
    c.ensures("C17 C18 C29", "one to each of them", n.nm == o.nm + c.ctx.card_facts(o.P) - z3.If(o.tracked(o.id), 1, 0))


# ---------------------------------------------------------------- roles
def fresh_progress(c, o, n, x, term=None):
    """the new progress object of x after a reset"""
    l = o.log.last
    g = lambda f: z3.Select(ph(c, f, n.st), n.pr(x))
    return z3.And(n.pr(x) >= o.st.alloc, n.pr(x) < n.st.alloc, g("match_") == z3.If(x == o.id, l, 0), g("next_") == l + 1, g("is_learner_") == o.pf("is_learner_", x), Not(g("recent_active_")),
                  Not(g("probe_sent_")), g("pending_snapshot_") == 0, g("state_") == ec(c, T.PROBE), g("inflights_!"),
                  g("inflights_*.start_") == 0, g("inflights_*.count_") == 0, g("inflights_*.buffer_#") == 0, g("inflights_*.size_") == o.v.trk_.max_inflight_)


def reset_progress(c, o, n):
    x = z3.Int("x!rp")
    return z3.ForAll([x], Implies(o.tracked(x), fresh_progress(c, o, n, x)), patterns=[n.pr(x)])


RESET = ("term_", "vote_", "lead_", "election_elapsed_", "heartbeat_elapsed_", "randomized_election_timeout_", "lead_transferee_", "pending_conf_index_", "uncommitted_size_", "read_only_")


def reset_mods(c, *more):
    return fl(c, *(RESET + more)) + [c.this.trk_._x.f("votes_"), c.this.trk_._x.f("progress_"), ("fresh", PR)]


def no_pending(r):
    x = z3.Const("x!np", STR)
    P = r.rq.P
    return z3.ForAll([x], Not(z3.Select(P, x)), patterns=[z3.Select(P, x)])


def reset_rel(c, o, n, term, lead):
    yield "*", "the term is the given one; the vote is kept only within a term", z3.And(n.term == term, n.vote == z3.If(o.term == term, o.vote, 0))
    yield "*", "leader", n.lead == lead
    yield "*", "timers restart with a new random timeout", z3.And(n.election_elapsed == 0, n.heartbeat_elapsed == 0, randomised(n))
    yield "*", "a pending transfer is abandoned", n.lead_transferee == 0
    y = z3.Int("y!rv")
    yield "*", "votes are forgotten", z3.ForAll([y], Not(z3.Select(n.v.trk_.votes_.mem, y)), patterns=[z3.Select(n.v.trk_.votes_.mem, y)])
    yield "*", "quota and pending change index restart", z3.And(n.pending_conf_index == 0, n.uncommitted_size == 0)
    yield "*", "members are kept", n.P == o.P
    yield "*", "replication progress starts over", reset_progress(c, o, n)
    yield "*", "distinct new objects", K.pm_ok(c, n.P, n.ref, n.st)
    q = n.read_only.star
    yield "*", "pending reads are dropped", z3.And(n.read_only.has, q.read_index_queue_.len == 0, no_pending(n), q.option_ == o.read_only.star.option_)


@contract("craft::Raft::Reset", props=["C05", "C20", "C29", "C26"], total=True)
def c_reset(c):
    r = rn(c)
    c.requires("well-formed node", z3.And(r.base(), r.pm_inv(), timeouts_ok(r)))
    c.requires("room for terms and entries", z3.And(c.arg(0) < BIG, r.log.last < BIG - 1))
    x = z3.Int("x!rs")

    def tmpl(L):
        o, n = loop_states(c, L)
        if L.node and L.key is not None:
            P = o.P
            done = z3.And(o.tracked(x), posn(P, x) < L.k)
            yield "members", n.P == P
            yield "those seen start over", z3.ForAll([x], Implies(done, z3.And(n.pr(x) >= c.ctx.frame.alloc, n.pr(x) < n.st.alloc, fresh_progress(c, o, n, x))), patterns=[n.pr(x)])
            y = z3.Int("y!rs")
            yield "those seen are distinct", z3.ForAll([x, y], Implies(z3.And(done, o.tracked(y), posn(P, y) < L.k, x != y), n.pr(x) != n.pr(y)), patterns=[z3.MultiPattern(n.pr(x), n.pr(y))])
            yield "the others are as before", z3.ForAll([x], Implies(Not(done), n.pr(x) == o.pr(x)), patterns=[n.pr(x)])
    c.loops(tmpl)
    yield reset_mods(c)
    n, o = rn(c), ro(c)
    ens(c, reset_rel(c, o, n, c.arg(0), 0))
    c.ensures("*", "node stays well-formed", n.base())
    c.ensures("*", "progress stays well-formed", n.pm_inv())


def become_rel(c, o, n, term, lead, role):
    yield from reset_rel(c, o, n, term, lead)
    yield "*", "role", n.state == ec(c, role)
    yield "*", "node stays well-formed", n.base()
    yield "*", "progress stays well-formed", n.pm_inv()
    yield "*", "step and tick functions match the role", n.wired()


def room(c, r, k=2):
    return z3.And(r.base(), r.pm_inv(), timeouts_ok(r), r.log.last < BIG - k)


@contract("craft::Raft::BecomeFollower", props=["C05", "C20", "C29"], total=True)
def become_follower(c):
    r = rn(c)
    c.requires("well-formed node", room(c, r))
    c.requires("room for terms", c.arg(0) < BIG)
    yield reset_mods(c, "state_", "step_", "tick_")
    n, o = rn(c), ro(c)
    ens(c, become_rel(c, o, n, c.arg(0), c.arg(1), FOLLOWER))


@contract("craft::Raft::BecomeCandidate", props=["C05", "C20", "C29"])
def become_candidate(c):
    r = rn(c)
    c.requires("well-formed node", room(c, r))
    c.requires("room for terms", r.term < BIG - 1)
    c.nofatal = Not(r.leader())
    yield reset_mods(c, "state_", "step_", "tick_")
    n, o = rn(c), ro(c)
    for t, nm, f in become_rel(c, o, n, o.term + 1, 0, CANDIDATE):
        if nm.startswith("the term is"):
            f = z3.And(n.term == o.term + 1, n.vote == o.id)
        c.ensures(t, nm, f)
    c.ensures("*", "only a non-leader", Not(o.leader()))


@contract("craft::Raft::BecomePreCandidate", props=["C19", "C05"])
def become_precandidate(c):
    r = rn(c)
    c.requires("well-formed node", room(c, r))
    c.nofatal = Not(r.leader())
    yield fl(c, "lead_", "state_", "step_", "tick_") + [c.this.trk_._x.f("votes_")]
    n, o = rn(c), ro(c)
    y = z3.Int("y!rv")
    c.ensures("*", "no leader, a new role", z3.And(n.lead == 0, n.state == ec(c, PRECAND)))
    c.ensures("*", "votes are forgotten", z3.ForAll([y], Not(z3.Select(n.v.trk_.votes_.mem, y)), patterns=[z3.Select(n.v.trk_.votes_.mem, y)]))
    c.ensures("*", "step and tick functions match the role", n.wired())
    c.ensures("*", "only a non-leader", Not(o.leader()))


# ---------------------------------------------------------------- commitment
def quor(c, r, v):
    """index v is matched by a quorum of each non-empty half of the configuration"""
    J = r.v.trk_.config_.voters
    c0, c1 = Q.half(c, J, 0), Q.half(c, J, 1)
    n0, n1 = c.ctx.card_facts(c0), c.ctx.card_facts(c1)
    a = Q.match_array(c.ctx, ph(c, "match_", r.st), r.ref)
    f = lambda cfg, n: Or(n == 0, Q.CA(cfg, r.P, a, v, n) >= n / 2 + 1)
    return z3.And(f(c0, n0), f(c1, n1))


def committed_ok(c, o, n):
    """a raised commit index is held by a quorum and has an entry of the current term"""
    k = n.log.committed
    return Implies(k != o.log.committed, z3.And(k > o.log.committed, k <= n.log.last, quor(c, n, k), n.log.term(k) == n.term))


def log_only(c, *fs):
    """fields of the log that change"""
    x = c.this.raft_log_.star
    out = []
    for f in fs:
        out.append(x._x.f(f) if f in ("committed_", "applied_") else x.unstable_._x.f(f))
    return out


@contract("craft::Raft::MaybeCommit", props=["C07"], total=True)
def maybe_commit(c):
    r = rn(c)
    c.requires("well-formed node", r.base())
    c.requires("well-formed progress", r.pm_inv())
    c.requires("a real term", r.term > 0)
    yield log_only(c, "committed_")
    n, o = rn(c), ro(c)
    k = o.log.committed
    m = z3.Int("m!mc")
    J = o.v.trk_.config_.voters
    c.ensures("*", "node stays well-formed", n.base())
    c.ensures("*", "says whether the commit index rose", z3.And(c.result == (n.log.committed > k), n.log.committed >= k, n.log.committed <= n.log.last, Implies(n.log.committed > k, n.log.term(n.log.committed) == n.term)))
    c.ensures("C07", "only to an index held by a quorum with an entry of the current term", committed_ok(c, o, n))
    a = Q.match_array(c.ctx, ph(c, "match_", o.st), o.ref)
    c0, c1 = Q.half(c, J, 0), Q.half(c, J, 1)
    c.ensures("C07", "the largest index held by a quorum is committed if its entry has the current term", z3.ForAll([m], Implies(z3.And(m > k, m <= o.log.last, quor(c, o, m), Not(quor(c, o, m + 1)), o.log.term(m) == o.term), n.log.committed == m), patterns=[Q.CA(c0, o.P, a, m, c.ctx.card_facts(c0))]))


# ---------------------------------------------------------------- proposing
def log_refs_below(c, l, lb):
    """the log's entry objects lie below lb"""
    i, j = z3.Ints("i!lb j!lb")
    return z3.And(z3.ForAll([i], Implies(z3.And(i >= l.S.first, i <= l.S.last), z3.Select(l.S.ents, i) < lb), patterns=[z3.Select(l.S.ents, i)]),
                  z3.ForAll([j], Implies(z3.And(j >= 0, j < l.U.n), z3.Select(l.U.A, j) < lb), patterns=[z3.Select(l.U.A, j)]))


def log_same(o, n):
    """the unstable part (and so the log) did not change"""
    return z3.And(n.log.U.off == o.log.U.off, n.log.U.n == o.log.U.n, L_.kept_from(o.log.U.A, o.log.U.n, n.log.U.A, n.log.U.n, z3.IntVal(0)))


def log_prefix(o, n, upto=None):
    """the old entries are unchanged"""
    i = z3.Int("i!lp")
    return z3.ForAll([i], Implies(z3.And(i >= o.log.first - 1, i <= (o.log.last if upto is None else upto)), z3.And(n.log.term(i) == o.log.term(i), n.log.ent(i) == o.log.ent(i))))


def append_rel(c, o, n, E, m, res):
    """AppendEntry of the m entries E"""
    l = o.log.last
    j = z3.Int("j!ae")
    e = z3.Select(E, j)
    inr = z3.And(j >= 0, j < m)
    yield "*", "node stays well-formed", n.base()
    yield "*", "progress stays well-formed", n.pm_inv()
    yield "*", "refused: nothing changes", Implies(Not(res), z3.And(log_same(o, n), n.log.committed == o.log.committed, n.uncommitted_size == o.uncommitted_size, n.pf("match_", n.id) == o.pf("match_", n.id), n.pf("next_", n.id) == o.pf("next_", n.id), n.pf("probe_sent_", n.id) == o.pf("probe_sent_", n.id)))
    yield "*", "accepted: the log grows by the entries", Implies(res, z3.And(n.log.last == l + m, n.log.first == o.log.first, z3.ForAll([j], Implies(inr, z3.And(n.log.ent(l + 1 + j) == e, n.log.term(l + 1 + j) == o.term)), patterns=[e])))
    yield "*", "accepted: numbered from the end of the log, with the current term", Implies(res, z3.ForAll([j], Implies(inr, z3.And(z3.Select(eh(c, "index", n.st), e) == l + 1 + j, z3.Select(eh(c, "term", n.st), e) == o.term)), patterns=[e]))
    yield "*", "content of the entries is kept", z3.ForAll([j], Implies(inr, z3.And(*[z3.Select(eh(c, f, n.st), e) == z3.Select(eh(c, f, o.st), e) for f in ("data", "type")])), patterns=[e])
    yield "*", "the entries before are untouched", log_prefix(o, n)
    yield "C28", "the unstable entries grow at their end", Implies(res, z3.And(n.log.U.off == o.log.U.off, n.log.U.n == o.log.U.n + m, z3.ForAll([j], Implies(z3.And(j >= 0, j < o.log.U.n), z3.Select(n.log.U.A, j) == z3.Select(o.log.U.A, j)), patterns=[z3.Select(n.log.U.A, j)])))
    yield "*", "the own match index is the last index", Implies(res, z3.And(n.pf("match_", n.id) == z3.If(o.pf("match_", n.id) > l + m, o.pf("match_", n.id), l + m), n.pf("next_", n.id) == z3.If(o.pf("next_", n.id) > l + m + 1, o.pf("next_", n.id), l + m + 1)))
    yield "*", "the rest of the own progress is kept", z3.And(*[n.pf(f, n.id) == o.pf(f, n.id) for f in ("is_learner_", "recent_active_", "state_", "pending_snapshot_")])
    yield "*", "commit index only rises, to an entry of this term", z3.And(n.log.committed >= o.log.committed, Implies(n.log.committed > o.log.committed, n.log.term(n.log.committed) == n.term))
    yield "C07", "commits only what a quorum holds", committed_ok(c, o, n)
    s = PSUM(E, eh(c, "data", o.st), m)
    refuse = z3.And(o.uncommitted_size > 0, s > 0, o.uncommitted_size + s > o.max_uncommitted_size)
    yield "*", "total payload is not negative", z3.And(s >= 0, s <= m * 2 ** 31)
    yield "*", "refused exactly when the quota is in use and would be exceeded", res == Not(refuse)
    yield "*", "the tracked size grows by the payload of an accepted proposal", n.uncommitted_size == z3.If(refuse, o.uncommitted_size, o.uncommitted_size + s)


def append_req(c, r, E, m):
    j, i = z3.Ints("j!aq i!aq")
    c.requires("well-formed node", z3.And(r.base(), r.pm_inv()))
    c.requires("a member in a real term", z3.And(r.tracked(r.id), r.term > 0))
    c.requires("room for the entries", z3.And(r.log.last + m < BIG - 2, m >= 0, r.uncommitted_size < 2 ** 63))
    e0 = z3.Select(E, 0)
    c.requires("new distinct entry objects", z3.And(z3.ForAll([j], Implies(z3.And(j >= 0, j < m), z3.And(z3.Select(E, j) >= e0, z3.Select(E, j) > 0, z3.Select(E, j) < r.st.alloc)), patterns=[z3.Select(E, j)]),
               z3.ForAll([i, j], Implies(z3.And(i >= 0, i < j, j < m), z3.Select(E, i) < z3.Select(E, j)), patterns=[z3.MultiPattern(z3.Select(E, i), z3.Select(E, j))])))
    c.requires("that the log does not hold yet", Implies(m > 0, log_refs_below(c, r.log, e0)))


@contract("craft::Raft::AppendEntry", typ="EntryPtrs", props=["C21", "C07", "C10"], total=True)
def append_entry(c):
    r = rn(c)
    E, m = L_.refs(c, 0)
    append_req(c, r, E, m)
    e0 = z3.Select(E, 0)
    l = r.log.last
    lb = z3.If(m > 0, e0, r.st.alloc)

    def tmpl(L):
        j = z3.Int("j!ae")
        e = z3.Select(E, j)
        g = lambda f, st: z3.Select(eh(c, f, st), e)
        yield "numbered so far", z3.ForAll([j], Implies(z3.And(j >= 0, j < L.k, j < m), z3.And(g("index", L.cur) == l + 1 + j, g("term", L.cur) == r.term)), patterns=[e])
        q = z3.Int("q!ae")
        for f in ("index", "term", "data", "type"):
            a, b = eh(c, f, L.pre), eh(c, f, L.cur)
            yield "older entries keep " + f, z3.ForAll([q], Implies(q < lb, z3.Select(a, q) == z3.Select(b, q)), patterns=[z3.Select(b, q)])
    c.loops(tmpl)
    yield log_only(c, "committed_", "entries_", "offset_") + fl(c, "uncommitted_size_") + [pr_loc(r, r.id), ("above", ENTRY, lb)]
    n, o = rn(c), ro(c)
    for h in psum_unfold(E, eh(c, "data", o.st), z3.IntVal(0)):
        c.define(h)
    ens(c, append_rel(c, o, n, E, m, c.result))


# ---------------------------------------------------------------- elections
def votes_won(c, r):
    """the recorded votes win the election"""
    v = r.v.trk_.votes_
    return T.joint_facts(c, r.v.trk_.config_.voters, v.mem, v.val.lift.arrs[""])[0]


def lead_mods(c):
    return reset_mods(c, "state_", "step_", "tick_") + log_only(c, "committed_", "entries_", "offset_") + [("fresh", ENTRY)]


@contract("craft::Raft::BecomeLeader", props=["C05", "C07", "C20", "C29", "C10"])
def become_leader(c):
    r = rn(c)
    c.requires("well-formed node", room(c, r, 8))
    c.requires("a member in a real term", z3.And(r.tracked(r.id), r.term > 0))
    c.requires("the election is won", votes_won(c, r))
    c.nofatal = r.state != ec(c, FOLLOWER)
    yield lead_mods(c)
    n, o = rn(c), ro(c)
    l = o.log.last
    for t, nm, f in become_rel(c, o, n, o.term, o.id, LEADER):
        if nm == "quota and pending change index restart":
            f = z3.And(n.pending_conf_index == l, n.uncommitted_size == 0)
        if nm == "replication progress starts over":
            x = z3.Int("x!rp")
            f = z3.ForAll([x], Implies(z3.And(o.tracked(x), x != o.id), fresh_progress(c, o, n, x)), patterns=[n.pr(x)])
        c.ensures(t, nm, f)
    c.ensures("*", "the own progress is up to date", z3.And(n.pf("match_", n.id) == l + 1, n.pf("state_", n.id) == ec(c, T.REPL), n.pf("is_learner_", n.id) == o.pf("is_learner_", o.id)))
    c.ensures("*", "an empty entry of the new term is appended", z3.And(n.log.last == l + 1, n.log.first == o.log.first, n.log.term(l + 1) == n.term, n.log.committed >= o.log.committed))
    c.ensures("*", "the entries before are untouched", log_prefix(o, n))
    c.ensures("*", "commit index only rises, to an entry of this term", z3.And(n.log.committed >= o.log.committed, Implies(n.log.committed > o.log.committed, n.log.term(n.log.committed) == n.term)))
    c.ensures("C07", "commits only what a quorum holds", committed_ok(c, o, n))
    c.ensures("*", "not from the follower role", o.state != ec(c, FOLLOWER))


def voter_halves(c, J):
    return Q.half(c, J, 0), Q.half(c, J, 1)


@contract("craft::ProgressTracker::VoterNodes", props=["C19", "C06"], total=True)
def voter_nodes(c):
    I, O = voter_halves(c, c.this.config_.voters)
    j = z3.Int("j!vn")

    def tmpl(L):
        for nm, t, loc in K.scan(L):
            if t[0] == "seq" and t[1][0] == "int":
                v = L.ctx.load(loc, L.cur)
                if isinstance(v.lift, LArr):
                    A = v.lift.arrs[""]
                    yield nm + " are voters", z3.ForAll([j], Implies(z3.And(j >= 0, j < v.len), Or(z3.Select(I, z3.Select(A, j)), z3.Select(O, z3.Select(A, j)))), patterns=[z3.Select(A, j)])
                    yield nm + " counts", v.len == L.k
    c.loops(tmpl)
    yield []
    R = c.result
    e = z3.Select(R.arr, j)
    c.ensures("*", "voters of one of the halves", z3.ForAll([j], Implies(z3.And(j >= 0, j < R.len), Or(z3.Select(I, e), z3.Select(O, e))), patterns=[e]))


def voted(o, x, yes):
    """the recorded votes (members, answers) after x voted"""
    v = o.v.trk_.votes_
    mem, val = v.mem, v.val.lift.arrs[""]
    return z3.Store(mem, x, z3.BoolVal(True)), z3.If(z3.Select(mem, x), val, z3.Store(val, x, yes))


@contract("craft::Raft::Poll", props=["C01"], total=True)
def poll(c):
    r = rn(c)
    c.requires("well-formed progress", K.pm_ok(c, r.P, r.ref, r.st))
    yield [c.this.trk_._x.f("votes_")]
    n, o = rn(c), ro(c)
    om, nm = o.v.trk_.votes_, n.v.trk_.votes_
    x, i = z3.Int("x!v"), c.arg(0)
    om_, nm_ = om.mem, nm.mem
    ov, nv = om.val.lift.arrs[""], nm.val.lift.arrs[""]
    c.ensures("C01", "voter recorded, others untouched", z3.ForAll([x], z3.And(z3.Select(nm_, x) == Or(z3.Select(om_, x), x == i), Implies(z3.Select(om_, x), z3.Select(nv, x) == z3.Select(ov, x))), patterns=[z3.Select(nm_, x), z3.Select(nv, x)]))
    c.ensures("C01", "first vote counts", z3.Select(nv, i) == z3.If(z3.Select(om_, i), z3.Select(ov, i), c.arg(2)))
    won, lost = T.joint_facts(c, n.v.trk_.config_.voters, nm_, nv)
    c.ensures("*", "exactly the first vote of each voter is recorded", z3.And(*[a == b for a, b in zip((nm_, nv), voted(o, i, c.arg(2)))]))
    res = c.result.f2
    c.ensures("*", "outcome of the recorded votes", z3.And((res == ec(c, Q.WON)) == won, (res == ec(c, Q.LOST)) == lost, Or(*[res == ec(c, q) for q in (Q.WON, Q.LOST, Q.PENDING)])))


def campaign_mods(c):
    return lead_mods(c) + fl(c, "msgs_") + SENT


TRANSFER = "CampaignTransfer"


def vote_requests(c, o, n, term, typ, ctx_transfer):
    """every new message asks for a vote and describes the own log truthfully"""
    j = z3.Int("j!vr")
    l = o.log
    return z3.ForAll([j], Implies(z3.And(j >= o.nm, j < n.nm), z3.And(n.mf("type", j) == typ, n.mf("term", j) == term, n.mf("from", j) == o.id, n.mf("to", j) != o.id, n.mf("index", j) == l.last, n.mf("logterm", j) == l.lastterm,
                                  (n.mf("context", j) == strconst(TRANSFER)) == ctx_transfer, Implies(Not(ctx_transfer), n.mf("context", j) == strconst("")))), patterns=[z3.Select(n.M, j)])


def campaign_rel(c, o, n, pre, transfer):
    st = n.state
    isl, isp, isc = [st == ec(c, q) for q in (LEADER, PRECAND, CANDIDATE)]
    yield "*", "node stays well-formed", n.base()
    yield "*", "progress stays well-formed", n.pm_inv()
    yield "*", "step and tick functions match the role", n.wired()
    yield "*", "the outbox only grows", grown(o, n)
    yield "*", "new messages are new objects", fresh_new(c, o, n)
    yield "C22", "stamped", new_stamped(c, o, n)
    yield "*", "a pre-candidate changes neither term nor vote; a candidate starts a new term with its own vote", z3.If(isp, z3.And(pre, n.term == o.term, n.vote == o.vote), z3.And(Or(isc, isl), n.term == o.term + 1, n.vote == o.id))
    yield "*", "leader", n.lead == z3.If(isl, o.id, 0)
    yield "*", "a pre-candidate keeps its timers, others restart with a random timeout", z3.If(isp, z3.And(n.election_elapsed == o.election_elapsed, n.heartbeat_elapsed == o.heartbeat_elapsed, n.randomized_election_timeout == o.randomized_election_timeout), z3.And(n.election_elapsed == 0, n.heartbeat_elapsed == 0, randomised(n)))
    yield "*", "a pending transfer is abandoned on a new term", n.lead_transferee == z3.If(isp, o.lead_transferee, 0)
    yield "*", "members are kept", n.P == o.P
    yield "*", "a pre-candidate keeps the replication progress", Implies(isp, n.ref == o.ref)
    yield "*", "the log only grows, by an entry of the new leader", z3.And(n.log.first == o.log.first, n.log.last == o.log.last + z3.If(isl, 1, 0), n.log.committed >= o.log.committed, Implies(isl, n.log.term(n.log.last) == n.term), Implies(Not(isl), z3.And(n.log.committed == o.log.committed, log_same(o, n))))
    yield "*", "the entries before are untouched", log_prefix(o, n)
    yield "*", "quota and pending change index", Implies(isl, z3.And(n.uncommitted_size == 0, n.pending_conf_index == o.log.last))
    yield "C07", "commits only what a quorum holds", committed_ok(c, o, n)
    yield "*", "vote requests", new_types(c, o, n, "MsgVote", "MsgPreVote")
    yield "C06 C19 C20", "vote requests describe the own log", vote_requests(c, o, n, o.term + 1, z3.If(isp, ec(c, "MsgPreVote"), ec(c, "MsgVote")), transfer)
    yield "*", "roles", n.roles()
    yield "*", "a pre-candidate keeps pending reads, a new term drops them", z3.If(isp, same_queue(c, o, n), z3.And(n.rq.nq == 0, no_pending(n)))


@contract("craft::Raft::Campaign", props=["C05", "C06", "C19", "C20", "C22", "C29"])
def campaign(c):
    r = rn(c)
    t = c.arg(0)
    c.requires("well-formed node", z3.And(room(c, r, 10), r.roles()))
    c.requires("a member", r.tracked(r.id))
    c.requires("room for terms", r.term < BIG - 4)
    c.nofatal = Not(r.leader())
    pre, transfer = t == ec(c, "kPreElection"), t == ec(c, "kTransfer")

    def tmpl(L):
        o, n = loop_states(c, L)
        yield "base", n.base()
        yield "grown", grown(o, n)
        yield "fresh", fresh_new(c, o, n)
        yield "types", new_types(c, o, n, "MsgVote", "MsgPreVote")
        if c.relevant(("C22",)):
            yield "stamped", new_stamped(c, o, n)
        if c.relevant(("C06", "C19", "C20")):
            yield "requests", vote_requests(c, o, n, z3.If(pre, o.term + 1, o.term), z3.If(pre, ec(c, "MsgPreVote"), ec(c, "MsgVote")), transfer)
    c.loops(tmpl)
    yield campaign_mods(c)
    n, o = rn(c), ro(c)
    ens(c, campaign_rel(c, o, n, pre, transfer))
    c.ensures("*", "only a non-leader", Not(o.leader()))


def hup_req(c, r):
    c.requires("well-formed node", z3.And(room(c, r, 10), r.roles(), r.wired()))
    c.requires("room for terms", r.term < BIG - 4)


def no_pending_conf(c, r):
    i = z3.Int("i!pc")
    l = r.log
    plain = lambda e: z3.And(*[z3.Select(eh(c, "type", r.st), e) != ec(c, q) for q in ("EntryConfChange", "EntryConfChangeV2")])
    u = l.U
    inr = lambda i: z3.And(i > l.applied, i <= l.committed)
    return z3.And(z3.ForAll([i], Implies(z3.And(inr(i), i < u.off), plain(z3.Select(l.S.ents, i))), patterns=[z3.Select(l.S.ents, i)]),
                  z3.ForAll([i], Implies(z3.And(inr(u.off + i), i >= 0), plain(z3.Select(u.A, i))), patterns=[z3.Select(u.A, i)]))


def hup_rel(c, o, n, pre, transfer):
    may = z3.And(Not(o.leader()), promotable(o))
    keep = same(c, o, n)
    yield "*", "a leader or a node that may not campaign does nothing", Implies(Not(may), keep)
    if c.relevant(("C29",)):
        yield "C29", "a voting member without a pending snapshot or configuration change campaigns", Implies(z3.And(may, no_pending_conf(c, o)), z3.And(z3.Or(n.leader(), n.state == ec(c, CANDIDATE), z3.And(pre, n.state == ec(c, PRECAND))), Or(n.term == o.term + 1, z3.And(pre, n.state == ec(c, PRECAND)))))
    for t, nm, f in campaign_rel(c, o, n, pre, transfer):
        yield t, "nothing happens or " + nm, Or(keep, f)


@contract("craft::Raft::Hup", props=["C05", "C06", "C19", "C20", "C22", "C29"])
def hup(c):
    r = rn(c)
    t = c.arg(0)
    hup_req(c, r)
    pre, transfer = t == ec(c, "kPreElection"), t == ec(c, "kTransfer")
    yield campaign_mods(c)
    n, o = rn(c), ro(c)
    ens(c, hup_rel(c, o, n, pre, transfer))
    c.ensures("*", "node stays well-formed", z3.And(n.base(), n.pm_inv(), n.roles(), n.wired()))


# ---------------------------------------------------------------- follower
def one_answer(c, o, n, typ, to):
    """one new message of the given type to the sender"""
    j = o.nm
    yield "*", "one answer", z3.And(grown(o, n, 1), fresh_new(c, o, n), n.mf("type", j) == ec(c, typ))
    yield "*", "answers are of this type", new_types(c, o, n, typ)
    yield "*", "to the sender", n.mf("to", j) == to
    yield "C22", "stamped", new_stamped(c, o, n)


def app_ok(c, r, m):
    """an append message: consecutive entries after its index, with real terms"""
    st, ref = r.st, m.val
    i = z3.Int("i!ao")
    ix, tm = msg_entries(c, st, ref, "index"), msg_entries(c, st, ref, "term")
    N = msg_nents(c, st, ref)
    return z3.And(m.index < BIG - 1, N >= 0, m.index + N < BIG - 2, z3.ForAll([i], Implies(z3.And(i >= 0, i < N), z3.And(z3.Select(ix, i) == m.index + 1 + i, z3.Select(tm, i) > 0)), patterns=[z3.Select(ix, i)]),
                  Or(m.logterm > 0, r.log.inr(m.index)))


def commit_rel(c, o, n):
    i = z3.Int("i!cr")
    yield "*", "commit index never falls and stays within the log", z3.And(n.log.committed >= o.log.committed, n.log.committed <= n.log.last)
    yield "C04", "nothing at or below the commit index changes", z3.ForAll([i], Implies(z3.And(i >= o.log.first - 1, i >= n.log.first - 1, i <= o.log.committed), z3.And(n.log.term(i) == o.log.term(i), i <= n.log.last)))


def log_mods(c):
    return log_only(c, "committed_", "entries_", "offset_")


def handle_app_rel(c, o, n, m):
    """m: the message before"""
    j = o.nm
    l, k = o.log, n.log
    N = msg_nents(c, o.st, m.val)
    idx = m.index
    old = idx < l.committed
    match = z3.And(Not(old), l.inr(idx), l.term(idx) == m.logterm)
    tm = msg_entries(c, o.st, m.val, "term")
    i = z3.Int("i!ha")
    yield "*", "node stays well-formed", n.base()
    yield from one_answer(c, o, n, "MsgAppResp", frm(m))
    yield "*", "first index unchanged", k.first == l.first
    yield "*", "only an append on a matching prefix changes the log", Implies(Not(match), z3.And(log_same(o, n), k.committed == l.committed))
    yield from commit_rel(c, o, n)
    yield "C03", "every given entry is in the log", Implies(match, z3.And(k.last >= idx + N, z3.ForAll([i], Implies(z3.And(i >= 0, i < N), k.term(idx + 1 + i) == z3.Select(tm, i)), patterns=[z3.Select(tm, i)])))
    tc = z3.If(m.commit < idx + N, m.commit, idx + N)
    yield "C03 C04", "commit index raised to the given one, bounded by the last new entry", Implies(match, k.committed == z3.If(tc > l.committed, tc, l.committed))
    yield "C03", "the answer accepts exactly a matching or already committed prefix", n.mf("reject", j) == z3.And(Not(old), Not(match))
    yield "C03", "and reports the last index of the append or the commit index", n.mf("index", j) == z3.If(old, l.committed, z3.If(match, idx + N, idx))


@contract("craft::Raft::HandleAppendEntries", props=["C03", "C04", "C05", "C22"])
def handle_append(c):
    r = rn(c)
    m = c.arg(0)
    c.requires("well-formed node", r.base())
    c.requires("a message", z3.And(m.val > 0, m.val < r.st.alloc))
    c.requires("a well-formed append", app_ok(c, r, m))
    yield fl(c, "msgs_") + log_mods(c) + [m.star._x.f("entries"), ("fresh", ENTRY)] + SENT
    n, o = rn(c), ro(c)
    ens(c, handle_app_rel(c, o, n, c.oldarg(0)))


def handle_beat_rel(c, o, n, m):
    j = o.nm
    yield "*", "node stays well-formed", n.base()
    yield from one_answer(c, o, n, "MsgHeartbeatResp", frm(m))
    yield "*", "the commit index is raised to the given one, never lowered", n.log.committed == z3.If(m.commit > o.log.committed, m.commit, o.log.committed)
    yield "C18 C17", "the answer has the same context", n.mf("context", j) == m.context
    yield "C18", "and goes to the sender", n.mf("to", j) == frm(m)


@contract("craft::Raft::HandleHearbeat", props=["C18", "C04", "C05", "C17", "C22"])
def handle_beat(c):
    r = rn(c)
    m = c.arg(0)
    c.requires("well-formed node", r.base())
    c.requires("a message", z3.And(m.val > 0, m.val < r.st.alloc))
    yield fl(c, "msgs_") + log_only(c, "committed_") + SENT
    n, o = rn(c), ro(c)
    ens(c, handle_beat_rel(c, o, n, c.oldarg(0)))


# ---------------------------------------------------------------- configuration and snapshots
CONF = "raftpb::ConfState"
LISTS = ("voters", "voters_outgoing", "learners", "learners_next")


def conf_member(cs, x):
    """x is named in one of the lists that make a member"""
    j = z3.Int("j!cm")
    return Or(*[z3.Exists([j], z3.And(j >= 0, j < cs.__getattr__(f).len, z3.Select(cs.__getattr__(f).arr, j) == x)) for f in ("voters", "learners", "voters_outgoing")])


@contract("craft::MajorityConfig::Slice", props=["C09"], total=True)
def major_slice(c):
    cfg = c.this.config_.mem
    j = z3.Int("j!ms")

    def tmpl(L):
        for nm, t, loc in K.scan(L):
            if t[0] == "seq" and t[1][0] == "int":
                v = L.ctx.load(loc, L.cur)
                if isinstance(v.lift, LArr):
                    A = v.lift.arrs[""]
                    yield nm + " length", v.len == L.k
                    yield nm + " enumerates", z3.ForAll([j], Implies(z3.And(j >= 0, j < L.k), z3.Select(A, j) == enum(cfg, j)), patterns=[z3.Select(A, j)])
    c.loops(tmpl)
    yield []
    R_ = c.result
    e = z3.Select(R_.arr, j)
    i, x = z3.Int("i!ms"), z3.Int("x!ms")
    c.ensures("*", "as many as there are voters", R_.len == c.ctx.card_facts(cfg))
    c.ensures("*", "voters only", z3.ForAll([j], Implies(z3.And(j >= 0, j < R_.len), z3.Select(cfg, e)), patterns=[e]))


@contract("craft::ProgressTracker::ConfState", props=["C09"], total=True)
def conf_state(c):
    cfg = c.this.config_
    I, O = voter_halves(c, cfg.voters)
    sets = {"voters": I, "voters_outgoing": O, "learners": cfg.learners.mem, "learners_next": cfg.learners_next.mem}
    j = z3.Int("j!cs")

    def only(v, f):
        e = z3.Select(v.arr, j)
        return z3.ForAll([j], Implies(z3.And(j >= 0, j < v.len), z3.Select(sets[f], e)), patterns=[e])

    def tmpl(L):
        for nm, t, loc in K.scan(L):
            if t == ("struct", CONF):
                for f in LISTS:
                    a, b = [V(L.ctx, s, loc, t).__getattr__(f) for s in (L.pre, L.cur)]
                    yield f + " grows", b.len == a.len + L.k
                    yield f + " members", only(b, f)
    c.loops(tmpl)
    yield []
    for f in LISTS:
        v = c.result.__getattr__(f)
        c.ensures("*", f + " are the configuration's", z3.And(v.len == c.ctx.card_facts(sets[f]), only(v, f)))
    c.ensures("*", "auto-leave", c.result.auto_leave == cfg.auto_leave)


@contract("craft::operator==", typ="ConfState", trusted="comparison of two configuration states has no effect (its result is only used in an assert)")
def conf_equal(c):
    yield []


@contract("craft::Restore", trusted="restoring a configuration state into an empty tracker fails or tracks exactly its members, each with a new progress (match 0, next the last index, empty window)")
def conf_restore(c):
    chg, cs = c.arg(0), c.arg(1)
    c.requires("an empty tracker", c.ctx.card_facts(chg.tracker_.progress_.mem) == 0)
    c.requires("a non-empty log", z3.And(chg.last_index_ > 0, chg.last_index_ < BIG, chg.tracker_.max_inflight_ >= 0))
    yield [("fresh", PR)]
    n = K.CF(c, c.result.f0, c.result.f1, c.cur)
    ok = c.result.f2 == 0
    x, j = z3.Ints("x!cr j!cr")
    h = lambda f: z3.Select(ph(c, f, c.cur), z3.Select(n.ref, x))
    c.ensures("*", "new progress objects", Implies(ok, n.pm_ok(c.pre.alloc)))
    c.ensures("*", "fresh progress", Implies(ok, z3.ForAll([x], Implies(z3.Select(n.P, x), z3.And(h("match_") == 0, h("next_") == chg.last_index_, h("pending_snapshot_") == 0, Not(h("probe_sent_")), h("state_") == ec(c, T.PROBE),
              h("inflights_*.start_") == 0, h("inflights_*.count_") == 0, h("inflights_*.buffer_#") == 0, h("inflights_*.size_") == chg.tracker_.max_inflight_)), patterns=[z3.Select(n.ref, x)])))
    for f in LISTS:
        v = cs.__getattr__(f)
        e = z3.Select(v.arr, j)
        c.ensures("*", f + " are tracked", Implies(ok, z3.ForAll([j], Implies(z3.And(j >= 0, j < v.len), z3.Select(n.P, e)), patterns=[e])))


def switch_mods(c):
    t = c.this.trk_
    return [t._x.f("config_"), t._x.f("progress_")] + fl(c, "is_learner_", "lead_transferee_", "msgs_") + log_only(c, "committed_") + SEND_MODS


@contract("craft::Raft::SwitchToConfig", props=["C08", "C07", "C20", "C14"])
def switch_config(c):
    r = rn(c)
    cfg, prs = c.arg(0), c.arg(1)
    NP, nref = prs.mem, prs.val.lift.arrs[""]
    c.requires("well-formed node", z3.And(r.base(), r.roles()))
    c.requires("well-formed new progress", r.pm_inv(NP, nref))
    send_loops(c)
    if c.relevant(("C07",)):
        c.define(Q.ca_ext_fact())
    yield switch_mods(c)
    n, o = rn(c), ro(c)
    c.ensures("*", "node stays well-formed", n.base())
    c.ensures("*", "progress stays well-formed", n.pm_inv())
    c.ensures("*", "the configuration is the given one", leaves_equal(c, cfg, n.v.trk_.config_))
    c.ensures("*", "the progress map is the given one", z3.And(n.P == NP, n.ref == nref))
    c.ensures("*", "a learner exactly if tracked as one", n.is_learner == z3.And(z3.Select(NP, n.id), n.pf("is_learner_", n.id)))
    old = R(c, c.old)
    c.ensures("*", "only a leader commits or sends", Implies(Not(o.leader()), z3.And(n.nm == o.nm, n.M == o.M, n.log.committed == o.log.committed, n.lead_transferee == o.lead_transferee, heap_same(c, o, n))))
    c.ensures("*", "the outbox only grows", z3.And(grown(o, n), fresh_new(c, o, n)))
    c.ensures("*", "appends and snapshots", new_types(c, o, n, "MsgApp", "MsgSnap"))
    c.ensures("C22", "stamped", new_stamped(c, o, n))
    c.ensures("*", "commit index only rises, to an entry of this term", z3.And(n.log.committed >= o.log.committed, n.log.committed <= n.log.last, Implies(n.log.committed > o.log.committed, n.log.term(n.log.committed) == n.term)))
    c.ensures("C07", "commits only what a quorum of the new configuration holds", committed_ok(c, o, n))
    x = z3.Int("x!sw")
    at = lambda f, st: z3.Select(ph(c, f, st), z3.Select(nref, x))
    c.ensures("*", "match, role and activity unchanged", z3.ForAll([x], Implies(z3.Select(NP, x), z3.And(*[at(f, n.st) == at(f, o.st) for f in KEEP])), patterns=[z3.Select(nref, x)]))
    I, O = voter_halves(c, cfg.voters)
    lt = o.lead_transferee
    gone = z3.And(lt != 0, Not(Or(z3.Select(I, lt), z3.Select(O, lt))))
    c.ensures("C20", "a transfer ends when its target is no longer a voter, otherwise it stays", z3.And(Or(n.lead_transferee == 0, n.lead_transferee == lt), Implies(z3.And(o.leader(), Not(n.is_learner), z3.Select(NP, n.id), c.ctx.card_facts(I) > 0), n.lead_transferee == z3.If(gone, 0, lt))))


def snap_ok(c, r, s):
    """s: view of a snapshot"""
    i = s.metadata.index
    return z3.And(i < BIG - 12)


def restore_mods(c):
    return reset_mods(c, "state_", "step_", "tick_", "is_learner_", "msgs_", "trk_") + log_mods(c) + log_only(c, "snapshot_") + SEND_MODS


def restore_rel(c, o, n, res, i, t, cs, sref, fol=None):
    """res: installed; (i, t): position of the snapshot; cs: its configuration; sref: its object or None"""
    l, k = o.log, n.log
    up = i > l.committed
    fol = o.state == ec(c, FOLLOWER) if fol is None else fol
    has = z3.And(l.inr(i), l.term(i) == t)
    kept = z3.And(log_same(o, n), k.first == l.first, k.last == l.last, n.log.U.snap == o.log.U.snap)
    yield "*", "node stays well-formed", z3.And(n.base(), n.pm_inv(), n.roles())
    yield "*", "installed only when it advances the commit index, at a follower", Implies(res, z3.And(up, fol))
    yield "*", "installed only when the log does not contain it", Implies(res, z3.And(Not(has), l.term0(i) != t))
    yield "*", "installed only at a member of its configuration", Implies(res, conf_member(cs, o.id))
    yield "*", "installed when all of that holds", Implies(z3.And(up, fol, Not(z3.And(l.term0(i) == t)), conf_member(cs, o.id)), res)
    yield "*", "the log is the snapshot", Implies(res, z3.And(k.committed == i, k.last == i, k.first == i + 1, k.lastterm == t, k.U.n == 0))
    if sref is not None:
        yield "*", "pending until stored", Implies(res, k.U.snap == sref)
    yield "*", "a refused snapshot leaves the entries unchanged", Implies(Not(res), kept)
    yield "C14", "the commit index moves to a snapshot the log contains and not otherwise", Implies(Not(res), z3.And(Or(k.committed == l.committed, z3.And(up, k.committed == i, l.term0(i) == t)), Implies(z3.And(up, fol, has, conf_member(cs, o.id)), k.committed == i)))
    yield "*", "commit index never falls", k.committed >= l.committed
    yield "*", "a follower keeps term, vote, leader, role and timers", Implies(Or(fol, Not(up)), z3.And(n.term == o.term, n.vote == o.vote, n.lead == o.lead, n.state == o.state, n.step == o.step, n.tick == o.tick, n.election_elapsed == o.election_elapsed, n.heartbeat_elapsed == o.heartbeat_elapsed,
              n.randomized_election_timeout == o.randomized_election_timeout, n.lead_transferee == o.lead_transferee, n.pending_conf_index == o.pending_conf_index, n.uncommitted_size == o.uncommitted_size))
    yield "*", "refused by a follower: membership and progress stay", Implies(z3.And(Not(res), Or(fol, Not(up))), z3.And(same_tracker(c, o, n), n.is_learner == o.is_learner))
    yield "*", "nothing is sent", z3.And(n.nm == o.nm, n.M == o.M)
    yield "*", "pending reads are kept or dropped", Or(same_queue(c, o, n), z3.And(n.rq.nq == 0, no_pending(n)))


@contract("craft::Raft::Restore", props=["C14", "C04", "C05"])
def restore(c):
    r = rn(c)
    s = c.arg(0)
    c.requires("well-formed node", z3.And(room(c, r, 10), r.roles(), r.term < BIG - 4))
    c.requires("a snapshot", z3.And(s.val > 0, s.val < r.st.alloc, snap_ok(c, r, s)))
    j = z3.Int("j!rs")

    def tmpl(L):
        # no member seen so far unless the flag is set
        for nm, t, loc in K.scan(L):
            if t == ("struct", CONF):
                for f in LISTS:
                    v = V(L.ctx, L.pre, loc, t).__getattr__(f)
                    yield "not in %s so far" % f, z3.ForAll([j], Implies(z3.And(j >= 0, j < L.k, j < v.len), z3.Select(v.arr, j) != r.id), patterns=[z3.Select(v.arr, j)])
    c.loops(tmpl)
    cs = s.metadata.conf_state
    i, t = s.metadata.index, s.metadata.term
    sref = s.val
    yield restore_mods(c)
    n, o = rn(c), ro(c)
    ens(c, restore_rel(c, o, n, c.result, i, t, cs, sref))


def handle_snap_rel(c, o, n, m, fol=None):
    """m: the message before; fol: handled as a follower"""
    s = m.snapshot.metadata
    l = o.log
    up, fol = s.index > l.committed, o.state == ec(c, FOLLOWER) if fol is None else fol
    done = z3.And(up, fol, l.term0(s.index) != s.term, conf_member(s.conf_state, o.id))
    for t, nm, f in restore_rel(c, o, n, done, s.index, s.term, s.conf_state, None, fol):
        if nm not in ("nothing is sent", "installed when all of that holds"):
            yield t, nm, f
    yield from one_answer(c, o, n, "MsgAppResp", frm(m))
    yield "C14", "the answer reports the snapshot's index or the commit index", z3.And(n.mf("index", o.nm) == z3.If(done, s.index, n.log.committed), Not(n.mf("reject", o.nm)))


@contract("craft::Raft::HandleSnapshot", props=["C14", "C04", "C05", "C22"])
def handle_snapshot(c):
    r = rn(c)
    m = c.arg(0)
    c.requires("well-formed node", z3.And(room(c, r, 10), r.roles(), r.term < BIG - 4))
    c.requires("a message", z3.And(m.val > 0, m.val < r.st.alloc, snap_ok(c, r, m.snapshot)))
    yield restore_mods(c) + SENT + [m.star._x.f("snapshot"), ("fresh", SNAP)]
    n, o = rn(c), ro(c)
    ens(c, handle_snap_rel(c, o, n, c.oldarg(0)))


# ---------------------------------------------------------------- reads
def read_mods(c):
    return fl(c, "msgs_", "read_states_", "read_only_") + SENT + [("fresh", RIS), ("heap", RIS, ".acks")]


def read_req(c, r, m):
    c.requires("well-formed node", z3.And(r.base(), K.pm_ok(c, r.P, r.ref, r.st), r.ro_inv()))
    c.requires("a read request", RO_.request_ok(r.rq, m.val))


def own_read(o, frm_):
    return Or(frm_ == 0, frm_ == o.id)


def answer_message(c, n, j, o, req, index):
    """message j answers the read request with the index"""
    st = n.st
    ref = z3.Select(n.M, j)
    return z3.And(n.mf("type", j) == ec(c, "MsgReadIndexResp"), n.mf("to", j) == z3.Select(mh(c, "from", o.st), req), n.mf("index", j) == index, msg_nents(c, st, ref) == msg_nents(c, o.st, req),
                  z3.Select(msg_entries(c, st, ref, "data"), 0) == z3.Select(msg_entries(c, o.st, req, "data"), 0))


def same_reads(c, o, n):
    return same_fields(c, o, n, ["read_states_"])


def same_queue(c, o, n):
    return same_fields(c, o, n, ["read_only_"])


def answer_rel(c, o, n, req, index):
    """the answer to one read request: own reads are handed to the application, others go back to their sender"""
    mine = own_read(o, z3.Select(mh(c, "from", o.st), req))
    return z3.If(mine, z3.And(n.nm == o.nm, read_states_add(c, o, n, index, z3.Select(msg_entries(c, o.st, req, "data"), 0))), z3.And(n.nm == o.nm + 1, same_reads(c, o, n), answer_message(c, n, o.nm, o, req, index)))


@contract("craft::Raft::CommittedEntryinCurrentTerm", props=["C17"], total=True)
def committed_in_term(c):
    r = rn(c)
    c.requires("well-formed node", r.base())
    yield []
    c.ensures("*", "the entry at the commit index has the current term", c.result == (r.log.term0(r.log.committed) == r.term))


@contract("craft::Raft::ResponseToReadIndexReq", props=["C17"], total=True)
def response_to_read(c):
    r = rn(c)
    m = c.arg(0)
    c.requires("a read request", RO_.request_ok(r.rq, m.val))
    yield fl(c, "read_states_") + [("fresh", MSG)]
    n, o = rn(c), ro(c)
    om, res = c.oldarg(0), c.result
    own = own_read(o, frm(om))
    c.ensures("*", "a new message", z3.And(res.val >= o.st.alloc, res.val < n.st.alloc, frm(res) == 0, res.term == 0))
    ctx = z3.Select(msg_entries(c, o.st, om.val, "data"), 0)
    c.ensures("*", "an own read is handed to the application", Implies(own, z3.And(res.to == 0, read_states_add(c, o, n, c.arg(1), ctx))))
    c.ensures("*", "another node's read is answered to it", Implies(Not(own), z3.And(res.to == frm(om), same_reads(c, o, n), res.type == ec(c, "MsgReadIndexResp"), res.index == c.arg(1), msg_nents(c, n.st, res.val) == msg_nents(c, o.st, om.val), z3.Select(msg_entries(c, n.st, res.val, "data"), 0) == ctx)))


def acked(c, st, status, x):
    return z3.And(z3.Select(z3.Select(c.ctx.hget(st, RIS, ".acks?"), status), x), z3.Select(z3.Select(c.ctx.hget(st, RIS, ".acks[]"), status), x))


def read_common(c, o, n):
    yield "*", "node stays well-formed", n.base()
    yield "*", "reads stay well-formed", n.ro_inv()
    yield "*", "the outbox only grows", grown(o, n)
    yield "*", "new messages are new objects", fresh_new(c, o, n)
    yield "*", "kinds of messages", new_types(c, o, n, "MsgHeartbeat", "MsgReadIndexResp")
    yield "C22", "stamped", new_stamped(c, o, n)


def reads_kept(c, o, n, index=None):
    """pending reads keep their place, request and index; new ones carry the given index"""
    i = z3.Int("i!rk")
    x = z3.Const("x!rk", STR)
    a, b = o.rq, n.rq
    yield "C17", "pending reads keep their place in the queue", z3.And(b.nq >= a.nq, z3.ForAll([i], Implies(z3.And(i >= 0, i < a.nq), z3.Select(b.Q, i) == z3.Select(a.Q, i)), patterns=[z3.Select(b.Q, i)]))
    yield "C17", "pending reads keep their request and recorded index", z3.ForAll([x], Implies(z3.Select(a.P, x), z3.And(z3.Select(b.P, x), b.status(x) == a.status(x))), patterns=[z3.Select(a.P, x), b.status(x)])
    if index is not None:
        yield "C17", "a new pending read records the commit index", z3.ForAll([x], Implies(z3.And(z3.Select(b.P, x), Not(z3.Select(a.P, x))), b.index(x) == index), patterns=[z3.Select(b.P, x)])


def option(c, r, name):
    return r.v.read_only_.star.option_ == ec(c, name)


@contract("craft::Raft::SendMsgReadIndexResponse", props=["C17", "C22"], total=True)
def send_read_response(c):
    r = rn(c)
    m = c.arg(0)
    read_req(c, r, m)
    yield read_mods(c)
    n, o = rn(c), ro(c)
    om = c.oldarg(0)
    ens(c, read_common(c, o, n))
    safe, lease = option(c, o, "kSafe"), option(c, o, "kLeaseBased")
    ctx = z3.Select(msg_entries(c, o.st, om.val, "data"), 0)
    for t, nm, f in RO_.add_rel(c, o.rq, n.rq, o.log.committed, om.val):
        c.ensures(t, "safe: " + nm, Implies(safe, f))
    ens(c, reads_kept(c, o, n, o.log.committed))
    c.ensures("C17", "safe: nothing is answered yet", Implies(safe, z3.And(same_reads(c, o, n), new_types(c, o, n, "MsgHeartbeat"))))
    c.ensures("C17", "safe: the other peers are asked to acknowledge the context", Implies(safe, z3.And(beats(c, o, n, ctx), n.nm == o.nm + c.ctx.card_facts(o.P) - z3.If(o.tracked(o.id), 1, 0))))
    c.ensures("C17", "safe: the leader acknowledges it itself", Implies(safe, acked(c, n.st, n.rq.status(ctx), o.id)))
    c.ensures("*", "the queue is used by the safe option only", Implies(Not(safe), same_queue(c, o, n)))
    c.ensures("*", "option is kept", n.v.read_only_.star.option_ == o.v.read_only_.star.option_)
    c.ensures("*", "earlier answers stay", reads_prefix(o, n))
    c.ensures("C17", "answers carry the commit index", answers_at(c, o, n, o.log.committed))
    c.ensures("C17", "lease: answered at once with the commit index", Implies(lease, answer_rel(c, o, n, om.val, o.log.committed)))


def answers_at(c, o, n, index):
    """every new answer carries this index"""
    j = z3.Int("j!aa")
    a, b = o.v.read_states_, n.v.read_states_
    g = lambda s, f: s.val.lift.arrs["." + f]
    return z3.And(b.len >= a.len, z3.ForAll([j], Implies(z3.And(j >= a.len, j < b.len), z3.Select(g(b, "index"), j) == index), patterns=[z3.Select(g(b, "index"), j)]),
                  z3.ForAll([j], Implies(z3.And(j >= o.nm, j < n.nm, n.mf("type", j) == ec(c, "MsgReadIndexResp")), n.mf("index", j) == index), patterns=[z3.Select(n.M, j)]))


def reads_prefix(o, n):
    i = z3.Int("i!rp")
    a, b = o.v.read_states_, n.v.read_states_
    g = lambda s, f: s.val.lift.arrs["." + f]
    return z3.And(b.len >= a.len, *[z3.ForAll([i], Implies(z3.And(i >= 0, i < a.len), z3.Select(g(b, f), i) == z3.Select(g(a, f), i)), patterns=[z3.Select(g(b, f), i)]) for f in ("index", "request_ctx")])


def release_rel(c, o, n):
    safe = option(c, o, "kSafe")
    yield from read_common(c, o, n)
    yield from reads_kept(c, o, n, o.log.committed)
    yield "*", "earlier answers stay", reads_prefix(o, n)
    yield "C17", "released reads are answered with the commit index", answers_at(c, o, n, o.log.committed)
    yield "C17", "safe: nothing is answered yet", Implies(safe, z3.And(same_reads(c, o, n), new_types(c, o, n, "MsgHeartbeat")))


@contract("craft::Raft::ReleasePendingReadIndexMessages", props=["C17", "C22"], total=True)
def release_reads(c):
    r = rn(c)
    c.requires("well-formed node", z3.And(r.base(), K.pm_ok(c, r.P, r.ref, r.st), r.ro_inv()))

    def tmpl(L):
        o, n = loop_states(c, L)
        o = R(c, V(L.ctx, c.pre, c._this, ("struct", "craft::Raft")))
        for t, nm, f in release_rel(c, o, n):
            if c.relevant(t.split()):
                yield nm, f
        yield "option", n.v.read_only_.star.option_ == o.v.read_only_.star.option_
    c.loops(tmpl)
    yield read_mods(c) + fl(c, "pending_read_index_messages_")
    n, o = rn(c), ro(c)
    intime = o.log.term0(o.log.committed) == o.term
    ens(c, release_rel(c, o, n))
    c.ensures("C17", "only after a commit in the current term", Implies(Not(intime), z3.And(n.nm == o.nm, same_reads(c, o, n), same_queue(c, o, n), same_fields(c, o, n, ["pending_read_index_messages_"]))))
    c.ensures("C17", "no read stays postponed after it", Implies(intime, n.postponed.len == 0))
    c.ensures("*", "option is kept", n.v.read_only_.star.option_ == o.v.read_only_.star.option_)


# ---------------------------------------------------------------- stepping
ALL_FIELDS = STATE[:-1]


def step_mods(c, m):
    """everything a step may touch: the node's mutable state, new objects, the received message"""
    return fl(c, *STATE) + fl(c, "trk_") + log_mods(c) + log_only(c, "snapshot_") + SEND_MODS + [m.star, ("fresh", ENTRY), ("fresh", SNAP), ("fresh", RIS), ("heap", RIS, ".acks")]


def step_mods_of(c):
    return [x.loc if isinstance(x, V) else x for x in step_mods(c, c.arg(0))]


def fresh_or(c, o, n, m):
    """every new message is a new object or the received one"""
    j = z3.Int("j!fo")
    e = z3.Select(n.M, j)
    return z3.ForAll([j], Implies(z3.And(j >= o.nm, j < n.nm), z3.And(e < n.st.alloc, Or(e >= o.st.alloc, e == m.val))), patterns=[e])


def not_sent(c, r, m):
    """the message is not in the outbox"""
    j = z3.Int("j!no")
    e = z3.Select(r.M, j)
    return z3.ForAll([j], Implies(z3.And(j >= 0, j < r.nm), e != m.val), patterns=[e])


def msg_ok(c, r, m):
    """a message as another node or the local node makes it"""
    t = m.type
    return z3.And(m.val > 0, m.val < r.st.alloc, not_sent(c, r, m), r.not_requested(m.val), m.term < BIG - 4, m.index < BIG - 1, m.rejecthint < BIG - 1,
                  Implies(t == ec(c, "MsgReadIndex"), RO_.request_ok(r.rq, m.val)),
                  Implies(is_type(c, t, "MsgApp", "MsgHeartbeat", "MsgSnap"), z3.And(m.term > 0)),
                  Implies(t == ec(c, "MsgApp"), app_ok(c, r, m)), Implies(t == ec(c, "MsgSnap"), snap_ok(c, r, m.snapshot)))


def step_req(c, r, m):
    c.requires("well-formed node", z3.And(room(c, r, 12), r.roles(), r.wired(), r.term < BIG - 4))
    c.requires("well-formed reads", r.ro_inv())
    c.requires("a well-formed message", msg_ok(c, r, m))


def step_rel(c, o, n, m, types):
    yield "*", "node stays well-formed", n.base()
    yield "*", "progress stays well-formed", n.pm_inv()
    yield "*", "roles", n.roles()
    yield "*", "reads stay well-formed", n.ro_inv()
    yield "*", "step and tick functions match the role", n.wired()
    yield "*", "the outbox only grows", grown(o, n)
    yield "*", "new messages are new objects or the received one", fresh_or(c, o, n, m)
    yield "*", "kinds of messages", new_types(c, o, n, *types)
    yield "C22", "stamped", new_stamped(c, o, n)
    yield "*", "the term never falls and the vote changes only with it", z3.And(n.term >= o.term, Implies(n.term == o.term, n.vote == o.vote))
    yield "C20", "a change of term or role abandons a transfer", Implies(Or(n.term != o.term, n.state != o.state), n.lead_transferee == 0)
    yield "C07", "a new leader commits only what a quorum holds", Implies(n.leader(), committed_ok(c, o, n))
    yield from commit_rel(c, o, n)


FOLLOWER_TYPES = ("MsgProp", "MsgAppResp", "MsgHeartbeatResp", "MsgTransferLeader", "MsgReadIndex", "MsgVote", "MsgPreVote")


def cond(what, p, rels):
    for t, nm, f in rels:
        yield t, what + ": " + nm, Implies(p, f)


def forwarded(c, o, n, m, after):
    """the message itself goes to the leader"""
    j = o.nm
    return z3.And(grown(o, n, 1), z3.Select(n.M, j) == m.val, n.mf("to", j) == o.lead, after.type == m.type, same(c, o, n, but=("msgs_",)),
                  *[msg_entries(c, n.st, m.val, f) == msg_entries(c, o.st, m.val, f) for f in ("data", "type")], msg_nents(c, n.st, m.val) == msg_nents(c, o.st, m.val))


def heard(c, o, n, m):
    yield "*", "the sender is the leader and the election timer restarts", z3.And(n.election_elapsed == 0, n.lead == frm(m), n.state == o.state, n.term == o.term, n.vote == o.vote)


def read_states_add(c, o, n, index, ctx):
    a, b = o.v.read_states_, n.v.read_states_
    i = z3.Int("i!rd")
    g = lambda s, f: s.val.lift.arrs["." + f]
    return z3.And(b.len == a.len + 1, z3.Select(g(b, "index"), a.len) == index, z3.Select(g(b, "request_ctx"), a.len) == ctx,
                  *[z3.ForAll([i], Implies(z3.And(i >= 0, i < a.len), z3.Select(g(b, f), i) == z3.Select(g(a, f), i)), patterns=[z3.Select(g(b, f), i)]) for f in ("index", "request_ctx")])


def follower_rel(c, o, n, m, ok, after):
    t = m.type
    is_ = lambda *q: is_type(c, t, *q)
    fwd = z3.And(o.lead != 0, Implies(is_("MsgProp"), Not(o.disable_proposal_forwarding)))
    yield "*", "a proposal is dropped without a leader or without forwarding", ok == Not(z3.And(is_("MsgProp"), Not(fwd)))
    yield "*", "dropped: nothing changes", Implies(z3.And(is_("MsgProp", "MsgTransferLeader", "MsgReadIndex"), Not(fwd)), same(c, o, n))
    yield "*", "forwarded to the leader", Implies(z3.And(is_("MsgProp", "MsgTransferLeader", "MsgReadIndex"), fwd), forwarded(c, o, n, m, after))
    for nm, rel in (("MsgApp", handle_app_rel), ("MsgHeartbeat", handle_beat_rel), ("MsgSnap", handle_snap_rel)):
        yield from cond(nm, is_(nm), heard(c, o, n, m))
        yield from cond(nm, is_(nm), (x for x in rel(c, o, n, m) if not x[1].startswith("a follower keeps")))
    yield from cond("MsgTimeoutNow", is_("MsgTimeoutNow"), hup_rel(c, o, n, z3.BoolVal(False), z3.BoolVal(True)))
    one = msg_nents(c, o.st, m.val) == 1
    yield "C17", "an answered read is handed on with its index", Implies(z3.And(is_("MsgReadIndexResp"), one), z3.And(same(c, o, n, but=("read_states_",)), read_states_add(c, o, n, m.index, z3.Select(msg_entries(c, o.st, m.val, "data"), 0))))
    yield "*", "a malformed read answer is ignored", Implies(z3.And(is_("MsgReadIndexResp"), Not(one)), same(c, o, n))
    yield "*", "every other message is ignored", Implies(Not(is_("MsgProp", "MsgTransferLeader", "MsgReadIndex", "MsgApp", "MsgHeartbeat", "MsgSnap", "MsgTimeoutNow", "MsgReadIndexResp")), same(c, o, n))


@contract("craft::Raft::StepFollower", props=["C03", "C04", "C05", "C14", "C18", "C20", "C22", "C29"])
def step_follower(c):
    r = rn(c)
    m = c.arg(0)
    step_req(c, r, m)
    c.requires("a follower", r.state == ec(c, FOLLOWER))
    yield step_mods_of(c)
    n, o = rn(c), ro(c)
    om = c.oldarg(0)
    t = om.type
    ens(c, step_rel(c, o, n, om, FOLLOWER_TYPES))
    ens(c, follower_rel(c, o, n, om, c.result == 0, c.arg(0)))


CANDIDATE_TYPES = ("MsgAppResp", "MsgHeartbeatResp", "MsgVote", "MsgPreVote", "MsgApp", "MsgSnap")


def candidate_rel(c, o, n, m, ok):
    t = m.type
    is_ = lambda *q: is_type(c, t, *q)
    pre = o.state == ec(c, PRECAND)
    yield "*", "a proposal is dropped", z3.And(ok == Not(is_("MsgProp")), Implies(is_("MsgProp"), same(c, o, n)))
    for nm, rel in (("MsgApp", handle_app_rel), ("MsgHeartbeat", handle_beat_rel), ("MsgSnap", lambda *a: handle_snap_rel(*a, fol=z3.BoolVal(True)))):
        yield "*", nm + ": follows the sender in the same term", Implies(is_(nm), z3.And(n.state == ec(c, FOLLOWER), n.lead == frm(m), n.term == o.term, n.vote == o.vote, n.election_elapsed == 0))
        yield from cond(nm, is_(nm), (x for x in rel(c, o, n, m) if not x[1].startswith("a follower keeps") and not x[1].startswith("refused by a follower")))
    mine = t == z3.If(pre, ec(c, "MsgPreVoteResp"), ec(c, "MsgVoteResp"))
    mem, val = voted(o, frm(m), Not(m.reject))
    won, lost = T.joint_facts(c, o.v.trk_.config_.voters, mem, val)
    yield "C01 C05 C19", "a won election makes a leader of the same term, a won pre-election starts one", Implies(z3.And(mine, won), z3.If(pre, z3.And(Or(n.state == ec(c, CANDIDATE), n.leader()), n.term == o.term + 1, n.vote == o.id), z3.And(n.leader(), n.term == o.term, n.vote == o.vote)))
    yield "C01 C05 C19", "a lost election makes a follower of the same term", Implies(z3.And(mine, lost, Not(won)), z3.And(n.state == ec(c, FOLLOWER), n.term == o.term, n.vote == o.vote, n.lead == 0, same_log(c, o, n), n.nm == o.nm))
    yield "C01 C05 C19", "an undecided election changes nothing but the recorded votes", Implies(z3.And(mine, Not(won), Not(lost)), z3.And(same(c, o, n, but=("trk",)), n.v.trk_.votes_.mem == mem, n.v.trk_.votes_.val.lift.arrs[""] == val, heap_same(c, o, n), n.P == o.P, n.ref == o.ref))
    yield "C07", "commits only what a quorum holds", Implies(n.leader(), committed_ok(c, o, n))
    yield "*", "every other message is ignored", Implies(Not(Or(mine, is_("MsgProp", "MsgApp", "MsgHeartbeat", "MsgSnap"))), same(c, o, n))


@contract("craft::Raft::StepCandidate", props=["C01", "C03", "C04", "C05", "C07", "C14", "C18", "C19", "C22"])
def step_candidate(c):
    r = rn(c)
    m = c.arg(0)
    step_req(c, r, m)
    c.requires("a candidate", Or(r.state == ec(c, CANDIDATE), r.state == ec(c, PRECAND)))
    c.requires("a message of the current term", Implies(is_type(c, m.type, "MsgApp", "MsgHeartbeat", "MsgSnap"), m.term == r.term))
    if c.relevant(("C07",)):
        c.define(Q.ca_ext_fact())
    yield step_mods_of(c)
    n, o = rn(c), ro(c)
    om = c.oldarg(0)
    ens(c, step_rel(c, o, n, om, CANDIDATE_TYPES))
    ens(c, candidate_rel(c, o, n, om, c.result == 0))



# ---------------------------------------------------------------- leader
def active_votes(c, r, hr=None):
    """the voters' activity as votes: tracked non-learners, with their activity flags"""
    ctx = c.ctx
    hl, hr = ph(c, "is_learner_", r.st), ph(c, "recent_active_", r.st) if hr is None else hr
    tag = "%d~%d~%d~%d" % (hl.get_id(), hr.get_id(), r.P.get_id(), r.ref.get_id())
    mem, val = z3.Const("ACTMEM~" + tag, Q.AMEM), z3.Const("ACTVAL~" + tag, Q.AMEM)
    ctx.lammemo.setdefault(mem.get_id(), (mem, val, hl, hr, r.P, r.ref))
    x = z3.Int("x!ac")
    ctx.fact(z3.ForAll([x], z3.Select(mem, x) == z3.And(r.tracked(x), Not(z3.Select(hl, r.pr(x)))), patterns=[z3.Select(mem, x)]))
    ctx.fact(z3.ForAll([x], z3.Select(val, x) == z3.Select(hr, r.pr(x)), patterns=[z3.Select(val, x)]))
    return mem, val


class Tr(R):
    """a tracker alone, as far as R's progress accessors go"""

    @property
    def P(self):
        return self.v.progress_.mem

    @property
    def ref(self):
        return self.v.progress_.val.lift.arrs[""]


@contract("craft::ProgressTracker::QuorumActive", props=["C29"], total=True)
def quorum_active(c):
    r = Tr(c, c.this)
    c.requires("distinct progress objects", K.pm_ok(c, r.P, r.ref, r.st))
    hl, hr = ph(c, "is_learner_", r.st), ph(c, "recent_active_", r.st)
    x = z3.Int("x!qa")

    def tmpl(L):
        if L.node is None or L.key is None:
            return
        for mm in sorted(getattr(L, "mods", ()), key=str):
            if mm[0] != "c":
                continue
            loc = Loc(("c", mm[1]), mm[2])
            t, nm = L.ctx.typeof(loc), "the map"
            if t[0] == "map" and t[2][0] == "bool":
                v = L.ctx.load(loc, L.cur)
                if not isinstance(v.lift, LArr):
                    continue
                m, a = v.mem, v.lift.arrs[""]
                seen = z3.And(r.tracked(x), posn(r.P, x) < L.k, Not(z3.Select(hl, r.pr(x))))
                yield nm + " has the voters seen so far", z3.ForAll([x], z3.Select(m, x) == seen, patterns=[z3.Select(m, x)])
                yield nm + " has their activity", z3.ForAll([x], Implies(z3.Select(m, x), z3.Select(a, x) == z3.Select(hr, r.pr(x))), patterns=[z3.Select(a, x)])
    c.loops(tmpl)
    c.define(Q.cy_ext_fact())
    yield []
    mem, val = active_votes(c, r)
    c.ensures("C29", "the active voters are a quorum of the configuration", c.result == T.joint_facts(c, c.this.config_.voters, mem, val)[0])


CHANGES = z3.Function("PARSE~raftpb::ConfChangeV2.changes#", STR, z3.IntSort())
LEADER_TYPES = ("MsgApp", "MsgSnap", "MsgHeartbeat", "MsgReadIndexResp", "MsgTimeoutNow")


class Prop:
    """the entries of a proposal before they are filtered"""

    def __init__(self, c, o, ref):
        self.c, self.o = c, o
        self.T, self.D = msg_entries(c, o.st, ref, "type"), msg_entries(c, o.st, ref, "data")
        self.N = msg_nents(c, o.st, ref)
        self.l = o.log.last
        self.pend0 = o.pending_conf_index
        self.joint = c.ctx.card_facts(Q.half(c, o.v.trk_.config_.voters, 1)) > 0

    def isconf(self, j):
        return is_type(self.c, z3.Select(self.T, j), "EntryConfChange", "EntryConfChangeV2")

    def leave(self, j):
        return z3.And(z3.Select(self.T, j) == ec(self.c, "EntryConfChangeV2"), CHANGES(z3.Select(self.D, j)) == 0)

    def acceptable(self, j):
        return z3.And(self.isconf(j), self.pend0 <= self.o.log.applied, self.joint == self.leave(j))

    def none_before(self, k):
        j = z3.Int("j!pb")
        return z3.ForAll([j], Implies(z3.And(j >= 0, j < k), Not(self.acceptable(j))), patterns=[z3.Select(self.T, j)])

    def pending(self, pend, k):
        """the pending index after the first k entries"""
        f = pend - self.l - 1
        return Or(z3.And(pend == self.pend0, self.none_before(k)), z3.And(f >= 0, f < k, self.acceptable(f), self.none_before(f)))

    def kept(self, j, pend):
        """entry j stays what it is"""
        return Or(Not(self.isconf(j)), z3.And(self.acceptable(j), pend == self.l + 1 + j))

    def out(self, j, pend, t, d):
        """type and payload of entry j in the log"""
        return z3.If(self.kept(j, pend), z3.And(t == z3.Select(self.T, j), d == z3.Select(self.D, j)), z3.And(t == ec(self.c, "EntryNormal"), d == strconst("")))


def progress_set(c, o, n, but, only=None):
    """the progress of every peer is unchanged except the fields in but (of peer only)"""
    x = z3.Int("x!ps")
    fs = [f for f in ("match_", "next_", "is_learner_", "recent_active_", "probe_sent_", "pending_snapshot_", "state_", "inflights_*.start_", "inflights_*.count_", "inflights_*.size_") if f not in but]
    return z3.And(n.P == o.P, n.ref == o.ref, z3.ForAll([x], Implies(o.tracked(x), z3.And(*[n.pf(f, x) == o.pf(f, x) for f in fs],
                  *([Or(x == only, z3.And(*[n.pf(f, x) == o.pf(f, x) for f in but]))] if only is not None and but else []))), patterns=[o.pr(x)]))


def others_kept(c, o, n, x0):
    """peers other than x0 keep their whole progress"""
    x = z3.Int("x!ot")
    fs = ("match_", "next_", "is_learner_", "recent_active_", "probe_sent_", "pending_snapshot_", "state_", "inflights_*.start_", "inflights_*.count_", "inflights_*.size_")
    return z3.And(n.P == o.P, n.ref == o.ref, z3.ForAll([x], Implies(z3.And(o.tracked(x), x != x0), z3.And(*[n.pf(f, x) == o.pf(f, x) for f in fs])), patterns=[o.pr(x)]))


def transfer_rel(c, o, n):
    """the signal to campaign goes only to the transfer target and only when it has the whole log"""
    j = z3.Int("j!tr")
    return z3.ForAll([j], Implies(z3.And(j >= o.nm, j < n.nm, n.mf("type", j) == ec(c, "MsgTimeoutNow")), z3.And(n.lead_transferee != 0, n.mf("to", j) == n.lead_transferee, n.tracked(n.lead_transferee), n.pf("match_", n.lead_transferee) == n.log.last)), patterns=[z3.Select(n.M, j)])


SELF = z3.Function("SELF_READS", z3.ArraySort(INT, STR), z3.ArraySort(STR, INT), z3.ArraySort(INT, INT), z3.ArraySort(INT, INT), INT, INT, INT)   # own reads among the first k queued ones


class Confirmed:
    """the reads answered by an acknowledgement, in the order of the queue"""

    def __init__(self, c, o):
        q = o.rq
        self.c, self.o, self.q = c, o, q
        self.frm = mh(c, "from", o.st)
        self.req = q.sh("req")

    def count(self, k):
        return SELF(self.q.Q, self.q.PV, self.req, self.frm, self.o.id, k)

    def own(self, k):
        return own_read(self.o, z3.Select(self.frm, self.q.req(z3.Select(self.q.Q, k))))

    def unfold(self, k):
        return [self.count(z3.IntVal(0)) == 0, Implies(k >= 0, self.count(k + 1) == self.count(k) + z3.If(self.own(k), 1, 0)), Implies(k >= 0, z3.And(self.count(k) >= 0, self.count(k) <= k))]

    def answered(self, n, k, m0):
        """the first k queued reads are answered in order: own ones in the read states, the others in the outbox from m0 on"""
        c, o, q = self.c, self.o, self.q
        i = z3.Int("i!cf")
        s = z3.Select(q.Q, i)
        a, b = o.v.read_states_, n.v.read_states_
        g = lambda v, f: v.val.lift.arrs["." + f]
        p, w = a.len + self.count(i), m0 + i - self.count(i)
        rng = z3.And(i >= 0, i < k)
        return [z3.And(b.len == a.len + self.count(k), n.nm == m0 + k - self.count(k), self.count(k) >= 0, self.count(k) <= k),
                z3.ForAll([i], Implies(z3.And(rng, self.own(i)), z3.And(p < b.len, p >= a.len, z3.Select(g(b, "index"), p) == q.index(s), z3.Select(g(b, "request_ctx"), p) == s)), patterns=[s]),
                z3.ForAll([i], Implies(z3.And(rng, Not(self.own(i))), z3.And(w < n.nm, w >= m0, answer_message(c, n, w, o, q.req(s), q.index(s)))), patterns=[s])]


def leader_rel(c, o, n, m, ok):
    t = m.type
    is_ = lambda *q: is_type(c, t, *q)
    x = frm(m)
    tr = o.tracked(x)
    yield "*", "a leader stays leader of its term unless it lost its quorum", z3.And(n.term == o.term, n.vote == o.vote, Or(z3.And(n.leader(), n.lead == o.lead), z3.And(is_("MsgCheckQuorum"), n.state == ec(c, FOLLOWER), n.lead == 0)))
    yield "*", "members are kept", z3.And(n.P == o.P, *[leaves_equal(c, getattr(o.v.trk_, "config_"), getattr(n.v.trk_, "config_"))])
    yield "C07", "commits only what a quorum holds", committed_ok(c, o, n)
    yield "C20", "the signal to campaign goes only to a caught-up transfer target", transfer_rel(c, o, n)
    y = z3.Int("y!lr")
    yield "C26", "match indexes never fall within a leadership", Implies(n.leader(), z3.ForAll([y], Implies(o.tracked(y), n.pf("match_", y) >= o.pf("match_", y)), patterns=[o.pr(y)]))
    yield "C07 C26", "only an acknowledgement raises a peer's match index, to the acknowledged index", Implies(n.leader(), z3.ForAll([y], Implies(z3.And(o.tracked(y), y != o.id), n.pf("match_", y) == z3.If(z3.And(is_("MsgAppResp"), y == x, Not(m.reject), m.index > o.pf("match_", y)), m.index, o.pf("match_", y))), patterns=[o.pr(y)]))
    # heartbeats
    q = o.rq
    ctx = z3.If(q.nq == 0, strconst(""), z3.Select(q.Q, q.nq - 1))
    everyone = n.nm == o.nm + c.ctx.card_facts(o.P) - z3.If(o.tracked(o.id), 1, 0)
    yield "C29", "MsgBeat: as many heartbeats as other peers and nothing else", Implies(is_("MsgBeat"), z3.And(same(c, o, n, but=("msgs_",)), everyone, new_types(c, o, n, "MsgHeartbeat")))
    yield "C18", "MsgBeat: heartbeats to the other peers and nothing else", Implies(is_("MsgBeat"), z3.And(same(c, o, n, but=("msgs_",)), beats(c, o, n, ctx), everyone))
    # quorum check
    if c.relevant(("C29",)):
        hr = ph(c, "recent_active_", o.st)
        hr = z3.If(o.tracked(o.id), z3.Store(hr, o.pr(o.id), z3.BoolVal(True)), hr)
        mem, val = active_votes(c, o, hr)
        won = T.joint_facts(c, o.v.trk_.config_.voters, mem, val)[0]
        yield "C29", "MsgCheckQuorum: stays leader exactly when a quorum was active", Implies(is_("MsgCheckQuorum"), n.leader() == won)
    yield "C29", "MsgCheckQuorum: the other peers start inactive", Implies(is_("MsgCheckQuorum"), z3.And(z3.ForAll([y], Implies(z3.And(o.tracked(y), y != o.id), Not(n.pf("recent_active_", y))), patterns=[n.pr(y)]), n.nm == o.nm))
    yield "*", "MsgCheckQuorum: nothing is sent", Implies(is_("MsgCheckQuorum"), n.nm == o.nm)
    yield "*", "MsgCheckQuorum: otherwise nothing changes", Implies(z3.And(is_("MsgCheckQuorum"), n.leader()), z3.And(same(c, o, n, but=("trk",)), progress_set(c, o, n, ("recent_active_",))))
    yield "C20 C29", "MsgCheckQuorum: stepping down abandons a transfer and restarts the timers", Implies(z3.And(is_("MsgCheckQuorum"), Not(n.leader())), z3.And(n.lead_transferee == 0, n.election_elapsed == 0, randomised(n), same_log(c, o, n)))
    # proposals
    drop = Or(Not(o.tracked(o.id)), o.lead_transferee != 0)
    pr = Prop(c, o, m.val)
    isp = is_("MsgProp")
    yield "*", "a proposal is dropped by a non-member or during a transfer", Implies(z3.And(isp, drop), z3.And(Not(ok), same(c, o, n)))
    yield "*", "only proposals fail", Implies(Not(isp), ok)
    prop = z3.And(isp, Not(drop))
    l = o.log.last
    i = z3.Int("i!lp")
    e = n.log.ent(l + 1 + i)
    taken = z3.And(prop, ok)
    yield "C10", "the pending change index follows the first acceptable change", Implies(prop, pr.pending(n.pending_conf_index, pr.N))
    yield "*", "an accepted proposal is appended to the log", Implies(taken, z3.And(n.log.last == l + pr.N, n.log.first == o.log.first))
    yield "*", "a refused proposal appends nothing", Implies(z3.And(prop, Not(ok)), z3.And(log_same(o, n), n.log.committed == o.log.committed, n.nm == o.nm, n.uncommitted_size == o.uncommitted_size))
    yield "C10", "with the leader's term", Implies(taken, z3.ForAll([i], Implies(z3.And(i >= 0, i < pr.N), n.log.term(l + 1 + i) == o.term), patterns=[z3.Select(pr.T, i)]))
    yield "C10", "with its entries in order; every change but the accepted one becomes an empty entry", Implies(taken, z3.ForAll([i], Implies(z3.And(i >= 0, i < pr.N), pr.out(i, n.pending_conf_index, z3.Select(eh(c, "type", n.st), e), z3.Select(eh(c, "data", n.st), e))), patterns=[z3.Select(pr.T, i)]))
    yield "*", "the entries before are untouched", log_prefix(o, n)
    yield "*", "the quota is not exceeded: a used quota takes only what fits", Implies(prop, z3.And(n.uncommitted_size >= o.uncommitted_size, Implies(z3.And(ok, o.uncommitted_size > 0, n.uncommitted_size > o.uncommitted_size), n.uncommitted_size <= o.max_uncommitted_size)))
    yield "*", "only proposals append", Implies(Not(isp), z3.And(log_same(o, n), n.log.last == o.log.last))
    # reads
    isr = is_("MsgReadIndex")
    J = o.v.trk_.config_.voters
    single = z3.And(c.ctx.card_facts(Q.half(c, J, 0)) == 1, c.ctx.card_facts(Q.half(c, J, 1)) == 0)
    intime = o.log.term0(o.log.committed) == o.term
    safe, lease = option(c, o, "kSafe"), option(c, o, "kLeaseBased")
    yield "C17", "a single-member leader answers a read at once with the commit index", Implies(z3.And(isr, single), z3.And(answer_rel(c, o, n, m.val, o.log.committed), same(c, o, n, but=("msgs_", "read_states_"))))
    post = z3.And(isr, Not(single), Not(intime))
    yield "C17", "a leader without a commit in its term postpones reads", Implies(post, z3.And(same(c, o, n, but=("pending_read_index_messages_",)), n.postponed.len == o.postponed.len + 1, z3.Select(n.postponed.arr, o.postponed.len) == m.val))
    ask = z3.And(isr, Not(single), intime)
    yield "C17", "a lease-based leader answers at once with the commit index", Implies(z3.And(ask, lease), z3.And(answer_rel(c, o, n, m.val, o.log.committed), same(c, o, n, but=("msgs_", "read_states_"))))
    yield "C17", "under the safe option nothing is answered before an acknowledgement", Implies(z3.And(ask, safe), z3.And(same_reads(c, o, n), new_types(c, o, n, "MsgHeartbeat"), everyone, beats(c, o, n, z3.Select(msg_entries(c, o.st, m.val, "data"), 0)), same(c, o, n, but=("msgs_", "read_only_"))))
    yield from cond("safe read", z3.And(ask, safe), ((tg, nm, f) for tg, nm, f in RO_.add_rel(c, o.rq, n.rq, o.log.committed, m.val)))
    hb = is_("MsgHeartbeatResp")
    ack = z3.And(hb, tr, safe, m.context != strconst(""), z3.Select(o.rq.P, m.context))
    keep = z3.And(n.rq.nq == o.rq.nq, n.rq.P == o.rq.P)
    k = o.rq.nq - n.rq.nq
    if c.relevant(("C17",)):
        am, av = [z3.Select(c.ctx.hget(o.st, RIS, ".acks" + sfx), o.rq.status(m.context)) for sfx in ("?", "[]")]
        won = T.joint_facts(c, J, z3.Store(am, x, z3.BoolVal(True)), z3.Store(av, x, z3.BoolVal(True)))[0]
        cf = Confirmed(c, o)
        yield "C17", "reads leave the queue only when a quorum acknowledged a context, up to that context", Implies(hb, Or(z3.And(keep, reads_prefix(o, n), n.v.read_states_.len == o.v.read_states_.len, new_types(c, o, n, "MsgApp", "MsgSnap")), z3.And(ack, won, k > 0, z3.Select(o.rq.Q, k - 1) == m.context)))
        yield "C17", "a confirmed context that is queued is answered", Implies(z3.And(ack, won, keep), z3.ForAll([i], Implies(z3.And(i >= 0, i < o.rq.nq), z3.Select(o.rq.Q, i) != m.context), patterns=[z3.Select(o.rq.Q, i)]))
        m0 = n.nm - (k - cf.count(k))
        yield "C17", "they are answered in the order of the queue with their recorded index", Implies(z3.And(hb, k > 0), z3.And(m0 >= o.nm, m0 <= o.nm + 1, *cf.answered(n, k, m0)))
        yield "C17", "the rest of the queue keeps its order, requests and indexes", Implies(hb, z3.And(k >= 0, z3.ForAll([i], Implies(z3.And(i >= 0, i < n.rq.nq), z3.And(z3.Select(n.rq.Q, i) == z3.Select(o.rq.Q, i + k), n.rq.status(z3.Select(n.rq.Q, i)) == o.rq.status(z3.Select(n.rq.Q, i)))), patterns=[z3.Select(n.rq.Q, i)])))
        yield "C17", "an acknowledgement is recorded for its context", Implies(z3.And(ack, Not(won)), acked(c, n.st, o.rq.status(m.context), x))
    yield from cond("acknowledged append", is_("MsgAppResp"), reads_kept(c, o, n, n.log.committed))
    yield "C17", "acknowledged append: answers to released reads carry the commit index", Implies(is_("MsgAppResp"), z3.And(answers_at(c, o, n, n.log.committed), Implies(safe, same_reads(c, o, n))))
    yield "*", "other messages leave reads alone", Implies(Not(Or(isr, hb, is_("MsgAppResp", "MsgCheckQuorum"))), z3.And(same_queue(c, o, n), same_reads(c, o, n), same_fields(c, o, n, ["pending_read_index_messages_"])))
    # answers of peers
    need = is_("MsgAppResp", "MsgHeartbeatResp", "MsgSnapStatus", "MsgUnreachable", "MsgTransferLeader")
    yield "*", "an answer of an untracked node is ignored", Implies(z3.And(need, Not(tr)), same(c, o, n))
    p = lambda f: o.pf(f, x)
    w = lambda f: n.pf(f, x)
    st = lambda v, k_: v("state_") == ec(c, k_)
    yield "*", "an answer changes neither role, transfer nor quota", Implies(is_("MsgAppResp", "MsgHeartbeatResp", "MsgSnapStatus", "MsgUnreachable"), z3.And(n.leader(), same_fields(c, o, n, ["lead_transferee_", "pending_conf_index_", "uncommitted_size_", "election_elapsed_", "heartbeat_elapsed_", "randomized_election_timeout_", "is_learner_"])))
    yield "C26 C29", "an answering peer is active", Implies(z3.And(is_("MsgAppResp", "MsgHeartbeatResp"), tr), w("recent_active_"))
    ar = z3.And(is_("MsgAppResp"), tr)
    stale = z3.If(st(p, T.REPL), m.index <= p("match_"), p("next_") - 1 != m.index)
    yield "C26", "a stale rejection is ignored", Implies(z3.And(ar, m.reject, stale), z3.And(n.nm == o.nm, same_log(c, o, n), progress_set(c, o, n, ("recent_active_",), x)))
    yield "C26", "a rejection moves a peer back to probing above its match index", Implies(z3.And(ar, m.reject, Not(stale)), z3.And(Not(st(w, T.REPL)), same_log(c, o, n), others_kept(c, o, n, x), w("match_") == p("match_"), w("next_") >= p("match_") + 1, Implies(st(p, T.REPL), w("next_") == p("match_") + 1), Implies(Not(st(p, T.REPL)), Or(w("next_") <= m.index, w("next_") == p("match_") + 1))))
    news = z3.And(ar, Not(m.reject), m.index > p("match_"))
    yield "C26", "an acknowledgement raises the match index and ends probing", Implies(news, z3.And(w("match_") == m.index, w("next_") >= m.index + 1, Not(st(w, T.PROBE))))
    yield "C26", "a peer stays in snapshot state until its match reaches the snapshot", Implies(z3.And(news, st(p, T.SNAP), m.index < p("pending_snapshot_")), st(w, T.SNAP))
    yield "C26", "an old acknowledgement changes nothing else", Implies(z3.And(ar, Not(m.reject), Not(m.index > p("match_"))), z3.And(n.nm == o.nm, same_log(c, o, n), others_kept(c, o, n, x), w("match_") == p("match_"), w("state_") == p("state_")))
    yield "*", "heartbeat answers change no log", Implies(hb, z3.And(same_log(c, o, n), others_kept(c, o, n, x), w("match_") == p("match_")))
    ss = z3.And(is_("MsgSnapStatus"), tr)
    yield "C26", "a snapshot report is ignored unless one is pending", Implies(z3.And(ss, Not(st(p, T.SNAP))), same(c, o, n))
    yield "C26", "a snapshot report ends the snapshot state: probing, paused until the next answer", Implies(z3.And(ss, st(p, T.SNAP)), z3.And(same(c, o, n, but=("trk",)), others_kept(c, o, n, x), st(w, T.PROBE), w("probe_sent_"), w("pending_snapshot_") == 0, w("match_") == p("match_"),
              w("next_") == z3.If(z3.And(Not(m.reject), p("pending_snapshot_") > p("match_")), p("pending_snapshot_") + 1, p("match_") + 1)))
    un = z3.And(is_("MsgUnreachable"), tr)
    yield "C26", "an unreachable replicating peer is probed", Implies(un, z3.And(same(c, o, n, but=("trk",)), others_kept(c, o, n, x), w("match_") == p("match_"), z3.If(st(p, T.REPL), z3.And(st(w, T.PROBE), w("next_") == p("match_") + 1, Not(w("probe_sent_"))), z3.And(w("state_") == p("state_"), w("next_") == p("next_"), w("probe_sent_") == p("probe_sent_")))))
    # leadership transfer
    tl = z3.And(is_("MsgTransferLeader"), tr)
    again = z3.And(o.lead_transferee == x)
    starts = z3.And(Not(p("is_learner_")), Not(again), x != o.id)
    yield "C20", "a transfer starts only to another voter that is not already the target", Implies(tl, n.lead_transferee == z3.If(starts, x, z3.If(z3.And(x == o.id, Not(p("is_learner_")), Not(again)), 0, o.lead_transferee)))
    yield "C20", "a request that starts no transfer sends nothing", Implies(z3.And(tl, Not(starts)), z3.And(n.nm == o.nm, same(c, o, n, but=("lead_transferee_",))))
    yield "C20", "a caught-up target is told to campaign", Implies(z3.And(tl, starts, p("match_") == o.log.last), z3.And(n.nm == o.nm + 1, n.mf("type", o.nm) == ec(c, "MsgTimeoutNow"), n.mf("to", o.nm) == x))
    yield "C20", "a transfer restarts the election timer", Implies(z3.And(tl, starts), z3.And(n.election_elapsed == 0, same_log(c, o, n), n.leader()))
    yield "*", "only a transfer request changes the target", Implies(z3.And(Not(is_("MsgTransferLeader")), n.leader()), n.lead_transferee == o.lead_transferee)
    yield "*", "every other message is ignored", Implies(Not(Or(need, is_("MsgBeat", "MsgCheckQuorum", "MsgProp", "MsgReadIndex"))), same(c, o, n))


def leader_cases(c):
    m = c.arg(0)
    t = m.type
    yield is_type(c, t, "MsgProp")
    yield z3.And(t == ec(c, "MsgAppResp"), m.reject)
    yield z3.And(t == ec(c, "MsgAppResp"), Not(m.reject))
    yield is_type(c, t, "MsgHeartbeatResp")
    yield is_type(c, t, "MsgReadIndex")
    yield is_type(c, t, "MsgCheckQuorum")


@contract("craft::Raft::StepLeader", props=["C07", "C10", "C17", "C18", "C20", "C21", "C22", "C26", "C29", "C05"], cases=leader_cases, ncases=6)
def step_leader(c):
    r = rn(c)
    m = c.arg(0)
    step_req(c, r, m)
    c.requires("a leader", r.leader())
    c.requires("node ids are not zero", Not(r.tracked(z3.IntVal(0))))
    c.requires("room for a proposal", z3.And(r.uncommitted_size < 2 ** 62, r.log.last + msg_nents(c, r.st, m.val) < BIG - 20))
    if c.relevant(("C07",)):
        c.define(Q.ca_ext_fact())
    cf = Confirmed(c, r)
    if c.relevant(("C17",)):
        c.hints(lambda L, k, ex: cf.unfold(k))
        for f in cf.unfold(z3.IntVal(0)):
            c.define(f)
    pr = Prop(c, r, m.val)
    ref = m.val

    case = c.con.case

    def tmpl(L):
        o = R(c, V(L.ctx, c.pre, c._this, ("struct", "craft::Raft")))
        p, n = loop_states(c, L)
        on = lambda *k: case is None or case in k
        yield "reads stay well-formed", n.ro_inv()
        # sending
        for t, nm, f in send_rel(c, p, n):
            if c.relevant(t.split()):
                yield nm, f
        if on(0):       # proposal filter
            pend = n.pending_conf_index
            j = z3.Int("j!pl")
            Tn, Dn = msg_entries(c, L.cur, ref, "type"), msg_entries(c, L.cur, ref, "data")
            yield "pending change index", pr.pending(pend, L.k)
            yield "filtered so far", z3.ForAll([j], Implies(z3.And(j >= 0, j < L.k), pr.out(j, pend, z3.Select(Tn, j), z3.Select(Dn, j))), patterns=[z3.Select(Tn, j), z3.Select(pr.T, j)])
            yield "the rest of the proposal", z3.ForAll([j], Implies(j >= L.k, z3.And(z3.Select(Tn, j) == z3.Select(pr.T, j), z3.Select(Dn, j) == z3.Select(pr.D, j))), patterns=[z3.Select(Tn, j)])
            yield "number of entries", msg_nents(c, L.cur, ref) == pr.N
            yield "within the entries", L.k <= pr.N
        if on(3):       # answering reads
            yield "answers only", new_types(c, p, n, "MsgReadIndexResp")
            if c.relevant(("C17",)):
                for nm, f in zip(("number of answers so far", "own reads so far", "answers so far"), cf.answered(n, L.k, p.nm)):
                    yield nm, f
        # quorum check
        y = z3.Int("y!lq")
        if on(5) and L.node and L.key is not None:
            yield "those seen are inactive", z3.ForAll([y], Implies(z3.And(p.tracked(y), posn(p.P, y) < L.k, y != p.id), Not(n.pf("recent_active_", y))), patterns=[n.pr(y)])
            yield "the rest of the progress", progress_set(c, p, n, ("recent_active_",))
            yield "progress objects", n.pm_inv()
            yield "own activity", n.pf("recent_active_", p.id) == p.pf("recent_active_", p.id)
    c.loops(tmpl)
    yield step_mods_of(c)
    n, o = rn(c), ro(c)
    om = c.oldarg(0)
    ens(c, step_rel(c, o, n, om, LEADER_TYPES))
    ens(c, leader_rel(c, o, n, om, c.result == 0))

# ---------------------------------------------------------------- step
ALL_TYPES = ("MsgApp", "MsgSnap", "MsgHeartbeat", "MsgReadIndexResp", "MsgTimeoutNow", "MsgProp", "MsgAppResp", "MsgHeartbeatResp", "MsgTransferLeader", "MsgReadIndex", "MsgVote", "MsgPreVote", "MsgVoteResp", "MsgPreVoteResp")
LOCAL_STEP = ("MsgHup", "MsgVote", "MsgPreVote")        # handled before the role's own step function


class Msg:
    """how a message relates to the node's term"""

    def __init__(self, c, o, m):
        t = m.type
        self.is_ = lambda *q: is_type(c, t, *q)
        self.old = z3.And(m.term != 0, m.term < o.term)
        self.new = m.term > o.term
        self.vote = self.is_("MsgVote", "MsgPreVote")
        self.lease = z3.And(o.check_quorum, o.lead != 0, o.election_elapsed < o.election_timeout, m.context != strconst(TRANSFER), self.vote, self.new)
        self.adopts = z3.And(self.new, Not(self.lease), Not(self.is_("MsgPreVote")), Not(z3.And(self.is_("MsgPreVoteResp"), Not(m.reject))))
        self.uptodate = Or(m.logterm > o.log.lastterm, z3.And(m.logterm == o.log.lastterm, m.index >= o.log.last))
        self.free = Or(self.new, o.vote == frm(m), z3.And(o.vote == 0, o.lead == 0))
        self.grants = z3.And(self.vote, self.uptodate, self.free, Not(self.old), Not(self.lease))
        self.delegated = z3.And(Not(self.old), Not(self.adopts), Not(self.lease), Not(self.is_(*LOCAL_STEP)))


def from_network(c, r, m):
    """what every node puts into such a message"""
    return z3.And(Implies(is_type(c, m.type, "MsgVote", "MsgPreVote"), z3.And(m.term > 0, frm(m) != 0)), Implies(is_type(c, m.type, "MsgHup", "MsgBeat", "MsgCheckQuorum"), m.term == 0))


def step_all_req(c, r, m):
    step_req(c, r, m)
    c.requires("votes carry sender and term, local signals no term", from_network(c, r, m))
    c.requires("node ids are not zero", Not(r.tracked(z3.IntVal(0))))
    c.requires("room for a proposal", z3.And(r.uncommitted_size < 2 ** 62, r.log.last + msg_nents(c, r.st, m.val) < BIG - 20))


def reply(c, o, n, m, typ, **fields):
    """exactly one new message, to the sender of m"""
    j = o.nm
    return z3.And(n.nm == o.nm + 1, n.mf("type", j) == ec(c, typ), n.mf("to", j) == frm(m), *[n.mf(k, j) == v for k, v in fields.items()])


def vote_once(c, o, n, m):
    """the vote within a term"""
    k = Msg(c, o, m)
    return Implies(n.term == o.term, Or(n.vote == o.vote, z3.And(o.vote == 0, k.is_("MsgVote"), n.vote == frm(m))))


def granted(c, o, n, m):
    j = z3.Int("j!gr")
    inn = z3.And(j >= o.nm, j < n.nm, Not(n.mf("reject", j)))
    at = [z3.Select(n.M, j)]
    k = Msg(c, o, m)
    yield "C05", "a vote is granted only to the recorded candidate of the term", z3.ForAll([j], Implies(z3.And(inn, n.mf("type", j) == ec(c, "MsgVoteResp")), z3.And(n.mf("to", j) == n.vote, n.vote == frm(m), n.mf("term", j) == n.term)), patterns=at)
    yield "C06", "a positive answer to a request for a vote goes only to a candidate with an up-to-date log", z3.ForAll([j], Implies(z3.And(inn, n.mf("type", j) == ec(c, "MsgVoteResp")), z3.And(k.is_("MsgVote"), k.uptodate, k.free, n.mf("to", j) == frm(m))), patterns=at)
    yield "C06", "a positive answer to a pre-vote request goes only to a candidate with an up-to-date log", z3.ForAll([j], Implies(z3.And(inn, n.mf("type", j) == ec(c, "MsgPreVoteResp")), z3.And(k.is_("MsgPreVote"), k.uptodate, k.free, n.mf("to", j) == frm(m), n.mf("term", j) == m.term)), patterns=at)


def step_all_rel(c, o, n, m, ok, after):
    k = Msg(c, o, m)
    is_ = k.is_
    yield "*", "node stays well-formed", n.base()
    yield "*", "progress stays well-formed", n.pm_inv()
    yield "*", "roles", n.roles()
    yield "*", "reads stay well-formed", n.ro_inv()
    yield "*", "step and tick functions match the role", n.wired()
    yield "*", "the outbox only grows", grown(o, n)
    yield "*", "new messages are new objects or the received one", fresh_or(c, o, n, m)
    yield "*", "kinds of messages", new_types(c, o, n, *ALL_TYPES)
    yield "C22", "stamped", Or(new_stamped(c, o, n), o.term != n.term)
    yield "C05 C25", "the term never falls", n.term >= o.term
    yield "C05", "at most one vote per term", vote_once(c, o, n, m)
    yield "C05", "a message of a higher term moves the node to it", Implies(k.adopts, n.term >= m.term)
    yield from granted(c, o, n, m)
    yield from commit_rel(c, o, n)
    # requests for votes
    ans = z3.And(k.vote, Not(k.old), Not(k.lease))
    resp = lambda t, **f: reply(c, o, n, m, t, **f)
    yield "C06", "an up-to-date candidate gets the vote of a free node", Implies(z3.And(ans, k.grants), z3.If(is_("MsgVote"), z3.And(resp("MsgVoteResp", reject=z3.BoolVal(False), term=m.term), n.vote == frm(m), n.term == m.term, n.election_elapsed == 0), resp("MsgPreVoteResp", reject=z3.BoolVal(False), term=m.term)))
    yield "C06", "any other request is refused", Implies(z3.And(ans, Not(k.grants)), z3.And(n.nm == o.nm + 1, n.mf("reject", o.nm), n.mf("term", o.nm) == n.term, n.vote == z3.If(k.adopts, 0, o.vote)))
    yield "C06 C19", "a pre-vote request changes nothing but the outbox", Implies(is_("MsgPreVote"), same(c, o, n, but=("msgs_",)))
    # disturbance
    yield "C19", "a node that hears from its leader ignores requests for votes completely", Implies(k.lease, z3.And(ok, same(c, o, n)))
    pc = o.state == ec(c, PRECAND)
    yield "C19", "a granted pre-vote of a higher term never makes the node adopt the term", Implies(z3.And(k.new, is_("MsgPreVoteResp"), Not(m.reject)), Or(z3.And(n.term == o.term, n.vote == o.vote), z3.And(pc, n.term == o.term + 1, n.vote == o.id)))
    # old terms
    yield "C25", "a message of an older term changes nothing but the outbox", Implies(k.old, z3.And(ok, same(c, o, n, but=("msgs_",))))
    told = z3.And(is_("MsgHeartbeat", "MsgApp"), Or(o.check_quorum, o.pre_vote))
    yield "C25", "its sender learns the newer term", Implies(k.old, z3.If(told, resp("MsgAppResp", term=o.term), z3.If(is_("MsgPreVote"), resp("MsgPreVoteResp", term=o.term, reject=z3.BoolVal(True)), n.nm == o.nm)))
    # roles
    yield "C20", "a change of term or role abandons a transfer", Implies(Or(n.term != o.term, n.state != o.state), n.lead_transferee == 0)
    yield "C07", "commits only what a quorum holds", Implies(n.leader(), committed_ok(c, o, n))
    yield "*", "a campaign starts only as asked", Implies(is_("MsgHup"), z3.And(ok, Or(same(c, o, n), Not(o.leader()))))
    yield from cond("campaign signal", is_("MsgHup"), hup_rel(c, o, n, o.pre_vote, z3.BoolVal(False)))
    same_term = k.delegated
    drop = lambda rel: (x for x in rel if x[1] not in ("node stays well-formed",))
    yield from cond("leader", z3.And(o.leader(), same_term), drop(leader_rel(c, o, n, m, ok)))
    yield from cond("candidate", z3.And(Or(pc, o.state == ec(c, CANDIDATE)), same_term), drop(candidate_rel(c, o, n, m, ok)))
    yield from cond("follower", z3.And(o.state == ec(c, FOLLOWER), same_term), drop(follower_rel(c, o, n, m, ok, after)))


def step_cases(c):
    r = rn(c)
    m = c.arg(0)
    k = Msg(c, r, m)
    yield k.old
    yield z3.And(k.vote, Not(k.old))
    yield z3.And(k.new, Not(k.vote), Not(k.old))
    rest = z3.And(Not(k.old), Not(k.vote), Not(k.new))
    yield z3.And(rest, k.is_("MsgHup"))
    rest = z3.And(rest, Not(k.is_("MsgHup")))
    yield z3.And(rest, r.leader())
    yield z3.And(rest, Or(r.state == ec(c, CANDIDATE), r.state == ec(c, PRECAND)))


@contract("craft::Raft::Step", props=["C05", "C06", "C19", "C25", "C20", "C22", "C04"], cases=step_cases, ncases=6)
def step(c):
    r = rn(c)
    m = c.arg(0)
    step_all_req(c, r, m)
    if c.relevant(("C07",)):
        c.define(Q.ca_ext_fact())
    yield step_mods_of(c)
    n, o = rn(c), ro(c)
    ens(c, step_all_rel(c, o, n, c.oldarg(0), c.result == 0, c.arg(0)))


# ---------------------------------------------------------------- ticks
def tick_req(c, r):
    c.requires("well-formed node", z3.And(room(c, r, 24), r.roles(), r.wired(), r.term < BIG - 6))
    c.requires("well-formed reads", r.ro_inv())
    c.requires("timers in range", z3.And(r.election_elapsed >= 0, r.election_elapsed < 2 ** 31 - 2, r.heartbeat_elapsed >= 0, r.heartbeat_elapsed < 2 ** 31 - 2))
    c.requires("node ids are not zero", Not(r.tracked(z3.IntVal(0))))
    c.requires("room in the quota", r.uncommitted_size < 2 ** 62)


def tick_rel(c, o, n):
    yield "*", "node stays well-formed", n.base()
    yield "*", "progress stays well-formed", n.pm_inv()
    yield "*", "roles", n.roles()
    yield "*", "reads stay well-formed", n.ro_inv()
    yield "*", "step and tick functions match the role", n.wired()
    yield "*", "the outbox only grows", grown(o, n)
    yield "C05", "the term never falls and the vote changes only with it", z3.And(n.term >= o.term, Implies(n.term == o.term, n.vote == o.vote))
    yield "C20", "a change of term or role abandons a transfer", Implies(Or(n.term != o.term, n.state != o.state), n.lead_transferee == 0)
    yield "C07", "commits only what a quorum holds", Implies(n.leader(), committed_ok(c, o, n))
    yield from commit_rel(c, o, n)


def tick_mods(c):
    return [x.loc if isinstance(x, V) else x for x in fl(c, *STATE) + fl(c, "trk_") + log_mods(c) + log_only(c, "snapshot_") + SEND_MODS + [("fresh", ENTRY), ("fresh", SNAP), ("fresh", RIS), ("heap", RIS, ".acks")]]


@contract("craft::Raft::TickElection", props=["C29", "C05"])
def tick_election(c):
    r = rn(c)
    tick_req(c, r)
    c.requires("not a leader", Not(r.leader()))
    if c.relevant(("C07",)):
        c.define(Q.ca_ext_fact())
    yield tick_mods(c)
    n, o = rn(c), ro(c)
    ens(c, tick_rel(c, o, n))
    due = z3.And(promotable(o), o.election_elapsed + 1 >= o.randomized_election_timeout)
    c.ensures("C29", "before the randomised timeout, and for a node that may not campaign, a tick only counts", Implies(Not(due), same(c, o, n, but=("election_elapsed_",))))
    c.ensures("C29", "the ticks since the last reset are counted", Implies(Not(due), n.election_elapsed == o.election_elapsed + 1))
    c.ensures("C29", "the randomised timeout restarts the timer", Implies(due, n.election_elapsed == 0))
    lone = Or(n.leader(), n.state == ec(c, CANDIDATE), z3.And(o.pre_vote, n.state == ec(c, PRECAND)))
    c.ensures("C29", "at the randomised timeout a voting member without pending snapshot or configuration change campaigns", Implies(z3.And(due, no_pending_conf(c, o)), z3.And(lone, Or(n.term == o.term + 1, n.state == ec(c, PRECAND)))))
    c.ensures("C19", "a campaign starts a new term with the own vote, a pre-campaign changes neither", Or(z3.And(n.term == o.term, n.vote == o.vote), z3.And(n.term == o.term + 1, n.vote == o.id)))


@contract("craft::Raft::TickHeartbeat", props=["C29", "C20", "C18", "C05"])
def tick_heartbeat(c):
    r = rn(c)
    tick_req(c, r)
    c.requires("a leader", r.leader())
    if c.relevant(("C07",)):
        c.define(Q.ca_ext_fact())
    yield tick_mods(c)
    n, o = rn(c), ro(c)
    ens(c, tick_rel(c, o, n))
    over = o.election_elapsed + 1 >= o.election_timeout
    beat = z3.And(n.leader(), o.heartbeat_elapsed + 1 >= o.heartbeat_timeout)
    everyone = n.nm == o.nm + c.ctx.card_facts(o.P) - z3.If(o.tracked(o.id), 1, 0)
    c.ensures("C29", "a leader emits heartbeats every heartbeat interval", z3.If(beat, z3.And(everyone, n.heartbeat_elapsed == 0, new_types(c, o, n, "MsgHeartbeat")), z3.And(n.nm == o.nm, Implies(n.leader(), n.heartbeat_elapsed == o.heartbeat_elapsed + 1))))
    c.ensures("C29", "the election timer of a leader counts to the election timeout", z3.And(n.election_elapsed == z3.If(over, 0, o.election_elapsed + 1)))
    if c.relevant(("C29",)):
        hr = ph(c, "recent_active_", o.st)
        hr = z3.If(o.tracked(o.id), z3.Store(hr, o.pr(o.id), z3.BoolVal(True)), hr)
        mem, val = active_votes(c, o, hr)
        won = T.joint_facts(c, o.v.trk_.config_.voters, mem, val)[0]
        c.ensures("C29", "every election timeout it checks its quorum and steps down without one", n.leader() == Or(Not(over), Not(o.check_quorum), won))
    c.ensures("C20", "an election timeout abandons a transfer", z3.If(over, n.lead_transferee == 0, n.lead_transferee == o.lead_transferee))
    q = o.rq
    ctx = z3.If(q.nq == 0, strconst(""), z3.Select(q.Q, q.nq - 1))
    c.ensures("C18", "heartbeats carry the smaller of match and commit index and the last read context", beats(c, o, n, ctx))
    c.ensures("C29", "the log is untouched", same_log(c, o, n))


# ---------------------------------------------------------------- the application acknowledges a Ready
class Rd:
    """view of a Ready"""

    def __init__(self, c, v):
        self.c, self.v = c, v
        self.E, self.m = v.committed_entries.arr, v.committed_entries.len
        self.A, self.n = v.entries.arr, v.entries.len
        st = v._st
        self.snap = v.snapshot.val
        self.sidx = v.snapshot.star.metadata.index
        self.lastref = z3.Select(self.A, self.n - 1)
        self.i, self.t = z3.Select(eh(c, "index", st), self.lastref), z3.Select(eh(c, "term", st), self.lastref)
        self.cursor = z3.If(self.m > 0, z3.Select(eh(c, "index", st), z3.Select(self.E, self.m - 1)), self.sidx)


def advance_hit(c, r, d):
    """the last entry of the ready is still the node's unstable entry at that index"""
    u = r.log.U
    return z3.And(d.n > 0, d.i >= u.off, d.i < u.off + u.n, z3.Select(eh(c, "term", r.st), z3.Select(u.A, d.i - u.off)) == d.t)


def advance_auto(c, r, d):
    return z3.And(d.cursor > 0, r.v.trk_.config_.auto_leave, r.log.applied <= r.pending_conf_index, d.cursor >= r.pending_conf_index, r.leader(), r.tracked(r.id))


@contract("craft::Ready::AppliedCursor", props=["C12", "C11"], total=True)
def applied_cursor(c):
    d = Rd(c, c.this)
    c.requires("entries and a snapshot", z3.And(nonnull_entries(c, d.E, d.m), d.snap > 0))
    yield []
    c.ensures("*", "the last committed entry, else the snapshot", c.result == Rd(c, c.this).cursor)


def advance_req(c, r, d):
    u = r.log.U
    c.requires("well-formed node", r.inv())
    c.requires("a ready of real objects", z3.And(nonnull_entries(c, d.E, d.m, r.st.alloc), nonnull_entries(c, d.A, d.n, r.st.alloc), d.snap > 0, d.snap < r.st.alloc))
    c.requires("room", z3.And(r.log.last < BIG - 4, r.uncommitted_size < 2 ** 63))
    j = z3.Int("j!ad")
    S = r.log.S
    hit = advance_hit(c, r, d)
    c.requires("the application persisted the entries of the ready", Implies(d.n > 0, z3.And(d.i >= 1, S.last == d.i, Implies(hit, z3.And(d.i >= S.first - 1, z3.ForAll([j], Implies(z3.And(j >= u.off, j <= d.i), S.term(j) == r.log.term(j)), patterns=[z3.Select(S.ents, j)]))))))
    c.requires("the application persisted the snapshot of the ready", Implies(z3.And(d.sidx != 0, r.log.hassnap, u.sidx == d.sidx), z3.And(S.first == d.sidx + 1, S.term(d.sidx) == u.sterm, Or(S.last == d.sidx, z3.And(d.n > 0, hit)))))
    c.requires("log matching: entries after a newer snapshot are not those of the ready", Implies(z3.And(hit, r.log.hassnap), z3.And(d.sidx != 0, u.sidx == d.sidx)))
    c.requires("a leader's log never loses entries of its term", Implies(z3.And(d.n > 0, r.leader(), d.t == r.term), d.i <= r.log.last))


def advance_ok(r, d):
    return Or(d.cursor == 0, z3.And(r.log.applied <= d.cursor, d.cursor <= r.log.committed))


def advance_rel(c, o, n, d):
    auto = advance_auto(c, o, d)
    hit = advance_hit(c, o, d)
    grow = z3.If(auto, 1, 0)
    off = z3.If(hit, d.i + 1, o.log.U.off)
    j = z3.Int("j!ad")
    yield "*", "node stays well-formed", n.inv()
    yield "*", "the applied index moves to the last entry or snapshot applied", n.log.applied == z3.If(d.cursor == 0, o.log.applied, d.cursor)
    yield "*", "the applied index never falls and stays within the committed log", z3.And(n.log.applied >= o.log.applied, n.log.applied <= n.log.committed)
    yield "C28", "entries are released exactly up to the acknowledged one, and only if it is still the same entry", z3.And(n.log.U.off == off, n.log.U.n == o.log.U.n + grow - (off - o.log.U.off))
    yield "C28", "the snapshot is released only if it is the acknowledged one", n.log.U.snap == z3.If(z3.And(d.sidx != 0, o.log.hassnap, o.log.U.sidx == d.sidx), 0, o.log.U.snap)
    yield "*", "the log keeps its entries", z3.And(n.log.last == o.log.last + grow, z3.ForAll([j], Implies(z3.And(j >= n.log.first - 1, j >= o.log.first - 1, j <= o.log.last), n.log.term(j) == o.log.term(j)), patterns=[z3.Select(o.log.S.ents, j)]))
    yield "C10", "an automatic exit from a joint configuration is proposed exactly once the pending change is applied", n.pending_conf_index == z3.If(auto, n.log.last, o.pending_conf_index)
    e = n.log.ent(n.log.last)
    yield "C10", "the proposal is an empty configuration change", Implies(z3.And(auto, n.log.last >= n.log.U.off), z3.And(z3.Select(eh(c, "type", n.st), e) == ec(c, "EntryConfChangeV2"), z3.Select(eh(c, "data", n.st), e) == strconst(""), z3.Select(eh(c, "term", n.st), e) == o.term))
    yield "*", "commit index only rises, to an entry of this term", z3.And(n.log.committed >= o.log.committed, Implies(n.log.committed > o.log.committed, z3.And(auto, n.log.term(n.log.committed) == n.term)))
    yield "C07", "commits only what a quorum holds", committed_ok(c, o, n)
    for h in psum_unfold(d.E, eh(c, "data", o.st), z3.IntVal(0)):
        c.define(h)
    s = PSUM(d.E, eh(c, "data", o.st), d.m)
    yield "C21", "the payload of the committed entries is taken off the tracked size", Implies(s >= 0, n.uncommitted_size == z3.If(s > o.uncommitted_size, 0, o.uncommitted_size - s))


@contract("craft::Raft::Advance", props=["C12", "C28", "C21", "C10", "C04", "C07"])
def advance(c):
    r, d = rn(c), Rd(c, c.arg(0))
    advance_req(c, r, d)
    c.nofatal = advance_ok(r, d)
    if c.relevant(("C07",)):
        c.define(Q.ca_ext_fact())
    yield log_only(c, "committed_", "entries_", "offset_", "applied_", "snapshot_") + fl(c, "uncommitted_size_", "pending_conf_index_") + [pr_loc(r, r.id), ("fresh", ENTRY)]
    n, o = rn(c), ro(c)
    ens(c, advance_rel(c, o, n, Rd(c, c.oldarg(0))))


# ---------------------------------------------------------------- the contracts of the parts the state machine is built on
_own = {c.key for c in CONTRACTS}
for _c in DEPS:
    if _c.key not in _own:
        _own.add(_c.key)
        CONTRACTS.append(_c)
