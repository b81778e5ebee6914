"""C03, C04, C12, C27, C28 and the log part of C14: RaftLog over an abstract Storage, and Unstable."""
from contract import *
import spec_quorum as Q
import spec_util as U

CONTRACTS = list(U.CONTRACTS)
AI = U.AI
COMPACTED = "requested index is unavailable due to compaction"
UNAVAILABLE = "requested entry at index is unavailable"
BIG = 2 ** 62
ENTRY, SNAP = "raftpb::Entry", "raftpb::Snapshot"
TPTRE, TPTRS = ("ptr", ("struct", ENTRY)), ("ptr", ("struct", SNAP))
# the abstract state of a Storage implementation: entries first..last, the term of the entry before first, the snapshot
ABSTRACT = {"craft::Storage": [("first", TU64), ("last", TU64), ("dterm", TU64), ("ents", ("map", TU64, TPTRE)), ("snap", TPTRS)]}
TRUST = "Storage interface: the application's storage holds consecutive entries first..last and answers lookups accordingly (MemoryStorage is proved to in C13)"


def contract(q, **kw):
    def deco(fn):
        CONTRACTS.append(Contract(q, fn, **kw))
        return fn
    return deco


def eh(c, f, st):
    return c.ctx.hget(st, ENTRY, "." + f)


class Sto:
    """view of an abstract Storage"""

    def __init__(self, c, v):
        self.c, self.st = c, v._st
        self.first, self.last, self.dterm, self.snap = v.first, v.last, v.dterm, v.snap.val
        self.ents = v.ents.val.lift.arrs[""]
        self.x = v

    def term(self, i):
        return z3.If(i == self.first - 1, self.dterm, z3.Select(eh(self.c, "term", self.st), z3.Select(self.ents, i)))

    def inv(self):
        i = z3.Int("i!sto")
        e = z3.Select(self.ents, i)
        return z3.And(self.first >= 1, Implies(self.first == 1, self.dterm == 0), self.last + 1 >= self.first, self.last < BIG - 1,
                      z3.ForAll([i], Implies(z3.And(i >= self.first, i <= self.last), z3.And(e != 0, e < self.st.alloc, z3.Select(eh(self.c, "index", self.st), e) == i)), patterns=[e]))


class Uns:
    """view of an Unstable"""

    def __init__(self, c, v):
        self.c, self.st, self.v = c, v._st, v
        self.off, self.n, self.A = v.offset_, v.entries_.len, v.entries_.arr
        self.snap = v.snapshot_.val
        self.ssnap = v.snapshot_

    @property
    def sidx(self):
        return self.ssnap.metadata.index

    @property
    def sterm(self):
        return self.ssnap.metadata.term

    def inv(self):
        j = z3.Int("j!uns")
        e = z3.Select(self.A, j)
        return z3.And(self.off + self.n < BIG, z3.ForAll([j], Implies(z3.And(j >= 0, j < self.n), z3.And(e != 0, e < self.st.alloc, z3.Select(eh(self.c, "index", self.st), e) == self.off + j)), patterns=[e]))


class Log:
    """view of a RaftLog: the logical log it represents"""

    def __init__(self, c, v):
        self.c, self.st, self.v = c, v._st, v
        self.S = Sto(c, v.storage_)
        self.U = Uns(c, v.unstable_)
        u = self.U
        self.committed, self.applied = v.committed_, v.applied_
        self.hassnap = u.snap != 0
        self.first = z3.If(self.hassnap, u.sidx + 1, self.S.first)
        self.last = z3.If(u.n > 0, u.off + u.n - 1, z3.If(self.hassnap, u.sidx, self.S.last))

    def term(self, i):
        u = self.U
        return z3.If(i < u.off, z3.If(z3.And(self.hassnap, u.sidx == i), u.sterm, self.S.term(i)), z3.Select(eh(self.c, "term", self.st), z3.Select(u.A, i - u.off)))

    def ent(self, i):
        u = self.U
        return z3.If(i < u.off, z3.Select(self.S.ents, i), z3.Select(u.A, i - u.off))

    def inr(self, i):
        """index for which the log knows a term"""
        return z3.And(i >= self.first - 1, i <= self.last)

    def term0(self, i):
        return z3.If(self.inr(i), self.term(i), 0)

    @property
    def lastterm(self):
        return self.term(self.last)

    def shape(self):
        u = self.U
        return z3.And(self.v.storage_.val != 0, self.S.inv(), u.inv(), u.off >= 1,
                      Implies(self.hassnap, z3.And(u.sidx >= 1, u.sidx < BIG - 1, u.off == u.sidx + 1)),
                      Implies(z3.Not(self.hassnap), z3.And(self.S.first <= u.off, u.off <= self.S.last + 1, Implies(u.n == 0, u.off == self.S.last + 1))))

    def cursors(self):
        return z3.And(self.committed <= self.last, self.applied <= self.committed, self.first - 1 <= self.committed)

    def inv(self):
        return z3.And(self.shape(), self.cursors())


def log(c):
    return Log(c, c.this)


def code(c, s):
    return c.ctx.eng.status_code(s)


# ---------------------------------------------------------------- trusted: Storage
def sto(c):
    return Sto(c, c.this)


@contract("craft::Storage::FirstIndex", trusted=TRUST)
def s_first(c):
    yield []
    c.ensures("*", "first", z3.And(c.result.f1 == 0, c.result.f0 == sto(c).first))


@contract("craft::Storage::LastIndex", trusted=TRUST)
def s_last(c):
    yield []
    c.ensures("*", "last", z3.And(c.result.f1 == 0, c.result.f0 == sto(c).last))


@contract("craft::Storage::Term", trusted=TRUST)
def s_term(c):
    yield []
    s, i = sto(c), c.arg(0)
    r, st = c.result.f0, c.result.f1
    c.ensures("*", "term", z3.And(
        (st == 0) == z3.And(i >= s.first - 1, i <= s.last), Implies(st == 0, r == s.term(i)),
        (st == code(c, COMPACTED)) == (i < s.first - 1), (st == code(c, UNAVAILABLE)) == (i > s.last)))


@contract("craft::Storage::Entries", trusted=TRUST)
def s_entries(c):
    lo, hi, mx = c.arg(0), c.arg(1), c.arg(2)
    c.requires("a non-empty range within the storage", z3.And(lo < hi, hi <= sto(c).last + 1))
    yield []
    s = sto(c)
    st = c.result.f1
    R = c.result.f0.val
    A, n = R.lift.arrs[""], R.len
    j = z3.Int("j!se")
    c.ctx.lenfact(R)
    c.ensures("*", "status", z3.And(Or(st == 0, st == code(c, COMPACTED)), (st == code(c, COMPACTED)) == (lo < s.first)))
    c.ensures("*", "entries", Implies(st == 0, z3.ForAll([j], Implies(z3.And(j >= 0, j < n), z3.Select(A, j) == z3.Select(s.ents, lo + j)), patterns=[z3.Select(A, j)])))
    c.ensures("*", "limit", Implies(st == 0, z3.And(n <= hi - lo, limited_from(c, s.ents, lo, hi, mx, n, A))))


@contract("craft::Storage::SnapShot", trusted=TRUST)
def s_snapshot(c):
    yield []
    s = sto(c)
    st = c.result.f1
    c.ensures("*", "snapshot", z3.And(Or(st == 0, st == code(c, "snapshot is temporarily unavailable")), Implies(st == 0, c.result.f0.val == s.snap)))


@contract("craft::Storage::InitialState", trusted=TRUST)
def s_initial(c):
    yield []


def limited_from(c, ents, lo, hi, mx, n, A):
    """A[0..n) is the longest allowed prefix of ents[lo..hi)"""
    bs = U.bsheap(c)
    nxt = z3.Select(bs, z3.Select(ents, lo + n))
    for h in U.sum_unfold(A, bs, z3.IntVal(0)):
        c.define(h)
    return z3.And(n <= hi - lo, z3.If(hi == lo, n == 0, n >= 1), Implies(n > 1, U.SUM(A, bs, n) <= mx), Implies(n < hi - lo, U.SUM(A, bs, n) + nxt > mx))


# ---------------------------------------------------------------- Unstable
def uns(c):
    return Uns(c, c.this)


def uns_old(c):
    return Uns(c, c.old)


def refs(c, i):
    v = c.arg(i)
    return v.arr, v.len


def fl(v, *fs):
    return [v._x.f(f) for f in fs]


PU = ["C27"]


@contract("craft::Unstable::MaybeFirstIndex", props=PU)
def u_first(c):
    u = uns(c)
    c.requires("snapshot index in range", Implies(u.snap != 0, u.sidx < BIG))
    c.nofatal = z3.BoolVal(True)
    yield []
    c.ensures("*", "first", z3.And(c.result.f1 == (u.snap != 0), Implies(u.snap != 0, c.result.f0 == u.sidx + 1)))


@contract("craft::Unstable::MaybeLastIndex", props=PU)
def u_last(c):
    u = uns(c)
    c.requires("offset in range", u.off < BIG)
    c.nofatal = z3.BoolVal(True)
    yield []
    c.ensures("*", "last", z3.And(c.result.f1 == Or(u.n > 0, u.snap != 0), Implies(c.result.f1, c.result.f0 == z3.If(u.n > 0, u.off + u.n - 1, u.sidx))))


@contract("craft::Unstable::MaybeTerm", props=PU)
def u_term(c):
    u = uns(c)
    i = c.arg(0)
    c.requires("unstable entries are consecutive", u.inv())
    c.requires("snapshot before the entries", Implies(u.snap != 0, u.sidx < u.off))
    c.nofatal = z3.BoolVal(True)
    yield []
    ok, t = c.result.f1, c.result.f0
    ine = z3.And(i >= u.off, i < u.off + u.n)
    ins = z3.And(i < u.off, u.snap != 0, u.sidx == i)
    c.ensures("*", "known iff in the entries or the snapshot", ok == Or(ine, ins))
    c.ensures("*", "term", z3.And(Implies(z3.And(ok, ine), t == z3.Select(eh(c, "term", c.cur), z3.Select(u.A, i - u.off))), Implies(z3.And(ok, ins), t == u.sterm)))


def kept_from(A, n, B, m, d):
    """B[0..m) == A[d..d+m)"""
    j = z3.Int("j!kf")
    return z3.ForAll([j], Implies(z3.And(j >= 0, j < m), z3.Select(B, j) == z3.Select(A, j + d)), patterns=[z3.Select(B, j)])


@contract("craft::Unstable::StableTo", props=["C28"])
def u_stable(c):
    u = uns(c)
    i, t = c.arg(0), c.arg(1)
    c.requires("unstable entries are consecutive", u.inv())
    c.requires("snapshot before the entries", Implies(u.snap != 0, u.sidx < u.off))
    c.nofatal = z3.BoolVal(True)
    yield fl(c.this, "entries_", "offset_")
    o, n = uns_old(c), uns(c)
    hit = z3.And(i >= o.off, i < o.off + o.n, z3.Select(eh(c, "term", c.pre), z3.Select(o.A, i - o.off)) == t)
    c.ensures("*", "removed exactly up to the index when the term matches", Implies(hit, z3.And(n.off == i + 1, n.n == o.n - (i + 1 - o.off), kept_from(o.A, o.n, n.A, n.n, i + 1 - o.off))))
    c.ensures("*", "otherwise nothing changes", Implies(z3.Not(hit), z3.And(n.off == o.off, n.n == o.n, kept_from(o.A, o.n, n.A, n.n, z3.IntVal(0)))))
    c.ensures("*", "entries stay consecutive", n.inv())


@contract("craft::Unstable::StableSnapTo", props=["C28"])
def u_stablesnap(c):
    c.nofatal = z3.BoolVal(True)
    yield fl(c.this, "snapshot_")
    o, n = uns_old(c), uns(c)
    c.ensures("*", "released only if the index matches", n.snap == z3.If(z3.And(o.snap != 0, o.sidx == c.arg(0)), 0, o.snap))


@contract("craft::Unstable::Restore", props=["C14"])
def u_restore(c):
    s = c.arg(0)
    c.requires("a snapshot with an index in range", z3.And(s.val != 0, s.metadata.index < BIG))
    c.nofatal = z3.BoolVal(True)
    yield fl(c.this, "entries_", "offset_", "snapshot_")
    n = uns(c)
    c.ensures("*", "only the snapshot remains", z3.And(n.n == 0, n.off == s.metadata.index + 1, n.snap == s.val))


@contract("craft::Unstable::TruncateAndAppend", props=["C03", "C04"])
def u_append(c):
    u = uns(c)
    E, m = refs(c, 0)
    a = z3.Select(eh(c, "index", c.cur), z3.Select(E, 0))
    c.requires("unstable entries are consecutive", u.inv())
    c.requires("some entries, the first non-null and not beyond the end", z3.And(m >= 1, z3.Select(E, 0) != 0, a >= 1, a <= u.off + u.n))
    c.nofatal = z3.BoolVal(True)
    yield fl(c.this, "entries_", "offset_")
    o, n = uns_old(c), uns(c)
    j = z3.Int("j!ta")
    keep = z3.If(a <= o.off, 0, a - o.off)
    c.ensures("*", "offset", n.off == z3.If(a < o.off, a, o.off))
    c.ensures("*", "length", n.n == keep + m)
    c.ensures("*", "kept part", z3.ForAll([j], Implies(z3.And(j >= 0, j < keep), z3.Select(n.A, j) == z3.Select(o.A, j)), patterns=[z3.Select(n.A, j)]))
    c.ensures("*", "appended part", z3.ForAll([j], Implies(z3.And(j >= keep, j < n.n), z3.Select(n.A, j) == z3.Select(E, j - keep)), patterns=[z3.Select(n.A, j)]))


@contract("craft::Unstable::Slice", props=["C27"])
def u_slice(c):
    u = uns(c)
    lo, hi = c.arg(0), c.arg(1)
    c.requires("offset in range", u.off < BIG)
    c.nofatal = z3.And(lo <= hi, lo >= u.off, hi <= u.off + u.n)
    yield []
    R = c.result
    c.ensures("*", "bounds were valid", z3.And(lo <= hi, lo >= u.off, hi <= u.off + u.n))
    c.ensures("*", "the entries of the range", z3.And(R.len == hi - lo, kept_from(u.A, u.n, R.arr, R.len, lo - u.off)))


# ---------------------------------------------------------------- RaftLog: reads
def need(c, *what):
    l = log(c)
    for w in what or ("shape",):
        if w == "shape":
            c.requires("the log is well-formed", l.shape())
        elif w == "inv":
            c.requires("the log is well-formed", l.inv())
    return l


@contract("craft::RaftLog::FirstIndex", props=PU)
def l_first(c):
    l = need(c)
    c.nofatal = z3.BoolVal(True)
    yield []
    c.ensures("*", "first index of the logical log", c.result == l.first)


@contract("craft::RaftLog::LastIndex", props=PU)
def l_last(c):
    l = need(c)
    c.nofatal = z3.BoolVal(True)
    yield []
    c.ensures("*", "last index of the logical log", c.result == l.last)


@contract("craft::RaftLog::Term", props=PU)
def l_term(c):
    l = need(c)
    i = c.arg(0)
    c.nofatal = z3.BoolVal(True)
    yield []
    c.ensures("*", "term of the logical log (0 outside)", z3.And(c.result.f1 == 0, c.result.f0 == l.term0(i)))


@contract("craft::RaftLog::MatchTerm", props=["C03"])
def l_match(c):
    l = need(c)
    c.nofatal = z3.BoolVal(True)
    yield []
    c.ensures("*", "compares the log's term", c.result == (l.term0(c.arg(0)) == c.arg(1)))


@contract("craft::RaftLog::LastTerm", props=["C06"])
def l_lastterm(c):
    l = need(c)
    c.nofatal = z3.BoolVal(True)
    yield []
    c.ensures("*", "term of the last entry", c.result == l.lastterm)


@contract("craft::RaftLog::IsUpToData", props=["C06"])
def l_uptodate(c):
    l = need(c)
    c.nofatal = z3.BoolVal(True)
    yield []
    i, t = c.arg(0), c.arg(1)
    c.ensures("*", "at least as up to date", c.result == Or(t > l.lastterm, z3.And(t == l.lastterm, i >= l.last)))


@contract("craft::RaftLog::ZeroTermOnErrCompacted", props=["C07"])
def l_zero(c):
    c.nofatal = Or(c.arg(0).f1 == 0, c.arg(0).f1 == code(c, COMPACTED))
    yield []
    st = c.arg(0).f1
    c.ensures("*", "term or zero", Implies(st == 0, c.result == c.arg(0).f0))


@contract("craft::RaftLog::MustCheckOutOfBounds", props=["C27"])
def l_bounds(c):
    l = need(c)
    lo, hi = c.arg(0), c.arg(1)
    c.nofatal = z3.And(lo <= hi, Or(lo < l.first, hi <= l.last + 1))
    yield []
    c.ensures("*", "below the first index is compacted", z3.And(c.result == z3.If(lo < l.first, code(c, COMPACTED), 0)))
    c.ensures("*", "valid range otherwise", z3.And(lo <= hi, Or(lo < l.first, hi <= l.last + 1)))


def sum_facts(c):
    A, B, bs = z3.Consts("A!sf B!sf bs!sf", AI)
    n = z3.Int("n!sf")
    if c.mode == "verify":
        c.define(z3.ForAll([A, B, bs, n], U.sum_prefix(A, B, bs, n), patterns=[z3.MultiPattern(U.SUM(A, bs, n), U.SUM(B, bs, n))]))


@contract("craft::RaftLog::Slice", props=["C27", "C12"])
def l_slice(c):
    l = need(c)
    lo, hi, mx = c.arg(0), c.arg(1), c.arg(2)
    sum_facts(c)
    c.nofatal = z3.And(lo <= hi, Or(lo < l.first, hi <= l.last + 1))
    yield []
    st = c.result.f1
    R = c.result.f0
    j = z3.Int("j!sl")
    c.ensures("*", "below the first index is compacted", z3.And(lo <= hi, Or(st == 0, st == code(c, COMPACTED)), (st == 0) == (lo >= l.first)))
    c.ensures("*", "within the log", Implies(st == 0, hi <= l.last + 1))
    c.ensures("*", "exactly the log's entries from the lower bound", Implies(st == 0, z3.And(R.len <= hi - lo, z3.If(lo == hi, R.len == 0, R.len >= 1),
              z3.ForAll([j], Implies(z3.And(j >= 0, j < R.len), z3.Select(R.arr, j) == l.ent(lo + j)), patterns=[z3.Select(R.arr, j)]))))
    bs = U.bsheap(c)
    for h in U.sum_unfold(R.arr, bs, R.len) + U.sum_unfold(R.arr, bs, R.len - 1):
        c.define(h)
    c.ensures("C27", "fits the size limit", Implies(z3.And(st == 0, R.len > 1), U.SUM(R.arr, bs, R.len) <= mx))
    c.ensures("C27", "cut short only by the size limit", Implies(z3.And(st == 0, R.len < hi - lo), U.SUM(R.arr, bs, R.len) + z3.Select(bs, l.ent(lo + R.len)) > mx))


@contract("craft::RaftLog::Entries", props=["C27"])
def l_entries(c):
    l = need(c)
    i, mx = c.arg(0), c.arg(1)
    c.nofatal = z3.BoolVal(True)
    yield []
    st = c.result.f1
    R = c.result.f0
    j = z3.Int("j!sl")
    ok = z3.And(st == 0, i <= l.last)
    c.ensures("*", "status", z3.And(Or(st == 0, st == code(c, COMPACTED)), (st == 0) == Or(i > l.last, i >= l.first)))
    c.ensures("*", "nothing beyond the end", Implies(i > l.last, R.len == 0))
    c.ensures("*", "the log's entries from the index", Implies(ok, z3.And(R.len <= l.last + 1 - i, R.len >= 1,
              z3.ForAll([j], Implies(z3.And(j >= 0, j < R.len), z3.Select(R.arr, j) == l.ent(i + j)), patterns=[z3.Select(R.arr, j)]))))
    bs = U.bsheap(c)
    c.ensures("C27", "cut short only by the size limit", Implies(z3.And(ok, R.len < l.last + 1 - i), U.SUM(R.arr, bs, R.len) + z3.Select(bs, l.ent(i + R.len)) > mx))


def nextoff(l):
    return z3.If(l.applied + 1 > l.first, l.applied + 1, l.first)


@contract("craft::RaftLog::NextEnts", props=["C12"])
def l_next(c):
    l = need(c, "inv")
    c.nofatal = z3.BoolVal(True)
    yield []
    R = c.result
    j = z3.Int("j!ne")
    off = nextoff(l)
    c.ensures("*", "empty iff there is no backlog", (R.len == 0) == (l.committed < off))
    c.ensures("*", "never beyond the commit index", off + R.len - 1 <= z3.If(l.committed < off, off - 1, l.committed))
    c.ensures("*", "exactly the log's entries right after the applied index", z3.ForAll([j], Implies(z3.And(j >= 0, j < R.len), z3.Select(R.arr, j) == l.ent(off + j)), patterns=[z3.Select(R.arr, j)]))


@contract("craft::RaftLog::HasNextEnts", props=["C12", "C11"])
def l_hasnext(c):
    l = need(c, "inv")
    c.nofatal = z3.BoolVal(True)
    yield []
    c.ensures("*", "there is a backlog", c.result == (l.committed >= nextoff(l)))


@contract("craft::RaftLog::HasPendingSnapshot", props=["C11"])
def l_haspending(c):
    c.nofatal = z3.BoolVal(True)
    yield []
    u = Uns(c, c.this.unstable_)
    c.ensures("*", "pending snapshot", c.result == z3.And(u.snap != 0, u.sidx != 0))


@contract("craft::RaftLog::UnstableEntries", props=["C11"])
def l_unstable(c):
    c.nofatal = z3.BoolVal(True)
    yield []
    u = Uns(c, c.this.unstable_)
    R = c.result
    j = z3.Int("j!ue")
    c.ensures("*", "all unstable entries", z3.And(R.len == u.n, z3.ForAll([j], Implies(z3.And(j >= 0, j < u.n), z3.Select(R.arr, j) == z3.Select(u.A, j)), patterns=[z3.Select(R.arr, j)])))


@contract("craft::RaftLog::Snapshot", props=["C16"])
def l_snapshot(c):
    l = need(c)
    c.nofatal = z3.BoolVal(True)
    yield []
    st, s = c.result.f1, c.result.f0.val
    c.ensures("*", "pending snapshot or the storage's", z3.And(Or(st == 0, st == code(c, "snapshot is temporarily unavailable")), Implies(l.hassnap, st == 0), Implies(st == 0, s == z3.If(l.hassnap, l.U.snap, l.S.snap))))


# ---------------------------------------------------------------- RaftLog: updates
def newlog(c):
    return Log(c, c.this), Log(c, c.old)


def ulocs(c, *fs):
    return [c.this.unstable_._x.f(f) for f in fs]


@contract("craft::RaftLog::CommitTo", props=["C04"])
def l_committo(c):
    l = need(c, "inv")
    c.nofatal = c.arg(0) <= l.last
    yield fl(c.this, "committed_")
    n, o = newlog(c)
    t = c.arg(0)
    c.ensures("*", "raised to the given index, never lowered", n.committed == z3.If(t > o.committed, t, o.committed))
    c.ensures("*", "within the log", n.committed <= n.last)


@contract("craft::RaftLog::AppliedTo", props=["C04", "C12"])
def l_appliedto(c):
    l = need(c, "inv")
    c.nofatal = Or(c.arg(0) == 0, z3.And(l.applied <= c.arg(0), c.arg(0) <= l.committed))
    yield fl(c.this, "applied_")
    n, o = newlog(c)
    t = c.arg(0)
    c.ensures("*", "moved to the given index", n.applied == z3.If(t == 0, o.applied, t))
    c.ensures("*", "never back and never beyond the commit index", z3.And(n.applied >= o.applied, n.applied <= n.committed))


@contract("craft::RaftLog::MaybeCommit", props=["C04", "C07"])
def l_maybecommit(c):
    l = need(c, "inv")
    m, t = c.arg(0), c.arg(1)
    c.requires("a real term", t > 0)
    c.nofatal = z3.BoolVal(True)
    yield fl(c.this, "committed_")
    n, o = newlog(c)
    hit = z3.And(m > o.committed, m <= o.last, o.term(m) == t)
    c.ensures("*", "commits only an entry of the given term", z3.And(c.result == hit, n.committed == z3.If(hit, m, o.committed)))


@contract("craft::RaftLog::Restore", props=["C14", "C04"])
def l_restore(c):
    l = need(c, "inv")
    s = c.arg(0)
    c.requires("a snapshot beyond the commit index", z3.And(s.val != 0, s.metadata.index < BIG - 1, s.metadata.index >= 1, s.metadata.index >= l.committed))
    c.nofatal = z3.BoolVal(True)
    yield fl(c.this, "committed_") + ulocs(c, "entries_", "offset_", "snapshot_")
    n, o = newlog(c)
    i = s.metadata.index
    c.ensures("*", "the log is the snapshot", z3.And(n.committed == i, n.last == i, n.first == i + 1, n.lastterm == s.metadata.term, n.U.n == 0, n.U.snap == s.val, n.U.off == i + 1))
    c.ensures("*", "still well-formed", n.inv())


def contiguous(c, E, m, st, first=None):
    """entries E[0..m) are non-null with consecutive indexes and non-zero terms"""
    j = z3.Int("j!ct")
    e = z3.Select(E, j)
    ix = eh(c, "index", st)
    f = first if first is not None else z3.Select(ix, z3.Select(E, 0))
    return z3.And(Implies(m > 0, z3.And(f >= 1, f + m < BIG)), z3.ForAll([j], Implies(z3.And(j >= 0, j < m), z3.And(e != 0, e < st.alloc, z3.Select(ix, e) == f + j, z3.Select(eh(c, "term", st), e) > 0)), patterns=[e]))


@contract("craft::RaftLog::Append", props=["C03", "C04"])
def l_append(c):
    l = need(c, "inv")
    E, m = refs(c, 0)
    a = z3.Select(eh(c, "index", c.cur), z3.Select(E, 0))
    c.requires("contiguous entries", contiguous(c, E, m, c.cur))
    c.requires("no gap after the log", Implies(m > 0, a <= l.last + 1))
    c.nofatal = Implies(m > 0, a > l.committed)
    yield ulocs(c, "entries_", "offset_")
    n, o = newlog(c)
    i = z3.Int("i!ap")
    j = z3.Int("j!ap")
    c.ensures("*", "returns the last index", c.result == n.last)
    c.ensures("*", "the given entries are at the end", z3.And(n.last == z3.If(m > 0, a + m - 1, o.last), n.first == o.first,
              z3.ForAll([j], Implies(z3.And(j >= a, j < a + m), n.ent(j) == z3.Select(E, j - a)))))
    c.ensures("*", "nothing before them changes", Implies(m > 0, z3.And(a > o.committed, z3.ForAll([i], Implies(z3.And(i >= o.first - 1, i < a), z3.And(n.term(i) == o.term(i), n.ent(i) == o.ent(i)))))))
    c.ensures("*", "nothing given, nothing changes", Implies(m == 0, z3.And(n.U.off == o.U.off, n.U.n == o.U.n, kept_from(o.U.A, o.U.n, n.U.A, n.U.n, z3.IntVal(0)))))
    c.ensures("*", "terms of the given entries", z3.ForAll([j], Implies(z3.And(j >= a, j < a + m), n.term(j) == z3.Select(eh(c, "term", c.cur), z3.Select(E, j - a)))))
    c.ensures("*", "unstable part", Implies(m > 0, z3.And(n.U.off == z3.If(a < o.U.off, a, o.U.off), n.U.n == a - n.U.off + m)))
    c.ensures("C28", "appended at the end, the unstable entries before stay", Implies(z3.And(m > 0, a == o.last + 1), z3.And(n.U.off == o.U.off, n.U.n == o.U.n + m, z3.ForAll([j], Implies(z3.And(j >= 0, j < o.U.n), z3.Select(n.U.A, j) == z3.Select(o.U.A, j)), patterns=[z3.Select(n.U.A, j)]))))
    c.ensures("*", "still well-formed", n.inv())


def conflict_pred(c, l, E, m, res, first):
    """res is the index of the first entry whose term the log does not have, or 0"""
    j = z3.Int("j!cf")
    tm = eh(c, "term", l.st)
    ok = l.term0(first + j) == z3.Select(tm, z3.Select(E, j))
    return z3.And(Implies(res == 0, z3.ForAll([j], Implies(z3.And(j >= 0, j < m), ok), patterns=[z3.Select(E, j)])),
                  Implies(res != 0, z3.And(res >= first, res < first + m, l.term0(res) != z3.Select(tm, z3.Select(E, res - first)),
                                           z3.ForAll([j], Implies(z3.And(j >= 0, j < res - first), ok), patterns=[z3.Select(E, j)]))))


@contract("craft::RaftLog::FindConflict", props=["C03"])
def l_conflict(c):
    l = need(c)
    E, m = refs(c, 0)
    f = z3.Select(eh(c, "index", c.cur), z3.Select(E, 0))
    c.requires("contiguous entries", contiguous(c, E, m, c.cur))

    def tmpl(L):
        j = z3.Int("j!cf")
        yield "matched so far", z3.ForAll([j], Implies(z3.And(j >= 0, j < L.k), l.term0(f + j) == z3.Select(eh(c, "term", l.st), z3.Select(E, j))), patterns=[z3.Select(E, j)])
    c.nofatal = z3.BoolVal(True)
    c.loops(tmpl)
    yield []
    c.ensures("*", "first conflicting index or zero", conflict_pred(c, l, E, m, c.result, f))


@contract("craft::RaftLog::MaybeAppend", props=["C03", "C04"])
def l_maybeappend(c):
    l = need(c, "inv")
    idx, lt, com = c.arg(0), c.arg(1), c.arg(2)
    E, m = refs(c, 3)
    c.requires("contiguous entries after the preceding index", contiguous(c, E, m, c.cur, idx + 1))
    c.requires("a real preceding term unless the preceding index is known", z3.And(idx < BIG, Or(lt > 0, l.inr(idx))))
    if c.mode == "verify":
        # ghost: the index of the first conflict (0 if none); any witness works, it is determined by conflict_pred
        pass
    yield fl(c.this, "committed_") + ulocs(c, "entries_", "offset_") + [c._args[3]]
    n, o = newlog(c)
    E, m = c.oldarg(3).arr, c.oldarg(3).len
    match = z3.And(o.inr(idx), o.term(idx) == lt)
    r, ok = c.result.f0, c.result.f1
    i, j = z3.Ints("i!ma j!ma")
    tm = eh(c, "term", c.pre)
    c.ensures("*", "accepted exactly on a matching prefix", ok == match)
    c.ensures("*", "refused: nothing changes", Implies(z3.Not(match), z3.And(n.committed == o.committed, n.U.off == o.U.off, n.U.n == o.U.n, kept_from(o.U.A, o.U.n, n.U.A, n.U.n, z3.IntVal(0)))))
    c.ensures("*", "reported last index", Implies(match, r == idx + m))
    c.ensures("*", "every given entry is in the log", Implies(match, z3.And(n.last >= idx + m, z3.ForAll([j], Implies(z3.And(j >= 0, j < m), n.term(idx + 1 + j) == z3.Select(tm, z3.Select(E, j))), patterns=[z3.Select(E, j)]))))
    conflict = z3.Exists([j], z3.And(j >= 0, j < m, o.term0(idx + 1 + j) != z3.Select(tm, z3.Select(E, j))))
    c.ensures("C03", "without a conflict the log is untouched", Implies(z3.And(match, z3.Not(conflict)), z3.And(n.last == o.last, n.U.off == o.U.off, n.U.n == o.U.n, kept_from(o.U.A, o.U.n, n.U.A, n.U.n, z3.IntVal(0)))))
    c.ensures("C03", "with a conflict the log ends with the given entries", Implies(z3.And(match, conflict), n.last == idx + m))
    c.ensures("*", "entries before the first conflict are untouched", Implies(match, z3.ForAll([i], Implies(z3.And(i >= o.first - 1, i <= o.last, z3.ForAll([j], Implies(z3.And(j >= 0, j < m, idx + 1 + j <= i), o.term0(idx + 1 + j) == z3.Select(tm, z3.Select(E, j))))), z3.And(n.term(i) == o.term(i), n.ent(i) == o.ent(i))))))
    c.ensures("C04", "nothing at or below the commit index changes", z3.ForAll([i], Implies(z3.And(i >= o.first - 1, i <= o.committed), z3.And(n.term(i) == o.term(i), n.ent(i) == o.ent(i), i <= n.last))))
    tc = z3.If(com < idx + m, com, idx + m)
    c.ensures("*", "commit index raised to the given one, bounded by the last new entry", Implies(match, n.committed == z3.If(tc > o.committed, tc, o.committed)))
    c.ensures("*", "first index unchanged", n.first == o.first)
    c.ensures("*", "still well-formed", n.inv())


@contract("craft::RaftLog::FindConflictByTerm", props=["C03"])
def l_conflictbyterm(c):
    l = need(c)
    i, t = c.arg(0), c.arg(1)
    c.requires("index in range", i < BIG)

    def tmpl(L):
        j = z3.Int("j!fc")
        for nm, a, b in Q.int_locals(L):
            yield nm + " above are larger", z3.And(b <= i, z3.ForAll([j], Implies(z3.And(j > b, j <= i), l.term0(j) > t), patterns=[z3.Select(l.S.ents, j)]))
    c.nofatal = z3.BoolVal(True)
    c.loops(tmpl)
    yield []
    r = c.result
    j = z3.Int("j!fc")
    c.ensures("C03 C16", "largest index at or below the given one with a term at most the given one", Implies(i <= l.last, z3.And(r <= i, l.term0(r) <= t, z3.ForAll([j], Implies(z3.And(j > r, j <= i), l.term0(j) > t), patterns=[z3.Select(l.S.ents, j)]))))
    c.ensures("C03 C16", "beyond the end it is returned as is", Implies(i > l.last, r == i))


@contract("craft::RaftLog::RaftLog", nparams=3, props=["C04"])
def l_ctor(c):
    c.requires("a storage", c.arg(1).val != 0)
    c.requires("storage is well-formed", Sto(c, c.arg(1).star).inv())
    c.nofatal = z3.BoolVal(True)
    yield []
    n = Log(c, c.this)
    c.ensures("*", "starts with the storage's contents and nothing beyond its first index applied", z3.And(n.committed == n.S.first - 1, n.applied == n.S.first - 1, n.last == n.S.last, n.U.n == 0, n.U.snap == 0, n.inv()))
