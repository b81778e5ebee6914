"""C13: MemoryStorage.  The lookups are stated in the same terms as the contract of the Storage interface that the log relies on."""
from contract import *
import spec_util as U
import spec_log as LG
from spec_log import COMPACTED, UNAVAILABLE, BIG, ENTRY, SNAP, code, eh, contiguous, kept_from, fl

CONTRACTS = list(U.CONTRACTS)
OUTDATED = "requested index is older than the existing snapshot"
C13 = ["C13"]


def contract(q, **kw):
    def deco(fn):
        CONTRACTS.append(Contract("craft::MemoryStorage::" + q, fn, **dict(dict(props=C13), **kw)))
        return fn
    return deco


class MS:
    """the storage a MemoryStorage represents: the dummy entry at offset, then the entries offset+1 .. last"""

    def __init__(self, c, v):
        self.c, self.st, self.v = c, v._st, v
        self.A, self.n = v.ents_.arr, v.ents_.len
        self.off = z3.Select(eh(c, "index", self.st), z3.Select(self.A, 0))
        self.first, self.last = self.off + 1, self.off + self.n - 1
        self.snap = v.snapshot_.val

    def ent(self, i):
        return z3.Select(self.A, i - self.off)

    def term(self, i):
        return z3.Select(eh(self.c, "term", self.st), self.ent(i))

    def inv(self):
        j = z3.Int("j!ms")
        e = z3.Select(self.A, j)
        return z3.And(self.n >= 1, self.off >= 0, self.off + self.n < BIG - 1, Implies(self.off == 0, self.term(0) == 0), self.snap != 0, self.snap < self.st.alloc,
                      z3.ForAll([j], Implies(z3.And(j >= 0, j < self.n), z3.And(e != 0, e < self.st.alloc, z3.Select(eh(self.c, "index", self.st), e) == self.off + j)), patterns=[e]))


def need(c):
    m = MS(c, c.this)
    c.requires("the storage is well-formed", m.inv())
    return m


def both(c):
    return MS(c, c.this), MS(c, c.old)


def unchanged(n, o):
    return z3.And(n.n == o.n, kept_from(o.A, o.n, n.A, n.n, z3.IntVal(0)))


@contract("MemoryStorage")
def ctor(c):
    c.nofatal = z3.BoolVal(True)
    yield []
    n = MS(c, c.this)
    c.ensures("*", "starts empty at index 0 and term 0", z3.And(n.n == 1, n.off == 0, n.term(0) == 0))
    c.ensures("*", "well-formed", n.inv())


@contract("LastIndexUnSafe")
def last_unsafe(c):
    m = need(c)
    c.nofatal = z3.BoolVal(True)
    yield []
    c.ensures("*", "last index", c.result == m.last)


@contract("FirstIndexUnSafe")
def first_unsafe(c):
    m = need(c)
    c.nofatal = z3.BoolVal(True)
    yield []
    c.ensures("*", "first index", c.result == m.first)


@contract("FirstIndex")
def first(c):
    m = need(c)
    c.nofatal = z3.BoolVal(True)
    yield []
    c.ensures("*", "first", z3.And(c.result.f1 == 0, c.result.f0 == m.first))


@contract("LastIndex")
def last(c):
    m = need(c)
    c.nofatal = z3.BoolVal(True)
    yield []
    c.ensures("*", "last", z3.And(c.result.f1 == 0, c.result.f0 == m.last))


@contract("Term")
def term(c):
    s = need(c)
    i = c.arg(0)
    c.nofatal = z3.BoolVal(True)
    yield []
    r, st = c.result.f0, c.result.f1
    c.ensures("*", "term", z3.And(
        (st == 0) == z3.And(i >= s.first - 1, i <= s.last), Implies(st == 0, r == s.term(i)),
        (st == code(c, COMPACTED)) == (i < s.first - 1), (st == code(c, UNAVAILABLE)) == (i > s.last)))


@contract("Entries")
def entries(c):
    s = need(c)
    lo, hi, mx0 = c.arg(0), c.arg(1), c.arg(2)
    c.requires("an ordered range", lo <= hi)
    LG.sum_facts(c)
    c.nofatal = hi <= s.last + 1
    yield []
    mx = z3.If(c.this.ignore_size_, U64 - 1, mx0)
    st, R = c.result.f1, c.result.f0
    j = z3.Int("j!me")
    bs = U.bsheap(c)
    ok = st == 0
    c.ensures("*", "status", z3.And(Or(ok, st == code(c, COMPACTED), st == code(c, UNAVAILABLE)), (st == code(c, COMPACTED)) == (lo < s.first),
                                    (st == code(c, UNAVAILABLE)) == z3.And(lo >= s.first, s.n == 1)))
    c.ensures("*", "a range beyond the end is refused", Or(lo < s.first, hi <= s.last + 1))
    c.ensures("*", "available whenever the range is non-empty and within the storage", Implies(z3.And(lo >= s.first, lo < hi), ok))
    c.ensures("*", "exactly the stored entries", Implies(ok, z3.And(R.len <= hi - lo, z3.If(lo == hi, R.len == 0, R.len >= 1),
              z3.ForAll([j], Implies(z3.And(j >= 0, j < R.len), z3.Select(R.arr, j) == s.ent(lo + j)), patterns=[z3.Select(R.arr, j)]))))
    for h in U.sum_unfold(R.arr, bs, R.len) + U.sum_unfold(R.arr, bs, R.len - 1):
        c.define(h)
    c.ensures("*", "longest prefix within the size limit", Implies(ok, z3.And(
        Implies(R.len > 1, U.SUM(R.arr, bs, R.len) <= mx), Implies(R.len < hi - lo, U.SUM(R.arr, bs, R.len) + z3.Select(bs, s.ent(lo + R.len)) > mx))))


@contract("SnapShot")
def snapshot(c):
    c.nofatal = z3.BoolVal(True)
    yield []
    c.ensures("*", "the current snapshot", z3.And(c.result.f1 == 0, c.result.f0.val == c.this.snapshot_.val))


@contract("InitialState")
def initial(c):
    c.requires("a snapshot", c.this.snapshot_.val != 0)
    c.nofatal = z3.BoolVal(True)
    yield []
    c.ensures("*", "hard state and the snapshot's configuration", And(c.result.f2 == 0, same(c, c.result.f0, c.this.hard_state_), same(c, c.result.f1, c.this.snapshot_.metadata.conf_state)))


@contract("SetHardState")
def sethard(c):
    c.nofatal = z3.BoolVal(True)
    yield fl(c.this, "hard_state_")
    c.ensures("*", "stored", And(c.result == 0, same(c, c.this.hard_state_, c.oldarg(0))))


@contract("ApplySnapshot")
def apply(c):
    s = need(c)
    sn = c.arg(0)
    c.requires("a snapshot with an index in range", z3.And(sn.val != 0, sn.metadata.index < BIG - 3))
    c.nofatal = z3.BoolVal(True)
    yield fl(c.this, "snapshot_", "ents_") + [("fresh", ENTRY)]
    n, o = both(c)
    sn = c.oldarg(0)
    old = o.v.snapshot_.metadata.index >= sn.metadata.index
    c.ensures("*", "an older snapshot is refused", z3.And(c.result == z3.If(old, code(c, OUTDATED), 0), Implies(old, z3.And(n.snap == o.snap, unchanged(n, o)))))
    c.ensures("*", "a newer one replaces the contents", Implies(z3.Not(old), z3.And(n.snap == sn.val, n.n == 1, n.off == sn.metadata.index, n.term(n.off) == sn.metadata.term)))
    c.ensures("*", "well-formed", n.inv())


@contract("CreateSnapshot")
def create(c):
    s = need(c)
    i = c.arg(0)
    c.nofatal = i <= s.last
    yield fl(c.this, "snapshot_") + [("fresh", SNAP)]
    n, o = both(c)
    st, r = c.result.f1, c.result.f0
    osn = o.v.snapshot_
    stale = i <= osn.metadata.index
    c.ensures("*", "stale or compacted indexes are refused", z3.And((st == code(c, OUTDATED)) == stale, (st == code(c, COMPACTED)) == z3.And(z3.Not(stale), i < o.off), Or(st == 0, st == code(c, OUTDATED), st == code(c, COMPACTED))))
    c.ensures("*", "refused: nothing changes", Implies(st != 0, z3.And(r.val == 0, n.snap == o.snap)))
    c.ensures("*", "beyond the last index is refused", Implies(st == 0, i <= o.last))
    c.ensures("*", "describes the requested index and its term", Implies(st == 0, z3.And(r.val == n.snap, r.val != 0, r.metadata.index == i, r.metadata.term == o.term(i))))
    cs = c.ctx.load(c._args[1])
    want = osn.metadata.conf_state if cs.loc is None else c.view(cs.loc, ("struct", "raftpb::ConfState"))
    c.ensures("*", "with the given data and configuration (the previous one if none is given)", Implies(st == 0, And(r.data == c.oldarg(2), same(c, r.metadata.conf_state, want))))
    c.ensures("*", "a snapshot already handed out is a different object", Implies(st == 0, n.snap >= c.pre.alloc))
    c.ensures("*", "well-formed", n.inv())


@contract("Compact")
def compact(c):
    s = need(c)
    i = c.arg(0)
    c.nofatal = i <= s.last
    yield fl(c.this, "ents_")
    n, o = both(c)
    done = i > o.off
    j = z3.Int("j!mc")
    c.ensures("*", "already compacted: refused, nothing changes", z3.And(c.result == z3.If(done, 0, code(c, COMPACTED)), Implies(z3.Not(done), unchanged(n, o))))
    c.ensures("*", "beyond the last index is refused", Implies(done, i <= o.last))
    c.ensures("*", "exactly the entries before the index are dropped", Implies(done, z3.And(n.first == i + 1, n.last == o.last, z3.ForAll([j], Implies(z3.And(j > i, j <= o.last), n.ent(j) == o.ent(j)), patterns=[n.ent(j)]))))
    c.ensures("*", "the term of the compacted index is kept", Implies(done, n.term(i) == o.term(i)))
    c.ensures("*", "well-formed", n.inv())


@contract("Append")
def append(c):
    s = need(c)
    E, m = LG.refs(c, 0)
    a = z3.Select(eh(c, "index", c.cur), z3.Select(E, 0))
    c.requires("contiguous entries", contiguous(c, E, m, c.cur))
    c.requires("last index in range", a + m < BIG - 4)
    c.nofatal = Or(m == 0, a <= s.last + 1)
    yield fl(c.this, "ents_") + [c._args[0]]
    n, o = both(c)
    E, m = c.oldarg(0).arr, c.oldarg(0).len
    j = z3.Int("j!mp")
    new = z3.And(m > 0, a + m - 1 >= o.first)
    c.ensures("*", "succeeds", c.result == 0)
    c.ensures("*", "only compacted entries: nothing changes", Implies(z3.Not(new), unchanged(n, o)))
    c.ensures("*", "gaps are refused", Implies(new, a <= o.last + 1))
    c.ensures("*", "ends with the last new entry", Implies(new, z3.And(n.first == o.first, n.last == a + m - 1)))
    c.ensures("*", "earlier entries are kept", Implies(new, z3.ForAll([j], Implies(z3.And(j >= o.off, j < a), n.ent(j) == o.ent(j)), patterns=[n.ent(j)])))
    c.ensures("*", "the term at the compaction point is kept", n.term(o.off) == o.term(o.off))
    c.ensures("*", "new entries overwrite from the first new index on", Implies(new, z3.ForAll([j], Implies(z3.And(j >= a, j >= o.first, j < a + m), n.ent(j) == z3.Select(E, j - a)), patterns=[n.ent(j)])))
    c.ensures("*", "well-formed", n.inv())
