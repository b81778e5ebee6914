"""Contracts of the read-only request queue (src/read_only.cc)."""
import z3
from contract import *
from values import STR
import spec_log as L_
MSG = "raftpb::Message"

CONTRACTS = []
RO = "craft::ReadOnly"
RIS = "craft::ReadIndexStatus"


def contract(q, **kw):
    def deco(fn):
        CONTRACTS.append(Contract(q, fn, **kw))
        return fn
    return deco


class RQ:
    """view of the queue of pending reads in one state"""

    def __init__(self, c, v):
        self.c, self.v, self.st = c, v, v._st

    @property
    def Q(self):
        return self.v.read_index_queue_.arr

    @property
    def nq(self):
        return self.v.read_index_queue_.len

    @property
    def P(self):
        return self.v.pending_read_index_.mem

    @property
    def PV(self):
        return self.v.pending_read_index_.val.lift.arrs[""]

    def sh(self, f):
        return self.c.ctx.hget(self.st, RIS, "." + f)

    def mh(self, f):
        return self.c.ctx.hget(self.st, MSG, "." + f)

    def status(self, s):
        return z3.Select(self.PV, s)

    def req(self, s):
        return z3.Select(self.sh("req"), self.status(s))

    def index(self, s):
        return z3.Select(self.sh("index"), self.status(s))

    def ctx_of(self, ref):
        """the context of a read request: the payload of its first entry"""
        return z3.Select(z3.Select(self.mh("entries[].data"), ref), 0)

    def pending_ok(self, s):
        a, q = self.st.alloc, self.req(s)
        return z3.And(self.status(s) > 0, self.status(s) < a, q > 0, q < a, z3.Select(self.mh("entries#"), q) >= 1, self.ctx_of(q) == s)

    def inv(self):
        s = z3.Const("s!ro", STR)
        i, j = z3.Ints("i!ro j!ro")
        qi, qj = z3.Select(self.Q, i), z3.Select(self.Q, j)
        return z3.And(self.nq >= 0,
                      z3.ForAll([s], Implies(z3.Select(self.P, s), self.pending_ok(s)), patterns=[self.status(s), z3.Select(self.P, s)]),
                      z3.ForAll([i], Implies(z3.And(i >= 0, i < self.nq), z3.Select(self.P, qi)), patterns=[qi]),
                      z3.ForAll([i, j], Implies(z3.And(i >= 0, i < j, j < self.nq), qi != qj), patterns=[z3.MultiPattern(qi, qj)]))


def request_ok(q, m):
    """a read request names its context in its first entry"""
    return z3.And(m > 0, m < q.st.alloc, z3.Select(q.mh("entries#"), m) >= 1)


def add_rel(c, o, n, index, m):
    s = o.ctx_of(m)
    x = z3.Const("x!ad", STR)
    i = z3.Int("i!ad")
    old = z3.Select(o.P, s)
    yield "*", "a known context changes nothing", Implies(old, z3.And(n.nq == o.nq, n.Q == o.Q, n.P == o.P, n.PV == o.PV))
    yield "*", "a new context goes to the end of the queue", Implies(Not(old), z3.And(n.nq == o.nq + 1, z3.Select(n.Q, o.nq) == s, z3.ForAll([i], Implies(z3.And(i >= 0, i < o.nq), z3.Select(n.Q, i) == z3.Select(o.Q, i)), patterns=[z3.Select(n.Q, i)])))
    yield "*", "with the request and the given commit index", Implies(Not(old), z3.And(n.req(s) == m, n.index(s) == index, n.status(s) >= o.st.alloc, n.status(s) < n.st.alloc))
    yield "*", "the others are untouched", z3.ForAll([x], z3.And(z3.Select(n.P, x) == Or(z3.Select(o.P, x), x == s), Implies(x != s, n.status(x) == o.status(x))), patterns=[z3.Select(n.P, x), n.status(x)])


@contract("craft::ReadOnly::AddRequest", props=["C17"], total=True)
def add_request(c):
    q = RQ(c, c.this)
    m = c.arg(1)
    c.requires("well-formed queue", q.inv())
    c.requires("a read request", request_ok(q, m.val))
    yield [c.this._x.f("read_index_queue_"), c.this._x.f("pending_read_index_"), ("fresh", RIS)]
    n, o = RQ(c, c.this), RQ(c, c.old)
    c.ensures("*", "queue stays well-formed", n.inv())
    for t, nm, f in add_rel(c, o, n, c.arg(0), m.val):
        c.ensures(t, nm, f)



def advance_rel(c, o, n, S, k, ctx):
    """the k statuses S are those of the queue up to ctx, which leave it"""
    i = z3.Int("i!av")
    x = z3.Const("x!av", STR)
    inq = z3.Exists([i], z3.And(i >= 0, i < o.nq, z3.Select(o.Q, i) == ctx))
    yield "*", "as many as stand in the queue up to the context", z3.And(k >= 0, k <= o.nq, Implies(k > 0, z3.Select(o.Q, k - 1) == ctx), Implies(k == 0, Not(inq)))
    yield "*", "the statuses in the order of the queue", z3.ForAll([i], Implies(z3.And(i >= 0, i < k), z3.Select(S, i) == o.status(z3.Select(o.Q, i))), patterns=[z3.Select(S, i)])
    yield "*", "they leave the queue, the rest stays", z3.And(n.nq == o.nq - k, z3.ForAll([i], Implies(z3.And(i >= 0, i < n.nq), z3.Select(n.Q, i) == z3.Select(o.Q, i + k)), patterns=[z3.Select(n.Q, i)]))
    yield "*", "the pending map loses only them", z3.ForAll([x], z3.And(Implies(z3.Select(n.P, x), z3.And(z3.Select(o.P, x), n.status(x) == o.status(x)))), patterns=[z3.Select(n.P, x)])
    yield "*", "nothing is lost without an answer", Implies(k == 0, n.P == o.P)


@contract("craft::ReadOnly::Advance", props=["C17"], total=True)
def advance(c):
    q = RQ(c, c.this)
    m = c.arg(0)
    c.requires("well-formed queue", q.inv())
    c.requires("a message", z3.And(m.val > 0, m.val < q.st.alloc))
    ctx = m.context

    def tmpl(L):
        from spec_conf import scan
        o = RQ(c, V(L.ctx, c.pre, c._this, ("struct", RO)))
        n = RQ(c, V(L.ctx, L.cur, c._this, ("struct", RO)))
        i = z3.Int("i!av")
        x = z3.Const("x!av", STR)
        for nm, t, loc in scan(L):
            if t[0] == "seq" and t[1] == ("ptr", ("struct", RIS)):
                v = L.ctx.load(loc, L.cur)
                A = v.lift.arrs[""]
                yield nm + " counts", v.len == L.k
                yield nm + " in order", z3.ForAll([i], Implies(z3.And(i >= 0, i < v.len), z3.And(i < o.nq, z3.Select(A, i) == o.status(z3.Select(o.Q, i)))), patterns=[z3.Select(A, i)])
                yield nm + " the rest is still pending", z3.ForAll([i], Implies(z3.And(i >= v.len, i < o.nq), z3.Select(n.P, z3.Select(o.Q, i))), patterns=[z3.Select(o.Q, i)])
            if t[0] == "int":
                yield nm + " counts along", L.ctx.load(loc, L.cur) == L.k
            if t[0] == "bool":
                yield nm + " still unset", Not(L.ctx.load(loc, L.cur))
        yield "not yet seen", z3.ForAll([i], Implies(z3.And(i >= 0, i < L.k), z3.Select(o.Q, i) != ctx), patterns=[z3.Select(o.Q, i)])
        yield "pending map only loses", z3.ForAll([x], Implies(z3.Select(n.P, x), z3.And(z3.Select(o.P, x), n.status(x) == o.status(x))), patterns=[z3.Select(n.P, x)])
        yield "pending map loses those seen", z3.ForAll([x], Implies(z3.And(z3.Select(o.P, x), Not(z3.Select(n.P, x))), z3.Exists([i], z3.And(i >= 0, i < L.k, z3.Select(o.Q, i) == x))), patterns=[z3.Select(n.P, x)])
    c.loops(tmpl)
    yield [c.this._x.f("read_index_queue_"), c.this._x.f("pending_read_index_")]
    n, o = RQ(c, c.this), RQ(c, c.old)
    for k, f in enumerate(n.inv().children()):
        c.ensures("*", "queue stays well-formed %d" % k, f)
    for t, nm, f in advance_rel(c, o, n, c.result.arr, c.result.len, ctx):
        c.ensures(t, nm, f)


ABSTRACT = dict(L_.ABSTRACT)
