"""C24: size-limited prefixes; message classification helpers."""
from contract import *
import spec_quorum as Q

CONTRACTS = []


def contract(q, **kw):
    def deco(fn):
        CONTRACTS.append(Contract(q, fn, **dict(dict(total=True), **kw)))
        return fn
    return deco


AI = z3.ArraySort(INT, INT)
SUM = z3.Function("SUM_BYTES", AI, AI, INT, INT)      # (entry refs, size of an entry, n): total size of the first n


def sum_unfold(A, bs, n):
    return [SUM(A, bs, z3.IntVal(0)) == 0, Implies(n >= 0, SUM(A, bs, n + 1) == SUM(A, bs, n) + z3.Select(bs, z3.Select(A, n)))]


def limited(A, bs, total, mx, n):
    """n is the length of the longest prefix of A[0..total) of size at most mx (at least one element)"""
    m = z3.Int("m!lim")
    return z3.And(n <= total, z3.If(total == 0, n == 0, n >= 1), Implies(n > 1, SUM(A, bs, n) <= mx), Implies(n < total, SUM(A, bs, n + 1) > mx))




def bsheap(c, st=None):
    return c.ctx.hget(st or c.cur, "raftpb::Entry", ".$bs")


def sum_lemmas():
    A, B, bs = z3.Consts("A!s B!s bs!s", AI)
    n, i = z3.Ints("n!s i!s")
    return A, B, bs, n, i


def sum_prefix(A, B, bs, n):
    i = z3.Int("i!sp")
    return Implies(z3.And(n >= 0, z3.ForAll([i], Implies(z3.And(i >= 0, i < n), z3.Select(A, i) == z3.Select(B, i)))), SUM(A, bs, n) == SUM(B, bs, n))


def sum_prefix_lemma(add):
    A, B, bs = z3.Consts("A B bs", AI)
    n = z3.Int("n")
    Q.ind(add, "equal prefixes have equal size", lambda m: sum_prefix(A, B, bs, m), n, lambda m: sum_unfold(A, bs, m) + sum_unfold(B, bs, m))


def sum_mono_lemma(add):
    A, bs = z3.Consts("A bs", AI)
    n, m, r = z3.Ints("n m r")
    nn = z3.ForAll([r], z3.Select(bs, r) >= 0)
    Q.ind(add, "longer prefixes are not smaller", lambda x: Implies(z3.And(nn, m >= 0, m <= x), SUM(A, bs, m) <= SUM(A, bs, x)), n, lambda x: sum_unfold(A, bs, x) + [Implies(m == x + 1, SUM(A, bs, m) == SUM(A, bs, x + 1)), Implies(x == 0, Implies(z3.And(m >= 0, m <= x), m == 0))])


CONTRACTS.append(Lemma("prefix sizes", sum_prefix_lemma, ["C24", "C27", "C12"]))
CONTRACTS.append(Lemma("prefix sizes grow", sum_mono_lemma, ["C24"]))


@contract("craft::Util::LimitSize", props=["C24"])
def limit_size(c):
    v = c.arg(0).val
    A, n = v.lift.arrs[""], v.len
    bs = bsheap(c)
    mx = c.arg(1)
    r = z3.Int("r!b")
    j = z3.Int("j!b")
    if c.mode == "verify":
        c.define(z3.ForAll([r], z3.And(z3.Select(bs, r) >= 0, z3.Select(bs, r) < 2 ** 31), patterns=[z3.Select(bs, r)]))
        c.requires("entries are non-null", z3.ForAll([j], Implies(z3.And(j >= 0, j < n), z3.Select(A, j) != 0), patterns=[z3.Select(A, j)]))
    else:
        c.requires("entries are non-null", z3.ForAll([j], Implies(z3.And(j >= 0, j < n), z3.Select(A, j) != 0), patterns=[z3.Select(A, j)]))

    def tmpl(L):
        S = SUM(A, bs, L.k)
        for nm, a, b in Q.int_locals(L):
            yield nm + "=sum", b == a + S
        yield "sum bound", z3.And(S >= 0, S <= L.k * 2 ** 31, L.k <= n)
        yield "within", Implies(L.k > 1, S <= mx)
    c.loops(tmpl)
    c.hints(lambda L, k, ex: sum_unfold(A, bs, k))
    yield [c._args[0]]
    R = c.result.val
    Ra = R.lift.arrs[""] if isinstance(R.lift, LArr) else c.ctx.reify_seq(R).lift.arrs[""]
    for h in sum_unfold(A, bs, z3.IntVal(0)) + sum_unfold(A, bs, R.len):
        c.define(h)
    c.ensures("*", "a prefix, unchanged and in order", z3.ForAll([j], Implies(z3.And(j >= 0, j < R.len), z3.Select(Ra, j) == z3.Select(A, j)), patterns=[z3.Select(Ra, j)]))
    c.ensures("*", "the longest one within the limit, at least one entry", limited(A, bs, n, mx, R.len))


def mt(c, *names):
    m = c.ctx.eng.prog.enumconst
    return [m[x] for x in names]


@contract("craft::Util::IsLocalMsg", props=["C23"])
def is_local(c):
    yield []
    t = c.arg(0)
    c.ensures("*", "local message types", c.result == Or(*[t == x for x in mt(c, "MsgHup", "MsgBeat", "MsgUnreachable", "MsgSnapStatus", "MsgCheckQuorum")]))


@contract("craft::Util::IsResponseMsg", props=["C23"])
def is_resp(c):
    yield []
    t = c.arg(0)
    c.ensures("*", "response message types", c.result == Or(*[t == x for x in mt(c, "MsgAppResp", "MsgVoteResp", "MsgHeartbeatResp", "MsgUnreachable", "MsgPreVoteResp")]))


@contract("craft::Util::Random", props=["C29"], trusted="std::uniform_int_distribution returns a value in the closed range given to it")
def random(c):
    c.requires("the range is not empty", c.arg(0) <= c.arg(1))
    yield []
    c.ensures("*", "in the closed range", z3.And(c.result >= c.arg(0), c.result <= c.arg(1)))


ABSTRACT = {}
