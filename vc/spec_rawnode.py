"""C11, C23: the application boundary (RawNode and Ready)."""
from contract import *
import spec_raft as F
from spec_raft import R, ec, is_type, same, same_fields, heap_same, leaves_equal, MSG, PR, STATE

CONTRACTS = []
ABSTRACT = dict(F.ABSTRACT)
setup = F.setup
COST = dict(F.COST)
RAFT, READY = "craft::Raft", "craft::Ready"


def contract(q, **kw):
    def deco(fn):
        CONTRACTS.append(Contract(q, fn, **kw))
        return fn
    return deco


def node(c):
    return R(c, c.this.raft_.star)


def onode(c):
    return R(c, c.old.raft_.star)


# ---------------------------------------------------------------- the hard and soft state of a node
def hard(c, r):
    return (r.term, r.vote, r.log.committed)


def hs(v):
    return (v.term, v.vote, v.commit)


def eq3(a, b):
    return z3.And(*[x == y for x, y in zip(a, b)])


def soft(r):
    return (r.lead, r.state)


def ss(v):
    return (v.lead, v.raft_state)


@contract("craft::MustSync", props=["C11"], total=True)
def must_sync(c):
    yield []
    a, b = c.arg(0), c.arg(1)
    c.ensures("*", "entries to persist, or a new term or vote", c.result == Or(c.arg(2) != 0, a.vote != b.vote, a.term != b.term))


@contract("craft::operator==", typ="HardState", props=["C11"], total=True)
def hard_equal(c):
    yield []
    c.ensures("*", "term, vote and commit index agree", c.result == eq3(hs(c.arg(0)), hs(c.arg(1))))


@contract("craft::IsEmptyHardState", props=["C11"], total=True)
def empty_hard(c):
    yield []
    c.ensures("*", "all zero", c.result == z3.And(*[x == 0 for x in hs(c.arg(0))]))


def ready_rel(c, rd, r, prev_soft, prev_hard):
    """rd hands out exactly what the node r has to hand out"""
    i = z3.Int("i!rd")
    u = r.log.U
    st = rd._st if hasattr(rd, "_st") else c.cur
    E, M, RS = rd.entries, rd.messages, rd.read_states
    yield "entries to persist are the unstable entries", z3.And(E.len == u.n, z3.ForAll([i], Implies(z3.And(i >= 0, i < u.n), z3.Select(E.arr, i) == z3.Select(u.A, i)), patterns=[z3.Select(E.arr, i)]))
    yield "messages are the outbox", z3.And(M.len == r.nm, z3.ForAll([i], Implies(z3.And(i >= 0, i < r.nm), z3.Select(M.arr, i) == z3.Select(r.M, i)), patterns=[z3.Select(M.arr, i)]))
    yield "the soft state is present when it changed", z3.And(rd.soft_state.has == Not(eq3(soft(r), prev_soft)), Implies(rd.soft_state.has, eq3(ss(rd.soft_state), soft(r))))
    yield "the hard state is present when term, vote or commit index changed", z3.If(eq3(hard(c, r), prev_hard), eq3(hs(rd.hard_state), (0, 0, 0)), eq3(hs(rd.hard_state), hard(c, r)))
    yield "the pending snapshot, else an empty one", z3.If(u.snap != 0, rd.snapshot.val == u.snap, z3.And(rd.snapshot.val != 0, rd.snapshot.star.metadata.index == 0))
    yield "must-sync exactly when there are entries or the term or vote changed", rd.must_sync == Or(u.n != 0, r.term != prev_hard[0], r.vote != prev_hard[1])
    ra = r.v.read_states_
    yield "the read states", z3.And(RS.len == ra.len, z3.ForAll([i], Implies(z3.And(i >= 0, i < ra.len), z3.And(RS[i].index == ra[i].index, RS[i].request_ctx == ra[i].request_ctx))))
    off = F.L_.nextoff(r.log)
    C = rd.committed_entries
    yield "committed entries are the log's entries right after the applied index", z3.And((C.len == 0) == (r.log.committed < off), z3.ForAll([i], Implies(z3.And(i >= 0, i < C.len), z3.Select(C.arr, i) == r.log.ent(off + i)), patterns=[z3.Select(C.arr, i)]))


@contract("craft::NewReady", props=["C11"], total=True)
def new_ready(c):
    if c.pointee(0) is None:
        c.requires("a node", z3.BoolVal(False))
        yield []
        return
    r = R(c, c.pointee(0))
    c.requires("a node with a sound log", z3.And(r.v.raft_log_.has, r.log.inv()))
    yield [("fresh", READY), ("fresh", F.SNAP)]
    r = R(c, c.pointee(0, c.pre))
    rd = c.result
    c.ensures("*", "a new object", z3.And(rd.val >= c.pre.alloc, rd.val < c.cur.alloc))
    for nm, f in ready_rel(c, rd.star, r, ss(c.oldarg(1)), hs(c.oldarg(2))):
        c.ensures("*", nm, f)


def sound(c, r):
    return z3.And(c.this.raft_.has, r.v.raft_log_.has, r.log.inv())


@contract("craft::RawNode::HasReady", props=["C11"], total=True)
def has_ready(c):
    r = node(c)
    c.requires("a node with a sound log", sound(c, r))
    yield []
    r = node(c)
    u, off = r.log.U, F.L_.nextoff(r.log)
    h = hard(c, r)
    changed = z3.And(Not(eq3(h, (0, 0, 0))), Not(eq3(h, hs(c.this.prev_hard_st_))))
    c.ensures("*", "ready exactly when there is something to hand out", c.result == Or(
        Not(eq3(soft(r), ss(c.this.prev_soft_st_))), changed, z3.And(u.snap != 0, u.sidx != 0), r.nm != 0, u.n != 0, r.log.committed >= off, r.v.read_states_.len != 0))


@contract("craft::RawNode::ReadyWithoutAccept", props=["C11"], total=True)
def ready_without(c):
    c.requires("a node with a sound log", sound(c, node(c)))
    yield [("fresh", READY), ("fresh", F.SNAP)]
    rd = c.result
    c.ensures("*", "a new object", z3.And(rd.val >= c.pre.alloc, rd.val < c.cur.alloc))
    for nm, f in ready_rel(c, rd.star, onode(c), ss(c.old.prev_soft_st_), hs(c.old.prev_hard_st_)):
        c.ensures("*", nm, f)


def raft_fields(c, *fs):
    return [c.this.raft_.star._x.f(f) for f in fs]


def accepted(c, n, o, prev, oprev, rd):
    yield "the outbox is emptied", n.nm == 0
    yield "read states are emptied when some were handed out", z3.If(rd.read_states.len != 0, n.v.read_states_.len == 0, leaves_equal(c, o.v.read_states_, n.v.read_states_))
    yield "the handed out soft state is remembered", z3.If(rd.soft_state.has, eq3(ss(prev), ss(rd.soft_state)), eq3(ss(prev), ss(oprev)))
    yield "nothing else of the node changes", same(c, o, n, but=("msgs_", "read_states_"))


@contract("craft::RawNode::AcceptReady", props=["C11"], total=True)
def accept_ready(c):
    c.requires("a node and a ready", z3.And(c.this.raft_.has, c.arg(0).val != 0))
    yield raft_fields(c, "msgs_", "read_states_") + [c.this._x.f("prev_soft_st_")]
    for nm, f in accepted(c, node(c), onode(c), c.this.prev_soft_st_, c.old.prev_soft_st_, c.oldarg(0).star):
        c.ensures("*", nm, f)


@contract("craft::RawNode::GetReady", props=["C11"], total=True)
def get_ready(c):
    c.requires("a node with a sound log", sound(c, node(c)))
    yield raft_fields(c, "msgs_", "read_states_") + [c.this._x.f("prev_soft_st_"), c.this._x.f("ready_"), ("fresh", READY), ("fresh", F.SNAP)]
    n, o = node(c), onode(c)
    rd = c.result
    c.ensures("*", "the result is remembered", c.this.ready_.val == rd.val)
    for nm, f in ready_rel(c, rd.star, o, ss(c.old.prev_soft_st_), hs(c.old.prev_hard_st_)):
        c.ensures("*", nm, f)
    c.ensures("*", "the soft state handed out last is remembered", eq3(ss(c.this.prev_soft_st_), soft(o)))
    c.ensures("*", "what was handed out is cleared", z3.And(n.nm == 0, n.v.read_states_.len == 0))
    c.ensures("*", "nothing else of the node changes", same(c, o, n, but=("msgs_", "read_states_")))


@contract("craft::RawNode::Advance", props=["C11", "C28", "C12"])
def raw_advance(c):
    rd = c.this.ready_
    r = node(c)
    c.requires("a node and an outstanding ready", z3.And(c.this.raft_.has, rd.val > 0, rd.val < c.cur.alloc))
    d = F.Rd(c, rd.star)
    F.advance_req(c, r, d)
    c.nofatal = F.advance_ok(r, d)
    if c.relevant(("C07",)):
        c.define(F.Q.ca_ext_fact())
    l = c.this.raft_.star.raft_log_.star
    yield [l._x.f(f) for f in ("committed_", "applied_")] + [l.unstable_._x.f(f) for f in ("entries_", "offset_", "snapshot_")] + raft_fields(c, "uncommitted_size_", "pending_conf_index_") + [F.pr_loc(r, r.id), ("fresh", F.ENTRY), c.this._x.f("prev_hard_st_"), c.this._x.f("ready_")]
    n, o = node(c), onode(c)
    rd = c.old.ready_.star
    h = hs(rd.hard_state)
    c.ensures("*", "the acknowledged hard state is remembered", eq3(hs(c.this.prev_hard_st_), [z3.If(eq3(h, (0, 0, 0)), x, y) for x, y in zip(hs(c.old.prev_hard_st_), h)]))
    c.ensures("*", "the ready is not outstanding any more", c.this.ready_.val == 0)
    for tags, nm, f in F.advance_rel(c, o, n, F.Rd(c, rd)):
        c.ensures(tags, nm, f)


# ---------------------------------------------------------------- handing a message to the state machine
def leaves(c, v):
    x = v._c.load(v._x, v._st) if isinstance(v._x, Loc) else v._x
    return list(v._c.flat(x, v._t))


def content(c, m, st):
    """what the state machine can see of a message: its fields, the number of its entries and the first of them"""
    x = m.at(st)
    out = [x.type, x.to, x.__getattr__("from"), x.term, x.logterm, x.index, x.commit, x.reject, x.rejecthint, x.context]
    n = F.msg_nents(c, st, m.val)
    e = lambda f: z3.Select(F.msg_entries(c, st, m.val, f), 0)
    one = lambda f, z: z3.If(n > 0, f, z)
    return out + [n, one(e("type"), z3.IntVal(0)), one(e("data"), strconst("")), one(e("term"), z3.IntVal(0)), one(e("index"), z3.IntVal(0))]


SCALARS = ("term_", "vote_", "state_", "lead_", "lead_transferee_", "pending_conf_index_", "election_elapsed_", "heartbeat_elapsed_")


def outcome(c, what, args, so):
    return z3.Function("Step!" + what, *[a.sort() for a in args], so)(*args)


def handed(c, m, n, res=None):
    """the state n (and the result) is the one the state machine reaches from the entry state with the message m"""
    args = [m.val]
    st = n.st
    r = z3.And(*[x == outcome(c, "same" + s, args, x.sort()) for s, x, t in leaves(c, n.v)],
               *[c.ctx.hget(st, q, s) == outcome(c, "%s%s" % (q, s), args, c.ctx.hget(st, q, s).sort()) for q in (PR, MSG) for s, so, lt in c.ctx.ty.leaves(("struct", q))])
    return r if res is None else z3.And(r, res == outcome(c, "result", args, res.sort()))


def handed_like(c, args, n, res=None):
    """the scalar state of n (and the result) is the one reached from the entry state with a message of this content"""
    r = z3.And(*[getattr(n.v, f) == outcome(c, "like" + f, args, getattr(n.v, f).sort()) for f in SCALARS])
    return r if res is None else z3.And(r, res == outcome(c, "like", args, res.sort()))


@contract("craft::Raft::Step", trusted="at the boundary the state machine is an arbitrary function of the node and the message (its behaviour is proved separately); it must be called with the node as it was")
def step(c):
    m = c.arg(0)
    cc = c.ctx.cur_contract
    c.requires("a message", m.val != 0)
    if c.mode == "use":
        now = V(c.ctx, c.cur, c._this, ("struct", RAFT))
        was = V(c.ctx, cc.pre, c._this, ("struct", RAFT))
        c.requires("the node is handed the message unchanged by the boundary", z3.And(*[x == y for (_, x, _), (_, y, _) in zip(leaves(c, was), leaves(c, now))], c.ctx.hget(c.cur, PR, ".match_") == c.ctx.hget(cc.pre, PR, ".match_"), c.ctx.hget(c.cur, PR, ".next_") == c.ctx.hget(cc.pre, PR, ".next_")))
        if cc.f.qname == "craft::RawNode::Step":
            c.requires("the message itself, unchanged", z3.And(*[c.ctx.hget(c.cur, MSG, s) == c.ctx.hget(cc.pre, MSG, s) for s, so, lt in c.ctx.ty.leaves(("struct", MSG))]))
    args = content(c, m, c.cur)
    yield [c.this.loc] + [("heap", q) for q in (PR, MSG)]
    n = R(c, c.this)
    c.ensures("*", "handed over", handed(c, V(c.ctx, c.pre, m.val, ("ptr", ("struct", MSG))), n, c.result))
    c.ensures("*", "handed over content", handed_like(c, args, n, c.result))


@contract("craft::RawNode::Step", props=["C23"])
def raw_step(c):
    m = c.arg(0)
    c.requires("a node and a message", z3.And(c.this.raft_.has, m.val != 0))
    c.requires("well-formed progress", F.K.pm_ok(c, node(c).P, node(c).ref, c.cur))
    yield [c.this.raft_.star.loc] + [("heap", q) for q in (PR, MSG)]
    n, o = node(c), onode(c)
    m = c.oldarg(0)
    local = is_type(c, m.type, "MsgHup", "MsgBeat", "MsgUnreachable", "MsgSnapStatus", "MsgCheckQuorum")
    resp = is_type(c, m.type, "MsgAppResp", "MsgVoteResp", "MsgHeartbeatResp", "MsgUnreachable", "MsgPreVoteResp")
    stranger = z3.And(resp, Not(o.tracked(F.frm(m))))
    refused = Or(local, stranger)
    same_all = z3.And(*[x == y for (_, x, _), (_, y, _) in zip(leaves(c, o.v), leaves(c, n.v))], heap_same(c, o, n), heap_same(c, o, n, MSG))
    c.ensures("C23", "a local-only message is refused and changes nothing", Implies(local, z3.And(c.result != 0, same_all)))
    c.ensures("C23", "a response of an untracked node is refused and changes nothing", Implies(stranger, z3.And(c.result != 0, same_all)))
    c.ensures("C23", "any other message is handed to the state machine unchanged", Implies(Not(refused), handed(c, m, n, c.result)))


def api(c, typ, frm=0, reject=False, data=None, result=True):
    """the function hands the state machine one message of this content"""
    c.requires("a node", c.this.raft_.has)
    yield [c.this.raft_.star.loc] + [("heap", q) for q in (PR, MSG)]
    z = z3.IntVal(0)
    frm = z3.IntVal(frm) if isinstance(frm, int) else frm
    args = [z3.IntVal(ec(c, typ)) if isinstance(ec(c, typ), int) else ec(c, typ), z, frm, z, z, z, z, z3.BoolVal(reject) if isinstance(reject, bool) else reject, z, strconst("")]
    args += [z3.IntVal(0 if data is None else 1), z, strconst("") if data is None else data, z, z]
    c.ensures("*", "hands over exactly this request", handed_like(c, args, node(c), c.result if result else None))


@contract("craft::RawNode::Campaign", props=["C23"])
def raw_campaign(c):
    yield from api(c, "MsgHup")


@contract("craft::RawNode::Propose", props=["C23", "C21"])
def raw_propose(c):
    yield from api(c, "MsgProp", frm=node(c).id, data=c.arg(0))


@contract("craft::RawNode::TransferLeader", props=["C23", "C20"])
def raw_transfer(c):
    yield from api(c, "MsgTransferLeader", frm=c.arg(0), result=False)


@contract("craft::RawNode::ReadIndex", props=["C23", "C17"])
def raw_read(c):
    yield from api(c, "MsgReadIndex", data=c.arg(0), result=False)


@contract("craft::RawNode::ReportUnreachable", props=["C23", "C16"])
def raw_unreachable(c):
    yield from api(c, "MsgUnreachable", frm=c.arg(0), result=False)


@contract("craft::RawNode::ReportSnapshot", props=["C23", "C16"])
def raw_snapshot(c):
    yield from api(c, "MsgSnapStatus", frm=c.arg(0), reject=c.arg(1) == ec(c, "kFailure"), result=False)


_own = {c.key for c in CONTRACTS}
for _c in F.CONTRACTS:
    if _c.key not in _own:
        _own.add(_c.key)
        CONTRACTS.append(_c)
