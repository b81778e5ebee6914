// whole-node searches: every operation is judged by comparing the node before and after it
#include "common.h"
typedef unsigned long long ull;
static std::string TRANSFER() { return CampaignTypeName(CampaignType::kTransfer); }

struct Applied { std::map<u64, E> at; };  // what nodes of a cluster applied
struct Node {
  u64 id;
  bool honest = false;
  Raft::Config cfg;
  std::shared_ptr<MemoryStorage> st;
  std::unique_ptr<RawNode> rn;
  std::shared_ptr<Ready> rd;
  SoftState psoft;
  raftpb::HardState phard;
  u64 applied = 0;      // of the application
  bool removed = false;
  raftpb::ConfState cs;
  Raft* r() { return rn->raft_.get(); }
  void start() {
    cfg.storage = st;
    rn = RawNode::New(cfg);
    rd.reset();
    psoft = r()->GetSoftState();
    phard = r()->GetHardState();
  }
};
enum Kind { STEP, NSTEP, TICK, CONF, ADVANCE };
struct Ev { Kind k; Msg m; bool ok; const Ready* rd; };

static std::vector<Msg> added(const St& a, const St& b) {
  std::vector<Msg> v;
  for (size_t i = a.msgs.size(); i < b.msgs.size(); i++) v.push_back(b.msgs[i]);
  return v;
}
static bool vtype(MT t) { return t == raftpb::MsgVote || t == raftpb::MsgPreVote || t == raftpb::MsgVoteResp || t == raftpb::MsgPreVoteResp; }
static bool uptodate(const LogV& l, u64 i, u64 t) { u64 lt = l.term(l.last); return t > lt || (t == lt && i >= l.last); }
static bool held(const St& s, u64 i) {
  std::map<u64, bool> v;
  for (auto& p : s.prs) v[p.first] = p.second.match >= i;
  return vote_result(s.in, s.out, v) == kVoteWon;
}
static bool active_quorum(const St& s) {
  std::map<u64, bool> v;
  for (auto& p : s.prs) if (!p.second.learner) v[p.first] = p.second.active;
  if (s.member(s.id) && !s.prs.at(s.id).learner) v[s.id] = true;
  return vote_result(s.in, s.out, v) == kVoteWon;
}

// the effect of offering entries g after (index, lt) with the leader's commit index
static void check_append(const LogV& v, u64 index, u64 lt, const std::vector<E>& g, u64 commit, const LogV& w, bool accepted) {
  bool match = v.inr(index) && v.term(index) == lt;
  REQ(accepted == match, "append after %llu t%llu accepted=%d, expected %d", (ull)index, (ull)lt, accepted, match);
  if (!match) { REQ(w.first == v.first && w.ents == v.ents && w.committed == v.committed, "a refused append changed the log"); return; }
  u64 conflict = 0;
  for (auto& e : g) if (!v.has(e.index) || v.at(e.index).term != e.term) { conflict = e.index; break; }
  u64 upto = conflict ? conflict - 1 : v.last, last = index + g.size();
  for (u64 i = v.first; i <= std::min(upto, v.last); i++) REQ(w.has(i) && w.at(i) == v.at(i), "entry %llu before the first conflict changed", (ull)i);
  for (auto& e : g) if (e.index >= w.first) REQ(w.has(e.index) && w.at(e.index).term == e.term, "entry %llu does not have the given term", (ull)e.index);
  for (auto& e : g) if (conflict && e.index >= conflict && e.index >= w.first) REQ(w.at(e.index) == e, "entry %llu is not the given one", (ull)e.index);
  REQ(w.last == (conflict ? last : v.last), "last index %llu, expected %llu", (ull)w.last, (ull)(conflict ? last : v.last));
  REQ(w.committed == std::max(v.committed, std::min(commit, last)), "commit %llu, expected %llu", (ull)w.committed, (ull)std::max(v.committed, std::min(commit, last)));
}

static void judge_reads(const St& a, const Ev& e, const St& b, const std::vector<Msg>& nw) {
  const Msg& m = e.m;
  bool st = e.k == STEP || e.k == NSTEP;
  bool sameterm = st && (m.term() == 0 || m.term() == a.term);
  struct A { u64 to; std::string ctx; u64 index; };
  std::vector<A> local, remote, gl, gr;
  auto answer = [&](const Msg& req, u64 index) {
    if (req.from() == 0 || req.from() == a.id) local.push_back({0, req.entries(0).data(), index});
    else remote.push_back({req.from(), req.entries(0).data(), index});
  };
  bool leader = a.state == kLeader, known = true;
  bool interm = a.log.term(a.log.committed) == a.term;
  if (leader && sameterm && m.type() == raftpb::MsgReadIndex) {
    const std::string ctx = m.entries(0).data();
    if (a.singleton()) answer(m, a.log.committed);
    else if (!interm) { REQ(b.pendreads.size() == a.pendreads.size() + 1, "the read was not postponed"); REQ(b.q == a.q, "queued although nothing is committed in this term"); }
    else if (a.opt == ReadOnly::kSafe) {
      bool dup = std::count(a.q.begin(), a.q.end(), ctx);
      auto want = a.q;
      if (!dup) want.push_back(ctx);
      REQ(b.q == want, "the queue of reads is wrong");
      REQ(b.ro.count(ctx) && (dup ? b.ro.at(ctx).index == a.ro.at(ctx).index : b.ro.at(ctx).index == a.log.committed), "the read's index is %llu, commit index %llu", b.ro.count(ctx) ? (ull)b.ro.at(ctx).index : 0, (ull)a.log.committed);
    } else answer(m, a.log.committed);
  } else if (leader && sameterm && m.type() == raftpb::MsgHeartbeatResp && a.member(m.from()) && a.opt == ReadOnly::kSafe && !m.context().empty()) {
    auto it = std::find(a.q.begin(), a.q.end(), m.context());
    if (it != a.q.end()) {
      std::map<u64, bool> v;
      for (auto x : a.ro.at(m.context()).acks) v[x] = true;
      v[m.from()] = true;
      if (vote_result(a.in, a.out, v) == kVoteWon) {
        for (auto k = a.q.begin();; ++k) {
          Msg req;
          req.ParseFromString(a.ro.at(*k).req);
          answer(req, a.ro.at(*k).index);
          if (k == it) break;
        }
        REQ((b.q == std::vector<std::string>(it + 1, a.q.end())), "the rest of the queue is wrong");
      } else {
        REQ(b.q == a.q, "reads left the queue without a quorum");
        REQ(b.ro.at(m.context()).acks.count(m.from()), "the acknowledgement was not recorded");
      }
    } else REQ(b.q == a.q, "reads left the queue");
  } else if (leader && b.state == kLeader && b.log.committed > a.log.committed && sameterm && m.type() == raftpb::MsgAppResp) {
    REQ(b.pendreads.empty(), "postponed reads were kept");
    for (auto& r : a.pendreads) if (a.opt != ReadOnly::kSafe) answer(r, b.log.committed);
    if (a.opt == ReadOnly::kSafe) for (auto& r : a.pendreads) { auto& c = r.entries(0).data(); REQ(b.ro.count(c) && (a.ro.count(c) || b.ro.at(c).index == b.log.committed), "a postponed read was not queued"); }
  } else if (st && m.type() == raftpb::MsgReadIndexResp) known = false;
  if (!known) return;
  for (size_t i = a.rs.size(); i < b.rs.size(); i++) gl.push_back({0, b.rs[i].request_ctx, b.rs[i].index});
  for (auto& x : nw) if (x.type() == raftpb::MsgReadIndexResp) gr.push_back({x.to(), x.entries_size() ? x.entries(0).data() : "", x.index()});
  auto cmp = [&](std::vector<A>& w, std::vector<A>& g, const char* n) {
    REQ(w.size() == g.size(), "%zu %s reads answered, expected %zu", g.size(), n, w.size());
    for (size_t i = 0; i < w.size(); i++) REQ(w[i].to == g[i].to && w[i].ctx == g[i].ctx && w[i].index == g[i].index, "%s answer %zu: to %llu %s at %llu, expected to %llu %s at %llu", n, i, (ull)g[i].to, g[i].ctx.c_str(), (ull)g[i].index, (ull)w[i].to, w[i].ctx.c_str(), (ull)w[i].index);
  };
  cmp(local, gl, "own");
  cmp(remote, gr, "forwarded");
}

static void judge_appends(const St& a, const Ev& e, const St& b, const std::vector<Msg>& nw) {
  std::map<u64, const Msg*> last;
  std::map<u64, int> probes;
  bool st = e.k == STEP || e.k == NSTEP;
  bool stay = a.state == kLeader && b.state == kLeader && a.term == b.term;
  for (auto& m : nw) {
    u64 x = m.to();
    if (m.type() != raftpb::MsgApp && m.type() != raftpb::MsgSnap) continue;
    REQ(b.state == kLeader && b.member(x), "replication message %s from a non-leader or to a stranger", show(m).c_str());
    const PrV& w = b.prs.at(x);
    // a peer this event is not about was not unpaused
    bool about = e.k == CONF || (st && m.to() == e.m.from());
    if (stay && !about && a.member(x)) REQ(!a.prs.at(x).paused(), "sent to paused peer %llu: %s", (ull)x, show(m).c_str());
    if (stay && !about && a.member(x) && !last.count(x) && m.type() == raftpb::MsgApp) REQ(m.index() + 1 == a.prs.at(x).next, "previous index %llu, next %llu", (ull)m.index(), (ull)a.prs.at(x).next);
    if (m.type() == raftpb::MsgApp) {
      REQ(b.log.inr(m.index()) && b.log.term(m.index()) == m.logterm(), "previous entry %llu t%llu, the log has t%llu", (ull)m.index(), (ull)m.logterm(), (ull)b.log.term(m.index()));
      for (int i = 0; i < m.entries_size(); i++) REQ(b.log.has(m.index() + 1 + i) && b.log.at(m.index() + 1 + i) == val(m.entries(i)), "entry %d of %s is not the log's", i, show(m).c_str());
      REQ(m.commit() == b.log.committed, "commit %llu, the log's is %llu", (ull)m.commit(), (ull)b.log.committed);
      size_t sum = 0;
      for (auto& x : m.entries()) sum += x.ByteSizeLong();
      REQ(m.entries_size() <= 1 || sum <= b.maxmsg, "%zu bytes in a message, limit %llu", sum, (ull)b.maxmsg);
      if (last.count(x) && w.state == kReplicate) REQ(last[x]->type() == raftpb::MsgApp && m.index() == last[x]->index() + last[x]->entries_size(), "messages to %llu do not follow each other", (ull)x);
      if (m.entries_size()) probes[x]++;
    } else {
      REQ(m.snapshot().metadata().index() != 0, "empty snapshot");
      REQ(w.state == kSnapshot && w.pend == m.snapshot().metadata().index(), "peer %llu is in state %d pending %llu after a snapshot at %llu", (ull)x, w.state, (ull)w.pend, (ull)m.snapshot().metadata().index());
      REQ(w.active, "snapshot to an inactive peer");
      REQ(w.next < b.log.first + (b.log.dterm == 0 && b.log.first == 1 ? 0 : 0) || w.next <= b.log.first, "snapshot although the entries from %llu are there (first %llu)", (ull)w.next, (ull)b.log.first);
      REQ(!(b.log.inr(w.next - 1) && (b.log.has(w.next) || w.next > b.log.last)), "snapshot although the log reaches from %llu", (ull)w.next);
    }
    last[x] = &m;
  }
  for (auto& p : last) {
    const Msg& m = *p.second;
    const PrV& w = b.prs.at(p.first);
    if (m.type() == raftpb::MsgApp && m.entries_size()) {
      u64 li = m.entries(m.entries_size() - 1).index();
      REQ(w.state != kSnapshot, "entries sent in snapshot state");
      if (w.state == kReplicate) { REQ(w.next == li + 1, "next %llu after sending up to %llu", (ull)w.next, (ull)li); REQ(!w.win.empty() && w.win.back() == li, "%llu is not queued in the window", (ull)li); }
      if (w.state == kProbe) REQ(w.probe, "a probe is out but sending is not paused");
    }
    if (w.state == kProbe) REQ(probes[p.first] <= 1, "%d probes sent to %llu", probes[p.first], (ull)p.first);
    REQ((long)w.win.size() <= w.cap, "window of %llu overflows", (ull)p.first);
  }
}

static void judge(const St& a, const Ev& e, const St& b) {
  const Msg& m = e.m;
  bool st = e.k == STEP || e.k == NSTEP;
  auto nw = added(a, b);
  MT t = m.type();
  u64 x = m.from();
  bool lower = st && m.term() != 0 && m.term() < a.term, higher = st && m.term() > a.term, sameterm = st && !lower && !higher;
  bool isvote = st && (t == raftpb::MsgVote || t == raftpb::MsgPreVote);
  bool lease = a.cq && a.lead != 0 && a.ee < a.eto;
  bool ignored = higher && isvote && lease && m.context() != TRANSFER();
  bool L = a.state == kLeader, stay = L && b.state == kLeader && a.term == b.term;
  auto is = [&](MT q) { return st && t == q; };

  if (WANT("C04")) {
    REQ(b.log.committed >= a.log.committed, "commit index fell from %llu to %llu", (ull)a.log.committed, (ull)b.log.committed);
    REQ(b.log.committed <= b.log.last, "commit index %llu beyond the last index %llu", (ull)b.log.committed, (ull)b.log.last);
    REQ(b.log.applied >= a.log.applied && b.log.applied <= b.log.committed, "applied index %llu -> %llu, commit %llu", (ull)a.log.applied, (ull)b.log.applied, (ull)b.log.committed);
    for (u64 i = std::max(a.log.first, b.log.first); i <= a.log.committed; i++) REQ(b.log.has(i) && b.log.at(i) == a.log.at(i), "committed entry %llu changed", (ull)i);
  }
  if (WANT("C27") || WANT("C28")) REQ(b.log.ok || !a.log.ok, "the log is not one contiguous run any more");
  if (WANT("C05")) {
    REQ(b.term >= a.term, "term fell from %llu to %llu", (ull)a.term, (ull)b.term);
    if (b.term == a.term && a.vote != 0) REQ(b.vote == a.vote, "vote changed from %llu to %llu in term %llu", (ull)a.vote, (ull)b.vote, (ull)a.term);
    for (auto& q : nw) if (q.type() == raftpb::MsgVoteResp && !q.reject()) REQ(q.to() == b.vote && q.term() == b.term, "vote granted to %llu in term %llu, recorded %llu in term %llu", (ull)q.to(), (ull)q.term(), (ull)b.vote, (ull)b.term);
    if (b.vote != 0 && (b.vote != a.vote || b.term != a.term)) REQ(b.vote == b.id || (is(raftpb::MsgVote) && b.vote == x), "vote %llu recorded without a request", (ull)b.vote);
  }
  if (WANT("C06")) {
    u64 vote0 = higher && t == raftpb::MsgVote ? 0 : a.vote, lead0 = higher && t == raftpb::MsgVote ? 0 : a.lead;
    for (auto& q : nw) if ((q.type() == raftpb::MsgVoteResp || q.type() == raftpb::MsgPreVoteResp) && !q.reject()) {
      REQ(isvote && q.to() == x, "a vote nobody asked for");
      REQ(uptodate(a.log, m.index(), m.logterm()), "granted to a candidate at %llu t%llu, own last is %llu t%llu", (ull)m.index(), (ull)m.logterm(), (ull)a.log.last, (ull)a.log.term(a.log.last));
      bool free = vote0 == x || (vote0 == 0 && lead0 == 0);
      REQ(free || (t == raftpb::MsgPreVote && m.term() > a.term), "granted to %llu with vote %llu and leader %llu", (ull)x, (ull)vote0, (ull)lead0);
    }
    if (is(raftpb::MsgPreVote)) REQ(b.term == a.term && b.vote == a.vote && b.ee == a.ee, "a pre-vote request changed term, vote or timer");
  }
  if (WANT("C07")) {
    if (b.state == kLeader && b.log.committed > a.log.committed) {
      REQ(b.log.term(b.log.committed) == b.term, "committed entry %llu has term %llu, not %llu", (ull)b.log.committed, (ull)b.log.term(b.log.committed), (ull)b.term);
      REQ(held(b, b.log.committed), "committed %llu without a quorum", (ull)b.log.committed);
    }
    if (b.state == kLeader && !stay) for (auto& p : b.prs) if (p.first != b.id) REQ(p.second.match == 0, "a new leader counts %llu for %llu, which acknowledged nothing to it", (ull)p.second.match, (ull)p.first);
    if (stay && e.k != CONF) for (auto& p : b.prs) if (p.first != b.id && a.member(p.first) && p.second.match > a.prs.at(p.first).match) REQ(is(raftpb::MsgAppResp) && !m.reject() && x == p.first && p.second.match == m.index(), "match of %llu rose to %llu without an acknowledgement", (ull)p.first, (ull)p.second.match);
  }
  if (WANT("C08") && e.k == CONF) {
    for (auto y : b.learners) REQ(!b.in.count(y) && !b.out.count(y), "learner %llu is a voter", (ull)y);
    for (auto y : b.lnext) REQ(b.out.count(y), "staged learner %llu is no outgoing voter", (ull)y);
    for (auto s : {&b.in, &b.out, &b.learners, &b.lnext}) for (auto y : *s) REQ(b.member(y), "member %llu has no progress", (ull)y);
    REQ(!b.in.empty(), "zero voters");
  }
  bool drop = !a.member(a.id) || a.xfer != 0;
  if (is(raftpb::MsgProp) && sameterm && L) {
    u64 total = 0;
    for (auto& q : m.entries()) total += q.data().size();
    u64 pend = a.pend;
    std::vector<E> want;
    u64 kept = 0;   // payload after changes were emptied
    for (int i = 0; i < m.entries_size(); i++) {
      E w = val(m.entries(i));
      w.index = a.log.last + 1 + i;
      w.term = a.term;
      if (w.type != raftpb::EntryNormal) {
        bool leave = false;
        if (w.type == raftpb::EntryConfChangeV2) { raftpb::ConfChangeV2 c; c.ParseFromString(w.data); leave = c.changes_size() == 0; }
        if (pend <= a.log.applied && a.joint() == leave) pend = w.index;
        else { w.type = raftpb::EntryNormal; w.data = ""; }
      }
      kept += w.data.size();
      want.push_back(w);
    }
    if (WANT("C20") && a.xfer != 0) REQ(!e.ok && b.log.ents == a.log.ents && nw.empty(), "a proposal went through during a transfer");
    if (!drop) {
      bool refuse = a.unc > 0 && kept > 0 && a.unc + kept > a.maxunc;
      if (WANT("C21")) {
        REQ(e.ok == !refuse, "proposal of %llu bytes with %llu of %llu used: ok=%d", (ull)kept, (ull)a.unc, (ull)a.maxunc, e.ok);
        REQ(b.unc == (refuse ? a.unc : a.unc + kept), "tracked size %llu, expected %llu", (ull)b.unc, (ull)(refuse ? a.unc : a.unc + kept));
        if (refuse) REQ(b.log.ents == a.log.ents && nw.empty(), "a refused proposal appended something");
      }
      if (e.ok && (WANT("C10") || WANT("C21"))) REQ(b.log.last == a.log.last + want.size(), "last index %llu after %zu entries on %llu", (ull)b.log.last, want.size(), (ull)a.log.last);
      if (WANT("C10")) {
        REQ(b.pend == pend, "pending index %llu, expected %llu", (ull)b.pend, (ull)pend);
        if (e.ok) for (auto& w : want) REQ(b.log.has(w.index) && b.log.at(w.index) == w, "entry %s in the log, expected %s", b.log.has(w.index) ? show(b.log.at(w.index)).c_str() : "none", show(w).c_str());
      }
    }
  } else if (WANT("C10") && stay && e.k != ADVANCE) REQ(b.pend == a.pend, "pending index moved from %llu to %llu", (ull)a.pend, (ull)b.pend);
  if (WANT("C03") || WANT("C04")) {
    if (is(raftpb::MsgApp) && !lower && !(sameterm && L)) {
      const Msg* r = nullptr;
      for (auto& q : nw) if (q.type() == raftpb::MsgAppResp) r = &q;
      if (m.index() < a.log.committed) REQ(b.log.ents == a.log.ents && b.log.committed == a.log.committed && r && !r->reject() && r->index() == a.log.committed, "an old append must only be answered with the commit index");
      else {
        std::vector<E> g;
        for (auto& q : m.entries()) g.push_back(val(q));
        REQ(r, "an append was not answered");
        check_append(a.log, m.index(), m.logterm(), g, m.commit(), b.log, !r->reject());
        if (!r->reject()) REQ(r->index() == m.index() + g.size(), "answered with %llu, expected %llu", (ull)r->index(), (ull)(m.index() + g.size()));
        else REQ(r->index() == m.index(), "rejected %llu, expected %llu", (ull)r->index(), (ull)m.index());
      }
    }
  }
  if (WANT("C14") && is(raftpb::MsgSnap) && !lower && !(sameterm && L)) {
    auto& md = m.snapshot().metadata();
    u64 si = md.index(), stm = md.term();
    bool inst = b.log.usnap && (!a.log.usnap || a.log.usi != b.log.usi || b.log.first != a.log.first);
    bool mem = false;
    for (auto v : md.conf_state().voters()) mem |= v == a.id;
    for (auto v : md.conf_state().learners()) mem |= v == a.id;
    for (auto v : md.conf_state().voters_outgoing()) mem |= v == a.id;
    bool has = a.log.inr(si) && a.log.term(si) == stm;
    if (inst) {
      REQ(si > a.log.committed, "installed at %llu, committed %llu", (ull)si, (ull)a.log.committed);
      REQ(mem, "installed a snapshot this node is no member of");
      REQ(!has, "installed although the log contains %llu t%llu", (ull)si, (ull)stm);
      REQ(b.log.usi == si && b.log.ust == stm && b.log.committed == si && b.log.last == si && b.log.uns.empty() && b.log.term(si) == stm, "after installing %llu: commit %llu last %llu", (ull)si, (ull)b.log.committed, (ull)b.log.last);
    } else {
      REQ(b.log.first == a.log.first && b.log.ents == a.log.ents, "a refused snapshot changed the log");
      REQ(b.log.committed == a.log.committed || (has && si > a.log.committed && mem && b.log.committed == si), "commit moved from %llu to %llu", (ull)a.log.committed, (ull)b.log.committed);
      if (has && mem && si > a.log.committed) REQ(b.log.committed == si, "the log contains %llu but commit is %llu", (ull)si, (ull)b.log.committed);
    }
  }
  if (WANT("C16")) judge_appends(a, e, b, nw);
  if (WANT("C17")) judge_reads(a, e, b, nw);
  if (WANT("C18")) {
    for (auto& q : nw) if (q.type() == raftpb::MsgHeartbeat) {
      REQ(b.member(q.to()) && q.to() != b.id, "heartbeat to %llu", (ull)q.to());
      u64 c = std::min(b.prs.at(q.to()).match, b.log.committed);
      REQ(q.commit() == c, "heartbeat to %llu carries commit %llu, match is %llu and commit %llu", (ull)q.to(), (ull)q.commit(), (ull)b.prs.at(q.to()).match, (ull)b.log.committed);
      if (e.k == TICK || is(raftpb::MsgBeat)) REQ(q.context() == (a.q.empty() ? "" : a.q.back()), "heartbeat context %s", q.context().c_str());
      if (is(raftpb::MsgReadIndex)) REQ(q.context() == m.entries(0).data(), "heartbeat context %s", q.context().c_str());
    }
    if (is(raftpb::MsgHeartbeat) && !lower && !(sameterm && L)) {
      REQ(b.log.committed == std::max(a.log.committed, m.commit()), "commit %llu after a heartbeat with %llu", (ull)b.log.committed, (ull)m.commit());
      bool f = false;
      for (auto& q : nw) if (q.type() == raftpb::MsgHeartbeatResp) { f = true; REQ(q.to() == x && q.context() == m.context(), "answer %s", show(q).c_str()); }
      REQ(f, "a heartbeat was not answered");
    }
  }
  if (WANT("C19")) {
    if (ignored) { auto d = differs(a, b); REQ(d.empty() && nw.empty() && e.ok, "a request within the lease changed %s%s", d.c_str(), nw.empty() ? "" : " (answered)"); }
    if (is(raftpb::MsgPreVote)) REQ(b.term == a.term, "a pre-vote request changed the term to %llu", (ull)b.term);
    if (b.state == kPreCandidate && a.state != kPreCandidate && !higher) REQ(b.term == a.term && b.vote == a.vote, "becoming pre-candidate changed term or vote");
    if (is(raftpb::MsgPreVoteResp) && !m.reject() && higher) REQ(b.term == a.term || (a.state == kPreCandidate && b.term == a.term + 1 && (b.state == kCandidate || b.state == kLeader)), "a granted pre-vote changed the term from %llu to %llu", (ull)a.term, (ull)b.term);
  }
  if (WANT("C20")) {
    if (b.term != a.term || b.state != a.state) REQ(b.xfer == 0 || (b.state == kPreCandidate), "transfer to %llu pending after a change of term or role", (ull)b.xfer);
    for (auto& q : nw) if (q.type() == raftpb::MsgTimeoutNow) {
      REQ(b.state == kLeader && q.to() == b.xfer, "told %llu to campaign, target is %llu", (ull)q.to(), (ull)b.xfer);
      REQ(b.member(q.to()) && b.prs.at(q.to()).match == b.log.last, "told %llu to campaign, its match is %llu and last %llu", (ull)q.to(), (ull)(b.member(q.to()) ? b.prs.at(q.to()).match : 0), (ull)b.log.last);
    }
    if (e.k == TICK && L && a.ee + 1 >= a.eto) REQ(b.xfer == 0, "a transfer survives the election timeout");
    if (is(raftpb::MsgTransferLeader) && L && sameterm) {
      bool bad = !a.member(x) || a.prs.at(x).learner || x == a.id;
      if (bad) REQ(b.xfer == a.xfer || b.xfer == 0, "a request naming %llu started a transfer", (ull)x);
      else REQ(b.xfer == x, "transfer target %llu, requested %llu", (ull)b.xfer, (ull)x);
    } else if (stay) REQ(b.xfer == a.xfer || b.xfer == 0, "transfer to %llu started without a request", (ull)b.xfer);
  }
  if (WANT("C22")) {
    REQ(b.msgs.size() >= a.msgs.size(), "messages vanished from the outbox");
    for (size_t i = 0; i < a.msgs.size(); i++) REQ(mbytes(a.msgs[i]) == mbytes(b.msgs[i]), "outbox message %zu was changed", i);
    for (auto& q : nw) {
      bool fw = q.type() == raftpb::MsgProp || q.type() == raftpb::MsgReadIndex;
      REQ(q.from() == b.id || ((fw || q.type() == raftpb::MsgTransferLeader) && st && q.from() == x && x != 0), "sender %llu of %s", (ull)q.from(), show(q).c_str());
      if (vtype(q.type())) REQ(q.term() != 0, "%s without a term", show(q).c_str());
      else if (fw) REQ(q.term() == 0, "%s with a term", show(q).c_str());
      else REQ(q.term() == b.term, "%s, own term %llu", show(q).c_str(), (ull)b.term);
    }
  }
  if (WANT("C25") && lower) {
    auto d = differs(a, b);
    REQ(d.empty(), "a message of an older term changed %s", d.c_str());
    bool answer = (t == raftpb::MsgHeartbeat || t == raftpb::MsgApp) && (a.cq || a.pv), rej = t == raftpb::MsgPreVote;
    REQ(nw.size() == (answer || rej ? 1 : 0), "%zu answers to a message of an older term", nw.size());
    if (answer) REQ(nw[0].type() == raftpb::MsgAppResp && nw[0].to() == x && nw[0].term() == a.term, "answer %s", show(nw[0]).c_str());
    if (rej) REQ(nw[0].type() == raftpb::MsgPreVoteResp && nw[0].reject() && nw[0].to() == x && nw[0].term() == a.term, "answer %s", show(nw[0]).c_str());
  }
  if (WANT("C26") && stay) {
    for (auto& p : b.prs) {
      if (!a.member(p.first) || e.k == CONF) continue;   // a change may remove and add the same peer
      const PrV &o = a.prs.at(p.first), &w = p.second;
      REQ(w.match >= o.match, "match of %llu fell from %llu to %llu", (ull)p.first, (ull)o.match, (ull)w.match);
      if (p.first != b.id && w.match != o.match) REQ(is(raftpb::MsgAppResp) && x == p.first && !m.reject() && w.match == m.index(), "match of %llu moved to %llu", (ull)p.first, (ull)w.match);
    }
    if (st && sameterm && x != b.id && a.member(x)) {
      const PrV &o = a.prs.at(x), &w = b.prs.at(x);
      if (is(raftpb::MsgAppResp)) {
        REQ(w.next > w.match, "next %llu, match %llu", (ull)w.next, (ull)w.match);
        REQ(w.active, "an answering peer is not active");
        if (m.reject()) {
          bool stale = o.state == kReplicate ? m.index() <= o.match : o.next - 1 != m.index();
          if (stale) { PrV y = o; y.active = true; REQ(y == w && nw.empty(), "a stale rejection changed the progress"); }
          else {
            REQ(w.state != kReplicate, "still replicating after a rejection");
            if (o.state == kReplicate) REQ(w.next == o.match + 1, "next %llu after a rejection, match %llu", (ull)w.next, (ull)o.match);
            else REQ(w.next <= std::max(o.match + 1, std::max<u64>(1, std::min(m.index(), m.rejecthint() + 1))), "next %llu after rejecting %llu hint %llu", (ull)w.next, (ull)m.index(), (ull)m.rejecthint());
          }
        } else if (m.index() > o.match) {
          REQ(w.match == m.index() && w.next >= m.index() + 1, "match %llu next %llu after acknowledging %llu", (ull)w.match, (ull)w.next, (ull)m.index());
          REQ(w.state != kProbe, "still probing after an acknowledgement");
          if (o.state == kSnapshot && m.index() < o.pend) REQ(w.state == kSnapshot, "left snapshot state before reaching it");
          for (auto i : w.win) REQ(i > m.index(), "%llu is still in flight after acknowledging %llu", (ull)i, (ull)m.index());
        } else REQ(w.match == o.match && w.state == o.state && nw.empty(), "an old acknowledgement changed the progress");
      }
      if (is(raftpb::MsgSnapStatus)) {
        if (o.state != kSnapshot) REQ(w == o, "a snapshot report changed a peer in state %d", o.state);
        else REQ(w.state == kProbe && w.probe && w.pend == 0 && w.match == o.match && w.win.empty() && w.next == (!m.reject() && o.pend > o.match ? o.pend + 1 : o.match + 1), "after a snapshot report: state %d next %llu", w.state, (ull)w.next);
      }
      if (is(raftpb::MsgUnreachable)) {
        if (o.state != kReplicate) REQ(w == o, "an unreachable report changed a peer in state %d", o.state);
        else REQ(w.state == kProbe && !w.probe && w.win.empty() && w.next == o.match + 1 && w.match == o.match, "after an unreachable report: state %d next %llu", w.state, (ull)w.next);
      }
    }
  }
  if (WANT("C29")) {
    REQ(b.rto >= b.eto && b.rto < 2 * b.eto, "randomised timeout %ld with timeout %ld", b.rto, b.eto);
    if (e.k == TICK && !L) {
      bool due = a.ee + 1 >= a.rto, may = a.member(a.id) && !a.prs.at(a.id).learner && !(a.log.usnap && a.log.usi != 0);
      bool conf = false;
      for (u64 i = std::max(a.log.applied + 1, a.log.first); i <= a.log.committed; i++) conf |= a.log.at(i).type != raftpb::EntryNormal;
      bool camp = b.state == kLeader || b.term > a.term || (a.state == kFollower && b.state != kFollower);
      for (auto& q : nw) camp |= q.type() == raftpb::MsgVote || q.type() == raftpb::MsgPreVote;
      bool others = false;
      for (auto s : {&a.in, &a.out}) for (auto y : *s) others |= y != a.id;
      if (due && may && !conf) REQ(camp || (!others), "no campaign although the timeout passed (%ld of %ld)", a.ee + 1, a.rto);
      else REQ(!camp, "campaigned after %ld of %ld ticks (may %d, pending change %d)", a.ee + 1, a.rto, may, conf);
      if (!due) REQ(b.ee == a.ee + 1, "elapsed %ld after %ld", b.ee, a.ee);
    }
    if (e.k == TICK && L) {
      bool check = a.cq && a.ee + 1 >= a.eto;
      bool active = active_quorum(a);
      if (check) REQ((b.state == kLeader) == active, "quorum active %d, leader %d", active, b.state == kLeader);
      else REQ(b.state == kLeader && b.term == a.term, "stepped down without a quorum check");
      size_t n = 0;
      for (auto& q : nw) n += q.type() == raftpb::MsgHeartbeat;
      if (b.state == kLeader) REQ(n == (a.he + 1 >= a.hto ? a.prs.size() - (a.member(a.id) ? 1 : 0) : 0), "%zu heartbeats after %ld of %ld ticks", n, a.he + 1, a.hto);
      if (b.state == kLeader) REQ(b.ee == (a.ee + 1 >= a.eto ? 0 : a.ee + 1) && b.he == (a.he + 1 >= a.hto ? 0 : a.he + 1), "timers %ld/%ld after %ld/%ld", b.ee, b.he, a.ee, a.he);
    }
  }
  if (e.k == ADVANCE) {
    const Ready& rd = *e.rd;
    u64 want = a.log.applied;
    if (!rd.committed_entries.empty()) want = rd.committed_entries.back()->index();
    else if (rd.snapshot && rd.snapshot->metadata().index() > 0) want = rd.snapshot->metadata().index();
    if (WANT("C12")) REQ(b.log.applied == want, "applied %llu, expected %llu", (ull)b.log.applied, (ull)want);
    u64 sum = 0;
    for (auto& q : rd.committed_entries) sum += q->data().size();
    if (WANT("C21")) REQ(b.unc == (sum > a.unc ? 0 : a.unc - sum), "tracked size %llu after releasing %llu of %llu", (ull)b.unc, (ull)sum, (ull)a.unc);
    bool leave = a.autoleave && a.log.applied <= a.pend && want >= a.pend && L && want > 0 && (!rd.committed_entries.empty() || (rd.snapshot && rd.snapshot->metadata().index() > 0));
    if (WANT("C10")) {
      REQ(b.log.last == a.log.last + (leave ? 1 : 0), "last index %llu -> %llu, leave %d", (ull)a.log.last, (ull)b.log.last, leave);
      REQ(b.pend == (leave ? b.log.last : a.pend), "pending index %llu", (ull)b.pend);
      if (leave) REQ(b.log.at(b.log.last).type == raftpb::EntryConfChangeV2 && b.log.at(b.log.last).data.empty(), "the automatic leave entry is wrong");
    }
  }
}

// ------------------------------------------------------------------ operations
static void stopped(Node& n, const Stopped& s) {
  if (n.honest) fail("a node of a correct cluster stopped: " + s.what);
  throw s;
}
static void dump_pair(const St& a, const St& b) { note("BEFORE " + show(a)); note("AFTER " + show(b)); }

template <class F> static void op(Node& n, Kind k, const Msg& m, const Ready* rd, const std::string& d, F f) {
  St a = snap(n.r());
  note(fmt("node %llu (t%llu %d last %llu commit %llu): ", (ull)n.id, (ull)a.term, a.state, (ull)a.log.last, (ull)a.log.committed) + d);
  bool ok = true;
  try { ok = f(); } catch (Stopped& s) { stopped(n, s); }
  St b = snap(n.r());
  try { judge(a, Ev{k, m, ok, rd}, b); } catch (Violation& v) { dump_pair(a, b); throw; }
}
static void step(Node& n, const Msg& m) {
  auto p = std::make_shared<Msg>(m);
  op(n, STEP, m, nullptr, "step " + show(m), [&] { return n.r()->Step(p).IsOK(); });
}
static void net(Node& n, const Msg& m) {  // through the boundary
  auto p = std::make_shared<Msg>(m);
  auto lt = m.type();
  bool loc = lt == raftpb::MsgHup || lt == raftpb::MsgBeat || lt == raftpb::MsgUnreachable || lt == raftpb::MsgSnapStatus || lt == raftpb::MsgCheckQuorum;
  if (!WANT("C23") && loc) { step(n, m); return; }
  if (!WANT("C23")) { op(n, NSTEP, m, nullptr, "receive " + show(m), [&] { return n.rn->Step(p).IsOK(); }); return; }
  St a = snap(n.r());
  auto t = m.type();
  bool local = t == raftpb::MsgHup || t == raftpb::MsgBeat || t == raftpb::MsgUnreachable || t == raftpb::MsgSnapStatus || t == raftpb::MsgCheckQuorum;
  bool resp = t == raftpb::MsgAppResp || t == raftpb::MsgVoteResp || t == raftpb::MsgHeartbeatResp || t == raftpb::MsgPreVoteResp;
  bool stranger = resp && !a.member(m.from());
  note("receive " + show(m));
  // the state machine's handler is wrapped to see what reaches it
  std::string got;
  auto old = n.r()->step_;
  bool wrap = m.term() == a.term && !vtype(t) && !local && !stranger;
  if (wrap) n.r()->step_ = [&got, &old](MsgPtr q) { got = mbytes(*q); auto& f = old; return f(q); };
  const std::type_info& mine = n.r()->step_.target_type();
  bool ok = true;
  try { ok = n.rn->Step(p).IsOK(); } catch (Stopped& s) { stopped(n, s); }
  if (wrap && n.r()->step_.target_type() == mine) n.r()->step_ = old;
  if (wrap) { REQ(got == mbytes(m), "the message did not reach the state machine unchanged"); return; }
  St b = snap(n.r());
  if (local || stranger) {
    auto d = differs(a, b);
    REQ(!ok, "%s was accepted from the network", show(m).c_str());
    REQ(d.empty() && b.msgs.size() == a.msgs.size(), "a refused message changed %s", d.c_str());
  }
}
static void tick(Node& n) {
  Msg none;
  op(n, TICK, none, nullptr, "tick", [&] { n.rn->Tick(); return true; });
}
static std::function<void(Node&, const Msg&)> OUT;  // where sent messages go
static Applied* APP;

static void ready(Node& n) {
  if (n.rd) return;
  St a = snap(n.r());
  SoftState soft = n.r()->GetSoftState();
  raftpb::HardState hard = n.r()->GetHardState();
  auto heq = [](const raftpb::HardState& p, const raftpb::HardState& q) { return p.term() == q.term() && p.vote() == q.vote() && p.commit() == q.commit(); };
  bool schg = !(soft.lead == n.psoft.lead && soft.raft_state == n.psoft.raft_state), hchg = !heq(hard, n.phard);
  bool hempty = hard.term() == 0 && hard.vote() == 0 && hard.commit() == 0;
  u64 off = std::max(a.log.applied + 1, a.log.first);
  bool backlog = off <= a.log.committed, psnap = a.log.usnap && a.log.usi != 0;
  bool want = schg || (hchg && !hempty) || psnap || !a.msgs.empty() || !a.log.uns.empty() || backlog || !a.rs.empty();
  bool has;
  try {
    has = n.rn->HasReady();
    if (WANT("C11")) REQ(has == want, "ready %d, expected %d", has, want);
    if (!has) return;
    n.rd = n.rn->GetReady();
  } catch (Stopped& s) { stopped(n, s); }
  const Ready& rd = *n.rd;
  St b = snap(n.r());
  note(fmt("node %llu: ready with %zu entries, %zu committed, %zu messages", (ull)n.id, rd.entries.size(), rd.committed_entries.size(), rd.messages.size()));
  if (WANT("C11")) {
    REQ(rd.entries.size() == a.log.uns.size(), "%zu entries, %zu unstable", rd.entries.size(), a.log.uns.size());
    for (size_t i = 0; i < rd.entries.size(); i++) REQ(val(*rd.entries[i]) == a.log.uns[i], "entry %zu", i);
    u64 si = rd.snapshot ? rd.snapshot->metadata().index() : 0;
    REQ(si == (a.log.usnap ? a.log.usi : 0), "snapshot %llu", (ull)si);
    REQ(rd.messages.size() == a.msgs.size(), "%zu messages of %zu", rd.messages.size(), a.msgs.size());
    for (size_t i = 0; i < rd.messages.size(); i++) REQ(mbytes(*rd.messages[i]) == mbytes(a.msgs[i]), "message %zu", i);
    REQ(rd.read_states.size() == a.rs.size(), "%zu read states of %zu", rd.read_states.size(), a.rs.size());
    for (size_t i = 0; i < a.rs.size(); i++) REQ(rd.read_states[i] == a.rs[i], "read state %zu", i);
    REQ(rd.soft_state.has_value() == schg, "soft state present %d, changed %d", rd.soft_state.has_value(), schg);
    if (schg) REQ(rd.soft_state->lead == soft.lead && rd.soft_state->raft_state == soft.raft_state, "soft state");
    if (hchg) REQ(heq(rd.hard_state, hard), "hard state missing or wrong");
    else REQ(rd.hard_state.term() == 0 && rd.hard_state.vote() == 0 && rd.hard_state.commit() == 0, "hard state without a change");
    bool sync = !a.log.uns.empty() || hard.term() != n.phard.term() || hard.vote() != n.phard.vote();
    REQ(rd.must_sync == sync, "must sync %d, expected %d", rd.must_sync, sync);
    REQ(b.msgs.empty() && b.rs.empty(), "messages or read states stay after they were handed out");
    St c = b;
    c.rs = a.rs;
    auto d = differs(a, c);
    REQ(d.empty(), "accepting a ready changed %s", d.c_str());
  }
  if (WANT("C12")) {
    auto& ce = rd.committed_entries;
    REQ(!backlog || !ce.empty(), "a backlog of %llu..%llu yields nothing", (ull)off, (ull)a.log.committed);
    for (size_t i = 0; i < ce.size(); i++) REQ(off + i <= a.log.committed && a.log.has(off + i) && val(*ce[i]) == a.log.at(off + i), "committed entry %zu is %s, expected position %llu", i, show(val(*ce[i])).c_str(), (ull)(off + i));
  }
  if (schg) n.psoft = soft;
}

static void confchange(Node& n, const raftpb::Entry& e) {
  ConfChangeI cc;
  if (e.type() == raftpb::EntryConfChange) { raftpb::ConfChange c; c.ParseFromString(e.data()); cc.SetConfChange(std::move(c)); }
  else { raftpb::ConfChangeV2 c; c.ParseFromString(e.data()); cc.SetConfChange(std::move(c)); }
  Msg none;
  op(n, CONF, none, nullptr, "apply configuration change", [&] { n.cs = n.rn->ApplyConfChange(cc); return true; });
}

// persists and applies an accepted ready
static void persist(Node& n) {
  const Ready& rd = *n.rd;
  if (rd.hard_state.term() || rd.hard_state.vote() || rd.hard_state.commit()) n.st->SetHardState(rd.hard_state);
  if (rd.snapshot && rd.snapshot->metadata().index() > 0) n.st->ApplySnapshot(rd.snapshot);
  n.st->Append(rd.entries);
  for (auto& m : rd.messages) if (OUT) OUT(n, *m);
}
static void apply(Node& n) {
  const Ready& rd = *n.rd;
  if (rd.snapshot && rd.snapshot->metadata().index() > 0) { n.applied = rd.snapshot->metadata().index(); n.cs = rd.snapshot->metadata().conf_state(); }
  for (auto& e : rd.committed_entries) {
    if (APP) {
      auto it = APP->at.find(e->index());
      if (it != APP->at.end()) REQ(it->second == val(*e), "node %llu applies %s at an index where %s was applied", (ull)n.id, show(val(*e)).c_str(), show(it->second).c_str());
      else APP->at[e->index()] = val(*e);
      if (WANT("C12")) REQ(e->index() == n.applied + 1, "applied %llu after %llu", (ull)e->index(), (ull)n.applied);
    }
    n.applied = e->index();
    if (e->type() != raftpb::EntryNormal) confchange(n, *e);
  }
  bool in = false;
  for (auto v : n.cs.voters()) in |= v == n.id;
  for (auto v : n.cs.voters_outgoing()) in |= v == n.id;
  for (auto v : n.cs.learners()) in |= v == n.id;
  n.removed = !in;
}
static void advance(Node& n) {
  if (!n.rd) return;
  auto rd = n.rd;
  if (rd->hard_state.term() || rd->hard_state.vote() || rd->hard_state.commit()) n.phard = rd->hard_state;
  if (!n.honest && !rd->entries.empty()) {
    // made-up messages may put a different prefix below an entry of the same index and term; no correct sender does
    auto lv = logv(n.r()->GetRaftLog());
    auto& back = *rd->entries.back();
    if (lv.has(back.index()) && lv.at(back.index()).term == back.term())
      for (auto& e : rd->entries) if (!lv.has(e->index()) || !(lv.at(e->index()) == val(*e))) { if (e->index() >= lv.first) throw Stopped{"impossible log"}; }
    if (lv.has(back.index()) && lv.at(back.index()).term == back.term())
      for (u64 i = std::max(lv.first, lv.sfirst); i <= lv.slast && i < back.index(); i++) if (!(lv.at(i) == val(*n.st->ents_[i - lv.sfirst + 1]))) throw Stopped{"impossible log"};
  }
  Msg none;
  op(n, ADVANCE, none, rd.get(), "advance", [&] { n.rn->Advance(); return true; });
  n.rd.reset();
}

// ------------------------------------------------------------------ one node, arbitrary messages
static std::string payload() { return std::string(chance(30) ? 0 : rnd(14), 'd'); }
static raftpb::ConfState some_conf(u64 self, bool member) {
  raftpb::ConfState cs;
  u64 n = rng(1, 5);
  std::set<u64> in, out, le, ln;
  for (u64 i = 1; i <= n; i++) if (chance(75)) in.insert(i);
  if (in.empty()) in.insert(1);
  if (chance(30)) for (u64 i = 1; i <= n; i++) if (chance(60)) out.insert(i);
  if (member && chance(85)) in.insert(self);
  for (u64 i = 1; i <= n + 1; i++) if (!in.count(i) && !out.count(i) && (chance(50) || (member && i == self))) le.insert(i);
  for (auto i : out) if (!in.count(i) && chance(40)) ln.insert(i);
  for (auto i : in) cs.add_voters(i);
  for (auto i : out) cs.add_voters_outgoing(i);
  for (auto i : le) cs.add_learners(i);
  for (auto i : ln) cs.add_learners_next(i);
  cs.set_auto_leave(!out.empty() && chance(50));
  return cs;
}
static void base_config(Raft::Config& c) {
  c.logger = LOGGER;
  c.election_tick = (int)rng(2, 8);
  c.heartbeat_tick = (int)rng(1, c.election_tick - 1);
  c.max_size_per_msg = chance(40) ? ~0ull : rng(0, 50);
  c.max_committed_size_per_ready = chance(60) ? ~0ull : rng(1, 50);
  c.max_uncommitted_entries_size = chance(60) ? 0 : rng(1, 60);
  c.max_inflight_msgs = (int)rng(1, 4);
  c.check_quorum = chance(60);
  c.pre_vote = chance(50);
  c.read_only_option = c.check_quorum && chance(35) ? ReadOnly::kLeaseBased : ReadOnly::kSafe;
  c.disable_proposal_forwarding = chance(15);
}
static std::string cc_data(raftpb::EntryType& t, u64 maxid) {
  if (chance(50)) {
    raftpb::ConfChange c;
    c.set_type((raftpb::ConfChangeType)rnd(4));
    c.set_node_id(rng(1, maxid));
    t = raftpb::EntryConfChange;
    return c.SerializeAsString();
  }
  raftpb::ConfChangeV2 c;
  c.set_transition((raftpb::ConfChangeTransition)rnd(3));
  for (u64 k = chance(40) ? 0 : rng(1, 3); k > 0; k--) { auto s = c.add_changes(); s->set_type((raftpb::ConfChangeType)rnd(4)); s->set_node_id(rng(1, maxid)); }
  if (c.changes_size() == 0 && chance(50)) c.set_context("bye");
  t = raftpb::EntryConfChangeV2;
  return c.SerializeAsString();
}
static Msg some_msg(Node& n, const St& s) {
  Msg m;
  static const MT T[] = {raftpb::MsgHup, raftpb::MsgBeat, raftpb::MsgProp, raftpb::MsgApp, raftpb::MsgAppResp, raftpb::MsgVote, raftpb::MsgVoteResp, raftpb::MsgSnap, raftpb::MsgHeartbeat, raftpb::MsgHeartbeatResp, raftpb::MsgUnreachable, raftpb::MsgSnapStatus, raftpb::MsgCheckQuorum, raftpb::MsgTransferLeader, raftpb::MsgTimeoutNow, raftpb::MsgReadIndex, raftpb::MsgReadIndexResp, raftpb::MsgPreVote, raftpb::MsgPreVoteResp};
  static const int W[4][19] = {
    // hup beat prop app appr vote voter snap hb hbr unre snst chq tran tmo ri rir pv pvr
    {4, 1, 3, 30, 1, 12, 1, 10, 10, 1, 1, 1, 1, 2, 3, 3, 3, 8, 1},
    {4, 1, 2, 8, 1, 8, 25, 5, 5, 1, 1, 1, 1, 1, 2, 2, 1, 6, 3},
    {1, 3, 16, 1, 40, 3, 1, 1, 1, 16, 4, 6, 2, 7, 1, 10, 1, 3, 1},
    {4, 1, 2, 8, 1, 8, 3, 5, 5, 1, 1, 1, 1, 1, 2, 2, 1, 6, 25}};
  int tot = 0;
  for (int w : W[s.state]) tot += w;
  int r = (int)rnd(tot), k = 0;
  while (r >= W[s.state][k]) r -= W[s.state][k++];
  m.set_type(T[k]);
  m.set_to(s.id);
  std::vector<u64> peers;
  for (auto& p : s.prs) if (p.first != s.id) peers.push_back(p.first);
  u64 from = peers.empty() || chance(6) ? rng(1, 8) : peers[rnd(peers.size())];
  if (from == s.id) from = s.id + 1;
  m.set_from(from);
  u64 t = chance(70) ? s.term : chance(50) ? s.term + rng(1, 2) : s.term > 1 ? s.term - 1 : s.term;
  if (t == 0) t = 1;
  m.set_term(t);
  const LogV& l = s.log;
  switch (m.type()) {
    case raftpb::MsgHup: case raftpb::MsgBeat: case raftpb::MsgCheckQuorum:
      m.set_from(s.id); m.clear_term(); break;
    case raftpb::MsgUnreachable: case raftpb::MsgSnapStatus:
      m.clear_term(); m.set_reject(chance(40)); break;
    case raftpb::MsgTransferLeader:
      m.clear_term(); if (chance(10)) m.set_from(s.id); break;
    case raftpb::MsgProp: {
      m.clear_term();
      if (chance(40)) m.set_from(s.id);
      for (u64 c = rng(1, 3); c > 0; c--) {
        auto e = m.add_entries();
        if (chance(30)) { raftpb::EntryType et; e->set_data(cc_data(et, 6)); e->set_type(et); }
        else e->set_data(payload());
      }
      break;
    }
    case raftpb::MsgReadIndex: {
      m.clear_term();
      if (chance(40)) m.set_from(chance(50) ? s.id : 0);
      m.add_entries()->set_data(fmt("r%llu", (ull)rnd(30)));
      break;
    }
    case raftpb::MsgReadIndexResp: m.set_index(rnd(l.last + 1)); m.add_entries()->set_data("rr"); break;
    case raftpb::MsgVote: case raftpb::MsgPreVote: {
      m.set_index(l.last + rnd(4) >= 2 ? l.last + rnd(4) - 1 : l.last);
      m.set_logterm(chance(60) ? l.term(l.last) : rnd(t + 1));
      if (m.logterm() > t) m.set_logterm(t);
      if (chance(20)) m.set_context(TRANSFER());
      break;
    }
    case raftpb::MsgVoteResp: m.set_reject(chance(35)); if (!m.reject() && chance(90)) m.set_term(s.term ? s.term : 1); break;
    case raftpb::MsgPreVoteResp: m.set_reject(chance(35)); m.set_term(m.reject() ? t : s.term + 1); break;
    case raftpb::MsgAppResp: {
      u64 nx = s.member(from) ? s.prs.at(from).next : 1, mt = s.member(from) ? s.prs.at(from).match : 0;
      if (chance(35)) {
        m.set_reject(true);
        m.set_index(chance(70) && nx ? nx - 1 : rnd(l.last + 2));
        m.set_rejecthint(rnd(m.index() + 1));
        m.set_logterm(chance(70) ? rnd(s.term + 1) : 0);
      } else m.set_index(mt < l.last && chance(80) ? rng(mt, l.last) : rnd(l.last + 1));
      if (chance(90)) m.set_term(s.term ? s.term : 1);
      break;
    }
    case raftpb::MsgHeartbeatResp: {
      if (!s.q.empty() && chance(75)) m.set_context(s.q[rnd(s.q.size())]);
      else if (chance(30)) m.set_context("nobody");
      if (chance(92)) m.set_term(s.term ? s.term : 1);
      break;
    }
    case raftpb::MsgHeartbeat: m.set_commit(rnd(l.last + 1)); if (chance(40)) m.set_context("ctx"); if (s.lead && t == s.term && chance(90) && s.lead != s.id) m.set_from(s.lead); break;
    case raftpb::MsgApp: {
      if (s.lead && t == s.term && s.lead != s.id) m.set_from(s.lead);
      u64 lo = std::min(l.committed, l.last);
      m.set_index(chance(80) ? rng(lo, l.last) : chance(50) ? l.last + rnd(4) : rnd(l.last + 1));
      m.set_logterm(l.inr(m.index()) && chance(80) ? l.term(m.index()) : m.index() ? rng(1, t) : 0);
      u64 et = m.logterm();
      for (u64 c = rnd(5), i = m.index() + 1; c > 0; c--, i++) {
        if (l.has(i) && chance(60) && l.at(i).term >= et && l.at(i).term <= t) et = l.at(i).term;
        else if (et < t && chance(50)) et = rng(et, t);
        if (et == 0) et = 1;
        auto e = m.add_entries();
        e->set_index(i);
        e->set_term(et);
        if (l.has(i) && l.at(i).term == et) { if (!l.at(i).data.empty()) e->set_data(l.at(i).data); if (l.at(i).type) e->set_type((raftpb::EntryType)l.at(i).type); }
        else if (chance(8)) { raftpb::EntryType y; e->set_data(cc_data(y, 6)); e->set_type(y); }
        else { auto d = payload(); if (!d.empty()) e->set_data(d); }
      }
      m.set_commit(rnd(m.index() + m.entries_size() + 3));
      break;
    }
    case raftpb::MsgSnap: {
      auto md = m.mutable_snapshot()->mutable_metadata();
      md->set_index(chance(50) ? rng(std::min(l.committed, l.last), l.last + 3) : rng(1, l.last + 5));
      md->set_term(l.inr(md->index()) && chance(50) ? l.term(md->index()) : rng(1, t));
      if (md->term() == 0) md->set_term(1);
      *md->mutable_conf_state() = some_conf(s.id, chance(85));
      if (s.lead && t == s.term && s.lead != s.id) m.set_from(s.lead);
      break;
    }
    default: break;
  }
  return m;
}
static void win_election(Node& n) {
  Msg hup;
  hup.set_type(raftpb::MsgHup);
  hup.set_from(n.id);
  step(n, hup);
  for (int round = 0; round < 2; round++) {
    St s = snap(n.r());
    if (s.state == kLeader || s.state == kFollower) return;
    for (auto& p : s.prs) {
      if (p.first == n.id || p.second.learner) continue;
      Msg v;
      v.set_type(s.state == kPreCandidate ? raftpb::MsgPreVoteResp : raftpb::MsgVoteResp);
      v.set_from(p.first);
      v.set_to(n.id);
      v.set_term(s.state == kPreCandidate ? s.term + 1 : s.term);
      step(n, v);
      if (n.r()->state_ != s.state) break;
    }
  }
}
void node_episode() {
  OUT = nullptr;
  APP = nullptr;
  Node n;
  n.id = rng(1, 3);
  base_config(n.cfg);
  n.cfg.id = n.id;
  n.st = std::make_shared<MemoryStorage>(LOGGER);
  u64 base = rng(1, 6), t = rng(1, 3);
  auto sn = std::make_shared<raftpb::Snapshot>();
  sn->mutable_metadata()->set_index(base);
  sn->mutable_metadata()->set_term(t);
  *sn->mutable_metadata()->mutable_conf_state() = some_conf(n.id, chance(95));
  n.st->ApplySnapshot(sn);
  EntryPtrs es;
  for (u64 k = rnd(7), i = base + 1; k > 0; k--, i++) {
    if (chance(30)) t++;
    auto e = ent(i, t, payload());
    if (chance(5)) { raftpb::EntryType y; e->set_data(cc_data(y, 5)); e->set_type(y); }
    es.push_back(e);
  }
  n.st->Append(es);
  raftpb::HardState hs;
  hs.set_term(t + rnd(2));
  hs.set_vote(chance(40) ? rng(1, 4) : 0);
  hs.set_commit(rng(base, base + es.size()));
  n.st->SetHardState(hs);
  n.cfg.applied = chance(50) ? base : 0;
  n.applied = n.cfg.applied;
  n.cs = sn->metadata().conf_state();
  note(fmt("start node %llu: snapshot %llu, %zu entries, term %llu", (ull)n.id, (ull)base, es.size(), (ull)hs.term()));
  n.start();
  note(show(snap(n.r())));
  bool applier = chance(75);
  int steps = (int)rng(10, 60);
  for (int k = 0; k < steps; k++) {
    int c = (int)rnd(100);
    St s = snap(n.r());
    if (!s.log.ok) return;
    if (c < 6 && s.state == kFollower) win_election(n);
    else if (c < 20) { int q = chance(30) ? (int)rng(2, 12) : 1; while (q--) tick(n); }
    else if (c < 34) {
      if (n.rd) {
        if (applier) {
          try { apply(n); } catch (Stopped&) { return; }
        }
        advance(n);
      } else { ready(n); if (n.rd) persist(n); }
    } else if (c < 38 && n.applied > 0) {
      // the application compacts what it has applied
      auto lv = logv(n.r()->GetRaftLog());
      u64 hi = std::min(lv.applied, lv.slast);
      if (hi > lv.sfirst && !n.rd && !lv.usnap) {
        u64 i = rng(lv.sfirst, hi);
        raftpb::ConfState cs = n.r()->trk_.ConfState();
        try { n.st->CreateSnapshot(i, &cs, "s"); if (chance(70)) n.st->Compact(i); } catch (Stopped&) {}
        note(fmt("compact to %llu", (ull)i));
      }
    } else {
      Msg m = some_msg(n, s);
      // what was handed out was once in the log: a snapshot that replaces it lies beyond it
      if (n.rd && m.type() == raftpb::MsgSnap && m.snapshot().metadata().index() <= std::max(s.log.last, n.rd->entries.empty() ? 0 : n.rd->entries.back()->index())) continue;
      if (c < 45 || WANT("C23")) net(n, m);
      else step(n, m);
    }
  }
}

// ------------------------------------------------------------------ several nodes
void cluster_episode() {
  static Applied app;
  app.at.clear();
  static const std::set<std::string> AGREE = {"C03", "C04", "C05", "C06", "C07", "C12", "C14", "C27", "C28"};
  APP = AGREE.count(PROP) ? &app : nullptr;
  std::map<u64, u64> leaders;   // term -> leader
  std::map<u64, std::unique_ptr<Node>> ns;
  std::vector<Msg> wire;
  OUT = [&](Node& n, const Msg& m) { if (wire.size() < 400) wire.push_back(m); };
  u64 n0 = rng(1, 4), maxid = n0 + 2;
  Raft::Config shared;
  base_config(shared);
  shared.max_inflight_msgs = (int)rng(1, 5);
  u64 extra = chance(30) ? n0 + 1 : 0;   // a learner
  auto create = [&](u64 id, bool member) {
    auto n = std::make_unique<Node>();
    n->id = id;
    n->honest = true;
    n->cfg = shared;
    n->cfg.id = id;
    n->cfg.applied = 0;
    n->st = std::make_shared<MemoryStorage>(LOGGER);
    if (member) {
      auto sn = std::make_shared<raftpb::Snapshot>();
      sn->mutable_metadata()->set_index(1);
      sn->mutable_metadata()->set_term(1);
      auto cs = sn->mutable_metadata()->mutable_conf_state();
      for (u64 i = 1; i <= n0; i++) cs->add_voters(i);
      if (extra) cs->add_learners(extra);
      n->st->ApplySnapshot(sn);
      raftpb::HardState hs;
      hs.set_term(1);
      hs.set_commit(1);
      n->st->SetHardState(hs);
      n->cs = *cs;
      n->applied = 1;
      n->cfg.applied = 1;
    }
    n->start();
    ns[id] = std::move(n);
  };
  for (u64 i = 1; i <= n0; i++) create(i, true);
  if (extra) create(extra, true);
  std::set<u64> cut;       // partitioned nodes
  int loss = chance(50) ? 0 : (int)rnd(30);
  u64 seq = 0;
  int steps = (int)rng(60, 500);
  static const std::set<std::string> ONE = {"C05", "C06", "C07", "C19", "C01"};
  for (int k = 0; k < steps; k++) {
    std::vector<u64> idv;
    for (auto& p : ns) if (!p.second->removed) idv.push_back(p.first);
    if (idv.empty()) return;
    Node& n = *ns[idv[rnd(idv.size())]];
    int c = (int)rnd(100);
    if (c < 45 && !wire.empty()) {
      size_t i = chance(70) ? 0 : rnd(wire.size());
      Msg m = wire[i];
      if (!chance(4)) wire.erase(wire.begin() + i);   // otherwise delivered again later
      if (!ns.count(m.to())) {
        if (m.to() == 0 || m.to() > maxid) continue;
        create(m.to(), false);                          // a node that was just added
      }
      Node& d = *ns[m.to()];
      if (d.removed || cut.count(m.to()) != cut.count(m.from()) || chance(loss)) {
        if (ns.count(m.from()) && !ns[m.from()]->removed) {
          if (m.type() == raftpb::MsgSnap) { note("snapshot lost"); Msg q; q.set_type(raftpb::MsgSnapStatus); q.set_from(m.to()); q.set_reject(true); step(*ns[m.from()], q); }
          else if (m.type() == raftpb::MsgApp && chance(30)) { Msg q; q.set_type(raftpb::MsgUnreachable); q.set_from(m.to()); step(*ns[m.from()], q); }
        }
        continue;
      }
      net(d, m);
      if (m.type() == raftpb::MsgSnap && ns.count(m.from()) && !ns[m.from()]->removed) { Msg q; q.set_type(raftpb::MsgSnapStatus); q.set_from(m.to()); q.set_reject(false); step(*ns[m.from()], q); }
    } else if (c < 57) tick(n);
    else if (c < 80) {
      if (!n.rd) ready(n);
      if (n.rd) {
        if (chance(5)) {   // crash before anything of this batch was persisted
          note(fmt("node %llu restarts", (ull)n.id));
          // the application restarts from its last snapshot and replays
          auto& md = n.st->snapshot_->metadata();
          n.cfg.applied = n.applied = md.index();
          n.cs = md.conf_state();
          n.start();
        } else {
          persist(n);
          apply(n);
          advance(n);
        }
      }
    } else if (c < 88) {
      Msg m;
      m.set_type(raftpb::MsgProp);
      m.set_from(n.id);
      m.add_entries()->set_data(fmt("v%llu", (ull)++seq));
      if (chance(20)) m.add_entries()->set_data(payload());
      step(n, m);
    } else if (c < 91) {
      if (n.r()->state_ == kLeader && n.r()->pending_conf_index_ <= n.r()->raft_log_->applied_) {
        St s = snap(n.r());
        raftpb::ConfChangeV2 cc;
        if (!s.joint()) {
          auto in = s.in;
          u64 cnt = chance(60) ? 1 : rng(2, 3);
          for (u64 q = 0; q < cnt; q++) {
            auto ch = cc.add_changes();
            u64 x = rng(1, maxid);
            int what = (int)rnd(3);
            if (what != 0 && in.count(x) && in.size() == 1) what = 0;
            ch->set_node_id(x);
            ch->set_type(what == 0 ? raftpb::ConfChangeAddNode : what == 1 ? raftpb::ConfChangeRemoveNode : raftpb::ConfChangeAddLearnerNode);
            if (what == 0) in.insert(x); else in.erase(x);
          }
          cc.set_transition(cnt == 1 ? (raftpb::ConfChangeTransition)rnd(3) : chance(50) ? raftpb::ConfChangeTransitionJointImplicit : raftpb::ConfChangeTransitionJointExplicit);
          // removed nodes do not come back under the same identity
          for (auto& ch : cc.changes()) if (ns.count(ch.node_id()) && ns[ch.node_id()]->removed) { cc.Clear(); break; }
          if (cc.changes_size() == 0) continue;
        }
        Msg m;
        m.set_type(raftpb::MsgProp);
        m.set_from(n.id);
        auto e = m.add_entries();
        e->set_type(raftpb::EntryConfChangeV2);
        e->set_data(cc.SerializeAsString());
        note("propose configuration change " + cc.ShortDebugString());
        step(n, m);
      }
    } else if (c < 94) {
      Msg m;
      m.set_type(raftpb::MsgReadIndex);
      m.add_entries()->set_data(fmt("read%llu", (ull)++seq));
      step(n, m);
    } else if (c < 95) {
      if (n.r()->state_ == kLeader) { Msg m; m.set_type(raftpb::MsgTransferLeader); m.set_from(rng(1, maxid)); step(n, m); }
    } else if (c < 97) {
      cut.clear();
      if (chance(50)) cut.insert(idv[rnd(idv.size())]);
      loss = chance(60) ? 0 : (int)rnd(30);
    } else if (c < 99) {
      auto lv = logv(n.r()->GetRaftLog());
      u64 i = std::min(n.applied, lv.slast);
      if (!n.rd && !lv.usnap && n.applied == lv.applied && i >= lv.sfirst && n.cs.voters_size() && i > n.st->snapshot_->metadata().index()) {
        n.st->CreateSnapshot(i, &n.cs, "s");
        u64 to = rng(lv.sfirst, i);
        n.st->Compact(to);
        note(fmt("node %llu: snapshot at %llu, compacted to %llu", (ull)n.id, (ull)i, (ull)to));
      }
    } else for (int q = 0; q < 2 * shared.election_tick; q++) tick(n);
    if (ONE.count(PROP)) for (auto& p : ns) if (!p.second->removed && p.second->r()->state_ == kLeader) {
      u64 t = p.second->r()->term_;
      if (leaders.count(t)) REQ(leaders[t] == p.first, "nodes %llu and %llu both lead term %llu", (ull)leaders[t], (ull)p.first, (ull)t);
      leaders[t] = p.first;
    }
  }
  OUT = nullptr;
  APP = nullptr;
}
