#include "common.h"
std::mt19937_64 G;
std::string PROP;
std::vector<std::string> TRACE;
std::shared_ptr<Logger> LOGGER = std::make_shared<StopLogger>();

LogV logv(craft::RaftLog* l) {
  LogV v;
  auto ms = static_cast<MemoryStorage*>(l->storage_.get());
  auto& se = ms->ents_;
  v.sfirst = se[0]->index() + 1;
  v.slast = se[0]->index() + se.size() - 1;
  auto& u = l->unstable_;
  v.uoff = u.offset_;
  for (auto& e : u.entries_) v.uns.push_back(val(*e));
  v.usnap = u.snapshot_ != nullptr;
  if (v.usnap) { v.usi = u.snapshot_->metadata().index(); v.ust = u.snapshot_->metadata().term(); }
  v.committed = l->committed_;
  v.applied = l->applied_;
  v.first = v.usnap ? v.usi + 1 : v.sfirst;
  v.dterm = v.usnap ? v.ust : se[0]->term();
  v.last = !v.uns.empty() ? v.uoff + v.uns.size() - 1 : v.usnap ? v.usi : v.slast;
  for (u64 i = v.first; i <= v.last; i++) {
    if (i >= v.uoff) {
      if (i - v.uoff >= v.uns.size()) { v.ok = false; break; }
      v.ents.push_back(v.uns[i - v.uoff]);
    } else {
      if (v.usnap || i < v.sfirst || i > v.slast) { v.ok = false; break; }
      v.ents.push_back(val(*se[i - v.sfirst + 1]));
    }
  }
  if (!v.ok) v.ents.resize(v.last >= v.first ? v.last - v.first + 1 : 0, E{0, 0, 0, ""});
  for (size_t k = 0; k < v.ents.size(); k++) if (v.ents[k].index != v.first + k) v.ok = false;
  return v;
}

PrV prv(Progress* p) {
  PrV v;
  v.match = p->Match();
  v.next = p->Next();
  v.state = p->State();
  v.pend = p->PendingSnapshot();
  v.active = p->RecentActive();
  v.probe = p->ProbeSent();
  v.learner = p->IsLearner();
  auto f = p->GetInflights();
  v.cap = f->Size();
  for (long i = 0; i < f->Count(); i++) {
    auto k = (f->Start() + i) % f->Size();
    v.win.push_back(k < (long)f->Buffer().size() ? f->Buffer()[k] : ~0ull);
  }
  return v;
}

St snap(Raft* r) {
  St s;
  s.id = r->id_; s.term = r->term_; s.vote = r->vote_; s.lead = r->lead_; s.state = r->state_;
  s.xfer = r->lead_transferee_; s.pend = r->pending_conf_index_; s.unc = r->uncommitted_size_; s.maxunc = r->max_uncommitted_size_; s.maxmsg = r->max_msg_size_;
  s.ee = r->election_elapsed_; s.he = r->heartbeat_elapsed_; s.rto = r->randomized_election_timeout_; s.eto = r->election_timeout_; s.hto = r->heartbeat_timeout_;
  s.islearner = r->is_learner_; s.cq = r->check_quorum_; s.pv = r->pre_vote_; s.dpf = r->disable_proposal_forwarding_;
  s.log = logv(r->raft_log_.get());
  auto& c = r->trk_.config_;
  s.in = c.voters.Incoming().IDs();
  s.out = c.voters.Outgoing().IDs();
  s.learners = c.learners; s.lnext = c.learners_next; s.autoleave = c.auto_leave;
  for (auto& p : r->trk_.progress_) s.prs[p.first] = prv(p.second.get());
  s.votes = r->trk_.votes_;
  auto ro = r->read_only_.get();
  for (auto& x : ro->read_index_queue_) s.q.push_back(x);
  for (auto& p : ro->pending_read_index_) {
    RoV v{p.second->index, mbytes(*p.second->req), p.second->req->from(), {}};
    for (auto& a : p.second->acks) if (a.second) v.acks.insert(a.first);
    s.ro[p.first] = v;
  }
  s.opt = ro->Option();
  for (auto& x : r->read_states_) s.rs.push_back(x);
  for (auto& m : r->pending_read_index_messages_) s.pendreads.push_back(*m);
  for (auto& m : r->msgs_) s.msgs.push_back(*m);
  return s;
}

std::string mbytes(const Msg& m) { return m.SerializeAsString(); }

std::string show(const Msg& m) {
  std::string s = fmt("%s %llu->%llu t%llu", raftpb::MessageType_Name(m.type()).c_str(), (unsigned long long)m.from(), (unsigned long long)m.to(), (unsigned long long)m.term());
  s += fmt(" idx=%llu lt=%llu commit=%llu", (unsigned long long)m.index(), (unsigned long long)m.logterm(), (unsigned long long)m.commit());
  if (m.reject()) s += fmt(" reject hint=%llu", (unsigned long long)m.rejecthint());
  if (!m.context().empty()) s += " ctx=" + m.context();
  if (m.entries_size()) { s += " ents="; for (auto& e : m.entries()) s += show(val(e)); }
  if (m.has_snapshot()) {
    s += fmt(" snap=%llu/t%llu voters:", (unsigned long long)m.snapshot().metadata().index(), (unsigned long long)m.snapshot().metadata().term());
    for (auto v : m.snapshot().metadata().conf_state().voters()) s += fmt(" %llu", (unsigned long long)v);
  }
  return s;
}

static std::string ids(const std::set<u64>& s) { std::string r = "{"; for (auto x : s) r += fmt(" %llu", (unsigned long long)x); return r + " }"; }
std::string show(const St& s) {
  static const char* names[] = {"follower", "candidate", "leader", "pre-candidate"};
  std::string r = fmt("node %llu term=%llu vote=%llu lead=%llu %s xfer=%llu pendconf=%llu uncommitted=%llu/%llu ee=%ld he=%ld rto=%ld eto=%ld hto=%ld cq=%d pv=%d opt=%d\n", (unsigned long long)s.id, (unsigned long long)s.term, (unsigned long long)s.vote, (unsigned long long)s.lead, s.state >= 0 && s.state < 4 ? names[s.state] : "?", (unsigned long long)s.xfer, (unsigned long long)s.pend, (unsigned long long)s.unc, (unsigned long long)s.maxunc, s.ee, s.he, s.rto, s.eto, s.hto, s.cq, s.pv, s.opt);
  r += fmt("  log first=%llu last=%llu committed=%llu applied=%llu dummy term=%llu unstable from %llu (%zu entries)", (unsigned long long)s.log.first, (unsigned long long)s.log.last, (unsigned long long)s.log.committed, (unsigned long long)s.log.applied, (unsigned long long)s.log.dterm, (unsigned long long)s.log.uoff, s.log.uns.size());
  if (s.log.usnap) r += fmt(" unstable snapshot %llu/t%llu", (unsigned long long)s.log.usi, (unsigned long long)s.log.ust);
  r += " :";
  for (auto& e : s.log.ents) r += show(e);
  r += "\n  config in=" + ids(s.in) + " out=" + ids(s.out) + " learners=" + ids(s.learners) + " next=" + ids(s.lnext) + (s.autoleave ? " autoleave" : "");
  for (auto& p : s.prs) {
    auto& v = p.second;
    r += fmt("\n  progress %llu: match=%llu next=%llu %s pend=%llu active=%d probe=%d learner=%d window(%zu/%ld):", (unsigned long long)p.first, (unsigned long long)v.match, (unsigned long long)v.next, v.state == kProbe ? "probe" : v.state == kReplicate ? "replicate" : "snapshot", (unsigned long long)v.pend, v.active, v.probe, v.learner, v.win.size(), v.cap);
    for (auto x : v.win) r += fmt(" %llu", (unsigned long long)x);
  }
  for (auto& v : s.votes) r += fmt("\n  vote of %llu: %d", (unsigned long long)v.first, v.second);
  for (auto& x : s.q) r += "\n  queued read " + x + (s.ro.count(x) ? fmt(" index=%llu acks=", (unsigned long long)s.ro.at(x).index) + ids(s.ro.at(x).acks) : "");
  r += fmt("\n  %zu messages, %zu read states, %zu postponed reads\n", s.msgs.size(), s.rs.size(), s.pendreads.size());
  return r;
}

std::string differs(const St& a, const St& b) {
#define D(f) if (!(a.f == b.f)) return #f;
  D(term) D(vote) D(lead) D(state) D(xfer) D(pend) D(unc) D(ee) D(he) D(rto) D(islearner)
  D(log.first) D(log.last) D(log.committed) D(log.applied) D(log.ents) D(log.uoff) D(log.uns) D(log.usnap) D(log.usi)
  D(in) D(out) D(learners) D(lnext) D(autoleave) D(prs) D(votes) D(q) D(rs) D(pendreads.size())
#undef D
  for (auto& p : a.ro) { if (!b.ro.count(p.first)) return "reads"; auto& o = b.ro.at(p.first); if (o.index != p.second.index || o.acks != p.second.acks) return "reads"; }
  if (a.ro.size() != b.ro.size()) return "reads";
  return "";
}

static int half(const std::set<u64>& c, const std::map<u64, bool>& votes) {
  if (c.empty()) return kVoteWon;
  size_t yes = 0, missing = 0;
  for (auto x : c) { auto it = votes.find(x); if (it == votes.end()) missing++; else if (it->second) yes++; }
  if (2 * yes > c.size()) return kVoteWon;
  if (2 * (yes + missing) <= c.size()) return kVoteLost;
  return kVotePending;
}
int vote_result(const std::set<u64>& in, const std::set<u64>& out, const std::map<u64, bool>& votes) {
  int a = half(in, votes), b = half(out, votes);
  if (a == kVoteWon && b == kVoteWon) return kVoteWon;
  if (a == kVoteLost || b == kVoteLost) return kVoteLost;
  return kVotePending;
}
static u64 chalf(const std::set<u64>& c, const std::function<bool(u64, u64&)>& acked) {
  if (c.empty()) return ~0ull;
  std::vector<u64> v;
  for (auto x : c) { u64 i = 0; if (!acked(x, i)) i = 0; v.push_back(i); }
  u64 best = 0;
  for (auto cand : v) { size_t n = 0; for (auto y : v) if (y >= cand) n++; if (2 * n > c.size() && cand > best) best = cand; }
  return best;
}
u64 committed_index(const std::set<u64>& in, const std::set<u64>& out, const std::function<bool(u64, u64&)>& acked) {
  return std::min(chalf(in, acked), chalf(out, acked));
}
