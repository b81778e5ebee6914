// component searches: random inputs against small independent oracles
#include "common.h"

static std::set<u64> some_ids(u64 maxid, int p) {
  std::set<u64> s;
  for (u64 i = 1; i <= maxid; i++) if (chance(p)) s.insert(i);
  return s;
}
static std::string ids(const std::set<u64>& s) { std::string r = "{"; for (auto x : s) r += fmt(" %llu", (unsigned long long)x); return r + " }"; }
typedef unsigned long long ull;

// ---- C01
static void votes() {
  u64 n = rng(1, 9);
  auto a = some_ids(n, 60), b = chance(50) ? some_ids(n, 50) : std::set<u64>();
  std::map<u64, bool> v;
  std::string d;
  int py = (int)rnd(101);
  for (u64 i = 1; i <= n + 2; i++) if (chance(75)) { v[i] = chance(py); d += fmt(" %llu:%d", (ull)i, (int)v[i]); }
  note("voters " + ids(a) + " outgoing " + ids(b) + " votes" + d);
  auto r = MajorityConfig(a).VoteResult(v);
  REQ(r == vote_result(a, {}, v), "majority says %d, expected %d", r, vote_result(a, {}, v));
  JointConfig j(a, b);
  r = j.VoteResult(v);
  REQ(r == vote_result(a, b, v), "joint says %d, expected %d", r, vote_result(a, b, v));
  ProgressTracker t(3);
  t.config_.voters = j;
  for (auto i : j.IDs()) t.progress_[i] = std::make_shared<Progress>(LOGGER, 1, 0, 3, false, false);
  for (auto i : some_ids(n + 2, 30)) if (!t.progress_.count(i)) t.progress_[i] = std::make_shared<Progress>(LOGGER, 1, 0, 3, true, false);
  std::map<u64, bool> w;
  int g = 0, rj = 0;
  for (auto& x : v) {
    t.RecordVote(x.first, x.second);
    w[x.first] = x.second;
    if (chance(20)) t.RecordVote(x.first, !x.second);  // only the first vote counts
  }
  for (auto& x : w) if (t.progress_.count(x.first) && !t.progress_[x.first]->IsLearner()) (x.second ? g : rj)++;
  auto [tg, tr, ts] = t.TallyVotes();
  REQ(ts == vote_result(a, b, v), "tally says %d, expected %d", ts, vote_result(a, b, v));
  REQ(tg == g && tr == rj, "tally counts %d/%d, expected %d/%d", (int)tg, (int)tr, g, rj);
}

// ---- C02
static void commits() {
  u64 n = rng(1, 11);
  auto a = some_ids(n, 70), b = chance(50) ? some_ids(n, 50) : std::set<u64>();
  std::map<u64, u64> ack;
  std::string d;
  u64 hi = chance(20) ? ~0ull : chance(50) ? 5 : 1000;
  for (u64 i = 1; i <= n + 1; i++) if (chance(80)) { ack[i] = hi == ~0ull ? G() : rnd(hi); d += fmt(" %llu:%llu", (ull)i, (ull)ack[i]); }
  note("voters " + ids(a) + " outgoing " + ids(b) + " acked" + d);
  auto f = [&](u64 x, u64& i) { auto it = ack.find(x); if (it == ack.end()) return false; i = it->second; return true; };
  MapAckIndexer m(ack);
  auto x = MajorityConfig(a).CommittedIndex(m);
  REQ(x == committed_index(a, {}, f), "majority commit %llu, expected %llu", (ull)x, (ull)committed_index(a, {}, f));
  JointConfig j(a, b);
  x = j.CommittedIndex(m);
  REQ(x == committed_index(a, b, f), "joint commit %llu, expected %llu", (ull)x, (ull)committed_index(a, b, f));
  ProgressTracker t(3);
  t.config_.voters = j;
  for (auto i : j.IDs()) t.progress_[i] = std::make_shared<Progress>(LOGGER, 1, 0, 3, false, false), t.progress_[i]->SetMatch(ack.count(i) ? ack[i] : 0);
  x = t.Committed();
  REQ(x == committed_index(a, b, f), "tracker commit %llu, expected %llu", (ull)x, (ull)committed_index(a, b, f));
}

// ---- C08 / C09
static bool wellformed(const ProgressTracker::Config& c, const ProgressMap& p, std::string& why) {
  auto &in = c.voters.Incoming().IDs(), &out = c.voters.Outgoing().IDs();
  for (auto x : c.learners) if (in.count(x) || out.count(x)) { why = fmt("learner %llu is a voter", (ull)x); return false; }
  for (auto x : c.learners_next) if (!out.count(x)) { why = fmt("staged learner %llu is no outgoing voter", (ull)x); return false; }
  for (auto s : {&in, &out, &c.learners, &c.learners_next}) for (auto x : *s) if (!p.count(x) || !p.at(x)) { why = fmt("member %llu has no progress", (ull)x); return false; }
  for (auto x : c.learners) if (!p.at(x)->IsLearner()) { why = fmt("learner %llu's progress is not marked", (ull)x); return false; }
  return true;
}
static std::vector<raftpb::ConfChangeSingle> changes(u64 n, int k, std::string& d) {
  std::vector<raftpb::ConfChangeSingle> v;
  for (int i = 0; i < k; i++) {
    raftpb::ConfChangeSingle c;
    c.set_type((raftpb::ConfChangeType)rnd(4));
    c.set_node_id(chance(3) ? 0 : rng(1, n));
    d += fmt(" %s(%llu)", raftpb::ConfChangeType_Name(c.type()).c_str(), (ull)c.node_id());
    v.push_back(c);
  }
  return v;
}
static std::set<u64> sd(const std::set<u64>& a, const std::set<u64>& b) {
  std::set<u64> r;
  for (auto x : a) if (!b.count(x)) r.insert(x);
  for (auto x : b) if (!a.count(x)) r.insert(x);
  return r;
}
static void confchanges() {
  ProgressTracker t(4);
  u64 n = rng(2, 6), last = rng(1, 50);
  for (int step = 0; step < 12; step++) {
    Changer ch(LOGGER, t, last);
    auto before = t.config_;
    std::map<u64, PrV> pb;
    for (auto& p : t.progress_) pb[p.first] = prv(p.second.get());
    std::string d;
    int op = (int)rnd(3);
    ProgressTracker::Config cfg;
    ProgressMap prs;
    Status st;
    bool al = chance(50);
    auto ccs = changes(n, (int)rnd(4), d);
    note(before.String() + (op == 0 ? " simple" : op == 1 ? " enter-joint" : " leave-joint") + d);
    if (op == 0) { auto [a, b, s] = ch.Simple(ccs); cfg = a; prs = b; st = s; }
    else if (op == 1) { auto [a, b, s] = ch.EnterJoint(al, ccs); cfg = a; prs = b; st = s; }
    else { auto [a, b, s] = ch.LeaveJoint(); cfg = a; prs = b; st = s; }
    auto &i0 = before.voters.Incoming().IDs(), &i1 = cfg.voters.Incoming().IDs(), &o0 = before.voters.Outgoing().IDs(), &o1 = cfg.voters.Outgoing().IDs();
    bool joint = !o0.empty();
    for (auto& p : t.progress_) REQ(pb.count(p.first) && prv(p.second.get()) == pb[p.first], "progress %llu of the current configuration was changed", (ull)p.first);
    REQ(t.config_ == before, "the current configuration was changed");
    if (st.IsOK()) {
      std::string why;
      REQ(wellformed(cfg, prs, why), "%s", why.c_str());
      if (op == 0) {
        REQ(!joint, "simple change accepted in a joint configuration");
        REQ(o1.empty(), "a simple change made the configuration joint");
        REQ(!i1.empty(), "zero voters");
        REQ(sd(i0, i1).size() <= 1, "a simple change altered %zu voters", sd(i0, i1).size());
      } else if (op == 1) {
        REQ(!joint, "entered a joint configuration twice");
        REQ(o1 == i0, "outgoing half is not the old voters");
        REQ(!i1.empty(), "zero voters");
        REQ(cfg.auto_leave == al, "auto leave flag lost");
      } else {
        REQ(joint, "left a non-joint configuration");
        REQ(o1.empty() && i1 == i0, "leaving must keep the incoming half and drop the outgoing one");
        std::set<u64> l = before.learners;
        for (auto x : before.learners_next) l.insert(x);
        REQ(cfg.learners == l && cfg.learners_next.empty(), "staged learners must become learners");
        REQ(!cfg.auto_leave, "auto leave stays set");
      }
      if (op < 2 && !d.empty()) {
        // the result of the requested changes, by their meaning
        std::set<u64> in = i0, le = before.learners, ln = before.learners_next;
        const std::set<u64>& ou = op == 1 ? i0 : o0;
        for (auto& c : ccs) {
          u64 x = c.node_id();
          if (x == 0) continue;
          if (c.type() == raftpb::ConfChangeAddNode) { in.insert(x); le.erase(x); ln.erase(x); }
          else if (c.type() == raftpb::ConfChangeRemoveNode) { in.erase(x); le.erase(x); ln.erase(x); }
          else if (c.type() == raftpb::ConfChangeAddLearnerNode) { in.erase(x); if (ou.count(x)) { ln.insert(x); le.erase(x); } else le.insert(x); }
        }
        REQ(i1 == in, "incoming voters %s, expected %s", ids(i1).c_str(), ids(in).c_str());
        REQ(cfg.learners == le && cfg.learners_next == ln, "learners %s/%s, expected %s/%s", ids(cfg.learners).c_str(), ids(cfg.learners_next).c_str(), ids(le).c_str(), ids(ln).c_str());
      }
      t.config_ = cfg;
      t.progress_ = prs;
    }
  }
}
static void confstates() {
  u64 n = rng(1, 7);
  raftpb::ConfState cs;
  std::set<u64> in = some_ids(n, 50), out, le, ln;
  if (in.empty()) in.insert(rng(1, n));
  if (chance(60)) out = some_ids(n, 50);
  for (u64 i = 1; i <= n; i++) if (!in.count(i) && !out.count(i) && chance(40)) le.insert(i);
  for (u64 i = 1; i <= n; i++) if (out.count(i) && !in.count(i) && chance(40)) ln.insert(i);
  bool al = !out.empty() && chance(50);
  auto put = [](auto* f, const std::set<u64>& s) { std::vector<u64> v(s.begin(), s.end()); std::shuffle(v.begin(), v.end(), G); for (auto x : v) f->Add(x); };
  put(cs.mutable_voters(), in);
  put(cs.mutable_voters_outgoing(), out);
  put(cs.mutable_learners(), le);
  put(cs.mutable_learners_next(), ln);
  cs.set_auto_leave(al);
  note("voters " + ids(in) + " outgoing " + ids(out) + " learners " + ids(le) + " next " + ids(ln));
  ProgressTracker t(4);
  auto [cfg, prs, st] = Restore(Changer(LOGGER, t, rng(1, 20)), cs);
  REQ(st.IsOK(), "refused: %s", st.Str());
  REQ(cfg.voters.Incoming().IDs() == in, "voters %s", ids(cfg.voters.Incoming().IDs()).c_str());
  REQ(cfg.voters.Outgoing().IDs() == out, "outgoing %s", ids(cfg.voters.Outgoing().IDs()).c_str());
  REQ(cfg.learners == le, "learners %s", ids(cfg.learners).c_str());
  REQ(cfg.learners_next == ln, "staged %s", ids(cfg.learners_next).c_str());
  REQ(cfg.auto_leave == al, "auto leave %d", cfg.auto_leave);
  t.config_ = cfg;
  t.progress_ = prs;
  auto back = t.ConfState();
  auto set = [](auto& f) { return std::set<u64>(f.begin(), f.end()); };
  REQ(set(back.voters()) == in && set(back.voters_outgoing()) == out && set(back.learners()) == le && set(back.learners_next()) == ln && back.auto_leave() == al, "the exported state differs");
  REQ(::craft::operator==(cs, back), "the exported state does not compare equal");
  raftpb::ConfState other = back;
  u64 x = rng(1, n + 1);
  auto flip = [&](auto* f, const std::set<u64>& s) { f->Clear(); bool had = false; for (auto y : s) if (y == x) had = true; else f->Add(y); if (!had) f->Add(x); };
  switch (rnd(4)) {
    case 0: flip(other.mutable_voters(), in); break;
    case 1: flip(other.mutable_voters_outgoing(), out); break;
    case 2: flip(other.mutable_learners(), le); break;
    default: flip(other.mutable_learners_next(), ln); break;
  }
  REQ(!(::craft::operator==(cs, other)), "states with different members compare equal");
}

// ---- logs
struct RL {
  std::shared_ptr<MemoryStorage> st;
  std::unique_ptr<craft::RaftLog> l;
};
static std::string data() { return std::string(rnd(4) == 0 ? 0 : rnd(12), 'x'); }
static RL some_log(u64 maxnext = ~0ull) {
  RL r;
  r.st = std::make_shared<MemoryStorage>(LOGGER);
  u64 base = rnd(5), t = base ? rng(1, 3) : 0;
  if (base) {
    auto s = std::make_shared<raftpb::Snapshot>();
    s->mutable_metadata()->set_index(base);
    s->mutable_metadata()->set_term(t);
    r.st->ApplySnapshot(s);
  }
  u64 i = base + 1;
  EntryPtrs es;
  for (u64 k = rnd(8); k > 0; k--) { if (chance(30)) t++; if (t == 0) t = 1; es.push_back(ent(i++, t, data())); }
  r.st->Append(es);
  if (chance(30) && es.size() > 1) r.st->Compact(base + rng(1, es.size() - 1));
  r.l = craft::RaftLog::NewWithSize(LOGGER, r.st, maxnext);
  auto lv = logv(r.l.get());
  // unstable part: a snapshot, or a suffix that may overlap the storage
  u64 lo = lv.last + 1;
  if (chance(20)) {
    auto s = std::make_shared<raftpb::Snapshot>();
    s->mutable_metadata()->set_index(lv.last + rng(1, 5));
    s->mutable_metadata()->set_term(++t);
    r.l->committed_ = s->metadata().index();
    r.l->unstable_.Restore(s);
    lo = s->metadata().index() + 1;
  } else if (chance(40) && lv.last > lv.first) {
    lo = rng(lv.first, lv.last);
    t = lv.term(lo - 1);
    if (chance(60)) t++;
    if (t == 0) t = 1;
  }
  EntryPtrs us;
  u64 nu = rnd(7);
  if (lo <= lv.last && nu == 0) nu = 1;
  for (u64 k = 0; k < nu; k++) { if (t == 0) t = 1; us.push_back(ent(lo + k, t, data())); if (chance(30)) t++; }
  if (!us.empty()) { r.l->unstable_.offset_ = lo; r.l->unstable_.entries_ = us; }
  lv = logv(r.l.get());
  r.l->committed_ = rng(lv.first - 1, lv.last);
  r.l->applied_ = lv.usnap ? (chance(50) ? lv.first - 1 : lv.sfirst - 1) : rng(lv.first - 1, r.l->committed_);
  return r;
}
static std::string dump(const LogV& v) {
  std::string s = fmt("log first=%llu dummy t%llu last=%llu committed=%llu applied=%llu unstable from %llu%s :", (ull)v.first, (ull)v.dterm, (ull)v.last, (ull)v.committed, (ull)v.applied, (ull)v.uoff, v.usnap ? " +snapshot" : "");
  for (auto& e : v.ents) s += show(e);
  return s;
}
static EntryPtrs some_append(const LogV& v, u64& index, u64& lt) {
  index = chance(85) ? rng(v.first > 2 && chance(20) ? v.first - 2 : v.first - 1, v.last) : v.last + rnd(3);
  lt = v.inr(index) && chance(80) ? v.term(index) : index ? rng(1, 6) : 0;  // only position 0 has term 0
  EntryPtrs es;
  u64 t = lt;
  u64 n = rnd(6);
  for (u64 k = 1; k <= n; k++) {
    if (v.has(index + k) && chance(70) && v.at(index + k).term >= t) t = v.at(index + k).term;
    else if (chance(40)) t++;
    es.push_back(ent(index + k, t ? t : 1, data()));
    if (v.has(index + k) && v.at(index + k).term == es.back()->term()) es.back()->set_data(v.at(index + k).data);
  }
  return es;
}
static size_t bytes(const E& e) { return ent(e.index, e.term, e.data, (raftpb::EntryType)e.type)->ByteSizeLong(); }
static void appends() {
  RL r = some_log();
  for (int step = 0; step < 5; step++) {
    auto v = logv(r.l.get());
    if (!v.ok) return;
    u64 index, lt;
    auto es = some_append(v, index, lt);
    std::vector<E> g;
    for (auto& e : es) g.push_back(val(*e));
    u64 commit = rnd(v.last + 6);
    std::string d;
    for (auto& e : g) d += show(e);
    note(dump(v) + fmt(" | append after %llu t%llu commit %llu:", (ull)index, (ull)lt, (ull)commit) + d);
    bool match = v.inr(index) && v.term(index) == lt;
    u64 conflict = 0;
    if (match) for (auto& e : g) if (!v.has(e.index) || v.at(e.index).term != e.term) { conflict = e.index; break; }
    bool must_stop = match && conflict && conflict <= v.committed;
    std::tuple<u64, bool> res;
    try {
      if (WANT("C03") && chance(20)) {
        u64 c = r.l->FindConflict(es), want = 0;
        for (auto& e : g) if (!(v.inr(e.index) && v.term(e.index) == e.term)) { want = e.index; break; }
        REQ(c == want, "first conflict %llu, expected %llu", (ull)c, (ull)want);
      }
      res = r.l->MaybeAppend(index, lt, commit, es);
    } catch (Stopped&) {
      auto w = logv(r.l.get());
      if (WANT("C04")) for (u64 i = v.first; i <= v.committed; i++) REQ(w.has(i) && w.at(i) == v.at(i), "committed entry %llu changed", (ull)i);
      if (WANT("C03") && !must_stop) fail("stopped although nothing committed conflicts");
      return;
    }
    auto [last, ok] = res;
    auto w = logv(r.l.get());
    if (WANT("C04") || WANT("C03")) {
      for (u64 i = v.first; i <= v.committed; i++) REQ(w.has(i) && w.at(i) == v.at(i), "committed entry %llu changed", (ull)i);
      REQ(w.committed >= v.committed && w.committed <= w.last, "commit %llu -> %llu, last %llu", (ull)v.committed, (ull)w.committed, (ull)w.last);
    }
    if (WANT("C03")) {
      REQ(w.ok, "the log has a gap: %s", dump(w).c_str());
      REQ(ok == match, "accepted=%d, expected %d", ok, match);
      if (!ok) { REQ(w.ents == v.ents && w.committed == v.committed, "a refused append changed the log"); continue; }
      REQ(last == index + g.size(), "reported last %llu, expected %llu", (ull)last, (ull)(index + g.size()));
      u64 upto = conflict ? conflict - 1 : v.last;
      for (u64 i = v.first; i <= std::min(upto, v.last); i++) REQ(w.has(i) && w.at(i) == v.at(i), "entry %llu before the first conflict changed", (ull)i);
      for (auto& e : g) if (e.index >= w.first) REQ(w.has(e.index) && w.at(e.index).term == e.term && w.at(e.index).data == e.data, "entry %llu is not the given one", (ull)e.index);
      REQ(w.last == (conflict ? last : v.last), "last index %llu, expected %llu", (ull)w.last, (ull)(conflict ? last : v.last));
      u64 c = std::min(commit, last);
      REQ(w.committed == std::max(v.committed, c), "commit %llu, expected %llu", (ull)w.committed, (ull)std::max(v.committed, c));
    }
  }
}
static void log_ops() {  // C04, C12
  u64 lim = chance(50) ? ~0ull : rng(0, 40);
  RL r = some_log(lim);
  for (int step = 0; step < 12; step++) {
    auto v = logv(r.l.get());
    if (!v.ok) return;
    u64 i = rnd(v.last + 3), t = v.inr(i) && chance(70) ? v.term(i) : rnd(6);
    int op = (int)rnd(6);
    note(dump(v) + fmt(" | op %d (%llu, %llu)", op, (ull)i, (ull)t));
    if (WANT("C12")) {
      EntryPtrs ne = r.l->NextEnts();
      u64 off = std::max(v.applied + 1, v.first);
      if (!ne.empty()) {
        REQ(ne[0]->index() == off, "starts at %llu, expected %llu", (ull)ne[0]->index(), (ull)off);
        for (size_t k = 0; k < ne.size(); k++) {
          REQ(off + k <= v.committed, "entry %llu is not committed", (ull)(off + k));
          REQ(v.has(off + k) && val(*ne[k]) == v.at(off + k), "entry %llu is not the log's", (ull)(off + k));
        }
        size_t sum = 0;
        for (auto& e : ne) sum += e->ByteSizeLong();
        REQ(ne.size() == 1 || sum <= lim, "%zu bytes handed out, limit %llu", sum, (ull)lim);
      }
      bool backlog = off <= v.committed;
      REQ(!backlog || !ne.empty(), "a backlog of %llu..%llu yields nothing", (ull)off, (ull)v.committed);
      REQ(r.l->HasNextEnts() == backlog, "says backlog %d, expected %d", r.l->HasNextEnts(), backlog);
    }
    LogV w;
    try {
      if (op == 0) r.l->CommitTo(i);
      else if (op == 1) r.l->AppliedTo(i);
      else if (op == 2) r.l->MaybeCommit(i, t);
      else if (op == 3) { EntryPtrs es; u64 a = rng(v.committed, v.last); for (u64 k = 1; k <= rnd(4); k++) es.push_back(ent(a + k, v.last ? rng(1, 6) : 1, data())); if (chance(10) && v.committed >= v.first) { es.clear(); es.push_back(ent(rng(v.first, v.committed), 7)); } r.l->Append(es); }
      else if (op == 4) r.l->StableTo(i, t);
      else {
        auto s = std::make_shared<raftpb::Snapshot>();
        s->mutable_metadata()->set_index(v.committed + rng(1, 4));
        s->mutable_metadata()->set_term(rng(1, 6));
        r.l->Restore(s);
      }
    } catch (Stopped&) {
      w = logv(r.l.get());
      if (WANT("C04")) {
        REQ(w.committed >= v.committed && w.committed <= w.last && w.applied >= v.applied && w.applied <= w.committed, "after a stop: commit %llu applied %llu last %llu", (ull)w.committed, (ull)w.applied, (ull)w.last);
      }
      if (WANT("C12") && op == 1) REQ(i != 0 && (i < v.applied || i > v.committed), "applying %llu stopped", (ull)i);
      return;
    }
    if (op == 4) {  // the application stored what it reported
      // nothing to mirror: the storage only backs what was there
      auto x = logv(r.l.get());
      if (!x.ok) return;
    }
    w = logv(r.l.get());
    if (WANT("C04")) {
      REQ(w.committed >= v.committed, "commit fell from %llu to %llu", (ull)v.committed, (ull)w.committed);
      REQ(w.committed <= w.last || op == 4, "commit %llu beyond last %llu", (ull)w.committed, (ull)w.last);
      REQ(w.applied >= v.applied && w.applied <= w.committed, "applied %llu -> %llu, commit %llu", (ull)v.applied, (ull)w.applied, (ull)w.committed);
      if (op != 5 && op != 4) for (u64 k = v.first; k <= v.committed; k++) REQ(w.has(k) && w.at(k) == v.at(k), "committed entry %llu changed", (ull)k);
      if (op == 0) REQ(w.committed == std::max(v.committed, i), "commit %llu", (ull)w.committed);
      if (op == 2) REQ(w.committed == (i > v.committed && v.inr(i) && v.term(i) == t ? i : v.committed), "commit %llu", (ull)w.committed);
    }
    if (WANT("C12") && op == 1) REQ(w.applied == (i == 0 ? v.applied : i), "applied %llu after reporting %llu", (ull)w.applied, (ull)i);
    if (op == 4) {
      // bring the storage in step so that the log stays whole
      EntryPtrs es;
      for (auto& e : v.uns) if (e.index <= i) es.push_back(ent(e.index, e.term, e.data));
      if (!w.usnap && w.uoff != v.uoff) {
        if (es.empty() || es[0]->index() > v.slast + 1) return;
        r.st->Append(es);
      } else if (w.usnap && w.uoff != v.uoff) return;
    }
  }
}
static void reads() {  // C27
  RL r = some_log();
  auto v = logv(r.l.get());
  if (!v.ok) return;
  note(dump(v));
  REQ(r.l->FirstIndex() == v.first, "first %llu", (ull)r.l->FirstIndex());
  REQ(r.l->LastIndex() == v.last, "last %llu", (ull)r.l->LastIndex());
  REQ(r.l->LastTerm() == v.term(v.last), "last term %llu", (ull)r.l->LastTerm());
  for (u64 i = v.first > 2 ? v.first - 2 : 0; i <= v.last + 2; i++) {
    auto [t, s] = r.l->Term(i);
    if (v.inr(i)) REQ(s.IsOK() && t == v.term(i), "term of %llu is %llu (%s), expected %llu", (ull)i, (ull)t, s.Str(), (ull)v.term(i));
    else REQ(t == 0, "term of %llu is %llu outside the log", (ull)i, (ull)t);
    u64 q = rnd(6);
    REQ(r.l->MatchTerm(i, q) == ((v.inr(i) ? v.term(i) : 0) == q && (v.inr(i) || q == 0)) || !v.inr(i), "match of %llu with %llu", (ull)i, (ull)q);
    bool up = q > v.term(v.last) || (q == v.term(v.last) && i >= v.last);
    REQ(r.l->IsUpToData(i, q) == up, "up-to-date(%llu, t%llu)", (ull)i, (ull)q);
  }
  for (int k = 0; k < 6; k++) {
    u64 lo = rng(v.first > 1 ? v.first - 1 : 1, v.last + 1), hi = rng(lo, v.last + 1);
    u64 mx = chance(40) ? ~0ull : rnd(60);
    note(fmt("slice [%llu, %llu) limit %llu", (ull)lo, (ull)hi, (ull)mx));
    auto [es, s] = r.l->Slice(lo, hi, mx);
    if (lo < v.first) { REQ(!s.IsOK() && strstr(s.Str(), kErrCompacted) && es.empty(), "range below the log: %s", s.Str()); continue; }
    REQ(s.IsOK(), "%s", s.Str());
    REQ(es.size() <= hi - lo, "too many entries");
    size_t sum = 0;
    for (size_t j = 0; j < es.size(); j++) { REQ(val(*es[j]) == v.at(lo + j), "entry %llu is not the log's", (ull)(lo + j)); sum += es[j]->ByteSizeLong(); }
    REQ(hi == lo || !es.empty(), "nothing returned");
    REQ(es.size() <= 1 || sum <= mx, "%zu bytes, limit %llu", sum, (ull)mx);
    if (es.size() < hi - lo) REQ(sum + bytes(v.at(lo + es.size())) > mx, "cut short after %zu of %llu entries", es.size(), (ull)(hi - lo));
  }
}
static void stabilise() {  // C28
  RL r = some_log();
  for (int step = 0; step < 4; step++) {
    auto v = logv(r.l.get());
    auto& u = r.l->unstable_;
    u64 i = chance(80) ? rng(v.uoff > 1 ? v.uoff - 2 : 0, v.uoff + v.uns.size() + 1) : rnd(v.last + 3);
    u64 t = v.inr(i) && chance(70) ? v.term(i) : rnd(6);
    if (chance(65)) {
      note(dump(v) + fmt(" | stable to %llu t%llu", (ull)i, (ull)t));
      r.l->StableTo(i, t);
      auto w = logv(r.l.get());
      std::vector<E> want = v.uns;
      u64 off = v.uoff;
      if (i >= v.uoff && i < v.uoff + v.uns.size() && v.uns[i - v.uoff].term == t) { want.erase(want.begin(), want.begin() + (i - v.uoff + 1)); off = i + 1; }
      REQ(w.uns == want && w.uoff == off, "unstable from %llu with %zu entries, expected %llu with %zu", (ull)w.uoff, w.uns.size(), (ull)off, want.size());
      REQ(w.usnap == v.usnap && w.usi == v.usi, "the pending snapshot changed");
    } else {
      u64 k = v.usnap ? v.usi + rnd(3) - 1 : rnd(5);
      note(dump(v) + fmt(" | snapshot stable %llu", (ull)k));
      auto p = u.snapshot_;
      r.l->StableSnapTo(k);
      REQ(u.entries_.size() == v.uns.size() && u.offset_ == v.uoff, "entries changed");
      if (v.usnap && v.usi == k) REQ(u.snapshot_ == nullptr, "the snapshot was not released");
      else REQ(u.snapshot_ == p, "the snapshot was released");
      if (v.usnap && v.usi == k) return;
    }
  }
}

// ---- C13
static void storage() {
  MemoryStorage s(LOGGER);
  u64 off = 0, ot = 0;            // model: entries off+1.., term at off
  std::vector<E> es;
  u64 si = 0, stt = 0;            // snapshot
  std::string sdata;
  std::vector<std::pair<SnapshotPtr, std::string>> out;
  for (int step = 0; step < 14; step++) {
    u64 last = off + es.size();
    int op = (int)rnd(4);
    u64 i = chance(90) ? rng(off > 1 ? off - 2 : 0, last + 2) : rnd(4);
    note(fmt("storage off=%llu last=%llu snapshot=%llu | op %d at %llu", (ull)off, (ull)last, (ull)si, op, (ull)i));
    try {
      if (op == 0) {
        EntryPtrs add;
        u64 a = rng(off > 2 ? off - 2 : 1, last + 1);
        if (chance(5)) a = last + 2;
        for (u64 k = rnd(5); k > 0; k--) add.push_back(ent(a + add.size(), rng(1, 5), data()));
        note(fmt("append %zu from %llu", add.size(), (ull)a));
        bool gap = !add.empty() && a > last + 1;
        std::vector<E> ne;
        for (auto& e : add) ne.push_back(val(*e));
        bool stopped = false;
        Status st;
        try { st = s.Append(add); } catch (Stopped&) { stopped = true; }
        REQ(stopped == gap, "gap %d, refused %d", gap, stopped);
        if (gap) return;
        REQ(st.IsOK(), "%s", st.Str());
        if (!ne.empty() && ne.back().index > off) {
          for (auto& e : ne) if (e.index > off) { if (e.index <= off + es.size()) { es.resize(e.index - off - 1); } es.push_back(e); }
        }
      } else if (op == 1) {
        bool bad = i <= off, stop = !bad && i > last, stopped = false;
        Status st;
        try { st = s.Compact(i); } catch (Stopped&) { stopped = true; }
        REQ(stopped == stop, "compact %llu: stop %d", (ull)i, stopped);
        if (stop) return;
        REQ(st.IsOK() == !bad, "compact %llu: %s", (ull)i, st.Str());
        if (!bad) { ot = es[i - off - 1].term; es.erase(es.begin(), es.begin() + (i - off)); off = i; }
      } else if (op == 2) {
        bool old = i <= si, comp = !old && i < off, stop = !old && !comp && i > last, stopped = false;
        std::string d = data();
        raftpb::ConfState cs;
        cs.add_voters(rng(1, 9));
        SnapshotPtr p;
        Status st;
        try { auto [a, b] = s.CreateSnapshot(i, chance(50) ? &cs : nullptr, d); p = a; st = b; } catch (Stopped&) { stopped = true; }
        REQ(stopped == stop, "snapshot %llu: stop %d", (ull)i, stopped);
        if (stop) return;
        REQ(st.IsOK() == !(old || comp), "snapshot %llu: %s", (ull)i, st.Str());
        if (st.IsOK()) {
          si = i; stt = i == off ? ot : es[i - off - 1].term; sdata = d;
          REQ(p->metadata().index() == si && p->metadata().term() == stt && p->data() == d, "snapshot describes %llu t%llu, expected %llu t%llu", (ull)p->metadata().index(), (ull)p->metadata().term(), (ull)si, (ull)stt);
          out.push_back({p, p->SerializeAsString()});
        }
      } else {
        auto p = std::make_shared<raftpb::Snapshot>();
        p->mutable_metadata()->set_index(i);
        p->mutable_metadata()->set_term(rng(1, 6));
        p->set_data(data());
        auto st = s.ApplySnapshot(p);
        REQ(st.IsOK() == (i > si), "apply snapshot %llu over %llu: %s", (ull)i, (ull)si, st.Str());
        if (st.IsOK()) { si = i; stt = p->metadata().term(); sdata = p->data(); off = i; ot = stt; es.clear(); out.push_back({p, p->SerializeAsString()}); }
      }
    } catch (Stopped& x) { fail("stopped: " + x.what); }
    for (auto& o : out) REQ(o.first->SerializeAsString() == o.second, "a snapshot handed out earlier was modified");
    last = off + es.size();
    auto [fi, s1] = s.FirstIndex();
    auto [la, s2] = s.LastIndex();
    REQ(fi == off + 1 && la == last, "first %llu last %llu, expected %llu %llu", (ull)fi, (ull)la, (ull)(off + 1), (ull)last);
    auto [sp, s3] = s.SnapShot();
    REQ(sp->metadata().index() == si && sp->metadata().term() == stt && sp->data() == sdata, "snapshot %llu t%llu", (ull)sp->metadata().index(), (ull)sp->metadata().term());
    out.push_back({sp, sp->SerializeAsString()});
    for (u64 k = off > 1 ? off - 2 : 0; k <= last + 2; k++) {
      auto [t, st] = s.Term(k);
      if (k < off) REQ(!st.IsOK() && strstr(st.Str(), kErrCompacted), "term below: %s", st.Str());
      else if (k > last) REQ(!st.IsOK() && strstr(st.Str(), kErrUnavailable), "term above: %s", st.Str());
      else REQ(st.IsOK() && t == (k == off ? ot : es[k - off - 1].term), "term of %llu is %llu", (ull)k, (ull)t);
    }
    for (int k = 0; k < 3; k++) {
      u64 lo = rng(off > 1 ? off - 1 : off, last + 1), hi = rng(lo, last + 1), mx = chance(50) ? ~0ull : rnd(50);
      if (hi == lo) continue;
      auto [g, st] = s.Entries(lo, hi, mx);
      if (lo <= off) { REQ(!st.IsOK() && strstr(st.Str(), kErrCompacted), "entries below: %s", st.Str()); continue; }
      REQ(st.IsOK(), "%s", st.Str());
      size_t sum = 0;
      for (size_t j = 0; j < g.size(); j++) { REQ(lo + j < hi && val(*g[j]) == es[lo + j - off - 1], "entry %llu", (ull)(lo + j)); sum += g[j]->ByteSizeLong(); }
      REQ(!g.empty() && (g.size() == 1 || sum <= mx), "size limit");
      if (g.size() < hi - lo) REQ(sum + bytes(es[lo + g.size() - off - 1]) > mx, "cut short");
    }
  }
}

// ---- C15
static void window() {
  long cap = rng(1, chance(70) ? 6 : 300);
  Inflights f(LOGGER, cap);
  std::deque<u64> q;
  u64 next = rng(1, 5);
  for (int step = 0; step < (cap > 6 ? 700 : 60); step++) {
    int op = (int)rnd(10);
    if (op < 6) {
      note(fmt("cap %ld queued %zu: add %llu", cap, q.size(), (ull)next));
      bool stopped = false;
      try { f.Add(next); } catch (Stopped&) { stopped = true; }
      REQ(stopped == ((long)q.size() == cap), "add to %zu of %ld: refused %d", q.size(), cap, stopped);
      if (stopped) { if (chance(50)) return; } else q.push_back(next);
      next += rnd(3) + (chance(90) ? 1 : 0);
    } else if (op < 8) {
      u64 to = q.empty() ? rnd(10) : chance(80) ? rng(q.front() ? q.front() - 1 : 0, q.back() + 1) : rnd(next + 3);
      note(fmt("cap %ld queued %zu: free <= %llu", cap, q.size(), (ull)to));
      f.FreeLE(to);
      while (!q.empty() && q.front() <= to) q.pop_front();
    } else if (op < 9) {
      note(fmt("cap %ld queued %zu: free first", cap, q.size()));
      size_t before = q.size();
      f.FreeFirstOne();
      if (!q.empty()) { u64 x = q.front(); while (!q.empty() && q.front() <= x) q.pop_front(); }
    } else if (chance(10)) {
      f.Reset();
      q.clear();
    }
    REQ(f.Count() == (long)q.size() && f.Count() <= cap, "holds %ld of %ld, expected %zu", (long)f.Count(), cap, q.size());
    REQ(f.Full() == ((long)q.size() == cap), "full %d with %zu of %ld", f.Full(), q.size(), cap);
    for (size_t k = 0; k < q.size(); k++) {
      size_t at = (f.Start() + k) % f.Size();
      REQ(at < f.Buffer().size() && f.Buffer()[at] == q[k], "element %zu differs from %llu", k, (ull)q[k]);
    }
    if (chance(5)) { auto c = f.Clone(); REQ(c->Count() == f.Count() && c->Full() == f.Full(), "clone differs"); }
  }
}

// ---- C24
static void limit() {
  EntryPtrs es;
  for (u64 k = rnd(7); k > 0; k--) es.push_back(ent(rnd(300), rnd(300), std::string(rnd(chance(10) ? 300 : 20), 'y')));
  u64 mx = chance(20) ? ~0ull : chance(20) ? 0 : rnd(160);
  size_t acc = 0, want = 0;
  std::string d;
  for (auto& e : es) { acc += e->ByteSizeLong(); d += fmt(" %zu", e->ByteSizeLong()); if (want == 0 || acc <= mx) { if (want == 0 || acc <= mx) want++; } else break; }
  note("sizes" + d + fmt(" limit %llu", (ull)mx));
  EntryPtrs in = es;
  std::vector<E> vals;
  for (auto& e : es) vals.push_back(val(*e));
  auto out = Util::LimitSize(std::move(in), mx);
  REQ(out.size() == want, "%zu entries, expected %zu", out.size(), want);
  for (size_t k = 0; k < out.size(); k++) REQ(val(*out[k]) == vals[k], "entry %zu changed", k);
}

// ---- C26: one peer's progress
static void progress() {
  Progress p(LOGGER, rng(1, 6), 0, rng(1, 4), false, chance(50));
  if (chance(50)) { p.SetMatch(rnd(5)); p.SetNext(p.Match() + rng(1, 4)); }
  for (int step = 0; step < 20; step++) {
    PrV a = prv(&p);
    int op = (int)rnd(7);
    u64 i = rnd(a.next + 4), h = rnd(a.next + 4);
    note(fmt("match=%llu next=%llu state=%d pend=%llu probe=%d window=%zu/%ld | op %d (%llu, %llu)", (ull)a.match, (ull)a.next, a.state, (ull)a.pend, a.probe, a.win.size(), a.cap, op, (ull)i, (ull)h));
    bool r = false;
    if (op == 0) p.BecomeProbe();
    else if (op == 1) p.BecomeReplicate();
    else if (op == 2) p.BecomeSnapshot(std::max(i, a.match));
    else if (op == 3) r = p.MaybeUpdate(i);
    else if (op == 4) r = p.MaybeDecrTo(i, h);
    else if (op == 5) { if (a.state != kReplicate || (long)a.win.size() == a.cap) continue; p.OptimisticUpdate(a.next); p.GetInflights()->Add(a.next); }
    else { p.SetProbeSent(true); continue; }
    PrV b = prv(&p);
    REQ(b.match >= a.match, "match fell from %llu to %llu", (ull)a.match, (ull)b.match);
    REQ(b.next > b.match, "next %llu, match %llu", (ull)b.next, (ull)b.match);
    REQ((long)b.win.size() <= b.cap, "window");
    REQ(p.IsPaused() == b.paused(), "paused %d", p.IsPaused());
    if (op <= 2) REQ(!b.probe && b.win.empty() && b.pend == (op == 2 ? std::max(i, a.match) : 0) && b.match == a.match && b.state == (op == 0 ? kProbe : op == 1 ? kReplicate : kSnapshot), "state change leaves flags behind");
    if (op == 0) REQ(b.next == (a.state == kSnapshot ? std::max(a.match + 1, a.pend + 1) : a.match + 1), "next %llu after probing", (ull)b.next);
    if (op == 1) REQ(b.next == a.match + 1, "next %llu", (ull)b.next);
    if (op == 3) REQ(b.match == std::max(a.match, i) && b.next == std::max(a.next, i + 1) && r == (i > a.match) && (!r || !b.probe) && b.state == a.state, "update to %llu: match %llu next %llu", (ull)i, (ull)b.match, (ull)b.next);
    if (op == 4) {
      bool stale = a.state == kReplicate ? i <= a.match : a.next - 1 != i;
      REQ(r == !stale, "rejection of %llu counted: %d", (ull)i, r);
      if (stale) REQ(b == a, "a stale rejection changed the progress");
      else if (a.state == kReplicate) REQ(b.next == a.match + 1, "next %llu", (ull)b.next);
      else REQ(b.next <= std::max(a.match + 1, std::max<u64>(1, std::min(i, h + 1))) && b.next > a.match && !b.probe, "next %llu after rejection of %llu hint %llu", (ull)b.next, (ull)i, (ull)h);
    }
  }
}

// ---- C17: the queue of reads
static void reads_queue() {
  ReadOnly ro(LOGGER, ReadOnly::kSafe);
  struct R { std::string ctx; u64 index; std::set<u64> acks; };
  std::vector<R> q;
  for (int step = 0; step < 25; step++) {
    int op = (int)rnd(4);
    std::string ctx = fmt("c%llu", (ull)rnd(8));
    auto m = std::make_shared<Msg>();
    note(fmt("op %d %s", op, ctx.c_str()));
    size_t at = q.size();
    for (size_t k = 0; k < q.size(); k++) if (q[k].ctx == ctx) { at = k; break; }
    if (op <= 1) {
      u64 idx = rng(1, 90);
      m->add_entries()->set_data(ctx);
      ro.AddRequest(idx, m);
      if (at == q.size()) q.push_back({ctx, idx, {}});
    } else if (op == 2) {
      u64 from = rng(1, 5);
      auto& acks = ro.RecvAck(from, ctx);
      if (at < q.size()) {
        q[at].acks.insert(from);
        std::set<u64> got;
        for (auto& a : acks) if (a.second) got.insert(a.first);
        REQ(got == q[at].acks, "acks of %s", ctx.c_str());
      } else REQ(acks.empty(), "an unknown context has acks");
    } else {
      m->set_context(ctx);
      auto rs = ro.Advance(m);
      if (at == q.size()) REQ(rs.empty(), "an unknown context released reads");
      else {
        REQ(rs.size() == at + 1, "%zu reads released, expected %zu", rs.size(), at + 1);
        for (size_t k = 0; k <= at; k++) REQ(rs[k]->req->entries(0).data() == q[k].ctx && rs[k]->index == q[k].index, "read %zu is %s at %llu, expected %s at %llu", k, rs[k]->req->entries(0).data().c_str(), (ull)rs[k]->index, q[k].ctx.c_str(), (ull)q[k].index);
        q.erase(q.begin(), q.begin() + at + 1);
      }
    }
    REQ(ro.read_index_queue_.size() == q.size() && ro.pending_read_index_.size() == q.size(), "%zu queued, expected %zu", ro.read_index_queue_.size(), q.size());
    for (size_t k = 0; k < q.size(); k++) REQ(ro.read_index_queue_[k] == q[k].ctx && ro.pending_read_index_[q[k].ctx]->index == q[k].index, "queued read %zu", k);
    REQ(ro.LastPendingRequestCtx() == (q.empty() ? std::string() : q.back().ctx), "last context");
  }
}

void direct(std::vector<Search>& out) {
  static const std::map<std::string, std::vector<Search>> T = {
    {"C01", {votes}}, {"C02", {commits}}, {"C03", {appends}}, {"C04", {appends, log_ops}}, {"C08", {confchanges}}, {"C09", {confstates}},
    {"C12", {log_ops}}, {"C13", {storage}}, {"C15", {window}}, {"C17", {reads_queue}}, {"C24", {limit, storage, reads}}, {"C26", {progress}}, {"C27", {reads}}, {"C28", {stabilise}},
  };
  auto it = T.find(PROP);
  if (it != T.end()) out.insert(out.end(), it->second.begin(), it->second.end());
}
