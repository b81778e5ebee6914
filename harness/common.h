// shared parts of the failing-input search
#pragma once
#include <cstdarg>
#include <cstdio>
#include <cstring>
#include <functional>
#include <map>
#include <random>
#include <set>
#include <sstream>
#include <string>
#include <vector>
#include "src/confchange/confchange.h"
#include "src/confchange/restore.h"
#include "src/log.h"
#include "src/log_unstable.h"
#include "src/quorum/joint.h"
#include "src/quorum/majority.h"
#include "src/raft.h"
#include "src/raftpb/confchange.h"
#include "src/raftpb/confstate.h"
#include "src/rawnode.h"
#include "src/storage.h"
#include "src/tracker/inflights.h"
#include "src/tracker/progress.h"
#include "src/tracker/tracker.h"
#include "src/util.h"

using namespace craft;
using u64 = uint64_t;
using Msg = raftpb::Message;
using MT = raftpb::MessageType;

extern std::mt19937_64 G;
extern std::string PROP;               // the property searched for
extern std::vector<std::string> TRACE; // what happened in this episode

inline u64 rnd(u64 n) { return n == 0 ? 0 : G() % n; }            // [0, n)
inline u64 rng(u64 a, u64 b) { return a + G() % (b - a + 1); }    // [a, b]
inline bool chance(int p) { return (int)(G() % 100) < p; }        // p percent

struct Violation { std::string what; };
struct Stopped { std::string what; };  // the code stopped the process (fatal log line)

// the code's own fatal stop becomes an exception
struct StopLogger : Logger {
  StopLogger() : Logger(LogLevel::kFatal) {}
  void Logv(LogLevel l, const char* f, va_list ap) override {
    if (l != LogLevel::kFatal) return;
    char b[600];
    vsnprintf(b, sizeof b, f, ap);
    throw Stopped{b};
  }
};
extern std::shared_ptr<Logger> LOGGER;

inline std::string fmt(const char* f, ...) {
  char b[2000];
  va_list ap;
  va_start(ap, f);
  vsnprintf(b, sizeof b, f, ap);
  va_end(ap);
  return b;
}
inline void note(const std::string& s) {
  TRACE.push_back(s);
  if (TRACE.size() > 400) TRACE.erase(TRACE.begin(), TRACE.begin() + 100);
}
inline void fail(const std::string& s) { throw Violation{s}; }
#define WANT(p) (PROP == p)
#define REQ(cond, ...) do { if (!(cond)) fail(std::string(#cond) + ": " + fmt(__VA_ARGS__)); } while (0)

inline EntryPtr ent(u64 index, u64 term, const std::string& data = "", raftpb::EntryType t = raftpb::EntryNormal) {
  auto e = std::make_shared<raftpb::Entry>();
  e->set_index(index);
  e->set_term(term);
  if (!data.empty()) e->set_data(data);
  if (t != raftpb::EntryNormal) e->set_type(t);
  return e;
}

struct E {  // an entry by value
  u64 index, term;
  int type;
  std::string data;
  bool operator==(const E& o) const { return index == o.index && term == o.term && type == o.type && data == o.data; }
};
inline E val(const raftpb::Entry& e) { return E{e.index(), e.term(), (int)e.type(), e.data()}; }
inline std::string show(const E& e) { return fmt("(%llu t%llu k%d %zuB)", (unsigned long long)e.index, (unsigned long long)e.term, e.type, e.data.size()); }

// the logical log as its parts define it, computed without the functions under test
struct LogV {
  u64 first = 0, last = 0, dterm = 0, committed = 0, applied = 0;
  std::vector<E> ents;   // first .. last
  u64 uoff = 0;
  std::vector<E> uns;
  bool usnap = false;
  u64 usi = 0, ust = 0;
  u64 sfirst = 0, slast = 0;
  bool has(u64 i) const { return i >= first && i <= last; }
  const E& at(u64 i) const { return ents[i - first]; }
  bool inr(u64 i) const { return i + 1 >= first && i <= last; }
  u64 term(u64 i) const { return i + 1 == first ? dterm : has(i) ? at(i).term : 0; }
  bool ok = true;        // parts are consistent
};
LogV logv(craft::RaftLog* l);

struct PrV {
  u64 match, next;
  int state;
  u64 pend;
  bool active, probe, learner;
  std::vector<u64> win;
  long cap;
  bool paused() const { return state == kProbe ? probe : state == kReplicate ? (long)win.size() == cap : true; }
  bool operator==(const PrV& o) const {
    return match == o.match && next == o.next && state == o.state && pend == o.pend && active == o.active && probe == o.probe && learner == o.learner && win == o.win && cap == o.cap;
  }
};
PrV prv(Progress* p);

struct RoV { u64 index; std::string req; u64 from; std::set<u64> acks; };
struct St {
  u64 id, term, vote, lead;
  int state;
  u64 xfer, pend, unc, maxunc, maxmsg;
  long ee, he, rto, eto, hto;
  bool islearner, cq, pv, dpf;
  LogV log;
  std::set<u64> in, out, learners, lnext;
  bool autoleave;
  std::map<u64, PrV> prs;
  std::map<u64, bool> votes;
  std::vector<std::string> q;
  std::map<std::string, RoV> ro;
  int opt;
  std::vector<ReadState> rs;
  std::vector<Msg> pendreads, msgs;
  bool joint() const { return !out.empty(); }
  bool member(u64 x) const { return prs.count(x) != 0; }
  bool singleton() const { return in.size() == 1 && out.empty(); }
};
St snap(Raft* r);
std::string show(const St& s);
std::string show(const Msg& m);
std::string mbytes(const Msg& m);
// what differs apart from the outbox ("" when nothing)
std::string differs(const St& a, const St& b);

// oracles
int vote_result(const std::set<u64>& in, const std::set<u64>& out, const std::map<u64, bool>& votes);
u64 committed_index(const std::set<u64>& in, const std::set<u64>& out, const std::function<bool(u64, u64&)>& acked);

using Search = void (*)();
void direct(std::vector<Search>& out);   // component searches for PROP
void node_episode();                     // one node, arbitrary messages
void cluster_episode();                  // several nodes, real messages
