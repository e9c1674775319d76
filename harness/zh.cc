// Conformance harness: drives the real zmdp classes and records what they do as
// ndjson events that the TLA+ trace specifications in /verif/spec consume.
// It makes no judgement itself.  Numbers are fixed point: values *1e6 (field
// "v"-like), probabilities and beliefs *1e9.
#include <assert.h>
#include <math.h>
#include <stdarg.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <signal.h>
#include <sys/resource.h>
#include <sys/stat.h>
#include <sys/wait.h>
#include <unistd.h>
#include <fstream>
#include <iostream>
#include <map>
#include <set>
#include <sstream>
#include <string>
#include <vector>

#include "embedFiles.h"
#include "zmdpMainConfig.cc"
#include "MatrixUtils.h"
#include "solverUtils.h"
#include "zmdpCommonDefs.h"
#include "zmdpCommonTime.h"
#include "zmdpConfig.h"
#include "CassandraParser.h"
#include "FastParser.h"
#include "BoundPairExec.h"
#include "CacheMDP.h"
#include "RaceTrack.h"

using namespace std;
using namespace zmdp;
using namespace sla;

static FILE *out;
static const long NEG = -2100000000L;  // stands for "minus infinity / undefined"
static long V(double x) {
  if (x != x) return 2100000001L;
  if (x <= -2000) return NEG;
  if (x >= 2000) return 2100000000L;
  return llround(x * 1e6);
}
static long P(double x) {
  if (x != x) return 2100000001L;
  if (x <= -2) return NEG;
  if (x >= 2) return 2100000000L;
  char buf[64];  // decimal rounding, as the program's own state names have it
  snprintf(buf, sizeof buf, "%.9f", x);
  long r = llround(atof(buf) * 1e9);
  return (r == 0 && x > 0) ? 1 : r;
}
static void Vs(const vector<double> &v) {
  fprintf(out, "[");
  FOR(i, v.size()) fprintf(out, "%s%ld", i ? "," : "", V(v[i]));
  fprintf(out, "]");
}
static string jesc(const string &s) {
  string r;
  FOR(i, s.size()) {
    unsigned char c = s[i];
    if (c == '"' || c == '\\') { r += '\\'; r += c; }
    else if (c < 32 || c > 126) { char b[8]; snprintf(b, 8, "\\u%04x", c); r += b; }
    else r += c;
  }
  return r;
}

static string keyOf(const state_vector &s) {
  string k;
  char b[64];
  FOR(i, s.data.size()) { snprintf(b, sizeof b, "%d:%.9f ", (int)s.data[i].index, (double)s.data[i].value); k += b; }
  return k;
}
// the states of a race track, breadth first from the initial one
static vector<state_vector> trackStates(MDP *m, size_t cap) {
  vector<state_vector> q;
  set<string> seen;
  q.push_back(m->getInitialState());
  seen.insert(keyOf(q[0]));
  for (size_t k = 0; k < q.size() && q.size() < cap; k++) {
    state_vector s = q[k];
    FOR(a, m->getNumActions()) {
      outcome_prob_vector opv;
      m->getOutcomeProbVector(opv, s, a);
      FOR(o, opv.size()) if (opv(o) > 0) {
        state_vector sp;
        m->getNextState(sp, s, a, o);
        if (seen.insert(keyOf(sp)).second) q.push_back(sp);
      }
    }
  }
  return q;
}
static bool isPomdpModel = false;
static map<string, int> trackId;  // race track state -> its number in that order
static int numS = 0;

static vector<double> denseBelief(const state_vector &s) {
  vector<double> b(numS, 0.0);
  if (isPomdpModel) {
    FOR(k, s.data.size()) b[s.data[k].index] += s.data[k].value;
  } else {
    int i = (int)floor(s(0) + 0.5);
    if (!trackId.empty()) { map<string, int>::iterator f = trackId.find(keyOf(s)); i = f == trackId.end() ? -1 : f->second; }
    if (i >= 0 && i < numS) b[i] = 1.0;
  }
  return b;
}
static void putBelief(const state_vector &s) {
  if (numS == 0) {  // raw state vector (race track)
    fprintf(out, "[");
    FOR(i, s.size()) fprintf(out, "%s%ld", i ? "," : "", (long)llround(s(i)));
    fprintf(out, "]");
    return;
  }
  vector<double> b = denseBelief(s);
  fprintf(out, "[");
  FOR(i, b.size()) fprintf(out, "%s%ld", i ? "," : "", P(b[i]));
  fprintf(out, "]");
}

struct CutRun {};

struct Spy : public BoundPairCore {
  BoundPair *real;
  Solver *solver;
  int strategy;
  bool plain;  // do not log planes/points
  long maxUpd, nUpd;
  int valsEvery;
  map<const MDPNode *, int> ids;
  vector<MDPNode *> nodes;
  vector<double> klb, kub;
  vector<int> ksolved;
  MaxPlanesLowerBound *mlb;
  SawtoothUpperBound *sub;
  map<const LBPlane *, pair<int, vector<double> > > kplanes;
  map<const BVPair *, pair<int, vector<double> > > kpts;
  vector<double> kcorner;
  int nextPid, nextBid;
  bool inUpdate;

  Spy() : real(NULL), solver(NULL), plain(false), maxUpd(1000), nUpd(0), valsEvery(0), mlb(NULL),
          sub(NULL), nextPid(1), nextBid(1), inUpdate(false) {}

  static void nodeHandler(MDPNode &cn, void *d) { ((Spy *)d)->newNode(cn); }
  void newNode(MDPNode &cn) {
    int id = nodes.size() + 1;
    if (ids.count(&cn)) fprintf(out, "{\"e\":\"Anomaly\",\"what\":\"node registered twice\"}\n");
    ids[&cn] = id;
    nodes.push_back(&cn);
    klb.push_back(cn.lbVal);
    kub.push_back(cn.ubVal);
    ksolved.push_back(0);
    fprintf(out, "{\"e\":\"Node\",\"id\":%d,\"term\":%d,\"lb\":%ld,\"ub\":%ld,\"b\":", id,
            cn.isTerminal ? 1 : 0, V(cn.lbVal), V(cn.ubVal));
    putBelief(cn.s);
    fprintf(out, "}\n");
  }
  void push() {
    real->getNodeHandlers = getNodeHandlers;
    real->getNodeHandlers.push_back(GetNodeHandlerStruct(&Spy::nodeHandler, this));
    real->numBackups = numBackups;
    real->numStatesTouched = numStatesTouched;
    real->numStatesExpanded = numStatesExpanded;
  }
  void pull() {
    numBackups = real->numBackups;
    numStatesTouched = real->numStatesTouched;
    numStatesExpanded = real->numStatesExpanded;
    root = real->root;
    lookup = real->lookup;
  }
  // changes of stored node bounds since last look; except = node to leave out
  void putChg(const MDPNode *except) {
    bool first = true;
    fprintf(out, "[");
    FOR(i, nodes.size()) {
      MDPNode *n = nodes[i];
      if (n == except) continue;
      if (n->lbVal != klb[i] || n->ubVal != kub[i]) {
        fprintf(out, "%s[%d,%ld,%ld]", first ? "" : ",", (int)i + 1, V(n->lbVal), V(n->ubVal));
        first = false;
        klb[i] = n->lbVal;
        kub[i] = n->ubVal;
      }
    }
    fprintf(out, "]");
  }
  bool anyChg() {
    FOR(i, nodes.size()) if (nodes[i]->lbVal != klb[i] || nodes[i]->ubVal != kub[i]) return true;
    return false;
  }
  void flushChg() {
    if (anyChg()) {
      fprintf(out, "{\"e\":\"Chg\",\"chg\":");
      putChg(NULL);
      fprintf(out, "}\n");
    }
  }
  void putPlanes() {
    // planes added and removed since last look
    fprintf(out, "\"np\":[");
    bool first = true;
    if (mlb && !plain) {
      map<const LBPlane *, pair<int, vector<double> > > now;
      vector<int> removed;
      FOR_EACH(pp, mlb->planes) {
        const LBPlane *p = *pp;
        vector<double> al(numS, 0.0);
        FOR(k, p->alpha.data.size()) al[p->alpha.data[k].index] = p->alpha.data[k].value;
        vector<double> key = al;
        key.push_back(p->action);
        vector<int> mask(numS, mlb->useMaxPlanesMasking ? 0 : 1);
        if (mlb->useMaxPlanesMasking) FOR(k, p->mask.data.size()) mask[p->mask.data[k].index] = 1;
        FOR(i, mask.size()) key.push_back(mask[i]);
        typeof(kplanes.begin()) it = kplanes.find(p);
        if (it != kplanes.end() && it->second.second == key) {
          now[p] = it->second;
          continue;
        }
        int id = nextPid++;
        now[p] = make_pair(id, key);
        fprintf(out, "%s{\"i\":%d,\"a\":%d,\"al\":", first ? "" : ",", id, p->action);
        Vs(al);
        fprintf(out, ",\"m\":[");
        FOR(i, mask.size()) fprintf(out, "%s%d", i ? "," : "", mask[i]);
        fprintf(out, "]}");
        first = false;
      }
      fprintf(out, "],\"rp\":[");
      first = true;
      FOR_EACH(kp, kplanes) {
        typeof(now.begin()) it = now.find(kp->first);
        if (it == now.end() || it->second.first != kp->second.first) {
          fprintf(out, "%s%d", first ? "" : ",", kp->second.first);
          first = false;
        }
      }
      fprintf(out, "]");
      kplanes = now;
    } else {
      fprintf(out, "],\"rp\":[]");
    }
    fprintf(out, ",\"nb\":[");
    first = true;
    if (sub && !plain) {
      map<const BVPair *, pair<int, vector<double> > > now;
      FOR_EACH(pp, sub->pts) {
        const BVPair *p = *pp;
        vector<double> b(numS, 0.0);
        FOR(k, p->b.data.size()) b[p->b.data[k].index] = p->b.data[k].value;
        vector<double> key = b;
        key.push_back(p->v);
        typeof(kpts.begin()) it = kpts.find(p);
        if (it != kpts.end() && it->second.second == key) {
          now[p] = it->second;
          continue;
        }
        int id = nextBid++;
        now[p] = make_pair(id, key);
        fprintf(out, "%s{\"i\":%d,\"v\":%ld,\"b\":[", first ? "" : ",", id, V(p->v));
        FOR(i, b.size()) fprintf(out, "%s%ld", i ? "," : "", P(b[i]));
        fprintf(out, "]}");
        first = false;
      }
      fprintf(out, "],\"rb\":[");
      first = true;
      FOR_EACH(kp, kpts) {
        typeof(now.begin()) it = now.find(kp->first);
        if (it == now.end() || it->second.first != kp->second.first) {
          fprintf(out, "%s%d", first ? "" : ",", kp->second.first);
          first = false;
        }
      }
      fprintf(out, "],\"cp\":");
      vector<double> c(numS);
      FOR(i, numS) c[i] = sub->cornerPts(i);
      Vs(c);
      kpts = now;
    } else {
      fprintf(out, "],\"rb\":[],\"cp\":[]");
    }
  }
  void putCounters() {
    fprintf(out, "\"nbk\":%d,\"nto\":%d,\"nex\":%d,\"lks\":%d", real->numBackups, real->numStatesTouched,
            real->numStatesExpanded, (int)real->lookup->size());
  }

  void initialize(MDP *_problem, const ZMDPConfig *_config) {
    real->initialize(_problem, _config);
    pull();
    mlb = dynamic_cast<MaxPlanesLowerBound *>((AbstractBound *)real->lowerBound);
    sub = dynamic_cast<SawtoothUpperBound *>((AbstractBound *)real->upperBound);
    fprintf(out, "{\"e\":\"Init\",");
    putPlanes();
    fprintf(out, "}\n");
  }
  MDPNode *getRootNode(void) {
    flushChg();
    push();
    MDPNode *r = real->getRootNode();
    pull();
    return r;
  }
  MDPNode *getNode(const state_vector &s) {
    flushChg();
    push();
    MDPNode *r = real->getNode(s);
    pull();
    return r;
  }
  void expand(MDPNode &cn) {
    push();
    real->expand(cn);
    pull();
  }
  void update(MDPNode &cn, int *maxUBActionP) {
    if (nUpd >= maxUpd) throw CutRun();
    nUpd++;
    flushChg();
    push();
    bool fringe = cn.isFringe();
    int act = -1;
    size_t nBefore = nodes.size();
    real->update(cn, maxUBActionP ? &act : NULL);
    if (maxUBActionP) *maxUBActionP = act;
    pull();
    int id = ids.count(&cn) ? ids[&cn] : 0;
    fprintf(out, "{\"e\":\"Upd\",\"id\":%d,\"lb\":%ld,\"ub\":%ld,\"act\":%d,\"fr\":%d,\"mu\":%d,\"new\":%d,", id,
            V(cn.lbVal), V(cn.ubVal), act, fringe ? 1 : 0, maxUBActionP ? 1 : 0,
            (int)(nodes.size() - nBefore));
    if (id) {
      klb[id - 1] = cn.lbVal;
      kub[id - 1] = cn.ubVal;
    }
    vector<double> ql, qu;
    FOR(a, cn.Q.size()) {
      ql.push_back(cn.Q[a].lbVal);
      qu.push_back(cn.Q[a].ubVal);
    }
    fprintf(out, "\"ql\":");
    if (real->maintainLowerBound) Vs(ql); else fprintf(out, "[]");
    fprintf(out, ",\"qu\":");
    if (real->maintainUpperBound) Vs(qu); else fprintf(out, "[]");
    fprintf(out, ",\"mua\":%d", BoundPairCore::getMaxUBAction(cn));
    fprintf(out, ",\"Q\":[");
    if (fringe) {
      FOR(a, cn.Q.size()) {
        fprintf(out, "%s{\"r\":%ld,\"o\":[", a ? "," : "", V(cn.Q[a].immediateReward));
        FOR(o, cn.Q[a].outcomes.size()) {
          MDPEdge *e = cn.Q[a].outcomes[o];
          int sid = 0;
          if (e) sid = ids.count(e->nextState) ? ids[e->nextState] : -1;
          fprintf(out, "%s[%ld,%d]", o ? "," : "", e ? P(e->obsProb) : 0L, sid);
        }
        fprintf(out, "]}");
      }
    }
    fprintf(out, "],\"chg\":");
    putChg(&cn);
    fprintf(out, ",");
    putPlanes();
    fprintf(out, ",");
    putCounters();
    fprintf(out, "}\n");
    if (valsEvery && nUpd % valsEvery == 0) putVals();
  }
  // the value the lookup structures give for visited nodes
  void putVals() {
    fprintf(out, "{\"e\":\"Vals\",\"vals\":[");
    int n = nodes.size(), step = n > 24 ? n / 24 + 1 : 1, ph = step > 1 ? (int)(nUpd / (valsEvery ? valsEvery : 1)) % step : 0;
    bool first = true;
    for (int i = ph; i < n; i += step) {
      ValueInterval v = real->getValueAt(nodes[i]->s);
      fprintf(out, "%s[%d,%ld,%ld]", first ? "" : ",", i + 1, V(v.l), V(v.u));
      first = false;
    }
    fprintf(out, "]}\n");
  }
  int chooseAction(const state_vector &s) const { return real->chooseAction(s); }
  ValueInterval getValueAt(const state_vector &s) const { return real->getValueAt(s); }
  ValueInterval getQValue(const state_vector &s, int a) const { return real->getQValue(s, a); }
  void writePolicy(const string &f, bool c) { real->writePolicy(f, c); }

  void putSolved() {
    fprintf(out, "\"sol\":[");
    bool first = true;
    if (strategy == S_LRTDP || strategy == S_HDP) {
      FOR(i, nodes.size()) {
        bool s = strategy == S_LRTDP ? LRTDP::getIsSolved(*nodes[i]) : HDP::getIsSolved(*nodes[i]);
        if (s) {
          fprintf(out, "%s%d", first ? "" : ",", (int)i + 1);
          first = false;
        }
      }
    }
    fprintf(out, "]");
  }
  void query(MDP *problem, const state_vector &s) {
    size_t before = nodes.size();
    size_t lk = real->lookup->size();
    int a = solver->chooseAction(s);
    ValueInterval v = solver->getValueAt(s);
    fprintf(out, "{\"e\":\"Query\",\"b\":");
    putBelief(s);
    fprintf(out, ",\"act\":%d,\"l\":%ld,\"u\":%ld,\"ql\":[", a, V(v.l), V(v.u));
    vector<double> qu;
    FOR(k, problem->getNumActions()) {
      ValueInterval q = real->getQValue(s, k);
      fprintf(out, "%s%ld", k ? "," : "", V(q.l));
      qu.push_back(q.u);
    }
    fprintf(out, "],\"qu\":");
    Vs(qu);
    // the values reported for every possible successor
    fprintf(out, ",\"sv\":[");
    FOR(k, problem->getNumActions()) {
      fprintf(out, "%s[", k ? "," : "");
      outcome_prob_vector opv;
      problem->getOutcomeProbVector(opv, s, k);
      bool first = true;
      FOR(o, opv.size()) {
        if (!(opv(o) > 1e-10)) continue;
        state_vector sp;
        problem->getNextState(sp, s, k, o);
        ValueInterval sv = solver->getValueAt(sp);
        fprintf(out, "%s{\"p\":%ld,\"l\":%ld,\"u\":%ld,\"b\":", first ? "" : ",", P(opv(o)), V(sv.l), V(sv.u));
        putBelief(sp);
        fprintf(out, "}");
        first = false;
      }
      fprintf(out, "]");
    }
    fprintf(out, "]");
    fprintf(out, ",\"grow\":%d,\"chg\":", (int)(nodes.size() - before + real->lookup->size() - lk));
    putChg(NULL);
    fprintf(out, ",");
    putPlanes();
    fprintf(out, "}\n");
  }
};

static bool keepPolicy = false;
static void loadConfig(ZMDPConfig &config, const string &args) {
  config.setString("binaryName", "zh");
  config.readFromString("<defaultConfig>", defaultConfig.data);
  config.setNoNewFieldsAllowed(true);
  vector<string> non = config.processArgs(args);
  if (non.size() >= 1) config.setString("command", non[0]);
  if (non.size() >= 2) config.setString("simulatorModel", non[1]);
  if (config.getString("policyOutputFile") == "-")
    config.setString("policyOutputFile", config.getString("command") == "solve" && keepPolicy ? "out.policy" : "none");
  zmdpDebugLevelG = config.getInt("debugLevel");
}

// posteriors of outcomes with a probability of about 5e-10: nearly all mass on
// a carrier state that cannot produce the outcome, so that the posterior
// depends on small integer weights of the other states only
static void posteriors(MDP *problem, int k) {
  for (; k > 0; k--) {
    int a = rand() % problem->getNumActions();
    vector<outcome_prob_vector> op(numS);
    FOR(s, numS) {
      state_vector e(numS);
      e.push_back(s, 1.0);
      problem->getOutcomeProbVector(op[s], e, a);
    }
    int o = rand() % op[0].size(), c = rand() % numS, i = 0;
    while (i < numS && op[c](o) > 0) c = (c + 1) % numS, i++;
    if (i == numS) continue;
    vector<int> w(numS, 0);
    double po = 0, sum = 0;
    FOR(s, numS) if (s != c && rand() % 2) w[s] = 1 + rand() % 6;
    FOR(s, numS) po += w[s] * op[s](o), sum += w[s];
    if (!(po > 0)) continue;
    double tau = 5e-10 / po;
    if (tau < 1.1e-10 || tau * sum > 1e-8) continue;
    state_vector b(numS), sp;
    FOR(s, numS)
      if (s == c) b.push_back(s, 1.0 - tau * sum);
      else if (w[s]) b.push_back(s, tau * w[s]);
    problem->getNextState(sp, b, a, o);
    fprintf(out, "{\"e\":\"Post\",\"a\":%d,\"o\":%d,\"c\":%d,\"w\":[", a, o, c);
    FOR(s, numS) fprintf(out, "%s%d", s ? "," : "", w[s]);
    fprintf(out, "],\"b\":");
    putBelief(sp);
    fprintf(out, "}\n");
  }
}

// zh run OUT PROBLEMLINEFILE seed trials maxUpd valsEvery queries args...
static int cmdRun(int argc, char **argv) {
  string probLine = argv[3];
  int seed = atoi(argv[4]), trials = atoi(argv[5]);
  long maxUpd = atol(argv[6]);
  int valsEvery = atoi(argv[7]);
  int queries = atoi(argv[8]);
  string args;
  for (int i = 9; i < argc; i++) args += string(argv[i]) + " ";
  {
    ifstream in(probLine.c_str());
    string l;
    while (getline(in, l)) fprintf(out, "%s\n", l.c_str());
    fflush(out);
  }
  ZMDPConfig config;
  loadConfig(config, args);
  srand(seed);
  SolverParams p;
  p.binaryName = "zh";
  p.setValues(config);
  p.inferMissingValues();
  SolverObjects so;
  so.solver = NULL; so.bounds = NULL; so.problem = NULL; so.sim = NULL;
  constructSolverObjects(so, p, config);
  srand(seed);
  isPomdpModel = (p.modelType == T_POMDP);
  numS = 0;
  if (p.modelType == T_POMDP || p.modelType == T_MDP) numS = ((CassandraModel *)so.problem)->numStates;
  if (p.modelType == T_CUSTOM) numS = config.getInt("customMDPNumStates");
  if (p.modelType == T_RACETRACK) {
    RaceTrack rt(args.substr(args.find_first_of(" ") + 1, args.find(".racetrack") + 10 - args.find_first_of(" ") - 1));
    vector<state_vector> q = trackStates(&rt, 400);
    FOR(i, q.size()) trackId[keyOf(q[i])] = i;
    numS = q.size();
  }
  Spy spy;
  spy.real = so.bounds;
  spy.solver = so.solver;
  spy.strategy = p.searchStrategy;
  spy.maxUpd = maxUpd;
  spy.valsEvery = valsEvery;
  ((RTDPCore *)so.solver)->setBounds(&spy);
  so.solver->planInit(so.sim->getModel(), &config);
  bool done = false;
  int t = 0;
  double tp = p.terminateRegretBound;
  try {
    while (!done && t < trials) {
      spy.flushChg();
      fprintf(out, "{\"e\":\"TB\"}\n");
      done = so.solver->planFixedTime(so.problem->getInitialState(), 0, tp);
      spy.flushChg();
      double md = 0;
      if (p.searchStrategy == S_FRTDP) md = ((FRTDP *)so.solver)->maxDepth;
      fprintf(out, "{\"e\":\"TE\",\"done\":%d,\"md\":%ld,", done ? 1 : 0, md > 1e6 ? 1000000000L : (long)llround(md * 1000));
      spy.putSolved();
      fprintf(out, ",");
      spy.putCounters();
      ValueInterval rv = so.solver->getValueAt(so.problem->getInitialState());
      fprintf(out, ",\"rl\":%ld,\"ru\":%ld}\n", V(rv.l), V(rv.u));
      t++;
      if (valsEvery) spy.putVals();
      for (int q = 0; q < queries; q++) {
        // a random action/outcome walk from the initial state: visited or not
        state_vector s = so.problem->getInitialState();
        int len = rand() % 5;
        for (int k = 0; k < len; k++) {
          int a = rand() % so.problem->getNumActions();
          outcome_prob_vector opv;
          so.problem->getOutcomeProbVector(opv, s, a);
          vector<int> c;
          FOR(o, opv.size()) if (opv(o) > 1e-9) c.push_back(o);
          if (c.empty()) break;
          state_vector sp;
          s = so.problem->getNextState(sp, s, a, c[rand() % c.size()]);
        }
        spy.query(so.problem, s);
      }
    }
    if (queries > 0 && isPomdpModel) posteriors(so.problem, 4);
    fprintf(out, "{\"e\":\"End\",\"done\":%d,\"trials\":%d}\n", done ? 1 : 0, t);
  } catch (CutRun &) {
    spy.flushChg();
    fprintf(out, "{\"e\":\"Cut\"}\n");
  }
  fflush(out);
  return 0;
}
#include "zh_more.h"

typedef int (*Cmd)(int, char **);
static Cmd findCmd(const string &c) {
  if (c == "run") return cmdRun;
  return moreCmd(c);
}

// zh batch JOBFILE : each line "OUT cmd args...", run in a forked child with limits;
// a child that dies leaves a Crash event at the end of its output.
// a child that died in the middle of writing an event leaves part of a line
static void cutPartialLine(const char *fname) {
  FILE *f = fopen(fname, "r");
  if (!f) return;
  fseek(f, 0, SEEK_END);
  long n = ftell(f), keep = 0;
  for (long i = n; i > 0 && !keep; i--) {
    fseek(f, i - 1, SEEK_SET);
    if (fgetc(f) == '\n') keep = i;
  }
  fclose(f);
  if (keep < n && truncate(fname, keep)) perror("truncate");
}

static int cmdBatch(const char *jobfile) {
  ifstream in(jobfile);
  string line;
  while (getline(in, line)) {
    if (line.empty()) continue;
    istringstream ls(line);
    string of;
    ls >> of;
    vector<string> a;
    a.push_back("zh");
    string w;
    while (ls >> w) a.push_back(w);
    // layout for commands: argv[0]=zh argv[1]=cmd argv[2]=OUT argv[3..]
    a.insert(a.begin() + 2, of);
    fflush(NULL);
    struct stat sb;
    long before = stat((of + ".log").c_str(), &sb) ? 0 : sb.st_size;
    pid_t pid = fork();
    if (pid == 0) {
      struct rlimit rl; rl.rlim_cur = rl.rlim_max = 0; setrlimit(RLIMIT_CORE, &rl);
      rl.rlim_cur = rl.rlim_max = 60; setrlimit(RLIMIT_CPU, &rl);
      alarm(120);
      freopen((of + ".log").c_str(), "a", stdout);
      dup2(1, 2);
      out = fopen(of.c_str(), "a");
      vector<char *> av;
      FOR(i, a.size()) av.push_back((char *)a[i].c_str());
      Cmd c = findCmd(a[1]);
      if (!c) _exit(97);
      int rc = c(av.size(), &av[0]);
      fflush(NULL);
      _exit(rc);
    }
    int st = 0;
    waitpid(pid, &st, 0);
    if (!WIFEXITED(st) || WEXITSTATUS(st) != 0) {
      cutPartialLine(of.c_str());
      FILE *f = fopen(of.c_str(), "a");
      long msg = stat((of + ".log").c_str(), &sb) ? 0 : sb.st_size - before;
      fprintf(f, "\n{\"e\":\"Crash\",\"sig\":%d,\"rc\":%d,\"msg\":%ld}\n", WIFSIGNALED(st) ? WTERMSIG(st) : 0,
              WIFEXITED(st) ? WEXITSTATUS(st) : -1, msg);
      fclose(f);
    }
  }
  return 0;
}

int main(int argc, char **argv) {
  if (argc >= 3 && string(argv[1]) == "batch") return cmdBatch(argv[2]);
  if (argc < 3) { fprintf(stderr, "usage\n"); return 2; }
  out = string(argv[2]) == "-" ? stdout : fopen(argv[2], "w");
  Cmd c = findCmd(argv[1]);
  if (!c) { fprintf(stderr, "unknown command\n"); return 2; }
  int rc = c(argc, argv);
  fflush(NULL);
  return rc;
}
