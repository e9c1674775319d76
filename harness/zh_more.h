// More harness commands (included by zh.cc).
static void putPlane(const LBPlane &p, int n, bool masked) {
  fprintf(out, "{\"a\":%d,\"al\":[", p.action);
  FOR(s, n) fprintf(out, "%s%ld", s ? "," : "", V((int)s < (int)p.alpha.size() ? (double)p.alpha(s) : 0.0));
  vector<int> m(n, masked ? 0 : 1);
  FOR(k, p.mask.data.size()) if (p.mask.data[k].index < n) m[p.mask.data[k].index] = 1;
  fprintf(out, "],\"m\":[");
  FOR(s, n) fprintf(out, "%s%d", s ? "," : "", m[s]);
  fprintf(out, "]}");
}
static void putPlaneSet(const char *ev, const MaxPlanesLowerBound *lb, int n, bool masked) {
  fprintf(out, "{\"e\":\"%s\",\"pl\":[", ev);
  bool first = true;
  for (PlaneSet::const_iterator i = lb->planes.begin(); i != lb->planes.end(); i++) {
    if (!first) fprintf(out, ",");
    first = false;
    putPlane(**i, n, masked);
  }
  fprintf(out, "]}\n");
}
static void copyProblem(const string &f) {
  ifstream in(f.c_str());
  string l;
  while (getline(in, l)) fprintf(out, "%s\n", l.c_str());
}
// the beliefs an execution can meet under some actions, breadth first
static vector<state_vector> reachable(MDP *m, size_t cap) {
  vector<state_vector> q;
  set<string> seen;
  q.push_back(m->getInitialState());
  seen.insert(keyOf(q[0]));
  for (size_t k = 0; k < q.size() && q.size() < cap; k++) {
    state_vector s = q[k];
    FOR(a, m->getNumActions()) {
      outcome_prob_vector opv;
      m->getOutcomeProbVector(opv, s, a);
      FOR(o, opv.size()) if (opv(o) > 1e-9) {
        state_vector sp;
        m->getNextState(sp, s, a, o);
        if (seen.insert(keyOf(sp)).second) q.push_back(sp);
      }
    }
  }
  return q;
}
static void putExec(BoundPairExec &ex, MaxPlanesLowerBound *rd, MDP *m, size_t cap) {
  vector<state_vector> q = reachable(m, cap);
  for (size_t k = 0; k < q.size() && k < cap; k++) {
    ex.setBelief(q[k]);
    int act = ex.chooseAction();
    const LBPlane &bp = rd->getBestLBPlaneConst(q[k]);
    fprintf(out, "{\"e\":\"At\",\"act\":%d,\"pact\":%d,\"v\":%ld,\"bv\":%ld,\"b\":", act, bp.action, V(rd->getValue(q[k], NULL)),
            V(inner_prod(bp.alpha, q[k])));
    putBelief(q[k]);
    fprintf(out, "}\n");
  }
}
// zh policy OUT PROBLEM seed trials POLICYFILE cap args... : plan, write the policy, read it back, run it
static int cmdPolicy(int argc, char **argv) {
  string args;
  int seed = atoi(argv[4]), trials = atoi(argv[5]);
  string pf = argv[6];
  size_t cap = atoi(argv[7]);
  for (int i = 8; i < argc; i++) args += string(argv[i]) + " ";
  copyProblem(argv[3]); fflush(out);
  ZMDPConfig config;
  loadConfig(config, args);
  srand(seed);
  SolverParams p;
  p.binaryName = "zh";
  p.setValues(config);
  p.inferMissingValues();
  SolverObjects so;
  so.solver = NULL; so.bounds = NULL; so.problem = NULL; so.sim = NULL;
  constructSolverObjects(so, p, config);
  srand(seed);
  isPomdpModel = (p.modelType == T_POMDP);
  numS = ((CassandraModel *)so.problem)->numStates;
  so.solver->planInit(so.sim->getModel(), &config);
  bool done = false;
  for (int t = 0; t < trials && !done; t++)
    done = so.solver->planFixedTime(so.problem->getInitialState(), 0, p.terminateRegretBound);
  MaxPlanesLowerBound *lb = (MaxPlanesLowerBound *)so.bounds->lowerBound;
  bool masked = config.getBool("useMaxPlanesMasking");
  ValueInterval rv = so.solver->getValueAt(so.problem->getInitialState());
  fprintf(out, "{\"e\":\"Solved\",\"done\":%d,\"rl\":%ld,\"ru\":%ld}\n", done ? 1 : 0, V(rv.l), V(rv.u));
  so.bounds->writePolicy(pf, true);
  putPlaneSet("Mem", lb, numS, masked);
  fprintf(out, "{\"e\":\"Wrote\",\"file\":\"%s\"}\n", pf.c_str());
  BoundPairExec ex;
  ZMDPConfig c2;
  loadConfig(c2, args);
  ex.initReadFiles(p.probName, pf, c2);
  MaxPlanesLowerBound *rd = (MaxPlanesLowerBound *)((BoundPair *)ex.bounds)->lowerBound;
  putPlaneSet("Back", rd, numS, masked);
  putExec(ex, rd, ex.mdp, cap);
  fprintf(out, "{\"e\":\"Done\"}\n");
  return 0;
}
// zh readpolicy OUT PROBLEM MODEL POLICYFILE cap args... : read a policy file written by someone else
static int cmdReadPolicy(int argc, char **argv) {
  string args;
  for (int i = 7; i < argc; i++) args += string(argv[i]) + " ";
  copyProblem(argv[3]); fflush(out);
  ZMDPConfig config;
  loadConfig(config, args);
  fprintf(out, "{\"e\":\"Wrote\",\"file\":\"%s\"}\n", argv[5]);
  BoundPairExec ex;
  ex.initReadFiles(argv[4], argv[5], config);
  isPomdpModel = true;
  numS = ((CassandraModel *)ex.mdp)->numStates;
  MaxPlanesLowerBound *rd = (MaxPlanesLowerBound *)((BoundPair *)ex.bounds)->lowerBound;
  putPlaneSet("Back", rd, numS, config.getBool("useMaxPlanesMasking"));
  putExec(ex, rd, ex.mdp, atoi(argv[6]));
  fprintf(out, "{\"e\":\"Done\"}\n");
  return 0;
}
static long Q(double x) { return x != x ? 2100000001L : x > 2000 ? 2100000000L : x < -2000 ? NEG : llround(x * 1e6); }
// zh parse OUT PROBLEM MODEL pomdp|mdp full|fast [PREVIOUS] : read a model file and dump the tables the planner works with
static int cmdParse(int argc, char **argv) {
  string kind = argv[5], parser = argv[6];
  copyProblem(argv[3]);
  fflush(out);
  ZMDPConfig config;
  loadConfig(config, string("solve ") + argv[4] + " --debugLevel 0 --useFastModelParser " + (parser == "fast" ? "1" : "0"));
  bool pomdp = kind == "pomdp";
  CassandraModel *m;
  if (argc > 7) {  // another model was read before by the same process
    ZMDPConfig c2;
    loadConfig(c2, string("solve ") + argv[7] + " --debugLevel 0 --useFastModelParser 0");
    string f = argv[7];
    if (f.substr(f.size() - 3) == "mdp" && f.substr(f.size() - 5) != "pomdp") new GenericDiscreteMDP(f, &c2); else new Pomdp(f, &c2);
  }
  if (pomdp) m = new Pomdp(argv[4], &config); else m = new GenericDiscreteMDP(argv[4], &config);
  fprintf(out, "{\"e\":\"Parsed\",\"S\":%d,\"A\":%d,\"O\":%d,\"g\":%ld,\"s0\":%d,\"b0\":[", m->numStates, m->numActions,
          m->numObservations, Q(m->discount), pomdp ? -1 : (int)floor(m->initialState(0) + 0.5));
  if (pomdp) FOR(s, m->numStates) fprintf(out, "%s%ld", s ? "," : "", Q(m->initialBelief(s)));
  fprintf(out, "],\"T\":[");
  FOR(a, m->numActions) {
    fprintf(out, "%s[", a ? "," : "");
    FOR(s, m->numStates) {
      fprintf(out, "%s[", s ? "," : "");
      FOR(t, m->numStates) {
        // both copies of the table must agree; -1 marks a disagreement
        long x = Q(m->T[a](s, t)), y = Q(m->Ttr[a](t, s));
        fprintf(out, "%s%ld", t ? "," : "", x == y ? x : -1000L);
      }
      fprintf(out, "]");
    }
    fprintf(out, "]");
  }
  fprintf(out, "],\"Ob\":[");
  if (pomdp) FOR(a, m->numActions) {
    fprintf(out, "%s[", a ? "," : "");
    FOR(s, m->numStates) {
      fprintf(out, "%s[", s ? "," : "");
      FOR(o, m->numObservations) fprintf(out, "%s%ld", o ? "," : "", Q(m->O[a](s, o)));
      fprintf(out, "]");
    }
    fprintf(out, "]");
  }
  fprintf(out, "],\"R\":[");
  FOR(a, m->numActions) {
    fprintf(out, "%s[", a ? "," : "");
    FOR(s, m->numStates) {
      // what an expectation over a point belief gives (sums repeated entries, as the planner's products do)
      cvector e;
      e.resize(m->numStates);
      e.push_back(s, 1.0);
      fprintf(out, "%s%ld", s ? "," : "", Q(inner_prod_column(m->R, a, e)));
    }
    fprintf(out, "]");
  }
  fprintf(out, "],\"term\":[");
  FOR(s, m->numStates) fprintf(out, "%s%d", s ? "," : "", m->isTerminalState[s] ? 1 : 0);
  fprintf(out, "]}\n");
  return 0;
}
#include <typeinfo>
static string className(const char *mangled) {
  // Itanium-mangled nested names: the last component is the class
  string t = mangled, last = t;
  for (size_t i = 0; i < t.size();) {
    if (isdigit(t[i])) {
      size_t n = 0;
      while (i < t.size() && isdigit(t[i])) n = n * 10 + (t[i++] - '0');
      last = t.substr(i, n);
      i += n;
    } else i++;
  }
  return last;
}
// zh built OUT args... : the objects zmdp builds for these arguments
static int cmdBuilt(int argc, char **argv) {
  keepPolicy = true;
  string args;
  for (int i = 3; i < argc; i++) args += string(argv[i]) + " ";
  ZMDPConfig config;
  loadConfig(config, args);
  SolverParams p;
  p.binaryName = "zh";
  p.setValues(config);
  p.inferMissingValues();
  SolverObjects so;
  so.solver = NULL; so.bounds = NULL; so.problem = NULL; so.sim = NULL;
  constructSolverObjects(so, p, config);
  AbstractBound *lb = so.bounds->lowerBound, *ub = so.bounds->upperBound;
  fprintf(out, "{\"e\":\"Built\",\"solver\":\"%s\",\"lb\":\"%s\",\"ub\":\"%s\",\"ml\":%d,\"mu\":%d,\"ua\":%d,\"policy\":\"%s\","
          "\"regret\":%ld,\"trials\":%d,\"steps\":%d,\"horizon\":%d,\"wall\":%ld}\n",
          className(typeid(*so.solver).name()).c_str(),
          so.bounds->maintainLowerBound && lb ? className(typeid(*lb).name()).c_str() : "none",
          so.bounds->maintainUpperBound && ub ? className(typeid(*ub).name()).c_str() : "none", so.bounds->maintainLowerBound ? 1 : 0,
          so.bounds->maintainUpperBound ? 1 : 0, so.bounds->useUpperBoundRunTimeActionSelection ? 1 : 0,
          p.policyOutputFile ? p.policyOutputFile : "", V(p.terminateRegretBound), p.evaluationTrialsPerEpoch,
          p.evaluationMaxStepsPerTrial, p.maxHorizon, p.terminateWallclockSeconds > 1e15 ? -1L : lround(p.terminateWallclockSeconds * 1000));
  return 0;
}
static void putRaw(const state_vector &s) {
  fprintf(out, "[");
  FOR(i, 4) fprintf(out, "%s%ld", i ? "," : "", i < (int)s.size() ? (long)llround(s(i)) : 0L);
  fprintf(out, "]");
}
static void putCar(MDP *m, CacheMDP *cm, const state_vector &q) {
  state_vector s, t;
  if (cm) s = cm->translateState(t, q); else s = q;
  fprintf(out, "{\"e\":\"St\",\"s\":");
  putRaw(s);
  fprintf(out, ",\"term\":%d,\"r\":[", m->getIsTerminalState(q) ? 1 : 0);
  FOR(a, 9) fprintf(out, "%s%ld", a ? "," : "", V(m->getReward(q, a)));
  fprintf(out, "],\"sum\":[");
  vector<string> dist;
  FOR(a, 9) {
    outcome_prob_vector opv;
    m->getOutcomeProbVector(opv, q, a);
    map<string, pair<state_vector, double> > agg;
    double sum = 0;
    FOR(o, opv.size()) {
      sum += opv(o);
      if (opv(o) > 0) {
        state_vector sp, st;
        m->getNextState(sp, q, a, o);
        st = sp;
        if (cm) { state_vector tt; st = cm->translateState(tt, sp); }
        string key = keyOf(st);
        agg[key].first = st;
        agg[key].second += opv(o);
      }
    }
    fprintf(out, "%s%ld", a ? "," : "", P(sum));
    string d = "[";
    for (map<string, pair<state_vector, double> >::iterator i = agg.begin(); i != agg.end(); i++) {
      char b[128];
      const state_vector &v = i->second.first;
      snprintf(b, sizeof b, "%s[[%ld,%ld,%ld,%ld],%ld]", d == "[" ? "" : ",", (long)llround(v(0)), (long)llround(v(1)),
               (long)llround(v(2)), (long)llround(v(3)), P(i->second.second));
      d += b;
    }
    dist.push_back(d + "]");
  }
  fprintf(out, "],\"o\":[");
  FOR(a, 9) fprintf(out, "%s%s", a ? "," : "", dist[a].c_str());
  fprintf(out, "]}\n");
}
// zh track OUT PROBLEM FILE cap cached seed : explore a race track through its MDP interface, in a seeded order that goes deep
static int cmdTrack(int argc, char **argv) {
  copyProblem(argv[3]); fflush(out);
  int cap = atoi(argv[5]);
  MDP *raw = new RaceTrack(argv[4]), *m = raw;
  CacheMDP *cm = NULL;
  if (atoi(argv[6])) m = cm = new CacheMDP(raw);
  unsigned rnd = atoi(argv[7]);
  vector<state_vector> pend;
  set<string> seen;
  pend.push_back(m->getInitialState());
  seen.insert(keyOf(pend[0]));
  int n = 0;
  for (; !pend.empty() && n < cap; n++) {
    rnd = rnd * 1103515245u + 12345u;
    size_t pick = (rnd >> 16) % 4 ? pend.size() - 1 : (rnd >> 18) % pend.size();
    state_vector s = pend[pick];
    pend.erase(pend.begin() + pick);
    putCar(m, cm, s);
    FOR(a, 9) {
      outcome_prob_vector opv;
      m->getOutcomeProbVector(opv, s, a);
      FOR(o, opv.size()) if (opv(o) > 0) {
        state_vector sp;
        m->getNextState(sp, s, a, o);
        if (seen.insert(keyOf(sp)).second) pend.push_back(sp);
      }
    }
  }
  fprintf(out, "{\"e\":\"Done\",\"n\":%d,\"cap\":%d,\"g\":%ld}\n", n, pend.empty() ? 0 : 1, P(m->getDiscount()));
  return 0;
}
// zh trackmodel OUT FILE cap : the race track as a numbered MDP
static int cmdTrackModel(int argc, char **argv) {
  MDP *m = new RaceTrack(argv[3]);
  vector<state_vector> q = trackStates(m, atoi(argv[4]));
  map<string, int> id;
  FOR(i, q.size()) id[keyOf(q[i])] = i;
  fprintf(out, "{\"file\":\"%s\",\"n\":%d,\"r\":[", argv[3], (int)q.size() >= atoi(argv[4]) ? -1 : (int)q.size());
  FOR(i, q.size()) fprintf(out, "%s%.9f", i ? "," : "", m->getReward(q[i], 0));
  fprintf(out, "],\"T\":[");
  FOR(i, q.size()) {
    fprintf(out, "%s[", i ? "," : "");
    FOR(a, 9) {
      fprintf(out, "%s[", a ? "," : "");
      outcome_prob_vector opv;
      m->getOutcomeProbVector(opv, q[i], a);
      bool first = true;
      FOR(o, opv.size()) if (opv(o) > 0) {
        state_vector sp;
        m->getNextState(sp, q[i], a, o);
        string key = keyOf(sp);
        fprintf(out, "%s[%d,%.12f]", first ? "" : ",", id.count(key) ? id[key] : -1, (double)opv(o));
        first = false;
      }
      fprintf(out, "]");
    }
    fprintf(out, "]");
  }
  fprintf(out, "]}\n");
  return 0;
}
typedef int (*Cmd_t)(int, char **);
// everything the lookup structures say about the visited states, and the states as raw vectors
static void putFin(Spy &spy, MDP *m, bool q) {
  fprintf(out, "{\"e\":\"Fin\",\"raw\":[");
  FOR(i, spy.nodes.size()) {
    const state_vector &s = spy.nodes[i]->s;
    fprintf(out, "%s[", i ? "," : "");
    FOR(k, s.data.size()) {  // rounded as the program's own names of states are
      char buf[64];
      snprintf(buf, sizeof buf, "%.9f", (double)s.data[k].value);
      fprintf(out, "%s[%d,%ld]", k ? "," : "", (int)s.data[k].index, (long)llround(atof(buf) * (isPomdpModel ? 1e9 : 1)));
    }
    fprintf(out, "]");
  }
  fprintf(out, "],\"val\":[");
  FOR(i, spy.nodes.size()) {
    ValueInterval v = spy.real->getValueAt(spy.nodes[i]->s);
    fprintf(out, "%s[%ld,%ld]", i ? "," : "", V(v.l), V(v.u));
  }
  fprintf(out, "],\"q\":[");
  if (q) FOR(i, spy.nodes.size()) {
    fprintf(out, "%s[", i ? "," : "");
    FOR(a, m->getNumActions()) {
      ValueInterval v = spy.real->getQValue(spy.nodes[i]->s, a);
      fprintf(out, "%s[%ld,%ld]", a ? "," : "", V(v.l), V(v.u));
    }
    fprintf(out, "]");
  }
  fprintf(out, "]}\n");
}
// zh logs OUT PROBLEM seed trials maxUpd q args... : plan and write the logs (backup logs or their replay)
static int cmdLogs(int argc, char **argv) {
  string args;
  for (int i = 8; i < argc; i++) args += string(argv[i]) + " ";
  copyProblem(argv[3]);
  fflush(out);
  ZMDPConfig config;
  loadConfig(config, args);
  srand(atoi(argv[4]));
  SolverParams p;
  p.binaryName = "zh";
  p.setValues(config);
  p.inferMissingValues();
  SolverObjects so;
  so.solver = NULL; so.bounds = NULL; so.problem = NULL; so.sim = NULL;
  constructSolverObjects(so, p, config);
  isPomdpModel = (p.modelType == T_POMDP);
  numS = 0;
  if (p.modelType == T_POMDP || p.modelType == T_MDP) numS = ((CassandraModel *)so.problem)->numStates;
  Spy spy;
  spy.real = so.bounds;
  spy.solver = so.solver;
  spy.strategy = p.searchStrategy;
  spy.maxUpd = atol(argv[6]);
  spy.plain = true;
  ((RTDPCore *)so.solver)->setBounds(&spy);
  so.solver->planInit(so.sim->getModel(), &config);
  bool done = false;
  try {
    for (int t = 0; !done && t < atoi(argv[5]); t++)
      done = so.solver->planFixedTime(so.problem->getInitialState(), -1, p.terminateRegretBound);
    so.solver->finishLogging();
    putFin(spy, so.problem, atoi(argv[7]));
    fprintf(out, "{\"e\":\"End\",\"done\":%d}\n", done ? 1 : 0);
  } catch (CutRun &) {
    fprintf(out, "{\"e\":\"Cut\"}\n");
  }
  fflush(out);
  return 0;
}
static Cmd_t moreCmd(const string &c) {
  if (c == "policy") return cmdPolicy;
  if (c == "parse") return cmdParse;
  if (c == "built") return cmdBuilt;
  if (c == "track") return cmdTrack;
  if (c == "logs") return cmdLogs;
  if (c == "trackmodel") return cmdTrackModel;
  if (c == "readpolicy") return cmdReadPolicy;
  return NULL;
}
