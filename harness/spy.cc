/* The real front end (main/zmdp.cc) run under a clock and an interrupt schedule of our choosing.
   Usage: zspy JOBFILE; each line:  OUT<TAB>DIR<TAB>SCRIPT<TAB>arg arg ...
   The front end runs in a forked child in directory DIR, its standard output in OUT.log; OUT
   receives one JSON line per thing the solver did ("off" = length of OUT.log at that moment).
   SCRIPT: comma-separated.  R<ms> time reading the model, I<ms> time computing initial bounds,
   C<n> stop after n calls, F<bytes> file size limit, X<n> die just before the n-th file is opened,
   renamed or removed after the first call; every other entry is one call to the solver:
   <ms><r|0|1><n|b|t|v>: time it takes; run the real trial or report 0/1 without one; where
   SIGINT arrives (never, before the trial, at the end of the trial, at the next bounds query). */
#include <sys/resource.h>
#include <sys/stat.h>
#include <sys/wait.h>
#include <fcntl.h>
#include <time.h>
#include <dlfcn.h>
#include "solverUtils.h"
static void spyConstruct(zmdp::SolverObjects &, zmdp::SolverParams &, const zmdp::ZMDPConfig &);
#define constructSolverObjects spyConstruct
#define main zmdp_main
#include "zmdp.cc"
#undef main
#undef constructSolverObjects

using namespace zmdp;
static long long nowUs = 0;
extern "C" {
int gettimeofday(struct timeval *tv, void *) noexcept {
  tv->tv_sec = 1000000000 + nowUs / 1000000; tv->tv_usec = nowUs % 1000000; return 0; }
time_t time(time_t *t) noexcept { time_t r = 1000000000 + nowUs / 1000000; if (t) *t = r; return r; }
int clock_gettime(clockid_t, struct timespec *ts) noexcept {
  ts->tv_sec = 1000000000 + nowUs / 1000000; ts->tv_nsec = nowUs % 1000000 * 1000; return 0; }
}
static int calls = 0, dieAt = 0, fileOps = 0;
static void fileOp() { if (dieAt && calls > 0 && ++fileOps == dieAt) raise(SIGKILL); }
#define NEXT(f) ((decltype(&f))dlsym(RTLD_NEXT, #f))
extern "C" {
int rename(const char *a, const char *b) noexcept { fileOp(); return NEXT(rename)(a, b); }
int unlink(const char *a) noexcept { fileOp(); return NEXT(unlink)(a); }
int remove(const char *a) noexcept { fileOp(); return ((int (*)(const char *))dlsym(RTLD_NEXT, "remove"))(a); }
FILE *fopen(const char *a, const char *m) { fileOp(); return NEXT(fopen)(a, m); }
FILE *fopen64(const char *a, const char *m) { fileOp(); return NEXT(fopen64)(a, m); }
}
struct Entry { long long us; char what, sig; };
static std::vector<Entry> script; static size_t pos = 0; static int cap = 200;
static long long readUs = 0, initUs = 0; static char pendingSig = 'n';
static FILE *ev = NULL;
static long off() { fflush(stdout); std::cout.flush(); return (long)lseek(1, 0, SEEK_CUR); }
static void emit(const char *e, const std::string &rest) {
  fprintf(ev, "{\"e\":\"%s\",\"off\":%ld,\"t\":%lld%s}\n", e, off(), nowUs / 1000, rest.c_str()); fflush(ev); }
static std::string S(const char *f, double v) { char b[64]; snprintf(b, sizeof b, f, v); return b; }
static std::string num(const char *k, double v) {          /* 1e6 fixed point, in words when it has none */
  if (!(v == v)) return std::string(",\"") + k + "\":2000000001";
  if (v > 2000) v = 2000; if (v < -2000) v = -2000;
  return std::string(",\"") + k + "\":" + S("%.0f", v * 1e6); }
static std::string in(const char *k, long v) { return std::string(",\"") + k + "\":" + std::to_string(v); }
static void sigint(const char *where) { emit("Sig", std::string(",\"w\":\"") + where + "\""); raise(SIGINT); }

static zmdp::BoundPair *theBounds = NULL; static long backups0 = 0;
template <class T> struct Spy : T {
  bool inCall, lastDone; Entry cur;
  Spy() : inCall(false), lastDone(false) {}
  void planInit(zmdp::MDP *p, const zmdp::ZMDPConfig *c) { emit("InitB", ""); T::planInit(p, c); emit("InitE", ""); }
  void derivedClassInit(void) { nowUs += initUs; T::derivedClassInit(); }
  bool doTrial(zmdp::MDPNode &n) {
    bool d;
    if (cur.what == 'r') d = T::doTrial(n);
    else { d = cur.what == '1'; this->numTrials++; theBounds->numBackups++; }
    nowUs += cur.us; lastDone = d;
    if (cur.sig == 't') sigint("trial");
    return d; }
  bool planFixedTime(const state_vector &s, double m, double p) {
    if (calls >= cap) { emit("Cut", ""); _exit(0); }
    if (pos < script.size()) cur = script[pos++]; else { cur.us = 1000000; cur.what = 'r'; cur.sig = 'n'; }
    calls++;
    emit("CallB", in("k", calls));
    if (cur.sig == 'b') sigint("before");
    bool r = T::planFixedTime(s, m, p);
    if (cur.sig == 'v') pendingSig = 'v';
    zmdp::ValueInterval v = T::getValueAt(s);
    zmdp::MDPNode *root = theBounds->getRootNode();
    emit("CallE", in("k", calls) + in("fin", lastDone) + in("ret", r) + in("nb", theBounds->numBackups) +
         in("ntr", this->numTrials) + in("nt", theBounds->numStatesTouched) + in("ne", theBounds->numStatesExpanded) +
         num("l", v.l) + num("u", v.u) + num("rl", root->lbVal) + num("ru", root->ubVal) + num("reg", v.u - v.l));
    return r; }
  zmdp::ValueInterval getValueAt(const state_vector &s) const {
    if (pendingSig == 'v') { pendingSig = 'n'; sigint("query"); }
    return T::getValueAt(s); }
  void finishLogging(void) { emit("LogB", ""); T::finishLogging(); emit("LogE", ""); }
};
static void spyConstruct(zmdp::SolverObjects &so, zmdp::SolverParams &p, const zmdp::ZMDPConfig &c) {
  zmdp::constructSolverObjects(so, p, c);
  nowUs += readUs;
  zmdp::RTDPCore *s = NULL;
  switch (p.searchStrategy) {
    case zmdp::S_FRTDP: s = new Spy<zmdp::FRTDP>(); break;
    case zmdp::S_HSVI: s = new Spy<zmdp::HSVI>(); break;
    case zmdp::S_RTDP: s = new Spy<zmdp::RTDP>(); break;
    case zmdp::S_LRTDP: s = new Spy<zmdp::LRTDP>(); break;
    case zmdp::S_HDP: s = new Spy<zmdp::HDP>(); break;
    default: s = new Spy<zmdp::ScriptedUpdater>(); break;
  }
  s->setBounds(so.bounds); so.solver = s; theBounds = so.bounds;
  emit("Read", in("pol", p.policyOutputFile != NULL) + in("lb", so.bounds->maintainLowerBound) + in("ub", so.bounds->maintainUpperBound));
}
static std::vector<std::string> split(const std::string &s, char c) {
  std::vector<std::string> r; std::string a;
  for (size_t i = 0; i < s.size(); i++) if (s[i] == c) { r.push_back(a); a.clear(); } else a += s[i];
  r.push_back(a); return r; }
static void child(const std::vector<std::string> &j) {
  struct rlimit cpu = {30, 30}; setrlimit(RLIMIT_CPU, &cpu);
  struct rlimit core = {0, 0}; setrlimit(RLIMIT_CORE, &core);
  ev = fopen(j[0].c_str(), "a");
  std::vector<std::string> sc = split(j[2], ',');
  long flim = 0;
  for (size_t i = 0; i < sc.size(); i++) {
    const std::string &e = sc[i]; if (e.empty()) continue;
    if (e[0] == 'R') readUs = atoll(e.c_str() + 1) * 1000;
    else if (e[0] == 'I') initUs = atoll(e.c_str() + 1) * 1000;
    else if (e[0] == 'C') cap = atoi(e.c_str() + 1);
    else if (e[0] == 'X') dieAt = atoi(e.c_str() + 1);
    else if (e[0] == 'F') flim = atol(e.c_str() + 1);
    else { Entry n; n.us = atoll(e.substr(0, e.size() - 2).c_str()) * 1000; n.what = e[e.size() - 2]; n.sig = e[e.size() - 1]; script.push_back(n); }
  }
  int o = open((j[0] + ".log").c_str(), O_WRONLY | O_CREAT | O_TRUNC, 0644), x = open((j[0] + ".err").c_str(), O_WRONLY | O_CREAT | O_TRUNC, 0644);
  dup2(o, 1); dup2(x, 2);
  if (chdir(j[1].c_str())) _exit(98);
  if (flim) { struct rlimit f = {(rlim_t)flim, (rlim_t)flim}; setrlimit(RLIMIT_FSIZE, &f); }
  std::vector<std::string> a = split(j[3], ' ');
  std::vector<char *> av; av.push_back((char *)"zmdp");
  for (size_t i = 0; i < a.size(); i++) if (!a[i].empty()) av.push_back((char *)a[i].c_str());
  av.push_back(NULL);
  zmdp_main((int)av.size() - 1, av.data());
  fflush(stdout); std::cout.flush();
  exit(0);
}
int main(int argc, char **argv) {
  std::ifstream f(argv[1]); std::string l;
  while (std::getline(f, l)) {
    std::vector<std::string> j = split(l, '\t'); if (j.size() != 4) continue;
    pid_t p = fork();
    if (!p) child(j);
    int st; waitpid(p, &st, 0);
    FILE *o = fopen(j[0].c_str(), "a"); struct stat b; memset(&b, 0, sizeof b); stat((j[0] + ".log").c_str(), &b);
    fprintf(o, "{\"e\":\"Exit\",\"off\":%ld,\"t\":0,\"rc\":%d,\"sig\":%d}\n", (long)b.st_size, WIFEXITED(st) ? WEXITSTATUS(st) : -1, WIFSIGNALED(st) ? WTERMSIG(st) : 0);
    fclose(o);
  }
  return 0;
}
