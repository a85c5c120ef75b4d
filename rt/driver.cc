// Explores schedules of generated programs on the real library and writes the recorded traces.
//   driver --family F --seed S --secs T --max N --out FILE [--counts C]      exploration
//   driver --family F --exec X [--counts C]                                  one execution, to stdout
#include "vrt.h"
#include "vrt_int.h"
#include "monitor.h"
#include <algorithm>
#include <cmath>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <ctime>
#include <fcntl.h>
#include <fstream>
#include <map>
#include <set>
#include <sstream>
#include <signal.h>
#include <string>
#include <sys/mman.h>
#include <sys/resource.h>
#include <sys/wait.h>
#include <unistd.h>
#include <unordered_set>
#include <vector>
typedef uint64_t u64;

static Prog PR; Prog *P = &PR;
extern const char *EN[]; const char *EN[] = {
#define X(n) #n,
EVENTS(X)
#undef X
};
static int OPT_counts = 0;
extern "C" const int vrt_no_tso;

// ------------------------------------------------------------------ generator random numbers
static u64 gs;
static u64 g64() { gs ^= gs << 13; gs ^= gs >> 7; gs ^= gs << 17; return gs * 0x2545F4914F6CDD1DULL; }
static int g(int n) { return n <= 0 ? 0 : (int)((g64() >> 33) % (unsigned)n); }
static int g(int lo, int hi) { return lo + g(hi - lo + 1); }
static bool pc(int percent) { return g(100) < percent; }
template <class T> static T one(std::initializer_list<T> l) { return *(l.begin() + g((int)l.size())); }

// ------------------------------------------------------------------ instances
struct Inst { int def, kind; };
static std::vector<Inst> insts; static std::vector<int> k0; static int kcount;
static u64 ks;
static int kr(int n) { ks = ks * 6364136223846793005ULL + 1442695040888963407ULL; return (int)((ks >> 33) % (unsigned)n); }
extern "C" int inst_new(int def, int how) {
  if ((int)insts.size() >= PR.maxinst) return -1;
  static const int kinds[] = {E_Spawn, E_Call, E_Nf, E_Tg, E_Run};
  vrt_pregate(kinds[how]);      // ids are given in the order of the events
  if ((int)insts.size() >= PR.maxinst) return -1;
  int k = 0;
  for (int tries = 0;; tries++) {
    if (tries < 30 && PR.kindmode == 1 && kr(10) < 8) k = kr(2) ? PR.k1 : PR.k2;
    else k = kr(NKINDS);
    if (kind_arity(k) == 0 && k0[k] >= 0) continue;
    break;
  }
  int id = (int)insts.size(); insts.push_back({def, k});
  if (kind_arity(k) == 0) k0[k] = id;
  return id;
}
extern "C" int inst_def(int id) { return insts[id].def; }
extern "C" int inst_kind(int id) { return insts[id].kind; }
extern "C" int inst_ok(int id) { return id >= 0 && id < (int)insts.size(); }
extern "C" void inst_free0(int id) { int k = insts[id].kind; if (kind_arity(k) == 0 && k0[k] == id) k0[k] = -1; }
extern "C" int kind0_cur(int k) { return k0[k]; }

extern "C" int vrt_parse_report(const char *buf, int stopped, int nw, int *tasks, int *steals) {
  // lines "Tasks (i): N", "Steals (i): G good/B busy of T tries; leaps: G good/B busy of T tries", "Splits (i): ...", and times,
  // one per worker in any order, then the sum.  When the session has stopped nothing changes during the report.
  struct Sum { std::set<int> who; double s[6] = {0}; bool sum = false; }; std::map<std::string, Sum> R; int ok = 1;
  for (const char *l = buf; l && *l; l = strchr(l, '\n') ? strchr(l, '\n') + 1 : nullptr) {
    char name[32], w[16]; int n = 0;
    if (sscanf(l, "%31[A-Za-z ](%15[^)]):%n", name, w, &n) != 2 || n == 0) continue;
    const char *v = l + n; double a[6] = {0}; int k = 0; bool tm = false; std::string nm(name); while (!nm.empty() && nm.back() == ' ') nm.pop_back();
    if (nm == "Tasks") k = sscanf(v, "%lf", a) == 1 ? 1 : 0;
    else if (nm == "Steals") k = sscanf(v, "%lf good/%lf busy of %lf tries; leaps: %lf good/%lf busy of %lf tries", a, a + 1, a + 2, a + 3, a + 4, a + 5) == 6 ? 6 : 0;
    else if (nm == "Splits") k = sscanf(v, "%lf shrinks, %lf grows, %lf outgoing", a, a + 1, a + 2) == 3 ? 3 : 0;
    else if (nm == "Tasks per steal") continue;
    else { tm = true; k = sscanf(v, "%lf ms", a) == 1 ? 1 : 0; if (!stopped) continue; }
    if (!k) { ok = 0; continue; }
    Sum &q = R[nm];
    if (strcmp(w, "sum")) { if (!q.who.insert(atoi(w)).second || q.sum) ok = 0; for (int i = 0; i < 6; i++) q.s[i] += a[i]; }
    else {
      if (q.sum) ok = 0;
      q.sum = true;
      for (int i = 0; i < 6; i++) if (tm ? q.s[i] < 1e5 && std::fabs(a[i] - q.s[i]) > 0.01 * (nw + 1) + 1e-6 * a[i] : a[i] != q.s[i] && (stopped || (i != 2 && i != 5))) ok = 0;
      if (nm == "Tasks") *tasks = (int)a[0];
      if (nm == "Steals") *steals = (int)(a[0] + a[3]);
    }
    // a reset may fall between the try and its outcome
    if (nm == "Steals" && strcmp(w, "sum") && (stopped ? a[0] + a[1] > a[2] + 1 || a[3] + a[4] > a[5] + 1 : a[0] > a[2] + 1 || a[3] > a[5] + 1)) ok = 0;
  }
  for (auto &q : R) { if (!q.second.sum || (int)q.second.who.size() != nw || *q.second.who.begin() != 0 || *q.second.who.rbegin() != nw - 1) ok = 0; }
  if (!!R.count("Tasks") != !!(OPT_counts & 1) || !!R.count("Steals") != !!(OPT_counts & 2)) ok = 0;
  return ok;
}

// ------------------------------------------------------------------ program construction
static void op(Def &d, int o, int a = 0, int b = 0) { if (d.nops < 48) { d.ops[d.nops].op = (int16_t)o; d.ops[d.nops].a = a; d.ops[d.nops].b = b; d.nops++; } }
static int newdef() { PR.def[PR.ndef].nops = 0; return PR.ndef++; }
#define SC(i) PR.script[i]
struct W { int spawn = 30, sync = 20, call = 5, cb = 3, drop = 0, nf = 0, tg = 0, run = 0, runex = 0, yield = 0, share = 1, steal = 0, letrun = 1, insp = 0, work = 6, vars = 0, burst = 0; };
// n definitions; definition i only refers to later ones; the last nleaf ones are leaves
static int gendefs(const W &w, int n, int nleaf, int maxops, int letrun = 400) {
  int base = PR.ndef; PR.ndef += n;
  for (int i = 0; i < n; i++) {
    Def &d = PR.def[base + i]; d.nops = 0;
    bool leaf = i >= n - nleaf;
    int k = leaf ? g(0, 2) : g(1, maxops);
    int tot = w.spawn + w.sync + w.call + w.cb + w.drop + w.nf + w.tg + w.run + w.runex + w.yield + w.share + w.steal + w.letrun + w.insp + w.work + w.vars + w.burst;
    for (int j = 0; j < k; j++) {
      if (leaf) { if (pc(60)) op(d, OP_WORK, g(1, 12)); else if (w.yield && pc(50)) op(d, OP_YIELD); else if (w.letrun && pc(20)) op(d, OP_LETRUN, g(20, letrun)); continue; }
      int t = base + g(i + 1, n - 1), x = g(tot);
#define Q(f) if ((x -= w.f) < 0)
      Q(spawn) { op(d, OP_SPAWN, t); if (pc(40)) op(d, OP_SPAWN, base + g(i + 1, n - 1)); continue; }
      Q(sync) { op(d, OP_SYNC); continue; }
      Q(call) { op(d, OP_CALL, t); continue; }
      Q(cb) { op(d, OP_CALLCB, t); continue; }
      Q(drop) { op(d, OP_DROP); continue; }
      Q(nf) { op(d, OP_NF, t); continue; }
      Q(tg) { op(d, OP_TG, t); continue; }
      Q(run) { op(d, OP_RUN, t); continue; }
      Q(runex) { op(d, OP_RUNEX, t); continue; }
      Q(yield) { op(d, OP_YIELD); continue; }
      Q(share) { op(d, OP_SHAREALL); continue; }
      Q(steal) { op(d, OP_STEAL, g(2)); continue; }
      Q(letrun) { op(d, OP_LETRUN, g(20, letrun)); continue; }
      Q(insp) { if (pc(30)) op(d, OP_LETRUN, 3500); op(d, OP_INSP, g(3)); if (pc(50)) op(d, OP_INSP, g(3)); continue; }
      Q(work) { op(d, OP_WORK, g(1, 30)); continue; }
      Q(vars) { op(d, OP_VARS, t); continue; }
      Q(burst) { op(d, OP_BURST, t, g(2, 6)); continue; }
    }
  }
  return base;
}
static int NW() { return one({1, 2, 2, 2, 3, 3, 4}); }
static int DQ() { return one({100, 100, 64, 1000, 33}); }
static void simple_main(int nw, int dq, int root, int runs = 1) {
  op(SC(0), S_START, nw, dq);
  for (int i = 0; i < runs; i++) op(SC(0), pc(85) ? S_RUN : S_RUNEX, root);
  op(SC(0), S_STOP);
}
static bool hb_ok = false;    // family wants happens-before clocks

static void fam_fj() { W w; w.burst = 2; int r = gendefs(w, g(3, 7), g(1, 2), 6); simple_main(NW(), DQ(), r, one({1, 1, 1, 2, 3})); }
static void fam_hb() { fam_fj(); hb_ok = true; }
static void fam_args() { W w; w.call = 12; w.cb = 8; w.drop = 2; w.nf = 3; w.tg = 2; w.run = 5; w.runex = 4; w.letrun = 3; int r = gendefs(w, g(3, 6), 2, 7);
  PR.kindmode = pc(50) ? 0 : 1; simple_main(NW(), DQ(), r, g(1, 3)); }
static void fam_drop() { W w; w.drop = 18; w.run = 5; w.runex = 3; w.vars = 5; w.nf = pc(30) ? 3 : 0; w.burst = 3; w.letrun = 3;
  int r = gendefs(w, g(3, 6), g(1, 2), 8); simple_main(NW(), DQ(), r, g(1, 3)); }
static void ext_family(W w, int exm, int nfm, bool sus) {
  int r = gendefs(w, g(3, 6), g(1, 3), 5, 200); int nd = PR.ndef - r;
  int nx = pc(10) ? g(5, 7) : g(1, 4), nw = NW();
  op(SC(0), S_START, nw, DQ());
  if (pc(30)) op(SC(0), S_RUN, r);
  int sm = sus && pc(50);
  if (sm) op(SC(0), S_SUS);
  for (int i = 1; i <= nx; i++) {
    int k = g(1, 3);
    for (int j = 0; j < k; j++) {
      int t = r + g(nd), x = g(100);
      if (pc(15)) op(SC(i), S_LETRUN, g(20, 600));
      if (pc(6)) op(SC(i), S_EXTQ);
      if (x < exm) op(SC(i), S_RUNEX, t); else if (x < exm + nfm) op(SC(i), pc(50) ? S_NF : S_TG, t); else op(SC(i), S_RUN, t);
      if (sus && pc(15)) { op(SC(i), S_RES); if (pc(50)) op(SC(i), S_RUN, t); op(SC(i), S_SUS); }
    }
    op(SC(0), S_FORK, i);
  }
  if (pc(60)) for (int j = g(1, 2); j > 0; j--) { op(SC(0), g(100) < exm ? S_RUNEX : S_RUN, r + g(nd)); if (sus && pc(30)) { op(SC(0), S_RES); op(SC(0), S_SUS); } }
  for (int i = 1; i <= nx; i++) op(SC(0), S_JOIN, i);
  if (sus) op(SC(0), S_QUIET, 4000);
  if (sm && pc(60)) { op(SC(0), S_RES); if (pc(50)) op(SC(0), S_QUIET, 4000); }
  op(SC(0), S_STOP);
}
// All workers are in loops that only steal: what ends the loops is submitted from outside.
static void stealloops() {
  int nw = g(1, 3), wt = newdef(), st = newdef(), tg = newdef(), fl = g(1, 7), nx = nw + (pc(30) ? 1 : 0);
  if (pc(30)) op(PR.def[wt], OP_WORK, g(1, 20));
  op(PR.def[wt], OP_STEALWAIT, 0, fl); op(PR.def[st], OP_SETF, fl); op(PR.def[tg], pc(50) ? OP_TG : OP_NF, wt);
  if (pc(40)) { op(PR.def[st], OP_SPAWN, newdef()); op(PR.def[st], OP_SYNC); }
  op(SC(0), S_START, nw, DQ());
  bool fr = pc(30); if (fr) nx = 1;
  for (int i = 1; i <= nx; i++) { op(SC(i), S_RUN, fr ? tg : wt); op(SC(0), S_FORK, i); }
  if (pc(60)) op(SC(0), S_LETRUN, g(50, 3000));
  op(SC(nx + 1), S_RUN, st); op(SC(0), S_FORK, nx + 1);
  for (int i = 1; i <= nx + 1; i++) op(SC(0), S_JOIN, i);
  op(SC(0), S_STOP);
}
static void fam_ext() { if (pc(8)) { stealloops(); return; } W w; w.letrun = 4; w.run = 2; ST.eintr = pc(50); ext_family(w, 15, pc(30) ? 20 : 0, pc(40)); }
static void fam_exc() { W w; w.letrun = 8; w.runex = 2; ST.eintr = pc(40); ext_family(w, 50, pc(25) ? 20 : 0, pc(20)); }
static void fam_frames() {
  W w; w.nf = one({4, 8, 15}); w.tg = one({0, 4, 10}); w.drop = pc(30) ? 4 : 0; w.run = 2; w.yield = 4; w.steal = 3; w.letrun = 3; w.call = 3; w.cb = 1;
  if (pc(20)) { w.tg = 12; w.nf = 0; }
  int r = gendefs(w, g(4, 7), g(1, 3), 6); int nd = PR.ndef - r;
  PR.maxinst = g(10, 36);
  int nx = pc(35) ? g(1, 3) : 0, nw = one({1, 2, 2, 3, 3, 4, 5});
  op(SC(0), S_START, nw, DQ());
  if (nx && pc(60)) for (int i = 1; i <= nx; i++) op(SC(0), S_FORK, i);
  int k = g(1, 2);
  for (int j = 0; j < k; j++) op(SC(0), one({S_RUN, S_RUN, S_RUN, S_NF, S_TG}), r + g(pc(60) ? 1 : nd));
  for (int i = 1; i <= nx; i++) { int m = g(1, 2); for (int j = 0; j < m; j++) op(SC(i), one({S_NF, S_TG, S_RUN, S_NF, S_TG, S_RUNEX}), r + g(nd)); }
  bool forked = false; for (int i = 0; i < SC(0).nops; i++) if (SC(0).ops[i].op == S_FORK) forked = true;
  if (nx && !forked) for (int i = 1; i <= nx; i++) op(SC(0), S_FORK, i);
  for (int i = 1; i <= nx; i++) op(SC(0), S_JOIN, i);
  op(SC(0), S_STOP);
}
// many frames on top of each other, with work left behind at every level
static void tower() {
  int leaf = newdef(), d = g(5, 13), tg = g(0, d), base = PR.ndef;
  op(PR.def[leaf], OP_WORK, g(1, 20));
  for (int i = 0; i < d; i++) newdef();
  for (int i = 0; i < d; i++) {
    Def &f = PR.def[base + i];
    for (int j = g(0, 2); j > 0; j--) op(f, OP_SPAWN, leaf);
    if (pc(20)) op(f, OP_LETRUN, g(20, 300));
    if (i + 1 < d) op(f, i == tg ? OP_TG : pc(85) ? OP_NF : OP_RUN, base + i + 1);
    if (pc(30)) op(f, one({OP_SYNC, OP_SYNC, OP_DROP}));
  }
  PR.maxinst = 60;
  simple_main(one({1, 2, 2, 3}), DQ(), base, one({1, 1, 2}));
}
// frames on top of an interesting interrupted computation
static void fam_frames2() {
  if (pc(6)) { tower(); return; }
  int leaf = newdef(), mid = newdef(), fr = newdef(), root = newdef(), busy = newdef();
  int y = one({OP_NF, OP_TG, OP_NF});
  if (pc(70)) op(PR.def[leaf], OP_WORK, g(1, 40)); if (pc(30)) op(PR.def[leaf], OP_LETRUN, g(50, 400));
  for (int i = g(1, 4); i > 0; i--) op(PR.def[mid], OP_SPAWN, leaf);
  if (pc(50)) op(PR.def[mid], OP_LETRUN, g(50, 500)); if (pc(30)) op(PR.def[mid], OP_YIELD); if (pc(25)) op(PR.def[mid], OP_DROP);
  for (int i = g(0, 5); i > 0; i--) op(PR.def[fr], one({OP_SPAWN, OP_SPAWN, OP_SYNC, OP_LETRUN}), 0, 0);
  for (int i = 0; i < PR.def[fr].nops; i++) { Op &o = PR.def[fr].ops[i]; if (o.op == OP_SPAWN) o.a = pc(50) ? leaf : mid; if (o.op == OP_LETRUN) o.a = g(50, 500); }
  for (int i = g(0, 3); i > 0; i--) op(PR.def[busy], OP_SPAWN, pc(50) ? leaf : mid);
  if (pc(60)) op(PR.def[busy], y, fr); op(PR.def[busy], OP_LETRUN, g(50, 600)); if (pc(40)) op(PR.def[busy], OP_YIELD);
  int b = g(2, 5);
  for (int i = 0; i < b; i++) op(PR.def[root], OP_SPAWN, pc(60) ? busy : mid);
  if (pc(70)) op(PR.def[root], OP_LETRUN, g(100, 1200));
  if (pc(60)) op(PR.def[root], OP_SPAWN, mid);
  op(PR.def[root], one({OP_NF, OP_TG}), fr);
  if (pc(40)) op(PR.def[root], OP_SYNC); if (pc(30)) op(PR.def[root], one({OP_NF, OP_TG}), pc(50) ? fr : mid);
  if (pc(30)) op(PR.def[root], OP_DROP); if (pc(30)) op(PR.def[root], OP_SPAWN, busy);
  PR.maxinst = g(14, 50);
  simple_main(one({2, 3, 3, 4}), DQ(), root, one({1, 1, 2}));
}
static void fam_bar() {
  int leaf = newdef(), t = newdef(), root = newdef();
  op(PR.def[leaf], OP_WORK, g(1, 20));
  int k = g(1, 4);
  for (int i = 0; i < k; i++) { if (pc(40)) op(PR.def[t], OP_WORK, g(1, 30)); if (pc(25)) { op(PR.def[t], OP_SPAWN, leaf); if (pc(50)) op(PR.def[t], OP_SYNC); } if (pc(20)) op(PR.def[t], OP_LETRUN, g(10, 200)); op(PR.def[t], OP_BAR); }
  if (pc(40)) op(PR.def[t], OP_SPAWN, leaf);
  if (pc(30)) op(PR.def[root], OP_SPAWN, leaf);
  int m = g(1, 2); for (int i = 0; i < m; i++) { op(PR.def[root], OP_TG, t); if (pc(20)) op(PR.def[root], OP_NF, leaf); }
  int nw = one({1, 2, 2, 3, 3, 4, 4, 6});
  if (pc(70)) simple_main(nw, DQ(), root, g(1, 2));
  else { op(SC(0), S_START, nw, DQ()); for (int i = g(1, 2); i > 0; i--) op(SC(0), S_TG, t); op(SC(0), S_STOP); }
  hb_ok = nw <= 4 && pc(60);
}
// long sequences: many resumes at once, many cycles
static void susmany() {
  int leaf = newdef(), root = newdef(), n = one({20, 40, 130, 260});
  op(PR.def[leaf], OP_WORK, g(1, 20)); op(PR.def[root], OP_SPAWN, leaf);
  op(SC(0), S_START, one({1, 2, 2, 3}), DQ());
  if (pc(60)) {
    op(SC(0), S_RES, n - 1); if (pc(50)) op(SC(0), S_RUN, root);
    op(SC(0), S_SUS, n - 1); if (pc(50)) op(SC(0), S_QUIET, 3000); else if (pc(50)) op(SC(0), S_RUN, root);
    op(SC(0), S_SUS); op(SC(0), S_QUIET, 3000); if (pc(50)) op(SC(0), S_RUN, root);
    op(SC(0), S_RES);
  } else for (int i = g(6, 14); i > 0; i--) { op(SC(0), S_SUS); if (pc(30)) op(SC(0), pc(70) ? S_RUN : S_RUNEX, root); else if (pc(20)) op(SC(0), S_QUIET, 3000); op(SC(0), S_RES); }
  op(SC(0), S_TG, leaf); op(SC(0), S_STOP);
}
static void fam_sus() {
  if (pc(4)) { susmany(); return; }
  int leaf = newdef(), root = newdef();
  op(PR.def[leaf], OP_WORK, g(1, 20));
  for (int i = g(0, 3); i > 0; i--) op(PR.def[root], OP_SPAWN, leaf);
  if (pc(20)) op(PR.def[root], OP_LETRUN, g(20, 300));
  if (pc(15)) op(PR.def[root], one({OP_NF, OP_TG}), leaf);
  int nw = one({1, 2, 2, 3, 3, 4}); ST.eintr = pc(50);
  int sess = one({1, 1, 1, 2});
  int nx = pc(50) ? g(1, 3) : 0;
  for (int i = 1; i <= nx; i++) {
    for (int j = g(1, 3); j > 0; j--) {
      int x = g(100);
      if (x < 40) op(SC(i), S_RUN, root); else if (x < 50) op(SC(i), S_RUNEX, root); else if (x < 55) op(SC(i), S_NF, root);
      else { op(SC(i), S_RES); if (pc(30)) op(SC(i), S_LETRUN, g(10, 300)); if (pc(40)) op(SC(i), S_RUN, root); op(SC(i), S_SUS); }
      if (pc(20)) op(SC(i), S_LETRUN, g(10, 400));
    }
  }
  for (int s = 0; s < sess; s++) {
    op(SC(0), S_START, nw, DQ());
    if (pc(25)) op(SC(0), S_RUN, root);
    int level = 1;      // reasons to be awake held by this thread
    bool forked = false;
    int k = g(2, 9);
    for (int j = 0; j < k; j++) {
      int x = g(100);
      if (x < 35 && level > 0) { op(SC(0), S_SUS); level--; if (pc(40)) op(SC(0), S_QUIET, 3000); }
      else if (x < 60 && level < 4) { op(SC(0), S_RES); level++; if (pc(25)) op(SC(0), S_QUIET, 3000); }
      else if (x < 85) op(SC(0), pc(80) ? S_RUN : S_RUNEX, root);
      else op(SC(0), S_LETRUN, g(20, 600));
      if (nx && !forked && s == sess - 1 && pc(40)) { for (int i = 1; i <= nx; i++) op(SC(0), S_FORK, i); forked = true; }
    }
    if (nx && s == sess - 1) { if (!forked) for (int i = 1; i <= nx; i++) op(SC(0), S_FORK, i); for (int i = 1; i <= nx; i++) op(SC(0), S_JOIN, i); }
    op(SC(0), S_QUIET, 4000);
    if (pc(50)) { op(SC(0), S_RES); op(SC(0), S_TG, leaf); op(SC(0), S_QUIET, 3000); }
    op(SC(0), S_STOP);
  }
}
static void fam_life() {
  W w; w.nf = 2; w.tg = 2; int r = gendefs(w, g(2, 4), 1, 4);
  PR.maxinst = 60;
  int k = g(1, 4);
  ST.npus = g(1, 5); ST.rlim = one({0u, 8192u, 4096u, 65536u, 16384u});
  if (pc(10)) op(SC(0), S_PROBE);
  for (int i = 0; i < k; i++) {
    if (pc(25)) op(SC(0), S_SETSTACK, one({0, 256, 1024, 4096, 17000}));
    if (pc(10)) op(SC(0), S_VERB, g(2));
    int nw = one({0, 1, 2, 3, 4, 5, 8, 9});
    int dq = one({1, 3, 5, 16, 100, 1000, 200});
    if (pc(6)) { dq = 0; if (nw > 3) nw = 2; }
    int leaf = newdef(); int root = newdef(); (void)leaf;
    // sometimes fill the deque to its capacity to see that it is the one of this session
    bool full = pc(35) && dq >= 3 && dq <= 16;
    if (full) { op(PR.def[root], OP_BURST, leaf, dq); op(PR.def[root], OP_UNBURST, 0, dq); if (i == k - 1 && pc(25)) op(PR.def[root], OP_BURST, leaf, dq + 1); }
    op(SC(0), S_START, nw, dq);
    if (pc(40)) op(SC(0), S_EXTQ);
    for (int j = g(0, 2); j > 0; j--) op(SC(0), full ? S_RUN : one({S_RUN, S_RUN, S_TG, S_NF}), full ? root : dq >= 16 || dq == 0 ? r : leaf);
    if (pc(30)) { op(SC(0), S_SUS); if (pc(50)) op(SC(0), S_LETRUN, g(10, 2000)); }
    op(SC(0), S_STOP);
  }
  if (pc(12)) { PR.script[0].nops = 0; op(SC(0), S_FAULT, g(1, 2), g(0, 6)); op(SC(0), S_START, g(1, 4), 16); op(SC(0), S_RUN, r); op(SC(0), S_STOP); }
}
// a big deque: default size, many outstanding tasks are out of reach for traces, so only the setup is checked
// the owner waits for a stolen task and executes others of its thief meanwhile, which fill its deque or re-enter Lace
static void leaping(bool cap) {
  int leaf = newdef(), in = newdef(), in2 = newdef(), busy = newdef(), root = newdef();
  Def &R = PR.def[root], &B = PR.def[busy], &I = PR.def[in], &J = PR.def[in2];
  int n1 = g(0, 4), x = g(1, 5), y = g(1, 4);
  if (pc(30)) op(PR.def[leaf], OP_WORK, g(1, 8));
  if (n1) op(R, OP_BURST, leaf, n1);
  if (pc(30)) { op(R, OP_UNBURST, 0, n1); n1 = 0; }
  op(R, OP_SPAWN, busy); op(R, OP_SHAREALL); op(R, OP_LETRUN, g(200, 2500)); op(R, pc(80) ? OP_SYNC : OP_DROP);
  if (pc(40)) { op(R, OP_BURST, leaf, g(1, 4)); op(R, one({OP_RUN, OP_VARS, OP_NF, OP_TG}), in2); }
  op(B, OP_BURST, in, g(1, 4)); if (pc(80)) op(B, OP_SHAREALL); op(B, OP_LETRUN, g(500, 2800));
  if (pc(30)) op(I, OP_LETRUN, g(1, 300));
  op(I, OP_BURST, leaf, x); if (pc(30)) op(I, OP_LETRUN, g(1, 600)); if (pc(20)) op(I, OP_SHAREALL);
  op(I, one({OP_RUN, OP_RUNEX, OP_VARS, OP_VARS, OP_NF, OP_TG, OP_CALL}), in2);
  if (pc(50)) op(I, OP_SPAWN, leaf); if (pc(30)) op(I, OP_UNDROP, 0, g(1, 3));
  op(J, OP_BURST, leaf, y); if (pc(30)) op(J, OP_LETRUN, g(1, 300)); if (pc(40)) op(J, pc(50) ? OP_DROP : OP_SYNC);
  int need = n1 + 1 + x + y;
  PR.maxinst = 200;
  simple_main(one({2, 2, 2, 3, 4}), cap ? need + g(-1, 1) : pc(50) ? need + g(2, 9) : DQ(), root, g(1, 2));
}
static void fam_cap() {
  if (pc(20)) { leaping(true); return; }
  int dq = one({1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 15, 16, 17, 31, 32, 33, 40});
  int leaf = newdef(), a = newdef(), b = newdef(), root = newdef();
  if (pc(30)) op(PR.def[leaf], OP_WORK, g(1, 5));
  int nw = one({1, 1, 2, 3});
  int over = pc(50);                       // fill and overflow, or fill exactly
  int n1 = g(0, dq), n2 = dq - n1;
  // root: n1 tasks, then a nested context adds the rest
  Def &R = PR.def[root];
  if (pc(30)) { op(R, OP_BURST, leaf, g(1, dq)); op(R, OP_UNBURST, 0, 1000); }
  if (n1) op(R, OP_BURST, leaf, n1);
  if (pc(30)) op(R, OP_LETRUN, g(100, 2500));
  op(R, one({OP_CALL, OP_RUN, OP_NF, OP_TG, OP_VARS, OP_CALL}), a);
  Def &A = PR.def[a];
  int n3 = g(0, n2);
  if (n3) op(A, OP_BURST, leaf, n3);
  if (pc(30)) op(A, OP_LETRUN, g(100, 1500));
  if (n2 - n3 > 0 || over) op(A, one({OP_CALL, OP_RUN, OP_RUNEX, OP_NF, OP_VARS}), b);
  Def &B = PR.def[b];
  if (n2 - n3) op(B, OP_BURST, leaf, n2 - n3);
  if (pc(40)) op(B, one({OP_RUN, OP_NF, OP_CALL, OP_YIELD}), leaf);
  if (over) op(B, OP_SPAWN, leaf); else if (pc(50)) { op(B, pc(50) ? OP_SYNC : OP_DROP); op(B, OP_SPAWN, leaf); }
  PR.maxinst = 4 * dq + 40;
  if (pc(30)) { op(SC(0), S_START, g(1, 3), one({1, 8, 50, 0})); op(SC(0), S_STOP); }
  simple_main(nw, dq, root, g(1, 2));
}
static void fam_mix() {
  W w; w.drop = 4; w.nf = 3; w.tg = 2; w.run = 3; w.runex = 1; w.yield = 2; w.steal = 3; w.vars = 2; w.insp = 1; w.burst = 2; w.letrun = 3;
  PR.maxinst = g(20, 60); ST.eintr = pc(30);
  if (pc(50)) { int r = gendefs(w, g(3, 7), g(1, 2), 7); simple_main(NW(), DQ(), r, g(1, 3)); }
  else ext_family(w, 15, 15, pc(40));
}
static void fam_deep() {  // long leapfrog chains, many workers
  W w; w.call = 2; w.letrun = 6; w.steal = 2; int r = gendefs(w, g(5, 9), 1, 5, 150); PR.maxinst = g(30, 110); simple_main(one({2, 3, 4, 6, 8}), 200, r, 1);
}
// a worker waits for a task whose thief has nothing to share; it has to help the third worker
static void fam_help() {
  int leaf = newdef(), slow = newdef(), busy = newdef(), root = newdef();
  op(PR.def[leaf], OP_WORK, g(1, 6)); if (pc(50)) op(PR.def[slow], OP_WORK, g(1, 40)); op(PR.def[slow], OP_WAITF, 1);
  Def &B = PR.def[busy], &R = PR.def[root];
  op(B, OP_LETRUN, g(3000, 5000));
  if (pc(50)) { op(B, OP_BURST, leaf, g(1, 4)); if (pc(50)) op(B, OP_UNBURST, 0, g(1, 4)); }
  if (pc(10)) op(B, OP_SHAREALL);
  op(B, OP_BURST, leaf, g(2, 5));
  op(B, OP_SHARECHK, 0); op(B, OP_LETRUN, 60000);
  for (int j = g(1, 2); j > 0; j--) { if (pc(60)) op(B, OP_SPAWN, leaf); else op(B, OP_SYNC); op(B, OP_LETRUN, 60000); }
  op(B, OP_SHARECHK, 1); op(B, OP_SETF, 1);
  bool two = pc(30);
  op(R, OP_SPAWN, busy); op(R, OP_SPAWN, slow); if (two) op(R, OP_SPAWN, slow); if (pc(70)) op(R, OP_SHAREALL);
  op(R, OP_LETRUN, g(3000, 4000)); op(R, OP_SYNC);
  simple_main(two ? 4 : 3, 100, root, 1); PR.maxinst = 40;
}
// LACE_MAKE_ALL_SHARED: every outstanding task is available at once
static void sharenow(Def &R, int leaf) {
  op(R, OP_BURST, leaf, g(1, 6)); if (pc(20)) { op(R, OP_LETRUN, g(1, 200)); op(R, OP_UNBURST, 0, 1); op(R, OP_SPAWN, leaf); }
  op(R, OP_SHARECHK, 2); op(R, OP_SHAREALL); op(R, OP_LETRUN, 12000); op(R, OP_SHARECHK, 1);
}
static void fam_share() {
  if (pc(8)) { fam_help(); return; }
  int leaf = newdef(), slow = newdef(), root = newdef(), sub = newdef();
  op(PR.def[leaf], OP_WORK, g(1, 6));
  op(PR.def[slow], OP_LETRUN, g(2000, 6000));
  Def &R = PR.def[root];
  bool one_idle = pc(20);       // all the other workers but one are kept busy
  int nw = one_idle ? one({3, 3, 4, 5}) : one({2, 2, 3, 4});
  int pre = g(0, 6);
  if (pre) op(R, OP_BURST, leaf, pre);
  if (pc(40)) op(R, OP_LETRUN, g(50, 4000));
  if (pc(30)) op(R, OP_UNBURST, 0, g(1, 3));
  if (pc(20)) op(R, OP_UNDROP, 0, g(1, 3));
  if (pc(15)) op(R, OP_SHAREALL);
  if (pc(15) && !one_idle) op(R, one({OP_NF, OP_RUN, OP_TG}), leaf);
  op(R, OP_BURST, leaf, g(2, 7));
  int rounds = g(1, 4);
  for (int i = 0; i < rounds; i++) {
    if (pc(12)) { sharenow(R, leaf); continue; }
    op(R, OP_SHARECHK, 0);
    int h = g(1, 2);
    for (int j = 0; j < h; j++) { op(R, OP_LETRUN, 3500); if (pc(50)) op(R, OP_SPAWN, leaf); else op(R, OP_SYNC); }
    op(R, OP_LETRUN, 3500);
    op(R, OP_SHARECHK, 1);
    if (pc(30)) op(R, OP_BURST, leaf, g(1, 3));
  }
  // helping: the owner waits in a sync while the thief spawns and shares
  Def &S = PR.def[sub];
  S = R;
  if (one_idle) {
    int hold = newdef(), r2 = newdef(); Def &Q = PR.def[r2]; op(PR.def[hold], OP_WAITF, 2);
    op(Q, OP_BURST, hold, nw - 2); op(Q, OP_SHAREALL); op(Q, OP_LETRUN, 3500); op(Q, OP_CALL, sub); op(Q, OP_SETF, 2);
    simple_main(nw, 100, r2, 1);
  } else if (pc(40)) {
    int r2 = newdef(); Def &Q = PR.def[r2];
    op(Q, OP_SPAWN, sub); op(Q, OP_LETRUN, 3500); op(Q, OP_SYNC);
    simple_main(2, 100, r2, 1);
  } else if (pc(35)) {
    // the same inside a frame: the workers that were interrupted, or have finished their copy, have nothing to do
    int f = newdef(), r2 = newdef(); Def &F = PR.def[f], &Q = PR.def[r2]; bool tg = pc(60);
    if (tg) { op(F, OP_ONLYW, g(0, nw - 1)); if (pc(50)) op(F, OP_LETRUN, g(1, 4000)); }
    op(F, OP_CALL, sub);
    if (pc(60)) op(Q, OP_BURST, leaf, g(1, 5)); if (pc(50)) op(Q, OP_BURST, slow, g(1, 3)); if (pc(50)) op(Q, OP_LETRUN, g(1, 500));
    op(Q, tg ? OP_TG : OP_NF, f);
    simple_main(nw, 100, r2, 1);
  } else simple_main(nw, 100, root, 1);
  PR.maxinst = 70;
}
static void fam_solo() {
  W w; w.letrun = 3; w.drop = pc(50) ? 6 : 0; w.steal = 8; w.burst = 2; w.share = 3;
  int r = gendefs(w, g(3, 6), g(1, 2), 8);
  for (int i = 0; i < PR.ndef; i++) for (int j = 0; j < PR.def[i].nops; j++) { Op &o = PR.def[i].ops[j];
    if ((o.op == OP_SPAWN || o.op == OP_SYNC || o.op == OP_DROP || o.op == OP_STEAL) && pc(50)) o.b = 600; }
  simple_main(one({2, 2, 3, 4}), DQ(), r, 1);
}
static void fam_ident() {
  W w; w.run = 10; w.runex = 8; w.nf = 4; w.tg = 4; w.letrun = 3; int r = gendefs(w, g(3, 6), 1, 6);
  ST.npus = g(1, 6); PR.maxinst = 70;
  if (pc(30)) op(SC(0), S_PROBE);
  for (int i = g(1, 3); i > 0; i--) {
    op(SC(0), S_START, one({0, 1, 2, 3, 4, 7}), DQ()); op(SC(0), S_EXTQ);
    for (int j = g(1, 2); j > 0; j--) op(SC(0), one({S_RUN, S_RUNEX, S_TG, S_NF}), r);
    if (pc(30)) { op(SC(0), S_FORK, 1); op(SC(0), S_JOIN, 1); }
    op(SC(0), S_EXTQ); op(SC(0), S_STOP);
  }
  op(SC(1), S_EXTQ); op(SC(1), S_RUN, r); op(SC(1), S_EXTQ);
  bool f = false; for (int i = 0; i < SC(0).nops; i++) if (SC(0).ops[i].op == S_FORK) { if (f) SC(0).ops[i].op = S_EXTQ, SC(0).ops[i + 1].op = S_EXTQ; f = true; }
}
static void fam_reent() {
  if (pc(20)) { leaping(false); return; }
  int leaf = newdef(), in = newdef(), in2 = newdef(), root = newdef();
  if (pc(30)) op(PR.def[leaf], OP_WORK, g(1, 10));
  int n = pc(50) ? g(0, 14) : one({7, 8, 9, 15, 16, 17, 20, 24, 31, 32, 33, 40, 47, 48, 63, 64, 65});
  int need = n + 12;
  int dq = pc(40) ? need + g(0, 3) : one({128, 100, 127, 129, 256, 255, 1000, 100000, 90, 96});
  Def &I = PR.def[in];
  int k = g(1, 3); for (int i = 0; i < k; i++) op(I, one({OP_SPAWN, OP_SPAWN, OP_SYNC, OP_DROP, OP_LETRUN, OP_INSP}), leaf, 0);
  for (int i = 0; i < I.nops; i++) { if (I.ops[i].op == OP_LETRUN) I.ops[i].a = g(50, 600); if (I.ops[i].op == OP_INSP) I.ops[i].a = 0; }
  if (pc(40)) op(I, one({OP_RUN, OP_NF, OP_VARS, OP_RUNEX, OP_TG}), in2);
  Def &J = PR.def[in2]; op(J, OP_SPAWN, leaf); if (pc(50)) op(J, OP_SPAWN, leaf); if (pc(30)) op(J, OP_DROP);
  Def &R = PR.def[root];
  if (pc(50)) { int h = g(1, n + 4); op(R, OP_BURST, leaf, h); if (pc(40)) op(R, OP_LETRUN, g(50, 1500)); int dr = g(0, h); if (pc(60)) { op(R, OP_UNDROP, 0, dr); op(R, OP_UNBURST, 0, h - dr); } else { op(R, OP_UNBURST, 0, dr); op(R, OP_UNDROP, 0, h - dr); } }
  int first = g(0, n);
  if (first) op(R, OP_BURST, leaf, first);
  if (pc(30)) op(R, OP_LETRUN, g(50, 2000));
  if (pc(20)) { op(R, OP_SPAWN, leaf); op(R, pc(50) ? OP_DROP : OP_SYNC); }
  if (n - first) op(R, OP_BURST, leaf, n - first);
  if (pc(20)) op(R, OP_LETRUN, g(50, 2000));
  int m = g(1, 3); for (int i = 0; i < m; i++) { op(R, one({OP_RUN, OP_NF, OP_VARS, OP_RUNEX, OP_TG, OP_RUN}), in); if (pc(30)) op(R, pc(50) ? OP_SYNC : OP_DROP); if (pc(20)) op(R, OP_SPAWN, leaf); }
  PR.maxinst = 4 * n + 60;
  simple_main(one({1, 1, 2, 2, 3}), dq, root, one({1, 1, 2}));
}
static void fam_stat() {
  W w; w.drop = 3; w.nf = 2; w.tg = 2; w.run = 2; w.steal = 2; w.letrun = 4; int r = gendefs(w, g(3, 6), 1, 6); PR.maxinst = 60;
  int k = one({1, 1, 2});
  for (int i = 0; i < k; i++) {
    op(SC(0), S_START, NW(), DQ());
    if (pc(15)) op(SC(0), S_REPORT);
    if (pc(15)) op(SC(0), S_RESET);
    for (int j = g(0, 3); j > 0; j--) {
      op(SC(0), one({S_RUN, S_RUN, S_RUNEX, S_NF, S_TG}), r);
      bool sus = pc(50);
      if (sus) op(SC(0), S_SUS); else op(SC(0), S_LETRUN, 2500);
      if (pc(60)) op(SC(0), S_REPORT);
      if (pc(40)) { op(SC(0), S_RESET); if (pc(30)) op(SC(0), S_REPORT); }
      if (sus) op(SC(0), S_RES);
    }
    op(SC(0), S_STOP);
  }
}
static void fam_insp() {
  W w; w.insp = 25; w.letrun = 6; w.drop = 3; w.share = 3; int r = gendefs(w, g(2, 5), g(1, 2), 9); PR.maxinst = 40; simple_main(one({2, 2, 3, 4}), DQ(), r, g(1, 2)); hb_ok = pc(60);
}
// more workers than fit into small integers
static void fam_many() {
  int leaf = newdef(), root = newdef();
  if (pc(50)) op(PR.def[leaf], OP_WORK, g(1, 3));
  if (pc(50)) { op(PR.def[root], OP_BURST, leaf, g(1, 12)); op(PR.def[root], OP_LETRUN, 3000); }
  op(PR.def[root], one({OP_NF, OP_TG, OP_TG}), leaf);
  int nw = one({33, 64, 65, 127, 128, 129, 130, 131, 200, 255, 256, 257, 258, 300});
  PR.maxinst = 40; ST.npus = nw; ST.hard = 4000000; ST.soft = 10000;
  op(SC(0), S_START, pc(30) ? 0 : nw, one({1, 20, 100})); if (SC(0).ops[0].b == 1) PR.def[root].nops = 0, op(PR.def[root], OP_TG, leaf);
  op(SC(0), S_EXTQ); op(SC(0), one({S_RUN, S_TG, S_RUN, S_NF}), root);
  if (pc(30)) { op(SC(0), S_SUS); op(SC(0), S_QUIET, 60000); op(SC(0), S_RES); }
  op(SC(0), S_STOP);
}
// deques with many outstanding tasks, and many tasks one after the other
static void fam_big() {
  int leaf = newdef(), in2 = newdef(), in = newdef(), root = newdef();
  if (pc(30)) op(PR.def[leaf], OP_WORK, g(1, 5));
  bool huge = pc(30);
  int n = huge ? one({32766, 32767, 32768, 32769, 65534, 65535, 65536, 65537, 70000, 99999, 100000}) : one({127, 128, 200, 254, 255, 256, 257, 258, 300, 511, 512, 513, 1000, 1023, 1024, 2048, 4095, 4096, 4097, 5000, 8192, 10000, 16384});
  int dq = pc(50) ? n : pc(30) ? n + g(1, 12) : huge ? 0 : one({0, n + 40, 2 * n, 65535, 65536, 65537});
  if (dq == 0 || dq > 100000) dq = n <= 99000 ? 0 : n;
  int cap = dq ? dq : 100000, left = cap - n;
  ST.hard = 60000000; ST.soft = 4000000; PR.maxinst = 60;
  Def &J = PR.def[in2], &I = PR.def[in], &R = PR.def[root];
  int k = left >= 30 ? g(1, 3) : 0;
  for (int i = 0; i < k; i++) op(I, one({OP_SPAWN, OP_SPAWN, OP_SYNC, OP_DROP, OP_LETRUN}), leaf, 0);
  for (int i = 0; i < I.nops; i++) if (I.ops[i].op == OP_LETRUN) I.ops[i].a = g(50, 600);
  if (left >= 30) { if (pc(40)) op(I, one({OP_RUN, OP_NF, OP_VARS, OP_RUNEX, OP_TG}), in2); op(J, OP_SPAWN, leaf); if (pc(30)) op(J, OP_DROP); }
  if (pc(20)) op(R, OP_CHURN, g(1, 300), g(0, 3));
  if (pc(30) && left > 5) op(R, OP_SPAWN, leaf), left--;
  op(R, OP_BULK, n);
  if (pc(20)) op(R, OP_SHAREALL);
  if (pc(50)) op(R, OP_LETRUN, g(50, 60000));
  if (left >= 34) for (int i = g(0, 3); i > 0; i--) { op(R, one({OP_RUN, OP_NF, OP_VARS, OP_RUNEX, OP_TG, OP_RUN, OP_CALL}), in); if (pc(30)) op(R, pc(50) ? OP_SYNC : OP_DROP); if (pc(30)) op(R, OP_SPAWN, leaf); }
  else if (left <= 12) {      // fill it up, perhaps with one too many
    int t = leaf;
    bool over = pc(60);
    if (pc(40)) { t = in2; J.nops = 0; op(R, one({OP_RUN, OP_NF, OP_VARS, OP_RUNEX, OP_CALL}), in2); }
    Def &F = t == in2 ? J : R;
    if (left) op(F, OP_BURST, leaf, left);
    if (pc(30)) op(F, one({OP_NF, OP_RUN, OP_TG, OP_YIELD}), leaf);
    if (pc(30) && left) { op(F, pc(50) ? OP_SYNC : OP_DROP); op(F, OP_SPAWN, leaf); }
    if (over) op(F, OP_SPAWN, leaf);
  }
  op(R, OP_UNBULK, one({0, 0, 1, 2, 3}));
  if (pc(20)) op(R, OP_CHURN, huge ? g(1, 70000) : g(1, 600), g(0, 3));
  if (pc(30)) { op(R, OP_BULK, g(1, 40)); if (cap >= 100) op(R, one({OP_RUN, OP_NF, OP_VARS, OP_TG}), in); op(R, OP_UNBULK, g(0, 3)); }
  int top = root;
  if (pc(25) && cap > 40) { top = newdef(); op(PR.def[top], OP_SPAWN, root); if (pc(50)) op(PR.def[top], OP_LETRUN, 3000); }
  simple_main(one({1, 2, 2, 3}), dq, top, one({1, 1, 2}));
}
struct Fam { const char *n; void (*f)(); } FAMS[] = { {"fj", fam_fj}, {"hb", fam_hb}, {"args", fam_args}, {"drop", fam_drop}, {"ext", fam_ext}, {"exc", fam_exc},
  {"frames", fam_frames}, {"frames2", fam_frames2}, {"bar", fam_bar}, {"sus", fam_sus}, {"life", fam_life}, {"cap", fam_cap}, {"mix", fam_mix}, {"deep", fam_deep}, {"share", fam_share}, {"help", fam_help},
  {"solo", fam_solo}, {"ident", fam_ident}, {"reent", fam_reent}, {"stat", fam_stat}, {"insp", fam_insp}, {"many", fam_many}, {"big", fam_big} };

// ------------------------------------------------------------------ guides: behaviours of spec/MCLace.tla
// one per line: maxinst ndef {nops {op a}} nscripts {nops {op a}} nev {kind thread a}
static std::vector<std::string> guides; static std::vector<GEv> GE;
static int opcode(const std::string &s) {
  static const struct { const char *n; int c; } M[] = { {"SPAWN", OP_SPAWN}, {"SYNC", OP_SYNC}, {"DROP", OP_DROP}, {"CALL", OP_CALL}, {"CALLCB", OP_CALLCB}, {"NF", OP_NF}, {"TG", OP_TG}, {"RUN", OP_RUN}, {"RUNEX", OP_RUNEX},
    {"YIELD", OP_YIELD}, {"STEAL", OP_STEAL}, {"INSP", OP_INSP}, {"BAR", OP_BAR}, {"xRUN", S_RUN}, {"xRUNEX", S_RUNEX}, {"xNF", S_NF}, {"xTG", S_TG}, {"xSUS", S_SUS}, {"xRES", S_RES}, {"xSTART", S_START}, {"xSTOP", S_STOP} };
  for (auto &m : M) if (s == m.n) return m.c;
  fprintf(stderr, "unknown operation %s\n", s.c_str()); exit(2);
}
static size_t gindex(u64 x) { return (size_t)((x * 0x9E3779B97F4A7C15ULL) >> 33) % guides.size(); }
static void fam_guide(u64 x) {
  GE.clear(); if (guides.empty()) { fprintf(stderr, "no guides\n"); exit(2); }
  std::istringstream in(guides[gindex(x)]); int nd, ns, k; std::string o; int a; int dq = 0;
  int share = one({0, 1, 1, 2});      // how often tasks are shared at once
  in >> PR.maxinst >> dq >> nd; PR.ndef = nd;
  for (int i = 0; i < nd; i++) { in >> k; while (k--) { in >> o >> a; int c = opcode(o); bool ref = c == OP_SPAWN || c == OP_CALL || c == OP_CALLCB || c == OP_NF || c == OP_TG || c == OP_RUN || c == OP_RUNEX; op(PR.def[i], c, ref ? a - 1 : c == OP_INSP ? a : 0); if (c == OP_SPAWN && (share == 1 || (share == 2 && pc(50)))) op(PR.def[i], OP_SHAREALL); } }
  std::vector<std::vector<std::pair<int, int>>> sc; in >> ns; sc.resize(ns);
  for (int i = 0; i < ns; i++) { in >> k; while (k--) { in >> o >> a; sc[i].push_back({opcode("x" + o), a}); } }
  int starts = 0, seen = 0; for (auto &p : sc[0]) starts += p.first == S_START;
  for (int i = 0; i < ns; i++) for (auto &p : sc[i]) {
    if (p.first == S_STOP && seen == starts) for (int j = 1; j < ns; j++) op(SC(0), S_JOIN, j);
    if (p.first == S_START) op(SC(i), S_START, p.second, dq); else op(SC(i), p.first, p.second - 1);
    if (p.first == S_START && ++seen == starts) for (int j = 1; j < ns; j++) op(SC(0), S_FORK, j);
  }
  std::vector<int> own(1, -1); in >> k; while (k--) { std::string e; int th; in >> e >> th >> a; int c = 0; for (int i = 1; i < E_MAX; i++) if (e == EN[i]) c = i; bool id = c == E_Spawn || c == E_Start || c == E_End || c == E_Sync || c == E_SyncRet || c == E_Drop || c == E_DropRet || c == E_Call || c == E_CallRet || c == E_Run || c == E_RunRet || c == E_Nf || c == E_NfRet || c == E_Tg || c == E_TgRet || c == E_Insp;
    if (c == E_StopMid) break;      // what follows is up to one thread
    if (a >= (int)own.size()) own.resize(a + 1, -1);
    if (c == E_Spawn || c == E_Run || c == E_Nf || c == E_Tg) own[a] = th;
    GE.push_back({c, th, id ? a : -1, c == E_Start ? own[a] : -1}); if (c == E_Insp) GE.push_back(GE.back()); }
}
static void setup(const char *fam, u64 x) {
  vrt_guide(nullptr, 0);
  gs = x * 0x9E3779B97F4A7C15ULL ^ 0xABCDEF1234567ULL; for (int i = 0; i < 6; i++) g64();
  memset(&PR, 0, sizeof PR); PR.kindmode = 1; PR.maxinst = 80;
  for (int i = 0; i < MAXDEF; i++) PR.def[i].nops = 0;
  ST = Strat(); ST.npus = 3; ST.rlim = 8192; ST.soft = 40000; ST.hard = 400000; ST.sbage = 400; ST.pc = 0.3; ST.reuse = true;
  hb_ok = false;
  PR.k1 = g(NKINDS); PR.k2 = g(NKINDS); if (kind_arity(PR.k1) == 0 && kind_arity(PR.k2) == 0) PR.k2 = g(2, NKINDS / 2 - 1);
  // "family@hb": with happens-before clocks
  std::string fn = fam; bool hb = false; if (fn.size() > 3 && fn.substr(fn.size() - 3) == "@hb") { hb = true; fn.resize(fn.size() - 3); }
  for (auto &f : FAMS) if (fn == f.n) f.f();
  if (fn == "guide") { fam_guide(x); hb_ok = pc(25); vrt_guide(GE.data(), (int)GE.size()); }
  if (hb) { hb_ok = true; for (int i = 0; i < SC(0).nops; i++) if (SC(0).ops[i].op == S_START && (SC(0).ops[i].a > 4 || SC(0).ops[i].a == 0)) SC(0).ops[i].a = 4; }
  int s = g(100); if (!strcmp(fam, "many")) s = 99;
  ST.kind = s < 45 ? K_RW : s < 75 ? K_PCT : s < 97 ? K_FREEZE : K_RR;
  ST.p = one({0.5, 0.3, 0.15, 0.08, 0.04, 0.02, 0.01}); ST.pctd = g(1, 6); ST.pctk = one({400u, 1500u, 5000u, 15000u}); ST.flen = one({40u, 150u, 500u, 1500u});
  if (ST.kind == K_FREEZE || pc(20)) ST.wfreeze = one({0.0, 0.02, 0.1, 0.3});
  ST.hb = hb_ok; ST.tso = !ST.hb && pc(45) && !vrt_no_tso;
  ST.weak = pc(12) ? one({0.02, 0.1, 0.3}) : 0;
  ST.pc = one({0.05, 0.2, 0.5}); ST.sbage = one({50u, 200u, 1000u});
  ks = g64(); insts.clear(); k0.assign(NKINDS, -1);
}

// ------------------------------------------------------------------ running
static int errfd;
static int run_one(const char *fam, u64 x) {
  setup(fam, x);
  SH->nev = 0; SH->over = 0; SH->gpos = SH->gtotal = 0; SH->steps = 0; SH->switches = 0;
  if (ftruncate(errfd, 0)) {} lseek(errfd, 0, SEEK_SET);
  fflush(stdout);
  pid_t p = fork();
  if (p == 0) {
    struct rlimit rl = {0, 0}; setrlimit(RLIMIT_CORE, &rl);
    dup2(errfd, 2); int dn = open("/dev/null", O_WRONLY); dup2(dn, 1);
    vrt_run(x, ext_main);
    _exit(9);
  }
  int st; waitpid(p, &st, 0);
  if (WIFSIGNALED(st) || (WIFEXITED(st) && WEXITSTATUS(st))) {
    int k = WIFSIGNALED(st) ? (WTERMSIG(st) == SIGVTALRM ? E_Hang : E_Crash) : E_Crash;
    if (SH->nev >= SHM_EV) SH->nev = SHM_EV - 1;
    Ev *e = &SH->ev[SH->nev++]; memset(e, 0, sizeof *e); e->k = (uint8_t)k; e->th = 999; e->a = WIFSIGNALED(st) ? WTERMSIG(st) : -WEXITSTATUS(st);
  }
  return 0;
}
static void emit(FILE *f, const char *fam, u64 x, int sus) {
  fprintf(f, "{\"id\":\"%s:%llu\",\"sus\":%d,\"env\":{\"npus\":%d,\"rlim\":%u,\"counts\":%d},\"ev\":[", fam, (unsigned long long)x, sus, ST.npus, ST.rlim, OPT_counts);
  for (int i = 0; i < SH->nev; i++) {
    Ev *e = &SH->ev[i];
    fprintf(f, "%s[\"%s\",%d,%d,%d,%d,%d", i ? "," : "", EN[e->k], e->th, e->a, e->b, e->c, e->d);
    if (e->nvc) { fprintf(f, ",["); for (int j = 0; j < VC_N; j++) fprintf(f, "%s%d", j ? "," : "", e->vc[j]); fprintf(f, "]"); }
    fprintf(f, "]");
  }
  fprintf(f, "]}\n");
}
static u64 hash_trace() { u64 h = 1469598103934665603ULL; for (int i = 0; i < SH->nev; i++) { Ev *e = &SH->ev[i]; u64 v[5] = {e->k | (u64)e->th << 8, (u64)e->a, (u64)e->b, (u64)e->c, (u64)e->d}; for (u64 y : v) { h ^= y; h *= 1099511628211ULL; h ^= h >> 31; } } return h; }
static double now() { struct timespec t; clock_gettime(CLOCK_MONOTONIC, &t); return t.tv_sec + t.tv_nsec * 1e-9; }

int main(int argc, char **argv) {
  const char *fam = "fj", *out = nullptr; u64 seed = 1, ex = 0; double secs = 5; int maxt = 1000; bool one_ = false; long nmax = 1L << 60; int maxev = 1500; long maxsus = 12;
  for (int i = 1; i + 1 < argc; i += 2) {
    std::string a = argv[i]; const char *v = argv[i + 1];
    if (a == "--family") fam = v; else if (a == "--seed") seed = strtoull(v, 0, 10); else if (a == "--secs") secs = atof(v); else if (a == "--max") maxt = atoi(v);
    else if (a == "--out") out = v; else if (a == "--exec") { ex = strtoull(v, 0, 10); one_ = true; } else if (a == "--counts") OPT_counts = atoi(v); else if (a == "--n") nmax = atol(v);
    else if (a == "--maxev") maxev = atoi(v); else if (a == "--maxsus") maxsus = atol(v);
    else if (a == "--guides") { std::ifstream gf(v); std::string l; while (std::getline(gf, l)) if (!l.empty()) guides.push_back(l); }
  }
  SH = (Shm *)mmap(nullptr, sizeof(Shm), PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0);
  errfd = memfd_create("err", 0);
  vrt_arena_init();
  std::string cur = fam;
  if (one_) { run_one(fam, ex); Monitor m; std::string why; int s = m.check(SH, ST.npus, ST.rlim, OPT_counts, why); emit(stdout, fam, ex, s); if (s) fprintf(stderr, "monitor: %s\n", why.c_str()); fprintf(stderr, "steps %llu switches %llu\n", (unsigned long long)SH->steps, (unsigned long long)SH->switches); return 0; }
  // several families may be given, separated by commas
  std::vector<std::string> fams; { std::string s; for (const char *c = fam;; c++) { if (*c == ',' || !*c) { fams.push_back(s); s.clear(); if (!*c) break; } else s += *c; } }
  FILE *f = out ? fopen(out, "w") : stdout;
  std::unordered_set<u64> seen; std::unordered_set<u64> feats; double t0 = now();
  long n = 0, evs = 0, nsus = 0, overs = 0, written = 0, longs = 0; u64 steps = 0, sw = 0; double acc = 0;
  long grun = 0, gfull = 0, gev = 0, ghit = 0; std::unordered_set<int> gdone;
  while (n < nmax && now() - t0 < secs) {
    const std::string &fm = fams[n % fams.size()];
    u64 x = seed * 1000003ULL * 4096 + n;
    run_one(fm.c_str(), x); n++;
    if (SH->gtotal) { grun++; gfull += SH->gpos == SH->gtotal; gev += SH->gtotal; ghit += SH->gpos; if (SH->gpos == SH->gtotal) gdone.insert((int)gindex(x)); }
    steps += SH->steps; sw += SH->switches; evs += SH->nev;
    if (SH->over) { overs++; continue; }
    if (!seen.insert(hash_trace()).second) continue;
    Monitor m; std::string why; int s = m.check(SH, ST.npus, ST.rlim, OPT_counts, why);
    if (s) { char eb[3000]; int en = pread(errfd, eb, 2999, 0); if (en > 0) fprintf(stderr, "%.*s\n", en, eb); nsus++; if (nsus <= 12) { emit(f, fm.c_str(), x, 1); fflush(f); } if (nsus >= maxsus) break; continue; }
    if (SH->nev > maxev) { longs++; continue; }
    // prefer traces with new features (pairs of consecutive events, with whether the thread changed)
    bool novel = false; for (int i = 0; i + 1 < SH->nev; i++) { Ev *a = &SH->ev[i], *b = &SH->ev[i + 1]; if (feats.insert(a->k * 4096 + b->k * 16 + (a->th == b->th) * 8 + (ST.tso ? 4 : 0) + (ST.hb ? 2 : 0)).second) novel = true; }
    // budget: spread the written traces over the whole exploration
    acc = (now() - t0) / secs * maxt;
    if ((novel || written < acc) && written < maxt) { emit(f, fm.c_str(), x, 0); written++; }
  }
  if (f != stdout) fclose(f);
  printf("{\"execs\":%ld,\"distinct\":%zu,\"events\":%ld,\"steps\":%llu,\"switches\":%llu,\"suspicious\":%ld,\"written\":%ld,\"over\":%ld,\"long\":%ld,\"guided\":%ld,\"followed\":%ld,\"guide_events\":%ld,\"guide_events_followed\":%ld,\"guides\":%zu,\"guides_followed\":%zu,\"secs\":%.1f}\n", n, seen.size(), evs, (unsigned long long)steps, (unsigned long long)sw, nsus, written, overs, longs, grun, gfull, gev, ghit, guides.size(), gdone.size(), now() - t0);
  return 0;
}
