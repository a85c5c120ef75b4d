// A port of spec/Lace.tla that runs on every explored execution.  It only decides which executions
// are looked at first: a trace it dislikes is written to the trace file and judged by TLC.
// (Most executions never reach TLC because exploring is a hundred times faster than validating.)
#ifndef MONITOR_H
#define MONITOR_H
#include "vrt.h"
#include "vrt_int.h"
#include <algorithm>
#include <cstring>
#include <set>
#include <string>
#include <vector>
struct Monitor {
  enum Op { none, start, stop, sus, res, call, run, nf, tg, sync, drop, steal, yield, barr, spawn, bulk };
  enum St : uint8_t { NEW, OPEN, RUN, DONE, GONE };
  struct Tk { St st = NEW; uint8_t md = 0; int own = -1; bool cl = false; int fr = 0, by = -1; bool ex = false; int sc = 0, ec = 0, sn = 0; std::vector<std::pair<int, int>> cp; };
  struct Ctx { int th, id, fr; std::vector<int> kids; Op op = none; int oid = -1; int blk = 0; };
  struct Fr { int uid; uint8_t kd; int root; bool done; std::vector<int> cps; };
  struct S {
    int ph = 0, nw = 0, cap = 0, req = 0, stack = 0; // ph 0 off 1 starting 2 on 3 stopping 4 stopped
    std::vector<int> who; std::vector<std::vector<Ctx>> stk; Op ext[8] = {}; int extid[8]; std::vector<Tk> t; std::vector<Fr> fr; int nfr = 0;
    std::set<int> xr; struct B { int n = 0, c[2] = {0, 0}; }; std::vector<B> bar; int aw = 0; int tasks = 0, steals = 0; struct Mk { int id = -1; std::set<int> idle; }; std::vector<Mk> mark; struct Wt { bool calm = false; std::set<int> taken, done; }; std::vector<Wt> wt; std::set<int> must; bool ended = false;
  };
  int N = 0;
  int npus, rlim, counts; bool clk;
  const Ev *e; int th, A, B_, C, D;
  static bool W(int t) { return t >= 8; }
  bool after(int t, int c) { return !e->nvc || t < 0 || t >= VC_N || c == 0 || e->vc[t] >= c; }
  int own() { return e->nvc && th < VC_N ? e->vc[th] : 0; }
  static bool has(const S &s, int t) { return !s.stk[t].empty(); }
  static int pos(const S &s, int f) { for (size_t i = 0; i < s.fr.size(); i++) if (s.fr[i].uid == f) return (int)i; return -1; }
  static bool vac(const S &s, int f) { for (auto &v : s.stk) for (auto &c : v) if (c.fr == f) return false; return true; }
  static bool allowed(const S &s, int f) { int p = pos(s, f); if (p < 0) return false; for (size_t i = p + 1; i < s.fr.size(); i++) if (!s.fr[i].done || !vac(s, s.fr[i].uid)) return false; return true; }
  static void pop(S &s, int f) { s.fr.resize(pos(s, f) + 1); }
  static bool active(const S &s, int t) { return has(s, t) && allowed(s, s.stk[t].back().fr); }
  static bool ready(const S &s, int t) { return W(t) && active(s, t) && s.stk[t].back().op == none && !s.must.count(t); }
  static bool live(const Tk &t) { return t.st == NEW || t.st == RUN || t.st == DONE; }
  static bool waits(const S &s, int t) { if (!has(s, t)) return true; auto &c = s.stk[t].back(); if (c.op == steal || c.op == yield || c.op == bulk) return true; if (c.oid < 0) return false; auto &k = s.t[c.oid];
    if (c.op == sync || c.op == drop) return live(k) && k.by != t; if (c.op == nf || c.op == tg) return live(k); return false; }
  static bool intr(const S &s, int t) { if (!has(s, t)) return true; auto &c = s.stk[t].back(); if (c.op == steal || c.op == yield || c.op == bulk || c.op == nf || c.op == tg) return true; if (c.oid < 0) return false; auto &k = s.t[c.oid];
    return (c.op == sync || c.op == drop) && (k.st == RUN || k.st == DONE) && k.by != t; }
  static void claimTarget(S &s, int t) { if (!has(s, t)) return; auto &c = s.stk[t].back(); if (c.op == sync || c.op == drop) claim(s, c.oid); }
  static void claim(S &s, int id) { if (id >= 0 && s.t[id].st == NEW) s.t[id].cl = true; }
  static std::vector<int> flat(const S &s, int t, int f) { std::vector<int> r; for (auto &c : s.stk[t]) if (c.fr == f) { r.insert(r.end(), c.kids.begin(), c.kids.end()); if (c.op == sync || c.op == drop) r.push_back(c.oid); } return r; }
  static void claimOlder(S &s, int o, int x) { auto l = flat(s, o, s.t[x].fr); auto it = std::find(l.begin(), l.end(), x); if (it == l.end()) return; for (auto i = l.begin(); i != it; ++i) claim(s, *i); }
  static int used(const S &s, int t) { int n = 0; for (auto &c : s.stk[t]) { n += (int)c.kids.size() + c.blk; if ((c.op == sync || c.op == drop)) { auto &k = s.t[c.oid]; if (k.cl || (k.by != -1 && k.by != c.th)) n++; } } return n; }
  static bool known(const S &s, int id) { return id >= 0 && id < (int)s.t.size(); }
  static bool extidle(const S &s, int t) { return !W(t) && s.ext[t] == none && !s.must.count(t) && !s.ended; }
  static bool noext(const S &s) { for (auto o : s.ext) if (o != none) return false; return true; }
  static bool allidle(const S &s) { for (auto &v : s.stk) if (!v.empty()) return false; return true; }
  static bool excl(const S &s, int id) { if (s.t[id].ex) return s.xr.empty(); for (int x : s.xr) if (s.t[x].ex) return false; return true; }
  bool canopen(const S &s, int t, int id) {
    auto &k = s.t[id]; if (k.st != NEW) return false;
    size_t n = s.fr.size();
    if (W(k.own)) { if (!has(s, k.own) || s.stk[k.own].back().oid != id || !allowed(s, s.stk[k.own].back().fr)) return false; n = pos(s, s.stk[k.own].back().fr) + 1; }
    else if (!excl(s, id)) return false;
    for (int w : s.who) if (w != -1 && !intr(s, w)) return false;
    if (!intr(s, t)) return false;
    auto &f = s.fr[n - 1];
    if (f.kd == tg && !f.done && (int)f.cps.size() != s.nw) return false;
    if (f.root != -1 && s.t[f.root].st == OPEN) return false;
    return true;
  }
  void open(S &s, int id, int cp) {
    if (W(s.t[id].own)) pop(s, s.stk[s.t[id].own].back().fr); else s.xr.insert(id);
    Fr f; f.uid = ++s.nfr; f.kd = s.t[id].md; f.root = id; f.done = false; if (cp >= 0) f.cps.push_back(cp); s.fr.push_back(f);
  }
  void push(S &s, int id, int f) { Ctx c; c.th = th; c.id = id; c.fr = f; s.stk[th].push_back(c); }
  bool simple(S &s) { pop(s, s.stk[th].back().fr); return true; }
  bool submit(S &s, Op op, bool ex) {
    if (A != (int)s.t.size()) return false;
    Tk k; k.md = op; k.own = th; k.ex = ex; k.sc = own();
    if (ready(s, th)) { k.fr = s.stk[th].back().fr; k.ex = false; s.t.push_back(k); s.stk[th].back().op = op; s.stk[th].back().oid = A; return simple(s); }
    if (!W(th) && extidle(s, th) && s.ph == 2 && op != call) { k.fr = -1; s.t.push_back(k); s.ext[th] = op; s.extid[th] = A; uncalm(s); return true; }
    return false;
  }
  bool ret(S &s, Op op, int ok) {
    if (!known(s, A) || ok != 1) return false;
    auto &k = s.t[A]; if (k.st != DONE || k.md != op) return false;
    if (op == tg) { for (auto &p : k.cp) if (!after(p.first, p.second)) return false; } else if (!after(k.by, k.ec)) return false;
    if (W(th)) { if (!active(s, th) || s.stk[th].back().op != op || s.stk[th].back().oid != A) return false; s.stk[th].back().op = none; s.stk[th].back().oid = -1; simple(s); }
    else { if (s.ext[th] != op || s.extid[th] != A) return false; s.ext[th] = none; }
    k = Tk(); k.st = GONE; return true;
  }
  bool popk(S &s, Op op) { if (!ready(s, th)) return false; auto &c = s.stk[th].back(); if (c.kids.empty() || c.kids.back() != A) return false; c.kids.pop_back(); c.op = op; c.oid = A; return simple(s); }
  bool begin(S &s, Op op) { if (!ready(s, th)) return false; s.stk[th].back().op = op; s.stk[th].back().oid = -1; return simple(s); }
  bool finish(S &s, Op op) { if (!W(th) || !active(s, th) || s.stk[th].back().op != op) return false; s.stk[th].back().op = none; return simple(s); }
  void doStart(S &s0, std::vector<S> &out) {
    int id = A, w = B_, fl = C, n = D;
    if (!known(s0, id) || s0.must.count(th) || !W(th) || s0.ph != 2 || fl != 7 || n != s0.nw || w < 0 || w >= s0.nw) return;
    if (s0.who[w] != -1 && s0.who[w] != th) return;
    for (int v = 0; v < s0.nw; v++) if (s0.who[v] == th && v != w) return;
    S s = s0; s.who[w] = th;
    auto k = s.t[id];
    if (active(s, th) && s.stk[th].back().oid == id && k.own == th && k.st == NEW) {
      Op o = s.stk[th].back().op;
      if ((o == sync && !k.cl) || o == call || o == run) { S r = s; r.t[id].st = RUN; r.t[id].by = th; pop(r, r.stk[th].back().fr); push(r, id, k.fr); out.push_back(std::move(r)); }
    }
    if (!after(k.own, k.sc)) return;
    if (k.md == spawn && k.own != th && k.st == NEW && waits(s, th) && allowed(s, k.fr)) {
      S r = s; claimOlder(r, k.own, id); claimTarget(r, th); r.t[id].cl = true; r.t[id].st = RUN; r.t[id].by = th; pop(r, k.fr); push(r, id, k.fr); r.steals++; out.push_back(std::move(r));
    }
    if (k.md == run && !W(k.own) && k.st == NEW && waits(s, th) && excl(s, id)) {
      for (auto &f : s.fr) {
        if (!allowed(s, f.uid)) continue;
        if (f.kd == tg && std::find(f.cps.begin(), f.cps.end(), th) == f.cps.end()) continue;
        S r = s; claimTarget(r, th); r.t[id].st = RUN; r.t[id].by = th; r.t[id].fr = f.uid; pop(r, f.uid); push(r, id, f.uid); r.xr.insert(id); out.push_back(std::move(r));
      }
      for (int p = 0; p < (int)s.t.size(); p++) if (s.t[p].md == nf && s.t[p].st == NEW && canopen(s, th, p) && s.t[p].own != th && (W(s.t[p].own) || !k.ex)) {
        S r = s; claimTarget(r, th); open(r, p, -1); r.t[p].st = OPEN; r.t[id].st = RUN; r.t[id].by = th; r.t[id].fr = r.nfr; push(r, id, r.nfr); r.xr.insert(id); out.push_back(std::move(r));
      }
    }
    if (k.md == nf && (!W(k.own) || k.own == th)) {
      if (canopen(s, th, id)) { S r = s; open(r, id, -1); r.t[id].st = RUN; r.t[id].by = th; push(r, id, r.nfr); out.push_back(std::move(r)); }
      if (k.st == OPEN && intr(s, th) && s.fr.back().root == id) { S r = s; r.t[id].st = RUN; r.t[id].by = th; push(r, id, r.fr.back().uid); out.push_back(std::move(r)); }
    }
    if (k.md == tg) {
      if (canopen(s, th, id)) { S r = s; open(r, id, th); r.t[id].st = RUN; r.t[id].by = th; push(r, id, r.nfr); out.push_back(std::move(r)); }
      auto &f = s.fr.back();
      if (k.st == RUN && f.kd == tg && f.root == id && std::find(f.cps.begin(), f.cps.end(), th) == f.cps.end() && intr(s, th)) { S r = s; r.fr.back().cps.push_back(th); push(r, id, r.fr.back().uid); out.push_back(std::move(r)); }
    }
  }
  std::set<int> idleFor(const S &s, bool help) { auto r = idleFor(s); if (!help) return r; for (int i = 0; i < s.nw; i++) { int w = s.who[i]; if (w == th || w == -1 || !has(s, w)) continue; auto &c = s.stk[w].back(); if (c.op != sync && c.op != drop) continue; auto &k = s.t[c.oid]; if (k.st != RUN || k.by == th || k.by == w || !has(s, k.by)) continue; auto &b = s.stk[k.by].back(); if (b.id == c.oid && b.kids.empty() && b.op == none) r.insert(i); } return r; }
  std::set<int> idleFor(const S &s) { std::set<int> r; for (int i = 0; i < s.nw; i++) { int w = s.who[i]; if (w == th) continue; if (w == -1 || !has(s, w)) { r.insert(i); continue; } auto &c = s.stk[w].back(); if (c.fr < s.stk[th].back().fr) { r.insert(i); continue; } if ((c.op == sync || c.op == drop) && s.t[c.oid].st == RUN && s.t[c.oid].by == th) r.insert(i); } return r; }
  static void meet(std::set<int> &a, const std::set<int> &b) { for (auto i = a.begin(); i != a.end();) if (b.count(*i)) ++i; else i = a.erase(i); }
  static void uncalm(S &s) { for (auto &w : s.wt) w.calm = false; }
  bool step(S &s) {
    switch (e->k) {
    case E_Spawn: { if (!ready(s, th) || A != (int)s.t.size()) return false; bool over = used(s, th) >= s.cap; auto &c = s.stk[th].back(); Tk k; k.md = spawn; k.own = th; k.fr = c.fr; k.sc = own(); s.t.push_back(k); c.kids.push_back(A); if (over) s.must.insert(th); s.tasks++; return simple(s); }
    case E_End: { if (!ready(s, th)) return false; auto &c = s.stk[th].back(); if (c.id != A || !c.kids.empty() || c.blk) return false; simple(s); s.stk[th].pop_back(); auto &k = s.t[A];
      if (k.md == tg) { k.cp.push_back({th, own()}); bool fin = (int)k.cp.size() == s.nw; if (fin) { k.st = DONE; s.xr.erase(A); } s.fr.back().done = fin; }
      else { k.st = DONE; k.ec = own(); if (k.md == nf) s.fr.back().done = true; s.xr.erase(A); } return true; }
    case E_Sync: return popk(s, sync);
    case E_Drop: return popk(s, drop);
    case E_SyncRet: { if (!W(th) || !active(s, th)) return false; auto &c = s.stk[th].back(); if (c.op != sync || c.oid != A) return false; auto &k = s.t[A]; if (k.st != DONE || B_ != 1 || !after(k.by, k.ec)) return false; c.op = none; c.oid = -1; k = Tk(); k.st = GONE; return simple(s); }
    case E_DropRet: { if (!W(th) || !active(s, th)) return false; auto &c = s.stk[th].back(); if (c.op != drop || c.oid != A) return false; auto &k = s.t[A]; if (!((k.st == NEW && !k.cl) || (k.st == DONE && after(k.by, k.ec)))) return false; c.op = none; c.oid = -1; k = Tk(); k.st = GONE; return simple(s); }
    case E_Call: return submit(s, call, false); case E_CallRet: return ret(s, call, B_);
    case E_Run: return submit(s, run, B_ == 1); case E_RunRet: return ret(s, run, B_);
    case E_Nf: return submit(s, nf, false); case E_NfRet: return ret(s, nf, B_);
    case E_Tg: return submit(s, tg, false); case E_TgRet: return ret(s, tg, B_);
    case E_Bar: { if (!begin(s, barr)) return false; auto &b = s.bar[th]; b.c[b.n % 2] = own(); b.n++; return true; }
    case E_BarRet: { if (!W(th) || !active(s, th) || s.stk[th].back().op != barr) return false; int g = s.bar[th].n; for (int w : s.who) if (w == -1 || s.bar[w].n < g || !after(w, s.bar[w].c[(g - 1) % 2])) return false; s.stk[th].back().op = none; return simple(s); }
    case E_Yield: return begin(s, yield); case E_YieldRet: return finish(s, yield);
    case E_Steal: return begin(s, steal); case E_StealRet: return finish(s, steal);
    case E_Insp: { if (!ready(s, th)) return false; auto &c = s.stk[th].back(); if (std::find(c.kids.begin(), c.kids.end(), A) == c.kids.end()) return false; auto &k = s.t[A]; bool settled = D % 2; int ok = D / 2;
      if (B_ == 0) { if (C == 0) { if (k.sn || (settled && s.wt[th].taken.count(A))) return false; } else { claimOlder(s, th, A); claim(s, A); if (k.sn < 2) k.sn = 1; } }
      else { if (C == 0) { if (k.sn >= 2 || (settled && s.wt[th].done.count(A))) return false; } else { if (k.st != DONE || ok != 1 || !after(k.by, k.ec)) return false; k.sn = 2; } }
      return simple(s); }
    case E_Share: { if (!ready(s, th)) return false; auto l = flat(s, th, s.stk[th].back().fr); int first = -1; for (int i : l) if (s.t[i].st == NEW && !s.t[i].cl) { first = i; if (A == 0) break; }
      if (A != 1) { s.mark[th].id = first; s.mark[th].idle = idleFor(s, true); } else { int m = s.mark[th].id; auto x = s.mark[th].idle; meet(x, idleFor(s, true)); if (m != -1 && std::find(l.begin(), l.end(), m) != l.end() && s.t[m].st == NEW && !s.t[m].cl && !x.empty()) return false; }
      return simple(s); }
    case E_Wait: if (W(th)) { if (!ready(s, th)) return false; simple(s); auto &c = s.stk[th].back(); auto &w = s.wt[th]; w = S::Wt(); for (int k : c.kids) { if (s.t[k].st != NEW) w.taken.insert(k); if (s.t[k].st == DONE) w.done.insert(k); } meet(s.mark[th].idle, idleFor(s, A == 1)); return true; }
      if (!extidle(s, th)) return false; s.wt[th] = S::Wt(); s.wt[th].calm = noext(s); return true;
    case E_Halt: { if (!W(th) || !has(s, th)) return false; if (A == 1) return true; auto &c = s.stk[th].back(); if (B_ != 1 || !(c.op == sync || c.op == drop)) return false; auto &k = s.t[c.oid]; if (!(k.st == NEW || k.by != th)) return false; claim(s, c.oid); return true; }
    case E_StartInv: if (W(th) || !extidle(s, th) || s.ph != 0) return false; s.ph = 1; s.req = A; s.cap = B_ ? B_ : 100000; s.ext[th] = start; s.who.clear(); for (auto &v : s.stk) v.clear(); s.fr.resize(1); s.fr[0] = Fr{0, 0, -1, false, {}}; s.bar.assign(N, S::B()); s.aw = 1; s.mark.assign(N, S::Mk()); s.wt.assign(N, S::Wt()); s.tasks = s.steals = 0; return true;
    case E_StartRet: if (W(th) || s.ext[th] != start || A != (s.req ? s.req : npus) || B_ != A || D != s.stack || C != (s.stack ? s.stack : rlim == 0 || rlim > 16384 ? 16384 : rlim)) return false; s.ph = 2; s.nw = A; s.who.assign(A, -1); s.ext[th] = none; return true;
    case E_StopInv: if (W(th) || !extidle(s, th) || s.ph != 2 || !noext(s)) return false; s.ph = 3; s.ext[th] = stop; return true;
    case E_StopMid: if (W(th) || s.ext[th] != stop || s.ph != 3 || !allidle(s) || !s.xr.empty()) return false; s.ph = 4; return true;
    case E_StopRet: if (W(th) || s.ext[th] != stop || s.ph != 4 || A || B_) return false; s.ph = 0; s.nw = 0; s.ext[th] = none; return true;
    case E_Sus: case E_Res: if (W(th) || !extidle(s, th) || s.ph != 2) return false; s.ext[th] = e->k == E_Sus ? sus : res; uncalm(s); return true;
    case E_SusRet: if (W(th) || s.ext[th] != sus) return false; s.ext[th] = none; s.aw--; return true;
    case E_ResRet: if (W(th) || s.ext[th] != res) return false; s.ext[th] = none; s.aw++; return true;
    case E_Quiet: return !W(th) && extidle(s, th) && (!(s.ph == 2 && s.wt[th].calm) || A == (s.aw <= 0 ? 0 : s.nw));
    case E_ExtQ: return !W(th) && extidle(s, th) && A == 0 && B_ == 1 && (s.ph != 2 || C == s.nw);
    case E_Probe: return !W(th) && extidle(s, th) && A == npus;
    case E_SetStack: if (W(th) || !extidle(s, th) || A != B_) return false; s.stack = A; return true;
    case E_Reset: if (W(th) || !extidle(s, th)) return false; s.tasks = s.steals = 0; return true;
    case E_Report: if (W(th)) return false; if (B_ == 1) return true; return A == (counts & 1 ? s.tasks : -1) && C == (counts & 2 ? s.steals : -1) && D == 1;
    case E_Bulk: if (B_ == 4 || B_ == 6) { if (!W(th) || !active(s, th) || s.must.count(th) || s.stk[th].back().op != bulk || C != 1) return false; s.stk[th].back().op = none; s.steals += D; return simple(s); }
      { if (!ready(s, th)) return false; int u = used(s, th); simple(s); auto &c = s.stk[th].back();
        if (B_ == 1 || B_ == 5) { if (u + (B_ == 1 ? A : 1) > s.cap) s.must.insert(th); s.tasks += A; if (B_ == 1) c.blk += A; else c.op = bulk; return true; }
        if (c.blk != A) return false;
        if (B_ == 3) { c.blk = 0; c.op = bulk; }
        return B_ == 2 || B_ == 3; }
    case E_Trng: return true;
    case E_Fault: s.must.insert(th); return true;
    case E_Exit: if (!s.must.count(th) || A == 0 || B_ != 1) return false; s.ended = true; return true;
    case E_Fin: if (W(th) || !noext(s) || !allidle(s) || !s.must.empty()) return false; for (auto &k : s.t) if (k.st != GONE) return false; s.ended = true; return true;
    }
    return false;
  }
  int check(const Shm *h, int np, unsigned rl, int cn, std::string &why) {
    npus = np; rlim = (int)rl; counts = cn;
    N = 16; for (int i = 0; i < h->nev; i++) if (h->ev[i].th < 999 && h->ev[i].th >= N) N = h->ev[i].th + 1;
    std::vector<S> cur(1), nxt;
    { S &s = cur[0]; s.stk.resize(N); s.bar.resize(N); s.mark.assign(N, S::Mk()); s.wt.assign(N, S::Wt()); s.fr.push_back(Fr{0, 0, -1, false, {}}); for (auto &x : s.extid) x = -1; }
    for (int i = 0; i < h->nev; i++) {
      e = &h->ev[i]; th = e->th; A = e->a; B_ = e->b; C = e->c; D = e->d;
      nxt.clear();
      if (th < N) for (auto &s : cur) if (e->k == E_Start) doStart(s, nxt); else if (step(s)) nxt.push_back(std::move(s));
      cur.swap(nxt);
      if (cur.empty()) { why = "event " + std::to_string(i + 1); return 1; }
    }
    for (auto &s : cur) if (s.ended) return 0;
    why = "incomplete"; return 1;
  }
};
#endif
