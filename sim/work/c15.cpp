// C15: the random generators. The reference is relational: the state of a generator is the stream it was last set to and what was consumed since; equal states must give equal draws and equal results.
#include "job.h"
namespace {
enum { O_DRAW, O_RESET, O_SEED, O_PROC, O_SAVE, O_LOAD, O_CLONE, O_CSEED, O_CRESET, O_JOB, O_NB };
struct Op { int o, gen; Num a; int f; int fault; long at; };
struct Gen { bool own = false, known = true; std::string stream, hist; int proc = 0; Num seed = 1; std::string key() const { return stream + ":" + hist; } };
struct S { RG g; std::vector<Job> jobs; std::vector<Op> ops; std::vector<std::vector<Op>> bg; int nctx; int thr; };
struct Saved { bool ok = false; Gen g; };
}
static std::map<std::string, V> *seen; static Gen *G; /* 0: default generator; 1..: contexts */ static CX *cx; static CG *gr; static Saved sv[3];
static void oppick(Op &o, int nctx, bool main) {
  static const Num sn[] = {1, 3, 5, 0, 65537, 2147483646}; static const Num pn[] = {0, 1, 2, 3, 100, 255, 4000, 70000}; static const int mo[] = {O_DRAW, O_DRAW, O_JOB, O_JOB, O_RESET, O_SEED, O_PROC, O_SAVE, O_LOAD, O_CLONE, O_CSEED, O_CRESET}; o.o = main ? mo[cfg(12)] : (cfg(3) == 0 ? O_CSEED : cfg(2) ? O_JOB : O_CRESET); o.gen = nctx > 0 ? cfg(nctx) : 0; o.a = o.o == O_DRAW ? (cfg(2) ? 0x7fffffff : 1 + cfg(100)) : o.o == O_SEED || o.o == O_CSEED ? sn[cfg(6)] : o.o == O_PROC ? pn[cfg(8)] : cfg(2); o.f = cfg(2); o.fault = (o.o == O_SAVE || o.o == O_LOAD) && cfg(3) == 2 ? 1 + cfg(3) : 0; o.at = cfg(80);
}
static void setup() {
  S *s = newshared<S>(); GenOpt o; o.maxn = 40; o.labels = false; o.empty = false; o.minn = 8; s->g = gen_graph(o); 
  for (int k = 0; k < 2; k++) { Job j = gen_job_on(k ? J_ORDER : J_PART, s->g, 0, false, 5); if (j.arch && (j.a.t == 11 || j.a.t == 12)) { j.arch = false; j.fixed = false; j.remap = false; j.parts = 3; j.smode = 0; } if (cfg(2)) j.smode = 0; s->jobs.push_back(j); }
  s->nctx = 1 + cfg(3); int n = 4 + cfg(22); for (int i = 0; i < n; i++) { Op p; oppick(p, s->nctx, true); s->ops.push_back(p); } int b = cfg(3); for (int i = 0; i < b; i++) { std::vector<Op> v; int k = 1 + cfg(5); for (int q = 0; q < k; q++) { Op p; oppick(p, 1, false); p.gen = s->nctx + i; v.push_back(p); } s->bg.push_back(v); }
  s->thr = cfg(3) == 2 ? 2 : 1; static const int bm[] = {0, -1, 1, 7, 30}; sim_io.bufmode = bm[cfg(5)]; sim_io.rdchunk = cfg(3) ? 0 : 1 + cfg(5); std::string d; for (auto &x : s->ops) d += " " + std::string("drspSLcCRJ").substr(x.o, 1) + std::to_string(x.a) + (x.fault ? "!" : ""); sim_describe("contexts=%d background=%d ops%s", s->nctx, b, d.c_str());
}
static void meet(Gen &g, const std::string &what, const V &v) {
  if (!g.known) return; std::string k = g.key() + "|" + what; auto it = seen->find(k); if (it == seen->end()) { (*seen)[k] = v; return; }
  sim_probe("replayed-state"); if (it->second != v) sim_violation("sequence-differs", "a generator in state %s does not give again what it gave before (%s)", g.key().c_str(), what.c_str());
}
// The settings are not ignored: not all process numbers, and not all seeds, select one and the same sequence
static void distinct(LR r) {
  static const Num pn[] = {0, 3, 100, 255, 4000}; static const Num sn[] = {1, 5, 9, 65537}; int p = pn[r.below(5)]; Num a = sn[r.below(4)]; auto draws = [](int p, Num s) { V v; SCOTCH_randomProc(p); SCOTCH_randomSeed(s); for (int i = 0; i < 6; i++) v.push_back(SCOTCH_randomVal(0x7fffffff)); return v; }; std::set<V> x, y; for (Num q : pn) x.insert(draws(q, a)); for (Num q : sn) y.insert(draws(p, q));
  if (x.size() < 2) sim_violation("setting-ignored", "all process numbers give the same sequence with seed %d", a); if (y.size() < 2) sim_violation("setting-ignored", "all seeds give the same sequence with process number %d", p); sim_probe("settings-compared");
}
static void restart(Gen &g) { g.stream = "p" + std::to_string(g.proc) + "s" + std::to_string(g.seed); g.hist.clear(); g.known = true; }
static void doop(const Op &o) {
  S &s = shared<S>(); Gen &d = G[0]; Gen *c = &G[1 + o.gen]; CX &x = cx[o.gen]; Gen &t = c->own ? *c : d; 
  switch (o.o) {
  case O_DRAW: { Num v = SCOTCH_randomVal(o.a); if (v < 0 || v >= o.a) sim_violation("bad-draw", "draw %d is not below %d", v, o.a); meet(d, "draw" + std::to_string(o.a), {v}); d.hist += "d"; break; }
  case O_RESET: SCOTCH_randomReset(); restart(d); break;
  case O_SEED: SCOTCH_randomSeed(o.a); d.seed = o.a; restart(d); break;
  case O_PROC: SCOTCH_randomProc(o.a); d.proc = o.a; break;
  case O_SAVE: { std::string nm = "rand" + std::to_string(o.f); FILE *f = sim_fopen(nm.c_str(), "w"); int w0 = sim_write_faults(); if (o.fault) { sim_io_rearm(); sim_io.wrerr_at = o.at % 60; } else sim_noinject(1); int r = SCOTCH_randomSave(f); int w1 = sim_write_faults(); int cr = fclose(f); sim_io.wrerr_at = -1; if (!o.fault) sim_noinject(0);
      if (w1 > w0) sim_probe("write-error-met"); if (w1 > w0 && r == 0) sim_violation("error-hidden", "a write failed during SCOTCH_randomSave, which returned 0"); if (!o.fault && r) sim_violation("call-failed", "SCOTCH_randomSave returned %d", r); sv[o.f].ok = r == 0 && cr == 0; sv[o.f].g = d; break; }
  case O_LOAD: { std::string nm = "rand" + std::to_string(o.f); size_t sz = sim_file_size(nm.c_str()); if (sz == (size_t)-1) break; bool good = sv[o.f].ok && !o.fault; std::string data((const char*)sim_file_data(nm.c_str()), sz), n2 = nm; long cut = (long)sz;
      if (o.fault && sz > 0) { long at = o.at % (long)sz; if (o.fault == 3) { std::string z = data.substr(0, at); sim_file_put("randcut", z.data(), z.size()); n2 = "randcut"; } else if (o.fault == 1) sim_io.rderr_at = at; else sim_io.rdeof_at = at; cut = at; }
      FILE *f = sim_fopen(n2.c_str(), "r"); int r = SCOTCH_randomLoad(f); fclose(f); sim_io.rderr_at = sim_io.rdeof_at = -1; int num = 0; bool in = false; std::string rd = data.substr(0, cut); for (char ch : rd) { bool q = !isspace((unsigned char)ch); num += q && !in; in = q; }
      if (good) { if (r) sim_violation("call-failed", "SCOTCH_randomLoad of an undamaged state returned %d", r); Gen sg = sv[o.f].g; d = sg; d.own = false; sim_probe("state-loaded"); }
      else if (r == 0) { if (num < 5) sim_violation("error-hidden", "SCOTCH_randomLoad returned 0 for a state cut after %ld of %ld bytes", cut, (long)sz); d.known = false; sim_probe("cut-in-last-number"); SCOTCH_randomSeed(1); d.seed = 1; SCOTCH_randomProc(0); d.proc = 0; SCOTCH_randomReset(); restart(d); }
      else sim_probe("load-error-reported");          /* the generator must go on as if nothing had happened: next draws are compared */
      break; }
  case O_CLONE: OKCALL(SCOTCH_contextRandomClone(&x.c)); *c = d; c->own = true; break;
  case O_CSEED: SCOTCH_contextRandomSeed(&x.c, o.a); t.seed = o.a; restart(t); break;
  case O_CRESET: SCOTCH_contextRandomReset(&x.c); restart(t); break;
  case O_JOB: { SCOTCH_Graph b; SCOTCH_graphInit(&b); OKCALL(SCOTCH_contextBindGraph(&x.c, &gr->g, &b)); V out; OKCALL(run_job(s.jobs[o.a], &b, nullptr, out)); SCOTCH_graphExit(&b); meet(t, "job" + std::to_string(o.a), out); t.hist += "J" + std::to_string(o.a); break; }
  }
}
static void bgmain(void *p) { S &s = shared<S>(); for (auto &o : s.bg[(intptr_t)p]) doop(o); }
static void rmain(int) {
  S &s = shared<S>(); sim_setenv("SCOTCH_PTHREAD_NUMBER", "1"); seen = new std::map<std::string, V>(); int n = s.nctx + (int)s.bg.size(); G = new Gen[n + 1]; cx = new CX[n]; for (auto &z : sv) z = Saved();
  distinct(LR(s.g.n + 3 * s.ops.size())); gr = new CG; gr->make(s.g, 0, false, 5); OKCALL(gr->build()); gr->ro(); SCOTCH_randomProc(0); SCOTCH_randomReset(); SCOTCH_randomSeed(1); restart(G[0]);
  for (int i = 0; i < n; i++) OKCALL(cx[i].init(s.thr, 1, 0, 0)); for (int i = s.nctx; i < n; i++) { OKCALL(SCOTCH_contextRandomClone(&cx[i].c)); G[1 + i] = G[0]; G[1 + i].own = true; }
  std::vector<SimThread*> t; for (size_t i = 0; i < s.bg.size(); i++) t.push_back(sim_spawn(bgmain, (void*)(intptr_t)i)); for (auto &o : s.ops) doop(o); for (auto x : t) sim_join(x);
  for (int k = 0; k < 3; k++) { Op o{O_DRAW, 0, 0x7fffffff, 0, 0, 0}; doop(o); } for (int i = 0; i < n; i++) if (G[1 + i].own) { Op o{O_CRESET, i, 0, 0, 0, 0}; doop(o); o.o = O_JOB; o.a = 0; doop(o); }
  SCOTCH_randomReset(); restart(G[0]); { Op o{O_DRAW, 0, 0x7fffffff, 0, 0, 0}; doop(o); }
  for (int i = 0; i < n; i++) cx[i].exit(); gr->wr(); gr->exit(); delete gr; delete[] cx; delete[] G; delete seen;
}
WORKLOAD(C15, "random", 1, 1, setup, rmain, nullptr)
