// C16: allocations that fail inside sequential calls.
#include "job.h"
#include "io.h"
extern void (*sim_exit_hook)(int);
namespace { struct S { Job j; int thr; Num seed; int tries; std::vector<int> at, len; }; }
static void setup() {
  S *s = newshared<S>(); sim_knobs.leak = getenv("LEAK") != nullptr; static const int kk[] = {J_PART, J_ORDER, J_COARSE, J_OVL, J_MESH, J_COLOR}; s->j = gen_job(kk[cfg(6)], cfg(5) == 4 ? 160 : 60); s->thr = 1; if (s->j.smode == 0) s->j.smode = 2; s->seed = cfg(1000); s->tries = 1 + cfg(4); for (int i = 0; i < s->tries; i++) { s->at.push_back(cfg(1 << 20)); int l = cfg(4); s->len.push_back(l < 2 ? 1 : l == 2 ? 2 + cfg(4) : 1 << 28); }
  sim_describe("%s threads=%d", s->j.desc().c_str(), s->thr); sim_state(s->j.kind * 8 + s->j.smode);
}
// The scanner generated by flex ends the process when its memory is refused; the only strategies parsed while memory is refused are the internal ones of some methods.
static void gaveup(int c) { if (c == 2 && sim_alloc_failed() > 0) { sim_probe("parser-gave-up"); sim_end_run(); } }
static void rmain(int) {
  S &s = shared<S>(); sim_exit_hook = gaveup; char b[8]; snprintf(b, sizeof b, "%d", s.thr); sim_setenv("SCOTCH_PTHREAD_NUMBER", b); CG G; CM M; if (s.j.kind == J_MESH) { M.make(s.j.m, s.j.base, s.j.gaps, s.j.gs); OKCALL(M.build()); M.ro(); } else { G.make(s.j.g, s.j.base, s.j.gaps, s.j.gs); OKCALL(G.build()); G.ro(); }
  SCOTCH_Graph *g = s.j.kind == J_MESH ? nullptr : &G.g; SCOTCH_Mesh *m = s.j.kind == J_MESH ? &M.m : nullptr; SCOTCH_Strat st; OKCALL(SCOTCH_stratInit(&st)); OKCALL(job_strat(s.j, st)); s.j.pre = &st; V out0, out; auto fresh = [&] { SCOTCH_randomReset(); SCOTCH_randomSeed(s.seed); };
  fresh(); OKCALL(run_job(s.j, g, m, out0)); long a0 = sim_alloc_index(); fresh(); OKCALL(run_job(s.j, g, m, out)); long n = sim_alloc_index() - a0; if (s.thr == 1 && out != out0) sim_violation("not-repeatable", "two calls in a row differ"); if (n <= 0) { sim_probe("no-allocation"); }
  for (int t = 0; t < s.tries && n > 0; t++) { int f0 = sim_alloc_failed(); long k = s.at[t] % n; fresh(); sim_fail_from(sim_alloc_index() + k, s.len[t]); int r = run_job(s.j, g, m, out); sim_fail_from(-1, 1); int hit = sim_alloc_failed() - f0; if (!hit) { sim_probe("not-reached"); continue; } sim_log("status %d after %d refused allocations", r, hit);
    if (r == 0) { check_job(s.j, out); sim_probe("survived"); } else sim_probe("refused");
    fresh(); OKCALL(run_job(s.j, g, m, out)); if (s.thr == 1 && out != out0) sim_violation("not-repeatable", "the call gives another result once memory is available again"); }
  SCOTCH_stratExit(&st); G.wr(); M.wr(); if (s.j.kind == J_MESH) M.exit(); else G.exit();
}
WORKLOAD(C16, "jobs", 1, 1, setup, rmain, nullptr)
