// C12: thread pools of contexts: spawned, imported, split, destroyed, with refused threads and refused memory.
#include "w.h"
#include "c12g.h"
namespace { struct S { PoolProg p[3]; int n, mode, ctx; bool cores, again; int coretab[8]; int fault; }; }
static void setup() {
  S *s = newshared<S>(); s->ctx = 1 + cfg(2); for (auto &p : s->p) { p.nstep = cfg(6); for (int i = 0; i < p.nstep; i++) { p.step[i] = cfg(PS_NB); p.arg[i] = cfg(12); } p.rounds = 1 + cfg(4); p.splits = cfg(3) ? cfg(16) : 0; p.depth = cfg(3); p.salt = cfg(1000); }
  s->n = 1 + cfg(8); s->mode = cfg(4); if (s->mode == 3 && cfg(2)) s->mode = 1; s->cores = coin(); s->again = coin(); for (int &c : s->coretab) c = cfg(12); sim_knobs.cores = 1 + cfg(8);
  s->fault = cfg(3) == 2 ? 1 + cfg(3) : 0; if (s->fault == 1) sim_knobs.fail_thread = cfg(s->n + 1); else if (s->fault == 2) { sim_knobs.fail_alloc = cfg(5); sim_knobs.fail_alloc_len = 1 + cfg(2); } else if (s->fault == 3) { sim_knobs.fail_thread = s->n - 1; }
  sim_describe("threads=%d mode=%d contexts=%d cores=%d fault=%d rounds=%d splits=%x depth=%d steps=%d", s->n, s->mode, s->ctx, sim_knobs.cores, s->fault, s->p[0].rounds, s->p[0].splits, s->p[0].depth, s->p[0].nstep); sim_state(s->n * 64 + s->mode * 8 + s->fault);
}
static SCOTCH_Context *ic; static int idone;
static void slave(void *p) { int r = SCOTCH_contextThreadImport2(ic, (int)(intptr_t)p); if (r) sim_violation("call-failed", "SCOTCH_contextThreadImport2 returned %d", r); idone++; }
static void quiet() { for (int k = 0; sim_other_fibers(sim_rank()) > 0; k++) { if (k > 100000) sim_violation("thread-left", "%ld threads are still there after the context was destroyed", sim_other_fibers(sim_rank())); sim_yield(); } }
static void pool(int k) {
  S &s = shared<S>(); SCOTCH_Context c; unsigned long long a0 = sim_affinity(); int r = SCOTCH_contextInit(&c); if (r) { if (!s.fault) sim_violation("call-failed", "SCOTCH_contextInit returned %d", r); sim_probe("init-refused"); return; }
  if (s.mode == 2) { ic = &c; idone = 0; r = SCOTCH_contextThreadImport1(&c, s.n); if (r) { if (!s.fault) sim_violation("call-failed", "SCOTCH_contextThreadImport1 returned %d", r); SCOTCH_contextExit(&c); sim_probe("import-refused"); return; }
    std::vector<SimThread*> t; for (int i = 1; i < s.n; i++) t.push_back(sim_spawn(slave, (void*)(intptr_t)i)); OKCALL(SCOTCH_contextThreadImport2(&c, 0)); pool_run(&c, &s.p[k]); if (idone) sim_violation("early-release", "an imported thread came back before the context was destroyed"); SCOTCH_contextExit(&c); for (auto x : t) sim_join(x); if (idone != s.n - 1) sim_violation("thread-left", "imported threads"); sim_probe("imported"); }
  else { int n = s.mode == 3 ? -1 : s.n; int t0 = sim_threads_refused(), m0 = sim_alloc_failed(); r = SCOTCH_contextThreadSpawn(&c, n, s.cores && s.mode == 1 ? s.coretab : nullptr); bool hit = sim_threads_refused() > t0 || sim_alloc_failed() > m0;
    if (r) { if (!hit) sim_violation("call-failed", "SCOTCH_contextThreadSpawn returned %d although nothing was refused", r); sim_probe("spawn-refused"); quiet(); if (s.again) { sim_noinject(1); OKCALL(SCOTCH_contextThreadSpawn(&c, s.n, nullptr)); pool_run(&c, &s.p[k]); sim_noinject(0); } }
    else { int q = pool_threads(&c), w = n < 0 ? __builtin_popcountll(a0) : n; if (q > w || q < 1 || (!hit && q != w)) sim_violation("bad-pool", "%d threads were asked for and the pool has %d", w, q); pool_run(&c, &s.p[k]); sim_probe("spawned"); }
    SCOTCH_contextExit(&c); }
  quiet(); if (sim_affinity() != a0) sim_violation("affinity-changed", "the calling thread could run on cores %llx and can run on %llx after the context was destroyed", a0, sim_affinity());
}
static void rmain(int) { S &s = shared<S>(); for (int k = 0; k < s.ctx; k++) pool(k); }
WORKLOAD(C12, "pool", 1, 1, setup, rmain, nullptr)
