// C09: with the deterministic option, threaded computations do not depend on the interleaving of threads; coarsening does not depend on their number.
#include "job.h"
namespace { struct S { Job j; int threads, rc; Num seed; int thr[4]; }; }
static void setup() {
  S *s = newshared<S>(); static const int kk[] = {J_PART, J_ORDER, J_COARSE, J_OVL, J_MESH, J_PART, J_ORDER, J_COARSE, J_COLOR}; int k = kk[cfg(9)]; s->j = gen_job(k, k == J_COARSE ? 300 : k == J_MESH ? 60 : cfg(4) == 3 ? 250 : 100); s->threads = 2 + cfg(4); s->rc = coin(); s->seed = cfg(1000);
  for (int i = 0; i < 4; i++) s->thr[i] = 1 + cfg(5);
  sim_knobs.cores = 1 + cfg(6); sim_knobs.sched = sim_member() != 0;
  sim_describe("thr=%d rc=%d %s", s->threads, s->rc, s->j.desc().c_str()); sim_state(s->j.kind * 64 + s->threads * 4 + s->j.smode);
}
static void rmain(int) {
  S &s = shared<S>(); sim_setenv("SCOTCH_PTHREAD_NUMBER", "1") /* architectures, built outside of the context, are inputs */; SCOTCH_randomReset(); SCOTCH_randomSeed(s.seed); int t = s.j.kind == J_COARSE ? s.thr[sim_member()] : s.threads; CX cx; OKCALL(cx.init(t, 1, s.rc, s.seed)); V out; out.clear();
  if (s.j.kind == J_COARSE && s.thr[sim_member()] != s.thr[0]) sim_probe("other-thread-count");
  if (s.j.kind == J_MESH) { CM M; M.make(s.j.m, s.j.base, s.j.gaps, s.j.gs); OKCALL(M.build()); M.ro(); SCOTCH_Mesh b; SCOTCH_meshInit(&b); OKCALL(SCOTCH_contextBindMesh(&cx.c, &M.m, &b)); OKCALL(run_job(s.j, nullptr, &b, out)); publish_v(0, out); SCOTCH_meshExit(&b); cx.exit(); M.wr(); M.exit(); return; }
  CG G; G.make(s.j.g, s.j.base, s.j.gaps, s.j.gs); OKCALL(G.build()); G.ro(); SCOTCH_Graph b; SCOTCH_graphInit(&b); OKCALL(SCOTCH_contextBindGraph(&cx.c, &G.g, &b));
  for (int k = 0; k < 2; k++) { OKCALL(run_job(s.j, &b, nullptr, out)); publish_v(k, out); }      // the second call starts from the random state left by the first
  SCOTCH_graphExit(&b); cx.exit(); G.wr(); G.exit();
}
WORKLOAD(C09, "det", 1, 4, setup, rmain, nullptr)
