// C20 and C21: threaded mapping, partitioning and ordering of centralized graphs and meshes.
#include "job.h"
namespace { struct S { Job j; int threads, det, rc, rounds; Num seed; }; }
static void common(S *s) { s->threads = 1 + cfg(5); s->det = cfg(3) == 2; s->rc = coin(); s->seed = cfg(1000); s->rounds = 1 + (cfg(6) == 5); sim_knobs.cores = 1 + cfg(6); sim_describe("thr=%d det=%d %s", s->threads, s->det, s->j.desc().c_str()); sim_state(s->j.kind * 64 + s->threads * 4 + s->j.smode); }
static void setup_map() { S *s = newshared<S>(); s->j = gen_job(J_PART, cfg(6) == 5 ? 400 : 120); common(s); }
static void setup_ovl() { S *s = newshared<S>(); s->j = gen_job(J_OVL, cfg(6) == 5 ? 300 : 100); common(s); }
static void setup_ord() { S *s = newshared<S>(); s->j = gen_job(J_ORDER, cfg(6) == 5 ? 400 : 150); common(s); }
static void setup_mesh() { S *s = newshared<S>(); s->j = gen_job(J_MESH, 80); common(s); }
static void rmain(int) {
  S &s = shared<S>(); SCOTCH_randomReset(); SCOTCH_randomSeed(s.seed); CX cx; OKCALL(cx.init(s.threads, s.det, s.rc, s.seed)); V out;
  if (s.j.kind == J_MESH) { CM M; M.make(s.j.m, s.j.base, s.j.gaps, s.j.gs); OKCALL(M.build()); OKCALL(SCOTCH_meshCheck(&M.m)); M.ro(); SCOTCH_Mesh b; SCOTCH_meshInit(&b); OKCALL(SCOTCH_contextBindMesh(&cx.c, &M.m, &b));
    for (int k = 0; k < s.rounds; k++) { OKCALL(run_job(s.j, nullptr, &b, out)); check_job(s.j, out); } SCOTCH_meshExit(&b); cx.exit(); M.wr(); M.exit(); return; }
  CG G; G.make(s.j.g, s.j.base, s.j.gaps, s.j.gs); OKCALL(G.build()); G.ro(); SCOTCH_Graph b; SCOTCH_graphInit(&b); OKCALL(SCOTCH_contextBindGraph(&cx.c, &G.g, &b));
  for (int k = 0; k < s.rounds; k++) { OKCALL(run_job(s.j, &b, nullptr, out)); check_job(s.j, out); }
  SCOTCH_graphExit(&b); cx.exit(); G.wr(); G.exit();
}
WORKLOAD(C20, "map", 3, 1, setup_map, rmain, nullptr)
WORKLOAD(C20, "overlap", 1, 1, setup_ovl, rmain, nullptr)
WORKLOAD(C21, "order", 3, 1, setup_ord, rmain, nullptr)
WORKLOAD(C21, "mesh", 1, 1, setup_mesh, rmain, nullptr)
