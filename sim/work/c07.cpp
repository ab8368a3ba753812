// C07: sequences of parallel calls without any synchronisation of the caller in between, and calls that must be refused on all processes.
#include "w.h"
#include "strat.h"
namespace { enum { GHST, HALO, CHECK, STAT, GATHER, REDIST, INDUCE, COARSE, ORDER, MAP, BAND, GROW, SAVE, SCATTER, VIEW, NOP }; struct Op { int k, a, b; uint64_t sd; Num f; std::string s; };
struct S { CommCfg cc; RG g; Dist d; uint64_t sd; std::vector<Op> ops; bool ctx; int threads, det, two; int kind, who, arg; std::vector<int> rc; }; }
static void setup_chain() {
  S *s = newshared<S>(); s->cc = gen_comm(7); GenOpt o; o.maxn = 120; o.empty = false; o.minn = 1; s->g = gen_graph(o); s->d = gen_dist(s->g.n, s->cc.procs); s->d.gaps = false; s->sd = cfg(1 << 16); s->ctx = coin(); s->threads = 1 + cfg(3); s->det = coin(); s->two = cfg(4) == 3; int n = 2 + cfg(4); std::string ds;
  for (int i = 0; i < n; i++) { Op p; p.k = cfg(NOP); p.a = cfg(8); p.b = cfg(4); p.sd = cfg(1 << 14); LR r(91 + p.sd); if (p.k == ORDER) p.s = st_dord(r); if (p.k == MAP || p.k == VIEW) p.s = st_dmap(r); static const Num fl[] = {SCOTCH_COARSENNONE, SCOTCH_COARSENFOLD, SCOTCH_COARSENFOLDDUP, SCOTCH_COARSENNOMERGE}; p.f = fl[p.b]; s->ops.push_back(p); char t[40]; snprintf(t, sizeof t, " %d.%d.%d", p.k, p.a, p.b); ds += t; }
  sim_knobs.cores = 1 + cfg(4); sim_describe("ctx=%d thr=%d det=%d two=%d ops:%s", s->ctx, s->threads, s->det, s->two, ds.c_str());
}
static const char *nm(char *b, const char *p, int i, int r, int lane) { sprintf(b, "%s%d.%d.%d", p, i, r, lane); return b; }
static void play(S &s, SCOTCH_Dgraph *f, DG &D, WComm &w, int lane) {
  char fn[64]; Num b = s.d.base, ln = D.ln, n = s.g.n; int i = 0;
  for (auto &p : s.ops) { i++; if (lane) p.k = (p.k + 3) % NOP; switch (p.k) {
    case GHST: OKCALL(SCOTCH_dgraphGhst(f)); break;
    case HALO: { OKCALL(SCOTCH_dgraphGhst(f)); Num gs; SCOTCH_dgraphData(f, nullptr, nullptr, nullptr, nullptr, &gs, nullptr, nullptr, nullptr, nullptr, nullptr, nullptr, nullptr, nullptr, nullptr, nullptr, nullptr); SN a((size_t)gs), c((size_t)gs); a.fill(1); c.fill(2); if (p.a & 1) { SCOTCH_DgraphHaloReq q; OKCALL(SCOTCH_dgraphHaloAsync(f, a.p, SCOTCH_NUM_MPI, &q)); if (!s.ctx) MPI_Barrier(w.c); OKCALL(SCOTCH_dgraphHaloWait(&q)); } OKCALL(SCOTCH_dgraphHalo(f, c.p, SCOTCH_NUM_MPI)); break; }
    case CHECK: OKCALL(SCOTCH_dgraphCheck(f)); break;
    case STAT: { Num vmn, vmx, vsm, dmn, dmx, emn, emx, esm; double va, vd, da, dd, ea, ed; OKCALL(SCOTCH_dgraphStat(f, &vmn, &vmx, &vsm, &va, &vd, &dmn, &dmx, &da, &dd, &emn, &emx, &esm, &ea, &ed)); break; }
    case GATHER: { bool all = p.a == 7, me = all || p.a % w.size == w.rank; SCOTCH_Graph c; if (me) SCOTCH_graphInit(&c); OKCALL(SCOTCH_dgraphGather(f, me ? &c : nullptr)); if (me) SCOTCH_graphExit(&c); break; }
    case REDIST: { SN pt((size_t)ln); LR r(p.sd + w.rank); for (int k = 0; k < ln; k++) pt[k] = r.below(w.size); SCOTCH_Dgraph o; OKCALL(SCOTCH_dgraphInit(&o, w.c)); OKCALL(SCOTCH_dgraphRedist(f, pt.p, nullptr, -1, -1, &o)); SCOTCH_dgraphExit(&o); break; }
    case INDUCE: { SN pt((size_t)ln); LR r(p.sd + w.rank); Num k1 = 0; for (int k = 0; k < ln; k++) { pt[k] = r.below(2); k1 += pt[k] == 1; } SCOTCH_Dgraph o; OKCALL(SCOTCH_dgraphInit(&o, w.c)); OKCALL(SCOTCH_dgraphInducePart(f, pt.p, 1, p.a & 1 ? k1 : -1, &o)); SCOTCH_dgraphExit(&o); break; }
    case COARSE: { Num mx = SCOTCH_dgraphCoarsenVertLocMax(f, p.f & ~SCOTCH_COARSENNOMERGE); SN mu(2 * (size_t)mx); SCOTCH_Dgraph o; OKCALL(SCOTCH_dgraphInit(&o, w.c)); sim_err_clear(sim_rank()); int r = SCOTCH_dgraphCoarsen(f, 1 + p.a, 0.9, p.f, &o, mu.p); s.rc[lane * 16 + w.rank] = r; SCOTCH_dgraphExit(&o); break; }
    case ORDER: { SCOTCH_Strat st; OKCALL(SCOTCH_stratInit(&st)); if (p.a & 1) OKCALL(SCOTCH_stratDgraphOrder(&st, p.s.c_str())); SCOTCH_Dordering o; OKCALL(SCOTCH_dgraphOrderInit(f, &o)); OKCALL(SCOTCH_dgraphOrderCompute(f, &o, &st)); SN pt((size_t)ln); OKCALL(SCOTCH_dgraphOrderPerm(f, &o, pt.p)); if (p.a & 2) { bool me = p.b % w.size == w.rank; SCOTCH_Ordering c; SN cp((size_t)n); Num cb; if (me) OKCALL(SCOTCH_dgraphCorderInit(f, &c, cp.p, nullptr, &cb, nullptr, nullptr)); OKCALL(SCOTCH_dgraphOrderGather(f, &o, me ? &c : nullptr)); if (me) SCOTCH_dgraphCorderExit(f, &c); } if (p.a & 4) { FILE *h = p.b % w.size == w.rank ? sim_fopen(nm(fn, "o", i, w.rank, lane), "w") : nullptr; if (p.b & 2) OKCALL(SCOTCH_dgraphOrderSave(f, &o, h)); else OKCALL(SCOTCH_dgraphOrderSaveTree(f, &o, h)); if (h) fclose(h); } SCOTCH_dgraphOrderExit(f, &o); SCOTCH_stratExit(&st); break; }
    case MAP: case VIEW: { SCOTCH_Strat st; OKCALL(SCOTCH_stratInit(&st)); if (p.a & 1) OKCALL(SCOTCH_stratDgraphMap(&st, p.s.c_str())); SCOTCH_Arch ar; OKCALL(SCOTCH_archInit(&ar)); OKCALL(SCOTCH_archCmplt(&ar, 2 + p.b)); SN pt((size_t)ln); pt.fill(0); SCOTCH_Dmapping m; OKCALL(SCOTCH_dgraphMapInit(f, &m, &ar, pt.p)); OKCALL(SCOTCH_dgraphMapCompute(f, &m, &st)); bool me = p.a % w.size == w.rank; FILE *h = me ? sim_fopen(nm(fn, "m", i, w.rank, lane), "w") : nullptr; if (p.k == MAP) OKCALL(SCOTCH_dgraphMapSave(f, &m, h)); else OKCALL(SCOTCH_dgraphMapView(f, &m, h)); if (h) fclose(h); SCOTCH_dgraphMapExit(f, &m); SCOTCH_archExit(&ar); SCOTCH_stratExit(&st); break; }
    case BAND: { SN fr((size_t)ln); Num k = 0; if (ln && (p.a & 1)) { fr[0] = b; k = 1; } SCOTCH_Dgraph o; OKCALL(SCOTCH_dgraphInit(&o, w.c)); OKCALL(SCOTCH_dgraphBand(f, k, fr.p, 1 + p.b, &o)); SCOTCH_dgraphExit(&o); break; }
    case GROW: { Num gs; OKCALL(SCOTCH_dgraphGhst(f)); SCOTCH_dgraphData(f, nullptr, nullptr, nullptr, nullptr, &gs, nullptr, nullptr, nullptr, nullptr, nullptr, nullptr, nullptr, nullptr, nullptr, nullptr, nullptr); SN q((size_t)ln), pt((size_t)gs); pt.fill(-1); Num k = 0; if (ln && (p.a & 1)) { q[0] = b; pt[0] = w.rank; k = 1; } OKCALL(SCOTCH_dgraphGrow(f, k, q.p, 1 + p.b, pt.p)); break; }
    case SAVE: { FILE *h = sim_fopen(nm(fn, "g", i, w.rank, lane), "w+"); OKCALL(SCOTCH_dgraphSave(f, h)); if (p.a & 1) { rewind(h); SCOTCH_Dgraph o; OKCALL(SCOTCH_dgraphInit(&o, w.c)); OKCALL(SCOTCH_dgraphLoad(&o, h, -1, 0)); SCOTCH_dgraphExit(&o); } fclose(h); break; }
    case SCATTER: { bool me = p.a % w.size == w.rank; CG C; if (me) { C.make(s.g, b, p.a & 1, p.sd); OKCALL(C.build()); } SCOTCH_Dgraph o; OKCALL(SCOTCH_dgraphInit(&o, w.c)); OKCALL(SCOTCH_dgraphScatter(&o, me ? &C.g : nullptr)); SCOTCH_dgraphExit(&o); if (me) C.exit(); break; }
  } }
}
struct Lane { S *s; SCOTCH_Dgraph *f; DG *D; WComm *w; };
static void lane2(void *a) { Lane *l = (Lane*)a; S t = *l->s; t.rc.assign(32, 0); play(t, l->f, *l->D, *l->w, 1); }
static void main_chain(int) {
  S &s = shared<S>(); mpi_begin(); WComm w; w.open(s.cc); if (!w.mine) { w.close(); mpi_end(); return; } if (w.rank == 0) s.rc.assign(32, 0); MPI_Comm c2; MPI_Comm_dup(w.c, &c2);
  { DG D, E; OKCALL(D.make(s.g, s.d, w.rank, w.c, s.sd, false)); WComm v = w; v.c = c2; if (s.two) OKCALL(E.make(s.g, s.d, w.rank, c2, s.sd, false)); CX cx; SCOTCH_Dgraph bd, *f = &D.g; if (s.ctx) { OKCALL(cx.init(s.threads, s.det, 0, 0)); OKCALL(SCOTCH_dgraphInit(&bd, w.c)); OKCALL(SCOTCH_contextBindDgraph(&cx.c, &D.g, &bd)); f = &bd; }
    Lane l{&s, &E.g, &E, &v}; SimThread *t = s.two ? sim_spawn(lane2, &l) : nullptr; play(s, f, D, w, 0); if (t) sim_join(t); sim_probe("sequences"); if (s.ctx) { SCOTCH_dgraphExit(&bd); cx.exit(); } D.exit(); if (s.two) E.exit(); }
  MPI_Comm_free(&c2); w.close(); mpi_end();
}
static void setup_chain_07() { sim_knobs.runtime_only = 1; setup_chain(); }
WORKLOAD(C07, "sequence", 4, 1, setup_chain_07, main_chain, nullptr)

// ---- calls that must be refused by all processes
enum { R_GATHER, R_SCATTER, R_STREAMS, R_BUILD, R_LABEL, R_STRATO, R_STRATM, R_CONGR, R_ARCH, R_N };
static const char *RN[] = {"gather-roots", "scatter-roots", "streams", "build-arrays", "label", "order-strategy", "map-strategy", "communicator", "architecture"};
static void setup_ref() {
  S *s = newshared<S>(); s->cc = gen_comm(7); GenOpt o; o.maxn = 60; o.empty = false; o.minn = 2; s->g = gen_graph(o); s->d = gen_dist(s->g.n, s->cc.procs); s->d.gaps = false; s->sd = cfg(1 << 16); s->kind = cfg(R_N); s->who = cfg(s->cc.procs); s->arg = cfg(8); s->rc.assign(16, 0); sim_knobs.runtime_only = 1; sim_describe("refuse %s who=%d arg=%d", RN[s->kind], s->who, s->arg); sim_state(s->kind * 8 + s->arg);
}
static void main_ref(int) {
  S &s = shared<S>(); mpi_begin(); WComm w; w.open(s.cc); if (!w.mine) { w.close(); mpi_end(); return; } int rc = 1, want = -1; bool hit = w.rank == s.who; Num ln = 0;
  { DG D; OKCALL(D.make(s.g, s.d, w.rank, w.c, s.sd, false)); ln = D.ln; char fn[64];
    switch (s.kind) {
      case R_GATHER: { int k = s.arg % (w.size + 1); if (k == 1 || k == w.size) k = 0; bool me = (w.rank + s.who) % w.size < k; SCOTCH_Graph c; if (me) SCOTCH_graphInit(&c); rc = SCOTCH_dgraphGather(&D.g, me ? &c : nullptr); if (me) SCOTCH_graphExit(&c); want = 1; break; }
      case R_SCATTER: { int k = s.arg % (w.size + 1); if (k == 1) k = 0; bool me = (w.rank + s.who) % w.size < k; CG C; if (me) { C.make(s.g, s.d.base, s.arg & 1, s.sd); OKCALL(C.build()); } SCOTCH_Dgraph o; OKCALL(SCOTCH_dgraphInit(&o, w.c)); rc = SCOTCH_dgraphScatter(&o, me ? &C.g : nullptr); SCOTCH_dgraphExit(&o); if (me) C.exit(); want = 1; break; }
      case R_STREAMS: { bool dist = s.arg & 1; int k = s.arg % (w.size + 1); if (k == w.size || (k == 1 && !dist)) k = 0; if (dist) { FILE *h = sim_fopen(nm(fn, "g", 0, w.rank, 0), "w"); OKCALL(SCOTCH_dgraphSave(&D.g, h)); fclose(h); } else if (w.rank == 0) { CG C; C.make(s.g, s.d.base, 0, 1); OKCALL(C.build()); FILE *h = sim_fopen("c", "w"); OKCALL(SCOTCH_graphSave(&C.g, h)); fclose(h); C.exit(); } MPI_Barrier(w.c); bool me = (w.rank + s.who) % w.size < k; FILE *h = me ? sim_fopen(dist ? nm(fn, "g", 0, w.rank, 0) : "c", "r") : nullptr; SCOTCH_Dgraph o; OKCALL(SCOTCH_dgraphInit(&o, w.c)); rc = SCOTCH_dgraphLoad(&o, h, -1, 0); SCOTCH_dgraphExit(&o); if (h) fclose(h); want = 1; break; }
      case R_BUILD: { if (w.size < 2) { want = -2; break; } DG E; Num b = s.d.base; SCOTCH_Dgraph o; OKCALL(SCOTCH_dgraphInit(&o, w.c)); SN vt((size_t)ln + 1), dum((size_t)ln + 1), et(1), ew(1); for (int i = 0; i <= ln; i++) { vt[i] = b; dum[i] = 1; } Num bb = b, *ve = nullptr, *ed = nullptr, *gs = nullptr; if (hit) switch (s.arg % 3) { case 0: bb = 1 - b; for (int i = 0; i <= ln; i++) vt[i] = bb; break; case 1: ve = dum.p; break; default: ed = ew.p; } rc = SCOTCH_dgraphBuild(&o, bb, ln, ln, vt.p, nullptr, ve, nullptr, 0, 0, et.p, gs, ed); SCOTCH_dgraphExit(&o); want = 1; break; }
      case R_LABEL: { Num b = s.d.base, tot = s.g.n, lo = s.d.start[w.rank]; bool loc = s.arg & 1; SCOTCH_Dgraph o; OKCALL(SCOTCH_dgraphInit(&o, w.c)); SN vt((size_t)ln + 1), lb((size_t)ln), et(1); for (int i = 0; i <= ln; i++) vt[i] = b; for (int i = 0; i < ln; i++) lb[i] = b + lo + i; int v = -1; for (int p = 0, c = 0; p < w.size; p++) if (s.d.start[p + 1] - s.d.start[p] >= 2 && c++ == 0) v = p; (void)loc; (void)tot; if (v < 0) { want = -2; SCOTCH_dgraphExit(&o); break; } if (w.rank == v) lb[1] = lb[0]; rc = SCOTCH_dgraphBuild(&o, b, ln, ln, vt.p, nullptr, nullptr, lb.p, 0, 0, et.p, nullptr, nullptr); SCOTCH_dgraphExit(&o); want = 1; break; }
      case R_STRATO: { SCOTCH_Strat st; OKCALL(SCOTCH_stratInit(&st)); OKCALL(SCOTCH_stratDgraphMap(&st, "r")); SCOTCH_Dordering o; OKCALL(SCOTCH_dgraphOrderInit(&D.g, &o)); rc = SCOTCH_dgraphOrderCompute(&D.g, &o, &st); SCOTCH_dgraphOrderExit(&D.g, &o); SCOTCH_stratExit(&st); want = 1; break; }
      case R_STRATM: { SCOTCH_Strat st; OKCALL(SCOTCH_stratInit(&st)); OKCALL(SCOTCH_stratDgraphOrder(&st, "s")); SN pt((size_t)ln); rc = SCOTCH_dgraphPart(&D.g, 3, &st, pt.p); SCOTCH_stratExit(&st); want = 1; break; }
      case R_CONGR: { if (w.size < 2) { want = -2; break; } MPI_Comm x; MPI_Comm_split(w.c, 0, w.size - w.rank, &x); SCOTCH_Dgraph o; OKCALL(SCOTCH_dgraphInit(&o, x)); SN pt((size_t)ln + 1); pt.fill(0); if (s.arg % 3 == 0) rc = SCOTCH_dgraphRedist(&D.g, pt.p, nullptr, -1, -1, &o); else if (s.arg % 3 == 1) rc = SCOTCH_dgraphInducePart(&D.g, pt.p, 0, -1, &o); else { SN mu(2 * (size_t)SCOTCH_dgraphCoarsenVertLocMax(&D.g, 0)); rc = SCOTCH_dgraphCoarsen(&D.g, 1, 0.9, 0, &o, mu.p); } SCOTCH_dgraphExit(&o); MPI_Comm_free(&x); want = 1; break; }
      case R_ARCH: { SCOTCH_Arch a; OKCALL(SCOTCH_archInit(&a)); OKCALL(s.arg & 1 ? SCOTCH_archHcub(&a, 2) : SCOTCH_archMesh2(&a, 2, 2)); SCOTCH_Strat st; OKCALL(SCOTCH_stratInit(&st)); SN pt((size_t)ln); pt.fill(0); rc = SCOTCH_dgraphMap(&D.g, &a, &st, pt.p); SCOTCH_stratExit(&st); SCOTCH_archExit(&a); break; }
    }
    if (want == 1 && rc == 0) sim_violation("status-accepted", "a call that had to be refused (%s) succeeded on process %d", RN[s.kind], w.rank);
    s.rc[w.rank] = rc != 0; sim_probe(RN[s.kind]); if (rc != 0 && want != -2) sim_probe("refused-calls");
    MPI_Barrier(w.c); for (int p = 0; p < w.size; p++) if (s.rc[p] != s.rc[0]) sim_violation("status-differs", "%s: process 0 returned %d and process %d returned %d", RN[s.kind], s.rc[0], p, s.rc[p]);
    // the communicator and the graph are still usable
    if (SCOTCH_dgraphCheck(&D.g) != 0) sim_violation("status-after", "graph check fails after a refused call (%s)", RN[s.kind]);
    { Num gs; if (SCOTCH_dgraphGhst(&D.g)) sim_violation("status-after", "ghost computation fails after a refused call (%s)", RN[s.kind]); SCOTCH_dgraphData(&D.g, nullptr, nullptr, nullptr, nullptr, &gs, nullptr, nullptr, nullptr, nullptr, nullptr, nullptr, nullptr, nullptr, nullptr, nullptr, nullptr); SN a((size_t)gs); for (int i = 0; i < ln; i++) a[i] = 5; if (SCOTCH_dgraphHalo(&D.g, a.p, SCOTCH_NUM_MPI)) sim_violation("status-after", "halo exchange fails after a refused call (%s)", RN[s.kind]); for (Num i = 0; i < gs; i++) if (a[i] != 5) sim_violation("status-after", "halo exchange is wrong after a refused call (%s)", RN[s.kind]); }
    D.exit(); }
  w.close(); mpi_end();
}
WORKLOAD(C07, "refuse", 2, 1, setup_ref, main_ref, nullptr)
