// C08: with the deterministic option, parallel results do not depend on message timing or thread interleaving. Member 0 runs without schedule exploration and is the reference.
#include "job.h"
namespace { enum { K_COARSE, K_ORDER, K_MAP, K_BAND, K_GROW }; struct S { CommCfg cc; RG g; Dist d; uint64_t sd; int kind, mode, threads, rc, rounds; Num seed, flags, fold, nomerge, minn, parts, levl; double ratio, bal; std::string str; ArchSpec a; }; }
static void setup_dd() {
  S *s = newshared<S>(); static const int kk[] = {K_COARSE, K_ORDER, K_MAP, K_ORDER, K_MAP, K_BAND, K_GROW}; s->kind = kk[cfg(7)]; s->cc = gen_comm(7); GenOpt o; o.maxn = cfg(3) == 2 ? 220 : 110; o.empty = false; o.minn = 1; o.zerow = cfg(4) == 3; s->g = gen_graph(o); s->d = gen_dist(s->g.n, s->cc.procs); if (s->kind == K_ORDER) s->d.gaps = false; s->sd = cfg(1 << 16); s->mode = cfg(6); s->threads = 1 + cfg(3); s->rc = coin(); s->rounds = 1 + (cfg(4) == 3); s->seed = cfg(1000);
  static const Num fl[] = {SCOTCH_COARSENNONE, SCOTCH_COARSENFOLD, SCOTCH_COARSENFOLDDUP}; s->fold = fl[cfg(3)]; s->nomerge = cfg(3) == 2 ? SCOTCH_COARSENNOMERGE : 0; static const double rr[] = {1.0, 0.8, 0.9}; s->ratio = rr[cfg(3)]; s->minn = cfg(4) ? 1 : 1 + cfg(30);
  static const Num of[] = {0, SCOTCH_STRATLEVELMAX, SCOTCH_STRATLEVELMIN, SCOTCH_STRATLEAFSIMPLE, SCOTCH_STRATSPEED, SCOTCH_STRATQUALITY}; static const Num mf[] = {0, SCOTCH_STRATQUALITY, SCOTCH_STRATSPEED, SCOTCH_STRATBALANCE, SCOTCH_STRATSAFETY, SCOTCH_STRATSCALABILITY}; int fi = cfg(6); s->flags = s->kind == K_ORDER ? of[fi] : mf[fi]; s->levl = cfg(5); static const double bb[] = {0.05, 0.01, 0.2, 1.0}; s->bal = bb[cfg(4)];
  LR r(277 + cfg(1 << 14)); s->str = s->kind == K_ORDER ? st_dord(r) : st_dmap(r); s->parts = 1 + r.below(r.chance(1, 4) ? 20 : 7); s->a.t = 0; s->a.n = s->parts; s->a.p = {s->parts};
  sim_knobs.cores = 1 + cfg(4); sim_knobs.sched = sim_member() != 0; sim_knobs.canon_reduce = 1;
  sim_describe("kind=%d mode=%d flags=%d fold=%d nomerge=%d ratio=%g min=%d parts=%d thr=%d rc=%d rounds=%d strat=%s", s->kind, s->mode, s->flags, s->fold, s->nomerge, s->ratio, s->minn, s->parts, s->threads, s->rc, s->rounds, s->mode >= 2 ? s->str.c_str() : ""); sim_state(s->kind * 64 + s->mode * 8 + s->fold);
}
static void rmain(int) {
  S &s = shared<S>(); mpi_begin(); WComm w; w.open(s.cc); if (!w.mine) { w.close(); mpi_end(); return; }
  SCOTCH_randomReset(); SCOTCH_randomSeed(s.seed);
  { DG D; OKCALL(D.make(s.g, s.d, w.rank, w.c, s.sd, false)); D.ro(); D.edge.wr(); CX cx; OKCALL(cx.init(s.threads, 1, s.rc, s.seed)); SCOTCH_Dgraph bd; OKCALL(SCOTCH_dgraphInit(&bd, w.c)); OKCALL(SCOTCH_contextBindDgraph(&cx.c, &D.g, &bd)); SCOTCH_Dgraph *f = &bd;
    for (int k = 0; k < s.rounds; k++) { V out;
      if (s.kind == K_COARSE) { Num mx = SCOTCH_dgraphCoarsenVertLocMax(f, s.fold); SN mult(2 * (size_t)mx); mult.fill(-99); SCOTCH_Dgraph c; OKCALL(SCOTCH_dgraphInit(&c, w.c)); sim_err_clear(sim_rank()); int r = SCOTCH_dgraphCoarsen(f, s.minn, s.ratio, s.fold | s.nomerge, &c, mult.p); if (sim_err_count(sim_rank())) sim_violation("call-failed", "SCOTCH_dgraphCoarsen returned %d: %s", r, sim_err_last(sim_rank()));
        out.push_back(r); if (r == 0) { Num ln, ga; SCOTCH_dgraphData(&c, nullptr, &ga, &ln, nullptr, nullptr, nullptr, nullptr, nullptr, nullptr, nullptr, nullptr, nullptr, nullptr, nullptr, nullptr, nullptr); out.push_back(ga); if (ga > 0) { DPiece p = dextract(&c); out.push_back(ln); for (int i = 0; i < ln; i++) { out.push_back(mult[2 * i]); out.push_back(mult[2 * i + 1]); out.push_back(p.vw ? p.velo[i] : 1); auto a = p.adj[i]; std::sort(a.begin(), a.end()); for (auto &e : a) { out.push_back(e.first); out.push_back(e.second); } } sim_probe("coarsened"); } } SCOTCH_dgraphExit(&c); }
      else if (s.kind == K_BAND || s.kind == K_GROW) { LR r(s.sd + 5); int den = 2 + (int)r.below(20); Num dist = 1 + s.parts % 4, b = s.d.base, kn = 0; SN fron((size_t)D.ln); fron.fill(-8); V col((size_t)s.g.n, -1); for (int i = 0; i < s.g.n; i++) if (r.chance(1, den)) { col[i] = r.below(5); if (i >= D.lo && i < D.lo + D.ln) fron[kn++] = i - D.lo + b; }
        if (s.kind == K_GROW) { OKCALL(SCOTCH_dgraphGhst(f)); Num gst; SCOTCH_dgraphData(f, nullptr, nullptr, nullptr, nullptr, &gst, nullptr, nullptr, nullptr, nullptr, nullptr, nullptr, nullptr, nullptr, nullptr, nullptr, nullptr); SN part((size_t)std::max<Num>(gst, D.ln)); part.fill(-1); for (int i = 0; i < D.ln; i++) part[i] = col[D.lo + i]; OKCALL(SCOTCH_dgraphGrow(f, kn, fron.p, dist, part.p)); out = V(part.p, part.p + D.ln); sim_probe("grown"); }
        else { SCOTCH_Dgraph c; OKCALL(SCOTCH_dgraphInit(&c, w.c)); OKCALL(SCOTCH_dgraphBand(f, kn, fron.p, dist, &c)); DPiece p = dextract(&c); out.push_back(p.vertglbnbr); for (size_t i = 0; i < p.adj.size(); i++) { out.push_back(p.vlbl.size() > i ? p.vlbl[i] : -1); for (auto &e : p.adj[i]) { out.push_back(e.first); out.push_back(e.second); } } SCOTCH_dgraphExit(&c); sim_probe("band"); } }
      else { SCOTCH_Strat st; OKCALL(SCOTCH_stratInit(&st)); SN pt((size_t)D.ln); pt.fill(-9);
        if (s.kind == K_ORDER) { if (s.mode == 1) OKCALL(SCOTCH_stratDgraphOrderBuild(&st, s.flags, w.size, s.levl, 0.2)); else if (s.mode >= 2) OKCALL(SCOTCH_stratDgraphOrder(&st, s.str.c_str())); SCOTCH_Dordering od; OKCALL(SCOTCH_dgraphOrderInit(f, &od)); OKCALL(SCOTCH_dgraphOrderCompute(f, &od, &st)); OKCALL(SCOTCH_dgraphOrderPerm(f, &od, pt.p)); SCOTCH_dgraphOrderExit(f, &od); sim_probe("ordered"); }
        else { if (s.mode == 1) OKCALL(SCOTCH_stratDgraphMapBuild(&st, s.flags, w.size, s.parts, s.bal)); else if (s.mode >= 2) OKCALL(SCOTCH_stratDgraphMap(&st, s.str.c_str())); OKCALL(SCOTCH_dgraphPart(f, s.parts, &st, pt.p)); sim_probe("mapped"); }
        SCOTCH_stratExit(&st); out = pt.vec(); }
      publish_v(k + 1000 * w.rank, out); }
    SCOTCH_dgraphExit(&bd); cx.exit(); D.exit(); D.wr(); }
  w.close(); mpi_end();
}
WORKLOAD(C08, "ddet", 1, 3, setup_dd, rmain, nullptr)
