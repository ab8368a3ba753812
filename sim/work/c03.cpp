// C03: distributed coarsening.
#include "w.h"
namespace {
struct St { std::vector<DPiece> pc; std::vector<V> mult; std::vector<int> rc, grp, sub; std::vector<char> has; };
struct S { CommCfg cc; RG g; Dist d; uint64_t sd; Num fold, nomerge, seed; double ratio; Num minn; bool usermult, ctx; int threads, det, levels; std::vector<DPiece> fine; std::vector<St> st; bool dupc; };
}
static void setup() {
  S *s = newshared<S>(); s->cc = gen_comm(7); GenOpt o; o.maxn = 160; o.labels = true; s->g = gen_graph(o); s->d = gen_dist(s->g.n, s->cc.procs); s->sd = cfg(1 << 16); static const Num fl[] = {SCOTCH_COARSENNONE, SCOTCH_COARSENFOLD, SCOTCH_COARSENFOLDDUP}; s->fold = fl[cfg(3)]; s->nomerge = cfg(3) == 2 ? SCOTCH_COARSENNOMERGE : 0; s->seed = cfg(1000);
  static const double rr[] = {1.0, 0.8, 0.9, 0.6}; s->ratio = rr[cfg(4)]; s->minn = cfg(4) ? 1 : 1 + cfg(30); s->usermult = cfg(4) != 3; s->ctx = coin(); s->threads = 1 + cfg(3); s->det = coin(); s->levels = 1 + cfg(3); s->dupc = coin(); sim_knobs.cores = 1 + cfg(5);
  s->fine.resize(s->cc.procs); s->st.resize(s->levels); for (auto &t : s->st) { t.pc.resize(s->cc.procs); t.mult.resize(s->cc.procs); t.rc.assign(s->cc.procs, -1); t.grp.assign(s->cc.procs, -1); t.sub.assign(s->cc.procs, -1); t.has.assign(s->cc.procs, 0); }
  sim_describe("fold=%d nomerge=%d ratio=%g min=%d ctx=%d threads=%d det=%d levels=%d", s->fold, s->nomerge, s->ratio, s->minn, s->ctx, s->threads, s->det, s->levels);
}
static void rmain(int) {
  S &s = shared<S>(); mpi_begin(); WComm w; w.open(s.cc); if (!w.mine) { w.close(); mpi_end(); return; } SCOTCH_randomReset(); SCOTCH_randomSeed(s.seed); MPI_Comm c2 = MPI_COMM_NULL; if (s.dupc) MPI_Comm_dup(w.c, &c2);
  { DG D; OKCALL(D.make(s.g, s.d, w.rank, w.c, s.sd, false)); uint64_t h0 = D.hash(); D.ro(); D.edge.wr(); s.fine[w.rank] = dextract(&D.g); CX cx; SCOTCH_Dgraph *f = &D.g; std::vector<SCOTCH_Dgraph*> made; if (s.ctx) OKCALL(cx.init(s.threads, s.det, 0, s.seed));
    for (int l = 0; l < s.levels; l++) { St &t = s.st[l]; MPI_Comm fc; Num gn; SCOTCH_dgraphData(f, nullptr, &gn, nullptr, nullptr, nullptr, nullptr, nullptr, nullptr, nullptr, nullptr, nullptr, nullptr, nullptr, nullptr, nullptr, &fc);
      Num mx = SCOTCH_dgraphCoarsenVertLocMax(f, s.fold); SN mult; if (s.usermult) { mult.alloc(2 * (size_t)mx); mult.fill(-99); } SCOTCH_Dgraph *c = new SCOTCH_Dgraph; OKCALL(SCOTCH_dgraphInit(c, l == 0 && s.dupc ? c2 : fc)); sim_err_clear(sim_rank());
      int r; if (s.ctx) { SCOTCH_Dgraph b; OKCALL(SCOTCH_dgraphInit(&b, fc)); OKCALL(SCOTCH_contextBindDgraph(&cx.c, f, &b)); r = SCOTCH_dgraphCoarsen(&b, s.minn, s.ratio, s.fold | s.nomerge, c, mult.p); SCOTCH_dgraphExit(&b); } else r = SCOTCH_dgraphCoarsen(f, s.minn, s.ratio, s.fold | s.nomerge, c, mult.p);
      t.rc[w.rank] = r; if (sim_err_count(sim_rank())) sim_violation("call-failed", "SCOTCH_dgraphCoarsen returned %d: %s", r, sim_err_last(sim_rank()));
      if (r != 0) { SCOTCH_dgraphExit(c); delete c; break; }
      MPI_Comm cc; Num ln, ga; SCOTCH_dgraphData(c, nullptr, &ga, &ln, nullptr, nullptr, nullptr, nullptr, nullptr, nullptr, nullptr, nullptr, nullptr, nullptr, nullptr, nullptr, &cc); if (ga == 0) { t.rc[w.rank] = 2; SCOTCH_dgraphExit(c); delete c; break; } made.push_back(c); int k, z; MPI_Comm_rank(cc, &k); MPI_Comm_size(cc, &z); std::vector<int> all(z); int me = w.rank; MPI_Allgather(&me, 1, MPI_INT, all.data(), 1, MPI_INT, cc);
      t.grp[w.rank] = *std::min_element(all.begin(), all.end()); t.sub[w.rank] = k; t.has[w.rank] = 1; t.pc[w.rank] = dextract(c); if (s.usermult) { if (ln > mx) sim_violation("bad-multinode", "%d local coarse vertices, more than the announced maximum %d", ln, mx); t.mult[w.rank] = V(mult.p, mult.p + 2 * ln); }
      if (SCOTCH_dgraphCheck(c)) sim_violation("bad-coarse", "coarse graph fails its check: %s", sim_err_last(sim_rank()));
      f = c; }
    for (size_t i = made.size(); i-- > 0; ) { SCOTCH_dgraphExit(made[i]); delete made[i]; }
    cx.exit(); if (D.hash() != h0) sim_violation("input-changed", "arrays of the fine graph were changed"); D.exit(); D.wr(); }
  if (s.dupc) MPI_Comm_free(&c2); w.close(); mpi_end();
}
static void check() {
  S &s = shared<S>(); int P = s.cc.procs; std::string why;
  struct Lev { DWhole w; std::vector<DPiece> pc; std::vector<int> mem; }; 
  std::vector<Lev> prev; { Lev L; L.pc = s.fine; for (int i = 0; i < P; i++) L.mem.push_back(i); if (!assemble(L.pc, L.w, why)) sim_violation("bad-dgraph", "fine graph: %s", why.c_str()); prev.push_back(L); }
  for (int l = 0; l < s.levels; l++) { St &t = s.st[l]; std::vector<Lev> next;
    for (auto &F : prev) { std::map<int, std::vector<int>> grp; int n0 = 0, n1 = 0, n2 = 0; for (int m : F.mem) { if (t.rc[m] == 0) { grp[t.grp[m]].push_back(m); n0++; } else if (t.rc[m] == 1) n1++; else n2++; }
      int Q = (int)F.mem.size(); if (n1) { if (n0 || n2) sim_violation("no-agreement", "level %d: %d processes say the graph was coarsened, %d that it was not", l, n0, n1); sim_probe("notcoarsened"); continue; }
      if (n2 && (s.fold != SCOTCH_COARSENFOLD || Q < 2)) sim_violation("no-agreement", "level %d: %d processes failed", l, n2);
      size_t want = s.fold == SCOTCH_COARSENFOLDDUP && Q >= 2 ? 2 : 1; if (grp.size() != want) sim_violation("bad-fold", "level %d: %zu copies of the coarse graph instead of %zu", l, grp.size(), want);
      int half = Q - Q / 2; if (s.fold == SCOTCH_COARSENFOLD && Q >= 2) { if (n0 != half && n0 != Q / 2) sim_violation("bad-fold", "level %d: folded on %d of %d processes", l, n0, Q); }
      for (auto &x : grp) { Lev C; std::vector<int> o = x.second; std::sort(o.begin(), o.end(), [&](int a, int b) { return t.sub[a] < t.sub[b]; }); C.mem = o; for (int m : o) C.pc.push_back(t.pc[m]); if (!assemble(C.pc, C.w, why)) sim_violation("bad-coarse", "level %d: %s", l, why.c_str());
        if (C.w.g.n > F.w.g.n * s.ratio + 1e-9) sim_violation("bad-coarse", "level %d: %d coarse vertices, more than the ratio %g allows for %d", l, C.w.g.n, s.ratio, F.w.g.n);
        if (!C.w.g.vw && F.w.g.n != C.w.g.n) sim_violation("bad-coarse", "level %d: no vertex loads", l); if (C.pc[0].base != F.pc[0].base) sim_violation("bad-coarse", "level %d: base changed", l);
        int cn = C.w.g.n, fn = F.w.g.n; if (cn > fn || (double)cn > (double)fn * s.ratio) sim_violation("bad-coarse", "level %d: %d coarse vertices out of %d do not meet ratio %g", l, cn, fn, s.ratio);
        long a = F.w.g.velosum(), b = C.w.g.velosum(); if (a != b) sim_violation("bad-coarse", "level %d: vertex loads sum up to %ld instead of %ld", l, b, a);
        sim_probe(s.fold == SCOTCH_COARSENNONE ? "coarsened" : s.fold == SCOTCH_COARSENFOLD ? "folded" : "folded-dup");
        if (s.usermult) { std::vector<int> cof(fn, -1); V mt; for (int m : o) mt.insert(mt.end(), t.mult[m].begin(), t.mult[m].end()); Num base = F.pc[0].base; std::vector<int> A(cn), B(cn);
          auto dense = [&](Num x) -> int { x -= base; for (size_t q = 0; q < F.pc.size(); q++) if (x >= F.w.glb[q] && x < F.w.glb[q] + F.pc[q].vertlocnbr) return F.w.start[q] + x - F.w.glb[q]; return -1; };
          for (int i = 0; i < cn; i++) { int u = dense(mt[2 * i]), v = dense(mt[2 * i + 1]); if (u < 0 || v < 0) sim_violation("bad-multinode", "level %d: multinode %d holds %d and %d", l, i, mt[2 * i], mt[2 * i + 1]); A[i] = u; B[i] = v; for (int k = 0; k < (u == v ? 1 : 2); k++) { int y = k ? v : u; if (cof[y] >= 0) sim_violation("bad-multinode", "level %d: fine vertex %d is in two multinodes", l, y); cof[y] = i; }
            if (u != v && !F.w.g.edge(u, v)) { if (s.nomerge) sim_violation("bad-matching", "level %d: vertices %d and %d are merged although they are not neighbours and merging was forbidden", l, u, v); sim_probe("pair-with-isolated"); if (!F.w.g.adj[u].empty() && !F.w.g.adj[v].empty()) sim_violation("bad-matching", "level %d: vertices %d and %d are merged although both have neighbours and are not neighbours of each other", l, u, v); } }
          for (int y = 0; y < fn; y++) if (cof[y] < 0) sim_violation("bad-multinode", "level %d: fine vertex %d is in no multinode", l, y);
          RG q; q.n = cn; q.vw = q.ew = true; q.velo.assign(cn, 0); q.adj.assign(cn, {}); std::vector<std::map<int,Num>> m(cn); for (int v = 0; v < fn; v++) { q.velo[cof[v]] += F.w.g.w(v); for (auto &e : F.w.g.adj[v]) if (cof[e.first] != cof[v]) m[cof[v]][cof[e.first]] += e.second; } for (int i = 0; i < cn; i++) for (auto &y : m[i]) q.adj[i].push_back(y);
          char tt[64]; snprintf(tt, sizeof tt, "level %d: coarse graph is not the quotient of the fine graph", l); RG cg = C.w.g; cg.lb = false; viol_graph("bad-coarse", tt, q, cg); }
        next.push_back(C); } }
    prev = next; }
}
WORKLOAD(C03, "dcoarsen", 1, 1, setup, rmain, check)
ALSO07("dcoarsen", 1, setup, rmain)
