// C01: scatter, gather, redistribution, load and save of distributed graphs.
#include "w.h"
namespace {
enum { BUILD, SCATTER, LOADC, LOADD, GRID3, NSRC };
enum { REDIST, REDISTP, GATHER1, GATHERALL, SAVELOAD, GHST, CHECK, NOP };
struct Ph { int op; int root; uint64_t sd; Num vd, ed; std::vector<DPiece> pc; std::vector<RG> gath; std::vector<char> has; Num gbase; std::vector<std::vector<Num>> part; bool done = false; };
struct S { CommCfg cc; RG g; Dist d; int src, root; uint64_t sd; std::vector<Ph> ph; Num loadbase; Num flag; Num dx, dy, dz, opt; Num base; bool ghost; };
}
static RG grid3(Num X, Num Y, Num Z, Num opt) {
  RG g; g.n = X * Y * Z; g.adj.assign(g.n, {}); bool torus = opt & 2, n26 = opt & 1; auto id = [&](int x, int y, int z) { return (z * Y + y) * X + x; };
  for (int z = 0; z < Z; z++) for (int y = 0; y < Y; y++) for (int x = 0; x < X; x++) { std::set<int> nb; for (int a = -1; a <= 1; a++) for (int b = -1; b <= 1; b++) for (int c = -1; c <= 1; c++) { if (!n26 && abs(a) + abs(b) + abs(c) != 1) continue; int i = x + a, j = y + b, k = z + c; if (torus) { i = (i + X) % X; j = (j + Y) % Y; k = (k + Z) % Z; } if (i < 0 || j < 0 || k < 0 || i >= X || j >= Y || k >= Z) continue; int o = id(i, j, k); if (o != id(x, y, z)) nb.insert(o); } for (int o : nb) g.adj[id(x, y, z)].push_back({o, 1}); }
  return g;
}
static void setup() {
  S *s = newshared<S>(); s->cc = gen_comm(6); s->src = cfg(NSRC); GenOpt o; o.maxn = 150; o.labels = s->src != GRID3; 
  if (s->src == GRID3) { s->dx = 1 + cfg(6); s->dy = 1 + cfg(5); s->dz = 1 + cfg(4); s->opt = cfg(4); s->g = grid3(s->dx, s->dy, s->dz, s->opt); sim_describe("grid %dx%dx%d opt %d; ", s->dx, s->dy, s->dz, s->opt); } else { s->g = gen_graph(o); }
  s->d = gen_dist(s->g.n, s->cc.procs); s->base = s->d.base; s->root = cfg(s->cc.procs); s->sd = cfg(1 << 16); s->ghost = coin(); s->loadbase = cfg(3) - 1; s->flag = cfg(8) == 7 ? cfg(4) : 0; s->ph.reserve(8);
  int k = 1 + cfg(4); for (int i = 0; i < k; i++) { Ph p; p.op = cfg(7); p.root = cfg(s->cc.procs); p.sd = cfg(1 << 16); p.vd = cfg(3) == 2 ? cfg(4) : 0; p.ed = cfg(3) == 2 ? cfg(9) : 0; s->ph.push_back(p); }
  for (auto &p : s->ph) { p.pc.resize(s->cc.procs); p.gath.resize(s->cc.procs); p.has.assign(s->cc.procs, 0); p.part.resize(s->cc.procs); }
  { Ph p; p.op = NOP; p.pc.resize(s->cc.procs); s->ph.insert(s->ph.begin(), p); }
  sim_io.rdchunk = cfg(3) == 2 ? 1 + cfg(40) : 0; sim_io.wrchunk = cfg(3) == 2 ? 1 + cfg(40) : 0; sim_describe("src=%d ops=", s->src); for (auto &p : s->ph) sim_describe("%d", p.op);
}
static void rmain(int) {
  S &s = shared<S>(); mpi_begin(); WComm w; w.open(s.cc); if (!w.mine) { w.close(); mpi_end(); return; }
  int r = w.rank; char fn[64]; SCOTCH_randomReset();
  { DG D; SCOTCH_Dgraph cur; uint64_t h0 = 0; 
    if (s.src == BUILD) { D.init(w.c); OKCALL(D.make(s.g, s.d, r, w.c, s.sd, s.ghost)); D.ro(); D.edge.wr(); h0 = D.hash(); memcpy(&cur, &D.g, sizeof cur); }
    else if (s.src == SCATTER || s.src == LOADC) { OKCALL(SCOTCH_dgraphInit(&cur, w.c)); 
      if (s.src == SCATTER) { if (r == s.root) { CG G; G.make(s.g, s.base, s.d.gaps, s.sd); OKCALL(G.build()); G.ro(); OKCALL(SCOTCH_dgraphScatter(&cur, &G.g)); G.wr(); G.exit(); } else OKCALL(SCOTCH_dgraphScatter(&cur, nullptr)); }
      else { FILE *f = nullptr; if (r == s.root) { CG G; G.make(s.g, s.base, s.d.gaps, s.sd); OKCALL(G.build()); f = sim_fopen("cent", "w"); OKCALL(SCOTCH_graphSave(&G.g, f)); fclose(f); G.exit(); f = sim_fopen("cent", "r"); } OKCALL(SCOTCH_dgraphLoad(&cur, f, s.loadbase, s.flag)); if (f) fclose(f); } }
    else if (s.src == LOADD) { D.init(w.c); OKCALL(D.make(s.g, s.d, r, w.c, s.sd)); snprintf(fn, sizeof fn, "d%d", r); FILE *f = sim_fopen(fn, "w"); OKCALL(SCOTCH_dgraphSave(&D.g, f)); fclose(f); SCOTCH_dgraphExit(&D.g); D.inited = false; OKCALL(SCOTCH_dgraphInit(&cur, w.c)); f = sim_fopen(fn, "r"); OKCALL(SCOTCH_dgraphLoad(&cur, f, s.loadbase, s.flag)); fclose(f); }
    else { OKCALL(SCOTCH_dgraphInit(&cur, w.c)); OKCALL(SCOTCH_dgraphBuildGrid3D(&cur, s.base, s.dx, s.dy, s.dz, 1, s.opt)); }
    D.inited = false; bool own = s.src == BUILD;
    s.ph[0].pc[r] = dextract(&cur);
    for (size_t k = 1; k < s.ph.size(); k++) { Ph &p = s.ph[k]; int ln = s.ph[k - 1].pc[r].vertlocnbr;
      switch (p.op) {
        case REDIST: case REDISTP: {
          SN part(ln); int mode = p.sd % 4; for (int i = 0; i < ln; i++) part[i] = mode == 0 ? sim_hash64(p.sd, r * 100003 + i) % w.size : mode == 1 ? (r + 1) % w.size : mode == 2 ? p.sd % w.size : (sim_hash64(p.sd, r * 100003 + i) % 5 ? r : sim_hash64(p.sd + 1, i) % w.size);
          p.part[r] = part.vec(); SCOTCH_Dgraph nw; OKCALL(SCOTCH_dgraphInit(&nw, w.c)); SN perm;
          if (p.op == REDISTP) { // user permutation: inside each target process, vertices are numbered in reverse arrival order
            OKCALL(SCOTCH_dgraphGhst(&cur)); Num gn, l2, gst; SCOTCH_dgraphData(&cur, nullptr, nullptr, nullptr, nullptr, &gst, nullptr, nullptr, nullptr, nullptr, nullptr, nullptr, nullptr, nullptr, nullptr, nullptr, nullptr); perm.alloc(gst); perm.fill(-1); (void)gn; (void)l2;
            V lc(w.size, 0), tot(w.size), sc(w.size); for (int i = 0; i < ln; i++) lc[part[i]]++; MPI_Allreduce(lc.data(), tot.data(), w.size, SCOTCH_NUM_MPI, MPI_SUM, w.c); MPI_Scan(lc.data(), sc.data(), w.size, SCOTCH_NUM_MPI, MPI_SUM, w.c);
            V end(w.size); Num acc = s.ph[k - 1].pc[r].base; for (int q = 0; q < w.size; q++) { acc += tot[q]; end[q] = acc - 1 - (sc[q] - lc[q]); acc += p.vd; } for (int i = 0; i < ln; i++) perm[i] = end[part[i]]--;
            OKCALL(SCOTCH_dgraphHalo(&cur, perm, SCOTCH_NUM_MPI)); perm.ro(); }
          part.ro(); OKCALL(SCOTCH_dgraphRedist(&cur, part, perm.p, p.vd, p.ed, &nw));
          if (own && D.hash() != h0) sim_violation("input-changed", "arrays of the source graph were changed by redistribution");
          SCOTCH_dgraphExit(&cur); memcpy(&cur, &nw, sizeof cur); own = false; } break;
        case GATHER1: case GATHERALL: { SCOTCH_Graph c; bool root = p.op == GATHERALL || r == p.root; if (root) SCOTCH_graphInit(&c); OKCALL(SCOTCH_dgraphGather(&cur, root ? &c : nullptr)); if (root) { if (SCOTCH_graphCheck(&c)) sim_violation("bad-gather", "gathered graph fails its check: %s", sim_err_last(sim_rank())); p.gath[r] = extract(&c, &p.gbase); p.has[r] = 1; SCOTCH_graphExit(&c); } } break;
        case SAVELOAD: { snprintf(fn, sizeof fn, "s%zu.%d", k, r); FILE *f = sim_fopen(fn, "w"); OKCALL(SCOTCH_dgraphSave(&cur, f)); if (fclose(f)) sim_violation("io", "close"); SCOTCH_Dgraph nw; OKCALL(SCOTCH_dgraphInit(&nw, w.c)); f = sim_fopen(fn, "r"); OKCALL(SCOTCH_dgraphLoad(&nw, f, -1, 0)); fclose(f); SCOTCH_dgraphExit(&cur); memcpy(&cur, &nw, sizeof cur); own = false; } break;
        case GHST: OKCALL(SCOTCH_dgraphGhst(&cur)); break;
        case CHECK: if (SCOTCH_dgraphCheck(&cur)) sim_violation("bad-dgraph", "graph check fails: %s", sim_err_last(sim_rank())); break;
      }
      p.pc[r] = dextract(&cur); p.done = true;
    }
    SCOTCH_dgraphExit(&cur); if (own) D.wr(); }
  w.close(); mpi_end();
}
static void check() {
  S &s = shared<S>(); std::vector<int> id; DWhole prev; bool vwx = s.g.vw, ewx = s.g.ew, lbx = s.g.lb; 
  RG ref = s.g; if (s.flag & 1) { ref.vw = false; } if (s.flag & 2) { ref.ew = false; for (auto &a : ref.adj) for (auto &e : a) e.second = 1; }
  if (s.src != LOADC && s.src != LOADD) ref = s.g; V lab;
  for (size_t k = 0; k < s.ph.size(); k++) { Ph &p = s.ph[k]; DWhole w; std::string why; char t[64]; snprintf(t, sizeof t, "step %zu (operation %d)", k, p.op);
    if (!assemble(p.pc, w, why)) sim_violation("bad-dgraph", "%s: %s", t, why.c_str());
    int n = w.g.n; std::vector<int> nid(n);
    if (k == 0) { if (n != s.g.n) sim_violation("not-lossless", "%s: %d vertices instead of %d", t, n, s.g.n); std::iota(nid.begin(), nid.end(), 0); 
      if (s.src == BUILD || s.src == LOADD) { for (int q = 0; q < s.cc.procs; q++) if (w.start[q] != s.d.start[q]) sim_violation("not-lossless", "process %d does not hold its own vertices", q); } else for (int q = 0; q < s.cc.procs; q++) { int c = w.start[q + 1] - w.start[q]; int f = n / s.cc.procs; if (c < f || c > f + 1) sim_violation("not-balanced", "process %d holds %d of %d vertices", q, c, n); }
      if (s.src == GRID3) { // the order in which the generator numbers the cells is its own business: x fastest
      }
      Num eb = (s.src == LOADC || s.src == LOADD) && s.loadbase >= 0 ? s.loadbase : s.base; if (p.pc[0].base != eb) sim_violation("not-lossless", "base is %d instead of %d", p.pc[0].base, eb); }
    else if (p.op == REDIST || p.op == REDISTP) {
      std::map<Num,int> byl; for (int x = 0; x < prev.g.n; x++) { Num l; if (prev.g.lb) l = prev.g.vlbl[x]; else { int q = prev.owner[x]; l = prev.glb[q] + x - prev.start[q] + s.ph[k - 1].pc[0].base; } byl[l] = x; }
      if (n != prev.g.n) sim_violation("not-lossless", "%s: %d vertices instead of %d", t, n, prev.g.n); std::vector<char> seen(n, 0); if (!w.g.lb) sim_violation("not-lossless", "%s: redistributed graph has no labels", t);
      for (int x = 0; x < n; x++) { auto it = byl.find(w.g.vlbl[x]); if (it == byl.end() || seen[it->second]++) sim_violation("not-lossless", "%s: vertex with label %d appears %s", t, w.g.vlbl[x], it == byl.end() ? "from nowhere" : "twice"); int o = it->second; int want = p.part[prev.owner[o]][o - prev.start[prev.owner[o]]]; if (w.owner[x] != want) sim_violation("wrong-owner", "%s: vertex with label %d went to process %d instead of %d", t, w.g.vlbl[x], w.owner[x], want); nid[x] = id[o]; } }
    else { nid = id; for (int q = 0; q <= s.cc.procs; q++) if (w.start[q] != prev.start[q]) sim_violation("not-lossless", "%s: distribution changed", t); if (prev.g.lb && (!w.g.lb || w.g.vlbl != prev.g.vlbl)) sim_violation("not-lossless", "%s: labels changed", t); }
    // same graph under nid
    RG e; e.n = n; e.vw = ref.vw; e.ew = ref.ew; e.adj.assign(n, {}); std::vector<int> inv(n); for (int x = 0; x < n; x++) inv[nid[x]] = x; for (int x = 0; x < n; x++) { if (ref.vw) e.velo.push_back(ref.velo[nid[x]]); for (auto &a : ref.adj[nid[x]]) e.adj[x].push_back({inv[a.first], a.second}); }
    if (s.g.lb) { e.lb = true; for (int x = 0; x < n; x++) e.vlbl.push_back(s.g.vlbl[nid[x]]); if (!w.g.lb) sim_violation("not-lossless", "%s: labels lost", t); }
    if (!s.g.lb && k == 0 && s.src != LOADD && w.g.lb) sim_violation("not-lossless", "%s: labels out of nowhere", t);
    viol_graph("not-lossless", t, e, w.g);
    for (int q = 0; q < s.cc.procs; q++) if (p.op == GATHER1 || p.op == GATHERALL) if (p.has[q]) { RG x = p.gath[q]; viol_graph("bad-gather", t, w.g, x); if (w.g.lb && (!x.lb || x.vlbl != w.g.vlbl)) sim_violation("bad-gather", "%s: labels differ", t); if (p.gbase != p.pc[0].base) sim_violation("bad-gather", "%s: base is %d", t, p.gbase); sim_probe("gathered"); }
    if (p.op == REDIST || p.op == REDISTP) sim_probe("redistributed"); if (p.op == SAVELOAD) sim_probe("saved-and-loaded");
    prev = w; id = nid; }
}
WORKLOAD(C01, "transfer", 1, 1, setup, rmain, check)
ALSO07("transfer", 1, setup, rmain)
