// C04: distributed induced, band and grown subgraphs.
#include "w.h"
namespace {
enum { INDUCE, BAND, GROW };
struct S { CommCfg cc; RG g; Dist d; uint64_t sd; int op; bool use, dupc, ctx, give, ghosted, rebuilt; Num dist, keep; int threads, det; std::vector<Num> part; std::vector<int> seeds; V colour; std::vector<DPiece> org, res; std::vector<V> out; };
}
static void gen(int op) {
  S *s = newshared<S>(); s->op = op; s->cc = gen_comm(7); GenOpt o; o.maxn = op == GROW ? 120 : 180; s->g = gen_graph(o); s->d = gen_dist(s->g.n, s->cc.procs); s->sd = cfg(1 << 16); s->dupc = coin(); s->ctx = coin(); s->give = coin(); s->ghosted = coin(); s->threads = 1 + cfg(2); s->use = cfg(8) == 7; s->det = coin(); LR r(3 + cfg(4096)); int n = s->g.n;
  static const Num dd[] = {1, 0, 2, 3, 5, 20}; s->dist = dd[cfg(6)]; int sk = cfg(6);
  s->keep = r.below(3); s->part.resize(n); for (int i = 0; i < n; i++) s->part[i] = sk == 0 ? s->keep : sk == 1 ? (r.chance(1, 9) ? s->keep : 7) : sk == 2 ? r.below(3) : sk == 3 ? (i < n / 2 ? s->keep : s->keep + 1) : sk == 4 ? 9 : (s->d.owner(i) % 2 ? s->keep : 3 - s->keep);
  s->colour.assign(n, -1); for (int i = 0; i < n; i++) { bool t = sk == 0 ? i == 0 : sk == 1 ? r.chance(1, 20) : sk == 2 ? r.chance(1, 4) : sk == 3 ? i == n - 1 : sk == 4 ? false : s->d.owner(i) == 0 && r.chance(1, 3); if (t) { s->seeds.push_back(i); s->colour[i] = r.below(4); } }
  if (op == GROW) for (int i = 0; i < n; i++) if (s->colour[i] < 0 && r.chance(1, 12)) s->colour[i] = 20 + r.below(3);
  s->org.resize(s->cc.procs); s->res.resize(s->cc.procs); s->out.resize(s->cc.procs); sim_knobs.cores = 1 + cfg(4);
  sim_describe("op=%d dist=%d seeds=%zu kind=%d dup=%d ctx=%d det=%d ghosted=%d give=%d", op, s->dist, s->seeds.size(), sk, s->dupc, s->ctx, s->det, s->ghosted, s->give); sim_state(op * 64 + s->dist * 8 + sk);
}
static void setup_i() { gen(INDUCE); } static void setup_b() { gen(BAND); } static void setup_g() { gen(GROW); }
static void rmain(int) {
  S &s = shared<S>(); mpi_begin(); WComm w; w.open(s.cc); if (!w.mine) { w.close(); mpi_end(); return; } MPI_Comm c2 = MPI_COMM_NULL; if (s.dupc) MPI_Comm_dup(w.c, &c2);
  { DG D; OKCALL(D.make(s.g, s.d, w.rank, w.c, s.sd, false)); if (s.ghosted) OKCALL(SCOTCH_dgraphGhst(&D.g)); uint64_t h0 = D.hash(); s.org[w.rank] = dextract(&D.g); D.ro(); D.edge.wr(); Num b = s.d.base; CX cx; SCOTCH_Dgraph bd, *f = &D.g;
    if (s.ctx) { OKCALL(cx.init(s.threads, s.det, 0, 0)); OKCALL(SCOTCH_dgraphInit(&bd, w.c)); OKCALL(SCOTCH_contextBindDgraph(&cx.c, &D.g, &bd)); f = &bd; }
    if (s.op == GROW) {
      OKCALL(SCOTCH_dgraphGhst(f)); Num gst; SCOTCH_dgraphData(f, nullptr, nullptr, nullptr, nullptr, &gst, nullptr, nullptr, nullptr, nullptr, nullptr, nullptr, nullptr, nullptr, nullptr, nullptr, nullptr);
      SN seed((size_t)D.ln), part((size_t)std::max<Num>(gst, D.ln)); seed.fill(-8); part.fill(-1); Num k = 0; for (int v : s.seeds) if (v >= D.lo && v < D.lo + D.ln) seed[k++] = v - D.lo + b; for (int i = 0; i < D.ln; i++) part[i] = s.colour[D.lo + i];
      OKCALL(SCOTCH_dgraphGrow(f, k, seed.p, s.dist, part.p)); s.out[w.rank] = V(part.p, part.p + D.ln);
    } else { SCOTCH_Dgraph I; OKCALL(SCOTCH_dgraphInit(&I, s.dupc ? c2 : w.c)); Num exp = 0;
      if (s.op == INDUCE) { SN part((size_t)D.ln); for (int i = 0; i < D.ln; i++) { part[i] = s.part[D.lo + i]; exp += part[i] == s.keep; } part.ro(); OKCALL(SCOTCH_dgraphInducePart(f, part.p, s.keep, s.give ? exp : -1, &I)); }
      else { SN fron((size_t)D.ln); fron.fill(-8); Num k = 0; for (int v : s.seeds) if (v >= D.lo && v < D.lo + D.ln) fron[k++] = v - D.lo + b; OKCALL(SCOTCH_dgraphBand(f, k, fron.p, s.dist, &I)); }
      s.res[w.rank] = dextract(&I); if (SCOTCH_dgraphCheck(&I)) sim_violation("bad-subgraph", "subgraph fails its check: %s", sim_err_last(sim_rank()));
      if (s.use && s.res[w.rank].vertglbnbr > 0) { SCOTCH_Strat st; SCOTCH_Arch a; OKCALL(SCOTCH_stratInit(&st)); OKCALL(SCOTCH_archInit(&a)); OKCALL(SCOTCH_archCmplt(&a, 2)); SN part((size_t)s.res[w.rank].vertlocnbr); part.fill(-1); OKCALL(SCOTCH_dgraphMap(&I, &a, &st, part.p)); s.out[w.rank] = part.vec(); SCOTCH_stratExit(&st); SCOTCH_archExit(&a); sim_probe("subgraph-partitioned"); }
      SCOTCH_dgraphExit(&I); }
    if (s.ctx) { SCOTCH_dgraphExit(&bd); cx.exit(); }
    D.wr(); DPiece p2 = dextract(&D.g); if (D.hash() != h0 || p2.adj != s.org[w.rank].adj) sim_violation("input-changed", "the original graph was changed"); D.exit(); }
  if (s.dupc) MPI_Comm_free(&c2); w.close(); mpi_end();
}
static void check() {
  S &s = shared<S>(); std::string why; DWhole W; if (!assemble(s.org, W, why)) sim_violation("bad-dgraph", "original graph: %s", why.c_str()); int n = s.g.n;
  if (s.op == GROW) {
    V out; for (auto &o : s.out) out.insert(out.end(), o.begin(), o.end()); std::vector<char> seed(n, 0); for (int v : s.seeds) seed[v] = 1;
    std::vector<int> dst(n, -1); std::vector<std::set<Num>> may(n); std::vector<int> fr; for (int v : s.seeds) { dst[v] = 0; fr.push_back(v); may[v].insert(s.colour[v]); }
    for (int l = 1; l <= s.dist && !fr.empty(); l++) { std::vector<int> nx; for (int v : fr) for (auto &e : s.g.adj[v]) { int u = e.first; if (s.colour[u] >= 0) continue; if (dst[u] < 0) { dst[u] = l; nx.push_back(u); } if (dst[u] == l) may[u].insert(may[v].begin(), may[v].end()); } fr = nx; }
    long reached = 0; for (int v = 0; v < n; v++) { if (s.colour[v] >= 0) { if (out[v] != s.colour[v]) sim_violation("bad-grow", "vertex %d, which had colour %d, now has %d", v, s.colour[v], out[v]); continue; }
      if (dst[v] < 0) { if (out[v] != -1) sim_violation("bad-grow", "vertex %d got colour %d although no seed reaches it", v, out[v]); continue; }
      reached++; if (out[v] == -1) sim_violation("bad-grow", "vertex %d at distance %d was not reached", v, dst[v]); if (!may[v].count(out[v])) sim_violation("bad-grow", "vertex %d at distance %d got colour %d, which no shortest path carries", v, dst[v], out[v]); }
    if (reached) sim_probe("grown"); return; }
  DWhole I; if (!assemble(s.res, I, why)) sim_violation("bad-subgraph", "%s", why.c_str()); std::vector<int> list;
  if (s.op == INDUCE) { for (int v = 0; v < n; v++) if (s.part[v] == s.keep) list.push_back(v); }
  else { std::vector<int> dst(n, -1), fr = s.seeds; for (int v : fr) dst[v] = 0; for (int l = 1; l <= s.dist; l++) { std::vector<int> nx; for (int v : fr) for (auto &e : s.g.adj[v]) if (dst[e.first] < 0) { dst[e.first] = l; nx.push_back(e.first); } fr = nx; } for (int v = 0; v < n; v++) if (dst[v] >= 0) list.push_back(v); }
  if (I.g.n != (int)list.size()) sim_violation("bad-subgraph", "subgraph has %d vertices instead of %zu", I.g.n, list.size());
  if (list.empty()) { sim_probe("empty-subgraph"); return; }
  if (!I.g.lb) sim_violation("bad-subgraph", "subgraph has no labels");
  // labels identify the original vertices: original label, or global number
  std::map<Num,int> bylab; for (int v = 0; v < n; v++) { int p = W.owner[v]; Num l = s.g.lb ? s.g.vlbl[v] : W.glb[p] + (v - W.start[p]) + s.org[p].base; bylab[l] = v; }
  std::vector<int> o(I.g.n); std::set<int> seen; for (int i = 0; i < I.g.n; i++) { auto it = bylab.find(I.g.vlbl[i]); if (it == bylab.end()) sim_violation("bad-subgraph", "label %d of vertex %d is that of no original vertex", I.g.vlbl[i], i); o[i] = it->second; if (!seen.insert(o[i]).second) sim_violation("bad-subgraph", "original vertex %d is twice in the subgraph", o[i]); if (W.owner[o[i]] != I.owner[i]) sim_violation("bad-subgraph", "vertex %d moved from process %d to %d", o[i], W.owner[o[i]], I.owner[i]); }
  for (int v : list) if (!seen.count(v)) sim_violation("bad-subgraph", "original vertex %d is missing", v);
  if (s.use) for (auto &p : s.out) for (Num x : p) if (x < 0 || x > 1) sim_violation("bad-subgraph", "partition of the subgraph gives part %d", x);
  RG q = induced(s.g, o), r = I.g; q.lb = r.lb = false; viol_graph("bad-subgraph", "subgraph is not the induced one", q, r); if ((int)list.size() < n) sim_probe(s.op == INDUCE ? "induced" : "band");
}
WORKLOAD(C04, "induce", 1, 1, setup_i, rmain, check)
WORKLOAD(C04, "band", 1, 1, setup_b, rmain, check)
WORKLOAD(C04, "grow", 1, 1, setup_g, rmain, check)
ALSO07("induce", 1, setup_i, rmain)
ALSO07("band", 1, setup_b, rmain)
ALSO07("grow", 1, setup_g, rmain)
