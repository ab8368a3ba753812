// C05: parallel ordering; all views of a distributed ordering are compared with each other and with the graph.
#include "w.h"
#include "strat.h"
namespace {
struct S { CommCfg cc; RG g; Dist d; uint64_t sd; int mode, gather, saver, threads, det, rounds; bool ctx, ghosted; Num flags, levl; std::string str; std::vector<DPiece> org; std::vector<V> perm; V gperm, gperi, rang, tree; Num cblk; std::vector<Num> dblk; std::vector<V> dtree, dsize; std::string fsave, fmap, ftree, fblk; bool computed; };
}
static void setup_o() {
  S *s = newshared<S>(); s->cc = gen_comm(7); GenOpt o; o.maxn = 160; o.empty = false; o.minn = 1; s->g = gen_graph(o); s->d = gen_dist(s->g.n, s->cc.procs); s->d.gaps = false; s->sd = cfg(1 << 16); s->mode = cfg(8); s->gather = cfg(s->cc.procs); s->saver = cfg(s->cc.procs); s->ctx = coin(); s->threads = 1 + cfg(3); s->det = coin(); s->rounds = 1 + (cfg(5) == 4); s->ghosted = coin(); s->computed = cfg(16) != 15;
  static const Num ff[] = {0, SCOTCH_STRATLEVELMAX, SCOTCH_STRATLEVELMIN, SCOTCH_STRATLEVELMAX | SCOTCH_STRATLEVELMIN, SCOTCH_STRATLEAFSIMPLE, SCOTCH_STRATSEPASIMPLE | SCOTCH_STRATLEVELMAX, SCOTCH_STRATSPEED, SCOTCH_STRATQUALITY | SCOTCH_STRATLEAFSIMPLE}; s->flags = ff[cfg(8)]; s->levl = cfg(5);
  LR r(77 + cfg(1 << 14)); s->str = st_dord(r); s->perm.resize(s->cc.procs); s->org.resize(s->cc.procs); s->dblk.resize(s->cc.procs); s->dtree.resize(s->cc.procs); s->dsize.resize(s->cc.procs); sim_knobs.cores = 1 + cfg(4);
  sim_describe("mode=%d flags=%d levl=%d ctx=%d thr=%d det=%d rounds=%d strat=%s", s->mode, s->flags, s->levl, s->ctx, s->threads, s->det, s->rounds, s->mode >= 2 ? s->str.c_str() : ""); sim_state(s->mode * 8 + s->flags);
}
static std::string slurp(const char *n) { size_t z = sim_file_size(n); return z == (size_t)-1 ? std::string() : std::string((const char*)sim_file_data(n), z); }
static void rmain(int) {
  S &s = shared<S>(); mpi_begin(); WComm w; w.open(s.cc); if (!w.mine) { w.close(); mpi_end(); return; } int n = s.g.n; Num b = s.d.base;
  { DG D; OKCALL(D.make(s.g, s.d, w.rank, w.c, s.sd, false)); if (s.ghosted) OKCALL(SCOTCH_dgraphGhst(&D.g)); uint64_t h0 = D.hash(); s.org[w.rank] = dextract(&D.g); D.ro(); D.edge.wr(); CX cx; SCOTCH_Dgraph bd, *f = &D.g;
    if (s.ctx) { OKCALL(cx.init(s.threads, s.det, 0, 0)); OKCALL(SCOTCH_dgraphInit(&bd, w.c)); OKCALL(SCOTCH_contextBindDgraph(&cx.c, &D.g, &bd)); f = &bd; }
    SCOTCH_Strat st; OKCALL(SCOTCH_stratInit(&st)); if (s.mode == 1) OKCALL(SCOTCH_stratDgraphOrderBuild(&st, s.flags, w.size, s.levl, 0.2)); else if (s.mode >= 2) OKCALL(SCOTCH_stratDgraphOrder(&st, s.str.c_str()));
    SCOTCH_Dordering od; 
    for (int k = 0; k < s.rounds; k++) {
      OKCALL(SCOTCH_dgraphOrderInit(f, &od)); if (s.computed) OKCALL(SCOTCH_dgraphOrderCompute(f, &od, &st));
      if (k + 1 < s.rounds) SCOTCH_dgraphOrderExit(f, &od); }
    { SN perm((size_t)D.ln); perm.fill(-7); OKCALL(SCOTCH_dgraphOrderPerm(f, &od, perm.p)); s.perm[w.rank] = perm.vec(); }
    if (s.computed) {
      if (w.rank == s.gather) { SN pm((size_t)n), pi((size_t)n), rg((size_t)n + 1), tr((size_t)n); SCOTCH_Ordering co; Num cb = -1; OKCALL(SCOTCH_dgraphCorderInit(f, &co, pm.p, pi.p, &cb, rg.p, tr.p)); OKCALL(SCOTCH_dgraphOrderGather(f, &od, &co)); s.gperm = pm.vec(); s.gperi = pi.vec(); s.rang = rg.vec(); s.tree = tr.vec(); s.cblk = cb; SCOTCH_dgraphCorderExit(f, &co); }
      else OKCALL(SCOTCH_dgraphOrderGather(f, &od, nullptr));
      auto save = [&](int (*fn)(const SCOTCH_Dgraph*, const SCOTCH_Dordering*, FILE*), const char *nm, std::string &out) { FILE *fp = nullptr; if (w.rank == s.saver) fp = sim_fopen(nm, "w"); int r = fn(f, &od, fp); if (r) sim_violation("call-failed", "saving of %s returned %d (%s)", nm, r, sim_err_last(sim_rank())); if (fp) { fclose(fp); out = slurp(nm); } };
      save(SCOTCH_dgraphOrderSave, "ord", s.fsave); save(SCOTCH_dgraphOrderSaveMap, "map", s.fmap); save(SCOTCH_dgraphOrderSaveTree, "tree", s.ftree); save(SCOTCH_dgraphOrderSaveBlock, "blk", s.fblk);
      Num db = SCOTCH_dgraphOrderCblkDist(f, &od); if (db < 0) sim_violation("call-failed", "SCOTCH_dgraphOrderCblkDist returned %d", db); s.dblk[w.rank] = db; SN t((size_t)db), z((size_t)db); t.fill(-9); z.fill(-9); OKCALL(SCOTCH_dgraphOrderTreeDist(f, &od, t.p, z.p)); s.dtree[w.rank] = t.vec(); s.dsize[w.rank] = z.vec(); }
    SCOTCH_dgraphOrderExit(f, &od); SCOTCH_stratExit(&st); if (s.ctx) { SCOTCH_dgraphExit(&bd); cx.exit(); }
    D.wr(); DPiece p2 = dextract(&D.g); if (D.hash() != h0 || p2.adj != s.org[w.rank].adj) sim_violation("input-changed", "the graph was changed"); D.exit(); }
  w.close(); mpi_end();
}
static std::vector<std::pair<long,long>> parse(const char *what, const std::string &t, int n) {
  std::vector<std::pair<long,long>> v; const char *p = t.c_str(); char *e; long k = strtol(p, &e, 10); if (e == p || k != n) sim_violation("bad-file", "%s file says %ld vertices instead of %d", what, k, n); p = e;
  for (int i = 0; i < n; i++) { long a = strtol(p, &e, 10); if (e == p) sim_violation("bad-file", "%s file ends after %d lines", what, i); p = e; long b = strtol(p, &e, 10); if (e == p) sim_violation("bad-file", "%s file: incomplete line %d", what, i); p = e; v.push_back({a, b}); }
  while (*p == '\n' || *p == ' ' || *p == '\t') p++; if (*p) sim_violation("bad-file", "%s file has data after its end", what); return v;
}
static void check() {
  S &s = shared<S>(); int n = s.g.n; Num b = s.d.base; V perm; for (auto &p : s.perm) perm.insert(perm.end(), p.begin(), p.end()); if ((int)perm.size() != n) sim_violation("bad-permutation", "%zu values", perm.size());
  check_perm("distributed permutation", perm.data(), nullptr, n, b); if (!s.computed) { sim_probe("identity"); return; }
  check_perm("gathered ordering", s.gperm.data(), s.gperi.data(), n, b); for (int i = 0; i < n; i++) if (perm[i] != s.gperm[i]) sim_violation("views-differ", "vertex %d is numbered %d by its process and %d in the gathered ordering", i, perm[i], s.gperm[i]);
  if (n > 0) { check_blocks("gathered ordering", s.cblk, s.rang.data(), s.tree.data(), n, b); if (s.str.find("b{cmin") == std::string::npos) check_sep("gathered ordering", s.g, s.gperm.data(), s.cblk, s.rang.data(), s.tree.data(), b); }
  std::vector<int> blk(n); for (Num c = 0; c < s.cblk && n > 0; c++) for (Num i = s.rang[c]; i < s.rang[c + 1]; i++) blk[s.gperi[i - b] - b] = c;
  auto lab = [&](int v) -> long { return s.g.lb ? s.g.vlbl[v] : v + b; };
  auto fo = parse("ordering", s.fsave, n), fm = parse("block", s.fmap, n), ft = parse("tree", s.ftree, n);
  for (int i = 0; i < n; i++) { if (fo[i].first != lab(i) || fo[i].second != lab(perm[i] - b)) sim_violation("views-differ", "ordering file line %d is %ld %ld instead of %ld %ld", i, fo[i].first, fo[i].second, lab(i), lab(perm[i] - b)); if (fm[i].first != lab(i) || fm[i].second != blk[i]) sim_violation("views-differ", "block file line %d is %ld %ld instead of %ld %d", i, fm[i].first, fm[i].second, lab(i), blk[i]); if (ft[i].first != lab(i) || ft[i].second != s.tree[blk[i]]) sim_violation("views-differ", "tree file line %d is %ld %ld instead of %ld %d", i, ft[i].first, ft[i].second, lab(i), s.tree[blk[i]]); }
  { std::vector<long> x, y = {0, s.cblk, n}; for (Num c = 0; c <= s.cblk; c++) y.push_back(n ? s.rang[c] : b); for (int i = 0; i < n; i++) y.push_back(perm[i]); const char *q = s.fblk.c_str(); char *e; for (long a = strtol(q, &e, 10); e != q; a = strtol(q, &e, 10)) { x.push_back(a); q = e; } for (size_t i = 0; i < std::max(x.size(), y.size()); i++) if (i >= x.size() || i >= y.size() || x[i] != y[i]) sim_violation("views-differ", "block ordering file: value %zu of %zu is %ld instead of %ld (%zu expected)", i, x.size(), i < x.size() ? x[i] : -1L, i < y.size() ? y[i] : -1L, y.size()); }
  for (int p = 1; p < s.cc.procs; p++) if (s.dblk[p] != s.dblk[0] || s.dtree[p] != s.dtree[0] || s.dsize[p] != s.dsize[0]) sim_violation("views-differ", "processes 0 and %d do not have the same distributed tree", p);
  Num k = s.dblk[0]; const V &t = s.dtree[0], &z = s.dsize[0]; if (n == 0) return; int roots = 0; std::vector<long> sum(k, 0); std::vector<std::vector<int>> sons(k);
  for (Num i = 0; i < k; i++) { Num f = t[i]; if (f == -1) { roots++; if (z[i] != n) sim_violation("bad-tree", "root of the distributed tree has size %d instead of %d", z[i], n); continue; } f -= b; if (f < 0 || f >= k) sim_violation("bad-tree", "father of distributed node %d is %d", i, t[i]); sum[f] += z[i]; sons[f].push_back(i); if (z[i] < 0) sim_violation("bad-tree", "size of node %d is %d", i, z[i]); }
  if (roots != 1) sim_violation("bad-tree", "distributed tree has %d roots", roots);
  std::vector<long> start(k, -1); std::vector<char> done(k, 0);
  for (Num i = 0; i < k; i++) { Num x = i; int st = 0; while (t[x] != -1) { x = t[x] - b; if (++st > k) sim_violation("bad-tree", "distributed tree has a cycle"); } if (!sons[i].empty()) { if (sum[i] != z[i]) sim_violation("bad-tree", "sons of node %d hold %ld vertices, the node %d", i, sum[i], z[i]); if (sons[i].size() == 1 || sons[i].size() > 3) sim_violation("bad-tree", "node %d has %zu sons", i, sons[i].size()); } }
  // ranges of the nodes: sons follow each other in the numbering; the separator of a node with three sons is the last
  std::function<void(int,long)> place = [&](int i, long at) { start[i] = at; for (int c : sons[i]) { place(c, at); at += z[c]; } };
  for (Num i = 0; i < k; i++) if (t[i] == -1) place(i, 0);
  for (Num i = 0; i < k; i++) if (sons[i].size() >= 2) { int a = sons[i][0], c = sons[i][1]; long a0 = start[a], a1 = a0 + z[a], c0 = start[c], c1 = c0 + z[c]; for (int v = 0; v < n; v++) if (perm[v] - b >= a0 && perm[v] - b < a1) for (auto &e : s.g.adj[v]) { long q = perm[e.first] - b; if (q >= c0 && q < c1) sim_violation("bad-tree", "an edge joins the two parts of distributed node %d", i); } }
  if (k >= 3) sim_probe("dissected-in-parallel"); sim_state(k);
}
WORKLOAD(C05, "order", 1, 1, setup_o, rmain, check)
ALSO07("order", 2, setup_o, rmain)
