#include "w.h"
#ifndef SIM_FORT
static std::vector<SimWorkload*> &wlist() { static std::vector<SimWorkload*> v; return v; }
static SimWorkload *warr[256];
extern "C" { __attribute__((visibility("default"))) SimWorkload **sim_workloads_get() { return warr; } }
Reg::Reg(SimWorkload *w) { auto &l = wlist(); l.push_back(w); std::sort(l.begin(), l.end(), [](SimWorkload *a, SimWorkload *b) { int c = strcmp(a->name, b->name); return c ? c < 0 : strcmp(a->sub, b->sub) < 0; }); size_t i = 0; for (; i < l.size() && i < 255; i++) warr[i] = l[i]; warr[i] = nullptr; }

extern "C" {
void SCOTCH_errorProg(const char * const p) {}
void (*prog_error)(const char *) = nullptr;       // set while one of the programs runs: an error ends a program
void SCOTCH_errorPrint(const char * const f, ...) { char b[600]; va_list a; va_start(a, f); vsnprintf(b, sizeof b, f, a); va_end(a); sim_err_add(b, 0); if (prog_error) prog_error(b); }
void SCOTCH_errorPrintW(const char * const f, ...) { char b[600]; va_list a; va_start(a, f); vsnprintf(b, sizeof b, f, a); va_end(a); sim_err_add(b, 1); }
}
#endif
uint64_t hashv(const void *p, size_t n, uint64_t h) { const unsigned char *b = (const unsigned char*)p; h ^= 1469598103934665603ULL; for (size_t i = 0; i < n; i++) h = (h ^ b[i]) * 1099511628211ULL; return h; }
void publish_v(int slot, const V &v) { sim_publish(slot, v.data(), v.size() * sizeof(Num)); }

static void addedge(RG &g, int u, int v) { if (u == v) return; for (auto &e : g.adj[u]) if (e.first == v) return; g.adj[u].push_back({v, 1}); g.adj[v].push_back({u, 1}); }
void sort_adj(RG &g) { for (auto &a : g.adj) std::sort(a.begin(), a.end()); }
RG gen_graph(const GenOpt &o) {
  RG g; LR r(1 + (uint64_t)cfg(65536)); int kind = cfg(13); int sz = cfg(8); int hi = sz < 2 ? 6 : sz < 5 ? 30 : sz < 7 ? 90 : o.maxn; if (hi > o.maxn) hi = o.maxn;
  int n = r.range(o.empty ? (sz == 0 ? 0 : 1) : 1, hi); if (n < o.minn) n = o.minn; 
  auto resize = [&](int k) { g.n = k; g.adj.assign(k, {}); };
  static const char *kn[] = {"path", "grid2", "grid3", "random", "tree", "star", "cycle", "complete", "bipartite", "edgeless", "union", "hubs", "torus"};
  g.kind = kn[kind];
  switch (kind) {
    case 0: resize(n); for (int i = 1; i < n; i++) addedge(g, i - 1, i); break;
    case 1: case 12: { int w = 1; while ((w + 1) * (w + 1) <= n) w++; if (r.chance(1, 3)) w = std::max(1, w / 2); int h = std::max(1, n / w); if (n == 0) w = h = 0; resize(w * h); for (int y = 0; y < h; y++) for (int x = 0; x < w; x++) { if (x + 1 < w) addedge(g, y * w + x, y * w + x + 1); if (y + 1 < h) addedge(g, y * w + x, (y + 1) * w + x); if (kind == 12) { addedge(g, y * w + x, y * w + (x + 1) % w); addedge(g, y * w + x, ((y + 1) % h) * w + x); } } } break;
    case 2: { int w = 1; while ((w + 1) * (w + 1) * (w + 1) <= n) w++; int h = w, d = n ? std::max(1, n / (w * h)) : 0; if (!n) w = h = 0; resize(w * h * d); auto id = [&](int x, int y, int z) { return (z * h + y) * w + x; }; for (int z = 0; z < d; z++) for (int y = 0; y < h; y++) for (int x = 0; x < w; x++) { if (x + 1 < w) addedge(g, id(x, y, z), id(x + 1, y, z)); if (y + 1 < h) addedge(g, id(x, y, z), id(x, y + 1, z)); if (z + 1 < d) addedge(g, id(x, y, z), id(x, y, z + 1)); } } break;
    case 3: { resize(n); int deg = r.range(1, 6); for (int i = 1; i < n; i++) addedge(g, i, r.below(i)); for (long k = 0; k < (long)n * deg / 2; k++) addedge(g, r.below(n), r.below(n)); } break;
    case 4: resize(n); for (int i = 1; i < n; i++) addedge(g, i, r.chance(1, 3) ? i / 2 : r.below(i)); break;
    case 5: resize(n); for (int i = 1; i < n; i++) addedge(g, 0, i); break;
    case 6: resize(n); for (int i = 0; i < n; i++) addedge(g, i, (i + 1) % n); break;
    case 7: n = std::min(n, 24); resize(n); for (int i = 0; i < n; i++) for (int j = i + 1; j < n; j++) addedge(g, i, j); break;
    case 8: { n = std::min(n, 40); resize(n); int a = n / 2; for (int i = 0; i < a; i++) for (int j = a; j < n; j++) if (r.chance(3, 4)) addedge(g, i, j); } break;
    case 9: resize(n); for (int k = 0; k < n / 4; k++) addedge(g, r.below(n), r.below(n)); break;
    case 10: { resize(n); int p = r.range(1, 5); for (int i = 0; i < n; i++) { if (i >= p) addedge(g, i, i - p); if (r.chance(1, 3) && i >= 2 * p) addedge(g, i, i - 2 * p); } } break;
    default: { resize(n); int h = std::max(1, n / 20); for (int i = h; i < n; i++) addedge(g, i, r.below(h)); for (int k = 0; k < n; k++) addedge(g, r.below(n), r.below(n)); } break;
  }
  n = g.n;
  if (o.isolated && n > 2 && cfg(5) == 4) { int k = 1 + r.below(std::max(1, n / 6)); for (int i = 0; i < k; i++) { int v = r.below(n); for (auto &e : g.adj[v]) { auto &a = g.adj[e.first]; a.erase(std::remove_if(a.begin(), a.end(), [&](std::pair<int,Num> &x) { return x.first == v; }), a.end()); } g.adj[v].clear(); } }
  if (!o.disconnected) { for (int i = 1; i < n; i++) if (g.adj[i].empty() || r.chance(1, 1)) { /* join components */ } std::vector<int> c(n, -1); int nc = 0; for (int s = 0; s < n; s++) if (c[s] < 0) { std::vector<int> q{s}; c[s] = nc; while (!q.empty()) { int v = q.back(); q.pop_back(); for (auto &e : g.adj[v]) if (c[e.first] < 0) { c[e.first] = nc; q.push_back(e.first); } } if (nc) addedge(g, s, 0); nc++; } }
  if (cfg(2)) { std::vector<int> p(n); std::iota(p.begin(), p.end(), 0); for (int i = n - 1; i > 0; i--) std::swap(p[i], p[r.below(i + 1)]); RG h; h.kind = g.kind; h.n = n; h.adj.assign(n, {}); for (int i = 0; i < n; i++) for (auto &e : g.adj[i]) h.adj[p[i]].push_back({p[e.first], e.second}); g = h; }
  if (o.weights) {
    int wk = cfg(5); if (wk == 1 || wk == 2) { g.vw = true; g.velo.resize(n); for (auto &x : g.velo) x = wk == 1 ? r.range(1, 4) : r.chance(1, 8) ? r.range(20, 60) : r.range(o.zerow ? 0 : 1, 3); if (n && std::accumulate(g.velo.begin(), g.velo.end(), 0L) == 0) g.velo[0] = 1; }
    int ek = cfg(4); if (ek == 1 || ek == 2) { g.ew = true; for (int i = 0; i < n; i++) for (auto &e : g.adj[i]) if (i < e.first) { Num x = ek == 1 ? r.range(1, 9) : r.chance(1, 6) ? r.range(50, 500) : 1; e.second = x; for (auto &b : g.adj[e.first]) if (b.first == i) b.second = x; } }
  }
  for (auto &a : g.adj) for (int i = (int)a.size() - 1; i > 0; i--) std::swap(a[i], a[r.below(i + 1)]);
  if (o.labels && cfg(4) == 3) { g.lb = true; g.vlbl.resize(n); std::set<Num> s; for (auto &x : g.vlbl) { do x = r.below(10 * n + 10); while (!s.insert(x).second); } }
  sim_describe("%s n=%d arcs=%ld%s%s%s; ", g.kind.c_str(), g.n, g.arcs(), g.vw ? " vw" : "", g.ew ? " ew" : "", g.lb ? " lb" : "");
  sim_state(hashv(g.kind.data(), g.kind.size(), g.n * 1000003ULL + g.arcs()));
  return g;
}
bool same_graph(const RG &a, const RG &b, std::string &why) {
  char t[200];
  if (a.n != b.n) { snprintf(t, sizeof t, "%d vertices instead of %d", b.n, a.n); why = t; return false; }
  for (int i = 0; i < a.n; i++) {
    if (a.w(i) != b.w(i)) { snprintf(t, sizeof t, "load of vertex %d is %d instead of %d", i, (int)b.w(i), (int)a.w(i)); why = t; return false; }
    if (a.lb && b.lb && a.vlbl[i] != b.vlbl[i]) { snprintf(t, sizeof t, "label of vertex %d is %d instead of %d", i, (int)b.vlbl[i], (int)a.vlbl[i]); why = t; return false; }
    auto x = a.adj[i], y = b.adj[i]; std::sort(x.begin(), x.end()); std::sort(y.begin(), y.end());
    if (x != y) { std::string s; for (auto &e : y) s += " " + std::to_string(e.first) + ":" + std::to_string(e.second); s += " instead of"; for (auto &e : x) s += " " + std::to_string(e.first) + ":" + std::to_string(e.second); if (s.size() > 300) s.resize(300); why = "adjacency of vertex " + std::to_string(i) + " is" + s; return false; }
  }
  return true;
}
void viol_graph(const char *kind, const char *what, const RG &a, const RG &b) { std::string w; if (!same_graph(a, b, w)) sim_violation(kind, "%s: %s", what, w.c_str()); }
RG induced(const RG &g, const std::vector<int> &list) {
  RG r; r.n = (int)list.size(); r.vw = g.vw; r.ew = g.ew; r.lb = g.lb; r.adj.assign(r.n, {}); std::vector<int> m(g.n, -1); for (int i = 0; i < r.n; i++) m[list[i]] = i;
  for (int i = 0; i < r.n; i++) { if (g.vw) r.velo.push_back(g.velo[list[i]]); if (g.lb) r.vlbl.push_back(g.vlbl[list[i]]); for (auto &e : g.adj[list[i]]) if (m[e.first] >= 0) r.adj[i].push_back({m[e.first], e.second}); }
  return r;
}
void CG::make(const RG &r, Num b, bool gaps, uint64_t seed) {
  LR q(seed); base = b; n = r.n; compact = !gaps; again = (seed * 2654435761u + r.n * 40503u + r.arcs() * 9973u + b) % 6 == 5; edgenbr = r.arcs(); V ve, vn, ed, el; Num pos = 0;
  if (!gaps) { for (int i = 0; i < n; i++) { ve.push_back(pos + b); for (auto &e : r.adj[i]) { ed.push_back(e.first + b); el.push_back(e.second); pos++; } } ve.push_back(pos + b); }
  else { ve.assign(n, 0); vn.assign(n, 0); std::vector<int> o(n); std::iota(o.begin(), o.end(), 0); for (int i = n - 1; i > 0; i--) std::swap(o[i], o[q.below(i + 1)]);
    for (int i : o) { int k = q.below(3); for (int j = 0; j < k; j++) { ed.push_back(-77); el.push_back(1); pos++; } ve[i] = pos + b; for (auto &e : r.adj[i]) { ed.push_back(e.first + b); el.push_back(e.second); pos++; } vn[i] = pos + b; } }
  vert.set(ve); if (gaps) vend.set(vn); else vend.drop(); edge.set(ed); if (r.ew) edlo.set(el); if (r.vw) velo.set(r.velo); if (r.lb) vlbl.set(r.vlbl);
}
int CG::build() { SCOTCH_graphInit(&g); built = true;
  if (again) { int k = SCOTCH_graphBuild(&g, base, n, vert.p, vend.p, velo.p, vlbl.p, edgenbr, edge.p, edlo.p); if (k) return k; SCOTCH_graphFree(&g); sim_probe("graph-freed-rebuilt"); }   // a freed graph can be built again
  return SCOTCH_graphBuild(&g, base, n, vert.p, vend.p ? vend.p : (compact ? nullptr : nullptr), velo.p, vlbl.p, edgenbr, edge.p, edlo.p); }
void CG::ro() { vert.ro(); vend.ro(); velo.ro(); vlbl.ro(); edge.ro(); edlo.ro(); } void CG::wr() { vert.wr(); vend.wr(); velo.wr(); vlbl.wr(); edge.wr(); edlo.wr(); }
uint64_t CG::hash() const { uint64_t h = 7; for (const SN *a : {&vert, &vend, &velo, &vlbl, &edge, &edlo}) h = hashv(a->p, a->n * sizeof(Num), h * 31 + a->n); return h; }
RG extract(const SCOTCH_Graph *gr, Num *bp) {
  Num b, n, m, *vt, *nt, *ve, *vl, *et, *el; SCOTCH_graphData(gr, &b, &n, &vt, &nt, &ve, &vl, &m, &et, &el); RG r; r.n = n; r.vw = ve; r.ew = el; r.lb = vl; r.adj.assign(n, {}); long k = 0;
  for (Num i = 0; i < n; i++) { if (ve) r.velo.push_back(ve[i]); if (vl) r.vlbl.push_back(vl[i]); for (Num e = vt[i]; e < nt[i]; e++) { Num x = et[e - b] - b; if (x < 0 || x >= n) sim_violation("bad-graph", "vertex %d has neighbour %d outside of the graph", i, x); r.adj[i].push_back({x, el ? el[e - b] : 1}); k++; } }
  if (k != m) sim_violation("bad-graph", "graph announces %d arcs and has %ld", m, k);
  if (bp) *bp = b; return r;
}
Dist gen_dist(int n, int procs) {
  Dist d; d.procs = procs; d.base = cfg(2); if (cfg(10) == 9) d.base = 5; int k = cfg(5); d.padmax = coin(); d.gaps = cfg(3) == 2; LR r(5 + cfg(4096)); std::vector<int> c(procs, 0);
  switch (k) { case 0: for (int p = 0; p < procs; p++) c[p] = (n + procs - 1 - p) / procs; break;
    case 1: for (int i = 0; i < n; i++) c[r.below(procs)]++; break;
    case 2: c[r.below(procs)] = n; break;
    case 3: { int z = r.below(procs); for (int i = 0; i < n; i++) { int p; do p = r.below(procs); while (procs > 1 && p == z); c[p]++; } } break;
    default: { int left = n; for (int p = 0; p < procs; p++) { int t = p == procs - 1 ? left : r.below(left + 1); c[p] = t; left -= t; } } break; }
  d.start.assign(procs + 1, 0); for (int p = 0; p < procs; p++) d.start[p + 1] = d.start[p] + c[p];
  sim_describe("procs=%d dist=%d%s%s base=%d; ", procs, k, d.padmax ? " pad" : "", d.gaps ? " gaps" : "", (int)d.base); return d;
}
int DG::init(MPI_Comm c) { int r = SCOTCH_dgraphInit(&g, c); inited = r == 0; return r; }
int DG::make(const RG &r, const Dist &d, int rank, MPI_Comm comm, uint64_t seed, bool ghost) {
  LR q(seed * 131 + rank); lo = d.start[rank]; ln = d.start[rank + 1] - lo; Num b = d.base; vmax = ln + (d.padmax ? q.below(5) : 0); V ve, vn, ed, el; Num pos = 0, cnt = 0; 
  // padding of the vertex range must be announced consistently: numbering depends on vertlocmax of all processes
  V st(d.procs + 1, 0); for (int p = 0; p < d.procs; p++) { LR z(seed * 131 + p); int l = d.start[p + 1] - d.start[p]; st[p + 1] = st[p] + l + (d.padmax ? z.below(5) : 0); }
  auto glb = [&](int v) { int p = d.owner(v); return (Num)(st[p] + v - d.start[p] + b); };
  for (int i = 0; i < ln; i++) { if (d.gaps) { int k = q.below(3); for (int j = 0; j < k; j++) { ed.push_back(-9); el.push_back(1); pos++; } } ve.push_back(pos + b); for (auto &e : r.adj[lo + i]) { ed.push_back(r.lb ? r.vlbl[e.first] : glb(e.first)); el.push_back(e.second); pos++; cnt++; } vn.push_back(pos + b); }
  Num edsiz = pos; if (!d.gaps) ve.push_back(pos + b);
  // arrays have room for vertlocmax elements
  auto padto = [&](V &v, size_t k) { while (v.size() < k) v.push_back(-5); };
  padto(ve, vmax + (d.gaps ? 0 : 1)); if (d.gaps) padto(vn, vmax); if (!d.gaps) for (size_t i = ln; i < ve.size(); i++) ve[i] = pos + b;
  vert.set(ve); if (d.gaps) vend.set(vn); edge.set(ed); if (r.ew) edlo.set(el); 
  if (r.vw) { V x(r.velo.begin() + lo, r.velo.begin() + lo + ln); padto(x, vmax); velo.set(x); } if (r.lb) { V x(r.vlbl.begin() + lo, r.vlbl.begin() + lo + ln); padto(x, vmax); vlbl.set(x); }
  if (ghost) { edgegst.alloc(edsiz); edgegst.fill(-3); }
  if (!inited) { int i = init(comm); if (i) return i; }
  if ((seed * 2654435761u + r.n * 40503u + r.arcs() * 9973u + b) % 6 == 5) {   // a freed graph can be built again
    int k = SCOTCH_dgraphBuild(&g, b, ln, vmax, vert.p, d.gaps ? vend.p : nullptr, velo.p, vlbl.p, cnt, edsiz, edge.p, ghost ? edgegst.p : nullptr, edlo.p); if (k) return k;
    if (!ghost && (seed & 1)) { k = SCOTCH_dgraphGhst(&g); if (k) return k; }
    SCOTCH_dgraphFree(&g); sim_probe("dgraph-freed-rebuilt"); if (ghost) edgegst.fill(-3); edge.set(ed);   // labels were replaced
  }
  return SCOTCH_dgraphBuild(&g, b, ln, vmax, vert.p, d.gaps ? vend.p : nullptr, velo.p, vlbl.p, cnt, edsiz, edge.p, ghost ? edgegst.p : nullptr, edlo.p);
}
void DG::ro() { vert.ro(); vend.ro(); velo.ro(); vlbl.ro(); edge.ro(); edlo.ro(); } void DG::wr() { vert.wr(); vend.wr(); velo.wr(); vlbl.wr(); edge.wr(); edlo.wr(); }
uint64_t DG::hash() const { uint64_t h = 7; for (const SN *a : {&vert, &vend, &velo, &vlbl, &edge, &edlo}) h = hashv(a->p, a->n * sizeof(Num), h * 31 + a->n); return h; }
void DG::exit() { if (inited) SCOTCH_dgraphExit(&g); inited = false; }
DPiece dextract(const SCOTCH_Dgraph *g) {
  DPiece p; Num *vt, *nt, *ve, *vl, *et, *gt, *el; Num es; MPI_Comm c; SCOTCH_dgraphData(g, &p.base, &p.vertglbnbr, &p.vertlocnbr, &p.vertlocmax, &p.vertgstnbr, &vt, &nt, &ve, &vl, &p.edgeglbnbr, &p.edgelocnbr, &es, &et, &gt, &el, &c);
  p.vw = ve; p.ew = el; p.lb = vl; p.hasgst = gt; Num b = p.base; p.adj.assign(p.vertlocnbr, {}); long k = 0;
  for (Num i = 0; i < p.vertlocnbr; i++) { if (ve) p.velo.push_back(ve[i]); if (vl) p.vlbl.push_back(vl[i]); for (Num e = vt[i]; e < nt[i]; e++) { p.adj[i].push_back({et[e - b] - b, el ? el[e - b] : 1}); k++; } }
  if (k != p.edgelocnbr) sim_violation("bad-dgraph", "process announces %d local arcs and has %ld", p.edgelocnbr, k);
  return p;
}
int CX::init(int threads, int det, int rc, Num seed) {
  int r = SCOTCH_contextInit(&c); if (r) return r; on = true;
  if (rc) { r = SCOTCH_contextRandomClone(&c); if (r) return r; SCOTCH_contextRandomSeed(&c, seed); }
  if (det) { r = SCOTCH_contextOptionSetNum(&c, SCOTCH_OPTIONNUMDETERMINISTIC, 1); if (r) return r; }
  if (threads > 0) { r = SCOTCH_contextThreadSpawn(&c, threads, nullptr); if (r) return r; }
  return 0;
}
int mpi_begin() { int p; MPI_Init_thread(nullptr, nullptr, MPI_THREAD_MULTIPLE, &p); return sim_rank(); }
void mpi_end() { MPI_Finalize(); }
void check_perm(const char *what, const Num *perm, const Num *peri, int n, Num base) {
  std::vector<char> seen(n, 0);
  for (int i = 0; i < n; i++) { Num p = perm[i] - base; if (p < 0 || p >= n) sim_violation("bad-permutation", "%s: vertex %d is numbered %d, outside of the range", what, i, perm[i]); if (seen[p]++) sim_violation("bad-permutation", "%s: number %d is given twice", what, perm[i]); }
  if (peri) for (int i = 0; i < n; i++) { Num p = peri[i] - base; if (p < 0 || p >= n || perm[p] - base != i) sim_violation("bad-permutation", "%s: inverse permutation does not match at %d", what, i); }
}
void check_blocks(const char *what, Num cblk, const Num *rang, const Num *tree, int n, Num base) {
  if (n == 0 ? cblk < 0 : cblk < 1 || cblk > n) sim_violation("bad-blocks", "%s: %d column blocks for %d vertices", what, cblk, n);
  if (rang[0] != base || rang[cblk] != base + n) sim_violation("bad-blocks", "%s: block ranges cover %d..%d instead of %d..%d", what, rang[0], rang[cblk], base, base + n);
  for (Num i = 0; i < cblk; i++) { if (rang[i + 1] <= rang[i]) sim_violation("bad-blocks", "%s: block %d is empty", what, i); if (tree) { Num f = tree[i]; if (f != -1 && (f - base <= i || f - base >= cblk)) sim_violation("bad-tree", "%s: father of block %d is %d", what, i, f); } }
}
void check_sep(const char *what, const RG &g, const Num *perm, Num cblk, const Num *rang, const Num *tree, Num base) {
  std::vector<int> blk(g.n); { std::vector<int> at(g.n); for (Num c = 0; c < cblk; c++) for (Num i = rang[c]; i < rang[c + 1]; i++) at[i - base] = c; for (int v = 0; v < g.n; v++) blk[v] = at[perm[v] - base]; }
  for (int v = 0; v < g.n; v++) for (auto &e : g.adj[v]) { int a = blk[v], b = blk[e.first]; if (a == b) continue; if (a > b) std::swap(a, b); int x = a; while (x != -1 && x != b && x < b) { Num f = tree[x]; x = f == -1 ? -1 : (int)(f - base); } if (x != b) sim_violation("bad-separator", "%s: an edge joins blocks %d and %d, neither of which is an ancestor of the other", what, a, b); }
}

CommCfg gen_comm(int maxprocs) { CommCfg g; g.procs = 1 + cfg(maxprocs); int m = cfg(6); g.mode = m < 3 ? 0 : m - 2; if (g.mode == 3 && g.procs >= 8) g.mode = 0; g.world = g.procs + (g.mode == 3 ? 1 : 0); sim_set_ranks(g.world); static const double pr[] = {0.25, 0.25, 2.0, -1.0}; sim_knobs.ptop = pr[cfg(4)]; sim_describe("comm=%d/%d/%g; ", g.procs, g.mode, sim_knobs.ptop); sim_state(g.procs * 16 + g.mode); return g; }
void WComm::open(const CommCfg &g) {
  mine = true; owned = false; c = MPI_COMM_WORLD; int r = sim_rank();
  if (g.mode == 1) { MPI_Comm_dup(MPI_COMM_WORLD, &c); owned = true; }
  else if (g.mode == 2) { MPI_Comm_split(MPI_COMM_WORLD, 0, -r, &c); owned = true; }
  else if (g.mode == 3) { mine = r != 0; MPI_Comm_split(MPI_COMM_WORLD, mine ? 1 : MPI_UNDEFINED, r, &c); owned = mine; }
  if (mine) { MPI_Comm_rank(c, &rank); MPI_Comm_size(c, &size); } else { rank = -1; size = 0; }
}
void WComm::close() { if (owned && mine) MPI_Comm_free(&c); owned = false; }
bool assemble(const std::vector<DPiece> &p, DWhole &w, std::string &why) {
  int P = (int)p.size(); w.start.assign(P + 1, 0); w.glb.assign(P + 1, 0); RG &g = w.g; g = RG(); char t[200];
  for (int i = 0; i < P; i++) { w.start[i + 1] = w.start[i] + p[i].vertlocnbr; w.glb[i + 1] = w.glb[i] + p[i].vertlocmax; if (p[i].base != p[0].base) { why = "base values differ"; return false; } if (p[i].vw != p[0].vw || p[i].ew != p[0].ew || p[i].lb != p[0].lb) { why = "processes do not agree on which optional arrays exist"; return false; } }
  g.n = w.start[P]; g.vw = p[0].vw; g.ew = p[0].ew; g.lb = p[0].lb; g.adj.assign(g.n, {}); long arcs = 0; w.owner.assign(g.n, 0);
  for (int i = 0; i < P; i++) { if (p[i].vertglbnbr != g.n) { snprintf(t, sizeof t, "process %d says the graph has %d vertices, the sum is %d", i, p[i].vertglbnbr, g.n); why = t; return false; }
    for (Num v = 0; v < p[i].vertlocnbr; v++) { int x = w.start[i] + v; w.owner[x] = i; if (g.vw) g.velo.push_back(p[i].velo[v]); if (g.lb) g.vlbl.push_back(p[i].vlbl[v]);
      for (auto &e : p[i].adj[v]) { int o = -1; for (int q = 0; q < P; q++) if (e.first >= w.glb[q] && e.first < w.glb[q] + p[q].vertlocnbr) { o = q; break; } if (o < 0) { snprintf(t, sizeof t, "vertex %d of process %d has neighbour %d, which no process holds", v, i, e.first + p[i].base); why = t; return false; } g.adj[x].push_back({w.start[o] + (e.first - w.glb[o]), e.second}); arcs++; } } }
  for (int i = 0; i < P; i++) if (p[i].edgeglbnbr != arcs) { snprintf(t, sizeof t, "process %d says the graph has %d arcs, there are %ld", i, p[i].edgeglbnbr, arcs); why = t; return false; }
  return true;
}
