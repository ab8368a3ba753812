#include "job.h"
std::string ArchSpec::str() const { static const char *nm[] = {"cmplt", "cmpltw", "mesh2", "mesh3", "meshX", "torus2", "torus3", "torusX", "hcub", "tleaf", "sub", "build0", "build2", "vcmplt", "vhcub"}; std::string s = nm[t]; for (size_t i = 0; i < p.size() && i < 12; i++) s += " " + std::to_string(p[i]); return s; }
ArchSpec gen_arch(LR &r, int maxparts, bool var) {
  ArchSpec a; a.t = r.below(var ? 15 : 13); int m = std::max(1, maxparts);
  switch (a.t) {
  case 0: a.n = 1 + r.below(m); a.p = {a.n}; break;
  case 1: a.n = 1 + r.below(m); for (int i = 0; i < a.n; i++) a.p.push_back(1 + r.below(r.chance(1, 2) ? 2 : 9)); break;
  case 2: case 5: { int x = 1 + r.below(4), y = 1 + r.below(std::max(1, m / x)); a.n = x * y; a.p = {x, y}; break; }
  case 3: case 6: { int x = 1 + r.below(3), y = 1 + r.below(3), z = 1 + r.below(std::max(1, m / (x * y))); a.n = x * y * z; a.p = {x, y, z}; break; }
  case 4: case 7: { int d = 1 + r.below(4); a.n = 1; for (int i = 0; i < d; i++) { int x = 1 + r.below(3); if (a.n * x > m) x = 1; a.n *= x; a.p.push_back(x); } break; }
  case 8: { int d = r.below(5); while ((1 << d) > m && d > 0) d--; a.n = 1 << d; a.p = {d}; break; }
  case 9: { int d = 1 + r.below(3); a.n = 1; for (int i = 0; i < d; i++) { int x = 2 + r.below(2); if (i > 0 && a.n * x > m) break; /* levels have two nodes at least */ a.n *= x; a.p.push_back(x); a.p.push_back(1 + r.below(20)); } break; }
  case 10: { int q = 2 + r.below(m + 4); a.p = {q}; std::vector<int> v(q); std::iota(v.begin(), v.end(), 0); for (int i = q - 1; i > 0; i--) std::swap(v[i], v[r.below(i + 1)]); a.n = 1 + r.below(std::min(q, m)); for (int i = 0; i < a.n; i++) a.p.push_back(v[i]); break; }
  case 11: case 12: { int n = 2 + r.below(std::max(1, m - 1)); a.n = n; a.g.n = n; a.g.adj.assign(n, {}); auto lk = [&](int u, int v, Num w) { if (u == v || a.g.edge(u, v)) return; a.g.adj[u].push_back({v, w}); a.g.adj[v].push_back({u, w}); }; a.g.ew = r.chance(1, 2); a.g.vw = r.chance(1, 3); if (a.g.vw) for (int i = 0; i < n; i++) a.g.velo.push_back(1 + r.below(4));
      for (int i = 1; i < n; i++) lk(i, r.below(i), a.g.ew ? 1 + r.below(7) : 1); for (int k = r.below(n + 1); k > 0; k--) { int u = r.below(n), v = r.below(n); lk(u, v, a.g.ew ? 1 + r.below(7) : 1); } if (r.chance(1, 3)) a.p.push_back(1 + r.below(1000)); /* arrays with gaps */ break; }
  case 13: case 14: a.n = 0; break; }
  return a;
}
int Arch::build(const ArchSpec &s) {
  if (SCOTCH_archInit(&a)) return 1; SN p(s.p); const Num *q = p.p; int r = 1;
  switch (s.t) {
  case 0: r = SCOTCH_archCmplt(&a, q[0]); break; case 1: r = SCOTCH_archCmpltw(&a, s.n, q); break; case 2: r = SCOTCH_archMesh2(&a, q[0], q[1]); break; case 3: r = SCOTCH_archMesh3(&a, q[0], q[1], q[2]); break; case 4: r = SCOTCH_archMeshX(&a, (Num)s.p.size(), q); break;
  case 5: r = SCOTCH_archTorus2(&a, q[0], q[1]); break; case 6: r = SCOTCH_archTorus3(&a, q[0], q[1], q[2]); break; case 7: r = SCOTCH_archTorusX(&a, (Num)s.p.size(), q); break; case 8: r = SCOTCH_archHcub(&a, q[0]); break;
  case 9: { V z, l; for (size_t i = 0; i < s.p.size(); i += 2) { z.push_back(s.p[i]); l.push_back(s.p[i + 1]); } SN sz(z), sl(l); r = SCOTCH_archTleaf(&a, (Num)z.size(), sz.p, sl.p); break; }
  case 10: { if (SCOTCH_archInit(&par) || SCOTCH_archCmplt(&par, q[0])) return 1; sub = true; list.set(V(s.p.begin() + 1, s.p.end())); r = SCOTCH_archSub(&a, &par, s.n, list.p); break; }
  case 11: case 12: { CG c; c.make(s.g, 0, !s.p.empty(), s.p.empty() ? 1 : s.p[0]); if (c.build()) return 1; if (s.t == 12) r = SCOTCH_archBuild2(&a, &c.g, 0, nullptr); else { SCOTCH_Strat st; SCOTCH_stratInit(&st); r = SCOTCH_archBuild0(&a, &c.g, 0, nullptr, &st); SCOTCH_stratExit(&st); } c.exit(); break; }
  case 13: r = SCOTCH_archVcmplt(&a); break; case 14: r = SCOTCH_archVhcub(&a); break; }
  if (r == 0 && s.n > 0 && SCOTCH_archSize(&a) != s.n) sim_violation("bad-architecture", "architecture %s has size %d instead of %d", s.str().c_str(), SCOTCH_archSize(&a), s.n);
  return r;
}
void Arch::exit() { SCOTCH_archExit(&a); if (sub) SCOTCH_archExit(&par); sub = false; }

RG RM::nodes() const { RG g; g.n = nn; g.adj.assign(nn, {}); std::vector<std::set<int>> s(nn); for (auto &e : en) for (int u : e) for (int v : e) if (u != v) s[u].insert(v); for (int i = 0; i < nn; i++) for (int v : s[i]) g.adj[i].push_back({v, 1}); return g; }
RM gen_mesh(int maxe) {
  RM m; LR r(91 + cfg(1 << 14)); int k = cfg(4); m.elemfirst = coin();
  if (k == 0) { int x = 1 + r.below(8), y = 1 + r.below(std::max(1, maxe / x / 2)); m.ne = x * y; m.nn = (x + 1) * (y + 1); m.en.resize(m.ne); for (int i = 0; i < x; i++) for (int j = 0; j < y; j++) m.en[i * y + j] = {i * (y + 1) + j, i * (y + 1) + j + 1, (i + 1) * (y + 1) + j, (i + 1) * (y + 1) + j + 1}; }
  else if (k == 1) { m.ne = 1 + r.below(maxe); m.nn = m.ne + 1; m.en.resize(m.ne); for (int i = 0; i < m.ne; i++) m.en[i] = {i, i + 1}; }
  else { m.ne = 1 + r.below(maxe); m.nn = 1 + r.below(maxe); m.en.resize(m.ne); for (auto &e : m.en) { int d = (k == 3 && r.chance(1, 8)) ? 0 : 1 + r.below(4); std::set<int> z; for (int i = 0; i < d; i++) z.insert(r.below(m.nn)); e.assign(z.begin(), z.end()); } }
  int w = cfg(4); m.vw = (w & 1) != 0; m.nw = (w & 2) != 0; if (m.vw) for (int i = 0; i < m.ne; i++) m.velo.push_back(1 + r.below(5)); if (m.nw) for (int i = 0; i < m.nn; i++) m.vnlo.push_back(1 + r.below(5)); m.lb = cfg(5) == 4; if (m.lb) { for (int i = 0; i < m.ne + m.nn; i++) m.vlbl.push_back(i * 3 + 1); for (int i = m.ne + m.nn - 1; i > 0; i--) std::swap(m.vlbl[i], m.vlbl[r.below(i + 1)]); }
  sim_describe("mesh k=%d ne=%d nn=%d%s%s%s%s; ", k, m.ne, m.nn, m.vw ? " ew" : "", m.nw ? " nw" : "", m.lb ? " lb" : "", m.elemfirst ? "" : " nodesfirst"); return m;
}
void CM::make(const RM &r, Num b, bool gaps, uint64_t seed) {
  base = b; int n = r.ne + r.nn; ebas = b + (r.elemfirst ? 0 : r.nn); nbas = b + (r.elemfirst ? r.ne : 0); std::vector<std::vector<Num>> adj(n); for (int e = 0; e < r.ne; e++) for (int v : r.en[e]) { adj[ebas - b + e].push_back(nbas + v); adj[nbas - b + v].push_back(ebas + e); }
  V vt, vd, ed; LR q(seed); for (int i = 0; i < n; i++) { if (gaps) for (int k = q.below(3); k > 0; k--) ed.push_back(-77); vt.push_back(b + (Num)ed.size()); for (Num x : adj[i]) ed.push_back(x); vd.push_back(b + (Num)ed.size()); } edgenbr = 0; for (auto &a : adj) edgenbr += (Num)a.size(); if (!gaps) vt.push_back(b + (Num)ed.size());
  vert.set(vt); if (gaps) vend.set(vd); edge.set(ed); if (r.vw) velo.set(r.velo); if (r.nw) vnlo.set(r.vnlo); if (r.lb) vlbl.set(r.vlbl);
}
int CM::build() { if (SCOTCH_meshInit(&m)) return 1; built = true; int n = (int)(vend.p ? vert.n : vert.n - 1); Num ne = ebas < nbas ? nbas - ebas : n - (ebas - nbas), nn = n - ne; return SCOTCH_meshBuild(&m, ebas, nbas, ne, nn, vert.p, vend.p, velo.p, vnlo.p, vlbl.p, edgenbr, edge.p); }
void CM::ro() { vert.ro(); vend.ro(); velo.ro(); vnlo.ro(); vlbl.ro(); edge.ro(); } void CM::wr() { vert.wr(); vend.wr(); velo.wr(); vnlo.wr(); vlbl.wr(); edge.wr(); }
uint64_t CM::hash() const { uint64_t h = 7; for (const SN *p : {&vert, &vend, &velo, &vnlo, &vlbl, &edge}) if (p->p) h = hashv(p->p, p->n * sizeof(Num), h); return h; }

std::string Job::desc() const { static const char *nm[] = {"order", "map", "overlap", "coarsen", "meshorder", "color"}; char b[200]; snprintf(b, sizeof b, "%s smode=%d flags=%x parts=%d%s%s%s base=%d gaps=%d bal=%g", nm[kind], smode, (int)sflags, (int)parts, fixed ? " fixed" : "", remap ? " remap" : "", list ? " list" : "", (int)base, gaps, bal); std::string s = b; if (kind == J_PART && arch) s += " arch=" + a.str(); if (smode == 2) s += " strat=" + str; return s; }
Job gen_job_on(int kind, const RG &g, Num base, bool gaps, uint64_t gs) {
  Job j; j.kind = kind; j.g = g; j.base = base; j.gaps = gaps; j.gs = gs; j.smode = std::min(cfg(6), 3); if (j.smode == 3) j.smode = 2; LR r(31 + cfg(1 << 16)); static const double bb[] = {0.05, 0.01, 0.2, 0.0, 1.0}; j.bal = bb[r.below(5)];
  static const Num of[] = {0, SCOTCH_STRATLEVELMAX, SCOTCH_STRATLEVELMIN, SCOTCH_STRATLEVELMAX | SCOTCH_STRATLEVELMIN, SCOTCH_STRATLEAFSIMPLE, SCOTCH_STRATSEPASIMPLE | SCOTCH_STRATLEVELMAX, SCOTCH_STRATSPEED, SCOTCH_STRATQUALITY | SCOTCH_STRATLEAFSIMPLE, SCOTCH_STRATDISCONNECTED};
  static const Num mf[] = {0, SCOTCH_STRATQUALITY, SCOTCH_STRATSPEED, SCOTCH_STRATBALANCE, SCOTCH_STRATSAFETY, SCOTCH_STRATRECURSIVE, SCOTCH_STRATREMAP, SCOTCH_STRATRECURSIVE | SCOTCH_STRATBALANCE};
  if (kind == J_ORDER) { j.str = st_hord(r); j.sflags = of[r.below(9)]; j.levl = r.below(5); if (r.chance(1, 5) && g.n > 1) { j.list = true; std::vector<int> v(g.n); std::iota(v.begin(), v.end(), 0); for (int i = g.n - 1; i > 0; i--) std::swap(v[i], v[r.below(i + 1)]); int k = 1 + r.below(g.n); for (int i = 0; i < k; i++) j.lst.push_back(v[i] + base); } }
  else if (kind == J_MESH) { j.str = st_hmesh(r); j.sflags = of[r.below(9)]; j.levl = r.below(5); }
  else if (kind == J_PART) { j.str = st_kmap(r); j.sflags = mf[r.below(8)]; j.arch = r.chance(3, 5); int m = 1 + r.below(r.chance(1, 4) ? 20 : 7); if (j.arch) { j.a = gen_arch(r, m); j.parts = j.a.n; } else j.parts = m; int v = r.below(4); if (j.parts > 0 && g.n > 0) { j.fixed = (v & 1) != 0; j.remap = (v & 2) != 0; }
      if (j.fixed) for (int i = 0; i < g.n; i++) j.fix.push_back(r.chance(1, 3) ? r.below(j.parts) : -1); if (j.remap) { for (int i = 0; i < g.n; i++) { j.old.push_back(j.str[0] != 'c' && r.chance(1, 6) ? -1 : r.below(j.parts)); /* a copied mapping has to be complete */ j.vmlo.push_back(r.below(5)); } j.vmlonull = r.chance(1, 3); j.emra = r.below(4) * 0.5; } 
      if (!j.remap && j.str[0] == 'c') j.str = "r{sep=h}" + j.str.substr(1); /* copying needs an old mapping */ j.dens = r.below(3) * 0.4; j.pwgt = 1 + r.below(30); }
  else if (kind == J_OVL) { j.str = st_wpart(r); j.sflags = mf[r.below(5)]; j.parts = 1 + r.below(6); }
  else if (kind == J_COARSE) { static const double rr[] = {1.0, 0.8, 0.9, 0.55}; j.ratio = rr[r.below(4)]; j.cflags = r.below(3) == 2 ? SCOTCH_COARSENNOMERGE : 0; j.minn = r.below(4) ? 1 : 1 + r.below(20); }
  return j;
}
Job gen_job(int kind, int maxn) {
  if (kind == J_MESH) { RM m = gen_mesh(maxn); RG e; Job j = gen_job_on(kind, e, cfg(2), coin(), cfg(1000)); j.m = m; return j; }
  GenOpt o; o.maxn = maxn; o.labels = cfg(6) == 5; o.empty = false; o.minn = 1; if (kind == J_OVL || kind == J_PART) o.zerow = cfg(4) == 3; RG g = gen_graph(o); Num b = cfg(2); if (cfg(10) == 9) b = 5; bool gp = coin(); uint64_t gs = cfg(1000); return gen_job_on(kind, g, b, gp, gs);
}
int job_strat(const Job &j, SCOTCH_Strat &st) {
  Num spare = std::max<Num>(1, j.parts); int sr = 0;
  switch (j.kind) {
  case J_ORDER: if (j.smode == 1) sr = SCOTCH_stratGraphOrderBuild(&st, j.sflags, j.levl, j.bal); else if (j.smode == 2) sr = SCOTCH_stratGraphOrder(&st, j.str.c_str()); break;
  case J_MESH: if (j.smode == 1) sr = SCOTCH_stratMeshOrderBuild(&st, j.sflags & ~(SCOTCH_STRATLEVELMAX | SCOTCH_STRATLEVELMIN), j.bal); else if (j.smode == 2) sr = SCOTCH_stratMeshOrder(&st, j.str.c_str()); break;
  case J_PART: if (j.parts == 0) sr = SCOTCH_stratGraphClusterBuild(&st, j.sflags & ~SCOTCH_STRATREMAP, j.pwgt, j.dens, j.bal); else if (j.smode == 1) sr = SCOTCH_stratGraphMapBuild(&st, j.sflags, spare, j.bal); else if (j.smode == 2) sr = SCOTCH_stratGraphMap(&st, j.str.c_str()); break;
  case J_OVL: if (j.smode == 1) sr = SCOTCH_stratGraphPartOvlBuild(&st, j.sflags, spare, j.bal); else if (j.smode == 2) sr = SCOTCH_stratGraphPartOvl(&st, j.str.c_str()); break; }
  return sr;
}
int run_job(const Job &j, SCOTCH_Graph *g, SCOTCH_Mesh *m, V &out, int *created) {
  int n = j.kind == J_MESH ? j.m.nn : j.g.n, r = 1; out.clear(); SCOTCH_Strat st; if (j.pre) st = *j.pre; else { if (SCOTCH_stratInit(&st)) return 1; if (job_strat(j, st)) { SCOTCH_stratExit(&st); return 3; } }
  if (j.kind == J_ORDER || j.kind == J_MESH) {
    SN pm((size_t)n), pi((size_t)n), rg((size_t)n + 1), tr((size_t)n); Num cb = -1; pm.fill(-9); pi.fill(-9); rg.fill(-9); tr.fill(-9); SN li(j.lst); li.ro();
    if (j.kind == J_MESH) r = SCOTCH_meshOrder(m, &st, pm.p, pi.p, &cb, rg.p, tr.p); else if (j.list) r = SCOTCH_graphOrderList(g, (Num)j.lst.size(), li.p, &st, pm.p, pi.p, &cb, rg.p, tr.p); else r = SCOTCH_graphOrder(g, &st, pm.p, pi.p, &cb, rg.p, tr.p);
    li.wr(); if (r == 0) { out.push_back(cb); for (SN *x : {&pm, &pi, &rg, &tr}) { V v = x->vec(); out.insert(out.end(), v.begin(), v.end()); } }
  } else if (j.kind == J_PART) {
    SN pt((size_t)n); pt.fill(-9); if (j.fixed) for (int i = 0; i < n; i++) pt[i] = j.fix[i]; SN old(j.old), vm(j.vmlo); vm.ro(); Arch A; if (j.arch && A.build(j.a)) r = 4; else {
      Num *v = j.vmlonull ? nullptr : vm.p;
      if (j.arch) r = j.remap ? (j.fixed ? SCOTCH_graphRemapFixed(g, &A.a, old.p, j.emra, v, &st, pt.p) : SCOTCH_graphRemap(g, &A.a, old.p, j.emra, v, &st, pt.p)) : (j.fixed ? SCOTCH_graphMapFixed(g, &A.a, &st, pt.p) : SCOTCH_graphMap(g, &A.a, &st, pt.p));
      else r = j.remap ? (j.fixed ? SCOTCH_graphRepartFixed(g, j.parts, old.p, j.emra, v, &st, pt.p) : SCOTCH_graphRepart(g, j.parts, old.p, j.emra, v, &st, pt.p)) : (j.fixed ? SCOTCH_graphPartFixed(g, j.parts, &st, pt.p) : SCOTCH_graphPart(g, j.parts, &st, pt.p)); }
    if (j.arch) A.exit(); vm.wr(); if (r == 0) { out = pt.vec(); if (j.remap && old.vec() != j.old) sim_violation("input-changed", "the old mapping was changed"); }
  } else if (j.kind == J_OVL) { SN pt((size_t)n); pt.fill(-9); r = SCOTCH_graphPartOvl(g, j.parts, &st, pt.p); if (r == 0) out = pt.vec(); }
  else if (j.kind == J_COLOR) { SN c((size_t)n); c.fill(-9); Num k = -1; r = SCOTCH_graphColor(g, c.p, &k, 0); if (r == 0) { out = c.vec(); out.push_back(k); } }
  else if (j.kind == J_COARSE) { SN mu(2 * (size_t)n); mu.fill(-9); SCOTCH_Graph c; SCOTCH_graphInit(&c); r = SCOTCH_graphCoarsen(g, j.minn, j.ratio, j.cflags, &c, mu.p); if (created) *created = r == 0;
    if (r == 0) { RG C = extract(&c); out.push_back(C.n); for (int i = 0; i < C.n; i++) { out.push_back(mu[2 * i]); out.push_back(mu[2 * i + 1]); } for (int i = 0; i < C.n; i++) { out.push_back(C.w(i)); auto a = C.adj[i]; std::sort(a.begin(), a.end()); for (auto &e : a) { out.push_back(e.first); out.push_back(e.second); } } SCOTCH_graphExit(&c); } else SCOTCH_graphExit(&c); if (r == 1) { out = {-1}; r = 0; } }
  if (!j.pre) SCOTCH_stratExit(&st); return r;
}
void check_job(const Job &j, const V &o) {
  if (j.kind == J_ORDER || j.kind == J_MESH) {
    RG g = j.kind == J_MESH ? j.m.nodes() : j.g; int n = g.n; Num cb = o[0]; const Num *pm = &o[1], *pi = pm + n, *rg = pi + n, *tr = rg + n + 1; Num b = j.kind == J_MESH ? j.base : j.base;
    check_perm("ordering", pm, pi, n, b); check_blocks("ordering", cb, rg, tr, n, b); bool fuzzy = j.smode == 2 && j.str.find("b{cmin") != std::string::npos; if (!fuzzy && !j.list) check_sep("ordering", g, pm, cb, rg, tr, b);
    if (j.list) { std::vector<char> in(n, 0); for (Num v : j.lst) in[v - b] = 1; int k = (int)j.lst.size(); for (int v = 0; v < n; v++) if (in[v] != (pm[v] - b >= n - k ? 1 : 0) && in[v] != (pm[v] - b < k ? 1 : 0)) { sim_probe("list-position-other"); break; } }
    if (cb > 1) sim_probe("ordered-in-blocks");
  } else if (j.kind == J_PART) {
    if ((int)o.size() != j.g.n) sim_violation("bad-mapping", "size"); std::set<Num> used;
    for (int v = 0; v < j.g.n; v++) { Num p = o[v]; if (j.parts > 0 ? (p < 0 || p >= j.parts) : p < 1 - (j.a.t == 14 ? 1 : 0)) sim_violation("bad-mapping", "vertex %d is mapped onto %d, which does not exist (%d parts)", v, p, (int)j.parts); if (j.fixed && j.fix[v] >= 0 && p != j.fix[v]) sim_violation("fixed-moved", "vertex %d, fixed on %d, is mapped onto %d", v, j.fix[v], p); used.insert(p); }
    if (used.size() > 1) sim_probe("several-parts");
  } else if (j.kind == J_OVL) {
    int sep = 0; for (int v = 0; v < j.g.n; v++) { Num p = o[v]; if (p < -1 || p >= j.parts) sim_violation("bad-mapping", "vertex %d is in part %d", v, p); sep += p == -1; } for (int v = 0; v < j.g.n; v++) if (o[v] >= 0) for (auto &e : j.g.adj[v]) if (o[e.first] >= 0 && o[e.first] != o[v]) sim_violation("bad-separator", "vertices %d and %d are neighbours and in parts %d and %d", v, e.first, o[v], o[e.first]); if (sep) sim_probe("overlap-separator");
  } else if (j.kind == J_COLOR) {
    int n = j.g.n; Num k = o[n]; for (int v = 0; v < n; v++) { if (o[v] < 0 || o[v] >= k) sim_violation("bad-colouring", "vertex %d has colour %d of %d", v, o[v], k); for (auto &e : j.g.adj[v]) if (o[e.first] == o[v]) sim_violation("bad-colouring", "neighbours %d and %d have colour %d", v, e.first, o[v]); }
  }
}
