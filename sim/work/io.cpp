#include "io.h"
const char *oname[] = {"graph", "chaco", "matrixmarket", "graph-geometry", "mesh", "mesh-geometry", "tab", "mapping", "ordering", "architecture", "architecture-text", "ordering-data", "mesh-ordering-data"};
bool two_files(int k) { return k == O_GGEOM || k == O_MGEOM; }
std::string slurp_file(const char *n) { size_t z = sim_file_size(n); return z == (size_t)-1 ? std::string() : std::string((const char*)sim_file_data(n), z); }
IoSpec gen_io(int kind, int maxn) {
  IoSpec s; s.kind = kind; s.base = coin(); s.gaps = coin(); s.sd = cfg(1 << 16); LR r(3 + s.sd); GenOpt o; o.maxn = maxn;
  switch (kind) {
  case O_GRAPH: s.g = gen_graph(o); s.loadbase = cfg(3) - 1; s.flags = cfg(4) == 3 ? 1 + cfg(3) : 0; break;
  case O_CHAC: o.zerow = false; o.labels = false; o.empty = false; o.minn = 1; s.g = gen_graph(o); if (cfg(3) == 2) { s.g.lb = true; s.g.vlbl.resize(s.g.n); for (int i = 0; i < s.g.n; i++) s.g.vlbl[i] = s.base + i; for (int i = s.g.n - 1; i > 0; i--) std::swap(s.g.vlbl[i], s.g.vlbl[r.below(i + 1)]); } break;
  case O_MMKT: o.weights = false; o.labels = false; o.empty = false; o.minn = 1; s.g = gen_graph(o); s.g.vw = s.g.ew = s.g.lb = false; s.g.velo.clear(); for (auto &a : s.g.adj) for (auto &e : a) e.second = 1; break;
  case O_GGEOM: o.minn = 1; o.empty = false; s.g = gen_graph(o); s.dim = 1 + cfg(3); for (int i = 0; i < s.g.n * s.dim; i++) s.geo.push_back((r.below(4000) - 2000) / 8.0); break;
  case O_MESH: s.m = gen_mesh(maxn / 2 + 1); s.loadbase = cfg(3) - 1; break;
  case O_MGEOM: s.m = gen_mesh(maxn / 2 + 1); s.dim = 1 + cfg(3); for (int i = 0; i < s.m.nn * s.dim; i++) s.geo.push_back((r.below(4000) - 2000) / 8.0); break;
  case O_TAB: case O_MAP: s.g = gen_graph(o); for (int i = 0; i < s.g.n; i++) s.part.push_back(r.below(9) - (r.chance(1, 9) ? 1 : 0)); if (kind == O_MAP) for (auto &x : s.part) if (x < 0) x = 0; break;
  case O_ORDER: o.labels = false; o.empty = false; o.minn = 1; s.g = gen_graph(o); s.g.lb = false; s.g.vlbl.clear(); break;
  case O_ORDX: o.empty = false; o.minn = 1; s.g = gen_graph(o); s.var = cfg(3); break;
  case O_MORD: s.m = gen_mesh(maxn / 2 + 1); s.var = cfg(3); break;
  case O_ARCH: s.a = gen_arch(r, 24, true); sim_describe("%s ", s.a.str().c_str()); break;
  case O_ARCHTXT: { int t = cfg(3); if (t == 0) { int d = 1 + r.below(3), n = 1; s.text = "ltleaf " + std::to_string(d); for (int i = 0; i < d; i++) { int z = 2 + r.below(2); n *= z; s.text += " " + std::to_string(z) + " " + std::to_string(1 + r.below(9)); } V p; for (int i = 0; i < n; i++) p.push_back(i); for (int i = n - 1; i > 0; i--) std::swap(p[i], p[r.below(i + 1)]); s.text += "\n" + std::to_string(n); for (Num x : p) s.text += " " + std::to_string(x); s.text += "\n"; }
      else if (t == 1) { s.text = "dist " + std::to_string(1 + r.below(5)) + " "; static const char *in[] = {"cmplt 5", "mesh2D 3 2", "hcub 3", "tleaf 2 3 5 2 1", "torus2D 3 3"}; s.text += std::string(in[r.below(5)]) + "\n"; }
      else { static const char *in[] = {"mesh2D 4 3", "hcub 3", "torus3D 2 2 3", "cmplt 12"}; static const int sz[] = {12, 8, 12, 12}; int q = r.below(4); V v; for (int i = 0; i < sz[q]; i++) v.push_back(i); for (int i = sz[q] - 1; i > 0; i--) std::swap(v[i], v[r.below(i + 1)]); int k = 1 + r.below(sz[q]); s.text = "sub " + std::to_string(k); for (int i = 0; i < k; i++) s.text += " " + std::to_string(v[i]); s.text += " " + std::string(in[q]) + "\n"; }
      sim_describe("%s ", s.text.substr(0, 60).c_str()); break; } }
  sim_describe("%s base=%d gaps=%d loadbase=%d flags=%d dim=%d; ", oname[kind], s.base, s.gaps, s.loadbase, s.flags, s.dim); sim_state(kind * 64 + s.base * 2 + s.gaps); return s;
}
static std::string geotext(const IoSpec &s, int n, Num base, const V *lab, uint64_t sd) { std::vector<int> o(n); std::iota(o.begin(), o.end(), 0); LR r(sd); if (sd & 1) for (int i = n - 1; i > 0; i--) std::swap(o[i], o[r.below(i + 1)]); std::string t = std::to_string(s.dim) + "\n" + std::to_string(n) + "\n"; char b[64]; for (int i : o) { t += std::to_string(lab ? (*lab)[i] : base + i); for (int k = 0; k < s.dim; k++) { snprintf(b, sizeof b, "\t%f", s.geo[i * s.dim + k]); t += b; } t += "\n"; } return t; }
static void cmpgeom(const IoSpec &s, const SCOTCH_Geom *g, int n, const char *what) { Num d; double *t; SCOTCH_geomData(g, &d, &t); if (d != s.dim) sim_violation("not-same", "%s: geometry has dimension %d instead of %d", what, d, s.dim); for (int i = 0; i < n * s.dim; i++) if (t[i] != s.geo[i]) sim_violation("not-same", "%s: coordinate %d of vertex %d is %f instead of %f", what, i % s.dim, i / s.dim, t[i], s.geo[i]); }
static void cmparch(SCOTCH_Arch *a, SCOTCH_Arch *b, const char *what) {
  if (strcmp(SCOTCH_archName(a), SCOTCH_archName(b))) sim_violation("not-same", "%s: name %s instead of %s", what, SCOTCH_archName(b), SCOTCH_archName(a)); Num n = SCOTCH_archSize(a); if (SCOTCH_archSize(b) != n) sim_violation("not-same", "%s: size %d instead of %d", what, SCOTCH_archSize(b), n); if (SCOTCH_archVar(a) != SCOTCH_archVar(b)) sim_violation("not-same", "%s: variable-size flag differs", what);
  SCOTCH_ArchDom da, db; std::vector<std::pair<SCOTCH_ArchDom, SCOTCH_ArchDom>> q, all; if (SCOTCH_archDomFrst(a, &da) || SCOTCH_archDomFrst(b, &db)) sim_violation("not-same", "%s: no first domain", what); q.push_back({da, db}); int lim = SCOTCH_archVar(a) ? 15 : 200;
  for (size_t i = 0; i < q.size() && (int)i < lim; i++) { auto x = q[i]; all.push_back(x); Num sa = SCOTCH_archDomSize(a, &x.first), sb = SCOTCH_archDomSize(b, &x.second), wa = SCOTCH_archDomWght(a, &x.first), wb = SCOTCH_archDomWght(b, &x.second), na = SCOTCH_archDomNum(a, &x.first), nb = SCOTCH_archDomNum(b, &x.second); if (sa != sb || wa != wb || na != nb) sim_violation("not-same", "%s: domain size %d weight %d number %d instead of %d, %d, %d", what, sb, wb, nb, sa, wa, na);
    SCOTCH_ArchDom a0, a1, b0, b1; int ra = SCOTCH_archDomBipart(a, &x.first, &a0, &a1), rb = SCOTCH_archDomBipart(b, &x.second, &b0, &b1); if (ra != rb) sim_violation("not-same", "%s: bipartitioning a domain returns %d instead of %d", what, rb, ra); if (ra == 0) { q.push_back({a0, b0}); q.push_back({a1, b1}); } }
  for (size_t i = 0; i < all.size() && i < 40; i++) for (size_t j = 0; j < all.size() && j < 40; j++) { Num x = SCOTCH_archDomDist(a, &all[i].first, &all[j].first), y = SCOTCH_archDomDist(b, &all[i].second, &all[j].second); if (x != y) sim_violation("not-same", "%s: distance %d instead of %d", what, y, x); }
  if (!SCOTCH_archVar(a)) for (Num i = 0; i < n; i++) { int ra = SCOTCH_archDomTerm(a, &da, i), rb = SCOTCH_archDomTerm(b, &db, i); if (ra != rb || (ra == 0 && (SCOTCH_archDomNum(a, &da) != SCOTCH_archDomNum(b, &db) || SCOTCH_archDomWght(a, &da) != SCOTCH_archDomWght(b, &db)))) sim_violation("not-same", "%s: terminal %d differs", what, i); }
}
void IoLive::open(const IoSpec &s_) {
  s = &s_; int k = s->kind;
  if (k <= O_GGEOM || k == O_TAB || k == O_MAP || k == O_ORDER || k == O_ORDX) { C.make(s->g, s->base, s->gaps, s->sd); OKCALL(C.build()); }
  if (k == O_MESH || k == O_MGEOM || k == O_MORD) { M.make(s->m, s->base, s->gaps, s->sd); OKCALL(M.build()); }
  if (two_files(k)) { hasgeom = true; OKCALL(SCOTCH_geomInit(&geom)); bool gr = k == O_GGEOM; int n = gr ? s->g.n : s->m.nn; V lab; if (!gr && s->m.lb) lab = V(s->m.vlbl.begin() + (M.nbas - s->base), s->m.vlbl.begin() + (M.nbas - s->base) + n); else if (gr && s->g.lb) lab = s->g.vlbl; std::string t = geotext(*s, n, gr ? s->base : M.nbas, lab.empty() ? nullptr : &lab, s->sd); sim_file_put("geo0", t.data(), t.size()); FILE *f = sim_fopen("geo0", "r"); int rc = gr ? SCOTCH_graphGeomLoadScot(&C.g, &geom, nullptr, f, nullptr) : SCOTCH_meshGeomLoadScot(&M.m, &geom, nullptr, f, nullptr); fclose(f); if (rc) sim_violation("call-failed", "geometry file could not be loaded: %s", sim_err_last(sim_rank())); cmpgeom(*s, &geom, n, "geometry read for an existing object"); }
  if (k == O_TAB || k == O_MAP) part.set(s->part); if (k == O_MAP) { hasarch = hasmap = true; OKCALL(SCOTCH_archInit(&one)); OKCALL(SCOTCH_archCmplt(&one, 9)); OKCALL(SCOTCH_graphMapInit(&C.g, &map, &one, part.p)); }
  if (k == O_MORD) { int n = s->m.nn; perm.alloc(n); peri.alloc(n); rang.alloc(n + 1); tree.alloc(n); hasmord = true; OKCALL(SCOTCH_meshOrderInit(&M.m, &ord, perm.p, peri.p, &cblk, rang.p, tree.p)); SCOTCH_Strat st; OKCALL(SCOTCH_stratInit(&st)); OKCALL(SCOTCH_meshOrderCompute(&M.m, &ord, &st)); SCOTCH_stratExit(&st); }
  if (k == O_ORDER || k == O_ORDX) { int n = s->g.n; perm.alloc(n); peri.alloc(n); rang.alloc(n + 1); tree.alloc(n); hasord = true; OKCALL(SCOTCH_graphOrderInit(&C.g, &ord, perm.p, peri.p, &cblk, rang.p, tree.p)); SCOTCH_Strat st; OKCALL(SCOTCH_stratInit(&st)); OKCALL(SCOTCH_graphOrderCompute(&C.g, &ord, &st)); SCOTCH_stratExit(&st); }
  if (k == O_ARCH) OKCALL(A.build(s->a)); if (k == O_ARCHTXT) { OKCALL(SCOTCH_archInit(&A.a)); sim_file_put("arch0", s->text.data(), s->text.size()); FILE *f = sim_fopen("arch0", "r"); int rc = SCOTCH_archLoad(&A.a, f); fclose(f); if (rc) sim_violation("call-failed", "architecture could not be loaded: %s", sim_err_last(sim_rank())); }
}
int IoLive::save(FILE *f, FILE *f2) {
  switch (s->kind) { case O_GRAPH: return SCOTCH_graphSave(&C.g, f); case O_CHAC: return SCOTCH_graphGeomSaveChac(&C.g, nullptr, f, nullptr, nullptr); case O_MMKT: return SCOTCH_graphGeomSaveMmkt(&C.g, nullptr, f, nullptr, nullptr); case O_GGEOM: return SCOTCH_graphGeomSaveScot(&C.g, &geom, f, f2, nullptr); case O_MESH: return SCOTCH_meshSave(&M.m, f); case O_MGEOM: return SCOTCH_meshGeomSaveScot(&M.m, &geom, f, f2, nullptr); case O_TAB: return SCOTCH_graphTabSave(&C.g, part.p, f); case O_MAP: return SCOTCH_graphMapSave(&C.g, &map, f); case O_ORDER: return SCOTCH_graphOrderSave(&C.g, &ord, f); case O_ORDX: return s->var == 0 ? SCOTCH_graphOrderSave(&C.g, &ord, f) : s->var == 1 ? SCOTCH_graphOrderSaveMap(&C.g, &ord, f) : SCOTCH_graphOrderSaveTree(&C.g, &ord, f); case O_MORD: return s->var == 0 ? SCOTCH_meshOrderSave(&M.m, &ord, f) : s->var == 1 ? SCOTCH_meshOrderSaveMap(&M.m, &ord, f) : SCOTCH_meshOrderSaveTree(&M.m, &ord, f); default: return SCOTCH_archSave(&A.a, f); }
}
void IoLive::close() { if (hasmord) SCOTCH_meshOrderExit(&M.m, &ord); if (hasord) SCOTCH_graphOrderExit(&C.g, &ord); if (hasmap) SCOTCH_graphMapExit(&C.g, &map); if (hasarch) SCOTCH_archExit(&one); if (hasgeom) SCOTCH_geomExit(&geom); C.exit(); M.exit(); if (s->kind == O_ARCH) A.exit(); if (s->kind == O_ARCHTXT) SCOTCH_archExit(&A.a); }
static void cmpmesh(const IoSpec &s, const SCOTCH_Mesh *m, Num wantbase) {
  Num eb, nb, en, nn, ne, dm, *vt, *vd, *ve, *vn, *vl, *et; SCOTCH_meshData(m, &eb, &nb, &en, &nn, &vt, &vd, &ve, &vn, &vl, &ne, &et, &dm); const RM &r = s.m; Num b = std::min(eb, nb); if (en != r.ne || nn != r.nn) sim_violation("not-same", "mesh has %d elements and %d nodes instead of %d and %d", en, nn, r.ne, r.nn); if (b != wantbase) sim_violation("not-same", "mesh has base %d instead of %d", b, wantbase); if ((eb < nb) != r.elemfirst) sim_violation("not-same", "elements and nodes are swapped");
  for (int e = 0; e < en; e++) { std::multiset<int> x, y(r.en[e].begin(), r.en[e].end()); for (Num k = vt[eb - b + e]; k < vd[eb - b + e]; k++) x.insert(et[k - b] - nb); if (x != y) sim_violation("not-same", "nodes of element %d differ", e); } std::vector<std::multiset<int>> o(nn); for (int e = 0; e < en; e++) for (int v : r.en[e]) o[v].insert(e); for (int v = 0; v < nn; v++) { std::multiset<int> x; for (Num k = vt[nb - b + v]; k < vd[nb - b + v]; k++) x.insert(et[k - b] - eb); if (x != o[v]) sim_violation("not-same", "elements of node %d differ", v); }
  for (int e = 0; e < en; e++) { Num w = ve ? ve[e] : 1, q = r.vw ? r.velo[e] : 1; if (w != q) sim_violation("not-same", "weight of element %d is %d instead of %d", e, w, q); } for (int v = 0; v < nn; v++) { Num w = vn ? vn[v] : 1, q = r.nw ? r.vnlo[v] : 1; if (w != q) sim_violation("not-same", "weight of node %d is %d instead of %d", v, w, q); }
  if (r.lb != (vl != nullptr)) sim_violation("not-same", "mesh labels %s", vl ? "appeared" : "were lost"); if (vl) for (int i = 0; i < en + nn; i++) if (vl[i] != r.vlbl[i]) sim_violation("not-same", "label of vertex %d is %d instead of %d", i, vl[i], r.vlbl[i]);
}
static void cmpgraph(const IoSpec &s, SCOTCH_Graph *g, const RG &want, Num wantbase, const char *what) { Num b; RG x = extract(g, &b); if (b != wantbase) sim_violation("not-same", "%s: base %d instead of %d", what, b, wantbase); std::string why; if (!same_graph(want, x, why)) sim_violation("not-same", "%s: %s", what, why.c_str()); }
int IoLive::load(FILE *f, FILE *f2, bool cmp) {
  int rc, k = s->kind;
  switch (k) {
  case O_GRAPH: case O_CHAC: case O_MMKT: case O_GGEOM: { SCOTCH_Graph g; SCOTCH_Geom ge; OKCALL(SCOTCH_graphInit(&g)); OKCALL(SCOTCH_geomInit(&ge)); RG w = s->g; Num wb = s->base;
      if (k == O_GRAPH) { rc = SCOTCH_graphLoad(&g, f, s->loadbase, s->flags); if (s->loadbase >= 0) wb = s->loadbase; if (s->flags & 1) { w.vw = false; w.velo.clear(); } if (s->flags & 2) { w.ew = false; for (auto &a : w.adj) for (auto &e : a) e.second = 1; } } else if (k == O_CHAC) { rc = SCOTCH_graphGeomLoadChac(&g, &ge, f, nullptr, nullptr); wb = 1; if (w.lb) for (auto &x : w.vlbl) x += 1 - s->base; } else if (k == O_MMKT) { rc = SCOTCH_graphGeomLoadMmkt(&g, &ge, f, nullptr, mm0 ? "0" : s->sd & 2 ? "1" : nullptr); wb = mm0 ? 0 : 1; } else rc = SCOTCH_graphGeomLoadScot(&g, &ge, f, f2, nullptr);
      if (rc == 0) { if (SCOTCH_graphCheck(&g)) sim_violation("inconsistent", "a %s file was loaded without error but the graph fails its check", oname[k]); if (cmp) { cmpgraph(*s, &g, w, wb, "loaded graph"); if (k == O_GGEOM) cmpgeom(*s, &ge, s->g.n, "loaded geometry"); } else { RG x = extract(&g); if (k == O_GGEOM) { Num d; double *t; SCOTCH_geomData(&ge, &d, &t); if (d < 1 || d > 3) sim_violation("inconsistent", "a geometry was loaded without error with dimension %d", d); volatile double z = 0; for (int i = 0; i < x.n * d; i++) z = z + t[i]; } } } if (s->sd & 4) SCOTCH_graphFree(&g); SCOTCH_graphExit(&g); SCOTCH_geomExit(&ge); return rc; }
  case O_MESH: case O_MGEOM: { SCOTCH_Mesh m; SCOTCH_Geom ge; OKCALL(SCOTCH_meshInit(&m)); OKCALL(SCOTCH_geomInit(&ge)); rc = k == O_MESH ? SCOTCH_meshLoad(&m, f, s->loadbase) : SCOTCH_meshGeomLoadScot(&m, &ge, f, f2, nullptr); if (rc == 0) { if (SCOTCH_meshCheck(&m)) sim_violation("inconsistent", "a %s file was loaded without error but the mesh fails its check", oname[k]); if (cmp) { cmpmesh(*s, &m, k == O_MESH && s->loadbase >= 0 ? s->loadbase : s->base); if (k == O_MGEOM) cmpgeom(*s, &ge, s->m.nn, "loaded mesh geometry"); } } SCOTCH_meshExit(&m); SCOTCH_geomExit(&ge); return rc; }
  case O_TAB: { SN p(s->g.n); p.fill(-55); rc = SCOTCH_graphTabLoad(&C.g, p.p, f); if (rc == 0 && cmp) for (int i = 0; i < s->g.n; i++) if (p[i] != s->part[i]) sim_violation("not-same", "part of vertex %d is %d instead of %d", i, p[i], s->part[i]); return rc; }
  case O_MAP: { SN p(s->g.n); p.fill(-55); SCOTCH_Mapping m; OKCALL(SCOTCH_graphMapInit(&C.g, &m, &one, p.p)); rc = SCOTCH_graphMapLoad(&C.g, &m, f); if (rc == 0 && cmp) for (int i = 0; i < s->g.n; i++) if (p[i] != s->part[i]) sim_violation("not-same", "part of vertex %d is %d instead of %d", i, p[i], s->part[i]); SCOTCH_graphMapExit(&C.g, &m); return rc; }
  case O_ORDER: { int n = s->g.n; SN p(n), q(n); p.fill(-1); q.fill(-1); SCOTCH_Ordering o; OKCALL(SCOTCH_graphOrderInit(&C.g, &o, p.p, q.p, nullptr, nullptr, nullptr)); rc = SCOTCH_graphOrderLoad(&C.g, &o, f); if (rc == 0) { V seen(n, 0); for (int i = 0; i < n; i++) { Num x = q[i] - s->base; if (x < 0 || x >= n || seen[x]++) sim_violation("inconsistent", "an ordering file was loaded without error but it is not a permutation"); if (p[x] != i + s->base) sim_violation("inconsistent", "loaded ordering: direct and inverse permutations disagree"); } if (SCOTCH_graphOrderCheck(&C.g, &o)) sim_violation("inconsistent", "an ordering was loaded without error but fails its check"); if (cmp) for (int i = 0; i < n; i++) if (p[i] != perm[i] || q[i] != peri[i]) sim_violation("not-same", "loaded ordering differs at vertex %d", i); } SCOTCH_graphOrderExit(&C.g, &o); return rc; }
  case O_ORDX: case O_MORD: { bool mesh = k == O_MORD; int n = mesh ? s->m.nn : s->g.n; Num b = s->base; const V &l = mesh ? s->m.vlbl : s->g.vlbl; bool lb = mesh ? s->m.lb : s->g.lb; int off = mesh ? (int)(M.nbas - b) : 0; std::string t; for (int c; (c = getc(f)) != EOF; ) t += (char)c; std::vector<Num> blk(n); for (Num c = 0; c < cblk && n > 0; c++) for (Num i = rang[c]; i < rang[c + 1]; i++) blk[peri[i - b] - b] = c; std::string w = std::to_string(n) + "\n";
      auto lab = [&](int i) { return std::to_string(lb ? l[off + i] : b + i); }; for (int i = 0; i < n; i++) w += lab(i) + "\t" + (s->var == 0 ? lab(perm[i] - b) : s->var == 1 ? std::to_string(blk[i]) : std::to_string(tree[blk[i]])) + "\n"; 
      if (cmp && t != w) sim_violation("not-same", "the file of a %s (%s) does not say what the arrays say: %.60s... instead of %.60s...", oname[k], s->var == 0 ? "permutation" : s->var == 1 ? "blocks" : "tree", t.c_str(), w.c_str()); return 0; }
  default: { SCOTCH_Arch a; OKCALL(SCOTCH_archInit(&a)); rc = SCOTCH_archLoad(&a, f); if (rc == 0) { if (cmp) { cmparch(&A.a, &a, "loaded architecture"); if (orig) { FILE *g = sim_fopen("resave", "w"); OKCALL(SCOTCH_archSave(&a, g)); ::fclose(g); g = sim_fopen("resave", "r"); SCOTCH_Arch a2; OKCALL(SCOTCH_archInit(&a2)); if (SCOTCH_archLoad(&a2, g)) sim_violation("not-same", "an architecture that was saved, loaded and saved again cannot be loaded: %s", sim_err_last(sim_rank())); ::fclose(g); cmparch(&A.a, &a2, "architecture saved, loaded, saved and loaded"); SCOTCH_archExit(&a2); } } else { SCOTCH_ArchDom d; SCOTCH_archSize(&a); SCOTCH_archName(&a); if (SCOTCH_archDomFrst(&a, &d)) sim_violation("inconsistent", "an architecture was loaded without error but has no first domain"); FILE *g = sim_fopen("resave", "w"); SCOTCH_archSave(&a, g); ::fclose(g); } } SCOTCH_archExit(&a); return rc; } }
}

// Harwell-Boeing files, which the library only reads
static std::string hbnum(const std::vector<int> &v, int per, int wid) { std::string t; char b[32]; for (size_t i = 0; i < v.size(); i++) { snprintf(b, sizeof b, "%*d", wid, v[i]); t += b; if ((int)(i + 1) % per == 0 || i + 1 == v.size()) t += "\n"; } return t; }
static std::string hbhead(const char *type, int rows, int cols, int nz, int per1, int w1, int per2, int w2, int extra, int lines) { char b[512]; snprintf(b, sizeof b, "%-72s%-8s\n%14d%14d%14d%14d%14d\n%-14s%14d%14d%14d%14d\n%-16s%-16s%-20s%-20s\n", "generated", "key", lines, 0, 0, 0, extra, type, rows, cols, nz, 0, ("(" + std::to_string(per1) + "I" + std::to_string(w1) + ")").c_str(), ("(" + std::to_string(per2) + "I" + std::to_string(w2) + ")").c_str(), "", ""); return b; }
std::string habo_graph(LR &r, RG &g) { GenOpt o; o.maxn = 30; o.minn = 1; o.empty = false; o.weights = o.labels = false; g = gen_graph(o); g.vw = g.ew = g.lb = false; g.velo.clear(); for (auto &a : g.adj) for (auto &e : a) e.second = 1; std::vector<int> col, row; bool loops = r.chance(1, 2), full = r.chance(1, 3); for (int v = 0; v < g.n; v++) { col.push_back((int)row.size() + 1); if (loops) row.push_back(v + 1); for (auto &e : g.adj[v]) if (full || e.first > v) row.push_back(e.first + 1); } col.push_back((int)row.size() + 1); int p1 = 1 + r.below(10), p2 = 1 + r.below(10), w1 = 5 + r.below(3), w2 = 4 + r.below(4); return hbhead(full ? "PUA" : "PSA", g.n, g.n, (int)row.size(), p1, w1, p2, w2, 0, 1) + hbnum(col, p1, w1) + hbnum(row, p2, w2); }
std::string habo_mesh(LR &r) { RM m = gen_mesh(15); std::vector<int> col, row; for (int e = 0; e < m.ne; e++) { col.push_back((int)row.size() + 1); for (int v : m.en[e]) row.push_back(v + 1); } col.push_back((int)row.size() + 1); int p1 = 1 + r.below(10), p2 = 1 + r.below(10), w1 = 5 + r.below(3), w2 = 4 + r.below(4); return hbhead("PSE", m.nn, m.ne, (int)row.size(), p1, w1, p2, w2, 0, 1) + hbnum(col, p1, w1) + hbnum(row, p2, w2); }
int habo_load(bool mesh, FILE *f, const char *tag, const RG *want) {
  int rc; SCOTCH_Geom ge; OKCALL(SCOTCH_geomInit(&ge));
  if (mesh) { SCOTCH_Mesh m; OKCALL(SCOTCH_meshInit(&m)); rc = SCOTCH_meshGeomLoadHabo(&m, &ge, f, nullptr, tag); if (rc == 0 && SCOTCH_meshCheck(&m)) sim_violation("inconsistent", "a Harwell-Boeing file was loaded without error but the mesh fails its check"); SCOTCH_meshExit(&m); }
  else { SCOTCH_Graph g; OKCALL(SCOTCH_graphInit(&g)); rc = SCOTCH_graphGeomLoadHabo(&g, &ge, f, nullptr, tag); if (rc == 0) { if (SCOTCH_graphCheck(&g)) sim_violation("inconsistent", "a Harwell-Boeing file was loaded without error but the graph fails its check"); RG x = extract(&g); if (want) { std::string why; if (!same_graph(*want, x, why)) sim_violation("not-same", "graph of a Harwell-Boeing file: %s", why.c_str()); } } SCOTCH_graphExit(&g); }
  SCOTCH_geomExit(&ge); return rc;
}
