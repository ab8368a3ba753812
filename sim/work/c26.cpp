// C26: an object bound to a context can stand for the object itself in every routine: each routine is called on the object and on a container of it, with the pseudo-random generator in the same state.
#include "job.h"
#include "io.h"
#include <sstream>
namespace { enum { K_ACC, K_STAT, K_FILES, K_GEOM, K_ORD, K_MAP, K_JOB, K_COARSE, K_INDUCE, K_ARCH, K_MACC, K_MFILES, K_MORD, K_MGRAPH, K_NB }; static const char *kn[] = {"accessors", "statistics", "files", "geometry files", "ordering object", "mapping object", "computation", "coarsening", "induced graph and colouring", "architecture", "mesh accessors", "mesh files", "mesh ordering", "graph of a mesh"};
  struct S { RG g; RM m; Num base; bool gaps, own, det; uint64_t gs; Num seed; std::vector<int> ops; std::vector<Job> jobs; std::vector<uint64_t> sd; }; }
static CG *G; static CM *M; static const Num *Gp[8];
static void setup() {
  S *s = newshared<S>(); GenOpt o; o.maxn = 50; o.empty = false; o.minn = 1; o.zerow = false; s->g = gen_graph(o); s->m = gen_mesh(20); s->base = cfg(2); s->gaps = coin(); s->own = coin(); s->det = coin(); s->gs = cfg(1000); s->seed = cfg(1000); int k = 1 + cfg(4), h = 0;
  for (int i = 0; i < k; i++) { int w = cfg(K_NB); s->ops.push_back(w); s->sd.push_back(cfg(1 << 16)); Job j; if (w == K_JOB) { static const int kk[] = {J_ORDER, J_PART, J_OVL}; j = gen_job_on(kk[cfg(3)], s->g, s->base, s->gaps, s->gs); } else if (w == K_MORD) { RG e; j = gen_job_on(J_MESH, e, s->base, s->gaps, s->gs); j.m = s->m; } s->jobs.push_back(j); h = h * 15 + w + 1; }
  sim_describe("ops=%d base=%d gaps=%d own=%d det=%d", h, s->base, s->gaps, s->own, s->det); sim_state(h % 3000);
}
static void put(std::string &o, const char *n, long x) { o += std::string(n) + "=" + std::to_string(x) + "\n"; }
static void putd(std::string &o, const char *n, double x) { char b[64]; snprintf(b, sizeof b, "%.12g", x); o += std::string(n) + "=" + b + "\n"; }
static void putv(std::string &o, const char *n, const V &v) { o += n; for (Num x : v) o += " " + std::to_string(x); o += "\n"; }
static void putg(std::string &o, const char *n, const SCOTCH_Graph *g) { Num b; RG r = extract(g, &b); put(o, n, r.n); put(o, "base", b); for (int v = 0; v < r.n; v++) { put(o, "w", r.w(v)); V a; for (auto &e : r.adj[v]) { a.push_back(e.first); a.push_back(e.second); } putv(o, "a", a); } if (r.lb) putv(o, "labels", r.vlbl); }
template <class F> static void tofile(std::string &o, const char *n, F f) { FILE *p = sim_fopen("c26", "w"); put(o, n, f(p)); fclose(p); o += slurp_file("c26"); }
static std::string run(int i, SCOTCH_Graph *g, SCOTCH_Mesh *m) {
  S &s = shared<S>(); std::string o; LR r(s.sd[i] + 11); int n = s.g.n;
  switch (s.ops[i]) {
  case K_ACC: { Num a, b; SCOTCH_graphSize(g, &a, &b); put(o, "vertices", a); put(o, "edges", b); Num base, vn, en, *p[7]; SCOTCH_graphData(g, &base, &vn, &p[0], &p[1], &p[2], &p[3], &en, &p[4], &p[5]); put(o, "base", base); put(o, "vn", vn); put(o, "en", en); for (int k = 0; k < 6; k++) o += std::to_string((unsigned long)(uintptr_t)p[k]) + "\n"; put(o, "check", SCOTCH_graphCheck(g)); put(o, "diameter", SCOTCH_graphDiamPV(g)); if (!s.g.lb) { put(o, "rebase", SCOTCH_graphBase(g, 2)); put(o, "back", SCOTCH_graphBase(g, s.base)); } break; }
  case K_STAT: { Num q[8]; double d[6]; SCOTCH_graphStat(g, &q[0], &q[1], &q[2], &d[0], &d[1], &q[3], &q[4], &d[2], &d[3], &q[5], &q[6], &q[7], &d[4], &d[5]); for (Num x : q) put(o, "q", x); for (double x : d) putd(o, "d", x); break; }
  case K_FILES: tofile(o, "save", [&](FILE *f) { return SCOTCH_graphSave(g, f); }); tofile(o, "dump", [&](FILE *f) { return SCOTCH_graphDump(g, "a", "b", f); }); { SN t((size_t)n); for (int v = 0; v < n; v++) t[v] = r.below(7); tofile(o, "tabsave", [&](FILE *f) { return SCOTCH_graphTabSave(g, t.p, f); }); SN u((size_t)n); u.fill(-5); std::string x = slurp_file("c26"); sim_file_put("c26r", x.data(), x.size()); FILE *f = sim_fopen("c26r", "r"); put(o, "tabload", SCOTCH_graphTabLoad(g, u.p, f)); fclose(f); putv(o, "tab", u.vec()); } break;
  case K_GEOM: { SCOTCH_Geom ge; OKCALL(SCOTCH_geomInit(&ge)); std::string t = "2\n" + std::to_string(n) + "\n"; for (int v = 0; v < n; v++) t += std::to_string(s.g.lb ? s.g.vlbl[v] : v + s.base) + " " + std::to_string(v) + ".5 " + std::to_string(r.below(100)) + ".25\n"; sim_file_put("c26g", t.data(), t.size()); FILE *f = sim_fopen("c26g", "r"); put(o, "geomload", SCOTCH_graphGeomLoadScot(g, &ge, nullptr, f, nullptr)); fclose(f); Num d; double *x; SCOTCH_geomData(&ge, &d, &x); put(o, "dim", d); if (d == 2) for (int k = 0; k < 2 * n; k++) putd(o, "x", x[k]);
    tofile(o, "chaco", [&](FILE *p) { return SCOTCH_graphGeomSaveChac(g, nullptr, p, nullptr, nullptr); }); tofile(o, "mmkt", [&](FILE *p) { return SCOTCH_graphGeomSaveMmkt(g, nullptr, p, nullptr, nullptr); }); FILE *q = sim_fopen("c26h", "w"); tofile(o, "scot", [&](FILE *p) { return SCOTCH_graphGeomSaveScot(g, &ge, p, q, nullptr); }); fclose(q); o += slurp_file("c26h"); SCOTCH_geomExit(&ge); break; }
  case K_ORD: { SN pm((size_t)n), pi((size_t)n), rg((size_t)n + 1), tr((size_t)n); rg.fill(-3); tr.fill(-3); Num cb = -1; SCOTCH_Ordering od; put(o, "init", SCOTCH_graphOrderInit(g, &od, pm.p, pi.p, &cb, rg.p, tr.p)); SCOTCH_Strat st; OKCALL(SCOTCH_stratInit(&st)); if (r.chance(1, 2)) put(o, "compute", SCOTCH_graphOrderCompute(g, &od, &st)); else { V l; for (int v = 0; v < n; v++) if (r.chance(1, 2) || v == 0) l.push_back(v + s.base); SN ls(l); put(o, "computelist", SCOTCH_graphOrderComputeList(g, &od, (Num)l.size(), ls.p, &st)); } SCOTCH_stratExit(&st); put(o, "check", SCOTCH_graphOrderCheck(g, &od)); putv(o, "perm", pm.vec()); putv(o, "peri", pi.vec()); put(o, "cblk", cb); if (cb >= 0 && cb <= n) { putv(o, "rang", V(rg.p, rg.p + cb + 1)); putv(o, "tree", V(tr.p, tr.p + cb)); }
    tofile(o, "save", [&](FILE *f) { return SCOTCH_graphOrderSave(g, &od, f); }); std::string x = slurp_file("c26"); tofile(o, "savemap", [&](FILE *f) { return SCOTCH_graphOrderSaveMap(g, &od, f); }); tofile(o, "savetree", [&](FILE *f) { return SCOTCH_graphOrderSaveTree(g, &od, f); }); if (!s.g.lb) { sim_file_put("c26r", x.data(), x.size()); FILE *f = sim_fopen("c26r", "r"); put(o, "load", SCOTCH_graphOrderLoad(g, &od, f)); fclose(f); putv(o, "perm", pm.vec()); } SCOTCH_graphOrderExit(g, &od); break; }
  case K_MAP: { Num k = 2 + r.below(5); SCOTCH_Arch a; OKCALL(SCOTCH_archInit(&a)); OKCALL(r.chance(1, 2) ? SCOTCH_archCmplt(&a, k) : SCOTCH_archMesh2(&a, k, 2)); Num parts = SCOTCH_archSize(&a); SN p1((size_t)n), p2((size_t)n), p3((size_t)n); for (int v = 0; v < n; v++) { p1[v] = -1; p2[v] = r.below(parts); p3[v] = r.below(4) ? -1 : r.below(parts); } SCOTCH_Mapping m1, m2, m3; put(o, "init", SCOTCH_graphMapInit(g, &m1, &a, p1.p)); OKCALL(SCOTCH_graphMapInit(g, &m2, &a, p2.p)); OKCALL(SCOTCH_graphMapInit(g, &m3, &a, p3.p)); SCOTCH_Strat st; OKCALL(SCOTCH_stratInit(&st));
    switch (r.below(4)) { case 0: put(o, "map", SCOTCH_graphMapCompute(g, &m1, &st)); break; case 1: put(o, "remap", SCOTCH_graphRemapCompute(g, &m1, &m2, 1.5, nullptr, &st)); break; case 2: put(o, "mapfixed", SCOTCH_graphMapFixedCompute(g, &m3, &st)); break; default: put(o, "remapfixed", SCOTCH_graphRemapFixedCompute(g, &m3, &m2, 0.5, nullptr, &st)); break; } SCOTCH_stratExit(&st); putv(o, "p1", p1.vec()); putv(o, "p3", p3.vec()); for (int v = 0; v < n; v++) if (p1[v] < 0) p1[v] = p3[v] >= 0 ? p3[v] : v % parts;
    tofile(o, "save", [&](FILE *f) { return SCOTCH_graphMapSave(g, &m1, f); }); std::string x = slurp_file("c26"); tofile(o, "view", [&](FILE *f) { return SCOTCH_graphMapView(g, &m1, f); }); tofile(o, "remapview", [&](FILE *f) { return SCOTCH_graphRemapView(g, &m1, &m2, 1.0, nullptr, f); }); tofile(o, "raw", [&](FILE *f) { return SCOTCH_graphRemapViewRaw(g, &m1, &m2, 1.0, nullptr, f); }); tofile(o, "ovl", [&](FILE *f) { return SCOTCH_graphPartOvlView(g, parts, p1.p, f); }); sim_file_put("c26r", x.data(), x.size()); p1.fill(-7); FILE *f = sim_fopen("c26r", "r"); put(o, "load", SCOTCH_graphMapLoad(g, &m1, f)); fclose(f); putv(o, "loaded", p1.vec()); SCOTCH_graphMapExit(g, &m1); SCOTCH_graphMapExit(g, &m2); SCOTCH_graphMapExit(g, &m3); SCOTCH_archExit(&a); break; }
  case K_JOB: { V out; put(o, "status", run_job(s.jobs[i], g, nullptr, out)); putv(o, "out", out); break; }
  case K_COARSE: { double rat = 0.6 + 0.1 * r.below(5); Num fl = r.chance(1, 3) ? SCOTCH_COARSENNOMERGE : 0, cn = n; SN mt((size_t)n), mu((size_t)2 * n); mt.fill(-9); int rc = SCOTCH_graphCoarsenMatch(g, &cn, rat, fl, mt.p); put(o, "match", rc); if (!rc) { putv(o, "mate", mt.vec()); put(o, "coarse", cn); SCOTCH_Graph c; OKCALL(SCOTCH_graphInit(&c)); rc = SCOTCH_graphCoarsenBuild(g, cn, mt.p, &c, mu.p); put(o, "build", rc); if (!rc) putg(o, "graph", &c); SCOTCH_graphExit(&c); }
    { SCOTCH_Graph c; OKCALL(SCOTCH_graphInit(&c)); mu.fill(-9); rc = SCOTCH_graphCoarsen(g, 1, rat, fl, &c, mu.p); put(o, "coarsen", rc); if (!rc) putg(o, "graph", &c); putv(o, "mult", mu.vec()); SCOTCH_graphExit(&c); } break; }
  case K_INDUCE: { SCOTCH_Graph c; OKCALL(SCOTCH_graphInit(&c)); V l; std::vector<unsigned char> pt; for (int v = 0; v < n; v++) { pt.push_back(r.below(2)); if (pt[v]) l.push_back(v + s.base); } SN ls(l); SA<SCOTCH_GraphPart2> ps(pt); if (r.chance(1, 2)) put(o, "list", SCOTCH_graphInduceList(g, (Num)l.size(), ls.p, &c)); else put(o, "part", SCOTCH_graphInducePart(g, (Num)l.size(), ps.p, 1, &c)); putg(o, "graph", &c); SCOTCH_graphExit(&c); SN co((size_t)n); Num k = -1; put(o, "color", SCOTCH_graphColor(g, co.p, &k, 0)); put(o, "colors", k); putv(o, "col", co.vec()); break; }
  case K_ARCH: { SCOTCH_Arch a; OKCALL(SCOTCH_archInit(&a)); SCOTCH_Strat st; OKCALL(SCOTCH_stratInit(&st)); int w = r.below(3); V l; if (r.chance(1, 2)) { for (int v = 0; v < n; v++) if (r.chance(2, 3) || v == 0) l.push_back(v + s.base); } SN ls(l); int rc = w == 0 ? SCOTCH_archBuild0(&a, g, (Num)l.size(), l.empty() ? nullptr : ls.p, &st) : w == 1 ? SCOTCH_archBuild2(&a, g, (Num)l.size(), l.empty() ? nullptr : ls.p) : SCOTCH_archBuild(&a, g, (Num)l.size(), l.empty() ? nullptr : ls.p, &st); put(o, "build", rc); if (!rc) tofile(o, "archsave", [&](FILE *f) { return SCOTCH_archSave(&a, f); }); SCOTCH_archExit(&a); SCOTCH_stratExit(&st); break; }
  case K_MACC: { Num q[13]; double d[6]; SCOTCH_meshSize(m, &q[0], &q[1], &q[2]); for (int k = 0; k < 3; k++) put(o, "size", q[k]); Num *p[6]; SCOTCH_meshData(m, &q[0], &q[1], &q[2], &q[3], &p[0], &p[1], &p[2], &p[3], &p[4], &q[4], &p[5], &q[5]); for (int k = 0; k < 6; k++) put(o, "data", q[k]); for (int k = 0; k < 6; k++) o += std::to_string((unsigned long)(uintptr_t)p[k]) + "\n"; put(o, "check", SCOTCH_meshCheck(m)); SCOTCH_meshStat(m, &q[0], &q[1], &q[2], &d[0], &d[1], &q[3], &q[4], &d[2], &d[3], &q[5], &q[6], &d[4], &d[5]); for (int k = 0; k < 7; k++) put(o, "stat", q[k]); for (double x : d) putd(o, "stat", x); break; }
  case K_MFILES: { tofile(o, "save", [&](FILE *f) { return SCOTCH_meshSave(m, f); }); SCOTCH_Geom ge; OKCALL(SCOTCH_geomInit(&ge)); std::string t = "1\n" + std::to_string(s.m.nn) + "\n"; for (int v = 0; v < s.m.nn; v++) { Num nb = M->nbas - s.base + v; t += std::to_string(s.m.lb ? s.m.vlbl[nb] : M->nbas + v) + " " + std::to_string(v) + ".5\n"; } sim_file_put("c26g", t.data(), t.size()); FILE *f = sim_fopen("c26g", "r"); put(o, "geomload", SCOTCH_meshGeomLoadScot(m, &ge, nullptr, f, nullptr)); fclose(f); FILE *q = sim_fopen("c26h", "w"); tofile(o, "scot", [&](FILE *p) { return SCOTCH_meshGeomSaveScot(m, &ge, p, q, nullptr); }); fclose(q); o += slurp_file("c26h"); SCOTCH_geomExit(&ge); break; }
  case K_MORD: { if (r.chance(1, 2)) { V out; put(o, "status", run_job(s.jobs[i], nullptr, m, out)); putv(o, "out", out); break; } int nn = s.m.nn; SN pm((size_t)nn), pi((size_t)nn), rg((size_t)nn + 1), tr((size_t)nn); Num cb = -1; SCOTCH_Ordering od; put(o, "init", SCOTCH_meshOrderInit(m, &od, pm.p, pi.p, &cb, rg.p, tr.p)); SCOTCH_Strat st; OKCALL(SCOTCH_stratInit(&st)); put(o, "compute", SCOTCH_meshOrderCompute(m, &od, &st)); SCOTCH_stratExit(&st); put(o, "check", SCOTCH_meshOrderCheck(m, &od)); putv(o, "perm", pm.vec()); putv(o, "peri", pi.vec()); tofile(o, "save", [&](FILE *f) { return SCOTCH_meshOrderSave(m, &od, f); }); tofile(o, "savemap", [&](FILE *f) { return SCOTCH_meshOrderSaveMap(m, &od, f); }); tofile(o, "savetree", [&](FILE *f) { return SCOTCH_meshOrderSaveTree(m, &od, f); }); SCOTCH_meshOrderExit(m, &od); break; }
  default: { SCOTCH_Graph c; OKCALL(SCOTCH_graphInit(&c)); put(o, "nodes", SCOTCH_meshGraph(m, &c)); putg(o, "graph", &c); SCOTCH_graphExit(&c); OKCALL(SCOTCH_graphInit(&c)); put(o, "dual", SCOTCH_meshGraphDual(m, &c, 1 + r.below(3))); putg(o, "graph", &c); SCOTCH_graphExit(&c); } }
  return o;
}
static void rmain(int) {
  S &s = shared<S>(); sim_setenv("SCOTCH_PTHREAD_NUMBER", "1"); SCOTCH_randomReset(); SCOTCH_randomSeed(s.seed); G = new CG; M = new CM; G->make(s.g, s.base, s.gaps, s.gs); OKCALL(G->build()); M->make(s.m, s.base, s.gaps, s.gs); OKCALL(M->build()); uint64_t h0 = G->hash() + M->hash();
  CX cx; OKCALL(cx.init(s.own ? 1 : 0, s.det, 0, 0)); SCOTCH_Graph bg; OKCALL(SCOTCH_graphInit(&bg)); OKCALL(SCOTCH_contextBindGraph(&cx.c, &G->g, &bg)); SCOTCH_Mesh bm; OKCALL(SCOTCH_meshInit(&bm)); OKCALL(SCOTCH_contextBindMesh(&cx.c, &M->m, &bm));
  for (size_t i = 0; i < s.ops.size(); i++) { auto fresh = [&] { SCOTCH_randomReset(); SCOTCH_randomSeed(s.seed + (Num)i); }; fresh(); std::string a = run((int)i, &G->g, &M->m); fresh(); std::string b = run((int)i, &bg, &bm); if (a != b) { size_t q = 0; while (q < a.size() && q < b.size() && a[q] == b[q]) q++; size_t l0 = a.rfind('\n', q ? q - 1 : 0); l0 = l0 == std::string::npos ? 0 : l0 + 1; sim_violation("container-differs", "%s: \"%s\" on the object, \"%s\" on its container", kn[s.ops[i]], a.substr(l0, 60).substr(0, a.substr(l0, 60).find('\n')).c_str(), b.size() > l0 ? b.substr(l0, 60).substr(0, b.substr(l0, 60).find('\n')).c_str() : ""); } sim_probe(kn[s.ops[i]]); if (G->hash() + M->hash() != h0) sim_violation("input-changed", "%s changed the object", kn[s.ops[i]]); }
  SCOTCH_graphExit(&bg); SCOTCH_meshExit(&bm); cx.exit(); std::string why; if (!same_graph(s.g, extract(&G->g), why)) sim_violation("input-changed", "%s", why.c_str()); G->exit(); M->exit(); delete G; delete M;
}
WORKLOAD(C26, "seq", 1, 1, setup, rmain, nullptr)
// The same for distributed graphs
namespace { struct DS { CommCfg cc; RG g; Dist d; uint64_t sd, ms; bool det; std::vector<int> ops; }; enum { D_ACC, D_STAT, D_SAVE, D_HALO, D_GATHER, D_REDIST, D_INDUCE, D_BAND, D_GROW, D_COARSE, D_MAP, D_ORD, D_NB }; static const char *dn[] = {"distributed accessors", "distributed statistics", "distributed file", "halo exchange", "gathering", "redistribution", "distributed induced graph", "distributed band graph", "growing", "distributed coarsening", "distributed mapping", "distributed ordering"}; }
static void setup_d() {
  DS *s = newshared<DS>(); s->cc = gen_comm(5); GenOpt o; o.maxn = 60; o.empty = false; o.minn = 2; s->g = gen_graph(o); s->d = gen_dist(s->g.n, s->cc.procs); s->d.gaps = false; s->sd = cfg(1 << 16); s->ms = cfg(1 << 16); s->det = coin(); int k = 1 + cfg(3), h = 0; for (int i = 0; i < k; i++) { s->ops.push_back(cfg(D_NB)); h = h * 13 + s->ops.back(); } sim_describe("ops=%d det=%d", h, s->det); sim_state(h * 8 + s->cc.procs);
}
static void putp(std::string &o, const char *n, SCOTCH_Dgraph *g) { DPiece p = dextract(g); put(o, n, p.vertlocnbr); put(o, "glb", p.vertglbnbr); put(o, "edges", p.edgelocnbr); put(o, "base", p.base); for (size_t v = 0; v < p.adj.size(); v++) { if (p.vw) put(o, "w", p.velo[v]); V a; for (auto &e : p.adj[v]) { a.push_back(e.first); a.push_back(e.second); } putv(o, "a", a); } if (p.lb) putv(o, "labels", p.vlbl); }
static std::string drun(int op, int i, SCOTCH_Dgraph *g, DG &D, WComm &w) {
  DS &s = shared<DS>(); std::string o; LR r(s.ms * 31 + i), q(s.ms * 17 + i * 71 + w.rank); int ln = D.ln;
  switch (op) {
  case D_ACC: { Num a, b, c, d, base, vg, vl, vm, vgs, eg, el, es, *p[8]; MPI_Comm cm; SCOTCH_dgraphSize(g, &a, &b, &c, &d); for (Num x : {a, b, c, d}) put(o, "size", x); SCOTCH_dgraphData(g, &base, &vg, &vl, &vm, &vgs, &p[0], &p[1], &p[2], &p[3], &eg, &el, &es, &p[4], &p[5], &p[6], &cm); for (Num x : {base, vg, vl, vm, vgs, eg, el, es}) put(o, "data", x); for (int k = 0; k < 7; k++) o += std::to_string((unsigned long)(uintptr_t)p[k]) + "\n"; put(o, "check", SCOTCH_dgraphCheck(g)); put(o, "ghst", SCOTCH_dgraphGhst(g)); break; }
  case D_STAT: { Num n[8]; double d[6]; put(o, "stat", SCOTCH_dgraphStat(g, &n[0], &n[1], &n[2], &d[0], &d[1], &n[3], &n[4], &d[2], &d[3], &n[5], &n[6], &n[7], &d[4], &d[5])); for (Num x : n) put(o, "n", x); for (double x : d) putd(o, "d", x); break; }
  case D_SAVE: { std::string fn = "c26d" + std::to_string(w.rank); FILE *f = sim_fopen(fn.c_str(), "w"); put(o, "save", SCOTCH_dgraphSave(g, f)); fclose(f); o += slurp_file(fn.c_str()); break; }
  case D_HALO: { put(o, "ghst", SCOTCH_dgraphGhst(g)); Num vgs; SCOTCH_dgraphData(g, nullptr, nullptr, nullptr, nullptr, &vgs, nullptr, nullptr, nullptr, nullptr, nullptr, nullptr, nullptr, nullptr, nullptr, nullptr, nullptr); SN a((size_t)vgs); a.fill(-1); for (int v = 0; v < ln; v++) a[v] = q.below(1000); if (r.chance(1, 2)) put(o, "halo", SCOTCH_dgraphHalo(g, a.p, MPI_INT)); else { SCOTCH_DgraphHaloReq rq; put(o, "async", SCOTCH_dgraphHaloAsync(g, a.p, MPI_INT, &rq)); put(o, "wait", SCOTCH_dgraphHaloWait(&rq)); } putv(o, "data", a.vec()); break; }
  case D_GATHER: { int root = r.below(w.size); bool all = r.chance(1, 3); SCOTCH_Graph c; OKCALL(SCOTCH_graphInit(&c)); bool has = all || w.rank == root; put(o, "gather", SCOTCH_dgraphGather(g, has ? &c : nullptr)); if (has) putg(o, "graph", &c); SCOTCH_graphExit(&c); break; }
  case D_REDIST: { V pt; for (int v = 0; v < ln; v++) pt.push_back(q.below(w.size)); SN ps(pt); SCOTCH_Dgraph c; OKCALL(SCOTCH_dgraphInit(&c, w.c)); int rc = SCOTCH_dgraphRedist(g, ps.p, nullptr, -1, -1, &c); put(o, "redist", rc); if (!rc) putp(o, "graph", &c); SCOTCH_dgraphExit(&c); break; }
  case D_INDUCE: { V pt; int k = 0; for (int v = 0; v < ln; v++) { pt.push_back(q.below(2)); k += pt.back(); } SN ps(pt); SCOTCH_Dgraph c; OKCALL(SCOTCH_dgraphInit(&c, w.c)); int rc = SCOTCH_dgraphInducePart(g, ps.p, 1, k, &c); put(o, "induce", rc); if (!rc) putp(o, "graph", &c); SCOTCH_dgraphExit(&c); break; }
  case D_BAND: { V fr; for (int v = 0; v < ln; v++) if (q.chance(1, 8) || (v == 0 && q.chance(1, 2))) fr.push_back(v + s.d.base); SN fs((size_t)ln + 1); for (size_t k = 0; k < fr.size(); k++) fs[k] = fr[k]; SCOTCH_Dgraph c; OKCALL(SCOTCH_dgraphInit(&c, w.c)); int rc = SCOTCH_dgraphBand(g, (Num)fr.size(), fs.p, 1 + r.below(3), &c); put(o, "band", rc); if (!rc) { DPiece p = dextract(&c); put(o, "vertices", p.vertlocnbr); put(o, "glb", p.vertglbnbr); put(o, "edges", p.edgelocnbr); /* numbers depend on the order of messages */ long x = 0; for (Num y : p.velo) x += y; put(o, "load", x); } SCOTCH_dgraphExit(&c); break; }
  case D_GROW: { put(o, "ghst", SCOTCH_dgraphGhst(g)); Num vgs; SCOTCH_dgraphData(g, nullptr, nullptr, nullptr, nullptr, &vgs, nullptr, nullptr, nullptr, nullptr, nullptr, nullptr, nullptr, nullptr, nullptr, nullptr, nullptr); SN pt((size_t)std::max<Num>(vgs, ln)); pt.fill(-1); V fr; for (int v = 0; v < ln; v++) if (q.chance(1, 9)) { fr.push_back(v + s.d.base); pt[v] = 0; } SN fs((size_t)ln + 1); for (size_t k = 0; k < fr.size(); k++) fs[k] = fr[k]; put(o, "grow", SCOTCH_dgraphGrow(g, (Num)fr.size(), fs.p, 1 + r.below(3), pt.p)); putv(o, "parts", V(pt.p, pt.p + ln)); break; }
  case D_COARSE: { SCOTCH_Dgraph c; OKCALL(SCOTCH_dgraphInit(&c, w.c)); Num mx = SCOTCH_dgraphCoarsenVertLocMax(g, 0); put(o, "locmax", mx); SN mu((size_t)2 * mx); int rc = SCOTCH_dgraphCoarsen(g, 0, 1.0, 0, &c, mu.p); put(o, "coarsen-failed", rc > 1 || rc < 0); SCOTCH_dgraphExit(&c); break; }
  case D_MAP: { SN pt((size_t)ln); pt.fill(-1); SCOTCH_Strat st; OKCALL(SCOTCH_stratInit(&st)); Num k = 2 + r.below(3); put(o, "part", SCOTCH_dgraphPart(g, k, &st, pt.p)); SCOTCH_stratExit(&st); for (int v = 0; v < ln; v++) if (pt[v] < 0 || pt[v] >= k) o += "bad part\n"; break; }
  default: { SCOTCH_Strat st; OKCALL(SCOTCH_stratInit(&st)); SCOTCH_Dordering od; put(o, "init", SCOTCH_dgraphOrderInit(g, &od)); put(o, "compute", SCOTCH_dgraphOrderCompute(g, &od, &st)); SN pm((size_t)ln); pm.fill(-1); put(o, "perm", SCOTCH_dgraphOrderPerm(g, &od, pm.p)); for (int v = 0; v < ln; v++) if (pm[v] < s.d.base || pm[v] >= s.d.base + s.g.n) o += "bad number\n"; Num nb = SCOTCH_dgraphOrderCblkDist(g, &od); put(o, "cblk-bad", nb < 1 || nb > s.g.n * 2); SCOTCH_dgraphOrderExit(g, &od); SCOTCH_stratExit(&st); } }
  return o;
}
static void rmain_d(int) {
  DS &s = shared<DS>(); mpi_begin(); WComm w; w.open(s.cc); if (!w.mine) { w.close(); mpi_end(); return; }
  { DG D; OKCALL(D.make(s.g, s.d, w.rank, w.c, s.sd, false)); OKCALL(SCOTCH_dgraphGhst(&D.g)); uint64_t h0 = D.hash(); CX cx; OKCALL(cx.init(1, s.det, 0, 0)); SCOTCH_Dgraph bd; OKCALL(SCOTCH_dgraphInit(&bd, w.c)); OKCALL(SCOTCH_contextBindDgraph(&cx.c, &D.g, &bd));
    for (size_t i = 0; i < s.ops.size(); i++) { std::string a = drun(s.ops[i], (int)i, &D.g, D, w), b = drun(s.ops[i], (int)i, &bd, D, w); if (a != b) { size_t q = 0; while (q < a.size() && q < b.size() && a[q] == b[q]) q++; size_t l0 = a.rfind('\n', q ? q - 1 : 0); l0 = l0 == std::string::npos ? 0 : l0 + 1; sim_violation("container-differs", "%s: \"%s\" on the object, \"%s\" on its container", dn[s.ops[i]], a.substr(l0, 60).c_str(), b.size() > l0 ? b.substr(l0, 60).c_str() : ""); } sim_probe(dn[s.ops[i]]); MPI_Barrier(w.c); }
    SCOTCH_dgraphExit(&bd); cx.exit(); if (D.hash() != h0) sim_violation("input-changed", "the arrays of the graph changed"); D.exit(); }
  w.close(); mpi_end();
}
WORKLOAD(C26, "dist", 1, 1, setup_d, rmain_d, nullptr)
