// C18: MeTiS, ParMeTiS and MUMPS interfaces keep the conventions of the software they stand for.
#include "w.h"
#include "job.h"
#include <metis.h>
#include <parmetis.h>
extern "C" int esmumps(const Num, const Num, Num *, const Num, Num *, Num *, Num *, Num *, Num *);
extern "C" int esmumpsv(const Num, const Num, Num *, const Num, Num *, Num *, Num *, Num *, Num *);
// Costs of a partition (base already removed)
static long cut_of(const RG &g, const V &p, bool w) { long c = 0; for (int v = 0; v < g.n; v++) for (auto &e : g.adj[v]) if (p[v] != p[e.first]) c += w ? e.second : 1; return c / 2; }
static long vol_of(const RG &g, const V &p, const V *vs) { long c = 0; for (int v = 0; v < g.n; v++) { std::set<Num> s; for (auto &e : g.adj[v]) if (p[v] != p[e.first]) s.insert(p[e.first]); c += (vs ? (*vs)[v] : 1) * (long)s.size(); } return c; }
static void parts_ok(const char *w, const Num *part, int n, Num base, Num parts, V &out) { out.clear(); for (int i = 0; i < n; i++) { Num x = part[i] - base; if (x < 0 || x >= parts) sim_violation("bad-part", "%s: vertex %d is put in part %d, parts are numbered from %d to %d", w, i, part[i], base, base + parts - 1); out.push_back(x); } }
// Shares of parts, some of them not exact
static std::vector<double> gen_shares(int parts) { std::vector<double> t(parts); LR r(7 + cfg(1 << 10)); int k = cfg(4); double s = 0; for (double &x : t) { x = k == 0 ? 1 : k == 1 ? 1 + r.below(4) : k == 2 ? 1 + r.below(20) : 1 + r.below(1000) / 37.0; s += x; } for (double &x : t) x /= s; return t; }
// A part with a much larger share must not be left with much less load
static void shares_ok(const char *w, const V &p, const std::vector<double> &t) { std::vector<long> l(t.size()); for (Num x : p) l[x]++; long n = (long)p.size(); for (size_t i = 0; i < t.size(); i++) { double d = l[i] - t[i] * n; if (d > 0.30 * n || d < -0.30 * n) sim_violation("bad-shares", "%s: part %zu should get %.1f%% of the vertices and gets %ld of %ld", w, i, t[i] * 100, l[i], n); } }
// ---- sequential ----
namespace { struct S { int op, fl; RG g; RM m; Num base, parts, ncon, ncommon; bool nvw, nvs, nopt, nub; int objv, thr, ub; V vs; std::vector<double> tp; bool tpw; uint64_t gs; Num seed; bool wnull; int bad; }; }
enum { M_K3, M_R3, M_V3, M_K5, M_R5, M_E3, M_N3, M_W3, M_N5, M_DUAL, M_PDUAL, M_NB };
static const char *mname[] = {"METIS_V3_PartGraphKway", "METIS_V3_PartGraphRecursive", "METIS_V3_PartGraphVKway", "METIS_V5_PartGraphKway", "METIS_V5_PartGraphRecursive", "METIS_V3_EdgeND", "METIS_V3_NodeND", "METIS_V3_NodeWND", "METIS_V5_NodeND", "METIS_MeshToDual", "METIS_PartMeshDual"};
static void setup() {
  S *s = newshared<S>(); s->op = cfg(M_NB); s->base = cfg(2); s->parts = 1 + cfg(12); s->fl = cfg(4); s->wnull = cfg(4) == 3; s->nvw = cfg(3) == 2; s->nvs = coin(); s->nopt = coin(); s->ub = cfg(3); s->objv = cfg(2); s->thr = 1 + cfg(4); s->gs = cfg(1 << 12); s->seed = cfg(1000); s->ncon = 1 + (cfg(5) == 4); s->ncommon = 1 + cfg(4); sim_knobs.cores = 1 + cfg(4); s->tpw = coin(); s->tp = gen_shares(s->parts); s->bad = cfg(8) == 7 ? 1 + cfg(1000) : 0;
  if (s->op < M_DUAL) { GenOpt o; o.maxn = 120; o.minn = 1; o.labels = false; s->g = gen_graph(o); } else { s->m = gen_mesh(40); s->m.lb = false; s->m.elemfirst = true; }
  int n = s->op < M_DUAL ? s->g.n : s->m.ne; LR r(s->gs + 5); for (int i = 0; i < n; i++) s->vs.push_back(1 + r.below(6));
  sim_describe("%s base=%d parts=%d threads=%d", mname[s->op], s->base, s->parts, s->thr); sim_state(s->op * 64 + s->parts * 2 + s->base);
}
static void graph_ops(S &s) {
  RG gb = s.g; int bad = s.bad && gb.arcs() ? s.bad : 0; if (bad) { int k = bad % (int)gb.arcs(); for (auto &a : gb.adj) { if (k < (int)a.size()) { a.erase(a.begin() + k); break; } k -= (int)a.size(); } } CG G; G.make(gb, s.base, false, s.gs); Num n = s.g.n, fl = s.fl, base = s.base, obj = -77, np = s.parts; SN part; part.alloc(n); part.fill(-55); SN perm, peri, vs; perm.alloc(n); peri.alloc(n); perm.fill(-1); peri.fill(-1); if (s.op >= M_V3 && s.op <= M_R5 && !s.nvs) vs.set(s.vs); bool v5 = s.op == M_K5 || s.op == M_R5 || s.op == M_N5; SN opt; if (v5 && !(s.nopt && base == 0)) { opt.alloc(METIS_NOPTIONS); if (SCOTCH_METIS_SetDefaultOptions(opt) != METIS_OK) sim_violation("call-failed", "METIS_SetDefaultOptions"); opt[METIS_OPTION_NUMBERING] = base; }
  G.ro(); vs.ro(); uint64_t h0 = G.hash(); int k = METIS_ERROR; const Num *vw = s.nvw ? nullptr : G.velo.p, *ew = s.nvw ? nullptr : G.edlo.p, *wf = s.wnull ? nullptr : &fl; double ub = s.ub == 1 ? 0.05 : 1.03; const double *ubp = s.ub ? &ub : nullptr; std::vector<double> tpv; Num nc = v5 && (s.op != M_N5) ? s.ncon : 1; if (nc > 1) vw = nullptr; if (v5 && s.tpw) for (double x : s.tp) for (int q = 0; q < nc; q++) tpv.push_back(q ? 1.0 / np : x); SA<double> tp(tpv); const double *tpp = tpv.empty() ? nullptr : tp.p; if (tpp) tp.ro(); sim_err_clear(sim_rank());
  switch (s.op) {
    case M_K3: k = SCOTCH_METIS_V3_PartGraphKway(&n, G.vert, G.edge, vw, ew, wf, &base, &np, nullptr, &obj, part); break;
    case M_R3: k = SCOTCH_METIS_V3_PartGraphRecursive(&n, G.vert, G.edge, vw, ew, wf, &base, &np, nullptr, &obj, part); break;
    case M_V3: k = SCOTCH_METIS_V3_PartGraphVKway(&n, G.vert, G.edge, vw, vs.p, wf, &base, &np, nullptr, &obj, part); break;
    case M_K5: k = SCOTCH_METIS_V5_PartGraphKway(&n, &nc, G.vert, G.edge, vw, vs.p, ew, &np, tpp, ubp, opt.p, &obj, part); break;
    case M_R5: k = SCOTCH_METIS_V5_PartGraphRecursive(&n, &nc, G.vert, G.edge, vw, vs.p, ew, &np, tpp, ubp, opt.p, &obj, part); break;
    case M_E3: k = SCOTCH_METIS_V3_EdgeND(&n, G.vert, G.edge, &base, nullptr, perm, peri); break;
    case M_N3: k = SCOTCH_METIS_V3_NodeND(&n, G.vert, G.edge, &base, nullptr, perm, peri); break;
    case M_W3: k = SCOTCH_METIS_V3_NodeWND(&n, G.vert, G.edge, vw, &base, nullptr, perm, peri); break;
    case M_N5: k = SCOTCH_METIS_V5_NodeND(&n, G.vert, G.edge, vw, opt.p, perm, peri); break; }
  if (bad) { if (k == METIS_OK) sim_violation("status-lost", "%s returned METIS_OK for a graph which lacks an arc", mname[s.op]); G.wr(); if (G.hash() != h0) sim_violation("input-changed", "%s changed its input", mname[s.op]); if (tpp) tp.wr(); sim_probe("refused"); return; }
  if (k != METIS_OK) sim_violation("call-failed", "%s returned %d: %s", mname[s.op], k, sim_err_last(sim_rank())); if (sim_err_count(sim_rank())) sim_violation("error-printed", "%s returned METIS_OK but printed: %s", mname[s.op], sim_err_last(sim_rank()));
  G.wr(); if (G.hash() != h0) sim_violation("input-changed", "%s changed its input", mname[s.op]); if (tpp) tp.wr();
  if (s.op >= M_E3) { check_perm(mname[s.op], peri, perm, n, base); /* perm of MeTiS is the inverse permutation of Scotch */ V o = perm.vec(); publish_v(0, o); sim_probe("order"); return; }
  V p; parts_ok(mname[s.op], part, n, base, np, p); bool useew = ew && (v5 || !wf || (fl & 1)), usevs = vs.p && (v5 || !wf || (fl & 1));
  bool vol = s.op == M_V3 || (v5 && vs.p); long want = vol ? vol_of(s.g, p, usevs ? &s.vs : nullptr) : cut_of(s.g, p, useew); if (obj != want) sim_violation("bad-cost", "%s: %s of the partition is %ld, and %d is returned", mname[s.op], vol ? "communication volume" : "cut", want, obj);
  if (tpp && !vw && n >= 60 && s.ub != 2) shares_ok(mname[s.op], p, s.tp); sim_probe(vol ? "volume" : "cut");
}
static void mesh_ops(S &s) {
  const RM &m = s.m; Num ne = m.ne, nn = m.nn, base = s.base, nc = s.ncommon, np = s.parts; V ep, ei; ep.push_back(base); for (auto &e : m.en) { for (int x : e) ei.push_back(x + base); ep.push_back(base + (Num)ei.size()); } int bad = s.bad && !ei.empty() ? s.bad : 0; if (bad) ei[bad % ei.size()] = s.gs & 1 ? base + nn : base - 1; SN eptr(ep), eind(ei); eptr.ro(); eind.ro();
  RG d; d.n = ne; d.adj.resize(ne); for (int a = 0; a < ne; a++) for (int b = 0; b < ne; b++) if (a != b) { int k = 0; for (int x : m.en[a]) for (int y : m.en[b]) k += x == y; int da = (int)m.en[a].size(), db = (int)m.en[b].size(); if (k >= 1 && k >= std::min((int)nc, std::min(da, db) - 1)) /* as MeTiS does: all nodes but one of an element are always enough */ d.adj[a].push_back({b, 1}); } sim_err_clear(sim_rank());
  if (s.op == M_DUAL) { Num *xa = nullptr, *ad = nullptr; int k = SCOTCH_METIS_MeshToDual(&ne, &nn, eptr, eind, &nc, &base, &xa, &ad); if (bad) { if (k == METIS_OK || xa) sim_violation("status-lost", "METIS_MeshToDual returned %d, array %p, for an element with an invalid node", k, (void*)xa); sim_probe("refused"); return; } if (k != METIS_OK || !xa) sim_violation("call-failed", "METIS_MeshToDual returned %d: %s", k, sim_err_last(sim_rank()));
    RG g; g.n = ne; g.adj.resize(ne); if (xa[0] != base) sim_violation("bad-dual", "index array starts with %d", xa[0]); for (int i = 0; i < ne; i++) { if (xa[i + 1] < xa[i]) sim_violation("bad-dual", "index array decreases"); for (Num e = xa[i]; e < xa[i + 1]; e++) { Num x = ad[e - base] - base; if (x < 0 || x >= ne) sim_violation("bad-dual", "element %d has neighbour %d", i, x); g.adj[i].push_back({x, 1}); } } sort_adj(g); viol_graph("bad-dual", "graph returned by METIS_MeshToDual is not the dual graph of the mesh", d, g); free(xa); free(ad); sim_probe("dual"); return; }
  SN epart, npart, vs, opt, vw; epart.alloc(ne); npart.alloc(nn); epart.fill(-5); npart.fill(-5); if (!s.nvs) vs.set(s.vs); if (m.vw && !s.nvw) vw.set(m.velo); bool vol = !s.nvs; if (!(s.nopt && base == 0)) { opt.alloc(METIS_NOPTIONS); SCOTCH_METIS_SetDefaultOptions(opt); opt[METIS_OPTION_NUMBERING] = base; if (s.objv) { opt[METIS_OPTION_OBJTYPE] = METIS_OBJTYPE_VOL; vol = true; } } vs.ro(); vw.ro(); SA<double> tp; if (s.tpw) { tp.set(s.tp); tp.ro(); } Num obj = -77;
  int k = SCOTCH_METIS_PartMeshDual(&ne, &nn, eptr, eind, vw.p, vs.p, &nc, &np, tp.p, opt.p, &obj, epart, npart); if (bad) { if (k == METIS_OK || obj >= 0) sim_violation("status-lost", "METIS_PartMeshDual returned %d and cost %d for an element with an invalid node", k, obj); sim_probe("refused"); return; } if (k != METIS_OK) sim_violation("call-failed", "METIS_PartMeshDual returned %d: %s", k, sim_err_last(sim_rank())); if (sim_err_count(sim_rank())) sim_violation("error-printed", "METIS_PartMeshDual returned METIS_OK but printed: %s", sim_err_last(sim_rank()));
  V p, q; parts_ok("METIS_PartMeshDual", epart, ne, base, np, p); parts_ok("METIS_PartMeshDual (nodes)", npart, nn, base, np, q); std::vector<std::set<Num>> near(nn); for (int e = 0; e < ne; e++) for (int x : m.en[e]) near[x].insert(p[e]); for (int i = 0; i < nn; i++) if (!near[i].empty() && !near[i].count(q[i])) sim_violation("bad-part", "node %d is put in part %d, which holds none of its elements", i, q[i]);
  long want = vol ? vol_of(d, p, s.nvs ? nullptr : &s.vs) : cut_of(d, p, false); if (obj != want) sim_violation("bad-cost", "METIS_PartMeshDual: %s of the partition is %ld, and %d is returned", vol ? "communication volume" : "cut", want, obj); sim_probe("partdual");
}
static void rmain(int) { S &s = shared<S>(); char b[8]; snprintf(b, sizeof b, "%d", s.thr); sim_setenv("SCOTCH_PTHREAD_NUMBER", b); SCOTCH_randomReset(); SCOTCH_randomSeed(s.seed); if (s.op < M_DUAL) graph_ops(s); else mesh_ops(s); }
WORKLOAD(C18, "metis", 3, 1, setup, rmain, nullptr)
// ---- MUMPS ----
namespace { struct S2 { RG g; bool w, mix; int thr; uint64_t gs; Num seed; }; }
static void setup2() { S2 *s = newshared<S2>(); GenOpt o; o.maxn = cfg(4) == 3 ? 400 : 150; o.minn = 1; o.labels = false; o.zerow = false; s->g = gen_graph(o); s->w = coin(); s->mix = coin(); s->thr = 1 + cfg(4); s->gs = cfg(1 << 12); s->seed = cfg(1000); sim_knobs.cores = 1 + cfg(4); sim_describe("esmumps n=%d weights=%d threads=%d", s->g.n, s->w, s->thr); sim_state(s->g.n * 2 + s->w); }
static void rmain2(int) {
  S2 &s = shared<S2>(); char b[8]; snprintf(b, sizeof b, "%d", s.thr); sim_setenv("SCOTCH_PTHREAD_NUMBER", b); SCOTCH_randomReset(); SCOTCH_randomSeed(s.seed); const RG &g = s.g; int n = g.n; LR r(s.gs); std::vector<int> ord(n); for (int i = 0; i < n; i++) ord[i] = i; if (s.mix) for (int i = n - 1; i > 0; i--) std::swap(ord[i], ord[r.below(i + 1)]);
  V pe(n), len(n), iw; for (int i : ord) { pe[i] = 1 + (Num)iw.size(); len[i] = (Num)g.adj[i].size(); for (auto &e : g.adj[i]) iw.push_back(e.first + 1); } Num pfree = (Num)iw.size() + 1; V wt(n, 1); if (s.w) for (Num &x : wt) x = 1 + r.below(4);
  SN PE(pe), LEN(len), IW(iw), NV, EL, LA; NV.alloc(n); NV.fill(-7); if (s.w) NV.set(wt); EL.alloc(n); LA.alloc(n); EL.fill(-7); LA.fill(-7); LEN.ro(); IW.ro(); sim_err_clear(sim_rank());
  int k = s.w ? esmumpsv(n, pfree, PE, pfree, LEN, IW, NV, EL, LA) : esmumps(n, pfree, PE, pfree, LEN, IW, NV, EL, LA); if (k) sim_violation("call-failed", "esmumps returned %d: %s", k, sim_err_last(sim_rank())); if (sim_err_count(sim_rank())) sim_violation("error-printed", "esmumps succeeded but printed: %s", sim_err_last(sim_rank()));
  // Supervariables
  std::vector<int> prin(n), fath(n, -1); for (int i = 0; i < n; i++) { Num f = -PE[i]; if (NV[i] < 0 || f < 0 || f > n) sim_violation("bad-tree", "variable %d: nv=%d pe=%d", i + 1, NV[i], PE[i]); if (NV[i] == 0) { if (f == 0 || NV[f - 1] == 0) sim_violation("bad-tree", "secondary variable %d points to %d, which is not a principal variable", i + 1, f); prin[i] = f - 1; } else { prin[i] = i; if (f && NV[f - 1] == 0) sim_violation("bad-tree", "father %d of variable %d is not a principal variable", f, i + 1); fath[i] = f - 1; } }
  std::vector<std::vector<int>> mem(n), sons(n); std::vector<int> depth(n, -1); for (int i = 0; i < n; i++) mem[prin[i]].push_back(i); std::vector<int> todo; for (int i = 0; i < n; i++) if (prin[i] == i) { if (fath[i] >= 0) sons[fath[i]].push_back(i); else { todo.push_back(i); depth[i] = 0; } }
  for (size_t q = 0; q < todo.size(); q++) for (int x : sons[todo[q]]) { depth[x] = depth[todo[q]] + 1; todo.push_back(x); } for (int i = 0; i < n; i++) if (prin[i] == i && depth[i] < 0) sim_violation("bad-tree", "variable %d is on a cycle of the tree", i + 1);
  std::vector<std::set<int>> st(n); for (size_t q = todo.size(); q-- > 0; ) { int P = todo[q]; std::set<int> &z = st[P]; for (int v : mem[P]) for (auto &e : g.adj[v]) if (prin[e.first] != P) { if (depth[prin[e.first]] < depth[P]) z.insert(e.first); else if (depth[prin[e.first]] == depth[P]) sim_violation("bad-tree", "variables %d and %d are linked although their blocks %d and %d are on the same level of the tree", v + 1, e.first + 1, P + 1, prin[e.first] + 1); } for (int c : sons[P]) for (int x : st[c]) if (prin[x] != P) z.insert(x);
    bool inf = false; for (int x : z) { int a = P; while (a >= 0 && a != prin[x]) a = fath[a]; if (a < 0) sim_violation("bad-tree", "variable %d is in the structure of block %d and not in one of its ancestors", x + 1, P + 1); inf |= fath[P] == prin[x]; } if (fath[P] >= 0 && !inf) sim_violation("bad-tree", "block %d has father %d, which is not in its structure", P + 1, fath[P] + 1); if (fath[P] < 0 && !z.empty()) sim_violation("bad-tree", "block %d is a root and has a structure", P + 1);
    long dg = 0; for (int v : mem[P]) dg += wt[v]; for (int x : z) dg += wt[x]; if (NV[P] != dg) sim_violation("bad-degree", "principal variable %d has degree %d in the factored matrix, and %d is returned", P + 1, (int)dg, NV[P]); }
  sim_probe(todo.size() > 1 ? "tree" : "one-block"); if (s.w) sim_probe("weights");
}
WORKLOAD(C18, "mumps", 2, 1, setup2, rmain2, nullptr)
// ---- ParMeTiS ----
namespace { struct S3 { CommCfg cc; RG g; Dist d; uint64_t sd; int op; Num parts, fl; std::vector<double> tp; bool nosizes, nvw; int bad; std::vector<V> loc; std::vector<V> sizes; std::vector<Num> cut; std::vector<int> rc; Num seed; int thr; }; }
static void setup3() {
  S3 *s = newshared<S3>(); s->cc = gen_comm(7); GenOpt o; o.maxn = cfg(4) == 3 ? 400 : 150; o.minn = 1; o.labels = false; s->g = gen_graph(o); s->d = gen_dist(s->g.n, s->cc.procs); s->d.gaps = s->d.padmax = false; if (s->d.base > 1) s->d.base = 1; s->sd = cfg(1 << 16); s->op = cfg(3); s->parts = 1 + cfg(9); s->fl = cfg(4); s->tp = gen_shares(s->parts); s->nosizes = cfg(4) == 3; s->nvw = cfg(3) == 2; s->seed = cfg(1000); s->thr = 1 + cfg(2); s->bad = cfg(8) == 7 && s->g.arcs() ? 1 + cfg(1000) : 0;
  int P = s->cc.procs; s->loc.resize(P); s->sizes.resize(P); s->cut.assign(P, -9); s->rc.assign(P, 0); sim_describe("%s parts=%d flags=%d", s->op == 0 ? "ParMETIS_V3_NodeND" : s->op == 1 ? "ParMETIS_V3_PartKway" : "ParMETIS_V3_PartGeomKway", s->parts, s->fl); sim_state(s->op * 100 + s->parts * 10 + P);
}
static void rmain3(int) {
  S3 &s = shared<S3>(); char b[8]; snprintf(b, sizeof b, "%d", s.thr); sim_setenv("SCOTCH_PTHREAD_NUMBER", b); mpi_begin(); WComm w; w.open(s.cc); if (!w.mine) { w.close(); mpi_end(); return; } SCOTCH_randomReset(); SCOTCH_randomSeed(s.seed); Num base = s.d.base;
  { V vd, xa, ad, vw, ew; for (int p = 0; p <= s.cc.procs; p++) vd.push_back(s.d.start[p] + base); RG g = s.g; if (s.bad) { int k = s.bad % (int)g.arcs(); for (auto &a : g.adj) { if (k < (int)a.size()) { a.erase(a.begin() + k); break; } k -= (int)a.size(); } } int lo = s.d.start[w.rank], hi = s.d.start[w.rank + 1]; xa.push_back(base); for (int v = lo; v < hi; v++) { for (auto &e : g.adj[v]) { ad.push_back(e.first + base); ew.push_back(e.second); } xa.push_back(base + (Num)ad.size()); vw.push_back(s.g.w(v)); }
    SN VD(vd), XA(xa), AD(ad), VW(vw), EW(ew), PART; PART.alloc(hi - lo); PART.fill(-33); VD.ro(); XA.ro(); AD.ro(); VW.ro(); EW.ro(); Num fl = s.fl, nc = 1, np = s.parts, cut = -9, nd = 2, opt[4] = {0, 0, 0, 0}; std::vector<float> tpf(s.tp.begin(), s.tp.end()); SA<float> tp(tpf); tp.ro(); float ub = 1.05f; SA<float> xyz; xyz.alloc(2 * (hi - lo)); MPI_Comm c = w.c; SN SZ; SZ.alloc(2 * s.cc.procs); SZ.fill(-44); sim_err_clear(sim_rank()); bool dovw = s.g.vw || s.nvw, doew = s.g.ew || s.nvw; Num *vwp = dovw ? VW.p : nullptr, *ewp = doew ? EW.p : nullptr;
    int k = s.op == 0 ? SCOTCH_ParMETIS_V3_NodeND(VD, XA, AD, &base, opt, PART, s.nosizes ? nullptr : SZ.p, &c) : s.op == 1 ? SCOTCH_ParMETIS_V3_PartKway(VD, XA, AD, vwp, ewp, &fl, &base, &nc, &np, tp, &ub, opt, &cut, PART, &c) : SCOTCH_ParMETIS_V3_PartGeomKway(VD, XA, AD, vwp, ewp, &fl, &base, &nd, xyz, &nc, &np, tp, &ub, opt, &cut, PART, &c);
    s.rc[w.rank] = k; if (s.bad) { if (k == METIS_OK) sim_violation("status-lost", "METIS_OK is returned for a graph which lacks an arc"); sim_probe("refused"); } else if (k != METIS_OK) sim_violation("call-failed", "%s returned %d: %s", s.op == 0 ? "ParMETIS_V3_NodeND" : "ParMETIS_V3_PartKway", k, sim_err_last(sim_rank())); if (!s.bad && sim_err_count(sim_rank())) sim_violation("error-printed", "METIS_OK is returned but printed: %s", sim_err_last(sim_rank()));
    s.loc[w.rank] = PART.vec(); s.cut[w.rank] = cut; s.sizes[w.rank] = SZ.vec(); tp.wr(); }
  w.close(); mpi_end();
}
static void check3() {
  S3 &s = shared<S3>(); if (s.bad) return; int P = s.cc.procs; V all; for (auto &x : s.loc) all.insert(all.end(), x.begin(), x.end()); int n = s.g.n; Num base = s.d.base;
  if (s.op) { V p; parts_ok("ParMETIS_V3_PartKway", all.data(), n, base, s.parts, p); bool useew = (s.g.ew || s.nvw) && (s.fl & 1); long want = cut_of(s.g, p, useew); for (int q = 0; q < P; q++) if (s.cut[q] != want) sim_violation("bad-cost", "ParMETIS_V3_PartKway: cut of the partition is %ld, and %d is returned on process %d", want, s.cut[q], q); sim_probe("part"); return; }
  V inv(n, -1); for (int i = 0; i < n; i++) { Num x = all[i] - base; if (x < 0 || x >= n || inv[x] >= 0) sim_violation("bad-perm", "vertex %d gets number %d", i, all[i]); inv[x] = i; } sim_probe("order"); if (s.nosizes) return;
  for (int q = 0; q < P; q++) if (s.sizes[q][2 * P - 1] != -44) sim_violation("bad-sizes", "more than %d sizes were written", 2 * P - 1);
  V z(s.sizes[0].begin(), s.sizes[0].end() - 1); for (int q = 0; q < P; q++) if (s.sizes[q] != s.sizes[0]) sim_violation("bad-sizes", "sizes differ between processes"); bool pow2 = (P & (P - 1)) == 0, neg = true; for (Num x : z) neg &= x == -1; if (neg) { if (pow2) sim_violation("bad-sizes", "no sizes are returned on %d processes", P); sim_probe("nosizes"); return; } if (!pow2) sim_violation("bad-sizes", "sizes are returned on %d processes", P);
  long sum = 0; for (Num x : z) { if (x < 0) sim_violation("bad-sizes", "negative size %d", x); sum += x; } if (sum != n) sim_violation("bad-sizes", "sizes sum up to %ld instead of %d", sum, n);
  // Domains are numbered first to last, each couple followed by its separator
  V pos(n); for (int i = 0; i < n; i++) pos[i] = all[i] - base; int cur = 0; std::function<std::pair<int,int>(int)> go = [&](int idx) -> std::pair<int,int> { int a = cur; if (idx < P) { auto l = go(2 * idx + 1), r = go(2 * idx); for (int x = l.first; x < l.second; x++) for (auto &e : s.g.adj[inv[x]]) if (pos[e.first] >= r.first && pos[e.first] < r.second) sim_violation("bad-sizes", "vertices %d and %d are linked although sizes put a separator between them", inv[x], e.first); if (l.second > l.first && r.second > r.first) sim_probe("separated"); } cur += z[2 * P - 1 - idx]; return {a, cur}; }; go(1);
}
WORKLOAD(C18, "parmetis", 2, 1, setup3, rmain3, check3)
ALSO07("parmetis", 1, setup3, rmain3)
