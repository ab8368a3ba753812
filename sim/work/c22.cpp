// C22: statistics of graphs, distributed graphs, mappings and overlapped partitions, against a reference computed from the definition.
#include "job.h"
#include "io.h"
#include "stat.h"
namespace {
struct S { CommCfg cc; RG g; Dist d; uint64_t sd; int what, saver, trans; long at; bool ctx, compute, cut; int threads; Num parts; ArchSpec a; uint64_t ms; std::vector<int> rc, rv, met; std::vector<V> part; std::vector<GStat> gs; std::vector<unsigned> mask; std::vector<std::vector<double>> vals; std::string text; std::vector<DPiece> org; };
}
static void setup_dstat() {
  S *s = newshared<S>(); s->what = cfg(3); s->cc = gen_comm(7); GenOpt o; o.maxn = 100; o.zerow = s->what == 0; o.empty = s->what == 0; o.minn = s->what ? 2 : 0; s->g = gen_graph(o); s->d = gen_dist(s->g.n, s->cc.procs); s->sd = cfg(1 << 16); s->saver = cfg(s->cc.procs); s->at = cfg(1 << 20); s->trans = cfg(3) == 2; s->ctx = coin(); s->threads = 1 + cfg(3); s->compute = cfg(8) != 7; s->cut = cfg(4) == 3; s->ms = cfg(1 << 16);
  static const int bm[] = {0, 0, -1, 16, 512}; sim_io.bufmode = bm[cfg(5)]; LR r(31 + cfg(1 << 14)); do s->a = gen_arch(r, 1 + r.below(r.chance(1, 4) ? 70 : 8)); while (s->a.t > 1 && !(s->a.t == 13 && r.chance(1, 8))); s->parts = s->a.n; int p = s->cc.procs; s->rc.assign(p, 0); s->rv = s->met = s->rc; s->part.resize(p); s->gs.resize(p); s->mask.resize(p); s->vals.resize(p); s->org.resize(p);
  sim_describe("what=%d arch=%s compute=%d cut=%d", s->what, s->a.str().c_str(), s->compute, s->cut); sim_state(s->what * 100 + s->a.t * 8 + p);
}
static void rmain_dstat(int) {
  S &s = shared<S>(); mpi_begin(); WComm w; w.open(s.cc); if (!w.mine) { w.close(); mpi_end(); return; } LR r(s.ms * 17 + w.rank * 7919 + 3); int q = w.rank;
  { DG D; OKCALL(D.make(s.g, s.d, w.rank, w.c, s.sd, false)); uint64_t h0 = D.hash(); s.org[q] = dextract(&D.g); CX cx; SCOTCH_Dgraph bd, *f = &D.g; if (s.ctx) { OKCALL(cx.init(s.threads, 0, 0, 0)); OKCALL(SCOTCH_dgraphInit(&bd, w.c)); OKCALL(SCOTCH_contextBindDgraph(&cx.c, &D.g, &bd)); f = &bd; }
    if (s.what == 0) { GStat &g = s.gs[q]; for (int i = 0; i < 8; i++) g.n[i] = -77; for (int i = 0; i < 6; i++) g.d[i] = -77; unsigned m = s.mask[q] = r.chance(1, 2) ? ~0u : (unsigned)r.next(); auto N = [&](int i) { return (m >> i) & 1 ? &g.n[i] : nullptr; }; auto Dd = [&](int i) { return (m >> (8 + i)) & 1 ? &g.d[i] : nullptr; };
      s.rc[q] = SCOTCH_dgraphStat(f, N(0), N(1), N(2), Dd(0), Dd(1), N(3), N(4), Dd(2), Dd(3), N(5), N(6), N(7), Dd(4), Dd(5)); }
    else { Arch A; OKCALL(A.build(s.a)); SCOTCH_Strat st; OKCALL(SCOTCH_stratInit(&st)); SN pt((size_t)D.ln); pt.fill(-1); SCOTCH_Dmapping mp; OKCALL(SCOTCH_dgraphMapInit(f, &mp, &A.a, pt.p)); if (s.compute) OKCALL(SCOTCH_dgraphMapCompute(f, &mp, &st)); s.part[q] = pt.vec();
      if (s.what == 1) { unsigned m = s.mask[q] = r.chance(1, 3) ? ~0u : r.chance(1, 6) ? 0u : (unsigned)r.next(); Num n[12]; double d[2] = {-77, -77}; for (auto &x : n) x = -77; SN cd((size_t)256); cd.fill(-77); auto N = [&](int i) { return (m >> i) & 1 ? &n[i] : nullptr; }; 
        s.rc[q] = SCOTCH_dgraphMapStat(f, &mp, N(0), N(1), N(2), N(3), (m >> 12) & 1 ? &d[0] : nullptr, (m >> 13) & 1 ? &d[1] : nullptr, N(4), N(5), N(6), N(7), (m >> 14) & 1 ? cd.p : nullptr, N(8), N(9), N(10)); for (int i = 0; i < 12; i++) s.vals[q].push_back(n[i]); s.vals[q].push_back(d[0]); s.vals[q].push_back(d[1]); for (int i = 0; i < 256; i++) s.vals[q].push_back(cd[i]); }
      else { sim_noinject(1); FILE *v = q == s.saver ? sim_fopen("view", "w") : nullptr; s.rc[q] = SCOTCH_dgraphMapView(f, &mp, v); if (v) { fclose(v); s.text = slurp_file("view"); } MPI_Barrier(w.c);
        if (s.cut && !s.rc[q]) { if (v) { sim_io_rearm(); sim_io.wrerr_at = s.text.empty() ? 0 : s.at % (long)s.text.size(); sim_io.wrerrno = (s.at >> 18) & 1 ? 28 : 5; sim_io.wrtransient = s.trans; sim_noinject(0); } v = q == s.saver ? sim_fopen("view2", "w") : nullptr; int w0 = sim_write_faults(); s.rv[q] = SCOTCH_dgraphMapView(f, &mp, v); s.met[q] = sim_write_faults() - w0; if (v) { fclose(v); sim_io.wrerr_at = -1; } MPI_Barrier(w.c); } sim_noinject(0); }
      if (pt.vec() != s.part[q]) sim_violation("input-changed", "computing statistics changed the mapping"); SCOTCH_dgraphMapExit(f, &mp); SCOTCH_stratExit(&st); A.exit(); }
    if (s.ctx) { SCOTCH_dgraphExit(&bd); cx.exit(); } if (D.hash() != h0) sim_violation("input-changed", "computing statistics changed the graph"); D.exit(); }
  w.close(); mpi_end();
}
static void check_dstat() {
  S &s = shared<S>(); int p = s.cc.procs; for (int q = 1; q < p; q++) if (s.rc[q] != s.rc[0]) sim_violation("status-differs", "statistics: %d on process 0 and %d on process %d", s.rc[0], s.rc[q], q);
  if (s.what == 0) { if (s.rc[0]) sim_violation("call-failed", "SCOTCH_dgraphStat returned %d (%s)", s.rc[0], sim_err_last(0)); GStat ref = ref_stat(s.g); for (int q = 0; q < p; q++) { std::string w = "SCOTCH_dgraphStat on process " + std::to_string(q); same_stat(w.c_str(), s.gs[q], ref, s.mask[q]); } sim_probe(s.g.ew ? "graphs-with-edge-loads" : "graphs-without-edge-loads"); return; }
  long arcs = s.g.arcs(); if (!arcs) { if (s.rc[0]) sim_violation("call-failed", "statistics of a mapping of a graph without edges: %s", sim_err_last(0)); return; }
  if (s.parts <= 0) { if (!s.rc[0]) sim_violation("unsupported-accepted", "statistics of a mapping onto a variable-sized target are not implemented but success is returned"); sim_probe("unsupported-reported"); return; } if (s.rc[0]) sim_violation("call-failed", "statistics of a mapping: %d (%s)", s.rc[0], sim_err_last(0));
  V part; for (auto &x : s.part) part.insert(part.end(), x.begin(), x.end()); if (!s.compute) std::fill(part.begin(), part.end(), 0); MStat m = ref_map(s.g, part, s.parts, [](Num, Num) { return 1L; }, [&](Num k) { return s.a.t == 1 ? (long)s.a.p[k] : 1L; }); if (m.used > 1) sim_probe("several-parts"); if (m.used > 31) sim_probe("more-than-31-parts");
  if (s.what == 1) { static const char *nm[] = {"size of the target", "number of used vertices of the target", "minimum load", "maximum load", "sum of neighbors", "minimum of neighbors", "maximum of neighbors", "largest distance", "communication load", "dilation", "expansion"};
    for (int q = 0; q < p; q++) { std::vector<double> want = {(double)m.tgt, (double)m.used, (double)m.wmin, (double)m.wmax, (double)m.nsum, (double)m.nmin, (double)m.nmax, (double)m.dmax, (double)(m.load / 2), (double)(m.dilat / 2), (double)(m.expan / 2)}; for (int i = 0; i < 11; i++) { if (!m.used && (i == 2 || i == 5 || i == 7)) continue; double x = s.vals[q][i], y = (s.mask[q] >> i) & 1 ? want[i] : -77; if (x != y) sim_violation("bad-statistics", "SCOTCH_dgraphMapStat on process %d: %s is %g instead of %g", q, nm[i], x, y); }
      if (s.a.t != 1 && ((s.mask[q] >> 12) & 1) && !near(s.vals[q][12], m.avg)) sim_violation("bad-statistics", "SCOTCH_dgraphMapStat on process %d: average load %g instead of %g", q, s.vals[q][12], m.avg); if (s.a.t != 1 && ((s.mask[q] >> 13) & 1) && !near(s.vals[q][13], m.dlt)) sim_violation("bad-statistics", "SCOTCH_dgraphMapStat on process %d: load deviation %g instead of %g", q, s.vals[q][13], m.dlt);
      if ((s.mask[q] >> 14) & 1) for (int d = 0; d < 256; d++) if (s.vals[q][14 + d] != m.cd[d] / 2) sim_violation("bad-statistics", "SCOTCH_dgraphMapStat on process %d: %g at distance %d instead of %ld", q, s.vals[q][14 + d], d, m.cd[d] / 2); } sim_probe("mapping-statistics"); return; }
  Txt t = parse(s.text); if (m.used) cmp_view("SCOTCH_dgraphMapView", t, s.g, m, s.a.t == 1, "Cmlosum"); sim_probe("views-compared");
  if (s.cut && s.met[s.saver] > 0) { sim_probe("write-errors-met"); if (!s.rv[s.saver]) sim_violation("silent-write-error", "SCOTCH_dgraphMapView returned success although a write failed"); } if (s.cut && !s.met[s.saver]) for (int q = 0; q < p; q++) if (s.rv[q]) sim_violation("call-failed", "SCOTCH_dgraphMapView fails although no write failed");
}
WORKLOAD(C22, "dstat", 3, 1, setup_dstat, rmain_dstat, check_dstat)
ALSO07("dstat", 1, setup_dstat, rmain_dstat)

namespace { struct VS { RG g; Num base; bool gaps, ctx; int what, threads, trans; uint64_t gs; ArchSpec a; V part, old, vmlo; double emra; bool vml, cut; long at; RM m; }; }
static void setup_view() {
  VS *s = newshared<VS>(); s->what = cfg(7); GenOpt o; o.maxn = 60; o.zerow = s->what >= 5; o.empty = s->what >= 5; o.minn = s->what >= 5 ? 0 : 2; s->g = gen_graph(o); s->base = cfg(3); s->gaps = coin(); s->gs = cfg(1 << 12); s->ctx = cfg(3) == 2; s->threads = 1 + cfg(3); LR r(9 + cfg(1 << 16)); do s->a = gen_arch(r, 1 + r.below(r.chance(1, 4) ? 30 : 8), false); while (s->a.n <= 0); int n = s->g.n, k = s->a.n, unm = r.below(4); 
  auto gen = [&](int hole) { V v; int lim = r.chance(1, 2) ? k : 1 + r.below(k), off = k - lim ? r.below(k - lim + 1) : 0; for (int i = 0; i < n; i++) v.push_back(hole == 3 && r.chance(1, 5) ? -1 : off + r.below(lim)); return v; }; s->part = gen(unm); s->old = gen(r.below(4)); for (int i = 0; i < n; i++) { if (r.chance(1, 3)) s->old[i] = s->part[i]; s->vmlo.push_back(r.below(9)); } s->emra = r.below(40) / 8.0; s->vml = r.chance(2, 3); s->cut = r.chance(1, 4); s->trans = r.below(2); s->at = r.below(1 << 20); if (s->what == 6) s->m = gen_mesh(20);
  static const int bm[] = {0, 0, -1, 16, 512}; sim_io.bufmode = bm[cfg(5)]; sim_describe("what=%d n=%d base=%d arch=%s unmapped=%d cut=%d", s->what, n, s->base, s->a.str().c_str(), unm == 3, s->cut); sim_state(s->what * 100 + s->a.t);
}
static void rmain_view(int) {
  VS &s = shared<VS>(); 
  if (s.what == 6) { CM M; M.make(s.m, s.base & 1, s.gaps, s.gs); OKCALL(M.build()); uint64_t h0 = M.hash(); Num vmn, vmx, vsm, dmn[2], dmx[2]; double va, vd, da[2], dd[2]; SCOTCH_meshStat(&M.m, &vmn, &vmx, &vsm, &va, &vd, &dmn[0], &dmx[0], &da[0], &dd[0], &dmn[1], &dmx[1], &da[1], &dd[1]); if (M.hash() != h0) sim_violation("input-changed", "SCOTCH_meshStat changed the mesh"); M.exit();
    std::vector<double> vl, de, dn; std::vector<int> nd(s.m.nn, 0); for (auto &e : s.m.en) { de.push_back(e.size()); for (int x : e) nd[x]++; } for (int x : nd) dn.push_back(x); for (int i = 0; i < s.m.nn; i++) vl.push_back(s.m.nw ? s.m.vnlo[i] : 1); One a(vl), b(de), c(dn);
    auto eq = [&](const char *n, double x, double y) { if (!near(x, y)) sim_violation("bad-statistics", "SCOTCH_meshStat: %s is %g instead of %g", n, x, y); }; eq("minimum node load", vmn, a.mn); eq("maximum node load", vmx, a.mx); eq("sum of node loads", vsm, a.sum); eq("average node load", va, a.avg); eq("node load deviation", vd, a.dlt); eq("minimum element degree", dmn[0], b.mn); eq("maximum element degree", dmx[0], b.mx); eq("average element degree", da[0], b.avg); eq("element degree deviation", dd[0], b.dlt); eq("minimum node degree", dmn[1], c.mn); eq("maximum node degree", dmx[1], c.mx); eq("average node degree", da[1], c.avg); eq("node degree deviation", dd[1], c.dlt); sim_probe("meshes"); return; }
  CG C; C.make(s.g, s.base, s.gaps, s.gs); OKCALL(C.build()); uint64_t h0 = C.hash(); C.ro(); CX cx; SCOTCH_Graph bg, *f = &C.g; if (s.ctx) { OKCALL(cx.init(s.threads, 0, 0, 0)); SCOTCH_graphInit(&bg); OKCALL(SCOTCH_contextBindGraph(&cx.c, &C.g, &bg)); f = &bg; }
  if (s.what == 5) { GStat g; SCOTCH_graphStat(f, &g.n[0], &g.n[1], &g.n[2], &g.d[0], &g.d[1], &g.n[3], &g.n[4], &g.d[2], &g.d[3], &g.n[5], &g.n[6], &g.n[7], &g.d[4], &g.d[5]); same_stat("SCOTCH_graphStat", g, ref_stat(s.g)); sim_probe("graphs"); }
  else { SN pt(s.part), po(s.old), vm(s.vmlo); pt.ro(); po.ro(); vm.ro(); Arch A; OKCALL(A.build(s.a)); SCOTCH_Mapping mp, mo; OKCALL(SCOTCH_graphMapInit(f, &mp, &A.a, pt.p)); OKCALL(SCOTCH_graphMapInit(f, &mo, &A.a, po.p)); SCOTCH_Num k = s.a.n; 
    auto go = [&](FILE *o) { switch (s.what) { case 0: return SCOTCH_graphMapView(f, &mp, o); case 1: return SCOTCH_graphRemapView(f, &mp, &mo, s.emra, s.vml ? vm.p : nullptr, o); case 2: return SCOTCH_graphRemapViewRaw(f, &mp, nullptr, 0, nullptr, o); case 3: return SCOTCH_graphRemapViewRaw(f, &mp, &mo, s.emra, s.vml ? vm.p : nullptr, o); default: return SCOTCH_graphPartOvlView(f, k, pt.p, o); } };
    FILE *o = sim_fopen("v", "w"); int rc = go(o); if (rc) sim_violation("call-failed", "viewing a mapping returned %d (%s)", rc, sim_err_last(sim_rank())); fclose(o); std::string text = slurp_file("v");
    if (s.cut && !text.empty()) { sim_io_rearm(); sim_io.wrerr_at = s.at % (long)text.size(); sim_io.wrerrno = (s.at >> 18) & 1 ? 28 : 5; sim_io.wrtransient = s.trans; o = sim_fopen("v2", "w"); int w0 = sim_write_faults(); rc = go(o); int w1 = sim_write_faults(); fclose(o); sim_io.wrerr_at = -1; if (w1 > w0) { sim_probe("write-errors-met"); if (!rc) sim_violation("silent-write-error", "viewing a mapping returned success although a write failed"); } else if (rc) sim_violation("call-failed", "viewing a mapping fails although no write failed"); }
    SCOTCH_ArchDom *da = (SCOTCH_ArchDom*)SCOTCH_archDomAlloc(), *db = (SCOTCH_ArchDom*)SCOTCH_archDomAlloc(); std::map<std::pair<Num,Num>,long> memo; auto dist = [&](Num a, Num b) { auto it = memo.find({a, b}); if (it != memo.end()) return it->second; OKCALL(SCOTCH_archDomTerm(&A.a, da, a)); OKCALL(SCOTCH_archDomTerm(&A.a, db, b)); return memo[{a, b}] = (long)SCOTCH_archDomDist(&A.a, da, db); };
    if (s.what < 4) { MStat m = ref_map(s.g, s.part, k, dist, [](Num) { return 1L; }); if (!s.g.arcs()) { if (!text.empty()) sim_probe("edgeless-text"); }
      else { long mn = 0; double md = 0, ml = 0, mc = 0; for (int v = 0; v < s.g.n; v++) if (s.part[v] >= 0 && s.old[v] >= 0 && s.part[v] != s.old[v]) { mn++; md += dist(s.part[v], s.old[v]); ml += s.g.w(v); mc += s.emra * (s.vml ? s.vmlo[v] : 1); } if (mn) { md /= mn; ml /= mn; }
        if (s.what < 2) { Txt t = parse(text); cmp_view("mapping view", t, s.g, m, false, "CommLoad"); if (s.what == 1) { cmp("remapping view", t, "MigrNbr", 0, mn); cmp("remapping view", t, "AvgMigrDist", 0, md); cmp("remapping view", t, "AvgMigrLoad", 0, ml); cmp("remapping view", t, "MigrCost", 0, mc); sim_probe("remapping-views"); } else { if (t.count("MigrNbr")) sim_violation("bad-statistics", "migration in a mapping view"); sim_probe("mapping-views"); } if (m.dmax > 1) sim_probe("distances-above-1"); if (m.used < k) sim_probe("unused-parts"); }
        else { std::istringstream is(text); std::vector<double> v; double x; while (is >> x) v.push_back(x); std::vector<double> want = {(double)m.used, (double)m.tgt, (double)m.lmin, (double)m.lmax, m.avg, m.dlt, m.used ? m.lmax / m.avg : 0, (double)m.load, (double)m.expan, (double)m.dilat / s.g.arcs(), m.load ? (double)m.expan / m.load : 0, m.load ? (double)(m.load - m.cd[0]) / m.load : 0, m.load && m.dilat ? (double)m.expan * s.g.arcs() / ((double)m.load * m.dilat) : 0}; if (s.what == 3) { want.push_back(s.emra); want.push_back((double)mn / s.g.n); want.push_back(md); want.push_back(ml); want.push_back(mc); } if (v.size() != want.size()) sim_violation("bad-statistics", "raw view has %zu values instead of %zu", v.size(), want.size()); for (size_t i = 0; i < v.size(); i++) if (!near(v[i], want[i])) sim_violation("bad-statistics", "value %zu of the raw view is %g instead of %g", i, v[i], want[i]); sim_probe("raw-views"); } } }
    else { std::vector<double> ld(k, 0); double fr = 0; for (int v = 0; v < s.g.n; v++) { if (s.part[v] >= 0) ld[s.part[v]] += s.g.w(v); else { fr += s.g.w(v); std::set<Num> ng; for (auto &e : s.g.adj[v]) if (s.part[e.first] >= 0) ng.insert(s.part[e.first]); for (Num x : ng) ld[x] += s.g.w(v); } } One a(ld); Txt t = parse(text); cmp("overlap view", t, "sep", 0, fr); cmp("overlap view", t, "min", 0, a.mn); cmp("overlap view", t, "min", 1, a.mx); cmp("overlap view", t, "min", 2, a.avg); if (a.avg > 0) { cmp("overlap view", t, "maxavg", 0, a.mx / a.avg); cmp("overlap view", t, "maxavg", 1, a.mn / a.avg); } sim_probe("overlap-views"); }
    SCOTCH_memFree(da); SCOTCH_memFree(db); SCOTCH_graphMapExit(f, &mp); SCOTCH_graphMapExit(f, &mo); A.exit(); pt.wr(); po.wr(); vm.wr(); }
  if (s.ctx) { SCOTCH_graphExit(&bg); cx.exit(); } C.wr(); if (C.hash() != h0) sim_violation("input-changed", "computing statistics changed the graph"); C.exit();
}
WORKLOAD(C22, "view", 1, 1, setup_view, rmain_view, nullptr)
