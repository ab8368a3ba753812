// C25: colourings, induced graphs, diameters, rebased and dumped graphs, graphs of meshes, against references computed from their definitions; for objects with and without a context.
#include "job.h"
#include "io.h"
#include <sstream>
namespace { enum { A_COLOR, A_LIST, A_PART, A_DIAM, A_DUMP, A_BASE, A_NODES, A_DUAL, A_NB }; struct Op { int what, ctx, refuse; long at; uint64_t sd; }; struct S { RG g; RM m; Num base; bool gaps; uint64_t gs; int callers; Num seed; std::vector<std::vector<Op>> ops; }; }
static CG *G; static CM *M;
static void setup() {
  S *s = newshared<S>(); GenOpt o; o.maxn = cfg(4) == 3 ? 150 : 40; s->g = gen_graph(o); s->m = gen_mesh(25); s->base = cfg(8) == 7 ? (cfg(2) ? 100 : 4) : cfg(2); s->gaps = coin(); s->gs = cfg(1000); s->callers = cfg(3) == 2 ? 2 + cfg(2) : 1; s->seed = cfg(1000); int k = 0;
  for (int i = 0; i < s->callers; i++) { s->ops.push_back({}); int q = 1 + cfg(5); for (int j = 0; j < q; j++) { Op p; p.what = cfg(A_NB); p.ctx = s->callers > 1 ? 1 : coin(); p.refuse = s->callers == 1 && cfg(6) == 5; p.at = cfg(1 << 20); p.sd = cfg(1 << 16); s->ops[i].push_back(p); k = k * 9 + p.what + 1; } }
  sim_knobs.sched = s->callers > 1; sim_knobs.cores = 1 + cfg(4); sim_describe("base=%d gaps=%d callers=%d ops=%d", s->base, s->gaps, s->callers, k); sim_state(s->callers * 1000 + k % 997);
}
// Parses what graphDump wrote: the arrays, and the arguments of the building call
static void read_dump(const std::string &t, const char *pre, const char *suf, const RG &want, Num base, const char *who) {
  std::map<std::string, V> arr; size_t i = 0; 
  while ((i = t.find("SCOTCH_Num ", i)) != std::string::npos) { i += 11; size_t b = t.find("[] = {", i), e = b == std::string::npos ? b : t.find("};", b); if (e == std::string::npos) sim_violation("bad-dump", "%s: an array does not end", who); std::string nm = t.substr(i, b - i), body = t.substr(b + 6, e - b - 6); for (char &c : body) if (c == ',') c = ' '; std::istringstream is(body); V v; long x; while (is >> x) v.push_back((Num)x); if (arr.count(nm)) sim_violation("bad-dump", "%s: array %s defined twice", who, nm.c_str()); arr[nm] = v; i = e; }
  std::string fn = std::string(pre) + "GraphBuild" + suf + " ("; if (t.find(fn) == std::string::npos) sim_violation("bad-dump", "%s: no routine %s", who, fn.c_str()); size_t c = t.find("SCOTCH_graphBuild (grafptr"), z = c == std::string::npos ? c : t.find("))", c); if (z == std::string::npos) sim_violation("bad-dump", "%s: no call that builds the graph", who);
  std::vector<std::string> a; { std::string body = t.substr(c + 19, z - c - 19), w; for (char ch : body + ",") { if (ch == ',') { a.push_back(w); w.clear(); } else if (!isspace((unsigned char)ch)) w += ch; } } if (a.size() != 10) sim_violation("bad-dump", "%s: the building call has %zu arguments", who, a.size());
  auto get = [&](int k) -> const V* { if (a[k] == "NULL") return nullptr; auto it = arr.find(a[k]); if (it == arr.end()) sim_violation("bad-dump", "%s: array %s is used and not defined", who, a[k].c_str()); return &it->second; };
  Num n = atoi(a[2].c_str()); if (atoi(a[1].c_str()) != base) sim_violation("bad-dump", "%s: base %s instead of %d", who, a[1].c_str(), base); const V *vt = get(3), *vd = get(4), *ve = get(5), *vl = get(6), *et = get(8), *el = get(9); if (n != want.n) sim_violation("bad-dump", "%s: %d vertices instead of %d", who, n, want.n);
  if (!vt || (long)vt->size() < n + (vd ? 0 : 1) || (vd && (long)vd->size() < n) || (ve && (long)ve->size() < n) || (vl && (long)vl->size() < n) || (n > 0 && !et)) sim_violation("bad-dump", "%s: a vertex array is missing or too small", who);
  RG r; r.n = n; r.adj.resize(n); r.vw = ve; r.ew = el; r.lb = vl; long m = 0; for (Num v = 0; v < n; v++) { if (ve) r.velo.push_back((*ve)[v]); if (vl) r.vlbl.push_back((*vl)[v]); Num lo = (*vt)[v] - base, hi = (vd ? (*vd)[v] : (*vt)[v + 1]) - base; for (Num e = lo; e < hi; e++) { if (e < 0 || e >= (Num)et->size() || (el && e >= (Num)el->size())) sim_violation("bad-dump", "%s: arc %d of vertex %d lies outside of the dumped edge array", who, e, v); r.adj[v].push_back({(*et)[e] - base, el ? (*el)[e] : 1}); m++; } } if (atoi(a[7].c_str()) != m) sim_violation("bad-dump", "%s: %s arcs announced instead of %ld", who, a[7].c_str(), m);
  std::string why; if (!same_graph(want, r, why)) sim_violation("bad-dump", "%s: the dumped graph is not the graph: %s", who, why.c_str());
}
// Vertices and loads of the subgraph, in the order of the list, without labels
static void same_sub(SCOTCH_Graph *g, const RG &org, const std::vector<int> &list, Num base, const char *who) {
  Num b; RG x = extract(g, &b), w = induced(org, list); w.lb = x.lb; w.vlbl = x.vlbl; if (b != base) sim_violation("bad-induced", "%s: base %d instead of %d", who, b, base); std::string why; if (!same_graph(w, x, why)) sim_violation("bad-induced", "%s: %s", who, why.c_str()); OKCALL(SCOTCH_graphCheck(g));
  Num vb, vs, eb, es; { Num q[8]; double d[8]; SCOTCH_graphStat(g, &q[0], &q[1], &vs, &d[0], &d[1], &q[3], &q[4], &d[2], &d[3], &q[5], &q[6], &es, &d[4], &d[5]); SCOTCH_graphSize(g, &vb, &eb); } if (vs != w.velosum() || (eb && w.ew && es != w.edlosum()) || eb != w.arcs()) sim_violation("bad-induced", "%s: sums of loads or of arcs are wrong", who);
}
static RG dual_of(const RM &m, int ncom, bool dual) {
  RG r; r.n = dual ? m.ne : m.nn; r.adj.resize(r.n); std::vector<std::set<int>> a(r.n); std::vector<std::set<int>> es; for (auto &e : m.en) es.push_back(std::set<int>(e.begin(), e.end()));
  if (!dual) { for (auto &e : es) for (int x : e) for (int y : e) if (x != y) a[x].insert(y); r.vw = m.nw; r.velo = m.vnlo; }
  else for (int x = 0; x < m.ne; x++) for (int y = 0; y < m.ne; y++) if (x != y) { int c = 0; for (int v : es[x]) c += (int)es[y].count(v); int t = std::min(ncom, std::min((int)es[x].size() - 1, (int)es[y].size() - 1)); if (c > 0 && c >= t) a[x].insert(y); }
  for (int v = 0; v < r.n; v++) for (int y : a[v]) r.adj[v].push_back({y, 1}); return r;
}
static long long ecc(const RG &g, int s, std::vector<long long> *out = nullptr) { std::vector<long long> d(g.n, -1); std::set<std::pair<long long,int>> q; std::vector<char> done(g.n, 0); d[s] = 0; q.insert({0, s}); long long mx = 0; int cnt = 0; while (!q.empty()) { auto [x, v] = *q.begin(); q.erase(q.begin()); done[v] = 1; cnt++; mx = std::max(mx, x); long long y = x + (g.vw ? g.velo[v] : 0); for (auto &e : g.adj[v]) if (!done[e.first] && (d[e.first] < 0 || y + e.second < d[e.first])) { if (d[e.first] >= 0) q.erase({d[e.first], e.first}); d[e.first] = y + e.second; q.insert({d[e.first], e.first}); } } if (out) *out = d; return cnt < g.n ? -1 : mx; }
static void one(const Op &p, int me) {
  S &s = shared<S>(); const RG &g = s.g; int n = g.n; LR r(p.sd * 31 + 7); CX cx; bool mesh = p.what >= A_NODES; SCOTCH_Graph bg, *f = &G->g; SCOTCH_Mesh bm, *fm = &M->m;
  if (p.ctx) { OKCALL(cx.init(1, 0, 1, (Num)p.sd)); if (mesh) { SCOTCH_meshInit(&bm); OKCALL(SCOTCH_contextBindMesh(&cx.c, &M->m, &bm)); fm = &bm; } else { SCOTCH_graphInit(&bg); OKCALL(SCOTCH_contextBindGraph(&cx.c, &G->g, &bg)); f = &bg; } }
  static const char *nm[] = {"SCOTCH_graphColor", "SCOTCH_graphInduceList", "SCOTCH_graphInducePart", "SCOTCH_graphDiamPV", "SCOTCH_graphDump", "SCOTCH_graphBase", "SCOTCH_meshGraph", "SCOTCH_meshGraphDual"}; const char *w = nm[p.what]; int f0 = 0; bool hit = false;
  auto arm = [&] { f0 = sim_alloc_failed(); if (p.refuse) sim_fail_from(sim_alloc_index() + p.at % 4, 1 + p.at / 4 % 3); }; auto off = [&](int rc) { if (p.refuse) sim_fail_from(-1, 1); hit = sim_alloc_failed() > f0; if (hit) sim_probe(rc ? "refused" : "survived"); if (rc && !hit) sim_violation("call-failed", "%s returned %d (%s)", w, rc, sim_err_last(sim_rank())); return rc == 0; };
  switch (p.what) {
  case A_COLOR: { SN c((size_t)n); c.fill(-9); Num k = -1; arm(); if (off(SCOTCH_graphColor(f, c.p, &k, 0))) { std::vector<char> used(std::max<Num>(k, 0), 0); for (int v = 0; v < n; v++) { if (c[v] < 0 || c[v] >= k) sim_violation("bad-colouring", "vertex %d has colour %d of %d", v, c[v], k); used[c[v]] = 1; for (auto &e : g.adj[v]) if (c[e.first] == c[v]) sim_violation("bad-colouring", "neighbours %d and %d both have colour %d", v, e.first, c[v]); } for (Num i = 0; i < k; i++) if (!used[i]) sim_violation("bad-colouring", "colour %d of %d is not used", i, k); if (!n && k) sim_violation("bad-colouring", "%d colours for an empty graph", k); if (k > 2) sim_probe("colours"); } break; }
  case A_LIST: case A_PART: { std::vector<int> l; int mode = r.below(4); int pv = r.below(3); std::vector<unsigned char> pt(n); for (int v = 0; v < n; v++) { bool in = mode == 0 ? r.chance(1, 2) : mode == 1 ? true : mode == 2 ? r.chance(1, 8) : v % 3 == 0; pt[v] = in ? pv : (pv + 1 + r.below(2)) % 3; if (in) l.push_back(v); } if (p.what == A_LIST && r.chance(2, 3)) for (int i = (int)l.size() - 1; i > 0; i--) std::swap(l[i], l[r.below(i + 1)]);
    SCOTCH_Graph ig; OKCALL(SCOTCH_graphInit(&ig)); int rc; if (p.what == A_LIST) { V lv; for (int v : l) lv.push_back(v + s.base); SN ls(lv); ls.ro(); arm(); rc = SCOTCH_graphInduceList(f, (Num)l.size(), ls.p, &ig); ls.wr(); } else { SA<SCOTCH_GraphPart2> ps(pt); ps.ro(); arm(); rc = SCOTCH_graphInducePart(f, (Num)l.size(), ps.p, (SCOTCH_GraphPart2)pv, &ig); ps.wr(); }
    if (off(rc)) { same_sub(&ig, g, l, s.base, w); sim_probe("induced"); if (l.size() > 2 && r.chance(1, 2)) { std::vector<int> l2, l3; V lv; for (int i = 0; i < (int)l.size(); i++) if (r.chance(2, 3)) { l2.push_back(i); l3.push_back(l[i]); lv.push_back(i + s.base); } SN ls(lv); SCOTCH_Graph jg; OKCALL(SCOTCH_graphInit(&jg)); OKCALL(SCOTCH_graphInduceList(&ig, (Num)l2.size(), ls.p, &jg)); same_sub(&jg, g, l3, s.base, "SCOTCH_graphInduceList of an induced graph"); SCOTCH_graphExit(&jg); sim_probe("induced-twice"); } SCOTCH_graphExit(&ig); } break; }
  case A_DIAM: { arm(); Num d = SCOTCH_graphDiamPV(f); if (off(d < 0)) { if (!n) { if (d != 0) sim_violation("bad-diameter", "diameter of an empty graph is %d", d); break; } bool conn = true, eq = false, far = false; long long lo = -1; std::vector<long long> ec(n), dd; for (int v = 0; v < n && conn; v++) { long long e = ec[v] = ecc(g, v); conn = e >= 0; eq |= e == d; lo = lo < 0 ? e : std::min(lo, e); } for (int v = 0; conn && v < n && !far; v++) if (ec[v] == d) { ecc(g, v, &dd); for (int w = 0; w < n; w++) far |= dd[w] == d && ec[w] <= d; } if (!conn) { if (d != SCOTCH_NUMMAX) sim_violation("bad-diameter", "diameter of a disconnected graph is %d", d); sim_probe("disconnected"); } else { if (!eq) sim_violation("bad-diameter", "pseudo-diameter %d is not the eccentricity of any vertex (smallest: %lld)", d, lo); if (!far) sim_violation("bad-diameter", "pseudo-diameter %d: some vertex is farther from any of the vertices at this distance", d); sim_probe("diameters"); } } break; }
  case A_DUMP: { static const char *ps[] = {nullptr, "", "pre_", "x"}; const char *a = ps[r.below(4)], *b = ps[r.below(4)]; std::string fn = "dump" + std::to_string(me); FILE *o = sim_fopen(fn.c_str(), "w"); int rc = SCOTCH_graphDump(f, a, b, o); if (rc) sim_violation("call-failed", "SCOTCH_graphDump returned %d", rc); fclose(o); std::string t = slurp_file(fn.c_str()); read_dump(t, a ? a : "", b ? b : "", g, s.base, w); sim_probe("dumps");
    if (p.refuse) { sim_io_rearm(); sim_io.wrerr_at = p.at % (long)t.size(); sim_io.wrerrno = 28; sim_io.wrtransient = r.below(2); o = sim_fopen("dumpbad", "w"); setvbuf(o, nullptr, _IONBF, 0); int w0 = sim_write_faults(); rc = SCOTCH_graphDump(f, a, b, o); if (sim_write_faults() > w0 && !rc) sim_violation("silent-write-error", "SCOTCH_graphDump returned success although a write failed"); sim_io.wrerr_at = -1; fclose(o); sim_probe("write-errors"); } break; }
  case A_BASE: { CG C; C.make(g, s.base, s.gaps, s.gs); OKCALL(C.build()); uint64_t h0 = C.hash(); bool vgap = s.gaps; Num now = s.base; int k = 1 + r.below(3); SCOTCH_Graph bb, *fc = &C.g; if (p.ctx) { SCOTCH_graphInit(&bb); OKCALL(SCOTCH_contextBindGraph(&cx.c, &C.g, &bb)); fc = &bb; }
    for (int i = 0; i < k; i++) { Num nb = r.below(4), old = SCOTCH_graphBase(fc, nb), b; if (old != now) sim_violation("bad-base", "SCOTCH_graphBase returned %d as the old base instead of %d", old, now); now = nb; RG x = extract(&C.g, &b); std::string why; if (b != nb) sim_violation("bad-base", "base is %d after it was set to %d", b, nb); if (!same_graph(g, x, why)) sim_violation("bad-base", "rebasing from %d to %d changed the graph: %s", old, nb, why.c_str()); if (!x.lb || nb == 0) OKCALL(SCOTCH_graphCheck(&C.g)); }
    if (SCOTCH_graphBase(fc, s.base) != now) sim_violation("bad-base", "wrong old base"); if (C.hash() != h0) sim_violation("bad-base", "rebasing forth and back changed the arrays"); (void)vgap; if (p.ctx) SCOTCH_graphExit(&bb); C.exit(); sim_probe("rebased"); break; }
  default: { SCOTCH_Graph g2; OKCALL(SCOTCH_graphInit(&g2)); Num nc = 1 + r.below(4); arm(); if (off(p.what == A_NODES ? SCOTCH_meshGraph(fm, &g2) : SCOTCH_meshGraphDual(fm, &g2, nc))) { Num b; RG x = extract(&g2, &b), q = dual_of(s.m, nc, p.what == A_DUAL); x.lb = q.lb; std::string why; if (b != (s.base & 1)) sim_violation("bad-mesh-graph", "%s: base %d instead of %d", w, b, s.base & 1); if (!same_graph(q, x, why)) sim_violation("bad-mesh-graph", "%s (%d common nodes): %s", w, nc, why.c_str()); OKCALL(SCOTCH_graphCheck(&g2)); Num vb, eb, vs, dm; { Num z[8]; double d[8]; SCOTCH_graphStat(&g2, &z[0], &z[1], &vs, &d[0], &d[1], &z[3], &dm, &d[2], &d[3], &z[5], &z[6], &z[7], &d[4], &d[5]); SCOTCH_graphSize(&g2, &vb, &eb); } if (vs != q.velosum() || eb != q.arcs()) sim_violation("bad-mesh-graph", "%s: sums are wrong", w); SCOTCH_graphExit(&g2); sim_probe(p.what == A_DUAL ? "dual-graphs" : "node-graphs"); } } }
  if (p.ctx) { if (mesh) SCOTCH_meshExit(&bm); else SCOTCH_graphExit(&bg); cx.exit(); }
}
static void caller(void *a) { S &s = shared<S>(); int i = (int)(intptr_t)a; for (auto &p : s.ops[i]) one(p, i); }
static void rmain(int) {
  S &s = shared<S>(); sim_setenv("SCOTCH_PTHREAD_NUMBER", "1"); SCOTCH_randomReset(); SCOTCH_randomSeed(s.seed); G = new CG; M = new CM; G->make(s.g, s.base, s.gaps, s.gs); OKCALL(G->build()); M->make(s.m, s.base & 1, s.gaps, s.gs); OKCALL(M->build()); G->ro(); M->ro();
  std::vector<SimThread*> t; for (int i = 1; i < s.callers; i++) t.push_back(sim_spawn(caller, (void*)(intptr_t)i)); caller(nullptr); for (auto x : t) sim_join(x); if (s.callers > 1) sim_probe("concurrent-callers");
  std::string why; if (!same_graph(s.g, extract(&G->g), why)) sim_violation("input-changed", "%s", why.c_str()); G->wr(); M->wr(); G->exit(); M->exit(); delete G; delete M;
}
WORKLOAD(C25, "derived", 1, 1, setup, rmain, nullptr)
