// C10: threaded coarsening of centralized graphs.
#include "w.h"
namespace { struct S { RG g; Num base; bool gaps; int threads, det, rc; Num seed; double ratio; Num flags; int api; Num minn; uint64_t gs; }; }
static void setup() {
  S *s = newshared<S>(); GenOpt o; o.maxn = 400; o.labels = true; o.empty = false; s->g = gen_graph(o); s->base = cfg(2); if (cfg(10) == 9) s->base = 5; s->gaps = coin(); s->threads = 1 + cfg(5); s->det = coin(); s->rc = coin(); s->seed = cfg(1000);
  static const double rr[] = {1.0, 0.8, 0.9, 0.55}; s->ratio = rr[cfg(4)]; s->flags = cfg(3) == 2 ? SCOTCH_COARSENNOMERGE : 0; s->api = cfg(3); s->minn = cfg(4) ? 1 : 1 + cfg(20); s->gs = cfg(1000); sim_knobs.cores = 1 + cfg(6);
  sim_describe("threads=%d det=%d api=%d ratio=%g flags=%x base=%d gaps=%d", s->threads, s->det, s->api, s->ratio, (int)s->flags, (int)s->base, s->gaps);
}
// multinode table: pairs of fine vertices (base-numbered)
static void check_multi(const RG &g, const Num *mult, Num cn, Num base, Num flags, std::vector<int> &cof) {
  cof.assign(g.n, -1);
  for (Num c = 0; c < cn; c++) for (int k = 0; k < 2; k++) { Num v = mult[2 * c + k] - base; if (v < 0 || v >= g.n) sim_violation("bad-multinode", "coarse vertex %d holds %d", c, mult[2 * c + k]); if (k == 1 && mult[2 * c] == mult[2 * c + 1]) continue; if (cof[v] >= 0) sim_violation("bad-multinode", "fine vertex %d is in coarse vertices %d and %d", v, cof[v], c); cof[v] = c; }
  for (int v = 0; v < g.n; v++) if (cof[v] < 0) sim_violation("bad-multinode", "fine vertex %d is in no coarse vertex", v);
}
static void check_pairs(const RG &g, const std::function<int(int)> &mate, Num flags) {
  for (int v = 0; v < g.n; v++) { int m = mate(v); if (m == v) continue; if (mate(m) != v) sim_violation("bad-matching", "mate of %d is %d, whose mate is %d", v, m, mate(m)); if (g.edge(v, m)) continue;
    if (flags & SCOTCH_COARSENNOMERGE) sim_violation("bad-matching", "vertices %d and %d are merged although they are not neighbours and merging was forbidden", v, m);
    sim_probe("pair-with-isolated");
    if (!g.adj[v].empty() && !g.adj[m].empty()) sim_violation("bad-matching", "vertices %d and %d are merged although both have neighbours and are not neighbours of each other", v, m); }
}
static void check_quotient(const RG &g, const std::vector<int> &cof, Num cn, const RG &c) {
  RG q; q.n = cn; q.vw = q.ew = true; q.velo.assign(cn, 0); q.adj.assign(cn, {}); std::vector<std::map<int,Num>> m(cn);
  for (int v = 0; v < g.n; v++) { q.velo[cof[v]] += g.w(v); for (auto &e : g.adj[v]) if (cof[e.first] != cof[v]) m[cof[v]][cof[e.first]] += e.second; }
  for (Num i = 0; i < cn; i++) for (auto &x : m[i]) q.adj[i].push_back(x);
  if (!c.vw) sim_violation("bad-coarse", "coarse graph has no vertex loads");
  viol_graph("bad-coarse", "coarse graph is not the quotient of the fine graph", q, c);
}
static void rmain(int) {
  S &s = shared<S>(); SCOTCH_randomReset(); SCOTCH_randomSeed(s.seed);
  CG G; G.make(s.g, s.base, s.gaps, s.gs); OKCALL(G.build()); G.ro();
  { CX cx; OKCALL(cx.init(s.threads, s.det, s.rc, s.seed)); SCOTCH_Graph b; SCOTCH_graphInit(&b); OKCALL(SCOTCH_contextBindGraph(&cx.c, &G.g, &b));
    Num n = s.g.n;
    if (s.api == 0) {
      Num cmax = (Num)(n * s.ratio); SN mult(2 * (size_t)cmax); mult.fill(-99); SCOTCH_Graph c; SCOTCH_graphInit(&c); int r = SCOTCH_graphCoarsen(&b, s.minn, s.ratio, s.flags, &c, mult);
      if (r == 0) { sim_probe("coarsened"); Num cn, ce; SCOTCH_graphSize(&c, &cn, &ce); if (cn > cmax) sim_violation("bad-coarse", "coarse graph has %d vertices, more than the ratio %g allows for %d", cn, s.ratio, n); if (SCOTCH_graphCheck(&c)) sim_violation("bad-coarse", "coarse graph fails its check: %s", sim_err_last(0));
        std::vector<int> cof; Num cb; RG C = extract(&c, &cb); if (cb != s.base) sim_violation("bad-coarse", "base of coarse graph is %d", cb); check_multi(s.g, mult, cn, s.base, s.flags, cof); check_pairs(s.g, [&](int v) { int k = cof[v]; int a = mult[2 * k] - s.base, d = mult[2 * k + 1] - s.base; return v == a ? d : a; }, s.flags); check_quotient(s.g, cof, cn, C);
        for (Num i = 2 * cn; i < 2 * cmax; i++) if (mult[i] != -99) { sim_probe("multtab-tail-written"); break; } }
      else if (r == 1) sim_probe("notcoarsened"); else sim_violation("call-failed", "SCOTCH_graphCoarsen returned %d: %s", r, sim_err_last(0));
      SCOTCH_graphExit(&c);
    } else {
      SN mate(n); mate.fill(-99); Num cn = n;   
      if (s.api == 1) { cn = s.minn; int r = SCOTCH_graphCoarsenMatch(&b, &cn, s.ratio, s.flags, mate); if (r == 1) { sim_probe("notmatched"); SCOTCH_graphExit(&b); cx.exit(); goto done; } if (r) sim_violation("call-failed", "SCOTCH_graphCoarsenMatch returned %d: %s", r, sim_err_last(0));
        int k = 0; for (Num v = 0; v < n; v++) { Num m = mate[v] - s.base; if (m < 0 || m >= n) sim_violation("bad-matching", "mate of %d is %d", v, mate[v]); k += m >= v; } check_pairs(s.g, [&](int v) { return (int)(mate[v] - s.base); }, s.flags); if (k != cn) sim_violation("bad-matching", "matching makes %d coarse vertices, %d announced", k, cn); sim_probe("matched"); }
      else { // user matching: random pairs, adjacent or not
        LR r(s.gs + 3); std::vector<int> p(n); std::iota(p.begin(), p.end(), 0); for (int i = n - 1; i > 0; i--) std::swap(p[i], p[r.below(i + 1)]); for (Num v = 0; v < n; v++) mate[v] = v + s.base; cn = n; for (int i = 0; i + 1 < n; i += 2) if (r.chance(3, 4)) { mate[p[i]] = p[i + 1] + s.base; mate[p[i + 1]] = p[i] + s.base; cn--; } sim_probe("usermatching"); }
      SN mt0(mate.vec()); SN mult(2 * cn); mult.fill(-99); SCOTCH_Graph c; SCOTCH_graphInit(&c); OKCALL(SCOTCH_graphCoarsenBuild(&b, cn, mate, &c, mult));
      Num c2, ce; SCOTCH_graphSize(&c, &c2, &ce); if (c2 != cn) sim_violation("bad-coarse", "coarse graph has %d vertices instead of %d", c2, cn); if (SCOTCH_graphCheck(&c)) sim_violation("bad-coarse", "coarse graph fails its check: %s", sim_err_last(0));
      std::vector<int> cof; RG C = extract(&c); check_multi(s.g, mult, cn, s.base, 0, cof);
      for (Num v = 0; v < n; v++) if (cof[v] != cof[mt0[v] - s.base]) sim_violation("bad-coarse", "vertices %d and %d were to be merged and are not", v, mt0[v] - s.base);
      check_quotient(s.g, cof, cn, C); SCOTCH_graphExit(&c);
    }
    SCOTCH_graphExit(&b); cx.exit(); }
done:
  G.wr(); G.exit(); 
}
WORKLOAD(C10, "coarsen", 1, 1, setup, rmain, nullptr)
