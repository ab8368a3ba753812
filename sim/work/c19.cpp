// C19: consistency checks accept what is valid and reject what is not, on all processes alike.
#include "job.h"
#include "strat.h"
namespace {
// Arrays of one process, as they stand when the check is called
struct Raw { Num base = 0, cnt = 0; int n = 0; V vert, vend, edge, edlo, velo; bool ew = false, vw = false; };
struct Verdict { bool bad = false, open = false; std::string why; void no(const char *w) { if (!bad) why = w; bad = true; } };
static const Num oddv[] = {0, -1, 1, 2, -2, 2147483647, -2147483647 - 1, 1000000, 5, 1000};
enum { A_VERT, A_VEND, A_EDGE, A_EDLO, A_VELO, A_GST, A_VNLO, A_NB }; static const char *aname[] = {"vertex", "vertex end", "edge", "edge load", "vertex load", "ghost edge", "node load"};
static bool corrupt(SN &a, size_t n, LR &r, size_t &at, Num &was) { if (!a.p || n == 0) return false; at = r.next() % n; was = a[at]; int k = r.below(5); Num x = k == 0 ? was + 1 : k == 1 ? was - 1 : k == 2 ? a[r.next() % n] : k == 3 ? oddv[r.below(10)] : was ^ (1 << r.below(31)); a[at] = x; return x != was; }
// st: first number, ln: number of vertices of each process; the graph is valid if all arcs come in pairs
static Verdict model(const std::vector<Raw> &p, const V &st, bool dist, bool after, const std::vector<V> &velo0) {
  Verdict v; std::map<std::pair<Num,Num>, std::vector<Num>> arc; long vs = 0, es = 0;
  auto has = [&](Num g) { for (size_t q = 0; q < p.size(); q++) if (g >= st[q] && g < st[q] + p[q].n) return true; return false; };
  for (size_t q = 0; q < p.size(); q++) { const Raw &a = p[q]; long s = 0; for (int i = 0; i < a.n; i++) { long b = a.vert[i], e = a.vend.empty() ? a.vert[i + 1] : a.vend[i]; if (b < a.base || e < b || e > (long)a.edge.size() + a.base) { v.no("vertex arrays"); return v; } s += e - b; } if (s != a.cnt) { v.no("number of edges"); return v; } }
  for (size_t q = 0; q < p.size(); q++) { const Raw &a = p[q]; for (int i = 0; i < a.n; i++) { long b = a.vert[i], e = a.vend.empty() ? a.vert[i + 1] : a.vend[i]; if (a.vw) { vs += a.velo[i]; if (a.velo[i] < 0) v.no("negative vertex load"); if (after && a.velo[i] != velo0[q][i]) v.no("vertex load sum"); } for (long k = b; k < e; k++) { Num t = a.edge[k - a.base], w = a.ew ? a.edlo[k - a.base] : 1; if (!has(t)) v.no("end vertex"); es += w; if (w <= 0) v.open = true; Num me = st[q] + i; if (t == me) { if (dist) v.open = true; else v.no("loop"); } arc[{me, t}].push_back(w); } } }
  for (auto &x : arc) { if (x.second.size() > 1) { v.no("duplicate arc"); continue; } auto y = arc.find({x.first.second, x.first.first}); if (y == arc.end()) v.no("missing arc"); else if (y->second.size() == 1 && y->second[0] != x.second[0]) v.no("edge loads differ"); }
  if (vs > 2147483647L || es > 2147483647L) { v.open = true; } return v;
}
static void judge(const char *what, const Verdict &v, bool changed, int rc, const char *arr, const char *err) {
  if (v.bad && rc == 0) sim_violation("accepted", "the check of a %s accepts a %s array that is wrong (%s)", what, arr, v.why.c_str());
  if (!v.bad && !v.open && rc) sim_violation("rejected", "the check of a valid %s returns %d (%s)", what, rc, err);
  sim_probe(v.bad ? "damage-rejected" : v.open ? "not-judged" : changed ? "harmless-change-accepted" : "valid-accepted");
}
struct G { RG g; Num base; bool gaps, after; int arr; uint64_t sd; RM m; bool mesh, order; std::string str; };
}
static void setup_seq() {
  G *s = newshared<G>(); s->mesh = coin(); s->order = cfg(4) == 3; GenOpt o; o.maxn = 60; o.labels = cfg(3) == 2; o.minn = s->order ? 1 : 0; if (s->mesh) s->m = gen_mesh(25); else s->g = gen_graph(o); s->base = cfg(2); s->gaps = coin(); s->after = coin(); s->arr = cfg(A_NB + 2); s->sd = cfg(1 << 24); LR r(s->sd + 3); s->str = s->mesh ? st_hmesh(r) : st_hord(r);
  if (s->order) { s->arr = cfg(4); if (s->mesh && s->m.nn == 0) s->order = false; }
  sim_describe("%s base=%d gaps=%d %s array=%s seed=%llu", s->mesh ? "mesh" : "graph", s->base, s->gaps, s->order ? "ordering" : s->after ? "after" : "before", s->order ? "" : s->arr < A_NB ? aname[s->arr] : "none", (unsigned long long)s->sd); sim_state(s->mesh * 64 + s->order * 32 + s->after * 16 + s->arr);
}
static void main_seq(int) {
  G &s = shared<G>(); LR r(s.sd * 7 + 1); size_t at = 0; Num was = 0; bool ch = false;
  if (s.order) { CG C; CM M; SCOTCH_Strat st; OKCALL(SCOTCH_stratInit(&st)); SCOTCH_Ordering od; int n; Num b; SN perm, peri, rang, tree; Num cb;
    if (s.mesh) { M.make(s.m, s.base, s.gaps, s.sd); OKCALL(M.build()); n = s.m.nn; b = M.nbas; perm.alloc(n); peri.alloc(n); rang.alloc(n + 1); tree.alloc(n); OKCALL(SCOTCH_stratMeshOrder(&st, s.str.c_str())); OKCALL(SCOTCH_meshOrderInit(&M.m, &od, perm, peri, &cb, rang, tree)); OKCALL(SCOTCH_meshOrderCompute(&M.m, &od, &st)); }
    else { C.make(s.g, s.base, s.gaps, s.sd); OKCALL(C.build()); n = s.g.n; b = s.base; perm.alloc(n); peri.alloc(n); rang.alloc(n + 1); tree.alloc(n); OKCALL(SCOTCH_stratGraphOrder(&st, s.str.c_str())); OKCALL(SCOTCH_graphOrderInit(&C.g, &od, perm, peri, &cb, rang, tree)); OKCALL(SCOTCH_graphOrderCompute(&C.g, &od, &st)); }
    auto ck = [&]() { return s.mesh ? SCOTCH_meshOrderCheck(&M.m, &od) : SCOTCH_graphOrderCheck(&C.g, &od); };
    if (ck()) sim_violation("rejected", "the check of a valid ordering fails (%s)", sim_err_last(sim_rank()));
    if (s.arr < 3) { ch = corrupt(peri, n, r, at, was); if (s.arr == 2 && n > 1) { peri[at] = was; size_t o = (at + 1) % n; std::swap(peri.p[at], peri.p[o]); int rc = ck(); std::swap(peri.p[at], peri.p[o]); if (rc) sim_violation("rejected", "the check of an ordering rejects another permutation (%s)", sim_err_last(sim_rank())); sim_probe("harmless-change-accepted"); } else if (ch) { if (ck() == 0) sim_violation("accepted", "the check of an ordering accepts an inverse permutation in which entry %zu is %d instead of %d", at, peri[at], was); sim_probe("damage-rejected"); peri[at] = was; } }
    if (ck()) sim_violation("rejected", "the check of a repaired ordering fails (%s)", sim_err_last(sim_rank()));
    if (s.mesh) { SCOTCH_meshOrderExit(&M.m, &od); M.exit(); } else { SCOTCH_graphOrderExit(&C.g, &od); C.exit(); } SCOTCH_stratExit(&st); (void)b; return; }
  if (!s.mesh) { CG C; C.make(s.g, s.base, s.gaps, s.sd); if ((s.arr == A_VEND && !C.vend.p) || (s.arr == A_EDLO && !C.edlo.p) || (s.arr == A_VELO && !C.velo.p) || s.arr == A_GST || s.arr == A_VNLO) s.arr = A_EDGE; V velo0 = C.velo.vec(); SN *a = nullptr; size_t n = 0; int k = s.arr; if (k == A_VERT) a = &C.vert, n = C.vert.n; else if (k == A_VEND) a = &C.vend, n = C.vend.n; else if (k == A_EDGE) a = &C.edge, n = C.edge.n; else if (k == A_EDLO) a = &C.edlo, n = C.edlo.n; else if (k == A_VELO) a = &C.velo, n = C.velo.n; bool after = s.after || k == A_VERT || k == A_VEND;
    if (!after && a) ch = corrupt(*a, n, r, at, was); int rc = C.build(); if (rc == 0 && after && a) ch = corrupt(*a, n, r, at, was); Raw w; w.base = s.base; w.cnt = (Num)s.g.arcs(); w.n = s.g.n; w.vert = C.vert.vec(); if (!C.compact) w.vend = C.vend.vec(); w.edge = C.edge.vec(); w.ew = s.g.ew; w.vw = s.g.vw; if (w.ew) w.edlo = C.edlo.vec(); if (w.vw) w.velo = C.velo.vec();
    Verdict v = model({w}, {s.base}, false, after, {velo0}); uint64_t h = C.hash(); if (rc == 0) rc = SCOTCH_graphCheck(&C.g); if (C.hash() != h) sim_violation("input-changed", "checking changed the graph"); judge("graph", v, ch, rc, k < A_NB ? aname[k] : "", sim_err_last(sim_rank()));
    if (ch && after) { (*a)[at] = was; if (SCOTCH_graphCheck(&C.g)) sim_violation("rejected", "the check of a repaired graph fails (%s)", sim_err_last(sim_rank())); } C.exit(); return; }
  CM M; M.make(s.m, s.base, s.gaps, s.sd); if ((s.arr == A_VEND && !M.vend.p) || s.arr == A_EDLO || (s.arr == A_VELO && !M.velo.p) || s.arr == A_GST || (s.arr == A_VNLO && !M.vnlo.p)) s.arr = A_EDGE; SN *a = nullptr; int k = s.arr; if (k == A_VERT) a = &M.vert; else if (k == A_VEND) a = &M.vend; else if (k == A_EDGE) a = &M.edge; else if (k == A_VELO) a = &M.velo; else if (k == A_VNLO) a = &M.vnlo; bool after = s.after || k == A_VERT || k == A_VEND; V ve0 = M.velo.vec(), vn0 = M.vnlo.vec();
  if (!after && a) ch = corrupt(*a, a->n, r, at, was); int rc = M.build(); if (rc && after) OKCALL(rc); if (after && a) ch = corrupt(*a, a->n, r, at, was);
  Raw w; w.base = s.base; w.cnt = M.edgenbr; w.n = s.m.ne + s.m.nn; w.vert = M.vert.vec(); if (M.vend.p) w.vend = M.vend.vec(); w.edge = M.edge.vec(); Verdict v = model({w}, {s.base}, false, false, {});
  if (!v.bad) { auto el = [&](Num x) { return x >= M.ebas && x < M.ebas + s.m.ne; }; for (int i = 0; i < w.n; i++) for (Num e = w.vert[i]; e < (w.vend.empty() ? w.vert[i + 1] : w.vend[i]); e++) if (el(i + s.base) == el(w.edge[e - s.base])) v.no("edge between vertices of the same kind"); }
  for (int q = 0; q < 2; q++) { V x = q ? M.vnlo.vec() : M.velo.vec(), &y = q ? vn0 : ve0; long sm = 0; for (size_t i = 0; i < x.size(); i++) { if (x[i] < 0) v.no("negative load"); else if (x[i] == 0) v.open = true; sm += x[i]; if (after && x[i] != y[i]) v.no("load sum"); } if (sm > 2147483647L) v.open = true; }
  if (rc == 0) rc = SCOTCH_meshCheck(&M.m); judge("mesh", v, ch, rc, k < A_NB ? aname[k] : "", sim_err_last(sim_rank())); if (ch && after) { (*a)[at] = was; if (SCOTCH_meshCheck(&M.m)) sim_violation("rejected", "the check of a repaired mesh fails (%s)", sim_err_last(sim_rank())); } M.exit();
}
WORKLOAD(C19, "seq", 1, 1, setup_seq, main_seq, nullptr)

namespace { struct D { CommCfg cc; RG g; Dist d; bool after, ghst, ugst; int arr, victim; uint64_t sd; std::vector<Raw> raw; std::vector<V> velo0; V st; std::vector<int> rc, rc2; bool ch = false, gbad = false, gin = false; std::vector<Num> vmax; }; }
static void setup_d() {
  D *s = newshared<D>(); s->cc = gen_comm(6); GenOpt o; o.maxn = 60; s->after = coin(); o.labels = s->after && cfg(3) == 2; s->g = gen_graph(o); s->d = gen_dist(s->g.n, s->cc.procs); s->arr = cfg(A_VNLO + 1); if (s->arr == A_VNLO) s->arr = A_NB; if ((s->arr == A_VEND && !s->d.gaps) || (s->arr == A_EDLO && !s->g.ew) || (s->arr == A_VELO && !s->g.vw)) s->arr = A_EDGE; s->victim = cfg(s->cc.procs); s->sd = cfg(1 << 24); s->ghst = coin(); s->ugst = coin(); if (s->arr == A_VERT || s->arr == A_VEND || s->arr == A_GST) s->after = true; if (s->arr == A_GST) s->ghst = s->ugst = true; 
  int p = s->cc.procs; s->raw.resize(p); s->velo0.resize(p); s->rc.assign(p, 0); s->rc2 = s->rc; s->vmax.assign(p, 0); sim_describe("%s array=%s process=%d ghost=%d/%d seed=%llu", s->after ? "after" : "before", s->arr < A_NB ? aname[s->arr] : "none", s->victim, s->ghst, s->ugst, (unsigned long long)s->sd); sim_state(s->arr * 32 + s->after * 16 + p);
}
static void main_d(int) {
  D &s = shared<D>(); mpi_begin(); WComm w; w.open(s.cc); if (!w.mine) { w.close(); mpi_end(); return; } int r = w.rank; LR q(s.sd * 7 + 1); size_t at = 0; Num was = 0; bool ch = false;
  { DG X; OKCALL(X.make(s.g, s.d, r, w.c, s.sd, s.ugst)); Num cnt; SCOTCH_dgraphData(&X.g, nullptr, nullptr, nullptr, nullptr, nullptr, nullptr, nullptr, nullptr, nullptr, nullptr, &cnt, nullptr, nullptr, nullptr, nullptr, nullptr); s.velo0[r] = X.velo.vec(); s.vmax[r] = X.vmax; if (s.ghst && s.after) OKCALL(SCOTCH_dgraphGhst(&X.g));
    SN *a = s.arr == A_VERT ? &X.vert : s.arr == A_VEND ? &X.vend : s.arr == A_EDGE ? &X.edge : s.arr == A_EDLO ? &X.edlo : s.arr == A_VELO ? &X.velo : s.arr == A_GST ? &X.edgegst : nullptr; size_t n = a ? a->n : 0; if (s.arr == A_VERT) n = X.ln + (X.vend.p ? 0 : X.ln > 0); else if (s.arr == A_VEND) n = std::min<size_t>(n, X.ln); else if (s.arr == A_VELO) n = std::min<size_t>(n, X.ln);
    Num gst = 0; if (s.arr == A_GST) SCOTCH_dgraphData(&X.g, nullptr, nullptr, nullptr, nullptr, &gst, nullptr, nullptr, nullptr, nullptr, nullptr, nullptr, nullptr, nullptr, nullptr, nullptr, nullptr);
    if (!s.after) { X.exit(); OKCALL(X.init(w.c)); } if (r == s.victim && a) ch = corrupt(*a, n, q, at, was); if (ch) s.ch = true;
    if (ch && s.arr == A_GST) { bool used = false; for (int i = 0; i < X.ln; i++) { Num e = (X.vend.p ? X.vend[i] : X.vert[i + 1]); if ((Num)at + s.d.base >= X.vert[i] && (Num)at + s.d.base < e) used = true; } Num v = (*a)[at]; if (used) { s.gin = true; if (v < s.d.base || v >= gst + s.d.base) s.gbad = true; } }
    int rc = 0; if (!s.after) rc = SCOTCH_dgraphBuild(&X.g, s.d.base, X.ln, X.vmax, X.vert.p, X.vend.p, X.velo.p, nullptr, cnt, (Num)X.edge.n, X.edge.p, s.ugst ? X.edgegst.p : nullptr, X.edlo.p);
    Raw z; z.base = s.d.base; z.cnt = cnt; z.n = X.ln; z.vert = X.vert.vec(); if (X.vend.p) z.vend = X.vend.vec(); z.edge = X.edge.vec(); z.ew = s.g.ew; z.vw = s.g.vw; if (z.ew) z.edlo = X.edlo.vec(); if (z.vw) z.velo = X.velo.vec(); s.raw[r] = z;
    uint64_t h = X.hash(); if (rc == 0) rc = SCOTCH_dgraphCheck(&X.g); s.rc[r] = rc; if (X.hash() != h) sim_violation("input-changed", "checking changed the graph"); if (s.after) { MPI_Barrier(w.c); if (ch) (*a)[at] = was; s.rc2[r] = SCOTCH_dgraphCheck(&X.g); } X.exit(); }
  w.close(); mpi_end();
}
static void check_d() {
  D &s = shared<D>(); int p = s.cc.procs; V st(p); Num k = s.d.base; for (int i = 0; i < p; i++) { st[i] = k; k += s.vmax[i]; } Verdict v = model(s.raw, st, true, s.after, s.velo0); if (s.gbad) v.no("ghost edge array"); else if (s.gin) v.open = true;
  for (int i = 0; i < p; i++) { if (!s.rc[i] != !s.rc[0]) sim_violation("status-differs", "the check of a distributed graph returned %d on process %d and %d on process 0", s.rc[i], i, s.rc[0]); if (s.rc2[i]) sim_violation("rejected", "the check of a repaired distributed graph fails on process %d (%s)", i, sim_err_last(i)); }
  judge("distributed graph", v, s.ch, s.rc[0], s.arr < A_NB ? aname[s.arr] : "", sim_err_last(0));
}
WORKLOAD(C19, "dist", 2, 1, setup_d, main_d, check_d)
ALSO07("check", 1, setup_d, main_d)
