// C02: halo exchange.
#include "w.h"
namespace {
struct Ex { int type, async, other; bool again; uint64_t sd; };
struct S { CommCfg cc; RG g, g2; Dist d, d2; uint64_t sd; bool ghost, thr; std::vector<Ex> ex; int pre, make; };
const int NT = 11; const int TSZ[] = {4, 1, 4, 8, 12, 2, 24, 1, 16, 12, 264};   // extents
bool sig(int t, int k) { return t == 8 ? k < 4 || k >= 8 : t == 9 ? k < 4 : true; }   // bytes that belong to the datatype
}
static void setup() {
  S *s = newshared<S>(); s->cc = gen_comm(7); GenOpt o; o.maxn = 150; s->g = gen_graph(o); s->d = gen_dist(s->g.n, s->cc.procs); s->sd = cfg(1 << 16); s->ghost = coin(); s->pre = cfg(3); s->make = cfg(4); int k = 1 + cfg(4);
  bool two = cfg(3) == 2; s->thr = two && coin(); if (two) { s->g2 = gen_graph(o); s->d2 = gen_dist(s->g2.n, s->cc.procs); }
  for (int i = 0; i < k; i++) { Ex e; e.type = cfg(NT); e.again = cfg(3) == 2; e.async = coin(); e.other = two ? cfg(3) : 0; e.sd = cfg(1 << 16); s->ex.push_back(e); }
}
static MPI_Datatype mktype(int t, bool &own) { own = false; MPI_Datatype d; switch (t) { case 0: return SCOTCH_NUM_MPI; case 1: return MPI_BYTE; case 2: return MPI_FLOAT; case 3: return MPI_DOUBLE; case 4: MPI_Type_contiguous(3, MPI_INT, &d); break; case 5: MPI_Type_contiguous(2, MPI_BYTE, &d); break; case 6: MPI_Type_contiguous(3, MPI_DOUBLE, &d); break; case 8: { int bl[2] = {1, 1}; MPI_Aint di[2] = {0, 8}; MPI_Datatype ty[2] = {MPI_INT, MPI_DOUBLE}; MPI_Type_create_struct(2, bl, di, ty, &d); break; } case 9: MPI_Type_create_resized(MPI_INT, 0, 12, &d); break; case 10: MPI_Type_contiguous(33, MPI_DOUBLE, &d); break; default: return MPI_CHAR; } MPI_Type_commit(&d); own = true; return d; }
static uint8_t val(uint64_t sd, int v, int byte) { return (uint8_t)sim_hash64(sd * 7919 + v, byte); }
struct Side { const RG *g; const Dist *d; DG D; SCOTCH_Dgraph *h; std::vector<int> gst; Num nl, ng; int rank; };   // gst: reference vertex behind each ghost slot
static void learn(Side &x) {   // ghost numbering must be consistent with the edge array
  OKCALL(SCOTCH_dgraphGhst(x.h)); Num b, gn, ln, lx, gs, eg, el, es, *vt, *nt, *ve, *vl, *et, *gt, *ed; MPI_Comm c; SCOTCH_dgraphData(x.h, &b, &gn, &ln, &lx, &gs, &vt, &nt, &ve, &vl, &eg, &el, &es, &et, &gt, &ed, &c);
  if (!gt) sim_violation("bad-ghost", "no ghost edge array"); x.nl = ln; x.ng = gs; x.gst.assign(gs, -1); int lo = x.d->start[x.rank]; std::set<int> remote;
  for (Num i = 0; i < ln; i++) { if (nt[i] - vt[i] != (Num)x.g->adj[lo + i].size()) sim_violation("bad-ghost", "degree of vertex %d changed", i); for (Num e = vt[i]; e < nt[i]; e++) { int nb = x.g->adj[lo + i][e - vt[i]].first; Num k = gt[e - b] - b; if (k < 0 || k >= gs) sim_violation("bad-ghost", "ghost index %d outside of the range of %d", k, gs);
    if (nb >= lo && nb < lo + ln) { if (k != nb - lo) sim_violation("bad-ghost", "local neighbour %d of vertex %d has ghost index %d", nb - lo, i, k); } else { if (k < ln) sim_violation("bad-ghost", "remote neighbour has local index %d", k); if (x.gst[k] >= 0 && x.gst[k] != nb) sim_violation("bad-ghost", "ghost slot %d stands for two vertices", k); x.gst[k] = nb; remote.insert(nb); } } }
  if ((Num)remote.size() != gs - ln) sim_violation("bad-ghost", "%d ghost slots for %zu remote neighbours", gs - ln, remote.size());
}
struct Buf { SA<uint8_t> a; int type, sz; uint64_t sd; bool own; MPI_Datatype t; };
static void fill(Side &x, Buf &b, int type, uint64_t sd) { b.type = type; b.sz = TSZ[type]; b.sd = sd; b.t = mktype(type, b.own); b.a.alloc((size_t)x.ng * b.sz); b.a.fill(0xEE); int lo = x.d->start[x.rank]; for (Num i = 0; i < x.nl; i++) for (int k = 0; k < b.sz; k++) b.a[i * b.sz + k] = val(sd, lo + i, k); }
static void verify(Side &x, Buf &b, const char *what, bool last = true) { int lo = x.d->start[x.rank]; for (Num i = 0; i < x.ng; i++) { int v = i < x.nl ? lo + i : x.gst[i]; if (v < 0) continue; for (int k = 0; k < b.sz; k++) if ((i < x.nl || sig(b.type, k)) && b.a[(size_t)i * b.sz + k] != val(b.sd, v, k)) sim_violation("bad-halo", "%s: %s slot %d (vertex %d) does not hold its owner's value (datatype %d)", what, i < x.nl ? "local" : "ghost", i, v, b.type); } if (b.own && last) MPI_Type_free(&b.t); sim_probe(b.type < 4 ? "basic-type" : "derived-type"); if (x.ng > x.nl) sim_probe("ghosts-filled"); }
static void refill(Side &x, Buf &b, uint64_t sd) { b.sd = sd; int lo = x.d->start[x.rank]; for (Num i = 0; i < x.nl; i++) for (int k = 0; k < b.sz; k++) b.a[(size_t)i * b.sz + k] = val(sd, lo + i, k); }
static void sync(Side &x, int type, uint64_t sd, const char *what) { Buf b; fill(x, b, type, sd); OKCALL(SCOTCH_dgraphHalo(x.h, b.a.p, b.t)); verify(x, b, what); }
struct TA { Side *x; int type; uint64_t sd; };
static void thr(void *p) { TA *t = (TA*)p; sync(*t->x, t->type, t->sd, "exchange in another thread"); sync(*t->x, (t->type + 3) % NT, t->sd + 1, "exchange in another thread"); }
// Exchange on a graph made by the library: the attribute is the global number of each vertex, which the edge array knows
static void self(SCOTCH_Dgraph *g, int type, const char *what) {
  OKCALL(SCOTCH_dgraphGhst(g)); Num b, gn, ln, lx, gs, eg, el, es, *vt, *nt, *ve, *vl, *et, *gt, *ed; MPI_Comm c; SCOTCH_dgraphData(g, &b, &gn, &ln, &lx, &gs, &vt, &nt, &ve, &vl, &eg, &el, &es, &et, &gt, &ed, &c); if (!et || !gt) return;
  int r, z; MPI_Comm_rank(c, &r); MPI_Comm_size(c, &z); V mx(z); MPI_Allgather(&lx, 1, SCOTCH_NUM_MPI, mx.data(), 1, SCOTCH_NUM_MPI, c); Num first = b; for (int i = 0; i < r; i++) first += mx[i];
  int sz = TSZ[type]; bool own; MPI_Datatype t = mktype(type, own); SA<uint8_t> a; a.alloc((size_t)gs * sz); a.fill(0xEE); for (Num i = 0; i < ln; i++) for (int k = 0; k < sz; k++) a[(size_t)i * sz + k] = val(77, first + i, k);
  OKCALL(SCOTCH_dgraphHalo(g, a.p, t)); if (own) MPI_Type_free(&t);
  for (Num i = 0; i < ln; i++) for (Num e = vt[i]; e < nt[i]; e++) { Num k = gt[e - b] - b; if (k < 0 || k >= gs) sim_violation("bad-ghost", "%s: ghost index %d outside of the range of %d", what, k, gs); for (int j = 0; j < sz; j++) if (sig(type, j) && a[(size_t)k * sz + j] != val(77, et[e - b], j)) sim_violation("bad-halo", "%s: slot %d does not hold the value of global vertex %d", what, k, et[e - b]); }
  sim_probe("halo-on-made-graph");
}
static void rmain(int) {
  S &s = shared<S>(); mpi_begin(); WComm w; w.open(s.cc); if (!w.mine) { w.close(); mpi_end(); return; } MPI_Comm c2; MPI_Comm_dup(w.c, &c2);
  { Side a, b; bool two = !s.d2.start.empty(); a.g = &s.g; a.d = &s.d; a.rank = b.rank = w.rank; OKCALL(a.D.make(s.g, s.d, w.rank, w.c, s.sd, s.ghost)); a.h = &a.D.g; if (two) { b.g = &s.g2; b.d = &s.d2; OKCALL(b.D.make(s.g2, s.d2, w.rank, c2, s.sd + 1, false)); b.h = &b.D.g; learn(b); }
    if (s.pre == 2) { /* first exchange computes the ghosts itself */ Num gs = 0; OKCALL(SCOTCH_dgraphGhst(a.h)); (void)gs; } learn(a); uint64_t h0 = a.D.hash();
    for (auto &e : s.ex) { SimThread *t = nullptr; TA ta{&b, e.type, e.sd + 5}; if (e.other && s.thr) t = sim_spawn(thr, &ta);
      if (e.async) { Buf f; fill(a, f, e.type, e.sd); SCOTCH_DgraphHaloReq q; OKCALL(SCOTCH_dgraphHaloAsync(a.h, f.a.p, f.t, &q)); if (e.other && !s.thr) sync(b, (e.type + e.other) % NT, e.sd + 9, "exchange on another graph"); if (e.other == 2) MPI_Barrier(w.c); OKCALL(SCOTCH_dgraphHaloWait(&q)); verify(a, f, "asynchronous exchange"); }
      else { if (e.again) { Buf f; fill(a, f, e.type, e.sd); OKCALL(SCOTCH_dgraphHalo(a.h, f.a.p, f.t)); verify(a, f, "exchange", false); refill(a, f, e.sd + 3); OKCALL(SCOTCH_dgraphHalo(a.h, f.a.p, f.t)); verify(a, f, "second exchange of the same array"); } else sync(a, e.type, e.sd, "exchange"); if (e.other && !s.thr) sync(b, e.type, e.sd + 7, "exchange on another graph"); }
      if (t) sim_join(t); }
    if (s.make == 1) { V own(a.nl); for (Num i = 0; i < a.nl; i++) own[i] = (Num)(sim_hash64(s.sd, s.d.start[w.rank] + i) % w.size); SN o(own); SCOTCH_Dgraph r; OKCALL(SCOTCH_dgraphInit(&r, w.c)); OKCALL(SCOTCH_dgraphRedist(a.h, o.p, nullptr, -1, -1, &r)); self(&r, s.ex[0].type, "redistributed graph"); SCOTCH_dgraphExit(&r); }
    if (s.make == 2 && s.g.n > 0) { V pt(a.nl); for (Num i = 0; i < a.nl; i++) pt[i] = (Num)(sim_hash64(s.sd + 1, s.d.start[w.rank] + i) % 3 != 0); SN o(pt); SCOTCH_Dgraph r; OKCALL(SCOTCH_dgraphInit(&r, w.c)); OKCALL(SCOTCH_dgraphInducePart(a.h, o.p, 1, std::count(pt.begin(), pt.end(), 1), &r)); self(&r, s.ex[0].type, "induced graph"); SCOTCH_dgraphExit(&r); }
    if (s.make == 3) { SCOTCH_Dgraph r; OKCALL(SCOTCH_dgraphInit(&r, w.c)); int o = SCOTCH_dgraphCoarsen(a.h, 1, 0.9, SCOTCH_COARSENNONE, &r, nullptr); if (o == 0) self(&r, s.ex[0].type, "coarse graph"); SCOTCH_dgraphExit(&r); self(a.h, s.ex[0].type, "coarsened graph"); }
    if (a.D.hash() != h0) sim_violation("input-changed", "graph arrays were changed by an exchange");
    a.D.exit(); if (two) b.D.exit(); }
  MPI_Comm_free(&c2); w.close(); mpi_end();
}
WORKLOAD(C02, "halo", 1, 1, setup, rmain, nullptr)
ALSO07("halo", 1, setup, rmain)
