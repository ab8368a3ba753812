// C06: parallel mapping; the mapping array and the saved file are compared with each other and with the target.
#include "job.h"
namespace {
struct S { CommCfg cc; RG g; Dist d; uint64_t sd; int mode, saver, threads, det, rounds, api; bool ctx, ghosted; Num flags, parts, pwgt; double bal, dens; bool arch; ArchSpec a; std::string str; std::vector<V> part; V glb; std::vector<int> rc; std::string file; std::vector<DPiece> org; };
}
static void setup_map() {
  S *s = newshared<S>(); s->cc = gen_comm(7); GenOpt o; o.maxn = 140; o.zerow = cfg(4) == 3; o.empty = false; o.minn = 1; s->g = gen_graph(o); s->d = gen_dist(s->g.n, s->cc.procs); s->sd = cfg(1 << 16); s->mode = cfg(8); s->saver = cfg(s->cc.procs); s->ctx = coin(); s->threads = 1 + cfg(3); s->det = coin(); s->rounds = 1 + (cfg(5) == 4); s->ghosted = coin(); s->api = cfg(3);
  static const Num ff[] = {0, SCOTCH_STRATQUALITY, SCOTCH_STRATSPEED, SCOTCH_STRATBALANCE, SCOTCH_STRATSAFETY, SCOTCH_STRATSCALABILITY, SCOTCH_STRATBALANCE | SCOTCH_STRATSAFETY}; s->flags = ff[cfg(7)]; static const double bb[] = {0.05, 0.01, 0.2, 0.0, 1.0}; s->bal = bb[cfg(5)]; s->dens = cfg(3) * 0.4; s->pwgt = 1 + cfg(30);
  LR r(177 + cfg(1 << 14)); s->str = st_dmap(r); int m = 1 + r.below(r.chance(1, 4) ? 20 : 7); s->arch = cfg(3) != 0; if (s->arch) { do s->a = gen_arch(r, m); while (s->a.t > 1 && s->a.t != 13 && !r.chance(1, 20)); s->parts = s->a.n; } else { s->parts = m; s->a.t = 0; s->a.n = m; s->a.p = {m}; } if (s->parts == 0 && s->mode != 0) s->mode = 1;
  s->part.resize(s->cc.procs); s->rc.assign(s->cc.procs, 0); if (s->a.t > 1 && s->a.t != 13) s->api = 0; s->org.resize(s->cc.procs); sim_knobs.cores = 1 + cfg(4);
  sim_describe("mode=%d flags=%d parts=%d api=%d bal=%g ctx=%d thr=%d det=%d rounds=%d arch=%s strat=%s", s->mode, s->flags, s->parts, s->api, s->bal, s->ctx, s->threads, s->det, s->rounds, s->a.str().c_str(), s->mode >= 2 ? s->str.c_str() : ""); sim_state(s->mode * 8 + s->flags + s->a.t * 1000);
}
static void rmain(int) {
  S &s = shared<S>(); mpi_begin(); WComm w; w.open(s.cc); if (!w.mine) { w.close(); mpi_end(); return; }
  { DG D; OKCALL(D.make(s.g, s.d, w.rank, w.c, s.sd, false)); if (s.ghosted) OKCALL(SCOTCH_dgraphGhst(&D.g)); uint64_t h0 = D.hash(); s.org[w.rank] = dextract(&D.g); D.ro(); D.edge.wr(); CX cx; SCOTCH_Dgraph bd, *f = &D.g;
    Arch A; OKCALL(A.build(s.a));
    if (s.ctx) { OKCALL(cx.init(s.threads, s.det, 0, 0)); OKCALL(SCOTCH_dgraphInit(&bd, w.c)); OKCALL(SCOTCH_contextBindDgraph(&cx.c, &D.g, &bd)); f = &bd; }
    SCOTCH_Strat st; OKCALL(SCOTCH_stratInit(&st)); if (s.mode == 1) { if (s.parts == 0) OKCALL(SCOTCH_stratDgraphClusterBuild(&st, s.flags, w.size, s.pwgt, s.dens, s.bal)); else OKCALL(SCOTCH_stratDgraphMapBuild(&st, s.flags, w.size, std::max<Num>(1, s.parts), s.bal)); } else if (s.mode >= 2) OKCALL(SCOTCH_stratDgraphMap(&st, s.str.c_str()));
    SN pt((size_t)D.ln);
    for (int k = 0; k < s.rounds; k++) { pt.fill(-9);
      if (s.api == 0) { int r = s.arch ? SCOTCH_dgraphMap(f, &A.a, &st, pt.p) : SCOTCH_dgraphPart(f, s.parts, &st, pt.p); s.rc[w.rank] = r; if (r && (s.a.t <= 1 || s.a.t == 13)) sim_violation("call-failed", "mapping returned %d (%s)", r, sim_err_last(sim_rank())); }
      else { SCOTCH_Dmapping mp; OKCALL(SCOTCH_dgraphMapInit(f, &mp, &A.a, pt.p)); OKCALL(SCOTCH_dgraphMapCompute(f, &mp, &st)); FILE *fp = w.rank == s.saver ? sim_fopen("map", "w") : nullptr; int r = SCOTCH_dgraphMapSave(f, &mp, fp); if (r) sim_violation("call-failed", "SCOTCH_dgraphMapSave returned %d (%s)", r, sim_err_last(sim_rank())); if (fp) { fclose(fp); s.file.assign((const char*)sim_file_data("map"), sim_file_size("map")); }
        if (s.api == 2 && s.parts > 0) { FILE *v = w.rank == s.saver ? sim_fopen("view", "w") : nullptr; OKCALL(SCOTCH_dgraphMapView(f, &mp, v)); if (v) fclose(v); }
        SCOTCH_dgraphMapExit(f, &mp); } }
    s.part[w.rank] = pt.vec(); SCOTCH_stratExit(&st); if (s.ctx) { SCOTCH_dgraphExit(&bd); cx.exit(); } A.exit();
    D.wr(); DPiece p2 = dextract(&D.g); if (D.hash() != h0 || p2.adj != s.org[w.rank].adj) sim_violation("input-changed", "the graph was changed"); D.exit(); }
  w.close(); mpi_end();
}
static void check() {
  S &s = shared<S>(); int n = s.g.n; Num b = s.d.base; V part; for (auto &p : s.part) part.insert(part.end(), p.begin(), p.end()); if ((int)part.size() != n) sim_violation("bad-mapping", "%zu values", part.size());
  for (int q = 1; q < s.cc.procs; q++) if (s.rc[q] != s.rc[0]) sim_violation("status-differs", "mapping returned %d on process 0 and %d on process %d", s.rc[0], s.rc[q], q); if (s.rc[0]) { sim_probe("unsupported-target-reported"); return; }
  std::set<Num> used; for (int v = 0; v < n; v++) { Num p = part[v]; if (s.parts > 0 ? (p < 0 || p >= s.parts) : p < (s.a.t == 14 ? 0 : 1)) sim_violation("bad-mapping", "vertex %d is mapped onto %d, which does not exist (%d parts)", v, p, s.parts); used.insert(p); } if (used.size() > 1) sim_probe("several-parts"); sim_state(used.size());
  if (s.api == 0) return; Num acc = b; for (int q = 0; q < s.cc.procs; q++) { s.glb.push_back(acc); acc += s.org[q].vertlocmax; }
  std::map<long,long> m; const char *p = s.file.c_str(); char *e; long k = strtol(p, &e, 10); if (e == p || k != n) sim_violation("bad-file", "the file says %ld vertices instead of %d", k, n); p = e;
  for (int i = 0; i < n; i++) { long a = strtol(p, &e, 10); if (e == p) sim_violation("bad-file", "the file ends after %d lines", i); p = e; long c = strtol(p, &e, 10); if (e == p) sim_violation("bad-file", "incomplete line %d", i); p = e; if (!m.insert({a, c}).second) sim_violation("bad-file", "vertex %ld appears twice in the file", a); } while (*p == '\n' || *p == ' ' || *p == '\t') p++; if (*p) sim_violation("bad-file", "data after the end");
  for (int v = 0; v < n; v++) { int q = s.d.owner(v); long l = s.g.lb ? s.g.vlbl[v] : s.glb[q] + v - s.d.start[q]; auto it = m.find(l); if (it == m.end()) sim_violation("bad-file", "vertex %ld is not in the file", l); if (it->second != part[v]) sim_violation("views-differ", "vertex %ld is mapped onto %d in the array and onto %ld in the file", l, part[v], it->second); } sim_probe("file-compared");
}
WORKLOAD(C06, "map", 1, 1, setup_map, rmain, check)
ALSO07("map", 2, setup_map, rmain)
