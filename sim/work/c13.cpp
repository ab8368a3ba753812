// C13: save, load back, compare; and every failing write is reported.
#include "io.h"
namespace { struct S { IoSpec io; bool fault; long at; int trans, closeerr, bm; bool again; }; }
static void setup_io() {
  S *s = newshared<S>(); s->fault = cfg(3) == 2; s->at = cfg(1 << 24); s->trans = cfg(3) == 2; s->closeerr = cfg(6) == 5; s->again = cfg(4) == 3; static const int bm[] = {0, 0, -1, 16, 512}; sim_io.bufmode = bm[cfg(5)]; sim_io.rdchunk = cfg(3) == 2 ? 1 + cfg(40) : 0; sim_io.wrchunk = cfg(3) == 2 ? 1 + cfg(40) : 0; s->io = gen_io(cfg(O_NB), 60); sim_describe("fault=%d at=%ld trans=%d close=%d", s->fault, s->at, s->trans, s->closeerr);
}
static void check_file(S &s, IoLive &L, const char *a, const char *b) { FILE *f = sim_fopen(a, "r"), *f2 = two_files(s.io.kind) ? sim_fopen(b, "r") : nullptr; if (L.load(f, f2, true)) sim_violation("not-loadable", "a saved %s file cannot be loaded: %s", oname[s.io.kind], sim_err_last(sim_rank())); fclose(f); if (f2) fclose(f2); }
static void rmain(int) {
  S &s = shared<S>(); IoLive L; L.open(s.io); uint64_t h0 = L.C.hash() + L.M.hash(); bool two = two_files(s.io.kind);
  FILE *f = sim_fopen("a", "w"), *f2 = two ? sim_fopen("b", "w") : nullptr; int rc = L.save(f, f2); if (rc) sim_violation("call-failed", "saving a %s to a healthy stream fails: %s", oname[s.io.kind], sim_err_last(sim_rank())); if (fclose(f) || (f2 && fclose(f2))) sim_violation("harness", "fclose failed"); std::string da = slurp_file("a"), db = two ? slurp_file("b") : ""; L.orig = &da; check_file(s, L, "a", "b"); sim_probe("round-trips");
  if (s.again) { f = sim_fopen("c", "w"); f2 = two ? sim_fopen("d", "w") : nullptr; OKCALL(L.save(f, f2)); fclose(f); if (f2) fclose(f2); if (slurp_file("c") != da || (two && slurp_file("d") != db)) sim_violation("not-same", "saving the same object again gives another file"); }
  if (s.fault && da.size() + db.size() > 0) { long at = s.at % (long)std::max(da.size(), db.size()); sim_io_rearm(); sim_io.wrerr_at = at; sim_io.wrerrno = (s.at >> 20) & 1 ? 28 : 5; sim_io.wrtransient = s.trans; sim_io.closeerr = s.closeerr; f = sim_fopen("e", "w"); f2 = two ? sim_fopen("g", "w") : nullptr; int w0 = sim_write_faults(); rc = L.save(f, f2); int w1 = sim_write_faults(); int c1 = fclose(f), c2 = f2 ? fclose(f2) : 0; sim_io.wrerr_at = -1; sim_io.closeerr = 0;
    if (w1 > w0) { sim_probe("write-errors-met"); if (rc == 0) sim_violation("silent-write-error", "saving a %s returned success although a write failed at byte %ld", oname[s.io.kind], at); }
    if (rc == 0 && c1 == 0 && c2 == 0 && (slurp_file("e") != da || (two && slurp_file("g") != db))) sim_violation("silent-write-error", "save and close of a %s returned success but the file is incomplete", oname[s.io.kind]);
    if (rc != 0 && w1 == w0) sim_violation("call-failed", "saving a %s fails although no write failed: %s", oname[s.io.kind], sim_err_last(sim_rank())); 
    f = sim_fopen("e", "w"); f2 = two ? sim_fopen("g", "w") : nullptr; OKCALL(L.save(f, f2)); fclose(f); if (f2) fclose(f2); if (slurp_file("e") != da) sim_violation("not-same", "saving again after a failed save gives another file"); }
  if (L.C.hash() + L.M.hash() != h0) sim_violation("input-changed", "saving or loading changed the saved object"); L.close();
}
WORKLOAD(C13, "files", 4, 1, setup_io, rmain, nullptr)
// Distributed objects: each kind of file, written by one process (or by all, for graphs) while the stream of one process fails.
#include "strat.h"
namespace { enum { D_GRAPH, D_ORD, D_ORDMAP, D_ORDTREE, D_ORDBLK, D_MAP, D_NB }; struct DS { CommCfg cc; RG g; Dist d; uint64_t sd; int kind, saver, trans, closeerr; long at; Num parts; bool arch; ArchSpec a; std::string str; std::vector<int> rc1, rc2, rc3, met, cl; std::vector<std::string> f1, f2, f3; }; static const char *dname[] = {"distributed graph", "distributed ordering", "block mapping of a distributed ordering", "tree of a distributed ordering", "block form of a distributed ordering", "distributed mapping"}; }
static void setup_dsave() {
  DS *s = newshared<DS>(); s->cc = gen_comm(6); GenOpt o; o.maxn = 80; o.empty = false; o.minn = 1; o.zerow = false; s->g = gen_graph(o); s->d = gen_dist(s->g.n, s->cc.procs); s->sd = cfg(1 << 16); s->kind = cfg(D_NB); if (s->kind != D_GRAPH && s->kind != D_MAP) s->d.gaps = false; s->saver = cfg(s->cc.procs); s->at = cfg(1 << 24); s->trans = cfg(3) == 2; s->closeerr = cfg(6) == 5; static const int bm[] = {0, 0, -1, 16, 512}; sim_io.bufmode = bm[cfg(5)]; sim_io.wrchunk = cfg(3) == 2 ? 1 + cfg(40) : 0; LR r(5 + cfg(1 << 12)); s->parts = 1 + r.below(6); s->str = st_dord(r);
  int p = s->cc.procs; s->rc1.assign(p, 0); s->rc2 = s->rc3 = s->met = s->cl = s->rc1; s->f1.resize(p); s->f2.resize(p); s->f3.resize(p); sim_describe("%s saver=%d at=%ld trans=%d close=%d buf=%d strat=%s", dname[s->kind], s->saver, s->at, s->trans, s->closeerr, sim_io.bufmode, s->str.c_str()); sim_state(s->kind * 16 + p); 
}
static std::string lines(const std::string &t, bool sorted) { if (!sorted) return t; std::vector<std::string> v; size_t i = 0; while (i < t.size()) { size_t j = t.find('\n', i); if (j == std::string::npos) j = t.size(); v.push_back(t.substr(i, j - i)); i = j + 1; } std::sort(v.begin(), v.end()); std::string o; for (auto &x : v) o += x + "\n"; return o; }
static void rmain_dsave(int) {
  DS &s = shared<DS>(); mpi_begin(); WComm w; w.open(s.cc); if (!w.mine) { w.close(); mpi_end(); return; } bool sv = w.rank == s.saver, wr = sv || s.kind == D_GRAPH; std::string nm = "f" + std::to_string(w.rank);
  { DG D; OKCALL(D.make(s.g, s.d, w.rank, w.c, s.sd, false)); uint64_t h0 = D.hash(); SCOTCH_Dordering od; SCOTCH_Dmapping mp; SCOTCH_Strat st; SCOTCH_Arch ar; SN pt((size_t)D.ln); OKCALL(SCOTCH_stratInit(&st));
    bool ord = s.kind == D_ORD || s.kind == D_ORDMAP || s.kind == D_ORDTREE || s.kind == D_ORDBLK; if (ord) { OKCALL(SCOTCH_stratDgraphOrder(&st, s.str.c_str())); OKCALL(SCOTCH_dgraphOrderInit(&D.g, &od)); OKCALL(SCOTCH_dgraphOrderCompute(&D.g, &od, &st)); }
    if (s.kind == D_MAP) { OKCALL(SCOTCH_archInit(&ar)); OKCALL(SCOTCH_archCmplt(&ar, s.parts)); OKCALL(SCOTCH_dgraphMapInit(&D.g, &mp, &ar, pt.p)); OKCALL(SCOTCH_dgraphMapCompute(&D.g, &mp, &st)); }
    auto save = [&](FILE *f) { switch (s.kind) { case D_GRAPH: return SCOTCH_dgraphSave(&D.g, f); case D_ORD: return SCOTCH_dgraphOrderSave(&D.g, &od, f); case D_ORDMAP: return SCOTCH_dgraphOrderSaveMap(&D.g, &od, f); case D_ORDTREE: return SCOTCH_dgraphOrderSaveTree(&D.g, &od, f); case D_ORDBLK: return SCOTCH_dgraphOrderSaveBlock(&D.g, &od, f); default: return SCOTCH_dgraphMapSave(&D.g, &mp, f); } };
    auto go = [&](int &rc, std::string &out, int *met, int *cl) { FILE *f = wr ? sim_fopen(nm.c_str(), "w") : nullptr; int w0 = sim_write_faults(); rc = save(f); if (met) *met = sim_write_faults() - w0; int c = f ? fclose(f) : 0; if (cl) *cl = c; if (wr) out = slurp_file(nm.c_str()); };
    MPI_Barrier(w.c); sim_noinject(1); go(s.rc1[w.rank], s.f1[w.rank], nullptr, nullptr); MPI_Barrier(w.c); if (sv) { long z = (long)s.f1[w.rank].size(); sim_io_rearm(); sim_io.wrerr_at = z ? s.at % z : 0; sim_io.wrerrno = (s.at >> 20) & 1 ? 28 : 5; sim_io.wrtransient = s.trans; sim_io.closeerr = s.closeerr; sim_noinject(0); } go(s.rc2[w.rank], s.f2[w.rank], &s.met[w.rank], &s.cl[w.rank]); MPI_Barrier(w.c); if (sv) { sim_io.wrerr_at = -1; sim_io.closeerr = 0; sim_noinject(1); } go(s.rc3[w.rank], s.f3[w.rank], nullptr, nullptr); sim_noinject(0);
    if (ord) SCOTCH_dgraphOrderExit(&D.g, &od); if (s.kind == D_MAP) { SCOTCH_dgraphMapExit(&D.g, &mp); SCOTCH_archExit(&ar); } SCOTCH_stratExit(&st); if (D.hash() != h0) sim_violation("input-changed", "saving changed the arrays of the graph"); D.exit(); }
  w.close(); mpi_end();
}
static void check_dsave() {
  DS &s = shared<DS>(); bool so = s.kind == D_MAP; const char *n = dname[s.kind]; int q = s.saver;
  for (int p = 0; p < s.cc.procs; p++) { if (s.rc1[p] || s.rc3[p]) sim_violation("call-failed", "saving a %s to a healthy stream returned %d and %d on process %d (%s)", n, s.rc1[p], s.rc3[p], p, sim_err_last(p)); if (lines(s.f1[p], so) != lines(s.f3[p], so)) sim_violation("not-same", "saving a %s again after a failed save gives another file on process %d", n, p); if (p != q && s.rc2[p] == 0 && s.rc2[q] == 0 && lines(s.f2[p], so) != lines(s.f1[p], so)) sim_violation("silent-write-error", "saving a %s: file of process %d is incomplete", n, p); }
  if (s.met[q] > 0) { sim_probe("dist-write-errors-met"); if (s.rc2[q] == 0) sim_violation("silent-write-error", "saving a %s returned success although a write failed", n); } else if (s.rc2[q]) sim_violation("call-failed", "saving a %s fails although no write failed: %s", n, sim_err_last(q));
  if (s.rc2[q] == 0 && s.cl[q] == 0 && lines(s.f2[q], so) != lines(s.f1[q], so)) sim_violation("silent-write-error", "save and close of a %s returned success but the file is incomplete", n);
}
WORKLOAD(C13, "dsave", 2, 1, setup_dsave, rmain_dsave, check_dsave)
