// C14: loading from streams that are cut, fail, stutter or hold damaged data.
#include "io.h"
namespace { enum { M_SHORT, M_CUT, M_ERR, M_FLIP, M_TOKEN, M_CHAR, M_NB }; static const char *mname[] = {"short reads", "cut", "read error", "flipped bytes", "changed numbers", "inserted or deleted characters"};
struct S { int kind, mode, nmut; long at; uint64_t sd; bool second; IoSpec io; std::string hb; RG hg; const char *tag; }; }
static const Num odd[] = {0, -1, 1, 2, -2, 3, 2147483647, -2147483647 - 1, 1000000, 100000000, 30, 4, 7};
// Damages a text; what is done depends on the mode and the seed only.
std::string damage_text(const std::string &t, int mode, uint64_t sd, int n) {
  std::string s = t; LR r(sd); if (s.empty()) return s;
  for (int k = 0; k < n && !s.empty(); k++) switch (mode) {
    case M_FLIP: { size_t p = r.next() % s.size(); s[p] = r.chance(1, 3) ? (char)(s[p] ^ (1 << r.below(8))) : r.chance(1, 2) ? "0123456789 \n-"[r.below(13)] : (char)r.below(256); break; }
    case M_TOKEN: { std::vector<std::pair<size_t,size_t>> tk; for (size_t i = 0; i < s.size(); ) { while (i < s.size() && isspace((unsigned char)s[i])) i++; size_t j = i; while (j < s.size() && !isspace((unsigned char)s[j])) j++; if (j > i) tk.push_back({i, j - i}); i = j; } if (tk.empty()) break; size_t q = r.chance(1, 2) ? r.below(std::min<int>(12, (int)tk.size())) : r.next() % tk.size(); auto x = tk[q]; std::string nw; if (r.chance(1, 3)) { auto y = tk[r.next() % tk.size()]; nw = s.substr(y.first, y.second); } else if (r.chance(1, 2)) nw = std::to_string(atol(s.substr(x.first, x.second).c_str()) + (r.chance(1, 2) ? 1 : -1)); else nw = std::to_string(odd[r.below(13)]); s = s.substr(0, x.first) + nw + s.substr(x.first + x.second); break; }
    case M_CHAR: { size_t p = r.next() % s.size(); if (r.chance(1, 2)) s.erase(p, 1); else s.insert(p, 1, "0123456789 \n-%("[r.below(15)]); break; } }
  return s;
}
static void setup_load() {
  S *s = newshared<S>(); s->kind = cfg(O_LOADABLE + 2); s->mode = cfg(M_NB); s->nmut = 1 + cfg(3); s->at = cfg(1 << 24); s->sd = cfg(1 << 24); s->second = coin(); static const char *tg[] = {nullptr, "", "0"}; s->tag = tg[cfg(3)]; static const int bm[] = {0, 0, -1, 16, 512}; sim_io.bufmode = bm[cfg(5)]; sim_knobs.maxalloc = 8L << 20;
  if (s->kind < O_LOADABLE) s->io = gen_io(s->kind, 40); else { LR r(s->sd); s->hb = s->kind == O_LOADABLE ? habo_graph(r, s->hg) : habo_mesh(r); }
  sim_describe("%s mode=%s mutations=%d seed=%llu at=%ld second=%d buf=%d", s->kind < O_LOADABLE ? oname[s->kind] : s->kind == O_LOADABLE ? "habo-graph" : "habo-mesh", mname[s->mode], s->nmut, (unsigned long long)s->sd, s->at, s->second, sim_io.bufmode); sim_state(s->kind * 8 + s->mode);
}
static void put(const char *n, const std::string &t) { sim_file_put(n, t.data(), t.size()); }
static void rmain(int) {
  S &s = shared<S>(); bool hb = s.kind >= O_LOADABLE, two = !hb && two_files(s.kind); IoLive L; std::string da, db; sim_noinject(1);
  if (hb) da = s.hb; else { L.open(s.io); FILE *f = sim_fopen("a", "w"), *f2 = two ? sim_fopen("b", "w") : nullptr; OKCALL(L.save(f, f2)); fclose(f); if (f2) fclose(f2); da = slurp_file("a"); db = two ? slurp_file("b") : ""; if (s.kind == O_MMKT && s.sd % 3 == 0) { L.mm0 = true; std::string o; size_t i = 0; int ln = 0; while (i < da.size()) { size_t j = da.find('\n', i); if (j == std::string::npos) j = da.size(); std::string l = da.substr(i, j - i); if (!l.empty() && l[0] != '%' && ln++ > 0) { int x = 0, y = 0; sscanf(l.c_str(), "%d %d", &x, &y); l = std::to_string(x - 1) + " " + std::to_string(y - 1); } o += l + "\n"; i = j + 1; } da = o; } }
  sim_noinject(0); bool sec = two && s.second; std::string &v = sec ? db : da, good = v;
  auto load = [&](bool cmp) { FILE *f = sim_fopen("a", "r"), *f2 = two ? sim_fopen("b", "r") : nullptr; int rc = hb ? habo_load(s.kind > O_LOADABLE, f, s.tag, cmp && s.kind == O_LOADABLE ? &s.hg : nullptr) : L.load(f, f2, cmp); fclose(f); if (f2) fclose(f2); return rc; };
  put("a", da); if (two) put("b", db); uint64_t h0 = L.C.hash() + L.M.hash(); int rc = 0;
  if (s.mode == M_SHORT) { sim_io.rdchunk = 1 + (int)(s.sd % 30); rc = load(true); if (rc) sim_violation("not-loadable", "a file that is delivered in small pieces cannot be loaded: %s", sim_err_last(sim_rank())); sim_probe("short-reads-equal"); }
  else if (s.mode == M_CUT && v.size()) { long at = s.at % (long)v.size(); if (s.sd & 1) { v = v.substr(0, at); put(sec ? "b" : "a", v); rc = load(false); } else { sim_io.rdeof_at = at; rc = load(false); sim_io.rdeof_at = -1; } sim_probe(rc ? "cut-refused" : "cut-accepted"); }
  else if (s.mode == M_ERR && v.size()) { sim_io.rderr_at = s.at % (long)v.size(); int f0 = sim_read_faults(); rc = load(false); sim_io.rderr_at = -1; if (sim_read_faults() > f0) sim_probe(rc ? "read-error-refused" : "read-error-accepted"); }
  else if (s.mode >= M_FLIP) { v = damage_text(v, s.mode, s.sd * 31 + 7, s.nmut); put(sec ? "b" : "a", v); rc = load(false); sim_probe(rc ? "damage-refused" : "damage-accepted"); }
  if (!hb && L.C.hash() + L.M.hash() != h0) sim_violation("input-changed", "loading changed another object");
  v = good; put("a", da); if (two) put("b", db); sim_io.rdchunk = 0; if (load(true)) sim_violation("not-loadable", "after a failed load an intact file cannot be loaded: %s", sim_err_last(sim_rank())); if (!hb) L.close();
}
WORKLOAD(C14, "load", 3, 1, setup_load, rmain, nullptr)
// Distributed graphs: the stream of one process is damaged; all of them must agree on what happened.
namespace { struct DL { CommCfg cc; RG g; Dist d; bool cent; int mode, nmut, victim, root; long at; uint64_t sd; Num lbase, flag; std::vector<int> rc, ck, rc2, flt; std::vector<DPiece> pc, pc2; }; }
static void setup_dload() {
  DL *s = newshared<DL>(); s->cc = gen_comm(6); GenOpt o; o.maxn = 60; o.minn = 0; s->g = gen_graph(o); s->d = gen_dist(s->g.n, s->cc.procs); s->cent = coin(); s->mode = cfg(M_NB); s->nmut = 1 + cfg(3); s->victim = s->root = cfg(s->cc.procs); s->at = cfg(1 << 24); s->sd = cfg(1 << 24); s->lbase = cfg(3) - 1; s->flag = cfg(4) == 3 ? cfg(4) : 0; static const int bm[] = {0, 0, -1, 16, 512}; sim_io.bufmode = bm[cfg(5)]; sim_knobs.maxalloc = 8L << 20;
  int p = s->cc.procs; s->rc.assign(p, 0); s->ck = s->rc2 = s->flt = s->rc; s->pc.resize(p); s->pc2.resize(p); sim_describe("%s mode=%s mutations=%d seed=%llu at=%ld process=%d base=%d flag=%d buf=%d", s->cent ? "one stream" : "one stream per process", mname[s->mode], s->nmut, (unsigned long long)s->sd, s->at, s->victim, s->lbase, s->flag, sim_io.bufmode); sim_state(s->cent * 64 + s->mode * 8 + p);
}
static void rmain_dload(int) {
  DL &s = shared<DL>(); mpi_begin(); WComm w; w.open(s.cc); if (!w.mine) { w.close(); mpi_end(); return; } int r = w.rank; bool vic = r == s.victim; std::string nm = "d" + std::to_string(r), good; bool has = !s.cent || r == s.root;
  sim_noinject(1);
  if (s.cent) { if (has) { CG G; G.make(s.g, s.d.base, s.d.gaps, s.sd); OKCALL(G.build()); FILE *f = sim_fopen(nm.c_str(), "w"); OKCALL(SCOTCH_graphSave(&G.g, f)); fclose(f); G.exit(); } }
  else { DG D; OKCALL(D.make(s.g, s.d, r, w.c, s.sd)); FILE *f = sim_fopen(nm.c_str(), "w"); OKCALL(SCOTCH_dgraphSave(&D.g, f)); fclose(f); D.exit(); }
  if (has) good = slurp_file(nm.c_str()); MPI_Barrier(w.c);
  SCOTCH_Dgraph g; auto load = [&]() { FILE *f = has ? sim_fopen(nm.c_str(), "r") : nullptr; OKCALL(SCOTCH_dgraphInit(&g, w.c)); int rc = SCOTCH_dgraphLoad(&g, f, s.lbase, s.flag); if (f) fclose(f); return rc; };
  if (vic && good.size()) { if (s.mode == M_SHORT) sim_io.rdchunk = 1 + (int)(s.sd % 30); else if (s.mode == M_CUT) { long at = s.at % (long)good.size(); if (s.sd & 1) sim_file_put(nm.c_str(), good.data(), at); else sim_io.rdeof_at = at; } else if (s.mode == M_ERR) sim_io.rderr_at = s.at % (long)good.size(); else { std::string v = damage_text(good, s.mode, s.sd * 31 + 7, s.nmut); sim_file_put(nm.c_str(), v.data(), v.size()); } }
  MPI_Barrier(w.c); if (vic) sim_noinject(0); int f0 = sim_read_faults(); int rc = s.rc[r] = load(); if (vic) { sim_noinject(1); s.flt[r] = sim_read_faults() - f0; } s.ck[r] = -1;
  if (rc == 0) { int ck = s.ck[r] = SCOTCH_dgraphCheck(&g); s.pc[r] = DPiece(); if (ck == 0) { if (s.mode == M_SHORT) s.pc[r] = dextract(&g); OKCALL(SCOTCH_dgraphGhst(&g)); Num gst; SCOTCH_dgraphData(&g, nullptr, nullptr, nullptr, nullptr, &gst, nullptr, nullptr, nullptr, nullptr, nullptr, nullptr, nullptr, nullptr, nullptr, nullptr, nullptr); SN h((size_t)gst); h.fill(r); OKCALL(SCOTCH_dgraphHalo(&g, h, SCOTCH_NUM_MPI)); SCOTCH_Graph c; SCOTCH_graphInit(&c); if (SCOTCH_dgraphGather(&g, &c)) sim_probe("gather-refused"); SCOTCH_graphExit(&c); } }
  SCOTCH_dgraphExit(&g); MPI_Barrier(w.c); if (vic) { sim_io.rdeof_at = sim_io.rderr_at = -1; sim_io.rdchunk = 0; sim_file_put(nm.c_str(), good.data(), good.size()); } MPI_Barrier(w.c);
  s.rc2[r] = load(); if (s.rc2[r] == 0) s.pc2[r] = dextract(&g); SCOTCH_dgraphExit(&g); sim_noinject(0); w.close(); mpi_end();
}
static void check_dload() {
  DL &s = shared<DL>(); int v = s.victim; RG ref = s.g; if (s.flag & 1) ref.vw = false; if (s.flag & 2) { ref.ew = false; for (auto &a : ref.adj) for (auto &e : a) e.second = 1; }
  auto cmp = [&](std::vector<DPiece> &pc, const char *what) { DWhole W; std::string why; if (!assemble(pc, W, why)) sim_violation("not-same", "%s: %s", what, why.c_str()); RG a = W.g, b = ref; a.lb = b.lb = false; if (a.ew != b.ew || a.vw != b.vw) { auto one = [](RG &x) { if (!x.vw) { x.velo.assign(x.n, 1); x.vw = true; } x.ew = true; }; one(a); one(b); } std::string wy; if (!same_graph(a, b, wy)) viol_graph("not-same", what, a, b); };
  for (size_t p = 0; p < s.rc.size(); p++) { if (!s.rc[p] != !s.rc[0]) sim_violation("status-differs", "loading a distributed graph with damaged data on process %d returned %d on process %zu and %d on process 0", v, s.rc[p], p, s.rc[0]); if (!s.ck[p] != !s.ck[0]) sim_violation("status-differs", "checking a loaded graph returned %d on process %zu and %d on process 0", s.ck[p], p, s.ck[0]); if (s.rc2[p]) sim_violation("not-loadable", "after a failed load an intact distributed graph cannot be loaded on process %zu: %s", p, sim_err_last(p)); }
  if (s.mode == M_SHORT && s.rc[0]) sim_violation("not-loadable", "a distributed graph that is delivered in small pieces cannot be loaded: %s", sim_err_last(v)); if (s.mode == M_SHORT) cmp(s.pc, "graph loaded from a slow stream"); cmp(s.pc2, "graph loaded after a damaged one");
  if (s.mode == M_ERR && s.flt[v]) sim_probe(s.rc[0] ? "dist-read-error-refused" : "dist-read-error-accepted"); else if (s.mode != M_SHORT) sim_probe(s.rc[0] ? "dist-damage-refused" : s.ck[0] ? "dist-damage-loaded-then-check-refused" : "dist-damage-accepted");
}
WORKLOAD(C14, "dload", 2, 1, setup_dload, rmain_dload, check_dload)
ALSO07("dload", 1, setup_dload, rmain_dload)
