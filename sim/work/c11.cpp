// C11: threads that each use their own context get the results they get alone. Member 0 runs the callers one after the other, the other members run them concurrently.
#include "job.h"
namespace { struct Caller { std::vector<Job> j; int threads, det, graph; Num seed; bool draw; std::string opt; Num want[2]; }; struct S { std::vector<RG> g; std::vector<Num> base; std::vector<char> gaps; std::vector<Caller> c; bool early; Num seed; }; }
static CG *gr; static CX *cx; static CM *ms; static int ng;
static void setup() {
  S *s = newshared<S>(); int n = 1 + cfg(2), k = 2 + cfg(3); for (int i = 0; i < n; i++) { GenOpt o; o.maxn = cfg(5) == 4 ? 160 : 60; o.labels = false; o.empty = false; o.minn = 1; s->g.push_back(gen_graph(o)); s->base.push_back(cfg(2)); s->gaps.push_back(coin()); }
  for (int i = 0; i < k; i++) { Caller c; c.threads = 1 + (cfg(3) == 2 ? 1 + cfg(3) : 0); c.det = c.threads > 1 ? 1 : coin(); c.graph = cfg(n); c.seed = cfg(1000); c.draw = coin(); { int no = cfg(4); Num m[2] = {0, 1}; auto put = [&](char ch) { c.opt += ch; if (ch == 'd') m[0] = m[1] = 1; else if (ch == 'u') m[0] = 0; else m[1] = ch == 'f'; }; for (int q = 0; q < no; q++) put("durf"[cfg(4)]); if (m[0] != c.det) put(c.det ? 'd' : 'u'); c.want[0] = m[0]; c.want[1] = m[1]; c.opt = (coin() ? "p" : "n") + c.opt; }
    int nj = 1 + cfg(3); static const int kk[] = {J_PART, J_ORDER, J_COARSE, J_OVL, J_MESH, J_COLOR};
    for (int q = 0; q < nj; q++) { int kd = kk[cfg(6)]; if (kd == J_MESH) { c.j.push_back(gen_job(kd, 40)); continue; } Job j = gen_job_on(kd, s->g[c.graph], s->base[c.graph], s->gaps[c.graph], 7); if (j.arch && (j.a.t == 11 || j.a.t == 12)) { j.a = ArchSpec(); j.a.t = 0; j.a.n = std::max<int>(1, (int)j.parts); j.a.p = {(Num)j.a.n}; /* other architectures are built with the default generator */ } c.j.push_back(j); }
    s->c.push_back(c); }
  s->early = coin(); s->seed = cfg(1000); sim_knobs.cores = 1 + cfg(6); sim_knobs.sched = sim_member() != 0; std::string d; for (auto &c : s->c) { d += " [thr=" + std::to_string(c.threads); for (auto &j : c.j) d += " | " + j.desc(); d += "]"; } sim_describe("callers=%d%s", k, d.c_str());
}
// Options are a context's own and read back as that context set them; deterministic behaviour implies a fixed seed
static void options(int i) { S &s = shared<S>(); for (int k = 0; k < 2; k++) { Num v = -5; OKCALL(SCOTCH_contextOptionGetNum(&cx[i].c, k, &v)); if (v != s.c[i].want[k]) sim_violation("bad-option", "option %d of caller %d reads %d after it was set to %d (%s)", k, i, v, s.c[i].want[k], s.c[i].opt.c_str()); } }
static void opencx(int i) {
  S &s = shared<S>(); Caller &c = s.c[i]; CX &x = cx[i]; OKCALL(SCOTCH_contextInit(&x.c)); x.on = true; OKCALL(SCOTCH_contextRandomClone(&x.c)); SCOTCH_contextRandomSeed(&x.c, c.seed);
  if (c.opt[0] == 'p') { std::string t; for (size_t q = 1; q < c.opt.size(); q++) t += std::string(q > 1 ? "," : "") + c.opt[q]; OKCALL(SCOTCH_contextOptionParse(&x.c, t.c_str())); }
  else for (size_t q = 1; q < c.opt.size(); q++) { char ch = c.opt[q]; OKCALL(SCOTCH_contextOptionSetNum(&x.c, ch == 'd' || ch == 'u' ? SCOTCH_OPTIONNUMDETERMINISTIC : SCOTCH_OPTIONNUMRANDOMFIXEDSEED, ch == 'd' || ch == 'f')); }
  OKCALL(SCOTCH_contextThreadSpawn(&x.c, c.threads, nullptr)); options(i);
}
static void caller(void *p) {
  S &s = shared<S>(); int i = (int)(intptr_t)p; Caller &c = s.c[i]; V out; if (!s.early) opencx(i); CX &x = cx[i];
  SCOTCH_Graph b; SCOTCH_graphInit(&b); OKCALL(SCOTCH_contextBindGraph(&x.c, &gr[c.graph].g, &b)); 
  for (size_t q = 0; q < c.j.size(); q++) { Job &j = c.j[q];
    if (j.kind == J_MESH) { CM M; M.make(j.m, j.base, j.gaps, j.gs); OKCALL(M.build()); SCOTCH_Mesh mb; SCOTCH_meshInit(&mb); OKCALL(SCOTCH_contextBindMesh(&x.c, &M.m, &mb)); OKCALL(run_job(j, nullptr, &mb, out)); SCOTCH_meshExit(&mb); M.exit(); }
    else OKCALL(run_job(j, &b, nullptr, out));
    publish_v(i * 8 + (int)q, out); }
  SCOTCH_graphExit(&b); options(i); x.exit();
}
static void rmain(int) {
  S &s = shared<S>(); sim_setenv("SCOTCH_PTHREAD_NUMBER", "1"); SCOTCH_randomReset(); SCOTCH_randomSeed(s.seed); ng = (int)s.g.size(); gr = new CG[ng]; cx = new CX[s.c.size()];
  for (int i = 0; i < ng; i++) { gr[i].make(s.g[i], s.base[i], s.gaps[i], 7); OKCALL(gr[i].build()); gr[i].ro(); }
  if (s.early) for (size_t i = 0; i < s.c.size(); i++) opencx((int)i);
  if (sim_member() == 0) for (size_t i = 0; i < s.c.size(); i++) caller((void*)(intptr_t)i);
  else { std::vector<SimThread*> t; for (size_t i = 1; i < s.c.size(); i++) t.push_back(sim_spawn(caller, (void*)(intptr_t)i)); caller(nullptr); for (auto x : t) sim_join(x); sim_probe("concurrent-callers"); }
  for (int i = 0; i < ng; i++) { if (extract(&gr[i].g).arcs() != s.g[i].arcs()) sim_violation("input-changed", "shared graph %d changed", i); gr[i].wr(); gr[i].exit(); }
  delete[] gr; delete[] cx; (void)ms;
}
WORKLOAD(C11, "callers", 1, 4, setup, rmain, nullptr)
