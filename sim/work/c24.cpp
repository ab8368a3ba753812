// C24: a strategy means what its string says: conditions are evaluated as documented, a saved strategy is the same strategy, a malformed string is refused.
#include "job.h"
#include "io.h"
#include <cmath>
namespace {
typedef std::string Str;
struct Val { bool dbl; double d; long i; double num() const { return dbl ? d : (double)i; } };
typedef std::map<Str, long> Vars;
struct E { char op = 0; Val v{false, 0, 0}; Str name; std::vector<E> k; };   // op: | & ! = < > + - * % c(onstant) v(ariable)
int prec(char c) { switch (c) { case '|': return 0; case '&': return 1; case '!': return 2; case '=': case '<': case '>': return 3; case '+': case '-': return 4; case '*': return 5; case '%': return 6; } return 7; }
E expr(LR &r, const Vars &vs, int d) {
  E e; int k = d >= 3 ? r.below(2) : r.below(7);
  if (k <= 1) { if (k == 0) { e.op = 'v'; auto it = vs.begin(); std::advance(it, r.below((int)vs.size())); e.name = it->first; } else { e.op = 'c'; static const double q[] = {0.5, 1.25, 3, 0.75, 12.5}; if (r.chance(1, 4)) e.v = {true, q[r.below(5)], 0}; else { auto it = vs.begin(); std::advance(it, r.below((int)vs.size())); e.v = {false, 0, r.chance(1, 2) ? it->second + r.below(3) - 1 : r.below(40) - (r.chance(1, 6) ? 20 : 0)}; } } return e; }
  E a = expr(r, vs, d + 1), b; e.op = "+--*%"[k - 2]; if (e.op == '*' || e.op == '%') { b.op = 'c'; b.v = {false, 0, 1 + r.below(9)}; if (e.op == '*' && r.chance(1, 2)) std::swap(a, b); } else b = expr(r, vs, d + 1); e.k = {a, b}; return e;
}
E cond(LR &r, const Vars &vs, int d) { E e; int k = d >= 3 ? 3 : r.below(6); if (k < 2) { e.op = "|&"[k]; e.k = {cond(r, vs, d + 1), cond(r, vs, d + 1)}; } else if (k == 2) { e.op = '!'; e.k = {cond(r, vs, d + 1)}; } else { e.op = "=<>"[r.below(3)]; e.k = {expr(r, vs, r.below(3)), expr(r, vs, r.below(3))}; } return e; }
Val eval(const E &e, const Vars &vs) {
  switch (e.op) { case 'c': return e.v; case 'v': return {false, 0, vs.at(e.name)}; case '!': return {false, 0, !eval(e.k[0], vs).i}; case '|': return {false, 0, eval(e.k[0], vs).i || eval(e.k[1], vs).i}; case '&': return {false, 0, eval(e.k[0], vs).i && eval(e.k[1], vs).i}; }
  Val a = eval(e.k[0], vs), b = eval(e.k[1], vs); double x = a.num(), y = b.num(); bool f = a.dbl || b.dbl;
  switch (e.op) { case '=': return {false, 0, x == y}; case '<': return {false, 0, x < y}; case '>': return {false, 0, x > y}; case '+': return {f, x + y, a.i + b.i}; case '-': return {f, x - y, a.i - b.i}; case '*': return {f, x * y, a.i * b.i}; default: return {f, f ? fmod(x, y) : 0, f ? 0 : a.i % b.i}; }
}
Str put(const E &e, LR &r) {
  auto sp = [&] { return r.chance(1, 8) ? Str(" ") : Str(); }; if (e.op == 'v') return e.name; if (e.op == 'c') { char b[40]; if (e.v.dbl) snprintf(b, sizeof b, "%g%s", e.v.d, e.v.d == 3 ? ".0" : ""); else snprintf(b, sizeof b, "%ld", e.v.i); return b; }
  auto sub = [&](const E &x, bool par) { Str s = put(x, r); return (par || (prec(x.op) < 7 && r.chance(1, 6))) ? "(" + s + ")" : s; };
  if (e.op == '!') return "!" + sp() + sub(e.k[0], prec(e.k[0].op) < 2); return sub(e.k[0], prec(e.k[0].op) < prec(e.op)) + sp() + e.op + sp() + sub(e.k[1], prec(e.k[1].op) <= prec(e.op) || (e.k[1].op == 'c' && e.k[1].v.i < 0));
}
struct S { Job j; Str a, b, str; bool built = false, els = true; int threads = 1, mode = 0; Num seed = 0; long at = 0; int trans = 0, type = 0; Str bad; };
const char *kinds[] = {"order", "map", "overlap", "", "meshorder"};
Str simple(LR &r, int k) { static const char *p[] = {"r{job=t,map=t,poli=S,sep=h{pass=5}f}", "r{job=u,map=u,poli=L,sep=g{pass=2}f{move=10}}", "r{sep=z}"}, *o[] = {"r{sep=h{pass=4}f}", "r{sep=g}", "r{sep=h}f{move=20}"}, *h[] = {"s", "g{pass=2}", "n{sep=h{pass=4},ole=s,ose=s}"}, *m[] = {"s", "n{sep=h{pass=3},ole=s,ose=s}", "g"}; int i = r.below(3); return k == J_PART ? p[i] : k == J_OVL ? o[i] : k == J_ORDER ? h[i] : m[i]; }
Vars vars(const Job &j) {
  Vars v; if (j.kind == J_MESH) { long e = 0, l = 0, d = 0; std::vector<int> nd(j.m.nn, 0); for (auto &x : j.m.en) { e += 2 * (long)x.size(); d = std::max(d, (long)x.size()); for (int n : x) d = std::max(d, (long)++nd[n]); } for (int i = 0; i < j.m.nn; i++) l += j.m.nw ? j.m.vnlo[i] : 1; v = {{"edge", e}, {"levl", 0}, {"load", l}, {"mdeg", d}, {"vnod", j.m.nn}, {"velm", j.m.ne}}; return v; }
  const RG &g = j.g; long l = 0, d = 0; for (int i = 0; i < g.n; i++) { l += g.w(i); d = std::max(d, (long)g.adj[i].size()); } v = {{"edge", g.arcs()}, {"vert", g.n}}; if (j.kind == J_OVL) v["part"] = j.parts; else { v["load"] = l; v["levl"] = 0; } if (j.kind == J_ORDER) v["mdeg"] = d; return v;
}
// strategy of any kind, by type of strategy
const int NTYPE = 8;
int strat_of(SCOTCH_Strat *s, int t, const char *x) { switch (t) { case 0: return SCOTCH_stratGraphOrder(s, x); case 1: return SCOTCH_stratGraphMap(s, x); case 2: return SCOTCH_stratGraphPartOvl(s, x); case 3: return SCOTCH_stratGraphBipart(s, x); case 4: return SCOTCH_stratMeshOrder(s, x); case 5: return SCOTCH_stratDgraphOrder(s, x); case 6: return SCOTCH_stratDgraphMap(s, x); default: return SCOTCH_stratDgraphOrder(s, x); } }
int build_of(SCOTCH_Strat *s, int t, Num f, Num k, double b) { switch (t) { case 0: return SCOTCH_stratGraphOrderBuild(s, f, k, b); case 1: return SCOTCH_stratGraphMapBuild(s, f, 1 + k, b); case 2: return SCOTCH_stratGraphPartOvlBuild(s, f, 1 + k, b); case 4: return SCOTCH_stratMeshOrderBuild(s, f, b); case 5: case 7: return SCOTCH_stratDgraphOrderBuild(s, f, 2 + k, k, b); default: return SCOTCH_stratDgraphMapBuild(s, f, 2 + k, 1 + k, b); } }
Str any_strat(LR &r, int t) { switch (t) { case 0: return st_hord(r); case 1: return st_kmap(r); case 2: return st_wpart(r); case 3: return st_bip(r); case 4: return st_hmesh(r); case 6: return st_dmap(r); default: return st_dord(r); } }
Vars any_vars(int t) { Vars v{{"edge", 30}}; if (t == 4) { v["vnod"] = 10; v["velm"] = 8; } else v["vert"] = 12; if (t == 2) { v["part"] = 3; return v; } v["load"] = 15; v["levl"] = 1; if (t == 0 || t == 4 || t >= 5) v["mdeg"] = 4; if (t == 3) { v["load0"] = 7; v["lmin0"] = 2; v["lmax0"] = 9; } if (t == 5 || t == 7) { v["proc"] = 4; v["rank"] = 1; } return v; }
Str nest(LR &r, int t, int d) { Vars v = any_vars(t); int k = d >= 3 ? 0 : r.below(7); auto c = [&] { return "/" + put(cond(r, v, 1), r); }; switch (k) { case 1: return t == 6 ? any_strat(r, t) : c() + "?" + nest(r, t, d + 1) + ":" + nest(r, t, d + 1) + ";"; case 2: return t == 6 ? any_strat(r, t) : c() + "?" + nest(r, t, d + 1) + ";"; case 3: return "(" + nest(r, t, d + 1) + "|" + nest(r, t, d + 1) + ")"; case 4: return "(" + nest(r, t, d + 1) + ")" + nest(r, t, d + 1); case 5: return "(|" + nest(r, t, d + 1) + ")"; default: return any_strat(r, t); } }
Str saved(SCOTCH_Strat *s, const char *nm) { FILE *f = sim_fopen(nm, "w"); OKCALL(SCOTCH_stratSave(s, f)); OKCALL(fclose(f)); return slurp_file(nm); }
Str brief(const Str &s) { return s.substr(0, 400); }
}
static void setup_run() {
  S *s = newshared<S>(); static const int ks[] = {J_ORDER, J_PART, J_OVL, J_MESH}; int k = ks[cfg(4)]; s->j = gen_job(k, k == J_MESH ? 30 : 60); s->j.list = false; LR r(3 + cfg(1 << 16)); s->mode = cfg(4); s->threads = 1 + cfg(3); s->seed = cfg(1000); s->built = s->mode == 3 && s->j.smode == 1;
  if (s->j.kind == J_PART && s->j.parts == 0 && !s->built) s->mode = 1; bool clu = s->j.kind == J_PART && s->j.parts == 0; if (clu) s->built = true; else if (!s->built) s->j.smode = 2;
  Vars v = vars(s->j); s->a = s->j.str; s->b = simple(r, k); if (coin()) s->a = simple(r, k); s->str = s->a;
  if (!s->built && s->mode != 3) { E c = cond(r, v, 0); bool t = eval(c, v).i != 0; Str x = s->a, y = s->b; if (coin()) std::swap(x, y); s->str = "/" + put(c, r) + "?" + x + ":" + y + ";"; if (s->j.remap && 0) y = x; s->b = t ? x : y; if (cfg(4) == 3) { s->str = "(" + s->str + ")"; } s->a = s->b; }
  s->j.str = s->str; sim_knobs.cores = 1 + cfg(4); sim_describe("thr=%d mode=%d %s\n  expected to be %s", s->threads, s->mode, s->j.desc().c_str(), s->built ? "as built" : s->a.c_str()); sim_state(k * 32 + s->mode * 8 + s->threads);
}
static void run_main(int) {
  S &s = shared<S>(); sim_setenv("SCOTCH_PTHREAD_NUMBER", "1"); /* architectures, built outside of the context, are inputs */ CX cx; OKCALL(cx.init(s.threads, 1, 0, s.seed)); CM M; CG G; SCOTCH_Graph b; SCOTCH_Mesh bm; bool mesh = s.j.kind == J_MESH;
  if (mesh) { M.make(s.j.m, s.j.base, s.j.gaps, s.j.gs); OKCALL(M.build()); M.ro(); SCOTCH_meshInit(&bm); OKCALL(SCOTCH_contextBindMesh(&cx.c, &M.m, &bm)); } else { G.make(s.j.g, s.j.base, s.j.gaps, s.j.gs); OKCALL(G.build()); G.ro(); SCOTCH_graphInit(&b); OKCALL(SCOTCH_contextBindGraph(&cx.c, &G.g, &b)); }
  auto run = [&](const Job &j, V &o) { SCOTCH_randomReset(); return run_job(j, &b, &bm, o); }; V o1, o2, o3; Job ja = s.j; ja.str = s.a; OKCALL(run(s.j, o1)); check_job(s.j, o1);
  if (!s.built && s.a != s.str) { OKCALL(run(ja, o2)); if (o1 != o2) sim_violation("condition-misread", "the result of %s is not the one of %s", brief(s.str).c_str(), brief(s.a).c_str()); sim_probe("condition-judged"); }
  SCOTCH_Strat st; OKCALL(SCOTCH_stratInit(&st)); OKCALL(job_strat(s.j, st)); Str t = saved(&st, "s1"); SCOTCH_stratExit(&st); Job jt = s.j; jt.smode = 2; jt.str = t; bool clu = s.j.kind == J_PART && s.j.parts == 0;
  OKCALL(SCOTCH_stratInit(&st)); int rc = strat_of(&st, s.j.kind, t.c_str()); if (rc) sim_violation("saved-strategy-refused", "the saved form of %s cannot be read back: %s (%s)", s.built ? "the built strategy" : brief(s.str).c_str(), brief(t).c_str(), sim_err_last(0)); Str t2 = saved(&st, "s2"); SCOTCH_stratExit(&st); if (t2 != t) sim_violation("saved-strategy-differs", "saved strategy %s becomes %s", brief(t).c_str(), brief(t2).c_str());
  if (!clu) { OKCALL(run(jt, o3)); if (o3 != o1) sim_violation("saved-strategy-differs", "the result of the strategy %s is not the one of its saved form %s", brief(s.str).c_str(), brief(t).c_str()); sim_probe(s.built ? "saved-built" : "saved-run"); }
  if (mesh) { SCOTCH_meshExit(&bm); M.wr(); M.exit(); } else { SCOTCH_graphExit(&b); G.wr(); G.exit(); } cx.exit();
}
WORKLOAD(C24, "meaning", 3, 1, setup_run, run_main, nullptr)
// Any type of strategy: saved and read again; writing fails; the string is damaged
static void setup_text() { S *s = newshared<S>(); s->type = cfg(NTYPE); LR r(5 + cfg(1 << 16)); s->str = nest(r, s->type, 0); s->mode = cfg(3); s->at = cfg(1 << 16); s->trans = coin(); static const int bm[] = {0, 1, 16, 64, 512}; sim_io.bufmode = bm[cfg(5)]; s->bad = s->str; sim_knobs.leak = s->mode != 2; /* what the parser built before a syntax error is never freed */ int n = 1 + r.below(3); for (int i = 0; i < n && !s->bad.empty(); i++) { size_t p = r.below((int)s->bad.size()); static const char ch[] = "(){}|/?:;,=<>&!+-*%az09. \"~"; char c = ch[r.below((int)sizeof ch - 1)]; switch (r.below(4)) { case 0: s->bad.erase(p, 1 + r.below(4)); break; case 1: s->bad.insert(p, 1, c); break; case 2: s->bad[p] = c; break; default: s->bad.resize(p); } } sim_describe("type=%d mode=%d %s", s->type, s->mode, s->mode == 2 ? s->bad.c_str() : s->str.c_str()); sim_state(s->type * 8 + s->mode); }
static void text_main(int) {
  S &s = shared<S>(); SCOTCH_Strat st; OKCALL(SCOTCH_stratInit(&st));
  if (s.mode == 2) { int rc = strat_of(&st, s.type, s.bad.c_str()); sim_probe(rc ? "malformed-refused" : "malformed-accepted"); if (rc && sim_err_count(0) == 0) sim_violation("no-error-message", "a string is refused without an error message"); SCOTCH_stratExit(&st); OKCALL(SCOTCH_stratInit(&st)); }
  bool bu = s.type != 3 && s.mode == 0 && s.trans; if (bu) { static const Num fl[] = {0, 1, 2, 4, 8, 0x100, 0x200, 0x1000, 0x4000, 0x1100, 0x2004}; OKCALL(build_of(&st, s.type, fl[s.at % 11], s.at / 11 % 6, s.at / 66 % 4 * 0.1)); } else OKCALL(strat_of(&st, s.type, s.str.c_str()));
  Str t = saved(&st, "s1"); if (bu) sim_probe("saved-built");
  if (s.mode == 1 && !t.empty()) { long at = s.at % (long)t.size(); sim_io_rearm(); sim_io.wrerr_at = at; sim_io.wrerrno = 28; sim_io.wrtransient = s.trans; FILE *f = sim_fopen("s3", "w"); int w0 = sim_write_faults(), rc = SCOTCH_stratSave(&st, f), w1 = sim_write_faults(), c = fclose(f); sim_io.wrerr_at = -1; if (w1 > w0) { sim_probe("write-errors-met"); if (!rc) sim_violation("silent-write-error", "saving a strategy returned success although a write failed at byte %ld", at); } if (!rc && !c && slurp_file("s3") != t) sim_violation("silent-write-error", "save and close of a strategy returned success but the file is incomplete"); }
  SCOTCH_stratExit(&st); OKCALL(SCOTCH_stratInit(&st)); if (strat_of(&st, s.type, t.c_str())) sim_violation("saved-strategy-refused", "the saved form of %s cannot be read back: %s (%s)", brief(s.str).c_str(), brief(t).c_str(), sim_err_last(0)); Str t2 = saved(&st, "s2"); if (t2 != t) sim_violation("saved-strategy-differs", "saved strategy %s becomes %s", brief(t).c_str(), brief(t2).c_str()); sim_probe("read-back"); SCOTCH_stratExit(&st);
}
WORKLOAD(C24, "text", 2, 1, setup_text, text_main, nullptr)
