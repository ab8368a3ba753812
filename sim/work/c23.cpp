// C23: the command-line programs of src/scotch, run in the simulator with simulated files: what they write is what was asked for, and every failure to
// read, write or understand something ends them with an error. Each program is compiled from /repo with its main() renamed (build.py).
#include <memory>
#include <functional>
#include <sstream>
#include <numeric>
#include "job.h"
#include "io.h"
#include "stat.h"
#include "pack.h"
#define PROGS(X) X(acpl) X(amk_ccc) X(amk_fft2) X(amk_grf) X(amk_hy) X(amk_m2) X(amk_p2) X(atst) X(dggath) X(dgmap) X(dgord) X(dgpart) X(dgscat) X(dgtst) X(gbase) X(gcv) X(gmap) X(gmk_hy) X(gmk_m2) X(gmk_m3) X(gmk_msh) X(gmk_ub2) X(gmtst) X(gord) X(gotst) X(gpart) X(gscat) X(gtst) X(mcv) X(mmk_m2) X(mmk_m3) X(mord) X(mtst)
#define DECL(n) int prog_##n(int, char **);
extern "C" { PROGS(DECL) extern void (*prog_error)(const char *); }
namespace {
struct Prog { const char *name; int (*f)(int, char **); };
#define ENT(n) { #n, prog_##n },
const Prog progs[] = { PROGS(ENT) };
typedef std::string Str;
Str num(long x) { return std::to_string(x); }
struct P { Str name; bool par = false; int procs = 1; std::vector<Str> args, opts; std::vector<int> inputs, numarg; std::function<void()> pre, post; std::vector<std::pair<Str, Str>> raw; int bad = 0, mode = 0; long at = 0; std::vector<int> ret; int cext = 0; bool nocomp = false; };
[[noreturn]] void bad(const char *f, ...) __attribute__((format(printf, 1, 2)));
void bad(const char *f, ...) { char b[500]; va_list a; va_start(a, f); vsnprintf(b, sizeof b, f, a); va_end(a); sim_violation("wrong-output", "%s: %s", shared<P>().name.c_str(), b); }
// ---- files ----
const char *exts[] = {"", ".gz", ".bz2", ".lzma", ".xz"};
int packer(const Str &n) { for (int i = 1; i < 5; i++) { Str e = exts[i]; if (n.size() > e.size() && n.substr(n.size() - e.size()) == e) return i > 3 ? 2 : i - 1; } return -1; }
Str nameof(LR &r, P &p, const Str &base) { return !p.nocomp && r.chance(1, 7) ? base + exts[1 + r.below(4)] : base; }
void put(const Str &n, const Str &t) { int k = packer(n); Str s = k < 0 ? t : pack(k, t); sim_file_put(n.c_str(), s.data(), s.size()); }
Str get(const Str &n) { if (sim_file_size(n.c_str()) == (size_t)-1) bad("output file \"%s\" does not exist", n.c_str()); Str s = slurp_file(n.c_str()); int k = packer(n); if (k < 0) return s; Str o; if (!unpack(k, s, o, 4 << 20)) bad("output file \"%s\" is not a complete compressed file", n.c_str()); return o; }
Str input(LR &r, P &p, const Str &base, const Str &text) { Str n = nameof(r, p, base); put(n, text); p.inputs.push_back((int)p.args.size()); p.args.push_back(n); return n; }
Str output(LR &r, P &p, const Str &base) { Str n = nameof(r, p, base); p.args.push_back(n); return n; }
void number(P &p, long x) { p.numarg.push_back((int)p.args.size()); p.args.push_back(num(x)); }
// ---- graphs as text ----
Str gline(const RG &g, int v, Num base) { Str t; auto lab = [&](int i) { return num(g.lb ? g.vlbl[i] : base + i); }; if (g.lb) t += lab(v) + "\t"; if (g.vw) t += num(g.velo[v]) + "\t"; t += num((long)g.adj[v].size()); for (auto &e : g.adj[v]) { if (g.ew) t += "\t" + num(e.second); t += "\t" + lab(e.first); } return t + "\n"; }
Str gprop(const RG &g) { return Str(g.lb ? "1" : "0") + (g.ew ? "1" : "0") + (g.vw ? "1" : "0"); }
Str gtext(const RG &g, Num base) { Str t = "0\n" + num(g.n) + "\t" + num(g.arcs()) + "\n" + num(base) + "\t" + gprop(g) + "\n"; for (int v = 0; v < g.n; v++) t += gline(g, v, base); return t; }
Str piece(const RG &g, Num base, int procs, int proc, int from, int to) { long e = 0; Str b; for (int v = from; v < to; v++) { e += (long)g.adj[v].size(); b += gline(g, v, base); } return "2\n" + num(procs) + "\t" + num(proc) + "\n" + num(g.n) + "\t" + num(g.arcs()) + "\n" + num(to - from) + "\t" + num(e) + "\n" + num(base) + "\t" + gprop(g) + "\n" + b; }
struct Tok { const char *p; const char *what; explicit Tok(const Str &s, const char *w) : p(s.c_str()), what(w) {} long next() { char *e; long v = strtol(p, &e, 10); if (e == p) bad("%s: a number is missing or malformed at \"%.20s\"", what, p); p = e; return v; } void end() { while (*p && isspace((unsigned char)*p)) p++; if (*p) bad("%s: unexpected data \"%.20s\" at the end", what, p); } };
struct Rows { bool lb, ew, vw; V lab, vw_; std::vector<std::vector<std::pair<long, Num>>> adj; };
void rows(Tok &t, long n, long arcs, long prop, Rows &r) { bool lb = prop / 100, ew = prop / 10 % 10, vw = prop % 10; r.lb = lb; r.ew = ew; r.vw = vw; long k = 0; for (long i = 0; i < n; i++) { r.lab.push_back(lb ? t.next() : 0); r.vw_.push_back(vw ? t.next() : 1); long d = t.next(); std::vector<std::pair<long, Num>> a; for (long j = 0; j < d; j++) { Num w = ew ? t.next() : 1; a.push_back({t.next(), w}); } k += d; r.adj.push_back(a); } if (k != arcs) bad("%s: %ld arcs are announced and %ld are listed", t.what, arcs, k); }
RG finish(const Rows &r, Num base, const char *what) { RG g; g.n = (int)r.adj.size(); g.lb = r.lb; g.ew = r.ew; g.vw = r.vw; std::map<long, int> ix; for (int i = 0; i < g.n; i++) { if (!ix.insert({r.lb ? r.lab[i] : base + i, i}).second) bad("%s: a label is given twice", what); g.velo.push_back(r.vw_[i]); if (g.lb) g.vlbl.push_back(r.lab[i]); } if (!g.vw) g.velo.clear(); g.adj.resize(g.n); for (int i = 0; i < g.n; i++) for (auto &e : r.adj[i]) { auto it = ix.find(e.first); if (it == ix.end()) bad("%s: vertex %d has the neighbor %ld, which does not exist", what, i, e.first); g.adj[i].push_back({it->second, e.second}); }
  for (int i = 0; i < g.n; i++) for (auto &e : g.adj[i]) { int k = 0; for (auto &f : g.adj[e.first]) if (f.first == i) { k++; if (f.second != e.second) bad("%s: an edge has two loads", what); } if (k != 1 || e.first == i) bad("%s: vertices %d and %d are not neighbors of each other once", what, i, e.first); } return g; }
RG pgraph(const Str &s, Num &base, const char *what) { Tok t(s, what); if (t.next() != 0) bad("%s: not a graph file of version 0", what); long n = t.next(), m = t.next(); base = (Num)t.next(); long pr = t.next(); Rows r; r.lb = r.ew = r.vw = false; rows(t, n, m, pr, r); t.end(); if (!n) { r.lb = pr / 100; r.ew = pr / 10 % 10; r.vw = pr % 10; } return finish(r, base, what); }
RG pieces(const std::vector<Str> &f, Num &base, V &sizes) { Rows r; r.lb = r.ew = r.vw = false; int np = (int)f.size(); long vg = 0, eg = 0, es = 0; base = 0; for (int q = 0; q < np; q++) { Str w = "piece " + num(q); Tok t(f[q], w.c_str()); if (t.next() != 2) bad("%s: not a distributed graph file", w.c_str()); if (t.next() != np || t.next() != q) bad("%s: wrong number of processes or process number", w.c_str()); long v = t.next(), e = t.next(), vl = t.next(), el = t.next(), b = t.next(), pr = t.next(); if (!q) { vg = v; eg = e; base = (Num)b; } else if (v != vg || e != eg || b != base) bad("%s: its header disagrees with that of the first piece", w.c_str()); rows(t, vl, el, pr, r); t.end(); es += el; sizes.push_back((Num)vl); } if ((long)r.adj.size() != vg || es != eg) bad("the pieces have %zu vertices and %ld arcs instead of %ld and %ld", r.adj.size(), es, vg, eg); return finish(r, base, "the pieces together"); }
void same(const RG &want, const RG &gotg, Num wb, Num gb, const char *what) { if (wb != gb) bad("%s: base %d instead of %d", what, gb, wb); Str why; if (!same_graph(want, gotg, why)) bad("%s: %s", what, why.c_str()); }
// mapping and ordering files: one value per vertex, by label
std::map<long, long> ptab(const Str &s, long n, const char *what) { Tok t(s, what); long k = t.next(); if (k != n) bad("%s: %ld vertices instead of %ld", what, k, n); std::map<long, long> m; for (long i = 0; i < k; i++) { long a = t.next(), b = t.next(); if (!m.insert({a, b}).second) bad("%s: label %ld is given twice", what, a); } t.end(); return m; }
V bylabel(const std::map<long, long> &m, const V *lab, int n, Num base, const char *what) { V v; for (int i = 0; i < n; i++) { auto it = m.find(lab ? (*lab)[i] : base + i); if (it == m.end()) bad("%s: vertex %d is missing", what, i); v.push_back((Num)it->second); } return v; }
V gtab(const Str &name, const RG &g, Num base, const char *what) { return bylabel(ptab(get(name), g.n, what), g.lb ? &g.vlbl : nullptr, g.n, base, what); }
Str tabtext(const RG &g, Num base, const V &v, LR &r) { std::vector<int> o(g.n); std::iota(o.begin(), o.end(), 0); if (g.lb || r.chance(1, 2)) for (int i = g.n - 1; i > 0; i--) std::swap(o[i], o[r.below(i + 1)]); Str t = num(g.n) + "\n"; for (int i : o) t += num(g.lb ? g.vlbl[i] : base + i) + "\t" + num(v[i]) + "\n"; return t; }
// A line "X<tab>Key ...numbers"
std::map<Str, std::vector<double>> lines(const Str &t) { std::map<Str, std::vector<double>> m; std::istringstream is(t); Str l; while (std::getline(is, l)) { Str c = l; size_t a = l.find('\t'); if (a == Str::npos) continue; size_t b = l.find_first_of("\t=", a + 1); Str key = l.substr(a + 1, b == Str::npos ? Str::npos : b - a - 1); if (key == "Height min") b = a + 1; std::vector<double> v; while (b != Str::npos && (b = l.find('=', b)) != Str::npos) v.push_back(strtod(l.c_str() + ++b, nullptr)); m[key] = v; } return m; }
void is(std::map<Str, std::vector<double>> &m, const char *key, size_t i, double want) { auto it = m.find(key); if (it == m.end() || it->second.size() <= i) bad("value %zu of \"%s\" is missing", i, key); if (!near(it->second[i], want)) bad("value %zu of \"%s\" is %g instead of %g", i, key, it->second[i], want); }
RG some(int maxn, int minn = 1, bool labels = true) { GenOpt o; o.maxn = maxn; o.minn = minn; o.empty = minn == 0; o.labels = labels; return gen_graph(o); }
void plain(RG &g) { g.vw = g.ew = g.lb = false; g.velo.clear(); g.vlbl.clear(); for (auto &a : g.adj) for (auto &e : a) e.second = 1; }
const char *flagset(LR &r, bool x) { static const char *f[] = {"q", "s", "b", "t", "sb", "bt", "qb", "x", "xs"}; return f[r.below(x ? 9 : 7)]; }
// architectures of fixed size
struct AT { Str text; int n; bool cmplt; }; AT atext(LR &r) { static const AT a[] = {{"cmplt 5", 5, true}, {"cmplt 2", 2, true}, {"cmplt 1", 1, true}, {"mesh2D 3 2", 6, false}, {"hcub 3", 8, false}, {"torus2D 3 3", 9, false}, {"mesh3D 2 2 2", 8, false}, {"tleaf 2 3 5 2 1", 6, false}, {"torus3D 2 2 3", 12, false}, {"meshXD 2 4 2", 8, false}}; int k = r.below(12); if (k >= 10) { int n = 1 + r.below(6); Str t = "cmpltw " + num(n); for (int i = 0; i < n; i++) t += " " + num(1 + r.below(5)); return {t, n, false}; } return a[k]; }
struct ALoad { SCOTCH_Arch a; explicit ALoad(const Str &t) { sim_noinject(1); sim_file_put("arch.tmp", t.data(), t.size()); FILE *f = sim_fopen("arch.tmp", "r"); OKCALL(SCOTCH_archInit(&a)); int rc = SCOTCH_archLoad(&a, f); fclose(f); if (rc) bad("the architecture it wrote cannot be loaded: %s", sim_err_last(sim_rank())); } ~ALoad() { SCOTCH_archExit(&a); } long dist(Num i, Num j) { SCOTCH_ArchDom x, y; if (SCOTCH_archDomTerm(&a, &x, i) || SCOTCH_archDomTerm(&a, &y, j)) bad("the architecture has no terminal domain %d or %d", i, j); return (long)SCOTCH_archDomDist(&a, &x, &y); } };
void deco(const Str &t, int n, const std::function<long(int, int)> &d) { ALoad A(t); if ((int)SCOTCH_archSize(&A.a) != n) bad("the architecture has %d terminals instead of %d", (int)SCOTCH_archSize(&A.a), n); for (int i = 0; i < n; i++) for (int j = 0; j < n; j++) if (A.dist(i, j) != d(i, j)) bad("distance between terminals %d and %d is %ld instead of %ld", i, j, A.dist(i, j), d(i, j)); SCOTCH_ArchDom f; OKCALL(SCOTCH_archDomFrst(&A.a, &f)); if ((int)SCOTCH_archDomSize(&A.a, &f) != n || (int)SCOTCH_archDomWght(&A.a, &f) != n) bad("the first domain has size %d and weight %d instead of %d", (int)SCOTCH_archDomSize(&A.a, &f), (int)SCOTCH_archDomWght(&A.a, &f), n); }
std::vector<std::vector<int>> bfs(int n, const std::function<void(int, std::vector<int> &)> &ng) { std::vector<std::vector<int>> d(n, std::vector<int>(n, -1)); for (int s = 0; s < n; s++) { std::vector<int> q{s}; d[s][s] = 0; for (size_t i = 0; i < q.size(); i++) { std::vector<int> z; ng(q[i], z); for (int x : z) if (d[s][x] < 0) { d[s][x] = d[s][q[i]] + 1; q.push_back(x); } } } return d; }
// meshes are written and read by the library, which C13 is about
Str mtext(const RM &m, Num base, bool gaps, uint64_t sd) { CM M; M.make(m, base, gaps, sd); OKCALL(M.build()); FILE *f = sim_fopen("mesh.tmp", "w"); OKCALL(SCOTCH_meshSave(&M.m, f)); fclose(f); M.exit(); return slurp_file("mesh.tmp"); }
struct MR { Num ne = 0, nn = 0, ebas = 0, nbas = 0; std::vector<std::set<int>> en; V vnlo; bool nw = false; V lab; };
MR mread(const Str &t) { MR r; SCOTCH_Mesh m; sim_file_put("mesh.tmp", t.data(), t.size()); FILE *f = sim_fopen("mesh.tmp", "r"); OKCALL(SCOTCH_meshInit(&m)); int rc = SCOTCH_meshLoad(&m, f, -1); fclose(f); if (rc || SCOTCH_meshCheck(&m)) bad("the mesh it wrote cannot be loaded: %s", sim_err_last(sim_rank())); Num *vt, *vd, *vw, *nw, *vl, *et, ed, dm; SCOTCH_meshData(&m, &r.ebas, &r.nbas, &r.ne, &r.nn, &vt, &vd, &vw, &nw, &vl, &ed, &et, &dm); Num b = std::min(r.ebas, r.nbas); for (int e = 0; e < r.ne; e++) { std::set<int> s; for (Num k = vt[r.ebas - b + e]; k < vd[r.ebas - b + e]; k++) s.insert(et[k - b] - r.nbas); r.en.push_back(s); } if (nw) { r.nw = true; r.vnlo.assign(nw, nw + r.nn); } if (vl) r.lab.assign(vl, vl + r.ne + r.nn); SCOTCH_meshExit(&m); return r; }
void samemesh(const RM &m, const MR &x) { if (x.ne != m.ne || x.nn != m.nn) bad("mesh with %d elements and %d nodes instead of %d and %d", x.ne, x.nn, m.ne, m.nn); for (int e = 0; e < m.ne; e++) if (x.en[e] != std::set<int>(m.en[e].begin(), m.en[e].end())) bad("nodes of element %d differ", e); for (int i = 0; i < m.nn; i++) if ((x.nw ? x.vnlo[i] : 1) != (m.nw ? m.vnlo[i] : 1)) bad("weight of node %d differs", i); }
void geometry(const Str &t, int dim, const std::vector<std::pair<long, std::vector<double>>> &want) { std::istringstream is(t); int d; size_t n; if (!(is >> d >> n) || d != dim || n != want.size()) bad("geometry file: wrong header"); std::map<long, std::vector<double>> m; for (size_t i = 0; i < n; i++) { long l; std::vector<double> c(dim); if (!(is >> l)) bad("geometry file: too short"); for (double &x : c) if (!(is >> x)) bad("geometry file: too short"); m[l] = c; } for (auto &w : want) { auto it = m.find(w.first); if (it == m.end()) bad("geometry file: no coordinates for vertex %ld", w.first); for (int k = 0; k < dim; k++) if (std::fabs(it->second[k] - w.second[k]) > 1e-6) bad("geometry file: coordinate %d of vertex %ld is %g instead of %g", k, w.first, it->second[k], w.second[k]); } }
// orderings
void order_files(const RG &g, Num base, const Str &ord, const Str &map, const Str &tree, const V *lab, bool sep) {
  int n = g.n; auto L = [&](int i) { return (long)(lab ? (*lab)[i] : base + i); }; V perm(n), peri(n); std::map<long, int> ix; for (int i = 0; i < n; i++) ix[L(i)] = i; V to; if (!ord.empty()) { to = bylabel(ptab(get(ord), n, "ordering file"), lab, n, base, "ordering file"); for (int i = 0; i < n; i++) { auto it = ix.find(to[i]); if (it == ix.end()) bad("ordering file: %d is the label of no vertex", to[i]); perm[i] = it->second + base; } for (auto &x : peri) x = -1; for (int i = 0; i < n; i++) { if (peri[perm[i] - base] >= 0) bad("ordering file: not a permutation"); peri[perm[i] - base] = i + base; } check_perm("ordering file", perm.data(), peri.data(), n, base); }
  if (map.empty()) return; V blk = bylabel(ptab(get(map), n, "block file"), lab, n, base, "block file"); if (ord.empty()) return; V rang; for (int i = 0; i < n; i++) { Num b = blk[peri[i] - base]; if (b == (Num)rang.size()) rang.push_back(i + base); else if (b != (Num)rang.size() - 1) bad("block file: the blocks are not contiguous intervals in the order of their numbers (rank %d is in block %d after %zu blocks)", i, b, rang.size()); } int cblk = (int)rang.size(); rang.push_back(n + base);
  if (tree.empty()) return; V ft = bylabel(ptab(get(tree), n, "tree file"), lab, n, base, "tree file"), tr(cblk, -99); for (int i = 0; i < n; i++) { Num &x = tr[blk[i]]; if (x != -99 && x != ft[i]) bad("tree file: the vertices of block %d have different fathers", blk[i]); x = ft[i]; } check_blocks("ordering files", cblk, rang.data(), tr.data(), n, base); if (sep) check_sep("ordering files", g, perm.data(), cblk, rang.data(), tr.data(), base); sim_probe("separator-trees");
}
// what a mapping file must say
V map_file(const RG &g, Num base, const Str &name, int parts, const V *fixed) { V p = gtab(name, g, base, "mapping file"); for (int i = 0; i < g.n; i++) { if (p[i] < 0 || (parts > 0 && p[i] >= parts)) bad("mapping file: vertex %d is on target %d of %d", i, p[i], parts); if (fixed && (*fixed)[i] >= 0 && p[i] != (*fixed)[i]) bad("mapping file: vertex %d, fixed on target %d, is on target %d", i, (*fixed)[i], p[i]); } return p; }
void view_of(const Str &log, const RG &g0, const V &part, const Str &arch, int flags, const char *cl) { RG g = g0; if (flags & 1) { g.vw = false; g.velo.clear(); } if (flags & 2) { g.ew = false; for (auto &a : g.adj) for (auto &e : a) e.second = 1; } if (!g.arcs()) return; ALoad A(arch); Num k = SCOTCH_archSize(&A.a); bool w = arch.substr(0, 6) == "cmpltw"; MStat m = ref_map(g, part, k, [&](Num a, Num b) { return A.dist(a, b); }, [&](Num x) { SCOTCH_ArchDom d; OKCALL(SCOTCH_archDomTerm(&A.a, &d, x)); return w && Str(cl) == "Cmlosum" ? (long)SCOTCH_archDomWght(&A.a, &d) : 1L; }); Txt t = parse(log); cmp_view("mapping information of the program", t, g, m, w && Str(cl) == "Cmlosum", cl); sim_probe("mapping-information"); }
void balance(const RG &g, const V &part, int parts) { if (parts < 2 || g.n < 12 * parts || g.vw) return; V l(parts, 0); for (Num x : part) l[x]++; int mx = *std::max_element(l.begin(), l.end()); if (mx > g.n / parts * 2 + 2) bad("a part has %d of %d vertices, with %d parts", mx, g.n, parts); sim_probe("balance-judged"); }
// clusters above the threshold are split, unless their density is 1
void cluster_loads(const RG &g, const V &t, int q, int flags) { std::map<Num, long> ld, ct, ar; long mx = 0; for (int i = 0; i < g.n; i++) { mx = std::max(mx, (flags & 1) ? 1L : (long)g.w(i)); ld[t[i]] += (flags & 1) ? 1 : g.w(i); ct[t[i]]++; for (auto &e : g.adj[i]) if (t[e.first] == t[i]) ar[t[i]]++; } for (auto &x : ld) if (x.second > 2L * q + 2 * mx && ct[x.first] > 8 && ar[x.first] < ct[x.first] * (ct[x.first] - 1)) bad("cluster %d of %ld vertices has load %ld, above %d", x.first, ct[x.first], x.second, q); sim_probe("clusters"); }
void strat_line(const Str &log, const char *want) { if (log.find("S\tStrat=") == Str::npos) bad("no strategy in the log file"); if (want && log.find(want) == Str::npos) bad("the strategy in the log file is not the given one: %.100s", log.c_str()); }
}
// ---- one generator per program ----
#define GEN(n) static void gen_##n(LR &r, P &p)
GEN(gtst) { auto g = std::make_shared<RG>(some(60, 0)); Num base = r.below(2); input(r, p, "g.grf", gtext(*g, base)); Str o = output(r, p, "o.txt"); p.post = [=] { auto m = lines(get(o)); GStat s = ref_stat(*g); is(m, "Vertex", 0, g->n); is(m, "Vertex load", 0, s.n[0]); is(m, "Vertex load", 1, s.n[1]); is(m, "Vertex load", 2, s.n[2]); is(m, "Vertex load", 3, s.d[0]); is(m, "Vertex load", 4, s.d[1]); is(m, "Vertex degree", 0, s.n[3]); is(m, "Vertex degree", 1, s.n[4]); is(m, "Vertex degree", 2, g->arcs()); is(m, "Vertex degree", 3, s.d[2]); is(m, "Vertex degree", 4, s.d[3]); is(m, "Edge", 0, g->arcs() / 2); is(m, "Edge load", 0, s.n[5]); is(m, "Edge load", 1, s.n[6]); is(m, "Edge load", 2, s.n[7]); is(m, "Edge load", 3, s.d[4]); is(m, "Edge load", 4, s.d[5]); }; }
GEN(gbase) { auto g = std::make_shared<RG>(some(60, 0)); Num base = r.below(3), nb = r.below(4); number(p, nb); p.numarg.clear(); input(r, p, "g.grf", gtext(*g, base)); Str o = output(r, p, "o.grf"); p.post = [=] { Num b; RG x = pgraph(get(o), b, "output graph"); same(*g, x, nb, b, "output graph"); }; }
GEN(gcv) {
  int fi = r.below(4), fo = r.below(3); RG g; Str text; Num base = 1;
  if (fi == 0) { g = some(50, 1); base = r.below(2); if (fo == 2) plain(g); text = gtext(g, base); } else if (fi == 3) { text = habo_graph(r, g); base = 1; } else { g = some(40, 1, false); if (fi == 2 || fo == 2) plain(g); if (g.vw) for (auto &x : g.velo) if (!x) x = 1; base = 1; long m = g.arcs() / 2; if (fi == 1) { text = num(g.n) + " " + num(m); if (g.vw || g.ew) text += Str(" 0") + (g.vw ? "1" : "0") + (g.ew ? "1" : "0"); text += "\n"; for (int v = 0; v < g.n; v++) { Str l; if (g.vw) l += num(g.velo[v]) + " "; for (auto &e : g.adj[v]) l += num(e.first + 1) + (g.ew ? " " + num(e.second) : "") + " "; text += l + "\n"; } } else { text = "%%MatrixMarket matrix coordinate pattern symmetric\n% comment\n" + num(g.n) + " " + num(g.n) + " " + num(m) + "\n"; for (int v = 0; v < g.n; v++) for (auto &e : g.adj[v]) if (e.first < v) text += num(v + 1) + " " + num(e.first + 1) + "\n"; } }
  if (fo == 2 && g.arcs() == 0) fo = 0; input(r, p, "g.in", text); Str o = output(r, p, "g.out"); p.opts.push_back(Str("-i") + "scmb"[fi]); p.opts.push_back(Str("-o") + "scm"[fo]); if (fi == 3 && r.chance(1, 3)) p.opts.erase(p.opts.begin()); auto G = std::make_shared<RG>(g);
  p.post = [=] { Str t = get(o); if (fo == 0) { Num b; RG x = pgraph(t, b, "output graph"); same(*G, x, base, b, "output graph"); return; }
    std::istringstream is(t); Str l; if (fo == 1) { std::getline(is, l); std::istringstream h(l); long n, m; Str f; if (!(h >> n >> m) || n != G->n || m != G->arcs() / 2) bad("Chaco file: wrong header \"%s\"", l.c_str()); h >> f; while (f.size() < 3) f = "0" + f; bool lb = f[0] == '1', vw = f[1] == '1', ew = f[2] == '1'; RG x; x.n = G->n; x.vw = vw; x.ew = ew; x.lb = false; x.adj.resize(x.n); RG w = *G; w.lb = false; w.vlbl.clear(); std::map<long, int> ix; std::vector<std::vector<long>> row(x.n); for (int v = 0; v < x.n; v++) { if (!std::getline(is, l)) bad("Chaco file: too few lines"); std::istringstream q(l); long y; while (q >> y) row[v].push_back(y); long key = v + 1; if (lb) { if (row[v].empty()) bad("Chaco file: no label"); key = row[v][0]; row[v].erase(row[v].begin()); } ix[key] = v; } for (int v = 0; v < x.n; v++) { size_t k = 0; if (vw) { if (row[v].empty()) bad("Chaco file: no weight"); x.velo.push_back((Num)row[v][k++]); } for (; k < row[v].size(); k += ew ? 2 : 1) { if (!ix.count(row[v][k])) bad("Chaco file: neighbor %ld does not exist", row[v][k]); x.adj[v].push_back({ix[row[v][k]], ew ? (k + 1 < row[v].size() ? (Num)row[v][k + 1] : -1) : 1}); } } Str why; w.ew = ew && w.ew; if (!same_graph(w, x, why)) bad("Chaco file: %s", why.c_str()); return; }
    std::getline(is, l); if (l.compare(0, 14, "%%MatrixMarket")) bad("MatrixMarket file: no banner"); while (std::getline(is, l) && l[0] == '%') ; std::istringstream h(l); long a, b, c; if (!(h >> a >> b >> c) || a != G->n || b != G->n) bad("MatrixMarket file: wrong sizes"); RG x; x.n = G->n; x.adj.resize(x.n); long i, j, k = 0; while (is >> i >> j) { k++; if (i < 1 || j < 1 || i > x.n || j > x.n) bad("MatrixMarket file: entry %ld %ld", i, j); if (i != j) { x.adj[i - 1].push_back({(int)j - 1, 1}); x.adj[j - 1].push_back({(int)i - 1, 1}); } } if (k != c) bad("MatrixMarket file: %ld entries instead of %ld", k, c); RG w = *G; plain(w); Str why; if (!same_graph(w, x, why)) bad("MatrixMarket file: %s", why.c_str()); }; }
GEN(gscat) { auto g = std::make_shared<RG>(some(60, 0)); Num base = r.below(2); int np = 1 + r.below(5), mn = 0; p.nocomp = false; number(p, np); Str nm = "g.grf"; input(r, p, nm, gtext(*g, base)); Str pat = r.chance(1, 2) ? "o-%r.dgr" : "o-%p-%r.dgr"; p.args.push_back(pat); if (r.chance(1, 3) && g->n >= np) { mn = 1 + r.below(g->n / np); p.opts.push_back("-i" + num(mn)); } p.post = [=] { std::vector<Str> f; for (int q = 0; q < np; q++) f.push_back(get(pat[3] == 'r' ? "o-" + num(q) + ".dgr" : "o-" + num(np) + "-" + num(q) + ".dgr")); Num b; V sz; RG x = pieces(f, b, sz); same(*g, x, base, b, "the pieces together"); for (int q = 0; q < np; q++) { int w = mn ? (q < np - 1 ? mn : g->n - mn * (np - 1)) : (g->n + np - 1 - q) / np; if (sz[q] != w) bad("piece %d has %d vertices instead of %d", q, sz[q], w); } }; }
GEN(gmk_hy) { int d = 1 + r.below(5); number(p, d); Str o = output(r, p, "o.grf"); p.post = [=] { RG g; g.n = 1 << d; g.adj.resize(g.n); for (int v = 0; v < g.n; v++) for (int k = 0; k < d; k++) g.adj[v].push_back({v ^ (1 << k), 1}); Num b; RG x = pgraph(get(o), b, "hypercube"); same(g, x, 0, b, "hypercube"); }; }
GEN(gmk_ub2) { int d = 1 + r.below(5); number(p, d); Str o = output(r, p, "o.grf"); p.post = [=] { RG g; g.n = 1 << d; g.adj.resize(g.n); std::set<std::pair<int,int>> s; for (int v = 0; v < g.n; v++) for (int k = 0; k < 2; k++) { int w = ((v << 1) & (g.n - 1)) | k; if (w != v) { s.insert({v, w}); s.insert({w, v}); } } for (auto &e : s) g.adj[e.first].push_back({e.second, 1}); Num b; RG x = pgraph(get(o), b, "de Bruijn graph"); same(g, x, 0, b, "de Bruijn graph"); }; }
static void grid(LR &r, P &p, int dims) {
  int d[3] = {1, 1, 1}; for (int i = 0; i < dims; i++) { d[i] = 1 + r.below(dims == 2 ? 7 : 5); number(p, d[i]); } Str o = output(r, p, "o.grf"); bool el = dims == 2 && r.chance(1, 2), to = r.chance(1, 2), ge = r.chance(1, 2), y = r.chance(1, 2); Num base = r.below(2); if (el) p.opts.push_back("-e"); if (to) p.opts.push_back("-t"); if (y) p.opts.push_back("-y"); if (base || r.chance(1, 2)) p.opts.push_back("-b" + num(base)); Str gn = nameof(r, p, "o.xyz"); if (ge) p.opts.push_back("-g" + gn);
  int a = d[0], b = d[1], c = d[2]; p.post = [=] { RG g; g.n = a * b * c; g.adj.resize(g.n); std::set<std::pair<int,int>> s; auto id = [&](int x, int z, int w) { return (w * b + z) * a + x; }; for (int w = 0; w < c; w++) for (int z = 0; z < b; z++) for (int x = 0; x < a; x++) for (int i = -1; i <= 1; i++) for (int j = -1; j <= 1; j++) for (int k = -1; k <= 1; k++) { if (dims == 2 && k) continue; if (!el && std::abs(i) + std::abs(j) + std::abs(k) != 1) continue; int X = x + i, Z = z + j, W = w + k; if (to) { X = (X + a) % a; Z = (Z + b) % b; W = (W + c) % c; } if (X < 0 || Z < 0 || W < 0 || X >= a || Z >= b || W >= c) continue; if (id(X, Z, W) != id(x, z, w)) s.insert({id(x, z, w), id(X, Z, W)}); } for (auto &e : s) g.adj[e.first].push_back({e.second, 1}); Num bb; RG x = pgraph(get(o), bb, "grid"); same(g, x, base, bb, "grid");
    if (ge) { std::vector<std::pair<long, std::vector<double>>> want; for (int w = 0; w < c; w++) for (int z = 0; z < b; z++) for (int q = 0; q < a; q++) { std::vector<double> co{(double)q, (double)(y ? b - 1 - z : z)}; if (dims == 3) co.push_back(w); want.push_back({id(q, z, w) + base, co}); } geometry(get(gn), dims, want); } }; }
GEN(gmk_m2) { grid(r, p, 2); }
GEN(gmk_m3) { grid(r, p, 3); }
static void meshgrid(LR &r, P &p, int dims) { int d[3] = {1, 1, 1}; for (int i = 0; i < dims; i++) { d[i] = 1 + r.below(dims == 2 ? 6 : 4); number(p, d[i]); } Str o = output(r, p, "o.msh"); bool ge = r.chance(1, 2); Str gn = nameof(r, p, "o.xyz"); if (ge) p.opts.push_back("-g" + gn); int a = d[0], b = d[1], c = d[2]; 
  p.post = [=] { int cz = dims == 3 ? c + 1 : 1; RM m; m.ne = a * b * c; m.nn = (a + 1) * (b + 1) * cz; auto id = [&](int x, int y, int z) { return (z * (b + 1) + y) * (a + 1) + x; }; for (int z = 0; z < c; z++) for (int y = 0; y < b; y++) for (int x = 0; x < a; x++) { std::vector<int> n; for (int k = 0; k < (dims == 3 ? 2 : 1); k++) for (int j = 0; j < 2; j++) for (int i = 0; i < 2; i++) n.push_back(id(x + i, y + j, z + k)); m.en.push_back(n); } MR x = mread(get(o)); samemesh(m, x); if (x.ebas != 0 || x.nbas != m.ne) bad("mesh numbered from %d and %d", x.ebas, x.nbas);
    if (ge) { std::vector<std::pair<long, std::vector<double>>> want; std::vector<std::vector<double>> nc(m.nn); for (int z = 0; z < cz; z++) for (int y = 0; y <= b; y++) for (int q = 0; q <= a; q++) { std::vector<double> v{(double)q, (double)(b - y)}; if (dims == 3) v.push_back(z); nc[id(q, y, z)] = v; want.push_back({m.ne + id(q, y, z), v}); } for (int e = 0; e < m.ne; e++) { std::vector<double> v(dims, 0); for (int n : m.en[e]) for (int k = 0; k < dims; k++) v[k] += nc[n][k] / m.en[e].size(); want.push_back({e, v}); } geometry(get(gn), dims, want); } }; }
GEN(mmk_m2) { meshgrid(r, p, 2); }
GEN(mmk_m3) { meshgrid(r, p, 3); }
static std::shared_ptr<RM> meshin(LR &r, P &p, Num &base) { auto m = std::make_shared<RM>(gen_mesh(20)); base = r.below(2); Str n = nameof(r, p, "m.msh"); p.inputs.push_back((int)p.args.size()); p.args.push_back(n); bool gaps = r.chance(1, 2); uint64_t sd = r.next() & 0xffff; Num b = base; p.pre = [=] { put(n, mtext(*m, b, gaps, sd)); }; return m; }
GEN(gmk_msh) { Num base; auto m = meshin(r, p, base); Str o = output(r, p, "o.grf"); int k = r.below(4); if (k) p.opts.push_back(k == 1 && r.chance(1, 2) ? Str("-d") : "-d" + num(k)); Num bb = base; p.post = [=] { Num b; RG x = pgraph(get(o), b, "graph of the mesh"); if (b != bb) bad("base %d instead of %d", b, bb); RG g; if (!k) g = m->nodes(); else { g.n = m->ne; g.adj.resize(g.n); for (int i = 0; i < g.n; i++) for (int j = 0; j < g.n; j++) if (i != j) { std::set<int> s(m->en[i].begin(), m->en[i].end()); int c = 0; for (int v : std::set<int>(m->en[j].begin(), m->en[j].end())) c += (int)s.count(v); int need = std::max(1, std::min(k, (int)std::min(m->en[i].size(), m->en[j].size()) - 1)); if (c >= need) g.adj[i].push_back({j, 1}); } } if (x.n != g.n) bad("%d vertices instead of %d", x.n, g.n); for (int v = 0; v < g.n; v++) { std::set<int> a, c; for (auto &e : g.adj[v]) a.insert(e.first); for (auto &e : x.adj[v]) c.insert(e.first); if (a != c) bad("vertex %d has %zu neighbors instead of %zu, or other ones", v, c.size(), a.size()); } }; }
GEN(mtst) { Num base; auto m = meshin(r, p, base); Str o = output(r, p, "o.txt"); p.post = [=] { auto t = lines(get(o)); std::vector<double> vl, de, dn; std::vector<int> nd(m->nn, 0); long e2 = 0; for (auto &e : m->en) { de.push_back(e.size()); e2 += (long)e.size(); for (int x : e) nd[x]++; } for (int x : nd) dn.push_back(x); for (int i = 0; i < m->nn; i++) vl.push_back(m->nw ? m->vnlo[i] : 1); One a(vl), b(de), c(dn); is(t, "Elements", 0, m->ne); is(t, "Nodes", 0, m->nn); auto five = [&](const char *k, const One &o, double sum) { is(t, k, 0, o.mn); is(t, k, 1, o.mx); is(t, k, 2, sum); is(t, k, 3, o.avg); is(t, k, 4, o.dlt); }; five("Node load", a, a.sum); five("Element degree", b, e2); five("Node degree", c, e2); is(t, "Edge", 0, e2); }; }
GEN(mcv) { Str o; if (r.chance(1, 2)) { Num base; auto m = meshin(r, p, base); o = output(r, p, "o.msh"); p.opts.push_back("-is"); p.post = [=] { samemesh(*m, mread(get(o))); }; } else { input(r, p, "m.hb", habo_mesh(r)); o = output(r, p, "o.msh"); p.post = [=] { mread(get(o)); }; } if (r.chance(1, 2)) p.opts.push_back("-os"); }
static void ordopts(LR &r, P &p, Str &map, Str &tree, Str &log, bool mesh, bool par, bool &sep) { sep = true; log = "l.txt"; if (r.chance(2, 3)) { map = nameof(r, p, "b.map"); p.opts.push_back("-m" + map); if (r.chance(1, 2)) { tree = nameof(r, p, "t.tre"); p.opts.push_back("-t" + tree); } } int k = r.below(4); if (k == 1) p.opts.push_back(Str("-c") + flagset(r, par)); else if (k == 2) { LR q(r.next()); p.opts.push_back("-o" + Str(par ? "n{sep=m{vert=20,low=q{strat=h{pass=3}},asc=b{strat=q{strat=f}}},ole=q{strat=s},ose=s,osq=n{sep=(/(vert>10)?(h{pass=2});),ole=f,ose=g}}" : mesh ? "n{sep=(/(vnod>10)?(h{pass=3});),ole=f,ose=g}" : "n{sep=(/(vert>10)?(h{pass=3});),ole=f,ose=g}")); } if (!mesh && r.chance(1, 4)) p.opts.push_back(Str("-C") + "dfru"[r.below(4)]); }
GEN(gord) { auto g = std::make_shared<RG>(some(70, 1)); Num base = r.below(2); input(r, p, "g.grf", gtext(*g, base)); Str o = output(r, p, "o.ord"), map, tree, log; bool sep; ordopts(r, p, map, tree, log, false, false, sep); bool v = r.chance(1, 2), vt = r.chance(1, 2); Str l = output(r, p, log); if (v) p.opts.push_back(vt ? "-vst" : "-vs"); p.post = [=] { order_files(*g, base, o, map, tree, g->lb ? &g->vlbl : nullptr, sep); if (v) { strat_line(get(l), nullptr); if (vt && get(l).find("T\tTotal") == Str::npos) bad("no timings in the log file"); } }; }
GEN(mord) { Num base; auto m = meshin(r, p, base); Str o = output(r, p, "o.ord"), map, tree, log; bool sep; ordopts(r, p, map, tree, log, true, false, sep); bool v = r.chance(1, 2); Str l = output(r, p, log); if (v) p.opts.push_back("-vs"); Num b = base; p.post = [=] { RG g = m->nodes(); V lab; Num nb = b; if (m->lb) lab = V(m->vlbl.begin() + (m->elemfirst ? m->ne : 0), m->vlbl.begin() + (m->elemfirst ? m->ne : 0) + m->nn); order_files(g, nb, o, map, tree, m->lb ? &lab : nullptr, false); if (v) strat_line(get(l), nullptr); }; }
GEN(gotst) {
  auto g = std::make_shared<RG>(some(40, 1, false)); g->lb = false; Num base = r.below(2); int n = g->n; auto pm = std::make_shared<V>(); for (int i = 0; i < n; i++) pm->push_back(i); for (int i = n - 1; i > 0; i--) std::swap((*pm)[i], (*pm)[r.below(i + 1)]); V q = *pm; for (auto &x : q) x += base; input(r, p, "g.grf", gtext(*g, base)); { Str t = num(n) + "\n"; for (int i = 0; i < n; i++) t += num(base + i) + "\t" + num(q[i]) + "\n"; input(r, p, "o.ord", t); } Str o = output(r, p, "o.txt"); bool nov = r.chance(1, 3); if (nov) p.opts.push_back("-v");
  p.post = [=] { auto W = [&](int v) { return nov || !g->vw ? 1.0 : g->velo[v]; }; V inv(n); for (int i = 0; i < n; i++) inv[(*pm)[i]] = i; std::vector<std::set<int>> st(n); for (int i = 0; i < n; i++) for (auto &e : g->adj[inv[i]]) { int j = (*pm)[e.first]; if (j > i) st[i].insert(j); } double nnz = 0, opc = 0; V fa(n, -1); std::vector<int> sons(n, 0); for (int i = 0; i < n; i++) { double f = 0; for (int j : st[i]) f += W(inv[j]); double w = W(inv[i]); if (!st[i].empty()) { int k = fa[i] = *st[i].begin(); sons[k]++; for (int j : st[i]) if (j != k) st[k].insert(j); } (void)f; } for (int i = 0; i < n; i++) { double f = 0, w = W(inv[i]); for (int j : st[i]) f += W(inv[j]); f += w; nnz += f * w; opc += f * f * w; } std::vector<double> h; for (int i = 0; i < n; i++) if (!sons[i]) { int d = 1; for (int k = i; fa[k] >= 0; k = fa[k]) d++; h.push_back(d); } One a(h); auto t = lines(get(o)); is(t, "Leaf", 0, h.size()); is(t, "Height min", 0, a.mn); is(t, "Height min", 1, a.mx); is(t, "Height min", 2, a.avg); is(t, "Height min", 3, a.dlt); is(t, "NNZ", 0, nnz); is(t, "OPC", 0, opc); }; }
GEN(gmtst) { auto g = std::make_shared<RG>(some(50, 2)); Num base = r.below(2); AT a = atext(r); bool ovl = a.cmplt && r.chance(1, 2); auto pt = std::make_shared<V>(); for (int i = 0; i < g->n; i++) pt->push_back(ovl && r.chance(1, 4) ? -1 : r.below(a.n)); input(r, p, "g.grf", gtext(*g, base)); input(r, p, "a.tgt", a.text + "\n"); input(r, p, "m.map", tabtext(*g, base, *pt, r)); Str o = output(r, p, "o.txt"); if (ovl) p.opts.push_back("-o"); p.post = [=] { Str t = get(o); if (!ovl) view_of(t, *g, *pt, a.text, 0, "CommLoad"); else { double fr = 0; std::vector<double> ld(a.n, 0); for (int v = 0; v < g->n; v++) if ((*pt)[v] >= 0) ld[(*pt)[v]] += g->w(v); else { fr += g->w(v); std::set<Num> ng; for (auto &e : g->adj[v]) if ((*pt)[e.first] >= 0) ng.insert((*pt)[e.first]); for (Num x : ng) ld[x] += g->w(v); } One l(ld); Txt x = parse(t); cmp("overlap view", x, "sep", 0, fr); cmp("overlap view", x, "min", 0, l.mn); cmp("overlap view", x, "min", 1, l.mx); } }; }
static void mapper(LR &r, P &p, bool part) {
  auto g = std::make_shared<RG>(some(r.chance(1, 6) ? 140 : 50, 1)); Num base = r.below(2); AT a = atext(r); int flags = 0; bool clu = r.chance(1, 6), ovl = false; int n = 1 + r.below(7), q = 1 + r.below(20); if (part) { number(p, clu ? q : n); a = {"cmplt " + num(n), n, true}; } input(r, p, "g.grf", gtext(*g, base)); if (!part) input(r, p, "a.tgt", clu ? (r.chance(1, 2) ? "varcmplt\n" : "varhcub\n") : a.text + "\n"); Str o = output(r, p, "o.map"), l = output(r, p, "l.txt"); if (clu) p.opts.push_back(part ? Str("-q") : "-q" + num(q)); else ovl = a.cmplt && a.n > 1 && r.chance(1, 5);
  if (ovl) p.opts.push_back("-o"); bool dflt = true, str = false; switch (r.below(5)) { case 1: p.opts.push_back(Str("-c") + flagset(r, false)); break; case 2: p.opts.push_back(r.chance(1, 2) ? "-b0.1" : "-b.05"); break; case 3: if (!clu) { str = true; p.opts.push_back("-m" + Str(ovl ? "m{vert=30,low=r,asc=f}" : "r{job=t,map=t,poli=S,sep=(/((load0=load)|(load0=0))?(h{pass=3}f{move=20}):(f{move=10});)}")); dflt = false; } break; default: ; } if (ovl && str) { p.opts.pop_back(); str = false; }
  if (r.chance(1, 5)) p.opts.push_back(Str("-C") + "dfru"[r.below(4)]); if (r.chance(1, 4)) { flags = 1 + r.below(3); p.opts.push_back(Str("-s") + (flags == 1 ? "v" : flags == 2 ? "e" : "ev")); } if (ovl) flags |= 2; bool vm = r.chance(1, 2) && !clu, vs = r.chance(1, 3); if (vm || vs) p.opts.push_back(Str("-v") + (vm ? "m" : "") + (vs ? "s" : "") + (r.chance(1, 2) ? "t" : ""));
  auto fx = std::make_shared<V>(); auto old = std::make_shared<V>(); bool fix = !ovl && !clu && r.chance(1, 4), rem = !ovl && !clu && r.chance(1, 4); if (fix) { for (int i = 0; i < g->n; i++) fx->push_back(r.chance(1, 3) ? r.below(a.n) : -1); Str f = nameof(r, p, "f.fix"); put(f, tabtext(*g, base, *fx, r)); p.opts.push_back("-f" + f); } if (rem) { for (int i = 0; i < g->n; i++) old->push_back(r.below(a.n)); Str f = nameof(r, p, "m.old"); put(f, tabtext(*g, base, *old, r)); p.opts.push_back("-ro" + f); if (r.chance(1, 2)) p.opts.push_back("-rr" + Str(r.chance(1, 2) ? "1" : "0.5")); if (r.chance(1, 3)) { V v; for (int i = 0; i < g->n; i++) v.push_back(1 + r.below(5)); Str w = nameof(r, p, "v.cst"); put(w, tabtext(*g, base, v, r)); p.opts.push_back("-rv" + w); } }
  p.post = [=] { if (ovl) { V t = gtab(o, *g, base, "partition file"); for (int v = 0; v < g->n; v++) { if (t[v] < -1 || t[v] >= a.n) bad("partition file: vertex %d is in part %d of %d", v, t[v], a.n); if (t[v] >= 0) for (auto &e : g->adj[v]) if (t[e.first] >= 0 && t[e.first] != t[v]) bad("partition file: vertices %d and %d of different parts are neighbors", v, e.first); } sim_probe("overlap"); }
    else { V t = map_file(*g, base, o, clu ? 0 : a.n, fix ? fx.get() : nullptr); if (clu) { cluster_loads(*g, t, q, flags); } else if (!fix && !rem && dflt && a.cmplt) { RG h = *g; if (flags & 1) h.vw = false; balance(h, t, a.n); } if (fix) sim_probe("fixed-vertices"); if (rem) sim_probe("remapping"); if (vm) view_of(get(l), *g, t, a.text, flags, "CommLoad"); }
    if (vs) strat_line(get(l), str ? "pass=3" : nullptr); }; }
GEN(gmap) { mapper(r, p, false); }
GEN(gpart) { mapper(r, p, true); }
GEN(atst) { auto S = std::make_shared<ArchSpec>(gen_arch(r, 20, false)); Str n = nameof(r, p, "a.tgt"); p.inputs.push_back(0); p.args.push_back(n); Str o = output(r, p, "o.txt"); auto T = std::make_shared<std::vector<double>>(); auto N = std::make_shared<int>(); p.pre = [=] { Arch A; OKCALL(A.build(*S)); FILE *f = sim_fopen("arch.tmp", "w"); OKCALL(SCOTCH_archSave(&A.a, f)); fclose(f); put(n, slurp_file("arch.tmp")); *N = SCOTCH_archSize(&A.a); for (int i = 0; i < *N; i++) for (int j = i + 1; j < *N; j++) { SCOTCH_ArchDom x, y; OKCALL(SCOTCH_archDomTerm(&A.a, &x, i)); OKCALL(SCOTCH_archDomTerm(&A.a, &y, j)); T->push_back(SCOTCH_archDomDist(&A.a, &x, &y)); } A.exit(); };
  p.post = [=] { auto t = lines(get(o)); is(t, "Terminals", 0, *N); if (T->empty()) return; One a(*T); is(t, "Distance", 0, a.mn); is(t, "Distance", 1, a.mx); is(t, "Distance", 2, a.avg); is(t, "Distance", 3, a.dlt); }; }
GEN(acpl) { auto S = std::make_shared<ArchSpec>(); do *S = gen_arch(r, 16, false); while (S->t != 11 && S->t != 12); Str n = nameof(r, p, "a.tgt"); p.inputs.push_back(0); p.args.push_back(n); Str o = output(r, p, "o.tgt"); auto D = std::make_shared<std::map<std::pair<int,int>,long>>(); auto N = std::make_shared<int>(0); auto W = std::make_shared<V>(); p.pre = [=] { if (*N) return; Arch A; OKCALL(A.build(*S)); FILE *f = sim_fopen("arch.tmp", "w"); OKCALL(SCOTCH_archSave(&A.a, f)); fclose(f); put(n, slurp_file("arch.tmp")); *N = SCOTCH_archSize(&A.a); for (int i = 0; i < *N; i++) { SCOTCH_ArchDom x, y; OKCALL(SCOTCH_archDomTerm(&A.a, &x, i)); W->push_back(SCOTCH_archDomWght(&A.a, &x)); for (int j = 0; j < *N; j++) { OKCALL(SCOTCH_archDomTerm(&A.a, &y, j)); (*D)[{i, j}] = SCOTCH_archDomDist(&A.a, &x, &y); } } A.exit(); };
  if (r.chance(2, 3)) { // terminals of a random bisection tree, with their labels, weights and distances
    int k = 1 + r.below(10); std::vector<int> nm{1}; int mx = 1; while ((int)nm.size() < k) { int c = r.below((int)nm.size()); if (nm[c] > 100) continue; int x = nm[c]; nm[c] = 2 * x; nm.push_back(2 * x + 1); mx = std::max(mx, 2 * x + 1); } std::vector<int> lab(k); std::iota(lab.begin(), lab.end(), 0); for (int i = k - 1; i > 0; i--) { std::swap(lab[i], lab[r.below(i + 1)]); std::swap(nm[i], nm[r.below(i + 1)]); } W->assign(k, 0); Str t = "deco\n0\n" + num(k) + "\t" + num(mx) + "\n"; for (int i = 0; i < k; i++) { Num w = 1 + r.below(6); (*W)[lab[i]] = w; t += num(lab[i]) + " " + num(w) + " " + num(nm[i]) + "\n"; } for (int i = 0; i < k; i++) { (*D)[{lab[i], lab[i]}] = 0; for (int j = 0; j < i; j++) { long d = 1 + r.below(9); (*D)[{lab[i], lab[j]}] = (*D)[{lab[j], lab[i]}] = d; t += num(d) + " "; } t += "\n"; } put(n, t); *N = k; sim_probe("raw-decomposition"); }
  p.post = [=] { ALoad B(get(o)); if (SCOTCH_archSize(&B.a) != *N) bad("%d terminals instead of %d", (int)SCOTCH_archSize(&B.a), *N); for (int i = 0; i < *N; i++) { SCOTCH_ArchDom x; OKCALL(SCOTCH_archDomTerm(&B.a, &x, i)); if (SCOTCH_archDomWght(&B.a, &x) != (*W)[i]) bad("weight of terminal %d differs", i); for (int j = 0; j < *N; j++) if (B.dist(i, j) != (*D)[{i, j}]) bad("distance between terminals %d and %d is %ld instead of %ld", i, j, B.dist(i, j), (*D)[{i, j}]); } }; }
GEN(amk_hy) { int d = 1 + r.below(5); number(p, d); Str o = output(r, p, "o.tgt"); p.post = [=] { deco(get(o), 1 << d, [](int i, int j) { return (long)__builtin_popcount(i ^ j); }); }; }
GEN(amk_m2) { int a = 1 + r.below(6), b = 1 + r.below(6); number(p, a); number(p, b); Str o = output(r, p, "o.tgt"); int k = r.below(3); if (k) p.opts.push_back(k == 1 ? "-mn" : "-mo"); p.post = [=] { deco(get(o), a * b, [=](int i, int j) { return (long)std::abs(i % a - j % a) + std::abs(i / a - j / a); }); }; }
GEN(amk_ccc) { int d = 1 + r.below(4); number(p, d); Str o = output(r, p, "o.tgt"); p.post = [=] { int m = 1 << d; auto D = bfs(d * m, [&](int v, std::vector<int> &z) { int l = v / m, q = v % m; z = {l * m + (q ^ (1 << l)), (l + d - 1) % d * m + q, (l + 1) % d * m + q}; }); deco(get(o), d * m, [&](int i, int j) { return (long)D[i][j]; }); }; }
GEN(amk_fft2) { int d = 1 + r.below(3); number(p, d); Str o = output(r, p, "o.tgt"); p.post = [=] { int m = 1 << d; auto D = bfs((d + 1) * m, [&](int v, std::vector<int> &z) { int l = v / m, q = v % m; if (l > 0) { z.push_back((l - 1) * m + q); z.push_back((l - 1) * m + (q ^ (1 << (l - 1)))); } if (l < d) { z.push_back((l + 1) * m + q); z.push_back((l + 1) * m + (q ^ (1 << l))); } }); deco(get(o), (d + 1) * m, [&](int i, int j) { return (long)D[i][j]; }); }; }
GEN(amk_p2) { int a = 1 + r.below(9), b = 1 + r.below(9); number(p, a); number(p, b); Str o = output(r, p, "o.tgt"); p.post = [=] { ALoad A(get(o)); if (SCOTCH_archSize(&A.a) != 2) bad("not two terminals"); for (int i = 0; i < 2; i++) { SCOTCH_ArchDom d; OKCALL(SCOTCH_archDomTerm(&A.a, &d, i)); if (SCOTCH_archDomWght(&A.a, &d) != (i ? b : a)) bad("weight of terminal %d is %d instead of %d", i, (int)SCOTCH_archDomWght(&A.a, &d), i ? b : a); } if (A.dist(0, 1) != 1) bad("wrong distance"); }; }
GEN(amk_grf) {
  GenOpt go; go.maxn = 14; go.minn = 2; go.empty = false; go.isolated = go.disconnected = false; go.zerow = false; auto g = std::make_shared<RG>(gen_graph(go)); { std::vector<int> q{0}; std::set<int> s{0}; for (size_t i = 0; i < q.size(); i++) for (auto &e : g->adj[q[i]]) if (s.insert(e.first).second) q.push_back(e.first); for (int v = 0; v < g->n; v++) if (!s.count(v)) { g->adj[v].push_back({0, 1}); g->adj[0].push_back({v, 1}); std::vector<int> z{v}; s.insert(v); for (size_t i = 0; i < z.size(); i++) for (auto &e : g->adj[z[i]]) if (s.insert(e.first).second) z.push_back(e.first); } }
  Num base = r.below(2); input(r, p, "g.grf", gtext(*g, base)); Str o = output(r, p, "o.tgt"); if (!base && r.chance(2, 3)) p.opts.push_back("-2"); auto L = std::make_shared<std::vector<int>>(); for (int i = 0; i < g->n; i++) L->push_back(i); if (r.chance(1, 2)) { for (int i = g->n - 1; i > 0; i--) std::swap((*L)[i], (*L)[r.below(i + 1)]); L->resize(1 + r.below(g->n)); Str t = num((long)L->size()) + "\n"; for (int v : *L) t += num(g->lb ? g->vlbl[v] : base + v) + "\n"; Str n = nameof(r, p, "v.lst"); put(n, t); p.opts.push_back("-l" + n); std::sort(L->begin(), L->end(), [&](int x, int y) { return g->lb ? g->vlbl[x] < g->vlbl[y] : x < y; }); } if (r.chance(1, 4)) p.opts.push_back("-bh{pass=5}");
  bool two = std::count(p.opts.begin(), p.opts.end(), "-2") > 0; if ((int)L->size() == g->n) std::sort(L->begin(), L->end()); p.post = [=] { // terminals bear the numbers of the vertices, or, for deco 2, their ranks in the list; distances are those of the graph, when deco 2 does not estimate them
    long big = 1 << 28; int n = g->n; std::vector<std::vector<long>> D(n, std::vector<long>(n, big)); for (int i = 0; i < n; i++) { D[i][i] = 0; for (auto &e : g->adj[i]) D[i][e.first] = g->ew ? e.second : 1; } for (int k = 0; k < n; k++) for (int i = 0; i < n; i++) for (int j = 0; j < n; j++) D[i][j] = std::min(D[i][j], D[i][k] + D[k][j]); ALoad A(get(o)); int m = (int)L->size(); if ((int)SCOTCH_archSize(&A.a) != m) bad("%d terminals instead of %d", (int)SCOTCH_archSize(&A.a), m);
    for (int i = 0; i < m; i++) { Num t = two ? i : base + (*L)[i]; SCOTCH_ArchDom x; if (SCOTCH_archDomTerm(&A.a, &x, t)) bad("no terminal domain %d", t); if (SCOTCH_archDomWght(&A.a, &x) != g->w((*L)[i])) bad("terminal %d has weight %d instead of %d", t, (int)SCOTCH_archDomWght(&A.a, &x), (int)g->w((*L)[i])); for (int j = 0; j < m; j++) { Num u = two ? j : base + (*L)[j]; long d = A.dist(t, u), w = D[(*L)[i]][(*L)[j]]; if (d != A.dist(u, t) || (i == j ? d != 0 : d <= 0) || (!two && (g->ew ? d < w : d != w))) bad("distance between terminals %d and %d (vertices %d and %d) is %ld; in the graph it is %ld", t, u, (*L)[i], (*L)[j], d, w); } } }; }
// ---- parallel programs ----
static Str dgraph_in(LR &r, P &p, const RG &g, Num base, int &root) { root = r.below(3) ? 0 : r.below(p.procs); if (root) p.opts.push_back("-r" + num(root)); else if (r.chance(1, 8)) p.opts.push_back("-r0"); if (r.chance(1, 2)) { input(r, p, "g.grf", gtext(g, base)); return ""; } Dist d; LR q(r.next()); std::vector<int> cut{0}; for (int i = 1; i < p.procs; i++) cut.push_back(r.below(g.n + 1)); cut.push_back(g.n); std::sort(cut.begin(), cut.end()); Str pat = r.chance(1, 2) ? "g%r.dgr" : "g-%r-of-%p.dgr"; int pk = r.chance(1, 8) ? 1 + r.below(4) : 0; pat += exts[pk]; for (int i = 0; i < p.procs; i++) { Str n = pat[1] == '%' ? "g" + num(i) + ".dgr" : "g-" + num(i) + "-of-" + num(p.procs) + ".dgr"; put(n + exts[pk], piece(g, base, p.procs, i, cut[i], cut[i + 1])); } p.inputs.push_back((int)p.args.size()); p.args.push_back(pat); return pat; }
GEN(dgtst) { auto g = std::make_shared<RG>(some(60, 0)); Num base = r.below(2); int root; dgraph_in(r, p, *g, base, root); Str o = output(r, p, "o.txt"); p.post = [=] { auto m = lines(get(o)); GStat s = ref_stat(*g); is(m, "Vertex", 0, g->n); is(m, "Edge", 0, g->arcs() / 2); const char *k[] = {"Vertex load", "Vertex degree", "Edge load"}; for (int i = 0; i < 3; i++) { is(m, k[i], 0, i == 0 ? s.n[0] : i == 1 ? s.n[3] : s.n[5]); is(m, k[i], 1, i == 0 ? s.n[1] : i == 1 ? s.n[4] : s.n[6]); is(m, k[i], 2, i == 0 ? s.n[2] : i == 1 ? g->arcs() : s.n[7]); is(m, k[i], 3, s.d[2 * i]); is(m, k[i], 4, s.d[2 * i + 1]); } }; }
GEN(dgscat) { auto g = std::make_shared<RG>(some(60, 0)); Num base = r.below(2); int root; dgraph_in(r, p, *g, base, root); int np = p.procs, pk = r.chance(1, 8) ? 1 + r.below(4) : 0; Str e = exts[pk]; p.args.push_back("o%r.dgr" + e); if (r.chance(1, 3)) p.opts.push_back("-c"); p.post = [=] { std::vector<Str> f; for (int q = 0; q < np; q++) f.push_back(get("o" + num(q) + ".dgr" + e)); Num b; V sz; RG x = pieces(f, b, sz); same(*g, x, base, b, "the pieces together"); }; }
GEN(dggath) { auto g = std::make_shared<RG>(some(60, 0)); Num base = r.below(2); int root; dgraph_in(r, p, *g, base, root); Str o = output(r, p, "o.grf"); if (r.chance(1, 3)) p.opts.push_back("-c"); p.post = [=] { Num b; RG x = pgraph(get(o), b, "output graph"); same(*g, x, base, b, "output graph"); }; }
GEN(dgord) { auto g = std::make_shared<RG>(some(60, 1)); Num base = r.below(2); int root; dgraph_in(r, p, *g, base, root); bool blk = r.chance(1, 8); Str o = output(r, p, "o.ord"), map, tree, log; bool sep; ordopts(r, p, map, tree, log, false, true, sep); bool v = r.chance(1, 2); Str l = output(r, p, log); if (v) p.opts.push_back("-vs"); if (blk) p.opts.push_back("-b"); p.post = [=] { order_files(*g, base, blk ? Str() : o, map, tree, g->lb ? &g->vlbl : nullptr, sep); if (blk) get(o); if (v) strat_line(get(l), nullptr); }; }
static void dmapper(LR &r, P &p, bool part) {
  auto g = std::make_shared<RG>(some(r.chance(1, 6) ? 140 : 50, 1)); Num base = r.below(2); int root; AT a; do a = atext(r); while (a.text[0] != 'c'); bool clu = r.chance(1, 8); int n = 1 + r.below(7), q = 1 + r.below(20), flags = 0; if (part) { number(p, clu ? q : n); a = {"cmplt " + num(n), n, true}; } dgraph_in(r, p, *g, base, root); if (!part) { p.inputs.push_back((int)p.args.size()); p.args.push_back("a.tgt%-"); put("a.tgt", clu ? "varcmplt\n" : a.text + "\n"); } Str o = output(r, p, "o.map"), l = output(r, p, "l.txt"); if (clu) p.opts.push_back(part ? Str("-q") : "-q" + num(q)); bool str = false, dflt = true; switch (r.below(5)) { case 1: p.opts.push_back(Str("-c") + flagset(r, true)); break; case 2: p.opts.push_back("-b0.1"); break; case 3: if (!clu) { str = true; dflt = false; p.opts.push_back("-mr{sep=m{vert=20,low=q{strat=(h{pass=3}f{move=10})},asc=b{bnd=(q{strat=f{move=10}}),org=(q{strat=f{move=10}}),width=3}},seq=r{job=t,map=t,poli=S,sep=h{pass=3}f{move=20}}}"); } break; default: ; }
  if (r.chance(1, 5)) p.opts.push_back(Str("-C") + "dfru"[r.below(4)]); if (r.chance(1, 4)) { flags = 1 + r.below(3); p.opts.push_back(Str("-s") + (flags == 1 ? "v" : flags == 2 ? "e" : "ev")); } bool vm = r.chance(1, 2) && !clu && a.cmplt, vs = r.chance(1, 3); if (vm || vs) p.opts.push_back(Str("-v") + (vm ? "m" : "") + (vs ? "s" : "") + (r.chance(1, 2) ? "t" : ""));
  p.post = [=] { V t = map_file(*g, base, o, clu ? 0 : a.n, nullptr); if (clu) { cluster_loads(*g, t, q, flags); } else if (dflt && a.cmplt) { RG h = *g; if (flags & 1) h.vw = false; balance(h, t, a.n); } if (vm) { RG h = *g; if (flags & 1) { h.vw = false; h.velo.clear(); } if (flags & 2) { h.ew = false; for (auto &x : h.adj) for (auto &e : x) e.second = 1; } bool zero = false; for (int v = 0; v < h.n; v++) if (!h.w(v)) zero = true; if (h.arcs() && !zero) { MStat m = ref_map(h, t, a.n, [](Num, Num) { return 1L; }, [](Num) { return 1L; }); Txt x = parse(get(l)); cmp_view("mapping information of the program", x, h, m, false, "Cmlosum"); sim_probe("mapping-information"); } } if (vs) strat_line(get(l), str ? "pass=3" : nullptr); }; }
GEN(dgmap) { dmapper(r, p, false); }
GEN(dgpart) { dmapper(r, p, true); }
#define GE(n) { #n, gen_##n },
static const struct { const char *name; void (*f)(LR &, P &); } gens[] = { PROGS(GE) };
static const int ngens = sizeof gens / sizeof *gens;

static void setup_any(bool par) {
  P *p = newshared<P>(); std::vector<int> c; for (int i = 0; i < ngens; i++) { bool d = gens[i].name[0] == 'd'; static const char *heavy[] = {"gmap", "gpart", "gord", "dgord", "dgmap", "dgpart", "gcv", "gotst", "gmtst", "mord", "dgscat", "dggath"}; int w = 1; for (auto h : heavy) if (!strcmp(h, gens[i].name)) w = 2; if (d == par) for (int k = 0; k < w; k++) c.push_back(i); }
  int k = c[cfg((int)c.size())]; p->name = gens[k].name; p->par = par; p->procs = par ? 1 + cfg(5) : 1; sim_set_ranks(p->procs); LR r(7 + cfg(1 << 16)); gens[k].f(r, *p); p->ret.assign(p->procs, -1);
  int u = cfg(12); if (u == 11) { int w = cfg(5); p->bad = 1; if (w == 0 && !p->inputs.empty()) p->args[p->inputs[cfg((int)p->inputs.size())]] = "nofile"; else if (w == 1 && !p->numarg.empty()) p->args[p->numarg[cfg((int)p->numarg.size())]] = coin() ? "0" : "abc"; else if (w == 2) for (int i = 0; i < 6; i++) p->args.push_back("extra" + num(i)); else if (w == 3 && (p->name == "gcv" || p->name == "mcv")) p->opts.push_back(coin() ? "-ox" : "-ix"); else p->opts.push_back("-Z9"); p->pre = p->pre ? p->pre : std::function<void()>(); }
  else if (u > 5) { p->mode = u - 5; p->at = cfg(1 << 16); switch (p->mode) { case 1: case 2: { int m = 1 << (3 + cfg(10)); sim_io.wrerr_at = p->at % m; sim_io.wrerrno = coin() ? 28 : 5; sim_io.wrtransient = p->mode == 2; break; } case 3: sim_io.closeerr = 1; break; case 4: sim_io.rderr_at = p->at % (1 << (3 + cfg(10))); break; case 5: sim_io.openfail = 1 + p->at % 8; break; } }
  static const int bm[] = {0, 0, 0, -1, 16, 512}; sim_io.bufmode = bm[cfg(6)]; sim_io.rdchunk = cfg(4) == 3 ? 1 + cfg(64) : 0; sim_io.wrchunk = cfg(4) == 3 ? 1 + cfg(64) : 0; if (cfg(3) == 2) sim_setenv("SCOTCH_PTHREAD_NUMBER", num(1 + cfg(4)).c_str()); sim_knobs.leak = 0; sim_knobs.mpi_strict = 0;
  // options stand before, between and after the file names
  std::vector<Str> a = p->args; for (auto &o : p->opts) a.insert(a.begin() + (r.chance(1, 2) ? a.size() : r.below((int)a.size() + 1)), o); p->args = a; Str l; for (auto &x : a) l += " " + x; sim_describe("%s%s mode=%d bad=%d", p->name.c_str(), l.c_str(), p->mode, p->bad); sim_state(k * 64 + p->mode * 8 + p->procs); sim_probe(("run." + p->name).c_str());
}
static void on_error(const char *m) { P &s = shared<P>(); if (s.bad || sim_file_faults() > 0) { sim_probe(s.bad ? "bad-usage-refused" : sim_write_faults() ? "write-failure-reported" : "read-failure-reported"); sim_end_run(); } sim_violation("program-failed", "%s ended with the error \"%s\"", s.name.c_str(), m); }
static void judge(P &s, int q) { int rc = s.ret[q]; if (rc) { if (s.bad || sim_file_faults()) { sim_probe("failure-status"); sim_end_run(); } sim_violation("program-failed", "%s returned %d", s.name.c_str(), rc); } if (sim_write_faults()) sim_violation("silent-write-error", "%s ended with a success status although writing a file failed", s.name.c_str()); if (s.bad) sim_violation("failure-hidden", "%s ended with a success status although its arguments are wrong", s.name.c_str()); if (s.mode == 5 && sim_file_faults()) sim_violation("failure-hidden", "%s ended with a success status although a file could not be opened", s.name.c_str()); }
static void rmain_any(int rank) {
  P &s = shared<P>(); if (!s.par && s.pre) { sim_noinject(1); s.pre(); sim_noinject(0); sim_io_rearm(); }
  int (*f)(int, char **) = nullptr; for (auto &x : progs) if (s.name == x.name) f = x.f; std::vector<Str> a = s.args; std::vector<std::vector<char>> buf; a.insert(a.begin(), s.name); std::vector<char *> av; for (auto &x : a) buf.push_back(std::vector<char>(x.c_str(), x.c_str() + x.size() + 1)); for (auto &x : buf) av.push_back(x.data()); av.push_back(nullptr);
  prog_error = on_error; int rc = f((int)a.size(), av.data()); prog_error = nullptr; s.ret[rank] = rc;
  if (!s.par) { judge(s, 0); if (!sim_file_faults()) { sim_io.wrerr_at = sim_io.rderr_at = -1; sim_io.closeerr = 0; sim_noinject(1); s.post(); sim_probe("outputs-judged"); } else sim_probe("read-failure-not-needed"); }
}
static void check_any() { P &s = shared<P>(); if (!s.par) return; for (int q = 0; q < s.procs; q++) judge(s, q); if (!sim_file_faults()) { s.post(); sim_probe("outputs-judged"); } }
static void setup_seq() { setup_any(false); }
static void setup_par() { setup_any(true); }
WORKLOAD(C23, "sequential", 3, 1, setup_seq, rmain_any, nullptr)
WORKLOAD(C23, "parallel", 2, 1, setup_par, rmain_any, check_any)
