// Statistics computed from their definition, and comparison with those the library computes or prints.
#pragma once
#include "w.h"
#include <cmath>
#include <sstream>
namespace {
struct GStat { Num n[8]; double d[6]; };                 // velomin velomax velosum degrmin degrmax edlomin edlomax edlosum; veloavg velodlt degravg degrdlt edloavg edlodlt
const char *nname[8] = {"minimum vertex load", "maximum vertex load", "sum of vertex loads", "minimum degree", "maximum degree", "minimum edge load", "maximum edge load", "sum of edge loads"};
const char *dnam[6] = {"average vertex load", "vertex load deviation", "average degree", "degree deviation", "average edge load", "edge load deviation"};
bool near(double a, double b) { return std::isfinite(a) && std::fabs(a - b) <= 1e-4 * std::max(1.0, std::max(std::fabs(a), std::fabs(b))); }
struct One { double mn = 0, mx = 0, sum = 0, avg = 0, dlt = 0; explicit One(const std::vector<double> &v) { if (v.empty()) return; mn = *std::min_element(v.begin(), v.end()); mx = *std::max_element(v.begin(), v.end()); for (double x : v) sum += x; avg = sum / v.size(); for (double x : v) dlt += std::fabs(x - avg); dlt /= v.size(); } };
GStat ref_stat(const RG &g) {
  std::vector<double> ve, de, ed; for (int v = 0; v < g.n; v++) { ve.push_back(g.w(v)); de.push_back(g.adj[v].size()); for (auto &e : g.adj[v]) ed.push_back(g.ew ? e.second : 1); }
  One a(ve), b(de), c(ed); GStat s; Num n[8] = {(Num)a.mn, (Num)a.mx, (Num)a.sum, (Num)b.mn, (Num)b.mx, (Num)c.mn, (Num)c.mx, (Num)(g.ew ? c.sum : c.sum / 2)}; double d[6] = {a.avg, a.dlt, b.avg, b.dlt, c.avg, c.dlt}; memcpy(s.n, n, sizeof n); memcpy(s.d, d, sizeof d); return s;
}
void same_stat(const char *what, const GStat &a, const GStat &b, unsigned mask = ~0u) {
  for (int i = 0; i < 8; i++) if (((mask >> i) & 1) && a.n[i] != b.n[i]) sim_violation("bad-statistics", "%s: %s is %d instead of %d", what, nname[i], a.n[i], b.n[i]);
  for (int i = 0; i < 6; i++) if (((mask >> (8 + i)) & 1) && !near(a.d[i], b.d[i])) sim_violation("bad-statistics", "%s: %s is %g instead of %g", what, dnam[i], a.d[i], b.d[i]);
}
// What a mapping amounts to
struct MStat { long tgt = 0, used = 0, lmin = 0, lmax = 0, nmin = 0, nmax = 0, nsum = 0, load = 0, dilat = 0, expan = 0, dmax = -1; double avg = 0, dlt = 0; long wmin = 0, wmax = 0; std::vector<long> cd = std::vector<long>(256, 0); };
MStat ref_map(const RG &g, const V &part, long tgt, const std::function<long(Num,Num)> &dist, const std::function<long(Num)> &wght) {
  MStat m; m.tgt = tgt; std::map<Num,long> ld; std::map<Num,std::set<Num>> ng;
  for (int v = 0; v < g.n; v++) if (part[v] >= 0) { ld[part[v]] += g.w(v); ng[part[v]]; for (auto &e : g.adj[v]) if (part[e.first] >= 0) { long w = g.ew ? e.second : 1, d = part[v] == part[e.first] ? 0 : dist(part[v], part[e.first]); if (d) ng[part[v]].insert(part[e.first]); else if (part[v] != part[e.first]) ng[part[v]].insert(part[e.first]); m.load += w; m.dilat += d; m.expan += d * w; m.cd[std::min(d, 255L)] += w; } }
  m.used = (long)ld.size(); bool first = true; double sum = 0; for (auto &x : ld) { sum += x.second; long n = (long)ng[x.first].size(); long wl = (long)((double)x.second / (double)wght(x.first) + 0.5); if (first) { m.lmin = m.lmax = x.second; m.nmin = m.nmax = n; m.wmin = m.wmax = wl; } first = false; m.lmin = std::min(m.lmin, x.second); m.lmax = std::max(m.lmax, x.second); m.wmin = std::min(m.wmin, wl); m.wmax = std::max(m.wmax, wl); m.nmin = std::min(m.nmin, n); m.nmax = std::max(m.nmax, n); m.nsum += n; }
  if (m.used) { m.avg = sum / m.used; for (auto &x : ld) m.dlt += std::fabs(x.second - m.avg); m.dlt /= m.used * m.avg; } for (int d = 255; d >= 0 && m.dmax < 0; d--) if (m.cd[d]) m.dmax = d; return m;
}
// Text of the form "M<tab>Key=value ..." turned into numbers by name: every number of a line is kept in order
typedef std::map<std::string, std::vector<double>> Txt;
Txt parse(const std::string &t) { Txt m; std::istringstream is(t); std::string l; while (std::getline(is, l)) { size_t i = 0; std::string key; while (i < l.size() && (l[i] == 'M' || l[i] == 'P') && i == 0) i++; while (i < l.size() && l[i] == '\t') i++; size_t j = i; while (j < l.size() && l[j] != '=' && l[j] != ' ' && l[j] != '\t') j++; key = l.substr(i, j - i); std::vector<double> v; size_t k = j; while (k < l.size()) { const char *p = l.c_str() + k; if ((*p >= '0' && *p <= '9') || *p == '-' || ((*p == 'n' || *p == 'i') && (!strncmp(p, "nan", 3) || !strncmp(p, "inf", 3)))) { char *e; v.push_back(strtod(p, &e)); k = e - l.c_str(); } else k++; } if (!m.insert({key, v}).second) m[key + "#2"] = v; } return m; }
void cmp(const char *what, Txt &t, const std::string &key, size_t i, double want) { auto it = t.find(key); if (it == t.end() || it->second.size() <= i) sim_violation("bad-statistics", "%s: no value number %zu for \"%s\"", what, i, key.c_str()); if (!near(it->second[i], want)) sim_violation("bad-statistics", "%s: value number %zu of \"%s\" is %g instead of %g", what, i, key.c_str(), it->second[i], want); }
void cmp_view(const char *what, Txt &t, const RG &g, const MStat &m, bool weighted, const char *cl) {
  cmp(what, t, "Processors", 0, m.used); cmp(what, t, "Processors", 1, m.tgt); cmp(what, t, "Processors", 2, (double)m.used / m.tgt);
  if (m.used) { cmp(what, t, "Target", 0, weighted ? m.wmin : m.lmin); cmp(what, t, "Target", 1, weighted ? m.wmax : m.lmax); if (!weighted) { cmp(what, t, "Target", 2, m.avg); cmp(what, t, "Target", 3, m.dlt); cmp(what, t, "Target", 4, m.lmax / m.avg); } cmp(what, t, "Neighbors", 0, m.nmin); cmp(what, t, "Neighbors", 1, m.nmax); cmp(what, t, "Neighbors", 2, m.nsum); }
  cmp(what, t, "CommDilat", 0, (double)m.dilat / g.arcs()); cmp(what, t, "CommDilat", 1, m.dilat / 2); cmp(what, t, "CommExpan", 0, m.load ? (double)m.expan / m.load : 0); cmp(what, t, "CommExpan", 1, m.expan / 2); cmp(what, t, "CommCutSz", 0, m.load ? (double)(m.load - m.cd[0]) / m.load : 0); cmp(what, t, "CommCutSz", 1, (m.load - m.cd[0]) / 2);
  for (long d = 0; d <= m.dmax; d++) cmp(what, t, std::string(cl) + "[" + std::to_string(d) + "]", 0, (double)m.cd[d] / m.load); if (t.count(std::string(cl) + "[" + std::to_string(m.dmax + 1) + "]")) sim_violation("bad-statistics", "%s: a distance greater than the largest one is listed", what);
}
}
