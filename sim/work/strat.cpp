#include "strat.h"
typedef std::string T;
static T N(LR &r, int a, int b) { return std::to_string(r.range(a, b)); }
static T BAL(LR &r) { static const char *b[] = {"0.05", "0", "0.2", "0.01", "1"}; return b[r.below(5)]; }
static T RAT(LR &r) { static const char *b[] = {"0.8", "0.7", "0.5", "0.95"}; return b[r.below(4)]; }
static T pick(LR &r, std::initializer_list<const char*> l) { return *(l.begin() + r.below((int)l.size())); }
static T bipleaf(LR &r) { T s = r.chance(3, 4) ? "h{pass=" + N(r, 1, 8) + "}" : r.chance(1, 2) ? "g{pass=" + N(r, 1, 4) + "}" : "z"; if (r.chance(2, 3)) s += "f{bal=" + BAL(r) + ",move=" + N(r, 2, 80) + ",pass=" + (r.chance(1, 2) ? "-1" : N(r, 1, 4)) + ",type=" + pick(r, {"a", "b"}) + "}"; if (r.chance(1, 6)) s += "x"; return s; }
static T wrapcomb(LR &r, const T &a, const T &b) { switch (r.below(4)) { case 0: return "(" + a + "|" + b + ")"; case 1: return "/(vert>" + N(r, 2, 60) + ")?" + a + ":" + b + ";"; default: return a; } }
T st_bip(LR &r, int d) {
  int k = d >= 2 ? 0 : r.below(5);
  switch (k) {
    case 0: return bipleaf(r);
    case 1: { T bnd = r.chance(1, 2) ? "(d{pass=" + N(r, 1, 12) + ",type=" + pick(r, {"b", "k"}) + "}|)f{bal=" + BAL(r) + "}" : "f{bal=" + BAL(r) + ",move=" + N(r, 2, 80) + "}"; return "m{vert=" + N(r, 2, 40) + ",rat=" + RAT(r) + ",low=" + bipleaf(r) + ",asc=b{width=" + N(r, 1, 4) + ",bnd=" + bnd + ",org=" + (r.chance(1, 2) ? "f" : bipleaf(r)) + "}}"; }
    case 2: return wrapcomb(r, st_bip(r, d + 1), st_bip(r, d + 1));
    case 3: return "m{vert=" + N(r, 2, 20) + ",low=" + bipleaf(r) + ",asc=" + (r.chance(1, 2) ? "f" : "f{bal=" + BAL(r) + ",move=" + N(r, 1, 9) + "}") + "}";
    default: return "z" + T(r.chance(1, 2) ? "b{width=" + N(r, 1, 3) + ",bnd=d{pass=10}f,org=h}" : "f") + "|" + bipleaf(r);
  }
}
static T vsepleaf(LR &r) { T s = pick(r, {"h", "h", "g"}); s += "{pass=" + N(r, 1, 8) + "}"; if (r.chance(2, 3)) s += "f{bal=" + BAL(r) + ",move=" + N(r, 2, 100) + ",pass=" + (r.chance(1, 2) ? "-1" : N(r, 1, 4)) + "}"; return s; }
T st_vsep(LR &r, int d) {
  int k = d >= 2 ? 0 : r.below(5);
  switch (k) {
    case 0: return vsepleaf(r);
    case 1: return "m{vert=" + N(r, 2, 40) + ",rat=" + RAT(r) + ",low=" + vsepleaf(r) + ",asc=b{width=" + N(r, 1, 4) + ",bnd=f{bal=" + BAL(r) + "},org=" + (r.chance(1, 2) ? "(|h{pass=3})f" : vsepleaf(r)) + "}}";
    case 2: return wrapcomb(r, st_vsep(r, d + 1), st_vsep(r, d + 1));
    case 3: return "e{strat=" + st_bip(r, 1) + ",type=" + pick(r, {"t", "f"}) + "}" + (r.chance(1, 2) ? "f" : "");
    default: return "m{vert=" + N(r, 2, 30) + ",low=" + vsepleaf(r) + ",asc=f,type=" + pick(r, {"h", "s"}) + "}";
  }
}
static T ordleaf(LR &r) { switch (r.below(6)) { case 0: return "s"; case 1: return "g{pass=" + N(r, 1, 4) + "}"; case 2: return "d{cmin=" + N(r, 0, 8) + ",cmax=100000,frat=" + pick(r, {"0.0", "0.08", "0.5"}) + "}"; case 3: return "b{cmin=" + N(r, 1, 10) + ",strat=" + pick(r, {"s", "g", "f{cmin=3,cmax=1000,frat=0.0}"}) + "}"; default: return "f{cmin=" + N(r, 0, 15) + ",cmax=100000,frat=" + pick(r, {"0.0", "0.08"}) + "}"; } }
T st_hord(LR &r, int d) {
  int k = d >= 2 ? 0 : d == 0 ? r.below(8) : r.below(5);
  switch (k) {
    case 0: return ordleaf(r);
    case 1: case 5: case 6: return "n{sep=/(" + T(r.chance(1, 4) ? "levl<" + N(r, 1, 4) : "vert>" + N(r, 2, 40)) + ")?" + st_vsep(r, d) + ";,ole=" + ordleaf(r) + ",ose=" + pick(r, {"g", "s", "g{pass=3}"}) + "}";
    case 2: return "c{rat=" + pick(r, {"0.7", "0.9", "1", "0.4"}) + ",cpr=" + st_hord(r, d + 1) + ",unc=" + st_hord(r, d + 1) + "}";
    case 3: return "o{strat=" + st_hord(r, d + 1) + "}";
    case 4: return "k{siz=" + N(r, 2, 12) + ",strat=" + "r{sep=" + st_bip(r, 1) + "}" + "}";
    default: return "c{rat=0.7,cpr=n{sep=/(vert>" + N(r, 4, 30) + ")?" + st_vsep(r, 0) + ";,ole=" + ordleaf(r) + ",ose=g},unc=n{sep=/(vert>" + N(r, 4, 30) + ")?" + st_vsep(r, 0) + ";,ole=" + ordleaf(r) + ",ose=g}}";
  }
}
T st_kmap(LR &r, int d) {
  T rb = "r{job=" + pick(r, {"t", "u"}) + ",map=" + pick(r, {"t", "u"}) + ",poli=" + pick(r, {"S", "L", "s", "l", "r"}) + ",bal=" + BAL(r) + ",sep=" + st_bip(r, d) + "}"; T fm = "f{bal=" + BAL(r) + ",move=" + N(r, 2, 60) + ",pass=" + (r.chance(1, 2) ? "-1" : N(r, 1, 3)) + "}", df = "d{pass=" + N(r, 1, 20) + ",dif=1,rem=0}", ex = "x{bal=" + BAL(r) + "}";
  switch (d ? 0 : r.below(7)) {
    case 0: return rb; case 1: return rb + fm; case 2: return rb + ex; case 3: return "c" + T(r.chance(1, 2) ? fm : ex);
    case 4: return "m{vert=" + N(r, 5, 50) + ",rat=" + RAT(r) + ",low=" + rb + ",asc=b{width=" + N(r, 1, 3) + ",bnd=(" + df + "|)" + (r.chance(1, 2) ? fm : ex) + ",org=" + (r.chance(1, 2) ? fm : "") + "}}";
    case 5: return "m{vert=" + N(r, 5, 50) + ",low=" + rb + ",asc=" + (r.chance(1, 2) ? fm : ex + fm) + "}" + (r.chance(1, 2) ? ex : "");
    default: return "(" + rb + "|" + rb + fm + ")";
  }
}
T st_wpart(LR &r, int d) {
  T rb = "r{sep=" + st_vsep(r, 1) + "}", fm = "f{pass=" + N(r, 1, 10) + ",move=" + N(r, 2, 100) + ",bal=" + BAL(r) + "}";
  switch (d ? 0 : r.below(5)) { case 0: return rb; case 1: return rb + fm; case 2: return "m{vert=" + N(r, 4, 40) + ",rat=" + RAT(r) + ",low=" + rb + (r.chance(1, 2) ? fm : "") + ",asc=" + fm + "}"; case 3: return "e{strat=" + st_kmap(r, 1) + "}" + (r.chance(1, 2) ? fm : ""); default: return "(" + rb + fm + "|" + "e{strat=" + st_kmap(r, 1) + "})"; }
}
T st_vmesh(LR &r, int d) {
  T h = "h{pass=" + N(r, 1, 8) + "}", f = "f{pass=" + (r.chance(1, 2) ? "-1" : N(r, 1, 5)) + ",move=" + N(r, 2, 100) + ",bal=" + BAL(r) + "}";
  switch (d ? 0 : r.below(4)) { case 0: return h + (r.chance(2, 3) ? f : ""); case 1: return "m{vnod=" + N(r, 2, 30) + ",rat=" + RAT(r) + ",low=" + h + ",asc=" + f + ",type=" + pick(r, {"h", "s", "n"}) + "}"; case 2: return "v{strat=" + st_vsep(r, 1) + "}"; default: return "(" + h + "|" + h + f + ")"; }
}
T st_hmesh(LR &r, int d) {
  T leaf = ordleaf(r); if (leaf[0] == 'b') leaf = "f{cmin=3,cmax=1000,frat=0.0}";
  switch (d >= 2 ? 0 : r.below(6)) {
    case 0: return leaf; case 1: return "v{strat=" + st_hord(r, 1) + "}"; case 2: return "c{rat=" + pick(r, {"0.7", "1", "0.4"}) + ",cpr=" + st_hmesh(r, d + 1) + ",unc=" + st_hmesh(r, d + 1) + "}"; case 3: return "b{cmin=" + N(r, 1, 8) + ",strat=" + st_hmesh(r, d + 1) + "}";
    default: return "n{sep=/(vnod>" + N(r, 2, 30) + ")?" + st_vmesh(r, d) + ";,ole=" + leaf + ",ose=" + pick(r, {"g", "s"}) + "}";
  }
}
// parallel
static T foldopts(LR &r, bool pass) { T s = ",fold=" + pick(r, {"d", "f", "n"}) + ",dvert=" + N(r, 1, 40) + ",rat=" + RAT(r); if (pass) s += ",pass=" + N(r, 1, 4); return s; }
T st_dsep(LR &r, int d) {
  T sq = "q{strat=" + st_vsep(r, 1) + "}"; int k = d ? r.below(2) : r.below(6);
  switch (k) {
    case 0: return sq;
    case 1: case 2: case 3: { T ref = r.chance(1, 3) ? "q{strat=f}" : r.chance(1, 2) ? "b{width=" + N(r, 1, 4) + ",strat=q{strat=f{bal=" + BAL(r) + "}}}" : "b{width=" + N(r, 1, 3) + ",strat=" + (r.chance(1, 2) ? "d{pass=" + N(r, 1, 20) + ",part=" + N(r, 0, 1) + "}" : "(d{pass=6}|q{strat=f})") + "}"; return "m{vert=" + N(r, 2, 30) + foldopts(r, true) + ",asc=" + ref + ",low=" + (r.chance(3, 4) ? sq : "z") + ",seq=" + sq + "}"; }
    case 4: return "(" + sq + "|" + st_dsep(r, 1) + ")";
    default: return "/(proc>" + N(r, 1, 3) + ")?" + st_dsep(r, 1) + ":" + sq + ";";
  }
}
T st_dord(LR &r, int d) {
  T seq = st_hord(r, 1), sn = "n{sep=/(vert>" + N(r, 3, 20) + ")?" + st_vsep(r, 1) + ";,ole=" + ordleaf(r) + ",ose=g}";
  switch (r.below(8)) { case 0: return "q{strat=" + seq + "}"; case 1: return "s";
    default: return "n{sep=/(" + T(r.chance(1, 3) ? "levl<" + N(r, 1, 4) : "vert>" + N(r, 3, 30)) + ")?" + st_dsep(r, 0) + ";,ole=" + (r.chance(2, 3) ? "q{strat=" + (r.chance(1, 2) ? sn : seq) + "}" : "s") + ",ose=" + (r.chance(2, 3) ? "s" : "q{strat=" + T(r.chance(1, 2) ? "g" : "s") + "}") + ",osq=" + (r.chance(1, 2) ? sn : seq) + "}"; }
}
T st_dbip(LR &r, int d) {
  T sq = "q{strat=" + st_bip(r, 1) + "}"; int k = d ? r.below(2) : r.below(6); T x = r.chance(1, 3) ? "x{bal=" + BAL(r) + ",sbbt=" + N(r, 1, 5) + "}" : "";
  switch (k) {
    case 0: return sq + x;
    case 1: case 2: case 3: { T f = "q{strat=f{bal=" + BAL(r) + "}}", df = "(d{pass=" + N(r, 1, 20) + ",type=" + pick(r, {"b", "k"}) + "}|)"; T asc = r.chance(1, 3) ? f + x : "b{width=" + N(r, 1, 4) + ",bnd=" + (r.chance(1, 2) ? df + f : f) + x + ",org=" + f + x + "}"; return "m{vert=" + N(r, 2, 30) + foldopts(r, true) + ",asc=" + asc + ",low=" + sq + ",seq=" + sq + "}"; }
    case 4: return "(" + sq + "|" + st_dbip(r, 1) + ")";
    default: return "/(proc>" + N(r, 1, 3) + ")?" + st_dbip(r, 1) + ":" + sq + ";";
  }
}
T st_dmap(LR &r, int d) { return "r{bal=" + BAL(r) + ",sep=" + st_dbip(r, 0) + ",seq=" + st_kmap(r, 1) + "}"; }
