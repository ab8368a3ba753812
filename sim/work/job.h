// Centralized computations on a graph or mesh: generation, execution with a context, and validity of the result.
#pragma once
#include "w.h"
#include "strat.h"
struct ArchSpec { int t = 0; V p; RG g; int n = 1; std::string str() const; };
ArchSpec gen_arch(LR &r, int maxparts, bool var = true);
struct Arch { SCOTCH_Arch a, par; bool sub = false; CG *cg = nullptr; SN list; int build(const ArchSpec &s); void exit(); };
struct RM { int ne = 0, nn = 0; bool elemfirst = true, vw = false, nw = false, lb = false; std::vector<std::vector<int>> en; V velo, vnlo, vlbl; RG nodes() const; };   // elements and their nodes; node weights in vnlo
RM gen_mesh(int maxe);
struct CM { Num base; SN vert, vend, velo, vnlo, vlbl, edge; SCOTCH_Mesh m; bool built = false; Num ebas, nbas, edgenbr; void make(const RM &r, Num base, bool gaps, uint64_t seed); int build(); void ro(); void wr(); uint64_t hash() const; void exit() { if (built) { SCOTCH_meshExit(&m); built = false; } } };
enum { J_ORDER, J_PART, J_OVL, J_COARSE, J_MESH, J_COLOR, J_NB };
struct Job { int kind = 0; SCOTCH_Strat *pre = nullptr /* strategy set beforehand, if any */; RG g; RM m; Num base = 0; bool gaps = false; uint64_t gs = 0; int smode = 0; Num sflags = 0; double bal = 0; std::string str; bool arch = false; ArchSpec a; Num parts = 1; bool fixed = false, remap = false, vmlonull = false, wide = false; V fix, old, vmlo; double emra = 0; Num minn = 1; double ratio = 1; Num cflags = 0; bool list = false; V lst; Num levl = 0; double dens = 0; Num pwgt = 0;
  std::string desc() const; };
Job gen_job(int kind, int maxn);
Job gen_job_on(int kind, const RG &g, Num base, bool gaps, uint64_t gs);          // on a given graph
int job_strat(const Job &j, SCOTCH_Strat &st);                                      // sets the strategy of the job
int run_job(const Job &j, SCOTCH_Graph *g, SCOTCH_Mesh *m, V &out, int *created = nullptr);      // returns the status of the library; out is only meaningful on success
void check_job(const Job &j, const V &out);
