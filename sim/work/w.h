// Support for workloads: reference graphs, generators, building and extraction of library objects.
#pragma once
#include "sim.h"
#include "mpi.h"
#include <ptscotch.h>
#include <vector>
#include <string>
#include <map>
#include <set>
#include <algorithm>
#include <functional>
#include <numeric>
#include <cstring>
#include <cstdlib>
typedef SCOTCH_Num Num;
typedef std::vector<Num> V;

// Deterministic local generator, seeded by one configuration choice.
struct LR { uint64_t s; explicit LR(uint64_t x = 0) : s(x * 0x9e3779b97f4a7c15ULL + 12345) {} uint64_t next() { s = sim_hash64(s, 0x51ed27); return s; } int below(int n) { return n <= 1 ? 0 : (int)(next() % (uint64_t)n); } int range(int a, int b) { return a + below(b - a + 1); } bool chance(int num, int den) { return below(den) < num; } };
inline int cfg(int n) { return (int)sim_cfg((uint32_t)(n < 1 ? 1 : n)); }
inline bool coin() { return sim_cfg(2) != 0; }

// Array in simulated user memory: every out-of-bounds access by the library is caught.
template <class T> struct SA { T *p; size_t n;
  SA() : p(nullptr), n(0) {} explicit SA(size_t k) : p(nullptr), n(0) { alloc(k); } SA(const std::vector<T> &v) : p(nullptr), n(0) { alloc(v.size()); if (n) memcpy(p, v.data(), n * sizeof(T)); }
  SA(const SA &) = delete; SA &operator=(const SA &) = delete; SA(SA &&o) : p(o.p), n(o.n) { o.p = nullptr; o.n = 0; } SA &operator=(SA &&o) { if (this != &o) { drop(); p = o.p; n = o.n; o.p = nullptr; o.n = 0; } return *this; }
  ~SA() { drop(); } void drop() { if (p) { wr(); sim_free(p); } p = nullptr; n = 0; }
  void alloc(size_t k) { drop(); n = k; p = (T*)sim_alloc(k * sizeof(T)); } 
  void set(const std::vector<T> &v) { alloc(v.size()); if (n) memcpy(p, v.data(), n * sizeof(T)); }
  void fill(T x) { for (size_t i = 0; i < n; i++) p[i] = x; }
  void ro() { sim_mem_readonly(p, n * sizeof(T)); } void wr() { sim_mem_writable(p, n * sizeof(T)); }
  T &operator[](size_t i) { return p[i]; } const T &operator[](size_t i) const { return p[i]; } operator T*() const { return p; }
  std::vector<T> vec() const { return std::vector<T>(p, p + n); } };
typedef SA<Num> SN;

// Reference graph; vertices 0..n-1, symmetric adjacency without loops or multiple edges.
struct RG { int n = 0; bool vw = false, ew = false, lb = false; V velo, vlbl; std::vector<std::vector<std::pair<int,Num>>> adj; std::string kind;
  Num w(int v) const { return vw ? velo[v] : 1; } long arcs() const { long k = 0; for (auto &a : adj) k += (long)a.size(); return k; } long velosum() const { long s = 0; for (int i = 0; i < n; i++) s += w(i); return s; }
  long edlosum() const { long s = 0; for (auto &a : adj) for (auto &e : a) s += e.second; return s; }
  Num edge(int u, int v) const { for (auto &e : adj[u]) if (e.first == v) return e.second; return 0; }
  int maxdeg() const { size_t d = 0; for (auto &a : adj) d = std::max(d, a.size()); return (int)d; } };
struct GenOpt { int maxn = 200; bool labels = true, weights = true, zerow = true, empty = true, isolated = true, disconnected = true; int minn = 0; };
RG gen_graph(const GenOpt &o);
void sort_adj(RG &g);
bool same_graph(const RG &a, const RG &b, std::string &why);   // adjacency order ignored
RG induced(const RG &g, const std::vector<int> &list);

// Centralized graph in library form
struct CG { Num base; bool compact; SN vert, vend, velo, vlbl, edge, edlo; SCOTCH_Graph g; bool built = false, again = false; int n; Num edgenbr;
  void make(const RG &r, Num base_, bool gaps, uint64_t seed = 1); int build(); void ro(); void wr(); uint64_t hash() const; void exit() { if (built) { SCOTCH_graphExit(&g); built = false; } } };
RG extract(const SCOTCH_Graph *g, Num *basep = nullptr);     // checks the structure while reading it
uint64_t hashv(const void *p, size_t n, uint64_t h = 1);
// Distributed graph
struct Dist { Num base; V start; bool padmax; bool gaps; int procs; int owner(int v) const { int p = 0; while (v >= start[p + 1]) p++; return p; } };
Dist gen_dist(int n, int procs);
struct DG { SN vert, vend, velo, vlbl, edge, edgegst, edlo; SCOTCH_Dgraph g; Num vmax; int lo, ln; 
  int make(const RG &r, const Dist &d, int rank, MPI_Comm comm, uint64_t seed, bool ghost = false); int init(MPI_Comm c); void ro(); void wr(); uint64_t hash() const; void exit(); bool inited = false; };
// Communicator of the run: world, duplicate, reversed ranks, or a subset of the processes
struct CommCfg { int world, procs, mode; }; CommCfg gen_comm(int maxprocs); struct WComm { MPI_Comm c; int rank, size; bool mine, owned; void open(const CommCfg &g); void close(); };
struct DPiece { Num base, vertglbnbr, vertlocnbr, vertlocmax, vertgstnbr, edgeglbnbr, edgelocnbr; bool vw, ew, lb; V velo, vlbl; std::vector<std::vector<std::pair<Num,Num>>> adj; bool hasgst; };   // adjacency in global (0-based) numbers
DPiece dextract(const SCOTCH_Dgraph *g);
struct DWhole { RG g; V start, glb; std::vector<int> owner; };         // dense graph, first dense index and first global number per process
bool assemble(const std::vector<DPiece> &p, DWhole &w, std::string &why);
// Context with threads
struct CX { SCOTCH_Context c; bool on = false; int init(int threads, int det, int randclone, Num seed); void exit() { if (on) { SCOTCH_contextExit(&c); on = false; } } };
void viol_graph(const char *kind, const char *what, const RG &a, const RG &b);
#define REQUIRE(c, kind, ...) do { if (!(c)) sim_violation (kind, __VA_ARGS__); } while (0)
#define OKCALL(call) do { int r_ = (call); if (r_ != 0) sim_violation ("call-failed", "%s returned %d (%s)", #call, r_, sim_err_last (sim_rank ())); } while (0)
struct Reg { Reg(SimWorkload *w); };
#ifdef SIM_FORT                                   /* The same workloads through the Fortran interface */
#define WORKLOAD(id, sub, weight, members, setup, main, check) static SimWorkload wl_##id##_##setup = { "C27", #id "-" sub, weight, members, setup, main, check }; static Reg rg_##id##_##setup (&wl_##id##_##setup);
#define ALSO07(sub, weight, setup, main)
#else
#define WORKLOAD(id, sub, weight, members, setup, main, check) static SimWorkload wl_##id##_##setup = { #id, sub, weight, members, setup, main, check }; static Reg rg_##id##_##setup (&wl_##id##_##setup);
// The same workload under C07, where only what the simulated machine and MPI library object to counts
#define ALSO07(sub, weight, setup, main) static void setup##_07() { sim_knobs.runtime_only = 1; setup(); } WORKLOAD(C07, sub, weight, 1, setup##_07, main, nullptr)
#endif
template <class T> T *newshared() { T *t = new T(); sim_shared = t; return t; }
template <class T> T &shared() { return *(T*)sim_shared; }
int mpi_begin();            // initializes MPI with the level of the run and returns the rank
void mpi_end();
void publish_v(int slot, const V &v);
// Ordering and mapping oracles
void check_perm(const char *what, const Num *perm, const Num *peri, int n, Num base);
void check_blocks(const char *what, Num cblk, const Num *rang, const Num *tree, int n, Num base);
void check_sep(const char *what, const RG &g, const Num *perm, Num cblk, const Num *rang, const Num *tree, Num base);
