// Internal interface of the simulator executable.
#pragma once
#include "sim.h"
#include <cstring>
#include <cstdlib>
#include <string>
#include <vector>
#include <deque>
#include <map>
#include <unordered_map>
#include <functional>
#include <algorithm>

typedef uint64_t u64; typedef uint32_t u32; typedef uint8_t u8;

static inline u64 mix64(u64 x){ x ^= x >> 30; x *= 0xbf58476d1ce4e5b9ULL; x ^= x >> 27; x *= 0x94d049bb133111ebULL; x ^= x >> 31; return x; }
struct Rng { u64 s; u64 next(){ s += 0x9e3779b97f4a7c15ULL; return mix64(s); }
  u32 below(u32 n){ return n <= 1 ? 0 : (u32)(next() % n); }
  double unit(){ return (double)(next() >> 11) * (1.0 / 9007199254740992.0); } };

static const int MAXRANKS = 8;
static const int MAXPROBES = 192, MAXPUB = 2048;

// One decision of the run, when it differs from the default.
struct Dec { u64 idx; u32 val; char stream; char pad[3]; };

struct Probe { char name[48]; long n; };
struct Pub { int slot; u32 len; u64 hash; };

// Shared between the process of a run and its worker.
struct Result {
  int status;                 // 0: died without verdict, 1: ok, 2: violation
  char kind[64];
  char where[160];
  char msg[6000];
  u64 hash, schedhash, statehash;
  u64 nacc, nsched, nswitch, npreempt, ndeliver, nmsg, ncoll, nspurious, simtime_us;
  u64 nalloc, nallocfail, nthread, nthreadfail, niofault, nlate, nrndv, nany;
  u64 ncfg, nsdec, nfdec;
  int nprobe; Probe probe[MAXPROBES];
  int npub; Pub pub[MAXPUB];
  u64 ndec; u64 maxdec; bool decoverflow;
  char cfgdesc[1200];
  Dec dec[1];
};

struct RunSpec {
  std::string sub; int widx; u64 seed; int member; bool replay;
  std::vector<Dec> decs;      // when replay
  long prev_nalloc, prev_nthread, prev_io;   // counters of member 0, for fault placement
};

enum FState { F_RUN, F_BLOCK, F_DONE };
enum { SS_MAX = 400 };
struct Fiber {
  int id, rank, tid; FState st; void *sp; char *stk; size_t stksz;
  void *(*fn)(void *); void *arg; void *ret; bool detached, joined, ismain;
  const void *waitobj; const char *why; bool spurable, woken_spur;
  u64 prio; bool slow; int atomic; int noinject;
  u64 consec_acc0; u64 consec_pts; 
  int depth; uintptr_t ss[SS_MAX];
  u64 rdv; int err; u64 aff; u64 delay;
};

extern Result *R; extern uintptr_t node_base[MAXRANKS + 1], node_end[MAXRANKS + 1];
extern RunSpec *SPEC;
extern Fiber *cur;
extern std::vector<Fiber*> fibers;
extern int g_nranks;
extern bool g_inrun;
extern u64 g_clock_us;

u32 sdec(u32 n, double pnz);             // scheduling/network decision, 0 default
u32 fdec(u32 n, double pnz);             // fault decision, 0 default
void sched_point(const char *what);      // scheduling opportunity
void block_on(const void *obj, const char *why, bool spurable=false);
void wake_all(const void *obj);
bool wake_one(const void *obj, u32 k);
int  count_waiters(const void *obj);
Fiber *fiber_new(int rank, void *(*fn)(void *), void *arg);
void fiber_exit(void *ret);
void hmix(u64 x);
void hbytes(const void *p, size_t n);
void probe(const char *name, long n = 1);
bool addr_ok(const void *p, size_t n, bool write);  // heap shadow check, no report
void check_range(const void *p, size_t n, bool write, const char *what);
[[noreturn]] void violation(const char *kind, const char *fmt, ...) __attribute__((format(printf,2,3)));
std::string symname(uintptr_t pc);
std::string stackstr(Fiber *f, int n = 12);
void mpi_reset(); void mpi_rank_finish(int rank); void mpi_final_check();
bool mpi_deliver_some(bool force);       // delivers a pending message; false when nothing pending
std::string mpi_describe();
void io_reset(); void thr_reset(); std::string io_describe();
void run_child(RunSpec &spec);           // never returns
void mem_freed_range(void *p, size_t n); // called before memory is released
extern std::vector<SimWorkload*> WL;     // workloads of copy 0
extern std::vector<std::vector<SimWorkload*>> WLR; // per copy
struct CurNoPreempt { CurNoPreempt(){ if(cur) cur->atomic++; } ~CurNoPreempt(){ if(cur) cur->atomic--; } };
