// Simulator core: decisions, fibers, scheduler, memory and instrumentation hooks.
#include "core.h"
#include <sys/mman.h>
#include <signal.h>
#include <unistd.h>
#include <errno.h>
#include <stdarg.h>
#include <sys/time.h>
#include <ucontext.h>

Result *R; RunSpec *SPEC; Fiber *cur; std::vector<Fiber*> fibers; int g_nranks; bool g_inrun; u64 g_clock_us;
SimKnobs sim_knobs; SimIo sim_io; void *sim_shared;
extern "C" double sim_ptop_rat(void){ return sim_knobs.ptop; }
std::vector<SimWorkload*> WL; std::vector<std::vector<SimWorkload*>> WLR;

static void *mainsp;                      // scheduler context (the process' own stack)
static Rng rc, rs, rf, rp, rm;            // config, schedule, fault, preempt, memory fill
static std::unordered_map<u64,u32> mc, ms, mf; static std::vector<std::pair<u64,u32>> mp; static size_t mpi_;
static long g_left = 0x7fffffffffffffffL; static u64 g_base;   // access countdown
static int pol; static double p_sw, p_del; static u64 gapmean; static int fillmode; static u64 fillseed;
static int netmode; static u64 forced_acc = 300000, forced_pts = 3000;
static u64 preempt_budget;
uintptr_t node_base[MAXRANKS + 1], node_end[MAXRANKS + 1];
static bool g_race, g_racehit; static int race_mode; static double race_q; static u64 race_delay;

// ---------------------------------------------------------------- decisions
static void addec(char s, u64 idx, u32 v){
  if (R->ndec < R->maxdec) { Dec &d = R->dec[R->ndec++]; d.idx = idx; d.val = v; d.stream = s; }
  else R->decoverflow = true;
}
extern "C" uint32_t sim_cfg(uint32_t n){
  u64 i = R->ncfg++; u32 v = 0;
  if (SPEC->replay) { auto it = mc.find(i); if (it != mc.end()) v = it->second; if (n) v %= n; }
  else v = rc.below(n);
  if (v) addec('c', i, v);
  hmix(v); return v;
}
u32 sdec(u32 n, double pnz){
  if (n <= 1) return 0;
  u64 i = R->nsdec++; u32 v = 0;
  if (SPEC->replay) { auto it = ms.find(i); if (it != ms.end()) v = it->second % n; }
  else if (sim_knobs.sched && rs.unit() < pnz) v = 1 + rs.below(n - 1);
  if (v) addec('s', i, v);
  return v;
}
static u32 sdec_val(u32 n, u32 want){      // decision whose value the policy has already chosen
  u64 i = R->nsdec++; u32 v = want;
  if (SPEC->replay) { v = 0; auto it = ms.find(i); if (it != ms.end()) v = it->second % n; }
  else if (!sim_knobs.sched) v = 0;
  if (v) addec('s', i, v);
  return v;
}
u32 fdec(u32 n, double pnz){
  if (n <= 1) return 0;
  u64 i = R->nfdec++; u32 v = 0;
  if (SPEC->replay) { auto it = mf.find(i); if (it != mf.end()) v = it->second % n; }
  else if (rf.unit() < pnz) v = 1 + rf.below(n - 1);
  if (v) addec('f', i, v);
  hmix(v + 77); return v;
}
extern "C" uint32_t sim_fault_choose(uint32_t n){
  if (n <= 1) return 0;
  u64 i = R->nfdec++; u32 v = 0;
  if (SPEC->replay) { auto it = mf.find(i); if (it != mf.end()) v = it->second % n; }
  else v = rf.below(n);
  if (v) addec('f', i, v);
  hmix(v + 78); return v;
}
extern "C" uint64_t sim_hash64(uint64_t a, uint64_t b){ return mix64(a * 0x9e3779b97f4a7c15ULL + mix64(b + 0x1234567)); }
void hmix(u64 x){ R->hash = mix64(R->hash * 31 + x + 1); }
void hbytes(const void *p, size_t n){ u64 h = 1469598103934665603ULL; const u8 *b = (const u8*)p; for (size_t i = 0; i < n; i++) h = (h ^ b[i]) * 1099511628211ULL; hmix(h); }
void probe(const char *name, long n){
  for (int i = 0; i < R->nprobe; i++) if (!strcmp(R->probe[i].name, name)) { R->probe[i].n += n; return; }
  if (R->nprobe < MAXPROBES) { Probe &p = R->probe[R->nprobe++]; snprintf(p.name, sizeof p.name, "%s", name); p.n = n; }
}
extern "C" void sim_probe(const char *n){ probe(n, 1); }
extern "C" void sim_count(const char *n, long k){ probe(n, k); }
extern "C" void sim_state(uint64_t h){ R->statehash = mix64(R->statehash + h); }
extern "C" void sim_publish(int slot, const void *data, size_t size){
  u64 h = 1469598103934665603ULL; const u8 *b = (const u8*)data; for (size_t i = 0; i < size; i++) h = (h ^ b[i]) * 1099511628211ULL;
  hmix(h + slot);
  if (R->npub < MAXPUB) { Pub &p = R->pub[R->npub++]; p.slot = slot; p.len = (u32)size; p.hash = h; }
}
static bool g_verbose = getenv("SIM_VERBOSE") != nullptr;
extern "C" void sim_log(const char *fmt, ...){
  if (!g_verbose) return; va_list a; va_start(a, fmt); fprintf(stderr, "[r%d f%d] ", cur ? cur->rank : -1, cur ? cur->id : -1); vfprintf(stderr, fmt, a); fputc('\n', stderr); va_end(a);
}

extern "C" void sim_describe(const char *fmt, ...){ size_t n = strlen(R->cfgdesc); va_list a; va_start(a, fmt); vsnprintf(R->cfgdesc + n, sizeof R->cfgdesc - n, fmt, a); va_end(a); }
extern "C" long sim_prev_allocs(void){ return SPEC->prev_nalloc; }
extern "C" long sim_prev_threads(void){ return SPEC->prev_nthread; }

// ---------------------------------------------------------------- violations
static void finish(int status){
  R->status = status; R->nacc = g_base - (u64)g_left; R->simtime_us = g_clock_us;
  _exit(0);
}
extern "C" void sim_end_run(void){ g_inrun = false; finish(1); }
static std::string libtop(Fiber *f){
  if (!f || f->depth <= 0) return "";
  int d = f->depth > SS_MAX ? SS_MAX : f->depth; return symname(f->ss[d - 1]);
}
static void violation_v(const char *kind, const char *where, const char *fmt, va_list a){
  static int once = 0; if (once++) _exit(0);
  g_inrun = false;
  snprintf(R->kind, sizeof R->kind, "%s", kind);
  snprintf(R->where, sizeof R->where, "%s", where);
  int n = vsnprintf(R->msg, sizeof R->msg, fmt, a);
  if (n < 0) n = 0; if ((size_t)n > sizeof R->msg - 1) n = sizeof R->msg - 1;
  std::string s = "\n  at rank " + std::to_string(cur ? cur->rank : -1) + " fiber " + std::to_string(cur ? cur->id : -1) + ": " + stackstr(cur);
  snprintf(R->msg + n, sizeof R->msg - n, "%s", s.c_str());
  finish(2);
}
void violation(const char *kind, const char *fmt, ...){ va_list a; va_start(a, fmt); std::string w = libtop(cur); violation_v(kind, w.c_str(), fmt, a); _exit(0); }
extern "C" void sim_violation(const char *kind, const char *fmt, ...){ if (sim_knobs.runtime_only && strncmp(kind, "mpi-", 4) && strncmp(kind, "status-", 7)) { static int once = 0; if (once++) _exit(0); g_inrun = false; probe("ended-by-content", 1); finish(1); } va_list a; va_start(a, fmt); std::string w = libtop(cur); violation_v(kind, w.c_str(), fmt, a); _exit(0); }
static void violation_at(const char *kind, const std::string &where, const char *fmt, ...){ va_list a; va_start(a, fmt); violation_v(kind, where.c_str(), fmt, a); _exit(0); }
std::string stackstr(Fiber *f, int n){
  std::string s; if (!f) return "(none)"; int d = f->depth > SS_MAX ? SS_MAX : f->depth;
  for (int i = d - 1; i >= 0 && n-- > 0; i--) { if (!s.empty()) s += " < "; s += symname(f->ss[i]); }
  return s.empty() ? "(workload)" : s;
}

// ---------------------------------------------------------------- fibers
extern "C" void sim_switch(void **save, void *to);
asm(R"(
.text
.globl sim_switch
.type sim_switch,@function
sim_switch:
  pushq %rbp
  pushq %rbx
  pushq %r12
  pushq %r13
  pushq %r14
  pushq %r15
  subq $8,%rsp
  stmxcsr (%rsp)
  fnstcw 4(%rsp)
  movq %rsp,(%rdi)
  movq %rsi,%rsp
  ldmxcsr (%rsp)
  fldcw 4(%rsp)
  addq $8,%rsp
  popq %r15
  popq %r14
  popq %r13
  popq %r12
  popq %rbx
  popq %rbp
  ret
.size sim_switch,.-sim_switch
)");
static const size_t STK = 2u << 20; static char *stkbase = (char*)0x300000000000ULL; static int nstk;
static std::vector<char*> freestk;
static void fiber_entry(){
  Fiber *f = cur; void *r = f->fn(f->arg); fiber_exit(r); abort();
}
Fiber *fiber_new(int rank, void *(*fn)(void *), void *arg){
  Fiber *f = new Fiber(); memset(f, 0, sizeof *f);
  f->id = (int)fibers.size(); f->rank = rank; f->fn = fn; f->arg = arg; f->st = F_RUN;
  if (!freestk.empty()) { f->stk = freestk.back(); freestk.pop_back(); }
  else {
    char *a = stkbase + (size_t)nstk++ * (STK + 65536);
    void *p = mmap(a, STK, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE | MAP_FIXED_NOREPLACE, -1, 0);
    if (p != (void*)a) { fprintf(stderr, "simx: cannot map stack\n"); _exit(3); }
    f->stk = a;
  }
  f->stksz = STK;
  void **sp = (void**)(f->stk + STK - 64);
  *--sp = nullptr;                          // alignment: at entry rsp%16==8
  *--sp = (void*)fiber_entry;
  for (int i = 0; i < 6; i++) *--sp = nullptr;
  --sp; { u32 mx; unsigned short cw; asm volatile("stmxcsr %0" : "=m"(mx)); asm volatile("fnstcw %0" : "=m"(cw)); ((u32*)sp)[0] = mx; ((u32*)sp)[1] = cw; }
  f->sp = sp;
  f->prio = sim_hash64(fillseed + 99, f->id) | 1; 
  f->slow = (pol == 2) && (sim_hash64(fillseed + 7, (u64)f->rank * 64 + f->tid + f->id) % 3 == 0);
  fibers.push_back(f);
  hmix(f->id + 1000);
  return f;
}
static void switch_to(Fiber *f){
  if (f == cur) return;
  Fiber *o = cur; R->nswitch++; R->schedhash = mix64(R->schedhash * 3 + f->id + 1 + (g_base - (u64)g_left) * 131);
  hmix(f->id + 5);
  o->err = errno; f->consec_acc0 = g_base - (u64)g_left; f->consec_pts = 0;
  cur = f; sim_switch(&o->sp, f->sp); errno = cur->err;
}
[[noreturn]] static void deadlock(){
  std::string s; 
  for (auto f : fibers) if (f->st != F_DONE) { s += "\n  rank " + std::to_string(f->rank) + " fiber " + std::to_string(f->id) + " blocked in " + (f->why ? f->why : "?") + ": " + stackstr(f, 8); }
  s += mpi_describe();
  std::string w; for (auto f : fibers) if (f->st == F_BLOCK) { w = libtop(f); break; }
  violation_at("deadlock", w, "deadlock: no process or thread can proceed%s", s.c_str()); _exit(0);
}
// Chooses who runs next. curok: the current fiber may continue. forced: prefer another one.
static void schedule(bool curok, bool forced){
  static std::vector<Fiber*> c; 
  R->nsched++;
  for (;;) {
    if (netmode) mpi_deliver_some(false);
    c.clear();
    if (curok && !forced) c.push_back(cur);
    size_t n = fibers.size(), b = cur->id;
    for (size_t k = 1; k < n; k++) { Fiber *f = fibers[(b + k) % n]; if (f->st == F_RUN) c.push_back(f); }
    if (curok && forced) c.push_back(cur);
    if (!curok && cur->st == F_RUN) c.push_back(cur);   // woken while looking
    if (!c.empty()) break;
    if (mpi_deliver_some(true)) { if (cur->st == F_RUN) { curok = true; } continue; }
    deadlock();
  }
  size_t nreal = c.size();
  if (sim_knobs.spurious) for (auto f : fibers) if (f->st == F_BLOCK && f->spurable) c.push_back(f);
  if (c.size() == 1) { switch_to(c[0]); return; }
  u32 want = 0;
  if (!SPEC->replay && sim_knobs.sched) {
    if (c.size() > nreal && rs.unit() < 0.02) want = nreal + rs.below(c.size() - nreal);
    else if ((R->nsched & 0x1fff) >= 0x1e00) want = rs.below(nreal);   // fairness: nobody is starved for ever
    else if (g_race && [&]{ u64 now = g_base - (u64)g_left; u32 ok[256], k = 0; bool any = false; for (u32 i = 0; i < nreal && k < 256; i++) if (c[i]->delay > now) any = true; else ok[k++] = i; if (!any || !k) return false; if (c[0] == cur && cur->delay <= now && rs.unit() >= p_sw) want = 0; else want = ok[rs.below(k)]; return true; }()) ;
    else switch (pol) {
      case 0: if (c[0] == cur && rs.unit() >= p_sw) want = 0; else want = rs.below(nreal); break;
      case 1: { u64 best = 0; for (u32 i = 0; i < nreal; i++) if (c[i]->prio > best) { best = c[i]->prio; want = i; }
                if (forced && c[want] == cur) { cur->prio = 1 + rs.below(1000); want = rs.below(nreal); } } break;
      case 2: { u32 ok[256], k = 0; for (u32 i = 0; i < nreal && k < 256; i++) if (!c[i]->slow) ok[k++] = i;
                if (forced) want = rs.below(nreal);
                else if (k) { if (c[0] == cur && !cur->slow && rs.unit() >= p_sw) want = 0; else want = ok[rs.below(k)]; }
                else want = rs.below(nreal); } break;
      default: want = (nreal > 1 && c[0] == cur) ? 1 : 0; break;
    }
  }
  u32 v = sdec_val((u32)c.size(), want);
  Fiber *f = c[v];
  if (f->st == F_BLOCK) { f->st = F_RUN; f->woken_spur = true; f->waitobj = nullptr; R->nspurious++; hmix(4242 + f->id); }
  switch_to(f);
}
void sched_point(const char *what){
  if (!g_inrun || !cur || cur->atomic) return;
  g_clock_us++;
  cur->consec_pts++;
  bool forced = cur->consec_pts > forced_pts || (g_base - (u64)g_left) - cur->consec_acc0 > forced_acc;
  if (forced) { cur->consec_pts = 0; cur->consec_acc0 = g_base - (u64)g_left; }
  schedule(true, forced);
}
extern "C" void sim_yield(void){ sched_point("yield"); }
void block_on(const void *obj, const char *why, bool spurable){
  cur->st = F_BLOCK; cur->waitobj = obj; cur->why = why; cur->spurable = spurable; cur->woken_spur = false;
  schedule(false, false);
}
void wake_all(const void *obj){ for (auto f : fibers) if (f->st == F_BLOCK && f->waitobj == obj) { f->st = F_RUN; f->waitobj = nullptr; f->spurable = false; } }
int count_waiters(const void *obj){ int n = 0; for (auto f : fibers) if (f->st == F_BLOCK && f->waitobj == obj) n++; return n; }
bool wake_one(const void *obj, u32 k){ for (auto f : fibers) if (f->st == F_BLOCK && f->waitobj == obj && k-- == 0) { f->st = F_RUN; f->waitobj = nullptr; f->spurable = false; return true; } return false; }
static int ranks_done;
void fiber_exit(void *ret){
  cur->ret = ret; cur->st = F_DONE; hmix(cur->id + 2000);
  wake_all(cur);
  if (cur->ismain) { mpi_rank_finish(cur->rank); ranks_done++; }
  bool all = true; for (auto f : fibers) if (f->st != F_DONE) { all = false; break; }
  if (all) { Fiber *o = cur; cur = nullptr; sim_switch(&o->sp, mainsp); }
  freestk.push_back(cur->stk);   // stack is reused only after we switched away: next fiber_new happens later
  schedule(false, false);
  abort();
}
extern "C" int sim_rank(void){ return cur ? cur->rank : -1; }
extern "C" int sim_ranks(void){ return g_nranks; }
extern "C" void sim_set_ranks(int n){ g_nranks = n; }
extern "C" int sim_member(void){ return SPEC->member; }
extern "C" int sim_fiber(void){ return cur ? cur->id : -1; }
extern "C" void sim_atomic_begin(void){ if (cur) cur->atomic++; }
extern "C" void sim_atomic_end(void){ if (cur) cur->atomic--; }
extern "C" void sim_noinject(int on){ if (cur) cur->noinject += on ? 1 : -1; }
extern "C" long sim_other_fibers(int rank){ long n = 0; for (auto f : fibers) if (f != cur && f->rank == rank && f->st != F_DONE) n++; return n; }

// ---------------------------------------------------------------- preemption at memory accesses
static void arm(){
  u64 now = g_base - (u64)g_left; long gap;
  if (SPEC->replay) {
    while (mpi_ < mp.size() && mp[mpi_].first <= now) mpi_++;
    gap = mpi_ < mp.size() ? (long)(mp[mpi_].first - now) : 0x3fffffffffffffffL;
  } else if (sim_knobs.preempt && gapmean && preempt_budget) {
    double u = rp.unit(); gap = 1 + (long)(-(double)gapmean * __builtin_log(1.0 - u));
  } else gap = 0x3fffffffffffffffL;
  long maxgap = (long)(sim_knobs.maxacc > now ? sim_knobs.maxacc - now : 1);
  if (maxgap < 1) maxgap = 1;
  if (cur) { long fg = (long)(cur->consec_acc0 + forced_acc) - (long)now; if (fg < 1) fg = 1; if (gap > fg) gap = fg; }
  if (gap > maxgap) gap = maxgap;
  g_base = now + gap; g_left = gap;
}
static __attribute__((noinline)) void hook_slow(){
  // here g_left == 0
  u64 now = g_base - (u64)g_left;
  if (!g_inrun || !cur) { arm(); return; }
  if (now >= sim_knobs.maxacc) {
    std::string s; for (auto f : fibers) if (f->st != F_DONE) s += "\n  rank " + std::to_string(f->rank) + " fiber " + std::to_string(f->id) + (f->st == F_BLOCK ? std::string(" blocked in ") + (f->why ? f->why : "?") : " running") + ": " + stackstr(f, 8);
    violation_at("no-progress", libtop(cur), "no termination within %llu memory accesses (policy %d)%s", (unsigned long long)sim_knobs.maxacc, pol, s.c_str());
  }
  bool want;
  if (SPEC->replay) { want = mpi_ < mp.size() && mp[mpi_].first == now; }
  else want = (sim_knobs.preempt && gapmean && preempt_budget) || g_racehit;
  bool hit = g_racehit; g_racehit = false;
  bool forced = (now - cur->consec_acc0) >= forced_acc;
  if (cur->atomic) { if (forced) cur->consec_acc0 = now; arm(); return; }
  if (want || forced) {
    int others = 0; for (auto f : fibers) if (f != cur && f->rank == cur->rank && f->st != F_DONE) { others++; break; }
    if (!others && !forced) { arm(); return; }
    if (!others && g_nranks == 1) { cur->consec_acc0 = now; arm(); return; }
    u32 pv = SPEC->replay ? (want ? mp[mpi_].second : 0) : hit ? 1 : pol == 1 ? 2 : 1;   // 1: to another thread if possible, 2: as priorities say
    if (want && !forced) {
      addec('p', now, pv); R->npreempt++; if (preempt_budget) preempt_budget--;
      if (hit) cur->delay = now + 1 + rp.below((u32)race_delay);
      else if (!SPEC->replay && pol == 1) cur->prio = 1 + (cur->prio >> (1 + rp.below(20)));   // PCT: priority change point
    }
    cur->consec_acc0 = now; 
    Fiber *me = cur; me->atomic++; arm(); me->atomic--;
    schedule(true, forced || pv == 1);
    return;
  }
  arm();
}

// ---------------------------------------------------------------- heap
static char *const HEAP = (char*)0x100000000000ULL; static const size_t ARENA = 1ULL << 30; static const int NARENA = MAXRANKS + 1;
static u8 *const SHADOW = (u8*)0x200000000000ULL;
static const u64 HEAPSZ = (u64)ARENA * NARENA;
struct Blk { u32 size; u8 user, pad; short rank; Blk *prev, *next; u32 cls; u32 id; uintptr_t pc[3]; };  // 64 bytes
static_assert(sizeof(Blk) <= 64, "Blk");
struct Arena { u64 off; long live, livebytes; Blk head; std::map<u32, std::vector<char*>> freel; std::deque<Blk*> quar; size_t quarsz; };
static Arena ar[NARENA];
static long allocidx, allocfailed;
static inline u8 *shadow(const void *p){ return SHADOW + (((u64)p - (u64)HEAP) >> 3); }
static inline bool inheap(const void *p){ return (u64)p - (u64)HEAP < HEAPSZ; }
static void setshadow(char *p, size_t n){ memset(shadow(p), 8, n >> 3); if (n & 7) *shadow(p + (n & ~7ULL)) = n & 7; }
static u32 clsof(u32 n){ if (n <= 1024) return (n + 63) & ~63u; u32 s = 1024; while (s < n) { for (int k = 1; k <= 4; k++) if (s + s / 4 * k >= n) return (s + s / 4 * k + 63) & ~63u; s *= 2; } return s; }
static void *heap_alloc(int rank, size_t n, bool user, u32 id){
  if (n > (ARENA >> 1)) return nullptr;
  Arena &A = ar[rank < 0 ? MAXRANKS : rank];
  u32 need = clsof((u32)n + 64 + 32); char *b;
  auto it = A.freel.find(need);
  if (it != A.freel.end() && !it->second.empty()) { b = it->second.back(); it->second.pop_back(); }
  else { if (A.off + need > ARENA) return nullptr; b = HEAP + (u64)(&A - ar) * ARENA + A.off; A.off += need; }
  Blk *h = (Blk*)b; char *p = b + 64;
  memset(shadow(b), 0, need >> 3);
  h->size = (u32)n; h->user = user; h->rank = rank; h->cls = need; h->id = id;
  for (int i = 0; i < 3; i++) h->pc[i] = (cur && cur->depth - 1 - i >= 0 && cur->depth <= SS_MAX) ? cur->ss[cur->depth - 1 - i] : 0;
  h->prev = &A.head; h->next = A.head.next; if (h->next) h->next->prev = h; A.head.next = h;
  setshadow(p, n);
  if (!user) { A.live++; A.livebytes += n; }
  switch (fillmode) {
    case 0: memset(p, 0xCB, n); break;
    case 1: memset(p, 0, n); break;
    case 2: memset(p, 0xFF, n); break;
    case 3: { u64 x = fillseed + id; for (size_t i = 0; i + 4 <= n; i += 4) { x = x * 6364136223846793005ULL + 1442695040888963407ULL; *(u32*)(p + i) = (u32)(x >> 33) & 0x1f; } } break;
    default: { u64 x = fillseed + id; for (size_t i = 0; i + 4 <= n; i += 4) { x = x * 6364136223846793005ULL + 1442695040888963407ULL; *(u32*)(p + i) = (u32)(x >> 31); } } break;
  }
  return p;
}
static Blk *blk_of(void *p, const char *what){
  if (!inheap(p)) violation("bad-free", "%s of a pointer that was not allocated", what);
  Blk *h = (Blk*)((char*)p - 64); u8 s = *shadow(p);
  if (h->size == 0xFFFFFFFFu || s == 0xFD) violation("double-free", "%s of memory already freed", what);
  if (((u64)p & 15) || h->cls == 0 || (h->size && (s == 0 || s > 40))) violation("bad-free", "%s of a pointer inside a block", what);
  return h;
}
static void heap_free(void *p){
  Blk *h = blk_of(p, "free"); Arena &A = ar[h->rank < 0 ? MAXRANKS : h->rank];
  mem_freed_range(p, h->size);
  h->prev->next = h->next; if (h->next) h->next->prev = h->prev;
  if (!h->user) { A.live--; A.livebytes -= h->size; }
  memset(p, 0xDD, h->size < 4096 ? h->size : 4096);
  memset(shadow(p), 0xFD, (h->size + 7) >> 3);
  h->size = 0xFFFFFFFFu;
  A.quar.push_back(h); A.quarsz += h->cls;
  while (A.quarsz > (6u << 20) && A.quar.size() > 64) { Blk *o = A.quar.front(); A.quar.pop_front(); A.quarsz -= o->cls; A.freel[o->cls].push_back((char*)o); }
}
static int currank(){ return cur ? cur->rank : -1; }
static bool refuse(size_t n){
  long i = allocidx++; if (sim_knobs.maxalloc > 0 && n > (size_t)sim_knobs.maxalloc) { sim_log("allocation of %zu bytes refused", n); probe("alloc.too_large"); return true; }
  if (!cur || cur->noinject) return false;
  if (sim_knobs.fail_alloc >= 0 && i >= sim_knobs.fail_alloc && i < sim_knobs.fail_alloc + sim_knobs.fail_alloc_len) { allocfailed++; R->nallocfail++; hmix(9911); sim_log("allocation %ld refused in %s", i, stackstr(cur, 6).c_str()); return true; }
  return false;
}
extern "C" {
void *__wrap_malloc(size_t n){ R->nalloc++; if (refuse(n)) { errno = ENOMEM; return nullptr; } return heap_alloc(currank(), n, false, (u32)allocidx); }
void *__wrap_calloc(size_t a, size_t b){ size_t n; R->nalloc++; if (__builtin_mul_overflow(a, b, &n)) n = (size_t)-1; if (refuse(n)) { errno = ENOMEM; return nullptr; } void *p = heap_alloc(currank(), n, false, (u32)allocidx); if (p) memset(p, 0, n); return p; }
void __wrap_free(void *p){ if (p) heap_free(p); }
void *__wrap_realloc(void *p, size_t n){
  if (!p) return __wrap_malloc(n);
  if (!n) { __wrap_free(p); return nullptr; }
  Blk *h = blk_of(p, "realloc"); R->nalloc++; if (n > h->size && refuse(n)) { errno = ENOMEM; return nullptr; } /* shrinking does not fail */
  void *q = heap_alloc(h->rank, n, h->user, (u32)allocidx); if (!q) return nullptr;
  memcpy(q, p, n < h->size ? n : h->size); heap_free(p); return q;
}
void *sim_alloc(size_t n){ return heap_alloc(currank(), n, true, 0); }
void *sim_heap_base(void){ return HEAP + HEAPSZ / 2; }
void sim_free(void *p){ if (p) heap_free(p); }
long sim_live_blocks(int r){ return ar[r < 0 ? MAXRANKS : r].live; }
long sim_live_bytes(int r){ return ar[r < 0 ? MAXRANKS : r].livebytes; }
long sim_alloc_index(void){ return allocidx; }
void sim_fail_from(long i, long l){ sim_knobs.fail_alloc = i; sim_knobs.fail_alloc_len = l; }
int sim_alloc_failed(void){ return (int)allocfailed; }
void sim_mem_readonly(const void *p, size_t n){ if (!inheap(p)) return; u8 *s = shadow(p); for (size_t i = 0; i < ((n + 7) >> 3); i++) if (s[i] >= 1 && s[i] <= 8) s[i] += 32; }
void sim_mem_writable(const void *p, size_t n){ if (!inheap(p)) return; u8 *s = shadow(p); for (size_t i = 0; i < ((n + 7) >> 3); i++) if (s[i] >= 33 && s[i] <= 40) s[i] -= 32; }
}
std::string leak_report(int rank){
  std::string s; int k = 0; for (Blk *h = ar[rank].head.next; h; h = h->next) if (!h->user && k++ < 6) { char b[64]; snprintf(b, sizeof b, "\n  %u bytes from ", h->size); s += b; for (int i = 0; i < 3; i++) if (h->pc[i]) { if (i) s += " < "; s += symname(h->pc[i]); } }
  return s;
}
std::string leak_where(int rank){ Blk *last = nullptr; for (Blk *h = ar[rank].head.next; h; h = h->next) if (!h->user) last = h; return last && last->pc[0] ? symname(last->pc[0]) : ""; }
static bool shadow_ok(const u8 *a, size_t n, bool write){
  while (n) { u8 s = *shadow(a); if (s >= 33 && s <= 40) { if (write) return false; s -= 32; } size_t o = (u64)a & 7, k = 8 - o < n ? 8 - o : n; if (s > 8 || o + k > s) return false; a += k; n -= k; if (n && !inheap(a)) return false; }
  return true;
}
bool addr_ok(const void *p, size_t n, bool write){ return !n || !inheap(p) || shadow_ok((const u8*)p, n, write); }
static __attribute__((noinline)) void badacc(uintptr_t a, size_t n, bool write, uintptr_t pc){
  u8 s = *shadow((void*)a); const char *k = s == 0xFD ? "use-after-free" : (s >= 33 && s <= 40) ? "write-to-readonly" : "out-of-bounds";
  // describe block
  std::string d; u8 *q = (u8*)(a & ~7ULL); for (int i = 0; i < 4096 && inheap(q); i++, q -= 8) { u8 v = *shadow(q); if ((v >= 1 && v <= 40) || v == 0xFD) { d = " near a block"; break; } }
  violation_at(k, symname(pc), "%s of %zu bytes%s", write ? "write" : "read", n, d.c_str());
}
void check_range(const void *p, size_t n, bool write, const char *what){
  if (!addr_ok(p, n, write)) { u8 s = *shadow(p); violation(s == 0xFD ? "use-after-free" : "out-of-bounds", "%s %s %zu bytes outside of any live block", what, write ? "writes" : "reads", n); }
}
// Race-directed preemption: threads are stopped just before an access to memory that another thread of the process uses too,
// the more readily the fewer times the place has been reached, and held while the others go on.
struct RaceEnt { u64 key; u32 last; u8 wr, shared, rd; };
static RaceEnt racet[1u << 15]; static u32 racepc[1u << 13];
static __attribute__((noinline)) void race_hook(const void *p, bool write, uintptr_t pc){
  Fiber *f = cur; if (!f || !g_inrun || f->atomic || (char*)p - f->stk < (long)f->stksz && (char*)p >= f->stk) return;
  u64 a = (u64)p; uintptr_t b0 = node_base[f->rank], b1 = node_end[f->rank];
  if (a - b0 < b1 - b0) a -= b0; else if (a - (u64)HEAP >= HEAPSZ && a - (u64)stkbase >= (1ULL << 40)) return;   // the simulator's own memory is not at a repeatable place
  u64 key = (a >> 2) | (u64)f->rank << 58; pc -= b0; RaceEnt &e = racet[(key * 0x9e3779b97f4a7c15ULL) >> 49]; u32 id = f->id + 1;
  if (e.key != key) { e.key = key; e.last = id; e.wr = write; e.shared = 0; e.rd = !write; return; }
  bool rmw = write && e.last == id && e.rd; if (e.last != id && (write || e.wr)) e.shared = 1;
  e.last = id; e.wr |= write; e.rd = !write;
  if (!e.shared || !preempt_budget || (race_mode == 1 && !rmw)) return;
  u32 &n = racepc[(pc * 0x9e3779b97f4a7c15ULL) >> 51]; double q = race_q / (1.0 + n * 0.25); n++;
  if (rp.unit() < q) { g_racehit = true; u64 now = g_base - (u64)g_left; g_base = now + 1; g_left = 1; }
}
static inline __attribute__((always_inline)) void acc(const void *p, size_t n, bool write, uintptr_t pc){
  if (__builtin_expect(inheap(p), 1)) {
    u8 s = *shadow(p); 
    if (__builtin_expect(!(s == 8 && ((u64)p & 7) + n <= 8), 0)) if (!shadow_ok((const u8*)p, n, write)) badacc((uintptr_t)p, n, write, pc);
  }
  if (__builtin_expect(g_race, 0)) race_hook(p, write, pc);
  if (__builtin_expect(--g_left <= 0, 0)) hook_slow();
}
#define PC ((uintptr_t)__builtin_return_address(0))
extern "C" {
void __tsan_init(void){}
void __tsan_func_entry(void *pc){ Fiber *f = cur; if (f) { if (f->depth < SS_MAX) f->ss[f->depth] = PC; f->depth++; if ((char*)__builtin_frame_address(0) < f->stk + 65536 && g_inrun) violation("stack-overflow", "call depth %d", f->depth); } }
void __tsan_func_exit(void){ if (cur) cur->depth--; }
#define RW(n) void __tsan_read##n(void *p){ acc(p, n, false, PC); } void __tsan_write##n(void *p){ acc(p, n, true, PC); } \
  void __tsan_unaligned_read##n(void *p){ acc(p, n, false, PC); } void __tsan_unaligned_write##n(void *p){ acc(p, n, true, PC); } \
  void __tsan_volatile_read##n(void *p){ acc(p, n, false, PC); } void __tsan_volatile_write##n(void *p){ acc(p, n, true, PC); } \
  void __tsan_unaligned_volatile_read##n(void *p){ acc(p, n, false, PC); } void __tsan_unaligned_volatile_write##n(void *p){ acc(p, n, true, PC); } \
  void __tsan_read_write##n(void *p){ acc(p, n, true, PC); } void __tsan_unaligned_read_write##n(void *p){ acc(p, n, true, PC); }
RW(1) RW(2) RW(4) RW(8) RW(16)
void __tsan_read_range(void *p, size_t n){ if (n) { if (inheap(p) && !shadow_ok((u8*)p, n, false)) badacc((uintptr_t)p, n, false, PC); if (--g_left <= 0) hook_slow(); } }
void __tsan_write_range(void *p, size_t n){ if (n) { if (inheap(p) && !shadow_ok((u8*)p, n, true)) badacc((uintptr_t)p, n, true, PC); if (--g_left <= 0) hook_slow(); } }
void __tsan_vptr_update(void **a, void *b){} void __tsan_vptr_read(void **a){}
#define ATOM(N, T) \
 T __tsan_atomic##N##_load(const volatile T *a, int){ sched_point("atomic"); acc((void*)a, N/8, false, PC); return *a; } \
 void __tsan_atomic##N##_store(volatile T *a, T v, int){ sched_point("atomic"); acc((void*)a, N/8, true, PC); *a = v; } \
 T __tsan_atomic##N##_exchange(volatile T *a, T v, int){ sched_point("atomic"); acc((void*)a, N/8, true, PC); T o = *a; *a = v; return o; } \
 T __tsan_atomic##N##_fetch_add(volatile T *a, T v, int){ sched_point("atomic"); acc((void*)a, N/8, true, PC); T o = *a; *a = o + v; return o; } \
 T __tsan_atomic##N##_fetch_sub(volatile T *a, T v, int){ sched_point("atomic"); acc((void*)a, N/8, true, PC); T o = *a; *a = o - v; return o; } \
 T __tsan_atomic##N##_fetch_and(volatile T *a, T v, int){ sched_point("atomic"); acc((void*)a, N/8, true, PC); T o = *a; *a = o & v; return o; } \
 T __tsan_atomic##N##_fetch_or(volatile T *a, T v, int){ sched_point("atomic"); acc((void*)a, N/8, true, PC); T o = *a; *a = o | v; return o; } \
 T __tsan_atomic##N##_fetch_xor(volatile T *a, T v, int){ sched_point("atomic"); acc((void*)a, N/8, true, PC); T o = *a; *a = o ^ v; return o; } \
 T __tsan_atomic##N##_fetch_nand(volatile T *a, T v, int){ sched_point("atomic"); acc((void*)a, N/8, true, PC); T o = *a; *a = ~(o & v); return o; } \
 int __tsan_atomic##N##_compare_exchange_strong(volatile T *a, T *c, T v, int, int){ sched_point("atomic"); acc((void*)a, N/8, true, PC); T o = *a; if (o == *c) { *a = v; return 1; } *c = o; return 0; } \
 int __tsan_atomic##N##_compare_exchange_weak(volatile T *a, T *c, T v, int, int){ sched_point("atomic"); acc((void*)a, N/8, true, PC); T o = *a; if (o == *c) { *a = v; return 1; } *c = o; return 0; } \
 T __tsan_atomic##N##_compare_exchange_val(volatile T *a, T c, T v, int, int){ sched_point("atomic"); acc((void*)a, N/8, true, PC); T o = *a; if (o == c) *a = v; return o; }
ATOM(8, uint8_t) ATOM(16, uint16_t) ATOM(32, uint32_t) ATOM(64, uint64_t)
void __tsan_atomic_thread_fence(int){} void __tsan_atomic_signal_fence(int){}
void *__wrap_memcpy(void *d, const void *s, size_t n){
  if (n) { if (inheap(d) && !shadow_ok((u8*)d, n, true)) badacc((uintptr_t)d, n, true, PC); if (inheap(s) && !shadow_ok((const u8*)s, n, false)) badacc((uintptr_t)s, n, false, PC);
    if (--g_left <= 0) hook_slow(); }
  return memmove(d, s, n);
}
void *__wrap_memmove(void *d, const void *s, size_t n){
  if (n) { if (inheap(d) && !shadow_ok((u8*)d, n, true)) badacc((uintptr_t)d, n, true, PC); if (inheap(s) && !shadow_ok((const u8*)s, n, false)) badacc((uintptr_t)s, n, false, PC);
    if (--g_left <= 0) hook_slow(); }
  return memmove(d, s, n);
}
void *__wrap_memset(void *d, int c, size_t n){
  if (n) { if (inheap(d) && !shadow_ok((u8*)d, n, true)) badacc((uintptr_t)d, n, true, PC); if (--g_left <= 0) hook_slow(); }
  return memset(d, c, n);
}
}

// ---------------------------------------------------------------- error channel
static struct { int n; char last[512]; } errs[NARENA];
extern "C" int sim_err_count(int r){ return errs[r < 0 ? MAXRANKS : r].n; }
extern "C" const char *sim_err_last(int r){ return errs[r < 0 ? MAXRANKS : r].last; }
extern "C" void sim_err_clear(int r){ errs[r < 0 ? MAXRANKS : r].n = 0; errs[r < 0 ? MAXRANKS : r].last[0] = 0; }
extern "C" void sim_err_add(const char *m, int warn){ int r = currank(); auto &e = errs[r < 0 ? MAXRANKS : r]; sim_log("%s: %s", warn ? "warning" : "error", m); if (!warn) { e.n++; snprintf(e.last, sizeof e.last, "%s", m); } hbytes(m, strlen(m)); }

// ---------------------------------------------------------------- the run
static void onsig(int sig, siginfo_t *si, void *uc){
  ucontext_t *u = (ucontext_t*)uc; uintptr_t pc = u->uc_mcontext.gregs[REG_RIP];
  const char *n = sig == SIGSEGV ? "SIGSEGV" : sig == SIGBUS ? "SIGBUS" : sig == SIGFPE ? "SIGFPE" : sig == SIGABRT ? "SIGABRT" : sig == SIGVTALRM ? "cpu-time" : "SIGILL";
  if (sig == SIGVTALRM) violation_at("hang", libtop(cur), "run used up its processor time without terminating");
  std::string w = symname(pc); if (w.empty() || w[0] == '?') w = libtop(cur);
  violation_at("crash", w, "%s at %s (address %p)", n, symname(pc).c_str(), si->si_addr);
}
static void *rank_entry(void *a){
  int r = (int)(long)a; WLR[r][SPEC->widx]->rank_main(r); return nullptr;
}
void mem_setup(){   // once in the parent
  void *p = mmap(HEAP, HEAPSZ, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE | MAP_FIXED_NOREPLACE, -1, 0);
  void *q = mmap(SHADOW, HEAPSZ >> 3, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE | MAP_FIXED_NOREPLACE, -1, 0);
  if (p != HEAP || q != SHADOW) { fprintf(stderr, "simx: cannot map heap\n"); exit(3); }
}
void run_child(RunSpec &spec){
  SPEC = &spec;
  static char alt[65536]; stack_t ss; memset(&ss, 0, sizeof ss); ss.ss_sp = alt; ss.ss_size = sizeof alt; sigaltstack(&ss, nullptr);
  struct sigaction sa; memset(&sa, 0, sizeof sa); sa.sa_sigaction = onsig; sa.sa_flags = SA_SIGINFO | SA_ONSTACK;
  for (int s : {SIGSEGV, SIGBUS, SIGFPE, SIGILL, SIGABRT, SIGVTALRM}) sigaction(s, &sa, nullptr);
  struct itimerval tv; memset(&tv, 0, sizeof tv); tv.it_value.tv_sec = 60; setitimer(ITIMER_VIRTUAL, &tv, nullptr);
  R->status = 0;
  u64 sd = mix64(spec.seed * 2654435761u + 17), sm = mix64(sd + 1000003 * (u64)spec.member);
  rc.s = mix64(sd + 1); rs.s = mix64(sm + 2); rf.s = mix64(sm + 3); rp.s = mix64(sm + 4); rm.s = mix64(sm + 5);
  for (auto &d : spec.decs) { if (d.stream == 'c') mc[d.idx] = d.val; else if (d.stream == 's') ms[d.idx] = d.val; else if (d.stream == 'f') mf[d.idx] = d.val; else if (d.stream == 'p') mp.push_back({d.idx, d.val}); }
  std::sort(mp.begin(), mp.end());
  for (int i = 0; i < NARENA; i++) { ar[i].off = 4096; }
  memset(&sim_knobs, 0, sizeof sim_knobs); sim_knobs.fail_alloc = -1; sim_knobs.fail_thread = -1; sim_knobs.maxalloc = 256L << 20; sim_knobs.maxacc = 300000000ULL; sim_knobs.cores = 4; sim_knobs.ptop = 0.25; sim_knobs.thread_level = 3;
  sim_knobs.mpi_strict = 1; sim_knobs.leak = 1; sim_knobs.sched = 1; sim_knobs.net = 1; sim_knobs.preempt = 1; sim_knobs.spurious = 1; sim_knobs.canon_reduce = 1;
  memset(&sim_io, 0, sizeof sim_io); sim_io.rderr_at = sim_io.rdeof_at = sim_io.wrerr_at = -1; sim_io.pipecap = 65536;
  g_nranks = 1; g_clock_us = 1000000000ULL + (sm % 1000000007ULL);
  io_reset(); thr_reset(); mpi_reset();
  g_base = 0; g_left = 0; arm();
  WL[spec.widx]->setup();
  // scheduling style of this run
  if (!SPEC->replay && sim_knobs.sched) {
    static const double ps[] = {0.02, 0.1, 0.3, 0.7}; static const u64 gaps[] = {0, 15, 60, 300, 2000, 20000};
    pol = (int)rs.below(4); p_sw = ps[rs.below(4)]; gapmean = gaps[rs.below(6)]; preempt_budget = rs.below(4) ? 1 + rs.below(3000) : 1 + rs.below(4);
    if (pol == 1) preempt_budget = 1 + rs.below(6), gapmean = 100u << rs.below(8);
    if (sim_knobs.preempt && rs.below(5) < 2) { static const double q[] = {0.8, 0.2, 0.04}; g_race = true; race_mode = rs.below(2); race_q = q[rs.below(3)]; race_delay = 20u << (2 * rs.below(6)); gapmean = 0; preempt_budget = 1 + rs.below(rs.below(2) ? 8 : 200); if (pol == 1) pol = 0; probe("race-directed"); }
  }
  fillmode = (int)sdec(5, 0.6); fillseed = sdec(1u << 20, 0.7);
  { static const u64 fp[] = {200, 40, 1000, 4000}; forced_pts = fp[sdec(4, 0.5)]; }
  netmode = sim_knobs.net && g_nranks > 1 ? (int)sdec(4, 0.8) : 0;
  p_del = netmode == 1 ? 0.5 : netmode == 2 ? 0.1 : 0.0;
  extern double mpi_pdel; extern int mpi_netmode; mpi_pdel = p_del; mpi_netmode = netmode;
  for (int r = 0; r < g_nranks; r++) { Fiber *f = fiber_new(r, rank_entry, (void*)(long)r); f->ismain = true; f->rdv = 0; }
  // start
  g_inrun = true; Fiber boot; memset(&boot, 0, sizeof boot); boot.id = 0; boot.st = F_DONE; 
  cur = fibers[0]; cur->consec_acc0 = g_base - (u64)g_left; arm();
  sim_switch(&mainsp, cur->sp);
  g_inrun = false;
  // all fibers done
  if (sim_knobs.mpi_strict) mpi_final_check();
  if (sim_knobs.leak) for (int r = 0; r < g_nranks; r++) if (ar[r].live) violation_at("leak", leak_where(r), "rank %d: %ld blocks (%ld bytes) allocated by the library were never freed%s", r, ar[r].live, ar[r].livebytes, leak_report(r).c_str());
  if (WL[spec.widx]->check) WL[spec.widx]->check();
  finish(1);
}
