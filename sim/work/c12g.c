/* C12: tasks run on the thread pools of the library, through its own internal interface. */
#include "module.h"
#include "common.h"
#include "sim.h"
#include "c12g.h"
typedef struct { int runs, phase, size; long sum, max, scan[2], pre; } Cell;
typedef struct { const PoolProg * prog; Cell cell[POOLMAX]; int nbr; int reva; int base; int depth; int splits; unsigned long long salt; } Task;
static void redf (Cell * a, Cell * b, const void * g) { a->sum += b->sum; if (b->max > a->max) a->max = b->max; }
static void scanf_ (long * a, long * b, const int sp, const int dp, const void * g) { a[dp] = a[sp] + ((b == NULL) ? 0 : b[sp]); }
static long val (Task * t, int thr, int step) { return ((long) ((t->salt * 2654435761ULL + thr * 40503ULL + step * 977ULL) % 1009)); }
static void body (ThreadDescriptor * d, Task * t) {
  const int n = threadNbr (d), me = threadNum (d); int s, i; Cell * c = &t->cell[me];
  if ((me < 0) || (me >= n)) sim_violation ("bad-thread", "thread number %d of %d", me, n);
  if (n != t->nbr) sim_violation ("bad-thread", "task sees %d threads instead of %d", n, t->nbr);
  c->runs ++;
  for (s = 0; s < t->prog->nstep; s ++) {
    int k = t->prog->step[s], arg = t->prog->arg[s];
    if (k == PS_BARRIER) {
      c->phase = s + 1; threadBarrier (d);
      for (i = 0; i < n; i ++) if (t->cell[i].phase < s + 1) sim_violation ("early-release", "thread %d left barrier %d before thread %d reached it", me, s, i);
      threadBarrier (d);
    }
    else if (k == PS_REDUCE) {
      long sum = 0, max = -1; int root = arg % n; c->sum = c->max = val (t, me, s); c->size = s; 
      threadReduce (d, c, sizeof (Cell), (ThreadReduceFunc) redf, root, NULL);
      if (me == root) { for (i = 0; i < n; i ++) { long v = val (t, i, s); sum += v; if (v > max) max = v; } if ((c->sum != sum) || (c->max != max)) sim_violation ("bad-reduction", "sum %ld and maximum %ld over %d threads at root %d instead of %ld and %ld", c->sum, c->max, n, root, sum, max); }
      threadBarrier (d);
    }
    else if (k == PS_SCAN) {
      long sum = 0; c->scan[0] = val (t, me, s); c->scan[1] = -1;
      threadScan (d, &c->scan[0], sizeof (Cell), (ThreadScanFunc) scanf_, NULL);
      for (i = 0; i <= me; i ++) sum += val (t, i, s);
      if (c->scan[0] != sum) sim_violation ("bad-scan", "prefix sum of thread %d of %d is %ld instead of %ld", me, n, c->scan[0], sum);
      threadBarrier (d);
    }
    else { for (i = 0; i < arg % 17; i ++) c->pre += i; }
  }
}
static void launch (Context * ct, const PoolProg * p, unsigned long long salt) {
  Task * t = (Task *) sim_alloc (sizeof (Task)); int i; memset (t, 0, sizeof (Task)); t->prog = p; t->nbr = contextThreadNbr (ct); t->salt = salt;
  contextThreadLaunch (ct, (ThreadFunc) body, (void *) t);
  for (i = 0; i < t->nbr; i ++) if (t->cell[i].runs != 1) sim_violation ("lost-work", "thread %d of %d ran the task %d times", i, t->nbr, t->cell[i].runs);
  sim_free (t);
}
typedef struct { const PoolProg * prog; int nbr[2]; int runs[2]; int depth; unsigned long long salt; } Split;
static void split (Context * ct, const PoolProg * p, int depth, unsigned long long salt);
static void half (Context * ct, const int num, Split * s) {
  if ((num < 0) || (num > 1)) sim_violation ("bad-split", "half number %d", num);
  s->runs[num] ++;
  if (contextThreadNbr (ct) != s->nbr[num]) sim_violation ("bad-split", "half %d has %d threads instead of %d", num, contextThreadNbr (ct), s->nbr[num]);
  launch (ct, s->prog, s->salt + 7 + num); if (s->depth > 0) split (ct, s->prog, s->depth - 1, s->salt * 3 + num); launch (ct, s->prog, s->salt + 9 + num);
}
static void split (Context * ct, const PoolProg * p, int depth, unsigned long long salt) {
  Split * s = (Split *) sim_alloc (sizeof (Split)); int n = contextThreadNbr (ct), r; memset (s, 0, sizeof (Split)); s->prog = p; s->nbr[0] = (n + 1) / 2; s->nbr[1] = n / 2; s->depth = depth; s->salt = salt;
  r = contextThreadLaunchSplit (ct, (ContextSplitFunc) half, s);
  if (n > 1) { if ((r != 0) || (s->runs[0] != 1) || (s->runs[1] != 1)) sim_violation ("lost-work", "splitting of %d threads returned %d and ran the halves %d and %d times", n, r, s->runs[0], s->runs[1]); sim_probe ("pool-split"); }
  else if (r == 0) sim_violation ("bad-split", "a single thread was split");
  sim_free (s);
}
int pool_threads (void * ct) { return (((Context *) ct)->thrdptr == NULL) ? 0 : contextThreadNbr ((Context *) ct); }
void pool_run (void * ct, const PoolProg * p) { int i; for (i = 0; i < p->rounds; i ++) { if ((p->splits >> i) & 1) split ((Context *) ct, p, p->depth, p->salt + i * 101); else launch ((Context *) ct, p, p->salt + i); } }
