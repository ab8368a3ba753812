#define POOLMAX 16
enum { PS_BARRIER, PS_REDUCE, PS_SCAN, PS_WORK, PS_NB };
typedef struct { int nstep, step[8], arg[8], rounds, splits, depth; unsigned long long salt; } PoolProg;
#ifdef __cplusplus
extern "C" {
#endif
int pool_threads (void *);
void pool_run (void *, const PoolProg *);
#ifdef __cplusplus
}
#endif
