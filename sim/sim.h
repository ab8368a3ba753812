/* Interface between the simulator executable (simx) and the code loaded in it (node.so:
** the library under test plus the workloads). Plain C ABI. */
#ifndef SIM_H
#define SIM_H
#include <stddef.h>
#include <stdint.h>
#include <stdio.h>
#include <stdarg.h>
#ifdef __cplusplus
extern "C" {
#endif

/* ---- identity ---- */
int      sim_rank (void);               /* rank of the calling fiber (-1 in setup/check)    */
int      sim_ranks (void);              /* number of ranks of this run                       */
void     sim_set_ranks (int n);         /* to be called in setup                             */
int      sim_member (void);             /* member index inside a group of runs               */
int      sim_fiber (void);              /* id of the calling fiber                           */

/* ---- decisions ---- */
uint32_t sim_cfg (uint32_t n);          /* configuration choice in 0..n-1; 0 is the simplest */
uint32_t sim_fault_choose (uint32_t n); /* fault choice in 0..n-1; 0 means no fault          */
uint64_t sim_hash64 (uint64_t a, uint64_t b); /* pure mixing function                        */

/* ---- per-run knobs, set in setup ---- */
typedef struct SimKnobs_ {
  int      members;                     /* read by the driver from the workload descriptor   */
  int      net;                         /* 1: messages may be delayed                        */
  int      preempt;                     /* 1: preempt at memory accesses                     */
  int      eager_only;                  /* 1: blocking sends are always buffered             */
  int      canon_reduce;                /* 1: reductions in rank order                       */
  int      mpi_strict;                  /* 1: report unconsumed MPI objects at end           */
  int      leak;                        /* 1: report leaked library memory at end            */
  int      thread_level;                /* what MPI_Init_thread provides                     */
  int      cores;                       /* simulated number of cores                         */
  int      spurious;                    /* spurious wake-ups allowed                         */
  int      late_start;                  /* unused                                            */
  long     fail_alloc;                  /* index of the allocation that fails, -1: none      */
  long     fail_alloc_len;              /* how many in a row fail                            */
  long     maxalloc;                    /* larger allocations are refused (memory of the machine)     */
  long     fail_thread;                 /* index of pthread_create that fails, -1: none      */
  int      sched;                       /* schedule exploration on                           */
  int      runtime_only;                /* 1: what the workload itself reports only ends the run (C07) */
  double   ptop;                        /* share of process pairs below which point-to-point is used */
  uint64_t maxacc;                      /* bound on memory accesses (progress bound)         */
} SimKnobs;
extern SimKnobs sim_knobs;

/* ---- outcomes ---- */
void     sim_violation (const char * kind, const char * fmt, ...) __attribute__ ((noreturn, format (printf, 2, 3)));
void     sim_publish (int slot, const void * data, size_t size);  /* results compared across members */
void     sim_end_run (void) __attribute__ ((noreturn));           /* the run is over, without violation  */
void     sim_probe (const char * name);                           /* "this condition was reached"    */
void     sim_count (const char * name, long n);
void     sim_state (uint64_t h);                                  /* mixes into the state signature  */
void     sim_log (const char * fmt, ...) __attribute__ ((format (printf, 1, 2)));

void     sim_describe (const char * fmt, ...) __attribute__ ((format (printf, 1, 2)));  /* appended to run description */
long     sim_prev_allocs (void);        /* library allocations of member 0 of the group */
long     sim_prev_threads (void);
void     sim_setenv (const char *, const char *);
int      sim_open_fds (void);

/* ---- error channel of the library under test ---- */
int      sim_err_count (int rank);           /* number of errorPrint since last clear    */
const char * sim_err_last (int rank);
void     sim_err_clear (int rank);
void     sim_err_add (const char * msg, int warn);

/* ---- memory ---- */
void *   sim_alloc (size_t n);               /* user memory, redzoned, not counted as library memory */
void     sim_free (void * p);
long     sim_live_blocks (int rank);         /* library blocks currently allocated on that rank      */
long     sim_live_bytes (int rank);
long     sim_alloc_index (void);             /* number of library allocations so far                 */
void     sim_fail_from (long idx, long len); /* arm allocation failure                               */
int      sim_alloc_failed (void);            /* how many allocations have been refused               */
void     sim_mem_readonly (const void * p, size_t n);  /* writes by instrumented code are violations */
void *   sim_heap_base    (void);                    /* a place at most 8 GB from every block */
void     sim_mem_writable (const void * p, size_t n);
long     sim_other_fibers (int rank);        /* live fibers of rank besides the caller               */
long     sim_threads_created (void);
int      sim_threads_refused (void);
void     sim_atomic_begin (void);            /* no preemption in between                             */
void     sim_atomic_end (void);
unsigned long long sim_affinity (void);      /* cores the calling thread may run on                  */
void     sim_yield (void);                   /* explicit scheduling point                            */
void     sim_noinject (int on);              /* suspend fault injection for the caller               */

/* ---- threads of the workload (simulated pthreads of the caller's rank) ---- */
typedef struct SimThread_ SimThread;
SimThread * sim_spawn (void (* f) (void *), void * arg);
void     sim_join (SimThread *);

/* ---- simulated files ---- */
void     sim_file_put (const char * name, const void * data, size_t size);
size_t   sim_file_size (const char * name);          /* (size_t) -1 when absent */
const unsigned char * sim_file_data (const char * name);
FILE *   sim_fopen (const char * name, const char * mode);
int      sim_file_faults (void);                      /* I/O faults fired so far */
int      sim_write_faults (void);
void     sim_io_rearm (void);                         /* byte counters of fault positions restart at 0 */
int      sim_read_faults (void);
typedef struct SimIo_ {
  int      rdchunk;                     /* >0: reads return at most this many bytes, random below   */
  int      wrchunk;
  long     rderr_at;                    /* byte offset at which reads fail with EIO, -1: never       */
  long     rdeof_at;                    /* byte offset at which reads see EOF                        */
  long     wrerr_at;                    /* byte offset at which writes fail                          */
  int      wrerrno;
  int      wrtransient;                 /* 1: the write error happens once                           */
  int      closeerr;                    /* 1: close of written file fails                            */
  int      openfail;                    /* nth open fails (1-based), 0: none                         */
  int      bufmode;                     /* 0 default, else size of stdio buffer                      */
  int      pipecap;                     /* capacity of pipes in bytes                                */
} SimIo;
extern SimIo sim_io;

/* ---- workload descriptor ---- */
typedef struct SimWorkload_ {
  const char * name;                    /* property id                                               */
  const char * sub;                     /* name of workload                                          */
  int      weight;
  int      members;                     /* 1, or more when results are compared across runs          */
  void  (* setup) (void);               /* run once, on copy 0                                       */
  void  (* rank_main) (int rank);       /* run on each rank                                          */
  void  (* check) (void);               /* run once after all ranks finished                         */
} SimWorkload;
extern void * sim_shared;               /* set by setup, seen by all ranks                           */

#ifdef __cplusplus
}
#endif
#endif
