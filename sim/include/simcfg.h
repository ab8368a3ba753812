/* Included before every source of the library: run-time value for a compile-time option of dgraph.h. */
double sim_ptop_rat (void);
