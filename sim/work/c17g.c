/* Access to the block file routines used by the library's programs. */
#include "module.h"
#include "common.h"
#include "sim.h"
#include "c17g.h"
void * fb_new (int n) { return sim_alloc (n * sizeof (File)); }
void fb_set (void * p, int i, const char * name, int wr) { File * f = (File *) p + i; f->flagval = wr ? FILEMODEW : FILEMODER; fileBlockInit (f, 1); f->nameptr = (char *) name; }
int fb_open (void * p, int n) { return fileBlockOpen ((File *) p, n); }
FILE * fb_stream (void * p, int i) { return ((File *) p)[i].fileptr; }
void fb_close (void * p, int n) { fileBlockClose ((File *) p, n); }
void fb_free (void * p) { sim_free (p); }
