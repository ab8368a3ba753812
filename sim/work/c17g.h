#include <stdio.h>
#ifdef __cplusplus
extern "C" {
#endif
void * fb_new (int n);
void fb_set (void *, int i, const char * name, int wr);
int fb_open (void *, int n);
FILE * fb_stream (void *, int i);
void fb_close (void *, int n);
void fb_free (void *);
#ifdef __cplusplus
}
#endif
