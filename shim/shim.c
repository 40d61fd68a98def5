#include "io.h"
#include <string.h>
#include <stdlib.h>
#include <time.h>
#include <ctype.h>
char *_pgmptr = "uasm";
intptr_t _findfirst(const char *p, struct _finddata_t *f)
{
    struct stat st;
    const char *q;
    if (stat(p, &st) || !S_ISREG(st.st_mode)) return -1;
    q = strrchr(p, '/');
    strncpy(f->name, q ? q + 1 : p, 259);
    f->name[259] = 0;
    return 1;
}
int _findnext(intptr_t h, struct _finddata_t *f) { return -1; }
int _findclose(intptr_t h) { return 0; }
void *VirtualAlloc(void *a, size_t n, unsigned t, unsigned p) { return calloc(1, n); }
int VirtualFree(void *p, size_t n, unsigned t) { free(p); return 1; }
#ifdef FIXED_TIME
/* a fixed clock: the output of a run is a function of its input only */
time_t time(time_t *t) { time_t v = 0x5e000000; if (t) memcpy(t, &v, sizeof v); return v; }
clock_t clock(void) { return 0; }
#endif
char *_strupr(char *s) { char *p; for (p = s; *p; p++) *p = toupper((unsigned char)*p); return s; }

#include <stdio.h>
#include <string.h>
FILE *uv_fopen(const char *name, const char *mode)
{
    char b[4096];
    char *p;
    if (strlen(name) >= sizeof b)
        return fopen(name, mode);
    strcpy(b, name);
    for (p = b; *p; p++)
        if (*p == '\\')
            *p = '/';
    return fopen(b, mode);
}
