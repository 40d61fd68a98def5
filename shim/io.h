#ifndef SHIM_IO_H
#define SHIM_IO_H
#include <unistd.h>
#include <stdint.h>
#include <sys/stat.h>
struct _finddata_t { unsigned attrib; long size; char name[260]; };
intptr_t _findfirst(const char *p, struct _finddata_t *f);
int _findnext(intptr_t h, struct _finddata_t *f);
int _findclose(intptr_t h);
#endif
