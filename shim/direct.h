#ifndef SHIM_DIRECT_H
#define SHIM_DIRECT_H
#include <unistd.h>
#include <limits.h>
#define _getcwd getcwd
#define _MAX_PATH 260
extern char *_pgmptr;
#endif
