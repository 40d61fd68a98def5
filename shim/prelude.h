/* Force-included when /repo's sources are compiled natively (Linux) in the
 * same configuration as the MinGW build (no __UNIX__): maps the few MSVCRT
 * names the sources use to POSIX ones.  Nothing here changes behaviour but that of file names with
 * backslashes, which is Windows'. */
#ifndef VERIF_PRELUDE_H
#define VERIF_PRELUDE_H
#include <stdio.h>
#include <stddef.h>
#include <stdint.h>
#include <strings.h>
#include <string.h>
#include <signal.h>
#include <sys/stat.h>
#define _stricmp strcasecmp
#define _strnicmp strncasecmp
#define stricmp strcasecmp
#define _memicmp strncasecmp
#define SIGBREAK 21
#define _stat stat
#define __declspec(x)
#define __stdcall
#define _fileno fileno
#define _chsize ftruncate
char *_strupr(char *);
/* like Windows' (and wine's): a backslash separates directories, too */
FILE *uv_fopen(const char *, const char *);
#define fopen uv_fopen
#endif
