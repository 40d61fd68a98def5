/* dbgcv.c subtracts uint_8* from char*, which MSVC accepts and gcc rejects;
 * with -funsigned-char plain char has the same width and signedness. */
#include <inttype.h>
#define uint_8 char
