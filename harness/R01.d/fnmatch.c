/* the library's own fnmatch, under another name */
#include <u/libu_conf.h>
#undef HAVE_FNMATCH
#include <string.h>
#include <stdlib.h>
#include <stdio.h>
#include <stdarg.h>
#include <unistd.h>
#include <errno.h>
#include <fcntl.h>
#include <sys/types.h>
#include <sys/stat.h>
#include <sys/time.h>
#include <time.h>

#define fnmatch r_fnmatch
#include "missing/fnmatch.c"
int r_fnm[5] = {FNM_NOESCAPE, FNM_PATHNAME, FNM_PERIOD, FNM_CASEFOLD, FNM_LEADING_DIR}, r_fnm_nomatch = FNM_NOMATCH;
