/* the library's own strsep, under another name */
#include <u/libu_conf.h>
#undef HAVE_STRSEP
#include <string.h>
#include <stdlib.h>
#include <stdio.h>
#include <stdarg.h>
#include <unistd.h>
#include <errno.h>
#include <fcntl.h>
#include <sys/types.h>
#include <sys/stat.h>
#include <sys/time.h>
#include <time.h>

#define strsep r_strsep
#include "missing/strsep.c"

