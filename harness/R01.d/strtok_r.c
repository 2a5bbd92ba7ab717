/* the library's own strtok_r, under another name */
#include <u/libu_conf.h>
#undef HAVE_STRTOK_R
#include <string.h>
#include <stdlib.h>
#include <stdio.h>
#include <stdarg.h>
#include <unistd.h>
#include <errno.h>
#include <fcntl.h>
#include <sys/types.h>
#include <sys/stat.h>
#include <sys/time.h>
#include <time.h>

#define strtok_r r_strtok_r
#include "missing/strtok_r.c"

