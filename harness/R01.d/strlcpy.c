/* the library's own strlcpy, under another name */
#include <u/libu_conf.h>
#undef HAVE_STRLCPY
#include <string.h>
#include <stdlib.h>
#include <stdio.h>
#include <stdarg.h>
#include <unistd.h>
#include <errno.h>
#include <fcntl.h>
#include <sys/types.h>
#include <sys/stat.h>
#include <sys/time.h>
#include <time.h>

#define strlcpy r_strlcpy
#include "missing/strlcpy.c"

