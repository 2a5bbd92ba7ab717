/* the library's own vsyslog, under another name */
#include <u/libu_conf.h>
#undef HAVE_VSYSLOG
#include <string.h>
#include <stdlib.h>
#include <stdio.h>
#include <stdarg.h>
#include <unistd.h>
#include <errno.h>
#include <fcntl.h>
#include <sys/types.h>
#include <sys/stat.h>
#include <sys/time.h>
#include <time.h>
#include <syslog.h>
#define syslog r_syslog
void r_syslog (int, const char *, ...);
#define vsyslog r_vsyslog
#include "missing/vsyslog.c"

