/* the library's own daemon, under another name */
#include <u/libu_conf.h>
#undef HAVE_DAEMON
#include <string.h>
#include <stdlib.h>
#include <stdio.h>
#include <stdarg.h>
#include <unistd.h>
#include <errno.h>
#include <fcntl.h>
#include <sys/types.h>
#include <sys/stat.h>
#include <sys/time.h>
#include <time.h>
#define fork r_fork
#define setsid r_setsid
pid_t r_fork (void); pid_t r_setsid (void);
#define daemon r_daemon
#include "missing/daemon.c"

