/* LD_PRELOAD for the command-line tools.
 * The program sleeps between its messages (usleep) which only costs time, so the sleeps are dropped.
 * VERIF_FIXED_RANDOM: std::random_device gives a fixed sequence, so that two runs can be compared.
 * VERIF_OPEN_LOG: names of the files created below the working directory are appended to this file.
 * VERIF_KILL_OPEN=n: the process is lost when it creates its n-th file. */
#define _GNU_SOURCE
#include <dlfcn.h>
#include <fcntl.h>
#include <signal.h>
#include <stdarg.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <sys/syscall.h>
#include <unistd.h>
int usleep(useconds_t t) { (void)t; return 0; }
unsigned _ZNSt13random_device9_M_getvalEv(void *self) {
    static unsigned (*real)(void *);
    static unsigned n = 4711;
    if (getenv("VERIF_FIXED_RANDOM")) return n = n * 1103515245u + 12345u;
    if (!real) real = (unsigned (*)(void *))dlsym(RTLD_NEXT, "_ZNSt13random_device9_M_getvalEv");
    return real(self);
}
static void created(const char *fn) {
    static int n;
    const char *l, *k;
    int fd;
    if (!fn || fn[0] == '/' || !(l = getenv("VERIF_OPEN_LOG"))) return;
    fd = syscall(SYS_openat, AT_FDCWD, l, O_WRONLY | O_CREAT | O_APPEND, 0644);
    if (fd >= 0) {
        char b[4096];
        int m = snprintf(b, sizeof b, "%s\n", fn);
        if (write(fd, b, m) < 0) {}
        close(fd);
    }
    n++;
    if ((k = getenv("VERIF_KILL_OPEN")) && atoi(k) == n) kill(getpid(), SIGKILL);
}
#define OPEN(name)                                                        \
    int name(const char *fn, int flags, ...) {                            \
        static int (*real)(const char *, int, ...);                       \
        mode_t mode = 0;                                                  \
        if (flags & (O_CREAT | O_TMPFILE)) {                              \
            va_list a;                                                    \
            va_start(a, flags);                                           \
            mode = va_arg(a, mode_t);                                     \
            va_end(a);                                                    \
        }                                                                 \
        if (!real) real = (int (*)(const char *, int, ...))dlsym(RTLD_NEXT, #name); \
        if ((flags & O_CREAT) && (flags & O_ACCMODE) != O_RDONLY) created(fn); \
        return real(fn, flags, mode);                                     \
    }
OPEN(open)
OPEN(open64)
#define FOPEN(name)                                                       \
    FILE *name(const char *fn, const char *mode) {                        \
        static FILE *(*real)(const char *, const char *);                 \
        if (!real) real = (FILE * (*)(const char *, const char *)) dlsym(RTLD_NEXT, #name); \
        if (mode && mode[0] == 'w') created(fn);                          \
        return real(fn, mode);                                            \
    }
FOPEN(fopen)
FOPEN(fopen64)
