/* Loaded into `digest` by LD_PRELOAD. Between two calls of getppid, while conversions run, it records calls of the C
 * library that concern the surroundings of the process and changes what the harmless ones of them return:
 *
 *   VP_SHIM=<mode>   what the environment, the clock, the process id and random numbers look like
 *   VP_SHIM_LOG=<f>  where the recorded calls are written to
 */
#define _GNU_SOURCE
#include <dlfcn.h>
#include <errno.h>
#include <fcntl.h>
#include <stdarg.h>
#include <stdint.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <sys/socket.h>
#include <sys/stat.h>
#include <sys/syscall.h>
#include <sys/time.h>
#include <time.h>
#include <unistd.h>

static int active, mode, windows;
static char path[4096];
static unsigned long ticks;

#define KINDS 64
static const char *names[KINDS];
static unsigned long counts[KINDS];
static char details[KINDS][80];

static void note(const char *name, const char *detail) {
    for (int i = 0; i < KINDS; i++) {
        if (names[i] == NULL) {
            names[i] = name;
            if (detail) strncpy(details[i], detail, sizeof details[i] - 1);
            for (char *c = details[i]; *c; c++) if (*c < ' ' || *c > '~') *c = '?';
        }
        if (names[i] == name || strcmp(names[i], name) == 0) {
            counts[i]++;
            return;
        }
    }
}

static long raw_open(const char *f) { return syscall(SYS_openat, AT_FDCWD, f, O_WRONLY | O_CREAT | O_TRUNC, 0600); }

static char *find_environment(const char *name) {
    extern char **environ;
    size_t n = strlen(name);
    for (char **e = environ; e && *e; e++) if (!strncmp(*e, name, n) && (*e)[n] == '=') return *e + n + 1;
    return NULL;
}

__attribute__((constructor)) static void start(void) {
    char *m = find_environment("VP_SHIM"), *l = find_environment("VP_SHIM_LOG");
    if (m) mode = m[0] - '0';
    if (l) strncpy(path, l, sizeof path - 1);
}

__attribute__((destructor)) static void stop(void) {
    if (!path[0]) return;
    long fd = raw_open(path);
    char line[256];
    int n = snprintf(line, sizeof line, "windows %d\n", windows);
    syscall(SYS_write, fd, line, n);
    for (int i = 0; i < KINDS && names[i]; i++) {
        n = snprintf(line, sizeof line, "%s %lu %s\n", names[i], counts[i], details[i]);
        syscall(SYS_write, fd, line, n);
    }
    syscall(SYS_close, fd);
}

pid_t getppid(void) {
    active = !active;
    windows++;
    return 1;
}

#define REAL(type, name) static __typeof__(type) *real; if (!real) real = (__typeof__(real))dlsym(RTLD_NEXT, name)

/* -------- what may be asked for, but must not matter */

char *getenv(const char *name) {
    if (!active) return find_environment(name);
    note("getenv", name);
    switch (mode) {
        case 1: return "1";
        case 2: return "0";
        case 3: return "";
        default: return NULL;
    }
}

char *secure_getenv(const char *name) { return getenv(name); }

static long shift(void) { return ++ticks * (mode == 1 ? 0 : mode == 2 ? 86400L * 31 : 7); }

int clock_gettime(clockid_t clock, struct timespec *t) {
    long r = syscall(SYS_clock_gettime, clock, t);
    if (active) {
        note("clock_gettime", NULL);
        if (mode == 1) t->tv_sec = 1000000000, t->tv_nsec = 0;
        else t->tv_sec += shift(), t->tv_nsec = (t->tv_nsec * 31 + ticks * 7919) % 1000000000;
    }
    return r;
}

int gettimeofday(struct timeval *t, void *z) {
    struct timespec s;
    (void)z;
    clock_gettime(CLOCK_REALTIME, &s);
    t->tv_sec = s.tv_sec;
    t->tv_usec = s.tv_nsec / 1000;
    return 0;
}

time_t time(time_t *t) {
    struct timespec s;
    clock_gettime(CLOCK_REALTIME, &s);
    if (t) *t = s.tv_sec;
    return s.tv_sec;
}

pid_t getpid(void) {
    if (!active) return syscall(SYS_getpid);
    note("getpid", NULL);
    return 2 + mode * 1000 + (mode == 2 ? ++ticks : 0);
}

ssize_t getrandom(void *buffer, size_t n, unsigned flags) {
    if (!active) return syscall(SYS_getrandom, buffer, n, flags);
    note("getrandom", NULL);
    for (size_t i = 0; i < n; i++) ((unsigned char *)buffer)[i] = mode == 1 ? 0 : mode == 2 ? 255 : (++ticks * 2654435761u) >> 13;
    return n;
}

long sysconf(int name) {
    REAL(long(int), "sysconf");
    if (active && (name == _SC_NPROCESSORS_ONLN || name == _SC_NPROCESSORS_CONF)) {
        note("sysconf", NULL);
        return 1 + mode * 5;
    }
    return real(name);
}

/* -------- what a conversion has no business with */

#define EFFECT(ret, name, params, args, what)      \
    ret name params {                              \
        REAL(ret params, #name);               \
        if (active) note("effect:" #name, what);   \
        return real args;                          \
    }

EFFECT(int, setenv, (const char *a, const char *b, int c), (a, b, c), a)
EFFECT(int, unsetenv, (const char *a), (a), a)
EFFECT(int, putenv, (char *a), (a), a)
EFFECT(int, clearenv, (void), (), NULL)
EFFECT(int, chdir, (const char *a), (a), a)
EFFECT(mode_t, umask, (mode_t a), (a), NULL)
EFFECT(FILE *, fopen, (const char *a, const char *b), (a, b), a)
EFFECT(FILE *, fopen64, (const char *a, const char *b), (a, b), a)
EFFECT(int, creat, (const char *a, mode_t b), (a, b), a)
EFFECT(int, mkdir, (const char *a, mode_t b), (a, b), a)
EFFECT(int, rmdir, (const char *a), (a), a)
EFFECT(int, unlink, (const char *a), (a), a)
EFFECT(int, rename, (const char *a, const char *b), (a, b), a)
EFFECT(ssize_t, write, (int a, const void *b, size_t c), (a, b, c), "")
EFFECT(ssize_t, read, (int a, void *b, size_t c), (a, b, c), "")
EFFECT(int, socket, (int a, int b, int c), (a, b, c), NULL)
EFFECT(int, connect, (int a, const struct sockaddr *b, socklen_t c), (a, b, c), NULL)
EFFECT(pid_t, fork, (void), (), NULL)
EFFECT(int, kill, (pid_t a, int b), (a, b), NULL)
EFFECT(int, raise, (int a), (a), NULL)
EFFECT(char *, setlocale, (int a, const char *b), (a, b), b)
EFFECT(int, dup2, (int a, int b), (a, b), NULL)

static int open_any(const char *what, const char *file, int flags, mode_t m) {
    if (active) note(what, file);
    return syscall(SYS_openat, AT_FDCWD, file, flags, m);
}

int open(const char *file, int flags, ...) {
    va_list l;
    va_start(l, flags);
    mode_t m = va_arg(l, mode_t);
    va_end(l);
    return open_any("effect:open", file, flags, m);
}

int open64(const char *file, int flags, ...) {
    va_list l;
    va_start(l, flags);
    mode_t m = va_arg(l, mode_t);
    va_end(l);
    return open_any("effect:open64", file, flags, m);
}
