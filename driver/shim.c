/* Preloaded into the tag server by the C13 check: counts the calls that change files and ends the process just before
 * (or in the middle of) the KILLAT-th one.  Synchronising is only counted: the process dies, not the machine. */
#define _GNU_SOURCE
#include <dlfcn.h>
#include <signal.h>
#include <stdlib.h>
#include <string.h>
#include <sys/stat.h>
#include <sys/types.h>
#include <unistd.h>

static long at = -1, n;
static int half;

__attribute__((constructor)) static void init(void) {
    const char *s = getenv("KILLAT");
    if (s) { at = atol(s); half = strchr(s, 'h') != NULL; }
}
static void die(void) { kill(getpid(), SIGKILL); for (;;) pause(); }
static int hit(void) { return at > 0 && __sync_add_and_fetch(&n, 1) == at; }

#define REAL(t, name, ...) static t (*r)(__VA_ARGS__); if (!r) r = dlsym(RTLD_NEXT, name)

ssize_t pwrite64(int fd, const void *b, size_t c, off64_t o) {
    REAL(ssize_t, "pwrite64", int, const void *, size_t, off64_t);
    if (hit()) { if (half && c > 1) r(fd, b, c / 2, o); die(); }
    return r(fd, b, c, o);
}
ssize_t pwrite(int fd, const void *b, size_t c, off_t o) { return pwrite64(fd, b, c, o); }
ssize_t write(int fd, const void *b, size_t c) {
    REAL(ssize_t, "write", int, const void *, size_t);
    struct stat st;
    if (at > 0 && fd > 2 && fstat(fd, &st) == 0 && S_ISREG(st.st_mode) && hit()) {
        if (half && c > 1) r(fd, b, c / 2);
        die();
    }
    return r(fd, b, c);
}
int ftruncate64(int fd, off64_t l) { REAL(int, "ftruncate64", int, off64_t); if (hit()) die(); return r(fd, l); }
int ftruncate(int fd, off_t l) { return ftruncate64(fd, l); }
int unlink(const char *p) { REAL(int, "unlink", const char *); if (hit()) die(); return r(p); }
int fsync(int fd) { if (hit()) die(); return 0; }
int fdatasync(int fd) { if (hit()) die(); return 0; }
