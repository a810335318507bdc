/* Preloaded into the master: its clock runs faster by a factor, kill() reaches only its own processes and is recorded,
 * and chosen forks fail.  Not inherited by the processes it starts. */
#define _GNU_SOURCE
#include <errno.h>
#include <fcntl.h>
#include <poll.h>
#include <signal.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <sys/select.h>
#include <sys/syscall.h>
#include <sys/time.h>
#include <time.h>
#include <unistd.h>

static double F = 1;
static struct timespec base[2];
static int klog = -1, forks;
static char fails[200];

static void
real(int clk, struct timespec *t)
{
    syscall(SYS_clock_gettime, clk, t);
}

__attribute__((constructor)) static void
init(void)
{
    char *s = getenv("MSHIM_SCALE");
    if(s) F = atof(s);
    real(CLOCK_REALTIME, &base[0]);
    real(CLOCK_MONOTONIC, &base[1]);
    if((s = getenv("MSHIM_KILLS"))) klog = open(s, O_WRONLY | O_CREAT | O_APPEND | O_CLOEXEC, 0666);
    if((s = getenv("MSHIM_FORKS"))) snprintf(fails, sizeof fails, ",%s,", s);
    unsetenv("LD_PRELOAD");
    unsetenv("MSHIM_SCALE");
    unsetenv("MSHIM_KILLS");
    unsetenv("MSHIM_FORKS");
}

int
clock_gettime(clockid_t clk, struct timespec *t)
{
    int k = clk == CLOCK_REALTIME || clk == CLOCK_REALTIME_COARSE ? 0 : clk == CLOCK_MONOTONIC || clk == CLOCK_MONOTONIC_COARSE ? 1 : -1;
    if(k < 0 || F == 1) return syscall(SYS_clock_gettime, clk, t);
    real(k ? CLOCK_MONOTONIC : CLOCK_REALTIME, t);
    long long d = (t->tv_sec - base[k].tv_sec) * 1000000000LL + t->tv_nsec - base[k].tv_nsec;
    d = d * F + base[k].tv_nsec;
    t->tv_sec = base[k].tv_sec + d / 1000000000LL;
    t->tv_nsec = d % 1000000000LL;
    return 0;
}

int
gettimeofday(struct timeval *tv, void *tz)
{
    struct timespec t;
    clock_gettime(CLOCK_REALTIME, &t);
    if(tv) {
        tv->tv_sec = t.tv_sec;
        tv->tv_usec = t.tv_nsec / 1000;
    }
    return 0;
}

time_t
time(time_t *p)
{
    struct timespec t;
    clock_gettime(CLOCK_REALTIME, &t);
    if(p) *p = t.tv_sec;
    return t.tv_sec;
}

int
nanosleep(const struct timespec *req, struct timespec *rem)
{
    struct timespec r, left = {0, 0};
    if(req->tv_sec < 0 || req->tv_nsec < 0 || req->tv_nsec > 999999999) {
        errno = EINVAL;
        return -1;
    }
    long long n = (req->tv_sec * 1000000000LL + req->tv_nsec) / F;
    r.tv_sec = n / 1000000000LL;
    r.tv_nsec = n % 1000000000LL;
    int res = syscall(SYS_nanosleep, &r, &left);
    if(res < 0 && errno == EINTR && rem) {
        n = (left.tv_sec * 1000000000LL + left.tv_nsec) * F;
        rem->tv_sec = n / 1000000000LL;
        rem->tv_nsec = n % 1000000000LL;
    }
    return res;
}

int
clock_nanosleep(clockid_t clk, int flags, const struct timespec *req, struct timespec *rem)
{
    if(flags & TIMER_ABSTIME) {
        struct timespec t, d;
        clock_gettime(clk, &t);
        long long n = (req->tv_sec - t.tv_sec) * 1000000000LL + req->tv_nsec - t.tv_nsec;
        if(n <= 0) return 0;
        d.tv_sec = n / 1000000000LL;
        d.tv_nsec = n % 1000000000LL;
        return nanosleep(&d, NULL) ? errno : 0;
    }
    return nanosleep(req, rem) ? errno : 0;
}

int
usleep(useconds_t us)
{
    struct timespec t = {us / 1000000, us % 1000000 * 1000L};
    return nanosleep(&t, NULL);
}

unsigned int
sleep(unsigned int s)
{
    struct timespec t = {s, 0}, rem = {0, 0};
    if(nanosleep(&t, &rem)) return rem.tv_sec + (rem.tv_nsec > 0);
    return 0;
}

int
poll(struct pollfd *p, nfds_t n, int ms)
{
    struct timespec t = {(long)(ms / F) / 1000, (long)(ms / F * 1000000) % 1000000000L};
    return syscall(SYS_ppoll, p, n, ms < 0 ? NULL : &t, NULL, 8);
}

int
select(int n, fd_set *r, fd_set *w, fd_set *e, struct timeval *tv)
{
    struct timespec t;
    if(tv) {
        long long ns = (tv->tv_sec * 1000000000LL + tv->tv_usec * 1000LL) / F;
        t.tv_sec = ns / 1000000000LL;
        t.tv_nsec = ns % 1000000000LL;
    }
    return syscall(SYS_pselect6, n, r, w, e, tv ? &t : NULL, NULL);
}

static int
mychild(pid_t pid)
{
    char b[600], *p;
    snprintf(b, sizeof b, "/proc/%d/stat", (int)pid);
    int f = open(b, O_RDONLY | O_CLOEXEC), n, pp = -1;
    if(f < 0) return 0;
    n = read(f, b, sizeof b - 1);
    close(f);
    if(n <= 0) return 0;
    b[n] = 0;
    p = strrchr(b, ')');
    if(p) sscanf(p + 1, " %*c %d", &pp);
    return pp == getpid();
}

int
kill(pid_t pid, int sig)
{
    char b[80];
    int e = errno;
    int ok = pid == 0 || (pid < -1 && -pid == getpgrp()) || (pid > 0 && (pid == getpid() || mychild(pid)));
    int l = snprintf(b, sizeof b, "%s %d %d\n", ok ? "kill" : "stray", (int)pid, sig);
    if(klog >= 0) write(klog, b, l);
    errno = e;
    if(!ok) {
        errno = ESRCH;
        return -1;
    }
    return syscall(SYS_kill, pid, sig);
}

int
killpg(pid_t pgrp, int sig)
{
    return kill(pgrp ? -pgrp : 0, sig);
}

static pid_t (*rfork)(void);
#include <dlfcn.h>
pid_t
fork(void)
{
    char b[20];
    snprintf(b, sizeof b, ",%d,", ++forks);
    if(strstr(fails, b)) {
        errno = EAGAIN;
        return -1;
    }
    if(!rfork) rfork = dlsym(RTLD_NEXT, "fork");
    return rfork();
}
