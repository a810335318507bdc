/* A process for the master to supervise.  Lives in <dir>/bin/<key>, acts by <dir>/plan/<key> (one line per run) and
 * reports to <dir>/log/<key>.  Times are seconds of CLOCK_BOOTTIME, the start is the time of the fork. */
#define _GNU_SOURCE
#include <errno.h>
#include <fcntl.h>
#include <grp.h>
#include <signal.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <sys/resource.h>
#include <time.h>
#include <unistd.h>

static int fd, quitok = 1, termok = 1;

static double
now(void)
{
    struct timespec t;
    clock_gettime(CLOCK_BOOTTIME, &t);
    return t.tv_sec + t.tv_nsec / 1e9;
}

static void
say(char c, int n)
{
    char b[80];
    int l = snprintf(b, sizeof b, "%c %d %.4f %d\n", c, (int)getpid(), now(), n);
    write(fd, b, l);
}

static void
sig(int s)
{
    int e = errno;
    say(s == SIGTERM ? 'T' : s == SIGQUIT ? 'Q' : 'X', s);
    if((s == SIGTERM && termok) || (s == SIGQUIT && quitok) || (s != SIGTERM && s != SIGQUIT)) {
        signal(s, SIG_DFL);
        raise(s);
        sigset_t set;
        sigemptyset(&set);
        sigaddset(&set, s);
        sigprocmask(SIG_UNBLOCK, &set, NULL);
    }
    errno = e;
}

int
main(int argc, char *argv[])
{
    char exe[1000], path[1200], line[400], *key, *p;
    static char out[200000];
    int n, l, run = 0, i;
    unsigned long long ticks = 0;
    FILE *f;
    gid_t g[100];

    n = readlink("/proc/self/exe", exe, sizeof exe - 1);
    if(n <= 0) return 99;
    exe[n] = 0;
    key = strrchr(exe, '/');
    *key++ = 0;
    *strrchr(exe, '/') = 0;
    snprintf(path, sizeof path, "%s/log/%s", exe, key);
    fd = open(path, O_RDWR | O_APPEND);
    if(fd < 0) return 98;
    signal(SIGTERM, sig);
    signal(SIGQUIT, sig);
    signal(SIGINT, sig);
    signal(SIGHUP, sig);
    f = fopen(path, "r");
    while(fgets(out, sizeof out, f)) if(out[0] == 'S') run++;
    fclose(f);
    f = fopen("/proc/self/stat", "r");
    fgets(out, sizeof out, f);
    fclose(f);
    p = strrchr(out, ')');
    for(i = 0; i < 20 && p; i++) p = strchr(p + 1, ' ');
    if(p) ticks = strtoull(p, NULL, 10);
    l = sprintf(out, "S %d %.4f %.2f %d %d %d %d %d", (int)getpid(), now(), ticks / (double)sysconf(_SC_CLK_TCK), (int)getppid(),
                (int)getuid(), (int)geteuid(), (int)getgid(), (int)getegid());
    n = getgroups(100, g);
    l += sprintf(out + l, " %d", n);
    for(i = 0; i < n; i++) l += sprintf(out + l, " %d", (int)g[i]);
    l += sprintf(out + l, " %d", argc);
    for(i = 0; i < argc && l < (int)sizeof out - 3000; i++) {
        l += sprintf(out + l, " x");
        for(p = argv[i]; *p; p++) l += sprintf(out + l, "%02x", (unsigned char)*p);
    }
    out[l++] = '\n';
    snprintf(path, sizeof path, "%s/plan/%s", exe, key);
    f = fopen(path, "r");
    strcpy(line, "run");
    for(i = 0; f && i <= run; i++) if(!fgets(line, sizeof line, f)) strcpy(line, "run");
    if(f) fclose(f);
    /* what, number, milliseconds, flags */
    char what[40] = "run", flags[40] = "";
    int num = 0, ms = 0;
    sscanf(line, "%39s %d %d %39s", what, &num, &ms, flags);
    if(strchr(flags, 'q')) quitok = 0;
    if(strchr(flags, 't')) termok = 0;
    write(fd, out, l);
    if(!strcmp(what, "mem")) {
        p = malloc(num * 1024L);
        memset(p, 1, num * 1024L);
    }
    double end = now() + ms / 1000.0;
    if(!strcmp(what, "exit") || !strcmp(what, "sig")) {
        while(now() < end) usleep((end - now()) * 1e6 > 100 ? (end - now()) * 1e6 : 100);
        struct rlimit r = {0, 0};
        setrlimit(RLIMIT_CORE, &r);
        say('E', num);
        if(what[0] == 'e') _exit(num);
        signal(num, SIG_DFL);
        raise(num);
        _exit(97);
    }
    while(1) {
        if(!strcmp(what, "busy")) continue;
        if(!strcmp(what, "duty")) {
            double e = now() + num / 1000.0;
            while(now() < e);
            usleep(ms * 1000);
        } else pause();
    }
}
