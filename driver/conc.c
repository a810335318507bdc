/* Concurrent clients: reads a specification from a file, runs its threads at the same time and prints what
 * every call did and when.  usage: conc SPEC ; prints "ready", waits for a line on stdin, then runs.
 *   client N name sock cache how port  | hnd N slot ref count | grp N slot h h h...
 *   thread N            the operations that follow belong to a new thread that uses client N
 *   tr slot | tw slot hex | tm slot hex mask | at slot op hex | gr slot | gw slot hex | rd idx off n | wr idx off hex
 *   add name type count | get name | nap us
 * output: thread op start_ns end_ns rc hex */
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <unistd.h>
#include <time.h>
#include <getopt.h>
#include <pthread.h>
#include <sched.h>
#include <opendax.h>

#define NC 16
#define NS 64
#define NT 32
struct op { int kind, a, b; char name[64]; unsigned char *d, *m; int n; long long t0, t1; int rc; unsigned char *out; int outn; };
struct th { int client, nops; struct op *ops; pthread_t id; };
static dax_state *cl[NC];
static tag_handle hd[NC][NS];
static tag_group_id *gr[NC][NS];
static int gsize[NC][NS];
static struct th th[NT];
static int nth;
static pthread_barrier_t bar;
enum { TR, TW, TM, AT, GR, GW, RD, WR, ADD, GET, NAP, BI, HN, EV, MP, OV, GA };

static long long now(void) { struct timespec t; clock_gettime(CLOCK_MONOTONIC, &t); return t.tv_sec * 1000000000LL + t.tv_nsec; }
static unsigned char *unhex(const char *s, int *n) {
    int l = strlen(s) / 2; unsigned char *b = malloc(l + 64); unsigned x;
    for (int i = 0; i < l; i++) { sscanf(s + 2 * i, "%2x", &x); b[i] = x; }
    memset(b + l, 0, 64);
    *n = l; return b;
}

static void *run(void *a) {
    struct th *t = a;
    dax_state *ds = cl[t->client];
    pthread_barrier_wait(&bar);
    for (int i = 0; i < t->nops; i++) {
        struct op *o = &t->ops[i];
        tag_handle *h = &hd[t->client][o->a];
        dax_tag tag; tag_handle nh;
        o->out = malloc(4200);
        o->t0 = now();
        switch (o->kind) {
        case TR: o->rc = dax_tag_read(ds, *h, o->out); o->outn = h->size; break;
        case TW: o->rc = dax_tag_write(ds, *h, o->d); break;
        case TM: o->rc = dax_tag_mask(ds, *h, o->d, o->m); break;
        case AT: o->rc = dax_atomic_op(ds, *h, o->d, o->b); break;
        case GR: o->rc = dax_group_read(ds, gr[t->client][o->a], o->out, 4000); o->outn = gsize[t->client][o->a]; break;
        case GW: o->rc = dax_group_write(ds, gr[t->client][o->a], o->d); break;
        case RD: o->rc = dax_read(ds, o->a, o->b, o->out, o->n); o->outn = o->n; break;
        case WR: o->rc = dax_write(ds, o->a, o->b, o->d, o->n); break;
        case ADD: memset(&nh, 0, sizeof nh); o->rc = dax_tag_add(ds, &nh, o->name, o->a, o->b, 0); memcpy(o->out, &nh.index, 4); o->outn = 4; break;
        case GET: memset(&tag, 0, sizeof tag); o->rc = dax_tag_byname(ds, &tag, o->name); memcpy(o->out, &tag.idx, 4); o->outn = 4; break;
        case BI: memset(&tag, 0, sizeof tag); o->rc = dax_tag_byindex(ds, &tag, o->a); o->outn = strlen(tag.name); memcpy(o->out, tag.name, o->outn); break;
        case HN: memset(&nh, 0, sizeof nh); o->rc = dax_tag_handle(ds, &nh, o->name, o->b); memcpy(o->out, &nh.index, 4); memcpy(o->out + 4, &nh.byte, 4); memcpy(o->out + 8, &nh.size, 4); o->outn = 12; break;
        case EV: { dax_id id; int r; o->rc = dax_event_add(ds, h, EVENT_WRITE, NULL, &id, NULL, NULL, NULL);
            if (!o->rc) { o->rc = dax_event_options(ds, id, EVENT_OPT_SEND_DATA); r = dax_event_del(ds, id); if (!o->rc) o->rc = r; } break; }
        case MP: { dax_id id; tag_handle x, y, *g = &hd[t->client][o->b]; int r; o->rc = dax_map_add(ds, h, g, &id);
            if (!o->rc) { o->rc = dax_map_get(ds, &x, &y, id); r = dax_map_del(ds, id); if (!o->rc) o->rc = r;
                memcpy(o->out, &x.index, 4); memcpy(o->out + 4, &y.index, 4); memcpy(o->out + 8, &x.size, 4); memcpy(o->out + 12, &y.size, 4); o->outn = 16; } break; }
        case OV: { int r; o->rc = dax_tag_add_override(ds, *h, o->d);
            if (!o->rc) { o->rc = dax_tag_get_override(ds, *h, o->out, o->out + h->size); o->outn = 2 * h->size; r = dax_tag_del_override(ds, *h); if (!o->rc) o->rc = r; } break; }
        case GA: { tag_handle g[2] = { *h, hd[t->client][o->b] }; int r = 0; tag_group_id *id = dax_group_add(ds, &o->rc, g, 2, 0);
            if (id) { o->rc = dax_group_read(ds, id, o->out, 4000); o->outn = dax_group_get_size(id); r = dax_group_del(ds, id); if (!o->rc) o->rc = r; } break; }
        case NAP: if (o->a) usleep(o->a); else sched_yield(); break;
        }
        o->t1 = now();
        if (o->rc) o->outn = 0;
    }
    return NULL;
}

int main(int argc, char **argv) {
    static char line[20000], *w[80]; FILE *f = fopen(argv[1], "r");
    if (!f) return 3;
    while (fgets(line, sizeof line, f)) {
        int n = 0;
        for (char *p = strtok(line, " \n"); p && n < 80; p = strtok(NULL, " \n")) w[n++] = p;
        if (!n) continue;
#define OP(s) (!strcmp(w[0], s))
        if (OP("client")) {
            int c = atoi(w[1]), k = 0; char *av[16];
            av[k++] = "conc"; av[k++] = "-S";
            if (!strcmp(w[5], "net")) { av[k++] = "NETWORK"; av[k++] = "-I"; av[k++] = "127.0.0.1"; av[k++] = "-P"; av[k++] = strdup(w[6]); }
            else { av[k++] = "LOCAL"; av[k++] = "-U"; av[k++] = strdup(w[3]); }
            av[k++] = "-Z"; av[k++] = strdup(w[4]); av[k++] = "-O"; av[k++] = "30000"; av[k] = NULL;
            optind = 1;
            cl[c] = dax_init(strdup(w[2]));
            if (dax_configure(cl[c], k, av, CFG_CMDLINE) || dax_connect(cl[c])) { printf("setup connect %d\n", c); fflush(stdout); return 4; }
        } else if (OP("hnd")) {
            int c = atoi(w[1]);
            int r = dax_tag_handle(cl[c], &hd[c][atoi(w[2])], w[3], atoi(w[4]));
            if (r) { printf("setup handle %s %d\n", w[3], r); fflush(stdout); return 4; }
        } else if (OP("grp")) {
            int c = atoi(w[1]), s = atoi(w[2]), r = 0; tag_handle h[64];
            for (int i = 3; i < n; i++) { h[i - 3] = hd[c][atoi(w[i])]; gsize[c][s] += h[i - 3].size; }
            gr[c][s] = dax_group_add(cl[c], &r, h, n - 3, 0);
            if (!gr[c][s]) { printf("setup group %d\n", r); fflush(stdout); return 4; }
        } else if (OP("thread")) {
            th[nth].client = atoi(w[1]); nth++;
        } else {
            struct th *t = &th[nth - 1];
            t->ops = realloc(t->ops, (t->nops + 1) * sizeof(struct op));
            struct op *o = &t->ops[t->nops++];
            memset(o, 0, sizeof *o);
            int x;
            if (OP("tr")) { o->kind = TR; o->a = atoi(w[1]); }
            else if (OP("tw")) { o->kind = TW; o->a = atoi(w[1]); o->d = unhex(w[2], &o->n); }
            else if (OP("tm")) { o->kind = TM; o->a = atoi(w[1]); o->d = unhex(w[2], &o->n); o->m = unhex(w[3], &x); }
            else if (OP("at")) { o->kind = AT; o->a = atoi(w[1]); o->b = atoi(w[2]); o->d = unhex(n > 3 ? w[3] : "", &o->n); }
            else if (OP("gr")) { o->kind = GR; o->a = atoi(w[1]); }
            else if (OP("gw")) { o->kind = GW; o->a = atoi(w[1]); o->d = unhex(w[2], &o->n); }
            else if (OP("rd")) { o->kind = RD; o->a = atoi(w[1]); o->b = atoi(w[2]); o->n = atoi(w[3]); }
            else if (OP("wr")) { o->kind = WR; o->a = atoi(w[1]); o->b = atoi(w[2]); o->d = unhex(w[3], &o->n); }
            else if (OP("add")) { o->kind = ADD; snprintf(o->name, 64, "%s", w[1]); o->a = strtoul(w[2], NULL, 16); o->b = atoi(w[3]); }
            else if (OP("get")) { o->kind = GET; snprintf(o->name, 64, "%s", w[1]); }
            else if (OP("bi")) { o->kind = BI; o->a = atoi(w[1]); }
            else if (OP("hn")) { o->kind = HN; snprintf(o->name, 64, "%s", w[1]); o->b = atoi(w[2]); }
            else if (OP("ev")) { o->kind = EV; o->a = atoi(w[1]); }
            else if (OP("mp")) { o->kind = MP; o->a = atoi(w[1]); o->b = atoi(w[2]); }
            else if (OP("ov")) { o->kind = OV; o->a = atoi(w[1]); o->d = unhex(w[2], &o->n); }
            else if (OP("ga")) { o->kind = GA; o->a = atoi(w[1]); o->b = atoi(w[2]); }
            else if (OP("nap")) { o->kind = NAP; o->a = atoi(w[1]); }
            else return 5;
        }
    }
    pthread_barrier_init(&bar, NULL, nth);
    printf("ready\n");
    fflush(stdout);
    if (!fgets(line, sizeof line, stdin)) return 6;
    for (int i = 0; i < nth; i++) pthread_create(&th[i].id, NULL, run, &th[i]);
    for (int i = 0; i < nth; i++) pthread_join(th[i].id, NULL);
    for (int i = 0; i < nth; i++)
        for (int k = 0; k < th[i].nops; k++) {
            struct op *o = &th[i].ops[k];
            if (o->kind == NAP) continue;
            printf("%d %d %lld %lld %d ", i, k, o->t0, o->t1, o->rc);
            for (int j = 0; j < o->outn; j++) printf("%02x", o->out[j]);
            printf(o->outn ? "\n" : "-\n");
        }
    printf("end\n");
    fflush(stdout);
    _exit(0);
}
