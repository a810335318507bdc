/* Line driven client of the public OpenDAX API (opendax.h).
 * Reads one command per line on fd 3, answers one line on fd 4.
 * Strings and data are hex encoded ("-" = empty / NULL).
 * All buffers handed to the library are allocated with their exact size, so that ASan sees overruns. */
#define _GNU_SOURCE
#include <opendax.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <stdarg.h>
#include <pthread.h>
#include <unistd.h>
#include <sys/socket.h>
#include <sys/stat.h>

#define NCL 16
#define NSLOT 4096

static dax_state *cl[NCL];
static tag_handle hs[NSLOT];
static struct ev { dax_id id; int c; int size; int slot; } *es[NSLOT];
static dax_id ms[NSLOT];
static tag_group_id *gs[NSLOT];
static tag_type ts[NSLOT];
static int freed_events;
static volatile int disc[NCL];

static FILE *in, *out;
static char *evout; static size_t evlen;
static FILE *evf;

static int hv(int c) { return c <= '9' ? c - '0' : (c | 32) - 'a' + 10; }

/* exact-size buffer from hex */
static unsigned char *unhex(const char *s, int *n) {
    int len = (!s || s[0] == '-') ? 0 : strlen(s) / 2, i;
    unsigned char *b = malloc(len ? len : 1);
    for (i = 0; i < len; i++) b[i] = hv(s[2*i]) * 16 + hv(s[2*i+1]);
    if (n) *n = len;
    return b;
}
static char *unstr(const char *s) {
    int n; unsigned char *b = unhex(s, &n);
    char *r = malloc(n + 1);
    memcpy(r, b, n); r[n] = 0; free(b);
    return r;
}
static void puthex(FILE *f, const void *p, int n) {
    int i;
    if (n <= 0) { fputc('-', f); return; }
    for (i = 0; i < n; i++) fprintf(f, "%02x", ((const unsigned char *)p)[i]);
}
static void putstr(FILE *f, const char *s) {
    if (!s) { fputs("NULL", f); return; }
    puthex(f, s, strlen(s));
}

static void ev_cb(dax_state *ds, void *ud) {
    struct ev *e = ud;
    unsigned char *b = malloc(8192);
    int r = dax_event_get_data(ds, b, 8192);
    fprintf(evf, " e%d:%d:", e->slot, r);
    puthex(evf, b, r > 0 ? r : 0);
    free(b);
}
static void ev_free(void *ud) { freed_events++; }
static void disc_cb(int r) { }

static tag_type gettype(const char *s) {
    tag_type t = 0;
    if (s[0] == 'q') { t = DAX_QUEUE; s++; }
    if (s[0] == 't') return t | ts[atoi(s + 1)];
    return t | (tag_type)strtoul(s, NULL, 16);
}

static struct { int n; char buf[65536]; } it;
static void iter_cb(cdt_iter m, void *ud) {
    FILE *f = ud;
    fprintf(f, " ");
    putstr(f, m.name);
    fprintf(f, ":%x:%d:%d:%d", m.type, m.count, m.byte, m.bit);
}

/* the socket the library opened, so that a module that dies can be imitated */
static int sockfd[NCL];
static void sockets(char *set) {
    struct stat st; int i;
    for (i = 0; i < 256; i++) set[i] = fstat(i, &st) == 0 && S_ISSOCK(st.st_mode);
}

static void do_connect(int c, char *name, char *cache, char *how, char *addr, char *port, char *tmo) {
    char *argv[20]; int n = 0, r;
    argv[n++] = strdup("daxdrv");
    if (!strcmp(how, "net")) {
        argv[n++] = "-S"; argv[n++] = strdup("NETWORK");
        argv[n++] = "-I"; argv[n++] = strdup(addr);
        argv[n++] = "-P"; argv[n++] = strdup(port);
    } else {
        argv[n++] = "-S"; argv[n++] = strdup("LOCAL");
        argv[n++] = "-U"; argv[n++] = strdup(addr);
    }
    argv[n++] = "-Z"; argv[n++] = strdup(cache);
    argv[n++] = "-O"; argv[n++] = strdup(tmo);
    argv[n] = NULL;
    optind = 1;
    cl[c] = dax_init(name);
    r = dax_configure(cl[c], n, argv, CFG_CMDLINE);
    if (r) { fprintf(out, "%d configure", r); return; }
    char before[256], after[256]; int i;
    sockets(before);
    r = dax_connect(cl[c]);
    sockets(after);
    sockfd[c] = -1;
    for (i = 0; i < 256; i++) if (after[i] && !before[i]) sockfd[c] = i;
    fprintf(out, "%d", r);
}

/* several API calls at once on one client, from different threads, is not promised by the library for one
 * state object; the mt command uses one state object per thread. */
struct mt { dax_state *ds; tag_handle h; int n, kind; int r; unsigned char *data; unsigned seed; };
static void *mt_run(void *a) {
    struct mt *m = a; int i, r;
    for (i = 0; i < m->n; i++) {
        r = dax_atomic_op(m->ds, m->h, m->data, m->kind);
        if (r) m->r = r;
    }
    return NULL;
}

int main(int argc, char **argv) {
    char *line = NULL; size_t cap = 0; ssize_t len;
    in = fdopen(3, "r"); out = fdopen(4, "w");
    if (!in || !out) return 2;
    setvbuf(out, NULL, _IOFBF, 1 << 16);
    while ((len = getline(&line, &cap, in)) > 0) {
        char *a[512]; int n = 0, r, k, c;
        char *sp = NULL, *t;
        for (t = strtok_r(line, " \n", &sp); t && n < 511; t = strtok_r(NULL, " \n", &sp)) a[n++] = t;
        a[n] = NULL;
        if (n == 0) continue;
        c = n > 1 ? atoi(a[1]) : 0;
        dax_state *ds = (c >= 0 && c < NCL) ? cl[c] : NULL;
#define OP(s) (!strcmp(a[0], s))
        if (OP("flush")) { fflush(out); continue; }
        if (OP("unbuf")) { setvbuf(out, NULL, _IONBF, 0); continue; }
        else if (OP("connect")) { char *nm = unstr(a[2]); do_connect(c, nm, a[3], a[4], a[5], a[6], a[7]); /* the logger keeps the name */ }
        else if (OP("disc")) { r = dax_disconnect(ds); fprintf(out, "%d", r); }
        else if (OP("drop")) { r = sockfd[c] < 0 ? -1 : shutdown(sockfd[c], SHUT_RDWR); fprintf(out, "%d", r); }
        else if (OP("add")) {       /* add c slot name type count attr */
            int s = atoi(a[2]); char *nm = unstr(a[3]); tag_handle h; memset(&h, 0, sizeof h);
            r = dax_tag_add(ds, &h, nm, gettype(a[4]), strtol(a[5], NULL, 0), strtoul(a[6], NULL, 0));
            if (r == 0) hs[s] = h;
            if (r == 0) fprintf(out, "0 %d %u %u %u %u %x", h.index, h.byte, h.bit, h.count, h.size, h.type);
            else fprintf(out, "%d", r);
            free(nm);
        }
        else if (OP("del")) {       /* del c idx|hslot */
            tag_index i = a[2][0] == 'h' ? hs[atoi(a[2] + 1)].index : atoi(a[2]);
            r = dax_tag_del(ds, i); fprintf(out, "%d", r);
        }
        else if (OP("byname") || OP("byidx")) {
            dax_tag *tg = calloc(1, sizeof *tg);
            if (OP("byname")) { char *nm = unstr(a[2]); r = dax_tag_byname(ds, tg, nm); free(nm); }
            else r = dax_tag_byindex(ds, tg, a[2][0] == 'h' ? hs[atoi(a[2] + 1)].index : atoi(a[2]));
            if (r) fprintf(out, "%d", r);
            else { fprintf(out, "0 %d %x %u %x ", tg->idx, tg->type, tg->count, tg->attr); putstr(out, tg->name); }
            free(tg);
        }
        else if (OP("hnd")) {       /* hnd c slot str count */
            int s = atoi(a[2]); char *st = unstr(a[3]); tag_handle h; memset(&h, 0, sizeof h);
            r = dax_tag_handle(ds, &h, st, atoi(a[4]));
            if (r == 0) hs[s] = h;
            if (r == 0) fprintf(out, "0 %d %u %u %u %u %x", h.index, h.byte, h.bit, h.count, h.size, h.type);
            else fprintf(out, "%d", r);
            free(st);
        }
        else if (OP("hset")) {      /* hset c slot idx byte bit count size type */
            tag_handle h; memset(&h, 0, sizeof h);
            h.index = a[3][0] == 'h' ? hs[atoi(a[3] + 1)].index : atoi(a[3]);
            h.byte = strtoul(a[4], 0, 0); h.bit = atoi(a[5]); h.count = strtoul(a[6], 0, 0);
            h.size = strtoul(a[7], 0, 0); h.type = gettype(a[8]);
            hs[atoi(a[2])] = h; fprintf(out, "0");
        }
        else if (OP("fqn")) {
            char *f = dax_fqn(ds, hs[atoi(a[2])]); putstr(out, f); free(f);
        }
        else if (OP("tr")) {
            tag_handle h = hs[atoi(a[2])]; unsigned char *b = malloc(h.size ? h.size : 1);
            memset(b, 0xEE, h.size);
            r = dax_tag_read(ds, h, b); fprintf(out, "%d ", r); puthex(out, b, r ? 0 : h.size); free(b);
        }
        else if (OP("tw")) {
            unsigned char *b = unhex(a[3], NULL);
            r = dax_tag_write(ds, hs[atoi(a[2])], b); fprintf(out, "%d", r); free(b);
        }
        else if (OP("tm")) {
            unsigned char *b = unhex(a[3], NULL), *m = unhex(a[4], NULL);
            r = dax_tag_mask(ds, hs[atoi(a[2])], b, m); fprintf(out, "%d", r); free(b); free(m);
        }
        else if (OP("rr")) {        /* rr c idx off size */
            int sz = atoi(a[4]); unsigned char *b = malloc(sz ? sz : 1);
            r = dax_read(ds, a[2][0] == 'h' ? hs[atoi(a[2] + 1)].index : atoi(a[2]), strtoul(a[3], 0, 0), b, sz);
            fprintf(out, "%d ", r); puthex(out, b, r ? 0 : sz); free(b);
        }
        else if (OP("rw")) {
            int sz; unsigned char *b = unhex(a[4], &sz);
            r = dax_write(ds, a[2][0] == 'h' ? hs[atoi(a[2] + 1)].index : atoi(a[2]), strtoul(a[3], 0, 0), b, sz);
            fprintf(out, "%d", r); free(b);
        }
        else if (OP("rm")) {
            int sz; unsigned char *b = unhex(a[4], &sz), *m = unhex(a[5], NULL);
            r = dax_mask(ds, a[2][0] == 'h' ? hs[atoi(a[2] + 1)].index : atoi(a[2]), strtoul(a[3], 0, 0), b, m, sz);
            fprintf(out, "%d", r); free(b); free(m);
        }
        else if (OP("oa")) { unsigned char *b = unhex(a[3], NULL); r = dax_tag_add_override(ds, hs[atoi(a[2])], b); fprintf(out, "%d", r); free(b); }
        else if (OP("od")) { r = dax_tag_del_override(ds, hs[atoi(a[2])]); fprintf(out, "%d", r); }
        else if (OP("os")) { r = dax_tag_set_override(ds, hs[atoi(a[2])]); fprintf(out, "%d", r); }
        else if (OP("oc")) { r = dax_tag_clr_override(ds, hs[atoi(a[2])]); fprintf(out, "%d", r); }
        else if (OP("og")) {
            tag_handle h = hs[atoi(a[2])]; unsigned char *b = malloc(h.size ? h.size : 1), *m = malloc(h.size ? h.size : 1);
            r = dax_tag_get_override(ds, h, b, m); fprintf(out, "%d ", r);
            puthex(out, b, r ? 0 : h.size); fputc(' ', out); puthex(out, m, r ? 0 : h.size); free(b); free(m);
        }
        else if (OP("at")) {        /* at c hslot op hex */
            unsigned char *b = unhex(a[4], NULL);
            r = dax_atomic_op(ds, hs[atoi(a[2])], a[4][0] == '-' ? NULL : b, atoi(a[3])); fprintf(out, "%d", r); free(b);
        }
        else if (OP("ea")) {        /* ea c eslot hslot type hex */
            int s = atoi(a[2]); unsigned char *b = unhex(a[5], NULL);
            struct ev *e = calloc(1, sizeof *e); tag_handle h = hs[atoi(a[3])];
            e->slot = s; e->c = c; e->size = h.size;
            r = dax_event_add(ds, &h, atoi(a[4]), a[5][0] == '-' ? NULL : b, &e->id, ev_cb, e, ev_free);
            if (r == 0) { es[s] = e; fprintf(out, "0 %d %d", e->id.index, e->id.id); }
            else fprintf(out, "%d", r);
            free(b);
        }
        else if (OP("ed") || OP("eo")) {
            struct ev *e = es[atoi(a[2])]; int f0 = freed_events;
            dax_id id; if (e) id = e->id; else { id.index = 99999; id.id = 99999; }
            if (OP("ed")) { r = dax_event_del(ds, id); fprintf(out, "%d %d", r, freed_events - f0); }
            else { r = dax_event_options(ds, id, atoi(a[3])); fprintf(out, "%d", r); }
        }
        else if (OP("edx")) { dax_id id; id.index = a[2][0] == 'h' ? hs[atoi(a[2] + 1)].index : atoi(a[2]); id.id = atoi(a[3]); r = dax_event_del(ds, id); fprintf(out, "%d", r); }
        else if (OP("ep")) {        /* sync round trip, then drain */
            unsigned char b[4]; int guard = 0;
            r = dax_read(ds, 0, 0, b, 4);
            evf = open_memstream(&evout, &evlen);
            while (guard++ < 64) { dax_id id; int q = dax_event_poll(ds, &id); if (q == ERR_NOTFOUND) break; if (q) fprintf(evf, " err%d", q); }
            fclose(evf);
            fprintf(out, "%d%s", r, evout); free(evout); evout = NULL;
        }
        else if (OP("e1")) {        /* e1 c: dax_event_poll once */
            dax_id id; evf = open_memstream(&evout, &evlen);
            r = dax_event_poll(ds, &id);
            fclose(evf); fprintf(out, "%d%s", r, evout); free(evout); evout = NULL;
        }
        else if (OP("ew")) {        /* ew c timeout: dax_event_wait once */
            dax_id id; evf = open_memstream(&evout, &evlen);
            r = dax_event_wait(ds, atoi(a[2]), &id);
            fclose(evf); fprintf(out, "%d%s", r, evout); free(evout); evout = NULL;
        }
        else if (OP("ma")) { int s = atoi(a[2]); tag_handle x = hs[atoi(a[3])], y = hs[atoi(a[4])]; dax_id id; memset(&id, 0, sizeof id);
            r = dax_map_add(ds, &x, &y, &id); if (r == 0) { ms[s] = id; fprintf(out, "0 %d %d", id.index, id.id); } else fprintf(out, "%d", r); }
        else if (OP("md")) { r = dax_map_del(ds, ms[atoi(a[2])]); fprintf(out, "%d", r); }
        else if (OP("mg")) { tag_handle x, y; memset(&x, 0, sizeof x); memset(&y, 0, sizeof y);
            r = dax_map_get(ds, &x, &y, ms[atoi(a[2])]);
            if (r) fprintf(out, "%d", r);
            else fprintf(out, "0 %d,%u,%u,%u,%u,%x %d,%u,%u,%u,%u,%x", x.index, x.byte, x.bit, x.count, x.size, x.type,
                         y.index, y.byte, y.bit, y.count, y.size, y.type); }
        else if (OP("mgx") || OP("mdx")) { dax_id id; tag_handle x, y; id.index = a[2][0] == 'h' ? hs[atoi(a[2] + 1)].index : atoi(a[2]); id.id = atoi(a[3]);
            r = OP("mgx") ? dax_map_get(ds, &x, &y, id) : dax_map_del(ds, id); fprintf(out, "%d", r); }
        else if (OP("ga")) {        /* ga c gslot h... */
            int s = atoi(a[2]), cnt = n - 3; tag_handle *h = malloc(sizeof(tag_handle) * (cnt ? cnt : 1));
            for (k = 0; k < cnt; k++) h[k] = hs[atoi(a[3 + k])];
            r = 0; tag_group_id *g = dax_group_add(ds, &r, h, cnt, 0);
            free(h);
            if (r == 0 && g) { gs[s] = g; fprintf(out, "0 %d", dax_group_get_size(g)); }
            else fprintf(out, "%d", r);
        }
        else if (OP("gr")) { tag_group_id *g = gs[atoi(a[2])]; if (!g) fprintf(out, "none"); else {
            int sz = dax_group_get_size(g); unsigned char *b = malloc(sz ? sz : 1);
            r = dax_group_read(ds, g, b, sz); fprintf(out, "%d ", r); puthex(out, b, r ? 0 : sz); free(b); } }
        else if (OP("gw")) { tag_group_id *g = gs[atoi(a[2])]; if (!g) fprintf(out, "none"); else {
            unsigned char *b = unhex(a[3], NULL); r = dax_group_write(ds, g, b); fprintf(out, "%d", r); free(b); } }
        else if (OP("gd")) { tag_group_id *g = gs[atoi(a[2])]; if (!g) fprintf(out, "none"); else {
            r = dax_group_del(ds, g); if (r == 0) gs[atoi(a[2])] = NULL; fprintf(out, "%d", r); } }
        else if (OP("ct")) {        /* ct c tslot name [mname type count]... */
            int s = atoi(a[2]), err = 0; char *nm = unstr(a[3]); dax_cdt *d = dax_cdt_new(nm, &err); free(nm);
            if (!d) fprintf(out, "n%d", err);
            else {
                r = 0;
                for (k = 4; k + 2 < n && r == 0; k += 3) { char *mn = unstr(a[k]); r = dax_cdt_member(ds, d, mn, gettype(a[k+1]), strtoul(a[k+2], 0, 0)); free(mn); }
                if (r) { fprintf(out, "m%d", r); dax_cdt_free(d); }
                else { tag_type ty = 0; r = dax_cdt_create(ds, d, &ty); if (r == 0) { ts[s] = ty; fprintf(out, "0 %x", ty); } else fprintf(out, "%d", r); }
            }
        }
        else if (OP("s2t")) { char *nm = unstr(a[2]); tag_type ty = dax_string_to_type(ds, nm); if (n > 3 && ty) ts[atoi(a[3])] = ty; fprintf(out, "%x", ty); free(nm); }
        else if (OP("t2s")) { putstr(out, dax_type_to_string(ds, gettype(a[2]))); }
        else if (OP("ci")) { char *o; size_t ol; FILE *f = open_memstream(&o, &ol);
            r = dax_cdt_iter(ds, gettype(a[2]), f, iter_cb); fclose(f); fprintf(out, "%d%s", r, o); free(o); }
        else if (OP("cn")) { fprintf(out, "%d", dax_cdt_member_count(ds, gettype(a[2]))); }
        else if (OP("sz")) { fprintf(out, "%d", dax_get_typesize(ds, gettype(a[2]))); }
        else if (OP("v2s")) {       /* v2s 0 type hex index size */
            unsigned char *b = unhex(a[3], NULL); int sz = atoi(a[5]); char *s = malloc(sz); memset(s, 'Z', sz);
            r = dax_val_to_string(s, sz, gettype(a[2]), b, atoi(a[4])); fprintf(out, "%d ", r);
            puthex(out, s, strnlen(s, sz)); free(s); free(b); }
        else if (OP("s2v")) {       /* s2v 0 type str index bufhex  -> rc buf mask */
            char *s = unstr(a[3]); int bl; unsigned char *b = unhex(a[5], &bl), *m = malloc(bl ? bl : 1);
            memset(m, 0, bl);
            r = dax_string_to_val(s, gettype(a[2]), b, m, atoi(a[4])); fprintf(out, "%d ", r);
            puthex(out, b, bl); fputc(' ', out); puthex(out, m, bl); free(b); free(m); free(s); }
        else if (OP("rt")) {        /* rt 0 type hex index -> rc text rc buf mask: to text and back into another buffer */
            int bl; unsigned char *b = unhex(a[3], &bl), *d = malloc(bl), *m = calloc(1, bl); char *s = malloc(64);
            memset(d, 0x5A, bl); memset(s, 'Z', 64);
            r = dax_val_to_string(s, 64, gettype(a[2]), b, atoi(a[4])); fprintf(out, "%d ", r);
            puthex(out, s, strnlen(s, 64)); fputc(' ', out);
            s[63] = 0;
            r = dax_string_to_val(s, gettype(a[2]), d, m, atoi(a[4])); fprintf(out, "%d ", r);
            puthex(out, d, bl); fputc(' ', out); puthex(out, m, bl); free(b); free(d); free(m); free(s); }
        else if (OP("e2t")) { char *s = unstr(a[2]); fprintf(out, "%d", dax_event_string_to_type(s)); free(s); }
        else if (OP("t2e")) { putstr(out, dax_event_type_to_string(atoi(a[2]))); }
        else if (OP("mt")) {        /* mt n op hex c:h ... : concurrent atomic ops, one thread per client */
            struct mt m[NCL]; pthread_t th[NCL]; int q = 0; memset(m, 0, sizeof m);
            for (k = 4; k < n && q < NCL; k++, q++) {
                int cc, hh; sscanf(a[k], "%d:%d", &cc, &hh);
                m[q].ds = cl[cc]; m[q].h = hs[hh]; m[q].n = atoi(a[1]); m[q].kind = atoi(a[2]); m[q].data = unhex(a[3], NULL);
            }
            for (k = 0; k < q; k++) pthread_create(&th[k], NULL, mt_run, &m[k]);
            for (k = 0, r = 0; k < q; k++) { pthread_join(th[k], NULL); if (m[k].r) r = m[k].r; }
            fprintf(out, "%d", r);
        }
        else if (OP("status")) { char *s = unstr(a[3]); r = !strcmp(a[2], "run") ? dax_set_running(ds, atoi(a[3])) : !strcmp(a[2], "flt") ? dax_set_faulted(ds, atoi(a[3])) : dax_set_status(ds, s); fprintf(out, "%d", r); free(s); }
        else if (OP("quit")) { fprintf(out, "bye\n"); fflush(out); _exit(0); }
        else fprintf(out, "?");
        fputc('\n', out);
        if (OP("now") || in->_IO_read_ptr >= in->_IO_read_end) fflush(out);
    }
    fflush(out);
    _exit(0);
}
