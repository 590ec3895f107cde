#define _GNU_SOURCE
#include "vf.h"
#include <link.h>
#include <dlfcn.h>
#include <unistd.h>
#include <signal.h>
#include <fcntl.h>
#include <sys/mman.h>
#include <sys/time.h>
#include <time.h>

vf_stats_t vf_stats;
int vf_thorough, vf_shard, vf_nshards = 1;
jmp_buf vf_jmp;
volatile int vf_guarded, vf_exit_code;
int vf_replay_len = -1, vf_replay_path[4096];
FILE *vf_out;
static int64_t only = -1;
static char resfile[512], *knownfile;
static volatile uint64_t beat;
static int hang_s = 60;
/* flight record, a shared file: the driver reads it if this process dies */
typedef struct { volatile int64_t idx; char desc[8000]; } flight_t;
static flight_t *fl, fl_dummy;

static void put_json_str(FILE *f, const char *s)
{
    fputc('"', f);
    for(; *s; s++)
    {
        unsigned char c = *s;
        if(c == '"' || c == '\\') { fputc('\\', f); fputc(c, f); }
        else if(c < 32 || c > 126) fprintf(f, "\\u%04x", c);
        else fputc(c, f);
    }
    fputc('"', f);
}

#define MAXS 8
static char samples[MAXS][1024]; static int nsamples;
static struct { char key[64]; uint64_t n; } extra[128]; static int nextra;
static char known_keys[256][256]; static uint64_t known_hits[256]; static int nknown;

void vf_count(const char *key, uint64_t n)
{
    for(int i=0; i<nextra; i++) if(!strcmp(extra[i].key, key)) { extra[i].n += n; return; }
    if(nextra < 128) { snprintf(extra[nextra].key, 64, "%s", key); extra[nextra++].n = n; }
}
bool vf_known(const char *key)
{
    for(int i=0; i<nknown; i++) if(!strcmp(known_keys[i], key)) { known_hits[i]++; return true; }
    return false;
}
void vf_sample(const char *fmt, ...)
{
    if(nsamples >= MAXS) return;
    va_list ap; va_start(ap, fmt); vsnprintf(samples[nsamples++], 1024, fmt, ap); va_end(ap);
}
bool vf_case(void)
{
    int64_t i = vf_stats.cases++;
    beat++;
    if(only >= 0 ? i != only : (i % vf_nshards) != vf_shard) return false;
    fl->idx = i;
    vf_stats.run++;
    return true;
}
void vf_desc(const char *fmt, ...)
{
    beat++;
    va_list ap; va_start(ap, fmt); vsnprintf(fl->desc, sizeof fl->desc, fmt, ap); va_end(ap);
}
const char *vf_getdesc(void) { return fl->desc; }

static uint64_t *seen; static size_t seen_cap, seen_n;
uint64_t vf_hash(const void *p, size_t n, uint64_t h)
{
    const unsigned char *c = p;
    h ^= 0x9E3779B97F4A7C15ull + n;
    while(n >= 8) { uint64_t v; memcpy(&v, c, 8); h ^= v; h *= 0xff51afd7ed558ccdull; h ^= h >> 32; c += 8; n -= 8; }
    while(n--) { h ^= *c++; h *= 0x100000001b3ull; h ^= h >> 29; }
    h ^= h >> 33; h *= 0xc4ceb9fe1a85ec53ull; h ^= h >> 33;
    return h;
}
void vf_seen_reset(void) { if(seen) memset(seen, 0, seen_cap * 8); seen_n = 0; }
bool vf_seen(uint64_t h)
{
    if(h == 0) h = 1;
    if(seen_n * 2 >= seen_cap)
    {
        size_t nc = seen_cap ? seen_cap * 2 : 1 << 16;
        uint64_t *ns = calloc(nc, 8);
        for(size_t i=0; i<seen_cap; i++) if(seen[i]) { size_t j = seen[i] & (nc-1); while(ns[j]) j = (j+1) & (nc-1); ns[j] = seen[i]; }
        free(seen); seen = ns; seen_cap = nc;
    }
    size_t j = h & (seen_cap-1);
    while(seen[j]) { if(seen[j] == h) return false; j = (j+1) & (seen_cap-1); }
    seen[j] = h; seen_n++;
    return true;
}

static void write_result(const char *verdict, const char *msg)
{
    FILE *f = fopen(resfile, "w");
    if(!f) return;
    fprintf(f, "{\"verdict\": \"%s\", \"cases\": %llu, \"run\": %llu, \"states\": %llu, \"transitions\": %llu, \"validated\": %llu, \"nontrivial\": %llu, \"distinct\": %llu",
            verdict, (unsigned long long) vf_stats.cases, (unsigned long long) vf_stats.run, (unsigned long long) vf_stats.states, (unsigned long long) vf_stats.transitions,
            (unsigned long long) vf_stats.validated, (unsigned long long) vf_stats.nontrivial, (unsigned long long) seen_n);
    fprintf(f, ", \"extra\": {");
    for(int i=0; i<nextra; i++) { if(i) fputs(", ", f); put_json_str(f, extra[i].key); fprintf(f, ": %llu", (unsigned long long) extra[i].n); }
    fprintf(f, "}, \"known\": {");
    for(int i=0, k=0; i<nknown; i++) if(known_hits[i]) { if(k++) fputs(", ", f); put_json_str(f, known_keys[i]); fprintf(f, ": %llu", (unsigned long long) known_hits[i]); }
    fprintf(f, "}, \"samples\": [");
    for(int i=0; i<nsamples; i++) { if(i) fputs(", ", f); put_json_str(f, samples[i]); }
    fprintf(f, "], \"case\": %lld, \"desc\": ", (long long) fl->idx); put_json_str(f, fl->desc);
    fprintf(f, ", \"msg\": "); put_json_str(f, msg); fprintf(f, "}\n");
    fclose(f);
}
void vf_fail(const char *fmt, ...)
{
    char m[6000];
    va_list ap; va_start(ap, fmt); vsnprintf(m, sizeof m, fmt, ap); va_end(ap);
    write_result("fail", m);
    fprintf(vf_out, "FAIL case=%lld [%s]: %s\n", (long long) fl->idx, fl->desc, m);
    fflush(vf_out);
    _exit(10);
}

/* exit() of the code under test (internal check failed): unwinds to the guard, else counts as a violation */
void exit(int code)
{
    vf_exit_code = code;
    if(vf_guarded) { vf_guarded = 0; longjmp(vf_jmp, 1); }
    const char *t = vf_cap();
    size_t n = t ? strlen(t) : 0;
    vf_fail("the code under test called exit(%d); last output: %s", code, t ? t + (n > 300 ? n-300 : 0) : "");
}

/* ---- snapshots of libnar's writable segments ---- */
static struct { char *p; size_t n; } segs[8]; static int nsegs; static size_t segtotal;
static int phdr_cb(struct dl_phdr_info *i, size_t sz, void *d)
{
    (void) sz; (void) d;
    if(!i->dlpi_name || !strstr(i->dlpi_name, "libnar")) return 0;
    uintptr_t rs = 0, re = 0, pg = 4095;
    for(int k=0; k<i->dlpi_phnum; k++) if(i->dlpi_phdr[k].p_type == PT_GNU_RELRO)
    { rs = i->dlpi_addr + i->dlpi_phdr[k].p_vaddr; re = rs + i->dlpi_phdr[k].p_memsz; re = (re + pg) & ~pg; }
    for(int k=0; k<i->dlpi_phnum; k++)
    {
        const ElfW(Phdr) *p = &i->dlpi_phdr[k];
        if(p->p_type != PT_LOAD || !(p->p_flags & PF_W)) continue;
        uintptr_t s = i->dlpi_addr + p->p_vaddr, e = s + p->p_memsz;
        if(re > s && rs <= s) s = re < e ? re : e;
        if(e > s) { segs[nsegs].p = (char*) s; segs[nsegs].n = e - s; segtotal += e - s; nsegs++; }
    }
    return 0;
}
size_t vf_snap_size(void) { if(!nsegs) dl_iterate_phdr(phdr_cb, NULL); return segtotal; }
__attribute__((no_sanitize("address"))) static void rawcopy(char *d, const char *s, size_t n)
{
    size_t k = n / 8;
    uint64_t *dd = (uint64_t*) d; const uint64_t *ss = (const uint64_t*) s;
    for(size_t i=0; i<k; i++) { if(dd[i] != ss[i]) dd[i] = ss[i]; }
    for(size_t i=k*8; i<n; i++) d[i] = s[i];
}
void vf_snap(void *buf) { vf_snap_size(); char *b = buf; for(int i=0; i<nsegs; i++) { rawcopy(b, segs[i].p, segs[i].n); b += segs[i].n; } }
void vf_restore(const void *buf) { const char *b = buf; for(int i=0; i<nsegs; i++) { rawcopy(segs[i].p, b, segs[i].n); b += segs[i].n; } }
void *vf_snap_new(void)
{
    size_t n = vf_snap_size();
    void *b = mmap(NULL, n + 4096, PROT_READ|PROT_WRITE, MAP_PRIVATE|MAP_ANONYMOUS, -1, 0);
    vf_snap(b);
    return b;
}

/* ---- capture ---- */
static char *capbuf; static size_t capsize; static FILE *capf, *nullf;
void vf_quiet(void) { if(!nullf) nullf = fopen("/dev/null", "w"); stdout = nullf; }
void vf_cap_begin(void)
{
    if(!capf) capf = open_memstream(&capbuf, &capsize);
    stdout = capf;
    fflush(capf);
    fseeko(capf, 0, SEEK_SET);
}
const char *vf_cap(void)
{
    if(!capf) return "";
    fputc(0, capf); fflush(capf); fseeko(capf, -1, SEEK_CUR);
    return capbuf ? capbuf : "";
}

/* ---- crashes and hangs ---- */
static void on_crash(int sig)
{
    char m[100]; snprintf(m, sizeof m, "the code under test crashed with signal %d", sig);
    write_result("crash", m);
    _exit(11);
}
static void on_tick(int sig)
{
    (void) sig;
    static uint64_t last; static int stuck;
    if(beat != last) { last = beat; stuck = 0; return; }
    if(++stuck >= hang_s) { write_result("hang", "no progress within the time limit of one case"); _exit(12); }
}
uint64_t vf_ticks(void) { struct timespec t; clock_gettime(CLOCK_MONOTONIC, &t); return t.tv_sec*1000ull + t.tv_nsec/1000000; }

#if defined(__SANITIZE_ADDRESS__)
void __asan_set_death_callback(void (*cb)(void));
static void on_asan(void) { write_result("crash", "memory error detected (see stderr)"); }
#endif
int main(int argc, char **argv)
{
    fl = &fl_dummy;
    vf_out = stdout;
    snprintf(resfile, sizeof resfile, "/dev/null");
    char *flight = NULL;
    for(int i=1; i<argc; i++)
    {
        if(!strcmp(argv[i], "--thorough")) vf_thorough = 1;
        else if(!strcmp(argv[i], "--shard") && i+2 < argc) { vf_shard = atoi(argv[i+1]); vf_nshards = atoi(argv[i+2]); i += 2; }
        else if(!strcmp(argv[i], "--only") && i+1 < argc) only = atoll(argv[++i]);
        else if(!strcmp(argv[i], "--res") && i+1 < argc) snprintf(resfile, sizeof resfile, "%s", argv[++i]);
        else if(!strcmp(argv[i], "--flight") && i+1 < argc) flight = argv[++i];
        else if(!strcmp(argv[i], "--known") && i+1 < argc) knownfile = argv[++i];
        else if(!strcmp(argv[i], "--hang") && i+1 < argc) hang_s = atoi(argv[++i]);
        else if(!strcmp(argv[i], "--path") && i+1 < argc)
        {
            vf_replay_len = 0;
            for(char *s = argv[++i]; *s; ) { vf_replay_path[vf_replay_len++] = strtol(s, &s, 10); if(*s) s++; }
        }
    }
    if(flight)
    {
        int fd = open(flight, O_RDWR|O_CREAT|O_TRUNC, 0644);
        if(fd >= 0 && ftruncate(fd, sizeof(flight_t)) == 0)
        {
            void *m = mmap(NULL, sizeof(flight_t), PROT_READ|PROT_WRITE, MAP_SHARED, fd, 0);
            if(m != MAP_FAILED) fl = m;
        }
    }
    if(knownfile)
    {
        FILE *f = fopen(knownfile, "r");
        if(f) { while(nknown < 256 && fgets(known_keys[nknown], 256, f)) { known_keys[nknown][strcspn(known_keys[nknown], "\n")] = 0; if(known_keys[nknown][0]) nknown++; } fclose(f); }
    }
#if defined(__SANITIZE_ADDRESS__)
    __asan_set_death_callback(on_asan);
#else
    static char altstack[65536]; stack_t st = { .ss_sp = altstack, .ss_size = sizeof altstack };
    sigaltstack(&st, NULL);
    struct sigaction sa = { .sa_handler = on_crash, .sa_flags = SA_ONSTACK };
    sigaction(SIGSEGV, &sa, NULL); sigaction(SIGBUS, &sa, NULL); sigaction(SIGFPE, &sa, NULL); sigaction(SIGABRT, &sa, NULL); sigaction(SIGILL, &sa, NULL);
#endif
    struct sigaction st2 = { .sa_handler = on_tick, .sa_flags = SA_RESTART };
    sigaction(SIGALRM, &st2, NULL);
    struct itimerval it = { {1,0}, {1,0} }; setitimer(ITIMER_REAL, &it, NULL);
    vf_snap_size();
    int rc = vf_main();
    write_result(rc == 0 ? "ok" : "fail", "");
    fflush(vf_out);
    _exit(rc);
}
