/* P30: the real network service under a controlled scheduler. Threads are coroutines; all synchronisation operations, socket
 * calls, sleeps and all accesses of the network code to memory (compiler instrumentation) are scheduling points, and all
 * interleavings are explored (stateful depth-first search, re-execution from the start for every branch). */
#define _GNU_SOURCE
#include "vf.h"
#include "NAR.h"
#include "Shell.h"
#include "Stats.h"
#include "NetworkNAR/UDPNAR.h"
#include "dump.h"
#include <ucontext.h>
#include <dlfcn.h>
#include <errno.h>
#include <poll.h>
#include <semaphore.h>
#include <sys/mman.h>
#include <sys/select.h>
#include <unistd.h>
void Metric_send(const char* path, int value) {}
enum { NT = 6, STK = 1 << 20, FD = 77, MAXD = 4000 };
typedef enum { OP_START, OP_YIELD, OP_LOCK, OP_UNLOCK, OP_WAIT, OP_WAKE, OP_SIGNAL, OP_JOIN, OP_SLEEP, OP_RENTER, OP_RECV, OP_SHUT, OP_CLOSE, OP_PLAIN, OP_VOL, OP_USE, OP_CREATE, OP_HANDLED, OP_SEM, OP_POST } Kind;
static const char *KN[] = { "start", "-", "lock", "unlock", "wait", "wake", "signal", "join", "sleep", "receive", "message", "shutdown", "close", "access", "flag", "reason", "create", "until handled", "sem-wait", "sem-post" };
typedef struct { ucontext_t c; char *stk; bool used, done, joined; void *(*f)(void*); void *arg, *ret; Kind k; void *a, *b; int n; bool wr; uint64_t obs; int held; bool signalled; bool insleep; bool lazy; char *sp; bool entered; } Th;
static Th T[NT]; static int nt, curt; static ucontext_t sched; static bool active;
typedef struct { void *a; int owner; } Mx; static Mx mx[16]; static int nmx; typedef struct { void *a; int v; } Sm; static Sm sm[8]; static int nsm;
/* configuration */
static int K, NM; static const char *MSG[8]; static int MLEN[8]; static long TS; static int WAITN; static int SPUR; static bool REAL_;
/* environment */
static bool opened, shut, closed; static int nrecv, nhandled, cycles, spur; static int user; /* thread inside the reasoner, -1 if none */ static long slept; static bool cycled; static bool stopcalled; static int overlap_seen; static char handledtext[8][NARSESE_LEN_MAX + 10]; static int handledlen[8]; static int handledrecv[8]; static int rd[8];
static char order[200]; static int nord; static bool started_ret;
/* exploration */
static int choice[MAXD], nch[MAXD], depth, pos; static bool pruned; static char trace[8000]; static int trl;
static Mx *mxof(void *a) { for(int i=0; i<nmx; i++) if(mx[i].a == a) return &mx[i]; if(nmx == 16) vf_fail("too many locks"); mx[nmx] = (Mx) { a, -1 }; return &mx[nmx++]; }
static Sm *smof(void *a) { for(int i=0; i<nsm; i++) if(sm[i].a == a) return &sm[i]; sm[nsm] = (Sm) { a, 0 }; return &sm[nsm++]; }
static void obs(const void *p, int n) { T[curt].obs = vf_hash(p, n, T[curt].obs); }
static void obsi(long v) { obs(&v, sizeof v); }
/* a scheduling point */
static void op(Kind k, void *a, void *b, int n, bool wr)
{
    Th *t = &T[curt]; int me = curt; t->k = k; t->a = a; t->b = b; t->n = n; t->wr = wr; t->sp = __builtin_frame_address(0);
    swapcontext(&t->c, &sched); (void) me;
    long v[2] = { k, n }; obs(v, sizeof v);
}
static void tmain(int i) { Th *t = &T[i]; t->ret = t->f(t->arg); t->done = true; t->k = OP_YIELD; curt = i; VF_CHECK(t->held == 0, "a thread ended while holding a lock"); setcontext(&sched); }
static int spawn(void *(*f)(void*), void *arg)
{
    VF_CHECK(nt < NT, "more than %d threads were started", NT); Th *t = &T[nt]; char *s = t->stk; memset(t, 0, sizeof *t); t->stk = s ? s : mmap(NULL, STK, PROT_READ|PROT_WRITE, MAP_PRIVATE|MAP_ANONYMOUS|MAP_NORESERVE, -1, 0);
    memset(t->stk + STK - 16384, 0x5a, 16384); t->used = true; t->f = f; t->arg = arg; t->k = OP_START; t->obs = nt + 1; t->sp = t->stk + STK; getcontext(&t->c); t->c.uc_stack.ss_sp = t->stk; t->c.uc_stack.ss_size = STK; t->c.uc_link = NULL; makecontext(&t->c, (void(*)(void)) tmain, 1, nt); return nt++;
}
#define REALF(ret, name, ...) static ret (*real)(__VA_ARGS__); if(!real) real = dlsym(RTLD_NEXT, #name)
/* ---- threads ---- */
int pthread_create(pthread_t *p, const pthread_attr_t *at, void *(*f)(void*), void *arg) { op(OP_CREATE, NULL, NULL, 0, false); int i = spawn(f, arg); *p = (pthread_t)(i + 1000); return 0; }
int pthread_join(pthread_t p, void **r) { long i = (long) p - 1000; VF_CHECK(i >= 0 && i < nt, "join of something that is not a thread"); op(OP_JOIN, NULL, NULL, i, false); VF_CHECK(!T[i].joined, "a thread was joined twice"); T[i].joined = true; if(r) *r = T[i].ret; return 0; }
int pthread_detach(pthread_t p) { T[(long) p - 1000].joined = true; return 0; }
pthread_t pthread_self(void) { return (pthread_t)(curt + 1000L); }
int pthread_equal(pthread_t a, pthread_t b) { return a == b; }
int pthread_mutex_init(pthread_mutex_t *m, const pthread_mutexattr_t *a) { return 0; }
int pthread_mutex_destroy(pthread_mutex_t *m) { if(active) VF_CHECK(mxof(m)->owner < 0, "a held lock was destroyed"); return 0; }
int pthread_mutex_lock(pthread_mutex_t *m) { op(OP_LOCK, m, NULL, 0, false); Mx *x = mxof(m); VF_CHECK(x->owner < 0, "internal"); x->owner = curt; T[curt].held++; return 0; }
int pthread_mutex_trylock(pthread_mutex_t *m) { op(OP_VOL, m, NULL, 0, true); Mx *x = mxof(m); obsi(x->owner < 0); if(x->owner >= 0) return EBUSY; x->owner = curt; T[curt].held++; return 0; }
int pthread_mutex_unlock(pthread_mutex_t *m) { op(OP_UNLOCK, m, NULL, 0, false); Mx *x = mxof(m); VF_CHECK(x->owner == curt, "a thread unlocks a lock it does not hold"); x->owner = -1; T[curt].held--; return 0; }
int pthread_cond_init(pthread_cond_t *c, const pthread_condattr_t *a) { return 0; }
int pthread_cond_destroy(pthread_cond_t *c) { return 0; }
static int cwait(pthread_cond_t *c, pthread_mutex_t *m, bool timed) { op(OP_WAIT, c, m, 0, false); Mx *x = mxof(m); VF_CHECK(x->owner == curt, "waiting without holding the lock"); x->owner = -1; T[curt].held--; T[curt].signalled = false; op(OP_WAKE, c, m, timed, false); bool s = T[curt].signalled; if(!s && !timed) spur++; T[curt].signalled = false; mxof(m)->owner = curt; T[curt].held++; obsi(s); return s ? 0 : timed ? ETIMEDOUT : 0; }
int pthread_cond_wait(pthread_cond_t *c, pthread_mutex_t *m) { return cwait(c, m, false); }
int pthread_cond_timedwait(pthread_cond_t *c, pthread_mutex_t *m, const struct timespec *t) { return cwait(c, m, true); }
static int wake(pthread_cond_t *c, bool all) { op(OP_SIGNAL, c, NULL, 0, false); for(int i=0; i<nt; i++) if(!T[i].done && T[i].k == OP_WAKE && T[i].a == c && !T[i].signalled) { T[i].signalled = true; if(!all) break; } return 0; }
int pthread_cond_signal(pthread_cond_t *c) { return wake(c, false); }
int pthread_cond_broadcast(pthread_cond_t *c) { return wake(c, true); }
int sem_init(sem_t *s, int sh, unsigned v) { smof(s)->v = v; return 0; }
int sem_wait(sem_t *s) { op(OP_SEM, s, NULL, 0, false); smof(s)->v--; return 0; }
int sem_post(sem_t *s) { op(OP_POST, s, NULL, 0, false); smof(s)->v++; return 0; }
int sem_destroy(sem_t *s) { return 0; }
/* ---- time ---- */
static void dosleep(long ns) { slept += ns; T[curt].insleep = true; op(OP_SLEEP, NULL, NULL, 0, false); T[curt].insleep = false; }
int nanosleep(const struct timespec *r, struct timespec *m) { if(!active) return 0; if(r->tv_sec < 0 || r->tv_nsec < 0 || r->tv_nsec > 999999999L) { errno = EINVAL; return -1; } dosleep(r->tv_sec * 1000000000L + r->tv_nsec); return 0; }
int clock_nanosleep(clockid_t c, int fl, const struct timespec *r, struct timespec *m) { return nanosleep(r, m) ? EINVAL : 0; }
int usleep(unsigned u) { dosleep(u * 1000L); return 0; }
unsigned sleep(unsigned s) { dosleep(s * 1000000000L); return 0; }
int sched_yield(void) { if(active) op(OP_YIELD, NULL, NULL, 0, false); return 0; }
/* ---- socket ---- */
int socket(int d, int t, int p) { if(!active) { REALF(int, socket, int, int, int); return real(d, t, p); } opened = true; return FD; }
int bind(int fd, const struct sockaddr *a, socklen_t n) { if(!active) { REALF(int, bind, int, const struct sockaddr*, socklen_t); return real(fd, a, n); } const struct sockaddr_in *i = (void*) a; VF_CHECK(fd == FD && i->sin_family == AF_INET && ntohs(i->sin_port) == 50001 && i->sin_addr.s_addr == inet_addr("127.0.0.1"), "bound to another address than asked for"); return 0; }
static long avail(void) { return nrecv < NM; }
ssize_t recvfrom(int fd, void *buf, size_t n, int flags, struct sockaddr *a, socklen_t *l)
{
    if(!active) { REALF(ssize_t, recvfrom, int, void*, size_t, int, struct sockaddr*, socklen_t*); return real(fd, buf, n, flags, a, l); }
    op(OP_RENTER, NULL, NULL, 0, false); obsi(closed); if(closed || fd != FD) { errno = EBADF; return -1; }
    op(OP_RECV, NULL, NULL, 0, false);
    if(T[curt].wr) { obsi(-7); return 0; } /* the scheduler chose the shutdown */
    int m = nrecv++; rd[m] = n; int len = MLEN[m] < (int) n ? MLEN[m] : (int) n; memcpy(buf, MSG[m], len); obsi(m); return len;
}
ssize_t recv(int fd, void *b, size_t n, int f) { return recvfrom(fd, b, n, f, NULL, NULL); }
int setsockopt(int fd, int l, int o, const void *v, socklen_t n) { return 0; }
int shutdown(int fd, int how) { if(!active) { REALF(int, shutdown, int, int); return real(fd, how); } op(OP_SHUT, NULL, NULL, 0, false); if(fd == FD && !closed && how != SHUT_WR) shut = true; errno = ENOTCONN; return -1; }
int close(int fd) { if(!active || fd != FD) { REALF(int, close, int); return real(fd); } op(OP_CLOSE, NULL, NULL, 0, false); VF_CHECK(!closed, "the socket was closed twice"); closed = true; return 0; }
/* ---- accesses to memory ---- */
static bool own_stack(void *a) { return (char*) a >= T[curt].stk && (char*) a < T[curt].stk + STK; }
static void *shared[256]; static int nshared;
static void acc(void *a, int n, bool wr, bool vol)
{
    if(!active || user == curt) return;
    for(int i=0; i<nt; i++) if(i != curt && (char*) a >= T[i].stk && (char*) a < T[i].stk + STK) VF_CHECK((char*) a >= T[i].sp - 256 && !T[i].done, "a thread uses a variable of a function of another thread which has returned");
    op(vol ? OP_VOL : OP_PLAIN, a, NULL, n, wr); uint64_t v = 0; if(!wr) memcpy(&v, a, n > 8 ? 8 : n); 
    if(v > 0xffffffff) v = 0; /* pointers carry no information that matters */
    obsi(v); if(!own_stack(a)) { int i = 0; for(; i<nshared && shared[i] != a; i++) {} if(i == nshared && nshared < 256) shared[nshared++] = a; }
}
#define TS_(n) void __tsan_read##n(void *a) { acc(a, n, false, false); } void __tsan_write##n(void *a) { acc(a, n, true, false); } void __tsan_unaligned_read##n(void *a) { acc(a, n, false, false); } void __tsan_unaligned_write##n(void *a) { acc(a, n, true, false); } void __tsan_volatile_read##n(void *a) { acc(a, n, false, true); } void __tsan_volatile_write##n(void *a) { acc(a, n, true, true); } void __tsan_read_write##n(void *a) { acc(a, n, true, false); }
TS_(1) TS_(2) TS_(4) TS_(8) TS_(16)
void __tsan_read_range(void *a, long n) { acc(a, n, false, false); } void __tsan_write_range(void *a, long n) { acc(a, n, true, false); }
void __tsan_init(void) {} void __tsan_func_entry(void *p) {} void __tsan_func_exit(void) {} void __tsan_vptr_update(void **a, void *b) {} void __tsan_vptr_read(void **a) {}
void __tsan_atomic_thread_fence(int o) {} void __tsan_atomic_signal_fence(int o) {}
#define TA_(n, ty) ty __tsan_atomic##n##_load(const volatile ty *a, int o) { acc((void*) a, sizeof(ty), false, true); return *a; } void __tsan_atomic##n##_store(volatile ty *a, ty v, int o) { acc((void*) a, sizeof(ty), true, true); *a = v; } \
 ty __tsan_atomic##n##_exchange(volatile ty *a, ty v, int o) { acc((void*) a, sizeof(ty), true, true); ty r = *a; obsi(r); *a = v; return r; } ty __tsan_atomic##n##_fetch_add(volatile ty *a, ty v, int o) { acc((void*) a, sizeof(ty), true, true); ty r = *a; obsi(r); *a += v; return r; } \
 ty __tsan_atomic##n##_fetch_sub(volatile ty *a, ty v, int o) { acc((void*) a, sizeof(ty), true, true); ty r = *a; obsi(r); *a -= v; return r; } ty __tsan_atomic##n##_fetch_or(volatile ty *a, ty v, int o) { acc((void*) a, sizeof(ty), true, true); ty r = *a; obsi(r); *a |= v; return r; } ty __tsan_atomic##n##_fetch_and(volatile ty *a, ty v, int o) { acc((void*) a, sizeof(ty), true, true); ty r = *a; obsi(r); *a &= v; return r; } \
 int __tsan_atomic##n##_compare_exchange_strong(volatile ty *a, ty *c, ty v, int o, int p) { acc((void*) a, sizeof(ty), true, true); ty r = *a; obsi(r); if(r == *c) { *a = v; return 1; } *c = r; return 0; } int __tsan_atomic##n##_compare_exchange_weak(volatile ty *a, ty *c, ty v, int o, int p) { return __tsan_atomic##n##_compare_exchange_strong(a, c, v, o, p); } ty __tsan_atomic##n##_compare_exchange_val(volatile ty *a, ty c, ty v, int o, int p) { __tsan_atomic##n##_compare_exchange_strong(a, &c, v, o, p); return c; }
TA_(8, uint8_t) TA_(16, uint16_t) TA_(32, uint32_t) TA_(64, uint64_t)
/* ---- the reasoner ---- */
static char reasoner; /* stands for everything the reasoner holds */
static bool enter(void) { if(!active || user == curt) return false; op(OP_USE, &reasoner, NULL, 1, true); VF_CHECK(user < 0, "the reasoner is used by two threads at a time"); user = curt; op(OP_YIELD, NULL, NULL, 0, false); return true; }
static void leave(void) { op(OP_YIELD, NULL, NULL, 0, false); user = -1; }
static void log_(char c) { if(nord < 190) order[nord++] = c; order[nord] = 0; }
void NAR_Cycles(int n)
{
    REALF(void, NAR_Cycles, int); bool top = enter(); if(!top) { if(!active || REAL_) real(n); return; }
    VF_CHECK(started_ret || nt > 1, "internal"); if(cycled) VF_CHECK(slept == TS * 1, "the pause between two steps is %ld instead of %ld nanoseconds", slept, TS); cycled = true; slept = 0; VF_CHECK(n == 1, "%d steps at once", n); cycles++; obsi(cycles); if(cycles >= K) T[curt].lazy = true; log_('c'); if(nhandled) overlap_seen = 1;
    if(REAL_) real(n); leave();
}
int Shell_ProcessInput(char *line)
{
    REALF(int, Shell_ProcessInput, char*); bool top = enter(); if(!top) return active && !REAL_ ? SHELL_CONTINUE : real(line);
    VF_CHECK(nhandled < nrecv, "something is handled which was not received: '%.60s'", line); int m = nhandled; int size = rd[m], want = MLEN[m] < size ? MLEN[m] : size; char w[NARSESE_LEN_MAX + 10] = {0}; memcpy(w, MSG[m], want);
    VF_CHECK(!strcmp(w, line), "message %d is handled as '%.60s' (length %d) instead of '%.60s' (length %d)", m, line, (int) strlen(line), w, (int) strlen(w)); VF_CHECK(strlen(MSG[m]) >= NARSESE_LEN_MAX - 1 || (int) strlen(line) == (int) strnlen(MSG[m], MLEN[m]), "message %d was cut to %d characters", m, (int) strlen(line));
    nhandled++; log_('0' + m); int r = SHELL_CONTINUE; if(REAL_) r = real(line); else if(!strcmp(w, "*reset")) r = SHELL_RESET; leave(); return r;
}
void Shell_NARInit(void)
{
    REALF(void, Shell_NARInit, void); bool top = enter(); if(!top) { if(!active || REAL_) real(); return; }
    log_('i'); if(REAL_) real(); leave();
}
void Stats_Print(long t) { REALF(void, Stats_Print, long); bool top = enter(); if(!active || REAL_) real(t); if(top) leave(); }
/* ---- owner ---- */
static void *owner(void *u)
{
    UDPNAR_Start("127.0.0.1", 50001, TS); started_ret = true;
    VF_CHECK(opened && nt == 3, "started with %d threads", nt - 1);
    op(OP_YIELD, NULL, NULL, 0, false);
    if(WAITN) op(OP_HANDLED, NULL, NULL, WAITN, false);
    op(OP_YIELD, NULL, NULL, 0, false); stopcalled = true; int done = nhandled, got = nrecv;
    UDPNAR_Stop();
    VF_CHECK(closed, "the socket was not closed"); for(int i=1; i<nt; i++) { VF_CHECK(T[i].done, "a thread is still running after the service was stopped"); VF_CHECK(T[i].joined, "a thread was not joined"); } (void) done; (void) got;
    return NULL;
}
/* ---- exploration ---- */
static bool enabled(int i, int *alts)
{
    Th *t = &T[i]; *alts = 1; if(t->done) return false;
    switch(t->k)
    {
    case OP_LOCK: return mxof(t->a)->owner < 0;
    case OP_WAKE: if(mxof(t->b)->owner >= 0) return false; return t->signalled || t->n || spur < SPUR;
    case OP_JOIN: return T[t->n].done;
    case OP_SEM: return smof(t->a)->v > 0;
    case OP_RECV: { int m = avail(); if(m && shut) *alts = 2; return m || shut; }
    case OP_HANDLED: return nhandled >= t->n;
    default: return true;
    }
}
static void race_check(void)
{
    for(int i=0; i<nt; i++) for(int j=i+1; j<nt; j++)
    {
        Th *a = &T[i], *b = &T[j]; if(a->done || b->done) continue;
        bool pa = a->k == OP_PLAIN || a->k == OP_USE, pb = b->k == OP_PLAIN || b->k == OP_USE, va = pa || a->k == OP_VOL, vb = pb || b->k == OP_VOL;
        if(!va || !vb || (!pa && !pb) || (!a->wr && !b->wr)) continue;
        if((char*) a->a < (char*) b->a + b->n && (char*) b->a < (char*) a->a + a->n) vf_fail("data race: threads %d and %d access the same variable%s at a time, unsynchronised; schedule: %s", i, j, a->k == OP_USE ? " (the reasoner)" : "", trace);
        }
    if(user >= 0) for(int i=0; i<nt; i++) if(i != user && !T[i].done && T[i].k == OP_USE) vf_fail("the reasoner is used by two threads at a time; schedule: %s", trace);
}
static uint64_t key(void)
{
    uint64_t h = 5; for(int i=0; i<nt; i++) { uint64_t v[5] = { T[i].obs, T[i].k, T[i].signalled, T[i].done, T[i].n }; h = vf_hash(v, sizeof v, h); }
    for(int i=0; i<nmx; i++) h = vf_hash(&mx[i].owner, sizeof(int), h); for(int i=0; i<nsm; i++) h = vf_hash(&sm[i].v, sizeof(int), h);
    int e[12] = { shut, closed, nrecv, nhandled, cycles, spur, user, slept / 1000, cycled, nt, slept % 1000, started_ret }; h = vf_hash(e, sizeof e, h);
    /* contents of the variables in use, independent of the order in which they were seen */
    uint64_t sum = 0; for(int i=0; i<nshared; i++) { bool st = false; for(int k=0; k<nt; k++) st |= (char*) shared[i] >= T[k].stk && (char*) shared[i] < T[k].stk + STK; if(!st) { uint64_t x[2] = { (uint64_t) shared[i], *(uint32_t*) shared[i] }; sum += vf_hash(x, sizeof x, 1); } }
    h = vf_hash(&sum, sizeof sum, h); if(REAL_) { uint64_t d = d_all(); h = vf_hash(&d, sizeof d, h); h = vf_hash(order, nord, h); }
    return h;
}
static void run_(void)
{
    int last = -1;
    for(;;)
    {
        int en[2*NT], alt[2*NT], n = 0; bool others = false, alldone = true;
        for(int i=0; i<nt; i++) { int al; alldone &= T[i].done; bool lazy = T[i].lazy && !T[i].held; if(!lazy && enabled(i, &al)) others = true; }
        if(alldone) return;
        for(int i=0; i<nt; i++) { int al; if(T[i].lazy && !T[i].held && others) continue; if(enabled(i, &al)) for(int a=0; a<al; a++) { en[n] = i; alt[n++] = a; } }
        if(n == 0) { char w[400]; int l = 0; for(int i=0; i<nt; i++) if(!T[i].done) l += sprintf(w + l, " thread %d: %s;", i, KN[T[i].k]); vf_fail("all threads wait for ever:%s schedule: %s", w, trace); }
        if(cycles > K + 4) vf_fail("the reasoner goes on although nothing else can happen any more (%s); schedule: %s", T[0].k == OP_JOIN ? "stopping does not end" : T[0].k == OP_HANDLED ? "a message is not handled" : "lost", trace);
        race_check();
        int c = 0;
        if(n > 1)
        {
            if(pos < depth) c = choice[pos];
            else { uint64_t k = key(); if(!vf_seen(k)) { pruned = true; return; } vf_stats.states++; VF_CHECK(depth < MAXD, "schedule too long"); choice[depth] = 0; nch[depth] = n; depth++; }
            pos++;
        }
        int i = en[c]; if(T[i].k == OP_RECV) T[i].wr = shut && (!avail() || alt[c] == 1);
        if(i != last || T[i].k != OP_YIELD) { if(trl > 7600) trl = 0; trl += sprintf(trace + trl, "%d:%s ", i, KN[T[i].k]); vf_stats.transitions++; }
        last = i; curt = i; swapcontext(&sched, &T[i].c);
    }
}
static void *raw; static uint64_t cfgseed;
static uint64_t sequential(const char *ord)
{
    vf_restore(raw); vf_cap_begin(); for(const char *p=ord; *p; p++) { if(*p == 'i') Shell_NARInit(); else if(*p == 'c') NAR_Cycles(1); else { int m = *p - '0'; char b[NARSESE_LEN_MAX + 10] = {0}; memcpy(b, MSG[m], MLEN[m] < NARSESE_LEN_MAX-1 ? MLEN[m] : NARSESE_LEN_MAX-1); Shell_ProcessInput(b); } }
    return d_all();
}
static char outa[200000];
static void explore(const char *what)
{
    depth = 0; long runs = 0;
    for(;;)
    {
        vf_restore(raw); vf_cap_begin(); vf_desc("%s", what); nt = nmx = nsm = 0; opened = shut = closed = cycled = stopcalled = started_ret = false; nrecv = nhandled = cycles = spur = nord = 0; *order = 0; slept = 0; user = -1; pos = 0; pruned = false; trl = 0; *trace = 0; overlap_seen = 0; nshared = 0;
        active = true; spawn(owner, NULL); run_(); active = false; runs++;
        if(runs % 64 == 0) vf_desc("%s; schedule %s", what, trace);
        if(!pruned)
        {
            if(WAITN == NM) VF_CHECK(nhandled == NM, "%d of %d messages were handled", nhandled, NM);
            vf_stats.nontrivial += overlap_seen; vf_stats.validated++; if(vf_stats.validated % 2000 == 3) vf_sample("%s; schedule %s", what, trace);
            if(REAL_) { uint64_t d = d_all(); char o[200]; strcpy(o, order); uint64_t e = sequential(o); VF_CHECK(d == e, "the outcome differs from that of the same steps and messages one after the other (%s); schedule: %s", o, trace); }
        }
        while(depth && choice[depth-1] + 1 >= nch[depth-1]) depth--;
        if(!depth) return;
        choice[depth-1]++;
    }
}
/* real datagrams of every length */
static void loopback(void)
{
    int r = UDP_INIT_Receiver("127.0.0.1", 0); struct sockaddr_in a; socklen_t l = sizeof a; if(getsockname(r, (void*) &a, &l)) return; int port = ntohs(a.sin_port); if(!port) { vf_count("no loopback socket available", 1); return; }
    struct timeval tv = { 5, 0 }; REALF(int, setsockopt, int, int, int, const void*, socklen_t); real(r, SOL_SOCKET, SO_RCVTIMEO, &tv, sizeof tv); int s = UDP_INIT_Sender(); static char b[NARSESE_LEN_MAX + 100], in[NARSESE_LEN_MAX + 100];
    for(int n=1; n<=NARSESE_LEN_MAX + 50; n++)
    {
        for(int i=0; i<n; i++) b[i] = 'a' + (i * 7 + n) % 26; vf_desc("datagram of length %d", n); memset(in, 0x55, sizeof in); UDP_SendData(s, "127.0.0.1", port, b, n); UDP_ReceiveData(r, in, NARSESE_LEN_MAX - 1); int e = n < NARSESE_LEN_MAX - 1 ? n : NARSESE_LEN_MAX - 1;
        VF_CHECK(!memcmp(in, b, e), "a datagram of length %d is received differently", n); VF_CHECK((unsigned char) in[e] == 0x55, "receiving a datagram of length %d writes beyond it", n); vf_stats.transitions++; vf_stats.validated++;
    }
    close(r); close(s);
}
int vf_main(void)
{
    vf_quiet(); vf_cap_begin(); raw = vf_snap_new(); if(vf_case()) loopback();
    static char longm[NARSESE_LEN_MAX + 100]; memset(longm, 'x', sizeof longm - 1); static char longs[1200]; memset(longs, 'y', sizeof longs - 1);
    struct { const char *t; int n; } m[] = { { "a. :|:", 7 }, { "b! :|:", 6 }, { "*reset", 7 }, { longm, sizeof longm }, { longs, 1100 }, { "", 0 }, { "quit", 4 }, { "<(a &/ ^left) =/> b>.", 22 }, { "5", 2 } }; enum { NMS = sizeof m/sizeof *m };
    long ts[] = { 10000000L, 0, 1, 999999999L, 1000000000L, 2500000000L, 1000 };
    for(int real=0; real<2; real++) for(int n=0; n<=(real ? 2 : 3) + vf_thorough; n++)
    {
        long tot = 1; for(int i=0; i<n; i++) tot *= NMS;
        for(long w=0; w<tot; w++) for(int wait=0; wait<=n; wait++) for(int t=0; t<7; t++)
        {
            if(t > 0 && (w % 7 || n > 1 || real)) continue;
            if(n == 3 && wait != 0 && wait != 3 && !vf_thorough) continue;
            bool fast = n >= 3 && w % NMS != 2 && w / NMS % NMS != 2; if(real) for(long i=0, v=w; i<n; i++, v/=NMS) if(v % NMS == 3 || v % NMS == 4) fast = true; if(real && fast) continue; /* such lines are rejected by a diagnostic exit */
            if(!vf_case()) continue;
            char what[300]; int l = 0; long v = w; NM = n; for(int i=0; i<n; i++, v/=NMS) { MSG[i] = m[v%NMS].t; MLEN[i] = m[v%NMS].n; l += sprintf(what + l, "%.10s(%d) | ", MSG[i], MLEN[i]); }
            TS = ts[t]; WAITN = wait; REAL_ = real; K = (n >= 3 ? 1 : 2) + (vf_thorough ? 2 : 0); SPUR = n <= 1 ? 1 + vf_thorough : 0; sprintf(what + l, "stop after %d handled, timestep %ld%s", wait, TS, real ? ", with reasoning" : "");
            cfgseed = vf_stats.cases; { extern void vf_seen_reset(void); vf_seen_reset(); } explore(what);
        }
    }
    return 0;
}
