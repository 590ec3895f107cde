/* P01: explicit-state search over the real PriorityQueue. A state is the queue's array of priorities up to
 * order isomorphism (ranks): the code only compares priorities and copies addresses, so two arrays with the
 * same dense ranks have the same futures. Every transition calls the real function on a rebuilt queue and is
 * compared with an ideal priority buffer (a plain list). */
#include "vf.h"
#include "PriorityQueue.h"
#define MAXN 16
typedef struct { unsigned char n; unsigned char r[MAXN]; } St;  /* ranks doubled: items have even priorities 2*rank */
static Item items[MAXN]; static PriorityQueue Q;
static int slots[MAXN];
static int cap;
static St *front; static size_t fcap, fn, fhead;

static void canon(const double *p, int n, St *s)
{
    memset(s, 0, sizeof *s); s->n = n;
    for(int i=0; i<n; i++) { int less = 0; for(int j=0; j<n; j++) { if(p[j] < p[i]) { bool dup = false; for(int k=0; k<j; k++) if(p[k] == p[j]) dup = true; if(!dup) less++; } } s->r[i] = less; }
}
static double pr_of[MAXN];   /* priority held for slot address (by slot number), <0: free */
static void build(const St *s)
{
    PriorityQueue_INIT(&Q, items, cap);
    for(int i=0; i<cap; i++) { items[i].address = &slots[i]; items[i].priority = -7; slots[i] = 100+i; pr_of[i] = -1; }
    for(int i=0; i<s->n; i++) { items[i].priority = 2.0 * s->r[i] + 2; pr_of[i] = items[i].priority; }
    Q.itemsAmount = s->n;
}
static char dbuf[256];
static const char *show(const St *s) { char *b = dbuf; b += sprintf(b, "cap=%d n=%d [", cap, s->n); for(int i=0; i<s->n; i++) b += sprintf(b, "%d ", s->r[i]); sprintf(b, "]"); return dbuf; }
static int slotno(void *a) { for(int i=0; i<cap; i++) if(a == &slots[i]) return i; return -1; }
/* after an operation: the queue must hold exactly the slots with pr_of>=0 with these priorities and no slot may be lost */
static void compare(int expectN)
{
    VF_CHECK(Q.itemsAmount == expectN, "holds %d entries, expected %d", Q.itemsAmount, expectN);
    VF_CHECK(Q.itemsAmount <= cap, "over capacity");
    int used[MAXN] = {0};
    for(int i=0; i<cap; i++)
    {
        int k = slotno(Q.items[i].address);
        VF_CHECK(k >= 0, "entry %d refers to an unknown slot", i);
        VF_CHECK(!used[k], "slot %d appears twice", k);
        used[k] = 1;
        if(i < Q.itemsAmount) VF_CHECK(pr_of[k] == Q.items[i].priority, "slot %d: priority %f, expected %f", k, Q.items[i].priority, pr_of[k]);
    }
    for(int i=0; i<cap; i++) VF_CHECK(slots[i] == 100+i, "slot content overwritten");
}
static double extreme(bool mx) { double e = -1; for(int i=0; i<cap; i++) if(pr_of[i] >= 0 && (e < 0 || (mx ? pr_of[i] > e : pr_of[i] < e))) e = pr_of[i]; return e; }
static void push_state(void)
{
    double p[MAXN]; for(int i=0; i<Q.itemsAmount; i++) p[i] = Q.items[i].priority;
    St s; canon(p, Q.itemsAmount, &s);
    if(!vf_seen(vf_hash(&s, sizeof s, cap))) return;
    vf_stats.states++;
    if(fn == fcap) { fcap = fcap ? fcap*2 : 4096; front = realloc(front, fcap * sizeof(St)); }
    front[fn++] = s;
}
static int count_live(void) { int n = 0; for(int i=0; i<cap; i++) n += pr_of[i] >= 0; return n; }
static void check_pop(const St *s, bool mx)
{
    build(s); vf_desc("%s pop%s", show(s), mx ? "Max" : "Min");
    void *addr = NULL; double pr = -5; double e = extreme(mx);
    bool ok = mx ? PriorityQueue_PopMax(&Q, &addr, &pr) : PriorityQueue_PopMin(&Q, &addr, &pr);
    vf_stats.transitions++;
    if(s->n == 0) { VF_CHECK(!ok, "pop from an empty buffer succeeded"); compare(0); return; }
    VF_CHECK(ok, "pop from a non-empty buffer failed");
    int k = slotno(addr);
    VF_CHECK(k >= 0 && pr_of[k] >= 0, "returned an entry that was not held");
    VF_CHECK(pr == pr_of[k], "returned priority %f does not belong to the entry (%f)", pr, pr_of[k]);
    VF_CHECK(pr == e, "returned priority %f, the true %s is %f", pr, mx ? "maximum" : "minimum", e);
    pr_of[k] = -1; compare(s->n - 1); push_state();
}
static void check_push(const St *s, double p)
{
    build(s); vf_desc("%s push %g", show(s), p);
    double mn = extreme(false);
    PriorityQueue_Push_Feedback f = PriorityQueue_Push(&Q, p);
    vf_stats.transitions++;
    bool full = s->n == cap;
    if(full && p < mn) { VF_CHECK(!f.added && !f.evicted, "entry below all others accepted into a full buffer"); compare(s->n); return; }
    VF_CHECK(f.added, "insertion refused although allowed");
    VF_CHECK(f.evicted == full, "eviction reported %d, full=%d", f.evicted, full);
    if(full)
    {
        int k = slotno(f.evictedItem.address);
        VF_CHECK(k >= 0 && pr_of[k] == mn && f.evictedItem.priority == mn, "displaced an entry that is not of lowest priority");
        VF_CHECK(f.addedItem.address == f.evictedItem.address, "new entry does not take the slot of the displaced one");
        pr_of[k] = -1;
    }
    int k = slotno(f.addedItem.address);
    VF_CHECK(k >= 0 && pr_of[k] < 0, "the new entry's slot is in use");
    VF_CHECK(f.addedItem.priority == p, "priority of the new entry");
    pr_of[k] = p; compare(count_live());
    VF_CHECK(Q.itemsAmount == (full ? s->n : s->n + 1), "size after insertion");
    push_state();
}
/* priorities changed arbitrarily (as forgetting does), then rebuilt: every weak order of n entries */
static uint64_t nreb;
static void check_rebuild(const unsigned char *r, int n)
{
    St s; memset(&s, 0, sizeof s); s.n = n; memcpy(s.r, r, n);
    build(&s); vf_desc("%s rebuild", show(&s));
    PriorityQueue_Rebuild(&Q); vf_stats.transitions++; nreb++;
    compare(n);
    push_state();
}
static void weak(unsigned char *r, int i, int n)
{
    if(i == n)
    {   /* dense ranks only */
        int mx = 0; unsigned seen = 0; for(int k=0; k<n; k++) { seen |= 1u << r[k]; if(r[k] > mx) mx = r[k]; }
        if(seen == (1u << (mx+1)) - 1) check_rebuild(r, n);
        return;
    }
    for(int v=0; v<n; v++) { r[i] = v; weak(r, i+1, n); }
}
int vf_main(void)
{
    vf_quiet();
    int CAP = vf_thorough ? 10 : 8, REB = vf_thorough ? 8 : 7;
    for(cap=1; cap<=CAP; cap++)
    {
        if(!vf_case()) continue;
        fn = fhead = 0;
        St e; memset(&e, 0, sizeof e); build(&e); push_state();
        for(int n=0; n<=cap && n<=REB; n++) { unsigned char r[MAXN]; weak(r, 0, n); }
        while(fhead < fn)
        {
            St s = front[fhead++];
            check_pop(&s, true); check_pop(&s, false);
            int mx = -1; for(int i=0; i<s.n; i++) if(s.r[i] > mx) mx = s.r[i];
            for(int p=0; p<=2*(mx+1)+1; p++) check_push(&s, p+1);   /* every relative rank: below, equal to and between all held ones, above */
        }
        vf_sample("capacity %d: %llu canonical states reached so far, last %s", cap, (unsigned long long) vf_stats.states, show(&front[fn-1]));
    }
    /* tall heaps (5 levels): priorities from a 2- or 3-letter alphabet, all reachable contents */
    int tall[] = { 12, 16 };
    for(int t=0; t<2; t++)
    {
        if(!vf_case()) continue;
        cap = tall[t]; int K = cap == 12 ? 3 : 2;
        fn = fhead = 0; St e; memset(&e, 0, sizeof e); build(&e);
        /* here the ranks are absolute letters: keep all states' letters (no isomorphism) by pushing fixed values */
        Q.itemsAmount = 0; push_state();
        while(fhead < fn)
        {
            St s = front[fhead++];
            check_pop(&s, true); check_pop(&s, false);
            int mx = -1; for(int i=0; i<s.n; i++) if(s.r[i] > mx) mx = s.r[i];
            for(int p=0; p<=2*(mx+1)+1; p++)
            {
                int distinct = mx+1 + (p % 2 == 0); /* a value between held ones adds a letter */
                if(distinct <= K) check_push(&s, p+1);
            }
        }
        vf_sample("capacity %d, at most %d distinct priorities: last %s", cap, K, fn ? show(&front[fn-1]) : "");
    }
    vf_count("rebuilds_checked", nreb);
    vf_stats.nontrivial = vf_stats.states; vf_stats.validated = vf_stats.transitions;
    return 0;
}
