/* P07: all pairs of stamps over a small identifier alphabet, several maximum lengths (library variants). */
#include "vf.h"
#include "Stamp.h"
static long cur[2][STAMP_SIZE];
static uint64_t npairs;
static const char *show(Stamp *s, char *b) { char *p = b; *p = 0; for(int i=0; i<STAMP_SIZE && s->evidentialBase[i]; i++) p += sprintf(p, "%ld ", s->evidentialBase[i]); return b; }
static int len(Stamp *s) { int i=0; while(i<STAMP_SIZE && s->evidentialBase[i] != STAMP_FREE) i++; return i; }
static void check(Stamp a, Stamp b, bool dupfree)
{
    char b1[300], b2[300], b3[300]; Stamp a0 = a, b0 = b;
    int la = len(&a), lb = len(&b);
    vf_desc("a=[%s] b=[%s] max %d", show(&a, b1), show(&b, b2), STAMP_SIZE);
    bool ov = false; for(int i=0; i<la; i++) for(int j=0; j<lb; j++) ov |= a.evidentialBase[i] == b.evidentialBase[j];
    VF_CHECK(Stamp_checkOverlap(&a, &b) == ov, "overlap reported %d, true %d", !ov, ov);
    VF_CHECK(Stamp_checkOverlap(&b, &a) == ov, "overlap (swapped) reported %d, true %d", !ov, ov);
    /* merge: alternate, newest (= front) first, until both are used up or the maximum length is reached */
    Stamp r = Stamp_make(&a, &b), e; memset(&e, 0, sizeof e); int n = 0;
    for(int i=0; i<STAMP_SIZE; i++)
    {
        if(i < la && n < STAMP_SIZE) e.evidentialBase[n++] = a.evidentialBase[i];
        if(i < lb && n < STAMP_SIZE) e.evidentialBase[n++] = b.evidentialBase[i];
    }
    VF_CHECK(!memcmp(&r, &e, sizeof e), "merged into [%s], expected [%s]", show(&r, b1), show(&e, b2));
    VF_CHECK(!memcmp(&a, &a0, sizeof a) && !memcmp(&b, &b0, sizeof b), "premise stamps changed");
    /* sameness: equal as sets (claimed for proper stamps, i.e. without repeated identifiers) */
    bool sub = true; for(int i=0; i<la; i++) { bool in = false; for(int j=0; j<lb; j++) in |= a.evidentialBase[i] == b.evidentialBase[j]; sub &= in; }
    bool sup = true; for(int j=0; j<lb; j++) { bool in = false; for(int i=0; i<la; i++) in |= a.evidentialBase[i] == b.evidentialBase[j]; sup &= in; }
    bool eq = Stamp_Equal(&a, &b), same = sub && sup;
    VF_CHECK(eq == same, eq ? "declared the same evidence although the identifiers differ" : "same identifiers not recognised as the same evidence");
    vf_cap_begin(); Stamp_print(&a); const char *t = vf_cap();
    char exp[400] = "Stamp=["; char *p = exp + 7; for(int i=0; i<la; i++) p += sprintf(p, i ? ",%ld" : "%ld", a.evidentialBase[i]); strcpy(p, "]");
    VF_CHECK(!strcmp(t, exp), "printed as %s, expected %s", t, exp);
    vf_stats.transitions++; npairs++;
    if(la && lb && ov && !eq) vf_stats.nontrivial++;
    if(npairs % 20000 == 1) vf_sample("a=[%s] b=[%s] -> [%s] overlap=%d equal=%d", show(&a, b1), show(&b, b2), show(&r, b3), ov, eq);
}
static Stamp *all; static int nall, call_; static unsigned char *df;
static void gen(Stamp s, int n, int maxlen, int K, bool dup)
{
    if(nall == call_) { call_ = call_ ? call_*2 : 1024; all = realloc(all, call_*sizeof(Stamp)); df = realloc(df, call_); }
    all[nall] = s; df[nall++] = !dup;
    if(n == maxlen) return;
    for(int k=1; k<=K; k++)
    {
        bool d = dup; for(int i=0; i<n; i++) d |= s.evidentialBase[i] == k;
        s.evidentialBase[n] = k; gen(s, n+1, maxlen, K, d); s.evidentialBase[n] = 0;
    }
}
int vf_main(void)
{
    vf_quiet();
    Stamp z; memset(&z, 0, sizeof z);
    int maxlen = STAMP_SIZE < 4 ? STAMP_SIZE : 4;
    gen(z, 0, maxlen, vf_thorough ? 5 : 4, false);     /* all words up to length 4 over 4 (5) identifiers, repeats included */
    for(int i=0; i<nall; i++) { if(!vf_case()) continue; vf_stats.states++; for(int j=0; j<nall; j++) check(all[i], all[j], df[i] && df[j]); }
    /* boundary lengths: every pair of lengths 0..max, disjoint / sharing one identifier at every pair of positions */
    for(int la=0; la<=STAMP_SIZE; la++) for(int lb=0; lb<=STAMP_SIZE; lb++)
    {
        if(!vf_case()) continue;
        Stamp a = z, b = z;
        for(int i=0; i<la; i++) a.evidentialBase[i] = 1000 - i;
        for(int i=0; i<lb; i++) b.evidentialBase[i] = 2000 - i;
        check(a, b, true);
        for(int i=0; i<la; i++) for(int j=0; j<lb; j++) { Stamp b2 = b; b2.evidentialBase[j] = a.evidentialBase[i]; check(a, b2, true); }
        if(la == lb) { for(int r=0; r<la; r++) { Stamp b2 = z; for(int i=0; i<la; i++) b2.evidentialBase[i] = a.evidentialBase[(i+r)%la]; check(a, b2, true); if(la > 1) { b2.evidentialBase[r] = 77; check(a, b2, true); check(b2, a, true); } } }
        if(la > 0 && lb < la) { Stamp b2 = z; for(int i=0; i<lb; i++) b2.evidentialBase[i] = a.evidentialBase[i]; check(a, b2, true); check(b2, a, true); }
    }
    vf_stats.validated = npairs;
    return 0;
}
