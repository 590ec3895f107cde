/* P03: all add/remove words over concepts with overlapping, repeated and nested atoms on the real index; after
 * every operation the chain of every atom is compared (as a set, each concept once) with the indexed concepts. */
#include "vf.h"
#include "NAR.h"
void Metric_send(const char* path, int value) {}
#define N 7
static const char *TT[N] = { "a", "<a --> b>", "<b --> a>", "<a <-> a>", "(&/,<c --> [a]>,^op)", "<(c * $1) --> x5>", "(a * (a * (c * (a * d))))" };
static Term TM[N]; static Concept con[N];
static bool has[N][ATOMS_MAX];
static bool name_simple(Atom a) { char c = Narsese_atomNames[a-1][0]; return c == '^' || (c >= 'a' && c <= 'z') || (c >= 'A' && c <= 'Z') || (c >= '0' && c <= '9'); }
static char path[600]; static int depth; static uint64_t tr;
static void compare(bool *in)
{
    for(int a=1; a<ATOMS_MAX; a++)
    {
        if(!Narsese_atomNames[a-1][0]) { VF_CHECK(InvertedAtomIndex_GetConceptChain(a) == NULL, "%s: concepts listed under an unused atom number", path); continue; }
        int cnt[N] = {0}, n = 0;
        for(ConceptChainElement *e = InvertedAtomIndex_GetConceptChain(a); e; e = e->next)
        {
            int k = e->c ? (int)(e->c - con) : -1;
            VF_CHECK(e->c != NULL && k >= 0 && k < N, "%s: the chain of '%s' contains something that is no concept", path, Narsese_atomNames[a-1]);
            cnt[k]++; VF_CHECK(++n < 1000, "%s: the chain of '%s' does not end", path, Narsese_atomNames[a-1]);
        }
        for(int k=0; k<N; k++) VF_CHECK(cnt[k] == (in[k] && has[k][a]), "%s: concept %s is listed %d times under '%s', expected %d", path, TT[k], cnt[k], Narsese_atomNames[a-1], in[k] && has[k][a]);
    }
}
static void explore(bool *in, int d)
{
    vf_stats.states++;
    static uint64_t h0; 
    if(d == depth) return;
    void *snap = vf_snap_new(); int pl = strlen(path);
    for(int k=0; k<N; k++) for(int op=0; op<2; op++)
    {
        if(d == 1 && !vf_case()) continue;
        bool was = in[k];
        sprintf(path+pl, "%s(%s) ", op ? "remove" : "add", TT[k]); vf_desc("%s", path);
        if(op) InvertedAtomIndex_RemoveConcept(TM[k], &con[k]); else InvertedAtomIndex_AddConcept(TM[k], &con[k]);
        in[k] = !op; vf_stats.transitions++;
        if(was == !op) vf_count("no_change_operations", 1); else vf_stats.nontrivial++;
        if(d > 0 || vf_shard == 0 || 1) compare(in);
        explore(in, d+1);
        in[k] = was; path[pl] = 0; vf_restore(snap);
    }
    if(vf_stats.states % 9973 == 0) vf_sample("%s", path);
    extern int munmap(void*, size_t); munmap(snap, vf_snap_size() + 4096);
}
/* storage is recycled: after any word of length 3 has been executed and undone many times the index still holds as much as a fresh one */
static void recycle(void)
{
    void *snap = vf_snap_new();
    for(int w=0; w<N*N*N; w++)
    {
        if(!vf_case()) continue;
        int a = w%N, b = w/N%N, c = w/N/N; bool none[N] = {0};
        sprintf(path, "600 x (add %s, %s, %s and remove in order): ", TT[a], TT[b], TT[c]); vf_desc("%s", path);
        if(VF_GUARD_BEGIN())
        {
            for(int i=0; i<600; i++)
            {
                int o[3] = {a,b,c};
                for(int k=0; k<3; k++) InvertedAtomIndex_AddConcept(TM[o[k]], &con[o[k]]);
                for(int k=0; k<3; k++) InvertedAtomIndex_RemoveConcept(TM[o[(k+i)%3]], &con[o[(k+i)%3]]);
            }
            compare(none);
            bool all[N]; for(int k=0; k<N; k++) { InvertedAtomIndex_AddConcept(TM[k], &con[k]); all[k] = true; }
            compare(all);
            VF_GUARD_END();
        }
        else vf_fail("%s the index ran out of storage", path);
        path[0] = 0; vf_restore(snap); vf_stats.transitions += 3606; vf_stats.nontrivial++;
    }
}
int vf_main(void)
{
    vf_quiet(); NAR_INIT();
    for(int i=0; i<N; i++)
    {
        TM[i] = Narsese_Term(TT[i]); con[i].term = TM[i];
        for(int j=0; j<UNIFICATION_DEPTH; j++) if(TM[i].atoms[j] && name_simple(TM[i].atoms[j])) has[i][TM[i].atoms[j]] = true;
    }
    depth = vf_thorough ? 6 : 5;
    bool in[N] = {0}; path[0] = 0;
    compare(in);
    explore(in, 0); recycle();
    vf_stats.validated = vf_stats.transitions;
    return 0;
}
