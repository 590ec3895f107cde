/* P02: full reachability of the real HashTable (+ the Stack that recycles its storage). A state is the complete
 * memory image of the table (control block, buckets, items, free stack; all pointers stay inside the block), so
 * merging equal images is exact. Oracle: a plain array map. */
#include "vf.h"
#include "HashTable.h"
#define NK 7
#define MAXEL 6
typedef struct { HashTable h; VMItem storage[MAXEL]; VMItem *ptrs[MAXEL]; VMItem *HT[8]; } Img;
static Img img;
static int keyids[NK][2];          /* two distinct key objects per key value: lookups must go by equality, not identity */
static int hashmode;
static bool keq(void *a, void *b) { return *(int*)a == *(int*)b; }
static HASH_TYPE khash(void *a) { int k = *(int*)a; return hashmode == 0 ? 0 : hashmode == 1 ? k % 2 : hashmode == 2 ? (HASH_TYPE) k * 1000003 : (k < 4 ? 5 : 6 + 8*k); }
static int vals[2];
typedef struct { Img im; signed char m[NK]; short parent; unsigned char depth; } Node;
static Node *q; static size_t qn, qh, qc;
static int nk, buckets, maxel, maxdepth;
static signed char model[NK];
static char trail[400];
static void push_node(int depth)
{
    /* the image determines the contents; the model is hashed too so that a wrong image cannot hide a state */
    uint64_t h = vf_hash(&img, sizeof img, vf_hash(model, sizeof model, hashmode*64 + buckets*8 + maxel));
    if(!vf_seen(h)) return;
    vf_stats.states++;
    if(qn == qc) { qc = qc ? qc*2 : 1024; q = realloc(q, qc*sizeof(Node)); }
    q[qn].im = img; memcpy(q[qn].m, model, NK); q[qn].depth = depth; qn++;
}
static void verify(void)
{
    for(int k=0; k<nk; k++) for(int o=0; o<2; o++)
    {
        void *v = HashTable_Get(&img.h, &keyids[k][o]);
        if(model[k] < 0) VF_CHECK(v == NULL, "lookup of absent key %d found something", k);
        else VF_CHECK(v == &vals[(int)model[k]], "lookup of key %d: %s", k, v == NULL ? "not found" : "wrong value");
    }
    int longest = 0, per[8] = {0};
    for(int k=0; k<nk; k++) if(model[k] >= 0) { int b = khash(&keyids[k][0]) % buckets; per[b]++; if(per[b] > longest) longest = per[b]; }
    VF_CHECK(HashTable_MaximumChainLength(&img.h) == longest, "reported maximum chain length %d, true %d", HashTable_MaximumChainLength(&img.h), longest);
}
static int held(void) { int n=0; for(int k=0; k<nk; k++) n += model[k] >= 0; return n; }
static void explore(void)
{
    qn = qh = 0;
    memset(&img, 0, sizeof img);
    memset(model, -1, sizeof model);
    vf_desc("hashmode=%d buckets=%d capacity=%d init", hashmode, buckets, maxel);
    HashTable_INIT(&img.h, img.storage, img.ptrs, img.HT, buckets, maxel, keq, khash);
    verify(); push_node(0);
    while(qh < qn)
    {
        Node s = q[qh++];
        if(s.depth >= maxdepth) { vf_count("states_at_depth_cap", 1); continue; }
        for(int k=0; k<nk; k++)
        {
            for(int v=0; v<2; v++)
            {
                img = s.im; memcpy(model, s.m, NK);
                if(model[k] < 0 && held() >= maxel) continue;     /* beyond the stated capacity: outside the contract */
                vf_desc("hashmode=%d buckets=%d capacity=%d holding(%d,%d,%d,%d,%d,%d,%d) set key %d := %d", hashmode, buckets, maxel, s.m[0], s.m[1], s.m[2], s.m[3], s.m[4], s.m[5], s.m[6], k, v);
                HashTable_Set(&img.h, &keyids[k][0], &vals[v]); model[k] = v;
                vf_stats.transitions++; verify(); push_node(s.depth+1);
            }
            if(s.m[k] >= 0)
            {
                img = s.im; memcpy(model, s.m, NK);
                vf_desc("hashmode=%d buckets=%d capacity=%d holding(%d,%d,%d,%d,%d,%d,%d) delete key %d", hashmode, buckets, maxel, s.m[0], s.m[1], s.m[2], s.m[3], s.m[4], s.m[5], s.m[6], k);
                HashTable_Delete(&img.h, &keyids[k][1]); model[k] = -1;
                vf_stats.transitions++; verify(); push_node(s.depth+1);
            }
        }
    }
    vf_sample("hash mode %d, %d buckets, capacity %d, %d keys: %llu states so far", hashmode, buckets, maxel, nk, (unsigned long long) vf_stats.states);
}
/* the recycling stack by itself: LIFO over all push/pop sequences */
static void stack_check(void)
{
    void *it[4]; Stack s; int d[4];
    int depth = 12;
    for(int w=0; w<(1<<depth); w++)
    {
        Stack_INIT(&s, it, 4); int model_[4], n = 0, fresh = 0; static int obj[16];
        vf_desc("stack word %x", w);
        for(int i=0; i<depth; i++)
        {
            if(w >> i & 1) { if(n == 4) break; Stack_Push(&s, &obj[fresh]); model_[n++] = fresh++; }
            else { if(n == 0) break; void *p = Stack_Pop(&s); VF_CHECK(p == &obj[model_[--n]], "stack is not LIFO"); }
            VF_CHECK(Stack_IsEmpty(&s) == (n == 0), "stack emptiness");
            vf_stats.transitions++;
        }
    }
}
/* the real key kinds: atom names and terms (string and term hash must index inside the table) */
#include "Narsese.h"
#include "NAR.h"
#include "Memory.h"
static void atoms(void)
{
    NAR_INIT();
    int idx[900]; char n[64];
    int lim = ATOMS_MAX - 200 < 900 ? ATOMS_MAX - 200 : 900;
    for(int i=0; i<lim; i++) { sprintf(n, i % 3 ? "n%dx" : "%d_atomname_that_is_rather_long", i); n[31] = 0; vf_desc("atom name %s", n); idx[i] = Narsese_AtomicTermIndex(n); VF_CHECK(idx[i] > 0 && idx[i] <= ATOMS_MAX, "atom index out of range"); }
    for(int i=0; i<lim; i++)
    {
        sprintf(n, i % 3 ? "n%dx" : "%d_atomname_that_is_rather_long", i); n[31] = 0; vf_desc("atom name %s again", n);
        VF_CHECK(Narsese_AtomicTermIndex(n) == idx[i], "the same name got another atom");
        VF_CHECK(!strcmp(Narsese_atomNames[idx[i]-1], n), "atom does not carry its name");
        vf_stats.transitions += 2;
        for(int j=0; j<i; j++) VF_CHECK(idx[i] != idx[j], "different names share an atom");
    }
}
int vf_main(void)
{
    vf_quiet();
    for(int k=0; k<NK; k++) keyids[k][0] = keyids[k][1] = k;

    for(hashmode=0; hashmode<4; hashmode++)
        for(buckets=1; buckets<=3; buckets++)
            for(maxel=1; maxel<=(vf_thorough ? 6 : 4); maxel++)
            {
                nk = maxel + 1; if(nk > NK) nk = NK;
                maxdepth = maxel <= 2 ? 60 : vf_thorough ? (maxel <= 4 ? 8 : 7) : (maxel == 3 ? 7 : 6);
                if(vf_case()) explore();
            }
    if(vf_case()) stack_check();
    if(vf_case()) atoms();
    vf_stats.nontrivial = vf_stats.states; vf_stats.validated = vf_stats.transitions;
    return 0;
}
