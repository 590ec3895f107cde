/* P05: all sequences of add-and-revise / add (fresh term) / remove on a real table of small capacity,
 * against a reference list. States: table contents reachable within the depth (exact, by hash of the model). */
#include "vf.h"
#include "Table.h"
#include "NAR.h"
#include <math.h>
void Metric_send(const char* path, int value) {}
#define N 5                                /* terms */
typedef struct { int term; double f, c, off; long st[STAMP_SIZE]; long ct; } R;
typedef struct { int n; R a[TABLE_SIZE]; } M;
static Term TM[N]; static Concept src[N];
static const double TF[4] = {1.0, 0.0, 0.6, 1.0}, TC[4] = {0.9, 0.5, 0.5, 0.5};   /* expectations .95, .25, .55, .75 */
static double ex(double f, double c) { return c*(f-0.5)+0.5; }
static int depth; static char path[400];
static void same(Table *t, M *m)
{
    VF_CHECK(t->itemsAmount == m->n, "%s: holds %d entries, expected %d", path, t->itemsAmount, m->n);
    for(int i=0; i<m->n; i++)
    {
        Implication *p = &t->array[i]; R *r = &m->a[i];
        if(i) VF_CHECK(Truth_Expectation(t->array[i-1].truth) >= Truth_Expectation(p->truth) - 1e-9, "%s: entry %d is stronger than entry %d", path, i, i-1);
        VF_CHECK(Term_Equal(&p->term, &TM[r->term]) && fabs(p->truth.frequency-r->f) < 1e-9 && fabs(p->truth.confidence-r->c) < 1e-9, "%s: entry %d has another term or truth (%g %g) than expected (term %d, %g %g)", path, i, p->truth.frequency, p->truth.confidence, r->term, r->f, r->c);
        VF_CHECK(fabs(p->occurrenceTimeOffset - r->off) < 1e-9, "%s: entry %d has offset %g, expected %g", path, i, p->occurrenceTimeOffset, r->off);
        VF_CHECK(!memcmp(p->stamp.evidentialBase, r->st, sizeof r->st), "%s: entry %d has another evidential base than expected", path, i);
        VF_CHECK(p->creationTime == r->ct && p->sourceConcept == &src[r->term] && p->sourceConceptId == 100 + r->term, "%s: entry %d has lost its creation time or source concept", path, i);
    }
}
/* the permitted results of inserting r: all entries held before and r, except that on overflow one weakest of
 * them all is missing; the order among entries of equal strength is the implementation's choice (adopted) */
static bool m_insert(M *m, R r, Table *t)
{
    M all = *m; R pool[TABLE_SIZE+1]; int n = m->n; bool used[TABLE_SIZE+1] = {0}; for(int i=0; i<n; i++) pool[i] = m->a[i]; pool[n++] = r;
    (void) all;
    int expn = n > TABLE_SIZE ? TABLE_SIZE : n; M o = { .n = expn };
    VF_CHECK(t->itemsAmount == expn, "%s: holds %d entries, expected %d", path, t->itemsAmount, expn);
    for(int i=0; i<expn; i++)
    {
        int j = 0; while(j < n && (used[j] || !Term_Equal(&t->array[i].term, &TM[pool[j].term]))) j++;
        VF_CHECK(j < n, "%s: entry %d was never added, or is there twice", path, i);
        used[j] = true; o.a[i] = pool[j];
    }
    double dropped = -1; for(int j=0; j<n; j++) if(!used[j]) dropped = ex(pool[j].f, pool[j].c);
    if(dropped >= 0) for(int j=0; j<n; j++) VF_CHECK(ex(pool[j].f, pool[j].c) >= dropped - 1e-9, "%s: an entry of strength %g was dropped although one of strength %g is weaker", path, dropped, ex(pool[j].f, pool[j].c));
    *m = o;
    return used[n-1];
}
static void m_remove(M *m, int k) { for(int j=k; j<m->n-1; j++) m->a[j] = m->a[j+1]; m->n--; }
static void m_zip(long *o, const long *a, const long *b)
{
    int n = 0; long r[STAMP_SIZE] = {0};
    for(int i=0; i<STAMP_SIZE; i++) { if(a[i] && n < STAMP_SIZE) r[n++] = a[i]; if(b[i] && n < STAMP_SIZE) r[n++] = b[i]; }
    memcpy(o, r, sizeof r);
}
static R m_revise(R a, R b)
{
    double w1 = a.c/(1-a.c), w2 = b.c/(1-b.c); R r = a;
    r.f = (w1*a.f+w2*b.f)/(w1+w2); r.c = fmin(MAX_CONFIDENCE, (w1+w2)/(w1+w2+1)); r.off = (w1*a.off+w2*b.off)/(w1+w2);
    m_zip(r.st, a.st, b.st); r.ct = a.ct > b.ct ? a.ct : b.ct;
    return r;
}
static void explore(Table *t, M *m, int d)
{
    vf_stats.states++;
    if(d == depth) return;
    int pl = strlen(path);
    for(int op=0; op<2; op++) for(int k=0; k<N; k++) for(int v=0; v<4; v++)
    {
        int pos = -1; for(int i=0; i<m->n; i++) if(m->a[i].term == k) pos = i;
        if(op == 1 && pos >= 0) continue;    /* plain add is only used for terms not present */
        if(op == 1 && d > 1) continue;       /* (identical to add-and-revise then; enumerated near the root) */
        if(d == 0 && !vf_case()) continue;
        R r = { k, TF[v], TC[v], 1 + 2*v + k, {0}, 50 + d }; r.st[0] = 1000*k + 10*d + v + 1;
        Implication imp = { .term = TM[k], .truth = { r.f, r.c }, .occurrenceTimeOffset = r.off, .sourceConcept = &src[k], .sourceConceptId = 100+k, .creationTime = r.ct };
        memcpy(imp.stamp.evidentialBase, r.st, sizeof r.st);
        sprintf(path + pl, "%s(t%d,%g/%g) ", op ? "add" : "addrev", k, r.f, r.c);
        Table t2 = *t; M m2 = *m;
        R want = r;
        if(op == 0 && pos >= 0) { want = m_revise(m2.a[pos], r); m_remove(&m2, pos); }
        int before = m2.n;
        vf_desc("%s", path);
        Implication *ret = op ? Table_Add(&t2, &imp) : Table_AddAndRevise(&t2, &imp);
        vf_stats.transitions++;
        bool in = m_insert(&m2, want, &t2);
        same(&t2, &m2);
        VF_CHECK((ret != NULL) == in, "%s: result says the entry was %s", path, ret ? "added, but it was not" : "refused, but it is there");
        if(ret) VF_CHECK(ret >= t2.array && ret < t2.array + TABLE_SIZE && Term_Equal(&ret->term, &TM[k]), "%s: returned entry is not the added one", path);
        if(before == TABLE_SIZE || pos >= 0) vf_stats.nontrivial++;
        explore(&t2, &m2, d+1);
        path[pl] = 0;
    }
    for(int i=0; i<m->n; i++)
    {
        sprintf(path + pl, "remove(%d) ", i);
        Table t2 = *t; M m2 = *m; m_remove(&m2, i); Table_Remove(&t2, i);
        vf_stats.transitions++;
        vf_desc("%s", path);
        same(&t2, &m2);
        explore(&t2, &m2, d+1);
        path[pl] = 0;
    }
    if(d == 3 && vf_stats.states % 5000 < 3) vf_sample("%s-> %d entries", path, m->n);
}
int vf_main(void)
{
    vf_quiet(); NAR_INIT();
    static const char *TT[N] = { "<a =/> g>", "<b =/> g>", "<(a &/ b) =/> g>", "<c =/> g>", "<<x --> y> =/> g>" };
    for(int i=0; i<N; i++) { TM[i] = Narsese_Term(TT[i]); if(i & 1) Term_Hash(&TM[i]); }   /* hashed and unhashed incoming terms */
    depth = vf_thorough ? 6 : 5;
    Table t; memset(&t, 0, sizeof t); M m; memset(&m, 0, sizeof m);
    explore(&t, &m, 0);
    vf_stats.validated = vf_stats.transitions;
    return 0;
}
