/* P04: all input histories over an alphabet of more terms than the memory holds (4 concepts), and all words of direct
 * concept creation / re-ranking; after every step the concept store, the lookup table and the atom index are compared, and
 * at every single concept creation what was displaced and what the new concept contains. */
#define _GNU_SOURCE
#include <dlfcn.h>
#include "explore.h"
#include "invariants.h"
static Concept *(*real)(Term*, long);
static uint64_t created, displaced;
/* every creation of a concept during any step */
Concept *Memory_Conceptualize(Term *term, long t)
{
    if(!real) real = (Concept *(*)(Term*, long)) dlsym(RTLD_NEXT, "Memory_Conceptualize");
    Term asked = *term; int n = concepts.itemsAmount; bool was = Memory_FindConceptByTerm(&asked) != NULL;
    static Term old[CONCEPTS_MAX]; double pr[CONCEPTS_MAX], min = 2; Concept *ad[CONCEPTS_MAX]; long id[CONCEPTS_MAX];
    for(int i=0; i<n; i++) { ad[i] = concepts.items[i].address; old[i] = ad[i]->term; id[i] = ad[i]->id; pr[i] = concepts.items[i].priority; if(pr[i] < min) min = pr[i]; }
    Concept *c = real(term, t);
    if(was) { VF_CHECK(c && inv_teq(&c->term, &asked), "asked for the held concept %s, got %s", inv_str(&asked), c ? inv_str(&c->term) : "nothing"); VF_CHECK(concepts.itemsAmount == n, "the number of concepts changed though the concept existed"); for(int i=0; i<n; i++) VF_CHECK(ad[i]->id == id[i], "a concept was replaced though the requested one existed"); return c; }
    if(!c) { VF_CHECK(n == CONCEPTS_MAX, "no concept was created for %s though there is space", inv_str(&asked)); VF_CHECK(min > 1, "no concept was created though a less useful one is held"); return c; }
    created++;
    VF_CHECK(inv_teq(&c->term, &asked), "the created concept is named %s instead of %s", inv_str(&c->term), inv_str(&asked));
    int gone = 0;
    for(int i=0; i<n; i++) if(ad[i]->id != id[i] || !inv_teq(&ad[i]->term, &old[i]))
    {
        gone++; VF_CHECK(ad[i] == c, "another concept changed its identity");
        VF_CHECK(pr[i] == min, "a concept with usefulness %g was displaced though one with %g is held", pr[i], min);
        VF_CHECK(Memory_FindConceptByTerm(&old[i]) == NULL, "the displaced concept %s is still found", inv_str(&old[i]));
    }
    if(n < CONCEPTS_MAX) VF_CHECK(gone == 0 && concepts.itemsAmount == n + 1, "%d concepts displaced, %d held after %d though there was space", gone, concepts.itemsAmount, n);
    else { VF_CHECK(gone == 1 && concepts.itemsAmount == n, "%d concepts displaced, %d held", gone, concepts.itemsAmount); displaced++; vf_stats.nontrivial++; }
    static Concept empty; memset(&empty, 0, sizeof empty);
    VF_CHECK(c->belief.type == EVENT_TYPE_DELETED && c->belief_spike.type == EVENT_TYPE_DELETED && c->predicted_belief.type == EVENT_TYPE_DELETED && c->goal_spike.type == EVENT_TYPE_DELETED, "the new concept %s already holds a belief or goal", inv_str(&asked));
    for(int o=0; o<=OPERATIONS_MAX; o++) VF_CHECK(c->precondition_beliefs[o].itemsAmount == 0, "the new concept %s already holds hypotheses", inv_str(&asked));
    VF_CHECK(c->implication_links.itemsAmount == 0, "the new concept %s already holds implications", inv_str(&asked));
    VF_CHECK(c->priority == 0, "the new concept %s starts with priority %g", inv_str(&asked), c->priority);
    VF_CHECK(c->usage.useCount <= 1 && c->usage.lastUsed <= t, "the new concept %s starts with use count %ld", inv_str(&asked), c->usage.useCount);
    VF_CHECK(c->lastSelectionTime == 0, "the new concept %s counts as selected before", inv_str(&asked));
    return c;
}
static void after(const char *line) { inv_memory(); }
static const char *A[] = { "a. :|:", "b. :|:", "<a --> b>.", "<b --> c>. :|:", "g! :|:", "<(a &/ ^left) =/> g>.", "<a ==> c>.", "^left. :|:", "2", "<(b * a) --> r>.", "<$1 --> b>.", "*reset", "c. :|: {0.0 0.9}", "<a =/> g>." };
static const char *B[] = { "<(<$1 --> o> &/ ^left) =/> <$1 --> g>>.", "<(<$1 --> p> &/ ^left) =/> <$1 --> g>>.", "<x --> o>. :|:", "<y --> p>. :|:", "^left. :|:", "a. :|:", "1", "<x --> o>. :|: {0.9 0.9}", "<(<$1 --> o> &/ ^left) =/> <$1 --> h>>." };
/* direct words: create term i / use it / forget */
static const char *T[] = { "a", "b", "<a --> b>", "<b --> a>", "(a * b)", "(b &/ a)", "<a <-> b>" };
enum { NT = sizeof T / sizeof *T };
static Term TM[NT];
static void direct(int d, int max)
{
    if(d == max) return;
    void *s = ex_snaps[16 + d]; if(!s) s = ex_snaps[16 + d] = vf_snap_new(); else vf_snap(s);
    int pl = ex_pl;
    for(int a=0; a<2*NT + 1; a++)
    {
        if(d == 2 && !vf_case()) continue;
        ex_pl = pl;
        if(a < NT) { ex_pl += sprintf(ex_path + pl, "create %s, ", T[a]); vf_desc("%s", ex_path); Memory_Conceptualize(&TM[a], 10 + d); }
        else if(a < 2*NT) { ex_pl += sprintf(ex_path + pl, "use %s, ", T[a-NT]); vf_desc("%s", ex_path); Concept *c = Memory_FindConceptByTerm(&TM[a-NT]); if(!c) continue; c->usage = Usage_use(c->usage, 10 + d, false); c->belief.type = EVENT_TYPE_BELIEF; c->belief.term = c->term; c->belief_spike = c->belief; c->priority = 0.5; c->lastSelectionTime = 3; }
        else { ex_pl += sprintf(ex_path + pl, "forget, "); vf_desc("%s", ex_path); Cycle_RelativeForgetting(10 + d); }
        inv_memory(); vf_stats.transitions++; if(d >= 2) vf_stats.states++;
        direct(d + 1, max);
        vf_restore(s);
    }
    ex_pl = pl; ex_path[pl] = 0;
}
int vf_main(void)
{
    vf_quiet(); srand(1);
    Shell_NARInit(); for(int i=0; i<NT; i++) TM[i] = Narsese_Term((char*) T[i]);
    vf_cap_begin(); ex_after = after;
    /* evidence numbering, atoms etc. in place so that the snapshot is stable */
    ex_path[0] = 0; ex_pl = 0; direct(0, vf_thorough ? 7 : 6);
    ex_all(A, sizeof A / sizeof *A, vf_thorough ? 6 : 5, "");
    for(int l=1; l<=(vf_thorough ? 4 : 3); l++) ex_periodic(A, sizeof A / sizeof *A, l, 40, "");
    static const char *FILL[] = { "a. :|:", "b. :|:", "<a --> b>.", "g! :|:", "<(a &/ ^left) =/> g>." };
    for(int i=0; i<5; i++) ex_feed(FILL[i]);
    ex_all(A, sizeof A / sizeof *A, vf_thorough ? 5 : 4, "(after a, b, <a --> b>, g!, <(a &/ ^left) =/> g>) ");
    Shell_NARInit(); ex_all(B, sizeof B / sizeof *B, vf_thorough ? 7 : 6, "(generalised hypotheses) ");
    for(int l=1; l<=(vf_thorough ? 5 : 4); l++) ex_periodic(B, sizeof B / sizeof *B, l, 30, "(generalised hypotheses) ");
    vf_count("concepts_created", created); vf_count("concepts_displaced", displaced);
    vf_stats.validated = vf_stats.transitions;
    return 0;
}
