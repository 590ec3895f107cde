/* Invariants of the reasoner's stores, evaluated on the post-state of a step. */
#ifndef INVARIANTS_H
#define INVARIANTS_H
#include "vf.h"
#include "NAR.h"
static char *concept_storage_base(void) { static char *b; if(!b) for(int i=0; i<CONCEPTS_MAX; i++) if(!b || (char*) concepts.items[i].address < b) b = concepts.items[i].address; return b; }
static bool inv_atom_simple(Atom a) { char c = a > 0 ? Narsese_atomNames[a-1][0] : 0; return c == '^' || (c >= 'a' && c <= 'z') || (c >= 'A' && c <= 'Z') || (c >= '0' && c <= '9'); }
static const char *inv_str(Term *t)
{
    static char b[4][600]; static int k; char *p = b[k++ & 3]; int n = 0; p[0] = 0;
    for(int i=0; i<COMPOUND_TERM_SIZE_MAX && n < 500; i++) if(t->atoms[i]) n += sprintf(p + n, "%s%d:%s", i ? " " : "", i, t->atoms[i] > 0 && t->atoms[i] <= ATOMS_MAX ? Narsese_atomNames[t->atoms[i]-1] : "?!");
    return p;
}
static bool inv_teq(Term *a, Term *b) { return !memcmp(a->atoms, b->atoms, sizeof a->atoms); }
/* P04: concepts, lookup table, atom index */
static void inv_memory(void)
{
    int n = concepts.itemsAmount; VF_CHECK(n >= 0 && n <= CONCEPTS_MAX, "%d concepts held", n);
    static bool used[CONCEPTS_MAX]; memset(used, 0, sizeof used);
    for(int i=0; i<n; i++)
    {
        Concept *c = concepts.items[i].address; long k = ((char*) c - (char*) concept_storage_base()) / (long) sizeof(Concept);
        VF_CHECK(k >= 0 && k < CONCEPTS_MAX && !used[k], "a concept is held twice or is none of the stored ones"); used[k] = true;
        VF_CHECK(c->term.atoms[0] != 0, "a stored concept has no term");
        VF_CHECK(Memory_FindConceptByTerm(&c->term) == c, "the stored concept %s is %s by its term", inv_str(&c->term), Memory_FindConceptByTerm(&c->term) ? "another one" : "not found");
        for(int j=0; j<i; j++) { Concept *d = concepts.items[j].address; VF_CHECK(!inv_teq(&c->term, &d->term), "two concepts named %s", inv_str(&c->term)); VF_CHECK(c->id != d->id, "two concepts share an identity"); }
        /* what a concept holds is about its own term */
        Event *e[4] = { &c->belief, &c->belief_spike, &c->predicted_belief, &c->goal_spike }; static const char *nm[4] = { "belief", "observation", "prediction", "goal" };
        for(int j=0; j<4; j++) if(e[j]->type != EVENT_TYPE_DELETED && !Variable_hasVariable(&c->term, true, true, true)) VF_CHECK(inv_teq(&e[j]->term, &c->term), "the %s of %s is about %s", nm[j], inv_str(&c->term), inv_str(&e[j]->term));
        for(int o=0; o<=OPERATIONS_MAX+1; o++)
        {
            Table *t = o <= OPERATIONS_MAX ? &c->precondition_beliefs[o] : &c->implication_links;
            for(int j=0; j<t->itemsAmount && j<TABLE_SIZE; j++) { Term p = Term_ExtractSubterm(&t->array[j].term, 2); VF_CHECK(inv_teq(&p, &c->term), "%s holds a hypothesis about %s", inv_str(&c->term), inv_str(&t->array[j].term)); }
        }
    }
    /* lookup table: exactly the stored concepts */
    int entries = 0;
    for(int b=0; b<CONCEPTS_HASHTABLE_BUCKETS; b++) for(VMItem *it = HTconcepts.HT[b]; it; it = it->next)
    {
        VF_CHECK(++entries <= n, "more lookup entries than stored concepts");
        bool held = false; for(int i=0; i<n && !held; i++) held = concepts.items[i].address == it->value;
        VF_CHECK(held, "the lookup table refers to something that is no stored concept");
    }
    VF_CHECK(entries == n, "%d lookup entries for %d stored concepts", entries, n);
    /* atom index */
    static int cnt[CONCEPTS_MAX];
    for(int a=1; a<ATOMS_MAX; a++)
    {
        if(!Narsese_atomNames[a-1][0]) continue;
        memset(cnt, 0, sizeof cnt); int len = 0;
        for(ConceptChainElement *e = InvertedAtomIndex_GetConceptChain(a); e; e = e->next)
        {
            long k = ((char*) e->c - (char*) concept_storage_base()) / (long) sizeof(Concept);
            VF_CHECK(e->c && k >= 0 && k < CONCEPTS_MAX && used[k], "the atom index lists something that is no stored concept under '%s'", Narsese_atomNames[a-1]);
            cnt[k]++; VF_CHECK(++len < 10*CONCEPTS_MAX, "the chain of '%s' does not end", Narsese_atomNames[a-1]);
        }
        for(int i=0; i<n; i++)
        {
            Concept *c = concepts.items[i].address; long k = ((char*) c - (char*) concept_storage_base()) / (long) sizeof(Concept);
            bool has = false; if(inv_atom_simple(a)) for(int p=0; p<UNIFICATION_DEPTH; p++) has |= c->term.atoms[p] == a;
            VF_CHECK(cnt[k] == (has ? 1 : 0), "%s is listed %d times under '%s'", inv_str(&c->term), cnt[k], Narsese_atomNames[a-1]);
        }
    }
}
static void inv_truth(Truth t, const char *w) { VF_CHECK(t.frequency >= 0 && t.frequency <= 1 && t.confidence >= 0 && t.confidence < 1, "%s has truth value (%g, %g)", w, t.frequency, t.confidence); }
static void inv_stamp(Stamp *s, const char *w, bool input)
{
    bool end = false; for(int i=0; i<STAMP_SIZE; i++) { if(!s->evidentialBase[i]) end = true; else { VF_CHECK(!end, "the stamp of %s has a gap", w); VF_CHECK(s->evidentialBase[i] > 0 && s->evidentialBase[i] < base, "the stamp of %s contains %ld which was never assigned", w, (long) s->evidentialBase[i]); } }
}
static void inv_term(Term *t, const char *w)
{
    VF_CHECK(t->atoms[0] != 0, "%s has no term", w);
    for(int i=0; i<COMPOUND_TERM_SIZE_MAX; i++) { VF_CHECK(t->atoms[i] <= ATOMS_MAX && (!t->atoms[i] || Narsese_atomNames[t->atoms[i]-1][0]), "%s contains the unknown atom %d", w, t->atoms[i]); VF_CHECK(i == 0 || !t->atoms[i] || t->atoms[(i-1)/2], "%s contains an atom without parent", w); }
}
static void inv_event(Event *e, const char *w, bool mayempty)
{
    VF_CHECK(e->type == EVENT_TYPE_BELIEF || e->type == EVENT_TYPE_GOAL, "%s is neither belief nor goal", w);
    inv_truth(e->truth, w); inv_term(&e->term, w); inv_stamp(&e->stamp, w, false);
    VF_CHECK(mayempty || e->stamp.evidentialBase[0], "%s has no evidential base", w);
}
static void inv_queue(PriorityQueue *q, int cap, const char *w)
{
    VF_CHECK(q->itemsAmount >= 0 && q->itemsAmount <= cap && q->maxElements == cap, "%s holds %d of %d entries", w, q->itemsAmount, cap);
    for(int i=0; i<q->itemsAmount; i++)
    {
        VF_CHECK(q->items[i].address != NULL && q->items[i].priority >= 0 && q->items[i].priority <= 1, "%s: entry %d has priority %g", w, i, q->items[i].priority);
        for(int j=0; j<i; j++) VF_CHECK(q->items[i].address != q->items[j].address, "%s: two entries share their storage", w);
    }
    /* the slots beyond the held entries are distinct storage, too (they are handed out next) */
    for(int i=0; i<cap; i++) { VF_CHECK(q->items[i].address != NULL, "%s: slot %d has no storage", w, i); for(int j=0; j<i; j++) VF_CHECK(q->items[i].address != q->items[j].address, "%s: two slots share their storage", w); }
}
/* P28: bounds and references of all stores */
static void inv_stores(void)
{
    inv_queue(&concepts, CONCEPTS_MAX, "the concept memory"); inv_queue(&cycling_belief_events, CYCLING_BELIEF_EVENTS_MAX, "the belief event buffer");
    for(int i=0; i<cycling_belief_events.itemsAmount; i++) inv_event(cycling_belief_events.items[i].address, "a buffered belief event", false);
    for(int l=0; l<CYCLING_GOAL_EVENTS_LAYERS; l++) { inv_queue(&cycling_goal_events[l], CYCLING_GOAL_EVENTS_MAX, "a goal event buffer"); for(int i=0; i<cycling_goal_events[l].itemsAmount; i++) inv_event(cycling_goal_events[l].items[i].address, "a buffered goal event", true); }
    for(int i=0; i<concepts.itemsAmount; i++)
    {
        Concept *c = concepts.items[i].address;
        inv_term(&c->term, "a concept");
        VF_CHECK(c->priority >= 0 && c->priority <= 1, "%s has priority %g", inv_str(&c->term), c->priority);
        if(c->belief.type) { inv_event(&c->belief, "a general belief", true); VF_CHECK(c->belief.occurrenceTime == OCCURRENCE_ETERNAL, "a general belief has a time"); }
        if(c->belief_spike.type) { inv_event(&c->belief_spike, "an observation", true); VF_CHECK(c->belief_spike.occurrenceTime != OCCURRENCE_ETERNAL, "an observation has no time"); }
        if(c->predicted_belief.type) inv_event(&c->predicted_belief, "a prediction", true);
        if(c->goal_spike.type) inv_event(&c->goal_spike, "a held goal", true);
        for(int o=0; o<=OPERATIONS_MAX+1; o++)
        {
            Table *t = o <= OPERATIONS_MAX ? &c->precondition_beliefs[o] : &c->implication_links;
            VF_CHECK(t->itemsAmount >= 0 && t->itemsAmount <= TABLE_SIZE, "a table holds %d entries", t->itemsAmount);
            for(int j=0; j<t->itemsAmount; j++)
            {
                Implication *im = &t->array[j]; inv_truth(im->truth, "a hypothesis"); inv_term(&im->term, "a hypothesis"); inv_stamp(&im->stamp, "a hypothesis", false);
                VF_CHECK(!isnan(im->occurrenceTimeOffset), "a hypothesis has no time offset");
                VF_CHECK(j == 0 || Truth_Expectation(t->array[j-1].truth) >= Truth_Expectation(im->truth) - 1e-12, "a table is not ordered: %g before %g", Truth_Expectation(t->array[j-1].truth), Truth_Expectation(im->truth));
                for(int k=0; k<j; k++) VF_CHECK(!inv_teq(&t->array[k].term, &im->term), "a table holds two hypotheses %s", inv_str(&im->term));
                long k = ((char*) im->sourceConcept - (char*) concept_storage_base()); VF_CHECK(im->sourceConcept && k >= 0 && k < (long) sizeof(Concept)*CONCEPTS_MAX && k % (long) sizeof(Concept) == 0, "a hypothesis refers to something that is no concept");
                if(Memory_ImplicationValid(im))
                {
                    Concept *s = im->sourceConcept; Term subj = Term_ExtractSubterm(&im->term, 1); Term pre = (o >= 1 && o <= OPERATIONS_MAX) ? Narsese_GetPreconditionWithoutOp(&subj) : subj;
                    VF_CHECK(inv_teq(&s->term, &pre), "the hypothesis %s refers to the concept %s as its condition", inv_str(&im->term), inv_str(&s->term));
                    VF_CHECK(Memory_FindConceptByTerm(&s->term) == s, "the condition concept of %s counts as valid but is not stored", inv_str(&im->term));
                }
            }
        }
    }
    VF_CHECK(occurrenceTimeIndex.itemsAmount >= 0 && occurrenceTimeIndex.itemsAmount <= OCCURRENCE_TIME_INDEX_SIZE, "the recency index holds %d entries", occurrenceTimeIndex.itemsAmount);
    for(int i=0; i<occurrenceTimeIndex.itemsAmount; i++) { long k = ((char*) occurrenceTimeIndex.array[i] - (char*) concept_storage_base()); VF_CHECK(k >= 0 && k < (long) sizeof(Concept)*CONCEPTS_MAX, "the recency index refers to something that is no concept"); }
    VF_CHECK(conceptPriorityThreshold >= 0 && conceptPriorityThreshold <= 1, "the concept threshold is %g", conceptPriorityThreshold);
}
#endif
