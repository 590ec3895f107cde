/* canonical digest of everything the reasoner holds (names instead of numbers, no addresses), in the order in which it is held */
#ifndef DUMP_H
#define DUMP_H
#include "vf.h"
#include "NAR.h"
#include "Stats.h"
extern Event selectedBeliefs[]; extern int beliefsSelectedCnt; extern Event selectedGoals[]; extern int goalsSelectedCnt; extern double conceptPriorityThreshold;
static uint64_t dh; 
static void d_l(long x) { dh = vf_hash(&x, sizeof x, dh); }
static void d_f(double x) { dh = vf_hash(&x, sizeof x, dh); }
static uint64_t d_an[4096]; static bool d_anv[4096];
static uint64_t d_name(Atom a) { char *n = Narsese_atomNames[a-1]; return vf_hash(n, strlen(n), 3); }
static void d_term(const Term *t) { for(int i=0; i<COMPOUND_TERM_SIZE_MAX; i++) if(t->atoms[i]) { uint64_t h = d_name(t->atoms[i]) + i; dh = vf_hash(&h, sizeof h, dh); } }
static void d_stamp(const Stamp *s) { for(int i=0; i<STAMP_SIZE; i++) d_l(s->evidentialBase[i]); }
static void d_event(const Event *e) { d_l(e->type); if(!e->type) return; d_term(&e->term); d_f(e->truth.frequency); d_f(e->truth.confidence); d_stamp(&e->stamp); d_l(e->occurrenceTime); d_l(e->creationTime); d_l(e->processed); d_f(e->occurrenceTimeOffset); }
static void d_table(const Table *t) { d_l(t->itemsAmount); for(int i=0; i<t->itemsAmount; i++) { const Implication *m = &t->array[i]; d_term(&m->term); d_f(m->truth.frequency); d_f(m->truth.confidence); d_stamp(&m->stamp); d_f(m->occurrenceTimeOffset); d_l(m->creationTime); } }
static void d_concept(const Concept *c) { d_term(&c->term); d_event(&c->belief); d_event(&c->belief_spike); d_event(&c->predicted_belief); d_event(&c->goal_spike); for(int o=0; o<=OPERATIONS_MAX; o++) d_table(&c->precondition_beliefs[o]); d_table(&c->implication_links); d_f(c->priority); d_l(c->usage.useCount); d_l(c->usage.lastUsed); d_l(c->lastSelectionTime); }
/* knowledge: what is known about which term, whatever the order */
static uint64_t d_knowledge(void) { uint64_t sum = 0; for(int i=0; i<concepts.itemsAmount; i++) { dh = 7; d_concept(concepts.items[i].address); sum += dh; } return sum; }
static uint64_t d_all(void)
{
    dh = 11; d_l(currentTime); d_l(base); d_l(concepts.itemsAmount);
    for(int i=0; i<concepts.itemsAmount; i++) { d_concept(concepts.items[i].address); d_f(concepts.items[i].priority); }
    d_l(cycling_belief_events.itemsAmount); for(int i=0; i<cycling_belief_events.itemsAmount; i++) { d_event(cycling_belief_events.items[i].address); d_f(cycling_belief_events.items[i].priority); }
    for(int l=0; l<CYCLING_GOAL_EVENTS_LAYERS; l++) { d_l(cycling_goal_events[l].itemsAmount); for(int i=0; i<cycling_goal_events[l].itemsAmount; i++) { d_event(cycling_goal_events[l].items[i].address); d_f(cycling_goal_events[l].items[i].priority); } }
    d_f(conceptPriorityThreshold); d_l(occurrenceTimeIndex.itemsAmount);
    for(int i=0; i<OPERATIONS_MAX; i++) d_term(&operations[i].term);
    return dh;
}
#endif
