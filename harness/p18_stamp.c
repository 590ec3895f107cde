/* P18: provenance of every held item. In every history all combinations of premises are observed: results carry the merged base of
 * the very premises, semantic combinations have disjoint bases, inputs get a base of their own, and everything held afterwards was
 * held before, is an input, or is the result of an observed combination. */
#define _GNU_SOURCE
#include <dlfcn.h>
#include "belief.h"
#include "terms.h"
#include "Inference.h"
#include "RuleTable.h"
#include "Cycle.h"
#define REAL(f, ...) ({ static __typeof__(&f) r; if(!r) r = (__typeof__(&f)) dlsym(RTLD_NEXT, #f); r(__VA_ARGS__); })
extern Event selectedBeliefs[]; extern int beliefsSelectedCnt; extern Event selectedGoals[]; extern int goalsSelectedCnt;
static bool on;
/* bases held before the step or produced in it */
#define KN 16384
static Stamp known[KN]; static unsigned char kused[KN]; static int nk;
static void kn_reset(void) { memset(kused, 0, sizeof kused); nk = 0; }
static unsigned kh(const Stamp *s) { return vf_hash(s, sizeof *s, 5) % KN; }
static bool kn_has(const Stamp *s) { for(unsigned i=kh(s); kused[i]; i=(i+1)%KN) if(!memcmp(&known[i], s, sizeof *s)) return true; return false; }
static void kn_add(const Stamp *s) { if(kn_has(s)) return; if(++nk > KN*3/4) abort(); unsigned i = kh(s); while(kused[i]) i = (i+1)%KN; kused[i] = 1; known[i] = *s; }
static Stamp to_stamp(RS r) { Stamp s = {0}; for(int i=0; i<r.n; i++) s.evidentialBase[i] = r.id[i]; return s; }
static Stamp zip(const Stamp *a, const Stamp *b) { RS x = b_stamp(a), y = b_stamp(b); return to_stamp(r_zip(&x, &y)); }
static bool same_base(const Stamp *a, const Stamp *b) { RS x = b_stamp(a), y = b_stamp(b); return r_samebase(&x, &y); }
static bool over(const Stamp *a, const Stamp *b) { RS x = b_stamp(a), y = b_stamp(b); return r_overlap(&x, &y); }
static const char *ss(const Stamp *s) { RE e = { true, { 0, 0 }, b_stamp(s), 0 }; return strstr(b_show(&e), "["); }
static void held(void (*f)(const Stamp*, const char*))
{
    for(int i=0; i<concepts.itemsAmount; i++)
    {
        Concept *c = concepts.items[i].address;
        if(c->belief.type) f(&c->belief.stamp, "general belief"); if(c->belief_spike.type) f(&c->belief_spike.stamp, "observation"); if(c->predicted_belief.type) f(&c->predicted_belief.stamp, "prediction"); if(c->goal_spike.type) f(&c->goal_spike.stamp, "goal");
        for(int o=0; o<=OPERATIONS_MAX; o++) for(int k=0; k<c->precondition_beliefs[o].itemsAmount; k++) f(&c->precondition_beliefs[o].array[k].stamp, "hypothesis");
        for(int k=0; k<c->implication_links.itemsAmount; k++) f(&c->implication_links.array[k].stamp, "implication");
    }
    for(int i=0; i<cycling_belief_events.itemsAmount; i++) f(&((Event*) cycling_belief_events.items[i].address)->stamp, "pending event");
    for(int l=0; l<CYCLING_GOAL_EVENTS_LAYERS; l++) for(int i=0; i<cycling_goal_events[l].itemsAmount; i++) f(&((Event*) cycling_goal_events[l].items[i].address)->stamp, "pending goal");
}
static long maxid; static void h_known(const Stamp *s, const char *w) { kn_add(s); for(int i=0; i<STAMP_SIZE; i++) if(s->evidentialBase[i] > maxid && s->evidentialBase[i] < 1000000) maxid = s->evidentialBase[i]; }
static void h_check(const Stamp *s, const char *w) { VF_CHECK(kn_has(s), "a %s rests on %s, which no premises of this step provide", w, ss(s)); vf_stats.validated++; }
static Stamp combine(const char *what, const Stamp *r, const Stamp *a, const Stamp *b) { Stamp z = zip(a, b); VF_CHECK(same_base(r, &z), "%s of premises based on %s and %s is based on %s", what, ss(a), ss(b), ss(r)); kn_add(r); vf_stats.nontrivial++; return z; }
Event Inference_BeliefIntersection(Event *a, Event *b, bool *success) { Event A = *a, B = *b; Event r = REAL(Inference_BeliefIntersection, a, b, success); if(on && *success) combine("sequence", &r.stamp, &A.stamp, &B.stamp); return r; }
Implication Inference_BeliefInduction(Event *a, Event *b, bool *success) { Event A = *a, B = *b; Implication r = REAL(Inference_BeliefInduction, a, b, success); if(on && *success) { combine("temporal induction", &r.stamp, &A.stamp, &B.stamp); VF_CHECK(!over(&A.stamp, &B.stamp), "temporal induction from items with shared evidence %s %s", ss(&A.stamp), ss(&B.stamp)); } return r; }
Event Inference_EventRevision(Event *a, Event *b) { Event A = *a, B = *b; Event r = REAL(Inference_EventRevision, a, b); if(on) { combine("pooling", &r.stamp, &A.stamp, &B.stamp); VF_CHECK(!over(&A.stamp, &B.stamp), "items with shared evidence %s %s were pooled", ss(&A.stamp), ss(&B.stamp)); } return r; }
Implication Inference_ImplicationRevision(Implication *a, Implication *b) { Implication A = *a, B = *b; Implication r = REAL(Inference_ImplicationRevision, a, b); if(on) combine("revision of hypotheses", &r.stamp, &A.stamp, &B.stamp); return r; }
Event Inference_GoalDeduction(Event *a, Implication *b, long t) { Event A = *a; Implication B = *b; Event r = REAL(Inference_GoalDeduction, a, b, t); if(on) combine("goal derivation", &r.stamp, &A.stamp, &B.stamp); return r; }
Event Inference_GoalSequenceDeduction(Event *a, Event *b, long t) { Event A = *a, B = *b; Event r = REAL(Inference_GoalSequenceDeduction, a, b, t); if(on) combine("goal sequence derivation", &r.stamp, &A.stamp, &B.stamp); return r; }
Event Inference_BeliefDeduction(Event *a, Implication *b) { Event A = *a; Implication B = *b; Event r = REAL(Inference_BeliefDeduction, a, b); if(on) combine("prediction", &r.stamp, &A.stamp, &B.stamp); return r; }
/* semantic inference */
static bool in_sem, in_rule, rule_double; static Stamp rule_stamp; static double rule_conf; static int depth;
void RuleTable_Apply(Term term1, Term term2, Truth truth1, Truth truth2, long occ, double off, Stamp stamp, long now, double pp, double cp, bool dbl, Concept *vc, long vid)
{
    if(on)
    {
        Event *e = NULL; for(int i=0; i<beliefsSelectedCnt; i++) if(Term_Equal(&selectedBeliefs[i].term, &term1)) e = &selectedBeliefs[i];
        VF_CHECK(e != NULL, "the first premise is not the selected event");
        if(!dbl) VF_CHECK(same_base(&stamp, &e->stamp), "a conclusion of one premise based on %s gets the base %s", ss(&e->stamp), ss(&stamp));
        else
        {
            VF_CHECK(vc && Term_Equal(&vc->term, &term2), "the second premise is not the concept's statement");
            Event *cand[2] = { &vc->belief, &vc->belief_spike }; bool ok = false; const Event *match = NULL;
            for(int i=0; i<2; i++) if(cand[i]->type)
            {
                RT t = { cand[i]->truth.frequency, cand[i]->truth.confidence }; if(i) { if(e->occurrenceTime == OCCURRENCE_ETERNAL) continue; t = r_proj(t, cand[i]->occurrenceTime, e->occurrenceTime); }
                if(!r_near(t.f, truth2.frequency) || !r_near(t.c, truth2.confidence)) continue;
                match = cand[i]; Stamp z = zip(&e->stamp, &cand[i]->stamp);
                ok |= same_base(&z, &stamp) && !over(&e->stamp, &cand[i]->stamp);
            }
            VF_CHECK(match, "the second premise {%g %g} is neither the general belief nor the projected observation", truth2.frequency, truth2.confidence);
            VF_CHECK(ok, "premises based on %s and %s were combined to the base %s", ss(&e->stamp), ss(&match->stamp), ss(&stamp));
            vf_stats.nontrivial++;
        }
        kn_add(&stamp); in_rule = true; rule_double = dbl; rule_stamp = stamp; rule_conf = dbl ? fmin(truth1.confidence, truth2.confidence) : truth1.confidence;
    }
    REAL(RuleTable_Apply, term1, term2, truth1, truth2, occ, off, stamp, now, pp, cp, dbl, vc, vid); in_rule = false;
}
void Cycle_Inference(long t) { in_sem = true; REAL(Cycle_Inference, t); in_sem = false; }
static int inputs; static Stamp importexp;
void Memory_AddEvent(Event *e, long now, double p, bool input, bool derived, bool revised, int layer)
{
    if(on)
    {
        if(input)
        {
            inputs++;
            if(importexp.evidentialBase[0]) { VF_CHECK(same_base(&e->stamp, &importexp), "the input has base %s instead of the given %s", ss(&e->stamp), ss(&importexp)); importexp = (Stamp) {0}; }
            else
            {
                VF_CHECK(e->stamp.evidentialBase[0] && !e->stamp.evidentialBase[1], "the input has base %s", ss(&e->stamp));
                VF_CHECK(e->stamp.evidentialBase[0] > maxid, "the input has base %s, but evidence %ld is already in use", ss(&e->stamp), maxid);
            }
            if(e->stamp.evidentialBase[0] > maxid && e->stamp.evidentialBase[0] < 1000000) maxid = e->stamp.evidentialBase[0];
            kn_add(&e->stamp);
        }
        else if(in_rule && depth == 0)
        {
            VF_CHECK(same_base(&e->stamp, &rule_stamp), "a conclusion has the base %s, its premises %s", ss(&e->stamp), ss(&rule_stamp));
            VF_CHECK(e->truth.confidence <= rule_conf + 1e-12, "a conclusion has confidence %g, more than its premises' %g", e->truth.confidence, rule_conf);
        }
        else if(in_sem && depth == 0)
        {
            bool ok = false;
            for(int s=0; s<beliefsSelectedCnt && !ok; s++) for(int i=0; i<concepts.itemsAmount && !ok; i++)
            { Concept *c = concepts.items[i].address; Event *cd[2] = { &c->belief, &c->belief_spike }; for(int k=0; k<2; k++) if(cd[k]->type && !over(&selectedBeliefs[s].stamp, &cd[k]->stamp)) { Stamp z = zip(&selectedBeliefs[s].stamp, &cd[k]->stamp); ok |= same_base(&z, &e->stamp); } }
            /* the premise could have been revised by a conclusion of the same combination */
            ok |= kn_has(&e->stamp);
            VF_CHECK(ok, "a conclusion has the base %s, which is not the merged base of the selected event and a belief with other evidence", ss(&e->stamp));
            kn_add(&e->stamp);
        }
        else if(!revised && !kn_has(&e->stamp))
        {
            /* equivalence of two hypotheses with the same effect */
            bool ok = false; for(int i=0; i<concepts.itemsAmount && !ok; i++) { Concept *c = concepts.items[i].address; for(int o=0; o<=OPERATIONS_MAX; o++) for(int k=0; k<c->precondition_beliefs[o].itemsAmount; k++) for(int l=0; l<c->precondition_beliefs[o].itemsAmount; l++) { Stamp z = zip(&c->precondition_beliefs[o].array[k].stamp, &c->precondition_beliefs[o].array[l].stamp); ok |= same_base(&z, &e->stamp); } }
            VF_CHECK(ok, "a derived item has the base %s, which no premises provide", ss(&e->stamp)); kn_add(&e->stamp);
        }
    }
    depth++; REAL(Memory_AddEvent, e, now, p, input, derived, revised, layer); depth--;
}
static void before(const char *line) { depth = 0; in_sem = in_rule = false; kn_reset(); maxid = 0; held(h_known); Stamp none = {0}; kn_add(&none); on = strcmp(line, "*reset") != 0; inputs = 0; for(int i=0; i<beliefsSelectedCnt; i++) kn_add(&selectedBeliefs[i].stamp);
    importexp = importstamp; }
static void conf(Event *e, const char *w) { if(e->type) VF_CHECK(e->truth.confidence <= MAX_CONFIDENCE + 1e-12 && e->truth.confidence > 0, "the %s of %s at %ld has confidence %g", w, t_str(t_dec(&e->term, 1)), e->occurrenceTime, e->truth.confidence); }
static void after(const char *line)
{
    on = false; held(h_check);
    if(!strncmp(line, "*stampimport", 12))
    {
        Stamp g = {0}; const char *p = strchr(line, '['); for(int i=0; p && *p && *p != ']' && i < STAMP_SIZE; i++) g.evidentialBase[i] = strtol(p + 1, (char**) &p, 10);
        VF_CHECK(same_base(&g, &importstamp), "the next input is to have the base %s instead of the given %s", ss(&importstamp), ss(&g));
    }
    for(int i=0; i<concepts.itemsAmount; i++) { Concept *c = concepts.items[i].address; conf(&c->belief, "general belief"); conf(&c->belief_spike, "observation"); if(c->belief.type) VF_CHECK(c->belief.truth.confidence >= MIN_CONFIDENCE / (1 + MIN_CONFIDENCE) - 1e-12, "a general belief with confidence %g is held", c->belief.truth.confidence); }
    for(int i=0; i<cycling_belief_events.itemsAmount; i++) VF_CHECK(((Event*) cycling_belief_events.items[i].address)->truth.confidence >= MIN_CONFIDENCE, "an event of confidence %g is held", ((Event*) cycling_belief_events.items[i].address)->truth.confidence);
    for(int l=0; l<CYCLING_GOAL_EVENTS_LAYERS; l++) for(int i=0; i<cycling_goal_events[l].itemsAmount; i++) VF_CHECK(((Event*) cycling_goal_events[l].items[i].address)->truth.confidence >= MIN_CONFIDENCE, "a goal of confidence %g is held", ((Event*) cycling_goal_events[l].items[i].address)->truth.confidence);
}
static const char *A[] = { "<a --> b>. {1.0 0.4}", "<b --> c>. :|: {0.9 0.5}", "<c --> a>. {1.0 0.6}", "1", "<a <-> b>. :|: {0.8 0.4}", "<<$1 --> b> ==> <$1 --> c>>. {1.0 0.5}", "(<#1 --> b> && <#1 --> c>). {1.0 0.6}", "<b --> c>. {0.8 0.04}" };
static const char *B[] = { "a. :|:", "b. :|: {0.9 0.6}", "^left. :|:", "g! :|:", "<(a &/ ^left) =/> g>. {0.9 0.5}", "<a =/> b>.", "1", "(a &/ b)! :|:", "<(b &/ ^left) =/> g>. {0.9 0.6}" };
static const char *C[] = { "<a ==> b>. {0.9 0.6}", "a. :|:", "a. {0.9 0.3}", "b! :|:", "<a <=> c>. {1.0 0.5}", "c. :|: {0.8 0.7}", "1", "*stampimport=[5000001,5000002]", "*concurrent", "*stampimport=[1]" };
static const char *D[] = { "<{x} --> [p]>. :|:", "<{y} --> [p]>. :|: {0.7 0.6}", "<({x} * {y}) --> r>. :|:", "<({SELF} * {y}) --> ^go>. :|:", "<(<$1 --> [p]> &/ <({SELF} * $1) --> ^go>) =/> g>. {0.9 0.7}", "g! :|:", "1", "<{x} |-> [q]>. {0.3 0.8}" };
int vf_main(void)
{
    vf_quiet(); vf_cap_begin(); Shell_NARInit(); MOTOR_BABBLING_CHANCE = 0; void *init = vf_snap_new();
    const struct { const char **a; int n; const char *setup; } AB[] = { { A, sizeof A/sizeof *A, "" }, { B, sizeof B/sizeof *B, "*setopname 1 ^left" }, { C, sizeof C/sizeof *C, "z. :|:" }, { D, sizeof D/sizeof *D, "*setopname 1 ^go" } };
    ex_before = before; ex_after = after;
    for(int i=0; i<4; i++)
    {
        vf_restore(init); if(*AB[i].setup) ex_feed(AB[i].setup); static void *s1; if(!s1) s1 = vf_snap_new(); else vf_snap(s1);
        ex_all(AB[i].a, AB[i].n, vf_thorough ? 7 : 6, AB[i].setup);
        vf_restore(s1); for(int l=1; l<=(vf_thorough ? 5 : 3); l++) ex_periodic(AB[i].a, AB[i].n, l, 30, AB[i].setup);
        vf_restore(s1);
    }
    return 0;
}
