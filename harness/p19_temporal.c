/* P19: the temporal inference operators on every combination of premises over grids of times, truth values, offsets, evidential
 * bases and terms, and the predictions and subgoals the reasoner derives with them. */
#define _GNU_SOURCE
#include <dlfcn.h>
#include "belief.h"
#include "Inference.h"
#include "terms.h"
#define REAL(f, ...) ({ static __typeof__(&f) r; if(!r) r = (__typeof__(&f)) dlsym(RTLD_NEXT, #f); r(__VA_ARGS__); })
static const RT TR[] = { {1,.9}, {0,.9}, {.7,.5}, {.3,.6}, {.5,.01}, {1,.985}, {.95,.2}, {.05,.3} };
static const long TM[] = { 0, 1, 2, 3, 5, 8, 13, 21, 40, 100 };
#define NT ((int) (sizeof TR/sizeof *TR))
#define NM ((int) (sizeof TM/sizeof *TM))
static const RS BS[][2] = { { { {1}, 1 }, { {2}, 1 } }, { { {3,1}, 2 }, { {2,4,5}, 3 } }, { { {1,2}, 2 }, { {2,1}, 2 } }, { { {1,2,3,4,5,6,7}, 7 }, { {11,12,13,14,15,16,17,18}, 8 } }, { { {9}, 1 }, { {1,2,3,4,5,6,7,8,9,10}, 10 } } };
static RE it(RT t, RS s, long time) { RE e = { true, t, s, time }; return e; }
static Event ev(const char *t, char type, RE e, long created) { Event v = m_event(Narsese_Term((char*) t), e, created); v.type = type; return v; }
static const char *tstr(Term *t) { return t_str(t_dec(t, 1)); }
static void chk(const char *what, Event *r, const char *term, char type, RE want, long created)
{
    Term t = Narsese_Term((char*) term); b_check(r, &want, what);
    for(int i=0; i<COMPOUND_TERM_SIZE_MAX; i++) VF_CHECK(t.atoms[i] == r->term.atoms[i], "%s is about %s instead of %s", what, tstr(&r->term), term);
    VF_CHECK(r->type == type, "%s has type '%c' instead of '%c'", what, r->type, type);
    VF_CHECK(r->creationTime == created, "%s counts as created at %ld instead of %ld", what, r->creationTime, created);
    vf_stats.validated++; vf_stats.nontrivial += want.t.c > 0 && want.t.c < 0.9;
}
static const char *PA[][2] = { { "a", "b" }, { "<a --> b>", "<(a * b) --> r>" }, { "(a &/ b)", "c" }, { "(a &/ b)", "(c &/ d)" }, { "<{a} --> [b]>", "<({SELF} * {a}) --> ^go>" } };
static void operators(void)
{
    char term[300];
    for(int p=0; p<5; p++) for(int s=0; s<5; s++) for(int i=0; i<NT; i++)
    {
        if(!vf_case()) continue;
        for(int k=0; k<NT; k++) for(int x=0; x<NM; x++) for(int y=0; y<NM; y++)
        {
            if(p && (x % 3 || y % 2)) continue;
            const char *ta = PA[p][0], *tb = PA[p][1]; long A = TM[x], B = TM[y], ca = 100 + (x+k) % 3, cb = 101; bool ok; RE want;
            RE a = it(TR[i], BS[s][0], A), b = it(TR[k], BS[s][1], B); RS z = r_zip(&a.s, &b.s); long created = ca > cb ? ca : cb;
            Event ea = ev(ta, EVENT_TYPE_BELIEF, a, ca), eb = ev(tb, EVENT_TYPE_BELIEF, b, cb);
            vf_desc("%s %s and %s %s", ta, b_show(&a), tb, b_show(&b)); vf_stats.states++; vf_stats.transitions += 8;
            if(VF_GUARD_BEGIN())
            {
                if(B >= A)
                {
                    Event r = Inference_BeliefIntersection(&ea, &eb, &ok); VF_CHECK(ok, "no sequence was formed");
                    want = it(r_int(r_proj(a.t, A, B), b.t), z, B); snprintf(term, sizeof term, "(%s &/ %s)", ta, tb); if(p != 3) chk("the sequence", &r, term, EVENT_TYPE_BELIEF, want, created);
                    Implication m = Inference_BeliefInduction(&ea, &eb, &ok); VF_CHECK(ok, "no hypothesis was formed");
                    snprintf(term, sizeof term, "<%s =/> %s>", ta, tb); RT t = r_ind(b.t, r_proj(a.t, A, B));
                    Event as = { .term = m.term, .type = EVENT_TYPE_BELIEF, .truth = m.truth, .stamp = m.stamp, .occurrenceTime = B, .creationTime = m.creationTime };
                    chk("the induced hypothesis", &as, term, EVENT_TYPE_BELIEF, it(t, z, B), created);
                    VF_CHECK(m.occurrenceTimeOffset == B - A, "the hypothesis has the interval %g instead of %ld", m.occurrenceTimeOffset, B - A);
                }
                { /* pooling and choice */
                    Event e2 = eb; e2.term = ea.term; if(ea.truth.confidence < 0.99)
                    { Event r = Inference_EventRevision(&ea, &e2); chk("the pooled item", &r, ta, EVENT_TYPE_BELIEF, it(r_rev(r_proj(a.t, A, B), b.t), z, B), created); }
                    Event g1 = ea, g2 = e2; g1.type = g2.type = EVENT_TYPE_GOAL; bool rv, pooled; Event r = Inference_RevisionAndChoice(&g1, &g2, A > B ? A : B, &rv); want = r_merge(a, b, true, &pooled);
                    b_check(&r, &want, "the stronger of both"); VF_CHECK(rv == pooled, "the result is%s reported as pooled", rv ? "" : " not"); VF_CHECK(r.type == EVENT_TYPE_GOAL, "the result is no goal");
                }
                { /* the item at another time */
                    Event r = Inference_EventUpdate(&ea, B); chk("the updated item", &r, ta, EVENT_TYPE_BELIEF, it(r_proj(a.t, A, B), a.s, B), ca);
                    Event et = ea; et.occurrenceTime = OCCURRENCE_ETERNAL; r = Inference_EventUpdate(&et, B); chk("the updated general item", &r, ta, EVENT_TYPE_BELIEF, it(a.t, a.s, B), ca);
                    r = Event_Eternalized(&ea); chk("the generalised item", &r, ta, EVENT_TYPE_BELIEF, it(r_etern(a.t), a.s, REF_ETERNAL), ca);
                    r = Event_Eternalized(&et); chk("the general item", &r, ta, EVENT_TYPE_BELIEF, it(a.t, a.s, REF_ETERNAL), ca);
                }
                for(int op=0; op<3; op++) if(p != 3 && p != 4 && (op == 0 || p != 2))
                { /* hypotheses; the offset is taken from the second time */
                    const char *ot[] = { "<%s =/> %s>", "<(%s &/ ^left) =/> %s>", "<%s ==> %s>" }; snprintf(term, sizeof term, ot[op], ta, tb);
                    Implication m = { .term = Narsese_Term(term), .truth = { b.t.f, b.t.c }, .stamp = eb.stamp, .occurrenceTimeOffset = TM[y] * 0.5, .creationTime = cb };
                    Event goal = ea; goal.term = Narsese_Term((char*) tb); goal.type = EVENT_TYPE_GOAL;
                    Event r = Inference_GoalDeduction(&goal, &m, B); chk("the derived goal", &r, ta, EVENT_TYPE_GOAL, it(r_gded(a.t, b.t), z, B), created);
                    r = Inference_BeliefDeduction(&ea, &m); RE w2 = it(r_ded(b.t, a.t), z, (long) (A + TM[y] * 0.5)); chk("the prediction", &r, tb, EVENT_TYPE_BELIEF, w2, created);
                    Event et = ea; et.occurrenceTime = OCCURRENCE_ETERNAL; r = Inference_BeliefDeduction(&et, &m); w2.time = REF_ETERNAL; chk("the general conclusion", &r, tb, EVENT_TYPE_BELIEF, w2, created);
                    Implication n = m; n.truth = (Truth) { a.t.f, a.t.c }; n.stamp = ea.stamp; n.occurrenceTimeOffset = TM[x]; n.creationTime = ca;
                    Implication q = Inference_ImplicationRevision(&n, &m); RT t = r_rev(a.t, b.t); double w1 = r_c2w(a.t.c), w3 = r_c2w(b.t.c);
                    Event as = { .term = q.term, .type = EVENT_TYPE_BELIEF, .truth = q.truth, .stamp = q.stamp, .occurrenceTime = 0, .creationTime = q.creationTime };
                    chk("the combined hypothesis", &as, term, EVENT_TYPE_BELIEF, it(t, z, 0), created);
                    VF_CHECK(fabs(q.occurrenceTimeOffset - (w1 * TM[x] + w3 * TM[y] * 0.5) / (w1 + w3)) < 1e-9, "the combined hypothesis has the interval %g", q.occurrenceTimeOffset);
                }
                { /* the rest of a desired sequence: desire and fulfilment at the current time */
                    long now = TM[(x * 3 + y) % NM]; Event c = ea; c.type = EVENT_TYPE_GOAL;
                    Event r = Inference_GoalSequenceDeduction(&c, &eb, now);
                    chk("the goal for the rest", &r, ta, EVENT_TYPE_GOAL, it(r_gded(r_proj(a.t, A, now), r_proj(b.t, B, now)), z, now), created);
                }
                VF_GUARD_END();
            } else { VF_GUARD_END(); vf_fail("an internal check failed"); }
        }
    }
}
/* predictions and subgoals of the reasoner */
static Event goals[64]; static int ngoals; static bool on;
void Memory_AddEvent(Event *e, long now, double p, bool input, bool derived, bool revised, int layer)
{
    if(on && e->type == EVENT_TYPE_GOAL && !input && ngoals < 64) goals[ngoals++] = *e;
    REAL(Memory_AddEvent, e, now, p, input, derived, revised, layer);
}
static Concept *con(const char *t) { Term x = Narsese_Term((char*) t); return Memory_FindConceptByTerm(&x); }
static void feed(const char *f, ...) { char b[400]; va_list v; va_start(v, f); vsnprintf(b, sizeof b, f, v); va_end(v); ex_pl += sprintf(ex_path + ex_pl, "%s | ", b); vf_desc("%s", ex_path); ex_feed(b); vf_stats.transitions++; }
/* the concept-wise greatest truth is irrelevant: there is exactly one hypothesis, condition and outcome */
static void predictions(void)
{
    static void *s; feed("*setopname 1 ^left"); feed("*babblingops=1"); s = vf_snap_new(); int pl0 = ex_pl;
    const char *sc[][4] = { /* condition statement, condition event, outcome, outcome event */ { "a", "a", "b", "b" }, { "<$1 --> o>", "<x --> o>", "<$1 --> q>", "<x --> q>" }, { "<{x} --> [p]>", "<{x} --> [p]>", "<(x * y) --> r>", "<(x * y) --> r>" }, { "(a &/ c)", "(a &/ c)", "b", "b" } };
    for(int c=0; c<4; c++) for(int op=0; op<2; op++) for(int i=0; i<NT; i++) for(int k=0; k<NT; k++)
    {
        if(!vf_case()) continue;
        for(int dt=0; dt<=12; dt+=dt<4 ? 1 : 4) for(int gap=1; gap<=(op ? 4 : 1); gap++) for(int pre=0; pre<2; pre++)
        {
            vf_restore(s); ex_pl = pl0; RT h = TR[i], e = TR[k]; if(e.c > 0.9) e.c = 0.9;
            long hb = base; if(op) feed("dt=%d <(%s &/ ^left) =/> %s>. {%g %g}", dt, sc[c][0], sc[c][2], h.f, h.c); else feed("dt=%d <%s =/> %s>. {%g %g}", dt, sc[c][0], sc[c][2], h.f, h.c);
            if(pre) feed("3");
            Implication *im = NULL; Concept *bc = con(sc[c][2]); if(h.c >= 0.01) { VF_CHECK(bc && bc->precondition_beliefs[op].itemsAmount == 1, "the hypothesis is not held"); im = &bc->precondition_beliefs[op].array[0]; } else continue;
            RT ht = { im->truth.frequency, im->truth.confidence }; VF_CHECK(r_near(ht.f, h.f) && r_near(ht.c, h.c), "the hypothesis is held with {%g %g} instead of {%g %g}", ht.f, ht.c, h.f, h.c);
            long t = currentTime, eb = base; feed("%s. :|: {%g %g}", sc[c][1], e.f, e.c); long top = t; RS hs = { { hb }, 1 }, es = { { eb }, 1 };
            RT src = e;
            if(op) { for(int g=1; g<gap; g++) feed("1"); top = currentTime; feed("^left. :|:"); src = r_int(r_proj(e, t, top), (RT) { 1, 0.9 }); }
            RT want = r_ded(ht, src); Concept *pc = con(sc[c][3]); bool expect = (r_exp(want) > 0.501 + 1e-12) && want.c >= 0.01; bool edge = fabs(r_exp(want) - 0.501) < 1e-9 || fabs(want.c - 0.01) < 1e-9;
            bool learn = expect; /* the consequence is believed to follow */
            if(edge) continue;
            vf_stats.states++;
            if(learn)
            {
                VF_CHECK(pc && pc->predicted_belief.type, "%s is not predicted, though it is to be expected with {%g %g}", sc[c][3], want.f, want.c);
                RE w = it(want, r_zip(&es, &hs), top + dt); b_check(&pc->predicted_belief, &w, "the prediction"); Term pt = Narsese_Term((char*) sc[c][3]);
                VF_CHECK(Term_Equal(&pt, &pc->predicted_belief.term), "the prediction is about %s", tstr(&pc->predicted_belief.term)); vf_stats.validated++; vf_stats.nontrivial++;
            }
            else if(pc && pc->predicted_belief.type && r_exp((RT) { pc->predicted_belief.truth.frequency, pc->predicted_belief.truth.confidence }) > 0.501) vf_fail("%s is predicted with {%g %g}", sc[c][3], pc->predicted_belief.truth.frequency, pc->predicted_belief.truth.confidence);
        }
        /* the condition as a goal */
        for(int gf=0; gf<NT; gf++) for(int w=0; w<2; w++)
        {
            vf_restore(s); ex_pl = pl0; RT h = TR[i], g = TR[gf]; if(h.c < 0.01) continue; if(g.c > 0.9) g.c = 0.9; (void) k;
            if(k) break;
            long hb = base; if(op) feed("<(%s &/ ^left) =/> %s>. {%g %g}", sc[c][0], sc[c][2], h.f, h.c); else feed("<%s =/> %s>. {%g %g}", sc[c][0], sc[c][2], h.f, h.c);
            if(w) feed("2");
            long gb = base, t = currentTime; ngoals = 0; on = true; feed("%s! :|: {%g %g}", sc[c][3], g.f, g.c); on = false;
            RT want = r_gded(g, h); RS hs = { { hb }, 1 }, gs = { { gb }, 1 }; RE x = it(want, r_zip(&gs, &hs), t); Term pt = Narsese_Term((char*) sc[c][1]);
            if(c == 3) { pt = Narsese_Term("a"); }
            if(c == 3 && want.c < 0.02) continue;
            int n = 0; for(int j=0; j<ngoals; j++) if(Term_Equal(&pt, &goals[j].term)) { n++; if(c == 3) { x.t = r_str(want); } b_check(&goals[j], &x, "the derived goal"); } else if(c != 3) vf_fail("the goal %s was derived", tstr(&goals[j].term));
            VF_CHECK(n == 1, "the condition was made a goal %d times", n); vf_stats.validated++; vf_stats.nontrivial++; vf_stats.states++;
        }
    }
}
int vf_main(void)
{
    vf_quiet(); vf_cap_begin(); Shell_NARInit(); MOTOR_BABBLING_CHANCE = 0; void *init = vf_snap_new();
    operators(); vf_restore(init); ex_pl = 0; predictions();
    return 0;
}
