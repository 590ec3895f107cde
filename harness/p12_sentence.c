/* P12: the full product terms x punctuation x tense x truth notation x dt prefix, in a fresh reasoner, and all ordered
 * pairs of a set of sentences without a reset in between. Judged by what the reasoner registers (belief, observation,
 * goal, hypothesis) and by the echo of the input. */
#include "terms.h"
void Metric_send(const char* path, int value) {}
typedef struct { const char *term; char p; int tense; const char *tv; double f, c; const char *dt; double off; } Sent;
static const char *TERMS[] = { "a", "^go", "<a --> b>", "<{a} --> [b]>", "<a <-> b>", "<(a * b) --> rel>", "{a}", "[x y]", "(-- a)", "(a &/ b)", "<a ==> b>", "<a =/> b>", "<(a &/ <({SELF} * x) --> ^op>) =/> b>", "<(a &/ ^op) =/> b>", "<<$1 --> a> ==> <$1 --> b>>", "<({SELF} * {x}) --> ^op>", "<x --> (rel /1 y)>", "<a |-> b>", "(a * (b * c))", "<(rel \\2 x) --> y>", "<a <=> b>", "(a || b)", "<0.5 --> b>", "<a --> (b - c)>" };
enum { NT = sizeof TERMS / sizeof *TERMS };
static const struct { const char *s; double f, c; } TV[] = { {"", 1.0, 0.9}, {" {0.5 0.5}", 0.5, 0.5}, {" {0 0.25}", 0, 0.25}, {" {1.0 0.99}", 1, 0.99}, {" {0.125 1.0}", 0.125, 0.99}, {" {1 0.01}", 1, 0.01}, {" %0.25;0.75%", 0.25, 0.75}, {" %1.0;0.5%", 1, 0.5}, {" %0.5%", 0.5, 0.9}, {" %0%", 0, 0.9}, {" {.75 .125}", 0.75, 0.125}, {" {5e-1 9.5e-1}", 0.5, 0.95} };
enum { NTV = sizeof TV / sizeof *TV };
static const struct { const char *s; double v; } DT[] = { {"", 0}, {"dt=5 ", 5}, {"dt=2.5 ", 2.5}, {"dt=-3 ", -3}, {"dt=100000.000000 ", 100000} };
enum { NDT = 5 };
static const char *TS[] = { "", " :|:", " :\\:", " :/:" };
static void text(const Sent *s, char *o) { sprintf(o, "%s%s%c%s%s", s->dt, s->term, s->p, TS[s->tense], s->tv); }
static Concept *conc(Term t) { return Memory_FindConceptByTerm(&t); }
static bool near(double a, double b) { double d = a - b; return d < 1e-9 && d > -1e-9; }
static double w2c(double w) { return w/(w+1); }
static bool echo(const char *out, const Sent *s, Term want, bool judged)
{
    const char *l = strstr(out, "Input: ");
    if(!l) return false;
    char line[3000]; snprintf(line, sizeof line, "%s", l + 7); line[strcspn(line, "\n")] = 0;
    char *p = line; if(!strncmp(p, "dt=", 3)) { char *e; double v = strtod(p + 3, &e); VF_CHECK(near(v, s->off), "the echo shows the offset %f", v); p = *e ? e + 1 : e; }
    /* the term extends to the mark followed by a space or the end, outside of brackets */
    int d = 0; char *q = p; for(; *q; q++) { if(strchr("(<{[", *q) && !(*q == '<' && (q[1] == '-' || q[1] == '='))) d++; else if(strchr(")}]", *q) || (*q == '>' && q[-1] != '-' && q[-1] != '=' && !(q[-1] == '/' && q[-2] == '='))) d--; else if(!d && (*q == '.' || *q == '!' || *q == '?') && (q[1] == ' ' || !q[1])) break; }
    VF_CHECK(*q == s->p, "the echo does not show the mark %c: %s", s->p, line);
    *q = 0; char c[3000]; strcpy(c, p); Term t = Narsese_Term(c);
    VF_CHECK(Term_Equal(&t, &want), "the echo shows the term %s", p);
    if(!judged) { const char *m = q + 1; VF_CHECK(!strcmp(m, TS[s->tense]), "the echo of the question shows the tense '%s'", m); return true; }
    char *tv = strstr(q + 1, "frequency="); double f, cc; VF_CHECK(tv && sscanf(tv, "frequency=%lf, confidence=%lf", &f, &cc) == 2, "the echo shows no truth value: %s", q + 1);
    bool hyp = strstr(s->term, "=/>") || strstr(s->term, "==>"); bool ev = s->tense == 1 && (!hyp || s->p == '!'); double ec = s->tense && !ev ? w2c(s->c) : s->c; /* hypotheses are general knowledge */
    VF_CHECK(f - s->f < 1e-6 && s->f - f < 1e-6 && cc - ec < 1e-6 && ec - cc < 1e-6, "the echo shows the truth %f %f", f, cc);
    VF_CHECK((strstr(q + 1, "occurrenceTime=") != NULL) == ev, "the echo %s an occurrence time", ev ? "lacks" : "shows");
    return true;
}
static bool isop(const char *t) { return t[0] == '^' || strstr(t, "--> ^") == t + strlen(t) - 8; }
static void run(const Sent *s, bool fresh)
{
    char tx[2100]; text(s, tx);
    char ref[400]; strcpy(ref, s->term); Term want; { N *n; want = Narsese_Term(ref); n = NULL; (void) n; }
    bool reject = (s->p == '!' && s->tense == 0) || (s->p == '.' && s->tense >= 2);
    long before = currentTime; vf_stats.transitions++;
    bool hadspike = false; Truth old = {0}; Concept *c = conc(want); if(c) { hadspike = c->belief_spike.type != EVENT_TYPE_DELETED; old = c->belief.truth; } (void) old; (void) hadspike;
    vf_cap_begin();
    if(!VF_GUARD_BEGIN()) { vf_quiet(); if(s->p == '!' && s->tense > 1) return; VF_CHECK(reject, "rejected: %.300s", vf_cap()); vf_stats.nontrivial++; return; }
    { char line[2200]; strcpy(line, tx); NAR_AddInputNarsese(line); }
    VF_GUARD_END();
    char out[20000]; snprintf(out, sizeof out, "%s", vf_cap()); vf_quiet();
    if(s->p == '!' && s->tense > 1) return;      /* goals for another time than the present are not specified */
    VF_CHECK(!reject, "accepted although the documentation excludes it");
    bool tempimp = strstr(s->term, "=/>") != NULL;
    c = conc(want);
    if(s->p == '?')
    {
        VF_CHECK(echo(out, s, want, false), "no echo: %s", out);
        VF_CHECK(currentTime == before, "a question made time pass");
        if(fresh) VF_CHECK(strstr(out, "Answer: None."), "answer in an empty memory: %s", out);
        if(fresh) VF_CHECK(!c, "a question was registered as knowledge");
        vf_stats.nontrivial++; return;
    }
    VF_CHECK(currentTime == before + 1, "the input took %ld steps", currentTime - before);
    VF_CHECK(echo(out, s, want, true) , "no echo of the input: %s", out);
    if(!fresh) return;
    if(s->p == '!')
    {
        if(tempimp) return;
        if(!strstr(s->term, "&/")) {
            VF_CHECK(c && c->goal_spike.type == EVENT_TYPE_GOAL, "no goal is registered for %s", s->term);
            VF_CHECK(near(c->goal_spike.truth.frequency, s->f) && near(c->goal_spike.truth.confidence, s->c), "the goal has the truth %f %f", c->goal_spike.truth.frequency, c->goal_spike.truth.confidence);
            VF_CHECK(c->goal_spike.occurrenceTime == before, "the goal has the time %ld", c->goal_spike.occurrenceTime);
            VF_CHECK(c->belief.type == EVENT_TYPE_DELETED && c->belief_spike.type == EVENT_TYPE_DELETED, "the goal was registered as a belief"); }
        vf_stats.nontrivial++; return;
    }
    double ec = s->tense ? w2c(s->c) : s->c;
    if(tempimp || strstr(s->term, "==>"))
    {
        Term post = Term_ExtractSubterm(&want, 2); Concept *pc = conc(post);
        VF_CHECK(pc, "the consequence of %s has no concept", s->term);
        Implication *f = NULL; int where = -1; for(int o=-1; o<=OPERATIONS_MAX; o++) { Table *t = o < 0 ? &pc->implication_links : &pc->precondition_beliefs[o]; for(int j=0; j<t->itemsAmount; j++) if(Term_Equal(&t->array[j].term, &want)) { f = &t->array[j]; where = o; } }
        VF_CHECK(f, "no hypothesis is registered for %s", s->term);
        VF_CHECK((where < 0) == !tempimp, "the hypothesis is registered as %s", where < 0 ? "declarative" : "temporal");
        VF_CHECK(near(f->truth.frequency, s->f) && near(f->truth.confidence, ec), "the hypothesis has the truth %f %f", f->truth.frequency, f->truth.confidence);
        if(tempimp) VF_CHECK(near(f->occurrenceTimeOffset, s->off), "the hypothesis has the time offset %f", f->occurrenceTimeOffset);
        if(tempimp) { vf_stats.nontrivial++; return; }
    }
    VF_CHECK(c, "the statement has no concept");
    VF_CHECK(c->belief.type == EVENT_TYPE_BELIEF && near(c->belief.truth.frequency, s->f) && near(c->belief.truth.confidence, ec), "the registered belief has the truth %f %f", c->belief.truth.frequency, c->belief.truth.confidence);
    VF_CHECK(c->belief.occurrenceTime == OCCURRENCE_ETERNAL, "the general belief has a time");
    if(s->tense) VF_CHECK(c->belief_spike.type == EVENT_TYPE_BELIEF && c->belief_spike.occurrenceTime == before && near(c->belief_spike.truth.frequency, s->f) && near(c->belief_spike.truth.confidence, s->c), "the registered observation has the time %ld and truth %f %f", c->belief_spike.occurrenceTime, c->belief_spike.truth.frequency, c->belief_spike.truth.confidence);
    else VF_CHECK(c->belief_spike.type == EVENT_TYPE_DELETED, "an eternal judgement was registered as an observation");
    VF_CHECK(c->predicted_belief.type == EVENT_TYPE_DELETED && c->goal_spike.type == EVENT_TYPE_DELETED, "the judgement was also registered as a prediction or goal");
    vf_stats.nontrivial++;
}
static Feedback nop(Term a) { (void) a; return (Feedback) {0}; }
int vf_main(void)
{
    vf_quiet(); NAR_INIT(); MOTOR_BABBLING_CHANCE = 0; NAR_AddOperation("^op", nop);
    /* atoms are indexed before the snapshot so that reference terms stay valid across restores */
    for(int t=0; t<NT; t++) { char c[300]; strcpy(c, TERMS[t]); Narsese_Term(c); }
    void *init = vf_snap_new();
    for(int t=0; t<NT; t++) for(int k=0; k<3; k++) for(int ts=0; ts<4; ts++)
    {
        if(!vf_case()) continue;
        for(int v=0; v<NTV; v++) for(int d=0; d<NDT; d++)
        {
            Sent s = { TERMS[t], ".!?"[k], ts, TV[v].s, TV[v].f, TV[v].c, DT[d].s, DT[d].v };
            char tx[2100]; text(&s, tx); vf_desc("%s", tx);
            vf_restore(init); run(&s, true);
            if(t == 11 && v == 1 && d == 2) vf_sample("%s", tx);
        }
        vf_stats.states++;
    }
    /* pairs without reset: the fields of the first must not influence the second */
    for(int a=0; a<NT*3; a++)
    {
        if(!vf_case()) continue;
        for(int va=0; va<NTV; va+=2) for(int b=0; b<6; b++) for(int vb=0; vb<3; vb++) for(int q=0; q<3; q++)
        {
            int k = a % 3;
            Sent x = { TERMS[a/3], ".!?"[k], k == 1 ? 1 : va & 1, TV[va].s, TV[va].f, TV[va].c, DT[va % NDT].s, DT[va % NDT].v };
            static const char *fresh[] = { "zeta", "<zeta --> eta>", "<{zeta} --> [eta]>", "(zeta * eta)", "<zeta =/> eta>", "<zeta ==> eta>" };
            Sent y = { fresh[b], ".!?"[q], q == 1 ? 1 : vb & 1, TV[vb].s, TV[vb].f, TV[vb].c, "", 0 };
            char t1[2100], t2[2100]; text(&x, t1); text(&y, t2); vf_desc("%s  then  %s", t1, t2);
            vf_restore(init);
            vf_cap_begin(); bool ok = false; if(VF_GUARD_BEGIN()) { NAR_AddInputNarsese(t1); VF_GUARD_END(); ok = true; } vf_quiet();
            if(!ok) continue;
            if(k == 1 || q == 1) run(&y, false); else run(&y, true);
        }
        vf_stats.states++;
    }
    vf_stats.validated = vf_stats.transitions;
    return 0;
}
