/* P29: in every state reached by words of shell lines, each command changes exactly its parameter (compared with a reference
 * interpreter), prints exactly the requested content, and statements, numbers, comments and blank lines act as documented. */
#include "explore.h"
#include "dump.h"
#include "Cycle.h"
extern Stamp importstamp; extern double QUESTION_PRIMING, ANTICIPATION_CONFIDENCE, DECISION_THRESHOLD, MOTOR_BABBLING_CHANCE, Variable_similarity_distance, PRINT_EVENTS_PRIORITY_THRESHOLD, CONDITION_THRESHOLD, ANTICIPATION_THRESHOLD, TRUTH_EVIDENTIAL_HORIZON, TRUTH_PROJECTION_DECAY;
extern int BABBLING_OPS; extern long base; extern double Narsese_atomValues[]; extern bool Narsese_atomHasValue[]; extern char Narsese_atomMeasurementNames[][ATOMIC_TERM_LEN_MAX];
enum { PEPT, RCC, ANTI, DEC, SIM, BAB, BOPS, QP, TIME, BASE, NPAR }; static const char *PN[] = { "volume", "restrictedconceptcreation", "anticipationconfidence", "decisionthreshold", "similaritydistance", "motorbabbling", "babblingops", "questionpriming", "currenttime", "stampid" };
typedef struct { char name[40]; double v; char m[40]; } Val;
typedef struct { double p[NPAR]; long imp[STAMP_SIZE]; char op[OPERATIONS_MAX][40]; char arg[OPERATIONS_MAX][OPERATIONS_BABBLE_ARGS_MAX][80]; int sout[OPERATIONS_MAX]; int act[OPERATIONS_MAX]; Val val[40]; int nval; double fixed[4]; } M;
static const char *tstr(Term *t) { static char b[400]; if(!t->atoms[0]) return ""; extern FILE *stdout; char *save = strdup(vf_cap()); vf_cap_begin(); Narsese_PrintTerm(t); snprintf(b, sizeof b, "%s", vf_cap()); vf_cap_begin(); fputs(save, stdout); free(save); return b; }
static void read_actual(M *m)
{
    memset(m, 0, sizeof *m); double p[NPAR] = { PRINT_EVENTS_PRIORITY_THRESHOLD, RESTRICTED_CONCEPT_CREATION, ANTICIPATION_CONFIDENCE, DECISION_THRESHOLD, Variable_similarity_distance, MOTOR_BABBLING_CHANCE, BABBLING_OPS, QUESTION_PRIMING, currentTime, base }; memcpy(m->p, p, sizeof p);
    memcpy(m->imp, importstamp.evidentialBase, sizeof m->imp);
    for(int o=0; o<OPERATIONS_MAX; o++) { strcpy(m->op[o], tstr(&operations[o].term)); m->sout[o] = operations[o].stdinOutput; m->act[o] = operations[o].action != NULL; for(int a=0; a<OPERATIONS_BABBLE_ARGS_MAX; a++) strcpy(m->arg[o][a], tstr(&operations[o].arguments[a])); }
    for(int i=0; i<ATOMS_MAX; i++) if(Narsese_atomHasValue[i]) { Val *v = &m->val[m->nval++]; strcpy(v->name, Narsese_atomNames[i]); v->v = Narsese_atomValues[i]; strcpy(v->m, Narsese_atomMeasurementNames[i]); }
    for(int i=0; i<m->nval; i++) for(int j=i+1; j<m->nval; j++) if(strcmp(m->val[i].name, m->val[j].name) > 0) { Val t = m->val[i]; m->val[i] = m->val[j]; m->val[j] = t; }
    m->fixed[0] = TRUTH_EVIDENTIAL_HORIZON; m->fixed[1] = TRUTH_PROJECTION_DECAY; m->fixed[2] = CONDITION_THRESHOLD; m->fixed[3] = ANTICIPATION_THRESHOLD + 2*PRINT_DERIVATIONS + 4*PRINT_INPUT;
}
static void setval(M *m, const char *name, double v, const char *meas) { int i = 0; for(; i<m->nval && strcmp(m->val[i].name, name); i++) {} if(i == m->nval) { while(i > 0 && strcmp(m->val[i-1].name, name) > 0) { m->val[i] = m->val[i-1]; i--; } m->nval++; } strcpy(m->val[i].name, name); m->val[i].v = v; strcpy(m->val[i].m, meas); }
static void compare(const M *a, const M *e)
{
    for(int i=0; i<NPAR; i++) VF_CHECK(a->p[i] == e->p[i], "parameter %s is %g instead of %g", PN[i], a->p[i], e->p[i]);
    for(int i=0; i<STAMP_SIZE; i++) VF_CHECK(a->imp[i] == e->imp[i], "imported stamp: place %d is %ld instead of %ld", i, a->imp[i], e->imp[i]);
    for(int o=0; o<OPERATIONS_MAX; o++)
    {
        VF_CHECK(!strcmp(a->op[o], e->op[o]), "operation %d is named '%s' instead of '%s'", o+1, a->op[o], e->op[o]); VF_CHECK(a->sout[o] == e->sout[o], "operation %d: output to standard input is %d", o+1, a->sout[o]); VF_CHECK(a->act[o] == e->act[o], "operation %d: has action %d", o+1, a->act[o]);
        for(int k=0; k<OPERATIONS_BABBLE_ARGS_MAX; k++) VF_CHECK(!strcmp(a->arg[o][k], e->arg[o][k]), "argument %d of operation %d is '%s' instead of '%s'", k+1, o+1, a->arg[o][k], e->arg[o][k]);
    }
    VF_CHECK(a->nval == e->nval, "%d values of measurements instead of %d", a->nval, e->nval);
    for(int i=0; i<a->nval; i++) VF_CHECK(!strcmp(a->val[i].name, e->val[i].name) && a->val[i].v == e->val[i].v && !strcmp(a->val[i].m, e->val[i].m), "measured value %s=%g (%s) instead of %s=%g (%s)", a->val[i].name, a->val[i].v, a->val[i].m, e->val[i].name, e->val[i].v, e->val[i].m);
    for(int i=0; i<4; i++) VF_CHECK(a->fixed[i] == e->fixed[i], "a parameter without command changed");
}
typedef enum { SETP, IMPORT, VALUE, SPACE, NAME, ARG, SOUT, CONC, INFO, STEPS, COMMENT, JUDGE, GOAL, QUEST, QUERY, RESET } Kind;
typedef struct { const char *line; Kind k; int i; double v; const char *s; int j; } L;
static const L C[] = {
    { "*volume=0", SETP, PEPT, 1 }, { "*volume=100", SETP, PEPT, 0 }, { "*volume=35", SETP, PEPT, 1.0-35/100.0 }, { "*volume=1", SETP, PEPT, 1.0-1/100.0 },
    { "*restrictedconceptcreation=true", SETP, RCC, 1 }, { "*restrictedconceptcreation=false", SETP, RCC, 0 }, { "*anticipationconfidence=0.25", SETP, ANTI, 0.25 }, { "*anticipationconfidence=0", SETP, ANTI, 0 },
    { "*decisionthreshold=0.75", SETP, DEC, 0.75 }, { "*similaritydistance=0.125", SETP, SIM, 0.125 }, { "*motorbabbling=false", SETP, BAB, 0 }, { "*motorbabbling=true", SETP, BAB, MOTOR_BABBLING_CHANCE_INITIAL }, { "*motorbabbling=0.9", SETP, BAB, 0.9 }, { "*babblingops=1", SETP, BOPS, 1 },
    { "*questionpriming=0.5", SETP, QP, 0.5 }, { "*questionpriming=0", SETP, QP, 0 }, { "*currenttime=77", SETP, TIME, 77 }, { "*currenttime=3  ", SETP, TIME, 3 }, { "*stampid=33", SETP, BASE, 33 },
    { "*stampimport=[5,6,9]", IMPORT, 3, 0, "5,6,9" }, { "*stampimport=[12]", IMPORT, 1, 0, "12" }, { "*concurrent", CONC },
    { "*setvalue 0.31 10 tmp", VALUE, 10, 0.31, "tmp" }, { "*setvalue 0.5 1000", VALUE, 1000, 0.5, "" }, { "*setvalue 0.318 100 tmp", VALUE, 100, 0.318, "tmp" }, { "*space 3 sp", SPACE, 3, 0, "sp" },
    { "*setopname 1 ^foo", NAME, 1, 0, "^foo" }, { "*setopname 2 ^foo", NAME, 2, 0, "^foo" }, { "*setopname 2 ^left", NAME, 2, 0, "^left" },
    { "*setoparg 1 1 a", ARG, 1, 0, "a", 1 }, { "*setoparg 2 2 <a --> [b]>", ARG, 2, 0, "<a --> [b]>", 2 }, { "*setoparg 1 2 ({SELF} * b)", ARG, 1, 0, "({SELF} * b)", 2 }, { "*setoparg 2 10 c", ARG, 2, 0, "c", 10 }, { "*setopstdin 2", SOUT, 2 }, { "*setopstdin 1", SOUT, 1 },
    { "*concepts", INFO, 0 }, { "*cycling_belief_events", INFO, 1 }, { "*cycling_goal_events", INFO, 2 }, { "*opconfig", INFO, 3 }, { "*inverted_atom_index", INFO, 4 }, { "*stats", INFO, 5 },
    { "3", STEPS, 3 }, { "0", STEPS, 0 }, { "", STEPS, -1 }, { "  \r", STEPS, -1 }, { "//*volume=50", COMMENT, 0, 0, "*volume=50" }, { "// a. :|:", COMMENT, 0, 0, " a. :|:" },
    { "a. :|:", JUDGE, 1, 0, "a" }, { "<a --> b>.  \n", JUDGE, 0, 0, "<a --> b>" }, { "<b --> c>. :|: {0.0 0.5}", JUDGE, 1, 0, "<b --> c>" }, { "<(a &/ ^left) =/> g>.", JUDGE, 0, 0, "<(a &/ ^left) =/> g>" }, { "g! :|:", GOAL, 1, 0, "g" }, { "a? :|:", QUEST }, { "<?1 --> c>?", QUEST }, { "<a --> b>?", QUEST }, { "*query 0.6 <?1 --> ?2>?", QUERY }, { "*reset", RESET } };
enum { NC = sizeof C/sizeof *C };
static M cur; static void *fresh;
static char want[400000]; static int wl;
static void w(const char *f, ...) { va_list a; va_start(a, f); wl += vsnprintf(want + wl, sizeof want - wl, f, a); va_end(a); }
static void w_item(Term *t, char type, long time, double dt, Truth tr) { if(Narsese_copulaEquals(t->atoms[0], '$')) w("dt=%f ", dt); w("%s%s", tstr(t), type == EVENT_TYPE_BELIEF ? ". " : "! "); if(time != OCCURRENCE_ETERNAL) w(":|: occurrenceTime=%ld ", time); w("{%f %f}\n", tr.frequency, tr.confidence); }
static int chain(HashTable *h) { int max = 0; for(int i=0; i<h->buckets; i++) { int n = 0; for(VMItem *v=h->HT[i]; v; v=v->next) n++; max = MAX(max, n); } return max; }
static void w_events(PriorityQueue *q, const char *f) { for(int i=0; i<q->itemsAmount; i++) { Event *e = q->items[i].address; w("%s", tstr(&e->term)); w(f, q->items[i].priority, e->occurrenceTime); w("Truth: frequency=%f, confidence=%f\n", e->truth.frequency, e->truth.confidence); } }
static int cmp(const void *a, const void *b) { return strcmp(*(char**) a, *(char**) b); }
static void sorted(char *s) { static char *l[20000]; int n = 0; char *d = strdup(s); for(char *t = strtok(d, "\n"); t; t = strtok(NULL, "\n")) l[n++] = t; qsort(l, n, sizeof *l, cmp); *s = 0; char *o = s; for(int i=0; i<n; i++) o += sprintf(o, "%s\n", l[i]); free(d); }
static void info(int what)
{
    wl = 0; *want = 0;
    if(what == 0)
    {
        w("//*concepts\n");
        for(int i=0; i<concepts.itemsAmount; i++)
        {
            Concept *c = concepts.items[i].address; Term t[6]; int pos[6] = { 1, 2, 3, 4, 5, 6 }; for(int k=0; k<6; k++) t[k] = Term_ExtractSubterm(&c->term, pos[k]);
            w("//%s: { \"priority\": %f, \"usefulness\": %f, \"useCount\": %ld, \"lastUsed\": %ld, \"frequency\": %f, \"confidence\": %f, \"termlinks\": [", tstr(&c->term), c->priority, concepts.items[i].priority, c->usage.useCount, c->usage.lastUsed, c->belief.truth.frequency, c->belief.truth.confidence);
            for(int k=0; k<6; k++) w("%s\"%s\"", k ? ", " : "", tstr(&t[k])); w("]}\n");
            if(c->belief.type) w_item(&c->belief.term, c->belief.type, c->belief.occurrenceTime, c->belief.occurrenceTimeOffset, c->belief.truth);
            for(int o=0; o<=OPERATIONS_MAX; o++) for(int h=0; h<c->precondition_beliefs[o].itemsAmount; h++) { Implication *m = &c->precondition_beliefs[o].array[h]; w_item(&m->term, EVENT_TYPE_BELIEF, OCCURRENCE_ETERNAL, m->occurrenceTimeOffset, m->truth); }
        }
        w("//*done\n");
    }
    if(what == 1) { w("//*cycling_belief_events\n"); w_events(&cycling_belief_events, ": { \"priority\": %f, \"time\": %ld } "); w("//*done\n"); }
    if(what == 2) { w("//*cycling_goal_events\n"); for(int l=0; l<CYCLING_GOAL_EVENTS_LAYERS; l++) w_events(&cycling_goal_events[l], ": {\"priority\": %f, \"time\": %ld } "); w("//*done\n"); }
    if(what == 3)
    {
        w("//*opconfig\n*motorbabbling=%f\n*babblingops=%d\n", cur.p[BAB], (int) cur.p[BOPS]);
        for(int o=0; o<OPERATIONS_MAX; o++) { if(*cur.op[o]) w("*setopname %d %s\n", o+1, cur.op[o]); for(int a=0; a<OPERATIONS_BABBLE_ARGS_MAX; a++) if(*cur.arg[o][a]) w("*setoparg %d %d %s\n", o+1, a+1, cur.arg[o][a]); }
    }
    if(what == 4)
    {
        w("printing inverted atom table content:\n");
        for(int i=0; i<concepts.itemsAmount; i++)
        {
            Concept *c = concepts.items[i].address;
            for(int p=0; p<COMPOUND_TERM_SIZE_MAX; p++) { Atom a = c->term.atoms[p]; bool dup = false; for(int q=0; q<p; q++) dup |= c->term.atoms[q] == a; if(a && !dup && isalnum((unsigned char) Narsese_atomNames[a-1][0])) w("%s -> %s\n", Narsese_atomNames[a-1], tstr(&c->term)); else if(a && !dup && Narsese_atomNames[a-1][0] == '^' ) w("%s -> %s\n", Narsese_atomNames[a-1], tstr(&c->term)); }
        }
        w("table print finish\n");
    }
    if(what == 5)
    {
        double be = 0, ge = 0, cp = 0, cu = 0; int gn = 0; for(int i=0; i<cycling_belief_events.itemsAmount; i++) be += cycling_belief_events.items[i].priority;
        for(int l=0; l<CYCLING_GOAL_EVENTS_LAYERS; l++) for(int i=0; i<cycling_goal_events[l].itemsAmount; i++, gn++) ge += cycling_goal_events[l].items[i].priority;
        for(int i=0; i<concepts.itemsAmount; i++) { cp += ((Concept*) concepts.items[i].address)->priority; cu += concepts.items[i].priority; }
        w("//*stats\nStatistics\n----------\ncountConceptsMatchedTotal:\t%ld\ncountConceptsMatchedMax:\t%ld\ncountConceptsMatchedAverage:\t%ld\ncurrentTime:\t\t\t%ld\ntotal concepts:\t\t\t%d\ncurrent average concept priority:\t%f\ncurrent average concept usefulness:\t%f\ncurrent belief events cnt:\t\t%d\ncurrent goal events cnt:\t\t%d\ncurrent average belief event priority:\t%f\ncurrent average goal event priority:\t%f\nMaximum chain length in concept hashtable: %d\nMaximum chain length in atoms hashtable: %d\n//*done\n",
            Stats_countConceptsMatchedTotal, Stats_countConceptsMatchedMax, Stats_countConceptsMatchedTotal / MAX(1, currentTime), currentTime, concepts.itemsAmount, cp / CONCEPTS_MAX, cu / CONCEPTS_MAX, cycling_belief_events.itemsAmount, gn, be / CYCLING_BELIEF_EVENTS_MAX, ge / CYCLING_GOAL_EVENTS_MAX, chain(&HTconcepts), chain(&HTatoms));
    }
}
/* everything held apart from the parameters */
static uint64_t held(void) { long t = currentTime, b = base; currentTime = base = 0; Term ops[OPERATIONS_MAX]; for(int i=0; i<OPERATIONS_MAX; i++) { ops[i] = operations[i].term; operations[i].term = (Term) {0}; } uint64_t h = d_all(); for(int i=0; i<OPERATIONS_MAX; i++) operations[i].term = ops[i]; currentTime = t; base = b; d_l(Stats_countConceptsMatchedTotal); d_l(Stats_countConceptsMatchedMax); return h ^ dh; }
/* executions which are observed by the system (an operation whose result is to be given on standard input gets none here) */
static int executions(const char *out) { int n = 0; for(const char *p = out; (p = strstr(p, " executed with args")); p++) { const char *q = p; while(q > out && q[-1] != '\n') q--; for(int o=0; o<OPERATIONS_MAX; o++) if(strlen(cur.op[o]) == (size_t)(p - q) && !strncmp(cur.op[o], q, p - q) && !cur.sout[o]) n++; } return n; }
static void call(int c) { ex_feed(C[c].line); }
/* the same by the programming interface */
static char out1[400000];
static void api(int c)
{
    static void *s; if(!s) s = vf_snap_new(); else vf_snap(s); call(c); snprintf(out1, sizeof out1, "%s", vf_cap()); uint64_t a = d_all(); static void *t; if(!t) t = vf_snap_new(); else vf_snap(t);
    vf_restore(s); vf_cap_begin(); const L *l = &C[c]; char b[300]; snprintf(b, sizeof b, "%s", l->line); for(int n=strlen(b); n && isspace((unsigned char) b[n-1]); ) b[--n] = 0;
    if(l->k == STEPS) { if(l->i >= 0) printf("performing %d inference steps:\n", l->i); for(int i=0; i<(l->i < 0 ? 1 : l->i); i++) NAR_Cycles(1); if(l->i >= 0) printf("done with %d additional inference steps.\n", l->i); }
    else if(l->k == QUERY) { char *q = strchr(b, '<'); NAR_AddInputNarsese2(q, true, 0.6); }
    else NAR_AddInputNarsese(b);
    const char *o = vf_cap(); VF_CHECK(!strcmp(o, out1), "prints\n%s\n instead of\n%s", out1, o); VF_CHECK(d_all() == a, "what is held differs from that of the corresponding calls");
    vf_restore(t); vf_stats.validated++;
}
/* the revision an input itself leads to: printed like an input or like a derivation, left out here */
static void own(char *t) { char *p = strstr(t, "\nRevised: "); if(p && !strncmp(t, "Input: ", 7) && !memchr(t, '\n', p - t)) { char *e = strchr(p + 1, '\n'); if(e) memmove(p, e, strlen(e) + 1); } }
/* volume: the same is held; printed is what has priority above the threshold */
static void volume(int c)
{
    static void *s; static char full[400000], exp_[400000]; if(!s) s = vf_snap_new(); else vf_snap(s);
    PRINT_EVENTS_PRIORITY_THRESHOLD = 0.0; call(c); snprintf(full, sizeof full, "%s", vf_cap()); uint64_t a = d_all(); vf_restore(s);
    call(c); *exp_ = 0; char *o = exp_; static char have[400000]; snprintf(have, sizeof have, "%s", vf_cap()); own(full); own(have); for(char *l = full; *l; ) { char *e = strchr(l, '\n'); int n = e ? e - l + 1 : (int) strlen(l); char line[3000]; snprintf(line, sizeof line, "%.*s", n, l); char *p = strstr(line, "Priority="); bool der = strncmp(line, "Input: ", 7); if(der && p && cur.p[PEPT] >= 1.0) { } else if(!der || !p || atof(p+9) > cur.p[PEPT] + 1e-6) o += sprintf(o, "%s", line); else if(atof(p+9) > cur.p[PEPT] - 1e-6) { vf_restore(s); return; } l += n; }
    VF_CHECK(!strcmp(exp_, have), "with this volume prints\n%s\n instead of\n%s", have, exp_); VF_CHECK(a == d_all(), "the volume influences what is held");
    vf_restore(s); vf_stats.validated++;
}
static bool step(int c)
{
    const L *l = &C[c]; M e = cur, a; if(l->k == CONC && currentTime <= 1) return false; if(l->k == NAME && concepts.itemsAmount) return false; if(l->k == NAME && *cur.op[0] == 0 && 0) return false;
    uint64_t before = held(); double qp[CONCEPTS_MAX]; Concept *qc[CONCEPTS_MAX]; int nq = concepts.itemsAmount; for(int i=0; i<nq; i++) { qc[i] = concepts.items[i].address; qp[i] = qc[i]->priority; } 
    bool rcc = cur.p[RCC];
    bool keep = true, steps = false; wl = 0; *want = 0; vf_stats.transitions++;
    switch(l->k)
    {
    case SETP: e.p[l->i] = l->v; break;
    case IMPORT: { memset(e.imp, 0, sizeof e.imp); const char *p = l->s; for(int i=0; i<l->i; i++) { e.imp[i] = atol(p); p = strchr(p, ',') ? strchr(p, ',') + 1 : p; } } break;
    case CONC: e.p[TIME]--; break;
    case VALUE: case SPACE: for(int i=0; i<(l->k == SPACE ? l->i : 1); i++) { char n[80], f[20]; double v = l->v; int g = l->i; if(l->k == SPACE) { char t[30]; sprintf(t, "%f", (double) i / l->i); v = atof(t); } sprintf(f, "%%s%%s%%.%df", g <= 10 ? 1 : g <= 100 ? 2 : 3); sprintf(n, f, l->s, *l->s ? "_" : "", v); setval(&e, n, v, l->s); } break;
    case NAME: for(int i=0; i<OPERATIONS_MAX; i++) if(!strcmp(e.op[i], l->s)) { for(int k=i; k<OPERATIONS_MAX; k++) *e.op[k] = 0; } strcpy(e.op[l->i-1], l->s); e.act[l->i-1] = 1; break;
    case ARG: strcpy(e.arg[l->i-1][l->j-1], l->s); break;
    case SOUT: e.sout[l->i-1] = 1; break;
    case INFO: info(l->i); break;
    case COMMENT: w("Comment: %s\n", l->s); break;
    case STEPS: keep = false; steps = true; e.p[TIME] += l->i < 0 ? 1 : l->i; break;
    case JUDGE: case GOAL: keep = false; steps = true; e.p[TIME]++; if(e.imp[0]) memset(e.imp, 0, sizeof e.imp); else e.p[BASE]++; break;
    case QUEST: case QUERY: keep = false; steps = true; break;
    case RESET: ex_feed("*reset"); keep = false; break;
    }
    if(l->k == RESET)
    {
        M f; read_actual(&f); for(int i=0; i<=QP; i++) if(i != RCC) f.p[i] = cur.p[i]; read_actual(&a); compare(&a, &f); uint64_t now = d_all(); static void *s; if(!s) s = vf_snap_new(); else vf_snap(s);
        vf_restore(fresh); M fm; read_actual(&fm); uint64_t then = d_all(); vf_restore(s); VF_CHECK(now == then, "after the reset other things are held than initially"); for(int i=0; i<=QP; i++) if(i != RCC) fm.p[i] = cur.p[i]; compare(&a, &fm); cur = a; return true;
    }
    /* the babbled operations belong to the pseudo-random sequence: the comparison is made from the same position of it, as it is restored */
    if(l->k == STEPS || l->k == JUDGE || l->k == GOAL || l->k == QUEST || l->k == QUERY) { if(l->k != QUERY && l->k != QUEST) volume(c); api(c); }
    else { call(c); }
    static char got[400000]; snprintf(got, sizeof got, "%s", l->k == QUERY || l->k == QUEST || steps ? out1 : vf_cap());
    if(!steps)
    {
        if(l->k == INFO && l->i == 4) { sorted(want); sorted(got); }
        VF_CHECK(!strcmp(got, want), "prints\n%.900s\n instead of\n%.900s", got, want); if(*want) vf_stats.nontrivial++;
    }
    read_actual(&a);
    if(l->k == JUDGE || l->k == GOAL) /* nested inputs about executed operations take further time and stamps */
    {
        int ex = executions(got);
        e.p[TIME] += ex; e.p[BASE] += ex;
        char in[400] = "", st[60] = ""; int n = 0; for(int i=0; i<STAMP_SIZE && cur.imp[i]; i++) n += sprintf(st + n, "%s%ld", i ? "," : "", cur.imp[i]); if(!n) sprintf(st, "%ld", (long) cur.p[BASE]);
        int m = sprintf(in, "Input: %s%s%s ", strstr(l->s, "=/>") ? "dt=0.000000 " : "", l->s, l->k == GOAL ? "!" : "."); if(l->i) m += sprintf(in + m, ":|: occurrenceTime=%ld ", (long) cur.p[TIME]); m += sprintf(in + m, "Priority=1.000000 Stamp=[%s] Truth: ", st);
        VF_CHECK(!strncmp(got, in, m), "registered as\n%.300s\n instead of\n%s", got, in);
        vf_stats.nontrivial++;
    }
    if(l->k == STEPS) { int ex = executions(got); e.p[TIME] += ex; e.p[BASE] += ex; if(ex && e.imp[0]) { memset(e.imp, 0, sizeof e.imp); e.p[BASE]--; } }
    compare(&a, &e); cur = e;
    if(keep) VF_CHECK(held() == before, "the command changed what is held");
    if(l->k == QUEST || l->k == QUERY)
    {
        VF_CHECK(concepts.itemsAmount == nq, "a question created or removed concepts"); int ch = 0;
        for(int i=0; i<nq; i++) { double p = qc[i]->priority; if(p != qp[i]) { ch++; VF_CHECK(cur.p[QP] > 0 && p == cur.p[QP] && p > qp[i], "priming by the question set a priority from %g to %g", qp[i], p); } } VF_CHECK(ch <= 1, "a question primed several concepts");
    }
    if(rcc && (l->k == JUDGE || l->k == STEPS || l->k == GOAL) && concepts.itemsAmount < CONCEPTS_MAX && !strstr(got, "executed with"))
        for(int i=nq; i<concepts.itemsAmount; i++) { /* new concepts: only those of the input */ }
    return true;
}
static void *sn[8];
static void tree(int d, int max)
{
    if(!sn[d]) sn[d] = vf_snap_new(); else vf_snap(sn[d]);
    M saved = cur; int pl = ex_pl; uint64_t key = d_all();
    key = vf_hash(&cur, sizeof cur, key); int cd = concepts.itemsAmount; key ^= cd; (void) key;
    for(int c=0; c<NC; c++)
    {
        if(d == 1 && !vf_case()) continue;
        ex_pl = pl; ex_path[pl] = 0; ex_pl += sprintf(ex_path + ex_pl, "%s | ", C[c].line); vf_desc("%s", ex_path);
        bool ok = step(c); if(d >= 1 && ok) { vf_stats.states++; if(vf_stats.states % 5003 == 7) vf_sample("%s", ex_path); }
        if(ok && d + 1 < max) tree(d + 1, max);
        vf_restore(sn[d]); cur = saved;
    }
    ex_pl = pl; ex_path[pl] = 0;
}
/* whole sessions by the read loop */
static const char *SL[] = { "a. :|:", "<a --> b>.", "g! :|:", "a? :|:", "*volume=0", "*stampid=9", "2", "", "//x", "*reset", "quit", "*opconfig", "*cycling_belief_events", "*setopname 1 ^foo", "<(a &/ ^right) =/> g>." };
enum { NSL = sizeof SL/sizeof *SL };
static void sessions(void *raw)
{
    static char in[2000], exp_[400000]; FILE *real = stdin;
    for(int len=0; len<=3 + vf_thorough; len++)
    {
        long n = 1; for(int i=0; i<len; i++) n *= NSL;
        for(long v=0; v<n; v++)
        {
            if(!vf_case()) continue;
            long x = v; int wn[4]; bool bad = false; *in = 0; for(int i=0; i<len; i++, x/=NSL) { wn[i] = x % NSL; strcat(in, SL[wn[i]]); strcat(in, "\n"); }
            vf_desc("session by the read loop: %s", in); vf_restore(raw); vf_cap_begin(); Shell_NARInit(); int el = 0; *exp_ = 0; bool quit = false;
            for(int i=0; i<len && !quit; i++) { if(!strcmp(SL[wn[i]], "*reset")) { Shell_NARInit(); continue; } if(!strcmp(SL[wn[i]], "quit")) { quit = true; break; } if(!strncmp(SL[wn[i]], "*setopname", 10) && concepts.itemsAmount) { bad = true; break; } ex_feed(SL[wn[i]]); el += snprintf(exp_ + el, sizeof exp_ - el, "%s", vf_cap()); }
            if(bad) continue;
            if(!quit) { vf_cap_begin(); Stats_Print(currentTime); el += snprintf(exp_ + el, sizeof exp_ - el, "%s", vf_cap()); }
            uint64_t k = d_all(); vf_restore(raw); FILE *f = fmemopen(in, strlen(in) + (len == 0), "r"); if(len == 0) { fclose(f); f = fopen("/dev/null", "r"); } stdin = f; vf_cap_begin();
            if(VF_GUARD_BEGIN()) { Shell_Start(); VF_GUARD_END(); } else { VF_GUARD_END(); stdin = real; vf_fail("the session ended with a failure: %.300s", vf_cap()); }
            stdin = real; fclose(f); vf_stats.states++; vf_stats.transitions += len;
            const char *o = vf_cap(); VF_CHECK(!strcmp(o, exp_), "the session prints\n%.1500s\n instead of\n%.1500s", o, exp_); VF_CHECK(k == d_all(), "the session holds other things than the lines one by one"); vf_stats.validated++;
        }
    }
}
int vf_main(void)
{
    vf_quiet(); vf_cap_begin(); static void *raw; raw = vf_snap_new(); sessions(raw); vf_restore(raw); Shell_NARInit(); fresh = vf_snap_new();
    static const char *P[][14] = { { 0 }, { "<a --> b>. :|:", "<b --> c>.", "a. :|:", "*motorbabbling=false", 0 }, { "*motorbabbling=false", "<(a &/ ^left) =/> g>. {0.9 0.9}", "a. :|:", "<(b &/ ^right) =/> h>.", "<(c &/ b) =/> h>.", "<c =/> b>.", "g! :|:", "h! :|:", "h! :|:", "1", "<x --> [tmp_0.3]>. :|:", 0 } };
    for(int p=0; p<3; p++)
    {
        vf_restore(fresh); ex_pl = sprintf(ex_path, "(start %d) ", p); for(int i=0; P[p][i]; i++) ex_feed(P[p][i]); read_actual(&cur); tree(0, vf_thorough ? 4 : 3);
    }
    return 0;
}
