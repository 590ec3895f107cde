/* P22: what anticipation does to the hypotheses held. Every history of conditions, operations (with arguments) and outcomes over
 * told and learned hypotheses, compared with a reference learner which counts the anticipated outcome once as weak negative
 * evidence whenever the condition (and operation) occurs; fulfilment strengthens, failure weakens. */
#include "learner.h"
/* generalised hypotheses are told, not introduced (P16) */
Term Variable_IntroduceImplicationVariables(Term t, bool *success, bool ext) { *success = false; return t; }
static Implication *find(const char *name)
{
    Term t = Narsese_Term((char*) name), p = Term_ExtractSubterm(&t, 2); Concept *c = Memory_FindConceptByTerm(&p); if(!c) return NULL;
    for(int o=0; o<=OPERATIONS_MAX; o++) for(int j=0; j<c->precondition_beliefs[o].itemsAmount; j++) if(Term_Equal(&c->precondition_beliefs[o].array[j].term, &t)) return &c->precondition_beliefs[o].array[j];
    return NULL;
}
static double ex(Implication *i) { return r_exp((RT) { i->truth.frequency, i->truth.confidence }); }
/* fulfilled or failed once, at every interval and strength: stronger or weaker than before */
static void fulfilment(void *init)
{
    static const double F[] = { 1, 0.9, 0.6 }, C[] = { 0.1, 0.28, 0.5, 0.8 }, E[] = { 0.9, 0.6 }, AC[] = { 0.01, 0.05 };
    for(int a=0; a<2; a++) for(int f=0; f<3; f++) for(int c=0; c<4; c++) for(int e=0; e<2; e++) for(int op=0; op<2; op++)
    {
        if(!vf_case()) continue;
        for(int dt=1; dt<=10; dt++) for(int gap=1; gap<=(op ? 3 : 1); gap++) for(int ful=0; ful<2; ful++)
        {
            vf_restore(init); w = (W) {0}; ex_pl = 0; ANTICIPATION_CONFIDENCE = AC[a]; char l[200]; const char *h = op ? "<(a &/ ^left) =/> b>" : "<a =/> b>";
            sprintf(l, "dt=%d %s. {%g %g}", dt, h, F[f], C[c]); input(l); double e0 = ex(find(h));
            sprintf(l, "a. :|: {1 %g}", E[e]); input(l); if(op) { if(gap > 1) { sprintf(l, "%d", gap - 1); input(l); } input("^left. :|:"); }
            double e1 = ex(find(h)); long an = anticipated;
            if(dt > 1) { sprintf(l, "%d", dt - 1); input(l); }
            if(!ful) { input("c. :|:"); input("2"); Implication *i = find(h); VF_CHECK(ex(i) <= e0 + 1e-12 && (an == 0 || ex(i) < e0 || F[f] == 0), "%s is not weakened by the failed anticipation: expectation %.9g, before %.9g", h, ex(i), e0); vf_stats.nontrivial += ex(i) < e0; }
            else
            {
                input("b. :|:"); Implication *i = find(h); RT g = { F[f], C[c] }; (void) g;
                /* evidence for it: anticipation and observation, in the proportion of their weights */
                VF_CHECK(ex(i) > e1, "%s is not strengthened by the outcome: expectation %.9g, before %.9g", h, ex(i), e1);
                if(dt <= 4 && gap == 1 && a == 0) VF_CHECK(ex(i) > e0, "%s is not stronger after the anticipation was fulfilled: expectation %.9g, before %.9g", h, ex(i), e0);
                vf_stats.nontrivial++;
            }
            vf_stats.states++;
        }
    }
}
int vf_main(void)
{
    vf_quiet(); vf_cap_begin(); Shell_NARInit(); MOTOR_BABBLING_CHANCE = 0; all = true; late = true;
    ex_feed("*setopname 1 ^left"); ex_feed("*setopname 2 ^right"); for(const char *p="a b c d ^left ^right x y r o g h"; *p; p++) if(*p != ' ') { char s[20]; int n; sscanf(p, "%s%n", s, &n); Narsese_AtomicTermIndex(s); p += n - 1; }
    Narsese_Term("<(<$1 --> o> &/ <({SELF} * $1) --> ^left>) =/> <$1 --> g>>"); Narsese_Term("(a &/ <a =/> b>)");
    void *init = vf_snap_new(); int t = vf_thorough;
    fulfilment(init);
    struct { const char *l[10]; int n, max; double ac, th; } SETS[] = {
        { { "a. :|:", "b. :|:", "^left. :|:", "1", "<(a &/ ^left) =/> b>." }, 5, t ? 8 : 6, 0.01 },
        { { "a. :|:", "b. :|:", "c. :|:", "dt=2 <a =/> b>. {0.9 0.8}", "dt=1 <c =/> b>. {0 0.04}", "1" }, 6, t ? 7 : 6, 0.2 },
        { { "a. :|: {0.9 0.7}", "^left. :|:", "^right. :|:", "dt=2 <(a &/ ^left) =/> b>. {0.9 0.8}", "dt=1 <(a &/ ^right) =/> b>. {1 0.5}", "dt=3 <(c &/ ^left) =/> b>. {1 0.6}", "c. :|: {0 0.9}" }, 7, t ? 7 : 6, 0.1 },
        { { "a. :|:", "b. :|:", "dt=2 <(a &/ <({SELF} * x) --> ^left>) =/> b>. {0.9 0.8}", "dt=2 <(a &/ <({SELF} * $1) --> ^left>) =/> <$1 --> g>>. {0.9 0.8}", "<({SELF} * x) --> ^left>. :|:", "<({SELF} * y) --> ^left>. :|:", "1" }, 7, t ? 7 : 5, 0.1 },
        { { "<x --> o>. :|:", "<y --> o>. :|: {0.8 0.6}", "<(<$1 --> o> &/ ^left) =/> <$1 --> g>>. {0.9 0.8}", "dt=2 <(<$1 --> o> &/ <({SELF} * $1) --> ^left>) =/> <$1 --> h>>. {0.9 0.8}", "<({SELF} * x) --> ^left>. :|:", "^left. :|:", "<(a &/ ^left) =/> b>. {0.9 0.7}", "a. :|:", "<x --> g>. :|:" }, 9, t ? 6 : 5, 0.1 },
        { { "<x --> o>. :|:", "<y --> o>. :|:", "<<$1 --> o> =/> <$1 --> g>>. {0.9 0.8}", "<<$1 --> o> =/> b>. {1 0.6}", "<a =/> b>. {0.9 0.7}", "<<$1 --> g> =/> <$1 --> h>>. {0.9 0.7}", "a. :|:", "b. :|:" }, 8, t ? 6 : 5, 0.1 },
        { { "a. :|:", "b. :|:", "<(a &/ b) =/> c>. {0.9 0.8}", "<((a &/ b) &/ ^left) =/> c>. {0.9 0.8}", "^left. :|:", "c. :|:", "dt=5 <c =/> a>. {0.6 0.9}" }, 7, t ? 7 : 6, 0.05, 0.6 },
    };
    for(int s=0; s<(int)(sizeof SETS/sizeof *SETS); s++)
    {
        vf_restore(init); w = (W) {0}; ANTICIPATION_CONFIDENCE = SETS[s].ac; if(SETS[s].th) ANTICIPATION_THRESHOLD = SETS[s].th; memset(sn, 0, sizeof sn);
        ex_pl = sprintf(ex_path, "*setopname 1 ^left | *setopname 2 ^right | *anticipationconfidence=%g | ", SETS[s].ac); rec(0, SETS[s].max, SETS[s].l, SETS[s].n);
    }
    vf_count("anticipations", anticipated);
    return 0;
}
