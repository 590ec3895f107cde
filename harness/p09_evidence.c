/* P09: evidence is pooled once. Part A: all words of items with overlapping and disjoint evidential bases about one statement,
 * against the reference. Part B: in every history of inputs and steps of the whole reasoner no belief, observation or prediction
 * weighs more than the inputs in its evidential base together. Part C: repetitions accumulate exactly. */
#include "belief.h"
static Term T; static bool implication; static RE OPS[64]; static int nops; static void *sn[16];
/* im: what is held among the implications (known finding: there evidence is pooled without regard to what the items share) */
static void rec(int d, int max, Model m, RE im, char *path, int pl)
{
    if(d == max) return;
    if(!sn[d]) sn[d] = vf_snap_new(); else vf_snap(sn[d]);
    for(int o=0; o<nops; o++)
    {
        if(d == 1 && !vf_case()) continue;
        Model k = m; RE e = OPS[o], im2 = im;
        int l = sprintf(path + pl, "; %s", b_show(&e)); vf_desc("%s", path);
        Event ev = m_event(T, e, 10);
        if(VF_GUARD_BEGIN()) { Memory_AddEvent(&ev, 10, 1, true, false, false, 0); VF_GUARD_END(); } else { VF_GUARD_END(); vf_fail("an internal check failed"); }
        long n0 = vf_stats.nontrivial; m_add(&k, e, 10, true); bool again = vf_stats.nontrivial > n0; /* what was pooled is believed, too */
        Concept *c = Memory_FindConceptByTerm(&T); VF_CHECK(c != NULL, "no concept holds the statement");
        b_check(&c->belief, &k.belief, "general belief"); b_check(&c->belief_spike, &k.spike, "observation");
        if(implication)
        { /* the same knowledge, held where questions and decisions look for it */
            Term pr = Term_ExtractSubterm(&T, 2); Concept *pc = Memory_FindConceptByTerm(&pr); VF_CHECK(pc && pc->implication_links.itemsAmount == 1, "the implication is held %d times", pc ? pc->implication_links.itemsAmount : 0);
           
            Implication *held = &pc->implication_links.array[0]; Event h = { .term = held->term, .type = EVENT_TYPE_BELIEF, .truth = held->truth, .stamp = held->stamp, .occurrenceTime = OCCURRENCE_ETERNAL };
            RE g = e, real = b_item(&h); if(e.time != REF_ETERNAL) { g.t = r_etern(e.t); g.time = REF_ETERNAL; }
            if(im2.held) { RE r = im2; r.t = r_rev(im2.t, g.t); r.s = r_zip(&im2.s, &g.s); im2 = r; } else im2 = g;
            if(again) { im2.t = r_rev(im2.t, k.belief.t); im2.s = r_zip(&im2.s, &k.belief.s); }
            bool pooled = b_same(&real, &im2); if(!b_same(&real, &k.belief) && !(pooled && vf_known("implication-overlap"))) b_check(&h, &k.belief, "implication"); else if(!pooled) im2 = real;
        }
        vf_stats.transitions++; vf_stats.validated++; if(d >= 1) vf_stats.states++;
        rec(d + 1, max, k, im2, path, pl + l);
        vf_restore(sn[d]);
    }
}
static double W[4096]; static long seenbase;
static double weight(const Event *e) { double s = 0; for(int i=0; i<STAMP_SIZE && e->stamp.evidentialBase[i]; i++) { long id = e->stamp.evidentialBase[i]; bool dup = false; for(int k=0; k<i; k++) dup |= e->stamp.evidentialBase[k] == id; if(!dup && id < 4096) s += W[id]; } return s; }
static void before(const char *line)
{
    double f = 1, c = 0.9; if(strchr(line, '{')) sscanf(strchr(line, '{'), "{%lf %lf}", &f, &c);
    W[base] = r_c2w(c); seenbase = base;
}
static void bound(const Event *e, const char *what)
{
    if(e->type == EVENT_TYPE_DELETED) return;
    double w = r_c2w(e->truth.confidence), b = weight(e); int n = 0; while(n < STAMP_SIZE && e->stamp.evidentialBase[n]) n++;
    if(n == STAMP_SIZE || e->truth.confidence >= 0.99) return;
    if(n == 0) return;
    vf_stats.nontrivial += n > 1;
    if(w > b * (1 + 1e-9)) { Narsese_PrintTerm((Term*) &e->term); vf_fail("%s of %s has confidence %g, i.e. %g units of evidence; the %d inputs in its base provide %g", what, strrchr(vf_cap(), '\n') ? strrchr(vf_cap(), '\n') + 1 : vf_cap(), e->truth.confidence, w, n, b); }
}
static void after(const char *line)
{
    vf_cap_begin();
    for(int i=0; i<concepts.itemsAmount; i++) { Concept *c = concepts.items[i].address; bound(&c->belief, "the general belief"); bound(&c->belief_spike, "the observation"); bound(&c->predicted_belief, "the prediction"); }
    for(int i=0; i<cycling_belief_events.itemsAmount; i++) bound(cycling_belief_events.items[i].address, "the pending event");
}
static const char *A[] = { "<a --> b>. {1.0 0.4}", "<b --> c>. {0.9 0.5}", "<a --> c>. {0.2 0.3}", "<c --> a>. {1.0 0.6}", "1", "<a <-> b>. {0.8 0.4}", "<a --> b>. :|: {1.0 0.3}" };
static const char *B[] = { "<a ==> b>. {1.0 0.4}", "a. {1.0 0.5}", "a. :|: {0.9 0.5}", "b. {0.9 0.3}", "1", "(a && b). {1.0 0.4}", "<b ==> a>. {0.9 0.5}" };
static const char *C[] = { "<a --> (b & c)>. {1.0 0.5}", "<a --> b>. {0.8 0.4}", "<(a * b) --> r>. {1.0 0.5}", "<a --> (r /1 b)>. {0.9 0.3}", "1", "(! <a --> b>). {0.9 0.4}", "<<$1 --> b> ==> <$1 --> c>>. {1.0 0.5}" };
static const char *D[] = { "<{x} --> [p]>. :|: {1.0 0.4}", "<{x} --> [p]>. {1.0 0.5}", "<{x} |-> [q]>. {0.9 0.5}", "<a <=> b>. {1.0 0.5}", "a. :|: {1.0 0.4}", "1", "<b <=> c>. {0.9 0.5}", "c. {0.7 0.3}" };
static const char *E[] = { "<x --> y>.", "z. {0.5 0.3}", "z. :|: {1.0 0.2}", "1", "<a --> b>. {1.0 0.4}", "<b --> c>. {0.9 0.5}" };
static double zw, zf; static int zn; static bool zcap;
static double st[20][3]; static int sd;
static void zrec(int d, int max, double w, double wp, int n)
{
    static void *s[20]; if(d == max) return;
    if(!s[d]) s[d] = vf_snap_new(); else vf_snap(s[d]);
    int pl = ex_pl;
    for(int o=0; o<6; o++)
    {
        if(d == 2 && !vf_case()) continue;
        ex_pl = pl; ex_path[pl] = 0; ex_before = before; ex_step(E[o]);
        double w2 = w, p2 = wp; int n2 = n;
        if(o == 1) { w2 += r_c2w(0.3); p2 += 0.5*r_c2w(0.3); n2++; }
        if(o == 2) { double k = r_c2w(r_w2c(0.2)); w2 += k; p2 += k; n2++; }
        Term z = Narsese_Term("z"); Concept *c = Memory_FindConceptByTerm(&z);
        if(n2 && d >= 1)
        {
            VF_CHECK(c != NULL, "statement z has no concept"); double x = fmin(r_w2c(w2), MAX_CONFIDENCE);
            VF_CHECK(fabs(c->belief.truth.confidence - x) < 1e-9 && fabs(c->belief.truth.frequency - p2/w2) < 1e-9, "after %d independent items about z the general belief is {%g %g}, their pooled evidence is {%g %g}", n2, c->belief.truth.frequency, c->belief.truth.confidence, p2/w2, x);
        }
        vf_stats.states += d >= 2; vf_stats.validated++; zrec(d + 1, max, w2, p2, n2); vf_restore(s[d]);
    }
    ex_pl = pl; ex_path[pl] = 0;
}
int vf_main(void)
{
    static char path[4000]; vf_quiet(); vf_cap_begin(); Shell_NARInit(); MOTOR_BABBLING_CHANCE = 0; void *init = vf_snap_new();
    /* A */
    long ST[][4] = { { 1 }, { 2 }, { 3 }, { 1, 2 }, { 2, 3 }, { 1, 2, 3 }, { 4, 5 } }; double TR[][2] = { { 1, 0.91 }, { 0.3, 0.473 } };
    for(int i=0; i<7; i++) for(int k=0; k<2; k++) for(int ev=0; ev<2; ev++) { RE e = { true, { TR[k][0], TR[k][1] }, { { 0 }, 0 }, ev ? 10 : REF_ETERNAL }; for(int j=0; ST[i][j]; j++) e.s.id[e.s.n++] = ST[i][j]; OPS[nops++] = e; }
    T = Narsese_Term("<a --> b>"); Model m = {0}; rec(0, vf_thorough ? 5 : 4, m, (RE) {0}, path, 0);
    vf_restore(init); memset(sn, 0, sizeof sn); T = Narsese_Term("<a ==> b>"); implication = true; rec(0, vf_thorough ? 5 : 4, m, (RE) {0}, path, 0); implication = false;
    /* B: shallow full histories and periodic ones */
    const struct { const char **a; int n; } AB[] = { { A, sizeof A/sizeof *A }, { B, sizeof B/sizeof *B }, { C, sizeof C/sizeof *C }, { D, sizeof D/sizeof *D } };
    ex_before = before; ex_after = after;
    for(int i=0; i<4; i++)
    {
        vf_restore(init); ex_all(AB[i].a, AB[i].n, vf_thorough ? 6 : 5, "");
        vf_restore(init); for(int l=1; l<=(vf_thorough ? 4 : 3); l++) ex_periodic(AB[i].a, AB[i].n, l, 9, "");
        /* a history, then only steps */
    }
    /* C */
    vf_restore(init); ex_after = NULL; ex_pl = 0; zrec(0, vf_thorough ? 8 : 7, 0, 0, 0);
    return 0;
}
