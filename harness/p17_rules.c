/* P17: the conclusions drawn from every premise pair / single premise of a space which instantiates all premise patterns of all
 * rules with every identification of their parts, compared with the declared rules.
 * A: the rule table itself. B: the inference step of the reasoner (selected event against the related concept's belief),
 * with the higher-order rules which eliminate variables. C: how a conclusion becomes an event. */
#define _GNU_SOURCE
#include <dlfcn.h>
#include "unify.h"
#include "rules.h"
#include "ref.h"
#include "RuleTable.h"
#include "Cycle.h"
#include "Memory.h"
#include "NAR.h"
#include "Shell.h"
void Metric_send(const char* path, int value) {}
extern Event selectedBeliefs[]; extern double selectedBeliefsPriority[]; extern int beliefsSelectedCnt;
typedef struct { N *t; RT tr; int vi; bool hit; const char *rule; Term term; } C;
static C want[400], got[400]; static int nw, ng; static bool rec_derived, rec_added;
static Stamp cs; static long cocc, cnow; static double coff;
typedef void (*DE)(Term, long, Truth, Stamp, long, double, double, double, Concept*, long, bool, bool);
void NAL_DerivedEvent(Term t, long occ, Truth tr, Stamp stamp, long now, double pp, double cp, double off, Concept *vc, long vid, bool vi, bool ext)
{
    if(!rec_derived) { static DE real; if(!real) real = (DE) dlsym(RTLD_NEXT, "NAL_DerivedEvent"); real(t, occ, tr, stamp, now, pp, cp, off, vc, vid, vi, ext); return; }
    if(ng == 400) abort();
    got[ng].tr.f = tr.frequency; got[ng].tr.c = tr.confidence; got[ng].vi = vi; got[ng].term = t; got[ng].hit = false; ng++;
    if(!t_dec(&t, 1)) vf_fail("a conclusion without a term");
    VF_CHECK(memcmp(&stamp, &cs, sizeof cs) == 0 || cs.evidentialBase[0] < 0, "the conclusion does not carry the premises' evidential base");
    VF_CHECK(occ == cocc && now == cnow && off == coff, "the conclusion's time is %ld (created %ld, offset %g), expected %ld (%ld, %g)", occ, now, off, cocc, cnow, coff);
    VF_CHECK(!vc || vc->id == vid, "the conclusion is validated by another concept");
}
typedef void (*AE)(Event*, long, double, bool, bool, bool, int);
static Event added[8]; static int nadded; static bool aderived, ainput, arevised; static double aprio;
void Memory_AddEvent(Event *e, long now, double p, bool input, bool derived, bool revised, int layer)
{
    if(!rec_added) { static AE real; if(!real) real = (AE) dlsym(RTLD_NEXT, "Memory_AddEvent"); real(e, now, p, input, derived, revised, layer); return; }
    if(nadded < 8) added[nadded] = *e;
    nadded++; ainput = input; aderived = derived; arevised = revised; aprio = p;
}
static RT tf(const char *n, RT a, RT b)
{
    static const char *last; static int li;
    static const struct { const char *n; int k; } F[] = { {"Deduction",1},{"Induction",2},{"Abduction",3},{"Exemplification",4},{"StructuralIntersection",5},{"Resemblance",6},{"Comparison",7},{"Analogy",8},{"StructuralDeduction",9},{"StructuralDeductionNegated",10},{"Intersection",11},{"Union",12},{"Difference",13},{"DecomposePNN",14},{"DecomposeNPP",15},{"DecomposePNP",16},{"DecomposeNNN",17},{"FrequencyGreater",18},{"FrequencyEqual",19},{"Negation",20},{"DecomposePPP",21},{"AnonymousAnalogy",22} };
    if(n != last) { last = n; li = 0; for(unsigned i=0; i<sizeof F/sizeof *F; i++) if(!strcmp(F[i].n, n)) li = F[i].k; if(!li) { fprintf(stderr, "truth function %s?\n", n); abort(); } }
    RT r = {0};
    switch(li)
    {
        case 1: return r_ded(a,b); case 2: return r_ind(a,b); case 3: return r_abd(a,b); case 4: return r_exe(a,b); case 5: return r_sin(a); case 6: return r_res(a,b); case 7: return r_com(a,b); case 8: return r_ana(a,b);
        case 9: return r_str(a); case 10: r = r_str(a); r.f = 1-r.f; return r; case 11: return r_int(a,b); case 12: return r_uni(a,b); case 13: return r_dif(a,b);
        case 14: { RT x = { 1-a.f*(1-b.f), a.f*(1-b.f)*a.c*b.c }; return x; } case 15: { RT x = { (1-a.f)*b.f, (1-a.f)*b.f*a.c*b.c }; return x; }
        case 16: { RT x = { a.f*(1-b.f), a.f*(1-b.f)*a.c*b.c }; return x; } case 17: { RT x = { 1-(1-a.f)*(1-b.f), (1-a.f)*(1-b.f)*a.c*b.c }; return x; }
        case 18: { RT x = { a.f > b.f, a.f > b.f ? a.c*b.c : 0 }; return x; } case 19: { RT x = { a.f == b.f, a.f == b.f ? a.c*b.c : 0 }; return x; }
        case 20: return r_neg(a); case 21: { RT x = { a.f*b.f, a.f*b.f*a.c*b.c }; return x; } default: { RT x = { a.f, a.c*r_w2c(b.f*b.c) }; return x; }
    }
}
/* rule patterns: upper case single letters are parts */
static N *bnd[128];
static bool pm(N *p, N *t)
{
    if(!p || !t) return p == t;
    if(!p->cop)
    {
        if(p->name[0] >= 'A' && p->name[0] <= 'Z' && !p->name[1]) { int i = p->name[0]; if(bnd[i]) return t_eq(bnd[i], t); bnd[i] = t; return true; }
        return !t->cop && !strcmp(p->name, t->name);
    }
    return p->cop == t->cop && pm(p->l, t->l) && pm(p->r, t->r);
}
static N *inst(N *p) { if(!p) return NULL; if(!p->cop) return p->name[0] >= 'A' && p->name[0] <= 'Z' && !p->name[1] ? bnd[(int) p->name[0]] : p; N *a = inst(p->l), *b = inst(p->r); return t_c(p->cop, a, b); }
static N *P1[NRULES], *P2[NRULES], *PC[NRULES], *RA[NRED], *RB[NRED];
static void expect(N *t, RT tr, int vi, const char *rule) { bool f; Term x = t_term(t, &f); if(!f) return; if(nw == 400) abort(); want[nw].term = x; want[nw].t = t; want[nw].tr = tr; want[nw].vi = vi; want[nw].hit = false; want[nw].rule = rule; nw++; }
static void rules2(N *a, N *b, RT ta, RT tb)
{
    for(int r=0; r<NRULES; r++) if(RULES[r].n == 2)
    {
        memset(bnd, 0, sizeof bnd); if(pm(P1[r], a) && pm(P2[r], b)) expect(inst(PC[r]), tf(RULES[r].t, ta, tb), RULES[r].vi, RULES[r].c);
        memset(bnd, 0, sizeof bnd); if(pm(P1[r], b) && pm(P2[r], a)) expect(inst(PC[r]), tf(RULES[r].t, tb, ta), RULES[r].vi, RULES[r].c);
    }
}
static void rules1(N *a, RT ta)
{
    RT z = {0};
    for(int r=0; r<NRULES; r++) if(RULES[r].n == 1) { memset(bnd, 0, sizeof bnd); if(pm(P1[r], a)) expect(inst(PC[r]), tf(RULES[r].t, ta, z), 0, RULES[r].c); }
}
/* A, <A ==> B> |- B etc., by unification: a is the fact, b the statement with variables */
static void special(N *a, N *b, RT ta, RT tb)
{
    if(b->cop == '?' || b->cop == '^')
    {
        if(unify(b->l, a)) expect(subst(b->r), b->cop == '?' ? r_ded(tb, ta) : r_ana(tb, ta), 0, "A, <A ==> B> |- B");
        if(b->cop == '?' && b->l->cop == ';')
        {
            if(unify(b->l->l, a)) expect(subst(t_c('?', b->l->r, b->r)), r_ded(tb, ta), 0, "A, <(A && B) ==> C> |- <B ==> C>");
            else if(unify(b->l->r, a)) expect(subst(t_c('?', b->l->l, b->r)), r_ded(tb, ta), 0, "B, <(A && B) ==> C> |- <A ==> C>");
        }
        if(unify(b->r, a)) expect(subst(b->l), b->cop == '?' ? r_abd(tb, ta) : r_ana(tb, ta), 0, "B, <A ==> B> |- A");
    }
    if(b->cop == ';' && unify(b->l, a)) expect(subst(b->r), tf("AnonymousAnalogy", tb, ta), 0, "A, (A && B) |- B");
}
/* is x the reduced form of the conclusion t (one reduction, if one applies)? */
static bool reduced_as(N *t, Term *x)
{
    bool any = false;
    for(int r=0; r<NRED; r++) { memset(bnd, 0, sizeof bnd); if(pm(RA[r], t)) { bool f; Term y = t_term(inst(RB[r]), &f); if(!f) continue; any = true; if(!memcmp(y.atoms, x->atoms, sizeof y.atoms)) return true; } }
    if(any) return false;
    Term y = t_term(t, NULL); return !memcmp(y.atoms, x->atoms, sizeof y.atoms);
}
static void compare(void)
{
    for(int g=0; g<ng; g++)
    {
        bool ok = false; const char *near = NULL;
        for(int w=0; w<nw; w++) if(strstr(want[w].rule, "|-") ? !memcmp(want[w].term.atoms, got[g].term.atoms, sizeof got[g].term.atoms) : reduced_as(want[w].t, &got[g].term))
        {
            near = want[w].rule;
            if(r_near(want[w].tr.f, got[g].tr.f) && r_near(want[w].tr.c, got[g].tr.c) && want[w].vi == got[g].vi) { ok = true; want[w].hit = true; }
        }
        if(!ok) vf_fail("derived %s {%g %g}%s, which no rule licenses%s%s", t_raw(&got[g].term), got[g].tr.f, got[g].tr.c, got[g].vi ? " (with variable introduction)" : "", near ? "; that term has another truth by the rule concluding " : "", near ? near : "");
    }
    for(int w=0; w<nw; w++) if(!want[w].hit) vf_fail("missing conclusion %s {%g %g}%s of the rule concluding %s", t_str(want[w].t), want[w].tr.f, want[w].tr.c, want[w].vi ? " (with variable introduction)" : "", want[w].rule);
    vf_stats.nontrivial += nw > 0; vf_stats.validated++; vf_stats.transitions += nw;
}
/* shapes with holes */
typedef struct { N *t; int holes; } Sh;
static Sh SH[4000]; static int nsh;
static int count(N *t) { if(!t) return 0; if(!t->cop) return t->name[0] == '_'; return count(t->l) + count(t->r); }
static N *blank(N *t) { if(!t) return NULL; if(!t->cop) return t->name[0] >= 'A' && t->name[0] <= 'Z' && !t->name[1] ? t_leaf("_") : t; return t_c(t->cop, blank(t->l), blank(t->r)); }
static N *fillhole(N *t, int *k, N *with) { if(!t) return NULL; if(!t->cop) { if(t->name[0] == '_') { if((*k)-- == 0) return with; } return t; } N *a = fillhole(t->l, k, with), *b = fillhole(t->r, k, with); return t_c(t->cop, a, b); }
static void addshape(N *t) { int h = count(t); if(h > 6) return; bool f; t_term(t, &f); if(!f) return; for(int i=0; i<nsh; i++) if(t_eq(SH[i].t, t)) return; if(nsh == 4000) abort(); SH[nsh].t = t; SH[nsh].holes = h; nsh++; }
static const char *AT[12] = { "a0", "a1", "a2", "a3", "a4", "a5", "a6", "a7", "a8", "a9", "a10", "a11" };
static N *ATN[12];
static N *fillall(N *t, int *w, int *k) { if(!t) return NULL; if(!t->cop) return t->name[0] == '_' ? ATN[w[(*k)++]] : t; N *a = fillall(t->l, w, k), *b = fillall(t->r, w, k); return t_c(t->cop, a, b); }
/* all identifications of the holes of two shapes (restricted growth words) */
static void (*emit)(N*, N*);
static N *sa, *sb; static int ha, hb, W[16];
static void words(int i, int mx)
{
    if(i == ha + hb) { int k = 0; N *a = fillall(sa, W, &k), *b = sb ? fillall(sb, W, &k) : NULL; emit(a, b); return; }
    for(int v=0; v<=mx && v<12; v++) { W[i] = v; words(i + 1, v == mx ? mx + 1 : mx); }
}
static const double TV[][4] = { { 0.8, 0.7, 0.6, 0.9 }, { 0.35, 0.9, 0.7, 0.5 }, { 0.7, 0.6, 0.7, 0.85 } };
static int ntv = 1;
static void do_table(N *a, N *b)
{
    Term ta = t_term(a, NULL), tb = {0}; if(b) tb = t_term(b, NULL);
    for(int v=0; v<ntv; v++)
    {
        RT x = { TV[v][0], TV[v][1] }, y = { TV[v][2], TV[v][3] };
        vf_desc("rule table on %s {%g %g} and %s {%g %g}", t_str(a), x.f, x.c, b ? t_str(b) : "nothing", y.f, y.c);
        nw = ng = 0; if(b) rules2(a, b, x, y); else rules1(a, x);
        rec_derived = true; RuleTable_Apply(ta, tb, (Truth) { x.f, x.c }, (Truth) { y.f, y.c }, cocc, coff, cs, cnow, 0.7, 0.9, b != NULL, NULL, 0); rec_derived = false;
        compare();
    }
}
static void *snap0;
static bool shares(Term *a, Term *b) { for(int i=0; i<COMPOUND_TERM_SIZE_MAX; i++) if(a->atoms[i] && Narsese_IsSimpleAtom(a->atoms[i])) for(int k=0; k<COMPOUND_TERM_SIZE_MAX; k++) if(a->atoms[i] == b->atoms[k]) return true; return false; }
static int bmode;
/* B: the selected event a against the concept of b */
static void do_step(N *a, N *b)
{
    vf_restore(snap0);
    Term ta = t_term(a, NULL), tb = t_term(b, NULL); if(Term_Equal(&ta, &tb)) return;
    for(int v=0; v<ntv; v++)
    {
        vf_restore(snap0);
        /* time modes: 0 both eternal, 1 event and eternal belief, 2 event and earlier observation, 3 event and too old observation, 4 event and later observation, 5 shared evidence */
        RT x = { TV[v][0], TV[v][1] }, y = { TV[v][2], TV[v][3] };
        long now = 50, et = bmode == 0 || bmode == 5 ? OCCURRENCE_ETERNAL : 40, st = bmode == 2 ? 33 : bmode == 3 ? 20 : bmode == 4 ? 45 : 0;
        vf_desc("inference step on %s {%g %g} and the belief %s {%g %g}, mode %d", t_str(a), x.f, x.c, t_str(b), y.f, y.c, bmode);
        Event e = { .term = ta, .type = EVENT_TYPE_BELIEF, .truth = { x.f, x.c }, .occurrenceTime = et, .creationTime = 40 }; e.stamp.evidentialBase[0] = 7; e.stamp.evidentialBase[1] = 9;
        Concept *c = Memory_Conceptualize(&tb, now); c->priority = 0.9;
        c->belief = (Event) { .term = tb, .type = EVENT_TYPE_BELIEF, .truth = { y.f, y.c }, .occurrenceTime = OCCURRENCE_ETERNAL }; c->belief.stamp.evidentialBase[0] = bmode == 5 ? 9 : 3;
        RT u = y; Stamp bs = c->belief.stamp;
        if(st) { c->belief_spike = (Event) { .term = tb, .type = EVENT_TYPE_BELIEF, .truth = { 0.55, 0.95 }, .occurrenceTime = st }; c->belief_spike.stamp.evidentialBase[0] = 4; RT w = { 0.55, 0.95 }; if(bmode != 3) { u = r_proj(w, st, et); bs = c->belief_spike.stamp; } }
        nw = ng = 0; rules1(a, x); bool rel = shares(&ta, &tb);
        /* premises with shared evidence and premises of unrelated concepts are not combined */
        if(rel && bmode != 5) { rules2(a, b, x, u); special(a, b, x, u); special(b, a, u, x); }
        cs.evidentialBase[0] = -1; /* two kinds of bases: checked by P18 */
        cocc = et; cnow = now; coff = 0;
        selectedBeliefs[0] = e; selectedBeliefsPriority[0] = 0.7; beliefsSelectedCnt = 1;
        rec_derived = true; Cycle_Inference(now); rec_derived = false;
        compare();
    }
    vf_restore(snap0);
}
/* C: a conclusion becomes an event as it is */
static void do_event(N *a, N *b)
{
    (void) b; Term t = t_term(a, NULL); vf_desc("conclusion %s", t_str(a));
    Stamp s = {0}; s.evidentialBase[0] = 5; s.evidentialBase[1] = 6; Truth tr = { 0.6, 0.7 };
    nadded = 0; rec_added = true; NAL_DerivedEvent(t, 30, tr, s, 33, 0.5, 0.8, 0, NULL, 0, false, false); rec_added = false;
    bool first = a->cop == ':' || a->cop == '=' || a->cop == 0;
    VF_CHECK(nadded <= 1, "one conclusion became %d events", nadded);
    if(first && count(sa) == ha) { bool distinct = true; for(int i=0; i<ha && distinct; i++) for(int k=0; k<i; k++) distinct &= W[i] != W[k]; bool var = strpbrk(t_str(a), "$#?") != NULL, hol = strstr(t_str(a), "&&") || strstr(t_str(a), "||") || strstr(t_str(a), "==>") || strstr(t_str(a), "<=>"), set = strstr(t_str(a), "{") || strstr(t_str(a), "["); if(distinct && !var && !hol && !set) { VF_CHECK(nadded == 1, "the conclusion was not added"); vf_stats.nontrivial++; } }
    if(nadded) VF_CHECK(Term_Equal(&added[0].term, &t) && added[0].truth.frequency == 0.6 && added[0].truth.confidence == 0.7 && !memcmp(&added[0].stamp, &s, sizeof s) && added[0].occurrenceTime == 30 && added[0].type == EVENT_TYPE_BELIEF && aderived && !ainput && !arevised && r_near(aprio, 0.5*0.8*r_exp((RT) { 0.6, 0.7 })), "the conclusion became {%g %g} at %ld priority %g", added[0].truth.frequency, added[0].truth.confidence, added[0].occurrenceTime, aprio);
    vf_stats.validated++; vf_stats.transitions++;
}
static const char *EXTRA[] = { "_", "(_ --> _)", "(_ <-> _)", "(_ ==> _)", "(_ <=> _)", "(_ && _)", "(_ || _)", "(! _)", "(! (_ --> _))", "(_ |-> _)", "(_ =/> _)", "(_ &/ _)", "({_} --> _)", "(_ --> [_])", "(_ --> {_})", "([_] --> _)",
    "({_} <-> {_})", "([_] <-> [_])", "({_} <-> [_])", "((_ && _) ==> _)", "(_ ==> (_ && _))", "((_ || _) ==> _)", "((_ --> _) ==> (_ --> _))", "((_ --> _) && (_ --> _))", "((! _) && _)", "((! _) || _)", "(_ && (! _))", "((_ * _) --> (_ * _))", "({_ _} <-> _)", "({_} |-> [_])", "(_ |-> [_])",
    "((_ * _) --> (+ _))", "((_ * _) --> (= _))", "((_ * _) |-> (+ _))", "(({_} | {_}) --> _)", "(_ --> ([_] & [_]))", "(({_ _} | {_}) --> _)", "(({_} & {_}) --> _)", "((_ & _) --> _)", "(_ --> (_ | _))", "((_ - _) --> _)", "(_ --> (_ ~ _))", "({(_ . _)} --> _)", "([_] --> [(_ . _)])",
    "((_ /1 _) --> _)", "(_ --> (_ \\1 _))", "(_ --> (_ \\2 _))", "((_ /2 _) --> _)", "((_ * _) <-> _)", "((_ * _) <-> (_ * _))", "(_ --> (_ * _))", "((_ - _) --> (_ * _))" };
/* with variables, for B */
static const char *VARS[] = { "<<$1 --> _> ==> <$1 --> _>>", "<(<$1 --> _> && <$1 --> _>) ==> <$1 --> _>>", "<(<$1 --> _> && <$2 --> _>) ==> <($1 * $2) --> _>>", "<<$1 --> _> <=> <$1 --> _>>", "(<#1 --> _> && <#1 --> _>)", "<<_ --> $1> ==> <_ --> $1>>", "<<($1 * $2) --> _> ==> <($2 * $1) --> _>>", "<(<#1 --> _> && <$1 --> _>) ==> <$1 --> _>>", "<<($1 * _) --> _> ==> <$1 --> _>>", "(_ && _)", "<_ ==> _>", "<_ <=> _>", "<(_ && _) ==> _>", "<$1 ==> _>", "<(<#1 --> _> && <$1 --> _>) ==> (<#1 --> _> && <$1 --> _>)>", "<((_ && _) && _) ==> _>", "<(! _) ==> _>", "<<$1 --> [_]> ==> <$1 --> {_}>>", "<<$1 --> $2> ==> <_ --> $2>>" };
static const char *FACTS[] = { "_", "<_ --> _>", "<(_ * _) --> _>", "(! _)", "<_ --> [_]>", "<_ <-> _>", "(_ && _)", "<{_} --> _>", "<_ ==> _>", "(<_ --> _> && <_ --> _>)", "<_ --> {_}>", "<$1 --> _>", "<_ --> (_ /1 _)>" };
int vf_main(void)
{
    vf_quiet(); vf_cap_begin(); Shell_NARInit();
    for(int i=0; i<12; i++) { ATN[i] = t_leaf(AT[i]); Narsese_AtomicTermIndex((char*) AT[i]); }
    for(int r=0; r<NRULES; r++) { P1[r] = t_read(RULES[r].p1); if(RULES[r].n == 2) P2[r] = t_read(RULES[r].p2); PC[r] = t_read(RULES[r].c); addshape(blank(P1[r])); if(P2[r]) addshape(blank(P2[r])); }
    for(int r=0; r<NRED; r++) { RA[r] = t_read(REDUCTIONS[r][0]); RB[r] = t_read(REDUCTIONS[r][1]); addshape(blank(RA[r])); }
    for(unsigned i=0; i<sizeof EXTRA/sizeof *EXTRA; i++) addshape(t_read(EXTRA[i]));
    int nbase = nsh; N *cmp[] = { t_read("(k1 * k2)"), t_read("{k1}"), t_read("(k1 --> k2)"), t_read("[k1 k2]"), t_read("$1"), t_read("(! k1)") };
    for(int i=0; i<nbase; i++) for(int h=0; h<SH[i].holes; h++) for(int c=0; c<6; c++) { int k = h; addshape(fillhole(SH[i].t, &k, cmp[c])); }
    if(vf_shard == 0) fprintf(stderr, "%d shapes (%d base)\n", nsh, nbase);
    cs = (Stamp) { .evidentialBase = { 3, 4 } }; cocc = 17; cnow = 21; coff = 0.5; rec_derived = rec_added = false;
    snap0 = vf_snap_new();
    /* A, single premises, and C */
    ntv = 3;
    for(int i=0; i<nsh; i++) { if(!vf_case()) continue; sa = SH[i].t; sb = NULL; ha = SH[i].holes; hb = 0; emit = do_table; words(0, 0); emit = do_event; words(0, 0); vf_stats.states++; }
    /* A, pairs: all base shapes; a shape with a compound part against base shapes */
    for(int i=0; i<nsh; i++) for(int j=0; j<nbase; j++)
    {
        if(!vf_thorough && i >= nbase && (SH[i].holes + SH[j].holes > 4)) continue;
        if(!vf_case()) continue;
        sa = SH[i].t; sb = SH[j].t; ha = SH[i].holes; hb = SH[j].holes; if(ha + hb > (vf_thorough ? 8 : 7)) continue;
        ntv = i < nbase && ha + hb <= 5 ? 3 : 1; emit = do_table; words(0, 0); vf_stats.states++;
    }
    /* B */
    static Sh V[64], F[64]; int nv = 0, nf = 0;
    for(unsigned i=0; i<sizeof VARS/sizeof *VARS; i++) { V[nv].t = t_read(VARS[i]); V[nv].holes = count(V[nv].t); nv++; }
    for(unsigned i=0; i<sizeof FACTS/sizeof *FACTS; i++) { F[nf].t = t_read(FACTS[i]); F[nf].holes = count(F[nf].t); nf++; }
    for(int dir=0; dir<2; dir++) for(int i=0; i<nv; i++) for(int j=0; j<nf+nv; j++) for(bmode=0; bmode<6; bmode++)
    {
        Sh *x = &V[i], *y = j < nf ? &F[j] : &V[j-nf]; if(dir) { Sh *z = x; x = y; y = z; if(j >= nf) continue; }
        if(x->holes + y->holes > (vf_thorough ? 7 : 6) || !vf_case()) continue;
        sa = x->t; sb = y->t; ha = x->holes; hb = y->holes; ntv = bmode == 0 ? 2 : 1; emit = do_step; words(0, 0); vf_stats.states++;
    }
    for(int i=0; i<nbase; i++) for(int j=0; j<nbase; j++)
    {
        if(SH[i].holes + SH[j].holes > 4 || !vf_case()) continue;
        sa = SH[i].t; sb = SH[j].t; ha = SH[i].holes; hb = SH[j].holes; ntv = 1; emit = do_step; bmode = (i + j) % 6; words(0, 0);
    }
    return 0;
}
