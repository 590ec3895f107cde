/* P26: every question of a list, in every tense, to the knowledge base reached by every input history; the answer is compared with
 * the best of all matching held beliefs, found by an independent matcher. */
#include "belief.h"
#include "unify.h"
typedef struct { Term *t; RT tr; RS s; long occ, created; double val; } Cand;
static Cand cand[4096]; static int nc;
static void add(Term *t, Truth tr, Stamp *s, long occ, long created, double val) { if(nc < 4096) cand[nc++] = (Cand) { t, { tr.frequency, tr.confidence }, b_stamp(s), occ, created, val }; }
/* printed form of each held term is by the independent printer; trees are cached */
static struct { Term t; N *n; char *s; } cache[4096]; static int ncache;
static int look(Term *t) { for(int i=0; i<ncache; i++) if(!memcmp(cache[i].t.atoms, t->atoms, sizeof t->atoms)) return i; if(ncache == 4096) abort(); cache[ncache].t = *t; cache[ncache].n = t_dec(t, 1); cache[ncache].s = strdup(t_str(cache[ncache].n)); return ncache++; }
static bool matches(N *q, Term *t) { memset(env, 0, sizeof env); return match(q, cache[look(t)].n, true); }
static void collect(N *q, int tense)
{
    nc = 0; bool temporal = q->cop == '$', impl = q->cop == '?';
    for(int i=0; i<concepts.itemsAmount; i++)
    {
        Concept *c = concepts.items[i].address;
        if(temporal) for(int o=0; o<=OPERATIONS_MAX; o++) for(int k=0; k<c->precondition_beliefs[o].itemsAmount; k++) { Implication *m = &c->precondition_beliefs[o].array[k]; if(matches(q, &m->term)) add(&m->term, m->truth, &m->stamp, REF_ETERNAL, m->creationTime, r_exp((RT) { m->truth.frequency, m->truth.confidence })); }
        if(impl) for(int k=0; k<c->implication_links.itemsAmount; k++) { Implication *m = &c->implication_links.array[k]; if(matches(q, &m->term)) add(&m->term, m->truth, &m->stamp, REF_ETERNAL, m->creationTime, r_exp((RT) { m->truth.frequency, m->truth.confidence })); }
        if(temporal || !matches(q, &c->term)) continue;
        Event *e[3] = { &c->belief, &c->belief_spike, &c->predicted_belief }; bool ask[3] = { tense == 0, tense == 1 || tense == 2, tense == 1 || tense == 3 };
        for(int k=0; k<3; k++) if(ask[k] && e[k]->type) { RT t = { e[k]->truth.frequency, e[k]->truth.confidence }; add(&e[k]->term, e[k]->truth, &e[k]->stamp, e[k]->occurrenceTime, e[k]->creationTime, r_exp(r_proj(t, e[k]->occurrenceTime, currentTime))); }
    }
}
/* does a printed answer state this candidate? */
static bool states(const char *a, Cand *x)
{
    char *term = cache[look(x->t)].s; int l = strlen(term); if(strncmp(a, term, l)) return false; a += l;
    long occ = REF_ETERNAL, cr = -7; int n = 0;
    if(sscanf(a, ". :|: occurrenceTime=%ld creationTime=%ld Stamp=%n", &occ, &cr, &n) < 2 || !n) { occ = REF_ETERNAL; if(sscanf(a, ". creationTime=%ld Stamp=%n", &cr, &n) < 1 || !n) return false; }
    if(occ != x->occ || cr != x->created) return false;
    a += n; RS s = {0}; if(*a++ != '[') return false; while(*a && *a != ']') { s.id[s.n++] = strtol(a, (char**) &a, 10); if(*a == ',') a++; }
    RT t; if(sscanf(a, "] Truth: frequency=%lf, confidence=%lf", &t.f, &t.c) != 2) return false;
    return fabs(t.f - x->tr.f) < 1e-6 && fabs(t.c - x->tr.c) < 1e-6 && r_samebase(&s, &x->s);
}
static const char *QS[] = { "<a --> b>", "<c --> b>", "<b --> a>", "<?1 --> b>", "<a --> ?1>", "<?1 --> ?1>", "<?1 --> ?2>", "?1", "a", "b", "d", "<(a * c) --> r>", "<(?1 * ?1) --> r>", "<(?1 * ?2) --> r>", "<(?1 * c) --> ?2>",
    "<a =/> b>", "<?1 =/> b>", "<a =/> ?1>", "<?1 =/> ?1>", "<?1 =/> ?2>", "<(a &/ ^left) =/> b>", "<(?1 &/ ^right) =/> ?2>", "<(?1 &/ ?2) =/> b>", "<(a &/ ?1) =/> ?1>", "<?1 =/> <a --> b>>",
    "<a ==> b>", "<?1 ==> b>", "<a ==> ?1>", "<?1 ==> ?2>", "<?1 ==> ?1>", "<<$1 --> a> ==> <$1 --> b>>", "<<$1 --> a> ==> <$1 --> ?1>>", "<(?1 && ?2) ==> ?3>", "<?1 <-> c>", "(a &/ ?1)", "<<?1 --> a> ==> <?1 --> b>>" };
static N *QT[sizeof QS/sizeof *QS]; static bool fits_n;
static const char *TS[] = { "", " :|:", " :\\:", " :/:" };
static void ask(void)
{
    char line[300], path[1000]; snprintf(path, sizeof path, "%s", ex_pl > 700 ? ex_path + ex_pl - 700 : ex_path);
    for(unsigned q=0; q<sizeof QS/sizeof *QS; q++) for(int t=0; t<4; t++)
    {
        if(t && (QT[q]->cop == '$' || QT[q]->cop == '?')) continue;
        collect(QT[q], t); double best = -1; for(int i=0; i<nc; i++) if(cand[i].val > best) best = cand[i].val;
        for(int all=0; all<2; all++)
        {
            if(all && (q * 4 + t + ex_pl) % 3) continue;
            double thr = 0.6; if(all) snprintf(line, sizeof line, "*query %g %s?%s", thr, QS[q], TS[t]); else snprintf(line, sizeof line, "%s?%s", QS[q], TS[t]);
            vf_desc("%s%s", path, line); ex_feed(line); const char *out = vf_cap(); vf_stats.transitions++; vf_stats.validated++;
            if(!all)
            {
                const char *a = strstr(out, "Answer: "); VF_CHECK(a, "no answer is given"); a += 8; VF_CHECK(!strstr(a, "Answer: "), "more than one answer is given");
                if(nc == 0) { VF_CHECK(!strncmp(a, "None.\n", 6), "nothing matching is held, but the answer is %.80s", a); continue; }
                bool ok = false; for(int i=0; i<nc && !ok; i++) ok = cand[i].val >= best - 1e-9 && states(a, &cand[i]);
                if(!ok) { int i = 0; while(cand[i].val < best) i++; vf_fail("the answer is %.150s, but held is %s {%.6f %.6f} at %ld", a, cache[look(cand[i].t)].s, cand[i].tr.f, cand[i].tr.c, cand[i].occ); }
                vf_stats.nontrivial += nc > 1;
            }
            else
            { /* exactly those above the threshold, each once */
                bool used[4096] = {0}; int n = 0; for(const char *a = out; (a = strstr(a, "Answer: ")); ) { a += 8; n++; bool ok = false; for(int i=0; i<nc && !ok; i++) if(!used[i] && states(a, &cand[i])) { ok = used[i] = true; VF_CHECK(cand[i].val > thr - 1e-9, "an answer below the threshold is given: %.120s", a); } VF_CHECK(ok, "the answer %.120s is not held", a); }
                for(int i=0; i<nc; i++) if(!used[i]) VF_CHECK(cand[i].val < thr + 1e-9, "%s {%.6f %.6f} is not listed", cache[look(cand[i].t)].s, cand[i].tr.f, cand[i].tr.c);
                vf_stats.nontrivial += n > 1;
            }
        }
    }
}
static const char *A[] = { "<a --> b>.", "<a --> b>. {0.2 0.6}", "<c --> b>. {0.7 0.9}", "<a --> a>. :|: {0.6 0.5}", "<c --> b>. :|: {0.9 0.6}", "<a --> b>. :|: {0.1 0.9}", "<(a * c) --> r>.", "<(c * c) --> r>. :|: {0.8 0.4}", "<b <-> c>. {0.9 0.3}", "1", "40" };
static const char *B[] = { "<a =/> b>. {0.8 0.6}", "<(a &/ ^left) =/> b>.", "<(c &/ ^right) =/> b>. {0.9 0.8}", "<(a &/ ^right) =/> c>. {0.3 0.9}", "<a =/> a>. {0.9 0.5}", "<(b &/ ^last) =/> a>. {1.0 0.95}", "<a =/> <a --> b>>. {0.7 0.7}", "a. :|:", "b. :|: {0.3 0.9}", "dt=5 <a =/> d>. {0.9 0.9}", "1", "^left. :|:" };
static const char *C[] = { "<a ==> b>. {0.9 0.6}", "<c ==> b>. {0.2 0.9}", "<a ==> c>.", "<<$1 --> a> ==> <$1 --> b>>. {0.9 0.7}", "<<$1 --> a> ==> <$1 --> c>>.", "<(a && c) ==> b>. {0.8 0.8}", "a. :|:", "<a ==> b>. {0.1 0.8}", "<d ==> b>. {0.95 0.5}", "1", "<b ==> b>. {0.6 0.6}" };
static void after(const char *l) { static char last[60000]; if(!fits_n) return; (void) last; ask(); }
int vf_main(void)
{
    vf_quiet(); vf_cap_begin(); Shell_NARInit(); MOTOR_BABBLING_CHANCE = 0;
    ex_feed("*setopname 1 ^left"); ex_feed("*setopname 2 ^right"); ex_feed("*setopname 3 ^last"); ex_feed("*volume=0");
    const char *names[] = { "a", "b", "c", "d", "r" }; for(int i=0; i<5; i++) Narsese_AtomicTermIndex((char*) names[i]); /* the cache below relies on fixed atom numbers */
    for(int i=1; i<=9; i++) for(int k=0; k<3; k++) { char v[3] = { "$#?"[k], (char) (48 + i), 0 }; Narsese_AtomicTermIndex(v); }
    for(unsigned q=0; q<sizeof QS/sizeof *QS; q++) QT[q] = t_read(QS[q]);
    fits_n = true; void *init = vf_snap_new(); ex_after = after;
    const struct { const char **a; int n; } AB[] = { { A, sizeof A/sizeof *A }, { B, sizeof B/sizeof *B }, { C, sizeof C/sizeof *C } };
    for(int i=0; i<3; i++)
    {
        vf_restore(init); ex_all(AB[i].a, AB[i].n, vf_thorough ? 5 : 4, "");
        vf_restore(init); for(int l=1; l<=(vf_thorough ? 3 : 2); l++) ex_periodic(AB[i].a, AB[i].n, l, 14, "");
    }
    return 0;
}
