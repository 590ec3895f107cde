/* Reference learner of temporal hypotheses: observations, successions, anticipations; compared with all hypotheses held. */
#define _GNU_SOURCE
static double decay = 0.8;
#define REF_DECAY decay
#include <dlfcn.h>
#include "belief.h"
#include "terms.h"
/* no semantic inference on the observations (P17): what is observed is then exactly what is put in */
void RuleTable_Apply(Term a, Term b, Truth ta, Truth tb, long co, double off, Stamp st, long now, double pp, double cp, bool dp, Concept *vc, long vid) {}
#define WINDOW 20
typedef struct { Term t; char name[100], bind[40]; bool var, op; int depth; RE spike; long created, sel; } MC;
typedef struct { Term t; char name[220], op[60]; int cons, opi, prec; RT truth; RS base; double dt; } MH;
#ifndef REFC
#define REFC 64
#define REFH 300
#define REFP 24
#endif
typedef struct { MC c[REFC]; int nc; short idx[400]; int ni; MH h[REFH]; int nh; struct { RE e; int c; } pend[REFP]; int np; } W;
static RE r_item(RT t, RS s, long time) { RE e = { true, t, s, time }; return e; }
static W w; static long learned, multi;
static bool isop(const char *n) { return *n == '^' || strstr(n, "--> ^"); }
static int opid(const char *n) { return strstr(n, "^left") ? 1 : strstr(n, "^right") ? 2 : 0; }
static int mc(const char *name, Term *t)
{
    for(int i=0; i<w.nc; i++) if(!strcmp(w.c[i].name, name)) return i;
    if(w.nc == REFC) { fprintf(stderr, "concepts\n"); abort(); }
    MC *c = &w.c[w.nc]; *c = (MC) {0}; snprintf(c->name, sizeof c->name, "%s", name); c->t = t ? *t : Narsese_Term((char*) name); c->op = isop(name); c->var = strchr(name, '$') != NULL; for(int i=1; i<COMPOUND_TERM_SIZE_MAX && c->t.atoms[i-1] == t_copatom('+'); i*=2) c->depth++; return w.nc++;
}
static void index_(int c) { if(w.ni < 400) w.idx[w.ni++] = c; else { fprintf(stderr, "index\n"); abort(); } }
/* false: beyond the term size limit */
static bool compound(char cop, Term *a, Term *b, Term *r) { *r = (Term) {0}; r->atoms[0] = t_copatom(cop); return Term_OverrideSubterm(r, 1, a) && Term_OverrideSubterm(r, 2, b); }
/* a was followed by b: the item a (an event or an event and an operation), b an event */
static void succession(RE a, const char *an, Term *at, int prec, int opi, RE b, int cons)
{
    if(prec == cons || r_overlap(&a.s, &b.s)) return;
    Term x; if(!compound('$', at, &w.c[cons].t, &x)) return;
    RT t = r_ind(b.t, r_proj(a.t, a.time, b.time)); if(t.c < 0.01) return;
    char name[220]; snprintf(name, sizeof name, "<%s =/> %s>", an, w.c[cons].name); double dt = b.time - a.time; t = r_etern(t); RS z = r_zip(&a.s, &b.s); learned++;
    for(int i=0; i<w.nh; i++) if(!strcmp(w.h[i].name, name))
    {
        MH *h = &w.h[i]; double w1 = r_c2w(h->truth.c), w2 = r_c2w(t.c); h->dt = (w1 * h->dt + w2 * dt) / (w1 + w2); h->truth = r_rev(h->truth, t); h->base = r_zip(&h->base, &z); multi++; return;
    }
    MH *h = &w.h[w.nh++]; if(w.nh > REFH - 1) { fprintf(stderr, "hyp\n"); abort(); }
    snprintf(h->name, sizeof h->name, "%s", name);     h->t = x; h->prec = prec; if(opi) { const char *o = strrchr(an, '/') + 2; snprintf(h->op, sizeof h->op, "%.*s", (int) strlen(o) - 1, o); } h->cons = cons; h->opi = opi; h->truth = t; h->base = z; h->dt = dt;
}
/* the value of $1 which makes the pattern the given statement */
static bool matches(const char *p, const char *s, char *bind)
{
    *bind = 0;
    while(*p)
    {
        if(*p != '$') { if(*p++ != *s++) return false; continue; }
        int n = 0, d = 0; for(; s[n] && (d || (s[n] != ' ' && s[n] != '>' && s[n] != ')' && s[n] != '}')); n++) d += (s[n] == '(' || s[n] == '<' || s[n] == '{') - (s[n] == ')' || s[n] == '>' || s[n] == '}');
        if(*bind) { if(n != (int) strlen(bind) || strncmp(s, bind, n)) return false; } else snprintf(bind, 40, "%.*s", n, s);
        s += n; p += 2;
    }
    return !*s;
}
static void instance(const char *p, const char *bind, char *out) { while(*p) { if(*p == '$' && *bind) { out += sprintf(out, "%s", bind); p += 2; } else *out++ = *p++; } *out = 0; }
static void experienced(int k, RE e, long now)
{
    for(int i=0; i<w.nc; i++)
    { /* the statement itself and the patterns it is an instance of */
        MC *c = &w.c[i]; char b[40] = ""; if(i != k && !(c->var && matches(c->name, w.c[k].name, b))) continue;
        c->sel = now; if(!c->spike.held || e.time > c->spike.time) { c->spike = e; c->created = now; strcpy(c->bind, b); }
    }
}
static int (*hook_seq)(MC *c, MC *k, RE s, long now); /* a sequence was experienced: what it implies by itself */
static void (*hook_done)(void);
static bool within(MC *c, RE e, int lim) { return labs(c->spike.time - e.time) <= lim && labs(c->sel - e.time) <= lim; }
static long anticipated;
/* the outcomes of hypotheses whose condition (and operation) occurred are anticipated: weak negative evidence */
static void anticipate(int opi, const char *op, long now)
{
    for(int i=0; i<w.nh && ANTICIPATION_CONFIDENCE > 0; i++)
    {
        MH *h = &w.h[i]; MC *c = &w.c[h->prec]; if(h->opi != opi || !c->spike.held || c->spike.time > now) continue;
        if(opi) { char b[40], o[100]; instance(h->op, c->bind, o); if(!(strchr(o, '$') ? matches(o, op, b) : !strcmp(o, op))) continue; }
        RT cond = opi ? r_int(r_proj(c->spike.t, c->spike.time, now), (RT) { 1, 0.9 }) : c->spike.t, out = r_ded(h->truth, cond);
        if(fabs(r_exp(out) - ANTICIPATION_THRESHOLD) < 1e-12) continue;
        if(!(r_exp(out) > ANTICIPATION_THRESHOLD || (out.c < 0.05 && out.f == 0))) continue;
        RT n = r_etern(r_ind((RT) { 0, ANTICIPATION_CONFIDENCE }, r_proj(c->spike.t, 0, lround(h->dt)))); h->truth = r_rev(h->truth, n); anticipated++;
    }
}
static void observe(int k, RE e, long now, double priority)
{
    if(now - e.time >= WINDOW) return;
    if(w.c[k].depth) index_(k); experienced(k, e, now);
    bool done[REFC] = {0}; bool op = w.c[k].op;
    for(int j=w.ni-1; j>=0 && !op; j--)
    {
        int o = w.idx[j]; MC *oc = &w.c[o]; if(done[o] || !oc->op) continue;
        done[o] = true; if(!oc->spike.held || oc->created >= now || oc->spike.time >= e.time || !within(oc, e, WINDOW - 1)) continue;
        for(int p=0; p<w.nc; p++)
        { /* every condition before the operation */
            MC *pc = &w.c[p]; bool indexed = false; for(int q=0; q<w.ni; q++) indexed |= w.idx[q] == p;
            if(!indexed || pc->op || !pc->spike.held || pc->created >= now || pc->spike.time >= oc->spike.time || !within(pc, e, WINDOW - 1) || r_overlap(&pc->spike.s, &e.s)) continue;
            RE s = r_item(r_int(r_proj(pc->spike.t, pc->spike.time, oc->spike.time), oc->spike.t), r_zip(&pc->spike.s, &oc->spike.s), oc->spike.time);
            if(s.t.c < 0.01) continue;
            char n[200]; snprintf(n, sizeof n, "(%s &/ %s)", pc->name, oc->name); Term t; if(!compound('+', &pc->t, &oc->t, &t)) continue;
            succession(s, n, &t, p, opid(oc->name), e, k);
        }
    }
    memset(done, 0, sizeof done);
    for(int r=0, j; (j = w.ni - 1 - r) >= 0; r++)
    { /* everything before or at the same time, the most recently used first */
        int i = w.idx[j]; MC *c = &w.c[i]; if(done[i]) continue;
        done[i] = true; if(!c->spike.held || c->created > now || !within(c, e, WINDOW) || c->spike.time > e.time || c->op || op || r_overlap(&c->spike.s, &e.s)) continue;
        RE a = c->spike, s = r_item(r_int(r_proj(a.t, a.time, e.time), e.t), r_zip(&a.s, &e.s), e.time); Term t; if(s.t.c < 0.01 || !compound('+', &c->t, &w.c[k].t, &t)) continue;
        succession(a, c->name, &c->t, i, 0, e, k);
        if(a.time == e.time) succession(e, w.c[k].name, &w.c[k].t, k, 0, a, i);
        if(c->depth < 2)
        {
            char n[100]; snprintf(n, sizeof n, "(%s &/ %s)", c->name, w.c[k].name); int q = mc(n, &t); index_(q); experienced(q, s, now); if(hook_seq) hook_seq(&w.c[i], &w.c[k], s, now);
        }
    }
    if(priority >= 1) anticipate(op ? opid(w.c[k].name) : 0, op ? w.c[k].name : "", now);
}
/* a hypothesis is told */
static void told(const char *l)
{
    double dt = 0, f = 1, cf = 0.9; if(!strncmp(l, "dt=", 3)) { dt = atof(l + 3); l = strchr(l, ' ') + 1; }
    if(strchr(l, '.')) { const char *t = strstr(l, ". {"); if(t) sscanf(t + 3, "%lf %lf", &f, &cf); }
    const char *im = strstr(l, " =/> "), *en = strstr(im, ">. ") ? strstr(im, ">. ") : im + strlen(im) - 2;
    char subj[200], cons[100], prec[200], op[60] = ""; snprintf(subj, sizeof subj, "%.*s", (int) (im - l - 1), l + 1); snprintf(cons, sizeof cons, "%.*s", (int) (en - im - 5), im + 5);
    strcpy(prec, subj); char *last = NULL; for(char *q = subj; (q = strstr(q, " &/ ")); q++) last = q;
    if(last && isop(last + 4)) { snprintf(op, sizeof op, "%.*s", (int) strlen(last + 4) - 1, last + 4); snprintf(prec, sizeof prec, "%.*s", (int) (last - subj - 1), subj + 1); }
    int c = mc(cons, NULL), p = mc(prec, NULL); char name[220]; snprintf(name, sizeof name, "<%s =/> %s>", subj, cons); RT t = { f, cf }; RS z = { { base }, 1 };
    for(int i=0; i<w.nh; i++) if(!strcmp(w.h[i].name, name)) { MH *h = &w.h[i]; double w1 = r_c2w(h->truth.c), w2 = r_c2w(t.c); h->dt = (w1 * h->dt + w2 * dt) / (w1 + w2); h->truth = r_rev(h->truth, t); h->base = r_zip(&h->base, &z); return; }
    MH *h = &w.h[w.nh++]; *h = (MH) {0}; strcpy(h->name, name); strcpy(h->op, op); h->t = Narsese_Term(name); h->cons = c; h->prec = p; h->opi = *op ? opid(op) : 0; h->truth = t; h->base = z; h->dt = dt;
}
static bool all; /* hypotheses with variables are compared as well */
static void compare(void)
{
    int held = 0;
    for(int i=0; i<concepts.itemsAmount; i++)
    {
        Concept *c = concepts.items[i].address;
        for(int o=0; o<=OPERATIONS_MAX; o++) for(int j=0; j<c->precondition_beliefs[o].itemsAmount; j++)
        {
            Implication *m = &c->precondition_beliefs[o].array[j]; MH *h = NULL; if(!all && (m->truth.confidence == 0 || Variable_hasVariable(&m->term, true, true, true))) continue; /* P16, P22 */
            held++;
            for(int q=0; q<w.nh && !h; q++) if(!memcmp(w.h[q].t.atoms, m->term.atoms, sizeof m->term.atoms)) h = &w.h[q];
            VF_CHECK(h, "the hypothesis %s is held {%g %g}, which was not experienced", t_str(t_dec(&m->term, 1)), m->truth.frequency, m->truth.confidence);
            VF_CHECK(Term_Equal(&c->term, &w.c[h->cons].t) && o == h->opi, "%s is held elsewhere", h->name);
            VF_CHECK(r_near(m->truth.frequency, h->truth.f) && r_near(m->truth.confidence, h->truth.c), "%s is held with {%.9g %.9g} instead of {%.9g %.9g}", h->name, m->truth.frequency, m->truth.confidence, h->truth.f, h->truth.c);
            VF_CHECK(fabs(m->occurrenceTimeOffset - h->dt) < 1e-6, "%s is held with the interval %g instead of %g", h->name, m->occurrenceTimeOffset, h->dt);
            RS b = b_stamp(&m->stamp); VF_CHECK(r_samebase(&b, &h->base), "%s is held with other evidence", h->name); vf_stats.validated++;
        }
    }
    if(held != w.nh) for(int q=0; q<w.nh; q++)
    {
        Concept *c = Memory_FindConceptByTerm(&w.c[w.h[q].cons].t); bool f = false;
        for(int j=0; c && j<c->precondition_beliefs[w.h[q].opi].itemsAmount; j++) f |= !memcmp(w.h[q].t.atoms, c->precondition_beliefs[w.h[q].opi].array[j].term.atoms, sizeof w.h[q].t.atoms);
        VF_CHECK(f, "%s {%g %g} was experienced but is not held", w.h[q].name, w.h[q].truth.f, w.h[q].truth.c);
    }
}
static void aftercycle(long now)
{
    for(int b=0; b<beliefsSelectedCnt; b++)
    {
        Event *s = &selectedBeliefs[b]; RE e = b_item(s); if(e.time == REF_ETERNAL) continue;
        int k = -1; for(int i=0; i<w.nc; i++) if(!memcmp(w.c[i].t.atoms, s->term.atoms, sizeof s->term.atoms)) k = i;
        int p = -1; for(int i=0; i<w.np; i++) if(w.pend[i].c == k && b_same(&w.pend[i].e, &e)) p = i;
        VF_CHECK(p >= 0, "the event %s is taken for an observation", t_str(t_dec(&s->term, 1)));
        w.pend[p] = w.pend[--w.np]; observe(k, e, now, selectedBeliefsPriority[b]);
    }
}
#define REAL(f, ...) ({ static __typeof__(&f) r; if(!r) r = (__typeof__(&f)) dlsym(RTLD_NEXT, #f); r(__VA_ARGS__); })
/* observations (including those of the system's own executions) and the steps which process them, nested ones included */
static bool on, own; static long fedback;
void Memory_AddEvent(Event *e, long now, double p, bool in, bool derived, bool revised, int layer)
{
    if(on && (in || own) && e->type == EVENT_TYPE_BELIEF && e->occurrenceTime != OCCURRENCE_ETERNAL)
    {
        char n[100]; snprintf(n, sizeof n, "%s", t_str(t_dec(&e->term, 1))); RE x = b_item(e); int k = mc(n, NULL); bool pooled; MC *c = &w.c[k];
        VF_CHECK((x.time == now || own) && now == currentTime, "the observation %s is dated %ld at time %ld", n, x.time, currentTime);
        c->spike = r_merge(c->spike, x, true, &pooled); c->created = now; index_(k); if(w.np == REFP) abort(); w.pend[w.np].e = x; w.pend[w.np++].c = k; fedback += c->op;
    }
    REAL(Memory_AddEvent, e, now, p, in, derived, revised, layer);
}
void Cycle_ProcessBeliefEvents(long now) { if(on) aftercycle(now); REAL(Cycle_ProcessBeliefEvents, now); if(on && hook_done) hook_done(); }
static bool late;
static void input(const char *l)
{
    ex_pl += sprintf(ex_path + ex_pl, "%s | ", l); vf_desc("%s", ex_path); vf_stats.transitions++;
    char b[20]; on = true;
    if(*l >= '0' && *l <= '9') for(int i=0; i<atoi(l); i++) { strcpy(b, "1"); ex_feed(b); }
    else if(*l == '~')
    { /* an observation obtained by inference: some steps old, processed when its turn comes */
        char n[20]; int lag; sscanf(l, "~%s %d", n, &lag); if(currentTime - lag < 1) lag = currentTime - 1;
        Event e = Event_InputEvent(Narsese_Term(n), EVENT_TYPE_BELIEF, (Truth) { 0.9, 0.8 }, 0, currentTime); e.occurrenceTime -= lag;
        own = true; Memory_AddEvent(&e, currentTime, lag == 3 ? 0.9 : 1, false, true, false, 0); own = false; late = true;
    }
    else { if(all && strstr(l, "=/>") && !strchr(l, '|') && !strchr(l, '?')) told(l); ex_feed(l); }
    on = false; VF_CHECK(late || w.np == 0, "the observation %s was not processed in its step", w.c[w.pend[0].c].name);
    compare();
}
static void *sn[24]; static W ws[24];
static void rec(int d, int max, const char **A, int n)
{
    if(d == max) return;
    if(!sn[d]) sn[d] = vf_snap_new(); else vf_snap(sn[d]);
    ws[d] = w; int pl = ex_pl;
    for(int a=0; a<n; a++)
    {
        if(d == 2 && !vf_case()) continue;
        ex_pl = pl; ex_path[pl] = 0; long l0 = all ? anticipated : learned;
        input(A[a]); if(d >= 2) { vf_stats.states++; vf_stats.nontrivial += (all ? anticipated : learned) > l0; if(vf_stats.states % 9973 == 7) vf_sample("%s: %d hypotheses", ex_path, w.nh); }
        rec(d + 1, max, A, n); vf_restore(sn[d]); w = ws[d];
    }
    ex_pl = pl; ex_path[pl] = 0;
}
