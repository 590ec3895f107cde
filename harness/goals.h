/* Monitor of goal processing: whenever a goal is taken from a goal buffer, the decision and the subgoals which the knowledge held
 * at that moment licenses are computed by the reference below; what the reasoner then does until it takes the next item is
 * compared. Reads only what is held (concepts, hypotheses, current events); everything else is defined here. */
#define _GNU_SOURCE
#include <dlfcn.h>
#include "belief.h"
#include "unify.h"
#define REAL(f, ...) ({ static __typeof__(&f) r; if(!r) r = (__typeof__(&f)) dlsym(RTLD_NEXT, #f); r(__VA_ARGS__); })
static bool chk_exec, chk_args, chk_sub;              /* P23, P24, P25 */
static bool unseen; static long n_stale, n_full, n_exec, n_noexec, n_sub, n_seq, n_babble, n_inhib, n_neg;
/* trees of terms (kept) and of substituted terms (until the next goal) */
static struct { uint64_t h; N *n; int v; } tc[1<<19];
static int vars_(N *n) { return !n ? 0 : n->cop ? vars_(n->l) | vars_(n->r) : t_isvar(n->name) ? (n->name[0] == '$' ? 1 : n->name[0] == '#' ? 2 : 4) : 0; }
static N *tree(const Term *t) { uint64_t h = vf_hash(t->atoms, sizeof t->atoms, 5) | 1; for(unsigned i=h>>8, k=0;; i++, k++) { i &= (1<<19)-1; if(k == 1<<19) { fprintf(stderr, "trees\n"); abort(); } if(tc[i].h == h) return tc[i].n; if(!tc[i].h) { tc[i].h = h; return tc[i].n = t_dec((Term*) t, 1); } } }
static N ar[1<<18]; static int arn;
static N *sub(N *g, N **e) { if(!g) return NULL; if(!g->cop) return t_isvar(g->name) && e[vid(g->name)] ? e[vid(g->name)] : g; if(!vars_(g)) return g; if(arn >= (1<<18)) { fprintf(stderr, "arena\n"); abort(); } N *n = &ar[arn++]; *n = (N) { .cop = g->cop, .l = sub(g->l, e), .r = sub(g->r, e) }; return n; }
static int size_(N *n, int i) { if(!n) return 0; int m = i; if(n->cop) { int a = size_(n->l, 2*i), b = size_(n->r, 2*i+1); m = a > b ? a : b; if(2*i+1 > m && n->cop != 0) m = 2*i+1; } return m; }
static bool fits(N *n) { return size_(n, 1) <= COMPOUND_TERM_SIZE_MAX; }
static bool is_op(N *n) { return n && ((!n->cop && n->name[0] == '^') || (n->cop == ':' && n->l && n->l->cop == '*' && n->l->l && n->l->l->cop == '"' && n->r && !n->r->cop && n->r->name[0] == '^')); }
static const char *op_name(N *n) { return n->cop ? n->r->name : n->name; }
static int op_id(const char *name) { for(int i=0; i<OPERATIONS_MAX; i++) if(operations[i].term.atoms[0] && !strcmp(Narsese_atomNames[operations[i].term.atoms[0]-1], name)) return i + 1; return 0; }
static int n_ops(void) { int n = 0; while(n < OPERATIONS_MAX && operations[n].term.atoms[0]) n++; return n; }
/* ((c + op1) + op2): condition c, operations in order */
static N *split(N *l, N **ops, int *n) { *n = 0; N *r[8]; while(l && l->cop == '+' && is_op(l->r)) { r[(*n)++] = l->r; l = l->l; } for(int i=0; i<*n; i++) ops[i] = r[*n-1-i]; return l; }
static bool self(N *op) { return !op->cop || (op->l->l->l && !op->l->l->l->cop && !strcmp(op->l->l->l->name, "SELF")); }
typedef struct { N *op[8]; int n; int id; double desire; N *spec; bool missing, seen; RT mt, st, ht; RS hs; } Cand;
static Cand cand[8000]; static int ncand;
typedef struct { N *t; RE e; } Sub; static Sub alt[8][800]; static int nsub[8], nalts;   /* alternatives of the expected subgoals */
static bool valid(Implication *i) { return ((Concept*) i->sourceConcept)->id == i->sourceConceptId; }
static RT tr(const Truth *t) { return (RT) { t->frequency, t->confidence }; }
static bool goalspike(Concept *c, RE *e) { if(c->goal_spike.type == EVENT_TYPE_DELETED) return false; *e = b_item(&c->goal_spike); return true; }
/* concepts are found by the atoms they have in common with the goal */
static bool has_leaf(N *t, const char *n) { return t && (t->cop ? has_leaf(t->l, n) || has_leaf(t->r, n) : !strcmp(t->name, n)); }
static bool shares(N *a, N *b) { return b && (b->cop ? shares(a, b->l) || shares(a, b->r) : has_leaf(a, b->name)); }
static struct { Concept *c; N *gt; } rel[200]; static int nrel;
static RE goal; static N *gterm;
static bool known(Concept *c, N *impl, int o) { for(int z=0; z<c->precondition_beliefs[o].itemsAmount; z++) if(t_eq(tree(&c->precondition_beliefs[o].array[z].term), impl)) return true; return false; }
static bool truth_of(Concept *c, N *impl, int o, RT *t) { for(int z=0; z<c->precondition_beliefs[o].itemsAmount; z++) { Implication *x = &c->precondition_beliefs[o].array[z]; if(t_eq(tree(&x->term), impl)) { *t = (RT) { x->truth.frequency, x->truth.confidence }; return true; } } return false; }
static Concept *concept_of(N *t) { for(int x=0; x<concepts.itemsAmount; x++) if(t_eq(tree(&((Concept*) concepts.items[x].address)->term), t)) return concepts.items[x].address; return NULL; }
/* what is known to follow from doing this for the present goals: false if it is rather unwanted */
static bool acceptable(Cand *k, int self_, int mode)
{
    RE acc = {0}; N *at = NULL; long now = currentTime; bool any = false;
    for(int i=0; i<concepts.itemsAmount; i++)
    {
        Concept *c = concepts.items[i].address; RE gs = {0}; goalspike(c, &gs); bool upd = false;
        for(int r=0; r<nrel; r++) if(rel[r].c == c && (mode || r == self_)) upd = !gs.held || goal.time > gs.time;
        if(upd) gs = goal;
        if(!gs.held || now - gs.time >= 20) continue;
        for(int j=0; j<c->precondition_beliefs[k->id].itemsAmount; j++)
        {
            Implication *m = &c->precondition_beliefs[k->id].array[j]; if(!valid(m)) { n_stale++; continue; }
            Event *sp = &((Concept*) m->sourceConcept)->belief_spike; if(sp->type == EVENT_TYPE_DELETED || now - sp->occurrenceTime >= 20) continue;
            N *ops[8]; int n; N *pre = split(tree(&m->term)->l, ops, &n); bool same = n == k->n; for(int q=0; q<n && same; q++) same = t_eq(ops[q], k->op[q]);
            if(!same) continue;
            RE s = b_item(sp), x = { .held = true, .time = now }; RS is = b_stamp(&m->stamp), z = r_zip(&gs.s, &is);
            x.t = r_gded(r_gded(gs.t, tr(&m->truth)), r_proj(s.t, s.time, now)); x.s = r_zip(&s.s, &z); bool p; any = true;
            bool dep = (pre->cop == ';' || pre->cop == '+') && (vars_(pre) & 2);
            if(!acc.held) { acc = x; at = pre; } else { bool eq = t_eq(at, pre); RE o = acc; acc = r_merge(acc, x, eq && !dep, &p); if(!p && !b_same(&acc, &o)) at = pre; }
        }
    }
    if(!any) return true;
    if(r_exp(acc.t) < 0.5) n_neg++;
    return r_exp(acc.t) >= 0.5;
}
/* another hypothesis about this goal whose condition is closer to what is observed */
static long n_near, n_closer;
static bool closer(Concept *c, N *pt, double f)
{
    for(int o=1; o<=n_ops(); o++) for(int j=0; j<c->precondition_beliefs[o].itemsAmount; j++)
    {
        Implication *m = &c->precondition_beliefs[o].array[j]; N *ops[8]; int n; double f2; if(!valid(m)) continue;
        if(unify_near(split(tree(&m->term)->l, ops, &n), pt, &f2) && f2 > f + 1e-12) return true;
    }
    return false;
}
/* all operations a hypothesis with present condition leads from to the goal */
static void candidates(int mode)
{
    ncand = 0;
    for(int r=0; r<nrel; r++) for(int o=1; o<=n_ops(); o++)
    {
        Concept *c = rel[r].c;
        for(int j=0; j<c->precondition_beliefs[o].itemsAmount; j++)
        {
            Implication *m = &c->precondition_beliefs[o].array[j]; if(!valid(m)) continue;
            N *it = tree(&m->term), *e[40]; if(!unify(tree(&c->term), rel[r].gt)) continue;
            memcpy(e, env, sizeof e); N *t1 = sub(it, e), *ops[8]; int n; if(!fits(t1)) continue;
            N *pre = split(t1->l, ops, &n);
            for(int q=0; q<concepts.itemsAmount; q++)
            {
                Concept *p = concepts.items[q].address; N *pt = tree(&p->term); double f; if(p->belief_spike.type == EVENT_TYPE_DELETED || vars_(pt) || !unify_near(pre, pt, &f)) continue;
                memcpy(e, env, sizeof e); if(f < 1 && closer(c, pt, f)) { n_closer++; continue; } N *t2 = sub(t1, e); if(!fits(t2)) continue;
                if(vars_(rel[r].gt) && vars_(tree(&c->term)) && (vars_(t2) & 1)) continue;
                Cand k = { .id = o, .spec = t2, .ht = tr(&m->truth), .hs = b_stamp(&m->stamp) }; split(t2->l, k.op, &k.n); bool ok = true; for(int z=0; z<k.n; z++) ok &= self(k.op[z]) && op_id(op_name(k.op[z]));
                if(!ok) continue;
                if(vars_(it))
                { /* the instance is held and known to fail */
                    bool inhibited = false;
                    for(int x=0; x<concepts.itemsAmount; x++) { Concept *y = concepts.items[x].address; if(t_eq(tree(&y->term), t2->r)) for(int z=0; z<y->precondition_beliefs[o].itemsAmount; z++) { Implication *w = &y->precondition_beliefs[o].array[z]; if(t_eq(tree(&w->term), t2) && w->truth.confidence > 0.05 && w->truth.frequency < 0.5) inhibited = true; } }
                    if(inhibited) { n_inhib++; continue; }
                }
                RE s = b_item(&p->belief_spike); if(f < 1) { s.t.c *= f; n_near++; } k.desire = r_exp(r_gded(r_gded(goal.t, tr(&m->truth)), r_proj(s.t, s.time, currentTime)));
                if(!acceptable(&k, r, mode)) continue;
                if(vars_(it)) { Concept *y = concept_of(t2->r); k.missing = !y || !known(y, t2, o); RT ps = r_proj(tr(&p->belief_spike.truth), 0, labs((long) round(m->occurrenceTimeOffset))); k.mt = r_etern(r_ind((RT) { 0, ANTICIPATION_CONFIDENCE }, ps)); }
                if(ncand < 8000) cand[ncand++] = k; else { fprintf(stderr, "candidates\n"); abort(); }
            }
        }
    }
}
/* the first component of a desired sequence which is not fulfilled */
static void sequence(N *g)
{
    N *comp[8]; int n = 0; N *t = g, *rv[8]; while(t->cop == '+') { rv[n++] = t->r; t = t->l; } rv[n++] = t; for(int i=0; i<n; i++) comp[i] = rv[n-1-i];
    RE e = goal; e.t = r_proj(goal.t, goal.time, currentTime); e.time = currentTime;
    void go(int k, N **cm, RE e, long last)
    {
        struct { Concept *c; N *env[40]; double x; } b[64]; int nb = 0; double best = 0; bool edge = false;
        for(int i=0; i<concepts.itemsAmount; i++)
        {
            Concept *c = concepts.items[i].address; N *ct = tree(&c->term); if(vars_(ct) || c->belief_spike.type == EVENT_TYPE_DELETED || !shares(ct, cm[k]) || !unify(cm[k], ct)) continue;
            RE s = b_item(&c->belief_spike); if(s.time < last) continue;
            double x = r_exp(r_proj(s.t, s.time, currentTime)); edge |= fabs(x - CONDITION_THRESHOLD) < 1e-9; if(x < CONDITION_THRESHOLD) continue;
            b[nb].c = c; memcpy(b[nb].env, env, sizeof env); b[nb++].x = x; if(x > best) best = x;
        }
        if(edge) { chk_sub ? (nalts = -1) : 0; return; }
        if(nb == 0)
        {
            RE r = e; if(k == 0) r.t = r_str(r.t);
            if(nalts >= 0 && nalts < 8) { nsub[nalts] = 1; alt[nalts][0].t = cm[k]; alt[nalts++][0].e = r; } return;
        }
        for(int i=0; i<nb && nalts >= 0; i++) if(b[i].x >= best - 1e-12)
        {
            if(k == n - 1) { if(nalts < 8) nsub[nalts++] = 0; continue; }
            RE s = b_item(&b[i].c->belief_spike), r = { .held = true, .time = currentTime }; r.t = r_gded(e.t, r_proj(s.t, s.time, currentTime)); r.s = r_zip(&s.s, &e.s);
            N *nx[8]; for(int q=0; q<n; q++) nx[q] = sub(cm[q], b[i].env);
            go(k + 1, nx, r, s.time);
        }
    }
    nalts = 0; go(0, comp, e, -1); n_seq++;
}
static void subgoals(void)
{
    for(int i=0; i<concepts.itemsAmount; i++)
    {
        Concept *c = concepts.items[i].address; N *ct = tree(&c->term); if(!shares(ct, gterm) || !unify(ct, gterm)) continue;
        RE gs = {0}; goalspike(c, &gs); N *gst = gs.held ? tree(&c->goal_spike.term) : NULL; bool p;
        for(int r=0; r<nrel; r++) if(rel[r].c == c && (!gs.held || goal.time > gs.time)) { gs = goal; gst = rel[r].gt; }
        bool dep = (gterm->cop == ';' || gterm->cop == '+') && (vars_(gterm) & 2), eq = gs.held && t_eq(gst, gterm); RE o = gs;
        if(gs.held && gs.time != goal.time) { long lt = gs.time > goal.time ? gs.time : goal.time; if(fabs(r_proj(gs.t, gs.time, lt).c - r_proj(goal.t, goal.time, lt).c) < 1e-9) { nalts = -1; return; } } /* equally strong after rounding: either */
        gs = r_merge(gs, goal, eq && !dep, &p); if(!p && !b_same(&gs, &o)) gst = gterm;
        for(int o=0; o<=OPERATIONS_MAX+1; o++)
        {
            Table *tb = o > OPERATIONS_MAX ? &c->implication_links : &c->precondition_beliefs[o];
            for(int j=0; j<tb->itemsAmount; j++)
            {
                Implication *m = &tb->array[j]; N *it = tree(&m->term), *ops[8]; int n; if(!valid(m) || !unify(it->r, gst)) continue;
                N *e[40]; memcpy(e, env, sizeof e); N *t = sub(it, e); if(!fits(t)) continue;
                RS is = b_stamp(&m->stamp); Sub x = { .t = split(t->l, ops, &n), .e = { true, r_gded(gs.t, tr(&m->truth)), r_zip(&gs.s, &is), currentTime } };
                for(int a=0; a<nalts; a++) if(nsub[a] < 800) alt[a][nsub[a]++] = x; else abort();
            }
        }
    }
}
/* ------------------------------------------------------------------------------------------------------------------------- */
static bool on_, open_; static int glayer; static double gprio;
static Sub got[800]; static int ngot; static struct { char name[32]; N *args, *env[40]; long time; } done_[8]; static int ndone; static bool fb_due, fb_bad; static char fb_term[200]; static bool failop; static int failat; static N *senv[40]; static const char *stdin_text; static bool stopped;
static bool babble; static int nrand, depth;
static Cand best[2][64]; static struct { char name[32]; N *args; } log_[64]; static int nlog; static long n_printed; static long n_same; static long n_stdin, n_miss, n_fb; static RT missx; static int nbest[2]; static bool none[2]; static double bd[2];
static char ops_s[8][200];
static const char *cshow(Cand *k) { static char b[4][400]; static int i; char *p = b[i++ & 3], *q = p; *p = 0; for(int z=0; z<k->n; z++) q += sprintf(q, z ? " then %s" : "%s", t_str(k->op[z])); return p; }
static void (*hook_open)(void), (*hook_op)(void);                     /* a goal is taken up; the first operation is about to be called */
static void opened(Event *e, int layer, double prio)
{
    if(hook_open) hook_open();
    open_ = true; if(!depth) arn = 0; stopped = false; memset(senv, 0, sizeof senv); ngot = ndone = 0; goal = b_item(e); gterm = tree(&e->term); glayer = layer; gprio = prio; babble = false; nrand = 0; nrel = 0; nalts = 0;
    nbest[0] = nbest[1] = 0; none[0] = none[1] = true; bd[0] = bd[1] = 0;
    if(gterm->cop == '+') { sequence(gterm); if(nalts > 0) subgoals(); return; }
    int gv = vars_(gterm); bool have = false;
    for(int i=0; i<concepts.itemsAmount; i++)
    {
        Concept *c = concepts.items[i].address; N *ct = tree(&c->term); have |= t_eq(ct, gterm); if(!shares(ct, gterm)) continue;
        if(nrel > 190) abort();
        if((!gv || (gv & 4)) && unify(ct, gterm)) { rel[nrel].c = c; rel[nrel++].gt = gterm; }
        if(gv && unify(gterm, ct)) { N *ev[40]; memcpy(ev, env, sizeof ev); rel[nrel].c = c; rel[nrel++].gt = sub(gterm, ev); }
    }
    if(!have) { rel[nrel].c = NULL; rel[nrel++].gt = gterm; } /* becomes a concept */
    int nr = nrel; if(!have) nrel--;
    if(!have && concepts.itemsAmount == CONCEPTS_MAX) { open_ = false; unseen = true; n_full++; return; } /* takes the place of another concept */
    for(int m=0; m<2; m++)
    {
        candidates(m); double mx = 0; bool e1 = false; for(int i=0; i<ncand; i++) { if(cand[i].desire > mx) mx = cand[i].desire; }
        e1 = fabs(mx - DECISION_THRESHOLD) < 1e-9; bd[m] = mx; none[m] = ncand == 0 || mx < DECISION_THRESHOLD || e1;
        if(ncand && (mx >= DECISION_THRESHOLD || e1)) for(int i=0; i<ncand; i++) if(cand[i].desire > mx - 1e-9 && nbest[m] < 64) best[m][nbest[m]++] = cand[i];
    }
    nalts = 1; nsub[0] = 0; subgoals(); nrel = nr;
}
static bool asdone(Cand *k)
{
    if(k->n != ndone && !(stopped && ndone < k->n)) return false;
    for(int z=0; z<ndone; z++) { N *o = k->op[z]; if(strcmp(op_name(o), done_[z].name)) return false; if(chk_args && !(o->cop ? done_[z].args && t_eq(sub(o->l, done_[z].env), done_[z].args) : !done_[z].args)) return false; }
    return true;
}
static int babbleable(int d, bool args)
{ /* registered, not excluded, with its own arguments */
    int o = op_id(done_[d].name), n = n_ops(); if(BABBLING_OPS < n) n = BABBLING_OPS; if(!o || o > n) return 0;
    if(!args) return 1;
    bool any = false, ok = false;
    for(int i=0; i<OPERATIONS_BABBLE_ARGS_MAX && operations[o-1].arguments[i].atoms[0]; i++) { any = true; N *a = done_[d].args; ok |= a && a->cop == '*' && a->l->cop == '"' && !a->l->l->cop && !strcmp(a->l->l->name, "SELF") && !a->l->r && t_eq(a->r, tree(&operations[o-1].arguments[i])); }
    return any ? ok : !done_[d].args;
}
static uint64_t babbled;
static void closed(void)
{
    if(!open_) return;
    open_ = false; char what[500] = "nothing"; if(ndone) { char *p = what; for(int z=0; z<ndone; z++) p += sprintf(p, "%s%s%s%s", z ? " then " : "", done_[z].name, done_[z].args ? " with " : "", done_[z].args ? t_str(done_[z].args) : ""); }
    const char *g = t_str(gterm);
    if(ndone && chk_args) VF_CHECK(!fb_due && !fb_bad, "the execution %s was not followed by the observation of it", what);
    if(gterm->cop == '+') VF_CHECK(!ndone, "%s was executed for the sequence goal %s", what, g);
    else if(chk_exec || chk_args)
    {
        bool ok = false; int nb = n_ops() < BABBLING_OPS ? n_ops() : BABBLING_OPS;
        for(int m=0; m<2 && !ok; m++)
        {
            bool rb = false; for(int i=0; i<nbest[m]; i++) rb |= asdone(&best[m][i]);
            if(!babble || nb <= 0) ok = ndone ? rb : none[m];
            else if(nrel == 1) ok = ndone && (nbest[m] && bd[m] > 0.55 + 1e-9 ? rb : nbest[m] && bd[m] > 0.55 - 1e-9 ? rb || (ndone == 1 && babbleable(0, chk_args)) : ndone == 1 && babbleable(0, chk_args));
            else ok = ndone && (rb || (ndone == 1 && babbleable(0, chk_args)));
        }
        if(!ok)
        {
            char w[1200] = "nothing is to be done"; if(nbest[0]) { char *p = w; for(int i=0; i<nbest[0] && i<3; i++) p += sprintf(p, "%s%s by %s", i ? " or " : "", cshow(&best[0][i]), t_str(best[0][i].spec)); sprintf(p, " is due with desire %.9g", bd[0]); }
            if(babble) strcat(w, ", or exploration");
            vf_fail("goal %s %s at time %ld: %s was executed, but %s (threshold %g)", g, b_show(&goal), currentTime, what, w, DECISION_THRESHOLD);
        }
        if(chk_args && ndone && !babble && !stopped)
        { /* an instance not experienced before is taken to fail until it is */
            bool fine = false; Cand *w = NULL;
            for(int m=0; m<2 && !fine; m++) for(int i=0; i<nbest[m] && !fine; i++) if(asdone(&best[m][i]))
            {
                w = &best[m][i];
                if(!w->missing)
                {
                    Concept *y = concept_of(w->spec->r); RT t; fine = true;
                    if(w->seen && glayer < CYCLING_GOAL_EVENTS_LAYERS-1 && y && truth_of(y, w->spec, w->id, &t)) { n_same++; VF_CHECK(r_near(t.f, w->st.f) && r_near(t.c, w->st.c), "the instance %s is experienced, but the execution of %s itself changed it from {%g %g} to {%g %g}", t_str(w->spec), what, w->st.f, w->st.c, t.f, t.c); }
                    break;
                }
                Concept *y = concept_of(w->spec->r); if(!y) continue;
                for(int z=0; z<y->precondition_beliefs[w->id].itemsAmount; z++) { Implication *x = &y->precondition_beliefs[w->id].array[z]; if(t_eq(tree(&x->term), w->spec)) { fine |= x->truth.frequency == 0 && r_near(x->truth.confidence, w->mt.c); missx = tr(&x->truth); } }
                if(!known(y, w->spec, w->id)) { Table *tb = &y->precondition_beliefs[w->id]; if(tb->itemsAmount == TABLE_SIZE && r_exp(tr(&tb->array[TABLE_SIZE-1].truth)) >= r_exp((RT) { 0, w->mt.c }) - 1e-9) { fine = true; break; } }
                if(fine) { n_miss++; for(int q=0; q<=OPERATIONS_MAX; q++) if(q != w->id) VF_CHECK(!known(y, w->spec, q), "the hypothesis %s is held among those of another operation", t_str(w->spec)); }
            }
            if(!fine && w) vf_fail("%s was executed by a general hypothesis, but the instance %s is not held as failing with {0 %.9g} ({%g %.9g})", what, t_str(w->spec), w->mt.c, missx.f, missx.c);
        }
        if(babble && ndone) { n_babble++; babbled |= 1ull << op_id(done_[0].name); }
        if(ndone) n_exec++; else n_noexec++;
        vf_stats.validated++;
    }
    if(chk_sub && nalts >= 0)
    {
        if(ndone) { VF_CHECK(ngot == 0, "the subgoal %s was derived though an operation was executed", t_str(got[0].t)); return; }
        bool ok = false; Sub *miss = NULL, *extra = NULL;
        for(int a=0; a<nalts && !ok; a++)
        {
            bool u[800] = {0}, good = true;
            for(int i=0; i<nsub[a]; i++) { int k; for(k=0; k<ngot; k++) if(!u[k] && t_eq(got[k].t, alt[a][i].t) && b_same(&got[k].e, &alt[a][i].e)) break; if(k < ngot) u[k] = true; else if(alt[a][i].e.t.c > 0) { good = false; miss = &alt[a][i]; } }
            for(int k=0; k<ngot; k++) if(!u[k]) { good = false; extra = &got[k]; }
            ok = good;
        }
        if(!ok) vf_fail("goal %s %s at time %ld: %s%s%s%s%s%s", g, b_show(&goal), currentTime, miss ? "expected subgoal " : "", miss ? t_str(miss->t) : "", miss ? b_show(&miss->e) : "", extra ? " derived subgoal " : "", extra ? t_str(extra->t) : "", extra ? b_show(&extra->e) : "");
        n_sub += ngot; vf_stats.validated++;
    }
}
/* ---- observation ---------------------------------------------------------------------------------------------------------- */
bool PriorityQueue_PopMax(PriorityQueue *q, void **a, double *p)
{
    if(!on_) return REAL(PriorityQueue_PopMax, q, a, p);
    closed(); fb_due = fb_bad = unseen = false; double pr = 0; bool r = REAL(PriorityQueue_PopMax, q, a, &pr); if(p) *p = pr;
    if(r) for(int l=0; l<CYCLING_GOAL_EVENTS_LAYERS; l++) if(q == &cycling_goal_events[l]) opened(*a, l, pr);
    return r;
}
/* the step which follows an execution happens inside of the pursuit of the goal */
#define FRAME X(open_) X(unseen) X(fb_due) X(fb_bad) X(stopped) X(babble) X(goal) X(gterm) X(glayer) X(gprio) X(nrel) X(rel) X(ngot) X(got) X(ndone) X(done_) X(senv) X(fb_term) X(nrand) X(best) X(nbest) X(none) X(bd) X(nsub) X(nalts) X(alt)
void Cycle_Perform(long now)
{
    if(!on_ || (!open_ && !unseen)) { REAL(Cycle_Perform, now); return; }
#define X(v) + sizeof v
    size_t n = 0 FRAME; char *f = malloc(n), *p = f;
#undef X
#define X(v) memcpy(p, &v, sizeof v); p += sizeof v;
    FRAME open_ = fb_due = unseen = false; depth++;
#undef X
    REAL(Cycle_Perform, now); closed(); depth--; p = f; bool recorded = chk_args;
#define X(v) memcpy(&v, p, sizeof v); p += sizeof v;
    FRAME free(f);
#undef X
    for(int m=0; recorded && m<2; m++) for(int i=0; i<nbest[m]; i++) if(!best[m][i].missing && best[m][i].spec) { Cand *w = &best[m][i]; Concept *y = concept_of(w->spec->r); w->seen = y && truth_of(y, w->spec, w->id, &w->st); }
}
static N *gtree(const Term *t) { return t->atoms[0] ? tree(t) : NULL; }
static Term fbt(N *o) { return (Term) {0}; }
static Feedback run_(const char *name, Term args)
{
    bool fail = failop || (failat && ndone + 1 == failat);
    if(on_ && nlog < 64) { snprintf(log_[nlog].name, 32, "%s", name); log_[nlog++].args = args.atoms[0] ? tree(&args) : NULL; }
    if(on_ && open_ && ndone < 8)
    {
        snprintf(done_[ndone].name, 32, "%s", name); done_[ndone].args = gtree(&args); done_[ndone].time = currentTime; memcpy(done_[ndone].env, senv, sizeof senv); N *a = done_[ndone].args; if(!ndone && hook_op) hook_op();
        if(fb_due || stopped) fb_bad = true;
        fb_due = !fail; stopped = fail; int id = op_id(name);
        if(fb_due && id && operations[id-1].stdinOutput)
        { /* what it returned is given to it from outside */
            N *res = NULL; if(stdin_text) { t_pp = stdin_text; res = t_read0(); }
            if(!res || !a || !unify(a->r, res)) { fb_due = false; stopped = true; }
            else { for(int v=0; v<40; v++) { senv[v] = senv[v] ? sub(senv[v], env) : NULL; if(!senv[v]) senv[v] = env[v]; } a = sub(a, env); n_stdin++; }
        }
        if(a) snprintf(fb_term, sizeof fb_term, "<%s --> %s>", t_str(a), name); else strcpy(fb_term, name); ndone++;
    }
    else if(on_ && !unseen) vf_fail("%s was executed outside of the pursuit of a goal", name);
    return (Feedback) { .failed = fail };
}
static Feedback op0(Term a) { return run_("^left", a); }
static Feedback op1(Term a) { return run_("^right", a); }
static Feedback op2(Term a) { return run_("^up", a); }
static int held_goal(Event *e)
{
    for(int l=0; l<CYCLING_GOAL_EVENTS_LAYERS; l++) for(int i=0; i<cycling_goal_events[l].itemsAmount; i++) if(Event_Equal(e, cycling_goal_events[l].items[i].address)) return l + 1;
    return 0;
}
void Memory_AddEvent(Event *e, long now, double p, bool input, bool derived, bool revised, int layer)
{
    if(!on_) { REAL(Memory_AddEvent, e, now, p, input, derived, revised, layer); return; }
    bool goal_ = e->type == EVENT_TYPE_GOAL; int was = 0; bool full = false, dup = false;
    if(!fb_due && input && open_ && ndone) vf_fail("%s is observed besides the executed operation", t_str(tree(&e->term)));
    if(fb_due && input)
    {
        VF_CHECK(!chk_args || (e->type == EVENT_TYPE_BELIEF && !strcmp(t_str(tree(&e->term)), fb_term) && e->occurrenceTime == currentTime && r_near(e->truth.frequency, 1) && r_near(e->truth.confidence, 0.9)), "after the execution of %s, %s at %ld {%g %g} is observed at time %ld", fb_term, t_str(tree(&e->term)), e->occurrenceTime, e->truth.frequency, e->truth.confidence, currentTime);
        fb_due = false; n_fb++;
    }
    if(goal_ && !input && open_ && chk_sub) { if(ngot < 800) { got[ngot].t = tree(&e->term); got[ngot++].e = b_item(e); } else abort(); }
    if(goal_ && chk_sub)
    {
        int nl = layer + 1 < CYCLING_GOAL_EVENTS_LAYERS ? layer + 1 : CYCLING_GOAL_EVENTS_LAYERS - 1; was = held_goal(e); full = cycling_goal_events[nl].itemsAmount == cycling_goal_events[nl].maxElements;
        Concept *c = Memory_FindConceptByTerm(&e->term); dup = c && c->goal_spike.type != EVENT_TYPE_DELETED && Event_Equal(e, &c->goal_spike);
        if(!input && open_) VF_CHECK(layer == glayer && fabs(p - gprio * r_exp((RT) { e->truth.frequency, e->truth.confidence })) < 1e-9, "the subgoal %s is given priority %g and layer %d, the goal had %g and layer %d", t_str(tree(&e->term)), p, layer, gprio, glayer);
    }
    Event cp = *e; REAL(Memory_AddEvent, e, now, p, input, derived, revised, layer);
    if(goal_ && chk_sub && !was && !dup && !full && cp.truth.confidence >= 0.01 && p > 0)
    {
        int nl = layer + 1 < CYCLING_GOAL_EVENTS_LAYERS ? layer + 1 : CYCLING_GOAL_EVENTS_LAYERS - 1, h = held_goal(&cp);
        VF_CHECK(h, "the goal %s is not taken up", t_str(tree(&cp.term))); VF_CHECK(input || h == nl + 1, "the subgoal %s of layer %d is put into layer %d", t_str(tree(&cp.term)), glayer, h - 1);
    }
}
/* the chance outcome of exploration is chosen by the script: whether to explore, and what */
static int rs[8], nrs;
int myrand(void)
{
    if(!on_) return REAL(myrand);
    int i = nrand++; int v = nrs == 0 ? MY_RAND_MAX : i < nrs ? rs[i] : MY_RAND_MAX; if(i == 0 && v < (int) (MOTOR_BABBLING_CHANCE * MY_RAND_MAX)) babble = true;
    return v;
}
static void callbacks(void) { NAR_AddOperation("^left", op0); if(OPERATIONS_MAX > 1) NAR_AddOperation("^right", op1); if(OPERATIONS_MAX > 2) NAR_AddOperation("^up", op2); }
/* atoms get their numbers before the first state is kept, as trees are kept by atom numbers */
static void intern(const char *l) { char b[300]; snprintf(b, sizeof b, "%s", l); if(*b == '*' || strspn(b, "0123456789") == strlen(b)) return; if(!strncmp(l, "dt=", 3)) snprintf(b, sizeof b, "%s", strchr(l, ' ') + 1); for(char *p=b; *p; p++) if(strchr("<>(){}[] ,", *p)) *p = ' '; char *sv; for(char *w=strtok_r(b, " ", &sv); w; w=strtok_r(NULL, " ", &sv)) { int n = strlen(w); while(n && strchr(".!?", w[n-1])) w[--n] = 0; if(n && (isalnum((unsigned char) *w) || strchr("^$#?", *w)) && !(isdigit((unsigned char) *w))) Narsese_AtomicTermIndex(w); } }
static bool nosem;
void RuleTable_Apply(Term a, Term b, Truth ta, Truth tb, long co, double off, Stamp st, long now, double pp, double cp, bool dp, Concept *vc, long vid) { if(!nosem) REAL(RuleTable_Apply, a, b, ta, tb, co, off, st, now, pp, cp, dp, vc, vid); }
/* "~b r r' line": the line with the chance outcomes given; "!line": operations fail during it */
static char stdin_buf[200]; static bool with_stdin;
static void input(const char *l)
{
    ex_pl += sprintf(ex_path + ex_pl, "%s | ", l); vf_desc("%s", ex_path); vf_stats.transitions++; nrs = 0; failop = false; failat = 0; stdin_text = NULL;
    if(*l == '~') { char b; int n; sscanf(l, "~%c%d %d %n", &b, &rs[1], &rs[2], &n); rs[0] = b == 'y' ? 0 : MY_RAND_MAX; nrs = 3; l += n; }
    if(*l == '!') { l++; if(isdigit((unsigned char) *l)) failat = *l++ - '0'; else failop = true; }
    if(*l == '@') { snprintf(stdin_buf, sizeof stdin_buf, "%.*s", (int) (strchr(l + 1, '@') - l - 1), l + 1); l = strchr(l + 1, '@') + 1; stdin_text = *stdin_buf ? stdin_buf : NULL; while(*l == ' ') l++; }
    FILE *of = stdin; if(with_stdin) { static char sb[400]; *sb = 0; for(int i=0; i<2 && stdin_text; i++) sprintf(sb + strlen(sb), "0\n%s\n", stdin_text); stdin = fmemopen(sb, *sb ? strlen(sb) : 1, "r"); if(!*sb) fgetc(stdin); }
    on_ = *l != '*'; nlog = 0; ex_feed(l); closed(); on_ = false; if(with_stdin) { fclose(stdin); stdin = of; }
}
static void *sn[24]; static void (*after)(const char *);
static void rec(int d, int max, const char **A, int n)
{
    if(d == max) return;
    if(!sn[d]) sn[d] = vf_snap_new(); else vf_snap(sn[d]);
    int pl = ex_pl;
    for(int a=0; a<n; a++)
    {
        if(d == 2 && !vf_case()) continue;
        ex_pl = pl; ex_path[pl] = 0; long x0 = n_exec, s0 = n_sub;
        input(A[a]); if(after) after(A[a]);
        if(d >= 2) { vf_stats.states++; vf_stats.nontrivial += chk_sub ? n_sub > s0 : n_exec > x0; if(vf_stats.states % 9973 == 7) vf_sample("%s", ex_path); }
        rec(d + 1, max, A, n); vf_restore(sn[d]);
    }
    ex_pl = pl; ex_path[pl] = 0;
}
