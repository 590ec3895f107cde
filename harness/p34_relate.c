/* P34: observations of measured values are compared: after every history of observed relations with measured values (in both
 * orders, equal, of other attributes, without value, in sequences, told and unmeasured ones in between) what is held about
 * "larger" and "equal" is compared with the reference, and so is everything learned from it. */
#define REFC 128
#define REFH 600
#define REFP 60
#include "learner.h"
static struct { char name[32]; double v; } val[40]; static int nval; static long n_rel, n_eq, n_ctx, n_less;
static bool value_of(N *n, double *v) { if(!n || n->cop) return false; for(int i=0; i<nval; i++) if(!strcmp(val[i].name, n->name)) { *v = val[i].v; return true; } return false; }
static void measured(const char *name, double v) { snprintf(val[nval].name, 32, "%s", name); val[nval++].v = v; }
/* an observed relation of something with a measured value */
static bool reading(N *n, N **thing, double *v, N **attr) { if(!n || (n->cop != ':' && n->cop != ',') || !n->l || n->l->cop != '*' || !n->l->r || !value_of(n->l->r, v)) return false; *thing = n->l->l; *attr = n->r; return true; }
static RE other[REFC]; static long n_tie; /* of two equally strong ones either may be kept */
static void resolve(void) { for(int i=0; i<w.nc; i++) if(other[i].held) { Concept *c = Memory_FindConceptByTerm(&w.c[i].t); RE real = { .held = false }; if(c) real = b_item(&c->belief_spike); if(b_same(&real, &other[i])) w.c[i].spike = other[i]; other[i].held = false; } }
/* the sequence s of two things observed was just experienced */
static int relation(MC *c, MC *k, RE s, long now)
{
    N *a = t_dec(&c->t, 1), *b = t_dec(&k->t, 1), *x, *y, *p, *q, *rest = NULL; double v, u;
    if(a->cop == '+' && a->r) { rest = a->l; a = a->r; }
    if(!reading(a, &x, &v, &p) || !reading(b, &y, &u, &q) || strcmp(t_str(p), t_str(q)) || s.t.c < 0.01) return -1;
    N *r = t_c(a->cop, t_c('*', v < u ? y : x, v < u ? x : y), t_c(v == u ? '=' : '+', p, NULL)); n_rel++; n_eq += v == u; n_less += v < u; n_ctx += rest != NULL; late = true;
    bool cycled = rest || a->cop == ':'; if(rest) r = t_c('+', rest, r);
    Term t = t_term(r, NULL); char n[100]; snprintf(n, sizeof n, "%s", t_str(r)); bool pooled; int i = mc(n, &t);
    RE h = w.c[i].spike, m = r_merge(h, s, true, &pooled); long later = h.time > s.time ? h.time : s.time;
    if(h.held && !pooled && fabs(r_proj(h.t, h.time, later).c - r_proj(s.t, s.time, later).c) < 1e-12) { other[i] = s; n_tie++; } else if(h.held && !pooled && b_same(&m, &s)) other[i].held = false;
    w.c[i].spike = m; w.c[i].created = now; index_(i);
    if(cycled) { if(w.np == REFP) abort(); w.pend[w.np].e = s; w.pend[w.np++].c = i; }
    return i;
}
static void spikes(void)
{
    for(int i=0; i<w.nc; i++)
    {
        MC *m = &w.c[i]; Concept *c = Memory_FindConceptByTerm(&m->t); if(!strstr(m->name, "(+ ") && !strstr(m->name, "(= ")) continue;
        bool is = c && c->belief_spike.type != EVENT_TYPE_DELETED; VF_CHECK(is == m->spike.held, "%s is %sheld as observed", m->name, is ? "" : "not ");
        if(is) { RE x = b_item(&c->belief_spike); VF_CHECK(b_same(&x, &m->spike), "%s is observed with {%g %g} at %ld instead of {%g %g} at %ld, or with other evidence", m->name, x.t.f, x.t.c, x.time, m->spike.t.f, m->spike.t.c, m->spike.time); }
    }
    for(int i=0; i<concepts.itemsAmount; i++)
    {
        Concept *c = concepts.items[i].address; if(c->belief_spike.type == EVENT_TYPE_DELETED) continue;
        const char *n = t_str(t_dec(&c->term, 1)); if((!strstr(n, "(+ ") && !strstr(n, "(= ")) || strpbrk(n, "$#?")) continue; /* generalisation: P16 */
        bool f = false; for(int j=0; j<w.nc; j++) f |= !memcmp(w.c[j].t.atoms, c->term.atoms, sizeof c->term.atoms);
        VF_CHECK(f, "%s is held, which does not follow from what was measured", n);
    }
}
static void history(int d, int max, const char **A, int n)
{
    if(d == max) return;
    if(!sn[d]) sn[d] = vf_snap_new(); else vf_snap(sn[d]);
    ws[d] = w; int pl = ex_pl; bool lt = late;
    for(int a=0; a<n; a++)
    {
        if(d == 2 && !vf_case()) continue;
        ex_pl = pl; ex_path[pl] = 0; long r0 = n_rel;
        /* every observation is differently certain, so that no choice is between equals */
        static const double C[] = { 0.9, 0.84, 0.91, 0.77, 0.88, 0.81, 0.86, 0.79 }; char line[200]; snprintf(line, sizeof line, A[a][strlen(A[a]) - 1] == ':' ? "%s {1 %g}" : "%s", A[a], C[d & 7]);
        input(line); spikes(); if(d >= 2) { vf_stats.states++; vf_stats.nontrivial += n_rel > r0; if(vf_stats.states % 9973 == 7) vf_sample("%s: %d hypotheses", ex_path, w.nh); }
        history(d + 1, max, A, n); vf_restore(sn[d]); w = ws[d]; late = lt;
    }
    ex_pl = pl; ex_path[pl] = 0;
}
int vf_main(void)
{
    vf_quiet(); vf_cap_begin(); Shell_NARInit(); MOTOR_BABBLING_CHANCE = 0; ANTICIPATION_CONFIDENCE = 0; hook_seq = relation; hook_done = resolve;
    ex_feed("*setopname 1 ^left"); for(const char *p="a b x y z p q ^left"; *p; p++) if(*p != ' ') { char s[20]; int n; sscanf(p, "%s%n", s, &n); Narsese_AtomicTermIndex(s); p += n - 1; }
    const char *V[] = { "*setvalue 0.1 10 B", "*setvalue 0.5 10 B", "*setvalue 0.9 10 B", "*setvalue 0.30 100 M", "*setvalue 0.31 100 M", "*setvalue 0.002 1000 K", "*setvalue 0.003 1000 K", "*setvalue 9.5 10 B", "*setvalue 12.5 10 B", "" };
    char prefix[600], *pre = prefix + sprintf(prefix, "*setopname 1 ^left | *anticipationconfidence=0 | ");
    for(int i=0; *V[i]; i++) { double v; int g; char u[8], t[60]; sscanf(V[i], "*setvalue %lf %d %s", &v, &g, u); ex_feed(V[i]); snprintf(t, sizeof t, "%s_%.*f", u, g == 10 ? 1 : g == 100 ? 2 : 3, v); Narsese_AtomicTermIndex(t); measured(t, v); pre += sprintf(pre, "%s | ", V[i]); }
    Narsese_Term("<(x * y) --> (+ p)>"); Narsese_Term("<(x * y) |-> (= [p])>"); Narsese_Term("(a &/ <a =/> b>)");
    void *init = vf_snap_new(); int t = vf_thorough;
    struct { const char *l[10]; int n, max; } SETS[] = {
        { { "<(x * B_0.5) --> p>. :|:", "<(y * B_0.9) --> p>. :|:", "<(y * B_0.1) --> p>. :|:", "<(x * B_0.9) --> p>. :|:", "1" }, 5, t ? 6 : 5 },
        { { "<(x * B_0.5) --> p>. :|:", "<(y * B_0.5) --> p>. :|:", "<(z * M_0.31) --> q>. :|:", "<(x * M_0.30) --> q>. :|:", "1", "*concurrent" }, 6, t ? 6 : 5 },
        { { "<(x * K_0.002) --> [p]>. :|:", "<(y * K_0.003) --> [p]>. :|:", "<((x * a) * B_0.5) --> [p]>. :|:", "<(z * B_0.9) --> [p]>. :|:", "<({y} * B_0.1) --> [p]>. :|:", "1" }, 6, t ? 6 : 5 },
        { { "<(x * B_0.5) |-> p>. :|:", "<(y * B_0.9) |-> p>. :|:", "<(y * B_0.5) |-> p>. :|:", "1", "<(z * B_0.1) |-> p>. :|:" }, 5, t ? 6 : 5 },
        { { "<(x * B_0.5) --> p>. :|:", "<(y * c) --> p>. :|:", "<(y * 0.9) --> p>. :|:", "<(y * B_9.5) --> q>. :|:", "<(y * B_12.5) --> p>. :|:", "<(z * B_9.5) --> p>. :|:", "<x --> p>. :|:", "<(B_0.9 * y) --> p>. :|:" }, 8, t ? 5 : 4 },
        { { "<(x * B_0.5) --> p>. :|:", "<(y * B_0.9) --> p>. :|:", "a. :|:", "^left. :|:", "b. :|:" }, 5, t ? 6 : 5 },
        { { "<(x * B_0.5) --> p>. :|:", "<(y * B_0.9) --> p>. :|:", "(<(x * B_0.5) --> p> &/ <(z * B_0.1) --> p>). :|:", "<(z * B_0.9) <-> p>. :|:", "<(x * y) --> (+ p)>. :|:", "<(x * B_0.5) --> p>! :|:", "<(y * B_0.1) --> p>." }, 7, t ? 5 : 4 },
        { { "<(x * B_0.5) --> p>. :|:", "<(y * B_0.9) --> p>. :|:", "10", "18", "19", "20", "1" }, 7, t ? 5 : 4 },
    };
    for(int s=0; s<(int)(sizeof SETS/sizeof *SETS); s++) { vf_restore(init); w = (W) {0}; late = false; memset(sn, 0, sizeof sn); ex_pl = sprintf(ex_path, "%s", prefix); history(0, SETS[s].max, SETS[s].l, SETS[s].n); }
    vf_count("relations", n_rel); vf_count("equal", n_eq); vf_count("equally_strong", n_tie); vf_count("smaller_first", n_less); vf_count("in_context", n_ctx);
    return 0;
}
