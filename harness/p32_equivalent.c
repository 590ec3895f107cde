/* P32: what is learned about conditions under which the same operation leads to the same result. Every history of told and experienced
 * hypotheses with such conditions (plain, sequences sharing parts, relations sharing arguments, compound operations, general
 * hypotheses, temporal links between the conditions, shared evidence); whenever an operation is called because of a hypothesis,
 * the implications held at that moment are compared with those the reference derives from what was held when the goal was taken up. */
#include "goals.h"
typedef struct { N *t; RT v; RS s; bool must; } Link;
static Link before[400]; static int nbefore; static bool full_; static long n_new, n_rev, n_pairs, n_links, n_gen;
static int links(Link *l) { int n = 0; for(int i=0; i<concepts.itemsAmount; i++) { Concept *c = concepts.items[i].address; for(int j=0; j<c->implication_links.itemsAmount; j++) { Implication *m = &c->implication_links.array[j]; if(n >= 400) abort(); l[n++] = (Link) { tree(&m->term), tr(&m->truth), b_stamp(&m->stamp) }; } if(c->implication_links.itemsAmount >= TABLE_SIZE - 8) full_ = true; } if(concepts.itemsAmount >= CONCEPTS_MAX - 30) full_ = true; return n; }
static void note(void) { full_ = false; nbefore = links(before); }
static N *mk(char c, N *l, N *r) { if(arn >= (1<<18)) abort(); N *n = &ar[arn++]; *n = (N) { .cop = c, .l = l, .r = r }; return n; }
static N *leaf(const char *s) { if(arn >= (1<<18)) abort(); N *n = &ar[arn++]; *n = (N) { .name = s }; return n; }
/* equal up to the names of variables */
static bool iso_(N *a, N *b, N **f, N **g) { if(!a || !b) return a == b; if(a->cop != b->cop) return false; if(a->cop) return iso_(a->l, b->l, f, g) && iso_(a->r, b->r, f, g); if(t_isvar(a->name) && t_isvar(b->name)) { int x = vid(a->name), y = vid(b->name); if(a->name[0] != b->name[0] || (f[x] && strcmp(f[x]->name, b->name)) || (g[y] && strcmp(g[y]->name, a->name))) return false; f[x] = b; g[y] = a; return true; } return !strcmp(a->name, b->name); }
static bool iso(N *a, N *b) { N *f[40] = {0}, *g[40] = {0}; return iso_(a, b, f, g); }
static int len(N *t) { return t->cop == '+' ? len(t->l) + len(t->r) : 1; }
/* how often a constant occurs in the role of what a statement is about (in its product: at one of both places) */
static int leaves(N *t, const char *n) { return !t ? 0 : t->cop ? leaves(t->l, n) + leaves(t->r, n) : !strcmp(t->name, n); }
static int about(N *t, const char *n, int side)
{
    if(t->cop == '!') return about(t->l, n, side);
    if(strchr("+;$?^", t->cop) && t->cop) return about(t->l, n, side) + about(t->r, n, side);
    int k = 0; N *part[3] = {0};
    if(t->cop == ':' || t->cop == '=' || (t->cop == ',' && t->l->cop != '*'))
    {
        part[0] = t->l->cop == '*' ? (side == 1 ? t->l->l : t->l->r) : t->l;
        if(t->cop == '=') part[1] = t->r;
        if(t->r->cop == '/' || t->r->cop == '%') part[2] = t->r->r;
    }
    for(int i=0; i<3; i++) if(part[i] && !((part[i]->cop == '"' || part[i]->cop == '\'') && part[i]->r)) k += leaves(part[i], n);
    return k;
}
static const char *vn(char k, int i) { static char b[2][10][3]; char *s = b[k == '#'][i]; sprintf(s, "%c%d", k, i); return s; }
static N *gen_(N *t, N *imp, int side, const char **nm, const char **to, int *n, int *ni, int *nd)
{
    if(!t) return NULL;
    if(t->cop) { N *l = gen_(t->l, imp, side, nm, to, n, ni, nd); return mk(t->cop, l, gen_(t->r, imp, side, nm, to, n, ni, nd)); }
    for(int i=0; i<*n; i++) if(!strcmp(nm[i], t->name)) return leaf(to[i]);
    int l = about(imp->l, t->name, side), r = about(imp->r, t->name, side);
    if(!((l && r) || l >= 2 || r >= 2)) return t;
    nm[*n] = t->name; to[*n] = l && r ? vn('$', ++*ni) : vn('#', ++*nd); return leaf(to[(*n)++]);
}
static N *gen(N *imp, int side) { const char *nm[40], *to[40]; int n = 0, i = 0, d = 0; return gen_(imp, imp, side, nm, to, &n, &i, &d); }
static RT link_truth(N *a, N *b) { Concept *c = concept_of(b); RT t = { 0, 0 }; if(c) truth_of(c, mk('$', a, b), 0, &t); return t; }
/* what the hypothesis behind the decision and those held for the same operation(s) and result imply about their conditions */
static bool edge_;
static int expected(Cand *k, Link *x)
{
    int n = 0; N *ops[8], *ops2[8]; int no, no2; N *p = split(k->spec->l, ops, &no); Concept *c = concept_of(k->spec->r); edge_ = false;
    if(!c || vars_(k->spec)) return 0;
    for(int j=0; j<c->precondition_beliefs[k->id].itemsAmount; j++)
    {
        Implication *m = &c->precondition_beliefs[k->id].array[j]; N *h = tree(&m->term); if(vars_(h)) continue;
        N *a = p, *b = split(h->l, ops2, &no2); bool same = no == no2; for(int z=0; z<no && same; z++) same = t_eq(ops[z], ops2[z]);
        if(!same || t_eq(a, b)) continue;
        for(;;)
        { /* without the parts they have in common */
            if(a->cop != '+' || b->cop != '+') break;
            if(t_eq(a->l, b->l)) { a = a->r; b = b->r; } else if(t_eq(a->r, b->r)) { a = a->l; b = b->l; } else break;
        }
        if(len(a) != len(b)) continue;
        RS hs = b_stamp(&m->stamp), s = r_zip(&k->hs, &hs); RT ht = tr(&m->truth); if(r_overlap(&k->hs, &hs)) continue;
        double e1 = r_exp(link_truth(a, b)), e2 = r_exp(link_truth(b, a)); edge_ |= fabs(e1 - 0.5) < 1e-9 && e1 != 0.5; edge_ |= fabs(e2 - 0.5) < 1e-9 && e2 != 0.5;
        if(e1 > 0.5 || e2 > 0.5) { n_links++; continue; } /* they follow each other in time */
        n_pairs++; int n0 = n; bool must = valid(m);
        for(int d=0; d<2; d++)
        { /* <S ==> T>: S is evidence as far as T's hypothesis is positive */
            N *st = d ? mk('?', b, a) : mk('?', a, b); if(!fits(st)) continue;
            RT S = d ? ht : k->ht, T = d ? k->ht : ht, v = { S.f, r_w2c(T.f * S.c * T.c) }; if(v.c < 0.01 - 1e-9) continue; edge_ |= v.c < 0.01 + 1e-9;
            N *v3[3] = { st, gen(st, 2), gen(st, 1) };
            for(int i=0; i<3; i++) { bool dup = i && !vars_(v3[i]); for(int q=n0; q<n; q++) dup |= iso(x[q].t, v3[i]); if(!dup) { if(n >= 400) abort(); x[n++] = (Link) { v3[i], r_etern(v), s, must }; n_gen += i > 0; } }
        }
    }
    return n;
}
static const char *lshow(Link *l) { static char b[4][500]; static int i; RE e = { true, l->v, l->s, 0 }; char *p = b[i++ & 3]; snprintf(p, 500, "%s %s", t_str(l->t), b_show(&e)); return p; }
static char why[2000];
static bool agrees(Cand *k, Link *now, int nn)
{
    static Link x[400]; int nx = k ? expected(k, x) : 0; long fresh = 0, rev = 0; if(edge_ && k) return true;
    for(int i=0; i<nx; i++) { bool h = false; for(int q=0; q<nn; q++) h |= iso(x[i].t, now[q].t); if(!h && x[i].must) { snprintf(why, sizeof why, "%s is not held", lshow(&x[i])); return false; } }
    for(int q=0; q<nn; q++)
    {
        RE e = {0}; bool stale = false, pool = false; RS un = {0};
        for(int i=0; i<nbefore; i++) if(t_eq(before[i].t, now[q].t)) e = (RE) { true, before[i].v, before[i].s, 0 };
        for(int i=0; i<nx; i++) if(iso(x[i].t, now[q].t))
        {
            stale |= !x[i].must;
            if(!e.held) { e = (RE) { true, x[i].v, x[i].s, 0 }; fresh++; }
            else { pool = true; for(int z=0; z<x[i].s.n && un.n < REF_STAMP; z++) un.id[un.n++] = x[i].s.id[z]; rev++; } /* what both amount to: P09 */
        }
        Link w = { now[q].t, e.t, e.s }; if(stale) continue;
        if(pool)
        { /* held with evidence of these only */
            for(int z=0; z<now[q].s.n; z++) { bool in = un.n == REF_STAMP || e.s.n == REF_STAMP; for(int i=0; i<un.n; i++) in |= un.id[i] == now[q].s.id[z]; for(int i=0; i<e.s.n; i++) in |= e.s.id[i] == now[q].s.id[z]; if(!in) { snprintf(why, sizeof why, "%s is held, which rests on other evidence than %s", lshow(&now[q]), lshow(&w)); return false; } }
            continue;
        }
        if(!e.held) { snprintf(why, sizeof why, "%s is held", lshow(&now[q])); return false; }
        if(!r_near(e.t.f, now[q].v.f) || !r_near(e.t.c, now[q].v.c) || !r_samebase(&e.s, &now[q].s)) { snprintf(why, sizeof why, "%s is held, expected %s", lshow(&now[q]), lshow(&w)); return false; }
    }
    n_new += fresh; n_rev += rev; vf_stats.validated++; vf_stats.nontrivial += nx > 0;
    return true;
}
static void atop(void)
{
    static Link now[400]; int nn = links(now); if(full_) return;
    for(int q=0; q<nn; q++) { int c = 0; for(int z=0; z<nn; z++) c += t_eq(now[q].t, now[z].t); VF_CHECK(c == 1, "%s is held twice", t_str(now[q].t)); }
    bool ok = false, any = false; why[0] = 0;
    for(int m=0; m<2; m++) for(int i=0; i<nbest[m]; i++) { Cand *k = &best[m][i]; if(strcmp(op_name(k->op[0]), done_[0].name) && strcmp(op_name(k->op[k->n-1]), done_[0].name)) continue; if(!babble || bd[m] > 0.55 - 1e-9) { any = true; ok = ok || agrees(k, now, nn); } }
    if(!ok && (babble || !any)) ok = agrees(NULL, now, nn);
    if(!ok) vf_fail("goal %s at time %ld, when %s is called%s: %s", t_str(gterm), currentTime, done_[0].name, nbest[0] ? "" : " though nothing is due", why);
}
typedef struct { const char *pre[8]; const char *l[14]; int q, t; } Set;
static const Set SETS[] = {
    { { "*motorbabbling=false" }, { "<(a &/ ^left) =/> g>. {0.9 0.9}", "<(b &/ ^left) =/> g>. {0.8 0.9}", "<(c &/ ^left) =/> g>. {0.1 0.9}", "<(b &/ ^right) =/> g>. {1 0.4}", "<(b &/ ^left) =/> h>. {0.9 0.9}", "<a =/> b>. {0.9 0.5}", "<c =/> a>. {0.3 0.9}", "a. :|:", "b. :|:", "g! :|:" }, 5, 6 },
    { { "*motorbabbling=false" }, { "<((x &/ a) &/ ^left) =/> g>. {0.9 0.9}", "<((x &/ b) &/ ^left) =/> g>. {0.8 0.9}", "<((a &/ x) &/ ^left) =/> g>. {1 0.8}", "<((b &/ x) &/ ^left) =/> g>. {0.9 0.8}", "<(a &/ ^left) =/> g>. {0.9 0.9}", "<(((x &/ a) &/ x) &/ ^left) =/> g>. {1 0.9}", "x. :|:", "a. :|:", "(x &/ a). :|:", "g! :|:" }, 5, 6 },
    { { "*motorbabbling=false" }, { "<(<(a * c) --> r> &/ ^left) =/> g>. {0.9 0.9}", "<(<(b * c) --> r> &/ ^left) =/> g>. {0.8 0.9}", "<(<(a * d) --> s> &/ ^left) =/> g>. {1 0.8}", "<(<(c * a) --> s> &/ ^left) =/> g>. {0.9 0.8}", "<(<{a} --> [q]> &/ ^left) =/> g>. {0.9 0.7}", "<(a * c) --> r>. :|:", "<(b * c) --> r>. :|: {0.9 0.8}", "<{a} --> [q]>. :|:", "g! :|:" }, 5, 6 },
    { { "*motorbabbling=false" }, { "<(<a --> p> &/ ^left) =/> g>. {0.9 0.9}", "<(<a --> q> &/ ^left) =/> g>. {0.8 0.9}", "<((<a --> p> &/ <b --> p>) &/ ^left) =/> g>. {1 0.9}", "<((<b --> p> &/ <a --> p>) &/ ^left) =/> g>. {0.9 0.8}", "<(<a <-> b> &/ ^left) =/> g>. {0.9 0.7}", "<(<a --> (r /1 b)> &/ ^left) =/> g>. {0.9 0.9}", "<a --> p>. :|:", "<b --> p>. :|:", "(<a --> p> &/ <b --> p>). :|:", "g! :|:" }, 5, 6 },
    { { "*motorbabbling=false" }, { "<((a &/ ^right) &/ ^left) =/> g>. {0.9 0.9}", "<((b &/ ^right) &/ ^left) =/> g>. {0.8 0.9}", "<((b &/ ^up) &/ ^left) =/> g>. {0.9 0.8}", "<(b &/ ^left) =/> g>. {0.9 0.7}", "<(c &/ ^left) =/> g>. {1 0.9}", "a. :|:", "b. :|:", "c. :|:", "g! :|:" }, 5, 6 },
    { { "*motorbabbling=false" }, { "<(<$1 --> p> &/ <({SELF} * $1) --> ^left>) =/> <$1 --> g>>. {0.9 0.9}", "<(<x --> q> &/ <({SELF} * x) --> ^left>) =/> <x --> g>>. {0.8 0.8}", "<(<y --> q> &/ <({SELF} * x) --> ^left>) =/> <x --> g>>. {0.9 0.8}", "<(<x --> q> &/ <({SELF} * y) --> ^left>) =/> <x --> g>>. {1 0.6}", "<(<#1 --> o> &/ <({SELF} * x) --> ^left>) =/> <x --> g>>. {0.9 0.9}", "<x --> p>. :|:", "<x --> q>. :|: {0.9 0.8}", "<x --> g>! :|:", "<y --> g>! :|:" }, 5, 6 },
    { { "*motorbabbling=false", "a. :|:", "^left. :|:", "g. :|:", "25", "b. :|:", "^left. :|:", "g. :|:" }, { "a. :|:", "b. :|:", "^left. :|:", "g. :|:", "25", "g! :|:" }, 5, 6 },
    { { "*motorbabbling=false", "*volume=0", "<(a &/ ^left) =/> g>. {0.9 0.9}" }, { "a. :|:", "b. :|:", "c. :|:", "^left. :|:", "g. :|:", "25", "g! :|:" }, 6, 7 },
    { { "*motorbabbling=false" }, { "*stampid=1", "<(a &/ ^left) =/> g>. {0.9 0.9}", "<(b &/ ^left) =/> g>. {0.8 0.9}", "<(c &/ ^left) =/> g>. {0.9 0.8}", "<a ==> b>. {0.6 0.9}", "<b ==> a>. :|: {0.9 0.5}", "a. :|:", "g! :|:", "!g! :|:" }, 5, 6 },
    { { "*motorbabbling=1" }, { "<(a &/ ^left) =/> g>. {0.9 0.9}", "<(b &/ ^left) =/> g>. {0.8 0.9}", "<(b &/ ^right) =/> g>. {0.6 0.3}", "a. :|:", "b. :|:", "~y0 0 g! :|:", "~y1 0 g! :|:", "~n0 0 g! :|:" }, 5, 6 },
};
/* every strength of two hypotheses and of the temporal links between their conditions, every shape of conditions */
static void strengths(void *init)
{
    static const char *TV[] = { "{1 0.9}", "{0.9 0.9}", "{0.5 0.9}", "{0.2 0.8}", "{0 0.9}", "{1 0.2}" }, *LK[] = { "", "{1 0.9}", "{0.6 0.9}", "{0.5 0.9}", "{0.4 0.9}", "{0 0.9}" };
    static const char *CD[] = { "a", "b", "<x --> p>", "<x --> q>", "(<x --> p> &/ <y --> p>)", "(<y --> q> &/ <x --> q>)", "<(x * y) --> r>", "<(y * x) --> r>", "<({x} * {y}) --> r>", "<({x} * z) --> s>", "<x <-> y>", "(a &/ <x --> p>)", "((a &/ <x --> p>) &/ b)", "((a &/ <y --> q>) &/ b)", "<{x} --> [p]>", "<{x} |-> [q]>" };
    enum { NC = sizeof CD / sizeof *CD };
    for(int p=0; p<NC; p++) for(int q=0; q<NC; q++) for(int s=0; s<36; s++)
    {
        if(p == q || !vf_case()) continue;
        for(int l1=0; l1<6; l1++) for(int l2=0; l2<6; l2++) if(vf_thorough || !l2 || !l1 || (p < 2 && q < 2))
        {
            vf_restore(init); ex_pl = 0; char b[300]; input("*motorbabbling=false"); input("*decisionthreshold=0.501");
            if(l1) { sprintf(b, "<%s =/> %s>. %s", CD[p], CD[q], LK[l1]); input(b); } if(l2) { sprintf(b, "<%s =/> %s>. %s", CD[q], CD[p], LK[l2]); input(b); }
            sprintf(b, "<(%s &/ ^left) =/> g>. %s", CD[p], TV[s / 6]); input(b); sprintf(b, "<(%s &/ ^left) =/> g>. %s", CD[q], TV[s % 6]); input(b);
            sprintf(b, "%s. :|:", CD[p]); input(b); input("g! :|:"); vf_stats.states++;
        }
    }
}
int vf_main(void)
{
    vf_quiet(); vf_cap_begin(); Shell_NARInit(); callbacks(); hook_open = note; hook_op = atop; nosem = true;
    for(int s=0; s<(int)(sizeof SETS/sizeof *SETS); s++) for(int i=0; i<14 && SETS[s].l[i]; i++) intern(SETS[s].l[i]);
    intern("a b c d g h p q r s x y z SELF $1 $2 $3 $4 #1 #2 #3 #4");
    void *init = sn[23] = vf_snap_new(); strengths(init);
    for(int s=0; s<(int)(sizeof SETS/sizeof *SETS); s++)
    {
        vf_restore(init); memset(sn, 0, sizeof sn); ex_pl = 0; int n = 0; while(n < 14 && SETS[s].l[n]) n++;
        for(int i=0; i<8 && SETS[s].pre[i]; i++) input(SETS[s].pre[i]);
        rec(0, vf_thorough ? SETS[s].t : SETS[s].q, (const char**) SETS[s].l, n);
    }
    vf_count("implications learned", n_new); vf_count("implications revised", n_rev); vf_count("pairs of hypotheses", n_pairs); vf_count("pairs of conditions following each other", n_links); vf_count("generalisations", n_gen);
    return 0;
}
