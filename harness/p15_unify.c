/* P15: all pairs of general and specific trees of depth <= 2, ordinary and query-only matching, against a reference
 * matcher on trees; substitution applied to the general term and to other terms, including ones it does not fit. */
#include "unify.h"
void Metric_send(const char* path, int value) {}
static void one(N *g, N *s, Term *tg, Term *ts)
{
    Truth none = {0};
    for(int q=0; q<2; q++)
    {
        memset(env, 0, sizeof env);
        bool want = match(g, s, q);
        Substitution sub = Variable_Unify2(none, tg, ts, q);
        vf_stats.transitions++;
        if(sub.success != want) { vf_desc("general %s, specific %s%s", t_str(g), t_str(s), q ? ", query variables only" : ""); vf_fail("the match %s although %s binding exists", sub.success ? "succeeds" : "fails", want ? "a consistent" : "no consistent"); }
        if(!want) continue;
        vf_desc("general %s, specific %s%s", t_str(g), t_str(s), q ? ", query variables only" : "");
        vf_stats.nontrivial++;
        for(int k=0; k<3; k++) for(int i=1; i<=9; i++)
        {
            char nm[3] = { "$#?"[k], '0'+i, 0 }; Atom a = Narsese_AtomicTermIndex(nm); N *e = env[k*10+i];
            if(e) { Term w = t_term(e, NULL); VF_CHECK(Term_Equal(&sub.map[a], &w), "%s is bound to %s instead of %s", nm, t_raw(&sub.map[a]), t_str(e)); }
            else VF_CHECK(!sub.map[a].atoms[0], "%s is bound although it does not occur", nm);
        }
        bool ok; Term r = Variable_ApplySubstitute(*tg, sub, &ok);
        VF_CHECK(ok && Term_Equal(&r, ts), "applying the bindings to the general term gives %s", t_raw(&r));
    }
}
static N *G[40000], *S[40000]; static Term *TG, *TS; static int ng, ns;
static int build(N **D, const char **leaf, int nl, const int *cops, int nc)
{
    int n = 0; for(int i=0; i<nl; i++) D[n++] = t_leaf(leaf[i]);
    int e = nl;
    for(int d=0; d<2; d++)
    {
        int m = n; int s = d ? nl : 0;
        for(int c=0; c<nc; c++) for(int i=0; i<m; i++) for(int j=0; j<(COPS[cops[c]].kind == 'u' ? 1 : m); j++)
        { if(d && i < s && (j < s || COPS[cops[c]].kind == 'u')) continue; D[n++] = t_mk(cops[c], D[i], D[j]); }
    }
    (void) e; return n;
}
int vf_main(void)
{
    vf_quiet(); NAR_INIT();
    static const char *gl[] = { "a", "$1", "#1", "?1" }, *sl[] = { "a", "b", "$1", "?2" };
    static const int cq[] = { 0, 6, 19, 25 }, ct[] = { 0, 6, 19, 25, 21, 15 };
    ng = build(G, gl, 4, vf_thorough ? ct : cq, vf_thorough ? 5 : 4);
    ns = build(S, sl, 4, vf_thorough ? ct : cq, vf_thorough ? 5 : 4);
    TG = calloc(ng, sizeof(Term)); TS = calloc(ns, sizeof(Term));
    for(int i=0; i<ng; i++) TG[i] = t_term(G[i], NULL);
    for(int i=0; i<ns; i++) TS[i] = t_term(S[i], NULL);
    for(int i=0; i<ng; i++) { if(!vf_case()) continue; for(int j=0; j<ns; j++) one(G[i], S[j], &TG[i], &TS[j]); vf_stats.states++; if(i % 2000 == 77) vf_sample("general %s against %d specific terms", t_str(G[i]), ns); }
    /* the same variable at every pair of places of larger terms */
    static const char *fr[] = { "<(%s * %s) --> (%s * %s)>", "<<%s --> %s> ==> <%s --> %s>>", "<(<%s --> a> && %s) ==> <%s --> %s>>", "((%s &/ %s) &/ <({SELF} * %s) --> %s>)" };
    static const char *gv[] = { "$1", "#1", "?1", "$2", "x" }, *sv[] = { "x", "y", "(x * y)", "$1", "{x}" };
    for(int f=0; f<4; f++) for(int p=0; p<625; p++)
    {
        if(!vf_case()) continue;
        const char *a[4]; int x = p; for(int i=0; i<4; i++) { a[i] = gv[x % 5]; x /= 5; }
        char tg[300]; sprintf(tg, fr[f], a[0], a[1], a[2], a[3]);
        Term g; { char nm[4][4]; (void) nm; char c[300]; strcpy(c, tg); g = Narsese_Term(c); } N *gn = t_dec(&g, 1);
        for(int h=0; h<4; h++) for(int q=0; q<625; q++)
        {
            if(h != f && q) break;
            x = q; const char *b[4]; for(int i=0; i<4; i++) { b[i] = sv[x % 5]; x /= 5; }
            char s[300]; sprintf(s, fr[h], b[0], b[1], b[2], b[3]); Term t = Narsese_Term(s); N *sn = t_dec(&t, 1);
            one(gn, sn, &g, &t); t_free(sn);
        }
        t_free(gn); vf_stats.states++;
    }
    /* bindings applied to another term: positions at every depth, values of every depth */
    N *X[200]; int nx = 0; N *lf = t_leaf("a"); X[nx++] = lf; X[nx++] = t_leaf("$1");
    for(int d=1; d<=5; d++) for(int dir=0; dir<3; dir++) { N *c = t_leaf(dir == 2 ? "#1" : "b"); for(int k=0; k<d; k++) { bool right = dir == 1 || (dir == 2 && k & 1); c = right ? t_mk(6, lf, c) : t_mk(6, c, lf); } X[nx++] = c; }
    Term pat; { char c[] = "<$1 --> #1>"; pat = Narsese_Term(c); }
    for(int x=0; x<nx; x++) for(int y=0; y<nx; y++)
    {
        if(!vf_case()) continue;
        N *sp = t_mk(0, X[x], X[y]); bool fit; Term ts = t_term(sp, &fit); if(!fit) continue;
        Substitution sub = Variable_Unify(&pat, &ts); VF_CHECK(sub.success, "<$1 --> #1> does not match %s", t_str(sp));
        memset(env, 0, sizeof env); env[1] = X[x]; env[11] = X[y];
        for(int d=0; d<=5; d++) for(int dir=0; dir<(1<<d); dir++) for(int v=0; v<4; v++)
        {
            N *c = t_leaf(v & 1 ? "#1" : "$1"), *sib = t_leaf(v & 2 ? "#1" : "e"); for(int k=0; k<d; k++) c = dir >> k & 1 ? t_mk(6, sib, c) : t_mk(6, c, sib);
            Term h = t_term(c, NULL); N *w = subst(c); bool fits; Term want = t_term(w, &fits);
            vf_desc("$1 = %s, #1 = %s applied to %s", t_str(X[x]), t_str(X[y]), t_str(c));
            bool ok; Term got = Variable_ApplySubstitute(h, sub, &ok);
            VF_CHECK(ok == fits, "the application %s although the result %s", ok ? "succeeds" : "fails", fits ? "fits" : "exceeds the term size");
            if(ok) VF_CHECK(!memcmp(got.atoms, want.atoms, sizeof want.atoms) && Term_Equal(&got, &want), "the result is %s", t_raw(&got));
            vf_stats.transitions++; vf_stats.nontrivial++;
        }
        vf_stats.states++;
    }
    vf_stats.validated = vf_stats.transitions;
    return 0;
}
