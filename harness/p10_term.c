/* P10: all term trees up to depth 3 over two labels (leaf / one child / two children at every node), all host
 * shapes reaching every one of the 64 positions, all (host, position, subterm) writes and (host, position) reads,
 * all pairs compared under every hashed/unhashed/built-differently combination; oracle: a pointer tree. */
#include "vf.h"
#include "NAR.h"
void Metric_send(const char* path, int value) {}
typedef struct Nd { Atom a; struct Nd *l, *r; } Nd;
static Nd *mk(Atom a, Nd *l, Nd *r) { Nd *n = malloc(sizeof *n); n->a = a; n->l = l; n->r = r; return n; }
static bool eq(Nd *a, Nd *b) { return !a || !b ? a == b : a->a == b->a && eq(a->l, b->l) && eq(a->r, b->r); }
static int cnt(Nd *a) { return a ? 1 + cnt(a->l) + cnt(a->r) : 0; }
static bool has(Nd *a, Atom x) { return a && (a->a == x || has(a->l, x) || has(a->r, x)); }
/* heap layout of a tree with its root at position p (0-based); false if it does not fit */
static bool lay(Nd *n, long p, Atom *out) { if(!n) return true; if(p >= COMPOUND_TERM_SIZE_MAX) return false; out[p] = n->a; bool b1 = lay(n->l, 2*p+1, out), b2 = lay(n->r, 2*p+2, out); return b1 && b2; }
static Term build(Nd *n) { Term t; memset(&t, 0, sizeof t); if(!lay(n, 0, t.atoms)) abort(); return t; }
static Nd **at(Nd **n, int p) { if(p == 0) return n; Nd **q = at(n, (p-1)/2); if(!q || !*q) return NULL; return p & 1 ? &(*q)->l : &(*q)->r; }
static Nd *clone(Nd *n) { return n ? mk(n->a, clone(n->l), clone(n->r)) : NULL; }
static void fre(Nd *n) { if(n) { fre(n->l); fre(n->r); free(n); } }
static char sb[2][2000]; static char *sp(Nd *n, char *p) { if(!n) return p; p += sprintf(p, "%c", 'A'+n->a-1); if(n->l || n->r) { *p++ = '('; p = sp(n->l, p); if(n->r) { *p++ = ' '; p = sp(n->r, p); } *p++ = ')'; } *p = 0; return p; }
static char *str(Nd *n, int k) { sb[k][0] = 0; sp(n, sb[k]); return sb[k]; }
static Nd **T; static int n; static Nd **H; static int nh;
static void same(Term *t, Nd *want, const char *what)
{
    Term w = build(want);
    for(int i=0; i<COMPOUND_TERM_SIZE_MAX; i++) VF_CHECK(t->atoms[i] == w.atoms[i], "%s: position %d holds %d, expected %d", what, i, t->atoms[i], w.atoms[i]);
    Term c = *t; c.hashed = false; c.hash = 0;
    VF_CHECK(Term_Equal(t, &w) && Term_Equal(&w, t), "%s: does not compare equal to the same term built directly", what);
    VF_CHECK(Term_Hash(t) == Term_Hash(&w), "%s: hash differs from that of the same term built directly", what);
}
int vf_main(void)
{
    vf_quiet(); NAR_INIT();
    int depth = 3, cap = 1000; (void) depth;
    T = malloc(200000*sizeof *T); T[n++] = mk(1,0,0); T[n++] = mk(2,0,0);
    for(int d=0, s=0; d<2; d++) { int e = n; for(int a=1; a<=2; a++) { for(int i=0; i<e; i++) if(i >= s) T[n++] = mk(a, T[i], NULL); for(int i=0; i<e; i++) for(int j=0; j<e; j++) if(i >= s || j >= s) T[n++] = mk(a, T[i], T[j]); } s = e; }
    int ntree = n;
    /* hosts: all trees of depth <= 2 and, for every position, the path to it with and without sibling leaves */
    H = malloc(2000*sizeof *H); for(int i=0; i<14; i++) H[nh++] = T[i];
    static int only_at[2000]; for(int i=0; i<14; i++) only_at[i] = -1;
    for(int p=1; p<COMPOUND_TERM_SIZE_MAX; p++) for(int sib=0; sib<3; sib++)
    {
        Nd *h = NULL; int path[10], k = 0; for(int q=p; ; q=(q-1)/2) { path[k++] = q; if(!q) break; }
        for(int i=k-1; i>=1; i--) { *at(&h, path[i]) = mk(1 + (i&1), 0, 0); }
        if(sib) for(int i=k-2; i>=0; i--) { int s = path[i] & 1 ? path[i]+1 : path[i]-1; if(s < COMPOUND_TERM_SIZE_MAX) *at(&h, s) = mk(2, 0, 0); }
        if(sib == 2) *at(&h, p) = mk(2, 0, 0);     /* position holds an atom; otherwise it is empty */
        only_at[nh] = p; H[nh++] = h;
    }
    /* writes */
    for(int h=0; h<nh; h++)
    {
        if(!vf_case()) continue;
        vf_stats.states++;
        for(int p=0; p<COMPOUND_TERM_SIZE_MAX; p++)
        {
            if(only_at[h] >= 0 && p != only_at[h]) continue;
            Nd *hh = clone(H[h]); Nd **pos = at(&hh, p);
            if(!pos || (*pos && ((*pos)->l || (*pos)->r)) ) { fre(hh); continue; }   /* no parent, or a compound: not a place terms are written to */
            if(p && !(p & 1) && !*at(&hh, p-1)) { fre(hh); continue; }
            for(int s=0; s<ntree; s++) for(int pre=0; pre<4; pre++)
            {
                Nd *old = *pos; *pos = T[s];
                Atom tmp[COMPOUND_TERM_SIZE_MAX] = {0}; bool fits = lay(hh, 0, tmp);
                Term t = build(H[h]), sub = build(T[s]), sub0;
                if(pre & 1) Term_Hash(&t); if(pre & 2) Term_Hash(&sub);
                sub0 = sub;
                vf_desc("write %s at position %d of %s (hashed before: host %d, subterm %d)", str(T[s], 0), p, str(H[h], 1), pre&1, pre>>1);
                bool ok = Term_OverrideSubterm(&t, p, &sub);
                vf_stats.transitions++;
                VF_CHECK(ok == fits, "the write is %s although it %s", ok ? "accepted" : "refused", fits ? "fits" : "does not fit");
                VF_CHECK(!memcmp(&sub, &sub0, sizeof sub), "the written subterm itself changed");
                if(ok)
                {
                    same(&t, hh, "after the write");
                    Term e = Term_ExtractSubterm(&t, p); same(&e, T[s], "subterm read back");
                    if(T[s]->l) vf_stats.nontrivial++;
                }
                *pos = old;
            }
            fre(hh);
        }
        /* reads */
        for(int p=0; p<130; p++) for(int pre=0; pre<2; pre++)
        {
            Nd *hh = H[h]; Nd **pos = p < COMPOUND_TERM_SIZE_MAX ? at(&hh, p) : NULL;
            Term t = build(H[h]); if(pre) Term_Hash(&t);
            Term t0 = t;
            vf_desc("read position %d of %s", p, str(H[h], 1));
            Term e = Term_ExtractSubterm(&t, p); vf_stats.transitions++;
            VF_CHECK(!memcmp(&t, &t0, sizeof t), "reading changed the term");
            if(pos && *pos) same(&e, *pos, "subterm read"); else for(int i=0; i<COMPOUND_TERM_SIZE_MAX; i++) VF_CHECK(e.atoms[i] == 0, "reading an empty place yields atom %d at %d", e.atoms[i], i);
        }
        if(h % 40 == 0) vf_sample("host %s: all subterms of %d written, all positions read", str(H[h], 0), ntree);
    }
    /* comparison of all pairs; ways: direct, assembled by writes, extracted from a larger term; each hashed before or not */
    for(int i=0; i<ntree; i++)
    {
        if(!vf_case()) continue;
        Term w[3]; w[0] = build(T[i]);
        memset(&w[1], 0, sizeof(Term)); w[1].atoms[0] = 3; Term_Hash(&w[1]); w[1].atoms[0] = 0; Term_OverrideSubterm(&w[1], 0, &w[0]);
        Nd big = { 2, T[0], T[i] }; Term b = build(&big); w[2] = Term_ExtractSubterm(&b, 2);
        VF_CHECK(Term_Complexity(&w[0]) == cnt(T[i]), "complexity %d, expected %d", Term_Complexity(&w[0]), cnt(T[i]));
        for(Atom a=1; a<=3; a++) VF_CHECK(Term_HasAtom(&w[0], a) == has(T[i], a), "contains atom %d: wrong answer", a);
        for(int j=0; j<ntree; j++) for(int k=0; k<3; k++) for(int pre=0; pre<4; pre++)
        {
            Term x = w[k], y = build(T[j]); if(pre&1) Term_Hash(&x); if(pre&2) Term_Hash(&y);
            vf_desc("compare %s and %s (built by way %d, hashed before %d)", str(T[i], 0), str(T[j], 1), k, pre);
            bool e = eq(T[i], T[j]);
            VF_CHECK(Term_Equal(&x, &y) == e, "compare as %s", e ? "different" : "equal");
            if(e) VF_CHECK(Term_Hash(&x) == Term_Hash(&y), "equal terms hash differently");
            vf_stats.transitions++;
        }
        vf_stats.states++;
    }
    vf_stats.validated = vf_stats.transitions;
    (void) cap;
    return 0;
}
