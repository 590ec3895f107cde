/* Reference term trees: independent of the reader/printer of the code under test. */
#ifndef TERMS_H
#define TERMS_H
#include "vf.h"
#include "NAR.h"
typedef struct N { char cop; const char *name; struct N *l, *r; } N;   /* cop 0: atom */
/* copulas: canonical char, text; kinds: 's' statement, 'c' compound, 'u' unary prefix, 'S' set */
typedef struct { char c; const char *t; char kind; } Cop;
static const Cop COPS[] = {
    {':',"-->",'s'}, {'=',"<->",'s'}, {'?',"==>",'s'}, {'^',"<=>",'s'}, {'$',"=/>",'s'}, {',',"|->",'s'},
    {'*',"*",'c'}, {'&',"&",'c'}, {'|',"|",'c'}, {'-',"-",'c'}, {'~',"~",'c'}, {';',"&&",'c'}, {'_',"||",'c'}, {'+',"&/",'c'},
    {'/',"/1",'c'}, {'%',"/2",'c'}, {'\\',"\\1",'c'}, {'#',"\\2",'c'}, {'.',".",'c'},
    {'"',"{",'S'}, {'\'',"[",'S'},
    {'!',"--",'u'}, {'*',"*",'u'}, {'+',"+",'u'}, {'=',"=",'u'}, {'"',"{",'u'}, {'\'',"[",'u'} };
#define NCOPS ((int) (sizeof COPS / sizeof *COPS))
static N *t_leaf(const char *name) { N *n = malloc(sizeof *n); n->cop = 0; n->name = name; n->l = n->r = NULL; return n; }
static N *t_mk(int cop, N *l, N *r) { N *n = malloc(sizeof *n); n->cop = COPS[cop].c; n->name = NULL; n->l = l; n->r = COPS[cop].kind == 'u' ? NULL : r; return n; }
static N *t_c(char cop, N *l, N *r) { N *n = malloc(sizeof *n); n->cop = cop; n->name = NULL; n->l = l; n->r = r; return n; }
static void t_set(N *n, int cop, N *l, N *r) { n->cop = COPS[cop].c; n->name = NULL; n->l = l; n->r = COPS[cop].kind == 'u' ? NULL : r; }
static bool t_isvar(const char *s) { return (s[0] == '$' || s[0] == '#' || s[0] == '?') && s[1] >= '1' && s[1] <= '9' && !s[2]; }
static bool t_eq(N *a, N *b) { if(!a || !b) return a == b; if(a->cop != b->cop) return false; return a->cop ? t_eq(a->l, b->l) && t_eq(a->r, b->r) : !strcmp(a->name, b->name); }
static int t_depth(N *a) { if(!a || !a->cop) return 0; int l = t_depth(a->l), r = t_depth(a->r); return 1 + (l > r ? l : r); }
static const char *t_coptext(N *n) { for(int i=0; i<NCOPS; i++) if(COPS[i].c == n->cop && (n->r != NULL) == (COPS[i].kind != 'u')) return COPS[i].t; return "?"; }
static bool t_stmt(char c) { return c == ':' || c == '=' || c == '?' || c == '^' || c == '$' || c == ','; }
/* notations: 0 usual infix, 1 prefix, 2 prefix with commas, 3 infix with swapped brackets and wide spacing, 4 usual infix, sets with commas */
#define NOTATIONS 5
static char *t_print(N *n, int not, char *p)
{
    if(!n->cop) return p + sprintf(p, "%s", n->name);
    if(n->cop == '"' || n->cop == '\'')
    {
        *p++ = n->cop == '"' ? '{' : '[';
        if(not == 3) *p++ = ' ';
        p = t_print(n->l, not, p);
        if(n->r) { *p++ = not == 4 || not == 2 ? ',' : ' '; p = t_print(n->r, not, p); }
        if(not == 3) *p++ = ' ';
        *p++ = n->cop == '"' ? '}' : ']'; *p = 0; return p;
    }
    bool unary = !n->r, pre = unary || not == 1 || not == 2, angle = (t_stmt(n->cop) && !unary) != (not == 3);
    if(pre && not != 0 && not != 4) angle = false;
    if(pre) angle = false;
    const char *c = t_coptext(n), *sep = not == 2 ? "," : (not == 3 ? "  " : " ");
    *p++ = angle ? '<' : '(';
    if(not == 3) *p++ = ' ';
    if(pre) { p += sprintf(p, "%s%s", c, sep); p = t_print(n->l, not, p); if(!unary) { p += sprintf(p, "%s", sep); p = t_print(n->r, not, p); } }
    else { p = t_print(n->l, not, p); p += sprintf(p, "%s%s%s", sep, c, sep); p = t_print(n->r, not, p); }
    if(not == 3) *p++ = ' ';
    *p++ = angle ? '>' : ')'; *p = 0; return p;
}
static char t_buf[8][6000]; static int t_bufi;
static char *t_str(N *n) { char *b = t_buf[t_bufi++ & 7]; *b = 0; if(n) t_print(n, 0, b); return b; }
static Atom t_copatom(char c) { char s[2] = { c, 0 }; return Narsese_AtomicTermIndex(s); }
/* encode at heap index i (1-based); false if it does not fit the term size */
static bool t_enc(N *n, Atom *a, long i)
{
    if(i > COMPOUND_TERM_SIZE_MAX) return false;
    if(!n) { a[i-1] = t_copatom('@'); return true; }
    if(!n->cop) { a[i-1] = Narsese_AtomicTermIndex((char*) n->name); return true; }
    a[i-1] = t_copatom(n->cop);
    bool x = t_enc(n->l, a, 2*i), y = t_enc(n->r, a, 2*i+1);
    return x && y;
}
static Term t_term(N *n, bool *fits) { Term t; memset(&t, 0, sizeof t); bool f = t_enc(n, t.atoms, 1); if(fits) *fits = f; return t; }
/* the tree of a term (NULL if malformed) */
static N *t_dec(Term *t, int i)
{
    Atom a = i <= COMPOUND_TERM_SIZE_MAX ? t->atoms[i-1] : 0;
    if(!a) return NULL;
    bool kids = 2*i+1 <= COMPOUND_TERM_SIZE_MAX && (t->atoms[2*i-1] || t->atoms[2*i]);
    N *n = malloc(sizeof *n); n->l = n->r = NULL; n->cop = 0; n->name = Narsese_atomNames[a-1];
    if(kids) { n->cop = n->name[0]; n->name = NULL; n->l = t_dec(t, 2*i); n->r = t->atoms[2*i] == t_copatom('@') ? NULL : t_dec(t, 2*i+1); }
    return n;
}
static void t_free(N *n) { if(n) { t_free(n->l); t_free(n->r); free(n); } }
/* equal up to a kind-preserving bijection between variables? */
static bool t_iso(const Atom *x, const Atom *y)
{
    Atom f[32] = {0}, g[32] = {0};
    for(int i=0; i<COMPOUND_TERM_SIZE_MAX; i++)
    {
        if(!x[i] || !y[i]) { if(x[i] != y[i]) return false; continue; }
        const char *a = Narsese_atomNames[x[i]-1], *b = Narsese_atomNames[y[i]-1];
        if(t_isvar(a) && t_isvar(b))
        {
            int ka = (a[0] == '$' ? 0 : a[0] == '#' ? 10 : 20) + a[1] - '0', kb = (b[0] == '$' ? 0 : b[0] == '#' ? 10 : 20) + b[1] - '0';
            if(a[0] != b[0] || (f[ka] && f[ka] != y[i]) || (g[kb] && g[kb] != x[i])) return false;
            f[ka] = y[i]; g[kb] = x[i];
        }
        else if(x[i] != y[i]) return false;
    }
    return true;
}
static char *t_raw(Term *t) { char *b = t_buf[t_bufi++ & 7], *p = b; *p = 0; for(int i=0; i<COMPOUND_TERM_SIZE_MAX; i++) if(t->atoms[i]) p += sprintf(p, "%d:%s ", i+1, Narsese_atomNames[t->atoms[i]-1]); return b; }
#endif
