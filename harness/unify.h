/* Reference matcher on trees (general term with variables against a specific one) and substitution. */
#ifndef UNIFY_H
#define UNIFY_H
#include "terms.h"
static N *env[40];
static int vid(const char *s) { return (s[0] == '$' ? 0 : s[0] == '#' ? 10 : 20) + s[1] - '0'; }
/* graded matching of leaves (measured values), where asked for: the product of the grades */
static bool (*near_)(const char *a, const char *b, double *f); static bool near_on; static double near_f;
static bool match(N *g, N *s, bool q)
{
    if(!g || !s) return g == s;
    if(!g->cop)
    {
        if(t_isvar(g->name) && (!q || g->name[0] == '?'))
        {
            if(g->name[0] == '?' && !s->cop && t_isvar(s->name)) return false;
            int v = vid(g->name);
            if(env[v]) return t_eq(env[v], s);
            env[v] = s; return true;
        }
        if(s->cop) return false;
        if(!strcmp(g->name, s->name)) return true;
        double f; if(!near_on || !near_(g->name, s->name, &f) || f <= 0) return false;
        near_f *= f; return true;
    }
    return g->cop == s->cop && match(g->l, s->l, q) && match(g->r, s->r, q);
}
static N *subst(N *g) { if(!g) return NULL; if(!g->cop) return t_isvar(g->name) && env[vid(g->name)] ? env[vid(g->name)] : g; return t_c(g->cop, subst(g->l), subst(g->r)); }
static bool unify(N *g, N *s) { memset(env, 0, sizeof env); return match(g, s, false); }
static bool unify_near(N *g, N *s, double *f) { near_on = near_ != NULL; near_f = 1; bool r = unify(g, s); near_on = false; *f = near_f; return r; }
/* a reader of trees of its own: (a cop b), (cop a b), (cop a), <a cop b>, {a b}, [a b] */
static const char *t_pp;
static void t_ws(void) { while(*t_pp == ' ' || *t_pp == ',') t_pp++; }
static char t_cop2(bool unary)
{
    const char *e = t_pp; while(*e && *e != ' ' && *e != ',' && *e != ')' && *e != '>') e++;
    if(e - t_pp >= 2 && e[-1] == '-' && *e == '>') e++; /* arrows end in > */
    else if(*e == '>' && (e[-1] == '-' || e[-1] == '=' || e[-1] == '/')) e++;
    int l = e - t_pp; char c = 0;
    if(l == 1 && *t_pp == '!') c = '!';
    for(int i=0; i<NCOPS && !c; i++) if((int) strlen(COPS[i].t) == l && !strncmp(COPS[i].t, t_pp, l) && (COPS[i].kind == 'u') == unary && COPS[i].kind != 'S') c = COPS[i].c;
    if(c) t_pp = e;
    return c;
}
static N *t_read0(void)
{
    t_ws();
    if(*t_pp == '{' || *t_pp == '[')
    {
        char c = *t_pp++ == '{' ? '"' : '\''; N *a = t_read0(), *b = NULL; t_ws();
        if(*t_pp != '}' && *t_pp != ']') b = t_read0();
        t_ws(); t_pp++; return t_c(c, a, b);
    }
    if(*t_pp == '(' || *t_pp == '<')
    {
        t_pp++; t_ws(); const char *s = t_pp; char c = t_cop2(false), u = 0;
        if(c) { N *a = t_read0(); t_ws(); if(*t_pp == ')' || *t_pp == '>') { t_pp = s; u = t_cop2(true); a = t_read0(); t_ws(); t_pp++; return t_c(u, a, NULL); } N *b = t_read0(); t_ws(); t_pp++; return t_c(c, a, b); }
        u = t_cop2(true);
        if(u) { N *a = t_read0(); t_ws(); t_pp++; return t_c(u, a, NULL); }
        N *a = t_read0(); t_ws(); c = t_cop2(false); if(!c) { fprintf(stderr, "bad term at %s\n", t_pp); abort(); }
        N *b = t_read0(); t_ws(); t_pp++; return t_c(c, a, b);
    }
    const char *e = t_pp; while(*e && !strchr(" ,)>}]", *e)) e++;
    if(e == t_pp) { fprintf(stderr, "bad atom at %s\n", t_pp); abort(); }
    char *nm = strndup(t_pp, e - t_pp); t_pp = e; return t_leaf(nm);
}
static N *t_read(const char *s) { t_pp = s; return t_read0(); }
#endif
