/* P16: variable introduction over all implications / equivalences / temporal implications / conjunctions built from
 * component statements over a small alphabet (plain, product, image, set and operation statements, with and without
 * variables already present, sequences and nested conjunctions). Oracle: the result with each new variable replaced by
 * its constant is the original; freshness, bijection, repetition; for plain inheritances the exact set of replaced constants. */
#include "terms.h"
void Metric_send(const char* path, int value) {}
static bool simple(const char *s) { return s[0] == '^' ? s[1] != 0 : (s[0] >= 'a' && s[0] <= 'z') || (s[0] >= 'A' && s[0] <= 'Z') || (s[0] >= '0' && s[0] <= '9'); }
static int cntin(Term *t, Atom a) { int n = 0; for(int i=0; i<COMPOUND_TERM_SIZE_MAX; i++) n += t->atoms[i] == a; return n; }
/* plain: repeated subjects (extensional) / predicates (intensional) */
static void cnt_plain(N *n, bool ext, const char *name, int *k) { if(n->cop == ':') { N *s = ext ? n->l : n->r; if(!s->cop && !strcmp(s->name, name)) ++*k; } else if(n->cop == '=') { if(!n->l->cop && !strcmp(n->l->name, name)) ++*k; if(!n->r->cop && !strcmp(n->r->name, name)) ++*k; } else if(n->cop) { cnt_plain(n->l, ext, name, k); if(n->r) cnt_plain(n->r, ext, name, k); } }
static void check(N *n, bool ext, int side, bool plain, const char *what)
{
    bool fits; Term in = t_term(n, &fits); if(!fits) return;
    bool conj = n->cop == ';', ok = false; Term in0 = in;
    vf_stats.transitions++;
    Term out = conj ? Variable_IntroduceConjunctionVariables(in, &ok, ext) : side ? Variable_IntroduceImplicationVariables2(in, &ok, ext, side) : Variable_IntroduceImplicationVariables(in, &ok, ext);
    bool same = !memcmp(out.atoms, in.atoms, sizeof in.atoms);
    if(same && !plain) return;
    vf_desc("%s (%s%s)", t_str(n), ext ? "extensional" : "intensional", side == 1 ? ", left of products" : side == 2 ? ", right of products" : "");
    (void) what;
    Term left = Term_ExtractSubterm(&in0, 1), right = Term_ExtractSubterm(&in0, 2);
    Atom toConst[40] = {0};
    for(int i=0; i<COMPOUND_TERM_SIZE_MAX; i++)
    {
        Atom a = in0.atoms[i], b = out.atoms[i];
        if(a == b) continue;
        VF_CHECK(a && b, "structure changed: %s", t_raw(&out));
        const char *an = Narsese_atomNames[a-1], *bn = Narsese_atomNames[b-1];
        VF_CHECK(simple(an), "%s, which is not a constant, was replaced by %s", an, bn);
        VF_CHECK(t_isvar(bn) && bn[0] != '?', "constant %s was replaced by %s", an, bn);
        VF_CHECK(!cntin(&in0, b), "the introduced variable %s already occurs in the statement: %s", bn, t_str(t_dec(&out, 1)));
        int v = (bn[0] == '$' ? 0 : 10) + bn[1]-'0';
        VF_CHECK(!toConst[v] || toConst[v] == a, "the constants %s and %s both became %s: %s", an, Narsese_atomNames[toConst[v]-1], bn, t_str(t_dec(&out, 1)));
        toConst[v] = a;
        VF_CHECK(cntin(&in0, a) >= 2, "the constant %s occurs once and was generalised: %s", an, t_str(t_dec(&out, 1)));
        if(conj) VF_CHECK(bn[0] == '#', "independent variable in a conjunction: %s", t_str(t_dec(&out, 1)));
        else if(bn[0] == '$') VF_CHECK(cntin(&left, a) && cntin(&right, a), "independent variable for %s, which is on one side only: %s", an, t_str(t_dec(&out, 1)));
        for(int j=0; j<COMPOUND_TERM_SIZE_MAX; j++) if(in0.atoms[j] == a) VF_CHECK(out.atoms[j] == b, "the constant %s became %s at one place and %s at another: %s", an, bn, Narsese_atomNames[out.atoms[j]-1], t_str(t_dec(&out, 1)));
        if(an[0] == '^') VF_CHECK(!ext, "the operator %s was replaced by a variable: %s", an, t_str(t_dec(&out, 1)));
    }
    Term h = out; h.hashed = false; VF_CHECK(Term_Hash(&h) == Term_Hash(&out), "the result carries the hash of another term");
    if(!same) vf_stats.nontrivial++;
    if(plain)
    {
        static const char *consts[] = { "a", "b", "c" };
        for(int c=0; c<3; c++)
        {
            int l = 0, r = 0; Atom a = Narsese_AtomicTermIndex((char*) consts[c]);
            if(conj) cnt_plain(n, ext, consts[c], &l); else { cnt_plain(n->l, ext, consts[c], &l); cnt_plain(n->r, ext, consts[c], &r); }
            bool want = l >= 2 || r >= 2 || (l && r), indep = !conj && l && r;
            bool did = cntin(&in0, a) && !cntin(&out, a);
            VF_CHECK(did == (want && cntin(&in0, a)), "the constant %s is %s: %s", consts[c], did ? "generalised although not repeated in that role" : "not generalised although repeated in that role", t_str(t_dec(&out, 1)));
            if(did) for(int i=0; i<COMPOUND_TERM_SIZE_MAX; i++) if(in0.atoms[i] == a) VF_CHECK((Narsese_atomNames[out.atoms[i]-1][0] == '$') == indep, "%s became %s: %s", consts[c], Narsese_atomNames[out.atoms[i]-1], t_str(t_dec(&out, 1)));
        }
    }
}
static N *parse(const char *s) { char c[400]; strcpy(c, s); Term t = Narsese_Term(c); return t_dec(&t, 1); }
/* trees with variables must keep their written names (also not normalised ones): build without Narsese_Term */
static N *rd(const char **p)
{
    while(**p == ' ') ++*p;
    if(**p == '(' || **p == '<' || **p == '{' || **p == '[')
    {
        char o = *(*p)++; N *k[3]; int n = 0; char cop[8] = "";
        for(;;) { while(**p == ' ') ++*p; if(strchr(")}]", **p) || (**p == '>' )) { ++*p; break; }
            int isc = 0; for(int i=0; i<NCOPS && !isc; i++) { int l = strlen(COPS[i].t); if(!strncmp(*p, COPS[i].t, l) && ((*p)[l] == ' ') && COPS[i].kind != 'S') { strcpy(cop, COPS[i].t); *p += l; isc = 1; } }
            if(!isc) k[n++] = rd(p); }
        char c = o == '{' ? '"' : o == '[' ? '\'' : 0; if(!c) for(int i=0; i<NCOPS; i++) if(!strcmp(COPS[i].t, cop)) { c = COPS[i].c; break; }
        return t_c(c, k[0], n > 1 ? k[1] : NULL);
    }
    char *nm = malloc(40); int l = 0; while(!strchr(" )>}]", **p)) nm[l++] = *(*p)++; nm[l] = 0; return t_leaf(nm);
}
static N *tree(const char *s) { const char *p = s; return rd(&p); }
int vf_main(void)
{
    vf_quiet(); NAR_INIT(); (void) parse;
    /* plain statements over 3 constants: all triples in implication with conjunction/sequence on the left */
    static const char *at[] = { "a", "b", "c" };
    N *P[60]; int np = 0; for(int i=0; i<3; i++) for(int j=0; j<3; j++) { P[np++] = t_c(':', t_leaf(at[i]), t_leaf(at[j])); } int ninh = np; for(int i=0; i<3; i++) for(int j=0; j<3; j++) P[np++] = t_c('=', t_leaf(at[i]), t_leaf(at[j]));
    static const char heads[] = { '?', '^', '$' };
    for(int x=0; x<np; x++) for(int y=0; y<np; y++)
    {
        if(!vf_case()) continue;
        for(int ext=0; ext<2; ext++)
        {
            for(int h=0; h<3; h++) check(t_c(heads[h], P[x], P[y]), ext, 0, true, "plain");
            check(t_c(';', P[x], P[y]), ext, 0, true, "plain");
            for(int z=0; z<np; z++)
            {
                for(int h=0; h<3; h++) { check(t_c(heads[h], t_c(h == 2 ? '+' : ';', P[x], P[y]), P[z]), ext, 0, true, "plain"); check(t_c(heads[h], P[x], t_c(';', P[y], P[z])), ext, 0, true, "plain"); }
                check(t_c(';', t_c(';', P[x], P[y]), P[z]), ext, 0, true, "plain");
                for(int w=0; w<ninh; w++) { check(t_c('?', t_c(';', t_c(';', P[x], P[y]), P[z]), P[w]), ext, 0, true, "plain"); check(t_c('$', t_c('+', t_c('+', P[x], P[y]), P[z]), P[w]), ext, 0, true, "plain"); check(t_c(';', t_c(';', P[x], P[y]), t_c('!', t_c(';', P[z], P[w]), NULL)), ext, 0, true, "plain"); }
            }
        }
        vf_stats.states++;
    }
    /* richer component statements, with existing variables in any numbering */
    static const char *R[] = { "<a --> b>", "<b --> a>", "<a --> [c]>", "<{a} --> [c]>", "<{a} --> b>", "<(a * b) --> r>", "<(b * a) --> r>", "<({a} * {b}) --> r>", "<a --> (r /1 b)>", "<a --> (r /2 b)>", "<(r \\1 b) --> a>", "<{a b} --> c>", "<a <-> b>", "<a --> (b & c)>", "<(a | b) --> c>",
        "<$1 --> a>", "<$2 --> a>", "<a --> $1>", "<#1 --> a>", "<#2 --> a>", "<(#2 * a) --> r>", "<($1 * $3) --> a>", "<a --> #1>", "<{a} |-> b>", "<({SELF} * a) --> ^op>", "<({SELF} * {a}) --> ^go>", "^op", "(-- <a --> b>)", "<{SELF} --> [c]>", "<(b * (a * b)) --> c>", "a", "<r --> c>" };
    enum { NRR = sizeof R / sizeof *R }; N *T[NRR]; for(int i=0; i<NRR; i++) T[i] = tree(R[i]);
    for(int x=0; x<NRR; x++) for(int y=0; y<NRR; y++)
    {
        if(!vf_case()) continue;
        for(int ext=0; ext<2; ext++) for(int side=0; side<3; side++)
        {
            for(int h=0; h<3; h++) check(t_c(heads[h], T[x], T[y]), ext, side, false, "");
            if(!side) { check(t_c(';', T[x], T[y]), ext, 0, false, ""); }
            for(int z=0; z<NRR; z++)
            {
                for(int h=0; h<3; h++) { check(t_c(heads[h], t_c(h == 2 ? '+' : ';', T[x], T[y]), T[z]), ext, side, false, ""); }
                if(!side) check(t_c(';', t_c(';', T[x], T[y]), T[z]), ext, 0, false, "");
                for(int w=0; w<NRR; w++) { check(t_c('$', t_c('+', t_c('+', T[x], T[y]), T[z]), T[w]), ext, side, false, ""); check(t_c('?', t_c(';', T[x], T[y]), t_c(';', T[z], T[w])), ext, side, false, ""); }
            }
        }
        if(x == 5 && y == 8) vf_sample("%s", t_str(t_c('?', T[x], T[y])));
        vf_stats.states++;
    }
    vf_stats.validated = vf_stats.transitions;
    return 0;
}
