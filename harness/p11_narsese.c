/* P11: every tree of depth <= 2 over all copulas/connectors (and depth 3 over a reduced set, and nesting chains in
 * every left/right direction down to the size limit) is written in every notation and read; the result must be the
 * tree's own encoding (up to variable names); printing and reading back must be the identity. */
#include "terms.h"
void Metric_send(const char* path, int value) {}
static char text[6000];
static void check_tree(N *n, int nots, bool print)
{
    bool fits; Term want = t_term(n, &fits);
    for(int k=0; k<nots; k++)
    {
        t_print(n, k, text);
        vf_desc("%s", text);
        vf_stats.transitions++;
        Term got;
        char copy[6000]; strcpy(copy, text);
        vf_cap_begin();
        if(VF_GUARD_BEGIN()) { got = Narsese_Term(copy); VF_GUARD_END();
            VF_CHECK(fits, "a term beyond the size limit is accepted as %s", t_raw(&got));
            VF_CHECK(t_iso(got.atoms, want.atoms), "read as %s, the text denotes %s", t_raw(&got), t_raw(&want)); }
        else
        {
            VF_CHECK(!fits, "a term within the size limit is rejected: %.200s", vf_cap());
            vf_count("rejected_oversize", 1);
            continue;
        }
        if(k == 0 && print)
        {
            vf_cap_begin(); Narsese_PrintTerm(&got); char out[6000]; snprintf(out, sizeof out, "%s", vf_cap());
            vf_cap_begin();
            if(VF_GUARD_BEGIN()) { Term back = Narsese_Term(out); VF_GUARD_END();
                VF_CHECK(Term_Equal(&back, &got) && !memcmp(back.atoms, got.atoms, sizeof back.atoms), "printed as %s, which reads back as the different term %s", out, t_raw(&back)); }
            else vf_fail("printed as %s, which is rejected when read back: %.200s", out, vf_cap());
            vf_stats.validated++;
        }
    }
    if(fits && n->cop) vf_stats.nontrivial++;
}
int vf_main(void)
{
    vf_quiet(); NAR_INIT();
    static const char *names[] = { "a", "$1", "bird1", "#1", "?2", "^op", "Z", "SELF", "0.5", "a_b", "$9", "#7" };
    N *leaf[12]; for(int i=0; i<12; i++) leaf[i] = t_leaf(names[i]);
    /* atoms, including the length limit */
    if(vf_case()) { for(int i=0; i<12; i++) check_tree(leaf[i], 1, true); for(int len=1; len<ATOMIC_TERM_LEN_MAX; len++) { char *s = malloc(64); memset(s, 'q', len); s[len] = 0; N *n = t_leaf(s); check_tree(n, 1, true); N *p = t_mk(6, n, n); check_tree(p, NOTATIONS, true); s = malloc(64); memset(s, 'q', len); s[len-1] = 'r'; s[len] = 0; check_tree(t_mk(0, n, t_leaf(s)), NOTATIONS, true); } }
    /* depth 1 over all leaf kinds */
    for(int c=0; c<NCOPS; c++) for(int i=0; i<12; i++) { if(!vf_case()) continue; for(int j=0; j<12; j++) { N n; t_set(&n, c, leaf[i], leaf[j]); check_tree(&n, NOTATIONS, true); } }
    /* depth 2: all */
    int nl = vf_thorough ? 4 : 3; static N *d1[4000]; int n1 = 0;
    for(int i=0; i<nl; i++) d1[n1++] = leaf[i];
    for(int c=0; c<NCOPS; c++) for(int i=0; i<nl; i++) for(int j=0; j<(COPS[c].kind == 'u' ? 1 : nl); j++) d1[n1++] = t_mk(c, leaf[i], leaf[j]);
    for(int c=0; c<NCOPS; c++) for(int i=0; i<n1; i++)
    {
        if(!vf_case()) continue;
        vf_stats.states++;
        for(int j=0; j<(COPS[c].kind == 'u' ? 1 : n1); j++) { if(i < nl && j < nl) continue; N n; t_set(&n, c, d1[i], d1[j]); check_tree(&n, vf_thorough ? NOTATIONS : 3, true); if(!vf_thorough) { t_print(&n, 3 + (j & 1), text); } if(i == 40 && j == 41) vf_sample("%s", t_str(&n)); }
    }
    /* depth 2 in the remaining notations (quick: two leaves) */
    static N *e1[1000]; int m1 = 0; for(int i=0; i<2; i++) e1[m1++] = leaf[i];
    for(int c=0; c<NCOPS; c++) e1[m1++] = t_mk(c, leaf[0], leaf[1]);
    for(int c=0; c<NCOPS; c++) for(int i=0; i<m1; i++) { if(!vf_case()) continue; for(int j=0; j<(COPS[c].kind == 'u' ? 1 : m1); j++) { N n; t_set(&n, c, e1[i], e1[j]); check_tree(&n, NOTATIONS, true); } }
    /* depth 3 over one connector of each kind of syntax */
    static const int rc[] = { 0, 4, 6, 13, 19, 21, 23, 25 }; enum { NR = 8 };
    static N *f[3][60000]; int nf[3] = {0}; for(int i=0; i<2; i++) f[0][nf[0]++] = leaf[i];
    N *A = leaf[0];
    for(int i=0; i<2; i++) f[1][nf[1]++] = leaf[i];
    for(int c=0; c<NR; c++) f[1][nf[1]++] = t_mk(rc[c], A, leaf[1]);
    for(int c=0; c<NR; c++) for(int i=0; i<nf[1]; i++) for(int j=0; j<(COPS[rc[c]].kind == 'u' ? 1 : nf[1]); j++) f[2][nf[2]++] = t_mk(rc[c], f[1][i], f[1][j]);
    for(int c=0; c<NR; c++) for(int i=0; i<nf[2]; i++)
    {
        if(!vf_case()) continue;
        vf_stats.states++;
        for(int j=0; j<(COPS[rc[c]].kind == 'u' ? 1 : nf[2]); j++) { N n; t_set(&n, rc[c], f[2][i], f[2][j]); check_tree(&n, vf_thorough ? 3 : 1, true); }
    }
    /* chains in every direction down to and beyond the size limit */
    for(int depth=3; depth<=8; depth++) for(int dir=0; dir<(1 << depth); dir++)
    {
        if(!vf_case()) continue;
        for(int c0=0; c0<NCOPS; c0++) for(int step=0; step<(vf_thorough || depth <= 6 ? NCOPS : 3); step++)
        {
            N chain[8], *cur = leaf[2];
            for(int d=depth-1; d>=0; d--)
            {
                int c = (c0 + d*step) % NCOPS; N *side = leaf[d & 1];
                if(dir >> d & 1 && COPS[c].kind != 'u') t_set(&chain[d], c, side, cur); else t_set(&chain[d], c, cur, side);
                cur = &chain[d];
            }
            check_tree(cur, 3, true);
        }
        vf_stats.states++;
    }
    return 0;
}
