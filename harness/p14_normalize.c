/* P14: term shapes with up to 6 leaf places, every filling with constants and variables of every kind under every naming.
 * (1) the read term is a renaming of the written one (kinds kept, distinct distinct, equal equal); (2) every consistent
 * renaming of it reads as the identical term; (3) normalising again changes nothing; (4) at the level of the reasoner a
 * statement and its renamings are one concept. */
#include "terms.h"
void Metric_send(const char* path, int value) {}
static const char *NAMES[] = { "a", "$1", "$2", "$x", "#1", "#2", "#longname", "?1", "?3", "?who" };
enum { NN = 10 };
static int kind(const char *s) { return s[0] == '$' ? 1 : s[0] == '#' ? 2 : s[0] == '?' ? 3 : 0; }
static N leafs[10];
/* shapes as strings over places 0..5 */
static const char *SH[] = { "0", "<0 --> 1>", "{0 1}", "(0 * 1)", "(-- 0)", "<0 --> (1 * 2)>", "<(0 * 1) --> 2>", "<{0} --> [1]>", "<<0 --> 1> ==> <2 --> 3>>", "<(0 * 1) --> (2 * 3)>",
    "<(<0 --> a> && 1) ==> (2 /1 3)>", "((0 &/ 1) &/ (2 &/ 3))", "<(0 &/ <(1 * 2) --> ^op>) =/> 3>", "<((0 * 1) * 2) <-> {(3 . 4) 5}>", "<(<0 --> 1> && <1 --> 2>) ==> <3 --> (4 * 5)>>", "<(0 * (1 * 2)) --> ((3 * 4) * 5)>" };
static const int NP[] = { 1,2,2,2,1,3,3,2,4,4,4,4,4,6,6,6 };
static const char *extra[20];
static void fill(const char *sh, const char **nm, char *out) { for(; *sh; sh++) { if(*sh >= '0' && *sh <= '5') { const char *b = sh; bool op = (b[1] == ' ' || b[1] == '>' || b[1] == ')' || b[1] == '}' || b[1] == ']' || !b[1]) && (sh[-1] != '/' && sh[-1] != '\\'); if(op) { out += sprintf(out, "%s", nm[*sh-'0']); continue; } } *out++ = *sh; } *out = 0; }
static Term raw(const char *text)   /* the same text with every variable replaced by a unique constant, to know the structure */
{ (void) text; return (Term){0}; }
int vf_main(void)
{
    vf_quiet(); NAR_INIT(); (void) raw; (void) extra; (void) leafs;
    int nsh = sizeof SH / sizeof *SH;
    for(int s=0; s<nsh; s++)
    {
        int np = NP[s]; long tot = 1; int base = np <= 4 ? NN : 7;
        static const int sub[] = { 1, 2, 4, 5, 0, 7, 8 };   /* names used for the six-place shapes */
        for(int i=0; i<np; i++) tot *= base;
        for(long w0=0; w0<tot; w0+=base)
        {
            if(!vf_case()) continue;
            for(long w=w0; w<w0+base; w++)
            {
                const char *nm[6]; long x = w; for(int i=0; i<np; i++) { nm[i] = NAMES[base == NN ? x % base : sub[x % base]]; x /= base; }
                char t1[400], t2[400], t3[400]; fill(SH[s], nm, t1); vf_desc("%s", t1);
                Term got = Narsese_Term(strcpy(t3, t1)); vf_stats.transitions++;
                /* structure: the same text with one constant per distinct name; places of variables then compared */
                const char *cs[6]; static const char *CON[] = { "ca", "cb", "cc", "cd", "ce", "cf" };
                for(int i=0; i<np; i++) { cs[i] = kind(nm[i]) ? CON[i] : nm[i]; for(int j=0; j<i; j++) if(kind(nm[i]) && !strcmp(nm[j], nm[i])) { cs[i] = cs[j]; break; } }
                fill(SH[s], cs, t2); Term str = Narsese_Term(t2);
                Atom map[6] = {0}, of[40] = {0};
                for(int i=0; i<COMPOUND_TERM_SIZE_MAX; i++)
                {
                    if(!str.atoms[i]) { VF_CHECK(!got.atoms[i], "structure changed: %s", t_raw(&got)); continue; }
                    const char *n = Narsese_atomNames[str.atoms[i]-1], *g = Narsese_atomNames[got.atoms[i] ? got.atoms[i]-1 : 0];
                    int k = n[0] == 'c' && n[1] >= 'a' && n[1] <= 'f' && !n[2] ? n[1]-'a' : -1;
                    if(k < 0) { VF_CHECK(str.atoms[i] == got.atoms[i], "atom %s became %s", n, g); continue; }
                    VF_CHECK(got.atoms[i] && g[0] == nm[k][0] && t_isvar(g), "variable %s became %s", nm[k], g);
                    VF_CHECK(!map[k] || map[k] == got.atoms[i], "the occurrences of %s became different variables in %s", nm[k], t_raw(&got)); map[k] = got.atoms[i];
                    int vi = (g[0] == '$' ? 0 : g[0] == '#' ? 10 : 20) + g[1]-'0';
                    VF_CHECK(!of[vi] || of[vi] == str.atoms[i], "different variables became the same variable %s in %s", g, t_raw(&got)); of[vi] = str.atoms[i];
                }
                Term again = got; Variable_Normalize(&again);
                VF_CHECK(!memcmp(again.atoms, got.atoms, sizeof got.atoms), "normalising again changes it to %s", t_raw(&again));
                /* all renamings of each kind among 4 names per kind (injective) */
                char *dn[3][6]; int nd[3] = {0}; for(int i=0; i<np; i++) { int k = kind(nm[i]); if(!k) continue; bool old = false; for(int j=0; j<nd[k-1]; j++) old |= !strcmp(dn[k-1][j], nm[i]); if(!old) dn[k-1][nd[k-1]++] = (char*) nm[i]; }
                static const char *POOL[3][4] = { {"$3","$1","$z","$2"}, {"#2","#q","#1","#9"}, {"?2","?1","?what","?7"} };
                int dk = (nd[0] > 0) + (nd[1] > 0) + (nd[2] > 0); if(!dk) continue;
                vf_stats.nontrivial++;
                for(int r=0; r<12; r++)
                {   /* rotation and reversal of the pool: covers every relative order of up to 4 names by pairs */
                    const char *rn[6];
                    for(int i=0; i<np; i++) { int k = kind(nm[i]); rn[i] = nm[i]; if(!k) continue; int j = 0; while(strcmp(dn[k-1][j], nm[i])) j++; if(nd[k-1] > 4) continue; int q = (j * (r & 4 ? 3 : 1) + r) & 3; if(r >= 8) { static const int sw[4] = {1,0,3,2}; q = sw[(j + r) & 3]; } rn[i] = POOL[k-1][q]; }
                    fill(SH[s], rn, t2); char t2c[400]; strcpy(t2c, t2);
                    Term ren = Narsese_Term(t2);
                    vf_stats.transitions++;
                    VF_CHECK(!memcmp(ren.atoms, got.atoms, sizeof got.atoms) && Term_Equal(&ren, &got), "its renaming %s reads as a different statement: %s instead of %s", t2c, t_raw(&ren), t_raw(&got));
                }
                if(w == w0 && vf_seen(s)) vf_sample("%s with its renamings", t1);
            }
            vf_stats.states++;
        }
    }
    /* up to nine variables of a kind, in every starting order; ten are rejected */
    for(int k=0; k<3; k++) for(int n=1; n<=10; n++) for(int rot=0; rot<10; rot++)
    {
        if(!vf_case()) continue;
        char text[400] = "", *p = text; static const char *nm = "123456789"; int cnt = 0;
        /* balanced tree of 16 leaves: names v_i repeated */
        char lv[16][8]; for(int i=0; i<16; i++) { int v = (i % n + rot) % 10; if(v < 9) sprintf(lv[i], "%c%c", "$#?"[k], nm[v]); else sprintf(lv[i], "%cname", "$#?"[k]); }
        (void) cnt; (void) p;
        sprintf(text, "<(((%s * %s) * (%s * %s)) * ((%s * %s) * (%s * %s))) --> (((%s * %s) * (%s * %s)) * ((%s * %s) * (%s * %s)))>", lv[0],lv[1],lv[2],lv[3],lv[4],lv[5],lv[6],lv[7],lv[8],lv[9],lv[10],lv[11],lv[12],lv[13],lv[14],lv[15]);
        char c[400]; vf_desc("%s", text); vf_stats.transitions++; vf_stats.nontrivial++;
        vf_cap_begin();
        if(VF_GUARD_BEGIN())
        {
            Term t = Narsese_Term(strcpy(c, text)); VF_GUARD_END();
            VF_CHECK(n <= 9, "ten different variables are read as %s", t_raw(&t));
            Atom a[16]; int q = 0; for(int i=0; i<COMPOUND_TERM_SIZE_MAX; i++) if(t.atoms[i] && kind(Narsese_atomNames[t.atoms[i]-1]) && Narsese_atomNames[t.atoms[i]-1][1]) a[q++] = t.atoms[i];
            VF_CHECK(q == 16, "%d variable places instead of 16: %s", q, t_raw(&t));
            for(int i=0; i<16; i++) for(int j=0; j<i; j++) VF_CHECK((a[i] == a[j]) == !strcmp(lv[i], lv[j]), "places %d and %d (%s, %s) became %s and %s", i, j, lv[i], lv[j], Narsese_atomNames[a[i]-1], Narsese_atomNames[a[j]-1]);
        }
        else VF_CHECK(n == 10, "rejected although it has only %d variables: %.200s", n, vf_cap());
        vf_quiet();
    }
    /* the reasoner: a statement and its renamings are one concept, with pooled evidence; other statements are others */
    static const char *ST[] = { "<<%1 --> a> ==> <%1 --> b>>", "<<%1 --> a> ==> <%2 --> b>>", "<(<%1 --> a> && <%2 --> b>) ==> <(%2 * %1) --> c>>", "<(<%1 --> a> && <%2 --> b>) ==> <(%1 * %2) --> c>>" };
    for(int s=0; s<4; s++) for(int v1=0; v1<4; v1++) for(int v2=0; v2<4; v2++) for(int o=0; o<4; o++)
    {
        if(v1 == v2 || !vf_case()) continue;
        static const char *vn[] = { "$1", "$2", "$x", "$y" };
        char a[400], b[400], c[400];
        #define INST(dst, src, x, y) do { char *_p = dst; for(const char *_s = src; *_s; _s++) if(*_s == '%') { _p += sprintf(_p, "%s", *++_s == '1' ? x : y); } else *_p++ = *_s; *_p = 0; } while(0)
        INST(a, ST[s], "$1", "$2"); INST(b, ST[s], vn[v1], vn[v2]); INST(c, ST[o], vn[v2], vn[v1]);
        vf_desc("reasoner: %s then %s then %s", a, b, c);
        NAR_INIT(); char l[500];
        sprintf(l, "%s. {1.0 0.5}", a); NAR_AddInputNarsese(l);
        Term ta = Narsese_Term(a); Concept *ca = Memory_FindConceptByTerm(&ta); VF_CHECK(ca, "the statement %s has no concept", a);
        double c1 = ca->belief.truth.confidence;
        sprintf(l, "%s. {1.0 0.5}", b); NAR_AddInputNarsese(l);
        Term tb = Narsese_Term(b); VF_CHECK(Memory_FindConceptByTerm(&tb) == ca, "the renaming %s is another concept", b);
        VF_CHECK(ca->belief.truth.confidence > c1, "the evidence of the renaming is not pooled: %f after %f", ca->belief.truth.confidence, c1);
        double c2 = ca->belief.truth.confidence;
        sprintf(l, "%s. {1.0 0.5}", c); NAR_AddInputNarsese(l);
        Term tc = Narsese_Term(c); VF_CHECK((Memory_FindConceptByTerm(&tc) == ca) == (s == o), "%s is %s concept as %s", c, s == o ? "not the same" : "the same", a);
        VF_CHECK((ca->belief.truth.confidence > c2) == (s == o), "evidence of %s is %s", c, s == o ? "not pooled" : "pooled with it");
        vf_stats.transitions += 3; vf_stats.nontrivial++;
    }
    vf_stats.validated = vf_stats.transitions;
    return 0;
}
