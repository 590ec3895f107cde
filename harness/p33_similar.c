/* P33: hypotheses learned for one measured value are used for close values of the same attribute. Every pair of values, distance
 * scale, strength and competitor; every history over alphabets of measured conditions; each decision compared with the reference
 * evaluation of everything held at that moment, and every hypothesis held refers to its own condition throughout. */
#include "goals.h"
static struct { char name[64], meas[32]; double v; } val[64]; static int nval; static double dist_;
/* the values are those given, under the names the documentation of *setvalue gives them */
static void value_(const char *l)
{
    double v; int g; char m[32] = ""; if(!strncmp(l, "*similaritydistance=", 20)) { dist_ = atof(l + 20); return; }
    if(strncmp(l, "*setvalue ", 10)) return;
    sscanf(l + 10, "%lf %d %31s", &v, &g, m); char n[64]; sprintf(n, g <= 10 ? "%s%s%.1f" : g <= 100 ? "%s%s%.2f" : "%s%s%.3f", m, *m ? "_" : "", v);
    int i; for(i=0; i<nval && strcmp(val[i].name, n); i++); if(i == nval) nval++; if(nval > 64) abort();
    strcpy(val[i].name, n); strcpy(val[i].meas, m); val[i].v = v;
}
static bool near2(const char *a, const char *b, double *f)
{
    int i, j; for(i=0; i<nval && strcmp(val[i].name, a); i++); for(j=0; j<nval && strcmp(val[j].name, b); j++);
    if(i == nval || j == nval || strcmp(val[i].meas, val[j].meas)) return false;
    *f = 1 - fabs(val[i].v - val[j].v)/dist_; return *f > 0;
}
static long n_own;
static void own(const char *l)
{
    for(int i=0; i<concepts.itemsAmount; i++)
    {
        Concept *c = concepts.items[i].address;
        for(int o=0; o<=OPERATIONS_MAX; o++) for(int j=0; j<c->precondition_beliefs[o].itemsAmount; j++)
        {
            Implication *m = &c->precondition_beliefs[o].array[j]; if(!valid(m)) continue;
            N *ops[8]; int n; N *pre = split(tree(&m->term)->l, ops, &n), *s = tree(&((Concept*) m->sourceConcept)->term); n_own++;
            VF_CHECK(t_eq(pre, s), "the hypothesis %s refers to %s as its condition", t_str(tree(&m->term)), t_str(s));
        }
    }
}
static void in(const char *l) { value_(l); input(l); own(l); }
typedef struct { const char *pre[14]; const char *l[14]; int q, t; } Set;
#define V4 "*motorbabbling=false", "*setvalue 0.25 100 B", "*setvalue 0.5 100 B", "*setvalue 0.75 100 B", "*setvalue 1 100 B"
static const Set SETS[] = {
    /* two hypotheses of different values, conditions between them */
    { { V4, "*decisionthreshold=0.501" }, { "<(<x --> B_0.25> &/ ^left) =/> g>. {0.95 0.9}", "<(<x --> B_1.00> &/ ^right) =/> g>. {0.9 0.9}", "<(<x --> B_0.25> &/ ^right) =/> g>. {0.8 0.8}", "<x --> B_0.25>. :|:", "<x --> B_0.50>. :|: {1 0.8}", "<x --> B_0.75>. :|:", "g! :|:", "3" }, 6, 7 },
    /* another attribute with the same values, and one without value */
    { { V4, "*setvalue 0.5 100 BC", "*setvalue 0.5 10 B", "*decisionthreshold=0.501" }, { "<(<x --> B_0.50> &/ ^left) =/> g>. {0.95 0.9}", "<(<x --> BC_0.50> &/ ^right) =/> g>. {0.9 0.9}", "<(<x --> B_0.7> &/ ^up) =/> g>. {0.8 0.8}", "<x --> B_0.25>. :|:", "<x --> BC_0.50>. :|: {1 0.8}", "<x --> B_0.5>. :|:", "<x --> B_0.7>. :|: {1 0.5}", "<x --> D_0.50>. :|:", "g! :|:" }, 5, 6 },
    /* atoms which are values themselves, sets, distance of half */
    { { V4, "*similaritydistance=0.5", "*decisionthreshold=0.501" }, { "<(B_0.25 &/ ^left) =/> g>. {0.95 0.9}", "<({B_1.00} &/ ^right) =/> g>. {0.9 0.9}", "<(<{x} --> [B_0.50]> &/ ^up) =/> g>. {0.8 0.8}", "B_0.50. :|:", "{B_0.75}. :|: {1 0.8}", "B_0.75. :|:", "<{x} --> [B_0.75]>. :|:", "<{x} --> [B_1.00]>. :|:", "g! :|:" }, 5, 6 },
    /* general hypotheses */
    { { V4, "*decisionthreshold=0.501" }, { "<(<$1 --> [B_0.25]> &/ ^left) =/> <$1 --> g>>. {0.95 0.9}", "<(<{x} --> [B_0.50]> &/ ^right) =/> <{x} --> g>>. {0.9 0.9}", "<(<{x} --> [B_1.00]> &/ ^left) =/> <{x} --> g>>. {0.1 0.9}", "<{x} --> [B_0.50]>. :|:", "<{x} --> [B_0.75]>. :|:", "<{y} --> [B_0.25]>. :|:", "<{x} --> g>! :|:", "<{y} --> g>! :|:", "^left. :|:" }, 5, 6 },
    { { V4, "*decisionthreshold=0.501" }, { "<(<{x} --> [$1]> &/ ^left) =/> g>. {0.9 0.8}", "<(<{x} --> [B_0.25]> &/ ^right) =/> g>. {0.95 0.9}", "<(<({x} * $1) --> [B_0.50]> &/ <({SELF} * $1) --> ^up>) =/> g>. {0.9 0.9}", "<{x} --> [B_0.25]>. :|:", "<{x} --> [B_0.50]>. :|:", "<({x} * {y}) --> [B_0.75]>. :|:", "<({x} * z) --> [B_0.50]>. :|: {0.9 0.8}", "g! :|:", "g! :|: {0.8 0.8}" }, 5, 6 },
    /* several values in one condition */
    { { V4, "*setvalue 0.25 100 C", "*setvalue 0.5 100 C", "*setvalue 0.75 100 C", "*decisionthreshold=0.501" }, { "<((<x --> B_0.25> &/ <x --> C_0.25>) &/ ^left) =/> g>. {0.95 0.9}", "<(<(B_0.50 * C_0.75) --> r> &/ ^right) =/> g>. {0.95 0.9}", "<(<(B_0.25 * C_0.25) --> r> &/ ^up) =/> g>. {0.95 0.9}", "<x --> B_0.50>. :|:", "<x --> C_0.50>. :|:", "<(B_0.50 * C_0.25) --> r>. :|:", "<(B_0.25 * B_0.25) --> r>. :|:", "<(B_0.25 * C_0.50) --> r>. :|:", "g! :|:" }, 5, 6 },
    /* learned hypotheses, and what is learned after acting on similarity */
    { { V4, "*decisionthreshold=0.501" }, { "<x --> B_0.25>. :|:", "<x --> B_0.50>. :|:", "<x --> B_1.00>. :|:", "^left. :|:", "^right. :|: {1 0.7}", "g. :|:", "g! :|:" }, 6, 7 },
    /* the scale changes, other goals are affected */
    { { V4, "*decisionthreshold=0.501" }, { "<(<x --> B_0.25> &/ ^left) =/> g>. {0.95 0.9}", "<(<x --> B_0.50> &/ ^left) =/> h>. {0.95 0.9}", "<(<x --> B_1.00> &/ ^right) =/> g>. {0.95 0.9}", "<x --> B_0.50>. :|:", "<x --> B_0.75>. :|:", "g! :|:", "h! :|: {0 0.9}", "*similaritydistance=0.25", "*similaritydistance=2" }, 5, 6 },
    /* subgoals are not graded */
    { { V4, "*decisionthreshold=0.501" }, { "<(<x --> B_0.25> &/ ^left) =/> g>. {0.95 0.9}", "<(a &/ ^right) =/> <x --> B_0.25>>. {0.95 0.9}", "<(a &/ ^up) =/> <x --> B_0.50>>. {0.95 0.9}", "a. :|:", "<x --> B_0.50>. :|:", "<x --> B_1.00>. :|: {1 0.5}", "g! :|:", "<x --> B_0.50>! :|:" }, 5, 6 },
    /* values without a name for what they measure */
    { { "*motorbabbling=false", "*setvalue 0.5 100", "*setvalue 0.25 100", "*setvalue 0.75 100", "*decisionthreshold=0.501" }, { "<(<x --> 0.50> &/ ^left) =/> g>. {0.95 0.9}", "<(<x --> d> &/ ^right) =/> g>. {0.95 0.9}", "<(<x --> [0.75]> &/ ^right) =/> g>. {0.95 0.5}", "<x --> d>. :|:", "<x --> 0.25>. :|:", "<x --> [0.25]>. :|:", "<x --> [0.75]>. :|: {1 0.5}", "g! :|:" }, 5, 6 },
    /* the value of a name changes */
    { { "*motorbabbling=false", "*setvalue 0.5 10 B", "*setvalue 0.75 10 B", "*setvalue 1 10 B", "*decisionthreshold=0.501" }, { "<(<x --> B_0.5> &/ ^left) =/> g>. {0.95 0.9}", "<(<x --> B_1.0> &/ ^right) =/> g>. {0.95 0.9}", "<x --> B_0.8>. :|:", "<x --> B_1.0>. :|:", "g! :|:", "*setvalue 0.6875 10 B", "*setvalue 0.8125 10 B", "*setvalue 0.53125 10 B" }, 5, 6 },
};
/* one hypothesis and every value observed, with a competitor of every value about the same or another goal */
static void grid(void *init)
{
    static const double VS[] = { -1, -0.25, 0, 0.25, 0.5, 0.75, 1, 2, 1000 }, D[] = { 0.125, 0.25, 0.5, 1, 2, 4, 1000 }; static const RT TR[] = { { 1, 0.98 }, { 0.95, 0.9 }, { 0.9, 0.5 }, { 0.3, 0.9 } };
    for(int a=0; a<9; a++) for(int b=0; b<9; b++) for(int c=-1; c<9; c++)
    {
        if(!vf_case()) continue;
        for(int d=0; d<7; d++) for(int h=0; h<4; h++) for(int k=0; k<(c < 0 ? 1 : 3); k++) for(int t=0; t<(vf_thorough ? 4 : 2); t++)
        {
            char s[200]; vf_restore(init); nval = 0; dist_ = 1; ex_pl = 0; long x0 = n_near; in("*motorbabbling=false"); in(t & 1 ? "*decisionthreshold=0.6" : "*decisionthreshold=0");
            int z[3] = { a, b, c }; for(int i=0; i<3; i++) if(z[i] >= 0) { sprintf(s, "*setvalue %g 1000 B", VS[z[i]]); in(s); }
            sprintf(s, "*similaritydistance=%g", D[d]); in(s);
            sprintf(s, "<(<x --> B_%.3f> &/ ^left) =/> g>. {%g %g}", VS[a], TR[h].f, TR[h].c); in(s);
            if(c >= 0) { sprintf(s, "<(<x --> B_%.3f> &/ %s) =/> %s>. {0.9 0.5}", VS[c], k == 1 ? "^left" : "^right", k == 2 ? "h" : "g"); in(s); }
            sprintf(s, "<x --> B_%.3f>. :|: {1 %g}", VS[b], t & 2 ? 0.4 : 0.9); in(s); in("g! :|:"); in("g. :|:"); in("g! :|: {1 0.8}"); vf_stats.states++; vf_stats.nontrivial += n_near > x0;
        }
    }
}
static void rec2(int d, int max, const char **A, int n)
{
    if(d == max) return;
    if(!sn[d]) sn[d] = vf_snap_new(); else vf_snap(sn[d]);
    int pl = ex_pl; typeof(val[0]) v0[64]; memcpy(v0, val, sizeof v0); int nv = nval; double d0 = dist_;
    for(int a=0; a<n; a++)
    {
        if(d == 2 && !vf_case()) continue;
        ex_pl = pl; ex_path[pl] = 0; long x0 = n_near; in(A[a]);
        if(d >= 2) { vf_stats.states++; vf_stats.nontrivial += n_near > x0; if(vf_stats.states % 9973 == 7) vf_sample("%s", ex_path); }
        rec2(d + 1, max, A, n); vf_restore(sn[d]); memcpy(val, v0, sizeof v0); nval = nv; dist_ = d0;
    }
    ex_pl = pl; ex_path[pl] = 0;
}
int vf_main(void)
{
    vf_quiet(); vf_cap_begin(); Shell_NARInit(); callbacks(); chk_exec = true; near_ = near2; char s[200];
    for(int i=0; i<(int)(sizeof SETS/sizeof *SETS); i++) for(int j=0; j<14 && SETS[i].l[j]; j++) intern(SETS[i].l[j]);
    static const char *V[] = { "-1.000", "-0.250", "0.000", "0.250", "0.500", "0.750", "1.000", "2.000", "1000.000", "0.25", "0.50", "0.75", "1.00", "0.5", "0.8", "1.0", "0.7" };
    for(int i=0; i<17; i++) { sprintf(s, "B_%s", V[i]); Narsese_AtomicTermIndex(s); if(i >= 9 && i < 13) { Narsese_AtomicTermIndex((char*) V[i]); sprintf(s, "BC_%s", V[i]); Narsese_AtomicTermIndex(s); sprintf(s, "B_%s", V[i]); *s = 'C'; Narsese_AtomicTermIndex(s); } }
    intern("a b c d g h m n r x y z SELF"); void *init = vf_snap_new(); grid(init);
    for(int i=0; i<(int)(sizeof SETS/sizeof *SETS); i++)
    {
        vf_restore(init); memset(sn, 0, sizeof sn); nval = 0; dist_ = 1; ex_pl = 0; int n = 0; while(n < 14 && SETS[i].l[n]) n++;
        for(int j=0; j<14 && SETS[i].pre[j]; j++) in(SETS[i].pre[j]);
        rec2(0, vf_thorough ? SETS[i].t : SETS[i].q, (const char**) SETS[i].l, n);
    }
    vf_count("executions", n_exec); vf_count("goals without execution", n_noexec); vf_count("conditions of another value considered", n_near); vf_count("left to a closer hypothesis", n_closer); vf_count("inhibited instances", n_inhib); vf_count("hypotheses with their conditions", n_own);
    return 0;
}
