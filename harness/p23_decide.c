/* P23: which operation is executed, if any. Every history of told hypotheses, conditions, goals, thresholds and time, each
 * decision compared with the reference evaluation of everything held at that moment; every strength, age and threshold of one
 * option and of two competing ones; every chance outcome of exploration. */
#include "goals.h"
typedef struct { const char *pre[8]; const char *l[14]; int q, t; } Set;
static const Set SETS[] = {
    { { "*motorbabbling=false" }, { "<(a &/ ^left) =/> g>. {0.9 0.9}", "<(b &/ ^right) =/> g>. {1.0 0.6}", "<(a &/ ^right) =/> g>. {0.2 0.9}", "a. :|:", "b. :|: {0.7 0.8}", "g! :|:", "g! :|: {0.8 0.5}", "5" }, 6, 7 },
    { { "*motorbabbling=false" }, { "<(<$1 --> o> &/ ^left) =/> <$1 --> g>>. {0.9 0.8}", "<(<x --> o> &/ ^left) =/> <x --> g>>. {0.1 0.5}", "<(<x --> o> &/ ^right) =/> <x --> g>>. {0.8 0.8}", "<x --> o>. :|:", "<y --> o>. :|: {0.9 0.5}", "<x --> g>! :|:", "<#1 --> g>! :|:", "<y --> g>! :|:" }, 5, 6 },
    { { "*motorbabbling=false" }, { "<(<$1 --> o> &/ <({SELF} * $1) --> ^left>) =/> g>. {0.8 0.9}", "<(a &/ <({SELF} * x) --> ^left>) =/> g>. {0.9 0.7}", "<(a &/ <({SELF} * y) --> ^left>) =/> g>. {0.2 0.9}", "<(a &/ <({#1} * y) --> ^right>) =/> g>. {0.9 0.9}", "a. :|:", "<x --> o>. :|:", "<y --> o>. :|: {0.9 0.8}", "g! :|:" }, 5, 6 },
    { { "*motorbabbling=false" }, { "<(a &/ ^left) =/> g>. {0.9 0.9}", "<(a &/ ^left) =/> h>. {0.9 0.9}", "<(b &/ ^left) =/> h>. {1 0.8}", "<(a &/ ^right) =/> g>. {0.8 0.8}", "a. :|:", "b. :|:", "g! :|:", "h! :|: {0 0.9}", "18" }, 6, 7 },
    { { "*motorbabbling=false" }, { "<(a &/ ^left) =/> g>. {0.9 0.9}", "<(b &/ ^right) =/> a>. {0.9 0.9}", "<(c &/ ^up) =/> b>. {0.9 0.8}", "<d =/> a>. {0.9 0.9}", "a. :|: {0.3 0.9}", "b. :|:", "c. :|: {0.9 0.8}", "g! :|:", "b! :|: {0.9 0.4}" }, 5, 6 },
    { { "*motorbabbling=1" }, { "<(a &/ ^left) =/> g>. {0.9 0.9}", "<(b &/ ^right) =/> g>. {1 0.3}", "a. :|:", "b. :|: {0.8 0.6}", "g! :|:", "~y0 0 g! :|:", "~y1 0 g! :|:", "~y2 1 g! :|: {1 0.5}", "~n2 1 h! :|:" }, 5, 6 },
    { { "*motorbabbling=false" }, { "a. :|:", "^left. :|:", "g. :|:", "<x --> o>. :|:", "<({SELF} * x) --> ^right>. :|:", "<x --> g>. :|:", "g! :|:", "<x --> g>! :|:" }, 6, 7 },
    { { "*motorbabbling=false", "*decisionthreshold=0.6" }, { "a. :|:", "^left. :|:", "^right. :|: {1 0.5}", "<a --> b>. :|:", "g. :|:", "g. :|: {0 0.9}", "g! :|:", "3" }, 6, 7 },
    { { "*motorbabbling=false" }, { "<(a &/ ^left) =/> (g & h)>. {0.9 0.9}", "<(<$1 --> [a]> &/ ^up) =/> <$1 --> [g]>>. {0.9 0.7}", "<(<$1 --> [a]> &/ ^left) =/> <{x} --> [g]>>. {0.7 0.9}", "<(<({x} * $1) --> r> &/ ^right) =/> <{x} --> [g]>>. {1 0.5}", "<{x} --> [a]>. :|:", "<({x} * y) --> r>. :|:", "<({x} * {z}) --> r>. :|: {0.9 0.7}", "<{x} --> [g]>! :|:", "<$1 --> [g]>! :|:" }, 5, 6 },
};
static void grid(void *init)
{
    static const RT TR[] = { { 1, 0.9 }, { 1, 0.5 }, { 0.8, 0.9 }, { 0.6, 0.99 }, { 0.5, 0.9 }, { 0.2, 0.9 }, { 0, 0.9 }, { 0.9, 0.05 } };
    static const double TH[] = { 0, 0.3, 0.501, 0.55, 0.6, 0.7, 0.8, 0.9, 1 };
    for(int h=0; h<8; h++) for(int c=0; c<8; c++) for(int g=0; g<8; g++) for(int cmp=0; cmp<(vf_thorough ? 9 : 3); cmp++)
    {
        if(!vf_case()) continue;
        for(int th=0; th<9; th++) for(int age=0; age<=24; age+=age < 3 ? 1 : 7)
        {
            vf_restore(init); ex_pl = 0; char b[200]; long x0 = n_exec; input("*motorbabbling=false");
            sprintf(b, "*decisionthreshold=%g", TH[th]); input(b); sprintf(b, "<(a &/ ^left) =/> g>. {%g %g}", TR[h].f, TR[h].c); input(b);
            if(cmp) { RT x = TR[cmp == 8 ? 0 : cmp]; sprintf(b, "<(%s &/ ^right) =/> g>. {%g %g}", cmp & 1 ? "a" : "b", x.f, x.c); input(b); input("b. :|: {0.9 0.9}"); }
            sprintf(b, "a. :|: {%g %g}", TR[c].f, TR[c].c); input(b); if(age) { sprintf(b, "%d", age); input(b); }
            sprintf(b, "g! :|: {%g %g}", TR[g].f, TR[g].c); input(b); vf_stats.states++; vf_stats.nontrivial += n_exec > x0;
        }
    }
}
/* exploration: every chance outcome, with every number of operations and exclusions */
static void explore_(void *init)
{
    for(int nb=0; nb<=4; nb++) for(int args=0; args<8; args++) for(int h=0; h<4; h++)
    {
        if(!vf_case()) continue;
        babbled = 0; char b[200]; bool strong = false;
        for(int r=0; r<7; r++) for(int r2=0; r2<5; r2++)
        {
            vf_restore(init); ex_pl = 0; input("*motorbabbling=0.2"); sprintf(b, "*babblingops=%d", nb); if(nb < 4) input(b);
            for(int o=0; o<3; o++) if(args & 1<<o) for(int k=0; k<=o; k++) { sprintf(b, "*setoparg %d %d %s", o + 1, k + 1, k == 0 ? "x" : k == 1 ? "(x * y)" : "y"); input(b); }
            if(h) { sprintf(b, "<(a &/ ^up) =/> g>. {1 %g}", h == 1 ? 0.9 : h == 2 ? 0.1 : 0.14); input(b); input("a. :|:"); }
            strong = h & 1; sprintf(b, "~y%d %d g! :|:", r, r2); input(b); vf_stats.states++; vf_stats.nontrivial++;
        }
        if(!strong) for(int o=1; o<=3 && o<=nb; o++) VF_CHECK(babbled >> o & 1, "operation %d is never explored", o);
    }
}
/* what else an operation leads to, with every age of the other goal and of the condition */
static void others(void *init)
{
    static const RT H[] = { { 1, 0.9 }, { 0.9, 0.5 }, { 0.6, 0.9 }, { 0.4, 0.9 }, { 0, 0.9 } }, G[] = { { 0, 0.9 }, { 0.2, 0.5 }, { 0.6, 0.9 } };
    for(int h=0; h<5; h++) for(int g=0; g<3; g++) for(int same=0; same<3; same++) for(int first=0; first<3; first++)
    {
        if(!vf_case()) continue;
        for(int d=0; d<=24; d++) for(int d2=0; d2<=22; d2+=d2 < 2 || d2 >= 16 ? 1 : 7)
        {
            vf_restore(init); ex_pl = 0; char b[200]; input("*motorbabbling=false"); input("*decisionthreshold=0.4"); input("<(a &/ ^left) =/> g>. {0.9 0.9}"); input("<(b &/ ^right) =/> g>. {0.8 0.3}");
            sprintf(b, "<(%s &/ ^left) =/> h>. {%g %g}", same == 1 ? "b" : "a", H[h].f, H[h].c); input(b); if(same == 2) { sprintf(b, "<(b &/ ^left) =/> h>. {%g 0.6}", H[4-h].f); input(b); }
            if(first == 1) input("a. :|:"); if(first == 2) input("b. :|:"); if(d2) { sprintf(b, "%d", d2); input(b); }
            sprintf(b, "h! :|: {%g %g}", G[g].f, G[g].c); input(b); if(d) { sprintf(b, "%d", d); input(b); } if(first != 2) { input("b. :|:"); } if(first != 1) input("a. :|:");
            long x0 = n_exec; input("g! :|:"); vf_stats.states++; vf_stats.nontrivial += n_exec > x0;
        }
    }
}
/* an instance of a general hypothesis of every truth */
static void instances(void *init)
{
    static const double C[] = { 0.01, 0.04, 0.0499, 0.0501, 0.06, 0.1, 0.3, 0.5, 0.9, 0.98 };
    for(int f=0; f<=40; f++) for(int c=0; c<10; c++)
    {
        if(!vf_case()) continue;
        for(int op=0; op<2; op++) for(int in=0; in<3; in++) for(int g=0; g<2; g++)
        {
            vf_restore(init); ex_pl = 0; char b[200]; long x0 = n_exec; input("*motorbabbling=false"); input("<(<$1 --> o> &/ ^left) =/> <$1 --> g>>. {0.9 0.8}");
            sprintf(b, "<(<%s --> o> &/ %s) =/> <x --> g>>. {%g %g}", in == 1 ? "y" : "x", op ? "^right" : "^left", f/40.0, C[c]); input(b); if(in == 2) { input("<(<$1 --> o> &/ ^right) =/> <$1 --> g>>. {0.8 0.8}"); }
            input("<x --> o>. :|:"); if(in == 1) input("<y --> o>. :|: {0.9 0.6}"); input(g ? "<#1 --> g>! :|:" : "<x --> g>! :|:"); vf_stats.states++; vf_stats.nontrivial += n_exec > x0;
        }
    }
}
/* conditions which were forgotten: their places are taken by others */
static void forgotten(void *init, int reps)
{
    vf_restore(init); memset(sn, 0, sizeof sn); ex_pl = 0; nosem = true; input("*motorbabbling=false"); char b[100]; Term ta = Narsese_Term("a");
    for(int i=0; i<reps; i++) ex_feed("<(a &/ ^left) =/> h>. :|: {1 0.98}");
    ex_feed("h. :|:"); ex_feed("h. :|:"); ex_feed("h. :|:");
    ex_feed("<(b &/ ^left) =/> g>. {0.9 0.5}"); ex_feed("<(d &/ ^right) =/> h>. {0.9 0.5}"); int i = 0;
    for(; i<3000; i++) { sprintf(b, "f%d. :|:", i % 200); ex_feed(b); ex_feed("25"); if(concepts.itemsAmount == CONCEPTS_MAX && ((Concept*) concepts.items[0].address) == Memory_FindConceptByTerm(&ta)) break; }
    ex_pl += sprintf(ex_path + ex_pl, "<(a &/ ^left) =/> h>. :|: {1 0.98} (%d times) | <(b &/ ^left) =/> g>. {0.9 0.5} | <(d &/ ^right) =/> h>. {0.9 0.5} | (%d other observations) | ", reps, i);
    const char *A[] = { "n. :|:", "b. :|:", "g! :|:", "h! :|: {0 0.9}", "m. :|: {0.9 0.8}", "2" };
    rec(0, vf_thorough ? 6 : 5, A, 6); nosem = false;
}
int vf_main(void)
{
    vf_quiet(); vf_cap_begin(); Shell_NARInit(); callbacks(); chk_exec = true;
    for(int s=0; s<(int)(sizeof SETS/sizeof *SETS); s++) for(int i=0; i<14 && SETS[s].l[i]; i++) intern(SETS[s].l[i]);
    intern("a b c d g h m n x y z SELF"); for(int i=0; i<200; i++) { char f[10]; sprintf(f, "f%d", i); intern(f); }
    void *init = vf_snap_new(); grid(init); explore_(init); others(init); instances(init);
    for(int s=0; s<(int)(sizeof SETS/sizeof *SETS); s++)
    {
        vf_restore(init); memset(sn, 0, sizeof sn); ex_pl = 0; int n = 0; while(n < 14 && SETS[s].l[n]) n++;
        for(int i=0; i<8 && SETS[s].pre[i]; i++) input(SETS[s].pre[i]);
        rec(0, vf_thorough ? SETS[s].t : SETS[s].q, (const char**) SETS[s].l, n);
    }
    for(int x=1; x<=4; x++) forgotten(init, x);
    vf_count("goals skipped (memory full)", n_full); vf_count("hypotheses whose condition is forgotten", n_stale); vf_count("executions", n_exec); vf_count("goals without execution", n_noexec); vf_count("explorations", n_babble); vf_count("inhibited instances", n_inhib); vf_count("options dropped for other goals", n_neg);
    return 0;
}
