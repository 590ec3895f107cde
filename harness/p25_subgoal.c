/* P25: what is wanted in order to reach a goal. Every history of sequence goals (all lengths the system supports) with their
 * components fulfilled in every order, strength and age; of chains of hypotheses with and without operation and of implications;
 * the goals derived from every goal taken up compared with the reference. */
#include "goals.h"
typedef struct { const char *pre[8]; const char *l[14]; int q, t; } Set;
static const Set SETS[] = {
    { { "*motorbabbling=false" }, { "a. :|:", "b. :|:", "c. :|: {0.9 0.8}", "b. :|: {0.6 0.9}", "a. :|: {0 0.9}", "(a &/ b)! :|:", "((a &/ b) &/ c)! :|: {0.9 0.9}", "2" }, 6, 7 },
    { { "*motorbabbling=false" }, { "a. :|:", "b. :|:", "c. :|:", "d. :|:", "(((a &/ b) &/ c) &/ d)! :|:", "((a &/ a) &/ b)! :|:", "(a &/ (b &/ c))! :|:", "((a &/ b) &/ (c &/ d))! :|:", "6" }, 6, 7 },
    { { "*motorbabbling=false" }, { "<x --> a>. :|:", "<y --> a>. :|: {0.9 0.8}", "<x --> b>. :|:", "<y --> b>. :|:", "<z --> c>. :|:", "(<#1 --> a> &/ <#1 --> b>)! :|:", "((<#1 --> a> &/ <#1 --> b>) &/ <#1 --> c>)! :|:", "(<#1 --> a> &/ <#2 --> b>)! :|:", "(<x --> a> &/ <y --> b>)! :|:" }, 5, 6 },
    { { "*motorbabbling=false", "=0.7" }, { "a. :|:", "b. :|: {0.9 0.9}", "(a &/ b). :|:", "(a &/ b)! :|:", "((a &/ b) &/ c)! :|:", "(a &/ (a &/ b))! :|:", "<g =/> (a &/ b)>. {0.9 0.9}", "1" }, 6, 7 },
    { { "*motorbabbling=false" }, { "<a =/> b>. {0.9 0.9}", "<(b &/ ^left) =/> c>. {0.9 0.8}", "<d ==> c>. {0.9 0.9}", "<((a &/ d) &/ ^right) =/> c>. {0.8 0.9}", "a. :|: {0.3 0.9}", "c! :|:", "b! :|: {0.8 0.9}", "c! :|: {1 0.5}", "d. :|:" }, 5, 6 },
    { { "*motorbabbling=false" }, { "<<$1 --> a> =/> <$1 --> b>>. {0.9 0.9}", "<(<$1 --> b> &/ ^up) =/> <$1 --> c>>. {0.9 0.8}", "<<$1 --> d> ==> <$1 --> c>>. {0.9 0.9}", "<<x --> d> =/> <x --> c>>. {0.7 0.7}", "<x --> c>! :|:", "<#1 --> c>! :|:", "<y --> c>! :|: {0.9 0.7}", "<x --> b>! :|:", "<x --> a>. :|:" }, 5, 6 },
    { { "*motorbabbling=false" }, { "<a =/> (b &/ c)>. {0.9 0.9}", "<(a &/ b) =/> g>. {0.9 0.9}", "<((a &/ b) &/ ^left) =/> g>. {0.9 0.9}", "<d =/> a>. {0.9 0.8}", "<d =/> b>. {0.9 0.9}", "a. :|:", "b. :|: {0.4 0.9}", "g! :|:", "(b &/ c)! :|:" }, 5, 6 },
    { { "*motorbabbling=false" }, { "a. :|:", "b. :|:", "^left. :|:", "g. :|:", "g! :|:", "b! :|: {1 0.7}", "(a &/ b)! :|:" }, 6, 7 },
    { { "*motorbabbling=false" }, { "<(<x --> a> &/ <y --> b>) =/> g>. {0.9 0.9}", "<{x} --> [a]>. :|:", "<{y} --> [b]>. :|:", "<({x} * {y}) --> r>. :|:", "(<{#1} --> [a]> &/ <({#1} * {y}) --> r>)! :|:", "(<{x} --> [a]> &/ <{y} --> [b]>)! :|:", "((<{#1} --> [a]> &/ <({#1} * #2) --> r>) &/ <#2 --> [b]>)! :|:", "g! :|:", "<x --> a>. :|:" }, 5, 6 },
};
static void threshold(double t) { CONDITION_THRESHOLD = t; ex_pl += sprintf(ex_path + ex_pl, "(condition threshold %g) | ", t); }
/* every order, presence, strength and age of the components of sequences of two to four, with and without concepts about them */
static void components(void *init)
{
    static const char *G[] = { "(c0 &/ c1)", "((c0 &/ c1) &/ c2)", "(((c0 &/ c1) &/ c2) &/ c3)" };
    static const char *TV[] = { "", " {0.7 0.9}", " {0.5 0.9}", " {0 0.9}" };
    for(int n=2; n<=4; n++) for(int perm=0; perm<24; perm++) for(int st=0; st<(n == 2 ? 25 : n == 3 ? 125 : 625); st++)
    {
        int p[4] = { 0, 1, 2, 3 }, x = perm; bool id = true; for(int i=3; i>0; i--) { int j = x % (i + 1); x /= i + 1; int t = p[i]; p[i] = p[j]; p[j] = t; } for(int i=n; i<4; i++) id &= p[i] == i; if(!id) continue;
        if(!vf_case()) continue;
        for(int age=0; age<=24; age+=age < 3 ? 1 : 7) for(int cx=0; cx<3; cx++) for(int th=0; th<3; th++) if(n < 4 || vf_thorough || (cx == 0 && th < 2) || (cx == 1 && th == 0))
        {
            vf_restore(init); ex_pl = 0; char b[200]; input("*motorbabbling=false"); if(th) threshold(th == 1 ? 0.3 : 0.8);
            if(cx & 1) input("<c0 --> c1>. :|:"); if(cx & 2) { sprintf(b, "<%s =/> g>.", G[n-2]); input(b); }
            for(int i=0; i<n; i++) { int s = st; for(int k=0; k<p[i]; k++) s /= 5; s %= 5; if(s < 4) { sprintf(b, "c%d. :|:%s", p[i], TV[s]); input(b); } }
            if(age) { sprintf(b, "%d", age); input(b); }
            sprintf(b, "%s! :|:", G[n-2]); input(b); input("2"); vf_stats.states++; vf_stats.nontrivial += n_sub > 0;
        }
    }
}
int vf_main(void)
{
    vf_quiet(); vf_cap_begin(); Shell_NARInit(); callbacks(); chk_sub = true;
    for(int s=0; s<(int)(sizeof SETS/sizeof *SETS); s++) for(int i=0; i<14 && SETS[s].l[i]; i++) intern(SETS[s].l[i]);
    intern("c0 c1 c2 c3 a b c d g x y z r SELF");
    void *init = vf_snap_new(); components(init);
    for(int s=0; s<(int)(sizeof SETS/sizeof *SETS); s++)
    {
        vf_restore(init); memset(sn, 0, sizeof sn); ex_pl = 0; int n = 0; while(n < 14 && SETS[s].l[n]) n++;
        for(int i=0; i<8 && SETS[s].pre[i]; i++) if(*SETS[s].pre[i] == '=') threshold(atof(SETS[s].pre[i] + 1)); else input(SETS[s].pre[i]);
        rec(0, vf_thorough ? SETS[s].t : SETS[s].q, (const char**) SETS[s].l, n);
    }
    vf_count("sequence goals", n_seq); vf_count("subgoals", n_sub); vf_count("executions", n_exec);
    return 0;
}
