/* P24: what an operation is called with and what it leaves behind. Every registration word over three names; every history of
 * told hypotheses with arguments, compound operations, operations which fail, which return values, or which are not registered. */
#include "goals.h"
typedef struct { const char *pre[8]; const char *l[14]; int q, t; bool std; } Set;
static const Set SETS[] = {
    { { "*motorbabbling=false" }, { "<(a &/ <({SELF} * x) --> ^left>) =/> g>. {0.9 0.9}", "<(a &/ <({SELF} * (x * y)) --> ^left>) =/> g>. {1 0.5}", "<(<$1 --> o> &/ <({SELF} * $1) --> ^left>) =/> <$1 --> g>>. {0.9 0.8}", "a. :|:", "<x --> o>. :|:", "<y --> o>. :|: {0.9 0.8}", "g! :|:", "<x --> g>! :|:", "<#1 --> g>! :|:", "!g! :|:" }, 5, 6 },
    { { "*motorbabbling=false" }, { "<((a &/ ^left) &/ ^right) =/> g>. {0.9 0.9}", "<((a &/ ^right) &/ ^left) =/> g>. {1 0.8}", "<(((a &/ ^up) &/ ^right) &/ ^left) =/> h>. {0.9 0.8}", "<(a &/ ^up) =/> g>. {0.9 0.5}", "a. :|:", "g! :|:", "h! :|:", "!2g! :|:", "!1h! :|:", "1" }, 5, 6 },
    { { "*motorbabbling=false" }, { "<((<$1 --> o> &/ <({SELF} * $1) --> ^left>) &/ <({SELF} * (x * $1)) --> ^right>) =/> <$1 --> g>>. {0.9 0.8}", "<((<$1 --> o> &/ <({SELF} * $1) --> ^right>) &/ ^left) =/> <$1 --> g>>. {0.9 0.9}", "<(<$1 --> o> &/ <({$1} * $1) --> ^up>) =/> <$1 --> h>>. {1 0.9}", "<x --> o>. :|:", "<y --> o>. :|: {0.9 0.8}", "<x --> g>! :|:", "<y --> g>! :|:", "<SELF --> o>. :|:", "<SELF --> h>! :|:", "!2<x --> g>! :|:" }, 5, 6 },
    { { "*motorbabbling=false" }, { "<((a &/ ^foo) &/ ^right) =/> g>. {1 0.9}", "<((a &/ ^left) &/ ^foo) =/> g>. {1 0.9}", "<(a &/ ^foo) =/> g>. {1 0.9}", "<(((a &/ ^left) &/ ^foo) &/ ^right) =/> g>. {0.9 0.9}", "<((a &/ ^up) &/ ^left) =/> g>. {0.8 0.8}", "a. :|:", "g! :|:", "^foo! :|:", "^left! :|:" }, 5, 6 },
    { { "*motorbabbling=false", "*setopstdin 1" }, { "<(a &/ <({SELF} * (x * #1)) --> ^left>) =/> g>. {0.9 0.9}", "<((a &/ <({SELF} * (x * #1)) --> ^left>) &/ <({SELF} * #1) --> ^right>) =/> h>. {0.9 0.9}", "<(a &/ <({SELF} * (x * y)) --> ^left>) =/> k>. {0.9 0.9}", "a. :|:", "@(x * y)@ g! :|:", "@(y * y)@ g! :|:", "@@ g! :|:", "@(x * y)@ h! :|:", "@(x * (y * z))@ h! :|:", "@@ h! :|:", "@(x * y)@ k! :|:", "@(y * x)@ k! :|:" }, 5, 6, true },
    { { "*motorbabbling=false", "*setopstdin 2" }, { "<(((a &/ <({SELF} * x) --> ^left>) &/ <({SELF} * (x * $1)) --> ^right>) &/ <({SELF} * ($1 * z)) --> ^up>) =/> h>. {0.9 0.9}", "<((<$2 --> o> &/ <({SELF} * (#1 * $2)) --> ^right>) &/ <({SELF} * (#1 * $2)) --> ^left>) =/> <$2 --> g>>. {0.9 0.9}", "a. :|:", "<x --> o>. :|:", "@(x * y)@ h! :|:", "@(y * x)@ <x --> g>! :|:", "@(y * z)@ <x --> g>! :|:", "!1@(x * y)@ h! :|:", "!2@(y * x)@ <x --> g>! :|:" }, 5, 6, true },
    { { "*motorbabbling=1", "*setoparg 1 1 x", "*setoparg 1 2 (x * y)", "*setoparg 3 1 {z}" }, { "<(a &/ <({SELF} * y) --> ^left>) =/> g>. {0.9 0.9}", "<((a &/ ^right) &/ ^up) =/> g>. {1 0.3}", "a. :|:", "g! :|:", "~y0 0 g! :|:", "~y0 1 g! :|:", "~y1 0 g! :|:", "~y2 0 h! :|:", "!~y2 1 h! :|:" }, 5, 6 },
    { { "*motorbabbling=false" }, { "<(a &/ <({#1} * x) --> ^left>) =/> g>. {1 0.9}", "<(a &/ <({y} * x) --> ^right>) =/> g>. {1 0.9}", "<(<$1 --> o> &/ <({$1} * $1) --> ^left>) =/> g>. {1 0.8}", "<((a &/ <({#1} * y) --> ^right>) &/ ^up) =/> g>. {1 0.9}", "<(a &/ ^up) =/> g>. {0.9 0.5}", "<SELF --> o>. :|:", "<y --> o>. :|:", "a. :|:", "g! :|:" }, 5, 6 },
    { { "*motorbabbling=false" }, { "a. :|:", "^left. :|:", "<x --> o>. :|:", "<({SELF} * x) --> ^up>. :|:", "<x --> g>. :|:", "g! :|:", "<x --> g>! :|:" }, 6, 7 },
    { { "*motorbabbling=false" }, { "<((a &/ ^left) &/ ^right) =/> b>. {0.9 0.9}", "<(b &/ ^up) =/> g>. {0.9 0.9}", "<(c &/ ^left) =/> b>. {0.9 0.9}", "a. :|:", "b. :|:", "c. :|: {0.9 0.8}", "g! :|:", "b! :|: {0.9 0.7}", "!2g! :|:" }, 5, 6 },
};
/* the callback called is the one registered last under the name since the start */
static int who[8], nwho;
#define CB(k) static Feedback cb##k(Term a) { if(nwho < 8) who[nwho++] = k; return (Feedback) {0}; }
CB(0) CB(1) CB(2)
static void registrations(int max)
{
    static const char *NM[] = { "^left", "^right", "^up" }; static Action FN[] = { cb0, cb1, cb2 };
    NAR_INIT(); static void *s0; vf_restore(sn[23]); s0 = sn[23];
    long tot = 1; for(int n=1; n<=max; n++)
    {
        tot *= 10; for(long w=0; w<tot; w++)
        {
            if(!vf_case()) continue;
            for(int name=0; name<3; name++) for(int argd=0; argd<2; argd++)
            {
                vf_restore(s0); int reg[3] = { -1, -1, -1 }; ex_pl = 0; NAR_INIT(); MOTOR_BABBLING_CHANCE = 0; long v = w;
                for(int i=0; i<n; i++, v/=10) if(v % 10 == 9) { NAR_INIT(); memset(reg, -1, sizeof reg); ex_pl += sprintf(ex_path + ex_pl, "(start) | "); } else { int nm = v % 10 / 3, f = v % 10 % 3; NAR_AddOperation((char*) NM[nm], FN[f]); reg[nm] = f; ex_pl += sprintf(ex_path + ex_pl, "%s is callback %d | ", NM[nm], f); }
                char b[100]; sprintf(b, argd ? "<(a &/ <({SELF} * x) --> %s>) =/> g>. {1 0.9}" : "<(a &/ %s) =/> g>. {1 0.9}", NM[name]); sprintf(ex_path + ex_pl, "%s | a. :|: | g! :|:", b); vf_desc("%s", ex_path);
                nwho = 0; ex_feed(b); ex_feed("a. :|:"); VF_CHECK(nwho == 0, "executed without a goal"); ex_feed("g! :|:"); vf_stats.states++; vf_stats.transitions++;
                if(reg[name] < 0) VF_CHECK(nwho == 0, "callback %d was called although %s is not registered", who[0], NM[name]);
                else { VF_CHECK(nwho == 1 && who[0] == reg[name], "%d callbacks were called, first %d, instead of %d", nwho, who[0], reg[name]); vf_stats.nontrivial++; }
            }
        }
    }
}
/* what is printed is what was executed, and what was executed is observed */
static void printed(const char *l)
{
    char *o = (char*) vf_cap(), *q; int k = 0;
    while((q = strstr(o, " executed with args")))
    {
        char *b = q; while(b > vf_cap() && b[-1] != '\n') b--;
        char nm[40]; snprintf(nm, sizeof nm, "%.*s", (int) (q - b), b); o = q + 5;
        VF_CHECK(k < nlog && !strcmp(nm, log_[k].name), "the output says that %s was executed, but %s was called", nm, k < nlog ? log_[k].name : "nothing");
        char ar_[300]; char *e = strchr(q, '\n'); snprintf(ar_, sizeof ar_, "%.*s", (int) (e - q) - 19, q + 19); char *s = ar_; while(*s == ' ') s++;
        if(log_[k].args) { Term t = Narsese_Term(s); VF_CHECK(t_eq(tree(&t), log_[k].args), "the output says arguments %s, but %s was called with %s", s, nm, t_str(log_[k].args)); }
        else VF_CHECK(strspn(s, " ()") == strlen(s), "the output says arguments %s, but %s was called without", s, nm);
        k++;
    }
    VF_CHECK(k == nlog, "%s was called, but the output does not say so", log_[k].name); n_printed += k;
}
/* every registered argument of every operation is tried, and no other */
static void explored(void *init)
{
    static const char *ARG[] = { "x", "(x * y)", "{z}", "y" };
    for(int m=0; m<125; m++)
    {
        if(!vf_case()) continue;
        int n[3] = { m % 5, m / 5 % 5, m / 25 }; char tried[3][8] = {{0}};
        for(int r=0; r<6; r++) for(int r2=0; r2<12; r2++)
        {
            char b[100]; vf_restore(init); ex_pl = 0; input("*motorbabbling=1");
            for(int o=0; o<3; o++) for(int k=0; k<n[o]; k++) { sprintf(b, "*setoparg %d %d %s", o + 1, k + 1, ARG[(k + o) % 4]); input(b); }
            sprintf(b, "~y%d %d g! :|:", r, r2); input(b); vf_stats.states++; vf_stats.nontrivial++; VF_CHECK(nlog == 1, "%d operations are executed", nlog);
            int o = op_id(log_[0].name) - 1; N *a = log_[0].args; if(!n[o]) { VF_CHECK(!a, "%s was executed with %s", log_[0].name, t_str(a)); tried[o][7] = 1; continue; }
            bool ok = false; for(int k=0; k<n[o]; k++) { sprintf(b, "({SELF} * %s)", ARG[(k + o) % 4]); t_pp = b; if(a && t_eq(a, t_read0())) { ok = true; tried[o][k] = 1; } }
            VF_CHECK(ok, "%s was executed with %s", log_[0].name, a ? t_str(a) : "nothing");
        }
        for(int o=0; o<3; o++) { if(!n[o]) VF_CHECK(tried[o][7], "operation %d is never explored", o + 1); for(int k=0; k<n[o]; k++) VF_CHECK(tried[o][k], "argument %d of operation %d is never explored", k + 1, o + 1); }
    }
}
int vf_main(void)

{
    vf_quiet(); vf_cap_begin(); Shell_NARInit(); callbacks(); chk_exec = chk_args = true;
    for(int s=0; s<(int)(sizeof SETS/sizeof *SETS); s++) for(int i=0; i<14 && SETS[s].l[i]; i++) intern(SETS[s].l[i]);
    intern("a b c d g h k o x y z SELF ^foo");
    void *init = sn[23] = vf_snap_new(); registrations(vf_thorough ? 5 : 4); explored(init); after = printed;
    for(int s=0; s<(int)(sizeof SETS/sizeof *SETS); s++)
    {
        vf_restore(init); memset(sn, 0, sizeof sn); ex_pl = 0; int n = 0; while(n < 14 && SETS[s].l[n]) n++;
        with_stdin = SETS[s].std;
        for(int i=0; i<8 && SETS[s].pre[i]; i++) input(SETS[s].pre[i]);
        rec(0, vf_thorough ? SETS[s].t : SETS[s].q, (const char**) SETS[s].l, n);
    }
    vf_count("executions", n_exec); vf_count("observations of executions", n_fb); vf_count("explorations", n_babble); vf_count("values returned", n_stdin); vf_count("instances assumed to fail", n_miss); vf_count("experienced instances left alone", n_same); vf_count("executions printed", n_printed);
    return 0;
}
