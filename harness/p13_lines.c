/* P13: every line of the space goes to the line interface of the shell, in an exactly sized buffer, under a memory-error
 * detector. A line may be processed or end the process with a diagnostic; anything else (memory error, signal, hang,
 * silent exit) is a violation. */
#include "terms.h"
#include "Shell.h"
#include <ctype.h>
void Metric_send(const char* path, int value) {}
static void *init; static int since;
static void line(const char *s)
{
    vf_desc("%s", s);
    char *b = malloc(strlen(s) + 1); strcpy(b, s);
    if(++since > 200 || currentTime > 5000 || currentTime < 0) { vf_restore(init); since = 0; }
    vf_cap_begin(); vf_exit_code = 0;
    volatile int r = -1;
    if(VF_GUARD_BEGIN()) { r = Shell_ProcessInput(b); VF_GUARD_END(); vf_count("lines_processed", 1); if(r == SHELL_RESET) { Shell_NARInit(); } }
    else
    {
        const char *out = vf_cap();
        VF_CHECK(vf_exit_code != 0 && strlen(out) > 3, "ends the process without a diagnostic (status %d)", vf_exit_code);
        vf_count("lines_rejected", 1);
        vf_restore(init); since = 0;
    }
    vf_stats.transitions++;
    if(vf_seen(vf_hash(vf_cap(), strlen(vf_cap()), 7))) vf_stats.nontrivial++;
    vf_quiet(); free(b);
}
static const char *TK[] = { "(", ")", "<", ">", "{", "}", "[", "]", "-->", "<->", "==>", "=/>", "<=>", "|->", "&&", "||", "&/", "*", "&", "-", "~", "/1", "\\2", "--", ".", "@", "!", "?", ":|:", "a", "b1", "$1", "#2", "?1", "^left", "{SELF}", "{0.5 0.9}", "%", ";", ",", "dt=1", "+", "=", ":", "\"", "'", "_", "0.5" };
enum { NTK = sizeof TK / sizeof *TK };
static const char *SUF[] = { ".", ". :|:", "! :|:", "?", "", ". {0.5 0.9}", "? :/:" };
static const char *BASE[] = { "< a --> b > .", "< ( a * b ) --> r > . :|:", "< { SELF } --> [ good ] > ! :|:", "< ( a &/ ^left ) =/> b > .", "< ( < $1 --> a > && < $1 --> b > ) ==> < $1 --> c > > .", "( -- < a --> b > ) . :|: {0.5 0.9}", "< ( { SELF } * x ) --> ^left > ! :|:", "< ?1 --> b > ?", "< a --> ( r /1 b ) > .", "( a &/ b ) ! :|:", "dt=1 < a =/> b > .", "< a <-> b > . %0.5;0.9%", "< ( a & b ) --> c > .", "{ a b } . :|:", "< ( a || b ) <=> c > .", "< a --> ( b * ( c * d ) ) > .", "< ( ( a &/ b ) &/ ^left ) =/> c > .", "< a |-> [ b ] > . :|:" };
enum { NBASE = sizeof BASE / sizeof *BASE };
static const char CH[] = "()<>{}[]-=>/&|*~\\:;.,!?@%$#^+_'\"a1 \t";
static char *rep(const char *s, int n) { static char b[6][20000]; static int k; char *p = b[k++ % 6]; *p = 0; char *q = p; int l = strlen(s); for(int i=0; i<n && (q - p) + l < 19990; i++) { memcpy(q, s, l); q += l; } *q = 0; return p; }
int vf_main(void)
{
    vf_quiet(); vf_cap_begin(); srand(1);
    Shell_NARInit();
    for(int i=0; i<NTK; i++) Narsese_AtomicTermIndex((char*) TK[i]);
    vf_quiet(); init = vf_snap_new();
    char b[9000];
    /* A: token strings */
    int nsuf = sizeof SUF / sizeof *SUF;
    for(int i=-1; i<NTK; i++) for(int j=-1; j<NTK; j++)
    {
        if((i < 0 && j >= 0) || !vf_case()) continue;
        vf_restore(init); since = 0;
        for(int k=-1; k<NTK; k++) { if(j < 0 && k >= 0) break; for(int s=0; s<nsuf; s++) { sprintf(b, "%s %s %s%s", i < 0 ? "" : TK[i], j < 0 ? "" : TK[j], k < 0 ? "" : TK[k], SUF[s]); line(b); }
            if(k >= 0) for(int l=0; l<NTK; l++) { if(!vf_thorough && (l & 1) != (k & 1)) continue; sprintf(b, "%s %s %s %s.", TK[i], TK[j], TK[k], TK[l]); line(b); if(vf_thorough) { sprintf(b, "%s%s%s%s :|:", TK[i], TK[j], TK[k], TK[l]); line(b); } } }
        vf_stats.states++;
    }
    /* B: raw characters */
    int nch = strlen(CH);
    for(int i=0; i<nch; i++) for(int j=0; j<nch; j++)
    {
        if(!vf_case()) continue;
        vf_restore(init); since = 0;
        sprintf(b, "%c", CH[i]); line(b); sprintf(b, "%c%c", CH[i], CH[j]); line(b);
        for(int k=0; k<nch; k++) { sprintf(b, "%c%c%c", CH[i], CH[j], CH[k]); line(b); for(int s=0; s<nsuf; s++) { if(!vf_thorough && s > 1) break; sprintf(b, "%c%c%c%s", CH[i], CH[j], CH[k], SUF[s]); line(b); }
            if(vf_thorough) for(int l=0; l<nch; l++) { sprintf(b, "%c%c%c%c.", CH[i], CH[j], CH[k], CH[l]); line(b); } }
        vf_stats.states++;
    }
    /* C: well-formed sentences with one edit (every token deleted, doubled, replaced by or preceded by every token), two edits in the thorough tier; cut at every character */
    for(int s=0; s<NBASE; s++)
    {
        char t[400]; strcpy(t, BASE[s]); char *tok[40]; int n = 0; for(char *p = strtok(t, " "); p; p = strtok(NULL, " ")) tok[n++] = p;
        for(int pos=0; pos<n; pos++)
        {
            if(!vf_case()) continue;
            vf_restore(init); since = 0;
            for(int r=-2; r<NTK; r++) for(int ins=0; ins<2; ins++)
            {
                if(r < 0 && ins) continue;
                char *e[41]; int m = 0; for(int i=0; i<n; i++) { if(i == pos) { if(r >= 0) e[m++] = (char*) TK[r]; if(r == -2) { e[m++] = tok[i]; e[m++] = tok[i]; } else if(ins) e[m++] = tok[i]; } else e[m++] = tok[i]; }
                *b = 0; for(int i=0; i<m; i++) { if(i) strcat(b, " "); strcat(b, e[i]); } line(b);
                if(vf_thorough) for(int p2=0; p2<m; p2++) for(int r2=-1; r2<NTK; r2++) { *b = 0; for(int i=0; i<m; i++) { if(i == p2 && r2 < 0) continue; if(i) strcat(b, " "); strcat(b, i == p2 ? TK[r2] : e[i]); } line(b); }
                else for(int p2=0; p2<m; p2++) { *b = 0; for(int i=0; i<m; i++) { if(i == p2) continue; if(i) strcat(b, " "); strcat(b, e[i]); } line(b); }
            }
            vf_stats.states++;
        }
        if(vf_case()) { vf_restore(init); since = 0; int L = strlen(BASE[s]); for(int c=0; c<=L; c++) { memcpy(b, BASE[s], c); b[c] = 0; line(b); line(BASE[s] + c); for(int f=0; f<nsuf; f++) { memcpy(b, BASE[s], c); strcpy(b + c, SUF[f]); line(b); sprintf(b, "%s%s", BASE[s] + c, SUF[f]); line(b); } } vf_stats.states++; }
    }
    /* D: lengths and nesting around every limit */
    static const char *UN[] = { "a", "(", ")", "[", "{", "<", "((a * b) * ", "(a * ", "(-- ", "{a ", "a ", " ", ",", "-->", "%", "\\", "$1", "?", ":|:", "<a --> ", "(&/ a ", "1", "[a] ", "{0.5 0.5} ", "((a &/ b) &/ c) ", "\t", "@", "(& " };
    for(int u=0; u<(int) (sizeof UN / sizeof *UN); u++) for(int part=0; part<8; part++)
    {
        if(!vf_case()) continue;
        int l = strlen(UN[u]); vf_restore(init); since = 0;
        for(int n=1; n*l < NARSESE_LEN_MAX + 60; n++)
        {
            int near = n < 80 ? 1 : 0, lens = n*l; static const int lim[] = { 31, 32, 33, 64, 128, 1000, 1024, 2048, NARSESE_LEN_MAX, NARSESE_LEN_MAX/3 }; for(int i=0; i<10; i++) if(lens >= lim[i] - 12 - l && lens <= lim[i] + 12 + l) near = 1;
            if(!near || n % 8 != part) continue;
            char *x = rep(UN[u], n);
            if(u != 21 || n < 6) line(x); /* longer numbers are requests for that many steps */
            static const char *F[] = { "%s.", "%s. :|:", "<%s --> b>.", "<a --> %s>.", "<a --> b>. {%s 0.9}", "dt=%s a.", "(%s a)?", "{%s}. :|:", "//%s", "*setvalue 0.5 10 %s", "*setopname 1 ^%s", "*setoparg 1 1 %s", "*query 0.5 %s?", "*stampimport=[%s]", "*volume=%s", "a! :|: %%%s%%", "*space 3 %s", "<(%s &/ ^left) =/> g>." };
            for(int f=0; f<(int) (sizeof F / sizeof *F); f++) { if(u == 21 && f == 16 && n > 2) continue; snprintf(b, sizeof b, F[f], x); line(b); }
            char *y = rep(")", n); snprintf(b, sizeof b, "%sa%s.", x, y); line(b);
        }
        vf_stats.states++;
    }
    /* E: every command with every kind of argument, alone and after knowledge was entered */
    static const char *CM[] = { "*reset", "*volume=", "*restrictedconceptcreation=", "*anticipationconfidence=", "*decisionthreshold=", "*similaritydistance=", "*stats", "*inverted_atom_index", "*opconfig", "*concepts", "*cycling_belief_events", "*cycling_goal_events", "quit", "*babblingops=", "*currenttime=", "*stampid=", "*stampimport=[", "*motorbabbling=", "*questionpriming=", "*setvalue ", "*space ", "*setopname ", "*setoparg ", "*query ", "*setopstdin ", "*concurrent", "*", "//", "**", "*foo", "1", "12", "*stampimport=" };
    static const char *AR[] = { "", "0", "1", "-1", "2", "3", "4", "100", "0.5", "-0.5", "abc", "true", "false", "]", "1]", "1,2]", "1,2,3,4,5,6,7,8,9,10,11,12]", ",,,]", "[]", "1 1", "1 1 x", "1 2 {SELF}", "0.5 10", "0.5 10 x", "0.5 1000 x", "0.5 0 x", "3 x", "1 ^op", "2 ^left", "4 ^op", "0.0 <a --> b>?", "0.5 ?1?", "0.5 a.", "2.0 a?", "1 11 a", "11 1 a", "nan", "inf", "-inf", "1e999", "2147483648", "1 1 (", "1 1 ((((((a", "0.1 ?", "1e30 10 y", "-5 100 z" };
    static const char *PRE[] = { NULL, "<a --> b>. :|:", "<(a &/ <({SELF} * x) --> ^left>) =/> g>.", "g! :|:", "*setvalue 0.5 10 br" };
    for(int c=0; c<(int) (sizeof CM / sizeof *CM); c++) for(int p=0; p<5; p++)
    {
        if(!vf_case()) continue;
        for(int a=0; a<(int) (sizeof AR / sizeof *AR); a++)
        {
            if(isdigit(CM[c][0]) && strlen(AR[a]) > 3 && isdigit(AR[a][0]) && isdigit(AR[a][3])) continue; /* a request for that many steps, not a hang */
            vf_restore(init); since = 0; if(PRE[p]) line(PRE[p]);
            snprintf(b, sizeof b, "%s%s", CM[c], AR[a]); line(b);
            line("<a --> b>. :|:"); line("<a --> b>?"); line("g! :|:"); line("<x --> [0.5]>. :|:"); line("*concepts"); line("3"); line("*opconfig");
        }
        vf_stats.states++;
    }
    vf_stats.validated = vf_stats.transitions;
    return 0;
}
