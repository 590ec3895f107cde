/* P27: after every pre-history and a reset, every history gives the same output, executions and knowledge as on the freshly
 * started system; and every history gives the same again whatever the stack held before. */
#include "explore.h"
#include "dump.h"
static const char *A[] = { "<a --> b>. :|:", "<b --> c>.", "<(a &/ ^left) =/> g>. {0.9 0.8}", "a. :|:", "g! :|:", "^left. :|:", "(a &/ g)! :|:", "<x --> [0.3]>. :|:", "4", "<?1 --> c>?", "<a --> b>? :|:", "<({SELF} * y) --> ^right>! :|:", "*stats" };
static const char *P[] = { "<a --> b>. :|:", "a. :|:", "<(a &/ ^left) =/> g>.", "g! :|:", "^left. :|:", "<({SELF} * y) --> ^right>! :|:", "*setvalue 0.3 10", "<x --> [0.3]>. :|:", "*space 2 q", "*stampid=77", "*stampimport=[5,6]", "*currenttime=55", "*concurrent", "30", "*setopname 1 ^foo", "*setoparg 1 1 z", "b. :|: {0.0 0.9}", "<b --> a>? :|:", "*concepts", "*restrictedconceptcreation=true", "*setopstdin 1 0", "<<$1 --> b> ==> <$1 --> c>>.", "*query 0.5 ?1?" };
enum { NA = sizeof A/sizeof *A, NP = sizeof P/sizeof *P };
static uint64_t *ref; static uint64_t *refout; static bool recording; static int depth_max, round_;
static void poison(int byte) { volatile char b[60000]; memset((void*) b, byte, sizeof b); __asm__ volatile("" :: "r"(b) : "memory"); }
static uint64_t outhash(void) { const char *o = vf_cap(); return vf_hash(o, strlen(o), 9); }
static void *sn[16];
static void tree(int d, long at)
{
    if(d == depth_max) return;
    if(!sn[d]) sn[d] = vf_snap_new(); else vf_snap(sn[d]);
    int pl = ex_pl;
    for(int a=0; a<NA; a++)
    {
        ex_pl = pl; ex_path[pl] = 0; ex_pl += sprintf(ex_path + ex_pl, "%s | ", A[a]); vf_desc("%s", ex_path);
        long node = at * NA + a + 1; poison(round_ ? 0xff : 0); ex_feed(A[a]); vf_stats.transitions++;
        uint64_t o = outhash(), s = d_all();
        if(recording) { ref[node] = s; refout[node] = o; }
        else
        {
            if(refout[node] != o) { const char *c = vf_cap(); vf_fail("the output differs from that of the freshly started system: %.200s", c); }
            VF_CHECK(ref[node] == s, "what is held afterwards differs from the freshly started system"); vf_stats.validated++; vf_stats.nontrivial++;
        }
        tree(d + 1, node);
        vf_restore(sn[d]);
    }
    ex_pl = pl; ex_path[pl] = 0;
}
static void compare(const char *pre, int depth) { int n = ex_pl; ex_pl = sprintf(ex_path, "%s*reset | ", pre); depth_max = depth; if(MOTOR_BABBLING_CHANCE > 0) mysrand(5); tree(0, 0); ex_pl = n; vf_stats.states++; }
int vf_main(void)
{
    vf_quiet(); vf_cap_begin(); static void *fresh, *s[8]; Shell_NARInit(); static char pre[4000];
    int D = 4; long tot = 0, p = 1; for(int i=0; i<4; i++) { p *= NA; tot += p; }
    ref = calloc(tot + 1, sizeof *ref); refout = calloc(tot + 1, sizeof *ref);
    fresh = vf_snap_new();
    for(int babble=0; babble<2; babble++)
    {
        vf_restore(fresh); MOTOR_BABBLING_CHANCE = babble ? 1.0 : 0; static void *start[2]; start[babble] = vf_snap_new();
        recording = true; round_ = 0; compare("", D); recording = false;
        if(vf_case()) { round_ = 1; vf_restore(start[babble]); compare("(again) ", D); round_ = 0; }
        vf_restore(start[babble]);
        /* one pre-history of each word up to length 3 */
        for(int l=1; l<=(babble ? 2 : 3); l++)
        {
            long n = 1; for(int i=0; i<l; i++) n *= NP;
            for(long w=0; w<n; w++)
            {
                if(!vf_case()) continue;
                vf_restore(start[babble]); int pl = 0; long v = w; bool ok = true; ex_pl = 0; *ex_path = 0;
                for(int i=0; i<l && ok; i++, v/=NP) { const char *line = P[v%NP]; pl += sprintf(pre + pl, "%s | ", line); vf_desc("%s", pre); if(!strncmp(line, "*setopname", 10) && concepts.itemsAmount) ok = false; else ex_feed(line); vf_stats.transitions++; }
                if(!ok) continue;
                vf_desc("%s*reset", pre); poison(0xff); ex_feed("*reset"); compare(pre, l <= 1 ? D : l == 2 ? 2 + vf_thorough : 1 + vf_thorough);
            }
        }
        /* long pre-histories */
        for(int l=1; l<=2; l++)
        {
            long n = 1; for(int i=0; i<l; i++) n *= NP;
            for(long w=0; w<n; w++)
            {
                if(!vf_case()) continue;
                vf_restore(start[babble]); ex_pl = 0; bool ok = true;
                for(int i=0; i<24 && ok; i++) { long v = i%l ? w/NP : w%NP; const char *line = P[v]; if(!strncmp(line, "*setopname", 10) && concepts.itemsAmount) continue; if(strlen(line) < 3 && i > 4) continue; ex_feed(line); vf_stats.transitions++; }
                sprintf(pre, "%s | %s repeated | ", P[w%NP], P[l == 2 ? w/NP : w%NP]); vf_desc("%s*reset", pre); ex_feed("*reset"); ex_feed("*reset"); compare(pre, 2);
            }
        }
    }
    return 0;
}
