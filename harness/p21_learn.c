/* P21: the temporal hypotheses held after every history of observations (with repetitions, simultaneous events, gaps around the
 * temporal window and operations) are exactly those a reference learner records: one per experienced succession. */
#include "learner.h"
int vf_main(void)
{
    vf_quiet(); vf_cap_begin(); Shell_NARInit(); MOTOR_BABBLING_CHANCE = 0; ANTICIPATION_CONFIDENCE = 0; /* negative evidence: P22 */
    ex_feed("*setopname 1 ^left"); ex_feed("*setopname 2 ^right"); for(const char *p="a b c d ^left ^right x y r"; *p; p++) if(*p != ' ') { char s[20]; int n; sscanf(p, "%s%n", s, &n); Narsese_AtomicTermIndex(s); p += n - 1; }
    Narsese_Term("<({SELF} * x) --> ^left>"); Narsese_Term("(a &/ <a =/> b>)");
    void *init = vf_snap_new(); int t = vf_thorough;
    struct { const char *l[10]; int n, max; double decay; } SETS[] = {
        { { "a. :|:", "b. :|:", "^left. :|:", "*concurrent", "1" }, 5, t ? 9 : 7 },
        { { "a. :|:", "b. :|:", "c. :|:", "^left. :|:", "^right. :|:", "*concurrent" }, 6, t ? 7 : 6 },
        { { "a. :|:", "b. :|: {0.4 0.6}", "a. :|: {0 0.7}", "^left. :|: {0.8 0.5}", "^left. :|:", "2" }, 6, t ? 8 : 6 },
        { { "a. :|:", "b. :|:", "^left. :|:", "1", "16", "17", "18", "19", "20" }, 9, t ? 6 : 5 },
        { { "<({SELF} * x) --> ^left>. :|:", "<({SELF} * y) --> ^left>. :|:", "a. :|:", "b. :|:", "1" }, 5, t ? 8 : 6 },
        { { "a. :|:", "b. :|: {1 0.99}", "b. :|: {0.9 0.1}", "a. :|: {0.7 0.02}", "10", "14", "3" }, 7, t ? 7 : 6 },
        { { "a. :|:", "(b &/ c). :|:", "((a &/ b) &/ c). :|:", "c. :|:", "^left. :|:" }, 5, t ? 7 : 6 },
        { { "a. :|:", "a.", "b.", "b. :|:", "a! :|:", "^left. :|:", "1" }, 7, t ? 7 : 6 },
        { { "a. :|:", "b. :|:", "^left. :|:", "1", "16", "17", "18", "19" }, 8, t ? 6 : 5, 0.98 },
        { { "~a 0", "~b 0", "~b 3", "~a 19", "~a 20", "^left. :|:", "b. :|:", "1", "12" }, 9, t ? 6 : 5, 0.98 },
        { { "~a 0", "~b 1", "~^left 3", "~a 2", "~^left 0", "b. :|:", "1", "2" }, 8, t ? 6 : 5 },
        { { "<x --> g>. :|:", "<x --> h>. :|:", "<y --> g>. :|:", "^left. :|:", "1" }, 5, t ? 7 : 6 },
    };
    for(int s=0; s<(int)(sizeof SETS/sizeof *SETS); s++) { vf_restore(init); w = (W) {0}; late = false; TRUTH_PROJECTION_DECAY = decay = SETS[s].decay ? SETS[s].decay : 0.8; memset(sn, 0, sizeof sn); ex_pl = sprintf(ex_path, "*setopname 1 ^left | *setopname 2 ^right | *anticipationconfidence=0 | "); rec(0, SETS[s].max, SETS[s].l, SETS[s].n); }
    vf_count("hypotheses_learned", learned); vf_count("repetitions", multi); vf_count("operations_observed", fedback);
    return 0;
}
