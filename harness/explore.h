/* Exploration of all input histories over an alphabet of input lines on the real reasoner (snapshot/restore between
 * branches), plus all periodic histories. Hooks are called around every step. */
#ifndef EXPLORE_H
#define EXPLORE_H
#include "vf.h"
#include "NAR.h"
#include "Shell.h"
#include <math.h>
void Metric_send(const char* path, int value) {}
static const char **ex_A; static int ex_n;
static void (*ex_before)(const char *line); static void (*ex_after)(const char *line);
static char ex_path[60000]; static int ex_pl; static int ex_exit_ok;
/* one input line, as the shell's read loop does it; a diagnostic exit is a violation */
static void ex_feed(const char *line)
{
    char b[2048]; snprintf(b, sizeof b, "%s", line);
    if(!strcmp(b, "*reset")) { Shell_NARInit(); return; }
    if(!strcmp(b, "*concurrent") && currentTime <= 1) return; /* there is no earlier step to be concurrent with */
    vf_cap_begin();
    if(VF_GUARD_BEGIN()) { Shell_ProcessInput(b); VF_GUARD_END(); }
    else { VF_GUARD_END(); vf_fail("an internal check failed: %.300s", strrchr(vf_cap(), '\n') ? vf_cap() + (strlen(vf_cap()) > 280 ? strlen(vf_cap()) - 280 : 0) : vf_cap()); }
}
static void ex_step(const char *line)
{
    int l = strlen(line); if(ex_pl + l + 4 < (int) sizeof ex_path) { memcpy(ex_path + ex_pl, line, l); memcpy(ex_path + ex_pl + l, " | ", 4); ex_pl += l + 3; }
    vf_desc("%s", ex_pl > 900 ? ex_path + ex_pl - 900 : ex_path);
    if(ex_before) ex_before(line);
    ex_feed(line);
    if(ex_after) ex_after(line);
    vf_stats.transitions++;
    if(vf_stats.transitions % 4099 == 57) vf_sample("%s", ex_pl > 300 ? ex_path + ex_pl - 300 : ex_path);
}
static void *ex_snaps[32];
static void ex_rec(int d, int max, int shardlevel)
{
    if(d == max) return;
    if(!ex_snaps[d]) ex_snaps[d] = vf_snap_new(); else vf_snap(ex_snaps[d]);
    int pl = ex_pl;
    for(int a=0; a<ex_n; a++)
    {
        if(d == shardlevel && !vf_case()) continue;
        ex_pl = pl; ex_path[pl] = 0;
        ex_step(ex_A[a]);
        if(d >= shardlevel) vf_stats.states++;
        ex_rec(d + 1, max, shardlevel);
        vf_restore(ex_snaps[d]);
    }
    ex_pl = pl; ex_path[pl] = 0;
}
/* all histories of the given length over the alphabet, continuing from the current state */
static void ex_all(const char **A, int n, int max, const char *prefix) { ex_A = A; ex_n = n; ex_pl = sprintf(ex_path, "%s", prefix); int sl = max > 2 ? 2 : max - 1; ex_rec(0, max, sl < 0 ? 0 : sl); }
/* all words of length len repeated until `steps` inputs were made */
static void ex_periodic(const char **A, int n, int len, int steps, const char *prefix)
{
    static void *s; if(!s) s = vf_snap_new(); else vf_snap(s);
    long tot = 1; for(int i=0; i<len; i++) tot *= n;
    for(long w=0; w<tot; w++)
    {
        if(!vf_case()) continue;
        ex_pl = sprintf(ex_path, "%s(period of %d) ", prefix, len); 
        for(int i=0; i<steps; i++) { long v = w; for(int k=0; k<i%len; k++) v /= n; if(ex_pl > 50000) ex_pl = 0; ex_step(A[v % n]); }
        vf_stats.states++; vf_restore(s);
    }
}
#endif
