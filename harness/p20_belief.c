/* P20: what a concept holds as observation, prediction and general belief after every order of items of all time classes. */
#include "belief.h"
static RE OPS[128]; static int nops; static Term T; static bool may_pool; static void *sn[16]; static long now;
static void addop(double f, double c, long time, long s1, long s2) { RE e = { true, { f, c }, { { s1, s2 }, s2 ? 2 : 1 }, time }; OPS[nops++] = e; }
static void rec(int d, int max, Model m, char *path, int pl)
{
    if(d == max) return;
    if(!sn[d]) sn[d] = vf_snap_new(); else vf_snap(sn[d]);
    long n0 = now;
    for(int o=0; o<=nops; o++)
    {
        if(d == 1 && !vf_case()) continue;
        Model k = m; now = n0; int l;
        if(o == nops) { now += 3; l = sprintf(path + pl, "; 3 steps later"); }
        else
        {
            RE e = OPS[o]; if(e.time != REF_ETERNAL) e.time += now;
            l = sprintf(path + pl, "; %s", b_show(&e)); vf_desc("now=%ld%s", now, path);
            Event ev = m_event(T, e, now);
            if(VF_GUARD_BEGIN()) { Memory_AddEvent(&ev, now, 1, true, false, false, 0); VF_GUARD_END(); } else { VF_GUARD_END(); vf_fail("an internal check failed"); }
            m_add(&k, e, now, may_pool);
            Concept *c = Memory_FindConceptByTerm(&T); if(c == NULL) { VF_CHECK(!k.belief.held, "no concept holds the statement"); rec(d + 1, max, k, path, pl + l); vf_restore(sn[d]); continue; }
            b_check(&c->belief_spike, &k.spike, "observation"); b_check(&c->predicted_belief, &k.pred, "prediction"); b_check(&c->belief, &k.belief, "general belief");
            if(c->belief_spike.type) VF_CHECK(Term_Equal(&c->belief_spike.term, &T), "the observation is about another statement");
            vf_stats.transitions++; vf_stats.validated++;
        }
        if(d >= 1) vf_stats.states++;
        rec(d + 1, max, k, path, pl + l);
        vf_restore(sn[d]);
    }
    now = n0;
}
/* the same through the reasoner's input and steps */
static const char *A[] = { "a. :|:", "a. :|: {0.3 0.473}", "a. :|: {0.4 0.985}", "a. :|: {0.2 0.12}", "a. {0.6 0.7}", "a. {0 0.4}", "1", "3", "*concurrent" };
static Model hm[16]; static int nsel;
static Model cur; static long hist_base;
static void h_rec(int d, int max, Model m)
{
    if(d == max) return;
    if(!sn[d]) sn[d] = vf_snap_new(); else vf_snap(sn[d]);
    int pl = ex_pl;
    for(int o=0; o<(int)(sizeof A/sizeof *A); o++)
    {
        if(d == 2 && !vf_case()) continue;
        ex_pl = pl; ex_path[pl] = 0; Model k = m; long t = currentTime;
        const char *l = A[o]; ex_pl += sprintf(ex_path + ex_pl, "%s | ", l); vf_desc("%s", ex_path);
        int steps = 1;
        if(*l == 'a')
        {
            RE e = { true, { 1, 0.9 }, { { base }, 1 }, strstr(l, ":|:") ? t : strstr(l, ":\\:") ? t - 1 : strstr(l, ":/:") ? t + 1 : REF_ETERNAL };
            if(strchr(l, '{')) sscanf(strchr(l, '{'), "{%lf %lf}", &e.t.f, &e.t.c);
            m_add(&k, e, t, true);
        }
        else steps = atoi(l);
        if(*l == '*') { ex_feed(l); steps = 0; }
        if(*l != 'a') for(int s=0; s<steps; s++)
        {
            ex_feed("1");
            if(beliefsSelectedCnt) { RE e = b_item(&selectedBeliefs[0]); if(e.time != REF_ETERNAL && (currentTime - 1) - e.time < 20 && (!k.spike.held || e.time > k.spike.time)) k.spike = e; }
        }
        else
        {
            ex_feed(l);
            if(beliefsSelectedCnt) { RE e = b_item(&selectedBeliefs[0]); if(e.time != REF_ETERNAL && t - e.time < 20 && (!k.spike.held || e.time > k.spike.time)) k.spike = e; }
        }
        Term ta = Narsese_Term("a"); Concept *c = Memory_FindConceptByTerm(&ta);
        if(c) { b_check(&c->belief_spike, &k.spike, "observation"); b_check(&c->predicted_belief, &k.pred, "prediction"); b_check(&c->belief, &k.belief, "general belief"); }
        vf_stats.transitions++; vf_stats.validated++; if(d >= 2) vf_stats.states++;
        h_rec(d + 1, max, k);
        vf_restore(sn[d]);
    }
    ex_pl = pl; ex_path[pl] = 0;
}
int vf_main(void)
{
    static char path[4000]; static void *init;
    vf_quiet(); vf_cap_begin(); Shell_NARInit(); MOTOR_BABBLING_CHANCE = 0; init = vf_snap_new();
    const char *terms[] = { "a", "<a --> b>", "(<#1 --> a> && <#1 --> b>)", "(<#1 --> a> &/ b)", "(a && b)" };
    long TM[] = { REF_ETERNAL, 0, -2, -7, 2, 5 };
    double TR[][2] = { { 1, 0.91 }, { 0.3, 0.473 } };
    for(int t=0; t<5; t++)
    {
        vf_restore(init); T = Narsese_Term((char*) terms[t]); void *s2 = NULL; (void) s2; may_pool = t != 2 && t != 3; nops = 0;
        for(int i=0; i<6; i++) for(int k=0; k<2; k++)
        { if(t < 1) { addop(TR[k][0], TR[k][1], TM[i], 1, 0); addop(TR[k][0], TR[k][1], TM[i], 2, 0); addop(TR[k][0], TR[k][1], TM[i], 1, 2); addop(TR[k][0], TR[k][1], TM[i], 3, 0); }
          else { addop(TR[k][0], TR[k][1], TM[i], k + 1, 0); } }
        if(t == 0) { addop(0.5, 0.005, 0, 4, 0); addop(0, 0.985, 0, 5, 0); addop(0, 0.985, REF_ETERNAL, 6, 0); addop(1, 0.2, 1, 7, 0); }
        now = 10; *path = 0; path[0] = 0;
        Model m = {0}; memset(sn, 0, sizeof sn);
        rec(0, t == 0 ? (vf_thorough ? 4 : 3) : vf_thorough ? 6 : 4, m, path, 0);
    }
    vf_restore(init); memset(sn, 0, sizeof sn); Model m = {0}; ex_pl = 0;
    h_rec(0, vf_thorough ? 8 : 6, m);
    return 0;
}
