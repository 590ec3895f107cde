/* P31: around every step of every input history the priorities of all buffered events and of all concepts are compared with
 * what decay, selection, displacement and use allow. */
#include "explore.h"
typedef struct { Event e; double p; } It;
typedef struct { It b[CYCLING_BELIEF_EVENTS_MAX]; int nb; It g[CYCLING_GOAL_EVENTS_LAYERS][CYCLING_GOAL_EVENTS_MAX]; int ng[CYCLING_GOAL_EVENTS_LAYERS]; struct { long id; Usage u; double pr, q; } c[CONCEPTS_MAX]; int nc; long t; } St;
static St pre, post;
static int grab(PriorityQueue *q, It *o) { for(int i=0; i<q->itemsAmount; i++) { o[i].e = *(Event*) q->items[i].address; o[i].e.term.hashed = false; o[i].e.term.hash = 0; o[i].p = q->items[i].priority; } return q->itemsAmount; }
static void take(St *s)
{
    s->nb = grab(&cycling_belief_events, s->b); for(int l=0; l<CYCLING_GOAL_EVENTS_LAYERS; l++) s->ng[l] = grab(&cycling_goal_events[l], s->g[l]);
    s->nc = concepts.itemsAmount; for(int i=0; i<s->nc; i++) { Concept *c = concepts.items[i].address; s->c[i].id = c->id; s->c[i].u = c->usage; s->c[i].pr = c->priority; s->c[i].q = concepts.items[i].priority; }
    s->t = currentTime;
}
static bool same(Event *a, Event *b) { return !memcmp(a->term.atoms, b->term.atoms, sizeof a->term.atoms) && !memcmp(&a->truth, &b->truth, sizeof a->truth) && !memcmp(&a->stamp, &b->stamp, sizeof a->stamp) && a->type == b->type && a->occurrenceTime == b->occurrenceTime; }
static void ordered(PriorityQueue *q, int cap, const char *w)
{
    /* taking the entries from a copy of the buffer yields them from the highest to the lowest */
    static Item tmp[CONCEPTS_MAX]; if(cap > CONCEPTS_MAX) return;
    memcpy(tmp, q->items, sizeof(Item)*cap); PriorityQueue c = *q; c.items = tmp; double last = 2, p;
    while(PriorityQueue_PopMax(&c, NULL, &p)) { VF_CHECK(p <= last, "%s: after the step %g comes out after %g", w, p, last); last = p; }
}
static void before(const char *line) { take(&pre); }
/* which old entries are still held: returns the number that left; checks decay of the rest */
static int compare(It *o, int n, It *a, int m, int cap, double sel, const char *w, bool cleared, double *maxleft)
{
    int left = 0; *maxleft = -1; bool used[64] = {0}; double leave[64];
    double minafter = 2; for(int i=0; i<m; i++) if(a[i].p < minafter) minafter = a[i].p;
    for(int i=0; i<n; i++)
    {
        int f = -1; for(int j=0; j<m && f < 0; j++) if(!used[j] && same(&o[i].e, &a[j].e) && a[j].p == o[i].p * EVENT_DURABILITY) f = j;
        if(f < 0) for(int j=0; j<m && f < 0; j++) if(!used[j] && same(&o[i].e, &a[j].e)) f = -2 - j;
        if(f >= 0) { used[f] = true; vf_count("decayed_entries", 1); continue; }
        if(f <= -2) { int j = -2 - f; used[j] = true; VF_CHECK(a[j].p >= o[i].p * EVENT_DURABILITY, "%s: an entry of priority %.9g went to %.9g in one step (durability %g)", w, o[i].p, a[j].p, EVENT_DURABILITY); leave[left++] = o[i].p; continue; }
        leave[left++] = o[i].p;
    }
    if(cleared) return left;
    int out = 0;
    for(int i=0; i<left; i++)
    {
        bool displaced = m == cap && leave[i] * EVENT_DURABILITY <= minafter;
        if(leave[i] > *maxleft && !displaced) *maxleft = leave[i];
        if(!displaced) out++;
    }
    VF_CHECK(out <= 1, "%s: %d entries left in one step without being displaced by better ones", w, out);
    vf_stats.nontrivial += left > 0;
    /* who left was the best of the old ones */
    if(out == 1) for(int i=0; i<n; i++) if(o[i].p > *maxleft) { bool gone = false; for(int k=0; k<left; k++) gone |= leave[k] == o[i].p; VF_CHECK(gone, "%s: an entry of priority %g was taken though one of priority %g is held", w, *maxleft, o[i].p); }
    return left;
}
static void after(const char *line)
{
    take(&post); bool pure = !strcmp(line, "1"), exec = strstr(vf_cap(), " executed with args ") != NULL; double ml;
    ordered(&cycling_belief_events, CYCLING_BELIEF_EVENTS_MAX, "belief events"); ordered(&concepts, CONCEPTS_MAX, "concepts"); for(int l=0; l<CYCLING_GOAL_EVENTS_LAYERS; l++) ordered(&cycling_goal_events[l], CYCLING_GOAL_EVENTS_MAX, "goal events");
    if(strstr(line, "reset")) return;
    for(int i=0; i<post.nc; i++)
    {
        double n = (double) post.c[i].u.useCount / ((double) (post.t - 1 - post.c[i].u.lastUsed > 0 ? post.t - 1 - post.c[i].u.lastUsed : 0) + 1.0);
        /* the ranking is by usefulness at the end of the step */
        if(!exec) VF_CHECK(fabs(post.c[i].q - n/(n+1)) < 1e-12, "a concept is ranked with %g, its usefulness is %g", post.c[i].q, n/(n+1));
        for(int k=0; k<pre.nc; k++) if(pre.c[k].id == post.c[i].id)
        {
            VF_CHECK(post.c[i].u.useCount >= pre.c[k].u.useCount && post.c[i].u.lastUsed >= pre.c[k].u.lastUsed, "the use count of a concept went from %ld to %ld", pre.c[k].u.useCount, post.c[i].u.useCount);
            if(post.t == pre.t + 1)
            {
                VF_CHECK(post.c[i].pr >= pre.c[k].pr * CONCEPT_DURABILITY, "the priority of a concept went from %g to %g in one step (durability %g)", pre.c[k].pr, post.c[i].pr, CONCEPT_DURABILITY);
                if(post.c[i].u.useCount == pre.c[k].u.useCount) VF_CHECK(post.c[i].pr == pre.c[k].pr * CONCEPT_DURABILITY, "the priority of an unused concept went from %g to %g in one step (durability %g)", pre.c[k].pr, post.c[i].pr, CONCEPT_DURABILITY);
            }
        }
    }
    if(!pure || post.t != pre.t + 1) return;
    /* a step without input */
    if(pre.nb && !exec)
    {
        double mx = -1; for(int i=0; i<pre.nb; i++) if(pre.b[i].p > mx) mx = pre.b[i].p;
        VF_CHECK(beliefsSelectedCnt == 1 && selectedBeliefsPriority[0] == mx, "the selected event has priority %g, the highest held was %g", beliefsSelectedCnt ? selectedBeliefsPriority[0] : -1, mx);
        bool ok = false; for(int i=0; i<pre.nb; i++) ok |= pre.b[i].p == mx && same(&pre.b[i].e, &selectedBeliefs[0]); VF_CHECK(ok, "the selected event is none of the best held ones");
        int l = compare(pre.b, pre.nb, post.b, post.nb, CYCLING_BELIEF_EVENTS_MAX, mx, "belief events", false, &ml);
        VF_CHECK(l >= 1, "the selected event is still in the buffer");
    }
    bool lower = false;
    for(int l=0; l<CYCLING_GOAL_EVENTS_LAYERS; l++)
    {
        if(pre.ng[l])
        {
            int left = compare(pre.g[l], pre.ng[l], post.g[l], post.ng[l], CYCLING_GOAL_EVENTS_MAX, 0, "goal events", exec, &ml);
            if(!exec && !lower) VF_CHECK(left >= 1, "a goal layer was not processed: all its %d goals are still held", pre.ng[l]);
            lower = true;
        }
    }
    if(exec) for(int l=0; l<CYCLING_GOAL_EVENTS_LAYERS; l++) vf_count("executions_seen", l == 0);
}
static const char *A[] = { "a. :|:", "b. :|: {0.7 0.6}", "<a --> b>.", "<b --> c>. :|: {0.4 0.5}", "g! :|:", "<(a &/ ^left) =/> g>. {0.9 0.5}", "<a =/> g>.", "1", "h! :|: {0.8 0.6}", "<(<$1 --> b> && <$1 --> d>) ==> <$1 --> c>>." };
static const char *B[] = { "(a &/ b)! :|:", "<a =/> b>. {0.8 0.4}", "<c =/> a>. {0.7 0.5}", "<d =/> c>.", "b! :|: {1.0 0.7}", "d. :|:", "1", "c! :|: {0.9 0.5}" };
int vf_main(void)
{
    vf_quiet(); srand(1); vf_cap_begin(); Shell_NARInit(); MOTOR_BABBLING_CHANCE = 0; void *init = vf_snap_new();
    ex_before = before; ex_after = after;
    ex_all(A, sizeof A / sizeof *A, vf_thorough ? 7 : 6, "");
    for(int l=1; l<=(vf_thorough ? 5 : 4); l++) ex_periodic(A, sizeof A / sizeof *A, l, 40, "");
    vf_restore(init);
    ex_all(B, sizeof B / sizeof *B, vf_thorough ? 7 : 6, "");
    for(int l=1; l<=(vf_thorough ? 5 : 4); l++) ex_periodic(B, sizeof B / sizeof *B, l, 40, "");
    vf_stats.validated = vf_stats.transitions;
    return 0;
}
