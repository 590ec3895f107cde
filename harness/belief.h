/* comparison of the library's items with the reference items */
#include "explore.h"
#include "ref.h"
static RS b_stamp(const Stamp *s) { RS r = {0}; for(int i=0; i<STAMP_SIZE && i<REF_STAMP && s->evidentialBase[i] != STAMP_FREE; i++) r.id[r.n++] = s->evidentialBase[i]; return r; }
static RE b_item(const Event *e) { RE r = { .held = e->type != EVENT_TYPE_DELETED, .t = { e->truth.frequency, e->truth.confidence }, .s = b_stamp(&e->stamp), .time = e->occurrenceTime }; return r; }
static const char *b_show(const RE *e) { static char bf[4][200]; static int k; char *b = bf[k++%4]; if(!e->held) return "nothing"; int n = sprintf(b, "{%.6g %.6g} at %ld base [", e->t.f, e->t.c, e->time); for(int i=0; i<e->s.n; i++) n += sprintf(b + n, i ? ",%ld" : "%ld", e->s.id[i]); sprintf(b + n, "]"); return b; }
static bool b_same(const RE *a, const RE *b) { return a->held == b->held && (!a->held || (r_near(a->t.f, b->t.f) && r_near(a->t.c, b->t.c) && a->time == b->time && r_samebase(&a->s, &b->s))); }
static void b_check(const Event *real, const RE *want, const char *what) { RE r = b_item(real); VF_CHECK(b_same(&r, want), "%s: held %s, expected %s", what, b_show(&r), b_show(want)); }
typedef struct { RE belief, spike, pred; } Model;
/* a new belief item arrives at `now` */
static void m_add(Model *m, RE e, long now, bool may_pool)
{
    bool p; if(e.t.c < MIN_CONFIDENCE) return;
    if(e.time != REF_ETERNAL) { if(e.time <= now) m->spike = r_merge(m->spike, e, may_pool, &p); else m->pred = r_merge(m->pred, e, may_pool, &p); }
    RE g = e; if(e.time != REF_ETERNAL) { g.t = r_etern(e.t); g.time = REF_ETERNAL; }
    m->belief = r_merge(m->belief, g, may_pool, &p); vf_stats.nontrivial += p;
}
static Event m_event(Term t, RE e, long now) { Event ev = { .term = t, .type = EVENT_TYPE_BELIEF, .truth = { e.t.f, e.t.c }, .occurrenceTime = e.time, .creationTime = now }; for(int i=0; i<e.s.n; i++) ev.stamp.evidentialBase[i] = e.s.id[i]; return ev; }
