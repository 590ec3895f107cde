/* Reference definitions, independent of the library's code: truth values and truth functions (NAL), evidential bases,
 * projection and eternalization, and the choice/pooling of two items about the same statement. */
#ifndef REF_H
#define REF_H
#include <math.h>
#include <stdbool.h>
#include <string.h>
#ifndef REF_HORIZON
#define REF_HORIZON 1.0
#endif
#ifndef REF_DECAY
#define REF_DECAY 0.8
#endif
#define REF_MAXCONF 0.99
#define REF_RELIANCE 0.9
#define REF_STAMP 10
#define REF_ETERNAL (-1L)
typedef struct { double f, c; } RT;                    /* truth */
typedef struct { long id[REF_STAMP]; int n; } RS;      /* evidential base, newest first */
typedef struct { bool held; RT t; RS s; long time; } RE; /* item */
static inline double r_w2c(double w) { return w/(w+REF_HORIZON); }
static inline double r_c2w(double c) { return REF_HORIZON*c/(1-c); }
static inline double r_exp(RT t) { return t.c*(t.f-0.5)+0.5; }
static inline double r_or(double a, double b) { return a+b-a*b; }
static inline RT r_rev(RT a, RT b) { double w1 = r_c2w(a.c), w2 = r_c2w(b.c), w = w1+w2; RT r = { (w1*a.f+w2*b.f)/w, r_w2c(w) }; if(r.f > 1) r.f = 1; if(r.c > REF_MAXCONF) r.c = REF_MAXCONF; r.c = fmax(r.c, fmax(a.c, b.c)); return r; }
static inline RT r_etern(RT t) { RT r = { t.f, r_w2c(t.c) }; return r; }
static inline RT r_proj(RT t, long from, long to) { RT r = t; if(from != REF_ETERNAL) r.c = t.c * pow(REF_DECAY, labs(to-from)); return r; }
static inline RT r_ded(RT a, RT b) { RT r = { a.f*b.f, a.f*b.f*a.c*b.c }; return r; }
static inline RT r_ind(RT a, RT b) { RT r = { a.f, r_w2c(b.f*a.c*b.c) }; return r; }
static inline RT r_abd(RT a, RT b) { return r_ind(b, a); }
static inline RT r_int(RT a, RT b) { RT r = { a.f*b.f, a.c*b.c }; return r; }
static inline RT r_exe(RT a, RT b) { RT r = { 1, r_w2c(a.f*b.f*a.c*b.c) }; return r; }
static inline RT r_com(RT a, RT b) { double f0 = r_or(a.f,b.f); RT r = { f0 == 0 ? 0 : a.f*b.f/f0, r_w2c(f0*a.c*b.c) }; return r; }
static inline RT r_ana(RT a, RT b) { RT r = { a.f*b.f, b.f*a.c*b.c }; return r; }
static inline RT r_res(RT a, RT b) { RT r = { a.f*b.f, r_or(a.f,b.f)*a.c*b.c }; return r; }
static inline RT r_uni(RT a, RT b) { RT r = { r_or(a.f,b.f), a.c*b.c }; return r; }
static inline RT r_dif(RT a, RT b) { RT r = { a.f*(1-b.f), a.c*b.c }; return r; }
static inline RT r_cnv(RT a) { RT r = { 1, r_w2c(a.f*a.c) }; return r; }
static inline RT r_neg(RT a) { RT r = { 1-a.f, a.c }; return r; }
static inline RT r_str(RT a) { RT r = { a.f, a.f*a.c*REF_RELIANCE }; return r; } /* structural deduction */
static inline RT r_sin(RT a) { RT r = { a.f, a.c*REF_RELIANCE }; return r; }    /* structural intersection */
static inline RT r_gded(RT a, RT b) { RT p = r_ded(a,b), n = r_ded(r_neg(a),b); n.f = 1-n.f; return p.c >= n.c ? p : n; }
static inline bool r_overlap(const RS *a, const RS *b) { for(int i=0; i<a->n; i++) for(int k=0; k<b->n; k++) if(a->id[i] == b->id[k]) return true; return false; }
static inline RS r_zip(const RS *a, const RS *b) { RS r = {0}; for(int i=0; i<REF_STAMP && r.n<REF_STAMP; i++) { if(i < a->n && r.n < REF_STAMP) r.id[r.n++] = a->id[i]; if(i < b->n && r.n < REF_STAMP) r.id[r.n++] = b->id[i]; } return r; }
/* same members with the same multiplicity, in any order */
static inline bool r_samebase(const RS *a, const RS *b) { if(a->n != b->n) return false; bool u[REF_STAMP] = {0}; for(int i=0; i<a->n; i++) { int k; for(k=0; k<b->n; k++) if(!u[k] && a->id[i] == b->id[k]) break; if(k == b->n) return false; u[k] = true; } return true; }
/* held item and new item about one statement: pooled if independent and about the same time, else the more confident one at
 * the later of both times (the held one on a tie) */
static inline RE r_merge(RE held, RE in, bool may_pool, bool *pooled)
{
    *pooled = false;
    if(!held.held) return in;
    if(may_pool && held.time == in.time && !r_overlap(&held.s, &in.s)) { RE r = held; r.t = r_rev(held.t, in.t); r.s = r_zip(&held.s, &in.s); *pooled = true; return r; }
    long later = held.time > in.time ? held.time : in.time;
    double ch = r_proj(held.t, held.time, later).c, ci = r_proj(in.t, in.time, later).c;
    return ci > ch + 1e-12 ? in : held;
}
#define REF_EPS 1e-9
#define r_near(a,b) (fabs((a)-(b)) <= REF_EPS)
#endif
