/* P08: every truth function on every premise pair of a grid (extremes included), against independently
 * written NAL definitions, for several evidential horizons and projection decays. */
#include "vf.h"
#include "Truth.h"
#include <math.h>
typedef struct { double f, c; } T;
static double K;
static double w2c(double w) { return w/(w+K); }
static double OR(double a, double b) { return a + b - a*b; }
/* definitions (NAL, non-axiomatic logic 2013, tables of truth functions), written as f and c of (f1,c1,f2,c2) */
#define D(name, F, C) static T d_##name(double f1, double c1, double f2, double c2) { T r; r.f = (F); r.c = (C); return r; }
#define REL RELIANCE
D(Deduction, f1*f2, f1*f2*c1*c2)
D(Abduction, f2, w2c(f1*c1*c2))
D(Induction, f1, w2c(f2*c1*c2))
D(Intersection, f1*f2, c1*c2)
D(Exemplification, 1, w2c(f1*f2*c1*c2))
D(Comparison, OR(f1,f2) == 0 ? 0 : f1*f2/OR(f1,f2), w2c(OR(f1,f2)*c1*c2))
D(Analogy, f1*f2, f2*c1*c2)
D(Resemblance, f1*f2, OR(f1,f2)*c1*c2)
D(Union, OR(f1,f2), c1*c2)
D(Difference, f1*(1-f2), c1*c2)
D(Conversion, 1, w2c(f1*c1))
D(Negation, 1-f1, c1)
D(StructuralDeduction, f1, f1*c1*REL)
D(StructuralDeductionNegated, 1-f1, f1*c1*REL)
D(StructuralIntersection, f1, c1*REL)
D(DecomposePNN, 1-f1*(1-f2), f1*(1-f2)*c1*c2)
D(DecomposeNPP, (1-f1)*f2, (1-f1)*f2*c1*c2)
D(DecomposePNP, f1*(1-f2), f1*(1-f2)*c1*c2)
D(DecomposePPP, f1*f2, f1*f2*c1*c2)
D(DecomposeNNN, 1-(1-f1)*(1-f2), (1-f1)*(1-f2)*c1*c2)
D(AnonymousAnalogy, f1, c1*w2c(f2*c2))
D(GoalDeduction, f1*f2*c1*c2 >= (1-f1)*f2*c1*c2 ? f1*f2 : 1-(1-f1)*f2, fmax(f1*f2*c1*c2, (1-f1)*f2*c1*c2))
D(FrequencyGreater, f1 > f2, f1 > f2 ? c1*c2 : 0)
D(FrequencyEqual, f1 == f2, f1 == f2 ? c1*c2 : 0)
static const struct { const char *n; Truth (*impl)(Truth, Truth); T (*def)(double, double, double, double); } FN[] = {
#define X(n) { #n, Truth_##n, d_##n }
    X(Deduction), X(Abduction), X(Induction), X(Intersection), X(Exemplification), X(Comparison), X(Analogy), X(Resemblance), X(Union), X(Difference),
    X(Conversion), X(Negation), X(StructuralDeduction), X(StructuralDeductionNegated), X(StructuralIntersection), X(DecomposePNN), X(DecomposeNPP), X(DecomposePNP),
    X(DecomposePPP), X(DecomposeNNN), X(AnonymousAnalogy), X(GoalDeduction), X(FrequencyGreater), X(FrequencyEqual) };
static bool near(double a, double b) { return fabs(a-b) <= 1e-9; }
#define SHOW "%s <%.9g %.9g> <%.9g %.9g> horizon %g"
int vf_main(void)
{
    static double FS[64], CS[64]; int nf = 0, nc = 0;
    int steps = vf_thorough ? 40 : 20;
    for(int i=0; i<=steps; i++) FS[nf++] = (double) i / steps;
    FS[nf++] = 1e-6; FS[nf++] = 1 - 1e-6; FS[nf++] = 1.0/3;
    for(int i=1; i<steps; i++) CS[nc++] = (double) i / steps;
    CS[nc++] = MIN_CONFIDENCE; CS[nc++] = MAX_CONFIDENCE; CS[nc++] = 1e-6; CS[nc++] = 0.985; CS[nc++] = 2.0/3;
    double HS[] = { TRUTH_EVIDENTIAL_HORIZON_INITIAL, 0.5, 2.0, 5.0 };
    for(int h=0; h<4; h++) for(int a=0; a<nf; a++) for(int b=0; b<nc; b++)
    {
        if(!vf_case()) continue;
        TRUTH_EVIDENTIAL_HORIZON = K = HS[h];
        Truth v1 = { FS[a], CS[b] };
        vf_desc("w2c/c2w/expectation/eternalize <%g %g> horizon %g", v1.frequency, v1.confidence, K);
        double w = Truth_c2w(v1.confidence);
        VF_CHECK(near(w/(1+w), K*v1.confidence/(1-v1.confidence)/(1+w)), "evidence weight %g", w);
        VF_CHECK(near(Truth_w2c(w), v1.confidence), "confidence of %g units of evidence is %g", w, Truth_w2c(w));
        VF_CHECK(near(Truth_Expectation(v1), v1.confidence*(v1.frequency-0.5)+0.5), "expectation %g", Truth_Expectation(v1));
        Truth e = Truth_Eternalize(v1);
        VF_CHECK(e.frequency == v1.frequency && near(e.confidence, v1.confidence/(v1.confidence+K)), "eternalized to %g %g", e.frequency, e.confidence);
        for(int c=0; c<nf; c++) for(int d=0; d<nc; d++)
        {
            Truth v2 = { FS[c], CS[d] };
            for(unsigned k=0; k<sizeof FN/sizeof *FN; k++)
            {
                Truth r = FN[k].impl(v1, v2); T x = FN[k].def(v1.frequency, v1.confidence, v2.frequency, v2.confidence);
                vf_stats.transitions++;
                if(!(near(r.frequency, x.f) && near(r.confidence, x.c) && r.frequency >= 0 && r.frequency <= 1 && r.confidence >= 0 && r.confidence < 1))
                {
                    /* the two branches of goal deduction meet where both have the same confidence: either is by the definition */
                    if(!strcmp(FN[k].n, "GoalDeduction") && near(r.confidence, x.c) && near(v1.frequency, 1-v1.frequency)) continue;
                    vf_desc(SHOW, FN[k].n, v1.frequency, v1.confidence, v2.frequency, v2.confidence, K);
                    vf_fail("%s gives <%.12g %.12g>, the definition <%.12g %.12g>", FN[k].n, r.frequency, r.confidence, x.f, x.c);
                }
                if(r.confidence > 0 && r.frequency > 0 && r.frequency < 1) vf_stats.nontrivial++;
            }
            Truth r = Truth_Revision(v1, v2), q = Truth_Revision(v2, v1);
            vf_stats.transitions++;
            double w1 = K*v1.confidence/(1-v1.confidence), w2 = K*v2.confidence/(1-v2.confidence), ww = w1+w2;
            double xf = (w1*v1.frequency + w2*v2.frequency)/ww, xc = fmin(MAX_CONFIDENCE, ww/(ww+K)), mx = fmax(v1.confidence, v2.confidence);
            if(!(near(r.frequency, xf) && near(r.confidence, xc) && near(q.frequency, r.frequency) && near(q.confidence, r.confidence) && r.frequency >= 0 && r.frequency <= 1 && r.confidence >= mx && r.confidence <= MAX_CONFIDENCE))
            {
                vf_desc(SHOW, "Revision", v1.frequency, v1.confidence, v2.frequency, v2.confidence, K);
                vf_fail("revision gives <%.15g %.15g> and swapped <%.15g %.15g>, the definition <%.12g %.12g>", r.frequency, r.confidence, q.frequency, q.confidence, xf, xc);
            }
            bool eq = v1.frequency == v2.frequency && v1.confidence == v2.confidence;
            Truth t1 = v1, t2 = v2;
            VF_CHECK(Truth_Equal(&t1, &t2) == eq, "<%g %g> and <%g %g> compare %s", v1.frequency, v1.confidence, v2.frequency, v2.confidence, eq ? "different" : "equal");
        }
        if(vf_stats.run % 300 == 1) { Truth x = Truth_Revision(v1, (Truth){0.25,0.5}); vf_sample("<%g %g> horizon %g: all %d functions x %d second premises; revision with <0.25 0.5> = <%g %g>", v1.frequency, v1.confidence, K, (int)(sizeof FN/sizeof *FN)+1, nf*nc, x.frequency, x.confidence); }
        vf_stats.states++;
    }
    /* projection: both directions, all distances of the window and beyond, several decays */
    double DS[] = { TRUTH_PROJECTION_DECAY_INITIAL, 0.5, 0.99, 1.0 }; long OT[] = { 0, 1, 7, 1000, 100000 };
    for(int k=0; k<4; k++) for(int o=0; o<5; o++) for(long d=-60; d<=60; d++)
    {
        if(!vf_case()) continue;
        TRUTH_PROJECTION_DECAY = DS[k];
        if(OT[o]+d < 0) continue;
        double m = 1; for(long i=0; i<labs(d); i++) m *= DS[k];
        for(int a=0; a<nf; a++) for(int b=0; b<nc; b++)
        {
            Truth v = { FS[a], CS[b] }, r = Truth_Projection(v, OT[o], OT[o]+d), e = Truth_Projection(v, OCCURRENCE_ETERNAL, OT[o]+d);
            vf_desc("projection of <%g %g> from %ld to %ld, decay %g", v.frequency, v.confidence, OT[o], OT[o]+d, DS[k]);
            VF_CHECK(r.frequency == v.frequency && near(r.confidence, v.confidence*m), "projected to <%.12g %.12g>, expected <%.12g %.12g>", r.frequency, r.confidence, v.frequency, v.confidence*m);
            VF_CHECK(e.frequency == v.frequency && e.confidence == v.confidence, "eternal truth changed by projection to <%g %g>", e.frequency, e.confidence);
            vf_stats.transitions++;
        }
        vf_stats.states++; vf_stats.nontrivial++;
    }
    vf_stats.validated = vf_stats.transitions;
    return 0;
}
