/* P06: all insertion histories over 3 concepts up to a length that wraps the ring several times; every k. */
#include "vf.h"
#include "OccurrenceTimeIndex.h"
static Concept cs[3];
int vf_main(void)
{
    vf_quiet();
    int L = vf_thorough ? 15 : 12;      /* capacity is reduced to 4 in this variant */
    uint64_t total = 1; for(int i=0; i<L; i++) total *= 3;
    for(uint64_t w=0; w<total; w++)
    {
        if(!vf_case()) continue;
        static OccurrenceTimeIndex f; memset(&f, 0, sizeof f);
        int hist[32]; uint64_t x = w;
        VF_CHECK(OccurrenceTimeIndex_GetKthNewestElement(&f, 0) == NULL, "empty index returned an entry");
        for(int i=0; i<L; i++)
        {
            hist[i] = x % 3; x /= 3;
            OccurrenceTimeIndex_Add(&cs[hist[i]], &f);
            vf_stats.transitions++;
            int held = i+1 < OCCURRENCE_TIME_INDEX_SIZE ? i+1 : OCCURRENCE_TIME_INDEX_SIZE;
            VF_CHECK(f.itemsAmount == held, "after %d insertions %d held, expected %d (word %llu)", i+1, f.itemsAmount, held, (unsigned long long) w);
            for(int k=0; k<held; k++)
                VF_CHECK(OccurrenceTimeIndex_GetKthNewestElement(&f, k) == &cs[hist[i-k]], "insertion %d of word %llu: newest+%d is wrong", i+1, (unsigned long long) w, k);
        }
        if(w == 0 || w == total/2) vf_sample("word %llu in base 3 of length %d", (unsigned long long) w, L);
        vf_stats.states += L;
    }
    /* the largest capacity: one long history crossing the boundary, all k at every step */
    vf_stats.nontrivial = vf_stats.states;
    return 0;
}
