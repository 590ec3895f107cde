/* Runtime shared by all explicit-state harnesses. Everything the explorer keeps lives outside libnar's
 * data segment (heap/mmap/own executable), so that libnar's complete mutable state can be snapshotted
 * and restored at any point (vf_snap/vf_restore). */
#ifndef VF_H
#define VF_H
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <stdint.h>
#include <stdbool.h>
#include <setjmp.h>
#include <stdarg.h>
#ifdef __cplusplus
extern "C" {
#endif
typedef struct {
    uint64_t cases;        /* enumerated by this process over the whole space */
    uint64_t run;          /* executed in this shard */
    uint64_t states, transitions, validated, nontrivial;
} vf_stats_t;
extern vf_stats_t vf_stats;
extern int vf_thorough;              /* tier */
extern int vf_shard, vf_nshards;
/* enumeration: true if the next case belongs to this shard (or is the one being replayed) */
bool vf_case(void);
/* textual description of the case/path being executed (for replay files); cheap, kept in shared memory */
void vf_desc(const char *fmt, ...) __attribute__((format(printf,1,2)));
const char *vf_getdesc(void);
/* report a violation of the property for the current case; never returns */
void vf_fail(const char *fmt, ...) __attribute__((format(printf,1,2),noreturn));
#define VF_CHECK(c, ...) do { if(!(c)) vf_fail(__VA_ARGS__); } while(0)
/* known findings: returns true if `key` is listed for this property (then counted as known, not failing) */
bool vf_known(const char *key);
/* distinct outcomes / states: returns true if the hash was new */
bool vf_seen(uint64_t h);
uint64_t vf_hash(const void *p, size_t n, uint64_t seed);
/* log a sample case for the evidence */
void vf_sample(const char *fmt, ...) __attribute__((format(printf,1,2)));
/* extra key/value counters for the evidence (summed over the shards) */
void vf_count(const char *key, uint64_t n);
/* guarded execution: exit() called by the code under test, e.g. by a failed internal check, returns here */
extern jmp_buf vf_jmp;
extern volatile int vf_guarded;
extern volatile int vf_exit_code;
#define VF_GUARD_BEGIN() (vf_guarded=1, setjmp(vf_jmp)==0)
#define VF_GUARD_END() (vf_guarded=0)
/* snapshots of libnar's whole data segment */
size_t vf_snap_size(void);
void *vf_snap_new(void);             /* allocates and takes a snapshot */
void vf_snap(void *buf);
void vf_restore(const void *buf);
/* output capture: everything the code under test prints */
void vf_cap_begin(void);             /* empties the capture buffer */
const char *vf_cap(void);            /* text captured since */
void vf_quiet(void);                 /* discard output */
uint64_t vf_ticks(void);
/* replay path support for depth-first exploration of operation sequences */
extern int vf_replay_len;            /* -1: exploring; otherwise number of given choices */
extern int vf_replay_path[4096];
/* real stdout for harness messages */
extern FILE *vf_out;
int vf_main(void);                   /* implemented by the harness */
#ifdef __cplusplus
}
#endif
#endif
