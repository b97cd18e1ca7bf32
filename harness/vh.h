/* Shared support for the harnesses: seeded randomness, violation / statistics recording. */
#ifndef VH_H
#define VH_H
#include <stdint.h>
#include <stddef.h>
#include <stdbool.h>
#ifdef __cplusplus
extern "C" {
#endif
typedef struct { uint64_t s[2]; } vh_rng;
extern uint64_t vh_seed;
extern long vh_cases;
extern const char* vh_mode;
extern const char* vh_dir;      /* scratch directory owned by the runner */
extern int vh_thorough;
void vh_init(int argc, char** argv);
void vh_rng_seed(vh_rng* r, uint64_t seed);
uint64_t vh_next(vh_rng* r);
static inline uint64_t vh_below(vh_rng* r, uint64_t n) { return n ? vh_next(r) % n : 0; }
static inline int vh_chance(vh_rng* r, int pct) { return (int)(vh_next(r) % 100) < pct; }
uint64_t vh_hash(const void* p, size_t n, uint64_t h);
/* An oracle said no. sig is a short stable signature; the text explains this instance. */
void vh_viol(const char* sig, const char* fmt, ...) __attribute__((format(printf, 2, 3)));
void vh_known(const char* id, const char* fmt, ...) __attribute__((format(printf, 2, 3)));
long vh_viol_count(void);
void vh_count(const char* name, long n);       /* named counter, summed over jobs */
void vh_evals(long n);                         /* evaluated cases */
bool vh_distinct(uint64_t h);                  /* record one distinct non-trivial case */
void vh_sample(const char* fmt, ...) __attribute__((format(printf, 1, 2)));
void vh_note(const char* fmt, ...) __attribute__((format(printf, 1, 2)));  /* progress, for replay files */
int vh_finish(void);                           /* writes the summary; returns process exit code */
uint64_t vh_now_us(void);
void vh_usleep(long us);
void vh_high_fds(vh_rng* r);   /* half of the time, occupies the descriptors below 1100 */
void vh_yield_noise(vh_rng* r);                /* random schedule perturbation */
#ifdef __cplusplus
}
#endif
#endif
