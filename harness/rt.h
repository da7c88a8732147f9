/* The environment that the specification's programs run in, and how their effects are observed. */
#ifndef RT_H
#define RT_H
#include <setjmp.h>
#ifdef __cplusplus
extern "C" {
#endif
enum { RT_INPUTS = 44 };
enum { RT_NOTRUN = 0, RT_DONE = 1, RT_UB = 2, RT_DIVERGES = 3, RT_CRASH = 4, RT_TIMEOUT = 5 };
extern const long rt_ints[RT_INPUTS][2];
extern const double rt_flts[RT_INPUTS][2];
extern __thread long rt_fuel;
void rt_fuel_out(void);
void rt_reset(int input);
void rt_int(long v);          /* observe a value */
void rt_flt(long double v);
unsigned long rt_finish(void); /* digest of everything observed, including the globals */
extern int rt_verbose;
extern unsigned char *rt_reached; /* shared with the parent; [k]: site k begun, [RT_SITES + k]: site k completed */
enum { RT_SITES = 4096 };
extern int rt_die;             /* the process ends abnormally at the rt_die-th observable event, if positive */
#ifdef __cplusplus
}
#endif
#define FUEL() ((void)(--rt_fuel < 0 ? (rt_fuel_out(), 0) : 0))
#define R(k) ((void)(rt_reached[k] = 1))
extern __thread int rt_npend, rt_pend[RT_SITES];
#define R2(k) ((void)(rt_npend < RT_SITES ? rt_pend[rt_npend++] = k : 0)) /* done, once the full expression is */
#define RC() do { while (rt_npend) rt_reached[RT_SITES + rt_pend[--rt_npend]] = 1; } while (0)
#define RT_I(T, k) ((T)rt_ints[in][k])
#define RT_F(T, k) ((T)rt_flts[in][k])
#endif
