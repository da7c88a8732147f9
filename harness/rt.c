#include "rt.h"
#include <setjmp.h>
#include <signal.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <limits.h>

#define P6(a) {a, -3}, {a, -1}, {a, 0}, {a, 1}, {a, 2}, {a, 5}
const long rt_ints[RT_INPUTS][2] = {P6(-3), P6(-1), P6(0), P6(1), P6(2), P6(5),
  {7, 100}, {100, 7}, {INT_MAX, 1}, {INT_MIN, -1}, {INT_MAX, INT_MAX}, {4, 4}, {64, 3}, {-8, 2}};
#define F6(a) {a, -2.5}, {a, -1}, {a, 0}, {a, 0.5}, {a, 1}, {a, 6}
const double rt_flts[RT_INPUTS][2] = {F6(-2.5), F6(-1), F6(0), F6(0.5), F6(1), F6(6),
  {7, 100.25}, {1e9, 7}, {1e300, 1e300}, {-0.0, 1}, {3, 3}, {0.1, 0.2}, {64, 3}, {-8, 2}};

int g0; long g1; unsigned g2; double gd; _Bool gb; char gc; volatile int gv; int arr[8];
struct S { int m; unsigned bf : 5; } st;
static int pointee; int *p0 = &pointee;
__thread long rt_fuel; int rt_verbose;
static unsigned char sites_[2 * RT_SITES]; unsigned char *rt_reached = sites_; int rt_die;
__thread int rt_npend, rt_pend[RT_SITES];
extern sigjmp_buf rt_jmp;
static __thread unsigned long h;
static void mix(unsigned long v) { for (int i = 0; i < 8; i++) { h = (h ^ (v & 255)) * 1099511628211ul; v >>= 8; } }
void rt_int(long v) { if (rt_verbose) fprintf(stderr, " %ld", v); mix(1); mix((unsigned long)v); }
void rt_flt(long double x) {
  double d = (double)x; unsigned long u;
  if (rt_verbose) fprintf(stderr, " %g", d);
  if (d != d) { mix(3); return; }
  memcpy(&u, &d, 8); mix(2); mix(u);
}
void rt_fuel_out(void) { siglongjmp(rt_jmp, RT_DIVERGES); }
static void ev(const char *n, long v) {
  if (--rt_fuel < -100000) abort();
  if (rt_die && --rt_die == 0) raise(SIGKILL);
  if (rt_verbose) fprintf(stderr, " %s(%ld)", n, v);
  while (*n) mix((unsigned long)*n++);
  mix((unsigned long)v);
}
void rt_reset(int in) {
  h = 14695981039346656037ul; rt_fuel = 3000; rt_npend = 0;
  g0 = 3; g1 = -4; g2 = 9; gd = (in % 3) ? 1.5 : 0.0; gb = in % 2; gc = (char)(in % 4); gv = 6;
  for (int i = 0; i < 8; i++) arr[i] = 10 + i;
  st.m = 2 - in % 5; st.bf = 7; pointee = in % 7 - 1;
}
unsigned long rt_finish(void) {
  if (rt_verbose) fprintf(stderr, " |");
  rt_int(g0); rt_int(g1); rt_int(g2); rt_flt(gd); rt_int(gb); rt_int(gc); rt_int(gv);
  for (int i = 0; i < 8; i++) rt_int(arr[i]);
  rt_int(st.m); rt_int(st.bf); rt_int(pointee);
  if (rt_verbose) fprintf(stderr, "\n");
  return h;
}
int se(int v) { ev("se", v); return v; }
_Bool seb(int v) { ev("seb", v); return v != 0; }
long sel(long v) { ev("sel", v); return v; }
unsigned seu(unsigned v) { ev("seu", v); return v; }
double sed(double v) { ev("sed", (long)(v * 4)); return v; }
char sec(char v) { ev("sec", v); return v; }
int se2(int v, long w) { ev("se2", v); ev("", w); return v - (int)w; }
void out(long v) { ev("out", v); }
