/* Runs functions of a batch: rt_run(i, variant, input) is supplied by the generated part.

   ref  OUT              every variant of every function on every input, in this process; a trap means undefined
   mut  JOBS OUT         one process per job; a job is "<env or -> <function> <first> <mask in hex>"
   show ENV FN VAR INPUT prints the observations of one run                                            */
#define _GNU_SOURCE
#include "rt.h"
#include <signal.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <sys/mman.h>
#include <sys/time.h>
#include <sys/wait.h>
#include <unistd.h>

extern void rt_run(int fn, int variant, int in);
extern const int rt_functions;
extern const int rt_variants[];
sigjmp_buf rt_jmp;
static volatile int in_ref;

static void trap(int s) { if (in_ref) siglongjmp(rt_jmp, RT_UB); signal(s, SIG_DFL); raise(s); }

struct cell { unsigned long h; unsigned char st; } __attribute__((packed));

static void handlers(void) {
  static char stack[65536];
  stack_t ss = {.ss_sp = stack, .ss_size = sizeof stack};
  sigaltstack(&ss, 0);
  struct sigaction sa; memset(&sa, 0, sizeof sa);
  sa.sa_handler = trap; sa.sa_flags = SA_NODEFER | SA_ONSTACK;
  int sg[] = {SIGILL, SIGTRAP, SIGFPE, SIGSEGV, SIGBUS, SIGABRT};
  for (unsigned i = 0; i < sizeof sg / sizeof *sg; i++) sigaction(sg[i], &sa, 0);
}

static struct cell one(int f, int v, int in) {
  struct cell c = {0, RT_DONE};
  int r = sigsetjmp(rt_jmp, 0);
  if (r) { in_ref = 0; c.st = (unsigned char)r; return c; }
  rt_reset(in);
  in_ref = 1;
  rt_run(f, v, in);
  in_ref = 0;
  c.h = rt_finish();
  return c;
}

int main(int argc, char **argv) {
  if (argc < 2) return 2;
  if (!strcmp(argv[1], "ref")) {
    handlers();
    FILE *o = fopen(argv[2], "wb");
    for (int f = 0; f < rt_functions; f++)
      for (int v = 0; v < rt_variants[f]; v++)
        for (int in = 0; in < RT_INPUTS; in++) { struct cell c = one(f, v, in); fwrite(&c, sizeof c, 1, o); }
    fclose(o);
    return 0;
  }
  if (!strcmp(argv[1], "reach")) {  /* reach OUT DEATHS: which sites does variant 0 of each function reach on each input,
                                       in full and when it is killed at its first, second, ... event? */
    FILE *o = fopen(argv[2], "w");
    int deaths = argc > 3 ? atoi(argv[3]) : 0;
    struct cell *m = mmap(0, sizeof(struct cell), PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0);
    rt_reached = mmap(0, 2 * RT_SITES, PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0);
    for (int f = 0; f < rt_functions; f++)
      for (int in = 0; in < RT_INPUTS; in++)
        for (int d = 0; d <= deaths; d++) {  /* a process each: static variables are initialised once */
          m->st = RT_CRASH;
          memset(rt_reached, 0, 2 * RT_SITES);
          fflush(o);
          pid_t p = fork();
          if (p == 0) {
            handlers();
            rt_die = d;
            *m = one(f, 0, in);
            _exit(0);
          }
          int stt;
          waitpid(p, &stt, 0);
          if (d && m->st != RT_CRASH) break;  /* fewer events than that */
          fprintf(o, "%d %d %d %d", f, in, d, m->st);
          for (int k = 0; k < 2 * RT_SITES; k++) if (rt_reached[k]) fprintf(o, " %d", k);
          fprintf(o, "\n");
          if (m->st != RT_DONE && !d) break;
        }
    fclose(o);
    return 0;
  }
  if (!strcmp(argv[1], "show")) {
    handlers();
    if (strcmp(argv[2], "-")) setenv("DREDD_ENABLED_MUTATION", argv[2], 1); else unsetenv("DREDD_ENABLED_MUTATION");
    rt_verbose = 1;
    struct cell c = one(atoi(argv[3]), atoi(argv[4]), atoi(argv[5]));
    fprintf(stderr, "status %d digest %lx\n", c.st, c.h);
    return 0;
  }
  if (!strcmp(argv[1], "track")) {  /* track JOBS OUT FILE: a job is "<function> <mask of inputs> <repeat> <death>" */
    FILE *j = fopen(argv[2], "r"), *o = fopen(argv[3], "w");
    struct cell *m = mmap(0, sizeof(struct cell), PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0);
    int f, rep, death;
    unsigned long mask;
    setenv("DREDD_MUTANT_TRACKING_FILE", argv[4], 1);
    unsetenv("DREDD_ENABLED_MUTATION");
    while (fscanf(j, "%d %lx %d %d", &f, &mask, &rep, &death) == 4) {
      unlink(argv[4]);
      m->st = RT_CRASH; m->h = 0;
      pid_t p = fork();
      if (p == 0) {
        struct itimerval t = {{0, 0}, {5, 0}};
        setitimer(ITIMER_PROF, &t, 0);
        rt_die = death;
        for (int k = 0; k < rep; k++)
          for (int in = 0; in < RT_INPUTS; in++)
            if (mask >> in & 1) { rt_reset(in); rt_run(f, 0, in); m->h = rt_finish(); }
        m->st = RT_DONE;
        _exit(0);
      }
      int stt = 0, id;
      waitpid(p, &stt, 0);
      fprintf(o, "%d %lx %d %lx", f, mask, m->st, m->h);
      FILE *t = fopen(argv[4], "r");
      if (t) { while (fscanf(t, "%d", &id) == 1) fprintf(o, " %d", id); fprintf(o, feof(t) ? "" : " -1"); fclose(t); }
      fprintf(o, "\n");
    }
    unlink(argv[4]);
    fclose(o);
    return 0;
  }
  if (!strcmp(argv[1], "mut")) {
    FILE *j = fopen(argv[2], "r"), *o = fopen(argv[3], "wb");
    struct cell *m = mmap(0, sizeof(struct cell) * RT_INPUTS, PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0);
    static char env[1 << 16];
    int f, sec;
    unsigned long mask;
    while (fscanf(j, "%65535s %d %d %lx", env, &f, &sec, &mask) == 4) {
      memset(m, 0, sizeof(struct cell) * RT_INPUTS);
      pid_t p = fork();
      if (p == 0) {
        if (!strcmp(env, "-")) unsetenv("DREDD_ENABLED_MUTATION");
        else if (!strcmp(env, "%")) setenv("DREDD_ENABLED_MUTATION", "", 1);
        else setenv("DREDD_ENABLED_MUTATION", env, 1);
        struct itimerval t = {{0, 0}, {sec, 0}};
        setitimer(ITIMER_PROF, &t, 0);
        for (int in = 0; in < RT_INPUTS; in++)
          if (mask >> in & 1) {
            m[in].st = RT_CRASH;
            rt_reset(in);
            rt_run(f, 0, in);
            m[in].h = rt_finish();
            m[in].st = RT_DONE;
          }
        _exit(0);
      }
      int stt = 0;
      waitpid(p, &stt, 0);
      if (WIFSIGNALED(stt) && WTERMSIG(stt) == SIGPROF)
        for (int in = 0; in < RT_INPUTS; in++) if (m[in].st == RT_CRASH) m[in].st = RT_TIMEOUT;
      fwrite(m, sizeof(struct cell), RT_INPUTS, o);
    }
    fclose(o);
    return 0;
  }
  return 2;
}
