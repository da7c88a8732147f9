/* Replays schedules.  Usage: sched SCRIPT OUT
   A script line is one scenario, run in a process of its own (or several, see P):
     <fine 0|1> <input> <selection or - > <tracking file or -> <event>...
   Events:  B:t:fn  thread t runs function fn, up to the first suspension point or its end
            S:t     thread t goes on, to its next suspension point or its end
            X:t     thread t ends
            P:n     from here on the events are carried out in process n (a child forked at its first event)
            K       the process ends at once, whatever its threads are doing
            F:n:r   n threads run functions 0..r-1 at the same time, without any suspension
   Suspension points: every getenv of a DREDD_ variable; if fine, also every strtok, and every opening of the
   tracking file once it is open.
   An answer line:  per B event "<index>:<digest>" or "<index>:-" when the run did not finish           */
#define _GNU_SOURCE
#include "rt.h"
#include <dlfcn.h>
#include <pthread.h>
#include <signal.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <sys/mman.h>
#include <sys/wait.h>
#include <time.h>
#include <unistd.h>

extern void rt_run(int fn, int variant, int in);
extern char **environ;
sigjmp_buf rt_jmp;
enum { NONE, IDLE, RUN, STALL };
#define MAXT 8
#define MAXE 256
struct worker { pthread_t th; int state, go, quit, fn, ev; } W[MAXT];
static pthread_mutex_t mu = PTHREAD_MUTEX_INITIALIZER;
static pthread_cond_t cv = PTHREAD_COND_INITIALIZER;
static __thread struct worker *me;
static int fine, input;
static struct { unsigned long digest; int done; } *ans;

static void stall(void) {
  if (!me) return;
  pthread_mutex_lock(&mu);
  me->state = STALL; me->go = 0;
  pthread_cond_broadcast(&cv);
  while (!me->go) pthread_cond_wait(&cv, &mu);
  me->state = RUN;
  pthread_mutex_unlock(&mu);
}
char *getenv(const char *n) {
  size_t l = strlen(n);
  if (!strncmp(n, "DREDD_", 6)) stall();
  for (char **e = environ; *e; e++) if (!strncmp(*e, n, l) && (*e)[l] == '=') return *e + l + 1;
  return 0;
}
char *strtok(char *s, const char *d) {
  static char *(*real)(char *, const char *);
  if (!real) real = (char *(*)(char *, const char *))dlsym(RTLD_NEXT, "strtok");
  if (fine) stall();
  return real(s, d);
}
static void opened(const char *n) {
  if (!fine || !me) return;
  for (char **e = environ; *e; e++)
    if (!strncmp(*e, "DREDD_MUTANT_TRACKING_FILE=", 27) && !strcmp(*e + 27, n)) stall();
}
FILE *fopen(const char *n, const char *m) {
  static FILE *(*real)(const char *, const char *);
  if (!real) real = (FILE * (*)(const char *, const char *))dlsym(RTLD_NEXT, "fopen");
  FILE *f = real(n, m);
  opened(n);
  return f;
}
FILE *fopen64(const char *n, const char *m) { return fopen(n, m); }

static int nfree, rfree;
static volatile int barrier;
static unsigned long *sums;
static void *freely(void *p) {
  long k = (long)p;
  unsigned long x = 0;
  __atomic_add_fetch(&barrier, 1, __ATOMIC_SEQ_CST);
  for (int f = 0; f < rfree; f++) {
    while (__atomic_load_n(&barrier, __ATOMIC_SEQ_CST) < nfree * (f + 1)) ;   /* in step, so that first visits collide */
    rt_reset(input);
    rt_run(f, 0, input);
    x = x * 1099511628211ul + rt_finish();
    __atomic_add_fetch(&barrier, 1, __ATOMIC_SEQ_CST);
  }
  sums[k] = x;
  return 0;
}
static void *work(void *p) {
  struct worker *w = p;
  pthread_mutex_lock(&mu);
  me = w;
  for (;;) {
    while (!w->go && !w->quit) pthread_cond_wait(&cv, &mu);
    if (w->quit) break;
    w->go = 0; w->state = RUN;
    pthread_mutex_unlock(&mu);
    rt_reset(input);
    rt_run(w->fn, 0, input);
    unsigned long h = rt_finish();
    pthread_mutex_lock(&mu);
    ans[w->ev].digest = h; ans[w->ev].done = 1;
    w->state = IDLE;
    pthread_cond_broadcast(&cv);
  }
  w->state = NONE;
  pthread_cond_broadcast(&cv);
  pthread_mutex_unlock(&mu);
  return 0;
}
/* wait until w is idle or suspended; a thread that waits for another one is left waiting */
static void settle(struct worker *w, long ms) {
  struct timespec ts;
  clock_gettime(CLOCK_REALTIME, &ts);
  ts.tv_nsec += ms % 1000 * 1000000; ts.tv_sec += ms / 1000 + ts.tv_nsec / 1000000000; ts.tv_nsec %= 1000000000;
  while (w->go || w->state == RUN)
    if (pthread_cond_timedwait(&cv, &mu, &ts)) break;
}
static void event(const char *e, int ev) {
  int t = 0, fn = 0;
  sscanf(e + 1, ":%d:%d", &t, &fn);
  if (*e == 'F') {   /* the answer is the digest of the first thread, provided that all threads agree */
    pthread_t th[64];
    unsigned long s[64];
    nfree = t; rfree = fn; sums = s;
    for (long i = 0; i < t; i++) pthread_create(&th[i], 0, freely, (void *)i);
    for (long i = 0; i < t; i++) pthread_join(th[i], 0);
    ans[ev].done = 1; ans[ev].digest = s[0];
    for (long i = 1; i < t; i++) if (s[i] != s[0]) ans[ev].done = 2;
    return;
  }
  struct worker *w = &W[t];
  pthread_mutex_lock(&mu);
  if (*e == 'B') {
    /* still busy (it has more suspension points than the model, or waits for another thread): let everything go on */
    for (int r = 0; r < 100 && w->state != IDLE && w->state != NONE; r++)
      for (int i = 0; i < MAXT; i++)
        if (w->state == STALL ? &W[i] == w : W[i].state == STALL) { W[i].go = 1; pthread_cond_broadcast(&cv); settle(&W[i], 100); }
    w->fn = fn; w->ev = ev; w->quit = 0; w->go = 1;
    if (w->state == NONE) { w->state = IDLE; pthread_create(&w->th, 0, work, w); }
    pthread_cond_broadcast(&cv);
    settle(w, 300);
  } else if (*e == 'S') {
    if (w->state == STALL) { w->go = 1; pthread_cond_broadcast(&cv); settle(w, 300); }
  } else if (*e == 'X') {
    if (w->state == IDLE) {
      w->quit = 1; pthread_cond_broadcast(&cv);
      pthread_mutex_unlock(&mu);
      pthread_join(w->th, 0);
      return;
    }
  }
  pthread_mutex_unlock(&mu);
}
static void finish(void) {
  pthread_mutex_lock(&mu);
  for (int r = 0; r < 400; r++) {
    int busy = 0;
    for (int i = 0; i < MAXT; i++) {
      if (W[i].state == STALL) { W[i].go = 1; pthread_cond_broadcast(&cv); }
      if (W[i].state == STALL || W[i].state == RUN || W[i].go) { busy = 1; settle(&W[i], 20); }
    }
    if (!busy) break;
  }
  pthread_mutex_unlock(&mu);
}

/* one process of a scenario; commands arrive on fd 3 of the pipe, acknowledgements go back */
static void serve(int in, int out) {
  char b[32];
  for (;;) {
    if (read(in, b, sizeof b) != sizeof b) _exit(0);
    if (b[0] == 'Q') { finish(); if (write(out, b, 1) != 1) _exit(1); _exit(0); }
    if (b[0] == 'K') raise(SIGKILL);
    event(b + 4, (unsigned char)b[1]);
    if (write(out, b, 1) != 1) _exit(1);
  }
}

int main(int argc, char **argv) {
  if (argc < 3) return 2;
  FILE *j = fopen(argv[1], "r"), *o = fopen(argv[2], "w");
  ans = mmap(0, sizeof *ans * MAXE, PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0);
  static char line[1 << 17];
  signal(SIGPIPE, SIG_IGN);
  while (fgets(line, sizeof line, j)) {
    memset(ans, 0, sizeof *ans * MAXE);
    fine = atoi(strtok(line, " \n"));
    input = atoi(strtok(0, " \n"));
    char *sel = strtok(0, " \n"), *trk = strtok(0, " \n");
    if (strcmp(sel, "-")) setenv("DREDD_ENABLED_MUTATION", strcmp(sel, "%") ? sel : "", 1); else unsetenv("DREDD_ENABLED_MUTATION");
    if (strcmp(trk, "-")) setenv("DREDD_MUTANT_TRACKING_FILE", trk, 1); else unsetenv("DREDD_MUTANT_TRACKING_FILE");
    struct { pid_t pid; int to, from; } pr[4];
    memset(pr, 0, sizeof pr);
    int cur = 0, n = 0;
    for (char *e; (e = strtok(0, " \n")); n++) {
      char b[32];
      memset(b, 0, sizeof b);
      if (*e == 'P') { cur = e[2] - '0'; continue; }
      if (!pr[cur].pid) {
        int a[2], c[2];
        if (pipe(a) || pipe(c)) return 3;
        fflush(o);
        if (!(pr[cur].pid = fork())) {
          for (int k = 0; k < 4; k++) if (pr[k].to) { close(pr[k].to); close(pr[k].from); }
          close(a[1]); close(c[0]); fclose(j);
          alarm(20);
          serve(a[0], c[1]);
        }
        close(a[0]); close(c[1]);
        pr[cur].to = a[1]; pr[cur].from = c[0];
      }
      b[0] = *e == 'K' ? 'K' : 'E'; b[1] = (char)n;
      strncpy(b + 4, e, sizeof b - 5);
      if (write(pr[cur].to, b, sizeof b) != sizeof b || read(pr[cur].from, b, 1) != 1) {
        close(pr[cur].to); close(pr[cur].from);
        waitpid(pr[cur].pid, 0, 0);
        pr[cur].pid = 0; pr[cur].to = pr[cur].from = 0;
      }
    }
    int bad = 0;
    for (int k = 0; k < 4; k++) if (pr[k].pid) {
      char b[32];
      memset(b, 0, sizeof b);
      b[0] = 'Q';
      if (write(pr[k].to, b, sizeof b) != sizeof b || read(pr[k].from, b, 1) != 1) bad = 1;
      close(pr[k].to); close(pr[k].from);
      int st;
      waitpid(pr[k].pid, &st, 0);
      if (!WIFEXITED(st) || WEXITSTATUS(st)) bad = 1;
    }
    fprintf(o, "%d", bad);
    for (int k = 0; k < n && k < MAXE; k++) fprintf(o, " %d:%lx", ans[k].done, ans[k].digest);
    fprintf(o, "\n");
    fflush(o);
  }
  fclose(o);
  return 0;
}
