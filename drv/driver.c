/*
 * Scriptable workload driver for the COCO C core.
 *
 *   driver SCRIPT EVENTS
 *
 * Reads commands (one per line, fields separated by tabs) from SCRIPT and appends one event
 * line per command to EVENTS (flushed per line), so that an offline checker knows exactly
 * which calls were made and what they returned, even when the process dies half-way.
 * Only the public API (coco.h) is used, plus two exported functions that the project's
 * bindings rely on themselves (coco_get_bbob_problem, coco_problem_get_best_value).
 * Numbers are exchanged as C99 hexadecimal floats: exact.
 */
#define _GNU_SOURCE
#include <errno.h>
#include <math.h>
#include <pthread.h>
#include <signal.h>
#include <stdint.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <sys/stat.h>
#include <unistd.h>

#include "coco.h"

coco_problem_t *coco_get_bbob_problem(const size_t function, const size_t dimension, const size_t instance);
double coco_problem_get_best_value(const coco_problem_t *problem);

#define NS 64
#define NP 4096
#define MAXDIM 2048

static FILE *ev;
static coco_suite_t *suites[NS];
static coco_observer_t *observers[NS];
static coco_problem_t *problems[NP];
static char owned[NP]; /* the suite iteration owns (and frees) the problem */
static coco_archive_t *archives[NS];
static coco_random_state_t *rngs[NS];

/* numbers handed out must be initialised: the branch makes MemorySanitizer look at them */
static unsigned long LU(size_t v) {
  if (v == 0x5a5a5a5a5a5a5a5aul)
    return 0x5a5a5a5a5a5a5a5bul;
  return (unsigned long)v;
}

static int IN(int v) {
  if (v == 0x5a5a5a5a)
    return 0x5a5a5a5b;
  return v;
}

static void put_double(double v) {
  if (isnan(v))
    fprintf(ev, "\tnan");
  else if (isinf(v))
    fprintf(ev, v > 0 ? "\tinf" : "\t-inf");
  else
    fprintf(ev, "\t%a", v);
}

/* ---- the driver's own generator: never shares state with the library ---- */
static uint64_t sm;
static uint64_t nxt(void) {
  uint64_t z = (sm += 0x9E3779B97F4A7C15ull);
  z = (z ^ (z >> 30)) * 0xBF58476D1CE4E5B9ull;
  z = (z ^ (z >> 27)) * 0x94D049BB133111EBull;
  return z ^ (z >> 31);
}
static double u01(void) { return (double)(nxt() >> 11) * (1.0 / 9007199254740992.0); }
static double gauss(void) {
  double a = u01(), b = u01();
  if (a < 1e-300)
    a = 1e-300;
  return sqrt(-2 * log(a)) * cos(2 * 3.14159265358979323846 * b);
}

/* Deterministic point families. best may be NULL. */
static void gen_point(int mode, const double *lo, const double *up, const double *best, size_t d, double *x) {
  size_t i;
  double s;
  for (i = 0; i < d; i++) {
    double l = lo ? lo[i] : -5, u = up ? up[i] : 5;
    switch (mode) {
    case 0: /* uniform in the region of interest */
      x[i] = l + (u - l) * u01();
      break;
    case 1: /* uniform in a region 3 times as wide */
      x[i] = l - (u - l) + 3 * (u - l) * u01();
      break;
    case 2: /* uniform in [-5,5] */
      x[i] = -5 + 10 * u01();
      break;
    case 3: /* far outside */
      x[i] = 200 * (u01() - 0.5);
      break;
    case 4: /* small gaussian around the origin */
      x[i] = 0.1 * gauss();
      break;
    case 5: /* around the optimum, radius log-uniform */
    case 6:
    case 7:
      x[i] = 0; /* below */
      break;
    case 8: /* corners */
      x[i] = (nxt() & 1) ? l : u;
      break;
    case 9: /* coordinates on a half-integer grid */
      x[i] = floor(u01() * 21) / 2 - 5;
      break;
    case 10: /* mostly zeros */
      x[i] = (nxt() % 4) ? 0.0 : -5 + 10 * u01();
      break;
    default: /* heavy tails */
      x[i] = gauss() * pow(10, 6 * u01() - 3);
    }
  }
  if (mode >= 5 && mode <= 7) {
    s = mode == 5 ? pow(10, -9 + 10 * u01()) : 1.0;
    for (i = 0; i < d; i++)
      x[i] = best ? best[i] : 0.0;
    if (mode == 5)
      for (i = 0; i < d; i++)
        x[i] += s * gauss();
    else if (mode == 6) { /* the optimum itself */
    } else {              /* one coordinate away from the optimum */
      i = (size_t)(nxt() % d);
      x[i] += pow(10, -6 + 7 * u01()) * gauss();
    }
  }
}

/* ---- field splitting ---- */
static char *fields[MAXDIM + 16];
static int nf;
static void split(char *line) {
  size_t n = strlen(line);
  char *p;
  while (n && (line[n - 1] == '\n' || line[n - 1] == '\r'))
    line[--n] = 0;
  nf = 0;
  p = line;
  while (p && nf < MAXDIM + 16) {
    char *t = strchr(p, '\t');
    if (t)
      *t = 0;
    fields[nf++] = p;
    p = t ? t + 1 : NULL;
  }
  for (int k = 0; k < nf; k++) /* white space inside of an argument */
    for (char *q = fields[k]; *q; q++)
      *q = *q == 1 ? '\t' : *q == 2 ? '\n' : *q;
}
static const char *F(int i) { return i < nf ? fields[i] : ""; }
static long I(int i) { return strtol(F(i), NULL, 0); }
static int is_null(const char *s) { return strcmp(s, "NULL") == 0; }
static const char *S(int i) { return is_null(F(i)) ? NULL : F(i); }
static int read_x(int from, double *x) {
  int i, n = 0;
  for (i = from; i < nf; i++)
    x[n++] = strtod(F(i), NULL);
  return n;
}
/* heap copies of exactly the right size, so that the sanitizer sees an overrun by one */
static double *exact_copy(const double *x, size_t n) {
  double *r = malloc((n ? n : 1) * sizeof(double));
  memcpy(r, x, n * sizeof(double));
  return r;
}

static void put_info(coco_problem_t *p, int type) {
  size_t i, d = coco_problem_get_dimension(p), m = coco_problem_get_number_of_objectives(p);
  double *x = malloc(d * sizeof(double));
  const double *v;
  fprintf(ev, "\t%s\t%s\t%s\t%lu\t%lu\t%lu\t%lu\t%lu", coco_problem_get_id(p), coco_problem_get_name(p),
          type ? coco_problem_get_type(p) : "-", (unsigned long)d, (unsigned long)m,
          LU(coco_problem_get_number_of_constraints(p)),
          LU(coco_problem_get_number_of_integer_variables(p)),
          LU(coco_problem_get_suite_dep_index(p)));
  v = coco_problem_get_smallest_values_of_interest(p);
  for (i = 0; i < d; i++)
    put_double(v[i]);
  v = coco_problem_get_largest_values_of_interest(p);
  for (i = 0; i < d; i++)
    put_double(v[i]);
  coco_problem_get_initial_solution(p, x);
  for (i = 0; i < d; i++)
    put_double(x[i]);
  if (m == 2) {
    v = coco_problem_get_largest_fvalues_of_interest(p);
    for (i = 0; i < m; i++)
      put_double(v ? v[i] : NAN);
  }
  free(x);
}
static void put_state(coco_problem_t *p) {
  fprintf(ev, "\t%lu\t%lu\t%d\t%d", LU(coco_problem_get_evaluations(p)),
          LU(coco_problem_get_evaluations_constraints(p)), IN(coco_problem_final_target_hit(p)),
          coco_problem_is_tainted(p));
  if (coco_problem_get_number_of_objectives(p) == 1)
    put_double(coco_problem_get_best_observed_fvalue1(p));
  else
    fprintf(ev, "\t-");
}

static void do_eval(coco_problem_t *p, const double *xin, size_t nx, int what) {
  size_t i, d = coco_problem_get_dimension(p);
  size_t m = what == 'e' ? coco_problem_get_number_of_objectives(p) : coco_problem_get_number_of_constraints(p);
  double *x, *y, *before;
  if (nx != d) {
    fprintf(ev, "\tBADDIM");
    return;
  }
  x = exact_copy(xin, d);
  before = exact_copy(xin, d);
  y = malloc((m ? m : 1) * sizeof(double));
  for (i = 0; i < m; i++)
    y[i] = -12345.678; /* a recognisable "never written" value */
  if (what == 'e')
    coco_evaluate_function(p, x, y);
  else
    coco_evaluate_constraint(p, x, y);
  for (i = 0; i < m; i++)
    put_double(y[i]);
  if (memcmp(x, before, d * sizeof(double)) != 0)
    fprintf(ev, "\tX-MODIFIED");
  free(x);
  free(before);
  free(y);
}

/* ---- concurrent evaluation of distinct problems ---- */
typedef struct {
  coco_problem_t *p;
  size_t n, d, no, nc;
  double *x, *y, *g;
} job_t;
static pthread_barrier_t bar;
static void *worker(void *arg) {
  job_t *j = arg;
  size_t k;
  pthread_barrier_wait(&bar);
  for (k = 0; k < j->n; k++) {
    coco_evaluate_function(j->p, j->x + k * j->d, j->y + k * j->no);
    if (j->nc)
      coco_evaluate_constraint(j->p, j->x + k * j->d, j->g + k * j->nc);
  }
  return NULL;
}
static void finish_all(void) {
  int i;
  for (i = 0; i < NP; i++)
    if (problems[i] && !owned[i]) {
      coco_problem_free(problems[i]);
      problems[i] = NULL;
    }
  for (i = 0; i < NS; i++) {
    if (suites[i])
      coco_suite_free(suites[i]);
    suites[i] = NULL;
  }
  for (i = 0; i < NS; i++) {
    if (observers[i])
      coco_observer_free(observers[i]);
    observers[i] = NULL;
    if (archives[i])
      coco_archive_free(archives[i]);
    archives[i] = NULL;
    if (rngs[i])
      coco_random_free(rngs[i]);
    rngs[i] = NULL;
  }
}

/* commands whose first argument is a problem */
static const char *pcmds[] = {"addobs", "rmobs", "pfree", "info", "state", "eval", "cons", "evals", "conss", "rec", "best", "fopt",
                              "tainted", "sweep", "minof", "feed", NULL};

static void exec_cmd(void) {
  static double x[MAXDIM + 16];
  const char *c = F(0);
  long a = I(1), b = I(2);
  size_t n;
  coco_problem_t *p = (a >= 0 && a < NP) ? problems[a] : NULL;

  if ((!strcmp(c, "enum") || !strcmp(c, "enumidx") || !strcmp(c, "lists") || !strcmp(c, "encode") || !strcmp(c, "decode") || !strcmp(c, "suitefree")) && (a < 0 || a >= NS || !suites[a])) {
    fprintf(ev, "\tNOSUITE");
    return;
  }
  if ((!strcmp(c, "obsfree") || !strcmp(c, "restart")) && (a < 0 || a >= NS || !observers[a])) {
    fprintf(ev, "\tNOOBSERVER");
    return;
  }
  for (n = 0; pcmds[n]; n++)
    if (!strcmp(c, pcmds[n]) && !p) {
      fprintf(ev, "\tNOPROBLEM");
      return;
    }
  if (!strcmp(c, "restart") && (!observers[a] || b < 0 || !problems[b])) {
    fprintf(ev, "\tNOPROBLEM");
    return;
  }
  if ((!strcmp(c, "next") || !strcmp(c, "getp") || !strcmp(c, "getfdi")) && !suites[b]) {
    fprintf(ev, "\tNOSUITE");
    return;
  }
  if (!strcmp(c, "suite")) { /* suite S name instance options */
    suites[a] = coco_suite(S(2), S(3), S(4));
    if (suites[a])
      fprintf(ev, "\tok\t%lu", LU(coco_suite_get_number_of_problems(suites[a])));
    else
      fprintf(ev, "\tNULL");
  } else if (!strcmp(c, "suitefree")) {
    coco_suite_free(suites[a]);
    suites[a] = NULL;
    for (n = 0; n < NP; n++)
      if (owned[n] == 1 + a) {
        problems[n] = NULL;
        owned[n] = 0;
      }
  } else if (!strcmp(c, "getp")) { /* getp P S index */
    problems[a] = coco_suite_get_problem(suites[b], (size_t)strtoul(F(3), NULL, 0));
    owned[a] = 0;
    fprintf(ev, problems[a] ? "\tok" : "\tNULL");
  } else if (!strcmp(c, "getfdi")) { /* getfdi P S f d i */
    problems[a] = coco_suite_get_problem_by_function_dimension_instance(suites[b], (size_t)I(3), (size_t)I(4), (size_t)I(5));
    owned[a] = 0;
    fprintf(ev, problems[a] ? "\tok" : "\tNULL");
  } else if (!strcmp(c, "next")) { /* next P S O(-1: none) */
    long o = I(3);
    for (n = 0; n < NP; n++)
      if (owned[n] == 1 + b) {
        problems[n] = NULL;
        owned[n] = 0;
      }
    problems[a] = coco_suite_get_next_problem(suites[b], o >= 0 ? observers[o] : NULL);
    owned[a] = problems[a] ? (char)(1 + b) : 0;
    fprintf(ev, problems[a] ? "\tok" : "\tNULL");
    if (problems[a])
      fprintf(ev, "\t%s\t%lu\t%lu", coco_problem_get_id(problems[a]),
              LU(coco_problem_get_suite_dep_index(problems[a])),
              LU(coco_problem_get_dimension(problems[a])));
  } else if (!strcmp(c, "enum")) { /* enum S: full sweep with get_next_problem */
    coco_problem_t *q;
    size_t k = 0, lim = (size_t)I(2);
    while ((q = coco_suite_get_next_problem(suites[a], NULL)) != NULL) {
      fprintf(ev, "\t%s|%lu|%lu", coco_problem_get_id(q), LU(coco_problem_get_suite_dep_index(q)),
              LU(coco_problem_get_dimension(q)));
      if (++k >= lim) {
        fprintf(ev, "\tLIMIT");
        break;
      }
    }
  } else if (!strcmp(c, "enumidx")) { /* enumidx S n: problem by every index */
    size_t k, m = (size_t)I(2);
    for (k = 0; k < m; k++) {
      coco_problem_t *q = coco_suite_get_problem(suites[a], k);
      if (!q)
        fprintf(ev, "\t-");
      else {
        fprintf(ev, "\t%s|%lu|%lu", coco_problem_get_id(q), LU(coco_problem_get_suite_dep_index(q)),
                LU(coco_problem_get_dimension(q)));
        coco_problem_free(q);
      }
    }
  } else if (!strcmp(c, "lists")) { /* lists S nf nd ni */
    size_t k;
    for (k = 0; k < (size_t)I(2); k++)
      fprintf(ev, "\t%lu", LU(coco_suite_get_function_from_function_index(suites[a], k)));
    fprintf(ev, "\t|");
    for (k = 0; k < (size_t)I(3); k++)
      fprintf(ev, "\t%lu", LU(coco_suite_get_dimension_from_dimension_index(suites[a], k)));
    fprintf(ev, "\t|");
    for (k = 0; k < (size_t)I(4); k++)
      fprintf(ev, "\t%lu", LU(coco_suite_get_instance_from_instance_index(suites[a], k)));
  } else if (!strcmp(c, "encode")) {
    fprintf(ev, "\t%lu", LU(coco_suite_encode_problem_index(suites[a], (size_t)I(2), (size_t)I(3), (size_t)I(4))));
  } else if (!strcmp(c, "decode")) {
    size_t f = 777777, d = 777777, i = 777777;
    coco_suite_decode_problem_index(suites[a], (size_t)strtoul(F(2), NULL, 0), &f, &d, &i);
    fprintf(ev, "\t%lu\t%lu\t%lu", (unsigned long)f, (unsigned long)d, (unsigned long)i);
  } else if (!strcmp(c, "bare")) { /* bare P f d i */
    problems[a] = coco_get_bbob_problem((size_t)I(2), (size_t)I(3), (size_t)I(4));
    owned[a] = 0;
    fprintf(ev, problems[a] ? "\tok" : "\tNULL");
  } else if (!strcmp(c, "observer")) { /* observer O name options */
    observers[a] = coco_observer(S(2), S(3));
    if (!observers[a])
      fprintf(ev, "\tNULL");
    else {
      const char *f = coco_observer_get_result_folder(observers[a]);
      fprintf(ev, "\tok\t%s", f ? f : "NULL");
    }
  } else if (!strcmp(c, "obsfree")) {
    coco_observer_free(observers[a]);
    observers[a] = NULL;
  } else if (!strcmp(c, "addobs")) { /* addobs P O */
    problems[a] = coco_problem_add_observer(p, b >= 0 ? observers[b] : NULL);
    fprintf(ev, "\t%s", problems[a] == p ? "same" : "wrapped");
  } else if (!strcmp(c, "rmobs")) {
    problems[a] = coco_problem_remove_observer(p, observers[b]);
    fprintf(ev, "\t%s", problems[a] == p ? "same" : "unwrapped");
  } else if (!strcmp(c, "restart")) { /* restart O P */
    coco_observer_signal_restart(observers[a], problems[b]);
  } else if (!strcmp(c, "pfree")) {
    coco_problem_free(p);
    problems[a] = NULL;
    owned[a] = 0;
  } else if (!strcmp(c, "info")) {
    put_info(p, !*F(2)); /* info P [notype] */
  } else if (!strcmp(c, "state")) {
    put_state(p);
  } else if (!strcmp(c, "eval") || !strcmp(c, "cons")) {
    n = (size_t)read_x(2, x);
    do_eval(p, x, n, c[0]);
  } else if (!strcmp(c, "evals") || !strcmp(c, "conss")) { /* as eval/cons, followed by the state */
    n = (size_t)read_x(2, x);
    do_eval(p, x, n, c[0]);
    fprintf(ev, "\t|");
    put_state(p);
  } else if (!strcmp(c, "rec")) {
    double *xx;
    n = (size_t)read_x(2, x);
    xx = exact_copy(x, n);
    coco_recommend_solution(p, xx);
    free(xx);
  } else if (!strcmp(c, "best")) { /* the optimum (taints the problem) */
    size_t k, d = coco_problem_get_dimension(p);
    double *bp = malloc(d * sizeof(double));
    int r = coco_problem_get_best_parameter(p, bp);
    fprintf(ev, "\t%d", r);
    if (r)
      for (k = 0; k < d; k++)
        put_double(bp[k]);
    free(bp);
  } else if (!strcmp(c, "fopt")) {
    put_double(coco_problem_get_best_value(p));
  } else if (!strcmp(c, "tainted")) {
    fprintf(ev, "\t%d", IN(coco_problem_is_tainted(p)));
  } else if (!strcmp(c, "sweep")) {
    /* sweep P seed n modes(comma list) echo usebest: deterministic points, prints f (and g) of each */
    size_t k, m = (size_t)I(3), d = coco_problem_get_dimension(p), i;
    size_t no = coco_problem_get_number_of_objectives(p), nc = coco_problem_get_number_of_constraints(p);
    const double *lo = coco_problem_get_smallest_values_of_interest(p);
    const double *up = coco_problem_get_largest_values_of_interest(p);
    double *bp = malloc(d * sizeof(double)), *xx = malloc(d * sizeof(double));
    double *y = malloc(no * sizeof(double)), *g = malloc((nc ? nc : 1) * sizeof(double));
    int modes[32], nm = 0, echo = (int)I(5), usebest = (int)I(6), haveb = 0;
    const char *q = F(4);
    while (*q && nm < 32) {
      modes[nm++] = (int)strtol(q, (char **)&q, 10);
      if (*q == ',')
        q++;
    }
    if (usebest)
      haveb = coco_problem_get_best_parameter(p, bp);
    sm = (uint64_t)strtoull(F(2), NULL, 0) * 0x2545F4914F6CDD1Dull + 1;
    for (k = 0; k < m; k++) {
      gen_point(modes[k % (size_t)nm], lo, up, haveb ? bp : NULL, d, xx);
      if (echo)
        for (i = 0; i < d; i++)
          put_double(xx[i]);
      for (i = 0; i < no; i++)
        y[i] = -12345.678;
      coco_evaluate_function(p, xx, y);
      for (i = 0; i < no; i++)
        put_double(y[i]);
      if (nc) {
        coco_evaluate_constraint(p, xx, g);
        for (i = 0; i < nc; i++)
          put_double(g[i]);
      }
    }
    free(bp);
    free(xx);
    free(y);
    free(g);
  } else if (!strcmp(c, "minof")) {
    /* minof P seed n modes: min over generated feasible points of f - fopt, and f(xopt) - fopt, max violation at xopt */
    size_t k, m = (size_t)I(3), d = coco_problem_get_dimension(p), i, nfeas = 0;
    size_t nc = coco_problem_get_number_of_constraints(p);
    const double *lo = coco_problem_get_smallest_values_of_interest(p);
    const double *up = coco_problem_get_largest_values_of_interest(p);
    double *bp = malloc(d * sizeof(double)), *xx = malloc(d * sizeof(double)), *x0 = malloc(d * sizeof(double));
    double *xw = malloc(d * sizeof(double));
    double y, *g = malloc((nc ? nc : 1) * sizeof(double)), fopt = coco_problem_get_best_value(p), worst = INFINITY, yb, gb = -INFINITY;
    int modes[32], nm = 0;
    const char *q = F(4);
    while (*q && nm < 32) {
      modes[nm++] = (int)strtol(q, (char **)&q, 10);
      if (*q == ',')
        q++;
    }
    coco_problem_get_initial_solution(p, x0);
    if (!coco_problem_get_best_parameter(p, bp))
      fprintf(ev, "\tNOBEST");
    else {
      coco_evaluate_function(p, bp, &yb);
      if (nc) {
        coco_evaluate_constraint(p, bp, g);
        for (i = 0; i < nc; i++)
          if (g[i] > gb)
            gb = g[i];
      }
      sm = (uint64_t)strtoull(F(2), NULL, 0) * 0x2545F4914F6CDD1Dull + 7;
      memcpy(xw, bp, d * sizeof(double));
      for (k = 0; k < m; k++) {
        int mode = modes[k % (size_t)nm], feas = 1;
        if (mode == 20) { /* on the segment from the feasible initial solution to the optimum, perturbed a little */
          double t = pow(10, -8 * u01());
          double s = (nxt() & 1) ? 0 : pow(10, -9 + 8 * u01());
          for (i = 0; i < d; i++)
            xx[i] = bp[i] + t * (x0[i] - bp[i]) + s * t * gauss();
        } else if (mode == 21) { /* half-way steps towards the optimum with one coordinate replaced */
          for (i = 0; i < d; i++)
            xx[i] = bp[i];
          i = (size_t)(nxt() % d);
          xx[i] = lo[i] + (up[i] - lo[i]) * u01();
        } else if (mode == 22) { /* local search: accepted steps random-walk downhill from the best seen so far */
          double s = pow(10, -6 + 7 * u01());
          for (i = 0; i < d; i++)
            xx[i] = xw[i] + ((nxt() % 3) ? 0 : s * gauss());
        } else if (mode == 23) { /* stepping to neighbouring integers */
          for (i = 0; i < d; i++)
            xx[i] = bp[i];
          i = (size_t)(nxt() % d);
          xx[i] += (double)((long)(nxt() % 5) - 2);
          if (nxt() & 1) {
            i = (size_t)(nxt() % d);
            xx[i] += (double)((long)(nxt() % 3) - 1);
          }
        } else
          gen_point(mode, lo, up, bp, d, xx);
        if (nc) {
          coco_evaluate_constraint(p, xx, g);
          for (i = 0; i < nc && feas; i++)
            if (!(g[i] <= 0))
              feas = 0;
        }
        if (!feas)
          continue;
        nfeas++;
        y = NAN;
        coco_evaluate_function(p, xx, &y);
        if (!(y >= worst)) {
          worst = y;
          memcpy(xw, xx, d * sizeof(double));
        }
      }
      put_double(fopt);
      put_double(yb);
      put_double(gb);
      fprintf(ev, "\t%lu", (unsigned long)nfeas);
      put_double(worst);
      for (i = 0; i < d; i++)
        put_double(xw[i]);
    }
    free(bp);
    free(xx);
    free(x0);
    free(xw);
    free(g);
  } else if (!strcmp(c, "par")) { /* par seed n modes P1 P2 ...: the points of sweep, one thread per problem */
    int t, nt = nf - 4, i, nm = 0, modes[32];
    size_t m = (size_t)I(2), k, q;
    job_t jobs[64];
    pthread_t th[64];
    const char *s = F(3);
    while (*s && nm < 32) {
      modes[nm++] = (int)strtol(s, (char **)&s, 10);
      if (*s == ',')
        s++;
    }
    for (t = 0; t < nt; t++) {
      job_t *j = jobs + t;
      j->p = problems[I(4 + t)];
      j->n = m;
      j->d = coco_problem_get_dimension(j->p);
      j->no = coco_problem_get_number_of_objectives(j->p);
      j->nc = coco_problem_get_number_of_constraints(j->p);
      j->x = malloc(m * j->d * sizeof(double));
      j->y = malloc(m * j->no * sizeof(double));
      j->g = malloc((m * j->nc + 1) * sizeof(double));
      sm = (uint64_t)strtoull(F(1), NULL, 0) * 0x2545F4914F6CDD1Dull + 1;
      for (k = 0; k < m; k++)
        gen_point(modes[k % (size_t)nm], coco_problem_get_smallest_values_of_interest(j->p),
                  coco_problem_get_largest_values_of_interest(j->p), NULL, j->d, j->x + k * j->d);
    }
    pthread_barrier_init(&bar, NULL, (unsigned)nt);
    for (t = 0; t < nt; t++)
      pthread_create(&th[t], NULL, worker, &jobs[t]);
    for (t = 0; t < nt; t++)
      pthread_join(th[t], NULL);
    pthread_barrier_destroy(&bar);
    for (t = 0; t < nt; t++) {
      fprintf(ev, "\t|");
      for (k = 0; k < m; k++) {
        for (q = 0; q < jobs[t].no; q++)
          put_double(jobs[t].y[k * jobs[t].no + q]);
        for (q = 0; q < jobs[t].nc; q++)
          put_double(jobs[t].g[k * jobs[t].nc + q]);
      }
      free(jobs[t].x);
      free(jobs[t].y);
      free(jobs[t].g);
    }
    (void)i;
  } else if (!strcmp(c, "resetseeds")) {
    coco_reset_seeds();
  } else if (!strcmp(c, "loglevel")) {
    const char *old = coco_set_log_level(S(1));
    fprintf(ev, "\t%s", old ? old : "NULL");
  } else if (!strcmp(c, "archive")) { /* archive A suite f d i */
    archives[a] = coco_archive(F(2), (size_t)I(3), (size_t)I(4), (size_t)I(5));
    fprintf(ev, archives[a] ? "\tok" : "\tNULL");
  } else if (!strcmp(c, "aadd")) { /* aadd A y1 y2 text */
    fprintf(ev, "\t%d", IN(coco_archive_add_solution(archives[a], strtod(F(2), NULL), strtod(F(3), NULL), F(4))));
  } else if (!strcmp(c, "anum")) {
    fprintf(ev, "\t%lu", LU(coco_archive_get_number_of_solutions(archives[a])));
  } else if (!strcmp(c, "ahv")) {
    put_double(coco_archive_get_hypervolume(archives[a]));
  } else if (!strcmp(c, "atexts")) {
    const char *t;
    size_t k = 0;
    while ((t = coco_archive_get_next_solution_text(archives[a])) != NULL && strlen(t) && k++ < 100000)
      fprintf(ev, "\t%.*s", (int)strcspn(t, "\n"), t);
  } else if (!strcmp(c, "anext")) {
    const char *t = coco_archive_get_next_solution_text(archives[a]);
    fprintf(ev, "\t%.*s", t ? (int)strcspn(t, "\n") : 4, t ? t : "NULL");
  } else if (!strcmp(c, "afree")) {
    coco_archive_free(archives[a]);
    archives[a] = NULL;
  } else if (!strcmp(c, "feed")) { /* feed P evaluation y1 y2 */
    double *yy;
    n = (size_t)read_x(3, x);
    yy = exact_copy(x, n);
    fprintf(ev, "\t%d", IN(coco_logger_biobj_feed_solution(p, (size_t)I(2), yy)));
    free(yy);
  } else if (!strcmp(c, "rng")) {
    rngs[a] = coco_random_new((uint32_t)strtoul(F(2), NULL, 0));
  } else if (!strcmp(c, "rngfree")) {
    coco_random_free(rngs[a]);
    rngs[a] = NULL;
  } else if (!strcmp(c, "rngu") || !strcmp(c, "rngn")) {
    size_t k, m = (size_t)I(2);
    for (k = 0; k < m; k++)
      put_double(c[3] == 'u' ? coco_random_uniform(rngs[a]) : coco_random_normal(rngs[a]));
  } else if (!strcmp(c, "rmdir")) {
    fprintf(ev, "\t%d", IN(coco_remove_directory(F(1))));
  } else if (!strcmp(c, "mkdir")) {
    fprintf(ev, "\t%d", mkdir(F(1), 0777));
  } else if (!strcmp(c, "chdir")) {
    fprintf(ev, "\t%d", chdir(F(1)));
  } else if (!strcmp(c, "strdupf")) {
    char *s = coco_strdupf(F(1), F(2), (unsigned long)I(3));
    fprintf(ev, "\t%s", s);
    coco_free_memory(s);
  } else if (!strcmp(c, "kill")) {
    fprintf(ev, "\tdying\n");
    fflush(ev);
    kill(getpid(), SIGKILL);
  } else if (!strcmp(c, "_exit")) {
    fprintf(ev, "\tdying\n");
    fflush(ev);
    _exit(0);
  } else if (!strcmp(c, "exit")) { /* as the library's fatal error does: output buffers are written, objects not freed */
    fprintf(ev, "\tdying\n");
    fflush(ev);
    exit(0);
  } else if (!strcmp(c, "sleep")) {
    usleep((useconds_t)a);
  } else if (!strcmp(c, "await")) { /* barrier: wait until the file exists */
    struct stat sb;
    long k = 0;
    while (stat(F(1), &sb) != 0 && k++ < 100000)
      usleep(200);
  } else if (!strcmp(c, "finish")) {
    finish_all();
  } else
    fprintf(ev, "\tUNKNOWN-COMMAND");
}

int main(int argc, char **argv) {
  FILE *in;
  char *line = NULL, *cp = NULL;
  size_t cap = 0;
  unsigned long ln = 0;
  if (argc < 3)
    return 2;
  in = fopen(argv[1], "r");
  ev = fopen(argv[2], "w");
  if (!in || !ev)
    return 2;
  setvbuf(ev, NULL, _IOFBF, 1 << 16);
  if (argc > 3)
    coco_set_log_level(argv[3]);
  while (getline(&line, &cap, in) >= 0) {
    split(line);
    if (!nf || !*F(0) || F(0)[0] == '#')
      continue;
    /* announce first: an abort inside the call is attributable */
    fprintf(ev, "%lu\t%s", ++ln, F(0));
    fflush(ev);
    exec_cmd();
    fputc('\n', ev);
  }
  fprintf(ev, "END\n");
  fflush(ev);
  finish_all();
  fprintf(ev, "CLEAN\n");
  fclose(ev);
  fclose(in);
  free(line);
  (void)cp;
  return 0;
}
