/* Simulator core shared by the interpreter threads and the instrumented kernels.
 *
 * 1. Baton scheduler.  Any number of real threads, exactly one of which runs at a
 *    time.  Who runs next is decided here, from a seed or from an explicit list of
 *    preemptions, never by the operating system.
 * 2. __sanitizer_cov_trace_pc: called by the instrumented extension modules at every
 *    basic block; a scheduling point whenever the calling thread does not hold the GIL.
 * (operator new with an injected failure is in libsimnew.cpp)
 */
#define _GNU_SOURCE
#include <pthread.h>
#include <stdint.h>
#include <stdlib.h>
#include <string.h>

#define MAXT 16
#define MAXS 4096

extern int PyGILState_Check(void) __attribute__((weak));

static pthread_mutex_t mu = PTHREAD_MUTEX_INITIALIZER;
static pthread_cond_t cv[MAXT];
static volatile int current = -1;
static int ntask, alive[MAXT], active;
static __thread int me = -1;
static uint64_t step, tstep[MAXT], nswitch, native_points, native_switches, blocked;
static int64_t until_switch;
static uint64_t rng;
static int random_mode;
static double gap;
static uint64_t maxswitch;
/* explicit preemptions: per task, sorted by local step */
static int n_ex;
static int ex_task[MAXS], ex_to[MAXS];
static uint64_t ex_step[MAXS];
static int cursor[MAXT];
/* recording */
static int n_rec;
static int rec_task[MAXS], rec_to[MAXS];
static uint64_t rec_step[MAXS];
#define END_STEP UINT64_MAX

static uint64_t rnd(void) {
    rng ^= rng << 13; rng ^= rng >> 7; rng ^= rng << 17;
    return rng;
}
static int64_t draw_gap(void) {
    /* geometric-ish, deterministic integer arithmetic: sum of two uniforms around gap */
    uint64_t g = (uint64_t)(gap < 1 ? 1 : gap);
    uint64_t r = rnd() >> 11;
    uint64_t sel = rnd() & 7;
    if (sel == 0) return 1 + (int64_t)(r % 3);          /* burst: switch again at once */
    if (sel == 1) return 1 + (int64_t)(r % (8 * g));    /* long quiet stretch */
    return 1 + (int64_t)(r % (2 * g));
}
static int pick_other(int self) {
    int c[MAXT], n = 0;
    for (int i = 0; i < ntask; i++) if (alive[i] && i != self) c[n++] = i;
    if (!n) return -1;
    return c[(rnd() >> 7) % n];
}
static int next_alive(int self) {
    for (int k = 1; k <= ntask; k++) { int i = (self + k) % ntask; if (alive[i] && i != self) return i; }
    return -1;
}
static void record(int t, uint64_t s, int to) {
    if (n_rec < MAXS) { rec_task[n_rec] = t; rec_step[n_rec] = s; rec_to[n_rec] = to; n_rec++; }
}
static void hand(int to, int wait) {
    int self = me;
    pthread_mutex_lock(&mu);
    current = to;
    pthread_cond_signal(&cv[to]);
    if (wait) while (current != self) pthread_cond_wait(&cv[self], &mu);
    pthread_mutex_unlock(&mu);
}

/* count one scheduling point; returns the task to switch to, or -1 */
static int point(int fresh) {
    int t = me;
    if (!active || t < 0) return -1;
    step++;
    uint64_t s = ++tstep[t];
    if (random_mode) {
        if (random_mode > 1 && !fresh) return -1;       /* only at places the caller calls interesting */
        if (--until_switch > 0) return -1;
        until_switch = draw_gap();
        if (nswitch >= maxswitch) return -1;
        int to = pick_other(t);
        if (to < 0) return -1;
        record(t, s, to);
        return to;
    }
    for (int i = cursor[t]; i < n_ex; i++) {
        if (ex_task[i] != t) continue;
        if (ex_step[i] > s) { cursor[t] = i; return -1; }
        if (ex_step[i] == s && alive[ex_to[i]] && ex_to[i] != t) { cursor[t] = i + 1; record(t, s, ex_to[i]); return ex_to[i]; }
    }
    return -1;
}
int sim_point(void) { return point(0); }
int sim_point_at(int fresh) { return point(fresh); }
void sim_switch(int to) { nswitch++; hand(to, 1); }   /* call without the GIL */

void sim_block(void) {                                  /* waiting for a simulated lock */
    int t = me;
    if (!active || t < 0) return;
    blocked++;
    int to = next_alive(t);
    if (to >= 0) { step++; tstep[t]++; sim_switch(to); }
}
void sim_config(int n, int rmode, uint64_t seed, double g, uint64_t maxsw, int first) {
    ntask = n; random_mode = rmode; rng = seed * 2654435769u + 88172645463325252ull; gap = g; maxswitch = maxsw;
    for (int i = 0; i < 8; i++) rnd();
    step = nswitch = native_points = native_switches = blocked = 0; n_rec = 0; n_ex = 0;
    memset(tstep, 0, sizeof tstep); memset(cursor, 0, sizeof cursor);
    for (int i = 0; i < n; i++) { alive[i] = 1; pthread_cond_init(&cv[i], 0); }
    until_switch = draw_gap();
    current = -2 - first;
}
void sim_explicit(int n, const int *task, const uint64_t *st, const int *to) {
    n_ex = n > MAXS ? MAXS : n;
    memcpy(ex_task, task, n_ex * sizeof(int)); memcpy(ex_step, st, n_ex * sizeof(uint64_t)); memcpy(ex_to, to, n_ex * sizeof(int));
}
void sim_enter(int t) {
    me = t;
    pthread_mutex_lock(&mu);
    while (current != t) pthread_cond_wait(&cv[t], &mu);
    pthread_mutex_unlock(&mu);
}
void sim_go(void) {
    int first = -2 - current;
    pthread_mutex_lock(&mu);
    active = 1; current = first;
    pthread_cond_signal(&cv[first]);
    pthread_mutex_unlock(&mu);
}
void sim_leave(void) {
    int t = me, to = -1;
    alive[t] = 0;
    if (random_mode) { to = pick_other(t); if (to >= 0) record(t, END_STEP, to); }
    else {
        for (int i = 0; i < n_ex; i++) if (ex_task[i] == t && ex_step[i] == END_STEP && alive[ex_to[i]]) to = ex_to[i];
        if (to < 0) to = next_alive(t);
        else record(t, END_STEP, to);
    }
    me = -1;
    if (to >= 0) { pthread_mutex_lock(&mu); current = to; pthread_cond_signal(&cv[to]); pthread_mutex_unlock(&mu); }
    else active = 0;
}
int sim_records(int *task, uint64_t *st, int *to) {
    memcpy(task, rec_task, n_rec * sizeof(int)); memcpy(st, rec_step, n_rec * sizeof(uint64_t)); memcpy(to, rec_to, n_rec * sizeof(int));
    return n_rec;
}
uint64_t sim_stat(int k) {
    switch (k) { case 0: return step; case 1: return nswitch; case 2: return native_points; case 3: return native_switches; case 4: return blocked; }
    return 0;
}
int sim_me(void) { return active ? me : -1; }

void __sanitizer_cov_trace_pc(void) {
    if (!active || me < 0) return;
    if (PyGILState_Check && PyGILState_Check()) return;
    native_points++;
    int to = sim_point();
    if (to >= 0) { native_switches++; sim_switch(to); }
}


/* Crash attribution.  While an injected numpy allocation failure is armed, a crash whose innermost frame (outside
 * libc/libstdc++/libgcc/this library) is not in one of geoana's own extension modules is numpy's own defect in
 * handling that failure: the process then exits with status 70 instead of dying by the signal. */
#include <dlfcn.h>
#include <execinfo.h>
#include <signal.h>
#include <ucontext.h>
#include <unistd.h>
static char own_dir[1024];
static volatile int attribute_crashes;
static char altstack[1 << 16];
static int relevant(void *pc, int *own) {
    Dl_info d;
    if (!dladdr(pc, &d) || !d.dli_fname) return 0;
    const char *b = strrchr(d.dli_fname, '/');
    b = b ? b + 1 : d.dli_fname;
    if (!strncmp(b, "libc.", 5) || !strncmp(b, "libc-", 5) || !strncmp(b, "libstdc++", 9) || !strncmp(b, "libgcc_s", 8) || !strncmp(b, "libsim", 6) || !strncmp(b, "ld-linux", 8)) return 0;
    *own = strncmp(d.dli_fname, own_dir, strlen(own_dir)) == 0;
    return 1;
}
static void on_crash(int sig, siginfo_t *si, void *ctx) {
    if (attribute_crashes) {
        int own = 0;
        void *fr[64];
#if defined(__x86_64__)
        void *pc = (void *)((ucontext_t *)ctx)->uc_mcontext.gregs[REG_RIP];
        if (relevant(pc, &own)) _exit(own ? 71 : 70);
#endif
        int n = backtrace(fr, 64);
        for (int i = 1; i < n; i++) if (relevant(fr[i], &own)) _exit(own ? 71 : 70);
    }
    signal(sig, SIG_DFL);
    raise(sig);
}
void sim_crash_setup(const char *dir) {
    strncpy(own_dir, dir, sizeof own_dir - 1);
    void *fr[4];
    backtrace(fr, 4);                       /* load libgcc now */
    stack_t ss = {0};
    ss.ss_sp = altstack; ss.ss_size = sizeof altstack;
    sigaltstack(&ss, 0);
    struct sigaction sa = {0};
    sa.sa_sigaction = on_crash; sa.sa_flags = SA_SIGINFO | SA_ONSTACK;
    int s[] = {SIGSEGV, SIGBUS, SIGABRT, SIGFPE, SIGILL};
    for (int i = 0; i < 5; i++) sigaction(s[i], &sa, 0);
}
void sim_crash_attribute(int on) { attribute_crashes = on; }
