// Baton scheduler: real threads, exactly one runs; the choice tape decides who and where a call is preempted.
#include "core.h"
#include "simsched.h"
#include <pthread.h>
#include <semaphore.h>
#include <cstdlib>
bool sched_on;
volatile int64_t sched_budget;
static sem_t sems[MAX_THREADS], main_sem;
static bool created[MAX_THREADS], finished[MAX_THREADS];
static int nthr, cur;
static uint32_t gran;
static const std::function<bool(int)> *body;
static bool failed; static Violation stash; static bool ended;
static uint64_t blocks;
static void new_budget() {
    uint32_t g = gran;
    if (draw(6) == 5) g = 20000;
    sched_budget = 1 + draw(g);
}
static int choose() {          // among unfinished threads, current first
    int c[MAX_THREADS], n = 0;
    for (int k = 0; k < nthr; k++) { int t = (cur + k) % nthr; if (!finished[t]) c[n++] = t; }
    if (!n) return -1;
    return c[draw(n)];
}
static void pass(int to, bool leaving) {
    int me = cur; cur = to;
    if (to == me) return;
    sem_post(&sems[to]);
    if (!leaving) { while (sem_wait(&sems[me]) != 0) {} }
}
void sched_point() {
    blocks = 0;
    int saved_in = in_lib; (void)saved_in;
    int t = choose(); new_budget();
    mix(0x5C4ED + t);
    if (t != cur) { fault(F_PREEMPT); shm->preempts++; pass(t, false); }
}
bool sched_block() {
    if (!sched_on) return false;
    int c[MAX_THREADS], n = 0;
    for (int k = 1; k < nthr; k++) { int t = (cur + k) % nthr; if (!finished[t]) c[n++] = t; }
    if (!n || ++blocks > 100000) return false;
    int t = c[draw(n)]; new_budget(); mix(0xB10C + t); shm->preempts++;
    pass(t, false);
    return true;
}
int sched_tid() { return cur; }
static void *thread_main(void *a) {
    int me = (int)(intptr_t)a;
    for (;;) {
        while (sem_wait(&sems[me]) != 0) {}
        lib_restore_tls();
        try {
            while (!failed && !ended && (*body)(me)) { blocks = 0; }
        } catch (Violation &v) { if (!failed) { failed = true; stash = v; } }
        catch (EndRun &) { ended = true; }
        catch (std::exception &e) { if (!failed) { failed = true; stash = Violation{"unexpected-exception", e.what()}; } }
        finished[me] = true;
        int t = -1;
        try { t = choose(); if (t >= 0) new_budget(); } catch (EndRun &) { ended = true; for (int k = 0; k < nthr; k++) if (!finished[k]) t = k; }
        if (t >= 0) pass(t, true); else { sched_on = false; sem_post(&main_sem); }
    }
}
void sched_run(int n, uint32_t granularity, const std::function<bool(int)> &f) {
    nthr = n; gran = granularity; body = &f; failed = ended = false; blocks = 0;
    for (int k = 0; k < n; k++) {
        finished[k] = false;
        if (!created[k]) {
            if (k == 0) sem_init(&main_sem, 0, 0);
            sem_init(&sems[k], 0, 0); created[k] = true;
            pthread_t t; pthread_attr_t at; pthread_attr_init(&at); pthread_attr_setstacksize(&at, 1 << 20);
            if (pthread_create(&t, &at, thread_main, (void *)(intptr_t)k)) abort();
        }
    }
    cur = 0; new_budget(); int t = draw(n); cur = t;
    sched_on = true; sem_post(&sems[t]);
    while (sem_wait(&main_sem) != 0) {}
    sched_on = false;
    if (failed) throw stash;
    if (ended) throw EndRun();
}
