// Native side of the harness API: replays recorded input values.
#include "sym.h"
#include <pthread.h>
#include <condition_variable>
#include <mutex>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <string>
#include <vector>
#include <malloc.h>
#include <unistd.h>
#include <exception>

static std::vector<uint64_t> gVals;
static size_t gPos = 0;
static uint64_t gArg = 0;
static long gLive = 0;

static uint64_t nextVal(const char* name) {
    if (gPos >= gVals.size()) {
        // inputs past the recorded ones are irrelevant for the recorded failure
        fprintf(stderr, "REPLAY: inputs exhausted at %s\n", name);
        fflush(stderr);
        _exit(77);
    }
    return gVals[gPos++];
}
extern "C" {
void sym_bytes(void* p, size_t n, const char* name) {
    for (size_t i = 0; i < n; ++i) ((unsigned char*)p)[i] = (unsigned char)nextVal(name);
}
uint64_t sym_range(uint64_t, uint64_t, const char* n) { return nextVal(n); }
uint64_t sym_u64(const char* n) { return nextVal(n); }
uint64_t sym_choose(uint64_t, uint64_t, const char* n) { return nextVal(n); }
void sym_assume_(int c) { if (!c) { fprintf(stderr, "REPLAY: assumption does not hold\n"); fflush(stderr); _exit(78); } }
void sym_fail(const char* msg) { fprintf(stderr, "REPLAY-VIOLATION: %s\n", msg); fflush(stderr); _exit(99); }
void sym_assert_(int c, const char* msg) { if (!c) sym_fail(msg); }
void sym_cover(uint32_t) {}
void sym_observe(uint64_t v) { printf("OBS %lu\n", (unsigned long)v); }
uint64_t sym_concretize(uint64_t v) { return v; }
uint64_t sym_arg() { return gArg; }
int sym_tier() { const char* t = getenv("VERIF_TIER"); return t && !strcmp(t, "thorough"); }
int sym_is_replay() { return 1; }
uint64_t sym_live_heap() { return (uint64_t)__atomic_load_n(&gLive, __ATOMIC_SEQ_CST); }
void sym_end() { fflush(stdout); _exit(0); }
void sym_reject() { fprintf(stderr, "REPLAY: rejected\n"); fflush(stderr); _exit(78); }
uint64_t sym_ite(int c, uint64_t a, uint64_t b) { return c ? a : b; }
void sym_print(const char* n, uint64_t v) { fprintf(stderr, "[print] %s = %lu\n", n, (unsigned long)v); }
int sym_readable(const void*, size_t) { return 1; }
int sym_is_symbolic(uint64_t) { return 0; }

unsigned __wrap__ZNSt6thread20hardware_concurrencyEv() { return 4; }
// sleeping takes no time
int __wrap_usleep(unsigned) { return 0; }
int __wrap_nanosleep(const void*, void*) { return 0; }
int __wrap_clock_nanosleep(int, int, const void*, void*) { return 0; }
// ---- allocation accounting (linked with --wrap)
void* __real_malloc(size_t); void* __real_calloc(size_t, size_t); void* __real_realloc(void*, size_t);
void __real_free(void*); int __real_posix_memalign(void**, size_t, size_t);
void* __wrap_malloc(size_t n) { __atomic_add_fetch(&gLive, 1, __ATOMIC_SEQ_CST); return __real_malloc(n); }
void* __wrap_calloc(size_t n, size_t m) { __atomic_add_fetch(&gLive, 1, __ATOMIC_SEQ_CST); return __real_calloc(n, m); }
void* __wrap_realloc(void* p, size_t n) { if (!p) __atomic_add_fetch(&gLive, 1, __ATOMIC_SEQ_CST); return __real_realloc(p, n); }
void __wrap_free(void* p) { if (p) __atomic_add_fetch(&gLive, -1, __ATOMIC_SEQ_CST); __real_free(p); }
int __wrap_posix_memalign(void** p, size_t a, size_t n) { __atomic_add_fetch(&gLive, 1, __ATOMIC_SEQ_CST); return __real_posix_memalign(p, a, n); }
void* __real__Znwm(size_t); void* __real__Znam(size_t); void __real__ZdlPv(void*); void __real__ZdaPv(void*);
void __real__ZdlPvm(void*, size_t); void __real__ZdaPvm(void*, size_t);
void* __wrap__Znwm(size_t n) { __atomic_add_fetch(&gLive, 1, __ATOMIC_SEQ_CST); return __real__Znwm(n); }
void* __wrap__Znam(size_t n) { __atomic_add_fetch(&gLive, 1, __ATOMIC_SEQ_CST); return __real__Znam(n); }
void __wrap__ZdlPv(void* p) { if (p) __atomic_add_fetch(&gLive, -1, __ATOMIC_SEQ_CST); __real__ZdlPv(p); }
void __wrap__ZdlPvm(void* p, size_t n) { if (p) __atomic_add_fetch(&gLive, -1, __ATOMIC_SEQ_CST); __real__ZdlPvm(p, n); }
void __wrap__ZdaPv(void* p) { if (p) __atomic_add_fetch(&gLive, -1, __ATOMIC_SEQ_CST); __real__ZdaPv(p); }
void __wrap__ZdaPvm(void* p, size_t n) { if (p) __atomic_add_fetch(&gLive, -1, __ATOMIC_SEQ_CST); __real__ZdaPvm(p, n); }
}

#ifdef JSYM_THREADS
// ---------------------------------------------------------------- scheduler
// Mirrors the engine: one thread runs at a time; decisions come from the
// recorded inputs.
enum { RUN, MUTEX, COND, JOIN, DONE };
struct NT { int stat = RUN; const void* on = nullptr; const void* mtx = nullptr; bool reacq = false; bool canTo = false, to = false; void (*fn)(void*); void* arg; int id = 0; pthread_t th; };
// plain storage: usable before and after the static constructors and destructors
static struct TV {
    NT* a[64]; size_t n;
    size_t size() const { return n; } bool empty() const { return !n; } void push_back(NT* t) { a[n++] = t; }
    NT*& operator[](size_t i) { return a[i]; } NT** begin() { return a; } NT** end() { return a + n; }
} gT;
static int gCur = 0;
static int gBudget = 0, gUsed = 0, gSpurious = 0;
static bool gTimeouts = false;
static pthread_mutex_t gM = PTHREAD_MUTEX_INITIALIZER;
static pthread_cond_t gC = PTHREAD_COND_INITIALIZER;
static thread_local int tSelf = 0;
extern "C" {
int __real_pthread_mutex_lock(pthread_mutex_t*);
int __real_pthread_mutex_unlock(pthread_mutex_t*);
int __real_pthread_mutex_trylock(pthread_mutex_t*);
}
static bool multi() { return gT.size() > 1; }
static void giveTo(int id) {
    __real_pthread_mutex_lock(&gM);
    gCur = id;
    pthread_cond_broadcast(&gC);
    while (gCur != tSelf) pthread_cond_wait(&gC, &gM);
    __real_pthread_mutex_unlock(&gM);
}
static void giveToExit(int id) {
    __real_pthread_mutex_lock(&gM);
    gCur = id;
    pthread_cond_broadcast(&gC);
    __real_pthread_mutex_unlock(&gM);
}
static int pickOther() {
    std::vector<int> run;
    for (size_t i = 0; i < gT.size(); ++i) if (gT[i]->stat == RUN) run.push_back((int)i);
    if (run.empty()) {
        for (size_t i = 0; i < gT.size(); ++i) if (gT[i]->stat == COND && gT[i]->canTo) run.push_back((int)i);
        if (run.empty()) sym_fail("deadlock: all threads are blocked");
        for (int i : run) { gT[i]->stat = RUN; gT[i]->to = true; }
    }
    if (run.size() > 1) return (int)nextVal("sched");
    return run[0];
}
static void point() {
    if (!multi()) return;
    static int spinThr = -1, spin = 0;
    if (spinThr != tSelf) { spinThr = tSelf; spin = 0; }
    if (++spin > 400)
        for (size_t k = 1; k < gT.size(); ++k) {
            size_t i = (tSelf + k) % gT.size();
            if (gT[i]->stat == RUN) { giveTo((int)i); return; }
        }
    if (gUsed >= gBudget) return;
    int n = 0;
    for (auto* t : gT) if (t->stat == RUN || (t->stat == COND && (t->canTo ? gTimeouts : gSpurious > 0))) n++;
    if (n < 2) return;
    int v = (int)nextVal("sched");
    if (v != tSelf) {
        gUsed++;
        if (gT[v]->stat == COND) { gT[v]->stat = RUN; if (gT[v]->canTo) gT[v]->to = true; else gSpurious--; }
        giveTo(v);
    }
}
static void block() { int p = pickOther(); if (p != tSelf) giveTo(p); }
static void* tmain(void* a) {
    NT* t = (NT*)a;
    tSelf = t->id;
    __real_pthread_mutex_lock(&gM);
    while (gCur != tSelf) pthread_cond_wait(&gC, &gM);
    __real_pthread_mutex_unlock(&gM);
    t->fn(t->arg);
    t->stat = DONE;
    for (auto* x : gT) if (x->stat == JOIN && x->on == t) x->stat = RUN;
    giveToExit(pickOther());
    return nullptr;
}
extern "C" {
void jrt_sched_point() { point(); }
static const char* gSh[16][2]; static int gNSh = 0; static bool gShHeap = false;
void sym_share(const void* p, size_t n) { if (!n) gNSh = 0; else { gSh[gNSh][0] = (const char*)p; gSh[gNSh++][1] = (const char*)p + n; } }
void sym_share_heap(int on) { gShHeap = on; }
const char* __asan_locate_address(void* addr, char* name, size_t name_size, void** ra, size_t* rs);
void jrt_mem_point(void* p) {
    if (!multi() || (!gShHeap && !gNSh)) return;
    for (int i = 0; i < gNSh; ++i) if ((const char*)p >= gSh[i][0] && (const char*)p < gSh[i][1]) { point(); return; }
    if (!gShHeap) return;
    char nm[8]; void* ra; size_t rs;
    const char* k = __asan_locate_address(p, nm, sizeof nm, &ra, &rs);
    if (k && !strcmp(k, "heap")) point();
}
int sym_thread_create(void (*fn)(void*), void* arg) {
    if (gT.empty()) gT.push_back(new NT);
    NT* t = new NT;
    t->fn = fn; t->arg = arg;
    gT.push_back(t);
    int id = t->id = (int)gT.size() - 1;
    pthread_create(&t->th, nullptr, tmain, t);
    return id;
}
void sym_thread_join(int id) {
    point();
    NT* t = gT[id];
    while (t->stat != DONE) { gT[tSelf]->stat = JOIN; gT[tSelf]->on = t; block(); }
}
void sym_spurious(int n) { gSpurious = n; }
void sym_timeouts(int on) { gTimeouts = on; }
void sym_preempt_budget(int n) { gBudget = n; gUsed = 0; }
void sym_yield() {
    point();
    if (!multi()) return;
    for (size_t k = 1; k < gT.size(); ++k) { size_t i = (tSelf + k) % gT.size(); if (gT[i]->stat == RUN) { giveTo((int)i); return; } }
}
static int ownerOf(pthread_mutex_t* m) { return ((int*)m)[0]; }
static int kindOf(pthread_mutex_t* m) { return ((int*)m)[4] & 3; }
// In a multi-threaded harness the lock word is managed exactly as the engine does.
static bool gModel = false;
static void modelLock(pthread_mutex_t* m) {
    int* w = (int*)m;
    for (;;) {
        if (!w[0]) { w[0] = tSelf + 1; w[1] = 1; return; }
        if (w[0] == tSelf + 1) {
            if (kindOf(m) != 1) sym_fail("mutex locked twice by the same thread");
            w[1]++; return;
        }
        gT[tSelf]->stat = MUTEX; gT[tSelf]->on = m;
        block();
    }
}
static void modelUnlock(pthread_mutex_t* m) {
    int* w = (int*)m;
    if (w[0] != tSelf + 1) sym_fail("bad mutex unlock");
    if (--w[1] == 0) {
        w[0] = 0;
        for (auto* t : gT) if (t->stat == MUTEX && t->on == m) t->stat = RUN;
    }
}
void jrt_model_locks() { gModel = true; if (gT.empty()) gT.push_back(new NT); }
int __wrap_pthread_mutex_lock(pthread_mutex_t* m) {
    if (!gModel) return __real_pthread_mutex_lock(m);
    point(); modelLock(m); return 0;
}
int __wrap_pthread_mutex_unlock(pthread_mutex_t* m) {
    if (!gModel) return __real_pthread_mutex_unlock(m);
    point(); modelUnlock(m); return 0;
}
int __wrap_pthread_mutex_trylock(pthread_mutex_t* m) {
    if (!gModel) return __real_pthread_mutex_trylock(m);
    point();
    int* w = (int*)m;
    if (!w[0]) { w[0] = tSelf + 1; w[1] = 1; return 0; }
    if (w[0] == tSelf + 1 && kindOf(m) == 1) { w[1]++; return 0; }
    return 16;
}
extern int64_t jrt_clock_ns __attribute__((weak));
static int modelCondWait(const void* cv, pthread_mutex_t* m, bool timed, const struct timespec* ts = nullptr) {
    point();
    modelUnlock(m);
    NT* t = gT[tSelf];
    t->stat = COND; t->on = cv; t->canTo = timed; t->to = false;
    block();
    int* w = (int*)m;
    while (w[0]) { t->stat = MUTEX; t->on = m; block(); }
    w[0] = tSelf + 1; w[1] = 1;
    bool to = t->to; t->to = false; t->canTo = false;
    if (to && ts && &jrt_clock_ns) { int64_t x = ts->tv_sec * 1000000000LL + ts->tv_nsec + 1; if (jrt_clock_ns < x) jrt_clock_ns = x; }
    return to ? 110 : 0;
}
static void modelSignal(const void* cv, bool all) {
    point();
    for (auto* t : gT) if (t->stat == COND && t->on == cv) { t->stat = RUN; if (!all) break; }
}
int __wrap_pthread_cond_clockwait(pthread_cond_t* c, pthread_mutex_t* m, clockid_t, const struct timespec* ts) { return modelCondWait(c, m, true, ts); }
int __wrap_pthread_cond_timedwait(pthread_cond_t* c, pthread_mutex_t* m, const struct timespec* ts) { return modelCondWait(c, m, true, ts); }
void __wrap__ZNSt18condition_variable4waitERSt11unique_lockISt5mutexE(void* cv, std::unique_lock<std::mutex>& ul) { modelCondWait(cv, (pthread_mutex_t*)ul.mutex(), false); }
void __wrap__ZNSt18condition_variable10notify_oneEv(void* cv) { modelSignal(cv, false); }
void __wrap__ZNSt18condition_variable10notify_allEv(void* cv) { modelSignal(cv, true); }
int __wrap_sched_yield() { sym_yield(); return 0; }
// std::thread
static void stdMain(void* st) { void** vt = *(void***)st; ((void (*)(void*))vt[2])(st); ((void (*)(void*))vt[1])(st); }
void __wrap__ZNSt6thread15_M_start_threadESt10unique_ptrINS_6_StateESt14default_deleteIS1_EEPFvvE(void* self, void** up, void (*)()) {
    void* st = *up; *up = nullptr;
    *(uint64_t*)self = (uint64_t)sym_thread_create(stdMain, st) + 1;
}
void __wrap__ZNSt6thread4joinEv(void* self) { uint64_t& id = *(uint64_t*)self; if (!id || id - 1 >= gT.size()) sym_fail("join of a thread that is not joinable"); sym_thread_join((int)id - 1); id = 0; }
void __wrap__ZNSt6thread6detachEv(void* self) { *(uint64_t*)self = 0; }
}

#else
extern "C" {
int sym_thread_create(void (*)(void*), void*) { fprintf(stderr, "harness is not marked //@ threads\n"); _exit(3); }
void sym_thread_join(int) {}
void sym_preempt_budget(int) {}
void sym_spurious(int) {}
void sym_timeouts(int) {}
void sym_share(const void*, size_t) {}
void sym_share_heap(int) {}
void sym_yield() {}
void jrt_model_locks() {}
}
#endif

int main(int argc, char** argv) {
    const char* f = argc > 1 ? argv[1] : getenv("JSYM_REPLAY");
    if (f) {
        FILE* fp = fopen(f, "r");
        if (!fp) { perror(f); return 3; }
        char line[4096];
        while (fgets(line, sizeof line, fp)) {
            unsigned long v;
            if (sscanf(line, "arg %lu", &v) == 1) gArg = v;
            else if (char* p = strstr(line, "\t= ")) gVals.push_back(strtoull(p + 3, nullptr, 10));
        }
        fclose(fp);
    }
    std::set_terminate([]() { fprintf(stderr, "REPLAY-VIOLATION: std::terminate\n"); fflush(stderr); _exit(99); });
    gLive = 0;
    if (getenv("JSYM_THREADS")) jrt_model_locks();
    harness();
    fflush(stdout);
    _exit(0);
}
