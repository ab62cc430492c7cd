// Background threads that do not run by themselves: a started std::thread runs
// to its end, inline, when somebody yields or joins.  (The workers of the
// storage engine are started but idle; they terminate when they are told to.)
#include <cstdint>
#include <vector>
struct Pend { uint64_t id; void* st; };
static std::vector<Pend>* gPend; static uint64_t gNext = 1;
static void runOne(uint64_t id) {
    if (!gPend) return;
    for (size_t i = 0; i < gPend->size(); ++i) if (!id || (*gPend)[i].id == id) {
        void* st = (*gPend)[i].st; gPend->erase(gPend->begin() + i);
        void** vt = *(void***)st; ((void (*)(void*))vt[2])(st); ((void (*)(void*))vt[1])(st);
        return;
    }
}
extern "C" {
void inline_threads_reset() { if (gPend) gPend->clear(); }   // the process died: so did its threads
int __wrap_sched_yield() { runOne(0); return 0; }
void __wrap__ZNSt6thread15_M_start_threadESt10unique_ptrINS_6_StateESt14default_deleteIS1_EEPFvvE(void* self, void** up, void (*)()) {
    void* st = *up; *up = nullptr;
    if (!gPend) gPend = new std::vector<Pend>();
    *(uint64_t*)self = gNext; gPend->push_back({gNext++, st});
}
void __wrap__ZNSt6thread4joinEv(void* self) { uint64_t id = *(uint64_t*)self; *(uint64_t*)self = 0; runOne(id); }
void __wrap__ZNSt6thread6detachEv(void* self) { *(uint64_t*)self = 0; }
}
