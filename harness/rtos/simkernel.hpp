// A small simulated RTOS kernel: semaphores and threads with the object rules of the real kernels,
// scheduled by the simulator (preemptive or purely cooperative).
#pragma once
#include "sim.hpp"
#include <cstring>
#include <cstdlib>
#include <map>

namespace simk {
struct Sem { const void* id; long count; long limit; bool alive; const char* kernel; };
struct Thr {
    const void* id; void (*go)(Thr*); void* entry; void* p1; void* p2; void* p3;
    unsigned char* stack; size_t stack_size; int tid; bool finished, deleted; const char* kernel; bool watch_id; unsigned char* stack_top = nullptr;
    void last_touch();
};
struct Kernel {
    std::map<const void*, Sem> sems;      // by address of the control block (or handle)
    std::map<const void*, Thr*> thr;
    std::map<int, Thr*> by_tid;
    int sems_live = 0, threads_live = 0;
    uint64_t created = 0, refused = 0, gives = 0;
    bool atomic_exit = true;              // a Zephyr thread that signalled its end exits without being preempted
    bool coop = false;
};
inline Kernel*& K() { static Kernel* k = nullptr; return k; }
inline void touch(Thr* t);
inline void Thr::last_touch() {
    if (kernel[0] != 'Z') { touch(this); return; }
    if (K()->atomic_exit) return;
    sim::point();
    sim::Quiet z;
    if (!sim::heap_live(stack) || !sim::heap_live(id)) sim::fail("stack-freed", "Zephyr: the stack or control block of a thread is freed while the kernel still runs the thread's exit path");
}
// How long one tick of the kernel's clock lasts; a sleep of n ticks ends at the n-th one from now
inline uint64_t tick_ns = 1000000;
inline void boot(bool coop) { sim::Quiet z; K() = new Kernel(); K()->coop = coop; sim::set_cooperative(coop); }

inline void sem_create(const void* id, long c, long lim, const char* kernel) {
    sim::Quiet z;
    if (K()->sems.count(id)) sim::fail("kernel-object", "%s: a semaphore that exists already is initialised again", kernel);
    K()->sems[id] = Sem{id, c, lim, true, kernel}; K()->sems_live++;
}
inline Sem* sem_find(const void* id, const char* what, const char* kernel) {
    auto it = K()->sems.find(id);
    if (it == K()->sems.end()) sim::fail("kernel-object", "%s: %s a semaphore the kernel does not know at this address (never created here, deleted, or its control block was copied)", kernel, what);
    return &it->second;
}
inline void sem_give(const void* id, const char* kernel) {
    sim::point();
    { sim::Quiet z; Sem* s = sem_find(id, "give to", kernel); if (s->count < s->limit) s->count++; K()->gives++; sim::k_release((void*)id); sim::k_wake((void*)id, 1); }
    sim::point();
}
inline bool sem_take(const void* id, uint64_t timeout_ns, bool forever, const char* kernel) {
    sim::point();
    uint64_t end = sim::now_ns() + timeout_ns;
    for (;;) {
        { sim::Quiet z; Sem* s = sem_find(id, "take", kernel); if (s->count > 0) { s->count--; sim::k_acquire((void*)id); return true; }
          if (!forever && sim::now_ns() >= end) return false; }
        sim::k_block((void*)id, forever ? 0 : end - sim::now_ns());
    }
}
inline void sem_delete(const void* id, const char* kernel) {
    sim::point();
    sim::Quiet z; sem_find(id, "delete", kernel); K()->sems.erase(id); K()->sems_live--; sim::k_wake((void*)id, 1000);
}
// ---- threads
inline void touch(Thr* t) {          // the kernel keeps the thread's context on its stack and in its control block
    if (t->stack) { volatile unsigned char* p = t->stack; p[t->stack_size - 1] = 0x5a; p[0] = 0x5a; }
    if (t->watch_id) {
        bool bad; { sim::Quiet z; bad = memcmp((const char*)t->id, "SIMK", 4) != 0; }
        if (bad) sim::fail("kernel-object", "%s: the control block of a live thread was overwritten or moved", t->kernel);
    }
}
inline void tramp(void* p) {
    Thr* t = (Thr*)p;
    touch(t);
    t->go(t);
    t->last_touch();
    sim::Quiet z;
    t->finished = true; K()->threads_live--; K()->by_tid.erase(t->tid);
    if (K()->coop == false) sim::set_cooperative(false);
    sim::k_release(t); sim::k_wake(t, 1000);
}
inline bool thread_create(const void* id, void (*go)(Thr*), void* entry, void* a, void* b, void* c, void* stack, size_t ss, const char* kernel, bool watch) {
    sim::point();
    Thr* t;
    { sim::Quiet z;
      if (sim::fault(sim::F_KERNEL_CREATE)) { K()->refused++; return false; }
      auto it = K()->thr.find(id);
      if (it != K()->thr.end() && !it->second->finished && !it->second->deleted) sim::fail("kernel-object", "%s: a thread is created in the control block of a live thread", kernel);
      t = new Thr{id, go, entry, a, b, c, (unsigned char*)stack, ss, -1, false, false, kernel, watch};
      K()->thr[id] = t; K()->created++; K()->threads_live++;
      if (watch) memcpy((void*)id, "SIMK", 4);
      t->tid = sim::k_spawn(tramp, t, kernel); K()->by_tid[t->tid] = t; }
    sim::point();
    return true;
}
inline Thr* thr_find(const void* id, const char* what, const char* kernel) {
    auto it = K()->thr.find(id);
    if (it == K()->thr.end() || it->second->deleted) sim::fail("kernel-object", "%s: %s a thread the kernel does not know at this address (never created here, deleted, or its control block was copied)", kernel, what);
    return it->second;
}
inline void thread_kill(Thr* t) { sim::k_acquire(t); if (!t->finished) { sim::k_kill(t->tid); t->finished = true; K()->threads_live--; K()->by_tid.erase(t->tid); } }
// FreeRTOS gives the stack of a task that deletes itself back to the heap: whatever lived there is overwritten
__attribute__((noinline, no_sanitize("thread"))) inline void stack_gone(Thr* t) {
    volatile unsigned char* lo = (unsigned char*)__builtin_frame_address(0) + 64;
    for (volatile unsigned char* p = lo; p < t->stack_top; p++) *p = 0xa5;
    sim::k_exit();
}
inline void forever() { sim::k_block((void*)&K(), 0); }     // the scheduler never returns to main()
inline void yield() { sim::k_yield(); }
inline void delay(uint64_t ns) { sim::sleep_ns(ns); }
inline void delay_ticks(uint64_t n) { sim::sleep_ns(n * tick_ns - sim::now_ns() % tick_ns); }
}  // namespace simk
