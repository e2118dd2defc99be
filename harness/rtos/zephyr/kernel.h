#pragma once
#include "../simkernel.hpp"
#include <stdint.h>
struct k_thread { char magic[4]; unsigned char rest[60]; };
struct k_sem { char magic[4]; unsigned char rest[20]; };
typedef struct k_thread* k_tid_t;
typedef char k_thread_stack_t;
#define K_NO_WAIT 0
#define K_FOREVER (-1)
inline int k_sem_init(struct k_sem* s, unsigned c, unsigned lim) { sim::Quiet z; simk::K()->sems.erase(s); simk::K()->sems[s] = simk::Sem{s, (long)c, (long)lim, true, "Zephyr"}; return 0; }
inline int k_sem_take(struct k_sem* s, int64_t t) { return simk::sem_take(s, t < 0 ? 0 : t * 1000000ull, t == K_FOREVER, "Zephyr") ? 0 : -11; }
inline void k_sem_give(struct k_sem* s) {
    // see Kernel::atomic_exit
    { sim::Quiet z; auto it = simk::K()->by_tid.find(sim::tid()); if (simk::K()->atomic_exit && it != simk::K()->by_tid.end()) sim::set_cooperative(true); }
    simk::sem_give(s, "Zephyr");
}
inline void simk_z_go(simk::Thr* t) { ((void (*)(void*, void*, void*))t->entry)(t->p1, t->p2, t->p3); }
inline k_tid_t k_thread_create(struct k_thread* t, k_thread_stack_t* st, size_t ss, void (*e)(void*, void*, void*), void* a, void* b, void* c, int, uint32_t, int64_t) {
    simk::thread_create(t, simk_z_go, (void*)e, a, b, c, st, ss, "Zephyr", true); return t;
}
inline int k_thread_join(struct k_thread* t, int64_t) {
    simk::Thr* x; { sim::Quiet z; x = simk::thr_find(t, "join", "Zephyr"); }
    for (;;) { { sim::Quiet z; if (x->finished) { sim::k_acquire(x); return 0; } } sim::k_block(x, 0); }
}
inline void k_thread_abort(struct k_thread* t) { sim::point(); sim::Quiet z; simk::thread_kill(simk::thr_find(t, "abort", "Zephyr")); }
inline void k_yield() { simk::yield(); }
inline int32_t k_usleep(int32_t us) { simk::delay((uint64_t)us * 1000); return 0; }
inline int64_t k_uptime_get() { return sim::now_ns() / 1000000; }
