#pragma once
#include "simkernel.hpp"
typedef unsigned long ULONG; typedef unsigned char UCHAR; typedef unsigned int UINT; typedef char CHAR; typedef void VOID;
#define TX_SUCCESS 0
#define TX_SEMAPHORE_ERROR 0x0C
#define TX_NO_INSTANCE 0x0D
#define TX_THREAD_ERROR 0x0E
#define TX_SIZE_ERROR 0x05
#define TX_DELETE_ERROR 0x11
#define TX_AUTO_START 1
#define TX_DONT_START 0
#define TX_NO_TIME_SLICE 0
#define TX_WAIT_FOREVER 0xFFFFFFFFul
#define TX_NO_WAIT 0
// The application owns the control blocks; the kernel knows them by address.
typedef struct TX_THREAD_STRUCT { char magic[4]; unsigned char rest[60]; } TX_THREAD;
typedef struct TX_SEMAPHORE_STRUCT { char magic[4]; unsigned char rest[28]; } TX_SEMAPHORE;
inline UINT tx_semaphore_create(TX_SEMAPHORE* s, char*, ULONG c) {
    sim::point();
    { sim::Quiet z; if (sim::fault(sim::F_KERNEL_SEM)) { simk::K()->refused++; return TX_SEMAPHORE_ERROR; } }
    simk::sem_create(s, (long)c, 0x7fffffff, "ThreadX"); return TX_SUCCESS;
}
inline UINT tx_semaphore_get(TX_SEMAPHORE* s, ULONG w) { return simk::sem_take(s, w * simk::tick_ns, w == TX_WAIT_FOREVER, "ThreadX") ? TX_SUCCESS : TX_NO_INSTANCE; }
inline UINT tx_semaphore_put(TX_SEMAPHORE* s) { simk::sem_give(s, "ThreadX"); return TX_SUCCESS; }
inline UINT tx_semaphore_delete(TX_SEMAPHORE* s) { simk::sem_delete(s, "ThreadX"); return TX_SUCCESS; }
inline void simk_tx_go(simk::Thr* t) { ((void (*)(ULONG))t->entry)((ULONG)t->p1); }
inline UINT tx_thread_create(TX_THREAD* t, char*, void (*entry)(ULONG), ULONG in, void* stack, ULONG ss, UINT, UINT, ULONG, UINT) {
    return simk::thread_create(t, simk_tx_go, (void*)entry, (void*)in, nullptr, nullptr, stack, ss, "ThreadX", true) ? TX_SUCCESS : TX_SIZE_ERROR;
}
inline UINT tx_thread_terminate(TX_THREAD* t) { sim::point(); sim::Quiet z; simk::thread_kill(simk::thr_find(t, "terminate", "ThreadX")); return TX_SUCCESS; }
inline UINT tx_thread_delete(TX_THREAD* t) {
    sim::point(); sim::Quiet z; auto* x = simk::thr_find(t, "delete", "ThreadX");
    if (!x->finished) return TX_DELETE_ERROR;
    x->deleted = true; return TX_SUCCESS;
}
inline void tx_thread_relinquish() { simk::yield(); }
#define TX_TIMER_TICKS_PER_SECOND ((ULONG)(1000000000ull / simk::tick_ns))
inline UINT tx_thread_sleep(ULONG n) { if (n) simk::delay_ticks(n); return TX_SUCCESS; }
inline ULONG tx_time_get() { return sim::now_ns() / simk::tick_ns; }
extern "C" void tx_application_define(void* first_unused_memory);
inline void tx_kernel_enter() { static unsigned char pool[64]; tx_application_define(pool); simk::forever(); }
