#pragma once
#include "FreeRTOS.h"
// Task handles stay valid until the task is deleted; the kernel owns stack and control block.
inline void simk_frt_go(simk::Thr* t) {
    t->stack_top = (unsigned char*)__builtin_frame_address(0);
    ((void (*)(void*))t->entry)(t->p1);
    sim::fail("kernel-object", "FreeRTOS: a task function returned instead of deleting its task");
}
inline BaseType_t xTaskCreate(void (*code)(void*), const char*, const uint32_t, void* const arg, UBaseType_t, TaskHandle_t* const h) {
    void* id; { sim::Quiet z; id = malloc(16); }
    if (!simk::thread_create(id, simk_frt_go, (void*)code, arg, nullptr, nullptr, nullptr, 0, "FreeRTOS", false)) return pdFAIL;
    if (h) *h = id;
    return pdPASS;
}
inline void vTaskDelete(TaskHandle_t h) {
    sim::point();
    simk::Thr* t;
    { sim::Quiet z;
      if (h) { t = simk::thr_find(h, "delete", "FreeRTOS"); t->deleted = true; simk::thread_kill(t); return; }
      auto it = simk::K()->by_tid.find(sim::tid()); if (it == simk::K()->by_tid.end()) sim::fail("kernel-object", "FreeRTOS: vTaskDelete(NULL) outside a task");
      t = it->second; t->finished = t->deleted = true; simk::K()->threads_live--; simk::K()->by_tid.erase(t->tid); }
    simk::stack_gone(t);
}
inline void vTaskDelay(const TickType_t n) { if (n) simk::delay_ticks(n); else simk::yield(); }
inline void taskYIELD() { simk::yield(); }
inline TickType_t xTaskGetTickCount() { return sim::now_ns() / configTICK_NS; }
inline void vTaskStartScheduler() { simk::forever(); }
