#pragma once
#include "FreeRTOS.h"
inline SemaphoreHandle_t xSemaphoreCreateBinary() {
    sim::point(); void* id;
    { sim::Quiet z; if (sim::fault(sim::F_KERNEL_SEM)) { simk::K()->refused++; return nullptr; } id = malloc(16); }
    simk::sem_create(id, 0, 1, "FreeRTOS"); return id;
}
inline BaseType_t xSemaphoreTake(SemaphoreHandle_t s, TickType_t t) { return simk::sem_take(s, t * configTICK_NS, t == portMAX_DELAY, "FreeRTOS") ? pdTRUE : pdFALSE; }
inline BaseType_t xSemaphoreGive(SemaphoreHandle_t s) { simk::sem_give(s, "FreeRTOS"); return pdTRUE; }
inline void vSemaphoreDelete(SemaphoreHandle_t s) { simk::sem_delete(s, "FreeRTOS"); }
