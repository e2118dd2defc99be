#pragma once
#include "simkernel.hpp"
#include <stdint.h>
typedef void* TaskHandle_t; typedef void* SemaphoreHandle_t;
typedef uint32_t TickType_t; typedef long BaseType_t; typedef unsigned long UBaseType_t;
#define pdPASS 1
#define pdFAIL 0
#define pdTRUE 1
#define pdFALSE 0
#define portMAX_DELAY 0xFFFFFFFFu
#define tskIDLE_PRIORITY 0
#define configTICK_NS simk::tick_ns
#define configTICK_RATE_HZ ((TickType_t)(1000000000ull / simk::tick_ns))
#define pdMS_TO_TICKS(ms) ((TickType_t)(((uint64_t)(ms) * configTICK_RATE_HZ) / 1000u))
#define portTICK_PERIOD_MS (1000 / configTICK_RATE_HZ)
