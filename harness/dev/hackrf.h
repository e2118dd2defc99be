// Stand-in for libhackrf's header: the part the blocks use.  Implemented in harness/dev.cpp.
#pragma once
#include <stdint.h>
#define HACKRF_SUCCESS 0
extern "C" {
struct hackrf_device;
typedef struct { hackrf_device* device; uint8_t* buffer; int buffer_length; int valid_length; void* rx_ctx; void* tx_ctx; } hackrf_transfer;
typedef int (*hackrf_sample_block_cb_fn)(hackrf_transfer*);
int hackrf_init(); int hackrf_exit(); int hackrf_open(hackrf_device**); int hackrf_close(hackrf_device*);
int hackrf_set_freq(hackrf_device*, uint64_t); int hackrf_set_sample_rate(hackrf_device*, double);
int hackrf_set_lna_gain(hackrf_device*, uint32_t); int hackrf_set_vga_gain(hackrf_device*, uint32_t); int hackrf_set_txvga_gain(hackrf_device*, uint32_t);
int hackrf_set_amp_enable(hackrf_device*, uint8_t);
int hackrf_start_rx(hackrf_device*, hackrf_sample_block_cb_fn, void*); int hackrf_stop_rx(hackrf_device*);
int hackrf_start_tx(hackrf_device*, hackrf_sample_block_cb_fn, void*); int hackrf_stop_tx(hackrf_device*);
}
