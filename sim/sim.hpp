// clersim: deterministic simulation runtime.  Public API used by the harnesses.
//
// Code under test (and the harness itself) is compiled with
//   clang++ -fsanitize=thread -femulated-tls
// and linked against libclersim.so *instead of* the ThreadSanitizer runtime.  Every memory access,
// atomic operation, lock, thread, clock, allocation and system call of the code under test thus
// reaches this runtime, which runs all threads as fibers of one OS thread and decides everything.
#pragma once
#include <cstdint>
#include <cstddef>
#include <string>
#include <vector>

#pragma GCC visibility push(default)
namespace sim {

enum Fault : uint8_t {
    F_NONE = 0,
    F_MEMFD, F_FTRUNCATE, F_MMAP, F_SHMOPEN, F_ALLOC, F_THREAD_CREATE, F_AFFINITY,
    F_CLOCK_JUMP, F_STALL, F_OVERSLEEP, F_SPURIOUS_WAKE, F_STALE_READ, F_CAS_SPURIOUS,
    F_OPEN, F_WRITE_SHORT, F_WRITE_ERR, F_DISK_FULL, F_READ_SHORT, F_READ_ERR, F_RENAME, F_UNLINK, F_FSYNC, F_CLOSE, F_SETVBUF,
    F_SOCKET, F_BIND, F_SETSOCKOPT, F_SEND_ERR, F_RECV_ERR, F_RECV_EINTR, F_RECV_TIMEOUT,
    F_NET_DROP, F_NET_DUP, F_NET_DELAY, F_NET_SHORT, F_NET_LONG, F_NET_EMPTY,
    F_DEV_ERR, F_DEV_SHORT, F_DEV_TIMEOUT, F_DEV_OVERFLOW, F_DEV_STALL,
    F_KERNEL_CREATE, F_KERNEL_SEM, F_CRASH, F_SOFT_ERR, F_FATAL_ERR, F_HUGEPAGE_REFUSED, F_SHUTDOWN_RACE,
    NFAULT
};
extern const char* const fault_names[NFAULT];

// ---- randomness: every decision is a numbered choice in a named stream; 0 is the simplest value.
uint32_t work(uint32_t n);                 // uniform workload choice in [0,n)
uint32_t cfg(uint32_t n);                  // uniform configuration (swarm) choice in [0,n)
uint32_t work_w(const uint32_t* w, uint32_t n);  // weighted workload choice
bool     cfg_bool();
inline uint32_t cfg_range(uint32_t lo, uint32_t hi) { return lo + cfg(hi - lo + 1); }
inline uint32_t work_range(uint32_t lo, uint32_t hi) { return lo + work(hi - lo + 1); }

// ---- faults
void set_rate(Fault f, uint32_t per_1024);  // probability of each opportunity (record mode)
bool fault(Fault f);                        // consults the rate and the choice stream
uint32_t fault_pick(Fault f, uint32_t n);   // sub-choice belonging to an injected fault
uint64_t fault_count(Fault f);

// ---- checks
[[noreturn]] void fail(const char* kind, const char* fmt, ...) __attribute__((format(printf, 2, 3)));
void note(const char* fmt, ...) __attribute__((format(printf, 1, 2)));   // trace line (replay only)
void probe(const char* name, uint64_t n = 1);                            // rare-condition counter
void sample(const char* fmt, ...) __attribute__((format(printf, 1, 2))); // description of this run
void nontrivial();                                                       // mark run as non-trivial

// Code inside the scope is harness book-keeping: no scheduling points, no race checks, no faults.
struct Quiet { Quiet(); ~Quiet(); Quiet(const Quiet&) = delete; Quiet& operator=(const Quiet&) = delete; };

// ---- time and threads
uint64_t now_ns();           // simulated monotonic time
int64_t  wall_offset_ns();
void     jump_wall(int64_t ns);
uint64_t steps();
int      tid();
void     point();            // explicit scheduling point
void     sleep_ns(uint64_t ns);   // harness sleep (exact, no overshoot)
void     block_until(bool (*pred)(void*), void* arg, uint64_t timeout_ns); // polls at exact 1us..1ms steps
void     set_step_limit(uint64_t steps, const char* kind);
uint64_t last_sleep_request_ns(int tid);
// called for every sleep requested by code under test: (tid, requested ns, absolute deadline?)
void     on_sleep(void (*cb)(int tid, uint64_t ns));
void     set_timer_slack(uint64_t ns);        // every sleep ends this much later (a coarse tick, a loaded machine)
void     set_tick(uint64_t ns);               // simulated time a plain memory access takes (a synchronising operation: 8 times that)
[[noreturn]] void finish();                   // the run ends here, well, whatever its threads are doing (programs that never end)
int      live_threads();
void     set_cooperative(bool on);    // RTOS kernels: no preemption except at blocking points / yields
void     set_no_preempt_plain(bool on);
void     set_weak(bool on);          // off: every atomic load sees the newest store
// Raw kernel primitives for simulated RTOS kernels
int      k_spawn(void (*fn)(void*), void* arg, const char* name);   // returns tid
void     k_join(int tid);
void     k_block(void* channel, uint64_t timeout_ns);  // wait until k_wake(channel)
bool     k_block_t(void* channel, uint64_t timeout_ns); // false on timeout
void     k_wake(void* channel, int n);
void     k_yield();
void     k_acquire(void* sync);      // happens-before edges
void     k_release(void* sync);
void     k_exit();                   // ends the calling fiber (not main)
void     k_kill(int tid);            // terminates another fiber

// ---- memory / resources made by code under test since the run began
int64_t  live_heap_blocks();
bool     heap_live(const void* p);           // not freed and not a red zone
int64_t  live_heap_bytes();
void     set_heap_limit(int64_t bytes);      // a run that holds more than this fails (kind "memory")
std::string live_heap_report();
int      live_fds();
int      live_maps();
std::string live_resources_report();
int      live_files();               // open FILE*/file descriptors of the simulated file system
void     set_page_size(size_t bytes);        // reported by sysconf(_SC_PAGESIZE)
void     set_huge_page(size_t bytes, bool reservable);
bool     is_mapped_alias(const void* p);

// ---- simulated file system
void        fs_put(const std::string& path, const std::string& data);
bool        fs_exists(const std::string& path);
std::string fs_get(const std::string& path);
std::vector<std::string> fs_list();
void        fs_disk_budget(int64_t bytes);   // <0: unlimited
void        fs_on_write(void (*cb)(const std::string& path));  // after each write that reached the file
// before a name disappears: ('u' unlink path, content) or ('r' rename from, to, content of from, content of to or null)
void        fs_on_event(void (*cb)(char what, const std::string& a, const std::string& b, const std::string& data, const std::string* over));
void        fs_capture_stdout(bool on);      // to the file "<stdout>", which meets no faults

// ---- simulated datagram network
struct Sent { std::string to; std::string data; };
void net_inject(const std::string& to, const std::string& data, uint64_t delay_ns);
size_t net_pending(const std::string& to);
std::vector<Sent>& net_sent();               // datagrams handed to sendto() successfully
uint64_t net_attempts();
int  net_bound(const std::string& to);       // number of sockets bound to that address
// record of every datagram consumed by a successful recv on addr (content, truncated?)
struct Recvd { std::string data; bool truncated; };
std::vector<Recvd>& net_recvd();
void net_close_on_idle(bool);                // blocked receive returns EAGAIN style timeouts only via SO_RCVTIMEO

// ---- programme
struct Scenario { const char* name; uint32_t weight; void (*run)(); };
int main(int argc, char** argv, const Scenario* sc, int n);
uint64_t run_index();
bool replaying();
bool verbose();

}  // namespace sim
#pragma GCC visibility pop
