// C05: creating, using and destroying channels while system calls and allocations fail.
#include "sim.hpp"
#include "cler.hpp"
#include <thread>
#include <memory>
#include <new>
#include <vector>
#include <string>

using sim::Quiet;
static unsigned C(unsigned n) { Quiet z; return sim::cfg(n); }
static unsigned W(unsigned n) { Quiet z; return sim::work(n); }
template <size_t N> struct Blob { unsigned char b[N]; };

// An element that owns memory: constructing one may fail.
static int g_alive;
struct Own {
    uint64_t* p; uint64_t v = 0;
    Own() : p(new uint64_t(0)) { Quiet z; g_alive++; }
    Own(const Own& o) : p(new uint64_t(*o.p)), v(o.v) { Quiet z; g_alive++; }
    Own& operator=(const Own& o) { *p = *o.p; v = o.v; return *this; }
    ~Own() { delete p; p = nullptr; Quiet z; g_alive--; }
};
struct Thr {                       // throws from its constructor when told to
    static int left; uint64_t v; std::unique_ptr<int> own;
    static int booms; static bool boom() { Quiet z; if (left > 0 && --left == 0) { booms++; sim::probe("element-constructor-threw"); return true; } return false; }
    Thr() : v(0) { if (boom()) throw 42; own.reset(new int(1)); Quiet z; g_alive++; }
    Thr(Thr&& o) noexcept : v(o.v), own(std::move(o.own)) { Quiet z; g_alive++; } Thr& operator=(Thr&& o) noexcept { v = o.v; return *this; }
    Thr(const Thr&) = delete; Thr& operator=(const Thr& o) { v = o.v; return *this; }
    ~Thr() { Quiet z; g_alive--; }
};
int Thr::left = 0, Thr::booms = 0;

template <class T> static T enc(uint64_t i) { T t; memset((void*)&t, (int)(i * 7 + 1), sizeof t); uint64_t x = i; memcpy((void*)&t, &x, sizeof t < 8 ? sizeof t : 8); return t; }

static int g_made, g_threw;
// (huge pages being refused is no reason to do without the double mapping)
static uint64_t faults_so_far();
static bool g_untroubled() { Quiet z; return faults_so_far() == sim::fault_count(sim::F_HUGEPAGE_REFUSED); }
// The channel works as a channel: several laps with every operation, one thread.
template <class T> static void exercise(cler::Channel<T>& q, size_t want) {
    size_t cap = q._queue.capacity();
    if (cap < want) sim::fail("capacity", "channel of %zu created with capacity %zu", want, cap);
    bool dm = q._queue.is_doubly_mapped();
    if (!dm && want * sizeof(T) >= 4096 && g_untroubled()) sim::fail("no-window", "a channel of %zu %zu-byte elements has no contiguous windows although no system call failed", want, sizeof(T));
    { Quiet z; if (dm) sim::probe("channel-doubly-mapped"); else if (want * sizeof(T) >= 4096) sim::probe("channel-fell-back-to-heap"); }
    std::vector<T> buf;
    uint64_t w = 0, r = 0;
    unsigned rounds = 4 + W(8);
    for (unsigned k = 0; k < rounds; k++) {
        size_t room = cap - (size_t)(w - r);
        size_t n; { Quiet z; n = room ? 1 + sim::work((uint32_t)room) : 0; if (sim::work(2)) n = room; if (n > 3000) n = room; }
        switch (W(dm ? 4 : 3)) {
            case 0: { { Quiet z; buf.clear(); for (size_t i = 0; i < n; i++) buf.push_back(enc<T>(w + i)); } size_t d = q.writeN(buf.data(), n); if (d != n) sim::fail("refused", "writeN moved %zu of %zu into an idle channel with %zu free", d, n, room); w += n; break; }
            case 1: { if (n > 20) n = 20; for (size_t i = 0; i < n; i++) { T v = enc<T>(w + i); if (!q.try_push(v)) sim::fail("refused", "try_push failed with %zu free", room - i); } w += n; break; }
            case 2: { T *a, *b; size_t x, y; size_t t = q.peek_write(a, x, b, y); if (t != room) sim::fail("refused", "peek_write offers %zu of %zu", t, room); for (size_t i = 0; i < n; i++) (i < x ? a[i] : b[i - x]) = enc<T>(w + i); q.commit_write(n); w += n; break; }
            case 3: { auto p = q.write_dbf(); if (p.second != room) sim::fail("refused", "write_dbf offers %zu of %zu", p.second, room); for (size_t i = 0; i < n; i++) p.first[i] = enc<T>(w + i); q.commit_write(n); w += n; break; }
        }
        size_t have = (size_t)(w - r);
        size_t m; { Quiet z; m = have ? 1 + sim::work((uint32_t)have) : 0; if (sim::work(2) || m > 3000) m = have; }
        auto is = [&](const T& v, uint64_t i) { T e = enc<T>(i); if (memcmp(&e, &v, sizeof(T))) sim::fail("stream", "element %llu came out changed (capacity %zu, %zu-byte elements, %s)", (unsigned long long)i, cap, sizeof(T), dm ? "doubly mapped" : "heap"); };
        switch (W(dm ? 4 : 3)) {
            case 0: { { Quiet z; buf.assign(m, enc<T>(99)); } size_t d = q.readN(buf.data(), m); if (d != m) sim::fail("refused", "readN moved %zu of %zu", d, m); Quiet z; for (size_t i = 0; i < m; i++) is(buf[i], r + i); r += m; break; }
            case 1: { if (m > 20) m = 20; for (size_t i = 0; i < m; i++) { T v; if (!q.try_pop(v)) sim::fail("refused", "try_pop failed with %zu elements there", have - i); is(v, r + i); } r += m; break; }
            case 2: { const T *a, *b; size_t x, y; size_t t = q.peek_read(a, x, b, y); if (t != have) sim::fail("refused", "peek_read offers %zu of %zu", t, have); for (size_t i = 0; i < m; i++) is(i < x ? a[i] : b[i - x], r + i); q.commit_read(m); r += m; break; }
            case 3: { auto p = q.read_dbf(); if (p.second != have) sim::fail("refused", "read_dbf offers %zu of %zu", p.second, have); for (size_t i = 0; i < m; i++) is(p.first[i], r + i); q.commit_read(m); r += m; break; }
        }
        if (q.size() != w - r) sim::fail("occupancy", "size() is %zu with %llu elements inside", q.size(), (unsigned long long)(w - r));
    }
}

static uint64_t faults_so_far() { uint64_t n = 0; for (int k = 0; k < (int)sim::NFAULT; k++) n += sim::fault_count((sim::Fault)k); return n; }
static void threw(size_t want) { Quiet z; g_threw++; if (want < 100000 && !faults_so_far() && !Thr::booms) sim::fail("refused", "creating a channel failed although nothing else did"); sim::probe("creation-threw"); }
template <class T> static void one(size_t want) {
    try {
        auto q = std::make_unique<cler::Channel<T>>(want);
        { Quiet z; g_made++; }
        exercise<T>(*q, want);
    } catch (const std::exception&) { threw(want); }
}
template <class E> static void one_obj(size_t want) {
    try {
        dro::SPSCQueue<E> q(want);
        { Quiet z; g_made++; }
        if (q.capacity() < want) sim::fail("capacity", "queue of %zu created with capacity %zu", want, q.capacity());
        E e; uint64_t w = 0, r = 0;
        for (int i = 0; i < 30; i++) { e.v = w; if (q.try_push(e)) w++; if (W(2)) { if (q.try_pop(e)) { if (e.v != r) sim::fail("stream", "object %llu came out as %llu", (unsigned long long)r, (unsigned long long)e.v); r++; } } }
    } catch (const std::exception&) { threw(want); }
    catch (int) { threw(want); }
}
static void one_alloc() {            // the mapping object by itself: create, re-create, move
    using A = cler::vmem::DoublyMappedAllocation;
    A a; 
    for (int k = 0; k < 3; k++) {
        size_t sz = 1 + W(30000);
        bool ok = a.create(sz);
        if (ok != a.valid()) sim::fail("mapping", "create() says %d, valid() %d", ok, a.valid());
        if (!ok) { if (a.data() || a.second_mapping() || a.size()) sim::fail("mapping", "a failed mapping still hands out memory"); continue; }
        if (a.size() < sz) sim::fail("mapping", "mapping of %zu bytes has %zu", sz, a.size());
        char *p = (char*)a.data(), *s = (char*)a.second_mapping();
        if (s != p + a.size()) sim::fail("mapping", "the second mapping does not follow the first");
        size_t o = W((unsigned)a.size());
        p[o] = 'x'; if (s[o] != 'x') sim::fail("mapping", "the two mappings show different memory"); s[o] = 'y'; if (p[o] != 'y') sim::fail("mapping", "the two mappings show different memory");
        switch (W(3)) {
            case 0: { A b(std::move(a)); if (a.valid() || !b.valid() || ((char*)b.data())[o] != 'y') sim::fail("mapping", "moving lost the mapping"); if (W(2)) a = std::move(b); break; }
            case 1: { A b; if (W(2)) b.create(5000); b = std::move(a); if (a.valid() || !b.valid() || ((char*)b.data())[o] != 'y') sim::fail("mapping", "move assignment lost the mapping"); break; }
        }
    }
    Quiet z; g_made++;
}
static void worker(unsigned n) {
    for (unsigned k = 0; k < n; k++) {
        switch (W(14)) {
            case 0: one<uint32_t>(1024 + W(3000)); break;
            case 1: one<uint8_t>(4096 + W(9000)); break;
            case 2: one<Blob<12>>(400 + W(600)); break;
            case 3: one<Blob<2048>>(2 + W(6)); break;
            case 4: one<uint32_t>(1 + W(30)); break;
            case 5: one<uint64_t>(512); break;
            case 6: one_obj<Own>(1 + W(12)); break;
            case 7: one_obj<Own>(300 + W(30)); break;
            case 8: { if (W(2)) { Quiet z; Thr::left = 1 + sim::work(300); } one_obj<Thr>(W(2) ? 1 + W(20) : 260 + W(30)); Quiet z; Thr::left = 0; break; }
            case 9: one_alloc(); break;
            case 11: one<Blob<12>>(SIZE_MAX / 12 - 500 + W(1000)); break;      // cannot be satisfied: must throw
            case 12: one<uint32_t>(8192 * (1 + W(3)) - W(2) * (1 + W(2000))); break;        // around whole (small) huge pages
            case 13: one<Blob<4096>>(W(2) ? 8 * (1 + W(3)) : 512 * (1 + W(2)) - W(3)); break;
            case 10: one<Blob<24>>(200 + W(300)); break;
        }
    }
}
template <bool FAULTS> static void create() {
    unsigned nt;
    {
        Quiet z;
        nt = 1 + sim::cfg(FAULTS ? 3 : 4);
        static const size_t pg[2] = {4096, 16384}; sim::set_page_size(pg[sim::cfg(4) == 0]);
        static const size_t hp[3] = {0, 32768, 2u << 20}; sim::set_huge_page(hp[sim::cfg(3)], sim::cfg(2));
        if (FAULTS) {
            auto rate = [](sim::Fault f) { static const unsigned r[5] = {0, 0, 60, 300, 900}; sim::set_rate(f, r[sim::cfg(5)]); };
            rate(sim::F_MEMFD); rate(sim::F_FTRUNCATE); rate(sim::F_MMAP); rate(sim::F_SHMOPEN);
            static const unsigned ar[4] = {0, 0, 3, 60}; sim::set_rate(sim::F_ALLOC, ar[sim::cfg(4)]);
            if (sim::cfg(4) == 0) sim::set_rate(sim::F_CLOSE, 100);
            if (sim::cfg(4) == 0) sim::set_rate(sim::F_OPEN, 300);
            if (sim::cfg(4) == 0) sim::set_rate(sim::F_MEMFD, 1024);      // kernels without memfd_create
        }
        sim::sample("%u threads create channels%s", nt, FAULTS ? " while system calls and allocations fail" : "");
    }
    unsigned per = 1 + C(4);
    if (nt == 1) worker(per);
    else {
        std::vector<std::thread> t; { Quiet z; t.reserve(nt); }
        for (unsigned i = 0; i < nt; i++) { try { t.emplace_back(worker, per); } catch (const std::exception&) {} }
        for (auto& x : t) x.join();
    }
    Quiet z;
    std::string res = sim::live_resources_report();
    if (!res.empty()) sim::fail("leak", "left behind after all channels are gone:%s", res.c_str());
    if (sim::live_heap_blocks()) sim::fail("leak", "heap blocks left behind:%s", sim::live_heap_report().c_str());
    if (g_alive) sim::fail("leak", "%d elements were never destroyed", g_alive);
    if (FAULTS ? (g_threw || sim::fault_count(sim::F_MMAP) + sim::fault_count(sim::F_MEMFD) + sim::fault_count(sim::F_FTRUNCATE)) : nt > 1) sim::nontrivial();
}
static const sim::Scenario S[] = {{"create", 2, create<false>}, {"create_fault", 5, create<true>}};
int main(int c, char** v) { return sim::main(c, v, S, sizeof S / sizeof *S); }
