// C01 C02 C03 C04: one producer, one consumer (and observers) on the real channel code.
#include "sim.hpp"
#include "cler.hpp"
#include <thread>
#include <memory>
#include <string>

using sim::Quiet;
#define INL __attribute__((noinline))
#define RAW __attribute__((no_sanitize("thread")))

// ------------------------------------------------------------------ element types
template <size_t N> struct Blob { unsigned char b[N]; };
struct P12 { uint32_t a, b, c; };
struct Obj {                       // non-trivially copyable, owns memory, knows whether it is alive
    uint64_t tag; std::string s; Obj* self;
    Obj() : tag(0), self(this) {}
    Obj(const Obj& o) : tag(o.tag), s(o.s), self(this) { chk(o); }
    Obj(Obj&& o) noexcept : tag(o.tag), s(std::move(o.s)), self(this) { o.tag = 0; }
    Obj& operator=(const Obj& o) { chk(*this); chk(o); tag = o.tag; s = o.s; return *this; }
    Obj& operator=(Obj&& o) noexcept { chk(*this); chk(o); tag = o.tag; s = std::move(o.s); o.tag = 0; return *this; }
    ~Obj() { chk(*this); self = nullptr; }
    static void chk(const Obj& o) { if (o.self != &o) sim::fail("object-life", "an element object is used outside its lifetime or was moved bytewise"); }
};

template <class T> struct Enc {
    RAW static T make(uint64_t i) {
        T t; unsigned char* p = (unsigned char*)&t; uint64_t x = i * 131 + 7; const unsigned char y[3] = {(unsigned char)x, (unsigned char)(x >> 8), (unsigned char)(x >> 16)};
        for (size_t k = 0; k < sizeof(T); k++) p[k] = (unsigned char)(y[k % 3] ^ (k * 17));
        return t;
    }
    RAW static bool is(const T& t, uint64_t i) {
        const unsigned char* p = (const unsigned char*)&t; uint64_t x = i * 131 + 7; const unsigned char y[3] = {(unsigned char)x, (unsigned char)(x >> 8), (unsigned char)(x >> 16)};
        for (size_t k = 0; k < sizeof(T); k++) if (p[k] != (unsigned char)(y[k % 3] ^ (k * 17))) return false;
        return true;
    }
    static std::string show(const T& t) { char b[64]; uint64_t v = 0; memcpy(&v, &t, sizeof(T) < 8 ? sizeof(T) : 8); snprintf(b, 64, "0x%llx", (unsigned long long)v); return b; }
    RAW static T junk() { T t; memset(&t, 0xEE, sizeof(T)); return t; }
};
template <> struct Enc<uint8_t> {
    static uint8_t make(uint64_t i) { return (uint8_t)(i % 251); }
    static bool is(uint8_t t, uint64_t i) { return t == make(i); }
    static std::string show(uint8_t t) { return std::to_string(t); }
    static uint8_t junk() { return 0xEE; }
};
template <> struct Enc<uint32_t> {
    static uint32_t make(uint64_t i) { return 1000 + (uint32_t)i; }
    static bool is(uint32_t t, uint64_t i) { return t == make(i); }
    static std::string show(uint32_t t) { return "#" + std::to_string((long)t - 1000); }
    static uint32_t junk() { return 7; }
};
template <> struct Enc<Obj> {
    static Obj make(uint64_t i) { Obj o; o.tag = i + 1; o.s = "element payload that does not fit a small string #" + std::to_string(i); return o; }
    static bool is(const Obj& t, uint64_t i) { return t.tag == i + 1 && t.s == "element payload that does not fit a small string #" + std::to_string(i); }
    static std::string show(const Obj& t) { return "#" + std::to_string((long)t.tag - 1) + "/" + t.s; }
    static Obj junk() { return Obj(); }
};
using Uptr = std::unique_ptr<uint64_t>;
template <> struct Enc<Uptr> {
    static Uptr make(uint64_t i) { return std::make_unique<uint64_t>(i); }
    static bool is(const Uptr& t, uint64_t i) { return t && *t == i; }
    static std::string show(const Uptr& t) { return t ? "#" + std::to_string(*t) : "null"; }
    static Uptr junk() { return Uptr(); }
};

// ------------------------------------------------------------------ one run
enum Op { PUSH, TRY, BULK, PEEK, DBF, NOP };
struct Ctx {
    uint64_t total = 0;
    size_t cap = 0;
    bool exact = false;       // no stale reads: occupancy answers are compared with the truth
    bool dbf = false;
    unsigned pops = 0, cops = 0;   // enabled operations (swarm)
    unsigned maxchunk = 8;
    unsigned idle = 0;
    bool scribble = false;
    uint64_t origin = 0;      // elements that went through before the run
    // truth, kept in quiet sections
    uint64_t w_done = 0, w_max = 0, r_done = 0, r_max = 0;
    bool p_end = false, c_end = false;
    uint64_t r_base = 0;      // where the consumer's current window starts
    uint64_t r_origin() const { return r_base + origin; }
};

template <class T> constexpr bool triv = std::is_trivially_copyable_v<T>;

static void idle_wait(unsigned mode) {
    switch (mode) {
        case 0: std::this_thread::yield(); break;
        case 1: sim::point(); break;
        case 2: std::this_thread::sleep_for(std::chrono::microseconds(1)); break;
        default: break;
    }
}
static void ctxs(Ctx& c, const char* side) { (void)c; (void)side; }

template <class Q, class T> struct Run {
    Q& q; Ctx& c;
    size_t guaranteed_space() { uint64_t n = c.w_done - c.r_done; return n < c.cap ? c.cap - (size_t)n : 0; }
    size_t guaranteed_items() { return c.w_done > c.r_done ? (size_t)(c.w_done - c.r_done) : 0; }

    static constexpr bool has_bulk = triv<T>;
    static constexpr bool copyable = std::is_copy_assignable_v<T>;

    Op pick(unsigned mask) {
        Op o[5]; int n = 0;
        for (int k = 0; k < 5; k++) if (mask >> k & 1) o[n++] = (Op)k;
        return o[sim::work(n)];
    }
    void check_size(const char* who) {
        size_t s = q.size(), sp = q.space();
        Quiet z;
        if (s > c.cap) sim::fail("occupancy", "size() seen by the %s is %zu, above the capacity %zu", who, s, c.cap);
        if (sp > c.cap) sim::fail("occupancy", "space() seen by the %s is %zu, above the capacity %zu", who, sp, c.cap);
    }

    void producer() {
        uint64_t sent = 0;
        while (sent < c.total) {
            Op op; unsigned want; uint64_t left = c.total - sent; size_t g0; uint64_t w0;
            bool ask_space = false, query = false;
            {
                Quiet z;
                op = pick(c.pops);
                want = sim::work_range(1, c.maxchunk); if (want > left) want = (unsigned)left;
                query = sim::work(6) == 0; ask_space = query && sim::work(2);
            }
            if (query) check_size("producer");
            size_t promised = 0;
            if (ask_space) {
                size_t gs; { Quiet z; gs = guaranteed_space(); }
                promised = q.space();
                { Quiet z;
                  size_t up = c.cap - (size_t)(c.w_done - c.r_max);
                  if (promised > up) sim::fail("occupancy", "space() promised the producer %zu slots, only %zu can be free", promised, up);
                  if (c.exact && promised < gs) sim::fail("occupancy", "space() reported %zu while %zu slots were certainly free", promised, gs); }
                if (promised && (op == BULK) ) want = (unsigned)std::min<uint64_t>(promised, left);
            }
            { Quiet z; g0 = guaranteed_space(); w0 = c.w_done; }
            size_t did = 0;
            if (op == PUSH) {
                { Quiet z; c.w_max = w0 + 1; }
                if constexpr (copyable) {
                    bool mv; { Quiet z; mv = !std::is_arithmetic_v<T> && sim::work(2); }
                    if (mv) { T v = [&] { Quiet z; return Enc<T>::make(sent); }(); push_move(v); }
                    else { T v = [&] { Quiet z; return Enc<T>::make(sent); }(); q.push(v); }
                } else { T v = [&] { Quiet z; return Enc<T>::make(sent); }(); q.push(std::move(v)); }
                did = 1;
            } else if (op == TRY) {
                { Quiet z; c.w_max = w0 + 1; }
                T v = [&] { Quiet z; return Enc<T>::make(sent); }();
                bool ok;
                if constexpr (copyable) ok = q.try_push(v); else ok = q.try_push(std::move(v));
                did = ok;
                Quiet z;
                if (!ok && promised) sim::fail("overpromise", "space() answered %zu, then try_push() by the same thread failed", promised);
                if (!ok && c.exact && g0 > 0) sim::fail("refused", "try_push failed although %zu slots were free during the whole call", g0);
                if (!ok) sim::probe("full-try_push");
            } else if (op == BULK) {
                if constexpr (has_bulk) {
                    std::vector<T> buf; { Quiet z; for (unsigned k = 0; k < want; k++) buf.push_back(Enc<T>::make(sent + k)); c.w_max = w0 + want; }
                    did = q.writeN(buf.data(), want);
                    Quiet z;
                    if (did > want) sim::fail("overflow", "writeN moved %zu of %u", did, want);
                    if (promised && did < std::min<size_t>(want, promised)) sim::fail("overpromise", "space() answered %zu, then writeN(%u) moved only %zu", promised, want, did);
                    if (c.exact && did < std::min<size_t>(want, g0)) sim::fail("refused", "writeN(%u) moved %zu although %zu slots were free during the whole call", want, did, g0);
                    size_t up = c.cap - (size_t)(w0 - c.r_max);
                    if (did > up) sim::fail("overrun", "writeN moved %zu with at most %zu slots free", did, up);
                    if (did < want) sim::probe("short-writeN");
                }
            } else {
                T *p1 = nullptr, *p2 = nullptr; size_t s1 = 0, s2 = 0, n = 0;
                if (op == PEEK) n = q.peek_write(p1, s1, p2, s2);
                else { if constexpr (requires_dbf()) { auto pr = q.write_dbf(); p1 = pr.first; s1 = n = pr.second; } }
                {
                    Quiet z;
                    if (s1 + s2 != n) sim::fail("window", "write window sizes %zu+%zu do not add up to %zu", s1, s2, n);
                    size_t up = c.cap - (size_t)(w0 - c.r_max);
                    if (n > up) sim::fail("overrun", "write window of %zu with at most %zu slots free", n, up);
                    if (c.exact && n < g0) sim::fail("refused", "write window of %zu although %zu slots were free during the whole call", n, g0);
                    if (promised && n < promised) sim::fail("overpromise", "space() answered %zu, then the write window has %zu", promised, n);
                    if (s2) sim::probe("split-write-window");
                    if (op == DBF && n && (!sim::is_mapped_alias(p1) || !sim::is_mapped_alias((char*)(p1 + n) - 1))) sim::fail("window", "the write window of %zu elements is not inside the channel's mapping", n);
                    if (op == DBF && n && (size_t)(((w0 + c.origin) % (c.cap + 1)) + n) > c.cap + 1) sim::probe("dbf-write-window-across-end");
                }
                if (n) {
                    size_t k; unsigned parts; bool scrib;
                    { Quiet z; k = 1 + sim::work((uint32_t)std::min<uint64_t>(n, left)); if (sim::work(3) == 0) k = std::min<uint64_t>(n, left); parts = 1 + sim::work(3); scrib = c.scribble && sim::work(4) == 0; c.w_max = w0 + k; }
                    auto at = [&](size_t i) -> T& { return i < s1 ? p1[i] : p2[i - s1]; };
                    if (scrib) for (size_t i = 0; i < n; i++) at(i) = [&] { Quiet z; return Enc<T>::junk(); }();
                    size_t off = 0;
                    for (unsigned p = 0; p < parts && off < k; p++) {
                        size_t step = p + 1 == parts ? k - off : std::max<size_t>(1, (k - off) / 2);
                        for (size_t i = off; i < off + step; i++) at(i) = [&] { Quiet z; return Enc<T>::make(sent + i); }();
                        q.commit_write(step);
                        off += step;
                        Quiet z; c.w_done = w0 + off;
                    }
                    did = k;
                }
            }
            {
                Quiet z;
                sent += did; c.w_done = w0 + did; c.w_max = c.w_done;
                if (sim::verbose()) sim::note("producer op %d moved %zu -> %llu", op, did, (unsigned long long)sent);
            }
            if (!did) idle_wait(c.idle);
        }
        Quiet z; c.p_end = true;
    }
    template <class V> void push_move(V& v) {
        q.push(std::move(v));
    }
    static constexpr bool requires_dbf() { return std::is_base_of_v<cler::ChannelBase<T>, Q>; }

    void expect(const T& v, uint64_t i, const char* how) {
        Quiet z;
        if (!Enc<T>::is(v, i)) {
            long j = -1; for (uint64_t k = 0; k < c.total; k++) if (Enc<T>::is(v, k)) { j = (long)k; if (k >= i) break; }
            sim::fail("stream", "%s: position %llu of the stream holds %s%s%s (capacity %zu)", how, (unsigned long long)i, Enc<T>::show(v).c_str(),
                      j >= 0 ? ", which is element " : ", which is no element of the stream", j >= 0 ? std::to_string(j).c_str() : "", c.cap);
        }
    }
    void consumer() {
        uint64_t got = 0;
        while (got < c.total) {
            Op op; unsigned want; size_t g0; uint64_t r0; bool query, ask; bool p_end;
            {
                Quiet z;
                op = pick(c.cops); want = sim::work_range(1, c.maxchunk); query = sim::work(6) == 0; ask = query && sim::work(2);
            }
            if (query) check_size("consumer");
            size_t promised = 0;
            if (ask) {
                size_t gi; { Quiet z; gi = guaranteed_items(); }
                promised = q.size();
                { Quiet z;
                  size_t up = (size_t)(c.w_max - c.r_done);
                  if (promised > up) sim::fail("occupancy", "size() promised the consumer %zu elements, only %zu can be there", promised, up);
                  if (c.exact && promised < gi) sim::fail("occupancy", "size() reported %zu while %zu elements were certainly there", promised, gi); }
                if (promised && op == BULK) want = (unsigned)promised;
            }
            { Quiet z; g0 = guaranteed_items(); r0 = c.r_done; p_end = c.p_end; (void)p_end; }
            size_t did = 0;
            if (op == PUSH) {
                { Quiet z; c.r_max = r0 + 1; }
                T v = [&] { Quiet z; return Enc<T>::junk(); }();
                q.pop(v); did = 1; expect(v, got, "pop");
            } else if (op == TRY) {
                { Quiet z; c.r_max = r0 + 1; }
                T v = [&] { Quiet z; return Enc<T>::junk(); }();
                bool ok = q.try_pop(v); did = ok;
                if (ok) expect(v, got, "try_pop");
                Quiet z;
                if (!ok && promised) sim::fail("overpromise", "size() answered %zu, then try_pop() by the same thread failed", promised);
                if (!ok && c.exact && g0 > 0) sim::fail("refused", "try_pop failed although %zu elements were there during the whole call", g0);
                if (!ok) sim::probe("empty-try_pop");
            } else if (op == BULK) {
                if constexpr (has_bulk) {
                    std::vector<T> buf; { Quiet z; buf.assign(want, Enc<T>::junk()); c.r_max = r0 + want; }
                    did = q.readN(buf.data(), want);
                    Quiet z;
                    if (did > want) sim::fail("overflow", "readN moved %zu of %u", did, want);
                    if (promised && did < std::min<size_t>(want, promised)) sim::fail("overpromise", "size() answered %zu, then readN(%u) moved only %zu", promised, want, did);
                    if (c.exact && did < std::min<size_t>(want, g0)) sim::fail("refused", "readN(%u) moved %zu although %zu elements were there during the whole call", want, did, g0);
                    if (r0 + did > c.w_max) sim::fail("underrun", "readN returned %zu elements, only %llu can be there", did, (unsigned long long)(c.w_max - r0));
                    for (size_t k = 0; k < did; k++) expect(buf[k], got + k, "readN");
                    if (did < want) sim::probe("short-readN");
                }
            } else {
                const T *p1 = nullptr, *p2 = nullptr; size_t s1 = 0, s2 = 0, n = 0;
                if (op == PEEK) n = q.peek_read(p1, s1, p2, s2);
                else { if constexpr (requires_dbf()) { auto pr = q.read_dbf(); p1 = pr.first; s1 = n = pr.second; } }
                {
                    Quiet z;
                    if (s1 + s2 != n) sim::fail("window", "read window sizes %zu+%zu do not add up to %zu", s1, s2, n);
                    if (r0 + n > c.w_max) sim::fail("underrun", "read window of %zu elements, only %llu can be there", n, (unsigned long long)(c.w_max - r0));
                    if (c.exact && n < g0) sim::fail("refused", "read window of %zu although %zu elements were there during the whole call", n, g0);
                    if (promised && n < promised) sim::fail("overpromise", "size() answered %zu, then the read window has %zu", promised, n);
                    c.r_base = r0;
                    if (s2) sim::probe("split-read-window");
                    if (op == DBF && n && sim::is_mapped_alias(p1) && !sim::is_mapped_alias((const char*)(p1 + n) - 1)) sim::fail("window", "the read window of %zu elements ends outside the channel's mapping", n);
                    if (op == DBF && n && (size_t)(((r0 + c.origin) % (c.cap + 1)) + n) > c.cap + 1) sim::probe("dbf-read-window-across-end");
                }
                if (n) {
                    size_t k; unsigned parts;
                    { Quiet z; k = 1 + sim::work((uint32_t)n); if (sim::work(3) == 0) k = n; if (sim::work(12) == 0) k = 0; parts = 1 + sim::work(3); c.r_max = r0 + k; }
                    auto at = [&](size_t i) -> const T& { return i < s1 ? p1[i] : p2[i - s1]; };
                    // the whole window must hold the stream, also the part left for later
                    touch_all(at, 0, n, got, s1, op == DBF ? "read_dbf" : "peek_read");
                    size_t off = 0;
                    for (unsigned p = 0; p < parts && off < k; p++) {
                        size_t step = p + 1 == parts ? k - off : std::max<size_t>(1, (k - off) / 2);
                        q.commit_read(step); off += step;
                        { Quiet z; c.r_done = r0 + off; }
                        touch_all(at, off, n, got, s1, "window after a partial commit");
                    }
                    did = k;
                }
            }
            {
                Quiet z;
                got += did; c.r_done = r0 + did; c.r_max = c.r_done;
                if (sim::verbose()) sim::note("consumer op %d moved %zu -> %llu", op, did, (unsigned long long)got);
            }
            if (!did) idle_wait(c.idle);
        }
        Quiet z; c.c_end = true;
    }
    // whole windows up to 96 elements; of longer ones both ends and the surroundings of the ring's end
    template <class At> void touch_all(At& at, size_t from, size_t n, uint64_t got, size_t s1, const char* how) {
        size_t seam = c.dbf ? (size_t)(c.cap + 1 - (c.r_origin() % (c.cap + 1))) : s1;
        for (size_t i = from; i < n; i++) {
            if (n - from > 96 && i > from + 24 && i + 24 < n && !(i + 12 > seam && i < seam + 12)) continue;
            touch(at(i), got + i, how);
        }
    }
    INL void touch(const T& v, uint64_t i, const char* how) {
        if constexpr (std::is_trivially_copyable_v<T>) { T copy; memcpy(&copy, &v, sizeof(T)); expect(copy, i, how); }
        else if constexpr (std::is_copy_constructible_v<T>) { T copy(v); expect(copy, i, how); }
    }
    void observer() {
        for (;;) {
            check_size("observer");
            { Quiet z; if (c.p_end && c.c_end) return; }
            std::this_thread::yield();
        }
    }
};

template <class Q, class T> static void drive(Q& q, size_t cap, bool exact, bool dbf, bool obs, bool move_only = false, bool geom = false) {
    Ctx c;
    {
        Quiet z;
        c.exact = exact; c.dbf = dbf; c.cap = cap;
        unsigned all = (1u << PUSH) | (1u << TRY);
        if (triv<T>) all |= 1u << BULK;
        if (!move_only) all |= 1u << PEEK;
        if (dbf) all |= 1u << DBF;
        auto sub = [&]() -> unsigned {
            unsigned m = 0;
            for (int k = 0; k < 5; k++) if ((all >> k & 1) && sim::cfg(3)) m |= 1u << k;
            if (dbf && sim::cfg(2)) m |= 1u << DBF;
            return m ? m : all;
        };
        c.pops = sub(); c.cops = sub();
        static const unsigned mc[6] = {1, 3, 4, 8, 12, 40};
        c.maxchunk = mc[sim::cfg(6)];
        if (sim::cfg(4) == 0) c.maxchunk = (unsigned)cap + 2;
        c.total = cap * sim::cfg_range(1, 8) + sim::cfg(20) + 5; if (c.total > 400) c.total = 200 + sim::cfg(200);
        if (geom) {
            c.pops |= 1u << DBF; c.cops |= 1u << DBF;
            if (sim::cfg(4) == 0) c.pops = 1u << DBF;
            if (sim::cfg(4) == 0) c.cops = 1u << DBF;
            c.maxchunk = 1 + sim::cfg(sizeof(T) > 1000 ? 4 : 64);
            c.total = sizeof(T) > 1000 ? 40 + sim::cfg(60) : 100 + sim::cfg(300);
            c.origin = sim::cfg(3) == 0 ? 0 : cap + 1 - sim::cfg((uint32_t)std::min<size_t>(cap + 1, 64));
        }
        c.idle = sim::cfg(3);
        c.scribble = sim::cfg(2);
        if (exact) sim::set_weak(false);
        sim::set_rate(sim::F_STALL, sim::cfg(3) == 0 ? 2 : 0);
        sim::sample("capacity %zu, %zu-byte elements, %llu elements, producer ops %x, consumer ops %x, chunk <=%u, idle %u%s", cap, sizeof(T), (unsigned long long)c.total, c.pops, c.cops, c.maxchunk, c.idle, obs ? ", observer" : "");
    }
    Run<Q, T> r{q, c};
    if (q.size() != 0 || q.space() != cap) sim::fail("occupancy", "a new channel of capacity %zu reports size %zu, space %zu", cap, q.size(), q.space());
    if constexpr (std::is_base_of_v<cler::ChannelBase<T>, Q>) if (c.origin) {   // move both indices close to the end of the ring
        std::vector<T> b; { Quiet z; b.assign(std::min<uint64_t>(c.origin, 4096), Enc<T>::junk()); }
        for (uint64_t n = 0; n < c.origin;) {
            size_t k = std::min<uint64_t>({b.size(), c.origin - n, cap});
            if (q.writeN(b.data(), k) != k || q.readN(b.data(), k) != k) sim::fail("refused", "an idle channel of capacity %zu refused %zu elements", cap, k);
            n += k;
        }
    }
    {
        std::thread p([&] { r.producer(); });
        std::thread k([&] { r.consumer(); });
        if (obs) { std::thread o([&] { r.observer(); }); o.join(); }
        p.join(); k.join();
    }
    if (q.size() != 0 || q.space() != cap) sim::fail("occupancy", "the drained channel reports size %zu, space %zu, capacity %zu", q.size(), q.space(), cap);
    // quiescent bookkeeping: size + space == capacity at every fill level
    if constexpr (std::is_copy_assignable_v<T>) {
        if (cap <= 24) {
            T v = [&] { Quiet z; return Enc<T>::make(3); }();
            for (size_t i = 1; i <= cap; i++) { if (!q.try_push(v)) sim::fail("refused", "try_push %zu of %zu on an idle channel failed", i, cap); if (q.size() != i || q.space() != cap - i) sim::fail("occupancy", "after %zu pushes: size %zu space %zu capacity %zu", i, q.size(), q.space(), cap); }
            if (q.try_push(v)) sim::fail("overrun", "an idle channel took more than its capacity %zu", cap);
            for (size_t i = cap; i-- > 0;) { if (!q.try_pop(v)) sim::fail("refused", "try_pop on an idle channel holding %zu failed", i + 1); if (q.size() != i || q.space() != cap - i) sim::fail("occupancy", "after popping to %zu: size %zu space %zu", i, q.size(), q.space()); }
            if (q.try_pop(v)) sim::fail("underrun", "an empty channel gave an element");
        }
    }
    Quiet z;
    if (c.total > cap || c.origin + c.total > cap) sim::nontrivial();
}

template <class T, size_t N> static void stack_case(bool exact, bool obs) {
    auto q = std::make_unique<cler::Channel<T, N>>();
    if (q->_queue.capacity() < N) sim::fail("capacity", "stack channel of %zu has capacity %zu", N, q->_queue.capacity());
    drive<cler::Channel<T, N>, T>(*q, q->_queue.capacity(), exact, false, obs);
}
template <class T> static void heap_case(bool exact, bool obs, size_t want) {
    auto q = std::make_unique<cler::Channel<T>>(want);
    if (q->_queue.capacity() < want) sim::fail("capacity", "heap channel of %zu has capacity %zu", want, q->_queue.capacity());
    bool d = q->_queue.is_doubly_mapped();
    if (d) sim::probe("doubly-mapped-channel");
    drive<cler::Channel<T>, T>(*q, q->_queue.capacity(), exact, d, obs);
}
template <class T, class Q, class... A> static void raw_case(bool obs, bool move_only, A... a) {
    auto q = std::make_unique<Q>(a...);
    if (!q->empty()) sim::fail("occupancy", "a new queue is not empty()");
    drive<Q, T>(*q, q->capacity(), false, false, obs, move_only);
    if (!q->empty()) sim::fail("occupancy", "a drained queue is not empty()");
}
[[maybe_unused]] static unsigned C(unsigned n) { Quiet z; return sim::cfg(n); }

// The cases are compiled in parts (-DPART=n), in parallel.
template <bool EXACT> void chan_stack();
template <bool EXACT> void chan_heap();
template <bool EXACT> void chan_dbf();
template <class T> void geom_case(bool obs, size_t page);
void chan_obj();

#if PART == 1
template <bool EXACT> void chan_stack() {
    bool obs = C(3) == 0;
    switch (C(9)) {
        case 0: stack_case<uint32_t, 1>(EXACT, obs); break;
        case 1: stack_case<uint32_t, 2>(EXACT, obs); break;
        case 2: stack_case<uint32_t, 3>(EXACT, obs); break;
        case 3: stack_case<uint32_t, 16>(EXACT, obs); break;
        case 4: stack_case<uint8_t, 7>(EXACT, obs); break;
        case 5: stack_case<P12, 5>(EXACT, obs); break;
        case 6: stack_case<uint64_t, 4>(EXACT, obs); break;
        case 7: stack_case<uint16_t, 3>(EXACT, obs); break;
        case 8: stack_case<Blob<40>, 2>(EXACT, obs); break;
    }
}
template void chan_stack<false>(); template void chan_stack<true>();
#endif
#if PART == 2
template <bool EXACT> void chan_heap() {
    bool obs = C(3) == 0; size_t cap = 1 + C(20); if (C(3) == 0) cap = 1 + C(3);
    switch (C(6)) {
        case 0: case 1: heap_case<uint32_t>(EXACT, obs, cap); break;
        case 2: heap_case<uint8_t>(EXACT, obs, cap); break;
        case 3: heap_case<P12>(EXACT, obs, cap); break;
        case 4: heap_case<uint64_t>(EXACT, obs, cap); break;
        case 5: heap_case<Blob<24>>(EXACT, obs, cap); break;
    }
}
template void chan_heap<false>(); template void chan_heap<true>();
#endif
#if PART == 3
template <bool EXACT> void chan_dbf() {
    bool obs = C(4) == 0;
    size_t pages = 1 + C(2);
    switch (C(5)) {
        case 0: heap_case<Blob<2048>>(EXACT, obs, pages * 2 - 1); break;
        case 1: heap_case<Blob<1024>>(EXACT, obs, pages * 4 - 1); break;
        case 2: heap_case<Blob<512>>(EXACT, obs, pages * 8 - 1 - C(3)); break;
        case 3: heap_case<Blob<256>>(EXACT, obs, pages * 16 - 1 - C(5)); break;
        case 4: heap_case<Blob<4096>>(EXACT, obs, 1 + C(3)); break;
    }
}
template void chan_dbf<false>(); template void chan_dbf<true>();
#endif
#if PART >= 4 && PART <= 6
template <class T> void geom_case(bool obs, size_t page) {
    size_t min = 4096 / sizeof(T) + 1;
    size_t want = min;
    switch (C(5)) {
        case 0: want = 1 + C(40); break;                                             // possibly below the limit of double mapping
        case 1: want = page / sizeof(T) * (1 + C(2)); if (want) want--; if (!want) want = 1; break;                    // exactly whole pages
        case 2: want = std::max<size_t>(1, page / sizeof(T) * (1 + C(2))); break;
        default: want = min + C((uint32_t)(2 * page / sizeof(T)) + 1);
    }
    auto q = std::make_unique<cler::Channel<T>>(want);
    size_t cap = q->_queue.capacity();
    if (cap < want) sim::fail("capacity", "heap channel of %zu has capacity %zu", want, cap);
    bool d = q->_queue.is_doubly_mapped();
    if (d) { Quiet z; sim::probe("doubly-mapped-channel"); if ((cap + 1) * sizeof(T) % page) sim::probe("ring-not-whole-pages"); }
    else { Quiet z; if ((cap + 1) * sizeof(T) >= page) sim::probe("big-channel-on-heap"); }
    drive<cler::Channel<T>, T>(*q, cap, false, d, obs, false, d);
}
#if PART == 4
template void geom_case<uint8_t>(bool, size_t); template void geom_case<uint32_t>(bool, size_t); template void geom_case<Blob<16>>(bool, size_t); template void geom_case<Blob<100>>(bool, size_t); template void geom_case<Blob<1500>>(bool, size_t);
#endif
#if PART == 5
template void geom_case<uint16_t>(bool, size_t); template void geom_case<uint64_t>(bool, size_t); template void geom_case<Blob<24>>(bool, size_t); template void geom_case<Blob<768>>(bool, size_t); template void geom_case<Blob<4096>>(bool, size_t);
#endif
#if PART == 6
template void geom_case<Blob<3>>(bool, size_t); template void geom_case<P12>(bool, size_t); template void geom_case<Blob<40>>(bool, size_t); template void geom_case<Blob<1024>>(bool, size_t); template void geom_case<Blob<12288>>(bool, size_t);
#endif
#endif
#if PART == 7
void chan_obj() {
    bool obs = C(4) == 0;
    switch (C(5)) {
        case 0: raw_case<Obj, dro::SPSCQueue<Obj, 1>>(obs, false); break;
        case 1: raw_case<Obj, dro::SPSCQueue<Obj, 4>>(obs, false); break;
        case 2: raw_case<Obj, dro::SPSCQueue<Obj>>(obs, false, 1 + C(8)); break;
        case 3: raw_case<Uptr, dro::SPSCQueue<Uptr>>(obs, true, 1 + C(6)); break;
        case 4: raw_case<Uptr, dro::SPSCQueue<Uptr, 3>>(obs, true); break;
    }
    Quiet z;
    if (sim::live_heap_blocks()) sim::fail("leak", "elements or buffers still allocated after the channel is gone:%s", sim::live_heap_report().c_str());
}

#endif
#if PART == 0
static void chan_geom() {
    bool obs = C(6) == 0; size_t page, huge;
    {
        Quiet z;
        static const size_t pg[3] = {4096, 16384, 65536};
        page = pg[sim::cfg(5) < 3 ? 0 : 1 + sim::cfg(2)];
        sim::set_page_size(page);
        static const size_t hp[4] = {0, 32768, 65536, 2u << 20};
        huge = hp[sim::cfg(4)]; if (huge && huge < page * 2) huge = page * 2;
        sim::set_huge_page(huge, sim::cfg(2));
        if (sim::cfg(6) == 0) sim::set_rate(sim::F_MEMFD, 400);
    }
    switch (C(15)) {
        case 0: geom_case<uint8_t>(obs, page); break;
        case 1: geom_case<uint16_t>(obs, page); break;
        case 2: geom_case<Blob<3>>(obs, page); break;
        case 3: geom_case<uint32_t>(obs, page); break;
        case 4: geom_case<uint64_t>(obs, page); break;
        case 5: geom_case<P12>(obs, page); break;
        case 6: geom_case<Blob<16>>(obs, page); break;
        case 7: geom_case<Blob<24>>(obs, page); break;
        case 8: geom_case<Blob<40>>(obs, page); break;
        case 9: geom_case<Blob<100>>(obs, page); break;
        case 10: geom_case<Blob<768>>(obs, page); break;
        case 11: geom_case<Blob<1024>>(obs, page); break;
        case 12: geom_case<Blob<1500>>(obs, page); break;
        case 13: geom_case<Blob<4096>>(obs, page); break;
        case 14: geom_case<Blob<12288>>(obs, page); break;
    }
}
static const sim::Scenario S[] = {
    {"stack", 4, chan_stack<false>}, {"heap", 4, chan_heap<false>}, {"dbf", 4, chan_dbf<false>}, {"obj", 3, chan_obj}, {"geom", 4, chan_geom},
    {"stack_exact", 4, chan_stack<true>}, {"heap_exact", 4, chan_heap<true>}, {"dbf_exact", 3, chan_dbf<true>},
};
int main(int c, char** v) { return sim::main(c, v, S, sizeof S / sizeof *S); }
#endif
