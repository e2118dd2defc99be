// C17: datagram source and sink.  C18: pooled packet buffers.
#include "common.hpp"
#include <chrono>
#include "desktop_blocks/udp/source_udp.hpp"
#include "desktop_blocks/udp/sink_udp.hpp"
using UDPBlock::SocketType;

struct Pkt { uint32_t id; uint8_t body[20]; };
// datagram number -> bytes; the first four bytes are the number
NOTSAN static std::string dgram(uint32_t id, size_t len) {
    std::string s(len, '\0');
    for (size_t i = 0; i < len; i++) s[i] = (char)(i < 4 ? id >> (8 * i) : id * 31 + i * 7 + (i >> 6));
    return s;
}
static bool bad_verdict(const uint8_t* p, size_t n) { unsigned h = 0; for (size_t i = 0; i < n && i < 8; i++) h = h * 33 + p[i]; return h % 5 == 0; }
struct Addr { SocketType t; const char* bind; const char* dest; const char* key; const char* sent; };
static const Addr addrs[3] = {
    {SocketType::INET_UDP, "0.0.0.0:5000", "127.0.0.1:5000", "4:5000", "4:127.0.0.1:5000"},
    {SocketType::INET6_UDP, ":::5000", "::1:5000", "6:5000", "6:[::1]:5000"},
    {SocketType::UNIX_DGRAM, "/tmp/cler.sock", "/tmp/cler.sock", "u:/tmp/cler.sock", "u:/tmp/cler.sock"}};

// ------------------------------------------------------------------ source
struct Seen { std::vector<std::string> got, examined, told; std::vector<bool> bad; unsigned validated = 0, called = 0; };
static Seen* SEEN;
template <class T> struct Bytes { static const uint8_t* p(const T& v) { return (const uint8_t*)&v; } static size_t n(const T&) { return sizeof(T); } static void done(T&) {} };
template <> struct Bytes<Blob> { static const uint8_t* p(const Blob& b) { return b.data; } static size_t n(const Blob& b) { return b.len; } static void done(Blob& b) { b.release(); } };

template <class T> struct TakeBlock : cler::BlockBase {
    Channel<T> in; std::vector<std::pair<T, std::string>> held; size_t keep; unsigned stall = 0; uint64_t last_ns = 0; size_t got = 0;
    TakeBlock(size_t cap, size_t keep_) : BlockBase("take"), in(cap), keep(keep_) {}
    // reading the bytes is instrumented: the race detector sees it
    static std::string copy(const T& v) { std::string s; { Quiet z; s.resize(Bytes<T>::n(v)); } memcpy(&s[0], Bytes<T>::p(v), Bytes<T>::n(v)); return s; }
    void let_go(size_t i) {
        std::string now = copy(held[i].first); { Quiet z; if (now != held[i].second) sim::fail("packet-changed", "a packet of %zu bytes changed while its consumer held it", now.size()); }
        Bytes<T>::done(held[i].first);
        Quiet z; held.erase(held.begin() + (long)i);
    }
    Result<Empty, Error> procedure() {
        if (stall) { stall--; return Error::NotEnoughSamples; }
        { Quiet z; if (sim::work(10) == 9) stall = sim::work(40); }
        T v; unsigned k = 1 + Wk(6), did = 0;
        while (did < k && in.try_pop(v)) {
            std::string s = copy(v); did++;
            { Quiet z;
              for (auto& h : held) { auto a = Bytes<T>::p(h.first), b = Bytes<T>::p(v); if (!std::is_same<T, Blob>::value) break; if (a < b + Bytes<T>::n(v) && b < a + Bytes<T>::n(h.first)) sim::fail("shared-slot", "two live packets share memory"); }
              SEEN->got.push_back(s); last_ns = sim::now_ns(); got++; held.push_back({v, s}); progress(); }
            while (held.size() > keep || (!held.empty() && Wk(3) == 0)) let_go(Wk((unsigned)held.size()));
        }
        if (did) return Empty{};
        if (!held.empty() && Wk(4) == 0) { let_go(0); return Empty{}; }
        return Error::NotEnoughSamples;
    }
};
template <class T> static bool validate(const T& v, void*) { std::string s = TakeBlock<T>::copy(v); Quiet z; SEEN->validated++; SEEN->examined.push_back(s); 
    // (a struct's bytes beyond a shorter datagram are whatever they were: the verdict must not depend on them)
    size_t n = s.size(); auto& r = sim::net_recvd(); if (!r.empty() && r.back().data.size() < n) n = r.back().data.size();
    SEEN->bad.push_back(bad_verdict((const uint8_t*)s.data(), n)); progress(); return !SEEN->bad.back(); }
template <class T> static void on_recv(const T& v, void*) { std::string s = TakeBlock<T>::copy(v); Quiet z; SEEN->called++; SEEN->told.push_back(s); progress(); }

template <class T> static void source() {
    const bool blob = std::is_same<T, Blob>::value;
    const Addr& A = addrs[C(3)]; size_t cap, maxb, slots; unsigned n; bool val, cb; bool errs, fatal; unsigned acts;
    static Seen seen; 
    { Quiet z; seen = Seen(); SEEN = &seen; static const size_t cs[5] = {8, 1, 3, 40, 2}; cap = cs[sim::cfg(5)]; static const size_t ms[3] = {64, 16, 1500}; maxb = blob ? ms[sim::cfg(3)] : sizeof(T); static const size_t sl[5] = {20, 1, 2, 5, 60}; slots = sl[sim::cfg(5)];
      val = sim::cfg(2); cb = sim::cfg(2); n = 5 + sim::work(60); errs = sim::cfg(2); fatal = sim::cfg(5) == 0; acts = 1 + sim::cfg(3);
      sim::set_rate(sim::F_STALL, sim::cfg(5) == 0 ? 2 : 0); progress(); }
    std::unique_ptr<SourceUDPSocketBlock<T>> src;
    { Quiet z; bool f = sim::cfg(12) == 0; sim::set_rate(sim::F_SOCKET, f ? 300 : 0); sim::set_rate(sim::F_BIND, f ? 300 : 0); sim::set_rate(sim::F_SETSOCKOPT, f ? 300 : 0); if (A.t == SocketType::UNIX_DGRAM && sim::cfg(2)) sim::fs_put("/tmp/cler.sock", ""); }
    int fds; { Quiet z; fds = sim::live_fds(); }
    try { src = std::make_unique<SourceUDPSocketBlock<T>>("source", A.t, A.bind, val ? validate<T> : nullptr, cb ? on_recv<T> : nullptr, nullptr, blob ? maxb : 256, blob ? slots : 100); }
    catch (const std::runtime_error&) { Quiet z; if (!(sim::fault_count(sim::F_SOCKET) + sim::fault_count(sim::F_BIND) + sim::fault_count(sim::F_SETSOCKOPT))) sim::fail("refused", "the constructor failed although no socket call did"); if (sim::live_fds() != fds) sim::fail("leak", "a datagram source whose constructor failed leaves its socket open"); sim::probe("constructor-refused"); sim::nontrivial(); return; }
    { Quiet z; sim::set_rate(sim::F_SOCKET, 0); sim::set_rate(sim::F_BIND, 0); sim::set_rate(sim::F_SETSOCKOPT, 0);
      if (errs) { sim::set_rate(sim::F_RECV_EINTR, sim::cfg(2) ? 60 : 0); sim::set_rate(sim::F_RECV_TIMEOUT, sim::cfg(2) ? 60 : 0); }
      if (fatal) sim::set_rate(sim::F_RECV_ERR, 25); }
    auto cfg = random_fg_config();
    { Quiet z; cfg.adaptive_sleep = true; cfg.adaptive_sleep_fail_threshold = 1; cfg.adaptive_sleep_max_us = 500;
      sim::sample("datagram source of %s, %s, channel %zu, %u datagrams, limit %zu bytes, %zu slots%s%s%s", blob ? "packets" : "structs", cfg_name(cfg), cap, n, maxb, slots, val ? ", validator" : "", errs ? ", interruptions" : "", fatal ? ", socket errors" : ""); }
    TakeBlock<T> take(cap, blob ? (slots > 1 ? C((unsigned)std::min<size_t>(slots, 6)) : 0) : 0);
    // datagrams come from outside, in groups with pauses, sometimes none at all for a while
    bool sent_all = false;
    std::thread net([&] {
        for (uint32_t i = 0; i < n; i++) {
            uint64_t pause = 0;
            { Quiet z; size_t len;
              switch (sim::work(8)) { case 0: len = 0; break; case 1: len = maxb; break; case 2: len = maxb + 1 + sim::work(20); break; case 3: len = 4 + sim::work(4); break; case 4: len = 1 + sim::work(4); break; default: len = blob ? 5 + sim::work((uint32_t)maxb - 4) : maxb; }
              sim::net_inject(A.key, dgram(i, len), sim::work(200000));
              switch (sim::work(8)) { case 0: pause = 1000 * (1 + sim::work(3000)); break; case 1: pause = 1000 * sim::work(100); break; case 2: if (sim::work(10) == 0) pause = 400000000ull; break; } }
            if (pause) sim::sleep_ns(pause);
        }
        Quiet z; sent_all = true;
    });
    struct Cb { int n = 0; } fcb;
    // what must come out: every datagram a successful receive took, if acceptable.  A datagram shorter than a struct fills its
    // first bytes, the others are not specified; the validator saw them.
    auto compare = [&](const char* when) {
        std::vector<std::string> in; for (auto& r : sim::net_recvd()) if (!r.truncated && !r.data.empty()) in.push_back(r.data);
        auto same = [&](const std::string& g, const std::string& d) { return blob ? g == d : g.size() == sizeof(T) && g.compare(0, d.size(), d) == 0; };
        size_t late = 0;
        if (val) {
            if (seen.examined.size() > in.size()) sim::fail("extra-packet", "%s: the validator saw %zu packets of %zu datagrams", when, seen.examined.size(), in.size());
            for (size_t i = 0; i < seen.examined.size(); i++) if (!same(seen.examined[i], in[i])) sim::fail("wrong-packet", "%s: the validator is given a packet that is not datagram %zu", when, i);
            late = in.size() - seen.examined.size(); in.clear();
            for (size_t i = 0; i < seen.examined.size(); i++) if (!seen.bad[i]) in.push_back(seen.examined[i]);
        }
        if (seen.got.size() > in.size()) sim::fail("extra-packet", "%s: %zu packets came out, %zu acceptable datagrams came in", when, seen.got.size(), in.size());
        for (size_t i = 0; i < seen.got.size(); i++) if (!same(seen.got[i], in[i])) sim::fail("wrong-packet", "%s: packet %zu of %zu bytes comes out where a datagram of %zu bytes is due", when, i, seen.got[i].size(), in[i].size());
        return late + in.size() - seen.got.size();
    };
    uint64_t told = 0;
    {
        auto fg = cler::make_desktop_flowgraph(BlockRunner(src.get(), &take.in), BlockRunner(&take));
        fg.set_on_err_terminate_cb([](void* p) { Quiet z; ((Cb*)p)->n++; }, &fcb);
        for (unsigned r = 0; r < acts; r++) {
            int c0; uint64_t e0; { Quiet z; c0 = fcb.n; e0 = sim::fault_count(sim::F_RECV_ERR); progress(); }
            fg.run(cfg);
            bool last = r + 1 == acts;
            auto done = [&] { return fcb.n != c0 || (sent_all && sim::net_pending(A.key) == 0 && take.in.size() == 0); };
            if (last) until(done); else until(done, 1000 + Wk(3000000));
            uint64_t t0; { Quiet z; t0 = sim::now_ns(); progress(); }
            // everything received is delivered without waiting for a further datagram
            if (last && !errs && !fatal) { until([&] { return fcb.n != c0 || compare("while running") == 0; }, 2000000000); Quiet z;
                if (compare("while running") != 0 && fcb.n == c0) sim::fail("not-delivered", "%zu received datagrams are still inside the source 2 s after the last one arrived", compare("while running")); }
            { Quiet z; t0 = sim::now_ns(); }
            fg.stop();
            { Quiet z; uint64_t el = sim::now_ns() - t0; uint64_t lim = 2000000000ull + sim::fault_count(sim::F_STALL) * 150000000ull;
              if (el > lim) sim::fail("stop-hangs", "stop() took %.1f ms of a graph with a datagram source", el / 1e6);
              bool err = sim::fault_count(sim::F_RECV_ERR) > e0; told += fcb.n != c0;
              if (err && fcb.n == c0) sim::fail("error-not-told", "receiving failed with a socket error and the graph was not told");
              if (!err && fcb.n != c0) sim::fail("spurious-error", "the datagram source reports a fatal error although no receive failed for good"); }
        }
    }
    net.join();
    { Quiet z; progress(); }
    { T v; while (take.in.try_pop(v)) { std::string s = TakeBlock<T>::copy(v); { Quiet z; seen.got.push_back(s); } Bytes<T>::done(v); } while (!take.held.empty()) take.let_go(0); }
    { Quiet z; size_t missing = compare("in the end");
      if (missing) sim::fail("lost-packet", "%zu acceptable datagrams never came out, %zu did", missing, seen.got.size());
      if (cb && seen.called != seen.got.size()) sim::fail("callback-count", "%zu packets came out, the receive callback was called %u times", seen.got.size(), seen.called);
      if (cb) for (size_t i = 0; i < seen.got.size(); i++) if (seen.told[i] != seen.got[i]) sim::fail("callback-packet", "the receive callback is given something else than packet %zu", i);
      if (seen.got.size() > 3 || told) sim::nontrivial(); }
    src.reset();
    Quiet z; if (sim::live_fds() != fds) sim::fail("leak", "the datagram source leaves its socket open:%s", sim::live_resources_report().c_str());
    if (A.t == SocketType::UNIX_DGRAM && sim::fs_exists("/tmp/cler.sock")) sim::fail("leak", "the datagram source leaves its socket file behind");
}
// a steady trickle of datagrams none of which is acceptable: stopping does not wait for the trickle to end
static bool reject(const Blob&, void*) { return false; }
static bool reject_pkt(const Pkt&, void*) { return false; }
template <class T> static bool (*rejecter())(const T&, void*);
template <> bool (*rejecter<Blob>())(const Blob&, void*) { return reject; }
template <> bool (*rejecter<Pkt>())(const Pkt&, void*) { return reject_pkt; }
template <class T> static void trickle() {
    const bool blob = std::is_same<T, Blob>::value;
    const Addr& A = addrs[C(3)]; size_t cap; unsigned kind; uint64_t gap; bool eintr;
    static Seen seen;
    { Quiet z; seen = Seen(); SEEN = &seen; static const size_t cs[4] = {40, 8, 100, 20}; cap = cs[sim::cfg(4)]; kind = sim::cfg(3); gap = 20000000ull + 1000000ull * sim::work(75); eintr = sim::cfg(3) == 2; progress(); }
    SourceUDPSocketBlock<T> src("source", A.t, A.bind, kind == 0 ? rejecter<T>() : nullptr, nullptr, nullptr, 64, 200);
    auto cfg = random_fg_config();
    { Quiet z; cfg.adaptive_sleep = true; cfg.adaptive_sleep_fail_threshold = 1; cfg.adaptive_sleep_max_us = 500; if (eintr) sim::set_rate(sim::F_RECV_EINTR, 60);
      sim::sample("datagram source of %s, %s, channel %zu, an %s datagram every %.0f ms%s", blob ? "packets" : "structs", cfg_name(cfg), cap, kind == 0 ? "unwanted" : kind == 1 ? "empty" : "oversized", gap / 1e6, eintr ? ", interruptions" : ""); }
    TakeBlock<T> take(cap, 0);
    bool halt = false; unsigned sent = 0;
    std::thread net([&] {
        for (;;) {
            { Quiet z; if (halt || sent > 400) break; size_t len = kind == 0 ? sizeof(Pkt) : kind == 1 ? 0 : (blob ? 64 : sizeof(T)) + 1 + sim::work(30); sim::net_inject(A.key, dgram(sent++, len), 0); progress(); }
            sim::sleep_ns(gap);
        }
    });
    {
        auto fg = cler::make_desktop_flowgraph(BlockRunner(&src, &take.in), BlockRunner(&take));
        unsigned rounds = 1 + C(3);
        for (unsigned r = 0; r < rounds; r++) {
            { Quiet z; progress(); }
            fg.run(cfg);
            sim::sleep_ns(1000ull * (1000 + Wk(300000)));
            uint64_t t0; { Quiet z; t0 = sim::now_ns(); progress(); }
            fg.stop();
            { Quiet z; uint64_t el = sim::now_ns() - t0; progress();
              if (el > 450000000) sim::fail("stop-hangs", "stop() took %.0f ms while unacceptable datagrams kept arriving every %.0f ms", el / 1e6, gap / 1e6);
              if (sent > 2) sim::nontrivial(); }
        }
    }
    { Quiet z; halt = true; }
    net.join();
    Quiet z; if (!seen.got.empty()) sim::fail("extra-packet", "an unacceptable datagram came out");
}
static void s_trickle() { if (C(2)) trickle<Pkt>(); else trickle<Blob>(); }
static void s_usrc() { if (C(2)) source<Pkt>(); else source<Blob>(); }

// ------------------------------------------------------------------ sink
template <class T> struct MakeBlock;
template <> struct MakeBlock<Pkt> : cler::BlockBase {
    uint32_t n, next = 0; std::vector<std::string>& made; MakeBlock(uint32_t n_, std::vector<std::string>& m, size_t, size_t) : BlockBase("make"), n(n_), made(m) {}
    Result<Empty, Error> procedure(ChannelBase<Pkt>* out) {
        unsigned k = 1 + Wk(6), did = 0;
        while (did < k && next < n) { std::string s; { Quiet z; s = dgram(next, sizeof(Pkt)); } Pkt p; memcpy(&p, s.data(), sizeof p); { Quiet z; made.push_back(s); } if (!out->try_push(p)) { Quiet z; made.pop_back(); break; } next++; did++; }
        if (did) { Quiet z; progress(); return Empty{}; }
        return Error::NotEnoughSpace;
    }
    size_t avail() { return 0; } size_t total() { return 0; }
};
template <> struct MakeBlock<Blob> : cler::BlockBase {
    uint32_t n, next = 0; std::vector<std::string>& made; Slab slab; size_t slots, maxb; bool own_release;
    MakeBlock(uint32_t n_, std::vector<std::string>& m, size_t slots_, size_t maxb_) : BlockBase("make"), n(n_), made(m), slab(slots_, maxb_), slots(slots_), maxb(maxb_) { own_release = C(2); }
    Result<Empty, Error> procedure(ChannelBase<Blob>* out) {
        unsigned k = 1 + Wk(6), did = 0;
        while (did < k && next < n && out->space() > 0) {
            auto r = slab.take_slot();
            if (r.is_err()) break;
            Blob b = r.unwrap();
            if (own_release && Wk(5) == 0) { b.release(); continue; }      // the maker drops this one itself
            { Quiet z; if (b.len != maxb) sim::fail("slot-size", "a slot of %zu bytes is handed out with length %zu", maxb, b.len); }
            std::string s; { Quiet z; s = dgram(next, 4 + sim::work((uint32_t)maxb - 3)); }
            memcpy(b.data, s.data(), s.size()); b.len = s.size();
            { Quiet z; made.push_back(s); }
            out->push(b); next++; did++;
        }
        if (did) { Quiet z; progress(); return Empty{}; }
        return Error::NotEnoughSpace;
    }
    size_t avail() { return slab.available_slots(); } size_t total() { return slots; }
};
static std::vector<std::string>* SENT_CB;
template <class T> static void on_send(const T& v, void*) { std::string s = TakeBlock<T>::copy(v); Quiet z; SENT_CB->push_back(s); }
template <class T> static void sink() {
    const bool blob = std::is_same<T, Blob>::value;
    const Addr& A = addrs[C(3)]; size_t cap, slots, maxb; uint32_t n; bool errs, cb; unsigned acts; std::vector<std::string> made, cbs; SENT_CB = &cbs;
    { Quiet z; static const size_t cs[5] = {8, 1, 3, 40, 512}; cap = cs[sim::cfg(5)]; static const size_t sl[5] = {20, 1, 2, 5, 60}; slots = sl[sim::cfg(5)]; static const size_t ms[3] = {64, 8, 1500}; maxb = ms[sim::cfg(3)];
      n = 5 + sim::work(80); errs = sim::cfg(2); cb = sim::cfg(2); acts = 1 + sim::cfg(4); sim::set_rate(sim::F_STALL, sim::cfg(5) == 0 ? 2 : 0); progress(); 
      sim::set_rate(sim::F_SOCKET, sim::cfg(12) == 0 ? 512 : 0); if (A.t == SocketType::UNIX_DGRAM && sim::cfg(2)) sim::fs_put("/tmp/cler.sock", ""); }
    int fds; { Quiet z; fds = sim::live_fds(); }
    // a socket for local sockets to arrive at
    std::unique_ptr<UDPBlock::GenericDatagramSocket> rx;
    std::unique_ptr<SinkUDPSocketBlock<T>> snk;
    try { if (A.t == SocketType::UNIX_DGRAM) rx.reset(new UDPBlock::GenericDatagramSocket(UDPBlock::GenericDatagramSocket::make_receiver(A.t, A.bind)));
          snk = std::make_unique<SinkUDPSocketBlock<T>>("sink", A.t, A.dest, cb ? on_send<T> : nullptr, nullptr, cap); }
    catch (const std::runtime_error&) { rx.reset(); Quiet z; if (!(sim::fault_count(sim::F_SOCKET) + sim::fault_count(sim::F_BIND) + sim::fault_count(sim::F_SETSOCKOPT))) sim::fail("refused", "the constructor failed although no socket call did"); if (sim::live_fds() != fds) sim::fail("leak", "a datagram sink whose constructor failed leaves its socket open"); sim::probe("constructor-refused"); sim::nontrivial(); return; }
    { Quiet z; sim::set_rate(sim::F_SOCKET, 0); if (errs) sim::set_rate(sim::F_SEND_ERR, sim::cfg(2) ? 30 : 200); }
    MakeBlock<T> mk(n, made, slots, maxb);
    auto cfg = random_fg_config();
    { Quiet z; cfg.adaptive_sleep = true; cfg.adaptive_sleep_fail_threshold = 1; cfg.adaptive_sleep_max_us = 200; sim::sample("datagram sink of %s, %s, channel %zu, %u packets, %zu slots%s, %u runs", blob ? "packets" : "structs", cfg_name(cfg), cap, n, slots, errs ? ", send errors" : "", acts); }
    struct Cb { int n = 0; } fcb; size_t failed = 0;
    {
        auto fg = cler::make_desktop_flowgraph(BlockRunner(&mk, &snk->in), BlockRunner(snk.get()));
        fg.set_on_err_terminate_cb([](void* p) { Quiet z; ((Cb*)p)->n++; }, &fcb);
        for (unsigned r = 0; r < acts; r++) {
            int c0; uint64_t e0; { Quiet z; c0 = fcb.n; e0 = sim::fault_count(sim::F_SEND_ERR); progress(); }
            fg.run(cfg);
            auto done = [&] { return fcb.n != c0 || (mk.next == n && snk->in.size() == 0); };
            if (r + 1 < acts && Wk(2)) until(done, 1000 + Wk(300000)); else until(done);
            fg.stop();
            Quiet z;
            size_t fails = sim::fault_count(sim::F_SEND_ERR) - e0; failed += fails;
            if (fails > 1) sim::fail("sends-after-failure", "%zu sends failed in one run: the sink went on after the first", fails);
            if (fails && fcb.n == c0) sim::fail("error-not-told", "a send failed and the graph was not told");
            if (!fails && fcb.n != c0) sim::fail("spurious-error", "the datagram sink reports a fatal error although no send failed");
            // exactly the elements taken from the input were handed to the socket, in order, failed ones excepted
            auto& sent = sim::net_sent(); size_t taken = mk.next - snk->in.size();
            if (sim::net_attempts() != taken) sim::fail("lost-element", "%zu elements left the input channel, %zu were handed to the socket", taken, (size_t)sim::net_attempts());
            size_t k = 0, skip = 0;
            for (auto& s : sent) {
                if (s.to != A.sent) sim::fail("wrong-address", "a datagram goes to %s instead of %s", s.to.c_str(), A.sent);
                while (k < taken && made[k] != s.data) { k++; skip++; }
                if (k >= taken) sim::fail("wrong-datagram", "a datagram of %zu bytes was sent that is not the next element", s.data.size());
                k++;
            }
            if (skip + (taken - k) != failed) sim::fail("lost-element", "%zu elements were taken and not sent, %zu sends failed", skip + (taken - k), failed);
            if (blob && mk.avail() + snk->in.size() != mk.total()) sim::fail("lost-slot", "with the graph stopped %zu of %zu slots are free and %zu packets wait", mk.avail(), mk.total(), snk->in.size());
            if (cb) { if (cbs.size() > taken || cbs.size() + failed < taken) sim::fail("callback-count", "%zu elements sent, %zu callbacks", taken - failed, cbs.size()); }
            if (taken > 3) sim::nontrivial();
        }
    }
    { T v; while (snk->in.try_pop(v)) Bytes<T>::done(v); }
    { Quiet z; if (blob && mk.avail() != mk.total()) sim::fail("lost-slot", "after every packet is released %zu of %zu slots are free", mk.avail(), mk.total()); }
    snk.reset(); rx.reset();
    Quiet z; if (sim::live_fds() != fds) sim::fail("leak", "the datagram sink leaves its socket open:%s", sim::live_resources_report().c_str());
}
static void s_usnk() { if (C(2)) sink<Pkt>(); else sink<Blob>(); }

// ------------------------------------------------------------------ pool with two threads
static void s_slab() {
    size_t slots, maxb; unsigned n; bool both;
    { Quiet z; static const size_t sl[6] = {4, 1, 2, 3, 7, 30}; slots = sl[sim::cfg(6)]; static const size_t ms[4] = {16, 1, 100, 4096}; maxb = ms[sim::cfg(4)]; n = 20 + sim::work(200); both = sim::cfg(2); progress();
      sim::sample("pool of %zu x %zu bytes, %u packets%s", slots, maxb, n, both ? ", released by both threads" : ""); sim::set_rate(sim::F_STALL, sim::cfg(5) == 0 ? 3 : 0); }
    Slab slab(slots, maxb); Channel<Blob> ch(slots + 2);
    struct Own { std::vector<int> owner; uint8_t* base = nullptr; } own; { Quiet z; own.owner.assign(slots, 0); }
    auto take_mark = [&](const Blob& b) { Quiet z;
        if (b.slot_idx >= slots) sim::fail("bad-slot", "slot %zu of %zu is handed out", b.slot_idx, slots);
        if (own.owner[b.slot_idx]++) sim::fail("shared-slot", "slot %zu is handed out while a packet still owns it", b.slot_idx);
        if (b.len != maxb) sim::fail("slot-size", "a slot of %zu bytes is handed out with length %zu", maxb, b.len);
        if (!sim::heap_live(b.data) || !sim::heap_live(b.data + maxb - 1)) sim::fail("bad-slot", "slot %zu lies outside the pool's memory", b.slot_idx); };
    auto drop_mark = [&](const Blob& b) { Quiet z; own.owner[b.slot_idx]--; };
    std::thread taker([&] {
        std::vector<Blob> mine; { Quiet z; mine.reserve(40); } unsigned sent = 0, idle = 0;
        while (sent < n || !mine.empty()) {
            if (sent < n && !(both && mine.size() > 1 && Wk(2))) {
                auto r = slab.take_slot();
                if (r.is_ok()) {
                    Blob b = r.unwrap(); take_mark(b); idle = 0;
                    for (size_t i = 0; i < maxb; i += 1 + maxb / 8) b.data[i] = (uint8_t)(sent * 7 + i);
                    b.len = (size_t)sent; // the number travels with the packet
                    if (both && Wk(3) == 0) { Quiet z; mine.push_back(b); } else { ch.push(b); }
                    sent++; continue;
                }
                if (r.unwrap_err() != Error::ProcedureError) sim::fail("wrong-error", "an empty pool reports error %d", (int)r.unwrap_err());
            }
            if (!mine.empty()) { Blob b; { Quiet z; size_t k = sim::work((uint32_t)mine.size()); b = mine[k]; mine.erase(mine.begin() + (long)k); }
                for (size_t i = 0; i < maxb; i += 1 + maxb / 8) if (b.data[i] != (uint8_t)(b.len * 7 + i)) sim::fail("packet-changed", "a packet's bytes changed while it was held");
                drop_mark(b); b.release(); if (b.owner_slab) sim::fail("still-owned", "a released packet still names its pool"); { Quiet z; progress(); } }
            else if (++idle > 2) std::this_thread::yield();
        }
        Blob end; end.data = nullptr; end.owner_slab = nullptr; end.slot_idx = 0; end.len = 0; ch.push(end);
    });
    std::thread dropper([&] {
        std::vector<Blob> held; { Quiet z; held.reserve(40); } bool over = false;
        while (!over || !held.empty()) {
            Blob b; bool any = !over && ch.try_pop(b);
            if (any && !b.data) { over = true; continue; }
            if (any) { Quiet z; held.push_back(b); }
            if (!held.empty() && (!any || Wk(2))) {
                Blob x; { Quiet z; size_t k = sim::work((uint32_t)held.size()); x = held[k]; held.erase(held.begin() + (long)k); }
                for (size_t i = 0; i < maxb; i += 1 + maxb / 8) if (x.data[i] != (uint8_t)(x.len * 7 + i)) sim::fail("packet-changed", "byte %zu of packet %zu changed while it was in flight", i, x.len);
                drop_mark(x); x.release(); { Quiet z; progress(); }
            } else if (!any) std::this_thread::yield();
        }
    });
    taker.join(); dropper.join();
    Quiet z;
    if (slab.available_slots() != slots) sim::fail("lost-slot", "after every packet is released %zu of %zu slots are free", slab.available_slots(), slots);
    std::vector<int> seen(slots, 0);
    for (size_t i = 0; i < slots; i++) { auto r = slab.take_slot(); if (r.is_err()) sim::fail("lost-slot", "only %zu of %zu slots can be taken again", i, slots); Blob b = r.unwrap(); if (seen[b.slot_idx]++) sim::fail("shared-slot", "slot %zu is in the pool twice", b.slot_idx); }
    sim::nontrivial();
}
// ------------------------------------------------------------------ received packets sent on: source -> sink over one pool
static void s_relay() {
    const Addr& A = addrs[C(2)]; size_t cap, slots; unsigned n; static Seen seen;
    { Quiet z; seen = Seen(); SEEN = &seen; static const size_t cs[4] = {8, 1, 3, 20}; cap = cs[sim::cfg(4)]; static const size_t sl[5] = {6, 1, 2, 3, 20}; slots = sl[sim::cfg(5)]; n = 10 + sim::work(80); progress(); }
    SourceUDPSocketBlock<Blob> src("source", A.t, A.bind, validate<Blob>, on_recv<Blob>, nullptr, 48, slots);
    SinkUDPSocketBlock<Blob> snk("sink", A.t, A.t == SocketType::INET_UDP ? "10.0.0.9:6000" : "fe80::9:6000", nullptr, nullptr, cap);
    auto cfg = random_fg_config();
    { Quiet z; sim::set_rate(sim::F_RECV_EINTR, sim::cfg(2) ? 60 : 0); sim::set_rate(sim::F_STALL, sim::cfg(5) == 0 ? 2 : 0); sim::set_rate(sim::F_SEND_ERR, sim::cfg(4) == 0 ? 10 : 0);
      cfg.adaptive_sleep = true; cfg.adaptive_sleep_fail_threshold = 1; cfg.adaptive_sleep_max_us = 200; sim::sample("relay, %s, channel %zu, %zu slots, %u datagrams", cfg_name(cfg), cap, slots, n); }
    bool all = false;
    std::thread net([&] { for (uint32_t i = 0; i < n; i++) { uint64_t p = 0; { Quiet z; sim::net_inject(A.key, dgram(i, sim::work(8) == 0 ? 49 + sim::work(9) : 5 + sim::work(44)), sim::work(30000)); if (sim::work(5) == 0) p = 1000 * sim::work(300); } if (p) sim::sleep_ns(p); } Quiet z; all = true; });
    struct Cb { int n = 0; } fcb; unsigned runs = 0;
    {
        auto fg = cler::make_desktop_flowgraph(BlockRunner(&src, &snk.in), BlockRunner(&snk));
        fg.set_on_err_terminate_cb([](void* p) { Quiet z; ((Cb*)p)->n++; }, &fcb);
        for (;;) {
            int c0; { Quiet z; c0 = fcb.n; progress(); }
            fg.run(cfg);
            auto fin = [&] { return all && sim::net_pending(A.key) == 0 && snk.in.size() == 0; };
            if (C(3) == 0) until([&] { return fcb.n != c0 || fin(); }, 1000 + Wk(800000)); else until([&] { return fcb.n != c0 || fin(); });
            bool over; { Quiet z; over = fin(); }
            if (over) sim::sleep_ns(2000000);
            fg.stop();
            Quiet z; if (over && snk.in.size() == 0) break;
            if (++runs > 40) sim::set_rate(sim::F_SEND_ERR, 0);
        }
    }
    net.join();
    Quiet z;
    std::vector<std::string> e; for (auto& r : sim::net_recvd()) if (!r.truncated && !bad_verdict((const uint8_t*)r.data.data(), r.data.size())) e.push_back(r.data);
    auto& s = sim::net_sent(); size_t k = 0, skip = 0, failed = sim::fault_count(sim::F_SEND_ERR);
    for (auto& x : s) { while (k < e.size() && e[k] != x.data) { k++; skip++; } if (k >= e.size()) sim::fail("wrong-datagram", "the relay sends a datagram of %zu bytes that it did not receive, or out of order", x.data.size()); k++; }
    if (skip + e.size() - k != failed) sim::fail("lost-packet", "%zu of %zu acceptable datagrams were not sent on, %zu sends failed", skip + e.size() - k, e.size(), failed);
    if (e.size() > slots) sim::nontrivial();
}
// ------------------------------------------------------------------ C28: the relay called in turn from one thread, which also plays the network
static void s_uloop() {
    const Addr& A = addrs[C(2)]; size_t cap, slots; unsigned n, order; static Seen seen;
    { Quiet z; seen = Seen(); SEEN = &seen; static const size_t cs[4] = {8, 1, 3, 20}; cap = cs[sim::cfg(4)]; static const size_t sl[5] = {6, 1, 2, 3, 20}; slots = sl[sim::cfg(5)]; n = 10 + sim::work(80); order = sim::cfg(4); progress(); }
    {
        SourceUDPSocketBlock<Blob> src("source", A.t, A.bind, validate<Blob>, on_recv<Blob>, nullptr, 48, slots);
        SinkUDPSocketBlock<Blob> snk("sink", A.t, A.t == SocketType::INET_UDP ? "10.0.0.9:6000" : "fe80::9:6000", nullptr, nullptr, cap);
        { Quiet z; sim::set_rate(sim::F_RECV_EINTR, sim::cfg(2) ? 60 : 0); sim::set_rate(sim::F_STALL, sim::cfg(5) == 0 ? 2 : 0); sim::sample("relay by hand, channel %zu, %zu slots, %u datagrams, order %u", cap, slots, n, order); }
        uint32_t i = 0; size_t moved = 0; bool lag = C(2); unsigned hold[2] = {0, 0};
        for (;;) {
            { Quiet z; if (i < n && (lag ? sim::work(4) == 3 : sim::work(3) != 2)) { sim::net_inject(A.key, dgram(i, sim::work(8) == 0 ? 49 + sim::work(9) : 5 + sim::work(44)), sim::work(4) == 3 ? 1000 * sim::work(30) : 0); i++; } }
            for (unsigned b0 = 0; b0 < 2; b0++) {
                unsigned b = order == 1 ? 1 - b0 : order == 2 ? Wk(2) : b0, reps = order == 3 ? 1 + Wk(5) : 1;
                if (hold[b]) { hold[b]--; continue; }
                { Quiet z; if (sim::work(10) == 9) hold[b] = 1 + sim::work(30); }
                while (reps--) { Result<Empty, Error> r = b == 0 ? src.procedure(&snk.in) : snk.procedure(); if (r.is_err() && cler::is_fatal(r.unwrap_err())) sim::fail("fatal-result", "called by hand, the %s reports a fatal error: %s", b ? "datagram sink" : "datagram source", cler::to_str(r.unwrap_err())); }
            }
            { Quiet z; size_t m = i * 1000 + sim::net_recvd().size() + sim::net_sent().size(); if (m != moved) { moved = m; progress(); } if (i == n && sim::net_pending(A.key) == 0 && snk.in.size() == 0) break; }
            if (lag && Wk(6) == 0) sim::sleep_ns(1000 * Wk(50));
        }
        for (unsigned r = 0; r < 40; r++) { src.procedure(&snk.in); snk.procedure(); }
    }
    Quiet z;
    std::vector<std::string> e; for (auto& r : sim::net_recvd()) if (!r.truncated && !bad_verdict((const uint8_t*)r.data.data(), r.data.size())) e.push_back(r.data);
    auto& s = sim::net_sent(); size_t k = 0;
    if (s.size() != e.size()) sim::fail("lost-packet", "by hand %zu datagrams were sent on of %zu acceptable ones", s.size(), e.size());
    for (auto& x : s) if (x.data != e[k++]) sim::fail("wrong-datagram", "by hand the relay sends a datagram of %zu bytes that is not the next one it received", x.data.size());
    if (e.size() > slots) sim::nontrivial();
}
static const sim::Scenario S[] = {{"usrc", 2, s_usrc}, {"trickle", 1, s_trickle}, {"usnk", 1, s_usnk}, {"slab", 1, s_slab}, {"relay", 1, s_relay}, {"uloop", 1, s_uloop}};
int main(int c, char** v) { return sim::main(c, v, S, sizeof S / sizeof *S); }
