// C15: the throttle.  C16: file sink and file source on a simulated disk.
#include "common.hpp"
#include "desktop_blocks/utils/throttle.hpp"
#include "desktop_blocks/sinks/sink_file.hpp"
#include "desktop_blocks/sources/source_file.hpp"

// ------------------------------------------------------------------ C15
struct ArriveBlock : cler::BlockBase {      // hands over samples in random bursts and pauses
    unsigned n; unsigned next = 0; uint64_t until_ns = 0; uint64_t iv; unsigned steady; std::vector<uint64_t>& pushed_at;
    ArriveBlock(unsigned n_, uint64_t iv_, unsigned st, std::vector<uint64_t>& p) : BlockBase("arrive"), n(n_), iv(iv_), steady(st), pushed_at(p) {}
    Result<Empty, Error> procedure(ChannelBase<uint32_t>* out) {
        bool idle; { Quiet z; idle = next >= n || sim::now_ns() < until_ns; }
        if (idle) { std::this_thread::sleep_for(std::chrono::nanoseconds(iv / 8)); return Error::NotEnoughSamples; }
        { Quiet z;
          if (sim::work(steady ? 40 : 6) == 1) { static const double f[6] = {0.5, 1, 3, 10, 0.1, 60}; until_ns = sim::now_ns() + (uint64_t)(iv * f[sim::work(6)] * (1 + sim::work(100) / 100.0)); return Error::NotEnoughSamples; } }
        unsigned k = 1 + Wk(steady ? 20 : 4), did = 0;
        while (did < k && next < n && out->try_push(next)) { Quiet z; pushed_at[next++] = sim::now_ns(); did++; }
        if (did) return Empty{};
        return Error::NotEnoughSpace;
    }
};
struct LeaveBlock : cler::BlockBase {
    TapChannel<uint32_t> in; unsigned got = 0; uint64_t until_ns = 0; uint64_t iv; unsigned lazy;
    LeaveBlock(size_t cap, uint64_t iv_, unsigned l) : BlockBase("leave"), in(cap), iv(iv_), lazy(l) {}
    Result<Empty, Error> procedure() {
        bool idle; { Quiet z; idle = sim::now_ns() < until_ns; }
        if (idle) { std::this_thread::sleep_for(std::chrono::nanoseconds(iv / 8)); return Error::NotEnoughSamples; }
        { Quiet z;
          if (lazy && sim::work(10) == 1) { static const double f[5] = {0.5, 1, 4, 20, 0.1}; until_ns = sim::now_ns() + (uint64_t)(iv * f[sim::work(5)]); return Error::NotEnoughSamples; } }
        uint32_t v; unsigned k = 1 + Wk(6), did = 0;
        while (did < k && in.try_pop(v)) { Quiet z; if (v != got) sim::fail("wrong-output", "the throttle's output number %u is sample %u", got, v); got++; did++; }
        if (did) { Quiet z; progress(); return Empty{}; }
        return Error::NotEnoughSamples;
    }
};
static void s_throttle() {
    unsigned n; size_t sps, icap, ocap; unsigned steady, lazy; bool slow_faults;
    { Quiet z; static const size_t rs[13] = {1000, 10, 1, 44100, 1000000, 48000, 3000000, 7, 100, 333333, 2400000, 60, 250000000};
      sps = rs[sim::cfg(13)]; n = 20 + sim::work(sps >= 100000 ? 1200 : 80);
      static const size_t ic[5] = {64, 1, 3, 1024, 16}, oc[5] = {16, 1, 2, 5, 300}; icap = ic[sim::cfg(5)]; ocap = oc[sim::cfg(5)];
      steady = sim::cfg(2); lazy = sim::cfg(3) == 0; slow_faults = sim::cfg(3) == 0;
      sim::set_rate(sim::F_STALL, slow_faults && sim::cfg(2) ? 1 : 0); sim::set_rate(sim::F_OVERSLEEP, slow_faults ? 20 : 0);
      sim::set_rate(sim::F_CLOCK_JUMP, sim::cfg(3) == 0 ? 20 : 0); sim::set_weak(false); progress(); }
    const double iv = 1e9 / (double)sps;
    std::vector<uint64_t> arr; { Quiet z; arr.assign(n, 0); }
    ArriveBlock a(n, (uint64_t)iv, steady, arr); ThrottleBlock<uint32_t> t("throttle", sps, icap); LeaveBlock l(ocap, (uint64_t)iv, lazy);
    struct S { std::vector<double> p; std::vector<uint64_t> freed; double best = -1e300; } s; { Quiet z; s.p.reserve(n); s.freed.reserve(n); }
    auto cfg = random_fg_config();
    if (iv > 20000 || slow_faults) { cfg.adaptive_sleep = true; cfg.adaptive_sleep_max_us = std::min(50000.0, std::max(100.0, iv / 4e3)); cfg.adaptive_sleep_fail_threshold = 1; cfg.adaptive_sleep_multiplier = 3; }
    size_t space0 = l.in.space();
    l.in.popped = [&](size_t k) { while (k--) s.freed.push_back(sim::now_ns()); };
    uint64_t base_faults = 0, restarted = 0;
    l.in.pushed = [&](const uint32_t* v, size_t k) {
        if (k != 1) sim::fail("burst", "the throttle writes %zu samples at once", k);
        size_t j = s.p.size(); double now = (double)sim::now_ns();
        if (*v != j) sim::fail("wrong-output", "the throttle's output number %zu is sample %u", j, *v);
        // at most rate * span + 2 samples in any closed span: p_j - p_i >= (j - i - 1) * interval
        if (j) { double lim = s.best + ((double)j - 1) * iv; if (now < lim - 3 - (double)j) sim::fail("too-fast", "sample %zu leaves %.3f us early for %zu samples per second", j, (lim - now) / 1e3, sps); }
        s.best = std::max(s.best, now - (double)j * iv);
        // promptness: one interval after the previous sample, once there is input and room
        uint64_t faults = sim::fault_count(sim::F_STALL) + sim::fault_count(sim::F_OVERSLEEP);
        double ready = (double)arr[j]; if (j >= space0) ready = std::max(ready, (double)s.freed[j - space0]);
        if (j) ready = std::max(ready, s.p[j - 1] + iv);
        double slack = 60e6 + 6 * cfg.adaptive_sleep_max_us * 1e3 + 0.6 * iv + (double)(faults - base_faults) * 600e6;
        if (!restarted && now > ready + slack) sim::fail("too-slow", "sample %zu leaves %.3f ms after it could have (%zu samples per second, %llu wall-clock jumps)", j, (now - ready) / 1e6, sps, (unsigned long long)sim::fault_count(sim::F_CLOCK_JUMP));
        base_faults = faults; restarted = 0;
        if (sim::verbose()) sim::note("sample %zu leaves", j);
        s.p.push_back(now); progress();
    };
    Jumper jm; jm.start(3, (uint64_t)(iv * n / 2) + 1000);
    unsigned restarts = C(4) == 0 ? 1 + C(2) : 0;
    { Quiet z; sim::sample("%zu samples/s, %u samples, rings %zu/%zu, %s%s%s, %zu wall-clock jumps, %u restarts", sps, n, icap, ocap, cfg_name(cfg), lazy ? ", lazy reader" : "", slow_faults ? ", stalls and oversleeping" : "", jm.plan.size(), restarts); }
    {
        auto fg = cler::make_desktop_flowgraph(BlockRunner(&a, &t.in), BlockRunner(&t, (ChannelBase<uint32_t>*)&l.in), BlockRunner(&l));
        for (;;) {
            fg.run(cfg);
            auto done = [&] { return l.got == n; };
            if (restarts) { restarts--; until(done, 1000 + (uint64_t)(iv * Wk(n))); } else until(done);
            fg.stop();
            bool e; { Quiet z; e = l.got == n; restarted = 1; if (a.next != l.got + t.in.size() + l.in.size()) sim::fail("lost-sample", "%u samples went in, %u came out, %zu and %zu wait before and behind the throttle", a.next, l.got, t.in.size(), l.in.size()); }
            if (e) break;
        }
    }
    jm.join();
    Quiet z; sim::nontrivial();
}

// every sleep of this machine ends late by less than a sample interval: lateness must not add up
static void s_pace() {
    unsigned n; size_t sps; uint64_t slack, work; bool jumps;
    { Quiet z; static const size_t rs[6] = {333, 50, 7, 100, 200, 10}; sps = rs[sim::cfg(6)]; n = 20 + sim::work(300); double iv = 1e9 / (double)sps;
      slack = (uint64_t)(iv * sim::cfg(55) / 100.0); work = (uint64_t)(iv * sim::cfg(10) / 100.0); jumps = sim::cfg(3) == 0; sim::set_timer_slack(slack); sim::set_rate(sim::F_CLOCK_JUMP, jumps ? 20 : 0); progress();
      sim::sample("%zu samples/s, %u samples, sleeps end %llu ns late, calls %llu ns apart", sps, n, (unsigned long long)slack, (unsigned long long)work); }
    double iv = 1e9 / (double)sps; ThrottleBlock<uint32_t> t("throttle", sps, 512); Channel<uint32_t> out(512); uint64_t first = 0;
    for (uint32_t i = 0; i < n; i++) t.in.push(i);
    for (uint32_t i = 0; i < n; i++) {
        auto r = t.procedure(&out); uint32_t v = ~0u; bool got = out.try_pop(v);
        Quiet z; uint64_t now = sim::now_ns(); progress();
        if (!r.is_ok() || !got || v != i || out.size()) sim::fail("wrong-output", "with input and room, call %u of the throttle lets sample %u through", i, got ? v : ~0u);
        if (!i) first = now;
        // the end of call i is the moment sample i + 1 may pass
        if ((double)(now - first) > (double)i * iv + iv + (double)(slack + work) + 1e6) sim::fail("too-slow", "%u intervals of %.0f ns have taken %.3f ms (sleeps end %llu ns late)", i, iv, (double)(now - first) / 1e6, (unsigned long long)slack);
        if ((double)(now - first) < (double)i * iv - iv - (double)i - 3) sim::fail("too-fast", "%u intervals of %.0f ns have taken %.3f ms", i, iv, (double)(now - first) / 1e6);
        if (work) sim::sleep_ns(work);
    }
    Quiet z; sim::nontrivial();
}

// ------------------------------------------------------------------ C16
struct S12 { uint32_t a, b, c; };
template <class T> static void fill(T* p, size_t n, size_t at) {   // sample number -> bytes
    unsigned char* b = (unsigned char*)p;
    for (size_t i = 0; i < n * sizeof(T); i++) { size_t k = at * sizeof(T) + i; b[i] = (unsigned char)(k * 7 + (k >> 8) * 13 + (k >> 13) * 29 + 5); }
}
template <class T> struct FeedBlock : cler::BlockBase {
    size_t total, pos = 0, offered = 0; T buf[700];
    explicit FeedBlock(size_t n) : BlockBase("feed"), total(n) {}
    NOTSAN void make(size_t k) { Quiet z; fill(buf, k, pos); }
    Result<Empty, Error> procedure(ChannelBase<T>* out) {
        if (pos == total) return Error::NotEnoughSamples;
        size_t k = 1; { Quiet z; switch (sim::work(5)) { case 0: k = 700; break; case 1: k = 1; break; case 2: k = 1 + sim::work(8); break; default: k = 1 + sim::work(699); } }
        k = std::min(k, total - pos); make(k); offered = pos + k;
        size_t d = out->writeN(buf, k); pos += d;
        if (d) { Quiet z; progress(); return Empty{}; }
        return Error::NotEnoughSpace;
    }
};
static struct SinkWatch { size_t verified = 0; size_t fed_bytes = 0; const size_t* fed = nullptr; size_t elem = 1; uint64_t writes = 0; bool removed = false; } SW;
NOTSAN static void sink_check(bool whole) {
    std::string d = sim::fs_get("/out.bin");
    if (d.size() > *SW.fed * SW.elem) sim::fail("file-not-a-prefix", "the file has %zu bytes, only %zu were fed to the sink", d.size(), *SW.fed * SW.elem);
    for (size_t k = whole ? 0 : SW.verified; k < d.size(); k++)
        if ((unsigned char)d[k] != (unsigned char)(k * 7 + (k >> 8) * 13 + (k >> 13) * 29 + 5)) sim::fail("file-not-a-prefix", "byte %zu of the file (sample %zu) is not that of the stream", k, k / SW.elem);
    if (d.size() < SW.verified) sim::fail("file-not-a-prefix", "the file shrank from %zu to %zu bytes", SW.verified, d.size());
    SW.verified = d.size();
}
template <class T> static void file_sink() {
    size_t min = (4096 + sizeof(T) - 1) / sizeof(T), cap, total; bool faulty; unsigned acts;
    { Quiet z; cap = sim::cfg(3) == 0 ? 0 : min + sim::cfg((uint32_t)(2 * min)); size_t c = cap ? cap : min; total = 1 + sim::work((uint32_t)(4 * c)); faulty = sim::cfg(3) != 0; acts = 1 + sim::cfg(3);
      SW = SinkWatch(); SW.elem = sizeof(T);
      sim::set_rate(sim::F_OPEN, sim::cfg(12) == 0 ? 512 : 0); sim::set_rate(sim::F_SETVBUF, sim::cfg(12) == 0 ? 512 : 0);
      progress(); }
    int fds = 0; { Quiet z; fds = sim::live_files(); }
    std::unique_ptr<SinkFileBlock<T>> sink;
    try { sink = std::make_unique<SinkFileBlock<T>>("sink", "/out.bin", cap); }
    catch (const std::runtime_error&) { Quiet z; if (!(sim::fault_count(sim::F_OPEN) + sim::fault_count(sim::F_SETVBUF))) sim::fail("refused", "the constructor failed although nothing else did"); if (sim::live_files() != fds) sim::fail("leak", "a file sink whose constructor failed leaves its file open"); sim::probe("constructor-refused"); sim::nontrivial(); return; }
    { Quiet z; sim::set_rate(sim::F_OPEN, 0); sim::set_rate(sim::F_SETVBUF, 0); }
    FeedBlock<T> feed(total);
    { Quiet z; SW.fed = &feed.offered; sim::fs_on_write([](const std::string& p) { if (p == "/out.bin") { SW.writes++; sink_check(false); } }); }
    bool wshort = false; int64_t disk = -1;
    { Quiet z;
      if (faulty) { wshort = sim::cfg(2); sim::set_rate(sim::F_WRITE_SHORT, wshort ? 200 : 0);
          switch (sim::cfg(4)) { case 0: disk = sim::work((uint32_t)(total * sizeof(T) + 200)); sim::fs_disk_budget(disk); break; case 1: sim::set_rate(sim::F_WRITE_ERR, 60); break; case 2: sim::set_rate(sim::F_WRITE_ERR, 300); break; } }
      sim::set_rate(sim::F_STALL, sim::cfg(5) == 0 ? 2 : 0);
      sim::sample("file sink, %zu-byte samples, ring %zu, %zu samples%s, disk %lld bytes", sizeof(T), cap, total, wshort ? ", short writes" : "", (long long)disk); }
    auto cfg = random_fg_config();
    struct Cb { int n = 0; } cb; bool failed_before = false;
    {
        auto fg = cler::make_desktop_flowgraph(BlockRunner(&feed, &sink->in), BlockRunner(sink.get()));
        fg.set_on_err_terminate_cb([](void* p) { Quiet z; ((Cb*)p)->n++; }, &cb);
        for (unsigned r = 0; r < acts; r++) {
            uint64_t f0; int c0; { Quiet z; f0 = sim::fault_count(sim::F_WRITE_ERR) + sim::fault_count(sim::F_DISK_FULL); c0 = cb.n; progress(); }
            bool last = r + 1 == acts;
            fg.run(cfg);
            auto done = [&] { return (feed.pos == total && sink->in.size() == 0) || cb.n != c0; };
            if (last) until(done); else until(done, 1000 + Wk(300000));
            fg.stop();
            { Quiet z;
              sink_check(true);
              uint64_t f1 = sim::fault_count(sim::F_WRITE_ERR) + sim::fault_count(sim::F_DISK_FULL);
              if (f1 > f0 && cb.n == c0) sim::fail("error-not-told", "%llu writes failed while the graph ran and it was not told of a fatal error", (unsigned long long)(f1 - f0));
              if (f1 == f0 && !failed_before && cb.n != c0) sim::fail("spurious-error", "the file sink reports a fatal error although no write failed");
              if (f1 > f0) failed_before = true;
              size_t consumed = feed.pos - sink->in.size(), filed = SW.verified / sizeof(T), hold = (cap ? cap : min) * 2 + 4096 / sizeof(T) + 2;
              if (consumed > filed + hold) sim::fail("lost-samples", "%zu samples are consumed, %zu are in the file, more than buffering can explain", consumed, filed);
              if (sim::cfg(2)) { sim::fs_disk_budget(-1); sim::set_rate(sim::F_WRITE_ERR, 0); }      // the disk is freed
            }
        }
    }
    size_t consumed; { Quiet z; consumed = feed.pos - sink->in.size(); }
    uint64_t f2; { Quiet z; f2 = sim::fault_count(sim::F_WRITE_ERR) + sim::fault_count(sim::F_DISK_FULL); progress(); }
    sink.reset();
    { Quiet z;
      sink_check(true);
      bool lastfail = sim::fault_count(sim::F_WRITE_ERR) + sim::fault_count(sim::F_DISK_FULL) != f2;
      if (!failed_before && !lastfail && SW.verified != consumed * sizeof(T)) sim::fail("lost-samples", "the sink consumed %zu samples and closed its file with %zu bytes of %zu", consumed, SW.verified, consumed * sizeof(T));
      if (sim::live_files() != fds) sim::fail("leak", "the file sink leaves its file open");
      sim::fs_on_write(nullptr);
      if (failed_before || consumed * sizeof(T) > 4096) sim::nontrivial(); }
}
static void s_fsink() { switch (C(5)) { case 0: file_sink<float>(); break; case 1: file_sink<uint8_t>(); break; case 2: file_sink<S12>(); break; case 3: file_sink<std::complex<float>>(); break; case 4: file_sink<int16_t>(); } }

static struct SrcWatch { int eof_calls = 0; std::string name; } RW;
template <class T> struct DrainBlock : cler::BlockBase {
    Channel<T> in; size_t whole; bool repeat; size_t pos = 0; unsigned stall = 0; T buf[900];
    DrainBlock(size_t cap, size_t w, bool rep) : BlockBase("drain"), in(cap), whole(w), repeat(rep) {}
    NOTSAN void check(size_t n) {
        Quiet z; T want;
        for (size_t i = 0; i < n; i++) {
            if (whole == 0 || (!repeat && pos + i >= whole)) sim::fail("extra-samples", "the file source delivers sample %zu of a file with %zu", pos + i, whole);
            fill(&want, 1, (pos + i) % whole);
            if (memcmp(&want, &buf[i], sizeof(T))) sim::fail("wrong-output", "sample %zu delivered is not sample %zu of the file (%zu whole samples)", pos + i, (pos + i) % whole, whole);
        }
        pos += n; if (n) progress();
    }
    Result<Empty, Error> procedure() {
        if (stall) { stall--; return Error::NotEnoughSamples; }
        size_t k = 900; { Quiet z; if (sim::work(10) == 9) stall = sim::work(30); switch (sim::work(4)) { case 1: k = 1 + sim::work(20); break; case 2: k = 1 + sim::work(899); } }
        size_t d = in.readN(buf, k); check(d);
        if (d) return Empty{};
        return Error::NotEnoughSamples;
    }
};
template <class T> static void file_source() {
    size_t min = (4096 + sizeof(T) - 1) / sizeof(T), cap, bytes; bool repeat, with_cb; unsigned laps; int fds;
    { Quiet z; cap = sim::cfg(2) ? min : min + sim::cfg((uint32_t)(2 * min));
      switch (sim::cfg(6)) { case 0: bytes = sim::work(20000); break; case 1: bytes = sim::work((uint32_t)(3 * sizeof(T) + 1)); break; case 2: bytes = sim::work(600); break; case 3: bytes = cap * sizeof(T); break; case 4: bytes = (cap - 1) * sizeof(T) + sim::work((uint32_t)(2 * sizeof(T))); break; default: bytes = sim::work(9) * 4096; }
      repeat = sim::cfg(2); with_cb = sim::cfg(4) != 3; laps = 1 + sim::cfg(3);
      std::string d(bytes, '\0'); for (size_t k = 0; k < bytes; k++) d[k] = (char)(unsigned char)(k * 7 + (k >> 8) * 13 + (k >> 13) * 29 + 5);
      sim::fs_put("/in.bin", d); RW = SrcWatch(); fds = sim::live_files();
      sim::set_rate(sim::F_OPEN, sim::cfg(12) == 0 ? 512 : 0); progress(); }
    size_t whole = bytes / sizeof(T);
    auto cb = [](const char* n) { Quiet z; RW.eof_calls++; if (strcmp(n, "/in.bin")) sim::fail("wrong-name", "the end-of-file notification names \"%s\"", n); };
    std::unique_ptr<SourceFileBlock<T>> src;
    try { src = std::make_unique<SourceFileBlock<T>>("source", "/in.bin", repeat, with_cb ? +cb : nullptr); }
    catch (const std::runtime_error&) { Quiet z; if (!(sim::fault_count(sim::F_OPEN) + sim::fault_count(sim::F_SETVBUF))) sim::fail("refused", "the constructor failed although nothing else did"); if (sim::live_files() != fds) sim::fail("leak", "a file source whose constructor failed leaves its file open"); sim::probe("constructor-refused"); sim::nontrivial(); return; }
    { Quiet z; sim::set_rate(sim::F_OPEN, 0); }
    DrainBlock<T> dr(cap, whole, repeat);
    bool rshort, rerr; 
    { Quiet z; rshort = sim::cfg(2); rerr = sim::cfg(4) == 0; sim::set_rate(sim::F_READ_SHORT, rshort ? 300 : 0); sim::set_rate(sim::F_READ_ERR, rerr ? 60 : 0); sim::set_rate(sim::F_STALL, sim::cfg(5) == 0 ? 2 : 0);
      sim::sample("file source, %zu-byte samples, ring %zu, %zu bytes%s%s%s", sizeof(T), cap, bytes, repeat ? ", repeating" : "", rshort ? ", short reads" : "", rerr ? ", read errors" : ""); }
    auto cfg = random_fg_config();
    struct Cb { int n = 0; } fcb; bool stuck_ok = repeat && whole == 0;
    {
        auto fg = cler::make_desktop_flowgraph(BlockRunner(src.get(), &dr.in), BlockRunner(&dr));
        fg.set_on_err_terminate_cb([](void* p) { Quiet z; ((Cb*)p)->n++; }, &fcb);
        for (unsigned r = 0; r < laps; r++) {
            { Quiet z; progress(); }
            size_t goal = repeat ? dr.pos + 1 + Wk((unsigned)(2 * whole + 1)) : whole; int c0 = fcb.n;
            fg.run(cfg);
            auto done = [&] { return fcb.n != c0 || (repeat && dr.pos >= goal); };
            if (stuck_ok || (r + 1 < laps && C(2))) until(done, 1000 + Wk(400000)); else until(done);
            fg.stop();
        }
        // what is still in the channel
        for (;;) { size_t d = dr.in.readN(dr.buf, 900); if (!d) break; dr.check(d); }
        Quiet z;
        bool ended = fcb.n > 0, errors = sim::fault_count(sim::F_READ_ERR) > 0;
        if (RW.eof_calls > 1) sim::fail("eof-repeated", "the end-of-file notification came %d times", RW.eof_calls);
        if (RW.eof_calls && repeat) sim::fail("eof-while-repeating", "a repeating file source reports the end of its file");
        if (ended && repeat && !errors) sim::fail("ended-while-repeating", "a repeating file source ended the graph");
        if (ended && !errors && dr.pos != whole) sim::fail("lost-samples", "the file has %zu whole samples, the source delivered %zu and ended", whole, dr.pos);
        if (ended && !errors && with_cb && RW.eof_calls != 1) sim::fail("eof-missing", "the source ended the graph without the end-of-file notification");
        if (RW.eof_calls && dr.pos != whole) sim::fail("eof-too-early", "the file has %zu whole samples, the source delivered %zu and reported the end of the file", whole, dr.pos);
        if (dr.pos >= 1 || whole == 0) sim::nontrivial();
    }
    src.reset();
    Quiet z; if (sim::live_files() != fds) sim::fail("leak", "the file source leaves its file open");
}
static void s_fsource() { switch (C(5)) { case 0: file_source<float>(); break; case 1: file_source<uint8_t>(); break; case 2: file_source<S12>(); break; case 3: file_source<std::complex<float>>(); break; case 4: file_source<int16_t>(); } }

// C28: file -> throttle -> file, called in turn from one thread
static void s_floop() {
    size_t n, c1, c2; double sps; unsigned order; int fds; std::string d;
    { Quiet z; n = 1 + sim::work(sim::cfg(2) ? 60 : 6000); static const double rs[4] = {1e6, 200e3, 48e3, 7e6}; sps = rs[sim::cfg(4)]; c1 = 1024 + (sim::cfg(3) == 0 ? sim::cfg(700) : 0); c2 = 1024 + (sim::cfg(3) == 0 ? sim::cfg(700) : 0); order = sim::cfg(4); fds = sim::live_files();
      for (size_t i = 0; i < n * 4; i++) d += (char)(unsigned char)(i * 11 + (i >> 8) * 3);
      if (sim::cfg(3) == 0) d += "xy";      // a last sample that is cut short
      sim::fs_put("/in.bin", d); sim::set_rate(sim::F_READ_SHORT, sim::cfg(2) ? 200 : 0); sim::set_rate(sim::F_STALL, sim::cfg(5) == 0 ? 2 : 0); progress();
      sim::sample("file, throttle at %g, file: %zu samples by hand, order %u", sps, n, order); }
    {
        SourceFileBlock<uint32_t> s("source", "/in.bin", false); ThrottleBlock<uint32_t> t("throttle", sps, c1); SinkFileBlock<uint32_t> k("sink", "/out.bin", c2);
        bool ended = false; size_t seen = 0; unsigned hold[3] = {0, 0, 0};
        auto res = [](Result<Empty, Error> r, const char* w) { if (r.is_err() && cler::is_fatal(r.unwrap_err())) sim::fail("fatal-result", "called by hand, the %s reports a fatal error: %s", w, cler::to_str(r.unwrap_err())); };
        for (;;) {
            for (unsigned i = 0; i < 3; i++) {
                unsigned b = order == 1 ? 2 - i : order == 2 ? Wk(3) : i, reps = order == 3 ? 1 + Wk(4) : 1;
                if (hold[b]) { hold[b]--; continue; }       // this block is not called for a while
                { Quiet z; if (b && sim::work(200) == 199) hold[b] = 1 + sim::work(sim::work(2) ? 1600 : 30); }
                while (reps--) {
                    if (b == 0 && !ended) { auto r = s.procedure(&t.in); if (r.is_err() && cler::is_fatal(r.unwrap_err())) { ended = true; Quiet z; progress(); } }
                    if (b == 1) res(t.procedure(&k.in), "throttle");
                    if (b == 2) res(k.procedure(), "file sink");
                }
                Quiet z; size_t now = t.in.size() * 7 + k.in.size(); if (now != seen) { seen = now; progress(); }
            }
            if (ended && t.in.size() == 0 && k.in.size() == 0) break;
        }
    }
    Quiet z; std::string o = sim::fs_get("/out.bin");
    if (o != d.substr(0, n * 4)) sim::fail("lost-samples", "the file of %zu samples became one of %zu bytes%s", n, o.size(), o.size() == n * 4 ? " with other contents" : "");
    if (sim::live_files() != fds) sim::fail("leak", "a file stays open");
    sim::nontrivial();
}

static const sim::Scenario S[] = {{"throttle", 1, s_throttle}, {"pace", 1, s_pace}, {"fsink", 1, s_fsink}, {"fsource", 1, s_fsource}, {"floop", 1, s_floop}};
int main(int c, char** v) { return sim::main(c, v, S, sizeof S / sizeof *S); }
