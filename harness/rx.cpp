// C22: packet receivers: the same packets for every cutting of the stream and every back-pressure.
#include "common.hpp"
#include <thread>
#include "desktop_blocks/adsb/adsb_decoder.hpp"
#include "desktop_blocks/ezgmsk/ezgmsk_demod.hpp"
#include "desktop_blocks/ezgmsk/ezgmsk_mod.hpp"

static void pause_(unsigned max) { uint64_t ns; { Quiet z; ns = 100 + sim::work(max); } std::this_thread::sleep_for(std::chrono::nanoseconds(ns)); }

// ------------------------------------------------------------------ neighbours
// feeds a stream in pieces of chosen sizes
template <class T> struct Feed : cler::BlockBase {
    std::vector<T> data; size_t at = 0; unsigned piece, lazy; uint64_t pieces = 0;
    Feed(unsigned p, unsigned l) : BlockBase("feed"), piece(p), lazy(l) {}
    Result<Empty, Error> procedure(ChannelBase<T>* out) {
        size_t n; { Quiet z; n = data.size() - at; if (!n) return Error::NotEnoughSamples; }
        if (lazy && Wk(lazy) == 1) pause_(20000);
        n = std::min<size_t>(n, 1 + Wk(piece));
        const T* p; { Quiet z; p = data.data() + at; }
        size_t k;
        if (Wk(2)) { auto w = out->write_dbf(); k = std::min(n, w.second); if (k) { memcpy((void*)w.first, p, k * sizeof(T)); out->commit_write(k); } }
        else k = out->writeN(p, n);
        if (!k) return Error::NotEnoughSpace;
        Quiet z; at += k; pieces++; progress(); return Empty{};
    }
    bool done() { Quiet z; return at >= data.size(); }
};
template <size_t N> struct Take : cler::BlockBase {
    Channel<mode_s_msg, N> in; std::vector<mode_s_msg> got; unsigned stall = 0, lazy; uint64_t full = 0;
    Take(unsigned l) : BlockBase("take"), lazy(l) {}
    Result<Empty, Error> procedure() {
        if (stall) { stall--; pause_(3000); return Error::NotEnoughSamples; }
        { Quiet z; if (lazy && sim::work(lazy) == 1) stall = sim::work(12); if (!in.space()) full++; }
        unsigned k = 1 + Wk(3), did = 0; mode_s_msg v;
        while (did < k && in.try_pop(v)) { did++; Quiet z; got.push_back(v); progress(); }
        return did ? Result<Empty, Error>(Empty{}) : Result<Empty, Error>(Error::NotEnoughSamples);
    }
};

// ------------------------------------------------------------------ the air
struct Frame { unsigned char b[14]; int bits; };
static const uint32_t planes[4] = {0x4840d6, 0x3c6586, 0xa0f1b2, 0x7c1234};
static uint32_t crc24(const unsigned char* p, int n) { uint32_t c = 0; for (int i = 0; i < n; i++) { c ^= (uint32_t)p[i] << 16; for (int k = 0; k < 8; k++) { c <<= 1; if (c & 0x1000000) c ^= 0x1fff409; } } return c & 0xffffff; }
static void seal(Frame& f, uint32_t x) { int n = f.bits / 8 - 3; uint32_t c = crc24(f.b, n) ^ x; f.b[n] = c >> 16; f.b[n + 1] = c >> 8; f.b[n + 2] = c; }
static Frame frame(unsigned heard) {   // heard: bit mask of aircraft that identified themselves before
    Frame f; memset(&f, 0, sizeof f); unsigned a = sim::work(4), k = sim::work(8); uint32_t icao = planes[a];
    auto put = [&] { f.b[1] = icao >> 16; f.b[2] = icao >> 8; f.b[3] = icao; };
    if (k >= 6 && (heard >> a & 1)) { static const int df[6] = {0, 4, 5, 16, 20, 21}; int d = df[sim::work(6)]; f.bits = d < 16 ? 56 : 112; f.b[0] = d << 3 | sim::work(8); for (int i = 1; i < f.bits / 8 - 3; i++) f.b[i] = sim::work(256); seal(f, icao); return f; }
    if (k >= 4) { f.bits = 56; f.b[0] = 11 << 3 | 5; put(); seal(f, 0); return f; }
    f.bits = 112; f.b[0] = 17 << 3 | 5; put(); static const int me[4] = {4, 11, 19, 28}; f.b[4] = me[sim::work(4)] << 3 | (sim::work(4) + 1); for (int i = 5; i < 11; i++) f.b[i] = sim::work(256); seal(f, 0); return f;
}
// envelope in steps of a twelfth of a microsecond
static void key(std::vector<float>& e, const Frame& f, float amp) {
    std::vector<float> s(96, 0.f); for (int p : {0, 12, 42, 54}) for (int i = 0; i < 6; i++) s[p + i] = amp;
    for (int i = 0; i < f.bits; i++) { bool one = f.b[i / 8] >> (7 - i % 8) & 1; for (int h = 0; h < 2; h++) for (int j = 0; j < 6; j++) s.push_back((h == 0) == one ? amp : 0.f); }
    e.insert(e.end(), s.begin(), s.end());
}
struct Air { std::vector<uint16_t> mag; std::vector<Frame> sent; };
static Air air(bool r24, bool clean, unsigned frames) {
    Air A; std::vector<float> e; unsigned heard = 0; float floor_ = clean ? 100.f : 100.f + sim::cfg(4) * 400.f; unsigned gapk = sim::cfg(3);
    const int step = r24 ? 5 : 6;
    auto gap = [&](unsigned lo) { unsigned n = lo + sim::work(gapk == 0 ? 40 : gapk == 1 ? 400 : 3000); e.insert(e.end(), n * step, 0.f); };
    gap(8);
    for (unsigned i = 0; i < frames; i++) {
        Frame f = frame(heard); float amp = clean ? 20000.f : 2000.f + sim::work(20000);
        if (r24 || !clean) e.insert(e.end(), sim::work(clean ? 5 : 6), 0.f); else while (e.size() % 6) e.push_back(0.f);
        size_t start = e.size(); key(e, f, amp); A.sent.push_back(f); if (f.b[0] >> 3 == 11 || f.b[0] >> 3 == 17) for (int a = 0; a < 4; a++) if (planes[a] == ((uint32_t)f.b[1] << 16 | f.b[2] << 8 | f.b[3])) heard |= 1u << a;
        if (!clean) switch (sim::work(6)) {   // damage
            case 1: { size_t o = start + 96 + 12 * sim::work(f.bits); for (int j = 0; j < 12 && o + j < e.size(); j++) e[o + j] = amp - e[o + j]; break; }                      // a wrong bit
            case 2: e.resize(start + sim::work((uint32_t)(e.size() - start))); break;                                                                                             // cut off
            case 3: { size_t n = e.size(), o = start + sim::work((uint32_t)(n - start)); Frame g = frame(0); key(e, g, amp * 1.5f); std::vector<float> t(e.begin() + n, e.end()); e.resize(n); if (e.size() < o + t.size()) e.resize(o + t.size(), 0.f); for (size_t j = 0; j < t.size(); j++) e[o + j] += t[j]; break; }   // two at once
            default: break; }
        gap(clean ? 8 : sim::work(3) ? 8 : 0);
    }
    e.insert(e.end(), 1000 * step, 0.f);
    for (size_t i = 0; i + step <= e.size(); i += step) { float s = 0; for (int j = 0; j < step; j++) s += e[i + j]; s = s / step + sim::work((uint32_t)floor_ + 1); A.mag.push_back((uint16_t)std::min(s, 60000.f)); }
    return A;
}
static std::string show(const mode_s_msg& m) { char t[80]; int n = snprintf(t, sizeof t, "DF%d ", m.msgtype); for (int i = 0; i < m.msgbits / 8 && i < 14; i++) n += snprintf(t + n, sizeof t - n, "%02x", m.msg[i]); return t; }
static std::string differ(const mode_s_msg& a, const mode_s_msg& b) {
    char t[120];
    if (a.msgbits != b.msgbits || memcmp(a.msg, b.msg, std::min(a.msgbits, 112) / 8)) return "message";
    #define D(f) if (a.f != b.f) { snprintf(t, sizeof t, #f " (%d, not %d)", (int)a.f, (int)b.f); return t; }
    D(msgtype) D(crcok) D(crc) D(errorbit) D(aa1) D(aa2) D(aa3) D(phase_corrected) D(ca) D(metype) D(mesub) D(heading_is_valid) D(heading) D(aircraft_type) D(fflag) D(tflag) D(raw_latitude) D(raw_longitude)
    D(ew_dir) D(ew_velocity) D(ns_dir) D(ns_velocity) D(vert_rate_source) D(vert_rate_sign) D(vert_rate) D(velocity) D(fs) D(dr) D(um) D(identity) D(altitude) D(unit)
    #undef D
    if (strncmp(a.flight, b.flight, 9)) return "flight";
    return "";
}
static void check_fields(const mode_s_msg& m) {
    if (!m.crcok) sim::fail("altered-message", "%s is passed on with a bad checksum", show(m).c_str());
    bool ext = m.msgtype == 17; const char* w = nullptr;
    if (!(ext && m.metype >= 1 && m.metype <= 4) && m.flight[0]) w = "a callsign";
    if (!(ext && m.metype == 19) && (m.velocity || m.vert_rate || m.heading)) w = "a velocity";
    if (!(ext && m.metype >= 9 && m.metype <= 18) && (m.raw_latitude || m.raw_longitude)) w = "a position";
    if (!(ext && m.metype >= 9 && m.metype <= 18) && m.msgtype != 0 && m.msgtype != 4 && m.msgtype != 16 && m.msgtype != 20 && m.altitude) w = "an altitude";
    if (w) sim::fail("altered-message", "%s reports %s it does not carry", show(m).c_str(), w);
}
static void poison() { volatile unsigned char s[4096]; for (size_t i = 0; i < sizeof s; i++) s[i] = 0xcb; }

// the same block, alone, fed as much as it takes at a time
static std::vector<mode_s_msg> reference(const Air& a, ADSBDecoderBlock::SampleRateMode mode) {
    std::vector<mode_s_msg> got; auto d = std::make_unique<ADSBDecoderBlock>("reference", mode); auto out = std::make_unique<Channel<mode_s_msg>>(4096); size_t at = 0;
    for (unsigned idle = 0; idle < 3;) {
        size_t k = d->in.writeN(a.mag.data() + at, a.mag.size() - at); at += k; size_t was = d->in.size(); auto r = d->procedure(out.get()); (void)r; bool moved = k > 0 || d->in.size() != was; mode_s_msg m;
        while (out->try_pop(m)) { Quiet z; got.push_back(m); moved = true; }
        idle = moved ? 0 : idle + 1; Quiet z; if (moved) progress();
    }
    return got;
}

template <size_t N> struct Chain { Air air_; bool clean, r24; std::vector<mode_s_msg> ref; std::unique_ptr<Feed<uint16_t>> feed; std::unique_ptr<ADSBDecoderBlock> dec; std::unique_ptr<Take<N>> take; uint32_t filter = ~0u, all = ~0u, any = ~0u; };
template <size_t N> static void adsb_(bool r24) {
    unsigned nchain, turns = 0; Chain<N> ch[2]; cler::FlowGraphConfig cfg; static uint32_t masks[4];
    { Quiet z; sim::set_weak(sim::cfg(2)); sim::set_rate(sim::F_STALL, sim::cfg(3) == 1 ? 2 : 0); sim::set_rate(sim::F_SPURIOUS_WAKE, sim::cfg(3) == 1 ? 40 : 0);
      nchain = 1 + (sim::cfg(4) == 3); cfg = random_fg_config(); cfg.adaptive_sleep = sim::cfg(2); if (sim::cfg(3) == 1) turns = 1 + sim::work(6);
      for (unsigned i = 0; i < nchain; i++) {
          auto& c = ch[i]; c.r24 = i ? (bool)sim::cfg(2) : r24; c.clean = sim::cfg(3) != 2; c.air_ = air(c.r24, c.clean, 1 + sim::work(14));
          static const unsigned piece[5] = {3000, 1, 300, 60, 700}; unsigned p = piece[sim::cfg(5)]; if (p < 60 && c.air_.mag.size() > 6000) p = 60;
          c.feed = std::make_unique<Feed<uint16_t>>(p, sim::cfg(2) ? 8 : 0); c.feed->data = c.air_.mag; c.take = std::make_unique<Take<N>>(sim::cfg(2) ? 3 : 0);
          c.filter = sim::cfg(3) ? ~0u : (1u << 17 | (sim::cfg(2) ? 1u << 11 : 0) | sim::cfg(2) << 4); c.all = c.any = c.filter; }
      if (turns) for (unsigned i = 0; i < 4; i++) { static const uint32_t ms[4] = {~0u, 1u << 17, 1u << 11 | 1u << 4, 1u << 17 | 1u << 20}; masks[i] = ms[(i + sim::cfg(4)) % 4]; ch[0].all &= masks[i]; ch[0].any |= masks[i]; }
    }
    progress(); uint64_t t0; { Quiet z; t0 = sim::now_ns(); }
    for (unsigned i = 0; i < nchain; i++) { poison(); ch[i].ref = reference(ch[i].air_, ch[i].r24 ? ADSBDecoderBlock::SampleRateMode::RATE_2_4MHZ : ADSBDecoderBlock::SampleRateMode::RATE_2MHZ); }
    for (unsigned i = 0; i < nchain; i++) ch[i].dec = std::make_unique<ADSBDecoderBlock>(i ? "d2" : "d1", ch[i].r24 ? ADSBDecoderBlock::SampleRateMode::RATE_2_4MHZ : ADSBDecoderBlock::SampleRateMode::RATE_2MHZ, ch[i].filter);
    { Quiet z; size_t sent = 0, n = 0; for (unsigned i = 0; i < nchain; i++) sent += ch[i].air_.sent.size(), n += ch[i].air_.mag.size();
      sim::sample("%s, %s: %zu frames in %zu samples, pieces of %u, room for %zu messages%s, %s", nchain == 2 ? "two decoders" : ch[0].r24 ? "2.4 MHz" : "2 MHz", ch[0].clean ? "clean" : "damaged", sent, n, ch[0].feed->piece, N, turns ? ", filter changes" : "", cfg_name(cfg)); }
    auto go = [&](auto& fg) {
        std::thread ctl; { Quiet z; progress(); } if (turns) ctl = std::thread([&] { for (unsigned i = 0; i < turns; i++) { pause_(60000); ch[0].dec->set_df_filter(masks[Wk(4)]); } });
        fg.run(cfg);
        until([&] { for (unsigned i = 0; i < nchain; i++) if (!ch[i].feed->done() || ch[i].dec->in.size() > 600 || ch[i].take->in.size()) return false; return true; });
        if (ctl.joinable()) ctl.join();
        fg.stop();
    };
    #define CHAIN(i) BlockRunner(ch[i].feed.get(), (ChannelBase<uint16_t>*)&ch[i].dec->in), BlockRunner(ch[i].dec.get(), (ChannelBase<mode_s_msg>*)&ch[i].take->in), BlockRunner(ch[i].take.get())
    if (nchain == 1) { auto fg = cler::make_desktop_flowgraph(CHAIN(0)); go(fg); }
    else { auto fg = cler::make_desktop_flowgraph(CHAIN(0), CHAIN(1)); go(fg); }
    for (unsigned i = 0; i < nchain; i++) {
        auto& c = ch[i]; mode_s_msg m; while (c.take->in.try_pop(m)) { Quiet z; c.take->got.push_back(m); }
        Quiet z; auto& got = c.take->got; sim::probe("messages", got.size()); if (c.take->full) sim::probe("output full"); if (got.size() > 3 && c.feed->pieces > 3) sim::nontrivial();
        for (auto& g : got) { check_fields(g); if (!(c.any >> g.msgtype & 1)) sim::fail("filter", "%s passes a filter that never let DF%d through", show(g).c_str(), g.msgtype); }
        // what one call after another made of it, against what one go makes of it
        size_t k = 0; 
        for (auto& r : c.ref) {
            if (!(c.any >> r.msgtype & 1)) continue;
            bool must = (c.all >> r.msgtype & 1) && (sim::now_ns() - t0 < 55000000000ull || r.msgtype == 11 || r.msgtype == 17);   // an aircraft not heard of for a minute is forgotten
            if (k >= got.size()) { if (must) sim::fail("lost-message", "chain %u: after %zu messages, %s is missing (and all that follow)", i, got.size(), show(r).c_str()); continue; }
            std::string d = differ(got[k], r);
            if (d.empty()) { k++; continue; }
            if (must) { bool later = false; for (size_t j = k; j < got.size(); j++) if (differ(got[j], r).empty()) later = true;
                sim::fail(d == "message" && !later ? "lost-message" : "altered-message", "chain %u: message %zu is %s; the uncut stream gives %s (differs in %s)", i, k, show(got[k]).c_str(), show(r).c_str(), d.c_str()); }
        }
        if (k < got.size()) sim::fail("extra-message", "chain %u: message %zu, %s, is not one the uncut stream gives", i, k, show(got[k]).c_str());
        if (c.clean) {   // what was sent, against what one go makes of it
            size_t k2 = 0; const Frame* was = nullptr; for (auto& f : c.air_.sent) {
                if (c.r24 && was && was->bits == f.bits && !memcmp(was->b, f.b, sizeof f.b)) continue;   // at 2.4 MHz one frame is found at several offsets: repeats are not told apart
                was = &f;
                bool hit = false; while (k2 < c.ref.size() && c.ref[k2].msgbits == f.bits && !memcmp(c.ref[k2].msg, f.b, f.bits / 8)) { hit = true; k2++; if (!c.r24) break; }
                if (!hit) { char t[40]; int n = 0; for (int j = 0; j < f.bits / 8; j++) n += snprintf(t + n, sizeof t - n, "%02x", f.b[j]); sim::fail("lost-message", "a clean stream: %s was sent, %s", t, k2 < c.ref.size() ? show(c.ref[k2]).c_str() : "nothing"); } }
            if (k2 < c.ref.size()) sim::fail("extra-message", "a clean stream: %s was never sent", show(c.ref[k2]).c_str());
        }
    }
}
static void adsb(bool r24) { switch (C(4)) { case 0: adsb_<16>(r24); break; case 1: adsb_<2>(r24); break; case 2: adsb_<4>(r24); break; default: adsb_<64>(r24); } }
static void s_adsb2() { adsb(false); }
static void s_adsb24() { adsb(true); }

// ------------------------------------------------------------------ GMSK
struct Ev { unsigned at; int state; std::string hdr, pay; float rssi, snr; };
static std::vector<Ev>* EV;
static int on_gmsk(unsigned at, ezgmsk::ezgmsk_demod_state_en st, unsigned char* h, unsigned char* p, unsigned n, float rssi, float snr, void* ctx) {
    Quiet z; progress(); Ev e{at, (int)st, h ? std::string((char*)h, 3) : "", p ? std::string((char*)p, n) : "", rssi, snr}; ((std::vector<Ev>*)ctx)->push_back(e); return h ? h[0] : 0;
}
struct BlobFeed : cler::BlockBase {
    Slab* slab; std::vector<std::string> pkts; size_t at = 0; unsigned lazy; BlobFeed(Slab* s, unsigned l) : BlockBase("blobs"), slab(s), lazy(l) {}
    Result<Empty, Error> procedure(ChannelBase<Blob>* out) {
        { Quiet z; if (at >= pkts.size()) return Error::NotEnoughSamples; }
        if (lazy && Wk(lazy) == 1) pause_(30000);
        if (!out->space()) return Error::NotEnoughSpace;
        auto r = slab->take_slot(); if (r.is_err()) return Error::NotEnoughSpace; Blob b = r.unwrap();
        size_t n; const char* p; { Quiet z; n = pkts[at].size(); p = pkts[at].data(); at++; progress(); }
        memcpy(b.data, p, n); b.len = n; out->push(b); return Empty{};
    }
};
// passes samples on in pieces, with quiet air between and noise on top; remembers what went through
typedef std::complex<float> cf;
struct AirBlock : cler::BlockBase {
    Channel<cf> in; std::vector<cf> all; unsigned piece, noise, lazy; size_t passed = 0, tail_left = 0;
    AirBlock(size_t n, unsigned p, unsigned ns, unsigned l) : BlockBase("air"), in(n), piece(p), noise(ns), lazy(l) {}
    Result<Empty, Error> procedure(ChannelBase<cf>* out) {
        cf t[256]; size_t n = std::min<size_t>(1 + Wk(piece), out->space()); n = std::min<size_t>(n, 256); if (!n) return Error::NotEnoughSpace;
        if (lazy && Wk(lazy) == 1) pause_(20000);
        size_t k = in.readN(t, n); bool idle;
        { Quiet z; idle = !k && tail_left; if (idle) { k = std::min(n, tail_left); tail_left -= k; for (size_t i = 0; i < k; i++) t[i] = 0; } }
        if (!k) return Error::NotEnoughSamples;
        { Quiet z; for (size_t i = 0; i < k; i++) { if (noise) t[i] += cf((float)sim::work(noise) / 4096.f, (float)sim::work(noise) / 4096.f); all.push_back(t[i]); } progress(); }
        out->writeN(t, k); Quiet z; passed += k; return Empty{};
    }
};
static void s_gmsk() {
    unsigned k, m, pre, npk, noise, piece, lazy; bool tight; static unsigned char sync[24]; static const unsigned char SW[3] = {0x55, 0x90, 0x4e}; cler::FlowGraphConfig cfg; std::vector<std::string> pkts; size_t slots;
    { Quiet z; sim::set_weak(sim::cfg(2)); sim::set_rate(sim::F_STALL, sim::cfg(3) == 1 ? 2 : 0);
      cfg = random_fg_config(); cfg.adaptive_sleep = sim::cfg(2); k = sim::cfg(2) ? 4 : 2; m = 3; pre = 24; npk = 1 + sim::work(5); static const unsigned nz[3] = {0, 16, 400}; noise = nz[sim::cfg(3)]; static const unsigned pc[4] = {256, 1, 17, 100}; piece = pc[sim::cfg(4)]; if (piece < 17 && npk > 2) piece = 17; lazy = sim::cfg(2) ? 10 : 0; tight = sim::cfg(2); slots = 1 + sim::cfg(4);
      for (int i = 0; i < 24; i++) sync[i] = SW[i / 8] >> (7 - i % 8) & 1;
      for (unsigned i = 0; i < npk; i++) { unsigned n = 1 + sim::work(20); std::string s((char*)SW, 3); s += (char)n; s += (char)i; s += (char)sim::work(256); for (unsigned j = 0; j < n; j++) s += (char)sim::work(256); pkts.push_back(s); } }
    std::vector<Ev> ev, ref; progress();
    { Slab slab(slots, 64); size_t biggest = (24 + 26 * 8 + 6) * k;
      BlobFeed feed(&slab, lazy); { Quiet z; feed.pkts = pkts; }
      EZGmskModBlock mod("mod", k, m, 0.3f, pre, 8); AirBlock air_(tight ? std::max<size_t>(biggest, 512) : 8192, piece, noise, lazy);
      EZGmskDemodBlock dem("demod", k, m, 0.3f, pre / 2, sync, 24, 3, 255, on_gmsk, &ev);
      { Quiet z; sim::sample("%u packets, %u samples per symbol, noise %u, pieces of %u%s, %s", npk, k, noise, piece, tight ? ", room for one packet" : "", cfg_name(cfg)); air_.tail_left = 0; }
      auto fg = cler::make_desktop_flowgraph(BlockRunner(&feed, (ChannelBase<Blob>*)&mod.in), BlockRunner(&mod, (ChannelBase<cf>*)&air_.in), BlockRunner(&air_, (ChannelBase<cf>*)&dem.in), BlockRunner(&dem));
      progress(); fg.run(cfg);
      size_t total = 0; { Quiet z; for (auto& p : pkts) total += (pre + p.size() * 8 + 2 * m) * k; }
      until([&] { return feed.at >= npk && !mod.in.size() && air_.passed >= total; });
      { Quiet z; air_.tail_left = 64 * k; }
      until([&] { return air_.passed >= total + 64 * k && !dem.in.size(); });
      fg.stop();
      { Quiet z; if (air_.all.size() != total + 64 * k) sim::fail("lost-message", "%zu samples were sent for %zu", air_.all.size(), total + 64 * k); if (slab.available_slots() != slots) sim::fail("lost-message", "%zu of %zu packet slots came back", slab.available_slots(), slots); }
      EZGmskDemodBlock one("reference", k, m, 0.3f, pre / 2, sync, 24, 3, 255, on_gmsk, &ref); size_t at = 0;
      while (at < air_.all.size() || one.in.size()) { at += one.in.writeN(air_.all.data() + at, air_.all.size() - at); size_t s = one.in.size(); auto r = one.procedure(); { Quiet z; if (r.is_err() && one.in.size() == s) sim::fail("stalled", "the demodulator takes none of %zu samples", s); progress(); } }
    }
    Quiet z; size_t got = 0;
    auto eq = [](float a, float b) { return a == b || (a != a && b != b); };
    auto same = [&](const Ev& a, const Ev& b) { return a.at == b.at && a.state == b.state && a.hdr == b.hdr && a.pay == b.pay && eq(a.rssi, b.rssi) && eq(a.snr, b.snr); };
    for (size_t i = 0; i < std::max(ev.size(), ref.size()); i++) {
        if (i >= ev.size()) sim::fail("lost-message", "the stream in pieces gives %zu events, the uncut one %zu", ev.size(), ref.size());
        if (i >= ref.size()) sim::fail("extra-message", "the stream in pieces gives %zu events, the uncut one %zu", ev.size(), ref.size());
        if (!same(ev[i], ref[i])) sim::fail("altered-message", "event %zu (state %d, sample %u) differs from that of the uncut stream (state %d, sample %u)", i, ev[i].state, ev[i].at, ref[i].state, ref[i].at); }
    for (auto& e : ev) if (e.state == ezgmsk::EZGMSK_DEMOD_STATE_RXPAYLOAD) {
        std::string s((char*)SW, 3); s += e.hdr + e.pay; bool ok = false; while (got < npk && !(ok = pkts[got++] == s)) {}
        if (!ok && noise < 100) sim::fail("altered-message", "a packet was received that was not sent"); }
    size_t pays = 0; for (auto& e : ev) pays += e.state == ezgmsk::EZGMSK_DEMOD_STATE_RXPAYLOAD; if (pays < npk && noise < 100) sim::fail("lost-message", "%u packets were sent without noise, %zu were received", npk, pays);
    sim::probe("packets", pays); if (pays > 1) sim::nontrivial();
}

static const sim::Scenario S[] = {{"adsb2", 3, s_adsb2}, {"adsb24", 3, s_adsb24}, {"gmsk", 2, s_gmsk}};
int main(int argc, char** argv) { return sim::main(argc, argv, S, 3); }
