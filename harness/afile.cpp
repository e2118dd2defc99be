// C23: the audio file source.  Demuxer, decoder and resampler are stand-ins (harness/av) with FFmpeg's
// contracts; packet and frame sizes, delays, errors and refusals are the simulator's choices.
#include "common.hpp"
#include <deque>
#include "desktop_blocks/sources/source_audio_file.hpp"
#include "desktop_blocks/sinks/sink_audio.hpp"
#include <atomic>
#include <chrono>
#include <csignal>
#include <thread>
// the example program (C29), whole
namespace ex_play {
#include "desktop_examples/audio_file_playback.cpp"
}

struct Pkt { int stream; std::vector<unsigned> frames; uint64_t first; };
static struct File {
    std::vector<Pkt> pkts; uint64_t total = 0;                     // samples of the audio stream
    unsigned delay = 0, lag = 0; int up = 1, down = 1; int ch = 1, audio = 1; bool named = true, planar = false; bool setting_up = false, seekable = true, slow = false;
    int live = 0, setup_faults = 0; unsigned errs = 0, reads = 0, seeks = 0;
    uint64_t given = 0;                                            // samples swr_convert() returned
} f;
static bool flt(sim::Fault k) { Quiet z; return sim::fault(k); }
static bool setup_fault() { if (!f.setting_up || !flt(sim::F_DEV_ERR)) return false; Quiet z; f.setup_faults++; return true; }
static bool run_fault() { if (f.setting_up || !flt(sim::F_DEV_ERR)) return false; Quiet z; f.errs++; return true; }
[[noreturn]] static void misuse(const char* w) { sim::fail("library-misuse", "%s", w); }
// sample number k of the audio stream / of the resampled output
static float in_sample(uint64_t k) { return (float)((k % f.total) + 1); }
static uint64_t outs_of(uint64_t n_in) { return f.up * n_in % f.down ? f.up * n_in / f.down + 1 : f.up * n_in / f.down; }
static float out_sample(uint64_t k) { return in_sample(k * f.down / f.up); }

struct Fmt : AVFormatContext { size_t pos = 0; AVStream* st[2]; AVStream s[2]; AVCodecParameters par[2]; };
struct Cod : AVCodecContext { bool open = false, draining = false, ended = false; int held = -1; size_t fr = 0; uint64_t off = 0; std::deque<std::pair<uint64_t, unsigned>> line; bool have = false; std::pair<uint64_t, unsigned> ready; AVFrame* out = nullptr; };
struct SwrContext { int ch = 1; bool init = false; std::vector<float> in; uint64_t out = 0; bool flushed = false; };
static AVFrame* last_frame; static AVCodec codec_ = {AV_CODEC_ID_SIM};
static void drop_data(AVFrame* a) { Quiet z; if (a->extended_data && a->extended_data != a->data) delete[] a->extended_data; a->extended_data = a->data; if (a->data[0]) { delete[] (float*)a->data[0]; a->data[0] = nullptr; } a->nb_samples = 0; }
static int live_packets;
static NOTSAN bool produce(Cod* c) {          // one frame, if the decoder has one to give
    for (;;) {
        if (c->line.size() > f.delay || (c->draining && c->held < 0 && !c->line.empty())) { c->ready = c->line.front(); c->line.pop_front(); return c->have = true; }
        if (c->held < 0) return false;
        Pkt& p = f.pkts[c->held];
        if (c->fr == p.frames.size()) { c->held = -1; continue; }
        c->line.push_back({p.first + c->off, p.frames[c->fr]}); c->off += p.frames[c->fr++];
    }
}
static uint64_t mask_of(int n) { return n == 1 ? AV_CH_LAYOUT_MONO : n == 2 ? AV_CH_LAYOUT_STEREO : n == 3 ? 7 : n == 4 ? AV_CH_LAYOUT_QUAD : n == 6 ? AV_CH_LAYOUT_5POINT1 : n == 16 ? 0x18003f737ull /* hexadecagonal */ : 0; }
static AVChannelLayout layout_of(int n, bool named) { AVChannelLayout l; memset(&l, 0, sizeof l); l.nb_channels = n; if (named && mask_of(n)) { l.order = AV_CHANNEL_ORDER_NATIVE; l.u.mask = mask_of(n); } return l; }
extern "C" {
void av_channel_layout_default(AVChannelLayout* l, int n) { *l = layout_of(n, true); } void av_channel_layout_uninit(AVChannelLayout* l) { memset(l, 0, sizeof *l); } int av_channel_layout_copy(AVChannelLayout* a, const AVChannelLayout* b) { *a = *b; return 0; }
int av_strerror(int, char* b, size_t n) { snprintf(b, n, "simulated error"); return 0; }
int avformat_open_input(AVFormatContext** o, const char*, const AVInputFormat*, AVDictionary**) { if (setup_fault()) { *o = nullptr; return AVERROR(ENOENT); } Quiet z; auto* c = new Fmt; f.live++; for (int i = 0; i < 2; i++) { bool a = i == f.audio; c->par[i].codec_id = a ? AV_CODEC_ID_SIM : AV_CODEC_ID_NONE; c->par[i].sample_rate = a ? 48000 : 0; c->par[i].ch_layout = layout_of(a ? f.ch : 0, f.named); c->s[i] = {i, &c->par[i]}; c->st[i] = &c->s[i]; } c->nb_streams = 2; c->streams = c->st; *o = c; return 0; }
int avformat_find_stream_info(AVFormatContext*, AVDictionary**) { return setup_fault() ? AVERROR_INVALIDDATA : 0; }
void avformat_close_input(AVFormatContext** o) { if (!*o) return; Quiet z; delete (Fmt*)*o; *o = nullptr; f.live--; }
int av_find_best_stream(AVFormatContext*, enum AVMediaType, int, int, const AVCodec**, int) { return setup_fault() ? AVERROR_INVALIDDATA : f.audio; }
int av_read_frame(AVFormatContext* o, AVPacket* p) {
    if (live_packets) misuse("av_read_frame() into a packet that was not released");
    auto* c = (Fmt*)o; { Quiet z; f.reads++; }
    if (run_fault()) return AVERROR(EIO);
    if (flt(sim::F_DEV_STALL)) { uint64_t ns; { Quiet z; ns = 20000 + sim::fault_pick(sim::F_DEV_STALL, 100) * 20000; } std::this_thread::sleep_for(std::chrono::nanoseconds(ns)); }
    else sim::point();
    Quiet z; if (c->pos == f.pkts.size()) return AVERROR_EOF;
    p->data = (uint8_t*)&f.pkts[c->pos]; p->size = 1; p->stream_index = f.pkts[c->pos].stream; p->pts = (int64_t)c->pos; c->pos++; live_packets++; return 0;
}
int av_seek_frame(AVFormatContext* o, int, int64_t t, int) { auto* c = (Fmt*)o; { Quiet z; f.seeks++; } if (!f.seekable || run_fault()) { Quiet z; f.errs++; return AVERROR(ESPIPE); } if (t != 0) misuse("a seek to somewhere in the file"); c->pos = 0; return 0; }
int avformat_seek_file(AVFormatContext* o, int s, int64_t, int64_t t, int64_t, int fl) { return av_seek_frame(o, s, t, fl); }
const AVCodec* avcodec_find_decoder(enum AVCodecID id) { if (id != AV_CODEC_ID_SIM) return nullptr; return setup_fault() ? nullptr : &codec_; }
AVCodecContext* avcodec_alloc_context3(const AVCodec*) { if (setup_fault()) return nullptr; Quiet z; f.live++; return new Cod; }
void avcodec_free_context(AVCodecContext** o) { if (!*o) return; Quiet z; delete (Cod*)*o; *o = nullptr; f.live--; }
int avcodec_parameters_to_context(AVCodecContext* c, const AVCodecParameters* p) { if (p->codec_id != AV_CODEC_ID_SIM) misuse("the decoder is set up for another stream"); c->sample_rate = p->sample_rate; c->ch_layout = p->ch_layout; return 0; }
int avcodec_open2(AVCodecContext* c, const AVCodec*, AVDictionary**) { if (setup_fault()) return AVERROR_INVALIDDATA; c->sample_fmt = f.planar ? AV_SAMPLE_FMT_FLTP : AV_SAMPLE_FMT_FLT; ((Cod*)c)->open = true; return 0; }
int avcodec_send_packet(AVCodecContext* o, const AVPacket* p) {
    auto* c = (Cod*)o; if (!c->open) misuse("a packet for a decoder that is not open");
    Quiet z; if (c->draining) return AVERROR_EOF;
    if (!p || !p->data) { c->draining = true; if (!c->have) produce(c); return 0; }
    Pkt* k = (Pkt*)p->data; if (k->stream != f.audio) misuse("a packet of another stream given to the audio decoder");
    if (c->held >= 0) return AVERROR(EAGAIN);
    if (run_fault()) return AVERROR_INVALIDDATA;
    c->held = (int)(k - f.pkts.data()); c->fr = 0; c->off = 0; if (!c->have) produce(c); return 0;
}
int avcodec_receive_frame(AVCodecContext* o, AVFrame* a) {
    auto* c = (Cod*)o; if (!c->open) misuse("a frame from a decoder that is not open"); drop_data(a); Quiet z;
    if (!c->have && !produce(c)) return c->draining ? AVERROR_EOF : AVERROR(EAGAIN);
    c->have = false; a->nb_samples = (int)c->ready.second; auto* b = new float[c->ready.second * f.ch + 1]; unsigned nr = c->ready.second; a->ch_layout = c->ch_layout; a->data[0] = (uint8_t*)b; a->extended_data = a->data;
    if (!f.planar) for (unsigned i = 0; i < nr * f.ch; i++) b[i] = in_sample(c->ready.first + i / f.ch);
    else { for (unsigned k = 0; k < (unsigned)f.ch; k++) for (unsigned i = 0; i < nr; i++) b[k * nr + i] = in_sample(c->ready.first + i);
        if (f.ch > 8) a->extended_data = new uint8_t*[f.ch];      // one pointer per channel: data[] has room for eight
        for (int k = 0; k < f.ch; k++) { a->extended_data[k] = (uint8_t*)(b + k * nr); if (k < 8) a->data[k] = a->extended_data[k]; } } a->sample_rate = 48000; return 0;
}
void avcodec_flush_buffers(AVCodecContext* o) { auto* c = (Cod*)o; Quiet z; c->draining = false; c->held = -1; c->line.clear(); c->have = false; }
AVPacket* av_packet_alloc() { Quiet z; f.live++; auto* p = new AVPacket; memset(p, 0, sizeof *p); return p; }
void av_packet_unref(AVPacket* p) { if (p->data) { Quiet z; live_packets--; } p->data = nullptr; p->size = 0; p->stream_index = 0; }
void av_packet_free(AVPacket** p) { if (!*p) return; av_packet_unref(*p); Quiet z; delete *p; *p = nullptr; f.live--; }
AVFrame* av_frame_alloc() { if (setup_fault()) return nullptr; Quiet z; f.live++; auto* a = new AVFrame; memset(a, 0, sizeof *a); return a; }
void av_frame_unref(AVFrame* a) { drop_data(a); }
void av_frame_free(AVFrame** a) { if (!*a) return; drop_data(*a); Quiet z; delete *a; *a = nullptr; f.live--; }
static SwrContext* make_swr(int och, enum AVSampleFormat ofmt, int orate, int ich, enum AVSampleFormat ifmt, int irate) { if (setup_fault()) return nullptr; if (och != 1 || ich < 1 || ofmt != AV_SAMPLE_FMT_FLT || ifmt != (f.planar ? AV_SAMPLE_FMT_FLTP : AV_SAMPLE_FMT_FLT) || (uint64_t)orate * f.down != (uint64_t)irate * f.up) misuse("the resampler is set up for the wrong format"); Quiet z; f.live++; auto* s = new SwrContext; s->ch = ich; return s; }
SwrContext* swr_alloc_set_opts(SwrContext*, int64_t ol, enum AVSampleFormat ofmt, int orate, int64_t il, enum AVSampleFormat ifmt, int irate, int, void*) { return make_swr(__builtin_popcountll((uint64_t)ol), ofmt, orate, __builtin_popcountll((uint64_t)il), ifmt, irate); }
int swr_alloc_set_opts2(SwrContext** o, const AVChannelLayout* ol, enum AVSampleFormat ofmt, int orate, const AVChannelLayout* il, enum AVSampleFormat ifmt, int irate, int, void*) { *o = make_swr(ol->nb_channels, ofmt, orate, il->nb_channels, ifmt, irate); return *o ? 0 : AVERROR(ENOMEM); }
int swr_init(SwrContext* s) { if (setup_fault()) return AVERROR(EINVAL); s->init = true; return 0; }
int swr_is_initialized(SwrContext* s) { return s->init; }
void swr_close(SwrContext* s) { s->init = false; }
void swr_free(SwrContext** s) { if (!*s) return; Quiet z; delete *s; *s = nullptr; f.live--; }
static uint64_t can_give(SwrContext* s, uint64_t n_in, bool all) { if (!all) n_in = n_in > f.lag ? n_in - f.lag : 0; uint64_t n = all ? outs_of(n_in) : f.up * n_in / f.down; return n > s->out ? n - s->out : 0; }
int swr_get_out_samples(SwrContext* s, int n) { if (!s->init) misuse("a resampler that is not set up"); Quiet z; uint64_t all = outs_of(s->in.size() + (uint64_t)n); return (int)(all - s->out) + (int)f.delay; }
int64_t swr_get_delay(SwrContext* s, int64_t base) { Quiet z; uint64_t used = s->out * f.down / f.up; return (int64_t)((s->in.size() - used) * (uint64_t)base / 48000); }
NOTSAN static void resample(SwrContext* s, float* o, size_t k) { for (size_t i = 0; i < k; i++) o[i] = s->in[(s->out + i) * f.down / f.up]; s->out += k; f.given += k; }
int swr_convert(SwrContext* s, uint8_t** out, int room, const uint8_t** in, int n) {
    if (!s->init) misuse("a resampler that is not set up"); if (run_fault()) return AVERROR(EINVAL);
    if (in) { const float* p = (const float*)in[0]; std::vector<float> t(n);
        if (f.planar) { for (int k = 0; k < s->ch; k++) { bool ours = true; if (k >= 8 && n) { Quiet z; ours = (const float*)in[k] == p + (size_t)k * n; } if (!ours) misuse("the resampler is given eight channels of a frame that has more"); const float* q = (const float*)in[k]; for (int i = 0; i < n; i++) t[i] = q[i]; } }
        else for (int i = 0; i < n; i++) t[i] = p[i * s->ch]; Quiet z; s->in.insert(s->in.end(), t.begin(), t.end()); if (n) s->flushed = false; } else s->flushed = true;
    size_t k; { Quiet z; k = std::min<uint64_t>(room > 0 ? room : 0, can_give(s, s->in.size(), s->flushed)); }
    std::vector<float> t(k); { Quiet z; resample(s, t.data(), k); }
    float* o = k ? (float*)out[0] : nullptr; for (size_t i = 0; i < k; i++) o[i] = t[i];
    return (int)k;
}
}

static struct { int eofs = 0; uint64_t pushed = 0, want = 0; bool repeat = false; } R;
struct Listen : cler::BlockBase {
    TapChannel<float> in; uint64_t pos = 0; unsigned lazy, stall = 0; float buf[1500];
    Listen(size_t cap, unsigned l) : BlockBase("listener"), in(cap), lazy(l) { in.pushed = [](const float*, size_t n) { R.pushed += n; progress(); }; }
    NOTSAN void check(size_t n) {
        Quiet z; for (size_t i = 0; i < n; i++) {
            if (!R.repeat && pos + i >= R.want) sim::fail("extra-samples", "sample %llu of a file that gives %llu", (unsigned long long)(pos + i), (unsigned long long)R.want);
            float w = out_sample(pos + i); if (memcmp(&w, &buf[i], 4)) sim::fail("wrong-sample", "sample %llu handed on is %g, the file's is %g (%llu samples in the file)", (unsigned long long)(pos + i), buf[i], w, (unsigned long long)f.total);
        } pos += n; if (n) progress();
    }
    Result<Empty, Error> procedure() {
        if (stall) { stall--; return Error::NotEnoughSamples; }
        size_t k = 1500; { Quiet z; if (lazy && sim::work(lazy) == 1) stall = 1 + sim::work(20); switch (sim::work(4)) { case 1: k = 1 + sim::work(20); break; case 2: k = 1 + sim::work(1499); } }
        size_t n = in.readN(buf, k); check(n);
        if (n) return Empty{}; return Error::NotEnoughSamples;
    }
};
// Watches what each call returns
struct Source : cler::BlockBase {
    SourceAudioFileBlock<float>& b; bool failed = false; explicit Source(SourceAudioFileBlock<float>& x) : BlockBase("audio file"), b(x) {}
    Result<Empty, Error> procedure(ChannelBase<float>* o) {
        unsigned e0; { Quiet z; e0 = f.errs; }
        auto r = b.procedure(o); Quiet z; bool err = f.errs != e0; if (err) failed = true;
        if (err && (r.is_ok() || !cler::is_fatal(r.unwrap_err()))) sim::fail("swallowed-error", "reading, decoding or converting failed and the block returned %s", r.is_ok() ? "success" : cler::to_str(r.unwrap_err()));
        if (!err && r.is_err() && cler::is_fatal(r.unwrap_err())) sim::fail("false-error", "nothing failed and the block returned %s", cler::to_str(r.unwrap_err()));
        return r;
    }
};
static void s_afile() {
    size_t cap; unsigned lazy, laps; bool cb, rerr, setup; int64_t heap0;
    { Quiet z; f = File(); R = {}; last_frame = nullptr; live_packets = 0;
      static const int ud[4][2] = {{1, 1}, {2, 1}, {1, 2}, {3, 2}}; unsigned u = sim::cfg(4); f.up = ud[u][0]; f.down = ud[u][1];
      f.delay = sim::cfg(2) ? 0 : 1 + sim::cfg(3); f.lag = f.up == f.down ? 0 : sim::cfg(2) ? 0 : sim::cfg(40);
      R.repeat = sim::cfg(2); cb = sim::cfg(4) != 3;
      unsigned np = sim::cfg(8) == 7 ? sim::work(3) : 1 + sim::work(30); bool video = sim::cfg(3) == 0; f.audio = sim::cfg(3) == 1 ? 0 : 1; f.planar = sim::cfg(3) == 1; unsigned big = sim::cfg(4) == 0 ? 6000 : 1200;
      for (unsigned i = 0; i < np; i++) {
          Pkt p; p.stream = video && sim::work(3) == 1 ? 1 - f.audio : f.audio; p.first = f.total;
          if (p.stream == f.audio) { unsigned nf = sim::work(5) == 1 ? sim::work(4) : 1; for (unsigned k = 0; k < nf; k++) { unsigned n = sim::work(6) == 1 ? sim::work(4) : 2 * (1 + sim::work(big / 2)); if (n & 1) n++; p.frames.push_back(n); f.total += n; } }
          f.pkts.push_back(p);
      }
      f.seekable = !R.repeat || sim::cfg(8) != 0;
      cap = 1024 + (sim::cfg(2) ? 0 : sim::cfg(6000)); lazy = sim::cfg(2) ? 0 : 3 + sim::cfg(4); laps = 1 + sim::cfg(3); setup = sim::cfg(6) == 0; rerr = sim::cfg(4) == 0; R.want = outs_of(f.total);
      { static const int chs[7] = {1, 2, 6, 4, 3, 16, 1}; f.ch = chs[sim::cfg(7)]; f.named = sim::cfg(3) != 1; if (f.ch == 16) f.named = true; }
      sim::set_rate(sim::F_DEV_ERR, setup ? 100 : 0); f.setting_up = true; progress(); heap0 = sim::live_heap_blocks(); }
    // an odd number of samples per lap would make the laps of a decimated stream differ
    { Quiet z; if (f.total * f.up % f.down) { f.pkts.clear(); f.total = 0; R.want = 0; } }
    auto on_eof = [](const char* n) { Quiet z; R.eofs++; if (strcmp(n, "/a.wav")) sim::fail("wrong-name", "the end-of-file notification names \"%s\"", n); if (R.eofs > 1) sim::fail("eof-repeated", "the end-of-file notification came %d times", R.eofs);
        if (R.repeat) sim::fail("eof-while-repeating", "a repeating source reports the end of its file"); if (R.pushed != R.want) sim::fail("eof-too-early", "the end of the file is reported after %llu of %llu samples", (unsigned long long)R.pushed, (unsigned long long)R.want); };
    std::unique_ptr<SourceAudioFileBlock<float>> src;
    try { src = std::make_unique<SourceAudioFileBlock<float>>("source", "/a.wav", 48000u * f.up / f.down, R.repeat, cb ? +on_eof : nullptr); }
    catch (const std::runtime_error&) { Quiet z; if (!f.setup_faults) sim::fail("refused", "the source was refused although nothing failed"); if (f.live) sim::fail("leak", "a source whose constructor failed leaves %d of the library's objects open", f.live); sim::probe("constructor-refused"); sim::nontrivial(); return; }
    { Quiet z; f.setting_up = false; if (f.setup_faults) sim::fail("swallowed-error", "opening failed and the constructor did not"); sim::set_rate(sim::F_DEV_ERR, rerr ? 20 : 0); sim::set_rate(sim::F_DEV_STALL, sim::cfg(3) == 0 ? 40 : 0); sim::set_rate(sim::F_STALL, sim::cfg(5) == 0 ? 2 : 0);
      sim::sample("audio file source: %zu packets, %llu samples of %d%s channels, rate x%d/%d, decoder delay %u, resampler lag %u, ring %zu%s%s%s%s", f.pkts.size(), (unsigned long long)f.total, f.ch, f.planar ? " planar" : "", f.up, f.down, f.delay, f.lag, cap, R.repeat ? ", repeating" : "", f.seekable ? "" : ", not seekable", rerr ? ", errors" : "", lazy ? ", lazy listener" : ""); }
    (void)heap0;
    Listen li(cap, lazy); Source w(*src); auto cfg = random_fg_config(); struct Cb { int n = 0; } fcb;
    {
        auto fg = cler::make_desktop_flowgraph(BlockRunner(&w, (ChannelBase<float>*)&li.in), BlockRunner(&li));
        fg.set_on_err_terminate_cb([](void* p) { Quiet z; ((Cb*)p)->n++; }, &fcb);
        for (unsigned r = 0; r < laps && !fcb.n; r++) {
            { Quiet z; progress(); }
            uint64_t goal = li.pos + 1 + Wk((unsigned)(2 * R.want + 1));
            fg.run(cfg);
            auto done = [&] { return fcb.n || (R.repeat ? f.total && li.pos >= goal : li.pos >= R.want && (!cb || R.eofs)); };
            if ((R.repeat && !f.total) || (r + 1 < laps && C(2))) until(done, 1000 + Wk(400000)); else until(done);
            if (!fcb.n && C(2)) sim::sleep_ns(100 + Wk(20000));
            { Quiet z; progress(); }
            fg.stop();
        }
        for (;;) { size_t n = li.in.readN(li.buf, 1500); if (!n) break; li.check(n); }
    }
    { Quiet z;
      if (fcb.n && !w.failed) sim::fail("false-error", "the graph ended without an error");
      if (w.failed && li.pos != f.given) sim::fail("lost-samples", "%llu samples were decoded before the error, %llu were handed on", (unsigned long long)f.given, (unsigned long long)li.pos);
      if (!fcb.n && !R.repeat && li.pos >= R.want && R.want && cb && R.eofs == 0 && laps == 1) sim::fail("eof-missing", "no end-of-file notification");
      if (w.failed && R.eofs) sim::fail("eof-after-error", "an error and the end of the file were reported");
      if (li.pos > cap || li.pos == R.want) sim::nontrivial(); }
    src.reset();
    Quiet z; if (f.live || live_packets) sim::fail("leak", "%d of the library's objects and %d packets are still there", f.live, live_packets);
}
// ---------------------------------------------------------------- the player: file, loudspeaker, user
static int pa_dummy, pa_users; static bool pa_open, pa_on; static std::vector<float> heard; static double pa_rate; static uint64_t pa_due; static const PaDeviceInfo pa_info = {2, "sim", 2, 0.01};
extern "C" {
PaError Pa_Initialize() { pa_users++; return 0; } PaError Pa_Terminate() { pa_users--; return 0; } const char* Pa_GetErrorText(PaError) { return "error"; } PaDeviceIndex Pa_GetDeviceCount() { return 1; } PaDeviceIndex Pa_GetDefaultOutputDevice() { return 0; } const PaDeviceInfo* Pa_GetDeviceInfo(PaDeviceIndex i) { return i ? nullptr : &pa_info; }
PaError Pa_OpenStream(PaStream** s, const PaStreamParameters*, const PaStreamParameters* o, double r, unsigned long, unsigned long, void*, void*) { if (pa_open || !o || o->device != 0 || o->channelCount != 1 || o->sampleFormat != paFloat32) misuse("the loudspeaker is opened twice or wrongly"); *s = &pa_dummy; pa_open = true; pa_rate = r; return 0; }
PaError Pa_StartStream(PaStream*) { pa_on = true; pa_due = sim::now_ns(); return 0; } PaError Pa_StopStream(PaStream*) { pa_on = false; return 0; } PaError Pa_AbortStream(PaStream*) { pa_on = false; return 0; } PaError Pa_CloseStream(PaStream*) { if (pa_on) misuse("the loudspeaker is closed while it plays"); pa_open = false; return 0; } signed long Pa_GetStreamWriteAvailable(PaStream*) { return 64; }
PaError Pa_WriteStream(PaStream*, const void* p, unsigned long n) {       // returns when the samples have been taken: at the pace of the sound card
    if (!pa_on) misuse("write to an audio stream that is not running"); std::unique_ptr<float[]> t(new float[n]); memcpy(t.get(), p, n * sizeof(float)); bool late; { Quiet z; heard.insert(heard.end(), t.get(), t.get() + n); progress(); late = sim::now_ns() > pa_due + 10000000; if (late) pa_due = sim::now_ns(); pa_due += (uint64_t)n * 20833; }
    if (sim::now_ns() + 10000000 < pa_due) sim::sleep_ns(pa_due - 10000000 - sim::now_ns()); return late ? paOutputUnderflowed : paNoError; }
}
static std::atomic<void (*)(int)> on_sigint;
extern "C" __sighandler_t signal(int s, __sighandler_t h) noexcept { if (s == SIGINT) on_sigint = h; return nullptr; }
static void s_play() {
    { Quiet z; sim::fs_capture_stdout(true); f = File(); R = {}; heard.clear(); last_frame = nullptr; live_packets = 0; pa_users = 0; on_sigint = nullptr; unsigned np = 1 + sim::work(12); f.ch = 1 + sim::cfg(2); f.planar = sim::cfg(2); f.audio = sim::cfg(2); f.delay = sim::cfg(3);
      for (unsigned i = 0; i < np; i++) { Pkt p; p.stream = sim::work(4) == 1 && i ? 1 - f.audio : f.audio; p.first = f.total; if (p.stream == f.audio) { unsigned n = 1 + sim::work(1200); p.frames.push_back(n); f.total += n; } f.pkts.push_back(p); }
      f.setting_up = false; progress(); sim::set_weak(false); sim::set_tick(100); if (sim::cfg(4) == 0) sim::set_rate(sim::F_DEV_STALL, 10); sim::sample("audio_file_playback: %zu packets, %llu samples", f.pkts.size(), (unsigned long long)f.total); }
    char prog[] = "audio_file_playback", file[] = "/a.wav"; char* none[] = {prog, nullptr}; char* args[] = {prog, file, nullptr};
    if (Wk(20) == 1) { int r = ex_play::main(1, none); Quiet z; if (r != 1 || pa_users || f.live) sim::fail("exit-code", "without a file name the player ends with %d", r); sim::nontrivial(); return; }
    uint64_t at, asked = 0; { Quiet z; at = 1000000ull * (1 + sim::work(400)); }
    std::atomic<bool> ended{false}; std::thread user([&] { sim::sleep_ns(at); until([&] { return ended || on_sigint.load(); }); if (!ended) { { Quiet z; asked = sim::now_ns(); } on_sigint.load()(SIGINT); } });
    int r = ex_play::main(2, args); { Quiet z; ended = true; } user.join(); Quiet z;
    if (r) sim::fail("exit-code", "the player ends with %d", r); if (!asked) sim::fail("early-exit", "the player ends by itself"); if (sim::now_ns() - asked > 1000000000ull) sim::fail("slow-exit", "the player ends %.1f s after Ctrl+C", (sim::now_ns() - asked) / 1e9);
    if (pa_open || pa_users || f.live || live_packets) sim::fail("device-leak", "the loudspeaker or the file is left open"); if (pa_rate != 48000) sim::fail("wrong-setting", "sound at %g samples/s", pa_rate);
    for (size_t i = 0; i < heard.size(); i++) if (heard[i] != out_sample(i)) sim::fail("wrong-sound", "sample %zu is heard as %g, it is %g", i, heard[i], out_sample(i));
    sim::probe("samples heard", heard.size()); if (heard.size() > f.total) { sim::nontrivial(); sim::probe("played more than once"); }
    if (heard.size() + 2400 < (size_t)(0.048 * at / 1000) * 9 / 10 && !sim::fault_count(sim::F_DEV_STALL)) sim::fail("too-slow", "%zu samples are heard in %.3f s", heard.size(), at / 1e9);
}
static const sim::Scenario S[] = {{"play", 1, s_play}, {"afile", 1, s_afile}};
int main(int c, char** v) { return sim::main(c, v, S, sizeof S / sizeof *S); }
