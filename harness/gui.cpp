// C21: the display blocks, drawn by the GUI thread while a flowgraph feeds them.  The drawing library is
// a stand-in (harness/gui) that looks at everything it is handed.
#include "common.hpp"
#include "desktop_blocks/plots/plot_timeseries.hpp"
#include "desktop_blocks/plots/plot_cspectrum.hpp"
#include "desktop_blocks/plots/plot_cspectrogram.hpp"
#include "desktop_blocks/adsb/adsb_aggregate.hpp"
#include <cstdarg>
#include <map>

static void pause_(unsigned max = 4000) { uint64_t ns; { Quiet z; ns = 200 + sim::work(max); } std::this_thread::sleep_for(std::chrono::nanoseconds(ns)); }

// ---------------------------------------------------------------- the drawing library
struct Gui {
    int gui_tid = 0, begun = 0, plots = 0, colormaps = 0; unsigned press = 0, wanted_pause = 2; uint64_t lines = 0, maps = 0, frames = 0, presses = 0; bool clip = false; bool slides = false; float alpha = 1;
    std::function<void(const char*, const float*, const float*, int)> line; std::function<void(const char*, const float*, int, int)> map;
    std::function<void(char, const ImVec2*, ImU32, const char*)> shape;
    bool saw_paused = false; ImGuiIO io; ImVec2 drag; bool dragging[2] = {};
};
static Gui G; static ImDrawList DL;
static void on_gui() { if (sim::tid() != G.gui_tid) sim::fail("gui-misuse", "a drawing call by thread T%d", sim::tid()); }
static void inside() { on_gui(); if (!G.begun) sim::fail("gui-misuse", "a widget outside a window"); }
namespace ImGui {
ImGuiIO& GetIO() { on_gui(); return G.io; }
void SetNextWindowSize(const ImVec2&, ImGuiCond) { on_gui(); } void SetNextWindowPos(const ImVec2&, ImGuiCond, const ImVec2&) { on_gui(); }
bool Begin(const char*, bool*, ImGuiWindowFlags) { on_gui(); Quiet z; G.begun++; return sim::work(8) != 1; }
void End() { inside(); Quiet z; if (G.plots) sim::fail("gui-misuse", "a window ends inside a plot"); G.begun--; }
bool Button(const char* label, const ImVec2&) {
    inside(); Quiet z; bool paused = !strcmp(label, "Resume"); if (paused) G.saw_paused = true;
    bool p = G.wanted_pause == 2 ? (G.press && sim::work(G.press) == 1) : paused != (bool)G.wanted_pause;
    G.presses += p; return p;
}
void Text(const char* f, ...) { inside(); va_list a; va_start(a, f); char b[256]; vsnprintf(b, sizeof b, f, a); va_end(a); }
void SameLine(float, float) { inside(); } void SetNextItemWidth(float) { inside(); }
// the user moves a slider now and then (where the scenario says so), else holds it at its end
bool SliderFloat(const char*, float* v, float lo, float hi, const char*, ImGuiSliderFlags) {
    inside(); Quiet z; float to = hi; static const float at[4] = {1, 0.7f, 0.3f, 0};
    if (G.slides) { if (sim::work(6) != 1) { G.alpha = *v; return false; } to = lo + (hi - lo) * at[sim::work(4)]; }
    G.alpha = to; if (*v == to) return false; *v = to; return true;
}
bool IsItemHovered(ImGuiHoveredFlags) { inside(); return Wk(4) == 1; } void SetTooltip(const char*, ...) { inside(); }
ImVec2 GetCursorScreenPos() { inside(); return {10, 20}; } ImVec2 GetContentRegionAvail() { inside(); return {800, 600}; } ImDrawList* GetWindowDrawList() { inside(); return &DL; } void SetCursorScreenPos(const ImVec2&) { inside(); }
bool IsMouseDragging(ImGuiMouseButton b, float) { on_gui(); return G.dragging[b & 1]; } ImVec2 GetMouseDragDelta(ImGuiMouseButton, float) { on_gui(); return G.drag; } void ResetMouseDragDelta(ImGuiMouseButton) { on_gui(); G.drag = {}; }
ImU32 GetColorU32(const ImVec4& c) { on_gui(); return IM_COL32(c.x * 255.f + .5f, c.y * 255.f + .5f, c.z * 255.f + .5f, c.w * 255.f + .5f); }
}
static void shape(char k, const ImVec2* p, ImU32 c, const char* t) { inside(); Quiet z; if (G.shape) G.shape(k, p, c, t); }
void ImDrawList::AddLine(const ImVec2&, const ImVec2&, ImU32, float) { inside(); } void ImDrawList::AddRect(const ImVec2&, const ImVec2&, ImU32, float, ImDrawFlags, float) { inside(); } void ImDrawList::AddRectFilled(const ImVec2&, const ImVec2&, ImU32, float, ImDrawFlags) { inside(); }
void ImDrawList::AddTriangle(const ImVec2&, const ImVec2&, const ImVec2&, ImU32, float) { inside(); }
void ImDrawList::AddTriangleFilled(const ImVec2& a, const ImVec2& b, const ImVec2& c, ImU32 k) { ImVec2 v[3] = {a, b, c}; shape('t', v, k, nullptr); }
void ImDrawList::AddText(const ImVec2& p, ImU32 c, const char* b, const char* e) { char t[64]; size_t n = 0; while ((e ? b + n < e : b[n] != 0) && n < 63) { t[n] = b[n]; n++; } t[n] = 0; shape('x', &p, c, t); }
namespace ImPlot {
bool BeginPlot(const char*, const ImVec2&, ImPlotFlags) { inside(); Quiet z; if (G.clip && sim::work(4) == 1) return false; G.plots++; return true; }
void EndPlot() { inside(); Quiet z; if (!G.plots || G.colormaps) sim::fail("gui-misuse", "EndPlot does not match"); G.plots--; }
void SetupAxis(ImAxis, const char*, ImPlotAxisFlags) { inside(); } void SetupAxes(const char*, const char*, ImPlotAxisFlags, ImPlotAxisFlags) { inside(); } void SetupAxisLimits(ImAxis, double, double, ImPlotCond) { inside(); }
void PushColormap(ImPlotColormap) { inside(); G.colormaps++; } void PopColormap(int n) { inside(); G.colormaps -= n; }
}
static float buf_x[1 << 16], buf_y[1 << 16];
void plotted_line(const char* label, const float* xs, const float* ys, int n, int offset, int stride) {
    inside(); if (!G.plots) sim::fail("gui-misuse", "a line outside a plot"); if (n < 0 || n > (1 << 16)) sim::fail("torn-picture", "%d points are plotted", n);
    for (int i = 0; i < n; i++) { int k = ((offset + i) % n + n) % n; buf_x[i] = *(const float*)((const char*)xs + (size_t)k * stride); buf_y[i] = *(const float*)((const char*)ys + (size_t)k * stride); }
    Quiet z; G.lines++; if (G.line) G.line(label, buf_x, buf_y, n);
}
void plotted_map(const char* label, const float* v, int rows, int cols) {
    inside(); if (!G.plots) sim::fail("gui-misuse", "a heatmap outside a plot"); if (rows < 1 || cols < 1 || (int64_t)rows * cols > (1 << 16)) sim::fail("torn-picture", "a heatmap of %d x %d", rows, cols);
    for (int i = 0; i < rows * cols; i++) buf_x[i] = v[i];
    Quiet z; G.maps++; if (G.map) G.map(label, buf_x, rows, cols);
}

// ---------------------------------------------------------------- the stream
// Number k of the time series of input i; and of the complex stream of input i, a sequence each of whose
// stretches is the first one times a constant: the spectrum of samples k.. is that of samples 0.. in
// another strength, which tells k, and only of adjacent samples.
static float ts(uint64_t k, unsigned i) { return (float)(k * 4 + i); }
static const double STEP_DB = 0.004;
static std::complex<float> cs(uint64_t k, unsigned i, size_t nfft) { double g = pow(10.0, STEP_DB * (double)k / 20), ph = 2 * M_PI * (double)(((2 + 3 * i) * k) % nfft) / (double)nfft; return {(float)(g * cos(ph)), (float)(g * sin(ph))}; }
template <class T> struct Feed : cler::BlockBase {
    uint64_t n, next = 0; unsigned i, lazy, most; std::function<T(uint64_t)> make; T tmp[4096];
    Feed(uint64_t n_, unsigned i_, unsigned l, unsigned m) : BlockBase("feed"), n(n_), i(i_), lazy(l), most(m) {}
    Result<Empty, Error> procedure(ChannelBase<T>* out) {
        bool nap; { Quiet z; nap = next >= n || (lazy && sim::work(lazy) == 1); }
        if (nap) { pause_(); return Error::NotEnoughSamples; }
        unsigned k = 1 + Wk(most); { Quiet z; if (k > n - next) k = (unsigned)(n - next); for (unsigned j = 0; j < k; j++) tmp[j] = make(next + j); }
        size_t did = out->writeN(tmp, k); { Quiet z; next += did; if (did) progress(); }
        if (!did) { pause_(1000); return Error::NotEnoughSpace; }
        return Empty{};
    }
};
static cler::FlowGraphConfig graph_config() { auto c = random_fg_config(); c.adaptive_sleep = true; c.adaptive_sleep_max_us = 30; c.adaptive_sleep_fail_threshold = 2; return c; }
static void frame(std::function<void()> render) {
    { Quiet z; G.frames++; G.gui_tid = sim::tid(); progress(6000000); }
    render(); Quiet z; if (G.begun || G.plots) sim::fail("gui-misuse", "a drawn frame leaves %d windows and %d plots open", G.begun, G.plots);
}
// the GUI loop: draws until everything was fed and taken, then stops the graph and draws once more
template <class D, class... R> static void drive(D done, std::function<void()> render, std::function<void()> last, unsigned stops, R... r) {
    auto cfg = graph_config(); auto fg = cler::make_desktop_flowgraph(r...); unsigned wait; { Quiet z; wait = 2000 + sim::cfg(3) * 20000; }
    bool more = true;
    while (more) {
        fg.run(cfg); unsigned fr = stops ? 1 + Wk(20) : 0;
        for (unsigned k = 1;; k++) { frame(render); pause_(wait); bool d; { Quiet z; d = done(); if (k > 400) G.wanted_pause = 0; } if (d) { more = false; break; } if (fr && k == fr) break; }
        if (stops) stops--; fg.stop();
    }
    { Quiet z; G.wanted_pause = 0; G.clip = false; G.slides = false; } frame(render); { Quiet z; if (last) last(); } frame(render);
}
template <size_t N, class B, class T, class D> static void feed_and_draw(B& b, std::unique_ptr<Feed<T>>* f, D done, std::function<void()> render, std::function<void()> last, unsigned stops) {
    auto q = [&](size_t i) { return (ChannelBase<T>*)&b.in[i]; };
    if constexpr (N == 1) drive(done, render, last, stops, BlockRunner(f[0].get(), q(0)), BlockRunner(&b));
    else if constexpr (N == 2) drive(done, render, last, stops, BlockRunner(f[0].get(), q(0)), BlockRunner(f[1].get(), q(1)), BlockRunner(&b));
    else drive(done, render, last, stops, BlockRunner(f[0].get(), q(0)), BlockRunner(f[1].get(), q(1)), BlockRunner(f[2].get(), q(2)), BlockRunner(&b));
}
static void gui_setup(std::string& s) {
    Quiet z; G.~Gui(); new (&G) Gui(); progress(); G.gui_tid = sim::tid(); G.clip = sim::cfg(2); if (sim::cfg(2)) { G.press = 3 + sim::cfg(8); s += ", pauses"; } if (G.clip) s += ", clipped plots";
    if (sim::cfg(4) == 0) { sim::set_rate(sim::F_STALL, 3); s += ", stalls"; }
}
static const char* const LABEL[3] = {"a", "b", "c"};
static int which(const char* l, size_t n) { for (size_t i = 0; i < n; i++) if (strstr(l, LABEL[i])) return (int)i; sim::fail("torn-picture", "a line called '%s'", l); }

template <size_t N> static void timeseries() {
    std::string s; uint64_t n; unsigned stops; size_t sps = C(2) ? 1024 : 4096; float dur; gui_setup(s);
    { Quiet z; static const float k[4] = {1.f, 0.1f, 0.25f, 0.6f}; dur = k[sim::cfg(4)]; n = 500 + sim::work(9000); stops = sim::cfg(3) == 0 ? 1 + sim::cfg(2) : 0; }
    size_t want; { Quiet z; want = std::max<size_t>((size_t)(sps * dur), 4096 / sizeof(float)); }
    std::unique_ptr<PlotTimeSeriesBlock> b; { std::vector<std::string> l(LABEL, LABEL + N); b = std::make_unique<PlotTimeSeriesBlock>("plot", l, sps, dur); }
    std::unique_ptr<Feed<float>> f[3]; for (unsigned i = 0; i < N; i++) { unsigned lazy = C(2) ? 0 : 2 + C(4), most = C(2) ? 3000 : 1 + C(400); f[i] = std::make_unique<Feed<float>>(n, i, lazy, most); Quiet z; f[i]->make = [i](uint64_t k) { return ts(k, i); }; }
    uint64_t first[3], end = 0, seen_frame = 0; int len[3]; unsigned got = 0; bool full = false;
    { Quiet z; sim::sample("time series of %zu inputs: %llu samples each, %zu samples wide%s, %u stops", N, (unsigned long long)n, want, s.c_str(), stops);
      if (n > want) sim::nontrivial();
      G.line = [&](const char* l, const float* x, const float* y, int c) {
          int i = which(l, N); if (c < 1) sim::fail("torn-picture", "an empty line is plotted");
          if ((size_t)c > want) sim::fail("torn-picture", "%d points of a window of %zu samples", c, want);
          double x0 = (double)x[0] * (double)sps; uint64_t k0 = (uint64_t)llround(x0); if (x0 < 0 || fabs(x0 - (double)k0) > 0.01) sim::fail("torn-picture", "the time axis starts at %g s", x[0]);
          for (int j = 0; j < c; j++) { if (x[j] != (float)(k0 + j) / sps) sim::fail("torn-picture", "point %d of the time axis is %g s, the axis starts at sample %llu", j, x[j], (unsigned long long)k0); if (y[j] != ts(k0 + j, i)) sim::fail("torn-picture", "point %d of input %d at sample %llu is %g: not that sample", j, i, (unsigned long long)(k0 + j), y[j]); }
          if (seen_frame != G.frames) { seen_frame = G.frames; got = 0; } first[i] = k0; len[i] = c; got |= 1u << i;
          if (k0 + c < end) sim::fail("torn-picture", "the picture goes back from sample %llu to %llu", (unsigned long long)end, (unsigned long long)(k0 + c)); end = k0 + c; if (c == (int)want) full = true;
          for (unsigned j = 0; j < N; j++) if (got >> j & 1) if (first[j] != k0 || len[j] != c) sim::fail("torn-picture", "inputs %d and %u of one picture start at samples %llu and %llu", i, j, (unsigned long long)k0, (unsigned long long)first[j]);
      }; }
    auto done = [&] { for (unsigned i = 0; i < N; i++) if (f[i]->next < n || b->in[i].size()) return false; return true; };
    feed_and_draw<N>(*b, f, done, [&] { b->render(); if (Wk(8) == 1) b->set_initial_window(1, 2, 300, 200); },
        [&] { if (end != n || (size_t)len[0] != std::min<uint64_t>(n, want)) sim::fail("stale-picture", "all %llu samples were taken, the picture shows %d up to %llu of a window of %zu", (unsigned long long)n, len[0], (unsigned long long)end, want); }, stops);
    { Quiet z; if (full) sim::probe("full windows"); if (G.saw_paused) sim::probe("runs drawn while paused"); }
}
static void s_timeseries() { switch (C(3)) { case 0: timeseries<2>(); break; case 1: timeseries<1>(); break; default: timeseries<3>(); } }

// the spectrum of samples 0.. of input i, in dB, before and after the shift to the middle
struct Shape { std::vector<double> db; size_t top; };
static Shape shape_of(unsigned i, size_t n, SpectralWindow w) {
    std::vector<double> p(n); double gain = 0; std::vector<std::complex<double>> x(n);
    for (size_t k = 0; k < n; k++) { double v = spectral_window_function(w, k / static_cast<float>(n - 1)); gain += v; auto c = cs(k, i, n); x[k] = std::complex<double>(c.real(), c.imag()) * v; }
    for (size_t j = 0; j < n; j++) { std::complex<double> a = 0; for (size_t k = 0; k < n; k++) a += x[k] * std::polar(1.0, -2 * M_PI * (double)(j * k % n) / (double)n); p[(j + n / 2) % n] = 10 * log10(std::norm(a) / (gain * gain) + 1e-20); }
    Shape s; s.db = p; s.top = (size_t)(std::max_element(p.begin(), p.end()) - p.begin()); return s;
}
// which sample a drawn spectrum starts at
// A drawn spectrum is a part `a` of the present one and the rest of the one drawn before, whose place in the stream was `old`
static uint64_t start_of(const Shape& s, const float* v, const char* what, double a = 1, double old = 0) {
    double c = v[s.top] - s.db[s.top], k = (c / STEP_DB - (1 - a) * old) / a; uint64_t k0 = (uint64_t)llround(k < 0 ? 0 : k);
    if (!(k > -0.4) || fabs(k - (double)k0) > 0.4) sim::fail("torn-picture", "%s: the strongest bin is %g dB, at home in no stretch of the stream", what, v[s.top]);
    for (size_t j = 0; j < s.db.size(); j++) if (s.db[j] > s.db[s.top] - 50 && fabs(v[j] - s.db[j] - c) > 0.05) sim::fail("torn-picture", "%s: bin %zu is %g dB, in the spectrum of samples from %llu on it is %g dB", what, j, v[j], (unsigned long long)k0, s.db[j] + c);
    return k0;
}
static const SpectralWindow WIN[4] = {SpectralWindow::Rectangular, SpectralWindow::BlackmanHarris, SpectralWindow::Hamming, SpectralWindow::Hann};
static std::unique_ptr<Feed<std::complex<float>>> feeder(uint64_t n, unsigned i, size_t nfft) {
    unsigned lazy = C(2) ? 0 : 2 + C(4), most = C(2) ? 3000 : 1 + C(400); auto f = std::make_unique<Feed<std::complex<float>>>(n, i, lazy, most); Quiet z; f->make = [i, nfft](uint64_t k) { return cs(k, i, nfft); }; return f;
}
template <size_t N> static void spectrum() {
    std::string s; uint64_t n; unsigned stops; size_t nfft; SpectralWindow w; gui_setup(s);
    { Quiet z; static const size_t k[4] = {32, 16, 64, 50}; nfft = k[sim::cfg(4)]; w = WIN[sim::cfg(4)]; n = 200 + sim::work(7000); stops = sim::cfg(3) == 0 ? 1 + sim::cfg(2) : 0; }
    std::unique_ptr<PlotCSpectrumBlock> b; { std::vector<std::string> l(LABEL, LABEL + N); b = std::make_unique<PlotCSpectrumBlock>("plot", l, 1000, nfft, w); }
    std::unique_ptr<Feed<std::complex<float>>> f[3]; std::vector<Shape> sh; for (unsigned i = 0; i < N; i++) { f[i] = feeder(n, i, nfft); Quiet z; sh.push_back(shape_of(i, nfft, w)); }
    uint64_t first[3], end = 0, seen_frame = 0, pictures = 0; unsigned got = 0;
    double shown[3] = {-1, -1, -1}; { Quiet z; G.slides = sim::cfg(2); if (G.slides) s += ", averaging"; }
    { Quiet z; sim::sample("spectrum of %zu inputs: %llu samples each, %zu bins, window %d%s, %u stops", N, (unsigned long long)n, nfft, (int)w, s.c_str(), stops);
      G.line = [&](const char* l, const float* x, const float* y, int c) {
          int i = which(l, N); if (c != (int)nfft) sim::fail("torn-picture", "%d bins of %zu are plotted", c, nfft);
          for (int j = 0; j < c; j++) if (fabs(x[j] - (1000.0 * j / nfft - 500.0)) > 0.01) sim::fail("torn-picture", "bin %d is drawn at %g Hz", j, x[j]);
          double was = shown[i], now = (y[sh[i].top] - sh[i].db[sh[i].top]) / STEP_DB; shown[i] = now;
          sim::note("frame %llu input %d alpha %g shows %g was %g", (unsigned long long)G.frames, i, G.alpha, now, was);
          if (was > -0.5 && G.alpha == 0) { for (size_t j = 0; j < nfft; j++) if (sh[i].db[j] > sh[i].db[sh[i].top] - 50 && fabs(y[j] - sh[i].db[j] - now * STEP_DB) > 0.05) sim::fail("torn-picture", "bin %zu of a frozen spectrum changes", j); if (fabs(now - was) > 0.05) sim::fail("torn-picture", "a frozen spectrum moves from sample %g to %g", was, now); return; }
          uint64_t k0 = was < -0.5 ? start_of(sh[i], y, "spectrum") : start_of(sh[i], y, "averaged spectrum", G.alpha, was); if (pictures++ && k0 + nfft < end) sim::fail("torn-picture", "the picture goes back from sample %llu to %llu", (unsigned long long)end, (unsigned long long)(k0 + nfft)); end = k0 + nfft; if (end > n) sim::fail("torn-picture", "the spectrum reaches beyond the stream");
          if (seen_frame != G.frames) { seen_frame = G.frames; got = 0; } first[i] = k0; got |= 1u << i;
          for (unsigned j = 0; j < N; j++) if ((got >> j & 1) && first[j] != k0) sim::fail("torn-picture", "inputs %d and %u of one picture start at samples %llu and %llu", i, j, (unsigned long long)k0, (unsigned long long)first[j]);
          if (k0) sim::nontrivial();
      }; }
    auto done = [&] { for (unsigned i = 0; i < N; i++) if (f[i]->next < n || b->in[i].size()) return false; return true; };
    feed_and_draw<N>(*b, f, done, [&] { b->render(); if (Wk(8) == 1) b->set_initial_window(1, 2, 300, 200); },
        [&] { if (end != n) sim::fail("stale-picture", "all %llu samples were taken, the spectrum shows those up to %llu", (unsigned long long)n, (unsigned long long)end); }, stops);
    { Quiet z; if (G.saw_paused) sim::probe("runs drawn while paused"); }
}
static void s_spectrum() { switch (C(3)) { case 0: spectrum<2>(); break; case 1: spectrum<1>(); break; default: spectrum<3>(); } }

template <size_t N> static void spectrogram() {
    std::string s; uint64_t n; unsigned stops; size_t nfft, tall; SpectralWindow w; gui_setup(s);
    { Quiet z; static const size_t k[4] = {32, 16, 64, 50}, t[4] = {8, 1, 30, 100}; nfft = k[sim::cfg(4)]; tall = t[sim::cfg(4)]; w = WIN[sim::cfg(4)]; n = 200 + sim::work(5000); stops = sim::cfg(3) == 0 ? 1 + sim::cfg(2) : 0; }
    std::unique_ptr<PlotCSpectrogramBlock> b; { std::vector<std::string> l(LABEL, LABEL + N); b = std::make_unique<PlotCSpectrogramBlock>("plot", l, 1000, nfft, tall, w); }
    std::unique_ptr<Feed<std::complex<float>>> f[3]; std::vector<Shape> sh; for (unsigned i = 0; i < N; i++) { f[i] = feeder(n, i, nfft); Quiet z; sh.push_back(shape_of(i, nfft, w)); }
    uint64_t rows_of[3], newest = 0, seen_frame = 0; unsigned got = 0;
    { Quiet z; sim::sample("spectrogram of %zu inputs: %llu samples each, %zu bins, %zu rows, window %d%s, %u stops", N, (unsigned long long)n, nfft, tall, (int)w, s.c_str(), stops);
      G.map = [&](const char* l, const float* v, int r, int c) {
          int i = which(l, N); if (r != (int)tall || c != (int)nfft) sim::fail("torn-picture", "a map of %d x %d instead of %zu x %zu", r, c, tall, nfft);
          uint64_t top = 0;   // rows so far
          for (int j = 0; j < r; j++) {
              const float* row = v + (size_t)j * nfft; uint64_t num;   // 1-based number of the row
              if (row[sh[i].top] < -100) { for (size_t k = 0; k < nfft; k++) if (row[k] != -147.0f) sim::fail("torn-picture", "an empty row has a bin of %g dB", row[k]); num = 0; }
              else { uint64_t k0 = start_of(sh[i], row, "spectrogram row"); if (k0 % nfft) sim::fail("torn-picture", "a row of the spectrogram starts at sample %llu, no multiple of %zu", (unsigned long long)k0, nfft); num = k0 / nfft + 1; }
              if (j == 0) top = num; else if (num != (top > (uint64_t)j ? top - j : 0)) sim::fail("torn-picture", "row %d of the spectrogram is number %llu of the stream, row 0 is number %llu", j, (unsigned long long)num, (unsigned long long)top);
          }
          if (top < newest) sim::fail("torn-picture", "the picture goes back from row %llu to row %llu", (unsigned long long)newest, (unsigned long long)top); newest = top;
          if (seen_frame != G.frames) { seen_frame = G.frames; got = 0; } rows_of[i] = top; got |= 1u << i;
          for (unsigned j = 0; j < N; j++) if ((got >> j & 1) && rows_of[j] != top) sim::fail("torn-picture", "inputs %d and %u of one picture show rows %llu and %llu", i, j, (unsigned long long)top, (unsigned long long)rows_of[j]);
          if (top > 1) sim::nontrivial();
      }; }
    auto done = [&] { for (unsigned i = 0; i < N; i++) if (f[i]->next < n || b->in[i].size() >= nfft) return false; return true; };
    feed_and_draw<N>(*b, f, done, [&] { b->render(); if (Wk(8) == 1) b->set_initial_window(1, 2, 300, 200); },
        [&] { if (newest != n / nfft) sim::fail("stale-picture", "all %llu samples were taken, the spectrogram's newest row is number %llu", (unsigned long long)n, (unsigned long long)newest); }, stops);
    { Quiet z; if (G.saw_paused) sim::probe("runs drawn while paused"); }
}
static void s_spectrogram() { switch (C(3)) { case 0: spectrogram<2>(); break; case 1: spectrogram<1>(); break; default: spectrogram<3>(); } }

// ---------------------------------------------------------------- aircraft
// Message k of an aircraft: callsign, speed and position messages in turn, each of which tells k in all its fields.
static const unsigned VER = 20;
static int speed_of(unsigned v) { return 100 + (int)v * 3; } static int track_of(unsigned v) { return (int)v * 17 % 360; } static int climb_of(unsigned v) { return (v & 1 ? -64 : 64) * ((int)v + 1); }
// two versions in turn differ in the last letter of the callsign only
static bool is_call(const char* t, unsigned v) { for (int i = 0; i < 8; i++) if (t[i] != (char)('A' + (i < 7 ? v / 2 : v))) return false; return !t[8]; }
static bool is_some_call(const char* t) { for (unsigned v = 0; v < VER; v++) if (is_call(t, v)) return true; return false; }
 static int alt_of(unsigned v) { return 1000 + 1500 * (int)v; }
// where an aircraft is at its message k, and how the two kinds of position frames put it
struct Where { double lat, lon; };
static Where where_at(unsigned icao, unsigned k, unsigned gap) { unsigned p = (icao - 0x4000) / 0x111, n = k % (4 * VER); return {30.1 + p * 0.003 + n * 0.00025 + gap * 0.5, 34 + p * 0.004 + n * 0.0002 + gap * 0.5}; }
static void cpr(Where w, int odd, int& ylat, int& xlon) {
    auto md = [](double a, double b) { return a - b * floor(a / b); }; double dlat = 360.0 / (60 - odd), c = cos(M_PI / 180 * w.lat);
    double yz = floor(131072 * md(w.lat, dlat) / dlat + 0.5), rlat = dlat * (yz / 131072 + floor(w.lat / dlat)); (void)c; c = cos(M_PI / 180 * rlat);
    int nl = (int)floor(2 * M_PI / acos(1 - (1 - cos(M_PI / 30)) / (c * c))) - odd; double dlon = 360.0 / std::max(nl, 1);
    ylat = (int)yz & 131071; xlon = (int)floor(131072 * md(w.lon, dlon) / dlon + 0.5) & 131071;
}
static mode_s_msg air_msg(unsigned icao, unsigned k, unsigned gap) {
    mode_s_msg m; memset(&m, 0, sizeof m); m.msgtype = 17; m.crcok = 1; m.aa1 = icao >> 16 & 255; m.aa2 = icao >> 8 & 255; m.aa3 = icao & 255; unsigned v = k / 4 % VER;
    switch (k % 4) {
        case 0: m.metype = 4; memset(m.flight, 'A' + (int)v / 2, 7); m.flight[7] = (char)('A' + (int)v); break;
        case 1: m.metype = 19; m.velocity = speed_of(v); m.heading = track_of(v); m.vert_rate = climb_of(v); break;
        default: m.metype = 11; m.altitude = alt_of(v); m.fflag = k % 4 == 3; { Quiet z; cpr(where_at(icao, k, gap), m.fflag, m.raw_latitude, m.raw_longitude); }
    }
    return m;
}
struct AirSrc : cler::BlockBase {
    unsigned planes, lazy, most; uint64_t n, next = 0; std::map<unsigned, unsigned> sent; std::map<unsigned, std::vector<Where>> log; unsigned gap = 0; uint64_t gap_at = ~0ull; std::function<bool()> all_taken; mode_s_msg tmp[64];
    AirSrc(unsigned p, unsigned l, unsigned m, uint64_t n_) : BlockBase("receiver"), planes(p), lazy(l), most(m), n(n_) {}
    Result<Empty, Error> procedure(ChannelBase<mode_s_msg>* out) {
        bool nap; { Quiet z; nap = next >= n || (lazy && sim::work(lazy) == 1); } if (nap) { pause_(); return Error::NotEnoughSamples; }
        if (!gap && next >= gap_at) {        // minutes without reception, in which the aircraft fly on
            if (!all_taken()) { pause_(1000); return Error::NotEnoughSamples; }
            Quiet z; sim::jump_wall(1000000000ll * (60 + sim::work(600))); gap = 1; sim::probe("reception gaps");
        }
        unsigned k = 1 + Wk(most), c = 0; size_t room = out->space(); { Quiet z; k = (unsigned)std::min<uint64_t>({k, n - next, room}); for (; c < k; c++) { if (!gap && next + c >= gap_at) break; unsigned icao = 0x4000 + sim::work(planes) * 0x111; auto& l = log[icao]; l.push_back(where_at(icao, sent[icao], gap)); tmp[c] = air_msg(icao, sent[icao]++, gap); } }
        if (!c) return Error::NotEnoughSpace;
        size_t did = out->writeN(tmp, c); Quiet z; if (did != c) sim::fail("harness", "short write"); next += did; progress(); return Empty{};
    }
};
struct Agg { ADSBAggregateBlock* b; AirSrc* src; uint64_t updates = 0; bool look; std::map<std::pair<std::string, unsigned>, int> count; } static *A;
static void check_plane(const ADSBState& s, const char* how) {
    ADSBState c = s; Quiet z;
    auto bad = [&](const char* f) { sim::fail("torn-picture", "%s: aircraft %x has a half-updated %s (callsign '%.9s', speed %g, track %g, climb %d, altitude %d)", how, c.icao, f, c.callsign, c.groundspeed, c.track, c.vertical_rate, c.altitude); };
    if ((c.icao - 0x4000) % 0x111 || c.icao - 0x4000 >= 0x111 * 400) bad("address");
    if (c.callsign[0] && !is_some_call(c.callsign)) bad("callsign");
    if (c.groundspeed) { unsigned v = ((unsigned)c.groundspeed - 100) / 3; if (c.track != track_of(v) || c.vertical_rate != climb_of(v)) bad("velocity"); }
    // what the first message_count messages said
    auto last = [&](int kind) { for (int j = c.message_count - 1; j >= 0; j--) if (j % 4 == kind) return j; return -1; };
    auto& log = A->src->log[c.icao]; if (c.message_count < 1 || (size_t)c.message_count > log.size()) bad("message count");
    int j = last(0); if (j >= 0 ? !is_call(c.callsign, (unsigned)j / 4 % VER) : c.callsign[0]) bad("callsign");
    j = last(1); if (c.groundspeed != (j >= 0 ? speed_of(j / 4 % VER) : 0)) bad("velocity");
    j = std::max(last(2), last(3)); if (c.altitude != (j >= 0 ? alt_of(j / 4 % VER) : 0)) bad("altitude");
    bool early = A->src->gap || sim::now_ns() > 9000000000ull;      // an older position may stand while the newest frame has no fresh counterpart
    if (c.position_valid) {
        auto near = [&](int k) { return fabs(c.lat - log[(size_t)k].lat) < 1e-4 && fabs(c.lon - log[(size_t)k].lon) < 1e-4; }; bool ok = false;
        for (int k = j; k >= 0 && !ok; k--) { ok = k % 4 >= 2 && near(k); if (k % 4 >= 2 && !early) break; }
        if (!ok) sim::fail("torn-picture", "%s: aircraft %x is shown at %.4f,%.4f and %s at %.4f,%.4f", how, c.icao, c.lat, c.lon, early ? "never was there, it is" : "is", j < 0 ? 0 : log[(size_t)j].lat, j < 0 ? 0 : log[(size_t)j].lon);
    } else if (c.message_count > 3 && !early) bad("position");
    int& m = A->count[{how, c.icao}]; if (c.message_count < m) bad("message count"); m = c.message_count;
}
static ADSBState planes_[512], more_planes_[512];
static void on_plane(const ADSBState& s, void* ctx) {
    Agg* a = (Agg*)ctx; ADSBState c = s; { Quiet z; a->updates++; check_plane(s, "told by the callback"); }
    if (a->look && Wk(4) == 1) { size_t k = a->b->aircraft_count(); if (k < 1) sim::fail("torn-picture", "the callback is told of an aircraft, and none is known"); }
}
static void s_aircraft() {
    std::string s; gui_setup(s); Agg agg; A = &agg; uint64_t n; unsigned planes, stops; bool query, callback; { Quiet z; n = 50 + sim::work(1500); static const unsigned p[4] = {20, 1, 4, 200}; planes = p[sim::cfg(4)]; agg.look = sim::cfg(2); stops = sim::cfg(3) == 0 ? 1 + sim::cfg(2) : 0; query = sim::cfg(2); callback = sim::cfg(3) != 0; }
    unsigned lazy = C(2) ? 0 : 2 + C(4), most = C(2) ? 60 : 1 + C(6); AirSrc src(planes, lazy, most, n); agg.src = &src; if (C(3) == 1) { Quiet z; src.gap_at = sim::work((unsigned)n); s += ", a reception gap"; }
    auto b = std::make_unique<ADSBAggregateBlock>("map", 32.f, 34.f, callback ? on_plane : nullptr, (void*)&agg, "/no/coast.shp"); agg.b = b.get();
    src.all_taken = [&] { size_t k = b->get_aircrafts(more_planes_, 512); Quiet z; uint64_t m = 0; for (size_t i = 0; i < k; i++) m += (uint64_t)more_planes_[i].message_count; return m == src.next; };
    { Quiet z; sim::sample("%llu messages of %u aircraft%s%s%s, %u stops", (unsigned long long)n, planes, callback ? ", with callback" : "", query ? ", queried by another thread" : "", s.c_str(), stops); if (n > 200 && planes > 1) sim::nontrivial(); }
    unsigned drawn = 0; G.shape = [&](char k, const ImVec2* p, ImU32, const char* t) {
        if (k == 't') { drawn++; for (int i = 0; i < 3; i++) if (!(p[i].x > -100 && p[i].x < 1000 && p[i].y > -100 && p[i].y < 1000)) sim::fail("torn-picture", "an aircraft is drawn at %g,%g", p[i].x, p[i].y); }
        else { if (!is_some_call(t)) sim::fail("torn-picture", "the callsign '%s' is drawn", t); } };
    std::atomic<bool> quit{false}; std::thread asker;
    auto ask = [&](const char* how) { size_t c0 = b->aircraft_count(); size_t room = C(2) ? 512 : 3; planes_[room < 512 ? room : 511].icao = 7; size_t k = b->get_aircrafts(planes_, room); if (k > room || (room < 512 && planes_[room].icao != 7)) sim::fail("torn-picture", "%zu aircraft in a buffer of %zu", k, room); if (k < std::min(room, c0)) sim::fail("torn-picture", "%zu aircraft of %zu are reported", k, c0); for (size_t i = 0; i < k; i++) check_plane(planes_[i], how); size_t c1 = b->aircraft_count(); if (c1 < c0) sim::fail("torn-picture", "the number of aircraft falls from %zu to %zu", c0, c1); };
    if (query) asker = std::thread([&] { while (!quit) { ask("asked by a thread"); pause_(20000); } });
    auto render = [&] { { Quiet z; G.io.MousePos = ImVec2(sim::work(2) ? 100 : 5000, 100); G.io.MouseWheel = sim::work(4) == 1 ? 1.f : 0.f; for (bool& x : G.dragging) x = sim::work(6) == 1; G.drag = ImVec2(3, 2); } b->render(); if (!query && Wk(3) == 1) ask("asked by the GUI"); };
    drive([&] { return src.next >= n && !b->in.size(); }, render, nullptr, stops, BlockRunner(&src, (ChannelBase<mode_s_msg>*)&b->in), BlockRunner(b.get()));
    quit = true; if (asker.joinable()) asker.join();
    size_t k = b->get_aircrafts(planes_, 512); { Quiet z;
        if (k != src.sent.size()) sim::fail("stale-picture", "%zu aircraft were heard, %zu are known", src.sent.size(), k);
        for (size_t i = 0; i < k; i++) { auto& p = planes_[i]; int c = (int)src.sent[p.icao]; if (p.message_count != c) sim::fail("stale-picture", "aircraft %x sent %d messages, %d are counted", p.icao, c, p.message_count);
            check_plane(p, "at the end"); }
        if (drawn) sim::probe("aircraft drawn", drawn); }
}

static const sim::Scenario S[] = {{"timeseries", 3, s_timeseries}, {"spectrum", 3, s_spectrum}, {"spectrogram", 2, s_spectrogram}, {"aircraft", 3, s_aircraft}};
int main(int c, char** v) { return sim::main(c, v, S, sizeof S / sizeof *S); }
