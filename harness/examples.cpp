// C29: the example programs, as they are shipped.  Each main() is compiled from /repo/desktop_examples and
// run whole: window, graphics and radio hardware are stand-ins, and the user closes the window, presses
// Ctrl+C or turns knobs at moments of the simulator's choice.
#include "common.hpp"
#include <atomic>
#include <chrono>
#include <csignal>
#include <cstdarg>
#include <cstdlib>
#include <iostream>
#include <map>
#include <random>
#include <sstream>
#include <string>
#include <thread>
#include <variant>
#include <array>
#include <numeric>
#include <algorithm>
#include <condition_variable>
#include <fstream>
#include <iomanip>
#include <memory>
#include <mutex>
#include <optional>
#include <set>
#include <unordered_map>
#include <vector>
#include "cler_desktop_utils.hpp"
#include "liquid.h"
#include "desktop_blocks/gui/gui_manager.hpp"
#include "imgui_impl_glfw.h"
#include "imgui_impl_opengl3.h"
#include "desktop_blocks/plots/plot_timeseries.hpp"
#include "desktop_blocks/plots/plot_cspectrum.hpp"
#include "desktop_blocks/plots/plot_cspectrogram.hpp"
#include "desktop_blocks/sources/source_cw.hpp"
#include "desktop_blocks/sources/source_chirp.hpp"
#include "desktop_blocks/sources/source_file.hpp"
#include "desktop_blocks/sources/source_hackrf.hpp"
#include "desktop_blocks/sources/source_cariboulite.hpp"
#include "desktop_blocks/sources/source_soapysdr.hpp"
#include "desktop_blocks/sources/source_uhd.hpp"
#include "desktop_blocks/sinks/sink_uhd.hpp"
#include "desktop_blocks/sinks/sink_hackrf.hpp"
#include "desktop_blocks/sinks/sink_file.hpp"
#include "desktop_blocks/sinks/sink_audio.hpp"
#include "desktop_blocks/sinks/sink_null.hpp"
#include "desktop_blocks/utils/throttle.hpp"
#include "desktop_blocks/utils/fanout.hpp"
#include "desktop_blocks/utils/throughput.hpp"
#include "desktop_blocks/math/complex_demux.hpp"
#include "desktop_blocks/noise/awgn.hpp"
#include "desktop_blocks/channelizers/polyphase_channelizer.hpp"
#include "desktop_blocks/filters/kaiser_lpf.hpp"
#include "desktop_blocks/fm/fm_demod.hpp"
#include "desktop_blocks/resamplers/multistage_resampler.hpp"
#include "desktop_blocks/blob.hpp"
#include "desktop_blocks/udp/sink_udp.hpp"
#include "desktop_blocks/udp/source_udp.hpp"
#include "desktop_blocks/adsb/adsb_decoder.hpp"
#include "desktop_blocks/adsb/adsb_aggregate.hpp"
#include "desktop_blocks/ezgmsk/ezgmsk_demod.hpp"
#include "desktop_blocks/ezgmsk/ezgmsk_mod.hpp"
// the example that writes files empties the directory "output": it gets the simulator's files, never real ones
#include <filesystem>
static bool out_dir; static int out_dir_errors;
namespace std { namespace simfs {
struct filesystem_error : runtime_error { using runtime_error::runtime_error; };
inline bool exists(const string& p) { Quiet z; return p == "output" ? out_dir : sim::fs_exists(p); }
inline bool create_directory(const string& p) { Quiet z; if (out_dir_errors) { out_dir_errors--; throw filesystem_error("cannot create directory: " + p); } out_dir = true; return true; }
inline uintmax_t remove_all(const string& p) { if (out_dir_errors) { out_dir_errors--; throw filesystem_error("cannot remove: " + p); } return ::remove(p.c_str()) == 0; }
struct directory_iterator { vector<string> v; directory_iterator(const string& p) { Quiet z; for (auto& f : sim::fs_list()) if (f.compare(0, p.size() + 1, p + "/") == 0) v.push_back(f); } auto begin() { return v.begin(); } auto end() { return v.end(); } };
} }
#define filesystem simfs
#include "desktop_examples/ezgmsk/utils.hpp"
#undef filesystem

// The programs share names of types and functions; headers without an include guard are taken once per program.
#define EX(N) namespace ex_##N
EX(flowgraph) {
#include "desktop_examples/flowgraph.cpp"
}
EX(streamlined) {
#include "desktop_examples/streamlined.cpp"
}
EX(selectable) {
#include "desktop_examples/selectable_blocks.cpp"
}
EX(udp) {
#include "desktop_examples/udp.cpp"
}
EX(hello) {
#include "desktop_examples/hello_world.cpp"
}
EX(plots) {
#include "desktop_examples/plots.cpp"
}
EX(freq) {
#include "desktop_examples/frequency_shift.cpp"
}
EX(msd) {
#include "desktop_examples/mass_spring_damper.cpp"
}
EX(poly) {
#include "desktop_examples/polyphase_channelizer.cpp"
}
EX(gmsk) {
#include "desktop_examples/ezgmsk/mod_demod_simulation.cpp"
}
EX(giq) {
#include "desktop_examples/ezgmsk/demod_iq_recording.cpp"
}
EX(cw) {
#include "desktop_examples/hackrf_cw.cpp"
}
EX(hspec) {
#include "desktop_examples/hackrf_spectrum.cpp"
}
EX(cspec) {
#include "desktop_examples/cariboulite_spectrum.cpp"
}
EX(crec) {
#include "desktop_examples/cariboulite_recorder.cpp"
}
EX(soapy) {
#include "desktop_examples/soapysdr_device.cpp"
}
EX(fm) {
#include "desktop_examples/fm_receiver.cpp"
}
EX(uhd) {
#include "desktop_examples/uhd_device.cpp"
}
EX(adsb) {
#include "desktop_examples/adsb_receiver.cpp"
}

static const double TAU = 6.283185307179586;
static void nap(uint64_t ns) { std::this_thread::sleep_for(std::chrono::nanoseconds(ns)); }

// ---------------------------------------------------------------- what a program prints
struct Screen : std::streambuf {
    std::string all, line; std::function<void(const std::string&)> each; std::streambuf *o, *e;
    Screen() { o = std::cout.rdbuf(this); e = std::cerr.rdbuf(this); }
    ~Screen() { std::cout.rdbuf(o); std::cerr.rdbuf(e); }
    NOTSAN void put(const char* p, size_t n) { Quiet z; for (size_t i = 0; i < n; i++) { all += p[i]; if (p[i] != '\n') line += p[i]; else { if (each) each(line); line.clear(); } } if (all.size() > 100000) all.erase(0, 50000); }
    int overflow(int c) override { char k = (char)c; if (c != EOF) put(&k, 1); return 0; }
    std::streamsize xsputn(const char* p, std::streamsize n) override { put(p, (size_t)n); return n; }
    int sync() override { return 0; }
    bool has(const char* s) { return all.find(s) != std::string::npos; }
};

// ---------------------------------------------------------------- the window
struct GLFWwindow { bool close; };
struct ImGuiContext { int x; };
struct ImPlotContext { int x; };
static const uint64_t REFRESH = 16666667;
struct Gui {
    int tid = -1, begun = 0, plots = 0, colormaps = 0; bool shown = false, in_frame = false, glfw = false, fiddle = false; GLFWwindow* win = nullptr; uint64_t close_at = ~0ull, closed_at = 0, frames = 0, lines = 0, maps = 0, t0 = 0, knobs = 0;
    ImGuiIO io; ImGuiStyle style; ImDrawData dd; ImGuiContext* im = nullptr; ImPlotContext* ip = nullptr; int text_planes = 0;
    std::function<void(const char*, const float*, const float*, int)> line; std::function<void(const char*, const float*, int, int)> map; std::function<void(float*, const char*)> slider; std::function<void(const char*)> button;
    std::string want_button;
};
static Gui G; static ImDrawList DL;
static void misuse(const char* w) { sim::fail("gui-misuse", "%s", w); }
static void on_gui() { if (!G.win || sim::tid() != G.tid) misuse("a drawing call without a window or on another thread than its own"); }
static void inside() { on_gui(); if (!G.in_frame || !G.begun) misuse("a widget outside a frame or window"); }
extern "C" {
int glfwInit() { G.glfw = true; return 1; } void glfwTerminate() { Quiet z; delete G.win; G.win = nullptr; G.glfw = false; } GLFWerrorfun glfwSetErrorCallback(GLFWerrorfun) { return nullptr; } int glfwGetError(const char** d) { if (d) *d = nullptr; return 0; }
void glfwWindowHint(int, int) {} void glfwDefaultWindowHints() {}
GLFWwindow* glfwCreateWindow(int, int, const char*, GLFWmonitor*, GLFWwindow*) { Quiet z; if (!G.glfw || G.win) misuse("a second window"); G.tid = sim::tid(); return G.win = new GLFWwindow{false}; }
void glfwDestroyWindow(GLFWwindow* w) { Quiet z; if (w && w == G.win) { delete w; G.win = nullptr; } } void glfwMakeContextCurrent(GLFWwindow*) {} GLFWwindow* glfwGetCurrentContext() { return G.win; } void glfwSwapInterval(int) {}
void glfwSwapBuffers(GLFWwindow*) { { Quiet z; G.frames++; G.shown = true; progress(8000000); } nap(REFRESH - sim::now_ns() % REFRESH); }
void glfwPollEvents() { Quiet z; if (G.win && sim::now_ns() >= G.close_at && !G.win->close) { G.win->close = true; G.closed_at = sim::now_ns(); } }
int glfwWindowShouldClose(GLFWwindow* w) { if (w != G.win) misuse("no such window"); return w->close; } void glfwSetWindowShouldClose(GLFWwindow* w, int v) { w->close = v; } void glfwSetWindowTitle(GLFWwindow*, const char*) {}
void glfwGetFramebufferSize(GLFWwindow*, int* x, int* y) { *x = 800; *y = 600; } void glfwGetWindowSize(GLFWwindow*, int* x, int* y) { *x = 800; *y = 600; }
void glEnable(GLenum) {} void glDisable(GLenum) {} GLenum glGetError() { return 0; } void glFlush() {} void glFinish() {} void glViewport(GLint, GLint, GLsizei, GLsizei) {} void glClearColor(GLfloat, GLfloat, GLfloat, GLfloat) {} void glClear(GLbitfield) {}
}
bool ImGui_ImplGlfw_InitForOpenGL(GLFWwindow*, bool) { return true; } void ImGui_ImplGlfw_Shutdown() {} void ImGui_ImplGlfw_NewFrame() {} bool ImGui_ImplOpenGL3_Init(const char*) { return true; } void ImGui_ImplOpenGL3_Shutdown() {} void ImGui_ImplOpenGL3_NewFrame() {} void ImGui_ImplOpenGL3_RenderDrawData(ImDrawData*) {}
static bool knob() { Quiet z; bool t = G.fiddle && sim::work(12) == 1; G.knobs += t; return t; }
namespace ImGui {
ImGuiContext* CreateContext(ImFontAtlas*) { Quiet z; return G.im = new ImGuiContext{0}; } void DestroyContext(ImGuiContext*) { Quiet z; delete G.im; G.im = nullptr; } ImGuiContext* GetCurrentContext() { return G.im; } void SetCurrentContext(ImGuiContext*) {}
ImGuiIO& GetIO() { on_gui(); return G.io; } ImGuiStyle& GetStyle() { return G.style; } void StyleColorsDark(ImGuiStyle*) {} void StyleColorsLight(ImGuiStyle*) {}
void NewFrame() { on_gui(); if (G.in_frame) misuse("a frame inside a frame"); G.in_frame = true; } void EndFrame() { G.in_frame = false; } void Render() { on_gui(); if (G.begun || G.plots) misuse("a frame ends with windows or plots open"); G.in_frame = false; } ImDrawData* GetDrawData() { return &G.dd; }
void SetNextWindowSize(const ImVec2&, ImGuiCond) { on_gui(); } void SetNextWindowPos(const ImVec2&, ImGuiCond, const ImVec2&) { on_gui(); }
bool Begin(const char*, bool*, ImGuiWindowFlags) { on_gui(); if (!G.in_frame) misuse("a window outside a frame"); Quiet z; G.begun++; return sim::work(8) != 1; } void End() { inside(); G.begun--; }
bool Button(const char* l, const ImVec2&) { inside(); if (!strcmp(l, "Pause")) return false; if (!strcmp(l, "Resume")) return true; if (!knob()) return false; Quiet z; if (G.button) G.button(l); return true; }
void Text(const char* f, ...) { inside(); va_list a; va_start(a, f); char b[256]; vsnprintf(b, sizeof b, f, a); va_end(a); } void SameLine(float, float) { inside(); } void SetNextItemWidth(float) { inside(); } void Separator() { inside(); }
bool SliderFloat(const char* l, float* v, float lo, float hi, const char*, ImGuiSliderFlags) { inside(); if (!knob()) return false; float x; { Quiet z; x = lo + (hi - lo) * (float)sim::work(101) / 100.f; if (G.slider) G.slider(&x, l); } *v = x; return true; }
bool InputFloat(const char*, float* v, float step, float, const char*, int) { inside(); if (!knob()) return false; *v += step; return true; } bool Checkbox(const char*, bool* v) { inside(); if (!knob()) return false; *v = !*v; return true; }
bool IsItemHovered(ImGuiHoveredFlags) { inside(); return Wk(4) == 1; } void SetTooltip(const char*, ...) { inside(); }
ImVec2 GetCursorScreenPos() { inside(); return {10, 20}; } ImVec2 GetContentRegionAvail() { inside(); return {800, 600}; } ImDrawList* GetWindowDrawList() { inside(); return &DL; } void SetCursorScreenPos(const ImVec2&) { inside(); }
bool IsMouseDragging(ImGuiMouseButton, float) { on_gui(); return false; } ImVec2 GetMouseDragDelta(ImGuiMouseButton, float) { return {}; } void ResetMouseDragDelta(ImGuiMouseButton) {} ImU32 GetColorU32(const ImVec4&) { return 0; }
}
static void finite(const ImVec2& p) { inside(); if (!(fabsf(p.x) < 1e7f && fabsf(p.y) < 1e7f)) sim::fail("off-screen", "something is drawn at (%g, %g)", p.x, p.y); }
void ImDrawList::AddLine(const ImVec2& a, const ImVec2& b, ImU32, float) { finite(a); finite(b); } void ImDrawList::AddRect(const ImVec2&, const ImVec2&, ImU32, float, ImDrawFlags, float) { inside(); } void ImDrawList::AddRectFilled(const ImVec2& a, const ImVec2&, ImU32, float, ImDrawFlags) { finite(a); }
void ImDrawList::AddTriangle(const ImVec2&, const ImVec2&, const ImVec2&, ImU32, float) { inside(); } void ImDrawList::AddTriangleFilled(const ImVec2&, const ImVec2&, const ImVec2&, ImU32) { inside(); G.text_planes++; } void ImDrawList::AddText(const ImVec2&, ImU32, const char*, const char*) { inside(); }
namespace ImPlot {
ImPlotContext* CreateContext() { Quiet z; return G.ip = new ImPlotContext{0}; } void DestroyContext(ImPlotContext*) { Quiet z; delete G.ip; G.ip = nullptr; } ImPlotContext* GetCurrentContext() { return G.ip; }
bool BeginPlot(const char*, const ImVec2&, ImPlotFlags) { inside(); G.plots++; return true; } void EndPlot() { inside(); if (!G.plots || G.colormaps) misuse("EndPlot does not match"); G.plots--; }
void SetupAxis(ImAxis, const char*, ImPlotAxisFlags) { inside(); } void SetupAxes(const char*, const char*, ImPlotAxisFlags, ImPlotAxisFlags) { inside(); } void SetupAxisLimits(ImAxis, double, double, ImPlotCond) { inside(); } void PushColormap(ImPlotColormap) { G.colormaps++; } void PopColormap(int n) { G.colormaps -= n; }
}
static float bx[1 << 15], by[1 << 15];
void plotted_line(const char* l, const float* xs, const float* ys, int n, int, int) { inside(); if (!G.plots || n < 0 || n > 1 << 15) misuse("a line outside a plot, or of no sensible length"); memcpy(bx, xs, n * sizeof(float)); memcpy(by, ys, n * sizeof(float)); Quiet z; G.lines++; if (G.line) G.line(l, bx, by, n); }
void plotted_map(const char* l, const float* v, int rows, int cols) { inside(); if (!G.plots || rows < 1 || cols < 1 || cols > 1 << 15) misuse("a heatmap outside a plot, or of no sensible size"); memcpy(bx, v, cols * sizeof(float)); Quiet z; G.maps++; if (G.map) G.map(l, bx, rows, cols); }

// ---------------------------------------------------------------- radios
struct Radio { int open = 0, active = 0; double freq = 0, rate = 0, gain = -1; uint64_t n = 0; std::complex<float> (*air)(uint64_t k) = nullptr; unsigned gap_us = 500; };
static Radio R; static void rmis(const char* w) { sim::fail("device-misuse", "%s", w); }
static double tone_hz; static std::complex<float> tone(uint64_t k) { double p = TAU * fmod(tone_hz / R.rate * (double)k, 1.0); return {(float)(0.5 * cos(p)), (float)(0.5 * sin(p))}; }
struct hackrf_device { hackrf_sample_block_cb_fn cb; void* ctx; bool tx; std::thread th; std::atomic<bool> quit{false}; };
static hackrf_device* hd; static std::vector<int8_t> txd; static uint64_t tx_calls;
static void hack_run(hackrf_device* h) {
    while (!h->quit) {
        nap(1000 * (uint64_t)(R.gap_us + Wk(R.gap_us))); if (h->quit) return;
        unsigned n; { Quiet z; n = 64 + sim::work(400); } std::unique_ptr<uint8_t[]> b(new uint8_t[2 * n]); hackrf_transfer t{}; t.device = h; t.buffer = b.get(); t.buffer_length = t.valid_length = (int)(2 * n); t.rx_ctx = t.tx_ctx = h->ctx;
        { Quiet z; for (unsigned i = 0; i < n; i++) { auto v = h->tx ? std::complex<float>(0, 0) : R.air(R.n + i); b[2 * i] = (uint8_t)(int8_t)lrintf(v.real() * 127); b[2 * i + 1] = (uint8_t)(int8_t)lrintf(v.imag() * 127); } }
        if (h->cb(&t)) return;
        Quiet z; R.n += n; if (h->tx) { tx_calls++; for (unsigned i = 0; i < 2 * n; i++) txd.push_back((int8_t)b[i]); }
    }
}
extern "C" {
int hackrf_init() { return 0; } int hackrf_exit() { return 0; } int hackrf_open(hackrf_device** o) { Quiet z; if (hd) return -1; hd = *o = new hackrf_device{}; R.open++; return 0; }
int hackrf_set_freq(hackrf_device* h, uint64_t f) { if (h != hd) rmis("a call on a closed HackRF"); if (f < 1000000 || f > 6000000000ull) return -2; R.freq = (double)f; return 0; } int hackrf_set_sample_rate(hackrf_device* h, double r) { if (h != hd) rmis("a call on a closed HackRF"); if (r < 2e6 || r > 20e6) return -2; R.rate = r; return 0; }
int hackrf_set_lna_gain(hackrf_device*, uint32_t g) { return g > 40 ? -2 : 0; } int hackrf_set_vga_gain(hackrf_device*, uint32_t g) { return g > 62 ? -2 : 0; } int hackrf_set_txvga_gain(hackrf_device*, uint32_t g) { R.gain = g; return g > 47 ? -2 : 0; } int hackrf_set_amp_enable(hackrf_device*, uint8_t) { return 0; }
static int hstart(hackrf_device* h, hackrf_sample_block_cb_fn cb, void* c, bool tx) { if (h != hd || h->cb) rmis("the HackRF is started twice or closed"); h->cb = cb; h->ctx = c; h->tx = tx; R.active++; h->th = std::thread([h] { hack_run(h); }); return 0; }
static int hstop(hackrf_device* h) { if (h != hd) rmis("a call on a closed HackRF"); if (h->th.joinable()) { h->quit = true; h->th.join(); R.active--; } return 0; }
int hackrf_start_rx(hackrf_device* h, hackrf_sample_block_cb_fn cb, void* c) { return hstart(h, cb, c, false); } int hackrf_start_tx(hackrf_device* h, hackrf_sample_block_cb_fn cb, void* c) { return hstart(h, cb, c, true); } int hackrf_stop_rx(hackrf_device* h) { return hstop(h); } int hackrf_stop_tx(hackrf_device* h) { return hstop(h); }
int hackrf_close(hackrf_device* h) { hstop(h); Quiet z; R.open--; hd = nullptr; delete h; return 0; }
}
static CaribouLiteRadio the_radio; static CaribouLite the_caribou;
bool CaribouLite::DetectBoard(SysVersion*, std::string&, std::string&) { return true; } std::string CaribouLite::GetSystemVersionStr(SysVersion) { return "sim"; } CaribouLite& CaribouLite::GetInstance(bool) { return the_caribou; } CaribouLiteRadio* CaribouLite::GetRadioChannel(CaribouLiteRadio::RadioType) { return &the_radio; }
std::vector<CaribouLiteFreqRange> CaribouLiteRadio::GetFrequencyRange() { return {{389.5e6f, 510e6f}, {779e6f, 1020e6f}}; } float CaribouLiteRadio::GetRxSampleRateMax() { return 4e6f; } float CaribouLiteRadio::GetRxSampleRateMin() { return 4e5f; } size_t CaribouLiteRadio::GetNativeMtuSample() { return 1024; }
void CaribouLiteRadio::SetFrequency(float f) { R.freq = f; } void CaribouLiteRadio::SetRxSampleRate(float r) { R.rate = r; } void CaribouLiteRadio::SetAgc(bool) {} void CaribouLiteRadio::SetRxGain(float g) { R.gain = g; } void CaribouLiteRadio::StartReceiving() { R.active++; } void CaribouLiteRadio::StopReceiving() { R.active--; }
template <class T> static size_t air_to(T* p, size_t n, unsigned most) { if (!R.active) rmis("read from a radio that is not receiving"); if (Wk(2)) nap(1000 * (uint64_t)(1 + Wk(R.gap_us))); Quiet z; n = std::min<size_t>(n, 1 + sim::work(most)); std::vector<T> t(n); for (size_t i = 0; i < n; i++) { auto v = R.air(R.n + i); if constexpr (std::is_same_v<T, std::complex<float>>) t[i] = v; else t[i] = T((short)lrintf(v.real() * 4095), (short)lrintf(v.imag() * 4095)); } memcpy((void*)p, t.data(), n * sizeof(T)); R.n += n; return n; }
template <class T> static int cari(T* p, size_t n) { auto* q = (volatile char*)p; q[0] = 0; q[n * sizeof(T) - 1] = 0; return (int)air_to(p, n, 1024); }
int CaribouLiteRadio::ReadSamples(std::complex<float>* p, size_t n) { return cari(p, n); } int CaribouLiteRadio::ReadSamples(std::complex<short>* p, size_t n) { return cari(p, n); }
namespace SoapySDR {
struct Stream { std::string fmt; bool on = false; }; static Device* sdev; static Stream* sstr; static void live(const Device* p) { if (!p || p != sdev) rmis("a SoapySDR call on a device that is not open"); }
const char* errToStr(int) { return "status"; } std::string KwargsToString(const Kwargs&) { return ""; } KwargsList Device::enumerate() { return {Kwargs{{"driver", "sim"}}}; } Device* Device::make(const std::string&) { Quiet z; if (sdev) return nullptr; R.open++; return sdev = new Device; } Device* Device::make(const Kwargs&) { return make(std::string()); } void Device::unmake(Device* p) { live(p); if (sstr) rmis("unmade with a stream set up"); Quiet z; delete p; sdev = nullptr; R.open--; }
std::string Device::getDriverKey() const { live(this); return "sim"; } std::string Device::getHardwareKey() const { live(this); return "sim"; } std::vector<std::string> Device::listAntennas(int, size_t) const { live(this); return {"A", "B"}; } void Device::setAntenna(int, size_t, const std::string&) { live(this); } std::string Device::getAntenna(int, size_t) const { live(this); return "A"; }
bool Device::hasDCOffsetMode(int, size_t) const { return true; } void Device::setDCOffsetMode(int, size_t, bool) { live(this); } bool Device::hasDCOffset(int, size_t) const { return true; } void Device::setDCOffset(int, size_t, const std::complex<double>&) {} bool Device::hasIQBalance(int, size_t) const { return true; } void Device::setIQBalance(int, size_t, const std::complex<double>&) {}
std::vector<std::string> Device::listGains(int, size_t) const { return {"g"}; } bool Device::hasGainMode(int, size_t) const { return true; } void Device::setGainMode(int, size_t, bool) {} void Device::setGain(int, size_t, double g) { live(this); R.gain = g; } Range Device::getGainRange(int, size_t) const { return {0, 60}; } Range Device::getGainRange(int, size_t, const std::string&) const { return {0, 60}; }
void Device::setFrequency(int, size_t, double f, const Kwargs&) { live(this); R.freq = f; } RangeList Device::getFrequencyRange(int, size_t) const { return {{24e6, 1.766e9}}; } void Device::setSampleRate(int, size_t, double r) { R.rate = r; } RangeList Device::getSampleRateRange(int, size_t) const { return {{225e3, 3.2e6}}; } void Device::setBandwidth(int, size_t, double) {} double Device::getBandwidth(int, size_t) const { return 2e6; } RangeList Device::getBandwidthRange(int, size_t) const { return {{1e5, 8e6}}; }
Stream* Device::setupStream(int, const std::string& f, const std::vector<size_t>&, const Kwargs&) { live(this); Quiet z; if (sstr) return nullptr; return sstr = new Stream{f}; } void Device::closeStream(Stream* s) { live(this); Quiet z; if (s != sstr) rmis("no such stream"); if (s->on) R.active--; delete s; sstr = nullptr; } size_t Device::getStreamMTU(Stream*) const { return 4096; }
int Device::activateStream(Stream* s, int, long long, size_t) { live(this); if (!s->on) R.active++; s->on = true; return 0; } int Device::deactivateStream(Stream* s, int, long long) { live(this); if (s->on) R.active--; s->on = false; return 0; }
int Device::readStream(Stream* s, void* const* b, size_t n, int&, long long&, long) { live(this); if (s->fmt == "CF32") return (int)air_to((std::complex<float>*)b[0], n, 4096); return (int)air_to((std::complex<short>*)b[0], n, 4096); } int Device::writeStream(Stream*, const void* const*, size_t, int&, long long, long) { return -5; }
}
static std::vector<std::complex<float>> uhd_sent; static unsigned uhd_late, uhd_fail_make; static int uhd_streams;
namespace uhd {
bool set_thread_priority_safe(float, bool) { return true; } std::string rx_metadata_t::strerror() const { return "error"; }
rx_streamer::~rx_streamer() { if (on) R.active--; uhd_streams--; } tx_streamer::~tx_streamer() { uhd_streams--; } size_t rx_streamer::get_max_num_samps() const { return 2000; } size_t tx_streamer::get_max_num_samps() const { return 2000; }
void rx_streamer::issue_stream_cmd(const stream_cmd_t& c) { bool o = c.mode == stream_cmd_t::STREAM_MODE_START_CONTINUOUS; R.active += (int)o - (int)on; on = o; }
size_t rx_streamer::recv(const buffs_type& b, size_t n, rx_metadata_t& md, double, bool) { if (b.size() != 1 || fmt != "fc32") rmis("wrong buffers or format"); md = rx_metadata_t(); { Quiet z; if (sim::work(20) == 1) { uhd_late++; md.error_code = rx_metadata_t::ERROR_CODE_OVERFLOW; return 0; } } return air_to((std::complex<float>*)b[0], n, 4096); }
size_t tx_streamer::send(const buffs_type& b, size_t n, const tx_metadata_t&, double) {
    if (b.size() != 1 || fmt != "fc32") rmis("wrong buffers or format"); nap(1000 * (uint64_t)(1 + Wk(R.gap_us))); size_t k; { Quiet z; k = sim::work(10) == 1 ? 0 : std::min<size_t>(n, 1 + sim::work(4096)); }
    std::unique_ptr<std::complex<float>[]> t(new std::complex<float>[k + 1]); memcpy((void*)t.get(), b[0], k * sizeof(std::complex<float>)); Quiet z; uhd_sent.insert(uhd_sent.end(), t.get(), t.get() + k); return k; }
bool tx_streamer::recv_async_msg(async_metadata_t& m, double) { Quiet z; if (sim::work(20) != 1) return false; uhd_late++; m.event_code = async_metadata_t::EVENT_CODE_UNDERFLOW; return true; }
namespace usrp {
multi_usrp::multi_usrp() { R.open++; } multi_usrp::~multi_usrp() { R.open--; if (uhd_streams) rmis("the USRP is released before its streamer"); }
multi_usrp::sptr multi_usrp::make(const std::string& a) { Quiet z; if (R.open) rmis("the USRP is made twice"); if (uhd_fail_make && !--uhd_fail_make) throw std::runtime_error("no device"); if (a != "addr=192.168.10.2") sim::fail("wrong-setting", "the USRP '%s' is asked for", a.c_str()); return std::make_shared<multi_usrp>(); }
std::string multi_usrp::get_mboard_name(size_t) { return "sim"; } std::string multi_usrp::get_pp_string() { return "sim"; } size_t multi_usrp::get_rx_num_channels() { return 1; } size_t multi_usrp::get_tx_num_channels() { return 1; }
void multi_usrp::set_rx_rate(double r, size_t) { R.rate = r; } double multi_usrp::get_rx_rate(size_t) { return R.rate; } tune_result_t multi_usrp::set_rx_freq(const tune_request_t& q, size_t) { R.freq = q.f; return {}; } freq_range_t multi_usrp::get_rx_freq_range(size_t) { return {7e7, 6e9}; } void multi_usrp::set_rx_gain(double g, size_t) { R.gain = g; } gain_range_t multi_usrp::get_rx_gain_range(size_t) { return {0, 90}; } void multi_usrp::set_rx_bandwidth(double, size_t) {}
void multi_usrp::set_tx_rate(double r, size_t) { R.rate = r; } double multi_usrp::get_tx_rate(size_t) { return R.rate; } tune_result_t multi_usrp::set_tx_freq(const tune_request_t& q, size_t) { R.freq = q.f; return {}; } freq_range_t multi_usrp::get_tx_freq_range(size_t) { return {7e7, 6e9}; } void multi_usrp::set_tx_gain(double g, size_t) { R.gain = g; } gain_range_t multi_usrp::get_tx_gain_range(size_t) { return {0, 90}; } void multi_usrp::set_tx_bandwidth(double, size_t) {}
rx_streamer::sptr multi_usrp::get_rx_stream(const stream_args_t& a) { Quiet z; uhd_streams++; auto s = std::make_shared<rx_streamer>(); s->nch = a.channels.size(); s->fmt = a.cpu_format; return s; } tx_streamer::sptr multi_usrp::get_tx_stream(const stream_args_t& a) { Quiet z; uhd_streams++; auto s = std::make_shared<tx_streamer>(); s->nch = a.channels.size(); s->fmt = a.cpu_format; return s; }
time_spec_t multi_usrp::get_time_last_pps(size_t) { return time_spec_t((double)(sim::now_ns() / 1000000000ull)); } void multi_usrp::set_time_next_pps(const time_spec_t&, size_t) {}
}
}
static int pa_stream; static bool pa_open, pa_on; static std::vector<float> heard; static const PaDeviceInfo pa_info = {2, "sim", 2, 0.01}; static double pa_rate;
extern "C" {
PaError Pa_Initialize() { return 0; } PaError Pa_Terminate() { return 0; } const char* Pa_GetErrorText(PaError) { return "error"; } PaDeviceIndex Pa_GetDeviceCount() { return 1; } PaDeviceIndex Pa_GetDefaultOutputDevice() { return 0; } const PaDeviceInfo* Pa_GetDeviceInfo(PaDeviceIndex i) { return i ? nullptr : &pa_info; }
PaError Pa_OpenStream(PaStream** s, const PaStreamParameters*, const PaStreamParameters*, double r, unsigned long, unsigned long, void*, void*) { *s = &pa_stream; pa_open = true; pa_rate = r; return 0; } PaError Pa_StartStream(PaStream*) { pa_on = true; return 0; } PaError Pa_StopStream(PaStream*) { pa_on = false; return 0; } PaError Pa_AbortStream(PaStream*) { pa_on = false; return 0; } PaError Pa_CloseStream(PaStream*) { pa_open = pa_on = false; return 0; } signed long Pa_GetStreamWriteAvailable(PaStream*) { return 64; }
PaError Pa_WriteStream(PaStream*, const void* p, unsigned long n) { if (!pa_on) rmis("write to an audio stream that is not running"); std::unique_ptr<float[]> t(new float[n]); memcpy(t.get(), p, n * sizeof(float)); Quiet z; heard.insert(heard.end(), t.get(), t.get() + n); return 0; }
}
// the user at the keyboard
static std::atomic<void (*)(int)> on_sigint;
extern "C" __sighandler_t signal(int s, __sighandler_t h) noexcept { if (s == SIGINT) on_sigint = h; return nullptr; }

// ---------------------------------------------------------------- running a program
static void set_up(const char* what, unsigned tick) {
    Quiet z; new (&G) Gui; new (&R) Radio; txd.clear(); heard.clear(); progress(20000000); sim::set_weak(false); sim::set_tick(tick); G.t0 = sim::now_ns();
    std::string s; if (sim::cfg(4) == 0) { sim::set_rate(sim::F_STALL, 1); s = ", stalls"; } if (sim::cfg(4) == 0) { sim::set_rate(sim::F_OVERSLEEP, 100); s += ", late wake-ups"; } sim::sample("%s, %u ns per access%s", what, tick, s.c_str());
}
static void nothing_left(const char* what, int r, uint64_t asked) {
    Quiet z; if (r) sim::fail("exit-code", "%s ends with %d", what, r);
    if (asked && sim::now_ns() - asked > 3000000000ull) sim::fail("slow-exit", "%s ends %.1f s after it was asked to", what, (sim::now_ns() - asked) / 1e9);
    if (R.open || R.active || pa_open) sim::fail("device-leak", "%s leaves a device open or active", what);
    if (G.win || G.im || G.ip) sim::fail("left-behind", "%s leaves its window open", what);
}
// a program with a window: the user closes it after a while
template <class F> static void windowed(const char* what, unsigned tick, uint64_t most_ms, F f, std::function<void()> over = nullptr) {
    set_up(what, tick); { Quiet z; G.close_at = G.t0 + (sim::cfg(6) == 0 ? sim::work(1000000) : 1000000ull * (1 + sim::work((uint32_t)most_ms))); }
    int64_t heap0; { Quiet z; heap0 = sim::live_heap_blocks(); }
    int r = f(); nothing_left(what, r, G.closed_at);
    Quiet z; if (!G.closed_at) sim::fail("early-exit", "%s ends though nobody closed its window", what); if (G.frames > 2) sim::nontrivial();
    if (over) over(); (void)heap0;
}
// a program that runs until Ctrl+C
template <class F> static void interrupted(const char* what, unsigned tick, uint64_t most_ms, F f) {
    set_up(what, tick); on_sigint = nullptr; uint64_t at, asked = 0; std::atomic<bool> ended{false}; { Quiet z; at = 1000000ull * (1 + sim::work((uint32_t)most_ms)); }
    std::thread user([&] { sim::sleep_ns(at); until([&] { return ended || on_sigint.load(); }); if (!ended) { { Quiet z; asked = sim::now_ns(); } on_sigint.load()(SIGINT); } });
    int r = f(); { Quiet z; ended = true; } user.join(); nothing_left(what, r, asked); Quiet z; if (!asked) sim::fail("early-exit", "%s ends by itself", what);
}
// a program that never ends
template <class F, class D> static void endless(const char* what, unsigned tick, F f, D enough) {
    set_up(what, tick); static std::atomic<bool> over{false}; std::thread* t; { Quiet z; t = nullptr; } (void)t;
    static std::function<void()> prog; { Quiet z; prog = [f] { f(); sim::fail("early-exit", "the program ended"); }; }
    std::thread th([] { prog(); }); until([&] { return enough(); }); { Quiet z; sim::nontrivial(); } sim::finish();
}
static int run_args(int (*m)(int, char**), std::vector<std::string> a) { std::vector<char*> v; { Quiet z; for (auto& s : a) v.push_back(&s[0]); v.push_back(nullptr); } return m((int)a.size(), v.data()); }

// every point of a time series stays what it was
struct Series { std::map<uint64_t, float> seen; uint64_t end = 0; };
static std::map<std::string, Series> series;
static void track(const char* label, const float* x, const float* y, int n, double sps, std::function<double(uint64_t)> want, double tol) {
    auto& s = series[label]; for (int i = 0; i < n; i++) { uint64_t k = (uint64_t)llround((double)x[i] * sps); if (fabs((double)x[i] * sps - (double)k) > 0.02 || (i && k != (uint64_t)llround((double)x[0] * sps) + (uint64_t)i)) sim::fail("torn-picture", "%s: the time axis has a jump at point %d", label, i);
        auto it = s.seen.find(k); if (it == s.seen.end()) { s.seen[k] = y[i]; if (want && !(fabs(y[i] - want(k)) <= tol)) sim::fail("wrong-picture", "%s: sample %llu is drawn as %g, it is %g", label, (unsigned long long)k, y[i], want(k)); if (!std::isfinite(y[i])) sim::fail("wrong-picture", "%s: sample %llu is not a number", label, (unsigned long long)k); } else if (it->second != y[i]) sim::fail("wrong-picture", "%s: sample %llu was drawn as %g and is now %g", label, (unsigned long long)k, it->second, y[i]);
        if (k + 1 > s.end) s.end = k + 1; }
}
static bool disturbed() { return sim::fault_count(sim::F_STALL) || sim::fault_count(sim::F_OVERSLEEP); }
static double open_for() { return (double)(G.closed_at - G.t0) / 1e9; }
static void paced(const char* label, double sps, double slack, double least = 1) { double s = open_for(); uint64_t got = series[label].end; if ((double)got > s * sps + slack * sps + 2048) sim::fail("too-fast", "%s: %llu samples after %.3f s", label, (unsigned long long)got, s); if (!disturbed() && (double)got < (s - slack) * sps * least) sim::fail("too-slow", "%s: %llu samples after %.3f s at %g per second", label, (unsigned long long)got, s, sps); }
static double peak(const float* x, const float* y, int n) { int b = 0; for (int i = 1; i < n; i++) if (y[i] > y[b]) b = i; return x[b]; }

// ---------------------------------------------------------------- the programs
static void s_hello() { static Screen scr; series.clear();
    windowed("hello_world", 300, 700, [] { G.line = [](const char* l, const float* x, const float* y, int n) { track(l, x, y, n, 1000, [](uint64_t k) { return cos(TAU * (double)k / 1000) + cos(TAU * 20 * (double)k / 1000); }, 0.02); }; return ex_hello::main(); }, [] { paced("Added Sources", 1000, 0.15, 0.3); }); }
static void s_freq() { static Screen scr; static unsigned got; got = 0;
    windowed("frequency_shift", 300, 900, [] { G.line = [](const char* l, const float* x, const float* y, int n) { double f = peak(x, y, n), w = !strcmp(l, "original") ? 100 : 400; if (n != 256) sim::fail("wrong-picture", "%d bins", n); if (y[0] == 0 && f == x[0]) return; got++; if (fabs(f - w) > 6) sim::fail("wrong-picture", "%s is strongest at %g Hz, not %g Hz", l, f, w); }; return ex_freq::main(); }, [] { if (!got && open_for() > 0.5 && !disturbed()) sim::fail("too-slow", "no spectrum after %.2f s", open_for()); }); }
static void s_plots() { static Screen scr; series.clear();
    windowed("plots", 500, 1800, [] {
        G.line = [](const char* l, const float* x, const float* y, int n) {
            if (!strcmp(l, "Real") || !strcmp(l, "Imaginary")) { int re = l[0] == 'R'; static int turn; bool chirp = turn++ / 2 % 2; (void)chirp; for (int i = 0; i < n; i++) if (!(fabs(y[i]) <= 1.001)) sim::fail("wrong-picture", "%s: a sample of %g", l, y[i]); (void)re; return; }
            double f = peak(x, y, n); if (!strcmp(l, "CW")) { if (fabs(f - 2) > 1.6) sim::fail("wrong-picture", "the 2 Hz tone is strongest at %g Hz", f); } else if (f < 15 || f > 85) sim::fail("wrong-picture", "the chirp is strongest at %g Hz", f); }; (void)ex_plots::main(); return 0; }); }
static void s_msd() { static Screen scr; series.clear(); static std::vector<double> ref; static bool fid;
    { Quiet z; fid = sim::cfg(3) == 0; ref.clear(); float x = 0, v = 0, e1 = 0, d1 = 0, in = 0, force = 0; for (int k = 0; k < 2000; k++) { const float DT = 0.01f; float a = force - x - v; v += a * DT; x += v * DT + 0.5f * a * DT * DT; ref.push_back(x); float e = 10.f - x, d = 0.95f * d1 + 0.05f * ((e - e1) / DT); in += e * DT; force = 2.f * e + in + d; e1 = e; d1 = d; } }
    windowed("mass_spring_damper", 150, 4000, [] { G.fiddle = fid; G.line = [](const char* l, const float* x, const float* y, int n) { std::function<double(uint64_t)> w; if (!fid) w = [](uint64_t k) { return k < ref.size() ? ref[k] : 1e9; }; track(l, x, y, n, 100, w, 0.01); }; return ex_msd::main(); }, [] { if (open_for() > 1 && !series["Measured Position"].end) sim::fail("too-slow", "nothing is drawn"); paced("Measured Position", 100, 0.25, 0.3); }); }
static void s_poly() { static Screen scr; static unsigned got; got = 0;
    windowed("polyphase_channelizer", 25, 150, [] { G.line = [](const char* l, const float* x, const float* y, int n) { double f = peak(x, y, n); if (strncmp(l, "source ", 7)) return; int i = l[7] - '0'; double w = (i - 2) * 400000.0; got++; if (fabs(f - w) > 4000) sim::fail("wrong-picture", "%s is strongest at %g Hz, not %g Hz", l, f, w); }; return ex_poly::main(); },
        [] { sim::probe("spectra", got); if (!scr.has("Polyphase Channelizer") && !scr.has("Throughput")) { std::string o = sim::fs_get("<stdout>"); if (o.find("Throughput") == std::string::npos) sim::fail("no-report", "no report of the run is printed"); } }); }
static void s_flowgraph() { static Screen scr; static uint64_t good; good = 0;
    { Quiet z; scr.each = [](const std::string& l) { double v; if (sscanf(l.c_str(), "Samples Per Second %lf", &v) != 1) sim::fail("output", "the program prints '%s'", l.c_str()); if (!(v >= 0)) sim::fail("output", "'%s'", l.c_str()); if (v > 0) good++; progress(); }; }
    endless("flowgraph", 40, [] { ex_flowgraph::main(); }, [] { Quiet z; return good > 0 || sim::now_ns() - G.t0 > 150000000; }); }
static void s_streamlined() { static Screen scr; static uint64_t good; good = 0;
    { Quiet z; scr.each = [](const std::string& l) { double v; if (sscanf(l.c_str(), "Samples Per Second %lf", &v) != 1 || !(v >= 0)) sim::fail("output", "the program prints '%s'", l.c_str()); good++; }; }
    endless("streamlined", 40, [] { ex_streamlined::main(); }, [] { return good > 0; }); }
static void s_selectable() { static Screen scr; static unsigned src, gain; static uint64_t good; good = 0; { Quiet z; src = 1 + sim::cfg(2); gain = 2 + sim::cfg(2); }
    if (Wk(8) == 1) { static const char* const bad[6][2] = {{"0", "2"}, {"3", "2"}, {"1", "1"}, {"1", "4"}, {"-h", "2"}, {"2", "-3"}}; unsigned i = Wk(6); set_up("selectable_blocks, wrong arguments", 40); int r = run_args(ex_selectable::main, {"selectable_blocks", bad[i][0], bad[i][1]}); Quiet z; if (r != (i == 4 ? 0 : 1)) sim::fail("exit-code", "selectable_blocks %s %s ends with %d", bad[i][0], bad[i][1], r); sim::nontrivial(); return; }
    { Quiet z; scr.each = [](const std::string& l) { char w[40]; snprintf(w, sizeof w, "Received: %u", src * gain); if (l != w) sim::fail("output", "'%s' is printed, not '%s'", l.c_str(), w); good++; progress(); }; }
    endless("selectable_blocks", 40, [] { run_args(ex_selectable::main, {"selectable_blocks", std::to_string(src), std::to_string(gain)}); }, [] { return good > 3000; }); }
static void s_udp() { static Screen scr; static uint64_t good; static long last; good = 0; last = -1; bool net;
    { Quiet z; net = sim::cfg(2); if (net) { sim::set_rate(sim::F_NET_DROP, 60); sim::set_rate(sim::F_NET_DELAY, 60); sim::set_rate(sim::F_NET_DUP, 60); }
      scr.each = [net](const std::string& l) { if (l.compare(0, 22, "Received array UDP mes")) return; long v; char c; if (sscanf(l.c_str(), "Received array UDP message: Hello udp! #%ld%c", &v, &c) != 1) sim::fail("output", "'%s' is printed", l.c_str()); if (!net && v <= last) sim::fail("output", "message %ld is received after message %ld", v, last); last = v; good++; progress(); }; }
    endless("udp", 40, [] { ex_udp::main(); }, [] { return good > 40; }); }
static void s_gmsk() { static Screen scr; set_up("ezgmsk mod_demod_simulation", 500); { Quiet z; sim::fs_capture_stdout(true); progress(30000000); } uint64_t t0 = sim::now_ns(); int r = ex_gmsk::main(); fflush(stdout);
    Quiet z; nothing_left("mod_demod_simulation", r, 0); if (sim::now_ns() - t0 < 10000000000ull) sim::fail("early-exit", "run_for(10 s) ends after %.3f s", (sim::now_ns() - t0) / 1e9); std::string o = sim::fs_get("<stdout>"); std::istringstream in(o); std::string l; long n = 0, last = -1; while (std::getline(in, l)) { long v; char c; if (sscanf(l.c_str(), "Blob data %ld%c", &v, &c) != 1) sim::fail("output", "the packet '%s' is received", l.c_str()); if (v <= last) sim::fail("output", "packet %ld after packet %ld", v, last); last = v; n++; } if (!n) sim::fail("output", "no packet is received"); if (n < 0.9 * (double)(last + 1)) sim::fail("output", "%ld of %ld packets are received", n, last + 1); sim::probe("packets received", n); sim::probe("packets missed", last + 1 - n); sim::nontrivial(); }
// packets recorded at 40 samples per symbol, played in a loop for 200 ms
static NOTSAN std::string on_tape(std::vector<std::pair<size_t, size_t>>& at) {
    std::string f; std::minstd_rand rnd(1 + sim::work(1000)); auto mod = ezgmsk::ezgmsk_mod_create_set(40, 3, 0.3f, 24);
    auto put = [&](std::complex<float> v) { v += std::complex<float>((float)(rnd() % 1000) / 1e6f - 0.0005f, (float)(rnd() % 1000) / 1e6f - 0.0005f); f.append((char*)&v, 8); };
    for (unsigned k = 0, n = 1 + sim::work(4); k < n; k++) {
        for (unsigned j = 0, g = 2000 + sim::work(4000); j < g; j++) put({0, 0});
        unsigned len = 4 + sim::work(30); std::string d = {0x55, (char)0x90, 0x4E, 0, (char)len, (char)sim::work(256)}; for (unsigned j = 0; j < len; j++) d += (char)sim::work(256);
        ezgmsk::ezgmsk_mod_assemble(mod, (const unsigned char*)d.data(), (unsigned)d.size()); unsigned fl = ezgmsk::ezgmsk_mod_get_frame_len(mod); std::vector<std::complex<float>> b(fl); ezgmsk::ezgmsk_mod_execute(mod, (liquid_float_complex*)b.data(), fl);
        size_t a = f.size() / 8; for (auto& v : b) put(v); at.push_back({a, f.size() / 8});
    }
    for (unsigned j = 0; j < 3000; j++) put({0, 0});
    ezgmsk::ezgmsk_mod_destroy(mod); return f;
}
static void s_giq() { static Screen scr; set_up("ezgmsk demod_iq_recording", 150); std::string rec; std::vector<std::pair<size_t, size_t>> at; bool old, bad, none;
    { Quiet z; rec = on_tape(at); none = sim::cfg(12) == 1; old = sim::cfg(2); bad = sim::cfg(12) == 1; out_dir = old; out_dir_errors = bad; if (old) sim::fs_put("output/old.bin", "rubbish"); if (!none) sim::fs_put("recordings/recorded_stream_0x55904E.bin", rec); progress(30000000); }
    uint64_t t0 = sim::now_ns(); int r = -1; bool threw = false; try { r = ex_giq::main(); } catch (const std::runtime_error&) { threw = true; } fflush(stdout);
    Quiet z; if (threw) { if (!none) sim::fail("exit-code", "demod_iq_recording ends with an exception"); sim::probe("no recording"); return; }
    if (bad) { if (r != 1) sim::fail("exit-code", "demod_iq_recording ends with %d without its output directory", r); return; }
    nothing_left("demod_iq_recording", r, 0); if (sim::now_ns() - t0 < 200000000ull) sim::fail("early-exit", "run_for(200 ms) ends after %.3f s", (sim::now_ns() - t0) / 1e9);
    if (sim::fs_exists("output/old.bin")) sim::fail("output", "an old output file is still there");
    std::string dec = sim::fs_get("output/post_decim_output.bin"); size_t n = dec.size() / 8; if (dec.size() % 8) sim::fail("recording", "half a sample is recorded");
    // the decimated recording, over and over
    std::vector<std::complex<float>> in(rec.size() / 8), want(n + 64); memcpy((void*)in.data(), rec.data(), rec.size()); msresamp_crcf q = msresamp_crcf_create(0.05f, 80.0f); std::vector<std::complex<float>> y(in.size());
    for (size_t k = 0; k < n;) { unsigned m = 0; msresamp_crcf_execute(q, (liquid_float_complex*)in.data(), (unsigned)in.size(), (liquid_float_complex*)y.data(), &m); for (unsigned j = 0; j < m && k < n; j++) want[k++] = y[j]; }
    msresamp_crcf_destroy(q); std::vector<std::complex<float>> got(n); memcpy((void*)got.data(), dec.data(), n * 8);
    for (size_t k = 0; k < n; k++) if (!(std::abs(got[k] - want[k]) < 1e-4f)) sim::fail("recording", "decimated sample %zu of %zu is %g%+gi, not %g%+gi", k, n, got[k].real(), got[k].imag(), want[k].real(), want[k].imag());
    if (n < 500 && !disturbed()) sim::fail("recording", "%zu samples are recorded in 200 ms", n);
    static const char* const what[] = {"preamble", "syncword", "header", "payload"}; static const int after[] = {68, 127, 175, 19}; size_t found[4];
    for (int e = 0; e < 4; e++) {
        std::string d = sim::fs_get(std::string("output/") + what[e] + "_detections.bin"); if (d.size() % 4 || !sim::fs_exists(std::string("output/") + what[e] + "_detections.bin")) sim::fail("detections", "the file of %s detections has %zu bytes", what[e], d.size());
        std::vector<unsigned> v(d.size() / 4); memcpy(v.data(), d.data(), d.size()); found[e] = v.size(); auto due = [&](size_t k) { auto& p = at[k % at.size()]; return (double)(k / at.size() * in.size() + (e == 3 ? p.second : p.first)) / 20 + after[e]; };
        for (size_t k = 0; k < v.size(); k++) if (fabs(v[k] - due(k)) > 8) sim::fail("detections", "%s %zu is found at sample %u, not at about %.0f", what[e], k, v[k], due(k));
        if (v.size() && v.back() > n + 1200) sim::fail("detections", "a %s is found at sample %u of %zu", what[e], v.back(), n);
        if (due(v.size()) + 1200 < (double)n) sim::fail("detections", "%zu %ss are found in %zu samples", v.size(), what[e], n);
        if (e && (found[e] > found[e - 1] || found[e] + 1 < found[e - 1])) sim::fail("detections", "%zu %ss but %zu %ss", found[e], what[e], found[e - 1], what[e - 1]);
    }
    sim::probe("samples decimated", n); sim::probe("packets in the recording found", found[3]);
    sim::nontrivial(); }
static void s_cw() { static Screen scr; static bool args; { Quiet z; args = sim::cfg(2); }
    windowed("hackrf_cw", 500, 120, [] { R.gap_us = 800; if (args) return run_args(ex_cw::main, {"hackrf_cw", "-f", "433", "-s", "4", "-o", "250", "-a", "0.7", "-g", "20"}); return run_args(ex_cw::main, {"hackrf_cw"}); },
        [] { double f = args ? 433e6 : 915e6, r = args ? 4e6 : 2e6, o = args ? 250e3 : 100e3, a = args ? 0.7 : 0.5; if (R.freq != f || R.rate != r || R.gain != (args ? 20 : 47)) sim::fail("wrong-setting", "the transmitter is at %g Hz, %g samples/s, gain %g", R.freq, R.rate, R.gain);
            uint64_t k = 0; for (size_t i = 0; i + 1 < txd.size(); i += 2) { if (!txd[i] && !txd[i + 1]) continue; double p = TAU * fmod(o / r * (double)k, 1.0); if (fabs(txd[i] - 127 * a * cos(p)) > 2.5 || fabs(txd[i + 1] - 127 * a * sin(p)) > 2.5) sim::fail("wrong-sample", "sample %llu of the tone is transmitted as (%d, %d), it is (%.1f, %.1f)", (unsigned long long)k, txd[i], txd[i + 1], 127 * a * cos(p), 127 * a * sin(p)); k++; }
            if (!k && tx_calls > 40 && !disturbed()) sim::fail("too-slow", "nothing is transmitted"); sim::probe("samples transmitted", k); if (!scr.has("Total TX underruns: ")) sim::fail("output", "the underruns are not reported"); }); }
static void spectrum_of_tone(const char* l, const float* x, const float* y, int n) { double f = peak(x, y, n), bin = n > 1 ? x[1] - x[0] : 1; bool any = false; for (int i = 0; i < n; i++) any |= y[i] != y[0]; if (!any) return; sim::probe("spectra"); if (fabs(f - tone_hz) > 1.5 * bin) sim::fail("wrong-picture", "%s is strongest at %g Hz, the tone is at %g Hz", l, f, tone_hz); }
static void s_hspec() { static Screen scr; windowed("hackrf_spectrum", 60, 250, [] { R.air = tone; tone_hz = 37109.375 * 8; R.gap_us = 400; G.line = spectrum_of_tone; return run_args(ex_hspec::main, {"hackrf_spectrum", "--freq", "433e6", "--rate", "8e6", "--fft", "256"}); }, [] { if (R.freq != 433e6 || R.rate != 8e6) sim::fail("wrong-setting", "the receiver is at %g Hz, %g samples/s", R.freq, R.rate); }); }
static void s_cspec() { static Screen scr; windowed("cariboulite_spectrum", 60, 250, [] { R.air = tone; tone_hz = 250000; R.gap_us = 200; G.line = spectrum_of_tone; return ex_cspec::main(); }, [] { if (R.freq != 902e6f || R.rate != 2e6f) sim::fail("wrong-setting", "the receiver is at %g Hz, %g samples/s", R.freq, R.rate); }); }
static void s_crec() { static Screen scr; interrupted("cariboulite_recorder", 500, 60, [] { R.air = tone; tone_hz = 250000; R.gap_us = 200; return ex_crec::main(); });
    Quiet z; std::string f = sim::fs_get("recorded_stream.sc16"); if (R.freq != 903e6f || R.rate != 4e6f || R.gain != 40) sim::fail("wrong-setting", "the receiver is at %g Hz, %g samples/s, gain %g", R.freq, R.rate, R.gain); if (f.size() % 4 || f.size() / 4 > R.n) sim::fail("recording", "%zu bytes are recorded of %llu samples", f.size(), (unsigned long long)R.n); const short* p = (const short*)f.data(); for (size_t i = 0; i < f.size() / 4; i++) { auto v = tone(i); if (p[2 * i] != (short)lrintf(v.real() * 4095) || p[2 * i + 1] != (short)lrintf(v.imag() * 4095)) sim::fail("recording", "sample %zu is not what was received", i); } if (f.size()) sim::nontrivial(); }
static void s_soapy() { static Screen scr; static double want, gain; want = 100.3e6; gain = 20; static bool fid; { Quiet z; fid = sim::cfg(2); }
    windowed("soapysdr_device", 60, 250, [] { R.air = tone; tone_hz = 2e6 / 2048 * 200; R.gap_us = 200; G.line = spectrum_of_tone; G.fiddle = fid; G.slider = [](float* x, const char* l) { if (!strncmp(l, "Freq", 4)) want = *x * 1e6; else if (!strncmp(l, "Gain", 4)) gain = *x; }; G.button = [](const char* l) { const char* p = strchr(l, '('); double v; if (p && sscanf(p, "(%lf MHz)", &v) == 1) want = v * 1e6; }; return run_args(ex_soapy::main, {"soapysdr_device", "--device", "driver=sim", "--freq", "100.3", "--rate", "2.0"}); }, [] { if (R.rate != 2e6 || fabs(R.freq - want) > 100 || fabs(R.gain - gain) > 0.01) sim::fail("wrong-setting", "the receiver is at %.6g Hz, gain %g, %g samples/s; %.6g Hz and gain %g are asked for", R.freq, R.gain, R.rate, want, gain); }); }
static double fm_phase(double t) { return TAU * 0.0 * t + 40e3 / 1000.0 * sin(TAU * 1000.0 * t); }
static void s_fm() { static Screen scr; interrupted("fm_receiver", 2000, 300, [] { R.air = [](uint64_t k) { double p = fm_phase((double)k / 2e6); return std::complex<float>((float)cos(p), (float)sin(p)); }; R.gap_us = 100; return run_args(ex_fm::main, {"fm_receiver", "--freq", "100", "--rate", "2.0"}); });
    Quiet z; if (R.freq != 100e6 || pa_rate != 48000) sim::fail("wrong-setting", "receiver at %g Hz, sound at %g Hz", R.freq, pa_rate); size_t n = heard.size(); sim::probe("sound samples", n); if (n > 600) { sim::nontrivial(); double a = 0, b = 0, e = 0; size_t s = 300; size_t m = (n - s) / 48 * 48; for (size_t i = s; i < s + m; i++) { a += heard[i] * cos(TAU * i / 48); b += heard[i] * sin(TAU * i / 48); e += (double)heard[i] * heard[i]; } double part = 2 * (a * a + b * b) / (double)m / (e + 1e-12); double amp = 2 * sqrt(a * a + b * b) / (double)m; if (!(amp > 0.45 && amp < 0.61)) sim::fail("wrong-sound", "a tone of amplitude %.2f is heard, %.2f is broadcast", amp, 40 / 75.0); if (!(part > 0.9)) sim::fail("wrong-sound", "a 1 kHz tone is broadcast, it makes %.0f %% of the sound heard", 100 * part); } }

// aircraft on the air, as a recording of 16-bit I/Q samples
static const uint32_t planes[5] = {0x4840d6, 0x3c6586, 0xa0f1b2, 0x7c1234, 0x4b1900};
static unsigned aloft(std::string& iq, bool r24) {
    unsigned n = 1 + sim::cfg(5), seen = 0; std::vector<float> e; const int step = r24 ? 5 : 6; e.insert(e.end(), 600, 0.f);
    for (unsigned i = 0, m = n * 3; i < m; i++) {
        unsigned a = i < n ? i : sim::work(n); seen |= 1u << a; unsigned char b[14] = {}; int bits = sim::work(3) ? 112 : 56; b[0] = (bits == 112 ? 17 : 11) << 3 | 5; b[1] = planes[a] >> 16; b[2] = planes[a] >> 8; b[3] = planes[a];
        if (bits == 112) { static const int me[4] = {4, 11, 19, 28}; b[4] = me[sim::work(4)] << 3 | (sim::work(4) + 1); for (int k = 5; k < 11; k++) b[k] = sim::work(256); }
        uint32_t c = 0; for (int k = 0; k < bits / 8 - 3; k++) { c ^= (uint32_t)b[k] << 16; for (int j = 0; j < 8; j++) { c <<= 1; if (c & 0x1000000) c ^= 0x1fff409; } } b[bits / 8 - 3] = c >> 16; b[bits / 8 - 2] = c >> 8; b[bits / 8 - 1] = c;
        while (e.size() % 6) e.push_back(0.f); size_t at = e.size(); e.resize(at + 96, 0.f); for (int p : {0, 12, 42, 54}) for (int k = 0; k < 6; k++) e[at + p + k] = 14000;
        for (int k = 0; k < bits; k++) for (int h = 0; h < 2; h++) for (int j = 0; j < 6; j++) e.push_back((h == 0) == (bool)(b[k / 8] >> (7 - k % 8) & 1) ? 14000.f : 0.f);
        e.insert(e.end(), (8 + sim::work(300)) * step, 0.f);
    }
    e.insert(e.end(), 9000 * step, 0.f); double ph = sim::work(628) / 100.0;
    for (size_t i = 0; i + step <= e.size(); i += step) { float s = 0; for (int j = 0; j < step; j++) s += e[i + j]; s = s / step + sim::work(60); short v[2] = {(short)(s * cos(ph)), (short)(s * sin(ph))}; iq.append((char*)v, 4); ph += 0.7; }
    return (unsigned)__builtin_popcount(seen);
}
static std::string recording; static bool adsb_soapy;
static void s_adsb() { static Screen scr; static unsigned n; static bool r24; { Quiet z; r24 = sim::cfg(2); adsb_soapy = sim::cfg(3) == 0; recording.clear(); n = aloft(recording, r24); sim::fs_put("aircraft.iq", recording); }
    if (Wk(10) == 1) { static const std::vector<std::string> bad[4] = {{"adsb"}, {"adsb", "--source", "aircraft.iq"}, {"adsb", "--source", "aircraft.iq", "--rate", "3"}, {"adsb", "--source", "missing.iq", "--rate", "2"}}; unsigned i = Wk(4); set_up("adsb_receiver, wrong arguments", 60); int r = run_args(ex_adsb::main, bad[i]); Quiet z; if (r != 1) sim::fail("exit-code", "adsb_receiver ends with %d", r); nothing_left("adsb_receiver", 0, 0); sim::nontrivial(); return; }
    windowed("adsb_receiver", 60, 400, [] { R.gap_us = 100; R.air = [](uint64_t k) { if (k >= recording.size() / 4) return std::complex<float>(0, 0); const short* p = (const short*)recording.data(); return std::complex<float>(p[2 * k] / 4095.f, p[2 * k + 1] / 4095.f); };
            return run_args(ex_adsb::main, {"adsb_receiver", "--source", adsb_soapy ? "soapy" : "aircraft.iq", "--rate", r24 ? "2.4" : "2"}); },
        [] { unsigned got = ~0u; size_t at = scr.all.find("Total aircraft tracked: "); if (at == std::string::npos || sscanf(scr.all.c_str() + at, "Total aircraft tracked: %u", &got) != 1) sim::fail("output", "the number of aircraft is not reported");
            if (adsb_soapy && (R.freq != 1090e6 || fabs(R.rate - (r24 ? 2.4e6 : 2e6)) > 1)) sim::fail("wrong-setting", "the receiver is at %g Hz, %g samples/s", R.freq, R.rate);
            if (got > n) sim::fail("output", "%u aircraft are tracked, %u are in the air", got, n); if (got < n && !disturbed() && open_for() > 0.3 && (!adsb_soapy || R.n > recording.size() / 4)) sim::fail("output", "%u of %u aircraft are tracked after %.2f s", got, n, open_for()); sim::probe("aircraft", got); }); }

// USRP: receive, transmit a chirp, transmit a tone
static void s_uhd() { static Screen scr; static unsigned mode; static bool shrt; { Quiet z; mode = sim::cfg(3); shrt = sim::cfg(2); uhd_sent.clear(); uhd_late = uhd_streams = 0; uhd_fail_make = 0; }
    if (Wk(12) == 1) { set_up("uhd_device, unknown mode or no device", 60); bool nodev; { Quiet z; nodev = sim::work(2); if (nodev) uhd_fail_make = 1; } int r = run_args(ex_uhd::main, {"uhd_device", "-m", nodev ? mode == 0 ? "rx" : mode == 1 ? "tx-chirp" : "tx-cw" : "transmit"}); if (nodev ? !scr.has("Failed to initialize USRP") : r != 1) sim::fail("exit-code", "uhd_device ends with %d", r); nothing_left("uhd_device", 0, 0); Quiet z; sim::nontrivial(); return; }
    windowed("uhd_device", 60, 200, [] { R.air = tone; tone_hz = 4e6 / 1024 * 100; R.gap_us = 300; G.line = [](const char* l, const float* x, const float* y, int n) { if (mode != 1) { if (mode == 2) tone_hz = 250000; spectrum_of_tone(l, x, y, n); } };
            return run_args(ex_uhd::main, {"uhd_device", "--mode", mode == 0 ? "rx" : mode == 1 ? "tx-chirp" : "tx-cw", "-f", "2.4e9", "-r", "4e6", "-g", "30", "-a", "0.5", "-o", "250e3", "-F", "1024", "-c", shrt ? "0.01" : "1", "-d", "addr=192.168.10.2"}); },
        [] { if (R.freq != 2.4e9 || R.rate != 4e6 || R.gain != 30) sim::fail("wrong-setting", "the USRP is at %g Hz, %g samples/s, gain %g", R.freq, R.rate, R.gain);
            const char* w = mode ? "Underflows: " : "Overflows: "; unsigned long got = ~0ul; size_t at = scr.all.rfind(w); if (at == std::string::npos || sscanf(scr.all.c_str() + at + strlen(w), "%lu", &got) != 1) sim::fail("output", "the %sare not reported", w); at = scr.all.find(w); sscanf(scr.all.c_str() + at + strlen(w), "%lu", &got); if (got != uhd_late) sim::fail("output", "%lu are reported as %s%u occurred", got, w, uhd_late);
            double dur = shrt ? 0.01 : 1, fs = 4e6; size_t len = (size_t)lround(dur * fs);
            for (size_t k = 0; k + 1 < uhd_sent.size(); k++) { auto v = uhd_sent[k]; if (fabs(std::abs(v) - 0.5) > 0.01) sim::fail("wrong-sample", "sample %zu is transmitted with amplitude %g", k, std::abs(v));
                double step = std::arg(std::complex<double>(uhd_sent[k + 1]) * std::conj(std::complex<double>(v))), want = mode == 2 ? TAU * 250e3 / fs : TAU * (-500e3 + 1e6 / dur * ((double)(k % len) / fs)) / fs; if (mode == 1 && k % len == len - 1) continue; if (mode && fabs(step - want) > 0.003) sim::fail("wrong-sample", "sample %zu is transmitted at %g Hz, not at %g Hz", k, step * fs / TAU, want * fs / TAU); }
            if (mode) { sim::probe("samples transmitted", uhd_sent.size()); if (uhd_sent.empty() && open_for() > 0.1 && !disturbed()) sim::fail("too-slow", "nothing is transmitted"); } }); }
static const sim::Scenario S[] = {{"hello", 2, s_hello}, {"freq", 2, s_freq}, {"plots", 2, s_plots}, {"msd", 3, s_msd}, {"poly", 2, s_poly}, {"flowgraph", 1, s_flowgraph}, {"streamlined", 1, s_streamlined}, {"selectable", 2, s_selectable}, {"udpex", 2, s_udp}, {"gmskex", 1, s_gmsk},
    {"giq", 1, s_giq}, {"cw", 2, s_cw}, {"hspec", 2, s_hspec}, {"cspec", 1, s_cspec}, {"crec", 1, s_crec}, {"soapyex", 2, s_soapy}, {"fm", 2, s_fm}, {"adsb", 2, s_adsb}, {"uhd", 2, s_uhd}};
int main(int c, char** v) { return sim::main(c, v, S, sizeof S / sizeof *S); }
