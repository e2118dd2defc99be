// C25: the window manager of the graphical programs.  GLFW, OpenGL, Dear ImGui and ImPlot are stand-ins
// that enforce the calling rules of the real libraries, and any of them may refuse to start.
#include "sim.hpp"
#include "desktop_blocks/gui/gui_manager.hpp"
#include "imgui_impl_glfw.h"
#include "imgui_impl_opengl3.h"
#include <string>
#include <memory>
#include <vector>
#include <cstring>
#include <cstdlib>
#include <thread>
using sim::Quiet;

struct GLFWwindow { std::string title; int w, h, fw, fh; bool close, live; unsigned interval; };
struct ImGuiContext { bool in_frame, rendered; unsigned frames; };
struct ImPlotContext { int x; };
static const uint64_t REFRESH = 16666667;
struct State {
    bool inited = false, glfw_be = false, gl_be = false; int major = 1, minor = 0, profile = 0, tid = 0;
    GLFWwindow* win = nullptr; GLFWwindow* current = nullptr; ImGuiContext* im = nullptr; ImPlotContext* ip = nullptr;
    ImGuiStyle style; ImGuiIO io; ImDrawData data;
    uint64_t close_at = ~0ull; unsigned inits = 0, refused = 0, fail[4] = {};
    // this frame
    unsigned polls = 0, gl_new = 0, glfw_new = 0, im_new = 0, renders = 0, drawn = 0, swaps = 0, clears = 0; int vw = -1, vh = -1; bool cleared = false;
};
static State G;
static void bad(const char* m) { sim::fail("gui-misuse", "%s", m); }
static void mine() { if (sim::tid() != G.tid) bad("a call on another thread than the one that made the window"); }
static void need_ctx() { mine(); if (!G.current) bad("an OpenGL call without a context"); }
static bool refuse(unsigned which) { Quiet z; if (!G.fail[which] || sim::work(G.fail[which]) != 1) return false; G.refused++; sim::probe(which == 0 ? "glfw-refused" : which == 1 ? "window-refused" : "renderer-refused"); return true; }
static void win_ok(GLFWwindow* w) { mine(); if (!G.inited) bad("a window call while GLFW is not initialised"); if (!w || w != G.win) bad("a call with a window that is not there"); }
extern "C" {
int glfwInit() { Quiet z; mine(); if (G.inited) return 1; if (refuse(0)) return 0; G.inited = true; G.inits++; G.major = 1; G.minor = 0; G.profile = 0; return 1; }
static void drop_window() { if (G.glfw_be) bad("the window goes while the GUI still has its callbacks in it"); if (G.gl_be && G.current == G.win) bad("the OpenGL context goes while the renderer's objects live in it"); if (G.current == G.win) G.current = nullptr; delete G.win; G.win = nullptr; }
void glfwTerminate() { Quiet z; mine(); if (!G.inited) return; if (G.win) drop_window(); G.inited = false; }
GLFWerrorfun glfwSetErrorCallback(GLFWerrorfun) { return nullptr; } int glfwGetError(const char** d) { if (d) *d = nullptr; return 0; }
void glfwWindowHint(int h, int v) { if (!G.inited) bad("a window hint while GLFW is not initialised"); if (h == GLFW_CONTEXT_VERSION_MAJOR) G.major = v; if (h == GLFW_CONTEXT_VERSION_MINOR) G.minor = v; if (h == GLFW_OPENGL_PROFILE) G.profile = v; }
void glfwDefaultWindowHints() { G.major = 1; G.minor = 0; G.profile = 0; }
GLFWwindow* glfwCreateWindow(int w, int h, const char* title, GLFWmonitor*, GLFWwindow*) {
    Quiet z; mine(); if (!G.inited) bad("a window while GLFW is not initialised"); if (G.win) bad("a second window while the first is open");
    if (!title) bad("a window without a title"); if (w <= 0 || h <= 0) return nullptr;
    if (G.profile && G.major * 10 + G.minor < 32) return nullptr;                    // profiles exist from 3.2 on
    if (refuse(1)) return nullptr;
    unsigned dpi = 1 + sim::cfg(2); G.win = new GLFWwindow{title, w, h, (int)(w * dpi), (int)(h * dpi), false, true, 0}; return G.win;
}
void glfwDestroyWindow(GLFWwindow* w) { Quiet z; mine(); if (!w) return; if (w != G.win) bad("a window is destroyed that is not there"); drop_window(); }
void glfwMakeContextCurrent(GLFWwindow* w) { mine(); if (w && w != G.win) bad("the context of a window that is not there"); G.current = w; }
GLFWwindow* glfwGetCurrentContext() { return G.current; }
void glfwSwapInterval(int n) { if (!G.current) bad("a swap interval without a context"); G.current->interval = (unsigned)n; }
void glfwSwapBuffers(GLFWwindow* w) { win_ok(w); uint64_t d; { Quiet z; G.swaps++; if (G.swaps > 1) bad("a frame is shown twice"); if (!G.drawn) bad("a frame is shown before it is drawn"); d = w->interval ? REFRESH - sim::now_ns() % REFRESH : 1000 + sim::work(100000); } sim::sleep_ns(d); }
void glfwPollEvents() {
    Quiet z; mine(); if (!G.inited) bad("events are asked for while GLFW is not initialised"); G.polls++;
    if (G.win && sim::now_ns() >= G.close_at) G.win->close = true;
    if (G.win && sim::work(4) == 1) { unsigned k = sim::work(4); G.win->fw = k == 1 ? 0 : 16 + (int)sim::work(2000); G.win->fh = k == 1 ? 0 : 16 + (int)sim::work(2000); }
}
int glfwWindowShouldClose(GLFWwindow* w) { win_ok(w); return w->close; } void glfwSetWindowShouldClose(GLFWwindow* w, int v) { win_ok(w); w->close = v; } void glfwSetWindowTitle(GLFWwindow* w, const char* t) { Quiet z; win_ok(w); w->title = t; }
void glfwGetFramebufferSize(GLFWwindow* w, int* x, int* y) { win_ok(w); if (x) *x = w->fw; if (y) *y = w->fh; } void glfwGetWindowSize(GLFWwindow* w, int* x, int* y) { win_ok(w); if (x) *x = w->w; if (y) *y = w->h; }
void glEnable(GLenum) { need_ctx(); } void glDisable(GLenum) { need_ctx(); } GLenum glGetError() { need_ctx(); return 0; } void glFlush() { need_ctx(); } void glFinish() { need_ctx(); }
void glViewport(GLint x, GLint y, GLsizei w, GLsizei h) { need_ctx(); if (x || y) bad("the viewport does not start at the corner"); G.vw = w; G.vh = h; }
void glClearColor(GLfloat, GLfloat, GLfloat, GLfloat) { need_ctx(); } void glClear(GLbitfield m) { need_ctx(); if (m & GL_COLOR_BUFFER_BIT) { if (G.drawn) bad("the picture is cleared after it was drawn"); G.clears++; } }
}
namespace ImGui {
ImGuiContext* CreateContext(ImFontAtlas*) { Quiet z; auto* c = new ImGuiContext{false, false, 0}; if (!G.im) G.im = c; else bad("a second GUI context"); G.style = {}; return c; }
void DestroyContext(ImGuiContext* c) { Quiet z; if (!G.im || (c && c != G.im)) bad("a GUI context is destroyed that is not there"); if (G.glfw_be || G.gl_be) bad("the GUI context goes before its backends are shut down"); delete G.im; G.im = nullptr; }
ImGuiContext* GetCurrentContext() { return G.im; } void SetCurrentContext(ImGuiContext*) {}
static void ctx() { mine(); if (!G.im) bad("a GUI call without a GUI context"); }
ImGuiIO& GetIO() { ctx(); return G.io; } ImGuiStyle& GetStyle() { ctx(); return G.style; } void StyleColorsDark(ImGuiStyle*) { ctx(); } void StyleColorsLight(ImGuiStyle*) { ctx(); }
void NewFrame() { ctx(); if (G.im->in_frame) bad("a frame is opened inside a frame"); if (!G.gl_new || !G.glfw_new) bad("a frame is opened before the backends'"); G.im->in_frame = true; G.im->rendered = false; G.im_new++; G.data.Valid = false; }
void EndFrame() { ctx(); G.im->in_frame = false; } void Render() { ctx(); if (!G.im->in_frame) bad("a frame is rendered that was not opened"); G.im->in_frame = false; G.im->rendered = true; G.renders++; G.data.Valid = true; }
ImDrawData* GetDrawData() { ctx(); return G.data.Valid ? &G.data : nullptr; }
}
namespace ImPlot {
ImPlotContext* CreateContext() { Quiet z; if (G.ip) bad("a second plot context"); return G.ip = new ImPlotContext{0}; }
void DestroyContext(ImPlotContext* c) { Quiet z; if (!G.ip || (c && c != G.ip)) bad("a plot context is destroyed that is not there"); delete G.ip; G.ip = nullptr; }
ImPlotContext* GetCurrentContext() { return G.ip; }
}
bool ImGui_ImplGlfw_InitForOpenGL(GLFWwindow* w, bool cb) { ImGui::ctx(); win_ok(w); if (G.glfw_be) bad("the GLFW backend starts twice"); if (refuse(2)) return false; if (!cb) sim::fail("deaf", "the window does not hand the GUI its events"); return G.glfw_be = true; }
void ImGui_ImplGlfw_Shutdown() { ImGui::ctx(); if (!G.glfw_be) bad("the GLFW backend is shut down but not running"); if (!G.win) bad("the GLFW backend outlives its window"); G.glfw_be = false; }
void ImGui_ImplGlfw_NewFrame() { ImGui::ctx(); if (!G.glfw_be) bad("a frame of a GLFW backend that is not running"); G.glfw_new++; }
bool ImGui_ImplOpenGL3_Init(const char* glsl) {
    ImGui::ctx(); need_ctx(); if (G.gl_be) bad("the renderer starts twice"); if (refuse(3)) return false;
    if (glsl) { int v = 0; Quiet z; if (sscanf(glsl, "#version %d", &v) != 1) bad("not a shader version"); static const int vs[][2] = {{20, 110}, {21, 120}, {30, 130}, {31, 140}, {32, 150}, {33, 330}}; int best = 110, g = G.major * 10 + G.minor; for (auto& x : vs) if (g >= x[0]) best = x[1]; if (g > 33) best = g * 10; if (v > best) bad("shaders newer than the context that was asked for"); }
    return G.gl_be = true;
}
void ImGui_ImplOpenGL3_Shutdown() { ImGui::ctx(); need_ctx(); if (!G.gl_be) bad("the renderer is shut down but not running"); G.gl_be = false; }
void ImGui_ImplOpenGL3_NewFrame() { ImGui::ctx(); need_ctx(); if (!G.gl_be) bad("a frame of a renderer that is not running"); G.gl_new++; }
void ImGui_ImplOpenGL3_RenderDrawData(ImDrawData* d) {
    ImGui::ctx(); need_ctx(); if (!d || !d->Valid) bad("nothing rendered to draw"); if (!G.gl_be) bad("a drawing of a renderer that is not running");
    if (G.vw != G.win->fw || G.vh != G.win->fh) sim::fail("wrong-size", "drawn into %dx%d of a picture of %dx%d", G.vw, G.vh, G.win->fw, G.win->fh);
    if (!G.clears) sim::fail("not-cleared", "drawn over the picture before"); G.drawn++;
}

// ---------------------------------------------------------------- the scenario
static void s_window() {
    unsigned tries; char buf[64]; size_t tl = 0; int64_t heap0;
    { Quiet z; new (&G) State; G.tid = sim::tid(); tries = 1 + sim::cfg(4);
      static const unsigned rates[4] = {0, 6, 3, 2}; for (auto& f : G.fail) f = rates[sim::cfg(4)];
      sim::set_rate(sim::F_ALLOC, sim::cfg(4) == 0 ? 60 : 0); sim::set_step_limit(2000000, "hang");
      sim::sample("%u windows, refusals of GLFW 1/%u, window 1/%u, backends 1/%u 1/%u", tries, G.fail[0], G.fail[1], G.fail[2], G.fail[3]); }
    for (unsigned t = 0; t < tries; t++) {
        int w, h; std::unique_ptr<char[]> page; const char* title; bool dflt; unsigned frames, refused0; uint64_t alloc0;
        { Quiet z; w = 1 + (int)sim::work(3000); h = 1 + (int)sim::work(2000); dflt = sim::work(4) == 1; tl = sim::work(40);
          page.reset(new char[tl + 8]); memset(page.get(), 'Z', tl + 8); for (size_t i = 0; i < tl; i++) page[i] = (char)('a' + i % 26); title = page.get(); memcpy(buf, title, tl); buf[tl] = 0;
          frames = sim::work(12); G.close_at = sim::work(2) ? sim::now_ns() + sim::work(200000000) : ~0ull; refused0 = G.refused; alloc0 = sim::fault_count(sim::F_ALLOC);
          heap0 = sim::live_heap_bytes(); }
        alignas(cler::GuiManager) char mem[sizeof(cler::GuiManager)]; cler::GuiManager* g = nullptr; bool threw = false;
        try { g = dflt ? new (mem) cler::GuiManager() : new (mem) cler::GuiManager(w, h, std::string_view(title, tl)); } catch (const std::exception&) { threw = true; }
        bool cause; { Quiet z; cause = G.refused != refused0 || sim::fault_count(sim::F_ALLOC) != alloc0; }
        if (threw) {
            Quiet z; if (!cause) sim::fail("refused", "no window though nothing failed");
            if (G.inited || G.win || G.im || G.ip || G.glfw_be || G.gl_be) sim::fail("left-behind", "the failed window leaves%s%s%s%s%s%s behind", G.inited ? " GLFW" : "", G.win ? " a window" : "", G.im ? " a GUI context" : "", G.ip ? " a plot context" : "", G.glfw_be ? " a GLFW backend" : "", G.gl_be ? " a renderer" : "");
            if (sim::live_heap_bytes() != heap0) sim::fail("leak", "the failed window leaves memory behind");
            sim::nontrivial(); continue;
        }
        { Quiet z; if (G.refused != refused0) sim::fail("unreported", "a part of the window could not be set up, and nobody is told");
          if (!G.win || !G.im || !G.ip || !G.glfw_be || !G.gl_be || G.current != G.win) sim::fail("incomplete", "the window is up without%s%s%s%s%s", G.win ? "" : " a window", G.im ? "" : " a GUI context", G.ip ? "" : " a plot context", G.glfw_be ? "" : " a GLFW backend", G.gl_be ? "" : " a renderer");
          if (dflt) { w = 800; h = 400; strcpy(buf, "DSP Blocks"); }
          if (G.win->w != w || G.win->h != h) sim::fail("wrong-size", "asked for %dx%d, got %dx%d", w, h, G.win->w, G.win->h);
          if (G.win->title != buf) sim::fail("wrong-title", "asked for \"%s\", got \"%s\"", buf, G.win->title.c_str()); }
        uint64_t t0 = sim::now_ns(), shown = 0;
        for (unsigned f = 0; f < frames; f++) {
            bool want; { Quiet z; want = G.win->close; }
            if (g->should_close() != want) sim::fail("close", want ? "the user's wish to close is not seen" : "a wish to close that nobody had");
            if (want) { sim::probe("closed-by-user"); break; }
            { Quiet z; G.polls = G.gl_new = G.glfw_new = G.im_new = G.renders = G.drawn = G.swaps = G.clears = 0; G.vw = G.vh = -1; }
            bool due = sim::now_ns() >= G.close_at;
            g->begin_frame();
            { Quiet z; if (!G.polls) sim::fail("deaf", "a frame begins without looking at the events"); if (!G.im->in_frame || G.im_new != 1) sim::fail("frame", "no frame is open after begin_frame"); if (G.swaps) sim::fail("frame", "shown before it is drawn");
              if (due && !G.win->close) sim::fail("close", "the user's wish to close is lost"); }
            std::this_thread::yield();
            g->end_frame();
            { Quiet z; if (G.im->in_frame || G.renders != 1 || G.drawn != 1 || G.swaps != 1) sim::fail("frame", "a frame is rendered %u, drawn %u and shown %u times", G.renders, G.drawn, G.swaps); shown++; }
        }
        { Quiet z; if (shown > 2 && shown > (sim::now_ns() - t0) / REFRESH + 2) sim::fail("too-fast", "%llu frames shown in %.1f ms", (unsigned long long)shown, (sim::now_ns() - t0) / 1e6); if (shown > 1) sim::nontrivial(); }
        g->~GuiManager();
        Quiet z; if (G.inited || G.win || G.im || G.ip || G.glfw_be || G.gl_be) sim::fail("left-behind", "the closed window leaves%s%s%s%s%s%s behind", G.inited ? " GLFW" : "", G.win ? " a window" : "", G.im ? " a GUI context" : "", G.ip ? " a plot context" : "", G.glfw_be ? " a GLFW backend" : "", G.gl_be ? " a renderer" : "");
        if (sim::live_heap_bytes() != heap0) sim::fail("leak", "the closed window leaves memory behind");
    }
}
static const sim::Scenario S[] = {{"window", 1, s_window}};
int main(int c, char** v) { return sim::main(c, v, S, sizeof S / sizeof *S); }
