// Stand-in for Dear ImGui: what the display blocks, the window manager and the example programs call.
#pragma once
#include "../gui/imgui.h"
struct ImGuiContext; struct ImFontAtlas; struct ImDrawData { bool Valid = false; };
struct ImGuiStyle { bool AntiAliasedLines = false, AntiAliasedLinesUseTex = false, AntiAliasedFill = false; float Alpha = 1; void ScaleAllSizes(float) {} };
#define IMGUI_CHECKVERSION() ((void)0)
namespace ImGui {
ImGuiContext* CreateContext(ImFontAtlas* a = nullptr); void DestroyContext(ImGuiContext* c = nullptr); ImGuiContext* GetCurrentContext(); void SetCurrentContext(ImGuiContext* c);
ImGuiStyle& GetStyle(); void StyleColorsDark(ImGuiStyle* s = nullptr); void StyleColorsLight(ImGuiStyle* s = nullptr);
void NewFrame(); void EndFrame(); void Render(); ImDrawData* GetDrawData();
bool InputFloat(const char* label, float* v, float step = 0, float fast = 0, const char* fmt = "%.3f", int flags = 0); bool Checkbox(const char* label, bool* v); void Separator();
}
