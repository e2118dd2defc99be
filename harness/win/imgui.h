// Stand-in for Dear ImGui: what a window manager calls.
#pragma once
#include <cstddef>
#include <cassert>
struct ImGuiContext; struct ImFontAtlas; struct ImDrawData { bool Valid = false; };
struct ImGuiStyle { bool AntiAliasedLines = false, AntiAliasedLinesUseTex = false, AntiAliasedFill = false; float Alpha = 1, ScaleAllSizes_ = 1; void ScaleAllSizes(float) {} };
struct ImGuiIO { int ConfigFlags = 0; const char* IniFilename = "imgui.ini"; float DeltaTime = 0.016f, FontGlobalScale = 1; };
#define IMGUI_CHECKVERSION() ((void)0)
namespace ImGui {
ImGuiContext* CreateContext(ImFontAtlas* a = nullptr); void DestroyContext(ImGuiContext* c = nullptr); ImGuiContext* GetCurrentContext(); void SetCurrentContext(ImGuiContext* c);
ImGuiIO& GetIO(); ImGuiStyle& GetStyle(); void StyleColorsDark(ImGuiStyle* s = nullptr); void StyleColorsLight(ImGuiStyle* s = nullptr);
void NewFrame(); void EndFrame(); void Render(); ImDrawData* GetDrawData();
}
