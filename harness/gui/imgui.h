// Stand-in for Dear ImGui: the calls the display blocks make, with the library's signatures.
#pragma once
#include <cstddef>
typedef unsigned int ImU32; typedef int ImGuiWindowFlags; typedef int ImGuiCond; typedef int ImGuiMouseButton; typedef int ImDrawFlags; typedef int ImGuiSliderFlags; typedef int ImGuiHoveredFlags;
struct ImVec2 { float x, y; constexpr ImVec2() : x(0), y(0) {} constexpr ImVec2(float a, float b) : x(a), y(b) {} };
struct ImVec4 { float x, y, z, w; constexpr ImVec4() : x(0), y(0), z(0), w(0) {} constexpr ImVec4(float a, float b, float c, float d) : x(a), y(b), z(c), w(d) {} };
#define IM_COL32(R, G, B, A) (((ImU32)(A) << 24) | ((ImU32)(B) << 16) | ((ImU32)(G) << 8) | (ImU32)(R))
enum { ImGuiCond_None = 0, ImGuiCond_Always = 1, ImGuiCond_Once = 2, ImGuiCond_FirstUseEver = 4, ImGuiCond_Appearing = 8 };
enum { ImGuiWindowFlags_None = 0, ImGuiWindowFlags_NoTitleBar = 1, ImGuiWindowFlags_NoResize = 2, ImGuiWindowFlags_NoMove = 4, ImGuiWindowFlags_NoCollapse = 32 };
enum { ImGuiMouseButton_Left = 0, ImGuiMouseButton_Right = 1, ImGuiMouseButton_Middle = 2 };
struct ImGuiIO { ImVec2 MousePos, DisplaySize; float MouseWheel = 0, DeltaTime = 0.016f; bool MouseDown[5] = {}; int ConfigFlags = 0; const char* IniFilename = "imgui.ini"; float FontGlobalScale = 1; };
struct ImDrawList {
    void AddLine(const ImVec2& a, const ImVec2& b, ImU32 c, float t = 1.f);
    void AddRect(const ImVec2& a, const ImVec2& b, ImU32 c, float r = 0, ImDrawFlags f = 0, float t = 1.f);
    void AddRectFilled(const ImVec2& a, const ImVec2& b, ImU32 c, float r = 0, ImDrawFlags f = 0);
    void AddTriangle(const ImVec2& a, const ImVec2& b, const ImVec2& c, ImU32 k, float t = 1.f);
    void AddTriangleFilled(const ImVec2& a, const ImVec2& b, const ImVec2& c, ImU32 k);
    void AddText(const ImVec2& p, ImU32 c, const char* b, const char* e = nullptr);
};
namespace ImGui {
ImGuiIO& GetIO();
void SetNextWindowSize(const ImVec2& s, ImGuiCond c = 0);
void SetNextWindowPos(const ImVec2& p, ImGuiCond c = 0, const ImVec2& pivot = ImVec2(0, 0));
bool Begin(const char* name, bool* open = nullptr, ImGuiWindowFlags f = 0);
void End();
bool Button(const char* label, const ImVec2& size = ImVec2(0, 0));
void Text(const char* fmt, ...) __attribute__((format(printf, 1, 2)));
void SameLine(float off = 0, float spacing = -1);
void SetNextItemWidth(float w);
bool SliderFloat(const char* label, float* v, float lo, float hi, const char* fmt = "%.3f", ImGuiSliderFlags f = 0);
bool IsItemHovered(ImGuiHoveredFlags f = 0);
void SetTooltip(const char* fmt, ...) __attribute__((format(printf, 1, 2)));
ImVec2 GetCursorScreenPos();
ImVec2 GetContentRegionAvail();
ImDrawList* GetWindowDrawList();
void SetCursorScreenPos(const ImVec2& p);
bool IsMouseDragging(ImGuiMouseButton b, float threshold = -1.f);
ImVec2 GetMouseDragDelta(ImGuiMouseButton b = 0, float threshold = -1.f);
void ResetMouseDragDelta(ImGuiMouseButton b = 0);
ImU32 GetColorU32(const ImVec4& c);
}
