// Stand-in for ImPlot: the calls the display blocks make, with the library's signatures.
#pragma once
#include "imgui.h"
typedef int ImAxis; typedef int ImPlotAxisFlags; typedef int ImPlotFlags; typedef int ImPlotLineFlags; typedef int ImPlotHeatmapFlags; typedef int ImPlotColormap; typedef int ImPlotCond;
enum { ImAxis_X1 = 0, ImAxis_X2, ImAxis_X3, ImAxis_Y1, ImAxis_Y2, ImAxis_Y3 };
enum { ImPlotAxisFlags_None = 0, ImPlotAxisFlags_AutoFit = 1 << 11, ImPlotAxisFlags_LockMin = 1 << 14, ImPlotAxisFlags_LockMax = 1 << 15, ImPlotAxisFlags_Lock = 3 << 14 };
enum { ImPlotColormap_Deep = 0, ImPlotColormap_Viridis = 4, ImPlotColormap_Plasma = 5, ImPlotColormap_Hot = 6, ImPlotColormap_Jet = 9 };
enum { ImPlotCond_None = 0, ImPlotCond_Always = 1, ImPlotCond_Once = 2 };
struct ImPlotPoint { double x, y; constexpr ImPlotPoint() : x(0), y(0) {} constexpr ImPlotPoint(double a, double b) : x(a), y(b) {} };
void plotted_line(const char* label, const float* xs, const float* ys, int n, int offset, int stride);
void plotted_map(const char* label, const float* v, int rows, int cols);
namespace ImPlot {
bool BeginPlot(const char* title, const ImVec2& size = ImVec2(-1, 0), ImPlotFlags f = 0);
void EndPlot();
void SetupAxis(ImAxis a, const char* label = nullptr, ImPlotAxisFlags f = 0);
void SetupAxes(const char* x, const char* y, ImPlotAxisFlags xf = 0, ImPlotAxisFlags yf = 0);
void SetupAxisLimits(ImAxis a, double lo, double hi, ImPlotCond c = ImPlotCond_Once);
void PushColormap(ImPlotColormap c);
void PopColormap(int n = 1);
template <class T> void PlotLine(const char* label, const T* xs, const T* ys, int n, ImPlotLineFlags = 0, int offset = 0, int stride = sizeof(T)) { plotted_line(label, xs, ys, n, offset, stride); }
template <class T> void PlotHeatmap(const char* label, const T* v, int rows, int cols, double = 0, double = 0, const char* = "%.1f", const ImPlotPoint& = ImPlotPoint(0, 0), const ImPlotPoint& = ImPlotPoint(1, 1), ImPlotHeatmapFlags = 0) { plotted_map(label, v, rows, cols); }
}
