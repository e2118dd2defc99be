#pragma once
#include "imgui.h"
#include "../gui/implot.h"
struct ImPlotContext;
namespace ImPlot { ImPlotContext* CreateContext(); void DestroyContext(ImPlotContext* c = nullptr); ImPlotContext* GetCurrentContext(); }
