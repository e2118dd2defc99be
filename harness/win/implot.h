#pragma once
#include "imgui.h"
struct ImPlotContext;
namespace ImPlot { ImPlotContext* CreateContext(); void DestroyContext(ImPlotContext* c = nullptr); ImPlotContext* GetCurrentContext(); }
