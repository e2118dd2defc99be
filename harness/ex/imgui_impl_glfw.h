#pragma once
#include "imgui.h"
struct GLFWwindow;
bool ImGui_ImplGlfw_InitForOpenGL(GLFWwindow* window, bool install_callbacks); void ImGui_ImplGlfw_Shutdown(); void ImGui_ImplGlfw_NewFrame();
