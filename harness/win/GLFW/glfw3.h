// Stand-in for GLFW 3 and the part of OpenGL its header brings in.
#pragma once
struct GLFWwindow; struct GLFWmonitor;
enum { GLFW_FALSE = 0, GLFW_TRUE = 1, GLFW_RESIZABLE = 0x20003, GLFW_VISIBLE = 0x20004, GLFW_SAMPLES = 0x2100D, GLFW_DOUBLEBUFFER = 0x21010, GLFW_CLIENT_API = 0x22001, GLFW_CONTEXT_VERSION_MAJOR = 0x22002, GLFW_CONTEXT_VERSION_MINOR = 0x22003, GLFW_OPENGL_FORWARD_COMPAT = 0x22006, GLFW_OPENGL_PROFILE = 0x22008, GLFW_OPENGL_ANY_PROFILE = 0, GLFW_OPENGL_CORE_PROFILE = 0x32001, GLFW_OPENGL_COMPAT_PROFILE = 0x32002 };
extern "C" {
typedef void (*GLFWerrorfun)(int, const char*);
int glfwInit(void); void glfwTerminate(void); GLFWerrorfun glfwSetErrorCallback(GLFWerrorfun f); int glfwGetError(const char** d);
void glfwWindowHint(int hint, int value); void glfwDefaultWindowHints(void);
GLFWwindow* glfwCreateWindow(int w, int h, const char* title, GLFWmonitor* m, GLFWwindow* share); void glfwDestroyWindow(GLFWwindow* w);
void glfwMakeContextCurrent(GLFWwindow* w); GLFWwindow* glfwGetCurrentContext(void); void glfwSwapInterval(int n); void glfwSwapBuffers(GLFWwindow* w);
void glfwPollEvents(void); int glfwWindowShouldClose(GLFWwindow* w); void glfwSetWindowShouldClose(GLFWwindow* w, int v); void glfwGetFramebufferSize(GLFWwindow* w, int* x, int* y); void glfwGetWindowSize(GLFWwindow* w, int* x, int* y);
void glfwSetWindowTitle(GLFWwindow* w, const char* title);
typedef unsigned GLenum; typedef unsigned GLbitfield; typedef int GLint; typedef int GLsizei; typedef float GLfloat;
void glEnable(GLenum c); void glDisable(GLenum c); void glViewport(GLint x, GLint y, GLsizei w, GLsizei h); void glClearColor(GLfloat r, GLfloat g, GLfloat b, GLfloat a); void glClear(GLbitfield m); GLenum glGetError(void); void glFlush(void); void glFinish(void);
}
#define GL_MULTISAMPLE 0x809D
#define GL_COLOR_BUFFER_BIT 0x4000
#define GL_DEPTH_BUFFER_BIT 0x100
#define GL_NO_ERROR 0
