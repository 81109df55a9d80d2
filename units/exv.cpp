// the same for calls without result and arguments
#define VU_SIG void()
#include "exp.cpp"
