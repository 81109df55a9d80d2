#include "e2e.hpp"
int main(int, char** v) { install(); e2e::run(v[1], 600); std::puts("ok: whole-library model, 600 random histories of mocks, expectations and sequences"); }
