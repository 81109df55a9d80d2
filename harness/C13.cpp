#include "polmodel.hpp"
int main() { install(); policies(); std::puts("ok: requirements, effects, categories over all indices of a four-argument call, random values, and through mocks"); }
