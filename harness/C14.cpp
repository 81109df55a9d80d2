#include "polmodel.hpp"
int main() { install(); finalizers(); std::puts("ok: every finalizer, repeated calls, random values, and through mocks"); }
