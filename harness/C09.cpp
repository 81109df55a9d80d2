#include "expmodel.hpp"
int main() { install(); coll_histories(91, 6000, 10, 4, 2, false); std::puts("ok: random histories against the reference model: coll_histories(91, 6000, 10, 4, 2, false);"); }
