#include "expmodel.hpp"
int main() { install(); coll_histories(111, 4000, 14, 4, 0, true); coll_histories(112, 4000, 14, 4, 0, false); throwing_removal(113, 3000); std::puts("ok: random histories against the reference model: coll_histories(111, 4000, 14, 4, 0, true); coll_histories(112, 4000, 14, 4, 0, false); throwing_removal(113, 3000)"); }
