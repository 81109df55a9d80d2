#include "expmodel.hpp"
int main() { install(); coll_histories(81, 4000, 14, 3, 9, false); coll_histories(82, 3000, 6, 12, 0, false); coll_big(400); std::puts("ok: random histories against the reference model: coll_histories(81, 4000, 14, 3, 9, false); coll_histories(82, 3000, 6, 12, 0, false); coll_big(400);"); }
