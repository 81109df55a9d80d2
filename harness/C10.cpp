#include "expmodel.hpp"
int main() { install(); verdicts(101, 20000); coll_histories(102, 2000, 8, 3, 0, false); std::puts("ok: random histories against the reference model: verdicts(101, 20000); coll_histories(102, 2000, 8, 3, 0, false);"); }
