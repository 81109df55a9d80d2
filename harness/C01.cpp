#include "seqmodel.hpp"
int main() { install(); seq_longs(); seq_histories<LazySequence, false>(1, 6000, 24); seq_histories<GreedySequence, true>(2, 6000, 24); policy_histories(3, 1500, 25); std::puts("ok: random histories, 12000 on sequences (up to 24 steps), 1500 on policies (25 steps)"); }
