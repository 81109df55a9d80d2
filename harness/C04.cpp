#include "seqmodel.hpp"
int main() { install(); times_inputs(); seq_histories<LazySequence, false>(1, 1000, 16); seq_histories<GreedySequence, true>(2, 1000, 16); policy_histories(3, 3000, 30); policy_histories(4, 8000, 10); std::puts("ok: limits on boundary values, random histories: 2000 on sequences, 11000 on policies"); }
