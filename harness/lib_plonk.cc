// implementation files the Plonk harnesses link with (compiled as they are)
#include "tachyon/zk/expressions/expression_type.cc"
#include "tachyon/zk/plonk/base/column_type.cc"
#include "tachyon/zk/plonk/halo2/config.cc"
#include "tachyon/zk/plonk/halo2/vendor.cc"
#include "tachyon/zk/plonk/layout/floor_planner/v1/v1_strategy.cc"
#include "tachyon/zk/plonk/permutation/cycle_store.cc"
#include "tachyon/zk/plonk/vanishing/calculation.cc"
#include "tachyon/zk/plonk/vanishing/value_source.cc"
