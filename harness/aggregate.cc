// C08: the calls of one part (-DPART=n) of the aggregates.
#include "aggregate.h"

using namespace alg;

[[maybe_unused]] static char const* const P = "C08";

template<class Fam, class A> void reg_statistics() {
    reg_aggregate<SumOp<A>, Fam, A>(P);
    reg_aggregate<MeanOp<A>, Fam, A>(P);
    reg_aggregate<ExtremeOp<A, false>, Fam, A>(P);
    reg_aggregate<ExtremeOp<A, true>, Fam, A>(P);
}
template<class Fam, class A> void reg_extremes() {
    reg_binary<Extreme2<true>, Fam, A, A>(P);
    reg_binary<Extreme2<false>, Fam, A, A>(P);
}

static bool const registered = [] {
#if PART == 1
    reg_statistics<Real, double>();
    reg_statistics<Real, uint8_t>();
#elif PART == 2
    reg_statistics<Real, int32_t>();
    reg_statistics<Plain, int64_t>();
#elif PART == 3
    reg_statistics<Real, float>();
    reg_statistics<Plain, int8_t>();
    reg_statistics<SkipIn, uint32_t>();
#elif PART == 4
    reg_count<Real, int32_t>(P);
    reg_count<Real, double>(P);
    reg_count<SkipIn, uint8_t>(P);
    reg_count<Plain, bool>(P);
    reg_count<Plain, float>(P);
#elif PART == 5
    reg_extremes<Real, double>();
    reg_extremes<Real, uint8_t>();
    reg_extremes<Plain, int32_t>();
#elif PART == 6
    reg_aggregate<WideSum<int8_t, int32_t>, Real, int8_t>(P);
    reg_aggregate<WideSum<uint8_t, uint16_t>, Real, uint8_t>(P);
    reg_aggregate<WideSum<float, double>, Real, float>(P);
    reg_aggregate<WideMean<int16_t, double>, Real, int16_t>(P);
    reg_aggregate<WideMean<int8_t, int32_t>, Real, int8_t>(P);
#elif PART == 7
    reg_aggregate<CountAllOp<double, int32_t, fa::binary::DiscardRangeErrors>, Real, double>(P);
    reg_aggregate<CountAllOp<uint8_t, uint8_t, fa::sum::OutOfRangePolicy>, Real, uint8_t>(P);
    reg_aggregate<CountAllOp<int32_t, int32_t, fa::sum::OutOfRangePolicy>, SkipIn, int32_t>(P);
    reg_aggregate<MedianOp<double>, Real, double>(P);
    reg_aggregate<MedianOp<int32_t>, Plain, int32_t>(P);
#elif PART == 8
    reg_aggregate<RangeOp<double>, Real, double>(P);
    reg_aggregate<RangeOp<int32_t>, Real, int32_t>(P);
    reg_aggregate<ModeOp<int32_t>, Real, int32_t>(P);
    reg_aggregate<ModeOp<double>, Plain, double>(P);
    reg_aggregate<TallyOp<int32_t>, Real, int32_t>(P);
    reg_aggregate<TallyOp<uint8_t>, Plain, uint8_t>(P);
    reg_aggregate<PickyOp, Real, int32_t>(P);
#endif
    return true;
}();
