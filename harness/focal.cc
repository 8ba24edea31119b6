// C09: the calls of one part (-DPART=n) of the focal operations.
#include "focal.h"

using namespace alg;

[[maybe_unused]] static char const* const P = "C09";

template<int FIRST, int LAST, class K, class T, class R> static void policies() {
    if constexpr(FIRST <= LAST) {
        reg_convolve<K, Real, T, R, FIRST | CHECK_RANGE>(P);
        policies<FIRST + 1, LAST, K, T, R>();
    }
}

namespace {
struct Registrar {
    Registrar() {
#if PART == 1
        policies<0, 5, RuntimeKernel<double>, double, double>();
#elif PART == 2
        policies<6, 11, RuntimeKernel<double>, double, double>();
#elif PART == 3
        policies<12, 15, RuntimeKernel<double>, double, double>();
        reg_convolve<RuntimeKernel<double>, Real, double, double, DIVIDE>(P);
        reg_convolve<RuntimeKernel<double>, Real, float, double, DIVIDE | AVERAGE_OUTSIDE | AVERAGE_NO_DATA>(P);
#elif PART == 4
        policies<0, 5, RuntimeKernel<bool>, float, float>();
#elif PART == 5
        policies<6, 11, RuntimeKernel<bool>, float, float>();
#elif PART == 6
        policies<12, 15, RuntimeKernel<bool>, float, float>();
        reg_convolve<RuntimeKernel<bool>, Real, double, float, DIVIDE | CHECK_RANGE>(P);
        reg_convolve<RuntimeKernel<bool>, Plain, double, double, DEFAULT_POLICY>(P);
#elif PART == 7
        reg_convolve<SquareKernel<int32_t, 1>, Real, float, float, DIVIDE | AVERAGE_OUTSIDE | AVERAGE_NO_DATA | CHECK_RANGE>(P);
        reg_convolve<SquareKernel<int32_t, 2>, Real, double, double, DIVIDE | REPLACE_FOCUS | CHECK_RANGE>(P);
        reg_convolve<SquareKernel<float, 3>, Real, float, float, AVERAGE_OUTSIDE | AVERAGE_NO_DATA | REPLACE_FOCUS | CHECK_RANGE>(P);
        reg_convolve<SquareKernel<bool, 2>, Real, double, double, DIVIDE | AVERAGE_OUTSIDE | AVERAGE_NO_DATA | REPLACE_FOCUS>(P);
        reg_convolve<SquareKernel<double, 1>, Plain, float, float, DEFAULT_POLICY>(P);
        reg_convolve<SquareKernel<float, 2>, Plain, double, float, DEFAULT_POLICY>(P);
#elif PART == 8
        reg_vector<GradientX, Real, double>(P);
        reg_vector<GradientX, Plain, float>(P);
        reg_vector<GradientY, Real, float>(P);
        reg_vector<GradientY, Plain, double>(P);
        reg_vector<GradientX, Real, float>(P);
        reg_vector<GradientY, Real, double>(P);
#elif PART == 9
        reg_vector<LaplacianOp, Real, double>(P);
        reg_vector<LaplacianOp, Real, float>(P);
#elif PART == 10
        reg_vector<LaplacianOp, Plain, double>(P);
        reg_vector<LaxOp, Real, double>(P);
        reg_vector<LaxOp, Real, float>(P);
        reg_vector<LaxOp, Plain, double>(P);
#elif PART == 11
        reg_vector<SlopeOp, Real, double>(P);
        reg_vector<SlopeOp, Plain, float>(P);
#elif PART == 12
        reg_vector<SlopeOp, Real, float>(P);
        reg_vector<SlopeOp, Plain, double>(P);
#endif
    }
} registrar;
}
