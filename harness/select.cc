// C07: the calls of one part (-DPART=n) of the selection, copying and no-data operations.
#include "select.h"

using namespace alg;

[[maybe_unused]] static char const* const P = "C07";

template<class Fam, class C, class T> void reg_if() {
    using IT = IfThen<C, T>;
    using IE = IfThenElse<C, T>;
    using C0 = Box<C, 0>; using C1 = Box<C, 1>; using C2 = Box<C, 2>;
    using T0 = Box<T, 0>; using T1 = Box<T, 1>; using T2 = Box<T, 2>;
    reg_select<IT, Fam, C0, T0>(P);
    reg_select<IT, Fam, C0, T2>(P);
    reg_select<IT, Fam, C2, T0>(P);
    reg_select<IT, Fam, C2, T2>(P);
    reg_select<IE, Fam, C0, T0, T0>(P);
    reg_select<IE, Fam, C1, T0, T0>(P);
    reg_select<IE, Fam, C1, T1, T0>(P);
    reg_select<IE, Fam, C1, T0, T1>(P);
    reg_select<IE, Fam, C1, T1, T1>(P);
    reg_select<IE, Fam, C2, T0, T0>(P);
    reg_select<IE, Fam, C0, T2, T0>(P);
    reg_select<IE, Fam, C0, T0, T2>(P);
    reg_select<IE, Fam, C0, T2, T2>(P);
    reg_select<IE, Fam, C2, T2, T2>(P);
    reg_select<IE, Fam, C2, T2, T0>(P);
    reg_select<IE, Fam, C2, T0, T2>(P);
}
template<class Fam, class T> void reg_cover() {
    reg_select<Cover<T>, Fam, Box<T, 0>, Box<T, 0>>(P);
    reg_select<Cover<T>, Fam, Box<T, 2>, Box<T, 0>>(P);
    reg_select<Cover<T>, Fam, Box<T, 2>, Box<T, 2>>(P);
}
template<class Fam, class T> void reg_clamp() {
    reg_select<Clamp<T>, Fam, Box<T, 0>, Box<T, 0>, Box<T, 0>>(P);
    reg_select<Clamp<T>, Fam, Box<T, 1>, Box<T, 1>, Box<T, 1>>(P);
    reg_select<Clamp<T>, Fam, Box<T, 1>, Box<T, 1>, Box<T, 0>>(P);
    reg_select<Clamp<T>, Fam, Box<T, 1>, Box<T, 0>, Box<T, 1>>(P);
    reg_select<Clamp<T>, Fam, Box<T, 2>, Box<T, 2>, Box<T, 2>>(P);
    reg_select<Clamp<T>, Fam, Box<T, 2>, Box<T, 2>, Box<T, 0>>(P);
    reg_select<Clamp<T>, Fam, Box<T, 2>, Box<T, 0>, Box<T, 2>>(P);
}
template<class Fam, class A, class T, bool Checked> void reg_cast() {
    reg_select<Cast<A, T, Checked>, Fam, Box<A, 0>>(P);
    reg_select<Cast<A, T, Checked>, Fam, Box<A, 1>>(P);
    reg_select<Cast<A, T, Checked>, Fam, Box<A, 2>>(P);
}
template<class A> void reg_no_data() {
    reg_select<NoData<0>, Real, Box<A, 0>>(P);
    reg_select<NoData<0>, Real, Box<A, 2>>(P);
    reg_select<NoData<1>, Real, Box<A, 0>, Box<float, 0>>(P);
    reg_select<NoData<1>, Real, Box<A, 2>, Box<float, 2>>(P);
    reg_select<NoData<2>, Real, Box<A, 0>, Box<float, 0>>(P);
    reg_select<NoData<2>, Real, Box<A, 2>, Box<float, 2>>(P);
}
template<class Fam, class T> void reg_move() {
    reg_call<FillCall<T, 0, Fam>>(P, "fill");
    reg_call<FillCall<T, 1, Fam>>(P, "fill");
    reg_call<FillCall<T, 2, Fam>>(P, "fill");
    reg_call<CopyCall<T, Fam>>(P, "copy");
    reg_call<OffsetCall<T, 1, Fam, false>>(P, "offset");
    reg_call<OffsetCall<T, 2, Fam, false>>(P, "offset");
    reg_call<OffsetCall<T, 1, Fam, true>>(P, "offset");
    reg_call<OffsetCall<T, 2, Fam, true>>(P, "offset");
    reg_call<CompressCall<T, 1, Fam>>(P, "compress");
    reg_call<CompressCall<T, 2, Fam>>(P, "compress");
    reg_call<DecompressCall<T, 1, Fam>>(P, "decompress");
    reg_call<DecompressCall<T, 2, Fam>>(P, "decompress");
}

static bool const registered = [] {
#if PART == 1
    reg_if<Real, uint8_t, double>();
#elif PART == 2
    reg_if<Real, int32_t, uint8_t>();
#elif PART == 3
    using D2 = Box<double, 2>; using D1 = Box<double, 1>; using D0 = Box<double, 0>;
    reg_select<IfThenPlain<uint8_t, double>, Plain, Box<uint8_t, 0>, D0>(P);
    reg_select<IfThenPlain<uint8_t, double>, Plain, Box<uint8_t, 0>, D2>(P);
    reg_select<IfThenPlain<uint8_t, double>, Plain, Box<uint8_t, 2>, D0>(P);
    reg_select<IfThenPlain<uint8_t, double>, Plain, Box<uint8_t, 2>, D2>(P);
    reg_select<IfThenElse<uint8_t, double>, Plain, Box<uint8_t, 1>, D1, D0>(P);
    reg_select<IfThenElse<uint8_t, double>, Plain, Box<uint8_t, 2>, D2, D2>(P);
    reg_cover<Real, double>();
    reg_cover<Real, int32_t>();
    reg_cover<Plain, uint8_t>();
#elif PART == 4
    reg_clamp<Real, double>();
    reg_clamp<Real, int32_t>();
    reg_clamp<Plain, float>();
#elif PART == 5
    reg_cast<Real, bool, int32_t, true>();
    reg_cast<Real, bool, float, true>();
    reg_cast<Real, uint8_t, uint32_t, true>();
    reg_cast<Real, int16_t, int64_t, true>();
    reg_cast<Real, double, double, true>();
    reg_cast<Real, double, int32_t, false>();
    reg_cast<Real, int32_t, double, false>();
    reg_cast<Real, uint8_t, bool, false>();
    reg_cast<Plain, float, uint8_t, false>();
    reg_cast<Plain, int64_t, int32_t, false>();
    reg_no_data<int32_t>();
#elif PART == 6
    reg_move<Real, double>();
#elif PART == 7
    reg_move<Real, int32_t>();
#elif PART == 8
    reg_move<Plain, uint8_t>();
#endif
    return true;
}();
