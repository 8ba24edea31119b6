// Calls of the aggregate operations, and what they are compared with.
#pragma once
#include "local.h"
#include "fern/algorithm/accumulator/count.h"
#include "fern/algorithm/accumulator/max.h"
#include "fern/algorithm/accumulator/mean.h"
#include "fern/algorithm/accumulator/median.h"
#include "fern/algorithm/accumulator/min.h"
#include "fern/algorithm/accumulator/mode.h"
#include "fern/algorithm/accumulator/range.h"
#include "fern/algorithm/accumulator/sum.h"
#include "fern/algorithm/core/unary_aggregate_operation.h"
#include "fern/algorithm/statistic/binary_max.h"
#include "fern/algorithm/statistic/binary_min.h"
#include "fern/algorithm/statistic/count.h"
#include "fern/algorithm/statistic/mean.h"
#include "fern/algorithm/statistic/sum.h"
#include "fern/algorithm/statistic/unary_max.h"
#include "fern/algorithm/statistic/unary_min.h"
#include <map>
#include <set>

namespace alg {

// A result that carries its own no-data.
template<class T> struct MaskedScalarBox {
    using V = fern::MaskedScalar<T>;
    using M = bool;
    V v;
    bool hot = false;
    explicit MaskedScalarBox(Shape = Shape(), T init = T()) : v(init) {}
    V& val() { return v; }
    M& msk() { return v.mask(); }
    T* data() { return &v.value(); }
    bool* marks() { return &v.mask(); }
    size_t size() const { return 1; }
    Shape shape() const { return Shape(); }
};

// No-data in the input is not looked at, but the result may be no-data.
struct SkipIn {
    static constexpr bool masked = true;
    static constexpr char const* name = "unchecked";
    template<class B> using In = fa::SkipNoData;
    template<class B> using Out = fa::MarkNoDataByValue<typename B::M>;
    template<class B> static In<B> in(B&) { return In<B>(); }
};
template<class Fam> constexpr bool skips_input = std::is_same<Fam, SkipIn>::value;

// An aggregate Op provides
//   name, R (value type of the result)
//   fill(rng, masked) -> A
//   masked(in, out, e, a, r), plain(e, a, r)
//   judge(values, plain, R& expected, double& scale) -> State
//   accept(values, R) -> bool      instead of equality, if it is not exact
template<class Op, class Fam, class A, int D, class RB> struct AggregateCall: Call {
    using R = typename Op::R;
    Shape s;
    std::shared_ptr<Box<A, D>> a;
    RB r;
    std::vector<A> valid;
    Want<R> want;
    double scale = 0;
    AggregateCall(AggregateCall const& o) : Call(o), s(o.s), a(o.a), r(Shape()), valid(o.valid), want(o.want), scale(o.scale) {}
    std::unique_ptr<Call> sibling() const override { return std::make_unique<AggregateCall>(*this); }
    explicit AggregateCall(sim::Rng& rng) : s(make_shape(rng, D)), a(std::make_shared<Box<A, D>>(s)), r(Shape()) {
        bool const tame = !Fam::masked || rng.chance(0.5);
        fill_box(*a, rng, D, Fam::masked, [tame](sim::Rng& g) { return Op::fill(g, tame); });
        for(size_t i = 0; i < a->size(); ++i) if(!a->marks()[i] || skips_input<Fam>) valid.push_back(a->data()[i]);
        if(valid.empty()) want.s = Fam::masked ? NO_DATA : UNTOUCHED;
        else want.s = Op::judge(valid, want.v, scale);
        if(!Fam::masked && want.s == NO_DATA) want.s = ANY;
        name = std::string(Op::name) + " " + Fam::name + " " + dims_name[D] + " " + TypeName<A>::name + " to " + TypeName<R>::name + " " + shape_name(D, s)
            + ", " + std::to_string(valid.size()) + " valid";
        nontrivial = a->size() > 1;
    }
    void clear() override {
        make_stale(r);
        if(want.s == UNTOUCHED) want.v = *r.data();
    }
    void run(Exec& e) override {
        with_exec(e, [this](auto& ep) {
            if constexpr(Fam::masked) {
                using In = typename Fam::template In<Box<A, D>>;
                typename Fam::template Out<RB> out(r.msk(), true);
                fa::InputNoDataPolicies<In> in{Fam::in(*a)};
                Op::masked(in, out, ep, a->val(), r.val());
            }
            else Op::plain(ep, a->val(), r.val());
        });
    }
    void check() override {
        bool const m = *r.marks();
        R const v = *r.data();
        std::vector<Want<R>> w{want};
        if(want.s == VALID && !m) {
            Quiet q;
            if(!Op::accept(valid, want.v, v, scale)) wrong(*this, "wrong-value", str(v) + ", expected " + str(want.v));
            w[0].v = v;
        }
        check_box(*this, r, w, Fam::masked, true);
    }
    void protect() override { protect_box(*a, "the argument"); }
};

struct AggregateOp {
    template<class A, class R> static bool accept(std::vector<A> const&, R want, R got, double scale) { return std::is_floating_point<R>::value ? close(got, want, scale) : same(got, want); }
};

// Sum of the values in any order: whether it is in range however it is split.
template<class A, class R> State sum_of(std::vector<A> const& v, R& r, double& scale) {
    if constexpr(std::is_integral<R>::value) {
        __int128 pos = 0, neg = 0;
        for(A x : v) (x > 0 ? pos : neg) += static_cast<__int128>(x);
        R dummy;
        State s = fits<R>(pos + neg, r);
        if(s == NO_DATA) return NO_DATA;
        return fits<R>(pos, dummy) == VALID && fits<R>(neg, dummy) == VALID ? VALID : ANY;
    }
    else {
        long double pos = 0, neg = 0;
        for(A x : v) (x > 0 ? pos : neg) += x;
        long double const max = std::numeric_limits<R>::max();
        r = static_cast<R>(pos + neg);
        scale = static_cast<double>(pos - neg);
        if(pos < max * 0.999L && -neg < max * 0.999L) return VALID;
        if(pos + neg > max * 1.001L || pos + neg < -max * 1.001L) return NO_DATA;
        return ANY;
    }
}

template<class A> A sum_value(sim::Rng& g, bool tame) {
    if(!tame) return g.chance(0.02) ? any_value<A>(g) : sizeof(A) == 1 ? static_cast<A>(g.range(0, 3)) : static_cast<A>(tame_value<A>(g) * static_cast<A>(g.chance(0.5) ? 1 : 3));
    if(sizeof(A) == 1) return static_cast<A>(g.chance(0.1) && !std::is_unsigned<A>::value ? -static_cast<int>(g.chance(0.9)) : g.chance(0.3));
    return std::is_unsigned<A>::value ? tame_value<A>(g) : static_cast<A>(tame_value<A>(g) * static_cast<A>(g.chance(0.5) ? 1 : -1));
}

template<class A> struct SumOp: AggregateOp {
    static constexpr char const* name = "sum";
    using R = A;
    static A fill(sim::Rng& g, bool tame) { return sum_value<A>(g, tame); }
    template<class In, class Out, class E, class V, class Rs> static void masked(In const& in, Out& out, E& e, V const& v, Rs& r) {
        fa::statistic::sum<fa::sum::OutOfRangePolicy>(in, out, e, v, r); }
    template<class E, class V, class Rs> static void plain(E& e, V const& v, Rs& r) { fa::statistic::sum(e, v, r); }
    static State judge(std::vector<A> const& v, R& r, double& scale) { return sum_of<A, R>(v, r, scale); }
};
template<class A, class Res> State mean_of(std::vector<A> const& v, Res& r, double& scale) {
    if constexpr(std::is_integral<Res>::value) {
        Res x;
        State s = sum_of<A, Res>(v, x, scale);
        r = static_cast<Res>(static_cast<__int128>(x) / static_cast<__int128>(v.size()));
        return s;
    }
    else {
        long double sum = 0, size = 0;
        Res x;
        State s = sum_of<A, Res>(v, x, scale);
        for(A a : v) { sum += a; size += std::fabs(static_cast<long double>(a)); }
        r = static_cast<Res>(sum / static_cast<long double>(v.size()));
        scale = static_cast<double>(size / static_cast<long double>(v.size()));
        return s;
    }
}
template<class A> struct MeanOp: AggregateOp {
    static constexpr char const* name = "mean";
    using R = A;
    static A fill(sim::Rng& g, bool tame) { return sum_value<A>(g, tame); }
    template<class In, class Out, class E, class V, class Rs> static void masked(In const& in, Out& out, E& e, V const& v, Rs& r) {
        fa::statistic::mean<fa::mean::OutOfRangePolicy>(in, out, e, v, r); }
    template<class E, class V, class Rs> static void plain(E& e, V const& v, Rs& r) { fa::statistic::mean(e, v, r); }
    static State judge(std::vector<A> const& v, R& r, double& scale) { return mean_of<A, R>(v, r, scale); }
};
template<class A, bool MAX> struct ExtremeOp: AggregateOp {
    static constexpr char const* name = MAX ? "unary_max" : "unary_min";
    using R = A;
    static A fill(sim::Rng& g, bool) { return any_value<A>(g); }
    template<class In, class Out, class E, class V, class Rs> static void masked(In const& in, Out& out, E& e, V const& v, Rs& r) {
        if constexpr(MAX) fa::statistic::unary_max<>(in, out, e, v, r); else fa::statistic::unary_min<>(in, out, e, v, r); }
    template<class E, class V, class Rs> static void plain(E& e, V const& v, Rs& r) {
        if constexpr(MAX) fa::statistic::unary_max(e, v, r); else fa::statistic::unary_min(e, v, r); }
    static State judge(std::vector<A> const& v, R& r, double&) {
        r = MAX ? *std::max_element(v.begin(), v.end()) : *std::min_element(v.begin(), v.end());
        return VALID;
    }
};

// ---- user accumulations -------------------------------------------------------------
// Through unary_aggregate_operation, with the library's accumulators ...
template<template<class, class> class Acc, template<class, class, class> class Range> struct UserOp: AggregateOp {
    template<class In, class Out, class E, class V, class Rs> static void masked(In const& in, Out& out, E& e, V const& v, Rs& r) {
        fa::unary_aggregate_operation<Acc, fa::unary::DiscardDomainErrors, Range>(in, out, e, v, r); }
    template<class E, class V, class Rs> static void plain(E& e, V const& v, Rs& r) {
        fa::DontMarkNoData out;
        fa::unary_aggregate_operation<Acc, fa::unary::DiscardDomainErrors, Range>(fa::InputNoDataPolicies<fa::SkipNoData>{{}}, out, e, v, r); }
};
template<class A, class Res> struct WideSum: UserOp<fa::accumulator::Sum, fa::sum::OutOfRangePolicy> {
    static constexpr char const* name = "accumulated sum of another type";
    using R = Res;
    static A fill(sim::Rng& g, bool) { return std::is_floating_point<A>::value ? static_cast<A>(static_cast<double>(g.range(-800, 800)) / 64) : any_value<A>(g); }
    static State judge(std::vector<A> const& v, R& r, double& scale) { return sum_of<A, R>(v, r, scale); }
};
template<class A, class Res> struct WideMean: UserOp<fa::accumulator::Mean, fa::sum::OutOfRangePolicy> {
    static constexpr char const* name = "accumulated mean of another type";
    using R = Res;
    static A fill(sim::Rng& g, bool) { return std::is_floating_point<A>::value ? static_cast<A>(static_cast<double>(g.range(-800, 800)) / 64) : any_value<A>(g); }
    static State judge(std::vector<A> const& v, R& r, double& scale) { return mean_of<A, R>(v, r, scale); }
};
template<class A, class Res, template<class, class, class> class Range> struct CountAllOp: UserOp<fa::accumulator::Count, Range> {
    static constexpr char const* name = "accumulated count";
    using R = Res;
    static A fill(sim::Rng& g, bool) { return any_value<A>(g); }
    static State judge(std::vector<A> const& v, R& r, double&) { return fits<R>(static_cast<__int128>(v.size()), r); }
};
template<class A> A middle_value(sim::Rng& g) { return std::is_floating_point<A>::value ? static_cast<A>(static_cast<double>(g.range(-800, 800)) / 64) : static_cast<A>(g.range(std::is_signed<A>::value ? -30 : 0, 30)); }
template<class A> struct MedianOp: UserOp<fa::accumulator::Median, fa::binary::DiscardRangeErrors> {
    static constexpr char const* name = "accumulated median";
    using R = A;
    static A fill(sim::Rng& g, bool) { return middle_value<A>(g); }
    static State judge(std::vector<A> v, R& r, double&) {
        std::sort(v.begin(), v.end());
        size_t const n = v.size();
        r = n % 2 ? v[n / 2] : static_cast<A>(static_cast<A>(v[n / 2 - 1] + v[n / 2]) / 2);
        return VALID;
    }
};
template<class A> struct RangeOp: UserOp<fa::accumulator::Range, fa::binary::DiscardRangeErrors> {
    static constexpr char const* name = "accumulated range";
    using R = A;
    static A fill(sim::Rng& g, bool) { return middle_value<A>(g); }
    static State judge(std::vector<A> const& v, R& r, double&) {
        r = static_cast<A>(*std::max_element(v.begin(), v.end()) - *std::min_element(v.begin(), v.end()));
        return VALID;
    }
};
// Which one of several modes is the result is not defined.
template<class A> struct ModeOp: UserOp<fa::accumulator::Mode, fa::binary::DiscardRangeErrors> {
    static constexpr char const* name = "accumulated mode";
    using R = A;
    static A fill(sim::Rng& g, bool) { return static_cast<A>(g.chance(0.3) ? 7 : g.range(0, 9)); }
    static std::map<A, size_t> table(std::vector<A> const& v) { std::map<A, size_t> t; for(A x : v) ++t[x]; return t; }
    static State judge(std::vector<A> const& v, R& r, double&) {
        auto t = table(v);
        r = std::max_element(t.begin(), t.end(), [](auto const& a, auto const& b) { return a.second < b.second; })->first;
        return VALID;
    }
    static bool accept(std::vector<A> const& v, R want, R got, double) {
        auto t = table(v);
        return t.count(got) && t[got] == t[want];
    }
};

// ... and with accumulators of the user's own: one whose result tells every
// value and how often it has been added,
template<class A, class Res> struct Tally {
    static bool const out_of_range_risk = false;
    Res sum = 0;
    static Res mix(A v) {
        uint64_t z = static_cast<uint64_t>(v) * 0x9E3779B97F4A7C15ull + 0x7654321;
        z = (z ^ (z >> 30)) * 0xBF58476D1CE4E5B9ull;
        return static_cast<Res>(z ^ (z >> 31));
    }
    void operator()(A const& v) { sum += mix(v); }
    Tally& operator|=(Tally const& o) { sum += o.sum; return *this; }
    Res operator()() const { return sum; }
};
template<class A> struct TallyOp: UserOp<Tally, fa::binary::DiscardRangeErrors> {
    static constexpr char const* name = "user accumulation of all values";
    using R = uint64_t;
    static A fill(sim::Rng& g, bool) { return any_value<A>(g); }
    static State judge(std::vector<A> const& v, R& r, double&) {
        r = 0;
        for(A x : v) r += Tally<A, R>::mix(x);
        return VALID;
    }
};
// and one whose values can be out of range, also the first one, and whose
// state owns memory.
template<class A, class Res> struct Picky {
    static bool const out_of_range_risk = true;
    std::vector<A> values;
    template<template<class, class, class> class Range> bool operator()(A const& v) {
        values.push_back(v);
        return Range<Res, A, Res>::within_range(0, v, static_cast<Res>(v));
    }
    template<template<class, class, class> class Range> bool operator|=(Picky const& o) {
        values.insert(values.end(), o.values.begin(), o.values.end());
        return Range<Res, A, Res>::within_range(0, 0, static_cast<Res>(values.size()));
    }
    Res operator()() const { Res r = 0; for(A v : values) r += static_cast<Res>(v); return r; }
};
template<class V1, class V2, class R> struct LimitRange {
    static bool within_range(V1 const&, V2 const& v, R const& r) { return v < 100 && r < 200; }
};
struct PickyOp: UserOp<Picky, LimitRange> {
    static constexpr char const* name = "user accumulation with a limit";
    using R = int64_t;
    static int32_t fill(sim::Rng& g, bool tame) { return static_cast<int32_t>(!tame && g.chance(0.05) ? g.range(100, 120) : g.range(-99, 99)); }
    static State judge(std::vector<int32_t> const& v, R& r, double&) {
        r = 0;
        for(int32_t x : v) { r += x; if(x >= 100) return NO_DATA; }
        // How many values a merge may see depends on the blocks.
        return v.size() < 200 ? VALID : ANY;
    }
};

// ---- count --------------------------------------------------------------------------
template<class Fam, class A, int D, class RB> struct CountCall: Call {
    using R = std::remove_reference_t<decltype(*std::declval<RB&>().data())>;
    Shape s;
    std::shared_ptr<Box<A, D>> a;
    A value;
    RB r;
    Want<R> want;
    CountCall(CountCall const& o) : Call(o), s(o.s), a(o.a), value(o.value), r(Shape()), want(o.want) {}
    std::unique_ptr<Call> sibling() const override { return std::make_unique<CountCall>(*this); }
    explicit CountCall(sim::Rng& rng) : s(make_shape(rng, D)), a(std::make_shared<Box<A, D>>(s)), r(Shape()) {
        fill_box(*a, rng, D, Fam::masked, [](sim::Rng& g) { return static_cast<A>(g.below(std::is_same<A, bool>::value ? 2 : 4)); });
        value = static_cast<A>(rng.below(std::is_same<A, bool>::value ? 2 : 4));
        size_t n = 0, hits = 0;
        for(size_t i = 0; i < a->size(); ++i) if(!a->marks()[i] || skips_input<Fam>) { ++n; hits += a->data()[i] == value; }
        want = {static_cast<R>(hits), n ? VALID : Fam::masked ? NO_DATA : UNTOUCHED};
        name = std::string("count ") + Fam::name + " " + dims_name[D] + " " + TypeName<A>::name + " " + shape_name(D, s) + ", " + std::to_string(n) + " valid";
        nontrivial = a->size() > 1;
    }
    void clear() override {
        make_stale(r);
        if(want.s == UNTOUCHED) want.v = *r.data();
    }
    void run(Exec& e) override {
        with_exec(e, [this](auto& ep) {
            if constexpr(Fam::masked) {
                using In = typename Fam::template In<Box<A, D>>;
                typename Fam::template Out<RB> out(r.msk(), true);
                fa::statistic::count<>(fa::InputNoDataPolicies<In, fa::SkipNoData>{Fam::in(*a), {}}, out, ep, a->val(), value, r.val());
            }
            else fa::statistic::count(ep, a->val(), value, r.val());
        });
    }
    void check() override { check_box(*this, r, std::vector<Want<R>>{want}, Fam::masked, true); }
    void protect() override { protect_box(*a, "the argument"); }
};

// ---- element-wise extremes ----------------------------------------------------------
template<bool MAX> struct Extreme2 {
    static constexpr char const* name = MAX ? "binary_max" : "binary_min";
    static constexpr bool exact = true;
    template<class A, class B> using R = A;
    template<class In, class Out, class E, class A, class B, class Rs> static void masked(In const& in, Out& out, E& e, A const& a, B const& b, Rs& r) {
        if constexpr(MAX) fa::statistic::binary_max<>(in, out, e, a, b, r); else fa::statistic::binary_min<>(in, out, e, a, b, r); }
    template<class E, class A, class B, class Rs> static void plain(E& e, A const& a, B const& b, Rs& r) {
        if constexpr(MAX) fa::statistic::binary_max(e, a, b, r); else fa::statistic::binary_min(e, a, b, r); }
    template<class A, class B> static A first(sim::Rng& g, bool) { return any_value<A>(g); }
    template<class A, class B> static B second(sim::Rng& g, bool) { return any_value<B>(g); }
    template<class B> static bool second_ok(B) { return true; }
    template<class A, class B, class Rs> static State eval(A a, B b, Rs& r) { r = MAX ? std::max(a, b) : std::min(a, b); return VALID; }
};

template<class Op, class Fam, class A> void reg_aggregate(char const* prop) {
    using R = typename Op::R;
    registry().push_back({prop, Op::name, &make_call<AggregateCall<Op, Fam, A, 0, Box<R, 0>>>});
    registry().push_back({prop, Op::name, &make_call<AggregateCall<Op, Fam, A, 1, Box<R, 0>>>});
    registry().push_back({prop, Op::name, &make_call<AggregateCall<Op, Fam, A, 2, Box<R, 0>>>});
    registry().push_back({prop, Op::name, &make_call<AggregateCall<Op, Fam, A, 1, MaskedScalarBox<R>>>});
    registry().push_back({prop, Op::name, &make_call<AggregateCall<Op, Fam, A, 2, MaskedScalarBox<R>>>});
}
template<class Fam, class A> void reg_count(char const* prop) {
    registry().push_back({prop, "count", &make_call<CountCall<Fam, A, 0, Box<uint64_t, 0>>>});
    registry().push_back({prop, "count", &make_call<CountCall<Fam, A, 1, Box<uint64_t, 0>>>});
    registry().push_back({prop, "count", &make_call<CountCall<Fam, A, 2, Box<uint64_t, 0>>>});
    registry().push_back({prop, "count", &make_call<CountCall<Fam, A, 1, Box<int32_t, 0>>>});
    registry().push_back({prop, "count", &make_call<CountCall<Fam, A, 2, MaskedScalarBox<uint64_t>>>});
    registry().push_back({prop, "count", &make_call<CountCall<Fam, A, 1, MaskedScalarBox<uint64_t>>>});
}

} // namespace alg
