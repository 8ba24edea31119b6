// C10, C11, C12: one or a few types of every parallel algorithm (-DPART=n), for
// property PROP and no-data policies FAM (the library's own: Real, none: Plain,
// the harness's own throwing ones: Faulty).
#include "aggregate.h"
#include "select.h"
#include "focal.h"
#include "fern/algorithm/core/n_ary_local_operation.h"

using namespace alg;

[[maybe_unused]] static char const* const P = PROP;
using F = FAM;

// ---- results that alias an argument -------------------------------------------------
// What is read and written is the same element: the operation allows that.
template<class Op, class T, int D, int HOW> struct InPlaceBinary: Call {
    // HOW: 0 the result is the first argument, 1 the second, 2 the masks are one, 3 everything is one.
    Shape s;
    Box<T, D> a, b;
    std::vector<T> va, vb;
    std::vector<char> ma, mb;
    std::vector<Want<T>> want;
    explicit InPlaceBinary(sim::Rng& rng) : s(make_shape(rng, D)), a(s), b(s) {
        // Range checks see the argument after the result was written: no values out of range.
        auto gen = [](sim::Rng& g) { return Op::template first<T, T>(g, HOW != 2); };
        fill_box(a, rng, D, true, gen);
        fill_box(b, rng, D, true, gen);
        va.assign(a.data(), a.data() + a.size());
        vb.assign(b.data(), b.data() + b.size());
        ma.assign(a.marks(), a.marks() + a.size());
        mb.assign(b.marks(), b.marks() + b.size());
        want.resize(a.size());
        for(size_t i = 0; i < a.size(); ++i) {
            if(HOW == 3) want[i].s = ma[i] ? NO_DATA : Op::eval(va[i], va[i], want[i].v);
            else if(HOW == 2) want[i].s = ma[i] ? NO_DATA : Op::eval(va[i], vb[i], want[i].v);
            else want[i].s = ma[i] || mb[i] ? NO_DATA : Op::eval(va[i], vb[i], want[i].v);
        }
        name = std::string(Op::name) + (HOW == 0 ? " into the first argument " : HOW == 1 ? " into the second argument " : HOW == 2 ? " with one mask " : " of an argument with itself into itself ")
            + dims_name[D] + " " + TypeName<T>::name + " " + shape_name(D, s);
    }
    void clear() override {
        for(size_t i = 0; i < a.size(); ++i) {
            a.data()[i] = va[i]; b.data()[i] = vb[i];
            a.marks()[i] = ma[i]; b.marks()[i] = mb[i];
        }
    }
    void run(Exec& e) override {
        with_exec(e, [this](auto& ep) {
            using In = Real::In<Box<T, D>>;
            auto& ra = HOW == 1 ? b : a;
            Real::Out<Box<T, D>> out(ra.msk(), true);
            fa::InputNoDataPolicies<In, In> in{Real::in(a), Real::in(HOW >= 2 ? a : b)};
            Op::masked(in, out, ep, a.val(), HOW == 3 ? a.val() : b.val(), ra.val());
        });
    }
    void check() override { check_box(*this, HOW == 1 ? b : a, want, true, true); }
    void protect() override {
        Box<T, D>& o = HOW == 1 ? a : b;
        if(o.size() == 0) return;
        sim::protect(o.data(), o.size() * sizeof(T), "the other argument");
        sim::protect(o.marks(), o.size() * sizeof(bool), "the other argument's mask");
    }
};
template<int D> struct InPlaceUnary: Call {
    Shape s;
    Box<double, D> a;
    std::vector<double> v;
    std::vector<char> m;
    std::vector<Want<double>> want;
    explicit InPlaceUnary(sim::Rng& rng) : s(make_shape(rng, D)), a(s) {
        fill_box(a, rng, D, true, [](sim::Rng& g) { return any_value<double>(g); });
        v.assign(a.data(), a.data() + a.size());
        m.assign(a.marks(), a.marks() + a.size());
        for(size_t i = 0; i < a.size(); ++i) want.push_back({std::sqrt(v[i]), m[i] || v[i] < 0 ? NO_DATA : VALID});
        name = std::string("sqrt in place ") + dims_name[D] + " f64 " + shape_name(D, s);
    }
    void clear() override { for(size_t i = 0; i < a.size(); ++i) { a.data()[i] = v[i]; a.marks()[i] = m[i]; } }
    void run(Exec& e) override {
        with_exec(e, [this](auto& ep) {
            Real::Out<Box<double, D>> out(a.msk(), true);
            fa::algebra::sqrt<fa::sqrt::OutOfDomainPolicy>(fa::InputNoDataPolicies<Real::In<Box<double, D>>>{Real::in(a)}, out, ep, a.val(), a.val());
        });
    }
    void check() override { check_box(*this, a, want, true, true); }
    void protect() override {}
};
struct InPlaceCover: Call {
    Shape s;
    Box<int32_t, 2> a, b;
    std::vector<int32_t> v;
    std::vector<char> m;
    std::vector<Want<int32_t>> want;
    explicit InPlaceCover(sim::Rng& rng) : s(make_shape(rng, 2)), a(s), b(s) {
        fill_box(a, rng, 2, true, [](sim::Rng& g) { return any_value<int32_t>(g); });
        fill_box(b, rng, 2, true, [](sim::Rng& g) { return any_value<int32_t>(g); });
        v.assign(a.data(), a.data() + a.size());
        m.assign(a.marks(), a.marks() + a.size());
        for(size_t i = 0; i < a.size(); ++i) want.push_back({m[i] ? b.data()[i] : v[i], m[i] && b.marks()[i] ? NO_DATA : VALID});
        name = "cover into a result with its own mask over the first argument i32 " + shape_name(2, s);
    }
    Box<int32_t, 2>* r = nullptr;
    std::unique_ptr<Box<int32_t, 2>> own;
    void clear() override {
        for(size_t i = 0; i < a.size(); ++i) { a.data()[i] = v[i]; a.marks()[i] = m[i]; }
        if(!own) own = std::make_unique<Box<int32_t, 2>>(s);
        for(size_t i = 0; i < a.size(); ++i) own->marks()[i] = false;
    }
    void run(Exec& e) override {
        with_exec(e, [this](auto& ep) {
            using In = Real::In<Box<int32_t, 2>>;
            Real::Out<Box<int32_t, 2>> out(own->msk(), true);
            fa::core::cover<>(fa::InputNoDataPolicies<In, In>{Real::in(a), Real::in(b)}, out, ep, a.val(), b.val(), a.val());
        });
    }
    void check() override {
        for(size_t i = 0; i < a.size(); ++i) {
            int32_t x = a.data()[i];
            bool k = own->marks()[i];
            if(k != (want[i].s == NO_DATA)) wrong(*this, "wrong-mask", "element " + std::to_string(i));
            if(!k && x != want[i].v) wrong(*this, "wrong-value", "element " + std::to_string(i) + ": " + str(x) + ", expected " + str(want[i].v));
        }
    }
    void protect() override { protect_box(b, "the second argument"); }
};
struct InPlaceClamp: Call {
    Shape s;
    Box<double, 2> a, lo, hi;
    std::vector<double> v;
    std::vector<char> m;
    std::vector<Want<double>> want;
    explicit InPlaceClamp(sim::Rng& rng) : s(make_shape(rng, 2)), a(s), lo(s), hi(s) {
        fill_box(a, rng, 2, true, [](sim::Rng& g) { return any_value<double>(g); });
        fill_box(lo, rng, 2, false, [](sim::Rng& g) { return double(g.range(-9, 1)); });
        fill_box(hi, rng, 2, false, [](sim::Rng& g) { return double(g.range(2, 9)); });
        v.assign(a.data(), a.data() + a.size());
        m.assign(a.marks(), a.marks() + a.size());
        for(size_t i = 0; i < a.size(); ++i) want.push_back({std::min(std::max(v[i], lo.data()[i]), hi.data()[i]), m[i] ? NO_DATA : VALID});
        name = "clamp in place f64 " + shape_name(2, s);
    }
    void clear() override { for(size_t i = 0; i < a.size(); ++i) { a.data()[i] = v[i]; a.marks()[i] = m[i]; } }
    void run(Exec& e) override {
        with_exec(e, [this](auto& ep) {
            using In = Real::In<Box<double, 2>>;
            Real::Out<Box<double, 2>> out(a.msk(), true);
            fa::core::clamp<>(fa::InputNoDataPolicies<In, In, In>{Real::in(a), Real::in(lo), Real::in(hi)}, out, ep, a.val(), lo.val(), hi.val(), a.val());
        });
    }
    void check() override { check_box(*this, a, want, true, true); }
    void protect() override { protect_box(lo, "the lower bound"); protect_box(hi, "the upper bound"); }
};

// ---- the plain n-ary and defined ----------------------------------------------------
template<class Fam, int D> struct ThreeCall: Call {
    using T = int32_t;
    Shape s;
    std::shared_ptr<Box<T, D>> a, b, c;
    Box<T, D> r;
    std::vector<Want<T>> want;
    ThreeCall(ThreeCall const& o) : Call(o), s(o.s), a(o.a), b(o.b), c(o.c), r(s), want(o.want) {}
    std::unique_ptr<Call> sibling() const override { return std::make_unique<ThreeCall>(*this); }
    explicit ThreeCall(sim::Rng& rng) : s(make_shape(rng, D)), a(new Box<T, D>(s)), b(new Box<T, D>(s)), c(new Box<T, D>(s)), r(s) {
        for(auto x : {&a, &b, &c}) fill_box(**x, rng, D, false, [](sim::Rng& g) { return tame_value<T>(g); });
        for(size_t i = 0; i < r.size(); ++i) want.push_back({static_cast<T>(a->data()[i] + b->data()[i] + c->data()[i]), VALID});
        name = std::string("add of three ") + Fam::name + " " + dims_name[D] + " i32 " + shape_name(D, s);
    }
    void clear() override { make_stale(r); }
    void run(Exec& e) override {
        with_exec(e, [this](auto& ep) {
            typename Fam::template Out<Box<T, D>> out(r.msk(), true);
            using In = typename Fam::template In<Box<T, D>>;
            fa::n_ary_local_operation<fa::add::detail::Algorithm, fa::binary::DiscardDomainErrors, fa::binary::DiscardRangeErrors>(
                fa::InputNoDataPolicies<In, In>{Fam::in(*a), Fam::in(*b)}, out, ep, r.val(), a->val(), b->val(), c->val());
        });
    }
    void check() override { check_box(*this, r, want, true, true); }
    void protect() override { protect_box(*a, "the first argument"); protect_box(*b, "the second argument"); protect_box(*c, "the third argument"); }
};

template<class C, class T> static void reg_ifs() {
    using IT = IfThen<C, T>;
    using IE = IfThenElse<C, T>;
    using C0 = Box<C, 0>; using C1 = Box<C, 1>; using C2 = Box<C, 2>;
    using T0 = Box<T, 0>; using T1 = Box<T, 1>; using T2 = Box<T, 2>;
#if PART == 3
    reg_select<IT, F, C0, T0>(P);
    reg_select<IT, F, C0, T2>(P);
    reg_select<IT, F, C2, T0>(P);
    reg_select<IT, F, C2, T2>(P);
    reg_select<IE, F, C0, T0, T0>(P);
    reg_select<IE, F, C1, T0, T0>(P);
    reg_select<IE, F, C1, T1, T0>(P);
    reg_select<IE, F, C1, T0, T1>(P);
#else
    reg_select<IE, F, C1, T1, T1>(P);
    reg_select<IE, F, C2, T0, T0>(P);
    reg_select<IE, F, C0, T2, T0>(P);
    reg_select<IE, F, C0, T0, T2>(P);
    reg_select<IE, F, C0, T2, T2>(P);
    reg_select<IE, F, C2, T2, T2>(P);
    reg_select<IE, F, C2, T2, T0>(P);
    reg_select<IE, F, C2, T0, T2>(P);
#endif
}

static bool const registered = [] {
#if PART == 1
    reg_binary<Add, F, int32_t, int32_t>(P);
    reg_binary<Divide, F, double, double>(P);
#elif PART == 2
    reg_unary<Sqrt, F, double>(P);
    reg_unary<Not, F, uint8_t>(P);
    reg_binary<Less, F, double, double>(P);
    reg_call<ThreeCall<F, 0>>(P, "n_ary");
    reg_call<ThreeCall<F, 1>>(P, "n_ary");
    reg_call<ThreeCall<F, 2>>(P, "n_ary");
#elif PART == 3 || PART == 4
    reg_ifs<uint8_t, double>();
#elif PART == 5
    reg_select<Cover<double>, F, Box<double, 0>, Box<double, 0>>(P);
    reg_select<Cover<double>, F, Box<double, 2>, Box<double, 0>>(P);
    reg_select<Cover<double>, F, Box<double, 2>, Box<double, 2>>(P);
    reg_select<Clamp<double>, F, Box<double, 0>, Box<double, 0>, Box<double, 0>>(P);
    reg_select<Clamp<double>, F, Box<double, 1>, Box<double, 1>, Box<double, 1>>(P);
    reg_select<Clamp<double>, F, Box<double, 1>, Box<double, 1>, Box<double, 0>>(P);
    reg_select<Clamp<double>, F, Box<double, 1>, Box<double, 0>, Box<double, 1>>(P);
    reg_select<Clamp<double>, F, Box<double, 2>, Box<double, 2>, Box<double, 2>>(P);
    reg_select<Clamp<double>, F, Box<double, 2>, Box<double, 2>, Box<double, 0>>(P);
    reg_select<Clamp<double>, F, Box<double, 2>, Box<double, 0>, Box<double, 2>>(P);
    reg_select<Cast<int32_t, double, false>, F, Box<int32_t, 0>>(P);
    reg_select<Cast<int32_t, double, false>, F, Box<int32_t, 1>>(P);
    reg_select<Cast<int32_t, double, false>, F, Box<int32_t, 2>>(P);
#elif PART == 6
    using A = int32_t;
    reg_select<NoData<0>, F, Box<A, 0>>(P);
    reg_select<NoData<0>, F, Box<A, 2>>(P);
    reg_select<NoData<1>, F, Box<A, 0>, Box<float, 0>>(P);
    reg_select<NoData<1>, F, Box<A, 2>, Box<float, 2>>(P);
    reg_select<NoData<2>, F, Box<A, 0>, Box<float, 0>>(P);
    reg_select<NoData<2>, F, Box<A, 2>, Box<float, 2>>(P);
    reg_call<FillCall<A, 0, F>>(P, "fill");
    reg_call<FillCall<A, 1, F>>(P, "fill");
    reg_call<FillCall<A, 2, F>>(P, "fill");
    reg_call<CopyCall<A, F>>(P, "copy");
    reg_call<OffsetCall<A, 1, F, false>>(P, "offset");
    reg_call<OffsetCall<A, 2, F, false>>(P, "offset");
    reg_call<OffsetCall<A, 1, F, true>>(P, "offset");
    reg_call<OffsetCall<A, 2, F, true>>(P, "offset");
    reg_call<CompressCall<A, 1, F>>(P, "compress");
    reg_call<CompressCall<A, 2, F>>(P, "compress");
    reg_call<DecompressCall<A, 1, F>>(P, "decompress");
    reg_call<DecompressCall<A, 2, F>>(P, "decompress");
#elif PART == 7
    reg_aggregate<SumOp<double>, F, double>(P);
    reg_aggregate<SumOp<int32_t>, F, int32_t>(P);
    reg_aggregate<MeanOp<double>, F, double>(P);
    reg_aggregate<ExtremeOp<int32_t, true>, F, int32_t>(P);
#elif PART == 8
    reg_aggregate<ExtremeOp<int32_t, false>, F, int32_t>(P);
    reg_count<F, int32_t>(P);
    reg_aggregate<MedianOp<double>, F, double>(P);
    reg_binary<Extreme2<true>, F, int32_t, int32_t>(P);
#elif PART == 9
    reg_convolve<RuntimeKernel<double>, F, double, double, DIVIDE | AVERAGE_OUTSIDE | AVERAGE_NO_DATA | CHECK_RANGE>(P);
    reg_convolve<RuntimeKernel<bool>, F, float, float, DIVIDE | REPLACE_FOCUS | CHECK_RANGE>(P);
    reg_convolve<SquareKernel<int32_t, 1>, F, double, double, AVERAGE_OUTSIDE | AVERAGE_NO_DATA | REPLACE_FOCUS | CHECK_RANGE>(P);
#elif PART == 10
    reg_vector<GradientX, F, double>(P);
    reg_vector<GradientY, F, double>(P);
    reg_vector<LaxOp, F, double>(P);
#elif PART == 11
    reg_vector<LaplacianOp, F, double>(P);
    reg_vector<SlopeOp, F, double>(P);
#elif PART == 12
    reg_call<InPlaceBinary<Add, int32_t, 1, 0>>(P, "add in place");
    reg_call<InPlaceBinary<Add, int32_t, 2, 0>>(P, "add in place");
    reg_call<InPlaceBinary<Add, int32_t, 2, 1>>(P, "add in place");
    reg_call<InPlaceBinary<Subtract, double, 2, 2>>(P, "subtract with one mask");
    reg_call<InPlaceBinary<Multiply, int32_t, 1, 3>>(P, "multiply in place");
    reg_call<InPlaceBinary<Multiply, int32_t, 2, 3>>(P, "multiply in place");
    reg_call<InPlaceUnary<1>>(P, "sqrt in place");
    reg_call<InPlaceUnary<2>>(P, "sqrt in place");
    reg_call<InPlaceCover>(P, "cover in place");
    reg_call<InPlaceClamp>(P, "clamp in place");
#endif
    return true;
}();
