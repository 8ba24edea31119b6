// C06: the calls of one part (-DPART=n) of the element-wise operations.
#include "local.h"
#include "fern/algorithm/core/n_ary_local_operation.h"
#include "fern/algorithm/policy/all_no_data.h"
#include "fern/algorithm/policy/detect_no_data.h"
#include "fern/algorithm/policy/mark_no_data.h"

using namespace alg;

[[maybe_unused]] static char const* const P = "C06";

// ---- which values are defined -------------------------------------------------------
template<class T, int D> struct DefinedCall: Call {
    Shape s;
    Box<double, D> a;
    Box<T, D> r;
    std::vector<Want<T>> want;
    explicit DefinedCall(sim::Rng& rng) : s(make_shape(rng, D)), a(s), r(s) {
        fill_box(a, rng, D, true, [](sim::Rng&) { return 0.0; });
        for(size_t i = 0; i < a.size(); ++i) want.push_back({static_cast<T>(!a.marks()[i]), VALID});
        name = std::string("defined ") + dims_name[D] + " " + TypeName<T>::name + " " + shape_name(D, s);
    }
    void clear() override { make_stale(r); }
    void run(Exec& e) override {
        with_fixed_exec(e, [this](auto& ep) {
            using In = Real::In<Box<double, D>>;
            fa::algebra::defined<>(fa::InputNoDataPolicies<In>{Real::in(a)}, ep, r.val());
        });
    }
    void check() override { check_box(*this, r, want, false, true); }
    void protect() override { protect_box(a, "the argument"); }
};

// ---- more than two arguments --------------------------------------------------------
// The same input no-data policies are used for every pair of arguments, so
// without no-data.
template<class T, int D> struct NAryCall: Call {
    Shape s;
    Box<T, D> a, b, c;
    Box<T, D> r;
    std::vector<Want<T>> want;
    explicit NAryCall(sim::Rng& rng) : s(make_shape(rng, D)), a(s), b(s), c(s), r(s) {
        for(auto x : {&a, &b, &c}) fill_box(*x, rng, D, false, [](sim::Rng& g) { return tame_value<T>(g); });
        for(size_t i = 0; i < r.size(); ++i) want.push_back({static_cast<T>(a.data()[i] + b.data()[i] + c.data()[i]), VALID});
        name = std::string("add of three ") + dims_name[D] + " " + TypeName<T>::name + " " + shape_name(D, s);
    }
    void clear() override { make_stale(r); }
    void run(Exec& e) override {
        with_exec(e, [this](auto& ep) {
            fa::DontMarkNoData out;
            fa::n_ary_local_operation<fa::add::detail::Algorithm, fa::binary::DiscardDomainErrors, fa::binary::DiscardRangeErrors>(
                fa::InputNoDataPolicies<fa::SkipNoData, fa::SkipNoData>{{}, {}}, out, ep, r.val(), a.val(), b.val(), c.val());
        });
    }
    void check() override { check_box(*this, r, want, false, true); }
    void protect() override { protect_box(a, "the first argument"); protect_box(b, "the second argument"); protect_box(c, "the third argument"); }
};

// ---- other containers ---------------------------------------------------------------
struct Vectors: Call {
    std::vector<int32_t> a;
    std::vector<double> b, r;
    explicit Vectors(sim::Rng& rng) {
        size_t n = make_shape(rng, 1).n0;
        for(size_t i = 0; i < n; ++i) { a.push_back(any_value<int32_t>(rng)); b.push_back(static_cast<double>(rng.range(-800, 800)) / 64); }
        r.resize(n);
        name = "subtract plain std::vector i32,f64 " + std::to_string(n);
    }
    void clear() override { for(auto& x : r) x = 99; }
    void run(Exec& e) override { with_exec(e, [this](auto& ep) { fa::algebra::subtract(ep, a, b, r); }); }
    void check() override {
        for(size_t i = 0; i < r.size(); ++i) if(r[i] != a[i] - b[i]) wrong(*this, "wrong-value", "element " + std::to_string(i) + ": " + str(r[i]) + ", expected " + str(a[i] - b[i]));
    }
    void protect() override {
        if(a.empty()) return;
        sim::protect(a.data(), a.size() * sizeof(a[0]), "the first argument");
        sim::protect(b.data(), b.size() * sizeof(b[0]), "the second argument");
    }
};

template<int D> struct Arrays: Call {
    Shape s;
    fern::Array<int64_t, D> a, r;
    static fern::Array<int64_t, D> make(Shape s) {
        if constexpr(D == 1) return fern::Array<int64_t, 1>(s.n0);
        else return fern::Array<int64_t, 2>(fern::extents[static_cast<fern::Index>(s.n0)][static_cast<fern::Index>(s.n1)]);
    }
    explicit Arrays(sim::Rng& rng) : s(make_shape(rng, D)), a(make(s)), r(make(s)) {
        for(size_t i = 0; i < s.size(); ++i) a.data()[i] = rng.range(-1000000, 1000000);
        name = std::string("absolute plain Array ") + dims_name[D] + " i64 " + shape_name(D, s);
    }
    void clear() override { for(size_t i = 0; i < s.size(); ++i) r.data()[i] = 99; }
    void run(Exec& e) override { with_exec(e, [this](auto& ep) { fa::algebra::absolute(ep, a, r); }); }
    void check() override {
        for(size_t i = 0; i < s.size(); ++i) {
            int64_t w = a.data()[i] < 0 ? -a.data()[i] : a.data()[i];
            if(r.data()[i] != w) wrong(*this, "wrong-value", "element " + std::to_string(i) + ": " + str(r.data()[i]) + ", expected " + str(w));
        }
    }
    void protect() override { if(s.size()) sim::protect(a.data(), s.size() * sizeof(int64_t), "the argument"); }
};

// A raster (cell sizes, mask) and a masked scalar.
struct Rasters: Call {
    using V = fern::MaskedRaster<float, 2>;
    Shape s;
    V a, b, r;
    float f;
    bool fm;
    static V make(Shape s) {
        typename V::Transformation t{{0, 10, 0, 10}};
        return V(fern::extents[static_cast<fern::Index>(s.n0)][static_cast<fern::Index>(s.n1)], t);
    }
    explicit Rasters(sim::Rng& rng) : s(make_shape(rng, 2)), a(make(s)), b(make(s)), r(make(s)), f(tame_value<float>(rng)), fm(rng.chance(0.1)) {
        auto m1 = make_marks(rng, s, 2);
        for(size_t i = 0; i < s.size(); ++i) { a.data()[i] = tame_value<float>(rng); a.mask().data()[i] = m1[i]; }
        name = "multiply masked raster f32 with masked scalar " + shape_name(2, s);
    }
    void clear() override { for(size_t i = 0; i < s.size(); ++i) { r.data()[i] = 99; r.mask().data()[i] = false; } }
    void run(Exec& e) override {
        fern::MaskedScalar<float> scalar(f, fm);
        with_exec(e, [&](auto& ep) {
            fa::MarkNoDataByValue<fern::Mask<2>> out(r.mask(), true);
            fa::InputNoDataPolicies<fa::DetectNoDataByValue<fern::Mask<2>>, fa::DetectNoDataByValue<bool>> in{{a.mask(), true}, {scalar.mask(), true}};
            fa::algebra::multiply<fa::multiply::OutOfRangePolicy>(in, out, ep, a, scalar, r);
        });
    }
    void check() override {
        for(size_t i = 0; i < s.size(); ++i) {
            bool m = a.mask().data()[i] || fm;
            if(r.mask().data()[i] != m) wrong(*this, m ? "not-marked-no-data" : "wrongly-no-data", "element " + std::to_string(i));
            if(!m && r.data()[i] != a.data()[i] * f) wrong(*this, "wrong-value", "element " + std::to_string(i) + ": " + str(r.data()[i]) + ", expected " + str(a.data()[i] * f));
        }
    }
    void protect() override {
        if(!s.size()) return;
        sim::protect(a.data(), s.size() * sizeof(float), "the argument");
        sim::protect(a.mask().data(), s.size(), "the argument's mask");
    }
};

// ---- the other no-data policies -----------------------------------------------------
// No-data as a value of the argument or result itself (the value type's
// default, or some value), arguments without no-data,
// results in a mask or in the values, and checks that are not asked for.
enum Marks { IN_MASK, DEFAULT, BY_VALUE, NEVER };
static char const* const marks_name[] = {"mask", "default value", "value", "none"};
template<class T> T some_no_data(sim::Rng& r) {
    switch(r.below(3)) { case 0: return static_cast<T>(0); case 1: return static_cast<T>(101); default: return std::numeric_limits<T>::max(); }
}
template<Marks M, class T> T no_data_of(sim::Rng& rng) {
    if constexpr(M == DEFAULT) return fern::no_data_value<T>();
    else return some_no_data<T>(rng);
}
template<Marks M, class T, int D> struct Input {
    Box<T, D> b;
    T nd;
    Input(Shape s, sim::Rng& rng) : b(s), nd(no_data_of<M, T>(rng)) {
        fill_box(b, rng, D, M != NEVER, [](sim::Rng& g) { return tame_value<T>(g); });
        if(M == DEFAULT || M == BY_VALUE) for(size_t i = 0; i < b.size(); ++i) if(b.marks()[i]) b.data()[i] = nd;
    }
    bool no_data(size_t i) const { return M != NEVER && const_cast<Input*>(this)->b.marks()[D == 0 ? 0 : i]; }
    T value(size_t i) const { return const_cast<Input*>(this)->b.data()[D == 0 ? 0 : i]; }
    auto policy() {
        using V = typename Box<T, D>::V;
        if constexpr(M == IN_MASK) return fa::DetectNoDataByValue<typename Box<T, D>::M>(b.msk(), true);
        else if constexpr(M == DEFAULT) return DetectDefault<V>(b.val());
        else if constexpr(M == BY_VALUE) return fa::DetectNoDataByValue<V>(b.val(), nd);
        else return fa::SkipNoData();
    }
    // The policy cannot be moved by itself.
    template<class V> struct DetectDefault: fa::DetectNoData<V> {
        explicit DetectDefault(V const& v) : fa::DetectNoData<V>(v) {}
        DetectDefault(DetectDefault const&) = default;
    };
};
template<class Op, Marks M1, class A, int D1, Marks M2, class B, int D2, Marks MR> struct PolicyCall: Call {
    using R = typename Op::template R<A, B>;
    static constexpr int D = D1 > D2 ? D1 : D2;
    Shape s;
    Input<M1, A, D1> a;
    Input<M2, B, D2> b;
    Box<R, D> r;
    R nd;
    std::vector<Want<R>> want;
    explicit PolicyCall(sim::Rng& rng) : s(make_shape(rng, D)), a(s, rng), b(s, rng), r(s), nd(no_data_of<MR, R>(rng)) {
        want.resize(r.size());
        for(size_t i = 0; i < r.size(); ++i) {
            if(a.no_data(i) || b.no_data(i)) want[i].s = NO_DATA;
            else want[i].s = Op::eval(a.value(i), b.value(i), want[i].v);
        }
        name = std::string(Op::name) + " no-data by " + marks_name[M1] + " and " + marks_name[M2] + " into " + marks_name[MR] + " " + dims_name[D1] + "," + dims_name[D2]
            + " " + TypeName<A>::name + "," + TypeName<B>::name + " " + shape_name(D, s);
        nontrivial = r.size() > 1;
    }
    void clear() override { make_stale(r); }
    void run(Exec& e) override {
        with_exec(e, [this](auto& ep) {
            using V = typename Box<R, D>::V;
            auto in1 = a.policy();
            auto in2 = b.policy();
            Policies<decltype(in1), decltype(in2)> in(std::move(in1), std::move(in2));
            if constexpr(MR == IN_MASK) { fa::MarkNoDataByValue<typename Box<R, D>::M> out(r.msk(), true); call(in, out, ep); }
            else if constexpr(MR == DEFAULT) { fa::MarkNoData<V> out(r.val()); call(in, out, ep); }
            else { fa::MarkNoDataByValue<V> out(r.val(), nd); call(in, out, ep); }
        });
    }
    template<class P1, class P2> using Policies = fa::InputNoDataPolicies<P1, P2>;
    template<class In, class Out, class E> void call(In const& in, Out& out, E& ep) { Op::masked(in, out, ep, a.b.val(), b.b.val(), r.val()); }
    void check() override {
        if(MR != IN_MASK)
            for(size_t i = 0; i < r.size(); ++i) {
                if(r.marks()[i]) wrong(*this, "wrongly-no-data", "element " + std::to_string(i) + ": mask changed though no-data is a value");
                r.marks()[i] = r.data()[i] == nd;
            }
        check_box(*this, r, want, true, Op::exact);
    }
    void protect() override { protect_box(a.b, "the first argument"); protect_box(b.b, "the second argument"); }
};

// Checks that are not asked for do not mark anything.  (Dividing by zero must be.)
template<class Op, bool DOMAIN_, bool RANGE> struct Partly: Op {
    template<class A, class B> static B second(sim::Rng& g, bool tame) {
        for(;;) {
            B const b = Op::template second<A, B>(g, tame);
            if(DOMAIN_ || b != B(0)) return b;
        }
    }
    template<class B> static bool second_ok(B b) { return Op::template second_ok<B>(b) && (DOMAIN_ || b != B(0)); }
    template<class In, class Out, class E, class A, class B, class Rs> static void masked(In const& in, Out& out, E& e, A const& a, B const& b, Rs& r) {
        if constexpr(std::is_same<Op, Divide>::value) {
            if constexpr(DOMAIN_) fa::algebra::divide<fa::divide::OutOfDomainPolicy, fa::binary::DiscardRangeErrors>(in, out, e, a, b, r);
            else fa::algebra::divide<fa::binary::DiscardDomainErrors, fa::divide::OutOfRangePolicy>(in, out, e, a, b, r);
        }
        else if constexpr(std::is_same<Op, Add>::value) fa::algebra::add<fa::binary::DiscardRangeErrors>(in, out, e, a, b, r);
        else if constexpr(std::is_same<Op, Subtract>::value) fa::algebra::subtract<fa::binary::DiscardRangeErrors>(in, out, e, a, b, r);
        else fa::algebra::multiply<fa::binary::DiscardRangeErrors>(in, out, e, a, b, r);
    }
    template<class A, class B, class Rs> static State eval(A a, B b, Rs& r) {
        State const s = Op::eval(a, b, r);
        if(s != NO_DATA) return s;
        bool const domain = std::is_same<Op, Divide>::value && b == B(0);
        return domain || RANGE ? NO_DATA : VALUE_ANY;
    }
};
template<class Op, class A, class B> void reg_policies(char const* p) {
    auto& g = registry();
    g.push_back({p, "policies", &make_call<PolicyCall<Op, DEFAULT, A, 2, DEFAULT, B, 2, DEFAULT>>});
    g.push_back({p, "policies", &make_call<PolicyCall<Op, BY_VALUE, A, 1, DEFAULT, B, 1, BY_VALUE>>});
    g.push_back({p, "policies", &make_call<PolicyCall<Op, BY_VALUE, A, 2, NEVER, B, 0, IN_MASK>>});
    g.push_back({p, "policies", &make_call<PolicyCall<Op, NEVER, A, 2, IN_MASK, B, 2, BY_VALUE>>});
    g.push_back({p, "policies", &make_call<PolicyCall<Op, DEFAULT, A, 0, BY_VALUE, B, 2, IN_MASK>>});
    g.push_back({p, "policies", &make_call<PolicyCall<Op, NEVER, A, 1, DEFAULT, B, 1, DEFAULT>>});
    g.push_back({p, "policies", &make_call<PolicyCall<Op, BY_VALUE, A, 0, DEFAULT, B, 0, BY_VALUE>>});
}

template<class Op> void reg_arith() {
    reg_binary<Op, Real, int32_t, int32_t>(P);
    reg_binary<Op, Real, uint8_t, uint8_t>(P);
    reg_binary<Op, Real, int64_t, int64_t>(P);
    reg_binary<Op, Real, float, float>(P);
    reg_binary<Op, Real, double, double>(P);
}
template<class Op> void reg_arith2() {
    reg_binary<Op, Real, int32_t, double>(P);
    reg_binary<Op, Real, double, float>(P);
    reg_binary<Op, Real, int8_t, int16_t>(P);
    reg_binary<Op, Real, uint16_t, uint32_t>(P);
    reg_binary<Op, Real, int32_t, uint32_t>(P);
    reg_binary<Op, Real, uint8_t, int32_t>(P);
}
template<class Op> void reg_arith3() {
    reg_binary<Op, Plain, int32_t, int32_t>(P);
    reg_binary<Op, Plain, int32_t, double>(P);
    reg_binary<Op, Plain, float, float>(P);
}
template<class Op> void reg_compare() {
    reg_binary<Op, Real, int32_t, int32_t>(P);
    reg_binary<Op, Real, int32_t, double>(P);
    reg_binary<Op, Real, uint8_t, int64_t>(P);
    reg_binary<Op, Plain, float, double>(P);
}
template<class Op> void reg_boole() {
    reg_binary<Op, Real, bool, bool>(P);
    reg_binary<Op, Real, int32_t, uint8_t>(P);
    reg_binary<Op, Plain, bool, int32_t>(P);
}
template<class Op> void reg_float() {
    reg_unary<Op, Real, float>(P);
    reg_unary<Op, Real, double>(P);
    reg_unary<Op, Plain, double>(P);
}

static bool const registered = [] {
#if PART == 1
    reg_arith<Add>();
#elif PART == 2
    reg_arith<Subtract>();
#elif PART == 3
    reg_arith<Multiply>();
#elif PART == 4
    reg_arith<Divide>();
#elif PART == 5
    reg_arith2<Add>();
#elif PART == 6
    reg_arith2<Subtract>();
#elif PART == 7
    reg_arith2<Multiply>();
#elif PART == 8
    reg_arith2<Divide>();
#elif PART == 9
    reg_arith3<Add>();
    reg_arith3<Subtract>();
#elif PART == 10
    reg_arith3<Multiply>();
    reg_arith3<Divide>();
#elif PART == 11
    reg_compare<Less>();
    reg_compare<Greater>();
#elif PART == 12
    reg_compare<LessEqual>();
    reg_compare<GreaterEqual>();
#elif PART == 13
    reg_binary<Equal, Real, int32_t, int32_t>(P);
    reg_binary<Equal, Real, double, double>(P);
    reg_binary<Equal, Plain, uint8_t, uint8_t>(P);
    reg_binary<Pow, Real, double, double>(P);
    reg_binary<Pow, Real, float, float>(P);
    reg_binary<Pow, Plain, double, double>(P);
#elif PART == 14
    reg_boole<And>();
    reg_boole<Or>();
    reg_boole<Xor>();
#elif PART == 15
    reg_boole<Nor>();
    reg_boole<Xnor>();
    reg_unary<Not, Real, bool>(P);
    reg_unary<Not, Real, int32_t>(P);
    reg_unary<Not, Plain, uint8_t>(P);
    reg_unary<Absolute, Real, int8_t>(P);
    reg_unary<Absolute, Real, int64_t>(P);
    reg_unary<Absolute, Real, float>(P);
    reg_unary<Absolute, Plain, int32_t>(P);
#elif PART == 16
    reg_float<Ceil>();
    reg_float<Floor>();
    reg_float<Round>();
    reg_float<Trunc>();
    reg_float<Sqrt>();
    reg_float<Log>();
    reg_float<Log10>();
    reg_float<Log2>();
#elif PART == 17
    reg_float<Tgamma>();
    reg_float<Cos>();
    reg_float<Sin>();
    reg_float<Tan>();
    reg_float<Acos>();
    reg_float<Asin>();
    reg_float<Atan>();
#elif PART == 18
    reg_float<Factorial>();
    reg_unary<Factorial, Real, int32_t>(P);
    reg_unary<Factorial, Real, uint8_t>(P);
    reg_unary<Factorial, Plain, int64_t>(P);
    registry().push_back({P, "defined", &make_call<DefinedCall<bool, 0>>});
    registry().push_back({P, "defined", &make_call<DefinedCall<bool, 1>>});
    registry().push_back({P, "defined", &make_call<DefinedCall<uint8_t, 2>>});
    registry().push_back({P, "n_ary", &make_call<NAryCall<int32_t, 0>>});
    registry().push_back({P, "n_ary", &make_call<NAryCall<int32_t, 1>>});
    registry().push_back({P, "n_ary", &make_call<NAryCall<double, 2>>});
    registry().push_back({P, "containers", &make_call<Vectors>});
    registry().push_back({P, "containers", &make_call<Arrays<1>>});
    registry().push_back({P, "containers", &make_call<Arrays<2>>});
    registry().push_back({P, "containers", &make_call<Rasters>});
#elif PART == 19
    reg_policies<Add, int32_t, int32_t>(P);
    reg_policies<Multiply, int16_t, uint8_t>(P);
    reg_policies<Divide, double, float>(P);
    registry().push_back({P, "policies", &make_call<PolicyCall<Less, BY_VALUE, uint8_t, 2, DEFAULT, double, 2, IN_MASK>>});
    registry().push_back({P, "policies", &make_call<PolicyCall<Or, DEFAULT, int8_t, 1, NEVER, uint8_t, 0, IN_MASK>>});
    reg_binary<Partly<Add, true, false>, Real, int16_t, int16_t>(P);
    reg_binary<Partly<Multiply, true, false>, Real, double, double>(P);
    reg_binary<Partly<Subtract, true, false>, Real, uint32_t, uint32_t>(P);
    reg_binary<Partly<Divide, true, false>, Real, double, float>(P);
    reg_binary<Partly<Divide, false, true>, Real, double, double>(P);
#endif
    return true;
}();
