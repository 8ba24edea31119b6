// Calls of unary and binary local operations, and what they are compared with.
#pragma once
#include "alg.h"
#include "fern/algorithm/algebra/elementary.h"
#include "fern/algorithm/algebra/boole.h"
#include "fern/algorithm/trigonometry/acos.h"
#include "fern/algorithm/trigonometry/asin.h"
#include "fern/algorithm/trigonometry/atan.h"
#include "fern/algorithm/trigonometry/cos.h"
#include "fern/algorithm/trigonometry/sin.h"
#include "fern/algorithm/trigonometry/tan.h"

namespace alg {

#define FA_COMMA ,
inline char const* const dims_name[] = {"0d", "1d", "2d"};

// An operation Op provides
//   name, exact
//   R<A>                          the value type of the result
//   masked(in, out, e, a, r), plain(e, a, r)
//   eval(a, R& r) -> State        the reference
//   arg<A>(rng, tame)             values
template<class Op, class Fam, class A, int D> struct UnaryCall: Call {
    using R = typename Op::template R<A>;
    Shape s;
    std::shared_ptr<Box<A, D>> a_;
    Box<A, D>& a;
    Box<R, D> r;
    std::vector<Want<R>> want;
    UnaryCall(UnaryCall const& o) : Call(o), s(o.s), a_(o.a_), a(*a_), r(s), want(o.want) {}
    std::unique_ptr<Call> sibling() const override { return std::make_unique<UnaryCall>(*this); }
    explicit UnaryCall(sim::Rng& rng)
        : s(make_shape(rng, D)), a_(new Box<A, D>(s)), a(*a_), r(s) {
        fill_box(a, rng, D, Fam::masked, [](sim::Rng& g) { return Op::template arg<A>(g, !Fam::masked); });
        want.resize(a.size());
        for(size_t i = 0; i < a.size(); ++i) {
            if(a.marks()[i]) want[i].s = NO_DATA;
            else want[i].s = Op::eval(a.data()[i], want[i].v);
        }
        name = std::string(Op::name) + " " + Fam::name + " " + dims_name[D] + " " + TypeName<A>::name + " " + shape_name(D, s);
        nontrivial = a.size() > 1;
    }
    void clear() override { make_stale(r); }
    void run(Exec& e) override {
        with_exec(e, [this](auto& ep) {
            if constexpr(Fam::masked) {
                using In = typename Fam::template In<Box<A, D>>;
                typename Fam::template Out<Box<R, D>> out(r.msk(), true);
                fa::InputNoDataPolicies<In> in{Fam::in(a)};
                Op::masked(in, out, ep, a.val(), r.val());
            }
            else Op::plain(ep, a.val(), r.val());
        });
    }
    void check() override { check_box(*this, r, want, Fam::masked, Op::exact); }
    void protect() override { protect_box(a, "the argument"); }
};

template<class Op, class Fam, class A, int D1, class B, int D2> struct BinaryCall: Call {
    using R = typename Op::template R<A, B>;
    static constexpr int D = D1 > D2 ? D1 : D2;
    Shape s;
    std::shared_ptr<Box<A, D1>> a_;
    std::shared_ptr<Box<B, D2>> b_;
    Box<A, D1>& a;
    Box<B, D2>& b;
    Box<R, D> r;
    std::vector<Want<R>> want;
    BinaryCall(BinaryCall const& o) : Call(o), s(o.s), a_(o.a_), b_(o.b_), a(*a_), b(*b_), r(s), want(o.want) {}
    std::unique_ptr<Call> sibling() const override { return std::make_unique<BinaryCall>(*this); }
    explicit BinaryCall(sim::Rng& rng)
        : s(make_shape(rng, D)), a_(new Box<A, D1>(s)), b_(new Box<B, D2>(s)), a(*a_), b(*b_), r(s) {
        fill_box(a, rng, D1, Fam::masked, [](sim::Rng& g) { return Op::template first<A, B>(g, !Fam::masked); });
        fill_box(b, rng, D2, Fam::masked, [](sim::Rng& g) { return Op::template second<A, B>(g, !Fam::masked); });
        if(D1 == D2 && rng.chance(0.5)) {   // Equal elements for the comparisons.
            for(size_t i = 0; i < a.size(); ++i) if(rng.chance(0.3)) {
                B v = static_cast<B>(a.data()[i]);
                if(static_cast<A>(v) == a.data()[i] && Op::template second_ok<B>(v)) b.data()[i] = v;
            }
        }
        want.resize(r.size());
        for(size_t i = 0; i < r.size(); ++i) {
            size_t i1 = D1 == 0 ? 0 : i, i2 = D2 == 0 ? 0 : i;
            if(a.marks()[i1] || b.marks()[i2]) want[i].s = NO_DATA;
            else want[i].s = Op::eval(a.data()[i1], b.data()[i2], want[i].v);
        }
        name = std::string(Op::name) + " " + Fam::name + " " + dims_name[D1] + "," + dims_name[D2] + " "
            + TypeName<A>::name + "," + TypeName<B>::name + " " + shape_name(D, s);
        nontrivial = r.size() > 1;
    }
    void clear() override { make_stale(r); }
    void run(Exec& e) override {
        with_exec(e, [this](auto& ep) {
            if constexpr(Fam::masked) {
                using In1 = typename Fam::template In<Box<A, D1>>;
                using In2 = typename Fam::template In<Box<B, D2>>;
                typename Fam::template Out<Box<R, D>> out(r.msk(), true);
                fa::InputNoDataPolicies<In1, In2> in{Fam::in(a), Fam::in(b)};
                Op::masked(in, out, ep, a.val(), b.val(), r.val());
            }
            else Op::plain(ep, a.val(), b.val(), r.val());
        });
    }
    void check() override { check_box(*this, r, want, Fam::masked, Op::exact); }
    void protect() override { protect_box(a, "the first argument"); protect_box(b, "the second argument"); }
};

template<class C> std::unique_ptr<Call> make_call(sim::Rng& r) { return std::make_unique<C>(r); }

template<class Op, class Fam, class A> void reg_unary(char const* prop) {
    registry().push_back({prop, Op::name, &make_call<UnaryCall<Op, Fam, A, 0>>});
    registry().push_back({prop, Op::name, &make_call<UnaryCall<Op, Fam, A, 1>>});
    registry().push_back({prop, Op::name, &make_call<UnaryCall<Op, Fam, A, 2>>});
}
template<class Op, class Fam, class A, class B> void reg_binary(char const* prop) {
    registry().push_back({prop, Op::name, &make_call<BinaryCall<Op, Fam, A, 0, B, 0>>});
    registry().push_back({prop, Op::name, &make_call<BinaryCall<Op, Fam, A, 0, B, 1>>});
    registry().push_back({prop, Op::name, &make_call<BinaryCall<Op, Fam, A, 1, B, 0>>});
    registry().push_back({prop, Op::name, &make_call<BinaryCall<Op, Fam, A, 1, B, 1>>});
    registry().push_back({prop, Op::name, &make_call<BinaryCall<Op, Fam, A, 0, B, 2>>});
    registry().push_back({prop, Op::name, &make_call<BinaryCall<Op, Fam, A, 2, B, 0>>});
    registry().push_back({prop, Op::name, &make_call<BinaryCall<Op, Fam, A, 2, B, 2>>});
}

// ---- arithmetic ---------------------------------------------------------------------
template<class R> State fits(__int128 v, R& r) {
    r = static_cast<R>(v);
    return v >= static_cast<__int128>(std::numeric_limits<R>::min()) && v <= static_cast<__int128>(std::numeric_limits<R>::max()) ? VALID : NO_DATA;
}
template<class A, class B> constexpr bool both_int = std::is_integral<A>::value && std::is_integral<B>::value;
template<class A, class B> constexpr bool both_float = std::is_floating_point<A>::value && std::is_floating_point<B>::value;

// Integer with floating point: only values whose result is finite.
template<class A, class B, class T> T arith_value(sim::Rng& r, bool tame) {
    if(tame) return tame_value<T>(r);
    if constexpr(!both_int<A, B> && !both_float<A, B>) {
        if constexpr(std::is_integral<T>::value) return any_value<T>(r);
        else return static_cast<T>(static_cast<double>(r.range(-8000, 8000)) / 64.0);
    }
    else return any_value<T>(r);
}
// Signed and unsigned of the same largest size: the result type cannot hold all arguments.
template<class A, class B, class R> bool representable(A a, B b) {
    if constexpr(both_int<A, B>) {
        R x;
        return fits<R>(static_cast<__int128>(a), x) == VALID && fits<R>(static_cast<__int128>(b), x) == VALID;
    }
    else return true;
}

#define ALG_ARITH(NAME, FN, EXPR) \
struct NAME { \
    static constexpr char const* name = #FN; \
    static constexpr bool exact = true; \
    template<class A, class B> using R = fa::FN::result_value_type<A, B>; \
    template<class In, class Out, class E, class A, class B, class Rs> static void masked(In const& in, Out& out, E& e, A const& a, B const& b, Rs& r) { \
        fa::algebra::FN<fa::FN::OutOfRangePolicy>(in, out, e, a, b, r); } \
    template<class E, class A, class B, class Rs> static void plain(E& e, A const& a, B const& b, Rs& r) { fa::algebra::FN(e, a, b, r); } \
    template<class A, class B> static A first(sim::Rng& g, bool tame) { return arith_value<A, B, A>(g, tame); } \
    template<class A, class B> static B second(sim::Rng& g, bool tame) { return arith_value<A, B, B>(g, tame); } \
    template<class B> static bool second_ok(B) { return true; } \
    template<class A, class B, class Rs> static State eval(A a, B b, Rs& r) { \
        if(!representable<A, B, Rs>(a, b)) return ANY; \
        if constexpr(both_int<A, B>) { \
            __int128 x = a, y = b; \
            State s = fits<Rs>(EXPR, r); \
            /* The library's check is allowed to be this careful. */ \
            if(std::string(name) == "multiply" && s == VALID && std::is_signed<Rs>::value && r == std::numeric_limits<Rs>::min()) return ANY; \
            return s; \
        } \
        else { \
            Rs x = static_cast<Rs>(a), y = static_cast<Rs>(b); \
            r = EXPR; \
            return std::isfinite(r) ? VALID : NO_DATA; \
        } \
    } \
};
ALG_ARITH(Add, add, x + y)
ALG_ARITH(Subtract, subtract, x - y)
ALG_ARITH(Multiply, multiply, x * y)

struct Divide {
    static constexpr char const* name = "divide";
    static constexpr bool exact = true;
    template<class A, class B> using R = fa::divide::result_value_type<A, B>;
    template<class In, class Out, class E, class A, class B, class Rs> static void masked(In const& in, Out& out, E& e, A const& a, B const& b, Rs& r) {
        fa::algebra::divide<fa::divide::OutOfDomainPolicy, fa::divide::OutOfRangePolicy>(in, out, e, a, b, r); }
    template<class E, class A, class B, class Rs> static void plain(E& e, A const& a, B const& b, Rs& r) { fa::algebra::divide(e, a, b, r); }
    template<class A, class B> static A first(sim::Rng& g, bool tame) { return arith_value<A, B, A>(g, tame); }
    template<class A, class B> static B second(sim::Rng& g, bool tame) {
        for(;;) {
            if(!tame && g.chance(0.2)) return B(0);
            B b = arith_value<A, B, B>(g, tame);
            if(second_ok<B>(b)) return b;
        }
    }
    // Dividing the smallest integer by -1 is undefined in C++ and not checked by the library; see DESIGN.md.
    template<class B> static bool second_ok(B b) { return std::is_floating_point<B>::value ? b != B(0) : b != static_cast<B>(-1) && b != B(0); }
    template<class A, class B, class Rs> static State eval(A a, B b, Rs& r) {
        if(b == B(0)) return NO_DATA;
        if(!representable<A, B, Rs>(a, b)) return ANY;
        if constexpr(both_int<A, B>) return fits<Rs>(static_cast<__int128>(a) / static_cast<__int128>(b), r);
        else {
            r = static_cast<Rs>(a) / static_cast<Rs>(b);
            return std::isfinite(r) ? VALID : NO_DATA;
        }
    }
};

struct Pow {
    static constexpr char const* name = "pow";
    static constexpr bool exact = false;
    template<class A, class B> using R = A;
    template<class In, class Out, class E, class A, class B, class Rs> static void masked(In const& in, Out& out, E& e, A const& a, B const& b, Rs& r) {
        fa::algebra::pow<fa::pow::OutOfDomainPolicy, fa::pow::OutOfRangePolicy>(in, out, e, a, b, r); }
    template<class E, class A, class B, class Rs> static void plain(E& e, A const& a, B const& b, Rs& r) { fa::algebra::pow(e, a, b, r); }
    template<class A, class B> static A first(sim::Rng& g, bool tame) { return tame ? tame_value<A>(g) : any_value<A>(g); }
    template<class A, class B> static B second(sim::Rng& g, bool tame) { return tame ? tame_value<B>(g) : g.chance(0.5) ? static_cast<B>(g.range(-4, 4)) : any_value<B>(g); }
    template<class B> static bool second_ok(B) { return true; }
    template<class A, class B, class Rs> static State eval(A a, B b, Rs& r) {
        if(a < 0 && b != std::floor(b)) return NO_DATA;
        if(a == 0 && b < 0) return NO_DATA;
        r = std::pow(a, b);
        return std::isfinite(r) ? VALID : NO_DATA;
    }
};

// ---- comparisons and boolean operations ---------------------------------------------
#define ALG_LOGIC(NAME, TEXT, CALL, EXPR) \
struct NAME { \
    static constexpr char const* name = TEXT; \
    static constexpr bool exact = true; \
    template<class A, class B> using R = bool; \
    template<class In, class Out, class E, class A, class B, class Rs> static void masked(In const& in, Out& out, E& e, A const& a, B const& b, Rs& r) { \
        fa::algebra::CALL<>(in, out, e, a, b, r); } \
    template<class E, class A, class B, class Rs> static void plain(E& e, A const& a, B const& b, Rs& r) { fa::algebra::CALL(e, a, b, r); } \
    template<class T> static T value(sim::Rng& g) { \
        if constexpr(std::is_same<T, bool>::value) return g.chance(0.5); \
        else return g.chance(0.3) ? any_value<T>(g) : static_cast<T>(g.range(0, 3)); } \
    template<class A, class B> static A first(sim::Rng& g, bool) { return value<A>(g); } \
    template<class A, class B> static B second(sim::Rng& g, bool) { return value<B>(g); } \
    template<class B> static bool second_ok(B) { return true; } \
    template<class A, class B> static State eval(A a, B b, bool& r) { r = EXPR; return VALID; } \
};
ALG_LOGIC(Equal, "equal", equal, a == b)
ALG_LOGIC(Less, "less", less, a < b)
ALG_LOGIC(LessEqual, "less_equal", less_equal, a <= b)
ALG_LOGIC(Greater, "greater", greater, a > b)
ALG_LOGIC(GreaterEqual, "greater_equal", greater_equal, a >= b)
ALG_LOGIC(And, "and", and_, (a != A(0)) & (b != B(0)))
ALG_LOGIC(Or, "or", or_, (a != A(0)) | (b != B(0)))
ALG_LOGIC(Xor, "xor", xor_, (a != A(0)) != (b != B(0)))
ALG_LOGIC(Nor, "nor", nor, !((a != A(0)) | (b != B(0))))
ALG_LOGIC(Xnor, "xnor", xnor, (a != A(0)) == (b != B(0)))

// ---- unary --------------------------------------------------------------------------
#define ALG_UNARY(NAME, TEXT, RES, EXACT, MASKED, PLAIN, ARG, EVAL) \
struct NAME { \
    static constexpr char const* name = TEXT; \
    static constexpr bool exact = EXACT; \
    template<class A> using R = RES; \
    template<class In, class Out, class E, class A, class Rs> static void masked(In const& in, Out& out, E& e, A const& a, Rs& r) { MASKED(in, out, e, a, r); } \
    template<class E, class A, class Rs> static void plain(E& e, A const& a, Rs& r) { PLAIN(e, a, r); } \
    template<class A> static A arg(sim::Rng& g, bool tame) { (void)tame; return ARG; } \
    template<class A, class Rs> static State eval(A v, Rs& r) { EVAL } \
};
#define ALG_ROUND(NAME, FN) ALG_UNARY(NAME, #FN, A, true, fa::algebra::FN<>, fa::algebra::FN, \
    (g.chance(0.2) ? static_cast<A>(g.range(-9, 9)) + static_cast<A>(0.5) : any_value<A>(g)), r = std::FN(v); return VALID;)
ALG_ROUND(Ceil, ceil)
ALG_ROUND(Floor, floor)
ALG_ROUND(Round, round)
ALG_ROUND(Trunc, trunc)
ALG_UNARY(Not, "not", bool, true, fa::algebra::not_<>, fa::algebra::not_, (g.chance(0.5) ? A(0) : any_value<A>(g)), r = v == A(0); return VALID;)
ALG_UNARY(Absolute, "absolute", A, true, fa::algebra::absolute<fa::absolute::OutOfRangePolicy>, fa::algebra::absolute,
    tame ? tame_value<A>(g) : any_value<A>(g),
    if constexpr(std::is_integral<A>::value) return fits<Rs>(v < 0 ? -static_cast<__int128>(v) : static_cast<__int128>(v), r);
    else { r = v < 0 ? -v : v; return VALID; })
ALG_UNARY(Sqrt, "sqrt", A, false, fa::algebra::sqrt<fa::sqrt::OutOfDomainPolicy>, fa::algebra::sqrt,
    tame ? tame_value<A>(g) : any_value<A>(g), if(!(v >= 0)) return NO_DATA; r = std::sqrt(v); return VALID;)
// The logarithm of zero: domain and range disagree; left open.
#define ALG_LOG(NAME, FN) ALG_UNARY(NAME, #FN, A, false, fa::algebra::FN<fa::FN::OutOfDomainPolicy>, fa::algebra::FN, \
    tame ? tame_value<A>(g) : any_value<A>(g), if(v == 0) return ANY; if(!(v > 0)) return NO_DATA; r = std::FN(v); return VALID;)
ALG_LOG(Log, log)
ALG_LOG(Log10, log10)
ALG_LOG(Log2, log2)
ALG_UNARY(Tgamma, "tgamma", A, false, fa::algebra::tgamma<fa::tgamma::OutOfDomainPolicy FA_COMMA fa::tgamma::OutOfRangePolicy>, fa::algebra::tgamma,
    tame ? tame_value<A>(g) : g.chance(0.6) ? static_cast<A>(g.range(-16, 80)) / 4 : any_value<A>(g),
    if(v == 0) return NO_DATA;   /* +inf: out of range */
    if(v < 0 && v == std::floor(v)) return NO_DATA;
    r = std::tgamma(v);
    return std::isfinite(r) ? VALID : NO_DATA;)
ALG_UNARY(Factorial, "factorial", A, false, fa::algebra::factorial<fa::factorial::OutOfDomainPolicy FA_COMMA fa::factorial::OutOfRangePolicy>, fa::algebra::factorial,
    tame ? static_cast<A>(g.range(0, 5)) : g.chance(0.7) ? static_cast<A>(g.range(std::is_signed<A>::value ? -3 : 0, 30)) : any_value<A>(g),
    if(v < 0 || v != std::floor(static_cast<double>(v))) return NO_DATA;
    if(static_cast<double>(v) > 200) return NO_DATA;
    long double x = 1;
    for(int i = 2; i <= static_cast<int>(v); ++i) x *= i;
    if(x > static_cast<long double>(std::numeric_limits<A>::max())) return NO_DATA;
    r = static_cast<A>(x);
    return VALID;)
#define ALG_TRIG(NAME, FN, ARG, DOMAIN_ERROR) ALG_UNARY(NAME, #FN, A, false, fa::trigonometry::FN<fa::FN::OutOfDomainPolicy>, fa::trigonometry::FN, \
    ARG, if(DOMAIN_ERROR) return NO_DATA; r = std::FN(v); return VALID;)
template<class A> A angle(sim::Rng& g, bool tame) {
    if(tame) return static_cast<A>(g.real());
    switch(g.below(8)) {
        case 0: return std::numeric_limits<A>::infinity();
        case 1: return std::numeric_limits<A>::quiet_NaN();
        case 2: return -std::numeric_limits<A>::infinity();
        default: return static_cast<A>(static_cast<double>(g.range(-80, 80)) / 8.0);
    }
}
template<class A> A cosine(sim::Rng& g, bool tame) {
    if(tame) return static_cast<A>(g.real());
    switch(g.below(4)) {
        case 0: return static_cast<A>(g.range(-2, 2));
        case 1: return any_value<A>(g);
        default: return static_cast<A>(g.real() * 2.4 - 1.2);
    }
}
ALG_TRIG(Cos, cos, angle<A>(g, tame), !std::isfinite(v))
ALG_TRIG(Sin, sin, angle<A>(g, tame), !std::isfinite(v))
ALG_TRIG(Tan, tan, angle<A>(g, tame), !std::isfinite(v))
ALG_TRIG(Acos, acos, cosine<A>(g, tame), !(v >= -1 && v <= 1))
ALG_TRIG(Asin, asin, cosine<A>(g, tame), !(v >= -1 && v <= 1))
ALG_UNARY(Atan, "atan", A, false, fa::trigonometry::atan<>, fa::trigonometry::atan, any_value<A>(g), r = std::atan(v); return VALID;)

} // namespace alg
