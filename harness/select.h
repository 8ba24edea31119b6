// Calls of the selection, copying and no-data operations, and what they are compared with.
#pragma once
#include "local.h"
#include "fern/core/point.h"
#include "fern/core/data_customization_point/point.h"
#include "fern/core/data_type_traits/point.h"
#include "fern/algorithm/core/cast.h"
#include "fern/algorithm/core/clamp.h"
#include "fern/algorithm/core/compress.h"
#include "fern/algorithm/core/copy.h"
#include "fern/algorithm/core/cover.h"
#include "fern/algorithm/core/decompress.h"
#include "fern/algorithm/core/fill.h"
#include "fern/algorithm/core/if.h"
#include "fern/algorithm/core/intersect_no_data.h"
#include "fern/algorithm/core/merge_no_data.h"
#include "fern/algorithm/core/offset.h"
#include "fern/algorithm/core/unite_no_data.h"
#include <tuple>

namespace alg {

// An element-wise operation of any number of arguments.  Op provides
//   name
//   R                              value type of the result
//   fixed_exec                     does not take the run-time policy
//   marked(i)                      whether argument i may contain no-data
//   keeps                          results hold no-data of their own before the call
//   fill(rng, i)                   a value for argument i (of type T)
//   fix(args...)                   makes the values of one element acceptable
//   masked(in, out, e, args..., r), plain(e, args..., r)
//   eval(marks, values..., r)
template<class Op, class Fam, class... Bs> struct SelectCall: Call {
    using R = typename Op::R;
    static constexpr size_t N = sizeof...(Bs);
    template<class B> struct Rank;
    template<class T, int K> struct Rank<Box<T, K>> { static constexpr int value = K; using type = T; };
    static constexpr int D = std::max({Rank<Bs>::value...});
    Shape s;
    std::tuple<std::shared_ptr<Bs>...> a;
    Box<R, D> r;
    std::vector<char> before;        // The result's no-data before the call.
    std::vector<Want<R>> want;
    SelectCall(SelectCall const& o) : Call(o), s(o.s), a(o.a), r(s), before(o.before), want(o.want) {}
    std::unique_ptr<Call> sibling() const override { return std::make_unique<SelectCall>(*this); }
    explicit SelectCall(sim::Rng& rng) : SelectCall(rng, std::index_sequence_for<Bs...>()) {}
    template<size_t... I> SelectCall(sim::Rng& rng, std::index_sequence<I...>)
        : s(make_shape(rng, D)), a(std::make_shared<Bs>(s)...), r(s) {
        (fill_box(*std::get<I>(a), rng, Rank<Bs>::value, Fam::masked && Op::marked(I),
            [](sim::Rng& g) { return Op::template fill<typename Rank<Bs>::type>(g, I); }), ...);
        Op::fix(std::get<I>(a)->data()..., std::array<size_t, N>{std::get<I>(a)->size()...});
        if(Op::keeps) before = make_marks(rng, s, D);
        else before.assign(r.size(), 0);
        want.resize(r.size());
        for(size_t i = 0; i < r.size(); ++i) {
            bool m[] = {std::get<I>(a)->marks()[Rank<Bs>::value == 0 ? 0 : i]...};
            want[i].s = Op::eval(m, std::get<I>(a)->data()[Rank<Bs>::value == 0 ? 0 : i]..., want[i].v);
            if(before[i]) want[i].s = NO_DATA;
        }
        name = std::string(Op::name) + " " + Fam::name;
        ((name += std::string(I ? "," : " ") + dims_name[Rank<Bs>::value] + " " + TypeName<typename Rank<Bs>::type>::name), ...);
        name += " " + shape_name(D, s);
        nontrivial = r.size() > 1;
    }
    void clear() override {
        make_stale(r);
        for(size_t i = 0; i < r.size(); ++i) {
            r.marks()[i] = before[i];
            if(want[i].s == UNTOUCHED) want[i].v = r.data()[i];
        }
    }
    void run(Exec& e) override {
        if constexpr(Op::fixed_exec) with_fixed_exec(e, [this](auto& ep) { call(ep, std::index_sequence_for<Bs...>()); });
        else with_exec(e, [this](auto& ep) { call(ep, std::index_sequence_for<Bs...>()); });
    }
    template<class E, size_t... I> void call(E& ep, std::index_sequence<I...>) {
        if constexpr(Fam::masked) {
            typename Fam::template Out<Box<R, D>> out(r.msk(), true);
            fa::InputNoDataPolicies<typename Fam::template In<Bs>...> in{Fam::in(*std::get<I>(a))...};
            Op::masked(in, out, ep, std::get<I>(a)->val()..., r.val());
        }
        else Op::plain(ep, std::get<I>(a)->val()..., r.val());
    }
    void check() override { check_box(*this, r, want, Fam::masked, true); }
    void protect() override { std::apply([](auto&... b) { (protect_box(*b, "an argument"), ...); }, a); }
};

struct SelectOp {
    static constexpr bool fixed_exec = false, keeps = false;
    static constexpr bool marked(size_t) { return true; }
    template<class T> static T fill(sim::Rng& g, size_t) { return any_value<T>(g); }
    template<class... A> static void fix(A...) {}
};
#define ALG_FORWARD(FN) \
    template<class In, class Out, class... A> static void masked(In const& in, Out& out, A&&... a) { fa::core::FN<>(in, out, std::forward<A>(a)...); } \
    template<class... A> static void plain(A&&... a) { fa::core::FN(std::forward<A>(a)...); }

template<class C, class T> struct IfThen: SelectOp {
    static constexpr char const* name = "if_then";
    using R = T;
    template<class V> static V fill(sim::Rng& g, size_t i) { return i == 0 ? static_cast<V>(g.below(2) * (1 + g.below(2))) : any_value<V>(g); }
    ALG_FORWARD(if_)
    static State eval(bool const* m, C c, T t, T& r) {
        if(m[0] || !c || m[1]) return m[0] || m[1] ? NO_DATA : UNTOUCHED_OR_NO_DATA;
        r = t;
        return VALID;
    }
    static constexpr State UNTOUCHED_OR_NO_DATA = NO_DATA;
};
// Without policies, results of a false condition are left as they are.
template<class C, class T> struct IfThenPlain: IfThen<C, T> {
    static State eval(bool const*, C c, T t, T& r) {
        if(!c) return UNTOUCHED;
        r = t;
        return VALID;
    }
};
template<class C, class T> struct IfThenElse: IfThen<C, T> {
    static constexpr char const* name = "if_then_else";
    static State eval(bool const* m, C c, T t, T f, T& r) {
        if(m[0] || (c ? m[1] : m[2])) return NO_DATA;
        r = c ? t : f;
        return VALID;
    }
};
template<class T> struct Cover: SelectOp {
    static constexpr char const* name = "cover";
    using R = T;
    ALG_FORWARD(cover)
    static State eval(bool const* m, T a, T b, T& r) {
        if(m[0] && m[1]) return NO_DATA;
        r = m[0] ? b : a;
        return VALID;
    }
};
template<class T> struct Clamp: SelectOp {
    static constexpr char const* name = "clamp";
    using R = T;
    static constexpr bool marked(size_t i) { return i == 0; }
    template<class V> static V fill(sim::Rng& g, size_t i) { return i == 0 ? any_value<V>(g) : static_cast<V>(g.range(i == 1 ? -9 : 2, i == 1 ? 1 : 9)); }
    ALG_FORWARD(clamp)
    static State eval(bool const* m, T v, T lo, T hi, T& r) {
        if(m[0]) return NO_DATA;
        r = v < lo ? lo : v > hi ? hi : v;
        return VALID;
    }
};
// Masked: only casts whose range is checked by the library; see Casts for the others.
template<class A, class T, bool Checked> struct Cast: SelectOp {
    static constexpr char const* name = "cast";
    using R = T;
    template<class V> static V fill(sim::Rng& g, size_t) {
        if constexpr(Checked || std::is_same<A, bool>::value || std::is_floating_point<T>::value) return any_value<V>(g);
        else return static_cast<V>(g.range(0, 100)) + (std::is_floating_point<V>::value ? static_cast<V>(g.real()) : V(0));
    }
    template<class In, class Out, class E, class V, class Rs> static void masked(In const& in, Out& out, E& e, V const& v, Rs& r) {
        if constexpr(Checked) fa::core::cast<fa::cast::OutOfRangePolicy>(in, out, e, v, r);
        else fa::core::cast<fa::unary::DiscardRangeErrors>(in, out, e, v, r);
    }
    template<class E, class V, class Rs> static void plain(E& e, V const& v, Rs& r) { fa::core::cast(e, v, r); }
    static State eval(bool const* m, A v, T& r) {
        if(m[0]) return NO_DATA;
        r = static_cast<T>(v);
        return VALID;
    }
};
template<int KIND> struct NoData: SelectOp {   // 0 merge, 1 unite, 2 intersect
    static constexpr char const* name = KIND == 0 ? "merge_no_data" : KIND == 1 ? "unite_no_data" : "intersect_no_data";
    using R = double;
    static constexpr bool keeps = true;
    template<class In, class Out, class... A> static void masked(In const& in, Out& out, A&&... a) {
        if constexpr(KIND == 0) fa::core::merge_no_data<>(in, out, std::forward<A>(a)...);
        else if constexpr(KIND == 1) fa::core::unite_no_data<>(in, out, std::forward<A>(a)...);
        else fa::core::intersect_no_data<>(in, out, std::forward<A>(a)...);
    }
    template<class A> static State eval(bool const* m, A, double&) { return m[0] ? NO_DATA : UNTOUCHED; }
    template<class A, class B> static State eval(bool const* m, A, B, double&) { return (KIND == 1 ? m[0] || m[1] : m[0] && m[1]) ? NO_DATA : UNTOUCHED; }
};

// ---- fill ---------------------------------------------------------------------------
template<class T, int D, class Fam> struct FillCall: Call {
    Shape s;
    std::shared_ptr<Box<T, 0>> a;
    Box<T, D> r;
    std::vector<Want<T>> want;
    FillCall(FillCall const& o) : Call(o), s(o.s), a(o.a), r(s), want(o.want) {}
    std::unique_ptr<Call> sibling() const override { return std::make_unique<FillCall>(*this); }
    explicit FillCall(sim::Rng& rng) : s(make_shape(rng, D)), a(std::make_shared<Box<T, 0>>(Shape())), r(s) {
        a->v = any_value<T>(rng);
        if(Fam::masked) a->m = rng.chance(0.3);
        want.assign(r.size(), {a->v, a->m ? NO_DATA : VALID});
        name = std::string("fill ") + Fam::name + " " + dims_name[D] + " " + TypeName<T>::name + " " + shape_name(D, s) + (a->m ? " with no-data" : "");
    }
    void clear() override { make_stale(r); }
    void run(Exec& e) override {
        auto f = [this](auto& ep) {
            if constexpr(Fam::masked) {
                typename Fam::template Out<Box<T, D>> out(r.msk(), true);
                fa::InputNoDataPolicies<typename Fam::template In<Box<T, 0>>> in{Fam::in(*a)};
                fa::core::fill<>(in, out, ep, a->v, r.val());
            }
            else fa::core::fill(ep, a->v, r.val());
        };
        if constexpr(D == 2) with_exec(e, f);
        else with_fixed_exec(e, f);
    }
    void check() override { check_box(*this, r, want, Fam::masked, true); }
    void protect() override { protect_box(*a, "the argument"); }
};

// ---- copy of a range ----------------------------------------------------------------
template<class T, class Fam> struct CopyCall: Call {
    Shape s;
    std::shared_ptr<Box<T, 1>> a;
    Box<T, 1> r;
    size_t first, n, position;
    std::vector<Want<T>> want;
    CopyCall(CopyCall const& o) : Call(o), s(o.s), a(o.a), r(s), first(o.first), n(o.n), position(o.position), want(o.want) {}
    std::unique_ptr<Call> sibling() const override { return std::make_unique<CopyCall>(*this); }
    explicit CopyCall(sim::Rng& rng) : s(make_shape(rng, 1)), a(std::make_shared<Box<T, 1>>(s)), r(s) {
        fill_box(*a, rng, 1, Fam::masked, [](sim::Rng& g) { return any_value<T>(g); });
        first = rng.chance(0.3) ? 0 : rng.below(s.n0 + 1);
        n = rng.chance(0.1) ? 0 : rng.chance(0.3) ? s.n0 - first : rng.below(s.n0 - first + 1);
        position = rng.below(s.n0 - n + 1);
        want.assign(r.size(), {T(), UNTOUCHED});
        for(size_t i = 0; i < n; ++i) want[position + i] = {a->data()[first + i], a->marks()[first + i] ? NO_DATA : VALID};
        name = std::string("copy ") + Fam::name + " " + TypeName<T>::name + " [" + std::to_string(first) + "," + std::to_string(first + n) + ") of "
            + std::to_string(s.n0) + " to " + std::to_string(position);
        nontrivial = n > 1;
    }
    void clear() override {
        make_stale(r);
        for(size_t i = 0; i < r.size(); ++i) if(want[i].s == UNTOUCHED) want[i].v = r.data()[i];
    }
    void run(Exec& e) override {
        with_exec(e, [this](auto& ep) {
            fa::IndexRanges<1> range{fa::IndexRange(first, first + n)};
            fern::Point<size_t, 1> to{position};
            if constexpr(Fam::masked) {
                typename Fam::template Out<Box<T, 1>> out(r.msk(), true);
                fa::InputNoDataPolicies<typename Fam::template In<Box<T, 1>>> in{Fam::in(*a)};
                fa::core::copy<>(in, out, ep, a->val(), range, r.val(), to);
            }
            else fa::core::copy(ep, a->val(), range, r.val(), to);
        });
    }
    void check() override { check_box(*this, r, want, Fam::masked, true); }
    void protect() override { protect_box(*a, "the argument"); }
};

// ---- offset -------------------------------------------------------------------------
template<class T, int D, class Fam, bool Fill> struct OffsetCall: Call {
    Shape s;
    std::shared_ptr<Box<T, D>> a;
    Box<T, D> r;
    int64_t o0, o1 = 0;
    T fill_value;
    std::vector<Want<T>> want;
    OffsetCall(OffsetCall const& o) : Call(o), s(o.s), a(o.a), r(s), o0(o.o0), o1(o.o1), fill_value(o.fill_value), want(o.want) {}
    std::unique_ptr<Call> sibling() const override { return std::make_unique<OffsetCall>(*this); }
    static int64_t some(sim::Rng& g, size_t n) {
        switch(g.below(6)) {
            case 0: return 0;
            case 1: return g.range(-1, 1);
            case 2: return (g.chance(0.5) ? 1 : -1) * static_cast<int64_t>(n + g.below(3));
            case 3: return g.chance(0.5) ? 1000000 : -1000000;
            default: return g.range(-static_cast<int64_t>(n), static_cast<int64_t>(n));
        }
    }
    explicit OffsetCall(sim::Rng& rng) : s(make_shape(rng, D, 1, 1)), a(std::make_shared<Box<T, D>>(s)), r(s) {
        fill_box(*a, rng, D, Fam::masked, [](sim::Rng& g) { return any_value<T>(g); });
        o0 = some(rng, s.n0);
        if(D == 2) o1 = some(rng, s.n1);
        fill_value = any_value<T>(rng);
        want.resize(r.size());
        for(int64_t i = 0; i < int64_t(s.n0); ++i) for(int64_t j = 0; j < int64_t(s.n1); ++j) {
            int64_t si = i - o0, sj = j - o1;
            Want<T>& w = want[size_t(i) * s.n1 + size_t(j)];
            if(si < 0 || si >= int64_t(s.n0) || sj < 0 || sj >= int64_t(s.n1)) {
                w.s = Fill ? VALID : Fam::masked ? NO_DATA : UNTOUCHED;
                w.v = fill_value;
            }
            else {
                size_t k = size_t(si) * s.n1 + size_t(sj);
                w.s = a->marks()[k] ? NO_DATA : VALID;
                w.v = a->data()[k];
            }
        }
        name = std::string(Fill ? "offset with fill value " : "offset ") + Fam::name + " " + TypeName<T>::name + " " + shape_name(D, s)
            + " by " + std::to_string(o0) + (D == 2 ? "," + std::to_string(o1) : "");
        nontrivial = r.size() > 1;
    }
    void clear() override {
        make_stale(r);
        for(size_t i = 0; i < r.size(); ++i) if(want[i].s == UNTOUCHED) want[i].v = r.data()[i];
    }
    void run(Exec& e) override {
        with_exec(e, [this](auto& ep) {
            fern::Point<int64_t, D> off;
            fern::get<0>(off) = o0;
            if constexpr(D == 2) fern::get<1>(off) = o1;
            if constexpr(Fam::masked) {
                typename Fam::template Out<Box<T, D>> out(r.msk(), true);
                fa::InputNoDataPolicies<typename Fam::template In<Box<T, D>>> in{Fam::in(*a)};
                if constexpr(Fill) fa::core::offset<>(in, out, ep, a->val(), off, fill_value, r.val());
                else fa::core::offset<>(in, out, ep, a->val(), off, r.val());
            }
            else if constexpr(Fill) fa::core::offset(ep, a->val(), off, fill_value, r.val());
            else fa::core::offset(ep, a->val(), off, r.val());
        });
    }
    void check() override { check_box(*this, r, want, Fam::masked, true); }
    void protect() override { protect_box(*a, "the argument"); }
};

// ---- compress and decompress --------------------------------------------------------
template<class T, int D, class Fam> struct CompressCall: Call {
    Shape s;
    std::shared_ptr<Box<T, D>> a;
    Box<T, 1> r;
    size_t count = 0;
    std::vector<T> want;
    CompressCall(CompressCall const& o) : Call(o), s(o.s), a(o.a), r(Shape{s.size(), 1}), want(o.want) {}
    std::unique_ptr<Call> sibling() const override { return std::make_unique<CompressCall>(*this); }
    explicit CompressCall(sim::Rng& rng) : s(make_shape(rng, D)), a(std::make_shared<Box<T, D>>(s)), r(Shape{s.size(), 1}) {
        fill_box(*a, rng, D, Fam::masked, [](sim::Rng& g) { return any_value<T>(g); });
        for(size_t i = 0; i < s.size(); ++i) if(!a->marks()[i]) want.push_back(a->data()[i]);
        name = std::string("compress ") + Fam::name + " " + TypeName<T>::name + " " + shape_name(D, s);
        nontrivial = s.size() > 1;
    }
    void clear() override { make_stale(r); count = 777; }
    void run(Exec& e) override {
        with_exec(e, [this](auto& ep) {
            if constexpr(Fam::masked) {
                fa::InputNoDataPolicies<typename Fam::template In<Box<T, D>>> in{Fam::in(*a)};
                fa::core::compress<>(in, ep, a->val(), r.val(), count);
            }
            else fa::core::compress(ep, a->val(), r.val(), count);
        });
    }
    void check() override {
        if(count != want.size()) wrong(*this, "wrong-count", std::to_string(count) + " values, expected " + std::to_string(want.size()));
        for(size_t i = 0; i < count; ++i) if(!same(r.data()[i], want[i]))
            wrong(*this, "wrong-value", "element " + std::to_string(i) + ": " + str(r.data()[i]) + ", expected " + str(want[i]));
    }
    void protect() override { protect_box(*a, "the argument"); }
};
template<class T, int D, class Fam> struct DecompressCall: Call {
    Shape s;
    std::shared_ptr<Box<T, D>> pattern;    // Where no-data goes.
    std::shared_ptr<Box<T, 1>> a;
    Box<T, D> r;
    std::vector<Want<T>> want;
    DecompressCall(DecompressCall const& o) : Call(o), s(o.s), pattern(o.pattern), a(o.a), r(s), want(o.want) {}
    std::unique_ptr<Call> sibling() const override { return std::make_unique<DecompressCall>(*this); }
    explicit DecompressCall(sim::Rng& rng) : s(make_shape(rng, D)), pattern(std::make_shared<Box<T, D>>(s)), r(s) {
        fill_box(*pattern, rng, D, Fam::masked, [](sim::Rng& g) { return any_value<T>(g); });
        size_t n = 0;
        for(size_t i = 0; i < s.size(); ++i) n += !pattern->marks()[i];
        size_t spare = rng.chance(0.5) ? 0 : rng.below(s.size() - n + 1);
        a = std::make_shared<Box<T, 1>>(Shape{n + spare, 1});
        size_t k = 0;
        want.resize(s.size());
        for(size_t i = 0; i < s.size(); ++i) {
            if(pattern->marks()[i]) want[i].s = NO_DATA;
            else { want[i] = {pattern->data()[i], VALID}; a->data()[k++] = pattern->data()[i]; }
        }
        name = std::string("decompress ") + Fam::name + " " + TypeName<T>::name + " " + shape_name(D, s);
        nontrivial = s.size() > 1;
    }
    void clear() override { make_stale(r); }
    void run(Exec& e) override {
        with_exec(e, [this](auto& ep) {
            if constexpr(Fam::masked) {
                typename Fam::template Out<Box<T, D>> out(r.msk(), true);
                fa::InputNoDataPolicies<typename Fam::template In<Box<T, D>>> in{Fam::in(*pattern)};
                fa::core::decompress<>(in, out, ep, a->val(), r.val());
            }
            else fa::core::decompress(ep, a->val(), r.val());
        });
    }
    void check() override { check_box(*this, r, want, Fam::masked, true); }
    void protect() override { protect_box(*a, "the argument"); protect_box(*pattern, "the no-data pattern"); }
};

template<class C> void reg_call(char const* prop, char const* op) { registry().push_back({prop, op, &make_call<C>}); }
template<class Op, class Fam, class... Bs> void reg_select(char const* prop) { reg_call<SelectCall<Op, Fam, Bs...>>(prop, Op::name); }

} // namespace alg
