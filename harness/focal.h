// Calls of the focal operations, and what they are compared with.
#pragma once
#include "local.h"
#include "fern/algorithm/algebra/vector/gradient.h"
#include "fern/algorithm/algebra/vector/laplacian.h"
#include "fern/algorithm/algebra/vector/lax.h"
#include "fern/algorithm/convolution/convolve.h"
#include "fern/algorithm/convolution/neighborhood/kernel_traits.h"
#include "fern/algorithm/convolution/neighborhood/square_traits.h"
#include "fern/algorithm/space/focal/slope.h"

namespace alg {

// A masked raster: a masked array with cells of a given size.
template<class T> struct RasterBox {
    using V = fern::MaskedRaster<T, 2>;
    using M = fern::Mask<2>;
    V v;
    Shape s;
    bool hot = false;
    explicit RasterBox(Shape sh, double width = 1, double height = 1)
        : v(fern::extents[static_cast<fern::Index>(sh.n0)][static_cast<fern::Index>(sh.n1)], typename V::Transformation{{0.0, width, 0.0, height}}, T()), s(sh) {}
    V& val() { return v; }
    M& msk() { return v.mask(); }
    T* data() { return v.data(); }
    bool* marks() { return v.mask().data(); }
    size_t size() const { return s.size(); }
    Shape shape() const { return s; }
};

// What is expected of a cell, and the size of what was added up to get there.
template<class T> struct FocalWant { T v{}; State s = ANY; double scale = 0; };

template<class B, class T> void check_focal(Call const& c, B& b, std::vector<FocalWant<T>> const& want, bool masked) {
    for(size_t i = 0; i < b.size(); ++i) {
        T v = b.data()[i];
        bool m = b.marks()[i];
        FocalWant<T> const& w = want[i];
        if(w.s == ANY) continue;
        std::string cell = "cell " + std::to_string(i / b.shape().n1) + "," + std::to_string(i % b.shape().n1);
        if(!masked && m) wrong(c, "wrongly-no-data", cell + ": mask changed though no-data is not to be marked");
        if(masked && m && w.s != NO_DATA) wrong(c, "wrongly-no-data", cell + ": marked as no-data, expected " + str(w.v));
        if(masked && !m && w.s == NO_DATA) wrong(c, "not-marked-no-data", cell + ": not marked as no-data, value " + str(v));
        if(w.s == VALID && !close(v, w.v, w.scale)) wrong(c, "wrong-value", cell + ": " + str(v) + ", expected " + str(w.v));
    }
}

template<class T> T image_value(sim::Rng& r, bool tame) {
    if(tame || r.chance(0.9)) return static_cast<T>(static_cast<double>(r.range(-800, 800)) / 8.0);
    switch(r.below(3)) {
        case 0: return std::numeric_limits<T>::max() / static_cast<T>(1 + r.below(6));
        case 1: return -std::numeric_limits<T>::max() / static_cast<T>(1 + r.below(6));
        default: return static_cast<T>(r.real());
    }
}

// What an image's cell, or its surroundings, provide.
template<class T> struct Image {
    T const* v;
    bool const* m;     // No-data, or none.
    long n0, n1;
    bool inside(long r, long c) const { return r >= 0 && c >= 0 && r < n0 && c < n1; }
    bool valid(long r, long c) const { return !m || !m[r * n1 + c]; }
    T at(long r, long c) const { return v[r * n1 + c]; }
    // Mean of the valid cells around a position, itself excluded.
    bool around(long r, long c, long double& mean, long double& size) const {
        long double sum = 0;
        long n = 0;
        for(long i = r - 1; i <= r + 1; ++i) for(long j = c - 1; j <= c + 1; ++j) if((i != r || j != c) && inside(i, j) && valid(i, j)) { sum += at(i, j); size = std::max(size, std::fabs((long double)at(i, j)) * 9); ++n; }
        if(n) mean = sum / n;
        return n > 0;
    }
};

// ---- convolution --------------------------------------------------------------------
// Bits: replace no-data by focal average, divide by weights, replace out of
// image by focal average, replace the no-data focus, check the range.
enum { AVERAGE_NO_DATA = 1, DIVIDE = 2, AVERAGE_OUTSIDE = 4, REPLACE_FOCUS = 8, CHECK_RANGE = 16 };

struct Rule { long double sum = 0, weights = 0, magnitude = 0, weight_magnitude = 0, averaged = 0; bool seen = false, kept_no_data = false; };
template<class T, class W> Rule convolve_cell(Image<T> const& im, long row, long col, long radius, std::vector<W> const& weights, int policy) {
    Rule u;
    if(!(policy & REPLACE_FOCUS) && !im.valid(row, col)) { u.kept_no_data = true; return u; }
    long const n = 2 * radius + 1;
    for(long i = 0; i < n; ++i) for(long j = 0; j < n; ++j) {
        long double w = weights[size_t(i * n + j)];
        if(w == 0) continue;
        long r = row + i - radius, c = col + j - radius;
        long double v;
        if(!im.inside(r, c)) { if(!(policy & AVERAGE_OUTSIDE) || !im.around(r, c, v, u.averaged)) continue; }
        else if(!im.valid(r, c)) { if(!(policy & AVERAGE_NO_DATA) || !im.around(r, c, v, u.averaged)) continue; }
        else v = im.at(r, c);
        u.sum += v * w;
        u.magnitude += std::fabs(v * w);
        u.weights += w;
        u.weight_magnitude += std::fabs(w);
        u.seen = true;
    }
    return u;
}
template<class T, class R> FocalWant<R> convolved(Rule const& u, int policy) {
    FocalWant<R> w;
    if(u.kept_no_data || !u.seen) { w.s = NO_DATA; return w; }
    long double const top = std::min<long double>(std::numeric_limits<T>::max(), std::numeric_limits<R>::max());
    if(std::fabs(u.sum) > 2.0L * std::numeric_limits<R>::max() && std::fabs(u.sum) > 2.0L * std::numeric_limits<T>::max()) {
        w.s = policy & CHECK_RANGE ? NO_DATA : ANY;
        return w;
    }
    if(std::max(u.magnitude, u.averaged) > top / 4) return w;
    long double v = u.sum, scale = u.magnitude;
    if(policy & DIVIDE) {
        // Weights that cancel out: not defined.
        if(std::fabs(u.weights) < 1e-6L * u.weight_magnitude) return w;
        v /= u.weights;
        scale /= std::fabs(u.weights);
        if(scale > top / 4) return w;
    }
    w.v = static_cast<R>(v);
    w.s = VALID;
    w.scale = static_cast<double>(scale) * (std::is_same<T, float>::value && !std::is_same<R, float>::value ? 2e6 : 1);   // Rounded to float underway.
    return w;
}

template<class W> struct RuntimeKernel {
    using value = W;
    static constexpr char const* name = "kernel";
    std::unique_ptr<fern::Kernel<W>> k;
    long radius;
    RuntimeKernel(sim::Rng& r) : radius(r.chance(0.45) ? 1 : r.chance(0.6) ? 2 : 3) { k = std::make_unique<fern::Kernel<W>>(size_t(radius), W(0)); }
    W& at(size_t i) { return k->weight(i); }
    fern::Kernel<W>& get() { return *k; }
};
template<class W, size_t RAD> struct SquareKernel {
    using value = W;
    static constexpr char const* name = "square";
    static fern::Square<W, RAD> make() {
        if constexpr(RAD == 1) return fern::Square<W, 1>({{0, 0, 0}, {0, 0, 0}, {0, 0, 0}});
        else if constexpr(RAD == 2) return fern::Square<W, 2>({{0, 0, 0, 0, 0}, {0, 0, 0, 0, 0}, {0, 0, 0, 0, 0}, {0, 0, 0, 0, 0}, {0, 0, 0, 0, 0}});
        else return fern::Square<W, 3>({{0, 0, 0, 0, 0, 0, 0}, {0, 0, 0, 0, 0, 0, 0}, {0, 0, 0, 0, 0, 0, 0}, {0, 0, 0, 0, 0, 0, 0}, {0, 0, 0, 0, 0, 0, 0}, {0, 0, 0, 0, 0, 0, 0}, {0, 0, 0, 0, 0, 0, 0}});
    }
    fern::Square<W, RAD> k;
    long radius = RAD;
    SquareKernel(sim::Rng&) : k(make()) {}
    W& at(size_t i) { return k.weight(i); }
    fern::Square<W, RAD>& get() { return k; }
};

template<class K> std::vector<typename K::value> fill_kernel(K& k, sim::Rng& r) {
    using W = typename K::value;
    size_t n = size_t(2 * k.radius + 1) * size_t(2 * k.radius + 1);
    uint64_t const style = r.below(8);
    size_t const one = r.below(n);
    std::vector<W> w;
    for(size_t i = 0; i < n; ++i) {
        double x;
        if(style == 0) x = 1;
        else if(style == 1) x = i == one;
        else if(style == 2) x = r.chance(0.2) ? double(r.range(1, 9)) : 0;
        else if(style == 3 && r.chance(0.1)) x = 0;
        else if(style == 4) x = double(r.range(-5, 5));
        else x = r.chance(0.15) ? 0 : double(r.range(1, 9));
        if(style == 5 && std::is_floating_point<W>::value) x /= 8;
        W y = static_cast<W>(x);
        k.at(i) = y;
        w.push_back(y);
    }
    return w;
}

inline std::string policy_name(int p) {
    std::string s;
    if(p & AVERAGE_NO_DATA) s += " averaged no-data";
    if(p & DIVIDE) s += " divided";
    if(p & AVERAGE_OUTSIDE) s += " averaged border";
    if(p & REPLACE_FOCUS) s += " replaced focus";
    if(p & CHECK_RANGE) s += " checked";
    return s;
}

template<class K, class Fam, class T, class R, int P> struct ConvolveCall: Call {
    using W = typename K::value;
    K k;
    Shape s;
    std::shared_ptr<Box<T, 2>> a;
    Box<R, 2> r;
    std::vector<FocalWant<R>> want;
    explicit ConvolveCall(sim::Rng& rng) : k(rng), s(make_shape(rng, 2, size_t(2 * k.radius + 1), size_t(2 * k.radius + 1))), a(std::make_shared<Box<T, 2>>(s)), r(s) {
        bool const tame = !Fam::masked || rng.chance(0.7);
        fill_box(*a, rng, 2, Fam::masked, [tame](sim::Rng& g) { return image_value<T>(g, tame); });
        auto w = fill_kernel(k, rng);
        Image<T> im{a->data(), Fam::masked ? a->marks() : nullptr, long(s.n0), long(s.n1)};
        for(long i = 0; i < im.n0; ++i) for(long j = 0; j < im.n1; ++j) {
            want.push_back(convolved<T, R>(convolve_cell(im, i, j, k.radius, w, P), P));
            if(!Fam::masked && want.back().s == NO_DATA) want.back().s = ANY;
        }
        name = std::string("convolve ") + Fam::name + policy_name(P) + " " + K::name + " of " + TypeName<W>::name + " radius " + std::to_string(k.radius) + " "
            + TypeName<T>::name + " to " + TypeName<R>::name + " " + shape_name(2, s);
    }
    void clear() override { make_stale(r); }
    void run(Exec& e) override {
        with_exec(e, [this](auto& ep) {
            if constexpr(Fam::masked) {
                using In = typename Fam::template In<Box<T, 2>>;
                typename Fam::template Out<Box<R, 2>> out(r.msk(), true);
                fa::InputNoDataPolicies<In> in{Fam::in(*a)};
                using A = std::conditional_t<(P & AVERAGE_NO_DATA) != 0, fa::convolve::ReplaceNoDataByFocalAverage, fa::convolve::SkipNoData>;
                using N = std::conditional_t<(P & DIVIDE) != 0, fa::convolve::DivideByWeights, fa::convolve::DontDivideByWeights>;
                using O = std::conditional_t<(P & AVERAGE_OUTSIDE) != 0, fa::convolve::ReplaceOutOfImageByFocalAverage, fa::convolve::SkipOutOfImage>;
                using F = std::conditional_t<(P & REPLACE_FOCUS) != 0, fa::convolve::ReplaceNoDataFocusElement, fa::convolve::KeepNoDataFocusElement>;
                if constexpr((P & CHECK_RANGE) != 0)
                    fa::convolution::convolve<A, N, O, F, fa::convolve::OutOfRangePolicy>(in, out, ep, a->val(), k.get(), r.val());
                else
                    fa::convolution::convolve<A, N, O, F, fa::unary::DiscardRangeErrors>(in, out, ep, a->val(), k.get(), r.val());
            }
            else fa::convolution::convolve(ep, a->val(), k.get(), r.val());
        });
    }
    void check() override { check_focal(*this, r, want, Fam::masked); }
    void protect() override { protect_box(*a, "the image"); }
};
template<class K, class Fam, class T, class R, int P> void reg_convolve(char const* prop) {
    registry().push_back({prop, "convolve", &make_call<ConvolveCall<K, Fam, T, R, P>>});
}
constexpr int DEFAULT_POLICY = DIVIDE;   // What the plain overload uses.

// ---- slope, gradient, laplacian, Lax -------------------------------------------------
// Op: name, MIN0/MIN1 (smallest extents), masked(...), plain(...), cell(image, row, col, width, height, fraction) -> FocalWant
template<class Op, class Fam, class T> struct VectorCall: Call {
    Shape s;
    double width, height;
    T fraction;
    std::shared_ptr<RasterBox<T>> a;
    RasterBox<T> r;
    std::vector<FocalWant<T>> want;
    VectorCall(VectorCall const& o) : Call(o), s(o.s), width(o.width), height(o.height), fraction(o.fraction), a(o.a), r(o.s, o.width, o.height), want(o.want) {}
    std::unique_ptr<Call> sibling() const override { return std::make_unique<VectorCall>(*this); }
    explicit VectorCall(sim::Rng& rng)
        : s(make_shape(rng, 2, Op::MIN, Op::MIN)), width(double(rng.range(1, 12)) / 4), height(double(rng.range(1, 12)) / 4), fraction(static_cast<T>(double(rng.range(0, 16)) / 16)),
          a(std::make_shared<RasterBox<T>>(s, width, height)), r(s, width, height) {
        bool const tame = !Fam::masked || rng.chance(0.7);
        fill_box(*a, rng, 2, Fam::masked, [tame](sim::Rng& g) { return image_value<T>(g, tame); });
        Image<T> im{a->data(), Fam::masked ? a->marks() : nullptr, long(s.n0), long(s.n1)};
        for(long i = 0; i < im.n0; ++i) for(long j = 0; j < im.n1; ++j) {
            FocalWant<T> w;
            if(!im.valid(i, j)) w.s = NO_DATA;
            else w = Op::cell(im, i, j, width, height, fraction);
            if(!Fam::masked && w.s == NO_DATA) w.s = ANY;
            want.push_back(w);
        }
        name = std::string(Op::name) + " " + Fam::name + " " + TypeName<T>::name + " " + shape_name(2, s);
    }
    void clear() override { make_stale(r); }
    void run(Exec& e) override {
        with_exec(e, [this](auto& ep) {
            if constexpr(Fam::masked) {
                using In = typename Fam::template In<RasterBox<T>>;
                typename Fam::template Out<RasterBox<T>> out(r.msk(), true);
                fa::InputNoDataPolicies<In> in{Fam::in(*a)};
                Op::masked(in, out, ep, a->val(), fraction, r.val());
            }
            else Op::plain(ep, a->val(), fraction, r.val());
        });
    }
    void check() override { check_focal(*this, r, want, Fam::masked); }
    void protect() override { protect_box(*a, "the raster"); }
};

template<class T> FocalWant<T> focal_result(long double v, long double scale, long double top = std::numeric_limits<T>::max() / 4) {
    FocalWant<T> w;
    if(scale > top) return w;
    w.v = static_cast<T>(v);
    w.s = VALID;
    w.scale = static_cast<double>(scale);
    return w;
}

template<int DR, int DC, class T> FocalWant<T> gradient_cell(Image<T> const& im, long i, long j, long double size) {
    bool before = im.inside(i - DR, j - DC) && im.valid(i - DR, j - DC), after = im.inside(i + DR, j + DC) && im.valid(i + DR, j + DC);
    if(!before && !after) return focal_result<T>(0, 0);
    long double x = before ? im.at(i - DR, j - DC) : im.at(i, j), y = after ? im.at(i + DR, j + DC) : im.at(i, j);
    long double d = before && after ? 2 * size : size;
    return focal_result<T>((y - x) / d, (std::fabs(x) + std::fabs(y)) / std::min<long double>(d, 1), std::numeric_limits<T>::max() / 8);
}
struct GradientX {
    static constexpr char const* name = "gradient_x";
    static constexpr size_t MIN = 0;
    template<class I, class O, class E, class V, class F, class R> static void masked(I const& i, O& o, E& e, V const& v, F, R& r) { fa::algebra::gradient_x(i, o, e, v, r); }
    template<class E, class V, class F, class R> static void plain(E& e, V const& v, F, R& r) { fa::algebra::gradient_x(e, v, r); }
    template<class T> static FocalWant<T> cell(Image<T> const& im, long i, long j, double w, double, T) { return gradient_cell<0, 1>(im, i, j, w); }
};
struct GradientY {
    static constexpr char const* name = "gradient_y";
    static constexpr size_t MIN = 0;
    template<class I, class O, class E, class V, class F, class R> static void masked(I const& i, O& o, E& e, V const& v, F, R& r) { fa::algebra::gradient_y(i, o, e, v, r); }
    template<class E, class V, class F, class R> static void plain(E& e, V const& v, F, R& r) { fa::algebra::gradient_y(e, v, r); }
    template<class T> static FocalWant<T> cell(Image<T> const& im, long i, long j, double, double h, T) { return gradient_cell<1, 0>(im, i, j, h); }
};
inline std::vector<double> round_kernel() { return {2, 3, 2, 3, 0, 3, 2, 3, 2}; }
struct LaplacianOp {
    static constexpr char const* name = "laplacian";
    static constexpr size_t MIN = 3;
    template<class I, class O, class E, class V, class F, class R> static void masked(I const& i, O& o, E& e, V const& v, F, R& r) { fa::algebra::laplacian<fa::unary::DiscardRangeErrors>(i, o, e, v, r); }
    template<class E, class V, class F, class R> static void plain(E& e, V const& v, F, R& r) { fa::algebra::laplacian(e, v, r); }
    template<class T> static FocalWant<T> cell(Image<T> const& im, long i, long j, double w, double h, T) {
        Rule u = convolve_cell(im, i, j, 1, round_kernel(), 0);
        if(!u.seen) { FocalWant<T> x; x.s = NO_DATA; return x; }
        long double area = (long double)w * h, v = im.at(i, j);
        return focal_result<T>((u.sum - u.weights * v) / area, (u.magnitude + u.weights * std::fabs(v)) / std::min<long double>(area, 1), std::numeric_limits<T>::max() / 16);
    }
};
struct LaxOp {
    static constexpr char const* name = "lax";
    static constexpr size_t MIN = 3;
    template<class I, class O, class E, class V, class F, class R> static void masked(I const& i, O& o, E& e, V const& v, F f, R& r) { fa::algebra::lax(i, o, e, v, f, r); }
    template<class E, class V, class F, class R> static void plain(E& e, V const& v, F f, R& r) { fa::algebra::lax(e, v, f, r); }
    template<class T> static FocalWant<T> cell(Image<T> const& im, long i, long j, double, double, T f) {
        Rule u = convolve_cell(im, i, j, 1, round_kernel(), 0);
        if(!u.seen) { FocalWant<T> x; x.s = NO_DATA; return x; }
        long double v = im.at(i, j);
        return focal_result<T>((1 - (long double)f) * v + f * u.sum / u.weights, u.magnitude + std::fabs(v), std::numeric_limits<T>::max() / 16);
    }
};
struct SlopeOp {
    static constexpr char const* name = "slope";
    static constexpr size_t MIN = 3;
    template<class I, class O, class E, class V, class F, class R> static void masked(I const& i, O& o, E& e, V const& v, F, R& r) { fa::space::slope<fa::unary::DiscardRangeErrors>(i, o, e, v, r); }
    template<class E, class V, class F, class R> static void plain(E& e, V const& v, F, R& r) { fa::space::slope(e, v, r); }
    template<class T> static FocalWant<T> cell(Image<T> const& im, long i, long j, double w, double h, T) {
        std::vector<double> const kx{1, 0, -1, 2, 0, -2, 1, 0, -1}, ky{-1, -2, -1, 0, 0, 0, 1, 2, 1};
        int const p = AVERAGE_NO_DATA | AVERAGE_OUTSIDE;
        Rule x = convolve_cell(im, i, j, 1, kx, p), y = convolve_cell(im, i, j, 1, ky, p);
        long double dx = x.sum / (8 * w), dy = y.sum / (8 * h);
        long double scale = (x.magnitude / w + y.magnitude / h) / 8;
        long double top = std::sqrt((long double)std::numeric_limits<T>::max()) / 64;
        if(std::max(x.averaged, y.averaged) > top) return FocalWant<T>();
        return focal_result<T>(std::sqrt(dx * dx + dy * dy), scale, top);
    }
};
template<class Op, class Fam, class T> void reg_vector(char const* prop) {
    registry().push_back({prop, Op::name, &make_call<VectorCall<Op, Fam, T>>});
}

} // namespace alg
