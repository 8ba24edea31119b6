// C06 .. C12: the algorithms under the simulator.  What all harness files share.
//
// A Call is one call of an algorithm with arguments made from the seed and the
// result a plain, independent reference computation expects.  The registry
// holds, per property, the ways to make one.
#pragma once
#include "driver.h"
#include "fern/core/data_customization_point/scalar.h"
#include "fern/core/data_customization_point/vector.h"
#include "fern/core/data_type_traits/scalar.h"
#include "fern/core/data_type_traits/vector.h"
#include "fern/feature/core/data_customization_point/array.h"
#include "fern/feature/core/data_customization_point/masked_array.h"
#include "fern/feature/core/data_customization_point/masked_raster.h"
#include "fern/feature/core/data_customization_point/masked_scalar.h"
#include "fern/feature/core/data_type_traits/array.h"
#include "fern/feature/core/data_type_traits/masked_array.h"
#include "fern/feature/core/data_type_traits/masked_raster.h"
#include "fern/feature/core/data_type_traits/masked_scalar.h"
#include "fern/algorithm/core/mask_customization_point/array.h"
#include "fern/algorithm/core/argument_customization_point/masked_raster.h"
#include "fern/algorithm/core/argument_traits/masked_raster.h"
#include "fern/algorithm/policy/policies.h"
#include "fern/algorithm/policy/execution_policy.h"
#include <cfenv>
#include <cmath>
#include <cstring>
#include <limits>
#include <memory>
#include <optional>
#include <string>
#include <type_traits>
#include <vector>

namespace alg {

namespace fa = fern::algorithm;

struct Quiet {
    Quiet() { sim::ignore_begin(); }
    ~Quiet() { sim::ignore_end(); }
    sim::NoAllocFaults no;
};

// ---- execution policies -------------------------------------------------------------
enum ExecKind { SEQ, PAR, VAR_SEQ, VAR_PAR, EXEC_NR };
char const* exec_name(int kind);

struct Exec {
    int kind;
    fa::SequentialExecutionPolicy seq;
    std::optional<fa::ParallelExecutionPolicy> par;
    fa::ExecutionPolicy var;
    fa::ParallelExecutionPolicy* borrowed = nullptr;   // Used instead of par or var, if set.
    fa::ExecutionPolicy* borrowed_var = nullptr;
    // The parallel kinds share pool's pool.
    Exec(int k, fa::ParallelExecutionPolicy const* pool) : kind(k) {
        if(k == PAR) par.emplace(*pool);
        if(k == VAR_PAR) var = *pool;
    }
};

template<class F> void with_exec(Exec& e, F&& f) {
    switch(e.kind) {
        case SEQ: f(e.seq); break;
        case PAR: f(e.borrowed ? *e.borrowed : *e.par); break;
        default: f(e.borrowed_var ? *e.borrowed_var : e.var); break;
    }
}

// For the operations that do not take the run-time policy.
template<class F> void with_fixed_exec(Exec& e, F&& f) {
    if(e.kind == SEQ || e.kind == VAR_SEQ) f(e.seq);
    else f(e.borrowed ? *e.borrowed : e.par ? *e.par : boost::get<fa::ParallelExecutionPolicy>(e.borrowed_var ? *e.borrowed_var : e.var));
}

// ---- calls --------------------------------------------------------------------------
struct Call {
    Call() = default;
    Call(Call const&) = default;
    std::string name;              // Operation, types and shapes.
    bool nontrivial = true;        // More than one element.
    bool exact = true;
    virtual ~Call() {}
    virtual void run(Exec& e) = 0;
    virtual void clear() = 0;      // Results back to their initial state.
    // Compares the results with the expectation; all results are read.
    virtual void check() = 0;
    // The inputs must not be written.
    virtual void protect() = 0;
    // Whether the harness's policies of this call throw.
    void may_throw(bool b);
    // Another call with the same (shared) inputs and results of its own, if supported.
    virtual std::unique_ptr<Call> sibling() const { return nullptr; }
};

using Maker = std::unique_ptr<Call> (*)(sim::Rng&);
struct Entry { char const* prop; char const* op; Maker make; };
std::vector<Entry>& registry();
struct Register {
    Register(char const* prop, char const* op, Maker m) { registry().push_back({prop, op, m}); }
};

// A failing check: the operation, where, and what.
[[noreturn]] void wrong(Call const& c, std::string const& kind, std::string const& what);

// ---- extents ------------------------------------------------------------------------
struct Shape { size_t n0 = 1, n1 = 1; size_t size() const { return n0 * n1; } };
// Mostly small; empty ones too unless min > 0.
Shape make_shape(sim::Rng& r, int dims, size_t min0 = 0, size_t min1 = 0);
std::string shape_name(int dims, Shape s);

// ---- names --------------------------------------------------------------------------
template<class T> struct TypeName;
#define ALG_TYPE(T, N) template<> struct TypeName<T> { static constexpr char const* name = N; };
ALG_TYPE(bool, "bool")
ALG_TYPE(uint8_t, "u8") ALG_TYPE(int8_t, "i8") ALG_TYPE(uint16_t, "u16") ALG_TYPE(int16_t, "i16")
ALG_TYPE(uint32_t, "u32") ALG_TYPE(int32_t, "i32") ALG_TYPE(uint64_t, "u64") ALG_TYPE(int64_t, "i64")
ALG_TYPE(float, "f32") ALG_TYPE(double, "f64")
#undef ALG_TYPE

template<class T> std::string str(T v) {
    if constexpr(std::is_floating_point<T>::value) {
        char b[64];
        snprintf(b, sizeof b, "%.17g", double(v));
        return b;
    }
    else return std::to_string(+v);
}

// ---- arguments ----------------------------------------------------------------------
// Value with its mask: a scalar with a bool, or a masked array.
template<class T, int D> struct Box {
    using V = fern::MaskedArray<T, D>;
    using M = fern::Mask<D>;
    V v;
    Shape s;
    bool hot = false;
    explicit Box(Shape sh, T init = T()) : v(make(sh, init)), s(sh) {}
    static V make(Shape sh, T init) {
        if constexpr(D == 1) return V(sh.n0, init);
        else return V(fern::extents[static_cast<fern::Index>(sh.n0)][static_cast<fern::Index>(sh.n1)], init);
    }
    V& val() { return v; }
    M& msk() { return v.mask(); }
    T* data() { return v.data(); }
    bool* marks() { return v.mask().data(); }
    size_t size() const { return s.size(); }
    Shape shape() const { return s; }
};
template<class T> struct Box<T, 0> {
    using V = T;
    using M = bool;
    T v;
    bool m = false;
    bool hot = false;
    explicit Box(Shape, T init = T()) : v(init) {}
    V& val() { return v; }
    M& msk() { return m; }
    T* data() { return &v; }
    bool* marks() { return &m; }
    size_t size() const { return 1; }
    Shape shape() const { return Shape(); }
};

extern int hot_mode;   // Call::may_throw() at work: 1 or 0, otherwise -1.
template<class B> void protect_box(B& b, char const* what) {
    if(hot_mode >= 0) { b.hot = hot_mode != 0; return; }
    if(b.size() == 0) return;
    sim::protect(b.data(), b.size() * sizeof(*b.data()), what);
    sim::protect(b.marks(), b.size() * sizeof(bool), what);
}

// ---- no-data policies ---------------------------------------------------------------
// The library's own.
struct Real {
    static constexpr bool masked = true;
    static constexpr char const* name = "masked";
    template<class B> using In = fa::DetectNoDataByValue<typename B::M>;
    template<class B> using Out = fa::MarkNoDataByValue<typename B::M>;
    template<class B> static In<B> in(B& b) { return In<B>(b.msk(), true); }
};
struct Plain { static constexpr bool masked = false; static constexpr char const* name = "plain"; };

// The harness's own, which may throw or fail to allocate when asked for an
// element: what a user's policy, value or mask may do inside a task.
struct Boom { int id; };
void element_point(bool hot);
struct FaultyIn {
    bool const* m;
    bool hot;
    bool is_no_data() const { element_point(hot); return *m; }
    bool is_no_data(size_t i) const { element_point(hot); return m[i]; }
};
struct FaultyOut {
    bool* m;
    template<class M> FaultyOut(M& mask, bool) { init(mask); }
    void init(bool& b) { m = &b; }
    template<class M> void init(M& mask) { m = mask.data(); }
    FaultyOut(FaultyOut const&) = delete;
    void mark_as_no_data() { *m = true; }
    void mark_as_no_data(size_t i) { m[i] = true; }
};
struct Faulty {
    static constexpr bool masked = true;
    static constexpr char const* name = "faulty";
    template<class B> using In = FaultyIn;
    template<class B> using Out = FaultyOut;
    template<class B> static FaultyIn in(B& b) { return FaultyIn{b.marks(), b.hot}; }
};

// ---- values -------------------------------------------------------------------------
// tame: no operation on such values overflows or leaves its domain.
template<class T> T tame_value(sim::Rng& r) {
    if constexpr(std::is_same<T, bool>::value) return r.chance(0.5);
    else if constexpr(std::is_integral<T>::value) return static_cast<T>(r.range(1, 9));
    else return static_cast<T>(static_cast<double>(r.range(1, 80)) / 8.0);
}
template<class T> T any_value(sim::Rng& r) {
    if constexpr(std::is_same<T, bool>::value) return r.chance(0.5);
    else if constexpr(std::is_integral<T>::value) {
        switch(r.below(6)) {
            case 0: return static_cast<T>(std::numeric_limits<T>::max() - static_cast<T>(r.below(3)));
            case 1: return static_cast<T>(std::numeric_limits<T>::min() + static_cast<T>(r.below(3)));
            case 2: return static_cast<T>(r.next());
            default: return std::is_signed<T>::value ? static_cast<T>(r.range(-12, 12)) : static_cast<T>(r.range(0, 24));
        }
    }
    else {
        switch(r.below(10)) {
            case 0: return std::numeric_limits<T>::max() / static_cast<T>(1 + r.below(4));
            case 1: return -std::numeric_limits<T>::max() / static_cast<T>(1 + r.below(4));
            case 2: return static_cast<T>(0);
            case 3: return static_cast<T>(r.range(-3, 3));
            case 4: return static_cast<T>(r.range(-30, 200));
            case 5: return static_cast<T>(r.real());
            default: return static_cast<T>(static_cast<double>(r.range(-8000, 8000)) / 64.0);
        }
    }
}

template<class T> bool same(T a, T b) {
    if constexpr(std::is_floating_point<T>::value)
        return a == b || (std::isnan(a) && std::isnan(b));
    else return a == b;
}
// For operations defined up to rounding.
template<class T> bool close(T a, T b, double scale = 0) {
    if(same(a, b)) return true;
    if constexpr(std::is_floating_point<T>::value) {
        double eps = std::is_same<T, float>::value ? 2e-5 : 1e-11;
        double m = std::max({std::fabs(double(a)), std::fabs(double(b)), scale});
        return std::isfinite(a) && std::isfinite(b) && std::fabs(double(a) - double(b)) <= eps * m;
    }
    else return false;
}

// What is expected of one element.
enum State : char { VALID, NO_DATA, ANY, VALUE_ANY /* valid, with any value */, UNTOUCHED };
template<class T> struct Want { T v{}; State s = ANY; };

// A mask pattern: none, few, about half, most, all, or whole rows.
std::vector<char> make_marks(sim::Rng& r, Shape s, int dims);

template<class B, class G> void fill_box(B& b, sim::Rng& r, int dims, bool masked, G gen) {
    std::vector<char> m;
    if(masked) {
        if(dims == 0) m.assign(1, r.chance(0.1));
        else m = make_marks(r, b.shape(), dims);
    }
    for(size_t i = 0; i < b.size(); ++i) {
        b.data()[i] = gen(r);
        b.marks()[i] = masked && m[i];
    }
}

// Result compared element by element (reads are checked for races).
template<class B, class T> void check_box(Call const& c, B& b, std::vector<Want<T>> const& want, bool masked, bool exact) {
    for(size_t i = 0; i < b.size(); ++i) {
        T v = b.data()[i];
        bool m = b.marks()[i];
        Want<T> const& w = want[i];
        if(w.s == ANY) continue;
        if(masked) {
            if(m && w.s != NO_DATA) wrong(c, "wrongly-no-data", "element " + std::to_string(i) + ": marked as no-data, expected " + str(w.v));
            if(!m && w.s == NO_DATA) wrong(c, "not-marked-no-data", "element " + std::to_string(i) + ": not marked as no-data, value " + str(v));
        }
        if(!masked && m) wrong(c, "wrongly-no-data", "element " + std::to_string(i) + ": mask changed though no-data is not to be marked");
        if((w.s == VALID || w.s == UNTOUCHED) && !(exact ? same(v, w.v) : close(v, w.v)))
            wrong(c, "wrong-value", "element " + std::to_string(i) + ": " + str(v) + ", expected " + str(w.v));
    }
}

// What results are filled with before a call, so that elements that are not written show.
extern int stale_pattern;
template<class B> void make_stale(B& b) {
    for(size_t i = 0; i < b.size(); ++i) {
        using T = std::remove_reference_t<decltype(*b.data())>;
        if constexpr(std::is_same<T, bool>::value) b.data()[i] = stale_pattern & 1;
        else b.data()[i] = static_cast<T>(99 + (stale_pattern & 1));
        b.marks()[i] = false;
    }
}

} // namespace alg
