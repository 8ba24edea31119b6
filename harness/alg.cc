// C06 .. C12: algorithms on the simulated thread pool.
#include "alg.h"
#include <algorithm>
#include <system_error>
#include <thread>

namespace sim { int64_t stalled_ns(); }

namespace alg {

std::vector<Entry>& registry() { static std::vector<Entry> r; return r; }

char const* exec_name(int kind) {
    static char const* const names[] = {"sequential", "parallel", "run-time sequential", "run-time parallel"};
    return names[kind];
}

int stale_pattern = 0;

void wrong(Call const& c, std::string const& kind, std::string const& what) {
    Quiet q;
    sim::violation(kind, c.name + ": " + what);
}

Shape make_shape(sim::Rng& r, int dims, size_t min0, size_t min1) {
    Shape s;
    if(dims == 0) return s;
    if(dims == 1) {
        uint64_t k = r.below(20);
        s.n0 = k == 0 ? 0 : k < 4 ? 1 + r.below(4) : k < 18 ? 4 + r.below(30) : 40 + r.below(120);
        s.n0 = std::max(s.n0, min0);
        return s;
    }
    uint64_t k = r.below(24);
    s.n0 = k == 0 ? 0 : k < 4 ? 1 + r.below(3) : 1 + r.below(13);
    s.n1 = k == 1 ? 0 : k == 4 || k == 5 ? 1 + r.below(2) : k == 6 ? 20 + r.below(20) : 1 + r.below(9);
    s.n0 = std::max(s.n0, min0);
    s.n1 = std::max(s.n1, min1);
    return s;
}
std::string shape_name(int dims, Shape s) {
    return dims == 0 ? "scalar" : dims == 1 ? std::to_string(s.n0) : std::to_string(s.n0) + "x" + std::to_string(s.n1);
}

std::vector<char> make_marks(sim::Rng& r, Shape s, int dims) {
    std::vector<char> m(s.size(), 0);
    uint64_t k = r.below(10);
    double p = k == 0 ? 0 : k < 4 ? 0.1 : k < 6 ? 0.5 : k == 6 ? 0.9 : k == 7 ? 1 : 0.25;
    for(auto& x : m) x = r.chance(p);
    if(k >= 8 && !m.empty()) {     // Whole blocks without or with data only.
        size_t rows = dims == 2 ? s.n0 : s.size(), cols = dims == 2 ? s.n1 : 1;
        size_t a = r.below(rows + 1), b = r.below(rows + 1);
        if(a > b) std::swap(a, b);
        bool v = k == 8;
        for(size_t i = a * cols; i < b * cols; ++i) m[i] = v;
        if(r.chance(0.5)) for(size_t i = 0; i < m.size(); ++i) if(i < a * cols || i >= b * cols) m[i] = !v;
    }
    return m;
}

// ---- faults inside tasks ------------------------------------------------------------
// Which call is being executed: tasks of a finished one must not run.
static bool calls_active = true;
int hot_mode = -1;
void Call::may_throw(bool b) {
    hot_mode = b;
    protect();
    hot_mode = -1;
}
void element_point(bool hot) {
    if(!hot) return;
    Quiet q;
    if(!calls_active) sim::violation("task-outlives-call", "a task of the failed call still works on its arguments");
    if(sim::fault(sim::F_USER)) throw Boom{1};
}

static std::vector<Entry const*> entries(std::string const& prop, std::string const& op) {
    std::vector<Entry const*> v;
    for(auto const& e : registry()) if(prop == e.prop && (op.empty() || op == e.op)) v.push_back(&e);
    if(v.empty()) sim::harness_error("no such calls");
    return v;
}
// First an operation, then one of its variants.
static Entry const* choose(sim::Rng& r, std::vector<Entry const*> const& v) {
    std::vector<char const*> ops;
    for(auto e : v) if(ops.empty() || std::find_if(ops.begin(), ops.end(), [e](char const* o) { return !strcmp(o, e->op); }) == ops.end()) ops.push_back(e->op);
    char const* op = ops[r.below(ops.size())];
    std::vector<Entry const*> w;
    for(auto e : v) if(!strcmp(e->op, op)) w.push_back(e);
    return w[r.below(w.size())];
}

static void schedule_faults(sim::Rng& r, sim::Params& p) {
    if(r.chance(0.3)) { p.p_fault[sim::F_SPURIOUS] = 0.3; p.max_faults[sim::F_SPURIOUS] = 20; }
    if(r.chance(0.3)) { p.p_fault[sim::F_STALL] = 0.02; p.max_faults[sim::F_STALL] = 6; }
    if(r.chance(0.1)) { p.p_fault[sim::F_CLOCK_JUMP] = 0.1; p.max_faults[sim::F_CLOCK_JUMP] = 4; }
}

// ---- C06 .. C10 ----------------------------------------------------------------------
struct Plan { Entry const* e; uint64_t seed; int kind; bool again; };

static sim::Scenario plain_calls(sim::Rng& r, std::string const& prop) {
    static std::vector<Entry const*> const all = entries(prop, sim::option("op", ""));
    sim::Scenario sc;
    int const threads = int(r.range(1, 6));
    std::vector<Plan> plan;
    int const n = int(r.range(1, 3));
    for(int i = 0; i < n; ++i) {
        uint64_t k = r.below(10);
        int kind = prop == "C10" ? (k < 6 ? PAR : VAR_PAR) : k < 5 ? PAR : k < 8 ? VAR_PAR : k == 8 ? SEQ : VAR_SEQ;
        plan.push_back({choose(r, all), r.next(), kind, r.chance(0.2)});
    }
    schedule_faults(r, sc.params);
    std::string d = "pool of " + std::to_string(threads) + ":";
    for(auto const& p : plan) d += std::string(" ") + p.e->op;
    sc.description = d;
    bool const protect = prop == "C10" || r.chance(0.5);
    sc.body = [=] {
        uint64_t const mem0 = sim::live_allocations();
        {
            std::string text = d;
            fa::ParallelExecutionPolicy pool(static_cast<size_t>(threads));
            std::vector<std::unique_ptr<Call>> calls;
            {
                Quiet q;
                text = "pool of " + std::to_string(threads) + ":";
                for(auto const& p : plan) {
                    sim::Rng g(p.seed);
                    calls.push_back(p.e->make(g));
                    text += std::string(" [") + exec_name(p.kind) + " " + calls.back()->name + (p.again ? ", twice]" : "]");
                }
                sim::describe(text);
            }
            for(size_t i = 0; i < calls.size(); ++i) {
                Call& c = *calls[i];
                for(int round = 0; round < (plan[i].again ? 2 : 1); ++round) {
                    { Quiet q; stale_pattern = int(plan[i].seed >> 7) + round; }
                    c.clear();
                    if(protect) { Quiet q; c.protect(); }
                    {
                        Exec e(plan[i].kind, &pool);
                        sim::context(c.name.c_str());
                        c.run(e);
                        sim::context("");
                    }
                    if(protect) { Quiet q; sim::unprotect_all(); }
                    c.check();
                }
            }
        }
        Quiet q;
        if(sim::live_allocations() != mem0) sim::violation("leak", std::to_string(sim::live_allocations() - mem0) + " memory blocks are left");
    };
    return sc;
}

// ---- C11 ----------------------------------------------------------------------------
static sim::Scenario concurrent_callers(sim::Rng& r) {
    static std::vector<Entry const*> const all = entries("C11", sim::option("op", ""));
    sim::Scenario sc;
    int const threads = int(r.range(1, 4));
    int const callers = int(r.range(2, 4));
    int const sharing = int(r.below(4));   // one policy object, copies, own variants, mixture
    bool const failing = r.chance(0.3);
    int const last_owner = int(r.below(3));  // who drops the last policy: main first, main last, either
    struct Job { Plan p; bool shared_input; bool may_fail; };
    auto plan = std::make_shared<std::vector<std::vector<Job>>>(size_t(callers));
    uint64_t common = r.next();
    Entry const* common_entry = choose(r, all);
    for(auto& v : *plan) {
        int n = int(r.range(1, 3));
        for(int i = 0; i < n; ++i) {
            bool shared = r.chance(0.3);
            v.push_back({{shared ? common_entry : choose(r, all), shared ? common : r.next(), r.chance(0.6) ? PAR : r.chance(0.8) ? VAR_PAR : SEQ, false}, shared, false});
        }
    }
    schedule_faults(r, sc.params);
    if(failing) {
        // One caller's calls may throw in a task.
        size_t f = r.below(size_t(callers));
        for(auto& j : (*plan)[f]) j.may_fail = true;
        sc.params.p_fault[sim::F_USER] = r.chance(0.5) ? 0.2 : 0.02;
        sc.params.max_faults[sim::F_USER] = 3;
    }
    sc.description = std::to_string(callers) + " callers on a pool of " + std::to_string(threads);
    sc.body = [=] {
        uint64_t const mem0 = sim::live_allocations();
        int const th0 = sim::live_threads();
        {
            std::unique_ptr<Call> common_call;
            struct Caller { std::vector<std::unique_ptr<Call>> calls; };
            std::vector<Caller> cs(static_cast<size_t>(callers));
            {
                Quiet q;
                sim::Rng g(common);
                common_call = common_entry->make(g);
                std::string text = std::to_string(callers) + " callers on a pool of " + std::to_string(threads)
                    + (sharing == 0 ? ", one policy object:" : sharing == 1 ? ", copies of the policy:" : ", policies of their own:");
                for(size_t t = 0; t < cs.size(); ++t) {
                    text += " [";
                    for(auto const& j : (*plan)[t]) {
                        std::unique_ptr<Call> c;
                        if(j.shared_input) c = common_call->sibling();
                        if(!c) { sim::Rng h(j.p.seed); c = j.p.e->make(h); }
                        text += std::string(exec_name(j.p.kind)) + " " + c->name + (j.shared_input ? " shared" : "") + (j.may_fail && !j.shared_input ? " may fail" : "") + "; ";
                        c->may_throw(j.may_fail && !j.shared_input);
                        cs[t].calls.push_back(std::move(c));
                    }
                    text += "]";
                }
                sim::describe(text);
                stale_pattern = int(common & 1);
                calls_active = true;
            }
            for(auto& c : cs) for(auto& x : c.calls) x->clear();
            { Quiet q; common_call->protect(); }
            auto policy = std::make_unique<fa::ParallelExecutionPolicy>(static_cast<size_t>(threads));
            fa::ParallelExecutionPolicy* shared = policy.get();
            auto work = [&cs, plan](size_t t, fa::ParallelExecutionPolicy* par, fa::ExecutionPolicy* var) {
                for(size_t i = 0; i < cs[t].calls.size(); ++i) {
                    Call& c = *cs[t].calls[i];
                    Job const& j = (*plan)[t][i];
                    bool threw = false;
                    try {
                        if(par && j.p.kind != VAR_PAR && j.p.kind != SEQ) { Exec e(SEQ, nullptr); e.kind = PAR; e.borrowed = par; c.run(e); }
                        else if(var && j.p.kind != SEQ) { Exec e(SEQ, nullptr); e.kind = VAR_PAR; e.borrowed_var = var; c.run(e); }
                        else if(j.p.kind == SEQ) { Exec e(SEQ, nullptr); c.run(e); }
                        else { Exec e(j.p.kind, par); c.run(e); }
                    }
                    catch(Boom const&) {
                        threw = true;
                        if(!j.may_fail) wrong(c, "failure-spreads", "a failure of another caller's call ends this one");
                        sim::probe("a caller's call failed");
                    }
                    if(!threw) c.check();
                }
            };
            std::vector<std::thread> ts;
            for(size_t t = 1; t < cs.size(); ++t) {
                switch(sharing == 3 ? int(t % 3) : sharing) {
                    case 0:
                        ts.emplace_back([=, &work] { work(t, shared, nullptr); });
                        break;
                    case 1:
                        ts.emplace_back([&work, t, copy = *shared]() mutable { work(t, &copy, nullptr); });
                        break;
                    default:
                        ts.emplace_back([&work, t, copy = fa::ExecutionPolicy(*shared)]() mutable { work(t, &boost::get<fa::ParallelExecutionPolicy>(copy), &copy); });
                        break;
                }
            }
            bool const drop_first = last_owner == 0 && (sharing == 1 || sharing == 2);
            if(drop_first) {
                auto copy = *policy;
                policy.reset();
                work(0, &copy, nullptr);
            }
            else work(0, shared, nullptr);
            if(last_owner == 1 && sharing != 0 && sharing != 3) policy.reset();
            for(auto& t : ts) t.join();
            { Quiet q; sim::unprotect_all(); }
            policy.reset();
            Quiet q;
            if(sim::live_threads() != th0) sim::violation("thread-leak", "threads of the pool are alive though no policy refers to it anymore");
        }
        Quiet q;
        if(sim::live_allocations() != mem0) sim::violation("leak", std::to_string(sim::live_allocations() - mem0) + " memory blocks are left");
    };
    return sc;
}

// ---- C12 ----------------------------------------------------------------------------
static sim::Scenario failing_calls(sim::Rng& r) {
    static std::vector<Entry const*> const all = entries("C12", sim::option("op", ""));
    sim::Scenario sc;
    int const threads = int(r.range(1, 6));
    int const mode = int(r.below(4));    // 0 a task throws, 1 allocation in the caller, 2 allocation in a task, 3 all
    Plan const plan{choose(r, all), r.next(), r.chance(0.7) ? PAR : VAR_PAR, false};
    Plan const other{choose(r, all), r.next(), r.chance(0.7) ? PAR : VAR_PAR, false};
    bool const destroy_first = r.chance(0.5), other_first = r.chance(0.3);
    int64_t const rest = r.chance(0.5) ? r.range(0, 400) * 1000000 : 0;
    schedule_faults(r, sc.params);
    if(mode == 0 || mode == 3) { sc.params.p_fault[sim::F_USER] = 1.0 / double(r.range(1, 60)); sc.params.max_faults[sim::F_USER] = uint64_t(r.range(1, 4)); }
    if(mode == 1 || mode == 2 || mode == 3) { sc.params.p_fault[sim::F_ALLOC] = 1.0 / double(r.range(1, 30)); sc.params.max_faults[sim::F_ALLOC] = uint64_t(r.range(1, 2)); }
    sc.description = std::string("failing ") + plan.e->op;
    sc.body = [=] {
        uint64_t const mem0 = sim::live_allocations();
        int const th0 = sim::live_threads();
        { Quiet q; calls_active = true; }
        {
            fa::ParallelExecutionPolicy pool(static_cast<size_t>(threads));
            std::unique_ptr<Call> c, o;
            {
                Quiet q;
                sim::Rng g(plan.seed), h(other.seed);
                c = plan.e->make(g);
                o = other.e->make(h);
                stale_pattern = int(plan.seed >> 7);
                sim::describe("pool of " + std::to_string(threads) + ": failing " + exec_name(plan.kind) + " " + c->name
                    + (mode == 0 ? " (element throws)" : mode == 1 ? " (allocation fails in the caller)" : mode == 2 ? " (allocation fails in a task)" : " (element throws, allocations fail)")
                    + (destroy_first ? ", arguments destroyed at once" : "") + (other_first ? ", then " + o->name : ""));
            }
            c->clear();
            { Quiet q; c->protect(); c->may_throw(true); }
            bool threw = false;
            uint64_t const f0 = sim::injected(sim::F_USER) + sim::injected(sim::F_ALLOC);
            {
                Exec e(plan.kind, &pool);
                sim::context(c->name.c_str());
                try {
                    std::optional<sim::AllocFaults> on;
                    if(mode == 1 || mode == 3) on.emplace();
                    if(mode == 2 || mode == 3) sim::alloc_faults_on_workers(true);
                    c->run(e);
                }
                catch(Boom const&) { threw = true; sim::probe("call ended with the element's exception"); }
                catch(std::bad_alloc const&) { threw = true; sim::probe("call ended with bad_alloc"); }
                catch(std::exception const& x) { wrong(*c, "wrong-exception", std::string("the call ends with ") + x.what()); }
                Quiet q;
                if(threw) calls_active = false;   // From here on no task of the call may do anything.
                sim::context("");
            }
            uint64_t f1 = sim::injected(sim::F_USER) + sim::injected(sim::F_ALLOC);
            { Quiet q; sim::unprotect_all(); }
            if(!threw && f1 != f0) wrong(*c, "swallowed-failure", "the call ends normally although something failed");
            if(threw && f1 == f0) wrong(*c, "spurious-failure", "the call fails although nothing failed");
            if(!threw) c->check();
            sim::alloc_faults_on_workers(false);
            { Quiet q; sim::stop_faults(); }
            if(threw) {
                if(destroy_first) {
                    c.reset();
                    sim::sleep_ns(rest);
                    Quiet q;
                    sim::Rng g(plan.seed);
                    c = plan.e->make(g);
                }
                else sim::sleep_ns(rest);
                sim::probe("calls that failed");
            }
            if(other_first) {
                // Another operation on the same pool.
                { Quiet q; calls_active = true; }
                o->clear();
                Exec e(other.kind, &pool);
                o->run(e);
                o->check();
            }
            { Quiet q; calls_active = true; }
            c->clear();
            {
                Exec e(plan.kind, &pool);
                c->run(e);
            }
            c->check();
            // All threads of the pool still work: as many tasks as threads run at once.
            std::vector<std::future<void>> fs;
            int arrived = 0;
            for(int i = 0; i < threads; ++i) fs.push_back(pool.thread_pool().submit([&arrived, threads] {
                { Quiet q; ++arrived; }
                for(;;) {
                    { Quiet q; if(arrived >= threads) break; }
                    sim::sleep_ns(1000000);
                }
            }));
            int64_t const t0 = sim::now_ns();
            for(auto& f : fs) f.get();
            (void)t0;
        }
        Quiet q;
        if(sim::live_threads() != th0) sim::violation("thread-leak", "threads of a destroyed pool are still alive");
        if(sim::live_allocations() != mem0) sim::violation("leak", std::to_string(sim::live_allocations() - mem0) + " memory blocks are left");
    };
    return sc;
}

} // namespace alg

void sim::warm_up() {
    try { std::promise<int> p; auto f = p.get_future(); { std::promise<int> q(std::move(p)); } f.get(); } catch(std::exception const& e) { std::string s = e.what(); }
    try { throw std::system_error(std::make_error_code(std::errc::resource_unavailable_try_again)); } catch(std::exception const& e) { std::string s = e.what(); }
    alg::registry();
}

sim::Scenario sim::make_scenario(sim::Rng& rng, uint64_t) {
    static std::string const prop = sim::option("prop", "C06");
    sim::Rng srng(rng.next());
    sim::Scenario sc = prop == "C11" ? alg::concurrent_callers(rng) : prop == "C12" ? alg::failing_calls(rng) : alg::plain_calls(rng, prop);
    swarm_schedule(srng, sc.params);
    return sc;
}
