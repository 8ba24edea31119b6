// C01 .. C05: thread pool and work queue under the simulator.
#include "driver.h"
#include "fern/core/thread_pool.h"
#include "fern/core/thread_safe_queue.h"
#include "fern/algorithm/policy/parallel_execution_policy.h"
#include <algorithm>
#include <cstring>
#include <memory>
#include <set>
#include <system_error>

namespace sim { int64_t stalled_ns(); }

using fern::ThreadPool;
using fern::ThreadSafeQueue;

namespace {

// Harness bookkeeping is shared between threads without synchronisation on
// purpose (synchronising it would hide missing ordering in the code under test).
struct Quiet {
    Quiet() { sim::ignore_begin(); }
    ~Quiet() { sim::ignore_end(); }
    sim::NoAllocFaults no;
};

int const MAX_TASKS = 256;
int64_t const MS = 1000000;
int64_t const POLL = 300 * MS;     // "A fraction of a second": three times the pool's polling interval.

struct TestError { int id; };
struct DerivedError : std::runtime_error { int id; DerivedError(int i) : std::runtime_error("task"), id(i) {} };

[[noreturn]] static void throw_of(int id) {
    switch(id % 4) {
        case 0: throw DerivedError(id);
        case 1: throw id;
        case 2: throw std::bad_alloc();
        default: throw TestError{id};
    }
}
// Called in a handler: whether the current exception is the one task id threw.
static bool thrown_by(int id) {
    try { throw; }
    catch(DerivedError const& e) { return id % 4 == 0 && e.id == id; }
    catch(int i) { return id % 4 == 1 && i == id; }
    catch(std::bad_alloc const&) { return id % 4 == 2; }
    catch(TestError const& e) { return id % 4 == 3 && e.id == id; }
    catch(...) { return false; }
}

enum Kind { K_VALUE, K_VOID, K_THROW, K_MOVE_ONLY, K_NESTED, K_SLEEP, K_BIG, K_REF, K_NR };
char const* const kind_name[] = {"value", "void", "throw", "move-only", "nested", "sleep", "big", "ref"};

struct Shared {
    int count[MAX_TASKS] = {};         // Times the task was started.
    int finished[MAX_TASKS] = {};
    int64_t submit_begin[MAX_TASKS] = {}, submit_end[MAX_TASKS] = {}, start[MAX_TASKS] = {}, end[MAX_TASKS] = {};
    uint64_t submit_begin_step[MAX_TASKS] = {}, submit_end_step[MAX_TASKS] = {}, start_step[MAX_TASKS] = {};
    int worker[MAX_TASKS] = {};
    int failed[MAX_TASKS] = {};        // submit threw
    int running = 0, max_running = 0;
    int functors = 0;                  // Live copies of task functions.
    int cell_in[MAX_TASKS] = {};       // Written by the submitter before, read by the task (race checked).
    int cell_out[MAX_TASKS] = {};      // Written by the task, read by who got the result.
    bool submitter[128] = {};
};
Shared* G = nullptr;

uint64_t clock_step = 0;
uint64_t stamp() { Quiet q; return ++clock_step; }

void on_start(int id) {
    Quiet q;
    ++G->count[id];
    G->start[id] = sim::now_ns();
    G->start_step[id] = ++clock_step;
    G->worker[id] = sim::tid();
    ++G->running;
    G->max_running = std::max(G->max_running, G->running);
    sim::event(1000 + uint64_t(id));
    if(G->count[id] > 1) sim::violation("executed-twice", "task " + std::to_string(id));
    if(G->submitter[sim::tid()]) sim::violation("wrong-thread", "task " + std::to_string(id) + " runs on a submitting thread");
}
void on_finish(int id) {
    Quiet q;
    ++G->finished[id];
    G->end[id] = sim::now_ns();
    --G->running;
    sim::event(2000 + uint64_t(id));
}

// A task function with observable copies; may own memory.
struct Fn {
    int id;
    Fn(int i) : id(i) { Quiet q; ++G->functors; }
    Fn(Fn const& o) : id(o.id) { Quiet q; ++G->functors; }
    Fn(Fn&& o) noexcept : id(o.id) { Quiet q; ++G->functors; }
    Fn& operator=(Fn const&) = default;
    ~Fn() { Quiet q; --G->functors; }
};

int value_of(int id) { return id * 7 + 3; }

struct TaskSpec { int id; Kind kind; int64_t sleep_ns; int yields; int nested_id; };

struct Body {
    static void work(TaskSpec const& s) {
        // What the submitter wrote before submitting is visible here.
        if(G->cell_in[s.id] != value_of(s.id) + 1) sim::violation("lost-visibility", "task does not see its submitter's writes");
        for(int i = 0; i < s.yields; ++i) sim::yield_point();
        if(s.sleep_ns > 0) sim::sleep_ns(s.sleep_ns);
        G->cell_out[s.id] = value_of(s.id) + 2;
    }
};

struct ValueTask : Fn {
    TaskSpec s;
    ValueTask(TaskSpec const& t) : Fn(t.id), s(t) {}
    int operator()() { on_start(id); Body::work(s); on_finish(id); return value_of(id); }
};
struct VoidTask : Fn {
    TaskSpec s;
    VoidTask(TaskSpec const& t) : Fn(t.id), s(t) {}
    void operator()() { on_start(id); Body::work(s); on_finish(id); }
};
struct ThrowTask : Fn {
    TaskSpec s;
    ThrowTask(TaskSpec const& t) : Fn(t.id), s(t) {}
    int operator()() { on_start(id); Body::work(s); on_finish(id); throw_of(id); }
};
struct MoveOnlyTask : Fn {
    TaskSpec s;
    std::unique_ptr<int> p;
    MoveOnlyTask(TaskSpec const& t) : Fn(t.id), s(t), p(new int(value_of(t.id))) {}
    MoveOnlyTask(MoveOnlyTask&&) = default;
    std::unique_ptr<int> operator()() { on_start(id); Body::work(s); on_finish(id); return std::move(p); }
};
struct BigTask : Fn {
    TaskSpec s;
    std::vector<int> v;
    BigTask(TaskSpec const& t) : Fn(t.id), s(t), v(40, value_of(t.id)) {}
    int operator()() { on_start(id); Body::work(s); int r = v[size_t(id) % v.size()]; on_finish(id); return r; }
};
struct RefTask : Fn {
    TaskSpec s;
    RefTask(TaskSpec const& t) : Fn(t.id), s(t) {}
    int& operator()() { on_start(id); Body::work(s); on_finish(id); return G->cell_out[id]; }
};
// Submits another task and hands out its future.
struct NestedTask : Fn {
    TaskSpec s;
    ThreadPool* pool;
    NestedTask(TaskSpec const& t, ThreadPool* p) : Fn(t.id), s(t), pool(p) {}
    std::future<int> operator()() {
        on_start(id);
        Body::work(s);
        TaskSpec n = s;
        n.id = s.nested_id; n.kind = K_VALUE;
        G->cell_in[n.id] = value_of(n.id) + 1;
        { Quiet q; G->submit_begin[n.id] = sim::now_ns(); G->submit_begin_step[n.id] = ++clock_step; }
        std::future<int> f = pool->submit(ValueTask(n));
        { Quiet q; G->submit_end[n.id] = sim::now_ns(); G->submit_end_step[n.id] = ++clock_step; }
        on_finish(id);
        return f;
    }
};

// A submitted task and the way to check its outcome.
struct Handle {
    TaskSpec s;
    bool failed = false;
    std::future<int> fi;
    std::future<void> fv;
    std::future<std::unique_ptr<int>> fp;
    std::future<std::future<int>> fn;
    std::future<int&> fr;
};

template<class F> auto submit_recorded(ThreadPool& pool, TaskSpec const& s, F&& f, bool& failed) -> decltype(pool.submit(std::forward<F>(f))) {
    { Quiet q; G->submit_begin[s.id] = sim::now_ns(); G->submit_begin_step[s.id] = ++clock_step; }
    decltype(pool.submit(std::forward<F>(f))) r;
    try {
        sim::AllocFaults on;
        r = pool.submit(std::forward<F>(f));
    }
    catch(std::bad_alloc const&) { Quiet q; failed = true; G->failed[s.id] = 1; sim::probe("submit failed with bad_alloc"); }
    { Quiet q; G->submit_end[s.id] = sim::now_ns(); G->submit_end_step[s.id] = ++clock_step; }
    return r;
}

void submit(ThreadPool& pool, TaskSpec const& s, Handle& h) {
    h.s = s;
    G->cell_in[s.id] = value_of(s.id) + 1;
    switch(s.kind) {
        case K_VALUE: case K_SLEEP: h.fi = submit_recorded(pool, s, ValueTask(s), h.failed); break;
        case K_VOID: h.fv = submit_recorded(pool, s, VoidTask(s), h.failed); break;
        case K_THROW: h.fi = submit_recorded(pool, s, ThrowTask(s), h.failed); break;
        case K_MOVE_ONLY: h.fp = submit_recorded(pool, s, MoveOnlyTask(s), h.failed); break;
        case K_BIG: h.fi = submit_recorded(pool, s, BigTask(s), h.failed); break;
        case K_REF: h.fr = submit_recorded(pool, s, RefTask(s), h.failed); break;
        case K_NESTED: h.fn = submit_recorded(pool, s, NestedTask(s, &pool), h.failed); break;
        default: break;
    }
}

void expect_done(int id) {
    // Ordered after the task by its future: checked by the race detector.
    if(G->cell_out[id] != value_of(id) + 2) sim::violation("lost-visibility", "getter does not see the task's writes");
    Quiet q;
    if(G->count[id] != 1) sim::violation("not-executed-once", "task " + std::to_string(id) + " executed " + std::to_string(G->count[id]) + " times");
    if(G->finished[id] != 1) sim::violation("early-result", "future is ready before the task has ended");
}

template<class Future> void wait_some_way(Future& f, int how) {
    switch(how % 4) {
        case 0: break;
        case 1: f.wait(); break;
        case 2: while(f.wait_for(std::chrono::milliseconds(50)) != std::future_status::ready) {} break;
        default: while(f.wait_for(std::chrono::seconds(0)) != std::future_status::ready) { sim::sleep_ns(3 * MS); } break;
    }
}

// Wait for the outcome and check it.  May be broken only if allowed.
// Returns whether the task was executed.
bool finish(Handle& h, int how, bool may_break) {
    int id = h.s.id;
    if(h.failed) return false;
    try {
        switch(h.s.kind) {
            case K_VALUE: case K_SLEEP: case K_BIG: {
                if(!h.fi.valid()) sim::violation("bad-future", "future is not valid");
                wait_some_way(h.fi, how);
                int r = h.fi.get();
                if(r != value_of(id)) sim::violation("wrong-value", "future delivers another value");
                break;
            }
            case K_REF: {
                wait_some_way(h.fr, how);
                int& r = h.fr.get();
                if(&r != &G->cell_out[id]) sim::violation("wrong-value", "future delivers another reference");
                break;
            }
            case K_VOID: wait_some_way(h.fv, how); h.fv.get(); break;
            case K_THROW: {
                wait_some_way(h.fi, how);
                try { h.fi.get(); sim::violation("lost-exception", "future does not deliver the task's exception"); }
                catch(std::future_error const&) { throw; }
                catch(...) { if(!thrown_by(id)) sim::violation("wrong-exception", "future delivers another exception than the task threw"); }
                break;
            }
            case K_MOVE_ONLY: {
                wait_some_way(h.fp, how);
                std::unique_ptr<int> p = h.fp.get();
                if(!p || *p != value_of(id)) sim::violation("wrong-value", "future delivers another value");
                break;
            }
            case K_NESTED: {
                wait_some_way(h.fn, how);
                std::future<int> f;
                f = h.fn.get();
                expect_done(id);
                int r;
                try { r = f.get(); }
                catch(std::future_error const& e) {
                    if(!may_break) throw;
                    Quiet q;
                    if(G->count[h.s.nested_id]) sim::violation("broken-promise", "a started task's promise is broken");
                    return true;
                }
                if(r != value_of(h.s.nested_id)) sim::violation("wrong-value", "future delivers another value");
                expect_done(h.s.nested_id);
                break;
            }
            default: break;
        }
    }
    catch(std::future_error const& e) {
        Quiet q;
        if(e.code() != std::make_error_code(std::future_errc::broken_promise)) sim::violation("bad-future", std::string("future_error: ") + e.what());
        if(!may_break) sim::violation("broken-promise", "task " + std::to_string(id) + " of a live pool has a broken promise");
        if(G->count[id]) sim::violation("broken-promise", "started task " + std::to_string(id) + " has a broken promise");
        return false;
    }
    expect_done(id);
    return true;
}

// As many tasks as the pool has threads, each waiting until all of them run:
// possible only if every thread of the pool works.
void rendezvous(ThreadPool& pool, int n) {
    struct State { int arrived = 0; int n; };
    auto st = std::make_shared<State>();
    st->n = n;
    std::vector<std::future<void>> fs;
    for(int i = 0; i < n; ++i) {
        fs.push_back(pool.submit([st]() {
            { Quiet q; ++st->arrived; }
            for(;;) {
                { Quiet q; if(st->arrived >= st->n) break; }
                sim::sleep_ns(20 * MS);
            }
        }));
    }
    for(auto& f : fs) f.get();
    sim::probe("rendezvous of all threads");
}

struct Plan {
    int pool_size;
    std::vector<std::vector<TaskSpec>> by_submitter;
    std::vector<int> gap_ms;
    std::vector<int> how;
    bool from_main;
};

int next_id;

TaskSpec make_task(sim::Rng& r, Kind k) {
    TaskSpec s{};
    s.id = next_id++;
    s.kind = k;
    s.yields = r.chance(0.5) ? int(r.range(0, 4)) : 0;
    s.sleep_ns = k == K_SLEEP ? r.range(1, 200) * MS : r.chance(0.1) ? r.range(0, 30) * MS : 0;
    s.nested_id = k == K_NESTED ? next_id++ : -1;
    return s;
}

std::string describe_plan(Plan const& p) {
    std::string d = "pool of " + std::to_string(p.pool_size) + ", submitters:";
    for(auto const& v : p.by_submitter) {
        d += " [";
        for(auto const& s : v) { d += kind_name[s.kind]; d += " "; }
        d += "]";
    }
    return d;
}

void common_faults(sim::Rng& r, sim::Params& p) {
    if(r.chance(0.5)) { p.p_fault[sim::F_SPURIOUS] = 0.3; p.max_faults[sim::F_SPURIOUS] = 20; }
    if(r.chance(0.4)) { p.p_fault[sim::F_STALL] = r.chance(0.5) ? 0.01 : 0.05; p.max_faults[sim::F_STALL] = 10; }
    if(r.chance(0.4)) { p.p_fault[sim::F_CLOCK_JUMP] = 0.02; p.max_faults[sim::F_CLOCK_JUMP] = 5; }
}

// ---- C01 -----------------------------------------------------------------------------
sim::Scenario c01(sim::Rng& r) {
    sim::Scenario sc;
    auto plan = std::make_shared<Plan>();
    plan->pool_size = int(r.range(1, 5));
    next_id = 0;
    int ns = int(r.range(1, 4));
    for(int i = 0; i < ns; ++i) {
        std::vector<TaskSpec> v;
        int nt = int(r.range(1, 8));
        for(int k = 0; k < nt; ++k) v.push_back(make_task(r, Kind(r.below(K_NR))));
        plan->by_submitter.push_back(v);
        plan->gap_ms.push_back(r.chance(0.7) ? 0 : int(r.range(1, 150)));
        plan->how.push_back(int(r.below(8)));
    }
    common_faults(r, sc.params);
    if(r.chance(0.5)) { sc.params.p_fault[sim::F_ALLOC] = 0.08; sc.params.max_faults[sim::F_ALLOC] = 4; }
    bool rdv = r.chance(0.6);
    sc.description = describe_plan(*plan);
    uint64_t order_seed = r.next();
    sc.body = [plan, rdv, order_seed] {
        Shared shared;
        G = &shared;
        {
            ThreadPool pool(size_t(plan->pool_size));
            sim::check(pool.size() == size_t(plan->pool_size), "wrong-size", "pool reports another size");
            int const n = int(plan->by_submitter.size());
            std::vector<std::vector<Handle>> handles(n);
            auto submitter = [&](int i) {
                { Quiet q; G->submitter[sim::tid()] = true; }
                sim::Rng r2(order_seed + uint64_t(i));
                auto const& tasks = plan->by_submitter[i];
                handles[i].resize(tasks.size());
                size_t got = 0;
                for(size_t k = 0; k < tasks.size(); ++k) {
                    submit(pool, tasks[k], handles[i][k]);
                    if(plan->gap_ms[i] && r2.chance(0.3)) sim::sleep_ns(plan->gap_ms[i] * MS);
                    // Sometimes wait right away, sometimes collect later.
                    if(r2.chance(0.3)) { for(; got <= k; ++got) finish(handles[i][got], plan->how[i], false); }
                }
                bool backwards = r2.chance(0.5);
                if(backwards) for(size_t k = tasks.size(); k-- > got;) finish(handles[i][k], plan->how[i], false);
                else for(size_t k = got; k < tasks.size(); ++k) finish(handles[i][k], plan->how[i], false);
            };
            std::vector<std::thread> ts;
            for(int i = 1; i < n; ++i) ts.emplace_back(submitter, i);
            submitter(0);
            for(auto& t : ts) t.join();
            sim::stop_faults();
            if(rdv) rendezvous(pool, plan->pool_size);
        }
        Quiet q;
        for(auto const& v : plan->by_submitter) for(auto const& s : v) {
            int want = shared.failed[s.id] ? 0 : 1;
            if(shared.count[s.id] != want)
                sim::violation("not-executed-once", "task " + std::to_string(s.id) + " executed " + std::to_string(shared.count[s.id]) + " times instead of " + std::to_string(want));
        }
        if(shared.functors != 0) sim::violation("leak", "copies of task functions are left");
        G = nullptr;
    };
    return sc;
}

// ---- C02 -----------------------------------------------------------------------------
sim::Scenario c02(sim::Rng& r) {
    sim::Scenario sc;
    auto plan = std::make_shared<Plan>();
    plan->pool_size = r.chance(0.35) ? 1 : int(r.range(2, 4));
    next_id = 0;
    int ns = r.chance(0.6) ? 1 : int(r.range(2, 3));
    int mode = int(r.below(4));       // 0 bursts, 1 lonely tasks after idle periods, 2 mixture, 3 idle pool
    for(int i = 0; i < ns; ++i) {
        std::vector<TaskSpec> v;
        int nt = int(r.range(1, mode == 1 ? 5 : 10));
        for(int k = 0; k < nt; ++k) {
            static Kind const ks[] = {K_VALUE, K_VOID, K_THROW, K_SLEEP, K_VALUE};
            TaskSpec s = make_task(r, ks[r.below(5)]);
            if(mode == 1 && s.sleep_ns > 50 * MS) s.sleep_ns = 50 * MS;
            v.push_back(s);
        }
        plan->by_submitter.push_back(v);
        plan->gap_ms.push_back(mode == 0 ? 0 : mode == 1 ? int(r.range(1, 400)) : r.chance(0.5) ? 0 : int(r.range(1, 250)));
        plan->how.push_back(0);
    }
    common_faults(r, sc.params);
    bool rdv = r.chance(0.5), idle = mode == 3 || r.chance(0.2), exact_gap = r.chance(0.5);
    uint64_t order_seed = r.next();
    sc.description = describe_plan(*plan) + (idle ? ", idle period" : "");
    sc.body = [=] {
        Shared shared;
        G = &shared;
        int64_t last_fault_time = 0;
        {
            ThreadPool pool(size_t(plan->pool_size));
            int const n = int(plan->by_submitter.size());
            std::vector<std::vector<Handle>> handles(n);
            auto submitter = [&](int i) {
                { Quiet q; G->submitter[sim::tid()] = true; }
                sim::Rng r2(order_seed + uint64_t(i));
                auto const& tasks = plan->by_submitter[i];
                handles[i].resize(tasks.size());
                for(size_t k = 0; k < tasks.size(); ++k) {
                    if(plan->gap_ms[i] && r2.chance(0.7)) {
                        // Land close to the moments at which the workers poll.
                        int64_t g = exact_gap ? r2.range(1, 4) * 100 * MS + r2.range(-3000, 3000) : r2.range(0, plan->gap_ms[i]) * MS;
                        sim::sleep_ns(g);
                    }
                    submit(pool, tasks[k], handles[i][k]);
                }
                for(auto& h : handles[i]) finish(h, 0, false);
            };
            std::vector<std::thread> ts;
            for(int i = 1; i < n; ++i) ts.emplace_back(submitter, i);
            submitter(0);
            for(auto& t : ts) t.join();
            last_fault_time = sim::now_ns();
            sim::stop_faults();
            if(rdv) {
                int64_t t = sim::now_ns();
                rendezvous(pool, plan->pool_size);
                sim::check(sim::now_ns() - t < 2 * POLL + sim::stalled_ns(), "late-start", "not all threads of the pool get to work in time");
                Quiet q;
                (void)last_fault_time;
            }
            if(idle) {
                // Idle threads sleep: time passes without the pool taking many steps.
                uint64_t s0 = sim::sync_steps();
                sim::sleep_ns(2000 * MS);
                uint64_t d = sim::sync_steps() - s0;
                sim::check(d < uint64_t(plan->pool_size) * 60000, "spinning", "idle pool took " + std::to_string(d) + " scheduling steps in 2 s");
                sim::probe("idle period");
                // And they are still there afterwards.
                int64_t t = sim::now_ns();
                rendezvous(pool, plan->pool_size);
                sim::check(sim::now_ns() - t < 2 * POLL, "late-start", "pool does not wake up in time after an idle period");
            }
        }
        // History checks.
        Quiet q;
        std::vector<TaskSpec> all;
        for(auto const& v : plan->by_submitter) for(auto const& s : v) all.push_back(s);
        int const N = plan->pool_size;
        for(auto const& s : all) {
            int id = s.id;
            if(shared.count[id] != 1) sim::violation("not-executed-once", "task " + std::to_string(id));
            // Overtaken: submitted before, started after.
            int overtaken = 0, unfinished = 0;
            for(auto const& o : all) {
                if(o.id == id) continue;
                if(shared.submit_end_step[o.id] < shared.submit_begin_step[id] && shared.start_step[o.id] > shared.start_step[id]) ++overtaken;
                // Could have occupied a thread of the pool, or was ahead in the queue, at some moment of the wait.
                if(shared.submit_begin_step[o.id] < shared.start_step[id] && shared.end[o.id] > shared.submit_begin[id]) ++unfinished;
            }
            if(overtaken > N - 1)
                sim::violation("order", "task " + std::to_string(id) + " is started before " + std::to_string(overtaken) + " tasks that were submitted before it, by a pool of " + std::to_string(N));
            int64_t wait = shared.start[id] - shared.submit_end[id];
            if(unfinished < N) {
                sim::probe("task submitted while a thread is idle");
                if(wait > POLL + sim::stalled_ns())
                    sim::violation("late-start", "task " + std::to_string(id) + " waits " + std::to_string(wait / MS) + " ms although a thread is idle");
            }
        }
        // Any number of tasks: the pool as a whole does not idle while tasks wait.
        // Total waiting is bounded by the work in front of the task.
        for(auto const& s : all) {
            int64_t work = 0;
            for(auto const& o : all) work += shared.end[o.id] - shared.start[o.id];
            int64_t wait = shared.start[s.id] - shared.submit_end[s.id];
            if(wait > work + POLL * int64_t(all.size() + 1) + sim::stalled_ns())
                sim::violation("late-start", "task " + std::to_string(s.id) + " waits longer than all the work in front of it");
        }
        G = nullptr;
    };
    return sc;
}

// ---- C03 -----------------------------------------------------------------------------
sim::Scenario c03(sim::Rng& r) {
    sim::Scenario sc;
    auto plan = std::make_shared<Plan>();
    plan->pool_size = int(r.range(1, 4));
    next_id = 0;
    std::vector<TaskSpec> v;
    int nt = r.chance(0.15) ? 0 : int(r.range(1, 14));
    bool long_tasks = r.chance(0.4);
    for(int k = 0; k < nt; ++k) {
        Kind kind = Kind(r.below(K_NR));
        if(long_tasks && r.chance(0.7)) kind = K_SLEEP;
        TaskSpec s = make_task(r, kind);
        v.push_back(s);
    }
    plan->by_submitter.push_back(v);
    common_faults(r, sc.params);
    int when = int(r.below(6));
    int64_t delay = r.chance(0.5) ? r.range(1, 350) * MS : r.range(0, 400) * 1000;
    int yields = int(r.range(0, 60));
    bool other_thread = r.chance(0.25), via_policy = r.chance(0.3), fast_gap = r.chance(0.3), drop_futures = r.chance(0.15);
    sc.description = describe_plan(*plan) + ", destroyed " +
        (when == 0 ? "at once" : when == 1 ? "after " + std::to_string(yields) + " yields" : when == 2 ? "after " + std::to_string(delay / 1000) + " us"
         : when == 3 ? "after one result" : when == 4 ? "when idle" : "close to a poll") + (via_policy ? " by the last policy" : "");
    sc.body = [=] {
        Shared shared;
        G = &shared;
        uint64_t const mem0 = sim::live_allocations();
        int const th0 = sim::live_threads();
        {
            std::vector<Handle> handles(plan->by_submitter[0].size());
            int64_t t_destroy = 0, t_gone = 0, stalled0 = 0;
            {
                std::unique_ptr<ThreadPool> own;
                std::unique_ptr<fern::algorithm::ParallelExecutionPolicy> policy, policy2;
                if(via_policy) {
                    policy.reset(new fern::algorithm::ParallelExecutionPolicy(size_t(plan->pool_size)));
                    policy2.reset(new fern::algorithm::ParallelExecutionPolicy(*policy));
                } else own.reset(new ThreadPool(size_t(plan->pool_size)));
                ThreadPool& pool = via_policy ? policy->thread_pool() : *own;
                { Quiet q; G->submitter[sim::tid()] = true; }
                auto const& tasks = plan->by_submitter[0];
                for(size_t k = 0; k < tasks.size(); ++k) {
                    submit(pool, tasks[k], handles[k]);
                    if(fast_gap) sim::yield_point();
                }
                switch(when) {
                    case 0: break;
                    case 1: for(int i = 0; i < yields; ++i) sim::yield_point(); break;
                    case 2: sim::sleep_ns(delay); break;
                    case 3: if(!handles.empty() && handles[0].s.kind != K_NESTED) finish(handles[0], 0, false); break;
                    case 4: sim::sleep_ns(5000 * MS); break;
                    default: sim::sleep_ns(100 * MS * (1 + int64_t(yields) % 3) + delay % 4000 - 2000); break;
                }
                if(when == 3 && !handles.empty() && handles[0].s.kind != K_NESTED) { Quiet q; handles[0].failed = true; }
                auto destroy = [&] {
                    { Quiet q; t_destroy = sim::now_ns(); stalled0 = sim::stalled_ns();
                      sim::probe(G->running ? "destroyed with running tasks" : "destroyed without running tasks"); }
                    if(via_policy) { policy.reset(); policy2.reset(); } else own.reset();
                    { Quiet q; t_gone = sim::now_ns(); }
                };
                if(other_thread) { std::thread t(destroy); t.join(); } else destroy();
            }
            {
                Quiet q;
                if(sim::live_threads() != th0) sim::violation("thread-leak", "threads of a destroyed pool are still alive");
                if(shared.running != 0) sim::violation("running-after-destruction", "tasks are still running");
                int64_t bound = POLL;
                // Tasks being executed, and at most one more per thread that was
                // being taken from the queue at that moment.
                std::vector<std::pair<int64_t, int64_t>> ran;
                int64_t longest = 0;
                int late = 0;
                for(int id = 0; id < next_id; ++id) if(shared.count[id]) {
                    longest = std::max(longest, shared.end[id] - shared.start[id]);
                    if(shared.start[id] > t_destroy + sim::stalled_ns() - stalled0 + MS) ++late;
                }
                bound += 2 * longest + sim::stalled_ns() * 2;   // A stall may have begun before.
                if(t_gone - t_destroy > bound)
                    sim::violation("slow-destruction", "destruction takes " + std::to_string((t_gone - t_destroy) / MS) + " ms, the longest task " + std::to_string(longest / MS) + " ms");
                for(int id = 0; id < next_id; ++id)
                    if(shared.count[id] != shared.finished[id]) sim::violation("unfinished-task", "a started task did not run to its end");
                (void)late;
            }
            // Outcomes: available without any thread left.
            int started[MAX_TASKS];
            { Quiet q; memcpy(started, shared.count, sizeof started); }
            int executed = 0, broken = 0;
            if(!drop_futures)
            for(auto& h : handles) {
                if(h.failed) continue;
                bool ran = finish(h, 0, true);
                Quiet q;
                if(ran != (started[h.s.id] == 1)) sim::violation("executed-late", "task executed after the destruction of its pool");
                ++(ran ? executed : broken);
            }
            Quiet q;
            if(broken) sim::probe("abandoned tasks");
            if(executed && broken) sim::probe("both executed and abandoned tasks");
        }
        Quiet q;
        for(int id = 0; id < next_id; ++id) if(shared.count[id] > 1) sim::violation("executed-twice", "");
        if(shared.functors != 0) sim::violation("leak", std::to_string(shared.functors) + " copies of task functions are left");
        if(sim::live_allocations() != mem0) sim::violation("leak", std::to_string(sim::live_allocations() - mem0) + " memory blocks are left");
        G = nullptr;
    };
    return sc;
}

// ---- C04 -----------------------------------------------------------------------------
sim::Scenario c04(sim::Rng& r) {
    sim::Scenario sc;
    int n = int(r.range(1, 8));
    int mode = int(r.below(4));          // 0 thread creation, 1 allocation, 2 both, 3 no fault
    bool via_policy = r.chance(0.4), default_size = via_policy && r.chance(0.5);
    int64_t idle = r.chance(0.3) ? r.range(0, 300) * MS : 0;
    if(mode == 0 || mode == 2) { sc.params.p_fault[sim::F_THREAD_CREATE] = 1.0 / double(r.range(1, n + 1)); sc.params.max_faults[sim::F_THREAD_CREATE] = 1; }
    if(mode == 1 || mode == 2) { sc.params.p_fault[sim::F_ALLOC] = 1.0 / double(r.range(1, 4 * n + 2)); sc.params.max_faults[sim::F_ALLOC] = 1; }
    if(r.chance(0.5)) { sc.params.p_fault[sim::F_SPURIOUS] = 0.3; sc.params.max_faults[sim::F_SPURIOUS] = 20; }
    if(r.chance(0.3)) { sc.params.p_fault[sim::F_STALL] = 0.02; sc.params.max_faults[sim::F_STALL] = 6; }
    int cpus = int(r.range(0, 6));
    sc.params.cpus = cpus;
    sc.description = "construct a pool of " + (default_size ? "default size on " + std::to_string(cpus) + " cpus" : std::to_string(n)) +
        (mode == 0 ? ", thread creation may fail" : mode == 1 ? ", allocation may fail" : mode == 2 ? ", thread creation and allocation may fail" : "") + (via_policy ? ", in a policy" : "");
    sc.body = [=] {
        Shared shared;
        G = &shared;
        uint64_t const mem0 = sim::live_allocations();
        int const th0 = sim::live_threads(), created0 = sim::threads_created();
        int const want = default_size ? std::max(1, cpus) : n;
        if(fern::hardware_concurrency() != size_t(std::max(1, cpus))) sim::violation("wrong-size", "hardware_concurrency()");
        for(int attempt = 0; attempt < 2; ++attempt) {
            if(attempt == 1) sim::stop_faults();
            int64_t const t0 = sim::now_ns();
            uint64_t const f0 = sim::injected(sim::F_THREAD_CREATE) + sim::injected(sim::F_ALLOC);
            int const c0 = sim::threads_created();
            bool threw = false;
            try {
                std::unique_ptr<ThreadPool> own;
                std::unique_ptr<fern::algorithm::ParallelExecutionPolicy> policy;
                ThreadPool* pool = nullptr;
                {
                    sim::AllocFaults on;
                    if(default_size) policy.reset(new fern::algorithm::ParallelExecutionPolicy);
                    else if(via_policy) policy.reset(new fern::algorithm::ParallelExecutionPolicy(size_t(n)));
                    else own.reset(new ThreadPool(size_t(n)));
                }
                pool = policy ? &policy->thread_pool() : own.get();
                {
                    Quiet q;
                    if(sim::injected(sim::F_THREAD_CREATE) + sim::injected(sim::F_ALLOC) != f0)
                        sim::violation("swallowed-failure", "the constructor succeeds although something failed");
                    if(sim::threads_created() - c0 != want) sim::violation("wrong-size", "another number of threads was created");
                }
                sim::check(pool->size() == size_t(want), "wrong-size", "the pool reports size " + std::to_string(pool->size()) + " instead of " + std::to_string(want));
                if(idle) sim::sleep_ns(idle);
                rendezvous(*pool, want);
            }
            catch(std::bad_alloc const&) { threw = true; sim::probe("constructor threw bad_alloc"); }
            catch(std::system_error const& e) {
                threw = true;
                sim::check(e.code() == std::make_error_code(std::errc::resource_unavailable_try_again), "wrong-exception", e.what());
                sim::probe("constructor threw system_error");
                if(sim::threads_created() - c0 > 0) sim::probe("constructor failed after creating some threads");
            }
            Quiet q;
            if(threw && sim::injected(sim::F_THREAD_CREATE) + sim::injected(sim::F_ALLOC) == f0)
                sim::violation("spurious-failure", "the constructor fails although nothing failed");
            if(sim::live_threads() != th0) sim::violation("thread-leak", std::to_string(sim::live_threads() - th0) + " threads are left");
            if(sim::live_allocations() != mem0) sim::violation("leak", std::to_string(sim::live_allocations() - mem0) + " memory blocks are left");
            int64_t const dt = sim::now_ns() - t0;
            int64_t const bound = (threw ? POLL : 4 * POLL + idle) + sim::stalled_ns() * 2;
            if(dt > bound) sim::violation("slow-construction", std::to_string(dt / MS) + " ms");
        }
        (void)created0;
        G = nullptr;
    };
    return sc;
}

// ---- C05 -----------------------------------------------------------------------------
// Elements that own memory, optionally throw when moved, and point to data the
// pusher wrote before pushing.
int elem_live = 0;
struct Elem {
    int id = -1;
    std::unique_ptr<int> mem;
    int* payload = nullptr;
    static bool throwing;
    Elem() { Quiet q; ++elem_live; }
    Elem(int i, int* p) : id(i), mem(new int(i)), payload(p) { Quiet q; ++elem_live; }
    Elem(Elem&& o) : id(-1) {
        may_throw();
        id = o.id; mem = std::move(o.mem); payload = o.payload; o.id = -1;
        Quiet q; ++elem_live;
    }
    Elem& operator=(Elem&& o) {
        may_throw();
        id = o.id; mem = std::move(o.mem); payload = o.payload; o.id = -1;
        return *this;
    }
    ~Elem() { Quiet q; --elem_live; }
    static void may_throw() { if(throwing && sim::fault(sim::F_USER)) throw TestError{-1}; }
};
bool Elem::throwing = false;

enum Op { O_PUSH, O_POP, O_EMPTY };
struct Event {
    Op op; int arg; int result;       // pop: id or -1; empty: 0/1
    bool failed;                      // threw: may or may not have taken effect
    uint64_t inv, res;
    int thread;
};

// Wing & Gong style search with memoisation on (set of done operations, queue contents).
struct Lin {
    std::vector<Event> const& h;
    std::set<std::pair<uint64_t, std::vector<int>>> seen;
    uint64_t all;
    bool gave_up = false;
    explicit Lin(std::vector<Event> const& e) : h(e), all(e.size() == 64 ? ~0ull : (1ull << e.size()) - 1) {}
    bool go(uint64_t done, std::vector<int> q, std::vector<int> const& final_q) {
        if(done == all) return q == final_q;
        if(seen.size() > 400000) { gave_up = true; return true; }
        if(!seen.insert({done, q}).second) return false;
        uint64_t first_res = ~0ull;
        for(size_t i = 0; i < h.size(); ++i) if(!(done >> i & 1)) first_res = std::min(first_res, h[i].res);
        for(size_t i = 0; i < h.size(); ++i) {
            if(done >> i & 1) continue;
            Event const& e = h[i];
            if(e.inv > first_res) continue;
            uint64_t d2 = done | 1ull << i;
            if(e.failed && go(d2, q, final_q)) return true;    // No effect.
            if(e.op == O_PUSH) { auto q2 = q; q2.push_back(e.arg); if(go(d2, q2, final_q)) return true; }
            else if(e.op == O_POP) {
                if(e.failed) continue;                          // The element stays.
                if(e.result < 0) { if(q.empty() && go(d2, q, final_q)) return true; }
                else if(!q.empty() && q.front() == e.result) { auto q2 = q; q2.erase(q2.begin()); if(go(d2, q2, final_q)) return true; }
            }
            else if((e.result != 0) == q.empty() && go(d2, q, final_q)) return true;
        }
        return false;
    }
};

sim::Scenario c05(sim::Rng& r) {
    sim::Scenario sc;
    int nth = int(r.range(2, 4));
    struct Step { Op op; int id; int gap; };
    auto plan = std::make_shared<std::vector<std::vector<Step>>>();
    int id = 0;
    std::string d;
    int bias = int(r.below(3));
    for(int t = 0; t < nth; ++t) {
        std::vector<Step> v;
        int n = int(r.range(1, 6));
        d += " [";
        for(int k = 0; k < n; ++k) {
            uint64_t x = r.below(10);
            Op op = x < 1 ? O_EMPTY : x < (bias == 0 ? 5u : bias == 1 ? 7u : 4u) ? O_PUSH : O_POP;
            v.push_back({op, op == O_PUSH ? id++ : -1, r.chance(0.3) ? int(r.range(0, 3)) : 0});
            d += op == O_PUSH ? "push " : op == O_POP ? "pop " : "empty ";
        }
        d += "]";
        plan->push_back(v);
    }
    int prefill = r.chance(0.3) ? int(r.range(1, 70)) : 0;   // Crosses the nodes of a deque.
    bool throwing = r.chance(0.3);
    if(throwing) { sc.params.p_fault[sim::F_USER] = 0.1; sc.params.max_faults[sim::F_USER] = 3; }
    if(r.chance(0.4)) { sc.params.p_fault[sim::F_ALLOC] = 0.2; sc.params.max_faults[sim::F_ALLOC] = 3; }
    sc.description = "queue, prefilled with " + std::to_string(prefill) + "," + d + (throwing ? ", moves may throw" : "");
    sc.body = [=] {
        clock_step = 0;
        { Quiet q; elem_live = 0; Elem::throwing = false; }
        std::vector<int> payload(size_t(id) + size_t(prefill) + 1, 0);
        std::vector<Event> hist;
        {
            Quiet q;
            hist.reserve(200);
        }
        std::vector<int> final_q;
        uint64_t const mem0 = sim::live_allocations();
        {
            ThreadSafeQueue<Elem> queue;
            sim::check(queue.empty(), "not-empty", "a new queue is not empty");
            std::vector<Event> pre;
            for(int i = 0; i < prefill; ++i) {
                int e = id + i;
                payload[size_t(e)] = e + 1000;
                queue.push(Elem(e, &payload[size_t(e)]));
            }
            { Quiet q; Elem::throwing = throwing; }
            auto worker = [&](int t) {
                for(Step const& s : (*plan)[size_t(t)]) {
                    for(int g = 0; g < s.gap; ++g) sim::yield_point();
                    Event e{s.op, s.id, 0, false, 0, 0, t};
                    if(s.op == O_PUSH) {
                        payload[size_t(s.id)] = s.id + 1000;
                        bool made = false;
                        try {
                            Elem x(s.id, &payload[size_t(s.id)]);
                            made = true;
                            e.inv = stamp();
                            sim::AllocFaults on;
                            queue.push(std::move(x));
                        }
                        catch(std::bad_alloc const&) { e.failed = true; sim::probe("push failed: bad_alloc"); }
                        catch(TestError const&) { e.failed = true; sim::probe("push failed: element threw"); }
                        if(!made) sim::harness_error("element");
                    } else if(s.op == O_POP) {
                        Elem x;
                        e.inv = stamp();
                        e.result = -1;
                        try {
                            if(queue.try_pop(x)) {
                                e.result = x.id;
                                if(x.id < 0 || !x.mem || *x.mem != x.id) sim::violation("corrupt-element", "popped element is damaged");
                                // Race checked: ordered after the push.
                                if(*x.payload != x.id + 1000) sim::violation("lost-visibility", "popper does not see the pusher's writes");
                            }
                        }
                        catch(TestError const&) { e.failed = true; sim::probe("pop failed: element threw"); }
                    } else {
                        e.inv = stamp();
                        e.result = queue.empty() ? 1 : 0;
                    }
                    e.res = stamp();
                    sim::event(uint64_t(e.op) * 1000 + uint64_t(e.result + 1));
                    Quiet q;
                    hist.push_back(e);
                }
            };
            std::vector<std::thread> ts;
            for(int t = 1; t < nth; ++t) ts.emplace_back(worker, t);
            worker(0);
            for(auto& t : ts) t.join();
            sim::stop_faults();
            { Quiet q; Elem::throwing = false; }
            // What is left.
            for(;;) {
                bool emp = queue.empty();
                Elem x;
                if(!queue.try_pop(x)) { sim::check(emp, "bad-empty", "empty() disagrees with try_pop()"); break; }
                sim::check(!emp, "bad-empty", "empty() disagrees with try_pop()");
                if(x.id < 0 || !x.mem || *x.mem != x.id) sim::violation("corrupt-element", "remaining element is damaged");
                Quiet q;
                final_q.push_back(x.id);
            }
            // And it still works.
            payload[0] = 1000;
            queue.push(Elem(0, &payload[0]));
            Elem x;
            sim::check(!queue.empty() && queue.try_pop(x) && x.id == 0 && queue.empty(), "unusable", "queue does not work afterwards");
        }
        {
            Quiet q;
            if(elem_live != 0) sim::violation("leak", "elements are left");
        }
        std::string& text = *new std::string;
        bool ok;
        {
            Quiet q;
            sim::Suspend outside;
            std::vector<int> q0;
            for(int i = 0; i < prefill; ++i) q0.push_back(id + i);
            Lin lin(hist);
            ok = lin.go(0, q0, final_q);
            sim::probe(lin.gave_up ? "linearizability search given up" : "linearizability search completed");
            if(!ok) for(auto const& e : hist) {
                text += " T" + std::to_string(e.thread) + (e.op == O_PUSH ? ":push(" + std::to_string(e.arg) + ")" : e.op == O_POP ? ":pop=" + std::to_string(e.result) : ":empty=" + std::to_string(e.result))
                    + (e.failed ? "!" : "") + "@" + std::to_string(e.inv) + ".." + std::to_string(e.res);
            }
        }
        if(!ok) sim::violation("not-linearizable", text);
        delete &text;
        (void)mem0;
    };
    return sc;
}

} // namespace

void sim::warm_up() {
    // One-time initialisations of the standard library.
    try { std::promise<int> p; auto f = p.get_future(); { std::promise<int> q(std::move(p)); } f.get(); } catch(std::exception const& e) { std::string s = e.what(); }
    try { throw std::system_error(std::make_error_code(std::errc::resource_unavailable_try_again)); } catch(std::exception const& e) { std::string s = e.what(); }
}

sim::Scenario sim::make_scenario(sim::Rng& rng, uint64_t) {
    static std::string const prop = sim::option("prop", "C01");
    sim::Scenario sc;
    Params base;
    sim::Rng srng(rng.next());
    if(prop == "C01") sc = c01(rng);
    else if(prop == "C02") sc = c02(rng);
    else if(prop == "C03") sc = c03(rng);
    else if(prop == "C04") sc = c04(rng);
    else if(prop == "C05") sc = c05(rng);
    else sim::harness_error("unknown property");
    int cpus = sc.params.cpus;
    swarm_schedule(srng, sc.params);
    if(prop == "C04") sc.params.cpus = cpus;
    return sc;
}
