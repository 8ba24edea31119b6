// Deterministic simulator: scheduler, simulated time, happens-before race
// detection, allocation faults.  Not instrumented itself.
#ifndef _GNU_SOURCE
#define _GNU_SOURCE
#endif
#include "rt.h"
#include "rt_internal.h"

#include <cerrno>
#include <climits>
#include <csignal>
#include <cstdarg>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <malloc.h>
#include <ctime>
#include <dlfcn.h>
#include <exception>
#include <linux/futex.h>
#include <new>
#include <pthread.h>
#include <semaphore.h>
#include <sched.h>
#include <sys/mman.h>
#include <linux/membarrier.h>
#include <sys/syscall.h>
#include <sys/time.h>
#include <unistd.h>

namespace sim {

char const* const fault_name[F_NR] = {
    "allocation_failure", "thread_creation_failure", "spurious_wakeup", "stalled_thread",
    "clock_jump", "io_error", "io_short", "io_eintr", "io_corrupt", "io_eof", "io_delay",
    "user_exception"};

void (*on_violation)(std::string const&, std::string const&) = nullptr;

// ---- raw system calls -------------------------------------------------------------
static inline long raw6(long n, long a, long b, long c, long d, long e, long f) {
    long ret;
    register long r10 __asm__("r10") = d;
    register long r8 __asm__("r8") = e;
    register long r9 __asm__("r9") = f;
    __asm__ volatile("syscall" : "=a"(ret) : "a"(n), "D"(a), "S"(b), "d"(c), "r"(r10), "r"(r8), "r"(r9)
                     : "rcx", "r11", "memory");
    return ret;
}

// ---- real functions ---------------------------------------------------------------
template<class F> static F real(char const* name) {
    F f = reinterpret_cast<F>(dlsym(RTLD_NEXT, name));
    if(!f) { fprintf(stderr, "sim: no real %s\n", name); abort(); }
    return f;
}
#define REAL(name) ([]{ static decltype(&::name) f = nullptr; if(!f) f = real<decltype(&::name)>(#name); return f; }())

// ---- memory of the runtime --------------------------------------------------------
template<class T> struct MAlloc {
    using value_type = T;
    MAlloc() = default;
    template<class U> MAlloc(MAlloc<U> const&) {}
    T* allocate(size_t n) { return static_cast<T*>(malloc(n * sizeof(T))); }
    void deallocate(T* p, size_t) { free(p); }
    template<class U> bool operator==(MAlloc<U> const&) const { return true; }
    template<class U> bool operator!=(MAlloc<U> const&) const { return false; }
};
template<class T> using MVec = std::vector<T, MAlloc<T>>;

// ---- layout of simulated memory ---------------------------------------------------
static constexpr int MAXT = 72;
static constexpr uintptr_t REG = 0x200000000000ull;
static constexpr size_t STACK0 = 8u << 20, STACKN = 1u << 20;
static constexpr uintptr_t HEAP = REG + (128u << 20);
static constexpr size_t HEAP_SIZE = 1u << 30;
static constexpr uintptr_t REG_END = HEAP + HEAP_SIZE;

static inline uintptr_t stack_lo(int t) { return t == 0 ? REG : REG + STACK0 + size_t(t - 1) * STACKN; }
static inline size_t stack_size(int t) { return t == 0 ? STACK0 : STACKN; }
static inline int stack_owner(uintptr_t a) {
    if(a < REG + STACK0) return 0;
    int t = 1 + int((a - REG - STACK0) / STACKN);
    return t < MAXT ? t : -1;
}

struct Cell {                 // Shadow of 8 bytes.
    uint32_t gen;
    uint8_t alloc;            // Valid bytes (heap only).
    uint8_t flags;
    uint8_t n;
    uint8_t victim;
    uint64_t e[7];            // clk << 32 | tid << 16 | mask << 8 | atomic << 1 | write
};
static_assert(sizeof(Cell) == 64, "");
enum { C_FREED = 1, C_PROT = 2 };
static Cell* shadow_reg = nullptr;
static Cell* shadow_glob = nullptr;
extern "C" char __data_start[], _end[];
static uintptr_t glob_lo, glob_hi;

// ---- threads ----------------------------------------------------------------------
enum State : uint8_t { RUN, BLK, DONE };
enum Wait : uint8_t { W_NONE, W_MUTEX, W_COND, W_FUTEX, W_JOIN, W_SLEEP, W_ONCE, W_RW, W_SEM };
static char const* const wait_name[] = {"-", "mutex", "condition", "futex", "join", "sleep", "once", "rwlock", "semaphore"};

struct VC { uint32_t c[MAXT]; };

struct Th {
    int id;
    State state;
    Wait wait;
    void const* obj;
    int64_t deadline;         // -1: none
    bool deadline_real;       // against the realtime clock
    bool timed_out;
    bool joined, detached, really_joined;
    int alloc_depth;
    int ignore;
    uintptr_t sp;
    int volatile go;
    pthread_t handle;
    void* (*fn)(void*);
    void* arg;
    void* ret;
    VC vc;
    VC acq_pending, rel_fence;
    bool has_acq_pending, has_rel_fence;
    int prio;
    bool exiting;
    uint32_t pc_depth;
};

static thread_local Th* self = nullptr;

struct Obj {                  // State of one synchronisation object, by address.
    void const* addr;
    uint32_t gen;
    int owner;                // tid or -1
    int count;                // recursion; readers for rwlock; value of a semaphore
    int once;                 // 0 none, 1 running, 2 done
    bool init;
    VC vc;
};

static constexpr uint32_t OBJ_SLOTS = 1u << 15;

struct Run {
    bool on = false;
    uint32_t gen = 0;
    Params p;
    Rng rng{1}, frng{2};
    uint64_t seed = 0;
    bool replaying = false;
    Trace const* replay = nullptr;
    size_t replay_i = 0;
    MVec<FaultAt> replay_faults;
    MVec<Decision> rec;
    MVec<FaultAt> rec_faults;
    uint64_t step = 0, sync_steps = 0, trigger = 0, switches = 0;
    uint64_t max_sync = 0;
    int64_t now = 0, real_off = 0, stalled = 0;
    Th th[MAXT];
    int nth = 0;
    int cur = 0;
    uint64_t hash = 0, inter = 0;
    uint64_t fault_n[F_NR] = {}, injected[F_NR] = {};
    bool faults_off = false;
    bool alloc_workers = false;
    uint64_t alloc_limit = 0;
    uintptr_t heap_base = HEAP, heap_top = HEAP;
    uint64_t live = 0, live_bytes = 0;
    uint64_t consecutive = 0;
    MVec<uint64_t> change_points;
    int next_low_prio = -1;
    char const* ctx = "";
};
static Run R;
static Obj* objs = nullptr;
static char const* prot_what = "";
static Stats S;
static std::string* description = nullptr;
struct ProbeRec { char const* name; uint64_t n; };
static ProbeRec probe_tab[256];
static int probe_n = 0;

Stats& stats() { return S; }

static inline void mix(uint64_t v) {
    R.hash = (R.hash ^ v) * 0x100000001B3ull;
    R.hash ^= R.hash >> 29;
}

// ---- violations -------------------------------------------------------------------
static void fill_result(Result& r) {
    r.hash = R.hash; r.interleaving = R.inter; r.steps = R.step; r.sync_steps = R.sync_steps;
    r.switches = R.switches; r.sim_ns = R.now; r.threads = R.nth;
    for(int i = 0; i < F_NR; ++i) r.injected[i] = R.injected[i];
    r.trace.schedule.assign(R.rec.begin(), R.rec.end());
    r.trace.faults.assign(R.rec_faults.begin(), R.rec_faults.end());
}
Result current_result() { Result r; fill_result(r); return r; }

std::string current_description() { return description ? *description : std::string(); }
std::string current_context() { return R.ctx; }
uint64_t current_seed() { return R.seed; }

void violation(std::string const& kind, std::string const& detail) {
    self = nullptr;                       // From here on everything is real.
    if(on_violation) on_violation(kind, detail);
    fprintf(stderr, "VIOLATION %s: %s\n", kind.c_str(), detail.c_str());
    _exit(99);
}
void harness_error_c(char const* what) {
    self = nullptr;
    fprintf(stderr, "HARNESS-ERROR %s\n", what);
    fflush(stderr);
    _exit(98);
}
void harness_error(std::string const& what) {
    self = nullptr;
    fprintf(stderr, "HARNESS-ERROR %s\n", what.c_str());
    fflush(stderr);
    _exit(98);
}

static std::string where_all() {
    std::string s;
    for(int i = 0; i < R.nth; ++i) {
        Th& t = R.th[i];
        char b[96];
        snprintf(b, sizeof b, "%sT%d:%s%s%s", i ? " " : "", i,
                 t.state == RUN ? "runnable" : t.state == DONE ? "done" : "waits-for-",
                 t.state == BLK ? wait_name[t.wait] : "", "");
        s += b;
    }
    return s;
}

// ---- token passing ----------------------------------------------------------------
static inline void go_wait(Th* t) {
    while(t->go == 0) raw6(SYS_futex, (long)&t->go, FUTEX_WAIT_PRIVATE, 0, 0, 0, 0);
    t->go = 0;
    __sync_synchronize();
}
static inline void go_post(Th* t) {
    __sync_synchronize();
    t->go = 1;
    raw6(SYS_futex, (long)&t->go, FUTEX_WAKE_PRIVATE, 1, 0, 0, 0);
}

static inline int64_t clock_of(Th const& t) { return t.deadline_real ? R.now + R.real_off : R.now; }

static void wake_expired() {
    for(int i = 0; i < R.nth; ++i) {
        Th& t = R.th[i];
        if(t.state == BLK && t.deadline >= 0 && clock_of(t) >= t.deadline) {
            t.state = RUN; t.timed_out = true; t.deadline = -1;
        }
    }
}

static bool advance_time() {
    int64_t best = -1;
    for(int i = 0; i < R.nth; ++i) {
        Th& t = R.th[i];
        if(t.state == BLK && t.deadline >= 0) {
            int64_t wait = t.deadline - clock_of(t);
            if(wait < 0) wait = 0;
            if(best < 0 || wait < best) best = wait;
        }
    }
    if(best < 0) return false;
    R.now += best;
    if(R.now > R.p.max_time_ns)
        violation("no-progress", "simulated time limit reached while waiting: " + where_all());
    wake_expired();
    return true;
}

static int cands[MAXT];
static int collect(int exclude) {
    int n = 0;
    for(int i = 0; i < R.nth; ++i) if(i != exclude && R.th[i].state == RUN) cands[n++] = i;
    return n;
}

// Default when the current thread cannot go on: the next runnable thread, cyclically.
static int default_next() {
    for(int k = 1; k <= R.nth; ++k) {
        int i = (R.cur + k) % R.nth;
        if(R.th[i].state == RUN) return i;
    }
    return -1;
}

static int pick(int n) {      // Among cands[0..n).
    if(R.p.strategy == 1) {
        int best = cands[0];
        for(int i = 1; i < n; ++i) if(R.th[cands[i]].prio > R.th[best].prio) best = cands[i];
        return best;
    }
    if(n > 1 && R.p.slow_thread >= 0) {
        int m = 0;
        bool has_slow = false;
        for(int i = 0; i < n; ++i) if(cands[i] == R.p.slow_thread) has_slow = true;
        if(has_slow) {
            if(R.rng.below(30) == 0) return R.p.slow_thread;
            for(int i = 0; i < n; ++i) if(cands[i] != R.p.slow_thread) cands[m++] = cands[i];
            n = m;
        }
    }
    return cands[R.rng.below(n)];
}

static void set_trigger() {
    uint64_t t = R.step + (1u << 20);
    if(R.replaying) {
        auto const& s = R.replay->schedule;
        while(R.replay_i < s.size() && s[R.replay_i].step <= R.step) ++R.replay_i;
        if(R.replay_i < s.size() && s[R.replay_i].step < t) t = s[R.replay_i].step;
    } else if(R.p.p_plain > 0) {
        double u = R.rng.real();
        uint64_t gap = 1 + uint64_t(-__builtin_log(1.0 - u) / R.p.p_plain);
        if(R.step + gap < t) t = R.step + gap;
    }
    R.trigger = t;
}

static void transfer(int to) {   // Give the token to another thread and wait for it.
    if(to == self->id) return;
    ++R.switches;
    R.consecutive = 0;
    Th* me = self;
    me->sp = reinterpret_cast<uintptr_t>(__builtin_frame_address(0));
    R.cur = to;
    go_post(&R.th[to]);
    go_wait(me);
}

static void record(int to) { R.rec.push_back(Decision{R.step, to}); }

static int replay_choice() {     // -1: no decision at this step.
    auto const& s = R.replay->schedule;
    while(R.replay_i < s.size() && s[R.replay_i].step < R.step) ++R.replay_i;
    if(R.replay_i < s.size() && s[R.replay_i].step == R.step) return s[R.replay_i].tid;
    return -1;
}

// The current thread is blocked (or done): choose who continues.
static int next_after_block() {
    ++R.step;
    for(;;) {
        int n = collect(-1);
        if(n > 0) {
            int def = default_next(), to;
            if(R.replaying) {
                to = replay_choice();
                if(to < 0 || to >= R.nth || R.th[to].state != RUN) to = def;
            } else {
                to = pick(n);
            }
            if(to != def) record(to);
            set_trigger();
            mix(0x1000 + to);
            return to;
        }
        if(!advance_time()) violation("deadlock", where_all());
    }
}

static void block() {            // self->state is BLK; returns when runnable and chosen.
    R.th[self->id].timed_out = false;
    int to = next_after_block();
    transfer(to);
}

static void maybe_switch(double prob) {
    int to = -1;
    if(R.replaying) {
        to = replay_choice();
        if(to < 0 || to == self->id || to >= R.nth || R.th[to].state != RUN) { set_trigger(); return; }
    } else {
        int n = collect(self->id);
        if(n == 0) { if(R.step >= R.trigger) set_trigger(); return; }
        if(R.p.strategy == 1) {
            while(!R.change_points.empty() && R.change_points.back() <= R.sync_steps) {
                R.change_points.pop_back();
                self->prio = R.next_low_prio--;
            }
            if(R.consecutive > 3000) { self->prio = R.next_low_prio--; }
            int best = pick(n);
            if(R.th[best].prio <= self->prio) return;
            to = best;
        } else {
            if(R.p.strategy == 2) prob = R.consecutive > 3000 ? 1.0 : prob * 0.02;
            if(R.consecutive > 20000) prob = 1.0;
            if(!(R.rng.real() < prob)) return;
            to = pick(n);
        }
    }
    record(to);
    set_trigger();
    mix(0x2000 + to);
    transfer(to);
}

static void plain_slow() {
    if(R.step > R.p.max_steps) violation("no-progress", "step limit reached: " + where_all());
    if(!R.replaying && R.p.p_plain <= 0) { set_trigger(); return; }
    if(R.p.strategy == 1 && !R.replaying) {       // A change point at a plain access.
        int n = collect(self->id);
        if(n == 0) { set_trigger(); return; }
        int to = cands[R.rng.below(n)];
        self->prio = R.next_low_prio--;
        record(to); set_trigger(); mix(0x2000 + to); transfer(to);
        return;
    }
    maybe_switch(1.0);
    if(R.step >= R.trigger) set_trigger();
}

static inline void point_plain() {
    if(__builtin_expect(++R.step >= R.trigger, 0)) plain_slow();
}

static void fault_points_time();

static void point_sync(int kind, double prob) {
    ++R.step; ++R.sync_steps; ++R.consecutive;
    R.now += 60;
    uint64_t k = uint64_t(kind) * 131 + uint64_t(self->id);
    mix(k);
    R.inter = (R.inter ^ k) * 0x9E3779B97F4A7C15ull; R.inter ^= R.inter >> 31;
    if(R.sync_steps > R.max_sync) violation("no-progress", "scheduling step limit reached: " + where_all());
    wake_expired();
    fault_points_time();
    maybe_switch(prob);
    if(R.step >= R.trigger) set_trigger();
}

// ---- faults -----------------------------------------------------------------------
bool fault(Fault kind, int64_t arg_range, int64_t* arg) {
    if(!self || R.faults_off) return false;
    uint64_t nth = ++R.fault_n[kind];
    ++S.fault_points[kind];
    if(R.replaying) {
        for(auto const& f : R.replay_faults) if(f.kind == kind && f.nth == nth) {
            if(arg) *arg = arg_range > 0 && f.arg >= arg_range ? f.arg % arg_range : f.arg;
            R.rec_faults.push_back(f);
            ++R.injected[kind]; ++S.fault_injected[kind];
            mix(0x3000 + kind);
            return true;
        }
        return false;
    }
    if(R.p.p_fault[kind] <= 0 || R.injected[kind] >= R.p.max_faults[kind]) return false;
    if(!(R.frng.real() < R.p.p_fault[kind])) return false;
    int64_t a = arg_range > 0 ? int64_t(R.frng.below(uint64_t(arg_range))) : 0;
    if(arg) *arg = a;
    R.rec_faults.push_back(FaultAt{kind, nth, a});
    ++R.injected[kind]; ++S.fault_injected[kind];
    mix(0x3000 + kind);
    return true;
}
uint64_t injected(Fault kind) { return R.injected[kind]; }

static void fault_points_time() {
    if(R.faults_off) return;
    if(!R.replaying && R.p.p_fault[F_STALL] <= 0 && R.p.p_fault[F_CLOCK_JUMP] <= 0) return;
    int64_t a;
    if((R.replaying || R.p.p_fault[F_STALL] > 0) && fault(F_STALL, 1 << 20, &a)) {
        // Log-uniform between 1 us and about 0.5 s.
        int64_t ns = int64_t(1000) << (a % 20);
        R.stalled += ns;
        self->state = BLK; self->wait = W_SLEEP; self->obj = nullptr;
        self->deadline = R.now + ns; self->deadline_real = false;
        block();
        ++R.step;                 // Every decision has a step of its own.
    }
    if((R.replaying || R.p.p_fault[F_CLOCK_JUMP] > 0) && fault(F_CLOCK_JUMP, 7200, &a)) {
        R.real_off += (a - 3600) * 1000000000ll;
        wake_expired();
    }
}

// ---- synchronisation objects ------------------------------------------------------
static Obj& obj(void const* addr) {
    uint64_t h = reinterpret_cast<uintptr_t>(addr) * 0x9E3779B97F4A7C15ull;
    uint32_t i = uint32_t(h >> 49);
    for(uint32_t k = 0; k < OBJ_SLOTS; ++k, i = (i + 1) & (OBJ_SLOTS - 1)) {
        Obj& o = objs[i];
        if(o.gen != R.gen) {
            o.gen = R.gen; o.addr = addr; o.owner = -1; o.count = 0; o.once = 0; o.init = false;
            memset(&o.vc, 0, sizeof o.vc);
            return o;
        }
        if(o.addr == addr) return o;
    }
    harness_error_c("too many synchronisation objects");
}
static inline void join(VC& a, VC const& b) {
    for(int i = 0; i < R.nth; ++i) if(b.c[i] > a.c[i]) a.c[i] = b.c[i];
}
static inline void acquire(Obj& o) { join(self->vc, o.vc); }
static inline void release(Obj& o) { join(o.vc, self->vc); ++self->vc.c[self->id]; }
static inline void release_store(Obj& o) { o.vc = self->vc; ++self->vc.c[self->id]; }

static void wake_waiters(Wait w, void const* addr, int max = INT_MAX) {
    for(int i = 0; i < R.nth && max > 0; ++i) {
        Th& t = R.th[i];
        if(t.state == BLK && t.wait == w && t.obj == addr) { t.state = RUN; t.deadline = -1; --max; }
    }
}
static void wake_random(Wait w, void const* addr, int max) {
    // Which waiter is woken is a scheduling decision: the scheduler's random
    // stream decides, and the choice is recorded like a switch.
    while(max-- > 0) {
        int c[MAXT], n = 0;
        for(int i = 0; i < R.nth; ++i) {
            Th& t = R.th[i];
            if(t.state == BLK && t.wait == w && t.obj == addr) c[n++] = i;
        }
        if(n == 0) return;
        ++R.step;
        int to = c[0];
        if(R.replaying) {
            int x = replay_choice();
            for(int k = 0; k < n; ++k) if(c[k] == x) to = x;
        } else {
            to = c[R.rng.below(n)];
        }
        if(to != c[0]) record(to);
        if(R.step >= R.trigger || R.replaying) set_trigger();
        R.th[to].state = RUN; R.th[to].deadline = -1;
    }
}

static void wait_on(Wait w, void const* addr, int64_t deadline = -1, bool is_real = false) {
    self->state = BLK; self->wait = w; self->obj = addr;
    self->deadline = deadline; self->deadline_real = is_real;
    block();
    self->wait = W_NONE;
}

// ---- access checking --------------------------------------------------------------
static std::string sym(void* pc) {
    Dl_info i;
    char b[256];
    if(pc && dladdr(pc, &i) && i.dli_fbase)
        snprintf(b, sizeof b, "pc=0x%lx", (unsigned long)((char*)pc - (char*)i.dli_fbase));
    else snprintf(b, sizeof b, "pc=%p", pc);
    return b;
}

[[gnu::noinline]] static void bad_access(char const* kind, uintptr_t a, size_t size, bool w, void* pc, int other) {
    char b[256];
    snprintf(b, sizeof b, "%s of %zu bytes by thread %d%s%s", w ? "write" : "read", size, self->id,
             other >= 0 ? ", other thread " : "", other >= 0 ? std::to_string(other).c_str() : "");
    char const* region = a >= HEAP && a < REG_END ? "heap" : a >= REG && a < HEAP ? "stack" : "global";
    violation(kind, std::string(b) + " in " + region + " memory, " + sym(pc) + ", during " + R.ctx);
}

static inline Cell* cell_of(uintptr_t a) {
    if(a >= REG && a < REG_END) return shadow_reg + ((a - REG) >> 3);
    if(a >= glob_lo && a < glob_hi) return shadow_glob + ((a - glob_lo) >> 3);
    return nullptr;
}

static void access(uintptr_t a, size_t size, bool w, bool at, void* pc) {
    if(!self || size == 0 || self->ignore) return;
    point_plain();
    Cell* c = cell_of(a);
    if(!c) return;
    Th& me = *self;
    bool heap = a >= R.heap_base && a < REG_END;
    if(!heap && a >= REG && a < HEAP) {
        int o = stack_owner(a);
        if(o >= 0 && o != me.id && o < R.nth && !me.ignore) {
            if(R.th[o].state == DONE) bad_access("dangling-access", a, size, w, pc, o);
            if(R.th[o].sp && a + 256 < R.th[o].sp) bad_access("dangling-access", a, size, w, pc, o);
        }
    }
    uint32_t const myclk = me.vc.c[me.id];
    uintptr_t end = a + size;
    while(a < end) {
        unsigned off = a & 7;
        unsigned n = unsigned(end - a < 8 - off ? end - a : 8 - off);
        uint8_t mask = uint8_t(((1u << n) - 1) << off);
        if(c->gen != R.gen) { c->gen = R.gen; c->alloc = 0; c->flags = 0; c->n = 0; c->victim = 0; }
        if(heap && (mask & ~c->alloc) && !me.ignore)
            bad_access(c->flags & C_FREED ? "use-after-free" : "out-of-bounds", a, size, w, pc, -1);
        if(w && (c->flags & C_PROT) && !me.ignore)
            violation("input-modified", std::string("write to ") + prot_what + " during " + R.ctx + " " + sym(pc));
        if(!me.ignore) {
            int keep = 0;
            bool done = false;
            for(int i = 0; i < c->n; ++i) {
                uint64_t e = c->e[i];
                int t = int((e >> 16) & 0xff);
                uint8_t m = uint8_t(e >> 8);
                bool ew = e & 1, ea = e & 2;
                if(m & mask) {
                    if(t != me.id) {
                        if((w || ew) && !(at && ea) && uint32_t(e >> 32) > me.vc.c[t])
                            bad_access("data-race", a, size, w, pc, t);
                        if(w && !(m & ~mask)) continue;              // Superseded.
                    } else {
                        if(!(m & ~mask) && (w || !ew) && (!at || ea)) {
                            if(done) continue;
                            e = uint64_t(myclk) << 32 | uint64_t(me.id) << 16 | uint64_t(mask) << 8 | (at ? 2 : 0) | (w ? 1 : 0);
                            done = true;
                        } else if(!(mask & ~m) && (ew || !w) && (!ea || at) && uint32_t(e >> 32) == myclk) {
                            done = true;
                        }
                    }
                }
                c->e[keep++] = e;
            }
            c->n = uint8_t(keep);
            if(!done) {
                uint64_t e = uint64_t(myclk) << 32 | uint64_t(me.id) << 16 | uint64_t(mask) << 8 | (at ? 2 : 0) | (w ? 1 : 0);
                if(c->n < 7) c->e[c->n++] = e;
                else { c->e[c->victim % 7] = e; ++c->victim; }
            }
        }
        a += n;
        ++c;
    }
    ++S.races_checked;
}

// ---- heap -------------------------------------------------------------------------
struct Hdr { uint64_t size; uint32_t magic; uint32_t gen; };
static constexpr uint32_t MAGIC = 0xA110CA7E, FREED = 0xDEADF4EE;

static bool alloc_may_fail() {
    if(self->alloc_depth < 0) return false;
    // A second failure while an exception is on its way could only terminate
    // the program: abandoned promises allocate in their destructors.
    if(std::uncaught_exceptions()) return false;
    return self->alloc_depth > 0 || (R.alloc_workers && self->id != 0);
}

static void* sim_new(size_t n, size_t align) {
    if(alloc_may_fail()) {
        point_sync(90, R.p.p_atomic);
        if(R.alloc_limit && n > R.alloc_limit) return nullptr;
        if(fault(F_ALLOC)) return nullptr;
    }
    if(n > HEAP_SIZE / 4) return nullptr;
    if(align < 16) align = 16;
    uintptr_t p = R.heap_top + sizeof(Hdr);
    p = (p + align - 1) & ~(align - 1);
    uintptr_t next = (p + n + 16 + 15) & ~uintptr_t(15);
    if(next + 4096 > REG_END) {
        if(R.heap_base - HEAP > HEAP_SIZE / 2) harness_error_c("simulated heap exhausted");
        violation("no-progress", "half a gigabyte is allocated in one run during " + current_context());
    }
    R.heap_top = next;
    Hdr* h = reinterpret_cast<Hdr*>(p) - 1;
    h->size = n; h->magic = MAGIC; h->gen = R.gen;
    Cell* c = cell_of(p);
    for(size_t i = 0; i < n; i += 8, ++c) {
        c->gen = R.gen; c->flags = 0; c->n = 0; c->victim = 0;
        size_t k = n - i < 8 ? n - i : 8;
        c->alloc = uint8_t((1u << k) - 1);
    }
    memset(reinterpret_cast<void*>(p), 0xA5, n);
    ++R.live; R.live_bytes += n;
    return reinterpret_cast<void*>(p);
}

static void sim_delete(void* ptr) {
    uintptr_t p = reinterpret_cast<uintptr_t>(ptr);
    Hdr* h = reinterpret_cast<Hdr*>(p) - 1;
    if(h->magic != MAGIC) {
        if(self) violation(h->magic == FREED ? "double-free" : "bad-free", std::string("operator delete during ") + R.ctx);
        return;
    }
    if(self && R.on && h->gen == R.gen) {
        access(p, h->size, true, false, __builtin_return_address(0));
        Cell* c = cell_of(p);
        for(size_t i = 0; i < h->size; i += 8, ++c) { c->alloc = 0; c->flags = C_FREED; }
        --R.live; R.live_bytes -= h->size;
        memset(ptr, 0xDF, h->size);
    } else if(h->gen == R.gen && R.on) { --R.live; R.live_bytes -= h->size; }
    h->magic = FREED;
}

AllocFaults::AllocFaults() { if(self) ++self->alloc_depth; }
AllocFaults::~AllocFaults() { if(self) --self->alloc_depth; }
NoAllocFaults::NoAllocFaults() : saved(0) { if(self) { saved = self->alloc_depth; self->alloc_depth = -1000; } }
NoAllocFaults::~NoAllocFaults() { if(self) self->alloc_depth = saved; }
void alloc_faults_on_workers(bool on) { R.alloc_workers = on; }
uint64_t live_allocations() { return R.live; }
uint64_t live_bytes() { return R.live_bytes; }
void alloc_limit(uint64_t b) { R.alloc_limit = b; }

// ---- small interface functions ----------------------------------------------------
bool active() { return self != nullptr; }
int tid() { return self ? self->id : -1; }
int64_t now_ns() { return R.now; }
int64_t stalled_ns() { return R.stalled; }
int live_threads() { int n = 0; for(int i = 0; i < R.nth; ++i) if(R.th[i].state != DONE) ++n; return n; }
int threads_created() { return R.nth; }
void yield_point() { if(self) point_sync(1, R.p.p_sync); }
void sleep_ns(int64_t ns) {
    if(!self) return;
    if(ns <= 0) { yield_point(); return; }
    wait_on(W_SLEEP, nullptr, R.now + ns);
}
void stop_faults() { R.faults_off = true; }
bool faults_stopped() { return R.faults_off; }
uint64_t sync_steps() { return R.sync_steps; }
void step_limit_extend(uint64_t n) { R.max_sync = R.sync_steps + n; }
void event(uint64_t what) { if(self) mix(what * 0x9E3779B97F4A7C15ull + 0x5000); }
void describe(std::string const& t) {
    Th* s = self; self = nullptr;
    if(!description) description = new std::string;
    *description = t;
    self = s;
}
void context(char const* t) { R.ctx = t; }
void probe(char const* name) {
    for(int i = 0; i < probe_n; ++i) if(probe_tab[i].name == name || !strcmp(probe_tab[i].name, name)) { ++probe_tab[i].n; return; }
    if(probe_n < 256) probe_tab[probe_n++] = ProbeRec{name, 1};
}
std::vector<std::pair<std::string, uint64_t>> probes() {
    std::vector<std::pair<std::string, uint64_t>> v;
    for(int i = 0; i < probe_n; ++i) v.emplace_back(probe_tab[i].name, probe_tab[i].n);
    return v;
}
void ignore_begin() { if(self) ++self->ignore; }
void ignore_end() { if(self) --self->ignore; }
static MVec<std::pair<uintptr_t, size_t>> prot;
void protect(void const* p, size_t n, char const* what) {
    if(!self) return;
    uintptr_t a = reinterpret_cast<uintptr_t>(p);
    Cell* c = cell_of(a);
    if(!c || (a & 7)) return;
    prot_what = what;
    prot.push_back({a, n});
    for(size_t i = 0; i + 8 <= n; i += 8, ++c) {
        if(c->gen != R.gen) { c->gen = R.gen; c->alloc = 0; c->flags = 0; c->n = 0; c->victim = 0; }
        c->flags |= C_PROT;
    }
}
void unprotect_all() {
    for(auto const& r : prot) {
        Cell* c = cell_of(r.first);
        for(size_t i = 0; i + 8 <= r.second; i += 8, ++c) c->flags &= uint8_t(~C_PROT);
    }
    prot.clear();
}
bool worn() { return R.heap_base > HEAP + HEAP_SIZE / 2; }
int64_t clock_real_ns() { return R.now + R.real_off; }

// ---- running ----------------------------------------------------------------------
static constexpr size_t SIGNAL_STACK = 256 << 10;
static char* signal_stacks;

static void init() {
    static bool done = false;
    if(done) return;
    done = true;
    void* p = mmap(reinterpret_cast<void*>(REG), REG_END - REG, PROT_READ | PROT_WRITE,
                   MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE | MAP_FIXED_NOREPLACE, -1, 0);
    if(p != reinterpret_cast<void*>(REG)) { fprintf(stderr, "sim: cannot map memory\n"); _exit(98); }
    shadow_reg = static_cast<Cell*>(mmap(nullptr, (REG_END - REG) / 8 * sizeof(Cell), PROT_READ | PROT_WRITE,
                   MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0));
    glob_lo = reinterpret_cast<uintptr_t>(__data_start) & ~uintptr_t(7);
    glob_hi = reinterpret_cast<uintptr_t>(_end);
    shadow_glob = static_cast<Cell*>(mmap(nullptr, (glob_hi - glob_lo + 64) / 8 * sizeof(Cell), PROT_READ | PROT_WRITE,
                   MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0));
    objs = static_cast<Obj*>(mmap(nullptr, OBJ_SLOTS * sizeof(Obj), PROT_READ | PROT_WRITE,
                   MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0));
    if(shadow_reg == MAP_FAILED || shadow_glob == MAP_FAILED || objs == MAP_FAILED) {
        fprintf(stderr, "sim: cannot map memory\n"); _exit(98);
    }
    R.rec.reserve(1 << 12);
    // Stacks end at a page that cannot be used; signals are handled elsewhere.
    for(int i = 0; i < MAXT; ++i) mprotect(reinterpret_cast<void*>(stack_lo(i)), 4096, PROT_NONE);
    signal_stacks = static_cast<char*>(mmap(nullptr, MAXT * SIGNAL_STACK, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0));
    if(signal_stacks == MAP_FAILED) { fprintf(stderr, "sim: cannot map memory\n"); _exit(98); }
}

static void use_signal_stack(int slot) {
    stack_t s{};
    s.ss_sp = signal_stacks + size_t(slot) * SIGNAL_STACK;
    s.ss_size = SIGNAL_STACK;
    sigaltstack(&s, nullptr);
}

static void thread_init(Th& t, int id) {
    memset(static_cast<void*>(&t), 0, sizeof t);
    t.id = id; t.state = RUN; t.deadline = -1;
    t.vc.c[id] = 1;
    t.prio = int(R.rng.below(1000)) + 1;
}

static void finish(Th* me) {     // The current thread ends; pass the token on.
    me->state = DONE;
    wake_waiters(W_JOIN, me);
    me->exiting = true;
    self = nullptr;
    if(me->id == 0) return;
    // next_after_block uses only R.
    int to = next_after_block();
    ++R.switches; R.consecutive = 0;
    R.cur = to;
    go_post(&R.th[to]);
}

// What uninitialised variables hold must not depend on earlier runs.
static __attribute__((noinline)) void scrub_stack(size_t n) {
    void* p = __builtin_alloca(n);
    memset(p, 0xA5, n);
    __asm__ volatile("" : : "r"(p) : "memory");
}

static void* trampoline(void* p) {
    Th* t = static_cast<Th*>(p);
    use_signal_stack(t->id);
    scrub_stack(24 << 10);
    go_wait(t);
    self = t;
    point_sync(2, R.p.p_sync);
    t->ret = t->fn(t->arg);
    point_sync(3, R.p.p_sync);
    Obj& o = obj(t);
    release(o);
    finish(t);
    return t->ret;
}

struct Main { std::function<void()> const* fn; };
static void* main_thread(void* p) {
    Th* t = &R.th[0];
    use_signal_stack(0);
    scrub_stack(384 << 10);
    self = t;
    (*static_cast<Main*>(p)->fn)();
    if(live_threads() != 1) violation("thread-leak", "threads outlive the run: " + where_all());
    self = nullptr;
    t->state = DONE;
    return nullptr;
}

static int create_real(pthread_t* h, int slot, void* (*fn)(void*), void* arg) {
    pthread_attr_t a;
    pthread_attr_init(&a);
    pthread_attr_setstack(&a, reinterpret_cast<void*>(stack_lo(slot)), stack_size(slot));
    int e = REAL(pthread_create)(h, &a, fn, arg);
    pthread_attr_destroy(&a);
    return e;
}

Result run(uint64_t seed, Params const& params, Trace const* replay, std::function<void()> const& fn) {
    init();
    R.on = true;
    ++R.gen;
    R.p = params;
    R.seed = seed;
    R.rng = Rng(seed * 2 + 1);
    R.frng = Rng(seed * 2 + 0x777);
    R.replaying = replay != nullptr;
    R.replay = replay; R.replay_i = 0;
    R.replay_faults.clear();
    if(replay) for(auto const& f : replay->faults) R.replay_faults.push_back(f);
    R.rec.clear(); R.rec_faults.clear();
    R.step = R.sync_steps = R.switches = R.consecutive = 0;
    R.max_sync = params.max_sync_steps;
    R.now = 0; R.real_off = 0; R.stalled = 0;
    R.hash = 0xcbf29ce484222325ull; R.inter = 1;
    for(int i = 0; i < F_NR; ++i) R.fault_n[i] = R.injected[i] = 0;
    R.faults_off = false; R.alloc_workers = false; R.alloc_limit = 0;
    R.heap_top = R.heap_base;
    R.live = R.live_bytes = 0;
    R.ctx = "";
    R.next_low_prio = -1;
    prot.clear();
    R.change_points.clear();
    if(params.strategy == 1) {
        for(int i = 0; i < params.change_points; ++i) R.change_points.push_back(R.rng.below(3000));
        for(size_t i = 0; i < R.change_points.size(); ++i)
            for(size_t j = i + 1; j < R.change_points.size(); ++j)
                if(R.change_points[j] > R.change_points[i]) std::swap(R.change_points[i], R.change_points[j]);
    }
    R.nth = 1; R.cur = 0;
    thread_init(R.th[0], 0);
    set_trigger();
    Main m{&fn};
    alarm(60);
    pthread_t h;
    if(create_real(&h, 0, main_thread, &m) != 0) { fprintf(stderr, "sim: cannot create thread\n"); _exit(98); }
    REAL(pthread_join)(h, nullptr);
    for(int i = 1; i < R.nth; ++i) REAL(pthread_join)(R.th[i].handle, nullptr);
    alarm(0);
    R.on = false;
    if(R.live) { if(getenv("SIM_LEAKS")) fprintf(stderr, "leak: seed %llu %llu blocks\n", (unsigned long long)seed, (unsigned long long)R.live); R.heap_base = R.heap_top; }
    Result r;
    fill_result(r);
    // The kernel frees ended threads late: do not let gigabytes of them pile up.
    static uint64_t ended = 0;
    ended += uint64_t(R.nth);
    if(ended > 4000) { ended = 0; syscall(SYS_membarrier, MEMBARRIER_CMD_GLOBAL, 0, 0); }
    ++S.runs; S.steps += R.step; S.sync_steps += R.sync_steps; S.switches += R.switches;
    S.sim_ns += R.now; S.threads += uint64_t(R.nth);
    return r;
}

// Used by the I/O layer.
bool io_active() { return self != nullptr; }
void io_point(int kind) { if(self) point_sync(kind, R.p.p_sync); }
static thread_local Th* parked = nullptr;
Suspend::Suspend() : s(self), outer(parked) { if(self) parked = self; self = nullptr; }
Suspend::~Suspend() { self = static_cast<Th*>(s); parked = static_cast<Th*>(outer); }
Resume::Resume() : s(self) { if(!self) self = parked; }
Resume::~Resume() { self = static_cast<Th*>(s); }

} // namespace sim

using namespace sim;

// =====================================================================================
// Interposed functions.
// =====================================================================================
extern "C" {

int pthread_create(pthread_t* h, pthread_attr_t const* attr, void* (*fn)(void*), void* arg) {
    if(!self) return REAL(pthread_create)(h, attr, fn, arg);
    point_sync(10, R.p.p_sync);
    if(fault(F_THREAD_CREATE)) return EAGAIN;
    if(R.nth >= MAXT) violation("too-many-threads", "more than " + std::to_string(MAXT - 1) + " threads are created in one run");
    int id = R.nth;
    Th& t = R.th[id];
    thread_init(t, id);
    ++R.nth;
    t.fn = fn; t.arg = arg;
    join(t.vc, self->vc);
    t.vc.c[id] = 1;
    ++self->vc.c[self->id];
    if(attr) {
        int ds = 0;
        pthread_attr_getdetachstate(attr, &ds);
        t.detached = ds == PTHREAD_CREATE_DETACHED;
    }
    int e = create_real(&t.handle, id, trampoline, &t);
    if(e != 0) harness_error("pthread_create failed");
    *h = t.handle;
    point_sync(11, R.p.p_sync);
    return 0;
}

static Th* find(pthread_t h) {
    for(int i = R.nth - 1; i > 0; --i) if(pthread_equal(R.th[i].handle, h)) return &R.th[i];
    return nullptr;
}

int pthread_join(pthread_t h, void** ret) {
    if(!self) return REAL(pthread_join)(h, ret);
    point_sync(12, R.p.p_sync);
    Th* t = find(h);
    if(!t) harness_error("join of unknown thread");
    if(t == self) return EDEADLK;
    if(t->joined || t->detached) violation("bad-join", "a thread is joined twice or after detaching");
    while(t->state != DONE) wait_on(W_JOIN, t);
    acquire(obj(t));
    t->joined = true;
    if(ret) *ret = t->ret;
    return 0;
}
int pthread_detach(pthread_t h) {
    if(!self) return REAL(pthread_detach)(h);
    point_sync(13, R.p.p_sync);
    Th* t = find(h);
    if(t) t->detached = true;
    return 0;
}

// ---- mutexes ------------------------------------------------------------------------
static bool mutex_try(pthread_mutex_t* m) {
    Obj& o = obj(m);
    if(o.owner < 0) { o.owner = self->id; o.count = 1; acquire(o); return true; }
    if(o.owner == self->id && (m->__data.__kind & 3) == PTHREAD_MUTEX_RECURSIVE) { ++o.count; return true; }
    return false;
}
static int mutex_lock_until(pthread_mutex_t* m, int64_t deadline, bool real_clock) {
    point_sync(20, R.p.p_sync);
    while(!mutex_try(m)) {
        if(obj(m).owner == self->id) {
            if((m->__data.__kind & 3) == PTHREAD_MUTEX_ERRORCHECK) return EDEADLK;
            if(deadline < 0) violation("deadlock", "a thread locks a mutex it holds already");
        }
        wait_on(W_MUTEX, m, deadline, real_clock);
        if(self->timed_out) return ETIMEDOUT;
    }
    return 0;
}
static void mutex_unlock_(pthread_mutex_t* m) {
    Obj& o = obj(m);
    if(o.owner != self->id) violation("bad-unlock", "a mutex is unlocked by a thread that does not hold it");
    if(--o.count > 0) return;
    o.owner = -1;
    release_store(o);
    wake_waiters(W_MUTEX, m);
}
int pthread_mutex_lock(pthread_mutex_t* m) {
    if(!self) return REAL(pthread_mutex_lock)(m);
    return mutex_lock_until(m, -1, false);
}
int pthread_mutex_trylock(pthread_mutex_t* m) {
    if(!self) return REAL(pthread_mutex_trylock)(m);
    point_sync(21, R.p.p_sync);
    return mutex_try(m) ? 0 : EBUSY;
}
int pthread_mutex_unlock(pthread_mutex_t* m) {
    if(!self) return REAL(pthread_mutex_unlock)(m);
    mutex_unlock_(m);
    point_sync(22, R.p.p_sync);
    return 0;
}
static int64_t const MONO0 = 1000ll * 1000000000ll, REAL0 = 1700000000ll * 1000000000ll;
static int64_t to_sim(timespec const* ts, bool real_clock) {
    int64_t v = int64_t(ts->tv_sec) * 1000000000ll + ts->tv_nsec - (real_clock ? REAL0 : MONO0);
    return v < 0 ? 0 : v;
}
int pthread_mutex_timedlock(pthread_mutex_t* m, timespec const* ts) {
    if(!self) return REAL(pthread_mutex_timedlock)(m, ts);
    return mutex_lock_until(m, to_sim(ts, true), true);
}
int pthread_mutex_clocklock(pthread_mutex_t* m, clockid_t c, timespec const* ts) {
    if(!self) return REAL(pthread_mutex_clocklock)(m, c, ts);
    return mutex_lock_until(m, to_sim(ts, c == CLOCK_REALTIME), c == CLOCK_REALTIME);
}
int pthread_mutex_destroy(pthread_mutex_t* m) {
    if(self && obj(m).owner >= 0) violation("bad-destroy", "a locked mutex is destroyed");
    return REAL(pthread_mutex_destroy)(m);
}

// ---- read/write locks ---------------------------------------------------------------
int pthread_rwlock_rdlock(pthread_rwlock_t* l) {
    if(!self) return REAL(pthread_rwlock_rdlock)(l);
    point_sync(25, R.p.p_sync);
    while(obj(l).owner >= 0) wait_on(W_RW, l);
    Obj& o = obj(l); ++o.count; acquire(o);
    return 0;
}
int pthread_rwlock_tryrdlock(pthread_rwlock_t* l) {
    if(!self) return REAL(pthread_rwlock_tryrdlock)(l);
    point_sync(25, R.p.p_sync);
    Obj& o = obj(l);
    if(o.owner >= 0) return EBUSY;
    ++o.count; acquire(o);
    return 0;
}
int pthread_rwlock_wrlock(pthread_rwlock_t* l) {
    if(!self) return REAL(pthread_rwlock_wrlock)(l);
    point_sync(26, R.p.p_sync);
    while(obj(l).owner >= 0 || obj(l).count > 0) wait_on(W_RW, l);
    Obj& o = obj(l); o.owner = self->id; acquire(o);
    return 0;
}
int pthread_rwlock_trywrlock(pthread_rwlock_t* l) {
    if(!self) return REAL(pthread_rwlock_trywrlock)(l);
    point_sync(26, R.p.p_sync);
    Obj& o = obj(l);
    if(o.owner >= 0 || o.count > 0) return EBUSY;
    o.owner = self->id; acquire(o);
    return 0;
}
int pthread_rwlock_unlock(pthread_rwlock_t* l) {
    if(!self) return REAL(pthread_rwlock_unlock)(l);
    Obj& o = obj(l);
    if(o.owner == self->id) o.owner = -1; else if(o.count > 0) --o.count;
    release(o);
    wake_waiters(W_RW, l);
    point_sync(27, R.p.p_sync);
    return 0;
}

// ---- condition variables --------------------------------------------------------------
static int cond_wait_(pthread_cond_t* c, pthread_mutex_t* m, int64_t deadline, bool real_clock) {
    point_sync(30, R.p.p_sync);
    Obj& mo = obj(m);
    if(mo.owner != self->id) violation("bad-wait", "a condition is waited for without holding the mutex");
    int saved = mo.count;
    mo.owner = -1; mo.count = 0;
    release_store(mo);
    wake_waiters(W_MUTEX, m);
    int ret = 0;
    if(fault(F_SPURIOUS)) {
        point_sync(31, 1.0);
    } else {
        wait_on(W_COND, c, deadline, real_clock);
        if(self->timed_out) ret = ETIMEDOUT;
    }
    mix(ret ? 0x41 : 0x42);
    while(!mutex_try(m)) wait_on(W_MUTEX, m);
    obj(m).count = saved;
    return ret;
}
int pthread_cond_wait(pthread_cond_t* c, pthread_mutex_t* m) {
    if(!self) return REAL(pthread_cond_wait)(c, m);
    return cond_wait_(c, m, -1, false);
}
int pthread_cond_timedwait(pthread_cond_t* c, pthread_mutex_t* m, timespec const* ts) {
    if(!self) return REAL(pthread_cond_timedwait)(c, m, ts);
    return cond_wait_(c, m, to_sim(ts, true), true);
}
int pthread_cond_clockwait(pthread_cond_t* c, pthread_mutex_t* m, clockid_t clk, timespec const* ts) {
    if(!self) return REAL(pthread_cond_clockwait)(c, m, clk, ts);
    return cond_wait_(c, m, to_sim(ts, clk == CLOCK_REALTIME), clk == CLOCK_REALTIME);
}
int pthread_cond_signal(pthread_cond_t* c) {
    if(!self) return REAL(pthread_cond_signal)(c);
    point_sync(32, R.p.p_sync);
    wake_random(W_COND, c, 1);
    point_sync(33, R.p.p_sync);
    return 0;
}
int pthread_cond_broadcast(pthread_cond_t* c) {
    if(!self) return REAL(pthread_cond_broadcast)(c);
    point_sync(34, R.p.p_sync);
    wake_waiters(W_COND, c);
    point_sync(35, R.p.p_sync);
    return 0;
}
int pthread_cond_destroy(pthread_cond_t* c) {
    if(self) {
        for(int i = 0; i < R.nth; ++i)
            if(R.th[i].state == BLK && R.th[i].wait == W_COND && R.th[i].obj == c)
                violation("bad-destroy", "a condition variable is destroyed while a thread waits for it");
        return 0;
    }
    return REAL(pthread_cond_destroy)(c);
}

// ---- once, guards ---------------------------------------------------------------------
int pthread_once(pthread_once_t* ctl, void (*fn)(void)) {
    if(!self) return REAL(pthread_once)(ctl, fn);
    point_sync(40, R.p.p_sync);
    for(;;) {
        if(*ctl == 2) { acquire(obj(ctl)); return 0; }
        if(obj(ctl).once != 1) break;
        wait_on(W_ONCE, ctl);
    }
    obj(ctl).once = 1;
    try { fn(); }
    catch(...) {
        obj(ctl).once = 0;
        wake_waiters(W_ONCE, ctl);
        throw;
    }
    *ctl = 2;
    Obj& o = obj(ctl);
    o.once = 2;
    release(o);
    wake_waiters(W_ONCE, ctl);
    point_sync(41, R.p.p_sync);
    return 0;
}
int __cxa_guard_acquire(long long* g) {
    if(!self) { static auto f = real<int (*)(long long*)>("__cxa_guard_acquire"); return f(g); }
    point_sync(42, R.p.p_sync);
    for(;;) {
        if(*reinterpret_cast<char*>(g)) { acquire(obj(g)); return 0; }
        if(obj(g).once != 1) break;
        wait_on(W_ONCE, g);
    }
    obj(g).once = 1;
    return 1;
}
void __cxa_guard_release(long long* g) {
    if(!self) { static auto f = real<void (*)(long long*)>("__cxa_guard_release"); f(g); return; }
    Obj& o = obj(g);
    if(o.once != 1) { *reinterpret_cast<char*>(g) = 1; return; }
    *reinterpret_cast<char*>(g) = 1;
    o.once = 2;
    release(o);
    wake_waiters(W_ONCE, g);
}
void __cxa_guard_abort(long long* g) {
    if(!self) { static auto f = real<void (*)(long long*)>("__cxa_guard_abort"); f(g); return; }
    obj(g).once = 0;
    wake_waiters(W_ONCE, g);
}

// ---- futex (std::future, std::atomic::wait) -------------------------------------------
static long sim_futex(int* addr, int op, int val, timespec const* ts, int /*val3*/) {
    int cmd = op & ~(FUTEX_PRIVATE_FLAG | FUTEX_CLOCK_REALTIME);
    if(cmd == FUTEX_WAIT || cmd == FUTEX_WAIT_BITSET) {
        point_sync(50, R.p.p_sync);
        if(__atomic_load_n(addr, __ATOMIC_SEQ_CST) != val) { errno = EAGAIN; return -1; }
        int64_t deadline = -1;
        bool rc = false;
        if(ts) {
            if(cmd == FUTEX_WAIT) deadline = R.now + int64_t(ts->tv_sec) * 1000000000ll + ts->tv_nsec;
            else { rc = op & FUTEX_CLOCK_REALTIME; deadline = to_sim(ts, rc); }
        }
        if(fault(F_SPURIOUS)) { point_sync(51, 1.0); errno = EINTR; return -1; }
        wait_on(W_FUTEX, addr, deadline, rc);
        if(self->timed_out) { errno = ETIMEDOUT; return -1; }
        return 0;
    }
    if(cmd == FUTEX_WAKE || cmd == FUTEX_WAKE_BITSET) {
        point_sync(52, R.p.p_sync);
        int n = 0;
        for(int i = 0; i < R.nth; ++i) if(R.th[i].state == BLK && R.th[i].wait == W_FUTEX && R.th[i].obj == addr) ++n;
        if(n > val) n = val;
        wake_random(W_FUTEX, addr, n);
        point_sync(53, R.p.p_sync);
        return n;
    }
    harness_error("unsupported futex operation");
}
long syscall(long nr, ...) {
    va_list ap;
    va_start(ap, nr);
    long a[6];
    for(int i = 0; i < 6; ++i) a[i] = va_arg(ap, long);
    va_end(ap);
    if(self && nr == SYS_futex)
        return sim_futex(reinterpret_cast<int*>(a[0]), int(a[1]), int(a[2]), reinterpret_cast<timespec const*>(a[3]), int(a[5]));
    long r = raw6(nr, a[0], a[1], a[2], a[3], a[4], a[5]);
    if(r < 0 && r > -4096) { errno = int(-r); return -1; }
    return r;
}

// ---- semaphores -------------------------------------------------------------------------
int sem_init(sem_t* s, int sh, unsigned v) {
    if(!self) return REAL(sem_init)(s, sh, v);
    Obj& o = obj(s); o.init = true; o.count = int(v);
    return 0;
}
int sem_wait(sem_t* s) {
    if(!self) return REAL(sem_wait)(s);
    point_sync(60, R.p.p_sync);
    while(obj(s).count <= 0) wait_on(W_SEM, s);
    Obj& o = obj(s); --o.count; acquire(o);
    return 0;
}
int sem_trywait(sem_t* s) {
    if(!self) return REAL(sem_trywait)(s);
    point_sync(60, R.p.p_sync);
    Obj& o = obj(s);
    if(o.count <= 0) { errno = EAGAIN; return -1; }
    --o.count; acquire(o);
    return 0;
}
int sem_post(sem_t* s) {
    if(!self) return REAL(sem_post)(s);
    point_sync(61, R.p.p_sync);
    Obj& o = obj(s); ++o.count; release(o);
    wake_waiters(W_SEM, s, 1);
    return 0;
}

// ---- time -------------------------------------------------------------------------------
int clock_gettime(clockid_t c, timespec* ts) {
    if(!self) return int(raw6(SYS_clock_gettime, c, (long)ts, 0, 0, 0, 0)) ? (errno = EINVAL, -1) : 0;
    bool rc = c == CLOCK_REALTIME || c == CLOCK_REALTIME_COARSE;
    R.now += 20;
    int64_t v = rc ? REAL0 + R.now + R.real_off : MONO0 + R.now;
    ts->tv_sec = v / 1000000000ll; ts->tv_nsec = v % 1000000000ll;
    return 0;
}
int gettimeofday(timeval* tv, void* tz) {
    (void)tz;
    timespec ts;
    clock_gettime(CLOCK_REALTIME, &ts);
    tv->tv_sec = ts.tv_sec; tv->tv_usec = ts.tv_nsec / 1000;
    return 0;
}
time_t time(time_t* t) {
    timespec ts;
    clock_gettime(CLOCK_REALTIME, &ts);
    if(t) *t = ts.tv_sec;
    return ts.tv_sec;
}
int nanosleep(timespec const* ts, timespec* rem) {
    if(!self) return REAL(nanosleep)(ts, rem);
    sim::sleep_ns(int64_t(ts->tv_sec) * 1000000000ll + ts->tv_nsec);
    return 0;
}
int clock_nanosleep(clockid_t c, int flags, timespec const* ts, timespec* rem) {
    if(!self) return REAL(clock_nanosleep)(c, flags, ts, rem);
    if(flags & TIMER_ABSTIME) {
        bool rc = c == CLOCK_REALTIME;
        int64_t d = to_sim(ts, rc);
        wait_on(W_SLEEP, nullptr, d, rc);
    } else sim::sleep_ns(int64_t(ts->tv_sec) * 1000000000ll + ts->tv_nsec);
    return 0;
}
int usleep(useconds_t us) {
    if(!self) return REAL(usleep)(us);
    sim::sleep_ns(int64_t(us) * 1000);
    return 0;
}
int sched_yield(void) {
    if(!self) return REAL(sched_yield)();
    point_sync(70, R.p.p_sync > 0.5 ? R.p.p_sync : 0.5);
    return 0;
}
int get_nprocs(void) { return self ? R.p.cpus : REAL(get_nprocs)(); }
int get_nprocs_conf(void) { return self ? R.p.cpus : REAL(get_nprocs_conf)(); }

} // extern "C"

// ---- operator new / delete ----------------------------------------------------------------
// Blocks that the program itself (not one of the libraries) allocates while the
// simulation is suspended end with a guard that is looked at when they are freed.
extern "C" char __executable_start, etext;
static constexpr uint64_t GUARDED = 0x6A09E667F3BCC908ull;
static void* guarded(size_t n) {
    auto* p = static_cast<unsigned char*>(malloc(n + 16));
    if(!p) return nullptr;
    asm volatile("" : "+r"(p));          // Not of a known size.
    size_t const end = malloc_usable_size(p) - 8;
    uint64_t const tag = GUARDED ^ n;
    memset(p + n, 0xC7, end - n);
    memcpy(p + end, &tag, 8);
    return p;
}
static void look_at_guard(void* block) {
    auto* p = static_cast<unsigned char*>(block);
    size_t const usable = malloc_usable_size(p);
    uint64_t tag;
    if(usable < 16) return;
    memcpy(&tag, p + usable - 8, 8);
    uint64_t const n = tag ^ GUARDED;
    if(n + 16 > usable) return;
    for(size_t i = n; i < usable - 8; ++i)
        if(p[i] != 0xC7) { Resume r; if(self) violation("bad-access", "bytes behind the end of a block of " + std::to_string(n) + " bytes are overwritten, during " + current_context()); return; }
    tag = 0;
    memcpy(p + usable - 8, &tag, 8);
}
static void forget_guard(void* block) {
    asm volatile("" : "+r"(block));
    size_t const usable = malloc_usable_size(block);
    if(usable >= 16) memset(static_cast<char*>(block) + usable - 8, 0, 8);
}
static bool inside(void const* caller) { return caller >= &__executable_start && caller < &etext; }
static void* new_impl(size_t n, size_t align, bool nothrow, void const* caller) {
    void* p;
    if(self) p = sim_new(n ? n : 1, align);
    else if(parked && align <= 16 && inside(caller)) p = guarded(n);
    else p = align > 16 ? aligned_alloc(align, (n + align - 1) / align * align) : malloc(n ? n : 1);
    if(p && !self && !(parked && align <= 16 && inside(caller))) forget_guard(p);
    if(!p && !nothrow) throw std::bad_alloc();
    return p;
}
static void delete_impl(void* p) {
    if(!p) return;
    uintptr_t a = reinterpret_cast<uintptr_t>(p);
    if(a >= HEAP && a < REG_END) sim_delete(p);
    else { if(parked) look_at_guard(p); free(p); }
}
void* operator new(size_t n) { return new_impl(n, 16, false, __builtin_return_address(0)); }
void* operator new[](size_t n) { return new_impl(n, 16, false, __builtin_return_address(0)); }
void* operator new(size_t n, std::nothrow_t const&) noexcept { return new_impl(n, 16, true, __builtin_return_address(0)); }
void* operator new[](size_t n, std::nothrow_t const&) noexcept { return new_impl(n, 16, true, __builtin_return_address(0)); }
void* operator new(size_t n, std::align_val_t a) { return new_impl(n, size_t(a), false, __builtin_return_address(0)); }
void* operator new[](size_t n, std::align_val_t a) { return new_impl(n, size_t(a), false, __builtin_return_address(0)); }
void operator delete(void* p) noexcept { delete_impl(p); }
void operator delete[](void* p) noexcept { delete_impl(p); }
void operator delete(void* p, size_t) noexcept { delete_impl(p); }
void operator delete[](void* p, size_t) noexcept { delete_impl(p); }
void operator delete(void* p, std::nothrow_t const&) noexcept { delete_impl(p); }
void operator delete[](void* p, std::nothrow_t const&) noexcept { delete_impl(p); }
void operator delete(void* p, std::align_val_t) noexcept { delete_impl(p); }
void operator delete[](void* p, std::align_val_t) noexcept { delete_impl(p); }
void operator delete(void* p, size_t, std::align_val_t) noexcept { delete_impl(p); }
void operator delete[](void* p, size_t, std::align_val_t) noexcept { delete_impl(p); }

// =====================================================================================
// Calls the compiler inserts with -fsanitize=thread.
// =====================================================================================
#define PC __builtin_return_address(0)
#define AC(p, n, w) access(reinterpret_cast<uintptr_t>(p), n, w, false, PC)
extern "C" {
void __tsan_init() {}
void __tsan_func_entry(void*) {}
void __tsan_func_exit() {}
void __tsan_read1(void* p) { AC(p, 1, false); }
void __tsan_read2(void* p) { AC(p, 2, false); }
void __tsan_read4(void* p) { AC(p, 4, false); }
void __tsan_read8(void* p) { AC(p, 8, false); }
void __tsan_read16(void* p) { AC(p, 16, false); }
void __tsan_write1(void* p) { AC(p, 1, true); }
void __tsan_write2(void* p) { AC(p, 2, true); }
void __tsan_write4(void* p) { AC(p, 4, true); }
void __tsan_write8(void* p) { AC(p, 8, true); }
void __tsan_write16(void* p) { AC(p, 16, true); }
void __tsan_unaligned_read2(void* p) { AC(p, 2, false); }
void __tsan_unaligned_read4(void* p) { AC(p, 4, false); }
void __tsan_unaligned_read8(void* p) { AC(p, 8, false); }
void __tsan_unaligned_read16(void* p) { AC(p, 16, false); }
void __tsan_unaligned_write2(void* p) { AC(p, 2, true); }
void __tsan_unaligned_write4(void* p) { AC(p, 4, true); }
void __tsan_unaligned_write8(void* p) { AC(p, 8, true); }
void __tsan_unaligned_write16(void* p) { AC(p, 16, true); }
void __tsan_read_range(void* p, size_t n) { AC(p, n, false); }
void __tsan_write_range(void* p, size_t n) { AC(p, n, true); }
// A destructor resetting the vtable pointer writes the value that is there
// already in most cases; as in TSan, that is not a race.
void __tsan_vptr_update(void** p, void* v) { if(*p != v) AC(p, 8, true); else AC(p, 8, false); }
void __tsan_vptr_read(void** p) { AC(p, 8, false); }

void* __real_memcpy(void*, void const*, size_t);
void* __real_memmove(void*, void const*, size_t);
void* __real_memset(void*, int, size_t);
void* __wrap_memcpy(void* d, void const* s, size_t n) {
    if(self) { AC(s, n, false); AC(d, n, true); }
    return __real_memcpy(d, s, n);
}
void* __wrap_memmove(void* d, void const* s, size_t n) {
    if(self) { AC(s, n, false); AC(d, n, true); }
    return __real_memmove(d, s, n);
}
void* __wrap_memset(void* d, int c, size_t n) {
    if(self) AC(d, n, true);
    return __real_memset(d, c, n);
}

// Memory orders: 0 relaxed, 1 consume, 2 acquire, 3 release, 4 acq_rel, 5 seq_cst.
static inline bool is_acq(int mo) { return mo == 1 || mo == 2 || mo == 4 || mo == 5; }
static inline bool is_rel(int mo) { return mo == 3 || mo == 4 || mo == 5; }

static void at_load(void* p, size_t n, int mo, void* pc) {
    point_sync(80, R.p.p_atomic);
    access(reinterpret_cast<uintptr_t>(p), n, false, true, pc);
    Obj& o = obj(p);
    if(is_acq(mo)) acquire(o);
    else { if(!self->has_acq_pending) { memset(&self->acq_pending, 0, sizeof(VC)); self->has_acq_pending = true; } join(self->acq_pending, o.vc); }
}
static void at_store(void* p, size_t n, int mo, void* pc) {
    point_sync(81, R.p.p_atomic);
    access(reinterpret_cast<uintptr_t>(p), n, true, true, pc);
    Obj& o = obj(p);
    if(is_rel(mo)) release_store(o);
    else if(self->has_rel_fence) o.vc = self->rel_fence;
    else memset(&o.vc, 0, sizeof(VC));
}
static void at_rmw(void* p, size_t n, int mo, void* pc, bool wrote) {
    Obj& o = obj(p);
    (void)n; (void)pc;
    if(is_acq(mo)) acquire(o);
    else { if(!self->has_acq_pending) { memset(&self->acq_pending, 0, sizeof(VC)); self->has_acq_pending = true; } join(self->acq_pending, o.vc); }
    if(wrote) {
        if(is_rel(mo)) release(o);
        else if(self->has_rel_fence) join(o.vc, self->rel_fence);
    }
}
#define RMW_PRE(p, n) if(self) { point_sync(82, R.p.p_atomic); access(reinterpret_cast<uintptr_t>(p), n, true, true, PC); }
#define RMW_POST(p, n, mo, w) if(self) at_rmw(const_cast<void*>(reinterpret_cast<void volatile*>(p)), n, mo, PC, w);

#define ATOMICS(B, T) \
T __tsan_atomic##B##_load(T const volatile* p, int mo) { if(self) at_load(const_cast<T*>(p), sizeof(T), mo, PC); return __atomic_load_n(p, __ATOMIC_SEQ_CST); } \
void __tsan_atomic##B##_store(T volatile* p, T v, int mo) { if(self) at_store(const_cast<T*>(p), sizeof(T), mo, PC); __atomic_store_n(p, v, __ATOMIC_SEQ_CST); } \
T __tsan_atomic##B##_exchange(T volatile* p, T v, int mo) { RMW_PRE(p, sizeof(T)) T r = __atomic_exchange_n(p, v, __ATOMIC_SEQ_CST); RMW_POST(p, sizeof(T), mo, true) return r; } \
T __tsan_atomic##B##_fetch_add(T volatile* p, T v, int mo) { RMW_PRE(p, sizeof(T)) T r = __atomic_fetch_add(p, v, __ATOMIC_SEQ_CST); RMW_POST(p, sizeof(T), mo, true) return r; } \
T __tsan_atomic##B##_fetch_sub(T volatile* p, T v, int mo) { RMW_PRE(p, sizeof(T)) T r = __atomic_fetch_sub(p, v, __ATOMIC_SEQ_CST); RMW_POST(p, sizeof(T), mo, true) return r; } \
T __tsan_atomic##B##_fetch_and(T volatile* p, T v, int mo) { RMW_PRE(p, sizeof(T)) T r = __atomic_fetch_and(p, v, __ATOMIC_SEQ_CST); RMW_POST(p, sizeof(T), mo, true) return r; } \
T __tsan_atomic##B##_fetch_or(T volatile* p, T v, int mo) { RMW_PRE(p, sizeof(T)) T r = __atomic_fetch_or(p, v, __ATOMIC_SEQ_CST); RMW_POST(p, sizeof(T), mo, true) return r; } \
T __tsan_atomic##B##_fetch_xor(T volatile* p, T v, int mo) { RMW_PRE(p, sizeof(T)) T r = __atomic_fetch_xor(p, v, __ATOMIC_SEQ_CST); RMW_POST(p, sizeof(T), mo, true) return r; } \
T __tsan_atomic##B##_fetch_nand(T volatile* p, T v, int mo) { RMW_PRE(p, sizeof(T)) T r = __atomic_fetch_nand(p, v, __ATOMIC_SEQ_CST); RMW_POST(p, sizeof(T), mo, true) return r; } \
int __tsan_atomic##B##_compare_exchange_strong(T volatile* p, T* c, T v, int mo, int) { RMW_PRE(p, sizeof(T)) bool ok = __atomic_compare_exchange_n(p, c, v, false, __ATOMIC_SEQ_CST, __ATOMIC_SEQ_CST); RMW_POST(p, sizeof(T), mo, ok) return ok; } \
int __tsan_atomic##B##_compare_exchange_weak(T volatile* p, T* c, T v, int mo, int) { RMW_PRE(p, sizeof(T)) bool ok = __atomic_compare_exchange_n(p, c, v, false, __ATOMIC_SEQ_CST, __ATOMIC_SEQ_CST); RMW_POST(p, sizeof(T), mo, ok) return ok; } \
T __tsan_atomic##B##_compare_exchange_val(T volatile* p, T c, T v, int mo, int) { RMW_PRE(p, sizeof(T)) bool ok = __atomic_compare_exchange_n(p, &c, v, false, __ATOMIC_SEQ_CST, __ATOMIC_SEQ_CST); RMW_POST(p, sizeof(T), mo, ok) return c; }
ATOMICS(8, uint8_t)
ATOMICS(16, uint16_t)
ATOMICS(32, uint32_t)
ATOMICS(64, uint64_t)

void __tsan_atomic_thread_fence(int mo) {
    if(!self) return;
    point_sync(83, R.p.p_atomic);
    if(is_acq(mo) && self->has_acq_pending) join(self->vc, self->acq_pending);
    if(is_rel(mo)) { self->rel_fence = self->vc; self->has_rel_fence = true; ++self->vc.c[self->id]; }
}
void __tsan_atomic_signal_fence(int) {}
} // extern "C"
