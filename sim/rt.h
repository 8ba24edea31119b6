// Deterministic simulator: public interface for the harnesses.
//
// One simulated run executes a function as simulated thread 0.  All threads it
// creates (through pthread_create, so also std::thread) are real threads, but
// only one of them runs at any moment: a seeded scheduler decides at every
// synchronisation call, atomic operation, plain memory access (of instrumented
// code) and simulated system call which one continues.  Time is simulated.
#pragma once
#include <cstddef>
#include <cstdint>
#include <functional>
#include <string>
#include <vector>

namespace sim {

// ---- random numbers ---------------------------------------------------------------
struct Rng {
    uint64_t s;
    explicit Rng(uint64_t seed = 1) : s(seed * 0x9E3779B97F4A7C15ull + 0x1234567ull) { next(); next(); }
    uint64_t next() {
        uint64_t z = (s += 0x9E3779B97F4A7C15ull);
        z = (z ^ (z >> 30)) * 0xBF58476D1CE4E5B9ull;
        z = (z ^ (z >> 27)) * 0x94D049BB133111EBull;
        return z ^ (z >> 31);
    }
    uint64_t below(uint64_t n) { return n ? next() % n : 0; }
    // Inclusive range.
    int64_t range(int64_t a, int64_t b) { return a + static_cast<int64_t>(below(static_cast<uint64_t>(b - a + 1))); }
    double real() { return static_cast<double>(next() >> 11) * (1.0 / 9007199254740992.0); }
    bool chance(double p) { return real() < p; }
};

// ---- fault kinds ------------------------------------------------------------------
enum Fault : uint8_t {
    F_ALLOC,          // an operator new fails
    F_THREAD_CREATE,  // pthread_create fails with EAGAIN
    F_SPURIOUS,       // a condition variable or futex wait returns early
    F_STALL,          // the running thread is descheduled for some simulated time
    F_CLOCK_JUMP,     // the realtime clock jumps
    F_IO_ERROR,       // an I/O call fails
    F_IO_SHORT,       // an I/O call transfers less than asked
    F_IO_EINTR,       // an I/O call is interrupted
    F_IO_CORRUPT,     // delivered bytes are damaged
    F_IO_EOF,         // the file or stream turns out to end here
    F_IO_DELAY,       // an I/O call takes long
    F_USER,           // a fault of the harness's own (throwing element, ...)
    F_NR
};
extern char const* const fault_name[F_NR];

struct Decision {        // One deviation from the default schedule.
    uint64_t step;
    int tid;
};
struct FaultAt {         // The n-th eligible point of this kind fails.
    Fault kind;
    uint64_t nth;
    int64_t arg;
};

struct Trace {
    std::vector<Decision> schedule;
    std::vector<FaultAt> faults;
};

// ---- swarm parameters of one run --------------------------------------------------
struct Params {
    // Scheduler.
    int strategy = 0;          // 0 random walk, 1 priorities with change points, 2 run to block
    double p_sync = 0.3;       // chance of a switch at a synchronisation point
    double p_atomic = 0.3;
    double p_plain = 0.0;      // ... at a plain memory access of shared memory
    int change_points = 3;     // strategy 1
    int slow_thread = -1;      // this thread is chosen rarely
    // Fault probabilities per eligible point.
    double p_fault[F_NR] = {};
    uint64_t max_faults[F_NR] = {};
    // Limits.
    uint64_t max_sync_steps = 400000;
    uint64_t max_steps = 80000000;
    int64_t max_time_ns = 120ll * 1000000000ll;
    int cpus = 4;              // what the machine reports
};

struct Stats {
    uint64_t runs = 0, steps = 0, sync_steps = 0, switches = 0, races_checked = 0;
    int64_t sim_ns = 0;
    uint64_t fault_injected[F_NR] = {};
    uint64_t fault_points[F_NR] = {};
    uint64_t threads = 0;
};
Stats& stats();              // Accumulated over all runs of this process.

struct Result {
    uint64_t hash = 0;         // of the complete event sequence
    uint64_t interleaving = 0; // of the sequence of (thread, kind of sync operation)
    uint64_t steps = 0, sync_steps = 0, switches = 0;
    int64_t sim_ns = 0;
    uint64_t injected[F_NR] = {};
    int threads = 0;
    Trace trace;
};

// Execute fn as simulated thread 0.  If replay is given, its decisions and
// faults are used instead of random ones.
Result run(uint64_t seed, Params const& params, Trace const* replay, std::function<void()> const& fn);

// ---- called from inside a run -----------------------------------------------------
bool active();               // The calling thread is simulated.
int tid();
int64_t now_ns();            // Simulated time since the start of the run.
int live_threads();          // Simulated threads that have not ended, including the caller.
int threads_created();       // Threads created so far in this run.
void yield_point();          // A scheduling point.
void sleep_ns(int64_t ns);   // Simulated sleep.
void stop_faults();          // No more faults in this run.
bool faults_stopped();
uint64_t sync_steps();
void step_limit_extend(uint64_t sync_steps_from_now);

// Ask whether to inject a fault here; if so, *arg is a random number in [0, arg_range).
bool fault(Fault kind, int64_t arg_range = 0, int64_t* arg = nullptr);
uint64_t injected(Fault kind);

// Enables allocation failures on the calling thread (depth counted).
struct AllocFaults { AllocFaults(); ~AllocFaults(); };
// Disables them (harness bookkeeping inside callbacks).
struct NoAllocFaults { NoAllocFaults(); ~NoAllocFaults(); int saved; };
// Makes all threads other than thread 0 eligible for allocation failures.
void alloc_faults_on_workers(bool on);
uint64_t live_allocations();     // Live operator new blocks made in this run.
uint64_t live_bytes();
void alloc_limit(uint64_t bytes);// A single larger allocation fails (0: no limit).
void event(uint64_t what);       // Mix an observation into the run's hash.
void describe(std::string const& text);  // What this run does; kept for reports.
void context(char const* text);  // What is being called now; kept for reports.
void probe(char const* name);    // Count a rare condition reached (name must be a literal).
std::vector<std::pair<std::string, uint64_t>> probes();

// Shadow-state control for data the harness itself shares on purpose.
void ignore_begin();             // The calling thread's accesses are not checked ...
void ignore_end();
// Writes to [p, p + n) are violations until unprotect_all() (inputs of an algorithm).
void protect(void const* p, size_t n, char const* what);
void unprotect_all();

// The calling thread is not simulated while this exists (oracles that need
// memory of their own).  No scheduling point may be reached meanwhile.
struct Suspend { Suspend(); ~Suspend(); void* s; void* outer; };
// Back into the simulation for a moment, inside a Suspend (simulated devices
// called by code that is not simulated itself).  Does nothing elsewhere.
struct Resume { Resume(); ~Resume(); void* s; };

[[noreturn]] void violation(std::string const& kind, std::string const& detail);
[[noreturn]] void harness_error(std::string const& what);
bool worn();             // Blocks that earlier runs left use up half of the heap.

inline void check(bool ok, std::string const& kind, std::string const& detail = "") {
    if(!ok) violation(kind, detail);
}

// How violation() reports: set by the driver.
extern void (*on_violation)(std::string const& kind, std::string const& detail);

} // namespace sim
